from . import hop, mkspec
EXTRA = ["the selection probabilities are non-negative and the first update's is positive (BuildNew is shown to set 1/number of updates)"]
mkspec.fill(globals(), "C10")
updates = tasks


def tasks(prog, lay, tier):
    return updates(prog, lay, tier) + [hop.hop(lay), hop.build(lay)]
