from . import mkspec
mkspec.fill(globals(), "C09")
