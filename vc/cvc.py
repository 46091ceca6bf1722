"""second back end: cvc5 on an SMT-LIB dump"""
import os
import subprocess
import tempfile


def unsat(smt2, timeout_ms):
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write("(set-logic ALL)\n" + smt2)
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout_ms, "--nl-ext-tplanes", p], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=timeout_ms / 1000 + 10)
        return r.stdout.strip().startswith("unsat")
    except subprocess.TimeoutExpired:
        return False
    finally:
        os.unlink(p)
