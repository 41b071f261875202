#!/usr/bin/env python3
"""Records a fingerprint (AST without docstrings and positions) of every function of /repo, in contracts/prints.json.

A solver timeout is reported only when some function executed by the unit is not as recorded: on the recorded code every
obligation is discharged, so a timeout there is a matter of machine speed; on changed code it is a proof that is lost.
contracts/loops.json records the loops, so that invariants find theirs in changed code."""
import sys, os, json, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "pv"))
from prints import prints_of, loops_of

if __name__ == "__main__":
    root = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    out = {k: sorted(v) for k, v in sorted(prints_of(root).items())}
    json.dump(out, open(os.path.join(HERE, "contracts", "prints.json"), "w"), indent=0)
    loops = dict(sorted(loops_of(root).items()))
    json.dump(loops, open(os.path.join(HERE, "contracts", "loops.json"), "w"), indent=0)
    print(len(out), "functions,", sum(map(len, loops.values())), "loops")
