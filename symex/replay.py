"""python -m symex.replay FILE -- replay a counterexample on the unpatched code.
Exit 1 if the property is violated by these inputs, 0 if it holds, 3 if they are void."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def main():
    d = json.load(open(sys.argv[1]))
    from symex import runner, explore
    mod = runner.load(d["property"])
    h = None
    for tier in ("quick", "thorough"):
        for x in mod.harnesses(tier) + getattr(mod, "known_harnesses", list)():
            if x["name"] == d["harness"]:
                h = x
                break
        if h:
            break
    if h is None:
        print("no such harness", d["harness"])
        sys.exit(3)
    st, bad = explore.run_concrete(h["fn"], d["values"], h.get("params", {}), tier)
    print(st, bad)
    sys.exit({"ok": 0, "violated": 1, "void": 3}[st])


if __name__ == "__main__":
    main()
