"""python -m gv.replay FILE: run the recorded input against the current code."""
import pickle
import sys

from . import conc, spec as S


def main(path):
    S.loadall()
    head = {}
    for ln in open(path):
        if ln.startswith("input:"):
            break
        k, _, v = ln.partition(": ")
        head[k] = v.strip()
    args = pickle.load(open(path + ".pkl", "rb"))
    if "contract" in head:
        m = conc.run_contract(S.REGISTRY[head["contract"]], args)
    else:
        m = S.SCEN[head["scenario"]].run(**args)
    print("violation: %s" % m if m else "no violation")
    return 1 if m else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
