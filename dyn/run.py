"""dyn/run.py PROP TIER SEED BUDGET OUT: runs the harnesses of a property."""
import importlib
import json
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dyn import base  # noqa: E402

AREAS = ["h_timer", "h_sd", "h_filter", "h_proto", "h_conf", "h_server",
         "h_eventloop", "h_client", "h_xcm", "h_domains", "h_daemon"]


def harnesses(prop):
    out = []
    for a in AREAS:
        if not os.path.exists(os.path.join(base.HERE, a + ".py")):
            continue
        m = importlib.import_module("dyn." + a)
        out += m.HARNESSES.get(prop, [])
    return out


def main():
    prop, tier, seed, budget, out = sys.argv[1:6]
    sys.setrecursionlimit(1000)
    res = base.Result()
    hs = []
    try:
        mods = base.load()
        hs = harnesses(prop)
    except Exception:
        res.errors.append(traceback.format_exc()[-1500:])
    for h in hs:
        try:
            base.drive(h(mods, prop), int(seed), float(budget) / len(hs), res)
        except Exception:
            res.errors.append("%s: %s" % (h.name,
                                          traceback.format_exc()[-1500:]))
        json.dump(vars(res), open(out, "w"), default=str)
    json.dump(vars(res), open(out, "w"), default=str)


def replay(path):
    d = json.load(open(path))
    mods = base.load()
    for h in harnesses(d["property"]):
        if h.name == d["harness"]:
            why = h(mods, d["property"]).attempt(d["case"])
            print("REPRODUCED: %s" % why if why else "not reproduced")
            return 1 if why else 0
    print("no such harness")
    return 2


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    main()
