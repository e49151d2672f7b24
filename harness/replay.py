#!/usr/bin/env python3
"""replay.py ADAPTER DIR SEED      replay the ITF traces of DIR, result as JSON on stdout
replay.py ADAPTER --history FILE  replay a recorded violation verbosely"""
import importlib
import json
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import core  # noqa: E402


def main():
    name, what = sys.argv[1], sys.argv[2]
    core.load_code()
    try:
        ad = importlib.import_module("adapters." + name)
    except ImportError as e:
        if "openspace" in str(e):
            print(json.dumps({"cases": 0, "outputs": 0, "states": 0, "traces": 0, "distinct": [], "ops": {}, "margin": {},
                              "samples": [], "known": [], "failures": [{"case": {"op": "import", "why": str(e)}}]}))
            return 0
        raise
    if what == "--history":
        d = json.load(open(sys.argv[3]))
        ctx = ad.Ctx()
        bad_any = False
        for h in d["history"]:
            case = {"op": h["op"], "s": h["s"], "a": [int(x) for x in h["a"]],
                    "e": [{"k": o["k"], "v": int(o["v"]), "t": int(o["t"])} for o in h["e"]]}
            bad, got, _ = core.run_case(ad.OPS, ctx, case)
            print(json.dumps(core.show(case)))
            print("   observed", got)
            for b in bad:
                bad_any = True
                print("   MISMATCH output %d: %s" % b)
        return 1 if bad_any else 0
    random.seed(int(sys.argv[3]))
    res = core.Result()
    for fn in sorted(os.listdir(what)):
        tr = json.load(open(os.path.join(what, fn)))
        core.replay_trace(ad.OPS, ad.Ctx, tr["states"], res, fn)
        if res.failures:
            break
    known = sorted(set(res.known))
    if core.DETAIL:
        res.margin.update({"%s[%d]" % k: v for k, v in core.DETAIL.items() if k != "on"})
    print(json.dumps({"cases": res.cases, "outputs": res.outputs, "states": res.states, "traces": res.traces,
                      "distinct": [x.hex() for x in res.distinct], "ops": res.ops, "margin": res.margin,
                      "samples": res.samples, "failures": res.failures, "known": known}))
    return 0


if __name__ == "__main__":
    sys.exit(main())
