#!/usr/bin/env python3
"""table.py FILE VIEW SEED PART PARTS LIMIT
Puts the states TLC printed for spec/tla/Calendar.tla into the code, one call
each.  Result as JSON on stdout, like replay.py."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import core  # noqa: E402


def calendar(row):
    y, m, d, h, mi, s, day, sec = row
    fx = core.fx
    v = fx(day) + fx(sec) // 86400
    jd = v + fx(2400000.5)
    return {"op": "gregorian", "s": [], "a": [fx(x) for x in (y, m, d, h, mi, s)], "e": [
        {"k": "R", "v": v, "t": fx(2.0 ** -34)}, {"k": "R", "v": jd, "t": fx(2.0 ** -29)},
        {"k": "R", "v": (jd - fx(2451545)) // 36525, "t": fx(2.0 ** -42)}]}


def main():
    path, view, part, parts, limit = sys.argv[1], sys.argv[2], *map(int, sys.argv[4:7])
    core.load_code()
    res = core.Result()
    total = taken = 0
    try:
        ad = importlib.import_module("adapters.timesys")
    except ImportError as e:
        if "openspace" not in str(e):
            raise
        res.failures.append({"case": {"op": "import", "why": str(e)}})
        ad = None
    if ad:
        rows = (json.loads(json.loads(x)) for x in open(path) if x.startswith('"['))
        cases = []
        for n, row in enumerate(rows):
            total += 1
            if n % parts == part and (not limit or n // parts < limit):
                taken += 1
                cases.append(calendar(row))
        core.replay_trace(ad.OPS, ad.Ctx, [{"cases": cases}], res, "calendar")
    for f in res.failures:
        f["history"] = f.get("history", [])[-1:]
    print(json.dumps({"cases": res.cases, "outputs": res.outputs, "states": 0, "traces": res.traces,
                      "distinct": [x.hex() for x in res.distinct], "ops": res.ops, "margin": res.margin, "samples": res.samples[:1],
                      "failures": res.failures, "known": [], "edges": taken, "edges_total": total}))
    return 0


if __name__ == "__main__":
    sys.exit(main())
