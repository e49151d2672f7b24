#!/usr/bin/env python3
"""graph.py FILE VIEW SEED PART PARTS LIMIT
Walks through the transitions TLC printed for spec/tla/Fleet.tla (FILE) until
every transition of this part has been taken, and replays the walks on real
spacecraft.  Result as JSON on stdout, like replay.py."""
import collections
import json
import math
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import core  # noqa: E402

TICK = 8 / 4096          # days; one Runge-Kutta step of 168.75 s
T0 = 58849.0
WALK = 60                # operations per walk
FX = core.fx
X = {"k": "X", "v": 0, "t": 0}


def load(path):
    """-> initial states, {state: [(op, next, upd, flown)]}"""
    graph, targets = {}, set()
    for line in open(path):
        if not line.startswith('"[['):
            continue
        tick, mode, due, k, i, j, tick2, mode2, due2, upd, flown = json.loads(json.loads(line))
        a = (tuple(tick), tuple(mode), tuple(due))
        b = (tuple(tick2), tuple(mode2), tuple(due2))
        graph.setdefault(a, []).append(((k, i, j), b, frozenset(upd), frozenset(flown)))
        targets.add(b)
    init = [s for s in graph if not any(s[1]) and all(d == -1 for d in s[2]) and s[0][0] == 0]
    missing = targets - set(graph)
    if missing:
        raise RuntimeError("machinery: %d states without transitions" % len(missing))
    return sorted(init), graph


def walks(init, graph, mine, rng):
    """walks from initial states that together take every transition in `mine` (a set of (state, index))"""
    todo = collections.defaultdict(list)
    for s, n in mine:
        todo[s].append(n)
    for v in todo.values():
        rng.shuffle(v)
    left = len(mine)
    while left:
        s = rng.choice(init)
        start, walk = s, []
        while left and len(walk) < WALK:
            if todo.get(s):
                n = todo[s].pop()
                left -= 1
                walk.append((s, n))
                s = graph[s][n][1]
                continue
            # shortest way to a state with something left
            seen, queue, found = {s: None}, collections.deque([s]), None
            while queue and found is None:
                x = queue.popleft()
                for n, e in enumerate(graph[x]):
                    if e[1] not in seen:
                        seen[e[1]] = (x, n)
                        if todo.get(e[1]):
                            found = e[1]
                            break
                        queue.append(e[1])
            if found is None:
                break
            path = []
            x = found
            while seen[x] is not None:
                path.append(seen[x])
                x = seen[x][0]
            walk += reversed(path)
            s = found
        if not walk:
            raise RuntimeError("machinery: transitions out of reach")
        yield start, walk


def unit(rng):
    while True:
        v = [rng.uniform(-1, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if 0.3 < n < 1:
            return [x / n for x in v]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def orbits(rng):
    """three circular two-body orbits in general position"""
    out = []
    for _ in range(3):
        r = rng.uniform(9000, 45000)
        d = unit(rng)
        t = cross(d, unit(rng))
        n = math.sqrt(sum(x * x for x in t))
        v = math.sqrt(398600.4418 / r)
        out.append(([x * r for x in d], [x / n * v for x in t]))
    return out


def flag(b):
    return {"k": "B", "v": 1 if b else 0, "t": 0}


def num(n):
    return {"k": "N", "v": n, "t": 0}


def near(v, t):
    return {"k": "R", "v": FX(v), "t": FX(t)}


def expect(view, before, after, op, upd, flown):
    tick, mode, due = after
    out = []
    for c in range(1, 4):
        if c > len(tick):          # a craft outside the model: never touched
            out += [flag(True)] + [X] * 11 if view == "steering" else [flag(False), X, flag(True), X]
            continue
        m = mode[c - 1]
        if view == "steering":
            out += [X if c in upd or c in flown else flag(True), num(2 if m > 0 else -m), num(m - 1 if m > 0 else -1)]
            if c in upd:
                out += [near(0, 1e-9) if m > 0 else X, near(0, 1e-6), near(0, 1e-9), near(0, 1e-9), near(0, 1e-9), near(1, 1e-6), X, X, X]
            else:
                out += [X] * 9
        else:
            began = op[0] == "steer" and op[1] == c and before is not None and before[1][c - 1] != m
            out += [flag(due[c - 1] >= 0), near(0, 1e-5) if began else X, X if began else flag(True), X]
    return out


def cases_of(view, graph, start, walk, rng):
    tick, _, _ = start
    a = []
    for c, (r, v) in enumerate(orbits(rng)):
        t = T0 + (tick[c] if c < len(tick) else 0) * TICK
        a += r + v + [t, 600.0, 200.0, 0.003, 350.0]
    yield {"op": "fleet", "s": ["none", "0", "0", "0"], "a": [FX(x) for x in a], "e": []}
    for c in range(3):
        yield {"op": "scale", "s": ["none", str(c), "0"], "a": [0, 0, 0, FX(TICK / 4)], "e": []}
    for s, n in walk:
        (k, i, j), b, upd, flown = graph[s][n]
        x, t, tgt = [0.0, 0.0, 0.0], 0.0, 0
        if k == "to":
            t = T0 + j * TICK
        elif k == "step":
            yield {"op": "size", "s": ["none", str(i - 1), "0"], "a": [0, 0, 0, FX(j * TICK * 86400)], "e": []}
        elif k == "impulse":
            x = [y * 1e-3 for y in unit(rng)]
        else:
            k = "track" if j > 0 else ("lvlh", "sun")[-j]
            tgt = j - 1 if j > 0 else 0
        yield {"op": k, "s": [view, str(i - 1), str(tgt)], "a": [FX(y) for y in x] + [FX(t)],
               "e": expect(view, s, b, graph[s][n][0], upd, flown)}


def main():
    path, view, seed, part, parts, limit = sys.argv[1], sys.argv[2], int(sys.argv[3]), *map(int, sys.argv[4:7])
    core.load_code()
    import importlib

    res = core.Result()
    try:
        ad = importlib.import_module("adapters.fleets")
    except ImportError as e:
        if "openspace" not in str(e):
            raise
        res.failures.append({"case": {"op": "import", "why": str(e)}})
        ad = None
    total = taken = 0
    if ad:
        init, graph = load(path)
        edges = [(s, n) for s in sorted(graph) for n in range(len(graph[s]))]
        total = len(edges)
        random.Random(seed).shuffle(edges)
        edges = edges[:limit] if limit else edges
        rng = random.Random(seed * 1000 + part)
        mine = set(edges[part::parts])
        taken = len(mine)
        for n, (start, walk) in enumerate(walks(init, graph, mine, rng)):
            core.replay_trace(ad.OPS, ad.Ctx, [{"cases": list(cases_of(view, graph, start, walk, rng))}], res, "walk %d" % n)
            if res.failures:
                break
    print(json.dumps({"cases": res.cases, "outputs": res.outputs, "states": res.cases, "traces": res.traces,
                      "distinct": [x.hex() for x in res.distinct], "ops": res.ops, "margin": res.margin, "samples": res.samples[:1],
                      "failures": res.failures, "known": [], "edges": taken, "edges_total": total}))
    return 0


if __name__ == "__main__":
    sys.exit(main())
