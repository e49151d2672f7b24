"""Replays behaviours of the Quint specification into the real openspace code.

A behaviour is an ITF trace written by `quint run`.  Every state of it carries
`cases`: calls into the implementation, each with its arguments and the
observations the specification predicts (value, tolerance, kind).  Nothing here
decides what is right: the oracle is the specification alone.
"""
import hashlib
import json
import math
import os
import signal
import sys

ONE = 1 << 192
TWO_PI = 2 * 19720096697726538562396133364228268891463450865190089732560
PI = TWO_PI // 2
CASE_TIMEOUT = 30


def repo_path():
    return os.environ.get("VERIF_REPO", "/repo")


def load_code():
    """Import openspace from the working tree of /repo, never from a cache."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-openspace-pycache"
    src = os.path.join(repo_path(), "src")
    sys.path.insert(0, src)
    import openspace

    where = os.path.realpath(openspace.__file__ or list(openspace.__path__)[0])
    if not where.startswith(os.path.realpath(src)):
        raise RuntimeError("openspace is imported from %s, not from %s" % (where, src))


def dec(x):
    """decode an ITF value"""
    if isinstance(x, dict):
        if "#bigint" in x:
            return int(x["#bigint"])
        if "#tup" in x:
            return tuple(dec(y) for y in x["#tup"])
        if "#set" in x:
            return [dec(y) for y in x["#set"]]
        if "#map" in x:
            return {dec(k): dec(v) for k, v in x["#map"]}
        return {k: dec(v) for k, v in x.items() if not k.startswith("#")}
    if isinstance(x, list):
        return [dec(y) for y in x]
    return x


def f(i):
    """fixed point to the nearest double"""
    return i / ONE


def fx(x):
    """double to fixed point, exactly up to 2^-192"""
    n, d = float(x).as_integer_ratio()
    return (n * ONE) // d


class Hang(Exception):
    pass


def _alarm(_sig, _frm):
    raise Hang("no answer within %d s" % CASE_TIMEOUT)


def compare(o, got):
    """None if the observation `got` is the one predicted, else a reason; also
    returns |error| / tolerance."""
    k = o["k"]
    if k == "X":
        return None, 0.0
    if k == "B":
        if got is True or got is False:
            return (None, 0.0) if (1 if got else 0) == o["v"] else ("expected %s" % bool(o["v"]), math.inf)
        return "expected a boolean", math.inf
    if k == "N":  # integer / count
        return (None, 0.0) if got == o["v"] else ("expected %d" % o["v"], math.inf)
    try:
        g = float(got)
    except (TypeError, ValueError):
        return "expected a number", math.inf
    if not math.isfinite(g):
        return "not finite", math.inf
    c = fx(g)
    v, t = o["v"], o["t"]
    if k == "E":
        return (None, 0.0) if g == f(v) else ("expected exactly %r" % f(v), math.inf)
    if k == "R":
        err = abs(c - v)
    elif k in ("A", "Z", "a", "P"):
        err = (c - v) % TWO_PI
        err = min(err, TWO_PI - err)
        slack = 1 << 144
        if k == "A" and not (-slack <= c <= TWO_PI + slack):
            return "angle outside [0, 2 pi]", math.inf
        if k == "Z" and not 0 <= g < 2 * math.pi:
            return "angle outside [0, 2 pi)", math.inf
        if k == "P" and not (-PI - slack <= c <= PI + slack):
            return "angle outside [-pi, pi]", math.inf
    elif k == "L":
        err = max(0, c - v)
    elif k == "G":
        err = max(0, v - c)
    else:
        raise RuntimeError("unknown kind " + k)
    ratio = err / t if t else (0.0 if err == 0 else math.inf)
    if err > t:
        return "expected %r within %.3g, error %.3g" % (f(v), f(t), f(err)), ratio
    return None, ratio


class Result:
    def __init__(self):
        self.cases = 0
        self.outputs = 0
        self.states = 0
        self.traces = 0
        self.distinct = set()
        self.ops = {}
        self.margin = {}
        self.samples = []
        self.failures = []
        self.known = []
        self.errors = []

    def merge(self, o):
        self.cases += o.cases
        self.outputs += o.outputs
        self.states += o.states
        self.traces += o.traces
        self.distinct |= o.distinct
        for k, v in o.ops.items():
            self.ops[k] = self.ops.get(k, 0) + v
        for k, v in o.margin.items():
            self.margin[k] = max(self.margin.get(k, 0), v)
        self.samples = (self.samples + o.samples)[:6]
        self.failures += o.failures
        self.known += o.known
        self.errors += o.errors


def show(case):
    return {
        "op": case["op"],
        "s": case["s"],
        "args": [f(x) for x in case["a"]],
        "expected": [[o["k"], o["v"] if o["k"] in "BN" else f(o["v"]), f(o["t"])] for o in case["e"]],
    }


#: per-output worst ratios, collected only when VERIF_DETAIL is set (a tool for choosing tolerances)
DETAIL = {"on": 0} if os.environ.get("VERIF_DETAIL") else {}


def run_case(adapters, ctx, case):
    """-> (list of (index, reason), observations, worst ratio)"""
    fn = adapters.get(case["op"])
    if fn is None:
        raise RuntimeError("no adapter for " + case["op"])
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        got = fn(ctx, case["s"], [f(x) for x in case["a"]])
    except Hang as e:
        return [(-1, "hang: %s" % e)], None, math.inf
    except RuntimeError as e:
        if str(e).startswith("machinery:"):
            raise
        return [(-1, "raised %s: %s" % (type(e).__name__, e))], None, math.inf
    except Exception as e:  # the code under test failed where the model gives an answer
        return [(-1, "raised %s: %s" % (type(e).__name__, e))], None, math.inf
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if case["s"] and case["s"][0].startswith("known:"):
        # first half: what the property demands; second half: the exact
        # behaviour of a listed known finding
        n = len(case["e"]) // 2
        for half, exp in enumerate((case["e"][:n], case["e"][n:])):
            if len(exp) == len(got) and all(compare(o, g)[0] is None for o, g in zip(exp, got)):
                if half == 1:
                    ctx.known.add(case["s"][0][6:])
                return [], got, 0.0
        case = dict(case, e=case["e"][:n])
    if len(got) != len(case["e"]):
        raise RuntimeError("machinery: %s gives %d observations, model %d" % (case["op"], len(got), len(case["e"])))
    bad, worst = [], 0.0
    for i, (o, g) in enumerate(zip(case["e"], got)):
        why, ratio = compare(o, g)
        worst = max(worst, ratio)
        if DETAIL and ratio > DETAIL.get((case["op"], i), 0):
            DETAIL[(case["op"], i)] = ratio
        if why:
            bad.append((i, "got %r, %s" % (g, why)))
    return bad, got, worst


def replay_trace(adapters, new_ctx, states, res, origin, stop_at=1):
    """replay one behaviour; the context lives as long as the behaviour"""
    ctx = new_ctx()
    res.traces += 1
    history = []
    for si, st in enumerate(states):
        res.states += 1
        for case in dec(st["cases"]):
            history.append(case)
            res.cases += 1
            res.outputs += sum(1 for o in case["e"] if o["k"] != "X")
            op = case["op"]
            res.ops[op] = res.ops.get(op, 0) + 1
            res.distinct.add(hashlib.md5(repr((op, case["s"], case["a"], [o["v"] for o in case["e"]])).encode()).digest())
            bad, got, worst = run_case(adapters, ctx, case)
            if worst < math.inf:
                res.margin[op] = max(res.margin.get(op, 0), worst)
            if len(res.samples) < 3 and si % 7 == 0:
                s = show(case)
                s["observed"] = [g if isinstance(g, (bool, int, float)) else str(g) for g in (got or [])]
                res.samples.append(s)
            if bad:
                s = show(case)
                s["observed"] = None if got is None else [g if isinstance(g, (bool, int, float)) else str(g) for g in got]
                s["mismatch"] = ["output %d: %s" % b for b in bad[:6]]
                s["origin"] = origin
                s["state"] = si
                res.failures.append({"case": s, "history": [
                    {"op": h["op"], "s": h["s"], "a": [str(x) for x in h["a"]],
                     "e": [{"k": o["k"], "v": str(o["v"]), "t": str(o["t"])} for o in h["e"]]}
                    for h in history]})
                if len(res.failures) >= stop_at:
                    return
                if getattr(ctx, "stateful", False):
                    return
            if not getattr(ctx, "stateful", False):
                history = []
    res.known += sorted(ctx.known)


class Context:
    """what an adapter keeps between the calls of one behaviour"""

    stateful = False

    def __init__(self):
        self.known = set()
