#!/usr/bin/env python3
"""run.py --property Cxx [--tier quick|thorough]   decide one property
run.py --replay FILE                             replay a recorded violation
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import core  # noqa: E402
from checks import CHECKS  # noqa: E402

QUINT = shutil.which("quint") or "/usr/local/bin/quint"


def seed_of(*parts):
    import hashlib

    return int(hashlib.sha256("/".join(map(str, parts)).encode()).hexdigest()[:12], 16)


def worker(job):
    """one quint process and the replay of its behaviours (runs in a child)"""
    out = os.path.join(job["dir"], "t%d" % job["k"])
    os.mkdir(out)
    cmd = [QUINT, "run", os.path.join(VERIF, "spec", "mbt", job["file"] + ".qnt"), "--main", job["main"],
           "--max-steps", str(job["steps"]), "--max-samples", str(job["samples"]), "--n-traces", str(job["samples"]),
           "--seed", hex(job["seed"]), "--verbosity", "1", "--out-itf", os.path.join(out, "o{seq}.json")]
    if job.get("invariant"):
        cmd += ["--invariant", job["invariant"]]
    env = dict(os.environ, NODE_OPTIONS="--max-old-space-size=3000")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    files = sorted(os.listdir(out))
    if r.returncode != 0 or not files:
        return {"error": "specification run failed (%s): %s" % (job["main"], r.stdout[-1500:]), "cmd": cmd}
    r = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), job["adapter"], out, str(job["seed"])],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    shutil.rmtree(out, ignore_errors=True)
    if r.returncode != 0:
        return {"error": "replay failed: " + r.stderr[-3000:], "cmd": cmd}
    d = json.loads(r.stdout.splitlines()[-1])
    d["job"] = {k: job[k] for k in ("file", "main", "steps", "samples", "seed", "adapter")}
    return d


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                key, text = line[len("finding: property=%s " % prop):].split(" ", 1)
                out.append((key, text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--margins", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    args = ap.parse_args()
    if args.replay:
        d = json.load(open(args.replay))
        if "adapter" not in d:
            print(json.dumps(d, indent=1))
            return 0
        r = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), d["adapter"], "--history", args.replay])
        return r.returncode
    prop = args.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if args.tier == "thorough" else "quick"
    t0 = time.time()
    chk = CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    errors, failures, known = [], [], {}
    agg = {"cases": 0, "outputs": 0, "states": 0, "traces": 0, "distinct": set(), "ops": {}, "margin": {}, "samples": [], "edges": 0}
    mc = []
    try:
        jobs = []
        for gen in chk["gens"]:
            n = gen["procs"] if tier == "quick" else gen.get("procs_thorough", gen["procs"] * 12)
            for i in range(n):
                jobs.append({"dir": tmp, "k": len(jobs), "file": gen["file"], "main": gen.get("main", gen["file"]),
                             "steps": gen["steps"], "samples": gen.get("samples", 1),
                             "invariant": gen.get("invariant"), "adapter": gen["adapter"],
                             "seed": seed_of(seed, prop, gen["file"], gen.get("main", ""), tier, i)})
        extra = chk.get("model", {}).get(tier, [])
        graphs = [g for g in chk.get("graphs", []) if g.get(tier) is not None]
        with ThreadPoolExecutor(args.jobs) as ex:
            gfuts = [ex.submit(explore, g, tmp, i) for i, g in enumerate(graphs)]
            futs = [ex.submit(worker, j) for j in jobs]
            mfuts = [ex.submit(model_check, m, tmp) for m in extra]
            tfuts = [ex.submit(trace_check, t, tmp, seed, tier) for t in chk.get("record", [])]
            for g, fu in zip(graphs, gfuts):
                d = fu.result()
                mc.append({k: v for k, v in d.items() if k != "out"})
                if "error" in d:
                    errors.append(d["error"])
                    continue
                futs += [ex.submit(replay_graph, g, d["out"], seed_of(seed, prop, g["cfg"], tier), part, g[tier])
                         for part in range(g.get("parts", 8))]
            for fu in futs:
                d = fu.result()
                if "error" in d:
                    errors.append(d["error"])
                    continue
                if "edges" in d:
                    agg["edges"] += d["edges"]
                for k in ("cases", "outputs", "states", "traces"):
                    agg[k] += d[k]
                agg["distinct"] |= set(d["distinct"])
                for k, v in d["ops"].items():
                    agg["ops"][k] = agg["ops"].get(k, 0) + v
                for k, v in d["margin"].items():
                    agg["margin"][k] = max(v, agg["margin"].get(k, 0))
                agg["samples"] = (agg["samples"] + d["samples"])[:6]
                for x in d["failures"]:
                    x["adapter"] = d["job"]["adapter"]
                    x["job"] = d["job"]
                    failures.append(x)
                for key in d["known"]:
                    known[key] = known.get(key, 0) + 1
            for fu in mfuts:
                d = fu.result()
                if "error" in d:
                    errors.append(d["error"])
                mc.append(d)
            for fu in tfuts:
                d = fu.result()
                if "error" in d:
                    errors.append(d["error"])
                    continue
                for k in ("cases", "outputs", "states", "traces"):
                    agg[k] += d.get(k, 0)
                agg["samples"] = (agg["samples"] + d.get("samples", []))[:8]
                for k, v in d.get("ops", {}).items():
                    agg["ops"][k] = agg["ops"].get(k, 0) + v
                failures += d["failures"]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    listed = dict(known_findings(prop))
    for key in known:
        if key not in listed:
            failures.append({"case": {"op": "known-finding not listed: " + key}})
    if args.margins:
        for k, v in sorted(agg["margin"].items(), key=lambda kv: -kv[1]):
            print("margin %-40s %.3g   (%d)" % (k, v, agg["ops"].get(k, 0)))
    status = 0
    if failures:
        status = 1
    elif errors:
        status = 2
    write_evidence(prop, tier, seed, chk, agg, mc, failures, known, time.time() - t0)
    for key, n in sorted(known.items()):
        if key in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[key]))
    if failures:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, seed))
        failures.sort(key=lambda x: len(x.get("history", [])))
        json.dump(dict(failures[0], property=prop), open(path, "w"), indent=1)
        for x in failures[:3]:
            print("  " + json.dumps(x["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for e in sorted(set(errors))[:2]:
        print("ERROR " + e, file=sys.stderr)
    print("%s %s: %d cases, %d predicted observations, %d behaviours, %d ops, %.1f s -> %s" % (
        prop, tier, agg["cases"], agg["outputs"], agg["traces"], len(agg["ops"]), time.time() - t0,
        {0: "held", 1: "VIOLATED", 2: "error"}[status]))
    return status


def explore(g, tmp, i):
    """TLC explores a discrete model completely, checks its laws and prints every transition"""
    t0 = time.time()
    d = os.path.join(tmp, "g%d" % i)
    os.mkdir(d)
    out = os.path.join(d, "out")
    spec = os.path.join(VERIF, "spec", "tla")
    for f in (g["tla"] + ".tla", g["cfg"] + ".cfg"):
        shutil.copy(os.path.join(spec, f), d)
    cmd = [shutil.which("tlc") or "tlc", "-workers", "1", "-metadir", os.path.join(d, "meta"), "-config", g["cfg"] + ".cfg", g["tla"] + ".tla"]
    with open(out, "w") as fh:
        r = subprocess.run(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT)
    res = {"name": g["cfg"], "cmd": " ".join(cmd[-3:]), "wall_s": round(time.time() - t0, 1), "out": out}
    tail = ""
    for line in open(out):
        if not line.startswith('"'):
            tail = (tail + line)[-6000:]
    import re

    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", tail)
    if r.returncode != 0 or not m or "No error has been found" not in tail:
        res["error"] = "TLC on %s: %s" % (g["cfg"], tail[-3000:])
        return res
    res["transitions"], res["states"] = int(m.group(1)), int(m.group(2))
    return res


def replay_graph(g, out, seed, part, limit):
    r = subprocess.run([sys.executable, os.path.join(HERE, g["script"]), out, g.get("view", "-"), str(seed), str(part),
                        str(g.get("parts", 8)), str(limit)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        return {"error": "replay failed: " + r.stderr[-3000:]}
    d = json.loads(r.stdout.splitlines()[-1])
    d["job"] = {"file": g["cfg"], "main": g.get("view", "-"), "adapter": g["adapter"], "seed": seed, "part": part}
    return d


def model_check(m, tmp):
    """exhaustive or inductive check of a discrete module (Apalache via quint verify, or TLC)"""
    t0 = time.time()
    d = tempfile.mkdtemp(dir=tmp)
    cmd = [c.replace("@SPEC", os.path.join(VERIF, "spec")).replace("@TMP", d) for c in m["cmd"]]
    env = dict(os.environ, JVM_ARGS="-Xmx3g")
    r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                       timeout=m.get("timeout", 600))
    ok = r.returncode == 0 and all(s in r.stdout for s in m.get("expect", []))
    out = {"name": m["name"], "cmd": " ".join(m["cmd"]), "wall_s": round(time.time() - t0, 1), "ok": ok}
    import re

    g = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    if g:
        out["transitions"], out["states"] = int(g.group(1)), int(g.group(2))
    if not ok:
        out["error"] = "model check %s failed: %s" % (m["name"], r.stdout[-3000:])
    return out


def trace_check(t, tmp, seed, tier):
    """record traces from the code and have the specification judge them"""
    d = tempfile.mkdtemp(dir=os.path.join(VERIF, "spec", "mbt"), prefix=".rec_")
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, "record.py"), t["name"], d, str(seed), tier],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            return {"error": "recording failed: " + r.stderr[-3000:]}
        return json.loads(r.stdout.splitlines()[-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_evidence(prop, tier, seed, chk, agg, mc, failures, known, wall):
    cov = {
        "evaluations": agg["cases"],
        "distinct_nontrivial": len(agg["distinct"]) or agg["cases"],
        "rule": chk["rule"] + " A case is one call (or one step of a stateful behaviour) with the observations the "
                              "specification predicts; it is non-trivial when at least one observation is predicted, and "
                              "distinct by operation, arguments and predicted values.",
        "predicted_observations": agg["outputs"],
        "behaviours_replayed": agg["traces"],
        "operations": agg["ops"],
        "samples": agg["samples"][:6],
    }
    if chk["level"] == "model_checking":
        cov["states"] = agg["states"] + sum(m.get("states", 0) for m in mc)
        cov["transitions"] = agg["states"] - agg["traces"] + sum(m.get("transitions", 0) for m in mc)
        cov["traces_validated_against_impl"] = agg["traces"]
    if agg["edges"]:
        cov["model_transitions_replayed"] = agg["edges"]
    if mc:
        cov["model_checks"] = mc
    ev = {"property": prop, "tier": tier, "seed": seed, "level": chk["level"], "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(failures)}
    if known:
        ev["coverage"]["known_findings_observed"] = known
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
