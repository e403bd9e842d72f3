"""Command line: batch, verdict, evidence, replay."""
from __future__ import annotations

import argparse
import collections
import json
import os
import time

from . import driver as D

ROOT = D.ROOT
KNOWN = os.path.join(ROOT, "known_findings.json")


def load_meta():
    from .meta import META

    return META


def known_for(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "known"]
    except FileNotFoundError:
        return []


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1)
    os.replace(tmp, path)


def replay(prop, path):
    with open(path) as f:
        rp = json.load(f)
    if "other" in rp:
        d = replica_run(rp)
        for x in d:
            print(x)
        if d:
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("the violation does not occur any more")
        return 0
    if "sequence" in rp:
        s = D.Server(prop, rp["seed"], rp["tier"], rp.get("hashseed", "0"))
        res = {}
        for spec in rp["sequence"]:
            res = s.run(spec)
        s.close()
    else:
        s = D.Server(prop, rp["seed"], rp["tier"], rp.get("hashseed", "0"))
        res = s.run(rp["spec"])
        s.close()
    for v in res.get("viol", ()):
        print(json.dumps(v))
    if "hang" in res:
        print("hang:", res["hang"])
    if "harness" in res:
        print(res["harness"])
        return 2
    got = D.classes(res)
    print("digest", res.get("digest"), "expected", rp.get("digest"))
    if rp["class"] in got:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("the violation does not occur any more")
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.prop, a.replay)
    t0 = time.monotonic()
    meta = load_meta()[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    runs = a.runs or meta["runs"][tier]
    budget = a.budget or (240.0 if tier == "quick" else 3000.0)
    print(f"property {a.prop} seed {a.seed} tier {tier} runs {runs}", flush=True)
    code = 0
    results, notes = D.run_batch(a.prop, a.seed, tier, list(range(runs)), budget, a.workers, meta.get("hashseeds"))
    harness = [r for r in results.values() if "harness" in r]
    skipped = [r for r in results.values() if r.get("skipped")]
    done = [r for r in results.values() if not r.get("skipped") and "harness" not in r]
    bad = sorted((r for r in done if D.classes(r)), key=lambda r: r["i"])
    unreproduced = []
    report = None
    if harness:
        print("HARNESS ERROR", harness[0]["i"], harness[0]["harness"])
    for n in notes:
        print("NOTE", n)
    if bad:
        report = confirm(a, tier, bad, results, unreproduced)
    if report:
        code = 1
    rep = {}
    if meta.get("replicas") and not report:
        report, rep = replicas(a, tier, results, t0, budget, unreproduced)
        if report:
            code = 1
    probes, known_lines = run_probes(a, tier)
    for line in known_lines:
        print(line)
    if probes:
        code = 1
        report = report or probes[0]
    if code == 0 and (harness or len(done) < min(runs, 8)):
        code = 2
    # determinism of the simulation itself, on a sample of this batch
    det = determinism(a, tier, [r for r in done if not D.classes(r)]) if code == 0 else {}
    wall = time.monotonic() - t0
    evidence(a, tier, meta, done, bad, skipped, harness, unreproduced, det, wall, report, known_lines, runs, rep)
    if report:
        print(f"VIOLATION property={a.prop} replay={report}")
    print(f"runs {len(done)} violations {len(bad)} skipped {len(skipped)} wall {wall:.1f} s exit {code}")
    return code


def confirm(a, tier, bad, results, unreproduced):
    """Reproduce in a fresh process, minimise, write the replay file, replay it."""
    from .specs import spec_of

    for r in bad[:4]:
        cls = sorted(D.classes(r))[0]
        for v in r.get("viol", ())[:3]:
            print("FOUND run", r["i"], json.dumps(v)[:900])
        if "hang" in r:
            print("FOUND run", r["i"], "hang", r["hang"], r.get("stderr", ""))
        spec = spec_of(a.prop, a.seed, tier, r["i"])
        hs = r.get("hashseed", "0")
        if cls == "hang":
            # a thread that waits inside native code for one the scheduler has stopped is
            # not stuck: only a run that hangs without any preemption counts
            spec = serial(spec)
        srv = D.Server(a.prop, a.seed, tier, hs)
        res = srv.run(spec)
        if cls in D.classes(res):
            mini, tried = (spec, 0) if cls == "hang" else D.minimise(srv, spec, cls)
            srv.close()
            srv = D.Server(a.prop, a.seed, tier, hs)
            fin = srv.run(mini)
            srv.close()
            if cls not in D.classes(fin):
                mini = spec
                srv = D.Server(a.prop, a.seed, tier, hs)
                fin = srv.run(mini)
                srv.close()
            path = os.path.join(ROOT, "evidence", "replay", f"{a.prop}-{a.seed}-{r['i']}.json")
            write_json(path, {"property": a.prop, "seed": a.seed, "tier": tier, "run": r["i"], "class": cls, "hashseed": hs, "spec": mini, "digest": fin.get("digest"), "violations": fin.get("viol"), "minimiser_runs": tried})
            for v in (fin.get("viol") or ())[:3]:
                print("MINIMISED", json.dumps(v)[:900])
            return path
        srv.close()
        # the run alone is fine: replay what its process did before it
        w = r.get("worker")
        seq = sorted(x["i"] for x in results.values() if x.get("worker") == w and x["i"] <= r["i"])
        specs = [spec_of(a.prop, a.seed, tier, i) for i in seq][-12:]
        if cls == "hang":
            specs = [serial(x) for x in specs]
        srv = D.Server(a.prop, a.seed, tier, hs)
        res = {}
        for s in specs:
            res = srv.run(s)
        srv.close()
        if cls in D.classes(res):
            path = os.path.join(ROOT, "evidence", "replay", f"{a.prop}-{a.seed}-{r['i']}.json")
            write_json(path, {"property": a.prop, "seed": a.seed, "tier": tier, "run": r["i"], "class": cls, "hashseed": hs, "sequence": specs, "digest": res.get("digest"), "violations": res.get("viol")})
            return path
        unreproduced.append({"i": r["i"], "class": cls, "viol": r.get("viol")})
        print("UNREPRODUCED run", r["i"], cls)
    return None


def differing(x, y):
    """Operations whose outcome two processes disagree on."""
    from .world2 import same_plain

    a, b = x.get("outputs"), y.get("outputs")
    if a is None or b is None:
        return []
    return [k for k in a if k in b and not same_plain(a[k], b[k], 1e-8)]


def replicas(a, tier, results, t0, budget, unreproduced):
    """The same runs in processes with other hash seeds: outcomes may not differ."""
    from .specs import spec_of

    good = [i for i, r in sorted(results.items()) if r.get("outputs") and not D.classes(r)]
    pick = good[: max(16, len(good) // 4)]
    left = max(30.0, budget - (time.monotonic() - t0))
    second, notes = D.run_batch(a.prop, a.seed, tier, pick, left, a.workers, ["271", "9241", "65537", "77"], {"solo": 1})
    out = {"runs": len(second), "outcomes_compared": 0, "hash_seeds": 4}
    bad = sorted((r for r in second.values() if D.classes(r)), key=lambda r: r["i"])
    if bad:
        path = confirm(a, tier, bad, second, unreproduced)
        if path:
            return path, out
    for i in pick:
        y = second.get(i)
        if y is None or "outputs" not in y:
            continue
        out["outcomes_compared"] += len(y["outputs"])
        d = differing(results[i], y)
        if not d:
            continue
        d = None
        for rp in replica_cases(a, tier, i, results, second):
            d = replica_run(rp)
            if d:
                break
        if d:
            path = os.path.join(ROOT, "evidence", "replay", f"{a.prop}-{a.seed}-{i}.json")
            write_json(path, rp)
            print("FOUND run", i, "outcomes differ between processes:", d[:3])
            return path, out
        print("UNREPRODUCED run", i, "differs-between-processes")
    return None, out


def replica_cases(a, tier, i, results, second):
    """Explanations to try, smallest first: the run alone in two processes, then each
    process with what it did before the run."""
    from .specs import spec_of

    x, y = results[i], second[i]
    spec = spec_of(a.prop, a.seed, tier, i)
    solo = dict(spec, solo=1)
    base = {"property": a.prop, "seed": a.seed, "tier": tier, "run": i, "class": "differs-between-processes", "hashseed": x.get("hashseed", "0"), "other": y["hashseed"]}
    yield dict(base, spec=[[solo], [solo]])
    yield dict(base, spec=[[spec], [solo]])

    def before(res, r, p):
        seq = sorted(q["i"] for q in res.values() if q.get("worker") == r.get("worker") and q["i"] < i and not q.get("skipped"))
        return [dict(spec_of(a.prop, a.seed, tier, q), **p) for q in seq]

    h1, h2 = before(results, x, {}), before(second, y, {"solo": 1})
    for k in (1, 4, 40):
        if len(h1) >= k // 4 or len(h2) >= k // 4:
            yield dict(base, spec=[h1[:k] + [spec], h2[:k] + [solo]])


def replica_run(rp):
    res = []
    for h, seq in zip((rp["hashseed"], rp["other"]), rp["spec"]):
        s = D.Server(rp["property"], rp["seed"], rp["tier"], h)
        x = {}
        for spec in seq:
            x = s.run(spec)
        res.append(x)
        s.close()
    d = differing(*res)
    return [f"operation {k}: {str(res[0]['outputs'][k])[:300]} and {str(res[1]['outputs'][k])[:300]}" for k in d]


def serial(spec):
    if isinstance(spec, dict):
        return {k: serial(v) for k, v in spec.items() if k not in ("pre", "next", "hot")}
    if isinstance(spec, list):
        return [serial(x) for x in spec]
    return spec


def run_probes(a, tier):
    """Known findings are re-executed: they are announced while they persist."""
    lines = []
    for k in known_for(a.prop):
        srv = D.Server(a.prop, a.seed, tier)
        res = srv.run(k["spec"])
        srv.close()
        if k["class"] in D.classes(res):
            lines.append(f"KNOWN-FINDING: property={a.prop} {k['what']}")
        else:
            print("NOTE known finding does not occur any more:", k["id"])
    return [], lines


def determinism(a, tier, done):
    from .specs import spec_of

    if not done:
        return {}
    pick = [r for r in done if r.get("wall", 99) < 6][:: max(1, len(done) // 3)][:3]
    srv = D.Server(a.prop, a.seed, tier, "31337")
    same = 0
    for r in pick:
        x = srv.run(spec_of(a.prop, a.seed, tier, r["i"]))
        same += x.get("digest") == r.get("digest")
    srv.close()
    return {"rerun_in_another_process": len(pick), "same_event_log": same}


def evidence(a, tier, meta, done, bad, skipped, harness, unreproduced, det, wall, report, known, runs, rep):
    stats = collections.Counter()
    for r in done:
        for k, v in r.get("stats", {}).items():
            stats[k] += v
    inter = {r.get("inter") for r in done if r.get("inter")}
    nontrivial = {
        r["key"] for r in done
        if r.get("stats", {}).get("ops", 0) > 1 and (r["stats"].get("preemptions") or any(k.startswith("fault:") for k in r["stats"]) or meta.get("solo"))
    }
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    ops = {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op:")}
    from .specs import spec_of

    sample = []
    for r in done[:1]:
        s = json.dumps(spec_of(a.prop, a.seed, tier, r["i"]))
        sample.append({"run": r["i"], "digest": r.get("digest"), "spec": s if len(s) < 4000 else s[:4000] + "..."})
    rest = {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault:", "op:"))}
    ev = {
        "property": a.prop,
        "tier": tier,
        "seed": a.seed,
        "level": meta["level"],
        "coverage": {
            "evaluations": int(stats.get("ops", 0)) or len(done),
            "distinct_nontrivial": len(nontrivial),
            "rule": "evaluations: simulated operations, each judged against the reference model. distinct_nontrivial: different run specifications (objects, operations, schedule, faults) with more than one operation" + ("" if meta.get("solo") else " in which at least one preemption or fault actually happened") + ". " + meta["rule"],
            "samples": sample,
            "simulated_runs": len(done),
            "seeds_per_hour": round(len(done) * 3600 / max(wall, 1e-9)),
            "simulated_time_s": round(sum(r.get("simtime", 0) for r in done), 1),
            "simulated_lines_of_horqrux": sum(r.get("steps", 0) for r in done),
            "operations": ops,
            "faults_fired": faults,
            "counters": rest,
            "distinct_interleavings": len(inter),
            "distinct_event_logs": len({r.get("digest") for r in done}),
            "determinism": det,
            "replicas": rep,
            "real": "all of horqrux, JAX, XLA and numpy run for real, in real Python threads",
            "stubbed": "thread scheduling, uuid4, time, locks created by horqrux, entropy folded into PRNGKey where a check says so; out-of-memory and interrupts are raised at chosen lines and calls",
            "planned_runs": runs,
            "skipped_for_time": len(skipped),
            "harness_errors": len(harness),
            "unreproduced": unreproduced,
            "known_findings": known,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": len(bad) if report else 0,
    }
    write_json(os.path.join(ROOT, "evidence", a.prop + ".json"), ev)
