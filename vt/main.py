"""python -m vt.main PXX [--tier quick|thorough] [--replay FILE]

Exit status: 0 the property held on everything explored, 1 violation, 2 the machinery failed.
"""
import argparse
import importlib
import json
import os
import pickle
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def worker_env(x64=True):
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
             JAX_ENABLE_X64="1" if x64 else "0", OMP_NUM_THREADS="1",
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
             PYTHONPATH=ROOT + os.pathsep + "/repo/src", TF_CPP_MIN_LOG_LEVEL="3",
             PYTHONHASHSEED="0")
    return e


def findings(prop):
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line[len("finding:"):].split("|")[0].split() if "=" in x)
                if f.get("property") == prop:
                    out.append({"id": f["id"], "text": line.split("|", 1)[1].strip() if "|" in line else ""})
    return out


def run_worker(prop, jobs, deadline, x64):
    fd, inp = tempfile.mkstemp(prefix="vtjob")
    os.close(fd)
    out = inp + ".out"
    try:
        with open(inp, "wb") as f:
            pickle.dump(jobs, f)
        p = subprocess.run([PY, "-W", "ignore", "-m", "vt.worker", prop, inp, out], env=worker_env(x64),
                           capture_output=True, text=True, cwd=ROOT,
                           timeout=max(10, deadline - time.time()))
        if p.returncode != 0 or not os.path.exists(out):
            return {"error": f"worker exit {p.returncode}\n{p.stdout[-2000:]}\n{p.stderr[-4000:]}"}
        with open(out, "rb") as f:
            return pickle.load(f)
    except subprocess.TimeoutExpired:
        return {"error": "worker timed out"}
    finally:
        for q in (inp, out):
            if os.path.exists(q):
                os.unlink(q)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--only", default=None, help="only jobs whose tag contains this")
    a = ap.parse_args()
    a.prop = a.prop.upper()
    t0 = time.time()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module(f"checks.{a.prop.lower()}")

    if a.replay:
        rep = json.load(open(a.replay))
        from vt.quint import decode
        jobs = [dict(rep["job"] or {}, replay_trace=decode(rep["trace"]))]
    else:
        jobs = mod.jobs(a.tier, a.seed)
        if a.only:
            jobs = [j for j in jobs if a.only in j.get("tag", "")]
    budget = 840 if a.tier == "quick" else 6 * 3600
    deadline = t0 + budget
    # one worker process takes a share of the jobs, longest first
    groups = []
    for x64 in (True, False):
        js = sorted([j for j in jobs if j.get("x64", True) == x64], key=lambda j: -j.get("cost", 1))
        if not js:
            continue
        n = min(a.workers, len(js))
        bins = [[0.0, []] for _ in range(n)]
        for j in js:
            b = min(bins, key=lambda t: t[0])
            b[0] += j.get("cost", 1)
            b[1].append(j)
        groups += [(b[0], x64, b[1]) for b in bins]
    groups.sort(key=lambda g: -g[0])
    with ThreadPoolExecutor(a.workers) as ex:
        res = list(ex.map(lambda g: run_worker(a.prop, g[2], deadline, g[1]), groups))
    errors = [r["error"] for r in res if "error" in r]
    if errors:
        print("\n".join(errors[:2]), file=sys.stderr)
        print(f"ERROR property={a.prop}: {len(errors)} worker(s) failed", file=sys.stderr)
    res = [r for r in res if "error" not in r]
    viol = [v for r in res for v in r["violations"]]
    known = findings(a.prop)
    seen = set()
    for r in res:
        for f in r["findings"]:
            seen.add(f)
    real = []
    for v in viol:
        fid = getattr(mod, "finding_of", lambda v: None)(v)
        if fid is not None and any(k["id"] == fid for k in known):
            seen.add(fid)
        else:
            real.append(v)
    wall = time.time() - t0
    by, maxerr, digests, samples = {}, {}, set(), []
    for r in res:
        for k, n in r["by"].items():
            by[k] = by.get(k, 0) + n
        for k, q in r["maxerr"].items():
            maxerr[k] = max(maxerr.get(k, 0.0), q)
        digests |= r["digests"]
        samples += r["samples"][:2]
    from vt.core import jsonable
    states = sum(r["steps"] for r in res)
    ntr = sum(r["traces"] for r in res)
    replays = []
    if real:
        rd = os.path.join(ROOT, "replays", a.prop)
        os.makedirs(rd, exist_ok=True)
        done = set()
        for v in real:
            if v["clause"] in done or v["trace"] is None or len(replays) >= 10:
                continue
            done.add(v["clause"])
            fn = os.path.join(rd, f"{v['clause'].replace('/', '_').replace(' ', '_')}.json")
            with open(fn, "w") as f:
                json.dump(jsonable({"property": a.prop, "clause": v["clause"], "detail": v["detail"],
                                    "job": v["job"], "step": v["step"], "trace": v["trace"]}), f, indent=1)
            replays.append((fn, v))
        if not replays:
            fn = os.path.join(rd, "violation.json")
            with open(fn, "w") as f:
                json.dump(jsonable(real[0]), f)
            replays.append((fn, real[0]))
    if not a.replay and not errors:
        ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
              "seed": a.seed, "level": mod.LEVEL,
              "coverage": {
                  "states": states, "transitions": max(0, states - ntr),
                  "traces_validated_against_impl": ntr,
                  "evaluations": sum(by.values()), "distinct_nontrivial": len(digests),
                  "rule": mod.RULE, "samples": jsonable(samples[:8]) or ["none"],
                  "comparisons_by_clause": by,
                  "largest_error_over_tolerance": {k: round(q, 6) if q == q and q != float("inf") else str(q)
                                                   for k, q in maxerr.items()},
                  "violated_clauses": sorted({v["clause"] for v in real}),
                  "known_findings_seen": sorted(map(str, seen)),
              },
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "violations": len(real),
              "wall_s": round(wall, 2)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in known:
        if k["id"] in seen:
            print(f"KNOWN-FINDING: property={a.prop} {k['id']}: {k['text']}")
    for fn, v in replays:
        print(f"VIOLATION property={a.prop} replay={fn}")
        print(f"  clause {v['clause']}: {v['detail'][:700]}")
    worst = sorted(maxerr.items(), key=lambda t: -t[1])[:4]
    print(f"{a.prop} {a.tier}: {ntr} behaviours, {states} states, {sum(by.values())} comparisons, "
          f"{len(digests)} distinct, {len(real)} violations, {wall:.1f}s; worst err/tol "
          + ", ".join(f"{k}={q:.2g}" for k, q in worst))
    if real:
        sys.exit(1)
    if errors or sum(by.values()) == 0:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
