#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--budget S] [--only SUBSTR]   decide one property (see DESIGN.md)
check.py --replay FILE                                       run one recorded counterexample natively"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
PY = "/opt/venv/bin/python"
ENV = dict(PYTHONPATH=f"/repo/src:{VERIF}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1",
           SPEX_CACHE="y")


def reexec():
    if os.environ.get("SX_CHILD") == "1":
        return
    e = dict(os.environ, SX_CHILD="1", **ENV)
    os.execve(PY, [PY, str(VERIF / "check.py")] + sys.argv[1:], e)


def replay(path):
    d = json.loads(Path(path).read_text())
    base = tempfile.mkdtemp(prefix="spexchk_")
    try:
        from symx.worker import Native
        n = Native(base)
        rep = n.ask(dict(module=d["module"], fn=d["fn"], params=d["params"], inputs=d["inputs"]), timeout=60)
        n.stop()
        print(json.dumps(rep, indent=1, ensure_ascii=False))
        bad = rep.get("hang") or rep.get("exc") or any(f[0] == d["property"] for f in rep.get("fails", []))
        return 1 if bad else 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


def load_known():
    p = VERIF / "known_findings.json"
    return json.loads(p.read_text())["findings"] if p.exists() else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a.prop
    from harness.registry import REGISTRY
    spec = REGISTRY[prop]
    tier = a.tier
    jobs = []
    for h in spec["harnesses"]:
        plist = h["thorough"] if tier == "thorough" and "thorough" in h else h["quick"]
        for p in plist:
            if a.only and a.only not in h["fn"]:
                continue
            jobs.append(dict(module=h["module"], fn=h["fn"], params=p))
    budget = a.budget or spec.get("budget_" + tier) or (40 if tier == "quick" else 420)
    base = tempfile.mkdtemp(prefix="spexchk_")
    rc = 2
    try:
        rc = run(prop, spec, tier, seed, jobs, budget, base, a, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, spec, tier, seed, jobs, budget, base, a, t0):
    from symx import worker
    ctx = mp.get_context("fork")
    outq = ctx.SimpleQueue()
    nw = max(1, min(a.jobs, 8))
    ws = []
    for i in range(nw):
        inq = ctx.SimpleQueue()
        p = ctx.Process(target=worker.main, args=(inq, outq, seed * 1000 + i, prop, base), daemon=True)
        p.start()
        ws.append([p, inq, None])
    idle = []
    agg = dict(paths=0, done=0, infeasible=0, budget=0, hang=0, unsupported=0, validated=0, checks=0, exc=0)
    stats = dict(queries=0, solver_s=0.0, fast=0, decisions=0, unknown=0, sat=0, unsat=0)
    mism, viol, inconc, samples, reasons, funcs = [], [], [], [], {}, set()
    labels = {}
    perjob = {}
    errors = []
    deadline = None
    queue = list(enumerate(jobs))
    # every job gets started before any remainder is continued
    pend = {}
    nid = 0
    remaining = 0
    pids = {}
    inflight = {}
    import random
    rnd = random.Random(seed)
    alive = nw
    while True:
        if deadline is not None:
            while idle and queue and time.time() < deadline:
                w = idle.pop()
                key, job = queue.pop(0)
                nid += 1
                inflight[nid] = (w, key, job)
                first = "prefixes" not in job
                ws[w][1].put((nid, job, deadline, 2.5 if first else 6.0))
            if not inflight and (not queue or time.time() >= deadline):
                break
        kind, jid, res = get(outq, ws, 60 + budget)
        if kind == "timeout":
            errors.append("workers not answering")
            break
        if kind == "ready":
            for i, w in enumerate(ws):
                if w[0].pid == jid:
                    idle.append(i)
            if deadline is None:
                deadline = time.time() + budget
            continue
        if kind == "fatal":
            errors.append(res)
            alive -= 1
            if alive == 0:
                break
            continue
        w, key, job = inflight.pop(jid)
        idle.append(w)
        if kind == "err":
            errors.append(res)
            continue
        for k in agg:
            agg[k] += res[k]
        for k in stats:
            stats[k] += res["stats"][k]
        mism += [dict(m, fn=job["fn"]) if m else None for m in res["mismatches"]]
        viol += res["violations"]
        inconc += res["inconclusive"]
        samples += res["samples"]
        funcs |= set(res["funcs"])
        for k, v in res["reasons"].items():
            reasons[k] = reasons.get(k, 0) + v
        for k, v in res["labels"].items():
            labels[k] = labels.get(k, 0) + v
        pj = perjob.setdefault(key, dict(fn=job["fn"], params=job["params"], paths=0, done=0, complete=True, t=0.0, left=0, trunc=0))
        pj["paths"] += res["paths"]
        pj["done"] += res["done"]
        pj["t"] += res["t"]
        pj["trunc"] += res["budget"] + res["unsupported"]
        rem = res["remaining"]
        pj["left"] -= len(job.get("prefixes", [0])) if "prefixes" in job else 0
        pj["left"] += len(rem)
        if viol and tier == "quick":
            known = load_known()
            if any(not is_known(prop, v, known) for v in viol):
                break  # one confirmed counterexample decides
        if rem:
            nsplit = min(len(rem), 3)
            rnd.shuffle(rem)
            for i in range(nsplit):
                chunk = rem[i::nsplit]
                queue.append((key, dict(job, prefixes=chunk)))
    for w in ws:
        try:
            w[0].kill()
        except Exception:
            pass
    for w in ws:
        w[0].join(2)
    subprocess.run(["pkill", "-9", "-f", base], check=False)
    left = sum(p["left"] for p in perjob.values())
    complete = [p for p in perjob.values() if p["left"] == 0 and p["trunc"] == 0]
    notstarted = len(jobs) - len(perjob)
    exhaustive = left == 0 and notstarted == 0 and not errors and not inconc and agg["budget"] == 0 and agg["unsupported"] == 0
    known = load_known()
    new, knownv = [], []
    for v in viol:
        k = is_known(prop, v, known)
        (knownv if k else new).append((v, k))
    rdir = VERIF / "evidence" / "replays"
    rdir.mkdir(parents=True, exist_ok=True)
    lines = []
    seen = set()
    for v, _ in new:
        if v["label"] in seen:
            continue
        seen.add(v["label"])
        h = hashlib.sha1(json.dumps([v["label"], v["params"], v["inputs"]], sort_keys=True).encode()).hexdigest()[:10]
        rp = rdir / f"{prop}-{h}.json"
        rp.write_text(json.dumps(dict(property=prop, **v), indent=1, ensure_ascii=False))
        lines.append(f"VIOLATION property={prop} replay={rp}")
        print(f"# {v['fn']} {v['params']} {v['label']}: {v['detail']} inputs={v['inputs']!r}")
    seenk = set()
    for v, k in knownv:
        if k["id"] not in seenk:
            seenk.add(k["id"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    wall = time.time() - t0
    nm = len(mism)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(new),
              coverage=dict(
                  states=agg["done"], transitions=stats["decisions"],
                  traces_validated_against_impl=agg["validated"], samples=samples[:6],
                  explanation="states = completed symbolic paths (each stands for all inputs satisfying its path condition); transitions = symbolic branch decisions on them",
                  paths_started=agg["paths"], paths_infeasible=agg["infeasible"], paths_cut=dict(budget=agg["budget"], unsupported=agg["unsupported"], hang=agg["hang"]),
                  cut_reasons=reasons, property_assertions=agg["checks"], assertion_labels=labels,
                  solver_queries=stats["queries"], solver_sat=stats["sat"], solver_unsat=stats["unsat"], solver_unknown=stats["unknown"],
                  solver_seconds=round(stats["solver_s"], 2), branches_decided_by_domain_masks=stats["fast"],
                  model_mismatches=nm, mismatch_examples=[m for m in mism if m][:3], inconclusive=len(inconc), inconclusive_examples=[x for x in inconc if x][:5],
                  functions_encoded=[f for f in sorted(funcs) if not f.startswith("harness")],
                  jobs=len(jobs), jobs_complete=len(complete), jobs_not_started=notstarted, unexplored_branches=left,
                  bounds=spec["bounds"], per_job=[dict(fn=p["fn"], params=p["params"], paths=p["done"], unexplored=p["left"]) for p in perjob.values()],
                  exhaustive=bool(exhaustive), engine_errors=errors[:3]),
              assumptions=spec.get("assumptions", []) + COMMON)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=False))
    print(f"{prop} {tier}: jobs {len(complete)}/{len(jobs)} complete, paths {agg['done']} (cut {agg['budget'] + agg['unsupported'] + agg['hang']}, unexplored {left}), "
          f"assertions {agg['checks']}, queries {stats['queries']} in {stats['solver_s']:.1f}s, validated {agg['validated']}, mismatches {nm}, "
          f"inconclusive {len(inconc)}, wall {wall:.1f}s")
    if a.v:
        for p in perjob.values():
            print("   ", p["fn"], p["params"], "paths", p["done"], "of", p["paths"], "left", p["left"], "t %.1f" % p["t"], "trunc", p["trunc"])
        for k, v in reasons.items():
            print("    cut:", k, v)
        for m in [m for m in mism if m][:2]:
            print("    MISMATCH", json.dumps(m, ensure_ascii=False)[:3000])
        for x in [x for x in inconc if x][:3]:
            print("    INCONC", x)
        print("    labels", labels)
    for e in errors[:2]:
        print("ERROR", e, file=sys.stderr)
    for ln in lines:
        print(ln)
    if lines:
        return 1
    if errors and agg["done"] == 0:
        return 2
    if agg["done"] == 0 or agg["checks"] == 0:
        print("no path reached an assertion", file=sys.stderr)
    return 0


def is_known(prop, v, known):
    for k in known:
        if k["property"] == prop and k.get("tag") is not None and k["tag"] == v["tag"]:
            return k
    return None


COMMON = [
    "symbolic characters range over the 104-character alphabet of symx/alpha.py (tab, newline, printable ASCII, and U+00A0 U+00AE U+00C9 U+00E9 U+2013 U+2019 U+2026)",
    "lxml/libxml2, zipfile, the file system and loguru run natively and are trusted to treat symbolic characters like any other character; every validated path re-checks this on the real code",
    "the semantics of str, re, int, dict, set, json and html.escape are those of symx/strs.py, symx/rx.py, symx/rt.py; every validated path re-checks them on the real code",
]


def get(q, ws, timeout):
    end = time.time() + timeout
    while time.time() < end:
        if q._reader.poll(1.0):
            return q.get()
        if not any(w[0].is_alive() for w in ws):
            if q._reader.poll(0.5):
                return q.get()
            return ("timeout", None, None)
    return ("timeout", None, None)


if __name__ == "__main__":
    reexec()
    main()
