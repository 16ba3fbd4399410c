#!/usr/bin/env python3
"""seedtest.py [--check] [ID…]: demo on the clean tree, then with the patch: tests, demo, and (--check) the property's quick check"""
import json, subprocess, sys, time
from pathlib import Path
S = Path(__file__).resolve().parent.parent / "seeded"
args = sys.argv[1:]
check = "--check" in args
notests = "--notests" in args
ids = [a for a in args if not a.startswith("--")] or sorted(p.name for p in S.iterdir())


def sh(*c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)


for i in ids:
    d = S / i
    assert sh("git", "-C", "/repo", "status", "--porcelain", "-uno").stdout == ""
    m = json.loads((d / "meta.json").read_text())
    out = [i]
    c = sh("bash", str(d / "demo.sh"), cwd="/repo")
    out.append(f"clean={c.returncode}")
    if c.returncode:
        print(c.stdout[-1500:], c.stderr[-1500:])
    a = sh("git", "-C", "/repo", "apply", str(d / "patch.diff"))
    if a.returncode:
        print(i, "patch does not apply", a.stderr)
        continue
    try:
        c = sh("bash", str(d / "demo.sh"), cwd="/repo")
        out.append(f"patched={c.returncode}")
        out.append((c.stderr.strip().splitlines() or [""])[-1][:90])
        if not notests:
            t = sh("bash", "/opt/vp/test.sh", "/tmp/seed_t.json")
            r = json.loads(Path("/tmp/seed_t.json").read_text())
            out.append("tests=" + str(len(r.get("passed", []))) + "/" + str(len(r.get("failed", []))))
        if check:
            t0 = time.time()
            k = sh("python3", str(S.parent / "check.py"), m["property"], "--tier", "quick", cwd=str(S.parent))
            ln = [x for x in k.stdout.splitlines() if x.startswith("VIOLATION")]
            out.append(f"check={k.returncode} {time.time()-t0:.0f}s " + ("CAUGHT" if k.returncode == 1 and ln else "*** MISSED"))
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    print(" | ".join(out), flush=True)
