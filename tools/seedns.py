#!/usr/bin/env python3
"""seedns.py [--check] [--notests] [--all P..] [ID...]   like seedtest.py, with a patched copy mounted over /repo in a namespace of its own"""
import json, os, shutil, subprocess, sys, time
from pathlib import Path
HERE = Path(__file__).resolve().parent
S = HERE.parent / "seeded"
args = sys.argv[1:]
ids = [a for a in args if not a.startswith("-")] or sorted(p.name for p in S.iterdir())
base = Path("/tmp/seedns_%d" % os.getpid())


def ns(*cmd):
    c = ["mount --bind %s/repo /repo" % base, "mount --bind %s/verif /verif" % base, *cmd]
    return subprocess.run(["unshare", "-Urm", "bash", "-c", " ; ".join(c)], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))


try:
    for i in ids:
        d = S / i
        m = json.loads((d / "meta.json").read_text())
        shutil.rmtree(base, ignore_errors=True)
        base.mkdir()
        shutil.copytree("/repo", base / "repo", symlinks=True)
        shutil.copytree(HERE.parent, base / "verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
        shutil.copytree(d, base / "demo")
        demo = "cd /repo; bash %s/demo/demo.sh" % base
        out = [i]
        c = ns(demo)
        out.append("clean=%d" % c.returncode)
        if c.returncode:
            print(c.stdout[-1500:], c.stderr[-1500:])
        a = subprocess.run(["git", "-C", str(base / "repo"), "apply", str(d / "patch.diff")], capture_output=True, text=True)
        if a.returncode:
            print(i, "patch does not apply", a.stderr)
            continue
        c = ns(demo)
        out.append("patched=%d" % c.returncode)
        out.append((c.stderr.strip().splitlines() or [""])[-1][:90])
        if "--notests" not in args:
            ns("bash /opt/vp/test.sh %s/t.json" % base)
            r = json.loads((base / "t.json").read_text())
            out.append("tests=%d/%d" % (len(r.get("passed", [])), len(r.get("failed", []))))
        if "--check" in args:
            t0 = time.time()
            k = ns("cd /verif; python3 check.py %s --tier quick" % m["property"])
            ln = [x for x in k.stdout.splitlines() if x.startswith("VIOLATION")]
            out.append("check=%d %.0fs " % (k.returncode, time.time() - t0) + ("CAUGHT" if k.returncode == 1 and ln else "*** MISSED"))
        print(" | ".join(out), flush=True)
finally:
    shutil.rmtree(base, ignore_errors=True)
