#!/usr/bin/env python3
"""mkseed.py [ID…]   writes /verif/seeded/<id>/ from the definitions in tools/seeds/defs.py"""
import json, os, re, shutil, subprocess, sys, tempfile
from pathlib import Path
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE / "seeds"))
from defs import SEEDS
OUT = HERE.parent / "seeded"
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
DEMO = '#!/bin/bash\nexec /opt/venv/bin/python -X utf8 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def make(s):
    d = OUT / s["id"]
    tmp = Path(tempfile.mkdtemp(prefix="mkseed_"))
    try:
        subprocess.run(["git", "clone", "-q", "/repo", str(tmp / "r")], check=True)
        blame_ok = False
        for f, old, new in s["edits"]:
            q = tmp / "r" / f
            t = q.read_text()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            q.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", str(tmp / "r"), "diff"], capture_output=True, text=True, check=True).stdout
        # lines removed must be the original's
        cur = None
        for ln in diff.splitlines():
            if ln.startswith("--- a/"):
                cur = ln[6:]
                bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--root", "-l", "HEAD", "--", cur], capture_output=True, text=True).stdout.splitlines()
            elif ln.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", ln).group(1))
            elif ln.startswith("-"):
                if bl[n - 1].split()[0].lstrip("^").startswith(BASE[:30]):
                    blame_ok = True
                else:
                    print(s["id"], "NOT ORIGINAL:", ln)
                n += 1
            elif ln.startswith(" "):
                n += 1
        if not blame_ok:
            print(s["id"], "*** changes no original line")
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text((HERE / "seeds" / f"pre_{s['pre']}.py").read_text() + "\n\n" + s["demo"].strip() + "\n")
        (d / "demo.sh").write_text(DEMO)
        os.chmod(d / "demo.sh", 0o755)
        (d / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    finally:
        shutil.rmtree(tmp)


for s in SEEDS:
    if not sys.argv[1:] or s["id"] in sys.argv[1:]:
        make(s)
