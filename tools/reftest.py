#!/usr/bin/env python3
"""reftest.py SET [--tests] [Pxx ...]   run the quick checks on a copy of /repo with the edits of tools/refactor/SET.py (which keep the
behaviour), mounted over /repo in a namespace of its own"""
import importlib.util
import os
import shutil
import subprocess
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent


def main():
    name, args = sys.argv[1], sys.argv[2:]
    tests = "--tests" in args
    props = [a for a in args if not a.startswith("-")] or ["P%02d" % i for i in range(1, 34)]
    base = Path("/tmp/reftest_" + name)
    shutil.rmtree(base, ignore_errors=True)
    base.mkdir()
    shutil.copytree("/repo", base / "repo", symlinks=True)
    spec = importlib.util.spec_from_file_location("ref_" + name, HERE / "refactor" / (name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for path, old, new in m.EDITS:
        p = base / "repo" / path
        s = p.read_text()
        assert s.count(old) == 1, (path, s.count(old), old)
        p.write_text(s.replace(old, new))
    shutil.copytree(HERE.parent, base / "verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
    cmd = ["mount --bind %s/repo /repo" % base, "mount --bind %s/verif /verif" % base, "cd /verif"]
    if tests:
        cmd.append("bash /opt/vp/test.sh %s/out.json >/dev/null 2>&1; python3 -c \"import json; d=json.load(open('%s/out.json')); print({k: (len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})\"" % (base, base))
    for p in props:
        cmd.append("timeout 900 python3 check.py %s --tier quick > %s/%s.txt 2>&1; echo %s $? \"$(tail -1 %s/%s.txt)\"" % (p, base, p, p, base, p))
    subprocess.run(["unshare", "-Urm", "bash", "-c", " ; ".join(cmd)], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))


main()
