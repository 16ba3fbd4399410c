#!/usr/bin/env python3
"""mutants.py [--seed N] [--count N] [--file SUBSTR] [--budget S] OUT   mechanical changes of single expressions of /repo's sources

Each is made in a copy of /repo that is mounted over it in a namespace of its own; those which the stable tests do not
notice are shown to the checks of the properties that are anchored in the file.  What no check notices is listed for review."""
import argparse, ast, json, os, random, shutil, subprocess
from pathlib import Path
HERE = Path(__file__).resolve().parent
PROPS = {
    "jsonspec/extractors/structtable.py": "P32 P14 P02 P01 P03 P06 P10 P11 P09 P08 P13 P33",
    "jsonspec/extractors/valuetable.py": "P32 P14 P07 P04 P09 P08 P11 P12 P13 P33",
    "jsonspec/extractors/helpers.py": "P06 P07 P08 P05 P14",
    "jsonspec/extractors/figure.py": "P09 P11 P14 P32 P33",
    "jsonspec/extractors/regular_expressions.py": "P01 P02 P06 P07 P08 P05 P28",
    "jsonspec/document.py": "P12 P14 P13 P32 P33 P16 P10 P17 P30",
    "jsonspec/rowiter.py": "P09 P10 P32",
    "jsonspec/queries.py": "P02 P10",
    "jsonspec/lint.py": "P16 P15 P33",
    "jsonspec/parse.py": "P17 P23 P32",
    "jsonspec/parserargs.py": "P13 P15 P27",
    "jsonspec/quirks/": "P17 P13",
    "htmlspec/parser.py": "P19 P21 P28 P29 P20",
    "htmlspec/htmlrenderer.py": "P19 P21 P20 P23 P29 P22 P34",
    "htmlspec/css.py": "P22 P19",
    "htmlspec/stream.py": "P21 P19",
    "htmlspec/docx/numbering.py": "P21 P32",
    "htmlspec/docx/": "P22 P20 P23 P29 P32",
    "log/": "P30",
    "spex/parse.py": "P18 P34 P15 P27 P16 P29",
    "spex/writer.py": "P18 P16 P27",
    "spex/validate.py": "P27 P16",
    "spex/__main__.py": "P27 P15 P13 P18",
    "spex/xml.py": "P09 P12 P26 P06 P29",
    "spexsrv/": "P24 P34 P26 P25 P31 P35",
}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def muts(src):
    """(line, what, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def put(n, new):
        a, b = span(n)
        return (raw[:a] + new.encode() + raw[b:]).decode()

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()
    doc, ann = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(n.value)
        for a in ("annotation", "returns"):
            x = getattr(n, a, None)
            if x is not None:
                ann |= set(ast.walk(x))
        if isinstance(n, (ast.Raise, ast.Assert)):
            ann |= set(ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and seg(n.func) in ("cast", "TypeVar", "NewType"):
            ann |= set(ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            ann |= set(ast.walk(n)) - {n}
    for n in ast.walk(tree):
        if n in doc or n in ann:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            yield n.lineno, "compare", put(n, f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            yield n.lineno, "boolop", put(n, "(" + op.join(seg(v) for v in n.values) + ")")
            yield n.lineno, "first", put(n, "(" + seg(n.values[0]) + ")")
            yield n.lineno, "last", put(n, "(" + seg(n.values[-1]) + ")")
        elif isinstance(n, ast.If) and n.orelse == [] and not isinstance(n.test, (ast.Compare, ast.BoolOp)):
            yield n.lineno, "never", put(n.test, "False")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            yield n.lineno, "int", put(n, str(n.value + 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield n.lineno, "bool", put(n, str(not n.value))
        elif isinstance(n, ast.Constant) and type(n.value) is str and n.value and "\n" not in seg(n):
            yield n.lineno, "str", put(n, repr(n.value[:-1]))
        elif isinstance(n, ast.Continue):
            yield n.lineno, "break", put(n, "break")
        elif isinstance(n, ast.Break):
            yield n.lineno, "continue", put(n, "continue")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield n.lineno, "arith", put(n, f"({seg(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {seg(n.right)})")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "log" not in seg(n) and "print" not in seg(n):
            yield n.lineno, "drop", put(n, "pass")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lower", "upper", "lstrip", "rstrip") :
            yield n.lineno, "nocall", put(n, seg(n.func.value))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--count", type=int, default=40)
    ap.add_argument("--file", default="")
    ap.add_argument("--budget", default="25")
    a = ap.parse_args()
    every = []
    for f in sorted(Path("/repo/src").rglob("*.py")):
        if a.file in str(f):
            src = f.read_text()
            ps = next((v for k, v in PROPS.items() if k in str(f)), None)
            if ps:
                every += [(str(f.relative_to("/repo")), ln, what, new, ps) for ln, what, new in muts(src)]
    random.Random(a.seed).shuffle(every)
    base = Path(f"/tmp/mutants_{os.getpid()}")
    out = open(a.out, "a")
    print(len(every), "mutants in all", file=out, flush=True)

    def ns(cmd, t=600):
        c = f"mount --bind {base}/repo /repo; mount --bind {base}/verif /verif; " + cmd
        try:
            return subprocess.run(["unshare", "-Urm", "bash", "-c", c], capture_output=True, text=True, timeout=t, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        except subprocess.TimeoutExpired:
            return None
    try:
        base.mkdir()
        shutil.copytree("/repo", base / "repo", symlinks=True)
        shutil.copytree(HERE.parent, base / "verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
        stable = set(json.loads(Path("/opt/vp/BASELINE.json").read_text()).get("stable", [])) or None
        for f, ln, what, new, ps in every[:a.count]:
            q = base / "repo" / f
            old = q.read_text()
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            q.write_text(new)
            line = new.splitlines()[ln - 1].strip()
            ns(f"bash /opt/vp/test.sh {base}/t.json", 120)
            try:
                r = json.loads((base / "t.json").read_text())
                ok = len(r.get("passed", [])) == 23
                (base / "t.json").unlink()
            except Exception:
                ok = False
            if not ok:
                q.write_text(old)
                print(f"{f}:{ln} {what}: tests | {line}", file=out, flush=True)
                continue
            got = None
            for p in ps.split():
                k = ns(f"cd /verif; python3 check.py {p} --tier quick --budget {a.budget}")
                if k is None or k.returncode == 1:
                    got = p
                    break
            print(f"{f}:{ln} {what}: {got or '*** SURVIVED'} | {line}", file=out, flush=True)
            q.write_text(old)
    finally:
        shutil.rmtree(base, ignore_errors=True)


main()
