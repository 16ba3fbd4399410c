"""P15 lint suppression, P16 schema, P18 output file, P27 exit status"""
import json
import os
import shutil
import sys
from pathlib import Path

from . import lib
from .lib import ELL, DIGITS, LETTERS, document, extract, figure, hdr, nested, p, td, tr

NAMECH = LETTERS + DIGITS + " -_,()+\u00e9\u00ae"


def fresh(env, name="io"):
    d = Path(env.scratch) / name
    if d.exists():
        shutil.rmtree(d)
    d.mkdir()
    (d / "out").mkdir()
    return d


def run_spec(src, out, skip=True, ignore=None, progress=False):
    """drive parse_spec to its end; returns the path it reports"""
    from spex.jsonspec.parserargs import ParserArgs
    from spex.parse import parse_spec
    gen = parse_spec(src, ParserArgs(output_dir=out, skip_fig_on_error=skip, lint_codes_ignore=ignore), yield_progress=progress)
    while True:
        try:
            next(gen)
        except StopIteration as e:
            return e.value


def load(path):
    return json.loads(path.read_text())


# ---------------------------------------------------------------- documents that raise many codes
def noisy(env, extra=""):
    f1 = figure(env, "Figure 1: A", [hdr(env, "Byte", "Description"),
                                     tr(td(p(env, "1:3")), td(p(env, "Alpha (AB): t"))),          # R1002
                                     tr(td(p(env, "9h")), td(p(env, "Alpha (AB): t"))),            # R1001 L1002
                                     tr(td(p(env, "12")), td(p(env, "Beta? (b!)"))),
                                     tr(td(p(env, "20")), td(p(env, "Gamma (GA): t")))])            # T1002
    f2 = figure(env, "Figure 2: B", [hdr(env, "Foo", "Bar"), tr(td(p(env, "1")), td(p(env, "2")))])  # T1007
    f3 = figure(env, "Figure 3: C", [hdr(env, "Value", "Description"), tr(td(p(env, "1h")), td("text")),
                                     tr(td(p(env, "2h")), td(p(env, "x")))])                        # T1000
    f4 = figure(env, "Figure 4: D", [hdr(env, "Code", "Description"), tr(td(p(env, "1h")), td(p(env, "AB: t"))),
                                     tr(td(p(env, "1h")), td(p(env, "A\u00ae: t")))])               # T1006 V1002 L1004
    f5 = figure(env, "Figure : E", [hdr(env, "Value", "Description")])                              # T1008
    f6 = figure(env, "Figure 6: F", [hdr(env, "Bits", "Description"), tr(td(p(env, "1:0")), td(p(env, "Name (AA)"))),
                                     tr(td(p(env, "3:2")), td(p(env, "Name (AC)")))])                # T1004
    f7 = figure(env, "Figure 7: G", [hdr(env, "Value", "Description")] + [tr(td(p(env, "0h")), td(p(env, "(x)"))) for i in range(3)])  # L1000, and each issue twice
    sub = nested([hdr(env, "Code", "Description"), tr(td(p(env, "0h")), td(p(env, "In: x"))), tr(td(p(env, "0h")), td(p(env, "In: \u00e9")))])  # T1006 L1002 V1002
    sub2 = nested([hdr(env, "Bits", "Attribute", "Description"), tr(td(p(env, "9h")), td(p(env, "Some Name")), td(p(env, "x") + sub))])  # R1001 L1003
    f8 = figure(env, "Figure 8: H", [hdr(env, "Bytes", "Description"), tr(td(p(env, "0")), td(p(env, "Nest (NE)") + sub2 + nested([hdr(env, "Foo", "Bar")])))])  # T1007
    return document(env, f1 + f2 + f3 + f4 + f5 + f6 + f7 + f8 + extra)


CODES = ["T1000", "T1001", "T1002", "T1004", "T1006", "T1007", "T1008", "L1000", "L1002", "L1003", "L1004", "V1002", "R1001", "R1002"]


def case(env, name, word, free):
    out = ""
    for i, c in enumerate(word):
        if c.lower() != c.upper() and free:
            out = out + env.text(name + "%d" % i, 1, c.lower() + c.upper())
        else:
            out = out + c
    return out


def worded(env, w):
    """a document whose titles, headings, keys and names are codes themselves"""
    low = w.lower()
    f1 = figure(env, "Figure " + w + ": " + w, [hdr(env, "Bits", "Description"), tr(td(p(env, w)), td(p(env, "Alpha (" + w + "): " + w))),
                                                tr(td(p(env, low)), td(p(env, "Beta (" + w + "): " + low) + nested([hdr(env, "Code", "Description")])))])
    f2 = figure(env, "Figure 2: " + w, [hdr(env, "Value", "Description"), tr(td(p(env, w)), td(p(env, w + "?: x"))), tr(td(p(env, w)), td(p(env, w + ": x")))])
    f3 = figure(env, "Figure 3: " + w, [hdr(env, w, low), tr(td(p(env, "1")), td(p(env, "2")))])
    return f1 + f2 + f3


def h_ignore(env, n=1, ws=True, skip=True, word=False, before=()):
    """every set of n codes, any case and blanks, behind the codes `before`"""
    from spex import __main__ as m
    parts = list(before)
    names = list(before)
    for i in range(n):
        c = env.pick("c%d" % i, CODES)
        names.append(c)
        w1 = env.text("a%d" % i, 1, " \t") if ws and env.flag("w%d" % i) else ""
        w2 = env.text("b%d" % i, 2, " \n") if ws and env.flag("v%d" % i) else ""
        parts.append(w1 + case(env, "k%d" % i, c, True) + w2)
    opt = ",".join(parts)
    d = fresh(env)
    src = d / "doc.html"
    text = noisy(env, worded(env, env.pick("word", CODES) if word == "any" else names[0]) if word else "")
    src.write_text(text)
    ok, codes = env.attempt(m.arg_lintcode, opt)
    env.check("P15", ok, "known codes are accepted")
    if not ok:
        return
    (d / "out2").mkdir()
    ok, p1 = env.attempt(run_spec, src, d / "out", skip, None)
    env.check("P15", ok, "run without suppression")
    if not ok:
        return
    ok, p2 = env.attempt(run_spec, src, d / "out2", skip, codes)
    env.check("P15", ok, "run with suppression")
    if not ok:
        return
    a, b = load(p1), load(p2)
    env.out("codes", [x["code"] for x in b["meta"]["lint"]])
    env.check("P15", a["entities"] == b["entities"], "entities do not depend on the ignored codes")
    r = extract(env, text)
    env.check("P15", a["meta"]["lint"] == [x.d for x in r.lint], "without suppression every issue is listed")
    want = [x.d for x in r.lint if x.code not in names]
    env.check("P15", b["meta"]["lint"] == want, "exactly the named codes are removed")
    am = {k: v for k, v in a["meta"].items() if k != "lint"}
    bm = {k: v for k, v in b["meta"].items() if k != "lint"}
    env.check("P15", am == bm, "the rest of the metadata is the same")


def h_ignore_text(env, n=5, pre="", post=""):
    """arbitrary option text"""
    from spex import __main__ as m
    from spex.jsonspec.lint import Code
    t = pre + env.text("t", n) + post
    ok, codes = env.attempt(m.arg_lintcode, t)
    words = [w.strip().upper() for w in t.split(",")]
    known = [c.name for c in Code]
    good = True
    for w in words:
        if not any(w == k for k in known):
            good = False
    env.out("ok", ok)
    env.check("P15", ok == good, "an unknown code is refused, a known one accepted")
    if ok:
        env.check("P15", [c.name for c in codes] == words, "the codes named")


def h_ignore_cli(env, n=2):
    """through the command line; an unknown code leaves no output"""
    opt = env.text("t", n, LETTERS + DIGITS + ",") + env.pick("rest", ["", "1000", "T1000", "000,T1007", " , t1007 "])
    d = fresh(env)
    src = d / "doc.html"
    src.write_text(noisy(env))
    st = cli(env, ["-s", "-o", str(d / "out"), "--lint-ignore", opt, str(src)])
    from spex.jsonspec.lint import Code
    names = [w.strip().upper() for w in opt.split(",")]
    known = [c.name for c in Code]
    good = all(any(w == k for k in known) for w in names)
    files = sorted(x.name for x in (d / "out").iterdir())
    env.out("st", [st, files])
    if not good:
        env.check("P15", st != 0 and files == [], "an unknown code is refused before anything is written")
        return
    env.check("P15", st == 0 and files == ["doc.json"], "a known code is accepted")
    if files == ["doc.json"]:
        got = [x["code"] for x in load(d / "out" / "doc.json")["meta"]["lint"]]
        r = extract(env, noisy(env))
        env.check("P15", got == [x.code for x in r.lint if not any(x.code == w for w in names)], "exactly the named codes are removed")


# ---------------------------------------------------------------- command line
def cli(env, argv):
    """exit status of the command"""
    from spex import __main__ as m
    old = sys.argv
    sys.argv = ["spex"] + argv
    try:
        ok, e = env.attempt(m.main)
    finally:
        sys.argv = old
    if ok:
        return 0
    if isinstance(e, SystemExit):
        c = e.code
        return 0 if c is None else c if isinstance(c, int) else 1
    return 1


def good_html(env, i):
    return document(env, figure(env, "Figure %d: T" % (i + 1), [hdr(env, "Bits", "Description"), tr(td(p(env, "7:4")), td(p(env, "Name (ABC): t")))]))


def failing_html(env):
    return document(env, figure(env, "Figure 9: T", [hdr(env, "Bits", "Description"), tr(td(p(env, "7:4")), td("x"))]))


KINDS = ["good", "fail", "broken", "nometa", "missing", "dir", "json", "txt", "upper", "baddocx", "nosuffix", "empty"]


def h_status(env, n=2, kinds=None, opts=True, same=False, before=0):
    """`same`: inputs of one name in different folders; `before`: as many good inputs in front"""
    d = fresh(env)
    argv = ["-o", str(d / "out")]
    skip = opts and env.flag("skip")
    if skip:
        argv.append("-s")
    if opts and env.flag("valid"):
        argv.append("--validate-json")
    if opts and env.flag("verb"):
        argv.append("-v")
    want = True
    exist = True
    names = []
    for i in range(before + n):
        k = "good" if i < before else env.pick("k%d" % i, kinds or KINDS)
        suf = {"json": ".json", "txt": ".txt", "upper": ".HTML", "baddocx": ".docx", "nosuffix": ""}.get(k, ".html")
        f = d / ("in%d%s" % (i, suf))
        if same:
            f = d / ("s%d" % i) / ("in" + suf)
            f.parent.mkdir()
        text = {"fail": failing_html(env), "broken": "<html><p></html>", "nometa": "<html><head></head><body></body></html>", "empty": ""}.get(k, good_html(env, i))
        if k == "dir":
            f.mkdir()
        elif k != "missing":
            f.write_text(text)
        argv.append(str(f))
        if not (k == "good" or k == "fail" and skip):
            want = False
        names.append((k, "in.json" if same else "in%d.json" % i))
    st = cli(env, argv)
    files = sorted(x.name for x in (d / "out").iterdir())
    env.out("st", [st, files])
    env.check("P27", (st == 0) == want, "exit status 0 exactly when every input was processed")
    for k, f in names:
        if not same and k in ("missing", "dir", "json", "txt", "upper", "nosuffix"):
            env.check("P27", f not in files, "refused inputs leave no output")
    if want:
        env.check("P27", files == sorted(set(f for _, f in names)), "every input has its output")


class Boom(Exception):
    pass


def h_stub(env, n=2):
    """what main makes of what parsing reports: stand-in for the parsing itself"""
    from spex import __main__ as m
    d = fresh(env)
    valid = env.flag("valid")
    argv = ["-o", str(d / "out")] + (["--validate-json"] if valid else [])
    plan = {}
    want = True
    for i in range(n):
        k = env.pick("k%d" % i, ["ok", "invalid", "boom", "late", "keyerr", "none", "nofig"])
        f = d / ("in%d.html" % i)
        f.write_text("x")
        plan[f.name] = k
        argv.append(str(f))
        if k in ("boom", "late", "keyerr") or k == "invalid" and valid:
            want = False
    model = {"meta": {"specification": "s", "revision": "1", "format version": 1}, "entities": []}
    bad = env.pick("bad", [{"entities": []}, {"meta": dict(model["meta"]), "entities": [{"fig_id": 1, "type": "bits"}]},
                           {"meta": dict(model["meta"]), "entities": [{"fig_id": "1", "type": "words"}]},
                           {"meta": {"specification": "s", "revision": "1"}, "entities": []}])
    done = []

    def fake(spec, args, yield_progress=False):
        k = plan[spec.name]
        if k == "boom":
            raise Boom("x")
        if k == "keyerr":
            raise KeyError("x")
        yield ("html", 0, 2)
        if k == "late":
            raise ValueError("x")
        if k == "none":
            return None
        out = args.output_dir / (spec.stem + ".json")
        out.write_text(json.dumps(bad if k == "invalid" else model))
        done.append(spec.name)
        return out
    old = m.parse_spec
    m.parse_spec = fake
    try:
        st = cli(env, argv)
    finally:
        m.parse_spec = old
    env.out("st", [st, done])
    env.check("P27", (st == 0) == want, "exit status tells whether everything was processed and valid")
    if want:
        env.check("P27", len(done) == len([k for k in plan.values() if k != "none"]), "every input is processed")


def h_suffix(env, n=3, pre=""):
    """arbitrary file name suffix"""
    suf = pre + env.text("s", n, "htmldocxjsnHTML_ 1")
    d = fresh(env)
    f = d / ("in." + suf)
    f.write_text(good_html(env, 0))
    st = cli(env, ["-s", "-o", str(d / "out"), str(f)])
    files = sorted(x.name for x in (d / "out").iterdir())
    env.out("st", [st, files])
    if suf == "html":
        env.check("P27", st == 0 and files == ["in.json"], "html is processed")
    elif suf != "docx":
        env.check("P27", st != 0 and files == [], "other suffixes are refused")


def h_cwd(env):
    """without -o the output goes to the working directory, an output directory is created"""
    d = fresh(env)
    (d / "in.html").write_text(good_html(env, 0))
    old = os.getcwd()
    mode = env.pick("m", ["cwd", "new", "file"])
    os.chdir(d / "out")
    try:
        argv = [str(d / "in.html")]
        if mode == "new":
            argv += ["-o", str(d / "x" / "y")]
        if mode == "file":
            (d / "x").write_text("")
            argv += ["-o", str(d / "x")]
        st = cli(env, argv)
    finally:
        os.chdir(old)
    env.out("st", st)
    if mode == "file":
        env.check("P27", st != 0, "an output that is a file is refused")
    else:
        env.check("P27", st == 0, "processed")
        env.check("P18", ((d / "out") if mode == "cwd" else d / "x" / "y").joinpath("in.json").exists(), "the file is in the output directory")


# ---------------------------------------------------------------- P12 / P13 through the command
def h_cli_account(env, n=2, figs=None, docs=1):
    """which figures the written models hold under every combination of options"""
    from . import doc
    d = fresh(env)
    argv = ["-o", str(d / "out")]
    skip = env.flag("skip")
    if skip:
        argv.append(env.pick("sk", ["-s", "--skip-figure-on-error"]))
    v = env.pick("verb", [None, "-v", "--verbose", "--no-verbose"])
    if v:
        argv.append(v)
    v = env.pick("valid", [None, "--validate-json", "--no-validate-json"])
    if v:
        argv.append(v)
    if env.flag("ign"):
        argv += ["--lint-ignore", "T1000,T1007"]
    prop = "P12" if skip else "P13"
    plans = []
    for j in range(docs):
        b = ""
        outs = []
        for i in range(n):
            html, what, info = doc.make(env, env.pick("f%d_%d" % (j, i), figs or ["bits", "unknown", "nonum", "fail", "failv", "failnested"]), i)
            b += html
            outs.append((what, info))
        (d / ("in%d.html" % j)).write_text(document(env, b))
        argv.append(str(d / ("in%d.html" % j)))
        plans.append(outs)
    st = cli(env, argv)
    env.out("st", st)
    stopped = False
    for j, outs in enumerate(plans):
        f = d / "out" / ("in%d.json" % j)
        if stopped:
            env.check("P13", not f.exists(), "documents behind the failure are not processed")
            continue
        want = []
        for what, info in outs:
            if what == "ok":
                want += info
            elif what == "T1000" and not skip:
                stopped = True
                break
        ok, m = env.attempt(load, f)
        env.check(prop, ok, "the model is written")
        if ok:
            got = [(e["fig_id"], e.get("title"), e["type"], e["fields"][0]["label"].lower()) for e in m["entities"] if "parent_fig_id" not in e]
            env.check(prop, got == want, "exactly the figures that can be extracted, in document order")
    env.check(prop, (st != 0) == stopped, "the failure reaches the caller")


# ---------------------------------------------------------------- P18
def body(env, t, u, fail=None):
    """three figures with symbolic texts; figure number `fail` fails"""
    b = ""
    for i in range(3):
        rows = [hdr(env, "Value", "Description"), tr(td(p(env, "V" + (t if i == 1 else ""))), td(p(env, "LABEL: " + (u if i != 1 else "x"))))]
        if fail == i:
            rows.append(tr(td(p(env, "W")), td("no paragraph")))
        b += figure(env, "Figure %d: T %s" % (i + 1, t if i == 0 else ""), rows)
    return b


def h_write(env, n=3, names=False, progress=False, first=True, twice=False):
    t = env.text("t", n)
    u = env.text("u", n) if first else "u"
    d = fresh(env)
    stem = "doc"
    if names:
        stem = env.pick("n0", ["", "a.b", "x.html", ".h", "a "]) + env.text("n1", 2, NAMECH)
    src = d / (stem + ".html")
    spec = "Spec " + (u if not names else "")
    b = body(env, t, u)
    if twice:  # the same figures once more
        b += b
    html = document(env, b, spec=spec, rev="R" + t)
    src.write_text(html)
    ok, path = env.attempt(run_spec, src, d / "out", True, None, progress)
    env.check("P18", ok, "the run succeeds")
    if not ok:
        return
    files = [x.name for x in (d / "out").iterdir()]
    env.check("P18", len(files) == 1 and files[0] == stem + ".json", "one file, under the name of the input")
    if len(files) != 1:
        return
    raw = (d / "out" / files[0]).read_text()
    m = json.loads(raw)
    env.check("P18", path == d / "out" / files[0], "the path is reported")
    r = extract(env, html)
    env.out("m", [m["entities"], m["meta"]["lint"], m["meta"]["specification"]])
    env.check("P18", m["entities"] == r.entities, "entities in order, every character kept")
    env.check("P18", m["meta"]["lint"] == [x.d for x in r.lint], "lint entries")
    env.check("P18", m["meta"]["specification"] == spec.lower() and m["meta"]["revision"] == "r" + t.lower(), "title and revision")
    env.check("P18", m["meta"]["format version"] == 1 and isinstance(m["meta"]["spex version"], str), "versions")
    env.check("P18", sorted(m.keys()) == ["entities", "meta"], "nothing else")


def h_writer(env, n=2, count=(0, 1, 3)):
    """the writer by itself: any JSON value"""
    from spex.writer import FileWriter
    d = fresh(env)
    t = env.text("t", n)
    num = env.int("i", -5, 300)
    val = env.pick("v", [lambda: t, lambda: {t: [num, None]}, lambda: [t, [], {}, True], lambda: {"a": {"b": t}, "k" + t: num}])()
    ents = env.pick("k", list(count))
    err = env.pick("e", [None, "body", "exit"])
    old = env.pick("old", [None, "", "{}", "x" * 5000])
    ids = "7%.0s" if ents > 1 and old is None and err is None and env.flag("ids") else "%d"
    if old is not None:
        (d / "out" / "x.json").write_text(old)

    def go():
        with FileWriter(d / "out", d / "x.html") as w:
            w.write_meta("m", val)
            for i in range(ents):
                w.write_entity({"fig_id": ids % i, "v": val})
            w.write_meta("n" + t, num)
            if err == "body":
                raise Boom("x")
            if err == "exit":
                raise SystemExit(3)
    ok, e = env.attempt(go)
    env.check("P18", ok == (err is None), "an error reaches the caller")
    if not ok:
        env.check("P18", type(e) is (Boom if err == "body" else SystemExit), "unchanged")
    ok, m = env.attempt(load, d / "out" / "x.json")
    env.check("P18", ok, "the file is well-formed")
    if not ok:
        return
    env.out("m", m)
    want = {"m": val, "n" + t: num}
    env.check("P18", m["meta"] == want, "metadata")
    env.check("P18", m["entities"] == [{"fig_id": ids % i, "v": val} for i in range(ents)], "entities in emission order")


def h_again(env, n=1, fail=False):
    """two runs into the same folder: the file is that of the second one"""
    t, u = env.text("t", n), env.text("u", n)
    d = fresh(env)
    src = d / "doc.html"
    bad = env.pick("f", [None, 0, 2])
    src.write_text(document(env, body(env, t, t) + body(env, t, "x" * 50)))
    ok, e = env.attempt(run_spec, src, d / "out", True, None)
    env.check("P18", ok, "the first run succeeds")
    src.write_text(document(env, body(env, u, u, bad)))
    ok, e = env.attempt(run_spec, src, d / "out", False, None)
    env.check("P18", ok == (bad is None), "the second run fails exactly when it has to")
    ok, m = env.attempt(load, d / "out" / "doc.json")
    env.check("P18", ok, "the file is well-formed")
    if ok:
        env.out("m", m)
        full = extract(env, document(env, body(env, u, u))).entities
        env.check("P18", m["entities"] == full[:3 if bad is None else bad], "exactly what the second run emitted")
        env.check("P18", [x.name for x in (d / "out").iterdir()] == ["doc.json"], "one file")


def h_crash(env, n=1):
    """failure at each place, without and with progress reports; and input that is no document"""
    t = env.text("t", n)
    where = env.pick("w", [0, 1, 2, "broken", "nometa", "norev", "nested"])
    d = fresh(env)
    src = d / "doc.html"
    html = document(env, body(env, t, t, where if isinstance(where, int) else None))
    k = where if isinstance(where, int) else 0
    if where == "broken":
        html = html.replace("</body>", "")
    if where == "nometa":
        html = html.replace("data-spec", "data-speck")
    if where == "norev":
        html = html.replace("data-revision", "data-rev")
    if where == "nested":
        inner = nested([hdr(env, "Value", "Description"), tr(td(p(env, "1")), td("x"))])
        html = document(env, body(env, t, t) + figure(env, "Figure 8: T", [
            hdr(env, "Bits", "Description"), tr(td(p(env, "7")), td(p(env, "Name (AB)") + inner))]) + figure(
            env, "Figure 9: T", [hdr(env, "Bits", "Description"), tr(td(p(env, "7")), td(p(env, "Name (AB)")))]))
        k = 3
    src.write_text(html)
    ok, e = env.attempt(run_spec, src, d / "out", False, None, env.flag("p"))
    env.check("P18", not ok, "the error reaches the caller")
    files = [x.name for x in (d / "out").iterdir()]
    env.check("P18", files == ["doc.json"], "the file is there")
    if files != ["doc.json"]:
        return
    ok, m = env.attempt(load, d / "out" / "doc.json")
    env.check("P18", ok, "the file is well-formed")
    if ok:
        env.out("m", m)
        full = extract(env, document(env, body(env, t, t))).entities
        env.check("P18", m["entities"] == full[:k], "exactly what was emitted before the failure")


# ---------------------------------------------------------------- P16
def h_schema(env, n=2, m=1, kind=None, opts=None, attr=False):
    """documents with any mix of rows and texts"""
    kind = kind or env.pick("kind", ["bits", "bytes", "values"])
    k0 = {"bits": "Bits", "bytes": "Byte", "values": "Value"}[kind]
    rows = [hdr(env, k0, "Attribute", "Description") if attr else hdr(env, k0, "Description")]
    w = 3 if attr else 2
    t = env.text("t", m)
    for i in range(n):
        k = env.pick("r%d" % i, opts or ["num", "sym", "rev", "text", "res", "ell1", "ellr", "list", "desc", "note", "lesssym", "nested", "th"])
        cell = {"num": "%d:%d" % (2 * i + 1, 2 * i), "sym": t, "rev": "1:4", "text": "A" + t, "res": "%d" % i, "ellr": ELL, "desc": "%d" % (5 - i),
                "lesssym": "A+" + t + ":7", "nested": "3"}.get(k, "%d" % i)
        d = p(env, {"res": "Reserved", "ellr": "Reserved", "desc": "Na " + t + ": b" + t, "sym": "Name (AB" + t + "): x", "num": "AB: text"}.get(k, "Name (AB): " + t))
        if k == "nested":
            d += nested([hdr(env, "Bit", "Description"), tr(td(p(env, t)), td(p(env, "NE (NE): y" + t)))])
        if k == "ell1":
            rows.append(tr(td(p(env, ELL), colspan=w)))
        elif k == "list":
            rows.append(tr(td(p(env, "Some List"), colspan=w, tag="th")))
        elif k == "th":
            rows.append(tr(td(p(env, "Part"), tag="th"), td(p(env, "x"), tag="th")))
        elif k == "note":
            rows.append(tr(td(p(env, "Notes: " + t), colspan=w)))
        else:
            a = {"res": "Reserved", "sym": "A" + t, "num": "AT: x"}.get(k, env.pick("a%d" % i, ["Some Name", "AT: " + t])) if attr else ""
            rows.append(tr(td(p(env, cell)), *([td(p(env, a))] if attr else []), td(d)))
    judge_schema(env, document(env, figure(env, "Figure 3: " + t, rows), spec="S" + t))


def h_schema_doc(env, n=2):
    """documents of good, failing, unknown and mis-captioned figures"""
    from . import doc
    b = ""
    for i in range(n):
        html, _, _ = doc.make(env, env.pick("f%d" % i, doc.FIGS), i)
        b += html
    judge_schema(env, document(env, b + env.pick("x", ["", figure(env, "Figure 3x", []), figure(env, "Figure 77: T", [hdr(env, "Value", "Description")]), figure(env, "Figure", [])])))


def h_schema_noisy(env):
    judge_schema(env, noisy(env))


def h_schema_heads(env, n=1, k=2):
    """figures of any number of columns, known and unknown, with any rows"""
    opts = ["Bytes", "Bit", "Code", "Description", "Definition", "Attribute", "", None]
    cols = env.pick("cols", list(range(k + 1)))
    hs = [env.pick("h%d" % i, opts) for i in range(cols)]
    hs = [env.text("t%d" % i, n) if h is None else h for i, h in enumerate(hs)]
    row = env.pick("row", ["no", "full", "short", "long"])
    m = {"no": 0, "full": cols, "short": cols - 1, "long": cols + 1}[row]
    rows = [tr(*[td(p(env, ["1", "Name (NM): text", "Foo"][min(j, 2)])) for j in range(m)])] if m > 0 else []
    judge_schema(env, document(env, figure(env, "Figure 7: T", [hdr(env, *hs)] + rows, ncols=max(cols, 1))))


def judge_schema(env, html):
    from spex.validate import validate_json
    d = fresh(env)
    src = d / "doc.html"
    src.write_text(html)
    ok, path = env.attempt(run_spec, src, d / "out", True)
    env.check("P16", ok, "processed to the end")
    if not ok:
        return
    ok, e = env.attempt(validate_json, path)
    env.check("P16", ok, "the model conforms to the schema")
    # the schema as published: the one in the tree, read independently
    m = load(path)
    env.out("lint", m["meta"]["lint"])
    for e in m["meta"]["lint"]:
        env.check("P16", all(k in e for k in ("code", "msg", "fig", "context")), "lint entries are complete")
        env.check("P16", isinstance(e["code"], str) and isinstance(e["msg"], str) and e["msg"] != "" and isinstance(e["fig"], str) and
                  isinstance(e["context"], dict), "lint entries have the right types")
        if e["code"][0] in "RLV":
            env.check("P16", isinstance(e.get("row"), str), "label, value and range codes name the row")
    ok, msg = env.attempt(conform, m)
    env.check("P16", ok, "the model has the structure the schema describes")


def conform(m):
    """the structure of a model, written out by hand"""
    assert isinstance(m["meta"], dict) and isinstance(m["entities"], list)
    for k in ("specification", "revision", "spex version"):
        assert isinstance(m["meta"][k], str)
    assert m["meta"]["format version"] == 1
    for e in m["entities"]:
        assert isinstance(e["fig_id"], str) and e["type"] in ("values", "bits", "bytes")
        for k in ("title", "parent_fig_id"):
            assert isinstance(e.get(k, ""), str)
        for f in e["fields"]:
            assert isinstance(f["label"], str) and isinstance(f.get("brief", ""), str)
            if e["type"] == "values":
                assert isinstance(f["val"], str)
            elif not isinstance(f["range"], str):
                lo, hi = f["range"]["low"], f["range"]["high"]
                assert isinstance(lo, str) == isinstance(hi, str)
                if not isinstance(lo, str):
                    assert lo >= 0 or lo == -1 and hi == -1
