"""P32 figures and documents do not influence one another, P33 lint is filed under its figure and row"""
from lxml import etree

from . import docx, lib
from .docx import level, numbering, par, ptext, row, run, style, table, tc
from .lib import ELL, document, extract, figure, hdr, nested, p, td, tr

UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


# ---------------------------------------------------------------- rich figures
def rows_of(env, kind, what, tx, i):
    """data rows of a table of the given kind; tx is a symbolic text"""
    vt = kind == "values"
    nm = (lambda a, d="t": a + ": " + d) if vt else (lambda a, d="t": "Name (" + a + "): " + d)
    ks = {"values": ["0h", "1h", "2h", "3h"], "bytes": ["3:0", "7:4", "11:8", "15:12"], "bits": ["31:16", "15:8", "7:4", "3:0"]}[kind]
    one = tr(td(p(env, ks[0])), td(p(env, nm("AB"))))
    sub = nested([hdr(env, "Value", "Description"), tr(td(p(env, "0h")), td(p(env, "AB: t"))), tr(td(p(env, "1h")), td(p(env, "X" + tx + ": t")))])
    if what == "name":
        return [one, tr(td(p(env, ks[1])), td(p(env, nm("A" + tx))))]
    if what == "dup":
        return [one, tr(td(p(env, ks[1])), td(p(env, nm("AB"))))]
    if what == "range":
        return [one, tr(td(p(env, tx)), td(p(env, nm("CD"))))]
    if what == "order":
        return [tr(td(p(env, ks[2])), td(p(env, nm("EF")))), tr(td(p(env, ks[1])), td(p(env, nm("CD")))), one]
    if what == "noname":
        return [one, tr(td(p(env, ks[1])), td(p(env, "? " + tx)))]
    if what == "brief":
        return [one, tr(td(p(env, ks[1])), td(p(env, nm("CD", "some" + tx))))]
    if what == "list":
        head = [tr(td(p(env, "Entry List"), colspan=2, tag="th"))]
        return [one] + head + [tr(td(p(env, "A+" + tx + ":A")), td(p(env, nm("CD"))))]
    if what == "sub":
        return [tr(td(p(env, ks[0])), td(p(env, nm("AB")) + sub)), tr(td(p(env, ks[1])), td(p(env, nm("CD")) + sub))]
    if what == "initials":
        return [one, tr(td(p(env, ks[1])), td(p(env, "Some " + tx + "Name: t")))]
    if what == "note":
        return [one, tr(td(p(env, "Notes: 1"), colspan=2)), tr(td(p(env, ks[1])), td(p(env, nm("CD"))))]
    if what == "special":
        return [one, tr(td(p(env, ks[1])), td(p(env, "Reserved"))), tr(td(p(env, ELL)), td(p(env, ELL)))]
    if what == "span":
        return [tr(td(p(env, ks[0])), td(p(env, nm("AB")), rowspan=2)), tr(td(p(env, ks[1]))), tr(td(p(env, ks[2])), td(p(env, nm("C" + tx))))]
    if what == "fail":
        return [one, tr(td(p(env, ks[1])), td("text"))]
    raise AssertionError(what)


ALLROWS = ["name", "dup", "range", "order", "noname", "brief", "list", "sub", "note", "special", "span", "initials", "fail"]
# figures that are not extracted, or have no rows
BARE = {"heading": lambda env, h, t: [hdr(env, h, "Description")], "caption": lambda env, h, t: [], "foreign": lambda env, h, t: [hdr(env, "Foo", "Bar"), tr(td(p(env, "1")), td(p(env, "X" + t + ": t")))],
        "foreign heading": lambda env, h, t: [hdr(env, "Foo" + t)], "swap": lambda env, h, t: [hdr(env, "Description", h), tr(td(p(env, "AB" + t + ": t (AB" + t + "): t")), td(p(env, "3:1"))), tr(td(p(env, "CD: t (CD" + t + "): t")), td(p(env, "0")))],
        "half": lambda env, h, t: [hdr(env, h, "Foo"), tr(td(p(env, "1")), td(p(env, "X" + t + ": t")))], "empty row": lambda env, h, t: [hdr(env, h, "Description"), "<tr></tr>"]}
HEAD = {"values": "Value", "bytes": "Bytes", "bits": "Bits"}
VARIANT = {"values": "Code", "bytes": "Byte", "bits": "Bit"}


def fig(env, i, fid, kinds, whats, chars=lib.LETTERS + lib.DIGITS + " ", n=1):
    kind = env.pick("kind%s" % i, kinds)
    what = env.pick("what%s" % i, whats)
    head = env.pick("head%s" % i, [HEAD, VARIANT])[kind] if len(kinds) > 1 or what == "name" else HEAD[kind]
    tx = env.text("x%s" % i, n, chars)
    if what in BARE:
        return figure(env, "Figure %s: T%s" % (fid, i), BARE[what](env, head, tx))
    return figure(env, "Figure %s: T%s" % (fid, i), [hdr(env, head, "Description")] + rows_of(env, kind, what, tx, i))


SAME = {True: ("7", "7"), False: ("7", "8")}


def h_docs(env, kinds=("bits", "bytes", "values"), whats=ALLROWS, other=ALLROWS, okinds=("bits", "values"), n=1):
    """a document alone and behind another one in the same program"""
    same = env.flag("same")
    a = document(env, fig(env, "a", SAME[same][0], okinds, other, n=n), spec="Some Specification" if same else "Other")
    b = document(env, fig(env, "b", SAME[same][1], kinds, whats, n=n))
    alone = extract(env, b)
    env.fresh()
    first = extract(env, a)
    after = extract(env, b)
    env.out("r", [alone.out(), first.out(), after.out()])
    env.check("P32", after.entities == alone.entities, "the entities of a document do not depend on the document before it")
    env.check("P32", [x.d for x in after.lint] == [x.d for x in alone.lint], "nor does its lint")
    env.check("P32", (after.err is None) == (alone.err is None), "nor whether it fails")


def h_figs(env, kinds=("bits", "values"), whats=ALLROWS, other=ALLROWS, okinds=("bits", "values"), n=1, ids=(("7", "8"), ("7", "7"), ("7", "7_0"))):
    """two figures of a document against each alone"""
    fa, fb = env.pick("ids", list(ids))
    a = fig(env, "a", fa, okinds, other, n=n)
    b = fig(env, "b", fb, kinds, whats, n=n)
    ra = extract(env, document(env, a))
    env.fresh()
    rb = extract(env, document(env, b))
    env.fresh()
    r = extract(env, document(env, a + b))
    env.out("r", [ra.out(), rb.out(), r.out()])
    env.check("P32", r.entities == ra.entities + rb.entities, "the entities of a figure do not depend on the other figures")
    env.check("P32", [x.d for x in r.lint] == [x.d for x in ra.lint] + [x.d for x in rb.lint], "nor does its lint")


def attr_rows(env, kind, what, tx):
    """rows of a table that has a column for names"""
    ks = {"values": ["0h", "1h"], "bytes": ["3:0", "7:4"], "bits": ["15:8", "7:4"]}[kind]
    nm = {"imputed": "Some " + tx + "Name", "blanks": "Some " + tx + ": t", "named": "A" + tx + ": t", "chars": "A." + tx + ": t", "dup": "AB: t" + tx, "res": "Reserved"}[what]
    return [tr(td(p(env, ks[0])), td(p(env, "AB: t")), td(p(env, "text"))), tr(td(p(env, ks[1])), td(p(env, nm)), td(p(env, "more " + tx)))]


ATTR = ["imputed", "blanks", "named", "chars", "dup", "res"]


def h_subs(env, kinds=("bits", "values"), whats=ALLROWS[:-1], n=1, okind="bits", attr=False):
    """a table nested in a row yields what it yields as a figure, under the id of the row"""
    kind = env.pick("kind", kinds)
    what = env.pick("what", whats)
    tx = env.text("x", n, lib.LETTERS + lib.DIGITS + " ")
    rs = [hdr(env, env.pick("head", [HEAD, VARIANT])[kind], "Description")] + rows_of(env, kind, what, tx, "") if not attr else [hdr(env, HEAD[kind], "Attribute", "Description")] + attr_rows(env, kind, what, tx)
    two = env.flag("two")
    outer = figure(env, "Figure 7: T", [hdr(env, HEAD[okind], "Description"),
                                        tr(td(p(env, {"bits": "31:6", "bytes": "10:6", "values": "6"}[okind])), td(p(env, "Name (AB): t" if okind != "values" else "AB: t") + nested(rs) + (p(env, "and") + nested(rs) if two else ""))),
                                        tr(td(p(env, "31:11" if okind == "bytes" else "5:0")), td(p(env, "Name (CD): t" if okind != "values" else "CD: t")))])
    top = extract(env, document(env, figure(env, "Figure 7_6: T", rs)))
    env.fresh()
    r = extract(env, document(env, outer))
    env.out("r", [top.out(), r.out()])
    want = []
    for e in top.entities:
        e = dict(e)
        e.pop("title", None)
        e.setdefault("parent_fig_id", "7")
        want.append(e)
    k = 2 if two else 1
    env.check("P33", r.entities[:-1] == want * k, "the entities of a nested table are those of the table")
    wl = [x.d for x in top.lint] * k
    env.check("P33", [x.d for x in r.lint] == wl, "the lint of a nested table is filed under its own id and rows")
    env.check("P33", len(r.entities) > 0 and r.entities[-1]["fig_id"] == "7" and len(r.entities[-1]["fields"]) == 2, "the enclosing table has its rows")


ONES = ["ok", "sym", "initials", "chars", "range", "reversed", "noname", "wide", "res", "ell", "sub", "slash"]
TABLE = ("T1001", "T1002", "T1004", "L1002", "V1002")  # about several rows


def one_row(env, kind, what, i, n, attr=False):
    """(row, row keys its findings may name)"""
    vt = kind == "values"
    lo, hi = (10 * i, 10 * i + 9) if kind == "bytes" else (90 - 10 * i, 99 - 10 * i)
    cell = "%d:%d" % (hi, lo) if not vt else UP[i] + "h"
    key = str(lo) if not vt else cell.lower()
    mk = (lambda a, d="t": a + ": " + d) if vt or attr else (lambda a, d="t": "Name (" + a + "): " + d)
    a = UP[2 * i:2 * i + 2]
    extra = ""
    name = mk(a)
    if what == "sym":
        name = mk(a[:1] + env.text("x%d" % i, 1, lib.PRINT) + a[1:])
    elif what == "initials":
        name = "Some Name" + a + ": t"
    elif what == "chars":
        name = mk(a + "." + a)
    elif what == "range":
        cell = key = env.text("x%d" % i, 2, lib.LETTERS.lower() if vt else lib.LETTERS)
    elif what == "reversed":
        cell = "%d:%d" % (lo, hi)
        key = str(hi) if not vt else cell
    elif what == "noname":
        name = "?" + a
    elif what == "slash":
        name = mk(env.pick("s%d" % i, ["/", "-", "//", "_ /"]))
    elif what == "wide":
        name = "Reserved for " + a + " (" + a + "): t"
    elif what == "res":
        name = "Reserved"
    elif what == "ell":
        name = ELL
    elif what == "sub":
        extra = nested([hdr(env, "Value", "Description"), tr(td(p(env, "0h")), td(p(env, "?" + a)))])
    if attr:
        return tr(td(p(env, cell)), td(p(env, name)), td(p(env, "some text of " + a) + extra)), [key, cell]
    return tr(td(p(env, cell)), td(p(env, name) + extra)), [key, cell]


def h_rows(env, kind="bits", n=2, ones=ONES, attr=False):
    """the findings of a table's rows are those of each row alone, filed under the figure and the row"""
    fid = env.pick("fid", ["7", "12A", "4_1"])
    h = hdr(env, HEAD[kind], "Attribute", "Description") if attr else hdr(env, HEAD[kind], "Description")
    rows = []
    fields, lint, ents = [], [], []
    for i in range(n):
        what = env.pick("w%d" % i, ones)
        row, keys = one_row(env, kind, what, i, n, attr)
        rows.append(row)
        r = extract(env, document(env, figure(env, "Figure %s: T" % fid, [h, row])))
        env.check("P33", r.err is None and len(r.entities) > 0, "a row alone is extracted")
        if r.err is not None or not r.entities:
            return
        for x in r.lint:
            if x.fig == fid:
                env.check("P33", any([x.row == k for k in keys]), "a finding names the row it is about")
            else:
                env.check("P33", what == "sub" and x.fig == fid + "_" + keys[0] and x.row == "0h", "a finding in a nested table names its row")
        ds = [x.d for x in r.lint]
        env.check("P33", all([not any([a == b for b in ds[:j]]) for j, a in enumerate(ds)]), "no finding is filed twice")
        fields.append(r.entities[-1]["fields"])
        ents += r.entities[:-1]
        lint += [x.d for x in r.lint if x.code not in TABLE or x.fig != fid]
        env.fresh()
    r = extract(env, document(env, figure(env, "Figure %s: T" % fid, [h] + rows)))
    env.out("r", [r.out(), fields, lint])
    env.check("P33", r.err is None and len(r.entities) > 0, "the table is extracted")
    if r.err is not None or not r.entities:
        return
    want = []
    for f in (reversed(fields) if kind == "bits" else fields):
        want += f
    env.check("P33", r.entities == ents + [dict(r.entities[-1], fields=want)], "the fields are those of the rows")
    env.check("P33", [x.d for x in r.lint if x.code not in TABLE or x.fig != fid] == lint, "the findings are those of the rows")
    env.check("P33", all([x.fig == fid for x in r.lint if x.code in TABLE]), "findings about several rows name the figure")


# ---------------------------------------------------------------- Word documents
DEFS = {1: [level(0), level(1, "bullet", "o")], 2: [level(0, "bullet", "o"), level(1)]}


def content(env, i, kinds, tx, grey):
    """the content of a Word cell"""
    k = env.pick("k%s" % i, kinds)
    if k == "par":
        return [ptext("p" + tx)]
    if k == "bold":
        return [par(run("b" + tx, rpr="<w:b/>"))]
    if k == "style":
        return [par(run("s" + tx, rpr='<w:rStyle w:val="S0"/>'))]
    if k == "colour":
        return [par(run("c" + tx, rpr='<w:color w:val="FF0000"/>'), run("d", rpr='<w:color w:val="0000FF"/>'))]
    if k == "item":
        return [par(run("i" + tx), num=(1, 0)), par(run("j"), num=(1, 1))]
    if k == "deep":
        return [par(run("i" + tx), num=(1, 1))]
    if k == "bullet":
        return [par(run("u" + tx), num=(2, 0))]
    if k == "listpar":
        return [par(run("i" + tx), num=(1, 0)), ptext("q"), par(run("k"), num=(1, 0))]
    if k == "nest":
        return [table(row(tc(ptext("n" + tx), fill="CCCCCC"), tc(par(run("m"), num=(1, 0)), merge="restart")), row(tc(ptext("o")), tc(par(), merge="")))]
    if k == "empty":
        return [par()]
    if k == "undef":  # defined in other documents only
        return [{"num": par(run("i" + tx), num=(3, 0)), "level": par(run("j" + tx), num=(1, 2)), "style": par(run("k" + tx, rpr='<w:rStyle w:val="S9"/>'))}[env.pick("u%s" % i, ["num", "level", "style"])]]
    raise AssertionError(k)


ALLCELLS = ["par", "bold", "style", "colour", "item", "deep", "bullet", "listpar", "nest", "empty"]
DEFS3 = {1: DEFS[1] + [level(2)], 2: DEFS[2], 3: [level(0)]}
STYLES = style("S0", "<w:b/><w:i/>") + style("S1", '<w:u w:val="single"/>', "S0")
STYLES2 = style("S0", '<w:u w:val="single"/>') + style("S1", "<w:b/>")
STYLES3 = STYLES + style("S9", "<w:i/>", "S1")


def tables_of(env, doc, rules):
    """the tables with the meaning of their classes in place of the names"""
    def go(e):
        k = e.get("class")
        at = dict([(a, b) for a, b in e.attrib.items() if a != "class"])
        if k is not None:
            at["css"] = rules.get("." + k, "undefined")
        return [e.tag, at, (e.text or "").strip() if e.tag != "span" else e.text or "", [go(x) for x in e], (e.tail or "").strip()]
    return [go(x) for x in docx.tables(doc)]


def words(env, body, styles=STYLES, num=None, name="doc", at="w"):
    ok, doc, out = docx.stage1(env, body, name=name, at=at, styles=styles, num=num or numbering(DEFS, {1: 1, 2: 2}))
    if not ok:
        return None
    return tables_of(env, doc, docx.css(out / (name + ".css")))


def h_words(env, kinds=ALLCELLS, okinds=ALLCELLS, n=1, fills=(None, "CCCCCC", "FF0000")):
    """a Word document alone and behind another one in the same program"""
    other = table(row(tc(*content(env, "a", okinds, "x", False), fill=env.pick("fa", list(fills))), tc(ptext("y"), merge="restart")), row(tc(ptext("z")), tc(par(), merge="")))
    tx = env.text("t", n, lib.LETTERS)
    b = table(row(tc(*content(env, "b", kinds, tx, False), fill=env.pick("fb", [None, "CCCCCC", "00FF00"])), tc(ptext("w"))))
    alone = words(env, b)
    env.fresh()
    first = words(env, other, styles=env.pick("st", [STYLES, STYLES2] if "undef" not in kinds else [STYLES, STYLES3]), num=env.pick("nu", [numbering(DEFS, {1: 1, 2: 2}), numbering(DEFS, {1: 2, 2: 1})] if "undef" not in kinds else [numbering(DEFS, {1: 1, 2: 2}), numbering(DEFS3, {1: 1, 2: 2, 3: 3})]), name=env.pick("nm", ["other", "doc"]), at="v")
    after = words(env, b)
    env.out("r", [alone, first, after])
    if "undef" not in kinds:
        env.check("P32", alone is not None and first is not None, "stage 1 succeeds")
    env.check("P32", after == alone, "the tables of a document do not depend on the document before it")


def h_tables(env, kinds=ALLCELLS, okinds=ALLCELLS, n=1, fills=(None, "CCCCCC", "FF0000"), ends=("none", "restart", "span")):
    """tables of one Word document against each alone"""
    tx = env.text("t", n, lib.LETTERS)

    def mk(i, ks, x, fills):
        c = content(env, i, ks, x, False)
        f = env.pick("f" + i, fills)
        e = env.pick("e" + i, list(ends if i == "a" else ("none", "restart", "span")))
        if e == "restart":
            return table(row(tc(ptext("v"), merge="restart"), tc(*c, fill=f)), row(tc(par(), merge=""), tc(ptext("w"), merge="restart")))
        if e == "span":
            return table(row(tc(*c, span=2, fill=f)), row(tc(ptext("v")), tc(ptext("w"))))
        return table(row(tc(*c, fill=f), tc(ptext("w"))))
    a = mk("a", okinds, "x", list(fills))
    b = mk("b", kinds, tx, [None, "CCCCCC", "00FF00"])
    ra = words(env, a)
    env.fresh()
    rb = words(env, b)
    env.fresh()
    r = words(env, a + par(run("between")) + b)
    env.out("r", [ra, rb, r])
    env.check("P32", ra is not None and rb is not None and r is not None, "stage 1 succeeds")
    if ra is None or rb is None or r is None:
        return
    env.check("P32", r == ra + rb, "a table does not depend on the others")


def h_cells(env, kinds=ALLCELLS, okinds=ALLCELLS, n=1):
    """cells of one row against each alone"""
    tx = env.text("t", n, lib.LETTERS)
    a = tc(*content(env, "a", okinds, "x", False), fill=env.pick("fa", [None, "CCCCCC", "FF0000"]))
    b = tc(*content(env, "b", kinds, tx, False), fill=env.pick("fb", [None, "CCCCCC", "00FF00"]))
    ra = words(env, table(row(a)))
    env.fresh()
    rb = words(env, table(row(b)))
    env.fresh()
    o = env.pick("o", ["row", "column"])
    r = words(env, table(row(a, b)) if o == "row" else table(row(a), row(b)))
    env.out("r", [ra, rb, r])
    env.check("P32", ra is not None and rb is not None and r is not None, "stage 1 succeeds")
    if ra is None or rb is None or r is None:
        return

    def cells(ts):
        return [c for t in ts for x in t[3] for c in x[3]]
    env.check("P32", cells(r) == cells(ra) + cells(rb), "a cell does not depend on the others")


def h_named(env, n=1, kinds=("name", "dup", "list", "sub")):
    """two files of one name in different folders, through both stages, against the second alone"""
    from . import files
    res = []
    tx = env.text("t", n, lib.LETTERS)
    what = env.pick("what", list(kinds))
    suffix = env.pick("suffix", [".html", ".docx"])

    def put(at, w, x):
        d = docx.fresh(env, at)
        f = d / ("doc" + suffix)
        if suffix == ".html":
            f.write_text(document(env, figure(env, "Figure 7: T", [hdr(env, "Bits", "Description")] + rows_of(env, "bits", w, x, ""))))
        else:
            docx.write(f, table(row(tc(ptext("Figure 7: T"), span=2)), row(tc(ptext("Bits"), fill="CCCCCC"), tc(ptext("Description"), fill="CCCCCC")), row(tc(ptext("3:0")), tc(ptext("Name " + x + " (A" + x + "): t")))),
                       styles=STYLES, num=numbering(DEFS, {1: 1, 2: 2}))
        return f

    def go(f):
        ok, o = env.attempt(files.run_spec, f, f.parent / "out")
        return (files.load(o), (f.parent / "out" / "doc.html").read_text() if suffix == ".docx" else "") if ok else None
    alone = go(put("a", what, tx))
    env.fresh()
    first = go(put("b", "range", "q"))
    after = go(put("c", what, tx))
    env.out("r", [alone, first, after])
    env.check("P32", alone is not None and first is not None, "both stages succeed")
    env.check("P32", after == alone, "a file comes out the same behind another one of its name")


# ---------------------------------------------------------------- the command
def h_command(env, n=1, kinds=("name", "dup", "sub", "fail")):
    """the command with two inputs against one command for each"""
    from . import files
    d = docx.fresh(env)
    tx = env.text("t", n, lib.LETTERS)
    hs = []
    for i, x in (("a", "q"), ("b", tx)):
        k = env.pick("i" + i, ["html", "docx"] if i == "a" else ["html"])
        f = d / ("%s.%s" % (i, k))
        if k == "html":
            what = env.pick("w" + i, list(kinds))
            f.write_text(document(env, figure(env, "Figure 7: T", [hdr(env, "Bits", "Description")] + rows_of(env, "bits", what, x, i)), spec="Spec " + i))
        else:
            docx.write(f, table(row(tc(ptext("Figure 7: T"), span=2)), row(tc(ptext("Bits"), fill="CCCCCC"), tc(ptext("Description"), fill="CCCCCC")), row(tc(ptext("3:0")), tc(par(run("Name (AB): t"), num=(1, 0))))),
                       styles=STYLES, num=numbering(DEFS, {1: 1, 2: 2}))
        hs.append(f)
    opts = ["-s"] if env.flag("skip") else []
    res = []
    for o, ins in (("one", [hs[0]]), ("two", [hs[1]]), ("both", hs)):
        env.fresh()
        (d / o).mkdir()
        st = files.cli(env, opts + ["-o", str(d / o)] + [str(x) for x in ins])
        res.append((st, dict([(x.name, x.read_text()) for x in sorted((d / o).iterdir()) if x.suffix != ".css"])))
    env.out("r", [x[0] for x in res])
    if res[0][0] == 0:
        env.check("P32", res[2] == (res[1][0], {**res[0][1], **res[1][1]}), "each input gives what it gives alone")
    else:
        env.check("P32", res[2][0] != 0 and all([res[2][1].get(k) == v for k, v in res[0][1].items()]), "the input that fails gives what it gives alone")
