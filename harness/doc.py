"""P09 spans, P11 nested tables, P12/P13 figure accounting, P14 headings"""
from . import lib
from .lib import ELL, document, extract, figure, hdr, nested, p, td, tr

ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


# ---------------------------------------------------------------- P09
def h_grid(env, kind="Bits", cols=("Bits", "Attribute", "Description"), rows=2, th=None, maxr=3, hspan=False, sym=False):
    """a solver-chosen tiling of rows x len(cols) by cells; row `th` is covered by header cells only where it starts cells"""
    n = len(cols)
    own = [[None] * n for _ in range(rows)]
    trs = []
    cells = {}
    for r in range(rows):
        row = []
        is_th = th == r
        c = 0
        while c < n:
            if own[r][c] is not None:
                c += 1
                continue
            w = 1
            while c + w < n and own[r][c + w] is None:
                w += 1
            cs = env.pick("c%d_%d" % (r, c), list(range(1, w + 1))) if w > 1 else 1
            mr = min(maxr, rows - r) if not is_th else 1
            rs = env.pick("r%d_%d" % (r, c), list(range(1, mr + 1))) if mr > 1 else 1
            name = ALNUM[r] + ALNUM[c]
            t = ("L%s: B%s" % (name, name)) if not sym else "L" + name + env.text("s%d_%d" % (r, c), 1, lib.LETTERS) + ": B" + name
            cells[(r, c)] = t
            row.append(td(p(env, t), colspan=cs, rowspan=rs, tag="th" if is_th else "td"))
            for i in range(rs):
                for j in range(cs):
                    own[r + i][c + j] = (r, c)
            c += cs
        if is_th:
            # a header row shows as one only if it has a cell of its own
            env.assume(len(row) > 0)
        trs.append(tr(*row))
    if hspan:
        # heading row whose first heading covers the first two columns
        hs = tr(td(p(env, cols[0]), colspan=2, tag="th"), *[td(p(env, x), tag="th") for x in cols[2:]])
    else:
        hs = hdr(env, *cols)
    names = [x.lower() for x in cols]
    cr = names.index({"Bits": "bits", "Bytes": "bytes", "Value": "value"}[kind])
    cd = names.index("description")
    cl = names.index("attribute") if "attribute" in names else cd
    want = []
    for r in range(rows):
        if th == r:
            continue
        a, l, d = own[r][cr], own[r][cl], own[r][cd]
        # the range/value cell covers none of the other two columns, and a row is not just one cell
        env.assume(a != l and a != d)
        lt, dt = cells[l], cells[d]
        lbl = lt.split(":")[0]
        if cl == cd and kind != "Value":
            lbl = lbl[0]
        want.append((cells[a], lbl, dt.split(": ")[1]))
    r = extract(env, document(env, figure(env, "Figure 12: T", [hs] + trs, ncols=n)))
    env.out("r", r.out())
    ok = r.err is None and len(r.entities) == 1
    env.check("P09", ok, "the table is extracted")
    if not ok:
        return
    fs = r.entities[0]["fields"]
    if kind == "Bits":
        want.reverse()
    env.check("P09", len(fs) == len(want), "one field per grid row")
    if len(fs) != len(want):
        return
    for f, (a, l, d) in zip(fs, want):
        if kind == "Value":
            env.check("P09", env.And(f["val"] == a.lower(), f["label"] == l.upper(), f.get("brief") == d), "entry is read from its own cells")
        else:
            env.check("P09", env.And(isinstance(f["range"], str) and f["range"] == a, f["label"] == l.lower(), f.get("brief") == d), "field is read from its own cells")


# ---------------------------------------------------------------- P11
def inner(env, kind, key, lbl, extra=""):
    """a nested table with one row"""
    if kind == "values":
        return nested([hdr(env, "Value", "Description"), tr(td(p(env, key)), td(p(env, lbl + ": t") + extra))])
    return nested([hdr(env, "Bits" if kind == "bits" else "Bytes", "Description"), tr(td(p(env, key)), td(p(env, "Name (" + lbl + "): t") + extra))])


def key_of(kind, cell):
    if kind == "values":
        return cell.strip().lower()
    if ":" in cell:
        a, b = cell.split(":")
        if a.isdecimal() and b.isdecimal():
            return str(int(b))
        return cell
    return str(int(cell)) if cell.isdecimal() else cell


def h_nest(env, depth=2, shape="free", n=1, kinds=("values", "bits", "bytes")):
    """a chain of nested tables with symbolic row keys"""
    kinds = [env.pick("k%d" % i, list(kinds)) for i in range(depth)]
    keys = []
    for i, k in enumerate(kinds):
        if k == "values":
            t = env.text("v%d" % i, n)
            env.assume(env.And(t.strip() != "", t.strip() != ELL))
            keys.append(t)
        else:
            form = env.pick("f%d" % i, ["pair", "one", "text"])
            if form == "pair":
                keys.append(env.text("h%d" % i, n, lib.DIGITS) + ":" + env.text("l%d" % i, n, lib.DIGITS))
            elif form == "one":
                keys.append(env.text("o%d" % i, n, lib.DIGITS))
            else:
                keys.append("n+%d:n" % i)
    body = ""
    for i in range(depth - 1, 0, -1):
        body = inner(env, kinds[i], keys[i], "AB" + ALNUM[i], body)
    top = kinds[0]
    h = {"values": "Value", "bits": "Bits", "bytes": "Bytes"}[top]
    d = p(env, "ABA: t" if top == "values" else "Name (ABA): t") + body
    r = extract(env, document(env, figure(env, "Figure 12: T", [hdr(env, h, "Description"), tr(td(p(env, keys[0])), td(d))])))
    env.out("r", r.out())
    ok = r.err is None and len(r.entities) == depth
    env.check("P11", ok, "every nested table yields an entity")
    if not ok:
        return
    ids = ["12"]
    for i in range(depth - 1):
        ids.append(ids[-1] + "_" + key_of(kinds[i], keys[i]))
    for i, e in enumerate(reversed(r.entities)):
        env.check("P11", e["fig_id"] == ids[i], "figure id")
        env.check("P11", e["type"] == kinds[i] and len(e["fields"]) == 1, "type and fields")
        if i:
            env.check("P11", e.get("parent_fig_id") == ids[i - 1], "parent figure id")
            env.check("P11", "title" not in e, "nested entities have no title")
        else:
            env.check("P11", "parent_fig_id" not in e and e.get("title") == "Figure 12: T", "top entity")
        env.check("P11", e["fields"][0]["label"].lower() == "ab" + "abcdefgh"[i], "the entity's own row")


def h_place(env, n=2, places=None):
    """nested tables in several rows and columns"""
    kind = env.pick("kind", ["bits", "bytes", "values"])
    attr = env.flag("attr")
    rows = []
    want = []
    for i in range(n):
        where = env.pick("w%d" % i, places or ["none", "desc", "two", "range", "attr", "unknown", "reserved", "deep", "deeptwo"])
        if where == "attr" and not attr:
            env.assume(False)
        lo = 10 + i if kind != "bits" else 90 - i
        a, b = ALNUM[2 * i], ALNUM[2 * i + 1]
        t1 = inner(env, "values", "1", "NA" + a)
        t2 = inner(env, "bits", "3:2", "NB" + b)
        dn = "NM" + a + ": t" if kind == "values" else "Name (NM" + a + "): t"
        fid = "12_%d" % lo
        rc, ac, dc = p(env, "%d" % lo), p(env, "NM" + a + ": t"), p(env, dn)
        if where == "desc":
            dc += t1
            want.append((fid, "12", "values", "na" + a.lower()))
        elif where == "two":
            dc += t1 + p(env, "between") + t2
            want.append((fid, "12", "values", "na" + a.lower()))
            want.append((fid, "12", "bits", "nb" + b.lower()))
        elif where == "range":
            # (text of the nested table would become part of the range text: use an empty one)
            rc += nested([hdr(env, "", "")])
        elif where == "attr":
            ac += t1
        elif where == "unknown":
            dc += nested([hdr(env, "Foo", "Bar", "Baz"), tr(td(p(env, "1")), td(p(env, "2")), td(p(env, "3")))])
        elif where == "deep":
            dc += inner(env, "bits", "3:2", "NB" + b, inner(env, "values", "1", "NC" + a))
            want.append((fid + "_2", fid, "values", "nc" + a.lower()))
            want.append((fid, "12", "bits", "nb" + b.lower()))
        elif where == "deeptwo":
            dc += inner(env, "bits", "3:2", "NB" + b, inner(env, "values", "1", "NC" + a) + p(env, "t") + inner(env, "bytes", "5:4", "ND" + a)) + inner(env, "bytes", "9:6", "NE" + a)
            want.append((fid + "_2", fid, "values", "nc" + a.lower()))
            want.append((fid + "_2", fid, "bytes", "nd" + a.lower()))
            want.append((fid, "12", "bits", "nb" + b.lower()))
            want.append((fid, "12", "bytes", "ne" + a.lower()))
        elif where == "reserved":
            dc = p(env, "Reserved")
            ac = p(env, "Reserved")
        rows.append(tr(td(rc), *([td(ac)] if attr else []), td(dc)))
    h = {"values": "Value", "bits": "Bits", "bytes": "Bytes"}[kind]
    names = [h, "Attribute", "Description"] if attr else [h, "Description"]
    r = extract(env, document(env, figure(env, "Figure 12: T", [hdr(env, *names)] + rows, ncols=len(names))))
    env.out("r", r.out())
    env.check("P11", r.err is None, "the table is extracted")
    if r.err is not None:
        return
    got = [(e["fig_id"], e.get("parent_fig_id"), e["type"], e["fields"][0]["label"].lower()) for e in r.entities[:-1]]
    env.check("P11", got == want, "nested entities, in order, before their parent")
    env.check("P11", len(r.entities) > 0 and r.entities[-1]["fig_id"] == "12" and len(r.entities[-1]["fields"]) == n, "the parent comes last with its own rows only")


# ---------------------------------------------------------------- P12 / P13
FIGS = ["bits", "bytes", "values", "unknown", "nonum", "nofig", "fail", "failv", "failnested", "faildeep", "failsecond", "failhead", "nestunknown", "wrapped", "wrapmore", "norows"]


def make(env, k, i, special=None, same=False, caps=False):
    """(html, kind of outcome, entities, failing id)"""
    fid = "%d" % (20 if same else 20 + i)
    if k.startswith("q"):
        fid = special  # the figure the document treats specially
        k = {"qunknown": "unknown", "qbits": "bits", "qbytes": "bytes", "qvalues": "values", "qfail": "fail"}[k]
    cap = "Figure %s: Title %d" % (fid, 0 if same else i)
    if caps:
        cap = env.pick("cap%d" % i, ["Figure %s", "Figure %s: A: B", "Figure %s \u2013 C", "Figure %s:D", "Figure  %s: E Figure 9"]) % fid
    a = ALNUM[0 if same == "all" else i]
    good = tr(td(p(env, "7:4")), td(p(env, "Name (AB" + a + "): t")))
    if k in ("bits", "bytes", "wrapped", "wrapmore"):
        h = "Bytes" if k == "bytes" else "Bits"
        f = figure(env, cap, [hdr(env, h, "Description"), good])
        if k == "wrapped":
            f = "<table>" + tr(td(f)) + "</table>"
        if k == "wrapmore":
            # with text or tables behind it
            x = figure(env, "Figure 97: Other", [hdr(env, "Bits", "Description"), good])
            f = "<table>" + env.pick("more%d" % i, [tr(td(f + p(env, "z"))), tr(td(f + p(env, "z"))) + tr(td(p(env, "y"))), tr(td(f + x)), tr(td(f), td(x)), tr(td(f)) + tr(td(p(env, "y")), td(x))]) + "</table>"
        return f, "ok", [(fid, cap, h.lower(), "ab" + a.lower())]
    if k == "capmore":
        # something follows the caption in its cell
        f = figure(env, cap, [hdr(env, "Bits", "Description"), good])
        more = env.pick("cm%d" % i, [nested([tr(td(p(env, "7:0")))]), p(env, "z"), "<table></table>", nested([tr(td(nested([tr(td(p(env, "7:0")))])))])])
        return f.replace("</td></tr>", more + "</td></tr>", 1), "ok", [(fid, cap, "bits", "ab" + a.lower())]
    if k == "values":
        return figure(env, cap, [hdr(env, "Value", "Description"), tr(td(p(env, "7h")), td(p(env, "AB" + a + ": t")))]), "ok", [(fid, cap, "values", "ab" + a.lower())]
    if k == "unknown":
        return figure(env, cap, [hdr(env, "Foo", "Bar", "Baz"), tr(td(p(env, "1")), td(p(env, "2")), td(p(env, "3")))]), "T1007", fid
    if k == "nonum":
        return figure(env, "Figure: Title", [hdr(env, "Bits", "Description"), good]), "T1008", None
    if k == "nofig":
        return figure(env, "Some table", [hdr(env, "Bits", "Description"), good]), "none", None
    if k == "fail":
        # a description cell without a paragraph cannot be named
        return figure(env, cap, [hdr(env, "Bits", "Description"), good, tr(td(p(env, "3:0")), td("text"))]), "T1000", fid
    if k == "failv":
        return figure(env, cap, [hdr(env, "Value", "Description"), tr(td(p(env, "3h")), td("text"))]), "T1000", fid
    if k == "failnested":
        bad = nested([hdr(env, "Value", "Description"), tr(td(p(env, "3h")), td("text"))])
        return figure(env, cap, [hdr(env, "Bits", "Description"), tr(td(p(env, "7:4")), td(p(env, "Name (AB): t") + bad))]), "T1000", fid
    if k == "faildeep":
        # two levels down, in a table whose own rows are fine
        bad = nested([hdr(env, "Value", "Description"), tr(td(p(env, "3h")), td("text"))])
        mid = nested([hdr(env, "Bytes", "Description"), tr(td(p(env, "5")), td(p(env, "Middle (MM): t") + bad))])
        return figure(env, cap, [hdr(env, "Bits", "Description"), tr(td(p(env, "7:4")), td(p(env, "Name (AB): t") + mid))]), "T1000", fid
    if k == "failsecond":
        # a nested table that fails behind one that does not
        fine = nested([hdr(env, "Value", "Description"), tr(td(p(env, "3h")), td(p(env, "Fine: t")))])
        bad = nested([hdr(env, "Value", "Description"), tr(td(p(env, "3h")), td("text"))])
        return figure(env, cap, [hdr(env, "Bits", "Description"), tr(td(p(env, "7:4")), td(p(env, "Name (AB): t") + fine)),
                                 tr(td(p(env, "3:0")), td(p(env, "Other (CD): t") + bad))]), "T1000", fid
    if k == "failhead":
        # a heading that spans an impossible number of columns
        return figure(env, cap, [tr("<th colspan='x'>" + p(env, "Bits") + "</th>", td(p(env, "Description"), tag="th")), good]), "T1000", fid
    if k == "nestunknown":
        un = nested([hdr(env, "Foo", "Bar", "Baz"), tr(td(p(env, "1")), td(p(env, "2")), td(p(env, "3")))])
        return figure(env, cap, [hdr(env, "Bits", "Description"), tr(td(p(env, "7:4")), td(p(env, "Name (AB" + a + "): t") + un))]), "ok", [(fid, cap, "bits", "ab" + a.lower())]
    if k == "norows":
        return env.pick("e%d" % i, ["<table></table>", "<table><tr></tr></table>", "<table><tr><td><table></table></td></tr></table>"]), "none", None
    return "", "none", None


SPECIAL = [("NVM Express\u00ae NVM Command Set Specification", "1.0c", "23", "Bits"), ("NVM Express\u00ae Management Interface Specification", "1.2c", "64", "Bits"),
           ("NVM Express\u00ae Key Value Command Set Specification", "1.0", "41", "Bytes")]


def h_account(env, n=3, skip=True, figs=None, special=False, same=False, caps=False):
    body = ""
    outs = []
    spec, rev, sid, col = env.pick("spec", SPECIAL) if special else ("Some Specification", "1.0", None, None)
    seen = False
    for i in range(n):
        k = env.pick("fig%d" % i, figs or FIGS)
        html, what, info = make(env, k, i, sid, same, caps)
        if k.startswith("q"):
            env.assume(not seen)
            seen = True
            if k != "qfail" and k != "q" + col.lower():
                what, info = "T1000", sid  # it is only known with its own columns
        body += html
        outs.append((what, info))
    r = extract(env, document(env, body, spec=spec, rev=rev), skip=skip)
    env.out("r", r.out())
    prop = "P12" if skip else "P13"
    want = []
    failed = False
    for what, info in outs:
        if what == "ok":
            want += info
        elif what == "T1000" and not skip:
            failed = True
            break
    got = [(e["fig_id"], e.get("title"), e["type"], e["fields"][0]["label"]) for e in r.entities if "parent_fig_id" not in e]
    got = [(a, b, c, d.lower()) for a, b, c, d in got]
    if "capmore" in (figs or []):
        # what follows the caption in its cell may count as title
        got = [(a, w[1] if b.startswith(w[1]) else b, c, d) for (a, b, c, d), w in zip(got, want)] + got[len(want):]
    env.check(prop, got == want, "exactly the figures that can be extracted, in document order")
    env.check(prop, (r.err is not None) == failed, "the run fails exactly when it has to")
    if failed:
        stop = [x[0] for x in outs].index("T1000")
        outs = outs[:stop + 1]
    for code in ("T1007", "T1000"):
        ids = [x.fig for x in r.codes(code)]
        w = [info for what, info in outs if what == code]
        ids = [x for x in ids if not (code == "T1007" and "_" in x)]
        env.check(prop, [x.split("_")[0] for x in ids] == w, code + " names exactly the figures concerned")
    env.check(prop, len(r.codes("T1008")) == len([1 for what, _ in outs if what == "T1008"]), "T1008 for captions without number")
    env.check(prop, len(set(x.fig for x in r.codes("T1008"))) == len(r.codes("T1008")), "each under an id of its own")


def h_caption(env, pre=0, post=3, sep=1, skip=True, lead=""):
    """symbolic caption around the word Figure"""
    t = lead + env.text("pre", pre) + "Figure" + env.text("sep", sep) + env.text("post", post)
    env.assume(env.Not("^" in t))
    cap = t.strip()
    good = tr(td(p(env, "7:4")), td(p(env, "Name (ABC): t")))
    other = figure(env, "Figure 98: Other", [hdr(env, "Bits", "Description"), good])
    r = extract(env, document(env, figure(env, t, [hdr(env, "Bits", "Description"), good]) + other), skip=skip)
    env.out("r", r.out())
    env.check("P12", r.err is None, "no failure")
    if r.err is not None:
        return
    fid = ""
    if cap.startswith("Figure"):
        rest = cap[6:]
        i = 0
        while i < len(rest) and rest[i].isspace():
            i += 1
        if i > 0:
            j = i
            while j < len(rest) and not rest[j].isspace() and rest[j] != ":":
                j += 1
            fid = rest[i:j]
    es = r.entities
    if fid != "":
        env.check("P12", len(es) == 2 and es[0]["fig_id"] == fid and es[0]["title"] == cap, "figure under its own id and title")
        env.check("P12", len(r.codes("T1008")) == 0, "no T1008 with a number")
    else:
        env.check("P12", len(es) == 1, "a caption without number yields no entity")
        t8 = r.codes("T1008")
        env.check("P12", len(t8) == 1 and t8[0].ctx.get("title") == cap, "T1008 for a caption without number")
    env.check("P12", len(es) > 0 and es[-1]["fig_id"] == "98", "the other figure is extracted")


# ---------------------------------------------------------------- P14
def spell(env, name, word):
    """the word with symbolic letter case and symbolic white space around and between"""
    out = ""
    for i, c in enumerate(word):
        if c == " ":
            out = out + env.pick(name + "s%d" % i, [" ", "  ", "\n", " \n "])
        elif c.lower() != c.upper():
            out = out + env.text(name + "%d" % i, 1, c.lower() + c.upper())
        else:
            out = out + c
    w = env.pick(name + "w", ["", " ", "\n"])
    return w + out + w


MAPPED = {"byte": "bytes", "bit": "bits", "code": "value"}


def h_heads(env, extra=0, main=None):
    """recognised columns in any order, case and spacing"""
    m = env.pick("main", main or ["bytes", "byte", "bits", "bit", "value", "code", "values"])
    base = MAPPED.get(m, m)
    vt = base in ("value", "values")
    d = env.pick("desc", ["description", "definition", "power scope"] if vt else ["description"])
    cols = [m, d]
    if env.flag("attr"):
        cols.append("attribute")
    for i in range(extra):
        cols.append(["reference to", "x 1"][i])
    # order
    perm = []
    rest = list(cols)
    i = 0
    while rest:
        k = env.pick("o%d" % i, list(range(len(rest)))) if len(rest) > 1 else 0
        perm.append(rest.pop(k))
        i += 1
    heads = tr(*[td(p(env, spell(env, "h%d" % j, c) if c in (m, "reference to", "power scope") else c.title()), tag=env.pick("tag", ["th", "td"]) if j == 0 else "th") for j, c in enumerate(perm)])
    cells = {m: "7", d: "NME: text" if vt else "Name (NME): text", "attribute": "ATT: x"}
    row = tr(*[td(p(env, cells.get(c, "other"))) for c in perm])
    r = extract(env, document(env, figure(env, "Figure 12: T", [heads, row], ncols=len(perm))))
    env.out("r", r.out())
    env.check("P14", r.err is None and len(r.entities) == 1, "a table with known columns is extracted")
    t6 = r.codes("T1006")
    if m in MAPPED:
        env.check("P14", len(t6) == 1 and t6[0].ctx == {"got": m, "expected": base} and t6[0].fig == "12", "T1006 for an accepted variant, once")
    else:
        env.check("P14", len(t6) == 0, "no T1006 for a standard heading")
    env.check("P14", len(r.codes("T1007")) == 0, "not skipped")
    if r.err is not None or len(r.entities) != 1:
        return
    e = r.entities[0]
    env.check("P14", e["type"] == ("values" if vt else base), "extracted as its type")
    env.check("P14", len(e["fields"]) == 1, "one row")
    if len(e["fields"]) == 1:
        f = e["fields"][0]
        env.check("P14", (f["val"] if vt else f["range"]) == ("7" if vt else {"low": 7, "high": 7}), "range or value column")
        env.check("P14", f["label"].lower() == ("att" if "attribute" in cols else "nme"), "label column")
        env.check("P14", f.get("brief") == "text", "description column")


def h_reports(env, n=1, figs=2):
    """T1006 in several figures, in nested tables and for several headings of one table: each one filed, under its own id"""
    heads = ["Bit", "byte", "Code", "Bits", "Value"]
    want, body = [], ""

    def table(name, fig, content, last):
        h = env.pick(name, heads)
        extra = env.pick(name + "x", ["", "Byte", "Code", "Bit"]) if last else ""
        for w in (h.lower(), extra.lower()):
            if w in MAPPED:
                want.append((fig, w))
        cells = [td(p(env, "7")), content] + ([td(p(env, "8"))] if extra else [])
        return [hdr(env, *([h, "Description"] + ([extra] if extra else []))), tr(*cells)], (3 if extra else 2)
    for i in range(figs):
        fig = str(10 + i)
        inside = ""
        if i == 0 and env.flag("nest"):
            rows, _ = table("in", fig + "_7", td(p(env, "Inner (INN): text")), False)
            inside = lib.nested(rows)
        rows, k = table("f%d" % i, fig, td(p(env, "Name (NM): text" + env.text("t%d" % i, n, lib.LETTERS)) + inside), i == figs - 1 and not inside)
        body += figure(env, "Figure %s: T" % fig, rows, ncols=k)
    r = extract(env, document(env, body))
    env.out("r", r.out())
    env.check("P14", r.err is None, "the document is processed")
    got = [(x.fig, x.ctx) for x in r.codes("T1006")]
    env.check("P14", sorted((f, c.get("got"), c.get("expected")) for f, c in got) == sorted((f, w, MAPPED[w]) for f, w in want), "T1006 for each accepted variant, once, wherever it is")


def norm(t):
    out = ""
    for c in t.lower():
        if c == "\r":
            continue
        if c == "\n" or c == " ":
            if out.endswith(" "):
                continue
            c = " "
        out = out + c
    return out.strip()


def h_unknown(env, n=3, cols=3, chars=None, near=False):
    """a symbolic heading among others: reported in T1007 as normalised"""
    t = env.text("t", n, chars)
    if near:
        w = env.pick("w", ["bit", "Byte", "code", "bits", "bytes", "value", "Values"])
        t = t + w if env.flag("front") else w + t
    base = [["Foo", "Bar"], ["Bits", "Foo"], ["Bytes", "Value"], ["Attribute", "Description"], ["Description", "Foo"], ["Values", "Foo"]]
    b = env.pick("b", base)
    names = [t] if cols == 1 else [b[0], t, b[1], "Foo", "", "Bar"][:cols]
    nt = norm(t)
    known = ["bits", "bit", "bytes", "byte", "value", "values", "code", "description", "definition", "power scope", "attribute"]
    for k in known:
        env.assume(nt != k)
    rows = [tr(*[td(p(env, "1")) for _ in names])]
    r = extract(env, document(env, figure(env, "Figure 12: T", [hdr(env, *names)] + rows, ncols=len(names))))
    env.out("r", r.out())
    env.check("P14", r.err is None and len(r.entities) == 0, "no entity without a known combination")
    t7 = r.codes("T1007")
    env.check("P14", len(t7) == 1 and t7[0].fig == "12", "T1007 for the figure")
    env.check("P14", len(r.codes("T1006")) == 0, "no T1006 for other headings")
    if len(t7) == 1:
        got = t7[0].ctx.get("columns")
        env.check("P14", isinstance(got, list) and len(got) == len(names), "headings listed")
        if isinstance(got, list) and len(got) == len(names):
            for g, w in zip(got, names):
                env.check("P14", g == norm(w), "heading listed as normalised")
