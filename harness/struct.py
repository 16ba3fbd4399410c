"""P03 layout lint, P04 duplicates, P05 identifiers, P06 naming, P08 briefs, P10 one field per row (bits/bytes tables)"""
from . import lib
from .lib import ELL, document, extract, figure, hdr, p, td, tr

KINDS = ["Bytes", "Bits"]
WORDU = "".join(c for c in lib.ALL if c.isalnum() or c == "_")


def one(env, prop, r, n=None):
    """the single entity of the result, or None (reported)"""
    ok = r.err is None and len(r.entities) == 1
    env.check(prop, ok, "the table is extracted")
    if not ok:
        return None
    return r.entities[0]


# ---------------------------------------------------------------- P03
def rng_cell(env, name, digits):
    """a range cell with symbolic digits: (text, high, low)"""
    h = env.text(name + "h", digits, lib.DIGITS)
    l = env.text(name + "l", digits, lib.DIGITS)
    return h + ":" + l


def layout(env, fields):
    """expected layout issues of fields in ascending order: list of (code, row)"""
    def num(f):
        if f["label"] == ELL or not isinstance(f["range"], dict):
            return None
        g = f["range"]
        return g if isinstance(g["low"], int) and isinstance(g["high"], int) else None
    out = []
    for a, b in zip(fields, fields[1:]):
        ga, gb = num(a), num(b)
        if ga is not None and gb is not None and gb["low"] < ga["low"]:
            return [("T1004", None)]
    for a, b in zip(fields, fields[1:]):
        ga, gb = num(a), num(b)
        if ga is None or gb is None:
            continue
        if gb["low"] <= ga["high"]:
            out.append(("T1001", str(gb["low"])))
        elif gb["low"] > ga["high"] + 1:
            out.append(("T1002", str(gb["low"])))
    return out


def h_layout(env, kind="Bytes", n=3, digits=1, kinds=("num",), first=None):
    """n rows, each a numeric range with symbolic digits, a reserved row, an ellipsis row or a row without numeric range"""
    rows = []
    want = []
    for i in range(n):
        k = env.pick("k%d" % i, kinds) if len(kinds) > 1 else kinds[0]
        if k == "ell1":
            rows.append(tr(td(p(env, ELL), colspan=2)))
            want.append(("ell", None, None))
            continue
        if k == "text":
            c = "n+%d:n" % i
        elif k == "one":
            c = env.text("s%d" % i, digits, lib.DIGITS)
        else:
            c = rng_cell(env, "r%d" % i, digits)
        if k == "res":
            d = "Reserved"
        elif k == "obs":
            d = "obsolete"
        elif k == "named":
            # a field that is merely called so
            d = "Name (" + env.pick("as%d" % i, ["reserved", "RESERVED", "Obsolete"]) + "): x"
        elif k == "ell":
            d = ELL
        else:
            d = "Name (AB%s): x" % "CDEFGHIJ"[i]
        want.append(("ell" if k == "ell" else "text" if k == "text" else "num", c, d))
        rows.append(tr(td(p(env, c)), td(p(env, d))))
    html = document(env, figure(env, "Figure 12: T", [hdr(env, kind, "Description")] + rows))
    r = extract(env, html)
    env.out("r", r.out())
    e = one(env, "P03", r)
    if e is None:
        return
    fields = e["fields"]
    env.check("P03", len(fields) == n, "one field per row")
    if len(fields) != n:
        return
    # layout as the table says it
    exp = []
    for k, c, d in (reversed(want) if kind == "Bits" else want):
        if k == "ell":
            exp.append(dict(label=ELL, range="x"))
        elif k == "text":
            exp.append(dict(label="x", range=c))
        else:
            a = c.split(":")
            exp.append(dict(label="x", range=dict(high=int(a[0]), low=int(a[-1]))))
    w = layout(env, exp)
    g = [(x.code, x.row) for x in r.codes("T1001", "T1002", "T1004")]
    env.check("P03", len(w) == len(g), "number of layout issues")
    if len(w) == len(g):
        # (the order of the issues is not part of the property)
        if len(w) == 1 or [c for c, _ in w] == [c for c, _ in g]:
            for (c1, r1), (c2, r2) in zip(w, g):
                env.check("P03", c1 == c2 and (r1 is None or r1 == r2), "layout issue names the right row")
        else:
            for x in w:
                env.check("P03", sum(1 for y in w if y == x) == sum(1 for y in g if y == x), "layout issue is reported")
    if w and w[0][0] == "T1004":
        env.check("P03", len(r.codes("L1002")) == 0, "no duplicate check after T1004")


def h_t1004_dup(env, kind="Bytes", n=3, digits=1):
    """duplicate labels are only looked for when the order is right"""
    rows = []
    cells = []
    for i in range(n):
        c = env.text("s%d" % i, digits, lib.DIGITS)
        cells.append(c)
        rows.append(tr(td(p(env, c)), td(p(env, "Name (SAME): x"))))
    r = extract(env, document(env, figure(env, "Figure 12: T", [hdr(env, kind, "Description")] + rows)))
    env.out("r", r.out())
    if one(env, "P03", r) is None:
        return
    v = [int(c) for c in (reversed(cells) if kind == "Bits" else cells)]
    bad = False
    for a, b in zip(v, v[1:]):
        if b < a:
            bad = True
            break
    t4, dup = r.codes("T1004"), r.codes("L1002")
    env.check("P03", (len(t4) == 1) == bad and len(t4) <= 1, "T1004 exactly when a field starts below the one before")
    if bad:
        env.check("P03", len(dup) == 0 and len(r.codes("T1001", "T1002")) == 0, "nothing else after T1004")
    else:
        env.check("P03", len(dup) == n - 1, "duplicates are looked for when the order is right")


# ---------------------------------------------------------------- P04
def h_dup(env, kind="Bytes", n=3, chars="abAB", length=1, special=False, attr=False, equal=False):
    """labels drawn from all texts over `chars`: L1002 exactly for the repetitions"""
    rows = []
    order = list(range(n))
    lows = []
    t0 = env.text("t", length, chars) if equal else None
    for i in range(n):
        lo = i if kind == "Bytes" else n - 1 - i
        c = "%d" % lo
        lows.append(c)
        opts = ["name", "res", "ell1", "obs", "str"] if special else ["name"]
        k = env.pick("k%d" % i, opts) if special else "name"
        if k == "ell1":
            rows.append(tr(td(p(env, ELL), colspan=2)))
            continue
        if k == "str":
            c = "x%d" % i
        t = env.text("t%d" % i, length, chars) if not equal else t0
        d = "Reserved" if k == "res" else "OBSOLETE" if k == "obs" else ("Name " + t + ": x") if False else "Name (" + t + "): x"
        if attr:
            d = d if k in ("res", "obs") else t + ": x"
            rows.append(tr(td(p(env, c)), td(p(env, d)), td(p(env, "some text"))))
        else:
            rows.append(tr(td(p(env, c)), td(p(env, d))))
    h = hdr(env, kind, "Attribute", "Description") if attr else hdr(env, kind, "Description")
    r = extract(env, document(env, figure(env, "Figure 12: T", [h] + rows)))
    env.out("r", r.out())
    e = one(env, "P04", r)
    if e is None:
        return
    fs = e["fields"]
    env.check("P04", len(fs) == n, "one field per row")
    check_dups(env, fs, r.codes("L1002"), lambda f: str(f["range"]["low"]) if isinstance(f["range"], dict) else f["range"])


def check_dups(env, fs, dups, key):
    want = []
    for i, f in enumerate(fs):
        if f["label"] == "RESERVED" or f["label"] == ELL:
            continue
        for g in fs[:i]:
            if g["label"] == f["label"]:
                want.append(f)
                break
    env.check("P04", len(dups) == len(want), "L1002 exactly for repeated labels")
    if len(dups) == len(want):
        for d, f in zip(dups, want):
            env.check("P04", env.And(d.row == key(f), d.ctx.get("label", f["label"]) == f["label"]), "L1002 names the repeating row")


# ---------------------------------------------------------------- P05 / P06
def valid_label(env, s):
    if s == "RESERVED" or s == "OBSOLETE" or s == ELL or s == "...":
        return True
    if s == "":
        return False
    return env.And(env.matches(s[0], lib.LETTERS), env.matches(s[1:], WORDU))


def struct_table(env, kind, attr, cell, desc, attr_cell=None, ix=0):
    other = tr(td(p(env, "100" if kind == "Bytes" else "100")), *([td(p(env, "OTHER: x"))] if attr else []), td(p(env, "Other (OTHER): x")))
    if attr:
        row = tr(td(p(env, cell)), td(p(env, attr_cell)), td(p(env, desc)))
        h = hdr(env, kind, "Attribute", "Description")
    else:
        row = tr(td(p(env, cell)), td(p(env, desc)))
        h = hdr(env, kind, "Description")
    rows = [row, other] if ix == 0 else [other, row]
    return document(env, figure(env, "Figure 12: T", [h] + rows))


def special(t):
    u = t.upper()
    return u == "RESERVED" or u == "OBSOLETE" or t == ELL or t.lower().startswith("note")


def h_ident(env, kind="Bytes", n=3, attr=False, chars=None, lead=""):
    """any name text: the label is an identifier or L1004 is reported"""
    t = lead + env.text("name", n, chars)
    s = t.strip()
    env.assume(env.Not(special(s)))
    html = struct_table(env, kind, attr, "7", "text", t) if attr else struct_table(env, kind, attr, "7", t)
    r = extract(env, html)
    env.out("r", r.out())
    if attr:
        pre = s.split(":", 1)
    e = r.entities[0] if r.err is None and len(r.entities) == 1 else None
    if e is None or len(e["fields"]) != 2:
        env.check("P05", False, "the table is extracted")
        return
    f = e["fields"][0] if kind == "Bytes" else e["fields"][1]
    l4 = [x for x in r.codes("L1004") if x.row == "7"]
    if len(l4) == 0:
        env.check("P05", valid_label(env, f["label"]), "label is an identifier when L1004 is not reported")
    else:
        ok = lib.LETTERS + " " if not attr else lib.LETTERS
        env.check("P05", env.Not(env.And(s != "", env.matches(s, ok))), "no L1004 for a name of letters and blanks")


def acro(s):
    """canonical label text: single underscores for runs of blanks and dashes, slashes dropped, lower case"""
    out = ""
    t = "".join(c for c in s if c != "/") if "/" in s else s
    for c in t.strip():
        if c == " " or c == "-" or c == "_":
            if out.endswith("_"):
                continue
            out = out + "_"
        else:
            out = out + c
    return out.lower()


GAPS = lib.SPACE


def h_name(env, kind="Bits", words=(2, 1), acr=None, brief=None, gap=1, colon=True, chars=None, sp=True, free=False):
    """documented naming rule, description column only: words, optional acronym, optional brief"""
    ws = [env.text("w%d" % i, n, chars or lib.LETTERS) for i, n in enumerate(words)]
    name = ws[0]
    for i, w in enumerate(ws[1:]):
        # (`free`: any white space, at least one of them)
        name = name + (env.text("g%d" % i, gap, GAPS) if free else " " * gap) + w
    t = name
    a = None
    if acr is not None:
        a = env.text("acr", acr, lib.LETTERS + lib.DIGITS + "_ ")
        env.assume(a.strip() != "")
        t = t + (" " if sp else "") + "(" + a + ")"
    if brief is not None:
        t = t + ":" + env.text("brief", brief)
    env.assume(env.Not(special(t.strip())))
    u = name.strip().upper()
    r = extract(env, struct_table(env, kind, False, "7", t))
    env.out("r", r.out())
    e = one(env, "P06", r)
    if e is None or len(e["fields"]) != 2:
        env.check("P06", False, "every row yields a field")
        return
    f = e["fields"][0] if kind == "Bytes" else e["fields"][1]
    if a is not None:
        env.check("P06", f["label"] == acro(a), "label is the acronym")
    elif u == "RESERVED" or u == "OBSOLETE":
        env.check("P06", f["label"] == u or f["label"] == u.lower(), "placeholder name")
    else:
        w = "".join(x[0] for x in ws)
        env.check("P06", f["label"] == w.lower(), "label is made of the initials")
    env.check("P06", len([x for x in r.codes("L1003") if x.row == "7"]) == 0, "no L1003 without attribute column")


def h_attr(env, kind="Bits", n=3, words=None, chars=None, rest=2, gap=None):
    """attribute column: text before the colon, else initials and L1003"""
    if words is None:
        a = env.text("a", n, chars or (lib.LETTERS + lib.DIGITS + "_-/ "))
        env.assume(a.strip() != "")
        t = a + ":" + env.text("rest", rest)
    else:
        ws = [env.text("w%d" % i, k, lib.LETTERS + lib.DIGITS) for i, k in enumerate(words)]
        t = ws[0]
        for i, w in enumerate(ws[1:]):
            t = t + (env.text("g%d" % i, gap, GAPS) if gap else " ") + w
    env.assume(env.Not(special(t.strip())))
    r = extract(env, struct_table(env, kind, True, "7", "some text: more", t))
    env.out("r", r.out())
    e = one(env, "P06", r)
    if e is None or len(e["fields"]) != 2:
        env.check("P06", False, "every row yields a field")
        return
    f = e["fields"][0] if kind == "Bytes" else e["fields"][1]
    l3 = len([x for x in r.codes("L1003") if x.row == "7"])
    if words is None:
        env.check("P06", f["label"] == acro(a), "label is the text before the colon")
        env.check("P06", l3 == 0, "no L1003 with a colon")
    else:
        env.check("P06", f["label"] == "".join(x[0] for x in ws).lower(), "label is made of the initials (attribute column)")
        env.check("P06", l3 == 1, "L1003 for an imputed label")


def h_reserved(env, kind="Bits", attr=False, second=False):
    """Reserved / Obsolete in any capitalisation, with the row's range"""
    which = env.pick("which", ["reserved", "obsolete", ELL])
    t = ""
    for i, c in enumerate(which):
        t = t + (env.text("c%d" % i, 1, c + c.upper()) if c != ELL else c)
    w = env.pick("ws", ["", " ", "\n"])
    t = w + t + w
    where = env.pick("where", ["label", "content", "both"]) if attr else "content"
    rng = rng_cell(env, "r", 2)
    if attr:
        html = struct_table(env, kind, True, rng, t if where != "label" else "other text", t if where != "content" else "ABC: x")
    else:
        html = struct_table(env, kind, False, rng, t)
    r = extract(env, html)
    env.out("r", r.out())
    e = one(env, "P06", r)
    if e is None:
        return
    env.check("P06", len(e["fields"]) == 2, "every row yields a field")
    env.check("P10", len(e["fields"]) == 2, "every row yields a field")
    if len(e["fields"]) != 2:
        return
    f = e["fields"][0] if kind == "Bytes" else e["fields"][1]
    env.check("P06", f["label"] == which.upper(), "placeholder label")
    env.check("P10", f["label"] == which.upper(), "placeholder label")
    h, l = rng.split(":")
    env.check("P10", isinstance(f["range"], dict) and env.And(f["range"]["low"] == int(l), f["range"]["high"] == int(h)), "placeholder carries the row's range")


# ---------------------------------------------------------------- P08
def check_brief(env, f, name, text):
    """text = what follows name and colon (already without trailing white space of the cell)"""
    b = f.get("brief")
    t = text.lstrip(" ").rstrip(".") if False else text.rstrip(".").lstrip(" ")
    if len(t) > 60:
        i = t.find(".")
        t = t if i < 0 else t[:i]
    if len(t) > 60:
        env.check("P08", b is None, "a brief longer than 60 is dropped")
    elif t == "":
        env.check("P08", b is None or b == "", "no brief without text")
    else:
        env.check("P08", b is not None and b == t, "brief is the text behind the colon")


def h_brief(env, kind="Bits", n=3, total=None, dots=(), name="Some Name (SNM)", chars=None, fills="x"):
    """description `name: text`; text = n arbitrary characters, then filler up to `total` characters with full stops at `dots`"""
    head = env.text("t", n, chars)
    t = head
    if total is not None:
        fill = [env.pick("fill", list(fills)) if len(fills) > 1 else fills] * (total - n)
        if dots:
            d = env.pick("dot", list(dots))
            if d is not None:
                fill[d - n] = "."
        t = head + "".join(fill)
    cell = name + ":" + t
    if kind == "Value":
        row = tr(td(p(env, "7")), td(p(env, cell)))
        r = extract(env, document(env, figure(env, "Figure 12: T", [hdr(env, "Value", "Description"), row])))
        ix = 0
    else:
        r = extract(env, struct_table(env, kind, False, "7", cell))
        ix = 0 if kind == "Bytes" else 1
    env.out("r", r.out())
    e = one(env, "P08", r)
    if e is None:
        return
    f = e["fields"][ix]
    check_brief(env, f, name, cell.rstrip()[len(name) + 1:])


def h_brief_any(env, kind="Bytes", n=4, chars=None, tail=0):
    """any description: a brief is a verbatim piece of it, at most 60 long, and there is none without a colon"""
    t = env.text("t", n, chars) + "y" * tail
    env.assume(env.Not(special(t.strip())))
    if kind == "Value":
        row = tr(td(p(env, "7")), td(p(env, t)))
        r = extract(env, document(env, figure(env, "Figure 12: T", [hdr(env, "Value", "Description"), row])))
        ix = 0
    else:
        r = extract(env, struct_table(env, kind, False, "7", t))
        ix = 0 if kind == "Bytes" else 1
    env.out("r", r.out())
    e = one(env, "P08", r)
    if e is None:
        return
    b = e["fields"][ix].get("brief")
    if b is None:
        return
    env.check("P08", len(b) <= 60, "at most 60 characters")
    env.check("P08", b in t, "a verbatim piece of the description")
    env.check("P08", ":" in t, "no brief without a colon")


def h_brief_attr(env, kind="Bytes", total=60, n=2):
    """attribute column: the brief comes from the description column"""
    d = env.text("d", n) + "y" * (total - n)
    r = extract(env, struct_table(env, kind, True, "7", d, "ABC: attribute text"))
    env.out("r", r.out())
    e = one(env, "P08", r)
    if e is None:
        return
    if len(e["fields"]) != 2:
        return
    b = e["fields"][0 if kind == "Bytes" else 1].get("brief")
    if b is not None:
        env.check("P08", env.And(len(b) <= 60, b in d, ":" in d), "a verbatim piece of the description column")


# ---------------------------------------------------------------- P10
def h_rows(env, kind="Bytes", n=3, attr=False, opts=None, free=None, long=False):
    """every data row yields one field, special rows what they should"""
    opts = opts or ["plain", "res", "ell", "ell1", "th", "wide", "rngell", "note2", "noterow"]
    rows = []
    want = []
    ended = freed = False
    for i in range(n):
        k = env.pick("k%d" % i, opts)
        v = 10 + i * 2 if kind == "Bytes" else 90 - i * 2
        c = "%d:%d" % (v + 1, v)
        rg = dict(low=v, high=v + 1)
        lbl = "AB" + "CDEFGHIJ"[i]
        at = [td(p(env, lbl + ": x"))] if attr else []
        w = 3 if attr else 2
        de = td(p(env, "Name (%s): t" % lbl))
        f = None
        if k == "plain":
            rows.append(tr(td(p(env, c)), *at, de))
            f = dict(label=lbl.lower(), range=rg)
        elif k == "res":
            x = env.pick("x%d" % i, ["Reserved", "OBSOLETE", "obsolete"])
            rows.append(tr(td(p(env, c)), *([td(p(env, x))] if attr else []), td(p(env, x))))
            f = dict(label=x.upper(), range=rg)
        elif k == "ell":
            rows.append(tr(td(p(env, c)), *([td(p(env, ELL))] if attr else []), td(p(env, ELL))))
            f = dict(label=ELL, range=rg)
        elif k == "ell1":
            rows.append(tr(td(p(env, ELL), colspan=w)))
            f = dict(label=ELL, range=dict(low=-1, high=-1))
        elif k == "th":
            rows.append(tr(td(p(env, "Section"), colspan=w, tag="th")))
        elif k == "mix":
            # a heading cell at one of the places: a section header row
            at3 = [["td", c], ["td", lbl + ": x"], ["td", "Name (%s): t" % lbl]]
            at3[env.pick("m%d" % i, [0, 1, 2] if attr else [0, 2])][0] = "th"
            rows.append(tr(*[td(p(env, b), tag=a) for a, b in (at3 if attr else [at3[0], at3[2]])]))
        elif k == "headed":
            # a heading cell with any text, or with none, beside the other cells
            x = env.text("h%d" % i, 1) if env.flag("hs%d" % i) else ""
            th = td(p(env, x), tag="th") if x != "" or env.flag("hb%d" % i) else "<th></th>"
            row = [td(p(env, c)), *at, de]
            row.insert(env.pick("hp%d" % i, [0, len(row)]), th)
            rows.append(tr(*row) if env.flag("hw%d" % i) else tr(td(p(env, x), colspan=w, tag="th")))
        elif k == "wide":
            x = "Some remark on the rows"
            if free and not freed:
                freed = True
                x = env.text("x%d" % i, free[0], free[1])
                env.assume(env.And(x.strip() != "", env.Not(special(x.strip())), env.Not(x.strip().startswith(ELL))))
            elif long:
                x = env.pick("x%d" % i, ["Remark, see note 1", "A Note: x", "footnote", "the field is reserved", "see " + ELL, "Descriptor List"])
            rows.append(tr(td(p(env, x), colspan=w)))
        elif k == "rngell":
            rows.append(tr(td(p(env, env.pick("y%d" % i, [ELL, "Reserved"]))), *at, de))
        elif k == "note2":
            rows.append(tr(td(p(env, c)), *at, td(p(env, env.pick("z%d" % i, ["Note: x", "NOTES: y"])))))
        else:
            rows.append(tr(td(p(env, env.pick("z%d" % i, ["Note: x", "NOTES: y", "note 1 z"])), colspan=w)))
            ended = True
        if f is not None and not any(x is None for x in want):
            want.append(f)
        if ended:
            want.append(None)
    want = want[:want.index(None)] if None in want else want
    h = hdr(env, kind, "Attribute", "Description") if attr else hdr(env, kind, "Description")
    r = extract(env, document(env, figure(env, "Figure 12: T", [h] + rows)))
    env.out("r", r.out())
    e = one(env, "P10", r)
    if e is None:
        return
    if kind == "Bits":
        want = want[::-1]
    got = [dict(label=f["label"], range=f["range"]) for f in e["fields"]]
    env.check("P10", got == want, "one field per data row in layout order")
    env.check("P10", e["type"] == kind.lower(), "type of the table")


def h_many(env, kind="Bits", n=3, digits=2):
    """symbolic ranges and acronyms: the fields are those of the rows, in layout order"""
    rows = []
    want = []
    for i in range(n):
        c = rng_cell(env, "r%d" % i, digits)
        a = env.text("a%d" % i, 2, lib.LETTERS)
        rows.append(tr(td(p(env, c)), td(p(env, "Name (" + a + "): t"))))
        want.append((c, a))
    r = extract(env, document(env, figure(env, "Figure 12: T", [hdr(env, kind, "Description")] + rows)))
    env.out("r", r.out()["entities"])
    e = one(env, "P10", r)
    if e is None:
        return
    if kind == "Bits":
        want.reverse()
    fs = e["fields"]
    env.check("P10", len(fs) == n, "one field per data row")
    if len(fs) != n:
        return
    for f, (c, a) in zip(fs, want):
        h, l = c.split(":")
        env.check("P10", env.And(f["label"] == a.lower(), isinstance(f["range"], dict) and f["range"]["low"] == int(l),
                                 isinstance(f["range"], dict) and f["range"]["high"] == int(h)), "fields in layout order")
