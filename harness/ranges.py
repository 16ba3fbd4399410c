"""P01 static ranges, P02 dynamic list ranges"""
from . import lib
from .lib import ELL, document, extract, figure, hdr, p, td, tr


def number(s):
    """the trimmed text is a plain decimal number"""
    return s != "" and s.isdecimal()


def parse_range(t):
    """(high text, low text) or None"""
    parts = t.split(":")
    if len(parts) > 2:
        return None
    ns = [x.strip() for x in parts]
    for n in ns:
        if not number(n):
            return None
    return ns[0], ns[-1]


def ordinary(env, t):
    env.assume(t != "")
    u = t.upper()
    env.assume(env.And(u != "RESERVED", u != "OBSOLETE", t != ELL, env.Not(t.lower().startswith("note"))))


def judge(env, kind, cell, r, ix=0):
    t = cell.strip()
    env.check("P01", env.And(r.err is None, len(r.entities) == 1), "the table is extracted")
    if r.err is not None or len(r.entities) != 1:
        return
    fields = r.entities[0]["fields"]
    env.check("P01", len(fields) == 2, "every row yields a field")
    if len(fields) != 2:
        return
    f = fields[1 - ix] if kind == "Bits" else fields[ix]
    rev = r.codes("R1002")
    inv = r.codes("R1001")
    want = parse_range(t)
    rng = f["range"]
    if want is None:
        env.check("P01", env.And(isinstance(rng, str), rng == t), "any other text is kept verbatim as a string range")
        env.check("P01", len(inv) == 1 and inv[0].row == t, "R1001 is reported for a row without a plain range")
        env.check("P01", len(rev) == 0, "R1002 only for numeric ranges")
    else:
        high, low = int(want[0]), int(want[1])
        if not isinstance(rng, dict):
            env.check("P01", False, "a plain range becomes numeric")
            return
        env.check("P01", env.And(rng["low"] == low, rng["high"] == high), "bounds are exact")
        env.check("P01", len(inv) == 0, "R1001 not reported for a plain range")
        if low > high:
            env.check("P01", len(rev) == 1 and env.Or(rev[0].row == t, rev[0].row == str(low)), "R1002 when low exceeds high")
        else:
            env.check("P01", len(rev) == 0, "no R1002 when low does not exceed high")


def table(env, kind, cell, ix):
    row = tr(td(p(env, cell)), td(p(env, "Name One (NAMO): text")))
    other = tr(td(p(env, "100")), td(p(env, "Other Name (OTHN): more")))
    rows = [row, other] if ix == 0 else [other, row]
    return document(env, figure(env, "Figure 7: Title", [hdr(env, kind, "Description")] + rows))


def h_free(env, kind="Bytes", n=3, ix=0):
    """the range cell holds any n characters"""
    cell = env.text("cell", n)
    ordinary(env, cell.strip())
    r = extract(env, table(env, kind, cell, ix))
    judge(env, kind, cell, r, ix)
    env.out("r", r.out())


def h_shape(env, kind="Bits", high=2, low=2, ws=(0, 0, 0, 0), junk=0, ix=0, big=""):
    """digits, a colon, digits (both behind big), white space around, junk characters at the end"""
    w = [env.text("w%d" % i, n, lib.SPACE) for i, n in enumerate(ws)]
    h = env.text("high", high, lib.DIGITS)
    cell = w[0] + big + h + w[1]
    if low is not None:
        cell = cell + ":" + w[2] + big + env.text("low", low, lib.DIGITS) + w[3]
    cell = cell + env.text("junk", junk)
    ordinary(env, cell.strip())
    r = extract(env, table(env, kind, cell, ix))
    judge(env, kind, cell, r, ix)
    env.out("r", r.out())


# ---------------------------------------------------------------- P02
def formula(s):
    return s != "" and all(c in lib.LETTERS or c in lib.DIGITS or c in "+-*()" or c.isspace() for c in s) \
        and s.strip() != ""


def nows(s):
    return "".join(s.split())


def h_dyn(env, kind="Bytes", n=4, attr=False):
    """a row behind a List section header"""
    cell = env.text("cell", n)
    _dyn(env, kind, cell, attr)


def h_dyn_shape(env, kind="Bytes", a=3, b=3, junk=0, attr=False):
    f = lib.LETTERS + lib.DIGITS + "+-*() \n\t"
    cell = env.text("a", a, f) + ":" + env.text("b", b, f) + env.text("junk", junk)
    _dyn(env, kind, cell, attr)


def _dyn(env, kind, cell, attr):
    ordinary(env, cell.strip())
    desc = "Name One (NAMO): text"
    cols = [kind, "Description"]
    plain = tr(td(p(env, "3:0")), td(p(env, "First Name (FIRN): more")))
    sect = tr(td(p(env, "Descriptor List"), colspan=2, tag="th"))
    row = tr(td(p(env, cell)), td(p(env, desc)))
    html = document(env, figure(env, "Figure 7: Title", [hdr(env, *cols), plain, sect, row]))
    r = extract(env, html)
    env.out("r", r.out())
    t = cell.strip()
    env.check("P02", env.And(r.err is None, len(r.entities) == 1), "the table is extracted")
    if r.err is not None or len(r.entities) != 1:
        return
    fields = r.entities[0]["fields"]
    env.check("P02", len(fields) == 2, "every row yields a field")
    if len(fields) != 2:
        return
    pf, f = (fields[1], fields[0]) if kind == "Bits" else (fields[0], fields[1])
    env.check("P02", pf["range"] == {"low": 0, "high": 3}, "rows before the section keep plain ranges")
    inv = r.codes("R1001")
    rng = f["range"]
    parts = t.split(":")
    if len(parts) == 2 and formula(parts[0]) and formula(parts[1]):
        if not isinstance(rng, dict):
            env.check("P02", False, "a formula pair becomes a range")
            return
        env.check("P02", env.And(rng["high"] == nows(parts[0]), rng["low"] == nows(parts[1])), "both formula bounds are kept")
        env.check("P02", len(inv) == 0, "no R1001 for a formula range")
    else:
        env.check("P02", env.And(isinstance(rng, str), rng == t), "any other text is kept verbatim")
        env.check("P02", len(inv) == 1 and inv[0].row == t, "R1001 is reported for other text")


def h_dyn_before(env, kind="Bytes", n=3):
    """a row in front of the List section header keeps the rules for plain ranges; a th row without List changes nothing"""
    cell = env.text("cell", n)
    t = cell.strip()
    ordinary(env, t)
    word = env.pick("word", ["Descriptor List", "List", "Other Section"])
    span = env.pick("span", [1, 2])
    row = tr(td(p(env, cell)), td(p(env, "Name One (NAMO): text")))
    sect = tr(td(p(env, word), colspan=span, tag="th"))
    after = env.flag("after")
    dyn = after and word != "Other Section" and span == 2
    env.assume(not dyn)
    env.assume(span == 2 or word == "Other Section")
    rows = [sect, row] if after else [row, sect]
    r = extract(env, document(env, figure(env, "Figure 7: Title", [hdr(env, kind, "Description")] + rows)))
    env.out("r", r.out())
    env.check("P02", r.err is None and len(r.entities) == 1 and len(r.entities[0]["fields"]) == 1, "the table is extracted")
    if r.err is not None or len(r.entities) != 1:
        return
    rng = r.entities[0]["fields"][0]["range"]
    want = parse_range(t)
    if want is None:
        env.check("P02", env.And(isinstance(rng, str), rng == t), "outside a list section: other text verbatim")
    else:
        env.check("P02", isinstance(rng, dict), "outside a list section: plain ranges numeric")
        if isinstance(rng, dict):
            env.check("P02", env.And(rng["low"] == int(want[1]), rng["high"] == int(want[0])), "outside a list section: exact bounds")


def h_dyn_mode(env, kind="Bytes", n=3, digits=1):
    """rows and th rows of every kind in every order: the list section begins at its header and lasts to the end of the table"""
    rows = []
    want = []
    dyn = False
    for i in range(n):
        k = env.pick("k%d" % i, ["list", "sect", "list1", "sect1", "formula", "plain", "digits", "res"])
        if k in ("list", "list1", "sect", "sect1"):
            w = env.pick("t%d" % i, ["Descriptor List", "List of Things"]) if k[:4] == "list" else env.pick("t%d" % i, ["Entry 1", "lists", ""])
            if k[-1] == "1":
                # cells of their own, nothing spans: not a section header
                rows.append(tr(td(p(env, w), tag="th"), td(p(env, "x"), tag="th")))
            else:
                rows.append(tr(td(p(env, w), colspan=2, tag="th")))
                dyn = dyn or k == "list"
            continue
        d = "Name (AB" + "CDEFGH"[i] + "): x"
        if k == "formula":
            h, l = env.text("f%d" % i, digits, lib.LETTERS + "+*"), env.text("g%d" % i, digits, lib.LETTERS + "(-")
            c = h + ":" + l
            want.append((c, dict(high=h, low=l) if dyn else c, not dyn))
        elif k == "digits":
            c = env.text("d%d" % i, digits, lib.DIGITS)
            want.append((c, c if dyn else dict(high=int(c), low=int(c)), dyn))
        else:
            h, l = env.text("h%d" % i, digits, lib.DIGITS), env.text("l%d" % i, digits, lib.DIGITS)
            c = h + ":" + l
            want.append((c, dict(high=h, low=l) if dyn else dict(high=int(h), low=int(l)), False))
            if k == "res":
                d = env.pick("r%d" % i, ["Reserved", "obsolete"])
        rows.append(tr(td(p(env, c)), td(p(env, d))))
    env.assume(len(want) > 0)
    r = extract(env, document(env, figure(env, "Figure 7: Title", [hdr(env, kind, "Description")] + rows)))
    env.out("r", r.out())
    env.check("P02", r.err is None and len(r.entities) == 1, "the table is extracted")
    if r.err is not None or len(r.entities) != 1:
        return
    fs = r.entities[0]["fields"]
    env.check("P02", len(fs) == len(want), "every row yields a field")
    env.check("P10", len(fs) == len(want), "every row yields a field")
    if len(fs) != len(want):
        return
    for f, (c, rng, bad) in zip(reversed(fs) if kind == "Bits" else fs, want):
        same = isinstance(f["range"], str) == isinstance(rng, str) and f["range"] == rng
        env.check("P02", same, "range by the rules of its section")
        env.check("P10", same, "fields in table order, or in reverse order for bits")
    inv = r.codes("R1001")
    bad = [c for c, _, b in want if b]
    env.check("P02", len(inv) == len(bad), "R1001 exactly for rows without a range by the rules of their section")
    if len(inv) == len(bad):
        for a, b in zip(inv, bad):
            env.check("P02", a.row == b, "R1001 names the row")
