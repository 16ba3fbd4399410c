"""Tables whose rows combine every kind of key, name, attribute and description, against a reference model of the statements
(P01, P02, P03, P04, P05, P06, P07, P08, P10, P11, P33).  The model never looks at Spex: a row brings what is expected of it."""
from . import lib
from .lib import ELL, document, extract, figure, hdr, nested, p, td, tr

AZ = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
BRIEFS = [(": brief one", "brief one"), (": Two. Three..", "Two. Three"), (":", None), ("", None), (": " + "q" * 60, "q" * 60), (": " + "q" * 61, None), (": Kept. " + "q" * 60, "Kept"), (": see (x): y", "see (x): y")]


# ---------------------------------------------------------------- rows of bits and bytes tables
def key_cell(env, i, k, hi, lo):
    """(text, what it is outside a list, what it is in a list); a range is a pair (low, high) or the text itself"""
    if k == "num":
        return "%d:%d" % (hi, lo), (lo, hi), (str(lo), str(hi))
    if k == "blank":
        return " %d : %d " % (hi, lo), (lo, hi), (str(lo), str(hi))
    if k == "one":
        return "%d" % lo, (lo, lo), None
    if k == "zero":
        return "0%d:00%d" % (hi, lo), (lo, hi), ("00%d" % lo, "0%d" % hi)
    if k == "rev":
        return "%d:%d" % (lo, hi), (hi, lo), (str(hi), str(lo))
    if k == "gap":
        return "%d:%d" % (hi, lo + 1), (lo + 1, hi), (str(lo + 1), str(hi))
    if k == "over":
        return "%d:%d" % (hi + 1, lo), (lo, hi + 1), (str(lo), str(hi + 1))
    if k == "formula":
        return "%s + 3:%s" % (AZ[i], AZ[i]), None, (AZ[i], AZ[i] + "+3")
    if k == "same formula":
        return "(N*4)+3:N*4", None, ("N*4", "(N*4)+3")
    if k == "text":
        return "n/a", None, None
    if k == "hex":
        return "0%dh" % lo, None, None
    if k == "list":
        return "%d:%d, %d" % (hi, lo, lo), None, None
    if k == "empty":
        return "", None, None
    if k == "paren":
        return "(%d:%d)" % (hi, lo), None, ("%d)" % lo, "(%d" % hi)
    if k == "sym":
        d = env.text("d%d" % i, 1, lib.DIGITS)
        return d, (int(d), int(d)), None
    if k == "symtext":
        d = env.text("d%d" % i, 1, "?,.;/=")
        return d + "1", None, None
    raise AssertionError(k)


NOBRIEF = ("res", "RES", "obs", "ell", "note", "dotted")
NAMES = ["acr", "dup", "Dup", "words", "digits", "res", "RES", "obs", "ell", "bad", "under", "note"]


def name_cell(env, i, k, at, brief):
    """(attribute cell, description cell, label, codes); special rows: label in upper case"""
    t, b = brief
    if k == "acr":
        a = ("AC%s" % AZ[i], "Some Thing (AC%s)" % AZ[i], "ac" + AZ[i].lower(), [])
    elif k in ("dup", "Dup"):
        a = (k, "Another (%s)" % k, "dup", [])
    elif k == "words":
        a = ("wo%s" % AZ[i], "Words %sine 16" % AZ[i], "wo%s" % AZ[i].lower() if at else "w%s1" % AZ[i].lower(), [])
    elif k == "digits":
        a = ("D1_%d" % i, "Some Digits (D1 %d)" % i, "d1_%d" % i, [])
    elif k == "hyphen":
        a = ("Multi%s" % AZ[i], "Multi-path A-%s one" % AZ[i], "multi%s" % AZ[i].lower() if at else "mao", [])
    elif k == "dotted":
        # not one of the reserved names: an ordinary field, named by its initial
        x = "Obsolete." if i % 2 else "rEserved."
        return (x, "Plain text", x[0].lower(), ["L1003"]) if at else (None, x, x[0].lower(), [])
    elif k in ("res", "RES", "obs", "ell"):
        x = {"res": "reserved", "RES": "RESERVED", "obs": "Obsolete", "ell": ELL}[k]
        return x, x, x.upper(), []
    elif k == "bad":
        a = ("9B%s" % AZ[i], "Bad (9B%s)" % AZ[i], "9b" + AZ[i].lower(), ["L1004"])
    elif k == "under":
        a = ("U - %s" % AZ[i], "Under (U  %s)" % AZ[i], "u_%s" % AZ[i].lower(), ["L1004"] if at else [])
    elif k == "sym":
        c = env.text("c%d" % i, 1, lib.LETTERS)
        a = ("S" + c, "Symbolic (S" + c + ")", "s" + c.lower(), [])
    elif k == "note":
        return ("Note: x" if at == "label" else "N%s: x" % AZ[i]), "Note: x", None, []
    else:
        raise AssertionError(k)
    if at:
        return a[0] + ": some text", (a[1] + t) if t else "Plain text", a[2], a[3]
    return None, a[1] + t, a[2], a[3]


def sub_values(env, fid):
    """a nested table: (html, entity, findings)"""
    h = nested([hdr(env, "Value", "Description"), tr(td(p(env, "0h")), td(p(env, "In: x"))), tr(td(p(env, "1H")), td(p(env, "In: y")))])
    return h, dict(fig=fid, type="values", fields=[("0h", "IN", "x"), ("1h", "IN", "y")]), [("L1002", fid, "1h")]


def sub_bits(env, fid):
    h = nested([hdr(env, "Bits", "Description"), tr(td(p(env, "7:6")), td(p(env, "Gap (GP): x"))), tr(td(p(env, "n/a")), td(p(env, "Reserved"))), tr(td(p(env, "3:0")), td(p(env, "Low (9L)")))])
    return h, dict(fig=fid, type="bits", fields=[((0, 3), "9l", None), ("n/a", "RESERVED", None), ((6, 7), "gp", "x")]), [("R1001", fid, "n/a"), ("L1004", fid, "0")]


def sub_foreign(env, fid):
    return nested([hdr(env, "Foo", "Bar", "Baz"), tr(td(p(env, "1")), td(p(env, "2")), td(p(env, "3")))]), None, [("T1007", fid, None)]


SUBS = {"values": sub_values, "bits": sub_bits, "foreign": sub_foreign}
LIST = "<ul><li><p>an item</p></li><li><p>another</p></li></ul>"
DECOR = {"none": [], "list": ["ul"], "para": ["p"], "values": ["values"], "bits": ["bits"], "list values": ["ul", "values"], "values list": ["values", "ul"], "para bits": ["p", "bits"],
         "two": ["values", "bits"], "two apart": ["bits", "p", "values"], "foreign": ["foreign"], "foreign values": ["foreign", "values"]}


def decorate(env, what, fid):
    """what follows the first paragraph of a description cell: (html, entities, findings)"""
    h, es, ls = "", [], []
    for x in DECOR[what]:
        if x == "ul":
            h += LIST
        elif x == "p":
            h += p(env, "One more paragraph.")
        else:
            a, e, l = SUBS[x](env, fid)
            h += a
            if e is not None:
                es.append(e)
            ls += l
    return h, es, ls


def row_key(rg):
    return str(rg[0]) if isinstance(rg, tuple) else rg


def is_num(x):
    return not isinstance(x, str)


def cells(order, rc, ac, dc):
    by = {"r": td(rc), "a": None if ac is None else td(ac), "d": td(dc)}
    return tr(*[by[o] for o in order if by[o] is not None])


OTHER = {"Bytes": "Byte", "Bits": "Bit", "Value": "Code"}


def heading(env, kind, fid, heads, pfx):
    """the heading of the range or value column, as usual or in another form: (text, findings)"""
    if len(heads) > 1 and env.pick(pfx + "head", list(heads)) == "other":
        return OTHER[kind], [("T1006", fid, None)]
    return kind, []


def struct_table(env, kind, n, attr, fid, title, rowkinds=("data",), keys=("num",), names=("acr",), decors=("none",), briefs=2, orders=None, heads=("usual",), pfx=""):
    """(html, entities in order, findings)"""
    at = "label" if attr else ""
    w = 3 if attr else 2
    order = env.pick(pfx + "order", list(orders)) if orders else "rad"
    rows, fields, subs, lint = [], [], [], []
    in_list = over = False
    for i in range(n):
        j = i if kind == "Bytes" else n - 1 - i
        lo, hi = 4 * j, 4 * j + 3
        x = pfx + str(i)
        rk = env.pick("row" + x, list(rowkinds)) if len(rowkinds) > 1 else rowkinds[0]
        if rk == "th":
            rows.append(tr(td(p(env, "Section"), colspan=w, tag="th")))
            continue
        if rk in ("List", "More List"):
            rows.append(tr(td(p(env, rk), colspan=w, tag="th")))
            if not over:
                in_list = True
            continue
        if rk == "wide":
            rows.append(tr(td(p(env, "Some remark on the rows"), colspan=w)))
            continue
        if rk == "end":
            rows.append(tr(td(p(env, "Notes: 1"), colspan=w)))
            over = True
            continue
        if rk == "ell":
            rows.append(tr(td(p(env, ELL), colspan=w)))
            if not over:
                fields.append(((-1, -1), ELL, None))
            continue
        if rk in ("skip", "skip ell"):
            h, es, ls = SUBS["values"](env, fid + "_x")
            rows.append(cells(order, p(env, "Reserved" if rk == "skip" else ELL), p(env, "SK: x") if attr else None, p(env, "Skipped (SK): x") + h))
            continue
        kc = env.pick("key" + x, list(keys)) if len(keys) > 1 else keys[0]
        nm = env.pick("name" + x, list(names)) if len(names) > 1 else names[0]
        de = env.pick("decor" + x, list(decors)) if len(decors) > 1 else decors[0]
        br = BRIEFS[env.pick("brief" + x, list(range(briefs))) if briefs > 1 and nm not in NOBRIEF else 0]
        ktext, plain, dyn = key_cell(env, i, kc, hi, lo)
        rg = dyn if in_list else plain
        ac, dc, lbl, codes = name_cell(env, i, nm, at, br)
        if nm in ("res", "RES", "obs", "ell", "note"):
            de = "none"
        ktext1 = ktext.strip()
        if rg is None:
            rg = ktext1
        h, es, ls = decorate(env, de, fid + "_" + row_key(rg))
        rows.append(cells(order, p(env, ktext), p(env, ac) if attr else None, p(env, dc) + h))
        if over:
            continue
        if nm == "note" and isinstance(rg, str):
            env.assume(False)  # whether the range of a remark is looked at is left open
        if isinstance(rg, str):
            lint.append(("R1001", fid, ktext1))
        elif not in_list and rg[0] > rg[1]:
            lint.append(("R1002", fid, ktext1))
        if nm == "note":
            continue
        for c in codes:
            lint.append((c, fid, row_key(rg)))
        lint += ls
        subs += es
        b = None if nm in NOBRIEF else br[1]
        fields.append((rg, lbl, b if de == "none" else "?"))
    if kind == "Bits":
        fields.reverse()
    lint += layout(fields, fid)
    hd, ls = heading(env, kind, fid, heads, pfx)
    lint += ls
    head = {"r": hd, "a": "Attribute", "d": "Description"}
    html = [hdr(env, *[head[o] for o in order if attr or o != "a"])] + rows
    return html, subs + [entity(fid, title, kind.lower(), fields)], lint


def entity(fid, title, kind, fields):
    d = dict(fig=fid, type=kind, fields=fields)
    if title is not None:
        d["title"] = title
    return d


def layout(fields, fid):
    def num(f):
        rg, lbl, _ = f
        return rg if isinstance(rg, tuple) and is_num(rg[0]) and lbl != ELL else None
    for a, b in zip(fields, fields[1:]):
        a, b = num(a), num(b)
        if a is not None and b is not None and b[0] < a[0]:
            return [("T1004", fid, None)]
    out = []
    for i, (a, b) in enumerate(zip(fields, fields[1:])):
        if b[1] not in ("RESERVED", ELL) and any(b[1] == f[1] for f in fields[:i + 1]):
            out.append(("L1002", fid, row_key(b[0])))
        ga, gb = num(a), num(b)
        if ga is None or gb is None:
            continue
        if gb[0] <= ga[1]:
            out.append(("T1001", fid, str(gb[0])))
        elif gb[0] > ga[1] + 1:
            out.append(("T1002", fid, str(gb[0])))
    return out


# ---------------------------------------------------------------- rows of value tables
VALS = ["num", "upper", "zero", "same", "text", "empty", "dots"]


def value_table(env, n, attr, fid, title, rowkinds=("data",), keys=("num",), names=("acr",), decors=("none",), briefs=2, orders=None, heads=("usual",), pfx=""):
    w = 3 if attr else 2
    order = env.pick(pfx + "order", list(orders)) if orders else "rad"
    rows, fields, subs, lint = [], [], [], []
    over = False
    for i in range(n):
        x = pfx + str(i)
        rk = env.pick("row" + x, list(rowkinds)) if len(rowkinds) > 1 else rowkinds[0]
        if rk == "th":
            rows.append(tr(td(p(env, "Section"), colspan=w, tag="th")))
            continue
        if rk == "wide":
            rows.append(tr(td(p(env, "Some remark on the rows"), colspan=w)))
            continue
        if rk == "end":
            rows.append(tr(td(p(env, "Notes: 1"), colspan=w)))
            over = True
            continue
        if rk == "ell":
            rows.append(tr(td(p(env, ELL), colspan=w)))
            if not over:
                fields.append((ELL, ELL, None))
            continue
        if rk == "ell val":
            rows.append(cells(order, p(env, ELL), p(env, ELL) if attr else None, p(env, ELL)))
            if not over:
                fields.append((ELL, ELL, None))
            continue
        kc = env.pick("key" + x, list(keys)) if len(keys) > 1 else keys[0]
        nm = env.pick("name" + x, list(names)) if len(names) > 1 else names[0]
        de = env.pick("decor" + x, list(decors)) if len(decors) > 1 else decors[0]
        br = BRIEFS[env.pick("brief" + x, list(range(briefs))) if briefs > 1 and nm not in ("res", "RES") else 0]
        v = {"num": "%dh" % i, "upper": "%dH" % (i // 2), "zero": "0%dh" % i, "same": "1h", "text": "see %s" % AZ[i], "empty": "", "dots": "%d to 9" % i, "paren": "(%dh)" % i, "first": "0h", "long": "%dh through 7FFFFFFFh and FFFFFFFEh" % i, "sym": None}[kc]
        if v is None:
            v = env.text("d%d" % i, 1, lib.DIGITS) + "h"
        val = v.lower()
        codes = []
        if nm == "acr":
            a, lbl = "Al%s" % AZ[i], "AL" + AZ[i]
        elif nm in ("dup", "Dup"):
            a, lbl = nm, "DUP"
        elif nm == "words":
            a, lbl = "Two - Words/%s" % AZ[i], "TWO_WORDS" + AZ[i]
        elif nm == "number":
            a, lbl = ("N%d bit" % i, "N%d_BIT" % i) if attr else ("3%d bit" % i, "BIT_3%d" % i)
        elif nm in ("res", "RES"):
            a, lbl = ("rEserved", "RESERVED") if nm == "res" else ("RESERVED", "RESERVED")
        elif nm == "obs":
            a, lbl = "Obsolete", "OBSOLETE"
        elif nm == "bad":
            a, lbl, codes = "_%s" % AZ[i], "_" + AZ[i], ["L1004"]
        elif nm == "sym":
            c = env.text("c%d" % i, 1, lib.LETTERS)
            a, lbl = "S" + c, "S" + c.upper()
        else:
            raise AssertionError(nm)
        res = nm in ("res", "RES")
        b = None if res else br[1]
        if attr:
            imputed = not res and env.flag("imp" + x)
            if imputed:
                lint.append(("L1003", fid, val)) if not over else None
            ac = p(env, a if res or imputed else a + ": some text")
            dc = "Plain text" if b is None else "Some Text" + br[0]
        else:
            ac = None
            dc = a if res else a + br[0]
        h, es, ls = decorate(env, de, fid + "_" + val)
        rows.append(cells(order, p(env, v), ac, p(env, dc) + h))
        if over:
            continue
        for c in codes:
            lint.append((c, fid, val))
        lint += ls
        subs += es
        fields.append((val, lbl, b if de == "none" else "?"))
    part = [f for f in fields if f[1] not in ("RESERVED", ELL)]
    for i, f in enumerate(part):
        if any(g[1] == f[1] for g in part[:i]):
            lint.append(("L1002", fid, f[0]))
        if any(g[0] == f[0] for g in part[:i]):
            lint.append(("V1002", fid, f[0]))
    hd, ls = heading(env, "Value", fid, heads, pfx)
    lint += ls
    head = {"r": hd, "a": "Attribute", "d": "Description"}
    html = [hdr(env, *[head[o] for o in order if attr or o != "a"])] + rows
    return html, subs + [entity(fid, title, "values", fields)], lint


# ---------------------------------------------------------------- comparison
OF = {"R1001": ["P01", "P02"], "R1002": ["P01"], "T1001": ["P03"], "T1002": ["P03"], "T1004": ["P03"], "L1002": ["P04"], "V1002": ["P04"], "L1004": ["P05"], "L1003": ["P06", "P07"], "T1006": ["P14"]}
CODES = list(OF)


def compare(env, r, want, lint):
    def chk(props, cond, label):
        for q in props:
            env.check(q, cond, label)
    every = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P10", "P11", "P14", "P33"]
    chk(every, r.err is None, "the table is extracted")
    if r.err is not None:
        return
    got = [(e["fig_id"], e.get("parent_fig_id"), e.get("title"), e["type"]) for e in r.entities]
    exp = []
    for w in want:
        nested = "title" not in w
        exp.append((w["fig"], w["fig"].rsplit("_", 1)[0] if nested else None, w.get("title"), w["type"]))
    chk(["P11", "P10", "P07", "P14"], len(got) == len(exp), "number of entities")
    if len(got) != len(exp):
        return
    chk(["P11", "P14"], got == exp, "entities, their ids, parents, titles and types, parents last")
    for e, w in zip(r.entities, want):
        vt = w["type"] == "values"
        fs = e["fields"]
        own = ["P07"] if vt else ["P10"]
        chk(own + ["P33"], len(fs) == len(w["fields"]), "number of fields")
        if len(fs) != len(w["fields"]):
            continue
        for f, (key, lbl, brief) in zip(fs, w["fields"]):
            if vt:
                chk(["P07", "P33"], env.And(f["val"] == key, f["label"] == lbl), "value and label of the entry")
            else:
                if isinstance(key, tuple):
                    ok = isinstance(f["range"], dict) and type(f["range"]["low"]) is type(key[0]) and env.And(f["range"]["low"] == key[0], f["range"]["high"] == key[1])
                    chk(["P01", "P10", "P33"] if is_num(key[0]) else ["P02", "P10", "P33"], ok, "range of the field")
                else:
                    chk(["P01", "P02", "P10", "P33"], isinstance(f["range"], str) and f["range"] == key, "verbatim range of the field")
                chk(["P06", "P10", "P33"], f["label"] == lbl, "label of the field")
            if brief != "?":
                chk(["P08"], f.get("brief") == brief, "brief of the field")
            elif "brief" in f:
                chk(["P08"], len(f["brief"]) <= 60, "a short brief")
    g = [(x.code, x.fig, x.row) for x in r.lint if x.code in CODES or x.code == "T1007"]
    for c in CODES + ["T1007"]:
        a = [(x[1], x[2]) for x in g if x[0] == c]
        b = [(x[1], x[2]) for x in lint if x[0] == c and (c != "L1003" or True)]
        props = OF.get(c, []) + ["P33"]
        chk(props, len(a) == len(b), "number of " + c)
        if len(a) == len(b) and not (a == b):
            # in any order
            for x in b:
                chk(props, sum(1 for y in a if y == x) == sum(1 for y in b if y == x), c + " is filed under its figure and row")


def one_table(env, kind, n, attr, fid, title, pfx="", **k):
    if kind == "Value":
        return value_table(env, n, attr, fid, title, pfx=pfx, **k)
    return struct_table(env, kind, n, attr, fid, title, pfx=pfx, **k)


def wrap(env, where, kind, n, attr, title, **k):
    """a table at top level or inside others: (rows of the figure, entities, findings)"""
    if where == "top":
        return one_table(env, kind, n, attr, "12", title, **k)
    fid = {"bytes": "12_4", "value": "12_1h", "deep": "12_4_1h", "list": "12_n"}[where]
    rows, want, lint = one_table(env, kind, n, attr, fid, None, **k)
    h = nested(rows)
    if where in ("value", "deep"):
        up = "12" if where == "value" else "12_4"
        rows = [hdr(env, "Value", "Description"), tr(td(p(env, "0h")), td(p(env, "First one"))), tr(td(p(env, "1h")), td(p(env, "Next one") + h))]
        want = want + [entity(up, title if where == "value" else None, "values", [("0h", "FIRST_ONE", None), ("1h", "NEXT_ONE", "?")])]
        h = nested(rows)
    if where in ("bytes", "deep"):
        rows = [hdr(env, "Bytes", "Description"), tr(td(p(env, "7:4")), td(p(env, "Out (OUT)") + h)), tr(td(p(env, "8")), td(p(env, "Rest (RST)")))]
        want = want + [entity("12", title, "bytes", [((4, 7), "out", "?"), ((8, 8), "rst", None)])]
    if where == "list":
        rows = [hdr(env, "Bytes", "Description"), tr(td(p(env, "List"), colspan=2, tag="th")), tr(td(p(env, "n+3:n")), td(p(env, "Out (OUT)") + h))]
        want = want + [entity("12", title, "bytes", [(("n", "n+3"), "out", "?")])]
    return rows, want, lint


def h_table(env, kind="Bytes", n=2, attr=False, wraps=("top",), **k):
    title = "Figure 12: T"
    where = env.pick("where", list(wraps)) if len(wraps) > 1 else wraps[0]
    rows, want, lint = wrap(env, where, kind, n, attr, title, **k)
    r = extract(env, document(env, figure(env, title, rows)))
    env.out("r", r.out())
    compare(env, r, want, lint)


def h_schema(env, kind="Bytes", n=2, attr=False, **k):
    """the model file of such a table conforms to the schema"""
    from .files import judge_schema
    rows, _, _ = one_table(env, kind, n, attr, "12", "Figure 12: T", **k)
    judge_schema(env, document(env, figure(env, "Figure 12: T", rows)))
