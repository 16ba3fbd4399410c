"""P04 duplicates, P05 identifiers, P07 entries (value tables)"""
from . import lib
from .lib import ELL, document, extract, figure, hdr, p, td, tr
from .struct import acro, check_dups, one, valid_label


def vt(env, rows, attr=False, names=("Value", "Description")):
    h = hdr(env, "Value", "Attribute", "Description") if attr else hdr(env, *names)
    return document(env, figure(env, "Figure 12: T", [h] + rows))


def h_val(env, n=3, chars=None):
    """any value text"""
    v = env.text("v", n, chars)
    t = v.strip()
    rows = [tr(td(p(env, "00h")), td(p(env, "First"))), tr(td(p(env, v)), td(p(env, "Second: text"))), tr(td(p(env, "ffh")), td(p(env, "Third")))]
    r = extract(env, vt(env, rows))
    env.out("r", r.out())
    e = one(env, "P07", r)
    if e is None:
        return
    fs = e["fields"]
    env.check("P07", len(fs) == 3 and e["type"] == "values", "one entry per row")
    if len(fs) != 3:
        return
    f = fs[1]
    env.check("P07", f["val"] == t.lower(), "val is the trimmed lower-case text")
    if t == ELL:
        env.check("P07", f["label"] == ELL, "ellipsis entry")
    else:
        env.check("P07", f["label"] == "SECOND" and f.get("brief") == "text", "label and brief of the row")
    env.check("P07", fs[0]["val"] == "00h" and fs[2]["val"] == "ffh" and fs[0]["label"] == "FIRST" and fs[2]["label"] == "THIRD", "other rows unaltered")


def name_part(s):
    out = ""
    for c in s:
        if not (c.isalnum() or c == "_" or c.isspace() or c == "/" or c == "-"):
            break
        out = out + c
    return out


def h_label(env, n=3, pre="", post="", chars=None, names=("Value", "Description")):
    """any definition text"""
    d = pre + env.text("d", n, chars) + post
    t = d.strip()
    rows = [tr(td(p(env, "7h")), td(p(env, d)))]
    r = extract(env, vt(env, rows, names=names))
    env.out("r", r.out())
    e = one(env, "P07", r)
    if e is None:
        return
    fs = e["fields"]
    env.check("P07", len(fs) == 1, "one entry per row")
    if len(fs) != 1:
        return
    f = fs[0]
    env.check("P07", f["val"] == "7h", "val")
    lbl = f["label"]
    l4 = r.codes("L1004")
    if t.upper() == "RESERVED":
        env.check("P07", lbl == "RESERVED", "reserved entry")
        return
    nm = name_part(t)
    if nm == "":
        env.check("P07", len(r.codes("L1000")) == 1, "L1000 when there is no name")
    else:
        i = 0
        while i < len(nm) and nm[i].isdecimal():
            i += 1
        num, rest = nm[:i], nm[i:]
        want = acro(rest).upper() if i else acro(nm).upper()
        if i:
            want = (want.strip("_") + "_" + num).strip("_")
        if i and any(c.isspace() and c != " " for c in rest):
            env.check("P07", "".join(c for c in lbl if c.isalnum()) == "".join(c for c in rest + num if c.isalnum()).upper(), "label keeps the name part")
        else:
            env.check("P07", (lbl.strip("_") if i else lbl) == want, "label is the name part, normalised")
        env.check("P07", len(r.codes("L1000")) == 0, "no L1000 with a name")
    if len(l4) == 0:
        env.check("P05", valid_label(env, lbl), "label is an identifier when L1004 is not reported")
    else:
        env.check("P05", env.Not(env.And(t != "", env.matches(t, lib.LETTERS + " "))), "no L1004 for a name of letters and blanks")
        env.check("P05", len(l4) == 1 and l4[0].row == "7h", "L1004 names the row")


def h_attr(env, n=3, post=": x", chars=None):
    d = env.text("d", n, chars)
    env.assume(d.strip() != "")
    t = (d + post).strip()
    rows = [tr(td(p(env, "7h")), td(p(env, d + post)), td(p(env, "Some description: brief")))]
    r = extract(env, vt(env, rows, attr=True))
    env.out("r", r.out())
    e = one(env, "P07", r)
    if e is None:
        return
    fs = e["fields"]
    env.check("P07", len(fs) == 1, "one entry per row")
    if len(fs) != 1:
        return
    f = fs[0]
    l4 = r.codes("L1004")
    if len(l4) == 0:
        env.check("P05", valid_label(env, f["label"]), "label is an identifier when L1004 is not reported")
    else:
        env.check("P05", env.Not(env.matches(d, lib.LETTERS)), "no L1004 for a name of letters")
        env.check("P05", l4[0].row == "7h", "L1004 names the row")
    if t.upper() == "RESERVED":
        env.check("P07", f["label"] == "RESERVED", "reserved entry")
        return
    pre = t.split(":", 1)[0]
    if ":" in t and pre != "" and env.matches(pre[0], lib.LETTERS) and env.matches(pre[-1], lib.LETTERS + lib.DIGITS) and env.matches(pre, lib.LETTERS + lib.DIGITS + " -_/"):
        env.check("P07", f["label"] == acro(pre).upper(), "label from the attribute column")
    elif pre != "" and env.matches(pre[-1], lib.LETTERS) and env.matches(pre, lib.LETTERS + " "):
        env.check("P07", f["label"] == acro(pre).upper(), "label from the attribute column")
    l3 = r.codes("L1003")
    env.check("P07", (len(l3) == 0) == (":" in t), "L1003 exactly without an explicit name")


def h_dup(env, n=3, chars="abAB", vchars="01h", length=1, special=False, vlen=1):
    rows = []
    for i in range(n):
        k = env.pick("k%d" % i, ["name", "res", "ell1", "ellv"]) if special else "name"
        if k == "ell1":
            rows.append(tr(td(p(env, ELL), colspan=2)))
            continue
        v = env.text("v%d" % i, vlen, vchars) if vchars else "%dh" % i
        t = env.text("t%d" % i, length, chars) if chars else "N" + "ABCDEFG"[i]
        rows.append(tr(td(p(env, ELL if k == "ellv" else v)), td(p(env, "rEserved" if k == "res" else t + ": x"))))
    r = extract(env, vt(env, rows))
    env.out("r", r.out())
    e = one(env, "P04", r)
    if e is None:
        return
    fs = e["fields"]
    env.check("P04", len(fs) == n, "one entry per row")
    check_dups(env, fs, r.codes("L1002"), lambda f: f["val"])
    want = []
    part = [f for f in fs if not (f["label"] == "RESERVED" or f["label"] == ELL)]
    for i, f in enumerate(part):
        for g in part[:i]:
            if g["val"] == f["val"]:
                want.append(f["val"])
                break
    got = r.codes("V1002")
    env.check("P04", len(got) == len(want), "V1002 exactly for repeated values")
    if len(got) == len(want):
        for a, b in zip(got, want):
            env.check("P04", a.row == b, "V1002 names the repeating row")


def h_rows(env, n=3, attr=False, free=None, opts=None):
    """rows of every kind; remarks are rows of a single cell (`free`: with an arbitrary text)"""
    rows = []
    want = []
    ended = False
    for i in range(n):
        k = env.pick("k%d" % i, opts or ["plain", "res", "ell1", "ellv", "th", "notes", "wide"])
        a = [td(p(env, "NM%s: x" % "ABCDEFG"[i]))] if attr else []
        w = 3 if attr else 2
        f = None
        if k == "plain":
            rows.append(tr(td(p(env, " %dH" % i)), *a, td(p(env, "nm%s: x" % "ABCDEFG"[i]))))
            f = dict(val="%dh" % i, label="NM" + "ABCDEFG"[i])
        elif k == "res":
            x = env.pick("x%d" % i, ["Reserved", "reserved", "RESERVED", " Reserved "])
            rows.append(tr(td(p(env, "%d to 9" % i)), *([td(p(env, x))] if attr else []), td(p(env, x))))
            f = dict(val="%d to 9" % i, label="RESERVED")
        elif k == "ell1":
            rows.append(tr(td(p(env, ELL), colspan=w)))
            f = dict(val=ELL, label=ELL)
        elif k == "ellv":
            rows.append(tr(td(p(env, ELL)), *a, td(p(env, ELL))))
            f = dict(val=ELL, label=ELL)
        elif k == "th":
            rows.append(tr(td(p(env, "Section"), colspan=w, tag="th")))
        elif k == "headed":
            # a heading cell with any text, or with none, beside the other cells
            x = env.text("h%d" % i, 1) if env.flag("hs%d" % i) else ""
            row = [td(p(env, " %dH" % i)), *a, td(p(env, "nm%s: x" % "ABCDEFG"[i]))]
            row.insert(env.pick("hp%d" % i, [0, len(row)]), td(p(env, x), tag="th"))
            rows.append(tr(*row) if env.flag("hw%d" % i) else tr(td(p(env, x), colspan=w, tag="th")))
        elif k == "wide":
            if not free or i:
                x = env.pick("q%d" % i, ["Some remark", "Noteworthy", "note 1", "see Notes: 2"][:1 if free else 4])
            else:
                x = env.text("y%d" % i, free[0], free[1])
                t = x.strip().lower()
                env.assume(env.And(t != "", env.Not(t.startswith("notes:")), env.Not(t.startswith(ELL))))
            rows.append(tr(td(p(env, x), colspan=w)))
        else:
            rows.append(tr(td(p(env, env.pick("z%d" % i, ["Notes: 1", "NOTES:", "notes: x"])), colspan=w)))
            ended = True
        if f is not None and not ended:
            want.append(f)
    r = extract(env, vt(env, rows, attr=attr))
    env.out("r", r.out())
    e = one(env, "P07", r)
    if e is None:
        return
    got = [dict(val=f["val"], label=f["label"]) for f in e["fields"]]
    env.check("P07", got == want, "one entry per data row in document order")
