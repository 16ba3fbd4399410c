"""P17 document quirks"""
from . import lib
from .lib import DIGITS, LETTERS, document, extract, figure, hdr, nested, p, td, tr

SPECS = [
    ("NVM Express\u00ae NVM Command Set Specification", "1.0c", "NvmCmdSet1c"),
    ("NVM Express\u00ae Zoned Namespace Command Set Specification", "1.1c", "NvmCsZoned11c"),
    ("NVM Express\u00ae Management Interface Specification", "1.2c", "NvmMi1_2c"),
    ("NVM Express\u00ae Key Value Command Set Specification", "1.0c", "NvmKv1_0c"),
    ("NVM Express\u00ae Key Value Command Set Specification", "1.0", "NvmKv1_0c"),
]


def chosen(env, spec, rev):
    from pathlib import Path
    from spex.jsonspec.parse import html_to_spec_doc
    from spex.jsonspec.parserargs import ParserArgs
    sd = html_to_spec_doc(document(env, "", spec=spec, rev=rev))
    return sd, sd.get_parser(ParserArgs(output_dir=Path(env.scratch)))


def h_choose(env, i=0, at=0, n=4, j=None, rev=None, cut=None):
    """title i with n characters at `at` symbolic, with the revision of entry j (symbolic case) or a symbolic one"""
    title, r0, cls = SPECS[i]
    if cut is None:
        t = title[:at] + env.text("t", min(n, len(title) - at)) + title[at + n:]
    else:
        # another length: `cut` characters give way to n arbitrary ones, anywhere
        at = env.pick("at", list(range(at, len(title) - cut + 1)))
        t = title[:at] + env.text("t", n) + title[at + cut:]
    if rev is not None:
        r = env.text("r", rev)
    else:
        r = SPECS[i if j is None else j][1]
        r = r[:-1] + env.text("r", 1)
    env.assume(env.And(t.strip() == t, r.strip() == r))
    ok, x = env.attempt(chosen, env, t, r)
    env.check("P17", ok, "a parser is chosen")
    if not ok:
        return
    sd, dp = x
    want = "DocumentParser"
    for ti, re, c in SPECS:
        if t.lower() == ti.lower() and r.lower() == re.lower():
            want = c
    env.out("cls", [type(dp).__name__, sd.key, sd.rev])
    env.check("P17", type(dp).__name__ == want, "the special parser for exactly the documents named")
    env.check("P17", sd.key == t.lower() and sd.rev == r.lower(), "title and revision in lower case")


def mkparser(labels, briefs):
    from spex.jsonspec.document import DocumentParser

    class P(DocumentParser):
        label_overrides = labels
        brief_overrides = briefs
    return P


def h_override(env, n=2, kind=None, keylen=1, figlen=1, attr=False):
    """symbolic figure id and row keys against an override table"""
    kind = kind or env.pick("kind", ["bits", "bytes", "values", "list"])
    fig = env.text("fig", figlen, DIGITS)
    env.assume(fig != "9")
    keys = []
    rows = []
    vt = kind == "values"
    for i in range(n):
        k = env.text("k%d" % i, keylen, (LETTERS[:3] if vt else "") + DIGITS)
        keys.append(k)
        ok = env.pick("s%d" % i, ["name", "nop", "res"] + (["plain"] if vt else []))
        d = {"name": p(env, "NAM" + "ABC"[i] + ": b" if vt else "Name (NAM" + "ABC"[i] + "): b"), "nop": "no paragraph: b", "res": p(env, "Reserved"), "plain": p(env, "x y z")}[ok]
        keys[-1] = (k, ok)
        cell = k if kind != "list" else "A:" + k
        rows.append(tr(td(p(env, cell)), *([td(p(env, "ATT" + "ABC"[i] + ": t") if ok != "nop" else "x")] if attr else []), td(d)))
    h = {"bits": "Bits", "bytes": "Bytes", "values": "Value", "list": "Bytes"}[kind]
    names = [h, "Attribute", "Description"] if attr else [h, "Description"]
    pre = [tr(td(p(env, "Some List"), colspan=len(names), tag="th"))] if kind == "list" else []
    html = document(env, figure(env, "Figure " + fig + ": T", [hdr(env, *names)] + pre + rows, ncols=len(names)) +
                    figure(env, "Figure 9: T", [hdr(env, *names), tr(td(p(env, "1")), *([td(p(env, "OTH: t"))] if attr else []), td(p(env, "OTH: c" if vt else "Other (OTH): c")))], ncols=len(names)))
    labels = {("1", "1"): "lone", ("1", "2"): "ltwo", ("2", "1"): "lthree"}
    if vt:
        labels[("1", "a")] = "la"
    briefs = {("1", "1"): "bone", ("2", "3"): "btwo"}
    r = extract(env, html, quirks={("some specification", "1.0"): mkparser(labels, briefs)})
    env.out("r", r.out())
    env.check("P17", r.err is None, "processed")
    if r.err is not None:
        return
    # which label and brief each row must have
    want = []
    fails = False
    expl = []
    for i, (k, ok) in enumerate(keys):
        key = k.lower() if vt or kind == "list" else str(int(k))
        lab = None
        bri = None
        for (f, rk), v in labels.items():
            if fig == f and key == rk:
                lab = v
        for (f, rk), v in briefs.items():
            if fig == f and key == rk:
                bri = v
        placeholder = ok == "res" and not vt
        if ok == "nop" and lab is None:
            fails = True
        want.append((i, key, ok, None if placeholder else lab, None if placeholder else bri))
    own = [e for e in r.entities if e["fig_id"] != "9"]
    oth = [e for e in r.entities if e["fig_id"] == "9"]
    env.check("P17", len(oth) == 1 and len(oth[0]["fields"]) == 1 and oth[0]["fields"][0]["label"].lower() == "oth" and oth[0]["fields"][0].get("brief") == "c", "other figures are unaffected")
    if fails:
        env.check("P17", len(own) == 0 and len(r.codes("T1000")) == 1, "without an override the failure stays")
        return
    env.check("P17", len(own) == 1 and len(own[0]["fields"]) == n, "one figure with all rows")
    if len(own) != 1 or len(own[0]["fields"]) != n:
        return
    fs = own[0]["fields"]
    if kind == "bits":
        fs = list(reversed(fs))
    for f, (i, key, ok, lab, bri) in zip(fs, want):
        if lab is not None:
            env.check("P17", f["label"] == lab, "the label is overridden")
        elif ok == "name":
            env.check("P17", f["label"].lower() == ("att" if attr else "nam") + "abc"[i], "other labels are unaffected")
        elif ok == "res":
            env.check("P17", f["label"].upper() == "RESERVED" or attr and f["label"].lower() == "att" + "abc"[i], "placeholders are unaffected")
        b = f.get("brief")
        if bri is not None:
            env.check("P17", b == bri, "the brief is overridden")
        elif ok in ("name", "nop"):
            env.check("P17", b == "b", "other briefs are unaffected")
        else:
            env.check("P17", b is None, "no brief without one")
    l7 = [(x.fig, x.row) for x in r.codes("L1007")]
    wl7 = [(fig, key) for _, key, _, lab, _ in want if lab is not None]
    env.check("P17", l7 == wl7, "L1007 for exactly the overridden rows")


def h_nested(env, kind="values"):
    """overrides of nested figures are keyed by the nested id"""
    k1 = env.text("a", 1, DIGITS)
    k2 = env.text("b", 1, DIGITS)
    inner = nested([hdr(env, "Value" if kind == "values" else "Bits", "Description"), tr(td(p(env, k2)), td(p(env, "INN: b" if kind == "values" else "Inner (INN): b")))])
    html = document(env, figure(env, "Figure 5: T", [hdr(env, "Bits", "Description"), tr(td(p(env, k1)), td(p(env, "Outer (OUT): b") + inner))]))
    labels = {("5_1", "2"): "x", ("5", "1"): "y", ("5_3", "3"): "z"}
    r = extract(env, html, quirks={("some specification", "1.0"): mkparser(labels, {("5_1", "2"): "bx"})})
    env.out("r", r.out())
    env.check("P17", r.err is None and len(r.entities) == 2, "processed")
    if r.err is not None or len(r.entities) != 2:
        return
    i, o = r.entities
    wi = "x" if k1 == "1" and k2 == "2" else "z" if k1 == "3" and k2 == "3" else "inn"
    env.check("P17", i["fields"][0]["label"].lower() == wi, "nested label")
    env.check("P17", o["fields"][0]["label"] == ("y" if k1 == "1" else "out"), "outer label")
    env.check("P17", i["fields"][0]["brief"] == ("bx" if k1 == "1" and k2 == "2" else "b"), "nested brief")
    env.check("P17", len(r.codes("L1007")) == (1 if k1 == "1" else 0) + (1 if wi != "inn" else 0), "L1007 for each")


NVM, MI, KV = SPECS[0], SPECS[2], SPECS[3]


# what the documents are known to need, by (figure, row)
POWER = {"00b": "none", "01b": "idle", "10b": "normal", "11b": "low"}
NEEDS = [
    dict([(("42_4", k), v) for k, v in POWER.items()] + [(("64_0_4", k), v) for k, v in POWER.items()]
         + [(("49_0_4", k), POWER[k]) for k in ("00b", "10b", "11b")] + [(("42_0_4", "01b"), "idle")]),
    {("37", "0"): "zt", ("37", "1"): "zs", ("37", "2"): "za"},
    {("19", "2"): "misc"},
    {},
    {},
]


AROUND = [("", ""), ("(", ")"), (" ", ""), ("", " "), ("", "x"), ("x", ""), ("0", ""), ("\u201c", "\u201d"), ("", "."), ("", ":")]


def h_real(env, i=0, depth=1, near=None, kind="Value", key=2, around=False):
    """the names the known documents lack: row `key` of a (nested) table, by figure numbers and keys that are symbolic"""
    title, rev, _ = SPECS[i]
    fig = env.text("fig", 2, DIGITS) if near is None else near[:-1] + env.text("fig", 1, DIGITS)
    env.assume(env.Not(env.Or(fig == "23", env.And(fig == "64", depth == 1), env.And(fig == "41", kind == "Bits"), env.And(fig == "41", depth > 1))))
    path = [env.text("m%d" % j, 1, DIGITS) for j in range(depth - 1)]
    k = env.text("k", key, DIGITS) + ("b" if kind == "Value" and i == 0 else "")
    if around:
        # a key that only resembles one in the list: blanks and case are ignored, nothing else is
        a, b = env.pick("around", AROUND)
        up = kind == "Value" and env.flag("upper")
        shown = a + (k.upper() if up else k) + b
        if kind == "Value" or a != "0":
            k = (a + k + b).strip()
    else:
        shown = k
    inner = [hdr(env, kind, "Description"), tr(td(p(env, shown)), td(p(env, "NAM: b" if kind == "Value" else "Name (NAM): b")))]
    for m in reversed(path):
        inner = [hdr(env, "Bits", "Description"), tr(td(p(env, m)), td(p(env, "Outer (OUT): b") + nested(inner)))]
    r = extract(env, document(env, figure(env, "Figure " + fig + ": T", inner), spec=title, rev=rev))
    env.out("r", r.out())
    env.check("P17", r.err is None and len(r.entities) == depth, "processed")
    if r.err is not None or len(r.entities) != depth:
        return
    fid = fig
    want = []
    for m in path + [k]:
        lab = None
        for (a, b), v in NEEDS[i].items():
            if fid == a and m == b:
                lab = v
        want.append((fid, m, lab))
        fid = fid + "_" + m
    for e, (a, b, lab) in zip(reversed(r.entities), want):
        env.check("P17", e["fig_id"] == a, "the table's id")
        own = "out" if e is not r.entities[0] else "NAM" if kind == "Value" else "nam"
        env.check("P17", e["fields"][0]["label"] == (lab if lab is not None else own), "the name the document needs, and no other")
    env.check("P17", sorted([(x.fig, x.row) for x in r.codes("L1007")]) == sorted([(a, b) for a, b, lab in want if lab is not None]), "L1007 for it")


def field(env, cell, acr, brief="b"):
    return tr(td(p(env, cell)), td(p(env, "Name (" + acr + "): " + brief)))


def h_second(env, n=1, doc=None, before=2, after=2, third=False):
    """a second figure within the table of a figure: its caption is a row that spans the table"""
    title, rev, fid, nxt = doc or env.pick("doc", [NVM[:2] + ("23", "24"), MI[:2] + ("64", "65")])
    word = "".join([env.pick("w%d" % i, [a, b]) for i, (a, b) in enumerate(("fF", "iI", "gG"))]) + env.pick("w", ["ure", "URE", "urE"])
    env.assume(word == "Figure" or env.flag("cased"))
    rest = env.text("r", n)
    env.assume(env.And(rest.strip() == rest, rest[:1].isdecimal() == False))  # noqa: E712
    cap = env.pick("pre", ["", " ", "\n"]) + word + " " + nxt + rest
    kind = env.pick("kind", ["Bits", "Bytes", "Value", "Foo", "fail"])
    skip = env.flag("skip")
    rows = [hdr(env, "Bits", "Description")]
    for i in range(before):
        rows.append(field(env, "%d" % (40 - i), "NA" + "ABCD"[i]))
    rows.append(tr(td(p(env, cap), colspan=2)))
    rows.append(hdr(env, "Bits" if kind == "fail" else kind, "Description"))
    for i in range(after):
        rows.append(tr(td(p(env, "%d" % (30 - i if kind != "Bytes" else i))), td(p(env, "NB" + "ABCD"[i] + ": b" if kind == "Value" else "Name (NB" + "ABCD"[i] + "): b"))))
    if kind == "fail":
        rows.append(tr(td(p(env, "7")), td("no paragraph")))
    html = document(env, figure(env, "Figure " + fid + ": T", rows) + figure(env, "Figure 99: T", [hdr(env, "Bits", "Description"), field(env, "1", "OTH")]), spec=title, rev=rev)
    r = extract(env, html, skip=skip)
    env.out("r", r.out())
    bad = kind == "fail" and not skip
    env.check("P17", (r.err is not None) == bad, "the run fails only with the second figure")
    ids = [e["fig_id"] for e in r.entities]
    want = [fid] + ([nxt] if kind in ("Bits", "Bytes", "Value") else []) + ([] if bad else ["99"])
    env.check("P17", ids == want, "the second figure has an entity of its own, behind the first")
    if ids != want:
        return
    lab = [f["label"].lower() for f in r.entities[0]["fields"]]
    env.check("P17", lab == ["na" + "abcd"[i] for i in range(before)][::-1], "the first figure has exactly the rows before it")
    if nxt in ids:
        e = r.entities[1]
        lab = [f["label"].lower() for f in e["fields"]]
        w = ["nb" + "abcd"[i] for i in range(after)]
        env.check("P17", lab == (w[::-1] if kind == "Bits" else w), "the second figure has exactly the rows behind its heading")
        env.check("P17", e["type"] == {"Value": "values"}.get(kind, kind.lower()) and "parent_fig_id" not in e, "as a figure of its own")
        if word == "Figure":
            env.check("P17", e.get("title", "").strip() == cap.strip(), "under its own title")
    env.check("P17", [x.fig for x in r.codes("T1007")] == ([nxt] if kind == "Foo" else []), "T1007 when its columns are unknown")
    t = [x.fig for x in r.codes("T1000")]
    env.check("P17", t[:1] == ([nxt] if kind == "fail" else []) and (len(t) < 2 or not skip), "T1000 when it fails")


def h_remark(env, n=2):
    """the remark within figure 41 of the key value documents"""
    i = env.pick("doc", [3, 4, 0])
    fid = env.pick("fig", ["41", "40"])
    pre = env.text("t", n)
    env.assume(env.And(pre.strip() == pre, env.Not(pre.lower().startswith("note")), env.Not(pre.startswith(lib.ELL))))
    html = document(env, figure(env, "Figure " + fid + ": T", [hdr(env, "Bytes", "Description"), field(env, "0", "NAA"), tr(td(p(env, pre + "(refer to Figure 39)."), colspan=2)), field(env, "1", "NAB")]), spec=SPECS[i][0], rev=SPECS[i][1])
    r = extract(env, html, skip=False)
    env.out("r", r.out())
    env.check("P17", r.err is None and len(r.entities) == 1, "the figure is extracted")
    if r.err is None and len(r.entities) == 1:
        env.check("P17", [f["label"] for f in r.entities[0]["fields"]] == ["naa", "nab"], "with all rows but the remark")


def h_stray(env, n=1, m=1):
    """a row of one cell in the figures with rules of their own, which is not the row they name: it fails as any other"""
    i = env.pick("doc", [0, 2, 3])
    fid, core = [("23", "Figure 24"), None, ("64", "Figure 65"), ("41", "(refer to Figure 39).")][i]
    how = env.pick("how", ["around", "cut", "case", "digit"])
    if how == "around":
        txt = env.text("t", n) + core + env.text("u", m)
    elif how == "cut":
        k = env.pick("k", list(range(len(core))))
        txt = core[:k] + core[k + 1:]
    elif how == "digit":
        k = env.pick("k", [j for j, c in enumerate(core) if c in "0123456789"])
        txt = core[:k] + env.text("d", 1) + core[k + 1:]
    else:
        txt = core.upper()
    s = txt.strip()
    match = s.endswith(core) if i == 3 else s.lower().startswith(core.lower())
    env.assume(env.Not(match))
    env.assume(env.And(env.Not(s.lower().startswith("note")), env.Not(s.startswith(lib.ELL)), env.Not(s == "")))
    skip = env.flag("skip")
    kind = "Bytes" if i == 3 else "Bits"
    before = env.pick("before", [0, 2])
    rows = [hdr(env, kind, "Description")] + [field(env, str(j if i == 3 else 9 - j), "NA" + "AB"[j]) for j in range(before)]
    rows += [tr(td(p(env, txt), colspan=2)), hdr(env, kind, "Description"), field(env, "5", "NAC")]
    html = document(env, figure(env, "Figure " + fid + ": T", rows) + figure(env, "Figure 99: T", [hdr(env, "Bits", "Description"), field(env, "1", "OTH")]), spec=SPECS[i][0], rev=SPECS[i][1])
    r = extract(env, html, skip=skip)
    env.out("r", r.out())
    env.check("P17", (r.err is None) == skip, "the row fails, and the figure with it")
    env.check("P13", (r.err is None) == skip, "a row that cannot be read fails the run, unless figures may be skipped")
    env.check("P17", [e["fig_id"] for e in r.entities] == (["99"] if skip else []), "nothing of the figure is emitted")
    env.check("P17", [x.fig for x in r.codes("T1000")] == [fid], "T1000 names it")
