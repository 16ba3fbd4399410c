"""Which harnesses decide which property, with which shape parameters."""

from symx.alpha import DIGITS, LETTERS

ATTRW = ("imputed", "blanks", "named", "chars", "dup", "res")
MANYCODES = ("T1000", "T1001", "T1002", "T1006")


def H(module, fn, quick, thorough=None):
    d = dict(module=module, fn=fn, quick=quick)
    if thorough is not None:
        d["thorough"] = thorough
    return d


lib_ELL = "\u2026"
BARE = ["heading", "caption", "foreign", "foreign heading", "half", "swap", "empty row"]

KEYS = ("num", "blank", "one", "zero", "rev", "gap", "over", "formula", "same formula", "text", "hex", "list", "empty", "paren", "sym", "symtext")
NAMES = ("acr", "dup", "Dup", "words", "digits", "res", "RES", "obs", "ell", "bad", "under", "hyphen", "dotted", "note", "sym")
VKEYS = ("num", "upper", "zero", "same", "text", "empty", "dots", "paren", "first", "long", "sym")
VNAMES = ("acr", "dup", "Dup", "words", "number", "res", "RES", "obs", "bad", "sym")
VKEYS1 = tuple(k for k in VKEYS if k not in ("paren", "first", "long"))
ROWS = ("data", "th", "List", "More List", "wide", "ell", "skip", "skip ell", "end")
VROWS = ("data", "th", "wide", "ell", "ell val", "end")
DECOR = ("none", "list", "para", "values", "bits", "list values", "values list", "para bits", "two", "two apart", "foreign", "foreign values")
HEADS = ("usual", "other")
WRAPS = ("top", "bytes", "value", "deep", "list")
ORDERS = ("rad", "dra", "adr", "rda")


def mixed(*quick, deep=1):
    """tables of every kind of row against the reference model; thorough: one row more, and everything at once"""
    big = [dict(kind=k, n=n, attr=a, keys=KEYS, names=NAMES, rowkinds=ROWS, decors=DECOR, briefs=8, orders=ORDERS, wraps=WRAPS, heads=HEADS) for k in ("Bytes", "Bits") for a in (False, True) for n in (2, 4)]
    bigv = [dict(kind="Value", n=n, attr=a, keys=VKEYS, names=VNAMES, rowkinds=VROWS, decors=DECOR, briefs=3, orders=ORDERS, wraps=WRAPS, heads=HEADS) for a in (False, True) for n in (2, 4)]
    kinds = {q["kind"] for q in quick}
    return H("mixed", "h_table", list(quick), list(quick) + [dict(q, n=q["n"] + deep, wraps=WRAPS) for q in quick] + (bigv if "Value" in kinds else []) + (big if kinds - {"Value"} else []))


REGISTRY = {}

REGISTRY["P01"] = dict(
    budget_quick=60,
    harnesses=[
        mixed(dict(kind="Bytes", n=2, keys=("num", "rev", "text", "over"), briefs=1, wraps=WRAPS), dict(kind="Bytes", n=2, keys=KEYS, names=("acr", "res"), briefs=1), dict(kind="Bits", n=2, attr=True, keys=KEYS, names=("acr",), rowkinds=("data", "th", "wide"), briefs=1)),
        H("ranges", "h_free", [dict(kind=k, n=n) for n in (1, 2, 3) for k in ("Bytes", "Bits")] + [dict(kind="Bits", n=4, ix=1)],
          [dict(kind=k, n=n, ix=i) for n in (1, 2, 3, 4, 5, 6) for k in ("Bytes", "Bits") for i in (0, 1)]),
        H("ranges", "h_shape",
          [dict(kind="Bits", high=3, low=3), dict(kind="Bytes", high=4, low=4), dict(kind="Bytes", high=2, low=1, ws=(0, 2, 2, 0)),
           dict(kind="Bits", high=2, low=2, ws=(1, 1, 1, 1)), dict(kind="Bits", high=2, low=2, junk=1),
           dict(kind="Bytes", high=5, low=None, ws=(1, 1, 0, 0)), dict(kind="Bytes", high=2, low=None, junk=2),
           dict(kind="Bytes", high=1, low=2, ws=(0, 0, 3, 0), ix=1),
           dict(kind="Bytes", high=2, low=1, big="900719925474099"), dict(kind="Bits", high=1, low=1, big="7" * 40)],
          [dict(kind=k, high=h, low=l, ws=w, junk=j, ix=1) for k in ("Bits", "Bytes") for h in (1, 2, 3, 5, 7) for l in (None, 1, 2, 3, 5)
           for w, j in (((0, 0, 0, 0), 0), ((1, 1, 1, 1), 0), ((0, 0, 0, 0), 2), ((0, 3, 3, 0), 0))]
          + [dict(kind=k, high=h, low=h, big="9" * b) for k in ("Bits", "Bytes") for h in (1, 2) for b in (7, 15, 40, 300)]),
    ],
    bounds="range cells of up to 4 arbitrary characters (thorough 6) and structured cells with numbers of up to 5 (7) digits (and of up to 41 (302) of which 1 to 2 are arbitrary), up to 3 blanks between and 2 trailing arbitrary characters; tables of two rows, the symbolic row first or second",
)
REGISTRY["P02"] = dict(
    budget_quick=120,
    harnesses=[
        mixed(dict(kind="Bits", n=2, keys=("num", "formula", "text", "paren"), rowkinds=("data", "List"), briefs=1, wraps=WRAPS[1:]), dict(kind="Bytes", n=3, keys=("num", "formula", "text", "one"), rowkinds=("data", "List", "th", "More List"), briefs=1), dict(kind="Bits", n=4, keys=("same formula", "text"), rowkinds=("data", "List", "More List"), briefs=1), dict(kind="Bits", attr=True, n=2, keys=KEYS, names=("acr", "res"), rowkinds=("data", "List"), briefs=1)),
        H("ranges", "h_dyn", [dict(kind="Bytes", n=n) for n in (1, 2, 3)] + [dict(kind="Bits", n=3)],
          [dict(kind=k, n=n) for k in ("Bytes", "Bits") for n in (1, 2, 3, 4, 5)]),
        H("ranges", "h_dyn_shape", [dict(a=1, b=1, junk=1), dict(a=3, b=2), dict(a=2, b=3, kind="Bits"), dict(a=1, b=1, junk=2), dict(a=4, b=1)],
          [dict(a=a, b=b, junk=j, kind=k) for a in (1, 2, 4, 6) for b in (1, 2, 4, 6) for j in (0, 1, 2) for k in ("Bytes", "Bits")]),
        H("ranges", "h_dyn_before", [dict(n=3), dict(n=2, kind="Bits")], [dict(n=n, kind=k) for n in (1, 2, 3, 4) for k in ("Bytes", "Bits")]),
        H("ranges", "h_dyn_mode", [dict(n=3), dict(n=3, kind="Bits")], [dict(n=n, kind=k, digits=d) for n, d in ((3, 2), (4, 1)) for k in ("Bytes", "Bits")]),
    ],
    bounds="range cells of up to 3 arbitrary characters (thorough 5), formula pairs of up to 4 + 3 (6 + 6) formula characters with up to 2 arbitrary trailing characters",
)

K2 = ("Bytes", "Bits")
REGISTRY["P03"] = dict(
    budget_quick=60,
    harnesses=[
        mixed(dict(kind="Bits", n=2, keys=("num", "rev", "gap", "over"), names=("acr", "ell"), briefs=1, wraps=WRAPS), dict(kind="Bytes", n=3, keys=("num", "gap", "over"), names=("acr", "res", "obs", "ell"), briefs=1), dict(kind="Bits", n=2, keys=KEYS, names=("acr", "dup", "RES", "obs", "ell"), briefs=1), dict(kind="Bits", n=3, attr=True, keys=("num", "gap", "over", "rev"), names=("acr", "obs"), rowkinds=("data", "th", "wide", "ell"), briefs=1)),
        H("struct", "h_layout",
          [dict(kind="Bytes", n=3), dict(kind="Bits", n=3), dict(kind="Bytes", n=4, kinds=("one",)), dict(kind="Bits", n=4, kinds=("one",)),
           dict(kind="Bytes", n=3, kinds=("one", "num", "res", "ell1", "text", "ell")), dict(kind="Bits", n=3, kinds=("one", "res", "ell1", "text")),
           dict(kind="Bytes", n=2, kinds=("num", "named")), dict(kind="Bits", n=3, kinds=("one", "named")),
           dict(kind="Bits", n=2, digits=2), dict(kind="Bytes", n=2, digits=2), dict(kind="Bytes", n=5, kinds=("one",))],
          [dict(kind=k, n=n, digits=d, kinds=ks) for k in K2 for n, d, ks in (
              (2, 1, ("num",)), (3, 1, ("num",)), (4, 1, ("num",)), (2, 3, ("num",)), (3, 2, ("num",)), (5, 1, ("one",)), (4, 2, ("one",)),
              (3, 1, ("one", "num", "res", "obs", "ell1", "ell", "text")), (4, 1, ("one", "num", "ell1", "text")), (5, 1, ("one", "ell1")), (6, 1, ("one",)))]),
        H("struct", "h_t1004_dup", [dict(kind="Bytes"), dict(kind="Bits")], [dict(kind=k, n=n, digits=d) for k in K2 for n, d in ((2, 1), (3, 1), (4, 1), (3, 2))]),
    ],
    bounds="tables of 2 to 5 (thorough 6) rows with bounds of 1 to 2 (3) symbolic digits, mixed with reserved, ellipsis and non-numeric rows in every order",
)
REGISTRY["P04"] = dict(
    budget_quick=60,
    harnesses=[
        mixed(dict(kind="Value", n=2, keys=("num", "same", "first"), names=("acr", "dup", "RES"), briefs=1, wraps=WRAPS), dict(kind="Value", n=5, keys=("num", "first"), names=("acr",), briefs=1), dict(kind="Value", n=5, names=("acr", "dup"), briefs=1), dict(kind="Bytes", n=3, names=NAMES, briefs=1), dict(kind="Value", n=2, keys=VKEYS1, names=VNAMES, briefs=1), dict(kind="Value", n=3, keys=("num", "same", "zero"), names=("acr", "dup", "res"), rowkinds=("data", "ell"), briefs=1), dict(kind="Bits", n=3, keys=("num", "text"), names=("dup", "Dup", "obs", "words"), rowkinds=("data", "th"), briefs=1)),
        H("struct", "h_dup",
          [dict(kind="Bytes", n=3), dict(kind="Bits", n=3, chars="abA1"), dict(kind="Bits", n=4, chars="xXy"), dict(kind="Bytes", n=2, length=2, chars=None),
           dict(kind="Bytes", n=3, special=True, chars="aA"), dict(kind="Bytes", n=2, length=4, chars=None, equal=True), dict(kind="Bits", n=2, length=3, chars=None, equal=True, attr=True), dict(kind="Bits", n=3, attr=True, chars="abA"), dict(kind="Bits", n=3, special=True, attr=True, chars="a")],
          [dict(kind=k, n=n, chars=c, length=l, special=s, attr=a) for k in K2 for a in (False, True)
           for n, c, l, s in ((4, "abAB", 1, False), (3, "ab_-A ", 2, False), (2, None, 3, False), (4, "aA", 1, True), (5, "ab", 1, False))]),
        H("values", "h_dup",
          [dict(n=3, vchars=None), dict(n=3, chars=None), dict(n=3, chars="aA", vchars="1hH"), dict(n=3, special=True, chars="aA", vchars="1"), dict(n=4, chars="ab", vchars="1"), dict(n=2, chars=None, vchars=lib_ELL + "1 ", vlen=2)],
          [dict(n=n, chars=c, vchars=v, length=l, special=s) for n, c, v, l, s in (
              (4, "abA", "1hH", 1, False), (3, "ab- /", "1", 2, False), (4, "aA", "1h", 1, True), (5, "ab", None, 1, False), (2, None, None, 3, False) if False else (2, "aAbé", "1hH…", 2, True))]),
    ],
    bounds="tables of 2 to 4 (thorough 5) rows whose labels and values are symbolic texts of 1 to 2 characters (case variants, separators, arbitrary characters), mixed with reserved and ellipsis rows",
)
REGISTRY["P05"] = dict(
    harnesses=[
        mixed(dict(kind="Value", n=1, names=("bad", "acr", "number"), briefs=2, wraps=WRAPS), dict(kind="Bits", n=2, attr=True, names=NAMES, briefs=2), dict(kind="Value", n=2, names=VNAMES, attr=True, briefs=2), dict(kind="Bytes", n=2, keys=("num", "text", "formula"), names=("bad", "acr", "under"), rowkinds=("data", "List"), briefs=1)),
        H("struct", "h_ident", [dict(n=1), dict(n=2), dict(n=3), dict(n=2, attr=True), dict(n=3, attr=True, kind="Bits"), dict(n=4, kind="Bits", chars="aZ1_.… ()-/é:\n"), dict(n=2, lead="A" * 70, attr=True), dict(n=2, lead="Ab " * 20)],
          [dict(n=n, attr=a, kind=k) for n in (1, 2, 3, 4, 5) for a in (False, True) for k in K2] + [dict(n=6, chars="aZ1_.… ()-/é:\n", attr=a) for a in (False, True)]),
        H("values", "h_label", [dict(n=1), dict(n=2), dict(n=3), dict(n=3, post=": some text")], [dict(n=n, post=q) for n in (1, 2, 3, 4, 5) for q in ("", ": some text")]),
        H("values", "h_attr", [dict(n=1), dict(n=2), dict(n=2, post=""), dict(n=3)], [dict(n=n, post=q) for n in (1, 2, 3, 4) for q in ("", ": x")]),
    ],
    bounds="name texts of up to 3 arbitrary characters (thorough 5) and up to 4 (6) from a set of awkward ones, and names of 60 to 70 characters of which the last two are arbitrary, with and without attribute column, in all three table types",
)
REGISTRY["P06"] = dict(
    budget_quick=75,
    harnesses=[
        mixed(dict(kind="Bytes", n=1, names=NAMES, briefs=1, wraps=WRAPS[1:]), dict(kind="Bits", n=2, names=NAMES, briefs=4), dict(kind="Bytes", n=2, attr=True, names=NAMES, briefs=2, keys=("num", "text"))),
        H("struct", "h_name",
          [dict(words=(3,)), dict(words=(2, 1), kind="Bytes"), dict(words=(1, 2, 1), brief=2), dict(words=(2,), acr=3), dict(words=(1, 1), acr=4, sp=False), dict(words=(2, 1), acr=2, brief=2, kind="Bytes"),
           dict(words=(8,)), dict(words=(1, 1, 1, 1), gap=2), dict(words=(1, 1), gap=2, free=True), dict(words=(1, 1, 1), free=True, kind="Bytes"), dict(words=(1, 1), acr=1, free=True), dict(words=(1,) * 10, chars="Az"), dict(words=(1,) * 17, chars="q", kind="Bytes")],
          [dict(words=w, acr=a, brief=b, kind=k, gap=g, sp=s) for k in K2 for w in ((3,), (2, 1), (1, 2, 1), (2, 2, 2)) for a in (None, 1, 3, 5) for b in (None, 3) for g, s in ((1, True), (2, False))] + [dict(words=(8,), kind=k) for k in K2]
          + [dict(words=w, gap=g, acr=a, free=True) for w in ((1, 1), (2, 1), (1, 1, 1)) for g in (1, 2, 3) for a in (None, 2)]),
        H("struct", "h_attr",
          [dict(n=2), dict(n=3), dict(words=(2, 2)), dict(words=(3,), kind="Bytes"), dict(words=(1, 1, 2)), dict(n=4, chars="ab -_", kind="Bytes"), dict(words=(1, 1), gap=2), dict(words=(1, 2, 1), gap=1), dict(words=(1,) * 10)],
          [dict(n=n, rest=q, kind=k) for n in (1, 2, 3, 4, 5) for q in (0, 2) for k in K2] + [dict(words=w) for w in ((1,), (2, 2), (1, 1, 1, 1))] + [dict(n=5, chars="ab -_"), dict(n=6, chars="ab -_/")]),
        H("struct", "h_reserved", [dict(kind="Bits"), dict(kind="Bytes", attr=True)], [dict(kind=k, attr=a) for k in K2 for a in (False, True)]),
    ],
    bounds="names of 1 to 4 symbolic words of up to 3 (8 for a single word) letters, and of 10 and 17 one-letter words, acronyms of up to 4 (thorough 5) name characters and blanks, attribute texts of up to 3 (5) arbitrary name characters",
)
REGISTRY["P07"] = dict(
    budget_quick=60,
    harnesses=[
        mixed(dict(kind="Value", n=1, keys=VKEYS, names=VNAMES, briefs=1, wraps=WRAPS[1:]), dict(kind="Value", n=2, keys=VKEYS1, names=VNAMES, briefs=1), dict(kind="Value", n=2, attr=True, keys=VKEYS1, names=("acr", "words", "RES", "number"), rowkinds=("data", "ell", "ell val"), briefs=1), dict(kind="Value", n=3, names=("acr", "dup", "number"), rowkinds=VROWS, briefs=1), dict(kind="Value", n=1, keys=VKEYS, names=VNAMES, decors=DECOR, briefs=1)),
        H("values", "h_val", [dict(n=1), dict(n=2), dict(n=3)], [dict(n=n) for n in (1, 2, 3, 4, 5)]),
        H("values", "h_label", [dict(n=1), dict(n=2), dict(n=3), dict(n=3, pre="32", chars=None), dict(n=2, pre="a"), dict(n=3, pre="a", post="b", chars=" -_/1a"), dict(n=8, chars="reservdRESV"), dict(n=2, pre="Reserved"), dict(n=1, pre="rEserved ", post="x"), dict(n=2, names=("Code", "Definition")), dict(n=2, names=("Values", "Foo"), post=": x") if False else dict(n=2, names=("Value", "Foo"))],
          [dict(n=n, pre=a, post=b) for n in (1, 2, 3, 4, 5) for a in ("", "32") for b in ("", ": x")] + [dict(n=6, pre="a", post="b", chars=" -_/1a\n"), dict(n=8, chars="reservdRESVD")]),
        H("values", "h_attr", [dict(n=2), dict(n=3, post=""), dict(n=5, chars="aB "), dict(n=3), dict(n=3, chars="ab 1-_/:")], [dict(n=n, post=q) for n in (1, 2, 3, 4) for q in ("", ": x")] + [dict(n=6, chars="aB 1", post=q) for q in ("", ": x")]),
        H("values", "h_rows", [dict(n=2), dict(n=3, attr=True, opts=["plain", "res", "ell1", "ellv", "th", "notes"]), dict(n=3, opts=["plain", "wide", "notes"]), dict(n=2, opts=["plain", "wide"], free=(3, None)), dict(n=2, opts=["plain", "wide"], free=(7, "notesNS:. ")), dict(n=2, opts=["plain", "headed"]), dict(n=2, attr=True, opts=["plain", "headed"])], [dict(n=3, attr=a, opts=["plain", "headed"]) for a in (False, True)] + [dict(n=n, attr=a) for n in (3, 4) for a in (False, True)] + [dict(n=3, opts=["plain", "wide"], free=f) for f in ((2, None), (7, "notesNOTES:. "))]),
    ],
    bounds="value and definition texts of up to 3 (thorough 5) arbitrary characters in context, tables of up to 3 (4) rows of every kind in every order",
)
FILL = (None, 0, 1, 30, 57, 58, 59, 60, 61, 62)
REGISTRY["P08"] = dict(
    budget_quick=60,
    harnesses=[
        mixed(dict(kind="Value", n=1, keys=VKEYS, briefs=8, wraps=("top", "value")), dict(kind="Bytes", n=2, names=("acr", "words", "digits", "dup"), briefs=8), dict(kind="Bits", n=2, attr=True, names=("acr", "words"), briefs=8), dict(kind="Value", n=2, names=VNAMES, briefs=3)),
        H("struct", "h_brief",
          [dict(n=2, kind="Bits"), dict(n=2, kind="Value", name="Some Name"), dict(n=1, total=60, dots=(None, 30, 59), kind="Bytes"), dict(n=1, total=61, dots=(None, 1, 59, 60)), dict(n=1, total=62, dots=(None, 30, 59, 60, 61), kind="Value", name="Some Name"),
           dict(n=2, total=63, dots=(None, 60, 61, 62)), dict(n=1, total=60, dots=(None, 30, 59), kind="Value", name="Some Name", fills="é\u2026"), dict(n=3, chars=" .ax\n:", name="N")],
          [dict(n=n, total=t, dots=tuple(d for d in (None, 5, 30, 58, 59, 60, 61, 62) if d is None or n <= d < t), kind=k, name="Some Name" if k == "Value" else "Some Name (SNM)")
           for n in (1, 2, 3) for t in (58, 59, 60, 61, 62, 63, 64, 120) for k in ("Bits", "Bytes", "Value")] + [dict(n=n, kind=k, name="N") for n in (3, 4) for k in ("Bits", "Value")]),
        H("struct", "h_brief_any", [dict(n=3), dict(n=3, kind="Value"), dict(n=3, tail=58), dict(n=4, chars="ab :.()/\n", kind="Bits")],
          [dict(n=n, kind=k, tail=t) for n in (3, 4, 5) for k in ("Bits", "Value") for t in (0, 57, 58, 60)] + [dict(n=6, chars="ab :.()\n", kind=k) for k in ("Bytes", "Value")]),
        H("struct", "h_brief_attr", [dict(total=60), dict(total=64, kind="Bits")], [dict(total=t, n=n) for t in (4, 60, 61, 64) for n in (2, 3, 4)]),
    ],
    bounds="brief texts with up to 3 (thorough 4) arbitrary characters followed by filler up to total lengths 58 to 63 (64, 120) with full stops at chosen places around the limit; arbitrary descriptions of up to 4 (6) characters",
)
REGISTRY["P10"] = dict(
    budget_quick=90,
    harnesses=[
        mixed(dict(kind="Bytes", n=2, names=("acr", "res", "dotted", "hyphen", "note"), briefs=1), dict(kind="Bits", n=2, attr=True, names=("acr", "RES", "dotted", "note"), briefs=1), dict(kind="Bits", n=2, rowkinds=ROWS, briefs=1, wraps=WRAPS[1:]), dict(kind="Bytes", n=3, rowkinds=ROWS, keys=("num", "text"), names=("acr", "res"), briefs=1), dict(kind="Bits", n=2, keys=KEYS, names=("acr", "obs", "ell"), briefs=1), dict(kind="Bits", n=2, attr=True, rowkinds=ROWS, keys=("num", "empty"), names=("acr", "note"), briefs=1, orders=("rad", "dra"))),
        H("struct", "h_rows", [dict(n=2), dict(n=3, kind="Bits"), dict(n=2, attr=True), dict(n=3, attr=True, kind="Bits"), dict(n=3, opts=["plain", "wide"], free=(3, None)), dict(n=2, opts=["plain", "wide"], free=(6, "noteNOTE. ")), dict(n=3, opts=["plain", "wide", "res"], long=True, kind="Bits"), dict(n=2, attr=True, opts=["plain", "mix", "th"], kind="Bits"), dict(n=3, opts=["plain", "mix"]), dict(n=2, opts=["plain", "headed"], kind="Bits"), dict(n=2, opts=["plain", "headed"], attr=True)], [dict(n=3, opts=["plain", "headed"], attr=a, kind=q) for a in (False, True) for q in K2] + [dict(n=3, attr=a, opts=["plain", "mix", "th", "res"], kind=q) for a in (False, True) for q in K2] + [dict(n=3, opts=["plain", "wide"], free=(k, c), kind=q) for k, c in ((1, None), (3, None), (6, "noteNOTE. ")) for q in K2] + [dict(n=4, opts=["plain", "wide", "th", "ell1"], long=True, kind=q) for q in K2] + [dict(n=n, attr=a, kind=k) for n in (2, 3, 4) for a in (False, True) for k in K2]),
        H("ranges", "h_dyn_mode", [dict(n=3, kind="Bits"), dict(n=2)], [dict(n=n, kind=k, digits=d) for n, d in ((3, 2), (4, 1)) for k in ("Bytes", "Bits")]),
        H("struct", "h_many", [dict(n=3, digits=1), dict(n=4, digits=1, kind="Bytes"), dict(n=2, digits=3)], [dict(n=n, digits=d, kind=k) for n, d in ((2, 3), (3, 2), (4, 1), (5, 1)) for k in K2]),
        H("struct", "h_reserved", [dict(kind="Bits"), dict(kind="Bytes", attr=True)], [dict(kind=k, attr=a) for k in K2 for a in (False, True)]),
    ],
    bounds="tables of up to 4 (thorough 5) rows of ten kinds in every order, symbolic ranges of up to 3 digits and symbolic acronyms",
)
G3 = ("Bits", "Attribute", "Description")
REGISTRY["P09"] = dict(
    harnesses=[
        H("doc", "h_grid",
          [dict(rows=2), dict(rows=3), dict(kind="Bytes", cols=("X", "Bytes", "Description", "Y"), rows=2), dict(kind="Value", cols=("Value", "X", "Y", "Description"), rows=2),
           dict(kind="Value", cols=("Description", "Attribute", "Value"), rows=3), dict(kind="Bytes", cols=("Bytes", "Description"), rows=4, maxr=4), dict(rows=3, th=1), dict(kind="Bytes", cols=("Bytes", "Description", "X"), rows=3, hspan=False, th=1),
           dict(kind="Bytes", cols=("Bytes", "X", "Description"), rows=2, hspan=True), dict(cols=("Bits", "", "Description"), rows=2), dict(kind="Value", cols=("", "Value", "", "Description"), rows=2), dict(kind="Bytes", cols=("X", "X", "Bytes", "Description"), rows=2)],
          [dict(rows=3, kind=k, cols=tuple((k if c == "Bits" else c) for c in cs)) for k in ("Bits", "Bytes", "Value") for cs in (G3, ("Description", "X", "Bits"), ("X", "Bits", "Y", "Description"), ("Attribute", "Bits", "Description", "Y"))]
          + [dict(kind=k, cols=(k, "Description"), rows=5, maxr=5) for k in ("Bits", "Bytes", "Value")]
          + [dict(kind=k, cols=(k, "Attribute", "Description"), rows=r, th=t) for k in ("Bits", "Value") for r in (3, 4) for t in (1, 2)]
          + [dict(kind=k, cols=(k, "X", "Attribute", "Description"), rows=3, hspan=True) for k in ("Bits", "Value")]
          + [dict(rows=3, kind="Bits", cols=G3, sym=True)]),
    ],
    bounds="every tiling of 2 to 4 (thorough 5) rows by 2 to 4 columns whose range/value cell is separate from the name and description cells; optional section header row; heading row optionally with a spanning heading, empty headings or one twice",
)
REGISTRY["P11"] = dict(
    budget_quick=75,
    harnesses=[
        mixed(dict(kind="Value", n=2, decors=("none", "values", "two"), names=("acr", "res"), briefs=1, wraps=WRAPS), dict(kind="Bytes", n=2, decors=DECOR, keys=("num", "text"), briefs=1, orders=("rad", "dra")), dict(kind="Value", n=2, attr=True, decors=DECOR, keys=("num", "text"), names=("acr", "dup"), briefs=1), dict(kind="Bits", n=2, decors=DECOR, keys=("one", "formula"), rowkinds=("data", "List"), briefs=1)),
        H("doc", "h_nest", [dict(depth=2, n=2), dict(depth=3, n=1)], [dict(depth=2, n=3), dict(depth=3, n=1), dict(depth=4, n=1)]),
        H("doc", "h_place", [dict(n=2), dict(n=1, places=["deeptwo", "deep"])], [dict(n=2), dict(n=3)]),
    ],
    bounds="chains of up to 3 (thorough 4) tables with row keys of up to 2 (3) symbolic characters; 2 (3) rows with nested tables in any column, several per cell, unknown and reserved ones",
)
REGISTRY["P12"] = dict(
    harnesses=[
        H("doc", "h_account", [dict(n=2), dict(n=2, figs=["capmore", "bits", "wrapped"]), dict(n=2, same=True), dict(n=2, same="all"), dict(n=2, caps=True, figs=["bits", "values", "unknown", "fail", "failnested"]), dict(n=3, figs=["bits", "values", "unknown", "nonum", "nofig", "fail", "failnested", "faildeep", "failsecond"]), dict(n=2, special=True, figs=["bits", "fail", "qunknown", "qbits", "qbytes", "qvalues", "qfail"])], [dict(n=3), dict(n=3, special=True, figs=["bits", "fail", "unknown", "qunknown", "qbits", "qbytes", "qvalues", "qfail"]), dict(n=4, figs=["bits", "values", "unknown", "nonum", "fail", "failnested", "faildeep", "failsecond"])]),
        H("files", "h_cli_account", [dict(n=1, docs=2, figs=["bits", "unknown", "fail", "failnested", "faildeep", "failsecond"]), dict(n=2, figs=["bits", "fail"])], [dict(n=2, docs=2, figs=["bits", "unknown", "nonum", "fail"]), dict(n=3)]),
        H("doc", "h_caption", [dict(post=2), dict(pre=1, post=1), dict(post=3, sep=0), dict(pre=2, post=0), dict(post=2, sep=2), dict(pre=0, post=1, lead="The table that follows is, among a number of others, "), dict(pre=1, post=1, lead="Notes on the ")], [dict(pre=a, post=b, sep=c) for a in (0, 1, 2) for b in (1, 2, 3) for c in (0, 1, 2)]),
    ],
    bounds="documents of 2 to 3 (thorough 4) figures of fifteen kinds (extractable, unknown, unnumbered, failing, failing inside nested tables at two depths, wrapped with and without more around them, empty, identical, with tables or text behind the caption) in every order, with captions varied in case, blanks, punctuation and titles; captions with up to 4 (7) arbitrary characters around the word Figure, also behind a long text",
)
REGISTRY["P13"] = dict(
    harnesses=[H("files", "h_cli_account", [dict(n=1, docs=2, figs=["bits", "unknown", "fail", "failnested", "faildeep", "failsecond"]), dict(n=2, figs=["bits", "fail"])], [dict(n=2, docs=2, figs=["bits", "unknown", "nonum", "fail"]), dict(n=3)]),
               H("quirk", "h_stray", [dict()], [dict(n=2)]),
               H("doc", "h_account", [dict(n=2, skip=False), dict(n=2, skip=False, same=True), dict(n=2, skip=False, same="all"), dict(n=2, caps=True, skip=False, figs=["bits", "values", "unknown", "fail", "failnested"]), dict(n=3, skip=False, figs=["bits", "values", "unknown", "nonum", "nofig", "fail", "failnested", "faildeep", "failsecond"]), dict(n=2, skip=False, special=True, figs=["bits", "fail", "qunknown", "qbits", "qbytes", "qvalues", "qfail"])],
                 [dict(n=3, skip=False), dict(n=4, skip=False, figs=["bits", "values", "unknown", "nonum", "fail", "failv", "failnested", "faildeep", "failsecond"])])],
    bounds="documents of 2 to 3 (thorough 4) figures of fifteen kinds in every order, identical ones included; figures with rules of their own with a row that only resembles the one they name",
)
REGISTRY["P14"] = dict(
    budget_quick=100,
    harnesses=[
        mixed(*[dict(kind=k, n=1, attr=a, briefs=1, heads=HEADS, wraps=WRAPS, orders=ORDERS) for k in ("Bits", "Bytes", "Value") for a in (False, True)]),
        H("doc", "h_heads", [dict(), dict(extra=1, main=["bit", "code"])], [dict(), dict(extra=1), dict(extra=2, main=["bit", "values"])]),
        H("doc", "h_unknown", [dict(n=1), dict(n=2), dict(n=3), dict(n=2, cols=2), dict(n=1, cols=1), dict(n=2, cols=1), dict(n=1, cols=6), dict(n=4, chars=LETTERS), dict(n=5, cols=2, chars=LETTERS), dict(n=6, chars=LETTERS), dict(n=9, cols=2, chars=LETTERS), dict(n=1, cols=2, near=True), dict(n=2, cols=2, near=True, chars=LETTERS + " -")], [dict(n=3, cols=2, near=True, chars=LETTERS + " -")] + [dict(n=n, cols=c, chars=LETTERS) for n in (4, 6, 7, 8, 10, 11) for c in (2, 3)] + [dict(n=n, cols=c) for n in (1, 2, 3, 4, 5) for c in (1, 2, 3, 6)]),
        H("doc", "h_reports", [dict()], [dict(), dict(figs=3), dict(n=2)]),
    ],
    bounds="tables with two to four headings in every order and every letter case, with varying blanks and line breaks; one arbitrary heading of up to 3 (thorough 5) characters, or of 4 to 9 (11) letters, alone or among up to five recognised and unknown ones; two (three) figures and a nested table, each with one or two of the variants",
)

REGISTRY["P15"] = dict(
    harnesses=[
        H("files", "h_ignore", [dict(n=1), dict(n=1, ws=False, word="same"), dict(n=2, ws=False), dict(n=1, ws=False), dict(n=2, ws=False, before=MANYCODES)], [dict(n=1, ws=False, word="any"), dict(n=1), dict(n=2), dict(n=3, ws=False)]),
        H("files", "h_ignore_text", [dict(n=2), dict(n=1, pre="T1000"), dict(n=2, pre="t10", post="7"), dict(n=3, pre="l10"), dict(n=5), dict(n=1, pre="T1000", post="v1002")],
          [dict(n=k) for k in (1, 2, 3, 4, 5, 6)] + [dict(n=3, pre="R100"), dict(n=3, pre="R100", post="1,T1000"), dict(n=4, pre="T1007,", post="000")]),
        H("files", "h_ignore_cli", [dict(n=1), dict(n=2)], [dict(n=k) for k in (1, 2, 3)]),
    ],
    bounds="up to 2 (thorough 3) of the 14 codes a document of seven figures (one with repeated findings) can raise, the unsuppressed lint being that of the extraction itself, every letter case and surrounding blanks, also behind four other codes; the same with three further figures whose titles, headings, keys, names and descriptions are the suppressed code itself (any code); option texts of up to 5 (6) arbitrary characters and near-codes",
)
REGISTRY["P16"] = dict(
    budget_quick=100,
    harnesses=[
        H("files", "h_schema", [dict(n=1, m=1), dict(n=2, m=1), dict(n=2, m=0), dict(n=1, m=1, attr=True), dict(n=2, m=0, attr=True)], [dict(n=a, m=b, kind=k, attr=True) for a in (1, 2, 3) for b in (0, 1, 2) for k in ("bits", "bytes", "values")] + [dict(n=a, m=b, kind=k) for a in (1, 2, 3, 4) for b in (0, 1, 2, 3) for k in ("bits", "bytes", "values")]),
        H("files", "h_schema_doc", [dict(n=1), dict(n=2)], [dict(n=1), dict(n=2), dict(n=3)]),
        H("files", "h_schema_noisy", [dict()]),
        H("mixed", "h_schema", [dict(kind="Bytes", n=1, keys=KEYS, names=NAMES, briefs=4, decors=("none", "bits")), dict(kind="Bits", n=2, attr=True, keys=("num", "empty", "text"), names=("acr", "res", "ell"), rowkinds=("data", "List", "ell"), briefs=2), dict(kind="Value", n=1, keys=VKEYS, names=VNAMES, briefs=3, decors=("none", "values"), attr=True), dict(kind="Value", n=2, keys=("num", "empty"), names=("acr", "res"), rowkinds=VROWS, briefs=2)],
          [dict(kind=k, n=2, attr=a, keys=KEYS, names=NAMES, rowkinds=ROWS, decors=DECOR, briefs=8) for k in ("Bytes", "Bits") for a in (False, True)] + [dict(kind="Value", n=2, attr=a, keys=VKEYS, names=VNAMES, rowkinds=VROWS, decors=DECOR, briefs=3) for a in (False, True)]),
        H("files", "h_schema_heads", [dict()], [dict(), dict(k=3), dict(n=2)]),
    ],
    bounds="documents of one figure with up to 3 (thorough 4) rows of 13 kinds and up to 2 (3) arbitrary characters in titles, ranges, names and briefs, and of up to 2 (3) figures of 12 kinds; figures of 0 to 2 (3) columns of 8 kinds with a row of too few, as many or too many cells; tables of every kind of key, name, row and nested content as in P01 to P11",
)
REGISTRY["P17"] = dict(
    budget_quick=90,
    harnesses=[
        H("quirk", "h_choose", [dict(i=i, at=a, n=3) for i, a in ((0, 0), (0, 9), (1, 12), (2, 20), (3, 11), (4, 40))] + [dict(i=i, at=0, n=1, rev=3) for i in (0, 3)] + [dict(i=4, at=0, n=1, rev=3), dict(i=2, at=30, n=1, j=0), dict(i=1, at=3, n=2, j=0), dict(i=0, n=0, cut=1), dict(i=0, n=1, cut=0), dict(i=3, n=1, cut=2), dict(i=2, n=2, cut=1, at=40)],
          [dict(i=i, at=a, n=n, j=j) for i in range(5) for a in (0, 9, 11, 14, 20, 33) for n in (2, 5) for j in (None, 2)] + [dict(i=i, at=5, n=1, rev=r) for i in range(5) for r in (2, 3, 4)]),
        H("quirk", "h_override", [dict(n=1), dict(n=2, kind="bits"), dict(n=2, kind="values"), dict(n=2, kind="bytes", keylen=2), dict(n=1, attr=True), dict(n=2, kind="list", figlen=2), dict(n=2, kind="values", attr=True)],
          [dict(n=n, kind=k, keylen=kl, attr=at) for n in (1, 2, 3) for k in ("bits", "bytes", "values", "list") for kl in (1, 2) for at in (False, True)]),
        H("quirk", "h_nested", [dict(), dict(kind="bits")]),
        H("quirk", "h_real", [dict(i=0, depth=2), dict(i=0, depth=3, near="4x"), dict(i=0, depth=3, near="6x"), dict(i=1, kind="Bits", key=1), dict(i=2, kind="Bits", key=1), dict(i=1, depth=2, key=1, kind="Bits", near="37"), dict(i=3, kind="Bytes", key=1), dict(i=0, near="4x", depth=2, around=True), dict(i=1, kind="Bits", key=1, around=True)],
          [dict(i=0, depth=d, around=a) for d in (1, 2, 3) for a in (False, True)] + [dict(i=i, kind="Bits", key=1, depth=d, around=True) for i in (1, 2) for d in (1, 2)] + [dict(i=i, kind="Bits" if d == 2 or i < 3 else "Bytes", key=1, depth=d) for i in (1, 2, 3, 4) for d in (1, 2)] + [dict(i=i, kind="Value", key=1, depth=1) for i in (1, 2)]),
        H("quirk", "h_second", [dict(n=1), dict(n=1, before=1, after=1)], [dict(n=2), dict(n=2, before=1, after=1), dict(n=3, before=3, after=3)]),
        H("quirk", "h_stray", [dict()], [dict(n=2), dict(n=2, m=2), dict(n=3, m=0)]),
        H("quirk", "h_remark", [dict(n=1), dict(n=2)], [dict(n=k) for k in (1, 2, 3, 4)]),
    ],
    bounds="the five known titles with up to 3 (thorough 5) characters replaced by arbitrary ones, or one or two put in or left out at any place, and arbitrary revisions of up to 4 characters; figures with up to 2 (3) rows, figure ids and row keys of up to 2 characters against an override table of 3-4 label and 2 brief entries; the entries of the known documents against symbolic figure numbers and row keys, and ten kinds of texts around such a key, up to three tables deep; rows of one cell that only resemble those the three figures with rules of their own name",
)
REGISTRY["P18"] = dict(
    budget_quick=70,
    harnesses=[
        H("files", "h_write", [dict(n=1), dict(n=2, first=False), dict(n=1, names=True), dict(n=1, progress=True), dict(n=1, twice=True), dict(n=1, twice=True, progress=True)], [dict(n=2, twice=True)] + [dict(n=n, names=nm, progress=pr, first=fi) for n in (1, 2, 3) for nm in (False, True) for pr in (False, True) for fi in (False, True)]),
        H("files", "h_writer", [dict(n=1), dict(n=2, count=(2,))], [dict(n=n) for n in (1, 2, 3, 4)]),
        H("files", "h_crash", [dict(n=1)], [dict(n=1), dict(n=2)]),
        H("files", "h_again", [dict(n=1)], [dict(n=1), dict(n=2)]),
        H("files", "h_cwd", [dict()]),
    ],
    bounds="documents of three figures with up to 2 (thorough 3) arbitrary characters in titles, values, briefs, specification and revision; file names with 2 arbitrary characters (no dot or slash) behind five fixed prefixes; failure in each figure, in a nested table, in the document itself; equal entities written twice",
    assumptions=["the file system stores and returns names and bytes faithfully"],
)
REGISTRY["P27"] = dict(
    harnesses=[
        H("files", "h_status", [dict(n=1), dict(n=2, opts=False), dict(n=2, kinds=("good", "fail", "broken", "json")), dict(n=3, opts=False, kinds=("good", "fail", "txt")), dict(n=2, opts=False, same=True), dict(n=12, opts=False, kinds=("good",)), dict(n=2, opts=False, kinds=("good", "fail", "broken"), before=9)],
          [dict(n=1), dict(n=2), dict(n=3, opts=False), dict(n=4, opts=False, kinds=("good", "fail", "missing"))]),
        H("files", "h_stub", [dict(n=1), dict(n=2), dict(n=3)]),
        H("files", "h_suffix", [dict(n=1), dict(n=3), dict(n=1, pre="htm"), dict(n=1, pre="html"), dict(n=4)], [dict(n=k) for k in (1, 2, 3, 4, 5)] + [dict(n=2, pre="html"), dict(n=2, pre="doc")]),
        H("files", "h_cwd", [dict()]),
    ],
    bounds="up to 3 (thorough 4) inputs of 12 kinds under each combination of skip, validate and verbose; stand-in parsing with 7 outcomes for each of up to 3 inputs; file name suffixes of up to 4 (5) characters; inputs of one name in different folders; 12 good inputs, and two of any sort behind 9 good ones",
)

NEUTRALS = ("b", "i", "u", "strike", "vertAlign", "color")
REGISTRY["P19"] = dict(
    harnesses=[
        H("word", "h_text", [dict(n=1), dict(n=2, kinds=("multi", "hyper"), cells=1), dict(n=1, kinds=("symblanks",))], [dict(n=n) for n in (1, 2)] + [dict(n=3, kinds=(k,), cells=1) for k in ("multi", "hyper", "nest", "bold")]),
        H("word", "h_nested_text", [dict(n=1)], [dict(n=1), dict(n=2)]),
        H("word", "h_name", [dict(n=1)], [dict(n=1), dict(n=2)]),
        H("word", "h_list", [dict(n=3, plain=False), dict(n=3, nums=(1, 2), depth=2)], [dict(n=4), dict(n=4, nums=(1, 2), plain=False)]),
        H("word", "h_again", [dict(n=1)], [dict(n=1), dict(n=2)]),
        H("word", "h_mix", [dict(m=1, ats=(0, 3), merges=(None, "v"), fills=("CCCCCC",)), dict(m=2, ats=(1,), merges=(None,), fills=(None, "00FF00"), mkinds=("item",), kinds=("item", "tab", "link"))], [dict(m=2), dict(m=3, kinds=("par", "item", "tab")), dict(m=2, m2=2, kinds=("link", "sub", "item", "tab"))]),
    ],
    budget_quick=75,
    bounds="two tables of up to 2 by 2 cells, paragraphs of thirteen kinds of run structure (one with carriage returns and characters beyond the alphabet), up to 2 (thorough 3) arbitrary characters anywhere; nested tables two deep and lists between paragraphs in six orders; file names with up to 1 (2) arbitrary characters; two by two tables with each sequence of two contents (paragraph, link, list item, nested or other list, nested table, nothing) in one cell, merged or shaded",
    assumptions=["zipfile and lxml deliver the bytes and the tree of the document"],
)
REGISTRY["P20"] = dict(
    harnesses=[
        H("word", "h_merge", [dict(rows=7, cols=1), dict(rows=1, cols=7), dict(rows=2, cols=2), dict(rows=2, cols=3), dict(rows=3, cols=2), dict(rows=2, cols=2, nested=True), dict(rows=2, cols=2, fill=True), dict(rows=3, cols=1, fill=True)], [dict(rows=2, cols=3, fill=True), dict(rows=3, cols=3), dict(rows=4, cols=2), dict(rows=2, cols=4), dict(rows=2, cols=3, nested=True), dict(rows=3, cols=4, maxc=2, maxr=2)]),
        H("word", "h_merge_sym", [dict(cols=1), dict(cols=2)], [dict(cols=c) for c in (1, 2, 3)]),
        H("word", "h_merge_free", [dict(rows=2, cols=2), dict(rows=3, cols=1), dict(rows=2, cols=3), dict(rows=4, cols=1)], [dict(rows=3, cols=2), dict(rows=5, cols=1), dict(rows=2, cols=4)]),
        H("word", "h_mix", [dict(m=1, ats=(0, 3), merges=(None, "v"), fills=("CCCCCC",)), dict(m=2, ats=(1,), merges=(None,), fills=(None, "00FF00"), mkinds=("item",), kinds=("tab", "par", "item"))], [dict(m=2), dict(m=3, kinds=("par", "item", "tab")), dict(m=2, m2=2, kinds=("link", "sub", "item", "tab"))]),
    ],
    budget_quick=75,
    bounds="two rows of up to 2 (thorough 3) cells of symbolic widths; every tiling of up to 3 by 2 and 2 by 3 (thorough 3 by 3, 3 by 4, 4 by 2) cells by rectangles; every sequence of merge settings in tables of up to 2 by 3 (3 by 2, 5 by 1) cells; continued cells with five kinds of content in tilings of 2 by 2 and 3 by 1 (2 by 3); two by two tables with each sequence of two contents (paragraph, link, list item, nested or other list, nested table, nothing) in one cell, merged or shaded",
)
REGISTRY["P21"] = dict(
    harnesses=[
        H("word", "h_list", [dict(n=4, depth=4, plain=False, omit=False), dict(n=2, nums=(1, 2, 4)), dict(n=3), dict(n=4, plain=False), dict(n=3, nums=(2,), plain=False), dict(n=2, nums=(8, 1), plain=False), dict(n=3, nums=(1, 2), plain=False, depth=2), dict(n=2, nums=(16,), levels=(0, 1, 3, 6, 7, 8), plain=False), dict(n=3, nums=(16,), levels=(0, 7, 8), plain=False, omit=False), dict(n=3, nums=(1,), depth=2, plain=False, omit=False, hollow=True), dict(n=2, nums=(1, 2), depth=2, hollow=True)],
          [dict(n=3, nums=(16,), levels=tuple(range(9)), plain=False), dict(n=4, nums=(1, 2), depth=2, hollow=True), dict(n=3, nums=(1, 2, 4)), dict(n=4), dict(n=5, plain=False), dict(n=6, plain=False, depth=2), dict(n=4, nums=(1, 2), plain=False), dict(n=4, depth=4, plain=False), dict(n=3, nums=(8, 1))]),
        H("word", "h_list_map", [dict(n=2)], [dict(n=2), dict(n=3, k=2), dict(n=3)]),
        H("word", "h_list_sym", [dict(n=2, extra=True), dict(n=3, deep="01")], [dict(n=2, deep="0123", extra=True), dict(n=3)]),
        H("word", "h_mix", [dict(m=1, ats=(0, 3), merges=(None, "v"), fills=("CCCCCC",)), dict(m=2, ats=(1,), merges=(None,), fills=(None, "00FF00"), mkinds=("item",), kinds=("item", "sub", "other", "tab"))], [dict(m=2), dict(m=3, kinds=("par", "item", "tab")), dict(m=2, m2=2, kinds=("link", "sub", "item", "tab"))]),
    ],
    budget_quick=75,
    bounds="sequences of up to 4 (thorough 6) paragraphs: plain, empty, or of any of up to 3 (4) levels, of nine levels in the definitions, and with items without text, of up to three numberings with two (three) definitions; nesting is judged where each item returns only to open levels, order and kind always; two by two tables with each sequence of two contents (paragraph, link, list item, nested or other list, nested table, nothing) in one cell, merged or shaded",
)
REGISTRY["P22"] = dict(
    harnesses=[
        H("word", "h_format", [dict(props=("b",), depth=2), dict(props=("i",), full=True), dict(props=("u", "strike"), depth=1), dict(props=("u",), depth=1, full=True), dict(props=("vertAlign",), depth=2), dict(props=("color",), depth=2), dict(props=("b", "color"), nruns=1, depth=1), dict(props=("b",), nruns=2, depth=1), dict(props=("strike",), full=True, depth=1),
                                dict(props=("b", "i"), depth=0, nruns=2), dict(props=("u", "strike"), depth=0, nruns=2), dict(props=("vertAlign", "color"), depth=0, nruns=2), dict(props=("i",), depth=3)],
          [dict(props=(q,), depth=3) for q in NEUTRALS] + [dict(props=(q,), depth=2, nruns=2) for q in NEUTRALS] + [dict(props=(a, b), depth=1, nruns=1) for a in NEUTRALS for b in NEUTRALS if a < b] + [dict(props=(q,), full=True, depth=2) for q in ("b", "i", "u", "strike")]
          + [dict(props=(a, b), depth=0, nruns=2) for a in NEUTRALS for b in NEUTRALS if a < b] + [dict(props=("b", "i", "u", "strike", "vertAlign", "color"), depth=0)]),
        H("word", "h_sets", [dict(), dict(props=("b", "u", "vertAlign", "color"))], [dict(props=("b", "i", "u", "strike", "vertAlign", "color")), dict(props=("b", "i", "color"), nruns=3)]),
        H("word", "h_toggle", [dict(n=n, what=w) for n, w in ((1, "b"), (2, "i"), (3, "strike"), (4, "b"), (5, "i"))], [dict(n=n, what=w) for n in (1, 2, 3, 4, 5) for w in ("b", "i", "strike")]),
        H("word", "h_colour", [dict(n=6, styled=False), dict(n=6), dict(n=6, same=True, styled=False)], [dict(n=6, styled=a, same=b) for a in (True, False) for b in (True, False)]),
        H("word", "h_resolve", [dict()]),
        H("word", "h_mix", [dict(m=1, ats=(0, 3), merges=(None, "v"), fills=("CCCCCC",)), dict(m=2, ats=(1,), merges=(None,), fills=(None, "00FF00"), mkinds=("item",), kinds=("par", "link", "item"))], [dict(m=2), dict(m=3, kinds=("par", "item", "tab")), dict(m=2, m2=2, kinds=("link", "sub", "item", "tab"))]),
    ],
    bounds="each property, and pairs of them, in every setting (all 18 kinds of underline) at a run and along chains of up to 3 character styles; up to 2 runs, and every pair (thorough triple) of sets of five (six) properties; styles in three orders with aliases and paragraph styles of the same name; two by two tables with each sequence of two contents (paragraph, link, list item, nested or other list, nested table, nothing) in one cell, merged or shaded",
)
REGISTRY["P23"] = dict(
    harnesses=[
        H("word", "h_header", [dict(title=1, rev=0), dict(title=0, rev=1), dict(title=1, rev=1, cut=False, word=False), dict(title=1, rev=0, pre="", cut=False), dict(title=1, rev=0, mid=("", "  ", ", ", "\t", "\n", " x, y "), cut=False)], [dict(title=2, rev=1, mid=("", "  ", ", ", "\t", "\n", " x, y "), cut=False)] + [dict(title=a, rev=b, cut=c) for a in (0, 1, 2) for b in (0, 1) for c in (True, False)] + [dict(title=0, rev=2), dict(title=1, rev=2, cut=False)]),
        H("word", "h_header_free", [dict(n=2), dict(n=1, pre="A", post=" B, C Revision 2.0 d"), dict(n=1, pre="A, Revision", post=" x"), dict(n=2, pre="A", post="B Revision 2.0")], [dict(n=3, pre="A", post="B Revision 2.0"), dict(n=2, pre="", post=",B Revision 2.0")] + [dict(n=n, pre=p, post=q) for n in (1, 2, 3) for p, q in (("A, Revision ", ""), ("A", " B, C Revision 2.0 d"), ("A, Revision", " x"))]),
    ],
    bounds="headers with up to 2 (thorough 3) arbitrary characters in the title, before, after and inside the revision, split over runs, paragraphs, table cells, links, fields, content controls and nested tables in ten ways",
    assumptions=["the text of the header contains the word Revision, and a word behind it"],
)
REGISTRY["P28"] = dict(
    harnesses=[
        H("word", "h_shade", [dict(mode=m) for m in ("grey", "near", "white", "free", "other")]),
        H("word", "h_caption", [dict(), dict(fixed="", mid=1, post=1), dict(num=1, post=2), dict(pre=1), dict(mid=1, post=1), dict(fixed="", mid=1, post=0), dict(num=1, fill=True, post=1), dict(num=0, post=2), dict(num=2, post=1), dict(num=5, post=1), dict(num=12, post=0)],
          [dict(pre=a, mid=b, post=c, num=n, fixed=f) for a in (0, 1) for b in (0, 1) for c in (0, 1, 2) for n in (0, 1, 2) for f in ("", " ")] + [dict(num=3, fill=True, post=1)]),
        H("word", "h_mix", [dict(m=1, ats=(0, 3), merges=(None, "v"), fills=("CCCCCC",)), dict(m=2, ats=(1,), merges=(None,), fills=(None, "00FF00"), mkinds=("item",), kinds=("tab", "empty", "par"))], [dict(m=2), dict(m=3, kinds=("par", "item", "tab")), dict(m=2, m2=2, kinds=("link", "sub", "item", "tab"))]),
    ],
    bounds="every six-digit hexadecimal fill (all symbolic), greys in every mixture of cases, near-greys and non-hexadecimal fills; captions with up to 3 (thorough 4) arbitrary characters before, inside and after 'Figure N' with numbers of up to 12 digits, split over runs in three ways, behind empty paragraphs, tables, lists or other text; two by two tables with each sequence of two contents (paragraph, link, list item, nested or other list, nested table, nothing) in one cell, merged or shaded",
)
REGISTRY["P29"] = dict(
    harnesses=[
        H("word", "h_both", [dict(), dict(kind="values")], [dict(n=n, kind=k) for n in (1, 2) for k in ("bits", "bytes", "values")]),
        H("word", "h_both_rows", [dict()], [dict(), dict(r=3), dict(n=2)]),
        H("word", "h_split", [dict()], [dict(n=2)]),
        H("word", "h_both_formats", [dict()], [dict(), dict(n=2)]),
    ],
    bounds="documents of three tables (a nested table, vertical and horizontal merges, a section header) with 1 (thorough 2) arbitrary characters in one of six places and five ways to split text into runs; two (three) rows of ten kinds; run formatting of every kind in names and briefs; the same document with every text whole and split in ten ways, list items included",
)

REGISTRY["P24"] = dict(
    harnesses=[
        H("server", "h_sequence", [dict(n=2), dict(n=2, padded="end"), dict(n=2, padded="start", bundle=False), dict(n=5, many=True, names=1, bundle=False)],
          [dict(n=7, many=True, names=1, bundle=False), dict(n=3, k=1, names=3), dict(n=2, k=2, figs=2), dict(n=3, padded="end", bundle=False), dict(n=2, padded="start")]),
        H("server", "h_again", [dict()], [dict(k=2)]),
        H("server", "h_docx", [dict(k=1)], [dict(k=2), dict(k=1, name="w.x.docx")]),
        H("server", "h_unknown", [dict(mode="none", n=2), dict(mode="free", n=3), dict(mode="prefix", n=1), dict(mode="suffix", n=1), dict(mode="long", n=1), dict(mode="short", n=1), dict(mode="name", n=0)],
          [dict(mode=m, n=n) for m in ("none", "free", "prefix", "suffix", "long", "short") for n in (1, 2, 4)] + [dict(mode="free", n=32), dict(mode="short", n=16)]),
        H("server", "h_failed", [dict()], [dict(k=2)]),
        H("server", "h_near", [dict(), dict(size=70000)], [dict(k=2), dict(size=40000)]),
        H("server", "h_digest", [dict()], [dict(k=2), dict(digits=64)]),
        H("server", "h_schedule", [dict(n=2)], [dict(n=2, figs=2), dict(n=2, cut=60), dict(n=3, probe=False, names=1), dict(n=2, same=True)]),
    ],
    bounds="up to 2 (thorough 3) uploads of documents of 1 to 2 figures with 1 to 2 arbitrary letters each, under equal or different names, of up to 5 (7) documents of fixed text, one after another or in every interleaving of their ASGI messages; addresses of up to 4 (32) arbitrary letters and digits, and every one-character variation of a real one; pairs of uploads that differ in one of 13 small ways (case, blanks, order, one character at any place of documents of up to 140,000 characters ...)",
    assumptions=["quart, aiofiles and asyncio deliver messages, files and multipart bodies as documented", "the digest of a content is that of no other (two of them may differ in one digit only, at any place)"],
)
REGISTRY["P25"] = dict(
    harnesses=[
        H("server", "h_name", [dict(n=3), dict(n=2, pre="../", post=".html"), dict(n=2, pre="/", post=".html"), dict(n=1, victim=True, post="a.html"), dict(n=1, pre="x/../../"), dict(n=2, pre="..\\", post="/a.html"), dict(n=0), dict(n=2, pre="..", post="a.html"), dict(n=1, spelt=True, post=".html"), dict(n=1, spelt=True, post=".docx", content="docx"), dict(n=2, post=".docx", content="docx")],
          [dict(n=4), dict(n=3, pre="../", post=".html"), dict(n=3, pre="/", post=".html"), dict(n=3, victim=True, post="a.html"), dict(n=4, post=".html"), dict(n=3, post="/a.html"), dict(n=3, pre="a", post=".docx"), dict(n=3, content="x"), dict(n=2, spelt=True, post=".html"), dict(n=2, spelt=True, post=".docx", content="docx"), dict(n=3, post=".docx", content="docx")]),
    ],
    bounds="file names of up to 3 (thorough 4) arbitrary characters, before and after directories, absolute paths, .. components, back slashes and a suffix, and behind 27 spellings of such directories that some decoding could turn into one (percent, entity, wide character, home folder ...), with HTML and with Word content",
    assumptions=["the interpreter's audit events report every change of the file system made from Python"],
)
REGISTRY["P26"] = dict(
    harnesses=[
        H("server", "h_select", [dict(m=1, k=2), dict(m=1, k=1, allowed=None), dict(m=2, k=1), dict(m=1, k=3), dict(ids=("7", "07"), k=2), dict(ids=("1", "12"), k=2, tid=2, allowed=DIGITS), dict(ids=("1",), k=1, tid=1, allowed=None), dict(m=1, k=1, inside=True), dict(m=2, k=1, inside=True)],
          [dict(m=2, k=2), dict(ids=("1", "2", "3"), m=2, k=1, inside=True), dict(m=1, k=2, inside=True),  dict(m=1, k=2, allowed=None), dict(m=3, k=1), dict(m=1, k=4), dict(ids=("1", "10", "100"), k=3), dict(ids=("a", "b"), k=2, tid=2, allowed=None), dict(ids=("1", "2"), m=2, k=2, tid=1)]),
        H("server", "h_page", [dict(n=2), dict(n=1, digits=2), dict(n=1, missing=True), dict(n=1, bundle=True), dict(n=1, long=70000)], [dict(n=3), dict(n=2, digits=2), dict(n=2, missing=True)]),
        H("server", "h_page_docx", [dict(n=1), dict(n=2)], [dict(n=2, k=2), dict(n=2, digits=2)]),
    ],
    bounds="up to 2 (thorough 3) figure ids of up to 3 (4) arbitrary characters against up to 2 (3) tables, known or symbolic, with nested tables whose ids are those of other figures; report pages of documents of up to 2 (3) figures, of up to 70000 characters, with every placement of lint in and below them",
)
REGISTRY["P30"] = dict(
    budget_quick=65,
    harnesses=[
        H("logs", "h_serial", [dict(n=2), dict(n=1, chain=2), dict(n=0, msgs=2), dict(n=1, long=3000), dict(n=0, chain=8), dict(n=0, depths=(30,))], [dict(n=1, long=100000), dict(n=0, chain=30, depths=(100,)), dict(n=3), dict(n=2, chain=3), dict(n=1, msgs=2, chain=2), dict(n=1, msgs=3)]),
        H("logs", "h_run", [dict(n=2), dict(n=2, kinds=("good", "subvalue", "deepvalue", "subhead"), k=0)], [dict(n=3), dict(n=2, k=2)]),
    ],
    bounds="up to 2 (thorough 3) messages of every level with up to 2 (3) arbitrary characters in text, bound values and errors, chains of up to 8 (30) causes, tracebacks of up to 30 (100) frames, texts of up to 3000 (100000) characters; runs over documents of 2 (3) figures, each good or failing in the figure, a nested or a doubly nested table, with and without skipping and with a file that is no document",
    assumptions=["loguru hands every message of its level to the sinks, with the exception that is being handled"],
)
REGISTRY["P31"] = dict(
    harnesses=[
        H("server", "h_schedule", [dict(n=1, drops=1, cut=60), dict(n=2, drops=1, probe=False, names=1)], [dict(n=2, drops=2, probe=False, names=1, cut=60), dict(n=2, drops=1, figs=2), dict(n=3, drops=1, probe=False, names=1), dict(n=2, drops=1, same=True)]),
    ],
    bounds="1 to 2 (thorough 3) connections, uploads in one or two parts, every interleaving of the ASGI messages, up to 1 (2) connections dropped at any message",
    assumptions=["hypercorn reports a dropped connection as the ASGI message http.disconnect, and quart delivers it; the loss of a connection between two messages is seen at the next one"],
)

AK = ("bits", "values")
REGISTRY["P32"] = dict(
    budget_quick=110,
    harnesses=[
        H("apart", "h_docs", [dict(whats=BARE, other=["name", "fail", "list", "heading", "foreign", "swap"], okinds=("bits",), kinds=("bits", "values")), dict(other=["name", "dup", "sub", "fail", "list"], okinds=("bits",)), dict(kinds=("bytes",), okinds=("values",), whats=["list", "range", "name", "noname"], other=["range", "brief", "note", "fail"])], [dict(), dict(n=2, other=["name", "list", "fail"])]),
        H("apart", "h_figs", [dict(whats=BARE, other=["name", "fail", "list", "heading", "foreign", "swap"], okinds=("bits",), kinds=("bits", "values")), dict(other=["name", "dup", "list", "fail", "order"], okinds=("bits",), ids=(("7", "8"), ("7", "7"))), dict(other=["sub", "note", "fail"], okinds=("values",), whats=["name", "dup", "sub", "list"])], [dict(), dict(n=2, other=["name", "list", "fail"], kinds=("bytes",))]),
        H("apart", "h_words", [dict(fills=(None, "CCCCCC")), dict(kinds=["item", "deep", "bullet"], okinds=["item", "deep", "listpar"], n=0), dict(kinds=["undef"], okinds=["undef", "item"])], [dict(kinds=["undef"]), dict(n=2), dict()]),
        H("apart", "h_tables", [dict(fills=(None, "CCCCCC"), ends=("none", "restart"))], [dict(n=2), dict()]),
        H("apart", "h_cells", [dict()], [dict(n=2), dict()]),
        H("apart", "h_named", [dict()], [dict(), dict(n=2)]),
        H("apart", "h_command", [dict()], [dict(), dict(n=2)]),
    ],
    bounds="pairs of documents, of figures, of Word documents, of Word tables and of Word cells of twelve (ten) kinds each with 1 (thorough 2) arbitrary letters or digits; two inputs of one command; two documents of the same name in different folders, HTML and Word; documents referring to numberings, levels and styles only the other one defines",
)
REGISTRY["P33"] = dict(
    budget_quick=60,
    harnesses=[
        mixed(dict(kind="Bits", n=1, decors=("none", "values"), keys=("num", "text"), names=("acr", "bad"), briefs=1, heads=HEADS, wraps=WRAPS), dict(kind="Value", n=1, names=("acr", "bad"), briefs=1, heads=HEADS, wraps=WRAPS), dict(kind="Bytes", n=1, attr=True, names=("acr", "bad"), briefs=1, heads=HEADS, wraps=WRAPS), dict(kind="Bits", n=2, decors=("none", "bits", "values", "two"), keys=("num", "text", "rev"), names=("acr", "bad"), briefs=1), dict(kind="Value", n=2, decors=("none", "bits", "foreign"), keys=("num", "text"), names=("acr", "bad"), attr=True, briefs=1), dict(kind="Bytes", n=2, keys=KEYS, names=("bad", "under", "res"), attr=True, rowkinds=("data", "List"), briefs=1)),
        H("apart", "h_rows", [dict(), dict(kind="bytes"), dict(kind="values"), dict(n=3, ones=["ok", "chars", "range", "noname", "sub"]), dict(attr=True), dict(attr=True, kind="values", ones=["ok", "initials", "chars", "slash", "sub", "res"])], [dict(kind=k, n=3, attr=a) for k in ("bits", "bytes", "values") for a in (False, True)] + [dict(kind=k, n=4, ones=["ok", "chars", "range", "sub"]) for k in ("bits", "values")]),
        H("apart", "h_subs", [dict(), dict(kinds=("bytes",), okind="values"), dict(kinds=("values",), okind="bytes"), dict(kinds=("bits", "values", "bytes"), attr=True, whats=ATTRW)], [dict(kinds=(a,), okind=b, n=2) for a in ("bits", "bytes", "values") for b in ("bits", "bytes", "values")]),
    ],
    bounds="tables of 2 to 3 (thorough 4) rows of twelve kinds, with and without attribute column, with 1 to 2 arbitrary letters; tables of twelve kinds, and of six kinds with a column for names, nested once or twice in a row",
)

NOT_APPLICABLE = {
}
REGISTRY["P34"] = dict(
    harnesses=[
        H("server", "h_events", [dict(), dict(n=3, kinds=("nested", "failing", "plain")), dict(n=1, times=2), dict(n=1, kinds=("plain", "nested"), long=70000), dict(n=24, kinds=("plain",))], [dict(n=3), dict(k=2)]),
        H("server", "h_events_word", [dict(), dict(n=1, times=2)], [dict(n=3), dict(k=2)]),
        H("server", "h_events_failed", [dict()], [dict(k=2)]),
        H("server", "h_refused", [dict()], [dict()]),
    ],
    bounds="uploads of up to 3 figures of seven kinds (ordinary, with nested tables, failing, failing behind a nested table, unknown, without number, other tables), of 24 figures and of figures of 70000 characters, with 1 (thorough 2) arbitrary letters, as HTML and as Word documents, once or twice; six ways not to be processable; requests with six field names, eight Accept headers and six file names",
    assumptions=["quart, aiofiles and asyncio deliver messages, files and multipart bodies as documented"],
)
REGISTRY["P35"] = dict(
    budget_quick=75,
    harnesses=[
        H("server", "h_data", [dict(), dict(n=2, holes=[("", "")])], [dict(n=2), dict(n=3, holes=[("", "")])]),
    ],
    bounds="documents of two figures with findings; up to 2 (thorough 3) arbitrary characters in one of seven places, alone and inside seven texts made to break out of the page; plain and bundled pages",
    assumptions=["quart, jinja2, aiofiles and asyncio work as documented"],
)

for _r in REGISTRY.values():
    for _h in _r["harnesses"]:
        if _h["module"] == "mixed" and _h["fn"] == "h_table":
            _r["bounds"] += "; whole tables of %s rows (thorough: one row more) against a reference model of the extraction: every combination of up to %d kinds of key, %d of name, %d of row, %d of nested content and %d of brief, in up to %d column orders, at top level%s, with symbolic letters and digits" % (
                " to ".join(sorted({str(q["n"]) for q in _h["quick"]})), max(len(q.get("keys", "1")) for q in _h["quick"]), max(len(q.get("names", "1")) for q in _h["quick"]),
                max(len(q.get("rowkinds", "1")) for q in _h["quick"]), max(len(q.get("decors", "1")) for q in _h["quick"]), max(q.get("briefs", 1) for q in _h["quick"]), max(len(q.get("orders", "1")) for q in _h["quick"]),
                " or nested in bytes, value and list rows, up to three tables deep" if any("wraps" in q for q in _h["quick"]) else "")
