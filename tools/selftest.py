"""Differential self test of the engine's str / re models against Python (random concrete inputs driven through the
symbolic code by pinning every symbolic character)."""
import random, re, sys, os
sys.path.insert(0, "/verif")
from symx import core, rt, rx, strs
from symx.core import CTX
import builtins
builtins._sx_ = rt
rt.init()
rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
PATS = [r"(?P<high>\d+)\s*(:\s*(?P<low>\d+))?", r"^(?P<label>[\w\s,-/&]*)\(?(?P<acronym>[\w\s\d]*)?\)?:?(?P<brief>.+)?$",
        r"^[\s]*[\.\.\.]|[…][\s]*$", r"^[a-zA-Z][\w]*$", r"^(\d+)(.*)", r"^Figure (?P<id>\d+):.*", r"Figure\s+(?P<figid>[^\s^:]+).*",
        r".*[Rr]evision\s+(?P<rev>\S+).*", r"a*?b|c+", r"(a|b)*c", r"\bx\b", r"(?i)fig", r"(a)?(?(1)b|c)", r"[^a-c]+$", r"(\w)\1", r"x{2,3}", " +", r"(?=a)a|(?!b).", "",
        r"a*", r"(ab|a)(bc|c)?$", r"\Aa.*\Z"]
CH = "aAbBcxſsS19 :-_/().,\n\t\xa0…é&FigR"
def inputs(s):
    CTX.reset_path([])
    vs = []
    out = []
    for c in s:
        if rnd.random() < 0.2:
            out.append(c); continue
        v = CTX.new_char()
        vs.append((v, c)); out.append(CTX.char(v))
    return "".join(out), vs
def pin(vs):
    # force decisions: restrict domain just before use is not possible, so pin at once but keep symbolic form
    for v, c in vs:
        CTX.dom[v] = 1 << core.INDEX[ord(c)]
def conc(v, vs):
    m = {}
    for var, c in vs: m[var] = ord(c)
    CTX._char_vals = m
    if not hasattr(CTX, '_m'):
        sv = core.z3.Solver(); sv.check(); CTX._m = sv.model()
    return CTX.subst(v)
bad = 0
CTX.new_job(None)
CTX.active = True
def norm(m):
    return None if m is None else [m.span(i) for i in range(m.re.groups + 1)]
for it in range(6000):
    s = "".join(rnd.choice(CH) for _ in range(rnd.randrange(0, 9)))
    if rnd.random() < 0.3: s = rnd.choice(["Figure ", "12:3", "Revision 1.0", "AB (cd): x", "aab", "xx"]) + s
    sym, vs = inputs(s); pin(vs)
    pat = rnd.choice(PATS); fl = rnd.choice([0, 0, re.DOTALL, re.I, re.M])
    p = re.compile(pat, fl)
    for meth in ("match", "search", "fullmatch", "findall", "split", "sub"):
        if meth == "sub":
            w = p.sub(r"<\g<0>>", s); g = conc(rt.call(p.sub, r"<\g<0>>", sym), vs)
        elif meth in ("findall", "split"):
            w = getattr(p, meth)(s); w = [list(x) if isinstance(x, tuple) else x for x in w]
            g = conc(rt.call(getattr(p, meth), sym), vs)
        else:
            w = norm(getattr(p, meth)(s)); g = norm(rt.call(getattr(p, meth), sym))
        if w != g:
            bad += 1
            if bad < 10: print("RX", meth, repr(pat), fl, repr(s), w, g)
    for meth, args in (("strip", ()), ("lstrip", ()), ("rstrip", (".",)), ("strip", ("_a",)), ("split", ()), ("split", (":",)), ("split", (":", 1)), ("rsplit", (None, 1)), ("partition", (":",)), ("rpartition", ("_",)),
                       ("replace", ("__", "_")), ("replace", (" ", "_")), ("replace", ("a", "")), ("replace", ("", "x")), ("upper", ()), ("lower", ()), ("title", ()), ("capitalize", ()), ("swapcase", ()),
                       ("find", ("a",)), ("rfind", ("a", 1)), ("count", ("a",)), ("startswith", ("a",)), ("endswith", (("a", "b"),)), ("isdigit", ()), ("isalpha", ()), ("isalnum", ()), ("isupper", ()), ("islower", ()),
                       ("isidentifier", ()), ("isspace", ()), ("splitlines", ()), ("removeprefix", ("a",)), ("removesuffix", ("a",)), ("translate", ({97: "xy", 98: None},)), ("isdecimal", ()), ("isprintable", ())):
        try: w = getattr(s, meth)(*args)
        except Exception as e: w = type(e).__name__
        if isinstance(w, tuple): w = list(w)
        try:
            g = conc(rt.call(getattr(sym, meth), *args), vs)
        except Exception as e: g = type(e).__name__
        if w != g:
            bad += 1
            if bad < 20: print("STR", meth, args, repr(s), repr(w), repr(g))
    for fn in (repr, int, lambda x: rt.call(sorted, x)):
        try: w = fn(s)
        except Exception as e: w = type(e).__name__
        try: g = conc(rt.call(fn, sym), vs)
        except Exception as e: g = type(e).__name__
        if fn in (repr, int) and w != g:
            bad += 1
            if bad < 20: print("FN", fn, repr(s), repr(w), repr(g))
    import json
    for ea in (True, False):
        w = json.dumps({"k": [s, 1, None]}, indent=2, ensure_ascii=ea); sy, vs2 = inputs(s); pin(vs2)
        g = conc(rt.call(json.dumps, {"k": [sy, 1, None]}, indent=2, ensure_ascii=ea), vs2)
        if w != g:
            bad += 1; print("JSON", repr(s), w, g)
    a = "".join(rnd.choice(CH) for _ in range(rnd.randrange(0, 3))); b = "".join(rnd.choice(CH) for _ in range(rnd.randrange(0, 3)))
    CTX.reset_path([])
    va = []; 
    def mk(x):
        o = []
        for c in x:
            v = CTX.new_char(); va.append((v, c)); o.append(CTX.char(v))
        return "".join(o)
    sa, sb = mk(a), mk(b); pin(va)
    for op in ("==", "!=", "<", "<=", ">", ">=", "in", "not in"):
        w = rt._NATIVE_CMP[op](a, b); g = bool(rt.cmp(op, sa, sb))
        if w != g:
            bad += 1; print("CMP", op, repr(a), repr(b), w, g)
print("mismatches", bad)
