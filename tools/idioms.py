#!/usr/bin/env python3
"""idioms.py [SEED]   differential test of the instrumentation: functions in many idioms, run natively on concrete texts and
instrumented on symbolic characters pinned to the same texts"""
import random
import sys

sys.path.insert(0, "/verif")
import builtins

from symx import core, instr, rt
from symx.core import CTX

builtins._sx_ = rt
rt.init()
rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)

SRC = r'''
import bisect, collections, contextlib, copy, dataclasses, enum, fnmatch, functools, heapq, html, itertools, json, operator, re, string, textwrap, types, unicodedata, xml.sax.saxutils
from functools import partial, reduce, lru_cache
from itertools import groupby, takewhile, dropwhile, chain, accumulate, zip_longest, pairwise, starmap, filterfalse, islice
from operator import itemgetter, attrgetter, methodcaller
from typing import NamedTuple, List

class Col(enum.Enum):
    A = "a"
    b = "c"

@dataclasses.dataclass(frozen=True)
class DC:
    a: str
    b: str = ""

@dataclasses.dataclass(order=True)
class DO:
    a: str
    b: str = ""

class NT(NamedTuple):
    a: str
    b: str

class Own:
    def __init__(self, a): self.a = a
    def __eq__(self, o): return isinstance(o, Own) and self.a == o.a
    def __hash__(self): return hash(self.a)
    def __lt__(self, o): return self.a < o.a

class Prop:
    def __init__(self, a): self._a = a
    @property
    def a(self): return self._a.upper()
    @functools.cached_property
    def low(self): return self._a.lower()
    @staticmethod
    def st(x): return x.strip()
    @classmethod
    def cl(cls, x): return cls(x).a

def i01(s, t): return [list(g) for k, g in groupby(sorted(s), key=str.lower)]
def i02(s, t): return ["".join(g) for k, g in groupby(s)]
def i03(s, t): return "".join(takewhile(str.isdigit, s))
def i04(s, t): return "".join(dropwhile(lambda c: c in " _", s))
def i05(s, t): return list(dict.fromkeys(s + t))
def i06(s, t): return list(dict.fromkeys([s, t, s]))
def i07(s, t): return len({DC(s), DC(t)})
def i08(s, t): return DC(s) == DC(t), DC(s) in [DC(t)], DC(s) in {DC(t): 1}
def i09(s, t): return NT(s, t) == NT(t, s), len({NT(s, t), NT(t, s)})
def i10(s, t): return Own(s) == Own(t), len({Own(s), Own(t)}), Own(s) in {Own(t): 2}
def i11(s, t): return [x.a for x in sorted([Own(s), Own(t)])]
def i12(s, t): return sorted([DO(s), DO(t)])[0].a
def i13(s, t): return Prop(s).a + Prop(t).low + Prop.st(s) + Prop.cl(t)
def i14(s, t): return partial(str.replace, s)("a", "b")
def i15(s, t): return list(map(methodcaller("strip"), [s, t]))
def i16(s, t): return itemgetter(0)(s + "x"), itemgetter(t)({t: 3, "q": 4})
def i17(s, t): return reduce(lambda a, b: a + b.upper(), s.split(), "")
def i18(s, t): return [a == b for a, b in zip_longest(s, t, fillvalue="")]
def i19(s, t): return [a + b for a, b in pairwise(s)]
def i20(s, t): return list(filterfalse(str.isspace, s))
def i21(s, t): return list(accumulate(s.split(":"), lambda a, b: b if b > a else a))
def i22(s, t): return html.escape(s), html.unescape(html.escape(t))
def i23(s, t): return xml.sax.saxutils.escape(s), xml.sax.saxutils.quoteattr(t)
def i24(s, t): return textwrap.shorten("ab " + s + " cd efgh", width=9, placeholder="~")
def i25(s, t): return textwrap.dedent("  " + s)
def i26(s, t): return string.capwords(s)
def i27(s, t): return fnmatch.fnmatch(s, "*.x"), fnmatch.fnmatchcase(t, "a?*")
def i28(s, t): return unicodedata.normalize("NFKC", s)
def i29(s, t): return s.isidentifier(), s.isalnum(), s.isascii(), s.isprintable(), s.isnumeric(), s.isdecimal(), s.istitle()
def i30(s, t): return s.__contains__(t), s.__eq__(t), s.__len__(), s.__add__(t)
def i31(s, t): return any(map(s.__eq__, [t, s])), list(filter(s.__contains__, ["a", t]))
def i32(s, t): return all(c.isalpha() or c == "_" for c in s), any(c == t for c in s)
def i33(s, t): return [x for x in [s, t] if x not in (seen := set()) and not seen.add(x)]
def i34(s, t): 
    d = collections.defaultdict(list)
    for i, c in enumerate(s + t): d[c.lower()].append(i)
    return sorted(d.items())
def i35(s, t): return collections.Counter(s).most_common(1)[0][1] if s else 0
def i36(s, t):
    match s:
        case "" | "a": return 1
        case x if x.startswith("b"): return 2
        case _: return 3
def i37(s, t):
    match [s, t]:
        case ["a", x]: return x
        case [x, "b"]: return x * 2
        case [x, y] if x == y: return "eq"
        case _: return None
def i38(s, t):
    match {"k": s, "v": t}:
        case {"k": "a", **rest}: return rest
        case {"k": k, "v": ("b" | "c") as v}: return k + v
        case _: return None
def i39(s, t):
    match DC(s, t):
        case DC("a"): return 0
        case DC(a=a, b="b"): return a
        case DC(a, b): return a + "|" + b
def i40(s, t):
    match (s, t):
        case ("a", *_): return 1
        case (_, "b"): return 2
    return 0
def i41(s, t):
    try: return int(s)
    except ValueError: return None
def i42(s, t):
    try: return int(s, 16)
    except ValueError: return None
def i43(s, t):
    try: return float(s)
    except ValueError: return None
def i44(s, t): return "%s-%r-%5s|%-4s|" % (s, 1, t, s)
def i45(s, t): return f"{s:>6}|{t:<5}|{s!s:^7}|"
def i46(s, t): return "{0}{1}{0}".format(s, t), "{a}{b:>4}".format(a=s, b=t)
def i47(s, t): return s.center(7, "*") + t.ljust(5) + s.rjust(4) + t.zfill(5)
def i48(s, t): return s.expandtabs(4), t.splitlines(), s.casefold() == t.casefold()
def i49(s, t): return s.translate({32: "_", 45: None}), t.translate(str.maketrans("ab", "xy", " "))
def i50(s, t): return re.sub(r"[^\w]+", lambda m: "<" + m.group(0) + ">", s)
def i51(s, t): return re.split(r"(\s|,)", s), re.findall(r"\w+", t)
def i52(s, t): return [m.group() for m in re.finditer(r"[a-c]+", s)]
def i53(s, t): return re.sub("(a)|b", r"[\1]", s), re.subn("_+", "_", t)
def i54(s, t): return bool(re.fullmatch(r"(?i:[a-f0-9]{2})", s)), bool(re.match(r"(?P<q>['\"]?)x(?P=q)", t))
def i55(s, t): return sorted([s, t, "b"], key=lambda x: (len(x), x)), min(s, t), max([s, t], key=str.lower)
def i56(s, t): return s < t, s <= t, (s, t) < (t, s), [s] > [t]
def i57(s, t): return s[::-1], s[1:], t[-1:], s[:1] + t[1:2]
def i58(s, t): return s.partition(":"), t.rpartition("_"), s.split(":", 1), t.rsplit(None, 1)
def i59(s, t): return [*s], {*t} == set(t), {**{s: 1}, **{t: 2}}.get("a")
def i60(s, t):
    d = {s: 1}
    d |= {t: 2}
    return len(d), d.get("a", 0), s in d, list(d.values())
def i61(s, t): return len(set(s) & set(t)), len(set(s) | set("ab")), len(set(s) - {"a"}), len(set(s) ^ set(t))
def i62(s, t): return {s, t}.issubset({"a", "b", t}), {s}.isdisjoint({t}), frozenset([s]) == frozenset([t])
def i63(s, t):
    l = list(s)
    while l and l[0] in " _": l.pop(0)
    return "".join(l)
def i64(s, t):
    it = iter(s)
    out = []
    while (c := next(it, None)) is not None:
        out.append(c)
        if c == "a": break
    return out
def i65(s, t): return ord(s[0]) - 97 if s else None
def i66(s, t): return chr(ord(s[0]) + 1) if s and s[0] in "abc" else ""
def i67(s, t): return s.find(t), s.rfind("a"), s.count("a"), s.index("a") if "a" in s else -1
def i68(s, t): return s.startswith(("a", "b")), t.endswith("_"), s.removeprefix("a"), t.removesuffix("b")
def i69(s, t): return bool(s.strip()), not t, s and t, s or t
def i70(s, t): return json.loads(json.dumps({"a": s, "b": [t]})) == {"a": s, "b": [t]}
def i71(s, t): return json.dumps([s, t], ensure_ascii=False, indent=1), json.JSONEncoder().encode(s)
def i72(s, t): return Col.__members__.get(s) is not None, s in [c.value for c in Col], s in Col.__members__
def i73(s, t):
    try: return Col(s).name
    except ValueError: return ""
def i74(s, t):
    try: return Col[t].value
    except KeyError: return ""
def i75(s, t):
    try: return Col.__getitem__(t).value
    except KeyError: return ""
def i76(s, t): return getattr(Col, "A").value == s
@lru_cache(maxsize=None)
def _memo(x): return x.upper()
def i77(s, t): return _memo(s) + _memo(t) + _memo(s)
def i78(s, t): return str(s) + repr(t)[1:-1] + "".join(str(x) for x in [s, 1])
def i79(s, t): return bisect.bisect_left(["a", "b"], s[:1])
def i80(s, t):
    l = ["b"]
    bisect.insort(l, s)
    return l
def i81(s, t):
    h = [s, t, "b"]
    heapq.heapify(h)
    return heapq.heappop(h)
def i82(s, t): return collections.deque(s, maxlen=2)[0] if s else "", t in collections.deque([s, "a"])
def i83(s, t): return list(itertools.compress(s, [c == "a" for c in s])), list(islice(t, 1, None))
def i84(s, t): return [p for p, q in itertools.product(s, t) if p == q], list(itertools.combinations(s, 2))[:2]
def i85(s, t): return sum(c == "a" for c in s), sum(1 for c in t if c.isupper())
def i86(s, t): return dict(zip(s, range(9))).get("a"), dict([(s, 1), (t, 2)]).get(s)
def i87(s, t): return {k.lower(): v for k, v in ((s, 1), (t, 2))}, {c for c in s if c != "a"} == set(s) - {"a"}
def i88(s, t): return tuple(s).count("a"), list(t).index("b") if "b" in list(t) else None
def i89(s, t):
    a, *b = s + "x"
    *c, d = t + "y"
    return a, b, c, d
def i90(s, t): return copy.copy([s]) == [t], copy.deepcopy({"a": s})["a"] == t
def i91(s, t): return [n for n, c in enumerate(s, 1) if c in {"a", "_"}]
def i92(s, t): return next((c for c in s if c.isdigit()), None), next(filter(str.isupper, t), "-")
def i93(s, t): return "".join(reversed(s)), list(reversed([s, t])) == [t, s]
def i94(s, t): return s * 2 == t + t, s + t == t + s
def i95(s, t): return s is t, s != t, not s == t
def i96(s, t): return all(map(operator.eq, s, t)), list(map(lambda a, b: a + b, s, t))
def i97(s, t): return re.compile(r"\s+").split(s.strip()), re.compile("a|b").sub("-", t, count=1)
def i98(s, t): return s.encode("utf-8").decode("utf-8") == s, len(t.encode())
def i99(s, t): return " ".join(s.split()), "_".join(filter(None, re.split(r"[\s_-]+", t)))
def j01(s, t): return isinstance(s, str), type(s) is str, type(t).__name__, s.__class__ is str
def j02(s, t): return hash(s) == hash(t) or s != t
def j03(s, t):
    out = ""
    for i in range(len(s)):
        if i and s[i] == s[i - 1]: continue
        out += s[i]
    return out
def j04(s, t): return attrgetter("a")(DC(s)) + attrgetter("a", "b")(DC(s, t))[1]
def j05(s, t): return dataclasses.replace(DC(s), b=t).b, dataclasses.asdict(DC(s, t)), dataclasses.astuple(DC(s, t))
def j06(s, t): return NT(s, t)._replace(a=t).a, NT(s, t)._asdict()
def j07(s, t): return operator.contains(s, t), operator.concat(s, t), operator.not_(s == t), operator.and_(s == t, True)
def j08(s, t): return (lambda *, a, b="x": a + b)(a=s), (lambda *a: a[-1])(s, t)
def j09(s, t): return [w[0].upper() + w[1:] for w in s.split()], s.title(), s.capitalize(), s.swapcase()
def j10(s, t): return s.isupper(), s.islower(), t.isspace(), t.isdigit(), t.isalpha()
def j11(s, t):
    global G
    G = s
    def inner():
        nonlocal t
        t = t + G
        return t
    return inner()
def j12(s, t):
    try:
        assert s != t, "same"
    except AssertionError as e:
        return str(e)
    return ""
def j13(s, t): return html.escape(s, quote=False), html.escape(t, False)
def j14(s, t): return max(s, default="-"), min(t, default="-"), sorted(s, reverse=True), sorted(t, key=str.casefold)
def j15(s, t): return s in ["a", t], s not in ("b", t), (s, 1) in [(t, 1)], [s] in [[t]]
def j16(s, t): return re.match(r"^(?P<a>\w*):?(?P<b>.*)$", s) is not None and re.match(r"^(?P<a>\w*):?(?P<b>.*)$", s).groupdict()
def j17(s, t): return (m := re.search(r"(\d+)", s)) and (m.start(), m.end(), m.span(1), m[1], m.string == s)
def j18(s, t): return m.expand(r"\1-\g<2>") if (m := re.match("(a)(.)", s)) else None, re.escape(t)
def j19(s, t): return functools.cmp_to_key(lambda a, b: (a > b) - (a < b))(s) < functools.cmp_to_key(lambda a, b: (a > b) - (a < b))(t)
def j20(s, t): return list(itertools.chain.from_iterable([s, t])), list(chain(s, t))[:3], list(starmap(str.__add__, [(s, t)]))
def j21(s, t):
    c = collections.Counter()
    c.update([s]); c.update([t, s]); c.subtract(["a"])
    return c[s], c.most_common(1)[0][1], sum(c.values()), c["a"]
def j22(s, t):
    m = collections.ChainMap({s: 1}, {t: 2}, {"a": 3})
    return m.get(s), m[t], "a" in m, m.get("zz", 9), m.get("b")
def j23(s, t):
    d = collections.OrderedDict([("a", 1), (s, 2)])
    d[t] = 3
    d.move_to_end("a") if "a" in d else None
    return list(d.values()), d.popitem(last=False)[1], d.get(s), t in d
def j24(s, t):
    q = collections.deque([s, t, "a"])
    return q.index("a"), q.count(s), [q.popleft() == "a", q.pop() == s], q and q[0] == t
def j25(s, t):
    q = collections.deque([s, t])
    try: q.remove("a")
    except ValueError: return None
    return list(q)
def j26(s, t):
    d = {}
    d.setdefault(s, []).append(1)
    d.setdefault(t, []).append(2)
    return [len(v) for v in d.values()], d.pop(s), d.pop("a", None), len(d)
def j27(s, t): return sum(map(str.isdigit, s)), list(map(str.upper, [s, t])), list(map(len, (s, t)))
def j28(s, t): return string.Template("$a-${b}").substitute(a=s, b=t)
def j29(s, t): return list(re.compile("(?P<n>[0-9]+)|(?P<w>[a-z]+)", re.I).finditer(s)) and [m.lastgroup for m in re.finditer("(?P<n>[0-9]+)|(?P<w>[a-z]+)", s)]
def j30(s, t): return {"a": 1}.keys() & {s}, {s: 1}.keys() <= {t, s}, {s: 1}.items() == {t: 1}.items()
def j31(s, t): return list(zip(s, t)), dict(enumerate(s)) == dict(enumerate(t)), list(zip(*[(s, 1), (t, 2)]))
class Slots:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
    def __eq__(self, o): return isinstance(o, Slots) and self.v == o.v
    def __hash__(self): return hash("k")
    def __contains__(self, x): return x in self.v
    def __getitem__(self, k): return self.v[k]
    def __bool__(self): return self.v != "a"
    def __lt__(self, o): return self.v < o.v
    def __add__(self, o): return Slots(self.v + o.v)
    def __str__(self): return "<" + self.v + ">"
    def __len__(self): return len(self.v)
    def __iter__(self): return iter(self.v)
    def __call__(self, x): return self.v.replace(x, "")
    def __format__(self, spec): return self.v.upper() + spec
    def __getattr__(self, n): return n + self.v
def j32(s, t): return Slots(s) == Slots(t), "a" in Slots(s), bool(Slots(s)), Slots(s) in [Slots(t)], sorted([Slots(s), Slots(t)])[0].v
def j33(s, t): return str(Slots(s) + Slots(t)), f"{Slots(s):x}", "{}".format(Slots(t)), len(Slots(s)), list(Slots(t)), Slots(s)("a"), Slots(t).zz
def j34(s, t): return len({Slots(s), Slots(t)}), Slots(s) in {Slots(t)}, {Slots(s): 1}.get(Slots(t))
@contextlib.contextmanager
def _cm(x):
    l = [x]
    try: yield l
    except KeyError as e: l.append(e.args[0])
    finally: l.append("end")
def j35(s, t):
    with _cm(s) as l:
        l.append({"a": t}[s])
    return l
def j36(s, t):
    with contextlib.suppress(ValueError):
        return s.index(t)
    return -1
def j37(s, t):
    with contextlib.ExitStack() as st:
        out = []
        st.callback(out.append, t)
        out.append(s)
    return out
@functools.singledispatch
def _sd(x): return "?" + str(x)
@_sd.register
def _(x: str): return "s" + x
@_sd.register(list)
def _(x): return "l" + "".join(x)
def j38(s, t): return _sd(s), _sd([t, s]), _sd(3)
def j39(s, t):
    def g():
        x = yield s
        while x != "a":
            x = yield (x or "") + t
        return "done"
    it = g()
    out = [next(it)]
    try: out.append(it.send(t)); out.append(it.send("a"))
    except StopIteration as e: out.append(e.value)
    return out
def j40(s, t): return [x for x in iter(iter(list(s) + ["a", "z"]).__next__, "a")]
def j41(s, t): return s.replace("a", t), s.replace("a", "b", 1), s.replace("", "-"), t.replace(s, "!") if s else t
def j42(s, t): return s.strip("a_"), s.lstrip(), t.rstrip("."), s.strip(t or None)
def j43(s, t): return "a" <= s[:1] <= "z", s[:1] in "0123456789", not (s > t), "" < s
def j44(s, t): return int(s) + 1 if s.isdecimal() and s.isascii() else divmod(len(s), 2), "%03d" % len(t)
def j45(s, t):
    for i, c in enumerate(s):
        if c == "a": break
    else:
        return "none"
    return i
def j46(s, t):
    try:
        {"a": 1}[s]
    except KeyError as e:
        return str(e), e.args
    else:
        return "ok"
    finally:
        t = ""
def j47(s, t): return json.dumps({s: t}), json.dumps([s, None, True, 1.5], separators=(",", ":")), json.loads('["' + "x" + '"]')
def j48(s, t): return re.sub(r"(?<=a)b", "X", s), re.sub(r"a(?!b)", "Y", s), re.sub(r"\Aa|b\Z", "", t), re.sub("(?i)A", "-", s)
def j49(s, t): return re.match(r"a*?b", s) is None, re.match(r"(?:ab|a)(?:c|bc)", s) is None, re.search(r"^\s*$", t, re.M) is None
def j50(s, t): return re.split(r"[:,]\s*", s, maxsplit=1), re.split("a", t, 1), re.compile(r"(a)|(b)").findall(s)
def j51(s, t): return s.split(), s.split(" "), s.rsplit(":", 1), s.splitlines(True), t.split(s) if s else []
def j52(s, t): return " ".join([s, t]), s.join(["a", "b"]), "".join(sorted(s)), "-".join(s)
def j53(s, t): return tuple(s) < tuple(t), [s, t] == sorted([s, t]), max((s, t)), min([t, s], key=len)
def j54(s, t):
    st = collections.namedtuple("P", "x y")(s, t)
    x, y = st
    return st.x + y, st == (s, t), st._asdict()["y"], st[0], x in st
def j55(s, t):
    d = types.SimpleNamespace(a=s, b=t)
    return d.a == d.b, vars(d)["a"], getattr(d, "b"), getattr(d, "c", s), hasattr(d, "a"), d == types.SimpleNamespace(a=t, b=s)
def j56(s, t):
    class E(Exception):
        def __init__(self, m, x): super().__init__(m); self.x = x
    try: raise E(s, t) from KeyError(t)
    except (ValueError, E) as e: return e.x, str(e), e.__cause__.args[0], e.args
def j57(s, t):
    l = [s, t, "a"]
    l.sort(key=lambda x: (len(x), x)); i = l.index("a"); l.insert(0, t); del l[1:2]; l.extend(s); l.remove("a") if "a" in l else None
    return l, i, l.count(t), l[:] == l, l * 1
def j58(s, t): return {k: [x for x in (s, t) if x[:1] == k] for k in {s[:1], t[:1]}} == {t[:1]: [x for x in (s, t) if x[:1] == t[:1]], s[:1]: [x for x in (s, t) if x[:1] == s[:1]]}
def j59(s, t): return any(s.startswith(p) for p in ("a", "1", t)), all([s, t]), any(c in t for c in s), not any(map(t.__contains__, s))
def j60(s, t): return list(map(str.strip, s.split(","))), [y for x in s.split() for y in x.split(":") if y], [a or b for a, b in zip(s, t)]
def j61(s, t): return s.upper().lower() == s.lower(), s.casefold() in {t.casefold()}, s.lower().startswith("note"), s.title().istitle()
def j62(s, t): return ("yes" if s == "a" else "no") + ("" if t else "x"), (s or t or "z")[0], (s and t and "q"), not s == "" and s[0]
def j63(s, t): return sorted({s, t, "b"}), sorted({s: 1, t: 2}.items()), sorted([(t, 1), (s, 0)])[0][1], sorted([s, t], key=lambda x: x.count("a"), reverse=True)
def j64(s, t): return reduce(lambda a, b: a if a == b else a + b, [s, t, s]), reduce(operator.add, [s, t], ""), reduce(max, s, "a")
def j65(s, t): return re.fullmatch(r"[A-Za-z]\w*", s) is not None, bool(re.compile("[a-z]+", re.IGNORECASE).fullmatch(t)), re.match("x?", s).end()
def j66(s, t): return s[len(t):] == t[len(s):], s[:-1] + t[1::2], s[slice(1, None)], s.__getitem__(slice(0, 1))
def j67(s, t):
    table = {"a": lambda: 1, "b": lambda: 2}
    return table.get(s, lambda: 0)(), table["a" if t == s else "b"]()
def j68(s, t):
    n = 0
    while n < len(s) and s[n] != ":": n += 1
    return s[:n], s[n + 1:]
def j69(s, t): return textwrap.dedent(s), textwrap.indent(t, "> "), textwrap.fill(s, 5) if s.strip() else ""
def j70(s, t): return Col.A.value == s, Col("x") if s == "x" else None, [c for c in Col if c.name == s], s in Col._value2member_map_
'''


def natives():
    ns = {"__name__": "idioms"}
    exec(compile(SRC, "<n>", "exec"), ns)
    return ns


def instrumented():
    ns = {"__name__": "idioms"}
    exec(instr.transform(SRC, "<i>", "idioms"), ns)
    return ns


def sym(s):
    vs, out = [], []
    for c in s:
        if rnd.random() < 0.15:
            out.append(c)
            continue
        v = CTX.new_char()
        vs.append((v, c))
        out.append(CTX.char(v))
    return "".join(out), vs


def conc(v, m):
    CTX._char_vals = m
    if isinstance(v, (set, frozenset)):
        return type(v)(conc(x, m) for x in v)
    if isinstance(v, (list, tuple)):
        return type(v)([conc(x, m) for x in v]) if not hasattr(v, "_fields") else tuple(conc(x, m) for x in v)
    if isinstance(v, dict):
        return {conc(a, m): conc(b, m) for a, b in v.items()}
    if isinstance(v, core.SymBool):
        return bool(v)
    if v is None or isinstance(v, (bool, float)):
        return v
    return CTX.subst(v)


CH = "aAbBcx19 :-_/(.\n\xa0…é&<'\""


def main():
    nat, ins = natives(), instrumented()
    CTX.new_job(None)
    sv = core.z3.Solver()
    sv.check()
    CTX._m = sv.model()
    bad = {}
    for name in sorted(n for n in nat if len(n) == 3 and n[0] in "ij" and n[1:].isdigit()):
        for it in range(int(sys.argv[2]) if len(sys.argv) > 2 else 150):
            s = "".join(rnd.choice(CH) for _ in range(rnd.randrange(0, 6)))
            t = s.swapcase() if rnd.random() < 0.2 else s if rnd.random() < 0.2 else "".join(rnd.choice(CH) for _ in range(rnd.randrange(0, 4)))
            try:
                for ns in (nat, ins):
                    for v in ns.values():
                        if hasattr(v, "cache_clear"):
                            v.cache_clear()
                w = nat[name](s, t)
            except Exception as e:
                w = type(e).__name__
            CTX.active = True
            CTX.reset_path([])
            ss, v1 = sym(s)
            tt, v2 = sym(t)
            for v, c in v1 + v2:
                CTX.dom[v] = 1 << core.INDEX[ord(c)]
            try:
                g = conc(ins[name](ss, tt), {v: ord(c) for v, c in v1 + v2})
            except BaseException as e:
                g = type(e).__name__ + ("" if isinstance(w, str) else ": %s" % e)
            CTX.active = False
            if g != w and repr(g) != repr(w):
                bad.setdefault(name, []).append((s, t, w, g))
    for n, l in bad.items():
        print(n, len(l), l[0])
    print(len(bad), "idioms differ")


main()
