"""Models of the content-inspecting str operations on strings with symbolic characters.

Each model forks through CTX.decide on exactly the character tests the operation depends on."""
from .core import (CTX, BASE, TOP, SymBool, SymInt, Unsupported, c_eq, c_is, c_map, c_pred, f_and, f_or,
                   f_not, has_sym, is_symc, mkbool, s_eq, CTX_MASKD, z3, deep_sym)


def isspace(c):
    return c_is(c, "space", str.isspace)


def at(s, sub, i):
    """formula: sub occurs in s at i"""
    if i < 0 or i + len(sub) > len(s):
        return False
    return s_eq(s[i:i + len(sub)], sub)


def occurs(s, sub, i):
    f = at(s, sub, i)
    return f if f is True or f is False else CTX.decide(f)


def _bounds(n, start, end):
    start = 0 if start is None else start.__index__()
    end = n if end is None else end.__index__()
    if end > n:
        end = n
    elif end < 0:
        end = max(0, end + n)
    if start < 0:
        start = max(0, start + n)
    return start, end


def find(s, sub, start=None, end=None):
    a, b = _bounds(len(s), start, end)
    for i in range(a, b - len(sub) + 1):
        if occurs(s, sub, i):
            return i
    return -1


def rfind(s, sub, start=None, end=None):
    a, b = _bounds(len(s), start, end)
    for i in range(b - len(sub), a - 1, -1):
        if occurs(s, sub, i):
            return i
    return -1


def index(s, sub, start=None, end=None):
    r = find(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def rindex(s, sub, start=None, end=None):
    r = rfind(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def count(s, sub, start=None, end=None):
    a, b = _bounds(len(s), start, end)
    if sub == "":
        return s[a:b].count("") if a <= b else 0
    n = 0
    i = a
    while i + len(sub) <= b:
        if occurs(s, sub, i):
            n += 1
            i += len(sub)
        else:
            i += 1
    return n


def contains(s, sub):
    if sub == "":
        return True
    return mkbool(f_or([at(s, sub, i) for i in range(0, len(s) - len(sub) + 1)]))


def startswith(s, pre, start=None, end=None):
    if start is not None or end is not None:
        a, b = _bounds(len(s), start, end)
        s = s[a:b]
    if isinstance(pre, tuple):
        return mkbool(f_or([at(s, p, 0) for p in pre]))
    return mkbool(at(s, pre, 0))


def endswith(s, suf, start=None, end=None):
    if start is not None or end is not None:
        a, b = _bounds(len(s), start, end)
        s = s[a:b]
    if isinstance(suf, tuple):
        return mkbool(f_or([at(s, p, len(s) - len(p)) for p in suf]))
    return mkbool(at(s, suf, len(s) - len(suf)))


def removeprefix(s, pre):
    return s[len(pre):] if startswith(s, pre) else s


def removesuffix(s, suf):
    return s[:len(s) - len(suf)] if suf and endswith(s, suf) else s


def _strip_test(chars):
    if chars is None:
        return isspace

    def t(c):
        f = f_or([c_eq(c, x) for x in chars])
        return f if f is True or f is False else CTX.decide(f)
    return t


def lstrip(s, chars=None):
    t = _strip_test(chars)
    i = 0
    while i < len(s) and t(s[i]):
        i += 1
    return s[i:]


def rstrip(s, chars=None):
    t = _strip_test(chars)
    i = len(s)
    while i > 0 and t(s[i - 1]):
        i -= 1
    return s[:i]


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def _split_ws(s, maxsplit):
    out = []
    i = 0
    n = len(s)
    while True:
        while i < n and isspace(s[i]):
            i += 1
        if i >= n:
            return out
        if maxsplit == 0:
            out.append(rstrip(s[i:]))
            return out
        j = i
        while j < n and not isspace(s[j]):
            j += 1
        out.append(s[i:j])
        maxsplit -= 1
        i = j


def split(s, sep=None, maxsplit=-1):
    maxsplit = maxsplit.__index__()
    if sep is None:
        return _split_ws(s, maxsplit)
    if sep == "":
        raise ValueError("empty separator")
    out = []
    i = last = 0
    while i + len(sep) <= len(s) and maxsplit != 0:
        if occurs(s, sep, i):
            out.append(s[last:i])
            i += len(sep)
            last = i
            maxsplit -= 1
        else:
            i += 1
    out.append(s[last:])
    return out


def rsplit(s, sep=None, maxsplit=-1):
    maxsplit = maxsplit.__index__()
    out = []
    if sep is None:
        i = len(s)
        while True:
            while i > 0 and isspace(s[i - 1]):
                i -= 1
            if i <= 0:
                break
            if maxsplit == 0:
                out.append(s[:i])
                break
            j = i
            while j > 0 and not isspace(s[j - 1]):
                j -= 1
            out.append(s[j:i])
            maxsplit -= 1
            i = j
        return out[::-1]
    if sep == "":
        raise ValueError("empty separator")
    last = len(s)
    i = last - len(sep)
    while i >= 0 and maxsplit != 0:
        if occurs(s, sep, i):
            out.append(s[i + len(sep):last])
            last = i
            i -= len(sep)
            maxsplit -= 1
        else:
            i -= 1
    out.append(s[:last])
    return out[::-1]


def partition(s, sep):
    i = find(s, sep)
    return (s, "", "") if i < 0 else (s[:i], sep, s[i + len(sep):])


def rpartition(s, sep):
    i = rfind(s, sep)
    return ("", "", s) if i < 0 else (s[:i], sep, s[i + len(sep):])


def splitlines(s, keepends=False):
    out = []
    i = last = 0
    ends = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
    while i < len(s):
        if c_is(s[i], "eol", lambda c: c in ends):
            e = i + 1
            if i + 1 < len(s) and s[i] == "\r" and s[i + 1] == "\n":
                e = i + 2
            out.append(s[last:e if keepends else i])
            last = i = e
        else:
            i += 1
    if last < len(s):
        out.append(s[last:])
    return out


def replace(s, old, new, count=-1):
    count = count.__index__()
    if len(old) == 1 and len(new) == 1 and not has_sym(old) and not has_sym(new) and count < 0:
        key = ("repl", old, new)
        return "".join(c_map(c, key, lambda x: new if x == old else x) for c in s)
    if old == "":
        # insert between all characters
        out = []
        n = len(s) + 1 if count < 0 else min(count, len(s) + 1)
        for i, c in enumerate(s):
            if i < n:
                out.append(new)
            out.append(c)
        if n > len(s):
            out.append(new)
        return "".join(out)
    out = []
    i = 0
    while i < len(s):
        if count != 0 and occurs(s, old, i):
            out.append(new)
            i += len(old)
            count -= 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def lower(s):
    return "".join(c_map(c, "lower", lambda x: x.lower()) for c in s)


def upper(s):
    return "".join(c_map(c, "upper", lambda x: x.upper()) for c in s)


def casefold(s):
    return "".join(c_map(c, "casefold", lambda x: x.casefold()) for c in s)


def swapcase(s):
    return "".join(c_map(c, "swapcase", lambda x: x.swapcase()) for c in s)


def capitalize(s):
    return "".join(c_map(c, "title1", lambda x: x.title()) if i == 0 else c_map(c, "lower", lambda x: x.lower())
                   for i, c in enumerate(s))


def title(s):
    out = []
    prev = False
    for c in s:
        out.append(c_map(c, "lower", lambda x: x.lower()) if prev else c_map(c, "title1", lambda x: x.title()))
        prev = c_is(c, "cased", lambda x: x.islower() or x.isupper() or x.istitle())
    return "".join(out)


def _all(name):
    fn = getattr(str, name)

    def m(s):
        if not s:
            return fn(s)
        return mkbool(f_and([c_pred(c, name, fn) for c in s]))
    m.__name__ = name
    return m


def isupper(s):
    return mkbool(f_and([f_not(f_or([c_pred(c, "islower", str.islower) for c in s])),
                         f_or([c_pred(c, "isupper", str.isupper) for c in s])]))


def islower(s):
    return mkbool(f_and([f_not(f_or([c_pred(c, "isupper", str.isupper) for c in s])),
                         f_or([c_pred(c, "islower", str.islower) for c in s])]))


def isidentifier(s):
    if not s:
        return False
    return mkbool(f_and([c_pred(s[0], "idstart", str.isidentifier)] +
                        [c_pred(c, "idcont", lambda x: ("a" + x).isidentifier()) for c in s[1:]]))


def translate(s, table):
    out = []
    simple = all(len(x) == 1 if isinstance(x, str) else isinstance(x, int) for x in table.values()) if isinstance(table, dict) else False
    for c in s:
        if not is_symc(c):
            out.append(c.translate(table))
            continue
        if simple:
            key = ("tr", tuple(sorted((k, v) for k, v in table.items())))
            out.append(c_map(c, key, lambda x: x.translate(table)))
        else:
            for k in list(table):
                if c_is(c, ("eq", k), lambda x: ord(x) == k):
                    c = chr(k).translate(table)
                    break
            out.append(c)
    return "".join(out)


def expandtabs(s, tabsize=8):
    for c in s:
        if is_symc(c):
            c_is(c, "tab", lambda x: x in "\t\n\r")
    CTX.kill(Unsupported("expandtabs"))


def encode(s, *a, **k):
    return str.encode(s)


MODELS = {f.__name__: f for f in (
    find, rfind, index, rindex, count, startswith, endswith, removeprefix, removesuffix, lstrip, rstrip, strip,
    split, rsplit, partition, rpartition, splitlines, replace, lower, upper, casefold, swapcase, capitalize, title,
    isupper, islower, isidentifier, translate)}
for _n in ("isdigit", "isalpha", "isalnum", "isspace", "isdecimal", "isnumeric", "isprintable", "isascii"):
    MODELS[_n] = _all(_n)
MODELS["istitle"] = None
MODELS["__contains__"] = contains
MODELS["__eq__"] = lambda a, b: mkbool(s_eq(a, b)) if isinstance(b, str) else NotImplemented
# structural operations that never look at the characters
NATIVE = {"join", "center", "ljust", "rjust", "format", "__len__", "__getitem__", "__iter__", "__add__", "__mul__",
          "__str__", "__format__", "encode", "__hash__", "__sizeof__", "__class__"}


def to_int(s):
    """int(s) in base 10"""
    t = strip(s)
    neg = False
    if t:
        if c_is(t[0], ("eq", 45), lambda c: c == "-"):
            neg = True
            t = t[1:]
        elif c_is(t[0], ("eq", 43), lambda c: c == "+"):
            t = t[1:]

    def bad():
        raise ValueError("invalid literal for int() with base 10: '...'")
    if not t:
        bad()
    digs = []
    prev_us = True
    for c in t:
        if c_is(c, "isdecimal", str.isdecimal):
            digs.append(c)
            prev_us = False
        elif not prev_us and c_is(c, ("eq", 95), lambda x: x == "_"):
            prev_us = True
        else:
            bad()
    if prev_us:
        bad()
    ds = "".join(digs)
    if not has_sym(ds):
        v = int(ds)
        return -v if neg else v
    tot = z3.IntVal(0)
    vs = set()
    for c in ds:
        if is_symc(c):
            vs.add(CTX.chars[ord(c) - BASE][0])
            tot = tot * 10 + (CTX.z_of_code(c) - 48)
        else:
            tot = tot * 10 + (ord(c) - 48)
    r = SymInt(z3.simplify(tot), frozenset(vs), None if neg else ds)
    return -r if neg else r


def to_int_base(s, base):
    from .rt import concretize
    return int(concretize(s), base)


def lt(a, b):
    """a < b, forking"""
    for x, y in zip(a, b):
        f = c_eq(x, y)
        if f is True:
            continue
        if f is not False and CTX.decide(f):
            continue
        if not is_symc(x) and not is_symc(y):
            return x < y
        if is_symc(x) and not is_symc(y):
            return c_is(x, ("lt", y), lambda c: c < y)
        if is_symc(y) and not is_symc(x):
            return c_is(y, ("gt", x), lambda c: x < c)
        va = CTX.chars[ord(x) - BASE][0]
        vb = CTX.chars[ord(y) - BASE][0]
        return CTX.decide(("z", CTX.z_of_code(x) < CTX.z_of_code(y), frozenset((va, vb))))
    return len(a) < len(b)


def order(op, a, b):
    if op == "<":
        return lt(a, b)
    if op == ">":
        return lt(b, a)
    if op == "<=":
        return not lt(b, a)
    return not lt(a, b)


def srepr(s):
    """repr of a string: fork on the characters that repr treats specially"""
    out = []
    sq = dq = False
    cs = []
    for c in s:
        if is_symc(c):
            for sp in "\\'\"\n\t\xa0\u2028":
                if c_is(c, ("eq", ord(sp)), lambda x: x == sp):
                    c = sp
                    break
        if c == "'":
            sq = True
        if c == '"':
            dq = True
        cs.append(c)
    q = '"' if sq and not dq else "'"
    for c in cs:
        if is_symc(c):
            out.append(c)
        elif c == "'" and q == "'":
            out.append("\\'")
        else:
            r = repr(c)[1:-1]
            out.append('"' if c == '"' else "'" if c == "'" else r)
    return q + "".join(out) + q


def expose(s, specials):
    """fork so that every symbolic character is either one of `specials` (concrete) or known to be none of them"""
    if not has_sym(s):
        return s
    out = []
    for c in s:
        if is_symc(c):
            f = c_pred(c, ("spec", specials), lambda x: x in specials)
            if f is True or (f is not False and CTX.decide(f)):
                c = CTX.concretize_char(c)
        out.append(c)
    return "".join(out)
