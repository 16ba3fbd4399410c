"""Runtime called by instrumented code (installed as builtins._sx_)."""
import bisect
import builtins
import collections
import copy
import dataclasses
import enum
import functools
import heapq
import html as _html
import io
import itertools
import json as _json
import operator
import os
import pathlib
import posixpath
import re
import sys
import types
import unicodedata

from . import rx, strs
from .core import (BASE, CTX, TOP, Budget, Hang, SymBool, SymInt, Unsupported, c_eq, c_is, deep_sym, f_and, f_not,
                   f_or, form, has_sym, is_symc, mkbool, s_eq)

STR_MODELS = strs.MODELS
STR_NATIVE = strs.NATIVE
_absent = object()
_VIEWS = (type({}.keys()), type({}.items()))


# ------------------------------------------------------------------ equality
def eqf(a, b):
    """formula of a == b"""
    if a is b:
        return True
    if isinstance(a, str):
        if not isinstance(b, str):
            return form(a == b)
        if has_sym(a) or has_sym(b):
            return s_eq(a, b)
        return str.__eq__(a, b)
    ta = type(a)
    if ta in (list, tuple) or isinstance(a, (list, tuple)):
        if not isinstance(b, list if isinstance(a, list) else tuple):
            return form(a == b)
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            f = eqf(x, y)
            if f is False:
                return False
            fs.append(f)
        return f_and(fs)
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return form(a == b)
        if not (deep_sym(a, 24) or deep_sym(b, 24)):
            return form(a == b)
        if len(a) != len(b):
            return False
        fs = []
        for k, v in a.items():
            # keys are pairwise different on this path; find the partner
            kk = dkey(b, k)
            if kk is _absent:
                return False
            fs.append(eqf(v, dict.__getitem__(b, kk)))
        return f_and(fs)
    if isinstance(a, _VIEWS) and isinstance(b, (set, frozenset) + _VIEWS) and (any(deep_sym(x) for x in a) or any(deep_sym(x) for x in b)):
        return eqf(mkset(a), mkset(b))
    if type(a) is types.SimpleNamespace and type(b) is types.SimpleNamespace:
        return eqf(vars(a), vars(b))
    if isinstance(a, (set, frozenset)):
        if not isinstance(b, (set, frozenset)):
            return form(a == b)
        if not (deep_sym(a, 24) or deep_sym(b, 24)):
            return form(a == b)
        if len(a) != len(b):
            return False
        return all(skey(b, x) is not _absent for x in a)
    if dataclasses.is_dataclass(a) and type(a) is type(b) and a.__dataclass_params__.eq \
            and getattr(type(a).__eq__, "__qualname__", "").endswith("__eq__") and "__dataclass_fields__" in dir(a) \
            and type(a).__eq__.__code__.co_filename == "<string>":
        fs = [f.name for f in dataclasses.fields(a) if f.compare]
        return f_and([eqf(getattr(a, n), getattr(b, n)) for n in fs])
    return form(a == b)


def eq(a, b):
    """decide a == b"""
    f = eqf(a, b)
    return f if f is True or f is False else CTX.decide(f)


# ------------------------------------------------------------------ dict and set keys
def _obj_sym(o, depth=3):
    if isinstance(o, str):
        return has_sym(o)
    if isinstance(o, (SymInt, SymBool)):
        return True
    if isinstance(o, (int, float, bytes, type(None), type)):
        return False
    if depth == 0:
        return False
    if isinstance(o, (tuple, frozenset, list, set)):
        return any(_obj_sym(x, depth - 1) for x in o)
    if isinstance(o, dict):
        return any(_obj_sym(k, depth - 1) or _obj_sym(v, depth - 1) for k, v in o.items())
    if type(o).__hash__ is not object.__hash__:
        d = getattr(o, "__dict__", None)
        vals = list(d.values()) if isinstance(d, dict) else []
        for n in getattr(type(o), "__slots__", ()):
            vals.append(getattr(o, n, None))
        return any(_obj_sym(x, depth - 1) for x in vals)
    return False


def _any_sym_key(d):
    for k in d:
        t = type(k)
        if t is str:
            if not k.isascii() and has_sym(k):
                return True
        elif t is not int and _obj_sym(k):
            return True
    return False


def dkey(d, k):
    """the key object of dict/set d that equals k on this path (forks), or _absent"""
    if type(k) is int or k is None:
        if not any(isinstance(x, (SymInt,)) for x in d):
            return k if k in d else _absent
    ks = _obj_sym(k)
    if not ks and not _any_sym_key(d):
        return k if k in d else _absent
    if not ks and isinstance(k, str):
        # fast exit: identical key present (keys are pairwise distinct, so no other can be equal)
        if k in d:
            return k
    for x in list(d):
        if isinstance(k, str) != isinstance(x, str) and not isinstance(x, (SymInt, SymBool)):
            continue
        if eq(x, k):
            return x
    return _absent


skey = dkey


def _dc_sym(x, depth=3):
    """a value, or a field of a dataclass compared by its fields, that has a symbolic part"""
    if deep_sym(x):
        return True
    if depth and isinstance(x, (tuple, list)):
        return any(_dc_sym(y, depth - 1) for y in x)
    if depth and not isinstance(x, type) and dataclasses.is_dataclass(x):
        return any(_dc_sym(getattr(x, f.name, None), depth - 1) for f in dataclasses.fields(x) if f.compare)
    return False


def contains(c, x):
    if isinstance(c, collections.ChainMap):
        return any(bool(contains(d, x)) for d in c.maps)
    if isinstance(c, str):
        if isinstance(x, str) and (has_sym(c) or has_sym(x)):
            return strs.contains(c, x)
        return x in c
    if isinstance(c, (dict, set, frozenset, type({}.keys()))):
        if not _obj_sym(x) and not _any_sym_key(c):
            return x in c
        return mkbool(f_or([eqf(k, x) for k in c if isinstance(k, str) == isinstance(x, str) or
                            isinstance(x, SymInt) or isinstance(k, SymInt)]))
    if isinstance(c, (list, tuple, collections.deque, type({}.values()))):
        if _dc_sym(x) or any(_dc_sym(y) for y in c):
            return mkbool(f_or([eqf(y, x) for y in c]))
        return x in c
    if isinstance(c, types.MappingProxyType) and _obj_sym(x):
        return mkbool(f_or([eqf(k, x) for k in c if isinstance(k, str) == isinstance(x, str)]))
    if isinstance(c, range) and isinstance(x, SymInt):
        if c.step == 1:
            return (x >= c.start) & (x < c.stop)
        return x.__index__() in c
    return x in c


def cmp(op, a, b):
    if not CTX.active:
        return _NATIVE_CMP[op](a, b)
    if op == "==":
        ta = type(a)
        if ta is int or a is None or ta is bool:
            return a == b
        return mkbool(eqf(a, b))
    if op == "!=":
        ta = type(a)
        if ta is int or a is None or ta is bool:
            return a != b
        if isinstance(a, (str, list, tuple, dict, set, frozenset, types.SimpleNamespace) + _VIEWS) or dataclasses.is_dataclass(a):
            return mkbool(f_not(eqf(a, b)))
        return a != b
    if op == "in":
        return contains(b, a)
    if op == "not in":
        r = contains(b, a)
        if isinstance(r, SymBool):
            return mkbool(f_not(r.f))
        return not r
    if op == "is":
        if isinstance(a, SymBool) and isinstance(b, bool) or isinstance(b, SymBool) and isinstance(a, bool):
            return bool(a) == bool(b)
        return a is b
    if op == "is not":
        return not cmp("is", a, b)
    if isinstance(a, str) and isinstance(b, str):
        if has_sym(a) or has_sym(b):
            return strs.order(op, a, b)
        return _NATIVE_CMP[op](a, b)
    if isinstance(a, (list, tuple)) and type(a) is type(b) and (deep_sym(a) or deep_sym(b)):
        for x, y in zip(a, b):
            if not eq(x, y):
                return cmp(op if op in ("<", ">") else op[0], x, y)
        return _NATIVE_CMP[op](len(a), len(b))
    if isinstance(a, _VIEWS):
        a = mkset(a)
    if isinstance(b, _VIEWS):
        b = mkset(b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (deep_sym(a) or deep_sym(b)):
        sub = lambda p, q: all(skey(q, x) is not _absent for x in p)  # noqa: E731
        if op == "<=":
            return sub(a, b)
        if op == ">=":
            return sub(b, a)
        if op == "<":
            return len(a) < len(b) and sub(a, b)
        return len(b) < len(a) and sub(b, a)
    if type(a) is type(b) and dataclasses.is_dataclass(a) and not isinstance(a, type) and a.__dataclass_params__.order and _dc_sym((a, b)):
        fs = [f.name for f in dataclasses.fields(a) if f.compare]
        return cmp(op, tuple(getattr(a, n) for n in fs), tuple(getattr(b, n) for n in fs))
    return _NATIVE_CMP[op](a, b)


_NATIVE_CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt,
               ">=": operator.ge, "in": lambda a, b: a in b, "not in": lambda a, b: a not in b,
               "is": operator.is_, "is not": operator.is_not}


# ------------------------------------------------------------------ subscripts, displays, operators
def getitem(o, k):
    if CTX.active and isinstance(o, types.MappingProxyType) and _obj_sym(k):
        kk = dkey(o, k)
        return o[k if kk is _absent else kk]
    if CTX.active and isinstance(o, enum.EnumMeta) and _obj_sym(k):
        kk = dkey(o._member_map_, k)
        if kk is _absent:
            raise KeyError(k)
        return o._member_map_[kk]
    if CTX.active and isinstance(o, collections.ChainMap):
        for d in o.maps:
            kk = dkey(d, k)
            if kk is not _absent:
                return d[kk]
        return o.__missing__(k)
    if CTX.active and isinstance(o, dict):
        kk = dkey(o, k)
        if kk is _absent:
            return o[k]  # KeyError, or __missing__
        return o[kk]
    return o[k]


def setitem(o, k, v):
    if CTX.active and isinstance(o, dict):
        kk = dkey(o, k)
        o[k if kk is _absent else kk] = v
    else:
        o[k] = v


def delitem(o, k):
    if CTX.active and isinstance(o, dict):
        kk = dkey(o, k)
        del o[k if kk is _absent else kk]
    else:
        del o[k]


def mkdict(pairs):
    d = {}
    for p in pairs:
        if len(p) == 1:
            for k in p[0].keys():
                setitem(d, k, p[0][k])
        else:
            setitem(d, p[0], p[1])
    return d


def mkset(it):
    s = set()
    for x in it:
        _sadd(s, x)
    return s


def _sadd(s, x):
    if CTX.active:
        if skey(s, x) is _absent:
            s.add(x)
    else:
        s.add(x)


def binop(op, a, b):
    if CTX.active and isinstance(a, (set, frozenset, type({}.keys()))) and isinstance(b, (set, frozenset, type({}.keys()))) \
            and (deep_sym(a) or deep_sym(b)):
        if op == "|":
            return mkset(list(a) + list(b))
        if op == "&":
            return mkset(x for x in a if skey(b, x) is not _absent)
        if op == "-":
            return mkset(x for x in a if skey(b, x) is _absent)
        if op == "^":
            return mkset([x for x in a if skey(b, x) is _absent] + [x for x in b if skey(a, x) is _absent])
    if op == "/" and CTX.active and (isinstance(a, pathlib.PurePath) or isinstance(b, pathlib.PurePath)):
        return _BIN[op](_pathpart(a), _pathpart(b))
    if op == "|" and CTX.active and isinstance(a, dict) and isinstance(b, dict) and (deep_sym(a) or deep_sym(b)):
        return mkdict(list(a.items()) + list(b.items()))
    return _BIN[op](a, b)


_BIN = {"|": operator.or_, "&": operator.and_, "-": operator.sub, "^": operator.xor, "/": operator.truediv}
_PATHCH = frozenset("/.")


def ibinop(op, a, b):
    if CTX.active and isinstance(a, (set, dict)):
        r = binop(op, a, b)
        if r is not a and isinstance(a, (set, dict)):
            a.clear()
            a.update(r)
            return a
    return _IBIN[op](a, b)


_IBIN = {"|": operator.ior, "&": operator.iand, "-": operator.isub, "^": operator.ixor, "/": operator.itruediv}


def _pathpart(x):
    """text that becomes part of a path: separators and dots must be known"""
    if isinstance(x, str) and has_sym(x):
        return strs.expose(x, _PATHCH)
    return x


def _path_fn(f):
    return lambda *a, **k: f(*[_pathpart(x) for x in a], **k)


def _concrete_fn(f):
    return lambda *a, **k: f(*[concretize(x) for x in a], **{n: concretize(v) for n, v in k.items()})


def concretize(x):
    """fork until x has no symbolic part; the path set stays a sound under-approximation if it is cut off"""
    if isinstance(x, str):
        return "".join(CTX.concretize_char(c) for c in x) if has_sym(x) else x
    if isinstance(x, SymInt):
        return x.__index__()
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, list):
        return [concretize(y) for y in x]
    if isinstance(x, tuple):
        return tuple(concretize(y) for y in x)
    if isinstance(x, dict):
        return {concretize(k): concretize(v) for k, v in x.items()}
    return x


MAX_TICKS = 200000


def tick():
    if CTX.active:
        CTX.ticks += 1
        if CTX.ticks > MAX_TICKS:
            CTX.kill(Hang("loop"))


def enter(i):
    CTX.funcs.add(i)


FUNC_NAMES = []


# ------------------------------------------------------------------ calls
def _keyfn(fn):
    if fn is None:
        return None
    return lambda *x: call(fn, *x)


def _sorted(it, *, key=None, reverse=False):
    xs = list(it)
    ks = [call(key, x) for x in xs] if key is not None else xs
    if not any(_dc_sym(k) for k in ks):
        pairs = sorted(zip(ks, range(len(xs))), key=lambda p: p[0], reverse=reverse)
        return [xs[i] for _, i in pairs]

    def c(p, q):
        a, b = p[0], q[0]
        if cmp("<", a, b):
            return -1
        if cmp("<", b, a):
            return 1
        return 0
    pairs = sorted(zip(ks, range(len(xs))), key=functools.cmp_to_key(c), reverse=reverse)
    return [xs[i] for _, i in pairs]


def _minmax(op, a, k):
    key = k.get("key")
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        if "default" in k:
            return k["default"]
        raise ValueError("min() arg is an empty sequence")
    best = xs[0]
    bk = call(key, best) if key else best
    for x in xs[1:]:
        xk = call(key, x) if key else x
        if cmp(op, xk, bk):
            best, bk = x, xk
    return best


def _isinstance(o, t):
    if isinstance(o, SymInt) or isinstance(o, SymBool):
        base = int if isinstance(o, SymInt) else bool
        if isinstance(t, tuple):
            return any(_isinstance(o, x) for x in t)
        if isinstance(t, types.UnionType):
            return any(_isinstance(o, x) for x in t.__args__)
        if t in (SymInt, SymBool):
            return isinstance(o, t)
        try:
            return issubclass(base, t)
        except TypeError:
            return isinstance(o, t)
    if isinstance(o, rx.SymMatch):
        if t is re.Match:
            return True
    return isinstance(o, t)


def _int(*a, **k):
    x = a[0] if a else 0
    if isinstance(x, str):
        if len(a) > 1 or k:
            if not deep_sym(x):
                return int(*a, **k)
            base = a[1] if len(a) > 1 else k["base"]
            if base == 10:
                return strs.to_int(x)
            return strs.to_int_base(x, base)
        return strs.to_int(x) if has_sym(x) else int(x)
    if isinstance(x, SymInt):
        return x
    return int(*a, **k)


def _str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is str:
            return x
        if isinstance(x, str) and has_sym(x):
            return str.__str__(x) if type(x).__str__ is str.__str__ else str(x)
        if isinstance(x, (list, dict, tuple, set)) and deep_sym(x):
            return _repr(x)
        if isinstance(x, SymBool):
            return str(bool(x))
        if isinstance(x, KeyError) and len(x.args) == 1 and deep_sym(x.args):
            return _repr(x.args[0])
        if isinstance(x, BaseException) and type(x).__str__ is BaseException.__str__ and len(x.args) > 1 and deep_sym(x.args):
            return _repr(x.args)
        if type(x).__str__ is object.__str__ and dataclasses.is_dataclass(x):
            return _repr(x)
    return str(*a, **k)


def _repr(x):
    if isinstance(x, str):
        return strs.srepr(x) if has_sym(x) else repr(x)
    if isinstance(x, list):
        return "[" + ", ".join(_repr(y) for y in x) + "]"
    if isinstance(x, tuple) and not hasattr(x, "_fields"):
        return "(" + ", ".join(_repr(y) for y in x) + (",)" if len(x) == 1 else ")")
    if type(x) is dict:
        return "{" + ", ".join(_repr(k) + ": " + _repr(v) for k, v in x.items()) + "}"
    if type(x) is set and x:
        return "{" + ", ".join(_repr(y) for y in x) + "}"
    if isinstance(x, SymBool):
        return repr(bool(x))
    if isinstance(x, tuple) and hasattr(x, "_fields") and type(x).__str__ is object.__str__ and deep_sym(x):
        return type(x).__name__ + "(" + ", ".join(n + "=" + _repr(v) for n, v in zip(x._fields, x)) + ")"
    if dataclasses.is_dataclass(x) and not isinstance(x, type) and x.__dataclass_params__.repr and _dc_sym(x):
        w = getattr(type(x).__repr__, "__wrapped__", None)
        if w is not None and w.__code__.co_filename == "<string>":
            return type(x).__qualname__ + "(" + ", ".join(f.name + "=" + _repr(getattr(x, f.name)) for f in dataclasses.fields(x) if f.repr) + ")"
    if isinstance(x, BaseException) and type(x).__repr__ is BaseException.__repr__ and deep_sym(x.args):
        return type(x).__name__ + "(" + ", ".join(_repr(y) for y in x.args) + ")"
    return repr(x)


def _iter(*a):
    if len(a) != 2:
        return iter(*a)

    def g(f, end):
        while True:
            v = call(f)
            if eq(v, end):
                return
            yield v
    return g(*a)


def _ord(c):
    if len(c) == 1 and is_symc(c):
        v = CTX.chars[ord(c) - BASE][0]
        return SymInt(CTX.z_of_code(c), frozenset((v,)))
    return ord(c)


def _chr(i):
    return chr(i.__index__())


def _hash(x):
    if _obj_sym(x):
        # equal hash for all: legal, forces equality tests
        return 0
    return hash(x)


def _set(*a):
    return mkset(*a) if a else set()


def _frozenset(*a):
    return frozenset(mkset(*a)) if a else frozenset()


def _dict(*a, **k):
    if not a:
        return dict(**k)
    src = a[0]
    if isinstance(src, dict) and type(src) is dict and not k:
        return dict(src)
    d = {}
    if hasattr(src, "keys"):
        for x in src.keys():
            setitem(d, x, src[x])
    else:
        for x, y in src:
            setitem(d, x, y)
    for x, y in k.items():
        setitem(d, x, y)
    return d


def _map(f, *its):
    return (call(f, *xs) for xs in zip(*its)) if len(its) > 1 else (call(f, x) for x in its[0])


def _filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def _type(*a):
    if len(a) == 1:
        if isinstance(a[0], SymInt):
            return int
        if isinstance(a[0], SymBool):
            return bool
    return type(*a)


def _bool(*a):
    if a and isinstance(a[0], SymBool):
        return a[0]
    if a and isinstance(a[0], SymInt):
        return a[0] != 0
    return bool(*a)


def _format(v, spec=""):
    return format(v, spec)


def _counter(*a, **k):
    c = collections.Counter()
    if a:
        src = a[0]
        if isinstance(src, dict):
            for x, n in src.items():
                setitem(c, x, getitem(c, x) + n)
        elif src is not None:
            for x in src:
                kk = dkey(c, x)
                if kk is _absent:
                    c[x] = 1
                else:
                    c[kk] += 1
    for x, n in k.items():
        setitem(c, x, n)
    return c


def _html_escape(s, quote=True):
    s = call(s.replace, "&", "&amp;")
    s = call(s.replace, "<", "&lt;")
    s = call(s.replace, ">", "&gt;")
    if quote:
        s = call(s.replace, '"', "&quot;")
        s = call(s.replace, "'", "&#x27;")
    return s


def _compile(pattern, flags=0):
    return re.compile(concretize(pattern), flags)


def _re_fn(name):
    def f(pattern, *a, **k):
        flags = k.pop("flags", 0)
        n = {"sub": 2, "subn": 2, "split": 1}.get(name, 1)
        # positional: re.sub(pattern, repl, string, count=0, flags=0), re.split(pattern, string, maxsplit=0, flags=0)
        lim = {"sub": 3, "subn": 3, "split": 2}.get(name, 1)
        a = list(a)
        if len(a) > lim:
            flags = a.pop()
        p = pattern if isinstance(pattern, re.Pattern) else _compile(pattern, flags)
        return call(getattr(p, name), *a, **k)
    return f


def _re_escape(s):
    if not has_sym(s):
        return re.escape(s)
    sp = "()[]{}?*+-|^$\\.&~# \t\n\r\v\f"
    out = []
    for c in s:
        if c_is(c, "rxesc", lambda x: x in sp):
            out.append("\\")
        out.append(c)
    return "".join(out)


def _json_enc(o, indent, sort_keys, ensure, level, sep):
    if o is None:
        return "null"
    if isinstance(o, SymBool):
        o = bool(o)
    if o is True:
        return "true"
    if o is False:
        return "false"
    if isinstance(o, str):
        out = []
        for c in o:
            if is_symc(c):
                f = c_is(c, "jsonesc%d" % bool(ensure), lambda x: x in '"\\\n\t' or ord(x) < 32 or (ensure and ord(x) > 126))
                if f:
                    c = CTX.concretize_char(c)
            if is_symc(c):
                out.append(c)
            else:
                out.append(_json.dumps(c, ensure_ascii=ensure)[1:-1])
        return '"' + "".join(out) + '"'
    if isinstance(o, (int, SymInt)):
        return str(o)
    if isinstance(o, float):
        return _json.dumps(o)
    nl = "" if indent is None else "\n" + " " * (indent * (level + 1))
    end = "" if indent is None else "\n" + " " * (indent * level)
    if isinstance(o, dict):
        if not o:
            return "{}"
        items = list(o.items())
        if sort_keys:
            items = _sorted(items, key=lambda p: p[0])
        return "{" + nl + (sep[0] + nl).join(
            _json_enc(k if isinstance(k, str) else str(k), indent, sort_keys, ensure, level + 1, sep) + sep[1] +
            _json_enc(v, indent, sort_keys, ensure, level + 1, sep) for k, v in items) + end + "}"
    if isinstance(o, (list, tuple)):
        if not o:
            return "[]"
        return "[" + nl + (sep[0] + nl).join(_json_enc(v, indent, sort_keys, ensure, level + 1, sep) for v in o) + end + "]"
    raise TypeError(f"Object of type {o.__class__.__name__} is not JSON serializable")


def _json_dumps(o, *, indent=None, sort_keys=False, ensure_ascii=True, separators=None, **k):
    if k or not deep_sym(o, 12):
        return _json.dumps(o, indent=indent, sort_keys=sort_keys, ensure_ascii=ensure_ascii, separators=separators, **k)
    sep = separators or ((", ", ": ") if indent is None else (",", ": "))
    return _json_enc(o, indent, sort_keys, ensure_ascii, 0, sep)


def _json_dump(o, fp, **k):
    if not deep_sym(o, 12):
        return _json.dump(o, fp, **k)
    fp.write(_json_dumps(o, **k))


_opaque_num = re.compile("")


def _json_loads(s, **k):
    """JSON text whose symbolic characters are, on this path, neither quotes nor backslashes nor controls when
    they occur inside strings; symbolic digits outside of strings are numbers"""
    if not isinstance(s, str) or not has_sym(s):
        return _json.loads(s, **k)
    # numbers with symbolic digits -> placeholder strings
    out = []
    i = 0
    n = len(s)
    instr = False
    nums = {}
    while i < n:
        c = s[i]
        if instr:
            if c == "\\":
                out.append(s[i:i + 2])
                i += 2
                continue
            if is_symc(c) and c_is(c, "jsonspecial", lambda x: x in '"\\' or ord(x) < 32):
                CTX.kill(Unsupported("json text with undetermined syntax"))
            if c == '"':
                instr = False
            out.append(c)
            i += 1
            continue
        if c == '"':
            instr = True
            out.append(c)
            i += 1
            continue
        if c.isdigit() or c == "-" or is_symc(c):
            j = i + 1
            while j < n and (s[j].isdigit() or is_symc(s[j])):
                j += 1
            t = s[i:j]
            if has_sym(t):
                key = "\x7fN%d" % len(nums)
                nums[key] = strs.to_int(t)
                out.append(_json.dumps(key))
                i = j
                continue
            out.append(t)
            i = j
            continue
        out.append(c)
        i += 1
    d = _json.loads("".join(out), **k)

    def fix(x):
        if isinstance(x, str):
            return nums.get(x, x)
        if isinstance(x, list):
            return [fix(y) for y in x]
        if isinstance(x, dict):
            return {a: fix(b) for a, b in x.items()}
        return x
    return fix(d) if nums else d


def _json_load(fp, **k):
    return _json_loads(fp.read(), **k)


def rfmt(x):
    """what !r gives inside a log or error message: quoting is not modelled, so that messages do not fork"""
    if isinstance(x, str) and has_sym(x):
        return "'" + x + "'"
    return _repr(x)


def _schema_validate(instance, schema, *a, **k):
    from . import schema as sm
    if a or k or not deep_sym(instance, 12):
        import jsonschema
        return jsonschema.validate(instance, schema, *a, **k)
    return sm.validate(instance, schema)


_SPECIALS = frozenset("<>&\"'\n\t")


OPAQUE = "<!--sx-opaque-->"  # input documents of a harness: their symbolic characters stand for escaped characters


def _xml_text(s):
    if CTX.xml_opaque or not has_sym(s) or s.startswith(OPAQUE):
        return s
    return strs.expose(s, _SPECIALS)


def _etree_parse(f):
    def g(src, *a, **k):
        if not CTX.xml_opaque:
            if isinstance(src, io.StringIO):
                src = io.StringIO(_xml_text(src.getvalue()))
            elif hasattr(src, "__fspath__") or isinstance(src, str):
                p = src.__fspath__() if hasattr(src, "__fspath__") else src
                with open(p, "rb") as fh:
                    data = fh.read()
                try:
                    t = data.decode("utf-8")
                except UnicodeDecodeError:
                    return f(src, *a, **k)
                if has_sym(t):
                    src = io.BytesIO(_xml_text(t).encode("utf-8"))
            elif hasattr(src, "read"):
                data = src.read()
                try:
                    t = data if isinstance(data, str) else data.decode("utf-8")
                    data = _xml_text(t).encode("utf-8") if has_sym(t) or isinstance(data, str) else data
                except UnicodeDecodeError:
                    pass
                src = io.BytesIO(data)
        return f(src, *a, **k)
    return g


def _etree_fromstring(f):
    def g(src, *a, **k):
        if not CTX.xml_opaque:
            if isinstance(src, str):
                src = _xml_text(src)
            elif isinstance(src, bytes):
                try:
                    t = src.decode("utf-8")
                    if has_sym(t):
                        src = _xml_text(t).encode("utf-8")
                except UnicodeDecodeError:
                    pass
        return f(src, *a, **k)
    return g


def _reduce(f, it, *init):
    return functools.reduce(lambda a, b: call(f, a, b), it, *init)


def _len(x):
    return len(x)


def _range(*a):
    return range(*a)


def _print(*a, **k):
    fp = k.get("file")
    if fp is None or fp in (sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__):
        return None
    return print(*a, **k)


def _any(it):
    """truth of any element, in order (short circuit as in Python)"""
    return any(it)


def _sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


REG = {
    builtins.isinstance: _isinstance, builtins.sorted: _sorted, builtins.repr: _repr, builtins.ord: _ord,
    builtins.chr: _chr, builtins.hash: _hash, builtins.format: _format, builtins.sum: _sum,
    builtins.min: lambda *a, **k: _minmax("<", a, k), builtins.max: lambda *a, **k: _minmax(">", a, k),
    builtins.print: _print,
    _html.escape: _html_escape, re.compile: _compile, re.escape: _re_escape,
    functools.reduce: _reduce, _json.dumps: _json_dumps, _json.dump: _json_dump, _json.loads: _json_loads,
    _json.load: _json_load,
    operator.eq: lambda a, b: cmp("==", a, b), operator.ne: lambda a, b: cmp("!=", a, b),
    operator.lt: lambda a, b: cmp("<", a, b), operator.gt: lambda a, b: cmp(">", a, b),
    operator.contains: lambda a, b: contains(a, b), operator.getitem: getitem,
    builtins.breakpoint: lambda *a, **k: None,
}
for _n in ("match", "fullmatch", "search", "sub", "subn", "split", "findall", "finditer"):
    REG[getattr(re, _n)] = _re_fn(_n)


# ------------------------------------------------------------------ patterns of match statements
def mseq(x, n, star):
    if not isinstance(x, (list, tuple, range, collections.deque)):
        return False
    return len(x) >= n if star else len(x) == n


def mstar(x, i, after):
    return list(x[i:len(x) - after])


def mmap(x, keys):
    return isinstance(x, (dict, types.MappingProxyType)) and all(contains(x, k) for k in keys)


def mrest(x, keys):
    out = dict(x)
    for k in keys:
        _dict_method(out, "pop", (k, None), {})
    return out


def mpos(x, cls, i, n):
    if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
        return x
    return getattr(x, cls.__match_args__[i])


# ------------------------------------------------------------------ library functions that look at values
def _groupby(iterable, key=None):
    grp, last, have = [], None, False
    for x in iterable:
        k = x if key is None else call(key, x)
        if have and not eq(k, last):
            yield last, iter(grp)
            grp = []
        if not have or not grp:
            last = k
        have = True
        grp.append(x)
    if have:
        yield last, iter(grp)


def _takewhile(f, it):
    for x in it:
        if not call(f, x):
            return
        yield x


def _dropwhile(f, it):
    it = iter(it)
    for x in it:
        if not call(f, x):
            yield x
            break
    yield from it


def _filterfalse(f, it):
    return (x for x in it if not (x if f is None else call(f, x)))


def _starmap(f, it):
    return (call(f, *x) for x in it)


def _accumulate(it, func=None, *, initial=None):
    have = initial is not None
    t = initial
    if have:
        yield t
    for x in it:
        t = x if not have else (t + x if func is None else call(func, t, x))
        have = True
        yield t


def _bisect(right):
    def f(a, x, lo=0, hi=None, *, key=None):
        hi = len(a) if hi is None else hi
        while lo < hi:
            mid = (lo + hi) // 2
            y = a[mid] if key is None else call(key, a[mid])
            if (not cmp("<", x, y)) if right else cmp("<", y, x):
                lo = mid + 1
            else:
                hi = mid
        return lo
    return f


def _insort(right):
    b = _bisect(right)

    def f(a, x, lo=0, hi=None, *, key=None):
        a.insert(b(a, x if key is None else call(key, x), lo, hi, key=key), x)
    return f


def _heapify(h):
    h[:] = _sorted(h)


def _heappush(h, x):
    _insort(True)(h, x)


def _heappop(h):
    return h.pop(_minpos(h))


def _minpos(h):
    b = 0
    for i in range(1, len(h)):
        if cmp("<", h[i], h[b]):
            b = i
    return b


def _normalize(form, s):
    if not isinstance(s, str) or not has_sym(s):
        return unicodedata.normalize(form, s)
    out = []
    for c in s:
        if is_symc(c) and c_is(c, ("norm", form), lambda x: unicodedata.normalize(form, x) != x):
            c = CTX.concretize_char(c)
        out.append(c)
    return "".join(x if is_symc(x) else unicodedata.normalize(form, x) for x in out)


def _float(*a):
    if a and isinstance(a[0], str) and has_sym(a[0]):
        return float(concretize(a[0]))
    return float(*a)


def _fromkeys(cls, it, v=None):
    d = cls()
    for x in it:
        setitem(d, x, v)
    return d


def _odict(*a, **k):
    d = collections.OrderedDict()
    call(d.update, *a, **k)
    return d


def _defaultdict(f=None, *a, **k):
    d = collections.defaultdict(f)
    _dict_method(d, "update", a, k)
    return d


def _itemgetter(f, o):
    ks = f.__reduce__()[1]
    r = tuple(getitem(o, k) for k in ks)
    return r[0] if len(r) == 1 else r


def _methodcaller(f, o):
    r = f.__reduce__()
    if r[0] is operator.methodcaller:
        name, args, kw = r[1][0], r[1][1:], {}
    else:
        name, args, kw = r[0].args[0], r[1], r[0].keywords
    return call(getattr(o, name), *args, **kw)


# pure Python modules of the library, executed instrumented when a symbolic text reaches them
_PURE = {"xml.sax.saxutils", "textwrap", "string", "fnmatch", "html", "shlex", "xml.etree.ElementTree", "posixpath", "difflib", "urllib.parse"}
_pure = {}


def _pure_fn(f):
    """the instrumented version of a function of such a module"""
    m = getattr(f, "__module__", None)
    if m not in _PURE:
        return None
    ns = _pure.get(m)
    if ns is None:
        mod = sys.modules[m]
        ns = types.ModuleType(m)
        ns.__dict__.update({k: v for k, v in mod.__dict__.items() if k in ("__name__", "__package__", "__file__", "__path__", "__spec__")})
        from . import instr
        with open(mod.__file__, "rb") as fh:
            code = instr.transform(fh.read(), mod.__file__, m)
        was, CTX.active = CTX.active, False
        try:
            exec(code, ns.__dict__)
        finally:
            CTX.active = was
        _pure[m] = ns
    o = ns
    try:
        for p in f.__qualname__.split("."):
            o = getattr(o, p)
    except AttributeError:
        return None
    return o


CLS = {int: _int, str: _str, set: _set, frozenset: _frozenset, dict: _dict, map: _map, filter: _filter, type: _type,
       bool: _bool, collections.Counter: _counter, collections.OrderedDict: _odict, collections.defaultdict: _defaultdict, float: _float, itertools.groupby: _groupby, itertools.takewhile: _takewhile, itertools.dropwhile: _dropwhile,
       itertools.filterfalse: _filterfalse, itertools.starmap: _starmap, itertools.accumulate: _accumulate}
REG.update({bisect.bisect_left: _bisect(False), bisect.bisect_right: _bisect(True), bisect.bisect: _bisect(True), bisect.insort: _insort(True), bisect.insort_right: _insort(True),
            bisect.insort_left: _insort(False), heapq.heapify: _heapify, heapq.heappush: _heappush, heapq.heappop: _heappop, builtins.iter: _iter, unicodedata.normalize: _normalize})
for _c in (pathlib.Path, pathlib.PosixPath, pathlib.PurePath, pathlib.PurePosixPath):
    CLS[_c] = _path_fn(_c)
for _n in ("join", "basename", "dirname", "split", "splitext", "normpath", "abspath", "isabs", "realpath"):
    REG[getattr(posixpath, _n)] = _path_fn(getattr(posixpath, _n))

BuiltinMethod = types.BuiltinFunctionType
CMethod = type(re.compile("").search)  # methods that take their defining class have a type of their own
Descr = types.MethodDescriptorType
_DUNDER = {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}
_pure_native = {"loguru"}


def _dict_method(self, name, a, k):
    if name == "get":
        kk = dkey(self, a[0])
        return (a[1] if len(a) > 1 else k.get("default")) if kk is _absent else dict.__getitem__(self, kk)
    if name == "pop":
        kk = dkey(self, a[0])
        if kk is _absent:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        return dict.pop(self, kk)
    if name == "setdefault":
        kk = dkey(self, a[0])
        if kk is not _absent:
            return dict.__getitem__(self, kk)
        v = a[1] if len(a) > 1 else None
        self[a[0]] = v
        return v
    if name == "update":
        if a:
            src = a[0]
            for p in (list(src.items()) if hasattr(src, "keys") else src):
                setitem(self, p[0], p[1])
        for x, y in k.items():
            setitem(self, x, y)
        return None
    if name == "__contains__":
        return contains(self, a[0])
    if name == "__getitem__":
        return getitem(self, a[0])
    if name == "__setitem__":
        return setitem(self, *a)
    if name == "__eq__":
        return mkbool(eqf(self, a[0]))
    return _absent


def _set_method(self, name, a, k):
    if name == "add":
        return _sadd(self, a[0])
    if name in ("discard", "remove"):
        kk = skey(self, a[0])
        if kk is _absent:
            if name == "remove":
                raise KeyError(a[0])
            return None
        return set.discard(self, kk)
    if name == "__contains__":
        return contains(self, a[0])
    others = [x for x in a]
    if name in ("union", "intersection", "difference", "symmetric_difference", "update", "intersection_update",
                "difference_update", "issubset", "issuperset", "isdisjoint"):
        if not deep_sym(self):
            others = [list(x) for x in others]
            if not any(deep_sym(y) for x in others for y in x):
                return getattr(self, name)(*others)
        r = self
        for o in others:
            o = mkset(o)
            if name in ("union", "update"):
                r = binop("|", mkset(r), o) if (deep_sym(r) or deep_sym(o)) else r | o
            elif name.startswith("intersection"):
                r = mkset(x for x in r if skey(o, x) is not _absent)
            elif name.startswith("difference"):
                r = mkset(x for x in r if skey(o, x) is _absent)
            elif name == "symmetric_difference":
                r = binop("^", mkset(r), o)
            elif name == "issubset":
                return all(skey(o, x) is not _absent for x in r)
            elif name == "issuperset":
                return all(skey(r, x) is not _absent for x in o)
            elif name == "isdisjoint":
                return all(skey(r, x) is _absent for x in o)
        if name.endswith("update"):
            self.clear()
            set.update(self, r)
            return None
        return frozenset(r) if isinstance(self, frozenset) else set(r)
    return _absent


def _list_method(self, name, a, k):
    if name == "index":
        lo = a[1] if len(a) > 1 else 0
        hi = a[2] if len(a) > 2 else len(self)
        for i in range(*slice(lo, hi).indices(len(self))):
            if eq(self[i], a[0]):
                return i
        raise ValueError("not in list")
    if name == "count":
        return sum(1 for x in self if eq(x, a[0]))
    if name == "remove":
        for i, x in enumerate(self):
            if eq(x, a[0]):
                del self[i]
                return None
        raise ValueError("list.remove(x): x not in list")
    if name == "sort":
        self[:] = _sorted(self, **k)
        return None
    if name == "__contains__":
        return contains(self, a[0])
    return _absent


def call(f, /, *a, **k):
    if not CTX.active:
        return f(*a, **k)
    if CTX.dead is not None:
        raise CTX.dead
    t = type(f)
    if t is types.FunctionType:
        m = REG.get(f)
        if m is not None:
            return m(*a, **k)
        if f.__module__ in _PURE and any(deep_sym(x) for x in a):
            m = _pure_fn(f)
            if m is not None:
                return m(*a, **k)
        return f(*a, **k)
    if t is types.MethodType:
        s = f.__self__
        if isinstance(s, enum.EnumMeta) and f.__name__ == "__getitem__":
            return getitem(s, *a)
        if isinstance(s, _json.JSONEncoder) and f.__name__ == "encode" and type(s) is _json.JSONEncoder:
            return _json_dumps(a[0], indent=s.indent, sort_keys=s.sort_keys, ensure_ascii=s.ensure_ascii, separators=(s.item_separator, s.key_separator))
        if isinstance(s, collections.Counter) and f.__name__ in ("update", "subtract") and a and not isinstance(a[0], dict):
            d = 1 if f.__name__ == "update" else -1
            for x in a[0]:
                setitem(s, x, getitem(s, x) + d)
            return None
        if isinstance(s, collections.ChainMap) and f.__name__ == "get":
            return getitem(s, a[0]) if contains(s, a[0]) else a[1] if len(a) > 1 else k.get("default")
        if isinstance(s, pathlib.PurePath):
            return f(*[_pathpart(x) for x in a], **k)
        if type(s).__module__ == "lxml.etree" and f.__name__ in _QUERY and a and isinstance(a[0], str) and has_sym(a[0]):
            return f(concretize(a[0]), *a[1:], **k)
        return f(*a, **k)
    if t is BuiltinMethod or t is CMethod:
        s = f.__self__
        if isinstance(s, str):
            name = f.__name__
            if name in STR_NATIVE:
                if name == "format" and (a or k):
                    return f(*[_str(x) if isinstance(x, (list, dict)) else x for x in a], **k)
                return f(*a, **k)
            if has_sym(s) or any(deep_sym(x, 2) for x in a):
                m = STR_MODELS.get(name)
                if m is None:
                    return getattr(concretize(s), name)(*[concretize(x) for x in a], **k)
                if name in ("split", "rsplit") and k:
                    return m(s, *a, **k)
                return m(s, *a, **k)
            if any(isinstance(x, SymInt) for x in a):
                a = tuple(x.__index__() if isinstance(x, SymInt) else x for x in a)
            return f(*a, **k)
        if isinstance(s, dict):
            r = _dict_method(s, f.__name__, a, k)
            return f(*a, **k) if r is _absent else r
        if isinstance(s, (set, frozenset)):
            r = _set_method(s, f.__name__, a, k)
            return f(*a, **k) if r is _absent else r
        if isinstance(s, (list, tuple)) or isinstance(s, collections.deque) and f.__name__ in ("index", "count", "remove"):
            r = _list_method(s, f.__name__, a, k)
            return f(*a, **k) if r is _absent else r
        if isinstance(s, re.Pattern):
            name = f.__name__
            ix = 1 if name in ("sub", "subn") else 0
            subj = a[ix] if len(a) > ix else k.get("string")
            if isinstance(subj, str) and (has_sym(subj) or (ix and isinstance(a[0], str) and has_sym(a[0]))):
                k = {("s" if x == "string" else x): v for x, v in k.items()}
                return rx.METHODS[name](s, *a, **k)
            if ix and a and callable(a[0]):
                fn = a[0]
                return f(lambda m: call(fn, m), *a[1:], **k)
            return f(*a, **k)
        if f.__name__ == "fromkeys" and isinstance(s, type) and issubclass(s, dict):
            return _fromkeys(s, *a)
        if isinstance(s, types.MappingProxyType) and f.__name__ == "get" and _obj_sym(a[0]):
            kk = dkey(s, a[0])
            return f(*a, **k) if kk is _absent else s[kk]
        m = REG.get(f)
        if m is not None:
            return m(*a, **k)
        et = _ETREE.get(f)
        if et is not None:
            return et(*a, **k)
        return f(*a, **k)
    if t is type or isinstance(f, type):
        m = CLS.get(f)
        if m is not None:
            return m(*a, **k)
        if f.__module__ in _PURE and any(deep_sym(x) for x in a):
            m = _pure_fn(f)
            if m is not None:
                return m(*a, **k)
        if isinstance(f, enum.EnumMeta) and len(a) == 1 and _obj_sym(a[0]):
            for x in f:
                if eq(x.value, a[0]):
                    return x
        return f(*a, **k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if t is operator.itemgetter:
        return _itemgetter(f, *a)
    if t is operator.methodcaller:
        return _methodcaller(f, *a)
    if t is types.MethodWrapperType or t is types.WrapperDescriptorType:
        xs = (f.__self__, *a) if t is types.MethodWrapperType else a
        op = _DUNDER.get(f.__name__)
        if len(xs) == 2 and isinstance(xs[0], (str, list, tuple, dict, set, frozenset)) and (deep_sym(xs[0]) or deep_sym(xs[1])):
            if f.__name__ == "__contains__":
                return contains(xs[0], xs[1])
            if f.__name__ == "__getitem__":
                return getitem(xs[0], xs[1])
            if op is not None and type(xs[1]) is type(xs[0]):
                return cmp(op, xs[0], xs[1])
        return f(*a, **k)
    if t is Descr:
        if a and isinstance(a[0], (str, dict, set, list)):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        return f(*a, **k)
    try:
        m = REG.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    et = _etree_model(f)
    if et is not None:
        return et(*a, **k)
    return f(*a, **k)


_ETREE = {}
_QUERY = ("xpath", "find", "findall", "findtext", "iterfind", "iter")


def _etree_model(f):
    if not _ETREE:
        from lxml import etree
        _ETREE[etree.parse] = _etree_parse(etree.parse)
        _ETREE[etree.fromstring] = _etree_fromstring(etree.fromstring)
        _ETREE[etree.XML] = _etree_fromstring(etree.XML)
    try:
        return _ETREE.get(f)
    except TypeError:
        return None


def register(fn, model):
    REG[fn] = model


def init():
    _etree_model(len)
    try:
        import werkzeug.utils
        for n in ("secure_filename", "safe_join"):
            fn = getattr(werkzeug.utils, n, None) or getattr(werkzeug.security, n, None)
            if fn is not None:
                REG[fn] = _concrete_fn(fn)
    except (ImportError, AttributeError):
        pass
    try:
        import jsonschema
        REG[jsonschema.validate] = _schema_validate
    except ImportError:
        pass


MODEL_CLS = CLS
