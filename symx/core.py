"""Symbolic values, path condition, decisions and the z3 interface.

A symbolic character is one private-use code point (plane 15) inside an ordinary Python str.  The code
point indexes CTX.chars, which gives the z3 variable behind it and an optional map (a tuple over the
alphabet) for characters derived from it by case mapping or replacement.

Formulas: True, False, ('l', var, mask)            character variable lies in the set `mask`
                       ('z', z3expr, vars)         any relation
                       ('&', [..]) , ('|', [..])
"""
import sys
import time

Z3_DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if Z3_DIR not in sys.path:
    sys.path.append(Z3_DIR)
import z3  # noqa: E402

ALPHABET = [9, 10] + list(range(32, 127)) + [0xA0, 0xAE, 0xC9, 0xE9, 0x17F, 0x2013, 0x2019, 0x2026, 0x2028]
N = len(ALPHABET)
FULL = (1 << N) - 1
INDEX = {c: i for i, c in enumerate(ALPHABET)}
BASE = 0xF0000
TOP = 0xFFFFD


def mask_of_chars(chars):
    m = 0
    for c in chars:
        m |= 1 << INDEX[ord(c)]
    return m


def mask_pred(fn):
    m = 0
    for i, c in enumerate(ALPHABET):
        if fn(chr(c)):
            m |= 1 << i
    return m


def chars_of_mask(m):
    return [chr(ALPHABET[i]) for i in range(N) if m >> i & 1]


class PathEnd(BaseException):
    """steers the exploration (never an Exception, so that code under test does not swallow it)"""


class Infeasible(PathEnd):
    pass


class Budget(PathEnd):
    pass


class Hang(PathEnd):
    pass


class Unsupported(PathEnd):
    pass


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    k = f[0]
    if k == "l":
        return ("l", f[1], FULL & ~f[2])
    if k == "z":
        return ("z", z3.Not(f[1]), f[2])
    if k == "&":
        return ("|", [f_not(x) for x in f[1]])
    return ("&", [f_not(x) for x in f[1]])


def f_and(fs):
    out = []
    lits = {}
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == "l":
            m = lits.get(f[1], FULL) & f[2]
            if m == 0:
                return False
            lits[f[1]] = m
        elif f[0] == "&":
            sub = f_and(f[1])
            if sub is False:
                return False
            if sub is True:
                continue
            for g in sub[1] if sub[0] == "&" else [sub]:
                if g[0] == "l":
                    m = lits.get(g[1], FULL) & g[2]
                    if m == 0:
                        return False
                    lits[g[1]] = m
                else:
                    out.append(g)
        else:
            out.append(f)
    out = [("l", v, m) for v, m in lits.items() if m != FULL] + out
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("&", out)


def f_or(fs):
    out = []
    lits = {}
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == "l":
            m = lits.get(f[1], 0) | f[2]
            if m == FULL:
                return True
            lits[f[1]] = m
        elif f[0] == "|":
            sub = f_or(f[1])
            if sub is True:
                return True
            if sub is False:
                continue
            for g in sub[1] if sub[0] == "|" else [sub]:
                if g[0] == "l":
                    m = lits.get(g[1], 0) | g[2]
                    if m == FULL:
                        return True
                    lits[g[1]] = m
                else:
                    out.append(g)
        else:
            out.append(f)
    out = [("l", v, m) for v, m in lits.items() if m] + out
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("|", out)


_mask_z3 = {}


class Ctx:
    def __init__(self):
        self.active = False
        self.solver = None
        self.stats = dict(queries=0, solver_s=0.0, fast=0, decisions=0, unknown=0, sat=0, unsat=0)
        self.funcs = set()
        self.worklist = []
        self.zvars = []
        self.solver_nodes = []
        self.intern = {}
        self.map_ids = {}
        self.deadline = None
        self.xml_opaque = False
        self.reset_path([])

    # ---------------------------------------------------------------- exploration
    def new_job(self, deadline):
        self.solver = z3.Solver()
        self.solver.set("timeout", 10000)
        self.solver_nodes = []
        self.intern = {}
        self.worklist = [[]]
        self.deadline = deadline
        self.stats = dict(queries=0, solver_s=0.0, fast=0, decisions=0, unknown=0, sat=0, unsat=0)
        self.funcs = set()

    def reset_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.dom = []  # mask per character variable
        self.rel = set()
        self.nints = 0
        self.chars = []  # (var, map or None)
        self.char_ix = {}
        self.pc = []  # (node id, formula)
        self.node = 0
        self.tnode = 0
        self.inputs = {}  # name -> ('text', [vars]) | ('int', var)
        self.ticks = 0
        self.dead = None
        self.truncated = []
        self.xml_opaque = False
        self.fresh_links = []

    def kill(self, exc):
        self.dead = exc
        raise exc

    # ---------------------------------------------------------------- variables
    def zchar(self, v):
        while len(self.zvars) <= v:
            self.zvars.append(z3.Int("c%d" % len(self.zvars)))
        return self.zvars[v]

    def new_char(self, mask=FULL):
        v = len(self.dom)
        self.dom.append(mask)
        return v

    def char(self, v, mp=None):
        """code point (as str) of the symbolic character (variable, map)"""
        key = (v, mp)
        k = self.char_ix.get(key)
        if k is None:
            k = len(self.chars)
            if BASE + k > TOP:
                self.kill(Budget("too many symbolic characters"))
            self.chars.append(key)
            self.char_ix[key] = k
        return chr(BASE + k)

    def new_int(self, lo, hi, name=None):
        v = z3.Int("n%d" % self.nints)
        self.nints += 1
        self.assert_f(("z", z3.And(v >= lo, v <= hi), frozenset()))
        return SymInt(v, frozenset())

    # ---------------------------------------------------------------- z3 translation
    def z_mask(self, v, m):
        key = (v, m)
        e = _mask_z3.get(key)
        if e is None:
            x = self.zchar(v)
            parts = []
            i = 0
            while i < N:
                if m >> i & 1:
                    j = i
                    while j + 1 < N and (m >> (j + 1)) & 1 and ALPHABET[j + 1] == ALPHABET[j] + 1:
                        j += 1
                    if i == j:
                        parts.append(x == ALPHABET[i])
                    else:
                        parts.append(z3.And(x >= ALPHABET[i], x <= ALPHABET[j]))
                    i = j + 1
                else:
                    i += 1
            e = z3.BoolVal(False) if not parts else parts[0] if len(parts) == 1 else z3.Or(*parts)
            if len(_mask_z3) > 200000:
                _mask_z3.clear()
            _mask_z3[key] = e
        return e

    def to_z3(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        k = f[0]
        if k == "l":
            return self.z_mask(f[1], f[2])
        if k == "z":
            return f[1]
        if k == "&":
            return z3.And(*[self.to_z3(x) for x in f[1]])
        return z3.Or(*[self.to_z3(x) for x in f[1]])

    def z_of_code(self, ch):
        """z3 term for the code point of a (symbolic or concrete) character"""
        o = ord(ch)
        if not BASE <= o <= TOP:
            return z3.IntVal(o)
        v, mp = self.chars[o - BASE]
        x = self.zchar(v)
        if mp is None:
            return x
        groups = {}
        for i in range(N):
            d = mp[i] - ALPHABET[i]
            if d:
                groups[d] = groups.get(d, 0) | 1 << i
        e = x
        for d, m in groups.items():
            e = z3.If(self.z_mask(v, m), x + d, e)
        return e

    # ---------------------------------------------------------------- path condition
    def assert_f(self, f, implied=False):
        if f is True:
            return
        if f is False:
            self.kill(Infeasible("false"))
        k = f[0]
        if k == "l":
            self.dom[f[1]] &= f[2]
            if self.dom[f[1]] == 0:
                self.kill(Infeasible("empty domain"))
            return
        if k == "&":
            for x in f[1]:
                self.assert_f(x, implied)
            return
        if implied:
            return
        self._mark_rel(f)
        key = (self.node, self.tnode)
        n = self.intern.get(key)
        if n is None:
            n = len(self.intern) + 1
            self.intern[key] = n
        self.node = n
        self.pc.append((n, f))

    def _mark_rel(self, f):
        self._vars_of(f, self.rel)

    def _flush(self):
        s = self.solver
        sn = self.solver_nodes
        i = 0
        pc = self.pc
        while i < len(sn) and i < len(pc) and sn[i] == pc[i][0]:
            i += 1
        if len(sn) > i:
            s.pop(len(sn) - i)
            del sn[i:]
        for n, f in pc[i:]:
            s.push()
            s.add(self.to_z3(f))
            sn.append(n)

    def z_check(self, f=True, want=None):
        """z3 verdict on PC & f: True, False or None (unknown).  The relational part of the path
        condition is on the solver's stack; the unary part (domains) is added for the variables that occur.
        `want`: a term to evaluate in the model"""
        self._flush()
        s = self.solver
        s.push()
        if f is not True:
            s.add(self.to_z3(f))
        self._add_domains(f)
        t = time.perf_counter()
        r = s.check()
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["queries"] += 1
        self.got = None
        if r == z3.sat:
            self.stats["sat"] += 1
            if want is not None:
                self.got = s.model().eval(want, model_completion=True)
            s.pop()
            return True
        s.pop()
        if r == z3.unsat:
            self.stats["unsat"] += 1
            return False
        self.stats["unknown"] += 1
        return None

    def _vars_of(self, f, acc):
        if f is True or f is False:
            return
        if f[0] == "l":
            acc.add(f[1])
        elif f[0] == "z":
            acc |= f[2]
        else:
            for x in f[1]:
                self._vars_of(x, acc)

    def _add_domains(self, f):
        acc = set(self.rel)
        self._vars_of(f, acc)
        for v in acc:
            self.solver.add(self.z_mask(v, self.dom[v]))

    def feasible(self, f):
        """is PC & f satisfiable (unknown counts as yes)"""
        if f is True or f is False:
            return f
        k = f[0]
        if k == "l":
            if self.dom[f[1]] & f[2] == 0:
                return False
            if f[1] not in self.rel:
                self.stats["fast"] += 1
                return True
        elif k == "&":
            ok = True
            for x in f[1]:
                if x[0] == "l":
                    if self.dom[x[1]] & x[2] == 0:
                        return False
                    if x[1] in self.rel:
                        ok = False
                else:
                    ok = False
            if ok:
                self.stats["fast"] += 1
                return True
        elif k == "|":
            dead = True
            for x in f[1]:
                if x[0] == "l":
                    if self.dom[x[1]] & x[2]:
                        dead = False
                        if x[1] not in self.rel:
                            self.stats["fast"] += 1
                            return True
                else:
                    dead = False
            if dead:
                return False
        r = self.z_check(f)
        return True if r is None else r

    def must(self, f):
        """PC implies f"""
        return not self.feasible(f_not(f))

    # ---------------------------------------------------------------- decisions
    def decide(self, f, aux=None):
        if f is True or f is False:
            return f
        if self.dead is not None:
            raise self.dead
        if not self.active:
            raise RuntimeError("symbolic decision outside a path")
        k = f[0]
        if k == "l":
            d = self.dom[f[1]]
            if d & f[2] == 0:
                return False
            if d & ~f[2] == 0:
                return True
        fp = (f[1], f[2]) if k == "l" else k
        if self.pos < len(self.prefix):
            o, forced, _, fp0 = self.prefix[self.pos]
            if fp0 != fp:
                self.truncated.append("nondeterministic re-execution")
                self.kill(Unsupported("nondeterministic re-execution"))
        else:
            if self.deadline is not None and time.time() > self.deadline:
                self.kill(Budget("time"))
            t = self.feasible(f)
            n = self.feasible(f_not(f)) if t else True
            forced = True
            if t and n:
                forced = False
                o = True
                self.worklist.append(self.trail[:] + [(False, False, aux, fp)])
            elif t:
                o = True
            elif n:
                o = False
        self.pos += 1
        self.stats["decisions"] += 1
        self.trail.append((o, forced, aux, fp))
        if not forced:
            key = (-1, self.tnode, o, aux)
            t = self.intern.get(key)
            if t is None:
                t = len(self.intern) + 1
                self.intern[key] = t
            self.tnode = t
        self.assert_f(f if o else f_not(f), forced)
        return o

    def peek_aux(self):
        if self.pos < len(self.prefix):
            return self.prefix[self.pos][2]
        return None

    def concretize_int(self, si, limit=64):
        e = z3.simplify(si.e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            v = self.peek_aux()
            if v is None:
                r = self.z_check(("&", [("z", e == e, si.vars)]), want=e)
                if r is None:
                    self.kill(Unsupported("solver gave no model"))
                if r is False:
                    self.kill(Infeasible("concretize"))
                v = self.got.as_long()
            if self.decide(("z", e == v, si.vars), aux=v):
                return v
            n += 1
            if n > limit:
                self.truncated.append("integer concretised to more than %d values" % limit)
                self.kill(Budget("concretize"))

    def concretize_char(self, ch, classes=None):
        """fork until the character is one concrete code point"""
        o = ord(ch)
        if not BASE <= o <= TOP:
            return ch
        v, mp = self.chars[o - BASE]
        while True:
            d = self.dom[v]
            outs = {}
            for i in range(N):
                if d >> i & 1:
                    c = ALPHABET[i] if mp is None else mp[i]
                    outs[c] = outs.get(c, 0) | 1 << i
            if not outs:
                self.kill(Infeasible("char"))
            if len(outs) == 1:
                return chr(next(iter(outs)))
            c = self.peek_aux()
            if c is None:
                c = next(iter(outs))
            m = outs.get(c, 0)
            if self.decide(("l", v, m), aux=c):
                return chr(c)

    # ---------------------------------------------------------------- models
    def model(self, extra=True, rnd=None):
        """concrete inputs for PC & extra, or None"""
        self._flush()
        s = self.solver
        s.push()
        try:
            if extra is not True:
                s.add(self.to_z3(extra))
            acc = set(self.rel)
            self._vars_of(extra, acc)
            for v in acc:
                s.add(self.z_mask(v, self.dom[v]))
            t = time.perf_counter()
            r = s.check()
            self.stats["solver_s"] += time.perf_counter() - t
            self.stats["queries"] += 1
            if r != z3.sat:
                self.stats["unsat" if r == z3.unsat else "unknown"] += 1
                return None if r == z3.unsat else "unknown"
            self.stats["sat"] += 1
            m = s.model()
            val = {}
            for v in range(len(self.dom)):
                if v in acc:
                    val[v] = m.eval(self.zchar(v), model_completion=True).as_long()
                else:
                    d = self.dom[v]
                    cand = [i for i in range(N) if d >> i & 1]
                    val[v] = ALPHABET[rnd.choice(cand) if rnd else cand[0]]
            out = {}
            for name, (kind, x) in self.inputs.items():
                if kind == "text":
                    out[name] = "".join(chr(val[v]) for v in x)
                else:
                    out[name] = m.eval(x, model_completion=True).as_long()
            self._char_vals = val
            self._m = m
            return out
        finally:
            s.pop()

    def subst(self, v):
        """value with all symbolic parts replaced according to the last model()"""
        if isinstance(v, SymBool):
            vs = set()
            self._vars_of(v.f, vs)
            return z3.is_true(self._eval(self.to_z3(v.f), vs))
        if isinstance(v, SymInt):
            return self._eval(v.e, v.vars).as_long()
        if isinstance(v, str):
            if not has_sym(v):
                return str(v)
            out = []
            for ch in v:
                o = ord(ch)
                if BASE <= o <= TOP:
                    var, mp = self.chars[o - BASE]
                    c = self._char_vals[var]
                    out.append(chr(c if mp is None else mp[INDEX[c]]))
                else:
                    out.append(ch)
            return "".join(out)
        if isinstance(v, dict):
            return {self.subst(k): self.subst(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.subst(x) for x in v]
        if isinstance(v, (set, frozenset)):
            return sorted((self.subst(x) for x in v), key=repr)
        return v

    def _eval(self, e, vs):
        pairs = [(self.zchar(v), z3.IntVal(self._char_vals[v])) for v in vs]
        return self._m.eval(z3.substitute(e, *pairs) if pairs else e, model_completion=True)


CTX = Ctx()


import re as _re  # noqa: E402

_sym_rx = _re.compile("[\U000f0000-\U000ffffd]")


def has_sym(s):
    return not s.isascii() and _sym_rx.search(s) is not None


def deep_sym(o, depth=10):
    if isinstance(o, str):
        return has_sym(o)
    if isinstance(o, (SymInt, SymBool)):
        return True
    if depth <= 0:
        return False
    if isinstance(o, dict):
        return any(deep_sym(k, depth - 1) or deep_sym(v, depth - 1) for k, v in o.items())
    if isinstance(o, (list, tuple, set, frozenset)):
        return any(deep_sym(x, depth - 1) for x in o)
    return False


class SymBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return CTX.decide(self.f)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return bool(self) == bool(o)
        return int(bool(self)) == o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return mkbool(f_and([self.f, form(o)])) if isinstance(o, (bool, SymBool)) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(f_or([self.f, form(o)])) if isinstance(o, (bool, SymBool)) else NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return ~int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __repr__(self):
        return repr(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mkbool(f):
    if f is True or f is False:
        return f
    if f[0] == "l":
        d = CTX.dom[f[1]]
        if d & f[2] == 0:
            return False
        if d & ~f[2] == 0:
            return True
    return SymBool(f)


def form(x):
    """formula of a python truth value"""
    if x is True or x is False:
        return x
    if isinstance(x, SymBool):
        return x.f
    return bool(x)


class SymInt:
    """a z3 integer term; `origin` is the digit string it was read from, if any"""

    __slots__ = ("e", "vars", "origin")

    def __init__(self, e, vars=frozenset(), origin=None):
        self.e = e
        self.vars = vars
        self.origin = origin

    # arithmetic -------------------------------------------------------
    def _bin(self, o, fn, swap=False):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, SymInt):
            a, b = self.e, o.e
            vs = self.vars | o.vars
        elif isinstance(o, int):
            a, b = self.e, z3.IntVal(o)
            vs = self.vars
        else:
            return NotImplemented
        return SymInt(fn(b, a) if swap else fn(a, b), vs)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if isinstance(o, int):
            return self._bin(o, lambda a, b: a * b)
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if isinstance(o, int) and o > 0:
            return self._bin(o, lambda a, b: a / b)  # z3 Int division floors for positive divisors
        if isinstance(o, int):
            return self.__index__() // o
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if isinstance(o, int) and o > 0:
            return self._bin(o, lambda a, b: a % b)
        if isinstance(o, int):
            return self.__index__() % o
        return NotImplemented

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __pow__(self, o):
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        return self.__index__() << o

    def __rshift__(self, o):
        return self.__index__() >> o

    def __and__(self, o):
        return self.__index__() & o

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | o

    __ror__ = __or__

    def __neg__(self):
        return SymInt(-self.e, self.vars)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if CTX.decide(("z", self.e >= 0, self.vars)) else -self

    # comparison -------------------------------------------------------
    def _cmp(self, o, fn):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, SymInt):
            return self._mk(fn(self.e, o.e), self.vars | o.vars)
        if isinstance(o, int):
            return self._mk(fn(self.e, z3.IntVal(o)), self.vars)
        if isinstance(o, float):
            return fn(self.__index__(), o)
        return NotImplemented

    @staticmethod
    def _mk(e, vs):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(("z", e, vs))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return CTX.decide(("z", self.e != 0, self.vars))

    def __hash__(self):
        return hash(self.__index__())

    # conversion -------------------------------------------------------
    def __index__(self):
        return CTX.concretize_int(self)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    def __str__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return str(e.as_long())
        o = self.origin
        if o is not None:
            # a digit string without leading zeros is its own decimal form
            i = 0
            while i < len(o) - 1:
                c = o[i]
                if BASE <= ord(c) <= TOP:
                    v, mp = CTX.chars[ord(c) - BASE]
                    m = CTX_MASK0
                    if not CTX.decide(("l", v, m)):
                        break
                elif c != "0":
                    break
                i += 1
            return o[i:]
        neg = not CTX.decide(("z", self.e >= 0, self.vars))
        x = -self.e if neg else self.e
        n = 1
        while not CTX.decide(("z", x < 10 ** n, self.vars)):
            n += 1
            if n > 30:
                CTX.kill(Budget("digits"))
        digs = []
        tot = z3.IntVal(0)
        vs = []
        for k in range(n):
            lo = CTX_MASKD if (k > 0 or n == 1) else CTX_MASKD & ~CTX_MASK0
            v = CTX.new_char(lo)
            CTX.assert_f(("l", v, lo))
            vs.append(v)
            digs.append(CTX.char(v))
            tot = tot * 10 + (CTX.zchar(v) - 48)
        CTX.assert_f(("z", tot == x, self.vars | frozenset(vs)))
        if neg:
            return "-" + "".join(digs)
        self.origin = "".join(digs)
        return self.origin

    __repr__ = __str__

    def __format__(self, spec):
        if not spec or spec == "d":
            return str(self)
        return format(self.__index__(), spec)

    def bit_length(self):
        return self.__index__().bit_length()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self


CTX_MASKD = mask_of_chars("0123456789")
CTX_MASK0 = mask_of_chars("0")


def is_symc(ch):
    return BASE <= ord(ch) <= TOP


_pm_cache = {}


def pmask(ch, key, fn):
    """(var, mask) of the alphabet members for which predicate `fn` holds of symbolic character ch"""
    v, mp = CTX.chars[ord(ch) - BASE]
    ck = (mp, key)
    m = _pm_cache.get(ck)
    if m is None:
        m = 0
        for i in range(N):
            if fn(chr(ALPHABET[i] if mp is None else mp[i])):
                m |= 1 << i
        _pm_cache[ck] = m
    return v, m


def c_pred(ch, key, fn):
    """formula: predicate holds of the character"""
    if not is_symc(ch):
        return bool(fn(ch))
    v, m = pmask(ch, key, fn)
    d = CTX.dom[v]
    if d & m == 0:
        return False
    if d & ~m == 0:
        return True
    return ("l", v, m)


def c_is(ch, key, fn):
    """decide a character predicate"""
    f = c_pred(ch, key, fn)
    return f if f is True or f is False else CTX.decide(f)


def c_eq(a, b):
    """formula: two characters are equal"""
    if a == b:
        return True
    sa, sb = is_symc(a), is_symc(b)
    if not sa and not sb:
        return False
    if not sa:
        a, b, sa, sb = b, a, sb, sa
    va, ma = CTX.chars[ord(a) - BASE]
    if not sb:
        o = ord(b)
        return c_pred(a, ("eq", o), lambda c: ord(c) == o)
    vb, mb = CTX.chars[ord(b) - BASE]
    if va == vb:
        m = 0
        for i in range(N):
            ca = ALPHABET[i] if ma is None else ma[i]
            cb = ALPHABET[i] if mb is None else mb[i]
            if ca == cb:
                m |= 1 << i
        d = CTX.dom[va]
        if d & m == 0:
            return False
        if d & ~m == 0:
            return True
        return ("l", va, m)
    ia = {ALPHABET[i] if ma is None else ma[i] for i in range(N) if CTX.dom[va] >> i & 1}
    ib = {ALPHABET[i] if mb is None else mb[i] for i in range(N) if CTX.dom[vb] >> i & 1}
    both = ia & ib
    if not both:
        return False
    if len(ia) == 1 and len(ib) == 1:
        return True
    if len(ib) == 1:
        o = next(iter(ib))
        return c_pred(a, ("eq", o), lambda c: ord(c) == o)
    if len(ia) == 1:
        o = next(iter(ia))
        return c_pred(b, ("eq", o), lambda c: ord(c) == o)
    return ("z", CTX.z_of_code(a) == CTX.z_of_code(b), frozenset((va, vb)))


def s_eq(a, b):
    """formula: two strings are equal"""
    if len(a) != len(b):
        return False
    fs = []
    for x, y in zip(a, b):
        f = c_eq(x, y)
        if f is False:
            return False
        if f is not True:
            fs.append(f)
    return f_and(fs)


def c_map(ch, key, fn):
    """character derived from ch by a total one-to-one-length mapping"""
    if not is_symc(ch):
        return fn(ch)
    v, mp = CTX.chars[ord(ch) - BASE]
    ck = (mp, key)
    nm = _map_cache.get(ck)
    if nm is None:
        l = []
        for i in range(N):
            r = fn(chr(ALPHABET[i] if mp is None else mp[i]))
            assert len(r) == 1
            l.append(ord(r))
        nm = tuple(l)
        if nm == _IDENT:
            nm = None
        nm = _map_intern.setdefault(nm, nm)
        _map_cache[ck] = nm
    # constant under the current domain?
    if nm is not None:
        d = CTX.dom[v]
        ck = (nm, d)
        c = _const_cache.get(ck, 0)
        if c == 0:
            outs = {nm[i] for i in range(N) if d >> i & 1}
            c = chr(outs.pop()) if len(outs) == 1 else None
            _const_cache[ck] = c
        if c is not None:
            return c
    return CTX.char(v, nm)


_IDENT = tuple(ALPHABET)
_map_cache = {}
_const_cache = {}
_map_intern = {}
