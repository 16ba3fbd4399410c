"""What a harness sees: symbolic inputs, assumptions, checks and outputs - in a symbolic and a native flavour."""
import json
import random

from . import alpha


class Skip(BaseException):
    """native run: an assumption does not hold"""


class NativeEnv:
    """runs a harness on concrete inputs"""

    sym = False

    def __init__(self, inputs, scratch):
        self.inputs = inputs
        self.scratch = scratch
        self.fails = []
        self.outs = {}
        self.notes = []

    def text(self, name, n, allowed=None):
        return self.inputs.get(name, "a" * n)

    def int(self, name, lo, hi):
        return self.inputs.get(name, lo)

    def pick(self, name, options):
        return options[self.inputs.get(name, 0)]

    def flag(self, name):
        return bool(self.inputs.get(name, 0))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, prop, cond, label, tag=None):
        if not cond:
            self.fails.append([prop, label, tag])

    def out(self, name, val):
        self.outs[name] = val

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or b

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def matches(self, text, chars):
        """every character of text is one of chars"""
        return all(c in chars for c in text)

    def attempt(self, fn, *a, **k):
        try:
            return True, fn(*a, **k)
        except (Exception, SystemExit) as e:
            return False, e

    def use(self, what):
        pass

    def fresh(self):
        """the code under test forgets everything it has seen, as when it is started anew"""
        self.keeper.restore()


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((jsonable(x) for x in v), key=repr)
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(type(v).__name__)


def make_symenv():
    from . import rt
    from .core import CTX, FULL, Infeasible, SymBool, SymInt, c_pred, f_and, f_not, f_or, form, mask_of_chars, mkbool, z3

    masks = {}

    def mask(allowed):
        if allowed is None:
            return FULL
        m = masks.get(allowed)
        if m is None:
            m = masks[allowed] = mask_of_chars(allowed)
        return m

    class SymEnv:
        sym = True

        def __init__(self, scratch):
            self.scratch = scratch
            self.checks = []
            self.outs = {}

        def text(self, name, n, allowed=None):
            m = mask(allowed)
            vs = [CTX.new_char(m) for _ in range(n)]
            CTX.inputs[name] = ("text", vs)
            return "".join(CTX.char(v) for v in vs)

        def int(self, name, lo, hi):
            si = CTX.new_int(lo, hi)
            CTX.inputs[name] = ("int", si.e)
            return si

        def pick(self, name, options):
            si = CTX.new_int(0, len(options) - 1)
            CTX.inputs[name] = ("int", si.e)
            for i in range(len(options) - 1):
                if CTX.decide(("z", si.e == i, frozenset())):
                    return options[i]
            return options[-1]

        def flag(self, name):
            si = CTX.new_int(0, 1)
            CTX.inputs[name] = ("int", si.e)
            return CTX.decide(("z", si.e == 1, frozenset()))

        def assume(self, cond):
            f = form(cond)
            if f is True:
                return
            if f is False or not CTX.feasible(f):
                CTX.kill(Infeasible("assumption"))
            CTX.assert_f(f)

        def check(self, prop, cond, label, tag=None):
            self.checks.append((prop, form(cond), label, tag))

        def out(self, name, val):
            self.outs[name] = val

        def And(self, *a):
            return mkbool(f_and([form(x) for x in a]))

        def Or(self, *a):
            return mkbool(f_or([form(x) for x in a]))

        def Not(self, a):
            return mkbool(f_not(form(a)))

        def Implies(self, a, b):
            return mkbool(f_or([f_not(form(a)), form(b)]))

        def Iff(self, a, b):
            a, b = form(a), form(b)
            return mkbool(f_or([f_and([a, b]), f_and([f_not(a), f_not(b)])]))

        def matches(self, text, chars):
            return mkbool(f_and([c_pred(c, ("oneof", chars), lambda x: x in chars) for c in text]))

        def attempt(self, fn, *a, **k):
            try:
                return True, fn(*a, **k)
            except (Exception, SystemExit) as e:
                if CTX.dead is not None:
                    raise CTX.dead
                return False, e

        def fresh(self):
            self.keeper.restore()

        def use(self, what):
            if what == "xml_opaque":
                CTX.xml_opaque = True
            elif what == "xml_strict":
                CTX.xml_opaque = False

    return SymEnv
