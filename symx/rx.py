"""Backtracking regular-expression matcher over strings with symbolic characters (semantics of `re`)."""
import re
from re import _constants as C
from re import _compiler, _parser

from .core import CTX, Unsupported, c_eq, c_is, f_and, f_or, has_sym, is_symc, s_eq

_trees = {}
_keys = {}


def tree(pat):
    k = (pat.pattern, pat.flags)
    t = _trees.get(k)
    if t is None:
        fl = pat.flags
        p = _parser.parse(pat.pattern, fl & ~re.UNICODE if False else fl)
        t = (p.data, p.state.flags if hasattr(p, "state") else fl, p.state.groups)
        _trees[k] = t
    return t


def _cat(cat, ch, ascii_):
    n = str(cat)
    if ascii_ and ord(ch) > 127:
        r = False
    elif n.endswith("DIGIT"):
        r = ch.isdecimal()
    elif n.endswith("SPACE"):
        r = ch.isspace() if not ascii_ else ch in " \t\n\r\f\v"
    elif n.endswith("WORD"):
        r = ch.isalnum() or ch == "_"
    else:
        raise Unsupported(n)
    if "NOT" in n:
        if ascii_ and ord(ch) > 127:
            return True
        return not r
    return r


def _in(items, ch, flags):
    asc = bool(flags & re.ASCII)
    neg = False
    hit = False
    cs = {ch}
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            hit = hit or any(len(c) == 1 and ord(c) == av for c in cs)
        elif op is C.RANGE:
            hit = hit or any(len(c) == 1 and av[0] <= ord(c) <= av[1] for c in cs)
        elif op is C.CATEGORY:
            hit = hit or _cat(av, ch, asc)
        else:
            raise Unsupported(str(op))
    return hit != neg


def _one(node, flags):
    """what Python's own engine says of one character under re.IGNORECASE"""
    st = _parser.State()
    st.flags = flags & (re.I | re.A | re.U | re.S)
    pat = _compiler.compile(_parser.SubPattern(st, [node]), st.flags)
    return lambda c: pat.fullmatch(c) is not None


def single(node, flags):
    """(key, predicate) if the node matches exactly one character, else None"""
    op, av = node
    k = (id(node), flags)
    r = _keys.get(k)
    if r is not None:
        return r[1]
    r = None
    if op is C.LITERAL:
        if flags & re.IGNORECASE:
            r = (("li", av, flags & re.A), _one(node, flags))
        else:
            r = (("eq", av), lambda c: ord(c) == av)
    elif op is C.NOT_LITERAL:
        if flags & re.IGNORECASE:
            r = (("nli", av, flags & re.A), _one(node, flags))
        else:
            r = (("ne", av), lambda c: ord(c) != av)
    elif op is C.ANY:
        if flags & re.DOTALL:
            r = ("any", lambda c: True)
        else:
            r = ("dot", lambda c: c != "\n")
    elif op is C.IN:
        r = (("in", str(av), flags & (re.I | re.A)), _one(node, flags) if flags & re.I else lambda c: _in(av, c, flags))
    _keys[k] = (node, r)  # keeps node alive so that its id stays unique
    return r


class M:
    """one match attempt"""

    def __init__(self, s, flags, start, endpos):
        self.s = s
        self.flags = flags
        self.n = endpos
        self.start = start

    def word(self, i):
        if i < 0 or i >= self.n:
            return False
        a = self.flags & re.ASCII
        return c_is(self.s[i], "rxword" + ("a" if a else ""),
                    lambda c: (c.isalnum() or c == "_") and (not a or ord(c) < 128))

    def nl(self, i):
        return c_is(self.s[i], ("eq", 10), lambda c: c == "\n")

    def run(self, data, i, pos, g, k):
        """match data[i:] at pos with groups g, then continue with k(pos, g); returns k's result or None"""
        s = self.s
        fl = self.flags
        while i < len(data):
            node = data[i]
            sg = single(node, fl)
            if sg is not None:
                if pos >= self.n or not c_is(s[pos], sg[0], sg[1]):
                    return None
                pos += 1
                i += 1
                continue
            op, av = node
            if op is C.AT:
                if not self.at(av, pos):
                    return None
                i += 1
                continue
            if op is C.SUBPATTERN:
                group, addf, delf, sub = av
                p0 = pos
                if addf or delf:
                    inner = (fl | addf) & ~delf

                    def after(p, gg):
                        self.flags = fl
                        r = self.run(data, i + 1, p, gg if group is None else {**gg, group: (p0, p), "last": group}, k)
                        self.flags = inner
                        return r
                    self.flags = inner
                    r = self.run(sub.data, 0, pos, g, after)
                    self.flags = fl
                    return r
                if group is None:
                    return self.run(sub.data, 0, pos, g, lambda p, gg: self.run(data, i + 1, p, gg, k))
                return self.run(sub.data, 0, pos, g,
                                lambda p, gg: self.run(data, i + 1, p, {**gg, group: (p0, p), "last": group}, k))
            if op is C.BRANCH:
                for alt in av[1]:
                    r = self.run(alt.data, 0, pos, g, lambda p, gg: self.run(data, i + 1, p, gg, k))
                    if r is not None:
                        return r
                return None
            if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
                lo, hi, sub = av
                return self.repeat(op, lo, hi, sub.data, data, i, pos, g, k)
            if op is C.ASSERT or op is C.ASSERT_NOT:
                d, sub = av
                if d >= 0:
                    r = self.run(sub.data, 0, pos, g, lambda p, gg: (p, gg))
                else:
                    w = sub.getwidth()
                    if w[0] != w[1]:
                        raise Unsupported("lookbehind")
                    r = self.run(sub.data, 0, pos - w[0], g, lambda p, gg: (p, gg)) if pos - w[0] >= 0 else None
                if (r is None) == (op is C.ASSERT):
                    return None
                if op is C.ASSERT:
                    g = r[1]
                i += 1
                continue
            if op is C.ATOMIC_GROUP:
                r = self.run(av.data, 0, pos, g, lambda p, gg: (p, gg))
                if r is None:
                    return None
                pos, g = r
                i += 1
                continue
            if op is C.GROUPREF:
                sp = g.get(av)
                if sp is None:
                    return None
                t = s[sp[0]:sp[1]]
                if pos + len(t) > self.n:
                    return None
                u = s[pos:pos + len(t)]
                if fl & re.IGNORECASE:
                    from .strs import lower
                    t, u = lower(t), lower(u)
                n = len(t)
                f = s_eq(u, t)
                if not (f if f is True or f is False else CTX.decide(f)):
                    return None
                pos += n
                i += 1
                continue
            if op is C.GROUPREF_EXISTS:
                gid, yes, no = av
                br = yes if g.get(gid) is not None else no
                if br is None:
                    i += 1
                    continue
                return self.run(br.data, 0, pos, g, lambda p, gg: self.run(data, i + 1, p, gg, k))
            CTX.kill(Unsupported("regex node %s" % op))
        return k(pos, g)

    def at(self, av, pos):
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if pos == 0:
                return True
            if av is C.AT_BEGINNING and self.flags & re.MULTILINE:
                return self.nl(pos - 1)
            return False
        if av is C.AT_END_STRING:
            return pos == self.n
        if av is C.AT_END:
            if pos == self.n:
                return True
            if self.flags & re.MULTILINE:
                return self.nl(pos)
            return pos == self.n - 1 and self.nl(pos)
        if av is C.AT_BOUNDARY:
            return self.word(pos - 1) != self.word(pos)
        if av is C.AT_NON_BOUNDARY:
            return self.word(pos - 1) == self.word(pos)
        CTX.kill(Unsupported("regex at %s" % av))

    def repeat(self, op, lo, hi, sub, data, i, pos, g, k):
        s = self.s
        if len(sub) == 1:
            sg = single(sub[0], self.flags)
            if sg is not None:
                # repetition of a single character: no recursion
                if op is C.MIN_REPEAT:
                    c = 0
                    p = pos
                    while c < lo:
                        if p >= self.n or not c_is(s[p], sg[0], sg[1]):
                            return None
                        p += 1
                        c += 1
                    while True:
                        r = self.run(data, i + 1, p, g, k)
                        if r is not None:
                            return r
                        if c >= hi or p >= self.n or not c_is(s[p], sg[0], sg[1]):
                            return None
                        p += 1
                        c += 1
                p = pos
                c = 0
                while c < hi and p < self.n and c_is(s[p], sg[0], sg[1]):
                    p += 1
                    c += 1
                if c < lo:
                    return None
                if op is C.POSSESSIVE_REPEAT:
                    return self.run(data, i + 1, p, g, k)
                while c >= lo:
                    r = self.run(data, i + 1, p, g, k)
                    if r is not None:
                        return r
                    p -= 1
                    c -= 1
                return None
        if op is C.POSSESSIVE_REPEAT:
            c = 0
            while c < hi:
                r = self.run(sub, 0, pos, g, lambda p, gg: (p, gg))
                if r is None or (r[0] == pos and c >= lo):
                    break
                pos, g = r
                c += 1
            if c < lo:
                return None
            return self.run(data, i + 1, pos, g, k)

        def more(c, p, gg, last):
            tail = lambda: self.run(data, i + 1, p, gg, k)  # noqa: E731
            body = lambda: self.run(sub, 0, p, gg, lambda p2, g2: more(c + 1, p2, g2, p))  # noqa: E731
            if c < lo:
                return body()
            if op is C.MIN_REPEAT:
                r = tail()
                if r is not None:
                    return r
                if c >= hi or p == last:
                    return None
                return body()
            if c < hi and p != last:
                r = body()
                if r is not None:
                    return r
            return tail()
        return more(0, pos, g, -1)


class SymMatch:
    def __init__(self, pat, s, start, end, groups, pos, endpos):
        self.re = pat
        self.string = s
        self._g = {**groups, 0: (start, end)}
        self.pos = pos
        self.endpos = endpos
        self.lastindex = groups.get("last")
        self.lastgroup = None
        if self.lastindex is not None:
            for n, j in pat.groupindex.items():
                if j == self.lastindex:
                    self.lastgroup = n

    def _ix(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            g = self.re.groupindex[g]
        g = g.__index__()
        if g < 0 or g > self.re.groups:
            raise IndexError("no such group")
        return g

    def _get(self, g, default=None):
        sp = self._g.get(self._ix(g))
        return default if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._get(j, default) for n, j in self.re.groupindex.items()}

    def span(self, g=0):
        return self._g.get(self._ix(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, tmpl):
        return template(self.re, tmpl)(self)

    def __bool__(self):
        return True


def _attempt(pat, s, pos, endpos, full, p):
    data, flags, _ = tree(pat)
    m = M(s, pat.flags, p, endpos)
    fin = (lambda q, g: (q, g) if q == endpos else None) if full else (lambda q, g: (q, g))
    r = m.run(data, 0, p, {}, fin)
    if r is None:
        return None
    return SymMatch(pat, s, p, r[0], r[1], pos, endpos)


def _norm(s, pos, endpos):
    n = len(s)
    endpos = n if endpos is None else max(0, min(endpos, n))
    return max(0, min(pos, n)), endpos


def match(pat, s, pos=0, endpos=None):
    pos, endpos = _norm(s, pos, endpos)
    return _attempt(pat, s, pos, endpos, False, pos)


def fullmatch(pat, s, pos=0, endpos=None):
    pos, endpos = _norm(s, pos, endpos)
    return _attempt(pat, s, pos, endpos, True, pos)


def search(pat, s, pos=0, endpos=None):
    pos, endpos = _norm(s, pos, endpos)
    for p in range(pos, endpos + 1):
        m = _attempt(pat, s, pos, endpos, False, p)
        if m is not None:
            return m
    return None


def finditer(pat, s, pos=0, endpos=None):
    pos, endpos = _norm(s, pos, endpos)
    p = pos
    no_empty_at = -1
    while p <= endpos:
        data, flags, _ = tree(pat)
        m = M(s, pat.flags, p, endpos)
        ban = no_empty_at == p
        r = m.run(data, 0, p, {}, (lambda q, g: None if q == p and ban else (q, g)))
        if r is None:
            p += 1
            continue
        q = r[0]
        yield SymMatch(pat, s, p, q, r[1], pos, endpos)
        if q == p:
            # an empty match: next attempt at the same place must not be empty
            no_empty_at = p
            # re: after an empty match at p the scan continues at p, requiring progress
            continue_at = p
            m2 = M(s, pat.flags, p, endpos)
            r2 = m2.run(data, 0, p, {}, (lambda q2, g: None if q2 == p else (q2, g)))
            if r2 is not None:
                yield SymMatch(pat, s, continue_at, r2[0], r2[1], pos, endpos)
                p = r2[0]
                no_empty_at = -1
            else:
                p += 1
                no_empty_at = -1
        else:
            p = q


def findall(pat, s, pos=0, endpos=None):
    out = []
    for m in finditer(pat, s, pos, endpos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m.group(1) if m.group(1) is not None else "")
        else:
            out.append(m.groups(""))
    return out


def template(pat, repl):
    if callable(repl):
        return repl
    if "\\" not in repl:
        return lambda m: repl
    t = _parser.parse_template(repl, pat)
    if isinstance(t, tuple):  # 3.11
        groups, lits = t
        raise Unsupported("template")

    def f(m):
        out = []
        for x in t:
            if isinstance(x, int):
                out.append(m._get(x, ""))
            else:
                out.append(x)
        return "".join(out)
    return f


def subn(pat, repl, s, count=0):
    f = template(pat, repl)
    out = []
    last = 0
    n = 0
    for m in finditer(pat, s):
        out.append(s[last:m.start()])
        out.append(f(m))
        last = m.end()
        n += 1
        if count and n >= count:
            break
    out.append(s[last:])
    return "".join(out), n


def sub(pat, repl, s, count=0):
    return subn(pat, repl, s, count)[0]


def split(pat, s, maxsplit=0):
    out = []
    last = 0
    n = 0
    for m in finditer(pat, s):
        out.append(s[last:m.start()])
        out.extend(m.groups())
        last = m.end()
        n += 1
        if maxsplit and n >= maxsplit:
            break
    out.append(s[last:])
    return out


METHODS = dict(match=match, fullmatch=fullmatch, search=search, finditer=finditer, findall=findall, sub=sub,
               subn=subn, split=split)
