"""Source instrumentation: AST rewriting and the import hook."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import sys

from . import rt

RT = "_sx_"
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in",
       ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.BitOr: "|", ast.BitAnd: "&", ast.Sub: "-", ast.BitXor: "^", ast.Div: "/"}


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _rt(attr, *args):
    return ast.Call(func=ast.Attribute(value=_name(RT), attr=attr, ctx=ast.Load()), args=list(args), keywords=[])


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.tmp = 0
        self.in_class = [False]
        self.msg = 0

    # -- messages of errors and log lines
    def visit_Raise(self, node):
        self.msg += 1
        self.generic_visit(node)
        self.msg -= 1
        return node

    # -- definitions
    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        self.stack.append(node.name)
        self.in_class.append(False)
        fid = len(rt.FUNC_NAMES)
        rt.FUNC_NAMES.append(self.modname + ":" + ".".join(self.stack))
        body = [self.visit(s) for s in node.body]
        body = [x for s in body for x in (s if isinstance(s, list) else [s])]
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            doc = [body.pop(0)]
        node.body = doc + [ast.Expr(_rt("enter", ast.Constant(fid)))] + body
        self.in_class.pop()
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.stack.append(node.name)
        self.in_class.append(True)
        node.body = [y for x in node.body for v in [self.visit(x)] for y in (v if isinstance(v, list) else [v])]
        self.in_class.pop()
        self.stack.pop()
        return node

    def visit_Lambda(self, node):
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        self.in_class.append(False)
        node.body = self.visit(node.body)
        self.in_class.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript) and node.value is not None:
            return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))
        return node

    def visit_TypeAlias(self, node):
        return node

    # -- loops
    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_rt("tick")))
        return node

    visit_For = _loop
    visit_While = _loop
    visit_AsyncFor = _loop

    # -- calls
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ("super", "locals", "globals", "vars", "dir", "eval", "exec",
                                                "TypeVar", "cast", "NamedTuple") and not (
                f.id in ("vars", "dir") and node.args):
            if f.id == "super" or not node.args:
                node.args = [self.visit(x) for x in node.args]
                return node
            node.args = [self.visit(x) for x in node.args]
            return node
        log = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "logger"
        self.msg += log
        self.generic_visit(node)
        self.msg -= log
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=_name(RT), attr="call", ctx=ast.Load()),
            args=[node.func] + node.args, keywords=node.keywords), node)

    # -- comparisons
    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = [CMP[type(o)] for o in node.ops]
        if len(ops) == 1:
            c = node.comparators[0]
            if ops[0] in ("is", "is not") and isinstance(c, ast.Constant) and c.value is None:
                return node
            return ast.copy_location(_rt("cmp", ast.Constant(ops[0]), node.left, c), node)
        vals = []
        left = node.left
        for i, (o, c) in enumerate(zip(ops, node.comparators)):
            if i < len(ops) - 1:
                self.tmp += 1
                t = "_sxt%d" % self.tmp
                right = ast.NamedExpr(target=_name(t, ast.Store()), value=c)
                vals.append(_rt("cmp", ast.Constant(o), left, right))
                left = _name(t)
            else:
                vals.append(_rt("cmp", ast.Constant(o), left, c))
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=vals), node)

    # -- subscripts
    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice):
                return node
            if isinstance(s, ast.Constant) and isinstance(s.value, int):
                # an integer constant: dict keys are strings everywhere it matters, but stay general
                pass
            if isinstance(s, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in s.elts):
                return node
            return ast.copy_location(_rt("getitem", node.value, s), node)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            # evaluation order: value first, then container, then key
            self.tmp += 1
            tv = "_sxv%d" % self.tmp
            return [ast.copy_location(ast.Assign(targets=[_name(tv, ast.Store())], value=node.value), node),
                    ast.copy_location(ast.Expr(_rt("setitem", self.visit(t.value), self.visit(t.slice), _name(tv))), node)]
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            self.tmp += 1
            o, k = "_sxo%d" % self.tmp, "_sxk%d" % self.tmp
            get = _rt("getitem", _name(o), _name(k))
            opn = BIN.get(type(node.op))
            val = _rt("ibinop", ast.Constant(opn), get, node.value) if opn else ast.BinOp(left=get, op=node.op, right=node.value)
            return [ast.copy_location(ast.Assign(targets=[_name(o, ast.Store())], value=self.visit(t.value)), node),
                    ast.copy_location(ast.Assign(targets=[_name(k, ast.Store())], value=self.visit(t.slice)), node),
                    ast.copy_location(ast.Expr(_rt("setitem", _name(o), _name(k), val)), node)]
        opn = BIN.get(type(node.op))
        if opn and isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(targets=[t], value=_rt("ibinop", ast.Constant(opn), _name(t.id), node.value)), node)
        node.target = self.visit(t)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.copy_location(ast.Expr(_rt("delitem", self.visit(t.value), self.visit(t.slice))), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[self.visit(t)]), node))
        return out

    def visit_BinOp(self, node):
        self.generic_visit(node)
        opn = BIN.get(type(node.op))
        if opn:
            return ast.copy_location(_rt("binop", ast.Constant(opn), node.left, node.right), node)
        return node

    # -- displays
    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is not None and isinstance(k, ast.Constant) for k in node.keys):
            return node
        elts = []
        for k, v in zip(node.keys, node.values):
            elts.append(ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()))
        return ast.copy_location(_rt("mkdict", ast.List(elts=elts, ctx=ast.Load())), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(_rt("mkset", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_rt("mkset", ast.ListComp(elt=node.elt, generators=node.generators)), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_rt("mkdict", ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)), node)

    def visit_FormattedValue(self, node):
        self.generic_visit(node)
        if node.conversion == 114:  # !r
            node.conversion = -1
            node.value = _rt("rfmt", node.value) if self.msg else _rt("call", _name("repr"), node.value)
        elif node.format_spec is None:
            node.value = _rt("call", _name("str"), node.value) if node.conversion == 115 else _rt("fmt", node.value)
        return node

    # -- match statements with literal patterns
    def visit_Match(self, node):
        def cond(p, subj):
            """(test expression or None for always, [(name, expr)]) ; raises when not convertible"""
            if isinstance(p, ast.MatchValue):
                return _rt("cmp", ast.Constant("=="), subj, self.visit(p.value)), []
            if isinstance(p, ast.MatchSingleton):
                return _rt("cmp", ast.Constant("is"), subj, ast.Constant(p.value)), []
            if isinstance(p, ast.MatchOr):
                cs = [cond(q, subj) for q in p.patterns]
                if any(b for _, b in cs):
                    raise ValueError
                if any(c is None for c, _ in cs):
                    return None, []
                return ast.BoolOp(op=ast.Or(), values=[c for c, _ in cs]), []
            if isinstance(p, ast.MatchAs):
                if p.pattern is None:
                    return None, ([(p.name, subj)] if p.name else [])
                c, b = cond(p.pattern, subj)
                return c, b + [(p.name, subj)]
            if isinstance(p, ast.MatchClass):
                tests = [_rt("call", _name("isinstance"), subj, self.visit(p.cls))]
                binds = []
                subs = [(_rt("mpos", subj, p.cls, ast.Constant(i), ast.Constant(len(p.patterns))), q) for i, q in enumerate(p.patterns)]
                subs += [(ast.Attribute(value=subj, attr=a, ctx=ast.Load()), q) for a, q in zip(p.kwd_attrs, p.kwd_patterns)]
                tests += [ast.Call(func=_name("hasattr"), args=[subj, ast.Constant(a)], keywords=[]) for a in p.kwd_attrs]
                return both(tests, binds, subs)
            if isinstance(p, ast.MatchSequence):
                star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
                n = len(p.patterns)
                tests = [_rt("mseq", subj, ast.Constant(n - len(star)), ast.Constant(bool(star)))]
                binds, subs = [], []
                for i, q in enumerate(p.patterns):
                    if isinstance(q, ast.MatchStar):
                        if q.name:
                            binds.append((q.name, _rt("mstar", subj, ast.Constant(i), ast.Constant(n - 1 - i))))
                    else:
                        k = i - n if star and i > star[0] else i
                        subs.append((ast.Subscript(value=subj, slice=ast.Constant(k), ctx=ast.Load()), q))
                return both(tests, binds, subs)
            if isinstance(p, ast.MatchMapping):
                keys = ast.Tuple(elts=[self.visit(k) for k in p.keys], ctx=ast.Load())
                tests = [_rt("mmap", subj, keys)]
                binds = [(p.rest, _rt("mrest", subj, keys))] if p.rest else []
                return both(tests, binds, [(_rt("getitem", subj, self.visit(k)), q) for k, q in zip(p.keys, p.patterns)])
            raise ValueError

        def both(tests, binds, subs):
            for e, q in subs:
                c, b = cond(q, e)
                binds += b
                if c is not None:
                    tests.append(c)
            return (tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.And(), values=tests)), binds
        self.tmp += 1
        s = "_sxm%d" % self.tmp
        try:
            conv = [cond(c.pattern, _name(s)) for c in node.cases]
        except ValueError:
            self.generic_visit(node)
            return node
        subject = self.visit(node.subject)
        # a chain: _done flag keeps the first-match semantics with guards
        done = "_sxd%d" % self.tmp
        out = [ast.copy_location(ast.Assign(targets=[_name(s, ast.Store())], value=subject), node),
               ast.copy_location(ast.Assign(targets=[_name(done, ast.Store())], value=ast.Constant(False)), node)]
        for c, (test, binds) in zip(node.cases, conv):
            body = [self.visit(x) for x in c.body]
            body = [y for x in body for y in (x if isinstance(x, list) else [x])]
            inner = [ast.Assign(targets=[_name(done, ast.Store())], value=ast.Constant(True))] + body
            if c.guard is not None:
                inner = [ast.If(test=self.visit(c.guard), body=inner, orelse=[])]
            for n, e in reversed(binds):
                inner.insert(0, ast.Assign(targets=[_name(n, ast.Store())], value=e))
            t = ast.UnaryOp(op=ast.Not(), operand=_name(done))
            if test is not None:
                t = ast.BoolOp(op=ast.And(), values=[t, test])
            out.append(ast.copy_location(ast.If(test=t, body=inner, orelse=[]), node))
        return out


def _fmt(v):
    if isinstance(v, (list, dict, tuple, set)):
        return rt.call(str, v)
    return v


rt.fmt = _fmt


def transform(source, path, modname):
    tree = ast.parse(source, path)
    tree = Instr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return transform(self.get_data(path), path, fullname)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = prefixes
        self.busy = False

    def find_spec(self, name, path=None, target=None):
        root = name.split(".")[0]
        if root not in self.prefixes:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return None
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(prefixes):
    builtins._sx_ = rt
    for m in list(sys.modules):
        if m.split(".")[0] in prefixes:
            del sys.modules[m]
    sys.meta_path.insert(0, Finder(set(prefixes)))
    rt.init()
