"""refactor.py <transform> <srcdir> [file[:function]]: apply a behaviour-preserving transformation in place to every production file under srcdir.

Used to look for false alarms; not used by any check.
"""
import ast, copy, os, sys

FLOW = (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Await)


class Scope:
    """Applies a statement-list transformer to every function body."""


def bodies(node):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(node, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield f, b
    for h in getattr(node, "handlers", []):
        yield "handler", None


def map_stmts(fn, f):
    """f(list of statements) -> list, applied bottom up to every statement list inside fn (not nested functions)."""
    def go(n):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        go(s)
                setattr(n, fld, f(b))
        for h in getattr(n, "handlers", []):
            go(h)
    go(fn)


def has(n, types, stop=(ast.FunctionDef, ast.Lambda, ast.ClassDef)):
    for c in ast.iter_child_nodes(n):
        if isinstance(c, types):
            return True
        if not isinstance(c, stop) and has(c, types, stop):
            return True
    return False


def flows(s):
    return isinstance(s, FLOW) or has(s, FLOW)


def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def stores(n):
    out = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
    for c in ast.walk(n):
        if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            inner = {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            out -= inner if not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in inner and not inside(c, x) for x in ast.walk(n)) else set()
    return out


def inside(c, x):
    return any(y is x for y in ast.walk(c))


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


class K:
    n = 0

    @classmethod
    def name(cls, p="t"):
        cls.n += 1
        return f"{p}_{cls.n}"


def name(s, ctx=None):
    return ast.Name(id=s, ctx=ctx or ast.Load())


def assign(n, v):
    return ast.Assign(targets=[name(n, ast.Store())], value=v)


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


def is_gen(fn):
    return has(fn, (ast.Yield, ast.YieldFrom))


# ---------------------------------------------------------------- transformations of one function


def t_unparse(fn, ctx):
    pass


def t_hoist(fn, ctx):
    """return e  ->  r = e; return r"""
    def f(b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
                n = K.name("result")
                out += [assign(n, s.value), ast.Return(value=name(n))]
            else:
                out.append(s)
        return out
    map_stmts(fn, f)


def t_invert(fn, ctx):
    """if c: A else: B  ->  if not c: B else: A"""
    def f(b):
        for s in b:
            if isinstance(s, ast.If) and s.orelse:
                s.test = ast.UnaryOp(op=ast.Not(), operand=s.test)
                s.body, s.orelse = s.orelse, s.body
        return b
    map_stmts(fn, f)


def t_flat(fn, ctx):
    """if c: ...return  else: B  ->  if c: ...return; B"""
    def f(b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                o = s.orelse
                s.orelse = []
                out += [s] + o
            else:
                out.append(s)
        return out
    map_stmts(fn, f)


def t_nest(fn, ctx):
    """if c: ...return; rest  ->  if c: ...return else: rest"""
    def f(b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(b):
                s.orelse = f(b[i + 1:])
                return b[:i + 1]
        return b
    map_stmts(fn, f)


def comp_loop(target, c):
    """statements computing a list/set/dict comprehension into name target"""
    if any(g.is_async for g in c.generators):
        return None
    if isinstance(c, ast.ListComp):
        init, step = ast.List(elts=[], ctx=ast.Load()), ast.Expr(ast.Call(func=ast.Attribute(value=name(target), attr="append", ctx=ast.Load()), args=[c.elt], keywords=[]))
    elif isinstance(c, ast.SetComp):
        init, step = ast.Call(func=name("set"), args=[], keywords=[]), ast.Expr(ast.Call(func=ast.Attribute(value=name(target), attr="add", ctx=ast.Load()), args=[c.elt], keywords=[]))
    elif isinstance(c, ast.DictComp):
        init, step = ast.Dict(keys=[], values=[]), ast.Assign(targets=[ast.Subscript(value=name(target), slice=c.key, ctx=ast.Store())], value=c.value)
    else:
        return None
    body = [step]
    for g in reversed(c.generators):
        for i in reversed(g.ifs):
            body = [ast.If(test=i, body=body, orelse=[])]
        body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
    return [assign(target, init)] + body


def t_uncomp(fn, ctx):
    """comprehensions that are the value of a statement -> loops"""
    used = stores(fn) | set(params(fn))

    def f(b):
        out = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Return, ast.Assign, ast.AnnAssign, ast.AugAssign)) and isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)):
                tg = {x.id for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                if not (tg & used) and not has(v, (ast.Lambda,)):
                    n = K.name("acc")
                    out += comp_loop(n, v)
                    s.value = name(n)
            out.append(s)
        return out
    map_stmts(fn, f)


def t_comp_all(fn, ctx):
    """comprehensions anywhere at the first evaluated position of a call's single argument, e.g. ','.join(x for ..) -> list first"""
    class V(ast.NodeTransformer):
        def visit_GeneratorExp(self, n):
            self.generic_visit(n)
            return ast.ListComp(elt=n.elt, generators=n.generators)

        def visit_Call(self, n):
            if isinstance(n.func, ast.Name) and n.func.id in ("any", "all"):
                return n
            self.generic_visit(n)
            return n
    V().visit(fn)


def t_aug(fn, ctx):
    """x += y -> x = x + y for local names initialised by numbers"""
    nums = set()
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) and isinstance(s.targets[0], ast.Name):
            nums.add(s.targets[0].id)

    def f(b):
        return [ast.Assign(targets=[ast.Name(id=s.target.id, ctx=ast.Store())], value=ast.BinOp(left=name(s.target.id), op=s.op, right=s.value))
                if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in nums else s for s in b]
    map_stmts(fn, f)


def t_args(fn, ctx):
    """f(g(x), k=h(y)) -> a = g(x); b = h(y); f(a, k=b) at statement level"""
    def f(b):
        out = []
        for s in b:
            c = s.value if isinstance(s, (ast.Expr, ast.Return, ast.Assign)) else None
            if isinstance(c, ast.Call) and simple(c.func) and not any(isinstance(a, ast.Starred) for a in c.args) and not any(k.arg is None for k in c.keywords):
                if isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name):
                    out.append(s)
                    continue
                if any(isinstance(a, (ast.GeneratorExp, ast.Lambda)) for a in c.args):
                    out.append(s)
                    continue
                for i, a in enumerate(c.args):
                    if not simple(a):
                        n = K.name("arg")
                        out.append(assign(n, a))
                        c.args[i] = name(n)
                for k in c.keywords:
                    if not simple(k.value) and not isinstance(k.value, ast.Lambda):
                        n = K.name(k.arg)
                        out.append(assign(n, k.value))
                        k.value = name(n)
            out.append(s)
        return out
    map_stmts(fn, f)


def t_rename(fn, ctx):
    """rename every local"""
    bad = set(params(fn))
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            bad |= set(params(n))
            if isinstance(n, ast.FunctionDef):
                bad.add(n.name)
                bad |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            bad |= {a.asname or a.name for a in n.names}
    st = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - bad
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in st:
            x.id += "_r"


def t_ifexp(fn, ctx):
    """x = a if c else b -> if statement"""
    def f(b):
        out = []
        for s in b:
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.IfExp):
                a, o = copy.deepcopy(s), copy.deepcopy(s)
                a.value, o.value = s.value.body, s.value.orelse
                out.append(ast.If(test=s.value.test, body=[a], orelse=[o]))
            else:
                out.append(s)
        return out
    map_stmts(fn, f)


def t_demorgan(fn, ctx):
    """if a and b -> if not (not a or not b); comparisons flipped"""
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in flip and simple(n.left) | simple(n.comparators[0]):
                return ast.Compare(left=n.comparators[0], ops=[flip[type(n.ops[0])]()], comparators=[n.left])
            return n

        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[ast.UnaryOp(op=ast.Not(), operand=v) for v in n.test.values]))
            return n
    V().visit(fn)


def t_enum(fn, ctx):
    """for x in y -> for _i, x in enumerate(y)"""
    for n in ast.walk(fn):
        if isinstance(n, ast.For):
            n.target = ast.Tuple(elts=[name(K.name("i"), ast.Store()), n.target], ctx=ast.Store())
            n.iter = ast.Call(func=name("enumerate"), args=[n.iter], keywords=[])


def t_while(fn, ctx):
    """for x in range(n): body -> while"""
    def f(b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and isinstance(s.target, ast.Name) \
                    and len(s.iter.args) == 1 and not has(s, (ast.Continue,)):
                i, n = K.name("i"), K.name("n")
                out += [assign(i, ast.Constant(0)), assign(n, s.iter.args[0]),
                        ast.While(test=ast.Compare(left=name(i), ops=[ast.Lt()], comparators=[name(n)]),
                                  body=[assign(s.target.id, name(i))] + s.body + [ast.AugAssign(target=name(i, ast.Store()), op=ast.Add(), value=ast.Constant(1))], orelse=[])]
            else:
                out.append(s)
        return out
    map_stmts(fn, f)


def t_index(fn, ctx):
    """for x in name: -> for i in range(len(name)): x = name[i]   (only names annotated or known to be lists are safe: ctx decides)"""
    def f(b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and s.iter.id in LISTY and s.iter.id not in stores(ast.Module(body=s.body, type_ignores=[])):
                i = K.name("i")
                tgt, it = s.target, s.iter.id
                s.target = name(i, ast.Store())
                s.iter = ast.Call(func=name("range"), args=[ast.Call(func=name("len"), args=[name(it)], keywords=[])], keywords=[])
                s.body = [ast.Assign(targets=[tgt], value=ast.Subscript(value=name(it), slice=name(i), ctx=ast.Load()))] + s.body
            out.append(s)
        return out
    map_stmts(fn, f)


LISTY = {"problems", "paths", "cases", "qubits", "edges", "keys", "xs", "ys", "layouts", "all_edges"}


def t_items(fn, ctx):
    """for k, v in d.items() -> for k in d: v = d[k]"""
    def f(b):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "items" and simple(s.iter.func.value) \
                    and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2:
                d = s.iter.func.value
                k, v = s.target.elts
                if not isinstance(k, ast.Name):
                    continue
                s.target, s.iter = k, d
                s.body = [ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(d), slice=name(k.id), ctx=ast.Load()))] + s.body
        return b
    map_stmts(fn, f)


def t_fstring(fn, ctx):
    """f'..{x}..' -> '..' + str(x) + '..'"""
    class V(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            parts = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    parts.append(v)
                elif v.conversion == -1 and v.format_spec is None:
                    parts.append(ast.Call(func=name("str"), args=[v.value], keywords=[]))
                else:
                    return n
            if not parts:
                return ast.Constant("")
            e = parts[0]
            for p in parts[1:]:
                e = ast.BinOp(left=e, op=ast.Add(), right=p)
            return e
    V().visit(fn)


def t_member(fn, ctx):
    """x in [a, b] -> x == a or x == b"""
    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and simple(n.left) and isinstance(n.comparators[0], (ast.List, ast.Tuple, ast.Set)) \
                    and not any(isinstance(e, ast.Starred) for e in n.comparators[0].elts) and n.comparators[0].elts:
                pos = isinstance(n.ops[0], ast.In)
                vs = [ast.Compare(left=copy.deepcopy(n.left), ops=[ast.Eq() if pos else ast.NotEq()], comparators=[e]) for e in n.comparators[0].elts]
                return vs[0] if len(vs) == 1 else ast.BoolOp(op=ast.Or() if pos else ast.And(), values=vs)
            return n
    V().visit(fn)


def pure(e):
    return all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.expr_context, ast.Tuple, ast.List, ast.Dict, ast.UnaryOp, ast.unaryop)) for x in ast.walk(e))


def t_swap(fn, ctx):
    """swap adjacent independent assignments of pure expressions"""
    def f(b):
        b = list(b)
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and pure(x.value) for x in (s, t)):
                if s.targets[0].id != t.targets[0].id and s.targets[0].id not in loads(t.value) and t.targets[0].id not in loads(s.value):
                    b[i], b[i + 1] = t, s
                    i += 2
                    continue
            i += 1
        return b
    map_stmts(fn, f)


def t_wrap(fn, ctx):
    """def f(..): body -> def f(..): return _f_impl(..)"""
    if fn.decorator_list or is_gen(fn) or fn.name.startswith("__") or has(fn, (ast.Global, ast.Nonlocal)) or fn.args.vararg or fn.args.kwarg:
        return
    if has(fn, (ast.Call,)) and any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(fn)):
        return
    impl = copy.deepcopy(fn)
    impl.name = "_" + fn.name.lstrip("_") + "_impl"
    a = fn.args
    meth = ctx["cls"] is not None
    pos = [x.arg for x in a.posonlyargs + a.args]
    func = ast.Attribute(value=name(pos[0]), attr=impl.name, ctx=ast.Load()) if meth else name(impl.name)
    call = ast.Call(func=func, args=[name(x) for x in (pos[1:] if meth else pos)], keywords=[ast.keyword(arg=x.arg, value=name(x.arg)) for x in a.kwonlyargs])
    doc = [fn.body[0]] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
    if doc:
        impl.body = impl.body[1:] or [ast.Pass()]
    fn.body = doc + [ast.Return(value=call)]
    ctx["add"].append(impl)


def t_loopfn(fn, ctx):
    """bodies of for loops -> module-level helper functions"""
    if any(n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fn)) or is_gen(fn):
        return
    locs = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(params(fn))
    whole = list(ast.walk(fn))

    def f(b):
        for s in b:
            if not isinstance(s, ast.For) or any(flows(x) for x in s.body) or len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and simple(s.body[0]):
                continue
            m = ast.Module(body=s.body, type_ignores=[])
            w = {x.id for x in ast.walk(m) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            ins = set(map(id, ast.walk(m)))
            out = {x.id for x in whole if isinstance(x, ast.Name) and id(x) not in ins}
            if w & out:
                continue
            # names augmented are read
            if any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for x in ast.walk(m)):
                continue
            ps = sorted((loads(m) & locs) - w) + []
            n = "_" + fn.name.strip("_") + K.name("_step")
            ctx["top"].append(ast.FunctionDef(name=n, args=ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=[]), body=s.body, decorator_list=[], type_params=[]))
            s.body = [ast.Expr(ast.Call(func=name(n), args=[name(p) for p in ps], keywords=[]))]
        return b
    map_stmts(fn, f)


def t_local(fn, ctx):
    """self.x read twice or more in a method that writes no attribute -> local"""
    if ctx["cls"] is None or not params(fn) or params(fn)[0] != "self":
        return
    fields = ctx["fields"]
    cnt = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
            if not isinstance(x.ctx, ast.Load):
                return
            if x.attr in fields:
                cnt[x.attr] = cnt.get(x.attr, 0) + 1
    used = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)} | set(params(fn))
    take = {a for a, k in cnt.items() if k > 1 and a not in used}
    if not take:
        return

    class V(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in take:
                return name(n.attr)
            return n
    for i, s in enumerate(fn.body):
        fn.body[i] = V().visit(s)
    doc = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    fn.body[doc:doc] = [assign(a, ast.Attribute(value=name("self"), attr=a, ctx=ast.Load())) for a in sorted(take)]


def t_assertif(fn, ctx):
    """assert c -> if not c: raise AssertionError"""
    def f(b):
        return [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=[ast.Raise(exc=ast.Call(func=name("AssertionError"), args=[s.msg] if s.msg else [], keywords=[]))], orelse=[])
                if isinstance(s, ast.Assert) else s for s in b]
    map_stmts(fn, f)


def t_binary(fn, ctx):
    """intermediate names for operands of arithmetic at statement level: x = a*b + c -> t = a*b; x = t + c"""
    def f(b):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Return, ast.Assign)) else None
            if isinstance(v, ast.BinOp) and not simple(v.left):
                n = K.name("part")
                out.append(assign(n, v.left))
                v.left = name(n)
            out.append(s)
        return out
    map_stmts(fn, f)


def t_cond(fn, ctx):
    """if <test> -> ok = <test>; if ok  (first test of a chain only)"""
    def f(b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and not simple(s.test):
                n = K.name("cond")
                out.append(assign(n, s.test))
                s.test = name(n)
            out.append(s)
        return out
    map_stmts(fn, f)


def t_iter(fn, ctx):
    """for x in <expr> -> items = <expr>; for x in items"""
    def f(b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not simple(s.iter):
                n = K.name("items")
                out.append(assign(n, s.iter))
                s.iter = name(n)
            out.append(s)
        return out
    map_stmts(fn, f)


def t_tuple(fn, ctx):
    """a, b = x, y -> separate assignments when independent; two adjacent simple assignments -> one"""
    def f(b):
        b = list(b)
        i = 0
        out = []
        while i < len(b):
            s = b[i]
            t = b[i + 1] if i + 1 < len(b) else None
            if t is not None and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (s, t)) and s.targets[0].id not in loads(t.value) \
                    and s.targets[0].id != t.targets[0].id and not has(t.value, (ast.Lambda,)):
                out.append(ast.Assign(targets=[ast.Tuple(elts=[s.targets[0], t.targets[0]], ctx=ast.Store())], value=ast.Tuple(elts=[s.value, t.value], ctx=ast.Load())))
                i += 2
            else:
                out.append(s)
                i += 1
        return out
    map_stmts(fn, f)


def t_lencmp(fn, ctx):
    """range(n) -> range(0, n); x[0] stays; len(x) > 0 ..."""
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "range" and len(n.args) == 1:
                n.args = [ast.Constant(0), n.args[0]]
            return n
    V().visit(fn)


def t_noop(fn, ctx):
    """a statement that does nothing at the start and the end of each block"""
    def f(b):
        if not b:
            return b
        last = isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
        return b[:-1] + [ast.Pass(), b[-1]] if last else b + [ast.Expr(ast.Constant(None))]
    map_stmts(fn, f)


def t_trycopy(fn, ctx):
    """iterate over a list copy: for x in y -> for x in list(y)"""
    for n in ast.walk(fn):
        if isinstance(n, ast.For):
            n.iter = ast.Call(func=name("list"), args=[n.iter], keywords=[])


def alternatives(test):
    """(subject, constants) when the test says that a subject is one of some constants or one of stim's two classes of instruction."""
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        c = test.comparators[0]
        if isinstance(test.ops[0], ast.Eq) and isinstance(c, ast.Constant):
            return ast.dump(test.left), {repr(c.value)}
        if isinstance(test.ops[0], ast.In) and isinstance(c, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in c.elts):
            return ast.dump(test.left), {repr(x.value) for x in c.elts}
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance":
        u = ast.unparse(test.args[1])
        if u in ("stim.CircuitRepeatBlock", "stim.CircuitInstruction", "stim.DemRepeatBlock", "stim.DemInstruction"):
            return ast.dump(test.args[0]), {u}
    return None


def t_elifswap(fn, ctx):
    """if x == 1: A elif x == 2: B  ->  if x == 2: B elif x == 1: A"""
    done = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and id(n) not in done and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            m = n.orelse[0]
            a, b = alternatives(n.test), alternatives(m.test)
            if a and b and a[0] == b[0] and not a[1] & b[1]:
                n.test, m.test = m.test, n.test
                n.body, m.body = m.body, n.body
                done |= {id(n), id(m)}


def t_elifcont(fn, ctx):
    """in a loop whose last statement is  if a: A elif b: B ...:  if a: A; continue / if b: B ..."""
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.While)) and not n.orelse:
            while isinstance(n.body[-1], ast.If) and n.body[-1].orelse:
                s = n.body.pop()
                rest = s.orelse
                s.orelse = []
                if not isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                    s.body.append(ast.Continue())
                n.body += [s] + rest


def t_inline(fn, ctx):
    """a local assigned once by a pure expression and read once in the next statement is replaced by its expression"""
    counts = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            counts.setdefault(n.id, []).append(isinstance(n.ctx, ast.Store))

    def f(b):
        out = []
        for s in b:
            if out and isinstance(out[-1], ast.Assign) and len(out[-1].targets) == 1 and isinstance(out[-1].targets[0], ast.Name) and pure(out[-1].value) \
                    and not isinstance(s, (ast.For, ast.While, ast.FunctionDef)) and sorted(counts[out[-1].targets[0].id]) == [False, True]:
                v, k = out[-1].targets[0].id, [0]

                class R(ast.NodeTransformer):
                    def visit_Name(self, n):
                        if n.id == v:
                            k[0] += 1
                            return out[-1].value
                        return n

                    def visit_Lambda(self, n):
                        return n
                    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda
                head = s.test if isinstance(s, ast.If) else s
                if isinstance(s, ast.If):
                    s.test = R().visit(head)
                elif not isinstance(s, ast.With) and not isinstance(s, ast.Try):
                    s = R().visit(s)
                if k[0] == 1:
                    out.pop()
            out.append(s)
        return out
    map_stmts(fn, f)


ALL = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}


def production(src):
    for base, dirs, fs in os.walk(src):
        for f in sorted(fs):
            if f.endswith(".py") and not f.endswith("_test.py") and f != "conftest.py":
                yield os.path.join(base, f)


def run(tr, src, only=None):
    f = ALL[tr]
    n = 0
    for p in production(src):
        rel = os.path.relpath(p, src)
        if only and rel != only.split(":")[0]:
            continue
        tree = ast.parse(open(p).read())
        before = ast.unparse(tree)
        top = []

        def go(body, cls, fields):
            i = 0
            while i < len(body):
                s = body[i]
                if isinstance(s, ast.ClassDef):
                    go(s.body, s.name, {x.target.id for x in s.body if isinstance(x, ast.AnnAssign)})
                elif isinstance(s, ast.FunctionDef):
                    if not only or ":" not in only or only.split(":")[1] == s.name:
                        add = []
                        mark = len(top)
                        f(s, dict(cls=cls, fields=fields, add=add, top=top))
                        body[i:i] = add
                        i += len(add)
                        if cls is None:
                            new = top[mark:]
                            body[i + 1:i + 1] = new
                            del top[mark:]
                            i += len(new)
                i += 1
        go(tree.body, None, set())
        k = len(tree.body)
        while k and isinstance(tree.body[k - 1], ast.If) and isinstance(tree.body[k - 1].test, ast.Compare):
            k -= 1
        tree.body[k:k] = top
        ast.fix_missing_locations(tree)
        after = ast.unparse(tree)
        if after != before or tr == "unparse":
            n += 1
            compile(after, p, "exec")
            open(p, "w").write(after + "\n")
    return n


if __name__ == "__main__":
    print(run(sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else None), "files changed")
