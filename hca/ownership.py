"""Which objects a function may change: a flow-sensitive, interprocedural ownership analysis over the syntax tree.

Every expression is approximated by the owners of the object it denotes (`top`) and of the objects reachable from it (`inner`):
    p(i)   argument i itself          c(i)   something inside argument i
    g(x)   the module-level or class-level x, or a default argument
    s(x)   the cached result x
A value made in the function has no owner.  Callees are summarised by the arguments they change and what their result may share.
"""
import ast

MUTATORS = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "add", "discard", "sort", "reverse",
            "difference_update", "intersection_update", "symmetric_difference_update", "append_operation", "append_from_stim_program_text",
            "__setitem__", "__delitem__", "__setattr__", "__delattr__", "__iadd__", "appendleft", "popleft", "move_to_end", "fill", "put", "resize",
            "writerow", "add_edge", "add_node"}
FRESH_CALLS = {"len", "int", "float", "str", "bool", "complex", "abs", "round", "repr", "hash", "range", "sum", "isinstance", "any", "all", "print", "ord", "chr", "id",
               "format", "divmod", "pow", "callable", "hasattr", "type"}
SHALLOW = {"list", "tuple", "set", "dict", "frozenset", "sorted", "reversed", "zip", "enumerate", "filter", "iter", "copy"}
SCALAR = {"int", "float", "str", "bool", "complex", "bytes", "None"}
NIL = (frozenset(), frozenset())


def promote(r):
    return ("c", r[1]) if r[0] == "p" else r


def load(v):
    x = v[1] | {promote(r) for r in v[0]}
    return (x, x)


def join(a, b):
    return (a[0] | b[0], a[1] | b[1])


def alls(*vs):
    out = frozenset()
    for v in vs:
        out |= v[0] | v[1]
    return out


class Fn:
    def __init__(self, mod, cls, node, outer=None):
        self.mod, self.cls, self.node = mod, cls, node
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else [])]
        self.pos = [p.arg for p in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.anns = {p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs}
        deco = [ast.unparse(d).split("(")[0].split(".")[-1] for d in node.decorator_list]
        self.cached = any(d in ("cached_property", "lru_cache", "cache") for d in deco)
        self.prop = any(d in ("property", "cached_property") for d in deco)
        self.static = "staticmethod" in deco
        self.classm = "classmethod" in deco
        self.mutates = set()        # ("p"|"c", param) owners changed
        self.sites = {}             # owner -> first description of the place
        self.ret = NIL

    @property
    def qual(self):
        return (self.cls + "." if self.cls else "") + self.node.name


class Module:
    def __init__(self, name, tree):
        self.name, self.tree = name, tree
        self.tables, self.funcs, self.classes, self.imports, self.mods = set(), {}, {}, {}, {}


class Analysis:
    def __init__(self, modules):
        """modules: {name: ast}"""
        self.mods = {n: Module(n, t) for n, t in modules.items()}
        self.methods = {}           # name -> [Fn]
        self.fields = {}            # attribute name -> [annotation]
        self.classes = {}
        self.fns = []
        for m in self.mods.values():
            self.collect(m)
        for _ in range(12):
            before = [(frozenset(f.mutates), f.ret) for f in self.fns]
            for f in self.fns:
                Eval(self, f).run()
            if before == [(frozenset(f.mutates), f.ret) for f in self.fns]:
                break

    def collect(self, m):
        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.funcs[s.name] = f = Fn(m, None, s)
                    self.fns.append(f)
                elif isinstance(s, ast.ClassDef):
                    m.classes[s.name] = s
                    self.classes[s.name] = (m, s)
                    for x in s.body:
                        if isinstance(x, ast.FunctionDef):
                            f = Fn(m, s.name, x)
                            self.fns.append(f)
                            self.methods.setdefault(x.name, []).append(f)
                            self.attributes(x)
                        elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                            self.fields.setdefault(x.target.id, []).append(x.annotation)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.tables.add(n.id)
                elif isinstance(s, ast.ImportFrom):
                    for a in s.names:
                        m.imports[a.asname or a.name] = (s.module, a.name)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        m.mods[a.asname or a.name.split(".")[0]] = a.name
                elif isinstance(s, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                    body(s.body)
                    body(getattr(s, "orelse", []))
                    for h in getattr(s, "handlers", []):
                        body(h.body)
        body(m.tree.body)
        top = ast.parse("def __module__(): pass").body[0]
        top.body = m.tree.body
        f = Fn(m, None, top)
        f.toplevel = True
        self.fns.append(f)

    def attributes(self, fn):
        """Attributes only ever given scalars are scalars."""
        ps = {p.arg: p.annotation for p in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
        first = fn.args.args[0].arg if fn.args.args else None
        for s in ast.walk(fn):
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute):
                self.fields.setdefault(s.target.attr, []).append(s.annotation)
            for t in s.targets if isinstance(s, ast.Assign) else []:
                for x, v in zip(t.elts, s.value.elts) if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts) else [(t, s.value)]:
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == first:
                        if literal(v):
                            a = ast.Constant(None)
                        elif isinstance(v, ast.Name) and v.id in ps:
                            a = ps[v.id]
                        elif isinstance(v, ast.Attribute) and v.attr == x.attr:
                            continue
                        else:
                            a = None
                        self.fields.setdefault(x.attr, []).append(a)

    def modname(self, n):
        """The analysed module an import name refers to."""
        if n in self.mods:
            return self.mods[n]
        for k, m in self.mods.items():
            if k.split(".")[-1] == n or n and n.endswith("." + k):
                return m
        return None


class Closure:
    def __init__(self, node):
        self.node = node


class Eval:
    def __init__(self, an, fn):
        self.an, self.fn, self.mod = an, fn, fn.mod
        self.depth = 0
        self.locals_stack = []

    def run(self):
        fn = self.fn
        env = {}
        top = getattr(fn, "toplevel", False)
        self.top = top
        for p in fn.params:
            v = (frozenset({("p", p)}), frozenset({("c", p)}))
            if scalar(fn.anns.get(p)):
                v = NIL
            elif p in (fn.vararg, fn.kwarg):
                v = (frozenset(), frozenset({("c", p)}))
            env[p] = v
        a = fn.node.args
        for p, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if d is not None and isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp)):
                env[p.arg] = join(env[p.arg], (frozenset({("g", f"default of {p.arg}")}),) * 2)
        self.globals = {n for s in ast.walk(fn.node) if isinstance(s, ast.Global) for n in s.names} if not top else set()
        self.closures = {}
        self.ret = NIL
        self.block(fn.node.body, env)
        for c in list(self.closures.values()):
            if not c.called:
                self.call_closure(c, [NIL] * 8, {}, dict(env))
        r = self.ret
        if fn.cached:
            r = (frozenset({("s", fn.qual)}),) * 2 if not scalar(fn.node.returns) else NIL
        if scalar(fn.node.returns):
            r = NIL
        fn.ret = join(fn.ret, r)

    # ------------------------------------------------------------ effects

    def change(self, owners, node, how):
        for o in owners:
            self.fn.mutates.add(o)
            self.fn.sites.setdefault(o, f"{self.mod.name}.py:{getattr(node, 'lineno', 0)} {how}")

    # ------------------------------------------------------------ statements

    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def merge(self, env, *others):
        for e in others:
            for k, v in e.items():
                env[k] = join(env[k], v) if k in env else v

    def stmt(self, s, env):
        t = type(s).__name__
        if isinstance(s, ast.Assign):
            v = self.expr(s.value, env)
            for x in s.targets:
                self.assign(x, v, env, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = self.expr(s.value, env)
                self.assign(s.target, NIL if scalar(s.annotation) else v, env, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.expr(s.value, env)
            if isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name) and self.definition(s.target.value.id, env):
                self.change({("g", ast.unparse(s.target))}, s, ast.unparse(s)[:80])
            if isinstance(s.target, ast.Name):
                cur = self.expr(s.target, env)
                if not literal(s.value):
                    self.change(cur[0], s, f"{ast.unparse(s)[:80]}")
                env[s.target.id] = (cur[0], cur[1] | alls(v))
                if s.target.id in self.globals:
                    self.change({("g", s.target.id)}, s, ast.unparse(s)[:80])
            else:
                base = self.expr(s.target.value, env)
                self.change(base[0], s, ast.unparse(s)[:80])
                self.absorb(s.target.value, v, env)
                if not literal(s.value):
                    cur = self.expr(s.target, env)
                    self.change(cur[0], s, ast.unparse(s)[:80])
        elif isinstance(s, ast.Delete):
            for x in s.targets:
                if isinstance(x, (ast.Subscript, ast.Attribute)):
                    self.change(self.expr(x.value, env)[0], s, ast.unparse(s)[:80])
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if not self.top:
                c = self.closures.setdefault(s.name, Closure(s))
                c.called = getattr(c, "called", False)
                env[s.name] = NIL
        elif isinstance(s, ast.ClassDef):
            pass
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.expr(s.value, env)
                if self.depth == 0:
                    self.ret = join(self.ret, v)
                else:
                    self.cret = join(self.cret, v)
        elif isinstance(s, ast.Expr):
            v = self.expr(s.value, env)
        elif isinstance(s, ast.If):
            self.expr(s.test, env)
            a, b = dict(env), dict(env)
            self.block(s.body, a)
            self.block(s.orelse, b)
            env.clear()
            if not leaves(s.body):
                env.update(a)
                if not leaves(s.orelse):
                    self.merge(env, b)
            else:
                env.update(b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.expr(s.iter, env)
            for _ in range(3):
                a = dict(env)
                self.bind_iter(s.target, s.iter, it, a)
                self.block(s.body, a)
                was = dict(env)
                self.merge(env, a)
                if was == env:
                    break
            self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            for _ in range(3):
                self.expr(s.test, env)
                a = dict(env)
                self.block(s.body, a)
                was = dict(env)
                self.merge(env, a)
                if was == env:
                    break
            self.block(s.orelse, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, None)
            self.block(s.body, env)
        elif t in ("Try", "TryStar"):
            a = dict(env)
            self.block(s.body, a)
            self.merge(env, a)
            for h in s.handlers:
                b = dict(env)
                self.block(h.body, b)
                self.merge(env, b)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.Assert):
            self.expr(s.test, env)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.expr(s.exc, env)
        elif t == "Match":
            v = self.expr(s.subject, env)
            outs = [dict(env)]
            for case in s.cases:
                e = dict(env)
                for n in ast.walk(case.pattern):
                    nm = getattr(n, "name", None)
                    if isinstance(nm, str):
                        e[nm] = join(v, load(v))
                self.block(case.body, e)
                outs.append(e)
            env.clear()
            self.merge(env, *outs)

    def bind_iter(self, target, node, it, env):
        # enumerate / zip / items keep apart what they pair up
        if isinstance(target, (ast.Tuple, ast.List)) and isinstance(node, ast.Call):
            f = ast.unparse(node.func)
            if f == "zip" and len(node.args) == len(target.elts):
                for x, a in zip(target.elts, node.args):
                    self.assign(x, load(self.expr(a, env)), env, None)
                return
            if f == "enumerate" and len(target.elts) == 2 and node.args:
                self.assign(target.elts[0], NIL, env, None)
                self.assign(target.elts[1], load(self.expr(node.args[0], env)), env, None)
                return
        if isinstance(node, ast.Call) and ast.unparse(node.func) == "range":
            it = NIL
        self.assign(target, load(it), env, None)

    def assign(self, x, v, env, src):
        if isinstance(x, ast.Name):
            env[x.id] = v
            if x.id in self.globals:
                self.change({("g", x.id)}, x, f"rebinds {x.id}")
        elif isinstance(x, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(x.elts) and not any(isinstance(e, ast.Starred) for e in list(src.elts) + list(x.elts)):
                vs = [self.expr(e, env) for e in src.elts]
                for e, w, z in zip(x.elts, vs, src.elts):
                    self.assign(e, w, env, z)
                return
            for e in x.elts:
                self.assign(e, load(v) if not isinstance(e, ast.Starred) else (frozenset(), load(v)[0]), env, None)
        elif isinstance(x, ast.Starred):
            self.assign(x.value, v, env, None)
        elif isinstance(x, (ast.Subscript, ast.Attribute)):
            base = self.expr(x.value, env)
            self.change(base[0], x, f"{ast.unparse(x)[:80]} = ...")
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and self.definition(x.value.id, env):
                self.change({("g", ast.unparse(x))}, x, f"{ast.unparse(x)} = ...")
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                m = self.module_of(x.value.id, env)
                if m is not None:
                    self.change({("g", x.attr)}, x, f"{ast.unparse(x)} = ...")
            self.absorb(x.value, v, env)

    def absorb(self, node, v, env):
        """v is now reachable from node."""
        while isinstance(node, (ast.Subscript, ast.Attribute)):
            node = node.value
        if isinstance(node, ast.Name) and node.id in env:
            env[node.id] = (env[node.id][0], env[node.id][1] | alls(v))

    # ------------------------------------------------------------ expressions

    def module_of(self, name, env):
        if name in env and not self.top:
            return None
        if name in self.mod.mods:
            return self.an.modname(self.mod.mods[name])
        if name in self.mod.imports:
            src, nm = self.mod.imports[name]
            return self.an.modname(nm) if self.an.modname(src) is None else None
        return None

    def name(self, n, env):
        if n in env:
            return env[n]
        if n in self.mod.imports:
            src, nm = self.mod.imports[n]
            m = self.an.modname(src)
            if m is not None and nm in m.tables:
                return (frozenset({("g", nm)}),) * 2
            return NIL
        if n in self.mod.classes:
            return NIL
        if n in self.mod.tables and not self.top:
            return (frozenset({("g", n)}),) * 2
        return NIL

    def expr(self, e, env):
        if e is None or isinstance(e, ast.Constant):
            return NIL
        if isinstance(e, ast.Name):
            return self.name(e.id, env)
        if isinstance(e, ast.Attribute):
            return self.attribute(e, env)
        if isinstance(e, ast.Subscript):
            v = self.expr(e.value, env)
            self.expr(e.slice, env)
            if isinstance(e.slice, ast.Slice):
                return (frozenset(), load(v)[0])
            return load(v)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            inner = frozenset()
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    inner |= load(self.expr(x.value, env))[0]
                else:
                    inner |= alls(self.expr(x, env))
            return (frozenset(), inner)
        if isinstance(e, ast.Dict):
            vs = [self.expr(k, env) for k in e.keys if k is not None] + [self.expr(v, env) for v in e.values]
            return (frozenset(), alls(*vs))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            for g in e.generators:
                it = self.expr(g.iter, env2)
                self.bind_iter(g.target, g.iter, it, env2)
                for c in g.ifs:
                    self.expr(c, env2)
            vs = [self.expr(e.key, env2), self.expr(e.value, env2)] if isinstance(e, ast.DictComp) else [self.expr(e.elt, env2)]
            return (frozenset(), alls(*vs))
        if isinstance(e, ast.BinOp):
            a, b = self.expr(e.left, env), self.expr(e.right, env)
            return (frozenset(), load(a)[0] | load(b)[0] if isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) else frozenset())
        if isinstance(e, ast.BoolOp):
            out = NIL
            for v in e.values:
                out = join(out, self.expr(v, env))
            return out
        if isinstance(e, ast.IfExp):
            self.expr(e.test, env)
            return join(self.expr(e.body, env), self.expr(e.orelse, env))
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value, env)
            self.assign(e.target, v, env, None)
            return v
        if isinstance(e, ast.Starred):
            return self.expr(e.value, env)
        if isinstance(e, ast.Lambda):
            env2 = dict(env)
            for p in e.args.args + e.args.kwonlyargs:
                env2[p.arg] = NIL
            self.expr(e.body, env2)
            return NIL
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = self.expr(e.value, env)
            if isinstance(e, ast.Yield):
                v = (frozenset(), alls(v))
            if self.depth == 0:
                self.ret = join(self.ret, v)
            else:
                self.cret = join(self.cret, v)
            return NIL
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.expr(x, env)
        return NIL

    def attribute(self, e, env):
        if isinstance(e.value, ast.Name):
            m = self.module_of(e.value.id, env)
            if m is not None:
                return (frozenset({("g", e.attr)}),) * 2 if e.attr in m.tables else NIL
            if self.definition(e.value.id, env):
                return (frozenset({("g", f"{e.value.id}.{e.attr}")}),) * 2
        v = self.expr(e.value, env)
        if e.attr == "__dict__":
            return v
        props = [f for f in self.candidates(e.value, e.attr) if f.prop]
        anns = self.an.fields.get(e.attr, [])
        if anns and not props and all(scalar(a) for a in anns):
            return NIL
        out = NIL
        for f in props:
            out = join(out, self.apply(f, [v], {}, e))
        if not props or anns:
            out = join(out, load(v))
        return out

    def definition(self, n, env):
        """Whether a name is a function or class of the project (which lives as long as the process)."""
        if n in env or n in self.closures:
            return False
        if n in self.mod.funcs or self.class_named(n):
            return True
        if n in self.mod.imports:
            m = self.an.modname(self.mod.imports[n][0])
            return m is not None and (self.mod.imports[n][1] in m.funcs or self.mod.imports[n][1] in m.classes)
        return n == "cls" and self.fn.classm

    def class_named(self, n):
        if n in self.mod.classes:
            return n
        if n in self.mod.imports and self.mod.imports[n][1] in self.an.classes:
            return self.mod.imports[n][1]
        return None

    def candidates(self, recv, name):
        fs = self.an.methods.get(name, [])
        if isinstance(recv, ast.Name) and recv.id == "self" and self.fn.cls:
            own = [f for f in fs if f.cls == self.fn.cls]
            return own or fs
        return fs

    def call(self, e, env):
        args, kw = [], {}
        star = NIL
        for a in e.args:
            if isinstance(a, ast.Starred):
                star = join(star, load(self.expr(a.value, env)))
            else:
                args.append(self.expr(a, env))
        for k in e.keywords:
            v = self.expr(k.value, env)
            if k.arg is None:
                star = join(star, load(v))
            else:
                kw[k.arg] = v
        if star != NIL:
            args = args + [star] * 4
        f = e.func
        if isinstance(f, ast.Name):
            n = f.id
            if n in self.closures and n in env:
                return self.call_closure(self.closures[n], args, kw, env)
            if n not in env or self.top:
                t = self.mod.funcs.get(n)
                if t is None and n in self.mod.imports:
                    src, nm = self.mod.imports[n]
                    m = self.an.modname(src)
                    t = m.funcs.get(nm) if m is not None else None
                if t is None:       # imported inside the function
                    t = self.local_import(n)
                if t is not None:
                    return self.apply(t, args, kw, e)
                c = self.class_named(n) or (n if n in self.an.classes else None)
                if c:
                    return self.construct(c, args, kw, e)
            if n in ("setattr", "delattr") and args:
                self.change(args[0][0], e, ast.unparse(e)[:80])
                return NIL
            if n in ("getattr", "vars") and args:
                return join(load(args[0]), args[0])
            if n in ("globals", "locals"):
                return (frozenset({("g", "globals()")}),) * 2
            if n in FRESH_CALLS:
                return NIL
            if n in SHALLOW:
                return (frozenset(), frozenset().union(*[load(a)[0] for a in args]) if args else frozenset())
            if n == "next" and args:
                self.change(args[0][0], e, ast.unparse(e)[:80])
            if n in ("min", "max", "next"):
                return join(load(args[0]), NIL) if len(args) == 1 else (frozenset(), frozenset()) if not args else join(args[0], args[-1])
            if n in ("map",):
                return (frozenset(), frozenset().union(*[load(a)[0] for a in args]) if args else frozenset())
            return (frozenset(), alls(*args, *kw.values()))
        if isinstance(f, ast.Attribute):
            name = f.attr
            if isinstance(f.value, ast.Name):
                m = self.module_of(f.value.id, env)
                if m is not None:
                    t = m.funcs.get(name)
                    if t is not None:
                        return self.apply(t, args, kw, e)
                    if name in m.classes:
                        return self.construct(name, args, kw, e)
                c = self.class_named(f.value.id) if f.value.id not in env else None
                if c:
                    for t in self.an.methods.get(name, []):
                        if t.cls == c:
                            return self.apply(t, args if t.static or not t.classm else [NIL] + args, kw, e)
                if f.value.id in ("list", "dict", "set") and name in MUTATORS and args:
                    self.change(args[0][0], e, ast.unparse(e)[:80])
                    return NIL
                if f.value.id == "object" and name in ("__setattr__", "__delattr__") and args:
                    self.change(args[0][0], e, ast.unparse(e)[:80])
                    return NIL
                if f.value.id in ("copy",) and name == "deepcopy":
                    return NIL
                if f.value.id in ("heapq", "random", "bisect") and args and name in ("heappush", "heappop", "heapify", "shuffle", "insort"):
                    self.change(args[0][0], e, ast.unparse(e)[:80])
                    return NIL
                if f.value.id == "functools" and name in ("lru_cache", "cache"):
                    return NIL
            v = self.expr(f.value, env)
            out = NIL
            cands = [t for t in self.candidates(f.value, name) if not t.prop]
            for t in cands:
                out = join(out, self.apply(t, args if t.static else [v] + args, kw, e))
            if name in MUTATORS and not (cands and isinstance(f.value, ast.Name) and f.value.id == "self"):
                self.change(v[0], e, ast.unparse(e)[:80])
                for a in args + list(kw.values()):
                    self.absorb(f.value, a, env)
            if not cands:
                if name in ("copy", "keys", "values", "items", "union", "difference", "intersection", "get", "pop", "setdefault", "__getitem__"):
                    x = load(v)[0] | alls(*args)
                    out = (x if name in ("get", "pop", "setdefault", "__getitem__") else frozenset(), x)
                else:
                    out = (frozenset(), load(v)[0] | alls(*args, *kw.values()))
            return out
        self.expr(f, env)
        return (frozenset(), alls(*args, *kw.values()))

    def local_import(self, n):
        for s in ast.walk(self.fn.node):
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if (a.asname or a.name) == n:
                        m = self.an.modname(s.module)
                        if m is not None:
                            return m.funcs.get(a.name)
        return None

    def construct(self, c, args, kw, e):
        for t in self.an.methods.get("__init__", []) + self.an.methods.get("__post_init__", []):
            if t.cls == c:
                self.apply(t, [NIL] + (args if t.node.name == "__init__" else []), kw if t.node.name == "__init__" else {}, e)
        return (frozenset(), alls(*args, *kw.values()))

    def apply(self, t, args, kw, node):
        """Call of an analysed function."""
        val = {}
        pos = list(t.pos)
        for i, a in enumerate(args):
            p = pos[i] if i < len(pos) else t.vararg
            if p is None:
                continue
            a2 = a if i < len(pos) else (frozenset(), alls(a))
            val[p] = join(val[p], a2) if p in val else a2
        for k, a in kw.items():
            p = k if k in t.params else t.kwarg
            if p is None:
                continue
            a2 = a if k in t.params else (frozenset(), alls(a))
            val[p] = join(val[p], a2) if p in val else a2

        def sub(r):
            if r[0] == "p":
                return val.get(r[1], NIL)[0]
            if r[0] == "c":
                return load(val.get(r[1], NIL))[0]
            return frozenset({r})
        for m in list(t.mutates):
            if m[0] in "pc":
                self.change(sub(m), node, f"passes it to {t.qual}, which changes it ({t.sites.get(m, '')[:120]})")
        top = frozenset().union(*[sub(r) for r in t.ret[0]]) if t.ret[0] else frozenset()
        inner = frozenset().union(*[sub(r) for r in t.ret[1]]) if t.ret[1] else frozenset()
        for r in t.ret[0] | t.ret[1]:
            if r[0] == "p":
                inner |= load(val.get(r[1], NIL))[0]
        return (top, inner)

    def call_closure(self, c, args, kw, env):
        c.called = True
        if self.depth > 3:
            return NIL
        a = c.node.args
        env2 = dict(env)
        names = [p.arg for p in a.posonlyargs + a.args]
        own = set(names) | {p.arg for p in a.kwonlyargs}
        for p in own:
            env2[p] = NIL
        for i, v in enumerate(args):
            if i < len(names):
                env2[names[i]] = v
        for k, v in kw.items():
            env2[k] = v
        if a.vararg:
            env2[a.vararg.arg] = (frozenset(), alls(*args[len(names):]))
        self.depth += 1
        saved = getattr(self, "cret", NIL)
        self.cret = NIL
        self.block(c.node.body, env2)
        out, self.cret = self.cret, saved
        self.depth -= 1
        nonlocal_names = {n for s in ast.walk(c.node) if isinstance(s, ast.Nonlocal) for n in s.names}
        for k, v in env2.items():
            if k in env and (k not in own) and (k in nonlocal_names or v[1] != env[k][1]):
                env[k] = join(env[k], v) if k in nonlocal_names else (env[k][0], env[k][1] | v[1])
        return out


def scalar(a):
    """Whether an annotation says the value cannot be changed in place and holds nothing that could."""
    if a is None:
        return False
    if isinstance(a, ast.Constant):
        if isinstance(a.value, str):
            try:
                return scalar(ast.parse(a.value, mode="eval").body)
            except SyntaxError:
                return False
        return a.value is None
    if isinstance(a, (ast.Name, ast.Attribute)):
        return ast.unparse(a).split(".")[-1] in SCALAR
    if isinstance(a, ast.Subscript):
        h = ast.unparse(a.value).split(".")[-1]
        if h in ("Optional", "Union", "Tuple", "tuple", "FrozenSet", "frozenset"):
            xs = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            return all(scalar(x) or isinstance(x, ast.Constant) and x.value is ... for x in xs)
    if isinstance(a, ast.BinOp):
        return scalar(a.left) and scalar(a.right)
    return False


def literal(e):
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.JoinedStr):
        return True
    if isinstance(e, ast.UnaryOp):
        return literal(e.operand)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        return e.func.id in ("len", "int", "float", "str", "round", "abs", "sum", "ord")
    if isinstance(e, ast.BinOp):
        return literal(e.left) or literal(e.right)
    return False


def leaves(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
