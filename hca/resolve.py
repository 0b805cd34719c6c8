"""Do names, imports, attributes and calls of the source refer to things that exist?

Everything here errs towards silence: a construct is reported only when what it refers to is known completely and the reference cannot be right.
"""
import ast
import builtins
import glob
import inspect
import os
import re
import string
import sys

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__loader__", "__builtins__", "__annotations__", "__class__", "WindowsError"}
PLAIN_BASES = {"object", "NamedTuple", "Generic", "ABC", "Protocol"}
KEEPS_SIGNATURE = {"staticmethod", "classmethod", "lru_cache", "cache", "contextmanager", "abstractmethod", "override", "wraps"}
VALUE_LIKE = {"property", "cached_property"}
SPEC = re.compile(r"^(.?[<>=^])?[+\- ]?z?#?0?\d*[_,]?(\.\d+)?[bcdeEfFgGnosxX%]?$")
TYPING = {"Optional"}


def last(node):
    """Last name of a possibly dotted, possibly called expression."""
    if isinstance(node, ast.Call):
        node = node.func
    return node.attr if isinstance(node, ast.Attribute) else node.id if isinstance(node, ast.Name) else None


class Scope:
    def __init__(self, kind, node, parent, module):
        self.kind, self.node, self.parent, self.module = kind, node, parent, module
        self.bound = {}          # name -> [binding nodes]
        self.outer = set()       # global / nonlocal declarations
        self.loads = []          # Name nodes
        self.inner = []

    def bind(self, name, node):
        if name in self.outer:
            s = self.parent
            while s is not None and not (s.kind == "module" or s.kind == "function" and name in s.bound):
                s = s.parent
            (s or self).bound.setdefault(name, []).append(node)
            return
        self.bound.setdefault(name, []).append(node)

    def lookup(self, name):
        """(scope, bindings) that a load of the name sees, or None."""
        s = self
        while s is not None:
            if name in s.bound and (s is self or s.kind != "class"):
                return s, s.bound[name]
            s = s.parent
        return None


class Builder(ast.NodeVisitor):
    """The scopes of one module."""

    def __init__(self, module):
        self.scope = self.top = Scope("module", module.tree, None, module)
        self.of = {}             # id(node) -> scope it is evaluated in
        self.all = [self.top]
        for s in module.tree.body:
            self.visit(s)

    def push(self, kind, node):
        s = Scope(kind, node, self.scope, self.scope.module)
        self.scope.inner.append(s)
        self.all.append(s)
        self.scope = s
        return s

    def pop(self):
        self.scope = self.scope.parent

    def visit(self, node):
        self.of[id(node)] = self.scope
        super().visit(node)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.scope.loads.append(n)
        else:
            self.scope.bind(n.id, n)

    def function(self, n):
        a = n.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            self.visit(d)
        ps = a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x is not None]
        for p in ps:
            if p.annotation is not None:
                self.annotation(p.annotation)
        if getattr(n, "returns", None) is not None:
            self.annotation(n.returns)
        self.push("function", n)
        for p in ps:
            self.scope.bind(p.arg, p)
        body = n.body if isinstance(n.body, list) else [n.body]
        for x in body:
            self.declare(x)
        for x in body:
            self.visit(x)
        self.pop()

    def declare(self, n):
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.scope.outer |= set(x.names)

    def annotation(self, n):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            try:
                n = ast.parse(n.value, mode="eval").body
            except SyntaxError:
                return
        self.visit(n)

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        self.scope.bind(n.name, n)
        self.function(n)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        self.function(n)

    def visit_ClassDef(self, n):
        for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(d)
        self.scope.bind(n.name, n)
        self.push("class", n)
        for x in n.body:
            self.visit(x)
        self.pop()

    def comprehension(self, n):
        self.visit(n.generators[0].iter)
        self.push("comp", n)
        for j, g in enumerate(n.generators):
            if j:
                self.visit(g.iter)
            self.visit(g.target)
            for c in g.ifs:
                self.visit(c)
        for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
            self.visit(x)
        self.pop()

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comprehension

    def visit_NamedExpr(self, n):
        s = self.scope
        while s.kind == "comp":
            s = s.parent
        s.bind(n.target.id, n)
        self.visit(n.value)

    def visit_Import(self, n):
        for a in n.names:
            self.scope.bind(a.asname or a.name.split(".")[0], n)

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.scope.bind(a.asname or a.name, n)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.scope.bind(n.name, n)
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        self.annotation(n.annotation)
        if n.value is not None:
            self.visit(n.value)
        if isinstance(n.target, ast.Name):
            if n.value is not None or self.scope.kind == "class":
                self.scope.bind(n.target.id, n)
            else:
                self.scope.bound.setdefault(n.target.id, [])
        else:
            self.visit(n.target)

    def visit_AugAssign(self, n):
        self.visit(n.value)
        if isinstance(n.target, ast.Name):
            self.scope.loads.append(n.target)
            self.scope.bind(n.target.id, n)
        else:
            self.visit(n.target)

    def visit_MatchAs(self, n):
        if n.name:
            self.scope.bind(n.name, n)
        self.generic_visit(n)

    visit_MatchStar = visit_MatchAs

    def visit_MatchMapping(self, n):
        if n.rest:
            self.scope.bind(n.rest, n)
        self.generic_visit(n)


class Sig:
    """Parameters of something that can be called."""

    def __init__(self, pos, required, kwonly, kwreq, var, varkw, posonly=()):
        self.pos, self.required, self.kwonly, self.kwreq, self.var, self.varkw, self.posonly = pos, required, kwonly, kwreq, var, varkw, set(posonly)

    @staticmethod
    def of(node, skip=0):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        req = set(pos[:len(pos) - len(a.defaults)])
        if skip and not pos:
            return None if a.vararg is None else Sig([], set(), [x.arg for x in a.kwonlyargs], set(), True, a.kwarg is not None)
        po = [x.arg for x in a.posonlyargs][skip:]
        pos = pos[skip:]
        return Sig(pos, req & set(pos), [x.arg for x in a.kwonlyargs], {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}, a.vararg is not None, a.kwarg is not None, po)

    def mismatch(self, call):
        stars = any(isinstance(x, ast.Starred) for x in call.args)
        dstars = any(k.arg is None for k in call.keywords)
        n = sum(not isinstance(x, ast.Starred) for x in call.args)
        if n > len(self.pos) and not self.var:
            return f"takes {len(self.pos)} positional arguments, {n} given"
        given = set(self.pos[:n])
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg in given and not stars:
                return f"argument {k.arg} given twice"
            if (k.arg not in self.pos or k.arg in self.posonly) and k.arg not in self.kwonly and not self.varkw:
                return f"has no parameter {k.arg}"
            given.add(k.arg)
        if not dstars:
            missing = sorted(({p for p in self.required} if not stars else set()) - given) + sorted(self.kwreq - given)
            if missing:
                return f"missing {', '.join(missing)}"
        return None


class Class:
    def __init__(self, res, module, node):
        self.res, self.module, self.node = res, module, node
        self.name = node.name
        self.methods = {x.name: x for x in node.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))}
        self.fields = [x for x in node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        self.decorators = [last(d) for d in node.decorator_list]
        self.data = next((d for d in node.decorator_list if last(d) == "dataclass"), None)
        self.bases = [last(b) for b in node.bases]
        self.local = [res.classes[b] for b in self.bases if b in res.classes]

    def open(self):
        """Could it have attributes that are not written in its body?"""
        if any(d not in ("dataclass", "total_ordering", "final") for d in self.decorators) or self.node.keywords:
            return True
        if {"__getattr__", "__getattribute__", "__setattr__", "__init_subclass__"} & set(self.methods):
            return True
        for n in ast.walk(self.node):
            if isinstance(n, ast.Attribute) and n.attr == "__dict__" or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "vars" or \
                    isinstance(n, ast.Call) and last(n) in ("setattr", "__setattr__") and not any(isinstance(a, ast.Constant) for a in n.args):
                return True
        return any(b not in PLAIN_BASES and b not in self.res.classes for b in self.bases) or any(b.open() for b in self.local)

    def attributes(self):
        out = {f.target.id for f in self.fields} | set(self.methods)
        for x in self.node.body:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                if isinstance(n, (ast.ClassDef, ast.FunctionDef)):
                    out.add(n.name)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    out.add(n.value)      # setattr, object.__setattr__, __slots__
        if "NamedTuple" in self.bases:
            out |= {"_replace", "_asdict", "_fields", "_make", "_field_defaults", "count", "index"}
        for b in self.local:
            out |= b.attributes()
        return out | self.res.stored

    def find(self, name):
        if name in self.methods:
            return self, self.methods[name]
        for b in self.local:
            r = b.find(name)
            if r is not None:
                return r
        return None

    def init(self):
        """How it is constructed, if that is known."""
        if any(b not in PLAIN_BASES and b not in self.res.classes for b in self.bases) or any(d not in ("dataclass", "total_ordering", "final") for d in self.decorators) or self.node.keywords:
            return None
        if "__new__" in self.methods:
            return None
        if "__init__" in self.methods:
            return Sig.of(self.methods["__init__"], 1) if not self.methods["__init__"].decorator_list else None
        if self.data is not None or "NamedTuple" in self.bases:
            if self.local:
                return None
            kwonly = isinstance(self.data, ast.Call) and any(k.arg == "kw_only" for k in self.data.keywords)
            if kwonly or isinstance(self.data, ast.Call) and any(k.arg == "init" for k in self.data.keywords):
                return None
            pos, req = [], set()
            for f in self.fields:
                a = ast.unparse(f.annotation)
                if "ClassVar" in a or "KW_ONLY" in a:
                    if "KW_ONLY" in a:
                        return None
                    continue
                has = f.value is not None
                if isinstance(f.value, ast.Call) and last(f.value) == "field":
                    ks = {k.arg for k in f.value.keywords}
                    if "init" in ks or "kw_only" in ks:
                        return None
                    has = bool(ks & {"default", "default_factory"})
                pos.append(f.target.id)
                if not has:
                    req.add(f.target.id)
            return Sig(pos, req, [], set(), False, False)
        if len(self.local) == 1:
            return self.local[0].init()
        return Sig([], set(), [], set(), False, False) if not self.bases or self.bases == ["object"] else None


class Resolver:
    def __init__(self, program, libs=None):
        self.p = program
        self.mods = {k: m for k, m in program.modules.items()}
        self.scopes = {k: Builder(m) for k, m in self.mods.items()}
        self.classes = {}
        dup = set()
        for m in self.mods.values():
            for x in m.tree.body:
                if isinstance(x, ast.ClassDef):
                    if x.name in self.classes:
                        dup.add(x.name)
                    self.classes[x.name] = (m, x)
        self.raw = dict(self.classes)
        self.classes = {}
        for n in list(self.raw):
            if n not in dup:
                self.classes[n] = None
        # attributes assigned on some object from outside its class
        self.stored = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.stored.add(n.attr)
        self.order = []
        left = [n for n in self.classes]
        for n in left:
            self.make(n)
        self.subclassed = {b for c in self.classes.values() for b in c.bases}
        self.libs = Libraries(libs)
        self.out = []
        self.counts = {}

    def make(self, name):
        if self.classes.get(name) is None:
            m, x = self.raw[name]
            for b in x.bases:
                if last(b) in self.classes and last(b) != name and self.classes[last(b)] is None:
                    self.make(last(b))
            self.classes[name] = Class(self, m, x)
        return self.classes[name]

    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    def tolerated(self, m, line, name):
        """Does the module itself ask whether the attribute is there, or handle its absence?"""
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and last(n) in ("hasattr", "getattr", "setattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == name:
                return True
            if isinstance(n, ast.Try) and n.body[0].lineno <= line <= n.body[-1].end_lineno:
                for h in n.handlers:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    if any(last(t) == "AttributeError" for t in ts if t is not None):
                        return True
        return False

    def report(self, rule, module, node, what):
        if rule == "every attribute exists" and isinstance(node, ast.Attribute) and self.tolerated(module, node.lineno, node.attr):
            return
        self.out.append((rule, module, getattr(node, "lineno", 1), what))

    # -------------------------------------------------------------- names and imports

    def repo_module(self, dotted, importer):
        """The module of the source that a dotted import names (also from the importing script's own folder)."""
        if dotted in self.mods:
            return self.mods[dotted]
        if "." in importer and importer.rsplit(".", 1)[0] + "." + dotted in self.mods:
            return self.mods[importer.rsplit(".", 1)[0] + "." + dotted]
        return None

    def is_package(self, dotted):
        return any(k.startswith(dotted + ".") for k in self.mods)

    def top_names(self, m):
        return set(self.scopes[m.name].top.bound)

    def run(self):
        for name, m in self.mods.items():
            b = self.scopes[name]
            if any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree)):
                self.star = True
            else:
                self.names(m, b)
            self.imports(m, b)
            for s in b.all:
                if s.kind in ("function", "module") and not isinstance(s.node, ast.Lambda):
                    Unbound(self, m, b, s)
            self.uses(m, b)
            self.formats(m)
            self.paths(m)
        return self.out

    def names(self, m, b):
        for s in b.all:
            for n in s.loads:
                self.count("names")
                r = s.lookup(n.id)
                if r is None and n.id not in BUILTIN:
                    self.report("every name is defined", m, n, f"{n.id} is not defined")
                elif r is not None and not r[1] and r[0].kind != "class" and n.id not in BUILTIN:
                    self.report("every name is defined", m, n, f"{n.id} is declared but never given a value")

    def imports(self, m, b):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.count("imports")
                    self.importable(m, n, a.name)
            elif isinstance(n, ast.ImportFrom) and not n.level:
                self.count("imports")
                t = self.repo_module(n.module, m.name)
                if t is not None:
                    for a in n.names:
                        if a.name != "*" and a.name not in self.top_names(t) and not self.is_package(n.module + "." + a.name) and n.module + "." + a.name not in self.mods:
                            self.report("every import names something that exists", m, n, f"{n.module} has no {a.name}")
                elif self.importable(m, n, n.module):
                    for a in n.names:
                        if a.name != "*" and self.libs.has(n.module, a.name) is False:
                            self.report("every import names something that exists", m, n, f"{n.module} has no {a.name}")

    def importable(self, m, n, dotted):
        root = dotted.split(".")[0]
        if self.repo_module(dotted, m.name) is not None or self.is_package(dotted):
            return False
        if self.repo_module(root, m.name) is not None:
            self.report("every import names something that exists", m, n, f"no module {dotted}")
            return False
        guarded = any(isinstance(t, ast.Try) and any(x is n for y in t.body for x in ast.walk(y)) for t in ast.walk(m.tree))
        if self.libs.module(dotted) is False and not guarded:
            self.report("every import names something that exists", m, n, f"no module {dotted}")
            return False
        return True

    # -------------------------------------------------------------- types

    def ann(self, a):
        """Annotation -> normalised type expression node."""
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, ast.Subscript) and last(a.value) == "Optional":
            return self.ann(a.slice)
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            l, r = a.left, a.right
            if isinstance(r, ast.Constant) and r.value is None:
                return self.ann(l)
            if isinstance(l, ast.Constant) and l.value is None:
                return self.ann(r)
            return None
        return a

    def args(self, t):
        if not isinstance(t, ast.Subscript):
            return None, []
        s = t.slice
        return last(t.value), list(s.elts) if isinstance(s, ast.Tuple) else [s]

    def elem(self, t):
        h, a = self.args(self.ann(t)) if t is not None else (None, [])
        if h in ("List", "list", "Sequence", "Iterable", "Iterator", "Set", "set", "FrozenSet", "frozenset", "Dict", "dict", "Generator") and a:
            return self.ann(a[0])
        if h in ("Tuple", "tuple") and len(a) == 2 and isinstance(a[1], ast.Constant) and a[1].value is ...:
            return self.ann(a[0])
        return None

    def cls(self, t):
        """The class of the source a type expression denotes, if any."""
        if t is None:
            return None
        t = self.ann(t)
        n = last(t) if isinstance(t, (ast.Name, ast.Attribute)) else None
        return self.classes.get(n) if n is not None else None

    def env_of(self, s):
        """Types of the variables of a scope: only where every binding agrees."""
        if hasattr(s, "env"):
            return s.env
        s.env = {}
        found = {}
        for name, nodes in s.bound.items():
            found[name] = [None if not isinstance(x, ast.arg) else self.param(s, x) for x in nodes] if nodes else []
        # second pass: values
        work = []
        body = s.node.body if isinstance(getattr(s.node, "body", None), list) else []
        here = self.scopes[s.module.name].of
        for x in (y for st in (body if s.kind != "comp" else [s.node]) for y in ast.walk(st)):
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and here.get(id(x)) is s:
                t = self.ann(x.annotation)
                found[x.target.id] = [t] * max(1, len(found.get(x.target.id, [])))
                s.env[x.target.id] = t
        declared = set(s.env)
        for _ in range(3):
            for name, nodes in s.bound.items():
                if name in declared or not nodes:
                    continue
                ts = [self.binding(s, name, x) for x in nodes]
                if all(t is not None for t in ts) and len({ast.dump(t) for t in ts}) == 1:
                    s.env[name] = ts[0]
                else:
                    s.env.pop(name, None)
        return s.env

    def param(self, s, x):
        f = s.node
        if isinstance(f, ast.Lambda):
            return None
        a = f.args
        if x is a.vararg or x is a.kwarg:
            return None
        if x.annotation is not None:
            return self.ann(x.annotation)
        ps = a.posonlyargs + a.args
        if s.parent is not None and s.parent.kind == "class" and ps and ps[0] is x and "staticmethod" not in [last(d) for d in f.decorator_list] and "classmethod" not in [last(d) for d in f.decorator_list]:
            return ast.Name(id=s.parent.node.name, ctx=ast.Load())
        return None

    def binding(self, s, name, x):
        """Type a binding gives a name."""
        if isinstance(x, ast.arg):
            return self.param(s, x)
        if not isinstance(x, ast.Name):
            return None
        st = self.statement(s.module, x)
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and st.targets[0] is x:
            return self.type(st.value, s)
        if isinstance(st, (ast.For, ast.comprehension)):
            it = st.iter
            if st.target is x:
                return self.elem(self.type(it, self.outer(s, st)))
            if isinstance(st.target, ast.Tuple) and x in st.target.elts and isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and not it.args and len(st.target.elts) == 2:
                h, a = self.args(self.ann(self.type(it.func.value, self.outer(s, st)))) if self.type(it.func.value, self.outer(s, st)) is not None else (None, [])
                if h in ("Dict", "dict") and len(a) == 2:
                    return self.ann(a[st.target.elts.index(x)])
        return None

    def outer(self, s, st):
        return self.scopes[s.module.name].of.get(id(st.iter), s)

    def statement(self, module, x):
        if not hasattr(module, "hca_parent"):
            module.hca_parent = {}
            for n in ast.walk(module.tree):
                for c in ast.iter_child_nodes(n):
                    module.hca_parent[id(c)] = n
        n = x
        while n is not None and not isinstance(n, (ast.stmt, ast.comprehension)):
            n = module.hca_parent.get(id(n))
        return n

    def type(self, e, s):
        if isinstance(e, ast.Name):
            r = s.lookup(e.id) if s is not None else None
            if r is None or e.id in getattr(r[0], "busy", ()):
                return None
            if not hasattr(r[0], "busy"):
                r[0].busy = set()
            if hasattr(r[0], "env"):
                return r[0].env.get(e.id)
            r[0].busy.add(e.id)
            try:
                return self.env_of(r[0]).get(e.id)
            finally:
                r[0].busy.discard(e.id)
        if isinstance(e, ast.Call):
            t = self.callee(e.func, s)
            if t is None:
                return None
            if t[0] == "class":
                return ast.Name(id=t[1].name, ctx=ast.Load())
            f = t[2]
            return self.ann(f.returns) if f.returns is not None and not any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(f)) else None
        if isinstance(e, ast.Attribute):
            c = self.cls(self.type(e.value, s))
            if c is None:
                return None
            for f in c.fields:
                if f.target.id == e.attr:
                    return self.ann(f.annotation)
            r = c.find(e.attr)
            if r is not None and set(map(last, r[1].decorator_list)) & VALUE_LIKE and r[1].returns is not None:
                return self.ann(r[1].returns)
            return None
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            t = self.type(e.value, s)
            h, a = self.args(self.ann(t)) if t is not None else (None, [])
            if h in ("Dict", "dict") and len(a) == 2:
                return self.ann(a[1])
            if h in ("List", "list", "Sequence") and a:
                return self.ann(a[0])
        return None

    def definition(self, name, s):
        """The one definition or import behind a name, as ('class', Class) / ('func', module, node) / ('module', dotted)."""
        r = s.lookup(name)
        if r is None or len(r[1]) != 1:
            return None
        x = r[1][0]
        mod = r[0].module
        if isinstance(x, ast.FunctionDef) and r[0].kind != "class":
            return ("func", mod, x)
        if isinstance(x, ast.ClassDef) and r[0].kind == "module":
            return ("class", self.classes[x.name]) if x.name in self.classes else None
        if isinstance(x, ast.ImportFrom) and not x.level:
            a = next(a for a in x.names if (a.asname or a.name) == name)
            t = self.repo_module(x.module, mod.name)
            if t is not None:
                top = self.scopes[t.name].top
                return self.definition(a.name, top) if a.name in top.bound else None
            return ("module", x.module + "." + a.name)
        if isinstance(x, ast.Import):
            a = next(a for a in x.names if (a.asname or a.name.split(".")[0]) == name)
            return ("module", a.name if a.asname else a.name.split(".")[0])
        return None

    def callee(self, f, s):
        """('class', Class) / ('func', module, node) / ('bound', Class, node) / ('unbound', Class, node) the expression denotes."""
        if isinstance(f, ast.Name):
            d = self.definition(f.id, s)
            return d if d is not None and d[0] in ("class", "func") else None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name):
                d = self.definition(f.value.id, s)
                if d is not None and d[0] == "class":
                    r = d[1].find(f.attr)
                    return ("unbound", r[0], r[1]) if r is not None else None
                if d is not None and d[0] == "module":
                    t = self.repo_module(d[1], s.module.name)
                    if t is not None:
                        return self.callee(ast.Name(id=f.attr, ctx=ast.Load()), self.scopes[t.name].top)
                    return None
            c = self.cls(self.type(f.value, s))
            if c is not None:
                r = c.find(f.attr)
                return ("bound", r[0], r[1]) if r is not None else None
        return None

    # -------------------------------------------------------------- uses

    def uses(self, m, b):
        for n in ast.walk(m.tree):
            s = b.of.get(id(n))
            if s is None:
                continue
            if isinstance(n, ast.Call):
                self.call(m, n, s)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.attribute(m, n, s)

    def call(self, m, n, s):
        t = self.callee(n.func, s)
        if t is None:
            self.builtin(m, n, s)
            return
        if t[0] == "class":
            sig, what = t[1].init(), t[1].name
        else:
            f = t[2]
            decs = [last(d) for d in f.decorator_list]
            if any(d not in KEEPS_SIGNATURE for d in decs):
                return
            skip = 0
            if t[0] == "bound":
                skip = 0 if "staticmethod" in decs else 1
            elif t[0] == "unbound":
                skip = 1 if "classmethod" in decs else 0
            sig, what = Sig.of(f, skip), f.name
            if t[0] == "bound" and t[1].name in self.subclassed:
                return
        if sig is None:
            return
        self.count("calls")
        e = sig.mismatch(n)
        if e is not None:
            self.report("every call passes what its function takes", m, n, f"{what} {e}: {ast.unparse(n)[:160]}")

    def builtin(self, m, n, s):
        """A call of one of the language's own functions, where Python knows its signature."""
        if not isinstance(n.func, ast.Name) or s.lookup(n.func.id) is not None:
            return
        f = getattr(builtins, n.func.id, None)
        try:
            ps = list(inspect.signature(f).parameters.values())
        except (TypeError, ValueError):
            return
        pos = [x for x in ps if x.kind in (x.POSITIONAL_ONLY, x.POSITIONAL_OR_KEYWORD)]
        kw = [x for x in ps if x.kind == x.KEYWORD_ONLY]
        sig = Sig([x.name for x in pos], {x.name for x in pos if x.default is x.empty}, [x.name for x in kw], {x.name for x in kw if x.default is x.empty},
                  any(x.kind == x.VAR_POSITIONAL for x in ps), any(x.kind == x.VAR_KEYWORD for x in ps), [x.name for x in pos if x.kind == x.POSITIONAL_ONLY])
        self.count("calls")
        e = sig.mismatch(n)
        if e is not None:
            self.report("every call passes what its function takes", m, n, f"{n.func.id} {e}: {ast.unparse(n)[:160]}")

    def attribute(self, m, n, s):
        if n.attr.startswith("__"):
            return
        if isinstance(n.value, (ast.Name, ast.Attribute)):
            d = self.chain(n.value, s)
            if d is not None and d[0] == "module":
                self.count("attributes")
                t = self.repo_module(d[1], m.name)
                if t is not None:
                    if n.attr not in self.top_names(t) and not self.is_package(d[1] + "." + n.attr) and d[1] + "." + n.attr not in self.mods and n.attr not in self.stored:
                        self.report("every attribute exists", m, n, f"module {d[1]} has no {n.attr}")
                elif not self.is_package(d[1]) and self.libs.has(d[1], n.attr) is False and not self.imported(m, d[1] + "." + n.attr):
                    self.report("every attribute exists", m, n, f"module {d[1]} has no {n.attr}")
                return
            if d is not None and d[0] == "class" and not d[1].open():
                self.count("attributes")
                if n.attr not in d[1].attributes() and n.attr not in ("mro",):
                    self.report("every attribute exists", m, n, f"{d[1].name} has no {n.attr}")
                return
        c = self.cls(self.type(n.value, s))
        if c is None or c.open() or c.name in self.subclassed:
            return
        self.count("attributes")
        if n.attr not in c.attributes():
            self.report("every attribute exists", m, n, f"{c.name} has no {n.attr}")

    def imported(self, m, dotted):
        return any(isinstance(n, ast.Import) and any(a.name == dotted or a.name.startswith(dotted + ".") for a in n.names) for n in ast.walk(m.tree))

    def chain(self, e, s):
        """Module or class a dotted expression denotes."""
        if isinstance(e, ast.Name):
            return self.definition(e.id, s)
        if isinstance(e, ast.Attribute):
            d = self.chain(e.value, s)
            if d is not None and d[0] == "module":
                dotted = d[1] + "." + e.attr
                if dotted in self.mods or self.is_package(dotted) or self.libs.module(dotted) is True:
                    return ("module", dotted)
        return None

    # -------------------------------------------------------------- format strings, search paths

    def formats(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FormattedValue) and n.format_spec is not None:
                self.count("formats")
                vs = n.format_spec.values
                if all(isinstance(v, ast.Constant) for v in vs):
                    t = "".join(v.value for v in vs)
                    if not SPEC.match(t) and ("%" not in t or len(t) < 2):
                        self.report("every format is well formed", m, n, f"format {t!r} of {ast.unparse(n.value)[:80]}")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
                self.count("formats")
                self.template(m, n, n.func.value.value)

    def template(self, m, n, text):
        try:
            fields = [f for _, f, _, _ in string.Formatter().parse(text) if f is not None]
        except ValueError as e:
            self.report("every format is well formed", m, n, f"{text!r}: {e}")
            return
        auto = 0
        stars = any(isinstance(x, ast.Starred) for x in n.args)
        names = {k.arg for k in n.keywords}
        for f in fields:
            k = re.split(r"[.\[]", f)[0]
            if k == "":
                k = str(auto)
                auto += 1
            if k.isdigit():
                if int(k) >= len(n.args) and not stars:
                    self.report("every format is well formed", m, n, f"{text!r} uses argument {k}, {len(n.args)} given")
            elif k not in names and None not in names:
                self.report("every format is well formed", m, n, f"{text!r} uses {k}, which is not given")

    def paths(self, m):
        """A script outside the source root finds the root's modules only after it has put the root on the search path."""
        if "." not in m.name or not any(isinstance(x, ast.If) and "__name__" in ast.unparse(x.test) for x in m.tree.body):
            return
        self.count("scripts")
        here = m.name.rsplit(".", 1)[0]
        ready = False
        for x in m.tree.body:
            if any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and ast.unparse(c.func.value) in ("sys.path", "path") for c in ast.walk(x)) or "sys.path" in ast.unparse(x) and isinstance(x, (ast.AugAssign, ast.Assign)):
                ready = True
            for n in (y for y in ast.walk(x) if isinstance(y, (ast.Import, ast.ImportFrom))) if not isinstance(x, (ast.FunctionDef, ast.ClassDef)) else ():
                for d in [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module or ""]:
                    if (d in self.mods or self.is_package(d)) and here + "." + d not in self.mods and not ready:
                        self.report("scripts find the modules they import", m, n, f"{d} is imported before the source folder is on the search path")


class Unbound:
    """Local names that are read where no path can have given them a value yet."""

    def __init__(self, res, module, builder, scope):
        self.res, self.m, self.b, self.s = res, module, builder, scope
        self.local = {n for n, x in scope.bound.items() if x and n not in scope.outer and not any(isinstance(y, ast.arg) for y in x)}
        if scope.kind == "module":
            self.local = {n for n in self.local if n not in BUILTIN}
        body = scope.node.body
        if self.local:
            self.block(body, set())

    def stores(self, node):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {a.asname or a.name.split(".")[0] for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
        return out

    def expr(self, e, may):
        """Loads of one expression or simple statement."""
        if e is None:
            return
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.local and n.id not in may:
                sc = self.b.of.get(id(n))
                r = sc.lookup(n.id) if sc is not None else None
                if r is not None and r[0] is self.s and not any(isinstance(x, ast.NamedExpr) for x in r[1]):
                    self.res.report("no name is read before it is given a value", self.m, n, f"{n.id} has no value yet")
                    may.add(n.id)
            stack.extend(ast.iter_child_nodes(n))

    def block(self, body, may):
        for x in body:
            self.stmt(x, may)

    def stmt(self, x, may):
        self.res.count("statements")
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            for d in x.decorator_list:
                self.expr(d, may)
            may.add(x.name)
        elif isinstance(x, ast.If):
            self.expr(x.test, may)
            a, c = set(may), set(may)
            self.block(x.body, a)
            self.block(x.orelse, c)
            may |= a | c
        elif isinstance(x, (ast.For, ast.AsyncFor)):
            self.expr(x.iter, may)
            may |= self.stores(x)
            self.block(x.body, may)
            self.block(x.orelse, may)
        elif isinstance(x, ast.While):
            self.expr(x.test, may)
            may |= self.stores(x)
            self.block(x.body, may)
            self.block(x.orelse, may)
        elif isinstance(x, (ast.With, ast.AsyncWith)):
            for i in x.items:
                self.expr(i.context_expr, may)
                if i.optional_vars is not None:
                    may |= self.stores(i.optional_vars)
            self.block(x.body, may)
        elif isinstance(x, ast.Try):
            self.block(x.body, may)
            may |= self.stores(x)
            for h in x.handlers:
                self.block(h.body, may)
            self.block(x.orelse, may)
            self.block(x.finalbody, may)
        elif isinstance(x, ast.Match):
            may |= self.stores(x)
        elif isinstance(x, ast.AnnAssign):
            self.expr(x.value, may)
            if x.value is not None:
                may |= self.stores(x.target)
        elif isinstance(x, ast.AugAssign):
            if isinstance(x.target, ast.Name) and x.target.id in self.local and x.target.id not in may:
                self.res.report("no name is read before it is given a value", self.m, x, f"{x.target.id} has no value yet")
            self.expr(x.value, may)
            may |= self.stores(x.target)
        elif isinstance(x, ast.Assign):
            self.expr(x.value, may)
            for t in x.targets:
                self.expr(t, may)
            may |= self.stores(x)
        else:
            self.expr(x, may)
            may |= self.stores(x)


class Libraries:
    """What installed libraries offer, from their files (None: cannot tell)."""

    def __init__(self, dirs=None):
        self.dirs = dirs if dirs is not None else sorted(glob.glob("/opt/venv/lib/python3*/site-packages"))
        self.memo = {}

    def find(self, dotted):
        """Path of a library module's folder or file; False when there is none; None when unknown."""
        if dotted in self.memo:
            return self.memo[dotted]
        self.memo[dotted] = r = self._find(dotted)
        return r

    def _find(self, dotted):
        parts = dotted.split(".")
        if parts[0] in sys.stdlib_module_names or not self.dirs:
            return None
        for d in self.dirs:
            p = d
            for j, x in enumerate(parts):
                q = os.path.join(p, x)
                if os.path.isdir(q):
                    p = q
                    continue
                if os.path.isfile(q + ".py") and j == len(parts) - 1:
                    return q + ".py"
                if glob.glob(q + ".*so") or glob.glob(q + ".pyi"):
                    return None
                break
            else:
                return p
        return False

    def module(self, dotted):
        r = self.find(dotted)
        return None if r is None else r is not False

    def has(self, dotted, name):
        """Does the library module offer the name?  True / False / None."""
        r = self.find(dotted)
        if not r:
            return None
        if os.path.isdir(r):
            if self.find(dotted + "." + name) is not False:
                return True
            files = [os.path.join(r, "__init__.py"), os.path.join(r, "__init__.pyi")]
        else:
            files = [r]
        return self.word(files, name, dotted, set())

    def word(self, files, name, dotted, seen):
        any_ = False
        for f in files:
            if f in seen or not os.path.isfile(f):
                continue
            seen.add(f)
            any_ = True
            with open(f, encoding="utf8", errors="replace") as h:
                text = h.read()
            if re.search(rf"\b{re.escape(name)}\b", text):
                return True
            pkg = dotted if f.endswith(("__init__.py", "__init__.pyi")) else dotted.rsplit(".", 1)[0]
            for x in re.findall(r"^\s*from\s+([.\w]+)\s+import\s+\*", text, re.M):
                t = x
                if x.startswith("."):
                    up = len(x) - len(x.lstrip("."))
                    base = pkg.split(".")
                    base = base[:len(base) - up + 1]
                    t = ".".join(base + ([x.lstrip(".")] if x.lstrip(".") else []))
                q = self.find(t)
                if not q:
                    if f.endswith(".py") and os.path.isfile(f + "i"):
                        continue          # a compiled part, described by the stub
                    return None
                r = self.word([os.path.join(q, "__init__.py")] if os.path.isdir(q) else [q], name, t, seen)
                if r is not False:
                    return r
        return False if any_ else None
