"""Abstract evaluator: turns functions of the analysed repository into value-graph summaries.

The evaluator walks the syntax tree of the current source.  Every name denotes a term over opaque
inputs; control-flow joins are gated (`ite`), loops become closed forms (`rep`, `sum`, induction
variables, `lout` recurrences), heap cells are tracked per allocation, and externally visible
effects are kept in an ordered "world" log.  The analysed program is never executed.
"""
import ast
import os
from fractions import Fraction

from . import terms as T
from .terms import (mk, const, num, TRUE, FALSE, NONE, UNDEF, EMPTY, ite, and_, or_, not_, eq, lst, item,
                    spread, concat, listof, length, idx, strcat, tostr, truth, in_, add, sub, mul, div,
                    intval, numval, strval, is_const, fresh_bv, fresh_phi, subst, mentions, dstore)


class AnalysisBroken(Exception):
    """The source has no such anchor or uses a construct the analysis cannot represent at all."""


class Abort(Exception):
    """The current path always raises."""


class Cell:
    __slots__ = ("kind", "data", "cls", "esc")

    def __init__(self, kind, data, cls=None, esc=FALSE):
        self.kind = kind
        self.data = data
        self.cls = cls
        self.esc = esc      # handed to an unknown function: later changes are visible to it


class State:
    __slots__ = ("heap", "world", "occ")

    def __init__(self):
        self.heap = {}
        self.world = EMPTY
        self.occ = {}

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.world = self.world
        s.occ = dict(self.occ)
        return s


class Closure:
    __slots__ = ("node", "module", "frames", "cls", "qual", "defaults", "bound", "is_lambda")

    def __init__(self, node, module, frames, cls=None, qual=None, defaults=None, bound=None):
        self.node = node
        self.module = module
        self.frames = frames      # tuple of frame cell ids, innermost last
        self.cls = cls
        self.qual = qual
        self.defaults = defaults  # evaluated at definition time (terms) or None
        self.bound = bound        # bound self term or None
        self.is_lambda = isinstance(node, ast.Lambda)


class ClassInfo:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.dataclass = False
        self.frozen = False
        self.fields = []    # (name, annotation string, default node or None)
        self.methods = {}   # name -> FunctionDef
        self.kinds = {}     # name -> 'method' | 'property' | 'static' | 'class'
        self.bases = [ast.unparse(b) for b in node.bases]
        for d in node.decorator_list:
            txt = ast.unparse(d)
            if "dataclass" in txt or "attr.s" in txt:
                self.dataclass = True
                if "frozen=True" in txt.replace(" ", ""):
                    self.frozen = True
                self.deco = txt
        if any(b.split(".")[-1] == "NamedTuple" for b in self.bases):
            self.dataclass = True
            self.frozen = True
        for st in node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields.append((st.target.id, ann(st.annotation), st.value))
            elif isinstance(st, (ast.FunctionDef,)):
                kind = "method"
                for d in st.decorator_list:
                    txt = ast.unparse(d)
                    base = txt.split("(")[0].split(".")[-1]
                    if base in ("property", "cached_property"):
                        kind = "property"
                    elif base == "staticmethod":
                        kind = "static"
                    elif base == "classmethod":
                        kind = "class"
                self.methods[st.name] = st
                self.kinds[st.name] = kind
        self.consts = {}
        for st in node.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.consts[st.targets[0].id] = st.value

    def field_type(self, name):
        for f, t, _ in self.fields:
            if f == name:
                return t
        return None


def ann(node):
    if node is None:
        return "?"
    if isinstance(node, ast.Constant):
        return str(node.value)
    return ast.unparse(node).replace("'", "").replace('"', "")


def param_type(p, a=None):
    """Declared type; a parameter whose default is None may be None whatever its annotation says."""
    t = ann(p.annotation)
    if a is None or t in ("?", "Any", "None", "object") or is_optional(t):
        return t
    pos = a.posonlyargs + a.args
    d = None
    if p in pos:
        k = pos.index(p) - (len(pos) - len(a.defaults))
        d = a.defaults[k] if k >= 0 else None
    elif p in a.kwonlyargs:
        d = a.kw_defaults[a.kwonlyargs.index(p)]
    return f"Optional[{t}]" if isinstance(d, ast.Constant) and d.value is None else t


_typecache = {}


def split_type(t):
    """'Dict[K, V]' -> ('Dict', ['K', 'V'])"""
    if t is None:
        return "?", []
    r = _typecache.get(t)
    if r is None:
        try:
            n = ast.parse(t, mode="eval").body
        except SyntaxError:
            r = ("?", [])
        else:
            if isinstance(n, ast.Subscript):
                head = ast.unparse(n.value).split(".")[-1]
                sl = n.slice
                args = [ast.unparse(e) for e in sl.elts] if isinstance(sl, ast.Tuple) else [ast.unparse(sl)]
                if head == "Optional":
                    r = split_type(args[0])
                elif head == "Union":
                    r = split_type(args[0])
                else:
                    r = (head, args)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
                parts = [ast.unparse(n.left), ast.unparse(n.right)]
                parts = [p for p in parts if p != "None"]
                r = split_type(parts[0])
            else:
                r = (ast.unparse(n), [])
        _typecache[t] = r
    return r


def is_optional(t):
    return t is not None and (t.startswith("Optional[") or "| None" in t or t.startswith("None |") or t.endswith("Optional"))


class Module:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.funcs = {}
        self.classes = {}
        self.imports = {}   # local name -> dotted target
        self.assigns = []
        self.scan(tree.body)

    def scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef,)):
                self.funcs[st.name] = st
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st.name, st, self)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.imports[a.asname or a.name] = (st.module or "") + "." + a.name


class Program:
    """All modules found under the source root (parsed from the working tree on every run)."""

    def __init__(self, root, include_tests=False, spec=None):
        self.root = root
        self.modules = {}
        self.load(root, include_tests)
        if spec is not None:
            self.load(spec, True)

    def load(self, root, include_tests):
        if not os.path.isdir(root):
            raise AnalysisBroken(f"no source directory {root}")
        for dirpath, _, files in os.walk(root):
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                if not include_tests and (fn.endswith("_test.py") or fn.startswith("test_")):
                    continue
                path = os.path.join(dirpath, fn)
                with open(path, encoding="utf8") as f:
                    src = f.read()
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                self.modules[rel] = Module(rel, path, ast.parse(src))

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        for k in self.modules:
            if k.endswith("." + name):
                return self.modules[k]
        return None

    def resolve(self, dotted):
        """('func', Module, node) / ('class', ClassInfo) / ('module', Module) / ('global', Module, name) / None"""
        m = self.module(dotted)
        if m is not None:
            return ("module", m)
        if "." in dotted:
            mod, name = dotted.rsplit(".", 1)
            m = self.module(mod)
            if m is not None:
                if name in m.funcs:
                    return ("func", m, m.funcs[name])
                if name in m.classes:
                    return ("class", m.classes[name])
                if name in m.imports:
                    return self.resolve(m.imports[name])
                return ("global", m, name)
            r = self.resolve(mod)
            if r and r[0] == "class" and name in r[1].methods:
                return ("method", r[1], name)
        return None

    def patch(self, name, model):
        """Replace the methods of class `name` by those of class `model` (a contract written under spec/)."""
        ci, mi = self.find_class(name), self.find_class(model)
        if ci is None:
            raise AnalysisBroken(f"no class {name}")
        for q, node in mi.methods.items():
            node.hca_module = mi.module
            ci.methods[q] = node
            ci.kinds[q] = mi.kinds[q]

    def related(self, a, b):
        """Whether an object declared to be an `a` could be a `b`: some class derives from (or is) both."""
        def ups(n):
            ci = self.find_class(n)
            out = {n}
            for x in (ci.bases if ci is not None else ()):
                out |= ups(x.split(".")[-1])
            return out
        return any({a, b} <= ups(n) for m in self.modules.values() for n in m.classes) or b in ups(a)

    def find_class(self, name):
        for m in self.modules.values():
            if name in m.classes:
                return m.classes[name]
        return None

    def find_func(self, modname, qual):
        """AST node of a function; qual may be 'Class.method'."""
        m = self.module(modname)
        if m is None:
            raise AnalysisBroken(f"no module {modname} under {self.root}")
        if "." in qual:
            c, f = qual.split(".")
            ci = self.find_class(c)
            if ci is None or f not in ci.methods:
                raise AnalysisBroken(f"no {qual} in {modname}")
            return ci.methods[f]
        if qual in m.funcs:
            return m.funcs[qual]
        if qual in m.imports:
            r = self.resolve(m.imports[qual])
            if r and r[0] == "func":
                return r[2]
        raise AnalysisBroken(f"no function {qual} in {modname}")


BUILTIN_TYPES = {"int", "float", "str", "bool", "complex", "list", "dict", "set", "tuple", "frozenset", "object", "type", "bytes"}

# externals whose result or effect depends on when they run
EFFECT_CALLS = {
    "time.monotonic", "time.time", "time.perf_counter", "time.sleep", "subprocess.check_output", "subprocess.run",
    "subprocess.check_call", "subprocess.call", "subprocess.Popen", "os.system", "os.remove", "os.unlink", "os.rename",
    "os.replace", "os.makedirs", "os.mkdir", "input", "random.random", "random.shuffle", "numpy.random.seed",
    "shutil.rmtree", "shutil.copy", "shutil.move", "os.fsync", "sys.exit", "os.popen", "exec", "eval",
}
EFFECT_METHODS = {"sample", "write", "writelines", "read", "readline", "readlines", "close", "flush", "write_text", "unlink",
                  "mkdir", "touch", "rename", "communicate", "wait", "truncate", "seek", "cleanup", "writerow", "writerows"}


class Interp:
    def __init__(self, program, opaque=(), hooks=None, facts=None, unroll=200, max_depth=60):
        self.p = program
        self.opaque = set(opaque)
        self.hooks = dict(hooks or {})
        self.st = State()
        self.boxed = []
        self.next_id = [1]
        self.fns = {}
        self.globals = {}       # module name -> frame id
        self.stack = []         # qualnames being inlined
        self.ctx = []           # enclosing loop indices
        self.facts = facts      # linear facts helper (see linear.Facts) or None
        self.unroll = unroll
        self.max_depth = max_depth
        self.cur_exc = None
        self.notes = []         # imprecision notes
        self.visited = set()    # qualnames of analysed repo functions
        self.loops = []         # recorded general loops
        self.frame_ids = ()
        self.module = None
        self.cls = None
        self.callsites = []     # (qualname, args, world index) for opaque repo calls
        self.annots = {}        # frame id -> {var: annotation}
        self.loop_hook = None
        self.stores = []        # attribute/subscript stores on values that are not tracked cells
        self.nonlocals = {}
        self.slot_hint = {}
        self.ret_types = {"csv.DictReader": "List[Dict[str, str]]"}

    # ------------------------------------------------------------ cells

    def alloc(self, kind, data, cls=None):
        i = self.next_id[0]
        self.next_id[0] += 1
        self.st.heap[i] = Cell(kind, data, cls)
        return mk("ref", i)

    def cell(self, ref):
        return self.st.heap[ref.args[0]]

    def setcell(self, ref, data):
        c = self.st.heap[ref.args[0]]
        if c.esc != FALSE and data != c.data:
            e = mk("ev", "CHANGED", "an object already handed to a callback")
            if c.esc == TRUE:
                self.emit(*e.args)
            else:
                self.emit_if(c.esc, [e])
        self.st.heap[ref.args[0]] = Cell(c.kind, data, c.cls, c.esc)

    def escape(self, t):
        """The objects in t are now known to code outside."""
        for x in T.subterms(t):
            if x.op == "ref":
                c = self.st.heap.get(x.args[0])
                if c is not None and c.esc != TRUE and c.kind in ("list", "set", "dict", "ext"):
                    self.st.heap[x.args[0]] = Cell(c.kind, c.data, c.cls, TRUE)
                    self.escape(c.data)

    def new_fn(self, clo):
        i = self.next_id[0]
        self.next_id[0] += 1
        t = mk("fn", i)
        self.fns[t.key] = clo
        return t

    # ------------------------------------------------------------ deciding conditions

    def decide(self, c):
        if c in (TRUE, FALSE) or self.facts is None:
            return c
        return self.facts.simplify(c)

    # ------------------------------------------------------------ world

    def emit(self, *args):
        self.st.world = concat(self.st.world, lst([item(mk("ev", *args))]))

    def emit_if(self, c, evs):
        if not evs:
            return
        self.st.world = concat(self.st.world, lst([mk("cseg", c, lst([item(e) for e in evs]), EMPTY)]))

    def occ(self, name, args):
        k = self.st.occ.get(name, 0)
        self.st.occ[name] = k + 1
        return mk("occ", name, args, lst([item(i) for i in self.ctx] + [item(num(k))]))

    def raise_if(self, c, exc):
        c = self.decide(c)
        if c == FALSE:
            return
        e = mk("ev", "RAISE", exc)
        if c == TRUE:
            self.emit("RAISE", exc)
            raise Abort()
        self.emit_if(c, [e])

    # ------------------------------------------------------------ module frames

    def module_frame(self, m):
        if m.name in self.globals and self.globals[m.name] in self.st.heap:
            return self.globals[m.name]
        ref = self.alloc("frame", {})
        fid = ref.args[0]
        self.globals[m.name] = fid
        saved = (self.frame_ids, self.module, self.cls, self.st.world)
        self.frame_ids, self.module, self.cls = (fid,), m, None
        for st in m.tree.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.Expr)):
                if isinstance(st, ast.Expr) and not isinstance(st.value, ast.Call):
                    continue
                if isinstance(st, ast.Expr) and "sys.path" in ast.unparse(st):
                    continue
                try:
                    self.exec_stmt(st)
                except Abort:
                    pass
        self.frame_ids, self.module, self.cls = saved[:3]
        self.st.world = saved[3]
        return fid

    # ------------------------------------------------------------ names

    def lookup(self, name):
        for fid in reversed(self.frame_ids):
            cell = self.st.heap.get(fid)
            if cell is not None and name in cell.data:
                v = cell.data[name]
                if v.op != "undef":
                    return v
        m = self.module
        if m is not None:
            r = self.module_name(m, name)
            if r is not None:
                return r
        if name in BUILTIN_TYPES or name in BUILTINS:
            return mk("ext", name)
        if name in EXCEPTIONS:
            return mk("ext", name)
        if name == "__name__":
            return const(self.module.name)
        if name == "__file__":
            return mk("sym", "__file__", "str")
        return mk("ext", name)

    def module_name(self, m, name):
        if name in m.funcs:
            return self.fn_for(m, m.funcs[name], None, name)
        if name in m.classes:
            return mk("cls", name)
        if name in m.imports:
            return self.dotted(m.imports[name])
        fid = self.module_frame(m)
        cell = self.st.heap[fid]
        if name in cell.data:
            return cell.data[name]
        return None

    def dotted(self, d):
        r = self.p.resolve(d)
        if r is None:
            return mk("ext", d)
        if r[0] == "module":
            return mk("mod", r[1].name)
        if r[0] == "func":
            return self.fn_for(r[1], r[2], None, r[2].name)
        if r[0] == "class":
            return mk("cls", r[1].name)
        if r[0] == "global":
            v = self.module_name(r[1], r[2])
            return v if v is not None else mk("ext", d)
        return mk("ext", d)

    def fn_for(self, m, node, cls, qual):
        m = getattr(node, "hca_module", m)
        key = mk("fn", f"{m.name}:{qual}")
        if key.key not in self.fns:
            self.fns[key.key] = Closure(node, m, (), cls, qual)
        return key

    def setvar(self, name, v):
        fid = self.frame_ids[-1]
        cell = self.st.heap[fid]
        nl = self.nonlocals.get(fid)
        if nl and name in nl:
            fid = nl[name]
            cell = self.st.heap[fid]
        d = dict(cell.data)
        d[name] = v
        self.st.heap[fid] = Cell("frame", d, cell.cls)

    # ------------------------------------------------------------ types

    def typeof(self, t):
        op = t.op
        if op == "sym":
            return t.args[1]
        if op == "obj":
            return t.args[0]
        if op == "attr":
            return t.args[2] if len(t.args) > 2 else None
        if op == "typed":
            return t.args[1]
        if op == "idx":
            h, a = split_type(self.typeof(t.args[0]))
            if h in ("List", "Sequence", "Iterable", "list", "Set", "FrozenSet", "set", "frozenset", "Iterator"):
                return a[0] if a else None
            if h in ("Tuple", "tuple"):
                if len(a) == 2 and a[1] in ("...", "Ellipsis") or len(a) == 1:
                    return a[0]
                k = intval(t.args[1])
                if k is not None and 0 <= k < len(a):
                    return a[k]
                return None
            if h in ("Dict", "dict", "DefaultDict", "Mapping"):
                return a[1] if len(a) > 1 else None
            if h == "str":
                return "str"
            if h in (None, "?") and t.args[0].op in ("lst", "setof"):
                return self.elem_type(t.args[0])
            if h in (None, "?") and t.args[0].op in ("dictv", "store", "lout"):
                return self.value_type(t.args[0])
            return None
        if op == "keys":
            h, a = split_type(self.typeof(t.args[0]))
            return f"List[{a[0]}]" if a else None
        if op == "call":
            if t.args[0] in ("sorted", "reversed") and t.args[1]:
                e = self.elem_type(t.args[1][0])
                return f"List[{e}]" if e else None
            q = t.args[0]
            r = self.ret_types.get(q)
            return r
        if op == "app":
            h, a = split_type(self.typeof(t.args[0]))
            if h == "Callable" and len(a) == 2:
                return a[1]
            return None
        if op == "ite":
            a = self.typeof(t.args[1])
            return a if a is not None and t.args[1] != NONE else self.typeof(t.args[2])
        if op == "phi" or op == "bv":
            s = T.sort(t)
            return {"int": "int", "num": "float", "str": "str"}.get(s)
        if op == "occ":
            return self.ret_types.get(t.args[0])
        if op == "mcall":
            return MCALL_TYPES.get(t.args[0])
        s = T.sort(t)
        if s == "str":
            return "str"
        if s == "int":
            return "int"
        return None

    def value_type(self, t):
        """Type of every value put into the dictionary, when it is the same."""
        found = set()

        def go(d):
            if d.op == "dictv":
                found.update(self.typeof(v) for _, v in d.args[0])
            elif d.op == "store":
                found.add(self.typeof(d.args[2]))
                go(d.args[0])
            elif d.op == "ite":
                go(d.args[1])
                go(d.args[2])
            elif d.op == "lout" and d.args[6] in d.args[2] and d not in seen:
                seen.append(d)
                j = d.args[2].index(d.args[6])
                go(d.args[3][j])
                go(d.args[4][j])
            elif d.op != "phi":
                found.add(None)
        seen = []
        go(t)
        return found.pop() if len(found) == 1 else None

    def elem_type(self, t):
        ty = self.typeof(t)
        if ty is None:
            if t.op == "setof" or t.op == "lst":
                l = t.args[0] if t.op == "setof" else t
                for s in l.args:
                    if s.op == "item":
                        return self.typeof(s.args[0])
                    if s.op == "spread":
                        return self.elem_type(s.args[0])
                    if s.op == "rep":
                        return self.elem_type(s.args[2])
                    if s.op == "cseg":
                        return self.elem_type(s.args[1]) or self.elem_type(s.args[2])
            return None
        h, a = split_type(ty)
        if h in ("List", "Sequence", "Iterable", "list", "Set", "FrozenSet", "set", "frozenset", "Iterator") and a:
            return a[0]
        if h in ("Tuple", "tuple") and a:
            return a[0]
        if h in ("Dict", "dict") and a:
            return a[0]
        if h == "str":
            return "str"
        return None

    def class_of(self, t):
        if t.op == "ref":
            c = self.cell(t)
            if c.kind == "inst":
                return self.p.find_class(c.cls)
            return None
        ty = self.typeof(t)
        if ty is None:
            return None
        h, _ = split_type(ty)
        return self.p.find_class(h.split(".")[-1]) if h else None

    def sort_hook(self, t):
        ty = self.typeof(t)
        if ty is None or is_optional(ty):
            return "?"
        return {"int": "int", "float": "num", "str": "str", "bool": "bool", "complex": "num", "Fraction": "num"}.get(ty, "?")

    def install(self):
        T.SORT_HOOK = self.sort_hook
        T.REBUILD_CALL = self.rebuild_call
        T.REBUILD_ATTR = self.rebuild_attr
        T.IDX_HOOK = idx_hook
        T.REBUILD_HOOK = rebuild_hook
        T.FUSE_HOOK = fused_rep
        T.LEN_HOOK = lambda t: (lambda r: None if r is None else length(r[0]))(loop_dict(t))
        return self

    def rebuild_call(self, name, args, kw):
        return simplify_call(name, args, kw)

    def rebuild_attr(self, o, name, typ=None):
        return mkattr(o, name, typ)

    # ------------------------------------------------------------ outcomes

    def merge_states(self, c, a, b):
        """State equal to a when c, else b."""
        if a is b:
            return a
        s = State()
        heap = {}
        for i, ca in a.heap.items():
            cb = b.heap.get(i)
            if cb is None or cb is ca:
                heap[i] = ca
            else:
                heap[i] = merge_cells(c, ca, cb)
        for i, cb in b.heap.items():
            if i not in heap:
                heap[i] = cb
        s.heap = heap
        s.world = join_world(c, a.world, b.world)
        s.occ = dict(a.occ)
        for k, v in b.occ.items():
            s.occ[k] = max(v, s.occ.get(k, 0))
        return s

    def merge_out(self, x, y):
        """Union of two outcome maps whose conditions are disjoint."""
        out = dict(x)
        for k, (c2, s2, v2) in y.items():
            if k in out:
                c1, s1, v1 = out[k]
                v = None
                if k == "ret":
                    v = ite(c1, v1, v2)
                out[k] = (or_(c1, c2), self.merge_states(c1, s1, s2), v)
            else:
                out[k] = (c2, s2, v2)
        return out

    def fold_raises(self, entry_world, out):
        """Move always-raising alternatives into the other alternatives' logs as guarded RAISE events."""
        if "raise" in out and len(out) > 1:
            c, s, _ = out.pop("raise")
            delta = world_delta(entry_world, s.world)
            if delta is None:
                delta = s.world.args
            # the raising inputs stay with one alternative, so that the alternatives still cover every case
            k = "fall" if "fall" in out else list(out)[-1]
            ck, sk, vk = out[k]
            seg = T.cseg(c, mk("lst", *delta), EMPTY)
            d = world_delta(entry_world, sk.world)
            sk2 = sk.copy()
            if d is None:
                sk2.world = concat(sk.world, lst(seg))
            else:
                sk2.world = concat(entry_world, lst(seg), mk("lst", *d))
            out[k] = (not_(or_(*[o[0] for j, o in out.items() if j != k])), sk2, vk)
            if len(out) == 1:
                k, = out
                out[k] = (TRUE, out[k][1], out[k][2])
        return out

    def exec_block(self, stmts):
        """Execute statements in self.st.  Returns an outcome map (conditions relative to entry)."""
        entry = self.st.world
        out = {}
        cond = TRUE
        for st in stmts:
            o = self.exec_stmt(st)
            fall = o.pop("fall", None)
            o = {k: (and_(cond, c), s, v) for k, (c, s, v) in o.items()}
            out = self.merge_out(out, o)
            if fall is None:
                return self.fold_raises(entry, out)
            cond = and_(cond, fall[0])
            self.st = fall[1]
        out = self.merge_out(out, {"fall": (cond if out else TRUE, self.st, None)})
        return self.fold_raises(entry, out)

    def exec_stmt(self, node):
        try:
            m = getattr(self, "s_" + type(node).__name__, None)
            if m is None:
                self.note(node, "statement " + type(node).__name__)
                return {"fall": (TRUE, self.st, None)}
            r = m(node)
            if r is None:
                return {"fall": (TRUE, self.st, None)}
            return r
        except Abort:
            return {"raise": (TRUE, self.st, None)}

    def note(self, node, what):
        self.notes.append(f"{self.module.name if self.module else '?'}:{getattr(node, 'lineno', 0)}: {what}")

    # ------------------------------------------------------------ statements

    def s_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return None
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            self.eval(node.value)
            return None
        if isinstance(node.value, ast.Call):
            self.e_Call(node.value, stmt=True)
            return None
        self.eval(node.value)

    def s_Pass(self, node):
        return None

    def s_Global(self, node):
        fid = self.frame_ids[-1]
        mf = self.module_frame(self.module)
        self.nonlocals.setdefault(fid, {}).update({n: mf for n in node.names})

    def s_Nonlocal(self, node):
        fid = self.frame_ids[-1]
        d = self.nonlocals.setdefault(fid, {})
        for n in node.names:
            for f in reversed(self.frame_ids[:-1]):
                if n in self.st.heap[f].data:
                    d[n] = f
                    break

    def s_Import(self, node):
        for a in node.names:
            nm = a.asname or a.name.split(".")[0]
            self.setvar(nm, self.dotted(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, node):
        for a in node.names:
            self.setvar(a.asname or a.name, self.dotted((node.module or "") + "." + a.name))

    def s_FunctionDef(self, node):
        defaults = self.eval_defaults(node.args)
        clo = Closure(node, self.module, self.frame_ids, self.cls, self.qual_of(node.name), defaults)
        self.setvar(node.name, self.new_fn(clo))

    def qual_of(self, name):
        return (self.stack[-1] + ".<locals>." if self.stack else "") + name

    def eval_defaults(self, a):
        d = {}
        pos = a.posonlyargs + a.args
        for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = self.eval(v)
        for p, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[p.arg] = self.eval(v)
        return d

    def s_ClassDef(self, node):
        self.note(node, "nested class")

    def s_Return(self, node):
        v = NONE if node.value is None else self.eval(node.value)
        return {"ret": (TRUE, self.st, v)}

    def s_Break(self, node):
        return {"brk": (TRUE, self.st, None)}

    def s_Continue(self, node):
        return {"cnt": (TRUE, self.st, None)}

    def s_Raise(self, node):
        if node.exc is None:
            self.emit("RAISE", mk("ext", "<reraise>"))
        else:
            self.emit("RAISE", self.exc_term(node.exc))
        raise Abort()

    def exc_term(self, e):
        n = e.func if isinstance(e, ast.Call) else e
        txt = ast.unparse(n).split(".")[-1]
        if txt[:1].isupper():
            return mk("ext", txt)
        if isinstance(n, ast.Name) and self.cur_exc == n.id:
            return mk("ext", "<reraise>")
        return mk("ext", "Exception")

    def s_Assert(self, node):
        c = truth(self.eval_test(node.test))
        self.raise_if(not_(c), mk("ext", "AssertionError"))

    def s_Delete(self, node):
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval_slice(t.slice)
                if o.op == "ref" and self.cell(o).kind in ("list", "dict"):
                    self.setcell(o, mk("call", "del", (self.cell(o).data, k), ()))
                else:
                    self.emit("DEL", self.freeze(o), self.freeze(k))
            elif isinstance(t, ast.Name):
                self.setvar(t.id, UNDEF)

    def s_Assign(self, node):
        if isinstance(node.value, ast.Call) and len(node.targets) == 1:
            v = self.eval(node.value)
        else:
            v = self.eval(node.value)
        for t in node.targets:
            self.assign(t, v)

    def s_AnnAssign(self, node):
        if isinstance(node.target, ast.Name):
            self.annots.setdefault(self.frame_ids[-1], {})[node.target.id] = ann(node.annotation)
        if node.value is not None:
            self.assign(node.target, self.eval(node.value))

    def s_NamedExpr(self, node):
        self.eval(node)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            seq = self.seq(v)
            n = len(t.elts)
            if stars:
                k = stars[0]
                for i in range(k):
                    self.assign(t.elts[i], idx(seq, num(i)))
                self.assign(t.elts[k].value, slice_term(seq, num(k), num(k - n + 1) if k - n + 1 else None, None))
                for i in range(k + 1, n):
                    self.assign(t.elts[i], idx(seq, num(i - n)))
            else:
                if seq.op == "lst" and all(s.op == "item" for s in seq.args) and len(seq.args) != n:
                    self.raise_if(TRUE, mk("ext", "ValueError"))
                vals = [idx(seq, num(i)) for i in range(n)]
                for e, x in zip(t.elts, vals):
                    self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Subscript) and not isinstance(t.value.slice, (ast.Slice, ast.Tuple, ast.List)):
                b = self.eval(t.value.value)
                if b.op == "ref" and self.cell(b).kind == "ext":
                    # a row of an array is a view of it
                    k1, k2 = self.freeze(self.eval(t.value.slice)), self.freeze(self.eval_slice(t.slice))
                    if T.is_numeric(k1) or k1.op in ("bv", "sym", "phi") and T.sort(k1) != "bool":
                        rest = list(k2.args) if k2.op == "lst" else [item(k2)]
                        self.setitem_k(b, lst([item(k1)] + rest), v, t)
                        return
            o = self.eval(t.value)
            self.setitem(o, t.slice, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.note(t, "assign target")

    def s_AugAssign(self, node):
        op = type(node.op).__name__
        if isinstance(node.target, ast.Name):
            cur = self.lookup(node.target.id)
            rhs = self.eval(node.value)
            r = self.inplace(op, cur, rhs)
            if r is not None:
                self.setvar(node.target.id, r)
        elif isinstance(node.target, ast.Attribute):
            o = self.eval(node.target.value)
            cur = self.getattr(o, node.target.attr)
            rhs = self.eval(node.value)
            r = self.inplace(op, cur, rhs)
            if r is not None:
                self.setattr(o, node.target.attr, r, node)
        elif isinstance(node.target, ast.Subscript):
            o = self.eval(node.target.value)
            k = self.eval_slice(node.target.slice)
            cur = self.getitem(o, k)
            rhs = self.eval(node.value)
            r = self.inplace(op, cur, rhs)
            if r is not None:
                self.setitem_k(o, k, r, node)

    def inplace(self, op, cur, rhs):
        """New value for `cur op= rhs`; mutates and returns the same ref for mutable operands."""
        if cur.op == "ite" and (has_ref(cur)):
            self.for_refs(cur, lambda r: self.inplace(op, r, rhs))
            return cur
        if cur.op == "ref":
            c = self.cell(cur)
            if c.kind == "list" and op == "Add":
                self.setcell(cur, concat(c.data, self.seq(rhs)))
                return cur
            if c.kind == "list" and op == "Mult":
                self.setcell(cur, self.binop("Mult", c.data, rhs))
                return cur
            if c.kind == "circ" and op == "Add":
                self.setcell(cur, concat(c.data, self.circ_content(rhs)))
                return cur
            if c.kind == "circ" and op == "Mult":
                self.setcell(cur, lst(repeat_ops(c.data, rhs)))
                return cur
            if c.kind == "set":
                o = {"BitOr": "set|", "BitAnd": "set&", "Sub": "set-", "BitXor": "set^"}.get(op)
                if o:
                    self.setcell(cur, set_op(o, c.data, self.setval(rhs)))
                    return cur
            if c.kind == "dict" and op == "BitOr":
                self.dict_update(cur, rhs)
                return cur
            if c.kind == "ext":
                self.setcell(cur, self.binop(op, c.data, self.freeze(rhs)))
                return cur
        return self.binop(op, cur, rhs)

    def for_refs(self, t, f):
        """Apply f to each ref alternative of a gated reference, each under its gate."""
        if t.op in ("ref", "slot", "fslot"):
            f(t)
            return
        if t.op == "ite":
            base = self.st
            self.st = base.copy()
            self.for_refs(t.args[1], f)
            a = self.st
            self.st = base.copy()
            self.for_refs(t.args[2], f)
            self.st = self.merge_states(t.args[0], a, self.st)

    def s_If(self, node):
        c = self.decide(truth(self.eval_test(node.test)))
        if c == TRUE:
            return self.exec_block(node.body)
        if c == FALSE:
            return self.exec_block(node.orelse) if node.orelse else None
        base = self.st
        entry = base.world
        fs = self.facts
        self.st = base.copy()
        if fs is not None:
            self.facts = fs.assume(c)
        a = self.exec_block(node.body)
        self.st = base.copy()
        if fs is not None:
            self.facts = fs.assume(not_(c))
        b = self.exec_block(node.orelse) if node.orelse else {"fall": (TRUE, self.st, None)}
        self.facts = fs
        a = {k: (and_(c, cc), s, v) for k, (cc, s, v) in a.items()}
        b = {k: (and_(not_(c), cc), s, v) for k, (cc, s, v) in b.items()}
        out = self.merge_out(a, b)
        out = self.fold_raises(entry, out)
        if len(out) == 1:
            k, = out
            out[k] = (TRUE, out[k][1], out[k][2])
        if "fall" in out:
            self.st = out["fall"][1]
        return out

    def s_Match(self, node):
        # rewrite literal matches as an if chain
        subj = "$match%d" % id(node)
        self.setvar(subj, self.eval(node.subject))
        chain = None

        def pat(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(ast.Name(subj, ast.Load()), [ast.Eq()], [p.value])
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(ast.Name(subj, ast.Load()), [ast.Is()], [ast.Constant(p.value)])
            if isinstance(p, ast.MatchOr):
                return ast.BoolOp(ast.Or(), [pat(q) for q in p.patterns])
            if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                return ast.Constant(True)
            raise AnalysisBroken("match pattern")
        els = []
        for case in reversed(node.cases):
            t = pat(case.pattern)
            if case.guard is not None:
                t = ast.BoolOp(ast.And(), [t, case.guard])
            els = [ast.If(t, case.body, els)]
        return self.exec_block(els)

    def s_With(self, node):
        exits = []
        for it in node.items:
            v = self.eval(it.context_expr)
            if v.op == "file":
                bound = v
                exits.append(("CLOSE", v))
            else:
                fv = self.freeze(v)
                self.emit("ENTER", fv)
                bound = mk("entered", fv)
                exits.append(("EXIT", fv))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, bound)
        out = self.exec_block(node.body)
        res = {}
        for k, (c, s, v) in out.items():
            s = s.copy()
            if k == "raise":
                res[k] = (c, s, v)
                continue
            for e in reversed(exits):
                s.world = concat(s.world, lst([item(mk("ev", *e))]))
            res[k] = (c, s, v)
        if "fall" in res:
            self.st = res["fall"][1]
        return res

    s_AsyncWith = s_With

    def s_Try(self, node):
        base = self.st
        entry = base.world
        self.st = base.copy()
        body = self.exec_block(node.body)
        if node.orelse and "fall" in body:
            c, s, v = body.pop("fall")
            self.st = s
            o = self.exec_block(node.orelse)
            o = {k: (and_(c, cc), s2, v2) for k, (cc, s2, v2) in o.items()}
            body = self.merge_out(body, o)
        handlers = []
        hid = self.next_id[0]
        self.next_id[0] += 1
        for h in node.handlers:
            self.st = base.copy()
            self.st.world = EMPTY
            # cells the body may have touched are unknown in the handler
            prev = self.cur_exc
            if h.name:
                self.setvar(h.name, mk("sym", "exc", "?"))
                self.cur_exc = h.name
            o = self.exec_block(h.body)
            self.cur_exc = prev
            ty = "BaseException" if h.type is None else ast.unparse(h.type)
            handlers.append((ty, o))
        fin = EMPTY
        finstate = None
        res = {}
        hseg = []
        for ty, o in handlers:
            w = EMPTY
            if len(o) == 1:
                k, = o
                w = o[k][1].world
            else:
                for k, (c, s, v) in o.items():
                    w = concat(w, mk("lst", *T.cseg(c, s.world, EMPTY)))
            hseg.append(mk("handler", ty, w, lst([item(const(k)) for k in sorted(o)])))
        for k, (c, s, v) in body.items():
            s = s.copy()
            d = world_delta(entry, s.world)
            d = mk("lst", *(d if d is not None else s.world.args))
            s.world = concat(entry, lst([item(mk("ev", "TRY", d, lst([item(h) for h in hseg])))]))
            res[k] = (c, s, v)
        # handlers that do not re-raise contribute alternatives
        for j, (ty, o) in enumerate(handlers):
            exc = mk("sym", f"exc@{ty}#{j}", "bool")
            for k, (c, s, v) in o.items():
                if k == "raise":
                    continue
                s = s.copy()
                s.world = next(iter(res.values()))[1].world if res else concat(entry, lst([item(mk("ev", "TRY", EMPTY, lst([item(h) for h in hseg])))]))
                cc = and_(exc, c)
                res = {kk: ((and_(not_(cc), c2) if len(res) > 1 or kk != k else c2), s2, v2) for kk, (c2, s2, v2) in res.items()}
                res = self.merge_out({k: (cc, s, v)}, res)
                if len(res) == 1:
                    kk, = res
                    res[kk] = (TRUE, res[kk][1], res[kk][2])
        if node.finalbody:
            out = {}
            for k, (c, s, v) in res.items():
                self.st = s.copy()
                w0 = self.st.world
                o = self.exec_block(node.finalbody)
                f = o.get("fall")
                if f is None:
                    out = self.merge_out(out, o)
                    continue
                s2 = f[1].copy()
                d = world_delta(w0, s2.world)
                s2.world = concat(w0, lst([item(mk("ev", "FINALLY", mk("lst", *(d or ()))))]))
                out = self.merge_out(out, {k: (c, s2, v)})
            res = out
        if "fall" in res:
            self.st = res["fall"][1]
        return res

    # ------------------------------------------------------------ loops

    def s_For(self, node):
        it = self.eval(node.iter)
        out = self.iterate(it, lambda v: (self.assign(node.target, v), self.exec_block(node.body))[1], node)
        if node.orelse:
            if "fall" in out and "brk" not in out:
                pass
            f = out.pop("fall", None)
            if f is not None:
                self.st = f[1]
                o = self.exec_block(node.orelse)
                out = self.merge_out(out, {k: (and_(f[0], c), s, v) for k, (c, s, v) in o.items()})
        if "brk" in out:
            out = self.brk_to_fall(out)
        if "fall" in out:
            self.st = out["fall"][1]
        return out

    def brk_to_fall(self, out):
        b = out.pop("brk", None)
        if b is not None:
            out = self.merge_out({"fall": b}, out) if "fall" in out else {**out, "fall": b}
            if len(out) == 1:
                out["fall"] = (TRUE, out["fall"][1], None)
        return out

    def iterate(self, it, body, node=None, depth=0):
        """Run body(value) for each element of `it`; outcome kinds fall / brk / ret."""
        seq = self.iter_seq(it)
        return self.iter_lst(seq, body, node)

    def iter_lst(self, seq, body, node):
        if seq.op == "ite":
            base = self.st
            self.st = base.copy()
            a = self.iter_lst(seq.args[1], body, node)
            self.st = base.copy()
            b = self.iter_lst(seq.args[2], body, node)
            c = seq.args[0]
            a = {k: (and_(c, cc), s, v) for k, (cc, s, v) in a.items()}
            b = {k: (and_(not_(c), cc), s, v) for k, (cc, s, v) in b.items()}
            out = self.fold_raises(base.world, self.merge_out(a, b))
            if len(out) == 1:
                k, = out
                out[k] = (TRUE, out[k][1], out[k][2])
            if "fall" in out:
                self.st = out["fall"][1]
            return out
        if seq.op == "lst":
            segs = list(seq.args)
        else:
            segs = [spread(seq)]
        entry = self.st.world
        out = {}
        cond = TRUE
        for s in segs:
            if s.op == "item":
                try:
                    o = body(s.args[0])
                except Abort:
                    o = {"raise": (TRUE, self.st, None)}
                c = o.pop("cnt", None)
                if c is not None:
                    o = self.merge_out({"fall": c}, o)
            elif s.op == "cseg":
                base = self.st
                cc = self.decide(s.args[0])
                self.st = base.copy()
                a = self.iter_lst(s.args[1], body, node) if cc != FALSE else {}
                self.st = base.copy()
                b = self.iter_lst(s.args[2], body, node) if cc != TRUE else {}
                a = {k: (and_(cc, c1), s1, v1) for k, (c1, s1, v1) in a.items()}
                b = {k: (and_(not_(cc), c1), s1, v1) for k, (c1, s1, v1) in b.items()}
                o = self.fold_raises(base.world, self.merge_out(a, b))
            elif s.op == "rep":
                n, bv, bl = s.args
                o = self.loop(n, lambda i, bv=bv, bl=bl: self.iter_lst(subst(bl, {bv.key: i}), body, node), node)
            else:
                x = s.args[0]
                o = self.loop(length(x), lambda i, x=x: self.iter_one(idx(x, i), body), node)
            if len(o) == 1:
                k, = o
                o[k] = (TRUE, o[k][1], o[k][2])
            fall = o.pop("fall", None)
            o = {k: (and_(cond, c), s2, v) for k, (c, s2, v) in o.items()}
            out = self.merge_out(out, o)
            if fall is None:
                return self.fold_raises(entry, out)
            cond = and_(cond, fall[0])
            self.st = fall[1]
        out = self.merge_out(out, {"fall": (cond if out else TRUE, self.st, None)})
        out = self.fold_raises(entry, out)
        if "fall" in out:
            self.st = out["fall"][1]
        return out

    def iter_one(self, v, body):
        try:
            o = body(v)
        except Abort:
            o = {"raise": (TRUE, self.st, None)}
        c = o.pop("cnt", None)
        if c is not None:
            o = self.merge_out({"fall": c}, o)
        return o

    def s_While(self, node):
        entry = self.st.world
        out = {}
        cond = TRUE
        start, n0, c0 = self.st.copy(), len(self.notes), len(self.callsites)
        for _ in range(self.unroll):
            snap = self.st.copy()
            c = self.decide(truth(self.eval_test(node.test)))
            if c == FALSE:
                out = self.merge_out(out, {"fall": (cond if out else TRUE, self.st, None)})
                break
            if c != TRUE or (isinstance(node.test, ast.Constant) and not self.may_unroll(node)):
                # the number of iterations is not known: forget the unrolled ones and solve the loop from its start
                self.st = snap = start
                del self.notes[n0:], self.callsites[c0:]
                out, cond = {}, TRUE
                o = self.while_loop(node)
                fall = o.pop("fall", None)
                o = {k: (and_(cond, c1), s, v) for k, (c1, s, v) in o.items()}
                out = self.merge_out(out, o)
                if fall is not None:
                    out = self.merge_out(out, {"fall": (and_(cond, fall[0]) if out else TRUE, fall[1], None)})
                break
            o = self.exec_block(node.body)
            cn = o.pop("cnt", None)
            if cn is not None:
                o = self.merge_out({"fall": cn}, o)
            fall = o.pop("fall", None)
            o = {k: (and_(cond, c1), s, v) for k, (c1, s, v) in o.items()}
            out = self.merge_out(out, o)
            if fall is None:
                break
            cond = and_(cond, fall[0])
            self.st = fall[1]
        else:
            raise AnalysisBroken(f"loop bound exceeded at line {node.lineno}")
        out = self.fold_raises(entry, out)
        out = self.brk_to_fall(out)
        if "fall" in out:
            self.st = out["fall"][1]
        return out

    def may_unroll(self, node):
        return False

    def while_loop(self, node):
        def body(i):
            c = self.decide(truth(self.eval_test(node.test)))
            if c == FALSE:
                return {"brk": (TRUE, self.st, None)}
            base = self.st
            if c == TRUE:
                return self.iter_one(None, lambda _: self.exec_block(node.body))
            ex = base.copy()
            self.st = base.copy()
            fs = self.facts
            if fs is not None:
                self.facts = fs.assume(c)
            o = self.iter_one(None, lambda _: self.exec_block(node.body))
            self.facts = fs
            o = {k: (and_(c, cc), s, v) for k, (cc, s, v) in o.items()}
            out = self.merge_out({"brk": (not_(c), ex, None)}, o)
            return self.fold_raises(base.world, out)
        return self.loop(None, body, node)

    # the general loop solver

    def loop(self, n, body, node=None):
        """n iterations (None: unbounded) of body(i) from self.st; returns an outcome map."""
        if n is not None:
            n = self.facts.simplify_num(n) if self.facts is not None else n
            k = intval(n)
            if k is not None and k <= 0:
                return {"fall": (TRUE, self.st, None)}
            if k is not None and k <= self.unroll:
                return self.iter_lst(lst([item(num(j)) for j in range(k)]), lambda v: body(v), node)
        base = self.st
        i = fresh_bv()
        mod = {}
        uid = self.next_id[0]
        self.next_id[0] += 1
        boxes = {}          # variable rebound to fresh containers in the body -> cell standing for its current one
        besc = {}
        saved_notes = len(self.notes)
        saved_cs = len(self.callsites)
        for attempt in range(8):
            st = base.copy()
            for loc, phi in mod.items():
                if loc in boxes:
                    bid, kd = boxes[loc]
                    st.heap[bid] = Cell(kd, phi, None, besc.get(loc, FALSE))
                    put_loc(st, loc, mk("ref", bid))
                else:
                    put_loc(st, loc, phi)
            st.world = EMPTY
            st.occ = {}
            del self.notes[saved_notes:]
            del self.callsites[saved_cs:]
            self.st = st
            start = st.copy()
            self.ctx.append(i)
            try:
                out = body(i)
            except Abort:
                out = {"raise": (TRUE, self.st, None)}
            finally:
                self.ctx.pop()
            c = out.pop("cnt", None)
            if c is not None:
                out = self.merge_out({"fall": c}, out)
            new = set()
            bids = {b for b, _ in boxes.values()}
            again = False
            for k, (c, s, v) in out.items():
                for loc in changed_locs(start, s):
                    if loc not in mod and loc[0] not in bids:
                        new.add(loc)
            if "fall" in out:
                s = out["fall"][1]
                for loc in boxes:
                    if besc.get(loc, FALSE) == FALSE and esc_of(s, get_loc(s, loc)) != FALSE:
                        besc[loc] = TRUE
                        again = True
                for loc in sorted(boxes, key=str):
                    if not self.sole_owner(s, loc, boxes[loc][1]):
                        del boxes[loc]
                        again = True
            if not new and not again:
                break
            for loc in sorted(new, key=str):
                v0 = get_loc(base, loc)
                kd = self.sole_owner(base, loc)
                if kd and all(self.sole_owner(s, loc, kd) for k, (c, s, v) in out.items() if k == "fall"):
                    boxes[loc] = (self.next_id[0], kd)
                    self.next_id[0] += 1
                    besc[loc] = esc_of(base, v0)
                    mod[loc] = fresh_phi("?")
                    continue
                mod[loc] = fresh_phi(self.phi_sort(base, loc, v0, [s for _, s, _ in out.values()]))
        else:
            raise AnalysisBroken("loop does not stabilise")
        occ_used = {}
        for k, (c, s, v) in out.items():
            for nm in s.occ:
                occ_used[nm] = 1

        def bump(s):
            for nm in occ_used:
                s.occ[nm] = base.occ.get(nm, 0) + 1
            for nm, v in base.occ.items():
                s.occ.setdefault(nm, v)
            return s

        if "raise" in out and len(out) == 1:
            # the body always raises: at most one iteration happens
            s = out["raise"][1].copy()
            seg = out["raise"][1].world
            st = base.copy()
            c = TRUE if n is None else T.gt0(n)
            seg = subst(seg, {i.key: num(0)})
            for loc, phi in mod.items():
                seg = subst(seg, {phi.key: get_loc(base, loc)})
            st.world = concat(base.world, mk("lst", *T.cseg(c, seg, EMPTY)))
            if c == TRUE:
                self.st = st
                return {"raise": (TRUE, st, None)}
            return {"fall": (TRUE, st, None)}
        fall = out.pop("fall", None)
        exits = {k: out[k] for k in out if k in ("brk", "ret")}

        # refs to cells created in this iteration become values
        def fz(s, t):
            return self.freeze_new(s, t, base.heap)

        locs = list(mod)
        phis = [mod[l] for l in locs]
        inits = [self.freeze_init(base, get_loc(base, l)) if l not in boxes else content(boxes[l][1], self.freeze_new(base, get_loc(base, l), ())) for l in locs]
        if fall is not None:
            nexts = [content(boxes[l][1] if l in boxes else None, fz(fall[1], get_loc(fall[1], l))) for l in locs]
            if boxes:
                nexts = [self.ctx_simplify(t) for t in nexts]
            wbody = fz(fall[1], fall[1].world)
        else:
            nexts = list(phis)
            wbody = EMPTY
        exitc = or_(*[c for c, _, _ in exits.values()]) if exits else FALSE
        self.boxed.append({l: boxes[l][1] for l in boxes})
        try:
            return self.solve(n, i, locs, phis, inits, nexts, wbody, exits, exitc, base, bump, fz, node, fall)
        finally:
            self.boxed.pop()

    def ctx_simplify(self, t):
        """Nested alternatives on a condition already decided further out are dropped."""
        if t.op != "ite":
            return t
        c, a, b = t.args

        def lits(x, v):
            if x.op == "not":
                return lits(x.args[0], not v)
            if x.op == ("and" if v else "or"):
                return [l for y in x.args for l in lits(y, v)]
            return [(x, v)]
        ta = subst(a, {x.key: (TRUE if v else FALSE) for x, v in lits(c, True)})
        tb = subst(b, {x.key: (TRUE if v else FALSE) for x, v in lits(c, False)})
        return ite(c, self.ctx_simplify(ta), self.ctx_simplify(tb))

    def sole_owner(self, s, loc, want=None):
        """Kind of the container(s) a variable holds when nothing else in the state refers to them."""
        if len(loc) != 2:
            return None
        v = get_loc(s, loc)
        if v is None:
            return None
        w = v
        while w.op == "ite":
            w = w.args[1]
        if w.op != "ref":
            return None
        refs = set()

        def alts(x):
            if x.op == "ite":
                return alts(x.args[1]) and alts(x.args[2])
            if x.op != "ref":
                return False
            refs.add(x.args[0])
            return True
        if not alts(v):
            return None
        kinds = {s.heap[r].kind for r in refs if r in s.heap}
        if len(kinds) != 1 or not kinds <= {"list", "set", "dict", "circ"} or want is not None and kinds != {want}:
            return None
        for i, c in s.heap.items():
            vals = [(k, x) for k, x in c.data.items()] if isinstance(c.data, dict) else [(None, c.data)]
            for k, x in vals:
                if (i, k) == loc or not isinstance(x, T.T):
                    continue
                if T.occurs(x, lambda t: t.op == "ref" and t.args[0] in refs):
                    return None
        return kinds.pop()

    def phi_sort(self, base, loc, v0, outs):
        ss = {T.sort(v0)} if v0 is not None and v0.op != "undef" else set()
        for s in outs:
            v = get_loc(s, loc)
            if v is not None and v.op != "undef":
                ss.add(T.sort(v))
        cell = base.heap.get(loc[0])
        if cell is not None and cell.kind == "frame" and len(loc) > 1:
            a = self.annots.get(loc[0], {}).get(loc[1])
            if a in ("int", "float", "str", "bool"):
                ss.add({"int": "int", "float": "num", "str": "str", "bool": "bool"}[a])
                ss.discard("?")
        if ss == {"int"}:
            return "int"
        if ss and ss <= {"int", "num"}:
            return "num"
        if len(ss) == 1:
            return ss.pop()
        return "?"

    def solve(self, n, i, locs, phis, inits, nexts, wbody, exits, exitc, base, bump, fz, node, fall):
        m = len(locs)
        solved = {}      # phi index -> prefix value as a function of i
        mapping = {}
        kind = {}
        pk = {p.key: j for j, p in enumerate(phis)}

        def ap(t):
            return subst(t, mapping) if mapping else t

        exv = {}
        for k, (c, s, v) in exits.items():
            bx = self.boxed[-1] if self.boxed else {}
            vals = [content(bx.get(l), fz(s, get_loc(s, l))) for l in locs]
            exv[k] = [c, vals, fz(s, s.world), fz(s, v) if v is not None else None]

        progress = True
        while progress:
            progress = False
            for j in range(m):
                if j in solved:
                    continue
                nx = ap(nexts[j])
                nexts[j] = nx
                ph = phis[j]
                other = any(mentions(nx, phis[q]) for q in range(m) if q != j and q not in solved)
                val = None
                if nx == ph:
                    val = inits[j]
                    kind[j] = "same"
                elif T.sort(ph) in ("int", "num") and not other:
                    d = leaf_diff(nx, ph)
                    if not mentions(d, ph):
                        val = add(inits[j], prefix_sum(i, d))
                        kind[j] = "acc"
                elif nx.op == "lst" and nx.args and nx.args[0] == spread(ph) and not other:
                    rest = mk("lst", *nx.args[1:])
                    if not mentions(rest, ph):
                        b = fresh_bv()
                        val = concat(self.as_lst(inits[j]), lst(T.rep(i, b, subst(rest, {i.key: b}))))
                        kind[j] = "list"
                elif nx.op == "call" and nx.args[0] == "set|" and ph in nx.args[1] and not other:
                    rest = [a for a in nx.args[1] if a != ph]
                    if not any(mentions(r, ph) for r in rest):
                        b = fresh_bv()
                        body = concat(*[subst(r, {i.key: b}) for r in rest])
                        val = set_op("set|", inits[j], mkset(lst(T.rep(i, b, body))))
                        kind[j] = "set"
                elif nx.op == "setof" and not other:
                    rest = [a for a in nx.args[0].args if a != spread(ph)]
                    if len(rest) < len(nx.args[0].args) and not any(mentions(r, ph) for r in rest):
                        b = fresh_bv()
                        body = mk("lst", *[subst(r, {i.key: b}) for r in rest])
                        val = set_op("set|", inits[j], mkset(lst(T.rep(i, b, body))))
                        kind[j] = "set"
                elif nx.op == "strcat" and nx.args[0] == ph and not other and not any(mentions(a, ph) for a in nx.args[1:]):
                    b = fresh_bv()
                    rest = strcat(*nx.args[1:])
                    val = strcat(inits[j], mk("call", "join", (const(""), lst(T.rep(i, b, listof(subst(rest, {i.key: b}))))), ()))
                    kind[j] = "str"
                if val is None and not any(mentions(nx, phis[q]) for q in range(m) if q not in solved):
                    # plain temporary: value of the previous iteration
                    prev = subst(nx, {i.key: sub(i, num(1))})
                    val = prev if inits[j] is None or inits[j].op == "undef" else ite(eq(i, num(0)), inits[j], prev)
                    kind[j] = "tmp"
                if val is not None:
                    solved[j] = val
                    mapping[ph.key] = val
                    progress = True
        wbody = ap(wbody)
        exitc = ap(exitc)
        for k in exv:
            exv[k][0] = ap(exv[k][0])
            exv[k][1] = [ap(v) for v in exv[k][1]]
            exv[k][2] = ap(exv[k][2])
            if exv[k][3] is not None:
                exv[k][3] = ap(exv[k][3])
        rem = [j for j in range(m) if j not in solved]
        for j in rem:
            nexts[j] = ap(nexts[j])
        self.loops.append(dict(node=node, n=n, i=i, locs=locs, phis=phis, inits=inits, nexts=nexts, wbody=wbody,
                               exits=exv, exitc=exitc, rem=rem, module=self.module.name if self.module else None,
                               fn=self.stack[-1] if self.stack else None, solved=dict(solved), base=base))
        if self.loop_hook is not None:
            self.loop_hook(self.loops[-1])

        # counted while loop
        if n is None and exits and set(exits) == {"brk"} and not any(mentions(exitc, phis[j]) for j in rem):
            bound = count_bound(exitc, i)
            if bound is not None and all(exv["brk"][1][j] == (mapping.get(phis[j].key, phis[j])) for j in range(m)) \
                    and exv["brk"][2] == EMPTY:
                n = bound
                exits = {}
                exv = {}
                exitc = FALSE

        def close_over(expr_of, nn):
            """value after nn full iterations of a term over phis"""

        final = base.copy()
        bump(final)
        if not exits:
            if n is None:
                # no way out
                final.world = concat(base.world, mk("lst", self.lseg(None, i, rem, phis, inits, nexts, FALSE, wbody)))
                self.st = final
                return {"fall": (TRUE, final, None)}
            for j in range(m):
                v = solved.get(j)
                if v is None:
                    v = self.lout(n, i, rem, phis, inits, nexts, FALSE, phis[j])
                else:
                    if kind[j] == "tmp":
                        last = subst(nexts[j], {i.key: sub(n, num(1))})
                        v = last if inits[j] is None or inits[j].op == "undef" else ite(eq(n, num(0)), inits[j], last)
                    else:
                        v = subst(v, {i.key: n})
                    v = self.lout(n, i, rem, phis, inits, nexts, FALSE, v) if any(mentions(v, phis[q]) for q in rem) else v
                self.put_back(final, base, locs[j], v)
            if any(mentions(wbody, phis[q]) for q in rem):
                final.world = concat(base.world, mk("lst", self.lseg(n, i, rem, phis, inits, nexts, FALSE, wbody)))
            else:
                final.world = concat(base.world, lst(T.rep(n, i, wbody)))
            self.st = final
            return {"fall": (TRUE, final, None)}

        # loops with exits
        dep = any(mentions(t, phis[q]) for q in rem for t in [exitc, wbody] + [x for k in exv for x in exv[k][1] + [exv[k][2]] + ([exv[k][3]] if exv[k][3] is not None else [])])
        if not dep and n is not None:
            b, (ec,) = T.close(i, (exitc,))
            found = mk("any", n, b, ec)
            f = mk("first", n, b, ec)
            res = {}
            for k in exv:
                ck, vals, w, rv = exv[k]
                s = base.copy()
                bump(s)
                for j in range(m):
                    self.put_back(s, base, locs[j], subst(vals[j], {i.key: f}))
                s.world = concat(base.world, lst(T.rep(f, i, wbody)), subst(w, {i.key: f}))
                cc = and_(found, subst(ck, {i.key: f})) if len(exv) > 1 else found
                res[k] = (cc, s, subst(rv, {i.key: f}) if rv is not None else None)
            for j in range(m):
                if kind.get(j) == "tmp":
                    last = subst(nexts[j], {i.key: sub(n, num(1))})
                    v = last if inits[j] is None or inits[j].op == "undef" else ite(eq(n, num(0)), inits[j], last)
                elif j in solved:
                    v = subst(solved[j], {i.key: n})
                else:
                    v = self.lout(n, i, rem, phis, inits, nexts, FALSE, phis[j])
                self.put_back(final, base, locs[j], v)
            final.world = concat(base.world, lst(T.rep(n, i, wbody)))
            res["fall"] = (not_(found), final, None)
            self.st = final
            return res
        # general recurrence
        full_exit = exitc if n is None else or_(exitc, T.ge0(sub(i, n)))
        res = {}
        lo = lambda e: self.lout(None, i, rem, phis, inits, nexts, full_exit, e)
        wseg = []
        if wbody != EMPTY:
            wseg = [self.lseg(None, i, rem, phis, inits, nexts, full_exit, wbody)]
        kinds = list(exv) + ([] if n is None else ["fall"])
        for k in kinds:
            if k == "fall":
                ck, vals, w, rv = T.ge0(sub(i, n)), [mapping.get(p.key, p) for p in phis], EMPTY, None
            else:
                ck, vals, w, rv = exv[k]
                if n is not None:
                    ck = and_(not_(T.ge0(sub(i, n))), ck)
            s = base.copy()
            bump(s)
            for j in range(m):
                self.put_back(s, base, locs[j], lo(vals[j]))
            s.world = concat(base.world, mk("lst", *wseg), lo(w) if w != EMPTY else EMPTY)
            res[k] = (lo(ck) if len(kinds) > 1 else TRUE, s, lo(rv) if rv is not None else None)
        if "fall" in res:
            self.st = res["fall"][1]
        return res

    def as_lst(self, t):
        return t if t is not None and t.op == "lst" else lst([spread(t)]) if t is not None else EMPTY

    def lout(self, n, i, rem, phis, inits, nexts, exitc, expr):
        return mk_loop("lout", n, i, [phis[j] for j in rem], [inits[j] for j in rem], [nexts[j] for j in rem], exitc, expr)

    def lseg(self, n, i, rem, phis, inits, nexts, exitc, expr):
        return mk_loop("lseg", n, i, [phis[j] for j in rem], [inits[j] for j in rem], [nexts[j] for j in rem], exitc, expr)

    def freeze_init(self, base, v):
        if v is None:
            return UNDEF
        if v.op == "ref":
            return v
        return v

    boxed = ()

    def put_back(self, s, base, loc, v):
        kd = self.boxed[-1].get(loc) if self.boxed else None
        if kd is not None and v.op != "undef":
            r = self.next_id[0]
            self.next_id[0] += 1
            s.heap[r] = Cell(kd, v)
            v = mk("ref", r)
        put_loc(s, loc, v)

    def freeze_new(self, s, t, oldheap):
        """Replace references to cells not present before the loop by snapshots of their contents."""
        if t is None:
            return UNDEF
        saved = self.st
        self.st = s
        try:
            def f(x):
                if x.op == "ref" and x.args[0] not in oldheap:
                    return self.freeze(x)
                return None
            return T.transform(t, f) if T.occurs(t, lambda x: x.op == "ref") else t
        finally:
            self.st = saved

    # ------------------------------------------------------------ freezing refs into values

    def freeze(self, t, depth=0):
        """Value snapshot of a term (references replaced by their contents)."""
        if depth > 40:
            return mk("sym", "<cyclic>", "?")
        if t.op == "fn" or t.op == "bound":
            return self.reify_fn(t, depth)
        if not T.occurs(t, lambda x: x.op in ("ref", "fn", "bound")):
            return t

        def f(x):
            if x.op == "ref":
                c = self.st.heap.get(x.args[0])
                if c is None:
                    return mk("sym", f"<dead{x.args[0]}>", "?")
                if c.kind == "alias":
                    return self.freeze(c.data, depth + 1)
                if c.kind == "inst":
                    return mk("obj", c.cls, tuple((k, self.freeze(v, depth + 1)) for k, v in sorted(c.data.items())))
                if c.kind == "circ":
                    return mk("circv", self.freeze(c.data, depth + 1))
                if c.kind == "frame":
                    return mk("sym", "<frame>", "?")
                return self.freeze(c.data, depth + 1)
            if x.op in ("fn", "bound"):
                return self.reify_fn(x, depth + 1)
            if x.op == "slot":
                return self.load_slot(x)
            return None
        return T.transform(t, f)

    def reify_fn(self, t, depth=0):
        """Lambda term for a closure, evaluated in the current state with symbolic parameters."""
        if t.op == "bound":
            return mk("boundm", self.freeze(t.args[0], depth + 1), t.args[1])
        clo = self.fns[t.key]
        q = clo.qual or "<lambda>"
        if not clo.frames and q in self.opaque:
            return mk("ext", "repo." + q)
        if q in self.stack and not clo.is_lambda or depth > 6:
            return mk("ext", "rec:" + q)
        saved = self.st
        self.st = saved.copy()
        w0 = self.st.world
        a = clo.node.args
        params = a.posonlyargs + a.args + a.kwonlyargs
        bvs = []
        argmap = {}
        defs = clo.defaults or {}
        for p in params:
            if clo.is_lambda and p.arg in defs:
                argmap[p.arg] = defs[p.arg]
                continue
            v = fresh_phi({"int": "int", "float": "num", "str": "str", "bool": "bool"}.get(ann(p.annotation), "?"))
            bvs.append(v)
            argmap[p.arg] = v
        if a.vararg:
            v = fresh_phi("?")
            bvs.append(v)
            argmap[a.vararg.arg] = v
        if self.havoc_captured and clo.frames:
            # called any number of times: what it may write has an arbitrary earlier value
            for f, n in self.rec_writes(clo):
                old = self.st.heap[f].data[n]
                if old.key in self.fns:
                    continue
                v = fresh_phi("?")
                if old.op == "ref":
                    k = self.cell(old).kind
                    if k in ("ext", "circ"):
                        self.setcell(old, v)
                    elif k == "list":
                        self.setcell(old, lst([spread(v)]))
                    else:
                        self.note(f"state of {n} captured by a callback is not generalised")
                        continue
                else:
                    self.st.heap[f] = Cell("frame", {**self.st.heap[f].data, n: v}, self.st.heap[f].cls)
                bvs.append(v)
        heap0 = dict(self.st.heap)
        try:
            val = self.run_body(clo, argmap)
        except Abort:
            val = mk("sym", "<raises>", "?")
        val = self.freeze(val, depth + 1)
        delta = world_delta(w0, self.st.world)
        effects = mk("lst", *(delta or ()))
        # captured cells the closure changes
        ch = []
        for fid, c in self.st.heap.items():
            if fid in heap0 and heap0[fid] is not c:
                ch.append(item(mk("mutates", self.freeze(c.data, depth + 1) if isinstance(c.data, T.T) else
                                   lst([item(listof(const(k), self.freeze(v, depth + 1))) for k, v in sorted(c.data.items()) if heap0[fid].data.get(k) is not v and v.op != "undef"]))))
        self.st = saved
        return close_lam(bvs, val, concat(effects, lst(ch)))

    # ------------------------------------------------------------ expressions

    def eval_test(self, node):
        return self.truthable(self.eval(node))

    def eval(self, node):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            self.note(node, "expression " + type(node).__name__)
            return mk("sym", "<" + ast.dump(node)[:60] + ">", "?")
        return m(node)

    def e_Constant(self, node):
        return const(node.value)

    def e_Name(self, node):
        return self.lookup(node.id)

    def e_NamedExpr(self, node):
        v = self.eval(node.value)
        self.assign(node.target, v)
        return v

    def e_Tuple(self, node):
        segs = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                segs.extend(self.seq(self.eval(e.value)).args if self.seq(self.eval(e.value)).op == "lst" else [spread(self.seq(self.eval(e.value)))])
            else:
                segs.append(item(self.eval(e)))
        return lst(segs)

    def e_List(self, node):
        return self.alloc("list", self.e_Tuple(node))

    def e_Set(self, node):
        return self.alloc("set", mkset(self.e_Tuple(node)))

    def e_Dict(self, node):
        d = mk("dictv", ())
        for k, v in zip(node.keys, node.values):
            if k is None:
                ref = self.alloc("dict", d)
                self.dict_update(ref, self.eval(v))
                d = self.cell(ref).data
            else:
                d = dstore(d, self.freeze(self.eval(k)), self.own(self.eval(v)))
        return self.alloc("dict", d)

    def e_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.freeze(self.eval(v.value))
                if v.conversion == 114:
                    x = reprt(x)
                elif v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec)
                    x = mk("call", "format", (x, spec), ()) if strval(spec) != "" else tostr(x)
                else:
                    x = tostr(x)
                parts.append(x)
        return strcat(*parts)

    def e_FormattedValue(self, node):
        return tostr(self.freeze(self.eval(node.value)))

    def e_Lambda(self, node):
        return self.new_fn(Closure(node, self.module, self.frame_ids, self.cls, self.qual_of("<lambda>"), self.eval_defaults(node.args)))

    def e_IfExp(self, node):
        c = self.decide(truth(self.eval_test(node.test)))
        if c == TRUE:
            return self.eval(node.body)
        if c == FALSE:
            return self.eval(node.orelse)
        return self.fork(c, lambda: self.eval(node.body), lambda: self.eval(node.orelse))

    def fork(self, c, f, g):
        base = self.st
        fs = self.facts
        self.st = base.copy()
        aborted = None
        if fs is not None:
            self.facts = fs.assume(c)
        try:
            a = f()
        except Abort:
            a = None
        sa = self.st
        self.st = base.copy()
        if fs is not None:
            self.facts = fs.assume(not_(c))
        try:
            b = g()
        except Abort:
            b = None
        self.facts = fs
        sb = self.st
        if a is None and b is None:
            self.st = self.merge_states(c, sa, sb)
            raise Abort()
        if a is None or b is None:
            cc, sr, sk, v = (c, sa, sb, b) if a is None else (not_(c), sb, sa, a)
            out = self.fold_raises(base.world, {"raise": (cc, sr, None), "fall": (TRUE, sk, None)})
            self.st = out["fall"][1]
            return v
        if sa.world == base.world and sb.world == base.world and sa.heap == base.heap and sb.heap == base.heap:
            self.st = base
            self.st.occ = sb.occ
        else:
            self.st = self.merge_states(c, sa, sb)
        return ite(c, a, b)

    def e_BoolOp(self, node):
        isand = isinstance(node.op, ast.And)

        def go(k):
            v = self.eval(node.values[k])
            if k == len(node.values) - 1:
                return v
            c = self.decide(truth(self.truthable(v)))
            if isand:
                if c == FALSE:
                    return v
                if c == TRUE:
                    return go(k + 1)
                r = self.fork(c, lambda: go(k + 1), lambda: v)
            else:
                if c == TRUE:
                    return v
                if c == FALSE:
                    return go(k + 1)
                r = self.fork(c, lambda: v, lambda: go(k + 1))
            return r
        return go(0)

    def truthable(self, v):
        """A value with the same truth as v (a container is true when it is not empty)."""
        if v.op == "ref":
            c = self.cell(v)
            if c.kind == "alias":
                return self.truthable(c.data)
            if c.kind in ("list", "circ"):
                return c.data
            if c.kind in ("set", "dict"):
                d = c.data
                if d.op == "setlit":
                    return T.boolc(bool(d.args))
                return length(d)
            if c.kind == "ext":
                return c.data
        if v.op == "ite" and has_ref(v):
            return ite(v.args[0], self.truthable(v.args[1]), self.truthable(v.args[2]))
        if v.op == "slot":
            return self.truthable(self.load_slot(v))
        return v

    def truth_of(self, v):
        return truth(self.truthable(v))

    def e_UnaryOp(self, node):
        v = self.eval(node.operand)
        o = type(node.op).__name__
        if o == "Not":
            return not_(self.truth_of(v))
        v = self.deref(v)
        if o == "USub":
            return T.neg(v)
        if o == "UAdd":
            return v
        return mk("call", "~", (v,), ())

    def e_BinOp(self, node):
        a = self.eval(node.left)
        b = self.eval(node.right)
        return self.binop(type(node.op).__name__, a, b)

    def deref(self, v):
        """Immutable content of list/set/dict/ext refs (identity for everything else)."""
        if v.op == "ref":
            c = self.cell(v)
            if c.kind == "alias":
                return self.deref(c.data)
            if c.kind in ("list", "set", "dict", "ext"):
                return c.data
        if v.op == "ite" and has_ref(v):
            return ite(v.args[0], self.deref(v.args[1]), self.deref(v.args[2]))
        if v.op == "slot":
            return self.load_slot(v)
        return v

    def circ_content(self, v):
        if v.op == "ref" and self.cell(v).kind == "circ":
            return self.cell(v).data
        if v.op == "circv":
            return v.args[0]
        if v.op == "ite":
            return ite(v.args[0], self.circ_content(v.args[1]), self.circ_content(v.args[2]))
        return lst([spread(self.freeze(v))])

    def is_circ(self, v):
        if v.op == "ref":
            return self.cell(v).kind == "circ"
        if v.op == "circv":
            return True
        if v.op == "ite":
            return self.is_circ(v.args[1]) and self.is_circ(v.args[2])
        return self.typeof(v) == "stim.Circuit"

    def kind_of(self, v):
        if v.op == "ref":
            return self.cell(v).kind
        if v.op == "lst":
            return "tuple"
        if v.op in ("setlit", "setof") or (v.op == "call" and v.args[0] in ("set|", "set&", "set-", "set^")):
            return "set"
        if v.op in ("dictv", "store"):
            return "dict"
        if T.sort(v) == "str":
            return "str"
        ty = self.typeof(v)
        if ty:
            h = split_type(ty)[0]
            return {"List": "list", "Tuple": "tuple", "Dict": "dict", "Set": "set", "FrozenSet": "set", "str": "str", "set": "set", "list": "list", "tuple": "tuple", "dict": "dict", "DefaultDict": "dict"}.get(h, "?")
        if v.op == "ite":
            return self.kind_of(v.args[1]) if v.args[1] != NONE else self.kind_of(v.args[2])
        return "?"

    def binop(self, op, a, b):
        if a.op == "ite" and has_ref(a) and not self.is_circ(a):
            return ite(a.args[0], self.binop(op, a.args[1], b), self.binop(op, a.args[2], b))
        ka, kb = self.kind_of(a), self.kind_of(b)
        if (self.is_circ(a) or self.is_circ(b)) and op == "Add":
            return self.alloc("circ", concat(self.circ_content(a), self.circ_content(b)))
        if op == "Mult" and (self.is_circ(a) or self.is_circ(b)):
            if self.is_circ(b):
                a, b = b, a
            return self.alloc("circ", lst(repeat_ops(self.circ_content(a), self.simp_num(b))))
        listy = ka == "list" or kb == "list"
        a, b = self.deref(a), self.deref(b)
        if ka == "set" or kb == "set":
            o = {"BitOr": "set|", "BitAnd": "set&", "Sub": "set-", "BitXor": "set^"}.get(op)
            if o:
                return self.alloc("set", set_op(o, self.setval(a), self.setval(b)))
        if op == "Add":
            if ka in ("list", "tuple") or kb in ("list", "tuple") or a.op == "lst" or b.op == "lst":
                r = concat(a, b)
                return self.alloc("list", r) if listy else r
            if T.sort(a) == "str" or T.sort(b) == "str":
                return strcat(a, b)
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if x.op == "lst" or strval(x) is not None or T.sort(x) == "str":
                    k = intval(y)
                    if T.sort(y) == "bool":
                        r = ite(y, x, EMPTY if x.op == "lst" else const(""))
                        return self.alloc("list", r) if listy and r.op == "lst" else r
                    if x.op == "lst":
                        if k is not None:
                            r = concat(*([x] * k)) if k > 0 else EMPTY
                        else:
                            r = lst(T.rep(T_max0(y), fresh_bv(), x))
                        return self.alloc("list", r) if listy else r
                    if strval(x) is not None and k is not None:
                        return const(strval(x) * k)
                    if x.op == "call" and x.args[0] == "strrep" and k is not None and k >= 0:
                        return mk("call", "strrep", (x.args[1][0], mul(x.args[1][1], y)), ())
                    return mk("call", "strrep", (x, y), ())
            return mul(a, b)
        if op == "Div":
            from . import models
            if models.is_path(a) or models.is_path(b):
                return models.b_path(self, [a, b], {})
            return self.divide(a, b)
        if op == "FloorDiv":
            return self.simp_num(T.floordiv(a, b))
        if op == "Mod":
            if T.sort(a) == "str":
                return mk("call", "%", (a, b), ())
            return T.mod(a, b)
        if op == "Pow":
            return T.powt(a, b)
        if op in ("BitOr", "BitAnd", "BitXor") and T.sort(a) == "bool" and T.sort(b) == "bool":
            if op == "BitOr":
                return or_(a, b)
            if op == "BitAnd":
                return and_(a, b)
            return or_(and_(a, not_(b)), and_(not_(a), b))
        if op == "BitOr" and ka == "dict":
            ref = self.alloc("dict", a)
            self.dict_update(ref, b)
            return ref
        if op in ("BitXor", "BitOr", "BitAnd"):
            x, y = sorted((a, b), key=lambda e: e.key)
            return mk("call", op, (x, y), ())
        if op == "LShift" and numval(a) is not None and intval(b) is not None:
            return num(int(numval(a)) << intval(b))
        return mk("call", op, (a, b), ())

    def divide(self, a, b):
        a, b = numeric(a), numeric(b)
        return div(a, b)

    def simp_num(self, t):
        if self.facts is None:
            return t
        t = self.facts.simplify_num(t)
        if any(x.op == "call" and x.args[0] in ("max", "min") for x in T.subterms(t)):
            t = T.transform(t, self.simp_max)
        return t

    def simp_max(self, x):
        """max/min of two numbers whose order the known facts decide."""
        if x.op == "call" and x.args[0] in ("max", "min") and len(x.args[1]) == 2:
            a, b = x.args[1]
            if T.is_numeric(a) and T.is_numeric(b):
                g = self.facts.simplify(T.cmp("GtE", a, b))
                if g in (TRUE, FALSE):
                    return a if (g == TRUE) == (x.args[0] == "max") else b
        return x

    def e_Compare(self, node):
        left = self.eval(node.left)
        res = TRUE
        for op, r in zip(node.ops, node.comparators):
            right = self.eval(r)
            res = and_(res, self.compare(type(op).__name__, left, right))
            left = right
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            if b == NONE or a == NONE:
                x = a if b == NONE else b
                c = FALSE if x.op in ("ref", "fn", "bound", "file", "slot") else self.isnone(x)
            elif b in (TRUE, FALSE) or a in (TRUE, FALSE):
                c = eq(a, b)
            else:
                c = TRUE if a == b else eq(self.freeze(a), self.freeze(b))
            return c if op == "Is" else not_(c)
        if op in ("In", "NotIn"):
            c = self.contains(b, a)
            return c if op == "In" else not_(c)
        a0, b0 = a, b
        if op in ("Eq", "NotEq") and a != NONE and b != NONE:
            ci = self.class_of(a) if a.op in ("ref", "obj", "sym", "idx", "attr") else None
            if ci is not None and ("__eq__" in ci.methods or "__ne__" in ci.methods and op == "NotEq"):
                own = op == "NotEq" and "__ne__" in ci.methods
                c = self.truth_of(self.call_method(a, "__ne__" if own else "__eq__", [b], {}, None, False))
                return c if own or op == "Eq" else not_(c)
        a, b = self.cmpval(a), self.cmpval(b)
        if op in ("Eq", "NotEq"):
            c = eq(a, b)
            return c if op == "Eq" else not_(c)
        if a.op == "lst" and b.op == "lst" and all(s.op == "item" for s in a.args + b.args) and len(a.args) == len(b.args):
            return lex_cmp(op, [s.args[0] for s in a.args], [s.args[0] for s in b.args])
        if self.kind_of(a) == "set" or self.kind_of(b) == "set":
            return mk("call", "set" + op, (a, b), ())
        return T.cmp(op, numeric(a), numeric(b))

    def isnone(self, x):
        if x.op == "ite":
            return ite(x.args[0], self.isnone(x.args[1]), self.isnone(x.args[2]))
        if x.op in ("ref", "fn", "bound", "file", "slot"):
            return FALSE
        if x.op in ("attr", "idx", "sym", "app") and x.op != "phi":
            ty = self.typeof(x)
            if ty is not None and ty not in ("?", "Any", "None") and not is_optional(ty):
                return FALSE
        if x.op == "call":
            ty = self.ret_types.get(x.args[0])
            if ty is not None and not is_optional(ty) and ty not in ("?", "Any", "None"):
                return FALSE
        return T.isnone(x)

    def cmpval(self, v):
        v = self.deref(v)
        return self.freeze(v)

    def contains(self, c, x):
        k = self.kind_of(c)
        x = self.freeze(x)
        c = self.deref(c)
        if k == "set" or c.op == "setof":
            return in_(x, c)
        return in_(x, c)

    # attributes

    def e_Attribute(self, node):
        o = self.eval(node.value)
        return self.getattr(o, node.attr, node)

    def getattr(self, o, name, node=None):
        if o.op == "ite" and (has_ref(o) or o.args[1].op in ("obj", "mod") or o.args[2].op in ("obj",)):
            c = self.decide(o.args[0])
            if c == TRUE:
                return self.getattr(o.args[1], name, node)
            if c == FALSE:
                return self.getattr(o.args[2], name, node)
            if o.args[1] == NONE:
                return self.getattr(o.args[2], name, node)
            if o.args[2] == NONE:
                return self.getattr(o.args[1], name, node)
            return self.fork(c, lambda: self.getattr(o.args[1], name, node), lambda: self.getattr(o.args[2], name, node))
        if o.op in ("op", "call"):
            from . import models
            v = models.op_attr(o, name)
            if v is not None:
                return v
        if o.op == "mod":
            m = self.p.module(o.args[0])
            v = self.module_name(m, name)
            if v is None:
                r = self.p.module(o.args[0] + "." + name)
                if r is not None:
                    return mk("mod", r.name)
                return mk("ext", o.args[0] + "." + name)
            return v
        if o.op == "ext":
            d = o.args[0] + "." + name
            return EXT_CONST.get(d) or mk("ext", ALIASES.get(d, d))
        if o.op == "cls":
            ci = self.p.find_class(o.args[0])
            if name in ci.methods:
                kind = ci.kinds[name]
                f = self.fn_for(ci.module, ci.methods[name], ci, ci.name + "." + name)
                if kind == "class":
                    return mk("bound", o, f)
                return f
            if name in ci.consts:
                return self.eval_in_module(ci.module, ci.consts[name])
            if name == "__name__":
                return const(ci.name)
            for f, t, dflt in ci.fields:
                if f == name and dflt is not None:
                    return self.eval_in_module(ci.module, dflt)
            return mk("attr", o, name, "?")
        if o.op == "ref":
            c = self.cell(o)
            if c.kind == "alias":
                return self.getattr(c.data, name, node)
            if c.kind == "inst":
                if name in c.data:
                    return c.data[name]
                ci = self.p.find_class(c.cls)
                return self.class_attr(ci, o, name)
            if c.kind == "ext":
                return mkattr(c.data, name, EXT_ATTR.get(name, "?"))
            if c.kind == "circ":
                return mkattr(self.freeze(o), name, EXT_ATTR.get(name, "?"))
            return mk("meth", o, name)
        if o.op == "slot":
            v = self.load_slot(o)
            if v.op == "obj":
                d = dict(v.args[1])
                if name in d:
                    x = d[name]
                    if x.op in ("dictv", "store", "lst", "setlit", "setof") or self.kind_of(x) in ("dict", "list", "set"):
                        return mk("fslot", o, name)
                    return x
            ci = self.slot_class(o, v)
            if ci is not None:
                ft = ci.field_type(name)
                if ft is not None:
                    if split_type(ft)[0] in ("Dict", "List", "Set", "dict", "list", "set"):
                        return mk("fslot", o, name)
                    return mkattr(v, name, ft)
                return self.class_attr(ci, o, name)
            return mkattr(v, name, "?")
        if o.op == "fslot":
            return mk("meth", o, name)
        if o.op == "obj":
            d = dict(o.args[1])
            if name in d:
                return d[name]
            ci = self.p.find_class(o.args[0])
            if ci is not None:
                return self.class_attr(ci, o, name)
            return mkattr(o, name, "?")
        ci = self.class_of(o)
        if ci is not None:
            ft = ci.field_type(name)
            if ft is not None:
                return mkattr(o, name, ft)
            if name in ci.methods or name in ci.consts:
                return self.class_attr(ci, o, name)
            return mkattr(o, name, "?")
        if name in ("real", "imag"):
            r = complex_part(self, o, name)
            if r is not None:
                return r
        return mkattr(o, name, EXT_ATTR.get(name, "?"))

    def slot_class(self, o, v):
        if v.op == "obj":
            return self.p.find_class(v.args[0])
        ci = self.class_of(v)
        if ci is not None:
            return ci
        for x in T.subterms(v):
            if x.op == "obj":
                return self.p.find_class(x.args[0])
        r = self.slot_hint.get(o.args[0].key)
        return self.p.find_class(r) if r else None

    def class_attr(self, ci, o, name):
        if name in ci.methods:
            kind = ci.kinds[name]
            f = self.fn_for(ci.module, ci.methods[name], ci, ci.name + "." + name)
            if kind == "property":
                return self.call_fn(self.fns[f.key], [o], {}, f)
            if kind == "static":
                return f
            if kind == "class":
                return mk("bound", mk("cls", ci.name), f)
            return mk("bound", o, f)
        if name in ci.consts:
            return self.eval_in_module(ci.module, ci.consts[name])
        for b in ci.bases:
            bi = self.p.find_class(b.split(".")[-1])
            if bi is not None:
                return self.class_attr(bi, o, name)
        ft = ci.field_type(name)
        return mkattr(self.freeze(o), name, ft or "?")

    def eval_in_module(self, m, node):
        saved = (self.frame_ids, self.module, self.cls)
        self.frame_ids, self.module, self.cls = (self.module_frame(m),), m, None
        try:
            return self.eval(node)
        finally:
            self.frame_ids, self.module, self.cls = saved

    def setattr(self, o, name, v, node=None):
        if o.op == "ite" and has_ref(o):
            self.for_refs(o, lambda r: self.setattr(r, name, v, node))
            return
        if o.op == "ref":
            c = self.cell(o)
            if c.kind == "alias":
                return self.setattr(c.data, name, v, node)
            if c.kind == "inst":
                d = dict(c.data)
                d[name] = v
                self.setcell(o, d)
                return
            if c.kind == "ext":
                self.setcell(o, mk("call", "setattr", (c.data, const(name), self.freeze(v)), ()))
                return
        if o.op == "slot":
            cur = self.load_slot(o)
            self.store_slot(o, with_field(cur, name, self.own(v), self.slot_class(o, cur)))
            return
        self.stores.append((self.module.name, getattr(node, "lineno", 0), "attr", self.freeze(o), name))
        self.emit("SETATTR", self.freeze(o), const(name), self.freeze(v))

    # slots: objects living inside a dict

    def load_slot(self, s):
        d = self.container_content(s.args[0])
        return idx(d, s.args[1])

    def store_slot(self, s, v):
        self.set_container(s.args[0], dstore(self.container_content(s.args[0]), s.args[1], v))

    def container_content(self, c):
        if c.op == "ref":
            return self.cell(c).data
        if c.op == "fslot":
            v = self.load_slot(c.args[0])
            return mkfield(v, c.args[1], self)
        return c

    def set_container(self, c, d):
        if c.op == "ref":
            self.setcell(c, d)
        elif c.op == "fslot":
            cur = self.load_slot(c.args[0])
            self.store_slot(c.args[0], with_field(cur, c.args[1], d, self.slot_class(c.args[0], cur)))
        else:
            self.note(None, "store into value container")

    def own(self, v):
        """Value to be placed inside a dict/list-of-objects: instances move into the container."""
        if v.op == "ref":
            c = self.cell(v)
            if c.kind == "inst":
                return mk("obj", c.cls, tuple((k, self.own(x)) for k, x in sorted(c.data.items())))
            if c.kind in ("list", "dict", "set", "ext"):
                return self.freeze(c.data)
            if c.kind == "alias":
                return self.freeze(v)
            return v
        if v.op == "slot":
            return self.load_slot(v)
        return v

    # subscripts

    def eval_slice(self, node):
        if isinstance(node, ast.Slice):
            g = lambda x: NONE if x is None else self.freeze(self.eval(x))
            return mk("slice", g(node.lower), g(node.upper), g(node.step))
        if isinstance(node, ast.Tuple):
            return lst([item(self.eval_slice(e)) for e in node.elts])
        return self.eval(node)

    def e_Subscript(self, node):
        o = self.eval(node.value)
        k = self.eval_slice(node.slice)
        return self.getitem(o, k)

    def getitem(self, o, k):
        if self.pointwise is not None and T.sort(self.freeze(k)) == "bool":
            return self.pointwise.get(self, o, self.freeze(k))
        if o.op == "ite" and has_ref(o):
            return self.fork(o.args[0], lambda: self.getitem(o.args[1], k), lambda: self.getitem(o.args[2], k))
        if o.op == "cls" or (o.op == "ext" and (o.args[0].startswith(("typing.", "collections.abc.")) or o.args[0] in BUILTIN_TYPES)):
            return o
        if o.op == "ref":
            c = self.cell(o)
            if c.kind == "alias":
                return self.getitem(c.data, k)
            if c.kind == "dict":
                return self.dict_get(o, c.data, self.freeze(k), c.cls)
            if c.kind == "list":
                if k.op == "slice":
                    return self.alloc("list", slice_term(c.data, *k.args))
                r = idx(c.data, self.freeze(k))
                return r
            if c.kind == "circ":
                return idx(c.data, self.freeze(k))
            if c.kind == "ext":
                return idx(c.data, self.freeze(k))
        if o.op == "fslot":
            return self.dict_get(o, self.container_content(o), self.freeze(k), None)
        o = self.deref(o)
        k = self.freeze(k)
        if o.op == "dictv":
            if not any(kk == k for kk, _ in o.args[0]):
                self.raise_if(not_(in_(k, o)), mk("ext", "KeyError"))
        if k.op == "slice":
            return slice_term(o, *k.args)
        return idx(o, k)

    def dict_get(self, ref, d, k, factory):
        if factory is not None and factory.op != "undef" if isinstance(factory, T.T) else False:
            if factory.op == "total":
                # contents unknown: a missing key and one holding the default value are not told apart
                return mk("slot", ref, k)
            # defaultdict
            has = in_(k, d)
            if has != TRUE:
                dv = self.own(self.apply(factory, [], {}))
                d = ite(has, d, dstore(d, k, dv))
                self.setcell(ref, d)
        else:
            if d.op == "dictv" and not any(kk == k for kk, _ in d.args[0]):
                self.raise_if(not_(in_(k, d)), mk("ext", "KeyError"))
        v = idx(d, k)
        if self.mutable_value(v, ref):
            return mk("slot", ref, k)
        return v

    def mutable_value(self, v, ref=None):
        """Does the value (living in a container) have identity worth aliasing?"""
        for _ in range(20):
            if v.op == "obj":
                ci = self.p.find_class(v.args[0])
                return ci is not None and not ci.frozen
            if v.op in ("lst",):
                return True
            if v.op in ("dictv", "store", "setlit", "setof"):
                return True
            if v.op == "ite":
                v = v.args[1] if v.args[1].op in ("obj", "ite", "lst") else v.args[2]
                continue
            break
        ty = self.typeof(v)
        if ty:
            ci = self.p.find_class(split_type(ty)[0])
            if ci is not None and ci.dataclass and not ci.frozen:
                return True
        if ref is not None and ref.key in self.slot_hint:
            return True
        return False

    def setitem(self, o, slice_node, v, node):
        k = self.eval_slice(slice_node)
        self.setitem_k(o, k, v, node)

    def setitem_k(self, o, k, v, node):
        if o.op == "ite" and has_ref(o):
            self.for_refs(o, lambda r: self.setitem_k(r, k, v, node))
            return
        if o.op == "ite" and any(x.op in ("slot", "fslot") for x in (o.args[1], o.args[2])):
            base = self.st
            self.st = base.copy()
            self.setitem_k(o.args[1], k, v, node)
            a = self.st
            self.st = base.copy()
            self.setitem_k(o.args[2], k, v, node)
            self.st = self.merge_states(o.args[0], a, self.st)
            return
        if o.op == "ref":
            c = self.cell(o)
            if c.kind == "alias":
                return self.setitem_k(c.data, k, v, node)
            if c.kind == "dict":
                kk = self.freeze(k)
                if v.op == "ref" and self.cell(v).kind == "inst":
                    ci = self.p.find_class(self.cell(v).cls)
                    self.slot_hint[o.key] = self.cell(v).cls
                    ov = self.own(v)
                    self.setcell(o, dstore(c.data, kk, ov))
                    self.st.heap[v.args[0]] = Cell("alias", mk("slot", o, kk))
                    return
                if v.op == "ref" and self.cell(v).kind in ("list", "dict", "set"):
                    ov = self.own(v)
                    self.setcell(o, dstore(c.data, kk, ov))
                    self.st.heap[v.args[0]] = Cell("alias", mk("slot", o, kk))
                    return
                self.setcell(o, dstore(c.data, kk, self.own(v)))
                return
            if c.kind == "list":
                self.setcell(o, list_store(c.data, k, self.freeze(v)))
                return
            if c.kind == "ext" and self.pointwise is not None and T.sort(self.freeze(k)) == "bool":
                self.pointwise.set(self, o, self.freeze(k), self.freeze(v))
                return
            if c.kind == "ext":
                self.setcell(o, mk("call", "setitem", (c.data, self.freeze(k), self.freeze(v)), ()))
                return
        if o.op == "fslot" or o.op == "slot":
            cont = o
            d = self.container_content(o) if o.op == "fslot" else self.load_slot(o)
            nd = dstore(d, self.freeze(k), self.own(v))
            if o.op == "fslot":
                self.set_container(o, nd)
            else:
                self.store_slot(o, nd)
            return
        self.stores.append((self.module.name, getattr(node, "lineno", 0), "item", self.freeze(o), None))
        self.emit("SETITEM", self.freeze(o), self.freeze(k), self.freeze(v))

    def dict_update(self, ref, v):
        v = self.deref(v)
        d = self.container_content(ref)
        if v.op == "dictv":
            for k, x in v.args[0]:
                d = dstore(d, k, x)
        elif d.op == "dictv" and not d.args[0]:
            d = v
        else:
            d = mk("call", "dict|", (d, v), ())
        self.set_container(ref, d)

    # sequences and iteration

    def seq(self, v):
        """Sequence term of an iterable value."""
        if v.op == "ite":
            return ite(v.args[0], self.seq(v.args[1]), self.seq(v.args[2]))
        if v.op == "ref":
            c = self.cell(v)
            if c.kind == "alias":
                return self.seq(c.data)
            if c.kind in ("list", "circ"):
                return c.data
            if c.kind == "dict":
                return keys_of(c.data)
            if c.kind == "set":
                return set_seq(c.data)
            if c.kind == "ext":
                return c.data
        if v.op == "fslot":
            d = self.container_content(v)
            return keys_of(d) if self.kind_of(d) == "dict" or d.op in ("dictv", "store") else d
        if v.op == "slot":
            return self.seq(self.load_slot(v))
        if v.op in ("setlit", "setof"):
            return set_seq(v)
        if v.op == "circv":
            return v.args[0]
        if v.op in ("dictv", "store"):
            return keys_of(v)
        if strval(v) is not None:
            return lst([spread(v)])
        if self.kind_of(v) == "dict":
            return keys_of(v)
        if v.op == "call" and v.args[0] in ("set|", "set&", "set-", "set^"):
            return v
        return v

    def iter_seq(self, v):
        return self.seq(v)

    def setval(self, v):
        """Set term of any iterable."""
        v = self.deref(v)
        if v.op in ("setlit", "setof") or (v.op == "call" and v.args[0] in ("set|", "set&", "set-", "set^")):
            return v
        if v.op == "ite":
            return ite(v.args[0], self.setval(v.args[1]), self.setval(v.args[2]))
        if self.kind_of(v) == "set":
            return v
        return mkset(self.seq(v))

    # comprehensions

    def comp(self, node, emit):
        ref = self.alloc("frame", {})
        fid = ref.args[0]
        # the first iterable is evaluated in the enclosing scope
        it0 = self.eval(node.generators[0].iter)
        saved = self.frame_ids
        self.frame_ids = saved + (fid,)

        def level(k, it):
            g = node.generators[k]

            def body(v):
                self.assign(g.target, v)
                conds = g.ifs

                def inner():
                    if k + 1 < len(node.generators):
                        o = level(k + 1, self.eval(node.generators[k + 1].iter))
                        return o
                    emit()
                    return {"fall": (TRUE, self.st, None)}

                def guarded(j):
                    if j == len(conds):
                        return inner()
                    c = self.decide(self.truth_of(self.eval(conds[j])))
                    if c == TRUE:
                        return guarded(j + 1)
                    if c == FALSE:
                        return {"fall": (TRUE, self.st, None)}
                    base = self.st
                    self.st = base.copy()
                    o = guarded(j + 1)
                    s1 = o["fall"][1]
                    self.st = self.merge_states(c, s1, base)
                    return {"fall": (TRUE, self.st, None)}
                return guarded(0)
            o = self.iterate(it, body, node)
            if "fall" in o:
                self.st = o["fall"][1]
            elif "raise" in o:
                self.st = o["raise"][1]
                raise Abort()
            return {"fall": (TRUE, self.st, None)}
        try:
            level(0, it0)
        finally:
            self.frame_ids = saved

    def e_ListComp(self, node):
        out = self.alloc("list", EMPTY)

        def emit():
            v = self.own_list(self.eval(node.elt))
            self.setcell(out, concat(self.cell(out).data, listof(v)))
        self.comp(node, emit)
        return out

    def own_list(self, v):
        return v

    def e_GeneratorExp(self, node):
        r = self.e_ListComp(node)
        return self.cell(r).data

    def e_SetComp(self, node):
        r = self.e_ListComp(node)
        return self.alloc("set", mkset(self.cell(r).data))

    def e_DictComp(self, node):
        out = self.alloc("dict", mk("dictv", ()))

        def emit():
            k = self.freeze(self.eval(node.key))
            v = self.own(self.eval(node.value))
            self.setcell(out, dstore(self.cell(out).data, k, v))
        self.comp(node, emit)
        return out

    def e_Starred(self, node):
        return spread(self.seq(self.eval(node.value)))

    def e_Yield(self, node):
        v = NONE if node.value is None else self.eval(node.value)
        ref = self.st.heap[self.frame_ids[-1]].data["$yield"]
        self.setcell(ref, concat(self.cell(ref).data, listof(v)))
        return NONE

    def e_YieldFrom(self, node):
        v = self.seq(self.eval(node.value))
        ref = self.st.heap[self.frame_ids[-1]].data["$yield"]
        self.setcell(ref, concat(self.cell(ref).data, v))
        return NONE

    def e_Await(self, node):
        return self.eval(node.value)

    def e_Slice(self, node):
        return self.eval_slice(node)

    # ------------------------------------------------------------ calls

    def e_Call(self, node, stmt=False):
        f = node.func
        # method call: receiver evaluated first
        args = None
        if isinstance(f, ast.Attribute):
            recv = self.eval(f.value)
            name = f.attr
            args, kw = self.eval_args(node)
            return self.call_method(recv, name, args, kw, node, stmt)
        fn = self.eval(f)
        args, kw = self.eval_args(node)
        return self.apply(fn, args, kw, node, stmt)

    def eval_args(self, node):
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                s = self.seq(self.eval(a.value))
                if s.op == "lst" and all(x.op == "item" for x in s.args):
                    args.extend(x.args[0] for x in s.args)
                elif s.op == "lst":
                    args.extend(x.args[0] if x.op == "item" else mk("argseg", lst([x])) for x in s.args)
                else:
                    args.append(mk("argseg", lst([spread(s)])))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in node.keywords:
            if k.arg is None:
                d = self.deref(self.eval(k.value))
                if d.op == "dictv":
                    for kk, v in d.args[0]:
                        if strval(kk) is not None:
                            kw[strval(kk)] = v
                else:
                    kw["**"] = d
            else:
                kw[k.arg] = self.eval(k.value)
        return args, kw

    def call_method(self, recv, name, args, kw, node, stmt):
        if recv.op == "ite" and has_ref(recv):
            return self.fork(recv.args[0],
                             lambda: self.call_method(recv.args[1], name, args, kw, node, stmt),
                             lambda: self.call_method(recv.args[2], name, args, kw, node, stmt))
        if recv.op == "ref":
            c = self.cell(recv)
            if c.kind == "alias":
                return self.call_method(c.data, name, args, kw, node, stmt)
            if c.kind in ("list", "dict", "set", "circ", "ext"):
                from . import models
                return models.container_method(self, recv, c, name, args, kw, node, stmt)
        if recv.op == "fslot" or recv.op == "slot":
            v = self.container_content(recv) if recv.op == "fslot" else self.load_slot(recv)
            kd = self.kind_of(v)
            if kd in ("?", "tuple") and recv.op == "slot" and recv.args[0].op == "ref":
                fac = self.cell(recv.args[0]).cls
                if isinstance(fac, T.T) and fac.op == "total":
                    kd = {"list": "list", "set": "set", "dict": "dict"}.get(str(fac.args[0].args[0]), kd)
                    if v.op not in ("lst", "setlit", "setof", "dictv", "store") and kd == "list":
                        v = lst([spread(v)])
            if kd in ("dict", "list", "set", "tuple"):
                from . import models
                tmp = self.alloc({"tuple": "list"}.get(kd, kd), v)
                r = models.container_method(self, tmp, self.cell(tmp), name, args, kw, node, stmt)
                nv = self.cell(tmp).data
                if nv != v:
                    if recv.op == "fslot":
                        self.set_container(recv, nv)
                    else:
                        self.store_slot(recv, nv)
                if r.op == "slot" and r.args[0] == tmp:
                    r = mk("slot", recv, r.args[1])
                return r
        if recv.op in ("mod", "ext", "cls") or recv.op in ("obj", "ref", "slot") or self.class_of(recv) is not None:
            ci = self.class_of(recv) if recv.op not in ("mod", "ext", "cls") else None
            q = None
            if ci is not None and name in ci.methods and ci.kinds[name] == "method":
                q = ci.name + "." + name
                f = self.fn_for(ci.module, ci.methods[name], ci, q)
                return self.call_fn(self.fns[f.key], [recv] + args, kw, f, node, stmt)
            fn = self.getattr(recv, name, node)
            if not (fn.op == "attr"):
                return self.apply(fn, args, kw, node, stmt)
            if ci is not None and ci.field_type(name) is not None:
                return self.apply(fn, args, kw, node, stmt)
        from . import models
        return models.value_method(self, recv, name, args, kw, node, stmt)

    def apply(self, fn, args, kw, node=None, stmt=False):
        if fn.op == "ite":
            c = self.decide(fn.args[0])
            if c == TRUE:
                return self.apply(fn.args[1], args, kw, node, stmt)
            if c == FALSE:
                return self.apply(fn.args[2], args, kw, node, stmt)
            return self.fork(c, lambda: self.apply(fn.args[1], args, kw, node, stmt),
                             lambda: self.apply(fn.args[2], args, kw, node, stmt))
        if fn.op == "fn":
            return self.call_fn(self.fns[fn.key], args, kw, fn, node, stmt)
        if fn.op == "bound":
            return self.apply(fn.args[1], [fn.args[0]] + list(args), kw, node, stmt)
        if fn.op == "cls":
            return self.instantiate(self.p.find_class(fn.args[0]), args, kw)
        if fn.op == "ext":
            from . import models
            return models.ext_call(self, fn.args[0], args, kw, node, stmt)
        if fn.op == "meth":
            return self.call_method(fn.args[0], fn.args[1], args, kw, node, stmt)
        if fn.op == "partial":
            k2 = dict(fn.args[2])
            k2.update(kw)
            return self.apply(fn.args[0], list(fn.args[1]) + list(args), k2, node, stmt)
        if fn.op == "lam":
            r = apply_lam(fn, [self.freeze(a) for a in args])
            if r is not None:
                val, eff = r
                if eff != EMPTY:
                    self.st.world = concat(self.st.world, eff)
                return val
        if fn.op == "boundm":
            f = fn.args[1]
            return self.apply(f, [fn.args[0]] + list(args), kw, node, stmt)
        if fn.op == "attr" and self.typeof(fn) is not None and fn.args[2] == "?":
            from . import models
            return models.value_method(self, fn.args[0], fn.args[1], args, kw, node, stmt)
        # unknown callable value (a parameter)
        fa = tuple(self.freeze(a) for a in args)
        fk = tuple(sorted((k, self.freeze(v)) for k, v in kw.items()))
        t = mk("app", fn, fa, fk)
        for a in list(args) + list(kw.values()):
            self.escape(a)
        if stmt:
            self.emit("CALL", t)
            return NONE
        return t

    def instantiate(self, ci, args, kw):
        self.visited.add(ci.name)
        if ci.name in self.opaque:
            return mk("call", "new:" + ci.name, tuple(self.freeze(a) for a in args), tuple(sorted((k, self.freeze(v)) for k, v in kw.items())))
        if "__init__" in ci.methods:
            ref = self.alloc("inst", {}, ci.name)
            f = self.fn_for(ci.module, ci.methods["__init__"], ci, ci.name + ".__init__")
            self.call_fn(self.fns[f.key], [ref] + args, kw, f)
            return ref
        if ci.dataclass:
            d = {}
            names = [f for f, _, _ in ci.fields]
            for n_, a in zip(names, args):
                d[n_] = a
            for k, v in kw.items():
                if k != "**":
                    d[k] = v
            if "**" in kw:
                for n_ in names:
                    d.setdefault(n_, idx(kw["**"], const(n_)))
            for n_, t, dflt in ci.fields:
                if n_ not in d:
                    if dflt is not None:
                        txt = ast.unparse(dflt)
                        if "default_factory" in txt:
                            fac = [k.value for k in dflt.keywords if k.arg == "default_factory"][0]
                            d[n_] = self.apply(self.eval_in_module(ci.module, fac), [], {})
                        else:
                            d[n_] = self.eval_in_module(ci.module, dflt)
                    else:
                        self.raise_if(TRUE, mk("ext", "TypeError"))
            extra = set(d) - set(names)
            if extra:
                self.raise_if(TRUE, mk("ext", "TypeError"))
            if ci.frozen:
                o = mk("obj", ci.name, tuple(sorted((k, self.own(v)) for k, v in d.items())))
                if "__post_init__" in ci.methods and (ci.name + ".__post_init__") not in self.opaque:
                    f = self.fn_for(ci.module, ci.methods["__post_init__"], ci, ci.name + ".__post_init__")
                    self.call_fn(self.fns[f.key], [o], {}, f)
                return o
            ref = self.alloc("inst", d, ci.name)
            if "__post_init__" in ci.methods:
                f = self.fn_for(ci.module, ci.methods["__post_init__"], ci, ci.name + ".__post_init__")
                self.call_fn(self.fns[f.key], [ref], {}, f)
            return ref
        return self.alloc("inst", {}, ci.name)

    def bind(self, clo, args, kw):
        a = clo.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        d = {}
        args = list(args)
        i = 0
        while i < len(pos) and args:
            x = args[0]
            if x.op == "argseg":
                # symbolic *args feeding positional parameters
                k = i
                while i < len(pos):
                    d[pos[i]] = idx(x.args[0], num(i - k))
                    i += 1
                args.pop(0)
                break
            d[pos[i]] = x
            args.pop(0)
            i += 1
        if a.vararg:
            segs = []
            for x in args:
                if x.op == "argseg":
                    segs.extend(x.args[0].args)
                else:
                    segs.append(item(x))
            d[a.vararg.arg] = lst(segs)
        elif args:
            self.raise_if(TRUE, mk("ext", "TypeError"))
        extra = {}
        for k, v in kw.items():
            if k == "**":
                for nm in pos + kwonly:
                    if nm not in d:
                        d[nm] = ite(in_(const(nm), v), idx(v, const(nm)), (clo.defaults or {}).get(nm, UNDEF))
                continue
            if k in pos or k in kwonly:
                d[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            dv = mk("dictv", tuple((const(k), v) for k, v in extra.items()))
            d[a.kwarg.arg] = self.alloc("dict", dv)
        elif extra:
            self.raise_if(TRUE, mk("ext", "TypeError"))
        return d

    def call_fn(self, clo, args, kw, fterm=None, node=None, stmt=False):
        q = clo.qual
        if q in self.hooks and not clo.is_lambda:
            return self.hooks[q](self, clo, args, kw, stmt)
        if q in self.opaque and not clo.is_lambda:
            return self.opaque_call(clo, q, args, kw, stmt)
        if self.stack.count(q) > self.rec_inline.get(q, self.rec_inline.get("*", 0)) and not clo.is_lambda or len(self.stack) > self.max_depth:
            return self.rec_call(clo, q, args, kw, stmt)
        if clo.defaults is None:
            saved = (self.frame_ids, self.module, self.cls)
            self.frame_ids, self.module, self.cls = (self.module_frame(clo.module),), clo.module, clo.cls
            clo.defaults = self.eval_defaults(clo.node.args)
            self.frame_ids, self.module, self.cls = saved
        d = self.bind(clo, args, kw)
        for k, v in clo.defaults.items():
            if k not in d or d[k] == UNDEF:
                d[k] = v
        for p in clo.node.args.posonlyargs + clo.node.args.args + clo.node.args.kwonlyargs:
            if p.arg not in d:
                self.raise_if(TRUE, mk("ext", "TypeError"))
        return self.run_body(clo, d)

    def run_body(self, clo, d):
        q = clo.qual
        if not clo.is_lambda:
            self.visited.add(q)
        fref = self.alloc("frame", dict(d))
        fid = fref.args[0]
        self.annots[fid] = {p.arg: ann(p.annotation) for p in clo.node.args.posonlyargs + clo.node.args.args + clo.node.args.kwonlyargs}
        saved = (self.frame_ids, self.module, self.cls, self.ctx)
        base_frames = clo.frames if clo.frames else (self.module_frame(clo.module),)
        self.frame_ids, self.module, self.cls = base_frames + (fid,), clo.module, clo.cls
        self.stack.append(q)
        try:
            if clo.is_lambda:
                return self.eval(clo.node.body)
            gen = is_generator(clo.node)
            if gen:
                y = self.alloc("list", EMPTY)
                dd = dict(self.st.heap[fid].data)
                dd["$yield"] = y
                self.st.heap[fid] = Cell("frame", dd)
            out = self.exec_block(clo.node.body)
            fall = out.pop("fall", None)
            if fall is not None:
                out = self.merge_out(out, {"ret": (fall[0], fall[1], NONE)}) if "ret" in out else {**out, "ret": (TRUE, fall[1], NONE)}
            if "ret" not in out:
                if "raise" in out:
                    self.st = out["raise"][1]
                raise Abort()
            self.st = out["ret"][1]
            if gen:
                return self.cell(self.st.heap[fid].data["$yield"]).data
            return out["ret"][2]
        finally:
            self.stack.pop()
            self.frame_ids, self.module, self.cls, self.ctx = saved

    def opaque_call(self, clo, q, args, kw, stmt):
        """Call to a repo function treated as a black box."""
        names = {}
        try:
            b = self.bind(clo, args, kw)
        except Abort:
            raise
        a = clo.node.args
        order = [p.arg for p in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [p.arg for p in a.kwonlyargs]
        if clo.defaults is None:
            clo.defaults = {}
            saved = (self.frame_ids, self.module, self.cls)
            self.frame_ids, self.module, self.cls = (self.module_frame(clo.module),), clo.module, clo.cls
            clo.defaults = self.eval_defaults(clo.node.args)
            self.frame_ids, self.module, self.cls = saved
        pairs = []
        called = []
        hc, self.havoc_captured = self.havoc_captured, True
        try:
            for nm in order:
                v = b.get(nm, clo.defaults.get(nm))
                if v is not None and v != UNDEF:
                    pairs.append((nm, self.freeze(v)))
                    if isinstance(self.fns.get(v.key), Closure) and self.fns[v.key].frames:
                        called.append(self.fns[v.key])
        finally:
            self.havoc_captured = hc
        if called:
            t0 = simplify_call(q, tuple(v for _, v in pairs), ())
            for f, n in {fn: None for c2 in called for fn in self.rec_writes(c2)}:
                old = self.st.heap[f].data[n]
                if old.key in self.fns:
                    continue
                new = mk("after", t0, self.freeze(old))
                if old.op == "ref":
                    k = self.cell(old).kind
                    if k in ("ext", "circ"):
                        self.setcell(old, new)
                    elif k == "list":
                        self.setcell(old, lst([spread(new)]))
                else:
                    self.st.heap[f] = Cell("frame", {**self.st.heap[f].data, n: new}, self.st.heap[f].cls)
        if clo.node.returns is not None:
            self.ret_types[q] = ann(clo.node.returns)
        self.callsites.append((q, dict(pairs)))
        t = simplify_call(q, tuple(v for _, v in pairs), ())
        if q in self.effectful:
            r = mk("occ", q, lst([item(listof(const(nm), v)) for nm, v in pairs]), lst([item(i) for i in self.ctx] + [item(num(self.st.occ.get(q, 0)))]))
            self.st.occ[q] = self.st.occ.get(q, 0) + 1
            if self.serial is not None:
                # every evaluated call gets its own identity
                self.serial += 1
                r = mk("occ", *r.args, num(self.serial))
            self.emit("OP", r)
            return r
        if stmt:
            self.emit("CALL", t)
            return NONE
        ci = self.p.find_class(ann(clo.node.returns)) if clo.node.returns is not None else None
        if ci is not None and ci.dataclass and not ci.frozen and not q.startswith("spec_"):
            # a fresh mutable record: its fields may be reassigned by the caller
            return self.alloc("inst", {f: mkattr(t, f, ty) for f, ty, _ in ci.fields}, ci.name)
        return t

    effectful = frozenset()
    serial = None
    rec_inline = {}
    pointwise = None
    havoc_captured = False

    def rec_writes(self, clo):
        """Captured variables (frame, name) a call of the closure may write, through local functions it calls too."""
        out, seen, todo = [], set(), [clo]
        while todo:
            c = todo.pop(0)
            if id(c.node) in seen:
                continue
            seen.add(id(c.node))

            def find(n):
                for f in reversed(c.frames or ()):
                    cell = self.st.heap.get(f)
                    if cell is not None and n in cell.data:
                        return f
                return None
            for n in free_writes(c.node):
                f = find(n)
                if f is not None and (f, n) not in out:
                    out.append((f, n))
            own = own_names(c.node)
            for x in ast.walk(c.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id not in BUILTINS:
                    for y in list(x.args) + [k.value for k in x.keywords]:
                        # an object passed on to another function of the program may be changed there
                        if isinstance(y, ast.Name) and y.id not in own:
                            f = find(y.id)
                            if f is not None and self.st.heap[f].data[y.id].op == "ref" and (f, y.id) not in out:
                                out.append((f, y.id))
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    f = find(x.id)
                    v = self.st.heap[f].data[x.id] if f is not None else None
                    if v is not None and isinstance(self.fns.get(v.key), Closure):
                        todo.append(self.fns[v.key])
        return out

    def rec_call(self, clo, q, args, kw, stmt):
        try:
            d = self.bind(clo, args, kw)
        except Abort:
            raise
        a = clo.node.args
        order = [p.arg for p in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [p.arg for p in a.kwonlyargs]
        vals = tuple(self.freeze(d[n]) if n in d and d[n] != UNDEF else const("<default>") for n in order)
        t = mk("call", "rec:" + q.split(".")[-1], vals, ())
        # havoc captured variables the function (or anything local it calls) may write
        todo = self.rec_writes(clo)
        olds = []
        for f, n in todo:
            v = self.st.heap[f].data[n]
            olds.append(self.freeze(v) if v.key not in self.fns else None)
        for (f, n), o in zip(todo, olds):
            if o is None:
                continue
            cell = self.st.heap[f]
            dd = dict(cell.data)
            old = dd[n]
            tag = 0 if sum(1 for q2 in olds if q2 == o) == 1 else 1 + todo.index((f, n))
            new = mk("recout", t, tag, o)
            if old.op == "ref":
                if self.cell(old).kind in ("ext", "list", "circ", "set", "dict"):
                    self.setcell(old, new)
                else:
                    self.note(f"state of {n} after a recursive call is not tracked")
                continue
            dd[n] = new
            self.st.heap[f] = Cell("frame", dd, cell.cls)
        if stmt:
            self.emit("CALL", t)
            return NONE
        if clo.node.returns is not None:
            self.ret_types.setdefault("rec:" + q.split(".")[-1], ann(clo.node.returns))
        return t

    # ------------------------------------------------------------ entry points

    def param_sym(self, p, prefix="", a=None):
        return T.sym(prefix + p.arg, param_type(p, a))

    def analyse(self, modname, qual, args=None, self_term=None):
        """Summary of a repo function on symbolic (or given) arguments."""
        self.install()
        m = self.p.module(modname)
        if m is None:
            raise AnalysisBroken(f"no module {modname}")
        node = self.p.find_func(modname, qual)
        ci = None
        if "." in qual:
            ci = self.p.find_class(qual.split(".")[0])
            m = ci.module
        else:
            if qual not in m.funcs:
                r = self.p.resolve(m.imports[qual])
                m = r[1]
        clo = Closure(node, m, (), ci, qual)
        seen, todo = set(), [m]
        while todo:
            # module-level tables exist before anything runs (and before any speculative evaluation)
            x = todo.pop()
            if x.name in seen:
                continue
            seen.add(x.name)
            self.module_frame(x)
            for d in x.imports.values():
                r = self.p.resolve(d)
                if r is not None:
                    todo.append(r[1].module if isinstance(r[1], ClassInfo) else r[1])
        self.frame_ids, self.module, self.cls = (self.module_frame(m),), m, ci
        clo.defaults = {}
        a = node.args
        d = {}
        given = dict(args or {})
        for j, p in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            if p.arg in given:
                d[p.arg] = given.pop(p.arg)
            elif ci is not None and j == 0 and p.arg == "self":
                d[p.arg] = self_term if self_term is not None else T.sym("self", ci.name)
            else:
                d[p.arg] = self.param_sym(p, a=a)
        if a.vararg:
            v = given.pop(a.vararg.arg, None)
            d[a.vararg.arg] = v if v is not None else T.sym(a.vararg.arg, f"List[{ann(a.vararg.annotation)}]")
        if a.kwarg:
            d[a.kwarg.arg] = T.sym(a.kwarg.arg, "Dict[str,?]")
        if given:
            raise AnalysisBroken(f"{qual} has no parameter {sorted(given)}")
        try:
            r = self.run_body(clo, d)
        except Abort:
            r = mk("sym", "<raises>", "?")
        return Summary(self.freeze(r), self.freeze(self.st.world), self)


class Summary:
    def __init__(self, ret, world, interp):
        self.ret = ret
        self.world = world
        self.interp = interp


# ------------------------------------------------------------ helpers

EXCEPTIONS = {"Exception", "ValueError", "NotImplementedError", "RuntimeError", "KeyError", "AssertionError", "TypeError", "IndexError", "BaseException", "OSError", "FileNotFoundError", "StopIteration", "ZeroDivisionError"}
BUILTINS = {"print", "len", "range", "sorted", "enumerate", "zip", "min", "max", "sum", "abs", "any", "all", "isinstance", "repr", "open", "map", "filter", "reversed", "next", "iter", "getattr", "hasattr", "round", "vars", "id", "hash", "divmod", "pow", "super", "callable", "issubclass", "format", "chr", "ord", "bin", "hex", "setattr", "slice", "property", "staticmethod"}

import math as _math
EXT_CONST = {"math.pi": mk("sym", "pi", "float"), "numpy.pi": mk("sym", "pi", "float"),
             "math.inf": const(float("inf")), "numpy.inf": const(float("inf"))}
ALIASES = {"np": "numpy"}
EXT_ATTR = {"num_detectors": "int", "num_observables": "int", "num_qubits": "int", "repeat_count": "int", "name": "str",
            "value": "int", "val": "int", "type": "str", "real": "num", "imag": "num", "slope": "float", "intercept": "float",
            "is_combiner": "bool", "is_x_target": "bool", "is_y_target": "bool", "is_z_target": "bool",
            "is_qubit_target": "bool", "is_inverted_result_target": "bool", "is_measurement_record_target": "bool"}
MCALL_TYPES = {"is_relative_detector_id": "bool", "is_logical_observable_id": "bool", "is_separator": "bool", "exists": "bool",
               "is_dir": "bool", "has_edge": "bool", "endswith": "bool", "startswith": "bool", "strip": "str", "lower": "str",
               "upper": "str", "capitalize": "str", "index": "int", "count": "int", "isdisjoint": "bool", "replace": "str",
               "targets_copy": "List[?]", "gate_args_copy": "List[float]", "args_copy": "List[float]"}


def is_generator(node):
    for st in ast.walk(node):
        if isinstance(st, (ast.Yield, ast.YieldFrom)):
            # exclude nested functions
            return _yields(node.body)
    return False


def _yields(body):
    for st in body:
        for x in _walk_nofunc(st):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def _walk_nofunc(n):
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        return
    yield n
    for c in ast.iter_child_nodes(n):
        yield from _walk_nofunc(c)


MUTATING = {"append", "extend", "insert", "add", "update", "pop", "popitem", "clear", "remove", "discard", "setdefault", "fill", "sort", "reverse", "resize", "put", "itemset",
            "appendleft", "popleft", "add_edge", "add_node", "remove_edge", "remove_node", "add_edges_from", "add_nodes_from", "add_weighted_edges_from",
            "remove_edges_from", "remove_nodes_from", "clear_edges", "append_operation", "append_from_stim_program_text", "append_rep", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__"}


def own_names(node):
    a = node.args
    out = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    nl = set()
    for x in ast.walk(node):
        if isinstance(x, (ast.Nonlocal, ast.Global)):
            nl.update(x.names)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not node:
            out.add(x.name)
    return out - nl


def free_writes(node):
    """Names not local to the function that its body rebinds or may modify in place, in order of appearance."""
    own = own_names(node)
    out = []

    def put(n):
        if n not in own and n not in out:
            out.append(n)
    for x in ast.walk(node):
        ts = list(x.targets) if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
        while ts:
            t = ts.pop(0)
            if isinstance(t, (ast.Tuple, ast.List)):
                ts = list(t.elts) + ts
                continue
            while isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
                t = t.value
            if isinstance(t, ast.Name):
                put(t.id)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATING:
            t = x.func.value
            while isinstance(t, (ast.Subscript, ast.Attribute)):
                t = t.value
            if isinstance(t, ast.Name):
                put(t.id)
        if isinstance(x, ast.Call):
            for k in x.keywords:
                if k.arg == "out" and isinstance(k.value, ast.Name):
                    put(k.value.id)
    return out


def has_ref(t):
    if t.op in ("ref", "slot", "fslot"):
        return True
    if t.op == "ite":
        return has_ref(t.args[1]) or has_ref(t.args[2])
    return False


def world_delta(base, w):
    """Segments of w after base, or None if base is not a prefix."""
    n = len(base.args)
    if len(w.args) >= n and w.args[:n] == base.args:
        return w.args[n:]
    return None


def ends_in_raise(l):
    if not l.args:
        return False
    s = l.args[-1]
    if s.op == "item" and s.args[0].op == "ev" and s.args[0].args[0] == "RAISE":
        return True
    return False


def join_world(c, a, b):
    r = T.joinlst(c, a, b)
    return r


def merge_cells(c, a, b):
    if a.kind == "frame" and b.kind == "frame":
        d = {}
        for k in list(a.data) + [k for k in b.data if k not in a.data]:
            x, y = a.data.get(k, UNDEF), b.data.get(k, UNDEF)
            d[k] = x if x is y else ite(c, x, y)
        return Cell("frame", d, a.cls)
    if a.kind == "inst" and b.kind == "inst":
        d = {}
        for k in list(a.data) + [k for k in b.data if k not in a.data]:
            x, y = a.data.get(k, UNDEF), b.data.get(k, UNDEF)
            d[k] = x if x is y else ite(c, x, y)
        return Cell("inst", d, a.cls)
    if a.kind == b.kind and isinstance(a.data, T.T) and isinstance(b.data, T.T):
        return Cell(a.kind, ite(c, a.data, b.data), a.cls, ite(c, a.esc, b.esc))
    if a.kind == "alias":
        return a
    return b if b.kind == "alias" else a


def leaf_diff(nx, ph):
    """nx - ph, taken in each alternative of nx."""
    if nx.op == "ite" and not mentions(nx.args[0], ph):
        return ite(nx.args[0], leaf_diff(nx.args[1], ph), leaf_diff(nx.args[2], ph))
    return sub(nx, ph)


def esc_of(s, v):
    """Condition under which the object a variable holds has been handed out."""
    from .linear import Facts
    if v.op == "ite":
        c = v.args[0]
        a, b = esc_of(s, v.args[1]), esc_of(s, v.args[2])
        return ite(c, Facts().assume(c).reduce(a), Facts().assume(not_(c)).reduce(b))
    if v.op == "ref":
        return s.heap[v.args[0]].esc
    return FALSE


def get_loc(s, loc):
    c = s.heap.get(loc[0])
    if c is None:
        return None
    if len(loc) == 2:
        if isinstance(c.data, dict):
            return c.data.get(loc[1], UNDEF)
        return None
    return c.data


def put_loc(s, loc, v):
    c = s.heap[loc[0]]
    if len(loc) == 2:
        d = dict(c.data)
        d[loc[1]] = v
        s.heap[loc[0]] = Cell(c.kind, d, c.cls)
    else:
        s.heap[loc[0]] = Cell(c.kind, v, c.cls, c.esc)


def changed_locs(a, b):
    for i, ca in a.heap.items():
        cb = b.heap.get(i)
        if cb is ca or cb is None:
            continue
        if isinstance(ca.data, dict) and isinstance(cb.data, dict):
            for k in set(ca.data) | set(cb.data):
                x, y = ca.data.get(k, UNDEF), cb.data.get(k, UNDEF)
                if x is not y and x != y:
                    yield (i, k)
        elif ca.kind != cb.kind:
            continue
        elif ca.data is not cb.data and ca.data != cb.data:
            yield (i,)


def T_max0(t):
    v = numval(t)
    if v is not None:
        return num(max(0, v))
    if nonneg(t):
        return t
    return simplify_call("max", (num(0), t), ())


def nonneg(t):
    if t.op == "poly":
        return all(c >= 0 and all(nonneg(a) for a, e in m) for m, c in t.args[0])
    if t.op == "call":
        return t.args[0] in ("len", "numpy.count_nonzero") or (t.args[0] == "max" and any(numval(a) is not None and numval(a) >= 0 for a in t.args[1])) or (t.args[0] == "min" and len(t.args[1]) > 1 and all(nonneg(a) for a in t.args[1]))
    if t.op == "bv":
        return True
    if t.op == "sum":
        return nonneg(t.args[2])
    if t.op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op == "mod":
        m = numval(t.args[1])
        return m is not None and m > 0
    if t.op == "fdiv":
        m = numval(t.args[1])
        return m is not None and m > 0 and nonneg(t.args[0])
    if t.op == "first":
        return True
    return False


def prefix_sum(i, d):
    """sum of d over iterations 0 .. i-1 (d a function of i)."""
    if not mentions(d, i):
        return mul(i, d)
    # polynomial of degree one in i has a closed form
    p = T.pdict(d)
    c1 = {}
    c0 = {}
    ok = True
    for m, c in p.items():
        es = [e for a, e in m if a == i]
        if any(a != i and mentions(a, i) for a, e in m):
            ok = False
            break
        if not es:
            c0[m] = c
        elif es == [1]:
            c1[tuple((a, e) for a, e in m if a != i)] = c
        else:
            ok = False
            break
    if ok:
        return add(mul(i, T.from_pdict(c0)), mul(T.from_pdict(c1), mul(num(Fraction(1, 2)), mul(i, sub(i, num(1))))))
    b = fresh_bv()
    return T.sumt(i, b, subst(d, {i.key: b}))


def count_bound(exitc, i):
    """N such that exitc(i) becomes true first at i = N, for linear single conditions; else None."""
    c = exitc
    if c.op == "ge0":
        p, positive = c.args[0], True
    elif c.op == "not" and c.args[0].op == "ge0":
        # not (p >= 0)  <=>  -p - 1 >= 0 for integers
        if not T.is_int(c.args[0].args[0]):
            return None
        p = sub(T.neg(c.args[0].args[0]), num(1))
    else:
        return None
    d = T.pdict(p)
    a = None
    rest = {}
    for m, k in d.items():
        if m == ((i, 1),):
            a = k
        elif any(mentions(x, i) for x, _ in m):
            return None
        else:
            rest[m] = k
    if a is None or a <= 0:
        return None
    # smallest i with a*i + rest >= 0:  ceil(-rest / a)
    r = T.from_pdict(rest)
    nn = T.neg(T.floordiv(r, num(a)))
    return T_max0(nn)


LOOP_BINDERS = ("lout", "lseg")


def mk_loop(op, n, i, phis, inits, nexts, exitc, expr):
    """Closed recurrence term, sliced to the variables that matter and canonically ordered."""
    r = fused_loop(op, n, i, phis, inits, nexts, exitc, expr)
    if r is not None:
        return r
    if op == "lout" and T.sort(expr) == "bool":
        if expr.op == "not":
            return not_(mk_loop(op, n, i, phis, inits, nexts, exitc, expr.args[0]))
        if n is None and expr == exitc:
            return TRUE
        if n is None and expr.op == "and" and exitc.op == "or":
            # the loop was left, so the exit condition holds
            have = {c.key for c in expr.args}
            for c in expr.args:
                if any(c == e for e in exitc.args) and all(e == c or not_(e).key in have for e in exitc.args):
                    return mk_loop(op, n, i, phis, inits, nexts, exitc, and_(*[x for x in expr.args if x != c]))
    # a variable that every iteration leaves as it started
    for j, p in enumerate(phis):
        v = inits[j]
        if v.op in ("const", "lst", "setlit") and not (v.op == "lst" and v.args) and mentions(nexts[j], p) and subst(nexts[j], {p.key: v}) == v:
            nexts = [subst(x, {p.key: v}) for x in nexts]
            exitc, expr = subst(exitc, {p.key: v}), subst(expr, {p.key: v})
    need = set()
    work = [expr, exitc]
    while work:
        t = work.pop()
        for j, p in enumerate(phis):
            if j not in need and mentions(t, p):
                need.add(j)
                work.append(nexts[j])
    js = sorted(need)
    if op == "lout" and len(js) == 1 and expr == phis[js[0]] and not mentions(exitc, expr) and inits[js[0]].op in ("setlit", "setof"):
        # a set that only grows: the set of everything added
        body = grown(nexts[js[0]], expr)
        if body is not None:
            l = mk_loop(op, n, i, [expr], [EMPTY], [body], exitc, expr)
            return mkset(lst([spread(inits[js[0]]), spread(l)]))
    uses_i = any(mentions(t, i) for t in [expr, exitc] + [nexts[j] for j in js])
    if not js and op == "lout" and not mentions(expr, i):
        return expr
    # colour refinement for a name-independent order (placeholders keep their sorts, so that terms are renormalised)
    def tint(j, t):
        return mk("phi", "c", t.key, T.sort(phis[j]))
    color = {j: tint(j, mk("clr", inits[j])) for j in js}
    i0 = mk("bv", "c", 0)
    for _ in range(3):
        sub_ = {phis[j].key: color[j] for j in js}
        sub_[i.key] = i0
        out = subst(exitc, sub_)
        color = {j: tint(j, mk("clr", color[j], x, out)) for j, x in zip(js, continuing(out, [subst(nexts[j], sub_) for j in js]))}
    js.sort(key=lambda j: color[j].key)
    bodies = [nexts[j] for j in js] + [exitc, expr]
    h = 1 + max([0] + [b.bh for b in bodies] + ([n.bh] if n is not None else []))
    m = {}
    if uses_i:
        m[i.key] = mk("bv", "h", h)
    newphis = []
    for q, j in enumerate(js):
        np = mk("phi", "h", h + 1 + q, T.sort(phis[j]))
        m[phis[j].key] = np
        newphis.append(np)
    expr = subst(expr, m)
    flip = op == "lout" and expr.op == "not"
    exitc = subst(exitc, m)
    t = mk(op, n if n is not None else NONE, m.get(i.key, mk("bv", "h", 0)), tuple(newphis), tuple(inits[j] for j in js),
           tuple(continuing(exitc, [subst(nexts[j], m) for j in js])), exitc, expr.args[0] if flip else expr)
    return not_(t) if flip else t


def appended(nx, ph):
    """(condition, element) when one iteration appends that element under that condition and does nothing else to the list ph."""
    if nx == ph:
        return FALSE, NONE
    if nx.op == "lst" and len(nx.args) == 2 and nx.args[0] == spread(ph) and nx.args[1].op == "item" and not mentions(nx.args[1], ph):
        return TRUE, nx.args[1].args[0]
    if nx.op == "ite" and not mentions(nx.args[0], ph):
        a, b = appended(nx.args[1], ph), appended(nx.args[2], ph)
        if a is not None and b is not None:
            g = T.or_(and_(nx.args[0], a[0]), and_(not_(nx.args[0]), b[0]))
            return g, a[1] if b[0] == FALSE else b[1] if a[0] == FALSE else ite(nx.args[0], a[1], b[1])
    return None


def collected(n):
    """(L, length, index, phis, inits, nexts, condition, element) when n is the length of a list L that a loop collected one element at a time."""
    if n is None or n.op != "call" or n.args[0] != "len" or n.args[1][0].op != "lout":
        return None
    L = n.args[1][0]
    ln, bv, lphis, linits, lnexts, lexit, lexpr = L.args
    j = next((q for q, x in enumerate(lphis) if x == lexpr), None)
    if j is None or lexit != FALSE or ln == NONE or linits[j] != EMPTY:
        return None
    v = T.fresh_bv()
    m = {bv.key: v} if bv.args[1] != 0 else {}
    ps = [T.fresh_phi(T.sort(x)) for x in lphis]
    m.update((x.key, y) for x, y in zip(lphis, ps))
    nexts = [subst(x, m) for x in lnexts]
    r = appended(nexts[j], ps[j])
    if r is None or any(mentions(x, ps[j]) for q, x in enumerate(nexts) if q != j):
        return None
    rest = [q for q in range(len(ps)) if q != j]
    return L, ln, v, [ps[q] for q in rest], [linits[q] for q in rest], [nexts[q] for q in rest], r[0], r[1]


def fused_loop(op, n, i, phis, inits, nexts, exitc, expr):
    """A loop over collected elements is the loop that collects them."""
    if exitc != FALSE:
        return None
    r = collected(n)
    if r is None:
        return None
    L, ln, v, ps, pi, pn, g, e = r
    m = {mk("idx", L, i).key: e}
    mine = [subst(x, m) for x in nexts]
    out = subst(expr, m)
    if any(mentions(x, i) for x in mine + [out]):
        return None
    mine = [ite(g, x, p) for x, p in zip(mine, phis)]
    if op == "lseg":
        out = lst(T.cseg(g, out, EMPTY))
    return mk_loop(op, ln, v, ps + list(phis), pi + list(inits), pn + mine, FALSE, out)


def fused_rep(n, i, body):
    r = collected(n)
    if r is None:
        return None
    L, ln, v, ps, pi, pn, g, e = r
    out = subst(body, {mk("idx", L, i).key: e})
    if mentions(out, i):
        return None
    if any(x.op == "ev" or x.op == "cseg" and T.occurs(x, lambda y: y.op == "ev") for s_ in out.args for x in ((s_.args[0],) if s_.op == "item" else (s_,))):
        return [mk_loop("lseg", ln, v, ps, pi, pn, FALSE, lst(T.cseg(g, out, EMPTY)))]
    p = T.fresh_phi()
    return [spread(mk_loop("lout", ln, v, ps + [p], pi + [EMPTY], pn + [ite(g, lst([spread(p)] + list(out.args)), p)], FALSE, p))]


def continuing(exitc, nexts):
    """What is assigned only matters when the loop goes on: there p != 0 makes  p >= 0  and  not (-p >= 0)  the same."""
    m = {}
    for e in (exitc.args if exitc.op == "or" else (exitc,) if exitc.op == "eq0" else ()):
        if e.op == "eq0":
            g, h = T.ge0(e.args[0]), T.ge0(T.neg(e.args[0]))
            if g.op == "ge0" and h.op == "ge0":
                lo, hi = sorted([g, h], key=lambda t: t.key)
                m[hi.key] = not_(lo)
        if not is_const(e):
            m[e.key] = FALSE
    return [subst(x, m) for x in nexts] if m else list(nexts)


def grown(nx, ph):
    """The sequence of elements seen so far, where nx adds some to the set ph."""
    if nx == ph:
        return ph
    if nx.op == "ite" and not mentions(nx.args[0], ph):
        a, b = grown(nx.args[1], ph), grown(nx.args[2], ph)
        return None if a is None or b is None else ite(nx.args[0], a, b)
    if nx.op == "setof":
        rest = [s for s in nx.args[0].args if s != spread(ph)]
        if len(rest) == len(nx.args[0].args) - 1 and not any(mentions(s, ph) for s in rest):
            return lst([spread(ph)] + rest)
    return None


def _plain_subst(t, m):
    memo = {}

    def go(x):
        r = memo.get(x.key)
        if r is None:
            r = m.get(x.key)
            if r is None:
                args = T._mapargs(x.args, go)
                r = x if args == x.args else mk(x.op, *args)
            memo[x.key] = r
        return r
    return go(t)


def close_lam(bvs, val, eff):
    h = 1 + max([val.bh, eff.bh])
    m = {}
    nb = []
    for q, b in enumerate(bvs):
        x = mk("phi", "h", h + q, T.sort(b))
        m[b.key] = x
        nb.append(x)
    return mk("lam", tuple(nb), subst(val, m), subst(eff, m))


def apply_lam(lam, args):
    ps, val, eff = lam.args
    if len(ps) != len(args) or any(a.op == "argseg" for a in args):
        return None
    m = {p.key: a for p, a in zip(ps, args)}
    return subst(val, m), subst(eff, m)


def numeric(t):
    if T.sort(t) == "bool" and not is_const(t):
        return ite(t, num(1), num(0))
    return t


def lex_cmp(op, a, b):
    strict = {"Gt": "Gt", "GtE": "Gt", "Lt": "Lt", "LtE": "Lt"}[op]
    res = TRUE if op in ("GtE", "LtE") else FALSE
    for x, y in reversed(list(zip(a, b))):
        x, y = numeric(x), numeric(y)
        res = or_(T.cmp(strict, x, y), and_(eq(x, y), res))
    return res


def keys_of(d):
    if d.op == "dictv":
        return lst([item(k) for k, _ in d.args[0]])
    if d.op == "ite":
        return ite(d.args[0], keys_of(d.args[1]), keys_of(d.args[2]))
    if d.op == "store":
        return mk("keys", d)
    if d.op == "lout":
        r = loop_keys(d)
        if r is not None:
            return r
    return mk("keys", d)


def distinct_seq(s):
    """Sequences known to have no repeated elements."""
    if s.op == "keys":
        return True
    if s.op == "call" and s.args[0] == "sorted" and len(s.args[1]) >= 1:
        return distinct_seq(s.args[1][0])
    if s.op in ("setof", "setlit"):
        return True
    return False


def loop_dict(d):
    """(S, bv, V) when d is {S[i]: V(i) for i in range(len(S))} with S free of repeats."""
    if d.op != "lout":
        return None
    n, bv, phis, inits, nexts, exitc, expr = d.args
    if exitc != FALSE or len(phis) != 1 or expr != phis[0] or inits[0] != mk("dictv", ()):
        return None
    nx = nexts[0]
    if nx.op != "store" or nx.args[0] != phis[0]:
        return None
    k, v = nx.args[1], nx.args[2]
    if T.mentions(v, phis[0]) or T.mentions(k, phis[0]):
        return None
    if k.op == "idx" and k.args[1] == bv and not T.mentions(k.args[0], bv) and distinct_seq(k.args[0]) and n == length(k.args[0]):
        return k.args[0], bv, v
    return None


def loop_keys(d):
    r = loop_dict(d)
    return r[0] if r is not None else None


def content(kind, v):
    """What a boxed container holds."""
    if kind == "circ":
        if v.op == "ite":
            return ite(v.args[0], content(kind, v.args[1]), content(kind, v.args[2]))
        if v.op == "circv":
            return v.args[0]
    return v


def mkset(l):
    """Set term from a sequence term."""
    if l.op == "ite":
        return ite(l.args[0], mkset(l.args[1]), mkset(l.args[2]))
    if l.op != "lst":
        if l.op in ("setof", "setlit"):
            return l
        if l.op == "keys":
            return mk("setof", lst([spread(l)]))
        l = lst([spread(l)])
    if strval(l) is not None:
        return T.setlit([const(ch) for ch in strval(l)])
    segs = {}
    for s in l.args:
        if s.op == "spread" and s.args[0].op in ("setof",):
            for q in s.args[0].args[0].args:
                segs[q.key] = q
            continue
        if s.op == "spread" and s.args[0].op == "setlit":
            for q in s.args[0].args:
                segs[item(q).key] = item(q)
            continue
        if s.op == "spread" and s.args[0].op == "call" and s.args[0].args[0] in ("sorted", "list", "tuple", "reversed") :
            s = spread(s.args[0].args[1][0])
        segs[s.key] = s
    if all(s.op == "item" and is_const(s.args[0]) for s in segs.values()):
        return T.setlit([s.args[0] for s in segs.values()])
    return mk("setof", mk("lst", *sorted(segs.values(), key=lambda s: s.key)))


def set_seq(s):
    """Iteration sequence of a set (order unspecified)."""
    if s.op == "setlit":
        if len(s.args) <= 1:
            return lst([item(e) for e in s.args])
        return lst([item(e) for e in sorted(s.args, key=lambda e: repr(e))])
    return s


def set_op(op, a, b):
    if a.op == "setlit" and b.op == "setlit" and all(is_const(e) for e in a.args + b.args):
        x, y = set(a.args), set(b.args)
        r = {"set|": x | y, "set&": x & y, "set-": x - y, "set^": x ^ y}[op]
        return T.setlit(list(r))
    if a.op == "ite":
        return ite(a.args[0], set_op(op, a.args[1], b), set_op(op, a.args[2], b))
    if b.op == "ite":
        return ite(b.args[0], set_op(op, a, b.args[1]), set_op(op, a, b.args[2]))
    emp = mk("setlit")
    if op == "set|":
        if a == emp:
            return b
        if b == emp:
            return a
        def asl(x):
            if x.op == "setlit":
                return lst([item(e) for e in x.args])
            if x.op == "setof":
                return x.args[0]
            return lst([spread(x)])
        return mkset(concat(asl(a), asl(b)))
    if op in ("set&", "set^"):
        if op == "set&" and (a == emp or b == emp):
            return emp
        if op == "set^" and a == emp:
            return b
        if op == "set^" and b == emp:
            return a
        if op == "set&" and a == b:
            return a
        x, y = sorted((a, b), key=lambda e: e.key)
        return mk("call", op, (x, y), ())
    if op == "set-":
        if a == emp or b == emp:
            return a
        if a == b:
            return emp
    return mk("call", op, (a, b), ())


def reprt(x):
    if T.sort(x) in ("int",):
        return tostr(x)
    return mk("call", "repr", (x,), ())


def mkattr(o, name, typ="?"):
    if o.op == "obj":
        d = dict(o.args[1])
        if name in d:
            return d[name]
    if o.op == "with":
        d = dict(o.args[1])
        return d[name] if name in d else mkattr(o.args[0], name, typ)
    if o.op == "ite" and (o.args[1].op in ("obj", "ite", "with") or o.args[2].op in ("obj", "ite", "with")):
        return ite(o.args[0], mkattr(o.args[1], name, typ), mkattr(o.args[2], name, typ))
    if name in ("real", "imag"):
        r = complex_part(None, o, name)
        if r is not None:
            return r
    return mk("attr", o, name, typ or "?")


def mkfield(v, name, interp):
    ci = None
    if v.op == "obj":
        return dict(v.args[1])[name]
    if v.op == "with" and name in dict(v.args[1]):
        return dict(v.args[1])[name]
    if v.op == "ite":
        return ite(v.args[0], mkfield(v.args[1], name, interp), mkfield(v.args[2], name, interp))
    ci = interp.class_of(v)
    return mkattr(v, name, (ci.field_type(name) if ci else None) or interp.field_hint.get(name, "?"))


Interp.field_hint = {"data": "Dict[DecodingProblemDesc, ShotData]"}


def with_field(o, name, v, ci=None):
    if o.op == "obj":
        d = dict(o.args[1])
        d[name] = v
        return mk("obj", o.args[0], tuple(sorted(d.items())))
    if o.op == "ite":
        return ite(o.args[0], with_field(o.args[1], name, v, ci), with_field(o.args[2], name, v, ci))
    d = dict(o.args[1]) if o.op == "with" else {}
    base = o.args[0] if o.op == "with" else o
    d[name] = v
    if ci is not None and ci.dataclass and set(d) == {f for f, _, _ in ci.fields}:
        return mk("obj", ci.name, tuple(sorted(d.items())))
    return mk("with", base, tuple(sorted(d.items())))


def complex_part(interp, o, name):
    """Real/imaginary part of polynomial terms whose atoms are known to be real."""
    if o.op == "ite":
        a, b = complex_part(interp, o.args[1], name), complex_part(interp, o.args[2], name)
        if a is not None and b is not None:
            return ite(o.args[0], a, b)
        return None
    d = T.pdict(o)
    re, im = {}, {}
    for m, c in d.items():
        cplx = [a for a, e in m if not real_atom(a)]
        hasj = any(a == T.J for a, e in m)
        rest = tuple((a, e) for a, e in m if a != T.J)
        if not cplx:
            (im if hasj else re)[rest] = (im if hasj else re).get(rest, 0) + c
        elif len(cplx) == 1 and dict(m)[cplx[0]] == 1:
            z = cplx[0]
            if z == o:
                return None
            others = tuple((a, e) for a, e in rest if a != z)
            zr, zi = mk("attr", z, "real", "num"), mk("attr", z, "imag", "num")
            for dst, part, sgn in ((re, zi if hasj else zr, -1 if hasj else 1), (im, zr if hasj else zi, 1)):
                mm = T.pdict(mul(T.from_pdict({others: c * sgn}), part))
                for q, k in mm.items():
                    dst[q] = dst.get(q, 0) + k
        else:
            return None
    return T.from_pdict(re if name == "real" else im)


def real_atom(a):
    if a.op == "J":
        return True
    if a.op in ("mod", "fdiv", "bv", "sum", "grp"):
        return True
    if a.op == "sym":
        return a.args[1] in ("int", "float")
    if a.op == "attr":
        return len(a.args) > 2 and a.args[2] in ("int", "float", "num")
    if a.op == "call":
        return a.args[0] in T.INT_CALLS or a.args[0] in ("abs", "min", "max")
    if a.op == "phi":
        return a.args[2] in ("int", "num")
    return T.sort(a) == "int"


def slice_term(o, lo, hi, step):
    lo = None if lo is None or lo == NONE else lo
    hi = None if hi is None or hi == NONE else hi
    step = None if step is None or step == NONE else step
    s = strval(o)
    ints = [None if x is None else intval(x) for x in (lo, hi, step)]
    allc = all(x is None or k is not None for x, k in zip((lo, hi, step), ints))
    if s is not None and allc:
        return const(s[ints[0]:ints[1]:ints[2]])
    if o.op == "lst" and allc and all(q.op == "item" for q in o.args):
        return mk("lst", *o.args[slice(*ints)])
    if o.op == "lst" and allc and ints[2] in (None, 1):
        # trailing/leading literal items
        a = list(o.args)
        l, h = ints[0] or 0, ints[1]
        if l >= 0 and all(q.op == "item" for q in a[:l]) and (h is None or (h < 0 and all(q.op == "item" for q in a[h:]))) and len(a) >= l:
            a = a[l:]
            if h is not None:
                a = a[:h]
            return mk("lst", *a)
        if l < 0 and h is None and all(q.op == "item" for q in a[l:]) and len(a) >= -l:
            return mk("lst", *a[l:])
    if lo is not None and intval(lo) == 0:
        lo = None
    if step is not None and intval(step) == 1:
        step = None
    if lo is None and hi is None and step is None:
        return o
    if o.op == "ite":
        f = lambda x: slice_term(x, lo, hi, step)
        return ite(o.args[0], f(o.args[1]), f(o.args[2]))
    z = lambda x: NONE if x is None else x
    return mk("idx", o, mk("slice", z(lo), z(hi), z(step)))


def list_store(l, k, v):
    n = intval(k)
    if l.op == "lst" and n is not None and all(s.op == "item" for s in l.args) and -len(l.args) <= n < len(l.args):
        a = list(l.args)
        a[n] = item(v)
        return mk("lst", *a)
    if l.op == "lst" and k.op == "slice":
        lo, hi, st = [intval(x) if x != NONE else None for x in k.args]
        if k.args[2] == NONE and (k.args[0] == NONE or lo is not None) and (k.args[1] == NONE or hi is not None):
            a = list(l.args)
            L = len(a)
            if all(s.op == "item" for s in a):
                vv = v.args if v.op == "lst" else [spread(v)]
                a[slice(lo, hi)] = list(vv)
                return lst(a)
            if lo is not None and lo < 0 and hi is None and all(s.op == "item" for s in a[lo:]):
                vv = v.args if v.op == "lst" else [spread(v)]
                a[lo:] = list(vv)
                return lst(a)
    if n is not None and l.op == "lst" and n < 0 and all(s.op == "item" for s in l.args[n:]) and len(l.args) >= -n:
        a = list(l.args)
        a[n] = item(v)
        return mk("lst", *a)
    return mk("call", "setitem", (l, k, v), ())


def repeat_ops(content, n):
    """Op segments of circuit * n."""
    k = intval(n)
    if k == 0:
        return []
    if k == 1:
        return list(content.args)
    if content == EMPTY:
        return []
    return [item(mk("op", const("REPEAT"), n, content))]


def idx_hook(c, i):
    if c.op == "lout":
        r = loop_dict(c)
        if r is not None and i.op == "idx" and i.args[0] == r[0]:
            return subst(r[2], {r[1].key: i.args[1]})
    return None


def rebuild_hook(op, args):
    if op == "call":
        return None
    if op == "setof":
        return mkset(args[0])
    if op == "keys":
        return keys_of(args[0])
    if op == "any":
        if args[2] == FALSE:
            return FALSE
        return None
    if op == "app" and args[0].op == "lam":
        r = apply_lam(args[0], list(args[1]))
        if r is not None and r[1] == EMPTY:
            return r[0]
    if op == "mcall" and args[0] in PURE_STR and strval(args[1]) is not None and not args[3] and all(is_const(a) for a in args[2]):
        try:
            return strconst(getattr(strval(args[1]), args[0])(*[T.pyval(a) for a in args[2]]))
        except (ValueError, TypeError):
            return None
    return None


def strconst(v):
    return T.lst([T.item(strconst(x)) for x in v]) if isinstance(v, (list, tuple)) else const(v)


PURE_STR = {"split", "rsplit", "partition", "rpartition", "splitlines", "lower", "upper", "capitalize", "strip", "lstrip", "rstrip", "startswith", "endswith", "removeprefix", "removesuffix", "replace", "title"}


# ------------------------------------------------------------ pure call simplification

def is_prime(k):
    f = prime_factors(k)
    return f is not None and len(f) == 1 and next(iter(f.values())) == 1


def prime_factors(k):
    """{prime: exponent}, or None when k has a factor too large to find quickly."""
    out = {}
    p = 2
    while p * p <= k and p < 10000:
        while k % p == 0:
            out[p] = out.get(p, 0) + 1
            k //= p
        p += 1
    if k > 1:
        if k >= 10 ** 8:
            return None
        out[k] = out.get(k, 0) + 1
    return out


def simplify_call(name, args, kw):
    if kw == () or not kw:
        if name in ("math.log", "numpy.log") and len(args) == 1:
            k = intval(args[0])
            if k == 1:
                return num(0)
            if k is not None and k > 1 and (k < 4 or not is_prime(k)) and prime_factors(k) is not None:
                fs = prime_factors(k)
                if len(fs) > 1 or next(iter(fs.values())) > 1:
                    return add(*[mul(num(e), mk("call", name, (num(p),), ())) for p, e in sorted(fs.items())])
        if name == "math.factorial" and len(args) == 1 and intval(args[0]) is not None and 0 <= intval(args[0]) < 200:
            import math
            return num(math.factorial(intval(args[0])))
        if name in ("min", "max") and args:
            flat = []
            for a in args:
                if a.op == "call" and a.args[0] == name and not a.args[2]:
                    flat.extend(a.args[1])
                else:
                    flat.append(a)
            if len(args) >= 2 and all(a.op != "argseg" for a in flat):
                consts = [numval(a) for a in flat if numval(a) is not None]
                rest = {a.key: a for a in flat if numval(a) is None}
                out = sorted(rest.values(), key=lambda a: a.key)
                if consts:
                    out.append(num(min(consts) if name == "min" else max(consts)))
                # drop dominated operands differing by a constant
                keep = []
                for a in out:
                    dom = False
                    for b in out:
                        if a is not b:
                            d = numval(sub(a, b)) if T.is_numeric(a) and T.is_numeric(b) else None
                            if d is not None and ((name == "min" and d > 0) or (name == "max" and d < 0)):
                                dom = True
                    if not dom:
                        keep.append(a)
                out = keep
                if len(out) == 1:
                    return out[0]
                return mk("call", name, tuple(out), ())
            if len(args) == 1 and args[0].op == "lst" and args[0].args and all(s.op == "item" for s in args[0].args):
                if len(args[0].args) == 1:
                    return args[0].args[0].args[0]
                return simplify_call(name, tuple(s.args[0] for s in args[0].args), ())
        if name == "$cols" and args[1] == args[2] and numval(args[1]) != 0:
            return mk("call", name, (args[0], num(0), num(0)), ())
        if name == "abs" and len(args) == 1:
            v = numval(args[0])
            if v is not None:
                return num(abs(v))
            if args[0].op == "ite":
                return ite(args[0].args[0], simplify_call("abs", (args[0].args[1],), ()), simplify_call("abs", (args[0].args[2],), ()))
            x, y = args[0], T.neg(args[0])
            return mk("call", "abs", (min(x, y, key=lambda t: t.key),), ())
        if name == "int" and len(args) == 1:
            v = numval(args[0])
            if v is not None:
                return num(int(v))
            if T.is_int(args[0]):
                return args[0]
            if args[0].op == "ite":
                return ite(args[0].args[0], simplify_call("int", (args[0].args[1],), ()), simplify_call("int", (args[0].args[2],), ()))
        if name == "float" and len(args) == 1:
            if T.sort(args[0]) in ("int", "num"):
                return args[0]
            s = strval(args[0])
            if s is not None:
                try:
                    return const(float(s))
                except ValueError:
                    pass
        if name == "bool" and len(args) == 1:
            return truth(args[0])
        if name == "math.floor" and len(args) == 1:
            return floor_term(args[0])
        if name == "math.ceil" and len(args) == 1:
            return T.neg(floor_term(T.neg(args[0])))
        if name == "math.sqrt" and len(args) == 1:
            return T.powt(args[0], num(Fraction(1, 2)))
        if name == "math.pow" and len(args) == 2:
            return T.powt(*args)
        if name == "len" and len(args) == 1:
            return length(args[0])
        if name == "sorted" and len(args) == 1:
            return sorted_term(args[0], None)
        if name in ("set|", "set&", "set-", "set^") and len(args) == 2:
            return set_op(name, *args)
        if name == "join" and len(args) == 2:
            return join_term(*args)
        if name == "strrep" and strval(args[0]) is not None and intval(args[1]) is not None:
            return const(strval(args[0]) * intval(args[1]))
        if name == "sum" and len(args) == 1:
            return sum_term(args[0])
    r = EXTRA_SIMPLIFY.get(name)
    if r is not None:
        v = r(args, kw)
        if v is not None:
            return v
    return mk("call", name, tuple(args), tuple(kw) if kw else ())


EXTRA_SIMPLIFY = {}


def floor_term(t):
    v = numval(t)
    if v is not None:
        return num(v.numerator // v.denominator)
    if T.is_int(t):
        return t
    d = T.pdict(t)
    den = 1
    for c in d.values():
        den = den * c.denominator // T.gcd(den, c.denominator)
    p = T.from_pdict({m: c * den for m, c in d.items()})
    if den > 1 and T.is_int(p):
        return T.floordiv(p, num(den))
    # split off integer part
    whole = {m: c for m, c in d.items() if T._all_int({m: c})}
    rest = {m: c for m, c in d.items() if m not in whole}
    r = T.from_pdict(rest)
    if len(rest) == 1:
        (m, c), = rest.items()
        neg = [(a, -e) for a, e in m if e < 0]
        pos = [(a, e) for a, e in m if e > 0]
        if neg and all(a.op != "grp" for a, e in neg):
            n_ = T.from_pdict({tuple(pos): Fraction(c.numerator)})
            dd = T.from_pdict({tuple(neg): Fraction(c.denominator)})
            if T.is_int(n_) and T.is_int(dd):
                return add(T.from_pdict(whole), mk("fdiv", n_, dd))
    return add(T.from_pdict(whole), mk("call", "math.floor", (r,), ()))


def sorted_term(x, key):
    """sorted(x, key=key): set/list wrappers and double sorting removed."""
    if x.op == "lst" and all(s.op == "item" and is_const(s.args[0]) for s in x.args) and key is None:
        try:
            return lst([item(const(v)) for v in sorted(T.pyval(x))])
        except (TypeError, ValueError):
            pass
    if x.op == "setlit" and key is None:
        try:
            return lst([item(const(v)) for v in sorted(T.pyval(e) for e in x.args)])
        except (TypeError, ValueError):
            pass
    if x.op == "lst" and len(x.args) <= 1 and all(s.op == "item" for s in x.args):
        return x
    if x.op == "call" and x.args[0] in ("sorted",) and len(x.args[1]) == 1 and key is None:
        x = x.args[1][0]
    if x.op == "lst" and len(x.args) == 2 and all(s.op == "item" for s in x.args) and key is not None and key.op == "lam" \
            and len(key.args[0]) == 1 and key.args[2] == EMPTY:
        a, b = (s.args[0] for s in x.args)
        ka, kb = (subst(key.args[1], {key.args[0][0].key: v}) for v in (a, b))
        if ka.op == "lst" and kb.op == "lst" and all(s.op == "item" for s in ka.args + kb.args) and len(ka.args) == len(kb.args):
            c = lex_cmp("Lt", [s.args[0] for s in kb.args], [s.args[0] for s in ka.args])
            return lst([item(ite(c, b, a)), item(ite(c, a, b))])
    if x.op == "lst" and len(x.args) == 1 and x.args[0].op == "spread":
        x = x.args[0].args[0]
    if x.op == "ite":
        return ite(x.args[0], sorted_term(x.args[1], key), sorted_term(x.args[2], key))
    return mk("call", "sorted", (x,) if key is None else (x, key), ())


def join_term(sep, l):
    if strval(sep) is not None and l.op == "lst":
        if all(s.op == "item" for s in l.args):
            parts = []
            for j, s in enumerate(l.args):
                if j:
                    parts.append(sep)
                parts.append(s.args[0])
            return strcat(*parts)
        if strval(sep) == "" and any(s.op == "item" for s in l.args):
            return strcat(*[s.args[0] if s.op == "item" else mk("call", "join", (sep, lst([s])), ()) for s in l.args])
    return mk("call", "join", (sep, l), ())


def sum_term(l):
    if l.op == "lst":
        tot = num(0)
        for s in l.args:
            if s.op == "item":
                tot = add(tot, numeric(s.args[0]))
            elif s.op == "cseg":
                tot = add(tot, ite(s.args[0], sum_term(s.args[1]), sum_term(s.args[2])))
            elif s.op == "rep":
                tot = add(tot, T.sumt(s.args[0], s.args[1], sum_term(s.args[2])))
            else:
                b = fresh_bv()
                tot = add(tot, T.sumt(length(s.args[0]), b, idx(s.args[0], b)))
        return tot
    if l.op == "ite":
        return ite(l.args[0], sum_term(l.args[1]), sum_term(l.args[2]))
    b = fresh_bv()
    return T.sumt(length(l), b, idx(l, b))
