"""Value-dependence graph (gated SSA) construction.

A whole-program, call-inlining translation of the analysed Python source into a
hash-consed graph of values: constants, entry values of parameters and fields,
operators, min/max, gated merges (phi), loop-carried values (mu), aggregate
operations and uninterpreted library calls.  Control flow is merged at joins
(no path enumeration), loops are closed by a fixpoint on the set of loop-carried
locations, and no solver is involved: the rules in rules/*.py are dataflow
evaluations over this graph.
"""
from __future__ import annotations
from fractions import Fraction
import ast, itertools, sys, math
from .program import Program, Func, Cls, Module, AnalysisBroken

sys.setrecursionlimit(20000)


class Dead(Exception):
    """The current abstract state is unreachable (callee always raises)."""


# --------------------------------------------------------------------------
# nodes
# --------------------------------------------------------------------------
class Node:
    __slots__ = ("op", "args", "attr", "id", "meta")

    def __init__(self, op, args, attr, id):
        self.op, self.args, self.attr, self.id = op, args, attr, id
        self.meta = None

    def __repr__(self):
        return show(self, 4)


def show(n, depth=5):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == "const":
        return repr(n.attr)
    if n.op == "src":
        return str(n.attr)
    if n.op in ("obj", "func", "class", "module", "ext"):
        return f"<{n.op} {n.attr}>"
    if depth <= 0:
        return "…"
    a = [show(x, depth - 1) for x in n.args]
    if n.op == "bin":
        return f"({a[0]} {n.attr} {a[1]})"
    if n.op == "cmp":
        return f"({a[0]} {n.attr} {a[1]})"
    if n.op == "phi":
        return f"[{a[0]} ? {a[1]} : {a[2]}]"
    if n.op == "idx":
        return f"{a[0]}[{a[1]}]"
    if n.op == "mu":
        return f"mu{n.attr}"
    name = n.attr if n.op in ("call", "agg", "un") else n.op
    return f"{name}({', '.join(a)})"


class Graph:
    def __init__(self):
        self.table = {}
        self.count = itertools.count()
        self.mu_def: dict[Node, tuple] = {}
        self.log: list = []        # calls and subscripts in evaluation order (what a try block may trip over)
        self.loops: dict = {}      # loop id -> iterable / test / early exits

    def mk(self, op, args=(), attr=None):
        key = (op, tuple(a.id for a in args), (type(attr).__name__, attr) if op == "const" else attr)
        n = self.table.get(key)
        if n is None:
            n = Node(op, tuple(args), attr, next(self.count))
            self.table[key] = n
        if op == "call" or op == "idx":
            self.log.append(n)
        return n

    # constants -------------------------------------------------------------
    def const(self, v):
        if isinstance(v, float) and not isinstance(v, bool) and v == v and abs(v) != float("inf") and v == int(v) and abs(v) < 1e15:
            v = int(v)        # 60.0 and 60 are the same number
        return self.mk("const", (), v)

    def src(self, label):
        return self.mk("src", (), label)

    # boolean ---------------------------------------------------------------
    def not_(self, a):
        if a.op == "const":
            return self.const(not a.attr)
        if a.op == "not":
            return a.args[0]
        return self.mk("not", (a,))

    def isbool(self, n):
        if n.op in ("cmp", "not", "in", "isnone", "isinst", "and", "or", "raised", "raised_late", "hasattr"):
            return True
        if n.op == "const":
            return isinstance(n.attr, bool)
        if n.op == "agg":
            return n.attr in ("any", "all")
        if n.op == "phi":
            return self.isbool(n.args[1]) and self.isbool(n.args[2])
        return False

    def and_(self, xs):
        out = []
        for x in xs:
            if x.op == "const":
                if not x.attr:
                    return self.const(False)
                continue
            if x.op == "and":
                out.extend(x.args)
            else:
                out.append(x)
        ids, res = set(), []
        for x in out:
            if x.id not in ids:
                ids.add(x.id); res.append(x)
        for x in res:
            if self.not_(x).id in ids:
                return self.const(False)
        if not res:
            return self.const(True)
        if len(res) == 1:
            return res[0]
        return self.mk("and", tuple(sorted(res, key=lambda n: n.id)))

    def or_(self, xs):
        return self.not_(self.and_([self.not_(x) for x in xs])) if not all(x.op != "const" for x in xs) else self._or(xs)

    def _or(self, xs):
        out = []
        for x in xs:
            if x.op == "or":
                out.extend(x.args)
            else:
                out.append(x)
        ids, res = set(), []
        for x in out:
            if x.id not in ids:
                ids.add(x.id); res.append(x)
        for x in res:
            if self.not_(x).id in ids:
                return self.const(True)
        if len(res) == 1:
            return res[0]
        return self.mk("or", tuple(sorted(res, key=lambda n: n.id)))

    def phi(self, c, a, b):
        if c.op == "const":
            return a if c.attr else b
        if a is b:
            return a
        if c.op == "not":
            return self.phi(c.args[0], b, a)
        if a.op == "phi" and a.args[0] is c:
            a = a.args[1]
        if b.op == "phi" and b.args[0] is c:
            b = b.args[2]
        if a is b:
            return a
        if a.op == "const" and b.op == "const" and isinstance(a.attr, bool) and isinstance(b.attr, bool):
            return c if a.attr else self.not_(c)
        if self.isbool(c):
            if a.op == "const" and a.attr is True and self.isbool(b):
                return self.or_([c, b])
            if b.op == "const" and b.attr is False and self.isbool(a):
                return self.and_([c, a])
            if a.op == "const" and a.attr is False and self.isbool(b):
                return self.and_([self.not_(c), b])
            if b.op == "const" and b.attr is True and self.isbool(a):
                return self.or_([self.not_(c), a])
        # min/max idioms written as conditionals
        if c.op == "cmp" and c.attr == "<":
            x, y = c.args
            if a is x and b is y:
                return self.minmax("min", [x, y])
            if a is y and b is x:
                return self.minmax("max", [x, y])
        return self.mk("phi", (c, a, b))

    def cmp(self, op, a, b):
        if op == ">":
            return self.cmp("<", b, a)
        if op == ">=":
            return self.not_(self.cmp("<", a, b))
        if op == "<=":
            return self.not_(self.cmp("<", b, a))
        if op == "!=":
            return self.not_(self.cmp("==", a, b))
        if a.op == "const" and b.op == "const":
            try:
                return self.const(a.attr < b.attr if op == "<" else a.attr == b.attr)
            except TypeError:
                pass
        if a is b:
            return self.const(op == "==")
        if op == "==":
            for x, y in ((a, b), (b, a)):
                if y.op == "const" and x.op == "phi" and (x.args[1].op == "const" or x.args[2].op == "const"):
                    return self.phi(x.args[0], self.cmp("==", x.args[1], y), self.cmp("==", x.args[2], y))
            if a.id > b.id:
                a, b = b, a
        return self.mk("cmp", (a, b), op)

    def isnone(self, a):
        if a.op == "const":
            return self.const(a.attr is None)
        if a.op in ("obj", "tuple", "func", "class", "module", "ext", "bound", "bin", "cmp", "min", "max",
                    "comp", "not", "and", "or", "fmt", "un", "in", "list") or (a.op == "agg"):
            return self.const(False)
        if a.op == "phi":
            return self.phi(a.args[0], self.isnone(a.args[1]), self.isnone(a.args[2]))
        return self.mk("isnone", (a,))

    # arithmetic --------------------------------------------------------------
    def bin(self, op, a, b):
        if a.op == "const" and b.op == "const":
            x, y = a.attr, b.attr
            try:
                v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                     "//": lambda: x // y, "%": lambda: x % y, "**": lambda: x ** y}[op]()
                if isinstance(v, float) and op in "+-*/":
                    # constants are exact: a rounded result stays an expression
                    p, q = (Fraction(str(z)) for z in (x, y))
                    if Fraction(str(v)) != {"+": p + q, "-": p - q, "*": p * q, "/": p / q if q else None}[op]:
                        return self.mk("bin", (a, b), op)
                if isinstance(v, (int, float, str)):
                    return self.const(v)
            except Exception:
                pass
        num = lambda n, v: n.op == "const" and not isinstance(n.attr, (str, bool)) and n.attr == v
        if op == "+":
            if num(a, 0): return b
            if num(b, 0): return a
        elif op == "-":
            if num(b, 0): return a
        elif op == "*":
            if num(a, 1): return b
            if num(b, 1): return a
        elif op == "/":
            if num(b, 1): return a
        if op in ("+", "*") and a.id > b.id:
            if not (a.op in ("tuple", "fmt") or b.op in ("tuple", "fmt")):
                a, b = b, a
        return self.mk("bin", (a, b), op)

    def neg(self, a):
        if a.op == "const" and isinstance(a.attr, (int, float)):
            return self.const(-a.attr)
        if a.op == "un" and a.attr == "-":
            return a.args[0]
        return self.mk("un", (a,), "-")

    def minmax(self, op, xs):
        out = []
        for x in xs:
            if x.op == op:
                out.extend(x.args)
            else:
                out.append(x)
        ids, res, consts = set(), [], []
        for x in out:
            if x.op == "const" and isinstance(x.attr, (int, float)):
                consts.append(x.attr); continue
            if x.id not in ids:
                ids.add(x.id); res.append(x)
        if consts:
            res.append(self.const(min(consts) if op == "min" else max(consts)))
        if len(res) == 1:
            return res[0]
        return self.mk(op, tuple(sorted(res, key=lambda n: n.id)))


# --------------------------------------------------------------------------
# heap objects
# --------------------------------------------------------------------------
class HObj:
    """Identity of an abstract object; mutable contents live in State.heap."""

    def __init__(self, oid, kind, cls=None, path=None, symbolic=False, elem_type=None, node=None):
        self.oid, self.kind, self.cls = oid, kind, cls
        self.path = path or f"new#{oid}"
        self.symbolic = symbolic
        self.elem_type = elem_type
        self.init: dict = {}      # entry values of symbolic objects, created lazily
        self.node = node
        self.alloc_site = None
        self.nloops = 0
        self.anchor = None


class State:
    __slots__ = ("env", "heap", "facts", "pc", "hv")
    _v = itertools.count(1)

    def __init__(self):
        self.env, self.heap, self.facts, self.pc, self.hv = {}, {}, {}, (), 0

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.heap = dict(self.heap); s.facts = dict(self.facts)
        s.pc = self.pc; s.hv = self.hv
        return s

    def touch(self):
        self.hv = next(State._v)


class Exit:
    __slots__ = ("kind", "val", "st", "where")

    def __init__(self, kind, val, st, where=None):
        self.kind, self.val, self.st, self.where = kind, val, st, where


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitAnd: "&", ast.BitOr: "|", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>", ast.BitXor: "^"}
CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
UNROLL = 13
MUTATORS = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "setdefault", "add", "discard", "popitem"}
EXC_PARENTS = {"ValueError": {"Exception"}, "RuntimeError": {"Exception"}, "KeyError": {"Exception", "LookupError"},
               "TypeError": {"Exception"}, "IndexError": {"Exception", "LookupError"}, "ZeroDivisionError": {"Exception", "ArithmeticError"},
               "ImportError": {"Exception"}, "FileNotFoundError": {"Exception", "OSError"}, "NotImplementedError": {"Exception", "RuntimeError"}}


class Loops(list):
    """loops entered in one call; `parent` those of the caller, `callpc` the path condition of the call there"""
    def __init__(self, parent=None, callpc=()):
        super().__init__()
        self.parent, self.callpc = parent, callpc

    def chain(self):
        return (self.parent.chain() if self.parent is not None else []) + list(self)


class Interp:
    """Inlining translator.  cfg keys:
       types:   {'Class.field' | 'param:name': type-string}   overrides for symbolic values
       opaque:  set of 'Class' or 'Class.method' / function names left uninterpreted
       assume:  callable(interp) -> None, may preload facts
    type strings:  'Class', 'list:Class', 'dict:Class', 'scalar', 'none', 'const:<py literal>'
    """

    def __init__(self, prog: Program, graph: Graph | None = None, types=None, opaque=(), max_depth=60, param_types=None,
                 keep_events=True):
        self.prog = prog
        self.g = graph or Graph()
        self.types = types or {}
        self.opaque = set(opaque)
        self.param_types = dict(DEFAULT_PARAM_TYPES)
        self.param_types.update(param_types or {})
        self.objs: dict[int, HObj] = {}
        self.oidc = itertools.count(1)
        self.raises: list[Exit] = []
        self.frames = []
        self.loops = Loops()
        self.max_depth = max_depth
        self.uid = itertools.count(1)
        self.events = []
        self.keep_events = keep_events
        self.module_vals = {}
        self.funcs_seen = set()
        self.calls_seen = 0
        self.memo = {}
        self.field_types = {}
        self.call_stack = []
        self.funcs = {}
        self.summ_used = set()
        self.pseudos = {}
        self.stmt_call = None
        self.special = False           # a special case (something is None): uses of None end the execution
        self.lists_read = set()        # fields read that hold lists of objects: (class, field, element class)
        self.optional = set()          # object-valued fields read that may also be None, as 'Class.field'
        self.classes_asked = set()     # classes of symbolic arguments and fields whose exact class was asked

    def crash(self, st, on, node):
        if self.special and on.op == "const" and on.attr is None:
            self.raises.append(Exit("raise", self.g.mk("ext", (), "crash"), st.copy(), self.where(node)))
            raise Dead()

    # ------------------------------------------------------------------ objs
    def new_obj(self, kind, cls=None, path=None, symbolic=False, elem_type=None):
        o = HObj(next(self.oidc), kind, cls, path, symbolic, elem_type)
        self.objs[o.oid] = o
        o.node = self.g.mk("obj", (), o.oid)
        o.nloops = len(self.loops.chain()) if not symbolic else 0
        return o

    def obj(self, n: Node) -> HObj:
        return self.objs[n.attr]

    def symbolic(self, typ, path):
        """Build a symbolic entry value of the given type string."""
        if typ in (None, "scalar"):
            return self.g.src(path)
        if typ == "none":
            return self.g.const(None)
        if typ.startswith("const:"):
            return self.g.const(ast.literal_eval(typ[6:]))
        if typ.startswith("list:"):
            o = self.new_obj("list", None, path, True, typ[5:])
            return o.node
        if typ.startswith("one:"):     # list of exactly one object of that class
            inner = self.symbolic(typ[4:], path + "[0]")
            o = self.new_obj("list", None, path, False)
            self.root_heap_init(o, {"items": self.g.mk("tuple", (inner,))})
            return o.node
        if typ == "empty":
            o = self.new_obj("list", None, path, False)
            self.root_heap_init(o, {"items": self.g.mk("tuple", ())})
            return o.node
        if typ.startswith("n2:"):      # list of exactly two objects of that class
            inner = [self.symbolic(typ[3:], f"{path}[{i}]") for i in range(2)]
            o = self.new_obj("list", None, path, False)
            self.root_heap_init(o, {"items": self.g.mk("tuple", tuple(inner))})
            return o.node
        if typ.startswith("dict:"):
            o = self.new_obj("dict", None, path, True, typ[5:])
            return o.node
        c = self.prog.classes.get(typ)
        if c is None:
            raise AnalysisBroken(f"class {typ} needed by the analysis is missing")
        o = self.new_obj("inst", c, path, True)
        return o.node

    def root_heap_init(self, o, fields):
        o.init.update(fields)

    # field types inferred from annotations of __init__ parameters -----------
    def infer_field_type(self, cls: Cls, field):
        key = (cls, field)
        if key in self.field_types:
            return self.field_types[key]
        res = None
        for c in cls.mro():
            ov = self.types.get(f"{c.name}.{field}")
            if ov:
                res = ov
                break
        if res is None:
            for c in cls.mro():
                ini = c.methods.get("__init__")
                if ini is None:
                    continue
                ann = {a.arg: a.annotation for a in ini.node.args.args + ini.node.args.kwonlyargs}
                for n in ast.walk(ini.node):
                    tgt = val = an = None
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    elif isinstance(n, ast.AnnAssign):
                        tgt, val, an = n.target, n.value, n.annotation
                    if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self" and tgt.attr == field:
                        if an is None and isinstance(val, ast.Name):
                            an = ann.get(val.id)
                        res = self.type_from_ann(an, c.module)
                        if res is None and isinstance(val, ast.Name):
                            res = self.param_types.get(val.id)
                        break
                if res:
                    break
        self.field_types[key] = res
        return res

    def _inits(self, c, field):
        ini = c.methods.get("__init__")
        return ini is not None and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == field for n in ast.walk(ini.node))

    def optional_field(self, cls, field):
        """'Class.field' when the field is declared to hold an object or None"""
        for c in cls.mro():
            ini = c.methods.get("__init__")
            if ini is None:
                continue
            ann = {a.arg: a.annotation for a in ini.node.args.args + ini.node.args.kwonlyargs}
            for n in ast.walk(ini.node):
                tgt = val = an = None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tgt, val = n.targets[0], n.value
                elif isinstance(n, ast.AnnAssign):
                    tgt, val, an = n.target, n.value, n.annotation
                if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self" and tgt.attr == field:
                    if an is None and isinstance(val, ast.Name):
                        an = ann.get(val.id)
                    return f"{c.name}.{field}" if may_be_none(an) else None
        return None

    def type_from_ann(self, an, module):
        if an is None:
            return None
        if isinstance(an, ast.Constant) and isinstance(an.value, str):
            try:
                an = ast.parse(an.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(an, ast.BinOp) and isinstance(an.op, ast.BitOr):
            return self.type_from_ann(an.left, module) or self.type_from_ann(an.right, module)
        if isinstance(an, ast.Name):
            if an.id in self.prog.classes:
                c = self.prog.classes[an.id]
                return self.types.get(f"class:{an.id}", c.name)
            return None
        if isinstance(an, ast.Attribute):
            return an.attr if an.attr in self.prog.classes else None
        if isinstance(an, ast.Subscript):
            base = an.value.id if isinstance(an.value, ast.Name) else getattr(an.value, "attr", "")
            if base in ("list", "List", "Sequence", "tuple", "Iterable"):
                t = self.type_from_ann(an.slice, module)
                return f"list:{t}" if t and ":" not in t else None
            if base in ("dict", "Dict", "Mapping") and isinstance(an.slice, ast.Tuple) and len(an.slice.elts) == 2:
                t = self.type_from_ann(an.slice.elts[1], module)
                return f"dict:{t}" if t and ":" not in t else None
            if base in ("Optional",):
                return self.type_from_ann(an.slice, module)
        return None

    # ------------------------------------------------------------------ heap
    def rd(self, st, o: HObj, f):
        h = st.heap.get(o.oid)
        if h is not None and f in h:
            return h[f]
        if f in o.init:
            return o.init[f]
        return None

    def wr(self, st, o: HObj, f, v):
        old = self.rd(st, o, f)
        if old is v:
            return
        h = dict(st.heap.get(o.oid, ()))
        h[f] = v
        st.heap[o.oid] = h
        st.touch()

    def field(self, st, on: Node, name, node=None):
        """attribute read on an abstract value"""
        g = self.g
        on = self.refine(st, on)
        if on.op == "phi":
            leaves = self._obj_leaves(on)
            if any(l.op == "obj" for l in leaves):
                return self.split(st, on, lambda s, v: self.field(s, v, name, node))
        if on.op == "obj":
            o = self.obj(on)
            if o.kind == "inst":
                v = self.rd(st, o, name)
                if v is not None:
                    return v
                m = self.find(o.cls, name)
                if m is not None:
                    if m.kind == "property":
                        return self.call_func(st, m, [on], {}, node)
                    return self.bound(on, m)
                cc = self.find_const(o.cls, name)
                if cc is not None:
                    return self.eval_in_module(cc[1], cc[0].module)
                if o.symbolic:
                    t = self.infer_field_type(o.cls, name)
                    if t is not None and t.startswith("list:"):
                        self.lists_read.add((next((c.name for c in reversed(o.cls.mro()) if self._inits(c, name)), o.cls.name), name, t[5:]))
                    if t not in (None, "scalar", "none"):
                        k = self.optional_field(o.cls, name)
                        if k:
                            self.optional.add(k)
                    v = self.symbolic(t, f"{o.path}.{name}")
                    o.init[name] = v
                    return v
                return g.src(f"{o.path if o.symbolic or o.cls is None else 'fresh:' + o.cls.name}.{name}?undef")
            return g.mk("bmeth", (on,), name)
        if on.op == "class":
            c = self.clsof(on)
            m = self.find(c, name)
            if m is not None:
                if m.kind == "classmethod":
                    return self.bound(on, m)
                return self.funcnode(m)
            cc = self.find_const(c, name)
            if cc is not None:
                return self.eval_in_module(cc[1], cc[0].module)
            return g.src(f"{c.name}.{name}")
        if on.op == "module":
            r = self.prog.lookup(self.prog.modules[on.attr], name)
            if r:
                return self.from_lookup(r)
            return g.mk("ext", (), f"{on.attr}.{name}")
        if on.op == "ext":
            return g.mk("ext", (), f"{on.attr}.{name}")
        if on.op == "super":
            cls, selfn = on.attr, on.args[0]
            start = self.clsof_name(cls)
            rc = self.obj(selfn).cls if selfn.op == "obj" else self.clsof(selfn)
            m = self.find(rc, name, after=start)
            if m is None:
                return g.mk("ext", (), f"object.{name}")
            if m.kind == "property":
                return self.call_func(st, m, [selfn], {}, node)
            if m.kind == "staticmethod":
                return self.funcnode(m)
            return self.bound(selfn, m)
        if on.op == "func":
            k = f"@{self.funcs[on.attr].name}.{name}"
            return st.env[k] if k in st.env else g.mk("fattr", (), k[1:])
        self.crash(st, on, node)
        return g.mk("attr", (on,), name)

    def _obj_leaves(self, n, lim=50):
        out, stack = [], [n]
        while stack and len(out) < lim:
            x = stack.pop()
            if x.op == "phi":
                stack += [x.args[1], x.args[2]]
            else:
                out.append(x)
        return out

    def split(self, st, phi, fn):
        """evaluate fn separately for both sides of a phi and merge"""
        c = phi.args[0]
        s1, s2 = st.copy(), st.copy()
        self.assume(s1, c, True); self.assume(s2, c, False)
        v1 = v2 = None
        try:
            v1 = fn(s1, phi.args[1])
        except Dead:
            s1 = None
        try:
            v2 = fn(s2, phi.args[2])
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        self.merge_into(st, c, s1, s2)
        if s1 is None:
            return v2
        if s2 is None:
            return v1
        return self.g.phi(c, v1, v2)

    def merge_into(self, st, c, s1, s2):
        pc = st.pc
        m = self.merge(c, s1, s2)
        st.env, st.heap, st.facts, st.hv = m.env, m.heap, m.facts, m.hv
        st.pc = pc if (s1 is not None and s2 is not None) else m.pc

    def merge(self, c, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        g = self.g
        r = State()
        r.env = {}
        for k in s1.env.keys() | s2.env.keys():
            a, b = s1.env.get(k), s2.env.get(k)
            if a is b:
                r.env[k] = a
            else:
                und = g.src("?undef")
                r.env[k] = g.phi(c, a if a is not None else und, b if b is not None else und)
        if s1.hv == s2.hv:
            r.heap = s1.heap
            r.hv = s1.hv
        else:
            r.heap = {}
            for oid in s1.heap.keys() | s2.heap.keys():
                h1, h2 = s1.heap.get(oid), s2.heap.get(oid)
                if h1 is h2:
                    r.heap[oid] = h1
                    continue
                if h1 is None and not self.objs[oid].symbolic and not self.objs[oid].init:
                    r.heap[oid] = h2; continue
                if h2 is None and not self.objs[oid].symbolic and not self.objs[oid].init:
                    r.heap[oid] = h1; continue
                o = self.objs[oid]
                nh = {}
                for f in (h1 or {}).keys() | (h2 or {}).keys():
                    a = (h1 or {}).get(f)
                    b = (h2 or {}).get(f)
                    if a is None:
                        a = self.missing(s1, o, f)
                    if b is None:
                        b = self.missing(s2, o, f)
                    nh[f] = g.phi(c, a, b)
                r.heap[oid] = nh
            r.touch()
        r.facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) is v}
        # common pc prefix
        n = 0
        for x, y in zip(s1.pc, s2.pc):
            if x == y:
                n += 1
            else:
                break
        r.pc = s1.pc[:n]
        return r

    def entry_value(self, o, f):
        if f in o.init:
            return o.init[f]
        if o.symbolic and o.kind == "inst":
            if isinstance(f, str):
                v = self.symbolic(self.infer_field_type(o.cls, f), f"{o.path}.{f}")
                o.init[f] = v
                return v
        if o.symbolic and o.kind == "dict":
            v = self.symbolic(o.elem_type, f"{o.path}[{f!r}]")
            o.init[f] = v
            return v
        if o.kind == "dict":
            return self.g.src("?absent")
        if o.symbolic and o.kind == "list":
            v = o.node if f == "items" else self.symbolic(o.elem_type, f"{o.path}[{f}]")
            o.init[f] = v
            return v
        return self.g.src("?undef")

    # ------------------------------------------------------------------ facts
    def assume(self, st, c, val):
        if c.op == "not":
            return self.assume(st, c.args[0], not val)
        if c.op == "const":
            return
        st.facts[c] = val
        if c.op == "and" and val:
            for x in c.args:
                self.assume(st, x, True)
        elif c.op == "or" and not val:
            for x in c.args:
                self.assume(st, x, False)
        elif c.op == "cmp" and c.attr == "<" and val:
            st.facts[self.g.cmp("<", c.args[1], c.args[0])] = False
            st.facts[self.g.cmp("==", c.args[0], c.args[1])] = False
        elif c.op == "cmp" and c.attr == "==" and val:
            # equality with one string constant excludes every other constant: handled in truth()
            pass

    def truth(self, st, n):
        if n.op == "const":
            return bool(n.attr) if n.attr is not Ellipsis else True
        f = st.facts.get(n)
        if f is not None:
            return f
        op = n.op
        if op == "not":
            t = self.truth(st, n.args[0])
            return None if t is None else not t
        if op == "and":
            ts = [self.truth(st, x) for x in n.args]
            if any(t is False for t in ts): return False
            if all(t is True for t in ts): return True
            return None
        if op == "or":
            ts = [self.truth(st, x) for x in n.args]
            if any(t is True for t in ts): return True
            if all(t is False for t in ts): return False
            return None
        if op == "phi":
            t = self.truth(st, n.args[0])
            if t is not None:
                return self.truth(st, n.args[1] if t else n.args[2])
            a, b = self.truth(st, n.args[1]), self.truth(st, n.args[2])
            return a if a is not None and a == b else None
        if op in ("func", "class", "module", "ext", "bound"):
            return True
        if op == "tuple":
            return len(n.args) > 0
        if op == "obj":
            o = self.obj(n)
            if o.kind == "inst":
                return True
            if o.kind == "list":
                it = self.rd(st, o, "items")
                if it is not None and it.op == "tuple":
                    return len(it.args) > 0
                return None
            if o.kind == "dict":
                h = st.heap.get(o.oid) or {}
                if any(isinstance(k, tuple) and k[0] == "k" and v.op != "phi" and not (v.op == "src" and v.attr == "?absent") for k, v in h.items()):
                    return True
                if not o.symbolic and not h:
                    return False
            return None
        if op == "cmp" and n.attr == "==":
            a, b = n.args
            for x, y in ((a, b), (b, a)):
                if y.op == "const":
                    for k, v in st.facts.items():
                        if v is True and k.op == "cmp" and k.attr == "==" and x in k.args:
                            oth = k.args[0] if k.args[1] is x else k.args[1]
                            if oth.op == "const" and oth.attr != y.attr:
                                return False
        return None

    def refine(self, st, n):
        while n.op == "phi":
            t = self.truth(st, n.args[0])
            if t is None:
                # drop an undefined/None-valued side never helps; keep
                return n
            n = n.args[1] if t else n.args[2]
        return n

    # ------------------------------------------------------------------ names
    def funcnode(self, f: Func):
        k = f"{f.qual}@{f.module.name}:{f.node.lineno}:{f.node.col_offset}" + (f"#{id(f.closure)}" if f.closure else "")
        self.funcs[k] = f
        return self.g.mk("func", (), k)

    def bound(self, selfn, f: Func):
        fn = self.funcnode(f)
        if f.kind == "staticmethod":
            return fn
        if f.kind == "classmethod" and selfn.op == "obj":
            selfn = self.clsnode(self.obj(selfn).cls)
        return self.g.mk("bound", (selfn, fn))

    def clsnode(self, c: Cls):
        return self.g.mk("class", (), f"{c.module.name}:{c.name}")

    def clsof(self, n) -> Cls:
        return self.clsof_name(n.attr)

    def clsof_name(self, s) -> Cls:
        m, c = s.split(":")
        return self.prog.modules[m].classes[c]

    def from_lookup(self, r):
        k = r[0]
        if k == "class":
            return self.clsnode(r[1])
        if k == "func":
            return self.funcnode(r[1])
        if k == "module":
            return self.g.mk("module", (), r[1].name)
        if k == "ext":
            return self.g.mk("ext", (), r[1])
        if k == "var":
            return self.module_var(r[1], r[2])

    def module_var(self, m: Module, name):
        key = (m.name, name)
        if key in self.module_vals:
            return self.module_vals[key]
        self.module_vals[key] = self.g.src(f"var:{name}")   # recursion guard
        vals = m.assigns[name]
        mutated = self._module_mutates(m, name)
        if len(vals) == 1 and not mutated:
            v = self.eval_in_module(vals[0], m)
        else:
            cv = const_module_var(m, name)
            if cv is not None:
                v = self.lift(cv)
            else:
                v = self.g.src(f"var:{name}")
        self.module_vals[key] = v
        return v

    def _module_mutates(self, m, name):
        """module-level statements (loops) that build the variable up"""
        for st in m.tree.body:
            if isinstance(st, (ast.For, ast.While, ast.If, ast.AugAssign)) or (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)):
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and n.id == name:
                        return True
        return False

    def lift(self, v):
        if isinstance(v, (list, tuple)):
            return self.g.mk("tuple", tuple(self.lift(x) for x in v))
        return self.g.const(v)

    def eval_in_module(self, expr, module):
        st = State()
        fr = self.frames
        self.frames = [Frame(None, module)]
        try:
            v = self.ev(expr, st)
        finally:
            self.frames = fr
        if v.op == "obj":
            # module-level constants are immutable values for the analysis
            o = self.obj(v)
            for f, x in (st.heap.get(o.oid) or {}).items():
                o.init[f] = x
            if o.kind == "list":
                it = o.init.get("items")
                if it is not None:
                    return it
        return v

    def name(self, st, id_, node):
        if id_ in st.env:
            return self.refine(st, st.env[id_])
        fr = self.frames[-1]
        cl = fr.closure
        if cl is not None and id_ in cl:
            return cl[id_]
        if id_ in fr.local_imports:
            return self.from_lookup(self.prog.resolve_import(fr.local_imports[id_]))
        r = self.prog.lookup(fr.module, id_)
        if r is not None:
            return self.from_lookup(r)
        if getattr(fr.module, "is_spec", False):
            r = self.prog.spec_lookup(id_)
            if r is not None:
                return self.from_lookup(r)
        if id_ in ("True", "False", "None"):
            return self.g.const({"True": True, "False": False, "None": None}[id_])
        return self.g.mk("ext", (), f"builtins.{id_}")

    # specification frames see the specification's version of a member, analysed frames only their own
    def find(self, cls, name, after=None):
        if self.frames and getattr(self.frames[-1].module, "is_spec", False):
            m = cls.mro()
            if after is not None:
                m = m[m.index(after) + 1:] if after in m else []
            for c in m:
                f = self.prog.spec_over.get((c.name, name)) or c.methods.get(name)
                if f is not None:
                    return f
            return None
        return cls.find(name, after)

    def find_const(self, cls, name):
        if self.frames and getattr(self.frames[-1].module, "is_spec", False):
            for c in cls.mro():
                e = self.prog.spec_consts.get((c.name, name))
                if e is not None:
                    class _M: pass
                    x = _M(); x.module = e[1]
                    return x, e[0]
        return cls.find_const(name)

    # ------------------------------------------------------------------ calls
    def call_func(self, st, f: Func, args, kwargs, node, starkw=None):
        """inline a function of the analysed program"""
        g = self.g
        qn = f.qual
        opq = (qn in self.opaque or f.name in self.opaque or (f.cls is not None and f.cls.name in self.opaque)
               or (f.cls is not None and any(f"{c.name}.{f.name}" in self.opaque or c.name in self.opaque for c in f.cls.mro())))
        self.calls_seen += 1
        if self.keep_events:
            self.events.append(("call", qn, tuple(args), dict(kwargs), self.where(node), st.copy() if qn in self.watch else None))
        # annotated-but-empty methods of abstract classes stay uninterpreted
        if not opq and f.cls is not None and (f.name in f.cls.abstract or (self.call_stack and _is_stub(f.node))):
            opq = True
        if not opq and (len(self.call_stack) >= self.max_depth or self.call_stack.count(f) >= 2):
            opq = True
        if opq:
            b = self.bind(f, args, kwargs, st, starkw)
            names = [a.arg for a in f.node.args.args]
            vals = [b.get(nm, g.const(None)) for nm in names]
            vals = [self.snap(st, v) for v in vals]
            return g.mk("call", tuple(vals), qn)
        if self.vocab and self.call_stack and starkw is None:
            r = self.summarised(st, f, args, kwargs, node)
            if r is not None:
                return r
        key = None
        if starkw is None:
            key = (f, tuple(args), tuple(sorted((k, v.id) for k, v in kwargs.items())), st.hv,
                   frozenset(st.facts.items()))
            hit = self.memo.get(key)
            if hit is not None:
                g.log.extend(hit[1])
                return hit[0]
        self.funcs_seen.add(f)
        b = self.bind(f, args, kwargs, st, starkw)
        b0 = dict(b)
        saved_env, saved_pc = st.env, st.pc
        hv0, nr0, no0 = st.hv, len(self.raises), len(self.objs)
        lg0 = len(g.log)
        fr = Frame(f, f.module)
        fr.closure = f.closure
        if isinstance(f.node, ast.FunctionDef):
            for n in ast.walk(f.node):
                if isinstance(n, ast.ImportFrom):
                    base = self.prog._abs(f.module, f.module.path.endswith("__init__.py"), n)
                    for a in n.names:
                        fr.local_imports[a.asname or a.name] = ("from", base, a.name)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        fr.local_imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
        self.frames.append(fr)
        self.call_stack.append(f)
        saved_loops = self.loops
        self.loops = Loops(saved_loops, saved_pc)
        try:
            st.env = b
            st.pc = ()
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st)
                fr.returns.append(Exit("return", v, st.copy()))
                end = None
            else:
                end = self.block(f.node.body, st)
            if end is not None:
                fr.returns.append(Exit("return", g.const(None), end))
        finally:
            self.frames.pop()
            self.call_stack.pop()
            self.loops = saved_loops
        # exceptional exits continue in the caller's environment
        for e in self.raises[nr0:]:
            if e.st.env is not saved_env:
                e.st.env = dict(saved_env)
                e.st.pc = saved_pc + e.st.pc
        if not fr.returns:
            st.env, st.pc = saved_env, saved_pc
            raise Dead()
        val, rst = self.merge_returns(fr.returns)
        st.env, st.pc = saved_env, saved_pc
        st.heap, st.hv = rst.heap, rst.hv
        st.facts = rst.facts
        if fr.changed:
            self.changed_args(st, f, fr, b0, rst, node)
        if key is not None and not fr.changed and st.hv == hv0 and len(self.raises) == nr0 and len(self.objs) == no0:
            self.memo[key] = (val, tuple(dict.fromkeys(g.log[lg0:])))
        return val

    def changed_args(self, st, f, fr, b0, rst, node):
        """a helper that fills a container it was handed changes the caller's variable"""
        if not isinstance(node, ast.Call):
            return
        exprs = list(node.args) + [k.value for k in node.keywords]
        for p in fr.changed:
            if p not in b0 or p not in rst.env or any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
                continue
            for a in exprs:
                if isinstance(a, ast.Name) and a.id in st.env and self.refine(st, st.env[a.id]) is self.refine(st, b0[p]):
                    st.env[a.id] = rst.env[p]
                    self.frames[-1].changed.add(a.id)

    watch = frozenset()

    # -- summarised calls ----------------------------------------------------
    vocab = frozenset()
    summary_cache: dict = {}
    odd_cache: dict = {}

    def in_vocab(self, f, selfn):
        if f.cls is None:
            return f.name in self.vocab
        if f.kind == "method" and selfn.op == "obj":
            k = self.obj(selfn).cls
            if k is None:
                return False
            return any(f"{c.name}.{f.name}" in self.vocab for c in k.mro())
        if f.kind in ("staticmethod", "classmethod"):
            return any(f"{c.name}.{f.name}" in self.vocab for c in f.cls.mro())
        return False

    def summary(self, f, cls):
        """(read paths, written paths) of a function, from its own translation"""
        tk = tuple(sorted(self.types.items()))
        key = (id(self.prog), f, cls, tk)
        r = self.summary_cache.get(key)
        if r is None:
            ip = Interp(self.prog, types=self.types, opaque=self.opaque, param_types=self.param_types, keep_events=False)
            res = ip.run(f, None, cls.name if cls is not None else None)
            reads, writes = set(), set()
            for o in ip.objs.values():
                if not o.symbolic or o.kind != "inst":
                    continue
                for fld, v in o.init.items():
                    if isinstance(fld, str) and not (v.op == "obj" and ip.obj(v).kind == "inst"):
                        reads.add(f"{o.path}.{fld}")
            ends = ([res.end] if res.end is not None else []) 
            for e in ends:
                for o, fld, old, new in res.changed(e):
                    if o.kind == "inst" and isinstance(fld, str):
                        writes.add(f"{o.path}.{fld}")
                    elif o.kind == "cont":
                        lab = o.anchor.attr if o.anchor.op == "src" else None
                        writes.add(lab if isinstance(lab, str) else "?" + o.path)
                    elif fld != "*":
                        writes.add(o.path)
            ok = lambda p: "[" not in p and "?" not in p and "#" not in p and ":" not in p
            r = (sorted(p for p in reads if ok(p)), sorted(p for p in writes if ok(p)), sorted(p for p in reads | writes if not ok(p)), bool(res.raises))
            self.summary_cache[key] = r
            self.odd_cache[key] = {p for p in writes if not ok(p)}
        return r

    def odd_writes(self, f, cls):
        return self.odd_cache.get((id(self.prog), f, cls, tuple(sorted(self.types.items()))), ())

    def navigate(self, st, env, path):
        """(object node, field) for a parameter-rooted access path, or None"""
        parts = path.split(".")
        v = env.get(parts[0])
        if v is None:
            return None
        for x in parts[1:-1]:
            v = self.refine(st, v)
            if v.op != "obj" or self.obj(v).kind != "inst":
                return None
            v = self.field(st, v, x)
        v = self.refine(st, v)
        if v.op != "obj" or self.obj(v).kind != "inst":
            return None
        return v, parts[-1]

    def summarised(self, st, f, args, kwargs, node):
        g = self.g
        selfn = args[0] if args and f.kind == "method" else None
        if not self.in_vocab(f, selfn if selfn is not None else g.const(None)):
            return None
        cls = self.obj(selfn).cls if selfn is not None else None
        if getattr(f.module, "is_spec", False):
            f0 = f
            f = f.cls.find(f.name) if f.cls is not None else next((m.funcs[f.name] for m in self.prog.modules.values() if not m.is_spec and f.name in m.funcs), None)
            if f is None:
                return None
            if f0.cls is not None and f0.cls.find(f.name).cls is not f0.cls:
                f = f0.cls.find(f0.name)
        reads, writes, odd, exc = self.summary(f, cls)
        b = self.bind(f, args, kwargs, st)
        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        vals = [self.freeze_arg(st, b[nm]) for nm in names]
        for p in sorted(set(reads) | set(writes)):
            if "." not in p:
                continue
            nv = self.navigate(st, b, p)
            if nv is None:
                continue
            v = self.field(st, nv[0], nv[1])
            vals.append(self.freeze_arg(st, v))
        self.summ_used.add(f.qual)
        ret = g.mk("call", tuple(vals), f.qual)
        if exc:
            c = g.mk("call", tuple(vals), f"{f.qual}!raises")
            x = st.copy()
            self.assume(x, c, True)
            x.pc = st.pc + ((c, True),)
            self.raises.append(Exit("raise", g.mk("call", (), "exception of " + f.qual), x, self.where(node)))
            self.assume(st, c, False)
        if any(p in self.odd_writes(f, cls) for p in odd):
            o = self.pseudo(g.src("?heap"))
            self.wr(st, o, "items", g.mk("call", (self.cur(st, o.anchor),) + tuple(vals), f"{f.qual}!heap"))
        for p in writes:
            if "." not in p:
                v = b.get(p)
                if v is None:
                    continue
                v = self.refine(st, v)
                new = g.mk("call", tuple(vals), f"{f.qual}!{p}")
                if v.op == "obj" and self.obj(v).kind in ("list", "dict"):
                    self.wr(st, self.obj(v), "items" if self.obj(v).kind == "list" else "arr", new)
                elif v.op != "obj":
                    self.mutate(st, None, v, lambda c: new)
                continue
            nv = self.navigate(st, b, p)
            if nv is None:
                continue
            self.wr(st, self.obj(nv[0]), nv[1], g.mk("call", tuple(vals), f"{f.qual}!{p}"))
        return ret

    def freeze_arg(self, st, v, depth=0):
        v = self.refine(st, v)
        if v.op == "obj" and self.obj(v).kind == "inst" and not self.obj(v).symbolic:
            # an object made by the operation stands for its class and current contents
            o = self.obj(v)
            h = {k: x for k, x in {**o.init, **(st.heap.get(o.oid) or {})}.items() if isinstance(k, str)}
            if depth >= 3 or not h:
                return self.g.src("fresh:" + o.cls.name)
            ks = sorted(h)
            return self.g.mk("call", tuple(self.freeze_arg(st, h[k], depth + 1) for k in ks), f"fresh:{o.cls.name}|" + ",".join(ks))
        if v.op == "phi" and self.has_obj(v):
            return self.g.phi(v.args[0], self.freeze_arg(st, v.args[1], depth), self.freeze_arg(st, v.args[2], depth))
        return self.val(st, v)

    def snap(self, st, v):
        """identity of an argument of an opaque call: objects stand for themselves"""
        return v

    def merge_returns(self, exits):
        def rec(es, depth):
            if len(es) == 1:
                return es[0].val, es[0].st
            conds = {(e.st.pc[depth][0] if len(e.st.pc) > depth else None) for e in es}
            if len(conds) == 1 and None not in conds:
                c = next(iter(conds))
                T = [e for e in es if e.st.pc[depth][1]]
                F = [e for e in es if not e.st.pc[depth][1]]
                if not T or not F:
                    return rec(es, depth + 1)
                v1, s1 = rec(T, depth + 1)
                v2, s2 = rec(F, depth + 1)
                return self.g.phi(c, v1, v2), self.merge(c, s1, s2)
            # group exits by their next condition; opaque selection between groups
            first = es[0]
            c0 = first.st.pc[depth][0] if len(first.st.pc) > depth else None
            A = [e for e in es if (e.st.pc[depth][0] if len(e.st.pc) > depth else None) is c0]
            B = [e for e in es if e not in A]
            v2, s2 = rec(B, depth)
            if c0 is None:
                # several exits without further conditions (loop exits)
                v1, s1 = A[0].val, A[0].st
                for e in A[1:]:
                    oc = self.g.mk("opaque", (), ("ret", next(self.uid)))
                    v1, s1 = self.g.phi(oc, v1, e.val), self.merge(oc, s1, e.st)
            else:
                v1, s1 = rec(A, depth)
            if c0 is not None and c0.op == "opaque" and c0.attr[0] == "iter":
                oc = c0            # "the loop was left through one of its returns"
            elif c0 is not None:
                cs = [self.pc_cond(e.st.pc[depth:]) for e in A]
                oc = self.g.or_(cs) if len(cs) > 1 else cs[0]
            else:
                cs = [self.pc_cond(e.st.pc[depth:]) for e in B]
                oc = self.g.not_(self.g.or_(cs) if len(cs) > 1 else cs[0])
            return self.g.phi(oc, v1, v2), self.merge(oc, s1, s2)
        v, s = rec(exits, 0)
        return v, s

    def bind(self, f: Func, args, kwargs, st, starkw=None):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        for nm, v in zip(names, args):
            env[nm] = v
        extra_pos = args[len(names):]
        kw = dict(kwargs)
        for nm in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if nm in kw:
                env[nm] = kw.pop(nm)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in env:
                if starkw is not None:
                    dv = self.eval_in_module(defaults[nm], f.module) if nm in defaults else self.g.src(f"?missing:{nm}")
                    env[nm] = self.g.phi(self.g.mk("in", (self.g.const(nm), starkw)), self.g.mk("idx", (starkw, self.g.const(nm))), dv)
                elif nm in defaults:
                    env[nm] = self.eval_in_module(defaults[nm], f.module)
                else:
                    env[nm] = self.g.src(f"?missing:{f.qual}.{nm}")
        if a.vararg:
            env[a.vararg.arg] = self.g.mk("tuple", tuple(extra_pos))
        if a.kwarg:
            o = self.new_obj("dict", None, f"{f.qual}.**{a.kwarg.arg}", False)
            h = {("k", k): v for k, v in kw.items()}
            if starkw is not None:
                h["**"] = starkw
            st.heap[o.oid] = h
            env[a.kwarg.arg] = o.node
        return env

    def instantiate(self, st, c: Cls, args, kwargs, node, starkw=None):
        if c.name in self.opaque:
            vals = list(args) + [kwargs[k] for k in sorted(kwargs)]
            return self.g.mk("call", tuple(vals), c.name)
        o = self.new_obj("inst", c)
        o.path = f"new:{c.name}@{self.where(node)}"
        o.alloc_site = self.where(node)
        st.heap[o.oid] = {}
        st.touch()
        ini = self.find(c, "__init__")
        if self.keep_events:
            self.events.append(("new", c.name, tuple(args), dict(kwargs), self.where(node), o.node))
        if ini is not None:
            self.call_func(st, ini, [o.node] + list(args), kwargs, node, starkw)
        return o.node

    def where(self, node):
        m = self.frames[-1].module.relpath if self.frames else "?"
        return f"{m}:{getattr(node, 'lineno', 0)}"

    def call(self, st, fn: Node, args, kwargs, node, starkw=None):
        g = self.g
        fn = self.refine(st, fn)
        if fn.op == "func":
            return self.call_func(st, self.funcs[fn.attr], args, kwargs, node, starkw)
        if fn.op == "bound":
            return self.call_func(st, self.funcs[fn.args[1].attr], [fn.args[0]] + args, kwargs, node, starkw)
        if fn.op == "class":
            return self.instantiate(st, self.clsof(fn), args, kwargs, node, starkw)
        if fn.op == "phi":
            return self.split(st, fn, lambda s, v: self.call(s, v, list(args), dict(kwargs), node, starkw))
        if fn.op == "bmeth":
            return self.container_method(st, fn.args[0], fn.attr, args, kwargs, node)
        if fn.op == "ext":
            return self.ext_call(st, fn.attr, args, kwargs, node)
        if fn.op == "attr":
            if self.keep_events:
                self.events.append(("ext", "." + fn.attr, (fn.args[0],) + tuple(args), dict(kwargs), self.where(node), None))
            if fn.args[0].op in ("comp", "tuple", "agg") and fn.attr in ("values", "items", "keys"):
                return g.mk("call", (fn.args[0],), "." + fn.attr)
            if fn.attr == "copy" and not args:
                return g.mk("call", (self.cur(st, fn.args[0]),), ".copy")
            if fn.attr == "format" and fn.args[0].op == "const" and isinstance(fn.args[0].attr, str):
                r = self.str_format(fn.args[0].attr, list(args), dict(kwargs))
                if r is not None:
                    return r
            aa, kw = [self.val(st, x) for x in args], {k: self.val(st, v) for k, v in kwargs.items()}
            on = fn.args[0]
            base = node.func.value if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else None
            r = self.opq("." + fn.attr, [self.cur(st, on)] + aa, kw, st, node)
            if fn.attr in MUTATORS or (node is not None and node is self.stmt_call):
                if fn.attr in ("append", "add") and len(aa) == 1:
                    self.mutate(st, base, on, lambda c: g.mk("append", (c, aa[0]), "set" if fn.attr == "add" else None))
                    return g.const(None)
                if fn.attr == "extend" and len(aa) == 1:
                    self.mutate(st, base, on, lambda c: g.mk("extend", (c, aa[0])))
                    return g.const(None)
                if fn.attr == "setdefault":
                    c0 = self.cur(st, on)
                    k, d = aa[0], aa[1] if len(aa) > 1 else g.const(None)
                    v = g.phi(g.mk("in", (k, c0)), self.select(st, c0, k), d)
                    self.mutate(st, base, on, lambda c: g.mk("store", (c, k, v), "?"))
                    return v
                self.mutate(st, base, on, lambda c: self.opq("." + fn.attr, [c] + aa, kw, st, node))
                return r if fn.attr != "pop" else self.opq(".pop()", r.args, {}, st, node)
            return r
        return self.opq("?dyn", [fn] + list(args), kwargs, st, node)

    def opq(self, name, args, kwargs, st, node):
        vals = list(args)
        attr = name
        if kwargs:
            ks = sorted(kwargs)
            vals += [kwargs[k] for k in ks]
            vals = [self.val(st, v) if v.op == "func" else v for v in vals]
            attr = name + "|" + ",".join(ks)
        return self.g.mk("call", tuple(vals), attr)

    # -- containers ----------------------------------------------------------
    def list_items(self, st, n):
        """exact items of a list/tuple value, or None"""
        n = self.refine(st, n)
        if n.op == "tuple":
            return list(n.args)
        if n.op == "obj":
            o = self.obj(n)
            if o.kind == "list":
                it = self.rd(st, o, "items")
                if it is not None and it.op == "tuple":
                    return list(it.args)
        if n.op == "const" and isinstance(n.attr, str) and len(n.attr) <= UNROLL:
            return [self.g.const(c) for c in n.attr]
        if n.op == "call" and n.attr == "range" and all(a.op == "const" and isinstance(a.attr, int) for a in n.args):
            r = range(*[a.attr for a in n.args])
            if len(r) <= UNROLL:
                return [self.g.const(i) for i in r]
        if n.op == "call" and n.attr in ("enumerate",):
            it = self.list_items(st, n.args[0])
            if it is not None:
                i0 = n.args[1] if len(n.args) > 1 else self.g.const(0)
                return [self.g.mk("tuple", (self.g.bin("+", i0, self.g.const(i)), x)) for i, x in enumerate(it)]
        if n.op == "call" and n.attr == "zip":
            its = [self.list_items(st, a) for a in n.args]
            if its and all(i is not None for i in its):
                return [self.g.mk("tuple", t) for t in zip(*its)]
            if any(i is not None for i in its):
                k = min(len(i) for i in its if i is not None)
                # lengths of the others are unknown; only expand when they are symbolic lists
                return None
        if n.op == "call" and n.attr == "reversed":
            it = self.list_items(st, n.args[0])
            if it is not None:
                return it[::-1]
        if n.op == "call" and n.attr in (".values", ".items", ".keys"):
            d = n.args[0]
            if d.op == "obj":
                o = self.obj(d)
                if o.kind == "dict" and not o.symbolic:
                    h = dict(o.init); h.update(st.heap.get(o.oid) or {})
                    if all(isinstance(k, tuple) and k[0] == "k" for k in h) and not any(v.op == "phi" and any(l.op == "src" and l.attr == "?absent" for l in self._obj_leaves(v)) for v in h.values()):
                        if n.attr == ".values":
                            return list(h.values())
                        if n.attr == ".keys":
                            return [self.g.const(k[1]) for k in h]
                        return [self.g.mk("tuple", (self.g.const(k[1]), v)) for k, v in h.items()]
        return None

    def elem(self, st, it):
        """a generic element of an iterable"""
        g = self.g
        it = self.refine(st, it)
        if it.op == "obj":
            o = self.obj(it)
            if o.kind == "list":
                v = self.rd(st, o, "*")
                if v is not None and self.has_obj(v):
                    return v
                items = self.list_items(st, it)
                if items:
                    v = items[0]
                    for x in items[1:]:
                        v = self.join(v, x)
                    return v
                c = self.content(st, it)
                if c is it:
                    if o.elem_type is not None:
                        v = self.symbolic(o.elem_type, f"{o.path}[*]")
                        o.init["*"] = v
                        return v
                    return g.mk("elem", (it,), self.depth_of(it))
                if c.op == "repeat" and c.args[0].op == "tuple" and len(c.args[0].args) == 1:
                    return c.args[0].args[0]
                return self.elem(st, c)
            if o.kind == "dict":
                return g.mk("key", (it,))
        if it.op == "call":
            if it.attr == "enumerate":
                ix = g.mk("index", (it.args[0],), self.depth_of(self.cur(st, it.args[0])))
                if len(it.args) > 1:
                    ix = g.bin("+", ix, it.args[1])
                return g.mk("tuple", (ix, self.elem(st, it.args[0])))
            if it.attr == "range" and it.args[-1].op == "call" and it.args[-1].attr == "len" and (
                    len(it.args) == 1 or (len(it.args) == 2 and it.args[0].op == "const" and it.args[0].attr == 0)):
                return g.mk("index", (it.args[-1].args[0],), self.depth_of(it))
            if it.attr == "zip":
                return g.mk("tuple", tuple(self.elem(st, a) for a in it.args))
            if it.attr in (".items", ".values"):
                d = it.args[0]
                if d.op == "obj" and self.obj(d).kind == "dict":
                    v = self.dict_any(st, self.obj(d))
                else:
                    v = g.mk("idx", (d, g.mk("key", (d,))))
                return v if it.attr == ".values" else g.mk("tuple", (g.mk("key", (d,)), v))
            if it.attr == ".keys":
                return g.mk("key", (it.args[0],))
            if it.attr in ("list", "tuple", "numpy.array") and len(it.args) >= 1:
                return self.elem(st, it.args[0])
            if it.attr in ("sorted", "reversed") and len(it.args) >= 1:
                v = self.elem(st, it.args[0])
                if self.has_obj(v):
                    return v
        it = self.cur(st, it)
        if it.op == "comp":
            return it.args[0]
        if it.op == "phi":
            return g.phi(it.args[0], self.elem(st, it.args[1]), self.elem(st, it.args[2]))
        return g.mk("elem", (it,), self.depth_of(it))

    def depth_of(self, it):
        """enclosing loops over the same iterable, callers included"""
        n, ls, it = 0, self.loops, self.domain_node(it)
        while ls is not None:
            n += sum(1 for l in ls if l.iter is not None and (l.iter is it or self.domain_node(l.iter) is it))
            ls = ls.parent
        return n

    def domain_node(self, it):
        while it.op == "call" and it.args:
            if it.attr in ("list", "tuple", ".copy", "enumerate", ".items", ".values", ".keys"):
                it = it.args[0]
            elif it.attr == "range" and len(it.args) == 2:
                it = self.g.mk("call", (self.g.bin("-", it.args[1], it.args[0]),), "range")
            elif it.attr == "range" and len(it.args) == 3 and all(x.op == "const" and isinstance(x.attr, int) for x in it.args) and it.args[2].attr:
                it = self.g.mk("call", (self.g.const(len(range(*(x.attr for x in it.args)))),), "range")
            elif it.attr == "range" and len(it.args) == 1 and it.args[0].op == "call" and it.args[0].attr == "len":
                it = it.args[0].args[0]
            else:
                break
        return it

    def has_obj(self, n, lim=40):
        """does a value contain an instance (so that a generic element is needed for method calls)?"""
        todo, k = [n], 0
        while todo and k < lim:
            x = todo.pop(); k += 1
            if x.op == "obj":
                return True
            if x.op in ("phi", "tuple", "join"):
                todo += x.args[1:] if x.op == "phi" else x.args
        return False

    # current contents of mutable values ------------------------------------
    def pseudo(self, n):
        """stand-in object for a mutable value that is not modelled as an object (a parameter of unknown type, a file)"""
        o = self.pseudos.get(n)
        if o is None:
            o = self.new_obj("cont", None, f"<{show(n, 4)}>", True)
            o.init["items"] = n
            o.anchor = n
            self.pseudos[n] = o
        return o

    def cur(self, st, n):
        if not self.pseudos:
            return n
        o = self.pseudos.get(n)
        if o is not None and o.oid in st.heap:
            return st.heap[o.oid]["items"]
        if n.op == "phi":
            a, b = self.cur(st, n.args[1]), self.cur(st, n.args[2])
            if a is not n.args[1] or b is not n.args[2]:
                return self.g.phi(n.args[0], a, b)
        return n

    def content(self, st, on):
        """value of a mutable container at this point"""
        if on.op != "obj":
            return self.cur(st, on)
        o = self.obj(on)
        if o.kind == "list":
            it = self.rd(st, o, "items")
            if it is not None:
                return it
            if o.symbolic:
                return on
            return self.g.mk("listof", (self.rd(st, o, "*") or self.g.src(f"{o.path}[*]"),))
        if o.kind == "dict":
            return self.dict_content(st, o)
        return on

    def dict_content(self, st, o):
        a = self.rd(st, o, "arr")
        if a is not None:
            return a
        g = self.g
        h = st.heap.get(o.oid)
        if o.symbolic:
            c = o.node
            for k in sorted((k for k in (h or {}) if isinstance(k, tuple)), key=repr):
                c = g.mk("store", (c, g.const(k[1]), h[k]), "dict")
            return c
        hh = dict(o.init); hh.update(h or {})
        ks = sorted((k for k in hh if isinstance(k, tuple)), key=repr)
        c = g.mk("dictlit", tuple(hh[k] for k in ks), tuple(k[1] for k in ks))
        if "**" in hh:
            c = g.mk("call", (hh["**"], c), "dict|**")
        return c

    def val(self, st, x):
        """a value as operand of an uninterpreted operation: containers by content"""
        if x.op == "obj":
            o = self.obj(x)
            if o.kind == "list":
                return self.content(st, x)
            if o.kind == "dict" and self.rd(st, o, "arr") is not None:
                return self.rd(st, o, "arr")
            return x
        if x.op == "func" and ("<lambda>" in self.funcs[x.attr].qual or "<locals>" in self.funcs[x.attr].qual):
            return self.as_lambda(st, x)
        return self.cur(st, x)

    def as_lambda(self, st, x):
        """a local function as a value: its result on bound variables"""
        f = self.funcs[x.attr]
        a = f.node.args
        if a.kwonlyargs or a.vararg or a.kwarg or a.defaults or len(self.call_stack) > 40:
            return x
        ps = a.posonlyargs + a.args
        s = st.copy()
        nr = len(self.raises)
        try:
            v = self.call_func(s, f, [self.g.src(f"lambda#{i}") for i in range(len(ps))], {}, f.node)
        except Dead:
            v = None
        if v is None or len(self.raises) != nr or s.hv != st.hv:
            del self.raises[nr:]
            return x
        return self.g.mk("lambda", (self.val(s, v),), len(ps))

    def missing(self, st, o, f):
        """value of a location that a state does not mention"""
        if o.kind == "dict" and f == "arr":
            return self.dict_content(st, o)
        return self.entry_value(o, f)

    def select(self, st, c, ix):
        g = self.g
        while c.op == "store" and c.attr in ("dict", "list", "?"):
            if c.args[1] is ix:
                return c.args[2]
            if c.args[1].op == "const" and ix.op == "const" and (c.attr == "dict" or (c.args[1].attr >= 0 and ix.attr >= 0)):
                c = c.args[0]
                continue
            break
        if c.op == "dictlit" and ix.op == "const" and ix.attr in c.attr:
            return c.args[c.attr.index(ix.attr)]
        if c.op == "tuple" and ix.op == "const" and isinstance(ix.attr, int) and -len(c.args) <= ix.attr < len(c.args):
            return c.args[ix.attr]
        if c.op == "repeat" and c.args[0].op == "tuple" and len(c.args[0].args) == 1:
            return c.args[0].args[0]
        return g.mk("idx", (c, ix))

    FRESH = ("comp", "call", "bin", "agg", "slice", "store", "append", "extend", "repeat", "tuple", "dictlit", "mu")

    def mutate(self, st, base, on, fn):
        """replace the contents of a value that is not an object; `base` is the expression that denotes it"""
        on = self.refine(st, on)
        if isinstance(base, ast.Name) and all(l.op in self.FRESH for l in self._obj_leaves(on)) and base.id in st.env and not self.from_file(on):
            st.env[base.id] = fn(on)
            self.frames[-1].changed.add(base.id)
            return
        if on.op in ("const", "class", "func", "ext", "module"):
            return
        if on.op == "phi":
            for c, leaf in self._leaves_with_cond(on):
                if leaf.op not in ("obj", "const"):
                    o = self.pseudo(leaf)
                    cur = self.cur(st, leaf)
                    self.wr(st, o, "items", self.g.phi(c, fn(cur), cur))
            return
        o = self.pseudo(on)
        self.wr(st, o, "items", fn(self.cur(st, on)))

    def from_file(self, n, lim=60):
        todo, k = [n], 0
        while todo and k < lim:
            x = todo.pop(); k += 1
            if x.op == "call" and (x.attr == "open" or str(x.attr).split("|")[0] in ("open", ".open")):
                return True
            todo += x.args
        return False

    def join(self, a, b):
        if a is b:
            return a
        xs = []
        for n in (a, b):
            xs.extend(n.args if n.op == "join" else (n,))
        seen, res = set(), []
        for x in xs:
            if x.id not in seen:
                seen.add(x.id); res.append(x)
        return self.g.mk("join", tuple(sorted(res, key=lambda n: n.id)))

    def dict_any(self, st, o):
        v = self.rd(st, o, "*")
        if v is not None:
            return v
        if o.symbolic:
            v = self.symbolic(o.elem_type, f"{o.path}[*]")
            o.init["*"] = v
            return v
        h = dict(o.init); h.update(st.heap.get(o.oid) or {})
        vs = [x for k, x in h.items() if isinstance(k, tuple)]
        if not vs:
            return self.g.src(f"{o.path}[*]")
        r = vs[0]
        for x in vs[1:]:
            r = self.join(r, x)
        return r

    def subscript(self, st, on, ix, node=None):
        g = self.g
        on = self.refine(st, on)
        ix = self.refine(st, ix)
        self.crash(st, on, node)
        if on.op == "phi":
            if any(l.op in ("obj", "tuple") for l in self._obj_leaves(on)):
                return self.split(st, on, lambda s, v: self.subscript(s, v, ix, node))
        if on.op == "tuple" and ix.op == "const" and isinstance(ix.attr, int) and not isinstance(ix.attr, bool):
            try:
                return on.args[ix.attr]
            except IndexError:
                return g.src("?index")
        if on.op == "obj":
            o = self.obj(on)
            if o.kind == "dict":
                arr = self.rd(st, o, "arr")
                if arr is not None:
                    v = self.rd(st, o, "*")
                    if v is not None and v.op == "obj":
                        return v
                    return self.select(st, arr, ix)
                if ix.op == "const":
                    k = ("k", ix.attr)
                    v = self.rd(st, o, k)
                    if v is not None:
                        return v
                    if o.symbolic:
                        v = self.symbolic(o.elem_type, f"{o.path}[{ix.attr!r}]")
                        o.init[k] = v
                        return v
                    s = self.rd(st, o, "*")
                    if s is not None:
                        return g.mk("idx", (s, ix))
                    if "**" in o.init or "**" in (st.heap.get(o.oid) or {}):
                        return g.mk("idx", (self.dict_content(st, o), ix))
                    return g.src(f"{o.path}[{ix.attr!r}]?absent")
                v = self.dict_any(st, o)
                if v.op == "obj":
                    return v
                c = self.dict_content(st, o)
                if c.op == "dictlit" and self.has_obj(v):
                    return g.mk("idx", (v, ix))
                return self.select(st, c, ix)
            if o.kind == "list":
                items = self.list_items(st, on)
                if items is not None and ix.op == "const" and isinstance(ix.attr, int):
                    if -len(items) <= ix.attr < len(items):
                        return items[ix.attr]
                    return g.src("?index")
                v = self.elem(st, on)
                if v.op == "obj":
                    return v
                return self.select(st, self.content(st, on), ix)
            if o.kind == "inst":
                m = o.cls.find("__getitem__")
                if m:
                    return self.call_func(st, m, [on, ix], {}, node)
        c = self.cur(st, on)
        if c is not on and c.op == "phi":
            return g.mk("idx", (c, ix))
        return self.select(st, c, ix)

    def freeze(self, st, on):
        """value of a mutable list at this point"""
        return self.content(st, on)

    def store_sub(self, st, on, ix, v, node):
        on = self.refine(st, on)
        if on.op == "phi":
            for leaf_c, leaf in self._leaves_with_cond(on):
                if leaf.op == "obj":
                    old = None
                    s2 = st
                    self.store_sub(s2, leaf, ix, self.g.phi(leaf_c, v, self.subscript(st, leaf, ix)), node)
            return
        if on.op != "obj":
            if self.keep_events:
                self.events.append(("store", "[]", (on, ix, v), {}, self.where(node), None))
            base = node.value if isinstance(node, ast.Subscript) else getattr(getattr(node, "target", None), "value", None)
            self.mutate(st, base, on, lambda c: self.g.mk("store", (c, ix, self.val(st, v)), "?"))
            return
        o = self.obj(on)
        if o.kind == "dict":
            arr = self.rd(st, o, "arr")
            if ix.op == "const" and arr is None:
                self.wr(st, o, ("k", ix.attr), v)
            else:
                old = self.rd(st, o, "*")
                if old is None and (o.elem_type is not None or self.has_obj(v)):
                    old = self.dict_any(st, o)
                    if not self.has_obj(old):
                        old = None
                if self.has_obj(v):
                    self.wr(st, o, "*", self.join(old, v) if old is not None else v)
                self.wr(st, o, "arr", self.g.mk("store", (self.dict_content(st, o), ix, v), "dict"))
        elif o.kind == "list":
            items = self.list_items(st, on)
            if items is not None and ix.op == "const" and isinstance(ix.attr, int) and -len(items) <= ix.attr < len(items):
                items[ix.attr] = v
                self.wr(st, o, "items", self.g.mk("tuple", tuple(items)))
            else:
                if self.has_obj(v) or self.rd(st, o, "*") is not None:
                    e = self.elem(st, on) if (items or items is None) else v
                    self.wr(st, o, "*", self.join(e, v) if e.op != "elem" else v)
                if self.loops_symbolic():
                    self.log_append(st, o.oid, v, False)
                self.wr(st, o, "items", self.g.mk("store", (self.content(st, on), ix, v), "list"))
        else:
            m = o.cls.find("__setitem__")
            if m:
                self.call_func(st, m, [on, ix, v], {}, node)

    def _leaves_with_cond(self, n, c=None):
        g = self.g
        c = c if c is not None else g.const(True)
        if n.op == "phi":
            yield from self._leaves_with_cond(n.args[1], g.and_([c, n.args[0]]))
            yield from self._leaves_with_cond(n.args[2], g.and_([c, g.not_(n.args[0])]))
        else:
            yield c, n

    def mklist(self, st, items, path=None):
        o = self.new_obj("list", None, path)
        st.heap[o.oid] = {"items": self.g.mk("tuple", tuple(items))}
        st.touch()
        return o.node

    def container_method(self, st, on, m, args, kwargs, node):
        g = self.g
        o = self.obj(on)
        if self.keep_events:
            self.events.append(("cmeth", m, (on,) + tuple(args), dict(kwargs), self.where(node), None))
        if o.kind == "list":
            items = self.list_items(st, on)
            inloop = any(not l.unrolled for l in self.loops.chain()[o.nloops:])
            if m == "add":
                if self.has_obj(args[0]) or self.rd(st, o, "*") is not None or o.elem_type is not None:
                    old = self.elem(st, on) if (items or items is None) else args[0]
                    self.wr(st, o, "*", self.join(old, args[0]) if old.op != "elem" else args[0])
                if self.loops_symbolic():
                    self.log_append(st, o.oid, args[0], False)
                self.wr(st, o, "items", g.mk("append", (self.content(st, on), args[0]), "set"))
                return g.const(None)
            if m == "append":
                if items is not None and not inloop:
                    self.wr(st, o, "items", g.mk("tuple", tuple(items) + (args[0],)))
                else:
                    if self.has_obj(args[0]) or self.rd(st, o, "*") is not None or o.elem_type is not None:
                        old = self.elem(st, on) if (items or items is None) else args[0]
                        self.wr(st, o, "*", self.join(old, args[0]) if old.op != "elem" else args[0])
                    if self.loops_symbolic():
                        self.log_append(st, o.oid, args[0])
                    self.wr(st, o, "items", g.mk("append", (self.content(st, on), args[0])) if inloop else self.appended(self.content(st, on), args[0]))
                return g.const(None)
            if m == "extend":
                it2 = self.list_items(st, args[0])
                if items is not None and it2 is not None and not inloop:
                    self.wr(st, o, "items", g.mk("tuple", tuple(items) + tuple(it2)))
                else:
                    e = self.elem(st, args[0])
                    if self.has_obj(e) or self.rd(st, o, "*") is not None:
                        old = self.elem(st, on) if (items or items is None) else e
                        self.wr(st, o, "*", self.join(old, e) if old.op != "elem" else e)
                    if self.loops_symbolic():
                        self.log_append(st, o.oid, e, False)
                    self.wr(st, o, "items", g.mk("extend", (self.content(st, on), self.val(st, args[0]))))
                return g.const(None)
            if m in ("sort", "reverse", "clear", "insert", "pop", "remove"):
                if m == "reverse" and items is not None:
                    self.wr(st, o, "items", g.mk("tuple", tuple(items[::-1])))
                    return g.const(None)
                if m == "clear":
                    self.wr(st, o, "items", g.mk("tuple", ()))
                    return g.const(None)
                if m == "pop" and items and not inloop and (not args or args[0].op == "const"):
                    k = args[0].attr if args else -1
                    v = items.pop(k)
                    self.wr(st, o, "items", g.mk("tuple", tuple(items)))
                    return v
                if m == "insert" and items is not None and not inloop and args[0].op == "const":
                    items.insert(args[0].attr, args[1])
                    self.wr(st, o, "items", g.mk("tuple", tuple(items)))
                    return g.const(None)
                if self.loops_symbolic():
                    self.log_append(st, o.oid, g.const(None), False)
                c0 = self.content(st, on)
                e = self.elem(st, on) if m == "pop" else None
                if m == "insert" and self.has_obj(args[1]):
                    old = self.elem(st, on) if (items or items is None) else args[1]
                    self.wr(st, o, "*", self.join(old, args[1]) if old.op != "elem" else args[1])
                self.wr(st, o, "items", self.opq("." + m, [c0] + [self.val(st, x) for x in args], kwargs, st, node))
                if m == "pop":
                    return e if self.has_obj(e) else self.opq(".pop()", [c0] + [self.val(st, x) for x in args], kwargs, st, node)
                return g.const(None)
            if m == "copy":
                return self.copy_list(st, on)
            return self.opq("." + m, [self.content(st, on)] + [self.val(st, x) for x in args], kwargs, st, node)
        if o.kind == "dict":
            arr = self.rd(st, o, "arr")
            if arr is not None and m == "get":
                d = args[1] if len(args) > 1 else g.const(None)
                v = self.subscript(st, on, args[0])
                return g.phi(self.has_key(st, on, args[0]), v, d)
            if arr is not None and m in ("update", "pop", "clear"):
                if m == "clear":
                    self.wr(st, o, "arr", g.mk("dictlit", (), ()))
                    return g.const(None)
                aa = [self.content(st, x) if x.op == "obj" and self.obj(x).kind == "dict" else self.val(st, x) for x in args]
                self.wr(st, o, "arr", self.opq("." + m, [arr] + aa, kwargs, st, node))
                return g.const(None) if m == "update" else self.opq(".pop()", [arr] + aa, kwargs, st, node)
            if m == "get":
                k = args[0]
                d = args[1] if len(args) > 1 else g.const(None)
                h = dict(o.init); h.update(st.heap.get(o.oid) or {})
                if k.op == "const":
                    v = h.get(("k", k.attr))
                    if v is not None and not o.symbolic:
                        if v.op == "src" and v.attr == "?absent":
                            return d
                        # a phi with an absent leaf means "maybe present"
                        return self.replace_absent(v, d)
                    if o.symbolic:
                        c = self.has_key(st, on, k)
                        t = self.truth(st, c)
                        if t is False:
                            return d
                        v = self.subscript(st, on, k)
                        return v if t else g.phi(c, v, d)
                    if "*" in h:
                        return g.phi(self.has_key(st, on, k), g.mk("idx", (h["*"], k)), d)
                    if "**" in h:
                        return g.phi(g.mk("in", (k, h["**"])), g.mk("idx", (h["**"], k)), d)
                    return d
                return g.phi(self.has_key(st, on, k), self.subscript(st, on, k), d)
            if m in ("values", "items", "keys"):
                if arr is not None and self.rd(st, o, "*") is None:
                    return g.mk("call", (arr,), "." + m)
                return g.mk("call", (on,), "." + m)
            if m == "update":
                if args and args[0].op == "obj" and self.obj(args[0]).kind == "dict" and not self.obj(args[0]).symbolic \
                        and self.rd(st, self.obj(args[0]), "arr") is None:
                    o2 = self.obj(args[0])
                    h = dict(o2.init); h.update(st.heap.get(o2.oid) or {})
                    for k, v in h.items():
                        self.wr(st, o, k, v)
                elif args:
                    self.wr(st, o, "arr", g.mk("call", (self.dict_content(st, o), self.content(st, args[0])), ".update"))
                for k, v in kwargs.items():
                    self.wr(st, o, ("k", k), v)
                return g.const(None)
            if m == "setdefault":
                cur = self.rd(st, o, ("k", args[0].attr)) if args[0].op == "const" and arr is None else None
                if cur is None or cur.op == "phi" or o.symbolic:
                    d = args[1] if len(args) > 1 else g.const(None)
                    c = self.has_key(st, on, args[0])
                    v = self.g.phi(c, self.subscript(st, on, args[0]), d)
                    self.store_sub(st, on, args[0], v, node)
                    return v
                return cur
            if m == "pop":
                if args[0].op == "const":
                    v = self.rd(st, o, ("k", args[0].attr)) or (args[1] if len(args) > 1 else g.src("?absent"))
                    self.wr(st, o, ("k", args[0].attr), g.src("?absent"))
                    return v
                c0 = self.dict_content(st, o)
                self.wr(st, o, "arr", self.opq(".pop", [c0] + [self.val(st, x) for x in args], kwargs, st, node))
                return self.opq(".pop()", [c0] + [self.val(st, x) for x in args], kwargs, st, node)
            if m == "copy":
                return self.copy_dict(st, on)
            if m == "clear":
                if o.symbolic or o.init:
                    self.wr(st, o, "arr", g.mk("dictlit", (), ()))
                else:
                    st.heap[o.oid] = {}
                    st.touch()
                return g.const(None)
        return self.opq("." + m, [on] + list(args), kwargs, st, node)

    def replace_absent(self, v, d):
        if v.op == "src" and v.attr == "?absent":
            return d
        if v.op == "phi":
            return self.g.phi(v.args[0], self.replace_absent(v.args[1], d), self.replace_absent(v.args[2], d))
        return v

    def copy_list(self, st, on):
        items = self.list_items(st, on)
        if items is not None:
            return self.mklist(st, items)
        if on.op == "obj":
            n = self.new_obj("list")
            o0 = self.obj(on)
            st.heap[n.oid] = {"items": self.content(st, on)}
            e = self.elem(st, on)
            if self.has_obj(e):
                st.heap[n.oid]["*"] = e
            st.touch()
            return n.node
        return self.g.mk("call", (on,), "list")

    def copy_dict(self, st, on):
        n = self.new_obj("dict")
        o = self.obj(on)
        h = dict(o.init); h.update(st.heap.get(o.oid) or {})
        st.heap[n.oid] = h
        self.objs[n.oid].symbolic = o.symbolic
        self.objs[n.oid].elem_type = o.elem_type
        self.objs[n.oid].path = o.path if o.symbolic else n.path
        st.touch()
        return n.node

    def loops_symbolic(self):
        return any(not l.unrolled for l in self.loops.chain())

    def innermost(self, st):
        """(innermost loop, callers' loops included, and the path condition since its iteration started)"""
        ls, pc = self.loops, tuple(st.pc)
        while ls is not None:
            if ls:
                lp = ls[-1]
                return lp, (pc[lp.pclen:] if not lp.unrolled else None)
            pc = tuple(ls.callpc) + pc
            ls = ls.parent
        return None, None

    def log_append(self, st, oid, v, known=True):
        lp, pcs = self.innermost(st)
        if lp is not None:
            lp.appends.append((oid, v, pcs if known else None))

    def has_key(self, st, on, k):
        g = self.g
        if on.op == "obj":
            o = self.obj(on)
            if o.kind == "dict" and self.rd(st, o, "arr") is not None:
                return g.mk("in", (k, self.rd(st, o, "arr")))
            if o.kind == "dict" and not o.symbolic and k.op == "const":
                h = dict(o.init); h.update(st.heap.get(o.oid) or {})
                if "*" not in h and "**" not in h:
                    v = h.get(("k", k.attr))
                    if v is None:
                        return g.const(False)
                    r = g.const(False)
                    for c, leaf in self._leaves_with_cond(v):
                        if not (leaf.op == "src" and leaf.attr == "?absent"):
                            r = g.or_([r, c])
                    return r
            if o.kind == "list":
                items = self.list_items(st, on)
                if items is not None:
                    return g.or_([g.cmp("==", k, x) for x in items]) if items else g.const(False)
                return g.mk("in", (k, self.content(st, on)))
            if o.kind == "dict" and not o.symbolic:
                return g.mk("in", (k, self.dict_content(st, o)))
        if on.op == "tuple":
            return g.or_([g.cmp("==", k, x) for x in on.args]) if on.args else g.const(False)
        if on.op == "const" and k.op == "const":
            try:
                return g.const(k.attr in on.attr)
            except TypeError:
                pass
        return g.mk("in", (k, self.cur(st, on)))

    # -- library calls ---------------------------------------------------------
    def ext_call(self, st, name, args, kwargs, node):
        g = self.g
        if name.startswith("builtins."):
            name = name[9:]
        if self.keep_events:
            self.events.append(("ext", name, tuple(args), dict(kwargs), self.where(node), None))
        a = [self.refine(st, x) for x in args]
        if name == "super":
            fr = self.frames[-1]
            f = fr.func
            first = f.node.args.args[0].arg
            selfn = fr.selfn if fr.selfn is not None else st.env.get(first)
            return g.mk("super", (selfn,), f"{f.cls.module.name}:{f.cls.name}")
        if name in ("float", "numpy.float64") and len(a) == 1:
            if a[0].op == "const" and isinstance(a[0].attr, str):
                try:
                    v = float(a[0].attr)
                    return g.const(v) if v == v and abs(v) != float("inf") else g.mk("call", tuple(a), "float")
                except ValueError:
                    pass
            return a[0]
        if name == "bool" and len(a) == 1:
            t = self.truth(st, a[0])
            return g.const(t) if t is not None else (a[0] if g.isbool(a[0]) else g.mk("phi", (a[0], g.const(True), g.const(False))))
        if name == "int" and len(a) == 1:
            if a[0].op == "const" and isinstance(a[0].attr, (int, float)):
                return g.const(int(a[0].attr))
            return g.mk("call", tuple(a), "int")
        if name == "abs" and len(a) == 1:
            if a[0].op == "const":
                return g.const(abs(a[0].attr))
            return g.mk("call", tuple(a), "abs")
        if name == "len" and len(a) == 1:
            items = self.list_items(st, a[0])
            if items is not None:
                return g.const(len(items))
            return g.mk("call", (self.val(st, a[0]),), "len")
        if name in ("max", "min", "sum", "any", "all", "numpy.max", "numpy.min", "numpy.sum", "numpy.maximum", "numpy.minimum",
                    "numpy.amax", "numpy.amin", "math.fsum"):
            short = {"numpy.maximum": "max", "numpy.minimum": "min", "numpy.amax": "max", "numpy.amin": "min", "math.fsum": "sum"}.get(name, name.split(".")[-1])
            if short in ("max", "min") and len(a) >= 2 and "key" not in kwargs:
                return g.minmax(short, a)
            if len(a) >= 1 and "key" not in kwargs:
                items = self.list_items(st, a[0])
                if items is not None and (items or short in ("sum", "any", "all")):
                    if short in ("max", "min"):
                        return g.minmax(short, items)
                    if short == "sum":
                        r = a[1] if len(a) > 1 else g.const(0)
                        for x in items:
                            r = g.bin("+", r, x)
                        return r
                    bs = [self.boolval(st, x) for x in items]
                    return (g.or_(bs) if short == "any" else g.and_(bs)) if bs else g.const(short == "all")
                x = self.val(st, a[0])
                extra = tuple(a[1:]) + ((kwargs["default"],) if "default" in kwargs else ())
                return g.mk("agg", (x,) + extra, short)
            return self.opq(name, a, kwargs, st, node)
        if name in ("list", "tuple") and len(a) <= 1:
            if not a:
                return self.mklist(st, []) if name == "list" else g.mk("tuple", ())
            items = self.list_items(st, a[0])
            if items is not None:
                return self.mklist(st, items) if name == "list" else g.mk("tuple", tuple(items))
            if a[0].op == "obj" and self.obj(a[0]).kind == "list":
                return self.copy_list(st, a[0])
            return g.mk("call", (self.val(st, a[0]),), "list")
        if name == "dict":
            if not a:
                o = self.new_obj("dict")
                st.heap[o.oid] = {("k", k): v for k, v in kwargs.items()}
                st.touch()
                return o.node
            if a[0].op == "obj" and self.obj(a[0]).kind == "dict":
                return self.copy_dict(st, a[0])
        if name == "set" and not a:
            o = self.new_obj("list")
            st.heap[o.oid] = {"items": g.mk("tuple", ())}
            st.touch()
            return o.node
        if name in ("range", "enumerate", "zip", "sorted", "reversed"):
            aa = []
            for x in a:
                if name != "range" and x.op == "obj" and self.obj(x).kind == "list":
                    el = self.elem(st, x)
                    aa.append(x if self.has_obj(el) else self.val(st, x))
                else:
                    aa.append(self.val(st, x))
            if name == "enumerate" and list(kwargs) == ["start"]:
                aa.append(kwargs["start"]); kwargs = {}
            if name == "enumerate" and len(aa) == 2 and aa[1].op == "const" and aa[1].attr == 0:
                aa.pop()
            if name == "zip":
                kwargs = {}
            return g.mk("call", tuple(aa), name) if not kwargs else self.opq(name, aa, kwargs, st, node)
        if name == "isinstance" and len(a) == 2:
            return self.isinstance_(st, a[0], a[1])
        if name == "getattr" and len(a) >= 2 and a[1].op == "const":
            on = a[0]
            if on.op == "obj" and self.obj(on).kind == "inst":
                self.ask(on)
                h = self.has_attr(st, on, a[1].attr)
                if h is True or len(a) == 2:
                    return self.field(st, on, a[1].attr, node)
                if h is False:
                    return a[2]
                c = g.mk("hasattr", (on,), a[1].attr)
                return g.phi(c, self.field(st, on, a[1].attr, node), a[2])
            if on.op == "phi":
                return self.split(st, on, lambda s, v: self.ext_call(s, "getattr", [v] + a[1:], {}, node))
            if on.op == "func":
                k = f"@{self.funcs[on.attr].name}.{a[1].attr}"
                return st.env[k] if k in st.env else (a[2] if len(a) > 2 else g.mk("fattr", (), k[1:]))
            return self.opq("getattr", a, kwargs, st, node)
        if name == "setattr" and len(a) == 3 and a[1].op == "const":
            self.store_attr(st, a[0], a[1].attr, a[2], node)
            return g.const(None)
        if name == "hasattr" and len(a) == 2 and a[1].op == "const":
            if a[0].op == "obj" and self.obj(a[0]).kind == "inst":
                self.ask(a[0])
                h = self.has_attr(st, a[0], a[1].attr)
                return g.const(h) if h is not None else g.mk("hasattr", (a[0],), a[1].attr)
            if a[0].op == "phi":
                return self.split(st, a[0], lambda s, v: self.ext_call(s, "hasattr", [v] + a[1:], {}, node))
            if a[0].op == "func":
                # caches are analysed as empty: the value they would hold is the value computed now
                return g.const(f"@{self.funcs[a[0].attr].name}.{a[1].attr}" in st.env)
            return g.mk("hasattr", (a[0],), a[1].attr)
        if name == "type" and len(a) == 1 and a[0].op == "obj" and self.obj(a[0]).kind == "inst":
            return self.clsnode(self.obj(a[0]).cls)
        if name == "next" and a:
            x = a[0]
            if x.op == "call" and x.attr == "iter":
                x = x.args[0]
            items = self.list_items(st, x)
            if items:
                return items[0]
            c = self.cur(st, x)
            body = self.content(st, x) if x.op == "obj" and self.obj(x).kind == "list" else c
            if body.op == "phi":
                ls = self._obj_leaves(body, 20)
                if len(ls) <= 16 and all(l.op == "tuple" for l in ls) and any(l.args for l in ls):
                    if len(a) == 1 and not all(l.args for l in ls) and len({l.args[0] for l in ls if l.args}) > 1:
                        return g.mk("call", (body,), "first")
                    def pick(n):         # None: this list is empty and there is no default (the call fails)
                        if n.op == "tuple":
                            return n.args[0] if n.args else a[1] if len(a) > 1 else None
                        u, v = pick(n.args[1]), pick(n.args[2])
                        return v if u is None else u if v is None else g.phi(n.args[0], u, v)
                    return pick(body)
            if x is a[0] and x.op not in ("obj", "comp", "tuple", "phi"):
                # an iterator: taking an element moves it on
                first = g.mk("call", (c,), "first")
                self.mutate(st, node.args[0] if isinstance(node, ast.Call) and node.args else None, x, lambda v: g.mk("call", (v,), "rest"))
                return first if len(a) == 1 else g.phi(g.mk("nonempty", (c,)), first, a[1])
            e = self.elem(st, x) if not (x.op == "comp" and len(x.args) > 1 + x.attr) else g.mk("call", (x,), "first")
            if len(a) > 1:
                return g.phi(g.mk("nonempty", (x,)), e, a[1])
            return e
        if name == "iter" and len(a) == 1:
            return g.mk("call", (a[0],), "iter")
        if name == "str" and len(a) == 1 and a[0].op == "const":
            return g.const(str(a[0].attr))
        if name in ("numpy.array", "numpy.asarray") and len(a) == 1:
            return g.mk("call", (self.val(st, a[0]),), "numpy.array")
        if name.startswith("math.") and all(x.op == "const" for x in a) and not kwargs:
            f = getattr(math, name[5:], None)
            try:
                return g.const(f(*[x.attr for x in a]))
            except Exception:
                pass
        if name == "warnings.warn":      # the category is what callers can filter on; the wording is free
            a, kwargs = [kwargs.get("category", a[1] if len(a) > 1 else g.mk("ext", (), "builtins.UserWarning"))], {}
        r = self.opq(name, [self.val(st, x) for x in a], {k: self.val(st, v) for k, v in kwargs.items()}, st, node)
        if node is not None and node is self.stmt_call and name not in ("print",):
            o = self.pseudo(g.src("io:" + name))
            self.wr(st, o, "items", g.mk("append", (self.cur(st, o.anchor), r)))
        return r

    def boolval(self, st, x):
        t = self.truth(st, x)
        return self.g.const(t) if t is not None else x

    def ask(self, on):
        o = self.obj(on)
        if o.symbolic and o.path != "self":
            self.classes_asked.add(o.cls.name)

    def has_attr(self, st, on, name):
        o = self.obj(on)
        if self.rd(st, o, name) is not None:
            return True
        if o.cls.find(name) or o.cls.find_const(name):
            return True
        ini = False
        anyw = False
        for c in o.cls.mro():
            for mn, m in c.methods.items():
                for n in ast.walk(m.node):
                    if isinstance(n, (ast.Attribute,)) and isinstance(n.ctx, ast.Store) and n.attr == name \
                            and isinstance(n.value, ast.Name) and n.value.id in ("self", "system"):
                        anyw = True
                        if mn == "__init__":
                            ini = True
        if ini:
            return True
        if not anyw:
            return False
        return None if o.symbolic else False

    def isinstance_(self, st, x, cl):
        g = self.g
        if x.op == "phi":
            return g.phi(x.args[0], self.isinstance_(st, x.args[1], cl), self.isinstance_(st, x.args[2], cl))
        cls = list(cl.args) if cl.op == "tuple" else [cl]
        if x.op == "obj":
            o = self.obj(x)
            if o.kind == "inst":
                self.ask(x)
                r = False
                for c in cls:
                    if c.op == "class" and o.cls.is_subclass(self.clsof(c)):
                        r = True
                return g.const(r)
            nm = [c.attr for c in cls if c.op == "ext"]
            return g.const(f"builtins.{o.kind}" in nm)
        if x.op == "const":
            nm = [c.attr[9:] for c in cls if c.op == "ext" and c.attr.startswith("builtins.")]
            tn = type(x.attr).__name__
            res = tn in nm or (tn == "bool" and "int" in nm)
            # `float` constants may have been normalised to int
            if isinstance(x.attr, int) and "float" in nm and not isinstance(x.attr, bool):
                res = True
            if x.attr is None:
                res = any(c.op == "call" and c.attr == "type" for c in cls) or res
            return g.const(res)
        return g.mk("isinst", (x,), ",".join(sorted(show(c) for c in cls)))

    # ------------------------------------------------------------------ exprs
    def ev(self, e, st) -> Node:
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            return self.g.mk("opaque", (), (type(e).__name__, self.where(e)))
        return m(e, st)

    def ev_Constant(self, e, st):
        return self.g.const(e.value) if not isinstance(e.value, bytes) else self.g.const(repr(e.value))

    def ev_Name(self, e, st):
        return self.name(st, e.id, e)

    def ev_Attribute(self, e, st):
        v = self.ev(e.value, st)
        return self.refine(st, self.field(st, v, e.attr, e))

    def ev_Subscript(self, e, st):
        v = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            parts = [self.ev(p, st) if p is not None else self.g.const(None) for p in (e.slice.lower, e.slice.upper, e.slice.step)]
            items = self.list_items(st, v)
            if items is not None and all(p.op == "const" for p in parts):
                r = items[slice(*[p.attr for p in parts])]
                return self.mklist(st, r) if v.op == "obj" else self.g.mk("tuple", tuple(r))
            if v.op == "obj" and self.obj(v).kind == "list":
                v = self.freeze(st, v) if not self.obj(v).symbolic else v
            return self.g.mk("slice", (v,) + tuple(parts))
        ix = self.ev(e.slice, st)
        return self.refine(st, self.subscript(st, v, ix, e))

    def ev_Tuple(self, e, st):
        return self.g.mk("tuple", tuple(self.ev_starred(e.elts, st)))

    def ev_starred(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                items = self.list_items(st, v)
                if items is not None:
                    out.extend(items)
                else:
                    out.append(self.g.mk("star", (v if v.op != "obj" else self.freeze(st, v),)))
            else:
                out.append(self.ev(x, st))
        return out

    def ev_List(self, e, st):
        return self.mklist(st, self.ev_starred(e.elts, st))

    def ev_Set(self, e, st):
        return self.g.mk("tuple", tuple(self.ev(x, st) for x in e.elts))

    def ev_Dict(self, e, st):
        o = self.new_obj("dict")
        h = {}
        for k, v in zip(e.keys, e.values):
            val = self.ev(v, st)
            if k is None:
                if val.op == "obj" and self.obj(val).kind == "dict":
                    o2 = self.obj(val)
                    if o2.symbolic or self.rd(st, o2, "arr") is not None:
                        if h:
                            ks = sorted((x for x in h if isinstance(x, tuple)), key=repr)
                            c = h.get("arr") or self.g.mk("dictlit", tuple(h[x] for x in ks), tuple(x[1] for x in ks))
                            h["arr"] = self.g.mk("call", (c, self.dict_content(st, o2)), ".update")
                        else:
                            h["arr"] = self.dict_content(st, o2)
                    else:
                        hh = dict(o2.init); hh.update(st.heap.get(o2.oid) or {})
                        h.update(hh)
                else:
                    h["**"] = val
                continue
            kn = self.ev(k, st)
            if kn.op == "const" and "arr" not in h:
                h[("k", kn.attr)] = val
            else:
                if "arr" not in h:
                    ks = sorted((x for x in h if isinstance(x, tuple)), key=repr)
                    h["arr"] = self.g.mk("dictlit", tuple(h[x] for x in ks), tuple(x[1] for x in ks))
                h["arr"] = self.g.mk("store", (h["arr"], kn, val), "dict")
                if self.has_obj(val):
                    h["*"] = val if "*" not in h else self.join(h["*"], val)
        st.heap[o.oid] = h
        st.touch()
        o.alloc_site = self.where(e)
        return o.node

    def ev_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st)
                if v.conversion not in (-1, 115):
                    x = self.g.mk("call", (x,), f"conv{v.conversion}")
                if v.format_spec is not None:
                    x = self.g.mk("call", (x, self.ev(v.format_spec, st)), "format")
                parts.append(x)
            else:
                parts.append(self.g.const(v.value))
        return self.mkfmt(parts)

    def mkfmt(self, parts):
        """text built from pieces: f-string, str.format, concatenation"""
        out = []
        for p in parts:
            if p.op == "call" and p.attr == "str" and len(p.args) == 1:
                p = p.args[0]
            sub = list(p.args) if p.op == "fmt" else [p]
            for x in sub:
                if x.op == "const" and not isinstance(x.attr, float):
                    if x.attr == "" :
                        continue
                    if out and out[-1].op == "const" and not isinstance(out[-1].attr, float):
                        out[-1] = self.g.const(str(out[-1].attr) + str(x.attr)); continue
                    x = self.g.const(str(x.attr))
                out.append(x)
        if not out:
            return self.g.const("")
        if len(out) == 1 and out[0].op == "const" and isinstance(out[0].attr, str):
            return out[0]
        return self.g.mk("fmt", tuple(out))

    def str_format(self, s, args, kwargs):
        """'..{}..{name}'.format(...) with plain or formatted fields, else None"""
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(self.g.const(lit))
                if field is None:
                    continue
                if field == "":
                    x = args[auto]; auto += 1
                elif field.isdigit():
                    x = args[int(field)]
                elif field in kwargs:
                    x = kwargs[field]
                else:
                    return None
                if conv not in (None, "s"):
                    x = self.g.mk("call", (x,), f"conv{ord(conv)}")
                if spec:
                    if "{" in spec:
                        return None
                    x = self.g.mk("call", (x, self.g.const(spec)), "format")
                parts.append(x)
        except (ValueError, IndexError):
            return None
        return self.mkfmt(parts)

    def ev_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        return self.binop(st, BINOPS[type(e.op)], a, b)

    def binop(self, st, op, a, b):
        g = self.g
        a, b = self.refine(st, a), self.refine(st, b)
        self.crash(st, a, None)
        self.crash(st, b, None)
        if op == "*":
            for x, y in ((a, b), (b, a)):
                items = self.list_items(st, x) if x.op in ("obj", "tuple") else None
                if items is not None and not (y.op in ("obj", "tuple")):
                    if y.op == "const" and isinstance(y.attr, int) and len(items) * y.attr <= 30:
                        r = items * y.attr
                        return self.mklist(st, r) if x.op == "obj" else g.mk("tuple", tuple(r))
                    if x.op == "obj":
                        o = self.new_obj("list")
                        st.heap[o.oid] = {"items": g.mk("repeat", (g.mk("tuple", tuple(items)), y))}
                        if items and self.has_obj(items[0]):
                            st.heap[o.oid]["*"] = items[0]
                        st.touch()
                        return o.node
        if op == "+" and any(x.op == "fmt" or (x.op == "const" and isinstance(x.attr, str)) for x in (a, b)):
            return self.mkfmt([a, b])
        if op == "+":
            ia = self.list_items(st, a) if a.op in ("obj", "tuple") else None
            ib = self.list_items(st, b) if b.op in ("obj", "tuple") else None
            if ia is not None and ib is not None:
                r = ia + ib
                return self.mklist(st, r) if a.op == "obj" else g.mk("tuple", tuple(r))
            if a.op == "obj" and self.obj(a).kind == "list" and b.op == "obj":
                o = self.new_obj("list")
                st.heap[o.oid] = {"items": g.mk("extend", (self.content(st, a), self.content(st, b)))}
                el = self.join(self.elem(st, a), self.elem(st, b))
                if self.has_obj(el):
                    st.heap[o.oid]["*"] = el
                st.touch()
                return o.node
        return g.bin(op, self.val(st, a), self.val(st, b))

    def ev_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            v = self.cnd(st, v)
            t = self.truth(st, v)
            return self.g.const(not t) if t is not None else self.g.not_(v)
        if isinstance(e.op, ast.USub):
            return self.g.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.g.mk("un", (v,), "~")

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        return self._boolop(isand, e.values, st)

    def _boolop(self, isand, values, st):
        g = self.g
        v = self.ev(values[0], st)
        if len(values) == 1:
            return v
        t = self.truth(st, v)
        if t is not None:
            if t is isand:
                return self._boolop(isand, values[1:], st)
            return v
        c = self.cnd(st, v)
        s1 = st.copy(); s2 = st.copy()
        self.assume(s1, c, isand)      # continue
        self.assume(s2, c, not isand)  # short-circuit
        try:
            r = self._boolop(isand, values[1:], s1)
        except Dead:
            st.heap, st.facts, st.hv = s2.heap, s2.facts, s2.hv
            return v
        m = self.merge(c, s1, s2) if isand else self.merge(c, s2, s1)
        st.heap, st.hv = m.heap, m.hv
        st.facts = m.facts
        if g.isbool(v) and g.isbool(r):
            return g.and_([v, r]) if isand else g.or_([v, r])
        return g.phi(c, r, v) if isand else g.phi(c, v, r)

    def ev_Compare(self, e, st):
        g = self.g
        left = self.ev(e.left, st)
        res = []
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st)
            res.append(self.compare(st, op, left, right))
            left = right
        return g.and_(res) if len(res) > 1 else res[0]

    def compare(self, st, op, a, b):
        g = self.g
        a, b = self.refine(st, a), self.refine(st, b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b.op == "const" and b.attr is None:
                r = g.isnone(a)
            elif a.op == "const" and a.attr is None:
                r = g.isnone(b)
            elif a is b:
                r = g.const(True)
            elif a.op == "obj" and b.op == "obj":
                r = g.const(False)
            elif a.op == "const" and b.op == "const":
                r = g.const(a.attr is b.attr)
            elif b.op == "const" and isinstance(b.attr, bool) and g.isbool(a):
                r = a if b.attr else g.not_(a)
            else:
                r = g.mk("is", tuple(sorted((a, b), key=lambda n: n.id)))
            r = g.not_(r) if isinstance(op, ast.IsNot) else r
        elif isinstance(op, (ast.In, ast.NotIn)):
            r = self.has_key(st, b, a)
            r = g.not_(r) if isinstance(op, ast.NotIn) else r
        else:
            o = CMPOPS[type(op)]
            if o in ("==", "!=") and b.op == "const" and isinstance(b.attr, bool) and g.isbool(a):
                r = a if (b.attr == (o == "==")) else g.not_(a)
            elif (o in ("==", "!=")) and (a.op == "obj" or b.op == "obj") and a is not b:
                fa = self.freeze(st, a) if a.op == "obj" and self.obj(a).kind == "list" else a
                fb = self.freeze(st, b) if b.op == "obj" and self.obj(b).kind == "list" else b
                r = g.mk("cmp", (fa, fb), "==")
                r = g.not_(r) if o == "!=" else r
            else:
                r = g.cmp(o, a, b)
        t = self.truth(st, r)
        return g.const(t) if t is not None else r

    def ev_IfExp(self, e, st):
        c = self.cnd(st, self.ev(e.test, st))
        return self.cond_eval(st, c, lambda s: self.ev(e.body, s), lambda s: self.ev(e.orelse, s))

    def cond_eval(self, st, c, f1, f2):
        t = self.truth(st, c)
        if t is True:
            return f1(st)
        if t is False:
            return f2(st)
        s1, s2 = st.copy(), st.copy()
        self.assume(s1, c, True); self.assume(s2, c, False)
        s1.pc = s1.pc + ((c, True),); s2.pc = s2.pc + ((c, False),)
        v1 = v2 = None
        try:
            v1 = f1(s1)
        except Dead:
            s1 = None
        try:
            v2 = f2(s2)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        self.merge_into(st, c, s1, s2)
        if s1 is None:
            return v2
        if s2 is None:
            return v1
        return self.g.phi(c, v1, v2)

    def ev_Call(self, e, st):
        fn = self.ev(e.func, st)
        args, kwargs, starkw = [], {}, None
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                items = self.list_items(st, v)
                if items is not None:
                    args.extend(items)
                else:
                    args.append(self.g.mk("star", (v,)))
            else:
                args.append(self.ev(x, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if v.op == "phi":
                    # **({} if c else {...}): evaluate separately for both sides
                    if all(l.op == "obj" and self.obj(l).kind == "dict" for l in self._obj_leaves(v)):
                        def go(s, leaf, fn=fn, args=args, kwargs=kwargs):
                            o2 = self.obj(leaf)
                            hh = dict(o2.init); hh.update(s.heap.get(o2.oid) or {})
                            kw = dict(kwargs)
                            kw.update({kk[1]: vv for kk, vv in hh.items() if isinstance(kk, tuple)})
                            return self.call(s, fn, list(args), kw, e)
                        return self.split(st, v, go)
                if v.op == "obj" and self.obj(v).kind == "dict":
                    o2 = self.obj(v)
                    hh = dict(o2.init); hh.update(st.heap.get(o2.oid) or {})
                    for kk, vv in hh.items():
                        if isinstance(kk, tuple):
                            kwargs[kk[1]] = vv
                        elif kk == "**":
                            starkw = vv
                    if o2.symbolic:
                        starkw = v
                else:
                    starkw = v
            else:
                kwargs[k.arg] = v
        return self.refine(st, self.call(st, fn, args, kwargs, e, starkw))

    def ev_Lambda(self, e, st):
        fr = self.frames[-1]
        f = Func(e, fr.module, fr.func.cls if fr.func else None, f"<lambda>:{e.lineno}", "func", self.captured(fr, st))
        return self.funcnode(f)

    def captured(self, fr, st):
        """what a nested function sees of its surroundings"""
        env = {k: self.from_lookup(self.prog.resolve_import(v)) for k, v in fr.local_imports.items()}
        env.update(fr.closure or {})
        env.update(st.env)
        return env

    def ev_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def ev_Starred(self, e, st):
        return self.g.mk("star", (self.ev(e.value, st),))

    def ev_ListComp(self, e, st):
        return self.comp(e, e.elt, st, "list")

    def ev_GeneratorExp(self, e, st):
        return self.comp(e, e.elt, st, "gen")

    def ev_SetComp(self, e, st):
        return self.comp(e, e.elt, st, "list")

    def ev_DictComp(self, e, st):
        s = st.copy()
        gen = e.generators[0]
        it = self.ev(gen.iter, s)
        items = self.list_items(s, it)
        o = self.new_obj("dict")
        h = {}
        if items is not None and len(e.generators) == 1 and not gen.ifs:
            for x in items:
                self.assign(gen.target, x, s)
                k, v = self.ev(e.key, s), self.ev(e.value, s)
                if k.op == "const" and "arr" not in h:
                    h[("k", k.attr)] = v
                else:
                    if "arr" not in h:
                        ks = sorted((x for x in h if isinstance(x, tuple)), key=repr)
                        h["arr"] = self.g.mk("dictlit", tuple(h[x] for x in ks), tuple(x[1] for x in ks))
                    h["arr"] = self.g.mk("store", (h["arr"], k, v), "dict")
                    if self.has_obj(v):
                        h["*"] = v if "*" not in h else self.join(h["*"], v)
        else:
            its, conds = [], []
            for gen in e.generators:
                it = self.ev(gen.iter, s)
                its.append(self.val(s, it))
                el = self.elem(s, it)
                self.loops.append(Loop(self.cur(s, it)))
                self.enter_comp(s, it, gen)
                self.assign(gen.target, el, s)
                for c in gen.ifs:
                    cn = self.ev(c, s)
                    conds.append(cn)
                    self.assume(s, cn, True)
                    s.pc = s.pc + ((cn, True),)
            try:
                k, v = self.ev(e.key, s), self.ev(e.value, s)
            except Dead:
                k, v = self.g.src("?dead"), self.g.src("?dead")
            for gen in e.generators:
                self.loops.pop()
            h["arr"] = self.g.mk("dictcomp", (k, v) + tuple(its) + tuple(conds), len(its))
            if self.has_obj(v):
                h["*"] = v
        st.heap[o.oid] = h
        for oid, hh in s.heap.items():
            if oid not in st.heap:
                st.heap[oid] = hh
        st.touch()
        return o.node

    def filtered(self, gen, elt, st):
        it = self.ev(gen.iter, st)
        xs = self.list_items(st, it)
        if xs is None or len(xs) > 5:
            return None
        c = self.g.mk("tuple", ())
        for x in xs:
            self.assign(gen.target, x, st)
            cond = self._boolop(True, gen.ifs, st)
            t = self.truth(st, cond)
            if t is False:
                continue
            hv = st.hv
            v = self.ev(elt, st)
            if st.hv != hv:
                return None
            c1 = self.appended(c, v)
            c = c1 if t else self.g.phi(cond, c1, c)
        return c

    def appended(self, c, v):
        """content with one more element"""
        if c.op == "tuple":
            return self.g.mk("tuple", c.args + (v,))
        if c.op == "phi":
            ls = self._obj_leaves(c, 20)
            if len(ls) <= 16 and all(l.op == "tuple" for l in ls):
                def go(n):
                    return self.g.mk("tuple", n.args + (v,)) if n.op == "tuple" else self.g.phi(n.args[0], go(n.args[1]), go(n.args[2]))
                return go(c)
        return self.g.mk("append", (c, v))

    def enter_comp(self, s, it, gen):
        """what the element expression raises, it raises for some element"""
        lid = f"{self.frames[-1].module.name}:{getattr(gen.target, 'lineno', 0)}c#{next(self.uid)}"
        self.g.loops[lid] = {"iter": self.val(s, it), "test": None, "exits": 0, "where": "", "breaks": [], "rets": []}
        s.pc = s.pc + ((self.g.mk("opaque", (), ("iter", lid)), True),)

    def comp(self, e, elt, st, kind):
        g = self.g
        saved = dict(st.env)
        gens = e.generators

        def rec(i, st):
            """-> list of items (exact) or None"""
            if i == len(gens):
                return [self.ev(elt, st)]
            it = self.ev(gens[i].iter, st)
            items = self.list_items(st, it)
            if items is None:
                return None
            out = []
            for x in items:
                self.assign(gens[i].target, x, st)
                conds = [self.ev(c, st) for c in gens[i].ifs]
                ts = [self.truth(st, c) for c in conds]
                if any(t is False for t in ts):
                    continue
                if any(t is None for t in ts):
                    return None
                sub = rec(i + 1, st)
                if sub is None:
                    return None
                out.extend(sub)
            return out

        trial = st.copy()
        try:
            items = rec(0, trial)
        except Dead:
            items = None
        if items is None and len(gens) == 1 and gens[0].ifs:
            # a few exact items, each kept or not: the list is one of several exact lists
            trial = st.copy()
            try:
                c = self.filtered(gens[0], elt, trial)
            except Dead:
                c = None
            if c is not None:
                st.heap, st.facts, st.hv = trial.heap, trial.facts, trial.hv
                st.env = saved
                if kind != "list":
                    return c
                o = self.new_obj("list")
                st.heap[o.oid] = {"items": c}
                st.touch()
                return o.node
        if items is not None:
            st.heap, st.facts, st.hv = trial.heap, trial.facts, trial.hv
            st.env = saved
            return self.mklist(st, items) if kind == "list" else g.mk("tuple", tuple(items))
        # symbolic
        s = st.copy()
        its, conds = [], []
        for gen in gens:
            it = self.ev(gen.iter, s)
            its.append(it)
            el = self.elem(s, it)
            self.loops.append(Loop(self.cur(s, it)))
            self.enter_comp(s, it, gen)
            self.assign(gen.target, el, s)
            for c in gen.ifs:
                cn = self.ev(c, s)
                conds.append(cn)
                self.assume(s, cn, True)
                s.pc = s.pc + ((cn, True),)
        hv = s.hv
        try:
            v = self.ev(elt, s)
        except Dead:
            v = g.src("?dead")
        for _ in gens:
            self.loops.pop()
        s.pc = st.pc
        if s.hv != hv:
            oc = g.mk("opaque", (), ("comp", next(self.uid)))
            m = self.merge(oc, s, st)
            st.heap, st.hv = m.heap, m.hv
        st.env = saved
        if v.op == "obj" and kind == "list":
            o = self.new_obj("list")
            its2 = [self.val(s, it) for it in its]
            st.heap[o.oid] = {"*": v, "items": g.mk("comp", (v,) + tuple(its2) + tuple(conds), len(its2))}
            st.touch()
            return o.node
        its2 = []
        for it in its:
            its2.append(self.val(s, it))
        return g.mk("comp", (v,) + tuple(its2) + tuple(conds), len(its2))

    # ------------------------------------------------------------------ stmts
    def block(self, stmts, st):
        for s in stmts:
            try:
                st = self.stmt(s, st)
            except Dead:
                return None
            if st is None:
                return None
        return st

    def stmt(self, s, st):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
                return st
            raise AnalysisBroken(f"unsupported statement {type(s).__name__} at {self.where(s)}")
        return m(s, st)

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Call):
            self.stmt_call = s.value
        self.ev(s.value, st)
        return st

    def st_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return st

    def st_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(st, t.id, t)
            v = self.ev(s.value, st)
            if cur.op == "obj" and self.obj(cur).kind == "list" and isinstance(s.op, ast.Add):
                self.container_method(st, cur, "extend", [v], {}, s)
                return st
            st.env[t.id] = self.binop(st, BINOPS[type(s.op)], cur, v)
        elif isinstance(t, ast.Attribute):
            on = self.ev(t.value, st)
            cur = self.refine(st, self.field(st, on, t.attr, t))
            v = self.ev(s.value, st)
            self.store_attr(st, on, t.attr, self.binop(st, BINOPS[type(s.op)], cur, v), s)
        elif isinstance(t, ast.Subscript):
            on = self.ev(t.value, st)
            ix = self.ev(t.slice, st) if not isinstance(t.slice, ast.Slice) else self.g.src("?slice")
            cur = self.subscript(st, on, ix, t)
            v = self.ev(s.value, st)
            self.store_sub(st, on, ix, self.binop(st, BINOPS[type(s.op)], cur, v), s)
        return st

    def store_attr(self, st, on, name, v, node):
        on = self.refine(st, on)
        if on.op == "phi":
            for c, leaf in self._leaves_with_cond(on):
                if leaf.op == "obj" and self.obj(leaf).kind == "inst":
                    o = self.obj(leaf)
                    old = self.rd(st, o, name)
                    if old is None:
                        old = self.entry_value(o, name)
                    self.wr(st, o, name, self.g.phi(c, v, old))
            return
        if on.op == "obj" and self.obj(on).kind == "inst":
            o = self.obj(on)
            if self.keep_events:
                self.events.append(("setattr", f"{o.cls.name}.{name}", (on, v), {}, self.where(node), None))
            if self.rd(st, o, name) is None and o.symbolic:
                self.entry_value(o, name)
            self.wr(st, o, name, v)
        elif on.op == "func":
            # a cache kept on a function (ambient state is the subject of the effect rules)
            st.env[f"@{self.funcs[on.attr].name}.{name}"] = v
        else:
            if self.keep_events:
                self.events.append(("store", f".{name}", (on, v), {}, self.where(node), None))

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.list_items(st, v)
            v = self.refine(st, v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if items is not None and not star and len(items) == len(t.elts):
                for x, y in zip(t.elts, items):
                    self.assign(x, y, st)
            else:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, self.g.mk("slice", (v, self.g.const(i), self.g.const(None), self.g.const(None))), st)
                    else:
                        self.assign(x, self.subscript(st, v, self.g.const(i)), st)
        elif isinstance(t, ast.Attribute):
            on = self.ev(t.value, st)
            self.store_attr(st, on, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            on = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                sl = [self.ev(x, st) if x is not None else self.g.const(None) for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                ix = self.g.mk("call", tuple(sl), "slice")
                self.store_sub(st, on, ix, self.val(st, v), t)
            else:
                ix = self.ev(t.slice, st)
                self.store_sub(st, on, ix, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def st_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else self.g.const(None)
        self.frames[-1].returns.append(Exit("return", v, st.copy(), self.where(s)))
        return None

    def st_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else self.g.src("?reraise")
        self.raises.append(Exit("raise", v, st.copy(), self.where(s)))
        return None

    def st_Assert(self, s, st):
        c = self.cnd(st, self.ev(s.test, st))
        t = self.truth(st, c)
        if t is False:
            self.raises.append(Exit("raise", self.g.src("AssertionError"), st.copy(), self.where(s)))
            return None
        if t is None:
            x = st.copy()
            self.assume(x, c, False)
            x.pc = st.pc + ((c, False),)
            self.raises.append(Exit("raise", self.g.src("AssertionError"), x, self.where(s)))
            self.assume(st, c, True)
            st.pc = st.pc + ((c, True),)
        return st

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                on = self.ev(t.value, st)
                ix = self.ev(t.slice, st) if not isinstance(t.slice, ast.Slice) else self.g.src("?slice")
                if on.op == "obj" and self.obj(on).kind == "dict":
                    self.container_method(st, on, "pop", [ix], {}, t)
                elif on.op == "obj" and self.obj(on).kind == "list":
                    self.container_method(st, on, "pop", [ix], {}, t)
                elif on.op != "obj":
                    self.mutate(st, t.value, on, lambda c: self.g.mk("call", (c, ix), ".pop"))
        return st

    def st_FunctionDef(self, s, st):
        fr = self.frames[-1]
        f = Func(s, fr.module, fr.func.cls if fr.func else None, f"{fr.func.qual if fr.func else ''}.<locals>.{s.name}", "func", None)
        env = self.captured(fr, st)
        f.closure = env
        st.env[s.name] = self.funcnode(f)
        env[s.name] = st.env[s.name]
        return st

    def st_ClassDef(self, s, st):
        return st

    def cnd(self, st, n):
        """a value used as a condition: a container counts by its contents at this point"""
        if n.op == "obj":
            o = self.obj(n)
            if o.kind == "list" and self.truth(st, n) is None:
                return self.content(st, n)
            if o.kind == "dict" and not o.symbolic and self.truth(st, n) is None:
                return self.dict_content(st, o)
            return n
        return self.cur(st, n)

    def st_If(self, s, st):
        c = self.cnd(st, self.ev(s.test, st))
        t = self.truth(st, c)
        if t is True:
            return self.block(s.body, st)
        if t is False:
            return self.block(s.orelse, st)
        s1, s2 = st.copy(), st.copy()
        self.assume(s1, c, True); self.assume(s2, c, False)
        s1.pc = st.pc + ((c, True),)
        s2.pc = st.pc + ((c, False),)
        r1 = self.block(s.body, s1)
        r2 = self.block(s.orelse, s2)
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        m = self.merge(c, r1, r2)
        n = len(st.pc) + 1
        e1, e2 = self.pc_cond(r1.pc[n:]), self.pc_cond(r2.pc[n:])
        m.pc = st.pc
        left = self.g.phi(c, e1, e2)          # some paths left from inside: those that did not
        if not (left.op == "const" and left.attr is True):
            m.pc = st.pc + ((left, True),)
        return m

    def st_With(self, s, st):
        for item in s.items:
            v = self.ev(item.context_expr, st)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st)
        return self.block(s.body, st)

    def exc_matches(self, h, exc):
        """does handler h certainly / possibly catch the raised node?  True / False / None"""
        if h.type is None:
            return True
        names = []
        for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            names.append(x.id if isinstance(x, ast.Name) else getattr(x, "attr", ""))
        if "Exception" in names or "BaseException" in names:
            return True
        en = None
        if exc.op == "call":
            en = exc.attr.split("|")[0]
        elif exc.op == "ext":
            en = exc.attr.replace("builtins.", "")
        if en is None:
            return None
        if en in names or EXC_PARENTS.get(en, set()) & set(names):
            return True
        return False

    QUIET_CALLS = {"len", "range", "enumerate", "list", "tuple", "abs", "round", "zip", "sorted", "dict", "set", "bool", "str",
                   "isinstance", "reversed", ".append", ".copy", ".get", ".items", ".values", ".keys", "print", "repr"}

    def implicit_exc(self, h, logged):
        """condition "some call or subscript of the block raised what h catches", named by those operations"""
        names = []
        if h.type is not None:
            for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                names.append(x.id if isinstance(x, ast.Name) else getattr(x, "attr", ""))
        wide = not names or "Exception" in names or "BaseException" in names
        ops = []
        for n in logged:
            if n.op == "call" and n.attr.split("|")[0] not in self.QUIET_CALLS and not n.attr.split("|")[0].endswith(("Error", "Exception", "Warning")):
                ops.append(n)
            elif n.op == "idx" and (wide or set(names) & {"KeyError", "IndexError", "LookupError"}):
                ops.append(n)
        if not ops:
            return None
        return self.g.mk("raised", tuple(sorted(ops, key=lambda n: n.id)), ",".join(sorted(names)))

    def pc_cond(self, pc):
        out = []
        for c, b in pc:
            out.append(c if b else self.g.not_(c))
            if c.op == "opaque" and isinstance(c.attr, tuple) and c.attr[0] == "iter":
                break
        return self.g.and_(out) if out else self.g.const(True)

    def st_Try(self, s, st):
        fr = self.frames[-1]
        entry = st.copy()
        outer = (self.raises, fr.returns, [(l.breaks, l.continues) for l in self.loops])
        self.raises = []
        if s.finalbody:
            fr.returns = []
            for l in self.loops:
                l.breaks, l.continues = [], []
        lg0 = len(self.g.log)
        end = self.block(s.body, st)
        logged = tuple(dict.fromkeys(self.g.log[lg0:]))
        body_raises = self.raises
        self.raises = []
        if end is not None:
            if s.orelse:
                end = self.block(s.orelse, end)
        if s.handlers:
            rest = []
            caught_any = {id(h): [] for h in s.handlers}
            for e in body_raises:
                handled = False
                for h in s.handlers:
                    mt = self.exc_matches(h, e.val)
                    if mt is not False:
                        caught_any[id(h)].append(e)
                        if mt is True:
                            handled = True
                            break
                if not handled:
                    rest.append(e)
            hends = []
            for h in s.handlers:
                # entered through an explicit raise, or through a call or subscript of the block that fails
                oc = self.implicit_exc(h, logged)
                hs, conds = entry.copy(), []
                if oc is not None:
                    conds.append(oc)
                    if end is not None:
                        hs = self.merge(self.g.mk("raised_late", (oc,)), end.copy(), hs)
                for x in caught_any[id(h)]:
                    c = self.pc_cond(x.st.pc[len(entry.pc):] if x.st.pc[:len(entry.pc)] == entry.pc else x.st.pc)
                    conds.append(c)
                    hs = self.merge(c, x.st.copy(), hs)
                if not conds:
                    continue               # nothing in the block can raise into this handler
                c = self.g.or_(conds) if len(conds) > 1 else conds[0]
                hs.pc = entry.pc + ((c, True),)
                if h.name:
                    hs.env[h.name] = self.g.src("?exc")
                r = self.block(h.body, hs)
                hends.append((c, r))
                if end is not None:
                    end.pc = end.pc + ((c, False),) if r is None else end.pc
            for c, r in hends:
                if r is not None:
                    pc = end.pc if end is not None else r.pc
                    end = self.merge(c, r, end) if end is not None else r
                    end.pc = pc
            body_raises = rest + self.raises
            self.raises = []
        if s.finalbody:
            inner_returns, inner_loops = fr.returns, [(l.breaks, l.continues) for l in self.loops]
            self.raises, fr.returns = outer[0], outer[1]
            for l, (b, c) in zip(self.loops, outer[2]):
                l.breaks, l.continues = b, c
            if end is not None:
                end = self.block(s.finalbody, end)
            for e in body_raises:
                x = self.block(s.finalbody, e.st)
                if x is not None:
                    e.st = x
                    self.raises.append(e)
            for e in inner_returns:
                x = self.block(s.finalbody, e.st)
                if x is not None:
                    e.st = x
                    fr.returns.append(e)
            for l, (b, c) in zip(self.loops, inner_loops):
                for lst, dst in ((b, l.breaks), (c, l.continues)):
                    for e in lst:
                        x = self.block(s.finalbody, e.st)
                        if x is not None:
                            e.st = x
                            dst.append(e)
        else:
            self.raises = outer[0]
            self.raises.extend(body_raises)
        return end

    st_TryStar = st_Try

    def st_Break(self, s, st):
        self.loops[-1].breaks.append(Exit("break", None, st.copy()))
        return None

    def st_Continue(self, s, st):
        self.loops[-1].continues.append(Exit("continue", None, st.copy()))
        return None

    # -- loops ----------------------------------------------------------------
    def st_For(self, s, st):
        it = self.ev(s.iter, st)
        items = self.list_items(st, it)
        if items is not None and len(items) <= UNROLL:
            return self.unrolled(s, items, st)
        el = self.elem(st, it)
        if not self.has_obj(el):
            it = self.val(st, it)
            el = self.elem(st, it)
        return self.loop(s, st, it, el, None)

    def unrolled(self, s, items, st):
        lp = Loop(None); lp.unrolled = True
        self.loops.append(lp)
        cur = st
        breaks = []
        pc0 = st.pc
        try:
            for x in items:
                if cur is None:
                    break
                lp.continues = []
                self.assign(s.target, x, cur)
                end = self.block(s.body, cur)
                outs = [e.st for e in lp.continues] + ([end] if end is not None else [])
                cur = None
                if outs:
                    _, cur = self.merge_states(outs)
        finally:
            self.loops.pop()
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur)
        outs = [e.st for e in lp.breaks] + ([cur] if cur is not None else [])
        if not outs:
            return None
        _, r = self.merge_states(outs)
        return r

    def merge_states(self, states):
        if len(states) == 1:
            return None, states[0]
        ex = [Exit("return", self.g.const(None), s) for s in states]
        return self.merge_returns(ex)

    def st_While(self, s, st):
        if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and len(s.body) > 1 and isinstance(s.body[0], ast.If) \
                and not s.body[0].orelse and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Break):
            t = s.body[0].test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            w = ast.copy_location(ast.While(test=ast.copy_location(t, s), body=s.body[1:], orelse=[]), s)
            w = ast.fix_missing_locations(w)
            return self.st_While(w, st)
        v = self.counter(s, st)
        if v is not None:
            name, hi = v
            lo, h = st.env[name], self.ev(hi, st)
            it = self.ext_call(st, "range", [lo, h], {}, s)
            f = ast.For(target=ast.copy_location(ast.Name(name, ast.Store()), s), iter=hi, body=s.body[:-1] or [ast.copy_location(ast.Pass(), s)], orelse=s.orelse)
            ast.copy_location(f, s); f.end_lineno = s.end_lineno
            items = self.list_items(st, it)
            if items is not None and len(items) <= UNROLL:
                r = self.unrolled(f, items, st)
            else:
                r = self.loop(f, st, it, self.elem(st, it), None)
            if r is not None:
                r.env[name] = self.g.minmax("max", [lo, h])
                r.touch()
            return r
        return self.loop(s, st, None, None, s.test)

    def counter(self, s, st):
        """`while v < hi: ...; v += 1` with v and hi otherwise unchanged, left only at the test (or by
        return/raise, or by break when v is not read after) — the loop `for v in range(v, hi)`"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            l, r = r, l
        elif not isinstance(t.ops[0], ast.Lt):
            return None
        if not (isinstance(l, ast.Name) and l.id in st.env):
            return None
        v, inc = l.id, s.body[-1]
        one = lambda e: isinstance(e, ast.Constant) and e.value == 1 and type(e.value) is int
        isv = lambda e: isinstance(e, ast.Name) and e.id == v
        if isinstance(inc, ast.AugAssign):
            if not (isv(inc.target) and isinstance(inc.op, ast.Add) and one(inc.value)):
                return None
        elif isinstance(inc, ast.Assign) and len(inc.targets) == 1 and isv(inc.targets[0]) and isinstance(inc.value, ast.BinOp) and isinstance(inc.value.op, ast.Add):
            a, b = inc.value.left, inc.value.right
            if not ((isv(a) and one(b)) or (isv(b) and one(a))):
                return None
        else:
            return None
        rest = s.body[:-1]
        brk = [False]

        def own(b):      # continue / break of this loop
            for x in b:
                if isinstance(x, ast.Continue):
                    return False
                if isinstance(x, ast.Break):
                    brk[0] = True
                for f in ("body", "orelse", "finalbody"):
                    y = getattr(x, f, None)
                    if isinstance(y, list) and y and isinstance(y[0], ast.stmt):
                        if isinstance(x, (ast.For, ast.While)) and f == "body":
                            continue
                        if not own(y):
                            return False
                for hd in getattr(x, "handlers", ()):
                    if not own(hd.body):
                        return False
            return True
        if not own(rest):
            return None
        stored = {n.id for b in rest for n in ast.walk(b) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        recv = {n.func.value.id for b in rest for n in ast.walk(b) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)}
        if v in stored:
            return None
        if brk[0]:
            inside = {id(n) for n in ast.walk(s)}
            fn = self.frames[-1].func
            if fn is None or any(isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load) and id(n) not in inside for n in ast.walk(fn.node)):
                return None
        lo = st.env[v]
        if not (lo.op == "const" and isinstance(lo.attr, int)):
            return None

        def fixed(e):
            if isinstance(e, ast.Constant):
                return True
            if isinstance(e, ast.Name):
                return e.id != v and e.id not in stored
            if isinstance(e, ast.BinOp):
                return fixed(e.left) and fixed(e.right)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and isinstance(e.args[0], ast.Name):
                return fixed(e.args[0]) and e.args[0].id not in recv
            return False
        return (v, r) if fixed(r) else None

    def loop(self, s, st, it, el, test):
        """fixpoint on the set of loop-carried locations"""
        g = self.g
        carried: dict = {}           # loc -> mu node
        lid = f"{self.frames[-1].module.name}:{s.lineno}#{next(self.uid)}"
        for rounds in range(12):
            lp = Loop(it)
            head = st.copy()
            for loc, mu in carried.items():
                if loc[0] == "env":
                    head.env[loc[1]] = mu
                else:
                    h = dict(head.heap.get(loc[1], ()))
                    h[loc[2]] = mu
                    head.heap[loc[1]] = h
            if carried:
                head.touch()
            nraise, nret = len(self.raises), len(self.frames[-1].returns)
            nev = len(self.events)
            body = head.copy()
            self.loops.append(lp)
            exitstate = head.copy()
            cond = None
            dead = False
            try:
                if test is not None:
                    try:
                        cond = self.cnd(body, self.ev(test, body))
                    except Dead:
                        dead = True
                    if not dead:
                        t = self.truth(body, cond)
                        exitstate = body.copy()
                        if t is True:
                            exitstate = None
                        elif t is False:
                            dead = True
                        else:
                            self.assume(body, cond, True)
                            self.assume(exitstate, cond, False)
                            body.pc = body.pc + ((g.mk("opaque", (), ("iter", lid)), True), (cond, True))
                            lp.pclen = len(body.pc)
                elif s.target is not None:
                    oc = g.mk("opaque", (), ("iter", lid))
                    body.pc = body.pc + ((oc, True),)
                    lp.pclen = len(body.pc)
                    self.assign(s.target, el, body)
                end = None if dead else self.block(s.body, body)
            finally:
                self.loops.pop()
            backs = ([end] if end is not None else []) + [e.st for e in lp.continues]
            new = False
            nexts = {}
            if backs:
                _, back = self.merge_states([b.copy() for b in backs])
                # locations whose value at the back edge differs from the header
                for k in set(back.env) & set(head.env):
                    if back.env[k] is not head.env[k]:
                        loc = ("env", k)
                        nexts[loc] = back.env[k]
                        if loc not in carried:
                            carried[loc] = g.mk("mu", (), (lid, k)); new = True
                if back.hv != head.hv:
                    for oid, h in back.heap.items():
                        h0 = head.heap.get(oid)
                        if h is h0:
                            continue
                        if oid not in st.heap and oid not in head.heap and not self.objs[oid].symbolic and not self.objs[oid].init:
                            continue   # allocated inside the loop
                        o = self.objs[oid]
                        for f, v in h.items():
                            v0 = (h0 or {}).get(f)
                            if v0 is None:
                                v0 = self.missing(head, o, f) if (o.symbolic or f in o.init or f == "arr") else g.src("?undef")
                            if v is not v0:
                                loc = ("heap", oid, f)
                                nexts[loc] = v
                                if loc not in carried:
                                    mu = g.mk("mu", (), (lid, f"{o.path}.{f}" if isinstance(f, str) else f"{o.path}[{f[1]!r}]"))
                                    carried[loc] = mu; new = True
            if not new:
                break
            del self.raises[nraise:]
            del self.frames[-1].returns[nret:]
            del self.events[nev:]
        else:
            raise AnalysisBroken(f"loop fixpoint did not close at {self.where(s)}")
        for loc, mu in carried.items():
            if loc[0] == "env":
                init = st.env.get(loc[1], g.src("?undef"))
            else:
                o = self.objs[loc[1]]
                init = (st.heap.get(loc[1]) or {}).get(loc[2])
                if init is None:
                    init = self.missing(st, o, loc[2]) if (o.symbolic or loc[2] in o.init or loc[2] == "arr") else g.src("?undef")
            nxt = nexts.get(loc, mu)
            g.mu_def[mu] = (init, nxt)
        exits = len(lp.breaks) + (len(self.frames[-1].returns) - nret)
        exc = [tuple(e.st.pc[lp.pclen:]) for e in lp.breaks]
        exr = [tuple(e.st.pc[lp.pclen:]) for e in self.frames[-1].returns[nret:]]
        conj = lambda pcs: g.and_([c if b else g.not_(c) for c, b in pcs])
        g.loops[lid] = {"iter": it, "test": cond, "exits": exits, "where": self.where(s),
                        "breaks": [conj(x) for x in exc], "rets": [conj(x) for x in exr]}
        res = exitstate
        if res is not None:
            self.summarise_appends(st, res, lp, it, lid, exits)
            after = st.pc
            if len(self.frames[-1].returns) > nret:      # reached only when no return was taken
                after = after + ((g.mk("opaque", (), ("iter", lid)), False),)
            res.pc = after
            # variables first assigned in the body are available afterwards
            if backs:
                for k, v in back.env.items():
                    if k not in res.env:
                        res.env[k] = v
                for oid, h in back.heap.items():
                    if oid not in res.heap:
                        res.heap[oid] = h
            if s.orelse:
                if lp.breaks:
                    res.pc = after + ((g.mk("opaque", (), ("break", lid)), False),)
                res = self.block(s.orelse, res)
                if res is not None:
                    res.pc = after
        else:
            after = st.pc
        if lp.breaks:
            # the state at the break, selected by the condition that led there
            bs = []
            for e in lp.breaks:
                b = e.st.copy()
                b.facts = {k: v for k, v in b.facts.items() if st.facts.get(k) is v}
                bs.append(b)
            _, b = self.merge_states(bs)
            oc = g.mk("opaque", (), ("break", lid))
            if res is not None:
                b.pc = after
                res = self.merge(oc, b, res)
                res.pc = after
            else:
                res = b
                res.pc = after if exitstate is None else after + ((oc, True),)
        return res

    def reaches_loop(self, n, lid):
        seen, stack = set(), [n]
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "mu":
                if x.attr[0] == lid:
                    return True
                d = self.g.mu_def.get(x)
                if d:
                    stack += list(d)
            if x.op == "opaque":
                return True
            stack += list(x.args)
        return False

    def summarise_appends(self, st, res, lp, it, lid, exits):
        """a list filled by one append per iteration is the comprehension over the loop"""
        g = self.g
        by = {}
        for rec in lp.appends:
            by.setdefault(rec[0], []).append(rec)
        outer, opc = self.innermost(st)
        if outer is not None and outer.unrolled:
            outer = None
        for oid, recs in by.items():
            ok = len(recs) == 1 and not exits and it is not None and recs[0][2] is not None
            if ok:
                _, v, pcs = recs[0][:3]
                its = (it,) + (recs[0][3] if len(recs[0]) > 3 else ())
                conds = tuple(c if b else g.not_(c) for c, b in pcs)
                if self.reaches_loop(v, lid) or any(self.reaches_loop(c, lid) for c in conds):
                    ok = False
            if not ok:
                if outer is not None:
                    outer.appends.append((oid, None, None))
                continue
            o = self.objs[oid]
            fz = []
            for i in its:
                if i.op == "obj" and self.obj(i).kind == "list" and not self.obj(i).symbolic:
                    i = self.freeze(st, i)
                fz.append(i)
            seq = g.mk("comp", (v,) + tuple(fz) + conds, len(fz))
            h0 = st.heap.get(oid) or {}
            init = h0.get("items")
            if init is not None and init.op == "tuple":
                h = dict(res.heap.get(oid) or {})
                h["items"] = g.mk("extend", (init, seq)) if init.args else seq
                if self.has_obj(v):
                    h["*"] = v if not init.args else h.get("*", v)
                res.heap[oid] = h
                res.touch()
            elif outer is not None:
                outer.appends.append((oid, v, pcs + opc, its))

    # ------------------------------------------------------------------ entry
    def sym_args(self, f: Func, overrides=None, self_type=None, module=None):
        """symbolic arguments for an entry function"""
        st = State()
        out = {}
        a = f.node.args
        params = a.posonlyargs + a.args + a.kwonlyargs
        for i, p in enumerate(params):
            nm = p.arg
            if overrides and nm in overrides:
                v = overrides[nm]
                out[nm] = v if isinstance(v, Node) else self.symbolic(v, nm)
                continue
            if i == 0 and f.cls is not None and f.kind in ("method", "property"):
                out[nm] = self.symbolic(self_type or f.cls.name, "self")
                continue
            if i == 0 and f.kind == "classmethod":
                out[nm] = self.clsnode(self.prog.cls(self_type) if self_type else f.cls)
                continue
            t = self.type_from_ann(p.annotation, f.module) or self.param_types.get(nm)
            out[nm] = self.symbolic(t, nm)
        if a.kwarg:
            out[a.kwarg.arg] = None
        return st, out

    def run(self, f: Func, overrides=None, self_type=None, facts=None, st=None, pre=None):
        """analyse one entry function; returns Result"""
        self.raises = []
        self.frames = [Frame(None, f.module)]
        s0, env = self.sym_args(f, overrides, self_type)
        if st is not None:
            s0 = st
        args = {k: v for k, v in env.items() if v is not None}
        if facts:
            for c, v in facts(self, args):
                self.assume(s0, c, v)
        if pre:
            pre(self, s0, args)
        entry = s0.copy()
        names = [p.arg for p in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        try:
            val = self.call_func(s0, f, [], {n: args[n] for n in names if n in args}, f.node)
            end = s0
        except Dead:
            val, end = None, None
        return Result(self, f, args, entry, val, end, list(self.raises))


class Result:
    def __init__(self, ip, f, args, entry, val, end, raises):
        self.ip, self.f, self.args, self.entry, self.val, self.end, self.raises = ip, f, args, entry, val, end, raises

    def changed(self, st=None, skip_new=True):
        """(HObj, field, old, new) for every pre-existing location changed at the given exit state"""
        ip = self.ip
        st = st or self.end
        out = []
        for oid, h in st.heap.items():
            o = ip.objs[oid]
            if not (o.symbolic or oid in self.entry.heap or o.init):
                continue
            h0 = self.entry.heap.get(oid) or {}
            for f, v in h.items():
                old = h0.get(f)
                if old is None:
                    old = ip.entry_value(o, f) if (o.symbolic or f in o.init) else None
                v = ip.refine(st, v)
                if old is not None and v is not old:
                    out.append((o, f, old, v))
        return out


class Frame:
    def __init__(self, func, module):
        self.func, self.module = func, module
        self.returns = []
        self.closure = None
        self.local_imports = {}
        self.selfn = None
        self.changed = set()


class Loop:
    def __init__(self, it):
        self.iter = it
        self.breaks, self.continues = [], []
        self.unrolled = False
        self.appends = []
        self.pclen = 0


DEFAULT_PARAM_TYPES = {
    "building": "Building", "dhw_system": "DHWSystem", "uc": "UtilityCostTracker", "climate_zone": "ClimateZone",
    "water_heaters": "list:WaterHeater", "control_map": "dict:Controls",
    "tm_storage_tank": "MixedStorageTank", "tm_water_heater": "WaterHeater", "tm_controls": "Controls",
}


def may_be_none(an):
    if isinstance(an, ast.Constant) and isinstance(an.value, str):
        try:
            an = ast.parse(an.value, mode="eval").body
        except SyntaxError:
            return False
    if isinstance(an, ast.BinOp) and isinstance(an.op, ast.BitOr):
        return may_be_none(an.left) or may_be_none(an.right)
    if isinstance(an, ast.Constant):
        return an.value is None
    if isinstance(an, ast.Subscript):
        return (an.value.id if isinstance(an.value, ast.Name) else getattr(an.value, "attr", "")) == "Optional"
    return False


def _is_stub(fd):
    if not isinstance(fd, ast.FunctionDef):
        return False
    body = [s for s in fd.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, ast.Pass) for s in body)


def const_module_var(m: Module, name):
    """Evaluate module-level constant tables that are built by simple module-level
    loops over constant data (constant propagation over literals only)."""
    env = {}

    def ev(e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            raise KeyError(e.id)
        if isinstance(e, (ast.List, ast.Tuple)):
            return [ev(x) for x in e.elts]
        if isinstance(e, ast.BinOp):
            a, b = ev(e.left), ev(e.right)
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                    ast.FloorDiv: lambda: a // b}[type(e.op)]()
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return -ev(e.operand)
        if isinstance(e, ast.Subscript):
            return ev(e.value)[ev(e.slice)]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("sum", "len", "range", "list"):
            return {"sum": sum, "len": len, "range": range, "list": list}[e.func.id](*[ev(a) for a in e.args])
        raise KeyError(ast.dump(e)[:40])

    def run(body, budget=[0]):
        for s in body:
            budget[0] += 1
            if budget[0] > 3000:
                raise KeyError("budget")
            try:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                    env[s.targets[0].id] = ev(s.value)
                elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                    env[s.target.id] = ev(s.value)
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    a, b = env[s.target.id], ev(s.value)
                    env[s.target.id] = a + b if isinstance(s.op, ast.Add) else a - b
                elif isinstance(s, ast.For) and isinstance(s.target, ast.Name):
                    for x in list(ev(s.iter)):
                        env[s.target.id] = x
                        run(s.body)
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append":
                    ev(s.value.func.value).append(ev(s.value.args[0]))
            except (KeyError, TypeError, IndexError, AttributeError):
                continue
    try:
        run(m.tree.body)
    except KeyError:
        return None
    return env.get(name)
