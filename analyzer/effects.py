"""Which objects a function may modify, followed through calls and local aliases.

Every local value is described by two sets of origins: what the value may *be*
(`top`) and what may be reachable inside it (`deep`).  An origin is

  ("self",) / ("param", name)      the receiver or an argument
  (..., attr)                      an attribute (or element) path below it
  ("global", module, name)         a module-level object
  ("memo", qual)                   what a cached function returned (shared between callers)

Freshly built values have no origin.  An effect is (origin of the modified
object, attribute or '[]', line).  Flow-insensitive per function, bottom-up
fixpoint over the call graph; receivers are resolved through annotations,
parameter and field names, and class hierarchy.
"""
from __future__ import annotations
import ast
from .program import Program, Func

# what kind of object the package's variable / field names hold
ROLE = {
    "building": "Building", "climate_zone": "ClimateZone", "storage_tank": "StorageTank", "tm_storage_tank": "MixedStorageTank",
    "tank": "StorageTank", "tm_tank": "MixedStorageTank", "performance_map": "PerformanceMap", "pm": "PerformanceMap",
    "wh": "WaterHeater", "heater": "WaterHeater", "tm_wh": "WaterHeater", "tm_water_heater": "WaterHeater", "water_heater": "WaterHeater",
    "dhw_system": "DHWSystem", "system": "DHWSystem", "run": "SimulationRun", "simulation_run": "SimulationRun",
    "utility_cost_tracker": "UtilityCostTracker", "uct": "UtilityCostTracker", "controls": "Controls", "ctrl": "Controls",
    "engine": "EcosizerEngine",
}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard",
            "fill", "resize", "put", "itemset", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "appendleft", "popleft"}
MEMO = {"lru_cache", "cache", "cached_property"}
DEPTH = 6


def deco_names(node):
    out = set()
    for d in getattr(node, "decorator_list", []):
        if isinstance(d, ast.Call):
            d = d.func
        out.add(d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", ""))
    return out


class Val:
    __slots__ = ("top", "deep")

    def __init__(self, top=frozenset(), deep=frozenset()):
        self.top, self.deep = frozenset(top), frozenset(deep)

    def __or__(self, o):
        return Val(self.top | o.top, self.deep | o.deep)

    def inner(self, attr):
        """value of an attribute / element of this value"""
        t = frozenset(p + (attr,) if len(p) < DEPTH else p[:DEPTH - 1] + ("*",) for p in self.top) | self.deep
        return Val(t, self.deep)

    def everything(self):
        return self.top | self.deep


FRESH = Val()


class Summary:
    def __init__(self):
        self.effects = {}     # (origin, attr) -> (where, chain)
        self.ret = FRESH
        self.fields = {}      # constructors only: field -> Val in terms of parameters


class Effects:
    def __init__(self, prog: Program):
        self.prog = prog
        self.funcs = [f for f in prog.all_funcs if not f.module.is_spec]
        self.by_method = {}
        for f in self.funcs:
            if f.cls is not None:
                self.by_method.setdefault(f.name, []).append(f)
        self.sum = {id(f): Summary() for f in self.funcs}
        self.calls = {id(f): set() for f in self.funcs}
        self.container_attrs = self._containers()
        for _ in range(8):
            changed = False
            for f in self.funcs:
                changed |= self.analyse(f)
            if not changed:
                break

    def _containers(self):
        """attribute names that hold lists, dicts or arrays"""
        out = set()
        for f in self.funcs:
            ann = {a.arg: a.annotation for a in f.node.args.args + f.node.args.kwonlyargs}
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Attribute) and (is_container(n.value) or (isinstance(n, ast.AnnAssign) and container_ann(n.annotation))
                                                             or (isinstance(n.value, ast.Name) and container_ann(ann.get(n.value.id)))):
                            out.add(t.attr)
        return out

    # -- call resolution -----------------------------------------------------
    def role(self, f, e):
        """class name an expression is expected to hold, or None"""
        if isinstance(e, ast.Name):
            if e.id == "self" and f.cls is not None:
                return f.cls.name
            if e.id == "cls" and f.cls is not None:
                return f.cls.name
            for a in f.node.args.args + f.node.args.kwonlyargs:
                if a.arg == e.id and a.annotation is not None:
                    for x in ast.walk(a.annotation):
                        nm = x.id if isinstance(x, ast.Name) else (x.value if isinstance(x, ast.Constant) and isinstance(x.value, str) else None)
                        if nm in self.prog.classes:
                            return nm
            return ROLE.get(e.id)
        if isinstance(e, ast.Attribute):
            return ROLE.get(e.attr)
        if isinstance(e, ast.Call):
            n = e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, "attr", None)
            if n in self.prog.classes:
                return n
            if n == "super" and f.cls is not None:
                return f.cls.name
        return None

    def resolve(self, f: Func, call: ast.Call):
        """-> (list of package functions, receiver expr or None, constructor?)"""
        fn = call.func
        P = self.prog
        if isinstance(fn, ast.Name):
            r = P.lookup(f.module, fn.id)
            for n in ast.walk(f.node):      # function-level imports
                if isinstance(n, (ast.ImportFrom, ast.Import)):
                    for a in n.names:
                        if (a.asname or a.name) == fn.id and isinstance(n, ast.ImportFrom):
                            r = r or P.resolve_import(("from", P._abs(f.module, f.module.path.endswith("__init__.py"), n), a.name))
            if fn.id == "cls" and f.cls is not None:
                r = ("class", f.cls)
            if r and r[0] == "func":
                return [r[1]], None, False
            if r and r[0] == "class":
                i = r[1].find("__init__")
                return ([i] if i else []), None, True
            return [], None, False
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and f.cls is not None:
                t = f.cls.find(fn.attr, after=f.cls)
                return ([t] if t else []), ast.Name(id="self", ctx=ast.Load()), False
            if isinstance(fn.value, ast.Name):
                r = P.lookup(f.module, fn.value.id)
                if r and r[0] == "class":
                    t = r[1].find(fn.attr)
                    return ([t] if t else []), None, False
                if r and r[0] == "module":
                    r2 = P.lookup(r[1], fn.attr)
                    if r2 and r2[0] == "func":
                        return [r2[1]], None, False
                if r and r[0] == "ext":
                    return [], None, False
            role = self.role(f, fn.value)
            if role and role in P.classes:
                c = P.classes[role]
                out = {id(x): x for k in P.subclasses(c) for x in [k.find(fn.attr)] if x is not None}
                return list(out.values()), fn.value, False
            if fn.attr in MUTATORS or fn.attr in ("get", "items", "keys", "values", "copy", "index", "count", "format", "join", "split", "mean", "sum", "max", "min"):
                return [], fn.value, False
            return list(self.by_method.get(fn.attr, [])), fn.value, False
        return [], None, False

    # -- one function --------------------------------------------------------
    def analyse(self, f: Func):
        S = self.sum[id(f)]
        before = (len(S.effects), S.ret.top, S.ret.deep)
        env = {}
        params = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        if f.node.args.vararg:
            params.append(f.node.args.vararg.arg)
        if f.node.args.kwarg:
            params.append(f.node.args.kwarg.arg)
        for i, p in enumerate(params):
            o = ("self",) if i == 0 and f.cls is not None and f.kind in ("method", "property", "setter") else ("param", p)
            env[p] = Val({o})
        own = set(env)
        globs = {n for st in ast.walk(f.node) if isinstance(st, ast.Global) for n in st.names}
        for _ in range(4):
            old = {k: (v.top, v.deep) for k, v in env.items()}
            for st in f.node.body:
                self.stmt(f, st, env, globs, S)
            if {k: (v.top, v.deep) for k, v in env.items()} == old:
                break
        if deco_names(f.node) & MEMO:
            S.ret = Val({("memo", f.qual)})
        return before != (len(S.effects), S.ret.top, S.ret.deep)

    def record(self, S, f, val, attr, node, chain=()):
        for o in val.top:
            if o[0] == "global" and memo_idiom(f, o, f.module, self.prog):
                continue
            S.effects.setdefault((o, attr), (f"{f.module.relpath}:{getattr(node, 'lineno', 0)}", chain + (f.qual,)))

    def assign(self, f, t, v, env, globs, S, node):
        if isinstance(t, ast.Name):
            if t.id in globs and not memo_idiom(f, ("global", f.module.name, t.id), f.module, self.prog):
                S.effects.setdefault((("global", f.module.name, t.id), "="), (f"{f.module.relpath}:{node.lineno}", (f.qual,)))
            env[t.id] = env.get(t.id, FRESH) | v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(f, x, v.inner("[]"), env, globs, S, node)
        elif isinstance(t, ast.Starred):
            self.assign(f, t.value, v, env, globs, S, node)
        elif isinstance(t, ast.Attribute):
            self.record(S, f, self.ev(f, t.value, env, globs, S), t.attr, node)
        elif isinstance(t, ast.Subscript):
            self.record(S, f, self.ev(f, t.value, env, globs, S), "[]", node)
            base = t.value
            if isinstance(base, ast.Name) and base.id in env:
                env[base.id] = env[base.id] | Val((), v.everything())

    def bind_expr(self, f, t, e, env, globs, S, node):
        """t = e, element by element when both are written out"""
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(e, (ast.Tuple, ast.List)) and len(t.elts) == len(e.elts) \
                and not any(isinstance(x, ast.Starred) for x in t.elts + e.elts):
            for a, b in zip(t.elts, e.elts):
                self.bind_expr(f, a, b, env, globs, S, node)
        else:
            self.assign(f, t, self.ev(f, e, env, globs, S), env, globs, S, node)

    def literal(self, f, e):
        """the display a local name is bound to, when it is bound only once and not updated"""
        if isinstance(e, ast.Name):
            stores = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, (ast.Store, ast.Del))]
            vals = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id]
            upd = any(isinstance(n, ast.Attribute) and n.attr in MUTATORS and isinstance(n.value, ast.Name) and n.value.id == e.id or
                      isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == e.id for n in ast.walk(f.node))
            if len(stores) == 1 and len(vals) == 1 and not upd and not any(a.arg == e.id for a in ast.walk(f.node.args) if isinstance(a, ast.arg)):
                return vals[0]
        return e

    def bind_iter(self, f, t, it, env, globs, S, node):
        """t ranges over the elements of it"""
        lit = self.literal(f, it)
        if isinstance(lit, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in lit.elts):
            for x in lit.elts:
                self.bind_expr(f, t, x, env, globs, S, node)
            return
        pair = isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts)
        if isinstance(lit, ast.Call) and pair:
            fn = lit.func
            if isinstance(fn, ast.Name) and fn.id == "zip" and len(lit.args) == len(t.elts):
                for a, b in zip(t.elts, lit.args):
                    self.bind_iter(f, a, b, env, globs, S, node)
                return
            if isinstance(fn, ast.Name) and fn.id == "enumerate" and lit.args and len(t.elts) == 2:
                self.assign(f, t.elts[0], FRESH, env, globs, S, node)
                self.bind_iter(f, t.elts[1], lit.args[0], env, globs, S, node)
                return
            if isinstance(fn, ast.Attribute) and fn.attr == "items" and len(t.elts) == 2 and not lit.args:
                d = self.literal(f, fn.value)
                if isinstance(d, ast.Dict) and all(k is not None for k in d.keys):
                    for k, v in zip(d.keys, d.values):
                        self.bind_expr(f, t.elts[0], k, env, globs, S, node)
                        self.bind_expr(f, t.elts[1], v, env, globs, S, node)
                    return
        self.assign(f, t, self.ev(f, it, env, globs, S).inner("[]"), env, globs, S, node)

    def stmt(self, f, st, env, globs, S):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(st, ast.FunctionDef):
                for a in st.args.args:
                    env.setdefault(a.arg, FRESH)
                for s in st.body:
                    self.stmt(f, s, env, globs, S)
            return
        if isinstance(st, ast.Assign):
            for t in st.targets:
                self.bind_expr(f, t, st.value, env, globs, S, st)
            return
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(f, st.target, self.ev(f, st.value, env, globs, S), env, globs, S, st)
            return
        if isinstance(st, ast.AugAssign):
            self.ev(f, st.value, env, globs, S)
            t = st.target
            if isinstance(t, ast.Name):
                # in place on a list or array: the object behind the name changes
                v = env.get(t.id, FRESH)
                hit = Val({o for o in v.top if o[-1] in self.container_attrs or (o[0] == "global" and len(o) == 3) or (o[0] == "memo" and len(o) == 2)})
                if hit.top:
                    self.record(S, f, hit, "[]", st)
                if t.id in globs:
                    S.effects.setdefault((("global", f.module.name, t.id), "="), (f"{f.module.relpath}:{st.lineno}", (f.qual,)))
            else:
                self.assign(f, t, FRESH, env, globs, S, st)
                if isinstance(t, ast.Attribute) and t.attr in self.container_attrs:
                    self.record(S, f, self.ev(f, t, env, globs, S), "[]", st)
            return
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if not isinstance(t, ast.Name):
                    self.assign(f, t, FRESH, env, globs, S, st)
            return
        if isinstance(st, ast.Return):
            if st.value is not None:
                v = self.ev(f, st.value, env, globs, S)
                S.ret = S.ret | v
            return
        if isinstance(st, (ast.For, ast.AsyncFor)):
            self.bind_iter(f, st.target, st.iter, env, globs, S, st)
        elif isinstance(st, ast.With):
            for i in st.items:
                v = self.ev(f, i.context_expr, env, globs, S)
                if i.optional_vars is not None:
                    self.assign(f, i.optional_vars, v, env, globs, S, st)
        for n, x in ast.iter_fields(st):
            if isinstance(x, ast.expr) and not (isinstance(st, (ast.For,)) and n in ("target", "iter")):
                self.ev(f, x, env, globs, S)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, ast.stmt):
                        self.stmt(f, y, env, globs, S)
                    elif isinstance(y, ast.ExceptHandler):
                        for s in y.body:
                            self.stmt(f, s, env, globs, S)
                    elif isinstance(y, ast.match_case) if hasattr(ast, "match_case") else False:
                        for s in y.body:
                            self.stmt(f, s, env, globs, S)

    def ev(self, f, e, env, globs, S) -> Val:
        if e is None or isinstance(e, ast.Constant):
            return FRESH
        E = lambda x: self.ev(f, x, env, globs, S)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = self.prog.lookup(f.module, e.id)
            if r and r[0] == "var":
                return Val({("global", r[1].name, r[2])}) if any(mutable_const(x) for x in r[1].assigns.get(r[2], [])) else FRESH
            if r and r[0] == "class":
                return Val({("global", r[1].module.name, r[1].name)})
            if r and r[0] == "func":
                return Val({("global", r[1].module.name, r[1].name)})
            return FRESH
        if isinstance(e, ast.Attribute):
            v = E(e.value)
            if isinstance(e.value, ast.Name) and e.value.id == "self" and f.cls is not None and not self._assigned_in_class(f.cls, e.attr):
                c = f.cls.find_const(e.attr)
                if c is not None and is_container(c[1]):
                    return Val({("global", c[0].module.name, f"{c[0].name}.{e.attr}")})
            return v.inner(e.attr)
        if isinstance(e, ast.Subscript):
            self.ev(f, e.slice, env, globs, S)
            v = E(e.value)
            if isinstance(e.slice, ast.Slice):
                # a slice of a list is a copy, of an array a view: keep the origin only for arrays (unknown -> elements only)
                return Val((), v.inner("[]").everything())
            return v.inner("[]")
        if isinstance(e, ast.Starred):
            return E(e.value)
        if isinstance(e, ast.IfExp):
            E(e.test)
            return E(e.body) | E(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = FRESH
            for x in e.values:
                out = out | E(x)
            return out
        if isinstance(e, ast.NamedExpr):
            v = E(e.value)
            self.assign(f, e.target, v, env, globs, S, e)
            return v
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            deep = set()
            for x in e.elts:
                deep |= E(x).everything()
            return Val((), deep)
        if isinstance(e, ast.Dict):
            deep = set()
            for x in list(e.keys) + list(e.values):
                if x is not None:
                    deep |= E(x).everything()
            return Val((), deep)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                self.bind_iter(f, g.target, g.iter, env, globs, S, e)
                for c in g.ifs:
                    E(c)
            if isinstance(e, ast.DictComp):
                return Val((), E(e.key).everything() | E(e.value).everything())
            return Val((), E(e.elt).everything())
        if isinstance(e, ast.Lambda):
            for a in e.args.args:
                env.setdefault(a.arg, FRESH)
            E(e.body)
            return FRESH
        if isinstance(e, ast.Call):
            return self.call(f, e, env, globs, S)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                E(x)
        return FRESH

    def objects(self, f, v):
        """origins of v that can be objects or containers (numbers and strings are values, not shared state)"""
        out = set()
        for o in v.everything():
            last = o[-1]
            if o[0] in ("global", "memo") or last in ROLE or last in self.container_attrs or last == "[]" or last == "*" or last == "self" or last.rstrip("s") in ROLE:
                out.add(o)
            elif len(o) == 2 and o[0] == "param":
                a = next((a for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs if a.arg == last), None)
                if a is None or (a.annotation is not None and (container_ann(a.annotation) or any(isinstance(x, ast.Name) and x.id in self.prog.classes for x in ast.walk(a.annotation)))):
                    out.add(o)
        return out

    def _assigned_in_class(self, c, attr):
        key = ("fields", c.name)
        if not hasattr(self, "_fa"):
            self._fa = {}
        if key not in self._fa:
            s = set()
            for k in c.mro():
                for m in k.methods.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                            s.add(n.attr)
            self._fa[key] = s
        return attr in self._fa[key]

    def call(self, f, e, env, globs, S):
        args = [self.ev(f, a, env, globs, S) for a in e.args]
        kws = {k.arg: self.ev(f, k.value, env, globs, S) for k in e.keywords}
        targets, recv, ctor = self.resolve(f, e)
        rv = self.ev(f, recv, env, globs, S) if recv is not None else FRESH
        if not targets:
            fn = e.func
            if isinstance(fn, ast.Attribute):
                base = self.ev(f, fn.value, env, globs, S)
                if fn.attr in MUTATORS:
                    self.record(S, f, base, "[]", e)
                    if isinstance(fn.value, ast.Name) and fn.value.id in env:
                        deep = set()
                        for a in args:
                            deep |= a.everything()
                        env[fn.value.id] = env[fn.value.id] | Val((), deep)
                    if fn.attr in ("pop", "setdefault"):
                        return base.inner("[]")
                    return FRESH
                if "out" in kws:
                    self.record(S, f, kws["out"], "[]", e)
                if fn.attr in ("get",):
                    return base.inner("[]") | (args[1] if len(args) > 1 else FRESH)
                if fn.attr in ("items", "values", "keys", "copy", "__iter__"):
                    return Val((), base.inner("[]").everything())
                if fn.attr == "deepcopy":
                    return FRESH
                if fn.attr in ("asarray", "ravel", "reshape", "view", "squeeze", "atleast_1d") :
                    out = base if fn.attr in ("ravel", "reshape", "view", "squeeze") else FRESH
                    for a in args:
                        out = out | a
                    return out
                return FRESH
            if isinstance(fn, ast.Name):
                if fn.id == "setattr" and args:
                    nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else "*"
                    self.record(S, f, args[0], nm, e)
                    return FRESH
                if fn.id == "getattr" and args:
                    return args[0].inner(e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else "[]")
                if fn.id in ("list", "tuple", "set", "dict", "sorted", "reversed", "enumerate", "zip", "iter", "filter", "map"):
                    deep = set()
                    for a in args:
                        deep |= a.inner("[]").everything()
                    return Val((), deep)
                if fn.id in ("next", "max", "min") and args:
                    return args[0].inner("[]")
                if fn.id in self.prog.classes or ctor:
                    deep = set()
                    for a in list(args) + list(kws.values()):
                        deep |= self.objects(f, a)
                    return Val((), deep)
            return FRESH
        out = FRESH
        for t in targets:
            self.calls[id(f)].add(id(t))
            T = self.sum[id(t)]
            names = [a.arg for a in t.node.args.posonlyargs + t.node.args.args]
            bind = {}
            if names and t.cls is not None and t.kind in ("method", "property", "setter", "classmethod"):
                if t.kind != "classmethod":
                    # an unbound call Class.method(obj, ...) passes the receiver explicitly
                    bind[("self",)] = FRESH if ctor else (rv if recv is not None else (args[0] if args else FRESH))
                names = names[1:] if (recv is not None or ctor or t.kind == "classmethod") else names[1:]
            pos = args if (recv is not None or ctor or t.cls is None or t.kind in ("classmethod", "staticmethod")) else args[1:]
            if any(isinstance(a, ast.Starred) for a in e.args):
                for n in names:
                    for a in args:
                        bind[("param", n)] = bind.get(("param", n), FRESH) | a
            else:
                for n, a in zip(names, pos):
                    bind[("param", n)] = a
            for k, a in kws.items():
                if k is not None:
                    bind[("param", k)] = a
                else:
                    for n in names:
                        bind.setdefault(("param", n), FRESH)
                        bind[("param", n)] = bind[("param", n)] | a.inner("[]")
            for (o, attr), (where, chain) in list(T.effects.items()):
                for o2 in subst(o, bind):
                    S.effects.setdefault((o2, attr), (where, ((f.qual,) + chain)[:6]))
            if ctor:
                deep = set()
                for a in list(args) + list(kws.values()):
                    deep |= self.objects(f, a)
                out = out | Val((), deep)
            else:
                out = out | Val({x for o in T.ret.top for x in subst(o, bind)}, {x for o in T.ret.deep for x in subst(o, bind)})
        return out


def memo_idiom(f, o, mod, P):
    """a module-level cache: the stored value is computed only from the key (every parameter it depends on is in the key)"""
    params = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
    name = o[2]
    if "." in name or len(o) > 4:
        return False

    def on_name(e):
        """the module-level object itself, or an attribute of it (a cache kept on a function)"""
        return isinstance(e, ast.Name) and e.id == name or isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == name
    free = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    free.setdefault(t.id, set()).update(x.id for x in ast.walk(n.value) if isinstance(x, ast.Name))
        elif isinstance(n, (ast.With,)):
            for i in n.items:
                if isinstance(i.optional_vars, ast.Name):
                    free.setdefault(i.optional_vars.id, set()).update(x.id for x in ast.walk(i.context_expr) if isinstance(x, ast.Name))
        elif isinstance(n, ast.For):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    free.setdefault(x.id, set()).update(y.id for y in ast.walk(n.iter) if isinstance(y, ast.Name))

    def closure(names):
        out, todo = set(), list(names)
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo += list(free.get(x, ()))
        return out & params
    ok = False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t = n.targets[0]
            names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
            if any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" for x in ast.walk(n.value)):
                names.add("self")
            if isinstance(t, ast.Subscript) and on_name(t.value):
                key = {x.id for x in ast.walk(t.slice) if isinstance(x, ast.Name)}
                if "self" in names or not closure(names) <= closure(key) | key:
                    return False
                ok = True
            elif on_name(t):
                if "self" in names or closure(names):
                    return False
                ok = True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and on_name(n.func.value):
            return False
        if isinstance(n, ast.AugAssign) and (on_name(n.target) or isinstance(n.target, ast.Subscript) and on_name(n.target.value)):
            return False
    return ok


def subst(o, bind):
    if o[0] in ("global", "memo"):
        return {o}
    head = o[:1] if o[0] == "self" else o[:2]
    rest = o[len(head):]
    v = bind.get(head)
    if v is None:
        return set()
    for a in rest:
        v = v.inner(a)
    return set(v.top)


def mutable_const(e):
    if is_container(e):
        return True
    if isinstance(e, ast.Call):
        n = e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, "attr", "")
        return n not in ("float", "int", "str", "Path", "join", "dirname", "abspath", "frozenset", "tuple", "files", "getLogger", "MappingProxyType", "TypeVar", "namedtuple")
    if isinstance(e, (ast.Tuple,)):
        return any(mutable_const(x) for x in e.elts)
    return False


def is_container(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, "attr", "")
        return n in ("list", "dict", "set", "array", "asarray", "zeros", "ones", "tile", "concatenate", "arange", "full", "deque", "defaultdict", "OrderedDict", "copy")
    if isinstance(e, ast.BoolOp):
        return any(is_container(x) for x in e.values)
    if isinstance(e, ast.IfExp):
        return is_container(e.body) or is_container(e.orelse)
    return False


def container_ann(a):
    if a is None:
        return False
    for x in ast.walk(a):
        if isinstance(x, ast.Name) and x.id in ("list", "dict", "set", "List", "Dict", "ndarray"):
            return True
        if isinstance(x, ast.Attribute) and x.attr == "ndarray":
            return True
        if isinstance(x, ast.Constant) and isinstance(x.value, str) and any(w in x.value for w in ("list", "dict", "ndarray")):
            return True
    return False
