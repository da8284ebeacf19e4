"""Structural rules: each enumerates sites of the current source and reports those that break the rule."""
from __future__ import annotations
import ast, csv, fnmatch, hashlib, json, os
from .effects import Effects, ROLE, MUTATORS, MEMO, deco_names, is_container, memo_idiom
from .catalog import QUERY
from . import restore as _restore

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    def __init__(self, text, floor):
        self.text, self.floor = text, floor
        self.instances, self.samples, self.findings = 0, [], []

    def site(self, what):
        self.instances += 1
        if len(self.samples) < 5:
            self.samples.append(what)

    def bad(self, construct, where, detail):
        if (construct, where, detail) not in self.findings:
            self.findings.append((construct, where, detail))


def effects(m):
    if not hasattr(m, "_effects"):
        m._effects = Effects(m.prog)
    return m._effects


def model_fields(m):
    """attribute names the reference model stores"""
    out = set()
    for sm in m.prog.spec_modules:
        for n in ast.walk(sm.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
    return out


def short(f):
    return f.qual if f.cls is not None else f.name


# --------------------------------------------------------------------------- purity
def pure_queries(m):
    r = Result("a query has no effect on its receiver, its arguments, or anything shared, through any call it makes", 60)
    E = effects(m)
    fields = model_fields(m) | {"[]", "="}
    for f in E.funcs:
        q = short(f)
        if not any(fnmatch.fnmatchcase(q, p) for p in QUERY) or f.name == "__init__" or "sizing_curve" in f.name or f.name.startswith("get_er_") or f.name in ("get_annual_utility_comparison_graph",):
            continue
        r.site(f"{f.loc} {q}")
        for (o, attr), (where, chain) in E.sum[id(f)].effects.items():
            if o[0] == "memo" or (attr not in fields):
                continue
            r.bad(q, where, f"modifies {'.'.join(o)}{'' if attr == '[]' else '.' + attr} via {' -> '.join(chain)}")
    return r


# --------------------------------------------------------------------------- re-running
RESET = {"storage": ("initialize",), "WaterHeater": ("turn_off",)}
# read only while `_slug_active`, which initialize clears; activate_slug writes it first
GUARDED = {"_original_slug_vol_gal"}


def rerun(m):
    r = Result("every field a timestep changes and later reads is set again when the next simulation starts (initialize of the tanks, turn_off of the heaters)", 8)
    P, E = m.prog, effects(m)
    by_id = {id(f): f for f in E.funcs}
    todo = [f for f in E.funcs if f.name == "simulate_step"]
    seen = set()
    while todo:
        f = todo.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        todo += [by_id[c] for c in E.calls[id(f)] if c in by_id]
    funcs = [by_id[i] for i in seen if by_id[i].cls is not None and by_id[i].name != "__init__"]
    sim = next((f for f in E.funcs if f.cls is None and f.name == "simulate"), None)
    sim_sets = {n.attr for n in ast.walk(sim.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)} if sim else set()
    tank = P.classes.get("StorageTank")
    for c in {k for x in funcs for k in P.subclasses(x.cls)}:
        mine = [f for f in funcs if f.cls in c.mro() and c.find(f.name) is f or (f.cls in c.mro() and f.cls is not c)]
        written, reads = {}, set()
        for f in mine:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    if isinstance(n.ctx, ast.Store):
                        written.setdefault(n.attr, (f, n))
                    else:
                        reads.add(n.attr)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                    reads.add(n.target.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Attribute) \
                        and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == "self":
                    written.setdefault(n.func.value.attr, (f, n))
                    reads.add(n.func.value.attr)
        if c.name == "SimulationRun":
            continue
        if tank is not None and c.is_subclass(tank):
            resets = ["initialize"]
        elif c.name == "WaterHeater" or any(k.name == "WaterHeater" for k in c.mro()):
            resets = ["turn_off"]
        else:
            resets = []
        reset = set(sim_sets)
        for nm in resets:
            reset |= must_write(c, nm)
        for a, (f, n) in written.items():
            r.site(f"{c.name}.{a} ({'reset by ' + '/'.join(resets) if a in reset else 'not reset'})")
            if a in reset or a in GUARDED or a not in reads:
                continue
            if all(local_before_read(g.node, a) for g in mine if touches(g.node, a)):
                continue
            r.bad(f"{c.name}.{a}", f"{f.module.relpath}:{n.lineno}",
                  f"{f.qual} changes {a}, a timestep reads it, and {'/'.join(resets) or 'simulate'} does not set it before the next simulation")
    return r


def touches(node, a):
    return any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.value, ast.Name) and n.value.id == "self" for n in ast.walk(node))


def local_before_read(node, a):
    """the function assigns the field unconditionally before any read of it"""
    for st in node.body:
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Attribute) and t.attr == a and isinstance(t.value, ast.Name) and t.value.id == "self"
                                                               for t in (st.targets if isinstance(st, ast.Assign) else [st.target])):
            return st.value is None or not touches(st.value, a)
        if touches(st, a):
            return False
    return True


def must_write(c, name, depth=0):
    """fields written on every path of a method that does not raise (through called methods of self / super)"""
    f = c.find(name)
    return written_always(c, f, depth) if f is not None and depth < 5 else set()


def written_always(c, f, depth):
    exits = []
    end = _must(c, f, f.node.body, depth, frozenset(), exits)
    if end is not None:
        exits.append(end)
    return set(frozenset.intersection(*exits)) if exits else set()


def _must(c, f, body, depth, have, exits):
    """-> fields written on every path reaching the end of the statements (None: the end is not reached)"""
    for st in body:
        if isinstance(st, (ast.Expr, ast.Assign, ast.AnnAssign, ast.Return)):
            add = set()
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    v = n.func.value
                    if isinstance(v, ast.Name) and v.id == "self":
                        add |= must_write(c, n.func.attr, depth + 1)
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None:
                        g = c.find(n.func.attr, after=f.cls)
                        if g is not None and depth < 5:
                            add |= written_always(c, g, depth + 1)
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                            add.add(x.attr)
            have = have | add
        if isinstance(st, ast.Return):
            exits.append(have)
            return None
        if isinstance(st, ast.Raise):
            return None
        if isinstance(st, ast.If):
            a, b = _must(c, f, st.body, depth, have, exits), _must(c, f, st.orelse, depth, have, exits)
            if a is None and b is None:
                return None
            have = b if a is None else a if b is None else a & b
        elif isinstance(st, ast.With):
            have = _must(c, f, st.body, depth, have, exits)
            if have is None:
                return None
        elif isinstance(st, ast.Try):
            outs = [_must(c, f, st.body + st.orelse, depth, have, exits)] + [_must(c, f, h.body, depth, have, exits) for h in st.handlers]
            outs = [o for o in outs if o is not None]
            if not outs:
                return None
            have = frozenset.intersection(*outs)
            have = _must(c, f, st.finalbody, depth, have, exits)
            if have is None:
                return None
        elif isinstance(st, (ast.For, ast.While)):
            _must(c, f, st.body, depth, have, exits)
    return have


# --------------------------------------------------------------------------- ambient effects
BANNED = ("time.", "datetime.", "random.", "numpy.random", "secrets.", "uuid.", "socket.", "urllib.", "http.", "requests.", "subprocess.", "tempfile.", "shutil.",
          "os.environ", "os.getenv", "os.getcwd", "os.chdir", "os.remove", "os.unlink", "os.rename", "os.makedirs", "os.mkdir", "os.system", "os.popen", "os.urandom",
          "sys.argv", "sys.stdin", "sys.stdout", "sys.stderr", "platform.", "getpass.", "locale.", "threading.", "multiprocessing.")
BANNED_NAMES = {"input", "eval", "exec", "breakpoint", "print", "id", "hash"}


def dotted(m, f_mod, e, local=None):
    """dotted external name an expression refers to, or None"""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    imp = (local or {}).get(e.id) or f_mod.imports.get(e.id)
    if imp is None:
        return None
    base = imp[1] if imp[0] == "mod" else f"{imp[1]}.{imp[2]}"
    return ".".join([base] + parts[::-1])


def ambient_effects(m):
    r = Result("no clock, randomness, environment, network, console, working-directory or hidden module state; files are written only to a path the caller passed", 250)
    P = m.prog
    E = effects(m)
    for mod in [x for x in P.modules.values() if not x.is_spec]:
        parents = {}
        for n in ast.walk(mod.tree):
            for k in ast.iter_child_nodes(n):
                parents[k] = n

        def owner(n):
            while n in parents:
                n = parents[n]
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    return n
            return None
        main = [n for n in mod.tree.body if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__"]
        in_main = {id(x) for b in main for x in ast.walk(b)}
        local = {}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    local[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom) and n.level == 0:
                for a in n.names:
                    local[a.asname or a.name] = ("from", n.module or "", a.name)
        for n in ast.walk(mod.tree):
            if id(n) in in_main:
                continue
            where = f"{mod.relpath}:{getattr(n, 'lineno', 0)}"
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, "ctx", None), ast.Load) and not isinstance(parents.get(n), ast.Attribute):
                d = dotted(m, mod, n, local)
                if d and any(d == b.rstrip(".") or d.startswith(b) for b in BANNED) and owner(n) is not None:
                    r.bad(f"{mod.name}:{d}", where, f"uses {d}")
            if not isinstance(n, ast.Call):
                continue
            r.site(f"{where} {ast.unparse(n.func)[:60]}")
            if isinstance(n.func, ast.Name) and n.func.id in BANNED_NAMES and n.func.id not in mod.funcs:
                if n.func.id == "print" and guarded_by_flag(n, parents, owner(n)):
                    continue
                r.bad(f"{mod.name}:{n.func.id}", where, f"calls {n.func.id}()")
            fn = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", "")
            if fn == "open" or fn in ("write_text", "write_bytes", "to_csv_file", "savefig", "write_html", "write_image", "savetxt", "save", "dump"):
                mode = None
                if fn == "open":
                    i = 0 if isinstance(n.func, ast.Attribute) and dotted(m, mod, n.func, local) is None else 1
                    if len(n.args) > i:
                        mode = n.args[i]
                    for k in n.keywords:
                        if k.arg == "mode":
                            mode = k.value
                    if isinstance(mode, ast.Constant) and isinstance(mode.value, str) and not set(mode.value) & set("wax+"):
                        mode = None
                    if mode is None:
                        if n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and isinstance(n.func, ast.Name):
                            r.bad(f"{mod.name}:open", where, "opens a path relative to the working directory")
                        continue
                target = n.args[0] if n.args and not (isinstance(n.func, ast.Attribute) and fn in ("write_text", "write_bytes", "open")) else getattr(n.func, "value", None)
                o = owner(n)
                if o is None or not depends_on_param(o, target):
                    r.bad(f"{mod.name}:{fn}", where, f"writes a file at {ast.unparse(target) if target is not None else '?'}, not a path the caller passed")
        # hidden module-level state
        for f in [x for x in E.funcs if x.module is mod]:
            for (o, attr), (where, chain) in E.sum[id(f)].effects.items():
                if o[0] == "global" and len(chain) == 1:
                    if memo_idiom(f, o, mod, P):
                        continue
                    r.bad(f"{short(f)}:{o[2]}", where, f"{f.qual} modifies module-level {o[2]}")
            check_defaults(f, E, r)
            if deco_names(f.node) & {"lru_cache", "cache"} and f.cls is not None and f.kind in ("method", "property"):
                flds = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"}
                mut = {a for a in flds if mutable_field(f.cls, a, P)}
                if mut:
                    r.bad(short(f), f.loc, f"cached although it reads {sorted(mut)}, which change after construction")
    return r


def mutable_field(c, a, P):
    for k in P.subclasses(c) + c.mro():
        for f in k.methods.values():
            if f.name == "__init__":
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store):
                    return True
    return False


def guarded_by_flag(n, parents, fn):
    """inside `if flag:` where flag is a parameter whose default is False"""
    if fn is None or isinstance(fn, ast.Lambda):
        return False
    a = fn.args
    off = {p.arg for p, d in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)) if isinstance(d, ast.Constant) and d.value is False}
    while n in parents and n is not fn:
        p = parents[n]
        if isinstance(p, ast.If) and n in p.body:
            names = {x.id for x in ast.walk(p.test) if isinstance(x, ast.Name)}
            if names & off and not isinstance(p.test, ast.UnaryOp):
                return True
        n = p
    return False


def depends_on_param(fn, e):
    if e is None:
        return False
    if isinstance(fn, ast.Lambda):
        return True
    params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        params.add(fn.args.vararg.arg)
    dep = set(params)
    for _ in range(5):
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & dep:
                for t in n.targets:
                    dep |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
            if isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None and {x.id for x in ast.walk(i.context_expr) if isinstance(x, ast.Name)} & dep:
                        dep |= {x.id for x in ast.walk(i.optional_vars) if isinstance(x, ast.Name)}
    return bool({x.id for x in ast.walk(e) if isinstance(x, ast.Name)} & dep)


def check_defaults(f, E, r):
    a = f.node.args
    pairs = list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for p, d in pairs:
        if is_container(d):
            for (o, attr), (where, chain) in E.sum[id(f)].effects.items():
                if o[:2] == ("param", p.arg):
                    r.bad(f"{short(f)}({p.arg})", where, f"modifies its shared default value for {p.arg}")
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == p.arg and any(isinstance(t, ast.Attribute) for t in n.targets):
                    r.bad(f"{short(f)}({p.arg})", f"{f.module.relpath}:{n.lineno}", f"stores its shared mutable default for {p.arg} in an object")


# --------------------------------------------------------------------------- shared data
def shared_data(m):
    r = Result("data shared between objects (cached tables, module and class constants, another object's arrays) is never modified in place", 100)
    P, E = m.prog, effects(m)
    for f in E.funcs:
        r.site(f"{f.loc} {short(f)}")
        for (o, attr), (where, chain) in E.sum[id(f)].effects.items():
            if o[0] == "memo":
                r.bad(short(f), where, f"modifies the cached result of {o[1]} via {' -> '.join(chain)}")
            elif o[0] == "global":
                if len(chain) == 1 and attr != "=" and not memo_idiom(f, o, f.module, P):
                    r.bad(short(f), where, f"modifies {'.'.join(o[2:])}, which every caller shares")
            elif attr == "[]" and len(chain) == 1 and o[0] in ("self", "param") and len(o) >= 2:
                # an element write below another object's attribute
                head = 1 if o[0] == "self" else 2
                path = o[head:]
                if not path:
                    continue
                owner_attr = next((x for x in path if x not in ("[]", "*")), None)
                if o[0] == "self" and len([x for x in path if x not in ("[]", "*")]) == 1 and not loaded_shared(f.cls, owner_attr, E):
                    continue          # the object's own list
                if owner_attr in E.container_attrs or o[0] == "param":
                    r.bad(short(f), where, f"{f.qual} modifies {'.'.join(o)} in place")
    # a field that keeps a reference into cached or constant data must not be modified by any method
    return r


def loaded_shared(c, attr, E):
    """does some constructor of the class store cached or module-level data in the field?"""
    if c is None:
        return False
    for k in c.mro():
        for f in k.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == "self" for t in n.targets):
                    from .effects import Val
                    env = {a.arg: Val({("param", a.arg)}) for a in f.node.args.args[1:]}
                    env["self"] = Val({("self",)})
                    class _S:
                        effects = {}
                    v = E.ev(f, n.value, env, set(), _S)
                    if any(o[0] in ("memo", "global") for o in v.top):
                        return True
                    # an argument that callers keep (the registry entry passed to a performance map)
                    if any(o[0] == "param" and o[1] in ("map_data", "load_shape", "control_schedule", "control_map") for o in v.top):
                        return True
    return False


# --------------------------------------------------------------------------- interfaces
def stub(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, ast.Pass) for s in body)


def accepts(base, over, drop=1):
    """why an override cannot take every call its base documents, or None"""
    b, o = base.node.args, over.node.args
    if base.kind != over.kind:
        return f"is a {over.kind}, the interface has a {base.kind}"
    bp, op = [a.arg for a in b.posonlyargs + b.args][drop:], [a.arg for a in o.posonlyargs + o.args][drop:]
    bd = len(bp) - len(b.defaults)
    od = len(op) - len(o.defaults)
    names = set(op) | {a.arg for a in o.kwonlyargs}
    for i, p in enumerate(bp):
        if p not in names and o.kwarg is None:
            return f"does not accept parameter {p}"
        if i < len(op):
            if op[i] != p and p in names:
                return f"takes {p} at another position"
            if op[i] != p and not (o.vararg is not None):
                return f"has {op[i]} where the interface has {p}"
        elif o.vararg is None and o.kwarg is None and p not in {a.arg for a in o.kwonlyargs}:
            return f"takes fewer positional arguments ({p})"
        if i >= bd and p in op and op.index(p) < od:
            return f"requires {p}, which the interface makes optional"
    for i, p in enumerate(op):
        if p not in bp and i < od and i >= len(bp):
            return f"requires {p}, which the interface does not have"
    for a, d in zip(o.kwonlyargs, o.kw_defaults):
        if d is None and a.arg not in bp:
            return f"requires keyword {a.arg}, which the interface does not have"
    for a in b.kwonlyargs:
        if a.arg not in names and o.kwarg is None:
            return f"does not accept keyword {a.arg}"
    return None


def overrides(m):
    r = Result("an override accepts every call its interface documents; a concrete class implements every operation of its interface (placeholders with an empty body excluded)", 40)
    P = m.prog
    for c in {id(k): k for mod in P.modules.values() if not mod.is_spec for k in mod.classes.values()}.values():
        for n, f in c.methods.items():
            if n.startswith("__") or f.kind == "classmethod" or stub(f):
                continue
            base = c.find(n, after=c)
            if base is None:
                continue
            r.site(f"{f.loc} {f.qual} vs {base.qual}")
            why = accepts(base, f, 0 if f.kind == "staticmethod" else 1)
            if why:
                r.bad(f.qual, f.loc, f"{f.qual} {why} ({base.qual})")
        absent = {n for k in c.mro() for n in k.abstract if any(n in x.abstract for x in [next((y for y in c.mro() if n in y.methods), None)] if x)}
        has_kids = bool(P.subclasses(c, strict=True))
        abc = any((b.id if isinstance(b, ast.Name) else getattr(b, "attr", "")) == "ABC" for b in c.base_exprs) or bool(c.abstract)
        r.site(f"{c.loc} {c.name}")
        if absent and not has_kids and not abc:
            r.bad(c.name, c.loc, f"{c.name} does not implement {sorted(absent)}")
    # every class the package instantiates is complete
    for f in effects(m).funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                x = P.lookup(f.module, n.func.id)
                if x and x[0] == "class" and not x[1].module.is_spec:
                    c = x[1]
                    abs_ = {a for k in c.mro() for a in k.abstract if (g := c.find(a)) is not None and a in g.cls.abstract}
                    r.site(f"{f.module.relpath}:{n.lineno} {c.name}(...)")
                    if abs_:
                        r.bad(f"{f.qual}->{c.name}", f"{f.module.relpath}:{n.lineno}", f"instantiates {c.name}, which lacks {sorted(abs_)}")
    return r


PUBLIC = {
    "ecoengine": ["EcosizerEngine", "get_oat_buckets", "get_list_of_models", "get_sizing_curve_plot", "get_weather_stations", "get_hpwh_output_capacity", "get_annual_utility_comparison_graph"],
}


def exports(m):
    r = Result("every name a package exports, and every name imported inside the package, resolves to a definition in the source", 60)
    P = m.prog
    root = P.modules.get("ecoengine")
    for n in PUBLIC["ecoengine"]:
        r.site(f"ecoengine.{n}")
        x = P.lookup(root, n) if root else None
        if x is None or x[0] == "ext":
            r.bad(f"ecoengine.{n}", root.relpath if root else "", f"public name {n} does not resolve to a definition")
    for mod in [x for x in P.modules.values() if not x.is_spec]:
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.ImportFrom):
                base = P._abs(mod, mod.path.endswith("__init__.py"), n)
                if not base.startswith("ecoengine"):
                    continue
                for a in n.names:
                    if a.name == "*":
                        continue
                    r.site(f"{mod.relpath}:{n.lineno} {a.name}")
                    x = P.resolve_import(("from", base, a.name))
                    if x is None or x[0] == "ext":
                        r.bad(f"{mod.name}->{base}.{a.name}", f"{mod.relpath}:{n.lineno}", f"{base}.{a.name} does not exist")
        for e in mod.assigns.get("__all__", []):
            if isinstance(e, (ast.List, ast.Tuple)):
                for x in e.elts:
                    if isinstance(x, ast.Constant):
                        r.site(f"{mod.name}.__all__ {x.value}")
                        if P.lookup(mod, x.value) is None:
                            r.bad(f"{mod.name}.{x.value}", mod.relpath, f"__all__ names {x.value}, which is not defined")
    return r


def call_shapes(m):
    r = Result("every call on a component matches a signature of every class the component may be", 150)
    P, E = m.prog, effects(m)
    for f in E.funcs:
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                continue
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            role = E.role(f, n.func.value)
            if role == "StorageTank" and f.cls is not None and any(k.name == "MultiPassRTPSystem" for k in f.cls.mro()):
                role = "SlugOverlayTank"      # the only storage a multi-pass system is built with
            sup = isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super"
            if sup or role is None or role not in P.classes:
                continue
            isself = isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls")
            for c in P.subclasses(P.classes[role]):
                t = c.find(n.func.attr)
                if t is None or t.kind == "property" or stub(t) or n.func.attr in MUTATORS | {"get", "items", "keys", "values"}:
                    continue
                r.site(f"{f.module.relpath}:{n.lineno} {role}.{n.func.attr}")
                if isself and f.cls not in c.mro():
                    continue
                if isself and t.cls is not f.cls and t.kind != f.kind and f.kind == "classmethod":
                    continue
                why = misfit(t, n)
                if why:
                    r.bad(f"{f.qual}->{c.name}.{n.func.attr}", f"{f.module.relpath}:{n.lineno}", f"call {ast.unparse(n)[:120]} {why} of {t.qual}")
    return r


def misfit(t, n):
    a = t.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if t.kind != "staticmethod":
        names = names[1:]
    req = names[: len(names) - len(a.defaults)]
    if len(n.args) > len(names) and a.vararg is None:
        return "passes more positional arguments than the parameters"
    given = set(names[: len(n.args)])
    for k in n.keywords:
        if k.arg not in names and k.arg not in {x.arg for x in a.kwonlyargs} and a.kwarg is None:
            return f"passes unknown keyword {k.arg}"
        if k.arg in given:
            return f"passes {k.arg} twice"
        given.add(k.arg)
    miss = [x for x in req if x not in given]
    if miss:
        return f"omits {miss}"
    return None


# --------------------------------------------------------------------------- packaged data
def canonical(path):
    if path.endswith(".json"):
        with open(path, encoding="utf-8-sig") as f:
            return json.dumps(json.load(f), sort_keys=True)
    if path.endswith(".csv"):
        with open(path, encoding="utf-8-sig", newline="") as f:
            return json.dumps([[norm_cell(c) for c in row] for row in csv.reader(f) if any(c.strip() for c in row)])
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def norm_cell(c):
    c = c.strip()
    try:
        return float(c)
    except ValueError:
        return c


def data_digest(path):
    return hashlib.sha256(canonical(path).encode()).hexdigest()[:24]


def data_files(prog, sub):
    base = os.path.join(prog.src, "ecoengine", "data")
    out = []
    for root, dirs, files in os.walk(base):
        dirs.sort()
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(root, f), base)
            if rel.startswith(sub) and f.endswith((".json", ".csv", ".pkl")):
                out.append((rel, os.path.join(root, f)))
    return out


def _data(m, sub, text, floor):
    r = Result(text, floor)
    with open(os.path.join(HERE, "specs", "data_digests.json")) as f:
        ref = {k: v for k, v in json.load(f).items() if k.startswith(sub)}
    have = dict(data_files(m.prog, sub))
    for k, v in ref.items():
        r.site(k)
        if k not in have:
            r.bad(k, k, "packaged table is missing")
        else:
            try:
                d = data_digest(have[k])
            except Exception as e:
                r.bad(k, k, f"cannot be read: {e}")
                continue
            if d != v:
                r.bad(k, "src/ecoengine/data/" + k, "content differs from the published table")
    return r


def load_shape_data(m):
    r = _data(m, "load_shapes", "packaged load-shape tables are the published ones; each daily shape has 24 non-negative shares summing to one, each annual shape 8760", 5)
    for rel, path in data_files(m.prog, "load_shapes"):
        if not path.endswith(".json"):
            continue
        try:
            with open(path, encoding="utf-8-sig") as f:
                d = json.load(f)
        except Exception:
            continue
        for key, v in walk_lists(d):
            if len(v) == 24 and all(isinstance(x, (int, float)) for x in v):
                r.site(f"{rel}:{key}")
                if any(x < 0 for x in v):
                    r.bad(f"{rel}:{key}", "src/ecoengine/data/" + rel, "negative share")
                if abs(sum(v) - 1.0) > 0.02:
                    r.bad(f"{rel}:{key}", "src/ecoengine/data/" + rel, f"shares sum to {sum(v):.4f}")
    return r


def walk_lists(d, pre=""):
    if isinstance(d, dict):
        for k, v in d.items():
            yield from walk_lists(v, f"{pre}/{k}")
    elif isinstance(d, list):
        yield pre, d


def climate_data(m):
    return _data(m, "climate_data", "packaged climate, inlet-water and zip tables are the published ones", 3)


def map_data(m):
    return _data(m, "preformanceMaps", "packaged performance maps and their registry are the published ones", 3)


def restores(m):
    r = Result("on every normal and exceptional exit of a sizing or curve function, the building's shapes and daily demand and the system's run hours (for curves also mix fraction and sized results) have their entry values", 8)
    for qual, loc, findings, n in _restore.check(m, effects(m)):
        for i in range(n):
            r.site(f"{loc} {qual}")
        for where, detail in findings:
            r.bad(qual, where, detail)
    return r


RULES = dict(pure_queries=pure_queries, rerun=rerun, ambient_effects=ambient_effects, shared_data=shared_data, overrides=overrides, exports=exports,
             call_shapes=call_shapes, load_shape_data=load_shape_data, climate_data=climate_data, map_data=map_data, restores=restores)
