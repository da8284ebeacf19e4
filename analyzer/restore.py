"""Sizing and curve functions put back what they change, on every exit.

A path-sensitive walk of the function (calls that can touch a protected
location are walked into).  A state is (dirty locations, was the building
annual on entry, local variables that hold an entry value).  `x = self.f`
while f is clean makes x a saved value; `self.f = x` makes f clean again; any
other write makes it dirty.  set_to_daily_load_shape / set_to_annual_load_shape
are interpreted against the entry state of the building.  Exits: fall through,
return, and every exception (raise statements and divisions, with their types,
through try / except / finally).
"""
from __future__ import annotations
import ast
from .effects import deco_names

SHAPES = ("building.peak_load_shape", "building.avg_load_shape")
NAMES = ("size", "get_sizing_curve", "get_ls_sizing_curve", "get_er_sized_points", "get_er_sizing_curve", "_size_er_element", "plot_sizing_curve",
         "from_size", "from_components", "_calc_gen_rate_ls_gph", "_calc_running_volume_ls_supplyT_gal", "_calc_required_capacity", "_calc_running_volume_supplyT_gal")
BASES = {"ZeroDivisionError": {"ArithmeticError"}, "KeyError": {"LookupError"}, "IndexError": {"LookupError"}, "NotImplementedError": {"RuntimeError"}}


class Unknown(Exception):
    """a construct this walk does not model: no verdict for the function"""


def fz(env):
    return frozenset(env.items())


class Walk:
    def __init__(self, m, E):
        self.m, self.E, self.P = m, E, m.prog
        self.memo, self.stack = {}, []
        self.raises = self._raises()
        self.steps = 0

    # exception types a function may let escape (flow-insensitive, transitive)
    def _raises(self):
        out = {id(f): set() for f in self.E.funcs}
        own = {}
        for f in self.E.funcs:
            s = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Raise):
                    e = n.exc
                    e = e.func if isinstance(e, ast.Call) else e
                    s.add(e.id if isinstance(e, ast.Name) else "Exception")
                elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.FloorDiv, ast.Mod)) and not isinstance(n.right, ast.Constant) and not isinstance(n.left, ast.Constant):
                    s.add("ZeroDivisionError")
            own[id(f)] = s
            out[id(f)] |= s
        for _ in range(12):
            ch = False
            for f in self.E.funcs:
                for c in self.E.calls[id(f)]:
                    n = out.get(c, set()) - out[id(f)]
                    if n:
                        out[id(f)] |= n
                        ch = True
            if not ch:
                break
        return out

    def touching(self, f):
        """may the function modify the receiver, or a building?"""
        return any(o[0] == "self" and len(o) == 1 or o[0] == "param" or o == ("self", "_building") for (o, a) in self.E.sum[id(f)].effects)

    # ---- one function: entry state -> list of (kind, state, token)
    def run(self, C, f, state, bind, hook=None):
        key = (C.name if C else None, id(f), state[0], state[1], fz(bind)) if hook is None else None
        if key is not None and key in self.memo:
            return self.memo[key]
        if len(self.stack) > 14 or (key is not None and key in self.stack):
            return [("next", state, None)]
        self.stack.append(key)
        saved = getattr(self, "cur", None)
        self.cur = (C, f, hook)
        try:
            st = (state[0], state[1], fz(bind))
            outs = self.block(f.node.body, {st})
        finally:
            self.stack.pop()
            self.cur = saved
        res = set()
        for kind, s, tok in outs:
            if kind == "next":
                res.add(("return", (s[0], s[1], frozenset()), None))
            elif kind in ("break", "continue"):
                raise Unknown("break outside a loop")
            else:
                res.add((kind, (s[0], s[1], frozenset()), tok))
        res = list(res)
        if key is not None:
            self.memo[key] = res
        return res

    # ---- statements
    def block(self, body, states):
        outs, cur = [], set(states)
        for st in body:
            if not cur:
                break
            nxt = set()
            for s in cur:
                self.steps += 1
                if self.steps > 400000:
                    raise Unknown("too many paths")
                for o in self.stmt(st, s):
                    if o[0] == "next":
                        nxt.add(o[1])
                    else:
                        outs.append(o)
            cur = nxt
        outs += [("next", s, None) for s in cur]
        return list(dict.fromkeys(outs))

    def stmt(self, st, s):
        if isinstance(st, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef, ast.Assert)):
            return [("next", s, None)]
        if isinstance(st, ast.Expr):
            if isinstance(st.value, (ast.Yield,)):
                hook = self.cur[2]
                if hook is None:
                    raise Unknown("generator")
                return hook(s)
            return [(k, x, None) if k == "next" else (k, x, t) for k, x, t in self.expr(st.value, s)]
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is None:
                return [("next", s, None)]
            out = []
            for k, x, tok in self.expr(st.value, s):
                if k != "next":
                    out.append((k, x, tok))
                    continue
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    x = self.store(t, tok, st.value, x)
                out.append(("next", x, None))
            return out
        if isinstance(st, ast.AugAssign):
            out = []
            for k, x, tok in self.expr(st.value, s):
                out.append((k, self.store(st.target, None, None, x) if k == "next" else x, tok if k != "next" else None))
            return out
        if isinstance(st, ast.Delete):
            for t in st.targets:
                s = self.store(t, None, None, s)
            return [("next", s, None)]
        if isinstance(st, ast.Return):
            if st.value is None:
                return [("return", s, None)]
            return [("return" if k == "next" else k, x, t) for k, x, t in self.expr(st.value, s)]
        if isinstance(st, ast.Raise):
            e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            if e is None:
                tok = dict(s[2]).get("@exc")
                return [(("exc", tok[1] if tok else "Exception"), s, None)]
            return [(("exc", e.id if isinstance(e, ast.Name) else "Exception"), s, None)]
        if isinstance(st, ast.If):
            out = []
            for k, x, tok in self.expr(st.test, s):
                if k != "next":
                    out.append((k, x, tok))
                    continue
                t, f = self.branch(st.test, x)
                if t is not None:
                    out += self.block(st.body, {t})
                if f is not None:
                    out += self.block(st.orelse, {f}) if st.orelse else [("next", f, None)]
            return out
        if isinstance(st, (ast.For, ast.While)):
            return self.loop(st, s)
        if isinstance(st, ast.Break):
            return [("break", s, None)]
        if isinstance(st, ast.Continue):
            return [("continue", s, None)]
        if isinstance(st, ast.Try):
            return self.tryst(st, s)
        if isinstance(st, ast.With):
            return self.withst(st, s)
        raise Unknown(type(st).__name__)

    def loop(self, st, s):
        out = []
        heads, todo = set(), []
        test = st.iter if isinstance(st, ast.For) else st.test
        for k, x, tok in self.expr(test, s):
            if k != "next":
                out.append((k, x, tok))
            else:
                todo.append(x)
        exits = set()
        forever = isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value
        while todo:
            x = todo.pop()
            if x in heads:
                continue
            heads.add(x)
            if not forever:
                exits.add(x)
            y = self.store(st.target, None, None, x) if isinstance(st, ast.For) else x
            for k, z, tok in self.block(st.body, {y}):
                if k in ("next", "continue"):
                    todo.append(z)
                elif k == "break":
                    out.append(("next", z, None))
                else:
                    out.append((k, z, tok))
        for x in exits:
            out += self.block(st.orelse, {x}) if st.orelse else [("next", x, None)]
        return out

    def tryst(self, st, s):
        outs = []
        for k, x, tok in self.block(st.body, {s}):
            if k == "next":
                outs += self.block(st.orelse, {x}) if st.orelse else [(k, x, tok)]
            elif isinstance(k, tuple):
                caught = False
                for h in st.handlers:
                    m = self.matches(h, k[1])
                    if m:
                        env = dict(x[2])
                        env["@exc"] = ("exc", k[1])
                        outs += self.block(h.body, {(x[0], x[1], fz(env))})
                    if m == "yes":
                        caught = True
                        break
                if not caught:
                    outs.append((k, x, tok))
            else:
                outs.append((k, x, tok))
        if not st.finalbody:
            return list(dict.fromkeys(outs))
        res = []
        for k, x, tok in dict.fromkeys(outs):
            for k2, y, tok2 in self.block(st.finalbody, {x}):
                res.append((k, y, tok) if k2 == "next" else (k2, y, tok2))
        return list(dict.fromkeys(res))

    def matches(self, h, exc):
        if h.type is None:
            return "yes"
        names = [e.id if isinstance(e, ast.Name) else "?" for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        if "Exception" in names or "BaseException" in names or exc in names or BASES.get(exc, set()) & set(names):
            return "yes"
        return "maybe" if exc == "Exception" or "?" in names else None

    def withst(self, st, s):
        if len(st.items) != 1:
            raise Unknown("with")
        c = st.items[0].context_expr
        if not isinstance(c, ast.Call):
            raise Unknown("with")
        targets, recv, ctor = self.E.resolve(self.cur[1], c)
        name = ast.unparse(c.func)
        if not targets:
            if name.split(".")[-1] in ("open", "catch_warnings", "errstate", "suppress", "nullcontext"):
                if name.endswith("suppress"):
                    raise Unknown("suppress")
                return self.block(st.body, {s})
            raise Unknown("with " + name)
        if len(targets) != 1 or "contextmanager" not in deco_names(targets[0].node):
            raise Unknown("with " + name)
        g = targets[0]
        outer = self.cur

        def hook(gs):
            saved, self.cur = self.cur, outer
            try:
                inner = self.block(st.body, {(gs[0], gs[1], s[2])})
            finally:
                self.cur = saved
            res = []
            for k, x, tok in inner:
                back = (x[0], x[1], gs[2])
                if isinstance(k, tuple):
                    res.append((k, back, tok))
                else:
                    env = dict(back[2])
                    env["@with"] = ("with", k, x[2], tok)
                    res.append(("next", (back[0], back[1], fz(env)), None))
            return res
        C = self.cur[0]
        self.stack.append(None)
        saved, self.cur = self.cur, (C, g, hook)
        try:
            outs = self.block(g.node.body, {(s[0], s[1], fz(self.bind(g, c, s)))})
        finally:
            self.stack.pop()
            self.cur = saved
        res = []
        for k, x, tok in outs:
            w = dict(x[2]).get("@with")
            if k in ("next", "return"):
                if w is None:
                    continue
                res.append((w[1], (x[0], x[1], w[2]), w[3]))
            else:
                res.append((k, (x[0], x[1], s[2]), tok))
        return res

    # ---- expressions: outcomes (kind, state, token)
    def expr(self, e, s):
        res = [("next", s, None)]
        for c in self.calls_in(e):
            new = []
            for k, x, tok in res:
                if k != "next":
                    new.append((k, x, tok))
                else:
                    new += self.call(c, x)
            res = list(dict.fromkeys(new))
        out = []
        for k, x, tok in res:
            if k == "next":
                out.append((k, x, self.token(e, x) if not isinstance(e, ast.Call) else tok))
            else:
                out.append((k, x, tok))
        for n in ast.walk(e):
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.FloorDiv, ast.Mod)) and not isinstance(n.right, ast.Constant) and not isinstance(n.left, ast.Constant):
                out.append((("exc", "ZeroDivisionError"), s, None))
                break
        return out

    def calls_in(self, e):
        out = []

        def go(n):
            if isinstance(n, (ast.Lambda,)):
                return
            for k in ast.iter_child_nodes(n):
                go(k)
            if isinstance(n, ast.Call):
                out.append(n)
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                raise Unknown("yield")
            if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                raise Unknown("__dict__")
        go(e)
        return out

    def obj(self, e, s):
        """'self' / 'building' if the expression denotes that object"""
        if isinstance(e, ast.Name):
            t = dict(s[2]).get(e.id)
            return t[1] if t is not None and t[0] == "obj" else None
        if isinstance(e, ast.Attribute) and e.attr == "_building":
            return "building"
        return None

    def loc(self, e, s):
        if isinstance(e, ast.Attribute):
            o = self.obj(e.value, s)
            if o is not None:
                return f"{o}.{e.attr}"
        return None

    def token(self, e, s):
        if isinstance(e, ast.Name):
            return dict(s[2]).get(e.id)
        if isinstance(e, ast.Attribute):
            o = self.obj(e, s)
            if o:
                return ("obj", o)
            l = self.loc(e, s)
            if l is not None and l not in s[0]:
                return ("val", l)
            return None
        if isinstance(e, (ast.Tuple, ast.List)):
            return ("tuple", tuple(self.token(x, s) for x in e.elts))
        if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) for k in e.keys):
            return ("dict", tuple((k.value, self.token(v, s)) for k, v in zip(e.keys, e.values)))
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            t = self.token(e.value, s)
            if t is not None and t[0] == "tuple" and isinstance(e.slice.value, int) and e.slice.value < len(t[1]):
                return t[1][e.slice.value]
            if t is not None and t[0] == "dict":
                return dict(t[1]).get(e.slice.value)
        if isinstance(e, ast.IfExp):
            a, b = self.token(e.body, s), self.token(e.orelse, s)
            return a if a == b else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.token(e.operand, s)
            if t is not None and t[0] == "annual":
                return ("annual", not t[1])
        if isinstance(e, ast.Call):
            n = e.func
            if isinstance(n, ast.Attribute) and n.attr == "is_annual_load_shape" and self.obj(n.value, s) == "building":
                return ("annual", True) if not set(SHAPES) & s[0] else None
            if isinstance(n, ast.Name) and n.id == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                o = self.obj(e.args[0], s)
                l = f"{o}.{e.args[1].value}"
                return ("val", l) if o and l not in s[0] else None
            if isinstance(n, ast.Name) and n.id == "bool" and len(e.args) == 1:
                return self.token(e.args[0], s)
        return None

    def store(self, t, tok, value, s):
        dirty, ann, env = s
        if isinstance(t, ast.Name):
            e = dict(env)
            e.pop(t.id, None)
            e.pop("?" + t.id, None)
            if tok is not None:
                e[t.id] = tok
            return (dirty, ann, fz(e))
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = tok[1] if tok is not None and tok[0] == "tuple" and len(tok[1]) == len(t.elts) else [None] * len(t.elts)
            for x, p in zip(t.elts, parts):
                s = self.store(x, p, None, s)
            return s
        if isinstance(t, ast.Starred):
            return self.store(t.value, None, None, s)
        l = self.loc(t, s)
        if l is None and isinstance(t, ast.Subscript):
            l = self.loc(t.value, s)
            tok = None
        if l is not None:
            if tok == ("val", l):
                dirty = dirty - {l}
            else:
                dirty = dirty | {l}
        return (dirty, ann, env)

    def branch(self, test, s):
        dirty, ann, env = s
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.branch(test.operand, s)
            return f, t
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                t = s
                for v in test.values:
                    if t is None:
                        break
                    t = self.branch(v, t)[0]
                f = s if len(test.values) > 1 else self.branch(test.values[0], s)[1]
                return t, f
            f = s
            for v in test.values:
                if f is None:
                    break
                f = self.branch(v, f)[1]
            return s, f
        tok = self.token(test, s)
        if tok is not None and tok[0] == "annual":
            want = tok[1]
            t = None if ann is (not want) else (dirty, want, env)
            f = None if ann is want else (dirty, not want, env)
            return t, f
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Attribute) and test.func.attr == "is_annual_load_shape" and ann is not None \
                and self.obj(test.func.value, s) == "building":
            now = (not ann) if set(SHAPES) <= dirty else (ann if not set(SHAPES) & dirty else None)
            if now is not None:
                return (s, None) if now else (None, s)
        if isinstance(test, ast.Name):
            known = dict(env).get("?" + test.id)
            e1, e2 = dict(env), dict(env)
            e1["?" + test.id] = ("truth", True)
            e2["?" + test.id] = ("truth", False)
            return (None if known == ("truth", False) else (dirty, ann, fz(e1))), (None if known == ("truth", True) else (dirty, ann, fz(e2)))
        if isinstance(test, ast.Constant):
            return (s, None) if test.value else (None, s)
        return s, s

    def bind(self, g, c, s):
        names = [a.arg for a in g.node.args.posonlyargs + g.node.args.args]
        out = {}
        bound_self = False
        if g.cls is not None and g.kind in ("method", "property"):
            fn = c.func
            sup = isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super"
            sup = sup and dict(s[2]).get("self") == ("obj", "self")
            if isinstance(fn, ast.Attribute) and (sup or self.obj(fn.value, s) == "self"):
                out[names[0]] = ("obj", "self")
                bound_self = True
            elif isinstance(fn, ast.Attribute) and self.obj(fn.value, s) == "building":
                out[names[0]] = ("obj", "building")
                bound_self = True
            names = names[1:]
        elif g.kind == "classmethod":
            names = names[1:]
        for n, a in zip(names, c.args):
            if isinstance(a, ast.Starred):
                break
            t = self.token(a, s)
            if t is not None:
                out[n] = t
        for k in c.keywords:
            if k.arg is not None:
                t = self.token(k.value, s)
                if t is not None:
                    out[k.arg] = t
        return out

    def call(self, c, s):
        fn = c.func
        C, f, _ = self.cur
        if isinstance(fn, ast.Attribute):
            o = self.obj(fn.value, s)
            if o == "building" and fn.attr in ("set_to_daily_load_shape", "set_to_annual_load_shape"):
                goal = fn.attr == "set_to_annual_load_shape"
                out = []
                for ann in ([s[1]] if s[1] is not None else [True, False]):
                    back = ann == goal
                    d = s[0] - set(SHAPES) if back else s[0] | set(SHAPES)
                    out.append(("next", (d, ann, s[2]), None))
                    if not back:
                        out.append((("exc", "ValueError"), (s[0], ann, s[2]), None))
                return out
            if o == "building" and fn.attr == "is_annual_load_shape":
                return [("next", s, self.token(c, s))]
            l = self.loc(fn.value, s)
            from .effects import MUTATORS
            if l is not None and fn.attr in MUTATORS and not (fn.attr == "update" and l.endswith("controls")):
                targets, _, _ = self.E.resolve(f, c)
                if not targets:
                    return [("next", (s[0] | {l}, s[1], s[2]), None)]
        if isinstance(fn, ast.Name) and fn.id == "setattr" and c.args:
            o = self.obj(c.args[0], s)
            if o is not None:
                if isinstance(c.args[1], ast.Constant):
                    l = f"{o}.{c.args[1].value}"
                    tok = self.token(c.args[2], s)
                    return [("next", (s[0] - {l} if tok == ("val", l) else s[0] | {l}, s[1], s[2]), None)]
                raise Unknown("setattr")
            return [("next", s, None)]
        if isinstance(fn, ast.Name) and fn.id in ("vars", "locals", "exec"):
            raise Unknown(fn.id)
        targets, recv, ctor = self.E.resolve(f, c)
        # methods of self are those of the class under analysis
        if isinstance(fn, ast.Attribute) and C is not None:
            sup = isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super"
            if sup and f.cls is not None:
                t = C.find(fn.attr, after=f.cls)
                targets = [t] if t else []
            elif self.obj(fn.value, s) == "self":
                t = C.find(fn.attr)
                targets = [t] if t else []
            elif isinstance(fn.value, ast.Name) and fn.value.id == "cls":
                t = C.find(fn.attr)
                targets = [t] if t else []
        if not targets:
            return [("next", s, self.token(c, s))]
        out = []
        for t in targets:
            b = self.bind(t, c, s)
            if ctor or (not any(v[0] == "obj" for v in b.values())) or not self.touching(t):
                out.append(("next", s, None))
                for x in sorted(self.raises[id(t)]):
                    out.append((("exc", x), s, None))
                continue
            owner = C if b and any(v == ("obj", "self") for v in b.values()) else t.cls
            for k, x, tok in self.run(owner, t, s, b):
                back = (x[0], x[1], s[2])
                if isinstance(k, tuple):
                    out.append((k, back, tok))
                else:
                    out.append(("next", back, tok))
        return list(dict.fromkeys(out))


def config_fields(C):
    """fields a constructor takes straight from a parameter"""
    out = set()
    for k in C.mro():
        f = k.methods.get("__init__")
        if f is None:
            continue
        params = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in params:
                out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
    return out


def check(m, E):
    P = m.prog
    fields = {n.attr for sm in P.spec_modules for n in ast.walk(sm.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    W = Walk(m, E)
    base = P.cls("DHWSystem")
    for C in sorted(P.subclasses(base), key=lambda c: c.name):
        cfg = config_fields(C)
        for name in NAMES:
            f = C.find(name)
            if f is None or f.module.is_spec or "building" not in [a.arg for a in f.node.args.args]:
                continue
            curve = name.startswith("get_") or name == "plot_sizing_curve"
            bind = {"building": ("obj", "building")}
            if f.kind == "method":
                bind["self"] = ("obj", "self")
            found = {}
            W.steps = 0
            W.stack = []
            try:
                outs = W.run(C, f, (frozenset(), None, frozenset()), bind)
            except Unknown as e:
                yield f"{C.name}.{name}", f.loc, [], 0
                continue
            for k, s, tok in outs:
                for l in s[0]:
                    o, a = l.split(".", 1)
                    if a not in fields:
                        continue
                    if o == "building" or a in cfg or (curve and a != "_dummy"):
                        how = f"when {k[1]} is raised" if isinstance(k, tuple) else "on return"
                        found.setdefault(l, set()).add(how)
            yield f"{C.name}.{name}", f.loc, [(f.loc, f"{l} is left changed {', '.join(sorted(h))}") for l, h in sorted(found.items())], max(1, len(outs))
