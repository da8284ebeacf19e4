"""Source-level rewriting before analysis, meaning preserved:

* a generator helper becomes a function that returns the list of what it yields (its callers only iterate over it);
* `with helper(...)` where helper is a @contextmanager generator of the package becomes its body, with the with-block in
  the place of the yield; `with C(...)` for a class of the package becomes __enter__ / try / finally __exit__.
"""
from __future__ import annotations
import ast, copy


def own(node):
    """nodes of a function, nested functions and lambdas excluded"""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


def decorators(fn):
    return {d.id if isinstance(d, ast.Name) else getattr(d, "attr", "") for d in fn.decorator_list}


def is_generator(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for s in fn.body for n in [s, *own(s)] if not isinstance(s, (ast.FunctionDef, ast.ClassDef)))


class _ToList(ast.NodeTransformer):
    def __init__(self, name):
        self.name, self.ok = name, True

    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            arg = v.value or ast.Constant(None)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(arg)):
                self.ok = False
            call = ast.Call(ast.Attribute(ast.Name(self.name, ast.Load()), "append" if isinstance(v, ast.Yield) else "extend", ast.Load()), [arg], [])
            return ast.copy_location(ast.fix_missing_locations(ast.copy_location(ast.Expr(call), n)), n)
        return self.generic_visit(n)

    def visit_Yield(self, n):
        self.ok = False
        return n
    visit_YieldFrom = visit_Yield

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.ok = False
        return ast.copy_location(ast.Return(ast.copy_location(ast.Name(self.name, ast.Load()), n)), n)


def generator_to_list(fn):
    t = _ToList("_yielded")
    body = [t.visit(copy.deepcopy(s)) for s in fn.body]
    if not t.ok:
        return False
    first = ast.copy_location(ast.Assign([ast.Name("_yielded", ast.Store())], ast.List([], ast.Load())), fn.body[0])
    last = ast.copy_location(ast.Return(ast.Name("_yielded", ast.Load())), fn.body[-1])
    fn.body = [ast.fix_missing_locations(first)] + body + [ast.fix_missing_locations(last)]
    return True


class _Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        r = self.m.get(n.id)
        if r is None:
            return n
        if isinstance(r, str):
            return ast.copy_location(ast.Name(r, n.ctx), n)
        return ast.copy_location(copy.deepcopy(r), n)

    def visit_ExceptHandler(self, n):
        if isinstance(self.m.get(n.name), str):
            n.name = self.m[n.name]
        return self.generic_visit(n)


class _AtYield(ast.NodeTransformer):
    def __init__(self, target, block):
        self.target, self.block, self.n = target, block, 0

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            self.n += 1
            pre = []
            if self.target is not None:
                pre = [ast.copy_location(ast.Assign([self.target], n.value.value or ast.Constant(None)), n)]
            return [ast.fix_missing_locations(x) for x in pre] + self.block
        return n


class Desugar:
    def __init__(self, prog):
        self.p, self.count, self.gens = prog, 0, set()

    def run(self):
        cms = {}
        for f in self.p.all_funcs:
            if not is_generator(f.node):
                continue
            if "contextmanager" in decorators(f.node):
                cms[id(f.node)] = f
            elif f.name not in ("__iter__",):
                generator_to_list(f.node)
        self.cms = cms
        ctx = {c.name for c in self.p.classes.values() if c.find("__enter__") and c.find("__exit__")}
        if not cms and not ctx:
            return
        for f in self.p.all_funcs:
            if id(f.node) in cms:
                continue
            for _ in range(4):
                if not any(isinstance(n, ast.With) for n in ast.walk(f.node)):
                    break
                n0 = self.count
                f.node.body = self.block(f, f.node.body)
                if self.count == n0:
                    break

    def block(self, f, body):
        out = []
        for s in body:
            for name in ("body", "orelse", "finalbody"):
                b = getattr(s, name, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, name, self.block(f, b))
            for h in getattr(s, "handlers", []):
                h.body = self.block(f, h.body)
            for c in getattr(s, "cases", []):
                c.body = self.block(f, c.body)
            r = self.with_(f, s) if isinstance(s, ast.With) else None
            out.extend(r if r is not None else [s])
        return out

    def target(self, f, e):
        if not isinstance(e, ast.Call):
            return None, None
        if isinstance(e.func, ast.Name):
            r = self.p.lookup(f.module, e.func.id)
            if r and r[0] in ("func", "class"):
                return r[1], None
        elif isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Name) and e.func.value.id in ("self", "cls") and f.cls is not None:
                return f.cls.find(e.func.attr), e.func.value
            hits = [m for c in self.p.classes.values() for n, m in c.methods.items() if n == e.func.attr and id(m.node) in self.cms]
            if len(hits) == 1:
                return hits[0], e.func.value
        return None, None

    def with_(self, f, s):
        if len(s.items) > 1:
            inner = ast.copy_location(ast.With(s.items[1:], s.body), s)
            s = ast.copy_location(ast.With(s.items[:1], [inner]), s)
        it = s.items[0]
        g, recv = self.target(f, it.context_expr)
        if g is None:
            return None
        from .program import Cls
        if isinstance(g, Cls):
            if not (g.find("__enter__") and g.find("__exit__")):
                return None
            self.count += 1
            v = f"_cm{self.count}"
            nm = lambda: ast.Name(v, ast.Load())
            enter = ast.Call(ast.Attribute(nm(), "__enter__", ast.Load()), [], [])
            st = [ast.Assign([ast.Name(v, ast.Store())], it.context_expr),
                  ast.Assign([it.optional_vars], enter) if it.optional_vars is not None else ast.Expr(enter),
                  ast.Try(s.body, [], [], [ast.Expr(ast.Call(ast.Attribute(nm(), "__exit__", ast.Load()), [ast.Constant(None)] * 3, []))])]
            return [ast.fix_missing_locations(ast.copy_location(x, s)) for x in st]
        if id(g.node) not in self.cms or any(isinstance(n, ast.Return) for n in own(g.node)):
            return None
        call, a = it.context_expr, g.node.args
        if a.vararg or a.kwarg or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return None
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        pos = list(call.args)
        if recv is not None and g.kind in ("method", "classmethod"):
            pos = [recv] + pos
        if len(pos) > len(names):
            return None
        vals.update(zip(names, pos))
        for k in call.keywords:
            vals[k.arg] = k.value
        for x, d in zip(reversed(a.args), reversed(a.defaults)):
            vals.setdefault(x.arg, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                vals.setdefault(x.arg, d)
        names += [x.arg for x in a.kwonlyargs]
        if set(vals) != set(names):
            return None
        stored = {n.id for n in own(g.node) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        stored |= {h.name for h in own(g.node) if isinstance(h, ast.ExceptHandler) and h.name}
        inblock = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        self.count += 1
        ren, pre = {}, []
        for n in names:
            v = vals[n]
            if isinstance(v, ast.Name) and n not in stored and v.id not in inblock:
                ren[n] = v
            else:
                ren[n] = f"_cm{self.count}_{n}"
                pre.append(ast.Assign([ast.Name(ren[n], ast.Store())], v))
        for n in stored:
            ren.setdefault(n, f"_cm{self.count}_{n}")
        body = [_Rename(ren).visit(copy.deepcopy(b)) for b in g.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        y = _AtYield(it.optional_vars, s.body)
        new = []
        for b in body:
            r = y.visit(b)
            new.extend(r if isinstance(r, list) else [r])
        if y.n != 1:
            return None
        return [ast.fix_missing_locations(ast.copy_location(x, s)) for x in pre] + new
