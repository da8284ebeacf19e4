"""Syntactic congruence: a function whose text agrees with the text of its
specification up to the names of local variables, annotations, docstrings,
statements without effect and exception messages computes the same as the
specification *given equal callees and equal constants*.  Callees and constants
are obligations of their own (refine.py), so congruence is only a shortcut of
the value-graph comparison: whatever is not congruent is compared there.
"""
from __future__ import annotations
import ast, copy


def noop(s):
    if isinstance(s, ast.Pass):
        return True
    if isinstance(s, ast.Expr):
        v = s.value
        if isinstance(v, (ast.Constant, ast.Name)):
            return True
        if isinstance(v, (ast.Tuple, ast.List)) and not v.elts:
            return True
    if isinstance(s, ast.AnnAssign) and s.value is None:
        return True
    if isinstance(s, (ast.Import, ast.ImportFrom)):
        return True
    if isinstance(s, ast.If) and isinstance(s.test, ast.Constant) and not s.test.value and not s.orelse:
        return True
    return False


class Canon(ast.NodeTransformer):
    def __init__(self, resolve, locals_, params):
        self.resolve, self.locals, self.params = resolve, locals_, params
        self.names = {}
        self.free = set()
        self.attrs = set()

    def body(self, stmts):
        out = []
        for s in stmts:
            if noop(s):
                continue
            out.append(self.visit(s))
        return out or [ast.Pass()]

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list):
                if f in ("body", "orelse", "finalbody") and (not v or isinstance(v[0], ast.stmt)):
                    setattr(node, f, self.body(v) if v else [])
                else:
                    setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_Name(self, n):
        if n.id in self.params:
            return ast.Name("p:" + n.id, ast.Load())
        if n.id in self.locals:
            k = self.names.setdefault(n.id, f"v{len(self.names)}")
            return ast.Name(k, ast.Load())
        t = self.resolve(n.id)
        self.free.add(t)
        return ast.Name(t, ast.Load())

    def visit_Attribute(self, n):
        self.attrs.add(n.attr)
        n.value = self.visit(n.value)
        n.ctx = ast.Load()
        return n

    def visit_AnnAssign(self, n):
        return self.visit(ast.Assign([n.target], n.value))

    def visit_Raise(self, n):
        e = n.exc
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            return ast.Raise(ast.Call(self.visit(e.func), [], []), None)
        return self.generic_visit(n)

    def visit_arg(self, n):
        return ast.arg(n.arg, None)

    def visit_Call(self, n):
        n = self.generic_visit(n)
        n.keywords = sorted(n.keywords, key=lambda k: k.arg or "")
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        n.decorator_list = []
        k = self.names.setdefault(n.name, f"v{len(self.names)}")
        n.name = k
        return self.generic_visit(n)


def locals_of(fn):
    out, params = set(), set()
    a = fn.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        params.add(p.arg)
    imported = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.FunctionDef) and n is not fn:
            out.add(n.name)
            for p in n.args.args:
                out.add(p.arg)
        elif isinstance(n, ast.Lambda):
            for p in n.args.args:
                out.add(p.arg)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            imported |= set(n.names)
    return out - params - imported, params


def resolver(prog, func):
    loc = {}
    for n in ast.walk(func.node):
        if isinstance(n, ast.ImportFrom):
            base = prog._abs(func.module, func.module.path.endswith("__init__.py"), n)
            for a in n.names:
                loc[a.asname or a.name] = ("from", base, a.name)
        elif isinstance(n, ast.Import):
            for a in n.names:
                loc[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])

    def tag(r):
        if r[0] == "class":
            return "class:" + r[1].name
        if r[0] == "func":
            return "func:" + r[1].name
        if r[0] == "var":
            return "var:" + r[2]
        if r[0] == "module":
            return "mod:" + r[1].name
        return "ext:" + str(r[1])

    def resolve(name):
        if name in loc:
            return tag(prog.resolve_import(loc[name]))
        r = prog.lookup(func.module, name)
        if r is None and func.module.is_spec:
            r = prog.spec_lookup(name)
        return tag(r) if r is not None else "builtin:" + name
    return resolve


def canon(prog, func):
    """-> (canonical text, free names, attribute names)"""
    fn = copy.deepcopy(func.node)
    loc, params = locals_of(fn)
    c = Canon(resolver(prog, func), loc, params)
    body = fn.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        body = body[1:]
    body = c.body(body)
    args = c.visit(fn.args)
    decos = sorted(ast.unparse(d) for d in fn.decorator_list)
    text = ast.dump(args) + "|" + "\n".join(ast.dump(s) for s in body) + "|" + ",".join(decos)
    return text, c.free, c.attrs
