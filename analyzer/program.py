"""Program model: parses every module of the package under /repo and resolves
modules, classes, functions, method-resolution order and imports.

Nothing of the analysed code is imported or executed: everything is read from
the syntax trees of the current working tree.
"""
from __future__ import annotations
import ast, os, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "ecoengine"


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished (public API missing, unparsable source)."""


class Func:
    __slots__ = ("node", "module", "cls", "name", "qual", "kind", "closure")

    def __init__(self, node, module, cls, qual, kind="func", closure=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual
        self.kind = kind      # func | method | classmethod | staticmethod | property | lambda
        self.closure = closure

    @property
    def loc(self):
        return f"{self.module.relpath}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Cls:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods: dict[str, Func] = {}
        self.class_consts: dict[str, ast.expr] = {}
        self.base_exprs = node.bases
        self.bases: list["Cls"] = []
        self.abstract: set[str] = set()
        self._mro = None

    def mro(self):
        if self._mro is None:
            out = [self]
            # single/multiple inheritance linearisation (C3 is not needed here,
            # but keep left-to-right, parents after children)
            seqs = [list(b.mro()) for b in self.bases] + [list(self.bases)]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                out.append(h)
                for s in seqs:
                    if s[0] is h:
                        s.pop(0)
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_const(self, name):
        for c in self.mro():
            if name in c.class_consts:
                return c, c.class_consts[name]
        return None

    def is_subclass(self, other):
        return other in self.mro()

    @property
    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    def __repr__(self):
        return f"<Cls {self.name}>"


class Module:
    def __init__(self, name, path, relpath, tree, src):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.src = src
        self.classes: dict[str, Cls] = {}
        self.funcs: dict[str, Func] = {}
        self.imports: dict[str, tuple] = {}   # local name -> ('mod', m) | ('from', m, n)
        self.is_spec = False
        self.assigns: dict[str, list] = {}    # module-level name -> list of value exprs (None if complex)


class Program:
    def booleans(self):
        """(functions declared to return bool, attributes that only ever hold True or False)"""
        if getattr(self, "_bools", None) is None:
            funcs, yes, no = set(), set(), set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.FunctionDef) and isinstance(n.returns, ast.Name) and n.returns.id == "bool":
                        funcs.add(n.name)
                    tg, v = ([n.target], n.value) if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else (n.targets, n.value) if isinstance(n, ast.Assign) else ((), None)
                    for t in tg:
                        if isinstance(t, ast.Attribute) and isinstance(v, ast.Constant):
                            (yes if isinstance(v.value, bool) else no).add(t.attr)
            self._bools = frozenset(funcs), frozenset(yes - no)
        return self._bools

    def __init__(self, src=SRC):
        self.src = src
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Cls] = {}
        self.all_funcs: list[Func] = []
        self.spec_over: dict = {}
        self.spec_consts: dict = {}
        self.spec_modules: list = []
        base = os.path.join(src, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory {base} not found")
        h = hashlib.sha256()
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "tests"))
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(root, f)
                    rel = os.path.relpath(p, src)
                    parts = rel[:-3].split(os.sep)
                    if parts[-1] == "__init__":
                        parts = parts[:-1]
                    name = ".".join(parts)
                    with open(p, encoding="utf-8") as fh:
                        text = fh.read()
                    h.update(rel.encode()); h.update(text.encode())
                    try:
                        tree = ast.parse(text)
                    except SyntaxError as e:
                        raise AnalysisBroken(f"cannot parse {p}: {e}")
                    self.modules[name] = Module(name, p, os.path.relpath(p, os.path.dirname(src)), tree, text)
        self.digest = h.hexdigest()
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_exprs:
                    r = self.resolve_expr_class(m, b)
                    if r is not None:
                        c.bases.append(r)

        from .desugar import Desugar
        Desugar(self).run()

    def add_module(self, name, path):
        """parse a specification module: its classes describe the analysed classes of the same name"""
        with open(path, encoding="utf-8") as fh:
            text = fh.read()
        m = Module(name, path, os.path.relpath(path, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), ast.parse(text), text)
        m.is_spec = True
        known, n = dict(self.classes), len(self.all_funcs)
        self._index(m)
        self.classes = known           # classes of a specification never shadow the analysed ones
        del self.all_funcs[n:]
        for cn, c in list(m.classes.items()):
            real = known.get(cn)
            if real is None:
                continue
            for mn, f in c.methods.items():
                f.cls = real
                self.spec_over[(cn, mn)] = f
            for k, e in c.class_consts.items():
                self.spec_consts[(cn, k)] = (e, m)
            del m.classes[cn]
        for fn, f in m.funcs.items():
            for k in self.modules.values():
                if not k.is_spec and fn in k.funcs:
                    f.qual = k.funcs[fn].qual
        self.modules[name] = m
        self.spec_modules.append(m)
        return m

    def spec_lookup(self, name):
        if name in self.classes:
            return ("class", self.classes[name])
        for ms in (self.spec_modules, [m for m in self.modules.values() if not m.is_spec]):
            for m in ms:
                if name in m.funcs:
                    return ("func", m.funcs[name])
                if name in m.assigns:
                    return ("var", m, name)
        return None

    # -- indexing ---------------------------------------------------------
    def _index(self, m: Module):
        is_pkg = m.path.endswith("__init__.py")

        def imports_in(body_node):
            for n in ast.walk(body_node):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        yield a.asname or a.name.split(".")[0], ("mod", a.name if a.asname else a.name.split(".")[0])
                elif isinstance(n, ast.ImportFrom):
                    base = self._abs(m, is_pkg, n)
                    for a in n.names:
                        yield a.asname or a.name, ("from", base, a.name)

        for st in m.tree.body:
            for node in ([st] if not isinstance(st, (ast.FunctionDef, ast.ClassDef)) else []):
                for k, v in imports_in(node):
                    m.imports[k] = v
            if isinstance(st, ast.FunctionDef):
                f = Func(st, m, None, f"{m.name}.{st.name}")
                m.funcs[st.name] = f
                self.all_funcs.append(f)
            elif isinstance(st, ast.ClassDef):
                c = Cls(st, m)
                m.classes[st.name] = c
                self.classes.setdefault(st.name, c)
                for s in st.body:
                    if isinstance(s, ast.FunctionDef):
                        kind = "method"
                        for d in s.decorator_list:
                            dn = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else "")
                            if dn in ("classmethod", "staticmethod", "property"):
                                kind = dn
                            elif dn == "cached_property":
                                kind = "property"
                            elif dn == "setter":
                                kind = "setter"
                            elif dn == "abstractmethod":
                                c.abstract.add(s.name)
                        f = Func(s, m, c, f"{c.name}.{s.name}", kind)
                        if kind != "setter":
                            c.methods[s.name] = f
                        self.all_funcs.append(f)
                    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                        c.class_consts[s.targets[0].id] = s.value
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                        c.class_consts[s.target.id] = s.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.assigns.setdefault(t.id, []).append(st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.assigns.setdefault(st.target.id, []).append(st.value)

    def _abs(self, m, is_pkg, n: ast.ImportFrom):
        if n.level == 0:
            return n.module or ""
        parts = m.name.split(".")
        if not is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))

    def resolve_import(self, spec, depth=0):
        """-> ('module', Module) | ('class', Cls) | ('func', Func) | ('var', Module, name) | ('ext', dotted)"""
        if spec[0] == "mod":
            if spec[1] in self.modules:
                return ("module", self.modules[spec[1]])
            return ("ext", spec[1])
        _, base, name = spec
        if base in self.modules:
            return self.lookup(self.modules[base], name, depth + 1) or ("ext", f"{base}.{name}")
        if f"{base}.{name}" in self.modules:
            return ("module", self.modules[f"{base}.{name}"])
        return ("ext", f"{base}.{name}")

    def lookup(self, m: Module, name, depth=0):
        if depth > 10:
            return None
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.funcs:
            return ("func", m.funcs[name])
        if name in m.imports:
            return self.resolve_import(m.imports[name], depth)
        if name in m.assigns:
            return ("var", m, name)
        sub = f"{m.name}.{name}"
        if sub in self.modules:
            return ("module", self.modules[sub])
        return None

    def resolve_expr_class(self, m, e):
        if isinstance(e, ast.Name):
            r = self.lookup(m, e.id)
            if r and r[0] == "class":
                return r[1]
        elif isinstance(e, ast.Attribute):
            return self.classes.get(e.attr)
        return None

    # -- convenience --------------------------------------------------------
    def cls(self, name) -> Cls:
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken(f"class {name} not found in {PKG}")
        return c

    def method(self, cname, mname) -> Func:
        f = self.cls(cname).find(mname)
        if f is None:
            raise AnalysisBroken(f"method {cname}.{mname} not found")
        return f

    def func(self, name) -> Func:
        for m in self.modules.values():
            if name in m.funcs and not m.is_spec:
                return m.funcs[name]
        raise AnalysisBroken(f"function {name} not found in {PKG}")

    def subclasses(self, c: Cls, strict=False):
        out = []
        for m in self.modules.values():
            for k in m.classes.values():
                if k.is_subclass(c) and (not strict or k is not c):
                    out.append(k)
        return out
