"""Does the analysed tree refine the reference model?

For every operation of the reference model (specs/*.py) the corresponding
function of the current tree is decided:

  congruent   same text up to local names, given equal callees and constants
  equal       every observable output has the same normal form (equiv.py)
  different   some output has a different normal form -> reported
  undecided   a construct outside the decidable fragment, or the time limit

Callees of the reference model are obligations of their own, so a caller may
be compared with them kept symbolic (`vocab`).  A name that only one side uses
(a helper inlined, or a new call) is expanded on both sides.  Private helpers
are not interfaces: a helper that no longer does what the model's helper does
is expanded in its callers, and only a caller that differs counts.
"""
from __future__ import annotations
import ast, glob, os, signal, time, traceback
from .program import Program, AnalysisBroken
from .vdg import may_be_none, Interp, Dead
from .equiv import Equiv, Diff
from .congruence import canon, resolver

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TYPES = {'class:StorageTank': 'StratifiedTank', 'DHWSystem.storage_tank': 'StratifiedTank',
         'MultiPassRTPSystem.storage_tank': 'SlugOverlayTank'}


class TimeUp(Exception):
    pass


class limit:
    """wall-clock limit on one comparison (raises TimeUp)"""
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*a):
            raise TimeUp()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def private(name):
    return name.startswith("_") and not (name.startswith("__") and name.endswith("__"))


class Ob:
    """one obligation: (class the operation is looked up on, name, analysed function, model function)"""
    def __init__(self, cls, name, code, spec):
        self.cls, self.name, self.code, self.spec = cls, name, code, spec
        self.status, self.how, self.diffs, self.wall, self.outputs = None, "", [], 0.0, 0
        self.sig = None

    @property
    def qual(self):
        return f"{self.cls}.{self.name}" if self.cls else self.name

    def __repr__(self):
        return f"<Ob {self.qual} {self.status}>"


def durations(f):
    """durations are positive, except where the operation itself asks about their sign"""
    a = f.node.args
    asked = {x.id for n in ast.walk(f.node) if isinstance(n, ast.Compare) for x in ast.walk(n) if isinstance(x, ast.Name)}
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs if p.arg == "duration_min" and p.arg not in asked]


class Model:
    def __init__(self, src=None, specs=None, per=40.0, budget=600.0):
        self.src = src
        self.prog = Program(src) if src else Program()
        for f in sorted(glob.glob(os.path.join(specs or os.path.join(HERE, "specs"), "*.py"))):
            self.prog.add_module("spec_" + os.path.basename(f)[:-3], f)
        self.per, self.deadline = per, time.time() + budget
        self.obs: dict[str, Ob] = {}
        self.notes = []
        self.canons = {}
        self.active = set()
        self.build()

    # -- obligations -------------------------------------------------------
    def build(self):
        P = self.prog
        names = {m for (_, m) in P.spec_over}
        missing_cls = set()
        for m in P.spec_modules:
            for cn in m.classes:
                missing_cls.add(cn)        # a class of the model that the tree does not define
        self.missing_classes = missing_cls
        for (c, m), sf in P.spec_over.items():
            code = P.cls(c).find(m)
            self.obs[f"{c}.{m}"] = Ob(c, m, code, sf)
        for sm in P.spec_modules:
            for n, sf in sm.funcs.items():
                try:
                    code = P.func(n)
                except AnalysisBroken:
                    code = None
                self.obs[n] = Ob(None, n, code, sf)
        # members the tree adds that replace a member of the model
        self.dirty = set()
        for c in set(P.classes.values()):
            for mn, f in c.methods.items():
                if (c.name, mn) in P.spec_over:
                    continue
                sf = next((P.spec_over[(k.name, mn)] for k in c.mro()[1:] if (k.name, mn) in P.spec_over), None)
                if sf is not None:
                    self.obs[f"{c.name}.{mn}"] = Ob(c.name, mn, f, sf)
                elif f.kind == "property" or (mn.startswith("__") and mn.endswith("__")):
                    self.dirty.add(mn)
        for (c, k), (e, m) in P.spec_consts.items():
            cc = P.cls(c).find_const(k)
            if cc is None or ast.dump(cc[1]) != ast.dump(e):
                self.dirty.add(k)
        known = {k for (_, k) in P.spec_consts} | names
        for c in set(P.classes.values()):
            for k in c.class_consts:
                if k in known and (c.name, k) not in P.spec_consts:
                    self.dirty.add(k)
        spec_vars = {}
        for sm in P.spec_modules:
            for k, vs in sm.assigns.items():
                spec_vars.setdefault(k, []).append((sm, vs))
        self.spec_vars = spec_vars
        code_vars = {}
        for m in P.modules.values():
            if not m.is_spec:
                for k, vs in m.assigns.items():
                    code_vars.setdefault(k, []).append((m, vs))
                for s in m.tree.body:          # monkey patching at import time
                    if isinstance(s, (ast.Assign, ast.AugAssign)):
                        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                            if isinstance(t, ast.Attribute):
                                self.dirty.add(t.attr)
        for k in set(spec_vars) & set(code_vars):
            a = sorted({self.vardump(m, k, vs) for m, vs in spec_vars[k]})
            b = sorted({self.vardump(m, k, vs) for m, vs in code_vars[k]})
            if a != b:
                self.dirty.add(k)
        for k in code_vars:
            if k in spec_vars:
                continue
        for m in P.spec_modules:
            pass

    def vardump(self, m, k, vs):
        out = [ast.dump(v) for v in vs]
        for s in m.tree.body:      # statements that build the variable up
            if isinstance(s, (ast.For, ast.While, ast.If, ast.AugAssign)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
                if any(isinstance(n, ast.Name) and n.id == k for n in ast.walk(s)):
                    out.append(ast.dump(s))
        return "|".join(out)

    def canon(self, f):
        r = self.canons.get(f)
        if r is None:
            r = self.canons[f] = canon(self.prog, f)
        return r

    def congruent(self, ob):
        if ob.code is None:
            return False
        a, b = self.canon(ob.code), self.canon(ob.spec)
        if a[0] != b[0]:
            return False
        names = {x.split(":", 1)[1] for x in a[1]} | a[2]
        if names & self.dirty:
            return False
        # constants reached by name must be constants of the model too
        return True

    def congruent_text(self, ob):
        return ob.code is not None and self.canon(ob.code)[0] == self.canon(ob.spec)[0]

    # -- signatures --------------------------------------------------------
    def signature(self, ob):
        """problem with the calling interface, or None"""
        P = self.prog
        a, b = ob.code.node.args, ob.spec.node.args
        pa, pb = a.posonlyargs + a.args, b.posonlyargs + b.args
        na = [p.arg for p in pa + a.kwonlyargs]
        nb = [p.arg for p in pb + b.kwonlyargs]
        for p in nb:
            if p not in na and not (a.kwarg or p in ("self", "cls")):
                return f"parameter {p} was removed or renamed"
        if [p for p in na if p in nb and p not in [q.arg for q in a.kwonlyargs]] != [p for p in nb if p in na and p not in [q.arg for q in a.kwonlyargs]]:
            return "parameters were reordered"
        ip = Interp(P, keep_events=False)

        def defaults(args, pos, f):
            out = {}
            nd = len(args.defaults)
            for p, d in zip(pos[len(pos) - nd:], args.defaults):
                out[p.arg] = ip.eval_in_module(d, f.module)
            for p, d in zip(args.kwonlyargs, args.kw_defaults):
                if d is not None:
                    out[p.arg] = ip.eval_in_module(d, f.module)
            return out
        da, db = defaults(a, pa, ob.code), defaults(b, pb, ob.spec)
        from .norm import Normalizer
        nz = Normalizer(ip.g, ip)
        for p, v in db.items():
            w = da.get(p)
            if w is None:
                return f"parameter {p} lost its default"
            if w is not v and nz.nf(w) is not nz.nf(v):
                return f"default of parameter {p} changed"
        for p in na:
            if p not in nb and p not in da:
                return f"new parameter {p} without default"
        return None

    # -- graph comparison ----------------------------------------------------
    def selftypes(self, ob):
        """classes the operation is analysed on"""
        if ob.cls is None:
            return [None]
        c = self.prog.cls(ob.cls)
        if ob.code.kind in ("staticmethod",):
            return [ob.cls]
        return [ob.cls]

    def special_cases(self, ob, vocab, self_type=None):
        """an operation found equal with every declared object present and of its declared class: compare it
        again with each optional object missing, and with the subclasses of every argument whose class it asks"""
        opt, asked = self.seen_optional, self.seen_classes
        cases = []
        a = ob.spec.node.args
        E = Equiv(self.prog, types=dict(TYPES))
        ptypes = {}
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            t = E.ip.type_from_ann(p.annotation, ob.spec.module) or E.ip.param_types.get(p.arg)
            if t:
                ptypes[p.arg] = t
        d = a.defaults
        dflt = {p.arg for p, v in list(zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(d):], d)) + list(zip(a.kwonlyargs, a.kw_defaults))
                if isinstance(v, ast.Constant) and v.value is None}
        for k in sorted(opt):
            cases.append((f"{k} is None", {k: "none"}, {}))
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg in ptypes and (p.arg in dflt or may_be_none(p.annotation)):
                cases.append((f"{p.arg} is None", {}, {p.arg: "none"}))
        lists = {f"{c}.{f}": t for c, f, t in self.seen_lists}
        plists = {p: t[5:] for p, t in ptypes.items() if t.startswith("list:") and p not in ("self",)}
        if lists or plists:
            for name, pre in (("lists have two members", "n2:"), ("lists are empty", "empty")):
                ty = lambda t: pre + t if pre.endswith(":") else pre
                cases.append((name, {k: ty(t) for k, t in lists.items()}, {p: ty(t) for p, t in plists.items()}))
        for c in sorted(asked):
            k = self.prog.classes.get(c)
            for sub in (self.prog.subclasses(k) if k is not None else ()):
                if sub is k or getattr(sub.module, "is_spec", False) or sub.abstract:
                    continue
                types = {f"class:{b.name}": sub.name for b in k.mro() if f"class:{b.name}" in TYPES}
                types[f"class:{c}"] = sub.name
                cases.append((f"{c} is a {sub.name}", types, {p: sub.name for p, t in ptypes.items() if t == c}))
        left = min(self.per, self.deadline - time.time())
        t0, open_ = time.time(), []
        for name, types, ov in cases:
            rem = left - (time.time() - t0)
            if rem <= 1:
                return "undecided", "special cases not finished in time: " + name, []
            v = "undecided"
            try:
                with limit(max(1.0, left - (time.time() - t0))):
                    v, diffs = self.graph(ob, (), vocab, types, self_type=self_type, overrides=ov, special=True)
            except (TimeUp, Exception):
                v = "undecided"
            if v == "different":
                for x in diffs:
                    x.output += f" (when {name})"
                return "different", "normal forms, when " + name, [x for x in diffs if x.verdict != "equal"]
            if v != "equal" and not name.startswith("lists "):
                open_.append(name)
        if open_:
            return "undecided", "outside the fragment when " + "; ".join(open_), []
        return "equal", len(cases), []

    def graph(self, ob, expand, vocab=True, types=None, per=None, self_type=None, overrides=None, special=False):
        """one comparison; -> (verdict, diffs)"""
        st = self_type or ob.cls
        drop = set(expand) | {ob.qual}
        if st:
            drop |= {f"{k.name}.{ob.name}" for k in self.prog.cls(st).mro()}
        worst = None
        for rnd in range(6):
            voc = frozenset(self.vocabulary() - drop) if vocab else frozenset()
            E = Equiv(self.prog, types=dict(TYPES, **(types or {})), positive=durations(ob.spec))
            E.ip.vocab = voc
            E.ip.special = special
            r1 = E.run(ob.code, st, overrides, like=ob.spec)
            u1 = set(E.ip.summ_used); E.ip.summ_used = set()
            r2 = E.run(ob.spec, st, overrides)
            u2 = set(E.ip.summ_used)
            self.seen_optional, self.seen_classes, self.seen_lists = set(E.ip.optional), set(E.ip.classes_asked), set(E.ip.lists_read)
            self.entered = set(E.ip.funcs_seen)
            diffs = E.compare_results(r1, r2, ob.qual, ob.code)
            bad = [d for d in diffs if d.verdict != "equal"]
            ob.rewritten = E.rewritten
            if not bad:
                return "equal", diffs
            one = (u1 ^ u2)
            if not vocab or not one:
                break
            for q in one:
                drop |= self.aliases(q)
        v = "different" if any(d.verdict == "different" for d in bad) else "undecided"
        if v == "different" and self.shaky(u1 | u2):
            v = "undecided"
        return v, diffs

    def aliases(self, q):
        out = {q}
        if "." in q:
            c, m = q.rsplit(".", 1)
            if c in self.prog.classes:
                k = self.prog.classes[c]
                out |= {f"{x.name}.{m}" for x in k.mro()}
                out |= {f"{x.name}.{m}" for x in self.prog.subclasses(k)}
            else:
                out.add(m)
        return out

    def vocabulary(self):
        """operations that may stay symbolic: decided equal, or not (yet) decidable with an unchanged interface"""
        if not hasattr(self, "_voc"):
            self._voc = {q for q, o in self.obs.items() if o.code is not None and not o.name.startswith("__")
                         and o.code.kind != "property" and o.name not in o_abstract(self.prog, o)}
        bad = set()
        for q, o in self.obs.items():
            if o.status == "different" or (o.status == "undecided" and o.sig is not None):
                bad |= self.aliases(q)
        return self._voc - bad

    def shaky(self, used):
        """symbolic callees whose own comparison is open"""
        return {q for q in used for o in (self.obs.get(q),) if o is not None and o.status == "undecided"}

    def callees(self, ob):
        names = set()
        for f in (ob.code, ob.spec):
            if f is not None:
                c = self.canon(f)
                names |= c[2] | {x.split(":", 1)[1] for x in c[1]}
        return [o for o in self.obs.values() if o.name in names and o is not ob]

    # -- deciding ------------------------------------------------------------
    def decide(self, ob, expand=(), self_type=None):
        if ob.status is not None and not expand:
            return ob.status
        if not expand:
            if ob.code is not None and not self.congruent(ob):
                if ob.qual in self.active:
                    return "undecided"
                self.active.add(ob.qual)
                for c in self.callees(ob):
                    if c.status is None and c.qual not in self.active and (c.code is None or not self.congruent(c)):
                        self.decide(c)
                self.active.discard(ob.qual)
        t0 = time.time()
        st, how, diffs = self._decide(ob, expand, self_type)
        w = time.time() - t0
        if not expand:
            ob.status, ob.how, ob.diffs, ob.wall = st, how, diffs, w
        return st if not expand else (st, how, diffs)

    def _decide(self, ob, expand, self_type=None):
        if ob.code is None:
            if private(ob.name):
                return "equal", "private helper no longer exists; its callers are compared with the model's expanded", []
            return "different", "vanished", [Diff(ob.qual, "operation", "different", "<absent>", "public operation of the model", "")]
        if not expand and self.congruent(ob):
            return "equal", "congruent", []
        sig = self.signature(ob)
        if sig is not None:
            ob.sig = sig
            if not private(ob.name):
                return "different", "signature", [Diff(ob.qual, "signature", "different", sig, "", ob.code.loc)]
            return "different", "signature", [Diff(ob.qual, "signature", "different", sig, "", ob.code.loc)]
        if ob.name in o_abstract(self.prog, ob):
            return "equal", "abstract declaration", []
        results = []
        for vocab, types in ((True, None), (False, None), (True, {"DHWSystem.water_heaters": "n2:WaterHeater", "param:water_heaters": "n2:WaterHeater"})):
            if types and any(r[0] == "different" for r in results):
                break                  # a special case cannot overrule the general comparison
            left = min(self.per, self.deadline - time.time())
            if expand:
                left = min(left, self.per / 2, getattr(self, "via_deadline", self.deadline) - time.time())
            if left <= 1:
                results.append(("undecided", "time", []))
                break
            try:
                with limit(left):
                    v, d = self.graph(ob, expand, vocab, types, self_type=self_type)
            except TimeUp:
                v, d = "undecided", [Diff(ob.qual, "*", "undecided", "time limit", "", ob.code.loc)]
            except (RecursionError, MemoryError):
                v, d = "undecided", [Diff(ob.qual, "*", "undecided", "recursion limit", "", ob.code.loc)]
            except Exception as e:
                # a construct the translation does not handle: no verdict on this operation
                tb = traceback.extract_tb(e.__traceback__)[-1]
                v, d = "undecided", [Diff(ob.qual, "*", "undecided", f"{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})", "", ob.code.loc)]
            if v == "equal":
                how = "normal forms" + (" (callees symbolic)" if vocab else "")
                if not expand:
                    v2, n, d2 = self.special_cases(ob, vocab, self_type)
                    if v2 != "equal":
                        return v2, n, d2
                    if n:
                        how += f", {n} special cases"
                return "equal", how, d
            results.append((v, vocab, d))
            if expand and d and d[0].code == "time limit":
                break
        for v, how, d in results:
            if v == "different":
                return "different", "normal forms", [x for x in d if x.verdict != "equal"]
        return "undecided", "outside the fragment", [x for r in results for x in (r[2] or []) if x.verdict != "equal"][:4]

    def callers(self, ob):
        out = []
        for o in self.obs.values():
            if o is ob:
                continue
            for f in (o.code, o.spec):
                if f is None:
                    continue
                c = self.canon(f)
                if ob.name in c[2] or ("func:" + ob.name) in c[1]:
                    out.append(o)
                    break
        return out

    def run(self, only=None):
        """decide everything (or the obligations named in `only`)"""
        order = sorted((o for o in self.obs.values() if only is None or o.qual in only), key=lambda o: (not private(o.name), o.qual))
        for o in order:
            self.decide(o)
        # private helpers that changed: what do their callers observe?
        self.expanded = {}
        for o in sorted(self.obs.values(), key=lambda o: o.qual):
            if o.status is not None and private(o.name) and o.status in ("different", "undecided"):
                self.via_callers(o)
        return self.obs

    def via_callers(self, ob):
        self.via_deadline = min(self.deadline, time.time() + 3 * self.per)
        expand = self.aliases(ob.qual)
        was = getattr(ob, "rewritten", False)
        seen, todo, verdicts = {ob.qual}, [ob], []
        while todo:
            x = todo.pop()
            for c in self.callers(x):
                if c.qual in seen:
                    continue
                seen.add(c.qual)
                if c.code is None:
                    continue
                # a helper overridden in a subclass is reached by the inherited caller on that subclass
                on = None
                if ob.cls and c.cls and ob.cls != c.cls:
                    k = self.prog.cls(ob.cls)
                    if self.prog.cls(c.cls) in k.mro() and k.find(c.name) is c.code:
                        on = ob.cls
                self.entered = set()
                st, how, d = self.decide(c, expand=tuple(expand), self_type=on)
                if st == "equal" and not self.entered & {ob.code, ob.spec}:
                    continue                   # does not reach the helper (another class, another path)
                verdicts.append((c, st, d))
                if st != "equal" and private(c.name):
                    expand |= self.aliases(c.qual)
                    todo.append(c)
        final = [(c, st, d) for c, st, d in verdicts if not private(c.name)] or verdicts
        ob.via = [(c.qual, st) for c, st, d in verdicts]
        if verdicts and all(st == "equal" for c, st, d in verdicts):
            ob.status, ob.how = "equal", "private helper changed; every caller still agrees with the model"
            return
        diff = [(c, d) for c, st, d in final if st == "different"]
        if ob.status == "different" and any(not self.congruent_text(c) for c, st, d in verdicts) and not any(st == "different" for c, st, d in verdicts):
            # a caller was edited together with the helper and may compensate
            ob.status, ob.how = "undecided", "private helper and a caller changed together; no caller decided"
        if ob.status == "undecided" and diff and not was:
            # a caller that differs although the helper is undecided: report the caller
            for c, d in diff:
                c.status, c.how, c.diffs = "different", f"through {ob.qual}", d
        if ob.status == "different" and ob.how == "signature" and not diff:
            ob.status, ob.how = ("undecided", "interface of a private helper changed")


def o_abstract(prog, o):
    if o.cls is None:
        return ()
    return prog.cls(o.cls).abstract
