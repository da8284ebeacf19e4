"""Comparison of an analysed function with its specification.

Both are translated into one shared value-dependence graph (vdg.py) and every
observable output - the condition and type of every raise, the returned value,
and the final value of every pre-existing field - is compared by algebraic
normal form (norm.py).  Verdict per output: equal / different / undecided.
`undecided` is given when the analysed function contains a construct outside the
decidable fragment (an unsummarised loop, an unmodelled library value).
"""
from __future__ import annotations
import ast
from .program import Program, AnalysisBroken
from .vdg import Interp, Node, Dead, show
from .norm import Normalizer, Rat, TRUE, FALSE, NONE


class Diff:
    def __init__(self, func, output, verdict, code="", spec="", where=""):
        self.func, self.output, self.verdict, self.code, self.spec, self.where = func, output, verdict, code, spec, where

    def __repr__(self):
        return f"<{self.verdict} {self.func}:{self.output}>"


def exc_name(n):
    if n.op == "call":
        return n.attr.split("|")[0]
    if n.op == "ext":
        return n.attr.replace("builtins.", "")
    if n.op == "obj":
        return "Exception"
    return str(n.attr)


class Equiv:
    def __init__(self, prog, types=None, opaque=(), param_types=None, ints=(), positive=(), nonneg=()):
        self.prog = prog
        self.ip = Interp(prog, types=types, opaque=opaque, param_types=param_types, keep_events=False)
        self.rewritten = False      # a value is computed by other means than in the specification
        self.loose = set()          # effects on values that are not named by a parameter or field
        self.nz = Normalizer(self.ip.g, self.ip, ints=ints, positive=positive, nonneg=nonneg)

    # ------------------------------------------------------------------
    def run(self, f, self_type=None, overrides=None, facts=None, pre=None, like=None):
        """translate f; with `like`, its arguments are named and typed as those of `like` (by position)"""
        ov = dict(overrides or {})
        like = like or f
        a1, a2 = f.node.args, like.node.args
        p1, p2 = a1.posonlyargs + a1.args, a2.posonlyargs + a2.args
        nd = len(a1.defaults)
        dflt = {p.arg: d for p, d in zip(p1[len(p1) - nd:], a1.defaults)}
        dflt.update({p.arg: d for p, d in zip(a1.kwonlyargs, a1.kw_defaults) if d is not None})
        n2 = {p.arg: p for p in p2 + a2.kwonlyargs}
        args = {}
        free = [p for p in p2 if p.arg not in {q.arg for q in p1}]
        for i, p in enumerate(p1 + a1.kwonlyargs):
            q = n2.get(p.arg)
            if q is None and p.arg not in dflt and i < len(p2) and p2[i] in free:
                q = p2[i]                      # renamed positional parameter
            if q is None:
                if p.arg in dflt:
                    args[p.arg] = self.ip.eval_in_module(dflt[p.arg], f.module)
                continue
            if q.arg in ov:
                v = ov[q.arg]
                args[p.arg] = v if isinstance(v, Node) else self.ip.symbolic(v, q.arg)
            elif i == 0 and f.kind in ("method", "property") and f.cls is not None:
                args[p.arg] = self.ip.symbolic(self_type or f.cls.name, "self")
            elif i == 0 and f.kind == "classmethod":
                args[p.arg] = self.ip.clsnode(self.prog.cls(self_type) if self_type else f.cls)
            else:
                if isinstance(q.annotation, ast.Name) and q.annotation.id == "int":
                    self.nz.int_labels.add(q.arg)
                t = self.ip.type_from_ann(q.annotation, like.module) or self.ip.param_types.get(q.arg)
                args[p.arg] = self.ip.symbolic(t, q.arg)
        first = next(self.ip.oidc)
        res = self.ip.run(f, args, self_type, facts=facts, pre=pre)
        if res.end is not None:
            for oid in self.ip.objs:
                if oid > first:
                    self.nz.end_state[oid] = res.end
        return res

    def cond_of(self, pcs):
        """node of the disjunction of path conditions; a loop marker turns the remaining conditions into any(...).
        Conditions that leave the same loop are joined inside one any(...)."""
        g = self.ip.g
        groups = []
        for pc in pcs:
            i = next((i for i, (c, b) in enumerate(pc) if c.op == "opaque" and isinstance(c.attr, tuple) and c.attr[0] == "iter" and b), None)
            pre = g.and_([c if b else g.not_(c) for c, b in (pc if i is None else pc[:i])] or [g.const(True)])
            m = None if i is None else pc[i][0]
            if groups and m is not None and groups[-1][0] is pre and groups[-1][1] is m:
                groups[-1][2].append(pc[i + 1:])
            else:
                groups.append((pre, m, [] if i is None else [pc[i + 1:]]))
        outs = []
        for pre, m, rests in groups:
            if m is not None:
                it = g.loops.get(m.attr[1], {}).get("iter")
                rest = self.cond_of(rests)
                if it is not None and not self.ip.reaches_loop(rest, m.attr[1]):
                    pre = g.and_([pre, g.mk("agg", (g.mk("comp", (rest, it), 1),), "any")])
                else:
                    pre = g.and_([pre, m, rest])
            outs.append(pre)
        return g.or_(outs) if len(outs) > 1 else outs[0]

    def raise_tree(self, res):
        nz = self.nz
        t = nz.leaf(("c", "ok")) if res.end is not None else nz.leaf(("c", "raise:?"))
        runs = []
        for e in res.raises:
            n = exc_name(e.val)
            if runs and runs[-1][0] == n:
                runs[-1][1].append(e.st.pc)
            else:
                runs.append((n, [e.st.pc]))
        for n, pcs in reversed(runs):
            c = nz.as_bool(nz.nf(self.cond_of(pcs)))
            t = nz.ite(c, nz.leaf(("c", "raise:" + n)), t)
        return t

    def ok_tree(self, rt):
        nz = self.nz
        return nz.relabel(lambda l: nz.leaf(TRUE if l == ("c", "ok") else FALSE), rt)

    # ------------------------------------------------------------------
    def outputs(self, res, value=True, fields=True):
        """ordered dict output name -> (state, node)"""
        out = {}
        if res.end is None:
            return out
        if value and res.val is not None:
            self.flatten("return", res.val, res.end, out)
        if fields:
            for o, f, old, new in res.changed():
                if not o.symbolic and "[" not in o.path and "." not in o.path and o.path != "self":
                    continue
                if o.kind in ("list", "dict") and f == "*":
                    continue
                if o.kind == "cont" and o.path.startswith(("<csv.reader", "<csv.DictReader", "<iter(")) or o.kind == "cont" and o.path.startswith("<open") and "'r'" in o.path:
                    continue             # how far a reader of the operation's own has been read
                if o.kind in ("list", "cont") or f == "arr":
                    nm = o.path
                else:
                    nm = f"{o.path}.{f}" if isinstance(f, str) else f"{o.path}[{f[1]!r}]"
                if o.kind == "cont" and (o.anchor.op != "src" or o.anchor.attr == "?heap"):
                    self.loose.add(nm)
                out[nm] = (res.end, new, old)
        return out

    def flatten(self, name, n, st, out, depth=0):
        ip = self.ip
        n = ip.refine(st, n)
        if n.op == "tuple" and depth < 3 and len(n.args) <= 16:
            for i, x in enumerate(n.args):
                self.flatten(f"{name}[{i}]", x, st, out, depth + 1)
            out[name + ".len"] = (st, ip.g.const(len(n.args)), None)
            return
        if n.op == "obj":
            o = ip.obj(n)
            if o.kind == "list" and not o.symbolic:
                items = ip.list_items(st, n)
                if items is not None and depth < 3:
                    self.flatten(name, ip.g.mk("tuple", tuple(items)), st, out, depth)
                    return
                out[name] = (st, ip.freeze(st, n), None)
                return
            if o.kind == "dict" and not o.symbolic and depth < 3:
                h = dict(o.init); h.update(st.heap.get(o.oid) or {})
                for k, v in sorted(h.items(), key=lambda kv: repr(kv[0])):
                    self.flatten(f"{name}[{k[1]!r}]" if isinstance(k, tuple) else f"{name}{k}", v, st, out, depth + 1)
                out[name + ".keys"] = (st, ip.g.const(",".join(sorted(repr(k) for k in h))), None)
                return
            if o.kind == "inst" and not o.symbolic and depth < 2:
                h = st.heap.get(o.oid) or {}
                out[name + ".class"] = (st, ip.g.const(o.cls.name), None)
                for k, v in sorted(h.items(), key=lambda kv: repr(kv[0])):
                    self.flatten(f"{name}.{k}", v, st, out, depth + 1)
                return
        out[name] = (st, n, None)

    def val_tree(self, st, n):
        return self.nz.nf(n)

    def compare(self, code, spec, self_type=None, overrides=None, facts=None, pre=None, name=None, raises=True,
                value=True, fields=True, only=None, skip=()):
        """-> list of Diff"""
        nz = self.nz
        name = name or code.qual
        r1 = self.run(code, self_type, overrides, facts, pre, like=spec)
        r2 = self.run(spec, self_type, overrides, facts, pre)
        return self.compare_results(r1, r2, name, code, raises, value, fields, only, skip)

    def compare_results(self, r1, r2, name, code, raises=True, value=True, fields=True, only=None, skip=()):
        nz = self.nz
        diffs = []
        t1, t2 = self.raise_tree(r1), self.raise_tree(r2)
        where = code.loc
        if self.ip.special:
            # where the specification itself fails on a missing object nothing is required
            crash = nz.relabel(lambda l: nz.leaf(TRUE if l == ("c", "raise:crash") else FALSE), t2)
            t1, t2 = nz.ite(crash, nz.leaf(("c", "raise:crash")), t1), nz.ite(crash, nz.leaf(("c", "raise:crash")), t2)
        if raises and t1 is not t2 and not nz.same(t1, t2):
            diffs.append(Diff(name, "raises", self.verdict(t1, t2), nz.show(t1), nz.show(t2), where))
        elif raises:
            diffs.append(Diff(name, "raises", "equal", "", "", where))
        if raises and (r1.end is None or r2.end is None):
            return diffs                 # one side never returns: decided by the conditions of its raises
        ok1, ok2 = self.ok_tree(t1), self.ok_tree(t2)
        o1, o2 = self.outputs(r1, value, fields), self.outputs(r2, value, fields)
        none = nz.leaf(NONE)
        elsewhere = any(k in self.loose for k in o1 if k not in o2) and any(k in self.loose for k in o2 if k not in o1)
        for k in list(o2) + [k for k in o1 if k not in o2]:
            if only is not None and not any(k == x or k.startswith(x) for x in only):
                continue
            if any(k == x or k.startswith(x) for x in skip):
                continue
            e1, e2 = o1.get(k), o2.get(k)
            if e1 is None and elsewhere:
                # the code updates a container it reaches by another route than the specification does
                diffs.append(Diff(name, k, "undecided", "<updated under another name>", show(e2[1]), where))
                continue
            if e1 is None and e2[2] is not None:
                e1 = (r1.end, e2[2], e2[2])       # unchanged by the code
            if e2 is None and e1[2] is not None:
                e2 = (r2.end, e1[2], e1[2])       # unchanged by the specification
            if e1 is None or e2 is None:
                v = "different" if k not in self.loose else "undecided"
                wk = any(x is not None and self.val_tree(x[0], x[1]).weak == 2 for x in (e1,))
                if any(y.startswith("return") and y not in o2 and self.val_tree(o1[y][0], o1[y][1]).weak == 2 for y in o1):
                    wk = True
                made = {y: self.val_tree(o1[y][0], o1[y][1]) for y in o1 if y.startswith("return") and y not in o2}
                theirs = {n for y in o2 for n in nz.library_calls(self.val_tree(o2[y][0], o2[y][1]).free)}
                if any(t.leaf is None or nz.library_calls(t.free) - theirs - nz.COMPUTES for t in made.values()):
                    wk = True            # the result is put together by a library function, or is one of several
                diffs.append(Diff(name, k, "undecided" if wk else v, show(e1[1]) if e1 else "<absent>", show(e2[1]) if e2 else "<absent>", where))
                continue
            a, b = self.val_tree(e1[0], e1[1]), self.val_tree(e2[0], e2[1])
            if a is not b:
                a, b = nz.ite(ok1, a, none), nz.ite(ok2, b, none)
            if a is b or self.nz.same(a, b):
                diffs.append(Diff(name, k, "equal", where=where))
            else:
                diffs.append(Diff(name, k, self.verdict(a, b), nz.show(a), nz.show(b), where))
        return diffs

    def verdict(self, a, b):
        """a: tree of the code, b: tree of the specification, known to be different nodes"""
        nz = self.nz
        if nz.same(a, b):
            return "equal"
        if nz.exhausted:
            return "undecided"
        u = nz.unify(a, b)
        if u is not a:
            a = u
            if a is b or nz.same(a, b):
                return "equal"
            if nz.exhausted:
                return "undecided"
        both = a.free & b.free
        ka, kb = nz.domain_kinds(a.free - b.free, both), nz.domain_kinds(b.free - a.free, both)
        if ka != kb:
            return "undecided"               # written over different iterations
        if nz.aggregates(a.free - b.free) and not nz.aggregates(b.free - a.free):
            self.rewritten = True
            return "undecided"               # a sum over a list written out item by item
        fc = nz.foreign_calls(a, b)
        if fc:
            self.rewritten = True
            return "undecided"               # a library function the other side does without
        fa = {x for x in a.free if x in nz.folded and x not in b.free}
        fb = {x for x in b.free if x in nz.folded and x not in a.free}
        def maybe(x, y):
            return nz.same(nz.folded[x], nz.folded[y], 3000) or nz.exhausted
        if fa and fb and all(any(maybe(x, y) for y in fb) for x in fa):
            return "undecided"               # they differ only in how equal subtrees are written
        wa, wb = nz.weak_prims(a), nz.weak_prims(b)
        extra = {x: l for x, l in wa.items() if x not in wb}
        if extra:
            # constructs of the code without counterpart in the specification: decided only
            # when they are loops of the same shape on both sides
            other = {x: l for x, l in wb.items() if x not in wa}
            if any(l > 1 for l in extra.values()) or any(l > 1 for l in other.values()):
                return "undecided"
            def sk(d):      # loops one by one; the container updates inside them as a set
                l = [nz.loop_skel.get(x) for x in d]
                isb = lambda k: isinstance(k, tuple) and k[:1] == ("build",)
                return sorted(repr(k) for k in l if not isb(k)), {repr(k) for k in l if isb(k)}
            if sk(extra) != sk(other) or any(x not in nz.loop_skel for x in extra):
                return "undecided"
        return "different"
