"""Independent laws.

laws/*.py states consequences of the properties over the public operations of the analysed classes: each function
`pNN_...` takes arbitrary objects and values and returns {claim: (left, right)}.  The analysed operations a law uses are
expanded from the current source (the reference model is not consulted) and the two sides are compared by normal form.
A law is

  proved      same normal form for all states and arguments
  violated    different normal forms, established
  undecided   otherwise

A violated law is reported unless every changed operation it enters is equal to the reference model (for which the
laws are proved), in which case the disagreement can only come from the way the law's value is written.
"""
from __future__ import annotations
import ast, glob, os, time
from .program import Program
from .equiv import Equiv
from .norm import FALSE, TRUE, NONE

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Laws:
    def __init__(self, src=None):
        self.prog = Program(src) if src else Program()
        self.funcs = {}
        for f in sorted(glob.glob(os.path.join(HERE, "laws", "*.py"))):
            m = self.prog.add_module("laws_" + os.path.basename(f)[:-3], f)
            for n, fn in m.funcs.items():
                if n[0] == "p" and n[1:3].isdigit():
                    self.funcs[n] = fn

    def of(self, pid):
        return [n for n in self.funcs if n[:3].upper() == pid]

    def prove(self, name):
        """-> (list of (claim, verdict, left, right), functions entered)"""
        from .refine import TYPES
        f = self.funcs[name]
        E = Equiv(self.prog, types=dict(TYPES), positive=("minutes", "duration_min"))
        r = E.run(f)
        nz = E.nz
        if r.end is None:
            return [("*", "undecided", "the law always raises", "")], set()
        ok = E.ok_tree(E.raise_tree(r))
        if ok.leaf is not None and not nz.leaf_truth(ok.leaf):
            return [("*", "undecided", "no state satisfies the preconditions", "")], set()
        out = {}
        E.flatten("return", r.val, r.end, out)
        res = []
        names = sorted({k.rsplit("[", 1)[0] for k in out if k.endswith("[0]")})
        none = nz.leaf(NONE)
        for k in names:
            a, b = out[k + "[0]"], out.get(k + "[1]")
            if b is None:
                continue
            x, y = nz.ite(ok, nz.nf(a[1]), none), nz.ite(ok, nz.nf(b[1]), none)
            v = "proved" if x is y or nz.same(x, y) else {"equal": "proved", "different": "violated"}.get(E.verdict(x, y), "undecided")
            res.append((k[len("return"):].strip("[]'\""), v, nz.show(x), nz.show(y)))
        if not res:
            res.append(("*", "undecided", "no claims", ""))
        return res, {g.qual for g in E.ip.funcs_seen}


def check(model, pid, limit_s=25.0):
    """-> (results for the evidence, findings)"""
    from .refine import limit, TimeUp
    L = Laws(model.src)
    out, findings = [], []
    for n in L.of(pid):
        t0 = time.time()
        try:
            with limit(limit_s):
                res, entered = L.prove(n)
        except TimeUp:
            res, entered = [("*", "undecided", "time limit", "")], set()
        except Exception as e:
            res, entered = [("*", "undecided", f"{type(e).__name__}: {e}", "")], set()
        out.append(dict(law=n, claims={c: v for c, v, _, _ in res}, operations=sorted(entered - {n}), wall_s=round(time.time() - t0, 2)))
        bad = [x for x in res if x[1] == "violated"]
        if not bad:
            continue
        obs = [o for o in model.obs.values() if o.code is not None and o.code.qual in entered]
        for o in obs:
            model.decide(o)
        if all(o.status == "equal" for o in obs):
            out[-1]["note"] = "not reported: every operation entered equals the reference model, for which the law is proved"
            continue
        where = next((o.code.loc for o in obs if o.status != "equal"), "")
        findings.append(dict(rule="law", construct=n, where=where, how="law",
                             detail=[dict(output=c, code=a[:1500], model=b[:1500]) for c, _, a, b in bad]))
    return out, findings
