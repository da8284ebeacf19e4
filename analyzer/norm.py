"""Algebraic normal form of value-dependence-graph nodes.

Every node is mapped to a hash-consed *gated normal form*: an ordered decision
tree whose guards are sign-normalised comparisons (L < c, L == c), null tests,
string equalities or uninterpreted truth values, and whose leaves are rational
functions with exact rational coefficients over canonical atoms.  Two nodes with
the same normal form denote the same real-valued function of the entry values.

The map is a bottom-up dataflow evaluation of the (shared) graph with memoisation;
there is no path enumeration, no solver and no numeric evaluation of the program.
"""
from __future__ import annotations
from fractions import Fraction
from . import polyhedra
import math
from .vdg import Node, show

BIG = 400            # a larger decision tree is kept folded (not distributed over operators)


class Rat:
    """num / prod(den); num: dict mono->Fraction, den: dict polykey->exp.  Immutable."""
    __slots__ = ("num", "den", "key", "_h")

    def __init__(self, num, den):
        self.num, self.den = num, den
        self.key = (tuple(sorted(num.items())), tuple(sorted(den.items())))
        self._h = hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Rat) and self.key == o.key

    def __hash__(self):
        return self._h


# ---- polynomials: dict[mono] -> Fraction ; mono = tuple of (atom, exp) sorted --------
def padd(a, b, k=Fraction(1)):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def mdeg(m):
    return sum(e for _, e in m)


def morder(m):
    """a monomial order (degree, then lexicographic) compatible with multiplication"""
    return (mdeg(m), tuple((-a, e) for a, e in m))


def lead(p):
    return max(p, key=morder)


def mdiv(a, b):
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) - e
        if v < 0:
            return None
        if v == 0:
            d.pop(x, None)
        else:
            d[x] = v
    return tuple(sorted(d.items()))


def pdivexact(a, b, limit=400):
    """quotient if b divides a exactly, else None"""
    if len(b) == 1:
        (mb, cb), = b.items()
        q = {}
        for m, c in a.items():
            d = mdiv(m, mb)
            if d is None:
                return None
            q[d] = c / cb
        return q
    if len(a) < 1 or len(a) > 4000:
        return None
    # lexicographic order by variable makes division with remainder well defined
    vars_ = sorted({x for m in list(a) + list(b) for x, _ in m})
    pos = {v: i for i, v in enumerate(vars_)}

    def vec(m):
        v = [0] * len(vars_)
        for x, e in m:
            v[pos[x]] = e
        return tuple(v)
    lb = max(b, key=vec)
    cb = b[lb]
    r, q = dict(a), {}
    n = 0
    while r:
        n += 1
        if n > limit:
            return None
        lr = max(r, key=vec)
        d = mdiv(lr, lb)
        if d is None:
            return None
        c = r[lr] / cb
        q[d] = q.get(d, 0) + c
        r = padd(r, pmul({d: c}, b), Fraction(-1))
    return q


class Tree:
    __slots__ = ("id", "guard", "t", "f", "leaf", "size", "weak", "free")

    def __repr__(self):
        return f"T{self.id}"


TRUE, FALSE, NONE = ("c", True), ("c", False), ("c", None)
NUMERIC_EXT = {"abs", "round", "int", "float", "math.ceil", "math.floor", "math.sqrt", "math.exp", "math.log", "len"}


PREDICATES = {".startswith", ".endswith", ".isdigit", ".isalpha", ".isnumeric", "os.path.exists", "os.path.isfile", "os.path.isdir", "bool"}
_BUILTIN = ("dict", "list", "tuple", "str", "int", "float", "set", "bytes")


def disjoint_types(a, b):
    """two different built-in types, of which no value is an instance of both"""
    a, b = (str(x).strip("<>").split(".")[-1] for x in (a, b) if "builtins." in str(x)) if "builtins." in str(a) and "builtins." in str(b) else ("", "")
    return a != b and a in _BUILTIN and b in _BUILTIN


class Normalizer:
    def __init__(self, graph, interp=None, ints=(), positive=(), nonneg=()):
        self.g = graph
        self.ip = interp
        self.int_labels, self.pos_labels = set(ints), set(positive)
        self.nonneg_labels = set(nonneg) | self.pos_labels
        self.bools = interp.prog.booleans() if interp is not None else (frozenset(), frozenset())
        self.atoms = {}         # key -> id
        self.atom_key = []      # id -> key
        self.atom_free = []     # id -> frozenset(ids)
        self.atom_weak = []
        self.atom_int = []
        self.atom_nn = []
        self.trees = {}
        self.tcount = 0
        self.guards = {}
        self.guard_key = []
        self.guard_free = []
        self.guard_weak = []
        self.polys = {}         # canonical poly key -> id (for denominators)
        self.poly_of = []
        self.forms = {}
        self.form_of = []
        self.memo = {}
        self.ite_memo = {}
        self.cof_memo = {}
        self.open_mu = {}       # mu node -> atom id while its loop is open
        self.reach_memo = {}
        self.mu_names = {}
        self.loop_busy = set()
        self.floor_arg = {}
        self.loop_skel = {}
        self.loop_parts = {}
        self.end_state = {}
        self.busy_objs = set()
        self.prim = {}          # atom id -> weakness it introduces itself
        self.tree_list = []
        self.bound_index = {}   # leaf key of an iterable -> its element/index atoms
        self.big = BIG
        self.folded = {}             # atom standing for a whole decision tree -> that tree
        self.exhausted = False       # the last comparison ran out of budget

    # ------------------------------------------------------------ interning
    def atom(self, key, free=(), weak=0, isint=False, nonneg=False, prim=None):
        a = self.atoms.get(key)
        if a is None:
            a = len(self.atom_key)
            weak = int(weak)
            if prim is None and weak and weak > max((self.atom_weak[x] for x in free), default=0):
                prim = weak
            if prim:
                self.prim[a] = prim
            if isinstance(key[0], tuple) and key[0][0] in ("elem", "index", "key") and len(key) == 2:
                self.bound_index.setdefault(key[1], set()).add(a)
            self.atoms[key] = a
            self.atom_key.append(key)
            self.atom_free.append(frozenset(free) | {a})
            self.atom_weak.append(weak)
            self.atom_int.append(isint)
            self.atom_nn.append(nonneg)
        return a

    def leaf(self, l):
        k = ("leaf", l)
        t = self.trees.get(k)
        if t is None:
            t = Tree()
            t.id, t.guard, t.t, t.f, t.leaf, t.size = self.tcount, None, None, None, l, 1
            self.tcount += 1
            t.free, t.weak = self._leaf_free(l)
            self.trees[k] = t
            self.tree_list.append(t)
        return t

    def _leaf_free(self, l):
        fr, weak = set(), 0
        if isinstance(l, Rat):
            for a in self.rat_atoms(l):
                fr |= self.atom_free[a]
                weak = max(weak, self.atom_weak[a])
        elif l[0] == "t":
            for t in l[1]:
                fr |= t.free
                weak = max(weak, t.weak)
        return frozenset(fr), weak

    def rat_atoms(self, r):
        s = {x for m in r.num for x, _ in m}
        for pk in r.den:
            s |= {x for m in self.poly_of[pk] for x, _ in m}
        return s

    def node(self, g, t, f):
        """raw interned decision node (already ordered/reduced)"""
        if t is f:
            return t
        k = (g, t.id, f.id)
        n = self.trees.get(k)
        if n is None:
            n = Tree()
            n.id, n.guard, n.t, n.f, n.leaf = self.tcount, g, t, f, None
            self.tcount += 1
            n.size = t.size + f.size
            n.weak = max(t.weak, f.weak, self.guard_weak[g])
            n.free = t.free | f.free | self.guard_free[g]
            self.trees[k] = n
            self.tree_list.append(n)
        return n

    # guards: ('lt', form, c) ('eq', form, c) ('b', fam_atom, rank, payload)
    def guard(self, key, free, weak):
        g = self.guards.get(key)
        if g is None:
            g = len(self.guard_key)
            self.guards[key] = g
            self.guard_key.append(key)
            self.guard_free.append(frozenset(free))
            self.guard_weak.append(weak)
        return g

    def gorder(self, g):
        k = self.guard_key[g]
        if k[0] in ("lt", "eq"):
            return (1, k[1], k[2], 0 if k[0] == "lt" else 1, "")
        return (0, k[1], Fraction(0), k[2], repr(k[3]))

    def implied(self, g, val, h):
        """value of guard h when g has value val; None if unknown"""
        if g == h:
            return val
        a, b = self.guard_key[g], self.guard_key[h]
        if a[0] in ("lt", "eq") and b[0] in ("lt", "eq"):
            if a[1] != b[1]:
                return None
            ca, cb = a[2], b[2]
            if a[0] == "lt" and val:            # L < ca
                return True if (b[0] == "lt" and cb >= ca) else (False if (b[0] == "eq" and cb >= ca) else None)
            if a[0] == "lt":                    # L >= ca
                return False if (b[0] == "lt" and cb <= ca) else (False if (b[0] == "eq" and cb < ca) else None)
            if val:                             # L == ca
                return (ca < cb) if b[0] == "lt" else (ca == cb)
            return None
        if a[0] == "b" and b[0] == "b" and a[1] == b[1]:
            ka, kb = a[3], b[3]
            if val:
                if ka[0] == "isnone":
                    return False if kb[0] in ("truth", "eqc", "isinst") else None
                if ka[0] == "eqc":
                    if kb[0] == "eqc" or kb[0] == "isnone":
                        return False
                    if kb[0] == "truth":
                        return bool(ka[1])
                if ka[0] == "isinst" == kb[0] and disjoint_types(ka[1], kb[1]):
                    return False
                if ka[0] in ("truth", "isinst"):
                    return False if kb[0] == "isnone" else None
        return None

    def same_family(self, g, h):
        a, b = self.guard_key[g], self.guard_key[h]
        return a[0] != "b" and b[0] != "b" and a[1] == b[1] or (a[0] == "b" == b[0] and a[1] == b[1])

    def cof(self, t, g, val):
        """cofactor of tree t under guard g == val (family aware)"""
        if t.leaf is not None:
            return t
        k = (t.id, g, val)
        r = self.cof_memo.get(k)
        if r is not None:
            return r
        h = t.guard
        iv = self.implied(g, val, h)
        if iv is not None:
            r = self.cof(t.t if iv else t.f, g, val)
        elif g not in self.support(t) :
            r = t
        else:
            r = self.mk(h, self.cof(t.t, g, val), self.cof(t.f, g, val))
        self.cof_memo[k] = r
        return r

    _support_memo = None

    def support(self, t):
        """guards (and families) occurring in the tree, as a set of guard ids closed under family"""
        if self._support_memo is None:
            self._support_memo = {}
        s = self._support_memo.get(t.id)
        if s is None:
            if t.leaf is not None:
                s = _FamSet(self, frozenset())
            else:
                s = _FamSet(self, self.support(t.t).fams | self.support(t.f).fams | {self.family(t.guard)})
            self._support_memo[t.id] = s
        return s

    def family(self, g):
        k = self.guard_key[g]
        return ("n", k[1]) if k[0] != "b" else ("b", k[1])

    def mk(self, g, t, f):
        """reduced decision node; t/f only contain guards ordered after g"""
        if t is f:
            return t
        k = self.guard_key[g]
        if k[0] == "eq":
            t2 = self.subst_eq(t, k)
            f2 = self.subst_eq(f, k)
            if t2 is f2:
                return f
            if self.ordered_after(t2, g):
                t = t2
        elif k[0] == "b" and k[3][0] == "isnone":
            t = self.subst_atom(t, k[1], self.leaf(NONE))
            if t is f:
                return t
        elif k[0] == "b" and k[3][0] == "eqc":
            t2 = self.subst_atom(t, k[1], self.leaf(("c", k[3][1])))
            if t2 is self.subst_atom(f, k[1], self.leaf(("c", k[3][1]))):
                return f
            t = t2
        return self.node(g, t, f)

    def ordered_after(self, t, g):
        return t.leaf is not None or self.gorder(g) < self.gorder(t.guard)

    # ------------------------------------------------------------ substitution
    def subst_eq(self, t, k):
        """rewrite leaves/guards of t under  form == c"""
        form, c = self.form_of[k[1]], k[2]
        cand = None
        if form.den:
            return t
        for m, co in sorted(form.num.items()):
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if all(m2 == m or a not in {y for x, _ in m2 for y in self.atom_free[x]} for m2 in form.num):
                    # prefer plain entry values over compound atoms
                    rank = (len(self.atom_free[a]), -a)
                    if cand is None or rank > cand[0]:
                        cand = (rank, a, co, m)
        if cand is None or cand[1] not in t.free:
            return t
        _, a, co, m = cand
        rest = padd({(): c}, {mm: cc for mm, cc in form.num.items() if mm != m}, Fraction(-1))
        val = Rat({mm: cc / co for mm, cc in rest.items()}, {})
        return self.subst_atom(t, a, self.leaf(val))

    def subst_atom(self, t, a, vt):
        """replace atom a (top-level occurrences) by the leaf tree vt"""
        if a not in t.free:
            return t
        if t.leaf is not None:
            l = t.leaf
            if isinstance(l, Rat):
                if a not in self.rat_atoms(l):
                    return t
                if l.key == self.rat_atom(a).key:
                    return vt
                if isinstance(vt.leaf, Rat):
                    try:
                        return self.leaf(self.rat_subst(l, a, vt.leaf))
                    except ZeroDivisionError:
                        return t
                return t
            if l[0] == "t":
                return self.leaf(("t", tuple(self.subst_atom(x, a, vt) for x in l[1])))
            return t
        x, y = self.subst_atom(t.t, a, vt), self.subst_atom(t.f, a, vt)
        k = self.guard_key[t.guard]
        if k[0] in ("lt", "eq") and isinstance(vt.leaf, Rat):
            fm = self.form_of[k[1]]
            if a in self.rat_atoms(fm):
                try:
                    nf = self.rat_subst(fm, a, vt.leaf)
                except ZeroDivisionError:
                    return t
                gt = self.cmp_rat(k[0], self.radd(nf, self.rconst(-k[2])))
                return self.ite(gt, x, y)
        if x is t.t and y is t.f:
            return t
        return self.ite(self.gtree(t.guard), x, y)

    def rat_subst(self, r, a, v):
        out = self.rconst(0)
        for m, c in r.num.items():
            e = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] != a)
            term = Rat({rest: c}, {})
            for _ in range(e):
                term = self.rmul(term, v)
            out = self.radd(out, term)
        for pk, e in r.den.items():
            p = Rat(self.poly_of[pk], {})
            if any(x == a for m in p.num for x, _ in m):
                p = self.rat_subst(p, a, v)
            for _ in range(e):
                out = self.rdiv(out, p)
        return out

    # ------------------------------------------------------------ rationals
    def rconst(self, c):
        c = Fraction(c)
        return Rat({(): c} if c else {}, {})

    def rat_atom(self, a):
        return Rat({((a, 1),): Fraction(1)}, {})

    def is_const(self, r):
        return not r.den and all(m == () for m in r.num)

    def const_of(self, r):
        return r.num.get((), Fraction(0))

    def den_factor(self, p):
        """intern a monic polynomial as denominator factor"""
        key = tuple(sorted(p.items()))
        i = self.polys.get(key)
        if i is None:
            i = len(self.poly_of)
            self.polys[key] = i
            self.poly_of.append(dict(p))
        return i

    def mkrat(self, num, den):
        if not num:
            return Rat({}, {})
        den = dict(den)
        changed = True
        while changed:
            changed = False
            for pk in list(den):
                q = pdivexact(num, self.poly_of[pk])
                if q is not None:
                    num = q
                    den[pk] -= 1
                    if den[pk] == 0:
                        del den[pk]
                    changed = True
        return Rat({m: Fraction(c) for m, c in num.items()}, den)

    def radd(self, a, b, k=1):
        k = Fraction(k)
        if a.den == b.den:
            if not a.den:
                return Rat(padd(a.num, b.num, k), {})
            return self.mkrat(padd(a.num, b.num, k), a.den)
        den = dict(a.den)
        for pk, e in b.den.items():
            den[pk] = max(den.get(pk, 0), e)

        def lift(x):
            n = x.num
            for pk, e in den.items():
                for _ in range(e - x.den.get(pk, 0)):
                    n = pmul(n, self.poly_of[pk])
            return n
        return self.mkrat(padd(lift(a), lift(b), k), den)

    def rmul(self, a, b):
        den = dict(a.den)
        for pk, e in b.den.items():
            den[pk] = den.get(pk, 0) + e
        n = pmul(a.num, b.num)
        return self.mkrat(n, den) if den else Rat(n, {})

    def rinv(self, b):
        if not b.num:
            raise ZeroDivisionError
        num = {(): Fraction(1)}
        for pk, e in b.den.items():
            for _ in range(e):
                num = pmul(num, self.poly_of[pk])
        # monomial content of b.num becomes single-atom factors
        content = None
        for m in b.num:
            d = dict(m)
            content = d if content is None else {x: min(e, d[x]) for x, e in content.items() if x in d}
        rest = {mdiv(m, tuple(sorted(content.items()))): c for m, c in b.num.items()}
        lc = rest[lead(rest)]
        rest = {m: c / lc for m, c in rest.items()}
        den = {}
        for x, e in content.items():
            den[self.den_factor({((x, 1),): Fraction(1)})] = e
        if rest != {(): 1}:
            pk = self.den_factor(rest)
            den[pk] = den.get(pk, 0) + 1
        return self.mkrat({m: c / lc for m, c in num.items()}, den)

    def rdiv(self, a, b):
        return self.rmul(a, self.rinv(b))

    # ------------------------------------------------------------ comparisons
    def den_sign(self, den):
        """+1 if the denominator is known positive, else None"""
        for pk in den:
            if den[pk] % 2 == 0:
                continue
            p = self.poly_of[pk]
            if len(p) == 1:
                (m, c), = p.items()
                if c > 0 and all(self.is_pos(x) for x, _ in m):
                    continue
            if all(c > 0 for c in p.values()) and all(self.atom_nn[x] for m in p for x, _ in m) and () in p:
                continue
            return None
        return 1

    def is_pos(self, a):
        k = self.atom_key[a]
        return k[0] == "src" and (k[1] in self.pos_labels)

    def rsign(self, r):
        """sign facts from declared nonneg atoms: 'pos','nn','neg','np',None"""
        if r.den and self.den_sign(r.den) is None:
            return None
        if not r.num:
            return "zero"
        def msign(m):
            if all(self.is_pos(x) for x, _ in m):
                return "pos"
            if all(self.atom_nn[x] or e % 2 == 0 for x, e in m):
                return "nn"
            return None
        ss = []
        for m, c in r.num.items():
            s = msign(m)
            if s is None:
                return None
            ss.append((s, c > 0))
        if all(p for _, p in ss):
            return "pos" if any(s == "pos" for s, _ in ss) else "nn"
        if all(not p for _, p in ss):
            return "neg" if any(s == "pos" for s, _ in ss) else "np"
        return None

    def cmp_rat(self, op, r):
        """boolean tree of  r < 0  /  r == 0"""
        if self.is_const(r):
            c = self.const_of(r)
            return self.leaf(("c", bool(c < 0 if op == "lt" else c == 0)))
        if r.den and self.den_sign(r.den) == 1:
            r = Rat(r.num, {})
        elif r.den and op == "eq":
            r = Rat(r.num, {})
        if self.pos_labels:
            pos = {x: e for x, e in min(r.num, key=len) if self.is_pos(x)}
            for x, e in pos.items():
                e = min(dict(m).get(x, 0) for m in r.num)
                if e > 0:          # a positive common factor does not change the sign
                    r = Rat({tuple((y, k - e if y == x else k) for y, k in m if y != x or k > e): c for m, c in r.num.items()}, r.den)
            if self.is_const(r):
                return self.cmp_rat(op, r)
        s = self.rsign(r)
        if s in ("pos", "nn") and op == "lt":
            return self.leaf(FALSE)
        if s == "neg" and op == "lt":
            return self.leaf(TRUE)
        if s in ("pos", "neg") and op == "eq":
            return self.leaf(FALSE)
        lm = max((m for m in r.num if m != ()), key=morder, default=())
        co = r.num[lm]
        scale = abs(co)
        neg = co < 0
        if r.den:
            c = Fraction(0)
            num = {m: v / co for m, v in r.num.items()}
        else:
            c = -r.num.get((), Fraction(0)) / co
            num = {m: v / co for m, v in r.num.items() if m != ()}
        form = Rat(num, r.den)
        fi = self.forms.get(form.key)
        if fi is None:
            fi = len(self.form_of)
            self.forms[form.key] = fi
            self.form_of.append(form)
        fr, wk = self._leaf_free(form)
        # r<0  <=>  neg: L > c ; else L < c
        if op == "eq":
            return self.gtree(self.guard(("eq", fi, c), fr, wk))
        if not neg:
            return self.gtree(self.guard(("lt", fi, c), fr, wk))
        lt = self.gtree(self.guard(("lt", fi, c), fr, wk))
        eq = self.gtree(self.guard(("eq", fi, c), fr, wk))
        return self.ite(lt, self.leaf(FALSE), self.ite(eq, self.leaf(FALSE), self.leaf(TRUE)))

    def gtree(self, g):
        return self.node(g, self.leaf(TRUE), self.leaf(FALSE))

    # ------------------------------------------------------------ ite / apply
    def ite(self, b, t, f):
        if b.leaf is not None:
            return t if self.leaf_truth(b.leaf) else f
        if t is f:
            return t
        k = (b.id, t.id, f.id)
        r = self.ite_memo.get(k)
        if r is not None:
            return r
        g = min((x.guard for x in (b, t, f) if x.leaf is None), key=self.gorder)
        hi = self.ite(self.cof(b, g, True), self.cof(t, g, True), self.cof(f, g, True))
        lo = self.ite(self.cof(b, g, False), self.cof(t, g, False), self.cof(f, g, False))
        r = self.mk(g, hi, lo)
        self.ite_memo[k] = r
        return r

    def leaf_truth(self, l):
        if isinstance(l, Rat):
            if self.is_const(l):
                return bool(self.const_of(l))
            raise ValueError("non-boolean leaf used as a condition")
        if l[0] == "c":
            return bool(l[1])
        if l[0] == "t":
            return bool(l[1])
        raise ValueError(l)

    def apply(self, fn, *ts):
        """distribute a leaf function over decision trees"""
        size = 1
        for t in ts:
            size *= t.size
        if size > self.big:
            ts = tuple(self.fold(t) if t.size > 4 else t for t in ts)
        memo = {}

        def rec(ts):
            if all(t.leaf is not None for t in ts):
                return fn(*[t.leaf for t in ts])
            k = tuple(t.id for t in ts)
            if k in memo:
                return memo[k]
            g = min((t.guard for t in ts if t.leaf is None), key=self.gorder)
            hi = rec(tuple(self.cof(t, g, True) for t in ts))
            lo = rec(tuple(self.cof(t, g, False) for t in ts))
            # leaf functions may introduce new guards: recombine with ite
            r = self.ite(self.gtree(g), hi, lo)
            memo[k] = r
            return r
        return rec(ts)

    def relabel(self, fn, t):
        """replace every leaf of a decision tree by the leaf tree fn(leaf); never folds"""
        memo = {}

        def rec(t):
            r = memo.get(t.id)
            if r is None:
                r = memo[t.id] = fn(t.leaf) if t.leaf is not None else self.mk(t.guard, rec(t.t), rec(t.f))
            return r
        return rec(t)

    def fold(self, t):
        """treat a whole decision tree as one atom"""
        if t.leaf is not None:
            return t
        a = self.atom(("tree", t.id), t.free, t.weak)
        self.folded[a] = t
        return self.leaf(self.rat_atom(a))

    # ------------------------------------------------------------ leaves
    def as_rat(self, l):
        if isinstance(l, Rat):
            return l
        if l[0] == "c":
            if isinstance(l[1], bool):
                return self.rconst(int(l[1]))
            a = self.atom(("constval", type(l[1]).__name__, l[1]))
            return self.rat_atom(a)
        a = self.atom(("leafval", l), self._leaf_free(l)[0], self._leaf_free(l)[1])
        return self.rat_atom(a)

    def single_atom(self, l):
        if isinstance(l, Rat) and not l.den and len(l.num) == 1:
            (m, c), = l.num.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def key_of(self, t):
        return t.id

    def call_atom(self, name, trees, weak=False, isint=False, nonneg=False):
        """uninterpreted function over leaf arguments"""
        def fn(*ls):
            return self.leaf(self.rat_atom(self._mkatom(name, ls, weak, isint, nonneg)))
        return self.apply(fn, *trees) if trees else self.leaf(self.rat_atom(self.atom((name,), (), weak, isint, nonneg)))

    def _mkatom(self, name, ls, weak=False, isint=False, nonneg=False):
        fr, wk = set(), int(weak)
        key = []
        for l in ls:
            f, w = self._leaf_free(l)
            fr |= f
            wk = max(wk, w)
            key.append(l.key if isinstance(l, Rat) else self._leafkey(l))
        return self.atom((name,) + tuple(key), fr, wk, isint, nonneg)

    def _leafkey(self, l):
        if l[0] == "t":
            return ("t",) + tuple(t.id for t in l[1])
        return (l[0], type(l[1]).__name__, l[1])

    # ------------------------------------------------------------ booleans
    def as_bool(self, t):
        """truth value of a value tree, as a boolean tree"""
        def fn(l):
            if isinstance(l, Rat):
                if self.is_const(l):
                    return self.leaf(("c", bool(self.const_of(l))))
                a = self.single_atom(l)
                if a is not None:
                    fr = self.atom_free[a]
                    return self.gtree(self.guard(("b", a, 5, ("truth",)), fr, self.atom_weak[a]))
                return self.ite(self.cmp_rat("eq", l), self.leaf(FALSE), self.leaf(TRUE))
            return self.leaf(("c", self.leaf_truth(l)))
        if t.leaf is not None:
            return fn(t.leaf)
        return self.apply(fn, t)

    def notb(self, t):
        return self.ite(t, self.leaf(FALSE), self.leaf(TRUE))

    # ------------------------------------------------------------ main
    def nf(self, n: Node) -> Tree:
        key = n
        if self.open_mu:
            r = self.reach(n)
            if r and not r.isdisjoint(self.open_mu):
                key = (n, tuple(sorted((m.id, a if isinstance(a, int) else -a.id - 1) for m, a in self.open_mu.items() if m in r)))
        t = self.memo.get(key)
        if t is None:
            t = self._nf(n)
            self.memo[key] = t
        return t

    def reach(self, n):
        r = self.reach_memo.get(n)
        if r is None:
            out, stack, seen, seen_loops = set(), [n], set(), set()
            while stack:
                x = stack.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "mu":
                    out.add(x)
                    d = self.g.mu_def.get(x)
                    if d:
                        stack += [y for y in d if y is not None]
                lid = x.attr[1] if x.op == "opaque" and isinstance(x.attr, tuple) and len(x.attr) > 1 else x.attr[0] if x.op == "mu" else None
                if lid is not None and lid not in seen_loops:
                    seen_loops.add(lid)
                    info = self.g.loops.get(lid)
                    if info:
                        stack += list(info["breaks"]) + list(info["rets"]) + [y for y in (info.get("test"), info.get("iter")) if y is not None]
                if x.op == "obj":
                    stack += self.parts(x)
                stack += list(x.args)
            r = frozenset(out)
            self.reach_memo[n] = r
        return r

    def num(self, v):
        if isinstance(v, float):
            if v != v or abs(v) == float("inf"):
                return None
            return Fraction(str(v))
        return Fraction(v)

    def _nf(self, n):
        op = n.op
        m = getattr(self, "nf_" + op, None)
        if m is not None:
            return m(n)
        # generic uninterpreted node
        weak = 2 if op in ("opaque", "join", "listof", "star", "mu") else 0
        if op in ("append", "extend", "repeat", "dictlit", "dictcomp") or (op == "call" and n.attr in (".update", ".pop", ".sort", ".insert")):
            return self.build_atom(op, n.attr, [self.nf(a) for a in n.args])
        t = self.call_atom((op, n.attr if not isinstance(n.attr, (list, dict)) else repr(n.attr)),
                           [self.nf(a) for a in n.args], weak=weak)
        return self.as_bool(t) if op == "attr" and n.attr in self.bools[1] else t

    def nf_const(self, n):
        v = n.attr
        if isinstance(v, bool) or v is None or isinstance(v, str) or v is Ellipsis:
            return self.leaf(("c", v))
        if isinstance(v, (int, float)):
            q = self.num(v)
            if q is None:
                return self.leaf(self.rat_atom(self.atom(("inf", repr(v)))))
            return self.leaf(self.rconst(q))
        return self.leaf(("c", repr(v)))

    def nf_src(self, n):
        lab = n.attr
        weak = 2 if isinstance(lab, str) and lab.startswith("?") else 0
        a = self.atom(("src", lab), (), weak, isint=lab in self.int_labels, nonneg=lab in self.nonneg_labels)
        if isinstance(lab, str) and "." in lab and lab.rsplit(".", 1)[1] in self.bools[1]:
            return self.gtree(self.guard(("b", a, 5, ("truth",)), self.atom_free[a], self.atom_weak[a]))
        return self.leaf(self.rat_atom(a))

    def build_atom(self, op, attr, trees, pre=None):
        """a container built up by an update; two different chains of updates are not proof of a difference"""
        def fn(*ls):
            if pre is not None:
                ls = pre(ls)
            a = self._mkatom((op, attr), ls)
            self.prim.setdefault(a, 1)
            self.loop_skel.setdefault(a, ("build", op, repr(attr), len(ls)))
            self.atom_weak[a] = max(1, self.atom_weak[a])
            return self.leaf(self.rat_atom(a))
        return self.apply(fn, *trees) if trees else fn()

    def nf_store(self, n):
        c, ix, v = n.args
        if ix.op == "const" and not isinstance(ix.attr, bool):
            # stores at different constant keys commute: smallest key outermost
            if c.op == "store" and c.args[1].op == "const" and c.attr == n.attr and (n.attr == "dict" or not (isinstance(ix.attr, int) and (ix.attr < 0 or c.args[1].attr < 0))):
                k0 = c.args[1]
                if k0 is ix:
                    return self.nf(self.g.mk("store", (c.args[0], ix, v), n.attr))
                if repr(k0.attr) < repr(ix.attr):
                    return self.nf(self.g.mk("store", (self.g.mk("store", (c.args[0], ix, v), n.attr), k0, c.args[2]), n.attr))
        if c.op == "store" and c.args[1] is ix:
            return self.nf(self.g.mk("store", (c.args[0], ix, v), n.attr))
        if c.op == "dictlit" and ix.op == "const":
            d = dict(zip(c.attr, c.args)); d[ix.attr] = v
            ks = sorted(d, key=lambda k: repr(("k", k)))
            return self.nf(self.g.mk("dictlit", tuple(d[k] for k in ks), tuple(ks)))
        if v.op == "phi":
            # store(c, i, phi(b, x, c[i])) is phi(b, store(c, i, x), c)
            for x, y, neg in ((v.args[1], v.args[2], False), (v.args[2], v.args[1], True)):
                if y.op == "idx" and y.args[0] is c and y.args[1] is ix:
                    b = self.as_bool(self.nf(v.args[0]))
                    st = self.nf(self.g.mk("store", (c, ix, x), n.attr))
                    return self.ite(b, self.nf(c), st) if neg else self.ite(b, st, self.nf(c))
        return self.build_atom("store", "", [self.nf(c), self.nf(ix), self.nf(v)], self.overwrite)

    def overwrite(self, ls):
        """an item stored over itself: the earlier value is gone"""
        c, ix, v = ls
        a = self.single_atom(c) if isinstance(c, Rat) else None
        if a is not None and self.atom_key[a][0] == ("store", ""):
            k = self.atom_key[a]
            base = self._rat_of_key(k[1])
            if base is not None and k[2] == (ix.key if isinstance(ix, Rat) else self._leafkey(ix)):
                return self.overwrite((base, ix, v))
        return c, ix, v

    def nf_append(self, n):
        c, v = n.args
        if n.attr == "set":
            # adding a member again changes nothing
            there = self.as_bool(self.nf(self.g.mk("in", (v, c))))
            return self.ite(there, self.nf(c), self.build_atom("append", "set", [self.nf(c), self.nf(v)]))
        return self.build_atom("append", n.attr, [self.nf(c), self.nf(v)])

    def spread(self, t, limit=4):
        """decisions inside a short tuple, taken outside it"""
        if t.leaf is None or not isinstance(t.leaf, tuple) or t.leaf[0] != "t":
            return t
        ts = t.leaf[1]
        n = 1
        for x in ts:
            n *= x.size
        if n == 1 or n > limit:
            return t
        return self.apply(lambda *ls: self.leaf(("t", tuple(self.leaf(l) for l in ls))), *ts)

    def nf_obj(self, n):
        o = self.ip.obj(n)
        if not o.symbolic and o.oid in self.end_state:
            t = self.struct(o, n)
            if t is not None:
                return t
        if o.symbolic:
            lab = o.path
        elif o.kind == "inst":
            lab = f"fresh:{o.cls.name}"
        else:
            lab = f"{o.kind}#{o.oid}"
        a = self.atom(("src", lab), (), weak=0 if o.symbolic else 2)
        return self.leaf(self.rat_atom(a))

    def parts(self, n):
        """values that make up an object made by the analysed operation"""
        o = self.ip.obj(n)
        st = self.end_state.get(o.oid) if not o.symbolic else None
        if st is None:
            return []
        if o.kind == "list":
            return [self.ip.content(st, n)]
        if o.kind == "dict":
            return [self.ip.dict_content(st, o)]
        if o.kind == "inst":
            h = dict(o.init); h.update(st.heap.get(o.oid) or {})
            return [self.ip.refine(st, v) for k, v in h.items() if isinstance(k, str)]
        return []

    def struct(self, o, n):
        """value of an object made by the analysed operation, at the end of the operation"""
        if o.oid in self.busy_objs:
            return None
        st = self.end_state[o.oid]
        self.busy_objs.add(o.oid)
        try:
            if o.kind == "list":
                c = self.ip.content(st, n)
                return self.nf(c) if c is not n else None
            if o.kind == "dict":
                return self.nf(self.ip.dict_content(st, o))
            if o.kind == "inst":
                h = dict(o.init); h.update(st.heap.get(o.oid) or {})
                fs = sorted((k for k in h if isinstance(k, str)))
                ts = [self.nf(self.ip.refine(st, h[k])) for k in fs]
                fr, wk = set(), 0
                for t in ts:
                    fr |= t.free; wk = max(wk, t.weak)
                return self.leaf(self.rat_atom(self.atom(("struct", o.cls.name, tuple(fs), tuple(t.id for t in ts)), fr, wk)))
        finally:
            self.busy_objs.discard(o.oid)
        return None

    def nf_tuple(self, n):
        return self.leaf(("t", tuple(self.nf(a) for a in n.args)))

    def arith(self, op, a, b):
        def fn(x, y):
            if op == "+" and not (isinstance(x, Rat) and isinstance(y, Rat)) and any(
                    isinstance(z, tuple) and z[0] == "c" and isinstance(z[1], str) for z in (x, y)):
                return self.leaf(self.rat_atom(self._mkatom("concat", (x, y))))
            rx, ry = self.as_rat(x), self.as_rat(y)
            if op == "+":
                return self.leaf(self.radd(rx, ry))
            if op == "-":
                return self.leaf(self.radd(rx, ry, -1))
            if op == "*":
                return self.leaf(self.rmul(rx, ry))
            if op == "/":
                if not ry.num:
                    return self.leaf(self.rat_atom(self._mkatom("div0", (rx,))))
                return self.leaf(self.rdiv(rx, ry))
            if op == "//":
                if not ry.num:
                    return self.leaf(self.rat_atom(self._mkatom("div0", (rx,))))
                return self.leaf(self.floor(self.rdiv(rx, ry)))
            if op == "%":
                if not ry.num:
                    return self.leaf(self.rat_atom(self._mkatom("div0", (rx,))))
                q = self.floor(self.rdiv(rx, ry))
                return self.leaf(self.radd(rx, self.rmul(ry, q), -1))
            if op == "**":
                if self.is_const(ry) and self.const_of(ry).denominator == 1 and 0 <= self.const_of(ry) <= 4:
                    r = self.rconst(1)
                    for _ in range(int(self.const_of(ry))):
                        r = self.rmul(r, rx)
                    return self.leaf(r)
                return self.leaf(self.rat_atom(self._mkatom("pow", (rx, ry))))
            return self.leaf(self.rat_atom(self._mkatom(op, (rx, ry))))
        return self.apply(fn, a, b)

    def is_int_rat(self, r):
        return not r.den and all(c.denominator == 1 and all(self.atom_int[x] for x, _ in m) for m, c in r.num.items())

    def floor(self, r):
        """canonical floor of a rational function; integer-valued terms are pulled out,
        nested floors by a positive integer divisor are merged"""
        if self.is_const(r):
            return self.rconst(math.floor(self.const_of(r)))
        intpart, rest = {}, {}
        if not r.den:
            for m, c in r.num.items():
                if m == ():
                    f = math.floor(c)
                    if f:
                        intpart[()] = Fraction(f)
                    if c - f:
                        rest[()] = c - f
                elif c.denominator == 1 and all(self.atom_int[x] for x, _ in m):
                    intpart[m] = c
                else:
                    rest[m] = c
        else:
            rest = None
        if rest is not None:
            if not rest:
                return Rat(intpart, {})
            c0 = rest.get(())
            if c0 is not None and all(self.atom_int[x] for m in rest for x, _ in m):
                # (integer)/D + c0: only the multiples of 1/D below c0 matter
                D = math.lcm(*(c.denominator for m, c in rest.items() if m != ())) if len(rest) > 1 else 1
                c1 = Fraction(math.floor(c0 * D), D)
                if c1:
                    rest[()] = c1
                else:
                    del rest[()]
                if not rest:
                    return Rat(intpart, {})
            # floor(floor(x)/k) == floor(x/k); handles a single floor atom with coefficient 1/k
            if len(rest) == 1:
                (m, c), = rest.items()
                if len(m) == 1 and m[0][1] == 1 and c.numerator == 1 and c > 0:
                    k = self.atom_key[m[0][0]]
                    if k[0] == "floor":
                        inner = self.floor_arg[m[0][0]]
                        q = self.floor(self.rmul(inner, self.rconst(c)))
                        return self.radd(q, Rat(intpart, {}))
            body = Rat(rest, {})
        else:
            body, intpart = r, {}
        nn = self.rsign(body) in ("pos", "nn", "zero")
        a = self._mkatom("floor", (body,), isint=True, nonneg=nn)
        self.floor_arg[a] = body
        return self.radd(self.rat_atom(a), Rat(intpart, {}))

    def nf_bin(self, n):
        a, b = self.nf(n.args[0]), self.nf(n.args[1])
        return self.arith(n.attr, a, b)

    def nf_un(self, n):
        if n.attr == "-":
            return self.apply(lambda l: self.leaf(self.radd(self.rconst(0), self.as_rat(l), -1)), self.nf(n.args[0]))
        return self.call_atom(("un", n.attr), [self.nf(n.args[0])])

    def nf_min(self, n):
        return self.minmax("min", [self.nf(a) for a in n.args])

    def nf_max(self, n):
        return self.minmax("max", [self.nf(a) for a in n.args])

    def minmax(self, op, ts):
        r = ts[0]
        for t in ts[1:]:
            def fn(x, y):
                rx, ry = self.as_rat(x), self.as_rat(y)
                c = self.cmp_rat("lt", self.radd(rx, ry, -1))     # x < y
                lx, ly = self.leaf(rx), self.leaf(ry)
                return self.ite(c, lx, ly) if op == "min" else self.ite(c, ly, lx)
            r = self.apply(fn, r, t)
        return r

    def nf_cmp(self, n):
        return self.compare(n.attr, self.nf(n.args[0]), self.nf(n.args[1]))

    def compare(self, op, a, b):
        def fn(x, y):
            if op == "==":
                cx, cy = (not isinstance(x, Rat)), (not isinstance(y, Rat))
                if cx and cy:
                    if x[0] == "c" and y[0] == "c":
                        return self.leaf(("c", x[1] == y[1]))
                    if x[0] == "t" and y[0] == "t":
                        if len(x[1]) != len(y[1]):
                            return self.leaf(FALSE)
                        r = self.leaf(TRUE)
                        for p, q in zip(x[1], y[1]):
                            r = self.ite(r, self.compare("==", p, q), self.leaf(FALSE))
                        return r
                if cx or cy:
                    c, v = (x, y) if cx else (y, x)
                    if c[0] == "c" and not isinstance(c[1], bool):
                        if c[1] is None:
                            return self.isnone_leaf(v)
                        a_ = self.single_atom(v)
                        if a_ is not None:
                            return self.gtree(self.guard(("b", a_, 2, ("eqc", c[1])), self.atom_free[a_], self.atom_weak[a_]))
                        return self.leaf(FALSE)
            rx, ry = self.as_rat(x), self.as_rat(y)
            return self.cmp_rat("lt" if op == "<" else "eq", self.radd(rx, ry, -1))
        return self.apply(fn, a, b)

    def isnone_leaf(self, l):
        if isinstance(l, Rat):
            a = self.single_atom(l)
            if a is None:
                return self.leaf(FALSE)
            k = self.atom_key[a]
            if k[0] in ("floor", "sum", "pow", "tree") and k[0] != "tree":
                return self.leaf(FALSE)
            return self.gtree(self.guard(("b", a, 0, ("isnone",)), self.atom_free[a], self.atom_weak[a]))
        return self.leaf(("c", l[0] == "c" and l[1] is None))

    def nf_isnone(self, n):
        x = n.args[0]
        if x.op == "phi":
            a, b = (self.nf(self.g.mk("isnone", (y,))) for y in x.args[1:])
            return self.ite(self.as_bool(self.nf(x.args[0])), a, b)
        if x.op == "idx" and x.args[0].op == "dictlit" and x.args[0].args and all(v.op == "const" and v.attr is not None for v in x.args[0].args):
            return self.leaf(FALSE)
        return self.apply(self.isnone_leaf, self.nf(n.args[0]))

    def nf_not(self, n):
        return self.notb(self.as_bool(self.nf(n.args[0])))

    def nf_and(self, n):
        r = self.leaf(TRUE)
        for a in n.args:
            r = self.ite(r, self.as_bool(self.nf(a)), self.leaf(FALSE))
        return r

    def nf_or(self, n):
        r = self.leaf(FALSE)
        for a in n.args:
            r = self.ite(r, self.leaf(TRUE), self.as_bool(self.nf(a)))
        return r

    def nf_phi(self, n):
        c = self.as_bool(self.nf(n.args[0]))
        if c.leaf is not None:
            return self.nf(n.args[1] if self.leaf_truth(c.leaf) else n.args[2])
        a, b = self.nf(n.args[1]), self.nf(n.args[2])
        if c.size * (a.size + b.size) > self.big * 20:
            a, b = (self.fold(x) if x.size > 8 else x for x in (a, b))
        return self.ite(c, a, b)

    def nf_isinst(self, n):
        def fn(l):
            if isinstance(l, Rat):
                a = self.single_atom(l)
                if a is not None:
                    return self.gtree(self.guard(("b", a, 6, ("isinst", n.attr)), self.atom_free[a], self.atom_weak[a]))
            a = self._mkatom(("isinst", n.attr), (l,))
            return self.gtree(self.guard(("b", a, 5, ("truth",)), self.atom_free[a], self.atom_weak[a]))
        return self.apply(fn, self.nf(n.args[0]))

    def nf_in(self, n):
        k, c = n.args
        while c.op == "call" and c.attr in ("set", "frozenset", "list", "tuple") and len(c.args) == 1:
            c = c.args[0]              # membership does not depend on the kind of collection
            n = self.g.mk("in", (k, c))
        if c.op == "store" and c.attr == "dict":
            return self.nf(self.g.or_([self.g.cmp("==", k, c.args[1]), self.g.mk("in", (k, c.args[0]))]))
        if c.op == "dictlit" and len(c.args) <= 40:
            if k.op == "const":
                return self.leaf(TRUE if k.attr in c.attr else FALSE)
            if not c.attr:
                return self.leaf(FALSE)
            return self.nf(self.g.or_([self.g.cmp("==", k, self.g.const(x)) for x in c.attr]))
        return self.as_bool(self.call_atom("in", [self.nf(a) for a in n.args]))

    def nf_hasattr(self, n):
        return self.as_bool(self.call_atom(("hasattr", n.attr), [self.nf(a) for a in n.args]))

    # -- iteration ---------------------------------------------------------------
    def domain(self, it):
        """canonical tree of an iterable and its kind"""
        while True:
            if it.op == "call" and it.attr in ("list", ".copy", "tuple", "enumerate") and len(it.args) >= 1:
                it = it.args[0]; continue
            if it.op == "call" and it.attr in ("numpy.array", "numpy.asarray") and len(it.args) == 1:
                it = it.args[0]; continue
            if it.op == "phi":
                x, y = self.domain(it.args[1]), self.domain(it.args[2])
                if x is not it.args[1] or y is not it.args[2]:
                    it = self.g.phi(it.args[0], x, y); continue
            if it.op == "call" and it.attr == "range":
                if len(it.args) == 1 and it.args[0].op == "call" and it.args[0].attr == "len":
                    it = it.args[0].args[0]; continue
                if len(it.args) == 2 and it.args[0].op == "const" and it.args[0].attr == 0:
                    it = self.g.mk("call", (it.args[1],), "range"); continue
                if len(it.args) == 3 and it.args[2].op == "const" and it.args[2].attr == 1:
                    it = self.g.mk("call", it.args[:2], "range"); continue
                if len(it.args) == 2:
                    it = self.g.mk("call", (self.g.bin("-", it.args[1], it.args[0]),), "range"); continue
                if len(it.args) == 3 and all(x.op == "const" and isinstance(x.attr, int) for x in it.args) and it.args[2].attr:
                    it = self.g.mk("call", (self.g.const(len(range(*(x.attr for x in it.args)))),), "range"); continue
            if it.op == "call" and it.attr in (".items", ".values", ".keys"):
                it = it.args[0]; continue
            return it

    def nf_elem(self, n):
        it = n.args[0]
        depth = n.attr or 0
        d = self.domain(it)
        if d.op == "phi":
            a, b = (self.nf(self.g.mk("elem", (x,), n.attr)) for x in d.args[1:])
            return self.ite(self.as_bool(self.nf(d.args[0])), a, b)
        if d.op == "comp" and d.attr == 1 and len(d.args) == 2 and depth == 0:
            return self.nf(d.args[0])
        if d.op == "call" and d.attr == "range" and len(d.args) == 3:
            return self.apply(lambda l: self.leaf(self.rat_atom(self._mkatom(("elem", depth), (l,), isint=True))), self.nf(d))
        if d.op == "call" and d.attr == "range" or it.op == "call" and it.attr == "range":
            k = self.index_atom(d, depth)
            while it.op == "call" and it.attr in ("list", "tuple", ".copy", "enumerate"):
                it = it.args[0]
            if it.op == "call" and it.attr == "range" and len(it.args) >= 2 and not (len(it.args) == 2 and it.args[0].op == "const" and it.args[0].attr == 0) and d is not it:
                if len(it.args) == 3:
                    k = self.arith("*", self.nf(it.args[2]), k)
                k = self.arith("+", self.nf(it.args[0]), k)       # range(a, b) counts from a
            return k
        return self.apply(lambda l: self.leaf(self.rat_atom(self._mkatom(("elem", depth), (l,)))), self.nf(d))

    def index_atom(self, d, depth=0):
        return self.apply(lambda l: self.leaf(self.rat_atom(self._mkatom(("index", depth), (l,), isint=True, nonneg=True))), self.nf(d))

    def nf_index(self, n):
        return self.index_atom(self.domain(n.args[0]), n.attr or 0)

    def nf_idx(self, n):
        b, i = n.args
        if b.op == "phi":
            return self.ite(self.as_bool(self.nf(b.args[0])), self.nf(self.g.mk("idx", (b.args[1], i))), self.nf(self.g.mk("idx", (b.args[2], i))))
        if b.op == "store" and not (b.args[1].op == "call" and b.args[1].attr == "slice"):
            j = b.args[1]
            if j is i:
                return self.nf(b.args[2])
            rest = self.g.mk("idx", (b.args[0], i))
            if i.op == "const" and j.op == "const" and (b.attr == "dict" or (i.attr >= 0 and j.attr >= 0)):
                return self.nf(rest)
            return self.nf(self.g.phi(self.g.cmp("==", i, j), b.args[2], rest))
        if b.op == "dictlit" and i.op == "const" and i.attr in b.attr:
            return self.nf(b.args[b.attr.index(i.attr)])
        if b.op == "repeat" and b.args[0].op == "tuple" and len(b.args[0].args) == 1:
            return self.nf(b.args[0].args[0])
        bt, itr = self.nf(b), self.nf(i)

        def fn(x, y):
            if isinstance(x, tuple) and x[0] == "t" and isinstance(y, Rat):
                if self.is_const(y) and self.const_of(y).denominator == 1 and -len(x[1]) <= self.const_of(y) < len(x[1]):
                    return x[1][int(self.const_of(y))]
                # uniform table indexed by an unknown
                if len(x[1]) and all(t is x[1][0] for t in x[1]):
                    return x[1][0]
            if isinstance(y, Rat):
                a = self.single_atom(y)
                if a is not None and isinstance(self.atom_key[a][0], tuple) and self.atom_key[a][0][0] == "index":
                    xk = x.key if isinstance(x, Rat) else self._leafkey(x)
                    if self.atom_key[a][1] == xk:
                        return self.leaf(self.rat_atom(self._mkatom(("elem", self.atom_key[a][0][1]), (x,))))
            return self.leaf(self.rat_atom(self._mkatom("idx", (x, y))))
        return self.apply(fn, bt, itr)

    def nf_call(self, n):
        name = n.attr
        if name in ("int", "math.floor", "math.trunc") and len(n.args) == 1:
            def fl(l):
                r = self.as_rat(l)
                if name == "math.floor" or self.is_int_rat(r) or self.rsign(r) in ("pos", "nn", "zero"):
                    return self.leaf(self.floor(r))
                return self.leaf(self.rat_atom(self._mkatom("trunc", (r,), isint=True)))
            return self.apply(fl, self.nf(n.args[0]))
        if name in ("abs", "math.fabs", "numpy.abs") and len(n.args) == 1:
            def ab(l):
                r = self.as_rat(l)
                neg = self.radd(self.rconst(0), r, -1)
                return self.ite(self.cmp_rat("lt", r), self.leaf(neg), self.leaf(r))
            return self.apply(ab, self.nf(n.args[0]))
        if name == "len":
            d = self.domain(n.args[0])
            x = d
            if x.op == "phi":
                return self.ite(self.as_bool(self.nf(x.args[0])), self.nf(self.g.mk("call", (x.args[1],), "len")), self.nf(self.g.mk("call", (x.args[2],), "len")))
            while x.op == "store" and x.attr == "list" and not (x.args[1].op == "call"):
                x = x.args[0]
            if x.op == "tuple":
                return self.leaf(self.rconst(len(x.args)))
            if x.op == "repeat" and x.args[0].op == "tuple":
                return self.arith("*", self.leaf(self.rconst(len(x.args[0].args))), self.nf(x.args[1]))
            if x.op == "append" and x.attr != "set":
                return self.arith("+", self.nf(self.g.mk("call", (x.args[0],), "len")), self.leaf(self.rconst(1)))
            if x.op == "comp" and x.attr == 1 and len(x.args) == 2:
                return self.nf(self.g.mk("call", (x.args[1],), "len"))
            if x.op == "call" and x.attr == "range" and len(x.args) == 1:
                return self.nf(x.args[0])
            return self.call_atom("len", [self.nf(x)], isint=True, nonneg=True)
        if name in ("list", "tuple", ".copy") and len(n.args) == 1:
            return self.nf(n.args[0])
        if name == ".get" and len(n.args) in (2, 3):
            c, k = n.args[:2]
            return self.nf(self.g.phi(self.g.mk("in", (k, c)), self.g.mk("idx", (c, k)), n.args[2] if len(n.args) == 3 else self.g.const(None)))
        args = n.args
        if name.endswith("!raises"):
            args = [self.unwrap(a) for a in args]     # whether an operation accepts a list does not depend on its being an array
        t = self.call_atom(("call", name), [self.spread(self.nf(a)) for a in args])
        return self.as_bool(t) if name.rsplit(".", 1)[-1] in self.bools[0] or name in PREDICATES else t

    def unwrap(self, n):
        while n.op == "call" and n.attr in ("numpy.array", "numpy.asarray", "list") and len(n.args) == 1:
            n = n.args[0]
        if n.op == "phi":
            a, b = self.unwrap(n.args[1]), self.unwrap(n.args[2])
            if a is not n.args[1] or b is not n.args[2]:
                return self.g.phi(n.args[0], a, b)
        return n

    def nf_comp(self, n):
        k = n.attr
        its = n.args[1:1 + k]
        conds = n.args[1 + k:]
        if k == 1 and not conds and n.args[0].op == "elem" and n.args[0].args[0] is its[0]:
            return self.nf(its[0])
        body = self.nf(n.args[0])
        c = self.leaf(TRUE)
        for x in conds:
            c = self.ite(c, self.as_bool(self.nf(x)), self.leaf(FALSE))
        ds = self.base_domains(its)
        for i, d in enumerate(ds):
            while d.op == "comp" and d.attr == 1 and len(d.args) > 2:      # a selection from a selection
                for x in d.args[2:]:
                    c = self.ite(self.as_bool(self.nf(x)), c, self.leaf(FALSE))
                d = ds[i] = self.base_domains([d.args[1]])[0]
        doms = [self.nf(d) for d in ds]
        fr = set(body.free) | set(c.free)
        fr -= self.bound_atoms(ds, fr)
        wk = max(body.weak, c.weak)
        for d in doms:
            fr |= d.free
            wk = max(wk, d.weak)
        return self.leaf(self.rat_atom(self.atom(("comp", body.id, c.id) + tuple(d.id for d in doms), fr, wk)))

    def split_dom(self, x):
        """iterable value -> (element tree, condition tree, [domain trees], bound atoms)"""
        if x.op == "comp":
            k = x.attr
            its, conds = x.args[1:1 + k], x.args[1 + k:]
            body = self.nf(x.args[0])
            c = self.leaf(TRUE)
            for y in conds:
                c = self.ite(c, self.as_bool(self.nf(y)), self.leaf(FALSE))
            # nested generators whose domain is itself a plain list
            return body, c, self.base_domains(its)
        d = self.domain(x)
        if d.op == "comp":
            return self.split_dom(d)
        return self.nf(self.g.mk("elem", (x,), 0)), self.leaf(TRUE), [d]

    def base_domains(self, its):
        """what iterating over `its` runs over: the elements of a filter-free comprehension are
        functions of the elements of its source, those of zip(...) are taken in step"""
        out = []
        for i in its:
            i = self.domain(i)
            while i.op == "comp" and i.attr == 1 and len(i.args) == 2:
                i = self.domain(i.args[1])
            if i.op == "call" and i.attr == "zip" and i.args:
                parts = []
                for a in i.args:
                    for d in self.base_domains([a]):
                        if d not in parts:
                            parts.append(d)
                i = parts[0] if len(parts) == 1 else self.g.mk("call", tuple(parts), "zip")
            out.append(i)
        return out

    def bound_atoms(self, doms, used=None):
        """element/index atoms bound by a generator over `doms`"""
        out, seen = set(), set()
        todo = list(doms)
        while todo:
            d = todo.pop()
            if d.op == "call" and d.attr == "zip":
                todo += [self.domain(a) for a in d.args]
            elif d.op == "comp":
                todo += [self.domain(a) for a in d.args[1:1 + d.attr]]
            elif d.op == "phi":
                todo += [self.domain(d.args[1]), self.domain(d.args[2])]
            stack = [self.nf(d)]
            if stack[0].leaf is None:
                stack.append(self.fold(stack[0]))
            while stack:
                dt = stack.pop()
                if dt.id in seen:
                    continue
                seen.add(dt.id)
                if dt.leaf is None:
                    stack += [dt.t, dt.f]
                    continue
                lk = dt.leaf.key if isinstance(dt.leaf, Rat) else self._leafkey(dt.leaf)
                at = self.bound_index.get(lk, set())
                if used is not None and at:
                    at = at & used
                if len(at) > 1:              # nested generators over one iterable: this one is the innermost
                    top = max(self.atom_key[a][0][1] for a in at)
                    at = {a for a in at if self.atom_key[a][0][1] == top}
                out |= at
        return out

    def nf_key(self, n):
        return self.apply(lambda l: self.leaf(self.rat_atom(self._mkatom(("key", 0), (l,)))), self.nf(self.domain(n.args[0])))

    def nf_agg(self, n):
        op, x = n.attr, n.args[0]
        extra = n.args[1:]
        if x.op == "phi":
            a = self.g.mk("agg", (x.args[1],) + tuple(extra), op)
            b = self.g.mk("agg", (x.args[2],) + tuple(extra), op)
            return self.ite(self.as_bool(self.nf(x.args[0])), self.nf(a), self.nf(b))
        if x.op == "listof":
            return self.call_atom(("agg", op), [self.nf(x)] + [self.nf(e) for e in extra], weak=2)
        if x.op == "tuple":
            ts = [self.nf(a) for a in x.args]
            if op == "sum":
                r = self.nf(extra[0]) if extra else self.leaf(self.rconst(0))
                for t in ts:
                    r = self.arith("+", r, t)
                return r
            if op in ("max", "min") and ts:
                return self.minmax(op, ts)
        body, cond, doms = self.split_dom(x)
        return self.aggregate(op, body, cond, doms, [self.nf(e) for e in extra])

    def aggregate(self, op, body, cond, doms, extra=()):
        i = next((i for i, d in enumerate(doms) if d.op == "phi"), None)
        if i is not None:
            c = self.as_bool(self.nf(doms[i].args[0]))
            if c.size <= 8:
                # a choice of what to run over, made before running
                def rec(c, body, cond):
                    if c.leaf is not None:
                        d = doms[i].args[1 if self.leaf_truth(c.leaf) else 2]
                        return self.aggregate(op, body, cond, doms[:i] + self.base_domains([d]) + doms[i + 1:], extra)
                    g = c.guard
                    return self.ite(self.gtree(g), rec(c.t, self.cof(body, g, True), self.cof(cond, g, True)),
                                    rec(c.f, self.cof(body, g, False), self.cof(cond, g, False)))
                return rec(c, body, cond)
        bound = self.bound_atoms(doms, set(body.free) | set(cond.free))
        dkey = tuple(self.nf(d).id for d in doms)
        dfree, dweak = set(), 0
        for d in doms:
            dfree |= self.nf(d).free
            dweak = max(dweak, self.nf(d).weak)
        if op == "sum":
            r = self.sum_tree(self.ite(cond, body, self.leaf(self.rconst(0))), bound, dkey, dfree, dweak)
            for e in extra:
                r = self.arith("+", r, e)
            return r
        if op in ("any", "all"):
            b = self.as_bool(body)
            if op == "all":
                b = self.notb(b)
            b = self.ite(cond, b, self.leaf(FALSE))
            r = self.lift_inv(b, bound, lambda t: self._any_atom(t, dkey, dfree, dweak, bound))
            return r if op == "any" else self.notb(r)
        # max / min
        if cond.leaf is not None and not extra and body.leaf is not None and isinstance(body.leaf, Rat) and not body.leaf.den:
            r = body.leaf
            inv = {m: c for m, c in r.num.items() if not any(self.atom_free[x] & bound for x, _ in m)}
            var = {m: c for m, c in r.num.items() if m not in inv}
            if var:
                co = var[max(var, key=morder)]
                nv = Rat({m: c / abs(co) for m, c in var.items()}, {})
                o2 = op
                if co < 0:
                    nv = self.radd(self.rconst(0), nv, -1)
                    o2 = "min" if op == "max" else "max"
                t = self.leaf(nv)
                a = self.atom(("agg", o2, t.id, self.leaf(TRUE).id) + dkey, (t.free - bound) | dfree, max(t.weak, dweak))
                return self.leaf(self.radd(self.rmul(self.rat_atom(a), self.rconst(co)), Rat(inv, {})))
        ex = [e.id for e in extra]
        fr = (set(body.free) | set(cond.free)) - bound | dfree
        wk = max(body.weak, cond.weak, dweak)
        for e in extra:
            fr |= e.free
            wk = max(wk, e.weak)
        a = self.atom(("agg", op, body.id, cond.id) + dkey + ("x",) + tuple(ex), fr, wk)
        return self.leaf(self.rat_atom(a))

    def _any_atom(self, t, dkey, dfree, dweak, bound):
        if t.leaf is not None and not self.leaf_truth(t.leaf):
            return self.leaf(FALSE)
        a = self.atom(("any", t.id) + dkey, (t.free - bound) | dfree, max(t.weak, dweak))
        return self.gtree(self.guard(("b", a, 5, ("truth",)), self.atom_free[a], self.atom_weak[a]))

    def lift_inv(self, t, bound, fn):
        """pull guards that do not depend on the bound variables out of t"""
        if t.leaf is None:
            for g in self.guards_of(t):
                if not (self.guard_free[g] & bound):
                    a = self.lift_inv(self.cof(t, g, True), bound, fn)
                    b = self.lift_inv(self.cof(t, g, False), bound, fn)
                    return self.ite(self.gtree(g), a, b)
        return fn(t)

    def guards_of(self, t):
        out, stack, seen = [], [t], set()
        while stack:
            x = stack.pop()
            if x.id in seen or x.leaf is not None:
                continue
            seen.add(x.id)
            out.append(x.guard)
            stack += [x.t, x.f]
        return sorted(set(out), key=self.gorder)

    def sum_tree(self, t, bound, dkey, dfree, dweak):
        def one(t):
            # t has only variant guards
            return self.leaf(self._sum(self.leaf(TRUE), t, bound, dkey, dfree, dweak))
        return self.lift_inv(t, bound, one)

    def _sum(self, ind, t, bound, dkey, dfree, dweak):
        if t.leaf is None:
            g = t.guard
            base = self._sum(ind, t.f, bound, dkey, dfree, dweak)
            diff = self.arith("-", t.t, t.f)
            diff = self.cof(diff, g, True)
            return self.radd(base, self._sum(self.ite(ind, self.gtree(g), self.leaf(FALSE)), diff, bound, dkey, dfree, dweak))
        r = self.as_rat(t.leaf)
        out = self.rconst(0)
        # denominators independent of the bound variables factor out
        inv_den = {pk: e for pk, e in r.den.items() if not any(self.atom_free[x] & bound for m in self.poly_of[pk] for x, _ in m)}
        var_den = {pk: e for pk, e in r.den.items() if pk not in inv_den}
        groups = {}
        for m, c in r.num.items():
            inv = tuple(x for x in m if not (self.atom_free[x[0]] & bound))
            var = tuple(x for x in m if self.atom_free[x[0]] & bound)
            groups.setdefault(var, {})[inv] = c
        for var, invp in groups.items():
            v = Rat({var: Fraction(1)}, var_den)
            vt = self.leaf(v)
            if var == () and not var_den and ind.leaf is not None and len(dkey) == 1:
                cnt = self._count_atom(dkey)
                s = cnt
            else:
                a = self.atom(("sum", ind.id, vt.id) + dkey, ((vt.free | ind.free) - bound) | dfree, max(vt.weak, ind.weak, dweak))
                s = self.rat_atom(a)
            out = self.radd(out, self.rmul(s, Rat(invp, {})))
        if inv_den:
            out = self.rmul(out, Rat({(): Fraction(1)}, {})) if not inv_den else self.mkrat(out.num, _adddict(out.den, inv_den))
        return out

    def _count_atom(self, dkey):
        dt = self._tree_by_id(dkey[0])
        if dt.leaf is not None:
            a = self.single_atom(dt.leaf)
            if a is not None and self.atom_key[a][0] == ("call", "range") and len(self.atom_key[a]) == 2:
                r = self._rat_of_key(self.atom_key[a][1])
                if r is not None:
                    return r
            return self.rat_atom(self._mkatom("len", (dt.leaf,), isint=True, nonneg=True))
        a = self.atom(("len", dt.id), dt.free, dt.weak, True, True)
        return self.rat_atom(a)

    def _rat_of_key(self, key):
        try:
            return Rat(dict(key[0]), dict(key[1]))
        except Exception:
            return None

    def _tree_by_id(self, i):
        return self.tree_list[i]

    # -- loops ---------------------------------------------------------------------
    def nf_mu(self, n):
        if n in self.open_mu:
            v = self.open_mu[n]
            return self.leaf(self.rat_atom(v)) if isinstance(v, int) else v
        d = self.g.mu_def.get(n)
        if d is None:
            return self.leaf(self.rat_atom(self.atom(("mu?", n.id), (), 2)))
        lid = n.attr[0]
        info = self.g.loops.get(lid, {})
        init, nxt = d
        group = [m for m in self.g.mu_def if m.attr[0] == lid]
        it = info.get("iter")
        # a set of mutually dependent carried values: open all of them
        saved = dict(self.open_mu)
        names = {}
        for m in group:
            names[m] = self.atom(("mu", m.id), (), 0)
        if it is None and info.get("test") is not None and not info.get("exits"):
            # while-loop with a unit-step counter: for counter in range(init, bound)
            ind = self.induction(info["test"], group)
            if ind is not None:
                cvar, lo, hi = ind
                it = self.g.mk("call", (hi,) if (lo.op == "const" and lo.attr == 0) else (lo, hi), "range")
                if n is cvar:
                    return self.minmax("max", [self.nf(lo), self.nf(hi)])
                et = self.nf(self.g.mk("elem", (it,), 0))
                a = self.single_atom(et.leaf) if et.leaf is not None else None
                names[cvar] = a if a is not None else et
        try:
            self.open_mu = {**self.open_mu, **names}
            me = names[n]
            others = {a for m, a in names.items() if m is not n and isinstance(a, int) and self.atom_key[a][0] == "mu"}
            if it is not None and not info.get("exits"):
                r = self.accumulate(n, nxt, it, me, others, saved)
                if r is not None:
                    return r
        finally:
            self.open_mu = saved
        return self.leaf(self.rat_atom(self.mu_general(n, group, info)))

    def induction(self, test, group):
        if test.op != "cmp" or test.attr != "<" or test.args[0] not in group:
            return None
        c = test.args[0]
        init, nxt = self.g.mu_def[c]
        if any(m in group for m in self.reach(test.args[1])) or any(m in group for m in self.reach(init)):
            return None
        if nxt.op == "bin" and nxt.attr == "+" and c in nxt.args:
            o = nxt.args[0] if nxt.args[1] is c else nxt.args[1]
            if o.op == "const" and o.attr == 1:
                return c, init, test.args[1]
        return None

    def accumulate(self, n, nxt, it, me, others, saved):
        """init + sum / max / min / any over the iteration domain"""
        op, body = self.acc_shape(n, nxt)
        if op is None:
            t = self.nf(nxt)
            d = self.arith("-", t, self.leaf(self.rat_atom(me)))
            if me in d.free or (others & d.free):
                return None
            op, body_t, cond_t = "sum", d, self.leaf(TRUE)
        else:
            body_t, cond_t = self.nf(body[0]), self.leaf(TRUE)
            if body[1] is not None:
                cond_t = self.as_bool(self.nf(body[1]))
            if ({me} | others) & (body_t.free | cond_t.free):
                return None
        op_open, self.open_mu = self.open_mu, saved
        try:
            init = self.nf(self.g.mu_def[n][0])
            doms = [self.domain(it)]
            if op == "sum":
                return self.arith("+", init, self.aggregate("sum", body_t, cond_t, doms))
            agg = self.aggregate(op, body_t, cond_t, doms)
            return self.minmax(op, [init, agg])
        finally:
            self.open_mu = op_open

    def acc_shape(self, mu, nxt):
        """next == max(mu, e) or phi(c, max(mu, e), mu)"""
        if nxt.op in ("max", "min") and mu in nxt.args:
            rest = [a for a in nxt.args if a is not mu]
            e = rest[0] if len(rest) == 1 else self.g.minmax(nxt.op, rest)
            return nxt.op, (e, None)
        if nxt.op == "phi":
            c, a, b = nxt.args
            if b is mu:
                op, r = self.acc_shape(mu, a)
                if op:
                    return op, (r[0], c if r[1] is None else self.g.and_([c, r[1]]))
            if a is mu:
                op, r = self.acc_shape(mu, b)
                if op:
                    return op, (r[0], self.g.not_(c) if r[1] is None else self.g.and_([self.g.not_(c), r[1]]))
        return None, None

    def mu_general(self, n, group, info):
        """canonical name of a loop-carried value by partition refinement on (init, next)"""
        return self.loop_atom(n.attr[0], n)

    def loop_atom(self, lid, n=None, tag="loop"):
        key = (lid, n, tag)
        ctx = ()
        if self.open_mu:
            info = self.g.loops.get(lid) or {}
            rs = set(self.reach(n)) if n is not None else set()
            for c in list(info.get("breaks", ())) + list(info.get("rets", ())) + ([info["test"]] if info.get("test") is not None else []) \
                    + ([info["iter"]] if info.get("iter") is not None else []):
                rs |= self.reach(c)
            ctx = tuple(sorted((m.id, a if isinstance(a, int) else -a.id - 1) for m, a in self.open_mu.items() if m in rs and m.attr[0] != lid))
            if ctx:
                key = (lid, n, tag, ctx)
        if key in self.mu_names:
            return self.mu_names[key]
        if (lid, ctx) in self.loop_busy or len(self.loop_busy) > 12:
            return self.atom(("mu?", lid, n.id if n else 0), (), 2)
        info = self.g.loops.get(lid)
        if info is None:
            return self.atom(("mu?", lid, n.id if n else 0), (), 2)
        self.loop_busy.add((lid, ctx))
        saved = self.open_mu
        try:
            allmu = [m for m in self.g.mu_def if m.attr[0] == lid]
            # when an iteration ends the loop early, and whether another one is started
            conds = [self.g.or_(list(info[k])) if info[k] else self.g.const(False) for k in ("breaks", "rets")]
            conds += [info["test"]] if info.get("test") is not None else []
            rel, stack = set(), ([n] if n is not None else []) + [m for c in conds for m in self.reach(c) if m in allmu]
            while stack:
                m = stack.pop()
                if m in rel:
                    continue
                rel.add(m)
                stack += [x for x in self.reach(self.g.mu_def[m][1]) if x.attr[0] == lid and x in self.g.mu_def]
            group = sorted(rel, key=lambda m: m.id)
            weak, free = 1, set()
            it = info.get("iter")
            if it is not None:
                dt = self.nf(self.domain(it))
                dk = dt.id
                weak = max(weak, dt.weak); free |= dt.free
            else:
                dk = None
            cls = {m: 0 for m in group}
            inits = {}
            for m in group:
                t = self.nf(self.g.mu_def[m][0])
                inits[m] = t.id
                weak = max(weak, t.weak); free |= t.free
            ck = ()
            for rnd in range(3):
                op = dict(saved)
                for m in group:
                    op[m] = self.atom(("muv", rnd, cls[m]), ())
                self.open_mu = op
                cts = [self.nf(c) for c in conds]
                ck = tuple(t.id for t in cts)
                keys = {}
                for m in group:
                    t = self.nf(self.g.mu_def[m][1])
                    keys[m] = (inits[m], t.id)
                    if rnd == 2:
                        weak = max(weak, t.weak); free |= t.free
                if rnd == 2:
                    for t in cts:
                        weak = max(weak, t.weak); free |= t.free
                cls = keys
            loopkey = (dk, ck, tuple(sorted(cls.values())))
            free = {a for a in free if self.atom_key[a][0] != "muv"}
            a = self.atom((tag, loopkey, cls[n] if n is not None else None), free, weak, prim=1)
            if a not in self.loop_parts:
                self.loop_parts[a] = (tag, dk, cts, [(self._tree_by_id(inits[m]), self._tree_by_id(cls[m][1]), op[m], m is n) for m in group])
            shape = None if it is None else tuple(sorted(self._dkinds(dt))) or ("source",)
            self.loop_skel[a] = (shape, len(conds), bool(info["breaks"]), bool(info["rets"]), len(group))
        finally:
            self.open_mu = saved
            self.loop_busy.discard((lid, ctx))
        self.mu_names[key] = a
        return a

    def nf_raised(self, n):
        ts = [self.nf(a) for a in n.args]
        fr = set()
        for t in ts:
            fr |= t.free
        a = self.atom(("raised", n.attr) + tuple(sorted({t.id for t in ts})), fr, max([1] + [t.weak for t in ts]), prim=1)
        self.loop_skel[a] = ("raised", n.attr, tuple(sorted({str(x.attr) if x.op == "call" else x.op for x in n.args})))
        return self.gtree(self.guard(("b", a, 5, ("truth",)), self.atom_free[a], self.atom_weak[a]))

    def nf_raised_late(self, n):
        t = self.nf(n.args[0])
        a = self.atom(("late", t.id), t.free, t.weak)
        return self.gtree(self.guard(("b", a, 5, ("truth",)), self.atom_free[a], self.atom_weak[a]))

    def nf_opaque(self, n):
        at = n.attr
        if isinstance(at, tuple) and at[0] == "break" and at[1] in self.g.loops:
            a = self.loop_atom(at[1], None, tag="loopbreak")
            return self.gtree(self.guard(("b", a, 5, ("truth",)), self.atom_free[a], self.atom_weak[a]))
        if isinstance(at, tuple) and at[0] == "iter" and at[1] in self.g.loops:
            a = self.loop_atom(at[1], None, tag="loopret")
            return self.gtree(self.guard(("b", a, 5, ("truth",)), self.atom_free[a], self.atom_weak[a]))
        return self.leaf(self.rat_atom(self.atom(("opaque", repr(at)), (), 2)))

    # -- comparison of two trees modulo infeasible branch combinations -------------
    def poly_con(self, r):
        """rational function -> (coeffs, const) over monomial dimensions"""
        co, k = {}, Fraction(0)
        full = tuple(sorted(r.den.items()))
        # atoms that are denominators by themselves cancel monomial by monomial
        single = {}
        for p, e in full:
            q = self.poly_of[p]
            if len(q) == 1:
                (m, c), = q.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    single[m[0][0]] = (p, e)
        for m, c in r.num.items():
            dk = full
            if single and any(a in single for a, _ in m):
                d, mm = dict(full), []
                for a, e in m:
                    if a in single and single[a][0] in d:
                        p = single[a][0]
                        x = min(e, d[p])
                        d[p] -= x; e -= x
                        if not d[p]:
                            del d[p]
                    if e:
                        mm.append((a, e))
                m, dk = tuple(mm), tuple(sorted(d.items()))
            if m == () and not dk:
                k += c
            else:
                co[(m, dk)] = co.get((m, dk), Fraction(0)) + c
        return co, k

    def guard_con(self, g, val):
        k = self.guard_key[g]
        if k[0] not in ("lt", "eq"):
            return None
        co, c0 = self.poly_con(self.form_of[k[1]])
        c0 -= k[2]
        if k[0] == "lt":
            return (co, c0, "<") if val else ({v: -c for v, c in co.items()}, -c0, "<=")
        return (co, c0, "==" if val else "!=")

    def tighten(self, cons):
        """x <= c with x != c is x < c; bounds on integer-valued forms are rounded"""
        def scaled(a, b):
            if a and all(not dk and all(self.atom_int[x] for x, _ in m) for m, dk in a):
                k = math.lcm(*(c.denominator for c in a.values()))
                k = Fraction(k, math.gcd(*(int(c * k) for c in a.values())))
                return {v: c * k for v, c in a.items()}, b * k, True
            return a, b, False
        cons = [scaled(a, b) + (op,) for a, b, op in cons]
        ne = set()
        for a, b, _, op in cons:
            if op == "!=":
                key = tuple(sorted(a.items()))
                ne.add((key, b))
                ne.add((tuple((v, -c) for v, c in key), -b))
        out = []
        for a, b, isint, op in cons:
            if op == "!=":
                continue
            key = tuple(sorted(a.items())) if ne else None
            if op == "==" and (key, b) in ne:
                return None
            if op == "<=" and (key, b) in ne:
                op = "<"
            if isint:
                if op == "==":
                    if b.denominator != 1:
                        return None
                else:
                    top = (math.ceil(-b) - 1) if op == "<" else math.floor(-b)
                    b, op = Fraction(-top), "<="
                    while (key, b) in ne:
                        b += 1
            out.append((a, b, op))
        return out

    def sign_cons(self, cons):
        out = []
        for v in {v for a, _, _ in cons for v in a}:
            m, dk = v
            if self.rsign(Rat({m: Fraction(1)}, dict(dk))) in ("pos", "nn"):
                out.append(({v: Fraction(-1)}, Fraction(0), "<="))
        return out

    def infeasible(self, cons):
        cons = [c for c in cons if c is not None]
        if not cons:
            return False
        k = tuple(sorted((tuple(sorted(a.items())), b, op) for a, b, op in cons))
        r = self._infeas.get(k)
        if r is None:
            tc = self.tighten(cons + self.sign_cons(cons))
            r = tc is None or (bool(tc) and polyhedra.empty(tc))
            self._infeas[k] = r
        return r

    def contradictory(self, cons):
        """infeasible, with equalities substituted, denominators and common factors of known sign cleared
        and products of constraints added; sound and incomplete like `infeasible`"""
        cons = [c for c in cons if c is not None]
        if len(cons) < 2:
            return False
        key = tuple(sorted((tuple(sorted(a.items())), b, op) for a, b, op in cons))
        r = self._contra.get(key)
        if r is not None:
            return r
        self._deep -= 1
        if self._deep < 0:
            self.exhausted = True
            return False
        try:
            r = self._contradictory(cons)
        except ZeroDivisionError:
            r = False
        self._contra[key] = r
        return r

    def _contradictory(self, cons):
        rs = []
        for a, b, op in cons:
            x = self.rconst(b)
            for (m, dk), c in a.items():
                x = self.radd(x, Rat({m: c}, dict(dk)))
            rs.append((x, op))
        lin = lambda rs: [self.poly_con(x) + (op,) for x, op in rs]
        for _ in range(8):
            # denominators and common factors whose sign the other constraints settle
            out = []
            for x, op in rs:
                num, den = x.num, dict(x.den)
                if len(num) > 1 or (len(num) == 1 and sum(e for _, e in next(iter(num))) > 1):
                    common = None
                    for m in num:
                        d = dict(m)
                        common = d if common is None else {k: min(e, d[k]) for k, e in common.items() if k in d}
                    for k, e in (common or {}).items():
                        sg = self.sign_under(self.rat_atom(k), rs, lin)
                        if sg is not None:
                            num = {tuple((q, (n - e if q == k else n)) for q, n in m if not (q == k and n == e)): (c if e % 2 == 0 or sg > 0 else -c) for m, c in num.items()}
                flip = 1
                if len(num) > 2:
                    for y, o in rs:
                        if o == "<" and y is not x and not y.den and 1 < len(y.num) < len(num) and max(map(mdeg, y.num)) == 1:
                            q = pdivexact(num, y.num)
                            while q is not None:
                                num, flip = q, -flip
                                q = pdivexact(num, y.num) if len(num) >= len(y.num) else None
                for pk, e in x.den.items():
                    sg = 1 if e % 2 == 0 or op in ("==", "!=") else self.sign_under(Rat(self.poly_of[pk], {}), rs, lin)
                    if sg is not None:
                        del den[pk]
                        flip *= sg
                out.append((Rat({m: c * flip for m, c in num.items()}, den), op))
            rs = out
            ls = lin(rs)
            tc = self.tighten(ls + self.sign_cons(ls))
            if tc is None or (tc and polyhedra.empty(tc)):
                return True
            # x == value: substitute
            for i, (x, op) in enumerate(rs):
                got = self.solve_for(x.num, rs, lin) if op == "==" and x.num and not x.den else None
                if got is not None:
                    at, val = got
                    rs = [(self.rat_subst(y, at, val) if at in self.rat_atoms(y) else y, o) for j, (y, o) in enumerate(rs) if j != i]
                    break
            else:
                break
        # products of two constraints, as far as they speak about monomials at hand
        have = {m for x, _ in rs for m in x.num if sum(e for _, e in m) > 1}
        if not have:
            return False
        base = [(x.num, op == "<") for x, op in rs if op in ("<", "<=") and not x.den]
        extra = []
        for i in range(len(base)):
            for j in range(i, len(base)):
                if len(extra) > 40:
                    break
                pr = pmul(base[i][0], base[j][0])
                if i != j and any(m in have for m in pr) and sum(1 for m in pr if m not in have and sum(e for _, e in m) > 1) <= 1:
                    extra.append((self.poly_con(Rat({m: -c for m, c in pr.items()}, {})) + ("<" if base[i][1] and base[j][1] else "<=",)))
        if not extra:
            return False
        ls = lin(rs) + extra
        tc = self.tighten(ls + self.sign_cons(ls))
        return tc is None or bool(tc) and polyhedra.empty(tc)

    def solve_for(self, num, rs, lin):
        """num == 0 solved for one atom it is linear in, with a coefficient that cannot vanish"""
        best = None
        for at in {a for m in num for a, _ in m}:
            co, rest, ok = {}, {}, True
            for m, c in num.items():
                e = dict(m).get(at, 0)
                if any(q != at and at in self.atom_free[q] for q, _ in m) or e > 1:
                    ok = False
                    break
                if e:
                    co[tuple(y for y in m if y[0] != at)] = c
                else:
                    rest[m] = -c
            if not ok:
                continue
            rank = (set(co) == {()}, len(self.atom_free[at]), -at)
            if best is None or rank > best[0]:
                q = Rat(co, {})
                if set(co) == {()} or self.sign_under(q, rs, lin) is not None:
                    best = (rank, at, self.rdiv(Rat(rest, {}), q))
        return best and best[1:]

    def sign_under(self, r, rs, lin):
        """+1/-1 when the constraints settle the strict sign of r"""
        s = self.rsign(r)
        if s in ("pos", "neg"):
            return 1 if s == "pos" else -1
        co, k = self.poly_con(r)
        base = lin(rs)
        if self.infeasible(base + [(co, k, "<=")]):
            return 1
        if self.infeasible(base + [({v: -c for v, c in co.items()}, -k, "<=")]):
            return -1
        if len(r.num) == 1 and not r.den:          # a product has the product of the signs
            (m, c), = r.num.items()
            if sum(e for _, e in m) > 1:
                sg = 1 if c > 0 else -1
                for a, e in m:
                    x = self.sign_under(self.rat_atom(a), rs, lin)
                    if x is None:
                        return None
                    sg *= x if e % 2 else 1
                return sg
        return None

    _infeas: dict = {}
    _contra: dict = {}
    _deep = 0
    debug = False
    _trail = ()

    def same(self, a, b, budget=20000):
        """True if the two trees denote the same function on every feasible branch combination"""
        if a is b:
            return True
        self._budget = budget
        self.exhausted = False
        self._infeas = {}
        self._contra = {}
        self._deep = 150
        self._path, self._soft = [], False
        if self._same(a, b, [], []):
            if self._soft:
                self.exhausted = True
                return False
            return True
        if self.top_folds(a) ^ self.top_folds(b):
            self._budget = budget
            self.exhausted = False
            return self._unfold(a, b, [])
        return False

    def top_folds(self, t, memo=None):
        """folded subtrees among the atoms of leaves and numeric guards"""
        if not self.folded:
            return frozenset()
        memo = {} if memo is None else memo
        r = memo.get(t.id)
        if r is None:
            if t.leaf is not None:
                r = frozenset(x for x in self.rat_atoms(t.leaf) if x in self.folded) if isinstance(t.leaf, Rat) else frozenset()
            else:
                r = self.top_folds(t.t, memo) | self.top_folds(t.f, memo)
                k = self.guard_key[t.guard]
                if k[0] in ("lt", "eq"):
                    r = r | frozenset(x for x in self.rat_atoms(self.form_of[k[1]]) if x in self.folded)
            memo[t.id] = r
        return r

    def _unfold(self, a, b, cons):
        """compare after case analysis over a folded subtree that only one side mentions"""
        un = self.top_folds(a) ^ self.top_folds(b)
        if not un:
            return self._same(a, b, cons, [])
        f = max(un)
        return self._split(f, self.folded[f], a, b, cons)

    def _split(self, f, T, a, b, cons):
        if a is b:
            return True
        self._budget -= 1
        if self._budget < 0:
            self.exhausted = True
            return False
        if T.leaf is not None:
            if cons and self.infeasible(cons):
                return True
            return self._unfold(self.subst_atom(a, f, T), self.subst_atom(b, f, T), cons)
        g = T.guard
        for val in (True, False):
            c = self.guard_con(g, val)
            nc = cons + [c] if c is not None else cons
            if c is not None and len(nc) > 1 and self.infeasible(nc):
                continue
            if not self._split(f, self.cof(T, g, val), self.cof(a, g, val), self.cof(b, g, val), nc):
                return False
        return True

    def _same(self, a, b, cons, eqs, nn=frozenset()):
        if a is b:
            return True
        self._budget -= 1
        if self._budget < 0:
            self.exhausted = True
            return False
        if a.leaf is not None and b.leaf is not None:
            if self.infeasible(cons) or self._same_leaf(a.leaf, b.leaf, cons):
                return True
            if self.contradictory(cons) or self._zero_denominator(cons):
                return True
            if self._unsettled(cons):
                self._soft = True            # the branch may be empty: go on, and claim nothing
                return True
            return False
        g = min((x.guard for x in (a, b) if x.leaf is None), key=self.gorder)
        gk = self.guard_key[g]
        for val in (True, False):
            c = self.guard_con(g, val)
            if gk[0] == "b" and gk[3][0] == "truth":
                ln = self.atoms.get(("len", self.rat_atom(gk[1]).key))
                if ln is not None:              # a container is false exactly when it is empty
                    c = ({(((ln, 1),), ()): Fraction(1)}, Fraction(0), "==") if not val else ({(((ln, 1),), ()): Fraction(-1)}, Fraction(1), "<=")
                elif gk[1] in nn:
                    c = ({(((gk[1], 1),), ()): Fraction(1)}, Fraction(0), "!=" if val else "==")
            nc = cons + [c] if c is not None else cons
            a2, b2 = self.cof(a, g, val), self.cof(b, g, val)
            if a2 is b2:
                continue
            if c is not None and len(nc) > 1 and self.infeasible(nc):
                continue
            if self.debug:
                self._trail = tuple(eqs) + ((self.show_guard(g), val),)
            self._path.append((g, val))
            r = self._same(a2, b2, nc, eqs + [(self.show_guard(g), val)] if self.debug else eqs,
                           nn | {gk[1]} if gk[0] == "b" and gk[3][0] == "isnone" and not val else nn)
            self._path.pop()
            if not r:
                return False
        return True

    def _zero_denominator(self, cons):
        """a branch on which something that is divided by has to be zero"""
        dens, extra = set(), []
        for g, val in self._path:
            gk = self.guard_key[g]
            if gk[0] in ("lt", "eq"):
                form = self.form_of[gk[1]]
                dens |= set(form.den)
                if form.den and gk[0] == "eq" and val:
                    co, k = self.poly_con(Rat(form.num, {}))
                    extra.append((co, k, "=="))
        for p in dens if extra else ():
            co, k = self.poly_con(Rat(self.poly_of[p], {}))
            if self.infeasible(cons + extra + [(co, k, "<")]) and self.infeasible(cons + extra + [({v: -c for v, c in co.items()}, -k, "<")]):
                return True
        return False

    def _unsettled(self, cons):
        """a branch that fixes a total which occurs inside an uninterpreted condition of the same branch"""
        fixed = {x for co, k, op in cons if op == "==" for mono in co for x, _ in mono[0] if self.atom_key[x][0] in ("sum", "agg")}
        if not fixed:
            return False
        for g, _ in self._path:
            gk = self.guard_key[g]
            if gk[0] == "b" and self.atom_key[gk[1]][0] in ("any", "agg", "in") and (self.atom_free[gk[1]] - {gk[1]}) & fixed:
                return True
        return False

    def _same_leaf(self, x, y, cons):
        if isinstance(x, Rat) and isinstance(y, Rat):
            d = self.radd(x, y, -1)
            if not d.num:
                return True
            if not cons:
                return False
            for dd in ((Rat(d.num, {}), d) if d.den else (d,)):
                co, k = self.poly_con(dd)
                neg = {v: -c for v, c in co.items()}
                if self.infeasible(cons + [(co, k, "<")]) and self.infeasible(cons + [(neg, -k, "<")]):
                    return True
            co, k = self.poly_con(Rat(d.num, {}))
            if self.contradictory(cons + [(co, k, "<")]) and self.contradictory(cons + [({v: -c for v, c in co.items()}, -k, "<")]):
                return True
            if self.debug:
                print("MISMATCH", self.show_rat(x), "<>", self.show_rat(y), "under", self._trail)
            return False
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "t" == y[0] and len(x[1]) == len(y[1]):
            return all(self._same(p, q, cons, []) for p, q in zip(x[1], y[1]))
        return x == y

    # -- atoms made of equal parts -------------------------------------------------
    def map_tree(self, t, mp, memo=None):
        """t with atoms replaced by atoms, everywhere"""
        memo = {} if memo is None else memo
        if not any(a in t.free for a in mp):
            return t
        r = memo.get(("t", t.id))
        if r is not None:
            return r
        if t.leaf is not None:
            l = t.leaf
            if isinstance(l, Rat):
                r = self.leaf(self.map_rat(l, mp, memo))
            elif l[0] == "t":
                r = self.leaf(("t", tuple(self.map_tree(x, mp, memo) for x in l[1])))
            else:
                r = t
        else:
            x, y = self.map_tree(t.t, mp, memo), self.map_tree(t.f, mp, memo)
            k = self.guard_key[t.guard]
            if k[0] == "b":
                a = self.map_atom(k[1], mp, memo)
                g = self.gtree(self.guard(("b", a) + k[2:], self.atom_free[a], self.atom_weak[a]) if a != k[1] else t.guard)
            else:
                fm = self.form_of[k[1]]
                m2 = self.map_rat(fm, mp, memo)
                g = self.gtree(t.guard) if m2 is fm else self.cmp_rat(k[0], self.radd(m2, self.rconst(-k[2])))
            r = self.ite(g, x, y)
        memo[("t", t.id)] = r
        return r

    def map_atom(self, a, mp, memo):
        if a in mp:
            return mp[a]
        if a in self.loop_parts or not any(x in self.atom_free[a] for x in mp):
            return a
        r = memo.get(("a", a))
        if r is not None:
            return r
        k = self.atom_key[a]
        out = [k[0]]
        trees = k[0] in ("comp", "sum", "any", "agg", "tree", "late", "struct")
        for p in k[1:]:
            if trees and isinstance(p, int):
                p = self.map_tree(self._tree_by_id(p), mp, memo).id
            elif trees and isinstance(p, tuple) and p and all(isinstance(z, int) for z in p):
                p = tuple(self.map_tree(self._tree_by_id(z), mp, memo).id for z in p)
            elif isinstance(p, tuple) and p[:1] == ("t",):
                p = ("t",) + tuple(self.map_tree(self._tree_by_id(z), mp, memo).id for z in p[1:])
            elif isinstance(p, tuple) and not trees:
                q = self._rat_of_key(p)
                if q is not None and p != () and isinstance(p[0], tuple):
                    p = self.map_rat(q, mp, memo).key
            out.append(p)
        out = tuple(out)
        if out == k:
            r = a
        else:
            fr = set()
            for x in self.atom_free[a]:
                if x != a:
                    fr |= self.atom_free[self.map_atom(x, mp, memo)]
            r = self.atom(out, fr, self.atom_weak[a], self.atom_int[a], self.atom_nn[a], self.prim.get(a))
            for d in (self.loop_skel, self.folded):
                if a in d:
                    d.setdefault(r, self.map_tree(d[a], mp, memo) if d is self.folded else d[a])
        memo[("a", a)] = r
        return r

    def map_rat(self, r, mp, memo=None):
        memo = {} if memo is None else memo
        ren = {a: self.map_atom(a, mp, memo) for a in self.rat_atoms(r)}
        ren = {a: b for a, b in ren.items() if a != b}
        if not ren:
            return r
        tmp = {a: self.atom(("tmp", i), ()) for i, a in enumerate(ren)}      # simultaneous
        for a in ren:
            r = self.rat_subst(r, a, self.rat_atom(tmp[a]))
        for a in ren:
            r = self.rat_subst(r, tmp[a], self.rat_atom(ren[a]))
        return r

    def unify(self, a, b, limit=400):
        """rename composite atoms of a to atoms of b they are provably equal to (same construction, equal parts)"""
        fa, fb = a.free - b.free, b.free - a.free
        if not fa or not fb:
            return a
        mp, used = {}, 0
        pool = {}
        for y in fb:
            pool.setdefault(self._shape(y), []).append(y)
        for x in sorted(fa):
            for y in pool.get(self._shape(x), ()):
                if y in mp.values():
                    continue
                used += 1
                if used > limit:
                    break
                if self._equal_parts(x, y, mp):
                    mp[x] = y
                    break
        return self.map_tree(a, mp) if mp else a

    def _shape(self, x):
        k = self.atom_key[x]
        if x in self.loop_parts:
            p = self.loop_parts[x]
            return (p[0], p[1] is None, len(p[2]), len(p[3]))
        if k[0] in ("src", "mu", "muv", "constval", "tmp"):
            return ("id", x)
        if k[0] == "agg":
            return (k[0], k[1], len(k))
        return (k[0], len(k))

    def _equal_parts(self, x, y, mp):
        eq = lambda t, u: t is u or self._eq_tree(self.map_tree(t, mp), u)
        if x in self.loop_parts and y in self.loop_parts:
            _, d1, c1, m1 = self.loop_parts[x]
            _, d2, c2, m2 = self.loop_parts[y]
            if d1 is not None and not eq(self._tree_by_id(d1), self._tree_by_id(d2)):
                return False
            if len(m1) > 5:
                return False
            import itertools
            for perm in itertools.permutations(m2):
                if any(p[3] != q[3] for p, q in zip(m1, perm)) or not all(eq(p[0], q[0]) for p, q in zip(m1, perm)):
                    continue
                mm = dict(mp)
                mm.update({p[2]: q[2] for p, q in zip(m1, perm)})
                e2 = lambda t, u: self._eq_tree(self.map_tree(t, mm), u)
                if all(e2(p[1], q[1]) for p, q in zip(m1, perm)) and all(e2(p, q) for p, q in zip(c1, c2)):
                    return True
            return False
        kx, ky = self.atom_key[x], self.atom_key[y]
        if kx[0] in ("comp", "sum", "any", "agg", "tree", "late", "struct"):
            for p, q in zip(kx[1:], ky[1:]):
                if p == q:
                    continue
                if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q) and all(isinstance(z, int) for z in p + q):
                    if not all(eq(self._tree_by_id(i), self._tree_by_id(j)) for i, j in zip(p, q)):
                        return False
                    continue
                if not (isinstance(p, int) and isinstance(q, int)) or not eq(self._tree_by_id(p), self._tree_by_id(q)):
                    return False
            return True
        if kx[0] != ky[0]:
            return False
        for p, q in zip(kx[1:], ky[1:]):
            if p == q:
                continue
            if isinstance(p, tuple) and isinstance(q, tuple) and p[:1] == ("t",) == q[:1] and len(p) == len(q):
                if not all(eq(self._tree_by_id(i), self._tree_by_id(j)) for i, j in zip(p[1:], q[1:])):
                    return False
                continue
            rp, rq = self._rat_of_key(p), self._rat_of_key(q)
            if rp is None or rq is None or self.map_rat(rp, mp).key != rq.key:
                return False
        return True

    def _eq_tree(self, t, u):
        if t is u:
            return True
        if len(t.free ^ u.free) > 12:
            return False
        keep = (self._budget, self.exhausted, self._infeas, self._contra, self._deep)
        try:
            return self.same(t, u, 1500)
        finally:
            self._budget, self.exhausted, self._infeas, self._contra, self._deep = keep

    def domain_kinds(self, atoms, common=frozenset()):
        """what the aggregates, elements and lists among the atoms run over, source lists and what both sides run over excepted"""
        out = set()
        for x in atoms:
            k = self.atom_key[x]
            doms = []
            if k[0] == "comp":
                out.add("comp")
                doms = [self._tree_by_id(i) for i in k[3:]]
            elif k[0] == "sum":
                doms = [self._tree_by_id(i) for i in k[3:]]
            elif k[0] == "any":
                doms = [self._tree_by_id(i) for i in k[2:]]
            elif k[0] == "agg":
                doms = [self._tree_by_id(i) for i in k[4:] if isinstance(i, int)]
                if "x" in k and k[-1] != "x":
                    out.add("default")
            elif k[0] == "len" or isinstance(k[0], tuple) and k[0][0] in ("elem", "index", "key"):
                r = self._rat_of_key(k[1]) if isinstance(k[1], tuple) else None
                doms = [self.leaf(r)] if r is not None else [self._tree_by_id(k[1])] if isinstance(k[1], int) else []
            for d in doms:
                if isinstance(d.leaf, Rat) and self.single_atom(d.leaf) in common:
                    continue
                out |= self._dkinds(d)
            if isinstance(k[0], tuple) and k[0][0] == "slice" or k[0] == ("call", "slice"):
                out.add("slice")
        return out

    # library functions that compute something of their own: where the code calls one and the
    # specification does not, the two differ
    COMPUTES = frozenset("""round math.ceil numpy.ceil numpy.floor numpy.round numpy.around math.sqrt numpy.sqrt math.exp
        numpy.exp math.log numpy.log numpy.roll numpy.flip numpy.mean numpy.median numpy.cumsum numpy.diff numpy.clip
        numpy.percentile math.pow divmod .lower .upper .strip .title .replace""".split())

    def library_calls(self, atoms):
        """names of the library functions and methods applied in the atoms"""
        out = set()
        own = {f.name for f in self.ip.prog.all_funcs} | set(self.ip.prog.classes)
        for x in atoms:
            k = self.atom_key[x][0]
            if isinstance(k, tuple) and k[0] == "call" and isinstance(k[1], str):
                n = k[1].split("|")[0]
                if n.split(".")[-1] in own or "!" in n or ":" in n or " " in n or n in ("range", "rest"):
                    continue
                out.add(n)
        return out

    def foreign_calls(self, a, b):
        """library functions that only one side uses, where the other one writes the same thing differently"""
        only_a, only_b = a.free - b.free, b.free - a.free
        la, lb = self.library_calls(only_a), self.library_calls(only_b)
        if la or lb:
            la -= self.library_calls(b.free) | self.COMPUTES
            lb -= self.library_calls(a.free) | self.COMPUTES
        if la:
            return la
        if lb:
            def kinds(atoms):
                out = set()
                for x in atoms:
                    k = self.atom_key[x][0]
                    k = k[0] if isinstance(k, tuple) else k
                    if k in ("in", "comp", "store", "append", "extend", "mu", "muv", "loop", "loopret", "elem", "agg", "any"):
                        out.add(k)
                return out
            if kinds(only_a) - kinds(b.free):
                return lb
        return set()

    def aggregates(self, atoms):
        return {x for x in atoms if self.atom_key[x][0] in ("sum", "any", "agg", "comp") or x in self.loop_skel and self.atom_key[x][0] in ("loop", "loopret", "loopbreak")}

    def _dkinds(self, d):
        if d.leaf is None:
            return self._dkinds(d.t) | self._dkinds(d.f)
        if not isinstance(d.leaf, Rat):
            return set()
        a = self.single_atom(d.leaf)
        if a is None:
            return {"expr"}
        k = self.atom_key[a]
        if k[0] == "src" or k[0] == "idx" or k[0] == "struct":
            return set()
        if isinstance(k[0], tuple):
            return {".".join(map(str, k[0]))}
        return {str(k[0])}

    def weak_prims(self, t):
        return {a: self.prim[a] for a in t.free if a in self.prim}

    def folds(self, t):
        return {a for a in t.free if self.atom_key[a][0] == "tree"}

    def skeletons(self, t):
        return sorted(self.loop_skel[a] for a in t.free if a in self.loop_skel)

    # ------------------------------------------------------------ printing
    def show_rat(self, r):
        def sp(p):
            out = []
            for m, c in sorted(p.items()):
                fs = [self.show_atom(a) + (f"^{e}" if e != 1 else "") for a, e in m]
                cs = str(float(c)) if c.denominator != 1 else str(c.numerator)
                if fs:
                    out.append(("" if c == 1 else ("-" if c == -1 else cs + "*")) + "*".join(fs))
                else:
                    out.append(cs)
            return " + ".join(out) or "0"
        s = sp(r.num)
        if r.den:
            s = f"({s}) / (" + " * ".join(f"({sp(self.poly_of[k])})" + (f"^{e}" if e != 1 else "") for k, e in r.den.items()) + ")"
        return s

    def show_atom(self, a, d=0):
        k = self.atom_key[a]
        if k[0] == "src":
            return str(k[1])
        if k[0] == "tree":
            return "{" + self.show(self._tree_by_id(k[1]), 2) + "}"
        if k[0] in ("sum", "agg", "any"):
            ids = [x for x in k[1:] if isinstance(x, int)]
            return f"{k[0]}({', '.join(self.show(self._tree_by_id(i), 1) if isinstance(i, int) else str(i) for i in k[1:])})"
        name = k[0] if isinstance(k[0], str) else ".".join(str(x) for x in k[0])
        parts = []
        for x in k[1:]:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple):
                r = self._rat_of_key(x)
                parts.append(self.show_rat(r) if r is not None else str(x)[:40])
            else:
                parts.append(str(x[-1]) if isinstance(x, tuple) else str(x))
        return f"{name}({', '.join(parts)})"

    def show_guard(self, g):
        k = self.guard_key[g]
        if k[0] in ("lt", "eq"):
            return f"{self.show_rat(self.form_of[k[1]])} {'<' if k[0] == 'lt' else '=='} {float(k[2]):g}"
        p = k[3]
        return f"{p[0]}({self.show_atom(k[1])}{', ' + repr(p[1]) if len(p) > 1 else ''})"

    def show(self, t, depth=6):
        if t.leaf is not None:
            if isinstance(t.leaf, Rat):
                s = self.show_rat(t.leaf)
                return s if len(s) < 600 else s[:600] + "…"
            if t.leaf[0] == "t":
                return "(" + ", ".join(self.show(x, depth - 1) for x in t.leaf[1][:16]) + ")"
            return repr(t.leaf[1])
        if depth <= 0:
            return "…"
        return f"[{self.show_guard(t.guard)} ? {self.show(t.t, depth - 1)} : {self.show(t.f, depth - 1)}]"


class _FamSet:
    __slots__ = ("nz", "fams")

    def __init__(self, nz, fams):
        self.nz, self.fams = nz, fams

    def __contains__(self, g):
        return self.nz.family(g) in self.fams


def _adddict(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return r
