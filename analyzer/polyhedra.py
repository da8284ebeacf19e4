"""Emptiness of convex polyhedra over exact rationals (Gauss + Fourier-Motzkin).

Used as an abstract domain only: to drop combinations of branch conditions that
cannot hold together when two decision trees are compared.  Every monomial of a
condition is treated as an independent dimension, so `empty` is sound (a region
reported empty is empty) and deliberately incomplete.
"""
from fractions import Fraction

LIMIT = 600


def empty(cons):
    """cons: list of (coeffs: dict var->Fraction, const, op) meaning  sum + const  op  0, op in '<','<=','=='.
    True if certainly empty, False if not shown empty."""
    eqs = [(dict(a), b) for a, b, op in cons if op == "=="]
    ine = [(dict(a), b, op == "<") for a, b, op in cons if op in ("<", "<=")]
    # equalities: substitute
    while eqs:
        a, b = eqs.pop()
        a = {v: c for v, c in a.items() if c}
        if not a:
            if b != 0:
                return True
            continue
        v = next(iter(a))
        cv = a[v]

        def sub(x, y):
            k = x.get(v)
            if not k:
                return x, y
            f = k / cv
            out = dict(x)
            for w, c in a.items():
                n = out.get(w, 0) - f * c
                if n:
                    out[w] = n
                else:
                    out.pop(w, None)
            return out, y - f * b
        eqs = [sub(x, y) for x, y in eqs]
        ine = [sub(x, y) + (s,) for x, y, s in ine]
    while True:
        rest = []
        seen = {}
        for a, b, s in ine:
            if not a:
                if b > 0 or (s and b == 0):
                    return True
                continue
            # normalise scale
            v0 = min(a)
            k = abs(a[v0])
            key = tuple(sorted((v, c / k) for v, c in a.items()))
            bb = b / k
            old = seen.get(key)
            if old is None or bb > old[0] or (bb == old[0] and s):
                seen[key] = (bb, s)
        ine = [(dict(k), b, s) for k, (b, s) in seen.items()]
        if not ine:
            return False
        # quick contradiction between opposite forms
        cnt = {}
        for a, b, s in ine:
            for v, c in a.items():
                p = cnt.setdefault(v, [0, 0])
                p[0 if c > 0 else 1] += 1
        v = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x))
        if cnt[v][0] * cnt[v][1] > LIMIT:
            return False
        pos = [(a, b, s) for a, b, s in ine if a.get(v, 0) > 0]
        neg = [(a, b, s) for a, b, s in ine if a.get(v, 0) < 0]
        new = [(a, b, s) for a, b, s in ine if v not in a]
        for a1, b1, s1 in pos:
            for a2, b2, s2 in neg:
                k1, k2 = -a2[v], a1[v]
                o = {}
                for w in set(a1) | set(a2):
                    if w == v:
                        continue
                    c = k1 * a1.get(w, 0) + k2 * a2.get(w, 0)
                    if c:
                        o[w] = c
                new.append((o, k1 * b1 + k2 * b2, s1 or s2))
        if len(new) > LIMIT:
            return False
        ine = new
