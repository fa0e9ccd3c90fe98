"""Conjunctions of linear facts: emptiness by Fourier-Motzkin over the monomials, and predicate simplification with it."""
from fractions import Fraction
import math
from . import terms as T
from .terms import Num

MAXC = 400


def _facts(ms, ints):
    """range facts of monomials"""
    out = []
    for m in ms:
        p = Num({m: Fraction(1)})
        lo, hi = T.rng(p)
        if lo is not None:
            out.append(({m: Fraction(-1)}, -Fraction(lo), False))   # -m + lo <= 0
            out[-1] = ({m: Fraction(-1)}, Fraction(lo), False)
        if hi is not None:
            out.append(({m: Fraction(1)}, -Fraction(hi), False))
    return out


def _con(p, strict):
    """p <= 0 (or < 0): (coeffs, const, strict), tightened for integer forms"""
    d = {m: c for m, c in p.d.items() if m}
    k = p.d.get((), Fraction(0))
    if strict and T.isint(p):
        return d, k + 1, False
    return d, k, strict


def infeasible(cons):
    """True when the constraints (coeffs, const, strict): sum + const (<|<=) 0 have no solution"""
    cs = set()
    for d, k, s in cons:
        cs.add((frozenset(d.items()), k, s))
    while True:
        vars_ = {}
        nxt = set()
        for d, k, s in cs:
            if not d:
                if k > 0 or (s and k == 0):
                    return True
                continue
            nxt.add((d, k, s))
        cs = nxt
        if not cs:
            return False
        for d, k, s in cs:
            for m, c in d:
                a = vars_.setdefault(m, [0, 0])
                a[0 if c > 0 else 1] += 1
        m = min(vars_, key=lambda x: (vars_[x][0] * vars_[x][1] - vars_[x][0] - vars_[x][1], str(x)))
        pos, neg, rest = [], [], set()
        for c in cs:
            x = dict(c[0]).get(m, 0)
            (pos if x > 0 else neg if x < 0 else None or []).append(c) if x else rest.add(c)
        if len(pos) * len(neg) + len(rest) > MAXC:
            return False
        for d1, k1, s1 in pos:
            a = dict(d1)
            ca = a[m]
            for d2, k2, s2 in neg:
                b = dict(d2)
                cb = -b[m]
                e = {}
                for x, c in a.items():
                    e[x] = c / ca
                for x, c in b.items():
                    y = e.get(x, 0) + c / cb
                    if y:
                        e[x] = y
                    else:
                        e.pop(x, None)
                e.pop(m, None)
                kk = k1 / ca + k2 / cb
                # normalise scale
                if e:
                    f = abs(next(iter(sorted(e.items(), key=lambda t: str(t[0]))))[1])
                    e = {x: c / f for x, c in e.items()}
                    kk = kk / f
                rest.add((frozenset(e.items()), kk, s1 or s2))
        # keep the tightest per direction
        best = {}
        for d, k, s in rest:
            o = best.get(d)
            if o is None or k > o[0] or (k == o[0] and s and not o[1]):
                best[d] = (k, s)
        cs = {(d, k, s) for d, (k, s) in best.items()}


class Zone:
    """a conjunction of linear literals (immutable list of constraints)"""

    def __init__(self, cons=(), axioms=None, diseq=()):
        self.cons = tuple(cons)
        self.diseq = tuple(diseq)
        self.axioms = axioms
        self._bad = None

    def add(self, key, val):
        p = key[1]
        if key[0] == 'lt0':
            return Zone(self.cons + (_con(p, True) if val else _con(-p, False),), self.axioms, self.diseq)
        if val:
            return Zone(self.cons + (_con(p, False), _con(-p, False)), self.axioms, self.diseq)
        return Zone(self.cons, self.axioms, self.diseq + (p,))

    def empty(self):
        if self._bad is None:
            self._bad = self._empty(self.cons, self.diseq)
        return self._bad

    def _empty(self, cons, diseq):
        cs = list(cons)
        ms = {m for d, k, s in cs for m in d}
        for p in diseq:
            ms |= {m for m in p.d if m}
        if self.axioms:
            for _ in range(2):
                ax = self.axioms(ms)
                cs = list(cons) + [_con(p, False) for p in ax]
                ms = ms | {m for d, k, s in cs for m in d}
        fl = [m[0][0] for m in ms if len(m) == 1 and m[0][1] == 1 and T.ATOMS[m[0][0]].kind == 'floor']
        if len(fl) <= 4:
            for a in sorted(fl):
                x = T.ATOMS[a].args[0]
                if isinstance(x, Num) and len(x.d) <= 4:
                    d = Num({((a, 1),): Fraction(1)}) - x
                    k = math.lcm(*[c.denominator for c in d.d.values()])
                    cs += [_con(d * k, False), _con((-d - 1) * k, True)]
                    ms = ms | {m for m in x.d if m}
        cs += _facts(ms, None)
        if infeasible(cs):
            return True
        for p in diseq[:4]:
            a = infeasible(cs + [_con(p, True)])
            if a and infeasible(cs + [_con(-p, True)]):
                return True
        return False


_MEMO = {}


def zsimp(f, axioms=None, z=None, budget=None):
    """f with theory-infeasible branches removed"""
    if f < 2:
        return f
    top = z is None
    if top:
        z = Zone((), axioms)
        budget = [4000]
    v, lo, hi = T.BDD.node[f]
    key = T.BDD.preds[v]
    if key[0] not in ('lt0', 'eq0'):
        a, b = zsimp(lo, axioms, z, budget), zsimp(hi, axioms, z, budget)
        return T.bite(T.BDD.mk(v, 0, 1), b, a)
    budget[0] -= 1
    if budget[0] < 0:
        return f
    zt, zf = z.add(key, True), z.add(key, False)
    if zt.empty():
        return zsimp(lo, axioms, zf if len(z.cons) < 12 else z, budget)
    if zf.empty():
        return zsimp(hi, axioms, zt if len(z.cons) < 12 else z, budget)
    a, b = zsimp(lo, axioms, zf, budget), zsimp(hi, axioms, zt, budget)
    return T.bite(T.BDD.mk(v, 0, 1), b, a)


def never(f, axioms=None):
    return zsimp(T.tsimp(f), axioms) == 0


def zequal(f, g, axioms=None):
    if f == g:
        return True
    return never(T.bxor(f, g), axioms)


def reduce_(f, axioms=None):
    """drop literals on which f does not depend modulo the theory"""
    f = zsimp(T.tsimp(f), axioms)
    ch = True
    while ch and f > 1:
        ch = False
        sup = T.BDD.support(f)
        if len(sup) > 8:
            break
        for v in sup:
            for val in (True, False):
                g = T.restrict_lit(f, v, val)
                if g != f and zequal(f, g, axioms):
                    f = g
                    ch = True
                    break
            if ch:
                break
    return f


def implies(f, g, axioms=None):
    return never(T.band(f, T.bnot(g)), axioms)
