"""Canonical value terms used by the abstract interpreters.

A numeric value is a Laurent polynomial with rational coefficients over hash-consed *atoms*;
a boolean value is an ROBDD over hash-consed *predicate* atoms.  An if-then-else on numbers is
b + [c]*(a-b) where [c] is the 0/1 'bit' atom of the BDD c.  Floor division, remainder, shifts
and constant masks all reduce to polynomials over 'floor' atoms, so e.g. (hi<<22)+(lo>>10) and
((hi<<32)|lo)>>10 have one normal form.  Nothing in here runs the analysed program.
"""
from fractions import Fraction
from math import gcd
import random, hashlib

# ---------------------------------------------------------------- BDD
FALSE, TRUE = 0, 1


class _Bdd:
    def __init__(self):
        self.reset()

    def reset(self):
        self.node = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
        self.uniq = {}
        self.memo = {}
        self.preds = []          # var -> predicate key tuple
        self.predid = {}

    def var(self, key):
        v = self.predid.get(key)
        if v is None:
            v = len(self.preds)
            self.preds.append(key)
            self.predid[key] = v
        return self.mk(v, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.node)
            self.node.append(k)
            self.uniq[k] = r
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        n = self.node
        v = min(n[f][0], n[g][0], n[h][0])

        def co(x, b):
            t = n[x]
            return (t[2] if b else t[1]) if t[0] == v else x
        r = self.mk(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.memo[k] = r
        return r

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, a, b = self.node[x]
            out.add(v)
            st += [a, b]
        return out

    def restrict(self, f, c):
        """Coudert-Madre restrict: simplify f assuming c."""
        if c == 0:
            return f
        if c == 1 or f < 2:
            return f
        k = ('r', f, c)
        r = self.memo.get(k)
        if r is not None:
            return r
        vf, f0, f1 = self.node[f]
        vc, c0, c1 = self.node[c]
        if vc < vf:
            r = self.restrict(f, self.ite(c0, 1, c1))
        elif vc == vf:
            if c0 == 0:
                r = self.restrict(f1, c1)
            elif c1 == 0:
                r = self.restrict(f0, c0)
            else:
                r = self.mk(vf, self.restrict(f0, c0), self.restrict(f1, c1))
        else:
            r = self.mk(vf, self.restrict(f0, c), self.restrict(f1, c))
        self.memo[k] = r
        return r


BDD = _Bdd()


def band(*xs):
    r = 1
    for x in xs:
        r = BDD.ite(r, x, 0)
    return r


def bor(*xs):
    r = 0
    for x in xs:
        r = BDD.ite(r, 1, x)
    return r


def bnot(x):
    return BDD.ite(x, 0, 1)


def bxor(a, b):
    return BDD.ite(a, bnot(b), b)


def bite(c, a, b):
    return BDD.ite(c, a, b)


def implies(a, b):
    return band(a, bnot(b)) == 0


def restrict(f, c):
    return BDD.restrict(f, c)


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'isint')

    def __repr__(self):
        return show_atom(self)


ATOMS = []
_ATOMKEY = {}


_LEAF = {}
FACTS = {}        # exit predicate -> what holds at the exit of its loop


AFACTS = {}       # atom id -> what holds of its value whenever it is defined


def atom_facts(xs):
    r = 1
    if AFACTS:
        for x in xs:
            for a in walk(x):
                f = AFACTS.get(getattr(a, 'id', None))
                if f is not None:
                    r = band(r, f)
    return r


def facts(*bs):
    """facts about the loop exits that the predicates mention"""
    r = 1
    for v in set().union(*(BDD.support(b) for b in bs)):
        if v in FACTS:
            r = band(r, FACTS[v])
    return r


def reset():
    BDD.reset()
    FACTS.clear()
    AFACTS.clear()
    _LEAF.clear()
    ATOMS.clear()
    _DEPS.clear()
    _ATOMKEY.clear()
    LOOPS.clear()
    _LOOPKEY.clear()
    _TS.clear()


def _mkatom(kind, args, isint=False, lo=None, hi=None):
    k = (kind, args)
    a = _ATOMKEY.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.args, a.lo, a.hi, a.isint = kind, args, lo, hi, isint
        ATOMS.append(a)
        _ATOMKEY[k] = a
    return a


class Num:
    __slots__ = ('d', '_h', '_r', '_k')

    def __init__(self, d):
        self.d = d
        self._h = None
        self._r = None
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Num) and self.d == o.d

    def __repr__(self):
        return show(self)

    def ev(self, val):
        return ev(self, val)

    # arithmetic
    def __add__(self, o):
        o = num(o)
        d = dict(self.d)
        for m, c in o.d.items():
            x = d.get(m, 0) + c
            if x:
                d[m] = x
            else:
                d.pop(m, None)
        return Num(d)
    __radd__ = __add__

    def __neg__(self):
        return Num({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-num(o))

    def __rsub__(self, o):
        return num(o) - self

    def __mul__(self, o):
        if isinstance(o, (int, Fraction)):
            return Num({m: c * o for m, c in self.d.items()}) if o else ZERO
        o = num(o)
        if len(o.d) > len(self.d):
            self, o = o, self
        d = {}
        for m2, c2 in o.d.items():
            for m1, c1 in self.d.items():
                m = mono_mul(m1, m2)
                if m is None:
                    continue
                x = d.get(m, 0) + c1 * c2
                if x:
                    d[m] = x
                else:
                    d.pop(m, None)
        return Num(d)
    __rmul__ = __mul__

    def const(self):
        """The rational value if constant, else None."""
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m:
                s.add(a)
        return s

    def bits(self):
        return [ATOMS[a] for a in sorted(self.atoms()) if ATOMS[a].kind == 'bit']


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    e = dict(m1)
    for a, k in m2:
        e[a] = e.get(a, 0) + k
    conj = None
    nb = 0
    for a in list(e):
        if e[a] == 0:
            del e[a]
            continue
        if ATOMS[a].kind == 'bit':
            nb += 1
            b = ATOMS[a].args[0]
            conj = b if conj is None else band(conj, b)
            if nb > 1 or e[a] != 1:
                e[a] = 1
    if nb > 1:
        for a in list(e):
            if ATOMS[a].kind == 'bit':
                del e[a]
        if conj == 0:
            return None
        if conj != 1:
            e[_bitatom(conj).id] = 1
    return tuple(sorted(e.items()))


def _bitatom(b):
    return _mkatom('bit', (b,), True, 0, 1)


ZERO = Num({})
ONE = Num({(): Fraction(1)})


def num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return Num({(): Fraction(x)}) if x else ZERO
    if isinstance(x, float):
        return num(Fraction(repr(x)))
    raise TypeError(repr(x))


def of_atom(a):
    return Num({((a.id, 1),): Fraction(1)})


def sym(name, isint=True, lo=None, hi=None):
    return of_atom(_mkatom('sym', (name, isint, lo, hi), isint, lo, hi))


def bit(b):
    if b == 0:
        return ZERO
    if b == 1:
        return ONE
    return of_atom(_bitatom(b))


def isbit(p):
    """BDD id when p is syntactically a 0/1 indicator, else None."""
    c = p.const()
    if c is not None:
        return {0: 0, 1: 1}.get(c)
    if len(p.d) == 1:
        (m, k), = p.d.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'bit':
            return ATOMS[m[0][0]].args[0]
    return None


def fn(name, *args, isint=False, lo=None, hi=None):
    """Function application atom.  Bits occurring in numeric args are hoisted (case split)."""
    for i, a in enumerate(args):
        if isinstance(a, Num):
            bs = a.bits()
            if bs:
                return map_cases(a, lambda leaf, i=i: fn(name, *args[:i], leaf, *args[i + 1:],
                                                         isint=isint, lo=lo, hi=hi))
    return of_atom(_mkatom('fn', (name,) + args, isint, lo, hi))


# ---------------------------------------------------------------- case splits
class TooBig(Exception):
    pass


def sub_bits(p, f):
    """Replace every bit atom [g] by f(g) (a BDD id)."""
    if not p.bits():
        return p
    out = {}
    res = ZERO
    for m, c in p.d.items():
        t = Num({(): c})
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'bit':
                t = t * bit(f(at.args[0]))
            else:
                t = t * Num({((a, e),): Fraction(1)})
        res = res + t
    return res


def cases(p, cond=1, budget=64):
    """[(cond, bit-free poly)] partition of cond."""
    out = []
    stack = [(cond, p)]
    while stack:
        c, q = stack.pop()
        if c == 0:
            continue
        bs = q.bits()
        if not bs:
            out.append((c, q))
            if len(out) > budget:
                raise TooBig()
            continue
        f = bs[0].args[0]
        c1, c0 = band(c, f), band(c, bnot(f))
        q = sub_bits(q, lambda g: restrict(g, c))
        bs = q.bits()
        if not bs:
            stack.append((c, q))
            continue
        f = bs[0].args[0]
        # split on one BDD variable of f so that it terminates
        v = BDD.node[f][0]
        x = BDD.mk(v, 0, 1)
        stack.append((band(c, bnot(x)), sub_bits(q, lambda g: restrict(g, bnot(x)))))
        stack.append((band(c, x), sub_bits(q, lambda g: restrict(g, x))))
    return out


def from_cases(cs):
    """Canonical polynomial of a case partition."""
    by = {}
    for c, q in cs:
        by[q] = bor(by.get(q, 0), c)
    if len(by) == 1:
        return next(iter(by))
    items = sorted(by.items(), key=lambda kv: kv[0].key())
    ref = items[0][0]
    r = ref
    for q, c in items[1:]:
        r = r + bit(c) * (q - ref)
    return r


def map_cases(p, f):
    if not p.bits():
        return f(p)
    cs = cases(p)
    return from_cases([(c, f(q)) for c, q in cs])


def canon(p):
    if not p.bits():
        return p
    try:
        return from_cases(cases(p))
    except TooBig:
        return p


def exact_in(p, bits):
    """p provably representable with a 'bits'-bit significand (dyadic rational)"""
    c = p.const()
    if c is not None:
        d = c.denominator
        return d & (d - 1) == 0 and abs(c.numerator).bit_length() <= bits
    if p.bits():
        try:
            return all(exact_in(q, bits) for _, q in cases(p, budget=16))
        except TooBig:
            return False
    D = 1
    for m, c in p.d.items():
        D = D * c.denominator // gcd(D, c.denominator)
        for a, e in m:
            if e < 0 or not ATOMS[a].isint:
                return False
    if D & (D - 1):
        return False
    # common power of two of all terms: the value is 2^k times an integer
    G = min(((c.numerator * (D // c.denominator)) & -(c.numerator * (D // c.denominator)))
            for c in p.d.values())
    r = rng(p)
    return r[0] is not None and r[1] is not None and max(abs(r[0]), abs(r[1])) * D <= G * 2 ** bits


ROUND = {'round32': 24, 'round64': 53, 'round80': 64}


def roundto(name, p):
    """p rounded to the nearest value with the given significand; exact cases, power-of-two scaling,
    sign and repeated rounding are normalised away (exponent range taken as unbounded)"""
    if p.bits():
        return map_cases(p, lambda q: roundto(name, q))
    if exact_in(p, ROUND[name]):
        return p
    k = None
    for c in p.d.values():
        n, d = abs(c.numerator), c.denominator
        e = (n & -n).bit_length() - (d & -d).bit_length()
        k = e if k is None else min(k, e)
    sc = Fraction(2) ** k
    if p.d[max(p.d)] < 0:
        sc = -sc
    q = p * (1 / sc)
    if len(q.d) == 1:
        (m, c), = q.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.kind == 'fn' and ROUND.get(at.args[0], 999) <= ROUND[name]:
                return p
    return sc * fn(name, q, isint=isint(q), lo=0 if nonneg(q) else None)


def ite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    a = sub_bits(a, lambda g: restrict(g, c))
    b = sub_bits(b, lambda g: restrict(g, bnot(c)))
    if a == b:
        return a
    return b + bit(c) * (a - b)


def _predleaf(v):
    """(atom, bitmask of its values satisfying predicate v) when v depends on one small integer only"""
    r = _LEAF.get(v)
    if r is not None and r[0] is BDD.preds[v]:
        return r[1]
    key = BDD.preds[v]
    out = None
    if key[0] in ('lt0', 'eq0'):
        leaf = set()
        st, seen = [key[1]], set()
        while st and leaf is not None:
            p = st.pop()
            for a in p.atoms():
                if a in seen:
                    continue
                seen.add(a)
                at = ATOMS[a]
                if at.isint and at.lo is not None and at.hi is not None and at.hi - at.lo < 1024 and at.kind in ('fn', 'sym'):
                    leaf.add(a)
                elif at.kind == 'floor':
                    st.append(at.args[0])
                else:
                    leaf = None
                    break
        if leaf is not None and len(leaf) == 1:
            A = ATOMS[leaf.pop()]
            m = 0
            for x in range(int(A.lo), int(A.hi) + 1):
                c = subst(key[1], lambda at: num(x) if at.id == A.id else None).const()
                if c is None:
                    m = None
                    break
                if c < 0 if key[0] == 'lt0' else c == 0:
                    m |= 1 << (x - int(A.lo))
            if m is not None:
                out = (A, m)
    _LEAF[v] = (BDD.preds[v], out)
    return out


def smallset(b):
    """(atom, bitmask of the values satisfying b) when b depends on one small integer only, else None"""
    A = None
    for v in BDD.support(b):
        x = _predleaf(v)
        if x is None or (A is not None and x[0] is not A):
            return None
        A = x[0]
    if A is None:
        return None
    full = (1 << int(A.hi - A.lo + 1)) - 1
    memo = {0: 0, 1: full}

    def g(f):
        r = memo.get(f)
        if r is None:
            v, lo, hi = BDD.node[f]
            m = _predleaf(v)[1]
            r = memo[f] = (m & g(hi)) | (full & ~m & g(lo))
        return r
    return A, g(b), full


def vanishes(b):
    if b < 2:
        return b == 0
    if tsimp(b) == 0:
        return True
    s = smallset(b)
    return s is not None and s[1] == 0


def under(p, c, pc=1):
    """p simplified where c (and pc) holds, using what equalities and orders imply about each other"""
    A = smallset(c)
    for v in sorted(BDD.support(pc), reverse=True):
        x = _predleaf(v)
        if A is None or x is None or x[0] is not A[0]:
            pc = bor(_cof(pc, v, 0), _cof(pc, v, 1))
    c = band(c, pc)
    if not p.bits() or c == 1:
        return p

    def g(f):
        if f <= 1:
            return f
        if vanishes(band(f, c)):
            return 0
        if vanishes(band(bnot(f), c)):
            return 1
        return restrict(f, c)
    return sub_bits(p, g)


# ---------------------------------------------------------------- ranges
def _mulr(r, s):
    def m(x, y):
        if x == 0 or y == 0:
            return 0
        return x * y
    vals = []
    INF = float('inf')
    a = [(-INF if r[0] is None else r[0]), (INF if r[1] is None else r[1])]
    b = [(-INF if s[0] is None else s[0]), (INF if s[1] is None else s[1])]
    for x in a:
        for y in b:
            vals.append(m(x, y))
    lo, hi = min(vals), max(vals)
    return (None if lo == -INF else lo, None if hi == INF else hi)


def rng(p):
    if p._r is not None:
        return p._r
    bs = p.bits()
    if bs and len(bs) <= 6 and len(p.d) <= 80:
        try:
            lo, hi = [], []
            for c, q in cases(p, budget=24):
                l, h = rng(q)
                lo.append(l)
                hi.append(h)
            r = (None if None in lo else min(lo), None if None in hi else max(hi))
            p._r = r
            return r
        except TooBig:
            pass
    lo = hi = 0
    for m, c in p.d.items():
        r = (1, 1)
        for a, e in m:
            at = ATOMS[a]
            if e < 0:
                if at.lo is not None and at.lo > 0:
                    x = (0 if at.hi is None else Fraction(1) / at.hi, Fraction(1) / at.lo)
                    for _ in range(-e):
                        r = _mulr(r, x)
                else:
                    r = (None, None)
                continue
            x = (at.lo, at.hi)
            if e % 2 == 0 and e > 0:
                y = _mulr(x, x)
                if x[0] is None or x[0] < 0:
                    y = (0, None if (x[0] is None or x[1] is None) else max(x[0] * x[0], x[1] * x[1]))
                for _ in range(e // 2):
                    r = _mulr(r, y)
            else:
                for _ in range(e):
                    r = _mulr(r, x)
        r = _mulr(r, (c, c))
        lo = None if lo is None or r[0] is None else lo + r[0]
        hi = None if hi is None or r[1] is None else hi + r[1]
    r = (lo, hi)
    p._r = r
    r = _rng_floor(p, r, 0)
    if isint(p):
        r = (None if r[0] is None else Fraction(-((-r[0]) // 1)), None if r[1] is None else Fraction(r[1] // 1))
    p._r = r
    return r


def _den(R):
    D = 1
    for m, c in R.d.items():
        D = D * c.denominator // gcd(D, c.denominator)
        for a, e in m:
            if e < 0 or not ATOMS[a].isint:
                return None
    return D


def _isect(r, s):
    lo = s[0] if r[0] is None else r[0] if s[0] is None else max(r[0], s[0])
    hi = s[1] if r[1] is None else r[1] if s[1] is None else min(r[1], s[1])
    return (lo, hi)


def _rng_floor(p, r, depth):
    """tighten using k*floor(R) = k*R - k*frac, frac in [0,1)"""
    if depth > 3:
        return r
    for m, k in p.d.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'floor':
            R = ATOMS[m[0][0]].args[0]
            q = p - Num({m: k}) + R * k
            if len(q.d) <= len(p.d):
                qr = rng(q)
                D = _den(R)
                fmax = Fraction(D - 1, D) if D else Fraction(1)
                er = sorted((Fraction(0), -k * fmax))
                s = (None if qr[0] is None else qr[0] + er[0], None if qr[1] is None else qr[1] + er[1])
                r = _isect(r, s)
            for m2, k2 in p.d.items():          # two floors of the same quantity at different scales
                if m2 > m and len(m2) == 1 and m2[0][1] == 1 and ATOMS[m2[0][0]].kind == 'floor':
                    R2 = ATOMS[m2[0][0]].args[0]
                    if len(R.d) > 1 and len(R.d) == len(R2.d):
                        q2 = q - Num({m2: k2}) + R2 * k2
                        if len(q2.d) <= len(p.d) - 2:
                            qr = rng(q2)
                            lo_, hi_ = qr
                            for k_, R_ in ((k, R), (k2, R2)):
                                D = _den(R_)
                                f_ = -k_ * (Fraction(D - 1, D) if D else Fraction(1))
                                lo_ = None if lo_ is None else lo_ + min(f_, 0)
                                hi_ = None if hi_ is None else hi_ + max(f_, 0)
                            r = _isect(r, (lo_, hi_))
        # symbolic modulus: x - M*floor(x/M), M > 0
        elif k < 0 and any(ATOMS[a].kind == 'floor' and e == 1 for a, e in m):
            fa = [a for a, e in m if ATOMS[a].kind == 'floor' and e == 1][0]
            M = Num({tuple(x for x in m if x[0] != fa): -k})
            q = p + M * of_atom(ATOMS[fa]) - M * ATOMS[fa].args[0]
            if not q.d:
                mr = rng(M)
                if mr[0] is not None and mr[0] >= 0:
                    r = _isect(r, (0, mr[1] - 1 if (mr[1] is not None and isint(M) and isint(p)) else mr[1]))
    return r


def isint(p):
    for m, c in p.d.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not ATOMS[a].isint:
                return False
    return True


def nonneg(p):
    r = rng(p)
    return r[0] is not None and r[0] >= 0


def multiple_of(p, k):
    """p provably an integer multiple of k."""
    for m, c in p.d.items():
        if c.denominator != 1 or c.numerator % k:
            return False
        for a, e in m:
            if e < 0 or not ATOMS[a].isint:
                return False
    return True


# ---------------------------------------------------------------- floor & friends
def _fl(x):
    return x.numerator // x.denominator


def floor(p):
    if p.bits():
        return map_cases(p, floor)
    ip, fr = {}, {}
    for m, c in p.d.items():
        im = all(e > 0 and ATOMS[a].isint for a, e in m)
        if im:
            k = _fl(c)
            f = c - k
            if f > Fraction(1, 2):
                f -= 1
                k += 1
            if k:
                ip[m] = Fraction(k)
            if f:
                fr[m] = f
        else:
            fr[m] = c
    I, R = Num(ip), Num(fr)
    if not R.d:
        return I
    # constant offset handled: integer part of const already moved
    r = rng(R)
    if r[0] is not None and r[1] is not None and _fl(Fraction(r[0])) == _fl(Fraction(r[1])):
        return I + _fl(Fraction(r[0]))
    allint = all(e > 0 and ATOMS[a].isint for m in R.d for a, e in m)
    if allint:
        D = 1
        for c in R.d.values():
            D = D * c.denominator // gcd(D, c.denominator)
        N = {m: int(c * D) for m, c in R.d.items()}
        # drop-low rule
        gs = set()
        vals = sorted({abs(c) for c in N.values()})
        for c in vals:
            g = gcd(c, D)
            if g > 1:
                gs.add(g)
        for g in sorted(gs):
            hi = {m: Fraction(c) for m, c in N.items() if c % g == 0}
            lo = {m: Fraction(c) for m, c in N.items() if c % g}
            if not lo:
                continue
            lr = rng(Num(lo))
            if lr[0] is None or lr[1] is None or _fl(Fraction(lr[0]) / g) != _fl(Fraction(lr[1]) / g):
                for m in list(hi):
                    if len(m) == 1 and ATOMS[m[0][0]].kind == 'floor':
                        t = dict(lo)
                        t[m] = hi[m]
                        tr = rng(Num(t))
                        if tr[0] is not None and tr[1] is not None and _fl(Fraction(tr[0]) / g) == _fl(Fraction(tr[1]) / g):
                            lo, lr = t, tr
                            del hi[m]
                            break
            if lr[0] is not None and lr[1] is not None and _fl(Fraction(lr[0]) / g) == _fl(Fraction(lr[1]) / g):
                k = _fl(Fraction(lr[0]) / g)
                return I + floor((Num(hi) * Fraction(1, g) + k) * Fraction(g, D))
        # nested floor: (F(x)+Y)/D -> (x+Y)/D ; also sign -1 not handled
        for m, c in N.items():
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                at = ATOMS[m[0][0]]
                if at.kind == 'floor':
                    Y = Num({k: Fraction(v) for k, v in N.items() if k != m})
                    if isint(Y):
                        return I + floor((at.args[0] + Y) * Fraction(1, D))
    if allint:
        lm = [m for m in R.d if m]
        if R.d.get(()) == Fraction(1, 2) and all(abs(R.d[m]) == Fraction(1, 2) for m in lm):
            X = (R - Fraction(1, 2)) * 2
            return I + X - floor(X * Fraction(1, 2))
        if lm and R.d[max(lm)] < 0:
            return I - floor(-R + Fraction(D - 1, D))
    else:
        G = {}
        for m in R.d:
            for a, e in m:
                if e < 0:
                    G[a] = max(G.get(a, 0), -e)
        if G and all(ATOMS[a].isint and ATOMS[a].lo is not None and ATOMS[a].lo >= 1 for a in G):
            g = Num({tuple(sorted(G.items())): Fraction(1)})
            gi = Num({tuple(sorted((a, -e) for a, e in G.items())): Fraction(1)})
            q = R * g
            if all(e > 0 and ATOMS[a].isint for m in q.d for a, e in m):
                q2 = floor(q)
                if q2 != q and not (q2 - q).bits():
                    return I + floor(q2 * gi)
                lm = [m for m in q.d if m and m not in g.d]
                if isint(q) and lm and q.d[max(lm)] < 0:
                    return I - floor((g - q - 1) * gi)
    lo = None if r[0] is None else _fl(Fraction(r[0]))
    hi = None if r[1] is None else _fl(Fraction(r[1]))
    return I + of_atom(_mkatom('floor', (R,), True, lo, hi))


def floordiv(a, b):
    c = b.const()
    if c is not None and c != 0:
        return floor(a * (Fraction(1) / c))
    return floor(div(a, b))


def mod(a, b):
    return a - b * floordiv(a, b)


def trunc(a):
    if isint(a):
        return a
    if nonneg(a):
        return floor(a)
    c = lt0(a)
    return ite(c, -floor(-a), floor(a))


def div(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            return fn('div0', a)
        return a * (Fraction(1) / c)
    if b.bits():
        return map_cases(b, lambda q: div(a, q))
    if len(b.d) == 1:
        (m, c), = b.d.items()
        return a * Num({tuple((x, -e) for x, e in m): Fraction(1) / c})
    # scalar multiple?
    if a.d and set(a.d) == set(b.d):
        k = None
        for m in a.d:
            r = a.d[m] / b.d[m]
            if k is None:
                k = r
            elif k != r:
                k = None
                break
        if k is not None:
            return num(k)
    lead = b.d[max(b.d)]
    bb = b * (Fraction(1) / lead)
    at = _mkatom('inv', (bb,), False, None, None)
    return a * of_atom(at) * (Fraction(1) / lead)


def pow2(e):
    c = e.const()
    if c is not None and c.denominator == 1:
        return num(Fraction(2) ** int(c))
    if e.bits():
        return map_cases(e, pow2)
    k = e.d.get((), Fraction(0))
    kk = _fl(k)
    rest = e - kk
    nn = nonneg(rest) and isint(rest)
    r = rng(rest)
    lo = 1 if nonneg(rest) else 0
    hi = None
    if r[1] is not None and r[1] < 4096 and Fraction(r[1]).denominator == 1:
        hi = Fraction(2) ** int(r[1])
    if nn and r[0] < 4096:
        lo = Fraction(2) ** int(r[0])
    # product form: 2^(a+b) = 2^a 2^b, 2^-a = inverse
    res = num(Fraction(2) ** kk)
    out = {}
    for m, c in rest.d.items():
        t = Num({m: Fraction(1)})
        if c.denominator == 1:
            tr = rng(t)
            L = 0
            if isint(t) and tr[0] is not None and 0 <= tr[0] < 4096:
                # 2^t with t >= L is 2^L times an integer power
                L = int(tr[0])
                res = res * num(Fraction(2) ** (L * int(c)))
            tlo = thi = None
            if isint(t) and tr[0] is not None and 0 <= tr[0] < 4096:
                tlo = Fraction(2) ** (int(tr[0]) - L)
            if isint(t) and tr[1] is not None and tr[1] < 4096:
                thi = Fraction(2) ** (int(tr[1]) - L)
            at = _mkatom('pow2', (t - L,), isint(t) and tr[0] is not None and tr[0] >= 0, tlo or 0, thi)
            res = res * Num({((at.id, int(c)),): Fraction(1)})
        else:
            at = _mkatom('pow2', (Num({m: c}),), False, 0, None)
            res = res * of_atom(at)
    return res


def power(a, b):
    c = a.const()
    e = b.const()
    if c == 2:
        return pow2(b)
    if e is not None and e.denominator == 1:
        e = int(e)
        if c is not None and c != 0:
            return num(c ** e)
        if 0 <= e <= 8:
            r = ONE
            for _ in range(e):
                r = r * a
            return r
        if e < 0:
            return div(ONE, power(a, num(-e)))
    return fn('pow', a, b)


def shl(a, n):
    return a * pow2(n)


def shr(a, n):
    c = n.const()
    if c is not None:
        return floor(a * Fraction(1, 2 ** int(c)))
    if n.bits():
        return map_cases(n, lambda q: shr(a, q))
    return floor(a * pow2(-n))


def bitand(a, b):
    if a.const() is not None:
        a, b = b, a
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return num(int(ca) & int(cb))
    if a.bits():
        return map_cases(a, lambda q: bitand(q, b))
    if b.bits():
        return map_cases(b, lambda q: bitand(a, q))
    if cb is not None:
        k = int(cb)
        if k < 0:
            return a - bitand(a, num(~k))
        res = ZERO
        pos = 0
        while k:
            while not k & 1:
                k >>= 1
                pos += 1
            st = pos
            while k & 1:
                k >>= 1
                pos += 1
            res = res + mod(a, num(1 << pos)) - mod(a, num(1 << st))
        return res
    if a == b:
        return a
    # mask of the form 2^k-1 with symbolic k
    for x, y in ((a, b), (b, a)):
        z = y + 1
        if len(z.d) == 1:
            (m, c), = z.d.items()
            if c > 0 and (int(c) & (int(c) - 1)) == 0 and c.denominator == 1 and \
                    all(ATOMS[q].kind == 'pow2' for q, e in m):
                return mod(x, z)
    # disjoint: multiple of 2^k and 0<=other<2^k
    for x, y in ((a, b), (b, a)):
        r = rng(y)
        if r[0] is not None and r[0] >= 0 and r[1] is not None:
            k = int(r[1]).bit_length()
            if multiple_of(x, 1 << k):
                return ZERO
    if a.key() > b.key():
        a, b = b, a
    lo = 0 if (nonneg(a) or nonneg(b)) else None
    his = [rng(x)[1] for x in (a, b) if nonneg(x) and rng(x)[1] is not None]
    return of_atom(_mkatom('fn', ('band', a, b), True, lo, min(his) if his else None))


def bitor(a, b):
    return a + b - bitand(a, b)


def bitxor(a, b):
    return a + b - 2 * bitand(a, b)


def wrap_u(p, n):
    r = rng(p)
    if isint(p) and r[0] is not None and r[0] >= 0 and r[1] is not None and r[1] < (1 << n):
        return p
    return mod(p, num(1 << n))


def wrap_s(p, n):
    r = rng(p)
    h = 1 << (n - 1)
    if r[0] is not None and r[0] >= -h and r[1] is not None and r[1] < h:
        return p
    return p - (1 << n) * floor((p + h) * Fraction(1, 1 << n))


def absv(p):
    if nonneg(p):
        return p
    r = rng(p)
    if r[1] is not None and r[1] <= 0:
        return -p
    return map_cases(p, lambda q: ite(lt0(q), -q, q))


def minv(a, b):
    return ite(lt0(b - a), b, a)


def maxv(a, b):
    return ite(lt0(a - b), b, a)


# ---------------------------------------------------------------- comparisons
def _prim(p, intp):
    """scale p so that coefficients are coprime integers when possible."""
    g = 0
    L = 1
    for m, c in p.d.items():
        L = L * c.denominator // gcd(L, c.denominator)
    for m, c in p.d.items():
        g = gcd(g, abs(int(c * L)))
    return p * Fraction(L, g)


def _lead_neg(p):
    ms = [m for m in p.d if m]
    return p.d[max(ms)] < 0


REWRITERS = []   # hooks: f(kind, Num) -> bdd or None


def lt0(p):
    """p < 0"""
    p_ = p
    if p.bits():
        r = 0
        for c, q in cases(p):
            r = bor(r, band(c, lt0(q)))
        return tsimp(r)
    c = p.const()
    if c is not None:
        return int(c < 0)
    r = rng(p)
    if r[1] is not None and r[1] < 0:
        return 1
    if r[0] is not None and r[0] >= 0:
        return 0
    for w in REWRITERS:
        x = w('lt0', p)
        if x is not None:
            return x
    p = _clear(p)
    intp = all(all(e > 0 and ATOMS[a].isint for a, e in m) for m in p.d)
    p = _prim(p, intp)
    if intp:
        # divide by gcd of non-constant coefficients, tighten constant
        g = 0
        for m, c in p.d.items():
            if m:
                g = gcd(g, abs(int(c)))
        k = p.d.get((), Fraction(0))
        q = Num({m: c / g for m, c in p.d.items() if m})
        # g*q + k < 0  <=> q < -k/g <=> q <= ceil(-k/g)-1 <=> q - ceil(-k/g) < 0
        cc = -_fl(k / g)
        q = q - cc
        # floor atoms: floor(x) + c < 0  <=> x + c < 0 ; -floor(x)+c<0 <=> floor(x) > c <=> x>=c+1
        q2 = _unfloor(q)
        if q2 is not None:
            return q2
        if _lead_neg(q):
            return bnot(BDD.var(('lt0', -q - 1)))
        return BDD.var(('lt0', q))
    if _lead_neg(p):
        return band(bnot(lt0(-p)), bnot(eq0(p)))
    return BDD.var(('lt0', p))


def _unfloor(q):
    fs = [(m, c) for m, c in q.d.items() if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'floor'
          and abs(c) == 1]
    if len(fs) != 1:
        return None
    m, c = fs[0]
    x = ATOMS[m[0][0]].args[0]
    rest = Num({k: v for k, v in q.d.items() if k != m})
    if not isint(rest):
        return None
    if c == 1:
        return lt0(x + rest)
    # rest - floor(x) < 0 <=> floor(x) >= rest+1 <=> x >= rest+1
    return bnot(lt0(x - rest - 1))


def _clear(p):
    """multiply by known-positive denominators (negative exponents of positive atoms)."""
    for _ in range(8):
        neg = None
        for m in p.d:
            for a, e in m:
                if e < 0 and ATOMS[a].lo is not None and ATOMS[a].lo >= 0 and ATOMS[a].kind != 'bit':
                    neg = (a, -e)
        if neg is None:
            return p
        p = p * Num({(neg,): Fraction(1)})
    return p


def _nonneg_parts(p):
    """the monomials of a sum of terms none of which can be negative, or None"""
    r = []
    for m, c in p.d.items():
        if c < 0 or not all(e > 0 and (ATOMS[a].kind == 'bit' or ATOMS[a].lo is not None and ATOMS[a].lo >= 0) for a, e in m):
            return None
        r.append((m, c))
    return r


def eq0(p):
    if len(p.bits()) > 6:
        ps = _nonneg_parts(p)
        if ps is not None and len(ps) > 1:
            groups = {}
            for m, c in ps:
                groups.setdefault(frozenset(a for a, e in m if ATOMS[a].kind == 'bit'), []).append((m, c))
            return band(*[eq0(Num(dict(g))) for g in groups.values()])
    if p.bits():
        r = 0
        for c, q in cases(p):
            r = bor(r, band(c, eq0(q)))
        return tsimp(r)
    c = p.const()
    if c is not None:
        return int(c == 0)
    r = rng(p)
    if (r[0] is not None and r[0] > 0) or (r[1] is not None and r[1] < 0):
        return 0
    if is_zero(p):
        return 1
    for w in REWRITERS:
        x = w('eq0', p)
        if x is not None:
            return x
    intp = all(all(e > 0 and ATOMS[a].isint for a, e in m) for m in p.d)
    p = _clear(p)
    p = _prim(p, intp)
    if intp:
        g = 0
        for m, c in p.d.items():
            if m:
                g = gcd(g, abs(int(c)))
        if p.d.get((), Fraction(0)) % g:
            return 0
        # x>=0 : x==0 <=> x<1
        if r[0] is not None and r[0] == 0:
            return lt0(p - 1)
        if r[1] is not None and r[1] == 0:
            return lt0(-p - 1)
    if _lead_neg(p):
        p = -p
    return BDD.var(('eq0', p))


def le0(p):
    if all(c.denominator == 1 and all(e > 0 and ATOMS[a].isint for a, e in m) for m, c in p.d.items()):
        return lt0(p - 1)
    return bnot(lt0(-p))


def lt(a, b):
    return lt0(a - b)


def le(a, b):
    return bnot(lt0(b - a))


def eq(a, b):
    return eq0(a - b)


def bpred(name, *args):
    """opaque boolean predicate"""
    return BDD.var(('pred', name) + args)


# ---------------------------------------------------------------- zero test
def is_zero(p):
    if not p.d:
        return True
    if p.bits():
        try:
            return all(is_zero(q) for c, q in cases(p, budget=256))
        except TooBig:
            return False
    # clear denominators: inv atoms
    for _ in range(6):
        inv = None
        for m in p.d:
            for a, e in m:
                if ATOMS[a].kind == 'inv':
                    inv = a
        if inv is None:
            break
        q = ATOMS[inv].args[0]
        k = max(e for m in p.d for a, e in m if a == inv)
        res = ZERO
        for m, c in p.d.items():
            e = dict(m).get(inv, 0)
            t = Num({tuple(x for x in m if x[0] != inv): c})
            for _ in range(k - e):
                t = t * q
            res = res + t
        p = res
        if not p.d:
            return True
    return not p.d


def same(a, b):
    return a == b or is_zero(a - b)


# ---------------------------------------------------------------- loops (filled by seqs.py)
LOOPS = []
_LOOPKEY = {}


# ---------------------------------------------------------------- substitution
def subst(p, f, memo=None):
    """Substitute atoms: f(atom) -> Num or None.  Rebuilds through smart constructors."""
    if memo is None:
        memo = {}
    if isinstance(p, Num):
        k = ('n', p)
        r = memo.get(k)
        if r is not None:
            return r
        res = ZERO
        for m, c in p.d.items():
            t = Num({(): c})
            for a, e in m:
                x = subst_atom(ATOMS[a], f, memo)
                if e > 0:
                    for _ in range(e):
                        t = t * x
                else:
                    for _ in range(-e):
                        t = div(t, x)
            res = res + t
        memo[k] = res
        return res
    if isinstance(p, tuple):
        return tuple(subst(x, f, memo) for x in p)
    if hasattr(p, 'subst'):
        return p.subst(f, memo)
    return p


def subst_atom(at, f, memo):
    k = ('a', at.id)
    r = memo.get(k)
    if r is not None:
        return r
    x = f(at)
    if x is None:
        kd = at.kind
        if kd in ('sym', 'mu'):
            x = of_atom(at)
        elif kd == 'bit':
            x = bit(subst_bool(at.args[0], f, memo))
        elif kd == 'floor':
            x = floor(subst(at.args[0], f, memo))
        elif kd == 'inv':
            x = div(ONE, subst(at.args[0], f, memo))
        elif kd == 'pow2':
            x = pow2(subst(at.args[0], f, memo))
        elif kd == 'fn':
            args = tuple(subst_arg(a, f, memo) for a in at.args[1:])
            if args == at.args[1:]:
                x = of_atom(at)
            else:
                x = REBUILD.get(at.args[0], None)
                if at.args[0] in ROUND:
                    x = roundto(at.args[0], args[0])
                elif x is not None:
                    x = x(at, *args)
                else:
                    x = fn(at.args[0], *args, isint=at.isint, lo=at.lo, hi=at.hi)
        else:
            raise TypeError(kd)
    memo[k] = x
    return x


class BArg:
    """boolean (BDD id) wrapped so that it can sit among fn args"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __hash__(self):
        return hash(('B', self.b))

    def __eq__(self, o):
        return isinstance(o, BArg) and o.b == self.b

    def __repr__(self):
        return 'B[' + showb(self.b) + ']'

    def subst(self, f, memo):
        return BArg(subst_bool(self.b, f, memo))

    def ev(self, val):
        return evb(self.b, val)


def subst_arg(a, f, memo):
    if isinstance(a, (Num, tuple)) or hasattr(a, 'subst'):
        return subst(a, f, memo)
    return a


REBUILD = {'band': lambda at, a, b: bitand(a, b)}


def subst_bool(b, f, memo=None):
    if memo is None:
        memo = {}
    if b < 2:
        return b
    k = ('b', b)
    r = memo.get(k)
    if r is not None:
        return r
    v, lo, hi = BDD.node[b]
    key = BDD.preds[v]
    x = subst_pred(key, f, memo)
    r = bite(x, subst_bool(hi, f, memo), subst_bool(lo, f, memo))
    memo[k] = r
    return r


def subst_pred(key, f, memo):
    if key[0] == 'lt0':
        return lt0(subst(key[1], f, memo))
    if key[0] == 'eq0':
        return eq0(subst(key[1], f, memo))
    if key[0] == 'pred':
        r = f(key) if getattr(f, 'preds', False) else None
        if r is not None:
            return r
        args = tuple(subst_arg(a, f, memo) for a in key[2:])
        if args == key[2:]:
            return BDD.var(key)
        rb = REBUILD_PRED.get(key[1])
        if rb:
            return rb(*args)
        return bpred(key[1], *args)
    raise TypeError(key)


REBUILD_PRED = {}


def walk(x, seen=None):
    """all atoms / predicate keys reachable from x"""
    if seen is None:
        seen = set()
    out = []
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, Num):
            for a in y.atoms():
                if ('a', a) not in seen:
                    seen.add(('a', a))
                    at = ATOMS[a]
                    out.append(at)
                    if at.kind == 'bit':
                        st.append(BArg(at.args[0]))
                    else:
                        st.extend(at.args)
        elif isinstance(y, BArg):
            for v in BDD.support(y.b):
                if ('p', v) not in seen:
                    seen.add(('p', v))
                    k = BDD.preds[v]
                    out.append(k)
                    st.extend(k[1:])
        elif isinstance(y, (tuple, list)):
            st.extend(y)
        elif hasattr(y, 'children'):
            if id(y) not in seen:
                seen.add(id(y))
                out.append(y)
                st.extend(y.children())
    return out


# ---------------------------------------------------------------- evaluation of terms
class Diverges(Exception):
    """a loop exceeded every bound its finite input can justify"""


class Undefined(Exception):
    pass


HINT = {}      # sampling range of unbounded counts (name -> upper bound); no part of any proof


class Valuation:
    def __init__(self, seed, assume=None, ints=None):
        self.seed = seed
        self.r = random.Random(seed)
        self.memo = {}
        self.fixed = dict(ints or {})     # name -> value
        self.env = {}                     # mu / index bindings (atom id -> value)
        self.steps = 0
        self.fns = {}                     # interpretation of declared inputs: name -> f(val, args)
        self.allowed = None               # uninterpreted names that may be given arbitrary values
        self.log = {}
        self.close = seed % 3 == 1
        self.longest = 60                 # sequences longer than this are not spelled out
        self.pool = ()                    # constants occurring in the compared terms

    def ok(self, name):
        if self.allowed is not None and name not in self.allowed and not str(name).startswith(('in:', 'call:')):
            raise Undefined('uninterpreted ' + str(name))

    def h(self, *k):
        return int.from_bytes(hashlib.blake2b(repr((self.seed,) + k).encode(), digest_size=8).digest(), 'little')

    def pick(self, key, isint, lo, hi):
        x = self.h(key)
        mode = x % 8
        x //= 8
        if hi is not None and lo is not None and len(key) > 1 and key[1] in HINT and (mode != 1 or key[0] != 's'):
            hi = min(hi, lo + HINT[key[1]])
        if hi is None and isint and len(key) > 1:
            hint = HINT.get(key[1])
            if hint is not None:
                if self.pool and mode == 7:
                    c = self.pool[x % len(self.pool)] + (x >> 40) % 3 - 1
                    if lo is None or c >= lo:
                        return c
                hi = hint
            elif mode >= 6 and key[1] not in HINT and (lo is not None and len(key) == 2 or key[0] == 's'):
                # quantities without a natural sampling range: boundaries and all magnitudes
                c = self.pool[(x >> 8) % len(self.pool)] + (x >> 40) % 3 - 1 if self.pool and x & 1 else (x >> 8) % (1 << (x >> 2) % 41)
                return c if lo is None or c >= lo else int(lo)
        if isint:
            if lo is not None and hi is not None:
                lo, hi = int(lo), int(hi)
                n = hi - lo + 1
                if mode == 0:
                    return lo + (x % min(n, 3))
                if mode == 1:
                    return hi - (x % min(n, 3))
                if mode <= 3 and n > 1:
                    k = x % n.bit_length()
                    return lo + ((x >> 8) % (1 << k) if k else 0)
                return lo + (x * (2**64 + 13) + self.h(key, 1)) % n
            if lo is not None:
                return int(lo) + (x % 6 if mode < 5 else x % 4000)
            if hi is not None:
                return int(hi) - (x % 6 if mode < 5 else x % 4000)
            return (x % 9) - 4 if mode < 4 else (x % 20001) - 10000
        if lo is not None and hi is not None:
            t = Fraction(x % 100003, 100003)
            return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * t
        if self.close:
            # few distinct values, so that quantities coincide
            sc = 1
            if self.pool and len(key) > 1:
                sc = (1, 1, max(1, abs(self.pool[self.h(key[:2], 'scale') % len(self.pool)])))[self.h('scales', key[1]) % 3]
            return Fraction(lo if lo is not None else -1) + x % 4 * sc
        if lo is not None:
            return Fraction(lo) + Fraction(x % 100003, 1000)
        y = Fraction(x % 200003 - 100001, 1000)
        if mode == 0:
            return Fraction(x % 7 - 3)
        return y


EVAL_FN = {}
EVAL_PRED = {}


def ev(p, val):
    s = Fraction(0)
    for m, c in p.d.items():
        t = c
        for a, e in m:
            x = ev_atom(ATOMS[a], val)
            if e < 0 and x == 0:
                raise Undefined('div0')
            t = t * (Fraction(x) ** e)
        s += t
    return s


_DEPS = {}
_NODEPS = frozenset()


def deps(x):
    """environment keys (bound indices, loop state) the value of x may depend on"""
    if isinstance(x, Num):
        r = _NODEPS
        for a in x.atoms():
            d = _DEPS.get(a)
            if d is None:
                at = ATOMS[a]
                if at.kind in ('sym', 'mu'):
                    d = frozenset((a,))
                elif at.kind == 'bit':
                    d = deps(BArg(at.args[0]))
                else:
                    d = deps(at.args)
                _DEPS[a] = d
            r = r | d
        return r
    if isinstance(x, BArg):
        k = ('b', x.b)
        d = _DEPS.get(k)
        if d is None:
            d = _NODEPS
            for v in BDD.support(x.b):
                key = BDD.preds[v]
                if len(key) > 1 and key[1] == 'mu':
                    d = d | {tuple(key[2])}
                d = d | deps(key[1:])
            _DEPS[k] = d
        return d
    if isinstance(x, (tuple, list)):
        r = _NODEPS
        for y in x:
            r = r | deps(y)
        return r
    if hasattr(x, 'children'):
        k = ('v', id(x))
        e = _DEPS.get(k)
        if e is None:
            d = deps(tuple(x.children()))
            h, slot = getattr(x, 'h', None), getattr(x, 'slot', None)
            if slot is not None:
                d = d | {('mu', h, slot)}
            _DEPS[k] = e = (x, d)
        return e[1]
    return _NODEPS


def ev_atom(at, val):
    env = val.env
    if at.id in env:
        return env[at.id]
    memo = val.memo
    mk = at.id
    if env and at.kind not in ('sym', 'mu'):
        d = _DEPS.get(at.id)
        if d is None:
            d = deps(of_atom(at))
        if d:
            mk = (at.id,) + tuple([(k, env[k]) for k in d if k in env])
    try:
        if mk in memo:
            return memo[mk]
    except TypeError:
        mk = None
    val.steps += 1
    if val.steps > 200000:
        raise Undefined('steps')
    k = at.kind
    if k == 'sym':
        n = at.args[0]
        if n in val.fixed:
            x = Fraction(val.fixed[n])
        else:
            x = Fraction(val.pick(('s', n), at.isint, at.lo, at.hi))
        if isinstance(n, str):
            val.log[n] = x
    elif k == 'bit':
        x = Fraction(int(evb(at.args[0], val)))
    elif k == 'floor':
        x = Fraction(_fl(ev(at.args[0], val)))
    elif k == 'inv':
        y = ev(at.args[0], val)
        if y == 0:
            raise Undefined('div0')
        x = 1 / y
    elif k == 'pow2':
        y = ev(at.args[0], val)
        if y.denominator == 1:
            if abs(y) > 5000:
                raise Undefined('pow2 big')
            x = Fraction(2) ** int(y)
        else:
            x = Fraction(2 ** float(y))
    elif k == 'fn':
        f = EVAL_FN.get(at.args[0])
        if f is not None:
            x = f(val, at, *at.args[1:])
        else:
            args = tuple(ev_any(a, val) for a in at.args[1:])
            g = val.fns.get(at.args[0])
            if g is not None:
                x = Fraction(g(val, *args))
            else:
                val.ok(at.args[0])
                x = Fraction(val.pick(('f', at.args[0]) + args, at.isint, at.lo, at.hi))
            if len(val.log) < 60:
                val.log[at.args[0] + repr(tuple(str(a) for a in args))[:60]] = x
    elif k == 'mu':
        raise Undefined('mu')
    else:
        raise Undefined(k)
    if mk is not None and (not env or mk != at.id or at.kind != 'sym'):
        memo[mk] = x
    return x


def ev_any(a, val):
    if isinstance(a, Num):
        return ev(a, val)
    if isinstance(a, tuple):
        return tuple(ev_any(x, val) for x in a)
    if hasattr(a, 'ev'):
        return a.ev(val)
    return a


def evb(b, val):
    while b > 1:
        v, lo, hi = BDD.node[b]
        b = hi if ev_pred(BDD.preds[v], val) else lo
    return b == 1


def ev_pred(key, val):
    if key[0] == 'lt0':
        return ev(key[1], val) < 0
    if key[0] == 'eq0':
        return ev(key[1], val) == 0
    f = EVAL_PRED.get(key[1])
    if f:
        return f(val, *key[2:])
    args = tuple(ev_any(a, val) for a in key[2:])
    g = val.fns.get(key[1])
    if g is not None:
        return bool(g(val, *args))
    val.ok(key[1])
    return bool(val.h('p', key[1], args) & 1)


EVAL_FN['band'] = lambda val, at, a, b: Fraction(int(ev(a, val)) & int(ev(b, val)))


def _round_bits(x, bits):
    if x == 0:
        return Fraction(0)
    s = -1 if x < 0 else 1
    x = abs(x)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2) ** e > x:
        e -= 1
    sc = Fraction(2) ** (bits - 1 - e)
    y = x * sc
    f = _fl(y)
    r = y - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f & 1):
        f += 1
    return s * f / sc


EVAL_FN['round64'] = lambda val, at, a: _round_bits(ev(a, val), 53)
EVAL_FN['round80'] = lambda val, at, a: _round_bits(ev(a, val), 64)
EVAL_FN['round32'] = lambda val, at, a: _round_bits(ev(a, val), 24)


def _sqrt(val, at, a):
    x = ev(a, val)
    if x < 0:
        raise Undefined('sqrt')
    return Fraction(float(x) ** 0.5)


EVAL_FN['sqrt'] = _sqrt


def _rnd(val, at, a):
    return Fraction(round(ev(a, val)))


EVAL_FN['round'] = _rnd


# ---------------------------------------------------------------- printing
def show_atom(a, d=0):
    if d > 6:
        return '…'
    k = a.kind
    if k == 'sym':
        return str(a.args[0])
    if k == 'bit':
        return '[' + showb(a.args[0], d + 1) + ']'
    if k == 'floor':
        return 'floor(' + show(a.args[0], d + 1) + ')'
    if k == 'inv':
        return '1/(' + show(a.args[0], d + 1) + ')'
    if k == 'pow2':
        return '2^(' + show(a.args[0], d + 1) + ')'
    if k == 'mu':
        return 'mu' + repr(a.args)
    return a.args[0] + '(' + ', '.join(show_any(x, d + 1) for x in a.args[1:]) + ')'


def show_any(x, d=0):
    if isinstance(x, Num):
        return show(x, d)
    if isinstance(x, tuple):
        return '(' + ','.join(show_any(y, d + 1) for y in x) + ')'
    if hasattr(x, 'show'):
        return x.show(d)
    return repr(x)


def _c(c):
    if c.denominator == 1 and abs(c) >= 1024 and (abs(c.numerator) & (abs(c.numerator) - 1)) == 0:
        return ('-' if c < 0 else '') + '2^%d' % (abs(c.numerator).bit_length() - 1)
    return str(c)


def show(p, d=0):
    if not p.d:
        return '0'
    if d > 8:
        return '…'
    out = []
    for m, c in sorted(p.d.items()):
        t = [show_atom(ATOMS[a], d) + ('' if e == 1 else '^%d' % e) for a, e in m]
        if not t:
            out.append(_c(c))
        elif c == 1:
            out.append('*'.join(t))
        else:
            out.append(_c(c) + '*' + '*'.join(t))
    s = ' + '.join(out)
    return s if len(s) < 1500 else s[:1500] + '…'


def show_pred(k, d=0):
    if k[0] == 'lt0':
        return show(k[1], d + 1) + ' < 0'
    if k[0] == 'eq0':
        return show(k[1], d + 1) + ' == 0'
    return str(k[1]) + '(' + ', '.join(show_any(x, d + 1) for x in k[2:]) + ')'


def showb(b, d=0):
    if b < 2:
        return ['false', 'true'][b]
    if d > 8:
        return '…'
    v, lo, hi = BDD.node[b]
    s = show_pred(BDD.preds[v], d)
    if (lo, hi) == (0, 1):
        return s
    if (lo, hi) == (1, 0):
        return 'not(' + s + ')'
    if lo == 0:
        return '(' + s + ' & ' + showb(hi, d + 1) + ')'
    if hi == 0:
        return '(not(' + s + ') & ' + showb(lo, d + 1) + ')'
    if hi == 1:
        return '(' + s + ' | ' + showb(lo, d + 1) + ')'
    if lo == 1:
        return '(not(' + s + ') | ' + showb(hi, d + 1) + ')'
    return '(' + s + ' ? ' + showb(hi, d + 1) + ' : ' + showb(lo, d + 1) + ')'


# ---------------------------------------------------------------- threshold simplification
_TS = {}


def _lin(key):
    """('lt0'|'eq0', q): (direction, threshold t, integer?) meaning direction < t / direction == t"""
    p = key[1]
    k = p.d.get((), Fraction(0))
    q = Num({m: c for m, c in p.d.items() if m})
    return q, -k, isint(q) and k.denominator == 1


def tsimp(f):
    """canonical form of f modulo the order of constant thresholds of each linear direction"""
    if f < 2:
        return f
    key = f
    r = _TS.get(key)
    if r is not None and r[0] is BDD.preds:
        return r[1]
    g = f
    groups = {}
    for v in BDD.support(f):
        k = BDD.preds[v]
        if k[0] in ('lt0', 'eq0'):
            q, t, ii = _lin(k)
            groups.setdefault((q, ii), []).append((v, k[0], t))
    for (q, ii), lits in groups.items():
        if len(lits) >= 2 and len(lits) <= 12:
            g = _ts_group(g, q, ii, lits)
    _TS[key] = (BDD.preds, g)
    if g != f:
        _TS[g] = (BDD.preds, g)
    return g


def _ts_group(f, q, ii, lits):
    cuts = set()
    for v, k, t in lits:
        cuts.add((t, 0))
        if k == 'eq0' or not ii:
            cuts.add((t + 1, 0) if ii else (t, 1))
    cuts = sorted(cuts)
    regs = [None] + cuts          # region i starts at regs[i]
    vals = []
    for i, st in enumerate(regs):
        nxt = cuts[i] if i < len(cuts) else None
        g = f
        for v, k, t in lits:
            if k == 'lt0':      # whole region below t
                val = nxt is not None and nxt <= (t, 0)
            else:
                val = st == (t, 0) and (nxt == ((t + 1, 0) if ii else (t, 1)))
            g = _cof(g, v, val)
        vals.append(g)
    # merge equal neighbours
    mr, mv = [regs[0]], [vals[0]]
    for st, x in zip(regs[1:], vals[1:]):
        if x != mv[-1]:
            mr.append(st)
            mv.append(x)
    res = mv[-1]
    i = len(mv) - 1
    while i > 0:
        st = mr[i]
        # [.., point, ..] with equal neighbours -> equality literal
        if i >= 2 and mv[i] == mv[i - 2] and ((ii and mr[i][0] == mr[i - 1][0] + 1) or (not ii and mr[i] == (mr[i - 1][0], 1) and mr[i - 1][1] == 0)):
            res = bite(eq0(q - mr[i - 1][0]), mv[i - 1], res)
            i -= 2
            continue
        if st[1] == 0:
            res = bite(lt0(q - st[0]), mv[i - 1], res)
        else:
            res = bite(bor(lt0(q - st[0]), eq0(q - st[0])), mv[i - 1], res)
        i -= 1
    return res


def _cof(f, v, val):
    x = BDD.mk(v, 0, 1)
    return restrict_lit(f, v, val)


def restrict_lit(f, v, val):
    k = ('c', f, v, val)
    r = BDD.memo.get(k)
    if r is not None:
        return r
    if f < 2:
        return f
    n = BDD.node[f]
    if n[0] > v:
        r = f
    elif n[0] == v:
        r = n[2] if val else n[1]
    else:
        r = BDD.mk(n[0], restrict_lit(n[1], v, val), restrict_lit(n[2], v, val))
    BDD.memo[k] = r
    return r


def solved(f):
    """{atom id: value} for the atoms an entailed equation fixes to a constant"""
    out = {}
    if f > 1:
        for v in BDD.support(f):
            k = BDD.preds[v]
            if k[0] == 'eq0' and _cof(f, v, 0) == 0 and isinstance(k[1], Num):
                p = k[1]
                c0 = p.d.get((), Fraction(0))
                ms = [m for m in p.d if m != ()]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                    out[ms[0][0][0]] = num(-c0 / p.d[ms[0]])
            elif k[0] == 'lt0' and _cof(f, v, 0) == 0 and isinstance(k[1], Num) and len(k[1].d) == 2:
                p = k[1]                          # A < c with A an integer that is at least c - 1
                ms = [m for m in p.d if m != ()]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and p.d[ms[0]] > 0:
                    A = ATOMS[ms[0][0][0]]
                    if A.isint and A.lo is not None and A.lo + 1 == -p.d[()] / p.d[ms[0]]:
                        out[A.id] = num(A.lo)
    return out


def disjuncts(f):
    """f as a disjunction of literals, or None"""
    out = []
    while f > 1:
        v, lo, hi = BDD.node[f]
        if hi == 1:
            out.append(BDD.mk(v, 0, 1))
            f = lo
        elif lo == 1:
            out.append(BDD.mk(v, 1, 0))
            f = hi
        elif lo == 0 and f:
            return None
        else:
            return None
    return out if f == 0 else None


def theory_equal(f, g):
    """f and g agree on every assignment consistent with the threshold order"""
    return tsimp(bxor(f, g)) == 0
