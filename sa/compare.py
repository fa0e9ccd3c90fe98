"""Deciding equality of two abstract values.

ok      equal normal forms (congruence), possibly modulo linear facts
bad     normal forms differ and a valuation of the input terms separates them
unk     neither
"""
import time
from fractions import Fraction
from . import terms as T
from .terms import Num, num, BArg
from . import values as VV
from .values import *
from . import zone as Z
from .pyeval import RangeV, ExcV, EnumV

BASE_OK = {'line', 'path', 'pathjoin', 'isfile', 'exists', 'isdir', 'raises', 'memberof', 'argv', 'argc'}


WITNESS_S = 8        # search time per undecided obligation
TOTAL_S = 120        # search time per run, after which less is spent on each
SPENT = [0]


class Cmp:
    def __init__(self, real=False, axioms=None, fns=None, fixed=None, pre=1, trials=120, inputs=(), setup=None, seed=1):
        self.real = real
        self.axioms = axioms
        self.fns = fns or {}
        self.fixed = fixed or {}
        self.pre = pre
        self.trials = trials
        self.inputs = set(inputs)
        self.setup = setup
        self.seed = seed
        self.memo = {}
        self.splitting = False

    # ------------------------------------------------------------ normal form
    def strip(self, x):
        if not self.real or not isinstance(x, (Num, V, BArg, tuple)):
            return x
        return T.subst(x, self._unround, self.memo)

    def _unround(self, at):
        if isinstance(at, tuple):
            return None
        if at.kind == 'fn' and at.args[0] in ('round64', 'round80', 'round32'):
            return T.subst(at.args[1], self._unround, self.memo)
        return None

    def norm(self, v):
        if isinstance(v, (ArrV, ListV, GenV)):
            return ListN(self.norm_seq(v.s), 'rows' if isinstance(v, ArrV) and v.ncol else None)
        if isinstance(v, Seq):
            return self.norm_seq(v)
        if isinstance(v, Tup):
            return Tup(tuple(self.norm(x) for x in v.items))
        if isinstance(v, Named):
            return Tup(tuple(self.norm(x) for x in v.items))
        if isinstance(v, Ite):
            return vite(v.c, self.norm(v.a), self.norm(v.b))
        if isinstance(v, Fmt):
            return fmt_join([p if isinstance(p, str) else (self.norm(p[0]), p[1], p[2]) for p in v.parts])
        return v

    def norm_seq(self, s):
        if isinstance(s, (Sorted, Uniq)):
            inner = s.s
            if isinstance(inner, Uniq):
                inner = inner.s
            elif isinstance(s, Sorted) and not (isinstance(inner, OpqSeq) and inner.name == 'setof'):
                return s
            p = self.set_pred(inner)
            if p is not None:
                return OpqSeq('setof', (SetV(p),))
            return s
        if isinstance(s, Lit):
            return Lit(tuple(self.norm(x) for x in s.items))
        if isinstance(s, Cat):
            return scat([self.norm_seq(p) for p in s.parts])
        if isinstance(s, Guard):
            return sguard(s.c, self.norm_seq(s.s))
        return s

    def set_pred(self, s):
        """membership predicate over setx of a number sequence"""
        x = setx()
        if isinstance(s, Lit) and all(isinstance(i, N) for i in s.items):
            return T.bor(*[T.eq(x, i.p) for i in s.items]) if s.items else 0
        if isinstance(s, Map) and isinstance(s.elem, N):
            from .loops import exists
            from .pyeval import set_member
            r = set_member(s, x)
            if r is not None:
                return r
            return exists(s.n, s.h, T.band(s.pred, T.eq(x, s.elem.p)))
        if isinstance(s, Cat):
            ps = [self.set_pred(p) for p in s.parts]
            return None if None in ps else T.bor(*ps)
        if isinstance(s, OpqSeq) and s.name == 'setof' and isinstance(s.args[0], SetV):
            return s.args[0].pred
        if isinstance(s, Guard):
            p = self.set_pred(s.s)
            return None if p is None else T.band(s.c, p)
        return None

    # ------------------------------------------------------------ congruence
    def split(self, xs):
        """input atoms with a small finite range: candidates for exhaustive case analysis"""
        out, size = [], 1
        cand = []
        for x in xs:
            for at in T.walk(x):
                if isinstance(at, tuple) or not hasattr(at, 'kind') or at in cand:
                    continue
                if not at.isint or at.lo is None or at.hi is None:
                    continue
                if at.kind == 'sym' or at.kind == 'fn' and at.args[0].startswith(('in:', 'byte', 'file')):
                    cand.append(at)
        cand.sort(key=lambda a: (a.hi - a.lo, a.id))
        for at in cand:
            k = int(at.hi - at.lo) + 1
            if k * size > 300:
                break
            out.append(at)
            size *= k
        return out

    def by_cases(self, a, b, pre, leaf):
        if self.splitting:
            return False
        xs = [x if isinstance(x, Num) else BArg(x) for x in (a, b)]
        ats = self.split(xs)
        if not ats:
            return False
        self.splitting = True
        try:
            return self._cases(a, b, pre, ats, leaf)
        finally:
            self.splitting = False

    def _cases(self, a, b, pre, ats, leaf):
        if not ats:
            return leaf(a, b, pre)
        at = ats[0]
        for v in range(int(at.lo), int(at.hi) + 1):
            memo = {}
            f = lambda x, at=at, v=v: num(v) if x is at else None
            sb = lambda x: T.subst(x, f, memo) if isinstance(x, Num) else (T.subst_bool(x, f, memo) if x > 1 else x)
            p = sb(pre)
            if p == 0:
                continue
            x, y = sb(a), sb(b)
            if x == y:
                continue
            if not self._cases(x, y, p, ats[1:], leaf):
                return False
        return True

    def bequal(self, a, b, pre):
        if a == b:
            return True
        d = T.band(T.bxor(a, b), pre)
        if d == 0:
            return True
        return Z.never(d, self.axioms) or self.by_cases(a, b, pre, self.bequal)

    def nequal(self, a, b, pre):
        return self.nequal0(a, b, pre) or self.by_cases(a, b, pre, self.nequal0)

    def nequal0(self, a, b, pre):
        if a == b:
            return True
        if T.is_zero(a - b):
            return True
        x, y = finite(a), finite(b)
        if (x, y) != (a, b) and T.is_zero(x - y):
            return True
        d = self.merged(a - b)
        if d is not None and T.is_zero(d):
            return True
        if pre != 1:
            try:
                for c, q in T.cases(a - b, pre, budget=200):
                    if not T.is_zero(q) and not Z.never(T.band(c, pre), self.axioms):
                        return self._eq_by_axiom(q, T.band(c, pre))
                return True
            except T.TooBig:
                return False
        try:
            for c, q in T.cases(a - b, 1, budget=200):
                if not T.is_zero(q) and not Z.never(c, self.axioms):
                    return False
            return True
        except T.TooBig:
            return False

    def merged(self, d, depth=0):
        """d with function applications to provably equal arguments identified (None: nothing to identify)"""
        ats = [T.ATOMS[x] for x in sorted({x for m in d.d for x, _ in m})]
        ats = [x for x in ats if x.kind in ('fn', 'floor', 'inv')][:40]
        rep = {}
        for i, x in enumerate(ats):
            for y in ats[:i]:
                if y.id not in rep and x.kind == y.kind and len(x.args) == len(y.args) and all(self.same_arg(p, q, depth) for p, q in zip(x.args, y.args)):
                    rep[x.id] = y
                    break
        if not rep:
            return None
        return T.subst(d, lambda at: T.of_atom(rep[at.id]) if not isinstance(at, tuple) and at.id in rep else None, {})

    def same_arg(self, p, q, depth):
        if p == q:
            return True
        if isinstance(p, N) and isinstance(q, N):
            p, q = p.p, q.p
        if isinstance(p, Num) and isinstance(q, Num):
            d = p - q
            if T.is_zero(d):
                return True
            if depth < 4:
                e = self.merged(d, depth + 1)
                return e is not None and T.is_zero(e)
            return False
        if isinstance(p, (Tup, Opq)) and type(p) is type(q) and getattr(p, 'name', 0) == getattr(q, 'name', 0):
            x, y = (p.items, q.items) if isinstance(p, Tup) else (p.args, q.args)
            return len(x) == len(y) and all(self.same_arg(u, v, depth) for u, v in zip(x, y))
        return False

    def _eq_by_axiom(self, q, c):
        return Z.never(T.band(c, T.bnot(T.eq0(q))), self.axioms)

    def equal(self, a, b, pre=1):
        if a == b or pre == 0:
            return True
        if isinstance(a, Num):
            return self.nequal(a, b, pre)
        if isinstance(a, (ArrV, ListV, GenV)) and isinstance(b, (ArrV, ListV, GenV)):
            return self.seq_equal(self.norm_seq(a.s), self.norm_seq(b.s), pre)
        if isinstance(a, Ite) or isinstance(b, Ite):
            c = a.c if isinstance(a, Ite) else b.c
            xa, ya = (a.a, a.b) if isinstance(a, Ite) else (a, a)
            if isinstance(b, Ite):
                if b.c == c:
                    xb, yb = b.a, b.b
                else:
                    xb = yb = b
            else:
                xb = yb = b
            if not isinstance(a, Ite):
                xa = ya = a
            return self.equal(xa, xb, self.conj(pre, c)) and self.equal(ya, yb, self.conj(pre, T.bnot(c)))
        if isinstance(a, B) and isinstance(b, N):
            a = N(T.bit(a.b), 'int')
        if isinstance(b, B) and isinstance(a, N):
            b = N(T.bit(b.b), 'int')
        if type(a) is not type(b):
            if isinstance(a, Seq) and isinstance(b, Seq):
                return self.seq_equal(a, b, pre)
            return False
        if isinstance(a, N):
            return self.nequal(a.p, b.p, pre)
        if isinstance(a, B):
            return self.bequal(a.b, b.b, pre)
        if isinstance(a, Bytes):
            return a.n == b.n and self.nequal(a.v, b.v, pre)
        if isinstance(a, (Tup, Named)):
            return len(a.items) == len(b.items) and all(self.equal(x, y, pre) for x, y in zip(a.items, b.items))
        if isinstance(a, ListN):
            return self.seq_equal(a.s, b.s, pre)
        if isinstance(a, Fmt):
            return len(a.parts) == len(b.parts) and all(self.piece(x, y, pre) for x, y in zip(a.parts, b.parts))
        if isinstance(a, Seq):
            return self.seq_equal(a, b, pre)
        if isinstance(a, SetV):
            return self.bequal(a.pred, b.pred, pre)
        if isinstance(a, ObjV):
            return a.cls == b.cls and a.names == b.names and all(self.equal(x, y, pre) for x, y in zip(a.items, b.items))
        if isinstance(a, DictV):
            da, db = dict(a.items), dict(b.items)
            return list(da) == list(db) and all(self.equal(da[k], db[k], pre) for k in da)
        if isinstance(a, Opq):
            return a.name == b.name and len(a.args) == len(b.args) and all(
                self.equal(x, y, pre) if isinstance(x, (V, Num)) and isinstance(y, (V, Num)) else x == y
                for x, y in zip(a.args, b.args))
        if isinstance(a, ExcV):
            return a.cls == b.cls
        return False

    def conj(self, p, c):
        q = T.band(p, c)
        return 0 if q == 0 or Z.never(q, self.axioms) else q

    def piece(self, x, y, pre):
        if isinstance(x, str) or isinstance(y, str):
            return x == y
        if x[2] != y[2]:
            return False
        if x[1] != y[1] and not (isinstance(x[1], V) and isinstance(y[1], V) and self.equal(x[1], y[1], pre)):
            return False
        return self.equal(self.norm(x[0]), self.norm(y[0]), pre)

    def seq_equal(self, a, b, pre):
        if a == b:
            return True
        if isinstance(a, Map) and isinstance(b, Map):
            n = a.n
            if not self.nequal(a.n, b.n, pre):
                return self.empty(a, pre) and self.empty(b, pre)
            H = max(a.h, b.h, 1 + VV.height(BArg(pre)) if pre > 1 else 0)
            pa, pb = ren(a.pred, idx(a.h), idx(H)), ren(b.pred, idx(b.h), idx(H))
            inside = T.band(pre, T.lt(idx(H), n))
            if not self.bequal(pa, pb, inside):
                return False
            return self.equal(ren(a.elem, idx(a.h), idx(H)), ren(b.elem, idx(b.h), idx(H)), T.band(inside, pa))
        if isinstance(a, Flat) and isinstance(b, Flat):
            if not self.nequal(a.n, b.n, pre):
                return False
            H = max(a.h, b.h, 1 + VV.height(BArg(pre)) if pre > 1 else 0)
            pa, pb = ren(a.pred, idx(a.h), idx(H)), ren(b.pred, idx(b.h), idx(H))
            inside = T.band(pre, T.lt(idx(H), a.n))
            return self.bequal(pa, pb, inside) and self.seq_equal(ren(a.seq, idx(a.h), idx(H)), ren(b.seq, idx(b.h), idx(H)), T.band(inside, pa))
        if isinstance(a, IteS) or isinstance(b, IteS):
            c = a.c if isinstance(a, IteS) else b.c
            pick = lambda s, v: (s.a if v else s.b) if isinstance(s, IteS) and s.c == c else s
            p1, p0 = self.conj(pre, c), self.conj(pre, T.bnot(c))
            if pick(a, 1) is a and isinstance(a, IteS) and pick(b, 1) is b:
                return False
            return (p1 == 0 or self.seq_equal(pick(a, 1), pick(b, 1), p1)) and (p0 == 0 or self.seq_equal(pick(a, 0), pick(b, 0), p0))
        if isinstance(a, Guard) or isinstance(b, Guard):
            ca, sa = (a.c, a.s) if isinstance(a, Guard) else (1, a)
            cb, sb = (b.c, b.s) if isinstance(b, Guard) else (1, b)
            if self.bequal(ca, cb, pre):
                return self.seq_equal(sa, sb, self.conj(pre, ca))
            if isinstance(a, Guard):
                p1, p0 = self.conj(pre, ca), self.conj(pre, T.bnot(ca))
                return self.seq_equal(sa, b, p1) and (p0 == 0 or self.empty(b, p0))
            p1, p0 = self.conj(pre, cb), self.conj(pre, T.bnot(cb))
            return self.seq_equal(a, sb, p1) and (p0 == 0 or self.empty(a, p0))
        if isinstance(a, Cat) or isinstance(b, Cat):
            pa, pb = VV._parts(a), VV._parts(b)
            if len(pa) == len(pb):
                return all(self.seq_equal(x, y, pre) for x, y in zip(pa, pb))
            return False
        if isinstance(a, Lit) and isinstance(b, Lit):
            return len(a.items) == len(b.items) and all(self.equal(self.norm(x), self.norm(y), pre) for x, y in zip(a.items, b.items))
        if type(a) is type(b) and isinstance(a, (Sorted, Uniq, Rev)):
            return self.seq_equal(a.s, b.s, pre)
        if type(a) is type(b) and isinstance(a, OpqSeq):
            return a.name == b.name and len(a.args) == len(b.args) and all(
                self.equal(x, y, pre) if isinstance(x, (V, Num)) and isinstance(y, (V, Num)) else x == y
                for x, y in zip(a.args, b.args))
        return self.empty(a, pre) and self.empty(b, pre)

    def empty(self, s, pre):
        try:
            n = slen(s)
        except Exception:
            return False
        if not isinstance(n, Num):
            n = getattr(n, 'p', None)
            if n is None:
                return False
        return self.nequal(n, T.ZERO, pre)

    # ------------------------------------------------------------ witnesses
    def names(self, x):
        out = set()
        for at in T.walk(x):
            if isinstance(at, tuple):
                if at[0] == 'pred':
                    out.add(at[1])
            elif hasattr(at, 'kind'):
                if at.kind == 'fn':
                    out.add(at.args[0])
        st = [x]
        seen = set()
        while st:
            y = st.pop()
            if isinstance(y, (Opq, OpqSeq)):
                out.add(y.name)
            if isinstance(y, V):
                if y in seen:
                    continue
                seen.add(y)
                st.extend(y.children())
            elif isinstance(y, tuple):
                st.extend(y)
            elif isinstance(y, BArg):
                if y in seen:
                    continue
                seen.add(y)
                for v in T.BDD.support(y.b):
                    st.extend(k for k in T.BDD.preds[v][1:] if not isinstance(k, str))
            elif isinstance(y, Num):
                if y in seen:
                    continue
                seen.add(y)
                for a in y.atoms():
                    at = T.ATOMS[a]
                    st.extend(BArg(z) if at.kind == 'bit' else z for z in at.args if not isinstance(z, (str, bool, type(None), Fraction)) or at.kind == 'bit')
        return out

    def witness(self, a, b, pre=1):
        t0 = time.time()
        try:
            return self.witness0(a, b, pre)
        finally:
            SPENT[0] += time.time() - t0

    def witness0(self, a, b, pre=1):
        na, nb = self.names(a), self.names(b)
        allowed = (na & nb) | BASE_OK | self.inputs | set(self.fns)
        why = {}
        tried = 0
        pool = constants((a, b))
        t0 = time.time()
        lim = WITNESS_S if SPENT[0] < TOTAL_S else WITNESS_S / 8
        for k in range(self.trials):
            t1 = time.time()
            if t1 - t0 > lim and tried > 3 or t1 - t0 > 4 * lim:
                why['time'] = 1
                break
            val = T.Valuation(self.seed * 100003 + k, ints=self.fixed)
            val.fns = self.fns
            val.allowed = allowed
            val.pool = pool
            if self.setup:
                self.setup(val, k)
            try:
                if self.pre != 1 and not T.evb(self.pre, val):
                    continue
                if pre != 1 and not T.evb(pre, val):
                    continue
                try:
                    x = T.ev_any(a, val)
                except T.Diverges:
                    x = 'never ends'
                y = T.ev_any(b, val)
            except T.Undefined as e:
                why[str(e)] = why.get(str(e), 0) + 1
                continue
            except (RecursionError, T.Diverges):
                continue
            tried += 1
            if isinstance(a, Seq) and isinstance(b, Seq) and isinstance(x, list) and isinstance(y, list) and all(isinstance(z, str) for z in x + y):
                x, y = ''.join(x), ''.join(y)       # streams of text: the pieces do not matter
            if self.differ(x, y):
                return {'valuation': {k2: str(v) for k2, v in list(val.log.items())[:14]}, 'got': short(x), 'want': short(y), 'trial': k}, tried, why
        return None, tried, why

    def differ(self, x, y):
        num_ = (int, Fraction)
        if isinstance(x, num_) and isinstance(y, num_):
            if x == y:
                return False
            if self.real:
                m = max(abs(x), abs(y))
                return abs(x - y) > m * Fraction(1, 2 ** 40)
            return True
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
            return len(x) != len(y) or any(self.differ(p, q) for p, q in zip(x, y))
        return x != y

    def decide(self, a, b, pre=1):
        p0 = T.band(self.pre, pre)
        if self.real:
            p0 = T.subst_bool(p0, self._unround, self.memo) if p0 > 1 else p0
        e = T.solved(p0)
        if e:
            f = lambda at: e.get(at.id)
            a, b = (T.subst(x, f, {}) if not isinstance(x, (str, type(None))) else x for x in (a, b))
        sa, sb = self.norm(self.strip(a)), self.norm(self.strip(b))
        p1 = T.band(p0, T.facts(p0, *(x.b for x in (sa, sb) if isinstance(x, B))), T.atom_facts((sa, sb)))
        try:
            if self.equal(sa, sb, p1):
                return 'ok', None
        except (T.TooBig, RecursionError) as e:
            pass
        try:
            w, tried, why = self.witness(sa, sb, pre if not self.real else p0)
        except Exception as e:
            return 'unk', f'witness search failed: {type(e).__name__} {e}'
        if w is not None:
            return 'bad', w
        return 'unk', f'normal forms differ, no separating valuation in {tried} tried; undefined: {dict(list(why.items())[:4])}'

    def decide_bool(self, a, b, pre=1):
        return self.decide(B(a), B(b), pre)


# ------------------------------------------------------------------ conditions on one small integer
def finite_bool(b):
    r = T.smallset(b)
    if r is None:
        return b
    A, m, full = r
    return m == full and 1 or m and T.bpred('in', T.of_atom(A), num(m))


def finite(p, memo=None):
    """p with conditions on one small integer inside counts and sums replaced by the set of its values"""
    def f(at):
        if at.kind == 'fn' and at.args[0] in ('count', 'sumf', 'sum'):
            args = tuple(BArg(finite_bool(x.b)) if isinstance(x, BArg) and x.b > 1 else x for x in at.args[1:])
            if args != at.args[1:]:
                return T.fn(at.args[0], *args, isint=at.isint, lo=at.lo, hi=at.hi)
        return None
    return T.subst(p, f, {})


class ListN(V):
    """list/array/generator, compared by content"""
    F = ('s', 'k')
    __slots__ = F

    def ev(self, val):
        return self.s.ev(val)


def short(x, n=300):
    def f(y, d=0):
        if isinstance(y, Fraction):
            return str(y.numerator) if y.denominator == 1 else (f'{float(y):.17g}' if y.denominator > 10 ** 6 else str(y))
        if isinstance(y, (list, tuple)):
            return ('[%s]' if isinstance(y, list) else '(%s)') % ', '.join(f(z, d + 1) for z in y[:12]) + ('…' if len(y) > 12 else '')
        return repr(y)
    s = f(x)
    return s if len(s) <= n else s[:n] + '…'


# ------------------------------------------------------------------ output streams
def flatmap(s, f):
    """replace every element x of s by the sequence f(x)"""
    if isinstance(s, Lit):
        return scat([f(x) for x in s.items])
    if isinstance(s, Map):
        t, e = VV._open(s.h, s.elem)
        q = f(e)
        H = 1 + max(height(q), VV._hexcept(BArg(s.pred), s.h))
        return sflat(s.n, ren(s.pred, idx(s.h), idx(H)), H, ren(q, t, idx(H)))
    if isinstance(s, Flat):
        t, q = VV._open(s.h, s.seq)
        x = flatmap(q, f)
        H = 1 + max(height(x), VV._hexcept(BArg(s.pred), s.h))
        return sflat(s.n, ren(s.pred, idx(s.h), idx(H)), H, ren(x, t, idx(H)))
    if isinstance(s, Cat):
        return scat([flatmap(p, f) for p in s.parts])
    if isinstance(s, Guard):
        return sguard(s.c, flatmap(s.s, f))
    if isinstance(s, IteS):
        return site(s.c, flatmap(s.a, f), flatmap(s.b, f))
    return s


def bytes_of(v):
    """sequence of byte values making up a written value"""
    if isinstance(v, K) and isinstance(v.o, (bytes, bytearray)):
        return Lit(tuple(N(num(x), 'int') for x in v.o))
    if isinstance(v, Bytes):
        return Lit(tuple(N(T.mod(T.floor(v.v * Fraction(1, 256 ** i)), num(256)), 'int') for i in range(v.n)))
    if type(v).__name__ == 'BytesSeq':
        return flatmap(v.s, bytes_of)
    if isinstance(v, Ite):
        return site(v.c, bytes_of(v.a), bytes_of(v.b))
    return Lit((v,))


def text_of(v):
    if isinstance(v, K) and isinstance(v.o, str):
        return Lit(tuple(K(c) for c in v.o))
    if isinstance(v, Fmt):
        r = []
        for p in v.parts:
            if isinstance(p, str):
                r += [K(c) for c in p]
            else:
                r.append(Fmt((p,)))
        return Lit(tuple(r))
    if type(v).__name__ == 'StrSeq':
        return flatmap(v.s, text_of)
    if isinstance(v, Ite):
        return site(v.c, text_of(v.a), text_of(v.b))
    return Lit((v,))


def norm_out(out, binary):
    return flatmap(out, bytes_of if binary else text_of)


def constants(xs):
    """integer constants of the compared terms, for boundary sampling"""
    out = set()
    for x in xs:
        for at in T.walk(BArg(x.b) if isinstance(x, B) else x):
            for y in at.args if hasattr(at, 'kind') and at.kind == 'fn' else at if isinstance(at, tuple) else ():
                if isinstance(y, Num):
                    for m, c in y.d.items():
                        for v in (abs(c.numerator), abs(c.denominator), abs(c)):
                            if 20 < v < 2 ** 40 and v == int(v):
                                out.add(int(v))
    return tuple(sorted(out)[:40])
