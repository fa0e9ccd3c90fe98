"""Values, sequences and loop summaries (all immutable, structurally hashed)."""
from fractions import Fraction
from . import terms as T
from .terms import Num, num, BArg


class V:
    """immutable structural value; subclasses list fields in F"""
    F = ()
    __slots__ = ('_h', '_ht')

    def __init__(self, *a):
        for n, x in zip(self.F, a):
            setattr(self, n, x)
        assert len(a) == len(self.F), (type(self), a)
        self._h = None
        self._ht = None

    def tup(self):
        return tuple(getattr(self, n) for n in self.F)

    def __hash__(self):
        if self._h is None:
            self._h = hash((type(self).__name__,) + tuple(self._hk()))
        return self._h

    def _hk(self):
        return self.tup()

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o) and self.tup() == o.tup())

    def children(self):
        return [c for c in (self._wrap(n) for n in self.F) if isinstance(c, (Num, V, tuple, BArg))]

    BOOLF = ()

    def _wrap(self, n):
        x = getattr(self, n)
        return BArg(x) if n in self.BOOLF else x

    def subst(self, f, memo):
        k = ('v', self)
        r = memo.get(k)
        if r is None:
            r = self._subst(f, memo)
            memo[k] = r
        return r

    def _subst(self, f, memo):
        a = []
        ch = False
        for n in self.F:
            x = getattr(self, n)
            if n in self.BOOLF:
                y = T.subst_bool(x, f, memo)
            elif isinstance(x, (Num, V, tuple, BArg)):
                y = T.subst(x, f, memo)
            else:
                y = x
            ch = ch or (y is not x and y != x)
            a.append(y)
        return self.make(*a) if ch else self

    @classmethod
    def make(cls, *a):
        return cls(*a)

    def __repr__(self):
        return self.show(0)

    def show(self, d=0):
        if d > 7:
            return '…'
        return type(self).__name__ + '(' + ', '.join(
            T.showb(getattr(self, n), d + 1) if n in self.BOOLF else T.show_any(getattr(self, n), d + 1)
            for n in self.F) + ')'


class N(V):
    """number with Python/numpy type tag: 'int','float', or numpy dtype code"""
    F = ('p', 'dt')
    __slots__ = F

    def show(self, d=0):
        return T.show(self.p, d) + ':' + self.dt

    def ev(self, val):
        return T.ev(self.p, val)


class B(V):
    F = ('b',)
    BOOLF = ('b',)
    __slots__ = F

    def ev(self, val):
        return T.evb(self.b, val)

    def show(self, d=0):
        return T.showb(self.b, d)


class K(V):
    """constant python object (str, None, bytes, type, ...)"""
    F = ('o',)
    __slots__ = F

    def _hk(self):
        o = self.o
        try:
            return (type(o).__name__, hash(o))
        except TypeError:
            return (type(o).__name__, id(o))

    def __eq__(self, o):
        if type(o) is not K or type(o.o) is not type(self.o):
            return False
        return self.o is o.o or self.o == o.o

    __hash__ = V.__hash__

    def children(self):
        return []

    def _subst(self, f, memo):
        return self

    def ev(self, val):
        return self.o

    def show(self, d=0):
        return repr(self.o)


NONE = K(None)


class Tup(V):
    F = ('items',)
    __slots__ = F

    def ev(self, val):
        return tuple(x.ev(val) for x in self.items)


class Named(V):
    """namedtuple-like: (class name, field names, items)"""
    F = ('cname', 'names', 'items')
    __slots__ = F

    def ev(self, val):
        return tuple(x.ev(val) for x in self.items)


class Opq(V):
    """opaque value identified by a structural key (congruence)"""
    F = ('name', 'args')
    __slots__ = F

    def show(self, d=0):
        return f'{self.name}(' + ', '.join(T.show_any(a, d + 1) for a in self.args) + ')'


class Unk(V):
    """value outside the analysed fragment; 'why' is reported"""
    F = ('why',)
    __slots__ = F

    def ev(self, val):
        raise T.Undefined('unknown: ' + str(self.why))


class Ite(V):
    F = ('c', 'a', 'b')
    BOOLF = ('c',)
    __slots__ = F

    @classmethod
    def make(cls, c, a, b):
        return vite(c, a, b)

    def ev(self, val):
        return self.a.ev(val) if T.evb(self.c, val) else self.b.ev(val)


class Ref(V):
    F = ('id',)
    __slots__ = F

    def show(self, d=0):
        return f'&{self.id}'


class Fmt(V):
    """formatted string: tuple of str | (value, spec, conv)"""
    F = ('parts',)
    __slots__ = F

    def children(self):
        return [p[0] for p in self.parts if not isinstance(p, str)]

    def _subst(self, f, memo):
        return fmt_join([p if isinstance(p, str) else (T.subst(p[0], f, memo), p[1], p[2]) for p in self.parts])

    def ev(self, val):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p)
            else:
                x = p[0].ev(val)
                sp = p[1].ev(val) if isinstance(p[1], V) else p[1]
                if isinstance(x, Fraction):
                    y = int(x) if x.denominator == 1 and not (isinstance(p[0], N) and p[0].dt in ('float', 'f8', 'f16')) else float(x)
                    try:
                        out.append(format(y, sp))
                    except Exception:
                        raise T.Undefined('format')
                else:
                    try:
                        out.append(format(x, sp) if isinstance(x, (str, bool)) else f'<{x!r}:{sp}>')
                    except Exception:
                        raise T.Undefined('format')
        return ''.join(out)


def fmt_join(parts):
    out = []
    for p in parts:
        if not isinstance(p, str):
            v = p[0]
            if isinstance(v, K) and isinstance(v.o, str) and p[1] in ('', None) and p[2] in (-1, None, 's'):
                p = v.o
            elif isinstance(v, Fmt) and p[1] in ('', None):
                for q in v.parts:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
                continue
            elif isinstance(v, N) and v.p.const() is not None and v.dt == 'int' and not isinstance(p[1], V):
                try:
                    p = format(int(v.p.const()), p[1])
                except Exception:
                    pass
            elif isinstance(v, N) and p[1] in ('#x', '#b', '#o', '#X') and p[2] in (-1, None) and T.rng(v.p)[0] is not None \
                    and T.rng(v.p)[0] >= 0:
                # alternate form of a non-negative integer: prefix and digits
                pre = '0' + p[1][1]
                if out and isinstance(out[-1], str):
                    out[-1] += pre
                else:
                    out.append(pre)
                p = (v, p[1][1], -1)
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        if not isinstance(p, str) and p[1] == 'd' and isinstance(p[0], N) and p[0].dt not in ('float', 'f8', 'f16', 'bool', 'num'):
            p = (p[0], '', p[2])
        out.append(p if isinstance(p, str) else (p[0], p[1] or '', p[2] if p[2] not in (None, 's') else -1))
    if not out:
        return K('')
    if len(out) == 1 and isinstance(out[0], str):
        return K(out[0])
    return Fmt(tuple(out))


class Bytes(V):
    """constant-length byte string: (number of bytes, little-endian integer value)"""
    F = ('n', 'v')
    __slots__ = F

    def ev(self, val):
        return ('bytes', self.n, T.ev(self.v, val))


class Chunk(V):
    """result of reading at most n bytes/chars of file at addr (kind 'b' or 't')"""
    F = ('file', 'addr', 'n', 'kind')
    __slots__ = F

    def ev(self, val):
        return ('chunk', self.file, T.ev(self.addr, val), T.ev(self.n, val))


# ------------------------------------------------------------------ heights / binders
MAXLEN = 2 ** 60      # no sequence in memory or on disk is longer


def idx(h):
    a = T._mkatom('sym', (('idx', h), True, 0, MAXLEN), True, 0, MAXLEN)
    return T.of_atom(a)


def is_idx(at):
    return at.kind == 'sym' and isinstance(at.args[0], tuple) and at.args[0][0] == 'idx'


def mu_num(h, slot, isint=False, lo=None, hi=None):
    return T.of_atom(T._mkatom('sym', (('mu', h, slot), isint, lo, hi), isint, lo, hi))


def mu_bool(h, slot):
    return T.bpred('mu', ('mu', h, slot))


_HT = {}


def height(x):
    """largest binder height occurring (bound or free) in x"""
    if isinstance(x, V):
        if x._ht is not None:
            return x._ht
    r = 0
    if isinstance(x, Num):
        r = _HT.get(x, None)
        if r is not None:
            return r
        r = 0
        for a in x.atoms():
            r = max(r, _hatom(T.ATOMS[a]))
        _HT[x] = r
        return r
    if isinstance(x, BArg):
        for v in T.BDD.support(x.b):
            r = max(r, _hpred(T.BDD.preds[v]))
        return r
    if isinstance(x, (tuple, list)):
        for y in x:
            r = max(r, height(y))
        return r
    if isinstance(x, V):
        if isinstance(x, MuV):
            r = x.h
        elif isinstance(x, LoopSlice):
            r = x.h
        for y in x.children():
            r = max(r, height(y))
        x._ht = r
    return r


_HA = {}


def _hatom(at):
    r = _HA.get(at.id)
    if r is not None:
        return r
    if at.kind == 'sym':
        n = at.args[0]
        r = n[1] if isinstance(n, tuple) and n[0] in ('idx', 'mu') else 0
    elif at.kind == 'bit':
        r = height(BArg(at.args[0]))
    else:
        r = max([0] + [height(a) for a in at.args])
    _HA[at.id] = r
    return r


_HP = {}


def _hpred(k):
    r = _HP.get(k)
    if r is None:
        if k[0] == 'pred' and k[1] == 'mu':
            r = k[2][1]
        else:
            r = max([0] + [height(a) for a in k[1:] if not isinstance(a, str)])
        _HP[k] = r
    return r


def reset():
    _HT.clear()
    _HA.clear()
    _HP.clear()
    _UID.clear()


def ren(x, src, dst):
    """rename a free numeric symbol (given as Num atoms) by a Num, everywhere in x"""
    (m, c), = src.d.items()
    aid = m[0][0]

    def f(at):
        return dst if at.id == aid else None
    if isinstance(x, int):
        return T.subst_bool(x, f)
    return T.subst(x, f)


def lift_elem(elem, h, H):
    return elem if h == H else ren(elem, idx(h), idx(H))


def _shield(f, bound):
    """f with the given bound symbols left alone"""
    pr = getattr(f, 'preds', False)

    def g(at):
        if bound(at):
            return None
        if isinstance(at, tuple) and not pr:
            return None
        return f(at)
    g.preds = True
    g.tok = getattr(f, 'tok', None)
    return g


def _is_mu(at, h):
    if isinstance(at, tuple):
        return at[1] == 'mu' and at[2][1] == h
    return at.kind == 'sym' and isinstance(at.args[0], tuple) and at.args[0][0] == 'mu' and at.args[0][1] == h


# ------------------------------------------------------------------ sequences
class Seq(V):
    __slots__ = ()


class Lit(Seq):
    F = ('items',)
    __slots__ = F

    def ev(self, val):
        return [x.ev(val) for x in self.items]


EMPTY = Lit(())


class Map(Seq):
    """[elem(i) for i in range(n) if pred(i)], bound variable idx(h)"""
    F = ('n', 'pred', 'h', 'elem')
    BOOLF = ('pred',)
    __slots__ = F

    def _subst(self, f, memo):
        # bound variable must not be touched
        me = idx(self.h)
        (m, c), = me.d.items()
        aid = m[0][0]

        g = _shield(f, lambda at: not isinstance(at, tuple) and at.id == aid)
        n = T.subst(self.n, f, memo)
        m2 = {}
        pred = T.subst_bool(self.pred, g, m2)
        elem = T.subst(self.elem, g, m2)
        return smap(n, pred, self.h, elem)

    def ev(self, val):
        n = T.ev(self.n, val)
        if n > val.longest:
            raise T.Undefined('long')
        out = []
        (m, c), = idx(self.h).d.items()
        a = m[0][0]
        old = val.env.get(a)
        try:
            for i in range(int(n)):
                val.env[a] = Fraction(i)
                if T.evb(self.pred, val):
                    out.append(self.elem.ev(val))
        finally:
            if old is None:
                val.env.pop(a, None)
            else:
                val.env[a] = old
        return out


def smap(n, pred, h, elem):
    """normalising constructor; h is the height of the bound variable used in pred/elem."""
    want = max(height(BArg(pred)) if not _only(BArg(pred), h) else 0, 0)
    # canonical height: 1 + max height of everything except the bound variable itself
    H = 1 + max(_hexcept(elem, h), _hexcept(BArg(pred), h), 0)
    if H != h:
        src, dst = idx(h), idx(H)
        elem = ren(elem, src, dst)
        pred = ren(pred, src, dst)
    c = n.const()
    if pred == 0 or (c is not None and c <= 0):
        return EMPTY
    if c is not None and c <= 4 and pred == 1 and not isinstance(elem, (Unk,)):
        return Lit(tuple(ren(elem, idx(H), num(i)) for i in range(int(c))))
    return Map(n, pred, H, elem)


def _only(x, h):
    return False


def _hexcept(x, h):
    """max height over binders in x ignoring the symbol idx(h) itself (free occurrences)"""
    hx = height(x)
    if hx < h:
        return hx
    # compute precisely
    (m, c), = idx(h).d.items()
    aid = m[0][0]
    r = 0
    for y in T.walk(x):
        if isinstance(y, T.Atom):
            if y.id == aid:
                continue
            if y.kind == 'sym':
                n = y.args[0]
                if isinstance(n, tuple) and n[0] in ('idx', 'mu'):
                    r = max(r, n[1])
        elif isinstance(y, tuple) and y and y[0] == 'pred' and y[1] == 'mu':
            r = max(r, y[2][1])
        elif isinstance(y, MuV):
            r = max(r, y.h)
        elif isinstance(y, LoopSlice):
            r = max(r, y.h)
        elif isinstance(y, Map):
            r = max(r, y.h)
    return r


class Flat(Seq):
    """concatenation over i in range(n) with pred(i) of seq(i)"""
    F = ('n', 'pred', 'h', 'seq')
    BOOLF = ('pred',)
    __slots__ = F

    def _subst(self, f, memo):
        me = idx(self.h)
        (m, c), = me.d.items()
        aid = m[0][0]

        g = _shield(f, lambda at: not isinstance(at, tuple) and at.id == aid)
        n = T.subst(self.n, f, memo)
        m2 = {}
        return sflat(n, T.subst_bool(self.pred, g, m2), self.h, T.subst(self.seq, g, m2))

    def ev(self, val):
        n = T.ev(self.n, val)
        if n > val.longest:
            raise T.Undefined('long')
        out = []
        (m, c), = idx(self.h).d.items()
        a = m[0][0]
        old = val.env.get(a)
        try:
            for i in range(int(n)):
                val.env[a] = Fraction(i)
                if T.evb(self.pred, val):
                    out += self.seq.ev(val)
        finally:
            if old is None:
                val.env.pop(a, None)
            else:
                val.env[a] = old
        return out


def sflat(n, pred, h, seq):
    if seq == EMPTY or pred == 0:
        return EMPTY
    if isinstance(seq, Lit) and len(seq.items) == 1:
        return smap(n, pred, h, seq.items[0])
    if isinstance(seq, Guard):
        return sflat(n, T.band(pred, seq.c), h, seq.s)
    if isinstance(seq, Cat) and all(isinstance(p, Lit) or (isinstance(p, Guard) and isinstance(p.s, Lit)) for p in seq.parts):
        # exactly one element on every path: merge into a conditional element
        tot = 0
        disj = True
        el = None
        for p in reversed(seq.parts):
            c, s = (p.c, p.s) if isinstance(p, Guard) else (1, p)
            if len(s.items) != 1 or T.band(tot, c) != 0:
                disj = False
                break
            tot = T.bor(tot, c)
            el = s.items[0] if el is None else vite(c, s.items[0], el)
        if disj:
            return smap(n, T.band(pred, tot), h, el)
    if isinstance(seq, IteS) and isinstance(seq.a, Lit) and isinstance(seq.b, Lit) and \
            len(seq.a.items) == 1 == len(seq.b.items):
        return smap(n, pred, h, vite(seq.c, seq.a.items[0], seq.b.items[0]))
    H = 1 + max(_hexcept(seq, h), _hexcept(BArg(pred), h))
    if H != h:
        seq = ren(seq, idx(h), idx(H))
        pred = ren(pred, idx(h), idx(H))
    c = n.const()
    if c is not None and c <= 4 and pred == 1:
        return scat([ren(seq, idx(H), num(i)) for i in range(int(c))])
    return Flat(n, pred, H, seq)


class Cat(Seq):
    F = ('parts',)
    __slots__ = F

    @classmethod
    def make(cls, parts):
        return scat(parts)

    def ev(self, val):
        r = []
        for p in self.parts:
            r += p.ev(val)
        return r


def scat(parts):
    out = []
    for p in parts:
        if isinstance(p, Cat):
            q = p.parts
        else:
            q = (p,)
        for x in q:
            if x == EMPTY:
                continue
            if isinstance(x, Lit) and out and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].items + x.items)
            else:
                out.append(x)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return Cat(tuple(out))


class Guard(Seq):
    F = ('c', 's')
    BOOLF = ('c',)
    __slots__ = F

    @classmethod
    def make(cls, c, s):
        return sguard(c, s)

    def ev(self, val):
        return self.s.ev(val) if T.evb(self.c, val) else []


def sguard(c, s):
    if c == 0 or s == EMPTY:
        return EMPTY
    if c == 1:
        return s
    if isinstance(s, Guard):
        return sguard(T.band(c, s.c), s.s)
    return Guard(c, s)


class IteS(Seq):
    F = ('c', 'a', 'b')
    BOOLF = ('c',)
    __slots__ = F

    @classmethod
    def make(cls, c, a, b):
        return site(c, a, b)

    def ev(self, val):
        return (self.a if T.evb(self.c, val) else self.b).ev(val)


def _parts(s):
    return list(s.parts) if isinstance(s, Cat) else ([] if s == EMPTY else [s])


def site(c, a, b):
    if c == 1 or a == b:
        return a
    if c == 0:
        return b
    # common prefix factoring
    pa, pb = _parts(a), _parts(b)
    pre = []
    while pa and pb and pa[0] == pb[0]:
        pre.append(pa.pop(0))
        pb.pop(0)
    if pa and pb and isinstance(pa[0], Lit) and isinstance(pb[0], Lit):
        x, y = pa[0].items, pb[0].items
        k = 0
        while k < len(x) and k < len(y) and x[k] == y[k]:
            k += 1
        if k:
            pre.append(Lit(x[:k]))
            pa[0] = Lit(x[k:])
            pb[0] = Lit(y[k:])
    a, b = scat(pa), scat(pb)
    if b == EMPTY:
        return scat(pre + [sguard(c, a)])
    if a == EMPTY:
        return scat(pre + [sguard(T.bnot(c), b)])
    if isinstance(a, Lit) and isinstance(b, Lit) and len(a.items) == len(b.items):
        return scat(pre + [Lit(tuple(vite(c, x, y) for x, y in zip(a.items, b.items)))])
    if isinstance(a, Map) and isinstance(b, Map) and a.n == b.n and a.pred == b.pred:
        H = max(a.h, b.h)
        return scat(pre + [smap(a.n, a.pred, H, vite(c, lift_elem(a.elem, a.h, H), lift_elem(b.elem, b.h, H)))])
    r = IteS(c, a, b)
    return scat(pre + [r]) if pre else r


class OpqSeq(Seq):
    """opaque sequence (congruence key), elements fn('elt', key, i)"""
    F = ('name', 'args')
    __slots__ = F

    def ev(self, val):
        if self.name == 'setof':
            return self.args[0].ev(val)
        a = tuple(T.ev_any(x, val) for x in self.args)
        g = val.fns.get(self.name)
        if g is not None:
            return list(g(val, *a))
        val.ok(self.name)
        n = val.h('len', self.name, a) % 5
        return [Fraction(val.h('e', self.name, a, i) % 100) for i in range(n)]


class Store(Seq):
    F = ('s', 'i', 'v')
    __slots__ = F

    def ev(self, val):
        l = list(self.s.ev(val))
        i = int(T.ev(self.i, val))
        if not -len(l) <= i < len(l):
            raise T.Undefined('index')
        l[i] = self.v.ev(val)
        return l

    @classmethod
    def make(cls, s, i, v):
        return sstore(s, i, v)


def sstore(s, i, v, pc=1):
    c = i.const()
    if c is not None and isinstance(s, Lit) and c.denominator == 1 and -len(s.items) <= c < len(s.items):
        l = list(s.items)
        l[int(c)] = v
        return Lit(tuple(l))
    if isinstance(s, Lit) and 0 < len(s.items) <= 32:
        r = []
        for k, x in enumerate(s.items):
            e = _at(i, k, len(s.items))
            r.append(vite(e, N(T.under(v.p, e, pc), v.dt) if isinstance(v, N) else v, x))
        return Lit(tuple(r))
    if isinstance(s, Store) and s.i == i:
        s = s.s
    return Store(s, i, v)


def _at(i, k, n):
    """index i denotes position k of n"""
    e = T.eq(i, num(k))
    r = T.rng(i)
    return e if r[0] is not None and r[0] >= 0 else T.bor(e, T.eq(i, num(k - n)))


class MuS(Seq):
    """list-valued loop variable"""
    F = ('h', 'slot')
    __slots__ = F

    def ev(self, val):
        k = ('mu', self.h, self.slot)
        if k not in val.env:
            raise T.Undefined('mu')
        return val.env[k]


class HeldS(Seq):
    """the same sequence of `w`-bit cells, its elements not spelled out"""
    F = ('s', 'w')
    __slots__ = F

    def ev(self, val):
        return self.s.ev(val)


class MuV(V):
    """opaque-typed loop variable"""
    F = ('h', 'slot')
    __slots__ = F

    def ev(self, val):
        k = ('mu', self.h, self.slot)
        if k not in val.env:
            raise T.Undefined('mu')
        return val.env[k]


class SliceS(Seq):
    F = ('s', 'a', 'b')
    __slots__ = F

    @classmethod
    def make(cls, s, a, b):
        return sslice(s, a, b)

    def ev(self, val):
        l = self.s.ev(val)
        a = int(T.ev(self.a, val))
        b = None if self.b is NONE else int(T.ev(self.b, val))
        return l[a:b]


class Sorted(Seq):
    F = ('s',)
    __slots__ = F

    def ev(self, val):
        return sorted(self.s.ev(val))


class Uniq(Seq):
    """sorted distinct values"""
    F = ('s',)
    __slots__ = F

    def ev(self, val):
        return sorted(set(self.s.ev(val)))


class Rev(Seq):
    F = ('s',)
    __slots__ = F

    def ev(self, val):
        return list(reversed(self.s.ev(val)))


# ---- sequence operations
def _uns(s, what):
    return Unk(f'{what} of {type(s).__name__}')


def slen(s):
    if isinstance(s, Lit):
        return num(len(s.items))
    if isinstance(s, Map):
        if s.pred == 1:
            return clamp0(s.n)
        return T.fn('count', s.n, s.h, BArg(s.pred), isint=True, lo=0)
    if isinstance(s, Cat):
        r = T.ZERO
        for p in s.parts:
            r = r + slen(p)
        return r
    if isinstance(s, Guard):
        return T.ite(s.c, slen(s.s), T.ZERO)
    if isinstance(s, IteS):
        return T.ite(s.c, slen(s.a), slen(s.b))
    if isinstance(s, (Store, HeldS)):
        return slen(s.s)
    if isinstance(s, OpqSeq) and s.name == 'setof' and isinstance(s.args[0], SetV):
        return T.fn('setlen', T.BArg(s.args[0].pred), isint=True, lo=0)
    if isinstance(s, (Sorted, Rev)):
        return slen(s.s)
    if isinstance(s, Flat):
        l = slen(s.seq)
        H = s.h
        if not any(isinstance(y, T.Atom) and y.kind == 'sym' and y.args[0] == ('idx', H) for y in T.walk(l)) and s.pred == 1:
            return clamp0(s.n) * l
        return T.fn('sumf', s.n, s.h, BArg(s.pred), l, isint=True, lo=0)
    if isinstance(s, LoopCollect) and isinstance(s.piece, Lit):
        if isinstance(s.last, Lit):
            return num(len(s.piece.items)) * rounds(s.loop) + num(len(s.last.items))
    return T.fn('len', s, isint=True, lo=0)


def clamp0(n):
    r = T.rng(n)
    if r[0] is not None and r[0] >= 0:
        return n
    return T.maxv(n, T.ZERO)


def _env_idx(h):
    (m, c), = idx(h).d.items()
    return m[0][0]


def _ev_count(val, at, n, h, pred):
    n = T.ev(n, val)
    if n > 60:
        raise T.Undefined('long')
    a = _env_idx(h)
    old = val.env.get(a)
    c = 0
    try:
        for i in range(int(n)):
            val.env[a] = Fraction(i)
            c += T.evb(pred.b, val)
    finally:
        if old is None:
            val.env.pop(a, None)
        else:
            val.env[a] = old
    return Fraction(c)


def _ev_sumf(val, at, n, h, pred, l):
    n = T.ev(n, val)
    if n > 60:
        raise T.Undefined('long')
    a = _env_idx(h)
    old = val.env.get(a)
    c = Fraction(0)
    try:
        for i in range(int(n)):
            val.env[a] = Fraction(i)
            if T.evb(pred.b, val):
                c += T.ev(l, val)
    finally:
        if old is None:
            val.env.pop(a, None)
        else:
            val.env[a] = old
    return c


T.EVAL_FN['count'] = _ev_count
T.EVAL_FN['sumf'] = _ev_sumf
T.EVAL_FN['len'] = lambda val, at, s: Fraction(len(s.ev(val)))


def _rebind(at, *args):
    """rebuild count/sumf/nthidx after substitution (bound variable untouched by construction)"""
    return T.of_atom(T._mkatom('fn', (at.args[0],) + args, at.isint, at.lo, at.hi))


def _rb_count(at, n, h, pred):
    if pred.b == 0:
        return T.ZERO
    if pred.b == 1:
        return clamp0(n)
    H = 1 + _hexcept(pred, h)
    if H != h:
        pred = BArg(ren(pred.b, idx(h), idx(H)))
    return T.fn('count', n, H, pred, isint=True, lo=0)


T.REBUILD['count'] = _rb_count


def count_of(n, h, pred):
    return _rb_count(None, n, h, BArg(pred))


def _rb_sumf(at, n, h, pred, l):
    if pred.b == 0 or not l.d:
        return T.ZERO
    H = 1 + max(_hexcept(pred, h), _hexcept(l, h))
    if H != h:
        pred = BArg(ren(pred.b, idx(h), idx(H)))
        l = ren(l, idx(h), idx(H))
    return T.of_atom(T._mkatom('fn', ('sumf', n, H, pred, l), at.isint if at else False, at.lo if at else None, None))


T.REBUILD['sumf'] = _rb_sumf


def sum_of(n, h, pred, p):
    isb = T.isbit(p)
    if isb is not None:
        return count_of(n, h, T.band(pred, isb))
    k = n.const()
    if k is not None and k <= 8:
        r = T.ZERO
        for i in range(int(k)):
            r = r + T.ite(ren(pred, idx(h), num(i)), ren(p, idx(h), num(i)), T.ZERO)
        return r
    H = 1 + max(_hexcept(BArg(pred), h), _hexcept(p, h))
    if H != h:
        pred = ren(pred, idx(h), idx(H))
        p = ren(p, idx(h), idx(H))
    return T.of_atom(T._mkatom('fn', ('sumf', n, H, BArg(pred), p), T.isint(p), 0 if T.nonneg(p) else None, None))


def _ev_nth(val, at, n, h, pred, i):
    n = T.ev(n, val)
    if n > 200:
        raise T.Undefined('long')
    i = int(T.ev(i, val))
    a = _env_idx(h)
    old = val.env.get(a)
    hits = []
    try:
        for k in range(int(n)):
            val.env[a] = Fraction(k)
            if T.evb(pred.b, val):
                hits.append(k)
    finally:
        if old is None:
            val.env.pop(a, None)
        else:
            val.env[a] = old
    if not -len(hits) <= i < len(hits):
        raise T.Undefined('index')
    return Fraction(hits[i])


T.EVAL_FN['nthidx'] = _ev_nth
T.REBUILD['nthidx'] = lambda at, n, h, pred, i: (i if pred.b == 1 else _nthidx(n, h, pred.b, i))


def _nthidx(n, h, pred, i):
    H = 1 + _hexcept(BArg(pred), h)
    if H != h:
        pred = ren(pred, idx(h), idx(H))
    return T.fn('nthidx', n, H, BArg(pred), i, isint=True, lo=0)


def _interp(a, b, J):
    """a term t(J) with t(0) = a and t(1) = b, linear in J where they differ, or None"""
    if a == b:
        return a
    if isinstance(a, N) and isinstance(b, N) and a.dt == b.dt:
        p = _interp(a.p, b.p, J)
        return N(p, a.dt) if p is not None else None
    if not isinstance(a, Num) or not isinstance(b, Num):
        return None
    common = Num({m: c for m, c in a.d.items() if b.d.get(m) == c})
    x, y = a - common, b - common
    if x.const() is not None and y.const() is not None:
        return common + x + (y - x) * J
    if len(x.d) == 1 and len(y.d) == 1:
        ((m1, c1),), ((m2, c2),) = x.d.items(), y.d.items()
        if c1 == c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
            p, q = T.ATOMS[m1[0][0]], T.ATOMS[m2[0][0]]
            if p.kind == q.kind == 'fn' and p.args[0] == q.args[0] and len(p.args) == len(q.args) and (p.isint, p.lo, p.hi) == (q.isint, q.lo, q.hi):
                r = [_interp(u, v, J) if u != v else u for u, v in zip(p.args[1:], q.args[1:])]
                if any(z is None for z in r):
                    return None
                return common + T.fn(p.args[0], *r, isint=p.isint, lo=p.lo, hi=p.hi) * c1
    return None


def family(items):
    """t such that ren(t, J, k) is items[k] for every k, or None"""
    if len(items) < 2:
        return None
    J = T.sym(('famJ',), True, 0, None)
    t = _interp(items[0], items[1], J)
    if t is None or any(ren(t, J, num(k)) != x for k, x in enumerate(items)):
        return None
    return t, J


def pick(items, i, pc=1):
    """items[i] for an index known to be in range (where pc holds)"""
    n = len(items)
    if not all(isinstance(x, N) for x in items):
        r = items[-1]
        for k in range(n - 2, -1, -1):
            r = vite(_at(i, k, n), items[k], r)
        return r
    es = [T.band(_at(i, k, n), 1) for k in range(n)]
    A = next((T.smallset(e) for e in es if e > 1), None)
    if A is not None:
        for v in sorted(T.BDD.support(pc), reverse=True):
            x = T._predleaf(v)
            if x is None or x[0] is not A[0]:
                pc = T.bor(T._cof(pc, v, 0), T._cof(pc, v, 1))
    else:
        pc = 1
    dt = items[0].dt
    for x in items:
        dt = dt if dt == x.dt else join_dt(dt, x.dt)
    live = [k for k in range(n) if not T.vanishes(T.band(es[k], pc))] or [n - 1]
    p = items[live[-1]].p
    left = 1
    for k in live[:-1]:
        c = T.band(left, es[k])
        p = p + T.bit(c) * (items[k].p - items[live[-1]].p)
        left = T.band(left, T.bnot(es[k]))
    return N(p, dt)


def sget(s, i):
    """element of s at (non-negative symbolic) position i; negative constants count from the end"""
    c = i.const()
    if isinstance(s, Sorted) and isinstance(s.s, OpqSeq) and s.s.name == 'setof' and c in (0, -1):
        from .pyeval import set_lo
        b = s.s.args[0].pred
        return N(T.fn('minset' if c == 0 else 'maxset', T.BArg(b), isint=True, lo=set_lo(b)), 'int')
    if isinstance(s, Lit):
        if c is not None:
            if c.denominator == 1 and -len(s.items) <= c < len(s.items):
                return s.items[int(c)]
            return Unk('index out of range')
        if s.items and all(isinstance(x, N) and x.p.const() is not None for x in s.items):
            vals = tuple(x.p.const() for x in s.items)
            ii = all(v.denominator == 1 for v in vals)
            ds = sorted(set(vals), key=lambda v: (vals.count(v), v))
            if len(vals) <= 16 and len(ds) <= 6:
                p = num(ds[-1])
                left = 1
                for k, x in enumerate(vals):
                    if x != ds[-1]:
                        e = _at(i, k, len(vals))
                        p = p + T.bit(T.band(e, left)) * (x - ds[-1])
                        left = T.band(left, T.bnot(e))
                return N(p, s.items[0].dt)
            return N(T.fn('tab', vals, i, isint=ii, lo=min(vals), hi=max(vals)), s.items[0].dt)
        if s.items and len(s.items) <= 16:
            return pick(s.items, i)
        if s.items:
            return Opq('litget', (s, i))
        return Unk('index of empty')
    if isinstance(s, Map):
        if c is not None and c < 0:
            i = slen(s) + i
        if s.pred != 1:
            i = _nthidx(s.n, s.h, s.pred, i)
        return ren(s.elem, idx(s.h), i)
    if isinstance(s, IteS):
        return vite(s.c, sget(s.a, i), sget(s.b, i))
    if isinstance(s, Store):
        e = T.eq(s.i, i)
        if c is not None and c < 0 or T.rng(s.i)[0] is None or T.rng(s.i)[0] < 0:
            if s.i != i:
                return Unk('store/select negative')
        return vite(e, s.v, sget(s.s, i))
    if isinstance(s, Flat) and s.pred == 1 and isinstance(s.seq, Lit) and T.rng(i)[0] is not None and T.rng(i)[0] >= 0:
        k = len(s.seq.items)
        t, q = _open(s.h, s.seq)
        if k == 1:
            return ren(q.items[0], t, i)
        f = family(q.items)
        if f is not None:
            return ren(ren(f[0], t, T.floor(i * Fraction(1, k))), f[1], T.mod(i, num(k)))
    if isinstance(s, Rev):
        if c is not None and c < 0:
            return sget(s.s, -i - 1)
        return sget(s.s, slen(s.s) - 1 - i)
    if isinstance(s, Cat) and c is not None:
        if c >= 0:
            k = int(c)
            for p in s.parts:
                if isinstance(p, Lit):
                    if k < len(p.items):
                        return p.items[k]
                    k -= len(p.items)
                else:
                    if k == 0 and False:
                        pass
                    break
        else:
            p = s.parts[-1]
            if isinstance(p, Lit) and len(p.items) >= -c:
                return p.items[int(c)]
    if isinstance(s, MuS) and isinstance(s.slot, tuple) and s.slot[1] in CELLW:
        return cell(s, i, CELLW[s.slot[1]])
    if isinstance(s, HeldS):
        return cell(s, i, s.w)
    if isinstance(s, (OpqSeq, MuS, LoopCollect, Flat, Cat, Sorted, Uniq, SliceS)):
        return Opq('elt', (s, i))
    return _uns(s, 'index')


def _ev_tab(val, at, vals, i):
    k = T.ev(i, val)
    if k.denominator != 1 or not -len(vals) <= k < len(vals):
        raise T.Undefined('index')
    return vals[int(k)]


T.EVAL_FN['tab'] = _ev_tab


def sslice(s, a, b):
    """s[a:b]; b NONE = to the end.  a,b Num (constants may be negative)"""
    ca = a.const()
    cb = None if (isinstance(b, K)) else b.const()
    if isinstance(s, Lit) and ca is not None and (isinstance(b, K) or cb is not None):
        return Lit(s.items[int(ca):(None if isinstance(b, K) else int(cb))])
    if ca == 0 and isinstance(b, K):
        return s
    if isinstance(s, Rev) and isinstance(s.s, Map) and s.s.pred == 1 and T.nonneg(s.s.n):
        s = smap(s.s.n, 1, s.s.h, ren(s.s.elem, idx(s.s.h), s.s.n - 1 - idx(s.s.h)))
    if isinstance(s, Map):
        if s.pred == 1:
            n = s.n
            # normalise negative constants
            if ca is not None and ca < 0:
                a = T.maxv(n + a, T.ZERO)
            elif ca is None and not T.nonneg(a):
                a = T.ite(T.lt(a, T.ZERO), n + a, a)        # below -n: from the start, as here
            if not isinstance(b, K) and cb is not None and cb < 0:
                b = n + b
            elif not isinstance(b, K) and cb is None and b != n and not T.nonneg(b):
                b = T.ite(T.lt(b, T.ZERO), n + b, b)
            pred = 1
            i = idx(s.h)
            if not a.const() == 0:
                pred = T.band(pred, T.le(a, i))
            if not isinstance(b, K):
                if b == n:
                    pass
                else:
                    pred = T.band(pred, T.lt(i, b))
            return smap(n, pred, s.h, s.elem)
        if ca == 1 and isinstance(b, K):
            return SliceS(s, a, b)
    return SliceS(s, a, b)


def smap_elem(s, f):
    """apply f to every element (value -> value); returns Seq or None"""
    if isinstance(s, Lit):
        return Lit(tuple(f(x) for x in s.items))
    if isinstance(s, Map):
        t, e = _open(s.h, s.elem)
        return _close(s.n, s.pred, s.h, t, f(e))
    if isinstance(s, Cat):
        ps = [smap_elem(p, f) for p in s.parts]
        return None if any(p is None for p in ps) else scat(ps)
    if isinstance(s, Guard):
        x = smap_elem(s.s, f)
        return None if x is None else sguard(s.c, x)
    if isinstance(s, IteS):
        x, y = smap_elem(s.a, f), smap_elem(s.b, f)
        return None if x is None or y is None else site(s.c, x, y)
    if isinstance(s, Flat):
        t, q = _open(s.h, s.seq)
        x = smap_elem(q, f)
        if x is None:
            return None
        H = 1 + max(height(x), _hexcept(BArg(s.pred), s.h))
        return sflat(s.n, ren(s.pred, idx(s.h), idx(H)), H, ren(x, t, idx(H)))
    if isinstance(s, LoopCollect):
        x, y = smap_elem(s.piece, f), smap_elem(s.last, f)
        return None if x is None or y is None else LoopCollect(s.loop, x, y)
    if isinstance(s, Rev):
        x = smap_elem(s.s, f)
        return None if x is None else Rev(x)
    return None


def _open(h, elem):
    """replace the bound variable by a fresh free symbol (avoids capture while elem is being combined)"""
    t = Tok.num(Tok.new(), True, 0, None)
    return t, ren(elem, idx(h), t)


def _close(n, pred, h, t, elem):
    H = 1 + max(height(elem), _hexcept(BArg(pred), h))
    if pred > 1 and H != h:
        pred = ren(pred, idx(h), idx(H))
    return smap(n, pred, H, ren(elem, t, idx(H)))


def szip(ss, f):
    """elementwise combination of sequences of provably equal index space; None if not alignable"""
    if len(ss) == 1:
        return smap_elem(ss[0], lambda x: f([x]))
    if all(isinstance(s, Lit) for s in ss):
        if len({len(s.items) for s in ss}) == 1:
            return Lit(tuple(f(list(t)) for t in zip(*[s.items for s in ss])))
        return None
    if all(isinstance(s, Map) for s in ss):
        n = ss[0].n
        if any(not (s.n == n or T.is_zero(s.n - n)) for s in ss):
            return None
        H = max(s.h for s in ss)
        preds = [ren(s.pred, idx(s.h), idx(H)) if s.h != H else s.pred for s in ss]
        if any(p != preds[0] for p in preds):
            return None
        t = Tok.num(Tok.new(), True, 0, None)
        return _close(n, preds[0], H, t, f([ren(s.elem, idx(s.h), t) for s in ss]))
    if all(isinstance(s, IteS) and s.c == ss[0].c for s in ss):
        a = szip([s.a for s in ss], f)
        b = szip([s.b for s in ss], f)
        return None if a is None or b is None else site(ss[0].c, a, b)
    if any(isinstance(s, IteS) for s in ss):
        c = next(s.c for s in ss if isinstance(s, IteS))

        def br(s, v):
            return (s.a if v else s.b) if isinstance(s, IteS) and s.c == c else s
        a = szip([br(s, True) for s in ss], f)
        b = szip([br(s, False) for s in ss], f)
        return None if a is None or b is None else site(c, a, b)
    if all(isinstance(s, LoopCollect) and s.loop == ss[0].loop for s in ss):
        a = szip([s.piece for s in ss], f)
        b = szip([s.last for s in ss], f)
        return None if a is None or b is None else LoopCollect(ss[0].loop, a, b)
    if all(isinstance(s, Guard) and s.c == ss[0].c for s in ss):
        a = szip([s.s for s in ss], f)
        return None if a is None else sguard(ss[0].c, a)
    if all(isinstance(s, Cat) and len(s.parts) == len(ss[0].parts) for s in ss):
        ps = [szip([s.parts[i] for s in ss], f) for i in range(len(ss[0].parts))]
        return None if any(p is None for p in ps) else scat(ps)
    if all(isinstance(s, Rev) for s in ss):
        a = szip([s.s for s in ss], f)
        return None if a is None else Rev(a)
    return None


def sfilter(s, f):
    """keep elements whose f(elem) -> bdd holds (f applied to the element value)"""
    if isinstance(s, Lit):
        return scat([sguard(f(x), Lit((x,))) for x in s.items])
    if isinstance(s, Map):
        t, e = _open(s.h, s.elem)
        p = f(e)
        H = 1 + max(height(BArg(p)), height(s))
        return smap(s.n, T.band(ren(s.pred, idx(s.h), idx(H)), ren(p, t, idx(H))), H, ren(e, t, idx(H)))
    return None


# ------------------------------------------------------------------ value-level if-then-else
def vite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    if isinstance(a, N) and isinstance(b, N):
        dt = a.dt if a.dt == b.dt else join_dt(a.dt, b.dt)
        return N(T.ite(c, a.p, b.p), dt)
    if isinstance(a, B) and isinstance(b, B):
        return B(T.bite(c, a.b, b.b))
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup(tuple(vite(c, x, y) for x, y in zip(a.items, b.items)))
    if isinstance(a, ArrV) and isinstance(b, ArrV) and a.ncol == b.ncol:
        dt = a.dt if a.dt == b.dt else join_dt(a.dt, b.dt)
        return ArrV(site(c, a.s, b.s), dt, a.ncol)
    if isinstance(a, ListV) and isinstance(b, ListV):
        return ListV(site(c, a.s, b.s))
    if isinstance(a, MemV) and isinstance(b, MemV) and (a.w, a.n) == (b.w, b.n):
        return MemV(site(c, a.s, b.s), a.w, vite(c, a.live, b.live), a.n)
    if isinstance(a, PtrV) and isinstance(b, PtrV) and a.obj == b.obj:
        return PtrV(a.obj, T.ite(c, a.off, b.off))
    if isinstance(a, ObjV) and isinstance(b, ObjV) and a.cls == b.cls and a.names == b.names:
        return ObjV(a.cls, a.names, tuple(vite(c, x, y) for x, y in zip(a.items, b.items)))
    if isinstance(a, DictV) and isinstance(b, DictV) and [k for k, _ in a.items] == [k for k, _ in b.items]:
        return DictV(tuple((k, vite(c, x, y)) for (k, x), (_, y) in zip(a.items, b.items)))
    if isinstance(a, FileV) and isinstance(b, FileV) and a.path == b.path and a.mode == b.mode:
        return FileV(a.path, a.mode, T.ite(c, a.pos, b.pos), site(c, a.out, b.out))
    if isinstance(a, Bytes) and isinstance(b, Bytes) and a.n == b.n:
        return Bytes(a.n, T.ite(c, a.v, b.v))
    if isinstance(a, SetV) and isinstance(b, SetV):
        return SetV(T.bite(c, a.pred, b.pred))
    if isinstance(a, Chunk) and isinstance(b, Chunk) and (a.file, a.kind) == (b.file, b.kind):
        return Chunk(a.file, T.ite(c, a.addr, b.addr), T.ite(c, a.n, b.n), a.kind)
    if isinstance(a, Ite) and a.c == c:
        a = a.a
    if isinstance(b, Ite) and b.c == c:
        b = b.b
    # prefer canonical nesting: ite(c, ite(d,x,y), y) etc.
    if isinstance(a, Ite) and a.b == b:
        return vite(T.band(c, a.c), a.a, b)
    if isinstance(b, Ite) and b.a == a:
        return vite(T.bor(c, b.c), a, b.b)
    if isinstance(b, Ite) and type(b.b) is type(a) and not isinstance(a, (Ite, K)):
        # ite(c, a, ite(d, x, y)) with mergeable a,y
        return vite(T.band(T.bnot(c), b.c), b.a, vite(c, a, b.b))
    if isinstance(b, Ite) and type(b.a) is type(a) and not isinstance(a, (Ite, K)):
        return vite(T.band(T.bnot(c), T.bnot(b.c)), b.b, vite(c, a, b.a))
    if isinstance(a, Ite) and type(a.b) is type(b) and not isinstance(b, (Ite, K)):
        return vite(T.band(c, a.c), a.a, vite(c, a.b, b))
    if isinstance(a, Ite) and type(a.a) is type(b) and not isinstance(b, (Ite, K)):
        return vite(T.band(c, T.bnot(a.c)), a.b, vite(c, a.a, b))
    if isinstance(a, Ite) and isinstance(b, Ite) and type(a.a) is type(b.a) and type(a.b) is type(b.b):
        cc = T.bite(c, a.c, b.c)
        return vite(cc, vite(c, a.a, b.a), vite(c, a.b, b.b))
    if isinstance(a, Ite) and isinstance(b, Ite) and type(a.a) is type(b.b) and type(a.b) is type(b.a):
        cc = T.bite(c, a.c, T.bnot(b.c))
        return vite(cc, vite(c, a.a, b.b), vite(c, a.b, b.a))
    if c > 1 and isinstance(b, K) and not isinstance(a, K):
        # keep constants first: canonical orientation
        return Ite(T.bnot(c), b, a)
    return Ite(c, a, b)


_ORD = ['bool', 'u1', 'i1', 'u2', 'i2', 'u4', 'i4', 'u8', 'i8', 'int', 'f4', 'f8', 'float', 'f16', 'O']


def join_dt(a, b):
    return a if _ORD.index(a) >= _ORD.index(b) else b


# ------------------------------------------------------------------ containers (heap contents; also pure values)
class ArrV(V):
    """numpy array: element sequence (Tup rows when ncol), dtype code"""
    F = ('s', 'dt', 'ncol')
    __slots__ = F

    def ev(self, val):
        return self.s.ev(val)


class ListV(V):
    F = ('s',)
    __slots__ = F

    def ev(self, val):
        return self.s.ev(val)


class MemV(V):
    """memory object: cells of `w` bits, each an unsigned number"""
    F = ('s', 'w', 'live', 'n')
    __slots__ = F

    def ev(self, val):
        return self.s.ev(val)


class PtrV(V):
    """pointer: byte offset into a memory object"""
    F = ('obj', 'off')
    __slots__ = F

    def ev(self, val):
        return (repr(self.obj), T.ev(self.off, val))


CELLW = {}             # loop token of a memory object's cells -> bits per cell


def cell(s, i, w):
    return N(T.fn('cell', s, i, num(w), isint=True, lo=0, hi=(1 << w) - 1), 'int')


def held(s, w):
    if isinstance(s, Lit):
        return s
    if isinstance(s, Map) and s.pred == 1 and isinstance(s.elem, N) and len(s.elem.p.d) == 1 and not any(T.ATOMS[a].kind != 'fn' for a in s.elem.p.atoms()):
        return s
    h = 1 + height(s)
    return Map(slen(s), 1, h, cell(HeldS(s, w), idx(h), w))


def _ev_cell(val, at, s, i, w):
    while isinstance(s, HeldS):
        s = s.s
    v = sget(s, i)
    if not isinstance(v, N) or v.p == T.of_atom(at):
        raise T.Undefined('cell')
    return T.ev(v.p, val)


T.EVAL_FN['cell'] = _ev_cell


def _rb_cell(at, s, i, w):
    if isinstance(s, (MuS, HeldS)):
        return T.of_atom(T._mkatom('fn', ('cell', s, i, w), True, at.lo, at.hi))
    v = sget(s, i)
    if isinstance(v, N):
        return v.p
    return T.of_atom(T._mkatom('fn', ('cell', s, i, w), True, at.lo, at.hi))


T.REBUILD['cell'] = _rb_cell


class DictV(V):
    F = ('items',)
    __slots__ = F

    def ev(self, val):
        return {T.ev_any(k, val): v.ev(val) for k, v in self.items}


class SetV(V):
    """set given by its membership predicate over sym('setx')"""
    F = ('pred',)
    BOOLF = ('pred',)
    __slots__ = F

    def ev(self, val):
        (m, c), = setx().d.items()
        a = m[0][0]
        old = val.env.get(a)
        out = []
        try:
            for i in range(-1, 34):
                val.env[a] = Fraction(i)
                if T.evb(self.pred, val):
                    out.append(Fraction(i))
        finally:
            if old is None:
                val.env.pop(a, None)
            else:
                val.env[a] = old
        return out


SETX = None


def setx():
    return T.sym('setx', True)


class ObjV(V):
    F = ('cls', 'names', 'items')
    __slots__ = F

    def ev(self, val):
        return tuple(x.ev(val) for x in self.items)


class FileV(V):
    """open file: path value, mode string, read position, written content (pieces)"""
    F = ('path', 'mode', 'pos', 'out')
    __slots__ = F

    def ev(self, val):
        return ('file',)


class GenV(V):
    """generator/iterator over a finite drained sequence (consumed flag not modelled)"""
    F = ('s',)
    __slots__ = F

    def ev(self, val):
        return self.s.ev(val)


# ------------------------------------------------------------------ loops
class LoopSlice(V):
    """Loop summary in canonical slot order.
    dom: NONE (while) or Num trip bound;  vars: tuple of (kind, init, next);  stop: bdd over mu/K.
    kinds: num/bool/seq/obj.  Bound symbols mu_*(h,slot), iteration counter slot 'K'."""
    F = ('h', 'dom', 'vars', 'stop')
    BOOLF = ('stop',)
    __slots__ = F

    def _subst(self, f, memo):
        h = self.h

        g = _shield(f, lambda at: _is_mu(at, h))
        m2 = {}
        dom = T.subst(self.dom, f, memo) if isinstance(self.dom, Num) else self.dom
        vs = tuple((k, T.subst(i, f, memo), T.subst(x, g, m2)) for k, i, x in self.vars)
        return LoopSlice(h, dom, vs, T.subst_bool(self.stop, g, m2))

    def run(self, val, limit=40):
        """iterate on a valuation; yields (state env dict, stopped?) then returns"""
        dom = None if isinstance(self.dom, K) else T.ev(self.dom, val)
        if dom is not None and dom > limit:
            raise T.Undefined('long loop')
        state = [T.ev_any(i, val) for _, i, _ in self.vars]
        keys = []
        for s, (k, i, n) in enumerate(self.vars):
            if k[0] == 'num':
                (m, c), = mu_num(self.h, s, *k[1:]).d.items()
                keys.append(m[0][0])
            else:
                keys.append(('mu', self.h, s))
        (m, c), = mu_num(self.h, 'K', True, 0, None).d.items()
        kk = m[0][0]
        saved = {k: val.env.get(k) for k in keys + [kk]}

        def put(it):
            for k, v in zip(keys, state):
                val.env[k] = v
            val.env[kk] = Fraction(it)
        try:
            it = 0
            while True:
                put(it)
                if dom is not None and it >= dom:
                    yield 'end'
                    return
                if T.evb(self.stop, val):
                    yield 'stop'
                    return
                yield 'iter'
                put(it)
                state = [T.ev_any(n, val) for _, _, n in self.vars]
                it += 1
                if it > limit:
                    if dom is None and getattr(val, 'finite', None) and it > val.finite:
                        raise T.Diverges()
                    raise T.Undefined('loop limit')
        finally:
            for k, v in saved.items():
                if v is None:
                    val.env.pop(k, None)
                else:
                    val.env[k] = v


class LoopCollect(Seq):
    """pieces emitted by a loop: concatenation of piece over completed iterations, then last at the stop"""
    F = ('loop', 'piece', 'last')
    __slots__ = F

    def _subst(self, f, memo):
        return LoopCollect(*_subst_loop(self.loop, (self.piece, self.last), f, memo))

    def ev(self, val):
        out = []
        for st in self.loop.run(val):
            if st == 'iter':
                out += self.piece.ev(val)
            elif st == 'stop':
                out += self.last.ev(val)
        return out


def _subst_loop(loop, exprs, f, memo):
    h = loop.h

    g = _shield(f, lambda at: _is_mu(at, h))
    l2 = loop._subst(f, memo)
    m2 = {}
    return (l2,) + tuple(T.subst(x, g, m2) for x in exprs)


class ExitV(V):
    """value at loop exit: atstop when left by the stop condition, atend when the domain is exhausted"""
    F = ('loop', 'atstop', 'atend')
    __slots__ = F

    def _subst(self, f, memo):
        return ExitV(*_subst_loop(self.loop, (self.atstop, self.atend), f, memo))

    def ev(self, val):
        for st in self.loop.run(val):
            if st == 'stop':
                return self.atstop.ev(val)
            if st == 'end':
                return self.atend.ev(val)
        raise T.Undefined('loop')


T.EVAL_FN['exit'] = lambda val, at, e: e.ev(val)
T.EVAL_PRED['exit'] = lambda val, e: bool(e.ev(val))


def _ev_mu(val, key):
    k = tuple(key)
    if k not in val.env:
        raise T.Undefined('mu')
    return bool(val.env[k])


T.EVAL_PRED['mu'] = _ev_mu


class SeqExit(Seq):
    """list value at loop exit (non-accumulating)"""
    F = ('loop', 'atstop', 'atend')
    __slots__ = F

    def _subst(self, f, memo):
        return SeqExit(*_subst_loop(self.loop, (self.atstop, self.atend), f, memo))

    ev = ExitV.ev


# ------------------------------------------------------------------ loop canonicalisation
_tok = [0]


class Tok:
    """fresh loop-variable symbols used while a loop body is being analysed"""

    @staticmethod
    def new():
        _tok[0] += 1
        return _tok[0]

    @staticmethod
    def num(i, isint, lo, hi):
        return T.sym(('tok', i), isint, lo, hi)

    @staticmethod
    def bool(i):
        return T.bpred('tok', ('tok', i))

    @staticmethod
    def seq(i):
        return MuS(0, ('tok', i))

    @staticmethod
    def obj(i):
        return MuV(0, ('tok', i))


def tokens(x):
    """ids of loop tokens occurring in x (value, Num, or int = bdd)"""
    if isinstance(x, int):
        x = BArg(x)
    r = set()
    for y in T.walk(x):
        if isinstance(y, T.Atom):
            if y.kind == 'sym' and isinstance(y.args[0], tuple) and y.args[0][0] == 'tok':
                r.add(y.args[0][1])
        elif isinstance(y, tuple) and y and y[0] == 'pred' and y[1] == 'tok':
            r.add(y[2][1])
        elif isinstance(y, (MuS, MuV)) and isinstance(y.slot, tuple) and y.slot[0] == 'tok':
            r.add(y.slot[1])
    if isinstance(x, (MuS, MuV)) and isinstance(x.slot, tuple) and x.slot[0] == 'tok':
        r.add(x.slot[1])
    return r


def subst_tok(x, m):
    """m: token id -> replacement value (Num for num, bdd int wrapped BArg for bool, Seq, V)"""
    if not m:
        return x

    def f(at):
        if isinstance(at, tuple):
            if at[1] == 'tok' and at[2][1] in m:
                return m[at[2][1]].b
            return None
        if at.kind == 'sym' and isinstance(at.args[0], tuple) and at.args[0][0] == 'tok':
            return m.get(at.args[0][1])
        return None
    f.preds = True
    f.tok = m
    if isinstance(x, int):
        return T.subst_bool(x, f)
    return T.subst(x, f)


def _mu_subst(self, f, memo):
    m = getattr(f, 'mus', None)
    if m:
        r = m.get((self.h, self.slot))
        if r is not None:
            return r
    m = getattr(f, 'tok', None)
    if m and isinstance(self.slot, tuple) and self.slot[0] == 'tok':
        r = m.get(self.slot[1])
        if r is not None:
            return r
    return self


MuS._subst = _mu_subst
MuV._subst = _mu_subst
for _c in (Map, Flat, LoopSlice):
    pass


class LVar:
    """one scalar loop variable: kind ('num',isint,lo,hi)|('bool',)|('seq',)|('obj',); token id; init, next"""
    __slots__ = ('tok', 'kind', 'init', 'next')

    def __init__(self, tok, kind, init, next):
        self.tok, self.kind, self.init, self.next = tok, kind, init, next

    def sym(self):
        return tokval(self.kind, self.tok)


def tokval(kind, tok):
    if kind[0] == 'num':
        return Tok.num(tok, *kind[1:])
    if kind[0] == 'bool':
        return BArg(Tok.bool(tok))
    if kind[0] == 'seq':
        return Tok.seq(tok)
    return Tok.obj(tok)


def colval(kind, h, slot):
    if kind[0] == 'num':
        return mu_num(h, slot, *kind[1:])
    if kind[0] == 'bool':
        return BArg(mu_bool(h, slot))
    if kind[0] == 'seq':
        return MuS(h, slot)
    return MuV(h, slot)


_UID = {}


def uid(x):
    r = _UID.get(x)
    if r is None:
        r = _UID[x] = len(_UID)
    return r


def _skey(x):
    return uid(x)


class LoopCanon:
    """Canonical slices of one analysed loop."""

    def __init__(self, vars, ktok, dom, stop):
        self.vars = {v.tok: v for v in vars}
        self.ktok = ktok
        self.dom = dom
        self.stop = stop
        self.cache = {}

    def slice(self, exprs):
        """exprs: tuple of values over tokens -> (LoopSlice, exprs over canonical slots)"""
        need = set()
        work = list(tokens(tuple(exprs)) | tokens(self.stop))
        while work:
            t = work.pop()
            if t in need or t not in self.vars:
                continue
            need.add(t)
            work += list(tokens(self.vars[t].next))
        vs = [self.vars[t] for t in sorted(need)]
        h = 1 + max([0] + [height(v.init) for v in vs] + [height(v.next) for v in vs] +
                    [height(BArg(self.stop)), height(tuple(exprs))] +
                    ([height(self.dom)] if isinstance(self.dom, Num) else []))
        kn = mu_num(h, 'K', True, 0, None)
        # partition refinement
        keys = {v.tok: (v.kind, _skey(v.init)) for v in vs}
        rank = self._rank(keys)
        while True:
            m = {v.tok: colval(v.kind, 10 ** 6, ('col', rank[v.tok])) for v in vs}
            m[self.ktok] = kn
            keys = {v.tok: (rank[v.tok], _skey(subst_tok(v.next, m))) for v in vs}
            r2 = self._rank(keys)
            if len(set(r2.values())) == len(set(rank.values())):
                rank = r2
                break
            rank = r2
        order = sorted(set(rank.values()))
        slot = {r: i for i, r in enumerate(order)}
        m = {v.tok: colval(v.kind, h, slot[rank[v.tok]]) for v in vs}
        m[self.ktok] = kn
        out = [None] * len(order)
        for v in vs:
            out[slot[rank[v.tok]]] = (v.kind, v.init, subst_tok(v.next, m))
        sl = LoopSlice(h, self.dom, tuple(out), subst_tok(self.stop, m))
        return sl, tuple(subst_tok(e, m) for e in exprs)

    @staticmethod
    def _rank(keys):
        ks = sorted(set(keys.values()), key=repr)
        d = {k: i for i, k in enumerate(ks)}
        return {t: d[k] for t, k in keys.items()}


def reopen(loop, exprs):
    """loop variables of a closed slice as fresh tokens again -> (LoopCanon, exprs)"""
    h = loop.h
    toks = [Tok.new() for _ in loop.vars]
    kt = Tok.new()
    rep = {(h, i): tokval(k, t) for i, ((k, _, _), t) in enumerate(zip(loop.vars, toks))}
    rep[(h, 'K')] = tokval(('num', True, 0, None), kt)

    def f(at):
        if isinstance(at, tuple):
            r = rep.get(tuple(at[2][1:])) if at[1] == 'mu' else None
            return r.b if r is not None else None
        if at.kind == 'sym' and isinstance(at.args[0], tuple) and at.args[0][0] == 'mu':
            return rep.get(tuple(at.args[0][1:]))
        return None
    f.preds = True
    f.mus = {k: v for k, v in rep.items() if isinstance(v, (MuS, MuV))}
    memo = {}
    vs = [LVar(t, k, i, T.subst(n, f, memo)) for t, (k, i, n) in zip(toks, loop.vars)]
    stop = T.subst_bool(loop.stop, f, memo)
    return LoopCanon(vs, kt, loop.dom, stop), kt, tuple(T.subst(e, f, memo) for e in exprs)


def rounds(loop):
    """number of completed iterations, over the loop variables it depends on"""
    c, kt, _ = reopen(loop, ())
    k = N(tokval(('num', True, 0, None), kt), 'num')
    sl, (x, y) = c.slice((k, k))
    return T.fn('exit', ExitV(sl, x, y), isint=True, lo=0)


def _ev_eltfn(val, at, s, i):
    l = s.ev(val)
    k = T.ev(i, val)
    if k.denominator != 1 or not -len(l) <= k < len(l):
        raise T.Undefined('index')
    x = l[int(k)]
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    raise T.Undefined('element')


T.EVAL_FN['elt'] = _ev_eltfn


# ---- pointwise access (comparison of concatenations that are cut at symbolic places)
def derange(s):
    """a map restricted to an interval of its positions, as a map over all positions"""
    if isinstance(s, Rev):
        return Rev(derange(s.s))
    if isinstance(s, Cat):
        return Cat(tuple(derange(p) for p in s.parts))
    if not isinstance(s, Map) or s.pred <= 1:
        return s
    i = idx(s.h)
    (im, _), = i.d.items()
    lo, hi = T.ZERO, s.n
    rest = s.pred
    for v in sorted(T.BDD.support(s.pred)):
        for c in (1, 0):
            if T._cof(rest, v, 1 - c) == 0:        # the literal v == c is necessary
                k = T.BDD.preds[v]
                if k[0] != 'lt0':
                    return s
                p = k[1]
                co = p.d.get(im)
                q = p - i * co if co is not None else p
                if co is None or abs(co) != 1 or not T.isint(q) or any(T.ATOMS[a] is T.ATOMS[im[0][0]] for m in q.d for a, _ in m):
                    return s
                # p = co*i + q ; literal: p < 0 (c=1) or p >= 0 (c=0)
                if c == 1 and co == 1 or c == 0 and co == -1:      # i < -q   |  -i+q >= 0 : i <= q
                    b = -q if co == 1 else q + 1
                    hi = b if T.vanishes(T.lt(hi, b)) else hi if T.vanishes(T.lt(b, hi)) else None
                else:                                              # -i+q < 0 : i > q | i+q >= 0 : i >= -q
                    a = q + 1 if co == -1 else -q
                    lo = a if T.vanishes(T.lt(a, lo)) else lo if T.vanishes(T.lt(lo, a)) else None
                if lo is None or hi is None:
                    return s
                rest = T._cof(rest, v, c)
                break
    if rest != 1 or not T.vanishes(T.lt(hi, lo)):
        return s
    return Map(hi - lo, 1, s.h, ren(s.elem, i, i + lo))


def at_pos(s, i):
    """element at position i, known to be in range"""
    s = derange(s)
    if isinstance(s, Cat):
        r = at_pos(s.parts[-1], i - sum((slen(p) for p in s.parts[:-1]), T.ZERO))
        off = slen(s) - slen(s.parts[-1])
        for p in reversed(s.parts[:-1]):
            off = off - slen(p)
            r = vite(T.lt(i, off + slen(p)), at_pos(p, i - off), r)
        return r
    if isinstance(s, Rev):
        return at_pos(s.s, slen(s.s) - 1 - i)
    return sget(s, i)
