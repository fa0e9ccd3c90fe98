"""C's integers, memory and library calls as terms; the environment of a run is scripted by a CEnv."""
from fractions import Fraction
import re, ast, types
from . import terms as T
from . import values as VV
from . import zone as Z
from .terms import num
from .values import *
from .pyeval import Dead, ExcV, Ctx, UNDEF, Abort
from .pylib import bi, Call
from . import cfront

MODNAME = 'freqcd_c'
W64 = (1 << 64) - 1


class Round:
    """what one call of select offers.  data: None, 'eof', 'err' or (events, odd bytes left over); freq: None, 'eof', 'err' or a
    tuple of characters (10 = newline, other strings name arbitrary printable characters); write: 'ok', 'short' or 'err'"""
    def __init__(self, data=None, freq=None, write='ok'):
        self.data, self.freq, self.write = data, freq, write


class CEnv:
    def __init__(self, opts=(), rounds=(), end='select', nomem=(), noopen=(), numbers=None, lens=None, legacy=False):
        """numbers: texts that are plain numbers -> makers of their values (a text is an argument's name or a tuple of line characters),
        or of 1-tuples of the value of a leading number when the text is not all number;
        lens: lengths of arguments, None for any length; 20 unless listed"""
        self.opts, self.rounds, self.end, self.nomem, self.noopen = tuple(opts), tuple(rounds), end, nomem, noopen
        self.legacy = legacy
        self.numbers, self.lens = dict(numbers or {}), dict(lens or {})

    def number(self, t):
        f = self.numbers.get(t.args[0].o if isinstance(t, Opq) else tuple(chname(x) for x in t.items)) if self.numbers else None
        return f() if f is not None else None


def chname(x):
    k = x.p.const()
    if k is not None:
        return int(k)
    a = [T.ATOMS[i] for i in x.p.atoms()]
    return a[0].args[0][3:] if len(a) == 1 and a[0].kind == 'sym' else None


def load(I, path):
    src, lines, lo = cfront.lowered(path)
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if hasattr(n, 'lineno'):
            n.lineno = lines[n.lineno - 1] if n.lineno - 1 < len(lines) else n.lineno
    fid = ('mod', MODNAME)
    I.modules[MODNAME] = fid
    st = I.st0
    st.frames[fid] = {'__name__': K(MODNAME), '__file__': K(path), '#round': N(T.ZERO, 'int'), '#pos': N(T.ZERO, 'int'), '#part': N(T.ZERO, 'int'),
                      '#opt': N(T.ZERO, 'int'), '#fds': Tup(()), '#stderr': ListV(EMPTY), '#stdout': ListV(EMPTY), '#mallocs': N(T.ZERO, 'int'),
                      '#wrote': ListV(EMPTY)}
    ctx = Ctx(fid, MODNAME, '<module>')
    ctx.chain = (fid,)
    ctx.fnode = None
    old, I.cur = I.cur, MODNAME
    try:
        I.block(tree.body, st, ctx)
    finally:
        I.cur = old
    return lo


def fr(c):
    return c.st.frames[('mod', MODNAME)]


def const(v):
    k = v.p.const() if isinstance(v, N) else None
    return int(k) if k is not None else None


def getn(c, v):
    v = c.I.resolve(v, c.st) if isinstance(v, Ite) else v
    x = c.I.tonum(v)
    if x is None:
        raise Abort(f'not a number in C code: {type(v).__name__}')
    return x.p


def inrange(p, bits, signed):
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    r = T.rng(p)
    return lo, hi, r[0] is not None and r[0] >= lo and r[1] is not None and r[1] <= hi


def here(c, p):
    """the facts that surely hold on this path about what p mentions"""
    known = c.I.known(c.st)
    want = set()
    for a in p.bits():
        want |= T.BDD.support(a.args[0])
    want = {x for v in want if T.BDD.preds[v][0] in ('lt0', 'eq0') for x in T.BDD.preds[v][1].atoms()}
    r = 1
    for v in T.BDD.support(known):
        k = T.BDD.preds[v]
        if k[0] in ('lt0', 'eq0') and set(k[1].atoms()) & want:
            for val in (True, False):
                if T.restrict_lit(known, v, not val) == 0:
                    l = T.BDD.mk(v, 0, 1)
                    r = T.band(r, l if val else T.bnot(l))
    return r


def never(c, cond):
    """cond cannot hold here, given the order facts that surely hold on this path"""
    known = c.I.known(c.st)
    if T.implies(known, T.bnot(cond)):
        return True
    if cond == 1 or known < 2:
        return False
    key = (known, cond)
    memo = c.I.__dict__.setdefault('cnever', {})
    if key not in memo:
        memo[key] = _never(known, cond)
    return memo[key]


def _never(known, cond):
    atoms = lambda v: T.BDD.preds[v][1].atoms() if T.BDD.preds[v][0] in ('lt0', 'eq0') else ()
    lits = []
    for v in T.BDD.support(known):
        if T.BDD.preds[v][0] not in ('lt0', 'eq0'):
            continue
        for val in (True, False):
            if T.restrict_lit(known, v, not val) == 0:
                lits.append((v, val))
    want = set()
    for v in T.BDD.support(cond):
        want |= set(atoms(v))
    pick, grew = [], True
    while grew:
        grew = False
        for l in list(lits):
            a = set(atoms(l[0]))
            if a & want:
                lits.remove(l)
                pick.append(l)
                want |= a
                grew = True
    z = Z.Zone(())
    for v, val in pick[:24]:
        z = z.add(T.BDD.preds[v], val)
    return Z.zsimp(cond, None, z, [2000]) == 0


def wrapped(p, bits, signed):
    lo, hi, ok = inrange(p, bits, signed)
    if ok:
        return p
    return T.mod(p - lo, num(1 << bits)) + lo


def split_small(p):
    return p


# ------------------------------------------------------------------ integers
@bi('cmodel.num')
def c_num(c):
    return N(getn(c, c.a[0]), 'int')


@bi('cmodel.nz')
def c_nz(c):
    v = c.a[0]

    def nz(v):
        if isinstance(v, Ite):
            return T.bite(v.c, nz(v.a), nz(v.b))
        if isinstance(v, B):
            return v.b
        if isinstance(v, N):
            return T.bnot(T.eq0(v.p))
        if isinstance(v, PtrV):
            return 1
        if v == NONE:
            return 0
        if isinstance(v, Opq):
            return T.bpred('truth', v)
        raise Abort('truth of a C value')
    return B(nz(v))


@bi('cmodel.cast')
def c_cast(c):
    p, bits, signed = getn(c, c.a[0]), const(c.a[1]), c.a[2].b == 1
    lo, hi, ok = inrange(p, bits, signed)
    if ok or never(c, T.bor(T.lt(p, num(lo)), T.lt(num(hi), p))):
        return N(p, 'int')
    return N(wrapped(p, bits, signed), 'int')


@bi('cmodel.fit')
def c_fit(c):
    p, bits, signed = getn(c, c.a[0]), const(c.a[1]), c.a[2].b == 1
    if not signed:
        return N(wrapped(p, bits, False), 'int')
    lo, hi, ok = inrange(p, bits, True)
    if not ok:
        fault(c, T.bor(T.lt(p, num(lo)), T.lt(num(hi), p)), 'SignedOverflow')
    return N(p, 'int')


def ends(c, p):
    r = T.rng(p)
    return r if None not in r else None


@bi('cmodel.mul')
def c_mul(c):
    a, b, bits, sg = getn(c, c.a[0]), getn(c, c.a[1]), const(c.a[2]), c.a[3].b == 1
    ra, rb = ends(c, a), ends(c, b)
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
    p = a * b
    if ra and rb:
        xs = [x * y for x in ra for y in rb]
        if lo <= min(xs) and max(xs) <= hi:
            return N(p, 'int')
    if not sg:
        return N(wrapped(p, bits, False), 'int')
    fault(c, T.bor(T.lt(p, num(lo)), T.lt(num(hi), p)), 'SignedOverflow')
    return N(p, 'int')


def tdiv(a, b):
    if T.nonneg(a) and T.nonneg(b):
        return T.floordiv(a, b)
    k = b.const()
    if k is None:
        raise Abort('division by a signed variable')
    q = lambda x: T.floor(x * Fraction(1, abs(int(k))))
    r = T.ite(T.lt(a, T.ZERO), -q(-a), q(a))
    return r if k > 0 else -r


@bi('cmodel.div', 'cmodel.rem')
def c_div(c):
    a, b = getn(c, c.a[0]), getn(c, c.a[1])
    fault(c, T.eq0(b), 'DivisionByZero')
    q = tdiv(a, b)
    return N(q if c.name == 'cmodel.div' else a - b * q, 'int')


@bi('cmodel.shl')
def c_shl(c):
    a, k, bits, signed = getn(c, c.a[0]), getn(c, c.a[1]).const(), const(c.a[2]), c.a[3].b == 1
    if k is None or not 0 <= k < bits:
        raise Abort('shift by a variable amount')
    p = a * (1 << int(k))
    if not signed:
        return N(wrapped(p, bits, False), 'int')
    lo, hi, ok = inrange(p, bits, True)
    if not ok:
        fault(c, T.bor(T.lt(p, num(lo)), T.lt(num(hi), p)), 'SignedOverflow')
    return N(p, 'int')


@bi('cmodel.shr')
def c_shr(c):
    a, k = getn(c, c.a[0]), getn(c, c.a[1]).const()
    if k is None or k < 0:
        raise Abort('shift by a variable amount')
    return N(T.floor(a * Fraction(1, 1 << int(k))), 'int')


@bi('cmodel.tofloat')
def c_tofloat(c):
    return N(getn(c, c.a[0]), 'float')


@bi('cmodel.toint')
def c_toint(c):
    p, bits, signed = getn(c, c.a[0]), const(c.a[1]), c.a[2].b == 1
    r = T.ite(T.lt(p, T.ZERO), -T.floor(-p), T.floor(p))
    lo, hi, ok = inrange(r, bits, signed)
    if not ok:
        fault(c, T.bor(T.lt(r, num(lo)), T.lt(num(hi), r)), "FloatToIntOverflow")
    return N(r, 'int')


# ------------------------------------------------------------------ memory
def junk(name):
    return N(T.fn('in:junk', K(name), isint=True), 'int')


@bi('cmodel.undef')
def c_undef(c):
    return junk(c.a[0].o)


@bi('cmodel.opaque')
def c_opaque(c):
    return Opq('address', (c.fz(c.a[0]),))


def newmem(c, n, cs, zero, name):
    if zero:
        s = Lit((N(T.ZERO, 'int'),) * n)
    elif n <= 256:
        s = Lit(tuple(N(T.fn('in:junk', K(name), num(i), isint=True, lo=0, hi=(1 << 8 * cs) - 1), 'int') for i in range(n)))
    else:
        s = Map(num(n), 1, 1, N(T.fn('in:junk', K(name), idx(1), isint=True, lo=0, hi=(1 << 8 * cs) - 1), 'int'))
    return PtrV(c.alloc(MemV(s, 8 * cs, K(True), n)), T.ZERO)


@bi('cmodel.array')
def c_array(c):
    return newmem(c, const(c.a[0]), const(c.a[1]), c.a[2].b == 1, c.a[3].o)


@bi('cmodel.box')
def c_box(c):
    n = const(c.a[0])
    return PtrV(c.alloc(MemV(Lit((c.a[1],)), 8 * n, K(True), 1)), T.ZERO)


@bi('cmodel.text')
def c_text(c):
    return PtrV(K(c.a[0].o), T.ZERO)


@bi('cmodel.fill')
def c_fill(c):
    p = c.a[0]
    m = c.I.deref(p.obj, c.st)
    it = list(m.s.items)
    for i, ch in enumerate(c.a[1].o.encode() + b'\0'):
        if i < len(it):
            it[i] = N(num(ch), 'int')
    c.st.heap[p.obj.id] = MemV(Lit(tuple(it)), m.w, m.live, m.n)


@bi('cmodel.padd')
def c_padd(c):
    v, k = c.a[0], getn(c, c.a[1])

    def f(v):
        if isinstance(v, Ite):
            return vite(v.c, f(v.a), f(v.b))
        if isinstance(v, PtrV):
            return PtrV(v.obj, v.off + k)
        if k == T.ZERO:
            return v
        return Opq('badptr', (c.fz(v),))
    return f(v)


@bi('cmodel.psub')
def c_psub(c):
    a, b = c.a[0], c.a[1]
    if isinstance(a, PtrV) and isinstance(b, PtrV) and a.obj == b.obj:
        return N(T.floor((a.off - b.off) * Fraction(1, const(c.a[2]))), 'int')
    raise Abort('difference of unrelated pointers')


@bi('cmodel.pcmp')
def c_pcmp(c):
    op, a, b = c.a[0].o, c.I.resolve(c.a[1], c.st), c.I.resolve(c.a[2], c.st)
    if isinstance(a, N) and a.p == T.ZERO:
        a = NONE
    if isinstance(b, N) and b.p == T.ZERO:
        b = NONE

    def f(a, b):
        if isinstance(a, Ite):
            return T.bite(a.c, f(a.a, b), f(a.b, b))
        if isinstance(b, Ite):
            return T.bite(b.c, f(a, b.a), f(a, b.b))
        if isinstance(a, PtrV) and isinstance(b, PtrV) and a.obj == b.obj:
            d = a.off - b.off
            return {'<': lambda: T.lt(d, T.ZERO), '<=': lambda: T.le(d, T.ZERO), '>': lambda: T.lt(T.ZERO, d), '>=': lambda: T.le(T.ZERO, d),
                    '==': lambda: T.eq0(d), '!=': lambda: T.bnot(T.eq0(d))}[op]()
        if op in ('==', '!='):
            if a == b:
                return 1 if op == '==' else 0
            if a == NONE or b == NONE or isinstance(a, PtrV) and isinstance(b, PtrV):
                return 0 if op == '==' else 1
        raise Abort('comparison of unrelated pointers')
    return B(f(a, b))


def fault(c, cond, what='MemoryFault'):
    if cond != 0 and not never(c, cond):
        c.I.raise_if(cond, ExcV(what, ()), c.st, c.ctx, c.node)


def pointee(c, p, size, what):
    """(object, cell bytes, contents) after checking that size bytes at p lie inside a live object"""
    p = c.I.resolve(p, c.st)
    if not isinstance(p, PtrV):
        fault(c, 1, 'NullOrWildPointer')
    m = c.I.deref(p.obj, c.st)
    if isinstance(m, MemV):
        cs = m.w // 8
        if m.live != K(True):
            fault(c, 1 if m.live == K(False) else T.bpred('dead', m.live), 'UseAfterFree')
        end = num(m.n * cs)
        fault(c, T.bor(T.lt(p.off, T.ZERO), T.lt(end, p.off + size)))
        return p, m, cs
    return p, m, None


def signed(p, bits):
    r = T.rng(p)
    if r[1] is not None and r[1] < 1 << bits - 1:
        return p
    return T.mod(p + (1 << bits - 1), num(1 << bits)) - (1 << bits - 1)


def slot(p, cs):
    i = T.floor(p.off * Fraction(1, cs)) if cs > 1 else p.off
    k = (p.off - i * cs).const()
    if k is None:
        raise Abort('memory access at an undecided position inside a cell: ' + T.show(p.off)[:200])
    return i, int(k)


def getcell(m, i):
    k = i.const()
    if k is None and isinstance(m.s, Lit) and len(m.s.items) > 16:
        raise Abort('undecided position in a small object')
    return sget(m.s, i)


@bi('cmodel.ld')
def c_ld(c):
    return ld(c, c.a[0], const(c.a[1]), c.a[2].b == 1)


def ld(c, p, size, sgn=False):
    p = c.I.resolve(p, c.st)
    if isinstance(p, Ite):
        return c.I.choose(p.c, lambda x: ld(sub(c, x), p.a, size, sgn), lambda x: ld(sub(c, x), p.b, size, sgn), c.st)
    e = endchar(c, p)
    if e is not None:
        return e
    p, m, cs = pointee(c, p, size, 'read')
    if isinstance(m, K) and isinstance(m.o, str):
        k = p.off.const()
        b = m.o.encode() + b'\0'
        if k is None:
            raise Abort('undecided position in a text')
        fault(c, 0 if 0 <= k < len(b) else 1)
        return N(num(b[int(k)]), 'int')
    if isinstance(m, Opq):
        n = textlen(c, m)
        fault(c, T.bor(T.lt(p.off, T.ZERO), T.lt(n, p.off)))
        return N(T.ite(T.eq(p.off, n), T.ZERO, char(m, p.off).p), 'int')
    if not isinstance(m, MemV):
        raise Abort('load from ' + type(m).__name__)
    i, k = slot(p, cs)
    if k + size > cs:
        if k == 0 and size % cs == 0:
            r = T.ZERO
            for j in range(size // cs):
                v = getcell(m, i + j)
                if not isinstance(v, N):
                    raise Abort('load across cells')
                r = r + v.p * (1 << 8 * cs * j)
            return N(signed(r, 8 * size) if sgn else r, 'int')
        raise Abort('load across cells')
    v = getcell(m, i)
    if isinstance(v, N) and v.p.bits():
        v = N(T.under(v.p, here(c, v.p)), v.dt)
    if k == 0 and size == cs and not isinstance(v, N):
        return v
    if not isinstance(v, N):
        raise Abort('part of a cell holding ' + type(v).__name__)
    return N(part(v.p, k, size, cs, sgn), 'int')


def part(v, k, size, cs, sgn):
    r = v
    if k:
        r = T.floor(r * Fraction(1, 1 << 8 * k))
    if k + size < cs:
        r = wrapped(r, 8 * size, False)
    return signed(r, 8 * size) if sgn else r


def put(old, k, size, cs, v, full=False):
    """bytes k.. of old replaced by v"""
    v = wrapped(v, 8 * size, False)
    if k == 0 and size == cs:
        return v
    low = wrapped(old, 8 * k, False) if k else T.ZERO
    high = T.floor(old * Fraction(1, 1 << 8 * (k + size))) if k + size < cs else T.ZERO
    return low + v * (1 << 8 * k) + high * (1 << 8 * (k + size))


def sub(c, st):
    d = Call(c.I, c.a, c.kw, st, c.ctx, c.node, c.name, c.recv)
    return d


@bi('cmodel.st')
def c_st(c):
    p = c.I.resolve(c.a[0], c.st)
    if isinstance(p, Ite):
        raise Abort('store through an undecided pointer')
    st_(c, p, const(c.a[1]), c.a[2])


def st_(c, p, size, v):
    p, m, cs = pointee(c, p, size, 'write')
    if not isinstance(m, MemV):
        fault(c, 1, 'WriteToConstant')
    i, k = slot(p, cs)
    if k + size > cs:
        if k == 0 and size % cs == 0 and isinstance(v, N):
            for j in range(size // cs):
                st_(c, PtrV(p.obj, p.off + j * cs), cs, N(T.floor(v.p * Fraction(1, 1 << 8 * cs * j)), 'int'))
            return
        raise Abort('store across cells')
    if isinstance(v, B):
        v = N(T.bit(v.b), 'int')
    if isinstance(v, N):
        old = getcell(m, i) if not (k == 0 and size == cs) else None
        if old is not None and not isinstance(old, N):
            raise Abort('store into a cell holding ' + type(old).__name__)
        v = N(put(old.p if old is not None else None, k, size, cs, v.p), 'int')
    elif not (k == 0 and size == cs):
        raise Abort('store of part of a cell')
    c.I.mutate(p.obj, c.st, c.node)
    m = c.I.deref(p.obj, c.st)
    if i.const() is None and isinstance(m.s, Lit) and len(m.s.items) > 16:
        raise Abort('store at an undecided position of a small object')
    c.st.heap[p.obj.id] = MemV(c.I.store1(m.s, i, v), m.w, m.live, m.n)


@bi('cmodel.getf')
def c_getf(c):
    v = getn(c, c.a[0])
    k, size = const(c.a[1]), const(c.a[2])
    return N(part(v, k, size, k + size + 1, c.a[3].b == 1), 'int')


@bi('cmodel.setf')
def c_setf(c):
    old, k, size, v = getn(c, c.a[0]), const(c.a[1]), const(c.a[2]), getn(c, c.a[3])
    return N(put(old, k, size, k + size + 8, v), 'int')


# ------------------------------------------------------------------ text
def char(o, off):
    return N(T.fn('in:char', o, off, isint=True, lo=1, hi=127), 'int')


def text_at(c, p):
    """(characters up to the terminator or the name of an unknown text, start)"""
    p = c.I.resolve(p, c.st)
    if not isinstance(p, PtrV):
        fault(c, 1, 'NullOrWildPointer')
    m = c.I.deref(p.obj, c.st)
    if isinstance(m, Opq):
        if p.off != T.ZERO:
            raise Abort('inside an unknown text')
        return m
    if isinstance(m, K):
        s = m.o.encode()[int(p.off.const()):]
        return Tup(tuple(N(num(x), 'int') for x in s))
    if not isinstance(m, MemV) or m.w != 8 or not isinstance(m.s, Lit):
        raise Abort('text in ' + type(m).__name__)
    k = p.off.const()
    if k is None:
        raise Abort('text at an undecided position')
    if m.live != K(True):
        fault(c, 1, 'UseAfterFree')
    r = []
    for x in m.s.items[int(k):]:
        if not isinstance(x, N):
            raise Abort('text character')
        z = T.eq0(x.p)
        if z == 1:
            return Tup(tuple(r))
        if T.rng(x.p)[0] is None or T.rng(x.p)[0] <= 0 or any(T.ATOMS[a].kind == 'fn' and T.ATOMS[a].args[0] == 'in:junk' for a in x.p.atoms()):
            fault(c, 1, 'UninitialisedText')
        r.append(x)
    fault(c, 1, 'UnterminatedText')


def textlen(c, t):
    if isinstance(t, Tup):
        return num(len(t.items))
    k = c.I.cenv.lens.get(t.args[0].o, 20)
    if k is not None:
        return num(k)
    return T.fn('in:strlen', t, isint=True, lo=0, hi=1 << 20)


def parsed(c, t, base):
    """(value, end, length) of the number at the start of a text"""
    n = textlen(c, t)
    if n == T.ZERO:
        return T.ZERO, T.ZERO, n
    v = c.I.cenv.number(t)
    if isinstance(v, tuple):
        # a number followed by something else, or none at all
        return v[0], T.fn('in:strtol_end', t, base, isint=True, lo=0, hi=n.const() - 1), n
    if v is not None:
        return v, n, n
    v = T.fn('in:strtol', t, base, isint=True, lo=-(1 << 63), hi=(1 << 63) - 1)
    e = T.fn('in:strtol_end', t, base, isint=True, lo=0, hi=n.const())
    return v, e, n


@bi('cmodel.c_strtol', 'cmodel.c_strtoll', 'cmodel.c_atoi', 'cmodel.c_atol', 'cmodel.c_atoll', 'cmodel.c_strtoimax')
def c_strtol(c):
    t = text_at(c, c.a[0])
    ato = 'ato' in c.name
    base = num(10) if ato else getn(c, c.a[2])
    v, e, n = parsed(c, t, base)
    if not ato and c.a[1] != NONE:
        p = c.I.resolve(c.a[0], c.st)
        st_(c, c.a[1], 8, PtrV(p.obj, p.off + e))
    return N(wrapped(v, 32, True) if c.name == 'cmodel.c_atoi' else v, 'int')


def endchar(c, p):
    """the character at the end of a number just parsed: the terminator iff the whole text was consumed"""
    if not isinstance(p, PtrV):
        return None
    for a in map(T.ATOMS.__getitem__, p.off.atoms()):
            if a.kind == 'fn' and a.args[0] == 'in:strtol_end':
                e = T.of_atom(a)
                start = p.off - e
                t = text_at(c, PtrV(p.obj, start))
                if t != a.args[1]:
                    raise Abort('text changed after parsing')
                n = textlen(c, t)
                return N(T.ite(T.eq(e, n), T.ZERO, T.fn('in:endchar', t, isint=True, lo=1, hi=127)), 'int')
    return None


def fmt_of(c, v):
    v = c.I.resolve(v, c.st)
    if isinstance(v, PtrV) and isinstance(v.obj, K) and v.off == T.ZERO:
        return v.obj.o
    raise Abort('format is not a literal')


@bi('cmodel.c_sscanf', 'cmodel.c_strcpy', 'cmodel.c_strncpy', 'cmodel.c_snprintf', 'cmodel.c_stpcpy')
def c_sscanf(c):
    if c.name == 'cmodel.c_sscanf':
        src, fmt, dst = c.a[0], fmt_of(c, c.a[1]), c.a[2]
        m = re.fullmatch(r'%(\d*)s', fmt)
        if not m:
            d = re.fullmatch(r'%(l{0,2})d', fmt)
            if d is None:
                raise Abort('scanf format ' + fmt)
            v, e, n = parsed(c, text_at(c, src), num(10))
            bits = 64 if d.group(1) else 32
            okk = T.bnot(T.eq0(e))
            x = c.st
            old = ld(c, dst, bits // 8)
            st_(c, dst, bits // 8, N(T.ite(okk, wrapped(v, bits, False), wrapped(getn(c, old), bits, False)), 'int'))
            return N(T.bit(okk), 'int')
        w = int(m.group(1)) if m.group(1) else None
        term = 1
    elif c.name == 'cmodel.c_strncpy':
        dst, src, w, term = c.a[0], c.a[1], const(c.a[2]), 0
    elif c.name == 'cmodel.c_snprintf':
        dst, w, term = c.a[0], const(c.a[1]), 0
        if fmt_of(c, c.a[2]) != '%s':
            raise Abort('snprintf format')
        src = c.a[3]
    else:
        dst, src, w, term = c.a[0], c.a[1], None, 1
    t = text_at(c, src)
    p, mm, cs = pointee(c, dst, 1, 'write')
    if not isinstance(mm, MemV) or cs != 1 or not isinstance(mm.s, Lit) or p.off.const() is None:
        raise Abort('copy of a text')
    k = int(p.off.const())
    cap = len(mm.s.items) - k
    n = textlen(c, t)
    if w is None:
        fault(c, T.lt(num(cap), n + term), 'BufferOverflow')
    elif w + term > cap:
        fault(c, T.lt(num(cap), n + term) if term else 1, 'BufferOverflow')
    it = list(mm.s.items)
    for i in range(cap if w is None else min(cap, w)):
        it[k + i] = N(T.ite(T.lt(num(i), n), char(t, num(i)).p, T.ZERO), 'int') if isinstance(t, Opq) else t.items[i] if i < len(t.items) else N(T.ZERO, 'int')
    if c.name == 'cmodel.c_snprintf' and w:
        it[min(len(it), k + w) - 1] = N(T.ZERO, 'int')
    c.st.heap[p.obj.id] = MemV(Lit(tuple(it)), mm.w, mm.live, mm.n)
    return N(T.ite(T.eq0(n), num(-1), num(1)), 'int') if c.name == 'cmodel.c_sscanf' else dst


@bi('cmodel.c_strlen')
def c_strlen(c):
    return N(textlen(c, text_at(c, c.a[0])), 'int')


# ------------------------------------------------------------------ library
@bi('cmodel.c_abs', 'cmodel.c_labs', 'cmodel.c_llabs')
def c_abs(c):
    p = getn(c, c.a[0])
    bits = 32 if c.name == 'cmodel.c_abs' else 64
    lo = num(-(1 << bits - 1))
    if not (T.rng(p)[0] is not None and T.rng(p)[0] > lo.const()):
        fault(c, T.eq(p, lo), 'SignedOverflow')
    return N(T.ite(T.lt(p, T.ZERO), -p, p), 'int')


@bi('cmodel.c_fabs')
def c_fabs(c):
    p = getn(c, c.a[0])
    return N(T.ite(T.lt(p, T.ZERO), -p, p), 'float')


@bi('cmodel.c_trunc', 'cmodel.c_floor', 'cmodel.c_ceil', 'cmodel.c_round', 'cmodel.c_lround', 'cmodel.c_llround', 'cmodel.c_rint', 'cmodel.c_lrint', 'cmodel.c_nearbyint')
def c_trunc(c):
    p = getn(c, c.a[0])
    n = c.name.rsplit('_', 1)[1]
    fl = T.floor
    if n == 'trunc':
        r = T.ite(T.lt(p, T.ZERO), -fl(-p), fl(p))
    elif n == 'floor':
        r = fl(p)
    elif n == 'ceil':
        r = -fl(-p)
    elif 'rint' in n or n == 'nearbyint':
        return c.unk('round to even')
    else:
        h = Fraction(1, 2)
        r = T.ite(T.lt(p, T.ZERO), -fl(-p + h), fl(p + h))
    return N(r, 'int' if n[0] == 'l' else 'float')


@bi('cmodel.c_pow')
def c_pow(c):
    a, b = getn(c, c.a[0]).const(), getn(c, c.a[1]).const()
    if a is None or b is None or b.denominator != 1:
        return c.unk('pow')
    return N(num(Fraction(a) ** int(b)), 'float')


@bi('cmodel.ext')
def c_ext(c):
    n = c.a[0].o
    if n == 'optarg':
        return fr(c).get('#optarg', NONE)
    if n in ('stderr', 'stdout', 'stdin'):
        return K(n)
    return N(T.fn('in:ext', K(n), isint=True), 'int')


@bi('cmodel.setext')
def c_setext(c):
    return NONE


def say(c, stream, v):
    l = fr(c)['#' + stream]
    fr(c)['#' + stream] = ListV(scat([l.s, Lit((v,))]))


@bi('cmodel.c_fprintf', 'cmodel.c_printf', 'cmodel.c_puts', 'cmodel.c_putchar', 'cmodel.c_fputs', 'cmodel.c_fputc', 'cmodel.c_perror', 'cmodel.c_fwrite', 'cmodel.c_dprintf',
    'cmodel.c_putc', 'cmodel.c_vfprintf')
def c_fprintf(c):
    n = c.name[len('cmodel.c_'):]
    s = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3, 'dprintf': 0}.get(n)
    if n == 'perror':
        stream = 'stderr'
    elif s is None:
        stream = 'stdout'
    elif n == 'dprintf':
        k = const(c.a[0])
        stream = 'stderr' if k == 2 else 'stdout'
    else:
        stream = c.a[s].o if isinstance(c.a[s], K) else None
    if stream not in ('stderr', 'stdout'):
        raise Abort('output to an unknown stream')
    say(c, stream, K(n))
    c.I.effect('c-' + stream, c.st, (K(n),), c.node)
    return N(num(1), 'int')


@bi('cmodel.c_fflush', 'cmodel.c_usleep', 'cmodel.c_sleep', 'cmodel.c_close', 'cmodel.c_nanosleep', 'cmodel.c_fclose', 'cmodel.c_fsync', 'cmodel.c_setvbuf', 'cmodel.c_signal')
def c_nothing(c):
    return N(T.ZERO, 'int')


@bi('cmodel.c_exit', 'cmodel.c__exit', 'cmodel.c_abort')
def c_exit(c):
    f = fr(c)
    code = c.a[0] if c.a else N(num(134), 'int')
    c.I.raise_if(1, ExcV('SystemExit', (code, f['#stderr'], f['#stdout'], f['#wrote'])), c.st, c.ctx, c.node)
    raise Dead()


@bi('cmodel.c_getopt')
def c_getopt(c):
    env = c.I.cenv
    f = fr(c)
    k = const(f['#opt'])
    spec = fmt_of(c, c.a[2])
    if k is None:
        raise Abort('undecided option')
    if k >= len(env.opts):
        f['#optarg'] = NONE
        return N(num(-1), 'int')
    o, arg = env.opts[k]
    f['#opt'] = N(num(k + 1), 'int')
    i = spec.lstrip(':').find(o)
    s = spec.lstrip(':')
    if i < 0 or o == ':':
        return N(num(ord('?')), 'int')
    if i + 1 < len(s) and s[i + 1] == ':':
        if arg is None:
            return N(num(ord(':' if spec.startswith(':') else '?')), 'int')
        f['#optarg'] = PtrV(Opq('arg', (K(arg),)), T.ZERO)
    else:
        f['#optarg'] = NONE
    return N(num(ord(o)), 'int')


@bi('cmodel.c_open')
def c_open(c):
    env = c.I.cenv
    p, m, cs = pointee(c, c.a[0], 1, 'read')
    if isinstance(m, MemV):
        v = getcell(m, p.off)
    elif isinstance(m, Opq):
        v = char(m, p.off)
    else:
        v = None
    who = None
    if isinstance(v, N):
        for a in map(T.ATOMS.__getitem__, v.p.atoms()):
            if a.kind == 'fn' and a.args[0] == 'in:char':
                who = a.args[1]
    if who is None or not isinstance(who, Opq):
        raise Abort('open of an unknown name')
    f = fr(c)
    fds = f['#fds'].items
    if who.args[0].o in env.noopen:
        return N(num(-1), 'int')
    flags = getn(c, c.a[1]).const()
    f['#fds'] = Tup(fds + (Tup((who.args[0], N(num(flags), 'int'))),))
    return N(num(3 + len(fds)), 'int')


def role(c, fd):
    k = getn(c, fd).const()
    if k is None:
        raise Abort('undecided file descriptor')
    fds = fr(c)['#fds'].items
    if k >= 3:
        if k - 3 >= len(fds):
            raise Abort('unknown file descriptor')
        return fds[int(k) - 3].items[0].o
    return {0: 'stdin', 1: 'stdout', 2: 'stderr'}.get(int(k), 'bad')


def handles(c):
    """descriptor numbers of the event source and of the corrections"""
    fds = [x.items[0].o for x in fr(c)['#fds'].items]
    src = 3 + fds.index('in') if 'in' in fds else 0
    frq = 3 + fds.index('freq') if 'freq' in fds else None
    return src, frq


@bi('cmodel.c_malloc', 'cmodel.c_calloc', 'cmodel.c_realloc')
def c_malloc(c):
    if c.name == 'cmodel.c_realloc':
        raise Abort('realloc')
    n = getn(c, c.a[0])
    if c.name == 'cmodel.c_calloc':
        n = n * getn(c, c.a[1])
    w = const(c.a[-1])
    k = n.const()
    if k is None:
        raise Abort('allocation of an undecided size')
    f = fr(c)
    i = const(f['#mallocs'])
    f['#mallocs'] = N(num(i + 1), 'int')
    if i in c.I.cenv.nomem:
        return NONE
    return newmem(c, int(k) // w, w, c.name == 'cmodel.c_calloc', f'malloc{i}')


@bi('cmodel.c_free')
def c_free(c):
    p = c.I.resolve(c.a[0], c.st)
    if p == NONE:
        return NONE
    if not isinstance(p, PtrV) or p.off != T.ZERO or not isinstance(p.obj, Ref):
        fault(c, 1, 'InvalidFree')
    m = c.I.deref(p.obj, c.st)
    if m.live != K(True):
        fault(c, 1, 'DoubleFree')
    c.st.heap[p.obj.id] = MemV(m.s, m.w, K(False), m.n)
    return NONE


# ------------------------------------------------------------------ select, read, write
def fdset(c, p):
    v = ld(c, p, 4)
    return getn(c, v)


@bi('cmodel.c_FD_ZERO')
def c_fdzero(c):
    st_(c, c.a[0], 4, N(T.ZERO, 'int'))
    return NONE


@bi('cmodel.c_FD_SET', 'cmodel.c_FD_CLR', 'cmodel.c_FD_ISSET')
def c_fdset(c):
    k = getn(c, c.a[0]).const()
    if k is None:
        raise Abort('undecided file descriptor')
    if not 0 <= k < 1024:
        fault(c, 1, 'BadDescriptor')
    v = fdset(c, c.a[1])
    cur = v.const()
    if c.name == 'cmodel.c_FD_ISSET':
        if cur is None:
            return N(T.fn('in:isset', v, num(k), isint=True, lo=0, hi=1), 'int')
        return N(num(int(cur) >> int(k) & 1), 'int')
    if cur is None:
        # bits never cleared before: unknown descriptors
        raise Abort('FD_SET on an uninitialised set')
    n = int(cur) | 1 << int(k) if c.name == 'cmodel.c_FD_SET' else int(cur) & ~(1 << int(k))
    st_(c, c.a[1], 4, N(num(n), 'int'))
    return NONE


def current(c):
    f = fr(c)
    r = const(f['#round'])
    if r is None:
        raise Abort('undecided round')
    rs = c.I.cenv.rounds
    return rs[r - 1] if 1 <= r <= len(rs) else None


@bi('cmodel.c_select')
def c_select(c):
    env, f = c.I.cenv, fr(c)
    r = const(f['#round']) + 1
    f['#round'] = N(num(r), 'int')
    for q in c.a[2:4]:
        if q != NONE:
            raise Abort('select on other sets')
    if r > len(env.rounds):
        if env.end == 'select':
            return N(num(-1), 'int')
    cur = fdset(c, c.a[1]).const()
    if cur is None:
        raise Abort('select on an uninitialised set')
    src, frq = handles(c)
    rd = current(c)
    m = 0
    if rd is None:
        m |= 1 << src
    else:
        if rd.data is not None:
            m |= 1 << src
        if rd.freq is not None and frq is not None and (rd.freq != () or '#pend' in f and f['#pend'].items):
            m |= 1 << frq
    n = int(cur) & m
    st_(c, c.a[1], 4, N(num(n), 'int'))
    return N(num(bin(n).count('1')), 'int')


def stamp_of(i):
    return T.fn('in:stamp', i, isint=True, lo=0, hi=(1 << 54) - 1)


def rest_of(i):
    return T.fn('in:detail', i, isint=True, lo=0, hi=1023)


def event(i):
    """event i of the stream: timestamp and the bits below it"""
    return stamp_of(i) * 1024 + rest_of(i)


def swap(w):
    h = T.floor(w * Fraction(1, 1 << 32))
    return (w - h * (1 << 32)) * (1 << 32) + h


def word(i, legacy=False):
    """how it lies in memory"""
    return swap(event(i)) if legacy else event(i)


@bi('cmodel.c_read')
def c_read(c):
    env, f = c.I.cenv, fr(c)
    who = role(c, c.a[0])
    ln = getn(c, c.a[2])
    p = c.I.resolve(c.a[1], c.st)
    if not isinstance(p, PtrV):
        fault(c, 1, 'NullOrWildPointer')
    p, m, cs = pointee(c, p, ln, 'write')
    src, frq = handles(c)
    k = getn(c, c.a[0]).const()
    rd = current(c)
    if k == src:
        if rd is None:
            return N(T.ZERO, 'int') if env.end == 'eof' else N(num(-1), 'int')
        d = rd.data
        if d is None or d == 'err':
            return N(num(-1), 'int')
        if d == 'eof':
            return N(T.ZERO, 'int')
        return read_events(c, p, m, cs, ln, d)
    if frq is not None and k == frq:
        d = rd.freq if rd is not None else None
        if d is None or d == 'err':
            return N(num(-1), 'int')
        if d == 'eof':
            return N(T.ZERO, 'int')
        return read_chars(c, p, m, cs, ln, d)
    if who == 'bad':
        return N(num(-1), 'int')
    raise Abort('read from ' + str(who))


def read_chars(c, p, m, cs, ln, d):
    f = fr(c)
    k = p.off.const()
    n = ln.const()
    if k is None or n is None or cs != 1 or not isinstance(m.s, Lit):
        raise Abort('read of characters at an undecided position')
    if n == 0:
        return N(T.ZERO, 'int')
    # what does not fit this time stays in the channel for the next time it is ready
    pend = f['#pend'].items if '#pend' in f else ()
    chars = tuple(pend) + tuple(K(x) for x in d)
    take, rest = chars[:int(n)], chars[int(n):]
    f['#pend'] = Tup(rest)
    it = list(m.s.items)
    for i, x in enumerate(take):
        it[int(k) + i] = chr_(x.o)
    c.st.heap[p.obj.id] = MemV(Lit(tuple(it)), m.w, m.live, m.n)
    return N(num(len(take)), 'int')


def chr_(x):
    if isinstance(x, int):
        return N(num(x), 'int')
    return N(T.sym('ch_' + str(x), True, 32, 126), 'int')


def read_events(c, p, m, cs, ln, d):
    f = fr(c)
    pos, p1 = f['#pos'].p, const(f['#part'])
    E, p2 = d
    r = const(f['#round'])
    room = T.floor((ln + (p1 - p2)) * Fraction(1, 8))
    k = room.const()
    if k is None:
        raise Abort('read of an undecided size')
    if E is None:
        if k < 1:
            raise Abort('no room for an event')
        T.HINT[f'E{r}'] = 5
        E = T.sym(f'E{r}', True, 1, k)
    else:
        E = num(E)
        if E.const() > k:
            raise Abort('read smaller than the scripted delivery')
    f[f'#E{r}'] = N(E, 'int')
    n = 8 * E + (p2 - p1)
    if n.const() is not None and n.const() <= 0:
        raise Abort('empty delivery')
    d0 = p.off.const()
    if d0 is None or cs != 8:
        raise Abort('read at an undecided position')
    d0 = int(d0)
    sft = (p1 - d0) % 8
    base = (p1 - d0 - sft) // 8
    k0 = d0 // 8
    h = 1 + max(1, VV.height(m.s))
    t = idx(h)
    lo_b = d0 % 8                   # bytes of the first cell that stay
    endb = n + d0                   # one past the last byte written
    last = T.floor(endb * Fraction(1, 8))
    tail = (endb - 8 * last).const()
    tail = None if tail is None else int(tail)
    if tail is None:
        raise Abort('end of a read inside a cell')

    def fresh(i):
        w = word(pos + base + i, c.I.cenv.legacy)
        if sft == 0:
            return w
        return T.floor(w * Fraction(1, 1 << 8 * sft)) + wrapped(word(pos + base + i + 1, c.I.cenv.legacy), 8 * sft, False) * (1 << 8 * (8 - sft))

    def old(i):
 
        v = sget(VV.held(m.s, m.w) if i.const() is None else m.s, i)
        if not isinstance(v, N):
            raise Abort('cell')
        return v.p
    s = VV.held(m.s, m.w)
    # whole cells first, then the partial ones
    if isinstance(s, Lit):
        raise Abort('events into a small object')
    e = T.ite(T.band(T.le(num(k0), t), T.lt(t, last)), fresh(t), old(t))
    new = smap(slen(s), 1, h, N(e, 'int'))
    if lo_b:
        q = num(k0)
        fr0 = T.floor(fresh(q) * Fraction(1, 1 << 8 * lo_b)) * (1 << 8 * lo_b)
        v = wrapped(old(q), 8 * lo_b, False) + fr0
        # when the delivery ends inside this very cell, handled below from v
        new = c.I.store1(new, q, N(T.ite(T.lt(q, last), v, old(q)), 'int'))
        first_partial = v
    if tail:
        b0 = None
        lowpart = wrapped(fresh(last), 8 * tail, False)
        if lo_b and last.const() == k0:
            lowpart = wrapped(first_partial, 8 * tail, False)
        elif lo_b and last.const() is None and T.rng(last)[0] is not None and T.rng(last)[0] <= k0:
            lowpart = T.ite(T.eq(last, num(k0)), wrapped(first_partial, 8 * tail, False), lowpart)
        v = lowpart + T.floor(old(last) * Fraction(1, 1 << 8 * tail)) * (1 << 8 * tail)
        new = c.I.store1(new, last, N(v, 'int'))
    c.st.heap[p.obj.id] = MemV(new, m.w, m.live, m.n)
    f['#pos'] = N(pos + E, 'int')
    f['#part'] = N(num(p2), 'int')
    return N(n, 'int')


@bi('cmodel.c_write')
def c_write(c):
    f = fr(c)
    n = getn(c, c.a[2])
    p = c.I.resolve(c.a[1], c.st)
    who = role(c, c.a[0])
    if n == T.ZERO:
        return N(T.ZERO, 'int')
    p, m, cs = pointee(c, p, n, 'read')
    rd = current(c)
    how = rd.write if rd is not None else 'ok'
    if cs is None:
        raise Abort("write from " + type(m).__name__ + " " + T.show_any(m)[:300])
    a, k = slot(p, cs)
    cnt = T.floor(n * Fraction(1, cs))
    if k or (n - cnt * cs) != T.ZERO:
        raise Abort('write of part of a cell')
    if who == 'bad':
        return N(num(-1), 'int')        # EBADF
    if who in ('stdin', 'freq', 'in'):
        raise Abort('write to ' + who)
    if who == 'stderr':
        say(c, 'stderr', K('write'))
        return N(n, 'int')
    f['#wrote'] = ListV(scat([f['#wrote'].s, Lit((K(who),))]))
    if how == 'err':
        return N(num(-1), 'int')
    if how == 'short':
        return N(n - 1, 'int')
    if cs != 8:
        raise Abort('write of other data')
    h = 1 + max(1, VV.height(m.s), VV.height(cnt), VV.height(a))
    t = idx(h)
    v = sget(m.s, a + t)
    if isinstance(v, N):
        v = N(T.under(v.p, T.band(T.le(T.ZERO, t), T.lt(t, cnt))), 'int')
    c.st.heap[p.obj.id] = MemV(VV.held(m.s, m.w), m.w, m.live, m.n)
    key = f'#out{const(f["#round"])}'
    f[key] = ListV(scat([f[key].s if key in f else EMPTY, smap(cnt, 1, h, v)]))
    return N(n, 'int')


@bi('cmodel.c_memmove', 'cmodel.c_memcpy')
def c_memmove(c):
    n = getn(c, c.a[2])
    k = n.const()
    if k is None or k > 256:
        raise Abort('copy of an undecided number of bytes')
    k = int(k)
    if k == 0:
        return c.a[0]
    d, s = c.I.resolve(c.a[0], c.st), c.I.resolve(c.a[1], c.st)
    if not isinstance(d, PtrV) or not isinstance(s, PtrV):
        fault(c, 1, 'NullOrWildPointer')
    vals = [ld(c, PtrV(s.obj, s.off + i), 1) for i in range(k)]
    if c.name == 'cmodel.c_memcpy' and d.obj == s.obj:
        x = d.off - s.off
        fault(c, T.band(T.lt(x, num(k)), T.lt(num(-k), x)), 'OverlappingCopy')
    for i, v in enumerate(vals):
        st_(c, PtrV(d.obj, d.off + i), 1, v)
    return c.a[0]


@bi('cmodel.c_memset', 'cmodel.c_bzero')
def c_memset(c):
    n = getn(c, c.a[-1]).const()
    v = getn(c, c.a[1]).const() if c.name == 'cmodel.c_memset' else 0
    if n is None or v is None:
        raise Abort('memset')
    p, m, cs = pointee(c, c.a[0], int(n), 'write')
    i, k = slot(p, cs)
    if k or n % cs or i.const() is None:
        raise Abort('memset of part of a cell')
    x = N(num(int.from_bytes(bytes([int(v) & 255]) * cs, 'little')), 'int')
    if isinstance(m.s, Lit):
        it = list(m.s.items)
        for j in range(int(i.const()), int(i.const()) + int(n) // cs):
            it[j] = x
        new = Lit(tuple(it))
    else:
        h = 1 + max(1, VV.height(m.s))
        t = idx(h)
        new = smap(slen(m.s), 1, h, vite(T.band(T.le(i, t), T.lt(t, i + int(n) // cs)), x, sget(m.s, t)))
    c.st.heap[p.obj.id] = MemV(new, m.w, m.live, m.n)
    return c.a[0]


@bi('cmodel.c_memchr', 'cmodel.c_strchr')
def c_memchr(c):
    p = c.I.resolve(c.a[0], c.st)
    ch = getn(c, c.a[1]).const()
    k = p.off.const() if isinstance(p, PtrV) else None
    m = c.I.deref(p.obj, c.st) if isinstance(p, PtrV) else None
    if ch is None or k is None or not isinstance(m, MemV) or m.w != 8 or not isinstance(m.s, Lit):
        raise Abort('search for a character')
    n = getn(c, c.a[2]).const() if c.name == 'cmodel.c_memchr' else None
    if c.name == 'cmodel.c_memchr' and n is None:
        raise Abort('search in an undecided number of bytes')
    j = int(k)
    while n is None or j < k + n:
        if j >= len(m.s.items):
            fault(c, 1)
        x = m.s.items[j].p
        e = T.eq(x, num(int(ch)))
        if e == 1:
            return PtrV(p.obj, num(j))
        if e != 0:
            raise Abort('undecided character')
        if n is None and T.eq0(x) == 1:
            return NONE
        j += 1
    return NONE
