"""Loop summarisation: head-state fixpoint over modified locations, induction-variable and accumulator
elimination, and canonical exit values (no unrolling, no path enumeration)."""
from fractions import Fraction
from math import gcd
from . import terms as T
from .terms import Num, num, BArg
from . import values as VV
from . import zone as Z
from .values import *


def _P():
    from . import pyeval
    return pyeval


# ------------------------------------------------------------------ shapes
class Sh:
    """shape node: kind + payload; leaves carry loop tokens"""
    __slots__ = ('k', 'tok', 'a', 'sub')

    def __init__(self, k, tok=None, a=None, sub=()):
        self.k, self.tok, self.a, self.sub = k, tok, a, list(sub)


def is_none(v):
    return isinstance(v, K) and v.o is None


def split_none(v):
    """value -> (isnone bdd, payload or None)"""
    if is_none(v):
        return 1, None
    if isinstance(v, Ite):
        ca, pa = split_none(v.a)
        cb, pb = split_none(v.b)
        c = T.bite(v.c, ca, cb)
        if pa is None:
            return c, pb
        if pb is None:
            return c, pa
        return c, vite(v.c, pa, pb)
    return 0, v


def _lits(x, v):
    return isinstance(x, ListV) and isinstance(v, ListV) and isinstance(x.s, Lit) and isinstance(v.s, Lit) and 0 < len(x.s.items) == len(v.s.items) <= 32


class Shaper:
    def __init__(self, interp):
        self.I = interp
        P = _P()
        self.UNDEF = P.UNDEF

    def of(self, v, st):
        """token shape describing value v (first approximation)"""
        P = _P()
        if isinstance(v, Ite):
            c, p = split_none(v)
            if c != 0 and p is not None:
                return Sh('opt', Tok.new(), None, [self.of(p, st)])
            if self.I.tonum(v) is not None and not any(isinstance(x, (Opq, ExitV, MuV)) for x in (v.a, v.b)):
                return self.of(self.I.tonum(v), st)
            return Sh('obj', Tok.new())
        if isinstance(v, N):
            isint = P.is_int_dt(v.dt) and T.isint(v.p)
            lo, hi = None, None
            if v.dt in P.INT_RANGE:
                lo, hi = P.INT_RANGE[v.dt]
            elif T.nonneg(v.p):
                lo = 0
            return Sh('num', Tok.new(), (isint, lo, hi, v.dt))
        if isinstance(v, B):
            return Sh('bool', Tok.new())
        if isinstance(v, SetV):
            return Sh('setv', Tok.new())
        if isinstance(v, Tup):
            return Sh('tup', None, None, [self.of(x, st) for x in v.items])
        if isinstance(v, Named):
            return Sh('named', None, (v.cname, v.names), [self.of(x, st) for x in v.items])
        if isinstance(v, Seq):
            return Sh('seq', Tok.new())
        if isinstance(v, ArrV):
            return Sh('arr', None, (v.dt, v.ncol), [self.of(v.s, st)])
        if isinstance(v, ListV):
            return Sh('list', None, None, [self.of(v.s, st)])
        if isinstance(v, MemV):
            t = Sh('seq', Tok.new())
            VV.CELLW[t.tok] = v.w
            return Sh('mem', None, (v.w, v.live, v.n), [t])
        if isinstance(v, PtrV):
            return Sh('ptr', None, (v.obj, T.ZERO, 1), [self.of(N(v.off, 'int'), st)])
        if isinstance(v, GenV):
            return Sh('gen', None, None, [self.of(v.s, st)])
        if isinstance(v, FileV):
            return Sh('file', None, (v.path, v.mode), [self.of(N(v.pos, 'int'), st), self.of(v.out, st)])
        if isinstance(v, DictV):
            return Sh('dict', None, tuple(k for k, _ in v.items), [self.keep(x) if isinstance(x, Ref) else self.of(x, st) for _, x in v.items])
        if isinstance(v, ObjV):
            return Sh('objv', None, (v.cls, v.names), [self.keep(x) for x in v.items])
        if isinstance(v, Chunk):
            return Sh('chunk', None, (v.file, v.kind), [self.of(N(v.addr, 'int'), st), self.keep(N(v.n, 'int'))])
        if isinstance(v, Bytes):
            return Sh('bytes', None, v.n, [self.of(N(v.v, 'int'), st)])
        if isinstance(v, Ref):
            return Sh('ref', None, None, [self.of(st.heap[v.id], st)])
        return Sh('obj', Tok.new())

    def keep(self, v):
        return Sh('same', None, v)

    def merge(self, sh, v, st):
        """generalise sh so that it also covers v; returns (shape, changed)"""
        P = _P()
        if v == self.UNDEF:
            return sh, False
        k = sh.k
        if k == 'same':
            x = sh.a
            if x == v:
                return sh, False
            if x == self.UNDEF:
                return self.of(v, st), True
            if is_none(x):
                c, p = split_none(v)
                if p is None:
                    return sh, False
                return Sh('opt', Tok.new(), None, [self.of(p, st)]), True
            if isinstance(x, Ref) and isinstance(v, Ref):
                a, b = st.heap[x.id], st.heap[v.id]
                s0 = Sh('fix', None, None, [self.keep(y) for y in a.s.items]) if _lits(a, b) else self.of(a, st)
                s1, _ = self.merge(s0, st.heap[v.id], st)
                return Sh('ref', None, None, [s1]), True
            if isinstance(x, PtrV) and isinstance(v, PtrV) and x.obj == v.obj:
                k = _content(v.off - x.off)
                return Sh('ptr', None, (x.obj, x.off, k), [self.merge(self.of(N(T.ZERO, 'int'), st), N((v.off - x.off) * Fraction(1, k), 'int'), st)[0]]), True
            if _lits(x, v):
                s0 = Sh('fix', None, None, [self.keep(y) for y in x.s.items])
            else:
                s0 = self.of(x, st)
            s1, _ = self.merge(s0, v, st)
            return s1, True
        if k == 'obj':
            return sh, False
        if k == 'opt':
            c, p = split_none(v)
            if p is None:
                return sh, False
            s, ch = self.merge(sh.sub[0], p, st)
            sh.sub[0] = s
            return sh, ch
        c, p = split_none(v) if not isinstance(v, Ite) or self.I.tonum(v) is None or True else (0, v)
        if c != 0:
            if p is None:
                return Sh('opt', Tok.new(), None, [sh]), True
            s, _ = self.merge(sh, p, st)
            return Sh('opt', Tok.new(), None, [s]), True
        if isinstance(v, Ite):
            n = self.I.tonum(v)
            if n is not None and k == 'num':
                v = n
            else:
                return Sh('obj', Tok.new()), True
        if k == 'num':
            if isinstance(v, B):
                v = N(T.bit(v.b), 'int')
            if isinstance(v, Opq) and self.I.tonum(v) is not None:
                v = self.I.tonum(v)
            if not isinstance(v, N):
                return Sh('obj', Tok.new()), True
            isint, lo, hi, dt = sh.a
            ni, nlo, nhi = isint, lo, hi
            if isint and not (P.is_int_dt(v.dt) and T.isint(v.p)):
                ni = False
            r = T.rng(v.p)
            if lo is not None and (r[0] is None or r[0] < lo):
                nlo = 0 if (lo > 0 and r[0] is not None and r[0] >= 0) else None
            if hi is not None and (r[1] is None or r[1] > hi):
                nhi = None
            ndt = join_dt(dt, v.dt)
            if (ni, nlo, nhi, ndt) != sh.a:
                return Sh('num', Tok.new(), (ni, nlo, nhi, ndt)), True
            return sh, False
        if k == 'bool':
            if isinstance(v, B):
                return sh, False
            if isinstance(v, N):
                return self.of(v, st), True
            return Sh('obj', Tok.new()), True
        if k == 'setv':
            if isinstance(v, SetV):
                return sh, False
            return Sh('obj', Tok.new()), True
        if k in ('tup', 'named'):
            if isinstance(v, (Tup, Named)) and len(v.items) == len(sh.sub):
                ch = False
                for i, x in enumerate(v.items):
                    sh.sub[i], c = self.merge(sh.sub[i], x, st)
                    ch |= c
                return sh, ch
            return Sh('obj', Tok.new()), True
        if k == 'seq':
            return (sh, False) if isinstance(v, Seq) else (Sh('obj', Tok.new()), True)
        if k == 'arr':
            if isinstance(v, ArrV) and v.ncol == sh.a[1]:
                dt = join_dt(sh.a[0], v.dt) if sh.a[0] != v.dt else v.dt
                ch = dt != sh.a[0]
                sh.a = (dt, v.ncol)
                return sh, ch
            return Sh('obj', Tok.new()), True
        if k == 'fix':
            if isinstance(v, ListV) and isinstance(v.s, Lit) and len(v.s.items) == len(sh.sub):
                ch = False
                for i, x in enumerate(v.s.items):
                    sh.sub[i], c = self.merge(sh.sub[i], x, st)
                    ch |= c
                return sh, ch
            if isinstance(v, ListV):
                return self.of(v, st), True
            return Sh('obj', Tok.new()), True
        if k in ('list', 'gen'):
            if isinstance(v, ListV if k == 'list' else GenV):
                return sh, False
            return Sh('obj', Tok.new()), True
        if k == 'mem':
            return (sh, False) if isinstance(v, MemV) and (v.w, v.live, v.n) == sh.a else (Sh('obj', Tok.new()), True)
        if k == 'ptr':
            if isinstance(v, PtrV) and v.obj == sh.a[0]:
                o, b, k = sh.a
                k2 = gcd(k, _content(v.off - b))
                if k2 != k:
                    return Sh('ptr', None, (o, b, k2), [self.merge(self.of(N(T.ZERO, 'int'), st), N((v.off - b) * Fraction(1, k2), 'int'), st)[0]]), True
                sh.sub[0], ch = self.merge(sh.sub[0], N((v.off - b) * Fraction(1, k), 'int'), st)
                return sh, ch
            return Sh('obj', Tok.new()), True
        if k == 'file':
            if isinstance(v, FileV) and (v.path, v.mode) == sh.a:
                sh.sub[0], ch = self.merge(sh.sub[0], N(v.pos, 'int'), st)
                return sh, ch
            return Sh('obj', Tok.new()), True
        if k == 'dict':
            if isinstance(v, DictV) and tuple(x for x, _ in v.items) == sh.a:
                ch = False
                for i, (_, x) in enumerate(v.items):
                    sh.sub[i], c = self.merge(sh.sub[i], x, st)
                    ch |= c
                return sh, ch
            return Sh('obj', Tok.new()), True
        if k == 'objv':
            if isinstance(v, ObjV) and (v.cls, v.names) == sh.a:
                ch = False
                for i, x in enumerate(v.items):
                    sh.sub[i], c = self.merge(sh.sub[i], x, st)
                    ch |= c
                return sh, ch
            return Sh('obj', Tok.new()), True
        if k == 'chunk':
            if isinstance(v, Chunk) and (v.file, v.kind) == sh.a:
                sh.sub[0], c1 = self.merge(sh.sub[0], N(v.addr, 'int'), st)
                sh.sub[1], c2 = self.merge(sh.sub[1], N(v.n, 'int'), st)
                return sh, c1 or c2
            return Sh('obj', Tok.new()), True
        if k == 'bytes':
            if isinstance(v, Bytes) and v.n == sh.a:
                sh.sub[0], ch = self.merge(sh.sub[0], N(v.v, 'int'), st)
                return sh, ch
            return Sh('obj', Tok.new()), True
        if k == 'ref':
            if isinstance(v, Ref):
                sh.sub[0], ch = self.merge(sh.sub[0], st.heap[v.id], st)
                return sh, ch
            return Sh('obj', Tok.new()), True
        raise AssertionError(k)

    # ---- build the value described by a shape, leaves given by tok -> component
    def value(self, sh, leaf, st):
        k = sh.k
        if k == 'same':
            return sh.a
        if k == 'num':
            return N(leaf(sh), sh.a[3])
        if k == 'bool':
            return B(leaf(sh).b)
        if k == 'setv':
            return SetV(leaf(sh).b)
        if k in ('seq', 'obj'):
            return leaf(sh)
        if k == 'opt':
            c = leaf(sh).b
            return vite(c, NONE, self.value(sh.sub[0], leaf, st))
        if k == 'tup':
            return Tup(tuple(self.value(x, leaf, st) for x in sh.sub))
        if k == 'named':
            return Named(sh.a[0], sh.a[1], tuple(self.value(x, leaf, st) for x in sh.sub))
        if k == 'arr':
            return ArrV(self.value(sh.sub[0], leaf, st), *sh.a)
        if k == 'list':
            return ListV(self.value(sh.sub[0], leaf, st))
        if k == 'mem':
            return MemV(self.value(sh.sub[0], leaf, st), *sh.a)
        if k == 'ptr':
            return PtrV(sh.a[0], sh.a[1] + self.value(sh.sub[0], leaf, st).p * sh.a[2])
        if k == 'fix':
            return ListV(Lit(tuple(self.value(x, leaf, st) for x in sh.sub)))
        if k == 'gen':
            return GenV(self.value(sh.sub[0], leaf, st))
        if k == 'file':
            return FileV(sh.a[0], sh.a[1], self.value(sh.sub[0], leaf, st).p, self.value(sh.sub[1], leaf, st))
        if k == 'dict':
            return DictV(tuple((n, self.value(x, leaf, st)) for n, x in zip(sh.a, sh.sub)))
        if k == 'objv':
            return ObjV(sh.a[0], sh.a[1], tuple(self.value(x, leaf, st) for x in sh.sub))
        if k == 'chunk':
            return Chunk(sh.a[0], self.value(sh.sub[0], leaf, st).p, self.value(sh.sub[1], leaf, st).p, sh.a[1])
        if k == 'bytes':
            return Bytes(sh.a, self.value(sh.sub[0], leaf, st).p)
        if k == 'ref':
            return self.I.alloc(st, self.value(sh.sub[0], leaf, st))
        raise AssertionError(k)

    def leaves(self, sh):
        if sh.tok is not None:
            yield sh
        for x in sh.sub:
            yield from self.leaves(x)

    def parts(self, sh, v, st, out):
        """component of v for every leaf of sh"""
        k = sh.k
        if k == 'same':
            return
        if isinstance(v, Unk) or v == self.UNDEF or v is None:
            for l in self.leaves(sh):
                out[l.tok] = self.undef(l)
            return
        if k == 'opt':
            c, p = split_none(v)
            out[sh.tok] = BArg(c)
            if p is None:
                for l in self.leaves(sh.sub[0]):
                    out[l.tok] = self.default(l)
            else:
                self.parts(sh.sub[0], p, st, out)
            return
        if k == 'num':
            n = self.I.tonum(v)
            out[sh.tok] = n.p if n is not None else self.undef(sh)
            return
        if k == 'bool':
            out[sh.tok] = BArg(v.b) if isinstance(v, B) else self.undef(sh)
            return
        if k == 'setv':
            out[sh.tok] = BArg(v.pred) if isinstance(v, SetV) else self.undef(sh)
            return
        if k == 'seq':
            out[sh.tok] = v if isinstance(v, Seq) else self.undef(sh)
            return
        if k == 'obj':
            out[sh.tok] = self.I.freeze(v, st)
            return
        sub = None
        if k in ('tup', 'named'):
            sub = v.items
        elif k in ('arr', 'list', 'gen', 'mem'):
            sub = [v.s]
        elif k == 'ptr':
            sub = [N((v.off - sh.a[1]) * Fraction(1, sh.a[2]), 'int')]
        elif k == 'fix':
            sub = v.s.items
        elif k == 'file':
            sub = [N(v.pos, 'int'), v.out]
        elif k == 'dict':
            sub = [x for _, x in v.items]
        elif k == 'objv':
            sub = v.items
        elif k == 'chunk':
            sub = [N(v.addr, 'int'), N(v.n, 'int')]
        elif k == 'bytes':
            sub = [N(v.v, 'int')]
        elif k == 'ref':
            sub = [st.heap[v.id]]
        for s, x in zip(sh.sub, sub):
            self.parts(s, x, st, out)

    def default(self, l):
        return {'num': T.ZERO, 'bool': BArg(0), 'setv': BArg(0), 'opt': BArg(1), 'seq': EMPTY}.get(l.k, NONE)

    def undef(self, l):
        return self.default(l) if l.k != 'obj' else Unk('undefined')


def _content(p):
    """an integer that divides p whatever its variables are"""
    g = 0
    for m, c in p.d.items():
        if c.denominator != 1 or not T.isint(Num({m: 1})):
            return 1
        g = gcd(g, int(c))
    return g or 1


def kind_of(l):
    if l.k == 'num':
        return ('num',) + tuple(l.a[:3])
    if l.k in ('bool', 'opt', 'setv'):
        return ('bool',)
    if l.k == 'seq':
        return ('seq',)
    return ('obj',)


# ------------------------------------------------------------------ the loop itself
MAXPASS = 12


def run_loop(I, s, st, ctx, dom, test, body, orelse, bodyfn):
    P = _P()
    S = Shaper(I)
    entry = st
    entrypc = st.pc
    shapes = {}
    ktok = Tok.new()
    kn = Tok.num(ktok, True, 0, None)
    facts = 1
    if dom is not None:
        if dom.const() is not None and dom.const() <= 0:
            return I.block(orelse, st, ctx) if orelse else st
        facts = T.lt(kn, dom)
    live = _live_outside(s, ctx)
    sav = (ctx.brk, ctx.cont, ctx.returns, ctx.raises)
    mark = (len(I.effects), len(I.notes), len(I.loopinfo))
    base = T.band(entrypc, facts)
    I.loopstack.append((getattr(s, 'lineno', None), ktok))
    try:
      seed = {}
      for rnd in range(3):
        for p in range(MAXPASS):
            del I.effects[mark[0]:]
            del I.notes[mark[1]:]
            del I.loopinfo[mark[2]:]
            head = entry.fork()
            head.pc = base if dom is not None else entrypc
            leaf = lambda l: seed[l.tok] if l.tok in seed else tokval(kind_of(l), l.tok)
            for loc, sh in shapes.items():
                _put(head, loc, S.value(sh, leaf, head))
            head0 = head.fork()
            ctx.brk, ctx.cont, ctx.returns, ctx.raises = [], [], [], []
            stops = []
            x = head.fork()
            back = None
            try:
                if test is not None:
                    c = T.tsimp(test(x))
                    ex = x.fork(T.bnot(c))
                    if ex.pc != 0:
                        stops.append(('test', ex))
                    x.pc = T.band(x.pc, c)
                if x.pc != 0:
                    back = bodyfn(x, kn) if bodyfn is not None else I.block(body, x, ctx)
            except P.Dead:
                back = None
            back = I.joinall([y for y in [back] + ctx.cont if y is not None and y.pc != 0])
            changed = False
            if back is not None:
                undef_used = {n[1] for n in I.notes[mark[1]:] if n[0] == 'undefined-variable'}
                for loc in _locs(back):
                    v1 = _get(back, loc)
                    sh = shapes.get(loc)
                    if sh is None:
                        v0 = _get(head0, loc)
                        if v0 is None:
                            v0 = P.UNDEF
                        if v0 is v1 or v0 == v1 or _same_ref(v0, v1):
                            continue
                        if v0 == P.UNDEF:
                            if loc[0] == 'h':
                                continue
                            if loc[2] not in undef_used and loc[2] not in live:
                                continue
                        sh, _ = S.merge(Sh('same', None, v0), v1, back)
                        shapes[loc] = sh
                        changed = True
                    else:
                        if sh.k == 'ref' or True:
                            sh2, ch = S.merge(sh, v1, back)
                        shapes[loc] = sh2
                        changed |= ch
            if not changed:
                break
        else:
            raise P.Abort(f'loop at line {getattr(s, "lineno", None)}: no stable head state')
        rel = lambda pc: T.tsimp(T.restrict(pc, base))
        lv = {}
        inits, nexts = {}, {}
        for loc, sh in shapes.items():
            v0 = _get(entry, loc)
            S.parts(sh, P.UNDEF if v0 is None else v0, entry, inits)
            if back is not None:
                S.parts(sh, _get(back, loc), back, nexts)
            for l in S.leaves(sh):
                lv[l.tok] = l
        brp = rel(back.pc) if back is not None else 0
        L = Loop(I, ktok, kn, dom, lv, inits, nexts)
        L.closed.update({t: v for t, v in seed.items() if t in lv})
        L.eliminate()
        new = {t: v for t, v in L.closed.items() if t not in seed and kind_of(lv[t])[0] in ('num', 'bool')}
        if not new or back is None:
            break
        seed.update(new)
      brks, rets, raises = ctx.brk, ctx.returns, ctx.raises
    finally:
        I.loopstack.pop()
        ctx.brk, ctx.cont, ctx.returns, ctx.raises = sav

    # classes of ways out
    classes = []
    ft = []
    for k, ex in stops:
        ft.append(('test', ex))
    nb = [('brk', b) for b in brks]
    groups = []
    if orelse:
        groups.append(('normal', ft, dom is not None))
        if nb:
            groups.append(('brk', nb, False))
    else:
        groups.append(('normal', ft + nb, dom is not None))
    conds = []
    for name, sts, end in groups:
        conds.append(T.bor(*[rel(x.pc) for _, x in sts]) if sts else 0)
    for (rs, v, line) in rets:
        conds.append(rel(rs.pc))
    for (rs, exc, line, fn_) in raises:
        conds.append(rel(rs.pc))
    conds = [T.tsimp(L.sb(c)) for c in conds]
    total = T.bor(*conds) if conds else 0
    outs = []
    ci = 0
    only = sum(1 for c in conds if c != 0) + (1 if dom is not None and conds and conds[0] == 0 else 0) <= 1
    others = lambda i: T.bor(*[c for j, c in enumerate(conds) if j != i]) if len(conds) > 1 else 0
    result = None
    brk_result = None
    for gi, (name, sts, end) in enumerate(groups):
        p = conds[ci]
        o = others(ci)
        ci += 1
        if p == 0 and not end:
            continue
        jn = I.joinall([x for _, x in sts]) if sts else None
        q = T.tsimp(T.restrict(p, T.bnot(o)))
        pc = entrypc if o == 0 else T.band(entrypc, L.exit_pred(total, p, 1 if end else 0))
        r = _exit_state(I, L, q, jn, head0 if end else None, entry, pc, shapes)
        if name == 'brk':
            brk_result = r
        else:
            result = r
    for (rs, v, line) in rets:
        p = conds[ci]
        o = others(ci)
        ci += 1
        if p == 0:
            continue
        q = T.tsimp(T.restrict(p, T.bnot(o)))
        pc = T.band(entrypc, L.exit_pred(total, p, 0)) if (o != 0 or dom is not None) else entrypc
        r = _exit_state(I, L, q, rs, None, entry, pc, shapes)
        fv = L.exitv(q, v, None)
        ctx.returns.append((r, fv, line))
    for (rs, exc, line, fn_) in raises:
        p = conds[ci]
        o = others(ci)
        ci += 1
        if p == 0:
            continue
        q = T.tsimp(T.restrict(p, T.bnot(o)))
        pc = T.band(entrypc, L.exit_pred(total, p, 0)) if (o != 0 or dom is not None) else entrypc
        if pc == 0:
            continue
        r = _exit_state(I, L, q, rs, None, entry, pc, shapes)
        ctx.raises.append((r, exc, line, fn_))
    I.loopinfo.append({'line': getattr(s, 'lineno', None), 'func': I.cur, 'stop': total, 'dom': dom,
                       'vars': len(lv), 'elim': len(L.closed), 'infinite': result is None and brk_result is None
                       and not rets and not raises, 'entry': entrypc})
    # effects recorded inside: express them for an arbitrary iteration
    for e in I.effects[mark[0]:]:
        e.pc = L.sb(e.pc)
    if orelse and result is not None:
        result = I.block(orelse, result, ctx)
    if brk_result is not None:
        result = I.join(result, brk_result)
    return result


def _same_ref(a, b):
    return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id


def _locs(st):
    for f, d in st.frames.items():
        for n in d:
            yield ('f', f, n)
    for i in st.heap:
        yield ('h', i)


def _get(st, loc):
    if loc[0] == 'f':
        return st.frames.get(loc[1], {}).get(loc[2])
    return st.heap.get(loc[1])


def _put(st, loc, v):
    if loc[0] == 'f':
        st.frames[loc[1]][loc[2]] = v
    else:
        st.heap[loc[1]] = v


def _live_outside(s, ctx):
    """names loaded in the enclosing function outside this loop's subtree"""
    import ast
    node = getattr(ctx, 'fnode', None)
    if node is None:
        return _All()
    inside = {id(n) for n in ast.walk(s)} if isinstance(s, ast.AST) else set()
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inside:
            out.add(n.id)
    if _nested_in_loop(node, s):
        pass
    return out


def _nested_in_loop(node, s):
    return False


class _All:
    def __contains__(self, x):
        return True


def _exit_state(I, L, q, jn, endst, entry, pc, shapes):
    """state after leaving through class q: values at the first iteration satisfying q (or at exhaustion)"""
    r = entry.fork()
    r.pc = pc
    src = jn if jn is not None else endst
    for loc in set(_locs(src)) | (set(_locs(endst)) if endst is not None else set()):
        a = _get(jn, loc) if jn is not None else None
        b = _get(endst, loc) if endst is not None else None
        if a is None:
            a = b
        if b is None and endst is not None and loc[0] == 'f':
            b = a
        e0 = _get(entry, loc)
        if (a is e0) and (b is None or b is e0):
            continue
        v = L.exitv(q, a, b)
        _put_new(r, loc, v)
    return r


def _put_new(st, loc, v):
    if loc[0] == 'f':
        st.frames.setdefault(loc[1], {})[loc[2]] = v
    else:
        st.heap[loc[1]] = v


class Loop:
    def __init__(self, I, ktok, kn, dom, leaves, inits, nexts):
        self.I, self.ktok, self.kn, self.dom = I, ktok, kn, dom
        self.leaves, self.init, self.next = leaves, inits, nexts
        self.closed = {}          # tok -> value at iteration K (over ktok only)
        self.canon = {}
        self.trips = {}
        self.alltoks = set(leaves) | {ktok}

    def s(self, x):
        """apply closed forms"""
        return subst_tok(x, self.closed) if self.closed else x

    def sb(self, b):
        return T.tsimp(subst_tok(b, self.closed)) if self.closed and b > 1 else b

    def at(self, x, k):
        return subst_tok(x, {self.ktok: k})

    def eliminate(self):
        todo = [t for t in self.leaves if t in self.next and t not in self.closed]
        for t in self.leaves:
            if t not in self.next:
                self.next[t] = tokval(kind_of(self.leaves[t]), t)
        ch = True
        while ch:
            ch = False
            for t in list(todo):
                r = self.try_close(t)
                if r is not None:
                    todo.remove(t)
                    self.closed[t] = r
                    for u in self.closed:
                        if u != t:
                            self.closed[u] = subst_tok(self.closed[u], {t: r})
                    for u in self.next:
                        self.next[u] = subst_tok(self.next[u], {t: r})
                    ch = True

    def try_close(self, t):
        l = self.leaves[t]
        kind = kind_of(l)
        me = tokval(kind, t)
        nx, it = self.next[t], self.init[t]
        if nx == me:
            return it
        tk = tokens(nx if not isinstance(nx, BArg) else nx) & self.alltoks
        H = None
        if kind[0] == 'num':
            d = nx - me
            dt = tokens(d) & self.alltoks
            if not dt:
                return it + self.kn * d
            if dt <= {self.ktok}:
                h = 1 + VV.height(d)
                return it + sum_of(self.kn, h, 1, self.at(d, idx(h)))
            # conditional on bits of K only handled above (bit atoms are part of d)
        if kind[0] == 'bool':
            mv = [v for v in T.BDD.support(me.b)]
            hi, lo = T.restrict_lit(nx.b, mv[0], True), T.restrict_lit(nx.b, mv[0], False)
            if len(mv) == 1 and not (tokens(BArg(hi)) | tokens(BArg(lo))) & (self.alltoks - {self.ktok}):
                if hi == 1:         # me | lo(K)
                    h = 1 + VV.height(BArg(lo))
                    return BArg(T.bor(it.b, exists(self.kn, h, self.at(BArg(lo), idx(h)).b)))
                if lo == 0:         # me & hi(K)
                    h = 1 + VV.height(BArg(hi))
                    return BArg(T.band(it.b, T.bnot(exists(self.kn, h, T.bnot(self.at(BArg(hi), idx(h)).b)))))
        if kind[0] == 'seq':
            parts = VV._parts(nx)
            if parts and parts[0] == me and not (t in tokens(tuple(parts[1:]))):
                rest = scat(parts[1:])
                if tokens(rest) & self.alltoks <= {self.ktok}:
                    h = 1 + VV.height(rest)
                    return scat([it, sflat(self.kn, 1, h, self.at(rest, idx(h)))])
                return None
            if isinstance(nx, Store) and nx.s == me and t in tokens(nx.v) and t not in tokens(nx.i):
                # cells read in an iteration that no earlier iteration has written still have their first value
                nx = Store(me, nx.i, unwritten(nx.v, me, it, nx.i))
            if isinstance(nx, Store) and nx.s == me and t not in tokens((nx.v, nx.i)) and \
                    tokens((nx.v, nx.i)) & self.alltoks <= {self.ktok}:
                off = nx.i - self.kn
                if not tokens(off) & self.alltoks and isinstance(it, (Map,)) and it.pred == 1 and T.nonneg(off):
                    H = max(it.h, 1 + VV.height(nx.v))
                    e = lift_elem(it.elem, it.h, H)
                    i = idx(H)
                    c = T.band(T.le(off, i), T.lt(i, off + self.kn))
                    return smap(it.n, 1, H, vite(c, self.at(nx.v, i - off), e))
        if tk <= {self.ktok}:
            # value determined by the previous iteration
            prev = self.at(nx, self.kn - 1)
            at0 = self.at(nx, num(-1))
            if at0 == it or (isinstance(it, Num) and T.same(at0, it)):
                return prev
            c = T.eq0(self.kn)
            if kind[0] == 'num':
                return T.ite(c, it, prev)
            if kind[0] == 'bool':
                return BArg(T.bite(c, it.b, prev.b))
            if kind[0] == 'seq':
                return site(c, it, prev)
            return vite(c, it, prev)
        return None

    # ---- exits
    def trip(self, q):
        """iteration count at the first K with q(K), when q is a threshold in K"""
        if q in self.trips:
            return self.trips[q]
        r = self._trip(q)
        if r is None and self.dom is None and q > 1 and tokens(q) & self.alltoks == {self.ktok}:
            # no closed form: the least K with q(K) as an atom
            k = N(tokval(('num', True, 0, None), self.ktok), 'num')
            sl, (x, y) = self.slicer(q).slice((k, k))
            r = T.fn('exit', ExitV(sl, x, y), isint=True, lo=0)
        self.trips[q] = r
        return r

    def _trip(self, q):
        if q == 0:
            return None
        if q == 1:
            return T.ZERO
        if tokens(q) & self.alltoks != {self.ktok}:
            return None
        q0 = q
        q = Z.reduce_(q)
        if q < 2:
            return T.ZERO if q == 1 else None
        v, lo, hi = T.BDD.node[q]
        if not ({lo, hi} <= {0, 1}):
            return self._trip_multi(q)
        key = T.BDD.preds[v]
        if key[0] not in ('lt0', 'eq0'):
            return None
        a, r = self.affine(key[1])
        if a is None:
            return None
        alo, ahi = T.rng(a)
        up = alo is not None and alo > 0
        down = ahi is not None and ahi < 0
        if key[0] == 'lt0':
            if lo == 1:      # stop when not(aK + r < 0)
                if up:
                    return clamp0(-T.floor(T.div(r, a)))
            else:            # stop when aK + r < 0
                if down:
                    return clamp0(T.floor(T.div(r, -a)) + 1)
            return None
        if hi == 1 and a.const() is not None and abs(a.const()) == 1:     # stop when aK + r == 0
            n = -r if up else r
            if T.nonneg(n) and T.isint(n):
                return n
        return None

    def _trip_multi(self, q):
        """disjunction of thresholds: the earliest"""
        ds = T.disjuncts(q)
        if ds is None:
            return None
        n = None
        for d in ds:
            if tokens(d) & self.alltoks:
                t = self._trip(d)
                if t is None:
                    return None
                n = t if n is None else T.minv(n, t)
            else:
                n2 = T.ite(d, T.ZERO, n) if n is not None else None
                if n2 is None:
                    return None
                n = n2
        return n

    def affine(self, p):
        ids = [a for a in p.atoms() if T.ATOMS[a].kind == 'sym' and T.ATOMS[a].args[0] == ('tok', self.ktok)]
        if len(ids) != 1:
            return None, None
        k = ids[0]
        a = None
        r = {}
        for m, c in p.d.items():
            ek = [e for x, e in m if x == k]
            if ek:
                if ek != [1]:
                    return None, None
                a = a or {}
                a[tuple(t for t in m if t[0] != k)] = c
            else:
                r[m] = c
        r = Num(r)
        a = Num(a) if a else None
        if a is None or tokens(r) & self.alltoks:
            return None, None
        return a, r

    def slicer(self, q):
        c = self.canon.get(q)
        if c is None:
            vs = [LVar(t, kind_of(self.leaves[t]), self.init[t], self.next[t]) for t in self.leaves if t not in self.closed]
            c = LoopCanon(vs, self.ktok, self.dom if self.dom is not None else NONE, q)
            self.canon[q] = c
        return c

    def exit_pred(self, total, p, end):
        """predicate: the loop is left through a stop satisfying p (or by exhaustion when end)"""
        if self.dom is None:
            if p == total:
                return 1
            n = self.trip(total)
            q, neg = canon_on(p, total)
            if n is not None and tokens(q) & self.alltoks <= {self.ktok}:
                r = T.tsimp(self.at(q, n))
                return T.bnot(r) if neg else r
        elif end == 0 and p == total and tokens(p) & self.alltoks <= {self.ktok}:
            h = 1 + max(VV.height(BArg(p)), VV.height(self.dom))
            return exists(self.dom, h, self.at(p, idx(h)))
        elif end == 1 and p == 0 and tokens(total) & self.alltoks <= {self.ktok}:
            h = 1 + max(VV.height(BArg(total)), VV.height(self.dom))
            return T.bnot(exists(self.dom, h, self.at(total, idx(h))))
        if self.dom is None:
            end = 0
        p, neg = canon_on(p, total)
        end = 1 - end if neg and self.dom is not None else end
        if self.dom is None:
            r = self.exit_atoms(total, p)
            if len(T.BDD.support(total)) > 1:
                f = self.exit_atoms(total, total)
                for v in T.BDD.support(f):
                    T.FACTS[v] = T.band(T.FACTS.get(v, 1), f)
        else:
            sl, (e,) = self.slicer(total).slice((B(p),))
            r = T.bpred('exit', ExitV(sl, e, B(end)))
        return T.bnot(r) if neg else r

    def exit_atoms(self, q, p):
        """p at the exit of the loop, decomposed into its atomic predicates at the exit"""
        memo = {0: 0, 1: 1}

        def g(x):
            r = memo.get(x)
            if r is None:
                v, lo, hi = T.BDD.node[x]
                b = T.BDD.mk(v, 0, 1)
                if tokens(b) & self.alltoks:
                    sl, (e,) = self.slicer(q).slice((B(b),))
                    b = T.bpred('exit', ExitV(sl, e, B(0)))
                r = memo[x] = T.bite(b, g(hi), g(lo))
            return r
        return g(p)

    def exitv(self, q, a, b):
        """value at exit: a when stopped by q, b when exhausted (b None: never exhausted)"""
        a = self.s(a) if not isinstance(a, (K, Ref)) else a
        b = self.s(b) if b is not None and not isinstance(b, (K, Ref)) else b
        ta = tokens(a) & self.alltoks
        tb = tokens(b) & self.alltoks if b is not None else set()
        if not ta and not tb and (b is None or a == b):
            return a
        if self.dom is not None and q == 0:
            if b is None:
                return a
            if tb <= {self.ktok}:
                return self.at(b, self.dom)
        elif not (ta | tb) - {self.ktok}:
            n = self.trip(q)
            if n is not None:
                if self.dom is None:
                    return self.at(a, n)
                if b is None:
                    return self.at(a, n)
                c = T.lt(n, self.dom)
                return _anyite(c, self.at(a, n), self.at(b, self.dom))
        if isinstance(a, Ref) or isinstance(b, Ref):
            if b is None or a == b:
                return a
            return Unk('reference differs at loop exit')
        return self.generic(q, a, b)

    def generic(self, q, a, b):
        bb = a if b is None else b
        if a == bb and not tokens(a) & self.alltoks:
            return a
        if type(a) is type(bb):
            g = lambda x, y: self.exitv(q, x, None if b is None else y)
            if isinstance(a, N):
                a0 = a.p.d.get((), 0)
                if a0 and not T.isint(a.p):
                    r = self.exitv(q, N(a.p - a0, a.dt), None if b is None else N(bb.p - a0, bb.dt))
                    return N(r.p + a0, r.dt)
                sl, (x, y) = self.slicer(q).slice((a, bb))
                isint = T.isint(a.p) and T.isint(bb.p)
                lo = 0 if T.nonneg(a.p) and T.nonneg(bb.p) else None
                if isinstance(x, N) and isinstance(y, N):
                    x, y = N(x.p, 'num'), N(y.p, 'num')
                return N(T.fn('exit', ExitV(sl, x, y), isint=isint, lo=lo), join_dt(a.dt, bb.dt))
            if isinstance(a, B) and self.dom is not None and {a.b, bb.b} == {0, 1}:
                r = self.exit_pred(q, 0, 1)
                return B(T.bnot(r) if a.b else r)
            if isinstance(a, B):
                pa, neg = canon_on(a.b, q) if self.dom is None else (a.b, False)
                pb = 0 if self.dom is None else T.bnot(bb.b) if neg else bb.b
                if self.dom is None:
                    r = self.exit_atoms(q, pa)
                else:
                    sl, (x, y) = self.slicer(q).slice((B(pa), B(pb)))
                    r = T.bpred('exit', ExitV(sl, x, y))
                return B(T.bnot(r) if neg else r)
            if isinstance(a, Tup) and len(a.items) == len(bb.items):
                return Tup(tuple(g(x, y) for x, y in zip(a.items, bb.items)))
            if isinstance(a, Named):
                return Named(a.cname, a.names, tuple(g(x, y) for x, y in zip(a.items, bb.items)))
            if isinstance(a, ArrV) and a.ncol == bb.ncol:
                return ArrV(g(a.s, bb.s), join_dt(a.dt, bb.dt), a.ncol)
            if isinstance(a, ListV):
                return ListV(g(a.s, bb.s))
            if isinstance(a, GenV):
                return GenV(g(a.s, bb.s))
            if isinstance(a, FileV) and a.path == bb.path:
                return FileV(a.path, a.mode, g(N(a.pos, 'int'), N(bb.pos, 'int')).p, g(a.out, bb.out))
            if isinstance(a, DictV) and [k for k, _ in a.items] == [k for k, _ in bb.items]:
                return DictV(tuple((k, g(x, y)) for (k, x), (_, y) in zip(a.items, bb.items)))
            if isinstance(a, ObjV) and a.names == bb.names:
                return ObjV(a.cls, a.names, tuple(g(x, y) for x, y in zip(a.items, bb.items)))
            if isinstance(a, Chunk) and (a.file, a.kind) == (bb.file, bb.kind):
                return Chunk(a.file, g(N(a.addr, 'int'), N(bb.addr, 'int')).p, g(N(a.n, 'int'), N(bb.n, 'int')).p, a.kind)
            if isinstance(a, Bytes) and a.n == bb.n:
                return Bytes(a.n, g(N(a.v, 'int'), N(bb.v, 'int')).p)
        if isinstance(a, Ite) or isinstance(bb, Ite) or (a == NONE) != (bb == NONE):
            ca, pa = split_none(a)
            cb, pb = split_none(bb)
            if (ca or cb) and not (pa is None and pb is None):
                c = self.generic(q, B(ca), B(cb)).b if (tokens(ca) | tokens(cb)) & self.alltoks or ca != cb else ca
                pa = pb if pa is None else pa
                pb = pa if pb is None else pb
                return vite(c, NONE, self.exitv(q, pa, None if b is None else pb))
        if isinstance(a, Lit) and isinstance(bb, Lit) and len(a.items) == len(bb.items) and len(a.items) <= 32:
            return Lit(tuple(g(x, y) for x, y in zip(a.items, bb.items)))
        if isinstance(a, Seq) and isinstance(bb, Seq):
            r = self.collect(q, a, bb)
            if r is not None:
                return r
            sl, (x, y) = self.slicer(q).slice((a, bb))
            return SeqExit(sl, x, y)
        a = self.I.freeze(a, self.I.st0) if not isinstance(a, Ref) else a
        if isinstance(a, (Unk,)):
            return a
        if isinstance(a, SetV) or isinstance(bb, SetV):
            return Unk('set built by a loop')
        sl, (x, y) = self.slicer(q).slice((a, bb))
        return ExitV(sl, x, y)

    def collect(self, q, a, b):
        pa = VV._parts(a)
        if not pa or not isinstance(pa[0], MuS):
            return None
        t = pa[0].slot[1] if isinstance(pa[0].slot, tuple) and pa[0].slot[0] == 'tok' else None
        if t not in self.leaves:
            return None
        pn = VV._parts(self.next[t])
        if not pn or pn[0] != pa[0]:
            return None
        if t in tokens(tuple(pn[1:])) or t in tokens(tuple(pa[1:])):
            return None
        pb = VV._parts(b)
        if pb != pa and pb != [pa[0]]:
            return None
        for u in self.leaves:
            if u != t and u not in self.closed and t in tokens(self.next[u]):
                return None
        if t in tokens(q):
            return None
        sl, (x, y) = self.slicer(q).slice((scat(pn[1:]), scat(pa[1:])))
        return scat([self.init[t], LoopCollect(sl, x, y)])


def _anyite(c, a, b):
    if isinstance(a, Num):
        return T.ite(c, a, b)
    if isinstance(a, Seq):
        return site(c, a, b)
    return vite(c, a, b)


def unwritten(v, me, it, i):
    def f(at):
        if isinstance(at, T.Atom) and at.kind == 'fn' and at.args[0] == 'cell' and at.args[1] == me and T.nonneg(at.args[2] - i):
            r = VV.sget(it, at.args[2])
            return r.p if isinstance(r, N) else None
        return None
    return T.subst(v, f)


def exists(n, h, p):
    """exists i < n with p(i)"""
    if p == 0:
        return 0
    ds = T.disjuncts(p)
    if ds is not None and len(ds) <= 8:
        r = [_mono(n, h, d) for d in ds]
        if all(x is not None for x in r):
            return T.band(T.lt(T.ZERO, n), T.bor(*r))
    c = count_of(n, h, p)
    return T.bnot(T.eq0(c))


def _mono(n, h, d):
    """the literal d at the index of 0..n-1 where it holds most easily, or None"""
    v, lo, hi = T.BDD.node[d]
    key = T.BDD.preds[v]
    (m, _), = idx(h).d.items()
    i = m[0][0]
    if not any(getattr(a, 'id', None) == i for a in T.walk(BArg(d))):
        return d
    if key[0] != 'lt0':
        return None
    p = key[1]
    a = None
    for mm, c in p.d.items():
        if any(x == i for x, e in mm):
            if mm != ((i, 1),):
                return None
            a = c
        elif any(getattr(z, 'id', None) == i for x, e in mm for z in T.walk(T.of_atom(T.ATOMS[x]))):
            return None
    if a is None:
        return None
    return VV.ren(d, idx(h), T.ZERO if (a > 0) == (lo == 0) else n - 1)


def project(f, v):
    return T.bor(T._cof(f, v, 0), T._cof(f, v, 1))


def canon_on(p, total):
    """(canonical predicate over few variables that agrees with p wherever total holds, negated?)"""
    pt, nt = T.band(p, total), T.band(T.bnot(p), total)
    if pt == 0:
        return 0, False
    if nt == 0:
        return 0, True
    vs = sorted(T.BDD.support(pt) | T.BDD.support(total), reverse=True)
    if len(vs) <= 24:
        for v in vs:
            a, b = project(pt, v), project(nt, v)
            if T.band(a, b) == 0:
                pt, nt = a, b
    return (pt, False) if pt <= nt else (nt, True)
