"""freqcd.c: lowered to terms and followed through scripted histories of reads whose contents stay arbitrary."""
import os
from sa import harness as H
from .common import *
from sa import cmodel as CM, values as VV
from sa.cmodel import CEnv, Round
from sa.pyeval import Abort
from sa.values import ListV, smap, PtrV

SRC = 'src/fpfind/freqcd.c'
Q = 'freqcd.main'
FD = ('mod', CM.MODNAME)


def start(env):
    fresh()
    run = Run()
    run.I.real = True
    run.I.step_loops = 110
    run.I.cenv = env
    run.lo = CM.load(run.I, os.path.join(H.ROOT, SRC))
    return run


def go(run):
    f = run.I.st0.frames[FD].get('main')
    if f is None:
        raise H.Missing('main of freqcd.c not found')
    return run.invoke(f, [N(sym('argc', 1), 'int'), K('argv')], name=Q)


# ------------------------------------------------------------------ the documented correction
def corr(t, ref, f):
    return T.floor(T.floor(T.mod(t - ref, num(1 << 54)) * Fraction(1, 1 << 12)) * f * Fraction(1, 1 << 22))


def corrected(i, ref, acc, f, legacy):
    t = CM.stamp_of(i)
    r = T.mod(t + corr(t, ref, f) + acc, num(1 << 54)) * 1024 + CM.rest_of(i)
    return CM.swap(r) if legacy else r


def expected(batches, legacy=False):
    """for batches [(number of events, frequency)] taken in order from the stream: [(number, output word of the i-th)]"""
    pos, ref, acc, out = T.ZERO, CM.stamp_of(T.ZERO), T.ZERO, []
    for n, f in batches:
        out.append((n, lambda i, a=(pos, ref, acc, f): N(corrected(a[0] + i, a[1], a[2], a[3], legacy), 'int')))
        if n == T.ZERO:
            continue
        pos = pos + n
        last = CM.stamp_of(pos - 1)
        acc = acc + corr(last, ref, f)
        ref = last
    return out


def outputs(o, rounds):
    fr = state(o)
    return [fr.get(f'#out{r}', ListV(EMPTY)) for r in range(1, rounds + 1)]


def delivered(o, rounds):
    fr = state(o)
    return [nump(o, fr[f'#E{r}']) if f'#E{r}' in fr else T.ZERO for r in range(1, rounds + 1)]


def nump(o, v):
    if isinstance(v, N):
        return v.p
    while isinstance(v, VV.Ite) and not all(isinstance(x, (N, VV.Ite)) for x in (v.a, v.b)):
        # nothing was delivered on the paths that ended before
        v = v.b if isinstance(v.b, (N, VV.Ite)) else v.a
    n = o.I.tonum(v)
    if n is None:
        raise Abort('undecided number ' + T.show_any(v)[:300])
    return n.p


def compare(ck, tag, o, fs, legacy=False):
    """every round writes its events, corrected with that round's frequency"""
    k = len(fs)
    for r, (got, (n, want)) in enumerate(zip(outputs(o, k), expected(list(zip(delivered(o, k), fs)), legacy))):
        ck.pointwise(f'{tag}: round {r + 1}', got, n, want, Q, pre=o.pc, at=lambda i: (('first event', T.ZERO), ('later event', i + 1)))


def fsym(name='f'):
    """any acceptable frequency value"""
    return T.sym(name, True, 1 - 2 ** 21, 2 ** 21 - 1)


def farg(name='f'):
    """the value a -f argument stands for"""
    return T.fn('in:strtol', Opq('arg', (K(name),)), num(10), isint=True, lo=-(1 << 63), hi=(1 << 63) - 1)


def state(o):
    return o.st.frames[FD] if o.st is not None else {}


FAULTS = ('MemoryFault', 'NullOrWildPointer', 'UseAfterFree', 'DoubleFree', 'InvalidFree', 'BufferOverflow', 'UninitialisedText', 'UnterminatedText',
          'WriteToConstant', 'OverlappingCopy', 'SignedOverflow', 'FloatToIntOverflow', 'DivisionByZero', 'BadDescriptor')


def follow(ck, tag, env):
    """(run, outcome); undecided when some path could not be followed"""
    run = start(env)
    o = go(run)
    ck.seen(run)
    if run.I.leftover != 0:
        ck.add(tag + ': every round of every loop followed', 'unk', Q)
    return run, o


def faults(o):
    return T.bor(*[r[0] for r in o.raises if r[1] in FAULTS]) if o.raises else 0


def nofault(ck, tag, o):
    """no path reaches an access outside a live object, an arithmetic overflow or a conversion out of range"""
    fs = [r for r in o.raises if r[1] in FAULTS]
    where = Q if not fs else f'{fs[0][2]} line {fs[0][3]} ({fs[0][1]})' if len(fs[0]) > 3 else Q
    ck.iff(tag + ': no fault', faults(o), 0, where)


def ended(o):
    """[(condition, exit status, messages on the error stream, on standard output, destinations written to)] of the ways main ends"""
    r = []
    if o.st is not None and o.ret is not None:
        f = state(o)
        r.append((o.pc, T.mod(_num(o.ret), num(256)), f['#stderr'], f['#stdout'], f['#wrote']))
    for pc, exc in o.excs:
        if exc.cls == 'SystemExit':
            r.append((pc, T.mod(_num(exc.args[0]), num(256))) + tuple(exc.args[1:]))
    return r


def when(o, what):
    """the condition under which main ends with what(status, stderr, stdout, written)"""
    return T.bor(*[T.band(p, what(*x)) for p, *x in ended(o)]) if ended(o) else 0


def some(l):
    return T.lt(T.ZERO, VV.slen(l.s))


def _num(v):
    if isinstance(v, N):
        return v.p
    if isinstance(v, Ite):
        return T.ite(v.c, _num(v.a), _num(v.b))
    raise H.Missing('exit status')
