"""The refinement search (time_freq): measurements are replaced by arbitrary functions of the data they look at.

A measurement sees (reference window, target window, bins, bin width); its delay and its significance are unknown
functions of these, so the contracts below hold for every measured history.  The loop is followed round by round; the
resolutions of a configuration are constants, which fixes the number of rounds."""
from .common import *

FP = 'fpfind.fpfind.'
U = 'fpfind.lib.utils.'
LIMIT_DT = 10 ** 8            # NTP_MAXDELAY_NS
LIMIT_DF = Fraction(1, 2 ** 13)

SPEC = '''
import numpy as np
from fpfind.lib.utils import slice_timestamps, generate_fft, get_xcorr, get_timing_delay_fft, get_statistics

class Fail(ValueError):
    pass

def correlate(a, b, start, length, bins, r):
    return get_xcorr(generate_fft(slice_timestamps(a, start, length), bins, r), generate_fft(slice_timestamps(b, start, length), bins, r))

def read(y, n, r):
    return get_timing_delay_fft(y, np.arange(n) * r)[0]

def search(ats, bts, wraps, bins, r, target, threshold, sep, maxdt, maxdf, first=True, D=0, G=1):
    span = wraps * r * bins
    end = min(ats[-1], bts[-1])
    x = bts
    spurious = False
    while True:
        width = r * bins
        length = min(np.round(span / width), np.floor(end / width)) * width
        y = correlate(ats, x, 0, length, bins, r)
        a = read(y, bins, r)
        s = get_statistics(y, r).significance
        if first:
            n = bins
            while True:
                if s == 0:
                    raise Fail('flat')
                if s >= threshold:
                    break
                y = np.sum(y.reshape(-1, 2), axis=1)
                r = r * 2
                if r > 10000:
                    raise Fail('low')
                a = read(y, len(y), r)
                s = get_statistics(y, r).significance
        if abs(a) > maxdt:
            raise Fail('delay')
        late = read(correlate(ats, x, sep, length, bins, r), bins, r)
        b = (late - a) / sep
        if not first:
            lim = 10 * max(abs(D), 1)
            if abs(a) > lim or abs(late) > lim or abs(b) > 10 * max(abs(G - 1), 0.000000001):
                spurious = True
                break
        D = D + G * a
        G = G * (1 + b)
        if abs(G - 1) >= maxdf:
            raise Fail('skew')
        if r == target:
            break
        x = (x - a) / (1 + b)
        r = max(r * span * np.sqrt(2) / sep, target)
        first = False
    return D, G - 1, spurious
'''


def rv(name, *a, lo=None):
    return N(T.fn('call:' + name, *a, lo=lo), 'f8')


def untag(v):
    """numbers without their machine type"""
    if isinstance(v, N):
        return N(v.p, 'num')
    if isinstance(v, K) and isinstance(v.o, bool):
        return B(int(v.o))
    if isinstance(v, Tup):
        return Tup(tuple(untag(x) for x in v.items))
    if isinstance(v, ListV):
        return ListV(smap_elem(v.s, untag) or v.s)
    if isinstance(v, Opq):
        return Opq(v.name, tuple(untag(x) for x in v.args))
    if isinstance(v, ArrV):
        return ArrV(smap_elem(v.s, untag) or v.s, 'num', None)
    return v


def width_of(v):
    s = getattr(v, 's', None)
    if s is None:
        return v
    e = sget(s, num(1))
    z = sget(s, num(0))
    return N(e.p - z.p, 'num') if isinstance(e, N) and isinstance(z, N) else v


def summaries(sig):
    def args(I, b, st):
        return [untag(I.freeze(v, st)) for v in b.values()]

    def delay(I, b, st, ctx, node):
        a = args(I, b, st)
        key = (a[0], width_of(a[1]))
        return Tup((rv('delay', *key), rv('alias', *key)))

    def stats(I, b, st, ctx, node):
        a = args(I, b, st)
        v = Named('PeakStatistics', ('significance',), (sig(a[0], a[1]),))
        return v

    def corr(I, b, st, ctx, node):
        a = args(I, b, st)
        k = a[0]
        n = k.args[1] if isinstance(k, Opq) and k.name == 'fft' and len(k.args) == 3 else None
        if not isinstance(n, N):
            return Opq('xcorr', tuple(a))
        H = 1 + max([VV.height(x) for x in a])
        return I.alloc(st, ArrV(smap(n.p, 1, H, rv('corr', *a, idx(H))), 'f8', None))

    def op(n):
        def f(I, b, st, ctx, node):
            return Opq(n, tuple(args(I, b, st)))
        return f
    return {U + 'get_timing_delay_fft': delay, U + 'get_statistics': stats, U + 'slice_timestamps': op('window'),
            U + 'generate_fft': op('fft'), U + 'get_xcorr': corr}


def sig_free(y, r):
    return rv('sig', y, lo=0)


EPS = Fraction(1, 1000)


def threshold():
    return real('weak', EPS) + real('gap', EPS)


def sig_from(R, flat=None):
    """peaks are too weak below bin width R, acceptable from there on; flat at bin width `flat`"""
    def f(y, r):
        c = r.p.const() if isinstance(r, N) else None
        if c is not None and c == flat:
            return N(T.ZERO, 'f8')
        if c is not None and c < R:
            return N(real('weak', EPS), 'f8')
        return N(threshold() + real('surplus', 0), 'f8')
    return f


def start(rounds=5, sig=sig_free):
    fresh()
    run = Run()
    run.I.summaries = summaries(sig)
    run.I.unrolled = rounds
    run.I.real = True
    run.load('fpfind.fpfind')
    return run


def series(run, nm, n, hint=3):
    return run.alloc(in_array(nm, count(n, 1, hint), 'f16', isint=False, lo=0))


def fixed_end(run, nm, end):
    """three events, the last at a known time"""
    return run.alloc(ArrV(Lit(tuple([N(real(nm + '_0', 0), 'f16'), N(real(nm + '_1', 0), 'f16'), N(num(end), 'f16')])), 'f16', None))


def args(run, wraps, bins, r, target, sep, ends):
    ab = [fixed_end(run, x, e) for x, e in zip('ab', ends)] if ends else [series(run, 'a', 'na'), series(run, 'b', 'nb')]
    return ab + [I_(wraps), I_(bins), N(num(r), 'int'), N(num(target), 'int'), N(threshold(), 'float'), N(num(sep), 'float')]


def interp(sep):
    """histories of readings: small and large ones, close to the limits, drifting within and just beyond the limits"""
    import hashlib

    def h(val, *a):
        return int.from_bytes(hashlib.blake2b(repr((val.seed, a)).encode(), digest_size=8).digest(), 'little')

    def u(x, n):
        return Fraction(x % (2 * n + 1) - n, n)

    def delay(val, *a):
        w = a[1]
        k = h(val, 'base', str(w))
        m = val.seed % 6
        if m == 0:
            base = u(k, 1000) * 2
        elif m == 1:
            base = u(k, 40) * 20
        elif m == 2:
            base = u(k >> 3, 1000) * (1, 9, 11, 100)[k % 4]
        elif m == 3:
            base = u(k, 10 ** 6) * 3000
        elif m == 4:
            base = (1, -1)[k & 1] * (LIMIT_DT + (0, 1, -1, Fraction(1, 1000), -Fraction(1, 1000))[(k >> 1) % 5])
        else:
            base = u(k, 1)
        if not isinstance(a[0], list) or a[0][0] > 0:
            return base
        k = h(val, 'drift', str(w))
        t = (0, 1, -1, u(k >> 4, 97), u(k >> 4, 97) / 3, u(k >> 4, 1000) / 12, 1 + u(k >> 4, 997) / 50, 11 * u(k >> 4, 977))[(k + val.seed // 6) % 8]
        return base + t * sep * LIMIT_DF

    def pert(val, *a):
        # different data, different reading
        d = delay(val, *a)
        return d if val.seed & 1 else d + Fraction(h(val, a) % 1009, 1009 * 1000)

    def corr(val, *a):
        x = h(val, a) % 1000 + 1
        return x if a[0][1] == 0 else -x

    def window(val, x, t, *a):
        return 'opq', t, h(val, x, t, a)

    def fft(val, x, *a):
        return 'opq', x[1] if isinstance(x, tuple) else 0, h(val, x, a)

    return {'window': window, 'fft': fft, 'call:corr': corr, 'call:delay': pert, 'call:alias': lambda val, *a: pert(val, *a) + 7}


def setup(val, k):
    val.longest = 5000


def cmp(cfg, **kw):
    return Cmp(real=True, fns=interp(cfg[5]), trials=600, setup=setup, inputs=('window', 'fft'), **kw)


LONG = (10 ** 9, 10 ** 9 + 1)
CONFIGS = (
    # name, wraps, bins, r0, target, separation, accepted at, rounds, last events
    ('one step, any series', 1, 64, 4, 4, 6 * 256, 0, 3, None),
    ('two steps, any series', 1, 64, 4, 2, 6 * 256, 0, 4, None),
    ('one step', 1, 64, 4, 4, 6 * 256, 0, 3, LONG),
    ('two steps', 1, 64, 4, 2, 6 * 256, 0, 4, LONG),
    ('two steps far apart', 1, 64, 4, 2, 10 ** 6, 0, 4, LONG),
    ('two steps after a rejection', 1, 64, 4, 2, 6 * 256, 8, 6, LONG),
    ('one step after two rejections', 1, 64, 4, 16, 6 * 256, 16, 5, LONG),
    ('three steps over two wraps', 2, 32, 16, 1, 6 * 1024, 0, 5, LONG),
    ('three steps over short reference data', 3, 32, 16, 1, 7 * 1536, 0, 5, (1100, 5000)),
    ('three steps over short target data', 3, 32, 16, 1, 6 * 1536, 0, 5, (5000, 900)),
)


def both(cfg, sig=None):
    nm, wraps, bins, r, target, sep, R, rounds, ends = cfg
    run = start(rounds, sig or sig_from(R))
    a = args(run, wraps, bins, r, target, sep, ends)
    o = run.call(FP + 'time_freq', a)
    lo = run.I.leftover
    run.I.leftover = 0
    s = run.spec(SPEC, 'search', a + [I_(LIMIT_DT), N(num(LIMIT_DF), 'float')], mayraise=True)
    ls = run.I.leftover
    return run, o, s, lo, ls
