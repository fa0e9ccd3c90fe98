"""Binning, correlation and the histogram built from them."""
from .common import *
from sa import pylib as PL

U = 'fpfind.lib.utils.'
REF = '''
def hist(alice, bob, num_bins, resolution, num_wraps, acq_start, freq_corr, filter, statistics, center, window):
    from fpfind.lib.utils import generate_fft, get_xcorr, get_statistics
    import numpy as np
    length = num_wraps * num_bins * resolution
    start = max(alice[0], bob[0])
    if acq_start is not None:
        start = start + acq_start
    a = alice - start
    b = (bob - start) * (1 + freq_corr)
    a = a[(a >= 0) & (a < length)]
    b = b[(b >= 0) & (b < length)]
    y = get_xcorr(generate_fft(a, num_bins, resolution), generate_fft(b, num_bins, resolution), filter)
    x = np.arange(num_bins) * resolution
    if statistics:
        return y, x, len(a), len(b), get_statistics(y, resolution, center, window)
    return y, x
'''


def run(ck):
    ck.rule('element k of the transformed series = number of events with floor(t/r) mod N = k; correlation = |irfft(conj(A)*B*filter)|; histogram taken on the events of [start, start + length)')
    ck.assumptions += ['timestamps are non-negative and below 2^54 resolution units; N < 2^40', 'the discrete Fourier transform is an unknown function of its input array']
    for dt in ('f16', 'f8'):
        for r in (1, 16, Fraction(1, 8), 625):
            for far in (0, 1):
                ck.guard(f'bins {dt} {r} {far}', lambda a=(dt, r, far): bins(ck, *a))
        ck.guard(f'empty {dt}', lambda dt=dt: empty(ck, dt))
    for f in (False, True):
        ck.guard(f'correlation {f}', lambda f=f: corr(ck, f))
    for st in (False, True):
        for acq in (False, True):
            for fl in (False, True):
                ck.guard(f'histogram {st} {acq} {fl}', lambda a=(st, acq, fl): histogram(ck, *a))
    return {}


def bins(ck, dt, r, far):
    fresh()
    run = Run()
    run.I.real = True
    q = U + 'generate_fft'
    T.HINT['bins'] = 12
    T.HINT['in:a'] = int(2 ** 40 * r) if far else int(40 * r) + 1
    T.HINT['n'] = 4 if far else 12
    n, nb = count('n'), sym('bins', 1, 2 ** 40)
    t = T.fn('in:a', idx(1), isint=False, lo=0, hi=num(2 ** 54).const())
    a = ArrV(smap(n, 1, 1, N(t, dt)), dt, None)
    o = run.call(q, [a, N(nb, 'int'), N(num(r), 'float' if r != 16 else 'int')])
    ck.seen(run)
    tag = f'{dt} series, bins of {r} ns' + (', late events' if far else '')
    ck.iff(tag + ': refused exactly when empty', B(o.rp).b, B(T.eq0(n)).b, q)
    k = T.mod(T.floor(t * (Fraction(1) / r)), nb)
    src = plain(ArrV(PL.tally(run.I, smap(n, 1, 1, N(k, 'int')), nb), 'num', None))
    h = 1 + VV.height(src.s)
    want = ArrV(smap(T.floor(nb * Fraction(1, 2)) + T.ONE, 1, h, N(T.fn('rfft', src, T.floor(nb * Fraction(1, 2)) + T.ONE, idx(h)), 'num')), 'num', None)
    ck.same(tag + ': spectrum of the counts', plain(o.ret), want, q, pre=T.lt(T.ZERO, n), cmp=Cmp(real=True))


def plain(v):
    if isinstance(v, ArrV):
        s = smap_elem(v.s, lambda x: N(x.p, 'num') if isinstance(x, N) else x)
        return ArrV(s, 'num', None) if s is not None else v
    return v


def empty(ck, dt):
    fresh()
    run = Run()
    q = U + 'generate_fft'
    o = run.call(q, [ArrV(Lit(()), dt, None), N(sym('bins', 1, 2 ** 40), 'int'), N(num(16), 'int')])
    ck.seen(run)
    ck.iff(f'empty {dt} series: refused', B(o.rp).b, 1, q)


def corr(ck, filt):
    fresh()
    run = Run()
    run.I.real = True
    q = U + 'get_xcorr'
    PL.COMPLEX |= {'in:A', 'in:B', 'in:F'}
    m = count('m', 2)
    arr = lambda x: ArrV(smap(m, 1, 1, N(T.fn('in:' + x, idx(1)), 'c16')), 'c16', None)
    g = lambda x: T.fn('in:' + x, idx(1))
    o = run.call(q, [arr('A'), arr('B')] + ([arr('F')] if filt else []))
    ck.seen(run)
    tag = 'correlation' + (' with a filter' if filt else '')
    ck.iff(tag + ': no error', B(o.rp).b, 0, q)
    p = T.fn('conj', g('A')) * g('B')
    if filt:
        p = p * g('F')
    src = ArrV(smap(m, 1, 1, N(p, 'num')), 'num', None)
    h = 1 + VV.height(src.s)
    z = (m - T.ONE) * 2
    want = ArrV(smap(z, 1, h, N(T.absv(T.fn('irfft', src, z, idx(h))), 'num')), 'num', None)
    ck.same(tag, plain(o.ret), want, q, cmp=Cmp(real=True))


def opaque(name, keys):
    def f(I, b, st, ctx, node):
        a = tuple(deep(I.freeze(b.get(k, NONE), st)) for k in keys)
        return Opq('call:' + name, a)
    return f


def deep(v):
    if isinstance(v, N):
        return N(v.p, 'num')
    if isinstance(v, ArrV):
        return plain(v)
    return v


def histogram(ck, stats, acq, fl):
    fresh()
    run = Run()
    run.I.real = True
    q = U + 'histogram_fft'
    run.load('fpfind.lib.utils')
    run.I.summaries = {U + 'generate_fft': opaque('fft', ('arr', 'num_bins', 'time_res')), U + 'get_xcorr': opaque('xcorr', ('afft', 'bfft', 'filter')),
                       U + 'get_statistics': opaque('stats', ('hist', 'resolution', 'center', 'window'))}
    run.I.assume = 1
    a, b = in_array('a', count('na', 1), 'f16', isint=False, lo=0), in_array('b', count('nb', 1), 'f16', isint=False, lo=0)
    for x in ('in:a', 'in:b'):
        T.HINT[x] = 400
    for x, y in (('bins', 16), ('wraps', 4)):
        T.HINT[x] = y
    nb, w = N(sym('bins', 1), 'int'), N(sym('wraps', 1), 'int')
    r, f = N(real('r', 0), 'float'), N(real('skew'), 'float')
    st, c, win = N(real('acq'), 'float') if acq else NONE, N(real('center'), 'float') if stats else NONE, N(real('window', 0), 'float')
    fil = N(real('filter'), 'num') if fl else NONE
    o = run.call(q, [a, b, nb, r, w, st, f, fil, K(stats), c, win])
    ck.seen(run)
    s = run.spec(REF, 'hist', [a, b, nb, r, w, st, f, fil, K(stats), c, win])
    tag = 'histogram' + (' with statistics' if stats else '') + (' from a start' if acq else '') + (' filtered' if fl else '')
    ck.iff(tag + ': no error', B(o.rp).b, 0, q)
    for i, nm in enumerate(('correlation', 'delays', 'events of the first side', 'events of the second side', 'statistics')[:5 if stats else 2]):
        ck.same(f'{tag}: {nm}', deep(item(o.ret, i)), deep(item(s.ret, i)), q, pre=T.bnot(o.rp), cmp=Cmp(real=True))
