"""Signal and background of a correlation peak, and the significance computed from them."""
from .common import *

U = 'fpfind.lib.utils.'
REF = '''
def parts(s):
    return s.signal, s.background

def significance(s):
    return s.significance

def split(hist, resolution, center, window):
    import numpy as np
    n = len(hist)
    if center is None:
        k = np.argmax(hist)
    elif center < 0:
        k = n - int(-center // resolution)
    else:
        k = int(center // resolution)
    w = int(np.ceil(window / (2 * resolution)))
    first, last = max(k - w, 0), min(k + w, n)
    return hist[first:last + 1], np.hstack((hist[first // 2:first], hist[last + 1:(n + last) // 2 + 1]))

def sig(signal, background):
    import numpy as np
    from fpfind.lib.utils import round
    if len(background) == 0:
        return 0
    spread = np.std(background)
    if spread == 0:
        return 0
    return round((np.max(signal) - np.mean(background)) / spread, 3)
'''


def run(ck):
    ck.rule('signal = bins within half a window of the centre (the maximum when none is given); background = the adjoining half of the bins on either side, without the signal; significance = (max(signal) - mean(background)) / std(background) to 3 digits, 0 without spread')
    ck.assumptions += ['a centre is a multiple of the resolution with magnitude below the length of the histogram', 'mean, standard deviation and maximum of an array are unknown functions of it']
    for dt in ('f8', 'i8'):
        ck.guard(f'whole {dt}', lambda dt=dt: whole(ck, dt))
        for c in ('none', 'positive', 'negative'):
            for r in (1, 16):
                for w in (0, 1):
                    ck.guard(f'split {dt} {c} {r} {w}', lambda a=(dt, c, r, w): split(ck, *a))
        ck.guard(f'significance {dt}', lambda dt=dt: sig(ck, dt))
    ck.guard('misuse', lambda: misuse(ck))
    return {}



def split_of(run, *a):
    o = run.call(U + 'get_statistics', list(a))
    return o, run.spec(REF, 'parts', [o.ret], mayraise=True).ret if o.ret is not None else None


def whole(ck, dt):
    fresh()
    run = Run()
    run.I.real = True
    q = U + 'get_statistics'
    h = in_array('hist', count('n', 1), dt, isint=dt == 'i8', lo=0)
    o, got = split_of(run, h)
    ck.seen(run)
    ck.iff(f'{dt} histogram alone: no error', B(o.rp).b, 0, q)
    for i, nm in enumerate(('signal', 'background')):
        ck.same(f'{dt} histogram alone: {nm}', item(got, i), h, q, pre=T.bnot(o.rp), cmp=Cmp(real=True))


def split(ck, dt, c, r, w):
    fresh()
    run = Run()
    run.I.real = True
    q = U + 'get_statistics'
    n = count('n', 1)
    h = in_array('hist', n, dt, isint=dt == 'i8', lo=0)
    m = count('m', 0, 6)
    pre = T.lt(m, n)
    cen = NONE if c == 'none' else N(m * r if c == 'positive' else -(m + T.ONE) * r, 'float')
    if c == 'negative':
        pre = T.lt(m + T.ONE, n)
    T.HINT['window'] = 5 * r
    win = N(real('window', 0), 'float') if w else N(T.ZERO, 'float')
    R = N(num(r), 'int')
    o, got = split_of(run, h, R, cen, win)
    ck.seen(run)
    s = run.spec(REF, 'split', [h, R, cen, win])
    tag = f'{dt} histogram, {c} centre, bins of {r} ns, ' + ('a window' if w else 'no window')
    ck.iff(tag + ': no error', T.band(pre, B(o.rp).b), 0, q)
    for i, nm in enumerate(('signal', 'background')):
        ck.same(f'{tag}: {nm}', item(got, i), item(s.ret, i), q, pre=T.band(pre, T.bnot(o.rp)), cmp=Cmp(real=True))


def sig(ck, dt):
    fresh()
    run = Run()
    run.I.real = True
    q = U + 'PeakStatistics.significance'
    a, b = in_array('signal', count('na', 1), dt, isint=dt == 'i8', lo=0), in_array('background', count('nb', 0), dt, isint=dt == 'i8', lo=0)
    o = run.call(U + 'PeakStatistics', [a, b])
    ck.seen(run)
    g = run.spec(REF, 'significance', [o.ret], mayraise=True)
    s = run.spec(REF, 'sig', [a, b])
    ck.iff(f'{dt} significance: no error', T.bor(o.rp, g.rp), 0, q)
    ck.same(f'{dt} significance', g.ret, s.ret, q, pre=T.bnot(o.rp), cmp=Cmp(real=True))


def misuse(ck):
    fresh()
    run = Run()
    q = U + 'get_statistics'
    h = in_array('hist', count('n', 1), 'f8', isint=False, lo=0)
    o = run.call(q, [h, NONE, N(real('center'), 'float')])
    ck.seen(run)
    ck.iff('a centre without a resolution is refused', B(o.rp).b, 1, q)
