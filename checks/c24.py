"""Delay read off a circular correlation."""
from .common import *

U = 'fpfind.lib.utils.'
SPEC = '''
import numpy as np
def near(p, n, r):
    if p == 0:
        return 0, 0
    if 2 * p < n:
        return p * r, (p - n) * r
    return (p - n) * r, p * r
def rotated(hist, n):
    h = n // 2
    return np.array([hist[(i + h) % n] for i in range(n)])
def axis(n, r):
    h = n // 2
    return np.array([(i - h) * r for i in range(n)])
'''


def bins(n, r, h=1):
    return ArrV(smap(n, 1, h, N(idx(h) * r, 'f8')), 'f8', None)


def size(n, lo=1, hint=9):
    T.HINT[n] = hint
    return T.sym(n, True, lo, 2 ** 40)


def hist(n, dt='f8'):
    return in_array('h', n, dt, isint=dt != 'f8', lo=0)


def elt(a, i):
    return VV.sget(a.s, i)


def run(ck):
    ck.rule('bin p of n maps to the aliases p*r and (p-n)*r, smaller magnitude first (either order in a tie); re-centring rotates by n//2')
    ck.guard('index', lambda: at_index(ck))
    ck.guard('argmax', lambda: at_peak(ck))
    ck.guard('centre', lambda: centre(ck))
    ck.guard('top', lambda: top(ck))
    return {}


def pair(ck, nm, got, want, q, p, n, extra=1):
    """equal outside ties, the same two values in a tie"""
    cases = (('bin 0', T.eq0(p)), ('first half', T.band(T.lt(0, p), T.lt(2 * p, n))),
             ('second half', T.band(T.lt(n, 2 * p), T.lt(p, n))))
    for cn, c in cases:
        for i, what in ((0, 'smaller alias'), (1, 'larger alias')):
            ck.same(f'{nm} in {cn}: {what}', item(got, i), item(want, i), q, pre=T.band(extra, c), cmp=Cmp(real=True))
    tie = T.band(T.eq(2 * p, n), T.lt(0, p))
    a, b = item(got, 0), item(got, 1)
    if isinstance(a, N) and isinstance(b, N):
        ck.same(f'{nm} half-way: both aliases', N(a.p + b.p, 'f8'), N(item(want, 0).p + item(want, 1).p, 'f8'), q, pre=T.band(extra, tie), cmp=Cmp(real=True))
    else:
        ck.add(f'{nm}: both aliases', 'unk', q, 'no pair')


def at_index(ck):
    q = U + 'get_delay_at_index_fft'
    fresh()
    run = Run()
    n, r = size('n'), real('r', 0)
    p = T.sym('p', True, 0)
    T.HINT['p'] = 9
    inr = T.lt(p, n)
    o = run.call(q, [run.alloc(bins(n, r)), N(p, 'int')])
    ck.seen(run)
    s = run.spec(SPEC, 'near', [N(p, 'int'), N(n, 'int'), N(r, 'f8')])
    pair(ck, 'bin p', o.ret, s.ret, q, p, n, inr)
    ck.iff('every bin has a delay', B(T.band(inr, o.rp)).b, 0, q)
    ck.iff('bin outside the histogram is refused', B(T.band(T.bnot(inr), o.rp)).b, B(T.bnot(inr)).b, q)


def at_peak(ck):
    q = U + 'get_timing_delay_fft'
    for dt in ('f8', 'i8'):
        fresh()
        run = Run()
        n, r = size('n'), real('r', 0)
        h = run.alloc(hist(n, dt))
        o = run.call(q, [h, run.alloc(bins(n, r))])
        ck.seen(run)
        m = run.spec('import numpy as np\ndef f(h):\n    return np.argmax(h)\n', 'f', [h]).ret
        s = run.spec(SPEC, 'near', [m, N(n, 'int'), N(r, 'f8')])
        pair(ck, f'peak of a {dt} histogram', o.ret, s.ret, q, m.p, n)
        ck.iff(f'{dt}: every non-empty histogram has a delay', B(o.rp).b, 0, q)


def centre(ck):
    q = U + 'convert_histogram_fft'
    for even in (1, 0):
        fresh()
        run = Run()
        m, r = size('m', 1, 5), real('r', 0)
        n = 2 * m + (0 if even else 1)
        h, b = run.alloc(hist(n)), run.alloc(bins(n, r))
        o = run.call(q, [h, b])
        ck.seen(run)
        nm = 'even length' if even else 'odd length'
        half = (lambda i: T.lt(i, n - m), lambda i: T.bnot(T.lt(i, n - m)))
        ck.pointwise(f'{nm}: rotated histogram', item(o.ret, 0), n, lambda i: VV.vite(T.lt(i, n - m), elt(hist(n), i + m), elt(hist(n), i + m - n)), q, half, Cmp(real=True))
        if even:
            ck.pointwise(f'{nm}: centred axis', item(o.ret, 1), n, lambda i: N((i - m) * r, 'f8'), q, half, Cmp(real=True))
        ck.iff(f'{nm}: never fails', B(o.rp).b, 0, q)


def top(ck):
    q = U + 'get_top_k_delays_fft'
    for k in (1, 2, 3):
        fresh()
        run = Run()
        n, r = size('n', 4, 8), real('r', 0)
        h, b = run.alloc(hist(n)), run.alloc(bins(n, r))
        o = run.call(q, [h, b, I_(k)])
        ck.seen(run)
        out = o.ret
        ck.same(f'{k} largest bins: how many', N(VV.slen(out.s), 'int') if isinstance(out, ListV) else None, I_(k), q)
        m = None
        for j in range(k):
            got = VV.sget(out.s, num(j)) if isinstance(out, ListV) else None
            m = run.spec('import numpy as np\ndef f(h):\n    return np.argmax(h)\n' if k == 1 else
                         f'import numpy as np\ndef f(h):\n    return np.argsort(h)[len(h) - 1 - {j}]\n', 'f', [h], mayraise=True).ret
            ck.same(f'{k} largest bins: count of number {j + 1}', item(got, 0), elt(hist(n), m.p), q)
            s = run.spec(SPEC, 'near', [m, N(n, 'int'), N(r, 'f8')])
            pair(ck, f'{k} largest bins: delay of number {j + 1}', Tup(got.items[1:]) if isinstance(got, Tup) else None, s.ret, q, m.p, n)
        ck.iff(f'{k} largest bins: never fails', B(o.rp).b, 0, q)
