"""Normalisation and slicing of timestamp series."""
from .common import *

U = 'fpfind.lib.utils.'
SPEC = '''
import numpy as np
def window(ts, start, duration):
    return np.array([t - start for t in ts if t - start >= 0 and t - start < duration])
def after(ts, start):
    return np.array([t - start for t in ts if t - start >= 0])
def zeroed(ts):
    return np.array([t - ts[0] for t in ts])
def zeroed_to(ts, duration):
    return np.array([t - ts[0] for t in ts if t - ts[0] < duration])
def norm(series, skip):
    start = max([ts[0] for ts in series]) + skip * 10**9
    return [after(ts, start) for ts in series]
def norm_each(series, skip):
    start = 0 + skip * 10**9
    return [after(zeroed(ts), start) for ts in series]
'''


def series(name, n, dt='f16'):
    return in_array(name, n, dt, isint=False, lo=0)


def run(ck):
    ck.rule('result = [t - start for t in ts if 0 <= t - start < duration], with one start for all series of a normalisation')
    ck.assumptions.append('non-negative timestamps; real arithmetic (extended precision subtraction of nearby values is exact)')
    for dt in ('f16', 'f8'):
        ck.guard('slice ' + dt, lambda dt=dt: slices(ck, dt))
        for k in (1, 2, 3):
            ck.guard(f'normalize {k} {dt}', lambda k=k, dt=dt: norms(ck, k, dt))
    return {}


def slices(ck, dt):
    q = U + 'slice_timestamps'
    for st_, du in ((1, 1), (1, 0), (0, 1), (0, 0)):
        for pos in ((0, 1) if st_ else (0,)):
            fresh()
            run = Run()
            n = count('n', 0, 6)
            ts = run.alloc(series('t', n, dt))
            start = N(real('start', 0) if pos else T.ZERO, 'float' if pos else 'int')
            dur = N(real('dur', 0), 'float')
            kw = {}
            if st_:
                kw['start'] = start
            if du:
                kw['duration'] = dur
            o = run.call(q, [ts], kw)
            ck.seen(run)
            f = 'window' if st_ and du else 'after' if st_ else 'zeroed_to' if du else 'zeroed'
            s = run.spec(SPEC, f, [ts] + ([start] if st_ else []) + ([dur] if du else []), mayraise=True)
            nm = f'{dt}: slice{" from " + ("start" if pos else "0") if st_ else ""}{" for a duration" if du else ""}'
            ck.same(nm, o.ret, s.ret, q, pre=B(T.bnot(o.rp)).b)
            ck.iff(nm + ': an empty window is no failure', B(o.rp).b, 0, q)


def norms(ck, k, dt):
    q = U + 'normalize_timestamps'
    for rel in (1, 0):
        fresh()
        run = Run()
        arrs = [run.alloc(series(f't{i}', T.sym(f'n{i}', True, 1), dt)) for i in range(k)]
        for i in range(k):
            T.HINT[f'n{i}'] = 5
        skip = N(real('skip', 0), 'float')
        o = run.call(q, arrs, {'skip': skip, 'preserve_relative': B(rel)})
        ck.seen(run)
        s = run.spec(SPEC, 'norm' if rel else 'norm_each', [Tup(tuple(arrs)), skip])
        nm = f'{dt}: {k} series, {"common start" if rel else "individual starts"}'
        g, w = items_of(run, o.ret), items_of(run, s.ret)
        ck.ok(g is not None and len(g) == k, nm + ': one result per series', q, bad='unk')
        if g and len(g) == k:
            for i in range(k):
                ck.same(f'{nm}: series {i}', g[i], w[i], q)
        ck.iff(nm + ': never fails', B(o.rp).b, 0, q)


def items_of(run, v):
    if isinstance(v, Tup):
        return v.items
    s = getattr(v, 's', None)
    return s.items if isinstance(s, Lit) else None
