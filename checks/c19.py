"""What the refinement search refuses, and what it falls back to."""
from .common import *
from . import search as S
from .search import FP

Q = FP + 'time_freq'


def run(ck):
    ck.rule('refused iff: first peak flat | below the threshold up to the coarsest width | early delay beyond the limit | accumulated skew at the limit')
    ck.guard('limits', lambda: limits(ck))
    n = 12
    for r0 in (160, 625, 3000):
        rs = [r0 * 2 ** k for k in range(n) if r0 * 2 ** k <= 20000]
        for k, r in enumerate(rs):
            ck.guard(f'accepted {r}', lambda r=r: refusals(ck, one(f'first peak from {r0} ns accepted at {r} ns', r0, r), S.sig_from(r)))
            ck.guard(f'flat {r}', lambda r=r: refusals(ck, one(f'first peak from {r0} ns flat at {r} ns, acceptable at {2 * r} ns', r0, 2 * r), S.sig_from(2 * r, r)))
        ck.guard('never', lambda: refusals(ck, one(f'first peak from {r0} ns never significant', r0, r0), S.sig_from(10 ** 9)))
    for cfg in S.CONFIGS:
        ck.guard(cfg[0], lambda cfg=cfg: refusals(ck, cfg, None))
    return {}


def one(nm, r0, target):
    bins = 4
    while r0 * bins <= 40000:
        bins *= 2
    return nm, 1, bins, r0, target, 6 * bins * r0, 0, 14, (10 ** 12, 10 ** 12)


def limits(ck):
    fresh()
    run = S.start()
    for n, v in (('NTP_MAXDELAY_NS', 10 ** 8), ('MAX_FCORR', S.LIMIT_DF)):
        g = run.attr('fpfind.lib.constants', n)
        ck.same(f'limit {n}', N(g.p, 'num') if isinstance(g, N) else None, N(num(v), 'num'), 'fpfind.lib.constants')


def refusals(ck, cfg, sig):
    run, o, s, lo, ls = S.both(cfg, sig)
    ck.seen(run)
    nm = cfg[0]
    pre = T.band(T.bnot(lo), T.bnot(ls))
    ck.iff(f'{nm}: refused exactly when a guard fails', B(o.rp).b, B(s.rp).b, Q, cmp=S.cmp(cfg), pre=pre)
    kinds = sorted({c for p, c, *_ in o.raises if p != 0})
    ck.ok(all(under(run, c) for c in kinds), f'{nm}: refusals are peak-finding failures', Q, {'raised': kinds})
    if item(s.ret, 2) is not None and not sig:
        f = s.ret.items[2]
        f = f.b if isinstance(f, B) else T.bnot(T.eq0(f.p)) if isinstance(f, N) else 0
        if f != 0:
            p2 = T.band(pre, f, T.bnot(s.rp))
            ck.iff(f'{nm}: a spurious reading is no failure', B(T.band(p2, o.rp)).b, 0, Q, cmp=S.cmp(cfg))
            for i, w in enumerate(('offset', 'skew')):
                ck.same(f'{nm}: after a spurious reading the last accepted {w}', item(o.ret, i), item(s.ret, i), Q, pre=T.band(p2, T.bnot(o.rp)), cmp=S.cmp(cfg))


def under(run, c):
    return 'PeakFindingFailed' in run.I.exc_anc(c)
