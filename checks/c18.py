"""Composition of the measured steps."""
from .common import *
from . import search as S
from .search import FP

Q = FP + 'time_freq'


def run(ck):
    ck.rule('with readings (a_k, b_k): x_{k+1} = (x_k - a_k)/(1 + b_k); returned D = sum a_k*prod(1+b_j, j<k), 1 + F = prod(1 + b_k)')
    for cfg in S.CONFIGS:
        ck.guard(cfg[0], lambda cfg=cfg: steps(ck, cfg))
    return {}


def steps(ck, cfg):
    run, o, s, lo, ls = S.both(cfg)
    ck.seen(run)
    nm = cfg[0]
    ck.iff(f'{nm}: the refinement ends', B(lo).b, B(ls).b, Q)
    pre = T.band(T.bnot(o.rp), T.bnot(s.rp), T.bnot(lo), T.bnot(ls))
    for i, w in enumerate(('offset', 'skew')):
        ck.same(f'{nm}: {w}', item(o.ret, i), item(s.ret, i), Q, pre=pre, cmp=S.cmp(cfg))
