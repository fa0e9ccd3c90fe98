"""T4 epoch files."""
from .common import *
from .c09 import ENDLESS
from .bits import SUMMARIES
from . import c12

SPEC = c12.SPEC.replace('f.read(24)', 'f.read(20)').replace('t = (epoch % 2**17) * 2**32', 't = 0').replace('t = t + d', 't = t + d - 2')
assert 'read(20)' in SPEC and 't = 0' in SPEC and 'd - 2' in SPEC


def source(val, k):
    return c12.source(val, k, 20, 0x104)


def run(ck):
    ck.rule('decoded index and base sequences equal the record-by-record definition for any number of entries')
    ck.assumptions.append('the file is complete (truncation is C14)')
    ck.guard('read_T4', lambda: one(ck))
    return {}


def one(ck):
    fresh()
    run = Run(files=ENDLESS, summaries=SUMMARIES)
    q = PE + 'read_T4'
    o = run.call(q, [F()])
    length = file_int(F(), num(8), 4)
    W, Bb = (N(file_int(F(), num(a), 4), 'int') for a in (12, 16))
    w = run.spec(SPEC, 'events', [F(), I_(0), W, Bb], mayraise=True)
    ck.seen(run)
    ts, ps = item(w.ret, 0).s, item(w.ret, 1).s
    cmp = lambda: Cmp(setup=source)
    agree = T.bor(T.eq0(length), T.eq(length, slen(ts)))
    ck.iff('errors are exactly a non-zero terminator or a contradicting count', B(o.rp).b,
           B(T.bor(w.rp, T.band(T.bnot(w.rp), T.bnot(agree)))).b, q, cmp=cmp())
    pre = T.bnot(o.rp)
    ck.same('indices', item(o.ret, 0), item(w.ret, 0), q, cmp=cmp(), pre=pre)
    ck.same('base bits', item(o.ret, 1), item(w.ret, 1), q, cmp=cmp(), pre=pre)
