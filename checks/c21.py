"""The result line under the sixteen output settings."""
from .common import *
from . import cmdline as M
from .cmdline import Q

SPEC = '''
def report(d, s, flag):
    if flag & 1:
        d, s = -d * (1 + s), 1 / (1 + s) - 1
    if flag & 8:
        d = 8 * d
    a = str(round(s * 2 ** 34)) if flag & 2 else str(s)
    if flag & 4:
        print(a)
    else:
        print(a + '\\t' + str(round(d)))
'''


def run(ck):
    ck.rule('stdout = skew [TAB delay] LF; bit 0: (-D(1+F), 1/(1+F) - 1), bit 1: round(F*2^34), bit 2: no delay, bit 3: 8*D; delay rounded')
    for src in (M.FILES, M.DIRS):
        for flag in range(16):
            ck.guard(f'flag {flag}', lambda flag=flag, src=src: one(ck, src, flag))
    ck.guard('default', lambda: one(ck, M.FILES, None))
    for bad in (16, -1):
        ck.guard(f'flag {bad}', lambda bad=bad: refused(ck, bad))
    return {}


def one(ck, src, flag):
    opts = tuple(src) + ((() if flag is None else (('-V', M.I_(flag)),)))
    run = M.start(opts, lambda: Tup((N(real('D'), 'f8'), N(real('S', Fraction(-1, 2), Fraction(1, 2)), 'f8'))))
    D, S = N(real('D'), 'f8'), N(real('S', Fraction(-1, 2), Fraction(1, 2)), 'f8')
    o = run.call(Q, [])
    ck.seen(run)
    s = run.spec(SPEC, 'report', [D, S, M.I_(flag or 0)])
    nm = f'{opts[0][0]} {opts[1][0]} ' + ('without -V' if flag is None else f'-V {flag}')
    ck.ok(o.rp == 0, f'{nm}: ends normally', Q, {'raises': o.raises[:2]}, bad='unk')
    ck.same(f'{nm}: standard output', o.stdout_text() if hasattr(o, 'stdout_text') else C.norm_out(o.stdout, False), C.norm_out(s.stdout, False), Q, cmp=Cmp(real=True))


def refused(ck, flag):
    run = M.start(tuple(M.FILES) + (('-V', M.I_(flag)),))
    o = run.call(Q, [])
    ck.iff(f'-V {flag} is refused', B(o.rp).b, 1, Q)
