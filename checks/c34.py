"""Unit table, epoch length, event layout and correction limits: one value throughout the programs."""
from .common import *
from . import cmdline as M
from . import c01, c03, c09, c10, c12, c13, c21, c22, c26, c28, c35, freqcd as FQ
from .freqcd import Round, CEnv, fsym

CO = 'fpfind.lib.constants'
UNITS = {'NS1': 1, 'PS125': 8, 'PS4': 256}      # per nanosecond


def run(ck):
    ck.rule('every place that encodes a shared constant - units, epoch length, event layout, resolution and limit of the correction - encodes the same value')
    ck.guard('table', lambda: table(ck))
    ck.guard('dates', lambda: dates(ck))
    # units and event layout: readers, writers, generator, corrector
    for res in UNITS.items():
        for fmt in ('a0', 'a1', 'a2'):
            for stream in (False, True):
                nm = 'event layout, ' + ('s' if stream else '')
                ck.guard(nm + f'read_{fmt}', lambda a=(fmt, False, stream, res): c01.readers(ck, a[0], a[1], a[2], a[3], False))
                ck.guard(nm + f'write_{fmt}', lambda a=(fmt, False, stream, res): c03.writer(ck, *a, True))
    ck.guard('event layout, generator', lambda: c35.event(ck))
    E = (None, 0)
    for leg in (False, True):
        x = (('x', None),) if leg else ()
        ck.guard('event layout, corrector', lambda: corrected(ck, 'event layout and resolution of the correction' + (', legacy' if leg else ''), x, leg, [Round(E), Round(E)]))
    # epochs
    for res in UNITS.items():
        for frac in (False, True):
            ck.guard('epoch length, T1', lambda: c09.one(ck, res, frac, True))
            ck.guard('epoch length, T2', lambda: c12.one(ck, res, frac, True))
    ck.guard('epoch length, write_T1', lambda: c10.one(ck, 'u8', 'array'))
    ck.guard('epoch length, T4', lambda: c13.one(ck))
    for opts, want in c22.cases():
        if opts[:2] == M.DIRS and len(opts) <= 3:
            ck.guard('epochs needed', lambda a=(opts, want): c22.one(ck, *a))
    # the correction: the finder reports in the unit the corrector counts in, and never beyond its limit
    for flag in (2, 3, 6):
        ck.guard(f'finder, -V {flag}', lambda f=flag: c21.one(ck, M.FILES, f))
    for tag, opts, dec in (('corrector, -f', (('f', 'f'),), False), ('corrector, -f -d', (('f', 'f'), ('d', None)), True)):
        ck.guard(tag, lambda a=(tag, opts, dec): c28.argument(ck, *a, 3))
        ck.guard(tag, lambda a=(tag, opts, dec): c28.effect(ck, *a))
    for tag, d in (('corrector, received', None), ('corrector, received, -d', 'd')):
        c28.received(ck, tag, d)
    return {}


def corrected(ck, tag, x, leg, rs):
    _, o = FQ.follow(ck, tag, CEnv((('f', 'f'),) + x, rs, 'eof', legacy=leg, numbers={'f': fsym}))
    FQ.compare(ck, tag, o, [fsym()] * len(rs), leg)


def table(ck):
    fresh()
    run = Run()
    run.load('fpfind')
    for n, k in UNITS.items():
        for mod in (CO, 'fpfind'):
            c = run.attr(mod, 'TSRES')
            v = pylib_member(run, c, n)
            ck.same(f'{mod}.TSRES.{n}: units per nanosecond', N(v.p, 'num') if isinstance(v, N) else v, N(num(k), 'num'), mod)
    E, m = run.attr(CO, 'EPOCH_LENGTH'), run.attr(CO, 'MAX_FCORR')
    ck.same('EPOCH_LENGTH: 2^32 times 125 ps', N(E.p, 'num') if isinstance(E, N) else E, N(num(Fraction(1 << 32, UNITS['PS125'])), 'num'), CO)
    ck.same('MAX_FCORR: the corrector accepts up to 2^21 units of 2^-34', N(m.p, 'num') if isinstance(m, N) else m, N(num(Fraction(c28.MAX.const(), 1 << 34)), 'num'), CO)


def pylib_member(run, c, n):
    from sa import pylib
    v = pylib.class_member(run.I, c.uid, n)
    if v is None:
        raise Missing(f'TSRES.{n} not found')
    return v


DATES = '''
import datetime as dt
from fpfind.lib.constants import EPOCH_LENGTH

def epoch(d):
    return f"{int(int(d.timestamp()) / (125 * 1e-12)) // 2 ** 32:08x}"

def date(e):
    return dt.datetime.fromtimestamp(int(e, 16) * EPOCH_LENGTH * 1e-9)
'''


def dates(ck):
    fresh()
    run = Run(assume=T.bnot(T.bpred('isnone', Opq('in:datetime', ()))))
    run.I.real = True
    q = 'fpfind.lib.parse_epochs.'
    for f, s, a in (('date2epoch', 'epoch', Opq('in:datetime', ())), ('epoch2date', 'date', Opq('argstr', (K('e'),)))):
        o = run.call(q + f, [a])
        ck.seen(run)
        w = run.spec(DATES, s, [a])
        ck.same(f'{f}: epochs of {1 << 29} ns', o.ret, w.ret, q + f, cmp=Cmp(real=True))
