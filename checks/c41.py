"""Names of epochs and the times they stand for."""
from .common import *

E = 'fpfind.lib.parse_epochs.'
REF = '''
class When:
    def __init__(self, t):
        self.t = t

    def timestamp(self):
        return self.t

def when(t):
    return When(t)

def name(t):
    import math
    return f"{(math.floor(t) * 8000000000) // 4294967296:08x}"

def start(epoch):
    import datetime
    return datetime.datetime.fromtimestamp(int(epoch, 16) * 536870912 / 1000000000)
'''
NAMES = ('00000000', '00000001', '0000ffff', '40000000', 'ba1f36c0', 'ba1f36c1', 'BA1F36C1', 'ffffffff')


def run(ck):
    ck.rule('epoch of a time = floor(whole seconds * 8e9 / 2^32) as at least eight lower-case hexadecimal digits; time of an epoch = number * 2^32 * 125 ps')
    ck.assumptions += ['Python floats that are constants of the analysis are IEEE doubles, others real numbers', 'times are not before 1970 and below 2^40 s', 'the time of an epoch is compared in real arithmetic']
    q = E + 'date2epoch'
    for dt in ('int', 'float'):
        ck.guard(f'{dt} time', lambda dt=dt: named(ck, q, f'{dt} time', lambda: N(sym('t', 0, 2 ** 40) if dt == 'int' else real('t', 0, 2 ** 40), dt)))
    for k in range(1, 17) if ck.tier == 'quick' else range(1, 513):
        ck.guard(f'time {k}', lambda k=k: named(ck, q, f'{k} * 2^20 s', lambda: N(num(k << 20), 'float')))
    for k in (0, 1, 2, 1700000000, 1700000001):
        ck.guard(f'time {k}', lambda k=k: named(ck, q, f'{k} s', lambda: N(num(k), 'float')))
    for s in NAMES:
        ck.guard(f'epoch {s}', lambda s=s: dated(ck, s, K(s)))
    ck.guard('epoch', lambda: dated(ck, 'any epoch', Opq('epoch', ())))
    return {}


def named(ck, q, tag, t):
    fresh()
    T.HINT['t'] = 2 ** 31
    run = Run()
    run.I.fold = True
    t = t()
    w = run.spec(REF, 'when', [t]).ret
    o = run.call(q, [w])
    ck.seen(run)
    ck.iff(tag + ': no error', B(o.rp).b, 0, q)
    ck.same(tag + ': epoch', o.ret, run.spec(REF, 'name', [t]).ret, q, pre=T.bnot(o.rp))


def dated(ck, tag, s):
    fresh()
    run = Run()
    run.I.real = True
    q = E + 'epoch2date'
    o = run.call(q, [s])
    ck.seen(run)
    w = run.spec(REF, 'start', [s], mayraise=True)
    ck.iff(f'{tag}: refused exactly when not a number', B(o.rp).b, B(w.rp).b, q)
    if isinstance(o.ret, Opq) and 'utcfromtimestamp' in o.ret.name:
        ck.add(f'{tag}: local time, as taken by date2epoch', 'bad', q, 'utcfromtimestamp')
    ck.same(f'{tag}: time', o.ret, w.ret, q, pre=T.bnot(o.rp), cmp=Cmp(real=True))
