"""The wiring of fpfind's command line."""
from .common import *
from . import cmdline as M
from .cmdline import Q

SPEC = '''
import numpy as np
from fpfind.fpfind import fpfind, generate_precompensations
from fpfind.lib.utils import get_timestamp, get_first_overlapping_epoch
from fpfind.lib.parse_timestamps import read_a1
from fpfind.lib.utils import normalize_timestamps

EPOCH = 2 ** 29

def compute(files, ref, tgt, legacy, skip, first, skipep, k, q, R, r, s, S, enable, p0, dp, p1, ordered, full):
    n = 2 ** q
    dur = k * n * R
    if files:
        a, b = read_a1(ref, legacy=legacy)[0], read_a1(tgt, legacy=legacy)[0]
        a, b = normalize_timestamps(a, b, skip=skip)
    else:
        need = int(np.ceil((s + 1) * dur / EPOCH)) + 1
        e, m = get_first_overlapping_epoch(ref, tgt, first_epoch=first, return_length=True)
        a, b = get_timestamp(ref, 'T2', e, skipep, need), get_timestamp(tgt, 'T1', e, skipep, need)
        a, b = normalize_timestamps(a, b, skip=0)
    pre = generate_precompensations(p0, p1, dp, ordered=ordered) if enable else [0]
    d, f = fpfind(a, b, num_wraps=k, num_bins=n, resolution=R, target_resolution=r, threshold=S, separation_duration=s * dur,
                  precompensations=pre, precompensation_fullscan=full)
    print(str(f) + '\\t' + str(round(d)))
'''
NAMES = 'files ref tgt legacy skip first skipep k q R r s S enable p0 dp p1 ordered full'.split()


def defaults():
    F_ = lambda x: N(num(Fraction(x)), 'float')
    return dict(files=K(True), ref=K('REF'), tgt=K('TGT'), legacy=K(False), skip=N(T.ZERO, 'int'), first=NONE, skipep=I_(0), k=I_(1), q=I_(26), R=I_(16), r=I_(1),
                s=I_(6), S=I_(6), enable=K(False), p0=F_(0), dp=F_(Fraction(1, 10 ** 7)), p1=F_(Fraction(1, 10 ** 5)), ordered=K(False), full=K(False))


LIM = {'k': 256, 'R': 4096, 'r': 4096}


def val(o):
    """a symbolic whole number given to an option, such that the duration stays below 2^31 epochs"""
    return N(T.sym('opt_' + o, True, 1, LIM.get(NUMERIC[o][0] if o in NUMERIC else next((d for d, l, _ in NUMERIC.values() if l == o), None))), 'int')


def sval(o):
    return N(T.sym('opt_' + o, False, 0, 1000), 'num')


def fval(o):
    return N(T.sym('opt_' + o, False, 0), 'num')


NUMERIC = {'-k': ('k', '--num-wraps', val), '-R': ('R', '--initial-res', val), '-r': ('r', '--final-res', val), '-s': ('s', '--separation', sval),
           '-S': ('S', '--threshold', fval)}
PRE = {'--precomp-start': 'p0', '--precomp-step': 'dp', '--precomp-stop': 'p1'}


def cases():
    for src in ('files', 'dirs'):
        base = {} if src == 'files' else dict(files=K(False), ref=K('SEND'), tgt=K('T1'))
        opts = M.FILES if src == 'files' else M.DIRS
        yield opts, lambda base=base: base
        swap = (opts[1], opts[0])
        yield swap, lambda base=base: base
        for f, (d, long, mk) in NUMERIC.items():
            for name in (f, long):
                yield opts + ((name, mk),), lambda base=base, d=d, mk=mk, name=name: {**base, d: mk(name)}
        for q in (1, 12, 20):
            yield opts + (('-q', lambda o, q=q: I_(q)),), lambda base=base, q=q: {**base, 'q': I_(q)}
        yield opts + (('-P', None),), lambda base=base: {**base, 'enable': K(True)}
        yield opts + (('-P', None), ('--precomp-ordered', None)), lambda base=base: {**base, 'enable': K(True), 'ordered': K(True)}
        yield opts + (('-P', None), ('--precomp-fullscan', None)), lambda base=base: {**base, 'enable': K(True), 'full': K(True)}
        yield opts + (('--precomp-start', fval), ('--precomp-step', fval)), lambda base=base: base
        for name, d in PRE.items():
            yield opts + (('-P', None), (name, fval)), lambda base=base, d=d, name=name: {**base, 'enable': K(True), d: fval(name)}
        yield opts + tuple((o, fval) for o in PRE) + (('-P', None),), lambda base=base: {**base, 'enable': K(True), **{d: fval(o) for o, d in PRE.items()}}
        yield opts + tuple((o, mk) for o, (d, _, mk) in NUMERIC.items()), lambda base=base: {**base, **{d: mk(o) for o, (d, _, mk) in NUMERIC.items()}}
        for v in ('-v', '-vv'):
            yield opts + (('-v', None),) * (len(v) - 1), lambda base=base: base
        yield opts + (('--quiet', None),), lambda base=base: base
    F_, D_ = M.FILES, M.DIRS
    fb = dict(files=K(False), ref=K('SEND'), tgt=K('T1'))
    yield F_ + (('-X', None),), lambda: dict(legacy=K(True))
    yield F_ + (('-Z', fval),), lambda: dict(skip=fval('-Z'))
    yield F_ + (('-X', None), ('-Z', fval), ('-z', val)), lambda: dict(legacy=K(True), skip=fval('-Z'))
    yield (('--reference', K('REF')), ('--target', K('TGT'))), lambda: {}
    yield D_ + (('-e', K('abcdef01')),), lambda: {**fb, 'first': K('abcdef01')}
    yield D_ + (('-z', val),), lambda: {**fb, 'skipep': val('-z')}
    yield D_ + (('-e', K('abcdef01')), ('-z', val), ('-Z', fval), ('-X', None)), lambda: {**fb, 'first': K('abcdef01'), 'skipep': val('-z')}
    yield (('--sendfiles', K('SEND')), ('--t1files', K('T1'))), lambda: fb
    yield D_ + F_, lambda: fb


def concrete(opts):
    return tuple((o, v(o) if callable(v) else v) for o, v in opts)


def run(ck):
    ck.rule('each option reaches the parameter it documents; reference sources stay on the reference side; nothing is computed without both sources')
    for opts, want in cases():
        ck.guard('case', lambda opts=opts, want=want: one(ck, opts, want))
    T_, D_ = M.FILES, M.DIRS
    for bad in ((), (T_[0],), (T_[1],), (D_[0],), (D_[1],), (T_[0], D_[1]), (D_[0], T_[1]), (('-P', None),), (('-h', None),), T_ + (('-h', None),), D_ + (('--help', None),),
                T_ + (('-k', K('x')),)):
        ck.guard('refused', lambda bad=bad: refused(ck, bad))
    return {}


def one(ck, opts, want):
    run = M.start(())
    cl = concrete(opts)
    run.I.cmd = (cl, ())
    o = run.call(Q, [])
    ck.seen(run)
    p = {**defaults(), **want()}
    for x in ('skip', 's', 'S', 'p0', 'dp', 'p1'):
        p[x] = untype(p[x])
    s = run.spec(SPEC, 'compute', [p[n] for n in NAMES])
    nm = M.words(cl)
    ck.ok(o.rp == 0, f'{nm}: ends normally', Q, {'raises': o.raises[:2]}, bad='unk')
    ck.same(f'{nm}: result', C.norm_out(o.stdout, False), C.norm_out(s.stdout, False), Q, cmp=Cmp(real=True, inputs=('first_epoch',)))


def untype(v):
    return N(v.p, 'float') if isinstance(v, N) else v


def refused(ck, opts):
    run = M.start(opts)
    o = run.call(Q, [])
    ck.seen(run)
    ck.iff(f'{M.words(opts)}: refused', B(o.rp).b, 1, Q)
    ck.ok(all('Exit' in c for p, c, *_ in o.raises if p != 0), f'{M.words(opts)}: by an error exit', Q, {'raises': [c for p, c, *_ in o.raises]})
