"""fpfind's main with the sources, the normalisation, the list of precompensations and the search replaced by arbitrary
functions of what they are given."""
from .common import *
from .search import untag, FP

U = 'fpfind.lib.utils.'
Q = FP + 'main'


def opq(name, a):
    return Opq(name, tuple(a))


def series(I, st, nm, key, n='nev'):
    """an unknown array of at least one event, a function of the key"""
    H = 1 + max([1] + [VV.height(x) for x in key])
    ln = T.fn('call:n_' + nm, *key, isint=True, lo=1, hi=None)
    return I.alloc(st, ArrV(smap(ln, 1, H, N(T.fn('call:' + nm, *key, idx(H), lo=0), 'f16')), 'f16', None))


def named(fn_args):
    return fn_args


def key(I, b, st):
    return [untag(I.freeze(v, st)) for v in b.values()]


def summaries(result=None):
    def source(nm):
        def f(I, b, st, ctx, node):
            return series(I, st, nm, key(I, b, st))
        return f

    def reader(I, b, st, ctx, node):
        k = key(I, b, st)
        return Tup((series(I, st, 'events', k), series(I, st, 'detectors', k)))

    def normal(I, b, st, ctx, node):
        # each result is its own array against the whole set of them: swapping arguments and results together changes nothing
        a = dict(b)
        ts = I.freeze(a.pop('T'), st)
        k = [untag(I.freeze(v, st)) for v in a.values()]
        if not isinstance(ts, Tup):
            raise Unsupported('normalize_timestamps of an unknown number of arrays')
        t = [untag(x) for x in ts.items]
        every = sorted(t, key=hash)
        return Tup(tuple(series(I, st, 'norm', [x, *every, *k]) for x in t))

    def first(I, b, st, ctx, node):
        a = dict(b)
        rl = I.freeze(a.pop('return_length', B(0)), st)
        k = [untag(I.freeze(v, st)) for v in a.values()]
        k[:2] = sorted(k[:2], key=hash)       # the epochs both directories have
        e = Opq('first_epoch', tuple(k))
        n = N(T.fn('call:n_epochs', *k, isint=True, lo=0, hi=None), 'int')
        c = rl.b if isinstance(rl, B) else 1 if rl == K(True) else 0
        return Tup((e, n)) if c == 1 else e if c == 0 else Unk('return_length')

    def pres(I, b, st, ctx, node):
        return series(I, st, 'precompensation', key(I, b, st))

    def search(I, b, st, ctx, node):
        k = key(I, b, st)
        if result is not None:
            return result()
        return Tup((N(T.fn('call:offset', *k), 'f8'), N(T.fn('call:skew', *k), 'f8')))
    return {'fpfind.lib.parse_epochs.get_first_overlapping_epoch': first, U + 'get_first_overlapping_epoch': first,
            U + 'get_timestamp': source('epochs'), U + 'normalize_timestamps': normal,
            'fpfind.lib.parse_timestamps.read_a1': reader, FP + 'generate_precompensations': pres, FP + 'fpfind': search}


def start(opts, result=None):
    fresh()
    run = Run()
    run.I.summaries = summaries(result)
    run.I.real = True
    run.load('fpfind.fpfind')
    run.I.cmd = (tuple(opts), ())
    return run


def words(opts):
    return ' '.join(f if v is None else f + ' ' + (str(v.o) if isinstance(v, K) else 'V') for f, v in opts) or '(no options)'


FILES = (('-t', K('REF')), ('-T', K('TGT')))
DIRS = (('-d', K('SEND')), ('-D', K('T1')))


def live(o):
    """outcomes that do not end in an exit"""
    return o.pc
