from .freqcd import *

E = (None, 0)


def run(ck):
    ck.rule('value graph of every output timestamp, for arbitrary events and batch sizes over several reads, equals the documented fixed-point recurrence modulo 2^54')
    for leg in (False, True):
        x = (('x', None),) if leg else ()
        w = ' legacy' if leg else ''
        for k in (1, 2, 3) + ((4,) if ck.tier == 'thorough' else ()):
            ck.guard(f'{k} reads{w}', lambda a=(leg, x, [E] * k, f'{k} reads{w}'): one(ck, *a))
        ck.guard(f'reads without a complete event{w}', lambda a=(leg, x, [(0, 3), (None, 0), (0, 2), (0, 5), (None, 0)], f'reads without a complete event{w}'): one(ck, *a))
        ck.guard(f'incomplete event between reads{w}', lambda a=(leg, x, [(None, 4), (0, 6), (1, 0)], f'incomplete event between reads{w}'): one(ck, *a))
        for k in range(1, 7) if ck.tier == 'thorough' else ():
            ck.guard(f'{k} odd bytes{w}', lambda a=(leg, x, [(None, k), (0, 7), (1, 0), E], f'{k} odd bytes{w}'): one(ck, *a))
        ck.guard(f'changing skew{w}', lambda a=(leg, x): changing(ck, *a))
    return {}


def stamps(seq, legacy):
    return ListV(smap_elem(seq.s, lambda v: N(T.floor((CM.swap(v.p) if legacy else v.p) * Fraction(1, 1024)), 'int')))


def one(ck, leg, x, rounds, tag):
    run_, o = follow(ck, tag, CEnv((('f', 'f'),) + x, [Round(r) for r in rounds], 'eof', legacy=leg, numbers={'f': fsym}))
    stamped(ck, tag, o, [fsym()] * len(rounds), leg)


def stamped(ck, tag, o, fs, leg):
    k = len(fs)
    for r, (got, (n, want)) in enumerate(zip(outputs(o, k), expected(list(zip(delivered(o, k), fs)), leg))):
        u = lambda v: N(T.floor((CM.swap(v.p) if leg else v.p) * Fraction(1, 1024)), 'int')
        s = smap_elem(got.s, u)
        ck.pointwise(f'{tag}: timestamps of read {r + 1}', ListV(s) if s is not None else None, n, lambda i: u(want(i)), Q, pre=o.pc,
                     at=lambda i: (('first event', T.ZERO), ('later event', i + 1)))


def changing(ck, leg, x):
    """a new skew applies from the first read of events after its arrival on, to the time since the last event before"""
    tag = 'changing skew' + (' legacy' if leg else '')
    g = lambda: fsym('g')
    h = lambda: fsym('h')
    _, o = follow(ck, tag, CEnv((('f', 'f'), ('F', 'freq')) + x, [Round(E), Round(None, ('a', 'b', 10)), Round(E), Round(None, ('c', 10)), Round(E)], 'eof', legacy=leg,
                                numbers={'f': fsym, ('a', 'b'): g, ('c',): h}))
    stamped(ck, tag, o, [fsym(), fsym(), g(), g(), h()], leg)
