from .freqcd import *

E = (None, 0)
M54 = num(1 << 54)


def run(ck):
    ck.rule('for arbitrary events, batch sizes and skews: the bits below the timestamp of every output word are those of the event at the same place of the input, the rest is its timestamp plus the correction modulo 2^54')
    for leg in (False, True):
        x = (('x', None),) if leg else ()
        w = ' legacy' if leg else ''
        for tag, ds in (('two reads', [E, E]), ('odd bytes between reads', [(None, 4), (0, 6), (1, 0), E])):
            ck.guard(tag + w, lambda a=(tag + w, ds, x, leg): detail(ck, *a))
        ck.guard('no skew' + w, lambda a=('no skew' + w, [E, E], x, leg): plain(ck, *a))
        ck.guard('skew received' + w, lambda a=('skew received' + w, [E, E], x, leg): received(ck, *a))
    if ck.tier == 'thorough':
        for tag, ds in (('four reads', [E, E, E, E]), *((f'{k} odd bytes', [(None, k), (1, (k + 3) % 8), (None, 0), E]) for k in (1, 3, 7))):
            for leg in (False, True):
                w = ' legacy' if leg else ''
                ck.guard(tag + w, lambda a=(tag + w, ds, (('x', None),) if leg else (), leg): detail(ck, *a))
    return {}


def env_(ds, opts, leg, **k):
    return CEnv(opts, [d if isinstance(d, Round) else Round(d) for d in ds], 'eof', legacy=leg, **k)


def unswap(leg):
    return CM.swap if leg else lambda p: p


def low(seq, leg):
    g = unswap(leg)
    s = smap_elem(seq.s, lambda v: N(T.mod(g(v.p), num(1024)), 'int'))
    return ListV(s) if s is not None else None


def details(ck, tag, o, k, leg, fs):
    pos = T.ZERO
    g = unswap(leg)
    for r, (got, n) in enumerate(zip(outputs(o, k), delivered(o, k))):
        ck.pointwise(f'{tag}: detector bits of read {r + 1}', low(got, leg), n, lambda i, p=pos: N(CM.rest_of(p + i), 'int'), Q, pre=o.pc,
                     at=lambda i: (('first event', T.ZERO), ('later event', i + 1)))
        pos = pos + n
    compare(ck, f'{tag}: word', o, fs, leg)



def detail(ck, tag, ds, x, leg):
    _, o = follow(ck, tag, env_(ds, (('f', 'f'),) + x, leg, numbers={'f': fsym}))
    details(ck, tag, o, len(ds), leg, [fsym()] * len(ds))


def received(ck, tag, ds, x, leg):
    _, o = follow(ck, tag, env_([Round(E), Round(None, ('a', 10)), Round(E)], (('F', 'freq'),) + x, leg, numbers={('a',): fsym}))
    details(ck, tag, o, 3, leg, [T.ZERO, T.ZERO, fsym()])


def plain(ck, tag, ds, x, leg):
    _, o = follow(ck, tag, env_(ds, x, leg))
    compare(ck, tag, o, [T.ZERO] * len(ds), leg)
