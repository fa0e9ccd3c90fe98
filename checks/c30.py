from .freqcd import *

E = (None, 0)
F10 = ('a', 10)


def run(ck):
    ck.rule('for every batch size and every split of the stream into reads, the words written are the words received, each once and in order; writing ends at the first failed or short write')
    sc = [('one read', [E], ()), ('three reads', [E, E, E], ()),
          ('3 odd bytes', [(None, 3), E], ()), ('7 odd bytes, then more', [(None, 7), (1, 7), (1, 0)], ()),
          ('reads without a complete event', [(0, 3), (0, 6), E], ()), ('event in two halves', [(0, 4), E], ()),
          ('nothing but an incomplete event', [(0, 5)], ()), ('event completed alone', [E, (0, 4), (1, 0), E], ()),
          ('odd bytes shrink', [(None, 5), (0, 7), (1, 1), E], ()),
          ('event after event', [(1, 0), (1, 0), (1, 0)], ()), ('time-outs between reads', [E, None, None, E], ()), ('time-out with odd bytes kept', [(None, 2), None, E], ()),
          ]
    if ck.tier == 'thorough':
        sc += [(f'{k} odd bytes, then {j}', [(None, k), (0, j), (1, 0), E], ()) for k in range(8) for j in range(k + 1, 8)]
    for leg in (False, True):
        w = ' legacy' if leg else ''
        for tag, ds, _ in sc:
            ck.guard(tag + w, lambda a=(tag + w, [Round(d) for d in ds], leg): same(ck, *a))
        for tag, rs in (('corrections between reads', [Round(E), Round(None, F10), Round(E)]), ('corrections while waiting', [Round(None, F10), Round(E), Round(None, F10), Round(None, F10)]),
                        ('corrections with odd bytes kept', [Round((None, 6)), Round(None, F10), Round(E)]), ('correction and events together', [Round(E, F10), Round((None, 1), F10), Round(E)]),
                        ('corrections closed', [Round(E), Round(None, 'eof'), Round(E, 'eof'), Round(E)]), ('correction in two parts', [Round(E, ('a',)), Round((None, 3)), Round(None, ('b', 10)), Round(E)])):
            ck.guard(tag + w, lambda a=(tag + w, rs, leg): same(ck, *a))
    for how in ('short', 'err'):
        for tag, rs in (('first', [Round(E, write=how), Round(E), Round(E)]), ('second', [Round(E), Round((None, 3), write=how), Round(E)]), ('after a partial read', [Round((0, 3)), Round(E, F10, how), Round(None, F10), Round(E)])):
            ck.guard(f'{how} write {tag}', lambda a=(f'{"failed" if how == "err" else "short"} write: {tag}', rs): stops(ck, *a))
    return {}


def env_(rs, leg, opts=()):
    fr_ = any(r.freq is not None for r in rs)
    return CEnv(opts + ((('F', 'freq'),) if fr_ else ()) + ((('x', None),) if leg else ()), rs, 'eof', legacy=leg, numbers={('a',): zero, ('a', 'b'): zero})


def zero():
    return T.ZERO


def same(ck, tag, rs, leg):
    _, o = follow(ck, tag, env_(rs, leg))
    k = len(rs)
    compare(ck, tag, o, [T.ZERO] * k, leg)
    ck.iff(f'{tag}: ends by itself', when(o, lambda *x: 1), 1, Q)
    nofault(ck, tag, o)


def stops(ck, tag, rs):
    _, o = follow(ck, tag, env_(rs, False))
    k = [i for i, r in enumerate(rs) if r.write != 'ok'][0]
    # destinations of the writes so far: the failing one is the last
    writes = len([r for r in rs[:k + 1] if isinstance(r.data, tuple) and r.data[0] is None])
    ck.iff(f'{tag}: nothing is written after it', when(o, lambda s, e, u, w: T.eq(VV.slen(w.s), num(writes))), 1, Q)
    ck.iff(f'{tag}: reported', when(o, lambda s, e, u, w: some(e)), 1, Q)
    compare(ck, tag, o, [T.ZERO] * k)


