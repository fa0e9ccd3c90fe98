from .freqcd import *

E = (None, 0)
BITS = Fraction(1 << 34, 10 ** 10)      # one unit of -d in units of 2^-34
MAX = num(1 << 21)


def run(ck):
    ck.rule('value graph of the skew in force, for an arbitrary text of any length given as argument or received: taken iff the whole text is a decimal integer in range')
    T.HINT['strlen'] = 6
    for n in (20, None):
        w = '' if n else ', text of any length'
        for tag, opts, dec in (('-f', (('f', 'f'),), False), ('-x -f', (('x', None), ('f', 'f')), False), ('-f -d', (('f', 'f'), ('d', None)), True), ('-d -f', (('d', None), ('f', 'f')), True)):
            ck.guard(tag + w, lambda a=(tag + w, opts, dec, n): argument(ck, *a))
            if n:
                ck.guard(tag + ' in force', lambda a=(tag, opts, dec): effect(ck, *a))
    ck.guard('empty -f', lambda: empty(ck))
    ck.guard('last -f', lambda: twice(ck))
    for leg in (False, True):
        ck.guard(f'no -f {leg}', lambda l=leg: none(ck, l))
    for tag, d in (('received', None), ('received, -d', 'd')):
        received(ck, tag, d)
    ck.guard('empty line', lambda: blank(ck))
    return {}


def valid(v, e, n):
    """the text is a decimal integer to its end"""
    return T.band(T.lt(T.ZERO, e), T.eq(e, n))


def small(p):
    return T.band(T.lt(-MAX, p), T.lt(p, MAX))


def of_arg(name, n):
    t = Opq('arg', (K(name),))
    ln = num(n) if n is not None else T.fn('in:strlen', t, isint=True, lo=0, hi=1 << 20)
    return farg(name), T.fn('in:strtol_end', t, num(10), isint=True, lo=0, hi=n), ln


def trunc(p):
    return T.ite(T.le(T.ZERO, p), T.floor(p), -T.floor(-p))


def argument(ck, tag, opts, dec, n):
    # which texts get past the options
    _, o = follow(ck, tag, CEnv(opts, [], 'eof', lens={'f': n}, legacy='x' in dict(opts)))
    v, e, ln = of_arg('f', n)
    ok = T.band(valid(v, e, ln), small(v * BITS if dec else v))
    ck.iff(f'{tag}: accepted exactly when a decimal integer in range', T.bnot(when(o, rejected)), ok, Q)
    ck.iff(f'{tag}: an unacceptable value is an error', when(o, lambda s, er, u, w: T.band(T.bnot(T.eq0(s)), some(er), T.bnot(some(u)), T.bnot(some(w)))), T.bnot(ok), Q)
    nofault(ck, tag, o)


def effect(ck, tag, opts, dec):
    # what a number in range does
    leg = 'x' in dict(opts)
    d = lambda: T.sym('f', True, -1220703, 1220703)
    _, o = follow(ck, tag, CEnv(opts, [Round(E), Round(E)], 'eof', legacy=leg, numbers={'f': d if dec else fsym}))
    compare(ck, f'{tag}: in force', o, [trunc(d() * BITS) if dec else fsym()] * 2, leg)
    nofault(ck, f'{tag}: in force', o)


def rejected(s, err, out, w):
    return T.bnot(T.eq0(s))


def empty(ck):
    _, o = follow(ck, 'empty -f', CEnv((('f', 'f'),), [Round(E)], 'eof', lens={'f': 0}))
    ck.iff('empty -f: is an error', when(o, lambda s, er, u, w: T.band(T.bnot(T.eq0(s)), some(er))), 1, Q)


def twice(ck):
    _, o = follow(ck, 'last -f', CEnv((('f', 'f'), ('f', 'g')), [Round(E), Round(E)], 'eof', numbers={'f': fsym, 'g': lambda: fsym('g')}))
    compare(ck, 'last -f: it counts', o, [fsym('g')] * 2)


def none(ck, leg):
    tag = 'no -f' + (' legacy' if leg else '')
    _, o = follow(ck, tag, CEnv((('x', None),) if leg else (), [Round(E), Round(E)], 'eof', legacy=leg))
    compare(ck, tag, o, [T.ZERO] * 2, leg)


BIG = (('too large', 1 << 21, (1 << 63) - 1), ('too small', -(1 << 63), -(1 << 21)), ('in range', 1 - (1 << 21), (1 << 21) - 1))


def received(ck, tag, d):
    """a received line counts in units of 2^-34 also in decimal mode; every other line leaves the skew as it was"""
    opts = (('F', 'freq'), ('f', 'f')) + ((('d', None),) if d else ())
    h = lambda: T.sym('h', True, -1000000, 1000000)
    old = lambda: trunc(h() * BITS) if d else h()
    for what, lo, hi in BIG:
        g = lambda: T.sym('g', True, lo, hi)
        for whole in (True, False):
            t = f'{tag} {"number" if whole else "other text, leading number"} {what}'
            ck.guard(t, lambda: line(ck, t, opts, h, g if whole else (lambda: (g(),)), lambda: [old(), old(), g() if whole and what == 'in range' else old()]))


def line(ck, t, opts, h, g, fs):
    _, o = follow(ck, t, CEnv(opts, [Round(E), Round(None, ('a', 'b', 10)), Round(E)], 'eof', numbers={'f': h, ('a', 'b'): g}))
    compare(ck, t, o, fs())
    ck.iff(f'{t}: never ends the program', when(o, lambda s, *x: T.bnot(T.eq0(s))), 0, Q)
    nofault(ck, t, o)


def blank(ck):
    _, o = follow(ck, 'empty line', CEnv((('F', 'freq'), ('f', 'f')), [Round(E), Round(None, (10, 10)), Round(E)], 'eof', numbers={'f': fsym}))
    compare(ck, 'empty line: no change', o, [fsym()] * 3)
