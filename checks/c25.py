from .freqcd import *

E = (None, 0)


def run(ck):
    ck.rule('no path reaches an access outside a live object, an unterminated text, an overflow or an out-of-range conversion; no word written depends on the content of memory never initialised')
    for tag, opts in (('-i', (('i', 'in'),)), ('-o', (('o', 'out'),)), ('-F', (('F', 'freq'),)), ('-f', (('f', 'f'),)), ('-f -d', (('f', 'f'), ('d', None))),
                      ('all options', (('i', 'in'), ('o', 'out'), ('F', 'freq'), ('x', None), ('d', None), ('f', 'f'))), ('-f -f', (('f', 'f'), ('f', 'g'))), ('-h', (('h', None),)), ('unknown option', (('q', None),))):
        if tag != 'all options':
            ck.guard(tag, lambda a=(f'{tag}, arguments of any length', CEnv(opts, [], 'eof', lens={k: None for k in ('in', 'out', 'freq', 'f', 'g')})): clean(ck, *a))
        for n in (0, 198, 199, 200, 201):
            ck.guard(f'{tag} {n}', lambda a=(f'{tag}, arguments of {n} characters', CEnv(opts, [], 'eof', lens={k: n for k in ('in', 'out', 'freq', 'f', 'g')})): clean(ck, *a))
    for k in (0, 1, 2):
        ck.guard(f'allocation {k}', lambda k=k: clean(ck, f'allocation {k + 1} fails', CEnv((('F', 'freq'),), [Round(E)], 'eof', nomem=(k,))))
    for w in ('in', 'out', 'freq'):
        ck.guard(f'no {w}', lambda w=w: clean(ck, f'{w} cannot be opened', CEnv((('i', 'in'), ('o', 'out'), ('F', 'freq')), [Round(E)], 'eof', noopen=(w,))))
    for leg in (False, True):
        x = (('x', None),) if leg else ()
        l = ' legacy' if leg else ''
        for tag, rs in scripts():
            if leg and 'corr' in tag or leg and tag == 'odd bytes':
                continue
            ck.guard(tag + l, lambda a=(tag + l, CEnv((('f', 'f'), ('F', 'freq')) + x, rs, 'eof', numbers={'f': fsym, ('a', 'b'): lambda: fsym('g')}, legacy=leg)): clean(ck, *a, len(rs)))
        for end in ('eof', 'select'):
            ck.guard(end + l, lambda a=(f'ends by {end}{l}', CEnv((('i', 'in'), ('f', 'f')) + x, [Round(E)], end, numbers={'f': fsym}, legacy=leg)): clean(ck, *a, 1))
    for n in (98, 99, 100, 199, 300):
        ck.guard(f'{n} characters', lambda n=n: lines(ck, n))
    return {}


def scripts():
    c = ('a', 'b', 10)
    yield 'full reads', [Round(E), Round(E), Round(E)]
    yield 'odd bytes', [Round((None, 7)), Round((None, 3)), Round((0, 5)), Round((1, 1)), Round(E)]
    yield 'less than an event', [Round((0, 1)), Round((0, 7)), Round(None), Round(E)]
    yield 'nothing', [Round(None), Round(None)]
    yield 'read fails', [Round(E), Round('err')]
    yield 'read fails at once', [Round('err')]
    yield 'read fails after odd bytes', [Round((None, 4)), Round('err')]
    yield 'write fails', [Round(E, write='err')]
    yield 'short write', [Round((None, 2), write='short'), Round(E)]
    yield 'corrections', [Round(E, c), Round(None, ('a',)), Round(E, ('b', 10, 'a')), Round(None, ('b', 10))]
    yield 'corrections fail', [Round(E), Round(E, 'err')]
    yield 'corrections closed', [Round(None, 'eof'), Round(E, c), Round(E)]
    yield 'corrections first', [Round(None, c), Round(None, (10, 10)), Round(E)]
    yield 'corrections closed in a line', [Round(None, ('a',)), Round(E, 'eof'), Round(E)]


def clean(ck, tag, env, k=0):
    _, o = follow(ck, tag, env)
    nofault(ck, tag, o)
    for r, l in enumerate(outputs(o, k)):
        determined(ck, f'{tag}: words written in round {r + 1}', l, o.pc)
    ck.iff(f'{tag}: comes to an end', when(o, lambda *x: 1), 1, Q)
    for p, st, *x in ended(o):
        determined(ck, tag + ': exit status', N(st, 'int'), p)
        determined(ck, tag + ': way to the end', B(p), 1)


def isjunk(at):
    return getattr(at, 'kind', None) == 'fn' and at.args[0] == 'in:junk'


def determined(ck, name, v, pre):
    """the same for any other initial content of memory"""
    name += ', determined by the inputs'
    if not any(map(isjunk, T.walk(v))):
        return ck.add(name, 'ok', Q)
    other = lambda at: T.fn('in:junk2', *at.args[1:], isint=True) if isjunk(at) else None
    w = T.subst(v, other, {})
    if isinstance(v, ListV):
        n = VV.slen(w.s)
        ck.pointwise(name, v, n, lambda i: VV.at_pos(w.s, i), Q, pre=pre, at=lambda i: (('first', T.ZERO), ('later', i + 1)))
    elif isinstance(v, B):
        ck.iff(name, v.b, w.b, Q)
    else:
        ck.same(name, v, w, Q, pre=pre)


def lines(ck, n):
    x = tuple(f'x{i}' for i in range(n)) + (10,)
    nums = {x[i:n]: (lambda: fsym('g')) for i in range(n)}
    for cut in (0, 50, 99):
        parts = [p for p in (x[:cut], x[cut:]) if p]
        rs = [Round(E)]
        for p in parts:
            rs += [Round(None, p)] + [Round(None, ()) for _ in range(n // 99 + 1)]
        clean(ck, f'line of {n} characters' + (f' cut after {cut}' if cut else ''), CEnv((('F', 'freq'),), rs + [Round(E)], 'eof', numbers=nums), len(rs) + 1)
