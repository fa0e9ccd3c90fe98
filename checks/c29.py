from .freqcd import *

E = (None, 0)
ONE = (1, 0)


def run(ck):
    ck.rule('the skew in force in every batch of events, for arbitrary values received and every split of the lines into reads, is that of the last complete line')
    line = ('a', 'b', 10, 'c', 10)
    for cut in range(16):
        parts, p = [], ()
        for i, x in enumerate(line):
            p += (x,)
            if i == 4 or cut >> i & 1:
                parts.append(p)
                p = ()
        ck.guard(f'split {cut}', lambda a=('lines received as ' + '|'.join(''.join('/' if y == 10 else y for y in q) for q in parts), parts): split(ck, *a))
    if ck.tier == 'thorough':
        line = (10, 'a', 'b', 10, 'c')
        for cut in range(16):
            parts, p = [], ()
            for i, x in enumerate(line):
                p += (x,)
                if i == 4 or cut >> i & 1:
                    parts.append(p)
                    p = ()
            ck.guard(f'split {cut} after a newline', lambda a=('received as ' + '|'.join(''.join('/' if y == 10 else y for y in q) for q in parts), parts): split(ck, *a))
    ck.guard('with events', lambda: along(ck))
    ck.guard('three lines', lambda: three(ck))
    ck.guard('blank lines', lambda: split(ck, 'blank lines between', [(10, 'a', 'b', 10, 10), (10,), ('c',), (10, 10)]))
    ck.guard('closed', lambda: closed(ck))
    for n in (90, 98):
        ck.guard(f'{n} characters', lambda n=n: fits(ck, n))
        ck.guard(f'{n} characters split', lambda n=n: fits(ck, n, 40))
    for n in (97, 98, 99, 100, 101, 197, 198, 199, 250):
        for cuts in ((), (60,), (98,), (99,)) if n > 99 else ((), (n,)):
            ck.guard(f'{n} characters, cut {cuts}', lambda a=(n, cuts): long_(ck, *a))
    return {}


def skews(parts, vals):
    """[skew after each part]"""
    now, out, buf = T.ZERO, [], ()
    for p in parts:
        for x in p:
            if x == 10:
                now = vals.get(buf, lambda v=now: v)()
                buf = ()
            else:
                buf += (x,)
        out.append(now)
    return out


def watch(ck, tag, parts, vals, leg=False, pre=(), numbers=None):
    rs, fs = [Round(E)], [T.ZERO]
    for i, p in enumerate(parts):
        rs += [Round(None, p), Round(E if i == len(parts) - 1 else ONE)]
    opts = (('F', 'freq'),) + pre
    _, o = follow(ck, tag, CEnv(opts, rs, 'eof', numbers={**vals, **(numbers or {})}, legacy=leg))
    fs = [T.ZERO]
    for x in skews(parts, vals):
        fs += [fs[-1], x]
    compare(ck, tag, o, fs, leg)
    nofault(ck, tag, o)
    ck.iff(f'{tag}: ends with the stream', when(o, lambda s, *x: T.eq0(s)), 1, Q)


def vals():
    return {('a', 'b'): lambda: fsym('g'), ('c',): lambda: fsym('h')}


def split(ck, tag, parts):
    watch(ck, tag, parts, vals())


def along(ck):
    """corrections arriving together with events"""
    tag = 'received with events'
    v = vals()
    _, o = follow(ck, tag, CEnv((('F', 'freq'),), [Round(ONE, ('a',)), Round(ONE, ('b', 10, 'c')), Round(None, None), Round(ONE), Round(None, (10,)), Round(E)], 'eof', numbers=v))
    # whether those of the very round are corrected already is left open
    fs = [T.ZERO, T.ZERO, T.ZERO, fsym('g'), T.ZERO, fsym('h')]
    for r, (got, (n, want)) in enumerate(zip(outputs(o, 6), expected(list(zip(delivered(o, 6), fs))))):
        if r in (3, 5):
            ck.pointwise(f'{tag}: round {r + 1}', got, n, want, Q, pre=o.pc, at=lambda i: (('first event', T.ZERO), ('later event', i + 1)))


def three(ck):
    v = dict(vals())
    v[('d',)] = lambda: fsym('k')
    watch(ck, 'three lines in one read', [('a', 'b', 10, 'c', 10, 'd', 10)], v)
    watch(ck, 'three lines, the last incomplete', [('a', 'b', 10, 'c', 10, 'd'), (10,)], v)


def closed(ck):
    for tag, rs in (('channel closed', [Round(None, ('a', 'b', 10)), Round(None, 'eof'), Round(E), Round(E)]), ('channel closed in a line', [Round(None, ('a', 'b', 10, 'c')), Round(None, 'eof'), Round(E), Round(E)])):
        _, o = follow(ck, tag, CEnv((('F', 'freq'),), rs, 'eof', numbers=vals()))
        compare(ck, tag, o, [fsym('g')] * 4)
        nofault(ck, tag, o)


def chars(n):
    return tuple(f'x{i}' for i in range(n))


def fits(ck, n, cut=None):
    x = chars(n)
    v = vals()
    v[x] = lambda: fsym('g')
    parts = [x + (10,)] if cut is None else [x[:cut], x[cut:] + (10, 'c'), (10,)]
    watch(ck, f'line of {n} characters' + (f' cut after {cut}' if cut else ''), parts, v)


def long_(ck, n, cuts):
    """a line longer than any buffer never counts, in whole or in part; the lines after it do"""
    x = chars(n) + (10,)
    v = {('c',): lambda: fsym('h')}
    nums = {x[i:n]: (lambda: fsym('g') if n > 99 else T.ZERO) for i in range(n)}
    at = (0,) + cuts + (n + 1,)
    parts = [x[a:b] for a, b in zip(at, at[1:]) if a < b]
    # enough turns for what does not fit into one read
    rs = [Round(E)]
    for p in parts:
        rs += [Round(None, p)] + [Round(None, ()) for _ in range(n // 99 + 1)]
    rs += [Round(ONE), Round(None, ('c',)), Round(None, (10,)), Round(E)]
    tag = f'line of {n} characters' + ''.join(f' cut after {c}' for c in cuts)
    _, o = follow(ck, tag, CEnv((('F', 'freq'),), rs, 'eof', numbers={**v, **nums}))
    fs = [T.ZERO] * len(rs)
    fs[-1] = fsym('h')
    compare(ck, tag, o, fs)
    nofault(ck, tag, o)
    ck.iff(f'{tag}: ends with the stream', when(o, lambda s, *x: T.eq0(s)), 1, Q)
