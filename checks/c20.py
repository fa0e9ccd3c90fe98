"""The precompensation scan and the list it goes through."""
from .common import *
from .search import rv, untag, FP

SPEC = '''
from fpfind.fpfind import time_freq

def scan(a, b, wraps, bins, r, target, threshold, sep, pre):
    for p in pre:
        f = 1 + p
        try:
            d, s = time_freq(a, b / f, wraps, bins, r, target, threshold, sep)
        except ValueError:
            continue
        return f * d, f * (1 + s) - 1
    raise ValueError('none')

def attempts(a, b, wraps, bins, r, target, threshold, sep, pre):
    out = []
    for p in pre:
        f = 1 + p
        try:
            d, s = time_freq(a, b / f, wraps, bins, r, target, threshold, sep)
            out.append((True, f * d, f * (1 + s) - 1))
        except ValueError:
            out.append((False, 0, 0))
    return tuple(out)
'''
Q = FP + 'fpfind'
G = FP + 'generate_precompensations'


def search(I, b, st, ctx, node):
    a = [untag(I.freeze(v, st)) for v in b.values()]
    I.raise_if(T.bpred('call:fails', *a), P.ExcV('PeakFindingFailed', ()), st, ctx, node)
    return Tup((rv('offset', *a), rv('skew', *a)))


def run(ck):
    ck.rule('result = (1 + p)*D, (1 + p)*(1 + S) - 1 of the first p for which the search on (a, b/(1 + p)) succeeds; failure iff none does')
    ck.rule('list = start + step*(0, 1, -1, 2, -2, ..) or start + step*(0, 1, 2, ..), up to the limit')
    for n in (0, 1, 2, 3, 4) + ((5, 6) if ck.tier == 'thorough' else ()):
        for full in (False, True) if n < 5 else (False,):
            ck.guard(f'{n} values', lambda n=n, full=full: scan(ck, n, full))
    ck.guard('any list', lambda: anylist(ck))
    ck.guard('no step', lambda: nostep(ck))
    for o in (False, True):
        ck.guard(f'list ordered={o}', lambda o=o: listing(ck, o))
    return {}


def begin():
    fresh()
    run = Run()
    run.I.summaries = {FP + 'time_freq': search}
    run.I.real = True
    run.load('fpfind.fpfind')
    a = run.alloc(in_array('a', count('na', 1, 3), 'f16', isint=False, lo=0))
    b = run.alloc(in_array('b', count('nb', 1, 3), 'f16', isint=False, lo=0))
    par = [N(sym('wraps', 1), 'int'), N(sym('bins', 1), 'int'), N(real('r'), 'int'), N(real('target'), 'int'), N(real('threshold'), 'float'), N(real('sep'), 'float')]
    return run, [a, b] + par


def some_zero(val, k):
    """scans include the value 0 and repeated values"""
    v = (0, Fraction(1, 10 ** 6), Fraction(-1, 10 ** 6), Fraction(1, 8))
    for i in range(4):
        if k % 3 != 2:
            val.fixed[f'p{i}'] = v[(k * 7 + i * (k // 3)) % 4]


def cmp():
    return Cmp(real=True, setup=some_zero)


def pre(i):
    return N(real(f'p{i}', Fraction(-1, 2)), 'f8')


def scan(ck, n, full):
    run, a = begin()
    ps = run.alloc(ListV(Lit(tuple(pre(i) for i in range(n)))))
    nm = f'{n} precompensations' + (', all tried' if full else '')
    o = run.call(Q, a + [ps], {'precompensation_fullscan': K(full)} if full else {})
    ck.seen(run)
    s = run.spec(SPEC, 'scan', a + [ps], mayraise=True)
    ck.iff(f'{nm}: fails exactly when every attempt fails', B(o.rp).b, B(s.rp).b, Q, cmp=cmp())
    ok = T.bnot(T.bor(o.rp, s.rp))
    if not n:
        return
    cm = cmp()
    if not full:
        for i, w in enumerate(('offset', 'skew')):
            ck.same(f'{nm}: {w} of the first success', item(o.ret, i), item(s.ret, i), Q, pre=ok, cmp=cm)
        return
    t = run.spec(SPEC, 'attempts', a + [ps])
    alt = 0
    for k in range(n):
        x = t.ret.items[k]
        good = x.items[0]
        alt = T.bor(alt, T.band(run.I.truth(good, run.I.st0, None, None), T.eq(numof(run, item(o.ret, 0)), numof(run, x.items[1])), T.eq(numof(run, item(o.ret, 1)), numof(run, x.items[2]))))
    ck.iff(f'{nm}: the result of a success', B(alt).b, 1, Q, pre=ok, cmp=cm)


def numof(run, v):
    n = run.I.tonum(v)
    return n.p


def anylist(ck):
    run, a = begin()
    ps = run.alloc(in_array('p', count('np', 0, 3), 'f8', isint=False, lo=Fraction(-1, 2)))
    o = run.call(Q, a + [ps])
    ck.seen(run)
    s = run.spec(SPEC, 'scan', a + [ps], mayraise=True)
    ck.iff('any list: fails exactly when every attempt fails', B(o.rp).b, B(s.rp).b, Q, cmp=cmp())
    ok = T.bnot(T.bor(o.rp, s.rp))
    for i, w in enumerate(('offset', 'skew')):
        ck.same(f'any list: {w} of the first success', item(o.ret, i), item(s.ret, i), Q, pre=ok, cmp=cmp())


def listing(ck, ordered):
    fresh()
    run = Run()
    run.I.real = True
    run.load('fpfind.fpfind')
    nm = 'ascending list' if ordered else 'alternating list'
    st, sp, d = N(real('start'), 'float'), N(real('stop', 0), 'float'), N(real('step', Fraction(1, 100)), 'float')
    o = run.call(G, [st, sp, d], {'ordered': K(ordered)})
    ck.seen(run)
    cm = Cmp(real=True)
    a, b, k = st.p, sp.p, d.p
    if ordered:
        n = T.floor(T.div(b - a, k)) + 1
        ck.pointwise(nm, o.ret, T.ite(T.lt0(n), T.ZERO, n), lambda i: N(a + k * i, 'f8'), G, cmp=cm)
        return
    n = 2 * T.floor(T.div(b, k)) + 1
    ck.pointwise(nm, o.ret, n, lambda i: N(a - k * T.floor(i * Fraction(1, 2)) if T.isint(i * Fraction(1, 2)) else a + k * T.floor((i + 1) * Fraction(1, 2)), 'f8'), G, cmp=cm,
                 at=lambda i: (('steps down', 2 * i), ('steps up', 2 * i + 1)))


def nostep(ck):
    fresh()
    run = Run()
    run.load('fpfind.fpfind')
    o = run.call(G, [N(real('start'), 'float'), N(real('stop', 0), 'float'), N(T.ZERO, 'float')])
    ck.pointwise('without a step', o.ret, num(1), lambda i: N(T.ZERO, 'f8'), G)
