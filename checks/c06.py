from .common import *

SPEC = '''
def spec(t, start, end, unit):
    return [(start is None or x >= start * unit) and (end is None or x <= end * unit) for x in t]
'''


def sorted_axioms(name, last):
    """in:name is non-decreasing over positions 0..last"""
    def ax(ms):
        at = {}
        for m in ms:
            if len(m) == 1 and m[0][1] == 1:
                a = T.ATOMS[m[0][0]]
                if a.kind == 'fn' and a.args[0] == 'in:' + name:
                    at[a.id] = (a.args[-1], T.of_atom(a))
        out = []
        for x, tx in at.values():
            for y, ty in at.values():
                if x == y:
                    continue
                # x is the first position, or y the last one, or x <= y by range
                if x.const() == 0 or y == last or T.nonneg(y - x):
                    out.append(tx - ty)
        return out
    return ax


def sorted_setup(name, res):
    def setup(val, k):
        n = val.fixed.get('n')
        if n is None:
            n = (0, 1, 2, 3, 5, 9)[k % 6]
            val.fixed['n'] = n
        ts, c = [], val.h('b') % 50 * 128
        for i in range(n):
            ts.append(Fraction(c, 128))
            c += (0, 0, 1, 128, 777)[val.h('t', i) % 5]
        val.times = ts
        unit = 10 ** 9 * res
        lo, hi = (ts[0], ts[-1]) if ts else (0, 10)
        for s in ('S', 'E'):
            x = val.h(s)
            base = ts[x % n] if n else Fraction(x % 100)
            off = (0, 0, Fraction(1, 1000), -Fraction(1, 1000), 5, -5)[(x >> 9) % 6]
            if (x >> 20) % 12 == 0:
                base, off = ((lo, -7), (hi, 7))[(x >> 30) % 2]
            val.fixed[s] = Fraction(base + off) / unit
    return setup


def times_fn(val, *a):
    i = int(a[-1])
    return val.times[i] if 0 <= i < len(val.times) else Fraction(0)


def run(ck):
    ck.rule('selection mask equals start <= t <= end element-wise, modulo sortedness of the input; bisection rewritten by its defining property')
    ck.assumptions += ['timestamps are in chronological order (stated in the file specification)', 'bounds are compared in real arithmetic']
    for res in RES:
        for a in (True, False):
            for b in (True, False):
                for dt in ('f16', 'u8') if res[0] != 'NS1' or True else ('f16',):
                    for n in (None, 0, 1):
                        ck.guard(f'{res[0]} start={a} end={b} {dt} n={n}', lambda x=(res, a, b, dt, n): one(ck, *x))
    ck.guard('defaults', lambda: defaults(ck))
    return {}


def one(ck, res, a, b, dt, cnt):
    fresh()
    run = Run()
    n = count('n', 0, 12) if cnt is None else num(cnt)
    el = N(T.fn('in:t', idx(1), isint=dt == 'u8', lo=0), dt)
    t = ArrV(smap(n, 1, 1, el), dt, None)
    S = N(real('S'), 'float') if a else NONE
    E = N(real('E'), 'float') if b else NONE
    q = PT + 'get_timing_mask'
    tag = f'unit={res[0]} start={"given" if a else "none"} end={"given" if b else "none"} type={dt}' + ('' if cnt is None else f' events={cnt}')
    o = run.call(q, [t, S, E], {'resolution': res_member(run, res[0])})
    w = run.spec(SPEC, 'spec', [run.alloc(ListV(smap(n, 1, 1, N(el.p, 'float')))), S, E, I_(num(10 ** 9 * res[1]))])
    ck.seen(run)
    fixed = {'n': cnt} if cnt is not None else {}
    cmp = lambda: Cmp(real=True, axioms=sorted_axioms('t', n - 1), fns={'in:t': times_fn}, fixed=fixed, setup=sorted_setup('t', res[1]))
    ck.iff(tag + ': no error', B(o.rp).b, 0, q, cmp=cmp())
    ck.same(tag + ': selection', o.ret, w.ret, q, cmp=cmp())


def defaults(ck):
    fresh()
    run = Run()
    n = count('n', 0, 12)
    t = ArrV(smap(n, 1, 1, N(T.fn('in:t', idx(1), isint=False, lo=0), 'f16')), 'f16', None)
    q = PT + 'get_timing_mask'
    S, E = N(real('S'), 'float'), N(real('E'), 'float')
    o = run.call(q, [t, S, E])
    w = run.call(q, [t], {'start': S, 'end': E, 'resolution': res_member(run, 'NS1')})
    ck.seen(run)
    ck.same('default unit is 1 ns', o.ret, w.ret, q)
    o = run.call(q, [t])
    ck.same('default bounds are open', o.ret, ListV(smap(n, 1, 1, B(1))), q, cmp=Cmp(real=True, axioms=sorted_axioms('t', n - 1), fns={'in:t': times_fn}, setup=sorted_setup('t', 1)))
