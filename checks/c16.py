"""T3 service files."""
from .common import *

SPEC = '''
def cells(n, entry):
    cells = [0] * 16
    bad_a = 0
    bad_b = 0
    for i in range(n):
        d = entry(i)
        a = d // 16
        b = d % 16
        for j, x in enumerate((1, 2, 4, 8)):
            for k, y in enumerate((1, 2, 4, 8)):
                if a == x and b == y:
                    cells[4 * j + k] += 1
        if a != 1 and a != 2 and a != 4 and a != 8:
            bad_a += 1
        if b != 1 and b != 2 and b != 4 and b != 8:
            bad_b += 1
    return cells, [bad_a, bad_b]
'''
QBER = '''
def qber(c):
    err = c[0] + c[5] + c[10] + c[15]
    good = c[2] + c[7] + c[8] + c[13]
    if err + good == 0:
        return 0.5
    return float(round(err / (err + good), 3))
'''


def run(ck):
    ck.rule('every cell, garbage counter, the accepted count and the error rate equal their definition over the first n entries of the file')
    ck.assumptions.append('the file holds n entries in whole 32-bit words (anything else is refused)')
    ck.guard('tally', lambda: tally(ck))
    return {}


def cell_pred(i, j, k):
    """entry i has single detectors j and k"""
    d = entry(i)
    hi = T.floor(d * Fraction(1, 16))
    lo = T.mod(d, num(16))
    return T.band(T.eq(hi, num(2 ** j)), T.eq(lo, num(2 ** k)))


def entry(i):
    """i-th entry: most significant byte of each little-endian word first"""
    return file_byte(F(), num(16) + T.floor(i * Fraction(1, 4)) * 4 + 3 - T.mod(i, num(4)))


def source(val, k):
    h = lambda *a: val.h('t3', *a)
    n = (0, 1, 3, 4, 8, 12, 16)[k % 7]
    data = b''.join(x.to_bytes(4, 'little') for x in (0x103, h('e') % 2 ** 32, n, 8))
    for i in range((n + 3) // 4 * 4):
        one = (1 << h('a', i) % 4) * 16 + (1 << h('b', i) % 4)
        data += bytes([(one, one, h('v', i) % 256, one % 16, one & 0xf0)[h('m', i) % 5]])
    if h('cm') % 3 == 0:
        data = data[:h('cut') % (len(data) + 1)] if h('ck') % 2 else data[:max(0, len(data) - 4)]
    val.fixed['filesize'] = len(data)
    val.bytesrc = lambda v, f, a: data[int(a)] if 0 <= a < len(data) else 0


def tally(ck):
    fresh()
    run = Run()
    q = PE + 'read_T3'
    o = run.call(q, [F()])
    ck.seen(run)
    cmp = lambda: Cmp(setup=source)
    fs = run.I.filesize(F())
    n = file_int(F(), num(8), 4)
    enough = T.band(T.le(num(16), fs), T.eq(T.mod(fs, num(4)), num(0)), T.le(n, T.floor((fs - 13) * Fraction(1, 4)) * 4))
    ck.iff('refused exactly when entries are missing', B(o.rp).b, B(T.bnot(enough)).b, q, cmp=cmp())
    r = o.ret
    get = lambda nm: r.items[r.names.index(nm)] if isinstance(r, ObjV) and nm in r.names else None
    m = get('coinc_matrix')
    g = get('garbage')
    pre = T.bnot(o.rp)
    cnt = lambda pred: T.fn('count', n, 1, BArg(pred), isint=True, lo=0)
    i = idx(1)
    hi, lo = T.floor(entry(i) * Fraction(1, 16)), T.mod(entry(i), num(16))
    single = lambda x: T.bor(*[T.eq(x, num(2 ** j)) for j in range(4)])
    cells = [N(cnt(cell_pred(i, j, k)), 'int') for j in range(4) for k in range(4)]
    lit = lambda v: v.s.items if v is not None and isinstance(v, (ListV, ArrV)) and isinstance(v.s, Lit) else [None] * 16
    for j in range(4):
        for k in range(4):
            ck.same(f'cell {"VAHD"[j]}{"VAHD"[k]}', lit(m)[4 * j + k], cells[4 * j + k], q, cmp=cmp(), pre=pre)
    ck.same('garbage of the first side', lit(g)[0], N(cnt(T.bnot(single(hi))), 'int'), q, cmp=cmp(), pre=pre)
    ck.same('garbage of the second side', lit(g)[1], N(cnt(T.bnot(single(lo))), 'int'), q, cmp=cmp(), pre=pre)
    ck.same('accepted count', get('okcount'), N(cnt(T.band(single(hi), single(lo))), 'int'), q, cmp=cmp(), pre=pre)
    w = run.spec(QBER, 'qber', [run.alloc(ListV(Lit(tuple(lit(m)) if lit(m)[0] is not None else tuple(cells))))], mayraise=True)
    ck.same('error rate', get('qber'), w.ret, q, cmp=cmp(), pre=T.band(pre, T.bnot(w.rp)))
    ck.same('header', get('head'), run.call(PE + 'read_T3_header', [F()]).ret, q, cmp=cmp(), pre=pre)
