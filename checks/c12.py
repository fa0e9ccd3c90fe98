"""T2 epoch files."""
from .common import *
from .c09 import ENDLESS, expected
from .bits import SUMMARIES

SPEC = '''
from fpfind.lib.parse_epochs import extract_bits as take
def events(path, epoch, width, basebits):
    with open(path, 'rb') as f:
        f.read(24)
        t = (epoch % 2**17) * 2**32
        ts = []
        ps = []
        buf = 0
        n = 0
        while True:
            d, buf, n = take(width, buf, n, f)
            if d == 1:
                p, buf, n = take(basebits, buf, n, f)
                if p != 0:
                    raise ValueError('terminator')
                break
            if d == 0:
                d, buf, n = take(32, buf, n, f)
            t = t + d
            p, buf, n = take(basebits, buf, n, f)
            ts.append(t)
            ps.append(p)
    return ts, ps
'''


def run(ck):
    ck.rule('decoded sequences equal the record-by-record definition for any number of entries')
    ck.assumptions.append('the file is complete (truncation is C14)')
    for res in RES:
        for frac in (True, False):
            for full in (False, True):
                ck.guard(f'{res[0]} fractional={frac} full={full}', lambda a=(res, frac, full): one(ck, *a))
    return {}


def one(ck, res, frac, full):
    fresh()
    run = Run(files=ENDLESS, summaries=SUMMARIES)
    q = PE + 'read_T2'
    tag = f'unit={res[0]} fractional={frac} full_epoch={full}' if res else 'defaults'
    kw = {'resolution': res_member(run, res[0]), 'fractional': K(frac), 'full_epoch': K(full)} if res else {}
    o = run.call(q, [F()], kw)
    epoch, length = file_int(F(), num(4), 4), file_int(F(), num(8), 4)
    W = N(T.wrap_s(file_int(F(), num(12), 4), 32), 'int')
    Bb = N(T.wrap_s(file_int(F(), num(16), 4), 32), 'int')
    w = run.spec(SPEC, 'events', [F(), N(epoch, 'int'), W, Bb], mayraise=True)
    ck.seen(run)
    r = res[1] if res else 1
    ts, ps = item(w.ret, 0).s, item(w.ret, 1).s
    cmp = lambda: Cmp(setup=source)
    agree = T.bor(T.eq0(length), T.eq(length, slen(ts)))
    ck.iff(tag + ': errors are exactly a non-zero terminator or a contradicting count', B(o.rp).b, B(T.bor(w.rp, T.band(T.bnot(w.rp), T.bnot(agree)))).b, q, cmp=cmp())
    pre = T.bnot(o.rp)
    want = ListV(smap_elem(ts, lambda x: expected2(run.I, x.p, r, frac, full, epoch)))
    ck.same(tag + ': timestamps', item(o.ret, 0), want, q, cmp=cmp(), pre=pre)
    ck.same(tag + ': detectors', item(o.ret, 1), item(w.ret, 1), q, cmp=cmp(), pre=pre)


def expected2(I, raw, res, frac, full, epoch):
    e = T.floor(epoch * Fraction(1, 2 ** 17)) * 2 ** 49
    if frac:
        x = I.fit(raw * Fraction(res, 8), 'f16')
        return N(I.fit(x + e * Fraction(res, 8), 'f16') if full else x, 'f16')
    dt = 'int' if res > 8 else 'u8'
    if dt == 'u8':
        raw = I.fit(raw, dt)            # counts fit 64 bits (49 bits and the steps of one epoch)
    x = T.floor(raw * Fraction(res, 8)) + (e * Fraction(res, 8) if full else 0)
    return N(x if dt == 'int' else I.fit(x, dt), dt)


def pack(entries, W, Bb, end=True, tbase=0):
    """bit string of (delta, base) entries and terminator, in 32-bit little-endian words"""
    bits = ''
    put = lambda v, n: format(v % 2 ** n, f'0{n}b') if n > 0 else ''
    for d, b in entries:
        bits += put(0, W) + put(d, 32) if d >= 2 ** W or d < 2 else put(d, W)
        bits += put(b, Bb)
    if end:
        bits += put(1, W) + put(tbase, Bb)
    bits += '0' * (-len(bits) % 32)
    return b''.join(int(bits[i:i + 32], 2).to_bytes(4, 'little') for i in range(0, len(bits), 32))


def source(val, k, head=24, tag=0x102):
    n = (0, 1, 2, 3, 4, 5)[k % 6]
    h = lambda *a: val.h('t2', *a)
    W = (8, 4, 16, 19, 31)[h('W') % 5]
    Bb = (4, 1, 8, 0)[h('B') % 4]
    ent = []
    for i in range(n):
        d = (h('d', i) % 2 ** W, h('d', i) % 2 ** 32, 1, 0, 2 ** 32 - 1, 2, h('d', i) % 6, h('d', i) % 6, h('d', i) % 6, 2 + h('d', i) % 4)[h('m', i) % 10]
        ent.append((d, h('b', i)))
    epoch = (h('e') % 2 ** 32, 0x1ffff, 0xffffffff, h('e') % 2 ** 20)[h('em') % 4]
    length = (n, n, 0, n + 1, n + 2 ** 24, max(0, n - 1))[h('l') % 6]
    words = [tag, epoch, length, W, Bb, 0][:head // 4]
    data = b''.join(x.to_bytes(4, 'little') for x in words) + pack(ent, W, Bb, tbase=(0, 0, h('tb'))[h('tm') % 3])
    val.fixed['filesize'] = len(data)
    val.bytesrc = lambda v, f, a: data[int(a)] if 0 <= a < len(data) else 0
