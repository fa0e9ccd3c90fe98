"""T1 epoch files."""
from .common import *

SPEC = '''
def events(path):
    with open(path, 'rb') as f:
        f.read(20)
        ts = []
        ps = []
        while True:
            hi = int.from_bytes(f.read(4), 'little')
            lo = int.from_bytes(f.read(4), 'little')
            v = hi * 2**32 + lo
            if v == 0:
                break
            ts.append(v // 1024)
            ps.append(v % 16)
    return ts, ps
'''
ENDLESS = {'*': {'endless': True}}


def source(val, k):
    """file contents for separating valuations: n events and a terminator behind a 20-byte header"""
    n = (0, 1, 2, 3)[k % 4]
    h = lambda *a: val.h('t1', *a)
    data = b''
    epoch = (h('e') % 2 ** 32, 0x1ffff, 0xffffffff, h('e') % 2 ** 20)[h('em') % 4]
    length = (n, n, 0, n + 1, n + 2 ** 24, max(0, n - 1))[h('l') % 6]
    data += (0x101).to_bytes(4, 'little') + epoch.to_bytes(4, 'little') + length.to_bytes(4, 'little') + (49).to_bytes(4, 'little') + (4).to_bytes(4, 'little')
    for i in range(n):
        v = (h('v', i) % 2 ** 64, (h('v', i) % 2 ** 32) << 32, h('v', i) % 2 ** 32, h('v', i) % 16, 2 ** 64 - 1)[h('m', i) % 5] or 1
        data += (v >> 32).to_bytes(4, 'little') + (v & 0xffffffff).to_bytes(4, 'little')
    data += b'\0' * 8
    val.fixed['filesize'] = len(data)
    val.bytesrc = lambda v, f, a: data[int(a)] if 0 <= a < len(data) else 0


def expected(I, raw, width, res, frac, full, epoch):
    """output value of a stored count (units 2^width per 17 epoch bits) and its type"""
    per_ns = 2 ** (width - 46)              # counts per ns: 54 -> 256, 49 -> 8
    e = T.floor(epoch * Fraction(1, 2 ** 17)) * 2 ** width
    if frac:
        x = raw * Fraction(res, per_ns)
        return N(I.fit(x + e * Fraction(res, per_ns), 'f16') if full else x, 'f16')
    x = T.floor(raw * Fraction(res, per_ns))
    if full:
        x = x + e * Fraction(res, per_ns)
    return N(x, 'u8' if res * 2 ** 15 * 2 ** width <= per_ns * 2 ** 64 else 'obj')


def run(ck):
    ck.rule('decoded sequence equals the record-by-record definition for any number of events; unit, fraction and epoch arithmetic equal the exact value in the output type')
    ck.assumptions.append('the file is complete (truncation is C14)')
    for res in RES:
        for frac in (True, False):
            for full in (False, True):
                ck.guard(f'{res[0]} fractional={frac} full={full}', lambda a=(res, frac, full): one(ck, *a))
    ck.guard('defaults', lambda: one(ck, None, True, False))
    return {}


def one(ck, res, frac, full):
    fresh()
    run = Run(files=ENDLESS)
    q = PE + 'read_T1'
    tag = f'unit={res[0]} fractional={frac} full_epoch={full}' if res else 'defaults'
    kw = {'resolution': res_member(run, res[0]), 'fractional': K(frac), 'full_epoch': K(full)} if res else {}
    o = run.call(q, [F()], kw)
    w = run.spec(SPEC, 'events', [F()])
    ck.seen(run)
    r = res[1] if res else 1
    ts, ps = item(w.ret, 0).s, item(w.ret, 1).s
    epoch, length = file_int(F(), num(4), 4), file_int(F(), num(8), 4)
    want = ListV(smap_elem(ts, lambda x: expected(run.I, x.p, 54, r, frac, full, epoch)))
    cmp = lambda: Cmp(setup=source)
    agree = T.bor(T.eq0(length), T.eq(length, slen(ts)))
    ck.iff(tag + ': no error when the header agrees', B(T.band(o.rp, agree)).b, 0, q, cmp=cmp())
    pre = T.bnot(o.rp)
    ck.same(tag + ': timestamps', item(o.ret, 0), want, q, cmp=cmp(), pre=pre)
    ck.same(tag + ': detectors', item(o.ret, 1), item(w.ret, 1), q, cmp=cmp(), pre=pre)
