"""Epoch headers."""
from .common import *

# documented layout (file specification of the T1..T4 epochs): field, signed?
LAYOUT = {
    'T1': (('tag', 1), ('epoch', 0), ('length_bits', 0), ('bits_per_entry', 1), ('base_bits', 1)),
    'T2': (('tag', 1), ('epoch', 0), ('length_bits', 0), ('timeorder', 1), ('base_bits', 1), ('protocol', 1)),
    'T3': (('tag', 1), ('epoch', 0), ('length_entry', 0), ('bits_per_entry', 1)),
    'T4': (('tag', 0), ('epoch', 0), ('length', 0), ('timeorder', 0), ('base_bits', 0)),
}
NAMES = ('ba1f36c0', '1', 'ffffffff', '0', '00ba1f36')
TAG = {'T1': 1, 'T2': 2, 'T3': 3, 'T4': 4}


def field(k, signed, f=None):
    w = file_int(f or F(), num(4 * k), 4)
    return N(T.wrap_s(w, 32) if signed else w, 'int')


def source(t, ep):
    def f(val, k):
        h = lambda *a: val.h('hd', *a)
        tag = (TAG[t], 0x100 + TAG[t], TAG[t] + 1, h('t') % 2 ** 32, TAG[t] + 2 ** 31)[h('tm') % 5]
        e = (ep, ep, h('e') % 2 ** 32)[h('em') % 3]
        data = b''.join(x.to_bytes(4, 'little') for x in (tag, e, h(1) % 2 ** 32, h(2) % 2 ** 32, h(3) % 2 ** 32, h(4) % 2 ** 32))
        n = 4 * len(LAYOUT[t])
        val.fixed['filesize'] = (24, n, n - 1, n - 4)[h('m') % 4]
        val.bytesrc = lambda v, f, a: data[int(a)] if 0 <= a < len(data) else 0
    return f


def run(ck):
    ck.rule('field k of the header equals the k-th little-endian 32-bit word; a short file is refused and nothing else is; a warning is logged exactly for a foreign tag or name')
    for t in LAYOUT:
        ck.guard(t, lambda t=t: one(ck, t))
    return {}


def one(ck, t):
    fresh()
    run = Run()
    q = PE + f'read_{t}_header'
    o = run.call(q, [F()])
    ck.seen(run)
    n = len(LAYOUT[t])
    fs = run.I.filesize(F())
    ck.iff(f'{t}: refused exactly when the file is shorter than the header', B(o.rp).b, T.lt(fs, num(4 * n)), q)
    ck.ok(isinstance(o.ret, Named) and len(o.ret.items) == n, f'{t}: header has {n} fields', q, bad='unk' if not isinstance(o.ret, Named) else 'bad')
    if not isinstance(o.ret, Named):
        return
    for k, (name, signed) in enumerate(LAYOUT[t]):
        x = o.ret.items[o.ret.names.index(name)] if name in o.ret.names else None
        ck.same(f'{t}: field {name}', x, field(k, signed), q)
        ck.ok(k < len(o.ret.names) and o.ret.names[k] == name, f'{t}: position of {name}', q, bad='unk')
    for nm in NAMES:
        for dirs in ('', '/data/run.1/'):
            fresh()
            run = Run()
            f = K(dirs + nm)
            o = run.call(q, [f])
            ck.seen(run)
            logs = [e for e in o.effects if e.kind == 'log' and e.data[0] in ('warning', 'error', 'critical', 'exception')]
            got = T.bor(*[e.pc for e in logs]) if logs else 0
            tag, ep = field(0, LAYOUT[t][0][1], f).p, field(1, 0, f).p
            good = T.band(T.bor(T.eq(tag, num(TAG[t])), T.eq(tag, num(0x100 + TAG[t]))), T.eq(ep, num(int(nm, 16))) if format(int(nm, 16), 'x') == nm else 0)
            big = T.lt(run.I.filesize(f), num(4 * n))
            ck.iff(f'{t}: warnings for {dirs}{nm}', B(T.band(got, T.bnot(big))).b, B(T.band(T.bnot(good), T.bnot(big))).b, q, cmp=Cmp(setup=source(t, int(nm, 16))))
            ck.iff(f'{t}: no failure for {dirs}{nm}', B(o.rp).b, big, q)
