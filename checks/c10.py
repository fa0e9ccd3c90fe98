"""Writing T1 epoch files."""
from .common import *

SPEC = '''
import pathlib
def name(directory, epoch):
    return pathlib.Path(directory) / hex(epoch % 2**32)[2:]
'''


def byts(v, n):
    return [N(T.mod(T.floor(v * Fraction(1, 256 ** i)), num(256)), 'int') for i in range(n)]


def run(ck):
    ck.rule('bytes written to the epoch file equal header, events and terminator of the documented layout for any number of events, any epoch number and every detector form')
    ck.assumptions.append('stored times lie below 2^37 (one epoch in 4 ps), detectors 0..15')
    for tdt in ('u8', 'i8', 'list', 'obj', 'f16'):
        for det in ('array', 'list', 'scalar'):
            ck.guard(f'timestamps {tdt}, detectors {det}', lambda a=(tdt, det): one(ck, *a))
    ck.guard('length mismatch', lambda: mismatch(ck))
    return {}


def one(ck, tdt, det):
    fresh()
    run = Run()
    q = PE + 'write_T1'
    tag = f'timestamps {tdt}, detectors {det}'
    n = count('n')
    e = sym('epoch', 0)
    i = idx(1)
    t = T.fn('in:t', i, isint=True, lo=0, hi=2 ** 37 - 1)
    d = T.fn('in:d', i, isint=True, lo=0, hi=15)
    ts = ListV(smap(n, 1, 1, N(t, 'int'))) if tdt == 'list' else ArrV(smap(n, 1, 1, N(t, 'int' if tdt == 'obj' else tdt)), tdt, None)
    if tdt == 'list':
        ts = run.alloc(ts)
    if det == 'scalar':
        d = sym('d', 0, 15)
        dv = N(d, 'int')
    elif det == 'list':
        dv = run.alloc(ListV(smap(n, 1, 1, N(d, 'int'))))
    else:
        dv = ArrV(smap(n, 1, 1, N(d, 'u4')), 'u4', None)
    o = run.call(q, [K('DIR'), N(e, 'int'), ts, dv])
    ck.seen(run)
    w = run.spec(SPEC, 'name', [K('DIR'), N(e, 'int')])
    ep = T.mod(e, num(2 ** 32))
    ck.iff(tag + ': no error below 2^32 events', B(T.band(o.rp, T.lt(n, num(2 ** 32)))).b, 0, q)
    pre = T.lt(n, num(2 ** 32))
    ck.same(tag + ': returned path', o.ret, w.ret, q, pre=pre)
    from sa.pyeval import filekey
    key = filekey(w.ret)
    others = [k for k in o.files if k != key]
    hit = o.files.get(key)
    if hit is None:
        # decide on the name by comparison
        if len(o.files) == 1:
            k = next(iter(o.files))
            ck.same(tag + ': name of the written file', k if isinstance(k, V) else K(k), key, q, pre=pre)
            hit = o.files[k]
            others = []
        else:
            ck.add(tag + ': file written', 'unk' if o.notes or o.st is None or others else 'bad', q, [str(x) for x in o.files])
            return
    ck.ok(not others, tag + ': only the epoch file is written', q, [T.show_any(x) for x in others], bad='unk')
    mode, out = hit
    ck.ok(mode.replace('t', '') in ('wb', 'xb', 'wb+', 'w+b', 'bw'), tag + ': binary, truncated', q, mode)
    v = (T.mod(ep, num(2 ** 17)) * 2 ** 37 + t) * 1024 + d
    hi, lo = T.floor(v * Fraction(1, 2 ** 32)), T.mod(v, num(2 ** 32))
    head = []
    for x in (num(0x101), ep, n, num(49), num(4)):
        head += byts(x, 4)
    want = scat([Lit(tuple(head)), sflat(n, 1, 1, Lit(tuple(byts(hi, 4) + byts(lo, 4)))), Lit(tuple([I_(0)] * 8))])
    ck.same(tag + ': header, events, terminator', ListV(out), ListV(C.norm_out(want, True)), q, pre=pre)


def mismatch(ck):
    q = PE + 'write_T1'
    for k in (None, 0, 1, 2, 3):
        for lst in (False, True) if k is not None else (False,):
            fresh()
            run = Run()
            n = count('n')
            m = count('m') if k is None else num(k)
            T.HINT['n'] = 5
            d = in_array('d', m, 'u4', lo=0, hi=15)
            if lst:
                d = run.alloc(ListV(Lit(tuple(N(T.fn('in:d', num(i), isint=True, lo=0, hi=15), 'int') for i in range(k)))))
            elif k is not None:
                d = ArrV(Lit(tuple(N(T.fn('in:d', num(i), isint=True, lo=0, hi=15), 'u4') for i in range(k))), 'u4', None)
            o = run.call(q, [K('DIR'), N(sym('epoch', 0), 'int'), in_array('t', n, 'u8', lo=0, hi=2 ** 37 - 1), d])
            ck.seen(run)
            few = T.lt(n, num(2 ** 32))
            ck.iff('different lengths are refused' + ('' if k is None else f': {k} detectors' + (' in a list' if lst else '')), B(T.band(o.rp, few)).b, B(T.band(T.bnot(T.eq(n, m)), few)).b, q)
