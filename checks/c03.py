from .common import *

HX = {'a0': '08x', 'a2': '016x'}


def record(fmt, w, legacy):
    """sequence of bytes/characters of one stored event word"""
    by = lambda v, n: [N(T.mod(T.floor(v * Fraction(1, 256 ** i)), num(256)), 'int') for i in range(n)]
    lo, hi = T.mod(w, num(2 ** 32)), T.floor(w * Fraction(1, 2 ** 32))
    if fmt == 'a1':
        return Lit(tuple(by(hi, 4) + by(lo, 4) if legacy else by(w, 8)))
    nl = K('\n')
    if fmt == 'a0':
        return Lit((hexfmt(lo, 8), nl, hexfmt(hi, 8), nl))
    return Lit((hexfmt(w, 16), nl))


def hexfmt(v, w):
    return Fmt(((N(v, 'u8'), f'0{w}x', -1),))


def source(res, frac, h=1, b=None):
    """(element timestamp, stored count, pattern)"""
    args = (idx(h),) if b is None else (b, idx(h))
    p = T.fn('in:p', *args, isint=True, lo=0, hi=15)
    if frac:
        k = T.fn('in:k', *args, isint=True, lo=0, hi=2 ** 54 - 1)
        return N(k * Fraction(res[1], 256), 'f16'), k, N(p, 'u4'), p
    k = T.fn('in:k', *args, isint=True, lo=0, hi=(2 ** 54 - 1) * res[1] // 256)
    return N(k, 'u8'), k * (256 // res[1]), N(p, 'u4'), p


def run(ck):
    ck.rule('byte stream written by every writer equals the record layout (count << 10) + pattern for every representable timestamp and every batch split')
    ck.assumptions.append('timestamps are multiples of 1/256 ns below 2^54/256 ns, patterns 0..15')
    for fmt in ('a0', 'a1', 'a2'):
        for legacy in (False, True):
            for stream in (False, True):
                for res in RES:
                    for frac in (True, False):
                        if legacy and (res[0] != 'NS1' or not frac):
                            continue
                        ck.guard(f'{"s" if stream else ""}write_{fmt} legacy={legacy} res={res[0]} fractional={frac}',
                                 lambda a=(fmt, legacy, stream, res, frac): writer(ck, *a))
        ck.guard('defaults ' + fmt, lambda: writer(ck, fmt, None, False, ('NS1', 1), True))
        ck.guard('defaults s' + fmt, lambda: writer(ck, fmt, None, True, ('NS1', 1), True))
    return {}


def writer(ck, fmt, legacy, stream, res, frac):
    fresh()
    run = Run()
    q = PT + ('swrite_' if stream else 'write_') + fmt
    tag = f'{"s" if stream else ""}write_{fmt} legacy={legacy} res={res[0]} input={"fractional" if frac else "integer"}'
    n = sym('n', 0)
    dt = 'f16' if frac else 'u8'
    kw = {} if legacy is None else {'legacy': K(legacy), 'resolution': res_member(run, res[0])}
    if not stream:
        te, w, pe, p = source(res, frac)
        t, pa = ArrV(smap(n, 1, 1, te), dt, None), ArrV(smap(n, 1, 1, pe), 'u4', None)
        o = run.call(q, [K('OUT'), t, pa], kw)
        want = sflat(n, 1, 1, record(fmt, w * 1024 + p, bool(legacy)))
    else:
        # batch b holds len(b) events
        b = idx(5)
        te, w, pe, p = source(res, frac, 1, b)
        L = cfn('in:len', b, hint=50)
        el = Tup((ArrV(smap(L, 1, 1, te), dt, None), ArrV(smap(L, 1, 1, pe), 'u4', None)))
        h = 1 + max(VV.height(el.items[0].s.elem), 1)
        nb = count('nb', 0, 40)
        st = smap(nb, 1, h, ren(el, idx(5), idx(h)))
        kw['display'] = K(False)
        o = run.call(q, [K('OUT'), GenV(st), NONE], kw)
        inner = sflat(L, 1, 1, record(fmt, w * 1024 + p, bool(legacy)))
        want = sflat(nb, 1, h, ren(inner, idx(5), idx(h)))
    ck.seen(run)
    ck.iff(tag + ': no error', B(o.rp).b, 0, q)
    others = other_files(o, 'OUT')
    ck.ok(not others, tag + ': only the destination is written', q, others)
    if out_at(o, 'OUT') is None:
        ck.add(tag + ': destination is written', 'unk' if o.notes or o.st is None else 'bad', q, 'destination never opened for writing')
        return
    mode, out = out_at(o, 'OUT')
    m = mode.replace('t', '')
    ck.ok(m in ('w', 'wb', 'x', 'xb', 'w+', 'wb+', 'w+b'), tag + ': destination is truncated', q, f'opened with mode {mode}')
    ck.same(tag + ': stored records', ListV(out), ListV(C.norm_out(want, True)), q)
