from .common import *


def group(ck, fmt, legacy, stream, res, frac, nrec, n=None):
    fresh()
    n = sym('nrec', nrec) if n is None else num(n)
    run = Run(files=file_cfg(fmt, n))
    q = PT + ('sread_' if stream else 'read_') + fmt
    tag = f'{"sread" if stream else "read"}_{fmt} legacy={legacy} res={res[0]} fractional={frac}'
    o = run.call(q, [F()], {'legacy': K(legacy), 'resolution': res_member(run, res[0]), 'fractional': K(frac), **({'buffer_size': I_(num(1000))} if stream else {})})
    ck.seen(run)
    return run, o, n, tag


def run(ck, only_raw=True):
    ck.rule('value graph of every reader equals the event layout contract: timestamp = word >> 10, pattern = word & 0xF')
    ck.assumptions.append('input files hold whole records of the declared format (a0/a2: fixed-width hexadecimal lines)')
    for fmt in ('a0', 'a1', 'a2'):
        for legacy in (False, True):
            for stream in (False, True):
                def g(fmt=fmt, legacy=legacy, stream=stream):
                    readers(ck, fmt, legacy, stream, ('PS4', 256), False)
                    readers(ck, fmt, legacy, stream, ('PS4', 256), False, 1)
                    readers(ck, fmt, legacy, stream, ('PS4', 256), False, 0)
                ck.guard(f'{"s" if stream else ""}read_{fmt} legacy={legacy}', g)
    return {}


def readers(ck, fmt, legacy, stream, res, frac, count=None):
    run, o, n, tag = group(ck, fmt, legacy, stream, res, frac, 2, count)
    if count is not None:
        tag += f' ({count} events)'
    where = PT + ('sread_' if stream else 'read_') + fmt
    ck.iff(tag + ': no error on a well-formed file', B(o.rp).b, 0, where)
    if o.ret is None:
        return run, o
    f = F()
    if not stream:
        t, p = event_arrays(fmt, n, num(0), legacy, f, res[1], frac, 3)
        ck.same(tag + ': timestamps', item(o.ret, 0), t, where)
        ck.same(tag + ': patterns', item(o.ret, 1), p, where)
    else:
        it = item(o.ret, 0)
        B_ = 1000
        b = idx(5)
        L = T.minv(num(B_), n - B_ * b)
        t, p = event_arrays(fmt, L, B_ * b, legacy, f, res[1], frac, 3)
        h = 1 + max(VV.height(t), VV.height(p))
        nb = -T.floor(-n * Fraction(1, B_))
        t, p = (ren(x, idx(5), idx(h + 1)) for x in (t, p))
        it = GenV(it.s) if hasattr(it, 's') else it
        ck.same(tag + ': batches of timestamps', pick_seq(it, 0), ListV(smap(nb, 1, h + 1, t)), where)
        ck.same(tag + ': batches of patterns', pick_seq(it, 1), ListV(smap(nb, 1, h + 1, p)), where)
    return run, o


