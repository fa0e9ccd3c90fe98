from .common import *


def run(ck):
    ck.rule('stream of batches == partition of the record sequence into consecutive blocks of the buffer size; announced count == number of blocks')
    ck.assumptions.append('the input file holds whole records; its size does not change while it is read')
    for fmt in ('a0', 'a1', 'a2'):
        for bs in (None, 1, 2, 7, 1000, 100000, 'default'):
            ck.guard(f'sread_{fmt} buffer={bs}', lambda a=(fmt, bs): stream(ck, *a))
        ck.guard(f'sread_{fmt} small files', lambda fmt=fmt: [stream(ck, fmt, 4, n) for n in (1, 3, 4, 5, 8, 9)])
    return {}


def stream(ck, fmt, bs, cnt=None):
    fresh()
    n = count('nrec', 1, 60) if cnt is None else num(cnt)
    run = Run(files=file_cfg(fmt, n))
    q = PT + 'sread_' + fmt
    B_ = count('bs', 1, 20) if bs is None else num(bs if bs != 'default' else 100000)
    tag = f'sread_{fmt} buffer_size={"symbolic" if bs is None else bs}' + ('' if cnt is None else f' events={cnt}')
    kw = {'legacy': K(False), 'resolution': res_member(run, 'PS4'), 'fractional': K(False)}
    if bs != 'default':
        kw['buffer_size'] = I_(B_)
    o = run.call(q, [F()], kw)
    ck.seen(run)
    ck.iff(tag + ': no error', B(o.rp).b, 0, q)
    it, cntv = item(o.ret, 0), item(o.ret, 1)
    nb = -T.floor(T.div(-n, B_))
    if bs == 'default':
        # whatever the default is, the announced number must be the number produced
        ck.same(tag + ': announced number of batches', cntv, I_(slen(it.s)), q)
        return
    ck.same(tag + ': announced number of batches', cntv, I_(nb), q)
    b = idx(5)
    L = T.minv(B_, n - B_ * b)
    t, p = event_arrays(fmt, L, B_ * b, False, F(), 256, False, 3)
    h = 1 + max(VV.height(t), VV.height(p))
    t, p = (ren(x, idx(5), idx(h + 1)) for x in (t, p))
    it = GenV(it.s) if hasattr(it, 's') else it
    ck.same(tag + ': number of batches produced', I_(slen(it.s)), I_(nb), q)
    ck.same(tag + ': timestamps of the batches', pick_seq(it, 0), ListV(smap(nb, 1, h + 1, t)), q)
    ck.same(tag + ': patterns of the batches', pick_seq(it, 1), ListV(smap(nb, 1, h + 1, p)), q)
