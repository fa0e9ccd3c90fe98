"""The statistics reports, in memory and streamed."""
import os
import re
from .common import *

SPEC = '''
def spec(stream, unit):
    batches = [(t, p) for t, p in stream]
    n = 0
    c1 = 0; c2 = 0; c3 = 0; c4 = 0; multi = 0; none = 0
    first = None; last = None
    pats = set()
    for t, p in batches:
        n += len(p)
        c1 += sum([1 for x in p if x & 1 != 0])
        c2 += sum([1 for x in p if x & 2 != 0])
        c3 += sum([1 for x in p if x & 4 != 0])
        c4 += sum([1 for x in p if x & 8 != 0])
        multi += sum([1 for x in p if x != 0 and x != 1 and x != 2 and x != 4 and x != 8])
        none += sum([1 for x in p if x == 0])
        pats.update(set(p))
        if len(t) != 0:
            if first is None:
                first = t[0] / unit
            last = t[-1] / unit
    return [n, c1, c2, c3, c4, multi, none, (last - first) / 10**9, first / 10**9, last / 10**9, sorted(pats)]
'''
NAMES = ('total', 'channel 1', 'channel 2', 'channel 3', 'channel 4', 'multi-channel', 'no channel', 'duration', 'start', 'end', 'patterns')


def fields(out):
    """values shown on standard output, in order"""
    if not isinstance(out, Lit):
        return None
    vals = []
    for x in out.items:
        if isinstance(x, K) and isinstance(x.o, str) and not x.o.startswith('Name'):
            m = re.match(r'[^:]*:\s*(-?[0-9]+)\s*$', x.o)
            if m:
                vals.append(I_(num(int(m.group(1)))))
        if isinstance(x, Fmt):
            for p in x.parts:
                if isinstance(p, tuple):
                    vals.append(p[0])
    return vals


def run(ck):
    ck.rule('every displayed quantity equals its definition over the events, for any number of batches and any batch lengths')
    ck.assumptions += ['times are compared in real arithmetic', 'the event rate line is not specified']
    for n in (None, 0, 1, 2):
        ck.guard(f'memory n={n}', lambda n=n: one(ck, False, n, RES[0], 'f16'))
    for nb in (None, 0, 1, 2, 3):
        for res, dt in ((RES[0], 'f16'), (RES[2], 'u8'), (RES[1], 'f16'), (RES[1], 'u8')):
            ck.guard(f'stream batches={nb} {res[0]} {dt}', lambda a=(nb, res, dt): one(ck, True, *a))
    for nb in (None, 1, 2):
        ck.guard(f'stream without events batches={nb}', lambda nb=nb: one(ck, True, nb, RES[0], 'f16', empty=True))
    return {}


def one(ck, stream, nb, res, dt, empty=False):
    fresh()
    isint = dt == 'u8'
    b = idx(5)
    L = (cfn('in:len', b, hint=4) if not empty else T.ZERO) if stream else (count('n', 0, 5) if nb is None else num(nb))
    args = (b, idx(1)) if stream else (idx(1),)
    t = N(T.fn('in:t', *args, isint=isint, lo=0, hi=2 ** 54), dt)
    p = T.fn('in:p', *args, isint=True, lo=0, hi=15)
    ta, pa = ArrV(smap(L, 1, 1, t), dt, None), ArrV(smap(L, 1, 1, N(p, 'u4')), 'u4', None)
    tl, pl = ListV(smap(L, 1, 1, N(t.p, 'float'))), ListV(smap(L, 1, 1, N(p, 'int')))
    h = 1 + max(VV.height(ta), VV.height(pa), 1)
    if stream:
        nbv = count('nb', 0, 3) if nb is None else num(nb)
        total = sum_of_len(nbv, h, L)
        el = smap(nbv, 1, h, ren(Tup((ta, pa)), idx(5), idx(h)))
        ws = smap(nbv, 1, h, ren(Tup((tl, pl)), idx(5), idx(h)))
    else:
        total = L
        ws = Lit((Tup((tl, pl)),))
    nofile = T.bnot(T.bpred('isfile', K('IN')))
    none = T.le(total, T.ZERO)
    q = PT + ('print_statistics_stream' if stream else 'print_statistics')
    base = f'{"streamed" if stream else "in-memory"} report unit={res[0]} type={dt} ' + ('batches=' if stream else 'events=') + ('any' if nb is None else str(nb)) + (' all empty' if empty else '')
    for zero in (True, False):
        assume = T.band(nofile, none if zero else T.bnot(none))
        if assume == 0:
            continue
        run = Run(assume=assume)
        tag = base + (', no event selected' if zero else '')
        kw = {}
        if stream:
            kw = {'resolution': res_member(run, res[0]), 'display': K(False)}
            if res[0] == 'NS1' and dt == 'f16':
                kw.pop('resolution')
        a = [K('IN'), GenV(el)] if stream else [K('IN'), ta, pa]
        o = run.call(q, a, kw)
        ck.seen(run)
        cmp = lambda: Cmp(real=True, pre=assume)
        ck.iff(tag + ': no error', B(o.rp).b, 0, q, cmp=cmp(), pre=assume)
        got = fields(o.stdout)
        if o.st is None:
            continue
        if got is None:
            ck.add(tag + ': report', 'unk', q, f'conditional output {str(o.stdout)[:200]}')
            continue
        if zero:
            num0 = [v for v in got if isinstance(v, N)]
            if len(num0) != 1 or len(got) != 1:
                ck.add(tag + ': report shows zero events', 'bad' if not num0 and not o.notes else 'unk', q, str(got)[:300])
            else:
                ck.same(tag + ': report shows zero events', num0[0], I_(T.ZERO), q, cmp=cmp(), pre=assume)
            continue
        if assume == 0 or total == T.ZERO:
            continue
        w = run.spec(SPEC, 'spec', [run.alloc(ListV(ws)), I_(num(res[1]))])
        want = w.ret.s.items
        if len(got) == len(want) + 1:
            got = got[:len(want) - 1] + got[len(want):]
        if len(got) != len(want):
            ck.add(tag + ': all quantities are shown', 'bad' if len(got) < len(want) and not o.notes else 'unk', q, f'{len(got)} values shown')
            continue
        if os.environ.get('DBG'):
            for nm, g, x in zip(NAMES, got, want):
                if g != x: print(nm, '\n   ', T.show(g.p, 9) if isinstance(g, N) else g, '\n   ', T.show(x.p, 9) if isinstance(x, N) else x)
        for nm, g, x in zip(NAMES, got, want):
            ck.same(f'{tag}: {nm}', g, x, q, cmp=cmp(), pre=assume)


def sum_of_len(nb, h, L):
    return VV.sum_of(nb, h, 1, ren(I_(L), idx(5), idx(h)).p)
