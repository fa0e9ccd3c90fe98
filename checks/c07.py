"""parse_timestamps.main: the composition of reader, filters, writer and report under a given command line.

The readers/writers/filters themselves are decided by C01-C06; here the block reader is replaced by its contract
(an arbitrary partition of the records into batches), the time filter by its element-wise contract and the two
reports by a token that carries the events handed to them (their contents are decided by C08)."""
from .common import *
from .c03 import record
from .c05 import SPEC as PSPEC

TSPEC = '''
import numpy as np
def tmask(t, start, end, unit):
    return np.array([(start is None or x >= start * unit) and (end is None or x <= end * unit) for x in t])
'''
OUTP, INP = 'OUT', 'IN'


def unit_of(v):
    return v.value if isinstance(v, P.EnumV) else None


def positional(b, i):
    return list(b.values())[i]


def summaries(run, nb):
    I = run.I
    I.load_source('<tmask>', TSPEC, '<tmask>')
    I.load_source('<pmask>', PSPEC, '<pmask>')

    def args4(I, b, st):
        path, leg, res, frac = [I.freeze(v, st) for v in b.values()][:4]
        return P.filekey(path), bit(leg), int(res.value.p.const()), bit(frac)

    def read(fmt):
        def f(I, b, st, ctx, node):
            path, leg, r, frac = args4(I, b, st)
            el = batch(fmt, leg, path, r, frac, T.ZERO, blen(T.ZERO))
            return Tup(tuple(I.alloc(st, x) for x in el.items))
        return f

    def sread(fmt):
        def f(I, b, st, ctx, node):
            path, leg, r, frac = args4(I, b, st)
            el = batch(fmt, leg, path, r, frac, idx(5), blen(idx(5)))
            h = 1 + max(VV.height(el.items[0].s.elem), VV.height(el.items[1].s.elem), 1)
            return Tup((I.alloc(st, GenV(smap(nb, 1, h, ren(el, idx(5), idx(h))))), N(nb, 'int')))
        return f

    def tmask(I, b, st, ctx, node):
        v = list(b.values())
        u = I.freeze(v[3], st).value
        f = I.st0.frames[I.modules['<tmask>']]['tmask']
        return I.call(f, [v[0], v[1], v[2], N(u.p * 10 ** 9, 'int')], {}, st, ctx, node)

    def pmask(I, b, st, ctx, node):
        v = list(b.values())
        m, inv = bit(I.freeze(v[2], st)), bit(I.freeze(v[3], st))
        f = I.st0.frames[I.modules['<pmask>']][('exact', 'exact_inv', 'bits', 'bits_inv')[2 * m + inv]]
        a, c = I.call(f, [v[0], v[1]], {}, st, ctx, node).items
        return Tup((I.alloc(st, I.to_array(I.deref(a, st), 'bool', st, ctx, node)), I.alloc(st, I.to_array(I.deref(c, st), 'u4', st, ctx, node))))

    def stat(I, b, st, ctx, node):
        v = [I.freeze(x, st) for x in b.values()]
        emit(I, st, Opq('report', (P.filekey(v[0]), ListV(smap(T.ONE, 1, height3(v[1], v[2]), Tup((seqof(v[1]), seqof(v[2]))))))))
        return NONE

    def sstat(I, b, st, ctx, node):
        v = [I.freeze(x, st) for x in b.values()]
        r = list(b)
        res = v[r.index('resolution')] if 'resolution' in r else v[3]
        u = res.value.p
        s = v[1].s
        conv = smap_elem(s, lambda x: Tup((ListV(smap_elem(x.items[0].s, lambda e: N(T.div(e.p, u), 'f16'))), ListV(x.items[1].s))))
        emit(I, st, Opq('report', (P.filekey(v[0]), ListV(conv))))
        return NONE
    d = {PT + 'sread_' + f: sread(f) for f in ('a0', 'a1', 'a2')}
    d.update({PT + 'read_' + f: read(f) for f in ('a0', 'a1', 'a2')})
    d[PT + 'get_pattern_mask'] = pmask
    d[PT + 'get_timing_mask'] = tmask
    d[PT + 'print_statistics'] = stat
    d[PT + 'print_statistics_stream'] = sstat
    return d


def seqof(v):
    return ListV(v.s)


def height3(*v):
    return 1 + max(max(VV.height(x) for x in v), 1)


def emit(I, st, v):
    f = st.heap['stdout']
    st.heap['stdout'] = FileV(f.path, f.mode, f.pos, scat([f.out, Lit((v,))]))


def bit(v):
    if isinstance(v, B):
        return v.b == 1
    if isinstance(v, K):
        return bool(v.o)
    if isinstance(v, N) and v.p.const() is not None:
        return v.p.const() != 0
    raise RuntimeError('undetermined flag')


def event(fmt, leg, path, b):
    """(stored count, pattern) of event i of batch b of the file read in this format and word order"""
    a = (path, K(fmt), K(bool(leg) and fmt == 'a1'), b, idx(1))
    return T.fn('in:k', *a, isint=True, lo=0, hi=2 ** 54 - 1), T.fn('in:p', *a, isint=True, lo=0, hi=15)


def batch(fmt, leg, path, r, frac, b, L):
    raw, p = event(fmt, leg, path, b)
    dt = 'f16' if frac else 'u8'
    return Tup((ArrV(smap(L, 1, 1, N(fmt_t(raw, r, frac), dt)), dt, None), ArrV(smap(L, 1, 1, N(p, 'u4')), 'u4', None)))


def blen(b):
    return cfn('in:len', b, hint=7)


def patval(flt):
    """the pattern: any value where only equality matters, fixed masks otherwise"""
    return I_(sym('m', 0, 15))


FLT = [()] + [('p',), ('p', 'm'), ('p', 'i'), ('p', 'm', 'i'), ('s',), ('e',), ('s', 'e'), ('p', 'm', 's', 'e'), ('p', 'm', 'i', 's'), ('p', 'i', 'e'), ('m',), ('i',)]


def run(ck):
    ck.rule('for each command line, the content of the destination is the element-wise selected and reduced event records; the report receives exactly the selected events')
    ck.assumptions += ['an integer/float option value is any integer/real', 'the contracts decided by C04, C06 and C08 stand in for the readers, the time filter and the report']
    for inm in (False, True):
        for a in '012':
            for o in '012':
                ck.guard(f'{a}->{o} inmemory={inm}', lambda x=(inm, a, o, '', ()): one(ck, *x))
        for leg in ('X', 'x', 'Xx'):
            ck.guard(f'1->1 {leg} inmemory={inm}', lambda x=(inm, '1', '1', leg, ()): one(ck, *x))
        ck.guard(f'default output inmemory={inm}', lambda x=(inm, '2', None, 'x', ()): one(ck, *x))
        for f in FLT[1:]:
            for o, pr in (('1', False), ('2', False), (None, True)):
                if o == '2' and len(f) < 3:
                    continue
                ck.guard(f'filter {f} {o} inmemory={inm}', lambda x=(inm, '1', o, 'X', f, pr): one(ck, *x))
        for a in '012':
            ck.guard(f'print {a} inmemory={inm}', lambda x=(inm, a, None, '', (), True): one(ck, *x))
        ck.guard(f'print + destination inmemory={inm}', lambda x=(inm, '1', None, '', (), True, True): one(ck, *x))
    for w in ('no destination', 'bad input format', 'bad output format', 'not a file', 'no input format'):
        ck.guard(w, lambda w=w: refused(ck, w))
    return {}


def cmdline(inm, a, o, leg, flt, pr=False, dest=True):
    opts = [('-A', K(a))]
    if o is not None:
        opts.append(('-a', K(o)))
    for x in leg:
        opts.append(('-' + x, None))
    if pr:
        opts.append(('-p', None))
    opts.append(('-q', None))
    for x in flt:
        opts.append({'p': ('--pfilter-pattern', patval(flt)), 'm': ('--pfilter-mask', None), 'i': ('--pfilter-invert', None),
                     's': ('--tfilter-start', N(real('S'), 'float')), 'e': ('--tfilter-end', N(real('E'), 'float'))}[x])
    if inm:
        opts.append(('--inmemory', None))
    return opts, [K(INP)] + ([K(OUTP)] if dest else [])


def setup_bounds(val, k):
    """bounds near the first stored times, so that both outcomes occur"""
    for s in ('S', 'E'):
        x = val.h(s)
        val.fixed[s] = Fraction(x % 2 ** 56, 2 ** ((x >> 60) % 20)) / 256 / 10 ** 9


def one(ck, inm, a, o, leg, flt, pr=False, dest=None):
    fresh()
    nb = count('nb', 0, 4) if not inm else T.ONE
    assume = T.bpred('isfile', K(INP))
    run = Run(assume=assume)
    run.I.summaries = summaries(run, nb)
    run.I.cmd = cmdline(inm, a, o, leg, flt, pr, (not pr) if dest is None else dest)
    q = PT + 'main'
    tag = ' '.join(f if v is None else f'{f} {T.show_any(v.o) if isinstance(v, K) else "V"}' for f, v in run.I.cmd[0])
    out = run.call(q, [])
    ck.seen(run)
    cmp = lambda: Cmp(real=True, setup=setup_bounds, pre=assume)
    ck.iff(tag + ': no error', B(out.rp).b, 0, q, cmp=cmp(), pre=assume)
    # expected events of batch 5
    fmt, of = 'a' + a, 'a' + (o or '1')
    pathk = K(INP)
    b = idx(5) if not inm else T.ZERO
    L = blen(b)
    raw, pt = event(fmt, 'X' in leg, pathk, b)
    keep, p2 = 1, pt
    if 'p' in flt:
        name = ('exact', 'exact_inv', 'bits', 'bits_inv')[2 * ('m' in flt) + ('i' in flt)]
        sp = run.spec(PSPEC, name, [run.alloc(ListV(smap(L, 1, 1, N(pt, 'int')))), patval(flt)])
        # element-wise: kept events and their patterns
        m0, m = item(sp.ret, 0).s, item(sp.ret, 1).s
        assert isinstance(m, Map) and m.n == L
        keep = ren(m0.elem, idx(m0.h), idx(1)).b
        p2 = ren(m.elem, idx(m.h), idx(1)).p
    if 's' in flt:
        keep = T.band(keep, T.le(real('S') * 10 ** 9 * 256, raw))
    if 'e' in flt:
        keep = T.band(keep, T.le(raw, real('E') * 10 ** 9 * 256))
    if pr:
        tk = smap(L, keep, 1, N(raw * Fraction(1, 256), 'f16'))
        pk = smap(L, keep, 1, N(p2, 'int'))
        el = Tup((ListV(tk), ListV(pk)))
        h = 1 + max(VV.height(tk), VV.height(pk), 1)
        want = ListV(smap(nb, 1, h, ren(el, idx(5), idx(h))))
        ck.ok(not out.files, tag + ': no file is written', q, [T.show_any(x) for x in out.files])
        so = out.stdout
        rep = so.items if isinstance(so, Lit) else None
        if rep is None or len(rep) != 1 or not isinstance(rep[0], Opq) or rep[0].name != 'report':
            ck.add(tag + ': exactly the report is printed', 'bad' if out.st is not None and not out.notes and (rep is None or len(rep) != 1) else 'unk', q, f'standard output: {str(so)[:200]}')
            return
        ck.same(tag + ': reported file', rep[0].args[0], pathk, q)
        got = rep[0].args[1]
        for j, nm in ((0, 'timestamps'), (1, 'patterns')):
            ck.same(f'{tag}: reported {nm}', pick_seq(got, j), pick_seq(want, j), q, cmp=cmp())
        return
    inner = sflat(L, keep, 1, record(of, raw * 1024 + p2, 'x' in leg))
    h = 1 + max(VV.height(inner), 1)
    want = sflat(nb, 1, h, ren(inner, idx(5), idx(h)))
    ck.ok(not other_files(out, OUTP), tag + ': only the destination is written', q, other_files(out, OUTP))
    if out_at(out, OUTP) is None:
        ck.add(tag + ': destination is written', 'unk' if out.notes or out.st is None else 'bad', q, 'destination never opened for writing')
        return
    mode, content = out_at(out, OUTP)
    ck.same(tag + ': stored records', ListV(content), ListV(C.norm_out(want, True)), q, cmp=cmp())
    ck.same(tag + ': nothing on standard output', ListV(out.stdout), ListV(EMPTY), q)


def refused(ck, what):
    fresh()
    run = Run(files=file_cfg('a1', count('nrec', 1, 8)), assume=T.bpred('isfile', K(INP)) if what != 'not a file' else T.bnot(T.bpred('isfile', K(INP))))
    run.I.summaries = summaries(run, count('nb', 0, 4))
    opts, pos = cmdline(False, '1', None, '', ())
    if what == 'no destination':
        pos = pos[:1]
    if what == 'bad input format':
        opts[0] = ('-A', K('3'))
    if what == 'no input format':
        opts = opts[1:]
    if what == 'bad output format':
        opts.append(('-a', K('3')))
    run.I.cmd = opts, pos
    q = PT + 'main'
    out = run.call(q, [])
    ck.seen(run)
    ck.iff(what + ': always ends with an error', B(out.rp).b, run.I.assume, q, pre=run.I.assume)
    ck.ok(not out.files, what + ': nothing is written', q, list(out.files))
