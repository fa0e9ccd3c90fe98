"""Epoch names, first overlapping epoch, concatenation of epochs."""
from .common import *

U = 'fpfind.lib.utils.'

SPEC = '''
import os
def first(d1, d2, first_epoch, bounded):
    a = {int(n, 16) for n in os.listdir(d1)}
    b = {int(n, 16) for n in os.listdir(d2)}
    common = a & b
    if bounded:
        lo = int(first_epoch, 16)
        common = {x for x in common if x >= lo}
    if not common:
        return None, 0
    m = min(common)
    n = 1
    while m + n in common:
        n += 1
    return f"{m:x}", n
'''
CAT = '''
import pathlib
from fpfind.lib.parse_epochs import read_T1, read_T2
def cat1(d, first, skip, n):
    out = []
    for i in range(n):
        out.extend(read_T1(pathlib.Path(d) / f"{int(first, 16) + skip + i:x}")[0])
    return out
def cat2(d, first, skip, n):
    out = []
    for i in range(n):
        out.extend(read_T2(pathlib.Path(d) / f"{int(first, 16) + skip + i:x}")[0])
    return out
'''


def reader(name):
    def f(I, b, st, ctx, node):
        v = list(b.values())
        path = P.filekey(I.freeze(v[0], st))
        # the remaining arguments (unit, float/int output) are part of the token
        key = tuple(I.freeze(x, st) for x in v[1:])
        n = T.fn('in:len' + name, path, isint=True, lo=0)
        h = 1 + VV.height(path)
        T.HINT['in:len' + name] = 3
        t = ArrV(smap(n, 1, h, N(T.fn('in:t' + name, path, *key, idx(h)), 'f16')), 'f16', None)
        p = ArrV(smap(n, 1, h, N(T.fn('in:p' + name, path, idx(h), isint=True, lo=0, hi=15), 'u4')), 'u4', None)
        return Tup((I.alloc(st, t), I.alloc(st, p)))
    return f


SUM = {'fpfind.lib.parse_epochs.read_T1': reader('T1'), 'fpfind.lib.parse_epochs.read_T2': reader('T2')}


def dirs(val, k):
    """small directories with epochs in a narrow range, sometimes disjoint"""
    base = val.h('b', k) % 3
    ns = {n: val.h('dn', n, k) % 6 for n in ('d1', 'd2')}
    spread = (3, 5, 9, 40)[val.h('sp', k) % 4]
    val.fns['dirlen'] = lambda v, d: ns.get(str(d).strip("'"), 0)
    val.fns['epochof'] = lambda v, d, i: 16 + (base if str(d).strip("'") == 'd1' else 0) + val.h('ep', str(d), int(i), k) % spread if str(d).strip("'") in ns else 16 + val.h('fe', str(d), k) % spread


def run(ck):
    ck.rule('the returned name is the smallest common epoch number not below the requested one, the length is the first gap after it; '
            'the timestamps are the concatenation of the epochs first+skip ... first+skip+n-1')
    ck.assumptions.append('the directories hold files named by hexadecimal epoch numbers')
    ck.guard('names', lambda: names(ck))
    for bounded in (0, 1):
        for length in (0, 1):
            ck.guard(f'overlap {bounded} {length}', lambda b=bounded, l=length: overlap(ck, b, l))
    for t in ('T1', 'T2'):
        ck.guard('cat ' + t, lambda t=t: cat(ck, t))
    return {}


def names(ck):
    fresh()
    run = Run()
    for v in (0xba1f36c0, 0x10000000, 0xffffffff, 0xabcdef01):
        o = run.call(PE + 'int2epoch', [I_(v)])
        ck.same(f'name of epoch {v:#x}', o.ret, K(f'{v:x}'), PE + 'int2epoch')
        o = run.call(PE + 'epoch2int', [K(f'{v:x}')])
        ck.same(f'number of epoch {v:x}', o.ret, I_(v), PE + 'epoch2int')
    v = N(sym('v', 0, 2 ** 32 - 1), 'int')
    o = run.call(PE + 'int2epoch', [v])
    if o.ret is not None:
        ck.same('epoch2int inverts int2epoch', run.call(PE + 'epoch2int', [o.ret]).ret, v, PE + 'epoch2int')
    e = Opq('entname', (K('e'), I_(0)))
    n = run.call(PE + 'epoch2int', [e])
    ck.same('epoch2int reads the name as hexadecimal', n.ret, N(T.fn('epochof', K('e'), I_(0), isint=True, lo=0), 'int'), PE + 'epoch2int')
    ck.seen(run)


def overlap(ck, bounded, length):
    fresh()
    run = Run()
    q = U + 'get_first_overlapping_epoch'
    e = Opq('entname', (K('e'), I_(0))) if bounded else NONE
    o = run.call(q, [K('d1'), K('d2')], {'first_epoch': e, 'return_length': B(length)})
    ck.seen(run)
    s = run.spec(SPEC, 'first', [K('d1'), K('d2'), e, B(bounded)])
    want = s.ret if length else item(s.ret, 0)
    cmp = Cmp(setup=dirs)
    nm = f'{"from the requested epoch" if bounded else "all epochs"}{", with length" if length else ""}'
    ck.same(nm, o.ret, want, q, cmp=cmp)
    ck.ok(B(o.rp).b == 0, nm + ': never fails', q, o.raises[:2], bad='unk')


def cat(ck, t):
    fresh()
    run = Run(summaries=SUM)
    q = U + 'get_timestamp'
    run.load('fpfind.lib.utils', 'fpfind.lib.parse_epochs')
    e = Opq('entname', (K('e'), I_(0)))
    a = [K('dir'), K(t), e, N(count('skip', 0, 3), 'int'), N(count('n', 0, 4), 'int')]
    o = run.call(q, a)
    ck.seen(run)
    s = run.spec(CAT, 'cat' + t[1], [a[0], a[2], a[3], a[4]])
    got = ListV(o.ret.s) if isinstance(o.ret, ArrV) else o.ret
    ck.same(f'{t}: concatenation in epoch order', got, s.ret, q)
    ck.ok(isinstance(o.ret, ArrV) and o.ret.dt in ('f16', 'f8', 'float'), f'{t}: float array', q, bad='unk')
    ck.iff(f'{t}: never fails', B(o.rp).b, 0, q)
