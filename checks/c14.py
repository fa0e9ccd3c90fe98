"""Malformed and truncated epoch files (any file length)."""
from .common import *
from . import c09, c12, bits

T1 = '''
def events(path):
    with open(path, 'rb') as f:
        head = f.read(20)
        if len(head) < 20:
            raise ValueError('short header')
        ts = []
        ps = []
        while True:
            hi = f.read(4)
            lo = f.read(4)
            if len(hi) < 4 or len(lo) < 4:
                raise ValueError('short')
            v = int.from_bytes(hi, 'little') * 2**32 + int.from_bytes(lo, 'little')
            if v == 0:
                break
            ts.append(v // 1024)
            ps.append(v % 16)
    return ts, ps
'''
HEAD = "            raise ValueError('short header')\n"
T2 = c12.SPEC.replace("f.read(24)", "if len(f.read(24)) < 24:\n            raise ValueError('short header')")
T4 = c12.SPEC.replace("f.read(24)", "if len(f.read(20)) < 20:\n            raise ValueError('short header')").replace('t = (epoch % 2**17) * 2**32', 't = 0').replace('t = t + d', 't = t + d - 2')
XB = '''
from fpfind.lib.parse_epochs import extract_bits
def call(m, buffer, size, path, pos):
    with open(path, 'rb') as f:
        f.seek(pos)
        return extract_bits(m, buffer, size, f)
'''


def cut(source):
    """truncate the sampled file at an arbitrary length in two of three samples"""
    def f(val, k):
        source(val, k)
        n = val.fixed['filesize']
        val.finite = 500
        src = val.bytesrc
        if val.h('cutm') % 3:
            m = val.h('cut') % (n + 1) if val.h('cutk') % 2 else max(0, n - 1 - val.h('cut') % 12)
            val.fixed['filesize'] = m
            val.bytesrc = lambda v, p, a: src(v, p, a) if a < m else 0
    return f


def t4source(val, k):
    return c12.source(val, k, 20, 0x104)


def run(ck):
    ck.rule('the reader raises exactly when header or events end early, the terminator carries base bits or a non-zero header count differs; otherwise it returns the events of the file')
    ck.assumptions.append('a file of any length, with any contents')
    for m in range(1, 33):
        ck.guard(f'extract_bits width {m}', lambda m=m: xb(ck, m))
    ck.guard('T1', lambda: one(ck, 'read_T1', T1, {}, c09.source, 20))
    ck.guard('T2', lambda: one(ck, 'read_T2', T2, bits.FINITE, c12.source, 24, signed=True))
    ck.guard('T4', lambda: one(ck, 'read_T4', T4, bits.FINITE, t4source, 20))
    return {}


def xb(ck, m):
    fresh()
    run = Run()
    q = PE + 'extract_bits'
    run.func(q)
    size, buf, pos = sym('size', 0, 63), sym('buffer', 0), count('pos')
    pre = T.lt(buf, T.pow2(size))
    run.I.assume = pre
    o = run.spec(XB, 'call', [I_(m), N(buf, 'int'), N(size, 'int'), F(), N(pos, 'int')], mayraise=True)
    ck.seen(run)
    fs = run.I.filesize(F())
    ck.iff(f'extract_bits width {m}: refused exactly when a word is needed and the file has less than four bytes left', B(T.band(o.rp, pre)).b,
           B(T.band(pre, T.lt(size, num(m)), T.lt(fs - pos, num(4)))).b, q)


def one(ck, name, spec, summaries, source, head, signed=False):
    fresh()
    run = Run(summaries=summaries)
    q = PE + name
    o = run.call(q, [F()])
    epoch, length = file_int(F(), num(4), 4), file_int(F(), num(8), 4)
    args = [F()]
    if head == 24 or name == 'read_T4':
        g = (lambda a: T.wrap_s(file_int(F(), num(a), 4), 32)) if signed else (lambda a: file_int(F(), num(a), 4))
        args += [N(epoch, 'int'), N(g(12), 'int'), N(g(16), 'int')]
    w = run.spec(spec, 'events', args, mayraise=True)
    ck.seen(run)
    ts = item(w.ret, 0).s
    cmp = lambda: Cmp(setup=cut(source))
    agree = T.bor(T.eq0(length), T.eq(length, slen(ts)))
    want = T.bor(w.rp, T.band(T.bnot(w.rp), T.bnot(agree)))
    ck.iff(f'{name}: an error exactly for truncated or contradictory files', B(o.rp).b, B(want).b, q, cmp=cmp())
    pre = T.bnot(T.bor(o.rp, want))
    ck.same(f'{name}: accepted files yield their own number of events', N(seqlen(item(o.ret, 1)), 'int'), N(slen(ts), 'int'), q, cmp=cmp(), pre=pre)
    ck.same(f'{name}: accepted files yield their own detectors', item(o.ret, 1), item(w.ret, 1), q, cmp=cmp(), pre=pre)


def seqlen(v):
    return slen(v.s)
