"""Bit extraction from a stream of 32-bit words."""
from .common import *

SPEC = '''
def extract(m, buffer, size, words, nword):
    """bits of (buffer, words...) as one stream"""
    if size < m and words is not None:
        buffer = buffer * 2**32 + nword
        size = size + 32
    rest = 2 ** (size - m)
    return buffer // rest, buffer % rest, size - m
'''


def run(ck):
    ck.rule('returned bits, remaining bits and remaining length equal the quotient and remainder of the (refilled) buffer by the power of two, for every width and fill level')
    ck.assumptions.append('the buffer holds exactly its declared number of bits (0 <= buffer < 2^size), established by the first call with an empty buffer and kept because the returned remainder is a residue modulo 2^size')
    for m in list(range(0, 33)):
        ck.guard(f'width {m}', lambda m=m: one(ck, m))
    ck.guard('symbolic width', lambda: one(ck, None))
    ck.guard('no file', lambda: nofile(ck))
    return {}


def caller(run):
    """fileobject opened and moved to an arbitrary word boundary"""
    src = '''
from fpfind.lib.parse_epochs import extract_bits
def call(m, buffer, size, path, pos):
    with open(path, 'rb') as f:
        f.seek(4 * pos)
        r = extract_bits(m, buffer, size, f)
        return r, f.tell()
'''
    return src


def one(ck, m):
    fresh()
    q = PE + 'extract_bits'
    for lo, hi, tag in ((0, None, 'any fill'),) if m is None else ((0, 31, 'fill<32'), (32, None, 'fill>=32')):
        run = Run(files=ENDLESS)
        mm = num(m) if m is not None else sym('m', 0, 32)
        size = sym('size', lo, hi)
        buf = sym('buffer', 0)
        pre = T.band(T.lt(buf, T.pow2(size)))
        run.I.assume = pre
        pos = count('pos')
        run.func(q)
        o = run.spec(caller(run), 'call', [N(mm, 'int'), N(buf, 'int'), N(size, 'int'), F(), N(pos, 'int')], mayraise=True)
        ck.seen(run)
        ck.functions.add(q)
        t = f'width {m if m is not None else "symbolic"} {tag}'
        ck.iff(t + ': no error', B(T.band(o.rp, pre)).b, 0, q)
        w = run.spec(SPEC, 'extract', [N(mm, 'int'), N(buf, 'int'), N(size, 'int'), K(1), N(file_int(F(), 4 * pos, 4), 'int')])
        r = item(o.ret, 0)
        for i, nm in enumerate(('bits taken', 'remaining bits', 'remaining length')):
            ck.same(f'{t}: {nm}', item(r, i), item(w.ret, i), q, pre=pre)
        ck.same(f'{t}: words consumed', item(o.ret, 1), N(4 * pos + 4 * T.bit(T.lt(size, mm)), 'int'), q, pre=pre)


ENDLESS = {'*': {'endless': True}}


def nofile(ck):
    fresh()
    q = PE + 'extract_bits'
    run = Run()
    m, size, buf = sym('m', 0, 32), sym('size', 0), sym('buffer', 0)
    o = run.call(q, [N(m, 'int'), N(buf, 'int'), N(size, 'int')])
    ck.seen(run)
    pre = T.lt(buf, T.pow2(size))
    ck.iff('without a file: refused exactly when too few bits are buffered', B(T.band(o.rp, pre)).b, B(T.band(pre, T.lt(size, m))).b, q)
    w = run.spec(SPEC, 'extract', [N(m, 'int'), N(buf, 'int'), N(size, 'int'), NONE, I_(0)])
    pre2 = T.band(pre, T.bnot(T.lt(size, m)))
    for i, nm in enumerate(('bits taken', 'remaining bits', 'remaining length')):
        ck.same(f'without a file: {nm}', item(o.ret, i), item(w.ret, i), q, pre=pre2)
