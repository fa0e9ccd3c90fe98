"""Contract of extract_bits (decided by C11) used in place of its body by the T2/T4 analyses."""
from .common import *
from sa.pyeval import filekey


def _conc(val, m, buf, size, f, pos):
    m, buf, size, pos = (int(T.ev(x, val)) for x in (m, buf, size, pos))
    if not (0 <= m <= 64 and size >= 0):
        raise T.Undefined('extract_bits domain')
    n = 0
    if size < m:
        w = 0
        for i in range(4):
            a = num(pos + i)
            w += int(T.EVAL_FN['byte'](val, None, f, a)) << (8 * i)
        buf = (buf << 32) + w
        size += 32
        n = 4
    if size < m:
        raise T.Undefined('extract_bits domain')
    return buf >> (size - m), buf & ((1 << (size - m)) - 1), size - m, n


for _i, _n in enumerate(('xbits', 'xbuf', 'xsize', 'xadv')):
    T.EVAL_FN[_n] = lambda val, at, m, b, s, f, p, i=_i: Fraction(_conc(val, m, b, s, f, p)[i])


def summary(I, b, st, ctx, node):
    v = list(b.values())
    m, buf, size = (I.tonum(I.freeze(x, st)) for x in v[:3])
    ref = v[3] if len(v) > 3 else None
    fv = st.heap.get(ref.id) if isinstance(ref, Ref) else None
    if not isinstance(fv, FileV) or None in (m, buf, size):
        return I.unk('extract_bits arguments', node)
    a = (m.p, buf.p, size.p, filekey(fv.path), fv.pos)
    fn = lambda n: T.fn(n, *a, isint=True, lo=0)
    st.heap[ref.id] = FileV(fv.path, fv.mode, fv.pos + fn('xadv'), fv.out)
    return Tup(tuple(N(fn(n), 'int') for n in ('xbits', 'xbuf', 'xsize')))


SUMMARIES = {PE + 'extract_bits': summary}


def finite(I, b, st, ctx, node):
    """same contract, for files of any length: a short refill raises ValueError"""
    v = list(b.values())
    m, size = I.tonum(I.freeze(v[0], st)), I.tonum(I.freeze(v[2], st))
    fv = st.heap.get(v[3].id) if len(v) > 3 and isinstance(v[3], Ref) else None
    if isinstance(fv, FileV) and m is not None and size is not None:
        short = T.band(T.lt(size.p, m.p), T.lt(I.filesize(filekey(fv.path)) - fv.pos, num(4)))
        I.raise_if(short, P.ExcV('ValueError', ()), st, ctx, node)
    return summary(I, b, st, ctx, node)


FINITE = {PE + 'extract_bits': finite}
