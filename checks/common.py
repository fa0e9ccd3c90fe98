"""Shared term builders for the contracts."""
from fractions import Fraction
from sa import terms as T
from sa.terms import num
from sa import values as VV
from sa.values import *
from sa import pyeval as P
from sa import pylib
from sa.pyeval import file_int, file_byte
from sa.harness import Run, Check, Missing, Outcome, fresh
from sa.compare import Cmp, norm_out, flatmap
from sa import compare as C
from sa import zone as Z

PT = 'fpfind.lib.parse_timestamps.'
PE = 'fpfind.lib.parse_epochs.'
RES = (('NS1', 1), ('PS125', 8), ('PS4', 256))


def F(name='F'):
    return K(name)


def I_(p):
    return N(num(p), 'int')


def S(s):
    return K(s)


def sym(n, lo=0, hi=None):
    return T.sym(n, True, lo, hi)


def count(n, lo=0, hint=12):
    """an unbounded count; hint limits only the sampling of separating valuations"""
    T.HINT[n] = hint
    return T.sym(n, True, lo, None)


def cfn(n, *a, hint=None):
    T.HINT[n] = hint
    return T.fn(n, *a, isint=True, lo=0, hi=None)


def real(n, lo=None, hi=None):
    return T.sym(n, False, lo, hi)


def res_member(run, name):
    return run.enum('fpfind.lib.constants', 'TSRES', name)


# ---- raw event words
def word(fmt, i, legacy, f):
    if fmt == 'a1':
        if legacy:
            return file_int(f, 8 * i, 4) * 2 ** 32 + file_int(f, 8 * i + 4, 4)
        return file_int(f, 8 * i, 8)
    hx = lambda k, w: T.fn('hexline', f, k, num(w), isint=True, lo=0, hi=16 ** w - 1)
    if fmt == 'a0':
        return hx(2 * i, 8) + hx(2 * i + 1, 8) * 2 ** 32
    return hx(i, 16)


WIDTH = {'a0': 18, 'a1': 8, 'a2': 17}
LINEW = {'a0': 8, 'a1': None, 'a2': 16}


def raw_t(w):
    return T.floor(w * Fraction(1, 1024))


def pat(w):
    return T.mod(w, num(16))


def fmt_t(raw, res, frac):
    """(value, is float)"""
    if frac:
        return raw * Fraction(res, 256)
    return T.floor(raw * Fraction(res, 256))


def event_arrays(fmt, n, first, legacy, f, res, frac, h):
    """(t, p) arrays of n events starting at record `first`"""
    i = idx(h)
    w = word(fmt, first + i, legacy, f)
    t = ArrV(smap(n, 1, h, N(fmt_t(raw_t(w), res, frac), 'f16' if frac else 'u8')), 'f16' if frac else 'u8', None)
    p = ArrV(smap(n, 1, h, N(pat(w), 'u4')), 'u4', None)
    return t, p


def file_cfg(fmt, nrec):
    c = {'size': nrec * WIDTH[fmt]}
    if LINEW[fmt]:
        c['linew'] = LINEW[fmt]
    return {'*': c}


def in_array(name, n, dt, isint=True, lo=None, hi=None, scale=1, h=1):
    return ArrV(smap(n, 1, h, N(T.fn('in:' + name, idx(h), isint=isint, lo=lo, hi=hi) * scale, dt)), dt, None)


def elem_dtypes(v):
    """dtype codes of arrays inside a value"""
    out = []

    def g(x):
        if isinstance(x, ArrV):
            out.append(x.dt)
        elif isinstance(x, Tup):
            for y in x.items:
                g(y)
        elif isinstance(x, Ite):
            g(x.a)
            g(x.b)
    g(v)
    return out


def item(v, i):
    return v.items[i] if isinstance(v, (Tup, Named)) else None


def pick_seq(it, i):
    """i-th components of a sequence of tuples"""
    s = it.s if hasattr(it, 's') else None
    r = smap_elem(s, lambda x: x.items[i] if isinstance(x, Tup) else Unk('batch')) if s is not None else None
    return ListV(r) if r is not None else None


def out_at(o, path):
    """(mode, content) of the written file at constant path"""
    return o.files.get(K(path))


def other_files(o, path):
    return sorted(T.show_any(k) if isinstance(k, V) else str(k) for k in o.files if k != K(path))
