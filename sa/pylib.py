"""Abstract models of the Python builtins and library calls used by the analysed code."""
import ast
import re
from fractions import Fraction
from . import terms as T
from .terms import Num, num, BArg
from . import values as VV
from . import zone as Z
from .values import *
from . import pyeval as P
from .pyeval import (Interp, Ctx, Dead, Abort, ModV, FuncV, BMeth, BuiltinV, ClassV, EnumV, PartialV, ExcV, RangeV,
                     SliceV, StarV, OpqSetV, UNDEF, dtcode, is_int_dt, np_result, BITS, FLOATS, INT_RANGE, Opq,
                     filekey, pathjoin, file_byte, file_int, EXC, BUILTINS)

MAXDEPTH = 24
BI = {}          # builtin function models
ME = {}          # methods by name


def bi(*names):
    def d(f):
        for n in names:
            BI[n] = f
        return f
    return d


def me(*names):
    def d(f):
        for n in names:
            ME[n] = f
        return f
    return d


def extend(name):
    def d(f):
        setattr(Interp, name, f)
        return f
    return d


class Call:
    """one library call being modelled"""
    __slots__ = ('I', 'a', 'kw', 'st', 'ctx', 'node', 'name', 'recv')

    def __init__(self, I, a, kw, st, ctx, node, name, recv=None):
        self.I, self.a, self.kw, self.st, self.ctx, self.node, self.name, self.recv = I, a, kw, st, ctx, node, name, recv

    def arg(self, i, key=None, default=None):
        if i is not None and i < len(self.a):
            return self.a[i]
        if key is not None and key in self.kw:
            return self.kw[key]
        return default

    def c(self, v):
        return self.I.deref(v, self.st) if v is not None else None

    def seq(self, v):
        return self.I.toseq(v, self.st, self.ctx, self.node)

    def n(self, v):
        c = self.c(v)
        if isinstance(c, ArrV):
            l = slen(c.s)
            if l.const() == 1:
                c = sget(c.s, T.ZERO)
        return self.I.tonum(c) if c is not None else None

    def alloc(self, x):
        return self.I.alloc(self.st, x)

    def unk(self, why=None):
        return self.I.unk(why or self.name, self.node)

    def fz(self, v):
        return self.I.freeze(v, self.st)

    def opq(self, name=None):
        args = tuple(self.fz(x) for x in self.a) + tuple(Tup((K(k), self.fz(v))) for k, v in sorted(self.kw.items()))
        if self.recv is not None:
            args = (self.fz(self.recv),) + args
        return Opq(name or self.name, args)

    def raise_(self, cls, c=1):
        return self.I.raise_if(c, ExcV(cls, ()), self.st, self.ctx, self.node)


# ------------------------------------------------------------------ calls
@extend('call')
def call(I, f, args, kw, st, ctx, node):
    f = I.resolve(f, st)
    if isinstance(f, Ite):
        return I.choose(f.c, lambda x: I.call(f.a, args, kw, x, ctx, node), lambda x: I.call(f.b, args, kw, x, ctx, node), st)
    if isinstance(f, FuncV):
        return I.call_func(f, args, kw, st, ctx, node)
    if isinstance(f, PartialV):
        return I.call(f.f, list(f.args) + list(args), {**dict(f.kw), **kw}, st, ctx, node)
    if isinstance(f, BMeth):
        if isinstance(f.name, FuncV):
            return I.call_func(f.name, [f.recv] + list(args), kw, st, ctx, node)
        return I.method(f.recv, f.name, args, kw, st, ctx, node)
    if isinstance(f, ClassV):
        return I.construct(f, args, kw, st, ctx, node)
    if isinstance(f, BuiltinV):
        return I.builtin(f.name, args, kw, st, ctx, node)
    if isinstance(f, Unk):
        return f
    if isinstance(f, Opq):
        return Opq('call', (f,) + tuple(I.freeze(a, st) for a in args) +
                   tuple(Tup((K(k), I.freeze(v, st))) for k, v in sorted(kw.items())))
    if isinstance(f, Ref):
        c = st.heap[f.id]
        if isinstance(c, ObjV):
            m = I.class_member(c.cls, '__call__')
            if m is not None:
                return I.call_func(m, [f] + list(args), kw, st, ctx, node)
    return I.unk(f'call of {type(f).__name__}', node)


@extend('bind_args')
def bind_args(I, fi, args, kw, st, ctx, node):
    a = fi.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    pos = list(args)
    if any(isinstance(x, StarV) for x in pos):
        return None
    if len(pos) > len(names):
        if a.vararg is None:
            I.notes.append(('arity', f'{fi.name}() takes {len(names)} positional arguments but {len(pos)} were given',
                            getattr(node, 'lineno', None), I.cur))
            I.raise_(ExcV('TypeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
            raise Dead()
        out[a.vararg.arg] = Tup(tuple(pos[len(names):]))
        pos = pos[:len(names)]
    elif a.vararg is not None:
        out[a.vararg.arg] = Tup(())
    for n, v in zip(names, pos):
        out[n] = v
    extra = {}
    kwn = [x.arg for x in a.kwonlyargs]
    for k, v in kw.items():
        if k == '**':
            continue
        if k in names or k in kwn:
            if k in out:
                I.notes.append(('arity', f'{fi.name}() got multiple values for {k}', getattr(node, 'lineno', None), I.cur))
                I.raise_(ExcV('TypeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
                raise Dead()
            out[k] = v
        elif a.kwarg is not None:
            extra[k] = v
        else:
            I.notes.append(('arity', f'{fi.name}() got an unexpected keyword argument {k}', getattr(node, 'lineno', None), I.cur))
            I.raise_(ExcV('TypeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
            raise Dead()
    if a.kwarg is not None:
        out[a.kwarg.arg] = I.alloc(st, DictV(tuple((K(k), v) for k, v in extra.items())))
    nd = len(fi.defaults)
    for i, n in enumerate(names):
        if n not in out:
            j = i - (len(names) - nd)
            if j >= 0:
                out[n] = fi.defaults[j]
            else:
                I.notes.append(('arity', f'{fi.name}() missing required argument {n}', getattr(node, 'lineno', None), I.cur))
                I.raise_(ExcV('TypeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
                raise Dead()
    for n, d in zip(kwn, fi.kwdefaults):
        if n not in out:
            if d is None:
                I.notes.append(('arity', f'{fi.name}() missing keyword argument {n}', getattr(node, 'lineno', None), I.cur))
                I.raise_(ExcV('TypeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
                raise Dead()
            out[n] = d
    return out


@extend('call_func')
def call_func(I, f, args, kw, st, ctx, node):
    fi = I.funcs[f.uid]
    b = I.bind_args(fi, args, kw, st, ctx, node)
    if b is None:
        return I.unk('star call of ' + fi.name, node)
    q = fi.qual
    I.visited.add(q)
    if q in I.may_raise:
        for ex in I.may_raise[q]:
            I.raise_if(T.bpred('raises', K(q), K(ex), *[I.freeze(v, st) for v in b.values()]), ExcV(ex, ()), st, ctx, node)
    if q in I.summaries:
        I.effect('call', st, (q, {k: I.freeze(v, st) for k, v in b.items()}), node)
        return I.summaries[q](I, b, st, ctx, node)
    if q in I.opaque:
        fb = {k: I.freeze(v, st) for k, v in b.items()}
        I.effect('call', st, (q, fb), node)
        return Opq('call:' + q, tuple(fb[k] for k in sorted(fb)))
    if I.depth >= MAXDEPTH:
        return I.unk('recursion in ' + q, node)
    I.depth += 1
    old = I.cur
    I.cur = q
    fid = ('fr', I.new())
    st.frames[fid] = dict(b)
    c2 = Ctx(fid, fi.mod, fi.name)
    c2.chain = (fid,) + fi.chain
    c2.fnode = fi.node
    hasloc = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) for s in (fi.body if isinstance(fi.body, list) else [fi.body]) for n in ast.walk(s))
    try:
        if fi.gen:
            acc = I.alloc(st, ListV(EMPTY))
            c2.yields = acc.id
            st.frames[fid]['%gen'] = acc
        if isinstance(fi.node, ast.Lambda):
            v = I.ev(fi.body, st, c2)
            ctx.raises += c2.raises
            if not hasloc:
                st.frames.pop(fid, None)
            return v
        s0 = st.fork()
        end = I.block(fi.body, s0, c2)
        outs = []
        for (rs, v, line) in c2.returns:
            rs.frames[fid]['%ret'] = v
            outs.append(rs)
        if end is not None:
            end.frames[fid]['%ret'] = NONE
            outs.append(end)
        for r in c2.raises:
            ctx.raises.append(r)
        outs = [o for o in outs if o.pc != 0]
        if not outs:
            raise Dead()
        j = I.joinall(outs)
        rv = j.frames[fid].pop('%ret')
        if fi.gen:
            c = j.heap[c2.yields]
            rv = I.alloc(j, GenV(c.s)) if isinstance(c, ListV) else Unk('generator')
        if not hasloc:
            j.frames.pop(fid, None)
        st.become(j)
        return I.resolve(rv, st)
    finally:
        I.depth -= 1
        I.cur = old


@extend('class_member')
def class_member(I, uid_, name):
    ci = I.classes.get(uid_)
    if ci is None:
        return None
    if name in ci.methods:
        return ci.methods[name]
    if name in ci.attrs:
        return ci.attrs[name]
    for b in ci.bases:
        for u, c in I.classes.items():
            if c.name == b:
                r = I.class_member(u, name)
                if r is not None:
                    return r
    return None


@extend('construct')
def construct(I, cv, args, kw, st, ctx, node):
    ci = I.classes[cv.uid]
    anc = I.exc_anc(ci.name)
    if 'BaseException' in anc and any(b in EXC for b in anc[1:-2] + ci.bases) or any(b in EXC for b in ci.bases):
        return ExcV(ci.name, tuple(I.freeze(a, st) for a in args))
    if ci.isenum:
        v = I.freeze(args[0], st)
        for n, x in ci.attrs.items():
            if I.freeze(x, st) == v:
                return EnumV(ci.name, n, x)
        return Opq('enum:' + ci.name, (v,))
    if ci.isnt:
        names = tuple(n for n, _ in ci.fields)
        vals = dict(zip(names, args))
        if len(args) > len(names) or any(k not in names for k in kw):
            I.notes.append(('arity', f'{ci.name}(...) arguments', getattr(node, 'lineno', None), I.cur))
            I.raise_(ExcV('TypeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
            raise Dead()
        vals.update(kw)
        for n, d in ci.fields:
            if n not in vals:
                if d is None:
                    I.notes.append(('arity', f'{ci.name}(...) missing {n}', getattr(node, 'lineno', None), I.cur))
                    I.raise_(ExcV('TypeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
                    raise Dead()
                vals[n] = d
        return Named(ci.name, names, tuple(vals[n] for n in names))
    if 'dataclass' in ci.decos:
        names = tuple(n for n, _ in ci.fields)
        vals = dict(zip(names, args))
        vals.update(kw)
        for n, d in ci.fields:
            if n in vals:
                continue
            if isinstance(d, Opq) and d.name == 'field':
                kws = {x.items[0].o: x.items[1] for x in d.args if isinstance(x, Tup)}
                if 'default_factory' in kws:
                    vals[n] = I.call(kws['default_factory'], [], {}, st, ctx, node)
                else:
                    vals[n] = kws.get('default', NONE)
            elif d is None:
                vals[n] = I.unk('missing field ' + n, node)
            else:
                vals[n] = d
        r = I.alloc(st, ObjV(cv.uid, names, tuple(vals[n] for n in names)))
        pi = I.class_member(cv.uid, '__post_init__')
        if pi is not None:
            I.call_func(pi, [r], {}, st, ctx, node)
        return r
    init = I.class_member(cv.uid, '__init__')
    if any(b == '?' or b.split('.')[-1] not in ('object',) and not any(c.name == b for c in I.classes.values()) for b in ci.bases):
        return Opq('instance:' + ci.name, tuple(I.freeze(a, st) for a in args))
    r = I.alloc(st, ObjV(cv.uid, (), ()))
    if init is not None:
        I.call_func(init, [r] + list(args), kw, st, ctx, node)
    return r


# ------------------------------------------------------------------ attributes
MODS = {'numpy', 'sys', 'os', 'os.path', 'struct', 'pathlib', 'bisect', 'math', 'time', 'datetime', 'scipy', 'scipy.fft',
        'tqdm', 'argparse', 'configargparse', 'logging', 'functools', 'inspect', 're', 'warnings', 'secrets', 'boiler',
        'matplotlib', 'matplotlib.pyplot', 'boiler.scriptutil', 'boiler.logging', 'numpy.fft', 'random', 'itertools',
        'collections', 'operator', 'io'}
DATAATTR = {'st_size', 'name', 'stem', 'parent', 'suffix', 'real', 'imag', 'T', 'dtype', 'buffer'}


@extend('getattr')
def getattr_(I, o, attr, st, ctx, node):
    o = I.resolve(o, st)
    if isinstance(o, ModV):
        if I.modpath(o.name):
            if o.name == ctx.mod and False:
                pass
            I.sync(st)
            v = I.attr_of_module(('mod', o.name), attr, st)
            if v is not None:
                return v
            if I.modpath(o.name + '.' + attr):
                return I.import_module(o.name + '.' + attr, st)
            I.notes.append(('no-attribute', f'{o.name}.{attr}', getattr(node, 'lineno', None), I.cur))
            return Unk(f'{o.name}.{attr}')
        full = o.name + '.' + attr
        if full in MODS:
            return ModV(full)
        if o.name == 'sys' and attr in ('stdout', 'stderr', 'stdin', 'argv'):
            return Opq('sys.' + attr, ())
        return I.ext(full)
    if isinstance(o, BuiltinV):
        return BuiltinV(o.name + '.' + attr)
    if isinstance(o, EnumV):
        if attr == 'value':
            return o.value
        if attr == 'name':
            return K(o.name)
    if isinstance(o, ClassV):
        ci = I.classes[o.uid]
        if ci.isenum and attr in ci.attrs:
            return EnumV(ci.name, attr, ci.attrs[attr])
        m = I.class_member(o.uid, attr)
        if m is not None:
            return m
        if attr == '__name__':
            return K(ci.name)
        if attr == '_fields':
            return Tup(tuple(K(n) for n, _ in ci.fields))
        return BMeth(o, attr)
    if isinstance(o, Ite):
        return I.choose(o.c, lambda x: I.getattr(o.a, attr, x, ctx, node), lambda x: I.getattr(o.b, attr, x, ctx, node), st)
    c = I.deref(o, st)
    if isinstance(c, Named):
        if attr in c.names:
            return c.items[c.names.index(attr)]
        if attr == '_fields':
            return Tup(tuple(K(n) for n in c.names))
        for u, ci in I.classes.items():
            if ci.name == c.cname:
                m = I.class_member(u, attr)
                if isinstance(m, FuncV):
                    if I.funcs[m.uid].deco == 'property':
                        return I.call_func(m, [o], {}, st, ctx, node)
                    return BMeth(o, m)
        return BMeth(o, attr)
    if isinstance(c, ObjV):
        if attr in c.names:
            return c.items[c.names.index(attr)]
        m = I.class_member(c.cls, attr)
        if isinstance(m, FuncV):
            if I.funcs[m.uid].deco == 'property':
                return I.call_func(m, [o], {}, st, ctx, node)
            if I.funcs[m.uid].deco == 'staticmethod':
                return m
            return BMeth(o, m)
        if m is not None:
            return m
        if attr == '__class__':
            return ClassV(c.cls, I.classes[c.cls].name)
        return I.unk('attribute ' + attr, node)
    if isinstance(c, ArrV):
        if attr == 'size':
            n = slen(c.s)
            return N(n * (c.ncol or 1), 'int')
        if attr == 'shape':
            n = N(slen(c.s), 'int')
            return Tup((n,) if c.ncol is None else (n, N(num(c.ncol), 'int')))
        if attr == 'ndim':
            return N(num(1 if c.ncol is None else 2), 'int')
        if attr == 'dtype':
            return Opq('dtype', (K(c.dt),))
        if attr == 'itemsize':
            return N(num(itemsize(c.dt)), 'int')
        if attr == 'T' and c.ncol is None:
            return o
        if attr == 'nbytes':
            return N(slen(c.s) * (c.ncol or 1) * itemsize(c.dt), 'int')
        return BMeth(o, attr)
    if isinstance(c, Opq):
        return I.opq_attr(c, attr, st, ctx, node)
    if isinstance(c, N) and attr in ('real',):
        return c
    if isinstance(c, N) and attr == 'size':
        return N(T.ONE, 'int')
    if isinstance(c, N) and attr == 'ndim':
        return N(T.ZERO, 'int')
    if isinstance(c, Unk):
        return c
    if isinstance(c, ExcV):
        return Opq('exc.' + attr, (K(c.cls),) + c.args)
    if isinstance(c, FuncV):
        if attr in ('__name__',):
            return K(I.funcs[c.uid].name)
        if attr == '__doc__':
            return K(None)
        return BMeth(c, attr)
    return BMeth(o, attr)


def itemsize(dt):
    return {'u1': 1, 'i1': 1, 'bool': 1, 'u2': 2, 'i2': 2, 'u4': 4, 'i4': 4, 'f4': 4, 'f16': 16}.get(dt, 8)


@extend('opq_attr')
def opq_attr(I, c, attr, st, ctx, node):
    if c.name == 'args':
        return I.arg_value(attr, node, st, ctx)
    if c.name == 'stat' and attr == 'st_size':
        return N(I.filesize(c.args[0]), 'int')
    if c.name in ('sys.stdin', 'sys.stdout', 'sys.stderr') and attr == 'buffer':
        return c
    if attr in ('size', 'ndim', 'length'):
        return N(T.fn('attr.' + attr, c, isint=True, lo=0), 'int')
    if isinstance(c, Opq) and c.name == 'dirent' and attr in ('name', 'stem'):
        return Opq('entname', c.args)
    if attr in DATAATTR:
        return Opq('attr', (c, K(attr)))
    return BMeth(c, attr)


@extend('arg_value')
def arg_value(I, dest, node, st=None, ctx=None):
    if dest in I.argspec:
        return I.argspec[dest]
    if I.cmd is not None:
        if dest in I.cmdvals:
            return I.cmdvals[dest]
        I.notes.append(('undeclared-option', dest, getattr(node, 'lineno', None), I.cur))
        I.raise_(ExcV('AttributeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
        raise Dead()
    d = I.argdefs.get(dest)
    if d is None:
        I.notes.append(('undeclared-option', dest, getattr(node, 'lineno', None), I.cur))
        return Opq('arg', (K(dest),))
    flags, kw = d
    act = kw.get('action')
    act = act.o if isinstance(act, K) else None
    if act == 'store_true':
        return B(T.bpred('flag', K(dest)))
    if act == 'store_false':
        return B(T.bnot(T.bpred('flag', K(dest))))
    ty = kw.get('type')
    tn = ty.name if isinstance(ty, BuiltinV) else None
    if act == 'count' or tn == 'int':
        v = N(T.sym(('arg', dest), True, 0 if act == 'count' else None, None), 'int')
    elif tn == 'float':
        v = N(T.sym(('arg', dest), False), 'float')
    else:
        v = Opq('arg', (K(dest),))
    pos = not flags[0].startswith('-')
    nargs = kw.get('nargs')
    req = kw.get('required')
    if isinstance(nargs, K) and nargs.o in ('+', '*'):
        return OpqArgList(v, dest)
    if (pos and not (isinstance(nargs, K) and nargs.o == '?')) or (isinstance(req, B) and req.b == 1):
        return v
    if 'default' in kw and not (isinstance(kw['default'], K) and kw['default'].o is None) or act == 'count':
        return v
    return vite(T.bpred('argnone', K(dest)), NONE, v)


def OpqArgList(v, dest):
    return Opq('arglist', (K(dest),))


@extend('setattr')
def setattr_(I, o, attr, v, st, ctx, node):
    c = I.deref(o, st)
    if isinstance(o, Ref) and isinstance(c, ObjV):
        if attr in c.names:
            i = c.names.index(attr)
            st.heap[o.id] = ObjV(c.cls, c.names, c.items[:i] + (v,) + c.items[i + 1:])
        else:
            st.heap[o.id] = ObjV(c.cls, c.names + (attr,), c.items + (v,))
        return
    if isinstance(c, Opq) and c.name == 'args':
        I.argspec[attr] = I.freeze(v, st)
        return
    I.effect('setattr', st, (I.freeze(o, st), attr), node)


# ------------------------------------------------------------------ indexing
def nconst(v):
    if isinstance(v, N):
        c = v.p.const()
        if c is not None and c.denominator == 1:
            return int(c)
    if isinstance(v, B) and v.b in (0, 1):
        return v.b
    return None


def retag(v, dt):
    return N(v.p, dt) if isinstance(v, N) and dt in BITS or isinstance(v, N) and dt in ('f4', 'f8', 'f16') else v


@extend('getitem')
def getitem(I, o, i, st, ctx, node):
    o = I.resolve(o, st)
    i = I.resolve(i, st) if isinstance(i, V) else i
    if isinstance(o, Ite):
        return I.choose(o.c, lambda x: I.getitem(o.a, i, x, ctx, node), lambda x: I.getitem(o.b, i, x, ctx, node), st)
    c = I.deref(o, st)
    if isinstance(c, Ite):
        return vite(c.c, I.getitem(c.a, i, st, ctx, node), I.getitem(c.b, i, st, ctx, node))
    if isinstance(c, Unk):
        return c
    if isinstance(c, DictV):
        fi = I.freeze(i, st)
        for k, v in c.items:
            if k == fi:
                return v
        conds = []
        for k, v in c.items:
            x = I.compare('Eq', i, k, st, ctx, node)
            if not isinstance(x, B):
                return I.unk('dict key', node)
            conds.append((x.b, v))
        I.raise_if(T.bnot(T.bor(*[x for x, _ in conds])) if conds else 1, ExcV('KeyError', ()), st, ctx, node)
        r = conds[-1][1]
        for x, v in reversed(conds[:-1]):
            r = vite(x, v, r)
        return r
    if isinstance(i, SliceV):
        return I.view(I.getslice(o, c, i, st, ctx, node), o, st)
    if isinstance(c, ArrV):
        return I.arr_getitem(c, i, st, ctx, node)
    n = I.tonum(I.deref(i, st))
    if isinstance(c, K) and isinstance(c.o, str) and n is not None and n.p.const() is not None:
        k = int(n.p.const())
        if -len(c.o) <= k < len(c.o):
            return K(c.o[k])
        I.raise_(ExcV('IndexError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
        raise Dead()
    if isinstance(c, (Tup, Named, ListV)):
        s = Lit(c.items) if not isinstance(c, ListV) else c.s
        if n is None:
            return I.unk('index', node)
        k = n.p.const()
        if isinstance(s, Lit):
            if k is not None:
                if -len(s.items) <= k < len(s.items):
                    return I.thaw(s.items[int(k)], st)
                I.raise_(ExcV('IndexError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
                raise Dead()
            # selection by a bit
            if s.items:
                I.raise_if(T.bnot(T.band(T.le(num(-len(s.items)), n.p), T.lt(n.p, num(len(s.items))))), ExcV('IndexError', ()), st, ctx, node)
                if not all(isinstance(x, N) and x.p.const() is not None for x in s.items):
                    return I.thaw(VV.pick(s.items, n.p, st.pc), st)
        I.bounds(s, n.p, st, ctx, node)
        return I.thaw(sget(s, n.p), st)
    if isinstance(c, Bytes) and n is not None and n.p.const() is not None:
        k = int(n.p.const())
        if k < 0:
            k += c.n
        return N(T.mod(T.floor(c.v * Fraction(1, 256 ** k)), num(256)), 'int')
    if isinstance(c, Chunk) and n is not None and c.kind == 'b':
        if n.p.const() is not None and n.p.const() < 0:
            return N(file_byte(c.file, c.addr + I.chunklen(c) + n.p), 'int')
        I.raise_if(T.bnot(T.lt(n.p, I.chunklen(c))), ExcV('IndexError', ()), st, ctx, node)
        return N(file_byte(c.file, c.addr + n.p), 'int')
    if isinstance(c, (Opq, ExitV, MuV, Fmt)):
        return Opq('item', (c, I.freeze(n if n is not None else i, st)))
    if isinstance(c, ClassV):
        ci = I.classes[c.uid]
        if ci.isenum and isinstance(i, K) and i.o in ci.attrs:
            return EnumV(ci.name, i.o, ci.attrs[i.o])
        return c
    if isinstance(c, BuiltinV):
        return c
    if isinstance(c, GenV):
        I.notes.append(('type-error', 'generator is not subscriptable', getattr(node, 'lineno', None), I.cur))
    if isinstance(c, N):
        I.notes.append(('type-error', 'number is not subscriptable', getattr(node, 'lineno', None), I.cur))
    return I.unk(f'index of {type(c).__name__}', node)


@extend('bounds')
def bounds(I, s, p, st, ctx, node):
    """IndexError when position p is outside s"""
    n = slen(s)
    k = p.const()
    if k is not None and k < 0:
        bad = T.lt(n, num(-k))
    else:
        bad = T.le(n, p)
    if bad != 0:
        I.raise_if(bad, ExcV('IndexError', ()), st, ctx, node)


@extend('arr_getitem')
def arr_getitem(I, c, i, st, ctx, node):
    if isinstance(i, Tup):
        if len(i.items) == 2 and c.ncol is not None:
            r, col = i.items
            k = nconst(col)
            if k is None:
                kk = I.tonum(I.deref(col, st))
                if kk is None:
                    return I.unk('column index', node)
                pick = lambda x: self_pick(I, x, kk.p, c.ncol)
            else:
                if not -c.ncol <= k < c.ncol:
                    I.raise_(ExcV('IndexError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
                    raise Dead()
                pick = lambda x: x.items[k]
            s = smap_elem(c.s, pick)
            if s is None:
                return I.unk('column', node)
            a = ArrV(s, c.dt, None)
            if isinstance(r, SliceV) and r.a == NONE and r.b == NONE and r.step == NONE:
                return I.alloc(st, a)
            return I.getitem(I.alloc(st, a), r, st, ctx, node)
        return I.unk('multi-dimensional index', node)
    ci = I.deref(i, st)
    if isinstance(ci, ArrV):
        if ci.dt == 'bool':
            return I.mask_get(c, ci, st, ctx, node)
        return I.gather(c, VV.derange(ci.s), st, ctx, node)
    if isinstance(ci, ListV):
        return I.gather(c, ci.s, st, ctx, node)
    n = I.tonum(ci)
    if n is None:
        return I.unk('array index', node)
    I.bounds(c.s, n.p, st, ctx, node)
    v = sget(c.s, n.p)
    if isinstance(v, Tup):
        return I.alloc(st, ArrV(Lit(v.items), c.dt, None))
    return retag(v, c.dt)


def self_pick(I, x, p, n):
    r = x.items[n - 1]
    for j in range(n - 2, -1, -1):
        r = vite(T.eq(p, num(j)), x.items[j], r)
    return r


@extend('mask_get')
def mask_get(I, c, m, st, ctx, node):
    r = szip([c.s, m.s], lambda t: Tup((t[0], t[1])))
    if r is None:
        return I.alloc(st, ArrV(OpqSeq('maskget', (c, m)), c.dt, c.ncol))

    def go(s):
        if isinstance(s, Cat):
            return scat([go(x) for x in s.parts])
        if isinstance(s, Guard):
            return sguard(s.c, go(s.s))
        if isinstance(s, IteS):
            return site(s.c, go(s.a), go(s.b))
        if isinstance(s, Flat):
            t, q = VV._open(s.h, s.seq)
            x = go(q)
            H = 1 + max(height(x), VV._hexcept(BArg(s.pred), s.h))
            return sflat(s.n, ren(s.pred, idx(s.h), idx(H)), H, ren(x, t, idx(H)))
        q = sfilter(s, lambda e: e.items[1].b if isinstance(e.items[1], B) else T.bnot(T.eq0(I.tonum(e.items[1]).p)))
        if q is None:
            return None
        return smap_elem(q, lambda e: e.items[0])
    try:
        q = go(r)
    except AttributeError:
        q = None
    if q is None:
        return I.alloc(st, ArrV(OpqSeq('maskget', (c, m)), c.dt, c.ncol))
    return I.alloc(st, ArrV(q, c.dt, c.ncol))


@extend('gather')
def gather(I, c, s, st, ctx, node):
    c = ArrV(as_map(VV.derange(c.s)), c.dt, c.ncol)
    def at(x):
        n = I.tonum(x)
        if n is None:
            return Unk('gather')
        return retag(sget(c.s, n.p), c.dt)
    q = smap_elem(s, at)
    if q is None:
        return I.alloc(st, ArrV(OpqSeq('gather', (c, s)), c.dt, c.ncol))
    return I.alloc(st, ArrV(q, c.dt, c.ncol))


@extend('getslice')
def getslice(I, o, c, i, st, ctx, node):
    step = nconst(i.step) if i.step != NONE else 1
    if isinstance(c, K) and isinstance(c.o, str):
        a, b = nconst(i.a), nconst(i.b)
        if (i.a == NONE or a is not None) and (i.b == NONE or b is not None) and step is not None:
            return K(c.o[a:b:step])
        return Opq('strslice', (c, I.freeze(i.a, st), I.freeze(i.b, st)))
    if isinstance(c, Fmt) and isinstance(c.parts[0], str) and i.b == NONE and step == 1 and nconst(i.a) is not None \
            and 0 <= nconst(i.a) <= len(c.parts[0]):
        return fmt_join([c.parts[0][int(nconst(i.a)):]] + list(c.parts[1:]))
    if isinstance(c, (Tup, Named)):
        a, b = nconst(i.a), nconst(i.b)
        if (i.a == NONE or a is not None) and (i.b == NONE or b is not None) and step is not None:
            return Tup(c.items[a:b:step])
        return I.unk('tuple slice', node)
    if isinstance(c, Bytes):
        a, b = nconst(i.a) or 0, nconst(i.b) if i.b != NONE else c.n
        if a < 0:
            a += c.n
        if b < 0:
            b += c.n
        b = min(b, c.n)
        if step == 1 and b >= a:
            return Bytes(b - a, T.mod(T.floor(c.v * Fraction(1, 256 ** a)), num(256 ** (b - a))))
        if step == -1 and i.a == NONE and i.b == NONE:
            v = T.ZERO
            for k in range(c.n):
                v = v + T.mod(T.floor(c.v * Fraction(1, 256 ** k)), num(256)) * 256 ** (c.n - 1 - k)
            return Bytes(c.n, v)
        return I.unk('bytes slice', node)
    if isinstance(c, Chunk):
        if step != 1:
            return I.unk('chunk slice step', node)
        a = I.tonum(i.a) if i.a != NONE else N(T.ZERO, 'int')
        ln = I.chunklen(c)
        if a.p.const() is not None and a.p.const() < 0:
            a = N(ln + a.p, 'int')
        if i.b == NONE:
            n = (c.n if c.n.const() != -1 else ln) - a.p
            return Chunk(c.file, c.addr + a.p, n, c.kind)
        b = I.tonum(i.b)
        if b.p.const() is not None and b.p.const() < 0:
            b = N(ln + b.p, 'int')
        nn = b.p - a.p
        return Chunk(c.file, c.addr + a.p, T.minv(nn, (c.n if c.n.const() != -1 else ln) - a.p), c.kind)
    if isinstance(c, Fmt) and isinstance(c.parts[0], str) and step == 1 and i.b == NONE:
        k = nconst(i.a) if i.a != NONE else 0
        if k is not None and 0 <= k <= len(c.parts[0]):
            return fmt_join([c.parts[0][int(k):]] + list(c.parts[1:]))
    if isinstance(c, (Opq, Fmt, ExitV, MuV)):
        return Opq('slice', (c, I.freeze(i.a, st), I.freeze(i.b, st), I.freeze(i.step, st)))
    s = c.s if isinstance(c, (ListV, ArrV)) else I.toseq(o, st, ctx, node)
    if s is None:
        return I.unk('slice', node)
    r = I.seqslice(s, i, st, step, node)
    if r is None:
        return I.unk('slice', node)
    if isinstance(c, ArrV):
        return I.alloc(st, ArrV(r, c.dt, c.ncol))
    return I.alloc(st, ListV(r))


@extend('seqslice')
def seqslice(I, s, i, st, step, node):
    if step == -1 and i.a == NONE and i.b == NONE:
        return Lit(tuple(reversed(s.items))) if isinstance(s, Lit) else (s.s if isinstance(s, Rev) else Rev(s))
    a = I.tonum(I.deref(i.a, st)) if i.a != NONE else N(T.ZERO, 'int')
    b = I.tonum(I.deref(i.b, st)) if i.b != NONE else None
    if a is None or (b is None and i.b != NONE):
        return None
    if step == -1 and (i.a == NONE or T.nonneg(a.p)) and (b is None or T.nonneg(b.p)):
        r = sslice(s, T.ZERO if b is None else b.p + 1, NONE if i.a == NONE else a.p + 1)
        return Lit(tuple(reversed(r.items))) if isinstance(r, Lit) else Rev(r)
    if step is not None and step > 1:
        k = a.p.const()
        if k is None or k < 0 or i.b != NONE:
            return None
        if isinstance(s, Lit):
            return Lit(s.items[int(k)::step])
        if isinstance(s, Flat) and isinstance(s.seq, Lit) and len(s.seq.items) == step and s.pred == 1 and k < step:
            return smap(s.n, 1, s.h, s.seq.items[int(k)])
        n = slen(s)
        m = T.floor((n - k + (step - 1)) * Fraction(1, step))
        h = 1 + height(s)
        return smap(clamp0(m), 1, h, sget(s, num(k) + step * idx(h)))
    if step != 1:
        return None
    return sslice(s, a.p, NONE if b is None else b.p)


@extend('setitem')
def setitem(I, o, i, v, st, ctx, node):
    o = I.resolve(o, st)
    c = I.deref(o, st)
    if isinstance(c, Opq):
        I.effect('setitem', st, (c, I.freeze(i, st), I.freeze(v, st)), node)
        return
    if not isinstance(o, Ref):
        I.unk('item assignment', node)
        return
    I.mutate(o, st, node)
    st.heap[o.id] = I.stored(c, i, v, st, ctx, node)


@extend('stored')
def stored(I, c, i, v, st, ctx, node):
    if isinstance(c, DictV):
        k = I.freeze(i, st)
        items = [(a, b) for a, b in c.items if a != k]
        return DictV(tuple(items) + ((k, v),))
    if isinstance(c, ListV):
        n = I.tonum(I.deref(i, st)) if not isinstance(i, SliceV) else None
        if n is None:
            return I.unk('list slice store', node)
        I.bounds(c.s, n.p, st, ctx, node)
        return ListV(sstore(c.s, n.p, I.freeze(v, st), st.pc) if isinstance(c.s, Lit) else I.store1(c.s, n.p, I.freeze(v, st)))
    if isinstance(c, ArrV):
        cv = I.deref(v, st)
        if isinstance(i, SliceV):
            step = nconst(i.step) if i.step != NONE else 1
            a = I.tonum(I.deref(i.a, st)) if i.a != NONE else N(T.ZERO, 'int')
            b = I.tonum(I.deref(i.b, st)) if i.b != NONE else None
            if a is None or (i.b != NONE and b is None) or step is None or step < 1:
                return I.unk('slice store', node)
            if step == 1:
                return I.store_range(c, a.p, slen(c.s) if b is None else b.p, cv, st, node)
            k = a.p.const()
            if i.b == NONE and k is not None and 0 <= k < step:
                return I.store_stride(c, int(k), step, cv, st, node)
            return I.unk('strided store', node)
        if isinstance(i, Tup):
            if len(i.items) == 2 and c.ncol is not None and isinstance(i.items[0], SliceV) and nconst(i.items[1]) is not None \
                    and i.items[0].a == NONE and i.items[0].b == NONE:
                k = nconst(i.items[1])

                def put(r, x):
                    it = list(r.items)
                    it[k] = I.cast1(x, 'f8', c.dt)
                    return Tup(tuple(it))
                if isinstance(cv, ArrV):
                    s = szip([c.s, cv.s], lambda t: put(t[0], t[1]))
                else:
                    s = smap_elem(c.s, lambda r: put(r, cv))
                return ArrV(s, c.dt, c.ncol) if s is not None else I.unk('column store', node)
            return I.unk('2-d store', node)
        ci = I.deref(i, st)
        if isinstance(ci, ArrV) and ci.dt == 'bool':
            if isinstance(cv, ArrV):
                return I.unk('masked array store', node)
            w = I.cast1(cv, 'f8', c.dt)
            s = szip([c.s, ci.s], lambda t: vite(t[1].b, w, t[0]) if isinstance(t[1], B) else Unk('mask'))
            return ArrV(s, c.dt, c.ncol) if s is not None else I.unk('masked store', node)
        n = I.tonum(ci)
        if n is None:
            return I.unk('array store index', node)
        I.bounds(c.s, n.p, st, ctx, node)
        w = I.cast1(cv, getattr(cv, 'dt', 'f8'), c.dt)
        return ArrV(I.store1(c.s, n.p, w), c.dt, c.ncol)
    return I.unk(f'item assignment to {type(c).__name__}', node)


@extend('store1')
def store1(I, s, p, v):
    k = p.const()
    if isinstance(s, Lit) and k is not None and -len(s.items) <= k < len(s.items):
        it = list(s.items)
        it[int(k)] = v
        return Lit(tuple(it))
    if k is not None and k < 0:
        p = slen(s) + p
    if isinstance(s, Map) and s.pred == 1 and not tokens((p, v)):
        t, e = VV._open(s.h, s.elem)
        return VV._close(s.n, 1, s.h, t, vite(T.eq(t, p), v, e))
    return sstore(s, p, v)


@extend('store_range')
def store_range(I, c, a, b, cv, st, node):
    n = slen(c.s)
    if b.const() is not None and b.const() < 0:
        b = n + b
    if a.const() is not None and a.const() < 0:
        a = n + a
    if isinstance(c.s, Lit):
        h = 1
        base = None
        if a.const() is not None and b.const() is not None:
            it = list(c.s.items)
            for k in range(int(a.const()), min(len(it), int(b.const()))):
                it[k] = I.cast1(cv, 'f8', c.dt) if not isinstance(cv, ArrV) else sget(cv.s, num(k) - a)
            return ArrV(Lit(tuple(it)), c.dt, c.ncol)
        if not isinstance(cv, ArrV) and len(c.s.items) <= 16 and T.nonneg(a) and T.nonneg(b):
            x = I.cast1(cv, 'f8', c.dt)
            return ArrV(Lit(tuple(vite(T.band(T.le(a, num(k)), T.lt(num(k), b)), x, y) for k, y in enumerate(c.s.items))), c.dt, c.ncol)
        return I.unk('slice store', node)
    if not (isinstance(c.s, Map) and c.s.pred == 1):
        return I.unk('slice store on this array', node)
    s = c.s
    t, e = VV._open(s.h, s.elem)
    cond = T.band(T.le(a, t), T.lt(t, b))
    if isinstance(cv, ArrV):
        w = sget(cv.s, t - a)
        w = I.cast1(w, cv.dt, c.dt)
    else:
        w = I.cast1(cv, 'f8', c.dt)
    return ArrV(VV._close(s.n, 1, s.h, t, vite(cond, w, e)), c.dt, c.ncol)


@extend('store_stride')
def store_stride(I, c, k, step, cv, st, node):
    s = c.s
    if isinstance(s, Map) and s.pred == 1:
        m = s.n * Fraction(1, step)
        if not T.isint(m):
            t, e = VV._open(s.h, s.elem)
            u = T.floor((t - k) * Fraction(1, step))
            if isinstance(cv, ArrV):
                w = sget(cv.s, u)
                w = I.cast1(w, cv.dt, c.dt)
            else:
                w = I.cast1(cv, 'f8', c.dt)
            return ArrV(VV._close(s.n, 1, s.h, t, vite(T.eq(T.mod(t, num(step)), num(k)), w, e)), c.dt, None)
        h = s.h
        s = Flat(m, 1, h, Lit(tuple(ren(s.elem, idx(h), step * idx(h) + j) for j in range(step))))
    if isinstance(s, Flat) and isinstance(s.seq, Lit) and len(s.seq.items) == step and s.pred == 1:
        t, q = VV._open(s.h, s.seq)
        if isinstance(cv, ArrV):
            if not (slen(cv.s) == s.n or T.is_zero(slen(cv.s) - s.n)):
                return I.unk('strided store length', node)
            w = I.cast1(sget(cv.s, t), cv.dt, c.dt)
        else:
            w = I.cast1(cv, 'f8', c.dt)
        it = list(q.items)
        it[k] = w
        x = Lit(tuple(it))
        H = 1 + height(x)
        r = ren(x, t, idx(H))
        return ArrV(sflat(s.n, 1, H, r), c.dt, None)
    return I.unk('strided store', node)


# ------------------------------------------------------------------ arrays
@extend('to_array')
def to_array(I, c, dt, st, ctx, node):
    """content -> ArrV (None dt: infer)"""
    if isinstance(c, ArrV):
        return c if dt is None or dt == c.dt else I.arr_cast(c, dt, st)
    if isinstance(c, Ite):
        a, b = I.to_array(c.a, dt, st, ctx, node), I.to_array(c.b, dt, st, ctx, node)
        return vite(c.c, a, b)
    if isinstance(c, (Tup, Named)):
        s = Lit(c.items)
    elif isinstance(c, (ListV,)):
        s = c.s
    elif isinstance(c, RangeV):
        s = I.toseq(c, st, ctx, node)
    elif isinstance(c, (N, B)):
        return c if dt is None else I.cast1(c, getattr(c, 'dt', 'bool'), dt)
    elif isinstance(c, Opq):
        # opaque array-like: identity as far as values are concerned (cast recorded)
        if dt is None:
            return c
        return Opq('cast', (c, K(dt)))
    else:
        return I.unk(f'array of {type(c).__name__}', node)
    s = I.fseq(s, st)
    ncol = [None]

    def el(x):
        if isinstance(x, (ListV,)) and isinstance(x.s, Lit):
            x = Tup(x.s.items)
        if isinstance(x, ArrV) and isinstance(x.s, Lit):
            x = Tup(x.s.items)
        if isinstance(x, Tup):
            ncol[0] = len(x.items)
        return x
    s2 = smap_elem(s, el)
    if s2 is None:
        return ArrV(OpqSeq('asarray', (s,)), dt or 'f8', None)
    s = s2
    src = I.elem_dt(s)
    if dt is None:
        if src == 'i8|u8':
            I.notes.append(('mixed-int64-uint64', 'integer list beyond int64 becomes float64', getattr(node, 'lineno', None), I.cur))
            src = 'f8'
            return I.arr_cast(ArrV(s, 'O', ncol[0]), 'f8', st)
        return ArrV(s, src, ncol[0])
    return I.arr_cast(ArrV(s, 'O' if src in ('i8', 'i8|u8') else src, ncol[0]), dt, st)


@extend('elem_dt')
def elem_dt(I, s):
    items = []

    def go(x):
        if isinstance(x, Lit):
            items.extend(x.items)
        elif isinstance(x, Map):
            items.append(x.elem)
        elif isinstance(x, Cat):
            for p in x.parts:
                go(p)
        elif isinstance(x, (Guard,)):
            go(x.s)
        elif isinstance(x, IteS):
            go(x.a)
            go(x.b)
        elif isinstance(x, Flat):
            go(x.seq)
        elif isinstance(x, LoopCollect):
            go(x.piece)
            go(x.last)
        elif isinstance(x, (Rev, Sorted)):
            go(x.s)
    go(s)
    fl = []
    for x in items:
        fl += list(x.items) if isinstance(x, Tup) else [x]
    fl2 = []
    for x in fl:
        if isinstance(x, (Opq, ExitV, MuV)):
            fl2.append(N(T.ZERO, 'float'))
        elif isinstance(x, Ite):
            n = I.tonum(x)
            fl2.append(n if n is not None else x)
        else:
            fl2.append(x)
    r = I.guess_dt(fl2)
    return r


def seq_fold(I, s, f):
    """sum over elements of f(elem) -> Num"""
    if isinstance(s, Lit):
        r = T.ZERO
        for x in s.items:
            r = r + f(x)
        return r
    if isinstance(s, Map):
        t, e = VV._open(s.h, s.elem)
        p = f(e)
        H = 1 + max(height(p), VV._hexcept(BArg(s.pred), s.h))
        return sum_of(s.n, H, ren(s.pred, idx(s.h), idx(H)), ren(p, t, idx(H)))
    if isinstance(s, Cat):
        r = T.ZERO
        for p in s.parts:
            r = r + seq_fold(I, p, f)
        return r
    if isinstance(s, Guard):
        return T.ite(s.c, seq_fold(I, s.s, f), T.ZERO)
    if isinstance(s, IteS):
        return T.ite(s.c, seq_fold(I, s.a, f), seq_fold(I, s.b, f))
    if isinstance(s, Flat):
        t, q = VV._open(s.h, s.seq)
        p = seq_fold(I, q, f)
        H = 1 + max(height(p), VV._hexcept(BArg(s.pred), s.h))
        return sum_of(s.n, H, ren(s.pred, idx(s.h), idx(H)), ren(p, t, idx(H)))
    if isinstance(s, (Rev, Sorted)):
        return seq_fold(I, s.s, f)
    if isinstance(s, LoopCollect):
        return T.fn('sumseq', smap_elem(s, lambda x: N(f(x), 'int')), isint=True)
    return T.fn('sumseq', s, isint=False)


T.EVAL_FN['sumseq'] = lambda val, at, s: Fraction(sum(_numev(x) for x in s.ev(val)))


def _numev(x):
    if isinstance(x, (Fraction, int)):
        return x
    raise T.Undefined('sum')


def nz(I, e):
    if isinstance(e, B):
        return T.bit(e.b)
    if isinstance(e, Tup):
        r = T.ZERO
        for x in e.items:
            r = r + nz(I, x)
        return r
    n = I.tonum(e)
    if n is None:
        raise Abort('count of non-number')
    return T.bit(T.bnot(T.eq0(n.p)))


def any_of(I, s, f):
    """bdd: some element with f(elem)"""
    if isinstance(s, Lit):
        return T.bor(*[f(x) for x in s.items]) if s.items else 0
    if isinstance(s, Map):
        from .loops import exists
        t, e = VV._open(s.h, s.elem)
        p = f(e)
        H = 1 + max(height(BArg(p)), VV._hexcept(BArg(s.pred), s.h))
        return exists(s.n, H, T.band(ren(s.pred, idx(s.h), idx(H)), ren(p, t, idx(H))))
    if isinstance(s, Cat):
        return T.bor(*[any_of(I, p, f) for p in s.parts])
    if isinstance(s, Guard):
        return T.band(s.c, any_of(I, s.s, f))
    if isinstance(s, IteS):
        return T.bite(s.c, any_of(I, s.a, f), any_of(I, s.b, f))
    if isinstance(s, Flat):
        from .loops import exists
        t, q = VV._open(s.h, s.seq)
        p = any_of(I, q, f)
        H = 1 + max(height(BArg(p)), VV._hexcept(BArg(s.pred), s.h))
        return exists(s.n, H, T.band(ren(s.pred, idx(s.h), idx(H)), ren(p, t, idx(H))))
    if isinstance(s, (Rev, Sorted, Uniq)):
        return any_of(I, s.s, f)
    return None


@extend('member')
def member(I, a, s, st):
    n = I.tonum(I.deref(a, st) if st is not None else a)
    if n is None:
        return None
    r = P.set_member(s, n.p)
    if r is not None:
        return r

    def f(x):
        y = I.tonum(x)
        if y is None:
            raise Abort('membership')
        return T.eq(n.p, y.p)
    try:
        r = any_of(I, s, f)
    except Abort:
        return None
    if r is None and isinstance(s, OpqSeq) and s.name == 'setof' and not tokens(s):
        return ren(s.args[0].pred, setx(), n.p)
    return T.bpred('memberof', n.p, s) if r is None else r


# ------------------------------------------------------------------ builtins
WRITES_FIRST = ('np.copyto', 'np.put', 'np.place', 'np.putmask', 'np.fill_diagonal', 'np.random.shuffle', 'random.shuffle', 'np.put_along_axis')
NOOP_MODS = ('warnings.', 'logging.', 'plt.', 'matplotlib.', 'boiler.')


@extend('builtin')
def builtin(I, name, args, kw, st, ctx, node):
    f = BI.get(name)
    if f is None and name.startswith('numpy.'):
        name = 'np.' + name[6:]
        f = BI.get(name)
    if name.startswith('np.') and 'out' in kw and isinstance(I.deref(kw['out'], st), ArrV):
        kw = dict(kw)
        dst = kw.pop('out')
        r = I.deref(I.builtin(name, args, kw, st, ctx, node), st)
        d = I.deref(dst, st)
        I.mutate(dst, st, node)
        if isinstance(r, ArrV):
            r = I.arr_cast(r, d.dt, st) if r.dt != d.dt else r
        st.heap[dst.id] = r if isinstance(r, ArrV) else Unk('out')
        return dst
    c = Call(I, list(args), kw, st, ctx, node, name)
    if f is not None:
        return f(c)
    if name in EXC:
        return ExcV(name, tuple(I.freeze(a, st) for a in args))
    if any(name.startswith(m) for m in NOOP_MODS):
        if name == 'logging.getLogger':
            return Opq('logger', ())
        return NONE if not name.startswith('logging.') or name.split('.')[-1] in ('debug', 'info', 'warning', 'error') else Opq(name, ())
    if name in WRITES_FIRST and args and isinstance(args[0], Ref):
        I.mutate(args[0], st, node)
        st.heap[args[0].id] = Unk(f'contents after {name}')
        return NONE
    if name.startswith('np.'):
        x = dtcode(BuiltinV(name))[0]
        if x is not None and len(args) == 1:
            return np_cast(c, x)
        I.effect('opaque', st, (name,), node)
        return c.opq()
    I.effect('opaque', st, (name,), node)
    return c.opq()


def np_cast(c, dt):
    v = c.c(c.a[0])
    if isinstance(v, (ArrV, ListV, Tup)):
        a = c.I.to_array(v, dt, c.st, c.ctx, c.node)
        return c.alloc(a) if isinstance(a, ArrV) else a
    if isinstance(v, (Opq, ExitV, MuV)):
        return Opq('cast', (v, K(dt)))
    return c.I.cast1(v, getattr(v, 'dt', 'bool'), dt)


@bi('len')
def b_len(c):
    v = c.c(c.a[0])
    if isinstance(v, K) and isinstance(v.o, str):
        return N(num(len(v.o)), 'int')
    if isinstance(v, Bytes):
        return N(num(v.n), 'int')
    if isinstance(v, Chunk):
        return N(c.I.chunklen(v), 'int')
    if isinstance(v, (Tup, Named, DictV)):
        return N(num(len(v.items)), 'int')
    if isinstance(v, (ArrV, ListV)):
        return N(slen(v.s), 'int')
    if isinstance(v, Ite):
        a, b = b_len(Call(c.I, [v.a], {}, c.st, c.ctx, c.node, 'len')), b_len(Call(c.I, [v.b], {}, c.st, c.ctx, c.node, 'len'))
        return vite(v.c, a, b)
    if isinstance(v, RangeV):
        return N(slen(c.seq(v)), 'int')
    if isinstance(v, ClassV):
        s = c.seq(v)
        return N(slen(s), 'int') if s is not None else c.unk()
    if isinstance(v, SetV):
        return N(P.setlen(v.pred), 'int')
    if isinstance(v, Opq) and v.name in ('sys.argv', 'sys.argv[1:]') and c.I.cmd is not None:
        return N(num(len(c.I.cmd[1]) + sum(1 + (x is not None) for _, x in c.I.cmd[0]) + (v.name == 'sys.argv')), 'int')
    if isinstance(v, (Opq, ExitV, MuV, Fmt)):
        return N(T.fn('len', v, isint=True, lo=0), 'int')
    if isinstance(v, N):
        c.I.notes.append(('type-error', 'len() of a number', getattr(c.node, 'lineno', None), c.I.cur))
    return c.unk('len')


T.EVAL_FN['len'] = lambda val, at, s: _len_ev(val, s)


def _len_ev(val, s):
    x = s.ev(val)
    if isinstance(x, (list, str)) or isinstance(x, tuple) and not (x and x[0] == 'opq'):
        return Fraction(len(x))
    return Fraction(val.pick(('len', x), True, 0, 6))


@bi('range', 'np.ndindex')
def b_range(c):
    ns = [c.n(x) for x in c.a]
    if any(x is None for x in ns):
        return c.unk('range')
    if len(ns) == 1:
        return RangeV(T.ZERO, ns[0].p, T.ONE)
    if len(ns) == 2:
        return RangeV(ns[0].p, ns[1].p, T.ONE)
    return RangeV(ns[0].p, ns[1].p, ns[2].p)


@bi('enumerate')
def b_enum(c):
    s = c.seq(c.a[0])
    if s is None:
        return c.unk('enumerate')
    st0 = c.n(c.arg(1, 'start', N(T.ZERO, 'int'))).p
    if isinstance(s, Lit):
        return c.alloc(GenV(Lit(tuple(Tup((N(st0 + i, 'int'), x)) for i, x in enumerate(s.items)))))
    if isinstance(s, Map) and s.pred == 1:
        t, e = VV._open(s.h, s.elem)
        return c.alloc(GenV(VV._close(s.n, 1, s.h, t, Tup((N(st0 + t, 'int'), e)))))
    h = 1 + height(s)
    return c.alloc(GenV(smap(slen(s), 1, h, Tup((N(st0 + idx(h), 'int'), sget(s, idx(h)))))))


@bi('zip')
def b_zip(c):
    ss = [c.seq(x) for x in c.a]
    if any(s is None for s in ss):
        return c.unk('zip')
    if not ss:
        return c.alloc(GenV(EMPTY))
    if all(isinstance(s, Lit) for s in ss):
        return c.alloc(GenV(Lit(tuple(Tup(t) for t in zip(*[s.items for s in ss])))))
    r = szip(ss, lambda t: Tup(tuple(t)))
    if r is None:
        n = slen(ss[0])
        for s in ss[1:]:
            n = T.minv(n, slen(s))
        h = 1 + max(height(s) for s in ss)
        r = smap(n, 1, h, Tup(tuple(sget(s, idx(h)) for s in ss)))
    return c.alloc(GenV(r))


@bi('map')
def b_map(c):
    f = c.a[0]
    if len(c.a) != 2:
        z = b_zip(Call(c.I, c.a[1:], {}, c.st, c.ctx, c.node, 'zip'))
        s = c.seq(z)
        g = lambda x: list(x.items)
    else:
        s = c.seq(c.a[1])
        g = lambda x: [x]
    if s is None:
        return c.unk('map')
    return map_call(c, s, lambda x: c.I.freeze(c.I.call(f, [c.I.thaw(y, c.st) for y in g(x)], {}, c.st, c.ctx, c.node), c.st))


def map_call(c, s, f):
    r = smap_elem(s, f)
    return c.alloc(GenV(r)) if r is not None else c.unk('map')


@bi('filter')
def b_filter(c):
    s = c.seq(c.a[1])
    if s is None:
        return c.unk('filter')
    f = c.a[0]
    g = lambda x: c.I.truth(x if f == NONE else c.I.call(f, [c.I.thaw(x, c.st)], {}, c.st, c.ctx, c.node), c.st, c.ctx, c.node)
    r = sfilter(s, g)
    return c.alloc(GenV(r)) if r is not None else c.unk('filter')


@bi('int')
def b_int(c):
    if not c.a:
        return N(T.ZERO, 'int')
    v = c.c(c.a[0])
    base = c.arg(1, 'base')
    if base is not None:
        k = nconst(base)
        if isinstance(v, K) and isinstance(v.o, str) and k is not None:
            try:
                return N(num(int(v.o, k)), 'int')
            except ValueError:
                c.raise_('ValueError')
        if isinstance(v, Opq) and v.name == 'line' and k == 16:
            w = c.I.linew(v.args[0])
            if w:
                return N(T.fn('hexline', v.args[0], v.args[1], num(w), isint=True, lo=0, hi=16 ** w - 1), 'int')
        if isinstance(v, Opq) and v.name == 'entname' and k == 16:
            return N(T.fn('epochof', *v.args, isint=True, lo=0), 'int')
        if isinstance(v, Fmt) and k == 16 and len(v.parts) == 1 and isinstance(v.parts[0][0], N) and isinstance(v.parts[0][1], str) \
                and re.fullmatch(r'0?\d*[xX]', v.parts[0][1]) and T.nonneg(v.parts[0][0].p):
            return N(v.parts[0][0].p, 'int')
        if isinstance(v, Opq) and v.name == 'argstr' and k == 10 and v.args[0].dt == 'int':
            return v.args[0]
        if isinstance(v, (Opq, Fmt)):
            return N(T.fn('intstr', v, num(k) if k is not None else T.ZERO, isint=True), 'int')
        return c.unk('int(str, base)')
    if isinstance(v, K) and isinstance(v.o, str):
        try:
            return N(num(int(v.o)), 'int')
        except ValueError:
            c.raise_('ValueError')
    if isinstance(v, ArrV):
        l = slen(v.s)
        if l.const() == 1:
            v = sget(v.s, T.ZERO)
        else:
            return c.unk('int of array')
    if isinstance(v, Opq) and v.name == 'argstr':
        if v.args[0].dt != 'int':
            c.raise_('ValueError')
        return v.args[0]
    if isinstance(v, Opq) and c.I.strish(v):
        return N(T.fn('intstr', v, num(10), isint=True), 'int')
    if isinstance(v, Fmt):
        return N(T.fn('intstr', v, num(10), isint=True), 'int')
    if isinstance(v, K) and v.o is None:
        c.raise_('TypeError')
    n = c.I.tonum(v)
    if n is None:
        return c.unk('int()')
    return N(n.p if T.isint(n.p) else T.trunc(n.p), 'int')


T.EVAL_FN['intstr'] = lambda val, at, v, b: Fraction(val.pick(('intstr', v.ev(val), T.ev(b, val)), True, None, None))


@extend('strish')
def strish(I, v):
    return isinstance(v, Opq) and (v.name in ('arg', 'line', 'pathjoin', 'path', 'slice', 'strslice', 'entname', 'dirent') or v.name.startswith('str.'))


def parsed(c, f, *a):
    try:
        return f(*a)
    except ValueError:
        c.raise_('ValueError')
        raise Dead()


@bi('float', 'np.float_')
def b_float(c):
    if not c.a:
        return N(T.ZERO, 'float')
    v = c.c(c.a[0])
    if isinstance(v, Opq) and v.name == 'argstr':
        return N(v.args[0].p, 'float')
    if isinstance(v, K) and isinstance(v.o, str):
        if v.o in ('inf', '-inf', 'nan'):
            return Opq('np.' + v.o, ())
        return N(num(parsed(c, float, v.o)), 'float')
    n = c.I.tonum(v)
    if n is None:
        return c.unk('float()')
    return N(c.I.fit(n.p, 'float'), 'float')


@bi('str')
def b_str(c):
    if not c.a:
        return K('')
    v = c.fz(c.a[0])
    if isinstance(v, K) and isinstance(v.o, str) or isinstance(v, Fmt):
        return v
    if isinstance(v, Opq) and v.name in ('arg', 'path', 'pathjoin', 'str'):
        return v
    return fmt_join([(v, '', -1)])


@bi('repr')
def b_repr(c):
    return fmt_join([(c.fz(c.a[0]), '', 'r')])


@bi('bool')
def b_bool(c):
    return B(c.I.truth(c.a[0], c.st, c.ctx, c.node)) if c.a else B(0)


def scalar1(c, f, name):
    v = c.c(c.a[0])
    I = c.I
    if isinstance(v, (ListV, Tup)) and name.startswith('np.'):
        v = I.to_array(v, None, c.st, c.ctx, c.node)
    if isinstance(v, ArrV):
        def g(x):
            n = I.tonum(x)
            return N(f(n.p), n.dt) if n is not None else Unk(name)
        r = smap_elem(v.s, lambda x: Tup(tuple(g(y) for y in x.items)) if isinstance(x, Tup) else g(x))
        if r is None:
            return c.alloc(ArrV(OpqSeq(name, (v,)), v.dt, None))
        return c.alloc(ArrV(r, v.dt, v.ncol))
    n = I.tonum(v)
    if n is None:
        return c.opq()
    return N(f(n.p), n.dt)


@bi('abs', 'np.abs', 'np.absolute', 'np.fabs', 'math.fabs')
def b_abs(c):
    return scalar1(c, T.absv, c.name)


@bi('np.floor', 'math.floor')
def b_floor(c):
    r = scalar1(c, lambda p: p if T.isint(p) else T.floor(p), c.name)
    if c.name.startswith('math') and isinstance(r, N):
        return N(r.p, 'int')
    if isinstance(r, N):
        return N(r.p, 'f8' if r.dt in ('int', 'float') or r.dt in BITS else r.dt)
    return r


@bi('np.ceil', 'math.ceil')
def b_ceil(c):
    r = scalar1(c, lambda p: p if T.isint(p) else -T.floor(-p), c.name)
    if c.name.startswith('math') and isinstance(r, N):
        return N(r.p, 'int')
    if isinstance(r, N):
        return N(r.p, 'f8' if r.dt in ('int', 'float') or r.dt in BITS else r.dt)
    return r


@bi('np.log2', 'math.log2', 'np.log10', 'math.log10', 'np.sqrt', 'math.sqrt', 'np.log', 'math.log', 'np.exp')
def b_log(c):
    nm = c.name.split('.')[-1]

    def f(p):
        k = p.const()
        if nm == 'log2' and k is not None and k > 0 and k.denominator == 1 and (int(k) & (int(k) - 1)) == 0:
            return num(int(k).bit_length() - 1)
        if nm == 'sqrt' and k is not None and k >= 0:
            from math import isqrt
            return num(T._round_bits(Fraction(isqrt(int(k * 4 ** 80)), 2 ** 80), 53)) if isqrt(int(k)) ** 2 != k else num(isqrt(int(k)))
        return T.fn(nm, p)
    r = scalar1(c, f, c.name)
    return N(r.p, 'f8') if isinstance(r, N) else r


@bi('round', 'np.round', 'np.around')
def b_round(c):
    d = c.n(c.arg(1, 'decimals' if c.name != 'round' else 'ndigits'))
    dd = d.p if d is not None else T.ZERO
    isint = d is None and c.name == 'round'

    def f(p):
        if T.isint(p) and (d is None or d.p.const() is not None and d.p.const() >= 0):
            return p
        if p.const() is not None and dd.const() is not None:
            return num(Fraction(_round_const(p.const(), int(dd.const()))))
        return T.fn('rounddec', p, dd, isint=dd == T.ZERO)
    r = scalar1(c, f, c.name)
    return N(r.p, 'int') if isint and isinstance(r, N) else r


def _round_const(x, k):
    return round(x * Fraction(10) ** k) / Fraction(10) ** k


def _ev_rounddec(val, at, p, d):
    x, k = T.ev(p, val), T.ev(d, val)
    return Fraction(_round_const(Fraction(x), int(k)))


T.EVAL_FN['rounddec'] = _ev_rounddec


def minmax(c, ismin):
    I = c.I
    if len(c.a) == 1 and isinstance(c.c(c.a[0]), SetV) and 'key' not in c.kw:
        v = c.c(c.a[0])
        e = T.eq0(P.setlen(v.pred))
        r = N(T.fn('minset' if ismin else 'maxset', BArg(v.pred), isint=True, lo=P.set_lo(v.pred)), 'int')
        if e != 0 and 'default' in c.kw:
            return vite(e, c.kw['default'], r)
        if e != 0:
            I.raise_if(e, ExcV('ValueError', ()), c.st, c.ctx, c.node)
        return r
    if len(c.a) == 1:
        s = c.seq(c.a[0])
        if s is None or 'key' in c.kw:
            return c.opq()
        if isinstance(s, Lit):
            if not s.items:
                if 'default' in c.kw:
                    return c.kw['default']
                c.raise_('ValueError')
            vs = list(s.items)
        else:
            if c.name in ('min', 'max'):
                e = T.eq0(slen(s))
                if e != 0 and 'default' not in c.kw:
                    I.raise_if(e, ExcV('ValueError', ()), c.st, c.ctx, c.node)
            return Opq('min' if ismin else 'max', (s,))
    elif c.name.startswith('np.'):
        s = c.seq(c.a[0])
        return Opq('min' if ismin else 'max', (s,)) if s is not None else c.opq()
    else:
        vs = c.a
    ns = [c.n(x) for x in vs]
    if any(x is None for x in ns):
        return c.opq()
    r = ns[0]
    for x in ns[1:]:
        r = N((T.minv if ismin else T.maxv)(r.p, x.p), r.dt if r.dt == x.dt else join_dt(r.dt, x.dt))
    return r


@bi('min', 'np.min', 'np.amin')
def b_min(c):
    return minmax(c, True)


@bi('max', 'np.max', 'np.amax')
def b_max(c):
    return minmax(c, False)


def _ev_minmax(f):
    def g(val, s):
        l = [_numev(x) for x in s.ev(val)]
        if not l:
            raise T.Undefined('min of empty')
        return f(l)
    return g


P.EVAL_OPQ['min'] = _ev_minmax(min)
P.EVAL_OPQ['max'] = _ev_minmax(max)


COMPLEX_DT = ('c16', 'c32', 'c8')


@bi('np.maximum', 'np.minimum', 'np.fmax', 'np.fmin')
def b_maximum(c):
    return pairwise(c, c.c(c.a[0]), c.c(c.a[1]), 'min' in c.name) if not set(c.kw) and len(c.a) == 2 else c.opq()


def pairwise(c, x, y, ismin):
    if isinstance(x, ArrV) or isinstance(y, ArrV):
        sa, sb = not isinstance(x, ArrV), not isinstance(y, ArrV)
        nx, ny = c.I.tonum(x) if sa else None, c.I.tonum(y) if sb else None
        if sa and nx is None or sb and ny is None or not sa and x.ncol is not None or not sb and y.ncol is not None:
            return c.opq()
        da, db = c.I._dt(x), c.I._dt(y)
        dt = np_result(da, db, sa, sb, nx.p if sa else None, ny.p if sb else None)
        dt = {'int': 'i8', 'float': 'f8'}.get(dt, dt)
        if dt in COMPLEX_DT or dt == 'O':
            return c.opq()

        def f(t):
            t = list(t)
            p = nx if sa else t.pop(0)
            q = ny if sb else t.pop(0)
            p, q = c.I.cast1(p, da, dt), c.I.cast1(q, db, dt)
            p, q = c.I.tonum(p), c.I.tonum(q)
            if p is None or q is None:
                raise Abort('pairwise')
            return N((T.minv if ismin else T.maxv)(p.p, q.p), dt)
        try:
            r = szip(([] if sa else [x.s]) + ([] if sb else [y.s]), f)
        except Abort:
            r = None
        return c.alloc(ArrV(r, dt, None)) if r is not None else c.opq()
    a, b = c.n(x), c.n(y)
    if a is None or b is None:
        return c.opq()
    return N((T.minv if ismin else T.maxv)(a.p, b.p), join_dt(a.dt, b.dt))


@bi('np.mean', 'np.average', 'np.var', 'np.std')
def b_moment(c):
    v = c.c(c.a[0])
    s = c.seq(v) if len(c.a) == 1 and not c.kw and not (isinstance(v, ArrV) and (v.ncol is not None or v.dt in COMPLEX_DT + ('bool', 'O'))) else None
    if s is None:
        return c.opq()

    def el(x):
        x = c.I.tonum(x)
        if x is None:
            raise Abort('moment')
        return x.p
    try:
        w = T.div(T.ONE, slen(s))                  # of an empty array: undefined
        m = seq_fold(c.I, s, el) * w
        if c.name in ('np.mean', 'np.average'):
            return N(m, 'f8')
        r = seq_fold(c.I, s, lambda x: (el(x) - m) * (el(x) - m)) * w
    except (Abort, ZeroDivisionError):
        return c.opq()
    return N(r if c.name == 'np.var' else T.fn('sqrt', r, lo=0), 'f8')


@bi('sum', 'np.sum')
def b_sum(c):
    if set(c.kw) - {'axis', 'start'} or len(c.a) > 2:
        return c.opq()
    s = c.seq(c.a[0])
    if s is None:
        return c.opq()
    v = c.c(c.a[0])
    ax = c.arg(1, 'axis') if c.name == 'np.sum' or len(c.a) < 2 and 'axis' in c.kw else None
    if isinstance(v, ArrV) and v.ncol:
        k = None if ax is None or ax == NONE else nconst(ax)
        if k is None and not (ax is None or ax == NONE):
            return c.opq()

        def row(x):
            xs = [c.I.tonum(y) for y in x.items] if isinstance(x, Tup) else [None]
            if None in xs:
                raise Abort('sum')
            return N(sum((y.p for y in xs), T.ZERO), xs[0].dt)
        try:
            if k in (1, -1):
                if v.dt in ('i4', 'u4', 'i2', 'u2', 'i1', 'u1', 'bool', 'u8'):
                    return c.opq()
                r = smap_elem(v.s, row)
                return c.opq() if r is None else c.alloc(ArrV(r, v.dt, None))
            if k in (0, -2):
                return c.alloc(ArrV(Lit(tuple(N(seq_fold(c.I, v.s, lambda x, j=j: c.I.tonum(x.items[j]).p), v.dt) for j in range(v.ncol))), v.dt, None))
            return N(seq_fold(c.I, v.s, lambda x: row(x).p), v.dt)
        except Abort:
            return c.opq()
    if ax is not None and ax != NONE and nconst(ax) not in (0, -1):
        return c.opq()
    dts = []

    def f(x):
        n = c.I.tonum(x)
        if n is None:
            raise Abort('sum')
        dts.append(n.dt)
        return n.p
    try:
        p = seq_fold(c.I, s, f)
    except Abort:
        return c.opq()
    dt = 'int'
    for d in dts:
        if d in FLOATS:
            dt = 'float'
    if len(c.a) > 1 and c.name == 'sum' or 'start' in c.kw:
        p = p + c.n(c.arg(1, 'start')).p
    return N(p, dt)


@bi('np.count_nonzero')
def b_cnz(c):
    s = c.seq(c.a[0])
    v = c.c(c.a[0])
    if s is None:
        if isinstance(v, B):
            return N(T.bit(v.b), 'int')
        return c.opq()
    try:
        return N(seq_fold(c.I, v.s if isinstance(v, ArrV) else s, lambda e: nz(c.I, e)), 'int')
    except Abort:
        return c.opq()


@bi('any', 'all', 'np.any', 'np.all')
def b_any(c):
    s = c.seq(c.a[0])
    isany = c.name.endswith('any')
    if s is None:
        return B(T.bpred(c.name, c.fz(c.a[0])))

    def f(x):
        t = c.I.truth(x, c.st, c.ctx, c.node)
        return t if isany else T.bnot(t)
    r = any_of(c.I, s, f)
    if r is None:
        r = T.bpred('any', s)
        return B(r if isany else T.bpred('all', s))
    return B(r if isany else T.bnot(r))


@bi('sorted', 'np.sort')
def b_sorted(c):
    v = c.c(c.a[0])
    if isinstance(v, SetV):
        s = OpqSeq('setof', (v,))
    elif isinstance(v, OpqSetV):
        s = Uniq(v.s)
    else:
        s = c.seq(c.a[0])
    if s is None:
        return c.opq()
    if 'key' in c.kw and c.kw['key'] != NONE:
        r = OpqSeq('sortedby', (s, c.fz(c.kw['key'])))
    else:
        r = s if isinstance(s, Sorted) else Sorted(s)
        if isinstance(s, Lit) and len(s.items) <= 1:
            r = s
    rv = c.kw.get('reverse')
    if rv is not None and isinstance(rv, B) and rv.b == 1:
        r = Rev(r)
    if isinstance(v, ArrV) or c.name == 'np.sort':
        return c.alloc(ArrV(r, v.dt if isinstance(v, ArrV) else 'f8', None)) if c.name == 'np.sort' else c.alloc(ListV(r))
    return c.alloc(ListV(r))


@bi('list', 'tuple')
def b_list(c):
    if not c.a:
        return c.alloc(ListV(EMPTY)) if c.name == 'list' else Tup(())
    v = c.c(c.a[0])
    if isinstance(v, SetV):
        s = OpqSeq('setof', (v,))
    else:
        s = c.seq(c.a[0])
    if s is None:
        return c.unk(c.name)
    if c.name == 'tuple':
        return Tup(s.items) if isinstance(s, Lit) else c.alloc(ListV(s))
    return c.alloc(ListV(s))


@bi('set', 'frozenset')
def b_set(c):
    if not c.a:
        return c.alloc(SetV(0))
    v = c.c(c.a[0])
    if isinstance(v, SetV):
        return c.alloc(v)
    s = c.seq(c.a[0])
    if s is None:
        return c.unk('set')
    return c.I.mkset(s, c.st, c.node)


@bi('dict')
def b_dict(c):
    items = []
    if c.a:
        v = c.c(c.a[0])
        if isinstance(v, DictV):
            items += list(v.items)
        else:
            s = c.seq(c.a[0])
            if not isinstance(s, Lit):
                return c.unk('dict')
            items += [(x.items[0], x.items[1]) for x in s.items]
    items += [(K(k), v) for k, v in c.kw.items()]
    return c.alloc(DictV(tuple(items)))


@bi('iter', 'reversed')
def b_iter(c):
    s = c.seq(c.a[0])
    if s is None:
        return c.unk(c.name)
    if c.name == 'reversed':
        s = Lit(tuple(reversed(s.items))) if isinstance(s, Lit) else Rev(s)
        return c.alloc(GenV(s))
    return c.a[0] if isinstance(c.c(c.a[0]), GenV) else c.alloc(GenV(s))


@bi('next')
def b_next(c):
    v = c.c(c.a[0])
    s = c.seq(c.a[0])
    if s is None:
        return c.opq()
    e = T.eq0(slen(s))
    d = c.arg(1)
    if d is None:
        c.raise_('StopIteration', e)
    r = sget(s, T.ZERO)
    if isinstance(c.a[0], Ref) and isinstance(v, GenV):
        c.st.heap[c.a[0].id] = GenV(sslice(s, T.ONE, NONE))
    return c.I.thaw(r, c.st) if d is None else vite(e, d, c.I.thaw(r, c.st))


@bi('divmod')
def b_divmod(c):
    a, b = c.n(c.a[0]), c.n(c.a[1])
    if a is None or b is None:
        return c.unk('divmod')
    I = c.I
    return Tup((I.num_binop('FloorDiv', a, b, c.st, c.ctx, c.node, True, True), I.num_binop('Mod', a, b, c.st, c.ctx, c.node, True, True)))


@bi('pow', 'np.power')
def b_pow(c):
    return c.I.binop('Pow', c.a[0], c.a[1], c.st, c.ctx, c.node)


UF = {'np.bitwise_and': 'BitAnd', 'np.bitwise_or': 'BitOr', 'np.bitwise_xor': 'BitXor', 'np.left_shift': 'LShift',
      'np.right_shift': 'RShift', 'np.add': 'Add', 'np.subtract': 'Sub', 'np.multiply': 'Mult', 'np.divide': 'Div',
      'np.true_divide': 'Div', 'np.floor_divide': 'FloorDiv', 'np.mod': 'Mod', 'np.remainder': 'Mod',
      'np.logical_and': 'BitAnd', 'np.logical_or': 'BitOr', 'np.logical_xor': 'BitXor',
      'operator.and_': 'BitAnd', 'operator.or_': 'BitOr', 'operator.add': 'Add', 'operator.sub': 'Sub'}
UC = {'np.equal': 'Eq', 'np.not_equal': 'NotEq', 'np.less': 'Lt', 'np.less_equal': 'LtE', 'np.greater': 'Gt', 'np.greater_equal': 'GtE'}


@bi(*UF)
def b_uf(c):
    r = c.I.binop(UF[c.name], c.a[0], c.a[1], c.st, c.ctx, c.node)
    if 'dtype' in c.kw:
        d = dtcode(c.kw['dtype'])[0]
        return np_cast(Call(c.I, [r], {}, c.st, c.ctx, c.node, c.name), d)
    return r


@bi(*UC)
def b_uc(c):
    return c.I.compare(UC[c.name], c.a[0], c.a[1], c.st, c.ctx, c.node)


@bi('np.logical_not', 'np.invert', 'np.bitwise_not')
def b_not(c):
    return c.I.unop('Invert', c.a[0], c.st, c.ctx, c.node)


@bi('np.negative')
def b_neg(c):
    return c.I.unop('USub', c.a[0], c.st, c.ctx, c.node)


@bi('hex')
def b_hex(c):
    n = c.n(c.a[0])
    if n is None:
        return c.opq()
    return fmt_join([(N(n.p, 'int'), '#x', -1)])


@bi('bin')
def b_bin(c):
    n = c.n(c.a[0])
    return fmt_join([(N(n.p, 'int'), '#b', -1)]) if n is not None else c.opq()


@bi('format')
def b_format(c):
    sp = c.arg(1)
    sp = sp.o if isinstance(sp, K) else ''
    return fmt_join([(c.fz(c.a[0]), sp, -1)])


@bi('chr', 'ord')
def b_chr(c):
    v = c.c(c.a[0])
    if c.name == 'ord' and isinstance(v, K):
        return N(num(ord(v.o)), 'int')
    k = nconst(v)
    return K(chr(k)) if c.name == 'chr' and k is not None else c.opq()


@bi('isinstance')
def b_isinst(c):
    v = c.c(c.a[0])
    t = c.a[1]
    ts = t.items if isinstance(t, Tup) else [t]
    r = 0
    for x in ts:
        n = x.name.split('.')[-1] if isinstance(x, (BuiltinV, ClassV)) else '?'
        m = None
        if isinstance(v, N):
            m = {'int': v.dt == 'int', 'float': v.dt in ('float', 'f8'), 'integer': v.dt in BITS, 'floating': v.dt in ('f4', 'f8', 'f16'),
                 'str': False, 'list': False, 'ndarray': False, 'tuple': False, 'Number': True, 'bool': False,
                 'generic': v.dt not in ('int', 'float')}.get(n)
        elif isinstance(v, B):
            m = {'bool': True, 'int': True, 'str': False, 'list': False}.get(n)
        elif isinstance(v, (ArrV, ListV, Tup, Named, DictV, FuncV)) or isinstance(v, K):
            ty = {ArrV: 'ndarray', ListV: 'list', Tup: 'tuple', Named: 'tuple', DictV: 'dict', FuncV: 'function'}.get(type(v))
            if isinstance(v, K):
                ty = type(v.o).__name__
            m = n == ty
        elif isinstance(v, ObjV):
            m = isinstance(x, ClassV) and (x.uid == v.cls or I_sub(c.I, v.cls, x.name))
        elif isinstance(v, EnumV):
            m = n == v.cls or n == 'Enum'
        if m is None:
            return B(T.bpred('isinstance', c.fz(v), K(n)))
        r = T.bor(r, int(m))
    return B(r)


def I_sub(I, uid_, name):
    ci = I.classes.get(uid_)
    return ci is not None and name in I.exc_anc(ci.name)


@bi('hasattr')
def b_hasattr(c):
    v, n = c.a[0], c.a[1]
    if isinstance(v, ModV) and v.name == 'numpy' and isinstance(n, K):
        return B(1)
    o = c.c(v)
    if isinstance(o, ObjV) and isinstance(n, K):
        return B(int(n.o in o.names or c.I.class_member(o.cls, n.o) is not None))
    if isinstance(v, FuncV):
        return B(0)
    return B(T.bpred('hasattr', c.fz(v), c.fz(n)))


@bi('getattr')
def b_getattr(c):
    n = c.c(c.a[1])
    if isinstance(n, K):
        return c.I.getattr(c.a[0], n.o, c.st, c.ctx, c.node)
    return c.opq()


@bi('setattr')
def b_setattr(c):
    n = c.c(c.a[1])
    if isinstance(n, K):
        c.I.setattr(c.a[0], n.o, c.a[2], c.st, c.ctx, c.node)
    return NONE


@bi('type')
def b_type(c):
    v = c.c(c.a[0])
    if isinstance(v, ObjV):
        return ClassV(v.cls, c.I.classes[v.cls].name)
    return c.opq()


@bi('callable')
def b_callable(c):
    v = c.c(c.a[0])
    return B(int(isinstance(v, (FuncV, BuiltinV, ClassV, BMeth, PartialV))))


@bi('globals', 'locals', 'vars')
def b_globals(c):
    return Opq('namespace', ())


@bi('super')
def b_super(c):
    return Opq('super', ())


@bi('property', 'staticmethod', 'classmethod', 'functools.wraps', 'functools.lru_cache', 'functools.cache', 'typing.cast')
def b_deco(c):
    if c.name == 'functools.wraps':
        return BuiltinV('%identity')
    return c.a[0] if c.a else BuiltinV('%identity')


@bi('%identity')
def b_ident(c):
    return c.a[0]


@bi('functools.partial')
def b_partial(c):
    return PartialV(c.a[0], tuple(c.a[1:]), tuple(c.kw.items()))


@bi('functools.reduce')
def b_reduce(c):
    s = c.seq(c.a[1])
    if not isinstance(s, Lit):
        return c.opq()
    it = list(s.items)
    acc = c.a[2] if len(c.a) > 2 else it.pop(0)
    for x in it:
        acc = c.I.call(c.a[0], [acc, x], {}, c.st, c.ctx, c.node)
    return acc


@bi('dataclasses.field')
def b_field(c):
    return Opq('field', tuple(Tup((K(k), v)) for k, v in c.kw.items()))


@bi('typing.NamedTuple', 'collections.namedtuple')
def b_nt(c):
    return c.unk('namedtuple()')


# ------------------------------------------------------------------ process / time / misc
@bi('sys.exit', 'exit', 'quit', 'os._exit')
def b_exit(c):
    code = c.fz(c.a[0]) if c.a else NONE
    c.I.effect('exit', c.st, (code,), c.node)
    if isinstance(code, B) and code.b == 0:
        code = K(0)
    c.I.raise_if(1, ExcV('SystemExit', (code,)), c.st, c.ctx, c.node)
    raise Dead()


@bi('print')
def b_print(c):
    f = c.kw.get('file')
    sep = c.kw.get('sep')
    end = c.kw.get('end')
    sep = sep.o if isinstance(sep, K) and sep.o is not None else ' '
    end = end.o if isinstance(end, K) and end.o is not None else '\n'
    parts = []
    for i, a in enumerate(c.a):
        if i:
            parts.append(sep)
        if isinstance(a, StarV):
            parts.append((a.v, '', -1))
        else:
            parts.append((c.fz(a), '', -1))
    parts.append(end)
    msg = fmt_join(parts)
    if f is not None and f != NONE:
        ff = c.c(f)
        if isinstance(ff, Opq) and ff.name == 'sys.stderr':
            c.I.effect('stderr', c.st, (msg,), c.node)
            return NONE
        if isinstance(ff, FileV):
            fwrite(c, f, ff, msg)
            return NONE
    c.I.effect('stdout', c.st, (msg,), c.node)
    o = c.st.heap['stdout']
    c.st.heap['stdout'] = FileV(o.path, o.mode, o.pos, scat([o.out, Lit((msg,))])) if isinstance(o, FileV) else o
    return NONE


@bi('input')
def b_input(c):
    if c.a:
        c.I.effect('stdout', c.st, (c.fz(c.a[0]),), c.node)
    if c.I.inputs is not None:
        k = c.st.heap.get('inputs', N(T.ZERO, 'int'))
        k = int(k.p.const())
        if k >= len(c.I.inputs):
            c.raise_('KeyboardInterrupt')
            raise Dead()
        c.st.heap['inputs'] = N(num(k + 1), 'int')
        return c.I.inputs[k]
    return Opq('input', ())


def present(c, path, only_there=False):
    if path in c.I.missing or not only_there and path in c.I.unreadable:
        c.raise_('FileNotFoundError' if path in c.I.missing else 'PermissionError')
        raise Dead()


@bi('open', 'io.open')
def b_open(c):
    path = filekey(c.fz(c.a[0]))
    mode = c.arg(1, 'mode', K('r'))
    mode = c.c(mode)
    m = mode.o if isinstance(mode, K) else '?'
    c.I.effect('open', c.st, (path, m), c.node)
    present(c, path)
    if 'a' in m:
        # continues what this program wrote there before
        for k, v in c.st.heap.items():
            if isinstance(v, FileV) and isinstance(k, int) and v.path == path and v.mode and v.mode[0] in 'wa' and ('b' in v.mode) == ('b' in m):
                return Ref(k)
    r = c.alloc(FileV(path, m, T.ZERO, EMPTY))
    return r


@bi('tqdm.tqdm', 'tqdm.trange', 'tqdm.auto.tqdm')
def b_tqdm(c):
    return c.a[0]


@bi('np.genfromtxt', 'np.loadtxt')
def b_genfromtxt(c):
    path = filekey(c.fz(c.a[0]))
    dt = c.c(c.arg(None, 'dtype'))
    d = dt.o if isinstance(dt, K) else None
    if isinstance(dt, BuiltinV) and dt.name == 'str':
        d = 'U'
    delim = c.c(c.arg(None, 'delimiter'))
    w = c.I.linew(path)
    c.I.effect('open', c.st, (path, 'r'), c.node)
    present(c, path)
    if w and isinstance(d, str) and d[:1] == 'U' and (isinstance(delim, K) and delim.o in (None, '\n') or delim is None):
        if d[1:].isdigit() and int(d[1:]) < w:
            c.I.notes.append(('truncated-text', f'dtype {d} cuts {w}-character lines', getattr(c.node, 'lineno', None), c.I.cur))
            return c.unk('genfromtxt truncates lines')
        n = T.floor(c.I.filesize(path) * Fraction(1, w + 1))
        if c.name == 'np.genfromtxt':
            if n.const() == 1:      # a single row comes back as a 0-d array
                return Opq('arr0d', (Opq('line', (path, T.ZERO)),))
        return c.alloc(ArrV(smap(n, 1, 1, Opq('line', (path, idx(1)))), d, None))
    return c.alloc(ArrV(OpqSeq('genfromtxt', (path, c.fz(dt) if dt is not None else NONE)), 'f8', None))


@bi('np.atleast_1d', 'np.ravel', 'np.ascontiguousarray', 'np.squeeze')
def b_at1d(c):
    v = c.c(c.a[0])
    if isinstance(v, Opq) and v.name == 'arr0d':
        return c.alloc(ArrV(Lit((v.args[0],)), 'U', None))
    return c.a[0]


@bi('np.memmap', 'np.lib.format.open_memmap')
def np_memmap(c):
    m = c.fz(c.arg(2, 'mode') if c.name == 'np.memmap' else c.arg(1, 'mode'))
    c.I.effect('open', c.st, (filekey(c.fz(c.a[0])), m.o if isinstance(m, K) and m.o else 'r+'), c.node)
    return c.unk()


@bi('np.fromfile')
def b_fromfile(c):
    f = c.arg(0, 'file')
    dt, big = dtcode(c.c(c.arg(1, 'dtype', K('f8'))))
    fc = c.c(f)
    k = itemsize(dt) if dt in BITS or dt in FLOATS else None
    if k is None:
        return c.unk('fromfile dtype')
    if isinstance(fc, FileV):
        file, pos = fc.path, fc.pos
    else:
        file, pos = filekey(c.fz(f)), T.ZERO
        c.I.effect('open', c.st, (file, 'rb'), c.node)
        present(c, file)
    off = c.n(c.arg(None, 'offset'))
    if off is not None:
        pos = pos + off.p
    cnt = c.n(c.arg(2, 'count'))
    size = c.I.filesize(file)
    n = clamp0(T.floor((size - pos) * Fraction(1, k)))
    if cnt is not None and cnt.p.const() != -1:
        n = T.minv(n, cnt.p)
    if isinstance(fc, FileV) and isinstance(f, Ref):
        c.st.heap[f.id] = FileV(fc.path, fc.mode, pos + k * n, fc.out)
    if dt in FLOATS:
        return c.alloc(ArrV(smap(n, 1, 1, Opq('floatat', (file, pos + k * idx(1)))), dt, None))
    return c.alloc(ArrV(int_elems(file, pos, k, n, dt, big), dt, None))


def int_elems(file, pos, k, n, dt, big):
    p = file_int(file, pos + k * idx(1), k, big)
    if dt[0] == 'i':
        p = T.wrap_s(p, 8 * k)
    return smap(n, 1, 1, N(p, dt))


@bi('np.frombuffer')
def b_frombuffer(c):
    b = c.c(c.arg(0, 'buffer'))
    dt, big = dtcode(c.c(c.arg(1, 'dtype', K('f8'))))
    k = itemsize(dt) if dt in BITS else None
    if isinstance(b, Chunk) and k:
        ln = c.I.chunklen(b)
        q = ln * Fraction(1, k)
        cnt = c.n(c.arg(2, 'count'))
        if not T.isint(q):
            r = T.eq0(T.mod(ln, num(k)))
            if r != 1:
                c.raise_('ValueError', T.bnot(r))
            q = T.floor(q)
        if cnt is not None and cnt.p.const() != -1:
            q = cnt.p
        return c.alloc(ArrV(int_elems(b.file, b.addr, k, q, dt, big), dt, None))
    return c.unk('frombuffer')


# ------------------------------------------------------------------ numpy constructors
def np_dt(c, i=None):
    d = c.arg(i, 'dtype')
    if d is None or d == NONE:
        return None, True
    code = dtcode(c.c(d) if isinstance(d, Ref) else d)[0]
    return code, code is not None


@bi('np.array', 'np.asarray')
def b_array(c):
    dt, ok = np_dt(c, 1)
    v = c.c(c.arg(0, 'object'))
    if not ok:
        return c.unk('array dtype')
    if isinstance(v, GenV):
        c.I.notes.append(('type-error', 'np.array of a generator', getattr(c.node, 'lineno', None), c.I.cur))
        return c.unk('array of generator')
    if isinstance(v, ArrV) and isinstance(c.a[0] if c.a else None, Ref) and dt in (None, v.dt) and (c.name.endswith('asarray') or c.kw.get('copy') == B(0)):
        return c.a[0]
    a = c.I.to_array(v, dt, c.st, c.ctx, c.node)
    return c.alloc(a) if isinstance(a, ArrV) else a


@bi('np.zeros', 'np.empty', 'np.ones', 'np.full')
def b_zeros(c):
    sh = c.c(c.arg(0, 'shape'))
    dti = 2 if c.name == 'np.full' else 1
    dt, ok = np_dt(c, dti)
    dt = dt or 'f8'
    if c.name == 'np.full':
        v = c.n(c.arg(1, 'fill_value'))
        v = v.p if v is not None else None
    else:
        v = {'np.zeros': T.ZERO, 'np.ones': T.ONE, 'np.empty': None}[c.name]
    if isinstance(sh, ListV) and isinstance(sh.s, Lit):
        sh = Tup(sh.s.items)
    ncol = None
    if isinstance(sh, Tup):
        if len(sh.items) == 1:
            n = c.n(sh.items[0])
        elif len(sh.items) == 2 and nconst(sh.items[1]) is not None:
            n = c.n(sh.items[0])
            ncol = nconst(sh.items[1])
        else:
            return c.opq()
    else:
        n = c.n(sh)
    if n is None:
        return c.opq()
    if v is None:
        e = Opq('uninit', ()) if dt not in ('bool',) else B(T.bpred('uninit'))
    else:
        e = B(int(v != T.ZERO)) if dt == 'bool' else N(v, dt)
    if ncol is not None:
        e = Tup((e,) * ncol)
    return c.alloc(ArrV(bigmap(n.p, e), dt, ncol))


def bigmap(n, e):
    return smap(clamp0(n), 1, 1, e)


@bi('np.zeros_like', 'np.ones_like', 'np.empty_like', 'np.full_like')
def b_like(c):
    v = c.c(c.a[0])
    if not isinstance(v, ArrV) or v.ncol:
        return c.opq()
    dt, ok = np_dt(c, 2 if 'full' in c.name else 1)
    dt = dt or v.dt
    if 'full' in c.name:
        x = c.c(c.a[1])
        e = c.I.cast1(x, getattr(x, 'dt', 'bool'), dt)
    elif 'empty' in c.name:
        e = Opq('uninit', ())
    else:
        k = int('ones' in c.name)
        e = B(k) if dt == 'bool' else N(num(k), dt)
    r = smap_elem(v.s, lambda x: e)
    return c.alloc(ArrV(r, dt, None)) if r is not None else c.opq()


@bi('np.arange')
def b_arange(c):
    ns = [c.n(x) for x in c.a]
    if any(x is None for x in ns):
        return c.opq()
    if len(ns) == 1:
        a, b, s = N(T.ZERO, 'int'), ns[0], N(T.ONE, 'int')
    else:
        a, b = ns[0], ns[1]
        s = ns[2] if len(ns) > 2 else N(T.ONE, 'int')
    dt, ok = np_dt(c)
    if dt is None:
        dt = 'i8' if all(is_int_dt(x.dt) for x in (a, b, s)) else 'f8'
    n = -T.floor(-T.div(b.p - a.p, s.p))
    e = a.p + s.p * idx(1)
    h = 1
    if height(e) > 1 or height(n) >= 1:
        h = 1 + max(height(a.p), height(s.p), height(n))
        e = a.p + s.p * idx(h)
    return c.alloc(ArrV(smap(clamp0(n), 1, h, N(c.I.fit(e, dt) if dt in BITS else e, dt)), dt, None))


@bi('np.append')
def b_append(c):
    if len(c.a) > 2:
        return c.opq()
    a, b = c.c(c.a[0]), c.c(c.a[1])
    return concat(c, [a, b])


def concat(c, vs):
    arrs = []
    for v in vs:
        if isinstance(v, (N, B)):
            v = ListV(Lit((v,)))
        a = c.I.to_array(v, None, c.st, c.ctx, c.node) if not isinstance(v, Unk) else None
        if not isinstance(a, ArrV):
            return Opq('concat', tuple(c.fz(x) for x in vs))
        arrs.append(a)
    if any(a.ncol != arrs[0].ncol for a in arrs):
        return c.unk('concatenate shapes')
    dt = arrs[0].dt
    for a in arrs[1:]:
        dt = np_result(dt, a.dt, False, False) if dt != a.dt else dt
    ss = [(a if a.dt == dt else c.I.arr_cast(a, dt, c.st)).s for a in arrs]
    return c.alloc(ArrV(scat(ss), dt, arrs[0].ncol))


@bi('np.hstack', 'np.concatenate')
def b_hstack(c):
    if len(c.a) > 1 and c.name == 'np.hstack':
        if len(c.a) > 3:
            pass
        c.I.notes.append(('arity', 'np.hstack takes one positional argument', getattr(c.node, 'lineno', None), c.I.cur))
        c.raise_('TypeError')
    s = c.seq(c.a[0])
    if isinstance(s, Lit):
        return concat(c, [c.c(x) for x in s.items])
    if isinstance(s, (Map, Flat, LoopCollect, Cat, Guard, IteS)):
        if isinstance(s, Cat):
            s = scat([Lit(tuple(c.c(x) for x in p.items)) if isinstance(p, Lit) else p for p in s.parts])
        r = flatten(s, c)
        if r is not None:
            return c.alloc(ArrV(r[0], r[1], None))
    return c.opq('concat')


def flatten(s, c=None):
    """sequence of arrays -> concatenated sequence"""
    if isinstance(s, Lit):
        if all(isinstance(x, (ArrV, ListV)) and getattr(x, 'ncol', None) is None for x in s.items):
            dt = [x.dt for x in s.items if isinstance(x, ArrV)]
            return scat([x.s for x in s.items]), (dt[0] if dt else 'f8')
        return None
    if isinstance(s, Map) and isinstance(s.elem, ArrV):
        return sflat(s.n, s.pred, s.h, s.elem.s), s.elem.dt
    if isinstance(s, Cat):
        ps = [flatten(p, c) for p in s.parts]
        if any(p is None for p in ps):
            return None
        dt = ps[0][1]
        for p in ps[1:]:
            dt = np_result(dt, p[1], False, False) if dt != p[1] else dt
        if any(p[1] != dt for p in ps) and c is None:
            return None
        return scat([p[0] if p[1] == dt else c.I.arr_cast(ArrV(p[0], p[1], None), dt, c.st).s for p in ps]), dt
    if isinstance(s, Guard):
        p = flatten(s.s, c)
        return None if p is None else (sguard(s.c, p[0]), p[1])
    return None


@bi('np.column_stack', 'np.vstack', 'np.stack')
def b_colstack(c):
    s = c.seq(c.a[0])
    ax = c.n(c.arg(1, 'axis'))
    if not isinstance(s, Lit) or c.name == 'np.vstack' or (c.name == 'np.stack' and (ax is None or ax.p.const() not in (1, -1))):
        return c.opq()
    arrs = [c.c(x) for x in s.items]
    if not all(isinstance(a, ArrV) and a.ncol is None for a in arrs):
        return c.opq()
    dt = arrs[0].dt
    for a in arrs[1:]:
        dt = np_result(dt, a.dt, False, False) if dt != a.dt else dt
    r = szip([(a if a.dt == dt else c.I.arr_cast(a, dt, c.st)).s for a in arrs], lambda t: Tup(tuple(t)))
    return c.alloc(ArrV(r, dt, len(arrs))) if r is not None else c.opq()


@bi('np.where')
def b_where(c):
    if len(c.a) == 1:
        v = c.c(c.a[0])
        if isinstance(v, ArrV) and v.ncol is None:
            return Tup((indices_of(c, v),))
        return c.opq()
    m, a, b = [c.c(x) for x in c.a]
    if isinstance(m, B):
        return vite(m.b, a, b)
    if not isinstance(m, ArrV):
        return c.opq()
    da, db = c.I._dt(a), c.I._dt(b)
    sa, sb = not isinstance(a, ArrV), not isinstance(b, ArrV)
    if (sa and a in (NONE,)) or c.I.tonum(a) is None and sa or c.I.tonum(b) is None and sb:
        return c.opq()
    dt = np_result(da, db, sa, sb, None if not sa else c.I.tonum(a).p, None if not sb else c.I.tonum(b).p)
    dt = {'int': 'i8', 'float': 'f8'}.get(dt, dt)
    ss = [m.s] + ([a.s] if not sa else []) + ([b.s] if not sb else [])

    def f(t):
        t = list(t)
        x = t.pop(0)
        p = a if sa else t.pop(0)
        q = b if sb else t.pop(0)
        cc = x.b if isinstance(x, B) else T.bnot(T.eq0(c.I.tonum(x).p))
        return vite(cc, c.I.cast1(p, da, dt), c.I.cast1(q, db, dt))
    r = szip(ss, f)
    return c.alloc(ArrV(r, dt, None)) if r is not None else c.opq()


def indices_of(c, v):
    s = v.s
    if isinstance(s, Map) and s.pred == 1:
        t, e = VV._open(s.h, s.elem)
        p = e.b if isinstance(e, B) else T.bnot(T.eq0(c.I.tonum(e).p))
        H = 1 + height(BArg(p))
        return c.alloc(ArrV(smap(s.n, ren(p, t, idx(H)), H, N(idx(H), 'i8')), 'i8', None))
    return c.alloc(ArrV(OpqSeq('np.where', (v,)), 'i8', None))


@bi('np.flatnonzero', 'np.nonzero', 'np.argwhere')
def b_fnz(c):
    v = c.c(c.a[0])
    if not isinstance(v, ArrV) or v.ncol:
        return c.opq()
    r = indices_of(c, v)
    return Tup((r,)) if c.name == 'np.nonzero' else r


@bi('np.extract', 'np.compress')
def b_extract(c):
    return c.I.getitem(c.a[1], c.a[0], c.st, c.ctx, c.node)


@bi('np.isin', 'np.in1d')
def b_isin(c):
    v = c.c(c.a[0])
    s2 = c.seq(c.a[1])
    inv = c.arg(3, 'invert')
    inv = isinstance(inv, B) and inv.b == 1
    if not isinstance(v, ArrV) or s2 is None:
        return c.opq()
    if isinstance(c.c(c.a[1]), SetV):
        return c.unk('isin set')

    def f(x):
        m = c.I.member(x, s2, None)
        if m is None:
            return Unk('isin')
        return B(T.bnot(m) if inv else m)
    r = smap_elem(v.s, f)
    return c.alloc(ArrV(r, 'bool', None)) if r is not None else c.opq()


@bi('np.unique')
def b_unique(c):
    v = c.c(c.a[0])
    s = c.seq(c.a[0])
    if s is None or c.kw:
        return c.opq()
    return c.alloc(ArrV(Uniq(s), v.dt if isinstance(v, ArrV) else 'f8', None))


@bi('np.size')
def b_size(c):
    return c.I.getattr(c.a[0], 'size', c.st, c.ctx, c.node) if isinstance(c.c(c.a[0]), ArrV) else b_len(c)


@bi('np.flip')
def b_flip(c):
    v = c.c(c.a[0])
    if isinstance(v, ArrV):
        return c.alloc(ArrV(v.s.s if isinstance(v.s, Rev) else Lit(tuple(reversed(v.s.items))) if isinstance(v.s, Lit) else Rev(v.s), v.dt, v.ncol))
    return c.opq()


@bi('np.diff')
def b_diff(c):
    v = c.c(c.a[0])
    if isinstance(v, ArrV) and isinstance(v.s, Map) and v.s.pred == 1 and len(c.a) == 1:
        h = v.s.h
        e1, e0 = ren(v.s.elem, idx(h), idx(h) + 1), v.s.elem
        r = c.I.num_binop('Sub', N(e1.p, v.dt), N(e0.p, v.dt), c.st, c.ctx, c.node, True, True)
        return c.alloc(ArrV(smap(clamp0(v.s.n - 1), 1, h, r), v.dt, None))
    return c.opq()


@bi('np.dtype')
def b_dtype(c):
    d = dtcode(c.c(c.a[0]))[0]
    return Opq('dtype', (K(d),))


@bi('np.argmax', 'np.argmin')
def b_argmax(c):
    v = c.fz(c.a[0])
    if not isinstance(v, ArrV) and not isinstance(v, ListV) or getattr(v, 'ncol', None) is not None:
        return N(T.fn(c.name[3:], v, isint=True, lo=0), 'i8')
    n = slen(v.s)
    e = T.eq0(n)
    if e != 0:
        c.I.raise_if(e, ExcV('ValueError', ()), c.st, c.ctx, c.node)
    hi = T.rng(n)[1]
    p = T.fn(c.name[3:], v, isint=True, lo=0, hi=hi - 1 if hi is not None else None)
    if p.const() is None:
        (m, _), = p.d.items()
        T.AFACTS[m[0][0]] = T.bor(e, T.lt(p, n))
    return N(p, 'i8')


def _ev_argm(f):
    def g(val, at, v):
        x = v.ev(val)
        if isinstance(x, list) and x and all(isinstance(y, (Fraction, int)) for y in x):
            return Fraction(x.index(f(x)))
        return Fraction(val.pick(('argm', v.ev(val)), True, 0, 10))
    return g


# ---- order statistics: asort(a, j) is the position of the j-th smallest element (ties are never evaluated)
def asort(arr, j):
    s = VV.derange(as_map(arr.s))
    if _sorted_part(s):
        return j
    if isinstance(s, Map) and s.pred == 1 and isinstance(s.elem, N) and T._lead_neg(s.elem.p):
        return asort(ArrV(Map(s.n, 1, s.h, N(-s.elem.p, s.elem.dt)), arr.dt, None), slen(s) - 1 - j)
    return _pos_of('asort', arr, j)


def _pos_of(name, arr, *a):
    n = slen(arr.s)
    hi = T.rng(n)[1]
    p = T.fn(name, arr, *a, isint=True, lo=0, hi=hi - 1 if hi is not None else None)
    if len(p.d) == 1 and p.const() is None:
        (m, _), = p.d.items()
        T.AFACTS[m[0][0]] = T.lt(p, n)
    return p


def apart(arr, kth, j):
    """position listed j-th by a partition at kth; sorting the upper part sorts the array's top elements"""
    d = j - kth
    if len(d.d) == 1:
        ((m, co),) = d.d.items()
        if co == 1 and len(m) == 1 and m[0][1] == 1:
            at = T.ATOMS[m[0][0]]
            if at.kind == 'fn' and at.args[0] == 'asort':
                x = VV.derange(as_map(at.args[1].s))
                if isinstance(x, Map) and x.pred == 1 and x.n == slen(arr.s) - kth:
                    q = _pos_of('apart', arr, kth, idx(x.h) + kth)
                    e = sget(arr.s, q)
                    if isinstance(e, N) and isinstance(x.elem, N) and e.p == x.elem.p:
                        return asort(arr, kth + at.args[2])
    return _pos_of('apart', arr, kth, j)


def _sorted_part(x):
    """is x = [a[asort(a, c + i)] for i ...] for some array a: already in ascending order"""
    if not isinstance(x, Map) or x.pred != 1 or not isinstance(x.elem, N):
        return False
    for at in T.walk(x.elem.p):
        if isinstance(at, T.Atom) and at.kind == 'fn' and at.args[0] == 'asort':
            d = at.args[2] - idx(x.h)
            if not any(isinstance(y, T.Atom) and y.kind == 'sym' and y.args[0] == ('idx', x.h) for y in T.walk(d)):
                e = sget(at.args[1].s, T.of_atom(at))
                if isinstance(e, N) and e.p == x.elem.p:
                    return True
    return False


def _ev_apart(val, at, arr, k, j):
    """any order within the two sides of a partition is allowed: take the descending one"""
    n = len(arr.ev(val))
    k, j = T.ev(k, val), T.ev(j, val)
    if not 0 <= j < n or not 0 <= k < n:
        raise T.Undefined('position')
    return _ev_asort(val, at, arr, num(j if j == k else k - 1 - j if j < k else n - 1 - (j - k - 1)))


def _ev_asort(val, at, arr, *js):
    x = arr.ev(val)
    if not isinstance(x, list) or not x or not all(isinstance(y, (Fraction, int)) for y in x) or len(set(x)) != len(x):
        raise T.Undefined('order of equal elements')
    j = T.ev(js[-1], val)
    if not 0 <= j < len(x):
        raise T.Undefined('position')
    return Fraction(sorted(range(len(x)), key=lambda k: x[k])[int(j)])


T.EVAL_FN['asort'] = _ev_asort
T.EVAL_FN['apart'] = _ev_apart
T.REBUILD['asort'] = lambda at, arr, j: asort(arr, j)
T.REBUILD['apart'] = lambda at, arr, k, j: apart(arr, k, j)


def as_map(s):
    """a short list whose elements follow one pattern, as a map over its positions"""
    if isinstance(s, Lit) and len(s.items) > 1:
        f = VV.family(s.items)
        if f is not None:
            h = 1 + height(f[0])
            return Map(num(len(s.items)), 1, h, ren(f[0], f[1], idx(h)))
    return s


@bi('np.argsort', 'np.argpartition')
def b_argsort(c):
    v = c.c(c.a[0])
    if not isinstance(v, ArrV) and not isinstance(v, ListV) or getattr(v, 'ncol', None) is not None or set(c.kw) - {'kind'}:
        return c.opq()
    s = VV.derange(v.s)
    if isinstance(s, Rev) or not isinstance(s, (Map, Lit)) or isinstance(s, Map) and s.pred != 1:
        return c.opq()
    arr = ArrV(s, getattr(v, 'dt', 'f8'), None)
    n = slen(s)
    h = 1 + height(s)
    if c.name == 'np.argsort':
        return c.alloc(ArrV(smap(n, 1, h, N(asort(arr, idx(h)), 'i8')), 'i8', None))
    k = nconst(c.a[1])
    if k is None:
        return c.opq()
    kth = num(k) if k >= 0 else n + k
    e = T.bor(T.lt(kth, T.ZERO), T.le(n, kth))
    if e != 0:
        c.I.raise_if(e, ExcV('ValueError', ()), c.st, c.ctx, c.node)
    return c.alloc(ArrV(smap(n, 1, h, N(apart(arr, kth, idx(h)), 'i8')), 'i8', None))


T.EVAL_FN['argmax'] = _ev_argm(max)
T.EVAL_FN['argmin'] = _ev_argm(min)


# ------------------------------------------------------------------ bisect
@bi('bisect.bisect_left', 'bisect.bisect_right', 'bisect.bisect', 'np.searchsorted')
def b_bisect(c):
    s = c.seq(c.a[0])
    x = c.n(c.a[1])
    if s is None or x is None or len(c.a) > 2 and c.name != 'np.searchsorted' or set(c.kw) - {'side'}:
        return c.unk('bisect')
    right = c.name in ('bisect.bisect_right', 'bisect.bisect')
    if c.name == 'np.searchsorted':
        sd = c.c(c.arg(2, 'side', K('left')))
        right = sd.o == 'right'
    el = smap_elem(s, lambda e: N(c.I.tonum(e).p, 'float'))
    if isinstance(el, Lit) and len(el.items) <= 16:
        r = T.ZERO
        for e in el.items:
            r = r + T.bit(T.le(e.p, x.p) if right else T.lt(e.p, x.p))
        return N(r, 'int')
    return N(T.fn('bisect_r' if right else 'bisect_l', el if el is not None else s, x.p, isint=True, lo=0), 'int')


def _ev_bis(right):
    import bisect

    def g(val, at, s, x):
        l = s.ev(val)
        v = T.ev(x, val)
        return Fraction((bisect.bisect_right if right else bisect.bisect_left)(l, v))
    return g


T.EVAL_FN['bisect_l'] = _ev_bis(False)
T.EVAL_FN['bisect_r'] = _ev_bis(True)


def _rw_bisect(kind, p):
    """i < bisect_left(S,x)  <=>  S[i] < x   (i a valid position of a sorted S)"""
    if kind != 'lt0':
        return None
    for sgn in (1, -1):
        for a in p.atoms():
            at = T.ATOMS[a]
            if at.kind == 'fn' and at.args[0] in ('bisect_l', 'bisect_r') and p.d.get(((a, 1),)) == sgn:
                rest = p - sgn * T.of_atom(at)
                s, x = at.args[1], at.args[2]
                right = at.args[0] == 'bisect_r'
                # position must be a bound index (0 <= i < len by construction) plus 0/1
                i = rest if sgn == -1 else -rest - 1
                # sgn=-1: rest - B < 0  <=> i < B with i = rest
                # sgn=+1: B + rest < 0 <=> B <= -rest-1 <=> not(i < B), i = -rest-1
                if not _is_pos(i):
                    continue
                e = sget(s, i)
                if not isinstance(e, N):
                    continue
                lt = T.le(e.p, x) if right else T.lt(e.p, x)
                return lt if sgn == -1 else T.bnot(lt)
    return None


def _is_pos(i):
    ats = [T.ATOMS[a] for a in i.atoms()]
    return len(ats) == 1 and ats[0].kind == 'sym' and isinstance(ats[0].args[0], tuple) and ats[0].args[0][0] in ('idx', 'tok') \
        and len(i.d) == 1 and list(i.d.values())[0] == 1


T.REWRITERS.append(_rw_bisect)


# ------------------------------------------------------------------ struct / bytes
FMT = {'b': (1, 1), 'B': (1, 0), 'h': (2, 1), 'H': (2, 0), 'i': (4, 1), 'I': (4, 0), 'l': (4, 1), 'L': (4, 0), 'q': (8, 1), 'Q': (8, 0)}


def parse_fmt(f):
    big = f[:1] in '>!' and f[:1] != ''
    native = f[:1] == '@' or (f[:1] not in '=<>!@')
    f = f.lstrip('=<>!@')
    import re
    out = []
    for m in re.finditer(r'(\d*)([a-zA-Z?])', f.replace(' ', '')):
        if m.group(2) not in FMT:
            return None, None
        k, s = FMT[m.group(2)]
        if native and m.group(2) in 'lL':
            k = 8
        out += [(k, s)] * int(m.group(1) or 1)
    return out, big


@bi('struct.pack')
def b_pack(c):
    f = c.c(c.a[0])
    if not isinstance(f, K):
        return c.unk('struct format')
    fl, big = parse_fmt(f.o)
    if fl is None:
        return c.unk('struct format ' + f.o)
    if len(fl) != len(c.a) - 1:
        c.I.notes.append(('arity', 'struct.pack argument count', getattr(c.node, 'lineno', None), c.I.cur))
        c.raise_('struct.error')
    r = Bytes(0, T.ZERO)
    for (k, sg), a in zip(fl, c.a[1:]):
        n = c.n(a)
        if n is None:
            return c.unk('struct.pack value')
        if not is_int_dt(n.dt) and not c.I.opq_in(n.p):
            c.I.notes.append(('type-error', 'struct.pack of a non-integer', getattr(c.node, 'lineno', None), c.I.cur))
            c.raise_('struct.error')
        lo, hi = (-2 ** (8 * k - 1), 2 ** (8 * k - 1) - 1) if sg else (0, 2 ** (8 * k) - 1)
        g = T.rng(n.p)
        if g[0] is None or g[1] is None or g[0] < lo or g[1] > hi:
            bad = T.bor(T.lt(n.p, num(lo)), T.lt(num(hi), n.p))
            if bad != 0 and not Z.never(T.band(bad, c.st.pc)):
                c.raise_('struct.error', bad)
        v = T.wrap_u(n.p, 8 * k)
        if big:
            v = bswap(v, k)
        r = Bytes(r.n + k, r.v + v * 256 ** r.n)
    return r


def bswap(v, k):
    r = T.ZERO
    for i in range(k):
        r = r + T.mod(T.floor(v * Fraction(1, 256 ** i)), num(256)) * 256 ** (k - 1 - i)
    return r


@bi('struct.unpack', 'struct.unpack_from')
def b_unpack(c):
    f = c.c(c.a[0])
    if not isinstance(f, K):
        return c.unk('struct format')
    fl, big = parse_fmt(f.o)
    b = c.c(c.a[1])
    if fl is None:
        return c.unk('struct format ' + f.o)
    tot = sum(k for k, _ in fl)
    if isinstance(b, Chunk):
        off = c.n(c.arg(2, 'offset'))
        base = b.addr + (off.p if off is not None else 0)
        ln = c.I.chunklen(b)
        bad = T.bnot(T.eq(ln, num(tot))) if c.name == 'struct.unpack' else T.lt(ln - (off.p if off is not None else 0), num(tot))
        if bad != 0:
            c.raise_('struct.error', bad)
        out = []
        p = base
        for k, sg in fl:
            v = file_int(b.file, p, k, big)
            out.append(N(T.wrap_s(v, 8 * k) if sg else v, 'int'))
            p = p + k
        return Tup(tuple(out))
    if isinstance(b, Bytes):
        if b.n != tot:
            c.raise_('struct.error')
        out = []
        o = 0
        for k, sg in fl:
            v = T.mod(T.floor(b.v * Fraction(1, 256 ** o)), num(256 ** k))
            if big:
                v = bswap(v, k)
            out.append(N(T.wrap_s(v, 8 * k) if sg else v, 'int'))
            o += k
        return Tup(tuple(out))
    return c.unk('struct.unpack')


@bi('struct.calcsize')
def b_calcsize(c):
    f = c.c(c.a[0])
    fl, _ = parse_fmt(f.o)
    return N(num(sum(k for k, _ in fl)), 'int')


@bi('int.from_bytes')
def b_frombytes(c):
    b = c.c(c.a[0])
    o = c.c(c.arg(1, 'byteorder', K('big')))
    sg = c.arg(None, 'signed')
    if not isinstance(o, K):
        if isinstance(o, Opq) and o.name == 'sys.byteorder':
            o = K('little')
        else:
            return c.unk('byteorder')
    if isinstance(b, Chunk):
        n = b.n.const()
        if n is None or n < 0 or n > 64:
            return N(T.fn('chunkint', b.file, b.addr, c.I.chunklen(b), K(o.o), isint=True, lo=0), 'int')
        n = int(n)
        ln = c.I.chunklen(b)
        if ln.const() != n and T.band(c.st.pc, T.bnot(T.eq(ln, num(n)))) != 0:
            # short read: only the bytes that exist contribute
            full = T.eq(ln, num(n))
            v = T.ite(full, file_int(b.file, b.addr, n, o.o != 'little'), T.fn('chunkint', b.file, b.addr, ln, K(o.o), isint=True, lo=0, hi=256 ** n - 1))
        else:
            v = file_int(b.file, b.addr, n, o.o == 'big')
        if isinstance(sg, B) and sg.b == 1:
            v = T.wrap_s(v, 8 * n)
        return N(v, 'int')
    if isinstance(b, Bytes):
        v = b.v if o.o == 'little' else bswap(b.v, b.n)
        if isinstance(sg, B) and sg.b == 1:
            v = T.wrap_s(v, 8 * b.n)
        return N(v, 'int')
    return c.unk('from_bytes')


@bi('bytes', 'bytearray')
def b_bytes(c):
    if not c.a:
        return Bytes(0, T.ZERO)
    v = c.c(c.a[0])
    if isinstance(v, (Bytes, Chunk)):
        return v
    s = c.seq(c.a[0])
    if isinstance(s, Lit):
        r = T.ZERO
        for i, x in enumerate(s.items):
            n = c.n(x)
            if n is None:
                return c.unk('bytes')
            r = r + n.p * 256 ** i
        return Bytes(len(s.items), r)
    k = nconst(v)
    if k is not None:
        return Bytes(k, T.ZERO)
    return c.unk('bytes')


# ------------------------------------------------------------------ paths / cli / time
@bi('pathlib.Path', 'pathlib.PurePath', 'os.fspath')
def b_path(c):
    v = c.fz(c.a[0]) if c.a else K('.')
    r = filekey(v)
    r = Opq('path', (r,)) if not isinstance(r, Opq) or r.name not in ('path', 'pathjoin') else r
    for x in c.a[1:]:
        r = pathjoin(r, c.fz(x))
    return r


@bi('os.path.getsize')
def b_getsize(c):
    p = filekey(c.fz(c.a[0]))
    present(c, p, True)
    return N(c.I.filesize(p), 'int')


@bi('os.stat')
def b_osstat(c):
    p = filekey(c.fz(c.a[0]))
    present(c, p, True)
    return Opq('stat', (p,))


@bi('os.path.join')
def b_osjoin(c):
    r = c.fz(c.a[0])
    for x in c.a[1:]:
        r = pathjoin(r, c.fz(x))
    return r


@bi('os.path.isfile', 'os.path.exists')
def b_isfile(c):
    return B(T.bpred('isfile', filekey(c.fz(c.a[0]))))


@bi('argparse.ArgumentParser', 'configargparse.ArgumentParser', 'configargparse.ArgParser', 'boiler.scriptutil.generate_default_parser')
def b_argparser(c):
    return Opq('argparser', ())


@bi('boiler.scriptutil.parse_args_or_help')
def b_boilerargs(c):
    if c.I.cmd is not None:
        parse_cmd(c)
    return Opq('args', ())


def argstr(v):
    return v if isinstance(v, (K, Opq, Fmt)) else Opq('argstr', (v,))


def conv_arg(c, kw, v):
    """value of one command-line word after the declared conversion"""
    ty = kw.get('type')
    if ty is None:
        return argstr(v)
    tn = ty.name if isinstance(ty, BuiltinV) else None
    if isinstance(v, N) and tn == 'float':
        return N(v.p, 'float')
    if isinstance(v, N) and tn == 'int':
        if v.dt != 'int':
            c.raise_('SystemExit')      # argparse refuses a fraction for an integer option
        return v
    if tn == 'str':
        return argstr(v)
    saved, c.ctx.raises = c.ctx.raises, []
    try:
        return c.I.call(ty, [argstr(v)], {}, c.st, c.ctx, c.node)
    finally:
        # argparse turns a refused conversion into its own error exit
        c.ctx.raises = saved + [(s, ExcV('SystemExit', ()) if getattr(e, 'cls', None) in ('ValueError', 'TypeError', 'argparse.ArgumentTypeError', 'ArgumentTypeError') else e, *r)
                                for s, e, *r in c.ctx.raises]


def parse_cmd(c):
    I = c.I
    opts, pos = I.cmd
    vals = {}
    flagmap = {}
    positional = []
    for d, (flags, kw) in I.argdefs.items():
        act = kw.get('action')
        act = act.o if isinstance(act, K) else None
        if flags and not flags[0].startswith('-'):
            positional.append((d, kw))
            continue
        for f in flags:
            flagmap[f] = (d, kw, act)
        if act == 'help':
            continue
        df = kw.get('default')
        if act == 'store_true':
            vals[d] = df if df is not None else B(0)
        elif act == 'store_false':
            vals[d] = df if df is not None else B(1)
        elif df is None:
            vals[d] = NONE
        else:
            x = c.c(df)
            vals[d] = conv_arg(c, kw, x) if isinstance(x, K) and isinstance(x.o, str) else df
    given = set()
    for f, v in opts:
        if f not in flagmap:
            c.I.notes.append(('undeclared-option', f, getattr(c.node, 'lineno', None), I.cur))
            c.raise_('SystemExit')
            raise Dead()
        d, kw, act = flagmap[f]
        given.add(d)
        if act == 'help':
            c.raise_('SystemExit')
            raise Dead()
        if act in ('store_true', 'store_false', 'store_const', 'count'):
            if v is not None:
                c.raise_('SystemExit')
                raise Dead()
            if act == 'count':
                b = vals[d]
                vals[d] = N((b.p if isinstance(b, N) else T.ZERO) + 1, 'int')
            else:
                vals[d] = B(1) if act == 'store_true' else B(0) if act == 'store_false' else kw.get('const', NONE)
            continue
        if v is None:
            na = kw.get('nargs')
            if isinstance(na, K) and na.o == '?':
                vals[d] = kw.get('const', NONE)
                continue
            c.raise_('SystemExit')
            raise Dead()
        na = kw.get('nargs')
        if isinstance(v, (ListV, tuple)):
            if isinstance(v, tuple):
                v = ListV(Lit(v))
            if na is None or isinstance(na, K) and na.o == '?':
                c.raise_('SystemExit')
                raise Dead()
            vals[d] = c.alloc(ListV(smap_elem(v.s, lambda x: conv_arg(c, kw, x))))
            continue
        w = conv_arg(c, kw, v)
        ch = kw.get('choices')
        if ch is not None:
            s = c.seq(ch)
            k = slen(s).const() if isinstance(s, Seq) else None
            if not isinstance(s, Lit) and k is not None and k <= 64:
                s = Lit(tuple(sget(s, num(j)) for j in range(int(k))))
            if isinstance(s, Lit) and not any(x == w for x in s.items) and isinstance(w, (K, N)):
                c.raise_('SystemExit')
                raise Dead()
        vals[d] = w if na is None or isinstance(na, K) and na.o == '?' else c.alloc(ListV(Lit((w,))))
    rest = list(pos)
    need = [1 if kw.get('nargs') is None else 0 for _, kw in positional]
    for i, (d, kw) in enumerate(positional):
        na = kw.get('nargs')
        na = na.o if isinstance(na, K) else None
        after = sum(need[i + 1:])
        if na in ('*', '+', '...'):
            take = rest[:len(rest) - after]
            rest = rest[len(take):]
            vals[d] = c.alloc(ListV(Lit(tuple(conv_arg(c, kw, x) for x in take))))
            continue
        if rest and (need[i] or len(rest) > after):
            vals[d] = conv_arg(c, kw, rest.pop(0))
        elif need[i]:
            c.raise_('SystemExit')
            raise Dead()
        else:
            vals[d] = kw.get('default', NONE)
    if rest:
        c.raise_('SystemExit')
        raise Dead()
    for f, (d, kw, act) in flagmap.items():
        r = kw.get('required')
        if isinstance(r, B) and r.b == 1 and d not in given:
            c.raise_('SystemExit')
            raise Dead()
    I.cmdvals = vals


@bi('time.time', 'time.perf_counter', 'time.monotonic')
def b_time(c):
    return Opq('time', (num(c.I.new()),))


@bi('datetime.datetime', 'datetime.datetime.now')
def b_dt(c):
    return Opq('datetime', tuple(c.fz(x) for x in c.a))


@bi('re.sub')
def b_resub(c):
    return c.opq()


# ------------------------------------------------------------------ methods
LOGM = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'setLevel', 'addHandler', 'log'}


@extend('method')
def method(I, recv, name, args, kw, st, ctx, node):
    recv = I.resolve(recv, st)
    if isinstance(recv, Ite):
        return I.choose(recv.c, lambda x: I.method(recv.a, name, args, kw, x, ctx, node),
                        lambda x: I.method(recv.b, name, args, kw, x, ctx, node), st)
    c = I.deref(recv, st)
    if isinstance(c, Ite) and not isinstance(recv, Ref):
        return I.method(c, name, args, kw, st, ctx, node)
    call_ = Call(I, list(args), kw, st, ctx, node, name, recv)
    f = ME.get(name)
    if f is not None:
        r = f(call_, c)
        if r is not NotImplemented:
            return I.view(r, recv, st) if name in ('view', 'reshape', 'ravel') else r
    if isinstance(c, Unk):
        return c
    if isinstance(c, K) and c.o is None:
        I.raise_(ExcV('AttributeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
        raise Dead()
    if isinstance(c, Opq):
        if name in LOGM:
            I.effect('log', st, (name,), node)
            return NONE
        return Opq('.' + name, (c,) + tuple(I.freeze(a, st) for a in args) + tuple(Tup((K(k), I.freeze(v, st))) for k, v in sorted(kw.items())))
    if isinstance(c, ClassV):
        if name == '_make':
            s = I.toseq(args[0], st, ctx, node)
            if isinstance(s, Lit):
                return I.construct(c, list(s.items), {}, st, ctx, node)
    if isinstance(c, Named):
        if name == '_asdict':
            return I.alloc(st, DictV(tuple((K(n), v) for n, v in zip(c.names, c.items))))
        if name == '_replace':
            return Named(c.cname, c.names, tuple(kw.get(n, v) for n, v in zip(c.names, c.items)))
    if isinstance(c, (ArrV, ListV)) and ('np.' + name) in BI:
        return I.builtin('np.' + name, [recv] + list(args), kw, st, ctx, node)
    if isinstance(c, (Fmt, K)):
        return Opq('str.' + name, (c,) + tuple(I.freeze(a, st) for a in args))
    if isinstance(c, ArrV):
        return Opq('arr.' + name, (c,) + tuple(I.freeze(a, st) for a in args) + tuple(Tup((K(k), I.freeze(v, st))) for k, v in sorted(kw.items())))
    return I.unk(f'method {name} of {type(c).__name__}', node)


def setref(c, v):
    if isinstance(c.recv, Ref):
        c.I.mutate(c.recv, c.st, c.node)
        c.st.heap[c.recv.id] = v


@me('append')
def m_append(c, v):
    if isinstance(v, ListV):
        setref(c, ListV(scat([v.s, Lit((c.fz(c.a[0]),))])))
        return NONE
    return NotImplemented


@me('extend')
def m_extend(c, v):
    if isinstance(v, ListV):
        s = c.seq(c.a[0])
        if s is None:
            setref(c, Unk('extend'))
        else:
            setref(c, ListV(scat([v.s, c.I.fseq(s, c.st)])))
        return NONE
    return NotImplemented


@me('insert')
def m_insert(c, v):
    if isinstance(v, ListV) and nconst(c.a[0]) == 0:
        setref(c, ListV(scat([Lit((c.fz(c.a[1]),)), v.s])))
        return NONE
    return NotImplemented


@me('pop')
def m_pop(c, v):
    if isinstance(v, ListV):
        k = nconst(c.a[0]) if c.a else -1
        s = v.s
        if isinstance(s, Lit) and k is not None and s.items:
            it = list(s.items)
            x = it.pop(k)
            setref(c, ListV(Lit(tuple(it))))
            return c.I.thaw(x, c.st)
        if k == 0:
            c.I.bounds(s, T.ZERO, c.st, c.ctx, c.node)
            setref(c, ListV(sslice(s, T.ONE, NONE)))
            return c.I.thaw(sget(s, T.ZERO), c.st)
    if isinstance(v, DictV) and c.a:
        k = c.fz(c.a[0])
        for a, b in v.items:
            if a == k:
                setref(c, DictV(tuple(x for x in v.items if x[0] != k)))
                return b
        if len(c.a) > 1:
            return c.a[1]
    return NotImplemented


@me('clear')
def m_clear(c, v):
    if isinstance(v, ListV):
        setref(c, ListV(EMPTY))
        return NONE
    return NotImplemented


@me('sort')
def m_sort(c, v):
    if isinstance(v, (ListV, ArrV)):
        r = b_sorted(Call(c.I, [c.recv], c.kw, c.st, c.ctx, c.node, 'np.sort' if isinstance(v, ArrV) else 'sorted'))
        setref(c, c.c(r))
        return NONE
    return NotImplemented


@me('fill', 'itemset', 'put', 'partition', 'resize')
def m_fill(c, v):
    if isinstance(v, ArrV) and isinstance(c.recv, Ref):
        setref(c, Unk(f'contents after .{c.name}'))
        return NONE
    return NotImplemented


@me('copy')
def m_copy(c, v):
    if isinstance(v, (ListV, ArrV, DictV, SetV)):
        return c.alloc(v)
    return NotImplemented


@me('astype')
def m_astype(c, v):
    dt = dtcode(c.c(c.arg(0, 'dtype')))[0]
    if isinstance(v, ArrV) and dt:
        if v.dt == dt and c.kw.get('copy') == B(0) and isinstance(c.recv, Ref):
            return c.recv
        r = c.I.arr_cast(v, dt, c.st)
        return c.alloc(r) if isinstance(r, ArrV) else r
    if isinstance(v, (N, B)) and dt:
        return c.I.cast1(v, getattr(v, 'dt', 'bool'), dt)
    if isinstance(v, Opq) and dt:
        return Opq('cast', (v, K(dt)))
    return NotImplemented


@me('view')
def m_view(c, v):
    dt = dtcode(c.c(c.arg(0, 'dtype')))[0]
    if isinstance(v, ArrV) and dt in BITS and v.dt in BITS and BITS[dt] == BITS[v.dt]:
        r = c.I.arr_cast(v, dt, c.st)
        return c.alloc(r)
    if isinstance(v, ArrV) and v.dt == 'u4' and dt == 'u8' and v.ncol is None and isinstance(v.s, Map) and v.s.pred == 1:
        h = v.s.h
        lo, hi = ren(v.s.elem, idx(h), 2 * idx(h)), ren(v.s.elem, idx(h), 2 * idx(h) + 1)
        return c.alloc(ArrV(smap(T.floor(v.s.n * Fraction(1, 2)), 1, h, N(lo.p + 2 ** 32 * hi.p, 'u8')), 'u8', None))
    if isinstance(v, ArrV) and v.dt == 'u8' and dt == 'u4' and v.ncol is None and isinstance(v.s, Map) and v.s.pred == 1:
        e = v.s.elem
        return c.alloc(ArrV(sflat(v.s.n, 1, v.s.h, Lit((N(T.mod(e.p, num(2 ** 32)), 'u4'), N(T.floor(e.p * Fraction(1, 2 ** 32)), 'u4')))), 'u4', None))
    return NotImplemented


@me('reshape', 'ravel', 'flatten')
def m_reshape(c, v):
    if not isinstance(v, ArrV):
        return NotImplemented
    sh = c.a[0].items if c.a and isinstance(c.a[0], Tup) else c.a
    ks = [nconst(x) for x in sh] if c.name == 'reshape' else [-1]
    if len(ks) == 2 and ks[1] is not None and v.ncol is None and ks[1] > 0:
        w = ks[1]
        s = v.s
        if isinstance(s, Flat) and isinstance(s.seq, Lit) and len(s.seq.items) == w and s.pred == 1:
            return c.alloc(ArrV(smap(s.n, 1, s.h, Tup(s.seq.items)), v.dt, w))
        n = slen(s)
        q = n * Fraction(1, w)
        if not T.isint(q):
            e = T.eq0(T.mod(n, num(w)))
            if e != 1:
                c.raise_('ValueError', T.bnot(e))
            q = T.floor(q)
        h = 1 + VV._hexcept(s, -1) if not isinstance(s, Map) else s.h
        if isinstance(s, Map) and s.pred == 1:
            row = Tup(tuple(ren(s.elem, idx(h), w * idx(h) + j) for j in range(w)))
        else:
            h = 1 + height(s)
            row = Tup(tuple(sget(s, w * idx(h) + j) for j in range(w)))
        return c.alloc(ArrV(smap(q, 1, h, row), v.dt, w))
    if len(ks) == 1 and ks[0] == -1:
        if v.ncol is None:
            return c.alloc(v) if c.name == 'flatten' else c.recv
        if isinstance(v.s, Map) and v.s.pred == 1:
            return c.alloc(ArrV(sflat(v.s.n, 1, v.s.h, Lit(v.s.elem.items)), v.dt, None))
    return NotImplemented


@me('tolist')
def m_tolist(c, v):
    if isinstance(v, ArrV) and v.ncol is None:
        k = 'int' if is_int_dt(v.dt) and v.dt != 'bool' else 'float' if v.dt in FLOATS else None
        r = smap_elem(v.s, lambda x: N(c.I.tonum(x).p, k) if k and c.I.tonum(x) is not None else x)
        return c.alloc(ListV(r if r is not None else v.s))
    return NotImplemented


@me('item')
def m_item(c, v):
    if isinstance(v, N):
        return N(v.p, 'int' if is_int_dt(v.dt) else 'float')
    return NotImplemented


@me('tobytes', 'tofile')
def m_tobytes(c, v):
    if isinstance(v, ArrV) and v.dt in BITS and v.ncol is None:
        k = BITS[v.dt] // 8
        s = smap_elem(v.s, lambda x: Bytes(k, T.wrap_u(c.I.tonum(x).p, 8 * k)))
        if s is None:
            return c.unk('tobytes')
        if c.name == 'tofile':
            f = c.c(c.a[0])
            if isinstance(f, FileV) and isinstance(c.a[0], Ref):
                c.st.heap[c.a[0].id] = FileV(f.path, f.mode, f.pos, scat([f.out, s]))
                return NONE
            return c.unk('tofile')
        return BytesSeq(s)
    return NotImplemented


class BytesSeq(V):
    """byte string given as a sequence of Bytes pieces"""
    F = ('s',)
    __slots__ = F


@me('any', 'all', 'sum', 'min', 'max', 'mean', 'std', 'var', 'argmax', 'argmin', 'round', 'conjugate', 'conj', 'nonzero', 'argsort')
def m_red(c, v):
    if isinstance(v, ArrV):
        return c.I.builtin('np.' + c.name, [c.recv] + c.a, c.kw, c.st, c.ctx, c.node)
    if isinstance(v, Opq):
        return c.I.builtin('np.' + c.name, [v] + c.a, c.kw, c.st, c.ctx, c.node)
    return NotImplemented


@me('add', 'discard', 'remove', 'update', 'intersection', 'union', 'difference', 'issubset', 'intersection_update', 'isdisjoint')
def m_set(c, v):
    if isinstance(v, SetV):
        if c.name == 'add':
            n = c.n(c.a[0])
            if n is None:
                setref(c, OpqSetV(OpqSeq('setadd', (v, c.fz(c.a[0])))))
                return NONE
            setref(c, SetV(T.bor(v.pred, T.eq(setx(), n.p))))
            return NONE
        o = c.c(c.a[0])
        if isinstance(o, SetV):
            p = o.pred
        else:
            s = c.seq(c.a[0])
            if s is None:
                if c.name == 'update':
                    setref(c, Unk('set update'))
                    return NONE
                return c.unk('set operand')
            p = c.I.member(N(setx(), 'int'), s, c.st)
            if p is None:
                return c.unk('set operand')
        if c.name == 'update':
            setref(c, SetV(T.bor(v.pred, p)))
            return NONE
        if c.name == 'intersection_update':
            setref(c, SetV(T.band(v.pred, p)))
            return NONE
        f = {'intersection': T.band, 'union': T.bor, 'difference': lambda x, y: T.band(x, T.bnot(y))}.get(c.name)
        if f:
            return c.alloc(SetV(f(v.pred, p)))
    if isinstance(v, OpqSetV):
        return Opq('set.' + c.name, (c.fz(v), c.fz(c.a[0])))
    if isinstance(v, DictV) and c.name == 'update':
        d = c.c(c.a[0]) if c.a else DictV(tuple((K(k), x) for k, x in c.kw.items()))
        if isinstance(d, DictV):
            items = dict(v.items)
            items.update(dict(d.items))
            setref(c, DictV(tuple(items.items())))
            return NONE
    if isinstance(v, Opq) and v.name == 'namespace' and c.name == 'update':
        return NONE
    return NotImplemented


@me('keys', 'values', 'items', 'get')
def m_dict(c, v):
    if isinstance(v, DictV):
        if c.name == 'keys':
            return c.alloc(ListV(Lit(tuple(k for k, _ in v.items))))
        if c.name == 'values':
            return c.alloc(ListV(Lit(tuple(x for _, x in v.items))))
        if c.name == 'items':
            return c.alloc(ListV(Lit(tuple(Tup((k, x)) for k, x in v.items))))
        d = c.a[1] if len(c.a) > 1 else NONE
        k = c.fz(c.a[0])
        r = d
        for a, b in reversed(v.items):
            x = c.I.compare('Eq', k, a, c.st, c.ctx, c.node)
            r = vite(x.b, b, r) if isinstance(x, B) else c.unk('dict.get')
        return r
    return NotImplemented


# files
def fwrite(c, ref, f, x):
    if isinstance(x, BytesSeq):
        x = x.s
    else:
        x = Lit((c.fz(x),))
    if isinstance(ref, Ref):
        c.st.heap[ref.id] = FileV(f.path, f.mode, f.pos, scat([f.out, x]))


@me('write', 'writelines')
def m_write(c, v):
    if isinstance(v, FileV):
        x = c.c(c.a[0])
        if c.name == 'writelines':
            s = c.seq(c.a[0])
            if s is None:
                return c.unk('writelines')
            c.st.heap[c.recv.id] = FileV(v.path, v.mode, v.pos, scat([v.out, s]))
            return NONE
        fwrite(c, c.recv, v, x)
        return N(T.fn('wrote', isint=True, lo=0), 'int')
    if isinstance(v, Opq) and v.name in ('sys.stdout', 'sys.stderr'):
        if v.name == 'sys.stdout':
            c.I.effect('stdout', c.st, (c.fz(c.a[0]),), c.node)
            o = c.st.heap['stdout']
            if isinstance(o, FileV):
                c.st.heap['stdout'] = FileV(o.path, o.mode, o.pos, scat([o.out, Lit((c.fz(c.a[0]),))]))
        return NONE
    return NotImplemented


@me('read')
def m_read(c, v):
    if isinstance(v, FileV):
        kind = 'b' if 'b' in v.mode else 't'
        n = c.n(c.arg(0, 'size')) if c.a or 'size' in c.kw else None
        if n is None or n.p.const() == -1:
            ch = Chunk(v.path, v.pos, num(-1), kind)
            pos = v.pos + c.I.chunklen(ch)
        else:
            ch = Chunk(v.path, v.pos, n.p, kind)
            pos = v.pos + n.p
        if isinstance(c.recv, Ref):
            c.st.heap[c.recv.id] = FileV(v.path, v.mode, pos, v.out)
        return ch
    if isinstance(v, Opq) and v.name == 'sys.stdin':
        return Opq('stdin.read', tuple(c.fz(a) for a in c.a))
    return NotImplemented


@me('seek')
def m_seek(c, v):
    if isinstance(v, FileV):
        n = c.n(c.a[0])
        wh = nconst(c.a[1]) if len(c.a) > 1 else 0
        if n is None:
            return c.unk('seek')
        p = n.p if wh == 0 else v.pos + n.p if wh == 1 else c.I.filesize(v.path) + n.p
        c.st.heap[c.recv.id] = FileV(v.path, v.mode, p, v.out)
        return N(p, 'int')
    return NotImplemented


@me('tell')
def m_tell(c, v):
    if isinstance(v, FileV):
        return N(v.pos, 'int')
    return NotImplemented


@me('readline')
def m_readline(c, v):
    if isinstance(v, FileV):
        return Opq('readline', (v.path, v.pos))
    return NotImplemented


@me('readlines')
def m_readlines(c, v):
    if isinstance(v, FileV):
        s = c.I.file_lines(v, c.recv, c.st)
        return c.alloc(ListV(s)) if s is not None else c.unk('readlines')
    return NotImplemented


@me('close', 'flush', '__exit__')
def m_close(c, v):
    if isinstance(v, FileV) or isinstance(v, Opq) and v.name.startswith('sys.std'):
        return NONE
    return NotImplemented


@me('__enter__')
def m_enter(c, v):
    return c.recv


# strings
STRM = ('strip', 'lstrip', 'rstrip', 'split', 'splitlines', 'partition', 'rpartition', 'upper', 'lower', 'startswith', 'endswith',
        'isspace', 'replace', 'zfill', 'ljust', 'rjust', 'center', 'count', 'find', 'index', 'title', 'capitalize', 'isdigit', 'rsplit', 'encode')


def _const(v):
    if isinstance(v, K):
        return True, v.o
    k = nconst(v)
    return (k is not None), k


def _wrap(c, r):
    if isinstance(r, bool):
        return B(int(r))
    if isinstance(r, int):
        return N(num(r), 'int')
    if isinstance(r, str):
        return K(r)
    if isinstance(r, tuple):
        return Tup(tuple(K(x) for x in r))
    if isinstance(r, list):
        return c.alloc(ListV(Lit(tuple(K(x) for x in r))))
    if isinstance(r, bytes):
        return Bytes(len(r), num(int.from_bytes(r, 'little')))
    return c.unk('str')


def fmt_strip(v, how, chars):
    """strip the literal ends of a formatted text; numbers neither start nor end with blanks"""
    if chars == 0:
        return None
    ps = list(v.parts)
    solid = lambda p: isinstance(p[0], N) and isinstance(p[1], str) and not any(x in p[1] for x in '<^=> ') and not p[1][:1].isdigit() \
        and (chars is None or not set(chars) & set('0123456789+-.einfa'))
    for end, nm in ((0, ('strip', 'lstrip')), (-1, ('strip', 'rstrip'))):
        if how not in nm:
            continue
        while ps:
            p = ps[end]
            if not isinstance(p, str):
                if not solid(p):
                    return None
                break
            q = p.lstrip(chars) if end == 0 else p.rstrip(chars)
            if q:
                ps[end] = q
                break
            ps.pop(end)
    return VV.fmt_join(ps)


@me(*STRM)
def m_str(c, v):
    if isinstance(v, K) and isinstance(v.o, str):
        cs = [_const(c.c(a)) for a in c.a]
        if all(x for x, _ in cs) and not c.kw:
            try:
                return _wrap(c, getattr(v.o, c.name)(*[y for _, y in cs]))
            except Exception:
                return c.unk('str method')
    if isinstance(v, Chunk) and v.kind == 't':
        if c.name in ('strip', 'rstrip', 'lstrip'):
            return TextV(v, 1)
        return text_split(c, TextV(v, 0))
    if isinstance(v, TextV):
        if c.name in ('strip', 'rstrip', 'lstrip'):
            return TextV(v.ch, 1)
        return text_split(c, v)
    if isinstance(v, Fmt) and c.name in ('strip', 'rstrip', 'lstrip') and not c.kw:
        chars = c.c(c.a[0]) if c.a else K(None)
        r = fmt_strip(v, c.name, chars.o if isinstance(chars, K) else 0)
        return Opq('str.' + c.name, (v,) + tuple(c.fz(a) for a in c.a)) if r is None else r
    if isinstance(v, Opq) and v.name == 'line' and c.name in ('strip', 'rstrip', 'lstrip'):
        return v
    if c.name in ('startswith', 'endswith') and isinstance(v, (Opq, Fmt)):
        return B(T.bpred('str.' + c.name, c.fz(v), *[c.fz(a) for a in c.a]))
    if isinstance(v, (Opq, Fmt, K)) and c.name in ('split', 'partition', 'splitlines'):
        return Opq('str.' + c.name, (c.fz(v),) + tuple(c.fz(a) for a in c.a))
    if isinstance(v, ListV) and c.name in ('count', 'index'):
        return N(T.fn('list' + c.name, v, c.fz(c.a[0]), isint=True, lo=0), 'int')
    if isinstance(v, (Bytes, Chunk)) and c.name == 'count':
        return N(T.fn('bytescount', c.fz(v), c.fz(c.a[0]), isint=True, lo=0), 'int')
    if isinstance(v, (Opq, Fmt)):
        return Opq('str.' + c.name, (c.fz(v),) + tuple(c.fz(a) for a in c.a))
    return NotImplemented


class TextV(V):
    """text chunk; st = 1 when surrounding whitespace was stripped"""
    F = ('ch', 'st')
    __slots__ = F


def text_split(c, v):
    if c.name == 'split':
        if c.a and not (isinstance(c.a[0], K) and c.a[0].o in ('\n', None)):
            return c.unk('split separator')
        last_empty = bool(c.a) and c.a[0] != NONE and not v.st
    elif c.name == 'splitlines':
        last_empty = False
    else:
        return c.unk('text method ' + c.name)
    s = c.I.chunk_lines(v.ch)
    if s is None:
        return c.unk('line width unknown')
    if last_empty:
        s = scat([s, Lit((K(''),))])
    return c.alloc(ListV(s))


@me('decode')
def m_decode(c, v):
    if isinstance(v, Chunk):
        return Chunk(v.file, v.addr, v.n, 't')
    return NotImplemented


@me('join')
def m_join(c, v):
    if isinstance(v, K) and isinstance(v.o, str):
        s = c.seq(c.a[0])
        if isinstance(s, Lit):
            parts = []
            for i, x in enumerate(s.items):
                if i and v.o:
                    parts.append(v.o)
                parts.append((x, '', -1))
            return fmt_join(parts)
        if s is not None:
            if v.o == '':
                return StrSeq(s)
            return Opq('join', (v, s))
    if isinstance(v, Bytes) and v.n == 0:
        s = c.seq(c.a[0])
        if s is not None:
            return BytesSeq(s)
    return NotImplemented


class StrSeq(V):
    F = ('s',)
    __slots__ = F


@me('format')
def m_format(c, v):
    if isinstance(v, K) and isinstance(v.o, str):
        import string
        parts = []
        auto = 0
        try:
            for lit, fld, sp, cv in string.Formatter().parse(v.o):
                parts.append(lit)
                if fld is None:
                    continue
                if fld == '':
                    x = c.a[auto]
                    auto += 1
                elif fld.isdigit():
                    x = c.a[int(fld)]
                elif fld in c.kw:
                    x = c.kw[fld]
                else:
                    return c.opq('str.format')
                if '{' in sp:
                    return c.opq('str.format')
                parts.append((c.fz(x), sp, cv or -1))
        except (IndexError, ValueError):
            return c.unk('format')
        return fmt_join(parts)
    return NotImplemented


@me('to_bytes')
def m_tobytes_int(c, v):
    n = c.I.tonum(v)
    k = nconst(c.arg(0, 'length'))
    o = c.c(c.arg(1, 'byteorder', K('big')))
    if n is None or k is None or not isinstance(o, K):
        return NotImplemented
    g = T.rng(n.p)
    if not (g[0] is not None and g[0] >= 0 and g[1] is not None and g[1] < 256 ** k):
        bad = T.bor(T.lt(n.p, T.ZERO), T.lt(num(256 ** k - 1), n.p))
        if bad != 0:
            c.raise_('OverflowError', bad)
    val = T.wrap_u(n.p, 8 * k)
    return Bytes(k, val if o.o == 'little' else bswap(val, k))


@me('bit_length')
def m_bitlen(c, v):
    n = c.I.tonum(v)
    if n is not None:
        return N(T.fn('bitlen', n.p, isint=True, lo=0), 'int')
    return NotImplemented


T.EVAL_FN['bitlen'] = lambda val, at, p: Fraction(int(T.ev(p, val)).bit_length())


# paths
@me('is_file', 'exists')
def m_isfile(c, v):
    if isinstance(v, (Opq, K, Fmt)):
        return B(T.bpred('isfile', filekey(c.fz(v))))
    return NotImplemented


@me('timestamp')
def m_timestamp(c, v):
    if isinstance(v, Opq) and v.name == 'in:datetime':
        return N(T.fn('in:seconds', v, lo=0), 'float')
    return NotImplemented


@me('stat')
def m_stat(c, v):
    p = filekey(c.fz(v))
    present(c, p, True)
    return Opq('stat', (p,))


@me('unlink', 'rename', 'write_text', 'write_bytes', 'touch')
def m_unlink(c, v):
    if isinstance(v, (Opq, K, Fmt)):
        c.I.effect('unlink' if c.name == 'unlink' else 'pathop', c.st, (filekey(c.fz(v)), c.name), c.node)
        return NONE
    return NotImplemented


@me('open')
def m_open(c, v):
    if isinstance(v, (Opq, K, Fmt)) and not (isinstance(v, Opq) and v.name == 'args'):
        return b_open(Call(c.I, [v] + c.a, c.kw, c.st, c.ctx, c.node, 'open'))
    return NotImplemented


@me('glob', 'iterdir', 'rglob')
def m_glob(c, v):
    if c.name != 'rglob' and (c.name == 'iterdir' or (c.a and c.c(c.a[0]) == K('*'))):
        d = filekey(c.fz(v))
        return c.alloc(GenV(smap(T.fn('dirlen', d, isint=True, lo=0), 1, 1, Opq('dirent', (d, N(idx(1), 'int'))))))
    return c.alloc(GenV(OpqSeq('glob', (c.fz(v),) + tuple(c.fz(a) for a in c.a))))


@bi('os.listdir', 'os.scandir')
def b_listdir(c):
    d = filekey(c.fz(c.a[0])) if c.a else K('.')
    return c.alloc(GenV(smap(T.fn('dirlen', d, isint=True, lo=0), 1, 1,
                             Opq('entname' if c.name == 'os.listdir' else 'dirent', (d, N(idx(1), 'int'))))))


@me('resolve', 'expanduser', 'absolute')
def m_resolve(c, v):
    if isinstance(v, Opq):
        return v
    return NotImplemented


@me('as_posix')
def m_posix(c, v):
    return c.fz(v)


# argparse
@me('add_argument', 'add')
def m_addarg(c, v):
    if isinstance(v, Opq) and v.name == 'argparser':
        flags = []
        for a in c.a:
            x = c.c(a)
            if isinstance(x, K):
                flags.append(x.o)
        dest = c.kw.get('dest')
        if isinstance(dest, K):
            d = dest.o
        else:
            longs = [f for f in flags if f.startswith('--')]
            d = (longs[0][2:] if longs else flags[0].lstrip('-') if flags else '?').replace('-', '_')
        c.I.argdefs[d] = (flags, dict(c.kw))
        c.I.effect('add_argument', c.st, (d, tuple(flags), tuple(sorted((k, c.fz(x)) for k, x in c.kw.items()))), c.node)
        return NONE
    return NotImplemented


@me('add_argument_group', 'add_mutually_exclusive_group', 'add_subparsers')
def m_addgroup(c, v):
    if isinstance(v, Opq) and v.name == 'argparser':
        return v
    return NotImplemented


@me('parse_args', 'parse_known_args')
def m_parse(c, v):
    if isinstance(v, Opq) and v.name == 'argparser':
        if c.I.cmd is not None:
            parse_cmd(c)
        return Opq('args', ()) if c.name == 'parse_args' else Tup((Opq('args', ()), c.alloc(ListV(EMPTY))))
    return NotImplemented


@me('print_help', 'print_usage', 'set_defaults', 'error')
def m_help(c, v):
    if isinstance(v, Opq) and v.name == 'argparser':
        if c.name == 'error':
            c.I.effect('stderr', c.st, (K(c.name),), c.node)
            c.I.effect('exit', c.st, (N(num(2), 'int'),), c.node)
            c.raise_('SystemExit')
            raise Dead()
        f = c.c(c.a[0] if c.a else c.kw.get('file')) if c.a or 'file' in c.kw else None
        if c.name.startswith('print'):
            c.I.effect('stderr' if isinstance(f, Opq) and f.name == 'sys.stderr' else 'stdout', c.st, (K(c.name),), c.node)
        return NONE
    return NotImplemented


# ------------------------------------------------------------------ counting and transforms
def residue(p, m):
    """p is syntactically a remainder modulo m > 0"""
    lo = T.rng(m)[0]
    if lo is None or lo <= 0:
        return False
    for mono in p.d:
        for a, e in mono:
            if T.ATOMS[a].kind == 'floor' and e == 1:
                f = T.of_atom(T.ATOMS[a])
                if T.floordiv(p + m * f, m) == f:
                    return True
    return False


@bi('np.bincount')
def b_bincount(c):
    v = c.c(c.a[0])
    ml = c.arg(2, 'minlength')
    if not isinstance(v, ArrV) or v.ncol is not None or set(c.kw) - {'minlength'} or len(c.a) > 1 and c.a[1] != NONE or v.dt in FLOATS:
        return c.opq()
    L = c.n(ml) if ml is not None else N(T.ZERO, 'int')
    if L is None:
        return c.opq()

    def some(f):
        return any_of(c.I, v.s, lambda x: f(c.I.tonum(x).p))
    try:
        neg, over = some(lambda p: T.lt(p, T.ZERO)), some(lambda p: 0 if residue(p, L.p) else T.le(L.p, p))
    except AttributeError:
        return c.opq()
    if neg is None or over is None:
        return c.opq()
    if neg != 0:
        c.I.raise_if(neg, ExcV('ValueError', ()), c.st, c.ctx, c.node)
    n = L.p
    if over != 0:
        top = T.fn('topval', v, isint=True, lo=0) + T.ONE
        n = T.ite(over, top, n)
    try:
        return c.alloc(ArrV(tally(c.I, v.s, n), 'i8', None))
    except Abort:
        return c.opq()


def tally(I, s, n):
    """element k < n: how many elements of s equal k"""
    s = smap_elem(s, lambda x: N(I.tonum(x).p, 'num'))
    if s is None:
        raise Abort('tally')
    h = 1 + height(s)
    return smap(n, 1, h, N(T.fn('tally', ArrV(s, 'num', None), idx(h), isint=True, lo=0), 'i8'))


T.EVAL_FN['tally'] = lambda val, at, v, k: Fraction(sum(1 for x in v.ev(val) if _numev(x) == T.ev(k, val)))
T.EVAL_FN['topval'] = lambda val, at, v: max([Fraction(_numev(x)) for x in v.ev(val)] or [Fraction(0)])


def conj(p):
    """complex conjugate: an involution that respects sums and products; symbols and indicators are real"""
    r = T.ZERO
    for m, k in p.d.items():
        t = num(k)
        for a, e in m:
            at = T.ATOMS[a]
            x = T.of_atom(at)
            if at.kind == 'fn' and at.args[0] == 'conj':
                x = at.args[1]
            elif at.kind == 'fn' and at.args[0] in COMPLEX:
                x = T.fn('conj', x)
            for _ in range(abs(e)):
                t = t * x if e > 0 else T.div(t, x)
        r = r + t
    return r


COMPLEX = {'rfft'}


def _transform(name, length):
    def f(c):
        v = c.c(c.a[0])
        nn = c.arg(1, 'n')
        if not isinstance(v, ArrV) or v.ncol is not None or set(c.kw) - {'n', 'workers', 'overwrite_x'} or len(c.a) > 2 or nn is not None and nn != NONE and name == 'rfft':
            return c.opq()
        s = smap_elem(v.s, lambda x: N(c.I.tonum(x).p, 'num'))
        if s is None:
            return c.opq()
        m = length(slen(s)) if nn is None or nn == NONE else c.n(nn).p
        arr = ArrV(s, 'num', None)
        h = 1 + height(s)
        return c.alloc(ArrV(smap(m, 1, h, N(T.fn(name, arr, m, idx(h)), 'c16' if name == 'rfft' else 'f8')), 'c16' if name == 'rfft' else 'f8', None))
    return f


for _p in ('scipy.fft.', 'np.fft.', 'scipy.fftpack.'):
    if 'pack' not in _p:
        bi(_p + 'rfft')(_transform('rfft', lambda n: T.floor(n * Fraction(1, 2)) + T.ONE))
        bi(_p + 'irfft')(_transform('irfft', lambda n: (n - T.ONE) * 2))


def _ev_transform(val, at, v, m, i):
    return Fraction(val.pick((at.args[0], tuple(_numev(x) for x in v.ev(val)), T.ev(m, val), T.ev(i, val)), True, -1000, 1000))


T.EVAL_FN['rfft'] = T.EVAL_FN['irfft'] = _ev_transform
T.EVAL_FN['conj'] = lambda val, at, x: Fraction(val.pick(('conj', T.ev(x, val)), True, -1000, 1000))


@bi('np.conjugate', 'np.conj')
def b_conj(c):
    v = c.c(c.a[0])
    if isinstance(v, N):
        return N(conj(v.p), v.dt)
    if isinstance(v, ArrV) and v.ncol is None:
        s = smap_elem(v.s, lambda x: N(conj(c.I.tonum(x).p), v.dt))
        if s is not None:
            return c.alloc(ArrV(s, v.dt, None))
    return Opq('np.conjugate', (c.fz(c.a[0]),))


@bi('np.clip')
def b_clip(c):
    if set(c.kw) - {'a_min', 'a_max', 'min', 'max'}:
        return c.opq()
    lo, hi = c.arg(1, 'a_min') or c.kw.get('min'), c.arg(2, 'a_max') or c.kw.get('max')
    r = c.c(c.a[0])
    if lo is not None and lo != NONE:
        r = pairwise(c, r, c.c(lo), False)
    if hi is not None and hi != NONE:
        r = pairwise(c, c.c(r), c.c(hi), True)
    return r
