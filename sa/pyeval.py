"""Abstract interpreter: Python AST -> gated value graph (no execution of the analysed program).

One abstract pass per function context; both arms of every branch are analysed and joined with a
gating predicate, loops are summarised by their transfer function (values.LoopCanon)."""
import ast
import os
from fractions import Fraction
from . import terms as T
from .terms import Num, num, BArg
from . import values as VV
from .values import *


class Dead(Exception):
    """control cannot continue here"""


class Abort(Exception):
    """analysis gives up on this obligation"""


class _Undef:
    def __repr__(self):
        return '<undef>'


UNDEF = K(_Undef())


class ModV(V):
    F = ('name',)
    __slots__ = F


class FuncV(V):
    F = ('uid', 'name')
    __slots__ = F          # payload in Interp.funcs[uid]


class BMeth(V):
    """bound method: receiver value/ref + name, or (func, self)"""
    F = ('recv', 'name')
    __slots__ = F


class BuiltinV(V):
    F = ('name',)
    __slots__ = F


class ClassV(V):
    F = ('uid', 'name')
    __slots__ = F


class EnumV(V):
    F = ('cls', 'name', 'value')
    __slots__ = F

    def ev(self, val):
        return (self.cls, self.name)


class PartialV(V):
    F = ('f', 'args', 'kw')
    __slots__ = F


class ExcV(V):
    F = ('cls', 'args')
    __slots__ = F


class RangeV(V):
    F = ('a', 'b', 'step')
    __slots__ = F


class SliceV(V):
    F = ('a', 'b', 'step')
    __slots__ = F


class FuncInfo:
    pass


class ClassInfo:
    pass


class State:
    __slots__ = ('frames', 'heap', 'pc')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = 1

    def fork(self, c=1):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = T.band(self.pc, c)
        return s

    def become(self, o):
        self.frames, self.heap, self.pc = o.frames, o.heap, o.pc


class Ctx:
    def __init__(self, fid, mod, fname):
        self.fid = fid
        self.mod = mod
        self.fname = fname
        self.returns = []
        self.raises = []
        self.brk = None
        self.cont = None
        self.globals = set()
        self.nonlocals = set()
        self.yields = None
        self.chain = ()


class Effect:
    __slots__ = ('kind', 'pc', 'data', 'line', 'func', 'loops')

    def __init__(self, kind, pc, data, line, func, loops):
        self.kind, self.pc, self.data, self.line, self.func, self.loops = kind, pc, data, line, func, loops

    def __repr__(self):
        return f'{self.kind}@{self.func}:{self.line} {self.data} if {T.showb(self.pc)}'


BUILTINS = set('''len range enumerate zip map filter int float str bool abs min max sum sorted list tuple dict set
print open hex round any all isinstance hasattr getattr iter next reversed divmod pow repr format super type input ord
chr bytes bytearray memoryview globals locals callable setattr id vars issubclass frozenset slice bin object property
staticmethod classmethod'''.split())

EXC = {n: getattr(__builtins__ if not isinstance(__builtins__, dict) else None, n, None) for n in ()}
import builtins as _bi
EXC = {n: v for n, v in vars(_bi).items() if isinstance(v, type) and issubclass(v, BaseException)}

INT_RANGE = {'u1': (0, 2**8 - 1), 'u2': (0, 2**16 - 1), 'u4': (0, 2**32 - 1), 'u8': (0, 2**64 - 1),
             'i1': (-2**7, 2**7 - 1), 'i2': (-2**15, 2**15 - 1), 'i4': (-2**31, 2**31 - 1), 'i8': (-2**63, 2**63 - 1)}
BITS = {'u1': 8, 'u2': 16, 'u4': 32, 'u8': 64, 'i1': 8, 'i2': 16, 'i4': 32, 'i8': 64}
FLOATS = ('float', 'f4', 'f8', 'f16')


def is_int_dt(d):
    return d == 'int' or d in BITS or d == 'bool'


def dtcode(x):
    """dtype descriptor value -> (code, itemsize, bigendian)"""
    if isinstance(x, K) and isinstance(x.o, str):
        s = x.o
        big = s[:1] in ('>', '!')
        s = s.lstrip('<>=|!@')
        m = {'I': 'u4', 'L': 'u8', 'Q': 'u8', 'H': 'u2', 'B': 'u1', 'i': 'i4', 'l': 'i8', 'q': 'i8', 'h': 'i2', 'b': 'i1',
             'd': 'f8', 'f': 'f4', 'g': 'f16', '?': 'bool', 'uint8': 'u1', 'uint16': 'u2', 'uint32': 'u4',
             'uint64': 'u8', 'int8': 'i1', 'int16': 'i2', 'int32': 'i4', 'int64': 'i8', 'float64': 'f8',
             'float32': 'f4', 'float128': 'f16', 'longdouble': 'f16', 'float': 'f8', 'int': 'i8', 'bool': 'bool',
             'object': 'O', 'O': 'O'}
        if s in m:
            return m[s], big
        if s in BITS or s in ('f8', 'f4', 'f16'):
            return s, big
        if s[:1] in 'US':
            return s, big
        return None, False
    if isinstance(x, BuiltinV):
        n = x.name.split('.')[-1]
        m = {'uint8': 'u1', 'uint16': 'u2', 'uint32': 'u4', 'uint64': 'u8', 'int8': 'i1', 'int16': 'i2', 'int32': 'i4',
             'int64': 'i8', 'float64': 'f8', 'float32': 'f4', 'float128': 'f16', 'longdouble': 'f16', 'float': 'f8',
             'int': 'i8', 'bool': 'bool', 'bool_': 'bool', 'object': 'O', 'double': 'f8', 'uintc': 'u4', 'intc': 'i4',
             'ulonglong': 'u8', 'longlong': 'i8', 'uint': 'u8', 'int_': 'i8', 'byte': 'i1', 'ubyte': 'u1', 'object_': 'O',
             'str': 'U', 'single': 'f4', 'float_': 'f8'}
        return m.get(n), False
    if isinstance(x, Opq) and x.name == 'dtype':
        return x.args[0].o, False
    return None, False


def np_result(a, b, sa, sb, va=None, vb=None):
    """numpy-1 result dtype.  a,b dtype codes; sa,sb = is scalar; python scalars have dt int/float"""
    if 'O' in (a, b):
        return 'O'
    def kind(d):
        return 0 if d == 'bool' else 1 if is_int_dt(d) else 2
    # both python scalars handled elsewhere
    if a in ('int', 'float') or b in ('int', 'float') or sa != sb:
        if sa and not sb:
            a, b, va, vb, sa, sb = b, a, vb, va, sb, sa
        if sb and not sa:
            # array a with scalar b : value based within kind
            if kind(b) < kind(a) or (kind(b) == kind(a)):
                if kind(a) == 2:
                    return a if not (b == 'f16' and a != 'f16') else a
                if kind(a) == 1 and kind(b) == 1:
                    # signedness: negative scalar with unsigned array promotes
                    if a.startswith('u') and vb is not None:
                        r = T.rng(vb)
                        if r[0] is None or r[0] < 0:
                            if vb.const() is not None and vb.const() < 0:
                                return {'u1': 'i2', 'u2': 'i4', 'u4': 'i8', 'u8': 'f8'}[a]
                    if vb is not None and b == 'int':
                        r = T.rng(vb)
                        c = vb.const()
                        if c is not None and a in INT_RANGE and not (INT_RANGE[a][0] <= c <= INT_RANGE[a][1]):
                            for d in ('u4', 'i8', 'u8'):
                                if INT_RANGE[d][0] <= c <= INT_RANGE[d][1]:
                                    return np_result(a, d, False, False)
                    return a
                if kind(a) == 1 and kind(b) == 0:
                    return a
                return a
            # scalar kind greater
            if kind(b) == 2:
                if b == 'f16':
                    return 'f16'
                return 'f8' if a not in ('f16',) else 'f16'
            if a == 'bool':
                return 'i8' if b == 'int' else b
        a = {'int': 'i8', 'float': 'f8'}.get(a, a)
        b = {'int': 'i8', 'float': 'f8'}.get(b, b)
    if a == b:
        return a
    if a == 'bool':
        return b
    if b == 'bool':
        return a
    if kind(a) == 2 or kind(b) == 2:
        for d in ('f16', 'f8'):
            if d in (a, b):
                return d
        return 'f8'
    if a[0] == b[0]:
        return a if BITS[a] >= BITS[b] else b
    u, i = (a, b) if a[0] == 'u' else (b, a)
    if BITS[u] < BITS[i]:
        return i
    return {8: 'i2', 16: 'i4', 32: 'i8', 64: 'f8'}[BITS[u]]


exact_in = T.exact_in


class Interp:
    def __init__(self, root, opaque=(), real=False, files=None, may_raise=None, summaries=None):
        self.root = root
        self.opaque = set(opaque)
        self.real = real
        self.fold = False           # constants of Python floats: IEEE double instead of real arithmetic
        self.files = files or {}
        self.may_raise = may_raise or {}
        self.summaries = summaries or {}
        self.funcs = {}
        self.classes = {}
        self.modules = {}
        self.effects = []
        self.notes = []
        self.nid = 0
        self.depth = 0
        self.loopstack = []
        self.assume = 1
        self.st0 = State()
        self.st0.heap['stdout'] = FileV(K('<stdout>'), 'w', T.ZERO, EMPTY)
        self.visited = set()
        self.argspec = {}
        self.argdefs = {}
        self.cmd = None        # command line under analysis: (options, positionals)
        self.cmdvals = {}
        self.loopinfo = []
        self.mut_guard = {}
        self.inputs = None     # what input() returns, in order, before it is interrupted
        self.unreadable = ()   # paths that cannot be opened
        self.missing = ()      # paths of files that do not exist
        self.views = {}        # array made by slicing or reinterpreting another: id -> (id of that one, contents when made)
        self.vwrites = []      # (id of the view, id of the array below it)
        self.nodes_seen = 0
        self.cur = None

    # ------------------------------------------------------------ utilities
    def new(self):
        self.nid += 1
        return self.nid

    def alloc(self, st, content):
        i = self.new()
        st.heap[i] = content
        return Ref(i)

    def deref(self, v, st):
        if isinstance(v, Ref):
            return st.heap[v.id]
        if isinstance(v, Ite):
            v = self.resolve(v, st)
            if isinstance(v, Ite):
                a, b = self.deref(v.a, st), self.deref(v.b, st)
                return vite(v.c, a, b)
            return self.deref(v, st)
        return v

    def freeze(self, v, st, seen=0):
        """deep pure value"""
        if isinstance(v, Ref):
            return self.freeze(st.heap[v.id], st)
        if isinstance(v, Tup):
            return Tup(tuple(self.freeze(x, st) for x in v.items))
        if isinstance(v, Named):
            return Named(v.cname, v.names, tuple(self.freeze(x, st) for x in v.items))
        if isinstance(v, Ite):
            return vite(v.c, self.freeze(v.a, st), self.freeze(v.b, st))
        if isinstance(v, ListV):
            return ListV(self.fseq(v.s, st))
        if isinstance(v, ArrV):
            return v
        if isinstance(v, DictV):
            return DictV(tuple((k, self.freeze(x, st)) for k, x in v.items))
        if isinstance(v, ObjV):
            return ObjV(v.cls, v.names, tuple(self.freeze(x, st) for x in v.items))
        return v

    def fseq(self, s, st):
        if isinstance(s, Lit):
            return Lit(tuple(self.freeze(x, st) for x in s.items))
        return s

    def thaw(self, v, st):
        """pure container -> fresh reference"""
        if isinstance(v, (ArrV, ListV, DictV, ObjV, SetV, GenV)):
            return self.alloc(st, v)
        if isinstance(v, Tup):
            return Tup(tuple(self.thaw(x, st) for x in v.items))
        if isinstance(v, Ite):
            return vite(v.c, self.thaw(v.a, st), self.thaw(v.b, st))
        return v

    def unk(self, why, node=None):
        self.notes.append(('unknown', why, getattr(node, 'lineno', None), self.cur))
        return Unk(why)

    def known(self, st):
        return T.band(self.assume, st.pc)

    def resolve(self, v, st):
        while isinstance(v, Ite):
            k = self.known(st)
            if T.implies(k, v.c):
                v = v.a
            elif T.implies(k, T.bnot(v.c)):
                v = v.b
            else:
                break
        return v

    def effect(self, kind, st, data, node):
        self.effects.append(Effect(kind, st.pc, data, getattr(node, 'lineno', None), self.cur, tuple(self.loopstack)))

    # ------------------------------------------------------------ modules
    def modpath(self, name):
        base = os.path.join(self.root, 'src', *name.split('.'))
        if os.path.isfile(base + '.py'):
            return base + '.py'
        if os.path.isfile(os.path.join(base, '__init__.py')):
            return os.path.join(base, '__init__.py')
        return None

    def module(self, name):
        m = self.modules.get(name)
        if m:
            return m
        path = self.modpath(name)
        if path is None:
            return None
        src = open(path).read()
        return self.load_source(name, src, path)

    def load_source(self, name, src, path='<spec>'):
        fid = ('mod', name)
        self.modules[name] = fid
        st = self.st0
        st.frames[fid] = {'__name__': K(name), '__doc__': K('doc'), '__file__': K(path)}
        ctx = Ctx(fid, name, '<module>')
        ctx.chain = (fid,)
        tree = ast.parse(src)
        d = ast.get_docstring(tree, clean=False)
        st.frames[fid]['__doc__'] = K(d)
        old = self.cur
        self.cur = name
        try:
            self.block(tree.body, st, ctx)
        except Dead:
            pass
        self.cur = old
        return fid

    def attr_of_module(self, fid, name, st):
        fr = st.frames.get(fid) or self.st0.frames.get(fid)
        if fr is not None and name in fr:
            return fr[name]
        return None

    def func(self, qual):
        """look up repo function 'pkg.mod.func'"""
        mod, _, fn_ = qual.rpartition('.')
        fid = self.module(mod)
        if fid is None:
            return None
        return self.st0.frames[fid].get(fn_)

    # ------------------------------------------------------------ state join
    def join(self, s1, s2):
        """join two states into a new one (either may be None)"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        tot = T.bor(s1.pc, s2.pc)
        if s1.pc == 0:
            return s2
        if s2.pc == 0:
            return s1
        c = T.restrict(s1.pc, tot)
        # prefer the simpler of c and not(s2)
        r = State()
        r.pc = tot
        for f in set(s1.frames) | set(s2.frames):
            a, b = s1.frames.get(f), s2.frames.get(f)
            if a is None or b is None:
                r.frames[f] = dict(a if b is None else b)
                continue
            d = {}
            for n in list(a) + [x for x in b if x not in a]:
                x, y = a.get(n, UNDEF), b.get(n, UNDEF)
                d[n] = x if x is y or x == y else vite(c, x, y)
            r.frames[f] = d
        for i in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(i), s2.heap.get(i)
            if a is None or b is None:
                r.heap[i] = a if b is None else b
            else:
                r.heap[i] = a if a is b or a == b else vite(c, a, b)
        return r

    def joinall(self, sts):
        r = None
        for s in sts:
            r = self.join(r, s)
        return r

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, ctx):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st, ctx)
        return st

    def stmt(self, s, st, ctx):
        self.nodes_seen += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Abort(f'statement {type(s).__name__} at line {s.lineno}')
        try:
            return m(s, st, ctx)
        except Dead:
            return None

    def s_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st, ctx)
        return st

    def s_Pass(self, s, st, ctx):
        return st

    def s_Import(self, s, st, ctx):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            self.bind(nm, self.import_module(full, st), st, ctx)
        return st

    def import_module(self, full, st):
        if self.modpath(full):
            self.module(full)
            # module frames live in st0; copy if state is different
            self.sync(st)
        return ModV(full)

    def sync(self, st):
        if st is self.st0:
            return
        for f, d in self.st0.frames.items():
            if f not in st.frames:
                st.frames[f] = dict(d)
        for i, c in self.st0.heap.items():
            if i not in st.heap:
                st.heap[i] = c

    def s_ImportFrom(self, s, st, ctx):
        mod = s.module or ''
        if s.level:
            base = ctx.mod.split('.')
            path = self.modpath(ctx.mod) or ''
            if not path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        if self.modpath(mod):
            fid = self.module(mod)
            self.sync(st)
        else:
            fid = None
        for a in s.names:
            nm = a.asname or a.name
            if a.name == '*':
                if fid:
                    for k, v in self.st0.frames[fid].items():
                        if not k.startswith('_'):
                            self.bind(k, v, st, ctx)
                continue
            v = None
            if fid:
                v = self.attr_of_module(fid, a.name, st)
                if v is None and self.modpath(mod + '.' + a.name):
                    v = self.import_module(mod + '.' + a.name, st)
            else:
                v = self.ext(mod + '.' + a.name)
            if v is None:
                v = Unk(f'import {mod}.{a.name}')
            self.bind(nm, v, st, ctx)
        return st

    def ext(self, dotted):
        """name of an external library"""
        d = dotted
        if d in ('pathlib.Path', 'collections.abc.Iterator', 'typing.NamedTuple', 'dataclasses.dataclass', 'dataclasses.field'):
            return BuiltinV(d)
        if d in ('scipy.fft', 'os.path', 'numpy.fft', 'matplotlib.pyplot', 'collections.abc'):
            return ModV(d)
        if d.startswith('numpy.'):
            return self.np_attr(d[6:])
        if d == 'math.pi':
            return N(T.sym('pi', False, 3, 4), 'float')
        return BuiltinV(d)

    def np_attr(self, n):
        if n in ('inf', 'nan', 'pi', 'newaxis'):
            return Opq('np.' + n, ())
        return BuiltinV('np.' + n)

    def bind(self, name, v, st, ctx):
        fid = ctx.fid
        if name in ctx.globals:
            fid = ('mod', ctx.mod)
        elif name in ctx.nonlocals:
            for f in ctx.chain[1:]:
                if name in st.frames.get(f, {}):
                    fid = f
                    break
        st.frames[fid][name] = v

    def lookup(self, name, st, ctx, node=None):
        for f in ((ctx.chain if name not in ctx.globals else ()) + (('mod', ctx.mod),)):
            fr = st.frames.get(f)
            if fr is not None and name in fr:
                v = fr[name]
                if isinstance(v, Ite):
                    v = self.resolve(v, st)
                    if isinstance(v, Ite) and v.a == UNDEF:
                        v = v.b
                    elif isinstance(v, Ite) and v.b == UNDEF:
                        v = v.a
                if v == UNDEF:
                    self.notes.append(('undefined-variable', name, getattr(node, 'lineno', None), self.cur))
                    return Unk('undefined ' + name)
                return v
        if name in BUILTINS:
            return BuiltinV(name)
        if name in EXC:
            return BuiltinV(name)
        if name in ('True', 'False'):
            return B(int(name == 'True'))
        if name == '__name__':
            return K(ctx.mod)
        self.notes.append(('undefined-variable', name, getattr(node, 'lineno', None), self.cur))
        return Unk('undefined ' + name)

    def s_Assign(self, s, st, ctx):
        v = self.ev(s.value, st, ctx)
        for t in s.targets:
            self.assign(t, v, st, ctx)
        return st

    def s_AnnAssign(self, s, st, ctx):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, ctx), st, ctx)
        return st

    def s_AugAssign(self, s, st, ctx):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, ctx, t)
            r = self.augop(op, cur, s.value, st, ctx, s)
            self.bind(t.id, r, st, ctx)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, ctx)
            cur = self.getattr(o, t.attr, st, ctx, t)
            r = self.augop(op, cur, s.value, st, ctx, s)
            self.setattr(o, t.attr, r, st, ctx, s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, ctx)
            i = self.evslice(t.slice, st, ctx)
            cur = self.getitem(o, i, st, ctx, t)
            if isinstance(cur, Ref):
                self.views.pop(cur.id, None)
            r = self.augop(op, cur, s.value, st, ctx, s, elem=True)
            self.setitem(o, i, r, st, ctx, s)
        else:
            raise Abort('augmented assignment target')
        return st

    def augop(self, op, cur, vnode, st, ctx, s, elem=False):
        rhs = self.ev(vnode, st, ctx)
        c = self.deref(cur, st)
        if isinstance(cur, Ref) and isinstance(c, ArrV):
            r = self.binop(op, cur, rhs, st, ctx, s)
            rc = self.deref(r, st)
            if isinstance(rc, ArrV):
                if rc.dt != c.dt:
                    rc = self.arr_cast(rc, c.dt, st)
                if not elem:
                    self.mutate(cur, st, s)
                st.heap[cur.id] = rc
                return cur
            st.heap[cur.id] = Unk('array in-place') if not isinstance(rc, Unk) else rc
            return cur
        if isinstance(cur, Ref) and isinstance(c, ListV) and op == 'Add':
            sq = self.toseq(rhs, st, ctx, s)
            if sq is None:
                st.heap[cur.id] = Unk('list +=')
            else:
                self.mutate(cur, st, s)
                st.heap[cur.id] = ListV(scat([c.s, sq]))
            return cur
        if isinstance(cur, Ref) and isinstance(c, SetV):
            r = self.binop(op, cur, rhs, st, ctx, s)
            st.heap[cur.id] = self.deref(r, st)
            return cur
        return self.binop(op, cur, rhs, st, ctx, s)

    def mutate(self, ref, st, node):
        if isinstance(ref, Ref) and ref.id in self.mut_guard:
            self.effect('mutate', st, (self.mut_guard[ref.id],), node)
        if self.views and isinstance(ref, Ref):
            # what shares storage with it is no longer known
            up = ref.id
            while up in self.views:
                up = self.views[up][0]
                self.vwrites.append((ref.id, up, st.pc, getattr(node, 'lineno', None), self.cur))
                if up in st.heap:
                    st.heap[up] = Unk('written through a view')
            for v, (b, _) in self.views.items():
                if v != ref.id and b == ref.id and v in st.heap:
                    st.heap[v] = Unk('the array it shows was written to')

    def view(self, new, old, st):
        """new shows the storage of old"""
        if isinstance(new, Ref) and isinstance(old, Ref) and new.id != old.id and isinstance(self.deref(old, st), ArrV) and isinstance(self.deref(new, st), ArrV):
            self.views[new.id] = (old.id, self.deref(new, st))
        return new

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, ctx)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts, st, ctx, t)
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, st, ctx)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st, ctx), t.attr, v, st, ctx, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, st, ctx), self.evslice(t.slice, st, ctx), v, st, ctx, t)
        else:
            raise Abort('assignment target ' + type(t).__name__)

    def unpack(self, v, elts, st, ctx, node):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        v = self.resolve(v, st)
        c = self.deref(v, st)
        if isinstance(c, (Tup, Named)):
            items = c.items
            if star:
                k = star[0]
                rest = n - k - 1
                mid = self.alloc(st, ListV(Lit(tuple(items[k:len(items) - rest]))))
                return list(items[:k]) + [mid] + list(items[len(items) - rest:])
            if len(items) != n:
                self.notes.append(('arity', f'unpack {len(items)} values into {n}', node.lineno, self.cur))
                self.raise_(ExcV('ValueError', ()), st, ctx)
                raise Dead()
            return list(items)
        if isinstance(c, Ite):
            a = self.unpack(c.a, elts, st, ctx, node)
            b = self.unpack(c.b, elts, st, ctx, node)
            return [vite(c.c, x, y) for x, y in zip(a, b)]
        s = self.toseq(v, st, ctx, node)
        if isinstance(s, Lit) and not star and len(s.items) == n:
            return [self.thaw(x, st) for x in s.items]
        if isinstance(c, ArrV) and isinstance(s, Map) and c.ncol is None and isinstance(s.elem, ArrV):
            return [self.thaw(sget(s, num(i)), st) for i in range(n)]
        if star:
            return [self.unk('starred unpack', node)] * n
        if isinstance(c, (Opq, Unk)):
            return [self.opq_item(c, num(i)) for i in range(n)]
        if s is not None:
            return [self.thaw(sget(s, num(i)), st) for i in range(n)]
        return [self.unk('unpack', node)] * n

    def opq_item(self, c, i):
        if isinstance(c, Unk):
            return c
        return Opq('item', (c, i))

    def s_Return(self, s, st, ctx):
        v = self.ev(s.value, st, ctx) if s.value is not None else NONE
        ctx.returns.append((st, v, s.lineno))
        return None

    def s_If(self, s, st, ctx):
        c = self.truth(self.ev(s.test, st, ctx), st, ctx, s)
        return self.branch(c, lambda x: self.block(s.body, x, ctx), lambda x: self.block(s.orelse, x, ctx), st)

    def branch(self, c, f, g, st):
        k = self.known(st)
        if T.implies(k, c):
            return f(st)
        if T.implies(k, T.bnot(c)):
            return g(st)
        s1, s2 = st.fork(c), st.fork(T.bnot(c))
        r1 = f(s1)
        r2 = g(s2)
        return self.join(r1, r2)

    def s_Break(self, s, st, ctx):
        ctx.brk.append(st)
        return None

    def s_Continue(self, s, st, ctx):
        ctx.cont.append(st)
        return None

    def s_Global(self, s, st, ctx):
        ctx.globals |= set(s.names)
        return st

    def s_Nonlocal(self, s, st, ctx):
        ctx.nonlocals |= set(s.names)
        return st

    def s_Assert(self, s, st, ctx):
        c = self.truth(self.ev(s.test, st, ctx), st, ctx, s)
        return self.raise_if(T.bnot(c), ExcV('AssertionError', ()), st, ctx, s)

    def s_Delete(self, s, st, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.bind(t.id, UNDEF, st, ctx)
        return st

    def raise_(self, exc, st, ctx, line=None):
        ctx.raises.append((st, exc, line, self.cur))

    def raise_if(self, c, exc, st, ctx, node):
        k = self.known(st)
        if T.implies(k, T.bnot(c)):
            return st
        line = getattr(node, 'lineno', None)
        if T.implies(k, c):
            self.raise_(exc, st.fork(), ctx, line)
            raise Dead()
        self.raise_(exc, st.fork(c), ctx, line)
        st.pc = T.band(st.pc, T.bnot(c))
        return st

    def s_Raise(self, s, st, ctx):
        if s.exc is None:
            exc = getattr(ctx, 'current_exc', None) or ExcV('RuntimeError', ())
        else:
            v = self.ev(s.exc, st, ctx)
            if isinstance(v, (BuiltinV, ClassV)):
                v = ExcV(v.name, ())
            exc = v if isinstance(v, ExcV) else ExcV('Exception', ())
        self.raise_(exc, st, ctx, s.lineno)
        return None

    def exc_match(self, exc, names):
        if names is None:
            return True
        cls = exc.cls
        anc = self.exc_anc(cls)
        return any(n in anc for n in names)

    def exc_anc(self, cls):
        if cls in EXC:
            return [c.__name__ for c in EXC[cls].__mro__]
        for ci in self.classes.values():
            if ci.name == cls:
                r = [cls]
                for b in ci.bases:
                    r += self.exc_anc(b)
                return r
        return [cls, 'Exception', 'BaseException']

    def s_Try(self, s, st, ctx):
        saved = ctx.raises
        ctx.raises = []
        nret = len(ctx.returns)
        end = self.block(s.body, st.fork(), ctx)
        if end is not None and s.orelse:
            caught = ctx.raises
            ctx.raises = saved_else = []
            end = self.block(s.orelse, end, ctx)
            extra = ctx.raises
            ctx.raises = caught
        else:
            extra = []
        raised = ctx.raises
        ctx.raises = saved
        outs = [end]
        pend = list(extra)
        for (rs, exc, line, fn_) in raised:
            done = False
            for h in s.handlers:
                names = self.handler_names(h, st, ctx)
                if self.exc_match(exc, names):
                    r2 = rs.fork()
                    # frames of callee are irrelevant; continue in this frame
                    if h.name:
                        self.bind(h.name, exc, r2, ctx)
                    old = getattr(ctx, 'current_exc', None)
                    ctx.current_exc = exc
                    if s.finalbody:
                        sv = ctx.raises
                        ctx.raises = []
                        o = self.block(h.body, r2, ctx)
                        pend += ctx.raises
                        ctx.raises = sv
                    else:
                        o = self.block(h.body, r2, ctx)
                    ctx.current_exc = old
                    outs.append(o)
                    done = True
                    break
            if not done:
                pend.append((rs, exc, line, fn_))
        r = self.joinall([o for o in outs if o is not None])
        if s.finalbody:
            # run the finally block on every way out
            newret = ctx.returns[nret:]
            del ctx.returns[nret:]
            for (rs, v, line) in newret:
                o = self.block(s.finalbody, rs, ctx)
                if o is not None:
                    ctx.returns.append((o, v, line))
            for (rs, exc, line, fn_) in pend:
                o = self.block(s.finalbody, rs, ctx)
                if o is not None:
                    ctx.raises.append((o, exc, line, fn_))
            if r is not None:
                r = self.block(s.finalbody, r, ctx)
        else:
            ctx.raises += pend
        return r

    def handler_names(self, h, st, ctx):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.ev(t, st, ctx)
            out.append(v.name.split('.')[-1] if isinstance(v, (BuiltinV, ClassV)) else '?')
        return out

    def s_With(self, s, st, ctx):
        for it in s.items:
            v = self.ev(it.context_expr, st, ctx)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, ctx)
        return self.block(s.body, st, ctx)

    def s_FunctionDef(self, s, st, ctx):
        f = self.mkfunc(s, s.args, s.body, s.name, st, ctx)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, ctx)
            if isinstance(dv, BuiltinV) and dv.name in ('property', 'staticmethod', 'classmethod'):
                self.funcs[f.uid].deco = dv.name
                continue
            if isinstance(dv, BuiltinV) and not dv.name.startswith('functools'):
                continue
            f = self.call(dv, [f], {}, st, ctx, s)
        self.bind(s.name, f, st, ctx)
        return st

    def mkfunc(self, node, args, body, name, st, ctx):
        fi = FuncInfo()
        fi.node, fi.args, fi.body, fi.name = node, args, body, name
        fi.chain = ctx.chain
        fi.mod = ctx.mod
        fi.deco = None
        fi.qual = (ctx.mod + '.' + name) if ctx.chain == (('mod', ctx.mod),) else ctx.mod + '.' + ctx.fname + '.<locals>.' + name
        fi.gen = not isinstance(node, ast.Lambda) and self._is_gen(body)
        fi.defaults = [self.ev(d, st, ctx) for d in args.defaults]
        fi.kwdefaults = [None if d is None else self.ev(d, st, ctx) for d in args.kw_defaults]
        u = ('f', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), fi.qual, self.new())
        self.funcs[u] = fi
        return FuncV(u, fi.qual)

    def _is_gen(self, body):
        st = list(body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st += list(ast.iter_child_nodes(n))
        return False

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, ctx):
        ci = ClassInfo()
        ci.name = s.name
        ci.bases = []
        for b in s.bases:
            v = self.ev(b, st, ctx)
            ci.bases.append(v.name.split('.')[-1] if isinstance(v, (BuiltinV, ClassV)) else '?')
            if isinstance(v, ClassV):
                pass
        ci.fields = []
        ci.methods = {}
        ci.attrs = {}
        ci.decos = []
        for d in s.decorator_list:
            v = self.ev(d.func if isinstance(d, ast.Call) else d, st, ctx)
            ci.decos.append(v.name.split('.')[-1] if isinstance(v, BuiltinV) else '?')
        cfid = ('cls', s.name, self.new())
        st.frames[cfid] = {}
        c2 = Ctx(cfid, ctx.mod, s.name)
        c2.chain = (cfid,) + ctx.chain
        ci.isenum = 'Enum' in ci.bases or 'IntEnum' in ci.bases
        ci.isnt = 'NamedTuple' in ci.bases
        for b in s.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                d = None
                if b.value is not None:
                    d = self.ev(b.value, st, c2)
                ci.fields.append((b.target.id, d))
            elif isinstance(b, (ast.FunctionDef,)):
                c3 = Ctx(cfid, ctx.mod, s.name)
                c3.chain = ctx.chain
                f = self.mkfunc(b, b.args, b.body, s.name + '.' + b.name, st, c3)
                self.funcs[f.uid].qual = ctx.mod + '.' + s.name + '.' + b.name
                for d in b.decorator_list:
                    dv = self.ev(d, st, ctx)
                    if isinstance(dv, BuiltinV):
                        self.funcs[f.uid].deco = dv.name.split('.')[-1]
                ci.methods[b.name] = f
            elif isinstance(b, ast.Assign):
                v = self.ev(b.value, st, c2)
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = v
                        st.frames[cfid][t.id] = v
            elif isinstance(b, ast.Expr):
                pass
        u = ('c', s.lineno, ctx.mod, s.name)
        ci.mod = ctx.mod
        self.classes[u] = ci
        cv = ClassV(u, s.name)
        ci.value = cv
        self.bind(s.name, cv, st, ctx)
        return st

    # ------------------------------------------------------------ loops
    def s_While(self, s, st, ctx):
        def test(x):
            return self.truth(self.ev(s.test, x, ctx), x, ctx, s)
        return self.loop(s, st, ctx, None, None, test, s.body, s.orelse)

    def s_For(self, s, st, ctx):
        it = self.ev(s.iter, st, ctx)
        return self.for_over(it, s, st, ctx)

    def for_over(self, it, s, st, ctx):
        def assign(x, v):
            self.assign(s.target, self.thaw(v, x), x, ctx)
        sq = self.toseq(it, st, ctx, s)
        if sq is None:
            sq = OpqSeq('iter', (self.freeze(it, st),))
            if not isinstance(self.deref(it, st), Opq):
                self.unk('iteration over unsupported value', s)
        return self.for_seq(sq, assign, s, st, ctx)

    def for_seq(self, sq, assign, s, st, ctx):
        has_break = self._has_break(s.body)
        if isinstance(sq, Lit) and len(sq.items) <= 40:
            return self.unroll(sq.items, assign, s, st, ctx)
        if isinstance(sq, (Cat, Guard, IteS, Flat)) and not has_break and not s.orelse and not self._has_return(s.body):
            if isinstance(sq, Cat):
                for p in sq.parts:
                    if st is None:
                        return None
                    st = self.for_seq(p, assign, s, st, ctx)
                return st
            if isinstance(sq, Guard):
                return self.branch(sq.c, lambda x: self.for_seq(sq.s, assign, s, x, ctx), lambda x: x, st)
            if isinstance(sq, IteS):
                return self.branch(sq.c, lambda x: self.for_seq(sq.a, assign, s, x, ctx),
                                   lambda x: self.for_seq(sq.b, assign, s, x, ctx), st)
            if isinstance(sq, Flat):
                def body(x, k):
                    inner = ren(sq.seq, idx(sq.h), k)
                    p = ren(sq.pred, idx(sq.h), k)
                    return self.branch(p, lambda y: self.for_seq(inner, assign, s, y, ctx), lambda y: y, x)
                return self.loop(s, st, ctx, clamp0(sq.n), None, None, None, [], bodyfn=body)
        if isinstance(sq, Map):
            def bindk(x, k):
                if sq.pred != 1:
                    return ren(sq.pred, idx(sq.h), k), ren(sq.elem, idx(sq.h), k)
                return 1, ren(sq.elem, idx(sq.h), k)

            def body(x, k):
                p, e = bindk(x, k)

                def run(y):
                    assign(y, e)
                    return self.block(s.body, y, ctx)
                return self.branch(p, run, lambda y: y, x)
            return self.loop(s, st, ctx, clamp0(sq.n), None, None, None, s.orelse, bodyfn=body)
        n = slen(sq)

        def body(x, k):
            assign(x, sget(sq, k))
            return self.block(s.body, x, ctx)
        return self.loop(s, st, ctx, n, None, None, None, s.orelse, bodyfn=body)

    def _has_break(self, body):
        st = list(body)
        while st:
            n = st.pop()
            if isinstance(n, ast.Break):
                return True
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
                st += list(getattr(n, 'orelse', []))
                continue
            st += list(ast.iter_child_nodes(n))
        return False

    def _has_return(self, body):
        st = list(body)
        while st:
            n = st.pop()
            if isinstance(n, ast.Return):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            st += list(ast.iter_child_nodes(n))
        return False

    def unroll(self, items, assign, s, st, ctx):
        sb, sc = ctx.brk, ctx.cont
        broken = []
        for it in items:
            if st is None:
                break
            ctx.brk, ctx.cont = [], []
            assign(st, it)
            e = self.block(s.body, st, ctx)
            broken += ctx.brk
            st = self.joinall([x for x in [e] + ctx.cont if x is not None])
        ctx.brk, ctx.cont = sb, sc
        if st is not None and s.orelse:
            st = self.block(s.orelse, st, ctx)
        return self.joinall([x for x in [st] + broken if x is not None])

    unrolled = 0           # > 0: condition-controlled loops are followed for that many rounds only
    leftover = 0           # condition under which some loop needs more rounds than that

    def unroll_while(self, s, st, ctx, test, body, orelse):
        sb, sc = ctx.brk, ctx.cont
        brk, out, x = [], [], st.fork()
        feas = lambda y: y is not None and y.pc != 0 and not T.vanishes(y.pc)
        for k in range(self.unrolled):
            c = T.tsimp(test(x))
            ex = x.fork(T.bnot(c))
            if feas(ex):
                out.append(ex)
            x.pc = T.band(x.pc, c)
            if not feas(x):
                x = None
                break
            ctx.brk, ctx.cont = [], []
            try:
                e = self.block(body, x, ctx)
            except Dead:
                e = None
            brk += [b for b in ctx.brk if feas(b)]
            x = self.joinall([y for y in [e] + ctx.cont if feas(y)])
            if x is None:
                break
        ctx.brk, ctx.cont = sb, sc
        if x is not None:
            self.leftover = T.bor(self.leftover, x.pc)
        r = self.joinall(out)
        if r is not None and orelse:
            r = self.block(orelse, r, ctx)
        return self.joinall([y for y in [r] + brk if y is not None])

    step_loops = 0         # > 0: condition-controlled loops are followed step by step while their condition is decided

    def step_while(self, s, st, ctx, test, body, orelse):
        from .loops import run_loop
        sb, sc = ctx.brk, ctx.cont
        start, mark = st.fork(), (len(ctx.raises), len(ctx.returns), len(self.effects), len(self.notes), len(self.loopinfo))
        brk, r, x = [], None, st
        for k in range(self.step_loops):
            c = T.tsimp(test(x))
            known = self.known(x)
            if T.implies(known, T.bnot(c)):
                r = x
                break
            if not T.implies(known, c):
                ctx.brk, ctx.cont = sb, sc
                r = run_loop(self, s, x, ctx, None, test, body, orelse, None)
                break
            ctx.brk, ctx.cont = [], []
            try:
                e = self.block(body, x, ctx)
            except Dead:
                e = None
            feas = lambda y: y is not None and y.pc != 0 and not T.vanishes(y.pc)
            brk += [b for b in ctx.brk if feas(b)]
            x = self.joinall([y for y in [e] + ctx.cont if feas(y)])
            if x is None:
                break
        else:
            del ctx.raises[mark[0]:], ctx.returns[mark[1]:], self.effects[mark[2]:], self.notes[mark[3]:], self.loopinfo[mark[4]:]
            ctx.brk, ctx.cont = sb, sc
            return run_loop(self, s, start, ctx, None, test, body, orelse, None)
        ctx.brk, ctx.cont = sb, sc
        return self.joinall([y for y in [r] + brk if y is not None])

    def loop(self, s, st, ctx, dom, _b, test, body, orelse, bodyfn=None):
        if self.step_loops and dom is None and bodyfn is None:
            return self.step_while(s, st, ctx, test, body, orelse)
        if self.unrolled and dom is None and bodyfn is None:
            return self.unroll_while(s, st, ctx, test, body, orelse)
        from .loops import run_loop
        return run_loop(self, s, st, ctx, dom, test, body, orelse, bodyfn)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, ctx):
        self.nodes_seen += 1
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unk('expression ' + type(e).__name__, e)
        v = m(e, st, ctx)
        if isinstance(v, Ite):
            v = self.resolve(v, st)
        return v

    def e_Constant(self, e, st, ctx):
        v = e.value
        if isinstance(v, bool):
            return B(int(v))
        if isinstance(v, int):
            return N(num(v), 'int')
        if isinstance(v, float):
            return N(num(v), 'float')
        if isinstance(v, bytes):
            return Bytes(len(v), num(int.from_bytes(v, 'little')))
        return K(v)

    def e_Name(self, e, st, ctx):
        return self.lookup(e.id, st, ctx, e)

    def e_Tuple(self, e, st, ctx):
        return Tup(tuple(self.elts(e.elts, st, ctx)))

    def elts(self, elts, st, ctx):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.toseq(self.ev(x.value, st, ctx), st, ctx, x)
                if isinstance(s, Lit):
                    out += [self.thaw(y, st) for y in s.items]
                else:
                    raise Abort('starred element')
            else:
                out.append(self.ev(x, st, ctx))
        return out

    def e_List(self, e, st, ctx):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    q = self.toseq(self.ev(x.value, st, ctx), st, ctx, x)
                    if q is None:
                        return self.unk('starred', e)
                    parts.append(q)
                else:
                    parts.append(Lit((self.ev(x, st, ctx),)))
            return self.alloc(st, ListV(scat(parts)))
        return self.alloc(st, ListV(Lit(tuple(self.elts(e.elts, st, ctx)))))

    def e_Set(self, e, st, ctx):
        return self.mkset(Lit(tuple(self.elts(e.elts, st, ctx))), st, e)

    def mkset(self, s, st, node):
        p = self.member(N(setx(), 'int'), s, st)
        return self.alloc(st, SetV(p) if p is not None else OpqSetV(s))

    def e_Dict(self, e, st, ctx):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.deref(self.ev(v, st, ctx), st)
                if isinstance(d, DictV):
                    items += list(d.items)
                    continue
                return self.unk('dict **', e)
            items.append((self.freeze(self.ev(k, st, ctx), st), self.ev(v, st, ctx)))
        return self.alloc(st, DictV(tuple(items)))

    def e_JoinedStr(self, e, st, ctx):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.freeze(self.ev(p.value, st, ctx), st)
                sp = ''
                if p.format_spec is not None:
                    sp = self.e_JoinedStr(p.format_spec, st, ctx)
                    sp = sp.o if isinstance(sp, K) else sp
                parts.append((v, sp, chr(p.conversion) if p.conversion > 0 else -1))
        return fmt_join(parts)

    def e_FormattedValue(self, e, st, ctx):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), st, ctx)

    def e_Lambda(self, e, st, ctx):
        return self.mkfunc(e, e.args, e.body, '<lambda>', st, ctx)

    def e_IfExp(self, e, st, ctx):
        c = self.truth(self.ev(e.test, st, ctx), st, ctx, e)
        return self.choose(c, lambda x: self.ev(e.body, x, ctx), lambda x: self.ev(e.orelse, x, ctx), st)

    def choose(self, c, f, g, st):
        k = self.known(st)
        if T.implies(k, c):
            return f(st)
        if T.implies(k, T.bnot(c)):
            return g(st)
        s1, s2 = st.fork(c), st.fork(T.bnot(c))
        v1 = v2 = None
        try:
            v1 = f(s1)
        except Dead:
            s1 = None
        try:
            v2 = g(s2)
        except Dead:
            s2 = None
        r = self.join(s1, s2)
        if r is None:
            raise Dead()
        # allocations in either arm survive
        st.become(r)
        if v1 is None:
            return v2
        if v2 is None:
            return v1
        return vite(c, v1, v2)

    def e_BoolOp(self, e, st, ctx):
        isand = isinstance(e.op, ast.And)

        def go(i, x):
            v = self.ev(e.values[i], x, ctx)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, x, ctx, e)
            if isinstance(v, B):
                if isand:
                    return self.choose(c, lambda y: go(i + 1, y), lambda y: B(0), x)
                return self.choose(c, lambda y: B(1), lambda y: go(i + 1, y), x)
            if isand:
                return self.choose(c, lambda y: go(i + 1, y), lambda y: v, x)
            return self.choose(c, lambda y: v, lambda y: go(i + 1, y), x)
        return go(0, st)

    def e_UnaryOp(self, e, st, ctx):
        v = self.ev(e.operand, st, ctx)
        return self.unop(type(e.op).__name__, v, st, ctx, e)

    def unop(self, op, v, st, ctx, e):
        if op == 'Not':
            return B(T.bnot(self.truth(v, st, ctx, e)))
        c = self.deref(v, st)
        if isinstance(c, ArrV):
            r = smap_elem(c.s, lambda x: self.unop1(op, x, c.dt))
            return self.alloc(st, ArrV(r, c.dt, c.ncol)) if r is not None else self.unk('array ' + op, e)
        return self.unop1(op, c, getattr(c, 'dt', None), e)

    def unop1(self, op, v, dt, e=None):
        if isinstance(v, Ite):
            return vite(v.c, self.unop1(op, v.a, dt, e), self.unop1(op, v.b, dt, e))
        if isinstance(v, Tup):
            return Tup(tuple(self.unop1(op, x, dt, e) for x in v.items))
        if isinstance(v, B):
            if op == 'Invert':
                return B(T.bnot(v.b)) if dt == 'bool' else N(-T.bit(v.b) - 1, 'int')
            v = N(T.bit(v.b), 'int')
        v = self.tonum(v)
        if v is None:
            return self.unk('unary ' + op, e)
        if op == 'USub':
            p = -v.p
            return N(self.fit(p, v.dt), v.dt)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            return N(self.fit(-v.p - 1, v.dt), v.dt)
        return self.unk('unary', e)

    def e_BinOp(self, e, st, ctx):
        a = self.ev(e.left, st, ctx)
        b = self.ev(e.right, st, ctx)
        return self.binop(type(e.op).__name__, a, b, st, ctx, e)

    def e_Compare(self, e, st, ctx):
        left = self.ev(e.left, st, ctx)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, ctx)
            v = self.compare(type(op).__name__, left, right, st, ctx, e)
            if res is None:
                res = v
            else:
                if isinstance(res, B) and isinstance(v, B):
                    res = B(T.band(res.b, v.b))
                else:
                    res = self.binop('BitAnd', res, v, st, ctx, e)
            left = right
        return res

    def e_Call(self, e, st, ctx):
        f = self.ev(e.func, st, ctx)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, st, ctx)
                s = self.toseq(sv, st, ctx, a)
                if isinstance(s, Lit):
                    args += list(s.items)
                else:
                    args.append(StarV(self.freeze(sv, st)))
            else:
                args.append(self.ev(a, st, ctx))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, ctx)
            if k.arg is None:
                d = self.deref(v, st)
                if isinstance(d, DictV) and all(isinstance(x, K) for x, _ in d.items):
                    for kk, vv in d.items:
                        kw[kk.o] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, ctx, e)

    def e_Attribute(self, e, st, ctx):
        return self.getattr(self.ev(e.value, st, ctx), e.attr, st, ctx, e)

    def e_Subscript(self, e, st, ctx):
        o = self.ev(e.value, st, ctx)
        return self.getitem(o, self.evslice(e.slice, st, ctx), st, ctx, e)

    def evslice(self, s, st, ctx):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.ev(x, st, ctx)
            return SliceV(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return Tup(tuple(self.evslice(x, st, ctx) for x in s.elts))
        return self.ev(s, st, ctx)

    def e_Slice(self, e, st, ctx):
        return self.evslice(e, st, ctx)

    def e_NamedExpr(self, e, st, ctx):
        v = self.ev(e.value, st, ctx)
        self.assign(e.target, v, st, ctx)
        return v

    def e_Starred(self, e, st, ctx):
        return self.ev(e.value, st, ctx)

    def e_Yield(self, e, st, ctx):
        v = self.ev(e.value, st, ctx) if e.value is not None else NONE
        c = st.heap[ctx.yields]
        st.heap[ctx.yields] = ListV(scat([c.s, Lit((self.freeze(v, st),))]))
        return NONE

    def e_YieldFrom(self, e, st, ctx):
        v = self.ev(e.value, st, ctx)
        s = self.toseq(v, st, ctx, e)
        if s is None:
            raise Abort('yield from')
        c = st.heap[ctx.yields]
        st.heap[ctx.yields] = ListV(scat([c.s, s]))
        return NONE

    def e_ListComp(self, e, st, ctx):
        s = self.comp(e, e.elt, st, ctx)
        return self.alloc(st, ListV(s)) if s is not None else self.unk('list comprehension', e)

    def e_GeneratorExp(self, e, st, ctx):
        s = self.comp(e, e.elt, st, ctx)
        return self.alloc(st, GenV(s)) if s is not None else self.unk('generator expression', e)

    def e_SetComp(self, e, st, ctx):
        s = self.comp(e, e.elt, st, ctx)
        return self.mkset(s, st, e) if s is not None else self.unk('set comprehension', e)

    def e_DictComp(self, e, st, ctx):
        s = self.comp(e, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load(), lineno=e.lineno, col_offset=0), st, ctx)
        if isinstance(s, Lit):
            return self.alloc(st, DictV(tuple((x.items[0], x.items[1]) for x in s.items)))
        return self.unk('dict comprehension', e)

    def comp(self, e, elt, st, ctx):
        """comprehension as a loop appending to a hidden list"""
        acc = self.alloc(st, ListV(EMPTY))
        name = f'%acc{self.new()}'
        self.bind(name, acc, st, ctx)

        body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=name, ctx=ast.Load()), attr='append', ctx=ast.Load()),
                                        args=[elt], keywords=[]))]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        saved = {n: st.frames[ctx.fid].get(n) for n in self._targets(e)}
        for n in ast.walk(body[0]):
            if not hasattr(n, 'lineno'):
                n.lineno = e.lineno
                n.col_offset = e.col_offset
        r = self.stmt(body[0], st, ctx)
        if r is None:
            raise Dead()
        st.become(r)
        for n, v in saved.items():
            if v is None:
                st.frames[ctx.fid].pop(n, None)
            else:
                st.frames[ctx.fid][n] = v
        c = st.heap[acc.id]
        st.frames[ctx.fid].pop(name, None)
        if isinstance(c, ListV):
            return c.s
        return None

    def _targets(self, e):
        out = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    out.add(n.id)
        return out

    # ------------------------------------------------------------ truth / numbers
    def truth(self, v, st, ctx, node):
        v = self.resolve(v, st)
        if isinstance(v, B):
            return v.b
        if isinstance(v, N):
            return T.bnot(T.eq0(v.p))
        if isinstance(v, K):
            return int(bool(v.o))
        if isinstance(v, (Tup,)):
            return int(bool(v.items))
        if isinstance(v, Ite):
            return T.bite(v.c, self.truth(v.a, st, ctx, node), self.truth(v.b, st, ctx, node))
        if isinstance(v, Bytes):
            return int(v.n > 0)
        if isinstance(v, Chunk):
            return T.bnot(T.eq0(self.chunklen(v)))
        c = self.deref(v, st)
        if isinstance(c, (ListV,)):
            return T.bnot(T.eq0(slen(c.s)))
        if isinstance(c, ArrV):
            n = slen(c.s)
            if n.const() == 1:
                return self.truth(sget(c.s, T.ZERO), st, ctx, node)
            self.notes.append(('array-truth', 'truth value of array', getattr(node, 'lineno', None), self.cur))
            return T.bpred('arrtruth', c)
        if isinstance(c, DictV):
            return int(bool(c.items))
        if isinstance(c, Fmt):
            return 1 if any(isinstance(p, str) for p in c.parts) else T.bpred('nonempty', c)
        if isinstance(c, (FuncV, BuiltinV, ClassV, FileV, EnumV, ObjV, BMeth, ModV, PartialV, ExcV)):
            return 1
        if isinstance(c, SetV):
            return T.bnot(self.set_empty(c))
        return T.bpred('truth', self.freeze(c, st))

    def set_empty(self, c):
        if c.pred == 0:
            return 1
        return T.eq0(setlen(c.pred))

    def tonum(self, v):
        """number view of a scalar value or None"""
        if isinstance(v, N):
            return v
        if isinstance(v, B):
            return N(T.bit(v.b), 'int')
        if isinstance(v, (Opq, ExitV, MuV)):
            return N(opq_num(v), self.opq_dt(v))
        if isinstance(v, Ite):
            a, b = self.tonum(v.a), self.tonum(v.b)
            if a is None or b is None:
                # arithmetic on None raises: keep the numeric side
                if a is None and isinstance(v.a, K) and v.a.o is None:
                    return b
                if b is None and isinstance(v.b, K) and v.b.o is None:
                    return a
                return None
            r = vite(v.c, a, b)
            return r if isinstance(r, N) else None
        if isinstance(v, EnumV):
            return None
        return None

    def opq_dt(self, v):
        return getattr(self, 'opqdt', {}).get(getattr(v, 'name', None), 'float')

    def fit(self, p, dt):
        if dt in BITS:
            lo, hi = INT_RANGE[dt]
            return T.wrap_u(p, BITS[dt]) if dt[0] == 'u' else T.wrap_s(p, BITS[dt])
        if dt in FLOATS and not self.real:
            return T.roundto('round80' if dt == 'f16' else 'round32' if dt == 'f4' else 'round64', p)
        return p

    def arr_cast(self, a, dt, st):
        def f(x):
            if isinstance(x, Tup):
                return Tup(tuple(f(y) for y in x.items))
            if isinstance(x, Ite):
                return vite(x.c, f(x.a), f(x.b))
            return self.cast1(x, a.dt, dt)
        r = smap_elem(a.s, f)
        if r is None:
            return Unk('cast')
        return ArrV(r, dt, a.ncol)

    def cast1(self, x, src, dt):
        if dt == 'bool':
            if isinstance(x, B):
                return x
            n = self.tonum(x)
            return B(T.bnot(T.eq0(n.p))) if n else Unk('bool cast')
        if dt == 'O':
            return x
        if isinstance(x, (K, Opq)) and dt.startswith(('U', 'S')):
            return x
        n = self.tonum(x)
        if n is None:
            return x if isinstance(x, Unk) else Unk(f'cast to {dt}')
        p = n.p
        if dt in BITS:
            if not T.isint(p):
                p = T.trunc(p)
            return N(self.fit(p, dt), dt)
        return N(self.fit(p, dt), dt)

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b, st, ctx, node):
        a = self.resolve(a, st)
        b = self.resolve(b, st)
        ca, cb = self.deref(a, st), self.deref(b, st)
        if isinstance(ca, Unk):
            return ca
        if isinstance(cb, Unk):
            return cb
        if isinstance(ca, ArrV) or isinstance(cb, ArrV):
            if isinstance(ca, Ite) or isinstance(cb, Ite):
                return self.unk('array op with mixed value', node)
            return self.arr_binop(op, ca, cb, st, ctx, node)
        if isinstance(ca, ListV) or isinstance(cb, ListV):
            return self.list_binop(op, ca, cb, st, ctx, node)
        if isinstance(ca, SetV) and isinstance(cb, SetV):
            f = {'BitAnd': T.band, 'BitOr': T.bor, 'Sub': lambda x, y: T.band(x, T.bnot(y)),
                 'BitXor': T.bxor}.get(op)
            if f:
                return self.alloc(st, SetV(f(ca.pred, cb.pred)))
        return self.scal_binop(op, ca, cb, st, ctx, node)

    def scal_binop(self, op, a, b, st, ctx, node):
        if isinstance(a, Ite) and not self._numlike(a):
            return vite(a.c, self.scal_binop(op, a.a, b, st, ctx, node), self.scal_binop(op, a.b, b, st, ctx, node))
        if isinstance(b, Ite) and not self._numlike(b):
            return vite(b.c, self.scal_binop(op, a, b.a, st, ctx, node), self.scal_binop(op, a, b.b, st, ctx, node))
        if isinstance(a, (K, Fmt)) and op == 'Add' and isinstance(b, (K, Fmt, Opq)) and self._strlike(a):
            return fmt_join([(a, '', -1), (b, '', -1)])
        if isinstance(b, (K, Fmt)) and op == 'Add' and isinstance(a, Opq) and self._strlike(b):
            return fmt_join([(a, '', -1), (b, '', -1)])
        if isinstance(a, K) and isinstance(a.o, str) and op == 'Mult':
            n = self.tonum(b)
            if n is not None and n.p.const() is not None:
                return K(a.o * int(n.p.const()))
            return Opq('strmul', (a, b))
        if isinstance(a, K) and isinstance(a.o, str) and op == 'Mod':
            return self.percent(a.o, b, st)
        if isinstance(a, Tup) and isinstance(b, Tup) and op == 'Add':
            return Tup(a.items + b.items)
        if isinstance(a, Tup) and op == 'Mult' and self.tonum(b) is not None and self.tonum(b).p.const() is not None:
            return Tup(a.items * int(self.tonum(b).p.const()))
        if op == 'Div' and (self._pathlike(a) or (self._pathlike(b))):
            return pathjoin(a, b)
        if isinstance(a, Bytes) and isinstance(b, Bytes) and op == 'Add':
            return Bytes(a.n + b.n, a.v + b.v * (256 ** a.n))
        if isinstance(a, Bytes) and op == 'Mult':
            n = self.tonum(b)
            if n is not None and n.p.const() is not None:
                r = Bytes(0, T.ZERO)
                for _ in range(int(n.p.const())):
                    r = Bytes(r.n + a.n, r.v + a.v * (256 ** r.n))
                return r
        if isinstance(a, Chunk) and isinstance(b, Chunk) and op == 'Add' and a.file == b.file and \
                T.is_zero(a.addr + a.n - b.addr) and a.kind == b.kind:
            return Chunk(a.file, a.addr, a.n + b.n, a.kind)
        if isinstance(a, (Chunk, Bytes)) and isinstance(b, (Chunk, Bytes)) and op == 'Add':
            x, y = self.as_bytes(a), self.as_bytes(b)
            if x is not None and y is not None:
                return Bytes(x.n + y.n, x.v + y.v * (256 ** x.n))
            return self.unk('bytes concatenation', node)
        if isinstance(a, B) and isinstance(b, B) and op in ('BitAnd', 'BitOr', 'BitXor'):
            return B({'BitAnd': T.band, 'BitOr': T.bor, 'BitXor': T.bxor}[op](a.b, b.b))
        x, y = self.tonum(a), self.tonum(b)
        if x is None or y is None:
            if isinstance(a, (K, Fmt, Opq)) or isinstance(b, (K, Fmt, Opq)):
                if isinstance(a, K) and a.o is None or isinstance(b, K) and b.o is None:
                    self.raise_(ExcV('TypeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
                    raise Dead()
                return Opq('op' + op, (self.freeze(a, st), self.freeze(b, st)))
            return self.unk(f'operator {op} on {type(a).__name__},{type(b).__name__}', node)
        return self.num_binop(op, x, y, st, ctx, node, True, True)

    def _numlike(self, v):
        return self.tonum(v) is not None

    def _strlike(self, v):
        return isinstance(v, Fmt) or (isinstance(v, K) and isinstance(v.o, str))

    def _pathlike(self, v):
        return isinstance(v, Opq) and v.name in ('path', 'pathjoin', 'glob')

    def num_binop(self, op, x, y, st, ctx, node, sx, sy):
        """x,y: N.  Result N with proper type."""
        pyx, pyy = x.dt in ('int', 'float'), y.dt in ('int', 'float')
        if pyx and pyy:
            dt = 'float' if 'float' in (x.dt, y.dt) or op == 'Div' else 'int'
            if self.fold and dt == 'float' and op in ('Add', 'Sub', 'Mult', 'Div') and x.p.const() is not None and y.p.const() is not None:
                u, v = float(x.p.const()), float(y.p.const())
                if op != 'Div' or v:
                    return N(T.num(Fraction({'Add': u.__add__, 'Sub': u.__sub__, 'Mult': u.__mul__, 'Div': u.__truediv__}[op](v))), 'float')
            if op == 'Pow' and dt == 'int':
                r = T.rng(y.p)
                if r[0] is None or r[0] < 0:
                    dt = 'float' if (y.p.const() is not None and y.p.const() < 0) else dt
        else:
            dt = np_result(x.dt, y.dt, sx, sy, x.p, y.p)
            if op == 'Div' and dt != 'O' and dt not in FLOATS:
                dt = 'f8'
        if op in ('LShift', 'RShift', 'BitAnd', 'BitOr', 'BitXor') and dt in FLOATS:
            if self.opq_in(x.p) or self.opq_in(y.p):
                dt = 'int'
            else:
                self.notes.append(('type-error', f'{op} on {x.dt},{y.dt} (result type {dt})', getattr(node, 'lineno', None), self.cur))
                if st is not None and ctx is not None:
                    self.raise_(ExcV('TypeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
                raise Dead()
        a, b = x.p, y.p
        if dt in BITS and x.dt in ('f8',):
            pass
        if dt in FLOATS and dt != 'float' and not self.real:
            # operands converted first
            a, b = self.fit(a, dt), self.fit(b, dt)
        if op == 'Add':
            p = a + b
        elif op == 'Sub':
            p = a - b
        elif op == 'Mult':
            p = a * b
        elif op == 'Div':
            p = T.div(a, b)
        elif op == 'FloorDiv':
            p = T.floordiv(a, b)
        elif op == 'Mod':
            p = T.mod(a, b)
        elif op == 'Pow':
            p = T.power(a, b)
        elif op in ('LShift', 'RShift') and dt == 'int' and st is not None and ctx is not None and not T.nonneg(b) \
                and not self.opq_in(b):
            self.raise_if(T.lt0(b), ExcV('ValueError', ()), st, ctx, node)
            p = T.shl(a, b) if op == 'LShift' else T.shr(a, b)
        elif op == 'LShift':
            p = T.shl(a, b)
        elif op == 'RShift':
            p = T.shr(a, b)
        elif op == 'BitAnd':
            p = T.bitand(a, b)
        elif op == 'BitOr':
            p = T.bitor(a, b)
        elif op == 'BitXor':
            p = T.bitxor(a, b)
        else:
            return self.unk('operator ' + op, node)
        if dt in BITS or (dt in FLOATS and not self.real):
            p = self.fit(p, dt)
        return N(p, dt)

    def opq_in(self, p):
        for a in p.atoms():
            at = T.ATOMS[a]
            if at.kind == 'fn' and at.args[0] == 'opq':
                return True
        return False

    def as_arr(self, c, st):
        """content -> (seq|None scalar N, dt)"""
        if isinstance(c, ArrV):
            return c.s, c.dt
        return None

    def arr_binop(self, op, a, b, st, ctx, node):
        if isinstance(a, Tup):
            a = ArrV(Lit(a.items), self.guess_dt(a.items), None)
        if isinstance(b, Tup):
            b = ArrV(Lit(b.items), self.guess_dt(b.items), None)
        if isinstance(a, ListV):
            a = self.to_array(a, None, st, ctx, node)
        if isinstance(b, ListV):
            b = self.to_array(b, None, st, ctx, node)
        if not isinstance(a, (ArrV, N, B, Opq, ExitV, MuV)) or not isinstance(b, (ArrV, N, B, Opq, ExitV, MuV)):
            return self.unk('array operator operand', node)
        ncol = a.ncol if isinstance(a, ArrV) else b.ncol
        if isinstance(a, ArrV) and isinstance(b, ArrV) and a.ncol != b.ncol:
            return self.unk('array broadcast', node)
        sa, sb = not isinstance(a, ArrV), not isinstance(b, ArrV)
        out_dt = [None]

        def el(x, y):
            if isinstance(x, Tup) or isinstance(y, Tup):
                n = len(x.items) if isinstance(x, Tup) else len(y.items)
                xs = x.items if isinstance(x, Tup) else [x] * n
                ys = y.items if isinstance(y, Tup) else [y] * n
                return Tup(tuple(el(p, q) for p, q in zip(xs, ys)))
            if isinstance(x, B) and isinstance(y, B) and op in ('BitAnd', 'BitOr', 'BitXor'):
                out_dt[0] = 'bool'
                return B({'BitAnd': T.band, 'BitOr': T.bor, 'BitXor': T.bxor}[op](x.b, y.b))
            nx, ny = self.tonum(x), self.tonum(y)
            if nx is None or ny is None:
                return x if isinstance(x, Unk) else y if isinstance(y, Unk) else Unk('array element op')
            # python objects arrays keep exact ints
            dx = a.dt if not sa else nx.dt
            dy = b.dt if not sb else ny.dt
            if dx == 'O' or dy == 'O':
                r = self.num_binop(op, N(nx.p, 'int' if T.isint(nx.p) else 'float'), N(ny.p, 'int' if T.isint(ny.p) else 'float'), st, ctx, node, True, True)
                out_dt[0] = 'O'
                return r
            r = self.num_binop(op, N(nx.p, dx), N(ny.p, dy), st, ctx, node, sa, sb)
            if isinstance(r, N):
                out_dt[0] = r.dt
            return r
        if sa or sb:
            s = a.s if sb else b.s
            r = smap_elem(s, (lambda x: el(x, b)) if sb else (lambda x: el(a, x)))
        else:
            na, nb = slen(a.s), slen(b.s)
            if nb.const() == 1 and na.const() != 1:
                y = sget(b.s, T.ZERO)
                r = smap_elem(a.s, lambda x: el(x, y))
            elif na.const() == 1 and nb.const() != 1:
                x0 = sget(a.s, T.ZERO)
                r = smap_elem(b.s, lambda y: el(x0, y))
            else:
                r = szip([a.s, b.s], lambda t: el(t[0], t[1]))
        if r is None:
            fa = a if sa else a
            return self.alloc(st, ArrV(OpqSeq('arrop' + op, (a, b)), np_result(self._dt(a), self._dt(b), sa, sb), None))
        dt = out_dt[0] or np_result(self._dt(a), self._dt(b), sa, sb)
        if dt in ('int', 'float'):
            dt = {'int': 'i8', 'float': 'f8'}[dt]
        return self.alloc(st, ArrV(r, dt, ncol))

    def _dt(self, c):
        if isinstance(c, ArrV):
            return c.dt
        if isinstance(c, B):
            return 'bool'
        return getattr(self.tonum(c), 'dt', 'float')

    def guess_dt(self, items):
        ds = [x.dt if isinstance(x, N) else 'bool' if isinstance(x, B) else 'O' for x in items]
        if not ds:
            return 'f8'
        m = {'int': 'i8', 'float': 'f8'}
        r = m.get(ds[0], ds[0])
        for d in ds[1:]:
            r = np_result(r, m.get(d, d), False, False)
        if r == 'i8' and any(isinstance(x, N) and x.dt == 'int' for x in items):
            for x in items:
                if isinstance(x, N):
                    g = T.rng(x.p)
                    if g[1] is not None and g[1] >= 2 ** 63:
                        return 'i8|u8'
        return r

    def list_binop(self, op, a, b, st, ctx, node):
        if op == 'Add' and isinstance(a, ListV) and isinstance(b, ListV):
            return self.alloc(st, ListV(scat([a.s, b.s])))
        if op == 'Mult':
            l, k = (a, b) if isinstance(a, ListV) else (b, a)
            n = self.tonum(k)
            if n is not None:
                c = n.p.const()
                if c is not None and c <= 64:
                    return self.alloc(st, ListV(scat([l.s] * int(c))))
                if isinstance(l.s, Lit) and len(l.s.items) == 1:
                    return self.alloc(st, ListV(smap(n.p, 1, 1, l.s.items[0])))
        return self.unk('list operator ' + op, node)

    def percent(self, f, b, st):
        args = list(b.items) if isinstance(b, Tup) else [b]
        import re
        parts = []
        pos = 0
        for m in re.finditer(r'%([-+ 0#]*)(\d*)(\.\d+)?([sdifgexX%])', f):
            parts.append(f[pos:m.start()])
            pos = m.end()
            if m.group(4) == '%':
                parts.append('%')
                continue
            if not args:
                return Unk('percent')
            v = args.pop(0)
            sp = m.group(1).replace('-', '<') + m.group(2) + (m.group(3) or '') + ('' if m.group(4) == 's' else m.group(4))
            parts.append((self.freeze(v, st), sp, -1))
        parts.append(f[pos:])
        return fmt_join(parts)

    # ------------------------------------------------------------ comparison
    def compare(self, op, a, b, st, ctx, node):
        a = self.resolve(a, st)
        b = self.resolve(b, st)
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b, st)
            return B(r if op == 'Is' else T.bnot(r))
        if op in ('In', 'NotIn'):
            r = self.contains(a, b, st, ctx, node)
            return B(r if op == 'In' else T.bnot(r))
        ca, cb = self.deref(a, st), self.deref(b, st)
        if isinstance(ca, ArrV) or isinstance(cb, ArrV):
            return self.arr_compare(op, ca, cb, st, ctx, node)
        return self.cmp1(op, ca, cb, st, ctx, node)

    def is_(self, a, b, st):
        if isinstance(a, Ite):
            return T.bite(a.c, self.is_(a.a, b, st), self.is_(a.b, b, st))
        if isinstance(b, Ite):
            return T.bite(b.c, self.is_(a, b.a, st), self.is_(a, b.b, st))
        if isinstance(a, (K, B, EnumV, Ref, FuncV, ClassV, BuiltinV)) and isinstance(b, (K, B, EnumV, Ref, FuncV, ClassV, BuiltinV)):
            if isinstance(a, B) and isinstance(b, B):
                return T.bnot(T.bxor(a.b, b.b))
            return int(a == b)
        if isinstance(b, K) and b.o is None or isinstance(a, K) and a.o is None:
            o = a if isinstance(b, K) else b
            if isinstance(o, (N, B, Tup, Ref, Fmt, Bytes, Chunk, EnumV, FuncV, ModV, ClassV, ObjV, ArrV, ListV, GenV)):
                return 0
            if isinstance(o, Opq) and o.name in ('path', 'pathjoin', 'line', 'entname', 'dirent'):
                return 0
            return T.bpred('isnone', o)
        if isinstance(a, EnumV) or isinstance(b, EnumV):
            o, e = (b, a) if isinstance(a, EnumV) else (a, b)
            return T.bpred('is', o, e)
        return T.bpred('is', a, b)

    def cmp1(self, op, a, b, st, ctx, node):
        if isinstance(a, Ite) and not self._numlike(a):
            return B(T.bite(a.c, self.cmpb(op, a.a, b, st, ctx, node), self.cmpb(op, a.b, b, st, ctx, node)))
        if isinstance(b, Ite) and not self._numlike(b):
            return B(T.bite(b.c, self.cmpb(op, a, b.a, st, ctx, node), self.cmpb(op, a, b.b, st, ctx, node)))
        if isinstance(a, Unk):
            return a
        if isinstance(b, Unk):
            return b
        if isinstance(a, K) and isinstance(b, K):
            try:
                f = {'Eq': lambda x, y: x == y, 'NotEq': lambda x, y: x != y, 'Lt': lambda x, y: x < y,
                     'LtE': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}[op]
                return B(int(f(a.o, b.o)))
            except TypeError:
                return self.unk('compare', node)
        if isinstance(a, B) and isinstance(b, B) and op in ('Eq', 'NotEq'):
            r = T.bnot(T.bxor(a.b, b.b))
            return B(r if op == 'Eq' else T.bnot(r))
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            r = int(a == b)
            return B(r if op == 'Eq' else 1 - r)
        if isinstance(a, (Chunk, Bytes)) or isinstance(b, (Chunk, Bytes)):
            r = self.bytes_eq(a, b)
            if r is not None and op in ('Eq', 'NotEq'):
                return B(r if op == 'Eq' else T.bnot(r))
        if isinstance(a, Tup) and isinstance(b, Tup) and op in ('Eq', 'NotEq'):
            if len(a.items) != len(b.items):
                r = 0
            else:
                r = 1
                for x, y in zip(a.items, b.items):
                    z = self.compare('Eq', x, y, st, ctx, node)
                    r = T.band(r, z.b) if isinstance(z, B) else T.bpred('eq', a, b)
            return B(r if op == 'Eq' else T.bnot(r))
        x, y = None, None
        if not (isinstance(a, (K, Fmt)) or isinstance(b, (K, Fmt))):
            x, y = self.tonum(a), self.tonum(b)
        if x is None or y is None:
            if op in ('Eq', 'NotEq'):
                fa, fb = self.freeze(a, st), self.freeze(b, st)
                fe = self.fmt_eq(fa, fb) if isinstance(fb, K) else self.fmt_eq(fb, fa) if isinstance(fa, K) else None
                if fa == fb:
                    r = 1
                elif fe is not None:
                    r = fe
                elif isinstance(fa, K) and isinstance(fb, (N, B, ListV, ArrV, Tup)) or isinstance(fb, K) and isinstance(fa, (N, B, ListV, ArrV, Tup)):
                    r = 0
                else:
                    if isinstance(fa, K) or uid(fa) > uid(fb) and not isinstance(fb, K):
                        fa, fb = fb, fa
                    r = T.bpred('eq', fa, fb)
                return B(r if op == 'Eq' else T.bnot(r))
            if isinstance(a, K) and a.o is None or isinstance(b, K) and b.o is None:
                self.raise_(ExcV('TypeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
                raise Dead()
            return B(T.bpred(op, self.freeze(a, st), self.freeze(b, st)))
        return B(self.cmpn(op, x.p, y.p))

    def fmt_eq(self, a, b):
        """formatted non-negative integer behind constant text == constant string"""
        if not (isinstance(a, Fmt) and isinstance(b.o, str)):
            return None
        s = b.o
        ps = list(a.parts)
        while ps and isinstance(ps[0], str):
            if not s.startswith(ps[0]):
                return 0
            s = s[len(ps.pop(0)):]
        while ps and isinstance(ps[-1], str):
            if not s.endswith(ps[-1]):
                return 0
            s = s[:len(s) - len(ps.pop())]
        if not ps:
            return int(s == '')
        if len(ps) != 1 or not isinstance(ps[0][0], N) or ps[0][1] not in ('x', 'd', '') or ps[0][2] not in (-1,):
            return None
        p = ps[0][0].p
        if not (T.isint(p) and T.nonneg(p)):
            return None
        base = 16 if ps[0][1] == 'x' else 10
        try:
            n = int(s, base)
        except ValueError:
            return 0
        return T.eq(p, num(n)) if format(n, 'x' if base == 16 else 'd') == s else 0

    def cmpb(self, op, a, b, st, ctx, node):
        r = self.cmp1(op, a, b, st, ctx, node)
        return r.b if isinstance(r, B) else T.bpred('cmpunk', r)

    def cmpn(self, op, a, b):
        if op == 'Eq':
            return T.eq(a, b)
        if op == 'NotEq':
            return T.bnot(T.eq(a, b))
        if op == 'Lt':
            return T.lt(a, b)
        if op == 'LtE':
            return T.le(a, b)
        if op == 'Gt':
            return T.lt(b, a)
        return T.le(b, a)

    def arr_compare(self, op, a, b, st, ctx, node):
        def el(x, y):
            if isinstance(x, Tup) or isinstance(y, Tup):
                n = len(x.items) if isinstance(x, Tup) else len(y.items)
                xs = x.items if isinstance(x, Tup) else [x] * n
                ys = y.items if isinstance(y, Tup) else [y] * n
                return Tup(tuple(el(p, q) for p, q in zip(xs, ys)))
            return self.cmp1(op, x, y, st, ctx, node)
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            r = szip([a.s, b.s], lambda t: el(t[0], t[1]))
        elif isinstance(a, ArrV):
            if isinstance(b, (K, Ite)) and not self._numlike(b):
                return self.unk('array comparison', node)
            r = smap_elem(a.s, lambda x: el(x, b))
        else:
            if isinstance(a, (K, Ite)) and not self._numlike(a):
                return self.unk('array comparison', node)
            r = smap_elem(b.s, lambda y: el(a, y))
        ncol = a.ncol if isinstance(a, ArrV) else b.ncol
        if r is None:
            return self.alloc(st, ArrV(OpqSeq('arrcmp' + op, (a, b)), 'bool', None))
        return self.alloc(st, ArrV(r, 'bool', ncol))

    def contains(self, a, b, st, ctx, node):
        cb = self.deref(b, st)
        if isinstance(cb, SetV):
            n = self.tonum(self.deref(a, st))
            if n is not None:
                return ren(cb.pred, setx(), n.p)
        if isinstance(cb, ClassV):
            ci = self.classes[cb.uid]
            if ci.isenum:
                if isinstance(a, EnumV):
                    return int(a.cls == cb.name)
                return T.bpred('inenum', self.freeze(a, st), cb)
        if isinstance(cb, K) and isinstance(a, K) and isinstance(cb.o, str):
            return int(a.o in cb.o)
        if isinstance(cb, DictV):
            r = 0
            for k, _ in cb.items:
                x = self.compare('Eq', a, k, st, ctx, node)
                r = T.bor(r, x.b if isinstance(x, B) else T.bpred('eq', x))
            return r
        s = self.toseq(b, st, ctx, node)
        if isinstance(s, Lit):
            r = 0
            for k in s.items:
                x = self.compare('Eq', a, k, st, ctx, node)
                r = T.bor(r, x.b if isinstance(x, B) else T.bpred('eq', x))
            return r
        if s is not None:
            m = self.member(a, s, st)
            if m is not None:
                return m
        return T.bpred('in', self.freeze(a, st), self.freeze(b, st))

    def member(self, a, s, st):
        """membership of numeric value a in numeric sequence s"""
        n = self.tonum(self.deref(a, st))
        if n is None:
            return None
        if isinstance(s, Lit):
            r = 0
            for x in s.items:
                y = self.tonum(x)
                if y is None:
                    return None
                r = T.bor(r, T.eq(n.p, y.p))
            return r
        if isinstance(s, Map):
            y = self.tonum(s.elem)
            if y is None:
                return None
            return T.bpred('exists', s.n, s.h, BArg(s.pred), y.p, n.p)
        if isinstance(s, Guard):
            m = self.member(a, s.s, st)
            return None if m is None else T.band(s.c, m)
        if isinstance(s, Cat):
            r = 0
            for p in s.parts:
                m = self.member(a, p, st)
                if m is None:
                    return None
                r = T.bor(r, m)
            return r
        return T.bpred('memberof', n.p, s)

    def as_bytes(self, v):
        if isinstance(v, Bytes):
            return v
        if isinstance(v, Chunk) and v.kind == 'b' and v.n.const() is not None and v.n.const() <= 64:
            n = int(v.n.const())
            return Bytes(n, file_int(v.file, v.addr, n))
        return None

    def chunklen(self, c):
        size = self.filesize(c.file)
        i = self.files.get(c.file) or self.files.get('*')
        if i and i.get('endless') and c.n.const() != -1:
            return c.n
        if c.n.const() == -1:
            return clamp0(size - c.addr)
        return clamp0(T.minv(c.n, size - c.addr))

    def filesize(self, f):
        i = self.files.get(f) or self.files.get('*')
        if i and i.get('size') is not None:
            return i['size']
        return T.fn('filesize', f, isint=True, lo=0)

    def bytes_eq(self, a, b):
        if isinstance(b, Chunk):
            a, b = b, a
        if isinstance(a, Chunk) and (isinstance(b, Bytes) and b.n == 0 or isinstance(b, K) and b.o == ''):
            return T.eq0(self.chunklen(a))
        x, y = self.as_bytes(a), self.as_bytes(b)
        if x is not None and y is not None:
            if x.n != y.n:
                return 0
            e = T.eq(x.v, y.v)
            for c in (a, b):
                if isinstance(c, Chunk):
                    e = T.band(e, T.eq(self.chunklen(c), num(x.n)))
            return e
        return None

    # ------------------------------------------------------------ iteration
    def toseq(self, v, st, ctx, node):
        """sequence view of an iterable value, or None"""
        v = self.resolve(v, st)
        c = self.deref(v, st)
        if isinstance(c, Seq):
            return c
        if isinstance(c, (Tup, Named)):
            return Lit(c.items)
        if isinstance(c, ListV):
            return c.s
        if isinstance(c, GenV):
            return c.s
        if isinstance(c, ArrV):
            if c.ncol is None:
                return c.s
            return smap_elem(c.s, lambda r: ArrV(Lit(r.items), c.dt, None) if isinstance(r, Tup) else r)
        if isinstance(c, RangeV):
            if c.step == T.ONE:
                return smap(T.maxv(c.b - c.a, T.ZERO) if not T.nonneg(c.b - c.a) else c.b - c.a, 1, 1, N(c.a + idx(1), 'int'))
            k = c.step.const()
            if k is not None and k > 0:
                n = -T.floor((c.a - c.b) * (Fraction(1) / k))
                return smap(clamp0(n), 1, 1, N(c.a + k * idx(1), 'int'))
            if k is not None and k < 0:
                n = -T.floor((c.b - c.a) * (Fraction(1) / -k))
                return smap(clamp0(n), 1, 1, N(c.a + k * idx(1), 'int'))
            return None
        if isinstance(c, SetV):
            n = setlen(c.pred)
            return smap(n, 1, 1, N(T.fn('setelt', BArg(c.pred), idx(1), isint=True, lo=set_lo(c.pred)), 'int'))
        if isinstance(c, DictV):
            return Lit(tuple(k for k, _ in c.items))
        if isinstance(c, K) and isinstance(c.o, str):
            return Lit(tuple(K(x) for x in c.o))
        if isinstance(c, Bytes):
            return Lit(tuple(N(T.mod(T.floor(c.v * Fraction(1, 256 ** i)), num(256)), 'int') for i in range(c.n)))
        if isinstance(c, Chunk) and c.kind == 'b':
            n = self.chunklen(c)
            return smap(n, 1, 1, N(file_byte(c.file, c.addr + idx(1)), 'int'))
        if isinstance(c, Ite):
            a, b = self.toseq(c.a, st, ctx, node), self.toseq(c.b, st, ctx, node)
            if a is None or b is None:
                return None
            return site(c.c, a, b)
        if isinstance(c, FileV):
            return self.file_lines(c, v, st)
        if isinstance(c, Opq) and c.name == 'arr0d':
            self.raise_(ExcV('TypeError', ()), st.fork(), ctx, getattr(node, 'lineno', None))
            raise Dead()
        if isinstance(c, Opq):
            return OpqSeq('iter', (c,))
        if isinstance(c, EnumCls):
            return None
        if isinstance(c, ClassV) and self.classes[c.uid].isenum:
            return Lit(tuple(EnumV(c.name, n, x) for n, x in self.classes[c.uid].attrs.items()))
        return None

    def file_lines(self, c, ref, st):
        return self.chunk_lines(Chunk(filekey(c.path), c.pos, num(-1), 't'), keepends=True)

    def linew(self, f):
        i = self.files.get(f) or self.files.get('*')
        return (i or {}).get('linew')

    def chunk_lines(self, ch, keepends=False):
        w = self.linew(ch.file)
        if w is None:
            return None
        if not T.multiple_of(ch.addr, w + 1) or (ch.n.const() != -1 and not T.multiple_of(ch.n, w + 1)):
            self.notes.append(('misaligned', f'chunk at {ch.addr} of {ch.n} chars is not a whole number of {w + 1}-char lines', None, self.cur))
            return OpqSeq('chunklines', (ch,))
        n = T.floor(self.chunklen(ch) * Fraction(1, w + 1))
        n = T.map_cases(n, lambda q: q)
        return smap(n, 1, 1, Opq('line', (ch.file, ch.addr * Fraction(1, w + 1) + idx(1))))


def set_lo(pred):
    """0 if no member is negative"""
    return 0 if ren(pred, setx(), num(-1) - T.sym('neg.k', True, 0)) == 0 else None


def setlen(pred):
    return T.fn('setlen', BArg(pred), isint=True, lo=0)


def set_member(s, x):
    """x in {v : v in a set, pred(v)} for a map over the elements of a set, or None"""
    if not (isinstance(s, Map) and isinstance(s.elem, N) and len(s.elem.p.d) == 1):
        return None
    y = s.elem.p
    (m, c), = y.d.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    a = T.ATOMS[m[0][0]]
    if a.kind == 'fn' and a.args[0] == 'setelt' and a.args[2] == idx(s.h) and s.n == setlen(a.args[1].b):
        q = ren(s.pred, y, x)
        (m, _), = idx(s.h).d.items()
        if not any(getattr(z, 'id', None) == m[0][0] for z in T.walk(BArg(q))):
            return T.band(ren(a.args[1].b, setx(), x), q)
    return None


SETRANGE = range(-8, 200)


def _set_members(val, b):
    out = []
    for k in SETRANGE:
        if T.evb(ren(b.b, setx(), num(k)), val):
            out.append(k)
    for k in (-10 ** 6, 10 ** 6, 2 ** 40):
        if T.evb(ren(b.b, setx(), num(k)), val):
            raise T.Undefined('set beyond the sampled range')
    return out


def _ev_setm(f):
    def g(val, at, b, *a):
        cache = val.__dict__.setdefault('setcache', {})
        key = (b, tuple(sorted(val.env.items())))
        m = cache.get(key)
        if m is None:
            m = cache[key] = _set_members(val, b)
        return Fraction(f(val, m, *a))
    return g


def _setelt(val, m, i):
    k = int(T.ev(i, val))
    if not 0 <= k < len(m):
        raise T.Undefined('setelt')
    return m[k]


def _extreme(f):
    def g(val, m):
        return f(m) if m else 0      # the empty set raises before; its value does not matter
    return g


T.EVAL_FN['setlen'] = _ev_setm(lambda val, m: len(m))
T.EVAL_FN['setelt'] = _ev_setm(_setelt)
T.EVAL_FN['minset'] = _ev_setm(_extreme(min))
T.EVAL_FN['maxset'] = _ev_setm(_extreme(max))


class EnumCls(V):
    F = ()
    __slots__ = ()


class StarV(V):
    F = ('v',)
    __slots__ = F


class OpqSetV(V):
    F = ('s',)
    __slots__ = F


def opq_num(v):
    return T.fn('opq', v)


T.EVAL_FN['opq'] = lambda val, at, v: _opq_ev(val, v, at)


def _opq_ev(val, v, at):
    if isinstance(v, (ExitV, MuV)):
        x = v.ev(val)
        if isinstance(x, (Fraction, int)):
            return Fraction(x)
        raise T.Undefined('non-numeric')
    if isinstance(v, Opq):
        f = EVAL_OPQ.get(v.name)
        if f is not None:
            x = f(val, *v.args)
            if isinstance(x, (Fraction, int)):
                return Fraction(x)
            raise T.Undefined('non-numeric opq')
        val.ok(v.name)
        return Fraction(val.pick(('o', v.name) + tuple(T.ev_any(a, val) for a in v.args), False, None, None))
    raise T.Undefined('opq')


def _ev_elt(val, s, i):
    l = s.ev(val)
    k = T.ev(i, val)
    if k.denominator != 1 or not -len(l) <= k < len(l):
        raise T.Undefined('index')
    return l[int(k)]


def _ev_item(val, o, i):
    x = o.ev(val)
    k = T.ev(i, val)
    if isinstance(x, (list, tuple)) and not (x and x[0] == 'opq'):
        if not -len(x) <= k < len(x):
            raise T.Undefined('index')
        return x[int(k)]
    return Fraction(val.pick(('item', x, k), False, None, None))


def _ev_strip(how):
    def f(val, *a):
        x = [T.ev_any(y, val) for y in a]
        if all(isinstance(y, str) for y in x):
            return getattr(x[0], how)(*x[1:])
        raise T.Undefined('strip')
    return f


EVAL_OPQ = {'str.strip': _ev_strip('strip'), 'str.rstrip': _ev_strip('rstrip'), 'str.lstrip': _ev_strip('lstrip'), 'elt': _ev_elt, 'item': _ev_item}


def opq_ev(self, val):
    f = EVAL_OPQ.get(self.name)
    if f:
        return f(val, *self.args)
    args = tuple(T.ev_any(a, val) for a in self.args)
    g = val.fns.get(self.name)
    if g is not None:
        return g(val, *args)
    val.ok(self.name)
    g = val.fns.get(self.name)
    if g is not None:
        return g(val, *args)
    return ('opq', val.h('o', self.name, args))


Opq.ev = opq_ev


# ---------------------------------------------------------------- files as byte sources
def filekey(path):
    while isinstance(path, Opq) and path.name in ('path', 'str', 'resolve') and len(path.args) == 1:
        path = path.args[0]
    return path


def pathjoin(a, b):
    return Opq('pathjoin', (filekey(a), filekey(b)))


def file_byte(f, addr):
    if addr.bits():
        return T.map_cases(addr, lambda q: file_byte(f, q))
    return T.fn('byte', f, addr, isint=True, lo=0, hi=255)


def file_int(f, addr, n, big=False):
    r = T.ZERO
    for i in range(n):
        r = r + file_byte(f, addr + (n - 1 - i if big else i)) * (256 ** i)
    return r


def _ev_byte(val, at, f, addr):
    a = T.ev(addr, val)
    src = getattr(val, 'bytesrc', None)
    if src is not None:
        x = src(val, f, a)
        if x is not None:
            return Fraction(x)
    return Fraction(val.pick(('byte', f.ev(val) if hasattr(f, 'ev') else f, a), True, 0, 255))


T.EVAL_FN['byte'] = _ev_byte


def _ev_chunkint(val, at, f, addr, n, order):
    k = int(T.ev(n, val))
    if k > 64:
        raise T.Undefined('chunk')
    a = T.ev(addr, val)
    bs = [int(_ev_byte(val, at, f, num(a + i))) for i in range(k)]
    return Fraction(int.from_bytes(bytes(bs), order.o))


T.EVAL_FN['chunkint'] = _ev_chunkint


def _ev_hex(val, at, f, line, w):
    return Fraction(val.pick(('hex', f.ev(val) if hasattr(f, 'ev') else f, T.ev(line, val)), True, 0, 16 ** int(T.ev(w, val)) - 1))


T.EVAL_FN['hexline'] = _ev_hex


def _ev_filesize(val, at, f):
    n = val.fixed.get('filesize')
    return Fraction(n if n is not None else val.pick(('fs', f.ev(val)), True, 0, 60))


T.EVAL_FN['filesize'] = _ev_filesize

from . import pylib  # noqa: E402,F401  (adds call/getattr/getitem/... to Interp)
