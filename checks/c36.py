"""Calls, unpackings and names inside the package fit what they refer to."""
import ast, builtins
from .common import *
from sa import callcheck as CC
from sa.harness import ROOT


def run(ck):
    ck.rule('for every call whose callee is a definition of the package, on every possible callee: arguments bind; results are unpacked and indexed within their length; every name and module attribute is defined; every option read is declared')
    P = CC.Project(ROOT)
    if 'fpfind.fpfind' not in P.mods or 'fpfind.lib.parse_timestamps' not in P.mods:
        raise Missing('modules of the package not found')
    for m in P.mods.values():
        ck.guard(m.name, lambda m=m: module(ck, P, m))
    return {}


def label(m, n, s):
    while s is not None and s.kind == 'comp':
        s = s.parent
    q = []
    while s is not None and s.kind != 'module':
        q.append(getattr(s.node, 'name', '<lambda>'))
        s = s.parent
    return f'{m.name}{"." if q else ""}{".".join(reversed(q))} line {n.lineno}'


def module(ck, P, m):
    top = P.scopes[id(m.tree)]
    ck.functions.add(m.name)
    opts = options(P, m)
    for n in ast.walk(m.tree):
        ck.nodes += 1
        s = P.where.get(id(n))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            ck.functions.add(f'{m.name}.{n.name}')
        if s is None:
            if isinstance(n, ast.ImportFrom):
                pass
            else:
                continue
        at = label(m, n, s or top) if hasattr(n, 'lineno') else m.name
        if isinstance(n, ast.Call):
            call(ck, P, n, at)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            name(ck, P, n, s, at)
        elif isinstance(n, ast.ImportFrom):
            imports(ck, P, n, top, at)
        elif isinstance(n, ast.Attribute):
            attribute(ck, P, n, at, opts)
        elif isinstance(n, ast.Subscript):
            index(ck, P, n, at)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                unpack(ck, P, t, P.value(n.value), ast.unparse(n.value), at)
        elif isinstance(n, (ast.For, ast.comprehension)):
            it = P.value(n.iter)
            el = P.union([x[1] if not isinstance(x, CC.Fn) and x[0] == 'seqof' else None for x in it]) if it else None
            at = label(m, n.iter, s)
            unpack(ck, P, n.target, el, 'an element of ' + ast.unparse(n.iter), at)


def short(t, k=60):
    return t if len(t) <= k else t[:k - 2] + '..'


def decide(ck, results, sure, nm, at):
    """results: per possibility None (fits) or the reason; one bad possibility among several counts when each can really occur"""
    bad = [r for r in results if r is not None]
    if not results:
        return
    if not bad:
        ck.ok(True, nm, at)
    else:
        ck.add(nm, 'bad' if len(bad) == len(results) or sure else 'unk', at, bad[0])


def call(ck, P, n, at):
    fs = P.value(n.func)
    if fs is None:
        return
    res = []
    for f in fs:
        if not isinstance(f, CC.Fn):
            if f[0] == 'class':
                f = CC.constructor(P, f[1], f[2])
                if f is None:
                    return
                if f is False:
                    res.append('the class takes no arguments' if n.args or n.keywords else None)
                    continue
            elif f[0] in ('mod', 'tuple', 'seqof'):
                res.append(f'a {dict(mod="module", tuple="tuple", seqof="sequence")[f[0]]} is called')
                continue
            else:
                return
        res.append(CC.fits(f, n))
    decide(ck, res, P.sure(n.func), f'{short(ast.unparse(n.func))}(): arguments accepted', at)


def bound_name(P, s, x):
    t = s
    while t is not None:
        if t.wild:
            return True
        t = t.parent
    return s.find(x) is not None or hasattr(builtins, x) or x in CC.MODNAMES or x in s.top().binds


def name(ck, P, n, s, at):
    ck.ok(bound_name(P, s, n.id), f'name {n.id} is defined', at, 'bound in no enclosing scope')


def imports(ck, P, n, top, at):
    mod = P.absolute(n, top)
    if mod.split('.')[0] != 'fpfind':
        return
    if mod not in P.mods:
        ck.ok(False, f'module {mod} exists', at, 'no such module in the package', bad='unk' if guarded(P, n) else 'bad')
        return
    sc = P.scopes[id(P.mods[mod].tree)]
    for a in n.names:
        if a.name != '*':
            ck.ok(a.name in sc.binds or sc.wild or mod + '.' + a.name in P.mods or '__getattr__' in sc.binds, f'{mod} defines {a.name}', at, 'imported name is not defined there')


def guarded(P, n):
    return False


def attribute(ck, P, n, at, opts):
    if opts is not None and isinstance(n.ctx, ast.Load) and parsed_options(P, n.value):
        ck.ok(n.attr in opts or n.attr.startswith('_'), f'option {n.attr} is declared', at, 'read but not declared')
        return
    b = P.value(n.value)
    if b is None:
        return
    if len(b) != 1:
        return
    for x in b:
        if isinstance(x, CC.Fn):
            continue
        if x[0] == 'mod' and isinstance(n.ctx, ast.Load):
            sc = P.scopes[id(P.mods[x[1]].tree)]
            ck.ok(n.attr in sc.binds or sc.wild or x[1] + '.' + n.attr in P.mods or n.attr in CC.MODNAMES or '__getattr__' in sc.binds, f'{x[1]} defines {n.attr}', at, 'no such name in the module')
        elif x[0] == 'fields':
            ck.ok(n.attr in x[1] or hasattr(tuple, n.attr) or n.attr.startswith('_'), f'{short(ast.unparse(n))}: field exists', at, f'fields are {", ".join(x[1])}')
        elif x[0] == 'tuple':
            ck.ok(hasattr(tuple, n.attr), f'{short(ast.unparse(n))}: attribute of a tuple', at, 'a tuple has no such attribute')
        elif x[0] == 'inst' and isinstance(n.ctx, ast.Load):
            names = class_names(P, x)
            if names is not None:
                ck.ok(n.attr in names or hasattr(object, n.attr) or n.attr.startswith('__'), f'{short(ast.unparse(n))}: attribute exists', at, f'defined are {", ".join(sorted(names))[:200]}',
                      bad='bad' if not stored_outside(P, n.attr) else 'unk')
        elif x[0] == 'class' and isinstance(n.ctx, ast.Load):
            if CC.fields_of(x[1]) is not None and (n.attr.startswith('_') or hasattr(tuple, n.attr)):
                continue
            names = class_names(P, x)
            if names is not None:
                ck.ok(n.attr in names or hasattr(type, n.attr), f'{short(ast.unparse(n))}: defined by the class', at, f'defined are {", ".join(sorted(names))[:200]}')


ENUM = {'Enum', 'IntEnum', 'IntFlag', 'Flag', 'StrEnum'}


def class_names(P, x):
    """attributes of a class whose bases are known (enumerations included)"""
    c, sc = x[1], x[2]
    if c.decorator_list and not CC.is_dataclass(c) or c.keywords or {'__getattr__', '__getattribute__', '__setattr__', '__slots__'} & set(sc.binds):
        return None
    out = set(sc.binds)
    if x[0] == 'inst':
        # whatever the methods store
        for n in ast.walk(c):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'vars') or isinstance(n, ast.Attribute) and n.attr == '__dict__':
                return None
    for b in c.bases:
        nm = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else None
        if nm in ENUM:
            out |= {'name', 'value', '__members__', '_member_map_', '_value2member_map_', '_member_names_'}
            continue
        v = P.value(b)
        if v is None or len(v) != 1 or isinstance(v[0], CC.Fn) or v[0][0] != 'class':
            return None
        r = class_names(P, (x[0],) + tuple(v[0][1:]))
        if r is None:
            return None
        out |= r
    return out


def index(ck, P, n, at):
    k = CC.const_int(n.slice)
    if k is None or not isinstance(n.ctx, ast.Load):
        return
    b = P.value(n.value)
    if b is None:
        return
    res = []
    for x in b:
        if isinstance(x, CC.Fn) or x[0] not in ('tuple', 'fields'):
            return
        ln = len(x[-1])
        res.append(None if -ln <= k < ln else f'{ln} parts are returned')
    decide(ck, res, False, f'{short(ast.unparse(n))}: within the result', at)


def unpack(ck, P, t, v, what, at):
    if not isinstance(t, (ast.Tuple, ast.List)) or v is None:
        return
    star = any(isinstance(x, ast.Starred) for x in t.elts)
    n = len(t.elts) - star
    res = []
    for x in v:
        if isinstance(x, CC.Fn):
            res.append('a function is unpacked')
            continue
        if x[0] not in ('tuple', 'fields'):
            return
        ln = len(x[-1])
        res.append(None if (ln >= n if star else ln == n) else f'{ln} parts into {n} names')
    decide(ck, res, False, f'{short(what)}: unpacked into its parts', at)
    if len(v) == 1 and not star and res == [None]:
        for y, p in zip(t.elts, v[0][-1]):
            unpack(ck, P, y, p, 'part of ' + what, at)


# ------------------------------------------------------------------ command-line options
def parses(v):
    return isinstance(v, ast.Call) and 'parse_args' in (getattr(v.func, 'attr', None) or getattr(v.func, 'id', ''))


def parsed_options(P, e):
    """is this variable bound once, to the parsed options?"""
    s = P.where.get(id(e))
    f = s.find(e.id) if isinstance(e, ast.Name) and s is not None else None
    if f is None or len(f.binds[e.id]) != 1:
        return False
    w = f.binds[e.id][0]
    return w[0] == 'value' and parses(w[1])


def options(P, m):
    """options declared anywhere in the module (and whatever is stored on the parsed options); None when not all declarations are understood"""
    dests, seen = set(), False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            f = n.func.attr
            if f == 'add_argument':
                seen = True
                d = dest(n)
                if d is None:
                    return None
                dests.add(d)
            elif f in ('set_defaults', 'add_subparsers', 'parse_known_args'):
                return None
        if isinstance(n, ast.Call) and any(isinstance(k.arg, str) and k.arg in ('parents', 'namespace') for k in n.keywords):
            return None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'vars'):
            return None
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            dests.add(n.attr)
    # the parser itself may be handed to functions elsewhere that declare options
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and not parses(n) and any(isinstance(a, ast.Name) and 'parser' in a.id for a in n.args):
            return None
    return dests if seen else None


def dest(n):
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return None
    for k in n.keywords:
        if k.arg == 'dest':
            return k.value.value if isinstance(k.value, ast.Constant) else None
    fl = [a.value if isinstance(a, ast.Constant) else None for a in n.args]
    if not fl or None in fl:
        return None
    lg = [f for f in fl if f.startswith('--')]
    f = lg[0] if lg else fl[0]
    return f.lstrip('-').replace('-', '_')


def stored_outside(P, a):
    """is an attribute of that name assigned anywhere in the package?"""
    if not hasattr(P, 'stores'):
        P.stores = {b for s in P.scopes.values() if s.kind == 'class' for b in s.binds} | {n.attr for m in P.mods.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    return a in P.stores
