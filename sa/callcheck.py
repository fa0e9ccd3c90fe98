"""Interfaces inside the package: which definitions a call can reach, whether its arguments fit them, what they return."""
import ast, builtins, os
from .astgraph import Package, main_guard

FUN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
MODNAMES = {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__builtins__', '__path__', '__loader__', '__dict__', '__class__'}


class Scope:
    """names bound by one function, lambda, comprehension, class or module"""

    def __init__(self, mod, node, parent, kind):
        self.mod, self.node, self.parent, self.kind = mod, node, parent, kind
        self.binds = {}          # name -> [value expression | ('other',) | ('def', node, scope) | ('import', ...) | ('part', value, index, of)]
        self.globals = set()
        self.wild = False

    def bind(self, name, what):
        s = self
        if name in self.globals:
            while s.parent is not None:
                s = s.parent
        s.binds.setdefault(name, []).append(what)

    def find(self, name):
        s, first = self, True
        while s is not None:
            if (first or s.kind != 'class') and name in s.binds and name not in s.globals:
                return s
            first = False
            s = s.parent
        return None

    def top(self):
        s = self
        while s.parent is not None:
            s = s.parent
        return s


class Fn:
    """a function that can be called: its definition and how many leading parameters are already supplied"""

    def __init__(self, node, scope, given=0, cls=None):
        self.node, self.scope, self.given, self.cls = node, scope, given, cls
        self.opaque_result = False

    def key(self):
        return id(self.node), self.given, id(self.cls)


class Project:
    def __init__(self, root):
        self.root = root
        self.pkg = Package(root)
        self.scopes = {}         # id(node) -> scope
        self.where = {}          # id(expression) -> scope it is evaluated in
        self.mods = {}
        base = os.path.join(root, 'src')
        for d, _, fs in sorted(os.walk(os.path.join(base, 'fpfind'))):
            for f in sorted(fs):
                if f.endswith('.py'):
                    n = os.path.relpath(os.path.join(d, f), base)[:-3].replace(os.sep, '.')
                    n = n[:-9] if n.endswith('.__init__') else n
                    m = self.pkg.mod(n)
                    if m is not None:
                        self.mods[n] = m
        for m in self.mods.values():
            s = Scope(m, m.tree, None, 'module')
            self.scopes[id(m.tree)] = s
            self.visit_body(m.tree.body, s)
        self.memo = {}

    # ------------------------------------------------------------- scopes
    def visit_body(self, body, s):
        for n in body:
            self.globals_of(n, s)
        for n in body:
            self.visit(n, s)

    def globals_of(self, n, s):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            if isinstance(n, ast.Global):
                s.globals |= set(n.names)
            return
        if isinstance(n, FUN + (ast.ClassDef,)):
            return
        for c in ast.iter_child_nodes(n):
            self.globals_of(c, s)

    def visit(self, n, s):
        self.where[id(n)] = s
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            s.bind(n.name, ('def', n, s))
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, s)
            f = Scope(s.mod, n, s, 'function')
            self.scopes[id(n)] = f
            self.params(n.args, f)
            if s.kind == 'class' and n.args.posonlyargs + n.args.args and not n.decorator_list and n.name not in ('__new__', '__init_subclass__', '__class_getitem__'):
                f.binds[(n.args.posonlyargs + n.args.args)[0].arg] = [('self', s.node, s)]
            self.visit_body(n.body, f)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, s)
            f = Scope(s.mod, n, s, 'function')
            self.scopes[id(n)] = f
            self.params(n.args, f)
            self.visit(n.body, f)
            return
        if isinstance(n, ast.ClassDef):
            s.bind(n.name, ('class', n, s))
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, s)
            f = Scope(s.mod, n, s, 'class')
            self.scopes[id(n)] = f
            self.visit_body(n.body, f)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            f = Scope(s.mod, n, s, 'comp')
            self.scopes[id(n)] = f
            for i, g in enumerate(n.generators):
                self.visit(g.iter, s if i == 0 else f)
                self.target(g.target, ('each', g.iter), f)
                for c in g.ifs:
                    self.visit(c, f)
            for c in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(c, f)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name == '*':
                    s.wild = True
                elif isinstance(n, ast.Import):
                    s.bind(a.asname or a.name.split('.')[0], ('import', a.name if a.asname else a.name.split('.')[0], None))
                else:
                    s.bind(a.asname or a.name, ('import', self.absolute(n, s), a.name))
            return
        if isinstance(n, ast.Assign):
            self.visit(n.value, s)
            for t in n.targets:
                self.target(t, ('value', n.value), s)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.visit(n.value, s)
                self.target(n.target, ('value', n.value), s)
            else:
                self.target(n.target, ('other',), s)
            return
        if isinstance(n, ast.AugAssign):
            self.visit(n.value, s)
            self.target(n.target, ('other',), s)
            if isinstance(n.target, ast.Name):
                self.where[id(n.target)] = s
            return
        if isinstance(n, ast.NamedExpr):
            self.visit(n.value, s)
            t = s
            while t.kind == 'comp':
                t = t.parent
            self.target(n.target, ('value', n.value), t)
            return
        if isinstance(n, (ast.For, ast.AsyncFor)):
            self.visit(n.iter, s)
            self.target(n.target, ('each', n.iter), s)
            for x in n.body + n.orelse:
                self.visit(x, s)
            return
        if isinstance(n, ast.withitem):
            self.visit(n.context_expr, s)
            if n.optional_vars is not None:
                self.target(n.optional_vars, ('other',), s)
            return
        if isinstance(n, ast.ExceptHandler):
            if n.type is not None:
                self.visit(n.type, s)
            if n.name:
                s.bind(n.name, ('other',))
            for x in n.body:
                self.visit(x, s)
            return
        if isinstance(n, ast.Match) if hasattr(ast, 'Match') else False:
            for x in ast.walk(n):
                if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    s.bind(x.name, ('other',))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.bind(n.id, ('other',))
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del):
            s.bind(n.id, ('other',))
            return
        for c in ast.iter_child_nodes(n):
            self.visit(c, s)

    def absolute(self, n, s):
        if not n.level:
            return n.module or ''
        base = s.mod.name.split('.')
        init = s.mod.path.endswith('__init__.py')
        k = n.level - (1 if init else 0)
        base = base[:len(base) - k] if k else base
        return '.'.join(base + ([n.module] if n.module else []))

    def params(self, a, f):
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]:
            f.bind(x.arg, ('other',))

    def target(self, t, how, s):
        self.where[id(t)] = s
        if isinstance(t, ast.Name):
            s.bind(t.id, how)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.target(x.value, ('other',), s)
                else:
                    self.target(x, ('part', how, i) if not star or i < star[0] else ('other',), s)
        elif isinstance(t, ast.Starred):
            self.target(t.value, ('other',), s)
        else:
            self.visit(t, s)

    # ------------------------------------------------------------- values
    # a value is None (unknown) or a list of possibilities:
    #   Fn | ('class', node, scope) | ('mod', name) | ('tuple', [value or None per part]) | ('fields', names, [values]) | ('seqof', value) | ('inst', class node, scope)
    def value(self, e, depth=0):
        if depth > 12:
            return None
        k = id(e)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None          # recursion: unknown
        r = self.value_(e, depth)
        self.memo[k] = r
        return r

    def value_(self, e, d):
        s = self.where.get(id(e))
        if isinstance(e, ast.Name):
            return self.name(e.id, s, d) if s is not None else None
        if isinstance(e, FUN):
            return [Fn(e, self.scopes[id(e)])] if id(e) in self.scopes else None
        if isinstance(e, ast.Attribute):
            b = self.value(e.value, d + 1)
            if b is None:
                return None
            return self.union([self.attr(x, e.attr, d) for x in b])
        if isinstance(e, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return None
            return [('tuple', [self.value(x, d + 1) for x in e.elts])]
        if isinstance(e, ast.List):
            return None if any(isinstance(x, ast.Starred) for x in e.elts) else [('seqof', self.union([self.value(x, d + 1) for x in e.elts]))]
        if isinstance(e, ast.IfExp):
            return self.union([self.value(e.body, d + 1), self.value(e.orelse, d + 1)])
        if isinstance(e, ast.NamedExpr):
            return self.value(e.value, d + 1)
        if isinstance(e, ast.Subscript):
            b = self.value(e.value, d + 1)
            if b is None:
                return None
            return self.union([self.item(x, e.slice) for x in b])
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('_make', '_replace'):
                b = self.value(e.func.value, d + 1)
                if b is not None and len(b) == 1 and not isinstance(b[0], Fn):
                    b = b[0]
                    f = fields_of(b[1]) if b[0] == 'class' else b[1] if b[0] == 'fields' else None
                    if f is not None:
                        return [('fields', f, [None] * len(f))]
            f = self.value(e.func, d + 1)
            if f is None:
                return None
            return self.union([self.result(x, d) for x in f])
        return None

    def item(self, x, i):
        if isinstance(x, Fn):
            return None
        if x[0] == 'seqof':
            return x[1]
        if x[0] in ('tuple', 'fields'):
            parts = x[-1]
            k = const_int(i)
            if k is None:
                return self.union(parts) if not isinstance(i, ast.Slice) else None
            return parts[k] if -len(parts) <= k < len(parts) else None
        return None

    def union(self, vs):
        out, seen = [], set()
        for v in vs:
            if v is None:
                return None
            for x in v:
                k = x.key() if isinstance(x, Fn) else (x[0], id(x[1])) if x[0] in ('class', 'inst') else (x[0], repr(x[1]) if x[0] == 'mod' else id(x))
                if k not in seen:
                    seen.add(k)
                    out.append(x)
        return out or None

    def name(self, n, s, d):
        f = s.find(n)
        if f is None:
            return None
        if f.wild:
            return None
        return self.union([self.bound(w, f, d) for w in f.binds[n]])

    def bound(self, w, s, d):
        if w[0] == 'def':
            n = w[1]
            how = [self.transparent(x, d) for x in n.decorator_list if not (isinstance(x, ast.Name) and x.id in ('staticmethod', 'classmethod'))]
            if not all(how):
                return None
            f = Fn(n, self.scopes[id(n)])
            f.opaque_result = any(h == 'args' for h in how)
            return [f]
        if w[0] == 'class':
            return [('class', w[1], self.scopes[id(w[1])])]
        if w[0] == 'self':
            # what holds for every instance: only for classes nothing in the package derives from
            if fields_of(w[1]) is not None or self.mro(w[1], w[2]) is None or w[1].name in self.derived():
                return None
            return [('inst', w[1], w[2])]
        if w[0] == 'import':
            return self.imported(w[1], w[2], d)
        if w[0] == 'value':
            return self.value(w[1], d + 1)
        if w[0] == 'each':
            v = self.value(w[1], d + 1)
            return self.union([x[1] if not isinstance(x, Fn) and x[0] == 'seqof' else None for x in v]) if v else None
        if w[0] == 'part':
            v = self.bound(w[1], s, d + 1)
            if v is None:
                return None
            out = []
            for x in v:
                p = x[-1] if not isinstance(x, Fn) and x[0] in ('tuple', 'fields') else None
                out.append(p[w[2]] if p is not None and w[2] < len(p) else None)
            return self.union(out)
        return None

    def sure(self, e, d=0):
        """may every possible value of this expression really occur there? (no choice that depends on the path)"""
        if d > 12:
            return False
        if isinstance(e, ast.Name):
            s = self.where.get(id(e))
            f = s.find(e.id) if s is not None else None
            if f is None or len(f.binds[e.id]) != 1:
                return False
            w = f.binds[e.id][0]
            return w[0] in ('def', 'class', 'import', 'self') or w[0] in ('value', 'each') and self.sure(w[1], d + 1)
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            return self.sure(e.value, d + 1)
        if isinstance(e, (ast.List, ast.Tuple)):
            return all(self.sure(x, d + 1) for x in e.elts)
        return isinstance(e, FUN)

    def transparent(self, x, d):
        """does this decorator pass all arguments on ('args'), and the result back ('all')?"""
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'lru_cache' or isinstance(x, ast.Attribute) and x.attr in ('lru_cache', 'cache'):
            return 'all'
        v = self.value(x, d + 1)
        if v is None or len(v) != 1 or not isinstance(v[0], Fn) or not isinstance(v[0].node, ast.FunctionDef):
            return None
        n = v[0].node
        if len(n.args.args) != 1 or n.args.vararg or n.args.kwarg:
            return None
        f = n.args.args[0].arg
        inner = {b.name: b for b in n.body if isinstance(b, ast.FunctionDef)}
        rs, ys = returns(n)
        if not rs or ys is not None:
            return None
        kinds = []
        for r in rs:
            if isinstance(r, ast.Name) and r.id == f:
                kinds.append('all')
                continue
            w = inner.get(r.id) if isinstance(r, ast.Name) else None
            if w is None or w.args.args or w.args.posonlyargs or w.args.kwonlyargs or not w.args.vararg or not w.args.kwarg:
                return None
            a, k = w.args.vararg.arg, w.args.kwarg.arg

            def is_pass(c):
                return isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == f and len(c.args) == 1 and isinstance(c.args[0], ast.Starred) \
                    and isinstance(c.args[0].value, ast.Name) and c.args[0].value.id == a and len(c.keywords) == 1 and c.keywords[0].arg is None \
                    and isinstance(c.keywords[0].value, ast.Name) and c.keywords[0].value.id == k
            calls = [c for c in ast.walk(w) if is_pass(c)]
            if not calls:
                return None
            res = {t.id for s in own(w) if isinstance(s, ast.Assign) and is_pass(s.value) for t in s.targets if isinstance(t, ast.Name)}
            others = {t.id for s in own(w) if isinstance(s, ast.Assign) and not is_pass(s.value) for t in s.targets if isinstance(t, ast.Name)}
            wr, wy = returns(w)
            same = wr and wy is None and all(r is not None and (is_pass(r) or isinstance(r, ast.Name) and r.id in res - others) for r in wr)
            kinds.append('all' if same else 'args')
        return 'args' if 'args' in kinds else 'all'

    def imported(self, mod, name, d=0):
        if name is None:
            return [('mod', mod)] if mod in self.mods else None
        if mod + '.' + name in self.mods and not (mod in self.mods and name in self.scopes[id(self.mods[mod].tree)].binds):
            return [('mod', mod + '.' + name)]
        if mod in self.mods:
            return self.modattr(mod, name, d)
        if mod in ('collections', 'typing') and name in ('namedtuple', 'NamedTuple'):
            return None
        return None

    def modattr(self, mod, name, d):
        s = self.scopes[id(self.mods[mod].tree)]
        if s.wild:
            return None
        if name in s.binds:
            return self.union([self.bound(w, s, d + 1) for w in s.binds[name]]) if d < 12 else None
        return [('mod', mod + '.' + name)] if mod + '.' + name in self.mods else None

    def attr(self, x, a, d):
        if isinstance(x, Fn):
            return None
        if x[0] == 'mod':
            return self.modattr(x[1], a, d)
        if x[0] in ('class', 'inst'):
            for c, sc in self.mro(x[1], x[2]) or []:
                if a in sc.binds:
                    out = []
                    for w in sc.binds[a]:
                        if w[0] != 'def':
                            return None
                        deco = [q.id if isinstance(q, ast.Name) else '?' for q in w[1].decorator_list]
                        if not all(q in ('staticmethod', 'classmethod') for q in deco):
                            return None
                        given = 0 if 'staticmethod' in deco else 1 if 'classmethod' in deco or x[0] == 'inst' else 0
                        out.append([Fn(w[1], self.scopes[id(w[1])], given, x[1])])
                    return self.union(out)
            return None
        if x[0] == 'fields':
            return x[2][x[1].index(a)] if a in x[1] else None
        return None

    def derived(self):
        if not hasattr(self, '_derived'):
            self._derived = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.ClassDef):
                        self._derived |= {b.attr if isinstance(b, ast.Attribute) else getattr(b, 'id', '?') for b in n.bases}
        return self._derived

    def mro(self, node, sc):
        """[(class, scope)], None when a base lies outside"""
        out = [(node, sc)]
        for b in node.bases:
            v = self.value(b)
            if v is None or len(v) != 1 or isinstance(v[0], Fn) or v[0][0] != 'class':
                return None
            r = self.mro(v[0][1], v[0][2])
            if r is None:
                return None
            out += r
        return out

    def result(self, x, d):
        """what calling x returns"""
        if isinstance(x, Fn):
            n = x.node
            if x.opaque_result:
                return None
            if isinstance(n, ast.Lambda):
                return self.value(n.body, d + 1)
            if isinstance(n, ast.AsyncFunctionDef):
                return None
            rs, ys = returns(n)
            if ys is not None:
                vs = [self.value(y, d + 1) if y is not None else None for y in ys]
                return [('seqof', self.union(vs))]
            if not rs or any(r is None for r in rs) or falls(n.body):
                return None
            return self.union([self.value(r, d + 1) for r in rs])
        if x[0] == 'class':
            f = fields_of(x[1])
            if f is not None:
                return [('fields', f, [None] * len(f))]
            return [('inst', x[1], x[2])] if self.mro(x[1], x[2]) else None
        return None


def const_int(i):
    if isinstance(i, ast.UnaryOp) and isinstance(i.op, ast.USub) and isinstance(i.operand, ast.Constant) and isinstance(i.operand.value, int):
        return -i.operand.value
    return i.value if isinstance(i, ast.Constant) and isinstance(i.value, int) and not isinstance(i.value, bool) else None


def fields_of(c):
    """field names of a NamedTuple class"""
    if any(isinstance(b, (ast.Name, ast.Attribute)) and (b.id if isinstance(b, ast.Name) else b.attr) == 'NamedTuple' for b in c.bases):
        return [b.target.id for b in c.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
    return None


def own(n):
    """nodes of a function's own body"""
    todo = list(n.body)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, FUN + (ast.ClassDef,)):
            todo.extend(ast.iter_child_nodes(x))


def returns(n):
    rs, ys = [], None
    for x in own(n):
        if isinstance(x, ast.Return):
            rs.append(x.value)
        elif isinstance(x, ast.Yield):
            ys = (ys or []) + [x.value]
        elif isinstance(x, ast.YieldFrom):
            ys = (ys or []) + [None]
    return rs, ys


def falls(body):
    """can control reach the end of these statements? (over-approximation)"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise)):
            return False
        if isinstance(s, ast.If) and s.orelse and not falls(s.body) and not falls(s.orelse):
            return False
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
            return False
        if isinstance(s, ast.With) and not falls(s.body):
            return False
        if isinstance(s, ast.Try):
            if s.finalbody and not falls(s.finalbody):
                return False
            if not falls(s.body) and all(not falls(h.body) for h in s.handlers) and (not s.orelse or True):
                return False
    return True


# ------------------------------------------------------------------ rules
def fits(fn, call):
    """None, or why the call cannot bind its arguments to the parameters"""
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nopos = len(a.posonlyargs)
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)]) + fn.given
    if a.vararg is None and n > len(pos):
        return f'{n - fn.given} positional arguments, at most {len(pos) - fn.given} accepted'
    names = [k.arg for k in call.keywords if k.arg is not None]
    ok = set(pos[nopos:]) | {x.arg for x in a.kwonlyargs}
    for k in names:
        if k not in ok and a.kwarg is None:
            return f'no parameter named {k!r}'
        if k in pos[nopos:] and pos.index(k) < n and not (a.kwarg is not None and k in pos[:nopos]):
            return f'{k!r} given twice'
    if len(set(names)) != len(names):
        return 'a keyword is repeated'
    if not star and not dstar:
        need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
        miss = [p for i, p in enumerate(need) if i >= n and p not in names]
        miss += [x.arg for x, df in zip(a.kwonlyargs, a.kw_defaults) if df is None and x.arg not in names]
        if miss:
            return 'missing ' + ', '.join(miss)
    elif not dstar:
        miss = [x.arg for x, df in zip(a.kwonlyargs, a.kw_defaults) if df is None and x.arg not in names]
        if miss:
            return 'missing ' + ', '.join(miss)
    return None


def is_dataclass(c):
    return len(c.decorator_list) == 1 and not c.keywords and isinstance(c.decorator_list[0], (ast.Name, ast.Attribute)) and \
        getattr(c.decorator_list[0], 'id', getattr(c.decorator_list[0], 'attr', None)) == 'dataclass'


def record(c):
    """a function with the parameters of a NamedTuple's or dataclass's constructor"""
    names, dfs = [], 0
    for b in c.body:
        if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
            if 'ClassVar' in ast.dump(b.annotation) or 'InitVar' in ast.dump(b.annotation) or isinstance(b.value, ast.Call) and any(k.arg in ('init', 'kw_only', None) for k in b.value.keywords):
                return None
            names.append(b.target.id)
            if b.value is not None and not (isinstance(b.value, ast.Call) and not any(k.arg in ('default', 'default_factory') for k in b.value.keywords) and getattr(b.value.func, 'id', '') == 'field'):
                dfs += 1
            elif dfs:
                return None
    a = ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in ['self'] + names], kwonlyargs=[], kw_defaults=[], defaults=[ast.Constant(value=None)] * dfs, vararg=None, kwarg=None)
    return Fn(ast.Lambda(args=a, body=ast.Constant(value=None)), None, 1, c)


def constructor(P, c, sc):
    """the function a class call runs, None if unknown, False if it takes nothing"""
    if fields_of(c) is not None:
        return record(c) if len(c.bases) == 1 and not c.decorator_list else None
    m = P.mro(c, sc)
    if is_dataclass(c):
        return record(c) if m is not None and len(m) == 1 and not {'__init__', '__new__'} & set(sc.binds) else None
    if m is None:
        # a base outside the package: its own __init__ still decides
        m = [(c, sc)]
        unknown = True
    else:
        unknown = False
    for n, s in m:
        if '__new__' in s.binds or n.decorator_list or n.keywords:
            return None
        w = s.binds.get('__init__')
        if w is not None:
            return Fn(w[0][1], P.scopes[id(w[0][1])], 1, n) if len(w) == 1 and w[0][0] == 'def' else None
    return None if unknown else False
