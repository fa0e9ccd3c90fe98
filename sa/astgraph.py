"""Which functions and which module-level code of the package can run in a program: names resolved through imports."""
import ast, os


class Mod:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(open(path, encoding='utf-8').read(), path)
        self.names = {}          # local name -> ('mod', module) | ('from', module, name) | ('def', node)
        self.scan(self.tree.body)

    def scan(self, body):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.names[a.asname or a.name] = ('from', n.module or '', a.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.names[n.name] = ('def', n)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    self.scan(getattr(n, f, []))
                for h in getattr(n, 'handlers', []):
                    self.scan(h.body)


class Package:
    def __init__(self, root):
        self.root = root
        self.mods = {}

    def mod(self, name):
        if name not in self.mods:
            b = os.path.join(self.root, 'src', *name.split('.'))
            p = b + '.py' if os.path.isfile(b + '.py') else os.path.join(b, '__init__.py')
            self.mods[name] = Mod(name, p) if name.startswith('fpfind') and os.path.isfile(p) else None
        return self.mods[name]

    def resolve(self, m, name):
        """(module, definition) or None"""
        for _ in range(8):
            r = m.names.get(name)
            if r is None:
                return None
            if r[0] == 'def':
                return m, r[1]
            if r[0] == 'from':
                n = self.mod(r[1])
                if n is None:
                    return None
                s = self.mod(r[1] + '.' + r[2])
                if s is not None and r[2] not in n.names:
                    return s, None
                m, name = n, r[2]
                continue
            n = self.mod(r[1])
            return (n, None) if n is not None else None
        return None

    def reach(self, entry, fname):
        """[(module, qualified name or '', node whose own code runs)], of the program that calls entry.fname"""
        out, seen, todo = [], set(), []

        def module(m):
            if m is None or ('m', m.name) in seen:
                return
            seen.add(('m', m.name))
            out.append((m, '', m.tree))
            refs(m, code(m, '', m.tree), True)

        def refs(m, nodes, flat=False):
            for top in nodes:
                for x in [top] if flat else ast.walk(top):
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        for nm in ([x.module] if isinstance(x, ast.ImportFrom) else [a.name for a in x.names]):
                            if nm:
                                module(self.mod(nm))
                        if isinstance(x, ast.ImportFrom):
                            for a in x.names:
                                module(self.mod((x.module or '') + '.' + a.name))
                    if flat:
                        # importing a module runs what it calls; what it only mentions is not run
                        if isinstance(x, ast.Call):
                            x = x.func
                        elif not isinstance(x, (ast.Import, ast.ImportFrom)):
                            continue
                    r = None
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                        r = self.resolve(m, x.id)
                    elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                        b = self.resolve(m, x.value.id)
                        if b is not None and b[1] is None:
                            r = self.resolve(b[0], x.attr)
                        elif b is None and m.names.get(x.value.id, ('',))[0] == 'mod':
                            n = self.mod(m.names[x.value.id][1])
                            r = self.resolve(n, x.attr) if n else None
                    if r is not None:
                        if r[1] is None:
                            module(r[0])
                        else:
                            define(r[0], r[1], r[1].name)

        def define(m, node, q):
            module(m)
            if (m.name, id(node)) in seen:
                return
            seen.add((m.name, id(node)))
            if isinstance(node, ast.ClassDef):
                refs(m, node.bases + node.decorator_list)
                for b in node.body:
                    if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        define(m, b, q + '.' + b.name)
                    else:
                        refs(m, [b])
                return
            out.append((m, q, node))
            refs(m, node.decorator_list + [d for d in node.args.defaults + node.args.kw_defaults if d is not None])
            # nested functions run when their function does
            refs(m, node.body)

        m = self.mod(entry)
        if m is None:
            return None
        module(m)
        r = self.resolve(m, fname)
        if r is None or r[1] is None:
            return None
        define(r[0], r[1], fname)
        return out


def main_guard(n):
    return isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == '__name__'


def code(m, q, node):
    """nodes belonging to this piece of code: a function with what is nested in it, or a module's statements without its functions and classes' methods"""
    if q:
        for b in node.body:
            yield from ast.walk(b)
        for d in node.args.defaults + node.args.kw_defaults:
            if d is not None:
                yield from ast.walk(d)
        return
    todo = [x for x in node.body if not main_guard(x)]
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        yield x
        todo.extend(ast.iter_child_nodes(x))
