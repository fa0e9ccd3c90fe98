"""Front end for C: clang's syntax tree of one file is rewritten, with C's integer, pointer and memory semantics made explicit
as calls of the `cmodel` primitives, into a tree the term evaluator runs."""
import json, subprocess, os, ast

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang-18'
INT = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False), 'int': (32, True),
       'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False), '_Bool': (8, False), 'bool': (8, False),
       '__int128': (128, True), 'unsigned __int128': (128, False)}
FLT = {'float', 'double', 'long double'}


class CError(Exception):
    pass


def tree(path):
    r = subprocess.run([CLANG, '-x', 'c', '-isystem', os.path.join(HERE, 'cstub'), '-std=gnu17', '-fsyntax-only', '-w', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Xclang', '-ast-dump=json', path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if r.returncode != 0:
        raise CError('clang: ' + r.stderr.decode(errors='replace')[:300])
    return json.loads(r.stdout)


class Type:
    """k: int float ptr arr struct void func"""
    def __init__(self, k, size=0, signed=False, elem=None, n=None, fields=None, name=None):
        self.k, self.size, self.signed, self.elem, self.n, self.fields, self.name = k, size, signed, elem, n, fields, name


VOID = Type('void', 1)


class Lower:
    def __init__(self, path):
        self.path = path
        self.src = open(path, 'rb').read()
        self.nl = [0]
        for i, b in enumerate(self.src):
            if b == 10:
                self.nl.append(i + 1)
        self.root = tree(path)
        self.typedefs, self.records, self.enums = {}, {}, {}
        self.out, self.lines = [], []
        self.ind = 0
        self.cur = 0
        self.ntmp = 0
        self.names = {}
        self.boxed = set()
        self.globals = set()
        self.functions = {}
        self.loops = []

    # ------------------------------------------------------------ positions
    def line(self, n):
        import bisect
        for part in (n.get('range', {}).get('begin', {}), n.get('loc', {})):
            p = part.get('expansionLoc', part)
            if 'offset' in p and 'includedFrom' not in p:
                return bisect.bisect_right(self.nl, p['offset'])
        return self.cur

    # ------------------------------------------------------------ types
    def ty(self, n):
        t = n.get('type', n) if isinstance(n, dict) else {'qualType': n}
        return self.tystr(t.get('desugaredQualType') or t['qualType'])

    def tystr(self, s):
        s = s.strip()
        for q in ('const ', 'volatile ', 'register ', 'restrict ', 'struct ', 'enum '):
            while s.startswith(q):
                s = s[len(q):].strip()
        for q in (' const', '*const', '*restrict', ' volatile', '*__restrict', ' restrict', '*volatile'):
            while s.endswith(q):
                s = s[:len(s) - len(q.lstrip('*'))].strip() if q[0] == '*' else s[:-len(q)].strip()
        if s.endswith(']'):
            i = s.index('[')
            j = s.index(']', i)
            e = self.tystr(s[:i] + s[j + 1:])
            n = s[i + 1:j]
            n = int(n) if n.isdigit() else None
            return Type('arr', e.size * (n or 0), elem=e, n=n)
        if s.endswith('*'):
            b = s[:-1]
            return Type('ptr', 8, elem=self.tystr(b) if '(' not in b else VOID)
        if s in INT:
            b, sg = INT[s]
            return Type('int', b // 8, sg, name=s)
        if s in FLT:
            return Type('float', 8, name=s)
        if s == 'void':
            return VOID
        if s in self.typedefs:
            return self.typedefs[s]
        if s in self.records:
            return self.records[s]
        if s in self.enums:
            return Type('int', 4, False)
        if '(' in s:
            return Type('func', 1)
        return Type('unknown', 8, name=s)

    def record(self, n):
        off, fs, al = 0, {}, 1
        union = n.get('tagUsed') == 'union'
        size = 0
        for f in n.get('inner', []):
            if f.get('kind') != 'FieldDecl':
                continue
            if f.get('isBitfield'):
                return None
            t = self.ty(f)
            a = self.align(t)
            if union:
                off = 0
            off = -(-off // a) * a
            fs[f.get('name')] = (off, t)
            off += t.size
            size = max(size, off)
            al = max(al, a)
        return Type('struct', -(-size // al) * al, fields=fs, name=n.get('name'))

    def align(self, t):
        if t.k == 'arr':
            return self.align(t.elem)
        if t.k == 'struct':
            return max([1] + [self.align(x) for _, x in t.fields.values()])
        return max(1, min(t.size, 16))

    # ------------------------------------------------------------ driving
    def run(self):
        decls = self.root.get('inner', [])
        funcs, gvars = [], []
        last = None
        for d in decls:
            k = d.get('kind')
            if k == 'RecordDecl':
                last = None
                if d.get('completeDefinition'):
                    r = self.record(d)
                    if r is not None:
                        last = r
                        if d.get('name'):
                            self.records[d['name']] = r
            elif k == 'EnumDecl':
                if d.get('name'):
                    self.enums[d['name']] = True
            elif k == 'TypedefDecl':
                q = d['type']
                t = self.tystr(q.get('desugaredQualType') or q['qualType'])
                if t.k == 'unknown' and last is not None:
                    t = last
                    self.records.setdefault(d['name'], t)
                self.typedefs[d['name']] = t
            elif k == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in d.get('inner', [])) and self.inmain(d):
                funcs.append(d)
            elif k == 'VarDecl' and d.get('storageClass') != 'extern' and self.inmain(d):
                gvars.append(d)
        self.emit('import cmodel')
        for f in funcs:
            self.functions[f['name']] = f
            self.scan(f)
        for g in gvars:
            self.scan(g)
            self.globals.add(g['id'])
        for g in gvars:
            self.vardecl(g)
        for f in funcs:
            self.function(f)
        return '\n'.join(self.out) + '\n', self.lines

    def inmain(self, d):
        loc = d.get('loc', {})
        loc = loc.get('expansionLoc', loc)
        r = d.get('range', {}).get('begin', {})
        r = r.get('expansionLoc', r)
        return 'includedFrom' not in loc and 'includedFrom' not in r and 'offset' in loc

    def scan(self, n):
        if not isinstance(n, dict):
            return
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
            x = n['inner'][0]
            while x.get('kind') in ('ParenExpr', 'MemberExpr') and not x.get('isArrow'):
                x = x['inner'][0]
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl'].get('kind') in ('VarDecl', 'ParmVarDecl'):
                self.boxed.add(x['referencedDecl']['id'])
        if n.get('kind') == 'MemberExpr' and not n.get('isArrow'):
            # arrays inside a structure decay to a pointer: keep such a structure in memory
            if self.ty(n).k == 'arr':
                x = n['inner'][0]
                while x.get('kind') in ('ParenExpr', 'MemberExpr'):
                    x = x['inner'][0]
                if x.get('kind') == 'DeclRefExpr':
                    self.boxed.add(x['referencedDecl']['id'])
        for x in n.get('inner', []):
            self.scan(x)

    def emit(self, s):
        self.out.append('    ' * self.ind + s)
        self.lines.append(self.cur)

    def tmp(self, e):
        self.ntmp += 1
        t = f't_{self.ntmp}'
        self.emit(f'{t} = {e}')
        return t

    def name(self, d):
        i = d['id']
        if i not in self.names:
            b = 'v_' + d.get('name', 'anon')
            if b in self.names.values():
                k = 2
                while f'{b}_{k}' in self.names.values():
                    k += 1
                b = f'{b}_{k}'
            self.names[i] = b
        return self.names[i]

    def function(self, f):
        self.cur = self.line(f)
        ps = [x for x in f.get('inner', []) if x.get('kind') == 'ParmVarDecl']
        body = next(x for x in f['inner'] if x.get('kind') == 'CompoundStmt')
        self.emit(f'def {f["name"]}({", ".join(self.name(p) for p in ps)}):')
        self.ind += 1
        q = f['type']['qualType']
        self.ret = self.tystr(q[:q.index('(')])
        g = sorted({self.names[i] for i in self.globals})
        if g:
            self.emit('global ' + ', '.join(g))
        for p in ps:
            if p['id'] in self.boxed:
                t = self.ty(p)
                nm = self.name(p)
                self.emit(f'{nm} = cmodel.box({t.size}, {nm})')
        self.loops = []
        self.stmt(body)
        if self.ret.k != 'void':
            self.emit('return 0' if f['name'] == 'main' else 'return None')
        else:
            self.emit('return None')
        self.ind -= 1

    # ------------------------------------------------------------ statements
    def block(self, n):
        k = len(self.out)
        self.ind += 1
        if n is not None:
            self.stmt(n)
        if len(self.out) == k:
            self.emit('pass')
        self.ind -= 1

    def stmt(self, n):
        k = n.get('kind')
        if k is None or k == 'NullStmt':
            return
        old = self.cur
        self.cur = self.line(n)
        m = getattr(self, 's_' + k, None)
        if m is not None:
            m(n)
        elif k.endswith('Operator') or k.endswith('Expr') or k.endswith('Literal'):
            e = self.rv(n, want=False)
            if e is not None and not e.isidentifier() and e != 'None':
                self.emit(e)
        else:
            raise CError(f'statement {k} at line {self.cur}')
        self.cur = old

    def s_CompoundStmt(self, n):
        for x in n.get('inner', []):
            self.stmt(x)

    def s_DeclStmt(self, n):
        for x in n.get('inner', []):
            if x.get('kind') == 'VarDecl':
                self.vardecl(x)
            elif x.get('kind') in ('RecordDecl', 'TypedefDecl', 'EnumDecl'):
                if x['kind'] == 'RecordDecl' and x.get('completeDefinition') and x.get('name'):
                    r = self.record(x)
                    if r:
                        self.records[x['name']] = r

    def vardecl(self, d):
        self.cur = self.line(d)
        t = self.ty(d)
        nm = self.name(d)
        if d.get('storageClass') == 'static' and d['id'] not in self.globals:
            raise CError('static local variable')
        init = next((x for x in d.get('inner', []) if x.get('kind') not in (None,) and not x['kind'].endswith('Attr')), None)
        if t.k == 'arr':
            n = t.n if t.n is not None else self.ty(init).n if init is not None else None
            if n is None:
                raise CError('array of unknown length')
            self.emit(f'{nm} = cmodel.array({n}, {self.cell(t.elem)}, {init is not None}, {nm!r})')
            if init is not None and init.get('kind') == 'InitListExpr':
                items = [x for x in init.get('inner', []) if x.get('kind') != 'ImplicitValueInitExpr'] if 'inner' in init else []
                for i, x in enumerate(items):
                    self.emit(f'cmodel.st(cmodel.padd({nm}, {i * t.elem.size}), {t.elem.size}, {self.rv(x)})')
            elif init is not None and init.get('kind') == 'StringLiteral':
                self.emit(f'cmodel.fill({nm}, {ast.literal_eval(init["value"])!r})')
            elif init is not None:
                raise CError('array initialiser ' + init.get('kind'))
            return
        if init is None:
            v = f'cmodel.undef({nm!r})' if d['id'] not in self.globals else '0'
        elif t.k == 'struct' and init.get('kind') == 'InitListExpr':
            v = '0'
            items = init.get('inner', [])
            for (f, (off, ft)), x in zip(t.fields.items(), items):
                if x.get('kind') == 'ImplicitValueInitExpr':
                    continue
                v = f'cmodel.setf({v}, {off}, {ft.size}, {self.rv(x)})'
        else:
            if init.get('kind') == 'InitListExpr':
                init = init['inner'][0]
            v = self.rv(init)
        if d['id'] in self.boxed:
            self.emit(f'{nm} = cmodel.box({t.size}, {v})')
        else:
            self.emit(f'{nm} = {v}')

    def cell(self, t):
        return max(1, t.size)

    def cond(self, n):
        e = self.rv(n)
        t = self.ty(n)
        return f'cmodel.nz({e})' if not self.boolish(n) else e

    def boolish(self, n):
        while n.get('kind') in ('ParenExpr',):
            n = n['inner'][0]
        k = n.get('kind')
        return k == 'BinaryOperator' and n.get('opcode') in ('<', '>', '<=', '>=', '==', '!=', '&&', '||') or k == 'UnaryOperator' and n.get('opcode') == '!'

    def s_IfStmt(self, n):
        xs = n.get('inner', [])
        c = self.cond(xs[0])
        self.emit(f'if {c}:')
        self.block(xs[1])
        if len(xs) > 2:
            self.emit('else:')
            self.block(xs[2])

    def loop(self, test, body, inc=None, post=False):
        """while loop; test may need statements of its own"""
        k = len(self.out)
        ind = self.ind
        # does the test need statements?
        pre = []
        if test is not None:
            so, sl = self.out, self.lines
            self.out, self.lines = [], []
            nt = self.ntmp
            c = self.cond(test)
            need = bool(self.out)
            self.out, self.lines = so, sl
            self.ntmp = nt
        else:
            c, need = 'True', False
        if not need and not post:
            self.emit(f'while {c}:')
            self.ind += 1
        else:
            self.emit('while True:')
            self.ind += 1
            if not post:
                c = self.cond(test)
                self.emit(f'if not ({c}):')
                self.emit('    break')
        start = len(self.out)

        def tail():
            if inc is not None:
                self.stmt(inc)
            if post:
                cc = self.cond(test)
                self.emit(f'if not ({cc}):')
                self.emit('    break')
        self.loops.append(('loop', tail))
        if body is not None:
            self.stmt(body)
        self.loops.pop()
        tail()
        if len(self.out) == start:
            self.emit('pass')
        self.ind -= 1

    def s_WhileStmt(self, n):
        xs = n['inner']
        self.loop(xs[0], xs[-1])

    def s_DoStmt(self, n):
        self.loop(n['inner'][1], n['inner'][0], post=True)

    def s_ForStmt(self, n):
        init, _, test, inc, body = n['inner']
        if init.get('kind'):
            self.stmt(init)
        self.loop(test if test.get('kind') else None, body if body.get('kind') else None, inc if inc.get('kind') else None)

    def s_BreakStmt(self, n):
        if self.loops and self.loops[-1][0] == 'switch':
            raise CError('break inside a nested statement of a switch')
        self.emit('break')

    def s_ContinueStmt(self, n):
        for l in reversed(self.loops):
            if l[0] == 'loop':
                l[1]()
                break
        self.emit('continue')

    def s_ReturnStmt(self, n):
        xs = n.get('inner', [])
        self.emit('return ' + (self.rv(xs[0]) if xs else 'None'))

    def s_SwitchStmt(self, n):
        xs = n['inner']
        v = self.tmp(self.rv(xs[0]))
        body = xs[-1]
        groups = []          # [labels, statements]
        for x in body.get('inner', []):
            labels = []
            while x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if x['kind'] == 'CaseStmt':
                    labels.append(self.rv(x['inner'][0]))
                    x = x['inner'][-1]
                else:
                    labels.append(None)
                    x = x['inner'][-1]
            if labels:
                groups.append([labels, []])
            if not groups:
                continue
            groups[-1][1].append(x)

        def leaves(x):
            k = x.get('kind')
            if k in ('BreakStmt', 'ReturnStmt', 'ContinueStmt'):
                return True
            if k == 'CompoundStmt':
                return any(leaves(y) for y in x.get('inner', []))
            return False

        def flat(st):
            r = []
            for x in st:
                if x.get('kind') == 'CompoundStmt':
                    r += flat(x.get('inner', []))
                else:
                    r.append(x)
                if leaves(x):
                    break
            return r
        seqs = []
        for i in range(len(groups)):
            r = []
            for _, st in groups[i:]:
                r += flat(st)
                if r and leaves(r[-1]):
                    break
            if r and r[-1].get('kind') == 'BreakStmt':
                r = r[:-1]
            seqs.append(r)
        first = True
        default = None
        self.loops.append(('switch', None))
        for (labels, _), r in zip(groups, seqs):
            if None in labels:
                default = (labels, r)
                continue
            self.emit(('if ' if first else 'elif ') + ' or '.join(f'{v} == {l}' for l in labels) + ':')
            first = False
            self.block({'kind': 'CompoundStmt', 'inner': r})
        if default is not None:
            if first:
                self.emit('if True:')
            else:
                self.emit('else:')
            self.block({'kind': 'CompoundStmt', 'inner': default[1]})
        self.loops.pop()

    # ------------------------------------------------------------ lvalues
    def lv(self, n):
        k = n.get('kind')
        if k == 'ParenExpr':
            return self.lv(n['inner'][0])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            t = self.ty(n)
            if d['name'] in ('optarg', 'optind', 'opterr', 'optopt', 'stderr', 'stdout', 'stdin') and d['id'] not in self.names:
                return ('ext', d['name'], t)
            if d.get('kind') == 'FunctionDecl':
                return ('var', d['name'], t)
            nm = self.name(d)
            if t.k == 'arr' or d['id'] in self.boxed:
                return ('mem', nm, t)
            return ('var', nm, t)
        if k == 'ArraySubscriptExpr':
            b, i = n['inner']
            t = self.ty(n)
            if self.ty(b).k != 'ptr':
                b, i = i, b
            p, q = self.many(b, i)
            return ('mem', f'cmodel.padd({p}, {self.scale(q, t.size)})', t)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            x = n['inner'][0]
            y = x
            while y.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
                y = y['inner'][0]
            if y.get('kind') == 'CallExpr' and 'errno' in json.dumps(y)[:2000]:
                return ('ext', 'errno', self.ty(n))
            return ('mem', self.rv(x), self.ty(n))
        if k == 'MemberExpr':
            t = self.ty(n)
            b = n['inner'][0]
            if n.get('isArrow'):
                bt = self.ty(b).elem
                off = bt.fields[n['name']][0]
                return ('mem', f'cmodel.padd({self.rv(b)}, {off})' if off else self.rv(b), t)
            if b.get('valueCategory') == 'prvalue':
                return ('val', self.rv(b), self.ty(b).fields[n['name']][0], t)
            l = self.lv(b)
            off = self.ty(b).fields[n['name']][0]
            if l[0] == 'mem':
                return ('mem', f'cmodel.padd({l[1]}, {off})' if off else l[1], t)
            return ('field', l, off, t)
        if k == 'ImplicitCastExpr':
            return self.lv(n['inner'][0])
        if k == 'StringLiteral':
            return ('mem', f'cmodel.text({n["value"]})', self.ty(n))
        raise CError(f'lvalue {k} at line {self.line(n)}')

    def scale(self, q, size):
        return q if size == 1 else f'({q}) * {size}'

    def load(self, l):
        t = l[-1]
        if l[0] == 'var':
            return l[1]
        if l[0] == 'ext':
            return f'cmodel.ext({l[1]!r})'
        if l[0] == 'mem':
            return f'cmodel.ld({l[1]}, {t.size}, {t.k == "int" and t.signed})'
        if l[0] == 'field':
            return f'cmodel.getf({self.load(l[1])}, {l[2]}, {t.size}, {t.k == "int" and t.signed})'
        if l[0] == 'val':
            return f'cmodel.getf({l[1]}, {l[2]}, {t.size}, {t.k == "int" and t.signed})'

    def store(self, l, v):
        t = l[-1]
        if l[0] == 'var':
            self.emit(f'{l[1]} = {v}')
        elif l[0] == 'ext':
            self.emit(f'cmodel.setext({l[1]!r}, {v})')
        elif l[0] == 'mem':
            self.emit(f'cmodel.st({l[1]}, {t.size}, {v})')
        elif l[0] == 'field':
            self.store(l[1], f'cmodel.setf({self.load(l[1])}, {l[2]}, {t.size}, {v})')
        else:
            raise CError('store to a value')

    def addr(self, l):
        if l[0] == 'mem':
            return l[1]
        if l[0] == 'var':
            return l[1]            # functions
        raise CError('address of ' + l[0])

    # ------------------------------------------------------------ rvalues
    def many(self, *ns):
        """evaluate several expressions; earlier ones are kept in temporaries when later ones have effects"""
        r = []
        for n in ns:
            k = len(self.out)
            e = self.rv(n)
            if len(self.out) > k and r:
                new, nl = self.out[k:], self.lines[k:]
                del self.out[k:], self.lines[k:]
                r = [x if x.lstrip('-').isdigit() or x.startswith('t_') else self.tmp(x) for x in r]
                self.out += new
                self.lines += nl
            r.append(e)
        return r

    def arith(self, op, a, b, t):
        """a op b computed in type t"""
        if t.k == 'float':
            return f'({a} {op} {b})'
        bits = t.size * 8
        if op in ('/', '%'):
            return f'cmodel.{"div" if op == "/" else "rem"}({a}, {b}, {bits}, {t.signed})'
        if op in ('<<', '>>'):
            return f'cmodel.{"shl" if op == "<<" else "shr"}({a}, {b}, {bits}, {t.signed})'
        if op in ('&', '|', '^'):
            return f'(cmodel.num({a}) {op} cmodel.num({b}))' if t.signed else f'({a} {op} {b})'
        if op == '*':
            return f'cmodel.mul({a}, {b}, {bits}, {t.signed})'
        return f'cmodel.fit({a} {op} {b}, {bits}, {t.signed})'

    def rv(self, n, want=True):
        k = n.get('kind')
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise CError(f'expression {k} at line {self.line(n)}')
        if k in ('UnaryOperator', 'BinaryOperator', 'CompoundAssignOperator', 'CallExpr', 'ConditionalOperator'):
            return m(n, want)
        return m(n)

    def e_ParenExpr(self, n):
        return self.rv(n['inner'][0])

    def e_ConstantExpr(self, n):
        return self.rv(n['inner'][0])

    def e_IntegerLiteral(self, n):
        return str(int(n['value']))

    def e_CharacterLiteral(self, n):
        return str(int(n['value']))

    def e_FloatingLiteral(self, n):
        return repr(float(n['value']))

    def e_StringLiteral(self, n):
        return f'cmodel.text({n["value"]})'

    def e_ImplicitValueInitExpr(self, n):
        return '0'

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d.get('kind') == 'EnumConstantDecl':
            return str(self.enumval(d['id']))
        return self.load(self.lv(n))

    def enumval(self, i):
        if not hasattr(self, '_ev'):
            self._ev = {}

            def walk(x):
                if not isinstance(x, dict):
                    return
                if x.get('kind') == 'EnumDecl':
                    v = -1
                    for c in x.get('inner', []):
                        if c.get('kind') != 'EnumConstantDecl':
                            continue
                        j = c.get('inner', [])
                        v = v + 1
                        if j and 'value' in j[0]:
                            v = int(j[0]['value'])
                        self._ev[c['id']] = v
                    return
                for c in x.get('inner', []):
                    walk(c)
            walk(self.root)
        return self._ev[i]

    def e_MemberExpr(self, n):
        return self.load(self.lv(n))

    e_ArraySubscriptExpr = e_MemberExpr

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof':
            raise CError(n.get('name'))
        t = self.ty(n['argType']) if 'argType' in n else self.ty(n['inner'][0])
        return str(t.size)

    def e_ImplicitCastExpr(self, n):
        x = n['inner'][0]
        ck = n['castKind']
        if ck == 'LValueToRValue':
            return self.load(self.lv(x))
        if ck == 'ArrayToPointerDecay':
            return self.addr(self.lv(x))
        if ck in ('NoOp', 'BitCast', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ToVoid', 'FloatingCast', 'LValueBitCast'):
            return self.rv(x)
        if ck == 'NullToPointer':
            return 'None'
        t = self.ty(n)
        if ck == 'IntegralCast':
            s = self.ty(x)
            e = self.rv(x)
            if s.k == 'int' and (t.size > s.size and (t.signed or not s.signed) or t.size == s.size and t.signed == s.signed):
                return e
            if e.lstrip('-').isdigit() and 0 <= int(e) < 1 << (8 * t.size - 1):
                return e
            return f'cmodel.cast({e}, {t.size * 8}, {t.signed})'
        if ck == 'IntegralToFloating':
            return f'cmodel.tofloat({self.rv(x)})'
        if ck == 'FloatingToIntegral':
            return f'cmodel.toint({self.rv(x)}, {t.size * 8}, {t.signed})'
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return f'cmodel.nz({self.rv(x)})'
        if ck == 'PointerToIntegral' or ck == 'IntegralToPointer':
            return f'cmodel.opaque({self.rv(x)})'
        raise CError(f'cast {ck} at line {self.line(n)}')

    def e_CStyleCastExpr(self, n):
        x = n['inner'][0]
        t = self.ty(n)
        y = x
        while y.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            y = y['inner'][0]
        if t.k == 'ptr' and y.get('kind') == 'CallExpr':
            self.castto = t.elem
            try:
                return self.e_ImplicitCastExpr(n)
            finally:
                self.castto = None
        return self.e_ImplicitCastExpr(n)

    castto = None

    def e_ConditionalOperator(self, n, want=True):
        c, a, b = n['inner']
        cc = self.cond(c)
        so, sl, nt = list(self.out), list(self.lines), self.ntmp
        ea, eb = self.rv(a), self.rv(b)
        if len(self.out) == len(so):
            return f'({ea} if {cc} else {eb})'
        self.out, self.lines, self.ntmp = so, sl, nt
        self.ntmp += 1
        t = f't_{self.ntmp}'
        self.emit(f'if {cc}:')
        self.ind += 1
        e = self.rv(a)
        self.emit(f'{t} = {e}')
        self.ind -= 1
        self.emit('else:')
        self.ind += 1
        e = self.rv(b)
        self.emit(f'{t} = {e}')
        self.ind -= 1
        return t

    def e_UnaryOperator(self, n, want=True):
        op = n['opcode']
        x = n['inner'][0]
        t = self.ty(n)
        if op == '&':
            return self.addr(self.lv(x))
        if op == '*':
            return self.load(self.lv(n))
        if op == '!':
            return f'(not {self.cond(x)})'
        if op == '-':
            e = self.rv(x)
            if e.isdigit():
                return '-' + e
            return f'(-{e})' if t.k == 'float' else f'cmodel.fit(-cmodel.num({e}), {t.size * 8}, {t.signed})'
        if op == '+':
            return self.rv(x)
        if op == '~':
            e = self.rv(x)
            return f'cmodel.cast(-1 - cmodel.num({e}), {t.size * 8}, {t.signed})'
        if op in ('++', '--'):
            l = self.lv(x)
            if l[0] == 'mem' and not l[1].isidentifier():
                l = ('mem', self.tmp(l[1]), l[2])
            old = self.load(l)
            if want and n.get('isPostfix'):
                old = self.tmp(old)
            if t.k == 'ptr':
                d = t.elem.size
                new = f'cmodel.padd({old}, {d if op == "++" else -d})'
            else:
                new = self.step(old, op[0], t)
            self.store(l, new)
            return old if n.get('isPostfix') else self.load(l)
        if op == '__extension__':
            return self.rv(x)
        raise CError(f'operator {op}')

    def step(self, old, op, t):
        if t.k == 'float':
            return f'{old} {op} 1'
        # integer promotion: the sum is computed in int, then narrowed
        if t.size < 4:
            return f'cmodel.cast({old} {op} 1, {t.size * 8}, {t.signed})'
        return f'cmodel.fit({old} {op} 1, {t.size * 8}, {t.signed})'

    def e_BinaryOperator(self, n, want=True):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            l = self.lv(a)
            k = len(self.out)
            e = self.rv(b)
            if len(self.out) > k and l[0] == 'mem' and not l[1].isidentifier():
                # left operand evaluated first
                new, nl = self.out[k:], self.lines[k:]
                del self.out[k:], self.lines[k:]
                l = ('mem', self.tmp(l[1]), l[2])
                self.out += new
                self.lines += nl
            if want and not (e.startswith('t_') and e.isidentifier()) and not e.lstrip('-').isdigit():
                e = self.tmp(e)
            self.store(l, e)
            return e if want else None
        if op == ',':
            e = self.rv(a, want=False)
            if e and not e.isidentifier():
                self.emit(e)
            return self.rv(b, want)
        if op in ('&&', '||'):
            ca = self.cond(a)
            so, sl, nt = list(self.out), list(self.lines), self.ntmp
            cb = self.cond(b)
            if len(self.out) == len(so):
                return f'({ca} {"and" if op == "&&" else "or"} {cb})'
            self.out, self.lines, self.ntmp = so, sl, nt
            self.ntmp += 1
            t = f't_{self.ntmp}'
            self.emit(f'{t} = {ca}')
            self.emit(f'if {t}:' if op == '&&' else f'if not {t}:')
            self.ind += 1
            cb = self.cond(b)
            self.emit(f'{t} = {cb}')
            self.ind -= 1
            return t
        ta, tb, t = self.ty(a), self.ty(b), self.ty(n)
        x, y = self.many(a, b)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if ta.k == 'ptr' or tb.k == 'ptr':
                return f'cmodel.pcmp({op!r}, {x}, {y})'
            return f'({x} {op} {y})'
        if ta.k == 'ptr' and tb.k == 'ptr':
            return f'cmodel.psub({x}, {y}, {ta.elem.size})'
        if ta.k == 'ptr':
            return f'cmodel.padd({x}, {"-" if op == "-" else ""}({self.scale(y, ta.elem.size)}))'
        if tb.k == 'ptr':
            return f'cmodel.padd({y}, ({self.scale(x, tb.elem.size)}))'
        return self.arith(op, x, y, t)

    def e_CompoundAssignOperator(self, n, want=True):
        op = n['opcode'][:-1]
        a, b = n['inner']
        l = self.lv(a)
        t = self.ty(n)
        k = len(self.out)
        y = self.rv(b)
        if l[0] == 'mem' and not l[1].isidentifier():
            new, nl = self.out[k:], self.lines[k:]
            del self.out[k:], self.lines[k:]
            l = ('mem', self.tmp(l[1]), l[2])
            self.out += new
            self.lines += nl
        cur = self.load(l)
        if t.k == 'ptr':
            self.store(l, f'cmodel.padd({cur}, {"-" if op == "-" else ""}({self.scale(y, t.elem.size)}))')
        else:
            ct = self.ty(n['computeResultType'])
            lt = self.ty(n['computeLHSType'])
            if t.k == 'int' and lt.k == 'int' and not (lt.size >= t.size and lt.signed == t.signed):
                cur = f'cmodel.cast({cur}, {lt.size * 8}, {lt.signed})'
            elif t.k == 'int' and lt.k == 'float':
                cur = f'cmodel.tofloat({cur})'
            v = self.arith(op, cur, y, ct)
            if ct.k == 'float' and t.k == 'int':
                v = f'cmodel.toint({v}, {t.size * 8}, {t.signed})'
            elif ct.k == 'int' and (ct.size != t.size or ct.signed != t.signed):
                v = f'cmodel.cast({v}, {t.size * 8}, {t.signed})'
            self.store(l, v)
        return self.load(l) if want else None

    def e_CompoundLiteralExpr(self, n):
        raise CError('compound literal')

    def e_CallExpr(self, n, want=True):
        f, *args = n['inner']
        g = f
        while g.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            g = g['inner'][0]
        if g.get('kind') != 'DeclRefExpr':
            raise CError('indirect call')
        name = g['referencedDecl']['name']
        cast, self.castto = self.castto, None
        vals = self.many(*args) if args else []
        if name in ('malloc', 'calloc', 'realloc'):
            w = self.cell(cast) if cast is not None else 1
            vals.append(str(w))
        if name.startswith('__builtin_'):
            name = name[len('__builtin_'):]
        fn = name if name in self.functions else 'cmodel.c_' + name
        e = f'{fn}({", ".join(vals)})'
        t = self.ty(n)
        if t.k == 'void' or not want:
            self.emit(e)
            return None if not want else 'None'
        return self.tmp(e)


def lowered(path):
    lo = Lower(path)
    src, lines = lo.run()
    return src, lines, lo
