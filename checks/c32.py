"""What the programs write to standard output is data only."""
import ast, json, os
from .common import *
from . import cmdline as M
from . import c21, c22, c35, freqcd as FQ
from .freqcd import Round, CEnv
from sa import astgraph as G, harness as H, cfront

GEN = c35.GEN
HARMLESS = ('flush', 'fileno', 'isatty', 'encoding', 'reconfigure', 'closed', 'name', 'mode', 'writable')


def run(ck):
    ck.rule('no reachable construct writes to standard output except those that write the result, and these write exactly the result and nothing on a failing path')
    res = Results()
    for opts, _ in c22.cases():
        ck.guard('finder', lambda: finder(ck, res, opts))
    for flag in range(16):
        ck.guard('finder', lambda: finder(ck, res, M.FILES + (('-V', lambda o: M.I_(flag)),)))
    for opts in list(M.FILES + M.DIRS):
        ck.guard('finder without sources', lambda: refused(ck, res, (opts,)))
    for bad in ((), (('-P', None),), (('-h', None),), M.FILES + (('-h', None),), M.FILES + (('-V', M.I_(16)),)):
        ck.guard('finder refused', lambda: refused(ck, res, bad))
    ck.guard('finder without a peak', lambda: nopeak(ck, res))
    sinks(ck, 'fpfind.fpfind', 'main', 'finder', res)
    gen = Results()
    generator(ck, gen)
    sinks(ck, GEN, 'main', 'generator', gen)
    ck.guard('corrector sinks', lambda: csinks(ck))
    corrector(ck)
    return {}


# ------------------------------------------------------------------ the finder
def numbers():
    return N(real('D'), 'f8'), N(real('S', Fraction(-1, 2), Fraction(1, 2)), 'f8')


def finder(ck, res, opts):
    run = M.start((), lambda: Tup(numbers()))
    cl = c22.concrete(opts)
    run.I.cmd = (cl, ())
    o = run.call(M.Q, [])
    ck.seen(run)
    nm = 'finder: ' + M.words(cl)
    flag = dict(cl).get('-V', M.I_(0))
    s = run.spec(c21.SPEC, 'report', [*numbers(), flag])
    r = ck.same(f'{nm}: only the result', C.norm_out(o.stdout, False), C.norm_out(s.stdout, False), M.Q, cmp=Cmp(real=True), pre=o.pc)
    remember(res, o, r)
    quiet(ck, f'{nm}: nothing when it fails', o, T.bnot(o.pc))


def refused(ck, res, opts):
    run = M.start(opts)
    o = run.call(M.Q, [])
    ck.seen(run)
    quiet(ck, f'finder: {M.words(opts)}: refused without a word on standard output', o, 1)


def nopeak(ck, res):
    run = M.start(M.FILES)

    def search(I, b, st, ctx, node):
        I.raise_if(1, P.ExcV('ValueError', ()), st, ctx, node)
        return NONE
    run.I.summaries[M.FP + 'fpfind'] = search
    o = run.call(M.Q, [])
    ck.seen(run)
    quiet(ck, 'finder: no peak found: nothing on standard output', o, 1)


class Results:
    """the constructs that write the result"""
    def __init__(self):
        self.sure, self.open = set(), []

    def maybe(self):
        # where a run could not be decided, what it writes may be the result, unless something else is known to write it
        return {x for l in self.open if not l & self.sure for x in l}


def remember(res, o, verdict):
    l = {(e.func, e.line) for e in o.effects if e.kind == 'stdout' and e.pc != 0}
    if verdict == 'ok':
        res.sure |= l
    else:
        res.open.append(l)


def quiet(ck, tag, o, when):
    e = [x for x in o.effects if x.kind == 'stdout']
    ck.iff(tag, T.band(when, T.bor(*[x.pc for x in e])) if e else 0, 0, f'{e[0].func} line {e[0].line}' if e else M.Q)


# ------------------------------------------------------------------ the generator
def generator(ck, res):
    for leg in (False, True):
        x = (('-x', None),) if leg else ()
        for dest in ('file', 'stdout'):
            for rng in c35.RANGES:
                ck.guard(f'generator {dest}', lambda: events(ck, res, x, dest, False, rng))
                ck.guard(f'generator prompted {dest}', lambda: events(ck, res, x, dest, True, rng))
        ck.guard('generator file', lambda: shown(ck, res, x))


def events(ck, res, x, dest, prompt, rng):
    d = (('-o', K('OUT')),) if dest == 'file' else ()
    n = 3 if prompt else count('n', 1, 4)
    t = lambda nm: N(T.sym(nm + rng, True, *c35.RANGES[rng]), 'int')
    if prompt:
        run, o = c35.start(lambda: d + x or (('-x', None),), (), lambda: [t('x0'), K('no number'), t('x1'), t('x2')])
    else:
        run, o = c35.start(lambda: (('-t', c35.ts(rng)),) + d + x)
        n = count('n', 1, 4)
    ck.seen(run)
    nm = f'generator: {"prompted" if prompt else "list"} {rng} {dest}{" legacy" if x else ""}'
    if dest == 'file':
        quiet(ck, f'{nm}: nothing on standard output', o, 1)
        return
    out = C.norm_out(o.stdout, True)
    r = ck.same(f'{nm}: eight bytes for each event and no more', N(VV.slen(out), 'int'), N((num(n) if isinstance(n, int) else n) * 8, 'int'), c35.Q, pre=o.pc)
    remember(res, o, r)
    texts = [e for e in o.effects if e.kind == 'stdout' and isinstance(e.data[0], (K, Fmt)) and not isinstance(getattr(e.data[0], 'o', None), bytes)]
    ck.iff(f'{nm}: no text among the events', T.bor(*[e.pc for e in texts]) if texts else 0, 0, f'{texts[0].func} line {texts[0].line}' if texts else c35.Q)


def shown(ck, res, x):
    fresh()
    run = Run(files=file_cfg('a1', count('nrec', 0, 5)))
    run.load(GEN)
    run.I.cmd = (x, (K('F'),))
    o = run.call(c35.Q, [])
    ck.seen(run)
    n = count('nrec', 0, 5)
    w = run.spec(c35.SPEC, 'show', [run.alloc(ListV(smap(n, 1, 1, N(raw_t(word('a1', idx(1), bool(x), F())), 'int'))))])
    r = ck.same('generator: event file' + (' legacy' if x else '') + ': a line for each event and no more', ListV(C.norm_out(o.stdout, False)), ListV(C.norm_out(w.stdout, False)), c35.Q, pre=o.pc)
    remember(res, o, r)


# ------------------------------------------------------------------ constructs
def sinks(ck, mod, fname, what, res):
    r = G.Package(H.ROOT).reach(mod, fname)
    if r is None:
        raise Missing(f'{mod}.{fname} not found')
    for m, q, node in r:
        where = f'{m.name}.{q}' if q else m.name
        ck.functions.add(where)
        found, vague, n = scan(m, q, node)
        ck.nodes += n
        is_in = lambda l, s: any(f and f.startswith(where) and l0 == l for f, l0 in s)
        bad = [(l, w) for l, w in found if not is_in(l, res.sure) and not is_in(l, res.maybe())]
        vague += [(l, w) for l, w in found if not is_in(l, res.sure) and is_in(l, res.maybe())]
        ck.ok(not bad, f'{what}: {where}: nothing but the result goes to standard output', f'{m.path.split("/src/")[-1]}:{bad[0][0]} in {where}' if bad else where,
              f'reachable from {mod}.{fname}: ' + ', '.join(f'{w} at line {l}' for l, w in bad))
        if vague:
            ck.add(f'{what}: {where}: destinations known', 'unk', where, str(vague))


def dotted(m, e):
    """the dotted library name an expression stands for"""
    if isinstance(e, ast.Name):
        r = m.names.get(e.id)
        if r is None or r[0] == 'def':
            return e.id
        return r[1] if r[0] == 'mod' else (r[1] + '.' + r[2])
    if isinstance(e, ast.Attribute):
        b = dotted(m, e.value)
        return b and b + '.' + e.attr
    return None


def scan(m, q, node):
    """([(line, what)] of what writes to standard output, [what may], nodes)"""
    nodes = list(G.code(m, q, node))
    out = {'sys.stdout', 'sys.__stdout__', 'sys.stdout.buffer'}
    alias = set()

    def is_out(e):
        if isinstance(e, ast.Attribute) and e.attr in ('buffer', 'raw') and is_out(e.value):
            return True
        d = dotted(m, e)
        return d in out or isinstance(e, ast.Name) and e.id in alias or isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value in ('/dev/stdout', '/dev/fd/1', '/proc/self/fd/1')
    for _ in range(3):
        for x in list(ast.walk(m.tree)) + nodes:
            if isinstance(x, ast.Assign) and is_out(x.value):
                alias |= {t.id for t in x.targets if isinstance(t, ast.Name)}
            elif isinstance(x, (ast.FunctionDef, ast.Lambda)):
                a = x.args
                pos = a.posonlyargs + a.args
                for p_, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                    if d is not None and is_out(d):
                        alias.add(p_.arg)
    found, vague = [], []
    called = set()
    for x in nodes:
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if dotted(m, t) == 'sys.stderr' and is_out(x.value):
                    found.append((x.lineno, 'the error stream becomes standard output'))
        if not isinstance(x, ast.Call):
            continue
        f, d = x.func, dotted(m, x.func)
        kw = {k.arg: k.value for k in x.keywords}
        called.add(id(f))
        last = f.attr if isinstance(f, ast.Attribute) else d
        none = lambda e: isinstance(e, ast.Constant) and e.value is None
        if d in ('print', 'builtins.print', 'pprint.pprint', 'pprint.pp'):
            t = kw.get('file', kw.get('stream'))
            if (t is None or none(t) or is_out(t)) and None not in kw:
                found.append((x.lineno, d))
            elif None in kw:
                vague.append((x.lineno, d))
        elif isinstance(f, ast.Attribute) and last in ('write', 'writelines') and is_out(f.value):
            found.append((x.lineno, ast.unparse(f)))
        elif d == 'os.write' and x.args and isinstance(x.args[0], ast.Constant) and x.args[0].value == 1:
            found.append((x.lineno, 'os.write(1)'))
        elif last in ('StreamHandler', 'setStream', 'basicConfig', 'FileHandler', 'TqdmLoggingHandler', 'redirect_stderr', 'print_exc', 'tqdm', 'trange', 'StreamHandlerWithStdout') or isinstance(f, ast.Attribute) and last in ('addHandler',):
            if any(is_out(a) for a in list(x.args) + list(kw.values())):
                found.append((x.lineno, ast.unparse(x)[:80]))
        elif isinstance(f, ast.Attribute) and last in ('print_help', 'print_usage', 'print_values'):
            a = x.args[0] if x.args else kw.get('file')
            if a is None or none(a) or is_out(a):
                found.append((x.lineno, ast.unparse(x)[:80]))
        elif d in ('os.system', 'os.popen', 'subprocess.run', 'subprocess.call', 'subprocess.Popen', 'subprocess.check_call') and 'stdout' not in kw and 'capture_output' not in kw:
            vague.append((x.lineno, d))
        elif d == 'input' and x.args:
            found.append((x.lineno, 'prompt of input'))
    return found, vague, len(nodes)


# ------------------------------------------------------------------ the corrector
TEXT = ('printf', 'puts', 'putchar', 'vprintf', 'perror_stdout')
STREAM = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3, 'dprintf': 0}


def csinks(ck):
    path = os.path.join(H.ROOT, FQ.SRC)
    t = cfront.tree(path)
    n = [0, []]

    def name(x):
        while x and x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') and x.get('inner'):
            x = x['inner'][0]
        if x and x.get('kind') == 'DeclRefExpr':
            return x['referencedDecl'].get('name')
        if x and x.get('kind') == 'IntegerLiteral':
            return x.get('value')
        return None

    def walk(x, fn, line):
        if not isinstance(x, dict):
            return
        line = (x.get('loc') or {}).get('line') or ((x.get('range') or {}).get('begin') or {}).get('line') or ((x.get('range') or {}).get('begin') or {}).get('expansionLoc', {}).get('line') or line
        if x.get('kind') == 'FunctionDecl':
            fn = x.get('name')
        if x.get('kind') == 'CallExpr':
            n[0] += 1
            a = x.get('inner') or [{}]
            c = name(a[0])
            if c in TEXT or c in STREAM and len(a) > STREAM[c] + 1 and name(a[STREAM[c] + 1]) in ('stdout', '1', 'STDOUT_FILENO'):
                n[1].append((fn, c, line))
        for y in x.get('inner') or []:
            walk(y, fn, line)
    walk(t, None, None)
    ck.nodes += n[0]
    ck.ok(not n[1], 'corrector: no call writes text to standard output', FQ.Q if not n[1] else f'{n[1][0][0]}: {n[1][0][1]}', f'{n[0]} calls; {n[1]}')


def corrector(ck):
    E = (None, 0)
    for leg in (False, True):
        x = (('x', None),) if leg else ()
        for tag, opts, rs, kw in (
                ('events to standard output', (), [Round(E), Round(E)], {}), ('frequencies', (('F', 'freq'),), [Round(E, ('a', 10)), Round(E, ('b', 10)), Round(E)], {}),
                ('blank and bad frequencies', (('F', 'freq'),), [Round(E, (10,)), Round(E, ('a', 'b', 10)), Round(E)], {}),
                ('reading fails', (), [Round(E)], {'end': 'err'}), ('writing fails', (), [Round(E, write='err'), Round(E)], {}), ('time-outs', (), [Round(), Round(E)], {}),
                ('frequencies closed', (('F', 'freq'),), [Round(E, 'eof'), Round(E)], {})):
            ck.guard('corrector ' + tag, lambda: only(ck, 'corrector: ' + tag + (' legacy' if leg else ''), opts + x, rs, leg, kw))
    for tag, opts, kw in (('no input', (('i', 'in'),), {'noopen': ('in',)}), ('no output', (('o', 'out'),), {'noopen': ('out',)}), ('no frequencies', (('F', 'freq'),), {'noopen': ('freq',)}),
                          ('help', (('h', None),), {}), ('unknown option', (('?', None),), {}), ('no memory', (), {'nomem': (1,)})):
        ck.guard('corrector ' + tag, lambda: only(ck, 'corrector: ' + tag, opts, [Round(E)], False, kw))


def only(ck, tag, opts, rs, leg, kw):
    kw = dict(kw)
    env = CEnv(opts, rs, kw.pop('end', 'eof'), legacy=leg, numbers={('a',): lambda: T.ZERO, ('b',): lambda: (T.ZERO,), ('a', 'b'): lambda: (T.ZERO,)}, **kw)
    _, o = FQ.follow(ck, tag, env)
    ck.iff(f'{tag}: no text on standard output', FQ.when(o, lambda s, e, u, w: FQ.some(u)), 0, FQ.Q)
