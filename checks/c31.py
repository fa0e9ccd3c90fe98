"""Failures: exit status, a message on the error stream, and no data before."""
from .common import *
from . import cmdline as M
from . import c07, c20, c35, freqcd as FQ
from .freqcd import Round, CEnv

PT = 'fpfind.lib.parse_timestamps.'
PE = 'fpfind.lib.parse_epochs.'
GEN = c35.GEN
DRAIN = '''
from fpfind.lib.parse_timestamps import NAME

def drain(f, legacy):
    stream, n = NAME(f, legacy)
    r = []
    for x in stream:
        r.append(x)
    return r
'''


def run(ck):
    ck.rule('every path on which a source cannot be opened, an option is invalid or a required input is missing ends with a non-zero status and a message on the error stream, with nothing written')
    corrector(ck)
    readers(ck)
    finder(ck)
    converter(ck)
    generator(ck)
    return {}


# ------------------------------------------------------------------ Python programs
def fails(ck, tag, run, o, where, when=1, given=None):
    """all of main's paths (under 'when') end in a reported failure"""
    ck.seen(run)
    when = T.band(when, run.I.assume)
    ck.iff(f'{tag}: does not end as a success', T.band(when, o.pc), 0, where)
    said = T.bor(*[e.pc for e in o.effects if e.kind == 'stderr' or e.kind == 'log' and e.data[0] in ('warning', 'error', 'critical', 'exception')] or [0])
    for e in o.effects:
        if e.kind != 'exit' or T.band(e.pc, when) == 0:
            continue
        c = e.data[0]
        at = f'{e.func} line {e.line}'
        if isinstance(c, K) and isinstance(c.o, str):
            continue
        k = c.p.const() if isinstance(c, N) else int(c.b) if isinstance(c, B) and c.b in (0, 1) else 0 if c == K(None) else None
        if k is None:
            ck.add(f'{tag}: exit status', 'unk', at, str(c))
            continue
        ck.iff(f'{tag}: exit status', T.band(when, e.pc) if int(k) % 256 == 0 else 0, 0, at)
        ck.iff(f'{tag}: a message on the error stream', T.band(when, e.pc, T.bnot(said)), 0, at)
    e = [x for x in o.effects if x.kind == 'stdout']
    ck.iff(f'{tag}: nothing on standard output', T.bor(*[T.band(when, x.pc) for x in e]) if e else 0, 0, f'{e[0].func} line {e[0].line}' if e else where)
    for pc, exc, st in o.raise_states:
        if T.band(pc, when) == 0:
            continue
        if getattr(exc, 'cls', '') == 'SystemExit' and exc.args:
            ok = exc.args[0] == K(None) or isinstance(exc.args[0], N) and exc.args[0].p.const() == 0
            ck.iff(f'{tag}: exit status', T.band(pc, when) if ok else 0, 0, where)
        for k, v in st.heap.items():
            if isinstance(v, FileV) and v.mode and any(c in v.mode for c in 'wax+') and v.out != EMPTY:
                n = VV.slen(C.norm_out(v.out, 'b' in v.mode))
                ck.iff(f'{tag}: no data is written', T.band(pc, when, T.lt(T.ZERO, n)), 0, where)


def readers(ck):
    for fmt in ('a0', 'a1', 'a2'):
        for leg in (False, True):
            for how in HOW:
                ck.guard(f'read_{fmt}', lambda: missing_file(ck, PT + 'read_' + fmt, {'legacy': K(leg)}, how))
                ck.guard(f'sread_{fmt}', lambda: drained(ck, 'sread_' + fmt, leg, how))
    for n in ('read_T1_header', 'read_T2_header', 'read_T3_header', 'read_T4_header', 'read_T1', 'read_T2', 'read_T3', 'read_T4'):
        for how in HOW:
            ck.guard(n, lambda: missing_file(ck, PE + n, {}, how))


HOW = ('missing', 'unreadable')


def missing_file(ck, q, kw, how):
    fresh()
    run = Run(files=file_cfg('a1', count('nrec', 0, 5)))
    setattr(run.I, how, (K('F'),))
    o = run.call(q, [F()], kw)
    ck.seen(run)
    ck.iff(f'{q.split(".")[-1]} {"legacy" if kw.get("legacy") == K(True) else ""}: {how} file is an error', B(o.rp).b, 1, q)


def drained(ck, name, leg, how):
    fresh()
    run = Run(files=file_cfg('a1', count('nrec', 0, 5)))
    run.load('fpfind.lib.parse_timestamps')
    setattr(run.I, how, (K('F'),))
    o = run.spec(DRAIN.replace('NAME', name), 'drain', [F(), K(leg)], mayraise=True)
    ck.iff(f'{name} {"legacy" if leg else ""}: {how} file is an error', B(o.rp).b, 1, PT + name)


# ------------------------------------------------------------------ the finder
def finder(ck):
    T_, D_ = M.FILES, M.DIRS
    for bad in ((), (T_[0],), (T_[1],), (D_[0],), (D_[1],), (T_[0], D_[1]), (D_[0], T_[1]), (('-P', None),), (('-h', None),), T_ + (('-h', None),), T_ + (('-V', M.I_(16)),), T_ + (('-V', M.I_(-1)),),
                T_ + (('-k', K('x')),), T_ + (('-q', K('1.5')),), T_ + (('-R', K('abc')),), T_ + (('-r', K('')),), T_ + (('-s', K('x')),), T_ + (('-S', K('x')),), T_ + (('-Z', K('x')),),
                D_ + (('-z', K('x')),), T_ + (('--precomp-start', K('x')),), T_ + (('--precomp-step', K('x')),), T_ + (('--precomp-stop', K('x')),), T_ + (('--no-such-option', None),)):
        def go(bad=bad):
            run = M.start(bad)
            fails(ck, 'finder: ' + M.words(bad), run, run.call(M.Q, []), M.Q)
        ck.guard('finder refused', go)
    ck.guard('search', lambda: search(ck))
    U = M.U
    for tag, opts, names, kind in (
            ('no reference or target file', T_, ('fpfind.lib.parse_timestamps.read_a1',), 'FileNotFoundError'),
            ('no epochs', D_, (U + 'get_first_overlapping_epoch', PE + 'get_first_overlapping_epoch'), 'ValueError'),
            ('no epoch file', D_, (U + 'get_timestamp',), 'FileNotFoundError'), ('no event', T_, (U + 'normalize_timestamps',), 'IndexError'),
            ('no event', D_, (U + 'normalize_timestamps',), 'ValueError'),
            ('no peak', T_, (M.FP + 'fpfind',), 'ValueError'), ('no peak', D_ + (('-P', None),), (M.FP + 'fpfind',), 'ValueError'),
            ('impossible precompensations', T_ + (('-P', None),), (M.FP + 'generate_precompensations',), 'ValueError')):
        for more in ((), (('-v', None),), (('--quiet', None),)):
            def go():
                run = M.start(opts + more)

                def f(I, b, st, ctx, node):
                    I.raise_if(1, P.ExcV(kind, ()), st, ctx, node)
                    return NONE
                for n in names:
                    if n in run.I.summaries:
                        run.I.summaries[n] = f
                fails(ck, f'finder: {tag}: {M.words(opts + more)}', run, run.call(M.Q, []), M.Q)
            ck.guard('finder ' + tag, go)


def search(ck):
    """the search itself: no candidate survives"""
    for n in (1, 2, 3):
        for exc in ('PeakFindingFailed', 'ValueError'):
            run, args = c20.begin()

            def f(I, b, st, ctx, node):
                I.raise_if(1, P.ExcV(exc, ()), st, ctx, node)
                return NONE
            run.I.summaries = {M.FP + 'time_freq': f}
            q = M.FP + 'fpfind'
            o = run.call(q, args + [run.alloc(ListV(Lit(tuple(c20.pre(i) for i in range(n)))))])
            ck.seen(run)
            ck.iff(f'{n} candidates fail with {exc}: an error', B(o.rp).b, 1, q)


# ------------------------------------------------------------------ the converter
def converter(ck):
    for inm in (False, True):
        for a in ('0', '1', '2'):
            for o in ('0', '1', '2'):
                for pr in (False, True):
                    if pr and o != '1':
                        continue
                    ck.guard(f'converter {a} {o}', lambda: unreadable(ck, inm, a, o, pr))
    for what in ('no destination', 'bad input format', 'no input format', 'bad output format', 'not a file', 'nothing', 'bad pattern', 'bad start', 'bad end', 'unknown option'):
        for inm in (False, True):
            ck.guard('converter ' + what, lambda: wrong(ck, what, inm))


def words(run):
    return ' '.join(f if v is None else f'{f} {v.o}' for f, v in run.I.cmd[0])


def unreadable(ck, inm, a, o, pr):
    """the file disappears, or may not be read, after it was seen"""
    fresh()
    run = Run(files=file_cfg('a' + a, count('nrec', 1, 8)), assume=T.bpred('isfile', K(c07.INP)))
    run.I.cmd = c07.cmdline(inm, a, o, '', (), pr, not pr)
    run.I.unreadable = (K(c07.INP),)
    q = PT + 'main'
    fails(ck, f'converter: {words(run)}: unreadable source', run, run.call(q, []), q)


def wrong(ck, what, inm):
    fresh()
    there = T.bpred('isfile', K(c07.INP))
    run = Run(files=file_cfg('a1', count('nrec', 1, 8)), assume=T.bnot(there) if what == 'not a file' else there)
    run.I.summaries = c07.summaries(run, count('nb', 0, 4))
    opts, pos = c07.cmdline(inm, '1', None, '', ())
    opts = list(opts)
    i = [k for k, (f, _) in enumerate(opts) if f == '-A'][0]
    if what == 'no destination':
        pos = pos[:1]
    elif what == 'bad input format':
        opts[i] = ('-A', K('3'))
    elif what == 'no input format':
        del opts[i]
    elif what == 'nothing':
        opts, pos = (), ()
    elif what != 'not a file':
        opts.append({'bad output format': ('-a', K('3')), 'bad pattern': ('--pfilter-pattern', K('x')), 'bad start': ('--tfilter-start', K('x')), 'bad end': ('--tfilter-end', K('x')),
                     'unknown option': ('--no-such-option', None)}[what])
    run.I.cmd = opts, pos
    q = PT + 'main'
    fails(ck, f'converter: {what}{" in memory" if inm else ""}', run, run.call(q, []), q)


# ------------------------------------------------------------------ the generator
def generator(ck):
    for x in ((), (('-x', None),)):
        def go():
            fresh()
            run = Run(files=file_cfg('a1', count('nrec', 0, 5)))
            run.load(GEN)
            run.I.cmd = x, (K('F'),)
            run.I.unreadable = (K('F'),)
            fails(ck, 'generator: no event file' + (' legacy' if x else ''), run, run.call(c35.Q, []), c35.Q)
        ck.guard('generator file', go)
    for opts in ((), (('-t', K('x')),), (('--no-such-option', None),)):
        def go2():
            run, o = c35.start(lambda: opts)
            fails(ck, f'generator: {M.words(opts)}', run, o, c35.Q)
        ck.guard('generator refused', go2)


# ------------------------------------------------------------------ the corrector
def corrector(ck):
    E = (None, 0)
    R = lambda: [Round(E), Round(E)]
    S = (('i', 'in'), ('o', 'out'), ('F', 'freq'))
    for leg in ((), (('x', None),)):
        for who in ('in', 'out', 'freq'):
            mine = tuple(s for s in S if s[1] == who)
            for opts in (mine, S):
                for more in ((), (('d', None),), (('f', 'f'),)):
                    ck.guard(f'corrector {who}', lambda: stopped(ck, f'cannot open {who}', opts + more + leg, R(), dict(noopen=(who,))))
    for k in range(3):
        for opts in ((), S[2:], S):
            ck.guard('corrector memory', lambda: stopped(ck, f'allocation {k + 1} fails', opts, R(), dict(nomem=(k,)), k))
    for opts in ((('f', 'f'),), (('f', 'f'), ('d', None))) + tuple((('f', 'f'), s) for s in S):
        ck.guard('corrector -f', lambda: stopped(ck, '-f is no number', opts, R(), {}, None, 'f'))
    for opts in ((('?', None),), S + (('?', None),), (('x', None), ('?', None))):
        ck.guard('corrector option', lambda: stopped(ck, 'unknown option', opts, R(), {}))


def stopped(ck, tag, opts, rs, kw, alloc=None, text=None):
    tag = f'corrector: {tag}: ' + ' '.join('-' + a + (' ' + b if b else '') for a, b in opts)
    numbers = {'f': (lambda: (T.ZERO,)) if text else (lambda: T.ONE)}
    run, o = FQ.follow(ck, tag, CEnv(opts, rs, 'eof', legacy=('x', None) in opts, numbers=numbers, **kw))
    if alloc is not None:
        # fewer allocations than that may be made
        fr = FQ.state(o)
        n = fr.get('#mallocs')
        if n is not None and n.p.const() is not None and n.p.const() <= alloc:
            return
    ck.iff(f'{tag}: does not end as a success', FQ.when(o, lambda s, e, u, w: T.eq(s, T.ZERO)), 0, FQ.Q)
    ck.iff(f'{tag}: ends', FQ.when(o, lambda *x: 1), 1, FQ.Q)
    ck.iff(f'{tag}: a message on the error stream', FQ.when(o, lambda s, e, u, w: T.bnot(FQ.some(e))), 0, FQ.Q)
    ck.iff(f'{tag}: nothing is written', FQ.when(o, lambda s, e, u, w: T.bor(FQ.some(w), FQ.some(u))), 0, FQ.Q)
