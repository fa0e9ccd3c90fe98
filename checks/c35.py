from .common import *

GEN = 'fpfind.lib.generate_freqcd_testcase'
Q = GEN + '.main'
M54 = num(1 << 54)
SPEC = '''
def show(ts):
    for t in ts:
        print(t)
'''


def run(ck):
    ck.rule('bytes written / text printed by every mode of the generator, for arbitrary lists of timestamps and arbitrary event files, equal the documented encoding')
    ck.guard('get_event', lambda: event(ck))
    for leg in (False, True):
        w = ' legacy' if leg else ''
        for dest in ('file', 'stdout'):
            for rng in (' below 2^54', ' from 2^54') if leg else ('',):
                ck.guard(f'list to {dest}{w}{rng}', lambda a=(leg, dest, rng): listed(ck, *a))
            for rng in (' below 2^54', ' from 2^54') if leg or dest == 'stdout' else ('',):
                ck.guard(f'prompted to {dest}{w}{rng}', lambda a=(leg, dest, rng): prompted(ck, *a))
        ck.guard(f'event file{w}', lambda l=leg: shown(ck, l))
        ck.guard(f'event file, -o{w}', lambda l=leg: shown(ck, l, True))
    ck.guard('no argument', lambda: nothing(ck))
    return {}


def start(opts, pos=(), inputs=None):
    fresh()
    run = Run()
    run.load(GEN)
    run.I.cmd = (tuple(opts()), tuple(pos))
    if inputs is not None:
        run.I.inputs = inputs()
        run.I.step_loops = len(run.I.inputs) + 3
    o = run.call(Q, [])
    return run, o


def bits(t, det, leg):
    e = T.mod(t, M54) * 1024 + det
    if leg:
        h = T.floor(e * Fraction(1, 1 << 32))
        e = (e - h * (1 << 32)) * (1 << 32) + h
    return Bytes(8, e)


RANGES = {'': (0, None), ' below 2^54': (0, (1 << 54) - 1), ' from 2^54': (1 << 54, None)}


def ts(rng):
    return ListV(smap(count('n', 1, 4), 1, 1, N(stamp(idx(1), rng), 'int')))


def stamp(i, rng):
    lo, hi = RANGES[rng]
    if hi is None:
        T.HINT['in:t' + rng] = 1 << 60      # where samples are taken; no bound
    return T.fn('in:t' + rng, i, isint=True, lo=lo, hi=hi)



def cmp():
    return Cmp()


def event(ck):
    fresh()
    run = Run()
    T.HINT['in:timestamp'] = 1 << 60
    t, d = T.sym('in:timestamp', True, 0), T.sym('d', True, 0, 15)
    o = run.call(GEN + '.get_event', [N(t, 'int'), N(d, 'int')])
    ck.seen(run)
    ck.iff('get_event: accepts every timestamp and detector', B(o.rp).b, 0, GEN + '.get_event')
    ck.same('get_event: encoding', ListV(C.bytes_of(o.ret)), ListV(C.bytes_of(bits(t, d, False))), GEN + '.get_event')
    o = run.call(GEN + '.get_event', [N(t, 'int')])
    ck.same('get_event: default detector', ListV(C.bytes_of(o.ret)), ListV(C.bytes_of(bits(t, 1, False))), GEN + '.get_event')


def written(ck, tag, run, o, dest, want):
    ck.seen(run)
    ck.iff(tag + ': no failure', B(o.rp).b, 0, Q)
    want = ListV(C.norm_out(want, True))
    if dest == 'file':
        mine = [e for e in o.effects if e.kind == 'open' and e.data[0] == K('OUT')]
        ck.ok(mine and mine[0].data[1][0] == 'w' and mine[0].pc == run.I.assume, tag + ': an existing destination is replaced', Q, f'opened with {[e.data[1] for e in mine]}')
        others(ck, tag, o, ('OUT',))
        f = o.files.get(K('OUT'))
        if f is None:
            ck.add(tag + ': events', 'unk' if mine or o.st is None else 'bad', Q, 'the destination is not written')
        else:
            ck.same(tag + ': events', ListV(f[1]), want, Q, cmp=cmp())
        ck.same(tag + ': nothing on standard output', ListV(o.stdout), ListV(EMPTY), Q)
    else:
        others(ck, tag, o, ())
        ck.same(tag + ': events', ListV(C.norm_out(o.stdout, True)), want, Q, cmp=cmp())


def others(ck, tag, o, dests):
    bad = [e for e in o.effects if e.kind == 'open' and any(c in str(e.data[1]) for c in 'wax+') and e.data[0] not in [K(d) for d in dests] and e.pc != 0]
    ck.ok(not bad, tag + ': no other file is written', Q, [(str(e.data), e.line) for e in bad])


def listed(ck, leg, dest, rng):
    tag = f'list of timestamps{rng} to {dest}' + (' legacy' if leg else '')
    run, o = start(lambda: (('-t', ts(rng)),) + ((('-o', K('OUT')),) if dest == 'file' else ()) + ((('-x', None),) if leg else ()))
    written(ck, tag, run, o, dest, smap(count('n', 1, 4), 1, 1, bits(stamp(idx(1), rng), 1, leg)))


def prompted(ck, leg, dest, rng):
    tag = f'prompted timestamps{rng} to {dest}' + (' legacy' if leg else '')
    x = lambda i: T.sym(f'x{i}{rng}', True, *RANGES[rng])
    run, o = start(lambda: ((('-o', K('OUT')),) if dest == 'file' else ()) + ((('-x', None),) if leg or dest != 'file' else ()), (), lambda: [N(x(0), 'int'), K('no number'), N(x(1), 'int'), N(x(2), 'int')])
    leg = leg or dest != 'file'
    written(ck, tag, run, o, dest, Lit(tuple(bits(x(i), 1, leg) for i in range(3))))


def shown(ck, leg, out=False):
    tag = 'timestamps of an event file' + (' legacy' if leg else '') + (', -o' if out else '')
    fresh()
    run = Run(files=file_cfg('a1', count('nrec', 0, 5)))
    run.load(GEN)
    run.I.cmd = (((('-x', None),) if leg else ()) + ((('-o', K('OUT')),) if out else ()), (K('F'),))
    o = run.call(Q, [])
    ck.seen(run)
    ck.iff(tag + ': no failure', B(o.rp).b, 0, Q)
    w = run.spec(SPEC, 'show', [run.alloc(ListV(smap(count('nrec', 0, 5), 1, 1, N(raw_t(word('a1', idx(1), leg, F())), 'int'))))])
    ck.same(tag + ': printed', ListV(C.norm_out(o.stdout, False)), ListV(C.norm_out(w.stdout, False)), Q)
    others(ck, tag, o, ('OUT',) if out else ())
    gone = [e for e in o.effects if e.kind in ('unlink', 'pathop')]
    ck.iff(tag + ': left in place', T.bor(*[e.pc for e in gone]) if gone else 0, 0, Q)


def nothing(ck):
    run, o = start(lambda: ())
    ck.seen(run)
    ck.iff('no argument: an error', B(o.rp).b, run.I.assume, Q)
    ck.same('no argument: nothing on standard output', ListV(o.stdout), ListV(EMPTY), Q)
    others(ck, 'no argument', o, ())
