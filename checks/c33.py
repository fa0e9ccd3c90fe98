"""Inputs are never modified: what every analysed operation opens, and what its arguments contain afterwards."""
import importlib
from .common import *
from . import freqcd as FQ
from . import search as S
from sa import harness as H

SOURCES = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c14', 'c15', 'c16', 'c17', 'c18', 'c19', 'c20', 'c21', 'c22', 'c23', 'c24', 'c35', 'c39', 'c40']
WRITERS = {n: ('OUT',) for n in [f'fpfind.lib.parse_timestamps.{p}write_{a}' for p in ('', 's') for a in ('a0', 'a1', 'a2')]}
WRITERS['fpfind.lib.parse_timestamps.main'] = ('OUT',)
WRITERS['fpfind.lib.generate_freqcd_testcase.main'] = ('OUT',)
GONE = ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.truncate', 'os.rmdir', 'shutil.move', 'shutil.rmtree', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2',
        'np.save', 'np.savez', 'np.savez_compressed', 'np.savetxt')


class Drive(Check):
    """runs the drivers of another check for their calls only"""
    def same(self, *a, **k):
        return 'ok'

    iff = pointwise = same

    def ok(self, *a, **k):
        pass

    add = ok


def run(ck):
    ck.rule('every file opened by an analysed operation is opened for reading, except the destination a writer was given; the contents of every array or list passed in are, at return, what they were at the call')
    seen = {}
    for m in SOURCES:
        H.HOOK = lambda *a: call(ck, m, seen, *a)
        try:
            importlib.import_module('checks.' + m).run(d := Drive(m.upper()))
        except Missing:
            raise
        except Exception as e:
            ck.add(f'{m}: calls', 'unk', m, repr(e)[:200])
        finally:
            H.HOOK = None
        ck.functions |= d.functions
        ck.nodes += d.nodes
    H.HOOK = lambda *a: call(ck, 'direct', seen, *a)
    try:
        direct(ck)
    finally:
        H.HOOK = None
    corrector(ck)
    return {}


def direct(ck):
    """the operations no other check calls by themselves, on arbitrary arrays"""
    U = 'fpfind.lib.utils.'
    A = lambda x, **k: in_array(x, count('n' + x, 1, 3), 'f8', isint=False, **k)
    p = lambda x: N(real(x), 'float')
    n = lambda x, lo=1: N(sym(x, lo), 'int')
    t = lambda x: in_array(x, count('n' + x, 1, 3), 'f16', isint=False, lo=0)
    for tag, q, args, kw in (
            ('fft', 'generate_fft', lambda: [t('a'), n('bins'), p('r')], {}),
            ('correlation', 'get_xcorr', lambda: [A('a'), A('b')], {}),
            ('filtered correlation', 'get_xcorr', lambda: [A('a'), A('b'), A('c')], {}),
            ('overlap', 'get_overlap', lambda: [A('a'), A('b')], {}),
            ('statistics', 'get_statistics', lambda: [A('a')], {}),
            ('statistics around the maximum', 'get_statistics', lambda: [A('a'), p('r')], {}),
            ('statistics around a time', 'get_statistics', lambda: [A('a'), p('r'), p('center'), p('window')], {}),
            ('histogram', 'histogram_fft', lambda: [t('a'), t('b'), n('bins'), n('r'), n('wraps')], {}),
            ('filtered histogram', 'histogram_fft', lambda: [t('a'), t('b'), n('bins'), n('r'), n('wraps'), n('start', 0), p('f'), A('c')], {}),
            ('histogram with statistics', 'histogram_fft', lambda: [t('a'), t('b'), n('bins'), n('r'), n('wraps')], {'statistics': K(True)})):
        def go(q=q, args=args, kw=kw):
            fresh()
            r = Run()
            r.load('fpfind.lib.utils')
            r.call(U + q, args(), kw)
        ck.guard(tag, go)


def call(ck, m, seen, run, name, args, kw, before, o):
    seen[name] = seen.get(name, 0) + 1
    ck.seen(run)
    tag = f'{m} {name.split(".", 2)[-1]} #{seen[name]}'
    ck.guard(tag, lambda: files(ck, tag, name, run, o))
    for k, ref, was in before or ():
        ck.guard(f'{tag}: argument {k}', lambda: argument(ck, f'{tag}: argument {k}', name, run, o, ref, was, valuations(name, args)))


def destination(name, path, args):
    if name.endswith('.write_T1'):
        return isinstance(path, Opq) and path.name == 'pathjoin' and path.args[0] == K('DIR')
    return path in [K(d) for d in WRITERS.get(name, ())]


def files(ck, tag, name, run, o):
    bad, vague = [], []
    for e in o.effects:
        if e.kind == 'open' and any(c in str(e.data[1]) for c in 'wax+') and not destination(name, e.data[0], ()):
            (vague if hazy(e.data[0]) else bad).append(e)
        elif e.kind in ('unlink', 'pathop') or e.kind == 'opaque' and e.data[0] in GONE:
            (vague if e.kind != 'opaque' and temporary(e.data[0]) else bad).append(e)
    where = name
    if bad:
        where = f'{bad[0].func} line {bad[0].line} (called from {name})'
    ck.iff(f'{tag}: writes to no file but its destination', T.bor(*[e.pc for e in bad]) if bad else 0, 0, where)
    if vague:
        ck.add(f'{tag}: destinations known', 'unk', name, str([(str(e.data)[:80], e.line) for e in vague]))


def temporary(p):
    return not (isinstance(p, K) and p.o in ('F', 'IN'))


def hazy(v):
    return 'Unk' in repr(v)


def valuations(name, args):
    if name == S.FP + 'time_freq':
        return S.cmp((None,) * 5 + (args[7].p.const(),))
    return None


def argument(ck, tag, name, run, o, ref, was, cmp):
    if o.st is None:
        return
    I = run.I
    now = I.freeze(ref, o.st)
    through = [(v, line) for v, up, pc, line, _ in I.vwrites if up == ref.id and v in I.views]
    if through:
        for v, line in through:
            made, cur = I.views[v][1], o.st.heap.get(v)
            if cur is None or isinstance(cur, Unk):
                ck.add(f'{tag}: unchanged', 'bad' if cur is not None and cur.why.startswith('contents after') else 'unk', f'{name} line {line}', 'a view of it is written to')
            else:
                ck.same(f'{tag}: unchanged (a view of it is written at line {line})', cur, made, f'{name} line {line}', pre=o.pc, cmp=cmp)
        return
    if isinstance(now, Unk):
        ck.add(f'{tag}: unchanged', 'bad' if now.why.startswith('contents after') else 'unk', name, now.why)
        return
    ck.same(f'{tag}: unchanged', now, was, name, pre=o.pc, cmp=cmp)


# ------------------------------------------------------------------ the corrector
def corrector(ck):
    E = (None, 0)
    for tag, opts, rs in (('in, out and freq', (('i', 'in'), ('o', 'out'), ('F', 'freq')), [FQ.Round(E, ('a', 10)), FQ.Round(E, 'eof'), FQ.Round(E)]),
                          ('in, out', (('i', 'in'), ('o', 'out')), [FQ.Round(E), FQ.Round(E)]), ('freq', (('F', 'freq'),), [FQ.Round(E, ('a', 10)), FQ.Round(E)]),
                          ('in', (('i', 'in'),), [FQ.Round(E), FQ.Round(E)]), ('neither', (), [FQ.Round(E)]),
                          ('legacy', (('i', 'in'), ('o', 'out'), ('x', None)), [FQ.Round(E)])):
        ck.guard('freqcd ' + tag, lambda: opened(ck, 'freqcd ' + tag, opts, rs))


def opened(ck, tag, opts, rs):
    run, o = FQ.follow(ck, tag, FQ.CEnv(opts, rs, 'eof', legacy=('x', None) in opts, numbers={('a',): lambda: T.ZERO}))
    ck.seen(run)
    st = FQ.state(o)
    n = 0
    for x in st['#fds'].items:
        who, flags = x.items[0].o if hasattr(x.items[0], 'o') else x.items[0], x.items[1].p.const()
        if who == 'out':
            continue
        n += 1
        if flags is None:
            ck.add(f'{tag}: {who} is opened for reading', 'unk', FQ.Q, 'flags not constant')
        else:
            ck.ok(int(flags) & 0o1003 == 0, f'{tag}: {who} is opened for reading', FQ.Q, f'open flags {int(flags):#o}')
    dest = 'out' if ('o', 'out') in opts else 'stdout'
    w = [x for p, s, e, u, w in FQ.ended(o) for x in getattr(w.s, 'items', ())]
    ck.ok(all(x.o == dest for x in w), f'{tag}: events go to {dest} only', FQ.Q, str(w)[:200])
