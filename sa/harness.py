"""Obligations, reports and evidence."""
import json
import os
import signal
import sys
import time
import traceback
from . import terms as T
from .terms import num
from . import values as VV
from .values import *
from . import pyeval as P
from .pyeval import Interp, Ctx, Dead, Abort, ExcV
from . import pylib
from . import compare as C

ROOT = os.environ.get('FPFIND_ROOT', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Missing(Exception):
    pass


class Timeout(Exception):
    pass


def fresh():
    """drop all hash-consed state (between independent analyses)"""
    T.reset()
    VV.reset()


HOOK = None     # called with every analysed call: (run, name, arguments, keywords, argument contents before, outcome)


def clean(e):
    return isinstance(e, ExcV) and e.cls == 'SystemExit' and len(e.args) == 1 and \
        (e.args[0] == K(None) or e.args[0] == K(0) or isinstance(e.args[0], N) and e.args[0].p.const() == 0)


class Outcome:
    def __init__(self, I, st, ctx, ret, name):
        self.I, self.name = I, name
        self.pc = st.pc if st is not None else 0
        self.st = st
        self.raises = [(r[0].pc, r[1].cls if isinstance(r[1], ExcV) else '?', r[2], r[3]) for r in ctx.raises]
        self.excs = [(r[0].pc, r[1]) for r in ctx.raises]
        self.raise_states = [(r[0].pc, r[1], r[0]) for r in ctx.raises]
        # a clean exit of the process is no failure
        self.rp = T.bor(*[r[0] for r, e in zip(self.raises, self.excs) if not clean(e[1])]) if self.raises else 0
        self.ret = None
        self.files = {}
        self.stdout = EMPTY
        if st is not None:
            self.ret = I.freeze(ret, st)
            for k, v in st.heap.items():
                if k == 'stdout':
                    self.stdout = v.out
                elif isinstance(v, FileV) and v.mode and any(c in v.mode for c in 'wax+'):
                    p = P.filekey(v.path)
                    b = 'b' in v.mode
                    o = C.norm_out(v.out, b)
                    if p in self.files:
                        o = scat([self.files[p][1], o])
                    self.files[p] = (v.mode, o)


class Run:
    """one interpreter instance over the current source"""

    def __init__(self, files=None, opaque=(), may_raise=None, summaries=None, assume=1):
        self.I = Interp(ROOT, opaque=opaque, may_raise=may_raise, summaries=summaries, files=files)
        self.I.assume = assume
        self.specs = {}

    def load(self, *mods):
        for m in mods:
            if self.I.module(m) is None:
                raise Missing(f'module {m} not found')
        return self

    def func(self, qual):
        f = self.I.func(qual)
        if f is None or not isinstance(f, P.V) or type(f).__name__ not in ('FuncV', 'ClassV', 'PartialV'):
            raise Missing(f'public function {qual} not found')
        return f

    def alloc(self, v):
        return self.I.alloc(self.I.st0, v)

    def attr(self, mod, name):
        fid = self.I.module(mod)
        if fid is None:
            raise Missing(f'module {mod} not found')
        v = self.I.attr_of_module(fid, name, self.I.st0)
        if v is None:
            raise Missing(f'{mod}.{name} not found')
        return v

    def enum(self, mod, cls, member):
        c = self.attr(mod, cls)
        v = pylib.class_member(self.I, c.uid, member)
        if v is None:
            raise Missing(f'{mod}.{cls}.{member} not found')
        return P.EnumV(self.I.classes[c.uid].name, member, v)

    def invoke(self, f, args, kw=None, name=None):
        I = self.I
        I.effects.clear()
        I.notes.clear()
        st0 = I.st0
        fr = ('top',)
        st0.frames.setdefault(fr, {})
        ctx = Ctx(fr, 'top', 'top')
        ctx.chain = ()
        ctx.fnode = None
        s = st0.fork(I.assume)
        if HOOK and name is not None and not name.startswith('spec:'):
            # arguments become objects of their own, which the caller can look at afterwards
            args = [I.alloc(s, x) if isinstance(x, (P.ArrV, P.ListV)) else x for x in args]
            kw = {k: I.alloc(s, x) if isinstance(x, (P.ArrV, P.ListV)) else x for k, x in (kw or {}).items()}
        before = [(k, x, I.freeze(x, s)) for k, x in [*enumerate(args), *(kw or {}).items()] if isinstance(x, P.Ref)] if HOOK else None
        I.vwrites.clear()
        ret = None
        try:
            ret = I.call(f, list(args), dict(kw or {}), s, ctx, None)
        except Dead:
            s = None
        o = Outcome(I, s, ctx, ret, name or getattr(f, 'name', '?'))
        o.effects = list(I.effects)
        o.notes = list(I.notes)
        if HOOK and not o.name.startswith('spec:'):
            HOOK(self, o.name, args, kw, before, o)
        return o

    def call(self, qual, args, kw=None):
        return self.invoke(self.func(qual), args, kw, qual)

    def spec(self, src, fname, args, kw=None, mayraise=False):
        import textwrap
        key = src
        if key not in self.specs:
            n = f'<spec{len(self.specs)}>'
            self.I.load_source(n, textwrap.dedent(src), n)
            self.specs[key] = n
        fid = self.I.modules[self.specs[key]]
        f = self.I.st0.frames[fid][fname]
        save = (set(self.I.visited), self.I.nodes_seen, self.I.opaque, self.I.summaries, self.I.may_raise)
        o = self.invoke(f, args, kw, 'spec:' + fname)
        self.I.visited, self.I.nodes_seen = save[0], save[1]
        if o.rp != 0 and not mayraise:
            raise RuntimeError(f'contract term raises: {o.raises[:2]}')
        return o


def levels():
    ns = {}
    with open(os.path.join(VERIF, 'tools', 'techniques.py')) as f:
        exec(f.read(), ns)
    return ns['LEVEL']


class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []          # dicts
        self.functions = set()
        self.nodes = 0
        self.rules = []
        self.missing = []
        self.assumptions = []

    # ---- recording
    def add(self, name, status, where='', detail=None):
        self.obs.append({'name': name, 'status': status, 'where': where, 'detail': detail})
        if os.environ.get('SA_VERBOSE'):
            print(f'  [{status}] {name} {where} {detail if status != "ok" else ""}', flush=True)

    def ok(self, cond, name, where='', detail=None, bad='bad'):
        self.add(name, 'ok' if cond else bad, where, detail)

    def seen(self, run):
        self.functions |= {q for q in run.I.visited if not q.startswith('<spec')}
        self.nodes += run.I.nodes_seen

    def rule(self, text):
        self.rules.append(text)

    def same(self, name, got, want, where='', cmp=None, pre=1):
        """got == want as values"""
        cmp = cmp or C.Cmp()
        cmp.seed = self.seed
        if got is None or want is None:
            self.add(name, 'unk', where, 'no value (the path always raises)')
            return
        r, d = cmp.decide(got, want, pre)
        self.add(name, r, where, d)
        if r != 'ok' and os.environ.get('SA_DIFF'):
            from .diff import diff
            for x in diff(cmp.norm(got), cmp.norm(want)):
                print('  DIFF', x)
        return r

    def pointwise(self, name, got, n, want, where='', cases=(1,), cmp=None, pre=1, at=None):
        """got is a sequence of n elements, the i-th of which is want(i) (in each of the cases, functions of i)"""
        s = getattr(got, 's', None)
        if s is None:
            self.add(name, 'unk', where, 'not a sequence')
            return
        self.same(name + ': length', N(VV.slen(VV.derange(s)), 'int'), N(n, 'int'), where, cmp, pre)
        i = T.sym('at', True, 0)
        T.HINT['at'] = 9
        for lbl, j in at(i) if at else ():
            self.same(f'{name}: {lbl}', VV.at_pos(s, j), want(j), where, cmp, T.band(pre, T.lt(j, n)))
        for k, c in enumerate(() if at else cases):
            c = c(i) if callable(c) else c
            p = T.band(pre, T.lt(i, n), c)
            self.same(f'{name}: element' + (f' (case {k + 1})' if len(cases) > 1 else ''), VV.at_pos(s, i), want(i), where, cmp, p)

    def iff(self, name, got, want, where='', cmp=None, pre=1):
        cmp = cmp or C.Cmp()
        cmp.seed = self.seed
        r, d = cmp.decide_bool(got, want, pre)
        self.add(name, r, where, d)
        if r != 'ok' and os.environ.get('SA_DIFF'):
            from .diff import diff
            for x in diff(B(got), B(want)):
                print('  DIFF', x)
        return r

    def guard(self, name, fn):
        """run one obligation group; analysis failures leave it undecided"""
        def onalarm(*a):
            raise Timeout()
        spent = time.time() - self.t0
        if spent > (420 if self.tier == 'quick' else 780) or (spent > 150 and any(o['status'] == 'bad' for o in self.obs)):
            self.add(name, 'unk', '', 'not analysed: the time budget of the check is spent')
            return
        limit = int(os.environ.get('SA_OBLIGATION_S', '90' if self.tier == 'quick' else '400'))
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(limit)
        try:
            fn()
        except Missing as e:
            self.missing.append(str(e))
        except Timeout:
            self.add(name, 'unk', '', f'analysis exceeded {limit}s')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if os.environ.get('SA_VERBOSE'):
                traceback.print_exc()
            self.add(name, 'unk', '', f'analysis gave up: {type(e).__name__}: {str(e)[:200]} at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}')
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    # ---- report
    def finish(self, level=None, trusted=(), explanation=None):
        level = level or levels().get(self.pid, 'proof')
        bad = [o for o in self.obs if o['status'] == 'bad']
        unk = [o for o in self.obs if o['status'] == 'unk']
        okc = [o for o in self.obs if o['status'] == 'ok']
        known = load_known(self.pid)
        kn, new = [], []
        for o in bad:
            k = next((x for x in known if x == o['name']), None)
            (kn if k else new).append(o)
        wall = round(time.time() - self.t0, 3)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': {
                'obligations': len(self.obs), 'discharged': len(okc), 'undecided': len(unk), 'violated': len(bad),
                'functions_analysed': sorted(self.functions), 'ast_nodes_evaluated': self.nodes,
                'rule': '; '.join(self.rules) or 'value-graph congruence against the stated contract',
                'checker_cmd': f'python3-vt /verif/check.py {self.pid} --tier {self.tier}',
                'trusted_base': list(trusted) or TRUSTED,
                'samples': [{'obligation': o['name'], 'status': o['status'], 'where': o['where']} for o in self.obs[:60]],
                'undecided_obligations': [{'obligation': o['name'], 'why': str(o['detail'])[:300]} for o in unk[:40]],
            },
            'assumptions': self.assumptions,
            'wall_s': wall, 'violations': len(new),
        }
        ev['coverage']['explanation'] = explanation or (
            'Abstract interpretation of the current source into hash-consed value graphs; an obligation is discharged when the '
            'graph is congruent to the contract, violated when a definite counterexample valuation of the input terms exists, '
            'and otherwise reported undecided (quiet).')
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for o in self.obs:
            tag = {'ok': 'discharged', 'bad': 'VIOLATED', 'unk': 'undecided'}[o['status']]
            print(f'{tag:10} {o["name"]}' + (f'  [{o["where"]}]' if o['where'] else ''))
            if o['status'] != 'ok':
                print('           ' + str(o['detail'])[:900])
        print(f'{self.pid}: {len(okc)} discharged, {len(unk)} undecided, {len(bad)} violated of {len(self.obs)} obligations; '
              f'{len(self.functions)} functions; {wall}s')
        for o in kn:
            print(f'KNOWN-FINDING: property={self.pid} {o["name"]}')
        if self.missing:
            for m in self.missing:
                print('ANALYSIS ERROR: ' + m)
        if new:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.json')
            with open(rp, 'w') as f:
                json.dump(new, f, indent=1, default=str)
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        if self.missing:
            return 2
        if not okc:
            print('ANALYSIS ERROR: no obligation was decided')
            return 2
        return 0


TRUSTED = ['CPython ast parser', 'abstract models of Python built-ins, numpy 1.26 dtype rules, struct and argparse in /verif/sa',
           'term normaliser /verif/sa/terms.py']


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=' + pid + ' '):
                out.append(line.split(' ', 2)[2].split(' :: ')[0])
    return out
