"""Author and try one planted bug: seed.py spec.py  (spec defines id, prop, needs, breaks, edits=[(file, old, new)], demo)"""
import json, os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main(spec):
    g = runpy.run_path(spec)
    for s in g['SEEDS']:
        d = f'{V}/seeded/{s["id"]}'
        if os.path.exists(d + '/meta.json') and '-f' not in sys.argv:
            continue
        os.makedirs(d, exist_ok=True)
        assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty'
        try:
            for f, old, new in s['edits']:
                p = '/repo/' + f
                t = open(p).read()
                assert t.count(old) == s.get('count', 1), (s['id'], f, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            open(d + '/demo.sh', 'w').write(s['demo'])
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            b = sh('bash /opt/vp/build.sh')
            t = sh('bash /opt/vp/test.sh /tmp/seedout.json')
            r1 = sh(f'bash {d}/demo.sh', cwd='/repo')
            c = sh(f'python3-vt check.py {s["prop"]}', cwd=V)
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            res = json.load(open('/tmp/seedout.json'))
            passed = res.get('passed', res)
            passed = set(passed) if isinstance(passed, list) else {k for k, v in passed.items() if v in (True, 'passed', 'pass')}
            nf = sorted(base - passed)
        finally:
            sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
        r0 = sh(f'bash {d}/demo.sh', cwd='/repo')
        print(s['id'], s['prop'], 'build', b.returncode, 'tests lost', len(nf), 'demo patched', r1.returncode, 'clean', r0.returncode, 'check', c.returncode)
        if r0.returncode:
            print('   clean demo:', (r0.stdout + r0.stderr)[-400:])
        if c.returncode != 1:
            print('\n'.join(l for l in c.stdout.splitlines() if not l.startswith('discharged'))[:1500])
        else:
            print('   caught by', [l for l in c.stdout.splitlines() if l.startswith('VIOLATED')][0][:150])


main(sys.argv[1])
