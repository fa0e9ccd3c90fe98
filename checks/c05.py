from .common import *

SPEC = '''
def exact(p, m):
    return [x == m for x in p], [x for x in p if x == m]
def exact_inv(p, m):
    return [x != m for x in p], [x for x in p if x != m]
def bits(p, m):
    return [(x & m) != 0 for x in p], [x & m for x in p if (x & m) != 0]
def bits_inv(p, m):
    return ([x == 0 or (x - (x & m)) != 0 for x in p],
            [x - (x & m) for x in p if x == 0 or (x - (x & m)) != 0])
'''
MODES = (('exact', False, False), ('exact_inv', False, True), ('bits', True, False), ('bits_inv', True, True))


def run(ck):
    ck.rule('value graph of selection mask and reduced patterns equals the mode table, element by element')
    for name, mask, inv in MODES:
        for dt in ('u4', 'u8'):
            for m in (None,) + tuple(range(16)):
                ck.guard(f'{name} pattern={m} type={dt}', lambda a=(name, mask, inv, dt, m): one(ck, *a))
        ck.guard(f'{name} empty', lambda a=(name, mask, inv, 'u4', 5, 0): one(ck, *a))
    ck.guard('defaults', lambda: defaults(ck))
    return {}


def one(ck, name, mask, inv, dt, m, n=None):
    fresh()
    run = Run()
    n = count('n', 0, 40) if n is None else num(n)
    p = in_array('p', n, dt, True, 0, 15)
    pl = ListV(in_array('p', n, 'int', True, 0, 15).s)
    mv = I_(sym('m', 0, 15)) if m is None else I_(num(m))
    q = PT + 'get_pattern_mask'
    o = run.call(q, [p, mv], {'mask': K(mask), 'invert': K(inv)})
    w = run.spec(SPEC, name, [run.alloc(pl), mv])
    ck.seen(run)
    tag = f'{name} pattern={"symbolic" if m is None else m} type={dt}' + (' empty' if n.const() == 0 else '')
    ck.iff(tag + ': no error', B(o.rp).b, 0, q)
    ck.same(tag + ': selection', item(o.ret, 0), item(w.ret, 0), q)
    ck.same(tag + ': patterns of the selected events', item(o.ret, 1), item(w.ret, 1), q)


def defaults(ck):
    fresh()
    run = Run()
    p = in_array('p', count('n', 0, 40), 'u4', True, 0, 15)
    q = PT + 'get_pattern_mask'
    o = run.call(q, [p, I_(num(5))])
    w = run.call(q, [p, I_(num(5)), K(False), K(False)])
    ck.seen(run)
    ck.same('default is exact, not inverted', o.ret, w.ret, q)
