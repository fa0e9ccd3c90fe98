"""debugging aid: smallest differing subterms of two values"""
from . import terms as T
from .values import *
from .terms import BArg, Num


def diff(a, b, path='', out=None, depth=0):
    out = [] if out is None else out
    if len(out) > 12 or depth > 60 or a is b or a == b:
        return out
    if isinstance(a, B) and isinstance(b, B):
        a, b = BArg(a.b), BArg(b.b)
    if isinstance(a, BArg) and isinstance(b, BArg):
        pa, pb = T.BDD.support(a.b), T.BDD.support(b.b)
        oa = [T.BDD.preds[v] for v in sorted(pa - pb)]
        ob = [T.BDD.preds[v] for v in sorted(pb - pa)]
        if not oa and not ob:
            out.append((path + '/bool', 'same predicates', T.showb(a.b)[:1500], T.showb(b.b)[:1500]))
            return out
        if len(oa) == len(ob):
            for x, y in zip(oa, ob):
                if x[0] == y[0] and len(x) == len(y) and (x[0] != 'pred' or x[1] == y[1]):
                    diff(tuple(x[1:]), tuple(y[1:]), path + '/' + str(x[0]), out, depth + 1)
                else:
                    out.append((path + '/pred', T.show_pred(x)[:800], T.show_pred(y)[:800]))
            return out
        out.append((path + '/preds', [T.show_pred(x)[:700] for x in oa], [T.show_pred(y)[:700] for y in ob]))
        return out
    if isinstance(a, Num) and isinstance(b, Num):
        da = {m: c for m, c in a.d.items() if b.d.get(m) != c}
        db = {m: c for m, c in b.d.items() if a.d.get(m) != c}
        if len(da) == len(db) == 1:
            (m, c), (m2, c2) = list(da.items())[0], list(db.items())[0]
            if c == c2 and len(m) == len(m2) == 1 and m[0][1] == m2[0][1]:
                x, y = T.ATOMS[m[0][0]], T.ATOMS[m2[0][0]]
                if x.kind == y.kind and len(x.args) == len(y.args) and x.kind in ('bit', 'floor', 'fn', 'inv', 'pow2'):
                    if x.kind == 'bit':
                        return diff(BArg(x.args[0]), BArg(y.args[0]), path + '/bit', out, depth + 1)
                    return diff(x.args, y.args, path + '/' + (x.args[0] if x.kind == 'fn' else x.kind), out, depth + 1)
        out.append((path + '/num', T.show(Num(da))[:900], T.show(Num(db))[:900]))
        return out
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            out.append((path + '/len', len(a), len(b), str(a)[:600], str(b)[:600]))
            return out
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, f'{path}[{i}]', out, depth + 1)
        return out
    if type(a) is type(b) and hasattr(a, 'F') and a.F:
        for n in a.F:
            x, y = getattr(a, n), getattr(b, n)
            if n in getattr(a, 'BOOLF', ()):
                x, y = BArg(x), BArg(y)
            diff(x, y, f'{path}/{type(a).__name__}.{n}', out, depth + 1)
        return out
    out.append((path + f'/{type(a).__name__}~{type(b).__name__}', str(a)[:700], str(b)[:700]))
    return out
