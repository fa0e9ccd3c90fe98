from .common import *
from .c01 import readers


def run(ck):
    ck.rule('value graph of the unit conversion equals count*res/256 (exact) or its floor, for every reader and option; element type keeps 54 bits')
    ck.assumptions.append('input files hold whole records of the declared format')
    for fmt in ('a0', 'a1', 'a2'):
        for stream in (False, True):
            for res in RES:
                for frac in (True, False):
                    if res[0] == 'PS4' and not frac:
                        continue

                    def g(fmt=fmt, stream=stream, res=res, frac=frac):
                        run, o = readers(ck, fmt, False, stream, res, frac)
                        types(ck, fmt, stream, res, frac, o)
                    ck.guard(f'{"s" if stream else ""}read_{fmt} {res[0]} {frac}', g)
    for fmt in ('a0', 'a1', 'a2'):
        ck.guard('default arguments ' + fmt, lambda fmt=fmt: defaults(ck, fmt))
    return {}


def types(ck, fmt, stream, res, frac, o):
    v = item(o.ret, 0)
    if stream:
        s = pick_seq(v, 0)
        e = getattr(getattr(s, 's', None), 'elem', None)
    else:
        e = v
    dts = elem_dtypes(e) if e is not None else []
    name = f'{"s" if stream else ""}read_{fmt} res={res[0]} fractional={frac}: element type'
    if not dts:
        ck.add(name, 'unk', '', 'no element type inferred')
        return
    good = all(d in (('f16', 'O') if frac else ('u8', 'i8', 'O')) for d in dts)
    ck.add(name, 'ok' if good else 'bad', PT + ('sread_' if stream else 'read_') + fmt, f'element type {dts}')


def defaults(ck, fmt):
    fresh()
    n = sym('nrec', 2)
    for q in ('read_' + fmt, 'sread_' + fmt):
        run = Run(files=file_cfg(fmt, n))
        a = run.call(PT + q, [F()])
        b = run.call(PT + q, [F()], {'legacy': K(False), 'resolution': res_member(run, 'NS1'), 'fractional': K(True)})
        ck.seen(run)
        ck.same(f'{q}: defaults are 1 ns with sub-unit precision', a.ret, b.ret, PT + q)
