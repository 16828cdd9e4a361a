"""Linear combinations form exact linear algebra."""
from lib import build
from lib.fncheck import Fn, run_fns
from lib.poly import Poly

KIND = 'ZONF'


def meaning(r, k, nm):
    return {'Z': lambda: r.c(0), 'O': lambda: r.c(1), 'N': lambda: r.c(-1), 'F': lambda: r.i(nm)}[k]()


def coeffs(f):
    out = []

    def add(args, spec):
        out.append(Fn(f, 'coeff', args, [{'x': 5, 'y': 9}, {'x': 0, 'y': 0}, {'x': 1, 'y': 1}],
                      lambda r: r.eq('value', r.v('o'), spec(r))))
    for a in KIND:
        m = lambda r, a=a: meaning(r, a, 'x')
        add(['value', a, 'Z'], m)
        add(['neg', a, 'Z'], lambda r, m=m: -m(r))
        add(['double', a, 'Z'], lambda r, m=m: m(r) + m(r))
        add(['mulf', a, 'Z'], lambda r, m=m: m(r) * r.i('y'))
        add(['multiply', a, 'Z'], lambda r, m=m: m(r) * r.i('y'))
        for b in KIND:
            add(['mulc', a, b], lambda r, m=m, b=b: m(r) * meaning(r, b, 'y'))
    add(['from', 'Z', 'Z'], lambda r: r.i('x'))
    return out


def lc_meaning(r, prog):
    """stack of formal combinations: variable -> Poly"""
    st = []

    def plus(a, b, s):
        d = dict(a)
        for v, c in b.items():
            d[v] = d.get(v, r.c(0)) + c * s
        return d
    for i, t in enumerate(prog):
        op, rest = t[:2], t[2:]
        nm = f'c{i}'
        if op == 'z:':
            st.append({})
        elif op == 'f:':
            st.append({rest: r.c(1)})
        elif op in ('+v', '-v'):
            st.append(plus(st.pop(), {rest: r.c(1)}, r.c(1 if op[0] == '+' else -1)))
        elif op in ('+c', '-c'):
            st.append(plus(st.pop(), {rest[1:]: meaning(r, rest[0], nm)}, r.c(1 if op[0] == '+' else -1)))
        elif op in ('+l', '-l'):
            b, a = st.pop(), st.pop()
            st.append(plus(a, b, r.c(1 if op[0] == '+' else -1)))
        else:
            b, a = st.pop(), st.pop()
            st.append(plus(a, b, meaning(r, rest[0], nm) * (1 if op[0] == '+' else -1)))
    return st[-1]


VARS = [k + str(i) for k in 'ABC' for i in (1, 2, 3)]


def lc(f, prog):
    prog = list(prog)

    def spec(r):
        want = lc_meaning(r, prog)
        got = {}
        for k, i, c in r.outs['lc']:
            v = f'{k}{i}'
            got[v] = got.get(v, r.c(0)) + r.t(c)
        ob = []
        for v in sorted(set(got) | set(want)):
            ob += r.eq(f'coefficient of {v}', got.get(v, r.c(0)), want.get(v, r.c(0)))
        ev = r.c(0)
        for v, c in want.items():
            ev = ev + c * r.i(f'{v[0]}{int(v[1:]) - 1}')
        return ob + r.eq('evaluate', r.v('ev'), ev)
    ins = [f'{k}{i}' for k in 'ABC' for i in range(3)] + [f'c{i}' for i in range(len(prog))]
    sd = [{n: 3 * j + 2 for j, n in enumerate(ins)}, {n: j % 2 for j, n in enumerate(ins)}]
    return Fn(f, 'lc', prog, sd, spec)


def check(ck):
    build.build()
    fs = []
    for f in 'pq':
        fs += coeffs(f)
        P = []
        for k in KIND:
            for o in '+-':
                P.append(['z:', f'{o}c{k}A1', f'{o}cFB2'])
                P.append(['f:C3', f'{o}c{k}C3'])                      # same variable twice
                for j in KIND:
                    P.append(['z:', f'+c{j}A1', '-vB1', 'z:', '+vA1', f'+c{j}B1', '-cFC2', f'{o}s{k}'])
                    P.append(['f:A2', 'z:', f'+c{j}A2', f'-c{k}A3', f'{o}l'])
        for o in '+-':
            for o2 in '+-':
                P.append(['z:', f'{o}vA1', f'{o2}vA2', f'{o}vB3'])
                P.append(['z:', 'f:A1', f'{o}l', 'f:B1', f'{o2}l', f'{o}vA1'])
                P.append(['f:A1', 'z:', f'{o}l', 'z:', f'{o2}sF'])
                P.append(['f:C1', 'f:A1', '+cFB1', f'{o}sF', 'f:C2', '-cFB2', f'{o2}sF'])
        if ck.tier != 'quick':
            for a in KIND:
                for b in KIND:
                    for c in KIND:
                        P.append(['z:', f'+c{a}A1', f'-c{b}B1', 'f:A1', f'+c{c}A1', '-sF', 'z:', f'-c{a}C1', f'+s{b}'])
                        P.append(['f:A1', 'f:A2', 'f:A3', f'+s{a}', f'-s{b}', f'-c{c}A3'])
        fs += [lc(f, p) for p in P]
    run_fns(fs, ck)
    ck.functions = ['Coeff::{value,double,multiply,neg,mul,from}', 'LinearCombination::{zero,from,add,sub (variable, term, combination, scaled combination),evaluate,as_ref}']
    ck.bounds = ['every value of every Full coefficient and variable', 'every kind of coefficient at each position',
                 'expressions of up to three combinations with up to three terms each, aliased variables included']
    ck.assumptions = ['the harness field stands in for Fp/Fq (their arithmetic is C01)', '/verif/ffsolve decides the finite-field queries']
