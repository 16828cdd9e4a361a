"""The circuit polynomial s(X,Y) encodes the constraint system."""
import json
from lib import build
from lib.fncheck import Fn, run_fns
from lib.poly import Poly
from lib.prog import Prog
from props.C15 import programs


def spec(prog, n):
    def go(r):
        rec = json.loads(r.notes['rec'])
        y, x = r.i('y'), r.i('x')
        ob = []
        sx = [r.c(0) for _ in range(3 * n + 1)]
        vs = [(v[0], int(v[1:])) for v in r.notes.get('vars', '').split()]
        yq = r.c(1)
        sy = [r.c(0)]
        # x^{-1}: a fresh quantity with x * xi = 1
        xi = Poly.const(r.mod, pow(x.constval(), -1, r.mod)) if r.real else Poly.var(r.mod, 'xi')
        ex = [] if r.real else [x * xi - 1]
        for lc in rec['lcs']:
            yq = yq * y
            s = r.c(0)
            for k, i, c in lc:
                c = r.t(c)
                e = {'A': -i, 'B': i, 'C': n + i}[k]
                sx[n + e] = sx[n + e] + c * yq
                s = s + c * (xi ** i if k == 'A' else x ** i if k == 'B' else x ** (n + i))
            sy.append(s)
        if int(r.notes['len sx']) != len(sx):
            ob.append(('length of s(X,y)', [], []))
        if int(r.notes['len sy']) != len(sy):
            ob.append(('length of s(x,Y)', [], []))
        if ob:
            return ob
        for i, w in enumerate(sx):
            ob += r.eq(f's(X,y) coefficient of X^{i - n}', r.v(f'sx{i}'), w)
        for i, w in enumerate(sy):
            for l, e, ns in r.eq(f's(x,Y) coefficient of Y^{i}', r.v(f'sy{i}'), w):
                ob.append((l, e + ex, ns))
        return ob
    return go


def check(ck):
    build.build()
    k = 3 if ck.tier == 'quick' else 5
    L = list(programs(k))
    L += [['a', 'm', 'i', 'e:F1,N2,O3', 'm', 'e:Z1,F4,F7,F7,N0', 'a', 'e:F8'], ['n', 'm', 'p', 'm', 'm', 'e:F1,F2,F3,F4,F5,F6,F7,F8,F9']]
    fs = []
    for j, t in enumerate(L):
        p = Prog(t)
        gates = len(p.muls) + (len(p.vars) - 3 * len(p.muls) + 1) // 2
        n = [gates + 1, 4 if gates < 4 else gates + 2][j % 2]
        if j % 7 == 0:
            n = max(8, gates)
        sd = p.seeds(1, ['x', 'y'])
        fs.append(Fn('pq'[j % 2], 'sxy', [n, len(p.lcs)] + t, sd, spec(p, n), assume=lambda r: ([], [r.i('x')])))
    run_fns(fs, ck)
    ck.functions = ['Params::compute_sx (SxEval)', 'Params::compute_sy (SyEval)', 'Basic::synthesize']
    ck.bounds = [f'every circuit of at most {k} requests (and longer samples), several sizes n; every coefficient value, every x != 0 and y']
    ck.assumptions = ['x is not zero (the evaluation is undefined there)', 'the harness field stands in for Fp/Fq (C01)',
                      '/verif/ffsolve decides the finite-field queries']
