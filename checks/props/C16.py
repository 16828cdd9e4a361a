"""The satisfaction checker accepts exactly satisfied circuits."""
from lib import build
from lib.fncheck import Fn, run_fns
from lib.prog import Prog
from props.C15 import programs


def spec(prog, nin):
    def go(r):
        res = r.notes['res']
        if prog.err is not None:
            return [] if res == 'Synthesis(DivisionByZero)' else [('a failing witness is reported', [], [])]
        if nin != len(prog.inputs):
            return [] if res.startswith('InputLength') else [('wrong number of inputs is reported', [], [])]
        cons, lcv = [], []
        for m in prog.muls:
            a, b, c = (prog.value(r, j) for j in m)
            cons.append(a * b - c)
        ki = 0
        for k, ts, nm in prog.lcs:
            s = r.c(0)
            for j, c in prog.formal(r, ts).items():
                s = s + c * prog.value(r, j)
            lcv.append(s)
            if k == 'in':
                if nm is None:
                    s = s - 1
                else:
                    s = s - r.i(f'k{ki}')
                    ki += 1
            cons.append(s)
        if res == 'Ok(true)':
            return [(f'constraint {i} holds', [], [c]) for i, c in enumerate(cons)]
        ob = [('some constraint is violated', cons, [])]
        if res == 'Multiplication':
            a, b, c = (r.v(f'e{i}') for i in range(3))
            ob.append(('the reported gate is violated', [a * b - c], []))
            tri = [tuple(prog.value(r, j) for j in m) for m in prog.muls]
            if not any((a - x).is_zero() and (b - y).is_zero() and (c - z).is_zero() for x, y, z in tri):
                ob.append(('the reported gate exists', [], []))
        elif res == 'Linear':
            a, b = r.v('e0'), r.v('e1')
            ob.append(('the reported combination is violated', [a - b], []))
            if not any((a - x).is_zero() for x in lcv):
                ob.append(('the reported combination exists', [], []))
        else:
            ob.append((f'unexpected {res}', [], []))
        return ob
    return go


def check(ck):
    build.build()
    n = 3 if ck.tier == 'quick' else 4
    L = list(programs(n))
    L += [['n'] + t + ['p', 'i'] for t in programs(2)]
    L += [['e:'], ['a', 'A'], ['M'], ['i', 'i', 'i', 'e:F1,F2,N3', 'm'], ['a', 'm', 'i', 'e:F1,N2,F5', 'i', 'm', 'e:O0,F5,N3']]
    fs = []
    for j, t in enumerate(L):
        p = Prog(t)
        f = 'pq'[j % 2]
        k = len(p.inputs)
        for nin in ([k] if j % 5 else [k, k + 1] + ([k - 1] if k else [])):
            sd = p.seeds(2, [f'k{i}' for i in range(nin)])
            fs.append(Fn(f, 'sat', [nin] + t, sd, spec(p, nin)))
    run_fns(fs, ck)
    ck.functions = ['dev::is_satisfied with the Basic driver', 'LinearCombination::evaluate', 'Coeff::multiply']
    ck.bounds = [f'every circuit of at most {n} requests (and longer samples), free gate outputs, every value of witness, coefficients and public '
                 'inputs; every execution path']
    ck.assumptions = ['the harness field stands in for Fp/Fq (C01)', '/verif/ffsolve decides the finite-field queries']
