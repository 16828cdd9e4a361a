"""The in-circuit Rescue sponge forces the native sponge's outputs."""
import random
from lib import build, solver
from lib.build import HarnessFailure
from lib.congsys import Roots, Resolve
from lib.par import parallel
from lib.poly import Poly
from lib.rescuespec import sponge, sponge_num
from lib.scn import Run, imposed_replay, lc_eval
from lib.solver import Query, solve_all
from .C14 import programs as native_programs


def programs(tier):
    P = ['s', 'as', 'cs', 'aas', 'ass', 'acas', 'asas', 'sas', 'asa', 'aa', 'a' * 11 + 's', 'a' * 12 + 's', 'a' * 13 + 's', 'a' * 12 + 's' * 13, 's' * 13, 'aasascas',
         'a' * 5 + 'c' * 7 + 's', 'a' * 7 + 's' * 3 + 'a' * 12 + 'ss', 'a' * 12 + 's' + 'a' + 's', 'c' * 13 + 's', 'a' * 25 + 's', 's' * 12 + 'as']
    if tier != 'quick':
        P += [p.replace('c', 'a') for p in native_programs('thorough') if p.count('a') <= 26]
    return list(dict.fromkeys(P))


def inputs(prog, t=0, mod=None):
    n = prog.count('a') + prog.count('c')
    if t == 0:
        return {f'x{i}': 1000 + 17 * i for i in range(n)}
    rnd = random.Random(f'{prog}{t}')
    return {f'x{i}': [0, 1, mod - 1, rnd.randrange(mod)][(t + i) % 4] if t < 3 else rnd.randrange(mod) for i in range(n)}


def known(run):
    out = []
    for nm, l in run.outs.items():
        if nm[0] == 'x':
            if len(l) == 1:
                out.append(((l[0][0], l[0][1]), Poly.var(run.mod, 'i:x' + nm[1:])))
    return out


def values(run, S, ev):
    full = {}
    for i in range(1, S.n + 1):
        for k in 'ABC':
            p = S.val.get((k, i))
            full[k, i] = ev(p) if p is not None else (full['A', i] * full['B', i] % run.mod if k == 'C' else 0)
    return full


def forge(run, S, fld, prog, cc, j):
    """a satisfying assignment of the real circuit with a wrong j-th output, if there is one"""
    for t in range(1, 9):
        inp = inputs(prog, t, run.mod)
        env = {f'i:{k}': v for k, v in inp.items()}
        rnd = random.Random(t)
        honest = Run(fld, 'rescue', [prog], inp, 'real')
        spec = sponge_num(run.mod, prog.replace('c', 'a'), [inp[f'x{i}'] for i in range(len(inp))])
        for u in S.free:
            env[u] = rnd.randrange(run.mod)
        full = values(run, S, cc.evaluator(env))
        r = imposed_replay(run, full, inp)
        if not r.j['viol'] and r.res == 'ok':
            out = lc_eval(r, full, r.outs[f's{j}'])
            if out != spec[j]:
                return {'field': fld, 'program': prog, 'inputs': {k: hex(v) for k, v in inp.items()}, 'output': hex(out), 'native': hex(spec[j]),
                        'assignment': {f'{k}{i}': hex(v) for (k, i), v in list(full.items())[:4000]}}
        if not honest.j['viol'] and honest.res == 'ok':
            out = honest.val(honest.outvals[f's{j}'])
            if out != spec[j]:
                return {'field': fld, 'program': prog, 'inputs': {k: hex(v) for k, v in inp.items()}, 'output': hex(out), 'native': hex(spec[j]), 'honest': True}
    return None


def dishonest(run, fld, prog, want):
    """an input on which the honest prover fails (want: which outputs must be native)"""
    for t in range(1, 6):
        inp = inputs(prog, t, run.mod)
        r = Run(fld, 'rescue', [prog], inp, 'real')
        if r.res != 'ok':
            return f'synthesis fails: {r.res}', inp
        if r.j['viol']:
            return f'honest witness violates {r.j["viol"][:2]}', inp
        spec = sponge_num(run.mod, prog.replace('c', 'a'), [inp[f'x{i}'] for i in range(len(inp))])
        for j, s in enumerate(spec):
            if r.val(r.outvals[f's{j}']) != s:
                return f'squeezed value {j} is not the native one', inp
    return None


def job(fld, prog):
    label = f'rescue({prog})/{fld}'

    def go(sub):
        try:
            run = Run(fld, 'rescue', [prog], inputs(prog), 'sym')
        except HarnessFailure as e:
            sub.obl += 1
            try:
                bad = dishonest(Run(fld, 'rescue', [prog], inputs(prog), 'real'), fld, prog, None)
            except HarnessFailure as e2:
                sub.violation(label + ':honest', f'the gadget panics: {str(e2)[:120]}', {'field': fld, 'program': prog, 'inputs': inputs(prog)})
                return
            sub.inconclusive.append([label, str(e)[:200]])
            return
        cc = Roots(run.mod)
        want = sponge(cc, prog.replace('c', 'a'), 'x')
        # ---- soundness
        S = Resolve(run, cc, known(run))
        qs = []
        for j, w in enumerate(want):
            sub.obl += 1
            g = S.out(f's{j}')
            d = cc.fix(cc.red(g - w))
            if d.is_zero():
                qs.append(Query(f'{label} s{j}', run.mod, [], [d]))
                continue
            bad = forge(run, S, fld, prog, cc, j)
            if bad:
                sub.violation(f'{label}:squeeze{j}', f'the constraints allow squeezed value {j} to differ from the native sponge', bad)
            else:
                sub.inconclusive.append([label, f'squeeze {j} not decided ({len(S.free)} undetermined variables)'])
            break
        # ---- the honest prover
        val = {}
        r = run.j['rec']

        def of(s):
            p = cc.of(run, s)
            return cc.fix(cc.red(p))
        fails = []
        for i in range(r['n']):
            for k in 'abc':
                val[k.upper(), i + 1] = of(r[k][i])
            sub.obl += 1
            e = cc.red(cc.mul(val['A', i + 1], val['B', i + 1]) - val['C', i + 1])
            if cc.fix(e).is_zero():
                sub.dis += 1
            else:
                fails.append(f'gate {i + 1}')
        kk = {i: v for i, v in r['k']}
        for q, l in enumerate(r['lcs']):
            s = -of(kk[q + 1]) if q + 1 in kk else Poly(run.mod)
            for k, i, c in l:
                s = s + S.times(val[k, i], of(c))
            sub.obl += 1
            if cc.fix(cc.red(s)).is_zero():
                sub.dis += 1
            else:
                fails.append(f'lc {q + 1}')
        for j, w in enumerate(want):
            sub.obl += 1
            if cc.fix(cc.red(of(run.outvals[f's{j}']) - w)).is_zero():
                sub.dis += 1
            else:
                fails.append(f'value {j}')
        if fails or run.res != 'ok':
            bad = dishonest(run, fld, prog, None)
            if bad:
                sub.violation(label + ':honest', bad[0], {'field': fld, 'program': prog, 'inputs': {k: hex(v) for k, v in bad[1].items()}})
            else:
                sub.inconclusive.append([label, f'honest witness: {fails[:4]}'])
        for q, (v, m) in zip(qs, solve_all(qs, 20, 1)):
            if v == 'unsat':
                sub.dis += 1
            else:
                sub.inconclusive.append([label, q.name + ' ' + v])
        sub.extra['gates'] = sub.extra.get('gates', 0) + r['n']
        sub.extra['congruence_atoms'] = sub.extra.get('congruence_atoms', 0) + len(cc.names)
    return go


def check(ck):
    build.build()
    solver.ensure()
    P = programs(ck.tier)
    jobs = [(f'{p}/{f}', job(f, p)) for p in P for f in ('pq' if ck.tier != 'quick' or len(P[0]) < 6 else 'p')]
    parallel(ck, jobs)
    from lib import z3q
    import z3
    from lib.poly import MOD
    for f, m in MOD.items():        # fifth roots are unique
        k = z3.Int('k')
        ck.obl += 1
        s = z3.Solver()
        s.add(k >= 0, k < 5, k * (m - 1) + 1 == 5 * z3.Int('d'), z3.Int('d') > 0)
        if str(s.check()) == 'sat':
            ck.dis += 1
            z3q.note('sat', 0)
        else:
            ck.inconclusive.append(['fifth power is not a permutation', f])
    ck.functions = ['RescueGadget::{new,absorb,squeeze}', 'gadgets::rescue::{rescue_f,rescue_duplex,pad,generate_key_schedule}', 'Combination::{rescue_alpha,rescue_invalpha}',
                    'AllocatedNum::{rescue_alpha,rescue_invalpha}', 'constrain_pow_five']
    ck.bounds = [f'{len(P)} absorb/squeeze sequences of up to 25 absorbed and 13 squeezed elements, allocated and constant elements; every value and every field assignment']
    ck.assumptions = ['the specification equals the native sponge (C14)', 'x^5 is a permutation of the field (gcd(5, p-1) = 1, decided here)']
