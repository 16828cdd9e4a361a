"""Opening proofs: honest ones verify, and verification is exactly the documented equations."""
import random
from lib import build, solver
from lib.prf import bpoly, linv
from lib.prfcheck import Runner, honest, leaves, judge, tampered

FLAGS = ['ok', 'same challenges', 'same g', 'forks']


def seeds(k, m, n=16):
    rnd = random.Random(11)
    inp = {}
    for j in range(m):
        inp.update({f'a{j}_{i}': rnd.getrandbits(250) for i in range(1 << k)})
        for x in 'Pvxa':
            inp[f'{x}{j}'] = rnd.getrandbits(250)
    for i in range(k):
        for j in range(m):
            for x in 'LRlr':
                inp[f'{x}{i}_{j}'] = rnd.getrandbits(250)
    inp['g'] = rnd.getrandbits(250)
    return inp


def spec(k, m):
    def f(run):
        rt = [run.rootvar(f'c{i}') for i in range(k)]
        out = []
        for j in range(m):
            P, v = run.i(f'P{j}'), run.i(f'v{j}')
            for i in range(k):
                e = rt[i] * rt[i]
                P = P + run.i(f'L{i}_{j}') * e + run.i(f'R{i}_{j}') * linv(e)
                v = v + run.i(f'l{i}_{j}') * e + run.i(f'r{i}_{j}') * linv(e)
            out.append((f'commitment equation {j}', P - run.i('g') * run.i(f'a{j}')))
            out.append((f'value equation {j}', v - run.i(f'a{j}') * bpoly(run.i(f'x{j}'), rt)))
        return out
    return f


def check(ck):
    build.build(bin='prf')
    solver.ensure()
    rn = Runner(ck)
    big = ck.tier == 'thorough'
    its = []
    for fld in 'pq':
        for k in (1, 2, 3, 4) + ((5,) if big else ()):
            d = 1 << k
            for shape in ([f'L{d}'], [f'L{d - 1}', f'R{d - 1}'], ['L1', 'R1', f'L{d}', f'R{d}'], [f'R{d // 2 + 1}', f'L{d // 2 + 1}']):
                its.append((f'{fld}/k={k}/{"+".join(shape)}', fld, 'ipa', [k] + shape, seeds(k, len(shape)), FLAGS, None))
    honest(rn, its)
    for fld in 'pq':
        for k, m in [(1, 1), (1, 2), (2, 2), (3, 3)] + ([(4, 5), (5, 2)] if big else []):
            ls, more = leaves(rn, fld, 'ipav', [k, m], seeds(k, m))
            if more:
                ck.inconclusive.append([f'{fld}/verify k={k} m={m}', 'decision tree too large'])
            # (with three polynomials the real prover may never end, see the known finding of C14)
            mr = m + (m % 3 == 0)
            shape = [f'{"LR"[j % 2]}{(1 << k) - j}' for j in range(mr)]
            judge(rn, f'{fld}/verify/k={k}/m={m}', fld, ls, spec(k, m),
                  lambda: tampered(rn, fld, 't-ipa', [k] + shape, seeds(k, mr)))
            # what it hands on
            for run, fs in ls:
                if run.panic:
                    continue
                ck.obl += 1
                g = run.g('g')
                if set(g) == {'one'} and (g['one'] - run.i('g')).is_zero() and run.notes['len packed'] == str(k) and run.notes['forks'] == str(k):
                    ck.dis += 1
                else:
                    det = tampered(rn, fld, 't-ipa', [k] + shape, seeds(k, mr))
                    if det:
                        ck.violation(f'{fld}/k={k}:outputs', det['message'], det)
                    else:
                        ck.inconclusive.append([f'{fld}/k={k}', 'outputs differ'])
    ck.functions = ['MultiPolynomialOpening::{new_proof,verify_proof}', 'compute_b', 'compute_inner_product', 'parallel_generator_collapse',
                    'append_point', 'append_scalar', 'get_challenge (src/proofs.rs, src/util.rs)']
    ck.bounds = ['both curves; k = 1..4 (thorough 5), 1..3 polynomials per proof, full, short and right-aligned polynomials; '
                 'verification for (k, instances) = (1,1), (1,2), (2,2), (3,3) (thorough (4,5), (5,2)); any coefficients, points, proof elements',
                 'round challenges are free values subject to: their scalar is a square (the retry loop ended)']
    ck.assumptions = ['the transcript is an ideal sponge; challenge derivation is opaque (judged by C13); challenges are nonzero (C13)',
                      'multiexp is its definition (judged by C10); group elements are combinations of independent basis elements',
                      'proof lists have the documented lengths']
