"""Honest proofs verify."""
import random
from lib import build, solver
from lib.prf import packed
from lib.prfcheck import Runner, honest

FLAGS = ['ok', 'same leftovers', 'forks', 'deferred']


def inputs(fld, k, seed=5):
    rnd = random.Random(seed)
    inp = {n: rnd.getrandbits(250) for n in ['w0', 'w1', 'w2', 'c0', 'c1', 'c2', 'yold']}
    inp.update({f'co{i}': v for i, v in enumerate(packed(fld, k))})
    return inp


def items(tier):
    out = []
    big = tier == 'thorough'
    for fld in 'pq':
        for k in (4, 5) + ((6,) if big else ()):
            # mul at k = 4 and chain3 at k = 5 use every gate, rep13 and rep29 every linear constraint
            circ = ['cub', 'lin', 'mul', 'const'] + {4: ['rep13', 'rep7'], 5: ['chain1', 'chain2', 'chain3', 'rep29'], 6: ['chain4', 'chain7', 'chain8', 'rep61']}[k]
            for c in circ:
                for old in ('dummy', 'sym') if k == 4 or big else ('sym',):
                    acc = ['accumulated'] if k == 4 or c == 'cub' else []
                    out.append((f'{fld}/k={k}/{c}/{old}', fld, 'honest', [k, c, old] + acc, inputs(fld, k),
                                FLAGS + (['new leftovers verify', 'old leftovers verify'] if acc else []), None))
    return out


def check(ck):
    build.build(bin='prf')
    solver.ensure()
    rn = Runner(ck)
    honest(rn, items(ck.tier))
    ck.functions = ['Proof::{new,verify}', 'MultiPolynomialOpening::{new_proof,verify_proof}', 'Leftovers::{dummy,verify}', 'Deferred::verify', 'Params',
                    'SyntheticCircuit/synthesis (Basic)', 'multiply_polynomials', 'compute_b', 'get_challenge_scalar']
    ck.bounds = ['both curves, k = 4 and 5 (thorough 6); circuits up to the gate and linear-constraint limits of that k; every witness, challenge and previous claim symbolic; '
                 'one accumulation step after the proof at k = 4']
    ck.assumptions += ['ideal transcript (challenges are fresh symbols), generators without known relations, circuit values taken in general position: no zero denominators on the explored path']
