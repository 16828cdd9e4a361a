"""64-bit multiply-accumulate gadget is exact."""
import itertools
from lib import build, solver
from lib.bitspec import word_case, run_cases
from lib.bitdag import BitSys, Ctx, lin_reduce, lin_comb
from lib.scn import Run
from lib.poly import MOD


def cases(tier):
    out = []
    P = 'bin01in10nni'
    kinds = ['v', 'ffffffffffffffff', P, 'bn', '0', '8000000000000001']
    for f in 'pq':
        for kd in kinds:
            out.append(word_case(f, 'alloc', [kd], W=64))
            out.append(word_case(f, 'bits', [kd], W=64))
        lst = [('v', 'v', 'v', 'v'), ('v', 'v', 'ffffffffffffffff', P), (P, 'v', 'v', '0'), ('bn', P, 'v', 'bn'),
               ('ffffffffffffffff', 'v', 'v', 'v'), ('v', '8000000000000001', '0', '0'), ('v', '0', 'v', 'v'), ('ffffffffffffffff',) * 4,
               ('0', '0', '0', '0'), ('v', 'v', '0', 'v')]
        if tier != 'quick':
            lst = sorted(set(lst) | set(itertools.product(kinds, repeat=4)))
        for t in lst:
            out.append(word_case(f, 'mulacc', t, W=64))
    return out


def words(ck):
    """lc() of a word is the weighted sum of its bits"""
    for f in 'pq':
        for kd in ('v', 'bin01n', 'deadbeef12345678'):
            run = Run(f, 'u64', ['bits', kd], {'o0': 0x9e3779b97f4a7c15}, mode='real')
            s = BitSys(run, {}, Ctx(128))
            for w in ('o0', 'r'):
                ck.obl += 1
                d = lin_comb(s, [(1 << j, f'{w}[{j}]') for j in range(64)] + [(-1, f'{w}.lc')])
                if not d or not lin_reduce(s, d):
                    ck.dis += 1
                    continue
                rec = run.j['rec']
                val = {k: rec[k.lower()] for k in 'ABC'}
                ev = lambda lc: sum(run.val(val[a][b - 1]) * run.val(c) for a, b, c in lc) % run.mod
                if (sum(ev(run.outs[f'{w}[{j}]']) << j for j in range(64)) - ev(run.outs[f'{w}.lc'])) % run.mod:
                    ck.violation(f'lc({kd})/{f}', 'lc of a word is not the weighted sum of its bits', dict(field=f, kind=kd))
                else:
                    ck.inconclusive.append([f'lc({kd})/{f}', 'linear form differs'])


def check(ck):
    build.build()
    solver.ensure()
    run_cases(ck, cases(ck.tier))
    words(ck)
    from lib import witir
    witir.run(ck, ['u64'])
    ck.functions = ['UInt64::{constant,alloc,into_bits,from_bits,lc,mul_acc2}', 'AllocatedBit::alloc', 'Boolean::lc']
    ck.bounds = ['every value of every bit of the four operands (allocated, constant, negated and mixed bit patterns as listed); both fields']
    ck.assumptions = ['the 128-bit product is compared as the polynomial of bit products; no field wrap-around is possible because ranges are shown below the modulus']
