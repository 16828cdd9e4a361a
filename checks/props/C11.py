"""FFTs evaluate and polynomial products are exact."""
from lib import build
from lib.fncheck import Fn, run_fns


def spec(la, lb):
    def go(r):
        n = la + lb - 1
        if int(r.notes['len o']) != n:
            return [('length of the product', [], [])]
        ob = []
        for k in range(n):
            s = r.c(0)
            for i in range(la):
                if 0 <= k - i < lb:
                    s = s + r.i(f'a{i}') * r.i(f'b{k - i}')
            ob += r.eq(f'coefficient {k}', r.v(f'o{k}'), s)
        return ob
    return go


def check(ck):
    build.build()
    fs = []
    if ck.tier == 'quick':
        sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 4), (3, 2), (3, 3), (4, 5), (5, 4), (1, 8), (5, 5), (8, 8), (8, 9), (9, 9), (17, 3), (16, 17)]
        cpus = [1, 2, 3, 4, 5, 8, 16]
    else:
        sizes = [(a, b) for a in range(1, 13) for b in range(1, 13)] + [(16, 16), (16, 17), (20, 13), (33, 32), (1, 64), (1, 65), (40, 30)]
        cpus = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32, 64]
    for f in 'pq':
        for a, b in sizes:
            for c in cpus:
                sd = [{**{f'a{i}': 3 * i + 1 for i in range(a)}, **{f'b{i}': 5 * i + 2 for i in range(b)}}]
                fs.append(Fn(f, 'polymul', [a, b], sd, spec(a, b), cpus=c))
    run_fns(fs, ck)
    ck.functions = ['multiply_polynomials', 'best_fft', 'serial_fft', 'parallel_fft', 'log2_floor']
    ck.bounds = [f'polynomials of {min(s[0] for s in sizes)}..{max(s[0] for s in sizes)} by {min(s[1] for s in sizes)}..{max(s[1] for s in sizes)} '
                 f'coefficients ({len(sizes)} size pairs), every coefficient value; CPU counts {cpus}']
    ck.assumptions = ['num_cpus is replaced by a stand-in returning the chosen count', 'threads of a scope work on disjoint slices (safe Rust), so their '
                      'schedule does not matter', 'ALPHA is the root of unity of C05', 'the harness field stands in for Fp/Fq (C01)',
                      '/verif/ffsolve decides the finite-field queries']
