"""Curve multiplication gadgets compute the scalar multiple."""
from lib import build, solver, chain, z3q
from lib.curvespec import oncurve, pt
from lib.ecp import SCALAR, point, neg
from lib.gadget import Gadget, Case, Report, run_complete
from lib.par import parallel
from lib.poly import MOD
from . import C26

OPS = ('mul', 'mulfast', 'mulendo', 'invmul', 'invmulfast', 'invmulendo')


def lengths(op, tier):
    if op.endswith('endo'):
        return [128]
    if op.endswith('fast'):
        return [2, 3, 4, 8, 254] if tier == 'quick' else [2, 3, 4, 5, 6, 7, 8, 16, 32, 64, 127, 128, 129, 253, 254]
    return [1, 2, 3, 6, 256] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 8, 16, 32, 64, 128, 129, 254, 255, 256]


def domain_lemmas(ck):
    """The incomplete additions of the fast and endomorphism chains never meet their exceptional cases:
    with A = [a]T the step needs a != +-1 and 2a+s != 0 modulo the group order."""
    import z3
    for f in 'pq':
        r = MOD[SCALAR[f]]
        for j in range(2, 255):     # after j bits: 2^j < a < 2^(j+1)
            a, s, k = z3.Ints('a s k')
            hyp = [a > 2 ** (j - 1), a < 2 ** j, z3.Or(s == 1, s == -1)]
            bad = [a == 1 + k * r, a == -1 + k * r]
            if j < 254:         # another step follows
                bad += [2 * a + s == k * r, 2 * a + s <= 2 ** j, 2 * a + s >= 2 ** (j + 1)]
            z3q.lemma(ck, f'fast chain {f} {j}', *hyp, z3.Or(*bad))
        # endomorphism: a = u + v*L with L^2 + L + 1 = 0 (C09); norm u^2 - uv + v^2
        u, v, s, M = z3.Reals('u v s M')
        N = lambda u, v: u * u - u * v + v * v      # noqa: E731
        z3q.lemma(ck, 'norm is preserved by L', N(-v, u - v) != N(u, v))
        z3q.lemma(ck, 'trace bound', (2 * u - v) * (2 * u - v) > 4 * N(u, v))
        # with t = 2u - v:  N(2u+s, 2v) = 4N + 2st + 1 for s = +-1
        z3q.lemma(ck, 'norm of a step', s * s == 1, N(2 * u + s, 2 * v) != 4 * N(u, v) + 2 * s * (2 * u - v) + 1)
        t, n = z3.Reals('t n')
        z3q.lemma(ck, 'lower bound', t * t <= 4 * n, n >= 9, z3.Or(s == 1, s == -1), 4 * n + 2 * s * t + 1 < 9)
        z3q.lemma(ck, 'upper bound', t * t <= 4 * n, n <= M * M, M >= 3, z3.Or(s == 1, s == -1), 4 * n + 2 * s * t + 1 > (2 * M + 1) * (2 * M + 1))
        # a nonzero u + vL that vanishes modulo the order has norm divisible by the order
        b = 3
        for _ in range(64):
            b = 2 * b + 1
        i, k = z3.Ints('i k')
        z3q.lemma(ck, 'no exceptional case', i >= 1, i <= (b + 1) ** 2, i == k * r)


def honest_gadgets(f, tier):
    G = point(f, 0)
    out = []
    big = tier != 'quick'
    for op, ns in (('mul', (1, 2, 3) if big else (1, 2)), ('mulfast', (2, 3) if big else (2,))):
        for n in ns:
            top = op.endswith('fast')
            codes = [v for v in range(1 << n) if not top or v >> (n - 1)]
            for code in codes:
                bits = {f'b{i}': (code >> i) & 1 for i in range(n)}

                def cases(X, bits=bits):
                    P = pt(X, 'P')
                    return [Case('point', [P.f, oncurve(f, P)], [], [])]

                def extra(X, bits=bits):
                    return [X(k) - v for k, v in bits.items()], []
                g = Gadget(f, 'pt', [op, 'v', n], [{**C26.pin('P', G), **bits}], cases, ['P.id'] + list(bits), extra=extra, label=f'{op}({code:0{n}b})/{f}')
                out.append(g)
    return out


def check(ck):
    build.build()
    solver.ensure()
    C26.BETA.update({k: int(v, 16) for k, v in build.run(['consts'])['beta'].items()})
    chain.BETA.update(C26.BETA)
    jobs = []
    for f in 'pq':
        for op in OPS:
            def job(sub, f=f, op=op):
                solver.WORKERS = 2
                cache = {}
                small = [(f, op, n) for n in ((2, 3) if op.endswith('fast') else (1, 2))] if not op.endswith('endo') else []
                for n in lengths(op, sub.tier):
                    chain.run_sound(sub, f, op, n, cache, 60 if sub.tier == 'quick' else 300, small)
                    if sub.viol:
                        break
            jobs.append((f'{op}/{f}', job))
        for g in honest_gadgets(f, ck.tier):
            def hjob(sub, g=g):
                solver.WORKERS = 2
                rep = Report()
                run_complete_fixed(g, rep, 60 if sub.tier == 'quick' else 300)
                sub.absorb(rep)
            jobs.append((f'honest {g.label}', hjob))
    jobs.append(('domain', domain_lemmas))
    parallel(ck, jobs)
    ck.functions = ['gadgets::ecc::CurvePoint::{multiply,multiply_fast,multiply_endo,multiply_inv,multiply_inv_fast,multiply_inv_endo,inv_helper}',
                    'and everything they call in gadgets::{ecc,num,boolean}', 'synthesis::Basic']
    ck.bounds = ['scalar lengths ' + ', '.join(f'{op}: {lengths(op, ck.tier)}' for op in OPS),
                 'every assignment of the witnesses; the fast variants up to 254 bits (longer scalars can wrap around the group order)',
                 'honest proving: every point, plain and fast variants, scalars of up to 2-3 bits on every path; the inverse and endomorphism variants and full lengths only through the concrete honest runs that locate the cuts']
    ck.assumptions = ['points are handed over as curve points or the flagged identity', 'the incoming point of a step is a curve point because the group law keeps the curve (textbook)',
                      'the endomorphism acts as multiplication by the cube root of unity (C09)']


def run_complete_fixed(g, rep, tl):
    """run_complete for one choice of the bits"""
    b = [x for x in g.bools if x != 'P.id']
    fixed = {x: g.seeds[0][x] for x in b}
    import itertools
    keep = itertools.product
    g.bools = ['P.id'] + b
    from lib import gadget

    class P:
        @staticmethod
        def product(*a, repeat=1):
            return [(0, *[fixed[x] for x in b])]
    old = gadget.itertools
    gadget.itertools = P
    try:
        run_complete([g], rep, tl)
    finally:
        gadget.itertools = old
