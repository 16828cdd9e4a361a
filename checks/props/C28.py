"""Synthesis does not depend on the witness."""
from lib import build, witir
from lib.gadget import Gadget, Report, run_shape
from lib.par import parallel
from . import C20, C21, C26


class Quiet:
    def __getattr__(self, n):
        return None


def groups(tier):
    """[(label, [Gadget])]"""
    out = []
    for f in ('p', 'q'):
        for m in (C20, C21, C26):
            gs = m.gadgets(f, tier)
            k = 24 if m is C26 else 60
            for i in range(0, len(gs), k):
                out.append((f'{m.__name__[-3:]}/{f}/{i}', gs[i:i + k]))
    nc = lambda X: []       # noqa: E731
    oncurve = lambda f, top: (lambda X: ([X('P.id') * X('P.x'), X('P.id') * X('P.y')] + ([X(f'b{top - 1}') - 1] if top else []) +    # noqa: E731
                                         [(1 - X('P.id')) * (X('P.y') ** 2 - X('P.x') ** 3 - {'p': 7, 'q': 5}[f])], []))
    for f in 'pq':
        G = C26.point(f, 0)
        for op, n in [('mul', 1), ('mul', 2), ('mulfast', 2), ('mulfast', 3), ('invmul', 1), ('invmulfast', 2)] + \
                ([('mul', 3), ('mulfast', 4), ('invmul', 2), ('invmulfast', 3)] if tier != 'quick' else []):
            top = op.endswith('fast')       # this variant fixes the leading bit
            s = [{**C26.pin('P', G), **{f'b{i}': (v >> i) & 1 for i in range(n)}} for v in range(1 << n) if not top or v >> (n - 1)]
            s.append({**C26.pin('P', None), **{f'b{i}': 1 for i in range(n)}})
            out.append((f'{op}{n}/{f}', [Gadget(f, 'pt', [op, 'v', n], s, nc, ['P.id'] + [f'b{i}' for i in range(n)], extra=oncurve(f, n if top else 0))]))
        for prog in ('as', 'acss', 'a' * 13 + 's', 's' * 13):
            s = [{f'x{i}': (v * (i + 1)) % 1000003 for i in range(13)} for v in (0, 1, 77)]
            out.append((f'rescue({prog})/{f}', [Gadget(f, 'rescue', [prog], s, nc)]))
    return out


def check(ck):
    build.build()
    from lib import solver
    solver.ensure()
    C26.BETA.update({k: int(v, 16) for k, v in build.run(['consts'])['beta'].items()})
    jobs = []
    for lab, gs in groups(ck.tier):
        def job(sub, gs=gs):
            rep = Report()
            run_shape(gs, rep, 30 if sub.tier == 'quick' else 200)
            sub.absorb(rep)
            sub.extra['shapes_compared'] = sub.extra.get('shapes_compared', 0) + rep.shapes
        jobs.append((lab, job))
    parallel(ck, jobs)
    witir.run(ck, ['u32', 'u64', 'unpack'], shape=True)
    ck.functions = sorted(set(ck.functions) | {'gadgets::{boolean,num,ecc,rescue,uint32,uint64}', 'unpack_fe', 'synthesis::Basic'})
    ck.bounds = ['every gadget of C20-C26 in the same operand kinds; every path the gadget code can take on the inputs, closed under the solver; '
                 'scalar multiplication of 1..3 bits; word gadgets: every word value, operand shapes of C23/C24']
    ck.assumptions = ['a circuit is the sequence of allocations, multiplication gates, linear constraints and public inputs it requests',
                      'SHA-256 and longer scalar multiplications are compositions of the gadgets covered']
