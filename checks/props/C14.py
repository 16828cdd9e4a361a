"""The Rescue sponge is the documented function and uses everything it absorbs."""
from lib import build
from lib.fncheck import FnRun
from lib.build import HarnessFailure
from lib.rescuespec import Congruence, sponge, sponge_num
from lib import solver
import itertools


def programs(tier):
    P = [''.join(w) for n in range(1, 5) for w in itertools.product('as', repeat=n) if 's' in w]
    P += ['a' * 11 + 's', 'a' * 12 + 's', 'a' * 13 + 's', 'a' * 12 + 's' * 12 + 's', 's' * 13, 'a' * 25 + 's', 'aasascas', 'a' * 12 + 's' + 'a' + 's',
          'a' * 7 + 's' * 3 + 'a' * 12 + 'ss', 'acas', 'ascss']
    if tier != 'quick':
        P += ['a' * n + 's' * m for n in range(0, 27, 1) for m in (1, 12, 13)]
        P += [''.join(w) + 's' for w in itertools.product('as', repeat=6)]
        P += ['a' * 12 + 's' * 12 + 'a' * 12 + 's' * 13, 's' * 25 + 'a' * 13 + 's' * 2]
    return list(dict.fromkeys(P))


def check(ck):
    build.build()
    solver.ensure()
    for f in 'pq':
        for prog in programs(ck.tier):
            na = prog.count('a')
            inp = {f'a{i}': 1000 + 17 * i for i in range(na)}
            label = f'rescue({prog})/{f}'
            try:
                r = FnRun(f, 'rescue', [prog], inp)
            except HarnessFailure as e:
                ck.inconclusive.append([label, str(e)[:200]])
                continue
            cc = Congruence(r.mod)
            got = [cc.of(r.T, r.raw[f's{i}']) for i in range(prog.count('s'))]
            want = sponge(cc, prog)
            for i, (g, w) in enumerate(zip(got, want)):
                ck.obl += 1
                v = cc.equal(g, w)
                if v:
                    ck.dis += 1
                    continue
                # refute on concrete inputs
                bad = None
                for t in range(4):
                    c = {k: (v0 * (t + 1) + t * t) % r.mod for k, v0 in inp.items()} if t else {k: 0 for k in inp}
                    if t == 3:
                        c = {k: pow(7, 1000 + j, r.mod) for j, k in enumerate(inp)}
                    rr = FnRun(f, 'rescue', [prog], c, 'real')
                    sp = sponge_num(r.mod, prog, [c[f'a{j}'] for j in range(na)])
                    if rr.panic or rr.v(f's{i}').constval() != sp[i]:
                        bad = c
                        break
                if bad is not None:
                    ck.violation(f'{label}:squeeze{i}', f'squeezed value {i} is not the documented function',
                                 {'field': f, 'program': prog, 'inputs': {k: hex(x) for k, x in bad.items()}})
                else:
                    ck.inconclusive.append([f'{label}:squeeze{i}', 'not decided by congruence'])
            # influence of every absorbed element on what is squeezed after it
            if prog in ('a' * 12 + 's', 'a' * 13 + 's', 'a' * 25 + 's', 'a' * 7 + 's' * 3 + 'a' * 12 + 'ss'):
                influence(ck, f, prog, r, cc, got, inp)
    ck.extra['congruence_atoms'] = Congruence.ATOMS
    ck.functions = ['Rescue::{new,absorb,squeeze}', 'generate_mds_matrix', 'generate_key_schedule', 'rescue_f', 'rescue_duplex', 'pad']
    ck.bounds = ['absorb/squeeze sequences: all up to 4 calls, blocks of 11, 12, 13 and 25 elements, mode switches; every absorbed value']
    ck.assumptions = ['x^5 and its inverse are uninterpreted apart from congruence and x^5 as a monomial', 'the harness field stands in for Fp/Fq (C01)']


def influence(ck, f, prog, r, cc, got, inp):
    """For each absorbed element: some squeezed value after it depends on it.  Independence is
    decided on the terms (for every value); dependence is witnessed on the real code."""
    seen = 0
    sq = 0
    pos = []
    blk = 0
    last = None
    for ch in prog:
        if ch == 'a':
            if last == 's' or blk == 12:
                blk = 0
            pos.append((blk, sq))
            blk += 1
        else:
            sq += 1
        last = ch
    base = FnRun(f, 'rescue', [prog], inp, 'real')
    for j, (b, s0) in enumerate(pos):
        ck.obl += 1
        deps = any(cc.depends(g, f'i:a{j}') for g in got[s0:])
        c = dict(inp)
        c[f'a{j}'] = (c[f'a{j}'] + 12345) % r.mod
        o = FnRun(f, 'rescue', [prog], c, 'real')
        diff = any(base.v(f's{i}').constval() != o.v(f's{i}').constval() for i in range(s0, prog.count('s')))
        if diff:
            ck.dis += 1
        elif not deps:
            ck.violation(f'influence:block-position-{b}', f'the element absorbed at position {b} of a block has no influence on the output ({prog}, {f})',
                         {'field': f, 'program': prog, 'element': j, 'inputs': {k: hex(v) for k, v in inp.items()}})
        else:
            ck.inconclusive.append([f'influence {prog} {j}', 'dependent term, same concrete output'])
