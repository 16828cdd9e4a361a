"""Scalar multiplication and the endomorphism."""
import random
from lib import irbuild, ecp, solver, grp
from lib.bv import LIA, Unsupported
from lib.fe import FECheck, FExec, BASE, SCAL
from lib.ir import Panic, explore
from lib.poly import Poly, MOD
from lib.solver import Query
from lib.wordcheck import lia_stats
from .C06 import affine, valid, reps


def scalars(m, rnd):
    return [0, 1, 2, 3, m - 1, m - 2, 1 << 254, 1 << 128, (1 << 255) % m, 0x55 << 240, (1 << 254) - 1] + [rnd.randrange(m) for _ in range(6)]


def mul_check(ck, fc, c, v):
    f, sf = BASE[c], SCAL[c]
    fn = f'{c}_mul_{v}'

    def judge(P, s):
        got = fc.native(fn, [('pt', c, P), ('fe', sf, s)], [('pt', c)])[0]
        want = ecp.mul(f, s, affine(f, P)) if affine(f, P) else None
        if not valid(f, got) or affine(f, got) != want:
            return f'{fn}: [{s:#x}]{[hex(t) for t in P]} gives {affine(f, got) if valid(f, got) else got}, want {want}'

    def search(extra=()):
        rnd = random.Random(4)
        rs = reps(f, rnd)
        for s in list(extra) + scalars(MOD[sf], rnd):
            for P in (rs[1], rs[16], rs[-1], rs[6]):
                msg = judge(P, s)
                if msg:
                    return ck.violation(fn, msg, {'scalar': hex(s), 'point': [hex(t) for t in P]}) or True
        return False
    box = {}

    def make(pre):
        ex = FExec(fc.mod, pre, extra=grp.hooks([c]))
        p, s, o = ex.mem.alloc(96), ex.mem.alloc(32), ex.mem.alloc(96)
        ex.store(p, 96, grp.G(c, {'P': 1}))
        S = Poly.var(MOD[sf], 's')
        ex.put(sf, s, S)
        box[id(ex)] = (S, o)
        ex.args = [p, s, o]
        return ex

    def go(ex):
        ex.call(fn, ex.args)
        return ex.load(ex.args[2], 96)
    try:
        for ex, r in explore(make, go):
            fc.used |= ex.used
            fc.steps += ex.steps
            fc.paths += 1
            S, _ = box[id(ex)]
            ck.obl += 1
            if isinstance(r, Panic):
                if not search():
                    ck.inconclusive.append([fn, 'panic on some path'])
                continue
            if not isinstance(r, grp.G):
                raise Unsupported('result is not a point')
            bits = ex.bits(sf, S)
            val = ex.bitsum(bits)
            coef = r.d.get('P', 0)
            L = LIA(ex.dom)
            L.fact(val, 0, MOD[sf] - 1)
            extra = [k for k in r.d if k != 'P']
            diff = ex.dom.isub(coef, val)
            # congruence modulo the group order (= the scalar modulus) is what matters
            m = MOD[sf]
            if extra:
                v_ = 'sat'
            elif isinstance(diff, int):
                v_ = 'unsat' if diff % m == 0 else 'sat'
                if v_ == 'unsat':
                    v_ = L.check(lambda B: [B.mk('zero') == diff, B.mk('zero') != 0]) if diff == 0 else 'unsat'
            else:
                def cond(B):
                    q, r_ = B.mk('q'), B.mk('r')
                    return [B.lin(diff) == m * q + r_, r_ >= 1, r_ <= m - 1]
                v_ = L.check(cond)
            if v_ == 'unsat':
                ck.dis += 1
                continue
            ext = []
            if v_ == 'sat' and L.model is not None:
                ext = [L.value(val)]
            if not search(ext):
                ck.inconclusive.append([fn, v_])
    except Unsupported as e:
        ck.obl += 1
        if not search():
            ck.inconclusive.append([fn, f'outside the interpreter: {e}'])


def endo(ck, fc, c):
    """(x, y) -> (beta x, y) is the multiplication by BETA_SCALAR: it respects the group law (solver, all
    points), the group is cyclic of prime order, and the two maps agree on the generator."""
    f, sf = BASE[c], SCAL[c]
    m, n = MOD[f], MOD[sf]
    beta = fc.native(f'{c}_beta_base', [], [('fe', f)])[0]
    lam = fc.native(f'{c}_beta_scalar', [], [('fe', sf)])[0]
    g = fc.native(f'{c}_one', [], [('pt', c)])[0]
    v = lambda x: Poly.var(m, x)
    x1, y1, x2, y2, x3, y3 = map(v, ('x1', 'y1', 'x2', 'y2', 'x3', 'y3'))
    on = lambda x, y: y * y - x * x * x - ecp.B[f]
    b = Poly.const(m, beta)
    dx, dy = x2 - x1, y2 - y1
    chord = lambda k: [(x3 * k + x1 * k + x2 * k) * (dx * k) * (dx * k) - dy * dy, (y3 + y1) * (dx * k) - dy * (x1 * k - x3 * k)]
    nn, dd = x1 * x1 * 3, y1 * 2
    tang = lambda k: [(x3 * k + x1 * k * 2) * dd * dd - (nn * k * k) * (nn * k * k), (y3 + y1) * dd - (nn * k * k) * (x1 * k - x3 * k)]
    one = Poly.const(m, 1)
    qs = [Query(f'{c} endomorphism stays on the curve', m, [on(x1, y1)], [on(x1 * b, y1)])]
    for i in range(2):
        qs.append(Query(f'{c} endomorphism respects addition {i}', m, [on(x1, y1), on(x2, y2)] + chord(one), [dx, chord(b)[i]]))
        qs.append(Query(f'{c} endomorphism respects doubling {i}', m, [on(x1, y1)] + tang(one), [tang(b)[i]]))

    def bad():
        for k in range(3):
            P = ecp.point(f, k)
            got = fc.native(f'{c}_mul_vv', [('pt', c, (*P, 1)), ('fe', sf, lam)], [('pt', c)])[0]
            if affine(f, got) != (beta * P[0] % m, P[1]):
                return f'[BETA_SCALAR]({P[0]:#x},{P[1]:#x}) is not (BETA_BASE x, y)'
    for q, (r, _) in zip(qs, solver.solve_all(qs, 60)):
        ck.obl += 1
        if r == 'unsat':
            ck.dis += 1
        elif bad():
            ck.violation(f'{c}:endomorphism', bad(), {'beta_base': hex(beta), 'beta_scalar': hex(lam)})
        else:
            ck.inconclusive.append([q.name, r])
    ck.obl += 1
    G = affine(f, g) if valid(f, g) else None
    # G has the prime order n: n G = O; the only multiple of n in the Hasse interval is n itself
    from math import isqrt
    order = G is not None and ecp.mul(f, n, G) is None and 2 * n > m + 1 + 2 * isqrt(m) + 2
    if order and ecp.mul(f, lam, G) == (beta * G[0] % m, G[1]) and pow(lam, 3, n) == 1 and lam != 1:
        ck.dis += 1
    elif bad():
        ck.violation(f'{c}:endomorphism', bad(), {'beta_base': hex(beta), 'beta_scalar': hex(lam)})
    else:
        ck.inconclusive.append([f'{c} endomorphism on the generator', 'constants unexpected'])


def check(ck):
    irbuild.build()
    fc = FECheck(ck, irbuild.load(), irbuild.native())
    for c in BASE:
        for v in ('vv', 'vr', 'rv', 'rr', 'av', 'ar'):
            mul_check(ck, fc, c, v)
        endo(ck, fc, c)
    fc.finish()
    lia_stats()
    ck.bounds = ['none on values: every scalar (255 symbolic bits of its canonical encoding below the modulus) and every point']
    ck.assumptions = ['point addition, doubling and selection as decided by C06/C07, scalar encoding as decided by C02',
                      'both moduli are prime and the curve orders equal the other modulus (checked numerically: n G = O and the Hasse bound)',
                      'LLVM IR at opt-level 0 of this run; rustc code generation']
