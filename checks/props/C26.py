"""Curve-point gadgets compute the group operation."""
from lib import build
from lib.gadget import Gadget, Case, Report, run_sound, run_complete, run_shape
from lib.curvespec import *
from lib.ecp import point, neg, add, mul
from lib.poly import MOD


def pin(n, P):
    if P is None:
        return {n + '.x': 0, n + '.y': 0, n + '.id': 1}
    return {n + '.x': P[0], n + '.y': P[1], n + '.id': 0}


def seeds2(fld):
    G, H = point(fld, 0), point(fld, 1)
    out = []
    for P, Q in [(G, H), (G, None), (None, H), (None, None), (G, G), (G, neg(fld, G))]:
        out.append({**pin('P', P), **pin('Q', Q)})
    return out


def gadgets(fld, tier):
    gs = []
    G = point(fld, 0)
    s1 = [pin('P', G), pin('P', None)]
    s2 = seeds2(fld)

    def kpt(X, n, kind):
        if kind == 'i':
            z = Poly.const(MOD[fld], 0)
            return Pt(z, z, z + 1)
        if kind == 'c':
            return Pt(X(n + '.x'), X(n + '.y'), Poly.const(MOD[fld], 0))
        return pt(X, n)
    # witness: any satisfying assignment is a curve point or the flagged identity
    def wit(X):
        P = pt(X, 'P')
        return [Case('pt', [P.f], [], [oncurve(fld, P)], False), Case('id', [P.f - 1], [], [P.x, P.y], False),
                Case('bit', [], [], [P.f * (P.f - 1)], False),
                Case('honest pt', [P.f, oncurve(fld, P)], [], []), Case('honest id', is_id(P), [], [])]
    gs.append(Gadget(fld, 'pt', ['none', 'w'], s1, wit, ['P.id'], label=f'witness/{fld}'))
    for k in (['v', 'i', 'c'] if tier == 'quick' else ['v', 'i', 'c', 'm']):
        b = ['P.id'] if k in 'vm' else []
        sd = s1 if k in 'vm' else s1[:1]
        gs.append(Gadget(fld, 'pt', ['double', k], sd, lambda X, k=k: double_cases(fld, kpt(X, 'P', k), pt(X, 'R')), b))
    def filt(kp, kq):
        r = []
        for s in s2:
            if kp in 'ci' and s['P.id'] == 1 or kq in 'ci' and s['Q.id'] == 1:
                continue
            r.append(s)
        return r
    kinds = [('v', 'v'), ('i', 'v'), ('v', 'c')]
    if tier != 'quick':
        kinds += [('c', 'v'), ('v', 'i'), ('m', 'v'), ('v', 'm'), ('c', 'c'), ('w', 'w')]
    for kp, kq in kinds:
        b = (['P.id'] if kp in 'vmw' else []) + (['Q.id'] if kq in 'vmw' else [])
        gs.append(Gadget(fld, 'pt', ['add', kp, kq], filt(kp, kq),
                         lambda X, kp=kp, kq=kq: add_cases(fld, kpt(X, 'P', kp), kpt(X, 'Q', kq), pt(X, 'R')), b))
    gs.append(Gadget(fld, 'pt', ['add', 'v', 'same'], s1,
                     lambda X: [Case('O+O', is_id(pt(X, 'P')), [], is_id(pt(X, 'R'))),
                                Case('P+P', [X('P.id'), oncurve(fld, pt(X, 'P'))], [], tangent(pt(X, 'R'), pt(X, 'P')) + [X('R.id')])],
                     ['P.id']))

    def inc(X):
        P, Q, R = pt(X, 'P'), pt(X, 'Q'), pt(X, 'R')
        return [Case('P+Q', [P.f, Q.f, oncurve(fld, P), oncurve(fld, Q)], [P.x - Q.x], chord(R, P, Q) + [R.f]),
                Case('O+O', is_id(P) + is_id(Q), [], [R.f - 1])]
    gs.append(Gadget(fld, 'pt', ['addinc', 'v', 'v'], s2[:4], inc, ['P.id', 'Q.id']))

    def dba(X):
        P, Q, R = pt(X, 'P'), pt(X, 'Q'), pt(X, 'R')
        # T = P + Q is introduced by its (cleared) chord equations; T != +-P
        m = MOD[fld]
        dx, dy = Q.x - P.x, Q.y - P.y
        # Tx*dx^2 = dy^2 - (px+qx)dx^2
        inv = Poly.var(m, 's:inv')
        l1 = dy * inv
        Tx = l1 * l1 - P.x - Q.x
        Ty = l1 * (P.x - Tx) - P.y
        T = Pt(Tx, Ty, P.f)
        return [Case('2P+Q', [P.f, Q.f, oncurve(fld, P), oncurve(fld, Q), dx * inv - 1], [T.x - P.x], chord(R, T, P) + [R.f]),
                Case('O+O', is_id(P) + is_id(Q), [], [R.f - 1])]
    gs.append(Gadget(fld, 'pt', ['dbladd', 'v', 'v'], s2[:4], dba, ['P.id', 'Q.id']))
    for cond in (['i'] if tier == 'quick' else ['i', 'n', '0', '1']):
        def ac(X, cond=cond):
            P, Q, R, c = pt(X, 'P'), pt(X, 'Q'), pt(X, 'R'), cnd(X, cond)
            cs = with_cond(add_cases(fld, P, Q, R), c, 1, 'c')
            for lp, ep, _ in valid(fld, P):
                for lq, eq, _ in valid(fld, Q):
                    cs.append(Case(f'c0:{lp},{lq}', [c] + ep + eq, [], same(R, P)))
            return cs

        def cnd(X, cond):
            m = MOD[fld]
            if cond in '01':
                return Poly.const(m, int(cond))
            return X('b') if cond == 'i' else 1 - X('b')

        def aci(X, cond=cond):
            P, Q, R, c = pt(X, 'P'), pt(X, 'Q'), pt(X, 'R'), cnd(X, cond)
            base = [P.f, Q.f, oncurve(fld, P), oncurve(fld, Q)]
            return [Case('c1', base + [c - 1], [P.x - Q.x], chord(R, P, Q) + [R.f]),
                    Case('c0', base + [c], [P.x - Q.x], [R.x - P.x, R.y - P.y, R.f])]
        sb = [{**s, 'b': v} for s in s2 for v in (0, 1)]
        bb = ['b'] if cond in 'in' else []
        gs.append(Gadget(fld, 'pt', ['addcond', 'v', 'v', cond], sb, ac, ['P.id', 'Q.id'] + bb))
        gs.append(Gadget(fld, 'pt', ['addcondinc', 'v', 'v', cond], sb[:2], aci, ['P.id', 'Q.id'] + bb))
        s1b = [{**s, 'b': v} for s in s1 for v in (0, 1)]

        def en(X, cond=cond):
            P, R, c = pt(X, 'P'), pt(X, 'R'), cnd(X, cond)
            beta = BETA[fld]
            return [Case(f'{l}{v}', e + [c - v], [], [R.x - (P.x * beta if v else P.x), R.y - P.y, R.f - P.f])
                    for l, e, _ in valid(fld, P) for v in (0, 1)]

        def ng(X, cond=cond):
            P, R, c = pt(X, 'P'), pt(X, 'R'), cnd(X, cond)
            return [Case(f'{l}{v}', e + [c - v], [], [R.x - P.x, R.y - (-P.y if v else P.y), R.f - P.f])
                    for l, e, _ in valid(fld, P) for v in (0, 1)]
        gs.append(Gadget(fld, 'pt', ['endo', 'v', cond], s1b, en, ['P.id'] + bb))
        gs.append(Gadget(fld, 'pt', ['neg', 'v', cond], s1b, ng, ['P.id'] + bb))
    gs.append(Gadget(fld, 'pt', ['get_xy', 'v'], s1, lambda X: [
        Case(l, e, [], [X('gx') - X('P.x'), X('gy') - X('P.y')]) for l, e, _ in valid(fld, pt(X, 'P'))], ['P.id']))
    return gs


# the published endomorphism constants (their relation to scalars is C09)
BETA = {}


def check(ck):
    build.build()
    BETA.update({k: int(v, 16) for k, v in build.run(['consts'])['beta'].items()})
    gs = [g for f in 'pq' for g in gadgets(f, ck.tier)]
    rep = Report()
    tl = 60 if ck.tier == 'quick' else 300
    run_sound(gs, rep, tl)
    run_complete(gs, rep, tl)
    ck.absorb(rep)
    ck.functions = ['gadgets::ecc::CurvePoint::{witness,identity,constant,get_xy,conditional_endo,conditional_neg,add,'
                    'add_incomplete,double,double_and_add_incomplete,add_conditionally,add_conditionally_incomplete}',
                    'gadgets::num', 'gadgets::boolean::AllocatedBit::alloc', 'synthesis::Basic']
    ck.bounds = ['all field values of both 255-bit fields; all flag values; operand kinds ' + ck.tier]
    ck.assumptions = ['input points are on the curve or the flagged (0,0) identity',
                      '/verif/ffsolve decides the finite-field queries; the harness field type stands in for Fp/Fq (their arithmetic is C01)']
