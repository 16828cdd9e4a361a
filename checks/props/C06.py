"""Group law of both curves on every projective representation."""
import itertools, random
from lib import irbuild, ecp, solver
from lib.fe import FECheck, BASE
from lib.poly import Poly, MOD


def affine(f, P):
    if P[2] == 0:
        return None
    i = pow(P[2], -1, MOD[f])
    return (P[0] * i % MOD[f], P[1] * i % MOD[f])


def valid(f, P):
    x, y, z = P
    return any(P) and (y * y * z - x ** 3 - ecp.B[f] * z ** 3) % MOD[f] == 0


def shapes(f, X, Y, Z, x, y):
    """case split of one operand: (tag, equations, disequations); affine coordinates x, y when finite"""
    return [('O', [X, Z], [Y]), ('P', [X - x * Z, Y - y * Z, y * y - x * x * x - ecp.B[f]], [Z])]


def reps(f, rnd):
    m = MOD[f]
    pts = [ecp.point(f, k) for k in range(4)]
    pts += [ecp.neg(f, P) for P in pts] + [None, ecp.add(f, pts[0], pts[1])]
    out = []
    for P in pts:
        for s in (1, rnd.randrange(2, m)):
            out.append((0, s, 0) if P is None else (P[0] * s % m, P[1] * s % m, s))
    return out


def samples2(f, names):
    def g():
        rnd = random.Random(3)
        rs = reps(f, rnd)
        for a in rs:
            for b in (rs if 'B' in names else [None]):
                v = dict(zip(('AX', 'AY', 'AZ'), a))
                if b:
                    v.update(zip(('BX', 'BY', 'BZ'), b))
                yield v
    return g


def result_goals(f, tag, hyp_e, hyp_n, out, want):
    """want: None (identity) or ('tangent'|'chord'|'same', ...)"""
    X3, Y3, Z3 = out
    yield f'reach {tag}', f, hyp_e, hyp_n
    if want is None:
        yield f'{tag}: identity', f, hyp_e, hyp_n + [X3]
        yield f'{tag}: identity z', f, hyp_e, hyp_n + [Z3]
        yield f'{tag}: identity y nonzero', f, hyp_e + [Y3], hyp_n
        return
    yield f'{tag}: finite', f, hyp_e + [Z3] + want.get('aux_e', []), hyp_n + want.get('aux_n', [])
    for i, p in enumerate(want['rel'](X3, Y3, Z3)):
        yield f'{tag}: value {i}', f, hyp_e, hyp_n + [p]


def two(f, A, B, out, neg=False):
    m = MOD[f]
    v = lambda n: Poly.var(m, n)
    x1, y1, x2, y2, tau = v('x1'), v('y1'), v('x2'), v('y2'), v('tau')
    if neg:
        y2v = -y2
    else:
        y2v = y2
    for ta, ea, na in shapes(f, *A, x1, y1):
        for tb, eb, nb in shapes(f, *B, x2, y2):
            e, n = ea + eb, na + nb
            sub = {}
            if ta == 'P':
                sub.update({'AX': x1 * A[2], 'AY': y1 * A[2]})
            else:
                sub.update({'AX': Poly(m), 'AZ': Poly(m)})
            if tb == 'P':
                sub.update({'BX': x2 * B[2], 'BY': y2 * B[2]})
            else:
                sub.update({'BX': Poly(m), 'BZ': Poly(m)})
            yield ta, tb, e, n, sub, x1, y1, x2, y2v, tau


def add_goals(f, neg):
    def goals(ex, ins, outs):
        if outs is None:
            yield 'no panic', f, [], []
            return
        A, B = ins
        out = outs[0]
        if any(o is None for o in out):
            return
        for ta, tb, e, n, sub, x1, y1, x2, y2, tau in two(f, A, B, out, neg):
            o = [p.subst(sub) for p in out]
            if ta == 'O' and tb == 'O':
                yield from result_goals(f, 'O+O', e, n, o, None)
            elif ta == 'O':
                yield from result_goals(f, 'O+Q', e, n, o, {'rel': lambda X, Y, Z: [X - x2 * Z, Y - y2 * Z]})
            elif tb == 'O':
                yield from result_goals(f, 'P+O', e, n, o, {'rel': lambda X, Y, Z: [X - x1 * Z, Y - y1 * Z]})
            else:
                dx, dy = x2 - x1, y2 - y1
                # tau: x coordinate of P - Q, which exists since the x coordinates differ
                aux = [tau * dx * dx - (y1 + y2) * (y1 + y2) + (x1 + x2) * dx * dx]
                yield from result_goals(f, 'P+Q', e, n + [dx], o, {
                    'aux_e': aux, 'rel': lambda X, Y, Z: [(X + (x1 + x2) * Z) * dx * dx - dy * dy * Z, (Y + y1 * Z) * dx - dy * (x1 * Z - X)]})
                nn, dd = x1 * x1 * 3, y1 * 2
                yield from result_goals(f, 'P+P', e + [dx, dy], n, o, {
                    'rel': lambda X, Y, Z: [(X + x1 * 2 * Z) * dd * dd - nn * nn * Z, (Y + y1 * Z) * dd - nn * (x1 * Z - X)]})
                yield from result_goals(f, 'P-P', e + [dx, y1 + y2], n, o, None)
    return goals


def same_pt(f, got, want):
    if not valid(f, got):
        return f'not a curve point: {[hex(v) for v in got]}'
    if affine(f, got) != want:
        return f'got {affine(f, got)}, want {want}'


def dbl_goals(f):
    def goals(ex, ins, outs):
        if outs is None:
            yield 'no panic', f, [], []
            return
        A, out = ins[0], outs[0]
        m = MOD[f]
        x1, y1 = Poly.var(m, 'x1'), Poly.var(m, 'y1')
        for t, e, n in shapes(f, *A, x1, y1):
            sub = {'AX': x1 * A[2], 'AY': y1 * A[2]} if t == 'P' else {'AX': Poly(m), 'AZ': Poly(m)}
            o = [p.subst(sub) for p in out]
            nn, dd = x1 * x1 * 3, y1 * 2
            yield from result_goals(f, '2' + t, e, n, o, None if t == 'O' else {
                'rel': lambda X, Y, Z: [(X + x1 * 2 * Z) * dd * dd - nn * nn * Z, (Y + y1 * Z) * dd - nn * (x1 * Z - X)]})
    return goals


def neg_goals(f):
    def goals(ex, ins, outs):
        if outs is None:
            yield 'no panic', f, [], []
            return
        A, out = ins[0], outs[0]
        m = MOD[f]
        x1, y1 = Poly.var(m, 'x1'), Poly.var(m, 'y1')
        for t, e, n in shapes(f, *A, x1, y1):
            yield from result_goals(f, '-' + t, e, n, out, None if t == 'O' else {'rel': lambda X, Y, Z: [X - x1 * Z, Y + y1 * Z]})
    return goals


def check(ck):
    irbuild.build()
    fc = FECheck(ck, irbuild.load(), irbuild.native())
    for c, f in BASE.items():
        def pt(v, n):
            return tuple(v.get(n + s, 0) for s in 'XYZ')

        def judge2(v, fn, sg, c=c, f=f):
            a, b = pt(v, 'A'), pt(v, 'B')
            if not valid(f, a) or not valid(f, b):
                return None
            got = fc.native(fn, [('pt', c, a), ('pt', c, b)], [('pt', c)])[0]
            B = affine(f, b)
            return same_pt(f, got, ecp.add(f, affine(f, a), ecp.neg(f, B) if sg else B))

        def judge1(v, fn, want, c=c, f=f):
            a = pt(v, 'A')
            if not valid(f, a):
                return None
            return same_pt(f, fc.native(fn, [('pt', c, a)], [('pt', c)])[0], want(affine(f, a)))
        for op in ('add', 'sub'):
            for k in ('vv', 'vr', 'rv', 'rr', 'av', 'ar'):
                fn = f'{c}_{op}_{k}'
                fc.check(fn, fn, [('pt', c, 'A'), ('pt', c, 'B')], [('pt', c)], add_goals(f, op == 'sub'),
                         lambda v, fn=fn, sg=(op == 'sub'), j=judge2: j(v, fn, sg), samples=samples2(f, 'AB'))
        fc.check(f'{c}_double', f'{c}_double', [('pt', c, 'A')], [('pt', c)], dbl_goals(f),
                 lambda v, c=c, f=f, j=judge1: j(v, f'{c}_double', lambda P: ecp.add(f, P, P)), samples=samples2(f, 'A'))
        for k in 'vr':
            fn = f'{c}_neg_{k}'
            fc.check(fn, fn, [('pt', c, 'A')], [('pt', c)], neg_goals(f),
                     lambda v, fn=fn, f=f, j=judge1: j(v, fn, lambda P: ecp.neg(f, P)), samples=samples2(f, 'A'))
    fc.finish()
    ck.bounds = ['none on values: all pairs of points (identity, generic, equal, opposite) in every projective representation']
    ck.assumptions = ['field operations are exact (decided at word level by C01)', 'LLVM IR at opt-level 0 of this run; rustc code generation']
