"""Group-law specification of curve-point gadgets as polynomial cases."""
from .poly import Poly, MOD
from .ecp import B
from .gadget import Case


class Pt:
    def __init__(self, x, y, f):
        self.x, self.y, self.f = x, y, f


def pt(X, n):
    return Pt(X(n + '.x'), X(n + '.y'), X(n + '.id'))


def oncurve(fld, P):
    return P.y * P.y - P.x ** 3 - B[fld]


def valid(fld, P):
    """[(label, eqs, nes)]: P is the flagged identity (0,0) or an affine curve point"""
    return [('id', [P.f - 1, P.x, P.y], []), ('pt', [P.f, oncurve(fld, P)], [])]


def is_id(R):
    return [R.x, R.y, R.f - 1]


def same(R, P):
    return [R.x - P.x, R.y - P.y, R.f - P.f]


def chord(R, P, Q):
    """R = P + Q for affine P, Q with different x"""
    dx, dy = Q.x - P.x, Q.y - P.y
    return [(R.x + P.x + Q.x) * dx * dx - dy * dy, (R.y + P.y) * dx - dy * (P.x - R.x)]


def tangent(R, P):
    n, d = P.x * P.x * 3, P.y * 2
    return [(R.x + P.x * 2) * d * d - n * n, (R.y + P.y) * d - n * (P.x - R.x)]


def add_cases(fld, P, Q, R, complete=True):
    vp = dict((l, (e, n)) for l, e, n in valid(fld, P))
    vq = dict((l, (e, n)) for l, e, n in valid(fld, Q))
    both = vp['pt'][0] + vq['pt'][0]
    return [
        Case('O+O', vp['id'][0] + vq['id'][0], [], is_id(R), complete),
        Case('O+Q', vp['id'][0] + vq['pt'][0], [], same(R, Q), complete),
        Case('P+O', vp['pt'][0] + vq['id'][0], [], same(R, P), complete),
        Case('P+Q', both, [P.x - Q.x], chord(R, P, Q) + [R.f], complete),
        Case('P+P', both + [P.x - Q.x, P.y - Q.y], [], tangent(R, P) + [R.f], complete),
        Case('P-P', both + [P.x - Q.x, P.y + Q.y], [], is_id(R), complete),
    ]


def double_cases(fld, P, R):
    vp = dict((l, e) for l, e, n in valid(fld, P))
    return [Case('2O', vp['id'], [], is_id(R)), Case('2P', vp['pt'], [], tangent(R, P) + [R.f])]


def with_cond(cs, cond, v, tag):
    return [Case(f'{tag}{v}:{c.label}', [cond - v] + c.eqs, c.nes, c.concl, c.complete) for c in cs]
