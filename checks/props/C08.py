"""Point encodings and affine conversions."""
import random
from lib import irbuild, ecp
from lib.fe import FECheck, BASE
from lib.poly import Poly, MOD
from .C06 import shapes, affine, valid, samples2, reps, result_goals


def decide_all(ex, w):
    """fix every bit that the word still depends on"""
    w = ex.dom.subst(w)
    if not isinstance(w, int) and len({i for k in w.p for i in k}) > 6:
        return w
    while not isinstance(w, int):
        i = min(i for k in w.p for i in k)
        ex.decide(ex.dom.mk({(i,): 1}))
        w = ex.dom.subst(w)
    return w


def round_goals(f):
    def goals(ex, ins, outs):
        if outs is None:
            yield 'no panic', f, [], []
            return
        A = ins[0]
        out, flag = outs
        m = MOD[f]
        x1, y1 = Poly.var(m, 'x1'), Poly.var(m, 'y1')
        for t, e, n in shapes(f, *A, x1, y1):
            if flag == 0:
                yield f'decoding rejects the encoding of {t}', f, e, n
                continue
            yield from result_goals(f, t, e, n, out, None if t == 'O' else {'rel': lambda X, Y, Z: [X - x1 * Z, Y - y1 * Z]})
    return goals


def re_post(ex, ins, outs):
    out, flag, w = outs
    if flag == 1:
        outs[2] = decide_all(ex, ex.dom.isub(w, ex.bitsum(ins[0])))


def re_goals(f):
    def goals(ex, ins, outs):
        if outs is None:
            yield 'no panic', f, [], []
            return
        out, flag, diff = outs
        if flag != 1:
            return
        m = MOD[f]
        yield 'reach accepted', f, [], []
        if diff != 0:
            yield 're-encoding differs', f, [], []
        X, Y, Z = out
        yield 'decoded point is not on the curve', f, [], [Y * Y * Z - X ** 3 - Z ** 3 * ecp.B[f]]
        yield 'decoded point is (0,0,0)', f, [X, Y, Z], []
    return goals


def getxy_goals(f):
    def goals(ex, ins, outs):
        if outs is None:
            yield 'no panic', f, [], []
            return
        A = ins[0]
        x, y, flag = outs
        m = MOD[f]
        x1, y1 = Poly.var(m, 'x1'), Poly.var(m, 'y1')
        for t, e, n in shapes(f, *A, x1, y1):
            yield f'reach {t}', f, e, n
            if flag != (t == 'P'):
                yield f'get_xy on {t} returns {flag}', f, e, n
            elif flag:
                yield 'x', f, e, n + [x - x1]
                yield 'y', f, e, n + [y - y1]
    return goals


def fromxy_goals(f):
    def goals(ex, ins, outs):
        if outs is None:
            yield 'no panic', f, [], []
            return
        x, y = ins
        out, flag = outs
        on = y * y - x ** 3 - ecp.B[f]
        if flag == 0:
            yield 'reach rejected', f, [], [on, x]
            yield 'curve point rejected', f, [on], []
            yield '(0,0) rejected', f, [x, y], []
        else:
            yield 'reach accepted', f, [on], []
            yield 'reach (0,0)', f, [x, y], []
            X, Y, Z = out
            yield 'off-curve pair accepted (x)', f, [], [on, x]
            yield 'off-curve pair accepted (y)', f, [], [on, y]
            yield 'accepted point: x', f, [on], [X - x * Z]
            yield 'accepted point: y', f, [on], [Y - y * Z]
            yield 'accepted point is not finite', f, [on, Z], []
            for i, p in enumerate((X, Z)):
                yield f'(0,0) is not the identity {i}', f, [x, y], [p]
            yield '(0,0) is not the identity y', f, [x, y, Y], []
    return goals


def unchecked_goals(f):
    def goals(ex, ins, outs):
        if outs is None:
            yield 'no panic', f, [], []
            return
        x, y = ins
        X, Y, Z = outs[0]
        yield 'x', f, [], [X - x * Z]
        yield 'y', f, [], [Y - y * Z]
        yield 'finite', f, [Z], []
    return goals


def on_goals(f):
    def goals(ex, ins, outs):
        if outs is None:
            yield 'no panic', f, [], []
            return
        X, Y, Z = ins[0]
        on = Y * Y * Z - X ** 3 - Z ** 3 * ecp.B[f]
        if outs[0] == 1:
            yield 'off-curve point accepted', f, [], [on, Z]
        else:
            yield 'curve point rejected', f, [on], []
            yield 'identity rejected', f, [Z, X], [Y]
    return goals


def byte_samples(f):
    def g():
        rnd = random.Random(5)
        m = MOD[f]
        ints = [0, 1 << 255, m, m | 1 << 255, m - 1, m + 1, (1 << 255) - 1, (1 << 256) - 1, 1, 2, 1 | 1 << 255]
        for k in range(6):
            x, y = ecp.point(f, k)
            for s in (0, 1):
                ints += [x | s << 255] + ([x + m | s << 255] if x + m < 1 << 255 else [])
        ints += [rnd.getrandbits(256) for _ in range(30)]
        for i in ints:
            yield {'bytes': i}
    return g


def xy_samples(f):
    def g():
        rnd = random.Random(6)
        m = MOD[f]
        for k in range(4):
            x, y = ecp.point(f, k)
            for a, b in ((x, y), (x, m - y), (x, (y + 1) % m), (0, y), (x, 0), (0, 0), (rnd.randrange(m), rnd.randrange(m))):
                yield {'x': a, 'y': b}
    return g


def check(ck):
    irbuild.build()
    fc = FECheck(ck, irbuild.load(), irbuild.native())
    for c, f in BASE.items():
        m = MOD[f]

        def pt(v, n='A'):
            return tuple(v.get(n + s, 0) for s in 'XYZ')

        def jround(v, c=c, f=f):
            a = pt(v)
            if not valid(f, a):
                return None
            P = affine(f, a)
            got, flag = fc.native(f'{c}_roundtrip', [('pt', c, a)], [('pt', c), ('u', 1)])
            if flag != 1 or not valid(f, got) or affine(f, got) != P:
                return f'decoding the encoding gives {flag} {[hex(x) for x in got]}'

        def jbytes(v, c=c, f=f):
            b = v.get('bytes')
            if b is None:
                return None
            got, flag, w = fc.native(f'{c}_reencode', [('u', 32, b)], [('pt', c), ('u', 1), ('u', 32)])
            if flag and (not valid(f, got) or w != b):
                return f'from_bytes({b:#x}) gives {[hex(x) for x in got]}, re-encoded {w:#x}'

        def jget(v, c=c, f=f):
            a = pt(v)
            if not valid(f, a):
                return None
            x, y, flag = fc.native(f'{c}_get_xy', [('pt', c, a)], [('fe', f), ('fe', f), ('u', 1)])
            P = affine(f, a)
            if flag != (P is not None) or (P and (x, y) != P):
                return f'get_xy gives {flag} {x:#x} {y:#x}'

        def jfrom(v, c=c, f=f, m=m):
            x, y = v.get('x', 0), v.get('y', 0)
            got, flag = fc.native(f'{c}_from_xy', [('fe', f, x), ('fe', f, y)], [('pt', c), ('u', 1)])
            want = ecp.on(f, x, y) or (x == y == 0)
            if flag != want or flag and (not valid(f, got) or affine(f, got) != (None if x == y == 0 else (x, y))):
                return f'from_xy({x:#x},{y:#x}) gives {flag} {[hex(t) for t in got]}'

        def junch(v, c=c, f=f):
            x, y = v.get('x', 0), v.get('y', 0)
            got = fc.native(f'{c}_from_xy_unchecked', [('fe', f, x), ('fe', f, y)], [('pt', c)])[0]
            if not got[2] or affine(f, got) != (x, y):
                return f'from_xy_unchecked({x:#x},{y:#x}) gives {[hex(t) for t in got]}'

        def jon(v, c=c, f=f):
            a = pt(v)
            got = fc.native(f'{c}_on_curve', [('pt', c, a)], [('u', 1)])[0]
            want = valid(f, a)
            if a[2] == 0 and not want:
                return None
            return None if got == want else f'is_on_curve gives {got}'

        def on_samples(f=f):
            yield from samples2(f, 'A')()
            rnd = random.Random(9)
            for _ in range(5):
                yield {'A' + s: rnd.randrange(1, MOD[f]) for s in 'XYZ'}
        P = [('pt', c, 'A')]
        fc.check(f'{c} decode(encode(P)) = P', f'{c}_roundtrip', P, [('pt', c), ('u', 1)], round_goals(f), jround, samples=samples2(f, 'A'))
        fc.check(f'{c} encode(decode(bytes)) = bytes', f'{c}_reencode', [('bytes', 32, 'b')], [('pt', c), ('u', 1), ('u', 32)], re_goals(f), jbytes,
                 samples=byte_samples(f), post=re_post)
        fc.check(f'{c}_get_xy', f'{c}_get_xy', P, [('fe', f), ('fe', f), ('u', 1)], getxy_goals(f), jget, samples=samples2(f, 'A'))
        fc.check(f'{c}_from_xy', f'{c}_from_xy', [('fe', f, 'x'), ('fe', f, 'y')], [('pt', c), ('u', 1)], fromxy_goals(f), jfrom, samples=xy_samples(f))
        fc.check(f'{c}_from_xy_unchecked', f'{c}_from_xy_unchecked', [('fe', f, 'x'), ('fe', f, 'y')], [('pt', c)], unchecked_goals(f), junch, samples=xy_samples(f))
        fc.check(f'{c}_on_curve', f'{c}_on_curve', P, [('u', 1)], on_goals(f), jon, samples=on_samples)
    fc.finish()
    ck.bounds = ['none on values: all points and projective representations, all 2^256 byte strings']
    ck.assumptions = ['field operations, inversion, square root and field encodings as decided by C01-C04',
                      'LLVM IR at opt-level 0 of this run; rustc code generation']
