"""Point equality, zero test and conditional selection, on every projective representation."""
from lib import irbuild
from lib.fe import FECheck, BASE
from lib.poly import Poly, MOD
from .C06 import shapes, affine, valid, samples2


def eq_goals(f, neg):
    def goals(ex, ins, outs):
        if outs is None:
            yield 'no panic', f, [], []
            return
        A, B = ins
        v = outs[0]
        if v not in (0, 1):
            yield 'flag is 0 or 1', f, [], []
            return
        v ^= neg
        m = MOD[f]
        x1, y1, x2, y2 = (Poly.var(m, n) for n in ('x1', 'y1', 'x2', 'y2'))
        for ta, ea, na in shapes(f, *A, x1, y1):
            for tb, eb, nb in shapes(f, *B, x2, y2):
                e, n = ea + eb, na + nb
                if ta != tb:
                    yield f'reach {ta}{tb}', f, e, n
                    if v:
                        yield f'{ta}={tb} reported equal', f, e, n
                elif ta == 'O':
                    yield 'reach OO', f, e, n
                    if not v:
                        yield 'identity differs from identity', f, e, n
                elif v:
                    yield 'reach equal', f, e, n
                    yield 'different x reported equal', f, e, n + [x1 - x2]
                    yield 'different y reported equal', f, e, n + [y1 - y2]
                else:
                    yield 'reach different', f, e, n
                    yield 'equal points reported different', f, e + [x1 - x2, y1 - y2], n
    return goals


def zero_goals(f):
    def goals(ex, ins, outs):
        if outs is None or outs[0] not in (0, 1):
            yield 'no panic', f, [], []
            return
        A, v = ins[0], outs[0]
        m = MOD[f]
        for t, e, n in shapes(f, *A, Poly.var(m, 'x1'), Poly.var(m, 'y1')):
            yield f'reach {t}', f, e, n
            if v != (t == 'O'):
                yield f'zero test on {t}', f, e, n
    return goals


def sel_goals(f):
    def goals(ex, ins, outs):
        if outs is None:
            yield 'no panic', f, [], []
            return
        A, B, c = ins
        c = ex.dom.subst(c)
        if not isinstance(c, int):
            # the choice was never inspected
            yield 'selection ignores the choice', f, [], []
            return
        for i, (o, w) in enumerate(zip(outs[0], B if c else A)):
            yield f'coordinate {i} for choice {c}', f, [], [o - w]
    return goals


def check(ck):
    irbuild.build()
    fc = FECheck(ck, irbuild.load(), irbuild.native())
    for c, f in BASE.items():
        def pt(v, n):
            return tuple(v.get(n + s, 0) for s in 'XYZ')

        def jeq(v, fn, neg, c=c, f=f):
            a, b = pt(v, 'A'), pt(v, 'B')
            if not valid(f, a) or not valid(f, b):
                return None
            got = fc.native(fn, [('pt', c, a), ('pt', c, b)], [('u', 1)])[0]
            want = int((affine(f, a) == affine(f, b)) ^ neg)
            return None if got == want else f'{fn} gives {got}, want {want}'

        def jzero(v, c=c, f=f):
            a = pt(v, 'A')
            if not valid(f, a):
                return None
            got = fc.native(f'{c}_is_zero', [('pt', c, a)], [('u', 1)])[0]
            return None if got == (a[2] == 0) else f'is_zero gives {got}'

        def jsel(v, c=c, f=f):
            a, b = pt(v, 'A'), pt(v, 'B')
            for k in (0, 1):
                got = fc.native(f'{c}_select', [('pt', c, a), ('pt', c, b), ('u', 1, k)], [('pt', c)])[0]
                if tuple(got) != (b if k else a):
                    return f'select with choice {k} gives {[hex(x) for x in got]}'
        for n, neg in (('ct_eq', 0), ('eq', 0), ('ne', 1)):
            fn = f'{c}_{n}'
            fc.check(fn, fn, [('pt', c, 'A'), ('pt', c, 'B')], [('u', 1)], eq_goals(f, neg),
                     lambda v, fn=fn, neg=neg, j=jeq: j(v, fn, neg), samples=samples2(f, 'AB'))
        fc.check(f'{c}_is_zero', f'{c}_is_zero', [('pt', c, 'A')], [('u', 1)], zero_goals(f), jzero, samples=samples2(f, 'A'))
        fc.check(f'{c}_select', f'{c}_select', [('pt', c, 'A'), ('pt', c, 'B'), ('bool', 'choice')], [('pt', c)], sel_goals(f), jsel,
                 samples=samples2(f, 'AB'))
    fc.finish()
    ck.bounds = ['none on values: all pairs of points in every projective representation']
    ck.assumptions = ['field operations are exact (decided at word level by C01)', 'LLVM IR at opt-level 0 of this run; rustc code generation']
