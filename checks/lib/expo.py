"""Exponent-level interpretation: every field value is a power of the input, and its exponent is an
integer (a word polynomial over the bits of the exponent argument).  Multiplication adds exponents."""
from .bv import W, Unsupported
from .fe import TY, FExec, FE
from .ir import explore
from .poly import MOD
from .wordcheck import R


class PW:
    """a^e"""
    __slots__ = ('f', 'e')

    def __init__(self, f, e):
        self.f, self.e = f, e

    def part(self, ex, off, n):
        raise Unsupported('limbs of an abstract field element')

    def merge(self, ex, c, o):
        if isinstance(o, int):
            o = conv(ex, self.f, o)
        if not isinstance(o, PW):
            raise Unsupported('merge of a power with something else')
        return PW(self.f, ex.dom.ite(c, self.e, o.e))


def conv(ex, f, v):
    if isinstance(v, PW):
        if v.f != f:
            raise Unsupported('field mix-up')
        return v
    if isinstance(v, FE) and v.p.is_const() and v.p.constval() == 1:
        return PW(f, 0)
    if isinstance(v, int) and v * pow(R, -1, MOD[f]) % MOD[f] == 1:
        return PW(f, 0)
    raise Unsupported('value is not a power of the input')


def hooks(mod):
    h = {}
    for f, T in TY.items():
        m = MOD[f]

        def get(ex, a, f=f):
            return conv(ex, f, ex.load(a, 32))

        def b3(ex, a, pretty, f=f, get=get):
            ex.store(a[0], 32, PW(f, ex.dom.iadd(get(ex, a[1]).e, get(ex, a[2]).e)))

        def asg(ex, a, pretty, f=f, get=get):
            ex.store(a[0], 32, PW(f, ex.dom.iadd(get(ex, a[0]).e, get(ex, a[1]).e)))

        def sq(ex, a, pretty, f=f, get=get):
            ex.store(a[0], 32, PW(f, ex.dom.imul(get(ex, a[1]).e, 2)))

        def one(ex, a, pretty, f=f):
            ex.store(a[0], 32, PW(f, 0))

        def sel(ex, a, pretty, f=f, get=get):
            c = ex.dom.subst(a[3])
            ex.store(a[0], 32, PW(f, ex.dom.ite(c, get(ex, a[2]).e, get(ex, a[1]).e)))

        def casg(ex, a, pretty, f=f, get=get):
            c = ex.dom.subst(a[2])
            ex.store(a[0], 32, PW(f, ex.dom.ite(c, get(ex, a[1]).e, get(ex, a[0]).e)))

        def no(ex, a, pretty):
            raise Unsupported(f'{pretty} on a power')

        def isz(ex, a, pretty, f=f, get=get):
            # any power of the input with positive exponent is zero exactly when the input is
            e = get(ex, a[-1]).e
            if not isinstance(e, int) or e <= 0:
                raise Unsupported('zero test of a symbolic power')
            return ex.choose(('zero', f))

        def eqz(neg, f=f, isz=isz):
            def g(ex, a, pretty):
                if pretty.startswith('<&'):
                    a = [ex.load(x, 8) for x in a]
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    v = ex.load(y, 32)
                    if isinstance(v, FE) and v.p.is_const() and v.p.is_zero() or v == 0:
                        return isz(ex, [x], pretty) ^ neg
                raise Unsupported('comparison of powers')
            return g
        h[f'<{T} as subtle::ConstantTimeEq>::ct_eq'] = eqz(0)
        for l in (T, '&' + T):
            h[f'<{l} as core::cmp::PartialEq>::eq'] = eqz(0)
            h[f'<{l} as core::cmp::PartialEq>::ne'] = eqz(1)
        h[f'<{T}>::mul'] = b3
        for l in (T, '&' + T):
            for r in ('', f'<{T}>', f'<&{T}>'):
                h[f'<{l} as core::ops::arith::Mul{r}>::mul'] = b3
                for o in ('Add', 'Sub'):
                    h[f'<{l} as core::ops::arith::{o}{r}>::{o.lower()}'] = no
        for r in ('', f'<&{T}>'):
            h[f'<{T} as core::ops::arith::MulAssign{r}>::mul_assign'] = asg
        h[f'<{T}>::square'] = h[f'<{T} as halo::fields::Field>::square'] = sq
        for n in (f'<{T}>::one', f'<{T} as halo::fields::Field>::one'):
            h[n] = one
        for n in (f'<{T}>::add', f'<{T}>::sub', f'<{T}>::double', f'<{T}>::neg'):
            h[n] = no
        h[f'<{T} as subtle::ConditionallySelectable>::conditional_select'] = sel
        h[f'<{T} as subtle::ConditionallySelectable>::conditional_assign'] = casg
        h[f'<{T} as halo::fields::Field>::is_zero'] = isz
    return h


class EExec(FExec):
    def __init__(self, mod, prefix, merge=('pow',)):
        FExec.__init__(self, mod, prefix, opaque=(), extra=hooks(mod), merge=merge)


def run(mod, fn, mk, read):
    def make(pre):
        ex = EExec(mod, pre)
        ex.io = mk(ex)
        return ex

    def go(ex):
        ex.call(fn, ex.io[0])
        return read(ex)
    return explore(make, go)
