"""Group-level interpretation: point operations (decided by C06/C07) act on integer combinations of
base points whose coefficients are words over the scalar's bits; the multiplication loops above
them are interpreted instruction by instruction."""
from .bv import W, Unsupported
from .fe import BASE

CT = {'ec0': 'halo::curves::ec0::Ec0', 'ec1': 'halo::curves::ec1::Ec1'}
SIZE = 96


class G:
    """sum of coef * base"""

    def __init__(self, c, d):
        self.c, self.d = c, d

    def part(self, ex, off, n):
        raise Unsupported('coordinates of an abstract point')

    def merge(self, ex, c, o):
        return select(ex, c, o, self)


def combine(ex, a, b, s=1):
    d = dict(a.d)
    for k, v in b.d.items():
        d[k] = ex.dom.iadd(d.get(k, 0), v, s)
    return G(a.c, {k: v for k, v in d.items() if not (isinstance(v, int) and v == 0)})


def select(ex, c, a, b):
    """b if c else a"""
    c = ex.dom.subst(c)
    if isinstance(c, int):
        return b if c else a
    d = {}
    for k in set(a.d) | set(b.d):
        x, y = a.d.get(k, 0), b.d.get(k, 0)
        diff = ex.dom.isub(y, x)
        d[k] = x if isinstance(diff, int) and diff == 0 else ex.dom.iadd(x, ex.dom.imul(c, diff))
    return G(a.c, d)


def hooks(curves=('ec0', 'ec1')):
    h = {}
    for c in curves:
        T = CT[c]

        def get(ex, a, c=c):
            v = ex.load(a, SIZE)
            if isinstance(v, G):
                return v
            raise Unsupported('concrete point in group mode')

        def b3(s, get=get):
            def g(ex, a, pretty):
                ex.store(a[0], SIZE, combine(ex, get(ex, a[1]), get(ex, a[2]), s))
            return g

        def asg(s, get=get):
            def g(ex, a, pretty):
                ex.store(a[0], SIZE, combine(ex, get(ex, a[0]), get(ex, a[1]), s))
            return g
        for n, s in (('add', 1), ('sub', -1)):
            tr = n.capitalize()
            for l in (T, '&' + T):
                for r in ('', f'<{T}>', f'<&{T}>'):
                    h[f'<{l} as core::ops::arith::{tr}{r}>::{n}'] = b3(s)
            for r in ('', f'<&{T}>'):
                h[f'<{T} as core::ops::arith::{tr}Assign{r}>::{n}_assign'] = asg(s)

        def dbl(ex, a, pretty, get=get):
            v = get(ex, a[1])
            ex.store(a[0], SIZE, combine(ex, v, v))
        h[f'<{T} as halo::curves::Curve>::double'] = dbl

        def neg(ex, a, pretty, get=get, c=c):
            ex.store(a[0], SIZE, combine(ex, G(c, {}), get(ex, a[1]), -1))
        for l in (T, '&' + T):
            h[f'<{l} as core::ops::arith::Neg>::neg'] = neg

        def zero(ex, a, pretty, c=c):
            ex.store(a[0], SIZE, G(c, {}))
        h[f'<{T} as halo::curves::Curve>::zero'] = h[f'<{T} as core::default::Default>::default'] = zero

        def one(ex, a, pretty, c=c):
            ex.store(a[0], SIZE, G(c, {'gen': 1}))
        h[f'<{T} as halo::curves::Curve>::one'] = one

        def sel(ex, a, pretty, get=get):
            ex.store(a[0], SIZE, select(ex, a[3], get(ex, a[1]), get(ex, a[2])))
        h[f'<{T} as subtle::ConditionallySelectable>::conditional_select'] = sel

        def assign(ex, a, pretty, get=get):
            ex.store(a[0], SIZE, select(ex, a[2], get(ex, a[0]), get(ex, a[1])))
        h[f'<{T} as subtle::ConditionallySelectable>::conditional_assign'] = assign
    return h
