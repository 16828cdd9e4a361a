"""Inner-product folding helpers agree with their definitions."""
from lib import build
from lib.fncheck import Fn, run_fns
from lib.poly import Poly


def sd(*specs):
    out = {}
    k = 2
    for nm, n in specs:
        for i in range(n):
            out[f'{nm}{i}' if n is not None else nm] = k
            k += 3
    return out


def S(*names, **vecs):
    d, k = {}, 2
    for n in names:
        d[n] = k
        k += 3
    for n, l in vecs.items():
        for i in range(l):
            d[f'{n}{i}'] = k
            k += 3
    return [d]


def inner(n):
    def go(r):
        s = r.c(0)
        for i in range(n):
            s = s + r.i(f'a{i}') * r.i(f'b{i}')
        return r.eq('inner product', r.v('o'), s)
    return go


def b_spec(k):
    """fold (1, x, ..., x^(2^k - 1)) with each challenge in turn: lo * inv + hi * challenge"""
    def go(r):
        x = r.i('x')
        b = [r.c(1)]
        for _ in range((1 << k) - 1):
            b.append(b[-1] * x)
        for j in range(k):
            h = len(b) // 2
            c, d = r.i(f'c{j}'), r.i(f'd{j}')
            b = [b[i] * d + b[i + h] * c for i in range(h)]
        return r.eq('folded b', r.v('o'), b[0])
    return go


def gc(r, k):
    """coefficient of generator i: allinv times the squared challenge of every round in which i was in the upper half"""
    out = []
    for i in range(1 << k):
        s = r.i('all')
        for j in range(k):
            if (i >> (k - 1 - j)) & 1:
                s = s * r.i(f'c{j}')
        out.append(s)
    return out


def gcoeffs(k):
    def go(r):
        if int(r.notes['len o']) != 1 << k:
            return [('number of coefficients', [], [])]
        ob = []
        for i, w in enumerate(gc(r, k)):
            ob += r.eq(f'coefficient {i}', r.v(f'o{i}'), w)
        return ob
    return go


def gfor(k):
    return lambda r: r.geq('folded generator', 'o', {f'G{i}': w for i, w in enumerate(gc(r, k))})


def collapse(n):
    def go(r):
        ob = []
        for i in range(n // 2):
            ob += r.geq(f'generator {i}', f'o{i}', {f'G{i}': r.i('d'), f'G{i + n // 2}': r.i('c')})
        return ob
    return go


def commit(k, n, edge):
    def go(r):
        d = 1 << k
        off = d - n if edge else 0
        return r.geq('commitment', 'o', {f'G{off + i}': r.i(f'a{i}') for i in range(n)})
    return go


def opening(k, n, edge):
    def go(r):
        off = (1 << k) - n if edge else 0
        s = r.c(0)
        for i in range(n):
            s = s + r.i(f'a{i}') * r.i('x') ** (off + i)
        return r.eq('opening', r.v('o'), s)
    return go


def check(ck):
    build.build()
    q = ck.tier == 'quick'
    fs = []
    for f in 'pq':
        for n in range(0, 7 if q else 20):
            fs.append(Fn(f, 'inner', [n], S(a=n, b=n), inner(n)))
        for k in range(1, 6 if q else 8):
            fs.append(Fn(f, 'computeb', [k], S('x', c=k, d=k), b_spec(k)))
        for k in range(0, 6 if q else 9):
            fs.append(Fn(f, 'gcoeffs', [k], S('all', c=k), gcoeffs(k)))
        for k in range(0, 4 if q else 6):
            fs.append(Fn(f, 'gfor', [k], S('all', c=k), gfor(k), cpus=1 << k))
        for n in ([2, 4, 6, 8, 16, 32] if q else range(2, 66, 2)):
            for c in [1, 2, 3, 4, 8] if q else [1, 2, 3, 4, 5, 6, 7, 8, 16, 32]:
                fs.append(Fn(f, 'collapse', [n], S('c', 'd'), collapse(n), cpus=c))
        for k in [4] if q else [4, 5]:
            for n in ([0, 1, 3, 8, 15, 16] if q else range(0, (1 << k) + 1)):
                for e in (0, 1):
                    fs.append(Fn(f, 'commit', [k, n, e], S(a=n), commit(k, n, e), cpus=64))
                    fs.append(Fn(f, 'opening', [k, n, e], S('x', a=n), opening(k, n, e)))
    run_fns(fs, ck)
    ck.functions = ['compute_inner_product', 'parallel_generator_collapse', 'compute_b', 'compute_g_coeffs_for_inner_product',
                    'compute_g_for_inner_product', 'Params::commit', 'Params::compute_opening']
    ck.bounds = ['vectors up to %d entries, up to %d rounds; every value of every entry, challenge and point; several CPU counts' % (32, 5 if q else 8)]
    ck.assumptions = ['group elements are formal combinations of independent generators (the group law is C06/C09)', 'num_cpus is a stand-in',
                      'multiexp beyond the CPU count is C10', 'the harness field stands in for Fp/Fq (C01)', '/verif/ffsolve decides the finite-field queries']
