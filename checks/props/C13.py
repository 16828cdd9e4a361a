"""Challenge scalars: the decoding rule, that it is injective and never zero."""
import random, time
import z3
from lib import irbuild
from lib.bv import Unsupported
from lib.fe import FECheck, FExec, FE
from lib.ir import Panic, explore
from lib.poly import Poly, MOD
from lib.z3q import lemma, note


def rule(beta, m, c):
    """the reference, concretely"""
    acc = 3
    for i in range(1, 64):
        acc = 2 * acc + (-1 if c >> 2 * i & 1 else 1)
        if c >> 2 * i + 1 & 1:
            acc = acc * beta
    return acc % m


def lemmas(ck):
    """The rule over Z[w], w^2 + w + 1 = 0 (w maps to the cube root of unity of the field)."""
    def step(u, v, b, e):
        x, y = 2 * u + z3.If(b, -1, 1), 2 * v
        return z3.If(e, -y, x), z3.If(e, x - y, y)

    def cls(u, v):
        return z3.Or(z3.And(u % 2 == 1, v % 2 == 0), z3.And(u % 2 == 0, v % 2 == 1))
    u, v, U, V = z3.Ints('u v U V')
    b, e, b2, e2 = z3.Bools('b e b2 e2')
    x, y = step(u, v, b, e)
    lemma(ck, 'the parity class is preserved', cls(u, v), z3.Not(cls(x, y)))
    lemma(ck, 'the start is in the parity class', z3.Not(cls(z3.IntVal(3), z3.IntVal(0))))
    X, Y = step(U, V, b2, e2)
    lemma(ck, 'one step is injective on the parity class', cls(u, v), cls(U, V), x == X, y == Y, z3.Or(u != U, v != V, b != b2, e != e2))
    lemma(ck, 'no member of the class is zero', cls(u, v), u == 0, v == 0)
    a, c, B = z3.Reals('a c B')
    N = lambda p, q: p * p - p * q + q * q  # noqa: E731
    for sg in (1, -1):
        lemma(ck, f'norm growth {sg}', B >= 0, N(a, c) <= B * B, N(2 * a + sg, 2 * c) > (2 * B + 1) * (2 * B + 1))
    lemma(ck, 'multiplication by w keeps the norm', N(-c, a - c) != N(a, c))
    d, g = z3.Reals('d g')
    lemma(ck, 'norm of a difference', B >= 0, N(a, c) <= B * B, N(d, g) <= B * B, N(a - d, c - g) > 4 * B * B)
    # 63 steps from |3|: |acc| <= 2^65 - 1; a nonzero multiple of a prime above p has norm >= p
    n = z3.Int('n')
    lemma(ck, 'differences stay below the modulus', n == 4 * (2 ** 65 - 1) ** 2, z3.Or(*[n >= m for m in MOD.values()]))


def check(ck):
    irbuild.build()
    mod, native = irbuild.load(), irbuild.native()
    fc = FECheck(ck, mod, native)
    beta = {f: fc.native(f'f{f}_beta', [], [('fe', f)])[0] for f in 'pq'}
    for f in 'pq':
        x = z3.Int("x")
        if (beta[f] ** 2 + beta[f] + 1) % MOD[f]:
            ck.violation(f'beta_{f}', f'f{f}: BETA = {beta[f]:#x} is not a primitive cube root of unity', {'beta': hex(beta[f])})
        lemma(ck, f'{f}: the endomorphism constant is a primitive cube root of unity', x == beta[f], z3.Or((x * x + x + 1) % MOD[f] != 0, x == 1))
    lemmas(ck)
    rnd = random.Random(2)
    probes = [0, 1, 2, 3, (1 << 128) - 1, 1 << 127, 1 << 126, 1 << 2, 1 << 3, (1 << 128) // 3, 2 * ((1 << 128) // 3)]
    probes += [rnd.getrandbits(128) for _ in range(20)] + [1 << 128, (1 << 254) + 5]
    for src in 'pq':
        for dst in 'pq':
            fn = f'chal_{src}{dst}'

            def judge(c):
                got = fc.native(fn, [('fe', src, c)], [('fe', dst)])[0]
                want = rule(beta[dst], MOD[dst], c)
                if got != want:
                    return f'challenge {c:#x} decodes to {got:#x}, the rule gives {want:#x}'

            def find(cands):
                for c in cands:
                    msg = judge(c % MOD[src])
                    if msg:
                        ck.violation(fn, msg, {'challenge': hex(c % MOD[src]), 'result': msg})
                        return True
                return False
            box = {}

            def make(pre):
                ex = FExec(mod, pre, merge=('get_challenge_scalar',))
                ex.affine = dst
                a, o = ex.mem.alloc(32), ex.mem.alloc(32)
                # keep the challenge itself opaque: only its bits are looked at
                c = Poly.var(MOD[src], 'c')
                bits = ex.bits(src, c)
                ex.store(a, 32, FE(src, c))
                box[id(ex)] = (a, o, bits)
                return ex

            def go(ex):
                a, o, bits = box[id(ex)]
                ex.call(fn, [a, o])
                r = ex.fe(dst, o)
                S = ex.store_of(dst)
                bit = [S.var(next(iter(b.p))[0]) if not isinstance(b, int) else S.const(b) for b in bits[:128]]
                acc = S.const(3)
                for i in range(1, 64):
                    acc = acc + acc + 1 - bit[2 * i] - bit[2 * i]
                    acc = acc * (bit[2 * i + 1] * (beta[dst] - 1) + 1)
                return r, acc, bits
            try:
                for ex, r in explore(make, go):
                    fc.used |= ex.used
                    fc.steps += ex.steps
                    fc.paths += 1
                    ck.obl += 1
                    if isinstance(r, Panic):
                        if not find(probes):
                            ck.inconclusive.append([fn, 'panics on some path'])
                        continue
                    got, want, bits = r
                    d = got - want
                    t = time.time()
                    w = d.witness()
                    note('sat' if w else 'unsat', time.time() - t)
                    ck.extra['decision_diagram_nodes'] = ck.extra.get('decision_diagram_nodes', 0) + len(ex.store_of(dst).nodes)
                    if w is None:
                        ck.dis += 1
                        continue
                    c = 0
                    for i, b in enumerate(bits):
                        if not isinstance(b, int):
                            c |= w.get(next(iter(b.p))[0], ex.dom.assign.get(next(iter(b.p))[0], 0)) << i
                    if not find([c] + probes):
                        ck.inconclusive.append([fn, 'difference did not replay'])
            except Unsupported as e:
                ck.obl += 1
                if not find(probes):
                    ck.inconclusive.append([fn, f'outside the interpreter: {e}'])
    fc.finish()
    ck.bounds = ['none: all 63 digit pairs unrolled, every value of the lower 128 bits']
    ck.assumptions += ['get_lower_128 returns the low 128 bits of the canonical value (C02); field operations by contract (C01)',
                       'nonzero elements of the kernel of Z[w] -> F have norm divisible by the prime modulus (norm identity)']
