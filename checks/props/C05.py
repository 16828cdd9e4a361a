"""Published constants are what they claim."""
import z3
from lib import irbuild, ecp, solver, z3q
from lib.fe import FECheck, BASE, SCAL
from lib.poly import Poly, MOD
from lib.solver import Query
from .C06 import affine, valid


def powmod(x, e, m):
    """x^e mod m as an integer term"""
    r = z3.IntVal(1)
    for b in bin(e)[2:]:
        r = z3.simplify(r * r % m)
        if b == '1':
            r = z3.simplify(r * x % m)
    return [], r


def check(ck):
    irbuild.build()
    fc = FECheck(ck, irbuild.load(), irbuild.native())
    nat = fc.native

    def fact(name, ok, detail, *neg):
        """neg: assertions whose conjunction says that the fact fails; ok: the same fact, evaluated on the real constants"""
        ck.obl += 1
        r, _ = z3q.ask(list(neg), 60) if neg else ('unsat' if ok else 'sat', None)
        if r == 'unsat' and ok:
            ck.dis += 1
        elif not ok:
            ck.violation(name, f'{name}: {detail}', {'constant': detail})
        else:
            ck.inconclusive.append([name, r])

    qs = []

    def ff(name, ok, detail, m, eqs, nes=()):
        qs.append((Query(name, m, eqs, list(nes)), ok, detail))
    I = z3.IntVal  # noqa: E741
    for f, m in MOD.items():
        T = f'F{f}'
        enc = nat(f'f{f}_to_bytes', [('fe', f, m - 1)], [('u', 32)])[0]
        fact(f'{T} modulus', enc == m - 1, f'-1 encodes as {enc:#x}', I(enc) != I(m) - 1)
        raw = nat(f'f{f}_consts', [], [('u', 64)])[0]
        w = [raw >> 64 * i & (1 << 64) - 1 for i in range(8)]
        bits, cap, S, ra = w[:4]
        inv = sum(x << 64 * i for i, x in enumerate(w[4:]))
        B = z3.Int('n')
        fact(f'{T} NUM_BITS', m.bit_length() == bits, f'{bits}', z3.Or(I(m) < z3.IntVal(1 << max(bits - 1, 0)), I(m) >= I(1 << bits)))
        fact(f'{T} CAPACITY', cap == bits - 1, f'{cap}', I(cap) != I(bits) - 1)
        t = (m - 1) >> S
        fact(f'{T} S', (m - 1) % (1 << S) == 0 and t & 1, f'{S}', z3.Or(I(m - 1) % I(1 << S) != 0, I(m - 1) / I(1 << S) % 2 != 1))
        k = z3.Int('k')
        fact(f'{T} RESCUE_INVALPHA', ra * inv % (m - 1) == 1, f'{ra} * {inv:#x}', I(ra) * I(inv) % I(m - 1) != 1)
        fact(f'{T} RESCUE_ALPHA', ra == 5, f'{ra}', I(ra) != 5)
        a = nat(f'f{f}_alpha', [], [('fe', f)])[0]
        cs, r = powmod(I(a), 1 << S, I(m))
        fact(f'{T} ALPHA^(2^S) = 1', pow(a, 1 << S, m) == 1, hex(a), *cs, r != 1)
        x = Poly.var(m, 'x')
        c = lambda v: Poly.const(m, v)  # noqa: E731
        ff(f'{T} ALPHA is not a square', pow(a, (m - 1) // 2, m) == m - 1, hex(a), m, [x * x - c(a)])
        b = nat(f'f{f}_beta', [], [('fe', f)])[0]
        ff(f'{T} BETA is a primitive cube root of unity', (b * b + b + 1) % m == 0 and b != 1, hex(b), m, [x - c(b)], [x * x + x + c(1)])
        ff(f'{T} the cube roots of unity are 1, BETA, BETA^2', (b * b + b + 1) % m == 0, hex(b), m, [x * x * x - c(1)],
           [x - c(1), x - c(b), x - c(b * b)])
        for n_, want in (('zero', 0), ('zero_tr', 0), ('default', 0), ('one', 1), ('one_tr', 1)):
            v = nat(f'f{f}_{n_}', [], [('fe', f)])[0]
            fact(f'{T} {n_}', v == want, hex(v), I(v) != want)
    for c_ in BASE:
        f, sf = BASE[c_], SCAL[c_]
        m, n = MOD[f], MOD[sf]
        b = nat(f'{c_}_b', [], [('fe', f)])[0]
        fact(f'{c_} b', b == ecp.B[f], hex(b), I(b) != ecp.B[f])
        x, y = Poly.var(m, 'x'), Poly.var(m, 'y')
        ff(f'{c_} is non-singular', 27 * b * b % m != 0, hex(b), m, [y * y - x * x * x - Poly.const(m, b), y * 2, x * x * 3])
        ff(f'{c_} has no point of order two', pow(-b % m, (m - 1) // 3, m) != 1, hex(b), m, [x * x * x + Poly.const(m, b)])
        G = nat(f'{c_}_one', [], [('pt', c_)])[0]
        ok = any(G) and (G[1] * G[1] * G[2] - G[0] ** 3 - b * G[2] ** 3) % m == 0 and G[2] != 0
        ff(f'{c_} generator on the curve', ok, str([hex(v) for v in G]), m, [x - Poly.const(m, G[0]), y - Poly.const(m, G[1])],
           [y * y * G[2] - x * x * x - Poly.const(m, b * G[2] ** 3)])
        if ok:
            fact(f'{c_} generator is not the identity and has the scalar field order', ecp.mul(f, n, affine(f, G)) is None, hex(n))
        bs, bb = nat(f'{c_}_beta_scalar', [], [('fe', sf)])[0], nat(f'{c_}_beta_base', [], [('fe', f)])[0]
        for nm, v, mm in (('BETA_SCALAR', bs, n), ('BETA_BASE', bb, m)):
            z = Poly.var(mm, 'z')
            ff(f'{c_} {nm} is a primitive cube root of unity', (v * v + v + 1) % mm == 0, hex(v), mm, [z - Poly.const(mm, v)], [z * z + z + Poly.const(mm, 1)])
        O = nat(f'{c_}_zero', [], [('pt', c_)])[0]  # noqa: E741
        fact(f'{c_} zero is the identity', O[2] == 0 and O[1] != 0 and O[0] == 0, str(O), z3.Not(z3.And(I(O[2]) == 0, I(O[1]) != 0, I(O[0]) == 0)))
    for (q, ok, detail), (r, _) in zip(qs, solver.solve_all([q for q, _, _ in qs], 60)):
        ck.obl += 1
        if r == 'unsat' and ok:
            ck.dis += 1
        elif not ok:
            ck.violation(q.name, f'{q.name}: {detail}', {'constant': detail})
        else:
            ck.inconclusive.append([q.name, r])
    ck.functions = ['associated constants of Field for Fp and Fq, of Curve for Ec0 and Ec1']
    ck.bounds = ['none: the constants are those of this build']
    ck.assumptions = ['both moduli are prime', 'internal constants (Montgomery radix powers, exponents inside invert and sqrt) are decided by C01-C04']
