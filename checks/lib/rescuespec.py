"""Specification of the Rescue sponge and a decision procedure for it: linear arithmetic over the
field with congruence.  A nonlinear argument with several terms becomes an atom named by its
normal form, so equal arguments get equal atoms; monomials in atoms are kept."""
from .poly import Poly

M, RATE, ROUNDS = 13, 12, 10


class Congruence:
    ATOMS = 0

    def __init__(self, mod):
        self.mod = mod
        self.names = {}
        self.defs = {}
        self._memo = {}
        self.inv5 = pow(5, -1, mod - 1)

    def key(self, p):
        return tuple(sorted(p.t.items()))

    def atom(self, p, kind='t'):
        """a monomial is itself; a sum becomes an atom"""
        if len(p.t) <= 1 and kind == 't':
            return p
        k = (kind, self.key(p))
        if k not in self.names:
            self.names[k] = f'{kind}@{len(self.names)}'
            self.defs[self.names[k]] = p
            Congruence.ATOMS += 1
        return Poly.var(self.mod, self.names[k])

    def mul(self, a, b):
        if a.is_const() or b.is_const():
            return a * b
        return self.atom(a) * self.atom(b)

    def pow(self, a, e):
        if a.is_const():
            return Poly.const(self.mod, pow(a.constval(), e, self.mod))
        return self.atom(a) ** e

    def root5(self, a):
        if a.is_const():
            return Poly.const(self.mod, pow(a.constval(), self.inv5, self.mod))
        return self.atom(a, 'r')

    def of(self, T, s):
        m = self._memo
        if not s.startswith('#'):
            return Poly.const(self.mod, int(s, 16))
        st = [int(s[1:])]
        while st:
            k = st[-1]
            if k in m:
                st.pop()
                continue
            n = T.nodes[k]
            op = n[0]
            deps = [n[2], n[3]] if op in '+-*' and len(op) == 1 else [n[2]] if op in ('n', 'i', 's', '^') else []
            need = [d for d in deps if d not in m]
            if need:
                st += need
                continue
            if op == 'c':
                r = Poly.const(self.mod, int(n[1], 16))
            elif op == 'v':
                r = Poly.var(self.mod, 'i:' + n[2])
            elif op == '+':
                r = m[n[2]] + m[n[3]]
            elif op == '-':
                r = m[n[2]] - m[n[3]]
            elif op == '*':
                r = self.mul(m[n[2]], m[n[3]])
            elif op == 'n':
                r = -m[n[2]]
            elif op == '^' and int(n[3], 16) % (self.mod - 1) == self.inv5:
                r = self.root5(m[n[2]])
            else:
                r = self.atom(m[n[2]] if deps else Poly.var(self.mod, f'o{k}'), op + (str(n[3]) if op == '^' else ''))
            m[k] = r
            st.pop()
        return m[int(s[1:])]

    def equal(self, a, b):
        return (a - b).is_zero()

    def depends(self, p, var, seen=None):
        seen = set() if seen is None else seen
        for v in p.vars():
            if v == var:
                return True
            if v in self.defs and v not in seen:
                seen.add(v)
                if self.depends(self.defs[v], var, seen):
                    return True
        return False


def mds(i, j):
    return (i + 1) * j


def perm(F, state, keys):
    state = [s + k for s, k in zip(state, keys[0])]
    for r in range(2 * ROUNDS):
        state = [F.root5(s) if r % 2 == 0 else F.pow(s, 5) for s in state]
        state = [F.lin([(mds(i, j), state[j]) for j in range(M)]) + keys[r + 1][i] for i in range(M)]
    return state


def key_schedule(F):
    st = [F.const(0) + 1 for _ in range(M)]
    out = [st]
    for r in range(2 * ROUNDS):
        mid = [F.root5(s) if r % 2 == 0 else F.pow(s, 5) for s in st]
        st = [F.lin([(mds(i, j), mid[j]) for j in range(M)]) + 1 for i in range(M)]
        out.append(st)
    return out


class Num:
    """plain modular arithmetic"""

    def __init__(self, mod):
        self.mod = mod
        self.e = pow(5, -1, mod - 1)

    def const(self, c):
        return c % self.mod

    def root5(self, a):
        return pow(a, self.e, self.mod)

    def pow(self, a, e):
        return pow(a, e, self.mod)

    def lin(self, ts):
        return sum(c * x for c, x in ts) % self.mod


class Sym:
    def __init__(self, cc):
        self.cc = cc

    def const(self, c):
        return Poly.const(self.cc.mod, c)

    def root5(self, a):
        return self.cc.root5(a)

    def pow(self, a, e):
        return self.cc.pow(a, e)

    def lin(self, ts):
        s = self.const(0)
        for c, x in ts:
            s = s + x.scale(c)
        return s


_KS = {}


def run(F, prog, elem, keys):
    state = [F.const(0)] * M
    mode, buf = 'a', []
    outs, n = [], 0
    for ch in prog:
        if ch == 'a':
            x = elem(n)
            n += 1
            if mode == 's':
                mode, buf = 'a', []
            if len(buf) == RATE:
                state = duplex(F, state, buf, keys)
                buf = []
            buf.append(x)
        elif ch == 's':
            if mode == 's' and not buf:
                mode = 'a'
            if mode == 'a':
                state = duplex(F, state, buf, keys)
                mode, buf = 's', list(state[:RATE])
            outs.append(buf.pop(0))
    return outs


def duplex(F, state, buf, keys):
    inp = buf + [F.const(1)] * (RATE - len(buf))
    st = [s + x for s, x in zip(state, inp)] + state[RATE:]
    if isinstance(F, Num):
        st = [x % F.mod for x in st]
    return perm(F, st, keys)


def sponge_num(mod, prog, elems):
    F = Num(mod)
    if mod not in _KS:
        _KS[mod] = key_schedule(F)
    return [x % mod for x in run(F, prog, lambda i: elems[i], _KS[mod])]


def sponge(cc, prog, nm='a'):
    F = Sym(cc)
    if cc.mod not in _KS:
        _KS[cc.mod] = key_schedule(Num(cc.mod))
    keys = [[Poly.const(cc.mod, x) for x in k] for k in _KS[cc.mod]]
    return run(F, prog, lambda i: Poly.var(cc.mod, f'i:{nm}{i}'), keys)
