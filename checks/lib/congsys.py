"""Constraint systems whose nonlinear part is fifth powers and fifth roots: every variable is
resolved to a normal form (linear combinations over atoms, atoms named by the normal form of their
argument), so that what the constraints force can be compared with the specification.  The
equalities that remain between normal forms go to the finite-field solver."""
import heapq
from .poly import Poly
from .rescuespec import Congruence


class Roots(Congruence):
    """r^5 is reduced to its definition"""

    def red(self, p):
        while True:
            for m in p.t:
                for v, e in m:
                    if e >= 5 and v.startswith('r@'):
                        break
                else:
                    continue
                break
            else:
                return p
            rest = {k: c for k, c in p.t.items() if k != m}
            q = Poly(self.mod, {tuple((w, f - 5 if w == v else f) for w, f in m if w != v or f > 5): p.t[m]})
            p = Poly(self.mod, rest) + self.mul(q, self.defs[v]) if len(q.t) else Poly(self.mod, rest)

    def mul(self, a, b):
        if a.is_const() or b.is_const():
            return a * b
        x, y = self.atom(a), self.atom(b)
        return self.red(x * y)

    def fix(self, p):
        """x^5 of an atom that names a sum stays a monomial of the atom; x itself is the sum"""
        t = Poly(self.mod)
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].startswith('t@'):
                t = t + self.defs[m[0][0]].scale(c)
            else:
                t = t + Poly(self.mod, {m: c})
        return t

    def evaluator(self, env):
        memo = {}

        def at(v):
            if v in memo:
                return memo[v]
            if v in self.defs:
                d = ev(self.defs[v])
                r = pow(d, self.inv5, self.mod) if v.startswith('r@') else d
            else:
                r = env.get(v, 0)
            memo[v] = r
            return r

        def ev(p):
            s = 0
            for m, c in p.t.items():
                for v, e in m:
                    c = c * pow(at(v), e, self.mod) % self.mod
                s += c
            return s % self.mod
        return ev


class Resolve:
    """forward resolution of a recorded constraint system"""

    def __init__(self, run, cc, known):
        self.run, self.cc = run, cc
        r = run.j['rec']
        self.n = r['n']
        self.val = {}
        self.free = []          # names of variables nothing determines
        self.resid = []         # (label, poly) that must be zero: constraints left over
        kk = {i: v for i, v in r['k']}
        self.lcs = []
        for q, l in enumerate(r['lcs']):
            d = {}
            for k, i, c in l:
                d[k, i] = d.get((k, i), Poly(run.mod)) + cc.fix(cc.of(run, c))
            const = Poly(run.mod)
            if q + 1 in kk:
                const = Poly.const(run.mod, 1) if q == 0 else Poly.var(run.mod, f'k:{q + 1}')
            self.lcs.append(({v: c for v, c in d.items() if not c.is_zero()}, const))
        self.use = {}
        for q, (d, _) in enumerate(self.lcs):
            for v in d:
                self.use.setdefault(v, []).append(q)
        self.nunk = [len(d) for d, _ in self.lcs]
        self.done = set()
        self.gdone = set()
        self.alias = {}
        self.todo = []
        for q in range(len(self.lcs)):
            self.push('lc', q)
        for v, p in known:
            self.set(v, p)
        self.go()

    def push(self, k, q):
        # short constraints first, so that a root is recognised before it is used
        heapq.heappush(self.todo, (0 if k == 'g' else len(self.lcs[q][0]), k, q))

    def sub(self, p):
        """replace resolved free variables"""
        if not self.alias:
            return p
        while True:
            hit = [v for v in p.vars() if v in self.alias]
            if not hit:
                return p
            t = Poly(self.run.mod)
            for m, c in p.t.items():
                x = Poly.const(self.run.mod, c)
                for v, e in m:
                    y = self.alias.get(v)
                    if y is None:
                        x = self.cc.mul(x, Poly(self.run.mod, {((v, e),): 1}))
                    else:
                        for _ in range(e):
                            x = self.cc.mul(x, y)
                t = t + x
            p = t

    def set(self, v, p):
        if v in self.val:
            self.residual(f'{v[0]}{v[1]}', self.val[v] - p)
            return
        self.val[v] = self.cc.fix(p)
        for q in self.use.get(v, ()):
            self.nunk[q] -= 1
            if self.nunk[q] <= 1:
                self.push('lc', q)
        self.push('g', v[1])

    def residual(self, label, p):
        p = self.cc.fix(self.sub(p))
        p = self.cc.red(p)
        if p.is_zero():
            return
        # c (u^5 - x) with a fresh u: u is the fifth root
        us = [v for v in p.vars() if v.startswith('u:')]
        if len(us) == 1 and p.t.get(((us[0], 5),)) and all(us[0] not in dict(m) or m == ((us[0], 5),) for m in p.t):
            u = us[0]
            c = p.t[((u, 5),)]
            x = (Poly(self.run.mod, {m: k for m, k in p.t.items() if m != ((u, 5),)})).scale(-pow(c, -1, self.run.mod))
            self.resolve(u, self.cc.root5(x))
            return
        for u in sorted(us, reverse=True):
            c = p.t.get(((u, 1),))
            if c and all(u not in dict(m) or m == ((u, 1),) for m in p.t):
                self.resolve(u, Poly(self.run.mod, {m: k for m, k in p.t.items() if m != ((u, 1),)}).scale(-pow(c, -1, self.run.mod)))
                return
        self.resid.append((label, p))

    def resolve(self, u, p):
        self.alias[u] = p
        self.free.remove(u)
        for w in list(self.val):
            if u in self.val[w].vars():
                self.val[w] = self.cc.fix(self.cc.red(self.sub(self.val[w])))

    def lc(self, q):
        d, const = self.lcs[q]
        if q in self.done:
            return
        unk = [v for v in d if v not in self.val]
        if len(unk) > 1:
            return
        self.done.add(q)
        s = -const
        for v, c in d.items():
            if v in self.val:
                s = s + self.times(self.val[v], c)
        if not unk:
            self.residual(f'lc {q + 1}', s)
        else:
            c = d[unk[0]]
            if not c.is_const():
                self.resid.append((f'lc {q + 1}', s))
                return
            self.set(unk[0], s.scale(-pow(c.constval(), -1, self.run.mod)))

    def times(self, v, c):
        if c.is_const():
            return v.scale(c.constval())
        if v.is_const():
            return c.scale(v.constval())
        return self.cc.mul(v, c)

    def gate(self, i):
        if i in self.gdone:
            return
        a, b, c = (self.val.get((k, i)) for k in 'ABC')
        if a is None or b is None:
            return
        self.gdone.add(i)
        self.set(('C', i), self.cc.mul(a, b))

    def go(self):
        self.low = 1
        while True:
            while self.todo:
                _, k, q = heapq.heappop(self.todo)
                self.lc(q) if k == 'lc' else self.gate(q)
            # stuck: name the first variable that constraints mention
            pick = None
            for i in range(self.low, self.n + 1):
                if any((k, i) not in self.val and (k, i) in self.use for k in 'AB'):
                    pick = self.low = i
                    break
            if pick is None:
                break
            k = 'A' if ('A', pick) not in self.val and ('A', pick) in self.use else 'B'
            u = f'u:{k}{pick}'
            self.free.append(u)
            self.set((k, pick), Poly.var(self.run.mod, u))
        for v in list(self.val):
            self.val[v] = self.cc.fix(self.cc.red(self.sub(self.val[v])))

    def out(self, nm):
        s = Poly(self.run.mod)
        for k, i, c in self.run.outs[nm]:
            s = s + self.times(self.val.get((k, i), Poly.var(self.run.mod, f'u:{k}{i}')), self.cc.of(self.run, c))
        return self.cc.fix(self.cc.red(self.sub(s)))
