"""Sparse multivariate polynomials over a prime field (dict monomial -> int).
A monomial is a sorted tuple of (var, exp)."""
P_MOD = 0x5c5e464a35c12769bac2a757742b393081be9c1a3201248299fffe7d00000001
Q_MOD = 0x5c5e464a35c12769bac2a757742b39311b849d0f1801860419fffe7d00000001
MOD = {'p': P_MOD, 'q': Q_MOD}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(x for x in d.items() if x[1]))


class Poly:
    __slots__ = ('t', 'm')

    def __init__(self, m, t=None):
        self.m = m
        self.t = t if t is not None else {}

    @staticmethod
    def const(m, c):
        c %= m
        return Poly(m, {(): c} if c else {})

    @staticmethod
    def var(m, v):
        return Poly(m, {((v, 1),): 1})

    def _co(self, o):
        return o if isinstance(o, Poly) else Poly.const(self.m, o)

    def __add__(self, o):
        o = self._co(o)
        r = dict(self.t)
        for k, c in o.t.items():
            n = (r.get(k, 0) + c) % self.m
            if n:
                r[k] = n
            else:
                r.pop(k, None)
        return Poly(self.m, r)
    __radd__ = __add__

    def __neg__(self):
        return Poly(self.m, {k: self.m - c for k, c in self.t.items()})

    def __sub__(self, o):
        return self + (-self._co(o))

    def __rsub__(self, o):
        return self._co(o) - self

    def scale(self, c):
        c %= self.m
        if c == 0:
            return Poly(self.m)
        return Poly(self.m, {k: v * c % self.m for k, v in self.t.items()})

    def __mul__(self, o):
        if isinstance(o, int):
            return self.scale(o)
        if len(self.t) > len(o.t):
            self, o = o, self
        r = {}
        for k1, c1 in self.t.items():
            for k2, c2 in o.t.items():
                k = mmul(k1, k2)
                r[k] = (r.get(k, 0) + c1 * c2) % self.m
        return Poly(self.m, {k: c for k, c in r.items() if c})
    __rmul__ = __mul__

    def __pow__(self, n):
        r = Poly.const(self.m, 1)
        for _ in range(n):
            r = r * self
        return r

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constval(self):
        return self.t.get((), 0)

    def degree(self):
        return max((sum(e for _, e in k) for k in self.t), default=0)

    def vars(self):
        return {v for k in self.t for v, _ in k}

    def linear(self):
        """dict var->coef plus () constant if affine else None"""
        for k in self.t:
            if sum(e for _, e in k) > 1:
                return None
        return {(k[0][0] if k else ()): c for k, c in self.t.items()}

    def subst(self, s):
        """s: var -> Poly"""
        if not any(v in s for k in self.t for v, _ in k):
            return self
        r = Poly(self.m)
        acc = {}
        cache = {}
        for k, c in self.t.items():
            if not any(v in s for v, _ in k):
                n = (acc.get(k, 0) + c) % self.m
                acc[k] = n
                continue
            t = Poly(self.m, {(): c})
            rest = []
            for v, e in k:
                if v in s:
                    ck = (v, e)
                    if ck not in cache:
                        cache[ck] = s[v] ** e
                    t = t * cache[ck]
                else:
                    rest.append((v, e))
            if rest:
                t = t * Poly(self.m, {tuple(rest): 1})
            for k2, c2 in t.t.items():
                acc[k2] = (acc.get(k2, 0) + c2) % self.m
        return Poly(self.m, {k: c for k, c in acc.items() if c})

    def eval(self, env):
        m = self.m
        r = 0
        for k, c in self.t.items():
            t = c
            for v, e in k:
                t = t * pow(env[v], e, m) % m
            r += t
        return r % m

    def __repr__(self):
        def cf(c):
            return str(c - self.m) if c > self.m // 2 and self.m - c < 1 << 40 else (str(c) if c < 1 << 40 else hex(c)[:10] + '..')
        return ' + '.join(f"{cf(c)}*" + '*'.join(f"{v}^{e}" if e > 1 else f"{v}" for v, e in k) if k else cf(c)
                          for k, c in sorted(self.t.items(), key=lambda x: str(x[0]))) or '0'


def gauss(lins, keep=()):
    """Eliminate variables using affine polynomials.  Returns (subst, residual constants list).
    subst maps var -> affine Poly over the remaining variables.  Vars in `keep` are
    avoided as pivots when another is available."""
    sub = {}
    occ = {}
    bad = []
    for l in lins:
        l = l.subst(sub)
        if l.is_const():
            if not l.is_zero():
                bad.append(l)
            continue
        d = l.linear()
        cands = [v for v in d if v != ()]
        c1 = [v for v in cands if v not in keep]
        # prefer the most recently created variable (stable, keeps inputs)
        piv = max(c1 or cands, key=lambda v: (v[1:2] != ':', v[1:], v[0]))
        inv = pow(d[piv], -1, l.m)
        e = Poly(l.m, {k: (-c * inv) % l.m for k, c in l.t.items() if k != ((piv, 1),)})
        # update the earlier substitutions mentioning piv
        for u in list(occ.get(piv, ())):
            sub[u] = sub[u].subst({piv: e})
            for w in sub[u].vars():
                occ.setdefault(w, set()).add(u)
        occ.pop(piv, None)
        sub[piv] = e
        for w in e.vars():
            occ.setdefault(w, set()).add(piv)
    return sub, bad
