"""Field-valued functions of boolean variables as canonical affine decision diagrams: every value is
a * node + b with node a hash-consed (variable, low, high).  Two functions are equal iff their
diagrams are identical, so comparison decides equality for every assignment of the variables."""


class Store:
    def __init__(self, m):
        self.m = m
        self.nodes = {}
        self.memo = {}

    def mk(self, v, lo, hi):
        """v ? hi : lo  (v above every variable of lo and hi)"""
        m = self.m
        if lo.a == hi.a and lo.n is hi.n and lo.b == hi.b:
            return lo
        b = lo.b
        la, ha, hb = lo.a, hi.a, (hi.b - b) % m
        s = la or ha or hb
        i = pow(s, -1, m) if s != 1 else 1
        key = (v, la * i % m, id(lo.n), ha * i % m, id(hi.n), hb * i % m)
        n = self.nodes.get(key)
        if n is None:
            n = self.nodes[key] = Node(v, Aff(self, la * i % m, lo.n, 0), Aff(self, ha * i % m, hi.n, hb * i % m))
        return Aff(self, s, n, b)

    def const(self, c):
        return Aff(self, 0, None, c % self.m)

    def var(self, v):
        return self.mk(v, self.const(0), self.const(1))

    def apply(self, op, x, y):
        k = (op, x.key(), y.key())
        if k not in self.memo:
            v = max(t.n.v for t in (x, y) if t.n is not None)
            f = Aff.add if op == '+' else Aff.mul
            self.memo[k] = self.mk(v, f(x.cof(v, 0), y.cof(v, 0)), f(x.cof(v, 1), y.cof(v, 1)))
        return self.memo[k]

    def ite(self, v, t, e):
        """variable v ? t : e"""
        return self.ite2(v, t, e)

    def ite2(self, v, t, e):
        tops = [x.n.v for x in (t, e) if x.n is not None]
        if not tops or max(tops) <= v:
            return self.mk(v, e.cof(v, 0), t.cof(v, 1))
        k = ('?', v, t.key(), e.key())
        if k not in self.memo:
            u = max(tops)
            self.memo[k] = self.mk(u, self.ite2(v, t.cof(u, 0), e.cof(u, 0)), self.ite2(v, t.cof(u, 1), e.cof(u, 1)))
        return self.memo[k]


class Node:
    __slots__ = ('v', 'lo', 'hi')

    def __init__(self, v, lo, hi):
        self.v, self.lo, self.hi = v, lo, hi


class Aff:
    __slots__ = ('s', 'a', 'n', 'b')

    def __init__(self, s, a, n, b):
        self.s, self.a, self.n, self.b = s, (a if n is not None else 0), (n if a else None), b

    @property
    def m(self):
        return self.s.m

    def key(self):
        return (self.a, id(self.n), self.b)

    def same(self, o):
        return self.key() == o.key()

    def cof(self, v, x):
        if self.n is None or self.n.v != v:
            return self
        c = self.n.hi if x else self.n.lo
        return Aff(self.s, self.a * c.a % self.m, c.n, (self.a * c.b + self.b) % self.m)

    def co(self, o):
        if isinstance(o, Aff):
            return o
        return self.s.const(o if isinstance(o, int) else o.constval())

    def add(self, o):
        m = self.m
        if o.n is None:
            return Aff(self.s, self.a, self.n, (self.b + o.b) % m)
        if self.n is None:
            return o.add(self)
        if self.n is o.n:
            return Aff(self.s, (self.a + o.a) % m, self.n, (self.b + o.b) % m)
        k = self.s.apply('+', Aff(self.s, self.a, self.n, 0), Aff(self.s, o.a, o.n, 0))
        return Aff(self.s, k.a, k.n, (k.b + self.b + o.b) % m)

    def scale(self, c):
        m = self.m
        return Aff(self.s, self.a * c % m, self.n, self.b * c % m)

    def mul(self, o):
        if o.n is None:
            return self.scale(o.b)
        if self.n is None:
            return o.scale(self.b)
        return self.s.apply('*', self, o)

    def __add__(self, o):
        return self.add(self.co(o))
    __radd__ = __add__

    def __neg__(self):
        return self.scale(self.m - 1)

    def __sub__(self, o):
        return self.add(-self.co(o))

    def __mul__(self, o):
        return self.mul(self.co(o))
    __rmul__ = __mul__

    def is_const(self):
        return self.n is None

    def is_zero(self):
        return self.n is None and self.b == 0

    def constval(self):
        return self.b

    def witness(self):
        """an assignment under which the value is nonzero (None if there is none)"""
        x, env = self, {}
        while x.n is not None:
            v = x.n.v
            for k in (0, 1):
                c = x.cof(v, k)
                if not c.is_zero():
                    env[v] = k
                    x = c
                    break
        return None if x.b == 0 else env

    def size(self):
        seen, st = set(), [self.n]
        while st:
            n = st.pop()
            if n is None or id(n) in seen:
                continue
            seen.add(id(n))
            st += [n.lo.n, n.hi.n]
        return len(seen)
