"""Machine words as exact integer polynomials.

A word is a polynomial with integer coefficients over atoms; it denotes the exact unsigned value
of the word (0 <= value < 2^width).  Where an operation loses information (wrapping, truncation,
shifts, comparisons) a hash-consed atom names the quotient or the truth value, so that what the
machine does telescopes as integer algebra, with no loop over bits.  The meaning of every atom is
a linear-integer constraint handed to the solver at the end (see `facts`).
"""
import itertools


class Unsupported(Exception):
    pass


class Atom:
    __slots__ = ('id', 'kind', 'arg', 'lo', 'hi', 'k', 'name')

    def __init__(self, i, kind, arg, lo, hi, k=None, name=None):
        self.id, self.kind, self.arg, self.lo, self.hi, self.k, self.name = i, kind, arg, lo, hi, k, name

    def __repr__(self):
        return self.name or f'{self.kind}{self.id}'


class W:
    """An integer-valued expression with its range."""
    __slots__ = ('p', 'lo', 'hi', '_k', 'dec')

    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi, self._k = p, lo, hi, None
        self.dec = None           # (t, f, w): this is t - 2^w * f

    @property
    def key(self):
        if self._k is None:
            self._k = frozenset(self.p.items())
        return self._k

    def __repr__(self):
        return f'W({self.p})'


def poly_add(a, b, s=1):
    r = dict(a)
    for k, c in b.items():
        v = r.get(k, 0) + s * c
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return r


class Dom:
    """The atoms of one symbolic execution."""

    def __init__(self):
        self.atoms = []
        self.table = {}
        self.linbool = False
        self.expl = {}
        self.known = {}     # words whose bits are known
        self.assign = {}          # bool atom id -> 0/1 decided on this path
        self.sums = []            # (poly, lo, hi): range facts about whole expressions
        self.fresh_n = 0

    # ------------------------------------------------------------ construction
    def atom(self, kind, arg, lo, hi, k=None, name=None, key=None):
        kk = (kind, key if key is not None else arg, k)
        if kk in self.table:
            return self.table[kk]
        a = Atom(len(self.atoms), kind, arg, lo, hi, k, name)
        self.atoms.append(a)
        self.table[kk] = a
        return a

    def var(self, name, lo, hi):
        a = self.atom('in', name, lo, hi, name=name)
        return W({(a.id,): 1}, lo, hi)

    def of_atom(self, a):
        return W({(a.id,): 1}, a.lo, a.hi)

    def boolatom(self, kind, arg, key=None, name=None):
        return self.of_atom(self.atom(kind, arg, 0, 1, key=key, name=name))

    @staticmethod
    def w(x):
        return x if isinstance(x, W) else W({(): x} if x else {}, x, x)

    @staticmethod
    def simp(x):
        if isinstance(x, W):
            if not x.p:
                return 0
            if len(x.p) == 1 and () in x.p:
                return x.p[()]
            if x.lo == x.hi:
                return x.lo
        return x

    def isbool(self, i):
        a = self.atoms[i]
        return a.lo >= 0 and a.hi <= 1

    def mono_range(self, m):
        lo = hi = 1
        for i in m:
            a = self.atoms[i]
            c = [lo * a.lo, lo * a.hi, hi * a.lo, hi * a.hi]
            lo, hi = min(c), max(c)
        return lo, hi

    def prange(self, p):
        lo = hi = 0
        for m, c in p.items():
            l, h = self.mono_range(m)
            if c < 0:
                l, h = h, l
            lo += c * l
            hi += c * h
        return lo, hi

    def mk(self, p, lo=None, hi=None):
        l, h = self.prange(p)
        lo = l if lo is None else max(l, lo)
        hi = h if hi is None else min(h, hi)
        return self.simp(W(p, lo, hi))

    # ------------------------------------------------------------ exact integer algebra
    def iadd(self, a, b, s=1):
        if isinstance(a, int) and isinstance(b, int):
            return a + s * b
        a, b = self.w(a), self.w(b)
        lo, hi = (a.lo + b.lo, a.hi + b.hi) if s == 1 else (a.lo - b.hi, a.hi - b.lo)
        return self.mk(poly_add(a.p, b.p, s), lo, hi)

    def isub(self, a, b):
        return self.iadd(a, b, -1)

    def mono_mul(self, m, n):
        out = list(m)
        for i in n:
            if self.isbool(i) and i in out:
                continue
            out.append(i)
        return tuple(sorted(out))

    def imul(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a * b
        a, b = self.w(a), self.w(b)
        if self.linbool and a.lo >= 0 and a.hi <= 1 and a.key == b.key:
            return self.simp(a)
        r = {}
        for m, c in a.p.items():
            for n, d in b.p.items():
                k = self.mono_mul(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        return self.mk(r, min(c), max(c))

    # ------------------------------------------------------------ booleans
    def boolvars(self, a):
        s = set()
        for m in a.p:
            s.update(m)
        return sorted(s)

    def evalb(self, p, env):
        t = 0
        for m, c in p.items():
            v = c
            for i in m:
                v *= env[i]
                if not v:
                    break
            t += v
        return t

    def small(self, *xs, lim=8):
        """The boolean atoms of the arguments if they have no other atoms and few of them."""
        s = set()
        for x in xs:
            if isinstance(x, W):
                for m in x.p:
                    s.update(m)
        if len(s) > lim or not all(self.isbool(i) for i in s):
            return None
        return sorted(s)

    def table_of(self, vs, f):
        """The multilinear polynomial of a function of boolean atoms."""
        n = len(vs)
        vals = []
        for bits in range(1 << n):
            vals.append(f({v: bits >> j & 1 for j, v in enumerate(vs)}))
        for j in range(n):
            for b in range(1 << n):
                if b >> j & 1:
                    vals[b] -= vals[b ^ 1 << j]
        p = {}
        for b in range(1 << n):
            if vals[b]:
                p[tuple(v for j, v in enumerate(vs) if b >> j & 1)] = vals[b]
        return p

    def lift(self, f, *xs):
        """Apply a function of integers exactly, when the arguments depend on few booleans."""
        vs = self.small(*xs)
        if vs is None:
            return None
        out = []

        def g(env):
            r = f(*[self.evalb(x.p, env) if isinstance(x, W) else x for x in xs])
            out.append(r)
            return r
        p = self.table_of(vs, g)
        return self.simp(W(p, min(out), max(out)))

    # ------------------------------------------------------------ lossy operations
    def balanced(self, p, mod):
        r = {}
        for m, c in p.items():
            c %= mod
            if c > mod // 2:
                c -= mod
            if c:
                r[m] = c
        return r

    def floor(self, t, k):
        """floor(t / 2^k)"""
        if k == 0:
            return t
        M = 1 << k
        if isinstance(t, int):
            return t >> k
        if 0 <= t.lo and t.hi < M:
            return 0
        if -M <= t.lo and t.hi < M:
            return self.isub(0, self.neg(t))
        v = self.lift(lambda x: x >> k, t)
        if v is not None:
            return v
        if self.linbool and t.key in self.known:
            r = 0
            for j, b in enumerate(self.known[t.key][k:]):
                r = self.iadd(r, self.imul(b, 1 << j))
            if isinstance(r, W):
                r = self.simp(W(r.p, max(r.lo, 0), min(r.hi, t.hi >> k)))
            if isinstance(r, W):
                self.known.setdefault(r.key, self.known[t.key][k:])
            return r
        if t.dec is not None and k <= t.dec[2] and (k == t.dec[2] or -M <= self.w(t.dec[0]).lo and self.w(t.dec[0]).hi < M):
            u, f, w = t.dec
            r = self.isub(self.floor(u, k), self.imul(f, 1 << (w - k)))
            if isinstance(r, W):
                r = self.simp(W(r.p, max(r.lo, t.lo >> k), min(r.hi, t.hi >> k)))
            return r
        if self.linbool and len(t.p) == 1:
            (m, c), = t.p.items()
            if c == 1 and len(m) == 1 and self.atoms[m[0]].kind == 'fl':
                return self.floor(self.atoms[m[0]].arg, k + self.atoms[m[0]].k)
        j = min(self.low_zero(t), k)
        if j:
            u = self.simp(W({m: c >> j for m, c in t.p.items()}, t.lo >> j, t.hi >> j))
            return self.floor(u, k - j)
        # split off what is a multiple of M
        A, B = {}, {}
        for m, c in t.p.items():
            q, r = divmod(c, M)
            if r > M // 2 and (c < 0 or r > M - (1 << 8)):
                q, r = q + 1, r - M
            if q:
                A[m] = q
            if r:
                B[m] = r
        b = self.mk(B)
        r = None
        if isinstance(b, int):
            r = self.iadd(self.mk(A), b >> k)
        elif 0 <= b.lo and b.hi < M:
            r = self.mk(A)
        elif -M <= b.lo and b.hi < M:
            r = self.isub(self.mk(A), self.neg(b))
        if r is not None:
            if isinstance(r, W):
                r = self.simp(W(r.p, max(r.lo, t.lo >> k), min(r.hi, t.hi >> k)))
            return r
        if self.linbool and 0 <= t.lo and t.hi < 1 << 64:
            n = t.hi.bit_length()
            x = self.explode(t, n)
            if x is not None:
                self.known[t.key] = x
                return self.floor(t, k)
        if self.linbool:
            A = {m: c // M for m, c in t.p.items() if c % M == 0 and len(m) == 1 and self.atoms[m[0]].kind == 'fl'}
            if A:
                b = self.mk({m: c for m, c in t.p.items() if m not in A})
                return self.iadd(self.mk(A), self.floor(b, k))
        a = self.atom('fl', t, t.lo >> k, t.hi >> k, k=k, key=t.key)
        return self.simp(self.of_atom(a))

    def neg(self, t):
        """1 if t < 0 else 0"""
        if isinstance(t, int):
            return int(t < 0)
        if t.lo >= 0:
            return 0
        if t.hi < 0:
            return 1
        v = self.lift(lambda x: int(x < 0), t)
        if v is not None:
            return v
        lead = min((m for m in t.p if m), key=lambda m: m)
        if t.p[lead] < 0:
            # t < 0  <=>  not (-t - 1 < 0)
            u = self.isub(-1, t)
            return self.isub(1, self.boolatom('neg', u, key=u.key))
        return self.boolatom('neg', t, key=t.key)

    def eq0(self, t):
        if isinstance(t, int):
            return int(t == 0)
        if t.lo > 0 or t.hi < 0:
            return 0
        v = self.lift(lambda x: int(x == 0), t)
        if v is not None:
            return v
        if self.linbool:
            if t.lo >= 0 and t.hi <= 1:
                return self.isub(1, t)
            if t.lo >= -1 and t.hi <= 0:
                return self.iadd(1, t)
        lead = min((m for m in t.p if m), key=lambda m: m)
        if t.p[lead] < 0:
            t = self.isub(0, t)
        return self.boolatom('eq0', t, key=t.key)

    def bitwise(self, a, b, w, f):
        """operation on words whose bits are visible (linbool mode)"""
        if not self.linbool or w > 64:
            return None
        out = 0
        for x in (a, b):
            if isinstance(x, W) and any(self.atoms[i].kind == 'fl' for m in x.p for i in m):
                return None
        n = len(self.atoms)
        A, B = [self.explode(x, w) for x in (a, b)]
        if A is None or B is None:
            return None
        C = [f(A[j], B[j]) for j in range(w)]
        for j in range(w):
            out = self.iadd(out, self.imul(C[j], 1 << j))
        if isinstance(out, W):
            out = self.simp(W(out.p, max(out.lo, 0), min(out.hi, (1 << w) - 1)))
        if isinstance(out, W):
            self.known[out.key] = C
        return out

    def explode(self, x, w):
        if isinstance(x, int):
            return [(x >> j) & 1 for j in range(w)]
        if x.key in self.known:
            return (self.known[x.key] + [0] * w)[:w]
        key = (x.key, w)
        if key in self.expl:
            return self.expl[key]
        bits, ok = [], True
        # group monomials by the power of two they carry
        rest = dict(x.p)
        for j in range(w):
            # bit j: terms with odd multiples of 2^j; correct when the group is a boolean
            g = {m: c >> j for m, c in rest.items() if (c >> j) & 1 and not c & ((1 << j) - 1)}
            if not g:
                bits.append(0)
                continue
            vs = {i for m in g for i in m}
            # pull in every remaining term over the same atoms
            for m, c in rest.items():
                if m and set(m) <= vs:
                    g[m] = c >> j if not c & ((1 << j) - 1) else None
            if any(v is None for v in g.values()):
                ok = False
                break
            best = None
            for k in (1,) if set(g) == {()} else (0, 1) if () in rest else (0,):
                h = dict(g)
                h.pop((), None)
                if k:
                    h[()] = 1
                t = self.mk(h)
                u = self.lift(lambda q: q, t) if isinstance(t, W) else t
                if isinstance(u, int) and u in (0, 1) or isinstance(u, W) and u.lo >= 0 and u.hi <= 1:
                    best = (u, k)
                    break
            if best is None:
                ok = False
                break
            u, k = best
            for m, c in self.w(u).p.items():
                rest[m] = rest.get(m, 0) - (c << j)
                if not rest[m]:
                    del rest[m]
            bits.append(u)
        if rest:
            ok = False
        self.expl[key] = bits if ok else None
        return self.expl[key]

    def wrap(self, t, w):
        if isinstance(t, int):
            return t & ((1 << w) - 1)
        if t.lo >= 0 and t.hi < 1 << w:
            return t
        if t.dec is not None and w <= t.dec[2]:
            return self.wrap(t.dec[0], w)
        f = self.floor(t, w)
        r = self.isub(t, self.imul(f, 1 << w))
        if isinstance(r, int):
            assert 0 <= r < 1 << w, (r, w)
            return r
        r = self.simp(W(r.p, max(r.lo, 0), min(r.hi, (1 << w) - 1)))
        if isinstance(r, W):
            r.dec = (t, f, w)
        return r

    def add(self, a, b, w):
        return self.wrap(self.iadd(a, b), w)

    def sub(self, a, b, w):
        return self.wrap(self.isub(a, b), w)

    def mul(self, a, b, w):
        return self.wrap(self.imul(a, b), w)

    def shl(self, a, s, w):
        if not isinstance(s, int):
            r = self.lift(lambda x, y: (x << y) & ((1 << w) - 1), a, s)
            if r is None:
                raise Unsupported('symbolic shift')
            return r
        return self.wrap(self.imul(a, 1 << (s % w)), w)

    def lshr(self, a, s, w):
        if not isinstance(s, int):
            r = self.lift(lambda x, y: x >> (y % w), a, s)
            if r is None:
                raise Unsupported('symbolic shift')
            return r
        return self.floor(a, s % w)

    def signed(self, a, w):
        if isinstance(a, int):
            return a - (1 << w) if a >> (w - 1) else a
        if a.hi < 1 << (w - 1):
            return a
        top = self.isub(1, self.neg(self.isub(a, 1 << (w - 1))))
        return self.isub(a, self.imul(top, 1 << w))

    def low_zero(self, a):
        """How many low bits are certainly zero."""
        if isinstance(a, int):
            return 256 if a == 0 else (a & -a).bit_length() - 1
        return min((abs(c) & -abs(c)).bit_length() - 1 for c in a.p.values())

    def scaled_bool(self, a, w):
        """B when a = (2^w - 1) * B for a boolean-valued B."""
        if isinstance(a, int):
            return {0: 0, (1 << w) - 1: 1}.get(a)
        M = (1 << w) - 1
        if any(c % M for c in a.p.values()):
            return None
        b = self.mk({m: c // M for m, c in a.p.items()}, 0 if a.lo >= 0 else None, 1 if a.hi <= M else None)
        if isinstance(b, int):
            return b if b in (0, 1) else None
        return b if b.lo >= 0 and b.hi <= 1 else None

    def and_(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return a & b
        if not isinstance(a, int) and not isinstance(b, int) and a.key == b.key:
            return a
        r = self.lift(lambda x, y: x & y, a, b)
        if r is not None:
            return r
        for x, y in ((a, b), (b, a)):
            s = self.scaled_bool(x, w)
            if s is not None:
                return self.imul(s, y)
        if isinstance(b, int):
            a, b = b, a
        if isinstance(a, int):
            # a run of ones at a time
            out, i = 0, 0
            while a >> i:
                if a >> i & 1:
                    j = i
                    while a >> j & 1:
                        j += 1
                    f, g = self.floor(b, i), self.floor(b, j)
                    out = self.iadd(out, self.imul(self.isub(f, self.imul(g, 1 << (j - i))), 1 << i))
                    i = j
                else:
                    i += 1
            if isinstance(out, W):
                out = self.simp(W(out.p, max(out.lo, 0), min(out.hi, a)))
            return out
        la, lb = self.low_zero(a), self.low_zero(b)
        if b.hi < 1 << la or a.hi < 1 << lb:
            return 0
        if a.lo >= 0 and a.hi <= 1 and b.lo >= 0 and b.hi <= 1:
            return self.imul(a, b)
        r = self.bitwise(a, b, w, self.imul)
        if r is not None:
            return r
        return self.bitop('and', a, b, min(a.hi, b.hi))

    def bitop(self, kind, a, b, hi):
        k = frozenset([a.key if isinstance(a, W) else a, b.key if isinstance(b, W) else b])
        return self.of_atom(self.atom(kind, (a, b), 0, hi, key=k))

    def or_(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return a | b
        if a == 0 and isinstance(a, int):
            return b
        if b == 0 and isinstance(b, int):
            return a
        r = self.lift(lambda x, y: x | y, a, b)
        if r is not None:
            return r
        A, B = self.w(a), self.w(b)
        if A.hi < 1 << self.low_zero(b) or B.hi < 1 << self.low_zero(a):
            return self.iadd(a, b)
        if A.hi <= 1 and B.hi <= 1:
            return self.isub(self.iadd(a, b), self.imul(a, b))
        r = self.bitwise(a, b, w, lambda x, y: self.isub(self.iadd(x, y), self.imul(x, y)))
        if r is not None:
            return r
        return self.bitop('or', a, b, (1 << max(A.hi.bit_length(), B.hi.bit_length())) - 1)

    def xor(self, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return a ^ b
        if a == 0 and isinstance(a, int):
            return b
        if b == 0 and isinstance(b, int):
            return a
        if isinstance(a, W) and isinstance(b, W) and a.key == b.key:
            return 0
        r = self.lift(lambda x, y: x ^ y, a, b)
        if r is not None:
            return r
        full = (1 << w) - 1
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and x == full:
                return self.isub(full, y)
            # x ^ B*(x ^ z)  =  x + B*(z - x)
            if isinstance(y, W) and y.p:
                ids = None
                for m in y.p:
                    xs = {i for i in m if self.atoms[i].kind == 'xor'}
                    ids = xs if ids is None else ids & xs
                for i in ids or ():
                    at = self.atoms[i]
                    u, v = at.arg
                    B = self.mk({tuple(j for j in m if j != i): c for m, c in y.p.items()})
                    if not isinstance(B, int) and not (B.lo >= 0 and B.hi <= 1) and self.small(B) is not None:
                        B = self.lift(lambda q: q, B)
                    Bw = self.w(B)
                    if not (Bw.lo >= 0 and Bw.hi <= 1):
                        continue
                    for one, two in ((u, v), (v, u)):
                        if isinstance(x, W) and isinstance(one, W) and x.key == one.key or isinstance(x, int) and x == one:
                            r = self.iadd(x, self.imul(B, self.isub(two, one)))
                            X, T = self.w(x), self.w(two)
                            if isinstance(r, W):
                                r = self.simp(W(r.p, max(r.lo, min(X.lo, T.lo)), min(r.hi, max(X.hi, T.hi))))
                            return r
        A, B = self.w(a), self.w(b)
        if A.hi < 1 << self.low_zero(b) or B.hi < 1 << self.low_zero(a):
            return self.iadd(a, b)
        if A.hi <= 1 and B.hi <= 1:
            return self.isub(self.iadd(a, b), self.imul(2, self.imul(a, b)))
        r = self.bitwise(a, b, w, lambda x, y: self.isub(self.iadd(x, y), self.imul(2, self.imul(x, y))))
        if r is not None:
            return r
        return self.bitop('xor', a, b, (1 << max(A.hi.bit_length(), B.hi.bit_length())) - 1)

    def icmp(self, pred, a, b, w):
        if pred in ('eq', 'ne'):
            d = self.isub(a, b)
            r = self.eq0_or(d, a, b)
            return r if pred == 'eq' else self.isub(1, r)
        if pred[0] == 's':
            a, b = self.signed(a, w), self.signed(b, w)
        op = pred[1:]
        if op == 'lt':
            return self.neg(self.isub(a, b))
        if op == 'ge':
            return self.isub(1, self.neg(self.isub(a, b)))
        if op == 'gt':
            return self.neg(self.isub(b, a))
        if op == 'le':
            return self.isub(1, self.neg(self.isub(b, a)))
        raise Unsupported(pred)

    def eq0_or(self, d, a, b):
        """x | y == 0 is the conjunction."""
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and y == 0 and isinstance(x, W) and len(x.p) == 1:
                (m, c), = x.p.items()
                if c == 1 and len(m) == 1 and self.atoms[m[0]].kind == 'or':
                    u, v = self.atoms[m[0]].arg
                    return self.imul(self.eq0_or(u, u, 0), self.eq0_or(v, v, 0))
                if c == 1 and len(m) == 1 and self.atoms[m[0]].kind == 'xor':
                    u, v = self.atoms[m[0]].arg
                    return self.eq0(self.isub(u, v))
        return self.eq0(d)

    def ite(self, c, a, b):
        """c ? a : b for a boolean expression c."""
        if isinstance(c, int):
            return a if c else b
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if isinstance(a, W) and isinstance(b, W) and a.key == b.key:
            return a
        A, B = self.w(a), self.w(b)
        r = self.iadd(b, self.imul(c, self.isub(a, b)))
        if isinstance(r, W):
            r = self.simp(W(r.p, max(r.lo, min(A.lo, B.lo)), min(r.hi, max(A.hi, B.hi))))
        return r

    def subst(self, x, assign=None):
        """Replace decided booleans."""
        asg = self.assign if assign is None else assign
        if not isinstance(x, W) or not asg:
            return x
        r = {}
        hit = False
        for m, c in x.p.items():
            n = []
            for i in m:
                if i in asg:
                    hit = True
                    if not asg[i]:
                        c = 0
                        break
                else:
                    n.append(i)
            if c:
                k = tuple(n)
                v = r.get(k, 0) + c
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        if not hit:
            return x
        return self.mk(r, x.lo, x.hi)


# ---------------------------------------------------------------- the solver side
class LIA:
    """Linear queries about the atoms of a Dom: first over the rationals (a relaxation: what is
    impossible there is impossible for integers), then over the integers."""
    QUERIES = 0
    TIME = 0.0
    RES = {'unsat': 0, 'sat': 0, 'unknown': 0}

    def __init__(self, dom, timeout=20000):
        import z3
        self.z3, self.dom = z3, dom
        self.model = None
        self.timeout = timeout
        self.be = {}
        self.facts = []

    def backend(self, kind):
        if kind not in self.be:
            self.be[kind] = Backend(self.z3, self.dom, kind, self.timeout)
            for f in self.facts:
                self.be[kind].range(*f)
        return self.be[kind]

    def fact(self, p, lo, hi):
        self.facts.append((p, lo, hi))
        for b in self.be.values():
            b.range(p, lo, hi)

    def check(self, cond=None):
        """cond: function of a backend giving a list of constraints.  unsat | sat | unknown"""
        import time
        t0 = time.time()
        LIA.QUERIES += 1
        self.model = None
        r = 'unknown'
        try:
            b = self.backend('real')
            r = b.check(cond)
            for seed in (1, 2, 3):
                if r != 'unknown':
                    break
                # another attempt from scratch, with another seed
                b = Backend(self.z3, self.dom, 'real', self.timeout, seed)
                for f in self.facts:
                    b.range(*f)
                r = b.check(cond)
            if r != 'unsat':
                b = self.backend('int')
                r = b.check(cond)
                if r == 'sat':
                    self.model, self.mb = b.model, b
        finally:
            LIA.TIME += time.time() - t0
        LIA.RES[r] = LIA.RES.get(r, 0) + 1
        return r

    def value(self, w):
        if isinstance(w, int):
            return w
        t = 0
        for mm, c in w.p.items():
            v = c
            for i in mm:
                x = self.mb.vars.get(i)
                v *= self.model.eval(x, model_completion=True).as_long() if x is not None else max(0, self.dom.atoms[i].lo)
            t += v
        return t


class Backend:
    def __init__(self, z3, dom, kind, timeout, seed=0):
        self.z3, self.dom, self.kind = z3, dom, kind
        self.s = z3.SolverFor('QF_LRA' if kind == 'real' else 'QF_LIA')
        self.s.set('timeout', timeout)
        if seed:
            self.s.set('random_seed', seed)
            z3.set_param('smt.random_seed', seed)
        self.mk = z3.Real if kind == 'real' else z3.Int
        self.num = z3.RealVal if kind == 'real' else z3.IntVal
        self.vars, self.monos, self.ranged = {}, {}, set()
        self.model = None
        for i in dom.assign:
            self.v(i)

    def v(self, i):
        z3 = self.z3
        if i in self.vars:
            return self.vars[i]
        a = self.dom.atoms[i]
        x = self.mk(f'a{i}')
        self.vars[i] = x
        self.s.add(x >= a.lo, x <= a.hi)
        if self.kind == 'real' and self.dom.isbool(i):
            self.s.add(z3.Or(x == 0, x == 1))
        if i in self.dom.assign:
            self.s.add(x == self.dom.assign[i])
        if a.kind == 'fl':
            t = self.lin(a.arg)
            self.s.add(t - x * (1 << a.k) >= 0, t - x * (1 << a.k) <= (1 << a.k) - 1)
        elif a.kind == 'neg':
            t = self.lin(a.arg)
            # x = 1 <=> t <= -1
            self.s.add(t <= -1 + (a.arg.hi + 1) * (1 - x), t >= a.arg.lo * x)
        elif a.kind == 'eq0':
            t = self.lin(a.arg)
            self.s.add(z3.Implies(x == 1, t == 0), z3.Implies(x == 0, z3.Or(t <= -1, t >= 1)))
        elif a.kind == 'or':
            # only the fact that it is zero exactly when both are
            t, u = self.lin(a.arg[0]), self.lin(a.arg[1])
            self.s.add(x >= t, x >= u, x <= t + u)
        return x

    def mono(self, m):
        z3 = self.z3
        if len(m) == 1:
            return self.v(m[0])
        if m in self.monos:
            return self.monos[m]
        x = self.mk('m' + '_'.join(map(str, m)))
        self.monos[m] = x
        lo, hi = self.dom.mono_range(m)
        self.s.add(x >= lo, x <= hi)
        bs = [i for i in m if self.dom.isbool(i)]
        rest = tuple(i for i in m if not self.dom.isbool(i))
        if bs:
            y = self.mono(rest) if rest else self.num(1)
            for b in bs:
                self.v(b)
            c = z3.And([self.v(b) == 1 for b in bs])
            self.s.add(z3.Or(c, x == 0), z3.Implies(c, x == y))
        elif len(m) == 2 and m[0] == m[1] and self.kind == 'int':
            pass
        return x

    def lin(self, w):
        if isinstance(w, int):
            return self.num(w)
        p = w.p if isinstance(w, W) else w
        e = self.num(p.get((), 0))
        ts = [e] + [self.mono(m) * c for m, c in p.items() if m]
        e = self.z3.Sum(ts) if len(ts) > 1 else e
        if isinstance(w, W) and w.key not in self.ranged:
            self.ranged.add(w.key)
            self.s.add(e >= w.lo, e <= w.hi)
        return e

    def range(self, p, lo, hi):
        e = self.lin(p)
        self.s.add(e >= lo, e <= hi)

    def check(self, cond):
        cs = cond(self) if cond else []
        if not isinstance(cs, (list, tuple)):
            cs = [cs]
        self.s.push()
        self.s.add(*cs)
        r = str(self.s.check())
        self.model = self.s.model() if r == 'sat' else None
        self.s.pop()
        return r
