"""The verification circuit as a system of equations: the real recursion.rs, run against gadget
contracts (harness/src/rcs), with its linear constraints solved and its gates read as products."""
from collections import Counter
from . import build
from .poly import Poly, MOD
from .prf import linv

ONE = 3          # variable A(1)
SHORT = 20


def vid(s):
    return 3 * int(s[1:]) + 'ABC'.index(s[0])


class Strange(Exception):
    """outside what the reading of the circuit covers"""


class Circuit:
    def __init__(self, fld, k, base):
        j = build.run(['shape', fld, k, ''.join('01'[b] for b in base)], bin='rcs')
        if j['res'] != 'true':
            raise Strange('synthesis fails')
        self.fld, self.k, self.m, self.base_bits = fld, k, MOD[fld], base
        self.gens = {tuple(int(x, 16) for x in g): i for i, g in enumerate(j['gens'])}
        self.G = tuple(int(x, 16) for x in j['g'])
        self.beta = int(j['beta'], 16)
        self.log = [l.split(' ') for l in j['log']]
        self.define(j['rec'])
        self.gates()

    # ---- linear part
    def define(self, rec):
        m = self.m
        self.n = rec['n']
        self.d = {}             # variable -> form over earlier variables (short)
        self.long = {}          # variable -> long form over other variables
        self.lin = []           # linear assertions
        self.inputs = []
        power = {i for i, _ in rec['k']}
        seen = set()
        self.nlcs = len(rec['lcs'])
        for q, l in enumerate(rec['lcs'], 1):
            f = {}
            for c, i, v in l:
                x = 3 * i + 'ABC'.index(c)
                x = 0 if x == ONE else x
                f[x] = (f.get(x, 0) + int(v, 16)) % m
            f = {x: c for x, c in f.items() if c}
            if q in power:
                if len(f) != 1 or list(f.values()) != [1]:
                    if q == 1 and set(f) == {0}:
                        self.inputs.append(0)
                        continue
                    raise Strange(f'public input constraint {q}')
                self.inputs.append(next(iter(f)))
                continue
            while True:
                c = [x for x in f if x and x in self.d]
                if not c:
                    break
                self.sub(f, max(c))
            free = [x for x in f if x and x not in self.long]
            if not f:
                continue
            if not free:
                self.lin.append(f)
                continue
            p = max(free)
            if len(f) > SHORT + 1:
                # a variable met for the first time, not the product of a gate, names the sum
                p = max([x for x in free if x not in seen and x % 3 != 2] or [p])
            seen |= set(f)
            iv = -pow(f.pop(p), -1, m)
            g = {x: c * iv % m for x, c in f.items()}
            if len(g) > SHORT:
                self.long[p] = g
            else:
                self.d[p] = g
        self._r = {}

    def sub(self, f, x):
        c = f.pop(x)
        for y, e in self.d[x].items():
            v = (f.get(y, 0) + c * e) % self.m
            if v:
                f[y] = v
            else:
                f.pop(y, None)

    def resolve(self, f):
        """a form over variables that have no definition"""
        f = dict(f)
        while True:
            c = [x for x in f if x in self.d]
            if not c:
                return f
            self.sub(f, max(c))

    def var(self, x):
        if x == ONE or x == 0:
            return {0: 1}
        if x not in self._r:
            self._r[x] = self.resolve({x: 1})
        return self._r[x]

    def expand(self, f):
        """long sums written out"""
        f = self.resolve(f)
        for _ in range(200):
            c = [x for x in f if x in self.long]
            if not c:
                return f
            x = max(c)
            c = f.pop(x)
            for y, e in self.long[x].items():
                for z, w in self.var(y).items() if y else ((0, 1),):
                    v = (f.get(z, 0) + c * e * w) % self.m
                    if v:
                        f[z] = v
                    else:
                        f.pop(z, None)
        raise Strange('long sums nested too deeply')

    def lexpand(self, x):
        if not hasattr(self, '_le'):
            self._le = {}
        if x not in self._le:
            self._le[x] = self.expand({x: 1})
        return self._le[x]

    def form(self, s):
        """a linear form as printed by the harness"""
        f = {}
        if s.startswith('0x') and '*' not in s:
            return {0: int(s, 16)} if int(s, 16) else {}
        for t in s.split('+'):
            c, _, v = t.partition('*')
            for y, e in self.var(vid(v)).items():
                f[y] = (f.get(y, 0) + int(c, 16) * e) % self.m
        return {x: c for x, c in f.items() if c}

    def bits(self, s):
        out = []
        for v in s.split(','):
            f = self.var(vid(v))
            if f == {0: 1}:
                out.append(0)
            elif len(f) == 1 and list(f.values()) == [1]:
                out.append(next(iter(f)))
            else:
                raise Strange('a bit that is not a variable')
        return tuple(out)

    # ---- gates
    def gates(self):
        m = self.m
        used = set()
        for f in list(self.d.values()) + list(self.long.values()) + self.lin:
            used |= set(f)
        used |= set(self.inputs)
        self.prod, self.asrt = {}, []
        for g in range(1, self.n + 1):
            a, b, c = (self.var(3 * g + i) for i in range(3))
            if c == {3 * g + 2: 1}:
                self.prod[3 * g + 2] = (a, b)
            else:
                self.asrt.append((a, b, c, g))
        # booleans, equations under a condition, arithmetic
        self.bool, rest = set(), []
        for a, b, c, g in self.asrt:
            v = {x for f in (a, b, c) for x in f if x}
            if len(v) == 1:
                x, = v
                # (a1 x + a0)(b1 x + b0) - (c1 x + c0)
                q = a.get(x, 0) * b.get(x, 0) % m
                l = (a.get(x, 0) * b.get(0, 0) + a.get(0, 0) * b.get(x, 0) - c.get(x, 0)) % m
                k = (a.get(0, 0) * b.get(0, 0) - c.get(0, 0)) % m
                if q and (q + l) % m == 0 and k == 0:
                    self.bool.add(x)
                    continue
            rest.append((a, b, c, g))
        cnt = Counter()
        for a, b, c, g in rest:
            if not c:
                for f in (a, b):
                    x = self.unless(f)
                    if x:
                        cnt[x] += 1
        self.base = cnt.most_common(1)[0][0] if cnt else None
        self.eqs, self.based, self.arith = [], [], []
        for a, b, c, g in rest:
            if not c and self.base in (self.unless(a), self.unless(b)):
                self.eqs.append(b if self.unless(a) == self.base else a)
            elif not c and any(set(f) == {self.base} for f in (a, b)):
                self.based.append(b if set(a) == {self.base} else a)
            else:
                self.arith.append((a, b, c, g))

    def unless(self, f):
        """x if f is proportional to 1 - x"""
        v = [x for x in f if x]
        if len(v) == 1 and len(f) == 2 and (f[0] + f[v[0]]) % self.m == 0 and v[0] in self.bool:
            return v[0]

    # ---- what equality of forms says about bits and coordinates
    def classes(self):
        self._p = {}
        self.samelen = set()
        self.coordeq, self.otherq = [], []
        for f in self.eqs + self.lin:
            e = self.expand(f)
            pr = self.bitpairs(e)
            if pr is not None:
                for x, y in pr:
                    self.union(x, y)
            else:
                self.otherq.append(e)

    def find(self, x):
        while self._p.get(x, x) != x:
            x = self._p[x]
        return x

    def union(self, x, y):
        x, y = self.find(x), self.find(y)
        if x != y:
            self._p[max(x, y)] = min(x, y)

    def bitpairs(self, e):
        """pairs forced equal by sum c_i (x_i - y_i) = 0 over booleans, c_i = c 2^j"""
        m = self.m
        if not e:
            return []
        groups = {}
        one = e.get(0, 0)
        for x, c in e.items():
            if x:
                if x not in self.bool:
                    return None
                groups.setdefault(min(c, m - c), []).append((x, c))
        if not groups:
            return None
        for c0 in sorted(groups):
            # c0 as the unit: every other coefficient c0 * 2^j
            iv = pow(c0, -1, m)
            js = {}
            for c in groups:
                r = c * iv % m
                r = r if r & (r - 1) == 0 else (m - r)
                if r & (r - 1):
                    break
                js[c] = r.bit_length() - 1
            else:
                break
        else:
            return None
        if max(js.values()) - min(js.values()) > 252:
            return None
        out = []
        for c, l in groups.items():
            if len(l) == 2 and (l[0][1] + l[1][1]) % m == 0:
                out.append((l[0][0], l[1][0]))
            elif len(l) == 1 and (one + l[0][1]) % m == 0 and not any(True for x in out if x[0] == 0):
                out.append((0, l[0][0]))
                one = 0
            else:
                return None
        if one:
            return None
        self.samelen.add(len(out))
        return out

    # ---- points
    def points(self):
        """point id -> combination {basis: Poly}; names of scalars from bit tuples"""
        m = self.m
        self.xy, self.how = {}, {}
        self.unpacked = []
        self.transcript = []
        self.inner = None
        self.scal = {}
        for l in self.log:
            if l[0] == 'point':
                self.xy[int(l[1])] = (self.form(l[2]), self.form(l[3]))
                self.how[int(l[1])] = l[4:]
            elif l[0] == 'absorb':
                self.transcript.append(('absorb', int(l[1]), self.form(l[2])))
            elif l[0] == 'squeeze':
                self.transcript.append(('squeeze', int(l[1]), vid(l[2])))
            elif l[0] == 'unpack':
                self.unpacked.append((self.form(l[1]), self.bits(l[2])))
                self.bool |= set(self.unpacked[-1][1]) - {0}
            elif l[0] == 'inner':
                self.inner = (self.bits(l[1]), self.bits(l[2]))
        self._lc = {}
        self.atpoint = {}
        for p, (x, y) in self.xy.items():
            self.atpoint.setdefault((tuple(sorted(x.items())), tuple(sorted(y.items()))), p)

    def lc(self, p):
        """a point as a combination of witnessed points and constants"""
        m = self.m
        if p in self._lc:
            return self._lc[p]
        chain, q = [], p
        while q not in self._lc and self.how[q][0] in ('add', 'cadd'):
            chain.append(q)
            q = int(self.how[q][1])
        if chain:
            r = dict(self.lc(q))
            for q in reversed(chain):
                h = self.how[q]
                b = Poly.const(m, 1)
                if h[0] == 'cadd':
                    if h[3] == 'const':
                        b = Poly.const(m, int(h[4] == 'true'))
                    else:
                        x, = self.bits(h[4])
                        b = Poly.var(m, f'b{x}') if x else b
                        if h[3] == 'not':
                            b = Poly.const(m, 1) - b
                for k, v in self.lc(int(h[2])).items():
                    v = v * b
                    r[k] = r[k] + v if k in r else v
            r = {k: v for k, v in r.items() if not v.is_zero()}
        else:
            h = self.how[p]
            if h[0] == 'witness':
                r = {f'w{p}': Poly.const(m, 1)}
            elif h[0] == 'const':
                xy = tuple(f.get(0, 0) for f in self.xy[p])
                if xy == self.G:
                    r = {'G': Poly.const(m, 1)}
                elif xy in self.gens:
                    r = {f'gen{self.gens[xy]}': Poly.const(m, 1)}
                elif xy == (0, 0):
                    r = {}
                else:
                    r = {f'const{xy}': Poly.const(m, 1)}
            elif h[0] in ('mul', 'inv', 'endo', 'invendo'):
                s = self.scalar('n' if h[0] in ('mul', 'inv') else 'e', self.bits(h[2]))
                if h[0].startswith('inv'):
                    s = linv(s)
                r = self.times(self.lc(int(h[1])), s)
            else:
                raise Strange(f'point operation {h[0]}')
        self._lc[p] = r
        return r

    def plus(self, a, b):
        r = dict(a)
        for k, v in b.items():
            r[k] = r[k] + v if k in r else v
        return {k: v for k, v in r.items() if not v.is_zero()}

    def times(self, a, s):
        return {k: v * s for k, v in a.items()}

    def minus(self, a, b):
        return self.plus(a, {k: -v for k, v in b.items()})

    def scalar(self, kind, bits):
        t = (kind, tuple(self.find(b) for b in bits))
        if t not in self.scal:
            self.scal[t] = f'{kind}{len(self.scal)}'
        return Poly.var(self.m, self.scal[t])

    def eqpoints(self):
        """pairs of points whose coordinates are forced equal, unless in the base case"""
        canon = {}
        where = {}
        for p, (x, y) in self.xy.items():
            for i, f in enumerate((x, y)):
                where.setdefault((i, tuple(sorted(f.items()))), []).append(p)
        half = {}
        left = []
        for e in self.otherq:
            v = [x for x in e]
            if len(v) == 2 and 0 not in v and (e[v[0]] + e[v[1]]) % self.m == 0:
                a, b = sorted(v)
                hit = None
                for i in (0, 1):
                    pa, pb = where.get((i, ((a, 1),))), where.get((i, ((b, 1),)))
                    if pa and pb:
                        hit = (i, pa[0], pb[0])
                if hit:
                    half.setdefault(hit[1:], set()).add(hit[0])
                    continue
            left.append(e)
        pairs = [p for p, s in half.items() if s == {0, 1}]
        lone = [p for p, s in half.items() if s != {0, 1}]
        return pairs, lone, left

    # ---- challenge scalars and arithmetic
    def challenge_form(self, bits):
        """the linear form that is the challenge scalar of 128 bits, or None if the circuit has none"""
        if not hasattr(self, '_byops'):
            self._byops = {}
            for c, (a, b) in self.prod.items():
                ka, kb = (self.opkey(f) for f in (a, b))
                self._byops.setdefault((ka, kb), c)
                self._byops.setdefault((kb, ka), c)
        m = self.m
        acc = {0: 3}
        for i in range(1, 64):
            acc = {x: 2 * c % m for x, c in acc.items()}
            acc[0] = (acc.get(0, 0) + 1) % m
            for x, c in ((bits[2 * i], -2 % m),):
                acc[x] = (acc.get(x, 0) + c) % m
            acc = {x: c for x, c in acc.items() if c}
            a = {bits[2 * i + 1]: (self.beta - 1) % m}
            c = self._byops.get((tuple(sorted(a.items())), tuple(sorted(acc.items()))))
            if c is None:
                return None
            acc[c] = (acc.get(c, 0) + 1) % m
        return acc

    def opkey(self, f):
        f = self.expand(f) if any(x in self.long for x in f) else f
        return tuple(sorted(f.items()))

    def arithmetic(self, named):
        """named: {expanded form: name}.  (assertion polynomials, roots) once inverses and roots are read off."""
        m = self.m
        memo = {}
        names = {}
        roots, done = {}, set()

        def poly(f):
            key = tuple(sorted(f.items()))
            if key in named:
                return leaf(named[key])
            r = Poly(m)
            for x, c in f.items():
                r = r + (Poly.const(m, 1) if not x else atom(x)).scale(c)
            return r

        def leaf(n):
            return memo[n] if n in memo else Poly.var(m, n)

        def atom(x):
            if x in memo:
                return memo[x]
            if x in self.long:
                e = tuple(sorted(self.lexpand(x).items()))
                return leaf(named[e]) if e in named else Poly.var(m, f'v{x}')
            if x in named:
                return leaf(named[x])
            if x in self.prod:
                a, b = self.prod[x]
                r = poly(a) * poly(b)
                if len(r.t) > 20000:
                    raise Strange('polynomial too large')
                memo[x] = r
                return r
            return Poly.var(m, f'v{x}')

        def lone(f):
            if len(f) == 1 and list(f.values()) == [1]:
                x = next(iter(f))
                if x and x not in self.long and x not in self.prod and x not in memo and x not in self.bool:
                    return x

        todo = list(self.arith)
        # roots first, then inverses, as long as something is found
        for a, b, c, g in list(todo):
            x = lone(a)
            if x and a == b and c:
                t = poly(c)
                n = [v for mono in t.t for v, _ in mono]
                if len(t.t) == 1 and len(n) == 1 and n[0].startswith('c:') and n[0] not in memo:
                    roots[n[0]] = f'r:{n[0][2:]}'
                    memo[x] = Poly.var(m, roots[n[0]])
                    memo[n[0]] = memo[x] ** 2
                    todo.remove((a, b, c, g))
        again = True
        while again:
            again = False
            for a, b, c, g in list(todo):
                if c != {0: 1}:
                    continue
                for u, w in ((a, b), (b, a)):
                    x = lone(u)
                    if x and x not in w:
                        p = poly(w)
                        if len(p.t) == 1 and not p.is_const():
                            memo[x] = linv(p)
                            todo.remove((a, b, c, g))
                            again = True
                            break
        out = []
        for a, b, c, g in todo:
            out.append(poly(a) * poly(b) - poly(c))
        return out, roots
