"""Bit-level reading of a circuit's constraint system.

Every gate is solved locally over the field by ffsolve (which variables it forces to be bits, and which
bit is forced as a function of others); long linear constraints are read as integer equations once their
range is shown to stay below the modulus, and define bits of a sum (lemma discharged by z3).  What comes
out is, for every variable, a Boolean function of the inputs in algebraic normal form over atoms (input
bits and bits of sums), which is canonical and is compared with the same form of the specification."""
import itertools
from . import solver, z3q
from .poly import Poly, MOD
from .solver import Query

ONE = frozenset()


# ------------------------------------------------------------------ ANF
def anf_const(b):
    return frozenset([ONE]) if b else frozenset()


def anf_atom(a):
    return frozenset([frozenset([a])])


def anf_xor(*fs):
    r = frozenset()
    for f in fs:
        r = r ^ f
    return r


def anf_and(f, g):
    r = set()
    for x in f:
        for y in g:
            r ^= {x | y}
    return frozenset(r)


def anf_not(f):
    return f ^ anf_const(1)


def anf_eval(f, val):
    r = 0
    for m in f:
        t = 1
        for a in m:
            if not val(a):
                t = 0
                break
        r ^= t
    return r


# ------------------------------------------------------------------ integer forms: {anf without constant: coef}, () : const
def iform_bit(f, k=1):
    if ONE in f:
        g = f ^ anf_const(1)
        return {(): k, g: -k} if g else {(): k}
    return {f: k} if f else {}


def iform_add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + c * k
        if r[x] == 0:
            del r[x]
    return r


def iform_mul(a, b):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            if x == ():
                z = y
            elif y == ():
                z = x
            else:
                z = anf_and(x, y)
                if not z:
                    continue
                if ONE in z:
                    raise ValueError
            r[z] = r.get(z, 0) + c * d
    return {k: v for k, v in r.items() if v}


def iform_range(a):
    lo = hi = a.get((), 0)
    for k, c in a.items():
        if k != ():
            if c < 0:
                lo += c
            else:
                hi += c
    return lo, hi


class Ctx:
    """Atoms of sums, shared by the circuit and the specification."""

    def __init__(self, M=32):
        self.M = M
        self.sums = []      # id -> (form, modulus bits or None)
        self.ids = {}

    def flatten(self, T):
        """replaces complete words of earlier sums (mod 2^M) by those sums"""
        M, mod = self.M, 1 << self.M
        while True:
            T = {k: c % mod for k, c in T.items() if c % mod}
            found = {}
            for k, c in T.items():
                if k != () and len(k) == 1:
                    (m,) = k
                    if len(m) == 1:
                        (a,) = m
                        if a[0] == 's' and a[2] < M:
                            found.setdefault(a[1], {})[a[2]] = c
            done = True
            for s, d in found.items():
                if self.sums[s][1] is None or 0 not in d:
                    continue
                c0 = d[0]
                if all(d.get(j, 0) == (c0 << j) % mod for j in range(M)):
                    T = {k: v for k, v in T.items()
                         if not (k != () and len(k) == 1 and len(next(iter(k))) == 1
                                 and next(iter(next(iter(k))))[:2] == ('s', s))}
                    T = iform_add(T, self.sums[s][0], c0)
                    done = False
                    break
            if done:
                return T

    def bits(self, T, n=None, exact=False):
        """the n low bits of the sum T"""
        n = n or self.M
        out = [None] * n
        if not exact:
            F = self.flatten(T)
        else:
            F = {k: c for k, c in T.items() if c}
        # disjoint bits: nothing to add
        slots, ok = {}, True
        c = F.get((), 0)
        for k, v in F.items():
            if k == ():
                continue
            if v > 0 and v & (v - 1) == 0 and v.bit_length() - 1 not in slots:
                slots[v.bit_length() - 1] = k
            else:
                ok = False
                break
        if ok and c >= 0 and not any((c >> j) & 1 for j in slots):
            return [slots[j] if j in slots else anf_const((c >> j) & 1) for j in range(n)]
        key = (frozenset(F.items()), exact)
        if key not in self.ids:
            self.ids[key] = len(self.sums)
            self.sums.append((F, None if exact else self.M))
        i = self.ids[key]
        return [anf_atom(('s', i, j)) for j in range(n)]

    def word(self, bits):
        T = {}
        for j, b in enumerate(bits):
            T = iform_add(T, iform_bit(b), 1 << j)
        return T

    # numeric evaluation
    def evaluator(self, inputs):
        memo = {}

        def atom(a):
            if a[0] == 'i':
                return inputs[a[1]]
            _, s, j = a
            if s not in memo:
                F, m = self.sums[s]
                t = F.get((), 0)
                for k, c in F.items():
                    if k != () and anf_eval(k, atom):
                        t += c
                memo[s] = t % (1 << m) if m is not None else t
            return (memo[s] >> j) & 1
        return atom


# ------------------------------------------------------------------ constraint systems
_cache = {}
SHORT = 8


def interp(m, tab, xs):
    """multilinear polynomial of a truth table"""
    t = Poly(m)
    for bits, b in tab.items():
        if b:
            q = Poly.const(m, 1)
            for x, bb in zip(xs, bits):
                q = q * (x if bb else 1 - x)
            t = t + q
    return t


class BitSys:
    def __init__(self, run, inputs, ctx, tlim=30):
        """inputs: {output name of the scenario: input bit name}"""
        self.run, self.ctx, self.tlim = run, ctx, tlim
        self.mod = run.mod
        self.queries = 0
        self.problems = []
        self.lemmas = set()
        self.inputs = inputs
        self.load()
        self.classify()

    # linear forms: {var: coef}, key 0 = constant; variable = 3*i + k
    def form(self, l):
        f = {}
        for k, i, c in l:
            v = 3 * i + 'ABC'.index(k)
            c = self.run.cval(c)
            if v == 3:
                v = 0
            f[v] = (f.get(v, 0) + c) % self.mod
        return {v: c for v, c in f.items() if c}

    def subst(self, f):
        r = {}
        for v, c in f.items():
            e = self.rep.get(v)
            if e is None:
                r[v] = (r.get(v, 0) + c) % self.mod
            else:
                e = self.close(v)
                for w, d in e.items():
                    r[w] = (r.get(w, 0) + c * d) % self.mod
        return {v: c for v, c in r.items() if c}

    def close(self, v):
        e = self.rep[v]
        if any(w in self.rep for w in e):
            e = self.subst(e)
            self.rep[v] = e
        return e

    def load(self):
        import sys
        sys.setrecursionlimit(100000)
        r = self.run.j['rec']
        self.n = r['n']
        self.rep = {}
        kk = {i: self.run.cval(v) for i, v in r['k']}
        # eliminate first what occurs least (wires of a product), not the quantities it defines
        self.occ = {}
        for l in r['lcs']:
            for k, i, c in l:
                v = 3 * i + 'ABC'.index(k)
                self.occ[v] = self.occ.get(v, 0) + 1
        self.pick = lambda vs: max(vs, key=lambda v: (-self.occ.get(v, 0), v))
        long = []
        self.raw = []
        for q, l in enumerate(r['lcs']):
            f = {}
            for k, i, c in l:
                v = 3 * i + 'ABC'.index(k)
                f[v] = (f.get(v, 0) + self.run.cval(c)) % self.mod
            if q == 0:
                if f != {3: 1} or kk.get(1) != 1:
                    raise ValueError('first constraint is not ONE')
                continue
            if 3 in f:
                f[0] = f.pop(3)
            if q + 1 in kk:
                f[0] = (f.get(0, 0) - kk[q + 1]) % self.mod
            f = {v: c for v, c in f.items() if c}
            self.raw.append(f)
            f = self.subst(f)
            vs = [v for v in f if v]
            if not vs:
                if f:
                    self.problems.append('constraints are contradictory')
                continue
            if len(vs) > SHORT:
                long.append(f)
                continue
            self.eliminate(f, self.pick(vs))
        self.rep[3] = {0: 1}
        # long ones can have become short
        todo = long
        while True:
            todo = [self.subst(f) for f in todo]
            sh = [f for f in todo if f and sum(1 for v in f if v) <= SHORT]
            todo = [f for f in todo if sum(1 for v in f if v) > SHORT]
            if not sh:
                break
            for f in sh:
                f = self.subst(f)
                vs = [v for v in f if v]
                if vs:
                    self.eliminate(f, self.pick(vs))
                elif f:
                    self.problems.append('constraints are contradictory')
        self.long = todo
        self.gates = []
        for i in range(1, self.n + 1):
            self.gates.append([i] + [self.subst({3 * i + k: 1}) for k in range(3)])
        self.outf = {n: self.subst(self.form(lc)) for n, lc in self.run.outs.items()}
        cnt = {}
        for f in self.long + list(self.outf.values()) + [x for g in self.gates for x in g[1:]]:
            for v in f:
                cnt[v] = cnt.get(v, 0) + 1
        self.dropped, live = [], []
        for g in self.gates:
            i, a, b, c = g
            cs = [v for v in c if v]
            if len(cs) == 1 and cnt[cs[0]] == 1 and len(c) == 1 and cs[0] not in a and cs[0] not in b:
                self.dropped.append(g)
            else:
                live.append(g)
        self.live = live

    def eliminate(self, f, v):
        inv = -pow(f[v], -1, self.mod)
        self.rep[v] = {w: c * inv % self.mod for w, c in f.items() if w != v}

    # local analysis, cached by shape
    def local(self, forms, target=None, defs=()):
        """forms: a, b, c of a gate.  Without target: is the one variable forced to a bit?  With target:
        the truth table of target over the other variables (bits), where defs = [(var, args, table)] are
        bits already known as functions of others.  Returns (result, argument variables)."""
        vs = sorted({v for f in forms for v in f if v} | {x for d in defs for x in d[1]})
        if target is not None:
            dv = [d[0] for d in defs]
            vs = [v for v in vs if v != target and v not in dv] + dv + [target]
        idx = {v: n for n, v in enumerate(vs)}
        key = (self.mod, target is not None, tuple(tuple(sorted((idx[v] if v else -1, c) for v, c in f.items())) for f in forms),
               tuple((idx[d[0]], tuple(idx[x] for x in d[1]), tuple(sorted(d[2].items()))) for d in defs))
        free = [v for v in vs if v != target and v not in {d[0] for d in defs}]
        if key in _cache:
            return _cache[key], free
        m = self.mod
        X = lambda v: Poly.var(m, f'x{idx[v]}')
        P = []
        for f in forms:
            p = Poly(m)
            for v, c in f.items():
                p = p + (X(v) * c if v else Poly.const(m, c))
            P.append(p)
        gate = P[0] * P[1] - P[2] if len(P) == 3 else P[0]
        res = None
        if target is None:
            x = Poly.var(m, 'x0')
            r, _ = solver.solve_all([Query('bit', m, [gate], [x * (x - 1)])], self.tlim)[0]
            self.queries += 1
            res = 'bits' if r == 'unsat' else ('unknown' if r == 'unknown' else 'free')
        else:
            y = X(target)
            dp = []
            for v, args, tab in defs:
                dp.append((v, interp(m, tab, [X(a) for a in args])))
            g0 = gate
            for v, p in dp[::-1]:
                g0 = g0.subst({f'x{idx[v]}': p})
            tab, ok = {}, True
            for bits in itertools.product((0, 1), repeat=len(free)):
                g = g0.subst({f'x{idx[v]}': Poly.const(m, b) for v, b in zip(free, bits)})
                l = g.linear()
                c1 = l.get(f'x{idx[target]}', 0) if l is not None else 0
                if not c1:
                    ok = False
                    break
                val = -l.get((), 0) * pow(c1, -1, m) % m
                if val not in (0, 1):
                    ok = False
                    break
                tab[bits] = val
            if ok:
                # the solver's confirmation that the bit is forced
                t = interp(m, tab, [X(v) for v in free])
                ass = [X(v) * (X(v) - 1) for v in free] + [X(v) - p for v, p in dp]
                r, _ = solver.solve_all([Query('def', m, [gate] + ass, [y - t])], self.tlim)[0]
                self.queries += 1
                if r == 'unsat':
                    res = tab
        _cache[key] = res
        return res, free

    def table_anf(self, tab, args):
        """ANF of a truth table composed with argument ANFs"""
        k = len(args)
        co = {}
        for bits in itertools.product((0, 1), repeat=k):
            s = 0
            for sub in itertools.product(*[(0, 1) if b else (0,) for b in bits]):
                s ^= tab[sub]
            co[bits] = s
        r = frozenset()
        for bits, c in co.items():
            if c:
                t = anf_const(1)
                for i, b in enumerate(bits):
                    if b:
                        t = anf_and(t, args[i])
                r = r ^ t
        return r

    def classify(self):
        self.known = {}         # var -> ANF
        self.rng = {}           # range of an integer quantity
        self.ints = {}          # var -> integer form
        self.defby = {}         # var -> (argument variables, truth table)
        self.seq = {}
        isbit = set()
        rest = []
        for g in self.live:
            vs = {v for f in g[1:] for v in f if v}
            if len(vs) == 1 and next(iter(vs)) in g[1] and next(iter(vs)) in g[2]:
                r, _ = self.local(g[1:])
                (v,) = vs
                if r == 'bits':
                    isbit.add(v)
                    continue
            rest.append(g)
        self.isbit = isbit
        for on, name in self.inputs.items():
            f = self.outf[on]
            if not (len(f) == 1 and list(f.values()) == [1] and 0 not in f):
                if all(v == 0 for v in f):
                    continue        # a constant operand
                self.problems.append(f'input {on} is not a variable')
                continue
            (v,) = f
            if v not in isbit:
                self.problems.append(f'input bit {on} is not constrained to be 0 or 1')
            self.known[v] = anf_atom(('i', name))
        todo = list(rest) + [('L', f) for f in self.long]
        # index by variable
        use = {}
        state = []
        for t, g in enumerate(todo):
            vs = {v for f in (g[1:] if g[0] != 'L' else [g[1]]) for v in f if v}
            unk = {v for v in vs if v not in self.known}
            state.append(unk)
            for v in unk:
                use.setdefault(v, []).append(t)
        done = [False] * len(todo)
        work = list(range(len(todo)))[::-1]
        self.checks = []
        while work:
            t = work.pop()
            if done[t]:
                continue
            g = todo[t]
            new = self.try_gate(g, state[t]) if g[0] != 'L' else self.try_long(g[1], state[t])
            if new is None:
                continue
            done[t] = True
            for v in new:
                self.seq[v] = len(self.seq)
                for u in use.get(v, []):
                    if v in state[u]:
                        state[u].discard(v)
                        work.append(u)
        self.open = [todo[t] for t in range(len(todo)) if not done[t]]

    def intf(self, f):
        """integer form of a linear form over known variables (centred coefficients)"""
        T = {}
        for v, c in f.items():
            c = c if c <= self.mod // 2 else c - self.mod
            if v == 0:
                T = iform_add(T, {(): c})
            elif v in self.known:
                T = iform_add(T, iform_bit(self.known[v], c))
            else:
                T = iform_add(T, self.ints[v], c)
        return T

    def frange(self, f):
        """range of a linear form over known quantities, as an integer"""
        lo = hi = 0
        for v, c in f.items():
            c = c if c <= self.mod // 2 else c - self.mod
            a, b = (1, 1) if v == 0 else self.rng.get(v, (0, 1))
            lo += min(a * c, b * c)
            hi += max(a * c, b * c)
        return lo, hi

    def try_gate(self, g, unk):
        i, a, b, c = g
        vs = {v for f in g[1:] for v in f if v}
        if not unk:
            self.checks.append(g)
            return []
        if len(unk) != 1:
            return None
        (y,) = unk
        if not any(v in self.ints for v in vs) and len(vs) <= 6:
            defs = []
            while True:
                tab, order = self.local([a, b, c], y, defs)
                if isinstance(tab, dict):
                    self.known[y] = self.table_anf(tab, [self.known[v] for v in order])
                    if len(order) <= 4:
                        self.defby[y] = (order, tab)
                    return [y]
                # unfold a bit known as a function of others
                nxt = [v for v in order if v in self.defby]
                if not nxt or len(order) > 6:
                    break
                v = max(nxt)
                defs = [(v,) + self.defby[v]] + defs
                defs.sort(key=lambda d: self.seq[d[0]])
        if y not in a and y not in b and len(c) == 1 and c[y] == 1:
            try:
                T = iform_mul(self.intf(a), self.intf(b))
            except ValueError:
                return None
            self.ints[y] = T
            (al, ah), (bl, bh) = self.frange(a), self.frange(b)
            ps = [al * bl, al * bh, ah * bl, ah * bh]
            self.rng[y] = (min(ps), max(ps))
            return [y]
        return None

    def try_long(self, f, unk):
        bits = [v for v in unk if v in self.isbit]
        other = [v for v in unk if v not in self.isbit]
        T = self.intf({v: c for v, c in f.items() if v not in unk})
        if not unk:
            self.checks.append(('L', f))
            return []
        if len(other) == 1 and not bits:
            y = other[0]
            c = f[y]
            if c not in (1, self.mod - 1):
                return None
            self.ints[y] = {k: (-v if c == 1 else v) for k, v in T.items()}
            lo, hi = self.frange({v: c for v, c in f.items() if v != y})
            self.rng[y] = (-hi, -lo) if c == 1 else (lo, hi)
            return [y]
        if other or not bits:
            return None
        co = {v: (f[v] if f[v] <= self.mod // 2 else f[v] - self.mod) for v in bits}
        sg = {c > 0 for c in co.values()}
        if len(sg) != 1:
            return None
        s = 1 if sg == {True} else -1
        order = sorted(bits, key=lambda v: abs(co[v]))
        if [abs(co[v]) for v in order] != [1 << j for j in range(len(order))]:
            return None
        # sum over bits = -s*T
        if s == 1:
            T = {k: -v for k, v in T.items()}
        lo, hi = self.frange({v: c for v, c in f.items() if v not in unk})
        if s == 1:
            lo, hi = -hi, -lo
        m = len(order)
        if max(abs(lo), abs(hi)) + (1 << m) >= self.mod:
            self.problems.append('an addition can wrap around the field modulus')
            return None
        if lo < 0 or hi >= 1 << m:
            self.problems.append(f'a sum with range [{lo},{hi}] is forced into {m} bits')
        self.lemmas.add(m)
        M = self.ctx.M
        bs = self.ctx.bits(T)
        if m > M:
            ex = self.ctx.bits(T, m, exact=True)
            bs = bs[:M] + ex[M:]
        for v, x in zip(order, bs):
            self.known[v] = x
        return order

    def out(self, name):
        """ANF of an output quantity, or None"""
        f = self.outf[name]
        vs = [v for v in f if v]
        if any(v not in self.known for v in vs) or len(vs) > 6:
            return None
        tab = {}
        for bits in itertools.product((0, 1), repeat=len(vs)):
            t = (f.get(0, 0) + sum(f[v] * b for v, b in zip(vs, bits))) % self.mod
            if t not in (0, 1):
                return None
            tab[bits] = t
        return self.table_anf(tab, [self.known[v] for v in vs])

    # ---- numeric assignment, with free choices for variables nothing determines
    def assignment(self, inp, choice=None, default=0):
        at = self.ctx.evaluator(inp)
        env = {0: 1}
        choice = choice or {}
        for v, f in self.known.items():
            env[v] = anf_eval(f, at)
        for v, T in self.ints.items():
            env[v] = sum(c * (1 if k == () else anf_eval(k, at)) for k, c in T.items()) % self.mod
        full = {}

        def val(f):
            return sum(c * env.get(v, choice.get(v, default)) for v, c in f.items()) % self.mod
        drop = {}
        for i, a, b, c in self.dropped:
            (v,) = c
            drop[v] = (i, a, b, c[v])
        todo = dict(drop)
        while todo:
            n = len(todo)
            for v, (i, a, b, k) in list(todo.items()):
                if not any(w in todo for w in list(a) + list(b)):
                    env[v] = val(a) * val(b) * pow(k, -1, self.mod) % self.mod
                    del todo[v]
            if len(todo) == n:
                break
        for i in range(1, self.n + 1):
            for k in range(3):
                full[('ABC'[k], i)] = 1 if 3 * i + k == 3 else val(self.subst({3 * i + k: 1}))
        return full

    def holds(self, full):
        """all constraints, numerically"""
        for i in range(1, self.n + 1):
            if (full['A', i] * full['B', i] - full['C', i]) % self.mod:
                return False
        for f in self.raw:
            s = sum(c * (1 if v == 0 else full['ABC'[v % 3], v // 3]) for v, c in f.items()) % self.mod
            if s:
                return False
        return True


def sum_lemmas(ms):
    """Bits whose weighted sum is a number are that number's bits."""
    import z3
    bad = []
    for m in sorted(ms):
        W = m + 1
        u = [z3.BitVec(f'u{i}', 1) for i in range(m)]
        T = z3.BitVec('T', W)
        s = z3.BitVecVal(0, W)
        for i in range(m):
            s = s + (z3.ZeroExt(W - 1, u[i]) << i)
        cat = z3.Concat(*([z3.BitVecVal(0, 1)] + u[::-1]))
        r, _ = z3q.ask([s == T, z3.Or(*[z3.Extract(i, i, T) != u[i] for i in range(m)])], 60)
        if r != 'unsat':
            bad.append((m, r))
    return bad


# ------------------------------------------------------------------ counterexamples
def z3_bit(ctx, f, memo):
    """z3 1-bit vector of an ANF"""
    import z3
    W = 192

    def atom(a):
        if a in memo:
            return memo[a]
        if a[0] == 'i':
            r = z3.BitVec('i:' + a[1], 1)
        else:
            _, s, j = a
            if ('sum', s) not in memo:
                F, m = ctx.sums[s]
                w = m if m is not None else W
                t = z3.BitVecVal(F.get((), 0), w)
                for k, c in F.items():
                    if k != ():
                        t = t + z3.If(bit(k) == 1, z3.BitVecVal(c, w), z3.BitVecVal(0, w))
                memo['sum', s] = t
            t = memo['sum', s]
            r = z3.Extract(j, j, t)
        memo[a] = r
        return r

    def bit(f):
        if f in memo:
            return memo[f]
        r = z3.BitVecVal(0, 1)
        for m in f:
            t = z3.BitVecVal(1, 1)
            for a in sorted(m, key=str):
                t = t & atom(a)
            r = r ^ t
        memo[f] = r
        return r
    return bit(f)


def differ(ctx, pairs, limit=40):
    """Is some pair of bits different for some input?  -> ('unsat'|'sat'|'unknown', {input: bit})"""
    import z3
    pairs = [(f, g) for f, g in pairs if f != g]
    if not pairs:
        return 'unsat', None
    names = set()
    memo = {}
    small = len(ctx.sums) <= 40
    if small:
        q = z3.Or(*[z3_bit(ctx, f, memo) != z3_bit(ctx, g, memo) for f, g in pairs])
        r, m = z3q.ask([q], limit)
        if r == 'sat':
            return r, {d.name()[2:]: m[d].as_long() for d in m.decls() if d.name().startswith('i:')}
        return r, None
    return 'unknown', None


class Numeric:
    """Numeric solution of a system given the input bits, with free choices where nothing determines a
    variable (used to build forged assignments, which are then replayed)."""

    def __init__(self, s):
        self.s = s

    def solve(self, inp, free=0):
        s, m = self.s, self.s.mod
        at = s.ctx.evaluator(inp)
        env = {0: 1}
        for v, f in s.known.items():
            env[v] = anf_eval(f, at)
        for v, T in s.ints.items():
            env[v] = sum(c * (1 if k == () else anf_eval(k, at)) for k, c in T.items()) % m
        todo = list(s.open) + list(s.dropped)
        allv = []
        for g in todo:
            for f in (g[1:] if g[0] != 'L' else [g[1]]):
                allv += [v for v in f if v not in env]
        order = list(dict.fromkeys(allv))
        picks = 0
        while True:
            prog = True
            while prog:
                prog = False
                for g in list(todo):
                    fs = g[1:] if g[0] != 'L' else [g[1]]
                    unk = {v for f in fs for v in f if v not in env}
                    if not unk:
                        todo.remove(g)
                        continue
                    if len(unk) > 1:
                        continue
                    (y,) = unk
                    ev = lambda f: (sum(c * env[v] for v, c in f.items() if v != y) % m, f.get(y, 0))
                    if g[0] == 'L':
                        c0, c1 = ev(fs[0])
                        env[y] = -c0 * pow(c1, -1, m) % m
                    else:
                        (a0, a1), (b0, b1), (c0, c1) = map(ev, fs)
                        if a1 and b1:
                            # quadratic: try small roots
                            ok = [t for t in (free, 1 - free, 0, 1, 2, 3) if ((a0 + a1 * t) * (b0 + b1 * t) - c0 - c1 * t) % m == 0]
                            if not ok:
                                return None
                            env[y] = ok[0]
                        else:
                            k = (a1 * b0 + a0 * b1 - c1) % m
                            r = (a0 * b0 - c0) % m
                            if k == 0:
                                if r:
                                    return None
                                env[y] = free
                            else:
                                env[y] = -r * pow(k, -1, m) % m
                    todo.remove(g)
                    prog = True
            left = [v for v in order if v not in env]
            if not left:
                break
            # bits first, all but one variable of a sum
            bits = [v for v in left if v in s.isbit]
            env[(bits or left)[0]] = free if picks % 3 == 0 else 0
            picks += 1
        full = {}
        for i in range(1, s.n + 1):
            for k in range(3):
                f = s.subst({3 * i + k: 1})
                full[('ABC'[k], i)] = 1 if 3 * i + k == 3 else sum(c * env.get(v, 0) for v, c in f.items()) % m
        return full


class BitCase:
    """A scenario with input bits, and the specification of its outputs.
    inputs: {scenario output: input bit}; drive(bits) -> scenario inputs; spec(S, ctx) -> {output: ANF} where
    S(name) is the ANF of an operand; std(bits) -> {output: bit} the standard's value on concrete input."""

    def __init__(self, fld, name, args, inputs, drive, spec, std, M=32, label=None):
        self.fld, self.name, self.args = fld, name, [str(a) for a in args]
        self.inputs, self.drive, self.spec, self.std, self.M = inputs, drive, spec, std, M
        self.label = label or f'{name}({",".join(self.args)})/{fld}'


def run_case(bc, seed_bits, tlim=30):
    """-> dict(obl, dis, inconclusive, violation, lemmas)"""
    from .scn import Run, imposed_replay
    rep = dict(label=bc.label, obl=0, dis=0, inc=[], viol=None, lemmas=set(), gates=0, sums=0)

    def real(bits, full=None):
        inp = bc.drive(bits)
        if full is None:
            r = Run(bc.fld, bc.name, bc.args, inp, mode='real')
        else:
            r = imposed_replay(base, full, inp)
        outs = {}
        rec = r.j['rec']
        for nm, lc in r.outs.items():
            outs[nm] = sum(r.val({'A': rec['a'], 'B': rec['b'], 'C': rec['c']}[k][j - 1]) * r.val(co) for k, j, co in lc) % r.mod
        return r, outs

    def violation(bits, full, why):
        r, outs = real(bits, full)
        if r.res != 'ok' or r.j['viol']:
            return False
        want = bc.std(bits)
        bad = [n for n in want if outs.get(n) != want[n]]
        if not bad:
            return False
        rep['viol'] = dict(field=bc.fld, scenario=bc.name, args=bc.args, why=why, input_bits=bits,
                           inputs={k: hex(v) for k, v in bc.drive(bits).items()}, wrong=bad[:8],
                           got={n: hex(outs.get(n, 0)) for n in bad[:8]}, want={n: want[n] for n in bad[:8]},
                           forged=full is not None)
        return True
    from .build import HarnessFailure
    try:
        base = Run(bc.fld, bc.name, bc.args, bc.drive(seed_bits), mode='real')
    except HarnessFailure as e:
        if 'panicked at' in str(e) or 'panicked' in str(e):
            rep['honest'] = 'the gadget panics: ' + str(e)[-300:]
        rep['inc'].append(str(e)[-300:])
        return rep
    if base.res != 'ok':
        rep['inc'].append('honest synthesis: ' + base.res)
        rep['honest'] = base.res
        return rep
    rep['gates'] = base.j['rec']['n']
    if base.j['viol']:
        rep['honest'] = f'honest witness violates {len(base.j["viol"])} constraints'
        rep['honest_inputs'] = {k: hex(v) for k, v in bc.drive(seed_bits).items()}
    ctx = Ctx(bc.M)
    try:
        s = BitSys(base, bc.inputs, ctx, tlim)
    except ValueError as e:
        rep['inc'].append(str(e))
        return rep
    rep['lemmas'] = s.lemmas
    want = bc.spec(s.out, ctx)
    rep['obl'] = len(want) + len(bc.inputs)
    nums = [seed_bits] + [{k: b for k in seed_bits} for b in (0, 1)]
    nums += [{k: (hash((k, t)) >> 3) & 1 for k in seed_bits} for t in range(4)]
    pairs, und = [], []
    for n, f in want.items():
        g = s.out(n) if n in s.outf else None
        if g is None or f is None:
            und.append(n)
        elif g == f:
            rep['dis'] += 1
        else:
            pairs.append((n, f, g))
    rep['sums'] = len(ctx.sums)
    bad_in = [p for p in s.problems if 'input' in p]
    rep['dis'] += len(bc.inputs) - len(bad_in)
    num = Numeric(s)
    if pairs:
        r, model = differ(ctx, [(f, g) for _, f, g in pairs])
        if r == 'unsat':
            rep['dis'] += len(pairs)
        else:
            tries = ([{**{k: 0 for k in seed_bits}, **{k: v for k, v in model.items() if k in seed_bits}}] if model else []) + nums
            if not any(violation(b, None, 'outputs differ from the standard') or
                       (lambda f: f and violation(b, f, 'constraints accept a wrong result'))(num.solve(b)) for b in tries):
                rep['inc'].append(f'{len(pairs)} outputs not matched ({pairs[0][0]}), {r}')
    if rep['viol'] is None and (und or s.problems):
        done = False
        if rep['gates'] > 4000:
            nums = []
        for b in nums:
            for free in (1, 0, 2):
                full = num.solve(b, free)
                if full and s.holds(full) and violation(b, full, 'constraints do not determine the result'):
                    done = True
                    break
            if done:
                break
        if not done:
            if und:
                rep['inc'].append(f'{len(und)} outputs undetermined ({und[0]})')
            rep['inc'] += s.problems[:3]
    return rep


# ------------------------------------------------------------------ linear consequences
def lin_reduce(s, target):
    """target reduced by the long linear constraints (Gaussian elimination over the field)"""
    m = s.mod
    piv = {}

    def red(f):
        f = dict(f)
        for v in sorted((x for x in f if x in piv), key=lambda v: piv[v][0]):
            if f.get(v):
                k = f[v]
                for w, c in piv[v][1].items():
                    f[w] = (f.get(w, 0) - k * c) % m
        return {v: c for v, c in f.items() if c}
    for f in s.long:
        while True:
            g = red(f)
            if g == f:
                break
            f = g
        vs = [v for v in f if v]
        if not vs:
            continue
        v = min(vs, key=lambda v: (s.occ.get(v, 0), -v))
        inv = pow(f[v], -1, m)
        n = {w: c * inv % m for w, c in f.items()}
        for u in list(piv):
            g = piv[u][1]
            if v in g:
                k = g[v]
                piv[u] = (piv[u][0], {w: c for w, c in {w: (g.get(w, 0) - k * n.get(w, 0)) % m for w in set(g) | set(n)}.items() if c})
        piv[v] = (len(piv), n)
    return red(target)


def lin_comb(s, terms):
    """sum of coefficient * output as a linear form"""
    f = {}
    for k, n in terms:
        for v, c in s.outf[n].items():
            f[v] = (f.get(v, 0) + k * c) % s.mod
    return {v: c for v, c in f.items() if c}
