"""Word-level obligations: run a wrapper symbolically over its machine words, compare with the
specification as exact integers modulo the field prime, decide what is left with the solver."""
import ctypes, random, time
from .bv import Dom, W, LIA, Unsupported
from .ir import Exec, explore, Panic

P = 0x5c5e464a35c12769bac2a757742b393081be9c1a3201248299fffe7d00000001
Q = 0x5c5e464a35c12769bac2a757742b39311b849d0f1801860419fffe7d00000001
R = 1 << 256
MOD = {'fp': P, 'fq': Q}
# inputs:  ('fe', modulus) canonical element | ('u', bits) word(s) | ('bytes', n) | ('bool',)
# outputs: ('fe', modulus) | ('u', bytes)


def in_size(k):
    return {'fe': 32, 'bool': 1}.get(k[0]) or (k[1] // 8 if k[0] == 'u' else k[1])


def out_size(k):
    return 32 if k[0] == 'fe' else k[1]


class Native:
    def __init__(self, lib):
        self.lib = lib

    def call(self, fn, ins, outs):
        """ins: [(kind, integer as stored in memory)] -> [integers as stored]"""
        bufs = []
        for k, v in ins:
            n = in_size(k)
            a = (ctypes.c_uint64 * ((n + 15) // 16 * 2 + 2))()
            p = (ctypes.addressof(a) + 15) // 16 * 16
            ctypes.memmove(p, v.to_bytes(n, 'little'), n)
            bufs.append((a, p, n))
        ob = []
        for k in outs:
            n = out_size(k)
            a = (ctypes.c_uint64 * ((n + 15) // 16 * 2 + 2))()
            p = (ctypes.addressof(a) + 15) // 16 * 16
            ob.append((a, p, n))
        f = getattr(self.lib, fn)
        f.restype = None
        f(*[ctypes.c_void_p(p) for _, p, _ in bufs + ob])
        return [int.from_bytes(ctypes.string_at(p, n), 'little') for _, p, n in ob]


class Word:
    """One symbolic input: the integer it holds (over limb or byte atoms)."""

    def __init__(self, ex, name, kind, conc=None):
        d = ex.dom
        n = in_size(kind)
        self.kind = kind
        self.addr = ex.mem.alloc(n)
        self.lo, self.hi = 0, (1 << 8 * n) - 1
        if kind[0] == 'fe':
            self.hi = kind[1] - 1
        if kind[0] == 'bool':
            self.hi = 1
        step = (kind[2] if len(kind) > 2 else 1) if kind[0] == 'bytes' else min(8, n)
        self.parts = []
        v = 0
        for i in range(0, n, step):
            if conc is not None:
                x = (conc >> 8 * i) & ((1 << 8 * step) - 1)
            else:
                x = d.var(f'{name}.{i // step}', 0, min(self.hi, (1 << 8 * step) - 1))
            self.parts.append(x)
            ex.store(self.addr + i, step, x)
            v = d.iadd(v, d.imul(x, 1 << 8 * i))
        self.v = d.simp(W(v.p, self.lo, self.hi)) if isinstance(v, W) else v


class WordCheck:
    CANDS = 40

    def __init__(self, ck, mod, native):
        self.ck, self.mod, self.nat = ck, mod, Native(native)
        self.memo = {}
        self.used = set()
        self.steps = 0

    def run(self, fn, ins, outs, conc=None):
        """-> [(exec, [Word], [output integers] or Panic)] over all paths"""
        res = []
        words = {}

        def make(pre):
            ex = Exec(self.mod, Dom(), decisions=pre)
            ws = [Word(ex, f'x{i}', k, None if conc is None or conc[i] is None else conc[i]) for i, k in enumerate(ins)]
            os_ = [ex.mem.alloc(out_size(k)) for k in outs]
            words[id(ex)] = (ws, os_)
            return ex

        def go(ex):
            ws, os_ = words[id(ex)]
            ex.call(fn, [w.addr for w in ws] + os_)
            out = []
            for a, k in zip(os_, outs):
                n = out_size(k)
                v = 0
                for i in range(0, n, 8):
                    s = min(8, n - i)
                    v = ex.dom.iadd(v, ex.dom.imul(ex.load(a + i, s), 1 << 8 * i))
                out.append(ex.dom.subst(v))
            return out
        for ex, r in explore(make, go):
            self.used |= ex.used
            self.steps += ex.steps
            res.append((ex, words[id(ex)][0], r))
        return res

    # -------------------------------------------------------------- the decision
    def lia(self, ex, ws):
        L = LIA(ex.dom)
        for w in ws:
            if isinstance(w.v, W) and w.kind[0] == 'fe':
                L.fact(w.v, w.lo, w.hi)
        fes = [w for w in ws if w.kind[0] == 'fe' and isinstance(w.v, W)]
        for i, a in enumerate(ws):
            for b in ws[i:]:
                if isinstance(a.v, W) and isinstance(b.v, W) and len(ws) <= 2:
                    ab = ex.dom.imul(a.v, b.v)
                    L.fact(ab, 0, a.hi * b.hi)
        return L

    def congruent(self, ex, L, e, m):
        """Is the integer e divisible by m for all inputs?  'unsat' means yes."""
        if isinstance(e, int):
            return 'unsat' if e % m == 0 else 'sat'
        r = {}
        for k, c in e.p.items():
            c %= m
            if c > m // 2:
                c -= m
            if c:
                r[k] = c
        if not r:
            return 'unsat'
        bs = sorted({i for k in r for i in k})
        if all(ex.dom.isbool(i) for i in bs) and len(bs) <= 10:
            # the residual is a combination of carries: rule out every combination that matters
            out = 'unsat'
            for bits in range(1 << len(bs)):
                env = {i: bits >> j & 1 for j, i in enumerate(bs)}
                if ex.dom.evalb(r, env) % m == 0:
                    continue
                v = L.check(lambda B: [B.v(i) == x for i, x in env.items()])
                if v != 'unsat':
                    return v
            return out

        def cond(B):
            q, rem = B.mk(f'q{LIA.QUERIES}'), B.mk(f'r{LIA.QUERIES}')
            return [B.lin(r) == m * q + rem, rem >= 1, rem <= m - 1]
        return L.check(cond)

    def check(self, label, fn, ins, outs, rels, ref, pre=None):
        """rels(ex, ws, outs) -> list of (name, kind, data): ('mod', e, m) e = 0 mod m;
        ('le', e, bound); ('eq', e) exact; ('iff', flag, cond).  ref(ints) -> expected ints (None
        entries are not compared).  pre: predicate on concrete inputs."""
        ck = self.ck
        try:
            paths = self.run(fn, ins, outs)
        except Unsupported as e:
            ck.obl += 1
            bad = self.search(fn, ins, outs, ref, [], pre)
            if bad is not None:
                return self.report(label, fn, ins, outs, ref, bad, 'wrong result')
            ck.inconclusive.append([label, f'outside the interpreter: {e}'])
            return
        for ex, ws, r in paths:
            L = self.lia(ex, ws)
            if isinstance(r, Panic):
                ck.obl += 1
                v = L.check()
                if v == 'unsat':
                    ck.dis += 1
                    continue
                bad = self.refute(L, v, fn, ws, ins, outs, ref, pre)
                if bad is not None:
                    self.report(label, fn, ins, outs, ref, bad, 'panics')
                else:
                    ck.inconclusive.append([label, 'a panic was not excluded'])
                continue
            try:
                rs = list(rels(ex, ws, r))
            except Unsupported as e:
                ck.obl += 1
                bad = self.search(fn, ins, outs, ref, [], pre)
                if bad is not None:
                    return self.report(label, fn, ins, outs, ref, bad, 'wrong result')
                ck.inconclusive.append([label, f'outside the interpreter: {e}'])
                continue
            for rel in rs:
                ck.obl += 1
                name, kind = rel[0], rel[1]
                v = self.decide(ex, L, rel)
                if v == 'unsat':
                    ck.dis += 1
                    continue
                bad = self.refute(L, v, fn, ws, ins, outs, ref, pre)
                if bad is None:
                    bad = self.search(fn, ins, outs, ref, [], pre)
                if bad is None and len(ins) >= 1:
                    bad = self.resolve(fn, ins, outs, rels, ref, pre)
                if bad is not None:
                    return self.report(label, fn, ins, outs, ref, bad, name)
                ck.inconclusive.append([f'{label}: {name}', v])

    def decide(self, ex, L, rel):
        kind = rel[1]
        if kind == 'mod':
            return self.congruent(ex, L, rel[2], rel[3])
        if kind == 'le':
            if isinstance(rel[2], int):
                return 'unsat' if rel[2] <= rel[3] else L.check()
            if rel[2].hi <= rel[3]:
                return 'unsat'
            return L.check(lambda B: B.lin(rel[2]) >= rel[3] + 1)
        if kind == 'eq':
            if isinstance(rel[2], int):
                return 'unsat' if rel[2] == 0 else L.check()
            return L.check(lambda B: L.z3.Or(B.lin(rel[2]) >= 1, B.lin(rel[2]) <= -1))
        if kind == 'iff':
            return L.check(lambda B: (B.lin(rel[2]) == 1) != rel[3](B))
        if kind == 'is':
            return L.check(lambda B: L.z3.Not(rel[2](B)))
        raise Unsupported(kind)

    def values(self, L, ws):
        return [L.value(w.v) for w in ws]

    def agree(self, fn, ins, outs, ref, vals):
        want = ref(*vals)
        got = self.nat.call(fn, list(zip(ins, vals)), outs)
        return all(w is None or g == w for g, w in zip(got, want)), got, want

    def refute(self, L, verdict, fn, ws, ins, outs, ref, pre):
        if verdict != 'sat' or L.model is None:
            return None
        vals = self.values(L, ws)
        if pre and not pre(*vals):
            return None
        if any(w.kind[0] == 'fe' and v >= w.kind[1] for w, v in zip(ws, vals)):
            return None
        ok, _, _ = self.agree(fn, ins, outs, ref, vals)
        return None if ok else vals

    def corner(self, k, rnd, i):
        n = 8 * in_size(k)
        hi = k[1] if k[0] == 'fe' else (2 if k[0] == 'bool' else 1 << n)
        c = [0, 1, hi - 1, hi - 2, (hi - 1) // 2, (hi + 1) // 2, R % hi, pow(2, n // 2, hi) if hi > 2 else 1, (1 << 64) - 1, 1 << 64, (1 << 128) - 1,
             ((1 << 256) - 1) // 3, ((1 << 192) - 1) << 64, (1 << 192) - 1, 2, 3]
        if i < len(c):
            return c[i] % hi
        if i % 3 == 0:
            v = 0
            for j in range(0, n, 64):
                v |= rnd.choice([0, 1, (1 << 64) - 1, (1 << 64) - 2, 1 << 63, rnd.getrandbits(64)]) << j
            return v % hi
        return rnd.randrange(hi)

    def search(self, fn, ins, outs, ref, extra, pre):
        """Only used to confirm what the solver could not: concrete inputs on the real code."""
        rnd = random.Random(1)
        for t in range(600):
            vals = [self.corner(k, rnd, t if j == 0 else rnd.randrange(24)) for j, k in enumerate(ins)]
            if pre and not pre(*vals):
                continue
            ok, _, _ = self.agree(fn, ins, outs, ref, vals)
            if not ok:
                return vals
        return None

    def resolve(self, fn, ins, outs, rels, ref, pre):
        """Fix all inputs but one (products become linear, so a model is exact)."""
        rnd = random.Random(2)
        t0 = time.time()
        for t in range(self.CANDS):
            if time.time() - t0 > 60:
                break
            keep = t % len(ins)
            conc = [None if j == keep else self.corner(k, rnd, rnd.randrange(24)) for j, k in enumerate(ins)]
            try:
                for ex, ws, r in self.run(fn, ins, outs, conc):
                    if isinstance(r, Panic):
                        continue
                    L = self.lia(ex, ws)
                    for rel in rels(ex, ws, r):
                        v = self.decide(ex, L, rel)
                        bad = self.refute(L, v, fn, ws, ins, outs, ref, pre)
                        if bad is not None:
                            return bad
            except Unsupported:
                pass
        return None

    def report(self, label, fn, ins, outs, ref, vals, name):
        ok, got, want = self.agree(fn, ins, outs, ref, vals)
        self.ck.violation(label, f'{fn}: {name}',
                          {'function': fn, 'inputs': [hex(v) for v in vals], 'got': [hex(v) for v in got], 'want': [None if v is None else hex(v) for v in want]})

    def finish(self):
        from . import solver
        ck = self.ck
        ck.functions = sorted(f for f in self.used if 'halo::' in f or '::' not in f)
        ck.extra['ir_instructions'] = self.steps
        lia_stats()


def lia_stats():
    from . import solver
    solver.STATS['queries'] += LIA.QUERIES
    solver.STATS['time'] += LIA.TIME
    for k, v in LIA.RES.items():
        solver.STATS[k] += v


def run_cases(ck, gen):
    """gen(wc, field, modulus) yields (function, ins, outs, relations, reference)"""
    from . import irbuild, par
    irbuild.build()
    mod, nat = irbuild.load(), irbuild.native()
    jobs = []
    for f, m in MOD.items():
        for fn, ins, outs, rels, ref in gen(None, f, m):
            def job(sub, a=(fn, fn, ins, outs, rels, ref)):
                wc = WordCheck(sub, mod, nat)
                wc.check(*a)
                sub.functions = sorted(f for f in wc.used if 'halo::' in f or '::' not in f)
                sub.extra['ir_instructions'] = wc.steps
            jobs.append((fn, job))
    par.parallel(ck, jobs)
