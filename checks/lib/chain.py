"""Long compositions of curve gadgets, decided step by step.

The constraint system recorded from the real gadget is cut at intermediate points.  The cut
wires are guessed (they carry the expected intermediate values in honest runs); what is
concluded never depends on the guess being right: each step is a solver query over the
recorded constraints between two cuts, for every value of the incoming point."""
import random
from . import solver, ecp
from .curvespec import Pt, oncurve, valid, same, chord, tangent, is_id
from .gadget import Case
from .poly import Poly, MOD, gauss
from .scn import Run, vn, imposed_replay
from .solver import Query


def vkey(v):
    return (v[1:], v[0])


class Raw:
    """Raw constraints of a run; variables in `keep` survive the linear elimination."""

    def __init__(self, run):
        self.run, self.m = run, run.mod
        r = run.j['rec']
        self.n = r['n']
        self.one = {vn('A', 1): Poly.const(self.m, 1)}
        self.lins = []
        for q, l in enumerate(r['lcs']):
            s = Poly(self.m)
            for k, i, c in l:
                s = s + Poly.var(self.m, vn(k, i)) * run.coef(c)
            if q == 0:
                continue            # the constant one
            self.lins.append(s.subst(self.one))

    def lc(self, nm):
        s = Poly(self.m)
        for k, i, c in self.run.outs[nm]:
            s = s + Poly.var(self.m, vn(k, i)) * self.run.coef(c)
        return s.subst(self.one)

    def reduce(self, keep):
        self.sub, self.bad = gauss(self.lins, keep)
        self.eqs = []
        for i in range(1, self.n + 1):
            a, b, c = (Poly.var(self.m, vn(k, i)).subst(self.one).subst(self.sub) for k in 'ABC')
            e = a * b - c
            if not e.is_zero():
                self.eqs.append(e)
        self.eqs += self.bad


def wires(run):
    r = run.j['rec']
    return {vn(k.upper(), i + 1): run.val(r[k][i]) for i in range(r['n']) for k in 'abc'}


class Node:
    """x, y, f: polynomials; want(run index) expected point"""

    def __init__(self, name, out=None, const=None):
        self.name, self.out, self.const = name, out, const


class Chain:
    def __init__(self, fld, op, n, spec, patterns, flags):
        """spec(n) -> (nodes, steps); patterns: list of bit lists (honest runs used to find the cuts)"""
        self.fld, self.op, self.n, self.flags = fld, op, n, flags
        self.label = f'{op}({n})/{fld}'
        self.inv = op.startswith('inv')
        self.spec, self.patterns = spec, patterns

    def base_mul(self, bits, T, steps):
        vals = {}
        return vals

    def inputs(self, bits, P):
        return {'P.x': P[0] if P else 0, 'P.y': P[1] if P else 0, 'P.id': int(P is None), **{f'b{i}': b for i, b in enumerate(bits)}}

    def prepare(self):
        """honest runs, cut wires, reduced system.  Raises ValueError when the cuts are not found."""
        self.nodes, self.steps, ev = self.spec(self.fld, self.n)
        runs = []
        for k, bits in enumerate(self.patterns):
            T = ecp.point(self.fld, 3 + k)
            exp = ev(bits, T)
            P = exp['E'] if self.inv else T
            if P is None:
                raise ValueError('pattern outside the domain')
            r = Run(self.fld, 'pt', [self.op, 'v', self.n], self.inputs(bits, P), 'real')
            if r.res != 'ok' or r.j['viol']:
                raise ValueError(f'honest run refused: {r.res}')
            runs.append((r, exp, wires(r)))
        self.run = Run(self.fld, 'pt', [self.op, 'v', self.n], self.inputs(self.patterns[0], (runs[0][1]['E'] if self.inv else ecp.point(self.fld, 3))), 'snowit')
        raw = self.raw = Raw(self.run)
        base, end = ('R', 'P') if self.inv else ('P', 'R')
        self.bits = [raw.lc(f'b{i}') for i in range(self.n)]
        pts = {'T': tuple(raw.lc(f'{base}.{c}') for c in ('x', 'y', 'id')), 'E': tuple(raw.lc(f'{end}.{c}') for c in ('x', 'y', 'id'))}
        order = sorted(runs[0][2], key=vkey)
        byval = {}
        for v in order:
            byval.setdefault(tuple(w[v] for _, _, w in runs), []).append(v)
        lo = ''
        for nd in self.nodes:
            if nd.name in pts:
                continue
            if nd.const is not None:
                z = Poly.const(raw.m, 0)
                pts[nd.name] = (z, z, z + 1) if nd.const == 'O' else None
                continue
            es = [e[nd.name] for _, e, _ in runs]
            c = []
            for k in (0, 1):
                key = tuple(0 if e is None else e[k] for e in es)
                if key not in byval:
                    raise ValueError(f'no wire carries {nd.name}')
                ends = pts['T'][0].vars() | pts['T'][1].vars() | pts['E'][0].vars() | pts['E'][1].vars()
                c.append(([v for v in byval[key] if v not in ends] + byval[key])[0])
            if self.flags:
                key = tuple(int(e is None) for e in es)
                at = max(vkey(c[0]), vkey(c[1]))
                # the flag: a wire with these values close to the coordinates
                cand = sorted(byval.get(key, []), key=lambda v: abs(int(v[1:]) - int(at[0])))
                if not cand:
                    raise ValueError(f'no wire carries the flag of {nd.name}')
                f = Poly.var(raw.m, cand[0])
            else:
                f = pts['T'][2]
            pts[nd.name] = (Poly.var(raw.m, c[0]), Poly.var(raw.m, c[1]), f)
        keep = set()
        for b in self.bits:
            keep |= b.vars()
        for p in pts.values():
            for q in p:
                keep |= q.vars()
        raw.reduce(keep)
        self.keep = keep
        self.pts = {k: Pt(*(q.subst(raw.sub) for q in p)) for k, p in pts.items()}
        self.bits = [b.subst(raw.sub) for b in self.bits]
        # components of the remaining variables
        par = {}

        def find(x):
            while par.setdefault(x, x) != x:
                par[x] = par[par[x]]
                x = par[x]
            return x
        kept = set()
        for p in self.pts.values():
            for q in (p.x, p.y, p.f):
                kept |= q.vars()
        for b in self.bits:
            kept |= b.vars()
        self.kept = kept
        for e in raw.eqs:
            vs = [v for v in e.vars() if v not in kept]
            for v in vs[1:]:
                par[find(v)] = find(vs[0])
        comps = {}
        for e in raw.eqs:
            vs = [v for v in e.vars() if v not in kept]
            key = find(vs[0]) if vs else ('k', tuple(sorted(e.vars())))
            c = comps.setdefault(key, ([], set()))
            c[0].append(e)
            c[1].update(v for v in e.vars() if v in kept)
        self.comps = list(comps.values())
        self.runs = runs
        return self

    def step_eqs(self, st):
        ks = set()
        for nm in ['T'] + st['ins'] + [st['out']]:
            p = self.pts[nm]
            for q in (p.x, p.y, p.f):
                ks |= q.vars()
        for i in st.get('bits', []):
            ks |= self.bits[i].vars()
        return [e for es, ad in self.comps if ad <= ks for e in es]

    def queries(self):
        """[(key, step, case, conclusion index, Query)]"""
        out = []
        for st in self.steps:
            eqs = self.step_eqs(st)
            p = [self.pts[x] for x in st['ins']]
            b = [self.bits[i] for i in st.get('bits', [])]
            for c in st['cases'](self.fld, self.pts['T'], p, b, self.pts[st['out']]):
                if any(q.is_const() and not q.is_zero() for q in c.eqs) or any(q.is_zero() for q in c.nes):
                    continue
                if self.op == 'invmulendo' and st['out'] == 'E':
                    # the flag of the given point is not linked to the flag of the product: it is
                    # a valid point by assumption, so its coordinates decide
                    c = Case(c.label, c.eqs, c.nes, c.concl[:2], False, c.reach)
                for i, q in enumerate(c.concl):
                    Q = Query(f'{self.label}:{st["label"]}:{c.label}:{i}', self.raw.m, eqs + c.eqs, c.nes + [q])
                    out.append((canon(Q, self.kept), st, c, i, Q))
                Q = Query(f'{self.label}:{st["label"]}:{c.label}:reach', self.raw.m, eqs + c.eqs, c.nes)
                if c.reach:
                    out.append((canon(Q, self.kept), st, c, None, Q))
        return out


def canon(Q, kept):
    """text of the query that does not depend on the position of its variables"""
    vs = set()
    for e in Q.eqs + Q.nes:
        vs |= e.vars()
    ren = {v: f'v{i:05}' for i, v in enumerate(sorted(vs, key=lambda v: (v not in kept, vkey(v))))}

    def one(p):
        return tuple(sorted((tuple(sorted((ren[v], e) for v, e in k)), c) for k, c in p.t.items()))
    return (Q.mod, tuple(one(e) for e in Q.eqs), tuple(one(e) for e in Q.nes))


# ---------------------------------------------------------------- specifications
def pm(m, s, T):
    return Pt(T.x, T.y if s > 0 else -T.y, T.f)


def c_double(fld, T, p, b, D):
    R, = p
    return [Case('2O', is_id(R), [], is_id(D), False), Case('2P', [R.f, oncurve(fld, R)], [], tangent(D, R) + [D.f], False, reach=not R.x.is_const())]


def c_addsel(fld, T, p, b, R):
    D, = p
    t = [T.f, oncurve(fld, T), b[0] - 1]
    d = [D.f, oncurve(fld, D)]
    return [Case('1:O+P', is_id(D) + t, [], same(R, T), False),
            Case('1:D+P', d + t, [D.x - T.x], chord(R, D, T) + [R.f], False, True),
            Case('1:P+P', d + t + [D.x - T.x, D.y - T.y], [], tangent(R, T) + [R.f], False, True),
            Case('1:-P+P', d + t + [D.x - T.x, D.y + T.y], [], is_id(R), False, True),
            Case('O+O', is_id(D) + is_id(T), [], is_id(R), False),
            Case('0:O', is_id(D) + [T.f, oncurve(fld, T), b[0]], [], is_id(R), False),
            Case('0:D', d + [T.f, oncurve(fld, T), b[0]], [], same(R, D), False),
            Case('bit', [], [], [b[0] * (b[0] - 1)], False)]


def c_top(fld, T, p, b, R):
    t = [T.f, oncurve(fld, T)]
    return [Case('1', [b[0] - 1] + t, [], same(R, T), False, True), Case('0', [b[0]] + t, [], is_id(R), False, True),
            Case('identity base', is_id(T), [], is_id(R), False, True),
            Case('bit', [], [], [b[0] * (b[0] - 1)], False)]


def c_first2(fld, T, p, b, D):
    return [Case('2T', [T.f, oncurve(fld, T)], [], tangent(D, T), False, True)]


def c_plusT(fld, T, p, b, A):
    D, = p
    return [Case('2T+T', [T.f, oncurve(fld, T), oncurve(fld, D)], [D.x - T.x], chord(A, D, T), False, True)]


def c_dba(signs):
    def f(fld, T, p, b, A2):
        A, = p
        m = MOD[fld]
        out = []
        for v in (0, 1):
            Q = pm(m, signs[v], T)
            inv = Poly.var(m, 's:inv')
            l1 = (Q.y - A.y) * inv
            tx = l1 * l1 - A.x - Q.x
            U = Pt(tx, l1 * (A.x - tx) - A.y, A.f)
            out.append(Case(f'b{v}', [b[0] - v, T.f, oncurve(fld, A), oncurve(fld, T), (Q.x - A.x) * inv - 1], [U.x - A.x],
                            chord(A2, U, A), False, True))
        out.append(Case('bit', [], [], [b[0] * (b[0] - 1)], False))
        return out
    return f


def c_fastend(fld, T, p, b, R):
    A, = p
    t = [T.f, oncurve(fld, T), oncurve(fld, A)]
    return [Case('odd', [b[0] - 1] + t, [A.x - T.x], [R.x - A.x, R.y - A.y, R.f], False, True),
            Case('identity base', is_id(T), [], is_id(R), False, True),
            Case('even', [b[0]] + t, [A.x - T.x], chord(R, A, pm(MOD[fld], -1, T)) + [R.f], False, True),
            Case('bit', [], [], [b[0] * (b[0] - 1)], False)]


BETA = {}


def c_endo(fld, T, p, b, A2):
    A, = p
    return [Case('0', [b[0], T.f], [], [A2.x - A.x, A2.y - A.y], False), Case('1', [b[0] - 1, T.f], [], [A2.x - A.x * BETA[fld], A2.y - A.y], False),
            Case('bit', [], [], [b[0] * (b[0] - 1)], False)]


def c_final(fld, T, p, b, R):
    A, = p
    out = [Case(f'b{v}', [T.f, b[0] - v, oncurve(fld, T)], [], [R.x - (A.x * BETA[fld] if v else A.x), R.y - A.y, R.f], False, True) for v in (0, 1)]
    return out + [Case('bit', [], [], [b[0] * (b[0] - 1)], False), Case('identity base', is_id(T), [], is_id(R), False, True)]


def spec_mul(fld, n):
    nodes, steps = [Node('T'), Node('E')], []

    def R(i):
        return 'E' if i == 0 else f'R{i}'
    for i in range(n - 1, -1, -1):
        if i == n - 1:
            nodes += [Node(R(i))]
            steps.append(dict(label=f'bit {i}', ins=[], bits=[i], out=R(i), cases=c_top))
            continue
        nodes += [Node(f'D{i}'), Node(R(i))]
        steps.append(dict(label=f'double {i}', ins=[R(i + 1)], out=f'D{i}', cases=c_double))
        steps.append(dict(label=f'add and select {i}', ins=[f'D{i}'], bits=[i], out=R(i), cases=c_addsel))

    def ev(bits, T):
        e, r = {'T': T}, None
        for i in range(n - 1, -1, -1):
            d = ecp.add(fld, r, r)
            s = ecp.add(fld, d, T)
            r = s if bits[i] else d
            e.update({f'D{i}': d, R(i): r})
        return e
    return nodes, steps, ev


def spec_fast(fld, n):
    nodes, steps = [Node('T'), Node('E'), Node('D'), Node('A')], []
    steps.append(dict(label='[2]', ins=[], out='D', cases=c_first2))
    steps.append(dict(label='[3]', ins=['D'], out='A', cases=c_plusT))
    last = 'A'
    for i in range(n - 2, 0, -1):
        nodes.append(Node(f'A{i}'))
        steps.append(dict(label=f'bit {i}', ins=[last], bits=[i], out=f'A{i}', cases=c_dba({0: -1, 1: 1})))
        last = f'A{i}'
    steps.append(dict(label='last', ins=[last], bits=[0], out='E', cases=c_fastend))

    def ev(bits, T):
        e = {'T': T}
        e['D'] = ecp.add(fld, T, T)
        a = e['A'] = ecp.add(fld, e['D'], T)
        for i in range(n - 2, 0, -1):
            q = T if bits[i] else ecp.neg(fld, T)
            a = e[f'A{i}'] = ecp.add(fld, ecp.add(fld, a, q), a)
        e['E'] = a if bits[0] else ecp.add(fld, a, ecp.neg(fld, T))
        return e
    return nodes, steps, ev


def spec_endo(fld, n):
    nodes, steps = [Node('T'), Node('E'), Node('D'), Node('A')], []
    steps.append(dict(label='[2]', ins=[], out='D', cases=c_first2))
    steps.append(dict(label='[3]', ins=['D'], out='A', cases=c_plusT))
    last = 'A'
    for i in range(1, 64):
        nodes += [Node(f'B{i}')] + ([Node(f'A{i}')] if i < 63 else [])
        steps.append(dict(label=f'pair {i}', ins=[last], bits=[2 * i], out=f'B{i}', cases=c_dba({0: 1, 1: -1})))
        if i == 63:
            break
        steps.append(dict(label=f'endo {i}', ins=[f'B{i}'], bits=[2 * i + 1], out=f'A{i}', cases=c_endo))
        last = f'A{i}'
    steps.append(dict(label='last', ins=['B63'], bits=[127], out='E', cases=c_final))

    def ev(bits, T):
        e = {'T': T}
        e['D'] = ecp.add(fld, T, T)
        a = e['A'] = ecp.add(fld, e['D'], T)
        for i in range(1, 64):
            q = ecp.neg(fld, T) if bits[2 * i] else T
            a = e[f'B{i}'] = ecp.add(fld, ecp.add(fld, a, q), a)
            if bits[2 * i + 1]:
                a = (a[0] * BETA[fld] % MOD[fld], a[1])
            e[f'A{i}'] = a
        e['E'] = a
        return e
    return nodes, steps, ev


SPECS = {'mul': spec_mul, 'fast': spec_fast, 'endo': spec_endo}


class Broken(Exception):
    """an honest run already shows a violation"""


def patterns(op, n, seed=1):
    rnd = random.Random(f'{op}{n}{seed}')
    top = not op.endswith('endo')
    ps = [[rnd.randrange(2) for _ in range(n)] for _ in range(3)]
    ps += [[1 - b for b in p] for p in ps]
    if top:
        for p in ps:
            p[-1] = 1
    if op in ('mul', 'invmul'):
        tops = range(n - 1) if n <= 12 else sorted({0, n // 4, n // 3, n // 2, 2 * n // 3, n - 2})
        ps += [[rnd.randrange(2) if i < k else int(i == k) for i in range(n)] for k in tops]
    return ps


def make(fld, op, n):
    kind = op.replace('inv', '', 1)
    kind = 'mul' if kind == 'mul' else kind[3:]
    return Chain(fld, op, n, SPECS[kind], patterns(op, n), kind == 'mul')


def coords(p):
    return (0, 0, 1) if p is None else (p[0], p[1], 0)


def outvals(r):
    o = {}
    rec = r.j['rec']
    for nm, lc in r.outs.items():
        o[nm] = sum(r.val({'A': rec['a'], 'B': rec['b'], 'C': rec['c']}[k][j - 1]) * r.val(co) for k, j, co in lc) % r.mod
    return o


def wrong(ch_inv, fld, spec_ev, n, r):
    """does this satisfied real run carry a wrong result?  None when outside the domain"""
    o = outvals(r)
    B = ecp.B[fld]

    def get(nm):
        x, y, f = (o[f'{nm}.{c}'] for c in ('x', 'y', 'id'))
        if f == 1 and x == y == 0:
            return None
        if f == 0 and (y * y - x ** 3 - B) % r.mod == 0:
            return (x, y)
        return 'bad'
    P, R = get('P'), get('R')
    bits = [o[f'b{i}'] for i in range(n)]
    if P == 'bad' or P is None:
        return None
    if any(b not in (0, 1) for b in bits):
        return 'a bit is not 0 or 1'
    if R == 'bad':
        return 'the result is not a curve point'
    base, end = (R, P) if ch_inv else (P, R)
    if base is None:
        return 'the result is the identity' if ch_inv else ('the result is the identity' if spec_ev(bits, P)['E'] is not None else None)
    e = spec_ev(bits, base)['E']
    return None if e == end else 'the result is not the multiple'


def impose(ch, full, P, bits):
    r = imposed_replay(Run(ch.fld, 'pt', [ch.op, 'v', ch.n], ch.inputs(bits, P), 'snowit'), full, ch.inputs(bits, P))
    if r.j['viol']:
        return None
    w = wrong(ch.inv, ch.fld, ch.spec(ch.fld, ch.n)[2], ch.n, r)
    if w is None:
        return None
    return dict(field=ch.fld, scenario='pt', args=[ch.op, 'v', ch.n], what=w, outputs={k: hex(v) for k, v in outvals(r).items()},
                assignment={f'{k}{i}': hex(v) for (k, i), v in full.items()} if len(full) < 4000 else 'omitted (regenerate with this check)')


def full_env(raw, env):
    """assignment of all wires from values of the surviving variables"""
    full = {}
    for i in range(1, raw.n + 1):
        for k in 'ABC':
            v = vn(k, i)
            if v in raw.one:
                full[k, i] = 1
            elif v in raw.sub:
                full[k, i] = raw.sub[v].eval({**{w: 0 for w in raw.sub[v].vars()}, **env})
            else:
                full[k, i] = env.get(v, 0)
    return full


def replay_small(fld, op, n, tlim=30):
    """whole circuit with a concrete point and concrete bits: is there an assignment with a wrong result?"""
    kind = op.replace('inv', '', 1)
    kind = 'mul' if kind == 'mul' else kind[3:]
    ev = SPECS[kind](fld, n)[2]

    class Q:
        pass
    ch = Q()
    ch.fld, ch.op, ch.n, ch.inv, ch.spec = fld, op, n, op.startswith('inv'), SPECS[kind]
    ch.inputs = lambda bits, P: Chain.inputs(ch, bits, P)
    for code in range(1 << n):
        bits = [(code >> i) & 1 for i in range(n)]
        if kind == 'fast' and not bits[-1] or ch.inv and code == 0:
            continue
        T = ecp.point(fld, 5)
        P = ev(bits, T)['E'] if ch.inv else T
        run = Run(fld, 'pt', [op, 'v', n], ch.inputs(bits, P), 'snowit')
        raw = Raw(run)
        raw.reduce(())
        o = {k: raw.lc(k).subst(raw.sub) for k in run.outs}
        want = coords(T if ch.inv else ev(bits, T)['E'])
        fix = [o[f'P.{c}'] - v for c, v in zip(('x', 'y', 'id'), coords(P))] + [o[f'b{i}'] - b for i, b in enumerate(bits)]
        for c, v in zip(('x', 'y', 'id'), want):
            r, m = solver.solve_one(Query(f'{op}({n})/{fld} concrete', raw.m, raw.eqs + fix, [o[f'R.{c}'] - v]), tlim)
            if r == 'sat':
                det = impose(ch, full_env(raw, m), P, bits)
                if det:
                    return det
    return None


def replay_step(ch, bad, tlim=30):
    """propagates a failing step through the rest of the chain, with a concrete base and bits"""
    idx = {s['label']: i for i, s in enumerate(ch.steps)}
    st0, case, ci = bad
    raw = ch.raw
    for (r, exp, w), bits in zip(ch.runs, ch.patterns):
        env = {v: x for v, x in w.items()}
        P = exp['E'] if ch.inv else exp['T']
        env = {v: env[v] for v in env if v not in raw.sub and v not in raw.one}
        k = idx[st0['label']]
        done = set(ch.kept)          # variables already decided
        dec = dict(env)
        undec = set()
        for st in ch.steps[k:]:
            p = ch.pts[st['out']]
            for q in (p.x, p.y, p.f):
                undec |= q.vars()
        own = set()
        tp = ch.pts['T']
        for q in (tp.x, tp.y, tp.f):
            own |= q.vars()
        undec -= own
        ok = True
        for j, st in enumerate(ch.steps[k:]):
            eqs = ch.step_eqs(st)
            out = ch.pts[st['out']]
            free = set()
            for e in eqs:
                free |= {v for v in e.vars() if v not in ch.kept}
            for q in (out.x, out.y, out.f):
                free |= q.vars() & undec
            val = {v: Poly.const(raw.m, dec[v]) for v in dec if v not in free and v not in undec}
            ne = []
            if j == 0:
                e = exp[st['out']]
                ne = [(out.x, coords(e)[0]), (out.y, coords(e)[1]), (out.f, coords(e)[2])]
            if ch.inv and st['out'] == 'E':      # the given point is a curve point
                eqs = eqs + [oncurve(ch.fld, out), out.f]
            got = None
            for a in ([[x] for x in ne] or [[]]):
                r2, m = solver.solve_one(Query('replay', raw.m, [e.subst(val) for e in eqs], [(q - v).subst(val) for q, v in a]), tlim)
                if r2 == 'sat':
                    got = m
                    break
            if got is None:
                ok = False
                break
            for v in free:
                dec[v] = got.get(v, 0)
            undec -= free
        if not ok:
            continue
        full = full_env(raw, dec)
        Pn = None
        if ch.inv:
            p = ch.pts['E']
            Pn = (p.x.eval({**{v: 0 for v in p.x.vars()}, **dec}), p.y.eval({**{v: 0 for v in p.y.vars()}, **dec}))
        det = impose(ch, full, Pn or P, bits)
        if det:
            return det
    return None


def run_sound(ck, fld, op, n, cache, tlim=60, small=()):
    """one chain: every step, every case, every value"""
    label = f'{op}({n})/{fld}'
    ch = make(fld, op, n)
    failed = []
    try:
        ch.prepare()
        # honest runs of the patterns: satisfied, and the right value
        ev = ch.spec(fld, n)[2]
        for (r, exp, _), bits in zip(ch.runs, ch.patterns):
            w = wrong(ch.inv, fld, ev, n, r)
            ck.obl += 1
            if w:
                ck.violation(f'{label}:honest', 'honest run: ' + w, {'field': fld, 'args': [op, 'v', n], 'bits': bits, 'outputs': {k: hex(v) for k, v in outvals(r).items()}})
            else:
                ck.dis += 1
    except ValueError as e:
        ck.obl += 1
        failed.append((None, str(e)))
        ch = None
    if ch is not None:
        qs = ch.queries()
        if ch.inv:      # the witnessed result is a curve point (or the flagged identity)
            T = ch.pts['T']
            eqs = ch.step_eqs(dict(ins=[], out='T'))
            for i, c in enumerate([T.f * (T.f - 1), (1 - T.f) * oncurve(fld, T), T.f * T.x, T.f * T.y]):
                Q = Query(f'{label}:result is a point:{i}', ch.raw.m, eqs, [c])
                qs.append((canon(Q, ch.kept), dict(label='base', ins=[], out='T'), None, i, Q))
        todo = {}
        for q in qs:
            if q[0] not in cache:
                todo.setdefault(q[0], q[4])
        for k, r in zip(todo, solver.solve_all(list(todo.values()), tlim)):
            cache[k] = r
        for key, st, c, i, Q in qs:
            ck.obl += 1
            r, m = cache[key]
            if r == ('sat' if i is None else 'unsat'):
                ck.dis += 1
            elif i is None:
                ck.obl -= 1         # reachability is shown by the honest runs
            else:
                failed.append(((st, c, i), f'{Q.name}: {r}'))
        ck.extra['chain_steps'] = ck.extra.get('chain_steps', 0) + len(ch.steps)
    if not failed:
        return True
    for f, fl, k in small:
        if k <= n:
            det = replay_small(f, fl, k)
            if det:
                ck.violation(f'{fl}({k})/{f}:sound', f'constraints accept a wrong result: {det["what"]}', det)
                return False
    if ch is not None:
        seen = set()
        for b, why in failed[-1:] + failed:     # a late step leaves least to propagate
            if b is None or b[0]['label'] in seen or b[0]['label'] == 'base':
                continue
            seen.add(b[0]['label'])
            if len(seen) > 4:
                break
            det = replay_step(ch, b)
            if det:
                ck.violation(f'{label}:{b[0]["label"]}'.replace(' ', '_'), f'constraints accept a wrong result: {det["what"]}', det)
                return False
    for b, why in failed[:3]:
        ck.inconclusive.append([label, why])
    return False
