"""Scenario runs -> polynomial constraint systems and honest-witness terms."""
import itertools
from . import build
from .poly import Poly, gauss, MOD

def _nonres(m):
    n = 2
    while pow(n, (m - 1) // 2, m) == 1:
        n += 1
    return n


NONRES = {k: _nonres(m) for k, m in MOD.items()}


def vn(k, i):
    return f'{k}{i:07d}'


class Terms:
    """Terms of one symbolic field as polynomials."""
    LIMIT = 40

    def __init__(self, fld, arena):
        self.fld, self.mod = fld, MOD[fld]
        self.nodes = arena['nodes']
        self.path = arena['path']
        self.conc = arena.get('conc', [])
        self._memo = {}
        self.defs = []      # side equations of inverse / square root nodes

    # ---- constants and terms
    def cval(self, s):
        """coefficient string -> int (a constant)"""
        if s.startswith('#'):
            n = self.nodes[int(s[1:])]
            if n[0] != 'c':
                raise ValueError('non-constant coefficient')
            return int(n[1], 16)
        return int(s, 16)

    def val(self, s):
        """concrete shadow value"""
        if s is None:
            return None
        if s.startswith('#'):
            return int(self.nodes[int(s[1:])][1], 16)
        return int(s, 16)

    def coef(self, s):
        """coefficient as a polynomial over named inputs"""
        if s.startswith('#'):
            return self.node(int(s[1:]))
        return Poly.const(self.mod, int(s, 16))

    def node(self, i):
        m = self._memo
        if i in m:
            return m[i]
        st = [i]
        while st:
            k = st[-1]
            if k in m:
                st.pop()
                continue
            n = self.nodes[k]
            op = n[0]
            deps = []
            if op in '+-*' and len(op) == 1:
                deps = [n[2], n[3]]
            elif op in ('n', 'i', 's', '^'):
                deps = [n[2]]
            need = [d for d in deps if d not in m]
            if need:
                st += need
                continue
            if op == 'c':
                r = Poly.const(self.mod, int(n[1], 16))
            elif op == 'v':
                r = Poly.var(self.mod, 'i:' + n[2])
            elif op == '+':
                r = m[n[2]] + m[n[3]]
            elif op == '-':
                r = m[n[2]] - m[n[3]]
            elif op == '*':
                r = m[n[2]] * m[n[3]]
            elif op == 'n':
                r = -m[n[2]]
            elif op == '^' and m[n[2]].is_const():
                r = Poly.const(self.mod, pow(m[n[2]].constval(), int(n[3], 16), self.mod))
            elif op == 'i':
                r = Poly.var(self.mod, f'inv{k}')
                self.defs.append(m[n[2]] * r - 1)
            elif op == 's':
                r = Poly.var(self.mod, f'sqrt{k}')
                self.defs.append(r * r - m[n[2]])
            elif op == '^':
                e = int(n[3], 16)
                r = Poly.var(self.mod, f'pow{k}')
                inv5 = pow(5, -1, self.mod - 1)
                if e % (self.mod - 1) == inv5:
                    self.defs.append(r ** 5 - m[n[2]])
                else:
                    self.opaque = True
            else:
                r = Poly.var(self.mod, f'opq{k}')
            if len(r.t) > self.LIMIT:
                # name large intermediate terms
                v = Poly.var(self.mod, f'def{k}')
                self.defs.append(v - r)
                r = v
            m[k] = r
            st.pop()
        return m[i]

    def term(self, s):
        if s.startswith('#'):
            return self.node(int(s[1:]))
        return Poly.const(self.mod, int(s, 16))

    def path_conds(self, upto=None, negate_last=False):
        """(eqs, nes) of the decisions taken (first `upto`); the last one flipped on request"""
        eqs, nes = [], []
        pth = self.path if upto is None else self.path[:upto]
        for idx, (k, x, y, o) in enumerate(pth):
            if negate_last and idx == len(pth) - 1:
                o = not o
            if k == 0:
                d = self.node(x) - self.node(y)
                (eqs if o else nes).append(d)
            else:
                v = self.node(x)
                s = Poly.var(self.mod, f'sq{idx}')
                if o:
                    eqs.append(s * s - v)
                else:
                    nes.append(v)
                    eqs.append(s * s - v * NONRES[self.fld])
        return eqs, nes


class Run(Terms):
    """One run of a circuit scenario (real or symbolic witness)."""

    def __init__(self, fld, name, args, inputs, mode='sym'):
        self.fld = fld
        self.name, self.args, self.inputs, self.mode = name, [str(a) for a in args], dict(inputs), mode
        self.j = build.run(['circ', mode, fld, name] + self.args, inputs)
        self.res = self.j['res']
        Terms.__init__(self, fld, self.j['arena'])
        self.notes = {k: v for k, v in self.j['notes']}
        self.outs = {}
        self.outvals = {}
        for nm, lc, v in self.j['outs']:
            self.outs[nm] = lc
            self.outvals[nm] = v

    # ---- constraint system
    def system(self):
        return System(self)

    def honest_constraints(self):
        """[(label, poly)] that must vanish under the honest witness terms."""
        r = self.j['rec']
        out = []
        val = {}
        for i in range(r['n']):
            for k in 'abc':
                val[(k.upper(), i + 1)] = self.term(r[k][i])
        for i in range(r['n']):
            out.append((f'gate {i+1} {r["names"][i]}', val['A', i + 1] * val['B', i + 1] - val['C', i + 1]))
        kk = {i: v for i, v in r['k']}
        for q, l in enumerate(r['lcs']):
            s = Poly(self.mod)
            for k, i, c in l:
                s = s + val[k, i] * self.coef(c)
            if q + 1 in kk:
                s = s - self.term(kk[q + 1])
            out.append((f'lc {q+1}', s))
        self._hval = val
        return out

    def honest_out(self, name):
        if not hasattr(self, '_hval'):
            self.honest_constraints()
        s = Poly(self.mod)
        for k, i, c in self.outs[name]:
            s = s + self._hval[k, i] * self.coef(c)
        return s

    def shape(self):
        """Canonical description of the circuit independent of witness values."""
        r = self.j['rec']
        return (r['n'], tuple(r['names']),
                tuple(tuple((k, i, self.coefkey(c)) for k, i, c in l) for l in r['lcs']),
                tuple(i for i, _ in r['k']),
                tuple((n, tuple((k, i, self.coefkey(c)) for k, i, c in l)) for n, l in self.outs.items()))

    def coefkey(self, c):
        if c.startswith('#'):
            n = self.nodes[int(c[1:])]
            if n[0] == 'c':
                return n[1]
            import re       # powers of a symbolic constant are named after what they are, not after their position
            return re.sub(r'pow(\d+)', lambda k: f"pow({self.coefkey('#' + str(self.nodes[int(k[1])][2]))},{self.nodes[int(k[1])][3]})", repr(self.node(int(c[1:]))))
        return c


class System:
    """All constraints of a run with the linear part eliminated.  With symbolic coefficients
    (constants given as named inputs) those stay as 'i:name' variables."""

    def __init__(self, run, keep=()):
        self.run = run
        self.mod = m = run.mod
        r = run.j['rec']
        self.n = r['n']
        kk = {i: v for i, v in r['k']}
        lins, nonlin = [], []
        one = {}
        if r['lcs'] and [x[:2] for x in r['lcs'][0]] == [['A', 1]] and run.coef(r['lcs'][0][0][2]).t == {(): 1} \
                and 1 in kk and run.term(kk[1]).t == {(): 1} if kk.get(1) else False:
            one = {vn('A', 1): Poly.const(m, 1)}
        for q, l in enumerate(r['lcs']):
            s = Poly(m)
            for k, i, c in l:
                s = s + Poly.var(m, vn(k, i)).subst(one) * run.coef(c)
            if q + 1 in kk:
                if q == 0 and one:
                    s = s - 1
                else:
                    # public input: the verifier supplies the value
                    s = s - Poly.var(m, f'k:{q+1}')
            (lins if s.degree() <= 1 else nonlin).append(s)
        self.lins = lins
        self.sub, self.bad = gauss(lins)
        if one:
            self.sub = {**self.sub, **one}
        eqs = [s.subst(self.sub) for s in nonlin]
        gates = []
        for i in range(1, self.n + 1):
            a = Poly.var(m, vn('A', i)).subst(self.sub)
            b = Poly.var(m, vn('B', i)).subst(self.sub)
            c = Poly.var(m, vn('C', i)).subst(self.sub)
            gates.append((i, a, b, c))
        self.gates = gates
        self.outp = {}
        for nm, lc in run.outs.items():
            s = Poly(m)
            for k, i, c in lc:
                s = s + Poly.var(m, vn(k, i)) * run.coef(c)
            self.outp[nm] = s.subst(self.sub)
        # products that only define their own output are dropped
        count = {}
        for _, a, b, c in gates:
            for v in a.vars() | b.vars() | c.vars():
                count[v] = count.get(v, 0) + 1
        for e in list(self.outp.values()) + eqs:
            for v in e.vars():
                count[v] = count.get(v, 0) + 1
        self.dropped = []
        self.eqs = list(eqs) + list(self.bad)
        # iterate: dropping may free other variables, one pass is enough in practice
        for i, a, b, c in gates:
            cv = vn('C', i)
            if c.t == {((cv, 1),): 1} and count.get(cv) == 1 and cv not in a.vars() and cv not in b.vars():
                self.dropped.append((cv, a, b))
            else:
                e = a * b - c
                if not e.is_zero():
                    self.eqs.append(e)

    def out(self, n):
        return self.outp[n]

    def assignment(self, model):
        """Full assignment of every gate variable from a model of the reduced system."""
        env = dict(model)
        need = set()
        for _, a, b in self.dropped:
            need |= a.vars() | b.vars()
        for e in self.sub.values():
            need |= e.vars()
        for _, a, b, c in self.gates:
            need |= a.vars() | b.vars() | c.vars()
        drop = {d[0] for d in self.dropped}
        for v in need:
            if v not in env and v not in drop:
                env[v] = 0
        todo = list(self.dropped)
        while todo:
            rest = []
            for cv, a, b in todo:
                if (a.vars() | b.vars()) <= env.keys():
                    env[cv] = a.eval(env) * b.eval(env) % self.mod
                else:
                    rest.append((cv, a, b))
            if len(rest) == len(todo):
                raise RuntimeError('cyclic dropped gates')
            todo = rest
        full = {}
        for i in range(1, self.n + 1):
            for k in 'ABC':
                v = vn(k, i)
                full[(k, i)] = self.sub[v].eval(env) if v in self.sub else env.get(v, 0)
        return full, env


def imposed_replay(run, full, inputs):
    """Feeds an assignment to the real gadget over the real field; returns the run."""
    inp = dict(inputs)
    for (k, i), v in full.items():
        inp[f'@{k}{i}'] = v
    return Run(run.fld, run.name, run.args, inp, mode='imposed')


def lc_eval(run, full, lc):
    s = 0
    for k, i, c in lc:
        s += full[(k, i)] * run.val(c)
    return s % run.mod
