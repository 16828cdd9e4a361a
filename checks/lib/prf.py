"""Proof-level scenarios: terms are Laurent polynomials over the inputs, the transcript
challenges and the square roots of the challenge scalars."""
from . import build
from .poly import Poly, MOD
from .scn import Terms

OTHER = {'p': 'q', 'q': 'p'}
BETA = {}


def endo(fld, v):
    """the challenge scalar of a packed challenge (rule judged by C13)"""
    if not BETA:
        BETA.update({k: int(x, 16) for k, x in build.run(['fn', 'real', 'p', 'consts'], bin='prf')['notes']})
    m = MOD[fld]
    acc = 3
    for i in range(1, 64):
        acc = 2 * acc + (-1 if v >> (2 * i) & 1 else 1)
        if v >> (2 * i + 1) & 1:
            acc = acc * BETA[fld]
        acc %= m
    return acc


def is_square(fld, v):
    m = MOD[fld]
    return pow(v, (m - 1) // 2, m) in (0, 1)


def packed(fld, n, start=12):
    """n packed challenges whose scalars are squares"""
    out, v = [], start
    while len(out) < n:
        if is_square(fld, endo(fld, v)):
            out.append(v)
        v += 7
    return out


class LTerms(Terms):
    """Terms with negative exponents for inverses of monomials; a challenge scalar is the square of its root."""
    LIMIT = 10 ** 9
    NAME = None      # name terms longer than this

    def __init__(self, fld, arena):
        Terms.__init__(self, fld, arena)
        self.root = {}           # node whose square root was taken -> root name
        for k, n in enumerate(self.nodes):
            if n[0] == 's':
                self.root[n[2]] = f'root{n[2]}'
        self.nonmono = []
        self.named = {}          # name -> Poly

    def node(self, i):
        m = self._memo
        if i in m:
            return m[i]
        st = [i]
        while st:
            k = st[-1]
            if k in m:
                st.pop()
                continue
            n = self.nodes[k]
            op = n[0]
            deps = []
            if op in ('+', '-', '*'):
                deps = [n[2], n[3]]
            elif op in ('n', 'i', '^'):
                deps = [n[2]]
            need = [d for d in deps if d not in m]
            if need:
                st += need
                continue
            if k in self.root and op == 'o':
                r = Poly.var(self.mod, self.root[k]) ** 2
            elif op == 'c':
                r = Poly.const(self.mod, int(n[1], 16))
            elif op == 'v':
                r = Poly.var(self.mod, 'i:' + n[2])
            elif op == '+':
                r = m[n[2]] + m[n[3]]
            elif op == '-':
                r = m[n[2]] - m[n[3]]
            elif op == '*':
                r = m[n[2]] * m[n[3]]
            elif op == 'n':
                r = -m[n[2]]
            elif op == 'i':
                p = m[n[2]]
                if len(p.t) == 1:
                    (mono, c), = p.t.items()
                    r = Poly(self.mod, {tuple((v, -e) for v, e in mono): pow(c, -1, self.mod)})
                else:
                    r = Poly.var(self.mod, f'inv{k}')
                    self.nonmono.append(k)
            elif op == 's':
                r = Poly.var(self.mod, self.root[n[2]])
                if self.nodes[n[2]][0] != 'o':
                    self.nonmono.append(k)
            elif op == 'o':
                r = Poly.var(self.mod, n[2] if n[2].startswith('chal:') else f'{n[2]}')
            else:
                r = Poly.var(self.mod, f'opq{k}')
            if self.NAME and len(r.t) > self.NAME:
                nm = f'def{k}'
                self.named[nm] = r
                r = Poly.var(self.mod, nm)
            m[k] = r
            st.pop()
        return m[i]

    def expand(self, p, limit=200000):
        """substitutes named terms, largest first, until none is left"""
        while True:
            ns = [v for v in p.vars() if v in self.named]
            if not ns or not p.t:
                return p
            v = max(ns, key=lambda s: int(s[3:]))
            d = self.named[v]
            r = {}
            rest = Poly(self.mod)
            groups = {}
            for mono, c in p.t.items():
                e = dict(mono).get(v, 0)
                mm = tuple(x for x in mono if x[0] != v)
                groups.setdefault(e, {})[mm] = c
            for e, t in groups.items():
                rest = rest + Poly(self.mod, t) * d ** e
                if len(rest.t) > limit:
                    raise TooBig
            p = rest

    def zero(self, p):
        return self.expand(p).is_zero()


class TooBig(Exception):
    pass


class PRun:
    NAME = 12

    def __init__(self, fld, name, args, inputs, mode='sym', timeout=600):
        self.fld, self.mod, self.name, self.args, self.mode = fld, MOD[fld], name, [str(a) for a in args], mode
        self.inputs = dict(inputs)
        self.j = build.run(['fn', mode, fld, name] + self.args, inputs, timeout=timeout, bin='prf')
        self.T = LTerms(fld, self.j['arenas'][fld])
        self.T.NAME = self.NAME
        self.B = LTerms(OTHER[fld], self.j['arenas'][OTHER[fld]])
        self.panic = self.j['panic']
        self.notes = {}
        self.multi = {}
        for k, v in self.j['notes']:
            self.notes[k] = v
            self.multi.setdefault(k, []).append(v)
        self.raw = {k: v for k, v in self.j['vals']}

    @property
    def real(self):
        return self.mode == 'real'

    def v(self, name):
        return self.T.term(self.raw[name])

    def lc(self, s):
        out = {}
        if s:
            for t in s.split('+'):
                b, _, i = t.partition('*#')
                out[b] = self.T.node(int(i))
        return out

    def g(self, name):
        return self.lc(self.notes['g:' + name])

    def i(self, name):
        return Poly.var(self.mod, 'i:' + name)

    # transcript
    def events(self):
        """[(mark | None, history number, value)] in order"""
        out = []
        for k, v in self.j['notes']:
            if k == 'mark':
                out.append(('mark', v, None))
            elif k == 'squeeze':
                n, _, val = v.partition(' ')
                out.append(('sq', int(n), val))
        return out

    def hist(self, n):
        h = self.notes[f'hist:{n}']
        return h.split(',') if h else []

    def coords(self):
        """coordinate name -> distinct group elements (as scalar combinations) that carry it"""
        out = {}
        for k, vs in self.multi.items():
            if k.startswith('coord:'):
                out[k[6:]] = vs
        return out

    # challenges
    def rootvar(self, name):
        """the root of the challenge scalar of the packed challenge `name`"""
        if name.startswith('i:'):
            i = next((k for k, n in enumerate(self.T.nodes) if n[0] == 'v' and n[2] == name[2:]), None)
        else:
            i = int(self.raw[name].lstrip('#'))
        for k, n in enumerate(self.T.nodes):
            if n[0] == 'o' and n[2] == f'endo:{i}' and k in self.T.root:
                return Poly.var(self.mod, self.T.root[k])
        raise KeyError(f'no root of the challenge scalar of {name}')

    def endovar(self, i):
        """the challenge scalar of node i"""
        for k, n in enumerate(self.T.nodes):
            if n[0] == 'o' and n[2] == f'endo:{i}':
                return self.T.node(k)
        raise KeyError(f'no challenge scalar of node {i}')


def linv(p):
    """inverse of a monomial"""
    (mono, c), = p.t.items()
    return Poly(p.m, {tuple((v, -e) for v, e in mono): pow(c, -1, p.m)})


def bpoly(x, roots):
    """the polynomial the folded generator commits to, at x"""
    k = len(roots)
    r = Poly.const(x.m, 1)
    for m in range(k):
        c = roots[k - 1 - m]
        r = r * (linv(c) + c * x)
        x = x * x
    return r


def scoef(i, roots):
    k = len(roots)
    r = Poly.const(roots[0].m, 1) if roots else None
    for m in range(k):
        c = roots[k - 1 - m]
        r = r * (c if i >> m & 1 else linv(c))
    return r
