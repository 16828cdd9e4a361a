"""Meaning of the circuit programs of harness/src/fnscn.rs, independent of the implementation."""
from .poly import Poly


class Prog:
    def __init__(self, toks):
        self.toks = toks
        self.vars = [('one', None)]        # requested variables in order, with the input naming the value
        self.muls = []                     # (index of a var, of b, of c)
        self.lcs = [('in', [('O', 0, None)], None)]   # requested linear constraints in order
        self.inputs = []                   # input variable indices
        self.err = None
        for i, t in enumerate(toks):
            if t == 'a':
                self.vars.append(('a', f'v{i}'))
            elif t == 'i':
                self.vars.append(('i', f'v{i}'))
                self.lcs.append(('in', [('O', len(self.vars) - 1, None)], f'v{i}'))
                self.inputs.append(len(self.vars) - 1)
            elif t == 'm':
                k = len(self.vars)
                self.vars += [('m', f'v{i}a'), ('m', f'v{i}b'), ('m', f'v{i}c')]
                self.muls.append((k, k + 1, k + 2))
            elif t.startswith('e:'):
                ts = [x for x in t[2:].split(',') if x]
                self.lcs.append(('e', [(x[0], int(x[1:]), f'c{i}.{j}') for j, x in enumerate(ts)], None))
            elif t in 'AM':
                self.err = i
                break

    def coef(self, r, k, nm):
        return {'Z': lambda: r.c(0), 'O': lambda: r.c(1), 'N': lambda: r.c(-1), 'F': lambda: r.i(nm)}[k]()

    def value(self, r, j):
        return r.c(1) if j == 0 else r.i(self.vars[j][1])

    def names(self):
        """names of the symbolic inputs"""
        out = [v for _, v in self.vars[1:]]
        for _, ts, _ in self.lcs:
            out += [nm for k, _, nm in ts if k == 'F']
        return out

    def formal(self, r, ts):
        """requested combination: variable index -> coefficient"""
        d = {}
        for k, j, nm in ts:
            d[j] = d.get(j, r.c(0)) + self.coef(r, k, nm)
        return d

    def seeds(self, k=2, extra=()):
        out = []
        for s in range(k):
            out.append({n: (7 * i + 3 + 11 * s * (i + 1)) % 97 + 1 for i, n in enumerate(self.names() + list(extra))})
        return out
