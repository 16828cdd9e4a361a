"""Native (value-level) code: every execution path is run symbolically, the results are compared
with the specification as polynomial identities / finite-field queries, path by path."""
import os
from . import build, solver
from .build import HarnessFailure
from . import ecp
from .poly import Poly, MOD
from .scn import Terms
from .solver import Query


class BigTerms(Terms):
    LIMIT = 4000


OTHER = {'p': 'q', 'q': 'p'}


class FnRun:
    def __init__(self, fld, name, args, inputs, mode='sym', cpus=None, exe=None):
        self.fld, self.mod, self.name, self.args = fld, MOD[fld], name, [str(a) for a in args]
        self.mode, self.inputs = mode, dict(inputs)
        self.j = build.run(['fn', mode, fld, name] + self.args, inputs, cpus=cpus)
        self.T = BigTerms(fld, self.j['arenas'][fld])
        self.TB = BigTerms(OTHER[fld], self.j['arenas'][OTHER[fld]])
        self.panic = self.j['panic']
        self.notes = {k: v for k, v in self.j['notes']}
        self.raw = {k: v for k, v in self.j['vals']}
        self.outs = {n: l for n, l, _ in self.j['outs']}

    @property
    def real(self):
        return self.mode == 'real'

    def v(self, name):
        return self.T.term(self.raw[name])

    def t(self, s):
        return self.T.term(s)

    def i(self, name):
        if self.real:
            return Poly.const(self.mod, self.inputs[name])
        return Poly.var(self.mod, 'i:' + name)

    def c(self, k):
        return Poly.const(self.mod, k)

    # group elements
    def g(self, name):
        s = self.notes['g:' + name]
        out = {}
        if s:
            for t in s.split('+'):
                b, _, i = t.partition('*#')
                out[b] = self.T.node(int(i))
        return out

    def eq(self, label, a, b):
        return [(label, [], [a - b])]

    def geq(self, label, name, want):
        """group output `name` equals the combination want: basis -> Poly"""
        if not self.real:
            got = self.g(name)
            z = Poly(self.mod)
            return [(f'{label}[{b}]', [], [got.get(b, z) - want.get(b, z)]) for b in sorted(set(got) | set(want))]
        acc = None
        for b, p in want.items():
            k = p.constval()
            if k:
                acc = ecp.add(OTHER[self.fld], acc, ecp.mul(OTHER[self.fld], k, self.point('basis:' + b)))
        got = self.point('g:' + name)
        return [(label, [], [Poly.const(self.mod, 0 if got == acc else 1)])]

    def point(self, note):
        s = self.notes[note]
        if s == 'O':
            return None
        x, y = s.split(',')
        return int(x, 16), int(y, 16)

    def sig(self):
        return tuple((k, x, y, o) for k, x, y, o in self.T.path)

    def conds(self, upto=None, flip=False):
        return self.T.path_conds(upto, flip)


class Fn:
    def __init__(self, fld, name, args, seeds, spec, cpus=None, label=None, maxpaths=400, conc_ok=False, assume=None):
        self.fld, self.name, self.args, self.seeds, self.spec = fld, name, [str(a) for a in args], seeds, spec
        self.cpus, self.maxpaths, self.conc_ok = cpus, maxpaths, conc_ok
        self.assume = assume or (lambda r: ([], []))
        self.label = label or f'{name}({" ".join(self.args)})/{fld}' + (f'/cpus={cpus}' if cpus else '')

    def run(self, inp, mode='sym'):
        return FnRun(self.fld, self.name, self.args, inp, mode, self.cpus)


def run_fns(fns, chk, tlim=30):
    """Explores every path of every function scenario; results go to the Check."""
    from concurrent.futures import ThreadPoolExecutor
    solver.ensure()
    work = [(f, dict(s)) for f in fns for s in f.seeds]
    seen = {id(f): set() for f in fns}
    flipped = {id(f): set() for f in fns}
    npaths = {id(f): 0 for f in fns}
    nf = paths = 0

    def exe(fi):
        f, inp = fi
        try:
            return f.run(inp)
        except HarnessFailure as e:
            return e
    while work:
        with ThreadPoolExecutor(8) as ex:
            runs = list(ex.map(exe, work))
        obl, flips, nxt, nfq = [], [], [], []
        for (f, inp), run in zip(work, runs):
            if isinstance(run, Exception):
                chk.inconclusive.append([f.label, str(run)[:300]])
                continue
            sg = run.sig()
            if sg in seen[id(f)]:
                continue
            seen[id(f)].add(sg)
            npaths[id(f)] += 1
            if npaths[id(f)] > f.maxpaths:
                if npaths[id(f)] == f.maxpaths + 1:
                    chk.inconclusive.append([f.label, 'path limit'])
                continue
            paths += 1
            if run.T.conc and not f.conc_ok:
                chk.inconclusive.append([f.label, 'a symbolic value was inspected bit by bit'])
            try:
                ae, an = f.assume(run)
                pe, pn = run.conds()
                if run.panic:
                    os_ = [('panic', [], [])]
                else:
                    os_ = f.spec(run)
            except (KeyError, ValueError, IndexError) as e:
                chk.inconclusive.append([f.label, f'spec: {e!r}'])
                continue
            triv = 0
            for l, e, n in os_:
                chk.obl += 1
                if n and any(p.is_zero() for p in n) or any(p.is_const() and not p.is_zero() for p in e):
                    # the difference vanishes (or an assumption is a nonzero constant) identically;
                    # these goals of a run go to the solver together: sum u_i d_i = 1
                    nf += 1
                    chk.dis += 1
                    triv += 1
                    continue
                obl.append((Query(f'{f.label}:{l}', run.mod, ae + pe + e + run.T.defs, an + pn + n), f, inp, l))
            if triv:
                goal = Poly.const(run.mod, -1)
                for k_, (l, e, n) in enumerate(os_):
                    for p_ in n:
                        if p_.is_zero():
                            goal = goal + Poly.var(run.mod, f'u{k_}') * p_
                nfq.append(Query(f'{f.label}:identities', run.mod, [goal], []))
            for k in range(1, len(sg) + 1):
                key = (sg[:k - 1], sg[k - 1][:3], not sg[k - 1][3])
                if key in flipped[id(f)]:
                    continue
                flipped[id(f)].add(key)
                # a decision already taken this way by an explored path needs no query
                fe, fn = run.conds(k, True)
                flips.append((Query(f'{f.label}:flip{k}', run.mod, ae + fe + run.T.defs, an + fn), f, inp))
        res = solver.solve_all([o[0] for o in obl] + [x[0] for x in flips], tlim)
        for (q, f, inp, l), (r, model) in zip(obl, res):
            if r == 'unsat':
                chk.dis += 1
            elif r == 'sat':
                ins = dict(inp)
                ins.update({v[2:]: x for v, x in model.items() if v.startswith('i:')})
                det = replay(f, ins)
                if det:
                    chk.violation(f'{f.label}:{l}'.replace(' ', '_'), det.pop('message'), det)
                else:
                    chk.inconclusive.append([q.name, 'model did not replay'])
            else:
                chk.inconclusive.append([q.name, f'solver: {model}'])
        for (q, f, inp), (r, model) in zip(flips, res[len(obl):]):
            chk.obl += 1
            if r == 'unknown':
                chk.inconclusive.append([q.name, f'solver: {model}'])
                continue
            chk.dis += 1
            if r == 'sat':
                ins = dict(inp)
                ins.update({v[2:]: x for v, x in model.items() if v.startswith('i:')})
                nxt.append((f, ins))
        for q, (r, _) in zip(nfq, solver.solve_all(nfq, tlim)):
            if r != 'unsat':
                chk.inconclusive.append([q.name, r])
        work = nxt
    chk.extra['paths'] = chk.extra.get('paths', 0) + paths
    chk.extra['normal_form_identities'] = chk.extra.get('normal_form_identities', 0) + nf


def replay(f, ins):
    """Runs the real code (real field, real curve) on concrete inputs; returns a description of the failure."""
    try:
        r = f.run(ins, 'real')
    except HarnessFailure:
        return None
    if r.panic:
        bad = ['panic']
    else:
        bad = [l for l, e, n in f.spec(r) if all(p.is_zero() for p in e) and not any(p.is_zero() for p in n)]
    if not bad:
        return None
    return dict(message=f'{f.label}: {bad[0]} does not hold', scenario=f.name, args=f.args, cpus=f.cpus,
                failed=bad[:10], inputs={k: hex(v) for k, v in ins.items()},
                results={k: v for k, v in list(r.raw.items())[:20]})
