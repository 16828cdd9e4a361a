"""Soundness and completeness of circuit gadgets, decided by ffsolve over the real field."""
import itertools, json, os, time
from . import solver
from .poly import Poly, MOD
from .build import HarnessFailure
from .scn import Run, System, imposed_replay
from .solver import Query


class Case:
    """Under assume (eqs = 0, nes != 0) the conclusions (polys) must all vanish.
    complete=False: honest proving is not promised in this case."""

    def __init__(self, label, eqs=(), nes=(), concl=(), complete=True, reach=None):
        self.label, self.eqs, self.nes, self.concl, self.complete = label, list(eqs), list(nes), list(concl), complete
        self.reach = complete if reach is None else reach


class Gadget:
    """fld, scenario name/args; seeds: concrete inputs (dict) used to start path
    exploration; bools: names of 0/1 inputs; cases(X) -> [Case], X(name) gives the
    polynomial of an input or output quantity; extra(X) -> (eqs, nes) facts."""

    def __init__(self, fld, name, args, seeds, cases, bools=(), extra=None, label=None, complete=True,
                 expect_err=None, sound=True, shape=True):
        self.fld, self.name, self.args = fld, name, [str(a) for a in args]
        self.seeds, self.cases, self.bools = seeds, cases, list(bools)
        self.extra = extra or (lambda X: ([], []))
        self.label = label or f'{name}({",".join(self.args)})/{fld}'
        self.complete, self.sound, self.shape = complete, sound, shape


class Report:
    def __init__(self):
        self.obl = 0
        self.discharged = 0
        self.inconclusive = []
        self.violations = []
        self.paths = 0
        self.notes = []
        self.functions = set()
        self.witness = 0


def consts_in(run):
    return None


def X_sound(g, run, sysm):
    m = run.mod

    def X(n):
        if n in sysm.outp:
            return sysm.outp[n]
        return Poly.var(m, 'i:' + n)
    return X


def check_sound(gs, rep, tlim):
    qs = []
    for g in gs:
        if not g.sound:
            continue
        run = Run(g.fld, g.name, g.args, g.seeds[0])
        if run.res != 'ok':
            rep.violations.append((g, 'honest synthesis failed: ' + run.res, {'inputs': g.seeds[0]}, 'res'))
            continue
        try:
            s = System(run)
        except ValueError as e:
            rep.inconclusive.append((g.label, str(e)))
            continue
        X = X_sound(g, run, s)
        ex_e, ex_n = g.extra(X)
        for c in g.cases(X):
            if any(p.is_const() and not p.is_zero() for p in ex_e + c.eqs) or any(p.is_zero() for p in ex_n + c.nes):
                continue        # excluded by the operand kinds (constant points)
            base_e = s.eqs + run.defs + ex_e + c.eqs
            base_n = ex_n + c.nes
            # reachability twin: the case must be satisfiable (unless it is only an exclusion)
            for i, p in enumerate(c.concl):
                q = Query(f'{g.label}:{c.label}:{i}', run.mod, base_e, base_n + [p])
                q.info = dict(g=g, run=run, s=s, case=c, i=i, kind='sound')
                qs.append(q)
            if c.reach:
                q = Query(f'{g.label}:{c.label}:reach', run.mod, base_e, base_n)
                q.info = dict(g=g, run=run, s=s, case=c, kind='reach')
                qs.append(q)
    return qs


def inputs_from(g, run, s, model, env):
    inp = dict(g.seeds[0])
    for k in list(inp):
        if k in s.outp:
            inp[k] = s.outp[k].eval(env)
        elif 'i:' + k in env:
            inp[k] = env['i:' + k]
    return inp


def replay_sound(q, model):
    """Imposes the model on the real gadget over the real field.  Returns (ok, detail)."""
    g, run, s, c, i = (q.info[k] for k in ('g', 'run', 's', 'case', 'i'))
    full, env = s.assignment(model)
    for v in {w for p in q.eqs + q.nes for w in p.vars()}:
        env.setdefault(v, 0)
    inp = inputs_from(g, run, s, model, env)
    ks = {}
    for v in {w for p in q.eqs + q.nes for w in p.vars()} | set(s.sub) | set(env):
        if v.startswith('k:'):
            ks['@k' + v[2:]] = s.sub[v].eval(env) if v in s.sub else env[v]
    r = imposed_replay(run, full, dict(inp, **ks))
    det = dict(field=g.fld, scenario=g.name, args=g.args, case=c.label, conclusion=i,
               inputs={k: hex(v) for k, v in inp.items()},
               assignment={f'{k}{j}': hex(v) for (k, j), v in full.items()},
               outputs={})
    # evaluate outputs with the real run's own linear combinations
    for nm, lc in r.outs.items():
        t = 0
        for k, j, co in lc:
            val = {'A': r.j['rec']['a'], 'B': r.j['rec']['b'], 'C': r.j['rec']['c']}[k][j - 1]
            t += r.val(val) * r.val(co)
        det['outputs'][nm] = hex(t % run.mod)
    det['violations_of_constraints'] = r.j['viol']
    okc = not r.j['viol']

    def Xc(n):
        if n in det['outputs']:
            return Poly.const(run.mod, int(det['outputs'][n], 16))
        return Poly.const(run.mod, inp.get(n, env.get('i:' + n, 0)))
    # witness-type helper variables of the specification keep the solver's values
    def close(p):
        return p.subst({v: Poly.const(run.mod, env.get(v, 0)) for v in p.vars()})
    cc = [x for x in g.cases(Xc) if x.label == c.label][0]
    hyp = all(close(p).is_zero() for p in cc.eqs) and all(not close(p).is_zero() for p in cc.nes)
    bad = not close(cc.concl[i]).is_zero()
    det['res'] = r.res
    return okc and hyp and bad, det


def run_sound(gs, rep, tlim=60):
    qs = check_sound(gs, rep, tlim)
    res = solver.solve_all(qs, tlim)
    for q, (r, model) in zip(qs, res):
        rep.obl += 1
        if q.info['kind'] == 'reach':
            if r == 'sat':
                rep.discharged += 1
                rep.witness += 1
            elif r == 'unsat':
                rep.violations.append((q.info['g'], f'no assignment satisfies the circuit in case {q.info["case"].label}',
                                       {'case': q.info['case'].label}, 'unreach'))
            else:
                # completeness also shows satisfiability; not counted as a failure
                rep.notes.append(f'{q.name}: reachability left to the completeness paths')
                rep.obl -= 1
            continue
        if r == 'unsat':
            rep.discharged += 1
        elif r == 'sat':
            ok, det = replay_sound(q, model)
            if ok:
                rep.violations.append((q.info['g'], f'{q.name}: constraints accept a wrong result', det, 'sound'))
            else:
                rep.inconclusive.append((q.name, 'model did not replay'))
                rep.notes.append(json.dumps(det)[:2000])
        else:
            rep.inconclusive.append((q.name, f'solver: {model}'))


# ---------------------------------------------------------------- completeness
def X_comp(run):
    m = run.mod

    def X(n):
        return Poly.var(m, 'i:' + n)
    return X


def domain(g, run, X, binp):
    """eqs/nes lists for each complete case, with boolean inputs fixed"""
    ex_e, ex_n = g.extra(X)
    out = []
    sub = {'i:' + b: Poly.const(run.mod, binp[b]) for b in g.bools}
    for c in g.cases(X):
        if not c.complete:
            continue
        e = [p.subst(sub) for p in ex_e + c.eqs]
        n = [p.subst(sub) for p in ex_n + c.nes]
        if any(p.is_const() and not p.is_zero() for p in e) or any(p.is_zero() for p in n):
            continue
        out.append((c, e, n))
    return out


def run_complete(gs, rep, tlim=60, max_paths=64):
    """Path exploration of honest synthesis: for every path and case, every constraint
    holds; paths are closed under solver-generated inputs."""
    work = []       # (g, binp, inputs)
    seen = {}
    domkey = {}
    for g in gs:
        if not g.complete:
            continue
        for bits in itertools.product((0, 1), repeat=len(g.bools)):
            binp = dict(zip(g.bools, bits))
            cand = [s for s in g.seeds if all(s.get(b) == v for b, v in binp.items())]
            key = (id(g), bits)
            seen[key] = set()
            if not cand:
                # no seed: let the solver find inputs
                cand = [None]
            for s in cand:
                work.append((g, bits, binp, s))
    flipped = set()
    while work:
        flips, obl = [], []
        nxt = []
        for g, bits, binp, inp in work:
            key = (id(g), bits)
            if inp is None:
                m = MOD[g.fld]

                class R:
                    mod = m
                for c, e, n in domain(g, R, X_comp(R), binp):
                    flips.append((Query(f'{g.label}:{bits}:{c.label}:seed', m, e, n), g, bits, binp))
                continue
            run = Run(g.fld, g.name, g.args, inp)
            sig = tuple(tuple(x) for x in run.path)
            if sig in seen[key]:
                continue
            seen[key].add(sig)
            if len(seen[key]) > max_paths:
                rep.inconclusive.append((g.label, 'path bound reached'))
                continue
            rep.paths += 1
            X = X_comp(run)
            dom = domain(g, run, X, binp)
            pe, pn = run.path_conds()
            if run.res != 'ok':
                cons = [('synthesis returned ' + run.res, Poly.const(run.mod, 1))]
            else:
                try:
                    cons = run.honest_constraints()
                    for nm in run.outs:
                        if run.outvals[nm] is not None:
                            cons.append(('value of ' + nm, run.honest_out(nm) - run.term(run.outvals[nm])))
                    rep.nf = getattr(rep, 'nf', 0)
                except ValueError as e:
                    rep.inconclusive.append((g.label, str(e)))
                    continue
            nontriv = [(l, p) for l, p in cons if not p.is_zero()]
            rep.nf = getattr(rep, 'nf', 0) + len(cons) - len(nontriv)
            for c, e, n in dom:
                for l, p in nontriv:
                    q = Query(f'{g.label}:{bits}:{c.label}:{l}', run.mod, e + pe + run.defs, n + pn + [p])
                    obl.append((q, g, bits, run, c, l, inp))
                for k in range(1, len(run.path) + 1):
                    fk = (key, sig[:k - 1], sig[k - 1][:3], not sig[k - 1][3], c.label)
                    if fk in flipped:
                        continue
                    flipped.add(fk)
                    fe, fn = run.path_conds(k, True)
                    flips.append((Query(f'{g.label}:{bits}:{c.label}:flip{k}', run.mod, e + fe + run.defs, n + fn),
                                  g, bits, binp))
        allq = [o[0] for o in obl] + [f[0] for f in flips]
        res = solver.solve_all(allq, tlim)
        for (q, g, bits, run, c, l, inp), (r, model) in zip(obl, res):
            rep.obl += 1
            if r == 'unsat':
                rep.discharged += 1
            elif r == 'sat':
                det = replay_complete(g, run, q, model, inp, l)
                if det:
                    rep.violations.append((g, f'{q.name}: honest prover fails', det, 'complete'))
                else:
                    rep.inconclusive.append((q.name, 'model did not replay'))
            else:
                rep.inconclusive.append((q.name, f'solver: {model}'))
        for (q, g, bits, binp), (r, model) in zip(flips, res[len(obl):]):
            rep.obl += 1
            if r == 'unsat':
                rep.discharged += 1
            elif r == 'sat':
                rep.discharged += 1
                inp = dict(g.seeds[0])
                inp.update(binp)
                for v, x in model.items():
                    if v.startswith('i:'):
                        inp[v[2:]] = x
                for k in inp:
                    pass
                nxt.append((g, bits, binp, inp))
            else:
                rep.inconclusive.append((q.name, f'solver: {model}'))
        work = nxt


def replay_complete(g, run, q, model, inp0, label):
    inp = dict(inp0)
    for v, x in model.items():
        if v.startswith('i:'):
            inp[v[2:]] = x
    r = Run(g.fld, g.name, g.args, inp, mode='real')
    bad = r.res != 'ok' or r.j['viol']
    if not bad:
        # value mismatch
        rec = r.j['rec']
        for nm, lc in r.outs.items():
            if r.outvals[nm] is None:
                continue
            t = sum(r.val({'A': rec['a'], 'B': rec['b'], 'C': rec['c']}[k][j - 1]) * r.val(co) for k, j, co in lc)
            if t % r.mod != r.val(r.outvals[nm]):
                bad = True
    if bad:
        return dict(field=g.fld, scenario=g.name, args=g.args, constraint=label, res=r.res, viol=r.j['viol'],
                    inputs={k: hex(v) for k, v in inp.items()})
    return None


def run_shape(gs, rep, tlim=60, max_paths=64):
    """On every path the gadget can take, what is synthesised is what is synthesised without a
    witness; paths are closed under solver-generated inputs of the gadget's domain."""
    work = [(g, s) for g in gs for s in g.seeds]
    seen, flipped = {}, set()
    rep.shapes = 0
    while work:
        flips = []
        for g, inp in work:
            try:
                run = Run(g.fld, g.name, g.args, inp)
            except HarnessFailure as e:
                if 'panicked' not in str(e):
                    raise
                rep.notes.append(f'{g.label}: aborts on an input')
                continue        # nothing is synthesised (honest proving is judged by C20-C26)
            sig = tuple(tuple(x) for x in run.path)
            key = id(g)
            if sig in seen.setdefault(key, set()):
                continue
            seen[key].add(sig)
            if len(seen[key]) > max_paths:
                rep.inconclusive.append((g.label, 'path bound reached'))
                continue
            rep.paths += 1
            rep.obl += 1
            if run.res == 'ok':
                rep.shapes += 1
                base = Run(g.fld, g.name, g.args, inp, 'snowit')
                if run.shape() == base.shape() and base.res == 'ok':
                    rep.discharged += 1
                else:
                    real = Run(g.fld, g.name, g.args, inp, 'real').shape(), Run(g.fld, g.name, g.args, inp, 'nowit').shape()
                    if real[0] != real[1] or base.res != 'ok':
                        rep.violations.append((g, 'what is synthesised depends on the witness', {'inputs': {k: hex(v) for k, v in inp.items()},
                                                                                                 'scenario': g.name, 'args': g.args}, 'shape'))
                    else:
                        rep.inconclusive.append((g.label, 'shape differs symbolically only'))
            else:
                rep.discharged += 1     # refused: nothing is synthesised
            X = X_comp(run)
            binp = {b: inp[b] for b in g.bools}
            dom = [(c.label, e, n) for c, e, n in domain(g, run, X, binp)]
            if not g.cases(X):
                ex_e, ex_n = g.extra(X)
                dom = [('any', ex_e + [X(b) * X(b) - X(b) for b in g.bools], ex_n)]
            for dl, e, n in dom:
                for k in range(1, len(run.path) + 1):
                    fk = (key, sig[:k - 1], sig[k - 1][:3], not sig[k - 1][3], dl)
                    if fk in flipped:
                        continue
                    flipped.add(fk)
                    fe, fn = run.path_conds(k, True)
                    flips.append((Query(f'{g.label}:{dl}:flip{k}', run.mod, e + fe + run.defs, n + fn), g, inp))
        work = []
        for (q, g, inp0), (r, model) in zip(flips, solver.solve_all([f[0] for f in flips], tlim)):
            rep.obl += 1
            if r == 'unsat':
                rep.discharged += 1
            elif r == 'sat':
                rep.discharged += 1
                inp = dict(inp0)
                for v, x in model.items():
                    if v.startswith('i:'):
                        inp[v[2:]] = x
                work.append((g, inp))
            else:
                rep.inconclusive.append((q.name, f'solver: {model}'))
