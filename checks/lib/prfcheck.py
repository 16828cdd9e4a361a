"""Checks over proof-level scenarios (see harness/src/prf): honest runs, forced decisions, replays."""
from concurrent.futures import ThreadPoolExecutor
from . import build, solver
from .build import HarnessFailure
from .poly import Poly
from .prf import PRun, TooBig
from .solver import Query


def delaurent(polys, mod):
    """the same polynomials without negative exponents (inverses become variables): (polys, equations)"""
    inv = {}
    out = []
    for p in polys:
        t = {}
        for mono, c in p.t.items():
            mm = []
            for v, e in mono:
                if e < 0:
                    inv[v] = '~' + v
                    mm.append(('~' + v, -e))
                else:
                    mm.append((v, e))
            t[tuple(sorted(mm))] = c
        out.append(Poly(mod, t))
    return out, [Poly.var(mod, v) * Poly.var(mod, w) - 1 for v, w in inv.items()]


def primitive(p):
    """p up to constants and challenge monomials (challenges and their roots are never zero)"""
    if not p.t:
        return p
    lo = {}
    for mono in p.t:
        d = dict(mono)
        for v in set(d) | set(lo):
            if not v.startswith('i:'):
                lo.setdefault(v, 0 if mono is not next(iter(p.t)) else d.get(v, 0))
    vs = {v for mono in p.t for v, _ in mono if not v.startswith('i:')}
    lo = {v: min(dict(mono).get(v, 0) for mono in p.t) for v in vs}
    t = {}
    for mono, c in p.t.items():
        d = dict(mono)
        for v in vs:
            d[v] = d.get(v, 0) - lo[v]
        t[tuple(sorted((v, e) for v, e in d.items() if e))] = c
    k = t[min(t, key=str)]
    return Poly(p.m, t).scale(pow(k, -1, p.m))


def key(p):
    return tuple(sorted(primitive(p).t.items(), key=str))


class Runner:
    def __init__(self, ck):
        self.ck = ck
        self.pool = ThreadPoolExecutor(8)
        ck.extra.setdefault('runs', 0)

    def get(self, fld, name, args, inputs, mode='sym', timeout=300):
        self.ck.extra['runs'] += 1
        return PRun(fld, name, args, inputs, mode, timeout)

    def map(self, f, items):
        def g(x):
            try:
                return f(x)
            except (HarnessFailure, TooBig, KeyError, ValueError, IndexError) as e:
                return e
            except Exception as e:  # subprocess.TimeoutExpired and the like
                return e
        return list(self.pool.map(g, items))


def replay_flags(rn, fld, name, args, inputs, flags):
    """natively: the names of the flags that are false, or 'panic: ...'"""
    try:
        r = rn.get(fld, name, args, inputs, 'real', 60)
    except Exception as e:
        return None
    if r.panic:
        return ['panic: ' + r.notes.get('panicmsg', '')[:120]]
    return [f for f in flags if r.notes.get(f) == 'false']


def tampered(rn, fld, name, args, inputs, parts=8):
    """runs the native replay: the first case in which the code and the equations disagree"""
    jobs = [(i, parts) for i in range(parts)]
    runs = rn.map(lambda j: rn.get(fld, name, list(args) + [f'part={j[0]}/{j[1]}'], inputs, 'real', 150), jobs)
    cases = []
    for r in runs:
        if not isinstance(r, Exception):
            cases += r.multi.get('case', [])
    rn.ck.extra['native_cases'] = rn.ck.extra.get('native_cases', 0) + len(cases)
    bad = []
    for c in cases:
        n, code, spec = c.rsplit(' ', 2)
        code, spec = code[5:], spec[5:] == 'true'
        if (code == 'true') != spec:
            bad.append(f'{n}: code says {code}, the equations {"hold" if spec else "fail"}')
    if not bad:
        return None
    return {'message': '; '.join(bad[:3]), 'scenario': ['fn', 'real', fld, name] + [str(a) for a in args], 'cases': bad[:40],
            'inputs': {k: hex(v) for k, v in inputs.items()}}


def honest(rn, items, tlim=30, dup=True):
    """items: (label, fld, name, args, inputs, flags, extra(run) -> [(label, Poly must vanish)])"""
    ck = rn.ck
    done = set()
    while items:
        runs = rn.map(lambda it: _one(rn, it), items)
        nxt, qs = [], []
        for it, res in zip(items, runs):
            label, fld, name, args, inputs, flags, extra = it
            if isinstance(res, Exception):
                ck.inconclusive.append([label, repr(res)[:200]])
                continue
            run, bad, ids, diffs, conds = res
            ck.obl += len(flags) + 1
            if bad:
                if len(ck.viol) >= 4:
                    ck.inconclusive.append([label, f'{bad}: not replayed'])
                    continue
                rep = replay_flags(rn, fld, name, args, inputs, flags)
                if rep:
                    ck.violation(f'{label}:{rep[0].split(":")[0]}'.replace(' ', '_'), f'{label}: {", ".join(rep)}',
                                 {'scenario': [fld, name] + run.args, 'inputs': {k: hex(v) for k, v in inputs.items()}})
                else:
                    ck.inconclusive.append([label, f'{bad}: not reproduced natively'])
                continue
            ck.dis += len(flags) + 1
            if inspected(run):
                ck.inconclusive.append([label, 'a symbolic value was inspected bit by bit'])
            if run.T.nonmono:
                ck.inconclusive.append([label, f'inverse or root outside the term language {run.T.nonmono[:4]}'])
            # identities
            ck.obl += len(ids)
            wrong = [(l, d) for l, d in ids if not d.is_zero()]
            ck.dis += len(ids) - len(wrong)
            ck.extra['identities'] = ck.extra.get('identities', 0) + len(ids) - len(wrong)
            goal = Poly.const(run.mod, -1)
            for i, (l, d) in enumerate(ids):
                if d.is_zero():
                    goal = goal + Poly.var(run.mod, f'u{i}') * d
            qs.append((Query(f'{label}:identities', run.mod, [goal], []), None))
            if wrong:
                # holds for these values but not for all: other values
                for s in (1, 2):
                    alt = {k: (v if k.startswith('co') else v * 7919 + 104729 * s) for k, v in inputs.items()}
                    rep = replay_flags(rn, fld, name, args, alt, flags)
                    if rep:
                        ck.violation(f'{label}:{rep[0].split(":")[0]}'.replace(' ', '_'), f'{label}: {", ".join(rep)}',
                                     {'scenario': [fld, name] + run.args, 'inputs': {k: hex(v) for k, v in alt.items()}})
                        break
                else:
                    ck.inconclusive.append([label, f'not an identity: {wrong[0][0]} {str(wrong[0][1])[:200]}'])
            for l, d in diffs:
                vs = d.vars()
                if any(not v.startswith('i:') for v in vs):
                    ck.inconclusive.append([label, f'decision over challenges: {l}'])
                    continue
                k = (fld, name, tuple(args), key(d))
                if k in done:
                    continue
                done.add(k)
                qs.append((Query(f'{label}:decision', run.mod, [d], []), it))
        for (q, it), (r, m) in zip(qs, solver.solve_all([q for q, _ in qs], tlim)):
            if it is None:
                if r != 'unsat':
                    ck.inconclusive.append([q.name, r])
                continue
            ck.obl += 1
            if r == 'unknown':
                ck.inconclusive.append([q.name, str(m)])
                continue
            ck.dis += 1
            if r == 'sat':
                ins = dict(it[4])
                ins.update({v[2:]: x for v, x in m.items() if v.startswith('i:')})
                nxt.append((it[0],) + it[1:4] + (ins,) + it[5:])
        items = nxt


def _one(rn, it):
    label, fld, name, args, inputs, flags, extra = it
    run = rn.get(fld, name, args, inputs)
    if run.panic:
        return run, 'panic ' + run.notes.get('panicmsg', ''), [], [], []
    bad = [f for f in flags if run.notes.get(f) != 'true']
    if bad:
        return run, bad, [], [], []
    ids, diffs = [], []
    for kk, x, y, o in run.T.path:
        if kk:
            continue
        d = run.T.expand(run.T.node(x) - run.T.node(y))
        if o:
            ids.append((f'decision {x}={y}', d))
        else:
            diffs.append((f'{x}!={y}', d))
    for kk, x, y, o in run.B.path:
        if not kk:
            d = run.B.expand(run.B.node(x) - run.B.node(y))
            (ids if o else diffs).append((f'base {x}={y}', d))
    # elements with the same coordinates are the same combination: equal challenges for all values
    for c, lcs in run.coords().items():
        if len(lcs) > 1:
            f = [norm(run, l) for l in dict.fromkeys(lcs)]
            for g in f[1:]:
                for b in set(g) | set(f[0]):
                    z = Poly(run.mod)
                    ids.append((f'element {c[:12]}[{b}]', g.get(b, z) - f[0].get(b, z)))
    if extra:
        ids += [(l, run.T.expand(d)) for l, d in extra(run)]
    return run, None, ids, diffs, []


def inspected(run):
    """symbolic values, other than a squeezed word being cut to a challenge, that were read as bytes"""
    return [i for T in (run.T, run.B) for i in T.conc if not (T.nodes[i][0] == 'o' and T.nodes[i][2].startswith('sq:'))]


def norm(run, s):
    return {b: p for b, p in ((b, run.T.expand(p)) for b, p in run.lc(s).items()) if not p.is_zero()}


# ---- forced decisions

def facts(run):
    """[(difference, outcome)] of the decisions taken by the script, in order"""
    out = []
    for f in run.multi.get('forced', []):
        k, x, y, o = f.split(':')
        T = run.T if k == run.fld else run.B
        out.append((T.expand(T.node(int(x)) - T.node(int(y))), o == 'true', k))
    return out


def leaves(rn, fld, name, args, inputs, maxleaves=64):
    """every leaf of the decision tree"""
    todo, out = [[]], []
    while todo and len(out) < maxleaves:
        pre = todo.pop()
        run = rn.get(fld, name, list(args) + ['s:' + ''.join('FT'[b] for b in pre)], inputs)
        fs = facts(run)
        out.append((run, fs))
        for i in range(len(pre), len(fs)):
            todo.append([f[1] for f in fs[:i]] + [not fs[i][1]])
    return out, bool(todo)


def judge(rn, label, fld, ls, spec, replay, flag='ok', tlim=10):
    """Acceptance must be equivalent to all spec(run) vanishing.  replay() -> violation detail | None."""
    ck = rn.ck
    qs, strange = [], None
    for run, fs in ls:
        acc = (not run.panic) and run.notes.get(flag) == 'true'
        if run.panic and run.notes.get('panicmsg', '').startswith('HARNESS'):
            ck.inconclusive.append([label, run.notes['panicmsg']])
            continue
        try:
            S = [(l, run.T.expand(p)) for l, p in spec(run)]
        except (KeyError, ValueError, TooBig) as e:
            strange = f'the equations cannot be written down: {e!r}'
            continue
        true = [d for d, o, k in fs if o]
        false = [d for d, o, k in fs if not o]
        tk = {key(d) for d in true}
        if acc:
            for l, s in S:
                ck.obl += 1
                if s.is_zero() or key(s) in tk:
                    ck.dis += 1
                    qs.append((linear_query(f'{label}:accept:{l}', run, s, true), None))
                    continue
                qs.append((general(f'{label}:accept:{l}', run, true, false, [], [s]), 'accepts although ' + l + ' fails'))
        else:
            ck.obl += 1
            sk = {key(s) for _, s in S}
            if any(key(d) in sk for d in false):
                ck.dis += 1
                continue
            why = 'panics' if run.panic else 'rejects'
            qs.append((general(f'{label}:reject', run, true, false, [s for _, s in S], []),
                       f'{why} although every equation holds'))
    res = solver.solve_all([q for q, _ in qs], tlim)
    sus, unk = [], []
    for (q, why), (r, m) in zip(qs, res):
        if why is None:
            if r != 'unsat':
                ck.inconclusive.append([q.name, r])
        elif r == 'unsat':
            ck.dis += 1
        elif r == 'sat':
            sus.append((q.name, why))
        else:
            unk.append((q.name, f'solver: {m}'))
    if strange:
        unk.append((label, strange))
    if sus or unk:
        det = replay()
        if det:
            for n, why in (sus or unk)[:3]:
                ck.violation(n.replace(' ', '_'), f'{label}: {why}; natively: {det["message"]}', det)
        else:
            for n, why in sus:
                ck.inconclusive.append([n, why + ': not reproduced natively'])
            for n, why in unk:
                ck.inconclusive.append([n, why])


def cancel(p):
    """without negative exponents, by multiplying with challenge monomials; inputs' inverses stay"""
    return primitive(p)


def general(name, run, true, false, eqs, nes):
    ps, extra = delaurent([cancel(p) for p in true + eqs] + [cancel(p) for p in false + nes], run.mod)
    n = len(true) + len(eqs)
    vs = {v for p in ps for v in p.vars() if v.startswith('chal:') or v.startswith('root')}
    return Query(name, run.mod, ps[:n] + extra, ps[n:] + [Poly.var(run.mod, v) for v in sorted(vs)])


def linear_query(name, run, s, true):
    """s vanishes where the matching decision says so: s != 0, d = 0"""
    d = next((d for d in true if key(d) == key(s)), Poly(run.mod))
    a, b = cancel(s), cancel(d)
    if len(a.t) > 400:
        # the solver sees the difference of the two normal forms
        return Query(name, run.mod, [], [a - b])
    ps, extra = delaurent([b, a], run.mod)
    return Query(name, run.mod, [ps[0]] + extra, [ps[1]])
