"""Synthesis delivers to the backend exactly what the circuit asked for."""
import itertools, json
from lib import build
from lib.fncheck import Fn, run_fns
from lib.poly import Poly
from lib.prog import Prog


def spec(prog, wit):
    def go(r):
        if prog.err is not None:
            ok = r.notes['res'] == ('Err(DivisionByZero)' if wit else 'Ok(())')
            return [] if ok else [('error propagates', [], [])]
        ob = []

        def must(label, ok):
            if not ok:
                ob.append((label, [], []))
        must('synthesis succeeds', r.notes['res'] == 'Ok(())')
        rec = json.loads(r.notes['rec'])
        vs = [(v[0], int(v[1:])) for v in r.notes['vars'].split()]
        must('one variable per request', len(vs) == len(prog.vars))
        must('variables are distinct', len(set(vs)) == len(vs))
        if ob:
            return ob
        must('variables lie on existing gates', all(1 <= i <= rec['n'] for _, i in vs))
        # gates
        mg = set()
        for a, b, c in prog.muls:
            i = vs[a][1]
            must('a product is one gate', vs[a] == ('A', i) and vs[b] == ('B', i) and vs[c] == ('C', i))
            mg.add(i)
        for j, (kind, _) in enumerate(prog.vars):
            if kind in ('a', 'i', 'one'):
                must('allocations do not touch product gates', vs[j][1] not in mg)
                must('an output wire is never an allocation', vs[j][0] in 'AB')
        must('ONE', vs[0] == ('A', 1))
        if ob:
            return ob
        # linear constraints, in order, term by term
        must('one linear constraint per request', len(rec['lcs']) == len(prog.lcs))
        if ob:
            return ob
        for q, ((_, ts, _), got) in enumerate(zip(prog.lcs, rec['lcs'])):
            want = {vs[j]: c for j, c in prog.formal(r, ts).items()}
            have = {}
            for k, i, c in got:
                have[(k, i)] = have.get((k, i), r.c(0)) + r.t(c)
            for v in sorted(set(want) | set(have)):
                ob += r.eq(f'constraint {q + 1} term {v}', have.get(v, r.c(0)), want.get(v, r.c(0)))
        # public inputs
        wantk = [(q + 1, nm) for q, (k, _, nm) in enumerate(prog.lcs) if k == 'in']
        must('public-input slots', [i for i, _ in rec['k']] == [q for q, _ in wantk])
        if ob and ob[-1][0] == 'public-input slots':
            return ob
        for (q, nm), (_, v) in zip(wantk, rec['k']):
            if nm is None or wit:
                if v is None:
                    must(f'public input {q} has its value', False)
                else:
                    ob += r.eq(f'public input {q}', r.t(v), r.c(1) if nm is None else r.i(nm))
            else:
                must(f'public input {q} unknown', v is None)
        if wit:
            for j, (kind, nm) in enumerate(prog.vars):
                k, i = vs[j]
                v = rec[k.lower()][i - 1]
                if v is None:
                    must(f'variable {j} assigned', False)
                else:
                    ob += r.eq(f'value of variable {j}', r.t(v), prog.value(r, j))
            for i in range(rec['n']):
                if i + 1 not in mg:
                    x = [rec[k][i] for k in 'abc']
                    if None in x:
                        must('allocation gate assigned', False)
                    else:
                        ob += r.eq(f'allocation gate {i + 1} holds', r.t(x[0]) * r.t(x[1]), r.t(x[2]))
        return ob
    return go


def programs(n):
    """all programs over allocation / input / product / constraint up to length n, constraints over
    the latest variables, plus namespaces around every step"""
    for k in range(0, n + 1):
        for w in itertools.product('aime', repeat=k):
            toks, nv = [], 1
            for c in w:
                if c == 'e':
                    refs = [0, nv - 1, nv // 2, nv - 1]
                    kinds = 'FFON' if len(toks) % 2 else 'NFZF'
                    toks.append('e:' + ','.join(a + str(b) for a, b in zip(kinds, refs)))
                else:
                    toks.append(c)
                    nv += {'a': 1, 'i': 1, 'm': 3}[c]
            yield toks


def check(ck):
    build.build()
    fs = []
    n = 4 if ck.tier == 'quick' else 6
    L = list(programs(n))
    for t in list(programs(3)):
        if t:
            L.append(['n'] + t + ['p'])
            L.append(t[:1] + ['n', 'n'] + t[1:] + ['p', 'a', 'p', 'a'])
            L.append(['n'] + t[:1] + ['p', 'n'] + t[1:] + ['p', 'a', 'i'])
    L += [['e:'], ['e:', 'i', 'e:'], ['a', 'A'], ['A'], ['M'], ['a', 'M', 'a'], ['a', 'a', 'A', 'a'], ['i', 'n', 'A', 'p', 'a']]
    L.append(['a'] * 9 + ['m', 'a', 'i', 'e:F9,F10'])
    L.append((['a', 'm', 'i', 'e:F1,N2,O3'] * 5))
    for j, t in enumerate(L):
        for wit in (True, False):
            f = 'pq'[j % 2]
            p = Prog(t)
            fs.append(Fn(f, 'drv', ['wit' if wit else 'nowit'] + t, p.seeds(1), spec(p, wit)))
    run_fns(fs, ck)
    ck.functions = ['Basic::synthesize (alloc, alloc_input, enforce_zero, multiply, push/pop_namespace)', 'Namespace', 'ConstraintSystem for &mut CS']
    ck.bounds = [f'every sequence of at most {n} requests (allocation, public input, product, constraint), nested namespaces; every value of every '
                 'witness and coefficient', 'with a witness backend and with a shape-only backend; failing witness closures']
    ck.assumptions = ['a recording backend of the harness stands in for the crate\'s backends', 'the harness field stands in for Fp/Fq (C01)',
                      '/verif/ffsolve decides the finite-field queries']
