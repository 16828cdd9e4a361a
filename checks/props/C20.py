"""Boolean gadgets compute their logic and nothing else."""
import itertools
from lib import build
from lib.gadget import Gadget, Case, Report, run_sound, run_complete, run_shape
from lib.poly import Poly, MOD
from lib.scn import Run

LOGIC = {'xor': lambda a, b: a ^ b, 'and': lambda a, b: a & b, 'andnot': lambda a, b: a & (1 - b),
         'nor': (lambda a, b: (1 - a) & (1 - b)), 'ch': lambda a, b, c: (a & b) ^ ((1 - a) & c),
         'maj': lambda a, b, c: (a & b) ^ (a & c) ^ (b & c)}


def sem(fld, X, kind, name):
    """the logical value of an operand of the given kind"""
    if kind in '01':
        return Poly.const(MOD[fld], int(kind))
    return X(name) if kind == 'i' else 1 - X(name)


def seeds(names):
    return [dict(zip(names, v)) for v in itertools.product((0, 1), repeat=len(names))] or [{}]


def rows(op, n, same=None):
    for v in itertools.product((0, 1), repeat=n):
        if same == 'same' and v[0] != v[1] or same == 'opp' and v[0] == v[1]:
            continue
        yield v, LOGIC[op](*v)


def gadgets(fld, tier):
    gs = []
    m = MOD[fld]
    isbit = lambda P: P * (P - 1)
    gs.append(Gadget(fld, 'bit_alloc', [], seeds(['b']), lambda X: [Case('bit', [], [], [isbit(X('b'))], False),
                                                                    Case('0', [X('b')]), Case('1', [X('b') - 1])], ['b']))
    gs.append(Gadget(fld, 'bit_check', [], seeds(['b']), lambda X: [
        Case('bit', [], [], [isbit(X('b')), X('b') - Poly.var(m, 'k:2')], False), Case('0', [X('b')]), Case('1', [X('b') - 1])], ['b']))
    gs.append(Gadget(fld, 'bit_input', [], seeds(['b']), lambda X: [
        Case('input', [], [], [X('b') - Poly.var(m, 'k:2')], False), Case('0', [X('b')]), Case('1', [X('b') - 1])], ['b']))
    for op in ('xor', 'and', 'andnot', 'nor'):
        for kind in ('', 'same'):
            names = ['a'] if kind else ['a', 'b']

            def cs(X, op=op, kind=kind):
                B = X('a') if kind else X('b')
                return [Case(f'{v}', [X('a') - v[0], B - v[1]], [], [X('r') - r]) for v, r in rows(op, 2, kind or None)]
            gs.append(Gadget(fld, 'bit_op', [op] + ([kind] if kind else []), seeds(names), cs, names))
    kinds = ['0', '1', 'i', 'n']
    for op in ('xor', 'and', 'eq'):
        for ka, kb in list(itertools.product(kinds, kinds)) + [(k, r) for k in 'in' for r in ('same', 'opp')]:
            names = (['a'] if ka in 'in' else []) + (['b'] if kb in ('i', 'n') else [])

            def cs(X, op=op, ka=ka, kb=kb):
                A = sem(fld, X, ka, 'a')
                B = A if kb == 'same' else 1 - A if kb == 'opp' else sem(fld, X, kb, 'b')
                lcs = [X('A') - A, X('B') - B]
                if op == 'eq':
                    dif = A - B
                    out = [Case('views', [], [], lcs, False, True)]
                    if dif.is_const() and not dif.is_zero():
                        return [Case('views', [], [], lcs, False, False)]
                    out = [Case('views', [], [], lcs + [dif], False)]
                    for v in itertools.product((0, 1), repeat=2):
                        if v[0] == v[1] and kb != 'opp':
                            out.append(Case(f'{v}', [A - v[0], B - v[1]], [], []))
                    return out
                return [Case('views', [], [], lcs, False)] + [
                    Case(f'{v}', [A - v[0], B - v[1]], [], [X('r') - r])
                    for v, r in rows(op, 2, kb if kb in ('same', 'opp') else None)]
            gs.append(Gadget(fld, 'bool_op', [op, ka, kb], seeds(names), cs, names, sound=True,
                             complete=not (op == 'eq' and kb == 'opp')))
    for op in ('ch', 'maj'):
        for ks in itertools.product(kinds, repeat=3):
            names = [n for n, k in zip('abc', ks) if k in 'in']

            def cs(X, op=op, ks=ks):
                V = [sem(fld, X, k, n) for k, n in zip(ks, 'abc')]
                views = [X(N) - v for N, v in zip('ABC', V)]
                return [Case('views', [], [], views, False)] + [
                    Case(f'{v}', [P - x for P, x in zip(V, v)], [], [X('r') - r]) for v, r in rows(op, 3)]
            gs.append(Gadget(fld, 'bool3', [op] + list(ks), seeds(names), cs, names))
    for k in kinds:
        names = ['a'] if k in 'in' else []

        def cs(X, k=k):
            A = sem(fld, X, k, 'a')
            return [Case('lc', [], [], [X('r') - A * X('k'), X('A') - A, X('N') - 1 + A], False)]
        gs.append(Gadget(fld, 'bool_lc', [k], [{**s, 'k': 5} for s in seeds(names)], cs, names, complete=False))
    return gs


def notes(gs, rep):
    """concrete results of synthesis that are not field values: equality of constants, constancy"""
    for g in gs:
        if g.name == 'bool_op' and g.args[0] == 'eq' and g.args[1] in '01' and g.args[2] in '01':
            r = Run(g.fld, g.name, g.args, {})
            rep.obl += 1
            want = 'ok' if g.args[1] == g.args[2] else 'Unsatisfiable'
            if r.notes['eq'] == want:
                rep.discharged += 1
            else:
                rep.violations.append((g, f'enforce_equal of constants returned {r.notes["eq"]}', {}, 'eqconst'))
        if g.name == 'bool_op' and g.args[0] == 'eq' and not (g.args[1] in '01' and g.args[2] in '01'):
            r = Run(g.fld, g.name, g.args, g.seeds[0])
            rep.obl += 1
            if r.notes['eq'] == 'ok':
                rep.discharged += 1
            else:
                rep.violations.append((g, f'enforce_equal returned {r.notes["eq"]}', {}, 'eq'))
        if g.name == 'bool_lc':
            r = Run(g.fld, g.name, g.args, g.seeds[0])
            rep.obl += 1
            if r.notes['const'] == ('true' if g.args[0] in '01' else 'false'):
                rep.discharged += 1
            else:
                rep.violations.append((g, 'is_constant is wrong', {}, 'const'))


def check(ck):
    build.build()
    gs = [g for f in ('pq' if ck.tier != 'quick' else 'p') for g in gadgets(f, ck.tier)]
    gs += [g for g in gadgets('q', ck.tier) if ck.tier == 'quick' and g.name in ('bit_alloc', 'bit_op', 'bit_check')]
    rep = Report()
    tl = 30 if ck.tier == 'quick' else 120
    run_sound(gs, rep, tl)
    run_complete(gs, rep, tl)
    notes(gs, rep)
    ck.absorb(rep)
    ck.functions = ['AllocatedBit::{alloc,alloc_input_unchecked,check,xor,and,and_not,nor}',
                    'Boolean::{xor,and,enforce_equal,sha256_ch,sha256_maj,not,lc,constant,is_constant}']
    ck.bounds = ['every field assignment; every combination of constant, variable and negated operands, shared and opposite operands']
    ck.assumptions = ['harness field type stands in for Fp/Fq (their arithmetic is C01)', '/verif/ffsolve decides the finite-field queries']
