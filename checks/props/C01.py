"""Field arithmetic: exact, canonical, for both fields (machine words, every input)."""

from lib.wordcheck import run_cases, MOD, R, Word


def fe(m):
    return ('fe', m)


def rel_mod(f):
    """out = f(inputs) mod p and out < p"""
    def rels(ex, ws, outs):
        m = ws[0].kind[1] if ws else None
        e = f(ex.dom, [w.v for w in ws], outs[0])
        return [('wrong value', 'mod', e, m), ('result not reduced', 'le', outs[0], m - 1)]
    return rels


def arith(wc, f, m):
    inv = pow(R, -1, m)
    two, one = [fe(m)] * 2, [fe(m)]
    o = [fe(m)]
    for op, e, ref in (('add', lambda d, x, r: d.isub(r, d.iadd(x[0], x[1])), lambda a, b: [(a + b) % m]),
                       ('sub', lambda d, x, r: d.isub(r, d.isub(x[0], x[1])), lambda a, b: [(a - b) % m]),
                       ('mul', lambda d, x, r: d.isub(d.imul(r, R), d.imul(x[0], x[1])), lambda a, b: [a * b * inv % m])):
        for v in ('vv', 'vr', 'rv', 'rr', 'in', 'av', 'ar'):
            yield f'{f}_{op}_{v}', two, o, rel_mod(e), ref
    for v in ('v', 'r', 'in'):
        yield f'{f}_neg_{v}', one, o, rel_mod(lambda d, x, r: d.iadd(r, x[0])), lambda a: [-a % m]
    yield f'{f}_double_in', one, o, rel_mod(lambda d, x, r: d.isub(r, d.imul(2, x[0]))), lambda a: [2 * a % m]
    for v in ('in', 'tr'):
        yield f'{f}_square_{v}', one, o, rel_mod(lambda d, x, r: d.isub(d.imul(r, R), d.imul(x[0], x[0]))), lambda a: [a * a * inv % m]

    def eqrel(neg):
        def rels(ex, ws, outs):
            def cond(L):
                z = L.lin(ws[0].v) == L.lin(ws[1].v)
                return L.z3.Not(z) if neg else z
            return [('flag', 'le', outs[0], 1), ('equality is not value equality', 'iff', outs[0], cond)]
        return rels
    for n in ('ct_eq', 'eq'):
        yield f'{f}_{n}', two, [('u', 1)], eqrel(False), lambda a, b: [int(a == b)]
    yield f'{f}_ne', two, [('u', 1)], eqrel(True), lambda a, b: [int(a != b)]
    yield f'{f}_is_zero', one, [('u', 1)], lambda ex, ws, outs: [('zero test', 'iff', outs[0], lambda L: L.lin(ws[0].v) == 0)], lambda a: [int(a == 0)]
    for n in ('select', 'assign'):
        yield (f'{f}_{n}', [fe(m), fe(m), ('bool',)], o,
               lambda ex, ws, outs: [('selection', 'eq', ex.dom.isub(outs[0], ex.dom.ite(ws[2].v, ws[1].v, ws[0].v)))],
               lambda a, b, c: [b if c else a])
    for n, v in (('zero', 0), ('zero_tr', 0), ('default', 0), ('one', R % m), ('one_tr', R % m)):
        yield f'{f}_{n}', [], o, (lambda v: lambda ex, ws, outs: [('constant', 'eq', ex.dom.isub(outs[0], v))])(v), (lambda v: lambda: [v])(v)


def check(ck):
    run_cases(ck, arith)
    ck.bounds = ['none on values: both operands range over every canonical element (four 64-bit limbs below the modulus)']
    ck.assumptions = ['LLVM IR at opt-level 0 as emitted by rustc for this run, interpreted over exact integers', 'subtle on primitive integers behaves as documented',
                      'inputs are canonical (below the modulus), which every constructor is shown to establish (C01, C02)']
