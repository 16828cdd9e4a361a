"""Field encodings and integer conversions (machine words, every input)."""

from lib.wordcheck import run_cases, MOD, R, Word


def cases(wc, f, m):
    inv = pow(R, -1, m)
    o = [('fe', m)]

    def to_mont(ex, ws, outs):
        d = ex.dom
        return [('wrong value', 'mod', d.isub(outs[0], d.imul(ws[0].v, R)), m), ('result not reduced', 'le', outs[0], m - 1)]

    def mont(v):
        return [v * R % m]
    yield f'{f}_from_u64', [('u', 64)], o, to_mont, mont
    yield f'{f}_from_u64_tr', [('u', 64)], o, to_mont, mont
    yield f'{f}_from_u128', [('u', 128)], o, to_mont, mont
    yield f'{f}_from_raw', [('u', 256)], o, to_mont, mont
    yield f'{f}_from_bool', [('bool',)], o, to_mont, mont
    yield f'{f}_from_wide', [('bytes', 64, 8)], o, to_mont, mont

    def decode(ex, ws, outs):
        d = ex.dom
        rel = [('accepts exactly the integers below the modulus', 'iff', outs[1], lambda B: B.lin(ws[0].v) <= m - 1)]
        if outs[1] == 1 and isinstance(outs[1], int):
            rel += [('wrong value', 'mod', d.isub(outs[0], d.imul(ws[0].v, R)), m), ('result not reduced', 'le', outs[0], m - 1)]
        return rel
    yield f'{f}_from_bytes', [('bytes', 32)], [('fe', m), ('u', 1)], decode, lambda v: [v * R % m, 1] if v < m else [None, 0]

    def encode(ex, ws, outs):
        d = ex.dom
        return [('wrong value', 'mod', d.isub(d.imul(outs[0], R), ws[0].v), m), ('encoding not canonical', 'le', outs[0], m - 1)]
    for n in ('to_bytes', 'into_bytes'):
        yield f'{f}_{n}', [('fe', m)], [('u', 32)], encode, lambda a: [a * inv % m]

    def lower(ex, ws, outs):
        d = ex.dom
        t = ex.mem.alloc(32)
        ex.call(f'{f}_to_bytes', [ws[0].addr, t])
        full = 0
        for i in range(0, 32, 8):
            full = d.iadd(full, d.imul(ex.load(t + i, 8), 1 << 8 * i))
        full = d.subst(full)
        return [('canonical', 'mod', d.isub(d.imul(full, R), ws[0].v), m), ('canonical range', 'le', full, m - 1),
                ('low bits', 'mod', d.isub(full, outs[0]), 1 << 128), ('128 bits', 'le', outs[0], (1 << 128) - 1)]
    yield f'{f}_lower128', [('fe', m)], [('u', 16)], lower, lambda a: [a * inv % m & ((1 << 128) - 1)]


def check(ck):
    run_cases(ck, cases)
    ck.bounds = ['none on values: every integer, byte string and canonical element']
    ck.assumptions = ['LLVM IR at opt-level 0 as emitted by rustc for this run, interpreted over exact integers', 'subtle on primitive integers behaves as documented']
