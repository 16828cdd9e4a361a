"""Bit decomposition of a number is faithful."""
from lib import build, solver
from lib.poly import MOD
from lib.scn import Run, imposed_replay
from lib.bitdag import BitSys, Ctx, Numeric, lin_reduce, lin_comb


def one(fld, kind, x, k, ck):
    m = MOD[fld]
    inp = {'x': x, 'x.k': k}
    lab = f'unpack({kind})/{fld}/{x:#x}'
    run = Run(fld, 'unpack', [kind], inp, mode='real')
    if run.res != 'ok' or run.j['viol']:
        ck.violation(lab + ':honest', f'honest witness fails: {run.res} {run.j["viol"]}', dict(field=fld, kind=kind, inputs={a: hex(b) for a, b in inp.items()}))
        return
    n = int(run.notes['nbits'])
    s = BitSys(run, {}, Ctx())
    ck.obl += 258
    ok = True
    if n == 256:
        ck.dis += 1
    else:
        ok = False
    bad = []
    for i in range(n):
        f = s.outf[f'u{i}']
        if len(f) == 1 and list(f.values()) == [1] and list(f)[0] in s.isbit:
            ck.dis += 1
        else:
            bad.append(i)
    res = lin_reduce(s, lin_comb(s, [(1 << i, f'u{i}') for i in range(n)] + [(-1, 'X')]))
    if not res:
        ck.dis += 1
    solver.STATS['queries'] += 1
    solver.STATS['unsat' if not res else 'sat'] += 1
    ck.extra['gates'] = ck.extra.get('gates', 0) + run.j['rec']['n']
    # the witness is canonical: bits of the representative
    vals = {}
    val = {kk: run.j['rec'][kk.lower()] for kk in 'ABC'}
    ev = lambda r, lc, vv: sum(r.val(vv[a][b - 1]) * r.val(c) for a, b, c in lc) % m
    X = ev(run, run.outs['X'], val)
    got = [ev(run, run.outs[f'u{i}'], val) for i in range(n)]
    if got != [(X >> i) & 1 for i in range(n)]:
        ck.violation(lab + ':canonical', 'honest witness is not the canonical decomposition', dict(field=fld, kind=kind, inputs={a: hex(b) for a, b in inp.items()}, bits=''.join(map(str, got))))
    if not bad and not res and ok:
        return
    # a satisfying assignment that breaks the decomposition
    num = Numeric(s)
    cand = []
    for free in (0, 1, 2, 5, 3 ** 40):
        full = num.solve({}, free)
        if full:
            cand.append(full)
    for full in cand:
        if not s.holds(full):
            continue
        r = imposed_replay(run, full, inp)
        v2 = {kk: r.j['rec'][kk.lower()] for kk in 'ABC'}
        X2 = ev(r, r.outs['X'], v2)
        u = [ev(r, r.outs[f'u{i}'], v2) for i in range(n)]
        if not r.j['viol'] and (any(b not in (0, 1) for b in u) or (sum(b << i for i, b in enumerate(u)) - X2) % m or n != 256):
            ck.violation(lab + ':sound', 'constraints accept a wrong decomposition',
                         dict(field=fld, kind=kind, inputs={a: hex(b) for a, b in inp.items()}, X=hex(X2), bits=[hex(b) for b in u],
                              assignment={f'{a}{b}': hex(v) for (a, b), v in full.items()}))
            return
    ck.inconclusive.append([lab, f'{len(bad)} bits not shown boolean, sum {"ok" if not res else "not shown"}'])


def check(ck):
    build.build()
    solver.ensure()
    for f in 'pq':
        m = MOD[f]
        for kind in 'vcsn':
            for x in [0, 1, m - 1, 0x123456789abcdef << 130 | 0xfedcba987] if kind in 'vc' or ck.tier != 'quick' else [m - 2, 3 << 200]:
                one(f, kind, x, 7 if kind != 's' else m - 5, ck)
    from lib import witir
    witir.run(ck, ['unpack'])
    ck.functions = ['boolean::unpack_fe', 'AllocatedBit::alloc', 'Num::lc']
    ck.bounds = ['soundness: every assignment of the circuit, for numbers that are allocated, constant, scaled and negated; '
                 'honest witness: every field element (symbolic limbs)']
    ck.assumptions = ['the constraints do not demand bits below the modulus: x and x+p have distinct decompositions when both fit 256 bits, as stated']
