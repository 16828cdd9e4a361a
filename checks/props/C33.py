"""The verifier's acceptance is exactly the documented equations, and so are the claims it hands on."""
import random
from lib import build, solver
from lib.poly import Poly
from lib.prf import bpoly, linv, packed, scoef
from lib.prfcheck import Runner, leaves, judge, tampered
from props.C31 import inputs

ELEMS = ['R', 'SC', 'TP', 'TN', 'CC', 'SN', 'rx', 'rxy', 'sxo', 'sxc', 'tp', 'tn', 'sxn', 'SO', 'GO', 'yold', 'K', 'g']


def seeds(fld, k, n=5):
    rnd = random.Random(21)
    inp = {x: rnd.getrandbits(250) for x in ELEMS}
    for i in range(k):
        for j in range(n):
            inp.update({f'{x}{i}_{j}': rnd.getrandbits(250) for x in 'LRlr'})
    inp.update({f'a{j}': rnd.getrandbits(250) for j in range(n)})
    inp.update({f'in{j}': rnd.getrandbits(250) for j in range(4)})
    inp.update({f'w{j}': rnd.getrandbits(250) for j in range(4)})
    inp.update({f'c{j}': rnd.getrandbits(250) for j in range(4)})
    inp.update({f'G{j}': rnd.getrandbits(250) for j in range(1 << k)})
    inp.update({f'co{i}': v for i, v in enumerate(packed(fld, k))})
    return inp


def pre(run, k, kc):
    """shared parts of the equations"""
    i = run.i
    x, yc, yn, yo = run.v('d.x'), run.v('d.y_cur'), run.v('d.y_new'), i('yold')
    rt = [run.rootvar(f'l.c{j}') for j in range(k)]
    ro = [run.rootvar(f'i:co{j}') for j in range(k)]
    z = zvar(run, k)
    kidx = [int(t) for t in run.notes['kidx'].split(',')]
    vals = [Poly.const(run.mod, 1)] + [i(f'in{j}') for j in range(len(kidx) - 1)]
    K = i('K') if kc == 'Some' else sum((i(f'G{t}') * v for t, v in zip(kidx, vals)), Poly(run.mod))
    ky = sum((v * yc ** t for t, v in zip(kidx, vals)), Poly(run.mod))
    return x, yc, yn, yo, rt, ro, z, K, ky


def zvar(run, k):
    h = run.hist(int(run.T.nodes[int(run.raw['l.c0'].lstrip('#'))][2][5:]))
    rest = {run.T.nodes[int(run.raw[n].lstrip('#'))][2] for n in ('d.x', 'd.y_cur', 'd.y_new')}
    zs = [e[3:] for e in h if e.startswith('sq:') and 'chal:' + e[3:] not in rest]
    if len(zs) != 1:
        raise KeyError('z not identified')
    for n, node in enumerate(run.T.nodes):
        if node[0] == 'o' and node[2] == 'chal:' + zs[0]:
            return run.endovar(n)
    raise KeyError('z is not used')


def spec(k, kc):
    def f(run):
        x, yc, yn, yo, rt, ro, z, K, ky = pre(run, k, kc)
        i = run.i
        P = Poly(run.mod)
        for t in ('R', 'SO', 'SC', 'TP', 'TN', 'SN', 'GO'):
            P = P * z + i(t)
        v = Poly(run.mod)
        for t in (i('rx'), i('sxo'), i('sxc'), i('tp'), i('tn'), i('sxn'), bpoly(x, ro)):
            v = v * z + t
        inst = [(P, v, x), (i('R'), i('rxy'), x * yc), (i('CC'), i('sxo'), yo), (i('CC') + K * z, i('sxc') + ky * z, yc), (i('CC'), i('sxn'), yn)]
        out = []
        for j, (P, v, x) in enumerate(inst):
            for r in range(k):
                e = rt[r] * rt[r]
                P = P + i(f'L{r}_{j}') * e + i(f'R{r}_{j}') * linv(e)
                v = v + i(f'l{r}_{j}') * e + i(f'r{r}_{j}') * linv(e)
            out.append((f'commitment equation {j}', P - i('g') * i(f'a{j}')))
            out.append((f'value equation {j}', v - i(f'a{j}') * bpoly(x, rt)))
        return out
    return f


def handed_on(run, k, kc):
    """[(what, difference that must vanish)]"""
    x, yc, yn, yo, rt, ro, z, K, ky = pre(run, k, kc)
    i, v = run.i, run.v
    zero = Poly(run.mod)
    out = [('leftovers.y_new', v('l.y') - yn)]
    for n, e in (('s', 'SN'), ('g', 'g')):
        g = run.g(f'l.{n}')
        out.append((f'leftovers.{n}', g.get('one', zero) - i(e)))
        out += [(f'leftovers.{n}', c) for b, c in g.items() if b != 'one']
    for n, e in (('y_old', yo), ('ky', ky), ('tp', i('tp')), ('tn', i('tn')), ('sx', i('sxc')), ('rx', i('rx')), ('rxy', i('rxy')), ('gx', bpoly(x, ro)),
                 ('b_x', bpoly(x, rt)), ('b_xy', bpoly(x * yc, rt)), ('b_y_old', bpoly(yo, rt)), ('b_y_cur', bpoly(yc, rt)), ('b_y_new', bpoly(yn, rt))):
        out.append((f'deferred.{n}', v(f'd.{n}') - e))
    for j in range(k):
        out.append((f'deferred.old challenge {j}', v(f'd.co{j}') - i(f'co{j}')))
        out.append((f'deferred.new challenge {j}', v(f'd.cn{j}') - v(f'l.c{j}')))
    for n in ('len l.c', 'len d.co', 'len d.cn', 'forks'):
        if run.notes[n] != str(k):
            raise KeyError(f'{n} = {run.notes[n]}')
    return out


def deferred_spec(k):
    n = 2 ** (k - 2)

    def f(run):
        i = run.i
        x, y = i('x'), i('y_cur')
        rn = [run.rootvar(f'i:cn{j}') for j in range(k)]
        ro = [run.rootvar(f'i:co{j}') for j in range(k)]
        return [('circuit equation', equation(run, n))] + [
            (f'claimed {nm}', i(nm) - e) for nm, e in (
                ('gx', bpoly(x, ro)), ('b_x', bpoly(x, rn)), ('b_xy', bpoly(x * y, rn)), ('b_y_old', bpoly(i('y_old'), rn)),
                ('b_y_cur', bpoly(y, rn)), ('b_y_new', bpoly(i('y_new'), rn)))]
    return f


def equation(run, n):
    """the equation of the deferred claim, times x^4n y^4n"""
    lhs, rhs = sides(run, n)
    return lhs - rhs


def sides(run, n):
    i = run.i
    x, y = i('x'), i('y_cur')
    xi, yi = linv(x), linv(y)
    sums = Poly(run.mod)
    for e in range(1, n + 1):
        sums = sums + (x * y) ** e + (x * yi) ** e
    s = i('sx') * xi ** n * y ** n - sums * x ** n
    lhs = (s + i('rxy') * (xi * yi) ** (3 * n - 1)) * i('rx') * xi ** (3 * n) * x - i('ky') * y ** n
    rhs = i('tp') * x + i('tn') * xi ** (4 * n)
    return lhs, rhs


def dseeds(fld, k):
    rnd = random.Random(31)
    inp = {n: rnd.getrandbits(250) for n in ('x', 'y_old', 'y_cur', 'y_new', 'ky', 'tp', 'tn', 'sx', 'rx', 'rxy', 'gx', 'b_x', 'b_xy', 'b_y_old', 'b_y_cur', 'b_y_new')}
    pk = packed(fld, 2 * k)
    inp.update({f'co{j}': pk[j] for j in range(k)})
    inp.update({f'cn{j}': pk[k + j] for j in range(k)})
    return inp


def left_spec(k):
    def f(run):
        rt = [run.rootvar(f'i:co{j}') for j in range(k)]
        g = sum((run.i(f'G{t}') * scoef(t, rt) for t in range(1 << k)), Poly(run.mod))
        s = sum((run.i(f'G{t}') * run.v(f'sx{t}') for t in range(int(run.notes['len sx']))), Poly(run.mod))
        return [('folded generator', run.i('GN') - g), ('commitment to s(X, y)', run.i('S') - s)]
    return f


def lseeds(fld, k):
    s = seeds(fld, k)
    s.update({'S': 77777, 'GN': 99999, 'y': 1234567})
    return s


def check(ck):
    build.build(bin='prf')
    solver.ensure()
    rn = Runner(ck)
    big = ck.tier == 'thorough'
    for fld in 'pq':
        for k, circ, kc in [(4, 'cub', 'None'), (4, 'mul', 'Some'), (4, 'lin', 'None')] + ([(5, 'chain2', 'None'), (5, 'cub', 'Some')] if big else []):
            lab = f'{fld}/verify/k={k}/{circ}/{kc}'
            rep = once(lambda: tampered(rn, fld, 't-proof', [4, circ if k == 4 else 'cub', kc], inputs(fld, 4)))
            ls, more = leaves(rn, fld, 'verify', [k, circ, kc], seeds(fld, k))
            if more:
                ck.inconclusive.append([lab, 'decision tree too large'])
            judge(rn, lab, fld, ls, spec(k, kc), rep)
            for run, fs in ls:
                if run.panic:
                    continue
                ck.obl += 1
                try:
                    bad = [w for w, d in handed_on(run, k, kc) if not run.T.zero(d)]
                except KeyError as e:
                    bad = [str(e)]
                if not bad:
                    ck.dis += 1
                    continue
                det = rep()
                if det:
                    ck.violation(f'{lab}:{bad[0]}'.replace(' ', '_'), f'{lab}: {", ".join(bad[:4])}: {det["message"]}', det)
                else:
                    ck.inconclusive.append([lab, f'claims handed on differ: {bad[:4]}'])
        for k in (4, 5) + ((6,) if big else ()):
            rep = once(lambda: tampered(rn, fld, 't-claims', [k, 'cub'], inputs(fld, k)))
            ls, more = leaves(rn, fld, 'deferred', [k], dseeds(fld, k))
            judge(rn, f'{fld}/deferred/k={k}', fld, ls, deferred_spec(k), rep)
            for c in ('cub', 'lin'):
                ls, more = leaves(rn, fld, 'leftovers', [k, c], lseeds(fld, k))
                judge(rn, f'{fld}/leftovers/k={k}/{c}', fld, ls, left_spec(k), rep)
    ck.functions = ['Proof::verify', 'MultiPolynomialOpening::verify_proof', 'Deferred::{verify,compute}', 'Leftovers::verify', 'Params::{commit,compute_opening,compute_sx}',
                    'compute_b', 'compute_g_for_inner_product (coefficients)', 'get_challenge, append_*']
    ck.bounds = ['both curves; proofs: k = 4 with three circuits, with and without a supplied k commitment (thorough: k = 5); claims: k = 4, 5 (thorough 6); '
                 'every proof element, public input, previous claim, generator and challenge is symbolic; every combination of outcomes of the comparisons made']
    ck.assumptions = ['the transcript is an ideal sponge; challenge derivation is opaque (C13); challenges are nonzero and the round challenges squares (retry loop)',
                      'challenges of previous claims decode to squares (the code panics otherwise) and lists have k entries',
                      'multiexp is its definition (C10); s(X, y) is what compute_sx returns (judged by C16)']


def once(f):
    memo = []

    def g():
        if not memo:
            memo.append(f())
        return dict(memo[0]) if memo[0] else None
    return g
