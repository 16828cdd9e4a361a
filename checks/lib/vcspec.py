"""What the verification circuit has to enforce, and how its equations are matched with that."""
import z3
from .poly import Poly, MOD
from .prf import linv, bpoly
from .prfcheck import key
from .solver import Query
from .vcirc import Circuit, Strange
from . import z3q


def layout(k):
    """bit ranges of the two claim encodings"""
    d, o = {}, 0
    for nm, w in ([('x', 128), ('y_old', 128), ('y_cur', 128), ('y_new', 128)] +
                  [(n, 256) for n in ('ky', 'tp', 'tn', 'sx', 'rx', 'rxy')] + [(f'co{i}', 128) for i in range(k)] +
                  [('gx', 256)] + [(f'cn{i}', 128) for i in range(k)] + [(n, 256) for n in ('b_x', 'b_xy', 'b_y_old', 'b_y_cur', 'b_y_new')]):
        d[nm] = slice(o, o + w)
        o += w
    l, q = {}, 0
    for nm, w in [('sx', 256), ('sy', 256), ('y', 128), ('gx', 256), ('gy', 256)] + [(f'c{i}', 128) for i in range(k)]:
        l[nm] = slice(q, q + w)
        q += w
    return d, o, l, q


class Found:
    """queries proving what matches, and what does not match"""
    def __init__(self):
        self.ok, self.missing, self.extra, self.n = [], [], [], 0


def load(fld, k, base):
    c = Circuit(fld, k, base)
    c.classes()
    c.points()
    return c


def sections(c):
    """the public inputs, the committed bits and who is who"""
    k, n = c.k, len(c.base_bits)
    d, dn, l, ln = layout(k)
    ins = c.inputs
    if ins[0] != 0 or len(ins) != 1 + n + 2 * ln + dn:
        raise Strange(f'{len(ins)} public inputs')
    ins = ins[1:]
    s = {'P': ins[:n], 'Lold': ins[n:n + ln], 'Lnew': ins[n + ln:n + 2 * ln], 'D': ins[n + 2 * ln:]}
    for t in s.values():
        for x in t:
            if c.var(x) != {x: 1}:
                raise Strange('a public input is not free')
    K = first(c)
    bits = []
    for i in range(n + 2 * ln + dn):
        co = K.get(f'gen{2 + i}')
        v = co.vars() if co is not None else []
        if len(v) != 1:
            raise Strange(f'the public-input commitment has no single bit at generator {2 + i}')
        v, = v
        if not (co - Poly.var(c.m, v)).is_zero():
            raise Strange(f'coefficient {co} in the public-input commitment')
        bits.append(int(v[1:]))
    if not (K.get('gen1', Poly(c.m)) - 1).is_zero() or set(K) != {f'gen{1 + i}' for i in range(1 + n + 2 * ln + dn)}:
        raise Strange('the public-input commitment has other terms')
    s.update({'P0': bits[:n], 'L0': bits[n:n + ln], 'Lmid': bits[n + ln:n + 2 * ln], 'D0': bits[n + 2 * ln:]})
    return s


def stream(c):
    """the transcript: points, scalars and challenges in order"""
    out, i, t = [], 0, c.transcript
    if len({x[1] for x in t}) != 1:
        raise Strange('several transcripts')
    while i < len(t):
        if t[i][0] == 'squeeze':
            v = t[i][2]
            u = [b for f, b in c.unpacked if f == {v: 1}]
            out.append(('chal', u[0] if u else None, v))
            i += 1
            continue
        if i + 1 < len(t) and t[i + 1][0] == 'absorb':
            p = c.atpoint.get((tuple(sorted(t[i][2].items())), tuple(sorted(t[i + 1][2].items()))))
            if p is not None:
                out.append(('point', c.lc(p), p))
                i += 2
                continue
        out.append(('scalar', t[i][2], None))
        i += 1
    return out


def first(c):
    for e in stream(c):
        if e[0] == 'point':
            return e[1]
    raise Strange('nothing absorbed')


def packed_bits(e):
    if e[1] is None:
        raise Strange('a challenge that is not unpacked')
    return tuple(e[1][:127]) + (0,)


# ---- the deferred claim

def deferred_polys(m, k):
    V = lambda n: Poly.var(m, n)
    n = 2 ** (k - 2)
    x, y = V('x'), V('y_cur')
    xi, yi = linv(x), linv(y)
    sums = Poly(m)
    for e in range(1, n + 1):
        sums = sums + (x * y) ** e + (x * yi) ** e
    s = V('sx') * xi ** n * y ** n - sums * x ** n
    lhs = (s + V('rxy') * (xi * yi) ** (3 * n - 1)) * V('rx') * xi ** (3 * n) * x - V('ky') * y ** n
    rhs = V('tp') * x + V('tn') * xi ** (4 * n)
    ro, rn = ([V(f'r:{t}{j}') for j in range(k)] for t in 'on')
    return [('circuit equation', lhs - rhs), ('claimed gx_old', V('gx') - bpoly(x, ro)), ('claimed b_x', V('b_x') - bpoly(x, rn)),
            ('claimed b_xy', V('b_xy') - bpoly(x * y, rn)), ('claimed b_y_old', V('b_y_old') - bpoly(V('y_old'), rn)),
            ('claimed b_y_cur', V('b_y_cur') - bpoly(y, rn)), ('claimed b_y_new', V('b_y_new') - bpoly(V('y_new'), rn))]


def deferred(c, s):
    """the deferred claim handed in by the previous proof is checked, and nothing else is"""
    f = Found()
    d, dn, _, _ = layout(c.k)
    D0 = s['D0']
    named, missing = {}, []
    for nm, sl in d.items():
        b = D0[sl]
        if nm[:2] in ('co', 'cn'):
            cf = c.challenge_form(b)
            if cf is None:
                missing.append(f'challenge scalar {nm}')
                continue
            named[tuple(sorted(cf.items()))] = f'c:{nm[1:]}'
        else:
            named[tuple(sorted((x, pow(2, i, c.m)) for i, x in enumerate(b)))] = nm
    polys, roots = c.arithmetic(named)
    want = deferred_polys(c.m, c.k)
    for t in 'on':
        for j in range(c.k):
            if f'c:{t}{j}' not in roots:
                missing.append(f'root of challenge {t}{j}')
    got = {key(p): p for p in polys if not p.is_zero()}
    seen = set()
    for l, w in want:
        # the sign of each root is the prover's; every choice of signs gives a valid claim of b or of its negative
        kk = key(w)
        if kk in got:
            f.ok.append((f'deferred: {l}', [(w, got[kk])]))
            seen.add(kk)
        else:
            missing.append(f'equation {l}')
    f.missing = [f'deferred: {x}' for x in missing]
    f.extra = [f'deferred: {str(p)[:160]}' for kk, p in got.items() if kk not in seen]
    bad = [x for x in D0 if x not in c.bool]
    if bad:
        f.missing.append(f'deferred: {len(bad)} bits are not boolean')
    f.n = len(want) + len(roots)
    return f


# ---- the previous proof

class Same:
    """a union-find of bits"""
    def __init__(self):
        self.p = {}

    def find(self, x):
        while self.p.get(x, x) != x:
            x = self.p[x]
        return x

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.p[max(a, b)] = min(a, b)


def previous(c, s):
    f = Found()
    m, k = c.m, c.k
    d, dn, l, ln = layout(k)
    one = Poly.const(m, 1)
    st = stream(c)
    sp = Same()

    def need(cond, what):
        f.n += 1
        if not cond:
            f.missing.append(what)
        return cond

    def samebits(what, a, b):
        f.n += 1
        for x, y in zip(a, b):
            sp.join(x, y)
        if len(a) != len(b) or any(c.find(x) != c.find(y) for x, y in zip(a, b)):
            f.missing.append(f'bits of {what}')

    def wit(e, what):
        if e[0] == 'point' and len(e[1]) == 1:
            (b, v), = e[1].items()
            if b.startswith('w') and (v - 1).is_zero():
                return b
        raise Strange(f'{what} is not a witnessed point')

    def opened(e, sl, what):
        """an absorbed opening, given as a multiple of the generator"""
        v = c.scalar('n', s['D'][sl])
        ok = e[0] == 'point' and set(e[1]) == {'G'} and (e[1]['G'] - v).is_zero()
        need(ok, f'absorbed opening {what}')
        return {'G': v}

    it = iter(st)
    try:
        K = next(it)[1]
        W = lambda what: {wit(next(it), what): one}

        def ch(what):
            e = next(it)
            if e[0] != 'chal':
                raise Strange(f'{what} is not drawn where the protocol draws it')
            return packed_bits(e)
        R = W('r')
        y_cur = ch('y_cur')
        Scur, TP, TN = W('s_cur'), W('t+'), W('t-')
        x = ch('x')
        Cc = W('c')
        y_new = ch('y_new')
        Snew = W('s_new')
        ky = opened(next(it), d['ky'], 'ky')
        rx = opened(next(it), d['rx'], 'rx')
        rxy = opened(next(it), d['rxy'], 'rxy')
        sxo = W('sx_old opening')
        sxc = opened(next(it), d['sx'], 'sx_cur')
        tp = opened(next(it), d['tp'], 'tx_positive')
        tn = opened(next(it), d['tn'], 'tx_negative')
        sxn = W('sx_new opening')
        gxo = opened(next(it), d['gx'], 'gx_old')
        z = ch('z')
        rounds = []
        for i in range(k):
            r = [tuple(W(f'{n}_{i}_{j}') for n in ('L', 'R', 'l', 'r')) for j in range(5)]
            e = next(it)
            if e[0] != 'scalar' or len(e[1]) != 1 or next(iter(e[1])) == 0:
                raise Strange('no fork value')
            rounds.append((r, ch(f'round challenge {i}')))
        if next(it, None) is not None:
            raise Strange('more is absorbed than the protocol absorbs')
    except StopIteration:
        raise Strange('the transcript ends early')
    ws = [next(iter(w)) for w in [R, Scur, TP, TN, Cc, Snew, sxo, sxn] + [w for r, _ in rounds for t in r for w in t]]
    need(len(set(ws)) == len(ws), 'distinct proof elements')

    # points encoded by claims
    def encoded(what, bx, by, is_=None):
        """the witnessed point whose coordinates have these bits"""
        hits = []
        for p, (fx, fy) in c.xy.items():
            if c.how[p][0] != 'witness':
                continue
            ux = [b for g, b in c.unpacked if g == fx]
            uy = [b for g, b in c.unpacked if g == fy]
            for a in ux:
                for b in uy:
                    if all(c.find(u) == c.find(v) for u, v in zip(a, bx)) and all(c.find(u) == c.find(v) for u, v in zip(b, by)):
                        hits.append((p, a, b))
        if is_:
            hits = [h for h in hits if f'w{h[0]}' == is_]
        f.n += 1
        if not hits:
            f.missing.append(f'point {what} in the claim')
            return None
        p, a, b = hits[0]
        for u, v in list(zip(a, bx)) + list(zip(b, by)):
            sp.join(u, v)
        return {f'w{p}': one}

    L0, Ln, D = s['L0'], s['Lnew'], s['D']
    s_old = encoded('s_old', L0[l['sx']], L0[l['sy']])
    g_old = encoded('g_old', L0[l['gx']], L0[l['gy']])
    encoded('s_new', Ln[l['sx']], Ln[l['sy']], next(iter(Snew)))
    g_new = encoded('g_new', Ln[l['gx']], Ln[l['gy']])
    samebits('y_new in the leftovers', y_new, Ln[l['y']])
    samebits('x in the deferred claim', x, D[d['x']])
    samebits('y_cur in the deferred claim', y_cur, D[d['y_cur']])
    samebits('y_new in the deferred claim', y_new, D[d['y_new']])
    samebits('y_old in the deferred claim', L0[l['y']], D[d['y_old']])
    for i in range(k):
        samebits(f'challenge {i} in the leftovers', rounds[i][1], Ln[l[f'c{i}']])
        samebits(f'new challenge {i} in the deferred claim', rounds[i][1], D[d[f'cn{i}']])
        samebits(f'old challenge {i} in the deferred claim', L0[l[f'c{i}']], D[d[f'co{i}']])
    # the previous proof was made against the leftovers this proof continues from
    for u, v in zip(s['Lmid'], s['Lold']):
        sp.join(u, v)
    need(all(c.find(u) == c.find(v) for u, v in zip(s['Lmid'], s['Lold'])), 'previous proof committed to these leftovers')
    # equations
    pairs, lone, left = c.eqpoints()
    used = set()
    if s_old and g_old and g_new:
        e = lambda b: c.scalar('e', b)

        def horner(ts):
            acc = ts[0]
            for t in ts[1:]:
                acc = c.plus(c.times(acc, e(z)), t)
            return acc
        p = [horner([R, s_old, Scur, TP, TN, Snew, g_old]), R, Cc, c.plus(c.times(K, e(z)), Cc), Cc]
        v = [horner([rx, sxo, sxc, tp, tn, sxn, gxo]), rxy, sxo, c.plus(c.times(ky, e(z)), sxc), sxn]
        for r, b in rounds:
            u = e(b)
            for j in range(5):
                p[j] = c.plus(c.plus(p[j], c.times(r[j][0], u)), c.times(r[j][1], linv(u)))
                v[j] = c.plus(c.plus(v[j], c.times(r[j][2], u)), c.times(r[j][3], linv(u)))
        gn = next(iter(g_new))
        lhs = [(q, c.minus(c.lc(q[0]), c.lc(q[1]))) for q in pairs]
        opening = {nm: t for t, nm in c.scal.items()}
        for j in range(5):
            hit = None
            for q, df in lhs:
                for sg in (1, -1):
                    r = c.minus(p[j], {b: w.scale(sg % m) for b, w in df.items()})
                    if set(r) == {gn} and len(r[gn].t) == 1:
                        vs = r[gn].vars()
                        if len(vs) == 1 and opening.get(next(iter(vs)), ('',))[0] == 'n' and (r[gn] - Poly.var(m, next(iter(vs)))).is_zero():
                            hit = hit or (q, df, sg, r[gn])
            f.n += 2
            if not hit:
                f.missing.append(f'commitment equation {j}')
                f.missing.append(f'opening equation {j}')
                continue
            a = hit[3]
            abits = opening[next(iter(a.vars()))][1]
            need(all(t in c.bool for t in abits), f'scalar of equation {j} made of booleans')
            used.add(hit[0])
            f.ok.append((f'commitment equation {j}', diffs(c, c.minus(p[j], {gn: a}), hit[1], hit[2])))
            b = c.scalar('n', D[d[('b_x', 'b_xy', 'b_y_old', 'b_y_cur', 'b_y_new')[j]]])
            want = c.minus(v[j], {'G': a * b})
            for q, df in lhs:
                for sg in (1, -1):
                    if not c.minus(want, {t: w.scale(sg % m) for t, w in df.items()}):
                        used.add(q)
                        f.ok.append((f'opening equation {j}', diffs(c, want, df, sg)))
                        break
                else:
                    continue
                break
            else:
                f.missing.append(f'opening equation {j}')
    # nothing else
    for q in pairs:
        if q not in used:
            f.extra.append(f'points {q[0]} and {q[1]} are equal')
    f.extra += [f'half of an equality of points {q}' for q in lone]
    f.extra += [f'{str(q)[:160]}' for q in left]
    for x_ in list(c._p):
        if sp.find(x_) != sp.find(c._p[x_]):
            f.extra.append('bits forced equal')
            break
    # booleans, base case, inner circuit
    for nm in ('P', 'Lold', 'Lnew', 'D', 'P0', 'L0', 'D0'):
        need(all(b in c.bool for b in s[nm]), f'booleans {nm}')
    fresh = s['P0'] + s['L0'] + s['D0']
    need(len(set(fresh)) == len(fresh) and not set(fresh) & set(c.inputs), 'the committed bits of the previous proof are its own')
    need(c.inner is not None and list(c.inner[0]) == s['P0'] and list(c.inner[1]) == s['P'], 'inner circuit gets the old and new payload')
    for i, (b, v) in enumerate(zip(c.base_bits, s['P0'])):
        w = {v: 1, 0: -b % m} if b else {v: 1}
        need(any(prop(g, w, m) for g in c.based), f'base payload bit {i}')
    for g in c.based:
        if not any(prop(g, {v: 1, 0: -b % m} if b else {v: 1}, m) for b, v in zip(c.base_bits, s['P0'])):
            f.extra.append('base case equation')
    need(c.base in c.bool and c.var(c.base) == {c.base: 1} and c.base not in fresh + c.inputs, 'base case flag')
    return f


def prop(a, b, m):
    if set(a) != set(b):
        return False
    x = max(a)
    r = a[x] * pow(b[x], -1, m) % m
    return all(a[y] == b[y] * r % m for y in a)


def diffs(c, want, df, sg):
    z = Poly(c.m)
    return [(want.get(b, z), df.get(b, z).scale(sg % c.m)) for b in set(want) | set(df)]


def queries(label, f, mod):
    """for the solver: what is wanted differs from what is enforced"""
    qs = []
    for l, ps in f.ok:
        goal = Poly.const(mod, -1)
        from .prfcheck import primitive
        for i, (w, g) in enumerate(ps):
            dlt = primitive(w) - primitive(g) if l.startswith('deferred') else w - g
            goal = goal + Poly.var(mod, f'u{i}') * dlt
        qs.append(Query(f'{label}:{l}', mod, [goal], []))
    return qs


def bit_lemmas(ck, lens, mod):
    """two bit strings of these lengths with the same value mod p are the same"""
    for n in sorted(lens):
        a, b, t = z3.Ints('a b t')
        z3q.lemma(ck, f'bit strings of length {n}', a >= 0, b >= 0, a < 2 ** n, b < 2 ** n, a - b == t * mod, a != b)
