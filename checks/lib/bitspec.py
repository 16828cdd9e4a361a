"""The standard's word functions and SHA-256 (FIPS 180-4) over Boolean functions, and the cases that
compare the gadgets with them."""
import hashlib
from .bitdag import *

K = [0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5]


def _primes(n):
    out, c = [], 2
    while len(out) < n:
        if all(c % q for q in out):
            out.append(c)
        c += 1
    return out


def _root(n, k, bits=32):
    """first 32 fractional bits of the k-th root of n"""
    lo, hi = 0, n << bits
    t = n << (bits * k)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid ** k <= t:
            lo = mid
        else:
            hi = mid - 1
    return lo & ((1 << bits) - 1)


RC = [_root(p, 3) for p in _primes(64)]
IV = [_root(p, 2) for p in _primes(8)]
assert RC[:8] == K


def const(v, w=32):
    return [anf_const((v >> j) & 1) for j in range(w)]


def rotr(x, k):
    return [x[(j + k) % 32] for j in range(32)]


def shr(x, k):
    return [x[j + k] if j + k < 32 else anf_const(0) for j in range(32)]


def xor(*w):
    return [anf_xor(*b) for b in zip(*w)]


def ch(x, y, z):
    return [anf_xor(anf_and(a, b), anf_and(anf_not(a), c)) for a, b, c in zip(x, y, z)]


def maj(x, y, z):
    return [anf_xor(anf_and(a, b), anf_and(a, c), anf_and(b, c)) for a, b, c in zip(x, y, z)]


def add(ctx, *ws):
    T = {}
    for w in ws:
        T = iform_add(T, ctx.word(w))
    return ctx.bits(T)


def compress(ctx, H, block):
    """block: 512 bits, most significant first within each word"""
    W = [block[32 * i:32 * i + 32][::-1] for i in range(16)]
    for t in range(16, 64):
        s0 = xor(rotr(W[t - 15], 7), rotr(W[t - 15], 18), shr(W[t - 15], 3))
        s1 = xor(rotr(W[t - 2], 17), rotr(W[t - 2], 19), shr(W[t - 2], 10))
        W.append(add(ctx, s1, W[t - 7], s0, W[t - 16]))
    a, b, c, d, e, f, g, h = H
    for t in range(64):
        S1 = xor(rotr(e, 6), rotr(e, 11), rotr(e, 25))
        S0 = xor(rotr(a, 2), rotr(a, 13), rotr(a, 22))
        T1 = [h, S1, ch(e, f, g), const(RC[t]), W[t]]
        T2 = [S0, maj(a, b, c)]
        h, g, f, e, d, c, b, a = g, f, e, add(ctx, d, *T1), c, b, a, add(ctx, *T1, *T2)
    return [add(ctx, x, y) for x, y in zip(H, (a, b, c, d, e, f, g, h))]


def sha256_bits(ctx, msg):
    n = len(msg)
    m = list(msg) + [anf_const(1)]
    while (len(m) + 64) % 512:
        m.append(anf_const(0))
    m += [anf_const((n >> i) & 1) for i in range(63, -1, -1)]
    H = [const(v) for v in IV]
    for i in range(0, len(m), 512):
        H = compress(ctx, H, m[i:i + 512])
    return [b for w in H for b in w[::-1]]


# ---- numeric
def n_compress(H, block):
    W = [int(''.join(map(str, block[32 * i:32 * i + 32])), 2) for i in range(16)]
    r = lambda x, k: (x >> k | x << (32 - k)) & 0xffffffff
    for t in range(16, 64):
        s0 = r(W[t - 15], 7) ^ r(W[t - 15], 18) ^ W[t - 15] >> 3
        s1 = r(W[t - 2], 17) ^ r(W[t - 2], 19) ^ W[t - 2] >> 10
        W.append((s1 + W[t - 7] + s0 + W[t - 16]) & 0xffffffff)
    a, b, c, d, e, f, g, h = H
    for t in range(64):
        T1 = h + (r(e, 6) ^ r(e, 11) ^ r(e, 25)) + (e & f ^ (~e & 0xffffffff) & g) + RC[t] + W[t]
        T2 = (r(a, 2) ^ r(a, 13) ^ r(a, 22)) + (a & b ^ a & c ^ b & c)
        h, g, f, e, d, c, b, a = g, f, e, (d + T1) & 0xffffffff, c, b, a, (T1 + T2) & 0xffffffff
    return [(x + y) & 0xffffffff for x, y in zip(H, (a, b, c, d, e, f, g, h))]


def tobits(words):
    return [(w >> (31 - j)) & 1 for w in words for j in range(32)]


def sha_case(fld, n, block=False, const_bits=False):
    names = [f'm{i}' for i in range(n)]
    ins = {} if const_bits else {x: x for x in names}

    def spec(S, ctx):
        msg = [S(x) if not const_bits else None for x in names]
        out = compressed(ctx, msg) if block else sha256_bits(ctx, msg)
        return {f'h{i}': b for i, b in enumerate(out)}

    def compressed(ctx, msg):
        return [b for w in compress(ctx, [const(v) for v in IV], msg) for b in w[::-1]]

    def std(bits):
        m = [bits[x] for x in names]
        if block:
            return {f'h{i}': b for i, b in enumerate(tobits(n_compress(IV, m)))}
        by = bytes(int(''.join(map(str, m[i:i + 8])), 2) for i in range(0, n, 8))
        d = hashlib.sha256(by).digest()
        return {f'h{i}': (d[i // 8] >> (7 - i % 8)) & 1 for i in range(256)}
    return BitCase(fld, 'sha256', [n, 'v'] + (['block'] if block else []), ins, lambda b: dict(b), spec, std)


def word_case(fld, op, kinds, k=None, W=32):
    """u32/u64 operations; kinds: v, hex constant, b<pattern>"""
    ins, names = {}, []
    for i, kd in enumerate(kinds):
        if kd == 'v':
            for j in range(W):
                ins[f'o{i}[{j}]'] = f'o{i}[{j}]'
        elif kd[0] == 'b':
            for j in range(W):
                ins[f'o{i}.v[{j}]'] = f'o{i}.v[{j}]'

    def word(bits, i):
        kd = kinds[i]
        if kd == 'v':
            return sum(bits[f'o{i}[{j}]'] << j for j in range(W))
        if kd[0] == 'b':
            p = kd[1:]
            return sum({'i': bits[f'o{i}.v[{j}]'], 'n': 1 - bits[f'o{i}.v[{j}]'], '0': 0, '1': 1}[p[j % len(p)]] << j
                       for j in range(W))
        return int(kd, 16)

    def drive(bits):
        d = {}
        for i, kd in enumerate(kinds):
            if kd == 'v':
                d[f'o{i}'] = sum(bits[f'o{i}[{j}]'] << j for j in range(W))
            elif kd[0] == 'b':
                d[f'o{i}'] = sum(bits[f'o{i}.v[{j}]'] << j for j in range(W))
        return d
    n = len(kinds)

    def opspec(S, i):
        """operand word; bit patterns and constants are prescribed, variables are what the operand says"""
        kd = kinds[i]
        if kd == 'v':
            return [S(f'o{i}[{j}]') for j in range(W)]
        if kd[0] == 'b':
            p = kd[1:]
            f = {'i': lambda b: b, 'n': anf_not, '0': lambda b: anf_const(0), '1': lambda b: anf_const(1)}
            return [f[p[j % len(p)]](S(f'o{i}.v[{j}]')) for j in range(W)]
        return const(int(kd, 16), W)

    def spec(S, ctx):
        w = [opspec(S, i) for i in range(n)]
        out = {}
        if op == 'mulacc':
            T = iform_mul(ctx.word(w[0]), ctx.word(w[1]))
            T = iform_add(iform_add(T, ctx.word(w[2])), ctx.word(w[3]))
            b = ctx.bits(T)
            for j in range(64):
                out[f'lo[{j}]'], out[f'hi[{j}]'] = b[j], b[64 + j]
        else:
            r = {'alloc': lambda: w[0], 'bits': lambda: w[0], 'xor': lambda: xor(*w), 'ch': lambda: ch(*w), 'maj': lambda: maj(*w),
                 'add': lambda: add(ctx, *w), 'rotr': lambda: rotr(w[0], k), 'shr': lambda: shr(w[0], k),
                 'be': lambda: w[0], 'le': lambda: w[0], 'rev': lambda: w[0][::-1]}[op]()
            if not (W == 64 and op == 'alloc'):
                for j in range(W):
                    out[f'r[{j}]'] = r[j]
        for i in range(n):      # the operand itself carries the intended bits
            for j in range(W):
                out[f'o{i}[{j}]'] = w[i][j]
        return out

    def std(bits):
        w = [word(bits, i) for i in range(n)]
        m = (1 << W) - 1
        out = {f'o{i}[{j}]': (w[i] >> j) & 1 for i in range(n) for j in range(W)}
        if op == 'mulacc':
            t = w[0] * w[1] + w[2] + w[3]
            for j in range(64):
                out[f'lo[{j}]'], out[f'hi[{j}]'] = (t >> j) & 1, (t >> (64 + j)) & 1
            return out
        if W == 64 and op == 'alloc':
            return out
        r = {'alloc': lambda: w[0], 'bits': lambda: w[0], 'xor': lambda: w[0] ^ w[1],
             'ch': lambda: (w[0] & w[1]) ^ (~w[0] & m & w[2]), 'maj': lambda: (w[0] & w[1]) ^ (w[0] & w[2]) ^ (w[1] & w[2]),
             'add': lambda: sum(w) & m, 'rotr': lambda: (w[0] >> (k % 32) | w[0] << (32 - k % 32)) & m,
             'shr': lambda: w[0] >> k, 'be': lambda: w[0], 'le': lambda: w[0],
             'rev': lambda: int(f'{w[0]:032b}'[::-1], 2)}[op]()
        out.update({f'r[{j}]': (r >> j) & 1 for j in range(W)})
        return out
    args = [op] + list(kinds) + ([f'-{k}'] if k is not None else [])
    return BitCase(fld, f'u{W}', args, ins, drive, spec, std, M=128 if W == 64 else 32)


def run_cases(ck, cases):
    from . import solver
    from .par import parallel
    import random

    def job(bc):
        def f(sub):
            rnd = random.Random(bc.label)
            names = set(bc.inputs.values())
            seed = {x: rnd.getrandbits(1) for x in sorted(names)}
            r = run_case(bc, seed)
            sub.obl += r['obl']
            sub.dis += r['dis']
            sub.inconclusive += [[bc.label, x] for x in r['inc']]
            if r['viol']:
                sub.violation(bc.label.replace(' ', '_'), r['viol']['why'], r['viol'])
            if 'honest' in r:
                sub.violation(bc.label.replace(' ', '_') + ':honest', r['honest'],
                              dict(field=bc.fld, scenario=bc.name, args=bc.args, inputs=r.get('honest_inputs', {k: hex(v) for k, v in bc.drive(seed).items()})))
            return sorted(r['lemmas']), r['gates'], r['sums']
        return f
    out = parallel(ck, [(c.label, job(c)) for c in cases])
    lem = set()
    for o in out:
        if o:
            lem |= set(o[0])
            ck.extra['gates'] = ck.extra.get('gates', 0) + o[1]
            ck.extra['word_sums'] = ck.extra.get('word_sums', 0) + o[2]
    bad = sum_lemmas(lem)
    ck.obl += len(lem)
    ck.dis += len(lem) - len(bad)
    ck.inconclusive += [[f'sum lemma {m}', r] for m, r in bad]
    ck.extra['scenarios'] = len(cases)
