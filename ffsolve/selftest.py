#!/usr/bin/env python3-vt
"""Compares ffsolve with brute force on random systems over small primes."""
import itertools, os, random, subprocess, sys
EXE = sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'target', 'ffsolve')
N = int(sys.argv[2]) if len(sys.argv) > 2 else 2000
rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))


def rpoly(p, nv, deg, terms):
    d = {}
    for _ in range(rnd.randint(1, terms)):
        m = [0] * nv
        for _ in range(rnd.randint(0, deg)):
            m[rnd.randrange(nv)] += 1
        d[tuple(m)] = (d.get(tuple(m), 0) + rnd.randrange(1, p)) % p
    return {k: c for k, c in d.items() if c}


def ev(P, a, p):
    s = 0
    for k, c in P.items():
        t = c
        for x, e in zip(a, k):
            t = t * pow(x, e, p) % p if e else t
        s += t
    return s % p


def enc(P):
    return ';'.join('%x' % c + ''.join(f',{i}^{e}' for i, e in enumerate(k) if e) for k, c in P.items()) or '0'


def mulp(P, Q, p):
    r = {}
    for a, c in P.items():
        for b, d in Q.items():
            k = tuple(x + y for x, y in zip(a, b))
            r[k] = (r.get(k, 0) + c * d) % p
    return {k: c for k, c in r.items() if c}


cnt = {}
for it in range(N):
    p = rnd.choice([11, 13, 17, 19, 23])
    nv = rnd.choice([2, 3, 3])
    eqs = [rpoly(p, nv, 3, 3) for _ in range(rnd.randint(1, nv + 2))]
    if rnd.random() < .4:
        eqs.append(mulp(rpoly(p, nv, 1, 2), rpoly(p, nv, 2, 2), p))
    nes = [rpoly(p, nv, 2, 2) for _ in range(rnd.randint(0, 3))]
    eqs = [e for e in eqs if e]
    nes = [e for e in nes if e] or [{tuple([0] * nv): 1}]
    sat = any(all(ev(e, a, p) == 0 for e in eqs) and all(ev(n, a, p) for n in nes) for a in itertools.product(range(p), repeat=nv))
    txt = f'p {p:x}\nv {nv}\n' + ''.join('e ' + enc(e) + '\n' for e in eqs) + ''.join('n ' + enc(n) + '\n' for n in nes)
    r = subprocess.run([EXE, '5'], input=txt, capture_output=True, text=True).stdout
    st = r.split()[0]
    if 'unknown' in r:
        st = 'unknown'
    cnt[(st, sat)] = cnt.get((st, sat), 0) + 1
    if st == 'unsat' and sat or st == 'sat' and not sat:
        print('MISMATCH', st, sat)
        print(txt)
        sys.exit(1)
print(cnt)
