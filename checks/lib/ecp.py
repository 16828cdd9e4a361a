"""Reference affine arithmetic on the two curves (textbook group law, Python integers)."""
from .poly import MOD
B = {'p': 7, 'q': 5}        # curve over field p: y^2 = x^3 + 7 ; over q: y^2 = x^3 + 5
SCALAR = {'p': 'q', 'q': 'p'}


def sqrt(a, m):
    a %= m
    if a == 0:
        return 0
    if pow(a, (m - 1) // 2, m) != 1:
        return None
    q, s = m - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (m - 1) // 2, m) == 1:
        z += 1
    mm, c, t, r = s, pow(z, q, m), pow(a, q, m), pow(a, (q + 1) // 2, m)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % m
            i += 1
        b = pow(c, 1 << (mm - i - 1), m)
        mm, c = i, b * b % m
        t, r = t * c % m, r * b % m
    return r


def point(f, k=0):
    """k-th point by increasing x"""
    m, x = MOD[f], 1
    while True:
        y = sqrt(x ** 3 + B[f], m)
        if y is not None:
            if k == 0:
                return (x, y)
            k -= 1
        x += 1


def neg(f, P):
    return None if P is None else (P[0], -P[1] % MOD[f])


def add(f, P, Q):
    m = MOD[f]
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % m == 0:
            return None
        l = 3 * P[0] * P[0] * pow(2 * P[1], -1, m)
    else:
        l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, m)
    x = (l * l - P[0] - Q[0]) % m
    return (x, (l * (P[0] - x) - P[1]) % m)


def mul(f, k, P):
    R = None
    for b in bin(k)[2:]:
        R = add(f, R, R)
        if b == '1':
            R = add(f, R, P)
    return R


def on(f, x, y):
    return (y * y - x ** 3 - B[f]) % MOD[f] == 0
