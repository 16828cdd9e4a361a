"""2-Sylow level interpretation, for square roots: the input is a nonzero a with a^t = w^m (w of order
2^32, t odd, m any 32-bit value) and every field value is a^r * w^s with 0 <= r < t and s a 32-bit
solver term.  Machine words that depend on m are solver terms too."""
import z3
from .bv import Dom, W, Unsupported
from .fe import TY, FExec, FE
from .ir import UNDEF, succs
from .poly import MOD
from .wordcheck import R
from . import z3q

S = 32
T_ = {f: (m - 1) >> S for f, m in MOD.items()}


def generator(f):
    m = MOD[f]
    g = 2
    while pow(g, (m - 1) // 2, m) == 1:
        g += 1
    return pow(g, T_[f], m)


OMEGA = {f: generator(f) for f in 'pq'}


def dlog(f, c):
    """the discrete logarithm of an element of the 2-Sylow subgroup, or None"""
    m = MOD[f]
    w = OMEGA[f]
    x = 0
    for i in range(S):
        t = c * pow(w, -x % (1 << S), m) % m
        if pow(t, 1 << (S - 1 - i), m) != 1:
            x |= 1 << i
    return x if pow(w, x, m) == c % m else None


class T:
    """a machine word that depends on the input"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def part(self, ex, off, n):
        return T(z3.simplify(z3.Extract(8 * (off + n) - 1, 8 * off, self.t)))


def fit(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    n = x.t.size()
    return x.t if n == w else z3.ZeroExt(w - n, x.t) if n < w else z3.Extract(w - 1, 0, x.t)


def mk(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_bv_value(t) else T(t)


def b2(c, w=1):
    return mk(z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w)))


def truth(c):
    return fit(c, c.t.size()) != 0 if isinstance(c, T) else z3.BoolVal(bool(c & 1))


def known(*a):
    if any(x is UNDEF for x in a):
        raise Unsupported('use of an undefined value')


class TDom(Dom):
    def icmp(self, pred, a, b, w):
        known(a, b)
        if isinstance(a, T) or isinstance(b, T):
            x, y = fit(a, w), fit(b, w)
            ops = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                   'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
                   'sgt': lambda: x > y, 'sge': lambda: x >= y}
            return b2(ops[pred]())
        return Dom.icmp(self, pred, a, b, w)

    def ite(self, c, a, b):
        known(c)
        if a is UNDEF or b is UNDEF:
            known(a, b)
        if isinstance(c, int):
            return a if c & 1 else b
        if isinstance(c, T):
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            w = max([x.t.size() for x in (a, b) if isinstance(x, T)] + [max(x.bit_length(), 8) for x in (a, b) if isinstance(x, int)])
            w = next(k for k in (1, 8, 16, 32, 64, 128) if k >= w)
            return mk(z3.If(truth(c), fit(a, w), fit(b, w)))
        return Dom.ite(self, c, a, b)

    def wrap(self, a, w):
        if isinstance(a, T):
            return mk(fit(a, w))
        return Dom.wrap(self, a, w)

    def signed(self, a, w):
        if isinstance(a, T):
            raise Unsupported('sign extension of a term')
        return Dom.signed(self, a, w)

    def subst(self, a):
        return a if isinstance(a, T) else Dom.subst(self, a)


class V:
    """a^r w^s"""
    __slots__ = ('f', 'r', 's')

    def __init__(self, f, r, s):
        self.f, self.r, self.s = f, r, s

    def part(self, ex, off, n):
        raise Unsupported('limbs of an abstract field element')

    def merge(self, ex, c, o):
        return select(ex, self.f, c, self, o)


def select(ex, f, c, x, y):
    """x if c else y"""
    if isinstance(c, int):
        return x if c & 1 else y
    x, y = conv(f, x), conv(f, y)
    if x.r != y.r:
        raise Unsupported('choice between different cosets')
    if x.s.eq(y.s):
        return x
    return V(f, x.r, z3.simplify(z3.If(truth(c), x.s, y.s)))


def conv(f, v):
    if isinstance(v, V):
        if v.f != f:
            raise Unsupported('field mix-up')
        return v
    if isinstance(v, FE) and v.p.is_const():
        c = v.p.constval()
    elif isinstance(v, int):
        c = v * pow(R, -1, MOD[f]) % MOD[f]
    else:
        raise Unsupported('value outside the group')
    s = dlog(f, c) if c else None
    if s is None:
        raise Unsupported('constant outside the 2-Sylow subgroup')
    return V(f, 0, z3.BitVecVal(s, S))


class SqExec(FExec):
    def __init__(self, mod, f):
        FExec.__init__(self, mod, [], opaque=(), extra=hooks(), merge=('pow',))
        self.dom = TDom()
        self.m = z3.BitVec('m', S)

    def decide(self, c, label=None):
        if isinstance(c, T):
            raise Unsupported('branch on a word of the input')
        return FExec.decide(self, c, label)

    def binop(self, op, a, b, w):
        if isinstance(a, T) or isinstance(b, T):
            self.need(a), self.need(b)
            if not isinstance(a, (int, T)) or not isinstance(b, (int, T)):
                raise Unsupported('mixed words')
            x, y = fit(a, w), fit(b, w)
            ops = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                   'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}
            if op not in ops:
                raise Unsupported(op)
            return mk(ops[op]())
        return FExec.binop(self, op, a, b, w)

    def mul(self, f, x, y):
        r = x.r + y.r
        s = x.s + y.s
        if r >= T_[f]:
            s = s + self.m * (r // T_[f])
            r %= T_[f]
        return V(f, r, z3.simplify(s))


def hooks():
    h = {}
    for f, TT in TY.items():
        def get(ex, a, f=f):
            return conv(f, ex.load(a, 32))

        def b3(ex, a, pretty, f=f, get=get):
            ex.store(a[0], 32, ex.mul(f, get(ex, a[1]), get(ex, a[2])))

        def asg(ex, a, pretty, f=f, get=get):
            ex.store(a[0], 32, ex.mul(f, get(ex, a[0]), get(ex, a[1])))

        def sq(ex, a, pretty, f=f, get=get):
            x = get(ex, a[1])
            ex.store(a[0], 32, ex.mul(f, x, x))

        def one(ex, a, pretty, f=f):
            ex.store(a[0], 32, V(f, 0, z3.BitVecVal(0, S)))

        def sel(ex, a, pretty, f=f):
            ex.store(a[0], 32, select(ex, f, ex.dom.subst(a[3]), ex.load(a[2], 32), ex.load(a[1], 32)))

        def casg(ex, a, pretty, f=f):
            ex.store(a[0], 32, select(ex, f, ex.dom.subst(a[2]), ex.load(a[1], 32), ex.load(a[0], 32)))

        def no(ex, a, pretty):
            raise Unsupported(f'{pretty} on a group element')

        def eq(neg, f=f):
            def g(ex, a, pretty):
                if pretty.startswith('<&'):
                    a = [ex.load(x, 8) for x in a]
                x, y = ex.load(a[0], 32), ex.load(a[1], 32)
                for u in (x, y):
                    if isinstance(u, FE) and u.p.is_const() and u.p.is_zero() or isinstance(u, int) and u == 0:
                        return neg        # the input is not zero
                x, y = conv(f, x), conv(f, y)
                if x.r != y.r:
                    raise Unsupported('comparison of different cosets')
                return b2(z3.Not(x.s == y.s) if neg else x.s == y.s)
            return g
        h[f'<{TT}>::mul'] = b3
        for l in (TT, '&' + TT):
            for r in ('', f'<{TT}>', f'<&{TT}>'):
                h[f'<{l} as core::ops::arith::Mul{r}>::mul'] = b3
                for o in ('Add', 'Sub'):
                    h[f'<{l} as core::ops::arith::{o}{r}>::{o.lower()}'] = no
            h[f'<{l} as core::cmp::PartialEq>::eq'] = eq(0)
            h[f'<{l} as core::cmp::PartialEq>::ne'] = eq(1)
        for r in ('', f'<&{TT}>'):
            h[f'<{TT} as core::ops::arith::MulAssign{r}>::mul_assign'] = asg
        h[f'<{TT}>::square'] = h[f'<{TT} as halo::fields::Field>::square'] = sq
        for n in (f'<{TT}>::one', f'<{TT} as halo::fields::Field>::one'):
            h[n] = one
        for n in (f'<{TT}>::add', f'<{TT}>::sub', f'<{TT}>::double', f'<{TT}>::neg'):
            h[n] = no
        h[f'<{TT} as subtle::ConstantTimeEq>::ct_eq'] = eq(0)
        h[f'<{TT} as subtle::ConditionallySelectable>::conditional_select'] = sel
        h[f'<{TT} as subtle::ConditionallySelectable>::conditional_assign'] = casg
        h[f'<{TT} as halo::fields::Field>::is_zero'] = lambda ex, a, pretty: 0
    return h


# ------------------------------------------------------------------------------ loop with a cut
def header(f):
    """the header of the outermost loop that is entered first"""
    heads, state = [], {}

    def dfs(b):
        st = [(b, iter(succs(f, b)))]
        state[b] = 1
        order.append(b)
        while st:
            n, it = st[-1]
            for s in it:
                if state.get(s) == 1:
                    heads.append(s)
                elif s not in state:
                    state[s] = 1
                    order.append(s)
                    st.append((s, iter(succs(f, s))))
                    break
            else:
                state[n] = 2
                st.pop()
    order = []
    dfs(f.order[0])
    hs = [b for b in order if b in heads]
    return hs[0] if hs else None


def cells(ex):
    return {(b, k): (s, v) for b, o in ex.mem.objs.items() for k, (s, v) in o.items()}


def setcell(ex, key, size, v):
    ex.mem.writable(key[0])[key[1]] = (size, v)


def eqv(a, b):
    if isinstance(a, V) and isinstance(b, V):
        return a.r == b.r and a.s.eq(b.s)
    if isinstance(a, T) and isinstance(b, T):
        return a.t.eq(b.t)
    return type(a) is type(b) and a == b


def inv(M, m, x, b, z, v):
    one = z3.BitVecVal(1, S)
    done = z3.And(x + x + m == 0, v == one, b << 1 == 0, z << 1 == 0)
    if M == 0:
        return x + x + m == 0
    return z3.Or(z3.And(x + x + m == b, z3.UGE(v, one), z3.ULE(v, M), z << v == 0, z << (v - 1) != 0, b << (v - 1) == 0), done)


class Sqrt:
    """runs <F as Field>::sqrt; even: assume the input is a square"""

    def __init__(self, mod, f, even):
        self.mod, self.f, self.even = mod, f, even
        self.ex = SqExec(mod, f)
        self.queries = []

    def start(self):
        from .ir import decode_func
        ex, mod = self.ex, self.mod
        name = next(k for k, v in mod.pretty.items() if v == f'<{TY[self.f]} as halo::fields::Field>::sqrt')
        if name not in mod.decoded:
            mod.decoded[name] = decode_func(mod, name)
        fn = self.fn = mod.decoded[name]
        ex.used.add(fn.pretty)
        self.out, a = ex.mem.alloc(64), ex.mem.alloc(32)
        ex.store(a, 32, V(self.f, 1, z3.BitVecVal(0, S)))
        self.env = dict(zip(fn.params, [self.out, a]))
        self.H = header(fn)
        if self.H is None:
            return ex.run(fn, self.env, fn.order[0], None)
        if fn.blocks[self.H][0][0] == 'phi':
            raise Unsupported('loop header with phi')
        return ex.run(fn, self.env, fn.order[0], self.H)

    def iterate(self):
        return self.ex.run(self.fn, self.env, self.H, self.H)

    def result(self):
        o = self.ex.mem.objs[self.out]
        vs = [v for s, v in o.values() if isinstance(v, V)]
        fl = [v for s, v in o.values() if isinstance(v, (T, int)) and s == 1]
        if len(vs) != 1 or len(fl) != 1:
            raise Unsupported('result layout')
        return vs[0], fl[0]

    def live(self, mem, c0, c1):
        """cells that one iteration changes and reads before it writes them"""
        ex = self.ex
        ch = [k for k in c1 if k in c0 and c0[k][0] == c1[k][0] and not eqv(c0[k][1], c1[k][1])]
        out = []
        for k in ch:
            if not isinstance(c1[k][1], (V, T)):
                continue
            ex.mem = mem.copy()
            env = dict(self.env)
            setcell(ex, k, c0[k][0], UNDEF)
            try:
                ex.run(self.fn, env, self.H, self.H)
            except Unsupported:
                out.append(k)
        dead = [k for k in ch if k not in out and isinstance(c1[k][1], (V, T))]
        return out, dead

    def run(self):
        """-> list of (name, assertions): each must be contradictory"""
        ex, f, m = self.ex, self.f, self.ex.m
        pre = [z3.Extract(0, 0, m) == (0 if self.even else 1)]
        k, _ = self.start()
        qs = []
        facts = list(pre)
        if k == 'stop':
            mem0 = ex.mem.copy()
            env0 = dict(self.env)
            c0 = cells(ex)
            if self.iterate()[0] != 'stop':
                raise Unsupported('the loop runs once')
            c1 = cells(ex)
            ex.mem = mem0
            for (o, off), (sz, v) in c1.items():        # constants copied limb by limb
                if isinstance(v, V) and c0.get((o, off), (0,))[0] not in (0, sz):
                    w = ex.load(o + off, sz)
                    if w is not UNDEF:
                        ex.store(o + off, sz, w)
            mem0 = ex.mem.copy()
            c0 = cells(ex)
            live, dead = self.live(mem0, c0, c1)
            self.env = env0
            ex.mem = mem0
            xs = [c for c in live if isinstance(c1[c][1], V) and c1[c][1].r]
            bz = [c for c in live if isinstance(c1[c][1], V) and not c1[c][1].r]
            vs = [c for c in live if isinstance(c1[c][1], T)]
            if (len(xs), len(bz), len(vs)) != (1, 2, 1):
                raise Unsupported(f'unexpected loop state {len(xs)} {len(bz)} {len(vs)}')
            x = xs[0]
            bz.sort(key=lambda c: len(str(conv(f, c0[c][1]).s)), reverse=True)
            # z starts as a constant, b as the input's 2-part
            z, b = sorted(bz, key=lambda c: not z3.is_bv_value(conv(f, c0[c][1]).s))
            v = vs[0]
            size = c0[v][0]
            st = lambda: [conv(f, ex.mem.objs[x[0]][x[1]][1]).s, conv(f, ex.mem.objs[b[0]][b[1]][1]).s, conv(f, ex.mem.objs[z[0]][z[1]][1]).s,  # noqa: E731
                          fit(ex.mem.objs[v[0]][v[1]][1], S)]
            M = S
            while True:
                cur = st()
                if self.even:
                    qs.append((f'square root loop, {M} rounds left', facts + [z3.Not(inv(M, m, *cur))]))
                new = [z3.BitVec(f'{n}{M}', S) for n in 'xbzv']
                facts = pre + ([inv(M, m, *new)] if self.even else [])
                for c, n in ((x, new[0]), (b, new[1]), (z, new[2])):
                    setcell(ex, c, 32, V(f, conv(f, ex.mem.objs[c[0]][c[1]][1]).r, n))
                setcell(ex, v, size, mk(fit(T(new[3]), 8 * size)))
                for c in dead:
                    if c in cells(ex):
                        setcell(ex, c, ex.mem.objs[c[0]][c[1]][0], UNDEF)
                k, _ = self.iterate()
                if k == 'ret':
                    break
                M -= 1
                if M < 0:
                    raise Unsupported('too many rounds')
        val, flag = self.result()
        fl = truth(flag)
        if self.even:
            qs.append(('a square has no root', facts + [z3.Not(fl)]))
        sq = ex.mul(f, val, val)
        if sq.r != 1:
            qs.append(('the result is in the wrong coset', facts + [fl]))
        else:
            qs.append(('the result does not square to the input', facts + [fl, sq.s != 0]))
        if not self.even:
            qs.append(('a non-square has a root', facts + [fl]))
        return qs
