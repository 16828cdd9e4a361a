"""Field-level interpretation of the IR: calls of the field types' operations (whose word-level
behaviour C01-C04 decide) act on polynomials over the prime field; everything above them - curve
code, exponentiation loops, encodings - is interpreted instruction by instruction.  Decisions on
field values fork the path; each path's obligations go to the finite-field solver."""
import ctypes, random
from . import ecp, solver
from .aff import Aff, Store
from .bv import Dom, W, Unsupported
from .ir import Exec, Panic, UNDEF, explore
from .poly import Poly, MOD
from .scn import NONRES
from .solver import Query
from .wordcheck import R, Native

TY = {'p': 'halo::fields::fp::Fp', 'q': 'halo::fields::fq::Fq'}
LET = {'fp': 'p', 'fq': 'q'}
BASE = {'ec0': 'q', 'ec1': 'p'}
SCAL = {'ec0': 'p', 'ec1': 'q'}


class FE:
    __slots__ = ('f', 'p')

    def __init__(self, f, p):
        self.f, self.p = f, p

    def part(self, ex, off, n):
        raise Unsupported('limbs of an abstract field element')

    def merge(self, ex, c, o):
        """self if c else o"""
        if not isinstance(o, FE):
            return NotImplemented
        if isinstance(self.p, Aff) or isinstance(o.p, Aff):
            a, b = aff(ex, self.f, self.p), aff(ex, self.f, o.p)
            if a.same(b):
                return self
            c = ex.dom.subst(c)
            if isinstance(c, int):
                return self if c else o
            if len(c.p) == 1 and next(iter(c.p.items()))[1] == 1 and len(next(iter(c.p))) == 1:
                return FE(self.f, ex.store_of(self.f).ite(next(iter(c.p))[0], a, b))
            return FE(self.f, (a - b) * aff(ex, self.f, wpoly(ex, self.f, c)) + b)
        if self.p.t == o.p.t:
            return self
        cp = wpoly(ex, self.f, c)
        return FE(self.f, reduce_bits(ex, cp * (self.p - o.p) + o.p))

    def __repr__(self):
        return f'FE<{self.p}>'


def wpoly(ex, f, w):
    """an integer word over atoms as a field polynomial in the same atoms"""
    m = MOD[f]
    w = ex.dom.subst(w)
    if isinstance(w, int):
        return Poly.const(m, w)
    t = {}
    for k, c in w.p.items():
        d = {}
        for i in k:
            if not ex.dom.isbool(i):
                raise Unsupported('field value from a non-bit word')
            d[f'@{i:06d}'] = 1
        t[tuple(sorted(d.items()))] = (t.get(tuple(sorted(d.items())), 0) + c) % m
    return Poly(m, {k: c for k, c in t.items() if c})


def aff(ex, f, p):
    """a polynomial over bit atoms as a decision diagram"""
    if isinstance(p, Aff):
        return p
    S = ex.store_of(f)
    if p.is_const():
        return S.const(p.constval())
    r = S.const(0)
    for k, c in p.t.items():
        t = S.const(c)
        for v, e in k:
            if v[0] != '@':
                raise Unsupported('mixed field value')
            t = t * S.var(int(v[1:]))
        r = r + t
    return r


def reduce_bits(ex, p):
    if isinstance(p, Aff):
        return p
    if not any(e > 1 and v[0] == '@' for k in p.t for v, e in k):
        return p
    r = {}
    for k, c in p.t.items():
        k = tuple((v, 1 if v[0] == '@' else e) for v, e in k)
        r[k] = (r.get(k, 0) + c) % p.m
    return Poly(p.m, {k: c for k, c in r.items() if c})


class FExec(Exec):
    """Execution with abstract field elements."""
    ALWAYS = ('add', 'sub', 'mul', 'neg', 'double', 'square', 'const', 'eq', 'select', 'from')

    def __init__(self, mod, prefix, opaque=('invert', 'sqrt', 'to_bytes', 'from_bytes', 'pow'), extra=None, merge=()):
        Exec.__init__(self, mod, Dom(), hooks=table(mod, tuple(opaque), extra), decisions=prefix, merge=merge)
        self.eqs = {'p': [], 'q': []}
        self.nes = {'p': [], 'q': []}
        self.chosen = {}
        self.enc = {}             # (field, poly key) -> list of 256 bit words
        self.encp = []            # [(field, Poly, bits)]
        self.fresh = 0
        self.log = []
        self.zeros = set()
        self.stores = {}
        self.affine = False

    def store_of(self, f):
        if f not in self.stores:
            self.stores[f] = Store(MOD[f])
        return self.stores[f]

    # ---- decisions about field values
    def choose(self, key):
        if key in self.chosen:
            return self.chosen[key]
        n = len(self.trace)
        v = self.prefix[n] if n < len(self.prefix) else 0
        self.trace.append((key, v))
        self.chosen[key] = v
        return v

    def is_zero(self, f, p):
        if p.is_const():
            return int(p.is_zero())
        k = max(p.t, key=str)
        n = p.scale(pow(p.t[k], -1, p.m))
        key = ('eq', f, pkey(n))
        new = key not in self.chosen
        v = self.choose(key)
        if new:
            (self.eqs if v else self.nes)[f].append(p)
            if v:
                self.zeros.add((f, pkey(n)))
                for g, q, b in self.encp:
                    if g == f and self.iszero_known(f, q):
                        self.zero_bits(b)
        return v

    def iszero_known(self, f, p):
        if p.is_const():
            return p.is_zero()
        k = max(p.t, key=str)
        return (f, pkey(p.scale(pow(p.t[k], -1, p.m)))) in self.zeros

    def zero_bits(self, b):
        """the canonical encoding of zero is all zeros"""
        for x in b:
            x = self.dom.subst(x)
            if not isinstance(x, int):
                for k in x.p:
                    for i in k:
                        self.dom.assign[i] = 0

    def var(self, f, tag):
        self.fresh += 1
        return Poly.var(MOD[f], f'{tag}{self.fresh}')

    # ---- memory
    def fe(self, f, a):
        v = self.load(a, 32)
        if isinstance(v, FE):
            if v.f != f:
                raise Unsupported('field mix-up')
            if self.affine == f and not (isinstance(v.p, Poly) and any(x[0] != '@' for k in v.p.t for x, _ in k)):
                return aff(self, f, v.p)
            return v.p
        if isinstance(v, int):
            c = v * pow(R, -1, MOD[f])
            return self.store_of(f).const(c) if self.affine == f else Poly.const(MOD[f], c)
        raise Unsupported('words used as a field element')

    def put(self, f, a, p):
        self.store(a, 32, FE(f, p))

    # ---- encodings
    def bits(self, f, p):
        if p.is_const():
            v = p.constval()
            return [v >> i & 1 for i in range(256)]
        key = (f, pkey(p))
        if self.iszero_known(f, p):
            return [0] * 256
        if key not in self.enc:
            n = len(self.encp)
            b = [self.dom.var(f'e{n}.{i}', 0, 1) for i in range(255)] + [0]
            self.enc[key] = b
            self.encp.append((f, p, b))
        return self.enc[key]

    def known(self, f, p, bits):
        self.enc[(f, pkey(p))] = bits
        self.encp.append((f, p, bits))

    def bitsum(self, bits):
        d = self.dom
        v = 0
        for i, b in enumerate(bits):
            v = d.iadd(v, d.imul(b, 1 << i))
        return v


def pkey(p):
    return tuple(sorted(p.t.items(), key=str))


# ------------------------------------------------------------------------------ the operations
_tables = {}


def table(mod, opaque, extra):
    key = (id(mod), opaque)
    if key not in _tables:
        _tables[key] = build_table(mod, opaque)
    t = dict(_tables[key])
    t.update(extra or {})
    return t


def build_table(mod, opaque):
    h = {}
    for f, T in TY.items():
        m = MOD[f]

        def b3(op, f=f):
            def g(ex, a, pretty):
                ex.put(f, a[0], reduce_bits(ex, op(ex.fe(f, a[1]), ex.fe(f, a[2]))))
            return g

        def asg(op, f=f):
            def g(ex, a, pretty):
                ex.put(f, a[0], reduce_bits(ex, op(ex.fe(f, a[0]), ex.fe(f, a[1]))))
            return g

        def un(op, f=f):
            def g(ex, a, pretty):
                ex.put(f, a[0], reduce_bits(ex, op(ex.fe(f, a[1]))))
            return g
        ops = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}
        for n, op in ops.items():
            h[f'<{T}>::{n}'] = b3(op)
            tr = n.capitalize()
            for l in (T, '&' + T):
                for r in ('', f'<{T}>', f'<&{T}>'):
                    h[f'<{l} as core::ops::arith::{tr}{r}>::{n}'] = b3(op)
            for r in ('', f'<&{T}>'):
                h[f'<{T} as core::ops::arith::{tr}Assign{r}>::{n}_assign'] = asg(op)
        for l in (T, '&' + T):
            h[f'<{l} as core::ops::arith::Neg>::neg'] = un(lambda x: -x)
        h[f'<{T}>::neg'] = un(lambda x: -x)
        h[f'<{T}>::double'] = un(lambda x: x + x)
        h[f'<{T}>::square'] = h[f'<{T} as halo::fields::Field>::square'] = un(lambda x: x * x)

        def cst(c, f=f, m=m):
            return lambda ex, a, pretty: ex.put(f, a[0], Poly.const(m, c))
        for n, c in (('zero', 0), ('one', 1)):
            h[f'<{T}>::{n}'] = h[f'<{T} as halo::fields::Field>::{n}'] = cst(c)
        h[f'<{T} as core::default::Default>::default'] = cst(0)

        def eq(neg, f=f):
            def g(ex, a, pretty):
                if pretty.startswith('<&'):
                    a = [ex.load(x, 8) for x in a]
                return ex.is_zero(f, ex.fe(f, a[0]) - ex.fe(f, a[1])) ^ neg
            return g
        h[f'<{T} as subtle::ConstantTimeEq>::ct_eq'] = eq(0)
        for l in (T, '&' + T):
            h[f'<{l} as core::cmp::PartialEq>::eq'] = eq(0)
            h[f'<{l} as core::cmp::PartialEq>::ne'] = eq(1)
        h[f'<{T} as halo::fields::Field>::is_zero'] = lambda ex, a, pretty, f=f: ex.is_zero(f, ex.fe(f, a[1 if len(a) > 1 else 0]))

        def select(ex, a, pretty, f=f):
            c = ex.dom.subst(a[3])
            x, y = FE(f, ex.fe(f, a[1])), FE(f, ex.fe(f, a[2]))
            if not isinstance(c, int):
                c = ex.decide(c)
            ex.store(a[0], 32, y if c else x)
        h[f'<{T} as subtle::ConditionallySelectable>::conditional_select'] = select

        def assign(ex, a, pretty, f=f):
            if ex.decide(a[2]):
                ex.put(f, a[0], ex.fe(f, a[1]))
        h[f'<{T} as subtle::ConditionallySelectable>::conditional_assign'] = assign

        def conv(ex, a, pretty, f=f):
            ex.put(f, a[0], wpoly(ex, f, a[1]))
        for n in (f'<{T} as core::convert::From<bool>>::from', f'<{T} as core::convert::From<u64>>::from', f'<{T} as halo::fields::Field>::from_u64'):
            h[n] = conv

        def raw(ex, a, pretty, f=f):
            v = ex.load(a[1], 32)
            if not isinstance(v, int):
                raise Unsupported('from_raw of symbolic words')
            ex.put(f, a[0], Poly.const(MOD[f], v))
        h[f'<{T}>::from_raw'] = raw

        def option(ex, sret, f, p, flag):
            name = f'<subtle::CtOption<{TY[f]}>>::new'
            fn = next((k for k, v in mod.pretty.items() if v == name), None)
            if fn is None:
                raise Unsupported('CtOption::new not found')
            t = ex.mem.alloc(32)
            ex.put(f, t, p)
            ex.call(fn, [sret, t, flag])

        if 'invert' in opaque:
            def invert(ex, a, pretty, f=f):
                v = ex.fe(f, a[1])
                if ex.is_zero(f, v):
                    return option(ex, a[0], f, Poly.const(MOD[f], 0), 0)
                if v.is_const():
                    r = Poly.const(MOD[f], pow(v.constval(), -1, MOD[f]))
                else:
                    k = ('inv', f, pkey(v))
                    if k not in ex.tags:
                        ex.tags[k] = ex.var(f, 'inv')
                        ex.eqs[f].append(v * ex.tags[k] - 1)
                    r = ex.tags[k]
                option(ex, a[0], f, r, 1)
            h[f'<{T} as halo::fields::Field>::invert'] = invert
        if 'sqrt' in opaque:
            def sqrt(ex, a, pretty, f=f):
                v = ex.fe(f, a[1])
                m = MOD[f]
                if v.is_const():
                    s = ecp.sqrt(v.constval(), m)
                    if s is None:
                        return option(ex, a[0], f, Poly.const(m, 0), 0)
                k = ('sqrt', f, pkey(v))
                yes = 1 if v.is_const() else ex.choose(k)
                if k not in ex.tags:
                    ex.tags[k] = s = ex.var(f, 'sqrt')
                    if yes:
                        ex.eqs[f].append(s * s - v)
                    else:
                        ex.eqs[f].append(s * s - v * NONRES[f])
                        ex.nes[f].append(v)
                option(ex, a[0], f, ex.tags[k] if yes else Poly.const(m, 0), yes)
            h[f'<{T} as halo::fields::Field>::sqrt'] = sqrt
        if 'to_bytes' in opaque:
            def to_bytes(ex, a, pretty, f=f):
                b = ex.bits(f, ex.fe(f, a[1]))
                for i in range(32):
                    v = 0
                    for j in range(8):
                        v = ex.dom.iadd(v, ex.dom.imul(b[8 * i + j], 1 << j))
                    ex.store(a[0] + i, 1, v)
            h[f'<{T} as halo::fields::Field>::to_bytes'] = h[f'<[u8; 32] as core::convert::From<{T}>>::from'] = to_bytes
            h[f'<[u8; 32] as core::convert::From<&{T}>>::from'] = to_bytes

            def lower(ex, a, pretty, f=f):
                return ex.bitsum(ex.bits(f, ex.fe(f, a[-1]))[:128])
            h[f'<{T} as halo::fields::Field>::get_lower_128'] = lower
        if 'from_bytes' in opaque:
            def from_bytes(ex, a, pretty, f=f):
                bits = []
                for i in range(32):
                    bits += byte_bits(ex, ex.load(a[1] + i, 1))
                key = tuple(b if isinstance(b, int) else b.key for b in bits)
                if all(isinstance(b, int) for b in bits):
                    v = sum(b << i for i, b in enumerate(bits))
                    return option(ex, a[0], f, Poly.const(MOD[f], v), 1) if v < MOD[f] else option(ex, a[0], f, Poly.const(MOD[f], 0), 0)
                for g, p, bb in ex.encp:
                    if g == f and all(same(ex, x, y) for x, y in zip(bb, bits)):
                        return option(ex, a[0], f, p, 1)
                if ex.choose(('canon', f, key)):
                    p = ex.var(f, 'dec')
                    ex.known(f, p, bits)
                    return option(ex, a[0], f, p, 1)
                ex.log.append(('noncanonical', f, bits))
                option(ex, a[0], f, Poly.const(MOD[f], 0), 0)
            h[f'<{T} as halo::fields::Field>::from_bytes'] = from_bytes
    return h


def same(ex, x, y):
    x, y = ex.dom.subst(x), ex.dom.subst(y)
    if isinstance(x, int) or isinstance(y, int):
        return isinstance(x, int) and isinstance(y, int) and x == y
    return x.p == y.p


def byte_bits(ex, v):
    """the bits of a byte that is a sum of distinct bit atoms"""
    if v is UNDEF:
        raise Unsupported('undefined byte')
    v = ex.dom.subst(v)
    if isinstance(v, int):
        return [v >> i & 1 for i in range(8)]
    out = [0] * 8
    for k, c in v.p.items():
        if k == ():
            for i in range(8):
                if c >> i & 1:
                    out[i] = 1
            continue
        if len(k) != 1 or not ex.dom.isbool(k[0]) or c <= 0 or c & (c - 1) or c > 128:
            raise Unsupported('byte is not a plain bit sum')
        i = c.bit_length() - 1
        if out[i] != 0:
            raise Unsupported('byte is not a plain bit sum')
        out[i] = ex.dom.mk({k: 1})
    c = v.p.get((), 0)
    if c and (c < 0 or c > 255):
        raise Unsupported('byte is not a plain bit sum')
    return out


# ------------------------------------------------------------------------------ checks
SIZES = {'fe': 32, 'pt': 96, 'bytes': 32, 'bool': 1}


class FEPath:
    pass


class FECheck:
    def __init__(self, ck, mod, native, tlim=60):
        self.ck, self.mod, self.lib, self.nat = ck, mod, native, Native(native)
        self.queries = []
        self.used = set()
        self.steps = self.paths = 0
        self.tlim = tlim
        self._lay = {}

    # layout of a point: offset of x, y, z in the struct (from the code itself)
    def layout(self, c):
        if c not in self._lay:
            vals = [1, 2, 3]
            out = self.nat.call(f'{c}_get_xyz', [(('u', 768), vals[0] | vals[1] << 256 | vals[2] << 512)], [('u', 32)] * 3)
            self._lay[c] = [vals.index(o) * 32 for o in out]
        return self._lay[c]

    def run(self, fn, ins, outs, opaque, extra=None, merge=(), limit=4000, post=None):
        """ins: ('fe',f,name) ('pt',curve,name) ('bytes',n,name) ('bool',name); outs: ('fe',f) ('pt',curve) ('u',n)"""
        box = {}

        def make(pre):
            ex = FExec(self.mod, pre, opaque, extra, merge)
            args, vals = [], []
            for k in ins:
                if k[0] == 'fe':
                    a = ex.mem.alloc(32)
                    p = Poly.var(MOD[k[1]], k[2])
                    ex.put(k[1], a, p)
                    vals.append(p)
                elif k[0] == 'pt':
                    a = ex.mem.alloc(96)
                    f = BASE[k[1]]
                    ps = [Poly.var(MOD[f], k[2] + s) for s in 'XYZ']
                    for p, o in zip(ps, self.layout(k[1])):
                        ex.put(f, a + o, p)
                    vals.append(ps)
                elif k[0] == 'bytes':
                    a = ex.mem.alloc(k[1])
                    bits = [ex.dom.var(f'{k[2]}.{i}', 0, 1) for i in range(8 * k[1])]
                    for i in range(k[1]):
                        ex.store(a + i, 1, ex.bitsum(bits[8 * i:8 * i + 8]))
                    vals.append(bits)
                elif k[0] == 'bool':
                    a = ex.mem.alloc(1)
                    b = ex.dom.var(k[1], 0, 1)
                    ex.store(a, 1, b)
                    vals.append(b)
                else:
                    raise ValueError(k)
                args.append(a)
            os_ = []
            for k in outs:
                os_.append(ex.mem.alloc({'fe': 32, 'pt': 96}.get(k[0]) or k[1]))
            box[id(ex)] = (args, vals, os_)
            return ex

        def go(ex):
            args, vals, os_ = box[id(ex)]
            ex.call(fn, args + os_)
            res = []
            for a, k in zip(os_, outs):
                if k[0] == 'fe':
                    res.append(ex.fe(k[1], a) if ex.load(a, 32) is not UNDEF else None)
                elif k[0] == 'pt':
                    f = BASE[k[1]]
                    res.append([ex.fe(f, a + o) for o in self.layout(k[1])])
                else:
                    v = 0
                    for i in range(k[1]):
                        x = ex.load(a + i, 1)
                        if x is UNDEF:
                            v = None
                            break
                        v = ex.dom.iadd(v, ex.dom.imul(x, 1 << 8 * i))
                    res.append(None if v is None else ex.dom.subst(v))
            if post:
                post(ex, vals, res)
            return res
        for ex, r in explore(make, go, limit):
            self.used |= ex.used
            self.steps += ex.steps
            self.paths += 1
            yield ex, box[id(ex)][1], r

    def check(self, label, fn, ins, outs, goals, judge, opaque=('invert', 'sqrt', 'to_bytes', 'from_bytes', 'pow'), extra=None,
              merge=(), samples=None, post=None):
        """goals(ex, ins, outs or None on panic) -> [(name, field, eqs, nes)]: together with the path, each must
        be impossible.  judge(values) -> failure text or None, runs the real code on concrete inputs.
        samples() -> concrete input dicts, used only to confirm what the solver reports."""
        try:
            for ex, vi, r in self.run(fn, ins, outs, opaque, extra, merge, post=post):
                for name, f, eqs, nes in goals(ex, vi, None if isinstance(r, Panic) else r):
                    for tag, ae, an in parity_axioms(ex, f):
                        q = Query(f'{label}:{name}{tag}', MOD[f], ex.eqs[f] + eqs + ae, ex.nes[f] + nes + an)
                        q.info = (label, name, judge, samples, ex)
                        self.queries.append(q)
                other = {'p': 'q', 'q': 'p'}
        except Unsupported as e:
            self.ck.obl += 1
            bad = self.sample(judge, samples)
            if bad:
                self.ck.violation(label, bad[0], bad[1])
            else:
                self.ck.inconclusive.append([label, f'outside the interpreter: {e}'])

    def sample(self, judge, samples):
        for v in (samples() if samples else []):
            msg = judge(v)
            if msg:
                return msg, {'inputs': {k: hex(x) for k, x in v.items()}, 'result': msg}
        return None

    def flush(self):
        ck = self.ck
        live = []
        for q in self.queries:
            ck.obl += 1
            if any(p.is_zero() for p in q.nes) or any(p.is_const() and not p.is_zero() for p in q.eqs):
                ck.dis += 1
                ck.extra['normal_form_identities'] = ck.extra.get('normal_form_identities', 0) + 1
            else:
                live.append(q)
        reported = set()
        reach = {}
        for q, (r, model) in zip(live, solver.solve_all(live, self.tlim)):
            label, name, judge, samples, ex = q.info
            if name.startswith('reach'):
                ck.obl -= 1
                reach[label, name] = reach.get((label, name)) == 'sat' and 'sat' or r
                continue
            if r == 'unsat':
                ck.dis += 1
                continue
            bad = None
            if r == 'sat':
                v = dict(model)
                msg = judge(v)
                if msg:
                    bad = msg, {'inputs': {k: hex(x) for k, x in v.items()}, 'result': msg}
            if bad is None and label not in reported:
                bad = self.sample(judge, samples)
            if bad:
                if label not in reported:
                    reported.add(label)
                    ck.violation(label, f'{name}: {bad[0]}', bad[1])
            else:
                ck.inconclusive.append([q.name, r if r == 'unknown' else 'model did not replay'])
        for (label, name), r in reach.items():
            # every case of the specification must be reachable on some path (no vacuous claims)
            ck.obl += 1
            if r == 'sat':
                ck.dis += 1
            elif label not in reported:
                ck.inconclusive.append([label, f'{name}: {r}'])
        self.queries = []

    def finish(self):
        self.flush()
        ck = self.ck
        ck.functions = sorted(set(ck.functions) | {f for f in self.used if 'halo::' in f or '::' not in f})
        ck.extra['ir_instructions'] = ck.extra.get('ir_instructions', 0) + self.steps
        ck.extra['paths'] = ck.extra.get('paths', 0) + self.paths

    # ---- native calls on mathematical values
    def fe_in(self, f, v):
        return (('fe', MOD[f]), v * R % MOD[f])

    def pt_in(self, c, P):
        f = BASE[c]
        v = 0
        for x, o in zip(P, self.layout(c)):
            v |= (x * R % MOD[f]) << 8 * o
        return (('u', 768), v)

    def pt_out(self, c, v):
        f = BASE[c]
        return [(v >> 8 * o & (1 << 256) - 1) * pow(R, -1, MOD[f]) % MOD[f] for o in self.layout(c)]

    def native(self, fn, ins, outs):
        """ins: ('fe',f,v) ('pt',c,(x,y,z)) ('u',bytes,v)"""
        a = []
        for k in ins:
            a.append(self.fe_in(k[1], k[2]) if k[0] == 'fe' else self.pt_in(k[1], k[2]) if k[0] == 'pt' else (('u', 8 * k[1]), k[2]))
        ob = [('u', {'fe': 32, 'pt': 96}.get(k[0]) or k[1]) for k in outs]
        r = self.nat.call(fn, a, ob)
        res = []
        for k, v in zip(outs, r):
            if k[0] == 'fe':
                res.append(v * pow(R, -1, MOD[k[1]]) % MOD[k[1]])
            elif k[0] == 'pt':
                res.append(self.pt_out(k[1], v))
            else:
                res.append(v)
        return res


def parity_axioms(ex, f):
    """Low bits of canonical encodings on this path: equal values have equal low bits, opposite
    nonzero values have different ones (the modulus is odd).  Yields alternative side conditions."""
    dec = []
    for g, p, b in ex.encp:
        v = ex.dom.subst(b[0])
        if g == f and isinstance(v, int):
            dec.append((p, v))
    alts = [('', [], [])]
    for i in range(len(dec)):
        for j in range(i):
            (a, x), (b, y) = dec[i], dec[j]
            if x != y:
                alts = [(t, e, n + [a - b]) for t, e, n in alts]
            else:
                alts = [r for t, e, n in alts for r in ((t + '.', e, n + [a + b]), (t + '0', e + [a, b], n))]
    return alts
