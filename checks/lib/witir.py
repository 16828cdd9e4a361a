"""What the honest prover assigns in the word gadgets, over symbolic words: LLVM IR of the gadget code
(generic over the field, instantiated at the integers) with a constraint system that evaluates every
constraint; each must be zero, and every result bit must be the standard's."""
import ctypes, time
from . import irbuild, solver, z3q
from .bv import Dom, W, LIA, Unsupported
from .ir import Exec, explore, Panic, Restart
from .par import parallel

MERGE = ('gadgets::boolean', 'uint32', 'uint64', 'irw::wit', 'wit::', 'Option', 'option::', 'result::')


def _hooks():
    """integer arithmetic of the stand-in field, exact"""
    h = {}

    def val(ex, a):
        return ex.load(a, 16)

    def put(ex, o, v):
        ex.store(o, 16, v)
        ex.store(o + 16, 16, 0)
        ex.store(o + 32, 16, 0)
    F = {'Add::add': lambda d, x, y: d.iadd(x, y), 'Sub::sub': lambda d, x, y: d.isub(x, y), 'Mul::mul': lambda d, x, y: d.imul(x, y)}
    T = 'irw::wit::Z'
    for k, f in F.items():
        tr, fn = k.split('::')
        for g in ('', f'<&{T}>'):
            h[f'<{T} as core::ops::arith::{tr}{g}>::{fn}'] = lambda ex, a, p, f=f: put(ex, a[0], f(ex.dom, val(ex, a[1]), val(ex, a[2])))
            h[f'<{T} as core::ops::arith::{tr}Assign{g}>::{fn}_assign'] = lambda ex, a, p, f=f: put(ex, a[0], f(ex.dom, val(ex, a[0]), val(ex, a[1])))
    h[f'<{T} as core::ops::arith::Neg>::neg'] = lambda ex, a, p: put(ex, a[0], ex.dom.isub(0, val(ex, a[1])))
    return h


def bits_word(ex, name, n):
    """a word as its bits"""
    d = ex.dom
    t = 0
    bs = []
    for j in range(n):
        b = d.boolatom('in', f'{name}{j}', key=f'{name}{j}', name=f'{name}{j}')
        bs.append(b)
        t = d.iadd(t, d.imul(b, 1 << j))
    return t, bs


def ops32():
    x = lambda d, a, b: d.isub(d.iadd(a, b), d.imul(2, d.imul(a, b)))
    n = lambda d, a: d.isub(1, a)
    return {
        'alloc': (0, lambda d, w, k: w[0]),
        'xor': (1, lambda d, w, k: [x(d, a, b) for a, b in zip(*w)]),
        'ch': (2, lambda d, w, k: [d.iadd(d.imul(a, b), d.imul(n(d, a), c)) for a, b, c in zip(*w)]),
        'maj': (3, lambda d, w, k: [d.isub(d.iadd(d.iadd(d.imul(a, b), d.imul(a, c)), d.imul(b, c)), d.imul(2, d.imul(a, d.imul(b, c)))) for a, b, c in zip(*w)]),
        'add': (4, None),
        'rotr': (5, lambda d, w, k: [w[0][(j + k) % 32] for j in range(32)]),
        'shr': (6, lambda d, w, k: [w[0][j + k] if j + k < 32 else 0 for j in range(32)]),
        'be': (7, lambda d, w, k: w[0]),
        'le': (8, lambda d, w, k: w[0]),
        'rev': (9, lambda d, w, k: w[0][::-1]),
    }


def pattern(d, kind, bs):
    if kind in (0, 1):
        return list(bs)
    out = []
    for i, b in enumerate(bs):
        if kind == 2 or i % 3 == 1:
            out.append(d.isub(1, b))
        elif i % 3 == 2:
            out.append(i % 2)
        else:
            out.append(b)
    return out


def settle(sub, dom, label, vals, replay):
    """every value must be zero; vals: [(name, W)]"""
    bad, todo = [], []
    for nm, v in vals:
        sub.obl += 1
        if isinstance(v, W):
            v = dom.simp(v)
        if not isinstance(v, int):
            todo.append((nm, v))
        elif v == 0:
            sub.dis += 1
            z3q.note('unsat', 0)
        else:
            bad.append((nm, v, None))
    if bad and dom.assign:       # a value on a path of its own: ask for an input that takes the path
        L = LIA(dom)
        r = L.check(lambda B: [])
        if r == 'unsat':
            sub.dis += len(bad)
            bad = []
        elif r == 'sat':
            bad = [(nm, v, L) for nm, v, _ in bad]
    end = time.time() + 100
    todo.sort(key=lambda x: len(x[1].p))
    for n, (nm, v) in enumerate(todo):
        if len(bad) > 3 or time.time() > end:
            bad += [(nm, v, None) for nm, v in todo[n:n + 1]]
            break
        L = LIA(dom)

        def cond(B):
            import z3
            t = B.lin(v)
            return [z3.Or(t >= 1, t <= -1)] if B.__class__.__name__ == 'Backend' and B.kind == 'z3' else [t != 0]
        r = L.check(cond)
        if r == 'unsat':
            sub.dis += 1
        else:
            bad.append((nm, v, L if r == 'sat' else None))
    if bad:
        replay(bad)


def names_of(dom, L, inputs):
    out = {}
    for nm, w in inputs.items():
        try:
            out[nm] = L.value(w)
        except Exception:
            out[nm] = 0
    return out


class ShapeBuf:
    def __init__(self):
        self.raw = (ctypes.c_uint64 * (2 * 60000 + 4))()
        self.base = (ctypes.addressof(self.raw) + 15) // 16 * 16
        self.n = ctypes.c_size_t()

    def __call__(self, nowit):
        return ctypes.c_void_p(self.base), ctypes.byref(self.n), ctypes.c_uint8(nowit)

    def read(self):
        return [int.from_bytes(ctypes.string_at(self.base + 16 * i, 16), 'little') for i in range(self.n.value)]


class U32Job:
    def __init__(self, mod, lib, op, kinds, k=0, consts=()):
        self.mod, self.lib, self.op, self.kinds, self.k = mod, lib, op, list(kinds), k
        self.consts = list(consts)
        self.label = f'honest u32 {op} kinds {self.kinds} k={k}' + (f' consts {[hex(c) for c in consts]}' if consts else '')
        self.wide = 32

    def shape_args(self, ex):
        self.sh = [ex.mem.alloc(16 * 60000), ex.mem.alloc(8)]
        return self.sh + [0]

    def native(self, words):
        return self.native_all(words, 0)[:3]

    def native_all(self, words, nowit):
        n = len(self.kinds)
        kb = (ctypes.c_uint8 * max(n, 1))(*self.kinds)
        v = (ctypes.c_uint32 * max(n, 1))(*words)
        raw = (ctypes.c_uint64 * (2 * 4096 + 4))()
        base = (ctypes.addressof(raw) + 15) // 16 * 16
        r = (ctypes.c_uint8 * 64)()
        cnt, ok = ctypes.c_size_t(), ctypes.c_uint8()
        sh = ShapeBuf()
        self.lib.wit_u32(ctypes.c_uint32(ops32()[self.op][0]), ctypes.c_size_t(self.k), ctypes.c_size_t(n), kb, v, ctypes.c_void_p(base),
                         ctypes.byref(cnt), *sh(nowit), r, ctypes.byref(ok))
        res = [int.from_bytes(ctypes.string_at(base + 16 * i, 16), 'little') for i in range(cnt.value)]
        return ok.value, res, list(r), sh.read()

    def expected(self, words):
        d = Dom()
        w = [pattern(d, kd, [(x >> j) & 1 for j in range(32)]) for kd, x in zip(self.kinds, words)]
        f = ops32()[self.op][1]
        if f is None:
            t = sum(sum(b << j for j, b in enumerate(x)) for x in w)
            b = [(t >> j) & 1 for j in range(32)]
        else:
            b = [int(x) for x in f(d, w, self.k)]
        return b + b

    def setup(self, ex):
        d = ex.dom
        n = len(self.kinds)
        self.words, self.bits = [], []
        kb, va = ex.mem.alloc(max(n, 1)), ex.mem.alloc(4 * max(n, 1))
        ci = 0
        for i, kd in enumerate(self.kinds):
            if kd == 1 and self.consts:
                t = self.consts[ci]
                ci += 1
                bs = [(t >> j) & 1 for j in range(32)]
            else:
                t, bs = bits_word(ex, f'w{i}_', 32)
            self.words.append(t)
            self.bits.append(bs)
            ex.store(kb + i, 1, kd)
            ex.store(va + 4 * i, 4, t)
        self.addr = [ex.mem.alloc(16 * 4096), ex.mem.alloc(8), ex.mem.alloc(64), ex.mem.alloc(1)]
        a = self.addr
        self.args = [ops32()[self.op][0], self.k, n, kb, va, a[0], a[1], *self.shape_args(ex), a[2], a[3]]
        self.fn = 'wit_u32'
        self.nout = 64

    def want(self, d):
        w = [pattern(d, kd, bs) for kd, bs in zip(self.kinds, self.bits)]
        f = ops32()[self.op][1]
        if f is None:
            t = 0
            for x in w:
                for j, b in enumerate(x):
                    t = d.iadd(t, d.imul(b, 1 << j))
            bs = [d.isub(d.floor(t, j), d.imul(2, d.floor(t, j + 1))) if isinstance(t, W) else (t >> j) & 1 for j in range(32)]
        else:
            bs = f(d, w, self.k)
        return bs + bs

    def inputs(self):
        return {f'w{i}': w for i, w in enumerate(self.words)}

    def judge(self, words):
        ok, res, r = self.native(words)
        if not ok:
            return 'synthesis fails'
        if any(res):
            return f'constraint {[i for i, x in enumerate(res) if x][0]} is violated'
        e = self.expected(words)
        if r[:len(e)] != e:
            return f'result bit {[i for i in range(len(e)) if r[i] != e[i]][0]} is wrong'


class U64Job(U32Job):
    def __init__(self, mod, lib, kinds, consts=()):
        self.mod, self.lib, self.kinds, self.consts = mod, lib, list(kinds), list(consts)
        self.op = 'mulacc'
        self.label = f'honest u64 mul_acc2 kinds {self.kinds}' + (f' consts {[hex(c) for c in consts]}' if consts else '')
        self.wide = 64

    def native_all(self, words, nowit):
        kb = (ctypes.c_uint8 * 4)(*self.kinds)
        v = (ctypes.c_uint64 * 4)(*words)
        raw = (ctypes.c_uint64 * (2 * 4096 + 4))()
        base = (ctypes.addressof(raw) + 15) // 16 * 16
        r = (ctypes.c_uint8 * 256)()
        cnt, ok = ctypes.c_size_t(), ctypes.c_uint8()
        sh = ShapeBuf()
        self.lib.wit_u64(kb, v, ctypes.c_void_p(base), ctypes.byref(cnt), *sh(nowit), r, ctypes.byref(ok))
        res = [int.from_bytes(ctypes.string_at(base + 16 * i, 16), 'little') for i in range(cnt.value)]
        return ok.value, res, list(r), sh.read()

    def opw(self, words):
        d = Dom()
        w = [pattern(d, kd, [(x >> j) & 1 for j in range(64)]) for kd, x in zip(self.kinds, words)]
        return [sum(int(b) << j for j, b in enumerate(x)) for x in w]

    def expected(self, words):
        a, b, c, e = self.opw(words)
        t = a * b + c + e
        return [(t >> j) & 1 for j in range(128)] + [((t & (1 << 64) - 1) + (t >> 64)) >> j & 1 for j in range(128)]

    def setup(self, ex):
        kb, va = ex.mem.alloc(4), ex.mem.alloc(32)
        self.words, self.bits = [], []
        ci = 0
        for i, kd in enumerate(self.kinds):
            if kd == 1 and self.consts:
                t = self.consts[ci]
                ci += 1
                bs = [(t >> j) & 1 for j in range(64)]
            else:
                t, bs = bits_word(ex, f'w{i}_', 64)
            self.words.append(t)
            self.bits.append(bs)
            ex.store(kb + i, 1, kd)
            ex.store(va + 8 * i, 8, t)
        self.addr = [ex.mem.alloc(16 * 4096), ex.mem.alloc(8), ex.mem.alloc(256), ex.mem.alloc(1)]
        self.args = [kb, va, *self.addr[:2], *self.shape_args(ex), *self.addr[2:]]
        self.fn = 'wit_u64'
        self.nout = 256

    def want(self, d):
        ws = []
        for kd, bs in zip(self.kinds, self.bits):
            t = 0
            for j, b in enumerate(pattern(d, kd, bs)):
                t = d.iadd(t, d.imul(b, 1 << j))
            ws.append(t)
        t = d.iadd(d.iadd(d.imul(ws[0], ws[1]), ws[2]), ws[3])
        bit = lambda t, j: d.isub(d.floor(t, j), d.imul(2, d.floor(t, j + 1))) if isinstance(t, W) else (t >> j) & 1
        if isinstance(t, W):
            t = W(t.p, 0, min(t.hi, 2 ** 128 - 1))
        out = [bit(t, j) for j in range(128)]
        hi = d.floor(t, 64) if isinstance(t, W) else t >> 64
        lo = d.isub(t, d.imul(hi, 1 << 64))
        s = d.iadd(lo, hi)
        if isinstance(s, W):
            s = W(s.p, 0, 2 ** 65 - 2)
        return out + [bit(s, j) for j in range(128)]


class UnpackJob(U32Job):
    def __init__(self, mod, lib):
        self.mod, self.lib = mod, lib
        self.label = 'honest unpack'
        self.wide = 256

    def native_all(self, words, nowit):
        raw = (ctypes.c_uint64 * 4096)()
        base = (ctypes.addressof(raw) + 15) // 16 * 16
        xa = (ctypes.c_uint64 * 12)()
        xb = (ctypes.addressof(xa) + 15) // 16 * 16
        ctypes.memmove(xb, words[0].to_bytes(32, 'little'), 32)
        r = (ctypes.c_uint8 * 256)()
        cnt, n, ok = ctypes.c_size_t(), ctypes.c_size_t(), ctypes.c_uint8()
        sh = ShapeBuf()
        self.lib.wit_unpack(ctypes.c_void_p(xb), ctypes.c_void_p(base), ctypes.byref(cnt), *sh(nowit), r, ctypes.byref(n), ctypes.byref(ok))
        res = [int.from_bytes(ctypes.string_at(base + 16 * i, 16), 'little') for i in range(cnt.value)]
        return ok.value, res, list(r), sh.read()

    def expected(self, words):
        return [(words[0] >> j) & 1 for j in range(256)]

    def setup(self, ex):
        x = ex.mem.alloc(48)
        t, bs = bits_word(ex, 'x', 128)
        u, cs = bits_word(ex, 'y', 128)
        ex.store(x, 16, t)
        ex.store(x + 16, 16, u)
        ex.store(x + 32, 16, 0)
        self.words = [ex.dom.iadd(t, ex.dom.imul(u, 1 << 128))]
        self.bits = bs + cs
        self.addr = [ex.mem.alloc(16 * 4096), ex.mem.alloc(8), ex.mem.alloc(256), ex.mem.alloc(1)]
        nn = ex.mem.alloc(8)
        a = self.addr
        self.args = [x, a[0], a[1], *self.shape_args(ex), a[2], nn, a[3]]
        self.fn = 'wit_unpack'
        self.nout = 256

    def want(self, d):
        return self.bits


def job(J, shape=False):
    import random

    def go(sub):
        rnd = random.Random(J.label)
        base = list(getattr(J, 'consts', [])) or [0]
        kw = [base[min(sum(k == 1 for k in J.kinds[:i]), len(base) - 1)] for i in range(len(J.kinds))] if hasattr(J, 'kinds') else [0]
        none = J.native_all(kw, 1)[3] if shape else None

        def search(cands):
            kn = len(J.kinds) if hasattr(J, 'kinds') else 1
            full = (1 << J.wide) - 1
            cands = list(cands) + [[full] * kn, [0] * kn] + [[rnd.getrandbits(J.wide) for _ in range(kn)] for _ in range(6)]
            for c in cands:
                ci = 0
                c = list(c)
                for i, kd in enumerate(getattr(J, 'kinds', [])):
                    if kd == 1 and J.consts:
                        c[i] = J.consts[ci]
                        ci += 1
                try:
                    if shape:
                        m = None if J.native_all(c, 0)[3] == none else 'what is synthesised with a witness differs from what is synthesised without'
                    else:
                        m = J.judge(c)
                except Exception as e:
                    continue
                if m:
                    sub.violation(J.label.replace(' ', '_'), ('' if shape else 'honest prover: ') + m, {'operands': [hex(x) for x in c], 'kinds': getattr(J, 'kinds', [])})
                    return True
            return False
        box = {'merge': MERGE, 'no': set()}

        def make(pre):
            dom = Dom()
            dom.linbool = True
            ex = Exec(J.mod, dom, hooks=_hooks(), decisions=pre, limit=60_000_000, merge=box['merge'])
            ex.nomerge = box['no']
            J.setup(ex)
            return ex

        def run(ex):
            ex.call(J.fn, J.args)
            ok = ex.load(J.addr[3], 1)
            n = ex.load(J.addr[1], 8)
            if not isinstance(ok, int) or not isinstance(n, int):
                raise Unsupported('status is symbolic')
            if shape:
                m = ex.load(J.sh[1], 8)
                if not isinstance(m, int):
                    raise Unsupported('shape is symbolic')
                return (1, [ex.load(J.sh[0] + 16 * i, 16) for i in range(m)], [])
            return (ok, [ex.load(J.addr[0] + 16 * i, 16) for i in range(n)], [ex.load(J.addr[2] + i, 1) for i in range(J.nout)])
        def explored():
            """paths of the run; branches whose arms do not merge fork instead, at worst all of them"""
            try:
                yield from explore(make, run, 64)
                return
            except Restart:
                raise
            except Panic:
                raise
            except Exception:
                if not box['merge']:
                    raise
            box['merge'] = ()
            raise Restart()

        def attempt():
            for ex, r in explored():
                sub.functions = sorted(set(sub.functions) | {u for u in ex.used if 'gadgets' in u or 'circuits' in u})
                sub.extra['ir_steps'] = sub.extra.get('ir_steps', 0) + ex.steps
                sub.extra['ir_paths'] = sub.extra.get('ir_paths', 0) + 1
                if isinstance(r, Panic) or not r[0]:
                    sub.obl += 1
                    if not search([]):
                        sub.inconclusive.append([J.label, 'panic or error on some path'])
                    continue
                ok, res, out = r
                d = ex.dom
                vals = []
                if shape:
                    if len(res) != len(none):
                        res = res + [1 << 120] * abs(len(res) - len(none))
                    res = [(x - y) % (1 << 128) if isinstance(x, int) else d.isub(x, y) for x, y in zip(res, none + [0] * len(res))]
                for i, v in enumerate(res):     # residuals are taken modulo 2^128
                    vals.append((f'entry {i}' if shape else f'constraint {i}', v))
                for i, (g, w) in enumerate(zip(out, J.want(d) if not shape else ())):
                    vals.append((f'bit {i}', d.isub(g, w)))
                box['L'] = None

                def replay(bad):
                    c = []
                    for nm, v, L in bad:
                        if L is not None:
                            try:
                                c.append([L.value(w) for w in J.words])
                            except Exception:
                                pass
                    if not search(c):
                        sub.inconclusive.append([J.label, bad[0][0], 'does not replay'])
                settle(sub, d, J.label, vals, replay)

        try:
            for _ in range(40):
                mark = sub.obl, sub.dis, len(sub.inconclusive), len(sub.viol)
                try:
                    attempt()
                    break
                except Restart:
                    sub.obl, sub.dis = mark[:2]
                    del sub.inconclusive[mark[2]:]
                    del sub.viol[mark[3]:]
        except Exception as e:
            sub.obl += 1
            if not search([]):
                sub.inconclusive.append([J.label, f'outside the interpreter: {type(e).__name__}: {e}'])
        from .wordcheck import lia_stats
        lia_stats()
    return go


def run(ck, what, shape=False):
    irbuild.build()
    mod, lib = irbuild.load(), irbuild.native()
    quick = ck.tier == 'quick'
    js = []
    if 'u32' in what:
        for op in ('alloc', 'be', 'le', 'rev'):
            for kd in (0, 1, 3):
                js.append(U32Job(mod, lib, op, [kd], consts=[0xdeadbeef] if kd == 1 else []))
        for kd in ([0, 0], [0, 3], [3, 3], [1, 0], [2, 1]):
            js.append(U32Job(mod, lib, 'xor', kd, consts=[0x9e3779b1]))
        for kd in ([0, 0, 0], [3, 0, 0], [0, 3, 2], [0, 2, 3], [1, 0, 0], [0, 1, 0], [0, 0, 1]):
            js.append(U32Job(mod, lib, 'ch', kd, consts=[0x9e3779b1]))
            js.append(U32Job(mod, lib, 'maj', kd, consts=[0x9e3779b1]))
        for n in (2, 3, 5, 8, 10):
            js.append(U32Job(mod, lib, 'add', [0] * n))
            js.append(U32Job(mod, lib, 'add', ([0, 1, 3, 2, 0] * 2)[:n] if n > 2 else [0, 3], consts=[0xffffffff, 0x80000001]))
        for k in (0, 1, 7, 17, 25, 31):
            js.append(U32Job(mod, lib, 'rotr', [3], k=k))
            js.append(U32Job(mod, lib, 'shr', [3], k=k))
    if 'u64' in what:
        for kd in ([0, 0, 0, 0], [3, 0, 1, 2], [0, 1, 0, 1], [1, 2, 0, 3]) if quick else \
                ([0, 0, 0, 0], [3, 0, 1, 2], [0, 1, 0, 1], [1, 2, 0, 3], [3, 3, 3, 3], [2, 2, 2, 2], [1, 1, 0, 0]):
            js.append(U64Job(mod, lib, kd, consts=[0xffffffffffffffff, 0x8000000000000001]))
    if 'unpack' in what:
        js.append(UnpackJob(mod, lib))
    parallel(ck, [(j.label, job(j, shape)) for j in js])
    ck.extra['honest_scenarios'] = len(js)
