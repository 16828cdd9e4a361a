"""Inversion, exponentiation and batch inversion."""
import random
from lib import build, irbuild, expo
from lib.bv import LIA, Unsupported
from lib.fe import FECheck
from lib.fncheck import Fn, run_fns
from lib.ir import Panic
from lib.poly import MOD
from lib.wordcheck import lia_stats


def elems(m, rnd):
    return [0, 1, 2, m - 1, (m + 1) // 2, 5, 7] + [rnd.randrange(m) for _ in range(3)]


def exps(m, rnd):
    e = [0, 1, 2, 3, m - 2, m - 1, m, 1 << 63, 1 << 64, (1 << 64) - 1, 1 << 127, 1 << 191, 1 << 192, 1 << 255, (1 << 256) - 1, 1 << 128]
    return e + [rnd.getrandbits(256) for _ in range(3)] + [1 << rnd.randrange(256) for _ in range(4)]


def power(ck, fc, f, fn):
    m = MOD[f]
    name = f'f{f}_{fn}'

    def judge(a, e):
        got = fc.native(name, [('fe', f, a), ('u', 32, e)], [('fe', f)])[0]
        if got != pow(a, e, m):
            return f'{name}({a:#x}, {e:#x}) = {got:#x}, want {pow(a, e, m):#x}'

    def search(extra=()):
        rnd = random.Random(5)
        for e in list(extra) + exps(m, rnd):
            for a in elems(m, rnd):
                msg = judge(a, e)
                if msg:
                    ck.violation(name, msg, {'base': hex(a), 'exponent': hex(e)})
                    return True

    def mk(ex):
        a, e, o = ex.mem.alloc(32), ex.mem.alloc(32), ex.mem.alloc(32)
        ex.store(a, 32, expo.PW(f, 1))
        bits = [ex.dom.var(f'x{i}', 0, 1) for i in range(256)]
        for i in range(4):
            ex.store(e + 8 * i, 8, ex.bitsum(bits[64 * i:64 * i + 64]))
        return [a, e, o], bits
    try:
        for ex, r in expo.run(fc.mod, name, mk, lambda ex: expo.conv(ex, f, ex.load(ex.io[0][2], 32))):
            fc.used |= ex.used
            fc.steps += ex.steps
            fc.paths += 1
            ck.obl += 1
            if isinstance(r, Panic):
                if not search():
                    ck.inconclusive.append([name, 'panic on some path'])
                continue
            val = ex.bitsum(ex.io[1])
            diff = ex.dom.isub(r.e, val)
            L = LIA(ex.dom)
            v = L.check(lambda B: [B.lin(diff) == B.mk('d'), B.mk('d') != 0])
            if v == 'unsat':
                ck.dis += 1
            elif not search([L.value(val)] if v == 'sat' and L.model is not None else []):
                ck.inconclusive.append([name, v])
    except Unsupported as e:
        ck.obl += 1
        if not search():
            ck.inconclusive.append([name, f'outside the interpreter: {e}'])


def invert(ck, fc, f):
    m = MOD[f]
    name = f'f{f}_invert'

    def judge(a):
        v, flag = fc.native(name, [('fe', f, a)], [('fe', f), ('u', 1)])
        if a == 0 and flag or a and (not flag or v * a % m != 1):
            return f'{name}({a:#x}) = {v:#x} flag {flag}'

    def search():
        for a in elems(m, random.Random(6)):
            msg = judge(a)
            if msg:
                ck.violation(name, msg, {'input': hex(a)})
                return True

    def mk(ex):
        a, o, fl = ex.mem.alloc(32), ex.mem.alloc(32), ex.mem.alloc(1)
        ex.store(a, 32, expo.PW(f, 1))
        return [a, o, fl], None

    def read(ex):
        fl = ex.dom.subst(ex.load(ex.io[0][2], 1))
        v = ex.load(ex.io[0][1], 32)
        return fl, (expo.conv(ex, f, v) if fl == 1 else v)
    seen = set()
    try:
        for ex, r in expo.run(fc.mod, name, mk, read):
            fc.used |= ex.used
            fc.steps += ex.steps
            fc.paths += 1
            ck.obl += 1
            zero = ex.chosen.get(('zero', f))
            if isinstance(r, Panic) or zero is None or zero != 1 - r[0]:
                if not search():
                    ck.inconclusive.append([name, 'flag or panic'])
                continue
            seen.add(zero)
            if zero:
                ck.dis += 1
                continue
            L = LIA(ex.dom)
            e = r[1].e
            v = L.check(lambda B: [B.lin(e) - (m - 2) == B.mk('t') * (m - 1) + B.mk('d'), B.mk('d') >= 1, B.mk('d') < m - 1])
            if v == 'unsat':
                ck.dis += 1
            elif not search():
                ck.inconclusive.append([name, v])
        ck.obl += 1
        if seen == {0, 1}:
            ck.dis += 1
        elif not search():
            ck.inconclusive.append([name, 'the zero test was not observed on both outcomes'])
    except Unsupported as e:
        ck.obl += 1
        if not search():
            ck.inconclusive.append([name, f'outside the interpreter: {e}'])


def batch(n):
    def go(r):
        # zero pattern of this path: from the solver's side every entry is either zero or invertible
        out = []
        for i in range(n):
            v, w = r.i(f'a{i}'), r.v(f'o{i}')
            out += [(f'entry {i} nonzero', [], [v * (v * w - r.c(1))])]
            out += [(f'entry {i} zero', [v], [w])]
        import itertools
        for z in itertools.product((0, 1), repeat=n):
            e = [r.i(f'a{i}') for i in range(n) if z[i]]
            p = r.c(1)
            ne = []
            for i in range(n):
                if not z[i]:
                    p = p * r.i(f'a{i}')
            q = p * r.v('all') - r.c(1)
            nz = r.c(1)
            for i in range(n):
                if not z[i]:
                    nz = nz * r.i(f'a{i}')
            out.append((f'product {z}', e, [nz, q]))
        return out
    return go


def check(ck):
    irbuild.build()
    fc = FECheck(ck, irbuild.load(), irbuild.native())
    for f in 'pq':
        for fn in ('pow', 'pow_vartime'):
            power(ck, fc, f, fn)
        invert(ck, fc, f)
    fc.finish()
    lia_stats()
    fns = []
    for f in 'pq':
        for n in (range(0, 4) if ck.tier == 'quick' else range(0, 6)):
            import itertools
            seeds = [{f'a{i}': (0 if z[i] else 3 + 2 * i) for i in range(n)} for z in itertools.product((0, 1), repeat=n)]
            fns.append(Fn(f, 'batchinv', [n], seeds, batch(n)))
    build.build()
    run_fns(fns, ck)
    ck.bounds = ['pow, pow_vartime and invert: none on values (256 symbolic exponent bits; any base)',
                 f'batch_invert: slices of up to {3 if ck.tier == "quick" else 5} entries, every value and zero pattern']
    ck.assumptions += ['field multiplication, squaring and selection as decided by C01', 'both moduli are prime (Fermat), checked in C05',
                       'LLVM IR at opt-level 0 of this run; rustc code generation']
