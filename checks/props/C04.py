"""Square roots exist exactly for squares."""
import random
from concurrent.futures import ThreadPoolExecutor
from lib import irbuild, ecp, sylow, z3q
from lib.bv import Unsupported
from lib.fe import FECheck
from lib.ir import Panic
from lib.par import parallel
from lib.poly import MOD


def probes(f):
    m = MOD[f]
    rnd = random.Random(4)
    w, t = sylow.OMEGA[f], sylow.T_[f]
    out = [0, 1, m - 1, 2, 3, 5, 7]
    out += [pow(w, 1 << i, m) for i in range(32)] + [pow(w, (1 << i) + (1 << j), m) for i in range(0, 32, 3) for j in range(i)]
    out += [pow(w, rnd.getrandbits(32), m) * pow(rnd.randrange(1, m), 1 << 32, m) % m for _ in range(20)]
    out += [rnd.randrange(m) for _ in range(20)]
    out += [pow(rnd.randrange(1, m), 1 << k, m) for k in range(1, 33)]
    return out


def check(ck):
    irbuild.build()
    mod, native = irbuild.load(), irbuild.native()
    fc = FECheck(ck, mod, native)

    def judge(f, a):
        m = MOD[f]
        v, flag = fc.native(f'f{f}_sqrt', [('fe', f, a)], [('fe', f), ('u', 1)])
        want = a == 0 or pow(a, (m - 1) // 2, m) == 1
        if flag != want or flag and v * v % m != a:
            return f'f{f}_sqrt({a:#x}) = {v:#x} flag {flag}'

    def search(f, sub, extra=()):
        for a in list(extra) + probes(f):
            msg = judge(f, a)
            if msg:
                sub.violation(f'f{f}_sqrt', msg, {'input': hex(a)})
                return True

    def job(f, even):
        def go(sub):
            name = f'f{f}_sqrt on {"squares" if even else "non-squares"}'
            try:
                s = sylow.Sqrt(mod, f, even)
                try:
                    qs = s.run()
                except Panic:
                    qs = None
                sub.functions = sorted(u for u in s.ex.used if 'halo::' in u)
                sub.extra['ir_instructions'] = s.ex.steps
            except Unsupported as e:
                sub.obl += 1
                if not search(f, sub):
                    sub.inconclusive.append([name, f'outside the interpreter: {e}'])
                return
            if qs is None:
                sub.obl += 1
                if not search(f, sub):
                    sub.inconclusive.append([name, 'panics'])
                return
            bad = False
            for q, a in qs:
                sub.obl += 1
                r, mdl = z3q.ask(a, 200)
                if r == 'unsat':
                    sub.dis += 1
                elif bad:
                    pass
                else:
                    bad = True
                    if not search(f, sub):
                        sub.inconclusive.append([name, f'{q}: {r}'])
        return go

    def zero(sub):
        for f in 'pq':
            # a single input: no solver needed
            sub.obl += 1
            if judge(f, 0):
                sub.violation(f'f{f}_sqrt', judge(f, 0), {'input': '0x0'})
            else:
                sub.dis += 1
    parallel(ck, [(f'{f}{e}', job(f, e)) for f in 'pq' for e in (1, 0)] + [('zero', zero)])
    ck.bounds = ['none: all nonzero elements as a^t = w^m with a symbolic 32-bit m; the outer loop is cut at its head with an invariant that the solver '
                 'establishes and preserves for each of the 32 rounds (inner loops unrolled)']
    ck.assumptions = ['field multiplication, squaring and selection as decided by C01', 'the multiplicative group is cyclic of order 2^32 t (C05)',
                      'LLVM IR at opt-level 0 of this run; rustc code generation']
