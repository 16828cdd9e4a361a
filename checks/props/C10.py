"""Multi-exponentiation."""
import random
from lib import irbuild, build, ecp, grp
from lib.bv import LIA, Unsupported
from lib.fe import FECheck, FExec, FE, BASE, SCAL
from lib.fncheck import Fn, run_fns
from lib.ir import Panic, explore
from lib.par import parallel
from lib.poly import Poly, MOD
from lib.wordcheck import lia_stats
from .C06 import affine, valid


def scalars(m, rnd):
    return [0, 1, 7, m - 1, 1 << 254, (1 << 255) % m, 8, 1 << 128] + [rnd.randrange(m) for _ in range(4)]


def job(fc0, c, n, cpus):
    f, sf = BASE[c], SCAL[c]
    m = MOD[sf]
    fn = f'{c}_multiexp'
    label = f'{fn} n={n} cpus={cpus}'

    def go(sub):
        import os
        os.environ['HALO_CPUS'] = str(cpus)
        fc = FECheck(sub, fc0.mod, fc0.lib)

        def judge(ks):
            pts = [ecp.point(f, i) for i in range(n)]
            import ctypes
            buf = (ctypes.c_ubyte * (96 * n + 16))()
            cob = (ctypes.c_ubyte * (32 * n + 16))()
            for i in range(n):
                v = fc.pt_in(c, (*pts[i], 1))[1].to_bytes(96, 'little')
                buf[96 * i:96 * i + 96] = v
                cob[32 * i:32 * i + 32] = fc.fe_in(sf, ks[i])[1].to_bytes(32, 'little')
            out = (ctypes.c_ubyte * 96)()
            fun = getattr(fc.lib, fn)
            fun.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_void_p]
            fun.restype = None
            # a panic would abort the process: probe in a child
            import os as _os
            r, w = _os.pipe()
            pid = _os.fork()
            if pid == 0:
                dn = _os.open('/dev/null', _os.O_WRONLY)
                _os.dup2(dn, 2)
                fun(ctypes.addressof(cob), ctypes.addressof(buf), n, ctypes.addressof(out))
                _os.write(w, bytes(out))
                _os._exit(0)
            _os.close(w)
            data = b''
            while True:
                x = _os.read(r, 4096)
                if not x:
                    break
                data += x
            _os.close(r)
            _os.waitpid(pid, 0)
            if len(data) != 96:
                return f'{label} panics on {[hex(k) for k in ks]}'
            got = fc.pt_out(c, int.from_bytes(data, 'little'))
            want = None
            for k, P in zip(ks, pts):
                want = ecp.add(f, want, ecp.mul(f, k, P))
            if not valid(f, got) or affine(f, got) != want:
                return f'{label}: {[hex(k) for k in ks]} gives a different sum'

        def search(extra=()):
            rnd = random.Random(3)
            cands = list(extra)
            for i in range(max(n, 1)):
                for k in scalars(m, rnd):
                    cands.append([k if j == i else 0 for j in range(n)])
            cands += [[rnd.choice(scalars(m, rnd)) for _ in range(n)] for _ in range(10)]
            for ks in cands:
                msg = judge(ks)
                if msg:
                    sub.violation(label, msg, {'coefficients': [hex(k) for k in ks]})
                    return True
        box = {}

        def make(pre):
            h = grp.hooks([c])
            for k in [k for k in fc.mod.pretty.values() if k in ('num_cpus::get', 'num_cpus::get_physical')]:
                h[k] = lambda ex, a, p: cpus
            T, S = grp.CT[c], {'p': 'halo::fields::fp::Fp', 'q': 'halo::fields::fq::Fq'}[sf]

            def smul(ex, a, pretty):
                g = ex.load(a[1], 96)
                k = ex.bitsum(ex.bits(sf, ex.fe(sf, a[2])))
                ex.store(a[0], 96, grp.G(c, {b: ex.dom.imul(v, k) for b, v in g.d.items()}))
            for l in (T, '&' + T):
                for r in (f'<{S}>', f'<&{S}>'):
                    h[f'<{l} as core::ops::arith::Mul{r}>::mul'] = smul
            ex = FExec(fc.mod, pre, extra=h, merge=('multiexp',))
            ex.limit = 200_000_000
            co, ba, o = ex.mem.alloc(32 * n), ex.mem.alloc(96 * n), ex.mem.alloc(96)
            S_ = []
            for i in range(n):
                s = Poly.var(m, f's{i}')
                S_.append(s)
                ex.store(co + 32 * i, 32, FE(sf, s))
                ex.store(ba + 96 * i, 96, grp.G(c, {f'B{i}': 1}))
            box[id(ex)] = (S_, [co, ba, n, o])
            return ex

        def run(ex):
            ex.call(fn, box[id(ex)][1])
            return ex.load(box[id(ex)][1][3], 96)
        try:
            for ex, r in explore(make, run):
                fc.used |= ex.used
                fc.steps += ex.steps
                fc.paths += 1
                sub.obl += 1
                if isinstance(r, Panic):
                    if not search():
                        sub.inconclusive.append([label, 'panic on some path'])
                    continue
                if not isinstance(r, grp.G):
                    raise Unsupported('result is not a point')
                sub.obl -= 1
                S_ = box[id(ex)][0]
                vals = [ex.bitsum(ex.bits(sf, s)) for s in S_]
                names = {f'B{i}' for i in range(n)} | set(r.d)
                for b in sorted(names):
                    sub.obl += 1
                    want = vals[int(b[1:])] if b[0] == 'B' else 0
                    diff = ex.dom.isub(r.d.get(b, 0), want)
                    L = LIA(ex.dom)
                    for v in vals:
                        L.fact(v, 0, m - 1)

                    def cond(B):
                        q, t = B.mk('q'), B.mk('r')
                        return [B.lin(diff) == m * q + t, t >= 1, t <= m - 1]
                    v = L.check(cond)
                    if v == 'unsat':
                        sub.dis += 1
                    elif not search([[L.value(x) for x in vals]] if v == 'sat' and L.model is not None else []):
                        sub.inconclusive.append([label, v])
                        break
                    else:
                        break
        except Unsupported as e:
            sub.obl += 1
            if not search():
                sub.inconclusive.append([label, f'outside the interpreter: {e}'])
        fc.finish()
        lia_stats()
    return go


def check(ck):
    irbuild.build()
    fc = FECheck(ck, irbuild.load(), irbuild.native())
    quick = ck.tier == 'quick'
    confs = [(0, 1), (1, 2), (2, 1), (3, 3), (3, 2), (5, 2)] if quick else \
        [(0, 1), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 3), (5, 2), (5, 3), (7, 3), (8, 2), (9, 4), (12, 5)]
    parallel(ck, [(f'{c}{n}/{k}', job(fc, c, n, k)) for c in BASE for n, k in confs])
    ck.bounds = [f'numbers of bases and CPUs: {confs} (three-bit windows; wider windows need 32 or more bases per thread); every coefficient value']
    ck.assumptions = ['points as formal combinations of independent bases (group law decided by C06, C07; scalar multiplication by C09)',
                      'num_cpus and the scoped-thread crate are replaced by stand-ins (closures run in spawn order; they own disjoint slices)',
                      'LLVM IR at opt-level 0 of this run; rustc code generation']
