"""The byte encodings of the two claims, over symbolic bytes: LLVM IR of the encoders, instantiated at a
field whose elements are opaque bytes."""
import ctypes, random
from . import irbuild
from .bv import Dom, LIA, W, Unsupported
from .ir import Exec, explore, Panic
from .wordcheck import lia_stats

HEAD = ['x', 'y_old', 'y_cur', 'y_new', 'ky', 'tp', 'tn', 'sx', 'rx', 'rxy', 'gx', 'b_x', 'b_xy', 'b_y_old', 'b_y_cur', 'b_y_new']


def elems(kind, k):
    if kind == 'deferred':
        return HEAD + [f'co{i}' for i in range(k)] + [f'cn{i}' for i in range(k)]
    return ['sx', 'sy', 'gx', 'gy', 'y'] + [f'c{i}' for i in range(k)]


def order(kind, k):
    """(element, bytes kept), in order"""
    co, cn = ([(f'{t}{i}', 16) for i in range(k)] for t in ('co', 'cn'))
    if kind == 'deferred':
        return [(n, 16) for n in HEAD[:4]] + [(n, 32) for n in HEAD[4:10]] + co + [('gx', 32)] + cn + [(n, 32) for n in HEAD[11:]]
    return [('sx', 32), ('sy', 32), ('y', 16), ('gx', 32), ('gy', 32)] + [(f'c{i}', 16) for i in range(k)]


def wanted(kind, k, val, ident=(0, 0)):
    out = []
    for n, w in order(kind, k):
        z = kind == 'leftovers' and (ident[0] and n in ('sx', 'sy') or ident[1] and n in ('gx', 'gy'))
        out += [0 if z else val(n, i) for i in range(w)]
    return out


def native(lib, kind, k, val, ident):
    es = elems(kind, k)
    buf = (ctypes.c_ubyte * (32 * len(es)))(*[val(n, i) for n in es for i in range(32)])
    out = (ctypes.c_ubyte * 8192)()
    n = ctypes.c_size_t()
    if kind == 'deferred':
        lib.enc_deferred(buf, ctypes.c_size_t(k), out, ctypes.byref(n))
    else:
        lib.enc_leftovers(buf, ctypes.c_size_t(k), (ctypes.c_ubyte * 2)(*ident), out, ctypes.byref(n))
    return list(out)[:n.value]


def one(ck, mod, lib, kind, k, ident):
    label = f'encoding of {kind} k={k}' + (f' identities {ident}' if kind == 'leftovers' else '')
    es = elems(kind, k)
    rnd = random.Random(5)

    def search(models):
        for m in models + [{}] * 4:
            t = {(n, i): m.get((n, i), rnd.getrandbits(8)) for n in es for i in range(32)}
            val = lambda n, i: t[n, i]
            got, want = native(lib, kind, k, val, ident), wanted(kind, k, val, ident)
            if got != want:
                at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), 'the length')
                ck.violation(label.replace(' ', '_'), f'{label}: byte {at} is not what the layout says', {'got': bytes(got).hex(), 'want': bytes(want).hex()})
                return True
        return False

    def make(pre):
        ex = Exec(mod, Dom(), decisions=pre, limit=60_000_000)
        ex.inb = {(n, i): ex.dom.var(f'{n}.{i}', 0, 255) for n in es for i in range(32)}
        a = ex.mem.alloc(32 * len(es))
        for j, n in enumerate(es):
            for i in range(32):
                ex.store(a + 32 * j + i, 1, ex.inb[n, i])
        ex.r, ex.n = ex.mem.alloc(8192), ex.mem.alloc(8)
        ex.args = [a, k]
        if kind == 'leftovers':
            f = ex.mem.alloc(2)
            ex.store(f, 1, ident[0])
            ex.store(f + 1, 1, ident[1])
            ex.args.append(f)
        ex.args += [ex.r, ex.n]
        return ex

    def run(ex):
        ex.call('enc_' + kind, ex.args)
        n = ex.load(ex.n, 8)
        if not isinstance(n, int):
            raise Unsupported('length is symbolic')
        return [ex.load(ex.r + i, 1) for i in range(n)]
    try:
        for ex, got in explore(make, run, 64):
            ck.extra['ir_steps'] = ck.extra.get('ir_steps', 0) + ex.steps
            ck.obl += 1
            if isinstance(got, Panic):
                search([]) or ck.inconclusive.append([label, 'panics'])
                continue
            want = wanted(kind, k, lambda n, i: ex.inb[n, i], ident)
            if len(got) != len(want):
                search([]) or ck.inconclusive.append([label, 'length'])
                continue
            L = LIA(ex.dom)

            dif = [Dom.simp(Dom.w(ex.dom.isub(g, w))) for g, w in zip(got, want)]
            dif = [d for d in dif if not (isinstance(d, int) and d == 0)]

            def cond(B):
                import z3
                ts = [B.lin(Dom.w(d)) for d in dif]
                return [z3.Or([z3.Or(t >= 1, t <= -1) for t in ts])]
            r = L.check(cond)
            if r == 'unsat':
                ck.dis += 1
                continue
            m = {}
            if r == 'sat':
                for key, w in ex.inb.items():
                    try:
                        m[key] = L.value(w)
                    except Exception:
                        pass
            search([m]) or ck.inconclusive.append([label, r])
    except Exception as e:
        ck.obl += 1
        search([]) or ck.inconclusive.append([label, f'outside the interpreter: {type(e).__name__}: {e}'])
    lia_stats()


def run(ck, ks):
    irbuild.build('claims')
    mod, lib = irbuild.load(), irbuild.native()
    for k in ks:
        one(ck, mod, lib, 'deferred', k, (0, 0))
        for i in ((0, 0), (0, 1), (1, 0), (1, 1)):
            one(ck, mod, lib, 'leftovers', k, i)
