"""One step of a recursion chain over symbolic verification results and public inputs: LLVM IR of
recursion.rs, compiled against stand-ins for proofs and claims."""
import ctypes, random
from . import irbuild
from .bv import Dom, LIA, W, Unsupported
from .ir import Exec, explore, Panic, Restart
from .wordcheck import lia_stats

ERR, RES, ENC, FORK, CALLS, N, INP, NIN, K, SIZE = 0, 16, 32, 40, 48, 4144, 4152, 4408, 4416, 4432
NC = 18
MERGE = ('RecursiveProof', 'recursion')


class Bad(Exception):
    pass


def calls(rd, n):
    """the log, split"""
    out, i, L = [], 0, {1: 3 + NC, 2: 4, 3: 3, 4: 3}
    while i < n:
        op = rd(i)
        if op not in L:
            raise Unsupported('log')
        out.append([rd(i + j) for j in range(L[op])])
        i += L[op]
    return out


class Native:
    """the compiled code on concrete inputs"""
    def __init__(self, lib):
        self.lib = lib

    def __call__(self, fn, args, v):
        raw = (ctypes.c_uint64 * (SIZE // 8 + 4))()
        a = (ctypes.addressof(raw) + 15) // 16 * 16
        b = (ctypes.c_ubyte * SIZE).from_address(a)
        for off, nm, cnt in ((ERR, 'err', 16), (RES, 'res', 16), (ENC, 'enc', 8), (FORK, 'fork', 4)):
            for i in range(cnt):
                b[off + i] = v.get(f'{nm}{i}', 0)
        out = (ctypes.c_uint64 * 9)()
        getattr(self.lib, fn)(ctypes.c_void_p(a), *[ctypes.c_uint8(v.get(x, x) if isinstance(x, str) else x) for x in args], out)
        w = lambda o, s: int.from_bytes(bytes(b[o:o + s]), 'little')
        return {'o': [x for x in out], 'calls': calls(lambda i: w(CALLS + 8 * i, 8), w(N, 8)),
                'in': [b[INP + i] for i in range(min(w(NIN, 8), 256))], 'k': w(K, 16)}


def eqs_verify(r, v, d):
    """[(what, difference)] for the public inputs, and whether they were looked at"""
    src = [('pay', 0)] + [('enc', i) for i in (1, 2, 3)]
    bits = [v(f'{n}{i}.{j}') for n, i in src for j in range(8)]
    out = [('number of inputs', len(r['in']) - len(bits))]
    out += [(f'input bit {i}', d.isub(g, w)) for i, (g, w) in enumerate(zip(r['in'], bits))]
    base = 0 if r['fn'] == 'rec_verify' else 1
    k = 1 << (3 + base)
    for i, b in enumerate(bits):
        k = d.iadd(k, d.imul(b, 1 << (3 * (i + 2) + base)))
    out.append(('commitment to the public inputs', d.isub(r['k'], k)))
    return out


def verify_rules(v, status):
    """[(what, [conditions that cannot hold together])] as functions of z3-like atoms"""
    good = [('res', j) for j in range(5)]
    errs = [0, 1, 4]
    return good, errs


def judge_verify(r, v):
    o = r['o'][0] & 255
    g = all(v.get(f'res{j}', 0) for j in range(5))
    e = any(v.get(f'err{j}', 0) for j in (0, 1, 4))
    if o == 1 and not (g and not e):
        return 'accepts although ' + ', '.join(NAMES[j] for j in range(5) if not v.get(f'res{j}', 0) or j in (0, 1, 4) and v.get(f'err{j}', 0)) + ' does not verify'
    if o == 2 and not e:
        return 'reports an error although there was none'
    if o == 0 and g:
        return 'rejects although ' + ('everything verifies' if not e else 'the only trouble is an error')
    d = Dom()
    if any(c[0] == 2 for c in r['calls']):
        for what, x in eqs_verify(r, lambda n: bitof(v, n), d):
            if x:
                return f'{what} is wrong'


NAMES = ['the proof', 'the second leftovers', 'the deferred claim it carries', 'the deferred claim handed on', 'the leftovers handed on']


def bitof(v, n):
    b, j = n.split('.')
    return (v.get(b, 0) >> int(j)) & 1


def create_expected(old, v):
    """the log entry of proof creation and the parts of the new proof"""
    pay = [v('new0'), v('new1')]
    fk = [v(f'fork{i}') for i in range(3)]
    if old:
        circ = [6, 77, 1, 34, 2, *pay, 4, *fk, 0, 0, 0, 32, 41, 42, 0]
        return [1, 5, 32] + circ, [54, 32, 41, 42, 2, *pay]
    circ = [6, 77, 2, 0, 2, *pay, 7] + [0] * 6 + [205, 206, 306, 0]
    return [1, 5, 205] + circ, [54, 205, 206, 306, 2, *pay]


def judge_create(old):
    def f(r, v):
        o = r['o'][0]
        if o == 2:
            if not (v.get('err8', 0) or old and (v.get('err6', 0) or v.get('err7', 0))):
                return 'creation fails although nothing did'
            return
        if v.get('err8', 0) or old and v.get('err6', 0):
            return 'creation succeeds although a part of it failed'
        entry, parts = create_expected(old, lambda n: v.get(n, 0))
        new = [c for c in r['calls'] if c[0] == 1]
        if new != [entry]:
            return f'the prover is given {new}'
        if r['o'][1:8] != parts:
            return f'the new proof has parts {r["o"][1:8]}'
        if old:
            for what, x in eqs_verify(r, lambda n: bitof(v, n), Dom()):
                if x:
                    return f'{what} is wrong'
    return f


class Job:
    def __init__(self, mod, lib, fn, args, judge, old=None):
        self.mod, self.nat, self.fn, self.args, self.judge, self.old = mod, Native(lib), fn, args, judge, old
        self.label = {'rec_verify': 'verification of a recursive proof'}.get(fn, f'creation of a step {"after an old proof" if old else "from nothing"}')

    def names(self):
        return [f'err{i}' for i in range(9)] + [f'res{i}' for i in range(9)] + ['enc1', 'enc2', 'enc3', 'fork0', 'fork1', 'fork2'] + [a for a in self.args if isinstance(a, str)]

    def concrete(self, v):
        r = self.nat(self.fn, self.args, v)
        r['fn'] = self.fn
        return self.judge(r, v)


def run_job(J):
    def go(sub):
        rnd = random.Random(J.label)

        def cand():
            v = {}
            for n in J.names():
                v[n] = int(rnd.random() < (.12 if n[0] == 'e' and n[1] == 'r' else .85)) if n[:3] in ('err', 'res') else rnd.getrandbits(8)
            return v

        def search(models=()):
            base = {n: (0 if n[:3] == 'err' else 1) for n in J.names()}
            for n in J.names():
                if n[:3] not in ('err', 'res'):
                    base[n] = rnd.getrandbits(8)
            flips = [base] + [dict(base, **{n: 1 - base[n]}) for n in J.names() if n[:3] in ('err', 'res')]
            for v in list(models) + flips + [cand() for _ in range(60)]:
                m = J.concrete(v)
                if m:
                    sub.violation(J.label.replace(' ', '_'), f'{J.label}: {m}', {'inputs': v})
                    return True
            return False
        box = {'merge': MERGE, 'no': set()}

        def make(pre):
            dom = Dom()
            dom.linbool = True
            ex = Exec(J.mod, dom, decisions=pre, limit=30_000_000, merge=box['merge'])
            ex.nomerge = box['no']
            ex.loose = True
            ex.io = io = ex.mem.alloc(SIZE)
            for i in range(0, SIZE, 8):
                ex.store(io + i, 8, 0)
            ex.v, ex.bits = {}, {}
            for n in J.names():
                if n[:3] in ('err', 'res'):
                    w = dom.boolatom('in', n, key=n, name=n)
                elif n.startswith('fork') or n.startswith('new'):
                    w = dom.var(n, 0, 255)
                else:
                    w = 0
                    for j in range(8):
                        b = ex.bits[f'{n}.{j}'] = dom.boolatom('in', f'{n}.{j}', key=f'{n}.{j}', name=f'{n}.{j}')
                        w = dom.iadd(w, dom.imul(b, 1 << j))
                ex.v[n] = w
                for p, off in (('err', ERR), ('res', RES), ('enc', ENC), ('fork', FORK)):
                    if n.startswith(p):
                        ex.store(io + off + int(n[len(p):]), 1, w)
            ex.out = ex.mem.alloc(80)
            for i in range(0, 80, 8):
                ex.store(ex.out + i, 8, 0)
            ex.av = [io] + [ex.v[a] if isinstance(a, str) else a for a in J.args] + [ex.out]
            return ex

        def run(ex):
            ex.call(J.fn, ex.av)
            ld = lambda o, s: ex.load(ex.io + o, s)
            n, nin = ld(N, 8), ld(NIN, 8)
            if not isinstance(n, int) or not isinstance(nin, int):
                raise Unsupported('log of symbolic length')
            o = [ex.load(ex.out, 1)] if J.fn == 'rec_verify' else [ex.load(ex.out + 8 * i, 8) for i in range(8)]
            return {'o': o, 'calls': calls(lambda i: ld(CALLS + 8 * i, 8), n), 'in': [ld(INP + i, 1) for i in range(min(nin, 256))], 'k': ld(K, 16), 'fn': J.fn}

        def attempt():
            for ex, r in explore(make, run, 300):
                sub.extra['ir_steps'] = sub.extra.get('ir_steps', 0) + ex.steps
                sub.extra['ir_paths'] = sub.extra.get('ir_paths', 0) + 1
                sub.functions = sorted(set(sub.functions) | {u for u in ex.used if 'RecursiveProof' in u})
                if isinstance(r, Panic):
                    sub.obl += 1
                    search() or sub.inconclusive.append([J.label, f'panic on a path: {r}'])
                    continue
                d = ex.dom
                zero, never = [], []
                o = r['o'][0]
                if J.fn == 'rec_verify':
                    if any(c[0] == 2 for c in r['calls']):
                        zero += eqs_verify(r, lambda n: ex.bits[n], d)
                    res = [ex.v[f'res{j}'] for j in range(5)]
                    err = [ex.v[f'err{j}'] for j in (0, 1, 4)]
                    never += [('accepted only if everything verifies', 1, 'some0', res, 'some1', err),
                              ('an error is reported only if there is one', 2, 'all0', err), ('rejected only if something does not verify', 0, 'all1', res)]
                else:
                    err = [ex.v['err8']] + ([ex.v['err6']] if J.old else [])
                    may = err + ([ex.v['err7']] if J.old else [])
                    never += [('creation succeeds only if all parts do', 1, 'some1', err), ('creation fails only if a part does', 2, 'all0', may)]
                    if o != 2:
                        entry, parts = create_expected(J.old, lambda n: ex.v[n])
                        new = [c for c in r['calls'] if c[0] == 1]
                        zero.append(('number of proofs created', len(new) - 1))
                        zero += [(f'argument {i} of the prover', d.isub(a, b)) for c in new[:1] for i, (a, b) in enumerate(zip(c, entry))]
                        zero += [(f'part {i} of the new proof', d.isub(a, b)) for i, (a, b) in enumerate(zip(r['o'][1:8], parts))]
                        if J.old:
                            zero += eqs_verify(r, lambda n: ex.bits[n], d)
                L = LIA(d)
                for what, x in zero:
                    sub.obl += 1
                    x = Dom.simp(Dom.w(x))
                    if isinstance(x, int):
                        x = Dom.w(x)
                    ask(sub, L, ex, what, lambda B: nz(B, x), search)
                for what, st, *groups in never:
                    sub.obl += 1

                    def cond(B, st=st, groups=groups):
                        import z3
                        c = [B.lin(Dom.w(o)) == st]
                        g = []
                        for kind, ws in zip(groups[::2], groups[1::2]):
                            t = [B.lin(Dom.w(w)) for w in ws]
                            val = int(kind[-1])
                            g.append((z3.Or if kind.startswith('some') else z3.And)([x == val for x in t]))
                        return c + [z3.Or(g)]
                    ask(sub, L, ex, what, cond, search)

        def nz(B, x):
            import z3
            t = B.lin(x)
            return [z3.Or(t >= 1, t <= -1)]

        def ask(sub, L, ex, what, cond, search):
            r = L.check(cond)
            if r == 'unsat':
                sub.dis += 1
                return
            m = {}
            if r == 'sat':
                for n, w in ex.v.items():
                    try:
                        m[n] = L.value(w)
                    except Exception:
                        m[n] = 0
            if not sub.viol:
                search([m] if m else []) or sub.inconclusive.append([J.label, what, r])
        try:
            for _ in range(30):
                mark = sub.obl, sub.dis, len(sub.inconclusive), len(sub.viol)
                try:
                    attempt()
                    break
                except Restart:
                    sub.obl, sub.dis = mark[:2]
                    del sub.inconclusive[mark[2]:]
                    del sub.viol[mark[3]:]
        except Exception as e:
            sub.obl += 1
            search() or sub.inconclusive.append([J.label, f'outside the interpreter: {type(e).__name__}: {e}'])
        # the same judgement on the compiled code
        sub.obl += 1
        search()
        sub.dis += 1
        lia_stats()
    return go


def jobs():
    irbuild.build('claims')
    mod, lib = irbuild.load(), irbuild.native()
    return [Job(mod, lib, 'rec_verify', ['pay0'], judge_verify),
            Job(mod, lib, 'rec_create', [1, 'pay0', 'new0', 'new1'], judge_create(True), True),
            Job(mod, lib, 'rec_create', [0, 'pay0', 'new0', 'new1'], judge_create(False), False)]
