"""Finite-field queries, decided by /verif/ffsolve (Groebner bases, case splitting and
root finding over the 255-bit prime field), each in its own process with time and memory caps."""
import os, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
from .build import ROOT, TARGET

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0, 'splits': 0, 'bases': 0}
WORKERS = int(os.environ.get('HALO_WORKERS', '8'))
EXE = os.path.join(TARGET, 'ffsolve')
_lock = threading.Lock()


def ensure():
    src = os.path.join(ROOT, 'ffsolve', 'ffsolve.cpp')
    with _lock:
        if os.path.exists(EXE) and os.path.getmtime(EXE) >= os.path.getmtime(src):
            return
        os.makedirs(TARGET, exist_ok=True)
        subprocess.run(['g++', '-O2', '-std=c++17', '-w', '-o', EXE + '.tmp', src], check=True)
        os.replace(EXE + '.tmp', EXE)


class Query:
    def __init__(self, name, mod, eqs=(), nes=(), info=None):
        self.name, self.mod = name, mod
        self.eqs, self.nes = list(eqs), list(nes)
        self.info = info or {}


def linear_pass(q):
    """Exact elimination of affine equations before the engine sees the problem (keeps the
    number of variables within its capacity).  Returns (eqs, nes, [(var, poly)])."""
    from .poly import Poly
    eqs, nes, sub = list(q.eqs), list(q.nes), []
    while True:
        best = None
        for i, p in enumerate(eqs):
            l = p.linear() if len(p.t) <= 4 else None
            if l is None or p.is_const():
                continue
            best = i
            break
        if best is None:
            return eqs, nes, sub
        p = eqs.pop(best)
        l = p.linear()
        v = max((x for x in l if x != ()), key=str)
        inv = pow(l[v], -1, p.m)
        e = Poly(p.m, {k: (-c * inv) % p.m for k, c in p.t.items() if k != ((v, 1),)})
        sub.append((v, e))
        eqs = [x.subst({v: e}) for x in eqs]
        nes = [x.subst({v: e}) for x in nes]


def encode(q):
    eqs, nes, sub = linear_pass(q)
    idx = {}

    def pol(p):
        ts = []
        for k, c in p.t.items():
            t = f'{c:x}'
            for v, e in k:
                t += f',{idx.setdefault(v, len(idx))}^{e}'
            ts.append(t)
        return ';'.join(ts)
    body = []
    for p in eqs:
        if not p.is_zero():
            body.append('e ' + pol(p))
    for p in nes:
        body.append('n ' + pol(p))
    return f'p {q.mod:x}\nv {len(idx)}\n' + '\n'.join(body) + '\n', idx, sub


def _mem():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def solve_one(q, tlim):
    t0 = time.time()
    try:
        txt, idx, sub = encode(q)
        r = subprocess.run([EXE, str(tlim)], input=txt, capture_output=True, text=True, timeout=tlim + 15, preexec_fn=_mem)
        out = r.stdout.split('\n')
        st = out[0].split(' ')[0] if r.returncode == 0 and out[0] else 'unknown'
        if any(l.startswith('unknown') for l in out):
            st = 'unknown'
        model = None
        if st == 'sat':
            inv = {i: v for v, i in idx.items()}
            model = {}
            for l in out[1:]:
                if l.startswith('m '):
                    _, i, h = l.split()
                    model[inv[int(i)]] = int(h, 16)
            for v, e in reversed(sub):
                for w in e.vars():
                    model.setdefault(w, 0)
                model[v] = e.eval(model)
            env = dict(model)
            for p in q.eqs + q.nes:
                for w in p.vars():
                    env.setdefault(w, 0)
            if any(p.eval(env) for p in q.eqs) or any(p.eval(env) == 0 for p in q.nes):
                st, model = 'unknown', 'model check'
            else:
                model = env
        elif st == 'unknown':
            model = out[0] or f'exit {r.returncode}'
        for l in out:
            if l.startswith('stat '):
                STATS['splits'] += int(l.split()[1])
                STATS['bases'] += int(l.split()[2])
    except subprocess.TimeoutExpired:
        st, model = 'unknown', 'timeout'
    STATS['queries'] += 1
    STATS[st] += 1
    STATS['time'] += time.time() - t0
    return st, model


def solve_all(queries, tlim=60, workers=None):
    """Returns list of ('unsat'|'sat'|'unknown', model or reason)."""
    ensure()
    with ThreadPoolExecutor(workers or WORKERS) as ex:
        return list(ex.map(lambda q: solve_one(q, tlim), queries))
