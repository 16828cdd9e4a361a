"""The verification circuit: the equations it enforces are compared with the specification, and anything
unexpected is tried on the real circuit with real gadgets and previous proofs whose discrete logarithms
are known."""
import subprocess, json, os
from . import build, solver
from .par import parallel
from .poly import MOD
from .vcirc import Strange
from .vcspec import load, sections, deferred, previous, queries, bit_lemmas

BASES = {2: [1, 0, 1, 1, 0, 0, 1, 0], 3: [0, 1, 1, 0, 1, 0, 0, 0]}
FUNCS = ['recursion::VerificationCircuit::synthesize', 'recursion::VerificationCircuit::verify_proof',
         'recursion::VerificationCircuit::verify_inner_product', 'recursion::VerificationCircuit::verify_deferred',
         'recursion::VerificationCircuit::compute_b', 'recursion::VerificationCircuit::num_equal_unless_base_case',
         'recursion::VerificationCircuit::equal_unless_base_case', 'recursion::VerificationCircuit::obtain_scalar_from_bits',
         'recursion::VerificationCircuit::witness_bits_from_fe', 'recursion::VerificationCircuit::commit_point',
         'recursion::VerificationCircuit::get_challenge', 'recursion::VerificationCircuit::get_challenge_scalar']


def shape_job(fld, k, what):
    def go(sub):
        label = f'{fld} k={k}'
        try:
            c = load(fld, k, BASES.get(k, BASES[2]))
            s = sections(c)
            f = (deferred if what == 'deferred' else previous)(c, s)
        except (Strange, KeyError, ValueError, IndexError, TypeError) as e:
            sub.obl += 1
            return [f'{label}: the circuit is not read: {type(e).__name__}: {e}']
        out = [f'{label}: not enforced: {x}' for x in f.missing] + [f'{label}: enforced without reason: {x}' for x in f.extra]
        qs = queries(label, f, MOD[fld])
        sub.obl += f.n + len(qs)
        sub.dis += f.n - len([x for x in f.missing])
        for q, (r, _) in zip(qs, solver.solve_all(qs, workers=2)):
            if r == 'unsat':
                sub.dis += 1
            else:
                out.append(f'{q.name}: {r}')
        bit_lemmas(sub, c.samelen, MOD[fld])
        sub.extra['circuit'] = [f'{label}: {c.n} gates, {c.nlcs} linear constraints; {f.n} obligations matched by structure, {len(qs)} by the solver']
        return out
    return go


def forge(fld, k, seed, sel):
    try:
        r = subprocess.run([os.path.join(build.TARGET, 'harness', 'debug', 'rcs'), 'forge', fld, str(k), str(seed), sel],
                           capture_output=True, text=True, timeout=500)
        return json.loads(r.stdout) if not r.returncode else None
    except subprocess.TimeoutExpired:
        return None


def forge_jobs(cases, split):
    """cases: [(fld, k, seed, case indices)]"""
    out = []
    for fld, k, seed, idx in cases:
        for i in range(split):
            part = idx[i::split]
            if part:
                def go(sub, a=(fld, k, seed, 'pick:' + ','.join(map(str, part)))):
                    return [a[0], a[1], a[2], forge(*a)]
                out.append((f'{fld} k={k} forged proofs', go))
    return out


def concrete(ck, cases, mine, own, split=8):
    """runs forged proofs; mine(case) says whether a case belongs to this property"""
    n = bad = 0
    for r in parallel(ck, forge_jobs(cases, split), limit=520):
        if not r or r[3] is None:
            ck.inconclusive.append(['forged previous proofs', 'no answer'])
            continue
        fld, k, seed, rows = r
        for case, want, ok, panicked in rows:
            n += 1
            if ok == want or not mine(case, own):
                continue
            bad += 1
            what = ('is refused' if want else 'is accepted') + (' (panic or error)' if panicked else '')
            ck.violation(f'{fld}:k={k}:{case or "honest"}', f'verification circuit over {fld}, k = {k}: previous proof "{case or "honest"}" {what}',
                         {'command': f'rcs forge {fld} {k} {seed}', 'case': case or 'honest', 'expected satisfied': want, 'satisfied': ok})
    ck.extra['forged_proofs'] = ck.extra.get('forged_proofs', 0) + n
    return bad


def names(k):
    return forge('p', k, 1, 'list')


def run(ck, what):
    build.build(bin='rcs')
    solver.ensure()
    quick = ck.tier == 'quick'
    ks = (2, 3) if quick else (2, 3, 4, 5, 6)
    res = parallel(ck, [(f'{f} k={k}', shape_job(f, k, what)) for k in ks[::-1] for f in 'pq'], limit=700)
    sus = [x for r in res for x in (r if r is not None else ['no answer'])]
    sus = sorted(set(sus))
    lst = names(2)
    mine34 = lambda c, own: c.startswith('d0:') or own and c in ('', 'other')
    mine35 = lambda c, own: not c.startswith('d0:')
    mine = mine34 if what == 'deferred' else mine35
    bad = 0
    if what == 'deferred':
        hon = [i for i, c in enumerate(lst) if c == '']
    else:
        hon = [i for i, c in enumerate(lst) if not c or c.startswith('base') or c in ('inner', 'other')]
    if not sus and quick:
        bad = concrete(ck, [(f, 2, 1, hon) for f in 'pq'], mine, False, 4)
    else:
        pick = lambda k: [i for i, c in enumerate(names(k)) if i in hon or mine(c, True)]
        bad = concrete(ck, [(f, 2, 1, pick(2)) for f in 'pq'], mine, bool(sus))
        if not bad:
            bad = concrete(ck, [(f, 3, 7, pick(3)) for f in 'pq'], mine, bool(sus))
    if sus and not bad:
        ck.inconclusive += [['verification circuit', x[:300]] for x in sus[:10]]
    ck.functions = sorted(set(ck.functions) | set(FUNCS))
    ck.bounds += [f'k in {ks}, both fields, 8 payload bits; every value of every variable of the circuit',
                  'real-gadget runs with forged previous proofs: k in (2, 3) where made']
    ck.assumptions += ['the point, bit-decomposition, sponge and endoscalar gadgets are replaced by their contracts (C22 to C28)',
                       'the fork values are free, and the discrete logarithms between distinct generators are unknown']
