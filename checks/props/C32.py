"""Challenges: the same for prover and verifier, and functions of every earlier message."""
from lib import build, solver
from lib.prf import PRun
from lib.prfcheck import Runner, honest, tampered
from props.C31 import inputs
from props.C33 import seeds

STAGES = [('y_cur', ['k', 'r']), ('x', ['s_cur', 't+', 't-']), ('y_new', ['c']),
          ('z', ['s_new', 'ky', 'rx', 'rxy', 'sx_old', 'sx_cur', 'tx+', 'tx-', 'sx_new', 'gx_old'])]


def number(run, name):
    n = run.T.nodes[int(run.raw[name].lstrip('#'))]
    if n[0] != 'o' or not n[2].startswith('chal:'):
        raise KeyError(f'{name} is not a challenge')
    return int(n[2][5:])


def split(run):
    out, cur = {}, None
    for k, a, b in run.events():
        if k == 'mark':
            cur = a
            out[cur] = []
        elif cur and a not in out[cur]:
            out[cur].append(a)
    return out


def missing(run, k):
    """(challenge, message) pairs that are not bound"""
    nums = {n: number(run, f'd.{n}') for n in ('y_cur', 'x', 'y_new')}
    rounds = [number(run, f'l.c{i}') for i in range(k)]
    zs = [int(e[3:]) for e in run.hist(rounds[0]) if e.startswith('sq:')] if k else []
    zs = [z for z in zs if z not in nums.values()]
    if len(zs) != 1:
        raise KeyError(f'z not identified {zs}')
    nums['z'] = zs[0]
    stages = STAGES + [(f'round{i}', [f'{w}{i}_{j}' for j in range(int(run.notes[f'instances {i}'])) for w in 'LRlr']) for i in range(k)]
    nums.update({f'round{i}': r for i, r in enumerate(rounds)})
    need, bad, n = [], [], 0
    for st, msgs in stages:
        need = need + msgs
        h = closure(run, nums[st])
        for m in need:
            n += 1
            xy = run.notes[f'xy:{m}']
            if xy == 'O':
                raise KeyError(f'{m} is the identity')
            if any(c not in h for c in xy.split(',')):
                bad.append((st, m))
    return n, bad, nums


def closure(run, n):
    """everything challenge n is derived from"""
    out, todo = set(), [n]
    while todo:
        for e in run.hist(todo.pop()):
            if e not in out:
                out.add(e)
                if e.startswith('sq:'):
                    todo.append(int(e[3:]))
    return out


def check(ck):
    build.build(bin='prf')
    solver.ensure()
    rn = Runner(ck)
    big = ck.tier == 'thorough'
    its = []
    for fld in 'pq':
        for k in (4, 5) + ((6,) if big else ()):
            for c in ['cub', 'mul', 'lin'] + (['chain2'] if k > 4 else []):
                its.append((f'{fld}/k={k}/{c}', fld, 'honest', [k, c, 'sym', 'transcript'], inputs(fld, k, 9), ['ok'], None))
    honest(rn, its)
    # prover and verifier
    suspicious = {}
    runs = rn.map(lambda it: (it, rn.get(it[1], it[2], it[3], it[4])), its)
    for it, r in zip(its, runs):
        if isinstance(r, Exception) or r[1].panic:
            ck.inconclusive.append([it[0], repr(r)[:200]])
            continue
        ev = split(r[1])
        ck.obl += 1
        if ev.get('prover') and ev.get('prover') == ev.get('verifier'):
            ck.dis += 1
        else:
            suspicious.setdefault(it[1], []).append((it[0], 'prover and verifier derive different challenges'))
    # what the challenges of an arbitrary proof are made of
    its = [(f'{fld}/verify/k={k}/{c}/{kc}', fld, [k, c, kc, 's:'], seeds(fld, k))
           for fld in 'pq' for k in (4, 5) + ((6,) if big else ()) for c in ('cub', 'mul') for kc in ('None', 'Some')]
    runs = rn.map(lambda it: (it, rn.get(it[1], 'verify', it[2], it[3])), its)
    for it, r in zip(its, runs):
        if isinstance(r, Exception) or r[1].panic:
            ck.inconclusive.append([it[0], repr(r)[:200]])
            continue
        try:
            n, bad, nums = missing(r[1], int(it[2][0]))
        except KeyError as e:
            ck.obl += 1
            suspicious.setdefault(it[1], []).append((it[0], str(e)))
            continue
        ck.obl += n
        ck.dis += n - len(bad)
        ck.extra['bound_messages'] = ck.extra.get('bound_messages', 0) + n - len(bad)
        for st, m in bad[:3]:
            suspicious.setdefault(it[1], []).append((it[0], f'challenge {st} does not depend on {m}'))
    for fld, l in suspicious.items():
        det = tampered(rn, fld, 't-bind', [4, 'mul'], inputs(fld, 4, 9))
        for lab, why in l[:6]:
            if det:
                msg = det['message'].replace('code says false, the equations hold', 'unchanged')
                ck.violation(f'{lab}:{why}'.replace(' ', '_'), f'{lab}: {why}; natively: {msg}', det)
            else:
                ck.inconclusive.append([lab, why + ': not reproduced natively'])
    ck.functions = ['Proof::{new,verify}', 'MultiPolynomialOpening::{new_proof,verify_proof}', 'append_point', 'append_scalar', 'get_challenge', 'Params::commit']
    ck.bounds = ['both curves, k = 4, 5 (thorough 6), three or four circuits, any witness, any (symbolic) previous claim']
    ck.assumptions = ['the sponge is ideal: a challenge depends on exactly what was absorbed before it (the real permutation is judged by C14, C25)',
                      'paths on which no message is the identity element']
