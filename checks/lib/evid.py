"""Evidence files, replays and exit codes."""
import json, os, sys, time
from . import solver
from .build import ROOT

T0 = time.time()


def replay_path(prop, tag):
    d = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f'{prop}-{tag}.json')


def known(prop):
    """committed known findings: lines  'known: property=<id> key=<key> <text>'"""
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith(f'known: property={prop} key='):
                k = l.split('key=', 1)[1]
                key, _, txt = k.partition(' ')
                out[key] = txt
    return out


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obl = self.dis = 0
        self.inconclusive = []
        self.viol = []
        self.assumptions = []
        self.functions = []
        self.bounds = []
        self.extra = {}
        self.samples = []

    def absorb(self, rep):
        self.obl += rep.obl
        self.dis += rep.discharged
        self.inconclusive += [list(map(str, x)) for x in rep.inconclusive]
        if rep.notes:
            self.extra.setdefault('notes', []).extend(rep.notes[:20])
        self.extra['honest_paths'] = self.extra.get('honest_paths', 0) + rep.paths
        self.extra['reachable_cases'] = self.extra.get('reachable_cases', 0) + rep.witness
        self.extra['normal_form_identities'] = self.extra.get('normal_form_identities', 0) + getattr(rep, 'nf', 0)
        for g, msg, det, kind in rep.violations:
            key = f'{g.label}:{kind}:{det.get("case", det.get("constraint", ""))}'.replace(' ', '_')
            self.violation(key, msg, det)

    def violation(self, key, msg, det):
        self.viol.append((key, msg, det))

    def finish(self):
        kn = known(self.prop)
        new = 0
        seen = set()
        for key, msg, det in self.viol:
            if key in kn:
                if key not in seen:
                    print(f'KNOWN-FINDING: property={self.prop} {kn[key]} [{key}]')
                seen.add(key)
                continue
            new += 1
            if new <= 8:
                p = replay_path(self.prop, f'{new}')
                json.dump({'property': self.prop, 'key': key, 'message': msg, 'detail': det}, open(p, 'w'), indent=1)
                print(f'VIOLATION property={self.prop} replay={p}')
                print(f'  {key}: {msg}'[:600])
        for i in self.inconclusive[:10]:
            print('INCONCLUSIVE', *i)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
            'level': 'other',
            'coverage': {
                'explanation': 'Symbolic execution of the code in /repo as built for this run; each obligation is '
                               'decided by an SMT solver for every value within the stated bounds.',
                'functions_encoded': self.functions,
                'bounds': self.bounds,
                'obligations': self.obl, 'discharged': self.dis,
                'inconclusive': self.inconclusive[:50], 'inconclusive_count': len(self.inconclusive),
                'solver_queries': solver.STATS['queries'],
                'solver_unsat': solver.STATS['unsat'], 'solver_sat': solver.STATS['sat'],
                'solver_unknown': solver.STATS['unknown'],
                'solver_seconds': round(solver.STATS['time'], 2),
                'samples': self.samples[:20],
                **self.extra,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - T0, 2),
            'violations': new,
        }
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, f'{self.prop}.json'), 'w'), indent=1)
        print(f'{self.prop} {self.tier}: {self.dis}/{self.obl} obligations discharged, {len(self.inconclusive)} inconclusive, '
              f'{new} violations, {solver.STATS["queries"]} queries, {ev["wall_s"]} s')
        return 1 if new else 0
