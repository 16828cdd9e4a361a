"""z3 queries with the statistics kept in the evidence."""
import time
import z3
from . import solver


def ask(assertions, limit=120):
    s = z3.Solver()
    s.set('timeout', int(limit * 1000))
    s.add(*assertions)
    t = time.time()
    r = s.check()
    r = 'unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'
    solver.STATS['queries'] += 1
    solver.STATS[r] += 1
    solver.STATS['time'] += time.time() - t
    return r, (s.model() if r == 'sat' else None)


def note(r, dt):
    """a decision made by another symbolic procedure"""
    solver.STATS['queries'] += 1
    solver.STATS[r] += 1
    solver.STATS['time'] += dt


def lemma(ck, name, *assertions):
    """the assertions must be contradictory"""
    r, m = ask(assertions)
    ck.obl += 1
    if r == 'unsat':
        ck.dis += 1
        return True
    ck.inconclusive.append([name, r])
    return False
