"""Independent obligations in forked workers; results are merged into the parent's Check."""
import multiprocessing as mp, os, signal, time, traceback
from . import evid, solver


def _work(args):
    prop, tier, i = args
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    from .bv import LIA
    sub = evid.Check(prop, tier)
    for k in solver.STATS:
        solver.STATS[k] = 0
    LIA.QUERIES, LIA.TIME = 0, 0
    LIA.RES = {k: 0 for k in LIA.RES}
    try:
        ret = JOBS[i][1](sub)
    except Exception as e:
        sub.obl += 1
        sub.inconclusive.append([JOBS[i][0], f'{type(e).__name__}: {e}', traceback.format_exc()[-600:]])
        ret = None
    from .wordcheck import lia_stats
    lia_stats()
    return (i, sub.obl, sub.dis, sub.inconclusive, sub.viol, sub.functions, sub.extra, sub.samples, dict(solver.STATS), ret)


def parallel(ck, jobs, workers=8, limit=600):
    """jobs: [(label, f(check) -> picklable)].  Returns the list of results."""
    global JOBS
    JOBS = jobs
    out = [None] * len(jobs)
    fns = set(ck.functions)
    left = set(range(len(jobs)))
    end = time.time() + limit * (1 if ck.tier == 'quick' else 20)
    with mp.get_context('fork').Pool(workers) as pool:
        it = pool.imap_unordered(_work, [(ck.prop, ck.tier, i) for i in range(len(jobs))], chunksize=1)
        while left:
            try:
                n, *r = it.next(timeout=max(0.1, end - time.time()))
            except mp.TimeoutError:
                ck.obl += len(left)
                ck.inconclusive += [[jobs[i][0], 'not finished in time'] for i in sorted(left)]
                break
            left.discard(n)
            if r[3]:                    # enough is known: do not wait long for the rest
                end = min(end, time.time() + 60)
            ck.obl += r[0]
            ck.dis += r[1]
            ck.inconclusive += r[2]
            ck.viol += r[3]
            fns |= set(r[4])
            for k, v in r[5].items():
                if isinstance(v, (int, float)):
                    ck.extra[k] = ck.extra.get(k, 0) + v
                elif isinstance(v, list):
                    ck.extra.setdefault(k, []).extend(v)
                else:
                    ck.extra[k] = v
            ck.samples += r[6]
            for k, v in r[7].items():
                solver.STATS[k] += v
            out[n] = r[8]
    ck.functions = sorted(fns)
    return out
