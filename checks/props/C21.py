"""Number gadgets constrain exactly their arithmetic."""
import itertools
from lib import build
from lib.gadget import Gadget, Case, Report, run_sound, run_complete
from lib.poly import Poly, MOD


def combval(X, kinds, pre):
    """the field value a combination built by these steps denotes"""
    acc = None
    for i, k in enumerate(kinds):
        n = f'{pre}{i}'
        if k in 'va':
            t = X(n)
        elif k == 'V':
            t = -X(n)
        elif k in 'k':
            t = X(n) * X(n + '.k')
        elif k == 'c':
            t = X(n)
        elif k in 'sA':
            t = X(n) * X(n + '.k')
        elif k == 'S':
            t = X(n) * X(n + '.k') * X(n + '.j')
        elif k == 'C':
            t = X(n) * X(n + '.j')
        elif k == 'z':
            acc = acc * X(n + '.k') if acc is not None else acc
            continue
        acc = t if acc is None else acc + t
    return acc if acc is not None else X('zero') * 0


def combseed(kinds, pre, base=3):
    s = {}
    for i, k in enumerate(kinds):
        n = f'{pre}{i}'
        if k != 'z':
            s[n] = base + 7 * i
        if k in 'ksAzS':
            s[n + '.k'] = base * 5 + 11 * i
        if k in 'SC':
            s[n + '.j'] = base * 3 + 2 * i
    return s


def gadgets(fld, tier):
    m = MOD[fld]
    gs = []
    x2 = [{'x': 3}, {'x': 0}]
    G = lambda name, args, seeds, cases, **kw: gs.append(Gadget(fld, name, args, seeds, cases, **kw))
    free = lambda f: (lambda X: [Case('all', [], [], f(X))])
    G('alloc', [], x2, lambda X: [Case('all', [], [], [])])
    G('alloc_input', [], x2, free(lambda X: [X('x') - Poly.var(m, 'k:2')]))
    G('inputize', [], x2, free(lambda X: [X('r') - X('x'), X('r') - Poly.var(m, 'k:2')]))
    G('num_mul', [], [{'x': 3, 'y': 4}, {'x': 0, 'y': 5}], free(lambda X: [X('r') - X('x') * X('y')]))
    G('num_mul', ['same'], x2, free(lambda X: [X('r') - X('x') * X('x')]))
    G('alloc_and_square', [], x2, free(lambda X: [X('r') - X('x') * X('x')]))
    G('num_one', [], [{}], free(lambda X: [X('r') - 1]))
    G('num_frombit', [], [{'b': 0}, {'b': 1}], lambda X: [Case('bit', [], [], [X('r') * (X('r') - 1), X('r') - X('b')], False),
                                                         Case('0', [X('b')]), Case('1', [X('b') - 1])], bools=['b'])
    G('num_invert', [], [{'x': 3}], lambda X: [Case('nz', [], [X('x')], [X('r') * X('x') - 1]),
                                               Case('always', [], [], [X('r') * X('x') - 1], False)])

    def sq(X):
        s = Poly.var(m, 's:w')
        return [Case('all', [], [], [X('r') * X('r') - X('x')], False), Case('square', [X('x') - s * s], [], [])]
    G('num_sqrt', [], [{'x': 9}, {'x': 0}], sq)
    combs = ['v', 'c', 's', 'vk', 'vc', 'ccc', 'vVa', 'sA', 'cvSC', 'vcz', 'sczv', 'kCz', '']
    for k in combs if tier != 'quick' else ['v', 'c', 's', 'vc', 'vVa', 'sA', 'cvSC', 'vcz', 'kCz', 'k', '']:
        sd = [combseed(k, 'x')]
        w = 'v' in k or 'k' in k or 's' in k
        val = lambda X, k=k: combval(X, k, 'x')
        G('comb', ['lc', k], sd, free(lambda X, val=val: [X('r') - val(X)]))
        G('comb', ['lc', k, 'scale'], [{**sd[0], 'k': 9}], free(lambda X, val=val: [X('r') - val(X) * X('k')]))
        G('comb', ['evaluate', k], sd, free(lambda X, val=val: [X('r') - val(X)]))
        G('comb', ['square', k], sd, free(lambda X, val=val: [X('r') - val(X) ** 2]))
        G('comb', ['alpha', k], sd, free(lambda X, val=val: [X('r') - val(X) ** 5]))
        G('comb', ['invalpha', k], sd, free(lambda X, val=val: [X('r') ** 5 - val(X)]))
        G('num_alpha', [k], sd, free(lambda X, val=val: [X('r') - val(X) ** 5, X('in') - val(X)]))
        G('num_invalpha', [k], sd, free(lambda X, val=val: [X('r') ** 5 - val(X), X('in') - val(X)]))
        for d in ['v', 'kc'] if tier == 'quick' else ['v', 'c', 'kc', 'SC', 'aA']:
            s2 = [{**sd[0], **combseed(d, 'y', 19)}]
            G('comb', ['mul', k, d], s2, free(lambda X, val=val, d=d: [X('r') - val(X) * combval(X, d, 'y')]))
            G('comb', ['add', k, d], s2, free(lambda X, val=val, d=d: [X('r') - val(X) - combval(X, d, 'y')]))
    for k in 'csvn':
        sd = [{'x': 3, 'x.k': 5, 'k': 11}, {'x': 0, 'x.k': 5, 'k': 11}]
        val = lambda X, k=k: X('x') * X('x.k') if k == 's' else -X('x') if k == 'n' else X('x')
        G('num_lc', [k], sd, free(lambda X, val=val: [X('r') - val(X)]))
        G('num_lc', [k, 'neg'], sd, free(lambda X, val=val: [X('r') + val(X)]))
        G('num_lc', [k, 'scale'], sd, free(lambda X, val=val: [X('r') - val(X) * X('k')]))
        G('num_lc', [k, 'coeff'], sd, free(lambda X, val=val: [X('r') - val(X) * X('k')]))
    return gs


def check(ck):
    build.build()
    gs = [g for f in 'pq' for g in gadgets(f, ck.tier)]
    rep = Report()
    tl = 30 if ck.tier == 'quick' else 120
    run_sound(gs, rep, tl)
    run_complete(gs, rep, tl)
    ck.absorb(rep)
    ck.functions = ['AllocatedNum::{one,alloc,alloc_input,inputize,mul,alloc_and_square,rescue_alpha,rescue_invalpha,invert,sqrt}',
                    'Num::{constant,scale,neg,lc,value}', 'Combination::{add,sub,scale,lc,evaluate,mul,square,rescue_alpha,rescue_invalpha}']
    ck.bounds = ['every field assignment and every constant/coefficient value; combinations of up to four terms of every kind']
    ck.assumptions = ['harness field type stands in for Fp/Fq (their arithmetic is C01)', '/verif/ffsolve decides the finite-field queries',
                      'x -> x^5 is a permutation (5 does not divide the group order, checked by arithmetic)']
