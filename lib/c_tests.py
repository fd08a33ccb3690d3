"""The test runner."""
from vlib import *
import itertools

TARGS = {'new': ['w'], 'suite': [], 'case': ['i', 'b'], 'cdep': ['i', 'j', 'd', 'k'], 'sdep': ['i', 'd', 'k'], 'run': ['p', 'serial', 'fmt', 'fault', 'k']}
TWRAPS = ['fork', 'wait', 'wait3', 'wait4', 'waitpid']
BEH = [0] * 8 + [1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 9, 9, 9, 10, 11, 12, 13, 13]


def runop(r, fault='none', p=None, serial=False):
    return {'op': 'run', 'p': r.choice([1, 1, 2, 2, 3, 4, 5, 32, 0]) if p is None else p, 'serial': serial, 'fmt': r.choice([0, 1, 1, 2]), 'fault': fault, 'k': r.choice([1, 1, 2, 3, 4, 6])}


def program(r, verdicts=False):
    """A program of suites and cases; dependencies mostly sound."""
    s = [{'op': 'new', 'w': r.random() < .25}]
    ns = r.choice([1, 1, 1, 2, 2, 3, 4])
    serial = r.random() < (.25 if verdicts else .15)
    bad = r.random() < .1
    good = r.random() < (.15 if verdicts else .5)
    cases, sdeps = [], []
    order = [r.sample(range(1, 9), 8) for _ in range(ns + 1)]
    so = r.sample(range(1, ns + 1), ns)
    for i in range(1, ns + 1):
        s.append({'op': 'suite'})
    dens = r.choice([0, .15, .3, .6])
    for i in range(1, ns + 1):
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8])
        for j in range(1, n + 1):
            b_ = r.choice([0, 9, 0, 6]) if good else r.choice(BEH)
            if serial and b_ not in (0, 1, 5, 7, 9):
                b_ = r.choice([0, 1, 0])
            cases.append({'op': 'case', 'i': i, 'b': 0 if serial and good else b_})
        for j in range(1, n + 1):
            for d in range(1, n + 1):
                if j != d and r.random() < dens and (order[i].index(d) < order[i].index(j) or bad and r.random() < .3):
                    sdeps.append({'op': 'cdep', 'i': i, 'j': j, 'd': d, 'k': r.random() < .5})
                    if r.random() < .1:
                        sdeps.append(dict(sdeps[-1], k=r.random() < .5))
        for d in range(1, ns + 1):
            if i != d and r.random() < .3 and (so.index(d) < so.index(i) or bad and r.random() < .3):
                sdeps.append({'op': 'sdep', 'i': i, 'd': d, 'k': r.random() < .5})
                if r.random() < .1:
                    sdeps.append(dict(sdeps[-1], k=r.random() < .5))
    if bad and r.random() < .4:
        sdeps.append({'op': 'cdep', 'i': 1, 'j': 1, 'd': r.choice([1, 9, 8]), 'k': r.random() < .5})
    r.shuffle(cases)    # suites interleave; numbering within a suite is by order of creation
    r.shuffle(sdeps)
    s += cases + sdeps
    for _ in range(r.choice([1, 1, 2, 3])):
        s.append(runop(r, 'none' if serial else r.choice(['none'] * 5 + ['fork', 'fork', 'eintr', 'eintr', 'chld']), serial=serial))
    return s


def graphs(r, n, limit):
    """Every dependency graph of n cases, with a random assignment of outcomes."""
    edges = [(i, j) for i in range(1, n + 1) for j in range(1, n + 1)]
    allg = list(itertools.product([0, 1], repeat=len(edges)))
    if limit and len(allg) > limit:
        allg = r.sample(allg, limit)
    for g in allg:
        s = [{'op': 'new', 'w': False}, {'op': 'suite'}] + [{'op': 'case', 'i': 1, 'b': r.choice([0, 0, 0, 1, 2, 9])} for _ in range(n)]
        e = [{'op': 'cdep', 'i': 1, 'j': i, 'd': j, 'k': r.random() < .5} for (i, j), x in zip(edges, g) if x]
        r.shuffle(e)
        yield s + e + [runop(r)]


def dags(r, n, count):
    for _ in range(count):
        o = r.sample(range(1, n + 1), n)
        s = [{'op': 'new', 'w': False}, {'op': 'suite'}] + [{'op': 'case', 'i': 1, 'b': r.choice([0, 0, 0, 0, 0, 1, 2, 9])} for _ in range(n)]
        e = [{'op': 'cdep', 'i': 1, 'j': i, 'd': j, 'k': r.random() < .5} for i in o for j in o if o.index(j) < o.index(i) and r.random() < .35]
        r.shuffle(e)
        yield s + e + [runop(r, p=r.choice([1, 2, 3])), runop(r, r.choice(['fork', 'eintr', 'none']))]


def tests(ctx, verdicts):
    r = ctx.rng
    model_check(ctx, 'SchedMC', consts={'N': str(ctx.n(3, 4))}, edges=False)
    E = model_check(ctx, 'TestsMC', consts={'Cases': '2'})
    W, tot, cov = walks(E, {'ts': []}, maxlen=60, rng=r, limit=ctx.n(60, 600))
    ctx.extra['edges_covered'] = '%d of %d' % (cov, tot)
    S = [[{'op': 'new', 'w': False}] + w for w in W]
    S += list(graphs(r, 2, None)) + list(graphs(r, 3, ctx.n(60, None))) + list(dags(r, r.choice([4, 5, 6]), ctx.n(60, 1000)))
    S += [program(r, verdicts) for _ in range(ctx.n(250, 3000))]
    S += [[{'op': 'new', 'w': False}, {'op': 'suite'}] + [{'op': 'case', 'i': 1, 'b': x} for x in r.sample([0, 14, 9, 0], 4)] + [runop(r, 'int', p=r.choice([1, 2, 32]))] for _ in range(ctx.n(4, 20))]
    exe = build_driver(ctx, build_lib(ctx), 'tests', wraps=TWRAPS)
    replay_and_validate(ctx, exe, TARGS, 'TestsTrace', S, tag='programs')
    return finish(ctx)


def w01(ctx):
    return tests(ctx, False)


def w02(ctx):
    return tests(ctx, True)
