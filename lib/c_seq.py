"""Sequence-like containers: list, priority queue, array, queue macros, binary search tree."""
from vlib import *

# ---------------------------------------------------------------- L01
LIST = {'new': [], 'add': ['p'], 'insert': ['p', 'n'], 'del': ['p'], 'deln': ['n'], 'getn': ['n'], 'clear': []}


def list_session(r):
    s, n, m = [{'op': 'new'}], 0, r.choice([3, 8, 30])
    lo = r.choice([1, 1, 0])           # null items
    for _ in range(r.randint(5, 60)):
        x = r.random()
        p = r.randint(lo, m)
        k = r.choice([0, 0, 1, max(0, n - 1), n, n, n + 1, n + 5, r.randint(0, n)])
        if x < .22:
            s.append({'op': 'add', 'p': p}); n += 1
        elif x < .5:
            s.append({'op': 'insert', 'p': p, 'n': k}); n += k <= n
        elif x < .65:
            s.append({'op': 'del', 'p': p}); n = max(0, n - 1)
        elif x < .83:
            s.append({'op': 'deln', 'n': k}); n -= k < n
        elif x < .95:
            s.append({'op': 'getn', 'n': k})
        else:
            s.append({'op': 'clear'}); n = 0
    return s


def l01(ctx):
    lib = build_lib(ctx)
    exe = build_driver(ctx, lib, 'list')
    E = model_check(ctx, 'ListMC', consts={} if ctx.quick else {'MaxLen': 5})
    W, tot, cov = walks(E, {'open': False, 'q': []}, maxlen=120, rng=ctx.rng)
    ctx.extra.update(graph_edges=tot, graph_edges_replayed=cov)
    replay_and_validate(ctx, exe, LIST, 'ListTrace', W, tag='graph')
    replay_and_validate(ctx, exe, LIST, 'ListTrace', [list_session(ctx.rng) for _ in range(ctx.n(500, 15000))], tag='random')
    return finish(ctx)


# ---------------------------------------------------------------- Q01
PQ = {'new': ['n', 'map', 'nil'], 'push': ['key', 'val'], 'delmax': [], 'peek': []}


def pq_session(r):
    cap = r.choice([2, 3, 4, 7, 8, 15, 31])
    keys = r.choice([range(-2, 3), range(-40, 41), range(-20000, 20000)])
    maps = [0, 0, 1, 2, 3, 5] + [4] * (keys.stop == 3)         # 4: infinite keys
    s, n, v = [{'op': 'new', 'n': cap, 'map': r.choice(maps), 'nil': r.choice([0, r.randint(1, 10), r.randint(1, 40)])}], 0, 0
    up = r.choice([.5, .6, .8])
    for _ in range(r.randint(5, 90)):
        x = r.random()
        if x < up:
            v += 1
            s.append({'op': 'push', 'key': r.choice(keys), 'val': v}); n = min(cap, n + 1)
        elif x < .92 or n == 0:
            s.append({'op': 'delmax'}); n = max(0, n - 1)
        else:
            s.append({'op': 'peek'})
        if r.random() < .04:
            up = r.choice([.15, .5, .85])
    while n > 0:
        s.append({'op': 'delmax'}); n -= 1
    s.append({'op': 'delmax'})
    return s


def q01(ctx):
    lib = build_lib(ctx)
    exe = build_driver(ctx, lib, 'pqueue')
    E = model_check(ctx, 'PQueueMC', consts={} if ctx.quick else {'MaxCap': 7})
    W, tot, cov = walks(E, {'cap': 0, 'h': []}, maxlen=150, rng=ctx.rng)
    for w in W:
        v = 0
        for i, o in enumerate(w):
            if o['op'] == 'new':
                w[i] = dict(o, map=ctx.rng.choice([0, 1, 2, 3, 4, 5]), nil=ctx.rng.choice([0, ctx.rng.randint(1, 6)]))
            if o['op'] == 'push':
                v += 1
                w[i] = dict(o, val=v)
    ctx.extra.update(graph_edges=tot, graph_edges_replayed=cov)
    replay_and_validate(ctx, exe, PQ, 'PQueueTrace', W, tag='graph')
    R = [pq_session(ctx.rng) for _ in range(ctx.n(500, 15000))]
    R += [[{'op': 'new', 'n': 0, 'map': 0, 'nil': 0}], [{'op': 'new', 'n': 1, 'map': 0, 'nil': 0}]]
    replay_and_validate(ctx, exe, PQ, 'PQueueTrace', R, tag='random')
    return finish(ctx)


# ---------------------------------------------------------------- A01
ARR = {'new': ['type', 'n'], 'set': ['acc', 'i', 'v', 'old'], 'get': ['acc', 'i'], 'resize': ['i']}
TYPES = ['char', 'u_char', 'short', 'u_short', 'int', 'u_int', 'long', 'u_long', 'float', 'double', 'bool', 'long_long', 'u_long_long',
         'intmax', 'u_intmax', 'long_double', 'float_complex', 'double_complex', 'long_double_complex', 'ptr']


def arr_session(r, t):
    n0 = r.choice([0, 1, 1, 2, 5, 16])
    s, top, used = [{'op': 'new', 'type': t, 'n': n0}], n0, []
    vals = [0, 1] if t == 'bool' else [0, 1, 2, 127, 128, 255]
    for _ in range(r.randint(8, 50)):
        x = r.random()
        i = r.choice([0, 1, top - 1, top, top + 1, max(0, top - 2), r.randint(0, top), top + r.randint(0, 40), -1, -2, -3,
                      top + 1023, top + 1024, top + 1025, top + 2100] + used[-3:] * 2)
        acc = t if r.random() < .93 else r.choice(TYPES)
        if x < .45:
            s.append({'op': 'set', 'acc': acc, 'i': i, 'v': r.choice(vals), 'old': r.random() < .5})
            if acc == t and i >= 0:
                used.append(i)
                top = max(top, i + 1) if r.random() < .7 else top
        elif x < .92:
            s.append({'op': 'get', 'acc': acc, 'i': i})
        else:
            s.append({'op': 'resize', 'i': i})
    for i in dict.fromkeys(used):
        s.append({'op': 'get', 'acc': t, 'i': i})
    return s


def a01(ctx):
    lib = build_lib(ctx)
    exe = build_driver(ctx, lib, 'array')
    E = model_check(ctx, 'ArrayMC', consts={} if ctx.quick else {'Vals': '{1, 2, 255}'})
    W, tot, cov = walks(E, {'type': 'none', 'lb': 0, 'k': []}, maxlen=400, rng=ctx.rng)
    ren = []
    for w in W:          # the specification is uniform in the element type: exercise every pair of types
        t = ctx.rng.choice([x for x in TYPES if x not in ('ptr', 'bool')])
        u = ctx.rng.choice([x for x in TYPES if x not in (t, 'bool')])
        m = {'int': t, 'ptr': u}
        ren.append([{k: (m.get(v, v) if k in ('type', 'acc') else v) for k, v in o.items()} for o in w])
    ctx.extra.update(graph_edges=tot, graph_edges_replayed=cov)
    replay_and_validate(ctx, exe, ARR, 'ArrayTrace', ren, tag='graph')
    R = [arr_session(ctx.rng, t) for t in TYPES for _ in range(ctx.n(30, 500))]
    replay_and_validate(ctx, exe, ARR, 'ArrayTrace', R, tag='random')
    return finish(ctx)


# ---------------------------------------------------------------- K01
QUE = {'new': ['kind'], 'head': ['e'], 'tail': ['e'], 'remove': ['e'], 'after': ['e', 'at'], 'before': ['e', 'at'],
       'replace': ['e', 'at'], 'sweep': ['par'], 'rsweep': ['par']}


def que_session(r):
    k = r.choice(['list', 'tailq', 'circleq'])
    s, q = [{'op': 'new', 'kind': k}], []
    for _ in range(r.randint(8, 60)):
        ops = ['head', 'after', 'before', 'remove', 'remove']
        ops += {'list': ['replace', 'sweep'], 'tailq': ['tail', 'tail', 'sweep', 'rsweep'], 'circleq': ['tail', 'tail']}[k]
        op = r.choice(ops)
        out = [i for i in range(1, 13) if i not in q]
        if op in ('after', 'before', 'replace', 'remove') and not q or op not in ('remove', 'sweep', 'rsweep') and not out:
            continue
        if op in ('sweep', 'rsweep'):
            if r.random() < .4:
                p = r.choice([0, 1])
                s.append({'op': op, 'par': p})
                q = [x for x in q if x % 2 != p]
            continue
        if op == 'remove':
            e = r.choice([q[0], q[-1], r.choice(q)])
            q.remove(e)
            s.append({'op': op, 'e': e})
            continue
        e = r.choice(out)
        if op == 'head':
            q.insert(0, e); s.append({'op': op, 'e': e})
        elif op == 'tail':
            q.append(e); s.append({'op': op, 'e': e})
        else:
            at = r.choice(q); i = q.index(at)
            s.append({'op': op, 'e': e, 'at': at})
            if op == 'replace':
                q[i] = e
            else:
                q.insert(i + (op == 'after'), e)
    return s


def k01(ctx):
    lib = build_lib(ctx)
    exe = build_driver(ctx, lib, 'queue')
    E = model_check(ctx, 'QueueMC', consts={} if ctx.quick else {'E': '{1, 2, 3, 4, 5}'})
    W, tot, cov = walks(E, {'kind': 'none', 'q': []}, maxlen=150, rng=ctx.rng)
    ctx.extra.update(graph_edges=tot, graph_edges_replayed=cov)
    replay_and_validate(ctx, exe, QUE, 'QueueTrace', W, tag='graph')
    replay_and_validate(ctx, exe, QUE, 'QueueTrace', [que_session(ctx.rng) for _ in range(ctx.n(400, 10000))], tag='random')
    return finish(ctx)


# ---------------------------------------------------------------- T01
BSTA = {'new': ['mode', 'rev', 'kt', 'vt', 'seed'], 'push': ['k', 'v'], 'delete': ['k'], 'search': ['k'], 'nth': ['n'], 'balance': [],
        'free': []}


def bst_session(r):
    mode, kt = r.choice(['bottom', 'top', 'rand', 'rand']), r.choice(['string', 'opaque', 'ptr'])
    s = [{'op': 'new', 'mode': mode, 'rev': r.random() < .3, 'kt': kt, 'vt': 2 if kt == 'ptr' else r.choice([0, 1]),
          'seed': r.randint(1, 10**6)}]
    span = r.choice([3, 8, 40, 1000])
    n, present = 0, []
    grow = r.choice([.4, .55, .7])
    for _ in range(r.randint(8, 45)):
        x = r.random()
        k = r.choice(present) if present and r.random() < .6 else r.randint(-span, span)
        if x < grow:
            n += 1
            k = r.randint(-span, span)
            s.append({'op': 'push', 'k': k, 'v': n}); present.append(k)
        elif x < grow + .18:
            s.append({'op': 'delete', 'k': k})
            if k in present:
                present.remove(k)
        elif x < grow + .25:
            s.append({'op': 'search', 'k': k})
        elif x < grow + .33:
            s.append({'op': 'nth', 'n': r.choice([0, len(present), max(0, len(present) - 1), r.randint(0, len(present) + 2)])})
        elif x < grow + .38:
            s.append({'op': 'balance'})
    s.append({'op': 'free'})
    return s


def t01(ctx):
    lib = build_lib(ctx)
    exe = build_driver(ctx, lib, 'bst')
    E = model_check(ctx, 'BSTMC', consts={} if ctx.quick else {'MaxN': 6})
    E = [e for e in E if not e[0].startswith('rand') and not e[2].startswith('rand')]
    W, tot, cov = walks(E, 'none', maxlen=250, rng=ctx.rng)
    for w in W:
        v = 0
        kt = ctx.rng.choice(['string', 'opaque', 'ptr'])
        vt = 2 if kt == 'ptr' else ctx.rng.choice([0, 1])
        for i, o in enumerate(w):
            if o['op'] == 'new':
                w[i] = dict(o, kt=kt, vt=vt, seed=1)
            if o['op'] == 'push':
                v += 1
                w[i] = dict(o, v=v)
        w.append({'op': 'free'})
    ctx.extra.update(graph_edges=tot, graph_edges_replayed=cov)
    replay_and_validate(ctx, exe, BSTA, 'BSTTrace', W, tag='graph')
    replay_and_validate(ctx, exe, BSTA, 'BSTTrace', [bst_session(ctx.rng) for _ in range(ctx.n(700, 15000))], tag='random')
    return finish(ctx)
