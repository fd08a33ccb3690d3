from vlib import *

ARGS = {'new': ['kind', 'hint'], 'write': ['n'], 'read': ['n'], 'fast': ['n'], 'clear': [], 'free': []}


def rand_session(r):
    kind = r.choice(['malloc', 'mallocc', 'mmap', 'mmapc'])
    hint = r.choice([1, 2, 3, 5, 7, 16, 64, 100, 251, 252, 1000]) if kind.startswith('mall') else r.choice([0, 1, 4095, 4096, 4097, 8192, 9000])
    cap = hint if kind.startswith('mall') else max(1, -(-hint // 4096)) * 4096
    s = [{'op': 'new', 'kind': kind, 'hint': hint}]
    n, bias = 0, r.random()
    for _ in range(r.randint(5, 60)):
        x = r.random()
        sz = r.choice([0, 1, 2, cap // 2, cap - 1, cap, cap + 1, cap - n, n, max(0, cap - n - 1), cap - n + 1, n + 1,
                       r.randint(0, cap), r.randint(0, cap)])
        if x < .48 * (.5 + bias):
            s.append({'op': 'write', 'n': sz})
            if sz <= cap:
                n += min(sz, cap - n)
        elif x < .95:
            op = r.choice(['read', 'read', 'fast']) if kind != 'mmap' else r.choice(['read', 'read', 'read', 'fast'])
            s.append({'op': op, 'n': sz})
            if sz <= cap and (op == 'read' or kind in ('mallocc', 'mmapc')):
                n -= min(sz, n)
        else:
            s.append({'op': 'clear'})
            n = 0
    s.append({'op': 'free'})
    return s


def r01(ctx):
    lib = build_lib(ctx)
    exe = build_driver(ctx, lib, 'rb')
    caps = '{0, 1, 2, 3, 4, 5}' if ctx.quick else '{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}'
    E = model_check(ctx, 'RingBufferMC', consts={'Caps': caps})
    init = {'kind': 'none', 'cap': 0, 'n': 0, 'off': 0}
    W, total, cov = walks(E, init, maxlen=80, rng=ctx.rng)
    ctx.extra['graph_edges'] = total
    ctx.extra['graph_edges_replayed'] = cov
    replay_and_validate(ctx, exe, ARGS, 'RingBufferTrace', W, tag='graph')
    R = [rand_session(ctx.rng) for _ in range(ctx.n(600, 20000))]
    replay_and_validate(ctx, exe, ARGS, 'RingBufferTrace', R, tag='random')
    return finish(ctx)
