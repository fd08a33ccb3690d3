"""Growable buffer and string objects."""
from vlib import *

BUF = {'new': [], 'append': ['b'], 'set': ['b'], 'printf': ['kind', 's', 'n'], 'reserve': ['n'], 'huge': [], 'shrink': ['n'], 'clear': [],
       'detach': [], 'write': ['f', 'b'], 'save': ['f'], 'load': ['f'], 'savefull': [], 'savedir': [], 'loaddir': [], 'free': []}
EDGE = [0, 1, 2, 3, 15, 16, 31, 32, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257]


def size(r, big=False):
    x = r.random()
    if x < .55:
        return r.randint(0, 12)
    if x < .93 or not big:
        return r.choice(EDGE)
    return r.randint(258, 3000)


def text(r, n, nul=False):
    return [r.randint(0 if nul else 1, 255) if r.random() < .5 else r.choice(b'ab \t%') for _ in range(n)]


def buf_session(r):
    s, n = [{'op': 'new'}], 0
    big = r.random() < .1
    for _ in range(r.randint(5, 30)):
        x = r.random()
        if n > 900 and not big:
            s.append({'op': r.choice(['clear', 'detach'])}); n = 0
        elif x < .2:
            k = size(r, big)
            s.append({'op': 'append', 'b': text(r, k, True)}); n += k
        elif x < .28:
            k = size(r, big)
            s.append({'op': 'set', 'b': text(r, k, True)}); n = k
        elif x < .52:
            kind = r.choice(['s', 's', 's', 'd', 'sd', 'pad', 'lit', 'empty', 'bad'])
            k = size(r, big)
            m = r.choice([-5, 0, 7, 2**31 - 1, -2**31 + 1]) if kind != 'pad' else size(r)
            s.append({'op': 'printf', 'kind': kind, 's': text(r, k), 'n': m}); n += k + 10
        elif x < .6:
            s.append({'op': 'reserve', 'n': r.choice([n, n + 1, n + 10, n + 128, r.randint(0, 600), 1, 0])})
        elif x < .7:
            k = r.choice([n, n - 1, n // 2, 0, 1, n + 1, r.randint(0, max(1, n))])
            s.append({'op': 'shrink', 'n': max(0, k)}); n = min(n, max(0, k))
        elif x < .74:
            s.append({'op': 'clear'}); n = 0
        elif x < .78:
            s.append({'op': 'detach'}); n = 0
        elif x < .83:
            s.append({'op': 'write', 'f': r.choice([1, 2]), 'b': text(r, size(r, big), True)})
        elif x < .88:
            s.append({'op': 'save', 'f': r.choice([1, 2])})
        elif x < .96:
            s.append({'op': 'load', 'f': r.choice([1, 2])}); n += 20
        else:
            s.append({'op': r.choice(['huge', 'savefull', 'savedir', 'loaddir'])})
    s.append({'op': 'free'})
    return s


def b01(ctx):
    exe = build_driver(ctx, build_lib(ctx), 'buf')
    E = model_check(ctx, 'BufMC', consts={} if ctx.quick else {'MaxLen': 4, 'MaxF': 2})
    W, tot, cov = walks(E, {'d': [], 'fs': [[-1], [-1]]}, maxlen=150, rng=ctx.rng)
    W = [[{'op': 'new'}] + w + [{'op': 'free'}] for w in W]
    ctx.extra.update(graph_edges=tot, graph_edges_replayed=cov)
    replay_and_validate(ctx, exe, BUF, 'BufTrace', W, tag='graph')
    replay_and_validate(ctx, exe, BUF, 'BufTrace', [buf_session(ctx.rng) for _ in range(ctx.n(500, 12000))], tag='random')
    return finish(ctx)


STR = {'new': [], 'end': [], 'create': ['w', 's', 'n'], 'set': ['w', 's', 'n'], 'append': ['w', 's', 'n'], 'cat': ['w', 's'],
       'sprintf': ['w', 'kind', 's', 'n'], 'aprintf': ['w', 'kind', 's', 'n'], 'copy': ['w', 'from'], 'trim': ['w'], 'clear': ['w'],
       'reserve': ['w', 'n'], 'huge': ['w'], 'setlen': ['w', 'n'], 'free': ['w'], 'detach': ['w']}


def str_session(r):
    s, n = [{'op': 'new'}], [None, None, None]
    big = r.random() < .08
    for _ in range(r.randint(6, 30)):
        w = r.choice([1, 1, 2])
        k = size(r, big)
        t = text(r, k)
        ln = r.choice([k, k, k, k, max(0, k - 1), k + 1, k // 2, k + 70])
        if n[w] is None:
            s.append({'op': 'create', 'w': w, 's': t if r.random() < .7 else None, 'n': ln})
            if s[-1]['s'] is None:
                s[-1]['s'], k = [-1], 0
            n[w] = k
            continue
        x = r.random()
        if n[w] > 800 and not big:
            s.append({'op': 'clear', 'w': w}); n[w] = 0
        elif x < .08:
            s.append({'op': 'set', 'w': w, 's': t, 'n': ln}); n[w] = k
        elif x < .32:
            s.append({'op': 'append', 'w': w, 's': t, 'n': ln}); n[w] += k
        elif x < .36:
            s.append({'op': 'cat', 'w': w, 's': t}); n[w] += k
        elif x < .58:
            kind = r.choice(['s', 's', 's', 'd', 'sd', 'pad', 'lit', 'empty', 'bad'])
            m = r.choice([-5, 0, 7, 2**31 - 1]) if kind != 'pad' else size(r)
            s.append({'op': r.choice(['sprintf', 'aprintf', 'aprintf']), 'w': w, 'kind': kind, 's': t, 'n': m}); n[w] += k
        elif x < .66 and n[3 - w] is not None:
            f = r.choice([3 - w, 3 - w, w])
            s.append({'op': 'copy', 'w': w, 'from': f}); n[w] = n[f]
        elif x < .74:
            s.append({'op': 'trim', 'w': w})
        elif x < .78:
            s.append({'op': 'clear', 'w': w}); n[w] = 0
        elif x < .85:
            s.append({'op': 'reserve', 'w': w, 'n': r.choice([0, 1, n[w], n[w] + 1, n[w] + 64, r.randint(0, 500)])})
        elif x < .93:
            m = max(0, r.choice([n[w], n[w] - 1, n[w] // 2, n[w] + 1, 0, r.randint(0, n[w] + 1)]))
            s.append({'op': 'setlen', 'w': w, 'n': m})
        elif x < .95:
            s.append({'op': r.choice(['set', 'append']), 'w': w, 's': [-1], 'n': 0})
        elif x < .96:
            s.append({'op': 'huge', 'w': w})
        else:
            s.append({'op': r.choice(['free', 'detach']), 'w': w}); n[w] = None
    s.append({'op': 'end'})
    return s


def s01(ctx):
    exe = build_driver(ctx, build_lib(ctx), 'str')
    E = model_check(ctx, 'StrMC', consts={} if ctx.quick else {'MaxLen': 3})
    W, tot, cov = walks(E, {'t': [[-1], [-1]]}, maxlen=200, rng=ctx.rng)
    W = [[{'op': 'new'}] + w + [{'op': 'end'}] for w in W]
    ctx.extra.update(graph_edges=tot, graph_edges_replayed=cov)
    replay_and_validate(ctx, exe, STR, 'StrTrace', W, tag='graph')
    replay_and_validate(ctx, exe, STR, 'StrTrace', [str_session(ctx.rng) for _ in range(ctx.n(500, 12000))], tag='random')
    return finish(ctx)
