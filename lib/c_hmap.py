"""Hash map: contents (H01), discard policies (H02), ownership (H03)."""
from vlib import *

HM = {'new': ['m', 'pcy', 'max', 'own', 'ow', 'fk', 'fv', 'size', 'type', 'hash', 'kt', 'vt', 'easy', 'of', 'strong'],
      'put': ['m', 'k', 'v'], 'get': ['m', 'k'], 'del': ['m', 'k'], 'clear': ['m'], 'free': ['m'], 'copy': ['m', 'from'], 'dbg': ['m']}
PCY = ['none', 'fifo', 'lru', 'lfu', 'custom']


def config(r, own, easy_ok=True):
    easy = easy_ok and own and r.random() < .3
    kt, vt = (0 if easy else r.choice([0, 0, 1, 2])), r.choice([0, 1, 2])
    fk = own and kt == 2
    fv = own and vt == 2
    h = r.choice([0, 0, 1, 2, 3, 4, 5])
    return dict(fk=fk, fv=fv, size=r.choice([1, 1, 2, 14, 100]), type=r.randint(0, 1), hash=h, kt=kt, vt=vt, easy=easy,
                of=own and not easy and r.random() < .15, strong=h != 5 and h != 0 and r.random() < .7)


def dress(r, w):
    """concrete configuration for a walk of the abstract graph, with distinct values"""
    cfg, out, n = None, [], 0
    for o in w:
        if o['op'] == 'new':
            if o['m'] == 1:
                cfg = config(r, o['own'])
            o = dict(o, **dict(cfg, **({} if o['m'] == 1 else dict(type=r.randint(0, 1), size=r.choice([1, 14])))))
        elif o['op'] == 'put':
            n += 1
            o = dict(o, v=3 * n + o['v'] % 3)
        out.append(o)
    ms = [i for i in (1, 2) if any(o['op'] == 'new' and o['m'] == i for o in w)]
    return out + [{'op': 'free', 'm': i} for i in ms]


def session(r, pcys, two=.25, nops=(10, 70)):
    pcy = r.choice(pcys)
    own = r.random() < .7
    span = r.choice([3, 6, 12, 30, 60, 150])
    mx = r.choice([1, 2, 3, 4, 7, 12, 20])
    ow = r.random() < .5
    cfg = config(r, own)
    s = [dict({'op': 'new', 'm': 1, 'pcy': pcy, 'max': mx, 'own': own, 'ow': ow}, **cfg)]
    open2 = False
    if r.random() < two:
        p2 = r.choice([pcy, 'none'])
        s.append(dict({'op': 'new', 'm': 2, 'pcy': p2, 'max': r.choice([2, 5]), 'own': own, 'ow': r.random() < .5},
                      **dict(cfg, type=r.randint(0, 1), size=r.choice([1, 14]), hash=r.choice([cfg['hash'], 1]))))
        open2 = True
    n, cur = 0, {1: [], 2: []}      # (rough) recent keys
    present = {1: set(), 2: set()}
    up = r.choice([.35, .5, .7])
    for _ in range(r.randint(*nops)):
        m = 2 if open2 and r.random() < .4 else 1
        k = r.choice(cur[m][-12:]) if cur[m] and r.random() < .5 else r.randint(1, span)
        x = r.random()
        if x < up:
            n += 1
            k = r.choice(cur[m][-12:]) if cur[m] and r.random() < .25 else r.randint(1, span)
            s.append({'op': 'put', 'm': m, 'k': k, 'v': 3 * n + r.randint(0, 2)})
            cur[m].append(k); present[m].add(k)
        elif x < up + .18:
            s.append({'op': 'get', 'm': m, 'k': k})
        elif x < .94:
            s.append({'op': 'del', 'm': m, 'k': k}); present[m].discard(k)
        elif x < .95:
            s.append({'op': 'dbg', 'm': m})
        elif x < .97:
            s.append({'op': 'clear', 'm': m}); present[m] = set()
        elif open2:
            # moving into a map with a discard policy is nondeterministic: keep it small; objects owned by the user
            # must not be discarded or refused during the move
            f = 3 - m
            tgt = s[m - 1]
            ok = (tgt['pcy'] == 'none' or len(present[f]) <= 4)
            if not own:
                ok = tgt['pcy'] == 'none' and not (present[1] & present[2])
            if ok:
                s.append({'op': 'copy', 'm': m, 'from': f})
                present[m] |= present[f]; present[f] = set(); cur[m] += cur[f]
        elif r.random() < .2:
            s.append({'op': 'copy', 'm': m, 'from': m})
    s.append({'op': 'free', 'm': 1})
    if open2:
        s.append({'op': 'free', 'm': 2})
    return s


def hm(ctx, runs, pcys, own_only=None, nrand=(400, 12000), two=.25):
    lib = build_lib(ctx)
    exe = build_driver(ctx, lib, 'hmap')
    cl = dict(o=False, p='none', w=False, u=True, q=[])
    tot = cov = 0
    for consts in runs:
        E = model_check(ctx, 'HMapMC', consts=consts)
        W, t, c = walks(E, [cl, cl], maxlen=100, rng=ctx.rng)
        tot += t; cov += c
        replay_and_validate(ctx, exe, HM, 'HMapTrace', [dress(ctx.rng, w) for w in W], tag='graph%d' % len(ctx.ops))
    ctx.extra.update(graph_edges=tot, graph_edges_replayed=cov)
    R = []
    for _ in range(ctx.n(*nrand)):
        s = session(ctx.rng, pcys, two)
        R.append(s)
    replay_and_validate(ctx, exe, HM, 'HMapTrace', R, tag='random')
    return finish(ctx)


def h01(ctx):
    runs = [dict(Pcys='{"none"}', Ks='{1, 2, 3}' if ctx.quick else '{1, 2, 3, 4}', MaxN='3' if ctx.quick else '4'),
            dict(Pcys='{"none"}', Ks='{1, 2}', MaxN='3' if ctx.quick else '4', Two='TRUE')]
    return hm(ctx, runs, ['none'], two=.3)


def h02(ctx):
    runs = [dict(Pcys='{"fifo", "lru"}', Ks='{1, 2, 3, 4}', MaxE='3', MaxN='9'),
            dict(Pcys='{"lfu"}', Ks='{1, 2, 3}', MaxE='2', MaxN='9'),
            dict(Pcys='{"custom"}', Ks='{1, 2, 3}', MaxE='2', MaxN='9', Vs='{0, 1, 2}')]
    if not ctx.quick:
        runs += [dict(Pcys='{"lfu"}', Ks='{1, 2, 3, 4}', MaxE='3', MaxN='9'),
                 dict(Pcys='{"custom"}', Ks='{1, 2, 3, 4}', MaxE='3', MaxN='9', Vs='{0, 1}')]
    return hm(ctx, runs, ['fifo', 'lru', 'lfu', 'custom'], two=.15)


def h03(ctx):
    runs = [dict(Ks='{1, 2, 3}', MaxE='2', MaxN='3'), dict(Ks='{1, 2}', MaxE='1', MaxN='3', Two='TRUE')]
    return hm(ctx, runs, PCY, two=.3)
