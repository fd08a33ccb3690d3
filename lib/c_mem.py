"""Refused memory requests in every component (D01)."""
from vlib import *
import c_seq, c_rb, c_buf, c_hmap, c_json, c_uri, c_misc, c_sys

KS = [1, 1, 1, 2, 2, 3, 4, 5]


def doc(s, r, keep=(), rate=.3, first='new', last=None, where=None, retry=None):
    """a session with memory requests refused in some of its operations, created by newm and released under observation"""
    out = []
    for i, o in enumerate(s):
        if o['op'] == first and r.random() < .5:
            out.append(dict(o, op=first + 'm'))
            continue
        if o['op'] in keep or (o['op'] == 'new' and first == 'new'):
            out.append(o)
            continue
        if o.get('mem') is True or (r.random() < rate and (where is None or o['op'] in where)):
            o = {k: v for k, v in o.items() if k != 'mem'}
            o['rt'] = o['op'] == 'create' or (r.random() < .5 if retry is None else retry)
            o['mk'] = 1 if o['op'] == 'new' else r.choice(KS)      # a refused node leaves its slot free
        out.append(o)
    if last:
        out.append({'op': last})
    return out


def sweep(s, i, ks=8):
    """the session with its i-th operation run with the 1st, 2nd, ... request refused"""
    return [s[:i] + [dict(s[i], mk=k, rt=True)] + s[i + 1:] for k in range(1, ks + 1)]


def d01(ctx):
    r = ctx.rng
    lib = build_lib(ctx)
    jobs = []

    def exe(name, wraps=()):
        return build_driver(ctx, lib, name, wraps=wraps)

    def graph(M, init, maxlen=150, **consts):
        E = model_check(ctx, M + 'MemMC', consts=consts)
        W, tot, cov = walks(E, init, maxlen=maxlen, rng=r)
        ctx.extra['graph_edges'] = ctx.extra.get('graph_edges', 0) + tot
        ctx.extra['graph_edges_replayed'] = ctx.extra.get('graph_edges_replayed', 0) + cov
        return W

    def go(e, args, M, S):
        replay_and_validate(ctx, e, args, M + 'MemTrace', S, tag='mem-' + M, samples=1)
    n = ctx.n
    # list
    W = graph('List', {'open': False, 'q': []}, MaxLen=n(3, 4))
    go(exe('list'), dict(c_seq.LIST, newm=[], free=[]), 'List',
       [doc(w, r, rate=0, last='free') for w in W] + [doc(c_seq.list_session(r), r, last='free') for _ in range(n(120, 3000))])
    # priority queue
    go(exe('pqueue'), dict(c_seq.PQ, newm=c_seq.PQ['new'], free=[]), 'PQueue', [doc(c_seq.pq_session(r), r, last='free') for _ in range(n(80, 2000))])
    # array
    W = graph('Array', {'type': 'none', 'lb': 0, 'k': []}, maxlen=400)
    ren = []
    for w in W:
        t, u = r.sample([x for x in c_seq.TYPES if x not in ('bool',)], 2)
        m = {'int': t, 'ptr': u}
        ren.append(doc([{k: (m.get(v, v) if k in ('type', 'acc') else v) for k, v in o.items()} for o in w], r, rate=0, last='free'))
    go(exe('array'), dict(c_seq.ARR, newm=['type', 'n'], free=[]), 'Array',
       ren + [doc(c_seq.arr_session(r, t), r, last='free') for t in c_seq.TYPES for _ in range(n(8, 150))])
    # search tree
    B = [c_seq.bst_session(r) for _ in range(n(150, 4000))]
    S = [doc(s, r, keep=('free',), rate=.4) for s in B]
    for s in B[:n(25, 500)]:
        p = [i for i, o in enumerate(s) if o['op'] == 'push']
        if p:
            S += sweep(s, r.choice(p), 4)
    go(exe('bst'), dict(c_seq.BSTA, newm=c_seq.BSTA['new']), 'BST', S)
    # ring buffer
    go(exe('rb'), dict(c_rb.ARGS, newm=c_rb.ARGS['new'], freem=[]), 'RingBuffer',
       [doc([o for o in c_rb.rand_session(r) if o['op'] != 'free'], r, last='freem') for _ in range(n(60, 2000))])
    # lexer
    go(exe('lexer'), dict(c_json.LEX, newm=['t'], free=[]), 'Lexer', [doc(c_json.lex_session(r), r, last='free') for _ in range(n(80, 2000))])
    # buffers
    W = graph('Buf', {'d': [], 'fs': [[-1], [-1]]})
    W = [[{'op': 'new'}] + w + [{'op': 'free'}] for w in W]
    go(exe('buf'), dict(c_buf.BUF, newm=[]), 'Buf', [doc(w, r, rate=0, keep=('free',)) for w in W]
       + [doc(c_buf.buf_session(r), r, keep=('free', 'detach', 'write'), rate=.4) for _ in range(n(120, 3000))])
    # strings
    W = graph('Str', {'t': [[-1], [-1]]}, maxlen=200)
    W = [[{'op': 'new'}] + [o for o in w if not (o['op'] == 'create' and o.get('mem'))] + [{'op': 'end'}] for w in W]
    go(exe('str'), dict(c_buf.STR, createm=c_buf.STR['create']), 'Str',
       [doc(w, r, rate=0, first='create', keep=('end', 'free', 'create')) for w in W]
       + [doc(c_buf.str_session(r), r, first='create', keep=('end', 'free'), rate=.4) for _ in range(n(120, 3000))])
    # hash map
    cl = dict(o=False, p='none', w=False, u=True, q=[])
    hargs = dict(c_hmap.HM, newm=c_hmap.HM['new'])
    e = exe('hmap')
    S = []
    for consts in ([dict(Ks='{1, 2}', MaxN='3', Two='TRUE', Pcys='{"none", "lru"}')] if ctx.quick else [{}, dict(Ks='{1, 2}', MaxN='3', Two='TRUE')]):
        W = graph('HMap', [cl, cl], maxlen=100, **consts)
        S += [doc(c_hmap.dress(r, w), r, rate=0, keep=('free',)) for w in W]
    for _ in range(n(200, 5000)):
        s = c_hmap.session(r, c_hmap.PCY, two=.3, nops=(8, 40))
        S.append(doc(s, r, keep=('free', 'clear'), rate=.35))
        if r.random() < .3:
            p = [i for i, o in enumerate(s) if o['op'] in ('put', 'copy')]
            if p:
                S += sweep(s, r.choice(p), 6)
    go(e, hargs, 'HMap', S)
    # JSON trees
    K = ('get', 'look', 'nth', 'walk', 'end', 'free')
    W = graph('JTree', c_json.INITJ(2), maxlen=200, MaxNode=2, Types='{"o", "s"}' if ctx.quick else '{"o", "a", "s"}')
    S = [doc(w + [{'op': 'end'}], r, rate=0, keep=K, first='-', retry=False) for w in W]
    for _ in range(n(150, 4000)):
        s = c_json.j_session(r, r.choice(['edit', 'enc', 'index']))
        S.append(doc(s, r, keep=K, rate=.25, first='-', retry=True))
        p = [i for i, o in enumerate(s) if o['op'] in ('dec', 'index', 'enc', 'new', 'settv')]
        if p and r.random() < .4:
            S += sweep(s, r.choice(p), 9)
    go(exe('json'), c_json.JARGS, 'JTree', S)
    # URIs
    S = []
    for _ in range(n(150, 3000)):
        t = c_uri.ruri(r)
        if r.random() < .3:
            t = c_uri.mutate(r, t)
        S.append([{'op': 'new'}] + [x for k in (1, 2, 3, 4) for x in ({'op': 'parse', 't': list(t), 'split': k % 2 == 0, 'mk': k}, {'op': 'isabs', 't': list(t), 'mk': k}, {'op': 'knead', 'mk': k})])
    S += [doc(c_uri.uobj(r), r, first='-', where=('parse', 'knead', 'isabs')) for _ in range(n(80, 2000))]
    go(exe('uri'), c_uri.ARGS, 'Uri', S)
    # helpers that hand out memory
    C = []
    for k in range(0, 45):
        s = [c for i in range(k) for c in [97 + i % 26] * r.randint(1, 3) + [44] * r.choice([1, 1, 1, 3])]
        C += [{'op': 'strtok', 's': s, 'd': b(','), 'mk': m} for m in ((1, 2, 3, r.randint(3, 8)) if ctx.quick else range(1, 60))]
    for l in (0, 1, 5, 200):
        s = [r.randint(1, 255) for _ in range(l)]
        for m in (1, 2, 3):
            C += [{'op': 'strdup', 's': s, 'mk': m}, {'op': 'strndup', 's': s, 'n': l // 2, 'mk': m}, {'op': 'memdup', 's': s, 'mk': m},
                  {'op': 'load', 'where': 'file', 's': s, 'n': l + 5, 'mk': m}, {'op': 'load', 'where': 'dir', 's': [], 'n': 5, 'mk': m}]
    go(exe('misc', ['read', 'write', 'sleep']), c_misc.ARGS, 'Misc', [C[i:i + 40] for i in range(0, len(C), 40)])
    # settings
    go(exe('env', ['popen', 'setenv']), c_sys.VARGS, 'Env', [doc(c_sys.envs(r, 6), r, rate=.6, first='-', where=('load',)) for _ in range(n(60, 1500))])
    # passwords
    S = [doc(c_sys.pwds(r, 20), r, rate=.4, keep=('term',), where=('retr', 'auth')) for _ in range(n(120, 3000))]
    for o in [o for s in S for o in s]:
        if 'mk' in o:
            o['mk'] = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 30])
    go(exe('pwd', ['stat', 'fopen', 'fclose']), dict(c_sys.PARGS, newm=c_sys.PARGS['new']), 'Pwd', S)
    ctx.extra['fault'] = 'the k-th memory request of one operation'
    return finish(ctx)
