"""URI parsing and composition."""
from vlib import *

ARGS = {'new': [], 'parse': ['t', 'split'], 'isabs': ['t'], 'set': ['f', 'null', 'v'], 'knead': [], 'print': ['ext']}
UN = b'abzAZ019-._~'
SUB = b"!$&'()*+,;="


def comp(r, extra, n=None, pct=.15):
    n = r.choice([0, 1, 1, 2, 3, 6, 12]) if n is None else n
    o = b''
    while len(o) < n:
        x = r.random()
        if x < pct and len(o) + 3 <= n:
            o += b'%%%02x' % r.randrange(256) if r.random() < .5 else b'%%%02X' % r.randrange(256)
        elif x < .4:
            o += bytes([r.choice(SUB + extra)])
        else:
            o += bytes([r.choice(UN)])
    return o


def size(r):
    return r.choice([None] * 12 + [30, 100, 120, 123, 124, 125, 126, 127, 128, 129, 200])


def rhost(r):
    x = r.random()
    if x < .3:
        return b'.'.join(b'%d' % r.choice([0, 1, 9, 10, 99, 100, 127, 199, 249, 255]) for _ in range(4))
    if x < .4:
        return b'.'.join(r.choice([b'0', b'1', b'01', b'256', b'300', b'1000', b'a', b'', b'25']) for _ in range(r.choice([3, 4, 4, 5])))
    if x < .55:
        return b'[' + r.choice([b'::1', b'::', b'fe80::1%25eth0', b'v1.x:y', b'v1.x', b'1:2:3:4:5:6:7:8', b'::1.2.3.4', comp(r, b':@', size(r)) or b':']) + b']'
    return comp(r, b'', size(r))


def ruri(r):
    t = r.choice([b'http', b'ftp', b'a', b'x-y.z+1', b'tcp4', b'H', comp(r, b'', size(r), 0) if r.random() < .3 else b's']) + b':'
    if r.random() < .7:
        t += b'//'
        if r.random() < .4:
            t += r.choice([comp(r, b':', size(r)), comp(r, b'') + b':' + comp(r, b':'), b':', b':p', b'u:', b'']) + b'@'
        t += rhost(r)
        if r.random() < .4:
            t += b':' + r.choice([b'', b'80', b'65536', b'http', b'a_b-c.d', b'*', b'*1', b'1*', b'**', b'-', bytes(r.choice(b'0123456789') for _ in range(size(r) or 3))])
        if r.random() < .6:
            t += b'/' + comp(r, b':@/', size(r))
    else:
        t += r.choice([b'', b'/', b'']) + comp(r, b':@//', size(r))
    if r.random() < .4:
        t += b'?' + comp(r, b':@/?', size(r))
    if r.random() < .4:
        t += b'#' + comp(r, b':@/?', size(r))
    return t


def mutate(r, t):
    t = bytearray(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        p = r.randint(0, len(t))
        x = r.random()
        c = r.choice(b':/?#[]@%% "<>\\^`{|}\x01\x7f\x80\xff=0aZg')
        if x < .5:
            t[p:p] = bytes([c])
        elif x < .7 and p < len(t):
            t[p] = c
        elif x < .85:
            del t[p:p + r.randint(1, 3)]
        else:
            q = r.randint(0, len(t))
            t[p:p] = t[q:q + r.randint(1, 8)]
    return bytes(c for c in t if c)


def chunked(C, k=40):
    # every session starts from a fresh object
    return [[{'op': 'new'}] + C[i:i + k] for i in range(0, len(C), k)]


def u01(ctx):
    r = ctx.rng
    C = []
    for w, q, t in ((1, 5, 6), (2, 4, 6), (3, 5, 6), (4, 4, 5)):
        C += [e[1] for e in model_check(ctx, 'UriMC', consts={'Which': w, 'MaxLen': q if ctx.quick else t})]
    ctx.extra['texts_enumerated'] = len(C)
    C += [{'op': 'isabs', 't': c['t']} for c in r.sample(C, min(len(C), ctx.n(1500, 20000)))]
    for c in range(1, 256):     # every byte in every component
        for f in (b'a%cb:p', b'%ca:p', b's://u%c:p@h/', b's://u:p%c@h', b's://h%ci/p', b's://[:%c]/', b's://h:8%c', b's://h/a%cb', b's:a%c', b's:%c',
                  b's:/%c', b's:a?q%c', b's://h#f%c', b's:%%4%c', b's:%%%c1x'):
            C.append({'op': 'parse', 't': list(f % c), 'split': True})
    D = b':/?#[]@%*-._!0aZ'     # every pair of delimiters in every component
    for f in (b'a%c%c:p', b's://u:p%c%c@h', b's://h%c%c/p', b's://[%c%c]/', b's://h:%c%c/', b's:/%c%c', b's:%c%c', b's:a?q%c%c', b's://h#%c%c'):
        C += [{'op': 'parse', 't': list(f % (a, b)), 'split': True} for a in D for b in D]
    for n in list(range(118, 131)) + [255, 256, 257, 1000, 5000]:    # component lengths
        L = b'a' * n
        for f in (b'%s:p', b's://%s@h/', b's://u:%s@h/', b's://%s:p@h', b's://%s/p', b's://%s', b's://[::%s]', b's://[::%s]/', b's://h:%s', b's://h:%s/', b's://h/%s',
                  b's:%s', b's:/%s?q', b's:p?%s', b's:p?%s#f', b's:p#%s', b's://%s@%s:8/'):
            C.append({'op': 'parse', 't': list(f.replace(b'%s', L)), 'split': True})
    for _ in range(ctx.n(2500, 60000)):
        t = ruri(r)
        if r.random() < .45:
            t = mutate(r, t)
        C.append({'op': 'isabs', 't': list(t)} if r.random() < .15 else {'op': 'parse', 't': list(t), 'split': r.random() < .85})
    exe = build_driver(ctx, build_lib(ctx), 'uri')
    replay_and_validate(ctx, exe, ARGS, 'UriTrace', chunked(C), tag='texts')
    return finish(ctx)


FIELDS = ['scheme', 'userinfo', 'user', 'pwd', 'host', 'port', 'authority', 'path', 'query', 'fragment']


def uobj(r):
    s = [{'op': 'new'}]
    if r.random() < .5:
        t = ruri(r)
        while len(t) > 100:
            t = ruri(r)
        s.append({'op': 'parse', 't': list(b's://u:p@h:8/p?q#f' if r.random() < .3 else t), 'split': r.random() < .8})
    for _ in range(r.randint(2, 25)):
        x = r.random()
        if x < .3:
            s.append({'op': 'knead'} if r.random() < .8 else {'op': 'print', 'ext': r.random() < .7})
        elif x < .9:
            f = r.choice(FIELDS + ['host', 'port', 'path'])
            v = comp(r, b'', r.choice([None] * 8 + [126, 127, 128, 129, 300]))
            if f == 'scheme':
                v = r.choice([b'http', b'a', b''])
            elif f == 'host':
                v = r.choice([b'h', b'::1', b'1.2.3.4', b'', v])
            elif f == 'path':
                v = r.choice([b'', b'/', b'p', b'/p', b'//p', b'/' + v, v])
            elif f == 'authority':
                v = r.choice([b'', b'h', b'u@h:1', v])
            elif f == 'port':
                v = r.choice([b'80', b'', b'svc'])
            elif r.random() < .25:
                v = b''
            s.append({'op': 'set', 'f': f, 'null': r.random() < .03, 'v': list(v)})
        else:
            s.append({'op': 'new'})
    s.append({'op': 'knead'})
    return s


def u02(ctx):
    r = ctx.rng
    exe = build_driver(ctx, build_lib(ctx), 'uri')
    for w, q, t in ((1, 4, 5), (2, 4, 5)):      # the composition laws themselves
        model_check(ctx, 'UriMC', consts={'Which': w, 'MaxLen': q if ctx.quick else t})
    E = model_check(ctx, 'UriObjMC', consts={'MaxOps': 3 if ctx.quick else 4})
    W, tot, cov = walks(E, {'live': False}, maxlen=200, rng=r)
    # compose after every step: a walk is replayed with the composed text observed in each state
    W = [[{'op': 'new'}] + sum([[o, {'op': 'knead'}] if o['op'] in ('set', 'new') else [o] for o in w], []) for w in W]
    ctx.extra.update(graph_edges=tot, graph_edges_replayed=cov)
    replay_and_validate(ctx, exe, ARGS, 'UriTrace', W, tag='graph')
    S = [uobj(r) for _ in range(ctx.n(500, 10000))]
    replay_and_validate(ctx, exe, ARGS, 'UriTrace', S, tag='random')
    return finish(ctx)
