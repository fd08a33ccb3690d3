"""The replacement functions of srcs/missing."""
from vlib import *

NAMES = ['strsep', 'strtok_r', 'strlcpy', 'strlcat', 'timegm', 'fnmatch', 'mkstemps', 'vsyslog', 'daemon']
ARGS = {'new': [], 'fnm': ['p', 't'], 'tset': ['k', 't'], 'sep': ['k', 'd'], 'tok': ['k', 'd'], 'lcpy': ['dst', 'n', 'src'], 'lcat': ['dst', 'n', 'src'],
        'gm': ['tz', '#v', 'dst'], 'touch': ['n'], 'mk': ['t', 'sl'], 'vsl': ['pri', 'kind', 't', 'n'], 'daemon': ['nochdir', 'noclose', 'nofork']}


def build(ctx):
    lib = build_lib(ctx)
    inc = os.path.join(lib['dir'], 'inc-missing', 'u')
    os.makedirs(inc)
    shutil.copy(os.path.join(V, 'conf/missing/u/libu_conf.h'), inc)
    for n in ('missing', 'toolbox'):
        os.symlink(os.path.join(REPO, 'include', n), os.path.join(inc, n))
    objs = []
    cf = BASEFLAGS + ASAN + ['-I', os.path.dirname(inc), '-I', os.path.join(REPO, 'include')]
    for n in NAMES + ['shim']:
        o = os.path.join(lib['dir'], 'm_%s.o' % n)
        src = os.path.join(V, 'drivers/missing_shim.c') if n == 'shim' else os.path.join(REPO, 'srcs/missing', n + '.c')
        r = subprocess.run(['gcc'] + cf + ['-D%s=m_%s' % (x, x) for x in NAMES] + ['-c', src, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise CheckError('cannot compile %s: %s' % (n, r.stderr[:2000]))
        objs.append(o)
    return build_driver(ctx, lib, 'missing', extra=objs, wraps=('fork', 'syslog', '__syslog_chk'))


def pattern(r):
    o = b''
    for _ in range(r.choice([1, 2, 3, 3, 4, 5, 7])):
        x = r.random()
        if x < .2:
            o += b'*' * r.choice([1, 1, 1, 2, 3, 4])
        elif x < .3:
            o += b'?'
        elif x < .5:
            o += b'[' + r.choice([b'', b'', b'!', b'^']) + r.choice([b'', b'', b']', b'-', b'\\]']) + b''.join(
                r.choice([b'a', b'a-c', b'B', b'0-9', b'.', b'\\a', b'x-', b'\xc0-\xff', b'\xe9', b'A-F', b'!', b'*', b'?', b'[', b'0-\\', b'A-\\a', b'+-\\]', b'[-\\', b'\\0-\\9']) for _ in range(r.choice([1, 1, 2, 3]))) + r.choice([b']'] * 9 + [b''])
        elif x < .6:
            o += b'\\' + bytes([r.choice(b'*?[]\\ab./\xe9')])
        elif x < .75:
            o += bytes([r.choice(b'/./.')])
        else:
            o += bytes([r.choice(b'aAbBcx0-!]\xe9\xc9 ')])
    return o


def subject(r, p):
    """a text likely to match"""
    o, i = b'', 0
    while i < len(p):
        c = p[i:i + 1]
        if c == b'*':
            o += bytes(r.choice(b'ab./cA\xe9') for _ in range(r.choice([0, 0, 1, 1, 2, 4])))
        elif c == b'?':
            o += bytes([r.choice(b'ab./Z\xff')])
        elif c == b'[':
            j = p.find(b']', i + 2)
            o += bytes([r.choice(p[i + 1:j] + b'ab./B5\xc1\xff')]) if j > 0 else b'['
            i = j if j > 0 else i
        elif c == b'\\' and r.random() < .8:
            pass
        else:
            o += c.swapcase() if r.random() < .15 else c
        i += 1
    if r.random() < .15:
        o += r.choice([b'/x', b'/', b'/.a', b'x'])
    if r.random() < .1 and o:
        k = r.randrange(len(o))
        o = o[:k] + r.choice([b'', b'.', b'/', b'a']) + o[k + 1:]
    return o


def words(r, n=None):
    return bytes(r.choice(b'ab,,.; \xe9\xff') for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13, 40]) if n is None else n))


def ses(r):
    s = [{'op': 'new'}]
    for _ in range(r.randint(5, 30)):
        x = r.random()
        if x < .15:
            s.append({'op': 'tset', 'k': r.randint(1, 4), 't': list(words(r))})
        elif x < .6:
            k = r.randint(1, 4)
            s.append({'op': 'sep' if k < 3 else 'tok', 'k': k, 'd': list(bytes(r.sample(list(b',.; \xe9ab'), r.choice([0, 1, 1, 2, 3]))))})
        elif x < .8:
            d = words(r, r.choice([0, 1, 3, 7, 8, 9]))
            op = r.choice(['lcpy', 'lcat'])
            s.append({'op': op, 'dst': list(d), 'n': r.choice([0, 1, 2, len(d), len(d) + 1, len(d) + 2, len(d) + 5, 20]), 'src': list(words(r))})
        else:
            t = bytes(r.choice(b'ab%d\n\xe9') for _ in range(r.choice([0, 1, 5, 100, 1018, 1019, 1020, 1022, 1023, 1024, 1025, 3000])))
            s.append({'op': 'vsl', 'pri': r.randrange(192), 'kind': r.choice(['s', 'sd', 'pad', 'lit']), 't': list(t), 'n': r.choice([0, 5, 13, 1022, 1023, 1024, 1030])})
    return s


def dates(r, n):
    C = []
    for y in (1900, 1901, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2037, 2038, 2039, 2099, 2100, 2101, 2106, 2400, 1600, 3000, 9999):
        for m, d in ((0, 1), (1, 28), (1, 29), (2, 1), (11, 31), (5, 30), (9, 31)):
            C.append([y, m, d, 0, 0, 0])
            C.append([y, m, d, 23, 59, 59])
    C += [[1970, 0, 1, 0, 0, -1], [1970, 0, 1, 0, 0, -2], [2038, 0, 19, 3, 14, 7], [2038, 0, 19, 3, 14, 8], [2000, 12, 1, 0, 0, 0], [2000, -1, 1, 0, 0, 0],
          [2000, 0, 0, 0, 0, 0], [2001, 2, 0, 24, 60, 60], [2000, 25, -400, -30, 3000, -90000]]
    while len(C) < n:
        C.append([r.randint(1700, 2500), r.randint(0, 11) if r.random() < .8 else r.randint(-40, 40), r.randint(1, 31) if r.random() < .8 else r.randint(-400, 400),
                  r.randint(0, 23) if r.random() < .8 else r.randint(-100, 100), r.randint(-5, 65), r.randint(-5, 65)])
    C = [c for c in C if c[:6] != [1970, 0, 1, 0, 0, -1]]       # its value is the failure indication
    TZ = [None, 'UTC', '', 'EST5EDT,M3.2.0,M11.1.0', 'XXX-9', 'AAA+3:30', 'LONG' + 'X' * 240 + '4', 'CET-1CEST,M3.5.0,M10.5.0/3', 'Foo12']
    return [{'op': 'gm', 'tz': [-1] if z is None else b(z), 'v': c, 'dst': r.choice([0, 0, 0, -1])} for c in C for z in ([r.choice(TZ)] if c[0] != 2001 else TZ)]


def tmp(r):
    s = [{'op': 'new'}]
    for _ in range(r.randint(3, 20)):
        suf = r.choice([b'', b'', b'.c', b'X', b'.tar'])
        t = r.choice([b'', b'', b'./', b'sub/', b'no/', b'file/']) + r.choice([b'', b'a', b'tmp.', b'X.']) + b'X' * r.choice([0, 1, 1, 2, 6, 12]) + suf
        if r.random() < .3 and not t.startswith((b'no/', b'file/')):
            n = t.replace(b'./', b'')
            n = n.replace(b'X', bytes([r.choice(b'0Zz')]))
            s.append({'op': 'touch', 'n': list(n + b'q' if n[-1:] in (b'', b'/') else n)})
        s.append({'op': 'mk', 't': list(t), 'sl': len(suf) if r.random() < .9 else r.choice([0, 1, 3, len(t), len(t) + 1, 100])})
    return s


def y01(ctx):
    r = ctx.rng
    exe = build(ctx)
    C = []
    for w, p, t in ((1, 3, 2), (2, 4, 2), (3, 3, 4), (4, 2, 2)) if ctx.quick else ((1, 6, 3), (2, 5, 2), (3, 4, 5), (4, 6, 3)):
        C += [e[1] for e in model_check(ctx, 'ReplMC', consts={'Which': w, 'PMax': p, 'TMax': t})]
    model_check(ctx, 'ReplTimeMC', edges=False, consts={} if ctx.quick else {'Before': 600000, 'To': 2900000})
    ctx.extra['matches_enumerated'] = 32 * len(C)
    if ctx.quick and len(C) > 6000:
        stars = [c for c in C if sum(x == 42 for x in c['p']) >= 2]
        C = r.sample(C, 5500) + (r.sample(stars, 1500) if len(stars) > 1500 else stars)
        C += [{'op': 'fnm', 'p': list(b'*' * k + q), 't': list(t)} for k in (2, 3, 4, 5) for q in (b'', b'?', b'/', b'/*', b'a', b'[a]', b'[!a]', b'\\*', b'\\') for t in (b'', b'a', b'/', b'.', b'.a', b'a/', b'a/b', b'*')]
    for _ in range(ctx.n(2500, 60000)):
        p = pattern(r)
        C.append({'op': 'fnm', 'p': list(p), 't': list(subject(r, p))})
    replay_and_validate(ctx, exe, ARGS, 'ReplTrace', [C[i:i + 40] for i in range(0, len(C), 40)], tag='match')
    for w in (1, 2):
        E = model_check(ctx, 'ReplObjMC', consts={'Which': w, 'MaxOps': 3 if ctx.quick or w == 2 else 4})
        W, tot, cov = walks(E, {'x': {'tk': [[-1]] * 4, 'files': []}, 'n': 0}, maxlen=60, rng=r)
        W = [[{'op': 'new'}] + [o for o in x if o['op'] != 'none'] for x in W]
        ctx.extra['graph_edges_%d' % w], ctx.extra['graph_edges_replayed_%d' % w] = tot, cov
        replay_and_validate(ctx, exe, ARGS, 'ReplTrace', W, tag='graph%d' % w)
    replay_and_validate(ctx, exe, ARGS, 'ReplTrace', [ses(r) for _ in range(ctx.n(300, 6000))], tag='text')
    D = dates(r, ctx.n(700, 20000))
    replay_and_validate(ctx, exe, ARGS, 'ReplTrace', [D[i:i + 40] for i in range(0, len(D), 40)], tag='time')
    S = [tmp(r) for _ in range(ctx.n(120, 3000))]
    S += [[{'op': 'new'}] + [{'op': 'touch', 'n': list(b'a' + bytes([c]))} for c in b'0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz' if c not in keep] +
          [{'op': 'mk', 't': list(b'aX'), 'sl': 0}] * 3 for keep in (b'z', b'0z', b'M', b'')]
    replay_and_validate(ctx, exe, ARGS, 'ReplTrace', S, tag='temp')
    S = [[{'op': 'daemon', 'nochdir': a, 'noclose': c, 'nofork': f}] for a in (0, 1) for c in (0, 1) for f in (0, 1)]
    replay_and_validate(ctx, exe, ARGS, 'ReplTrace', S, tag='daemon')
    return finish(ctx)
