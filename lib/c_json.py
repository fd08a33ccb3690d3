"""Lexer, JSON."""
from vlib import *

LEX = {'new': ['t'], 'next': ['pb'], 'skip': ['pb'], 'eat': [], 'expect': ['c'], 'lmark': [], 'rmark': [], 'seterr': ['kind', 's', 'n']}


def lex_session(r):
    n = r.choice([0, 1, 2, 5, 12, 30, 60])
    ab = r.choice([b'ab ', b'a \t\n\v\f\r', b'  \ta', bytes(range(1, 256)), b'{}[]":, \n\xe8'])
    if r.random() < .12:
        n = r.choice([126, 127, 128, 129, 140, 200])
        ab = r.choice([b'ab', b'a '])
    t = [r.choice(ab) for _ in range(n)]
    s = [{'op': 'new', 't': t}]
    p = 0
    if n > 120:
        # long matches around the token size
        k = r.randint(0, 3)
        s += [{'op': 'next', 'pb': True}] * k + [{'op': 'lmark'}]
        s += [{'op': 'next', 'pb': False}] * r.choice([124, 125, 126, 127, 128, n - k])
        s += [{'op': 'rmark'}]
        for _ in range(r.randint(0, 8)):
            s += [{'op': r.choice(['next', 'skip']), 'pb': True}, {'op': r.choice(['rmark', 'rmark', 'lmark'])}]
        return s
    for _ in range(r.randint(4, 45)):
        x = r.random()
        if x < .3:
            s.append({'op': 'next', 'pb': r.random() < .8})
        elif x < .5:
            s.append({'op': 'skip', 'pb': r.random() < .8})
        elif x < .6:
            s.append({'op': 'eat'})
        elif x < .75:
            p = r.randint(0, max(0, n - 1))
            s.append({'op': 'expect', 'c': r.choice([t[p] if t else 0, 0, r.choice(ab)])})
        elif x < .96:
            s.append({'op': r.choice(['lmark', 'rmark'])})
        else:
            kind = r.choice(['s', 'd', 'sd', 'pad', 'lit', 'empty'])
            m = r.choice([0, 5, 509, 510, 511, 512, 600])
            s.append({'op': 'seterr', 'kind': kind, 's': [r.choice(b'ab%') for _ in range(m if kind != 'pad' else 3)], 'n': m})
    return s


def x01(ctx):
    exe = build_driver(ctx, build_lib(ctx), 'lexer')
    E = model_check(ctx, 'LexerMC', consts={} if ctx.quick else {'MaxLen': 4})
    W, tot, cov = walks(E, dict(t=[], p=0, l=0, r=0, st=False), maxlen=150, rng=ctx.rng)
    ctx.extra.update(graph_edges=tot, graph_edges_replayed=cov)
    replay_and_validate(ctx, exe, LEX, 'LexerTrace', W, tag='graph')
    replay_and_validate(ctx, exe, LEX, 'LexerTrace', [lex_session(ctx.rng) for _ in range(ctx.n(700, 15000))], tag='random')
    return finish(ctx)


# ---------------------------------------------------------------- JSON texts
JARGS = {'decode': ['t'], 'new': ['n', 'ty', 'k', 'v'], 'dec': ['n', 't'], 'add': ['n', 'c'], 'remove': ['n'], 'free': ['n'], 'setkey': ['n', 'k'],
         'setval': ['n', 'v', 'chk'], 'settype': ['n', 'ty'], 'index': ['n'], 'unindex': ['n'], 'get': ['n', 'name'], 'look': ['n'],
         'nth': ['n', 'i'], 'settv': ['n', 'name', 'ty', 'v'], 'walk': ['n', 'post', 'l'], 'print': ['n'], 'enc': ['n'], 'end': []}
ESC = [b'\\"', b'\\\\', b'\\/', b'\\b', b'\\f', b'\\n', b'\\r', b'\\t', b'\\u00e8', b'\\uFFfF', b'\\u0000']


def jstr(r, n=None):
    n = r.choice([0, 1, 1, 2, 3, 8]) if n is None else n
    out = b''
    while len(out) < n:
        c = r.random()
        if c < .12 and len(out) + 6 <= n:
            e = r.choice(ESC)
            out += e
        elif c < .2:
            out += bytes([r.choice([128, 0xc3, 0xa8, 255, 0xff, 32, 33, 39, 126])])
        else:
            out += r.choice([b'a', b'b', b'k', b'.', b'[', b'0', b'{', b',', b':', b' '])
    return out


def jnum(r):
    s = r.choice([b'', b'', b'-'])
    s += r.choice([b'0', b'1', b'7', b'10', b'42', b'123456', b'2147483648', b'9223372036854775807', b'9223372036854775808', b'99999999999999999999'])
    if r.random() < .3:
        s += b'.' + r.choice([b'0', b'5', b'25', b'000125'])
    if r.random() < .25:
        s += r.choice([b'e', b'E']) + r.choice([b'', b'+', b'-']) + r.choice([b'0', b'1', b'07', b'12'])
    return s


def jws(r, w):
    return b''.join(r.choice([b' ', b'\t', b'\n', b'\r', b'\v', b'\f']) for _ in range(r.choice([0, 0, 1, 3]))) if w else b''


def jval(r, d, w=True, width=4):
    x = r.random()
    W = lambda: jws(r, w)
    if d > 0 and x < .55:
        k = r.randint(0, width)
        tr = b',' + W() if k and w and r.random() < .15 else b''
        if x < .3:
            return b'[' + W() + (b',').join(jval(r, d - 1, w, width) .join([W(), W()]) for _ in range(k)) + tr + b']'
        return b'{' + W() + b','.join(W() + b'"' + jstr(r, r.choice([None, None, 1])) + b'"' + W() + b':' + W() + jval(r, d - 1, w, width) + W() for _ in range(k)) + tr + b'}'
    return r.choice([lambda: b'"' + jstr(r) + b'"', lambda: jnum(r), lambda: r.choice([b'true', b'false', b'null'])])()


def jroot(r, d=4, w=True, width=4):
    while True:
        t = jval(r, d, w, width)
        if t[:1] in b'[{':
            return jws(r, w) + t + r.choice([b'', b'', b'', jws(r, w), b' x', b']', b'{}'])


def jmutate(r, t):
    t = bytearray(t)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        p = r.randrange(len(t)) if t else 0
        if k < .25 and t:
            del t[p]
        elif k < .5:
            t.insert(p, r.choice(b'[]{}":,0019-+.eEtfn\\u \t\x01\x1f\x7f\xc8a'))
        elif k < .7 and t:
            t[p] = r.choice(b'[]{}":,0019-+.eEtfnu\\ \t\x7f\x80a')
        elif k < .85:
            t = t[:p]
        elif t:
            q = r.randrange(len(t))
            t[p], t[q] = t[q], t[p]
    return bytes(x for x in t if x)


def deep(n, inner=b'', mixed=False, r=None):
    s, e = b'', b''
    for i in range(n):
        if mixed and r.random() < .5:
            s += b'{"k":'
            e = b'}' + e
        else:
            s += b'['
            e = b']' + e
    return s + (inner or (b'1' if s.endswith(b':') else b'')) + e


def j_texts(ctx):
    r = ctx.rng
    T = []
    for n in (1, 14, 15, 16, 17, 18, 40):
        for inner in (b'', b'1', b'[]', b'{}', b'"a"', b'1,1'):
            T.append(deep(n, inner))
            T.append(b'[1,' + deep(n, inner) + b',2]')
        for _ in range(4):
            T.append(deep(n, r.choice([b'', b'0', b'{}']), True, r))
    for n in (0, 1, 125, 126, 127, 128, 129, 130, 255, 256, 400, 1100):
        T += [b'["' + b'a' * n + b'"]', b'{"' + b'k' * n + b'":1}', b'[' + b'1' * n + b']', b'[-' + b'9' * n + b']', b'[0.' + b'3' * n + b']', b'[1e' + b'1' * n + b',1]',
              b'["' + b'\\"' * (n // 2) + b'"]', b'["' + b'x' * (n % 6) + b'\\u1234' * (n // 6) + b'"]', b'[' + b' ' * n + b']', b'[' + b' ' * n + b'1' + b'\n' * n + b',' + b'\t' * n + b'2]', b' ' * n,
              b'["a' + b'\xff' * n + b'"]']
    for c in range(1, 256):
        T += [b'["' + bytes([c]) + b'"]', b'["\\' + bytes([c]) + b'"]', b'[' + bytes([c]) + b']', b'[1' + bytes([c]) + b'2]', b'["\\u' + bytes([c]) + b'123"]', b'["\\u123' + bytes([c]) + b'"]',
              b'{"a"' + bytes([c]) + b':1}', bytes([c]) + b'[]', b'[]' + bytes([c]), b'[tr' + bytes([c]) + b'e]', b'[nul' + bytes([c]) + b']', b'[false' + bytes([c]) + b']', b'[1e' + bytes([c]) + b'1]', b'[-' + bytes([c]) + b'1]']
    for _ in range(ctx.n(2500, 40000)):
        t = jroot(r, r.choice([1, 2, 3, 4, 6]), r.random() < .7, r.choice([1, 2, 4]))
        if len(t) > 700:
            continue
        T.append(t)
        for _ in range(3):
            T.append(jmutate(r, t))
    for _ in range(ctx.n(30, 400)):     # every truncation of a valid text
        t = jroot(r, 3)
        if len(t) < 120:
            T += [t[:i] for i in range(len(t))]
    return T


def j01(ctx):
    exe = build_driver(ctx, build_lib(ctx), 'json')
    T = []
    for which, ml in ((1, ctx.n(4, 5)), (2, ctx.n(4, 6)), (3, ctx.n(4, 6)), (4, ctx.n(4, 5))):
        E = model_check(ctx, 'JTextMC', consts={'Which': which, 'MaxLen': ml})
        T += [e[1]['t'] for e in E]
        ctx.extra['texts_enumerated_%d' % which] = len(E)
    seen = set(map(bytes, T))
    extra = [t for t in j_texts(ctx)]
    T = sorted(seen) + extra
    S = [[{'op': 'decode', 't': list(t)} for t in T[i:i + 25]] for i in range(0, len(T), 25)]
    replay_and_validate(ctx, exe, JARGS, 'JTextTrace', S, tag='texts', samples=6)
    acc = ctx.outcomes.get('decode:0', 0)
    ctx.extra['accepted'] = acc
    if acc < 500:
        raise CheckError('only %d accepted texts' % acc)
    return finish(ctx, rule='non-vacuity: at least 500 accepted and as many refused texts')


def j_session(r, kind):
    """kind 'edit' | 'enc' | 'index'"""
    S = []
    live, cont, par = {}, set(), {}     # ids -> approximate type; the spec is the judge, this only keeps operands plausible
    nid = [1]
    keys = [b'k', b'j', b'', b'a.b', b'[0]', b'k', b'x' * 120, b'x' * 127, b'x' * 128, b'\\u00e8', b'"', b'\x01', b'\\', b'\xff']

    def key():
        return list(r.choice(keys[:6] + [jstr(r)] if r.random() < .9 else keys))

    def val(ty):
        x = r.random()
        if ty == 's':
            v = jstr(r, r.choice([None, None, 0, 1, 5, 126, 127])) if x < .85 else r.choice([b'"', b'a"', b'\\', b'\\x', b'\n', b'a' * 128, b'a' * 200, b'","b', b'\\u12', b'\x7f'])
        else:
            v = jnum(r) if x < .8 else r.choice([b'', b'1 ', b' 1', b'01', b'1.', b'.5', b'-', b'+1', b'1e', b'1e+', b'0x10', b'1,2', b'9' * 127, b'9' * 128, b'abc', b'-9223372036854775808', b'-9223372036854775809'])
        return list(v)

    def new():
        if nid[0] > 60:
            return
        n = nid[0]
        nid[0] += 1
        ty = r.choice(['o', 'o', 'a', 'a', 's', 's', 'n', 'n', 'i', 'r', 't', 'f', '0'] + (['u'] if kind == 'edit' else []))
        v = val(ty) if ty in 'sn' else list(r.choice([b'0', b'1', b'-1', b'2147483648', b'9223372036854775807', b'-9223372036854775808'])) if ty == 'i' \
            else list(r.choice([b'0', b'1', b'-0.5', b'1e10', b'1.5e-7', b'123456', b'123457e4', b'0.0001', b'0.00001', b'-2.5e300', b'100000', b'1000000', b'1e-300', b'inf', b'-inf', b'nan', b'-nan'])) if ty == 'r' else None
        if ty in 'sn' and r.random() < .04:
            v = None
        k = key()
        if r.random() < .1 and ty != 'u':
            k = None
        S.append({'op': 'new', 'n': n, 'ty': ty, 'k': [-1] if k is None else k, 'v': [-1] if v is None else v})
        bad = (k and len(k) > 127 and ty != 'u') or (ty in 'sn' and not _ok(ty, v)) or (ty == 'r' and bytes(v)[-1:] in (b'f', b'n'))
        if not bad:
            live[n] = ty
            par[n] = 0

    def _ok(ty, v):
        if v is None or len(v) > 127:
            return False
        v = bytes(v)
        if ty == 'n':
            return re.fullmatch(rb'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?', v) is not None
        return re.fullmatch(rb'(?s)([^\x00-\x1f\x7f"\\]|\\["\\/bfnrt]|\\u[0-9a-fA-F]{4})*', v) is not None

    def sub(i):
        return [j for j in live if j == i or anc(j, i)]

    def anc(j, i):
        while par.get(j):
            j = par[j]
            if j == i:
                return True
        return False

    def top(i):
        while par.get(i):
            i = par[i]
        return i
    ix = set()
    if r.random() < .5:
        while True:
            t = jroot(r, r.choice([2, 3]), True, 3)
            import json as _j
            try:
                x = _j.loads(re.sub(rb',(\s*[\]}])', rb'\1', t.strip(b' \t\r\n\v\f')).decode('latin1').replace('\v', ' ').replace('\f', ' '), strict=False, object_pairs_hook=lambda p: ['o'] + [b_ for _, b_ in p])
            except ValueError:
                continue
            cnt = lambda y: 1 + sum(cnt(z) for z in y if not (z == 'o' and z is y[0])) if isinstance(y, list) else 1
            m = t.count(b',') + t.count(b':') + t.count(b'[') + t.count(b'{')
            if m <= 40:
                break
        S.append({'op': 'dec', 'n': 1, 't': list(t)})
        nd = _nodes(t)
        for i, (p, ty) in enumerate(nd):
            live[i + 1] = ty
            par[i + 1] = p
        nid[0] = len(nd) + 1
    for _ in range(r.choice([10, 25, 45])):
        x = r.random()
        if not live or x < .28:
            new()
            continue
        ids = sorted(live)
        n = r.choice(ids)
        c = [i for i in ids if live[i] in 'oa']
        if x < .5 and c:
            n = r.choice(c)
            cand = [i for i in ids if i != n and not anc(n, i) and (not par[i] or r.random() < .1)]
            if cand:
                m = r.choice(cand)
                S.append({'op': 'add', 'n': n, 'c': m})
                if not par[m] and top(n) not in ix and m not in ix:
                    par[m] = n
        elif x < .56:
            S.append({'op': 'remove', 'n': n})
            if top(n) not in ix:
                for j in sub(n):
                    live.pop(j), par.pop(j)
        elif x < .58 and not par[n]:
            S.append({'op': 'free', 'n': n})
            for j in sub(n):
                live.pop(j), par.pop(j), ix.discard(j)
        elif x < .62:
            k = key()
            S.append({'op': 'setkey', 'n': n, 'k': k if r.random() < .9 else [-1]})
        elif x < .70:
            v = val(live[n] if live[n] in 'sn' else 's')
            S.append({'op': 'setval', 'n': n, 'v': v if r.random() < .95 else [-1], 'chk': r.choice([0, 1, 1, 2]) if kind != 'enc' else 1})
        elif x < .74:
            if len(sub(n)) > 1:
                ty = r.choice(['o', 'a'])
            else:
                ty = r.choice(['s', 'n', 't', 'f', '0', 'o', 'a', 'x'] + (['u'] if kind == 'edit' else []))
            S.append({'op': 'settype', 'n': n, 'ty': ty})
            if top(n) not in ix and ty != 'x':
                live[n] = ty
        elif x < .80 or (kind == 'index' and x < .84):
            t = top(n) if r.random() < .9 else n
            S.append({'op': 'index', 'n': t})
            if t == top(n):
                ix.add(t)
        elif x < .82:
            t = top(n) if r.random() < .8 else n
            S.append({'op': 'unindex', 'n': t})
            if t == top(n):
                ix.discard(t)
        elif x < .83:
            S.append({'op': 'print', 'n': n})
        elif x < .85:
            S.append({'op': 'walk', 'n': n, 'post': r.random() < .5, 'l': r.choice([0, 3])})
        elif x < .88:
            S.append({'op': 'nth', 'n': r.choice(c) if c else n, 'i': r.choice([0, 1, 2, 3, 5])})
        elif x < .94:
            S.append({'op': 'look', 'n': n})
        else:
            S.append({'op': 'enc', 'n': top(n) if r.random() < .8 else n})
        if ix and r.random() < (.7 if kind == 'index' else .2):
            t = r.choice(sorted(ix))
            m = r.choice(sub(t) or [t])
            S += lookups(r, S, t, m, live, par)
    for i in sorted(live):
        if not par[i]:
            S.append({'op': 'enc', 'n': i})
    S.append({'op': 'end'})
    return S


def lookups(r, S, t, m, live, par):
    """look a name up: the name of m as far as the script tells (keys tracked from the script)"""
    key = {}
    chl = {}
    for o in S:
        if o['op'] == 'new':
            key[o['n']] = bytes(o['k']) if o['k'] != [-1] and o['ty'] != 'u' else b''
    for o in S:
        if o['op'] == 'dec':
            for i, k in enumerate(_keys(bytes(o['t']))):
                key[i + 1] = k

    def fq(i):
        if not par.get(i):
            return b'.'
        p = par[i]
        if live[p] == 'o':
            return fq(p) + b'.' + key.get(i, b'')
        return fq(p) + b'[%d]' % r.choice([0, 0, 1, 2])
    name = fq(m)
    at = t
    if r.random() < .3 and par.get(m):
        a = m
        while par.get(a) and r.random() < .7:
            a = par[a]
        at = a
        if r.random() < .7 and name.startswith(fq(a)):
            name = name[len(fq(a)):]
    if r.random() < .1:
        name = r.choice([b'', b'.', b'..', b'[0]', name + b'x', name[:-1], b'.[0]', b'..k', b'..k.k'])
    if not name and len(fq(at)) > 200:
        name = b'.'
    x = {'op': 'get', 'n': at, 'name': list(name)}
    if r.random() < .35:
        ty = r.choice(['s', 'n', 't', 'f', '0', 'u', 'o', 'a'])
        v = r.choice([b'7', b'zz', b'', b'-1.5', b'a' * 127, b'a' * 128])
        x = {'op': 'settv', 'n': at, 'name': list(name), 'ty': ty, 'v': list(v) if r.random() < .9 else [-1]}
    return [x]


def _scan(t):
    """(parent, type, key) of the nodes of a valid text, in preorder"""
    out, st, key, expect_key, i = [], [], b'', False, 0
    while i < len(t):
        c = t[i:i + 1]
        if c in b'{[':
            out.append((st[-1][0] if st else 0, 'o' if c == b'{' else 'a', key))
            st.append((len(out), c))
            key = b''
            expect_key = c == b'{'
        elif c in b'}]':
            st.pop()
            if not st:
                break
        elif c == b',':
            expect_key = st[-1][1] == b'{'
        elif c == b'"':
            j = i + 1
            while t[j:j + 1] != b'"':
                j += 2 if t[j:j + 1] == b'\\' else 1
            if expect_key:
                key = t[i + 1:j]
                expect_key = False
            else:
                out.append((st[-1][0], 's', key))
                key = b''
            i = j
        elif c in b'-0123456789':
            m = re.match(rb'[-+.eE0-9]+', t[i:])
            out.append((st[-1][0], 'n', key))
            key = b''
            i += len(m.group()) - 1
        elif c in b'tfn':
            out.append((st[-1][0], {b't': 't', b'f': 'f', b'n': '0'}[c], key))
            key = b''
            i += 4 if c == b'f' else 3
        i += 1
    return out


def _nodes(t):
    return [(p, ty) for p, ty, _ in _scan(t)]


def _keys(t):
    return [k for _, _, k in _scan(t)]


INITJ = lambda n: [[] for _ in range(n)]


def j_graph(ctx, exe, maxnode, types):
    E = model_check(ctx, 'JTreeMC', consts={'MaxNode': maxnode, 'Types': types})
    W, tot, cov = walks(E, INITJ(maxnode), maxlen=200, rng=ctx.rng)
    ctx.extra['graph_edges'] = ctx.extra.get('graph_edges', 0) + tot
    ctx.extra['graph_edges_replayed'] = ctx.extra.get('graph_edges_replayed', 0) + cov
    replay_and_validate(ctx, exe, JARGS, 'JTreeTrace', [w + [{'op': 'end'}] for w in W], tag='graph')


def j02(ctx):
    exe = build_driver(ctx, build_lib(ctx), 'json')
    j_graph(ctx, exe, 2, '{"o", "a", "s", "n"}')
    r = ctx.rng
    S = [j_session(r, 'enc') for _ in range(ctx.n(900, 12000))]
    # decoded texts encoded again from any of their nodes, and deep/long ones around the limits
    for _ in range(ctx.n(400, 5000)):
        t = jroot(r, 4)
        nd = _nodes(t)
        if len(nd) > 60:
            continue
        S.append([{'op': 'dec', 'n': 1, 't': list(t)}, {'op': 'print', 'n': r.randint(1, len(nd))}] + [{'op': 'enc', 'n': i} for i in sorted(set([1] + [r.randint(1, len(nd)) for _ in range(4)]))] + [{'op': 'end'}])
    for d in (1, 14, 15, 16, 17, 20):
        s = [{'op': 'new', 'n': i, 'ty': r.choice(['o', 'a']), 'k': b('k%d' % i), 'v': [-1]} for i in range(1, d + 1)]
        s += [{'op': 'add', 'n': i, 'c': i + 1} for i in range(d - 1, 0, -1)]
        s += [{'op': 'new', 'n': 30, 'ty': 'n', 'k': b('z'), 'v': b('1')}, {'op': 'enc', 'n': 1}, {'op': 'add', 'n': d, 'c': 30}] + [{'op': 'enc', 'n': i} for i in range(1, d + 1)]
        S.append(s + [{'op': 'index', 'n': 1}, {'op': 'walk', 'n': 1, 'post': True, 'l': 0}, {'op': 'print', 'n': 1}, {'op': 'enc', 'n': 1}, {'op': 'end'}])
    replay_and_validate(ctx, exe, JARGS, 'JTreeTrace', S, tag='random')
    return finish(ctx)


def j03(ctx):
    exe = build_driver(ctx, build_lib(ctx), 'json')
    j_graph(ctx, exe, 3, '{"o", "a", "s"}' if not ctx.quick else '{"a", "o"}')
    if not ctx.quick:
        j_graph(ctx, exe, 4, '{"a"}')
    r = ctx.rng
    S = [j_session(r, r.choice(['edit', 'index', 'index'])) for _ in range(ctx.n(1200, 15000))]
    # numeric and boolean accessors on many literals, directly and by name
    for _ in range(ctx.n(60, 600)):
        vals = [jnum(r) for _ in range(8)] + [r.choice([b'-0', b'0.0', b'-9223372036854775808', b'-9223372036854775809', b'1e5', b'0.1', b'true', b'null', b'"1"', b'"true"', b'false', b'123456789012345', b'1.5'])]
        t = b'[' + b','.join(vals) + b']'
        s = [{'op': 'dec', 'n': 1, 't': list(t)}]
        for i in range(len(vals)):
            s += [{'op': 'look', 'n': i + 2}]
        s += [{'op': 'index', 'n': 1}] + [{'op': 'get', 'n': r.choice([1, 2]), 'name': b('.[%d]' % r.randint(0, len(vals)))} for _ in range(8)]
        s += [{'op': 'nth', 'n': 1, 'i': i} for i in range(len(vals) + 1)]
        S.append(s + [{'op': 'end'}])
    # many elements, n-th access with and without the index; long names
    for n in (10, 11, 12, 60):
        s = [{'op': 'dec', 'n': 1, 't': list(b'{"' + b'q' * r.choice([1, 100, 127]) + b'":[' + b','.join(b'%d' % i for i in range(n)) + b']}')}]
        q = [{'op': 'nth', 'n': 2, 'i': i} for i in range(n + 2)]
        S.append(s + q + [{'op': 'index', 'n': 1}] + q + [{'op': 'remove', 'n': 5}, {'op': 'unindex', 'n': 1}, {'op': 'remove', 'n': 5}, {'op': 'index', 'n': 1}] + q + [{'op': 'end'}])
    for a in (100, 124, 125, 126, 127):
        k = b'q' * a
        t = b'{"' + k + b'":{"' + k + b'":{"k":1,"' + b'z' * 5 + b'":[7,8]}}}'
        s = [{'op': 'dec', 'n': 1, 't': list(t)}, {'op': 'index', 'n': 1}]
        full = b'..' + k + b'.' + k
        for nm in (full, full + b'.k', full + b'.zzzzz', full + b'.zzzzz[1]', b'..' + k):
            s += [{'op': 'get', 'n': 1, 'name': list(nm)}]
        s += [{'op': 'get', 'n': 3, 'name': b('.k')}, {'op': 'get', 'n': 2, 'name': list(b'.' + k)}, {'op': 'nth', 'n': 5, 'i': 0}, {'op': 'nth', 'n': 5, 'i': 1}, {'op': 'enc', 'n': 1}]
        S.append(s + [{'op': 'unindex', 'n': 1}, {'op': 'index', 'n': 1}, {'op': 'end'}])
    ev = replay_and_validate(ctx, exe, JARGS, 'JTreeTrace', S, tag='random')
    g = [e['r'] for x in ev for e in x if e['op'] == 'get']
    ctx.extra['lookups'] = len(g)
    ctx.extra['lookups_that_found'] = sum(1 for x in g if x['id'] > 0)
    ctx.extra['lookups_int'] = sum(1 for x in g if x['int'] != [-1])
    return finish(ctx)
