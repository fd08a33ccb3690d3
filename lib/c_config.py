"""Configuration trees: text, editing, includes and substitution."""
from vlib import *

ARGS = {'new': [], 'fs': ['n', 'x'], 'buf': ['t'], 'from': ['t', 'ow', '#ch'], 'fd': ['t', 'ow'], 'file': ['n', 'ow'],
        'drv': ['n', 'ow', 'pre', 'rmax', 'fo', 'fc', '#ch'], 'drvmem': ['n', 'ow', 'pre', 'rmax', 'nth', '#ch'], 'baddrv': ['w'],
        'add': ['#a', 'k', 'v'], 'set': ['#a', 'k', 'v'], 'setmem': ['#a', 'k', 'v', 'ow', 'nth'], 'setval': ['#a', 'v'], 'child': ['#a', 'k'],
        'del': ['#a', '#b'], 'sort': ['#a', 'm'], 'get': ['#a', 'k', 'n'], 'nth': ['#a', 'k', 'n'], 'val': ['#a', 'k'], 'vali': ['#a', 'k', 'd'],
        'valb': ['#a', 'k', 'd'], 'node': ['#a'], 'walk': ['#a', 'm'], 'save': ['#a', 'n'], 'print': ['#a', 'n'], 'reload': ['#a', 'm']}
NIL = [-1]
TXTS = dict(n=list(b'f'), ow=False, pre=[], rmax=1000, fo=0, fc=0, ch=[])


def chunks(r):
    return r.choice([[], [], [1], [2], [3], [1, 1022], [1023], [1022, 1], [7, 1], [1022], [511, 512, 1]])


def word(r, n=None):
    n = n or r.choice([1, 1, 1, 2, 3, 8, 20])
    return bytes(r.choice(b'abcdxyz0123456789-_:/=*"\'\\!~') if r.random() < .5 else r.choice(b'abc') for _ in range(n)).lstrip(b'') or b'a'


def keyname(r):
    k = r.choice([b'a', b'b', b'c', b'a', b'b', b'sec', word(r)])
    return k if k not in (b'include', b'-include') else b'a'


def longlen(r):
    return r.choice([1000, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2040, 2041, 2042, 2043, 2044, 2045, 2046, 2047, 2048, 2049, 3070, 5000])


def value(r, deep=True):
    x = r.random()
    if x < .5:
        return word(r)
    if x < .6:
        return word(r) + r.choice([b' ', b'  ', b'\t ', b' \\# ', b'\\#', b'.']) + word(r)
    if x < .75 and deep:
        return r.choice([b'', b'p', b'\\# ']) + b'${' + r.choice([b'a', b'b', b'c', b'a.b', b'sec.a', b'nosuch', b'', b'a b']) + b'}' + r.choice([b'', b'', b' ', b'z', b'}', b'${b}', b'$', b'{', b'${', b'}${a}'])
    if x < .8:
        return r.choice([b'$', b'${', b'$a', b'{a}', b'}', b'{', b'a}b', b'$$${a}', b'${a'])
    if x < .85:
        return b'v' * longlen(r)
    return r.choice([b'1', b'-5', b'yes', b'on', b'x y', b'http://x/y?z', b'a.b.c', b'2147483647', b'2147483648'])


def sp(r):
    return r.choice([b'', b'', b'', b' ', b'\t', b' \t  '])


def section(r, d, inc=None):
    o = []
    for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
        x = r.random()
        if x < .12:
            o.append(sp(r) + r.choice([b'', b'# c', b'#', b'\\', b'#{', b'#a b', b'\r']))
        elif x < .3 and d:
            k = keyname(r)
            o += [sp(r) + k + sp(r)] + ([b'', b'#x'] if r.random() < .1 else []) + [sp(r) + b'{' + sp(r) + (b'#c' if r.random() < .1 else b'')]
            o += section(r, d - 1, inc)
            o.append(sp(r) + b'}' + sp(r))
        elif x < .45 and inc:
            o.append(sp(r) + r.choice([b'include', b'include', b'-include']) + b' ' + r.choice(inc))
        elif x < .5:
            o.append(sp(r) + keyname(r))
        else:
            k = keyname(r)
            if r.random() < .2:
                k = k + b'.' + keyname(r) + (b'.' + keyname(r) if r.random() < .3 else b'')
            o.append(sp(r) + k + r.choice([b' ', b' ', b'\t', b'  ']) + value(r) + sp(r) + (b'# c' if r.random() < .1 else b'') + (b'\r' if r.random() < .05 else b''))
    return o


def text(r, inc=None, bad=.35):
    L = section(r, 3, inc)
    while not L:
        L = section(r, 3, inc)
    if r.random() < bad:
        for _ in range(r.choice([1, 1, 2])):
            p = r.randint(0, len(L))
            x = r.random()
            if x < .3:
                L[p:p] = [r.choice([b'{', b'}', b'a', b'{ x', b'} x', b'}}', b'x {', b'include', b'-include', b'a ${', b'# }', b'{{'])]
            elif x < .6 and p < len(L):
                del L[p]
            elif p < len(L) and L[p]:
                q = r.randrange(len(L[p]))
                l = bytearray(L[p])
                if r.random() < .5:
                    l[q:q] = bytes([r.choice(b'{}#\\.$ \t\ra\x01\x80\xff')])
                else:
                    del l[q]
                L[p] = bytes(l)
    t = b'\n'.join(L)
    return (t if r.random() < .3 else t + b'\n').replace(b'\0', b'')


def grp(C, k=40):
    return [[{'op': 'new'}] + C[i:i + k] + [{'op': 'new'}] for i in range(0, len(C), k)]


def load_ops(r, t):
    """all the ways of loading the same text"""
    t = list(t)
    o = [{'op': 'buf', 't': t}]
    x = r.random()
    if x < .35:
        o = [{'op': 'from', 't': t, 'ow': r.random() < .5, 'ch': chunks(r)}]
    elif x < .45:
        o = [{'op': 'fd', 't': t, 'ow': r.random() < .5}]
    elif x < .6:
        o = [{'op': 'new'}, {'op': 'fs', 'n': list(b'f'), 'x': t}, r.choice([{'op': 'file', 'n': list(b'f')}, {'op': 'drv', 'n': list(b'f')}])]
        o[2] = dict(TXTS, **o[2])
        o[2]['ch'] = chunks(r)
    return o


def c01(ctx):
    r = ctx.rng
    C = []
    T = []
    for w, q, t in ((1, 6, 7), (2, 4, 6), (3, 4, 6)):
        E = model_check(ctx, 'ConfigTextMC', consts={'Which': w, 'MaxLen': q if ctx.quick else t})
        E = [e[1]['t'] for e in E]
        T += E if len(E) < 9000 or not ctx.quick else r.sample(E, 9000)
    ctx.extra['texts_enumerated'] = len(T)
    S = []
    for t in T:
        o = {'op': 'buf', 't': t} if r.random() < .7 else {'op': 'from', 't': t, 'ow': r.random() < .6, 'ch': chunks(r)}
        C.append(o)
        if r.random() < .05:
            C.append({'op': 'new'})
    S += grp(C)
    C = []
    for n in sorted({b for c in (1022, 1023, 1024, 2046, 2047, 2048, 3069) for b in range(c - 4, c + 4)}):     # line lengths around the reader's chunks
        for f in (b'k %s\nz y', b'%s v\n', b'k %s', b'%s\n{\na b\n}\n', b'k v #%s\nz y', b'#%s\nz y', b'k %s\r\n'):
            for o in r.sample([{'op': 'buf'}, {'op': 'from', 'ow': False, 'ch': [r.choice([1, 500, 1022, 1023])]}, {'op': 'fd', 'ow': True}], ctx.n(1, 3)):
                C += [{'op': 'new'}, dict(o, t=list(f.replace(b'%s', b'q' * n)))]
    for c in range(1, 256):     # every byte at every position of a line
        for f in (b'%ca v\n', b'a%cb v\n', b'a%c\nx y\n', b'a v%cw\n', b'a v%c\nx y', b'a\n%c{\nx y\n}\n', b'a\n{%c\nx y\n}\n', b'a\n{\nx y\n}%c\n', b'a ${b%cc}\n', b'a \\%c x\n'):
            C.append({'op': 'buf', 't': list(f % c)})
    for _ in range(ctx.n(1500, 40000)):
        C += load_ops(r, text(r))
        if r.random() < .2:
            C.append({'op': 'new'})
    S += grp(C)
    for d in ('dir', 'nosuch'):
        S.append([{'op': 'new'}, dict(TXTS, op='file', n=list(d.encode()))])
    exe = build_driver(ctx, build_lib(ctx), 'config')
    replay_and_validate(ctx, exe, ARGS, 'ConfigTrace', S, tag='texts')
    return finish(ctx)


# -------------------------------------------------------------------------------------------------------- editing
def rkey(r):
    return r.choice([b'a', b'b', b'c', b'a.b', b'a.a', b'b.a.c', b'sec', b'a.b.c.d', b'x#y', b'sec.a'])


def rval(r):
    if r.random() < .1:
        return None
    return r.choice([b'x', b'y', b'', b' x ', b'x y', b'#', b'a#b', b'a \\# b', b'\\', b'${a}', b'${b}-${a}', b'${a.b}', b'${sec.a}', b'${', b'a${x', b'${}', b'}', b'{', b'1', b'42', b'-7', b'+3', b'007',
                     b'2147483647', b'2147483648', b'-2147483648', b'-2147483649', b'99999999999999999999', b'0000000000000000000012', b'12a', b'1 2', b'yes', b'YES', b'No', b'on', b'OFF', b'enable', b'Disable', b'0', b'1', b'2',
                     b'true', b'yess', b'ye', word(r), value(r)])


def raddr(r, t):
    """an address, usually valid, in a rough shadow of the tree's size"""
    return [r.randint(1, 4) for _ in range(r.choice([0, 0, 0, 0, 1, 1, 1, 2, 2, 3]))]


def clip(v, n=300):
    return v if v is None or len(v) <= n else v[:n]


def edits(r, n):
    s = [{'op': 'new'}]
    if r.random() < .4:
        s.append({'op': 'buf', 't': list(text(r, bad=0)[:400].rsplit(b'\n', 1)[0])})
    plain = r.random() < .5
    for _ in range(n):
        x = r.random()
        a = raddr(r, None)
        v = clip(rval(r))
        if plain:
            while v is None or not v.strip() or b'${' in v:
                v = clip(rval(r))
        v = NIL if v is None else list(v)
        k = list(rkey(r))
        if plain and r.random() < .7:
            a = []
        if x < .22:
            s.append({'op': 'add', 'a': a, 'k': k, 'v': v})
        elif x < .40:
            s.append({'op': 'set', 'a': a, 'k': k, 'v': v})
        elif x < .45:
            s.append({'op': 'setval', 'a': a, 'v': v})
        elif x < .48:
            s.append({'op': 'child', 'a': a, 'k': k})
        elif x < .55:
            s.append({'op': 'del', 'a': a, 'b': a + [r.randint(1, 4)] if r.random() < .85 else raddr(r, None) or [1]})
        elif x < .60:
            s.append({'op': 'sort', 'a': a, 'm': r.choice(['key', 'rkey', 'val'])})
        elif x < .67:
            s.append({'op': 'get', 'a': a, 'k': k, 'n': r.choice([0, 0, 1, 1, 2, 3])})
        elif x < .70:
            s.append({'op': 'nth', 'a': a, 'k': r.choice([NIL, k]), 'n': r.choice([0, 0, 1, 2, 3])})
        elif x < .75:
            s.append({'op': 'val', 'a': a, 'k': k})
        elif x < .79:
            s.append({'op': 'vali', 'a': a, 'k': k, 'd': r.choice([0, -1, 77])})
        elif x < .82:
            s.append({'op': 'valb', 'a': a, 'k': k, 'd': r.choice([0, 1, 77])})
        elif x < .84:
            s.append({'op': 'node', 'a': a})
        elif x < .87:
            s.append({'op': 'walk', 'a': a, 'm': r.choice(['pre', 'post'])})
        elif x < .90:
            s.append({'op': 'save', 'a': a, 'n': r.choice([0, 1, 2, 3, 4, 5, 8, 13, 20, 30, 50, 100, 2000, 50000])})
        elif x < .92:
            s.append({'op': 'print', 'a': a, 'n': r.choice([0, 1, 2, 3])})
        elif x < .97:
            s.append({'op': 'reload', 'a': [], 'm': r.choice(['save', 'print'])})
        elif x < .99:
            s.append({'op': 'setmem', 'a': a, 'k': k, 'v': v, 'ow': r.random() < .5, 'nth': r.randint(1, 14)})
        elif r.random() < .3:
            s.append({'op': 'new'})
    return s + [{'op': 'reload', 'a': [], 'm': 'save'}, {'op': 'new'}]


def typed(r):
    S = []
    V = [b'0', b'1', b'2', b'-1', b'+1', b'-0', b'00', b'10', b'2147483646', b'2147483647', b'2147483648', b'2147483650', b'2147483700', b'3000000000', b'-2147483647', b'-2147483648', b'-2147483649', b'4294967295', b'4294967296', b'4294967297', b'9223372036854775807', b'9223372036854775808',
         b'-9223372036854775809', b'18446744073709551617', b'', b'-', b'+', b'--1', b'1-', b'1.0', b'0x10', b'1e3', b'a', b'1a', b'a1', b'1 ', b'1 1', b'yes', b'Yes', b'YES', b'yEs', b'y', b'yes ', b'yesno', b'enable', b'ENABLE', b'enabled', b'on', b'ON',
         b'o', b'no', b'NO', b'n', b'non', b'disable', b'DisAble', b'disabled', b'off', b'OFF', b'of', b'01', b'true', b'false', b'-']
    for v in V:
        s = [{'op': 'new'}, {'op': 'set', 'a': [], 'k': list(b'a.b'), 'v': list(v)}, {'op': 'child', 'a': [], 'k': list(b'e')}]
        for k in (b'a.b', b'a', b'e', b'a.c', b'zz'):
            for d in (0, 5, -3):
                s += [{'op': 'vali', 'a': [], 'k': list(k), 'd': d}, {'op': 'valb', 'a': [], 'k': list(k), 'd': d}]
        S.append(s)
    return S


def c02(ctx):
    r = ctx.rng
    E = model_check(ctx, 'ConfigMC', consts={'MaxNodes': 2, 'MaxDepth': 2})
    if not ctx.quick:
        # three entries: the laws on every state, the transitions replayed by sampling
        E3 = model_check(ctx, 'ConfigMC', consts={'MaxNodes': 3, 'MaxDepth': 3}, mem='14g')
        ctx.extra['edges_three_entries'] = len(E3)
        W3, tot3, cov3 = walks(E3, {'t': {'k': NIL, 'v': NIL, 'c': []}, 'fs': []}, maxlen=150, rng=r, limit=2500)
        del E3
    else:
        W3 = []
    W, tot, cov = walks(E, {'t': {'k': NIL, 'v': NIL, 'c': []}, 'fs': []}, maxlen=150, rng=r)
    if cov != tot:
        raise CheckError('walks cover %d of %d transitions' % (cov, tot))
    ctx.extra['edges_covered'] = cov
    S = [[{'op': 'new'}] + w + [{'op': 'new'}] for w in W + W3]
    S += [edits(r, r.choice([6, 15, 30, 60])) for _ in range(ctx.n(400, 8000))]
    S += typed(r)
    for nth in range(1, 20):
        for k, v in ((b'a.b.c', b'x${a}y'), (b'a', b'z'), (b'a.a', None)):
            for ow in (False, True):
                S.append([{'op': 'new'}, {'op': 'set', 'a': [], 'k': list(b'a'), 'v': list(b'old')},
                          {'op': 'setmem', 'a': [], 'k': list(k), 'v': NIL if v is None else list(v), 'ow': ow, 'nth': nth}, {'op': 'new'}])
    exe = build_driver(ctx, build_lib(ctx), 'config')
    replay_and_validate(ctx, exe, ARGS, 'ConfigTrace', S, tag='edits')
    known(ctx, exe)
    return finish(ctx)


def known(ctx, exe):
    """a node with both a value and children (a dotted name below an existing parameter) is saved as text the loader refuses"""
    S = [[{'op': 'new'}, {'op': 'set', 'a': [], 'k': list(b'a'), 'v': list(b'x')}, {'op': 'set', 'a': [], 'k': list(b'a.b'), 'v': list(b'y')}, {'op': 'reload', 'a': [], 'm': 'save'}]]
    ev = run_driver(ctx, exe, ARGS, S, tag='known')[0]
    if ev[-1].get('r', {}).get('rc') == -1:
        ctx.known_hits.append('an entry with both a value and children (a = x, a.b = y) is saved as text that the loader refuses')


# -------------------------------------------------------------------------------------------------------- includes
def inc_sessions(r, n, mem):
    S = []
    names = [b'f', b'g', b'h', b'i', b'j']
    for _ in range(n):
        k = r.randint(1, 5)
        pre = r.choice([b'', b'', b'd:', b'p'])
        s = [{'op': 'new'}]
        refs = names[:k] * 3 + [b'nosuch', b'${c}', b'${a}', b'dir', b'./f', b'zzzzzzzzz', b'']
        if r.random() < .5:
            refs = [b'g', b'h', b'i', b'j'][:max(1, k - 1)]
        if mem:
            refs = [b'g', b'h', b'i']
        for i in range(k):
            own = [x for x in refs if r.random() < .6 or len(refs) < 3] or refs
            t = text(r, own, bad=.1)[:600]
            if mem:
                t = t.replace(b'-include', b'include')
            s.append({'op': 'fs', 'n': list((pre if i else b'') + names[i]), 'x': list(t)})
            if i == 0 and pre and r.random() < .3:
                s.append({'op': 'fs', 'n': list(pre + names[i]), 'x': list(t)})
        o = dict(TXTS, op='drv', pre=list(pre), ow=r.random() < .4, ch=chunks(r), rmax=r.choice([1000, 1000, 1000, 4]))
        if mem:
            for nth in sorted(r.sample(range(1, 90), 8)):
                s.append(dict(o, op='drvmem', nth=nth))
            s.append(o)
        else:
            s.append(o)
            for _ in range(3):
                s.append(dict(o, fo=r.choice([0, 0, 1, 2, 3, 4]), fc=r.choice([0, 0, 1, 2, 3, 4]), ow=r.random() < .5))
            if not pre:
                s.append(dict(o, op='file'))
                s.append({'op': 'fd', 't': list(text(r, refs, bad=.1)[:500]), 'ow': r.random() < .5})
            s.append({'op': 'buf', 't': s[1]['x']})
        S.append(s + [{'op': 'new'}])
    return S


def deep(r):
    S = []
    for n in (2, 5, 15, 19, 20, 21, 22, 25, 40):
        for op in ('drv', 'file', 'fd'):
            s = [{'op': 'new'}]
            for i in range(n):
                s.append({'op': 'fs', 'n': list(b'f%d' % i if i else b'f'), 'x': list(b'a%d x\n' % i + (b'include f%d\n' % (i + 1) if i < n - 1 else b'') + b'b y\n')})
            s.append({'op': 'fd', 't': list(b'include f\n'), 'ow': False} if op == 'fd' else dict(TXTS, op=op))
            S.append(s + [{'op': 'new'}])
    # the same file under ever new names must not recurse for ever
    for op in ('file',):
        S.append([{'op': 'new'}, {'op': 'fs', 'n': list(b'f'), 'x': list(b'x ./${x}\ninclude nosuch${x}\n')}, dict(TXTS, op=op), {'op': 'new'}])
    return S


def c03(ctx):
    r = ctx.rng
    E = model_check(ctx, 'ConfigIncMC', consts={'MaxFault': 2 if ctx.quick else 3, 'Depth3': 'FALSE' if ctx.quick else 'TRUE'})
    ctx.extra['include_graphs_enumerated'] = len(E)
    byg = collections.defaultdict(list)
    for _, o, _ in E:
        byg[key([o['fs'], o['x']])].append(o)
    S = []
    for g in byg.values():
        s = [{'op': 'new'}] + [{'op': 'fs', 'n': n, 'x': x} for n, x in zip(g[0]['fs'], g[0]['x']) if x != NIL]
        for o in g:
            s.append(dict(TXTS, op='drv', ow=o['ow'], fo=o['fo'], fc=o['fc'], ch=r.choice([[], [1], [3]])))
        s.append(dict(TXTS, op='file', ow=r.random() < .5))
        S.append(s + [{'op': 'new'}])
    S += inc_sessions(r, ctx.n(500, 10000), False) + inc_sessions(r, ctx.n(150, 3000), True) + deep(r)
    S.append([{'op': 'new'}, {'op': 'fs', 'n': list(b'f'), 'x': list(b'a b\n')}] + [{'op': 'baddrv', 'w': w} for w in range(5)] + [{'op': 'new'}])
    # the substitution of variables: all short values over its alphabet, in a small scope
    al = [b'$', b'{', b'}', b'a', b'b', b'.', b'\\#']
    def rec(n):
        return [b''] if n == 0 else [x + y for x in al for y in rec(n - 1)]
    vals = [v for n in range(0, 4) for v in rec(n)] + [b'${' + v + b'}' + w for n in range(0, 3) for v in rec(n) for w in (b'', b'${a}', b'}', b' x', b'${')]
    C = []
    for v in vals:
        C.append({'op': 'buf', 't': list(b'a  one  \nb 2\ns\n{\na in\nt\n{\nv <' + v + b'>\nw ' + v + b'\n}\nu ' + v + b'\n}\nz ' + v + b'\n')})
    S += grp(C)
    exe = build_driver(ctx, build_lib(ctx), 'config')
    replay_and_validate(ctx, exe, ARGS, 'ConfigTrace', S, tag='includes')
    return finish(ctx)
