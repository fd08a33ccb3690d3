"""Files and environment."""
from vlib import *

# ------------------------------------------------------------------------------------------------------------ files
FARGS = {'new': [], 'write': ['a', 'len', 'tag'], 'hard': ['a', 'b'], 'sym': ['a', 'b'], 'copy': ['a', 'b', 'f', 'n'], 'move': ['a', 'b', 'f', 'n'], 'remove': ['a', 'b', 'f', 'n']}
FWRAPS = ['fopen', 'fopen64', 'open', 'fread', 'read', 'fwrite', 'write', 'fflush', 'fclose', 'close', 'link', 'rename', 'unlink', 'remove']
FCLS = ['none', 'none', 'open', 'read', 'write', 'close', 'link', 'exdev', 'exdev', 'exdev-unlink', 'unlink', 'exdev-write', 'exdev-read', 'exdev-open', 'exdev-close']
SIZES = [0, 1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000, 65536, 65537, 200000]


def files(r, n):
    s = [{'op': 'new'}]
    for _ in range(n):
        x = r.random()
        a, b = r.randint(1, 3), r.randint(1, 3)
        if x < .3:
            s.append({'op': 'write', 'a': a, 'len': r.choice(SIZES[:12]), 'tag': r.randint(1, 9)})
        elif x < .38:
            s.append({'op': 'hard', 'a': a, 'b': b})
        elif x < .42:
            s.append({'op': 'sym', 'a': r.randint(1, 4), 'b': b})
        elif x < .9:
            s.append({'op': r.choice(['copy', 'move']), 'a': r.choice([a] * 9 + [4, 0]), 'b': r.choice([b] * 9 + [4, 0]), 'f': r.choice(FCLS), 'n': r.choice([1, 1, 2, 3, 4, 5])})
        else:
            s.append({'op': 'remove', 'a': r.choice([a] * 9 + [4, 0]), 'b': 0, 'f': r.choice(['none', 'none', 'unlink']), 'n': 1})
    return s


def f01(ctx):
    r = ctx.rng
    E = model_check(ctx, 'FsMC')
    W, tot, cov = walks(E, {'d': [{'k': 'none', 'g': 0, 'x': [0, 0], 'to': 0}] * 3 + [{'k': 'dir', 'g': 4, 'x': [0, 0], 'to': 0}]}, maxlen=120, rng=r, limit=ctx.n(400, None))
    ctx.extra['edges_covered'] = '%d of %d' % (cov, tot)
    S = [[{'op': 'new'}] + w for w in W]
    for z in SIZES:     # every size through every fault
        for op in ('copy', 'move'):
            for old in (False, True):
                for f in sorted(set(FCLS)):
                    for n in (1, 2, 3, 4, 50):
                        if f in ('none', 'exdev', 'link', 'unlink') and n > 1:
                            continue
                        s = [{'op': 'new'}, {'op': 'write', 'a': 1, 'len': z, 'tag': 3}]
                        if old:
                            s.append({'op': 'write', 'a': 2, 'len': r.choice(SIZES), 'tag': 5})
                        S.append(s + [{'op': op, 'a': 1, 'b': 2, 'f': f, 'n': n}])
    S += [files(r, r.choice([5, 12, 30])) for _ in range(ctx.n(300, 6000))]
    exe = build_driver(ctx, build_lib(ctx), 'fs', wraps=FWRAPS)
    replay_and_validate(ctx, exe, FARGS, 'FsTrace', S, tag='files')
    return finish(ctx)


# ------------------------------------------------------------------------------------------------------------ environment
VARGS = {'new': [], 'set': ['n', 'v'], 'get': ['n'], 'load': ['p', 'body', 'file', 'fault', 'k']}
VNAMES = ['P_A', 'P_B', 'P_', 'PX_A', 'Q_A', 'P_AB']
VFILES = [b'./s', b'./a b', b"./it's", b'noslash', b'./$HOME', b'./;x', b'./"q"', b'sub dir/s', b'-dash', b'ls', b'./a\\b', b'./*', b'./' + b'n' * 200, b'./`id`', b'./\xc3\xa9', b'sub dir/../s']


def vfile(r):
    if r.random() < .6:
        return r.choice(VFILES)
    n = bytes(r.choice(b"\'\'\"$\\`;&|<>()*?![]{}~# \t\nab-=:.\xff%,") for _ in range(r.randint(1, 6)))
    return r.choice([b'', b'', b'./', b'sub dir/']) + (n + b'x' if n in (b'.', b'..') else n)


def q(v):
    return b"'" + bytes(v).replace(b"'", b"'\\''") + b"'"


def shell_text(o, r):
    """The script an abstract list of assignments stands for, in one of the ways a shell allows it to be written."""
    out = [b'# settings']
    for a in o['as']:
        n, ref = VNAMES[a['n'] - 1].encode(), VNAMES[a['ref'] - 1].encode() if a['ref'] else b''
        v = {'lit': q(a['v']), 'cond': q(a['v']), 'ref': b'"$' + b'{' + ref + b'}"' + q(a['v']) if ref else q(a['v']), 'default': b'"' + b'$' + b'{' + ref + b':-$V}"'}[a['kind']]
        if a['kind'] == 'default':
            out.append(b'V=' + q(a['v']))
        st = b'export ' + n + b'=' + v if a['e'] and r.random() < .5 else n + b'=' + v + (b'; export ' + n if a['e'] else b'')
        if a['kind'] == 'cond':
            st = b'if [ -n "$' + ref + b'" ]; then ' + st + b'; fi'
        if r.random() < .2:
            st = b'if true\nthen\n\t' + st + b'\nfi'
        out.append(st)
        if r.random() < .15:
            out.append(r.choice([b'', b'# P_A=no', b'echo P_B=printed >/dev/null', b'true']))
    out.append({'ok': r.choice([b'true', b':', b'Z=1']), 'fail': b'false', 'syntax': b'if ; then ('}[o['end']])
    return b'\n'.join(out) + b'\n'


def conc(o, r):
    if o['op'] == 'load':
        o = dict(o, body=list(shell_text(o, r)), file=list(vfile(r)))
    return o


def vval(r):
    x = r.random()
    if x < .1:
        return []
    if x < .55:
        return [r.choice(b'abxyz=# \t\'"$`\\;&|<>()*?![]{}~\xff\xc3\x01\x7f%,.0') for _ in range(r.randint(1, 12))]
    if x < .75:
        return [r.choice(b'abcdefgh=') for _ in range(r.choice([1013, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2040, 2043, 2044, 2047, 2048, 3000, 5000, 20000]))]
    return list(r.choice([b'on', b'P_A=1', b'=', b'x=y', b'10', b' lead', b'trail ', b"'", b'"', b'$P_A', b'`pwd`', b'P_B=2 P_A=3']))


def envs(r, n):
    s = [{'op': 'new'}]
    for _ in range(n):
        x = r.random()
        if x < .2:
            s.append({'op': 'set', 'n': r.randint(1, 6), 'v': r.choice([[-1], vval(r), vval(r)])})
        elif x < .3:
            s.append({'op': 'get', 'n': r.randint(1, 6)})
        else:
            as_ = []
            for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
                k = r.choice(['lit', 'lit', 'lit', 'ref', 'cond', 'default'])
                as_.append({'n': r.randint(1, 6), 'e': r.random() < .7, 'kind': k, 'v': vval(r), 'ref': 0 if k == 'lit' else r.randint(1, 6)})
            s.append({'op': 'load', 'p': list(r.choice([b'P_', b'P_', b'P_', b'P', b'P_A', b'PX_', b'Q', b'Z_', b'P_AB', b'P_ABC', b'PX_A=', b'p_'])), 'as': as_,
                      'end': r.choice(['ok'] * 10 + ['fail', 'syntax']), 'fault': r.choice(['none'] * 14 + ['missing', 'null', 'popen', 'setenv', 'setenv']), 'k': r.choice([1, 1, 2, 3])})
    return [conc(o, r) for o in s]


def v01(ctx):
    r = ctx.rng
    E = model_check(ctx, 'EnvMC')
    W, tot, cov = walks(E, {'e': [[-1]] * 6}, maxlen=40, rng=r, limit=ctx.n(250, 6000))
    ctx.extra['edges_covered'] = '%d of %d' % (cov, tot)
    S = [[conc(o, r) for o in [{'op': 'new'}] + w] for w in W]
    for f in VFILES:        # every file name
        S.append([{'op': 'new'}, dict(conc({'op': 'load', 'p': list(b'P_'), 'as': [{'n': 1, 'e': True, 'kind': 'lit', 'v': list(b'v'), 'ref': 0}], 'end': 'ok', 'fault': 'none', 'k': 0}, r), file=list(f))])
    for n in list(range(1010, 1030)) + list(range(2036, 2052)):     # lengths around the reader's chunk
        S.append([{'op': 'new'}, conc({'op': 'load', 'p': list(b'P_'), 'as': [{'n': 1, 'e': True, 'kind': 'lit', 'v': [120] * n, 'ref': 0}, {'n': 2, 'e': True, 'kind': 'ref', 'v': [121], 'ref': 1}], 'end': 'ok', 'fault': 'none', 'k': 0}, r)])
    S += [envs(r, r.choice([4, 10, 20])) for _ in range(ctx.n(250, 5000))]
    exe = build_driver(ctx, build_lib(ctx), 'env', wraps=['popen', 'setenv'])
    replay_and_validate(ctx, exe, VARGS, 'EnvTrace', S, tag='load')
    # recorded finding: a value with a line break is cut at the break, and what follows is taken for another assignment
    one = lambda v: [{'op': 'new'}, conc({'op': 'load', 'p': list(b'P_'), 'as': [{'n': 1, 'e': True, 'kind': 'lit', 'v': list(v), 'ref': 0}], 'end': 'ok', 'fault': 'none', 'k': 0}, r)]
    K = [one(b'l1\nl2'), one(b'l1\nP_B=forged')]
    ev = run_driver(ctx, exe, VARGS, K, tag='known')
    if any(e[-1].get('r', {}).get('e', [[]])[0] == list(b'l1') for e in ev):
        ctx.known_hits.append('the value of a variable that contains line breaks is cut at the first one; a following line of the form PREFIX...=... is exported as a variable of its own (u_env_init, env.c)')
    elif [e for e in validate(ctx, 'EnvTrace', ev, tag='tv-known')]:
        replay_and_validate(ctx, exe, VARGS, 'EnvTrace', K, tag='multiline')
    return finish(ctx)


# ------------------------------------------------------------------------------------------------------------ passwords
PARGS = {'bad': ['w'], 'new': ['m', 'h', 'n', 'k'], 'src': ['t'], 'retr': ['u', 'f'], 'auth': ['u', 'p', 'f'], 'term': []}


def phash(p):
    out = []
    for i in range(1, 5):
        a = 11 * i
        for c in p:
            a = (a * 7 + c + i) % 9973
        out.append(97 + a % 26)
    return bytes(out)


PUSERS = [b'joe', b'jo', b'joey', b'j', b'joe ', b' joe', b'#joe', b'Joe', b'joe:pw', b'', b'joe:', b':', b'u' * 253, b'u' * 252, b'u' * 254, b'u' * 255, b'u' * 300, b'a b', b'\xc3\xa9', b'root', b'pw', b'joe\n', b'tail']
PPW = [b'pw', b'p', b'pww', b'', b'pw ', b'PW', b'h', b'pw:h', b'p w', b'x' * 200, b'x' * 249, b'x' * 250, b'x' * 251, b'x' * 252, b'x' * 253, b'x' * 256, b'x' * 400, b'pw\n', b'#', b'\xff\xfe']


def pline(r, h):
    f = lambda x: (lambda q: q if r.random() < .8 else q + r.choice([b'x', q]) if r.random() < .6 else q[:3])(phash(x)) if h and r.random() < .8 else x
    x = r.random()
    u = r.choice(PUSERS[:7] * 3 + [b'u' * 252, b'u' * 253, b'a b', b'\xc3\xa9', b'root'])
    p = f(r.choice(PPW[:9] * 3 + PPW[9:17]))
    if x < .5:
        l = u + b':' + p
    elif x < .7:
        l = u + b':' + p + b':' + r.choice([b'hint', b'', b'h:i', b'pw', b' '])
    elif x < .78:
        l = r.choice([u, b':' + p, u + b':', b':', b'::', u + b'::' + p, b':' + u + b':' + p, b'', b' ', b'\t', u + b':' + p + b'::x'])
    elif x < .85:
        l = b'#' + u + b':' + p
    elif x < .97:        # around the longest line
        n = r.choice([250, 252, 253, 254, 255, 256, 257, 260, 300, 508, 509, 510, 511, 512, 600])
        body = u + b':' + p
        l = (b'z' * max(0, n - len(body)) + body) if r.random() < .6 else (body + b':' + b'z' * max(0, n - len(body) - 1))
        if len(l) == 255:
            l += b'z'
    else:
        l = b'joe' + b':' + f(b'pw') + b':' + b'q' * 300 + b'joe:' + f(b'other')
    return l


def psrc(r, h):
    ls = [pline(r, h) for _ in range(r.choice([0, 1, 2, 3, 5, 9, 40]))]
    t = b'\n'.join(ls) + (b'\n' if r.random() < .8 or (ls and len(ls[-1]) >= 255) else b'')
    return list(t), [l.split(b':')[0] for l in ls if b':' in l], [l.split(b':')[1] for l in ls if b':' in l]


def pwds(r, n):
    s, h, us, ps = [], False, [], []
    for i in range(n):
        x = r.random()
        if i == 0 or x < .04:
            h = r.random() < .3
            k = r.choice(['cb', 'cb', 'file', 'nc'])
            s.append({'op': 'new', 'm': r.random() < .6, 'h': h, 'n': k == 'file' or r.random() < .8, 'k': k})
        elif x < .2 or i == 1:
            t, us, ps = psrc(r, h)
            s.append({'op': 'src', 't': t})
        elif x < .23:
            s.append({'op': 'term'})
        elif x < .24:
            s.append({'op': 'bad', 'w': r.choice(['uri', 'open', 'load', 'len', 'long', 'out'])})
        else:
            u = list(r.choice(us) if us and r.random() < .6 else r.choice(PUSERS))
            f = r.choice(['none'] * 8 + ['open', 'stat'])
            if x < .55:
                s.append({'op': 'retr', 'u': u, 'f': f})
            else:
                s.append({'op': 'auth', 'u': u, 'p': list(r.choice(ps) if ps and r.random() < .4 else r.choice(PPW)), 'f': f})
    return s + [{'op': 'term'}]


def p01(ctx):
    r = ctx.rng
    E = model_check(ctx, 'PwdMC', consts={'Deep': ctx.n('FALSE', 'TRUE')})
    W, tot, cov = walks(E, pwd_init(E), maxlen=60, rng=r, limit=ctx.n(400, None))
    ctx.extra['edges_covered'] = '%d of %d' % (cov, tot)
    S = [w + [{'op': 'term'}] for w in W]
    for k in (1, 2):        # what follows the part of a long line which fits
        for t in (b'j:p', b'j:pw', b'jo:p', b'joe:p', b'joe:pw', b'joe:h:x', b'#joe:pw', b':p', b''):
            for z in (254, 255, 253):
                for end in (b'\n', b'\njoe:pw\n'):
                    src = b'q' * (255 * k + z - 254) + t + end
                    if any(len(l) == 255 for l in src.split(b'\n')):
                        continue
                    q = [{'op': 'retr', 'u': list(u), 'f': 'none'} for u in (b'j', b'jo', b'joe')] + [{'op': 'auth', 'u': list(b'joe'), 'p': list(p), 'f': 'none'} for p in (b'p', b'pw')]
                    S.append([c for m in (False, True) for c in [{'op': 'new', 'm': m, 'h': False, 'n': True, 'k': r.choice(['cb', 'file'])}, {'op': 'src', 't': list(src)}] + q + [{'op': 'term'}]])
    S += [pwds(r, r.choice([10, 25, 60])) for _ in range(ctx.n(400, 8000))]
    exe = build_driver(ctx, build_lib(ctx), 'pwd', wraps=['stat', 'fopen', 'fclose'])
    replay_and_validate(ctx, exe, PARGS, 'PwdTrace', S, tag='pwds')
    return finish(ctx)


def pwd_init(E):
    return next(f for f, o, t in E if not f['on'] and f['src'] == [] and f['ver'] == 0)


# ------------------------------------------------------------------------------------------------------------ logging
GARGS = {'new': [], 'hook': ['h', 'a', 'want'], 'lock': ['h', 'a'], 'unlock': ['h', 'a'], 'strerr': ['en', 'n'],
         'write': ['lev', 'fac', 'ctx', 'err', 'e0', 'file', 'line', 'func', 'kind', 's', 'n'], 'mac': ['lev', 'err', 'e0', 'kind', 's', 'n'],
         'con': ['err', 'e0', 'kind', 's', 'n']}


def etext(e):
    return list(os.strerror(e).encode()) if e else []


def logs(r, n):
    s = [{'op': 'new'}]
    for _ in range(n):
        x = r.random()
        if x < .1:
            s.append({'op': 'hook', 'h': r.choice([0, 1, 2, 3]), 'a': r.randint(0, 3), 'want': r.random() < .6})
        elif x < .2:
            s.append({'op': r.choice(['lock', 'unlock']), 'h': r.randint(0, 2), 'a': r.randint(0, 3)})
        else:
            err = r.choice([0, 0, 0, 1, 2, 4, 12, 22, 36, 84, 110, 133, 134, 9999, 2**31 - 1])
            e0 = r.choice([0, 1, 2, 12, 110, 99999])
            kind = r.choice(['s', 's', 'd', 'sd', 'pad', 'pad', 'lit', 'empty', 'bad'])
            t = [r.choice(b'abc %ns%d\t\x01\xff[]:') for _ in range(r.choice([0, 1, 5, 20, 200, 900, 960, 990, 1000, 1010, 1015, 1020, 1022, 1023, 1024, 1100, 5000]))]
            m = r.choice([0, 7, -3]) if kind != 'pad' else r.choice([1, 30, 500, 1200, 2000] + [r.randint(900, 1030) for _ in range(12)])
            b = {'err': err, 'et': etext(err), 'e0': e0, 'kind': kind, 's': t, 'n': m}
            if x < .75:
                f = lambda: list(r.choice([b'f.c', b'', b'x' * 30, b'/a/b/%s.c', b'y' * r.choice([100, 500, 1000])]))
                s.append(dict(b, op='write', lev=r.randint(0, 7), fac=r.choice([0, 8, 128, 136, 184]), ctx=r.random() < .6, file=f(), line=r.choice([0, 1, 12345]), func=f()))
            elif x < .88:
                s.append(dict(b, op='mac', lev=r.randint(0, 7)))
            elif x < .94:
                s.append(dict(b, op='con'))
            else:
                en = r.choice([0, 1, 2, 13, 110, 131, 500, 1023, 1024, 100000])
                s.append({'op': 'strerr', 'en': en, 'et': list(os.strerror(en).encode()), 'n': r.choice([1, 2, 8, 20, 64, 128, 300])})
    return s


def g01(ctx):
    r = ctx.rng
    E = model_check(ctx, 'LogMC')
    W, tot, cov = walks(E, {'h': 0, 'ha': 0, 'l': 0, 'la': 0, 'u': 0, 'ua': 0}, maxlen=60, rng=r, limit=None)
    ctx.extra['edges_covered'] = '%d of %d' % (cov, tot)
    S = [[{'op': 'new'}] + w for w in W]
    for ctxf in (False, True):       # every length around the limit, every level
        for err in (0, 2):
            for hk in (0, 1):
                for base in (960, 1000):
                    s = [{'op': 'new'}, {'op': 'lock', 'h': 1, 'a': 1}, {'op': 'unlock', 'h': 1, 'a': 2}, {'op': 'hook', 'h': hk, 'a': 1, 'want': True}]
                    for k in range(40):
                        s.append({'op': 'write', 'lev': k % 8, 'fac': 128, 'ctx': ctxf, 'err': err, 'et': etext(err), 'e0': k, 'file': b('f.c'), 'line': 9, 'func': b('g'), 'kind': 'pad', 's': b('x'), 'n': base + k})
                    S.append(s)
    S += [logs(r, r.choice([10, 25, 50])) for _ in range(ctx.n(300, 6000))]
    exe = build_driver(ctx, build_lib(ctx), 'log', wraps=['vsyslog', '__vsyslog_chk', 'syslog', '__syslog_chk', 'getpid'])
    replay_and_validate(ctx, exe, GARGS, 'LogTrace', S, tag='logs')
    return finish(ctx)
