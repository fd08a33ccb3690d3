"""Networking."""
from vlib import *

NARGS = {'new': [], 'addr': ['uri', 'mode', 'k'], 'opts': ['add', 'v'], 'canacc': [], 'mk': ['#plan', 'tmo'], 'sd': ['uri', 'mode', 'opts', '#plan', 'tmo'],
         'conn': ['tmo', 'first', '#ev', 'fin', 'so', 'hi', 'nb0', 'ff', 'late', 'tu'], 'acc': ['k', 'end'], 'nb': ['nb0', 'on', 'ff'], 'nagle': ['bad', 'ff'],
         'ntop': ['af', 'b', 'len'], 'sa': ['af', 'b', 'port', 'len']}
NWRAPS = ['socket', 'close', 'bind', 'listen', 'connect', 'select', 'pselect', 'poll', 'ppoll', 'gettimeofday', 'clock_gettime', 'setsockopt', 'getsockopt',
          'fcntl', 'fcntl64', 'ioctl', 'accept', 'getaddrinfo', 'freeaddrinfo']
SCHEMES = ['tcp', 'tcp4', 'tcp6', 'udp', 'udp4', 'udp6', 'sctp', 'sctp4', 'sctp6', 'TCP', 'Udp6', 'tcp5', 'tcp46', 'ip', 'unix6', 'unixx', 'http']
PORTS = ['80', '1', '65535', '65536', '65537', '70000', '99999', '131152', '4294967376', '0', '00', '', None, '*', '080', '0000443', 'http', 'smtp', 'alt', 'nosuch', '0x50', '-1', '80a', '+80', '1.5',
         '18446744073709551696', '**', '8*']


def ip6(r):
    b = [r.choice([0, 0, 0, 1, 0xab, 0xabcd, 0xffff, 0xfe80, r.randrange(65536)]) for _ in range(8)]
    x = r.random()
    h = lambda w: ('%x' if r.random() < .8 else '%04X') % w
    if x < .3:
        return ':'.join(h(w) for w in b)
    i, j = sorted([r.randint(0, 8), r.randint(0, 8)])
    t = ':'.join(map(h, b[:i])) + '::' + ':'.join(map(h, b[j:] if j - i >= 1 else b[i + 1:]))
    if x > .93:
        t = r.choice(['1:2:3', ':1', '1::2::3', '12345::', 'g::', '::1.2.3.4', '::ffff:10.0.0.1', '1:2:3:4:5:6:7:8:9', '1:2:3:4:5:6:9.8.7.6', '::1.2.3', ':', '1:', '::1:', '1:2:3:4:5:6:7::'])
    return t


def uri(r):
    if r.random() < .15:
        n = r.choice([1, 2, 20, 90, 100, 106, 107, 108, 109, 120])
        return r.choice(['unix://', 'unix:', 'UNIX://', 'unix://']) + r.choice(['', '/' + 'p' * (n - 1), '/' + 'd/' * (n // 2), '/a%20b', '/tmp/x.sock'])
    s = r.choice(SCHEMES[:11] * 3 + SCHEMES)
    six = s[-1:] == '6'
    h = r.choice(['*', 'one', 'multi', 'multi', 'nohost', '', '.'.join(str(r.choice([0, 1, 9, 10, 127, 192, 255, r.randrange(256)])) for _ in range(4)), '256.1.1.1', '1.2.3.4.5'])
    if six and r.random() < .6 or r.random() < .05:
        h = ip6(r)
    if ':' in h or h == '*' and six and r.random() < .7:
        h = '[' + h + ']'
    p = r.choice(PORTS[:4] + ['*', 'http'] * 2 + PORTS + [str(r.randint(1, 65535))] * 4)
    return s + '://' + r.choice(['', '', '', '', 'u@', 'u:p@']) + h + ('' if p is None else ':' + p) + r.choice(['', '', '', '/', '/x?y#z'])


def opts(r):
    return r.choice([0, 0, 1, 2, 4, 1 << 20, 4 | r.randrange(512) * 8, 4 | 1 << r.randint(3, 11), r.randrange(2048) * 2 & 3 | 1 << 20, (1 << 20) | 3, 4095, 4 | 1 | 1 << r.randint(3, 11)])


def plan(r):
    return ([r.choice([0, 1, 2, 3, 4, 5, 5, 5, 6, 7, 7, 8, 9, 10]) for _ in range(r.choice([0, 1, 1, 2, 3, 3, 4]))])


def netsess(r, n):
    s = [{'op': 'new'}]
    for _ in range(n):
        x = r.random()
        if x < .28:
            s.append({'op': 'addr', 'uri': b(uri(r)), 'mode': r.choice([0, 0, 0, 1, 1, 1, 1, 2]), 'k': r.choice([0] * 8 + [-1, 1, 2, 3, r.randint(4, 16), r.randint(4, 30)])})
        elif x < .36:
            s.append({'op': 'opts', 'add': r.random() < .5, 'v': opts(r)})
        elif x < .42:
            s.append({'op': 'canacc'})
        elif x < .62:
            s.append({'op': 'mk', 'plan': plan(r), 'tmo': r.choice([-1, -1, 50, 1000])})
        elif x < .74:
            s.append({'op': 'sd', 'uri': b(uri(r)), 'mode': r.choice([0, 1, 1]), 'opts': opts(r), 'plan': plan(r), 'tmo': r.choice([-1, 50])})
        elif x < .88:
            tmo, first, nb0 = r.choice([-1, 0, 1, 10, 999, 1000, 1001, 2500, 100000]), r.choice([0, 1, 1, 1, 2, 2, 3]), r.random() < .4
            top = max(tmo, 20) * 3 // 2 + 2
            fin = r.choice([-1, r.randint(0, top), r.randint(0, top), max(tmo, 0)])
            if tmo < 0:
                fin = abs(fin)
                if first == 1:
                    nb0 = True
            hi = r.random() < .2
            s.append({'op': 'conn', 'tmo': tmo, 'first': first, 'ev': sorted(set(r.randint(0, top) for _ in range(r.choice([0, 0, 1, 2, 5])))), 'fin': fin, 'so': r.choice([0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8]),
                      'hi': hi, 'nb0': nb0, 'ff': 0 if r.random() < .8 else r.choice([1, 2, 3, 4, 5, 6, 7])})
            s[-1]['tu'] = r.choice([0, 1, 500, 999]) if tmo >= 0 and r.random() < .3 else 0
            s[-1]['late'] = r.choice([1, 5, 50, 1000, 5000]) if s[-1]['ff'] == 0 and r.random() < .3 else 0
        elif x < .9:
            s.append({'op': 'acc', 'k': r.choice([0, 1, 2, 7]), 'end': r.choice([0, 0, 1, 2, 3])})
        elif x < .92:
            s.append({'op': 'nb', 'nb0': r.random() < .5, 'on': r.random() < .5, 'ff': r.choice([0, 0, 1, 2])})
        elif x < .93:
            s.append({'op': 'nagle', 'bad': r.random() < .2, 'ff': r.choice([0, 0, 1])})
        else:
            af = r.choice([4, 4, 6, 6, 1, 9])
            v = [r.choice([0, 0, 1, 9, 10, 99, 100, 255, r.randrange(256)]) for _ in range({4: 4, 6: 16}.get(af, 4))]
            if af == 6 and r.random() < .5:
                i = r.randint(0, 15)
                v[i:r.randint(i, 16)] = []
                v += [0] * (16 - len(v))
            if x < .965:
                s.append({'op': 'ntop', 'af': af if af != 1 else 9, 'b': v, 'len': r.choice([0, 1, 2, 3, 7, 8, 10, 13, 14, 15, 16, 17, 39, 40, 45, 46, 64])})
            else:
                if af == 1:
                    v = list(b('/' + 'q' * (r.choice([1, 5, 20, 106, 107, 108]) - 1)))
                s.append({'op': 'sa', 'af': af, 'b': v, 'port': r.choice([0, 1, 80, 255, 256, 443, 8080, 65535]), 'len': r.choice([0, 1, 2, 5, 9, 10, 11, 12, 16, 20, 21, 22, 64, 107, 108, 109, 256])})
    return s


def n01(ctx):
    r = ctx.rng
    E = model_check(ctx, 'NetMC', consts={'Deep': 'FALSE' if ctx.n(1, 0) else 'TRUE'})
    W, tot, cov = walks(E, {'cs': [], 'mode': 0, 'opts': 0}, maxlen=200, rng=r, limit=ctx.n(250, None))
    ctx.extra['edges_covered'] = '%d of %d' % (cov, tot)
    S = [[{'op': 'new'}] + w for w in W] + [netsess(r, r.choice([10, 40, 80])) for _ in range(ctx.n(500, 8000))]
    exe = build_driver(ctx, build_lib(ctx), 'net', wraps=NWRAPS)
    replay_and_validate(ctx, exe, NARGS, 'NetTrace', S, tag='sockets')
    return finish(ctx)



