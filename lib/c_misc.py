"""Text, number and I/O utilities."""
from vlib import *

ARGS = {'strtok': ['s', 'd'], 'tokenize': ['s', 'd', 'n'], 'trim': ['s'], 'lcpy': ['s', 'n'], 'lcat': ['d', 's', 'n'], 'printf': ['n', 'kind', 's', 'k'],
        'path': ['n', 'kind', 's', 'k', 'sep'], 'strndup': ['s', 'n'], 'strdup': ['s'], 'memdup': ['s'], 'sstrncpy': ['s', 'n'], 'chr': ['c'], 'blankstr': ['s'],
        'isbin': ['s', 'n'], 'atol': ['s', 'e'], 'atoi': ['s', 'e'], 'atoumax': ['s', 'e'], 'atof': ['s', 'e'], 'io': ['dir', 'l', '#sc', 'np', 'ep'],
        'read': ['dir', 'l', '#sc'], 'write': ['dir', 'l', '#sc'], 'sleep': ['n', '#sc'], 'longsleep': ['n'], 'load': ['where', 's', 'n'], 'dump': ['where', 's'],
        'savepid': ['where']}


def enumerated(ctx, fams):
    out = []
    for which, ml in fams:
        E = model_check(ctx, 'MiscMC', consts={'Which': which, 'MaxLen': ml})
        out += [e[1] for e in E]
    ctx.extra['calls_enumerated'] = len(out)
    return out


def go(ctx, calls, rule=None):
    exe = build_driver(ctx, build_lib(ctx), 'misc', wraps=['read', 'write', 'sleep'])
    S = [calls[i:i + 40] for i in range(0, len(calls), 40)]
    replay_and_validate(ctx, exe, ARGS, 'MiscTrace', S, tag='calls', samples=5)
    return finish(ctx, rule=rule)


def m01(ctx):
    r = ctx.rng
    C = enumerated(ctx, [(1, ctx.n(4, 6)), (2, ctx.n(4, 7)), (3, ctx.n(4, 6))])
    C += [{'op': 'chr', 'c': c} for c in list(range(0, 300)) + [-1]]
    ab = [b'a ', b'ab\t ,', b'///a', b',', b'a', bytes(range(1, 256))]

    def txt(n=None, al=None):
        n = r.choice([0, 1, 2, 3, 7, 20, 63, 64, 100, 300]) if n is None else n
        al = al or r.choice(ab)
        return [r.choice(al) for _ in range(n)]
    for k in range(0, 45):      # around the growth steps of the token vector
        s = [c for i in range(k) for c in [97 + i % 26] * r.randint(1, 3) + [44] * r.choice([1, 1, 1, 3])]
        C += [{'op': 'strtok', 's': s, 'd': b(',')}, {'op': 'strtok', 's': s[:-1], 'd': b(', ')}, {'op': 'strtok', 's': b(',,') + s, 'd': b(',;')}]
        C += [{'op': 'tokenize', 's': s, 'd': b(','), 'n': n} for n in (0, 1, 2, k, k + 1, k + 2)]
    for _ in range(ctx.n(1500, 40000)):
        s = txt()
        n = max(0, len(s) + r.choice([-3, -2, -1, 0, 1, 2, 3, 50]))
        x = r.randint(0, 11)
        if x == 0:
            C.append({'op': 'trim', 's': [32] * r.choice([0, 1, 3]) + s + [r.choice([9, 32])] * r.choice([0, 1, 4])})
        elif x == 1:
            C.append({'op': 'lcpy', 's': s, 'n': r.choice([n, 0, 1])})
        elif x == 2:
            d = txt()
            C.append({'op': 'lcat', 'd': d, 's': s, 'n': max(0, len(s) + len(d) + r.choice([-len(s), -2, -1, 0, 1, 2, 9]))})
        elif x == 3:
            k = r.choice(['s', 'd', 'sd', 'pad', 'lit', 'empty', 'bad'])
            C.append({'op': 'printf', 'n': r.choice([n, 0, 1, 2, 10, 11, 12]), 'kind': k, 's': s, 'k': r.choice([0, 7, 12, 30]) if k == 'pad' else r.choice([0, 7, -12, 2147483647])})
        elif x == 4:
            k = r.choice(['s', 's', 'sd', 'lit', 'empty', 'bad'])
            t = txt(al=r.choice([b'/a', b'//////a', b'/', b'\\/a']))
            C.append({'op': 'path', 'n': max(0, len(t) + r.choice([-1, 0, 1, 2, 9, 60])), 'kind': k, 's': t, 'k': r.choice([0, 77]), 'sep': r.choice([47, 47, 92, 97])})
        elif x == 5:
            C.append({'op': 'strndup', 's': s, 'n': n})
        elif x == 6:
            C.append({'op': r.choice(['strdup', 'blankstr']), 's': s})
        elif x == 7:
            C.append({'op': 'memdup', 's': [r.randint(0, 255) for _ in range(r.choice([0, 1, 5, 200]))]})
        elif x == 8:
            C.append({'op': 'sstrncpy', 's': s, 'n': r.choice([n, 0, 1])})
        elif x == 9:
            d = [r.randint(0, 127) for _ in range(r.choice([0, 1, 9]))] + ([r.randint(120, 255)] if r.random() < .6 else [])
            C.append({'op': 'isbin', 's': d, 'n': r.choice([len(d), max(0, len(d) - 1), 0])})
        elif x == 10:
            C.append({'op': 'strtok', 's': s, 'd': r.choice([b(','), b(', \t'), b('a'), b(''), b('/,a')])})
        else:
            C.append({'op': 'tokenize', 's': s, 'd': r.choice([b(','), b(', '), b('a')]), 'n': r.choice([1, 1, 2, 3, 5, 40])})
    C = [c for c in C if not ('s' in c and c['s'] == [-1])]
    return go(ctx, C)


def num_text(r):
    big = [b'0', b'1', b'9', b'10', b'2147483647', b'2147483648', b'2147483649', b'4294967295', b'4294967296', b'9223372036854775807', b'9223372036854775808',
           b'9223372036854775809', b'18446744073709551615', b'18446744073709551616', b'18446744073709551614', b'99999999999999999999', b'123456789', b'1' * 40, b'0' * 30 + b'7']
    s = b''.join(r.choice([b' ', b'\t', b'\n', b'\v', b'\f', b'\r']) for _ in range(r.choice([0, 0, 0, 1, 2])))
    s += r.choice([b'', b'', b'-', b'+', b'-', b'--', b'+-', b'- '])
    s += r.choice(big) if r.random() < .8 else bytes(r.choice(b'0123456789') for _ in range(r.randint(0, 22)))
    s += r.choice([b'', b'', b'', b'x', b' ', b'.5', b'e3', b'\n', b'-1', b'\xff'])
    return s


def real_text(r):
    s = r.choice([b'', b'', b' ', b'\t\n'])
    s += r.choice([b'', b'-', b'+'])
    x = r.random()
    if x < .08:
        return s + r.choice([b'inf', b'INF', b'infinity', b'nan', b'NaN', b'in', b'na', b'infx', b'i', b'n'])
    s += r.choice([b'', b'0', b'1', b'00012', b'123456', b'999999999', b'5' * 14])
    s += r.choice([b'', b'.', b'.5', b'.0', b'.000001', b'.125000'])
    s += r.choice([b'', b'', b'e', b'e5', b'E-7', b'e+20', b'e-', b'e+', b'e400', b'e-400', b'e99999999999', b'e-99999999999', b'e0', b'e300', b'e-290', b'x', b' 1', b'e1.5'])
    return s


def m02(ctx):
    r = ctx.rng
    C = enumerated(ctx, [(4, ctx.n(3, 5)), (5, ctx.n(5, 6))])
    for _ in range(ctx.n(4000, 60000)):
        C.append({'op': r.choice(['atol', 'atoi', 'atoumax']), 's': list(num_text(r)), 'e': r.choice([0, 34, 22, 4])})
    for _ in range(ctx.n(1500, 30000)):
        C.append({'op': 'atof', 's': list(real_text(r)), 'e': r.choice([0, 34, 22])})
    r.shuffle(C)
    return go(ctx, C)


def i01(ctx):
    r = ctx.rng
    C = enumerated(ctx, [(6, ctx.n(4, 5))])
    for _ in range(ctx.n(1200, 20000)):
        l = r.choice([0, 1, 2, 10, 100, 1000, 5000])
        sc = [r.choice([-1, -1, 1, 2, 3, max(1, l // 2), l + 5]) for _ in range(r.choice([0, 3, 10, 60]))]
        if r.random() < .5:
            sc.append(r.choice([0, -2, -3, -4]))
            sc += [r.choice([0, 1, -1]) for _ in range(2)]
        d = r.choice('rw')
        x = r.random()
        if x < .6:
            C.append({'op': 'io', 'dir': d, 'l': l, 'sc': sc, 'np': r.random() < .8, 'ep': r.random() < .8})
        else:
            C.append({'op': 'read' if d == 'r' else 'write', 'dir': d, 'l': l, 'sc': sc})
    for n in (0, 1, 2, 1000, 2147483647):
        for sc in ([], [1], [5, 4, 3, 2, 1], [0, 3], [2, 0], [n], [n, n, max(n - 1, 0)]):
            if n:
                C.append({'op': 'sleep', 'n': n, 'sc': sc})
    C += [{'op': 'longsleep', 'n': s} for s in ('2147483648', '3000000000', '4294967295')]
    for n in (0, 1, 2, 4095, 4096, 4097, 9000):
        d = [r.randint(0, 255) for _ in range(n)]
        for m in (0, 1, max(0, n - 1), n, n + 1, 100000):
            C.append({'op': 'load', 'where': 'file', 's': d, 'n': m})
        C += [{'op': 'dump', 'where': w, 's': d} for w in ('file', 'nodir', 'full')]
    C += [{'op': 'load', 'where': w, 's': [], 'n': n} for w in ('nodir', 'dir', 'null', 'zero') for n in (0, 10, 100000)]
    C += [{'op': 'savepid', 'where': w} for w in ('file', 'nodir', 'full', 'file')]
    return go(ctx, C)
