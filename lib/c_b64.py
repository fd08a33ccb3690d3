"""Base64."""
import base64
from vlib import *

ARGS = {'enc': ['s', 'n'], 'dec': ['s', 'n']}


def e01(ctx):
    r = ctx.rng
    C = []
    for w, ml in ((1, ctx.n(4, 5)), (2, ctx.n(4, 5))):
        C += [e[1] for e in model_check(ctx, 'B64MC', consts={'Which': w, 'MaxLen': ml})]
    ctx.extra['calls_enumerated'] = len(C)
    for n in list(range(0, 70)) + [100, 255, 256, 257, 1000]:
        d = [r.randint(0, 255) for _ in range(n)]
        L = (n + 2) // 3 * 4
        C += [{'op': 'enc', 's': d, 'n': k} for k in sorted(set([0, 1, 3, 4, max(0, L - 4), max(0, L - 1), L, L + 1, L + 9]))]
        t = list(base64.b64encode(bytes(d)))
        C += [{'op': 'dec', 's': t, 'n': k} for k in sorted(set([0, max(0, n - 1), n, n + 1, n + 3, 2 * n]))]
    for c in range(256):        # every byte at every position of a quantum; every byte value through the codec
        for p in range(4):
            t = [65, 66, 67, 68]
            t[p] = c
            C += [{'op': 'dec', 's': t, 'n': 3}, {'op': 'dec', 's': [90, 109, 57, 118] + t, 'n': 8}, {'op': 'dec', 's': t + [90, 109, 57, 118], 'n': 6}]
        C += [{'op': 'enc', 's': s, 'n': 9} for s in ([c], [0, c], [255, c], [1, 2, c], [c, c, c, c])]
    for _ in range(ctx.n(2500, 50000)):
        t = bytearray(base64.b64encode(bytes(r.randint(0, 255) for _ in range(r.choice([1, 2, 3, 4, 8, 20, 61])))))
        for _ in range(r.choice([0, 1, 1, 2])):
            x, p = r.random(), r.randrange(max(1, len(t)))
            if x < .3:
                del t[p:p + r.randint(1, 4)]
            elif x < .6:
                t[p:p] = bytes([r.choice(b'=A/+-_ \n\x80\xff\x01')])
            elif t:
                t[p] = r.choice(b'==Az09+/-_. \n\x80\xc3\xff\x7f')
        n = len(t) // 4 * 3
        C.append({'op': 'dec', 's': list(t), 'n': max(0, n - r.choice([0, 0, 1, 2, 3, 4]) + r.choice([0, 0, 5]))})
    exe = build_driver(ctx, build_lib(ctx), 'b64')
    S = [C[i:i + 40] for i in range(0, len(C), 40)]
    replay_and_validate(ctx, exe, ARGS, 'B64Trace', S, tag='calls')
    return finish(ctx)
