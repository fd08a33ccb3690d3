"""The flow control macros (carpal.h) and the small utility macros."""
from vlib import *

LEV = ['emerg', 'alert', 'crit', 'err', 'warn', 'notice', 'info', 'dbg']
FORMS = ['u', 'err', 'strerror', 'if', 'ifm', 'ifb', 'return_if', 'return_ifm', 'return_sif', 'return_sifm', 'goto_if', 'err_if', 'err_ifm', 'err_sif', 'err_sifm', 'err_rcif']
SHAPES = {'int': 'ev(%d)', 'and': 'ev(%d) && "a%%s\\n"', 'ptr': 'evp(%d)', 'long': 'evl(%d)', 'dbl': 'evd(%d)', 'eq': 'ev(%d) == 5', 'sel': 'ev(%d) ? 0 : 1'}
MSG = {'s': '"%%s", ms(%d)', 'sd': '"<%%s|%%d>", ms(%d), N', 'lit': '"%%%%a"', 'empty': '"%%s", ""'}
FORK = ('die', 'die_if')
ARGS = {'call': ['fi', '#vs', '#es', '#as', '#rs', 'e0', 's', 'n', 'hook', 'fac', 'fk'], 'once': ['n', 'w'], 'free': ['n', 'w'], 'close': ['n', 'w'],
        'minmax': ['a', 'b'], 'tsub': ['a', 'b', 'c', 'd'], 'cpy': ['t']}


def c_stmt(i, st, compat):
    p, f, pos, sh, kind = st
    x = SHAPES[sh] % i
    m = MSG[kind] % i if '%d)' in MSG[kind] else MSG[kind].replace('%%', '%')
    r = 'rv(%d)' % i
    n = f if f in FORK else ('%s_%s' % (p, f) if f != 'u' else p if compat else 'u_' + p)
    a = {'u': m, 'err': m, 'strerror': 'E[%d]' % i, 'if': x, 'ifm': '%s, %s' % (x, m), 'ifb': x, 'return_if': '%s, %s' % (x, r), 'return_ifm': '%s, %s, %s' % (x, r, m),
         'return_sif': '%s, %s' % (x, r), 'return_sifm': '%s, %s, %s' % (x, r, m), 'goto_if': x + ', gt', 'err_if': x, 'err_ifm': '%s, %s' % (x, m), 'err_sif': x,
         'err_sifm': '%s, %s' % (x, m), 'err_rcif': '%s, %s' % (x, r), 'die': 'R[%d], %s' % (i, m), 'die_if': x}[f]
    c = '%s (%s)' % (n, a)
    if f == 'ifb':
        return '%s { blk(%d); }' % (c, i)
    return '%s;' % c if pos == 2 else 'if (A[%d]) %s; else els(%d);' % (i, c, i)


def gen(progs, compat):
    o = []
    for k, (prog, line) in enumerate(progs):
        o.append('#line %d "f.c"' % line)
        o.append('static int t%d(void) { int rc = 0; %s GTOERR }' % (k, ' '.join(c_stmt(i + 1, st, compat) for i, st in enumerate(prog))))
    o.append('static int (*fns[])(void) = { %s };' % ', '.join('t%d' % k for k in range(len(progs))))
    return '\n'.join(o) + '\n'


def rst(r, last=True):
    p = r.choice(LEV + ['dbg', 'con', 'nop', 'warn'])
    f = r.choice(['return_if', 'err_if', 'goto_if']) if p == 'nop' else r.choice(FORMS if last else [x for x in FORMS if x != 'err'] + ['if', 'ifm', 'u'])
    if last and r.random() < .06:
        p, f = 'crit', r.choice(FORK)
    return (p, f, 2 if f == 'ifb' else r.choice([1, 2, 2]), r.choice(list(SHAPES)), r.choice(list(MSG)))


def call(r, k, prog, line, dbg, vs=None, as_=None):
    n = len(prog)
    es = [r.choice([0, 1, 2, 13, 22, 34, 110, 133, 4000]) for _ in prog]
    s = bytes(r.choice(b'ab %sd\xe9') for _ in range(r.choice([0, 1, 5, 30, 30, 900, 990, 1023, 1024, 1100]) if r.random() < .4 else r.choice([0, 3, 8])))
    return {'op': 'call', 'fi': k, 'prog': [dict(p=p, f=f, pos=pos, sh=sh, x=b(SHAPES[sh] % (i + 1)), kind=kind) for i, (p, f, pos, sh, kind) in enumerate(prog)],
            'vs': vs or [r.choice([0, 0, 1, 5, -1]) for _ in prog], 'as': as_ or [r.randint(0, 1) for _ in prog], 'es': es, 'ets': [b(os.strerror(e)) for e in es],
            'rs': [r.choice([0, 1, 7, 99, 200]) for _ in prog], 'e0': r.choice([0, 5, 9]), 's': list(s), 'n': r.choice([0, -5, 123]), 'hook': r.randint(0, 1),
            'fac': r.choice([8, 24, 128, 184]), 'dbg': dbg, 'line': line, 'fn': b('t%d' % k), 'fk': 1 if any(x[1] in FORK for x in prog) else 0}


def utils(r):
    C = [{'op': 'once', 'n': n, 'w': w} for w in (0, 1) for n in (0, 1, 3, 1)]
    C += [{'op': 'free', 'n': n, 'w': w} for w in (0, 1) for n in (0, 1)] + [{'op': 'close', 'n': n, 'w': w} for w in (0, 1, 2) for n in (0, 1, 2)]
    C += [{'op': 'minmax', 'a': x, 'b': y} for x in (-3, 0, 2, 7) for y in (-3, 0, 2, 7)]
    C += [{'op': 'tsub', 'a': x, 'b': u, 'c': y, 'd': v} for x in (0, 5, 100000) for y in (0, 5, 7) for u in (0, 1, 999999, 500000) for v in (0, 1, 999999, 500000)]
    C += [{'op': 'cpy', 't': list(b'abcdefghijk'[:k])} for k in range(12)]
    return C


def g02(ctx):
    r = ctx.rng
    E = []
    for dbg in ('TRUE', 'FALSE'):
        E += [e[1] for e in model_check(ctx, 'CarpalMC', consts={'Dbg': dbg})]
    if not ctx.quick:
        model_check(ctx, 'CarpalMC', edges=False, consts={'PLen': 3, 'Dbg': 'TRUE'}, timeout=3000)
    for variant, flags in (('plain', []), ('debug', ['-DDEBUG']), ('compat', ['-DDEBUG', '-DLIBU_1X_COMPAT'])):
        dbg, compat = variant != 'plain', variant == 'compat'
        P = []
        for p in LEV + ['con', 'nop']:
            for f in FORMS:
                for pos in (1, 2):
                    if (p == 'nop' and f not in ('return_if', 'err_if', 'goto_if')) or (f == 'ifb' and pos == 1):
                        continue
                    if variant == 'compat' and f != 'u' and r.random() < .7:
                        continue
                    P.append([(p, f, pos, r.choice(list(SHAPES)), r.choice(list(MSG)))])
        for sh in SHAPES:
            for f in FORMS[3:] + ['die_if']:
                P.append([('crit' if f == 'die_if' else 'warn', f, 2 if f == 'ifb' else r.choice([1, 2]), sh, 's')])
        for kind in MSG:
            P += [[('crit', 'die', pos, 'int', kind)] for pos in (1, 2)]
        nmc, seen = ctx.n(120, 600), set()
        mc = [e for e in E if e['dbg'] == dbg and len(e['prog']) == 2]
        for e in r.sample(mc, min(len(mc), 4 * nmc)):
            k = tuple((s['p'], s['f'], s['pos'], r.choice(list(SHAPES)), r.choice(list(MSG))) for s in e['prog'])
            if k[0][1] != 'die' and len(seen) < nmc:
                seen.add(k)
        P += [list(k) for k in seen]
        for _ in range(ctx.n(150, 800)):
            n = r.randint(2, 5)
            P.append([rst(r, i == n - 1) for i in range(n)])
        P = [(x, 50 + 3 * i) for i, x in enumerate(P)]
        lib = build_lib(ctx, extra=('-DV_' + variant,))
        d = os.path.join(lib['dir'], 'gen')
        os.makedirs(d)
        open(os.path.join(d, 'carpal_gen.h'), 'w').write(gen(P, compat))
        exe = build_driver(ctx, dict(lib, cflags=lib['cflags'] + ['-I', d, '-O0'] + flags), 'carpal', wraps=['vsyslog', '__vsyslog_chk', 'syslog', '__syslog_chk', 'getpid'])
        S = []
        for k, (prog, line) in enumerate(P):
            s = []
            if len(prog) == 1:
                for v in (0, 1, 5, -1):
                    for a in (0, 1):
                        if prog[0][1] in FORK and v in (5, -1):
                            continue
                        s.append(call(r, k, prog, line, dbg, [v], [a]))
            else:
                s += [call(r, k, prog, line, dbg) for _ in range(6)]
            S.append(s)
        S.append(utils(r))
        replay_and_validate(ctx, exe, ARGS, 'CarpalTrace', S, tag=variant)
    return finish(ctx)
