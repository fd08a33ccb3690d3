"""Machinery shared by all checks: building the library and drivers from /repo's working tree, model checking with
TLC, replaying sessions on the real code, and validating the recorded traces against the specification with TLC."""
import os, sys, json, subprocess, shutil, hashlib, random, re, time, collections
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(2, min(8, os.cpu_count() or 2))
BASEFLAGS = ['-g', '-O1', '-D_GNU_SOURCE', '-DHAVE_CONF_H', '-w', '-fno-omit-frame-pointer',
             '-ftrivial-auto-var-init=pattern']
ASAN = ['-fsanitize=address']


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != 'thorough'
        self.work = os.path.join(V, '.work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(V, '.work', 'replay')
        os.makedirs(self.replays, exist_ok=True)
        self.t0 = time.time()
        self.rng = random.Random('%s/%s' % (prop, seed))
        self.states = 0          # distinct abstract states found by TLC
        self.transitions = 0     # transitions generated by TLC
        self.validated = 0       # sessions recorded from the real code accepted by TLC
        self.events = 0
        self.samples = []
        self.ops = collections.Counter()
        self.outcomes = collections.Counter()
        self.extra = {}
        self.violations = []     # (what, replay path)
        self.known_hits = []
        self.assumptions = []

    def elapsed(self):
        return time.time() - self.t0

    def n(self, quick, thorough):
        return quick if self.quick else thorough


# ---------------------------------------------------------------- building
def build_lib(ctx, asan=True, extra=()):
    tag = ('asan' if asan else 'plain') + ''.join(extra).replace('/', '_')
    d = os.path.join(ctx.work, 'lib-' + hashlib.sha1(tag.encode()).hexdigest()[:8])
    inc = os.path.join(d, 'include', 'u')
    os.makedirs(inc)
    shutil.copy(os.path.join(V, 'conf/u/libu_conf.h'), inc)
    for n in ('missing', 'toolbox'):
        os.symlink(os.path.join(REPO, 'include', n), os.path.join(inc, n))
    cf = BASEFLAGS + (ASAN if asan else []) + list(extra) + ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(d, 'include')]
    srcs = sorted(f for f in os.listdir(os.path.join(REPO, 'srcs/toolbox')) if f.endswith('.c') and f != 'facility.c')

    def cc(f):
        o = os.path.join(d, f[:-2] + '.o')
        r = subprocess.run(['gcc'] + cf + ['-c', os.path.join(REPO, 'srcs/toolbox', f), '-o', o], capture_output=True, text=True)
        return f, o, r
    objs = []
    with ThreadPoolExecutor(NCPU) as ex:
        for f, o, r in ex.map(cc, srcs):
            if r.returncode:
                raise CheckError('cannot compile %s: %s' % (f, r.stderr[:2000]))
            objs.append(o)
    lib = os.path.join(d, 'libu.a')
    subprocess.run(['ar', 'rcs', lib] + objs, check=True)
    return dict(dir=d, lib=lib, cflags=cf, asan=asan, objs=dict((os.path.basename(o), o) for o in objs))


def build_driver(ctx, lib, name, extra=(), wraps=(), common=True):
    exe = os.path.join(ctx.work, name + ('' if lib['asan'] else '-plain'))
    srcs = [os.path.join(V, 'drivers', name + '.c')] + ([os.path.join(V, 'drivers/drv.c')] if common else [])
    cmd = ['gcc'] + lib['cflags'] + ['-I', os.path.join(V, 'drivers')] + list(extra) + srcs + [lib['lib']] + \
        ['-Wl,--wrap=' + w for w in wraps] + ['-lm', '-o', exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CheckError('cannot build driver %s: %s' % (name, r.stderr[:3000]))
    return exe


# ---------------------------------------------------------------- scripts
def enc(v):
    if v is None:
        return '-'
    if isinstance(v, bool):
        return '1' if v else '0'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (list, tuple)):
        if len(v) == 1 and v[0] == -1:
            return '-'
        return 'x' + bytes(v).hex()
    if isinstance(v, Ints):
        return 'i' + ','.join(map(str, v.v))
    return str(v)


class Ints:
    def __init__(self, v):
        self.v = list(v)


def b(s):
    """bytes of a text, as the specifications see them"""
    return list(s.encode('latin1')) if isinstance(s, str) else list(s)


def script_line(op, args):
    parts = (['%s%d' % ('?' if op.get('rt') else '!', op['mk'])] if op.get('mk') else []) + [op['op']]
    for a in args[op['op']]:
        if a.startswith('#'):       # integer vector
            parts.append(enc(Ints(op[a[1:]])))
        else:
            parts.append(enc(op[a]))
    return ' '.join(parts)


def njobs(jobs, sessions):
    return max(1, min(jobs, (len(sessions) + 19) // 20))


def run_driver(ctx, exe, args, sessions, env=None, jobs=NCPU, timeout=600, tag='run'):
    """Replay the sessions (lists of op records) on the real code.  Returns for every session its list of events:
    the op record plus the observed result `r`; a crash/hang ends the session with the event {"op": "crash"}."""
    jobs = njobs(jobs, sessions)
    d = os.path.join(ctx.work, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    procs = []
    for j in range(jobs):
        sc, out = os.path.join(d, 's%d' % j), os.path.join(d, 'o%d' % j)
        with open(sc, 'w') as f:
            for i in range(j, len(sessions), jobs):
                f.write('session %d\n' % i)
                for op in sessions[i]:
                    f.write(script_line(op, args) + '\n')
        e = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=65536:'
                 'detect_stack_use_after_return=0:handle_abort=0:detect_odr_violation=0', LC_ALL='C', TZ='UTC', **(env or {}))
        rd = os.path.join(d, 'cwd%d' % j)
        os.makedirs(rd)
        e['DRV_DIR'] = rd
        procs.append((out, subprocess.Popen([exe, sc, out], env=e, cwd=rd, stdin=subprocess.DEVNULL,
                      stdout=open(os.path.join(d, 'out%d' % j), 'wb'), stderr=open(os.path.join(d, 'err%d' % j), 'wb'))))
    got = collections.defaultdict(list)
    crash, stopped = {}, set()
    end = time.time() + timeout
    for out, p in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            for _, q in procs:
                q.kill()
            raise CheckError('driver timed out')
        if rc != 0:
            raise CheckError('driver failed: exit %s' % rc)
        with open(out, errors='replace') as f:
            for line in f:
                try:
                    e = json.loads(line)
                except ValueError:
                    continue
                if 'stop' in e:     # too many hangs: the rest of this process' sessions was not executed
                    stopped.add([o for o, _ in procs].index(out))
                elif 'crash' in e:
                    crash[e['s']] = e['crash']
                else:
                    got[e['s']].append(e)
    res = []
    for i, ops in enumerate(sessions):
        evs = []
        if i % jobs in stopped and i not in got and i not in crash:
            res.append(evs)
            continue
        for k, op in enumerate(ops):
            if k < len(got[i]) and got[i][k]['i'] == k:
                evs.append(dict(op, r=got[i][k]['r'], **({'mem': got[i][k]['mem']} if 'mem' in got[i][k] else {})))
                if 'again' in got[i][k]:        # tried again after a refused memory request
                    evs.append(dict({a: v for a, v in op.items() if a not in ('mk', 'rt')}, r=got[i][k]['again']))
            else:
                evs.append({'op': 'crash', 'during': json.dumps(op), 'how': crash.get(i, 'no result')})
                break
        if i in crash and (not evs or evs[-1]['op'] != 'crash'):
            evs.append({'op': 'crash', 'during': 'end of session', 'how': crash[i]})
        res.append(evs)
    return res


# ---------------------------------------------------------------- TLC
def tlc(d, module, cfg, workers=1, mem='2g', timeout=850, extra=(), out=None):
    out = out or os.path.join(d, module + '.out')
    meta = os.path.join(d, 'meta-' + module + '-' + os.path.basename(out))
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx' + mem, '-cp', JARS, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-deadlock', '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    with open(out, 'wb') as f:
        try:
            r = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s' % module)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, out


def put_specs(d):
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(V, 'specs')):
        if f.endswith(('.tla', '.cfg')):
            shutil.copy(os.path.join(V, 'specs', f), d)


def model_check(ctx, module, cfg=None, edges=True, workers=NCPU, mem='8g', timeout=800, consts=None):
    """Exhaustive exploration of specs/<module>.tla. Returns (edges, inits): every transition of the state graph as
    (state, op, state') when the module prints them (ACTION_CONSTRAINT Edge)."""
    d = os.path.join(ctx.work, 'mc-' + module + (hashlib.sha1(repr(sorted(consts.items())).encode()).hexdigest()[:6] if consts else ''))
    put_specs(d)
    cfg = cfg or module + '.cfg'
    if consts:
        t = open(os.path.join(d, cfg)).read()
        for k, v in consts.items():
            t, n = re.subn(r'(?m)^(\s*)%s\s*=.*$' % re.escape(k), r'\g<1>%s = %s' % (k, v), t)
            if n != 1:
                raise CheckError('constant %s not in %s' % (k, cfg))
        open(os.path.join(d, cfg), 'w').write(t)
    rc, out = tlc(d, module, cfg, workers=workers, mem=mem, timeout=timeout)
    E, inits, tail = [], [], []
    st = tr = None
    with open(out, errors='replace') as f:
        for line in f:
            if line.startswith('"{') or line.startswith('"['):
                try:
                    x = json.loads(json.loads(line))
                except ValueError:
                    raise CheckError('garbled TLC output: %r' % line[:200])
                if edges:
                    if 'init' in x:
                        inits.append(x['init'])
                    else:
                        E.append((x['f'], x['o'], x['t']))
                continue
            tail.append(line)
            m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
            if m:
                tr, st = int(m.group(1)), int(m.group(2))
    if rc != 0 or st is None:
        raise CheckError('model checking of %s failed (rc %s):\n%s' % (module, rc, ''.join(tail)[-3000:]))
    ctx.states += st
    ctx.transitions += tr
    log('  TLC %s: %d distinct states, %d transitions, %d edges recorded' % (module, st, tr, len(E)))
    return E


def key(x):
    return json.dumps(x, sort_keys=True)


def walks(edges, init, maxlen=60, rng=None, limit=None):
    """Walks from the initial state covering every transition of the graph (greedy, nearest uncovered edge by BFS)."""
    succ = collections.defaultdict(dict)
    ops = {}
    for f, o, t in edges:
        kf, ko, kt = key(f), key(o), key(t)
        ops[ko] = o
        succ[kf].setdefault(ko, kt)
    i0 = key(init)
    unc = {s: list(m.keys()) for s, m in succ.items()}
    if rng:
        for s in sorted(unc):
            unc[s].sort()
            rng.shuffle(unc[s])
    left = sum(len(x) for x in unc.values())
    total = left
    out = []
    # BFS tree from init for restart prefixes
    while left and (limit is None or len(out) < limit):
        cur, w = i0, []
        progressed = False
        while len(w) < maxlen:
            if unc.get(cur):
                ko = unc[cur].pop()
                left -= 1
                w.append(ops[ko])
                cur = succ[cur][ko]
                progressed = True
                continue
            # nearest state having an uncovered edge
            seen, q, found = {cur: None}, collections.deque([cur]), None
            while q:
                s = q.popleft()
                if unc.get(s):
                    found = s
                    break
                for ko, t in succ[s].items():
                    if t not in seen:
                        seen[t] = (s, ko)
                        q.append(t)
            if found is None:
                break
            path = []
            s = found
            while seen[s] is not None:
                path.append(seen[s][1])
                s = seen[s][0]
            if w and len(w) + len(path) > maxlen:
                break
            for ko in reversed(path):
                w.append(ops[ko])
            cur = found
        if not progressed:
            break
        out.append(w)
    return out, total, total - left


# ---------------------------------------------------------------- trace validation
def _validate_chunk(ctx, module, sess, d):
    """sess: list of (index, events).  Returns None or (session index, event index, message)."""
    put_specs(d)
    n = 0
    where = []
    with open(os.path.join(d, 'trace.ndjson'), 'w') as f:
        for i, evs in sess:
            for k, e in enumerate(evs):
                f.write(json.dumps(e) + '\n')
                where.append((i, k))
                n += 1
    if n == 0:
        return None
    rc, out = tlc(d, module, module + '.cfg', workers=1, mem='3g')
    txt = open(out, errors='replace').read()
    m = re.search(r'The depth of the complete state graph search is (\d+)', txt)
    mm = None
    for x in re.finditer(r'<<\s*"MISMATCH",\s*(\d+)', txt):
        if mm is None or int(x.group(1)) > int(mm.group(1)):
            mm = x
    if rc == 0 and m and int(m.group(1)) == n + 1 and 'No error has been found' in txt:
        return None
    if mm:
        pos = int(mm.group(1)) - 1
        msg = txt[mm.start():mm.start() + 3000]
    elif m:
        pos = int(m.group(1)) - 1
        msg = 'no action of the specification explains this step'
    else:
        # invariant violated or evaluation error: the last state printed / the number of states generated locates it
        g = re.findall(r'(?m)^/?\\?\s*/\\ l = (\d+)', txt) or re.findall(r'(?m)\bl = (\d+)', txt)
        mi = re.search(r'Invariant (\w+) is violated|property (\w+) is violated', txt)
        if 'OutOfMemory' in txt or ('Error' not in txt and not mi):
            raise CheckError('TLC failed on %s (rc %s):\n%s' % (module, rc, txt[-3000:]))
        pos = (int(g[-1]) - (2 if mi else 1)) if g else 0
        e = txt.find('Error:')
        msg = txt[e:e + 3000]
    pos = max(0, min(pos, n - 1))
    return where[pos][0], where[pos][1], msg


def validate(ctx, module, sessions, jobs=NCPU - 1, tag='tv', shuffle=True):
    """Validate recorded sessions against specs/<module>.tla; returns the rejections found (at most one per chunk)."""
    live = [(i, e) for i, e in enumerate(sessions) if e]
    total = sum(len(e) for _, e in live)
    if not total:
        return []
    nch = max(1, min(jobs, total // 300 + 1))
    chunks = [[] for _ in range(nch)]
    size = [0] * nch
    for it in sorted(live, key=lambda x: -len(json.dumps(x[1]))):
        j = size.index(min(size))
        chunks[j].append(it)
        size[j] += len(json.dumps(it[1]))
    rej = []

    def go(j):
        d = os.path.join(ctx.work, '%s-%s-%d' % (tag, module, j))
        shutil.rmtree(d, ignore_errors=True)
        r = _validate_chunk(ctx, module, sorted(chunks[j]), d)
        if r is None:
            shutil.rmtree(d, ignore_errors=True)
        return r
    with ThreadPoolExecutor(nch) as ex:
        for j, r in enumerate(ex.map(go, range(nch))):
            if r is None:
                ctx.validated += len(chunks[j])
                ctx.events += size[j] and sum(len(e) for _, e in chunks[j])
            else:
                rej.append(r)
    return rej


def replay_and_validate(ctx, exe, args, module, sessions, env=None, tag='run', jobs=NCPU, samples=3, timeout=600):
    """The conformance step. Every rejection is confirmed by executing that session again before it is reported."""
    if ctx.violations:
        raise CheckError('stopped: violations found')
    ev = run_driver(ctx, exe, args, sessions, env=env, tag=tag, jobs=jobs, timeout=timeout)
    whole = 2
    for s in ev:
        for e in s:
            ctx.ops[e['op']] += 1
            r = e.get('r')
            if isinstance(r, dict) and 'rc' in r:
                ctx.outcomes['%s:%s' % (e['op'], json.dumps(r['rc'])[:24])] += 1
    if samples and ev:
        idx = ctx.rng.sample(range(len(ev)), min(samples, len(ev)))
        ctx.samples += [short(ev[i]) for i in idx]
    rej = validate(ctx, module, ev, tag='tv-' + tag)
    for si, ei, msg in rej:
        log('  session %d rejected at event %d: %s' % (si, ei, json.dumps(ev[si][ei])[:600]))
        hist = [sessions[si]]
        again = run_driver(ctx, exe, args, hist, env=env, tag=tag + '-again')
        r2 = validate(ctx, module, again, tag='tva-' + tag)
        if not r2 and whole:
            whole -= 1
            # not by itself: with everything the same process did before it (the library may keep state of its own)
            n = njobs(jobs, sessions)
            hist = sessions[si % n:si + 1:n]
            again = run_driver(ctx, exe, args, hist, env=env, tag=tag + '-again', jobs=1, timeout=timeout)[-1:]
            r2 = [x for x in validate(ctx, module, again, tag='tva-' + tag) if x[1] == ei]
        if not r2:
            log('  not reproduced on a second execution; run dropped')
            ctx.extra['unreproduced_rejections'] = ctx.extra.get('unreproduced_rejections', 0) + 1
            continue
        k = r2[0][1]
        path = os.path.join(ctx.replays, '%s-%s-%d.json' % (ctx.prop, tag, len(ctx.violations)))
        json.dump({'property': ctx.prop, 'spec': module, 'driver': os.path.basename(exe),
                   'rejected_event': again[0][k], 'event_index': k, 'tlc': r2[0][2],
                   'script': [script_line(o, args) for o in sessions[si]], 'events': again[0][:k + 1],
                   **({'sessions_before_in_the_same_process': [[script_line(o, args) for o in x] for x in hist[:-1]]} if len(hist) > 1 else {})},
                  open(path, 'w'), indent=1)
        ctx.violations.append((r2[0][2][:1500], path))
        log('  ' + r2[0][2][:1500])
        if len(ctx.violations) >= 2:
            break
    log('  %s: %d sessions, %d events against %s: %d rejected' % (tag, len(ev), sum(map(len, ev)), module, len(rej)))
    return ev


def short(ev, lim=1500):
    s = json.dumps(ev)
    return json.loads(s) if len(s) < lim else s[:lim] + '...'


# ---------------------------------------------------------------- outcome
def finish(ctx, level='model_checking', rule=None):
    cov = {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.validated,
           'events_validated': ctx.events, 'operations': dict(ctx.ops), 'outcomes': dict(ctx.outcomes.most_common(80)),
           'samples': ctx.samples[:12]}
    cov.update(ctx.extra)
    if rule:
        cov['rule'] = rule
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(ctx.elapsed(), 2), 'violations': len(ctx.violations)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    p = os.path.join(V, 'evidence', ctx.prop + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1)
    os.replace(p + '.tmp', p)
    for w in ctx.known_hits:
        log('KNOWN-FINDING: property=%s %s' % (ctx.prop, w))
    if ctx.violations:
        for w, path in ctx.violations:
            log('VIOLATION property=%s replay=%s' % (ctx.prop, path))
        return 1
    if ctx.validated == 0:
        raise CheckError('nothing was validated')
    log('OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs' %
        (ctx.prop, ctx.states, ctx.transitions, ctx.validated, ctx.events, ctx.elapsed()))
    return 0
