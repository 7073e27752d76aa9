#!/usr/bin/env python3
"""Decides one property of netcode:

    check.py --property Cxx [--tier quick|thorough] [--replay FILE]

1. builds the harness from /repo's working tree;
2. model-checks the specification (spec/*.tla) with TLC;
3. replays in the real code tests enumerated by TLC, one per transition of bounded instances of
   the specification;
4. drives the real code with random sessions (VERIF_SEED) and checks with TLC that the recorded
   traces are behaviours of the specification; each divergence is attributed to properties.

Exit code: 0 held, 1 violation (a VIOLATION line is printed), 2 the check could not be done.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys
import tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NETCODE_REPO', '/repo')
EVIDENCE = os.path.join(HERE, 'evidence')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = max(2, os.cpu_count() or 8)
T0 = time.time()

sys.path.insert(0, HERE)
from plan import MODELS, GENERATORS, PLAN, CRASH, SHARD  # noqa: E402


class Inconclusive(Exception):
    pass


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------------------- processes

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 30, 4 << 30))


def run(cmd, timeout, cwd=None, env=None, out=None, limited=False):
    """(code, text); code is None on timeout."""
    with tempfile.TemporaryFile('w+', dir=SCRATCH) as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=out or f, stderr=f if out else subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True,
                             preexec_fn=limits if limited else None)
        try:
            code = p.wait(timeout)
        except subprocess.TimeoutExpired:
            code = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        f.seek(0)
        return code, f.read()


def build(name, sources, flags, repo_sources):
    objs = os.path.join(SCRATCH, name + '.o.d')
    os.makedirs(objs, exist_ok=True)
    base = ['g++', '-I' + REPO, '-std=c++11', '-O1', '-DNDEBUG', '-w'] + flags

    def one(src):
        obj = os.path.join(objs, src.strip('/').replace('/', '_') + '.o')
        return obj, run(base + ['-c', src, '-o', obj], 300)

    with cf.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, sources + repo_sources))
    for obj, (code, text) in res:
        if code != 0:
            raise Inconclusive('compilation failed:\n' + text[-3000:])
    exe = os.path.join(SCRATCH, name)
    code, text = run(base + [o for o, _ in res] + ['-lgf_complete', '-lpthread', '-ldl', '-o', exe], 300)
    if code != 0:
        raise Inconclusive('link failed:\n' + text[-3000:])
    return exe


def repo_sources(*dirs):
    r = []
    for d in dirs:
        r += sorted(glob.glob(os.path.join(REPO, d, '*.cc')))
    return r


# ------------------------------------------------------------------------------------- TLC

COUNTS = dict(states=0, transitions=0)
LOCK = threading.Lock()


def tlc(module, cfg, timeout, workers=1, env=None, heap='3g', out=None):
    meta = tempfile.mkdtemp(dir=SCRATCH)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + meta, '-cp', CP, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-config', cfg, module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    try:
        return run(cmd, timeout, cwd=SPEC, env=e, out=out)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(text):
    m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', text, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def check_model(name):
    m = MODELS[name]
    cfg = os.path.join(SPEC, 'model_%s.cfg' % name)
    with open(cfg, 'w') as f:
        f.write(m['cfg'])
    code, text = tlc(m['module'], cfg, m.get('timeout', 1500), workers=m.get('workers', 2), heap=m.get('heap', '3g'))
    if code != 0 or 'No error has been found' not in text:
        raise Inconclusive('the specification itself failed (%s):\n%s' % (name, text[-3000:]))
    gen, dist = stats(text)
    with LOCK:
        COUNTS['states'] += dist
        COUNTS['transitions'] += gen
    log('model %s: %d states, %d transitions' % (name, dist, gen))


def filter_gen(src, dst):
    n = 0
    with open(src) as f, open(dst, 'w') as g:
        for l in f:
            if l.startswith('"GEN '):
                g.write(l.rstrip('\n')[1:-1].replace('\\"', '"') + '\n')
                n += 1
    return n


def tail(path, n=3000):
    with open(path) as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - n))
        return f.read()


def generate(name):
    """Runs a generator specification; gives the path of the generated tests, and their number."""
    m = GENERATORS[name]
    cfg = os.path.join(SPEC, 'gen_%s.cfg' % name)
    with open(cfg, 'w') as f:
        f.write(m['cfg'])
    raw = os.path.join(SCRATCH, 'gen_%s.raw' % name)
    with open(raw, 'w') as out:
        code, text = tlc(m['module'], cfg, m.get('timeout', 900), workers=1, out=out, heap=m.get('heap', '3g'))
    end = tail(raw)
    if code != 0 or 'No error has been found' not in end:
        raise Inconclusive('the specification itself failed (%s):\n%s' % (name, end + text))
    gen, dist = stats(end)
    dst = os.path.join(SCRATCH, 'gen_%s.txt' % name)
    n = filter_gen(raw, dst)
    os.remove(raw)
    with LOCK:
        COUNTS['states'] += dist
        COUNTS['transitions'] += gen
    return dst, n


def validate(trace, module, timeout):
    """Checks a trace: (bad: property -> line, lines checked, problem or None)."""
    n = sum(1 for _ in open(trace))
    if n == 0:
        return {}, 0, None
    code, text = tlc(module, module + '.cfg', timeout, env={'TRACE': trace})
    bad = {}
    for m in re.findall(r'^"BAD (.*)"$', text, re.M):
        for k, v in json.loads(m.replace('\\"', '"')).items():
            if v and k not in bad:
                bad[k] = v
    problem = None
    if code is None:
        problem = 'timeout'
    elif code != 0 or 'No error has been found' not in text:
        if re.search(r'Attempted to|was not in the domain|out of domain|CASE|first argument|second argument', text) \
                and 'OutOfMemory' not in text and 'StackOverflow' not in text:
            problem = text[-2500:]
        else:
            raise Inconclusive('TLC: ' + text[-2500:])
    gen, dist = stats(text)
    with LOCK:
        COUNTS['states'] += dist
        COUNTS['transitions'] += max(0, gen - 1)
    return bad, n, problem


# ------------------------------------------------------------------------------ the harness

ENV = dict(os.environ, MALLOC_PERTURB_='165', MALLOC_ARENA_MAX='1')


class Suspicion:
    """What may be a violation: a script whose trace isn't a behaviour of the specification."""
    def __init__(self, script, why, line=None):
        self.script, self.why, self.line = script, why, line


def drop_partial(path):
    """A crash may leave an incomplete last line."""
    with open(path, 'rb') as f:
        b = f.read()
    if not b.endswith(b'\n'):
        b = b[:b.rfind(b'\n') + 1]
        with open(path, 'wb') as f:
            f.write(b)
    return b.count(b'\n')


def judge(exe, args, out, module, timeout):
    """Runs the harness and checks the trace. Gives (bad, lines, crash, problem)."""
    code, text = run([exe] + args + [out], timeout, env=ENV, limited=True)
    crash = None
    if code == 3:
        raise Inconclusive('harness: ' + text[-500:])
    if not os.path.exists(out + '.ndjson'):
        raise Inconclusive('harness: no trace: %s %s' % (code, text[-500:]))
    lines = drop_partial(out + '.ndjson')
    if code != 0:
        with open(out + '.script') as f:
            ops = f.read().split('\n')
        ops = [o for o in ops if o]
        crash = ops[-1] if ops else ''
    bad, n, problem = validate(out + '.ndjson', module, timeout)
    return bad, lines, crash, problem


def crash_props(op):
    k = op.split()
    if not k:
        return set()
    kind = k[0]
    if kind in ('fwd', 'fba') and len(k) > 4 and k[4] != '-1':
        kind = 'cut'
    return CRASH.get(kind, set())


def blamed(prop, bad, crash, problem):
    """The reason why this run breaks the property, or None."""
    if bad.get(prop):
        return 'line %d of the trace' % bad[prop]
    if crash is not None and prop in crash_props(crash):
        return 'crash or hang during: ' + crash
    if problem and problem != 'timeout' and not any(bad.values()):
        return 'the trace is beyond the specification: ' + problem[-300:]
    return None


def trim(script, crash_or_line):
    """Only the session of the script in which the violation is."""
    with open(script) as f:
        ops = [l.rstrip('\n') for l in f if l.strip()]
    seed = 0
    body = ops
    if body and body[0].startswith('seed'):
        seed = int(body[0].split()[1])
        body = body[1:]
    if crash_or_line is None:
        end = len(body)
    else:
        end = min(len(body), crash_or_line)
    start = max([i for i in range(end) if body[i].startswith('new')] or [0])
    sessions = sum(1 for i in range(start) if body[i].startswith('new'))
    return ['seed %d' % (seed + sessions)] + body[start:end]


def confirm(prop, script_lines, exe, module, tag):
    path = os.path.join(SCRATCH, 'confirm_%s.in' % tag)
    with open(path, 'w') as f:
        f.write('\n'.join(script_lines) + '\n')
    bad, lines, crash, problem = judge(exe, ['script', path], os.path.join(SCRATCH, 'confirm_%s' % tag), module, 300)
    return blamed(prop, bad, crash, problem)


def gen_to_script(calls, api=0):
    """A generated sequence of calls, as a script of the driver."""
    t = calls.split()
    out = ['new %s %s %d' % (t[0][1:], t[1][1:], api)]
    word = {'32': 4, '16': 2}.get(t[0][1:], 1)
    n = 0
    for c in t[2:]:
        k, v = c[0], c[1:]
        if k == 'd':
            out.append('data %d 0' % (word * (1 + (n * 2) % 5)))
            n += 1
        elif k == 'p':
            out.append('fwd %s 0 0 -1 0' % v)
        elif k == 'a':
            out.append('fba %s 0 0 -1 0' % v)
        else:
            out.append({'r': 'rep', 'k': 'ack', 't': 'time 1'}.get(k) or
                       'set %s %s' % ({'L': 'lim', 'R': 'rate', 'S': 'sys', 'A': 'adapt', 'N': 'nb', 'P': 'per'}[k], v))
    return ['seed 1'] + out


def save_replay(prop, lines, note):
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, 'replay-%s.script' % prop)
    with open(path, 'w') as f:
        f.write('# %s: %s\n' % (prop, note.replace('\n', ' ')))
        f.write('# check.py --property %s --replay %s\n' % (prop, path))
        f.write('\n'.join(lines) + '\n')
    return path


# ------------------------------------------------------------------------------- the checks

def check_sessions(prop, tier, seed, ev):
    """C01..C18: an encoder and a decoder."""
    plan = PLAN[prop]
    p = dict(plan['quick'])
    if tier == 'thorough':
        p.update(plan['thorough'])
    exe = build('driver', [os.path.join(HERE, 'harness/driver.cc')], [],
                repo_sources('netcode/detail', 'netcode/c'))
    log('harness built')
    found = []
    tests = [0, 0]
    traces = [0, 0, 0]
    skipped = []
    samples = []

    def generated(name):
        api = int(name.endswith('/c'))   # through the C interface
        path, n = generate(name.split('/')[0])
        name = name.replace('/', '_')
        out = path + '.out'
        code, text = run([exe, 'gen', path, out] + ['c'] * api, 600, env=ENV, limited=True)
        m = re.search(r'\{"tests".*\}', text)
        with open(out) as f:
            calls = [l.strip() for l in f if l.strip()]
        crash = re.search(r'^CRASH (.*)$', text, re.M)
        if crash:
            calls = calls[:150] + [crash.group(1)]
        elif code != 0 or not m:
            raise Inconclusive('generated tests: %s %s' % (code, text[-500:]))
        done = json.loads(m.group(0)) if m else dict(tests=0, calls=0)
        with LOCK:
            tests[0] += done['tests']
            tests[1] += done['calls']
        log('generated tests %s: %d, diverging: %d%s' % (name, n, len(calls), ', crash' if crash else ''))
        if not samples:
            with open(path) as f:
                for i, l in enumerate(f):
                    if i == n // 2:
                        samples.append(dict(generated_test=l.strip()[:600]))
        if crash:
            r = judge_crash(crash.group(1), name, api)
            if r:
                return r
        if calls:
            # Which properties do these divergences break?
            script, starts = [], []
            for c in calls:
                s = gen_to_script(c, api)
                starts.append(len(script))
                script += s[1:]
            path = os.path.join(SCRATCH, 'div_%s.in' % name)
            with open(path, 'w') as f:
                f.write('\n'.join(['seed 1'] + script) + '\n')
            bad, lines, crash, problem = judge(exe, ['script', path], os.path.join(SCRATCH, 'div_' + name),
                                               'TraceNetcode', 400)
            log('divergences of %s: %s' % (name, {k: v for k, v in bad.items() if v}))
            why = blamed(prop, bad, crash, problem)
            if why:
                found.append((os.path.join(SCRATCH, 'div_%s.script' % name), why,
                              bad.get(prop) or None))

    def judge_crash(calls, name, api):
        path = os.path.join(SCRATCH, 'crash_%s.in' % name)
        with open(path, 'w') as f:
            f.write('\n'.join(gen_to_script(calls, api)) + '\n')
        out = os.path.join(SCRATCH, 'crash_' + name)
        bad, lines, crash, problem = judge(exe, ['script', path], out, 'TraceNetcode', 300)
        why = blamed(prop, bad, crash, problem)
        if why:
            found.append((out + '.script', why, bad.get(prop) or None))
        return bool(why)

    def shard(i, profiles):
        out = os.path.join(SCRATCH, 'shard%d' % i)
        s = (seed * 1000 + i) % 20000
        bad, lines, crash, problem = judge(exe, ['random', str(s), ','.join('%s:%d' % x for x in profiles)], out,
                                           'TraceNetcode', p.get('timeout', 300))
        why = blamed(prop, bad, crash, problem)
        others = {k: v for k, v in bad.items() if v}
        if crash is not None or others or problem:
            log('shard %d: %s crash=%s problem=%s' % (i, others, crash, (problem or '')[:300]))
        if problem == 'timeout' and not why:
            skipped.append(i)
        n = 0
        with open(out + '.script') as f:
            for l in f:
                n += l.startswith('new')
        with LOCK:
            if problem is None:
                traces[0] += n
                traces[1] += lines
            traces[2] = max(traces[2], lines)
        if why:
            found.append((out + '.script', why, bad.get(prop) or None))
        elif i == 0:
            with open(out + '.script') as f:
                samples.append(dict(trace='session (calls): ' + '; '.join(f.read().split('\n')[:40])))
        if not why:
            for x in ('.ndjson', '.script'):
                os.remove(out + x)

    jobs = []
    with cf.ThreadPoolExecutor(CORES) as ex:
        for m in p.get('models', []):
            jobs.append(ex.submit(check_model, m))
        for g in p.get('gens', []):
            jobs.append(ex.submit(generated, g))
        nsh = p.get('shards', SHARD[tier])
        for i in range(nsh):
            jobs.append(ex.submit(shard, i, plan['profiles']))
        for j in cf.as_completed(jobs):
            if j.cancelled():
                continue
            if j.exception():
                for k in jobs:
                    k.cancel()
                raise j.exception()
            if found and tier == 'quick' and not os.environ.get('VERIF_ALL'):
                for k in jobs:
                    k.cancel()
    log('%d generated tests, %d traces (%d lines)' % (tests[0], traces[0], traces[1]))
    if skipped:
        log('traces not checked, too long: %d' % len(skipped))
    ev['coverage'] = dict(states=COUNTS['states'], transitions=COUNTS['transitions'],
                          traces_validated_against_impl=traces[0] + tests[0],
                          recorded_traces=traces[0], recorded_trace_lines=traces[1],
                          spec_generated_tests=tests[0], spec_generated_calls=tests[1],
                          models=p.get('models', []), generators=p.get('gens', []),
                          profiles=dict(plan['profiles']), traces_not_checked=len(skipped), samples=samples)
    if not found and len(skipped) * 2 > nsh:
        raise Inconclusive('most traces could not be checked in time')
    for script, why, line in found:
        # A smaller script, if it shows the same.
        best = None
        for cand in (trim(script, line),):
            try:
                w = confirm(prop, cand, exe, 'TraceNetcode', 'c%d' % len(found))
                if w:
                    best, why = cand, w
                    break
            except Inconclusive:
                pass
        if best is None:
            with open(script) as f:
                best = f.read().split('\n')
        return why, save_replay(prop, best, why)
    return None


def check_multi(prop, tier, seed, ev):
    """C21: interleaved sessions. Each one must be a behaviour of the specification, as if it were alone."""
    p = dict(PLAN[prop]['quick'])
    if tier == 'thorough':
        p.update(PLAN[prop]['thorough'])
    exe = build('driver', [os.path.join(HERE, 'harness/driver.cc')], [],
                repo_sources('netcode/detail', 'netcode/c'))
    log('harness built')
    found, traces, samples = [], [0, 0, 0], []

    def count(n, lines):
        with LOCK:
            traces[0] += n
            traces[1] += lines

    def one(i, threads):
        k, profiles = (p['threads'], p['thread_profiles']) if threads else (p['sessions'], p['profiles'])
        s = (seed * 1000 + i) % 20000
        r = multi_run(exe, threads, s, k, profiles, 'multi%d' % i, count)
        if r:
            found.append((r, ['threads' if threads else 'multi', str(s), str(k), profiles]))
        elif i == 0:
            with open(os.path.join(SCRATCH, 'multi0.script')) as f:
                samples.append(dict(trace='interleaved calls: ' + '; '.join(f.read().split('\n')[:40])))

    jobs = []
    with cf.ThreadPoolExecutor(CORES) as ex:
        for m in p['models']:
            jobs.append(ex.submit(check_model, m))
        for i in range(p['shards'] + p['thread_shards']):
            jobs.append(ex.submit(one, i, i >= p['shards']))
        for j in cf.as_completed(jobs):
            if j.cancelled():
                continue
            if j.exception():
                for k in jobs:
                    k.cancel()
                raise j.exception()
            if found:
                for k in jobs:
                    k.cancel()
    log('%d traces (%d lines)' % (traces[0], traces[1]))
    ev['coverage'] = dict(states=COUNTS['states'], transitions=COUNTS['transitions'],
                          traces_validated_against_impl=traces[0], recorded_trace_lines=traces[1],
                          interleaved_sessions=p['sessions'], threads=p['threads'], profiles=p['profiles'],
                          models=p['models'], samples=samples)
    for why, args in found:
        return why, save_replay(prop, [' '.join(args)], why)
    return None


def multi_run(exe, threads, seed, k, profiles, tag, count):
    """Interleaved sessions: why it's wrong, or None. A session which is wrong by itself doesn't count."""
    out = os.path.join(SCRATCH, tag)
    sessions = set()
    why = None
    if threads:
        code, text = run([exe, 'threads', str(seed), str(k), profiles, out], 300, env=ENV, limited=True)
        if code == 3:
            raise Inconclusive('harness: ' + text[-500:])
        if code != 0:
            why = 'crash or hang of sessions in several threads'
            sessions = set(range(k))
        else:
            # All in one trace: references to lines are shifted.
            total, owner = 0, []
            with open(out + '.ndjson', 'w') as g:
                for i in range(k):
                    path = '%s.%d.ndjson' % (out, i)
                    n = drop_partial(path)
                    with open(path) as f:
                        for l in f:
                            l = l.replace('"ses":0', '"ses":%d' % i, 1)
                            g.write(re.sub(r'"pl":(\d+)', lambda m: '"pl":%d' % (int(m.group(1)) + total), l, count=1))
                    total += n
                    owner += [i] * n
            bad, _, problem = validate(out + '.ndjson', 'TraceNetcode', 600)
            if problem == 'timeout':
                raise Inconclusive('timeout')
            first = {a: b for a, b in bad.items() if b}
            if problem or first:
                why = 'sessions in several threads: %s %s' % (first, problem or '')
                sessions = {owner[b - 1] for b in first.values()} or set(range(k))
            count(k, total)
    else:
        bad, lines, crash, problem = judge(exe, ['multi', str(seed), str(k), profiles], out, 'TraceNetcode', 600)
        if problem == 'timeout':
            raise Inconclusive('timeout')
        if crash is not None or problem:
            why = 'interleaved sessions: crash, hang, or trace beyond the specification; ' + str(crash or problem)
            sessions = set(range(k))
        elif any(bad.values()):
            with open(out + '.ndjson') as f:
                ls = f.readlines()
            first = {a: b for a, b in bad.items() if b}
            sessions = {json.loads(ls[b - 1])['ses'] for b in first.values()}
            why = 'interleaved sessions: %s' % first
        count(k, lines)
    if not why:
        return None
    log(why)
    # Is a session wrong by itself? Then it isn't the fault of the others.
    for i in sorted(sessions):
        alone = os.path.join(SCRATCH, '%s_alone%d' % (tag, i))
        code, text = run([exe, 'multi', str(seed), str(k), profiles, alone, str(i)], 300, env=ENV, limited=True)
        if code == 3:
            raise Inconclusive('harness: ' + text[-500:])
        drop_partial(alone + '.ndjson')
        bad, _, problem = validate(alone + '.ndjson', 'TraceNetcode', 600)
        lines = [b for b in bad.values() if b]
        if code != 0 or lines or problem:
            # Is it because of the sessions before it, in the same process?
            script = trim(alone + '.script', min(lines) if lines else None)
            path = os.path.join(SCRATCH, '%s_alone%d.in' % (tag, i))
            with open(path, 'w') as f:
                f.write('\n'.join(script) + '\n')
            bad, _, crash, problem = judge(exe, ['script', path], alone + 'b', 'TraceNetcode', 300)
            if crash is not None or any(bad.values()) or problem:
                log('session %d is wrong by itself' % i)
                return None
    return why


def check_containers(prop, tier, seed, ev):
    """C19."""
    p = dict(PLAN[prop]['quick'])
    if tier == 'thorough':
        p.update(PLAN[prop]['thorough'])
    exe = build('containers', [os.path.join(HERE, 'harness/containers.cc')], [],
                repo_sources('netcode/c', 'netcode/detail'))
    log('harness built')
    found, tests, traces, samples = [], [0], [0, 0], []

    def one(tag, args, sessions):
        out = os.path.join(SCRATCH, tag)
        bad, lines, crash, problem = judge(exe, args, out, 'TraceBuffers', 600)
        why = bad.get('C19') and 'line %d of the trace' % bad['C19']
        if crash is not None:
            why = why or 'crash or hang during: ' + crash
        if problem:
            if problem == 'timeout':
                raise Inconclusive('timeout')
            why = why or 'the trace is beyond the specification: ' + problem
        with LOCK:
            traces[0] += sessions
            traces[1] += lines
        if why:
            found.append((out + '.script', why, bad.get('C19')))
        else:
            os.remove(out + '.ndjson')

    def generated(name):
        path, n = generate(name)
        log('generated sequences %s: %d' % (name, n))
        with LOCK:
            tests[0] += n
        parts = p.get('parts', 8)
        scripts = [[] for _ in range(parts)]
        with open(path) as f:
            for i, l in enumerate(f):
                scripts[i % parts] += ['reset 0 0 0 0'] + [x for x in l[4:].strip().split(';') if x]
                if i == n // 2:
                    samples.append(dict(generated_sequence=l.strip()))
        r = []
        for i, s in enumerate(scripts):
            q = os.path.join(SCRATCH, 'in_%s_%d' % (name, i))
            with open(q, 'w') as f:
                f.write('\n'.join(s) + '\n')
            r.append(('out_%s_%d' % (name, i), ['script', q], 0))
        return r

    with cf.ThreadPoolExecutor(CORES) as ex:
        todo = []
        for r in ex.map(generated, p['gens']):
            todo += r
        for i in range(p['shards']):
            todo.append(('shard%d' % i, ['random', str(seed * 1000 + i), str(p['sessions'])], p['sessions']))
        for j in cf.as_completed([ex.submit(one, *t) for t in todo]):
            j.result()
    log('%d generated sequences, %d traces (%d lines)' % (tests[0], traces[0], traces[1]))
    ev['coverage'] = dict(states=COUNTS['states'], transitions=COUNTS['transitions'],
                          traces_validated_against_impl=traces[0] + tests[0], recorded_trace_lines=traces[1],
                          spec_generated_tests=tests[0], generators=p['gens'], samples=samples)
    for script, why, line in found:
        with open(script) as f:
            ops = [l.strip() for l in f if l.strip()]
        end = line or len(ops)
        start = max([i for i in range(min(end, len(ops))) if ops[i].startswith('reset')] or [0])
        return why, save_replay(prop, ops[start:end], why)
    return None


def check_record(prop, tier, seed, ev):
    """C20."""
    p = dict(PLAN[prop]['quick'])
    if tier == 'thorough':
        p.update(PLAN[prop]['thorough'])
    src = repo_sources('netcode/detail')
    exe = build('record', [os.path.join(HERE, 'harness/record.cc')], [], src)
    tool = build('replay', [os.path.join(REPO, 'tools/replay.cc')], [], src)
    log('harness built')
    found, traces, samples = [], [0, 0], []

    def one(i):
        d = tempfile.mkdtemp(dir=SCRATCH)
        out = os.path.join(SCRATCH, 'rec%d' % i)
        code, text = run([exe, str(seed * 1000 + i), str(p['sessions']), d, out, tool], 600, env=ENV, limited=True)
        if code == 3:
            raise Inconclusive('harness: ' + text[-500:])
        lines = drop_partial(out + '.ndjson')
        bad, n, problem = validate(out + '.ndjson', 'TraceRecord', 600)
        shutil.rmtree(d, ignore_errors=True)
        if problem == 'timeout':
            raise Inconclusive('timeout')
        why = bad.get('C20') and 'line %d of the trace' % bad['C20']
        if not why and code != 0:
            why = 'crash or hang'
        if not why and problem:
            why = 'the trace is beyond the specification: ' + problem
        with LOCK:
            traces[0] += p['sessions']
            traces[1] += lines
        if i == 0:
            with open(out + '.ndjson') as f:
                samples.append(dict(trace=[l.strip()[:200] for l in f.readlines()[:6]]))
        if why:
            found.append((seed * 1000 + i, why))

    with cf.ThreadPoolExecutor(CORES) as ex:
        for m in p.get('models', []):
            check_model(m)
        for j in cf.as_completed([ex.submit(one, i) for i in range(p['shards'])]):
            j.result()
    log('%d traces (%d lines)' % tuple(traces))
    ev['coverage'] = dict(states=COUNTS['states'], transitions=COUNTS['transitions'],
                          traces_validated_against_impl=traces[0], recorded_trace_lines=traces[1], samples=samples)
    for s, why in found:
        return why, save_replay(prop, ['record %d %d' % (s, p['sessions'])], why)
    return None


def relay_jobs(prop, tier, seed):
    """What is done with the tools: name -> (function of harness/relay.py, arguments)."""
    p = dict(PLAN[prop]['quick'])
    if tier == 'thorough':
        p.update(PLAN[prop]['thorough'])
    jobs = {}
    if prop == 'C23':
        exe = build('source_forwarder', [os.path.join(REPO, 'tools/source_forwarder.cc')], [], [])
        for i in range(p['shards']):
            jobs['forward-%d' % i] = ('forwarder', [exe, seed * 1000 + i, p['sessions'], SCRATCH])
        return jobs, p
    exe = build('lossy_proxy', [os.path.join(REPO, 'tools/lossy_proxy.cc')], [], [])
    path, n = generate(p['gen'])
    with open(path) as f:
        tests = [l[4:].strip() for l in f]
    p['tests'] = n
    for i, a in enumerate(p['random']):
        jobs['%s-%d' % (a[0], i)] = ('random_model', [exe, [str(x) for x in a], list(a[1:]), p['datagrams'],
                                                      seed * 1000 + i, SCRATCH])
    for i in range(p['shards']):
        jobs['files-%d' % i] = ('sessions', [exe, seed * 1000 + i, p['sessions'], SCRATCH, 's%d' % i])
    for i in range(0, n, 100):
        jobs['generated-%d' % i] = ('generated', [exe, tests[i:i + 100], seed * 1000 + i, SCRATCH, 'g%d' % i])
    return jobs, p


def check_relay(prop, tier, seed, ev, only=None):
    """C22, C23: the tools which relay datagrams."""
    jobs, p = relay_jobs(prop, tier, seed)
    log('tool built')
    found, traces, samples, unsure = [], [0, 0], [], []

    def one(name):
        if found:
            return
        out = os.path.join(SCRATCH, 'relay-%s.ndjson' % name)
        for attempt in range(3):
            code, text = run([sys.executable, os.path.join(HERE, 'harness/relay.py'), out,
                              json.dumps(dict(job=jobs[name][0], args=jobs[name][1]))], 800)
            if code == 0:
                break
            log('%s: %s %s' % (name, code, text[-500:]))
        else:
            unsure.append(name)
        drop_partial(out)
        bad, n, problem = validate(out, 'TraceRelay', 300)
        with LOCK:
            traces[1] += n
            with open(out) as f:
                traces[0] += sum('"start"' in l for l in f)
        if name.endswith('-0'):
            with open(out) as f:
                samples.append(dict(trace=[l.strip()[:120] for l in f.readlines()[:12]]))
        if bad.get(prop) or problem:
            with open(out) as f:
                ls = f.readlines()
            at = bad.get(prop) or 1
            found.append((name, 'line %d of the trace %s: %s %s' % (at, name, ls[at - 1].strip()[:200], problem or '')))
        os.remove(out)

    with cf.ThreadPoolExecutor(CORES) as ex:
        todo = [ex.submit(one, n) for n in jobs if only is None or n == only]
        for m in p.get('models', []):
            todo.append(ex.submit(check_model, m))
        for j in cf.as_completed(todo):
            j.result()
    log('%d traces (%d lines)' % tuple(traces))
    ev['coverage'] = dict(states=COUNTS['states'], transitions=COUNTS['transitions'],
                          traces_validated_against_impl=traces[0], recorded_trace_lines=traces[1],
                          spec_generated_tests=p.get('tests', 0), samples=samples)
    for name, why in found:
        return why, save_replay(prop, ['relay %s %d %s' % (tier, seed, name)], why)
    if unsure:
        raise Inconclusive('tools: ' + ' '.join(unsure))
    return None


def check_faults(prop, tier, seed, ev):
    """C24: allocations that fail."""
    p = dict(PLAN[prop]['quick'])
    if tier == 'thorough':
        p.update(PLAN[prop]['thorough'])
    exe = build('faults', [os.path.join(HERE, 'harness/faults.cc')], [], repo_sources('netcode/detail', 'netcode/c'))
    log('harness built')
    found, traces, samples, calls = [], [0, 0], [], {}

    def one(i):
        if found:
            return
        out = os.path.join(SCRATCH, 'faults%d.ndjson' % i)
        code, text = run([exe, str(seed * 1000000 + i * 1000), str(p['sessions']), out], 600, limited=True)
        if code != 0:
            raise Inconclusive('harness: %s %s' % (code, text[-500:]))
        drop_partial(out)
        bad, n, problem = validate(out, 'TraceFaults', 600)
        if problem == 'timeout':
            raise Inconclusive('timeout')
        with open(out) as f:
            ls = f.readlines()
        with LOCK:
            traces[1] += n
            for l in ls:
                traces[0] += '"start"' in l
                m = re.search(r'"call":"(\w+)"', l)
                if m:
                    calls[m.group(1)] = calls.get(m.group(1), 0) + 1
        if i == 0:
            samples.append(dict(trace=[l.strip() for l in ls[:12]]))
        if bad.get(prop) or problem:
            at = bad.get(prop) or 1
            start = max(j for j in range(at) if '"start"' in ls[j]) if any('"start"' in l for l in ls[:at]) else 0
            s = json.loads(ls[start])
            why = 'line %d of the trace: %s, for %s %s' % (at, ls[at - 1].strip(), ls[start].strip(), problem or '')
            found.append(('faults %d %d %d %d' % (s.get('seed', 0), s.get('call', 0), s.get('alloc', 0), s.get('sticky', 0)), why))
        os.remove(out)

    with cf.ThreadPoolExecutor(CORES) as ex:
        todo = [ex.submit(check_model, m) for m in p['models']]
        todo += [ex.submit(one, i) for i in range(p['shards'])]
        for j in cf.as_completed(todo):
            j.result()
    log('%d allocations that fail (%d lines)' % tuple(traces))
    ev['coverage'] = dict(states=COUNTS['states'], transitions=COUNTS['transitions'],
                          traces_validated_against_impl=traces[0], recorded_trace_lines=traces[1],
                          failed_allocations_per_function=calls, samples=samples)
    for script, why in found:
        return why, save_replay(prop, [script], why)
    return None


def replay(prop, path):
    with open(path) as f:
        lines = [l.rstrip('\n') for l in f if l.strip() and not l.startswith('#')]
    if prop in ('C22', 'C23'):
        _, tier, seed, name = lines[0].split()
        return check_relay(prop, tier, int(seed), {}, name)
    if prop == 'C24':
        exe = build('faults', [os.path.join(HERE, 'harness/faults.cc')], [], repo_sources('netcode/detail', 'netcode/c'))
        out = os.path.join(SCRATCH, 'replay.ndjson')
        run([exe, lines[0].split()[1], '1', out] + lines[0].split()[2:], 300)
        bad, n, problem = validate(out, 'TraceFaults', 300)
        return bad.get(prop) or problem
    if prop == 'C21':
        exe = build('driver', [os.path.join(HERE, 'harness/driver.cc')], [],
                    repo_sources('netcode/detail', 'netcode/c'))
        mode, s, k, profiles = lines[0].split()
        for _ in range(10 if mode == 'threads' else 1):
            r = multi_run(exe, mode == 'threads', int(s), int(k), profiles, 'multi', lambda *_: None)
            if r:
                return r
        return None
    if prop == 'C20':
        src = repo_sources('netcode/detail')
        exe = build('record', [os.path.join(HERE, 'harness/record.cc')], [], src)
        tool = build('replay', [os.path.join(REPO, 'tools/replay.cc')], [], src)
        _, s, n = lines[0].split()
        d = tempfile.mkdtemp(dir=SCRATCH)
        out = os.path.join(SCRATCH, 'rec')
        code, _ = run([exe, s, n, d, out, tool], 600, env=ENV, limited=True)
        drop_partial(out + '.ndjson')
        bad, _, problem = validate(out + '.ndjson', 'TraceRecord', 600)
        return (bad.get('C20') or code != 0 or problem) and 'replayed: %s' % bad
    if prop == 'C19':
        exe = build('containers', [os.path.join(HERE, 'harness/containers.cc')], [],
                    repo_sources('netcode/c', 'netcode/detail'))
        module = 'TraceBuffers'
    else:
        exe = build('driver', [os.path.join(HERE, 'harness/driver.cc')], [],
                    repo_sources('netcode/detail', 'netcode/c'))
        module = 'TraceNetcode'
    return confirm(prop, lines, exe, module, 'replay')


def main():
    global SCRATCH, SPEC
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    SCRATCH = tempfile.mkdtemp(prefix='netcode-check-')
    SPEC = os.path.join(SCRATCH, 'spec')
    shutil.copytree(os.path.join(HERE, 'spec'), SPEC)
    ev = dict(property=a.property, tier=a.tier, seed=seed, level='model_checking')
    try:
        if a.replay:
            r = replay(a.property, a.replay)
            print('REPRODUCED ' + str(r) if r else 'not reproduced')
            return 1 if r else 0
        f = {'C19': check_containers, 'C20': check_record, 'C21': check_multi,
             'C22': check_relay, 'C23': check_relay, 'C24': check_faults}.get(a.property, check_sessions)
        r = f(a.property, a.tier, seed, ev)
        ev['violations'] = 1 if r else 0
        ev['wall_s'] = round(time.time() - T0, 1)
        ev['assumptions'] = PLAN[a.property].get('assumptions', [])
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, a.property + '.json'), 'w') as g:
            json.dump(ev, g, indent=1)
        if r:
            why, path = r
            log(why)
            print('VIOLATION property=%s replay=%s' % (a.property, path))
            return 1
        log('%s held on everything explored' % a.property)
        return 0
    except Inconclusive as e:
        print('INCONCLUSIVE', e)
        return 2
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == '__main__':
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    sys.exit(main())
