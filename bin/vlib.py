"""Machinery shared by the checks: building, generating, driving, validating."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GEV_REPO', '/repo')
SPEC = os.path.join(V, 'spec')
BUILD = os.path.join(V, '.build')
TLC = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx3g',
       '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']


class HarnessError(Exception):
    """The machinery failed: no verdict (exit 2)."""


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building

def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git',))
        for f in sorted(fs):
            if f.endswith('.go') and not f.endswith('_test.go') or f in ('go.mod', 'go.sum'):
                files.append(os.path.join(root, f))
    for root, dirs, fs in os.walk(os.path.join(V, 'harness')):
        for f in sorted(fs):
            files.append(os.path.join(root, f))
    files += [os.path.join(V, 'tools', 'gendeps.py'), os.path.join(V, 'tools', 'buildh.sh')]
    for p in sorted(files):
        h.update(p.encode())
        with open(p, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build():
    """Build the driver from the current working tree; returns its path."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, tree_hash())
    drive = os.path.join(d, 'drive')
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(drive):
            for old in glob.glob(os.path.join(BUILD, '*')):
                if os.path.isdir(old) and time.time() - os.path.getmtime(old) > 7200:
                    shutil.rmtree(old, ignore_errors=True)
            tmp = d + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            p = subprocess.run(['bash', os.path.join(V, 'tools', 'buildh.sh'), tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise HarnessError('build failed:\n' + p.stdout[-4000:])
            shutil.rmtree(os.path.join(tmp, 'work'), ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.rename(tmp, d)
    return drive


# ------------------------------------------------------------------ TLC

def tlc(args, cwd, env=None, timeout=600, mem=None, tag='tlc'):
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = list(TLC)
    if mem:
        cmd = [('-Xmx' + mem if c.startswith('-Xmx') else c) for c in cmd]
    md = tempfile.mkdtemp(prefix='md', dir=cwd)
    try:
        p = subprocess.run(cmd + ['-metadir', md, '-noGenerateSpecTE'] + args, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ''
        if isinstance(out, bytes):
            out = out.decode(errors='replace')
        raise HarnessError('%s timed out after %ss: %s\n%s' % (tag, timeout, ' '.join(args), out[-1500:]))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout


def tlc_states(out):
    """(states generated, distinct states) TLC reports."""
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
    if m:
        return int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))
    m = re.findall(r'The number of states generated: ([\d,]+)', out)
    if m:
        n = int(m[-1].replace(',', ''))
        return n, n
    return 0, 0


def generate(wd, module, env, num, seed, prefix, depth=300, exhaustive=False, timeout=300):
    """Scenarios printed by a generator specification."""
    e = {k: str(v) for k, v in env.items()}
    if exhaustive:
        args = ['-workers', '1', '-deadlock', '-config', module + '.cfg', module + '.tla']
    else:
        args = ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed), '-workers', '1',
                '-config', module + '.cfg', module + '.tla']
    rc, out = tlc(args, wd, e, timeout, tag='generate ' + module)
    res = []
    for l in out.splitlines():
        if l.startswith('"SCN '):
            s = json.loads(json.loads(l)[4:])
            s['id'] = '%s-%d' % (prefix, len(res) + 1)
            res.append(s)
    if rc != 0 or not res:
        raise HarnessError('generator %s failed (rc %d, %d scenarios):\n%s' % (module, rc, len(res), out[-3000:]))
    return res, tlc_states(out)


def model_check(wd, module, cfg, env=None, workers=4, timeout=600, mem='6g'):
    """Exhaustively check a design model; it must hold."""
    try:
        rc, out = tlc(['-workers', str(workers), '-config', cfg, module + '.tla'], wd, env, timeout, mem, tag='model ' + cfg)
    except HarnessError as x:
        # out of time: what was explored until then held
        m = re.findall(r'([\d,]+) states generated .*?, ([\d,]+) distinct', str(x))
        if not m or re.search(r'Error|violated', str(x)):
            raise
        return {'model': module, 'config': cfg, 'states': int(m[-1][1].replace(',', '')), 'transitions': int(m[-1][0].replace(',', '')), 'complete': False}
    g, d = tlc_states(out)
    if rc != 0 or 'No error has been found' not in out:
        raise HarnessError('model %s/%s does not check (rc %d):\n%s' % (module, cfg, rc, out[-4000:]))
    return {'model': module, 'config': cfg, 'states': d, 'transitions': g, 'complete': True}


# ------------------------------------------------------------------ driving

GEV_FRAME = re.compile(r'github\.com/Allenxuxu/gev[./(]')


def crash_kind(err):
    """Who crashed: 'gev' if the panicking goroutine runs gev's code."""
    if 'harness:' in err:
        return 'harness'
    m = re.search(r'^(panic: |fatal error: |SIGSEGV|unexpected fault)', err, re.M)
    if not m:
        return 'harness'
    tail = err[m.start():]
    if 'concurrent map' in tail[:300]:
        return 'gev' if GEV_FRAME.search(tail) else 'harness'
    blocks = re.split(r'\n\n', tail)
    # the first goroutine block is the one that panicked
    for b in blocks:
        if b.startswith('goroutine ') or '\ngoroutine ' in b:
            return 'gev' if GEV_FRAME.search(b) or GEV_FRAME.search(blocks[0]) else 'harness'
    return 'harness'


def run_shard(drive, wd, name, scns, hang_s=20, restarts=6):
    """Execute scenarios in one driver process (several, if it crashes).

    Returns (trace lines, stats, notes)."""
    inp = os.path.join(wd, name + '.scn')
    outp = os.path.join(wd, name + '.out')
    mark = os.path.join(wd, name + '.mark')
    with open(inp, 'w') as f:
        for s in scns:
            f.write(json.dumps(s) + '\n')
    for p in (outp, mark):
        if os.path.exists(p):
            os.remove(p)
    skip, lines, stats, notes = 0, [], {'Scenarios': 0, 'Schedules': 0, 'Steps': 0, 'Leaks': 0, 'Crashes': 0, 'Hangs': 0, 'Inconclusive': 0, 'Enumerated': 0, 'Complete': 0}, []
    soft = 0
    while True:
        env = dict(os.environ, VERIF_SCN=inp, VERIF_OUT=outp, VERIF_MARK=mark, VERIF_SKIP=str(skip),
                   VERIF_HANG_S=str(hang_s), GOMAXPROCS='2', GOTRACEBACK='all')
        try:
            p = subprocess.run([drive, '-test.run', 'TestDrive', '-test.timeout', '0'], cwd=wd, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=840)
        except subprocess.TimeoutExpired:
            raise HarnessError('driver timed out')
        so, se = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
        m = re.search(r'VERIF-STATS (\{.*\})', so)
        if m:
            for k, v in json.loads(m.group(1)).items():
                if k in stats and isinstance(v, int):
                    stats[k] += v
        if p.returncode == 0:
            if not m:
                raise HarnessError('driver ended without statistics:\n' + (so + se)[-3000:])
            break
        try:
            i, what = open(mark).read().split()[:2]
            i = int(i)
        except Exception:
            raise HarnessError('driver failed before the first scenario:\n' + (so + se)[-3000:])
        if what != 'run' or i >= len(scns):
            raise HarnessError('driver failed outside a scenario:\n' + (so + se)[-3000:])
        done = sum(1 for _ in open(outp)) if os.path.exists(outp) else 0
        txt = se + so
        sid = scns[i]['id']
        with open(outp, 'a') as f:
            if 'VERIF-HANG' in se:
                parked = re.search(r'VERIF-HANG parked=(\d+)', se)
                if parked and int(parked.group(1)) > 0:
                    # the harness's own scheduler may be what everything waits
                    # for (it parked the holder of a lock): no verdict from this
                    soft += 1
                    stats['Inconclusive'] += 1
                    s2 = dict(scns[i], mode='step', free=1)
                    scns[i] = s2
                    if soft >= 2:
                        for j in range(i, len(scns)):
                            if scns[j].get('mode') == 'sched':
                                scns[j] = dict(scns[j], mode='step', free=1)
                    with open(inp, 'w') as g:
                        for s in scns:
                            g.write(json.dumps(s) + '\n')
                    skip = i
                    continue
                f.write(json.dumps({'id': sid, 'ev': [{'e': 'hang', 't': 0}]}) + '\n')
                stats['Hangs'] += 1
                notes.append((sid, 'hang', txt[:60000]))
            else:
                if crash_kind(txt) != 'gev':
                    raise HarnessError('driver crashed in scenario %s: %s\n%s' % (sid, json.dumps(scns[i])[:1500], txt[-5000:]))
                f.write(json.dumps({'id': sid, 'ev': [{'e': 'panic', 't': 0}]}) + '\n')
                stats['Crashes'] += 1
                notes.append((sid, 'panic', txt[:60000]))
        skip = i + 1
        if stats['Hangs'] + stats['Crashes'] >= restarts or skip >= len(scns):
            break
    with open(outp) as f:
        lines = f.read().splitlines()
    return lines, stats, notes


def drive_all(drive, wd, scns, shards=8, hang_s=20, tag='s'):
    parts = [scns[i::shards] for i in range(shards)]
    parts = [p for p in parts if p]
    with ThreadPoolExecutor(len(parts)) as ex:
        res = list(ex.map(lambda a: run_shard(drive, wd, '%s%d' % (tag, a[0]), a[1], hang_s), enumerate(parts)))
    lines, stats, notes = [], {}, []
    for l, s, n in res:
        lines += l
        notes += n
        for k, v in s.items():
            stats[k] = stats.get(k, 0) + v
    return lines, stats, notes


# ------------------------------------------------------------------ validating

def validate(wd, module, lines, prop, procs=4, timeout=600, tag='v', env=None):
    """Have TLC decide which traces are behaviours of module.

    Returns (rejected [{id, at}], states, transitions)."""
    procs = max(1, min(procs, (len(lines) + 49) // 50))
    # balance by size
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    buckets = [[] for _ in range(procs)]
    for n, i in enumerate(order):
        buckets[n % procs].append(lines[i])

    def one(a):
        i, part = a
        f = os.path.join(wd, '%s%d.traces' % (tag, i))
        with open(f, 'w') as fh:
            fh.write('\n'.join(part) + '\n')
        e = {'TRACES': f, 'PROP': prop}
        e.update(env or {})
        rc, out = tlc(['-workers', '1', '-config', module + '.cfg', module + '.tla'], wd, e, timeout, '4g', tag='validate ' + module)
        rej = []
        for l in out.splitlines():
            if l.startswith('"REJECTED '):
                rej = json.loads(json.loads(l)[9:])
        if not rej and 'Model checking completed. No error has been found.' not in out or rej and '0 states left on queue' not in out:
            raise HarnessError('validation with %s failed (rc %d):\n%s' % (module, rc, out[-4000:]))
        if (rc != 0) != bool(rej):
            raise HarnessError('validation with %s: rc %d but rejected %r\n%s' % (module, rc, rej, out[-3000:]))
        return rej, tlc_states(out)

    with ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(one, enumerate(buckets)))
    rej = [r for x in res for r in x[0]]
    return rej, sum(x[1][1] for x in res), sum(x[1][0] for x in res)
