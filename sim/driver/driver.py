"""Builds the simulator around /repo's working tree, searches, minimises, reports.

usage: driver.py check PROP | driver.py replay FILE | driver.py build [DIR]
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, hashlib, glob

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SIM = os.path.join(VERIF, 'sim')
REPO = os.environ.get('VSIM_REPO', '/repo')

# Seconds of search, workers with and without the race detector.
QUICK = int(os.environ.get('VSIM_SECONDS', '100'))
THOROUGH = int(os.environ.get('VSIM_SECONDS', '690'))
RACE = {'C01': 3, 'C04': 2}
CPUS = os.cpu_count() or 8
WORKERS = int(os.environ.get('VSIM_WORKERS', str(max(2, min(8, CPUS)))))
STALL = 240          # seconds of real time after which one run counts as stuck
STRIDE = 1 << 20     # runs of worker w start at w*STRIDE

KNOWN = os.path.join(VERIF, 'known_findings.txt')

procs = set()


class Trouble(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv(race=False):
    e = dict(os.environ)
    for k in ('GOFLAGS', 'GODEBUG', 'GOEXPERIMENT', 'GOARCH', 'GOOS', 'GOMAXPROCS', 'GOGC', 'GOMEMLIMIT', 'GORACE', 'GOTRACEBACK'):
        e.pop(k, None)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod', GONOSUMDB='*', GONOSUMCHECK='1', GOSUMDB='off',
             CGO_ENABLED='1' if race else '0')
    return e


def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Trouble('%s failed:\n%s' % (what, p.stdout[-6000:]))
    return p.stdout


def build(out, race):
    """Instruments copies of /repo and of the ANTLR runtime and compiles the worker."""
    rt = os.path.join(out, 'rt')
    os.makedirs(rt)
    run(['go', 'build', '-trimpath', '-o', os.path.join(out, 'vinstr'), '.'], os.path.join(SIM, 'instr'), goenv(), 'building the instrumenter')
    for d in ('simrt', 'ssync', 'harness'):
        shutil.copytree(os.path.join(SIM, 'rt', d), os.path.join(rt, d))
    # The mirror of sync for the ANTLR runtime: scheduling points of another
    # class, and unknown to the race detector.
    os.mkdir(os.path.join(rt, 'nsync'))
    for fn in os.listdir(os.path.join(rt, 'ssync')):
        s = open(os.path.join(rt, 'ssync', fn)).read().replace('package ssync', 'package nsync', 1)
        if fn == 'mode.go':
            s = s.replace('simrt.G(0)', 'simrt.C(0)').replace('annotate = true', 'annotate = false')
        open(os.path.join(rt, 'nsync', fn), 'w').write(s)
    mp = run([os.path.join(out, 'vinstr'), '-src', REPO, '-out', out], out, goenv(), 'instrumenting').strip().splitlines()[-1]
    with open(os.path.join(rt, 'go.mod'), 'w') as f:
        f.write('module verifsim\n\ngo 1.25\n\nrequire %s v0.0.0\n\nreplace %s => ../repo\n\nreplace github.com/antlr/antlr4/runtime/Go/antlr => ../antlr\n' % (mp, mp))
    sums = os.path.join(REPO, 'go.sum')
    if os.path.exists(sums):
        shutil.copy(sums, os.path.join(rt, 'go.sum'))
    bins = {False: os.path.join(out, 'sim')}
    jobs = [(False, subprocess.Popen(['go', 'test', '-c', '-trimpath', '-vet=off', '-o', bins[False], './harness'], cwd=rt, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))]
    if race:
        jobs[0][1].wait()
        bins[True] = os.path.join(out, 'sim.race')
        jobs.append((True, subprocess.Popen(['go', 'test', '-race', '-c', '-trimpath', '-vet=off', '-o', bins[True], './harness'], cwd=rt, env=goenv(True), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for r, p in jobs:
        o, _ = p.communicate()
        if p.returncode != 0:
            raise Trouble('building the simulator failed:\n' + o[-6000:])
    return bins


class Worker:
    """One worker process."""
    n = 0

    def __init__(self, scratch, binary, **job):
        Worker.n += 1
        self.dir = os.path.join(scratch, 'w%d' % Worker.n)
        os.mkdir(self.dir)
        os.mkdir(os.path.join(self.dir, 'tmp'))
        self.out = os.path.join(self.dir, 'out')
        open(self.out, 'w').close()
        self.race = binary.endswith('.race')
        job.update(out=self.out, capture=os.path.join(self.dir, 'cap'), race_prefix=os.path.join(self.dir, 'race'))
        self.job = job
        jp = os.path.join(self.dir, 'job')
        json.dump(job, open(jp, 'w'))
        env = goenv()
        env.pop('GOFLAGS')
        env.update(VSIM_JOB=jp, TMPDIR=os.path.join(self.dir, 'tmp'), GODEBUG='asyncpreemptoff=1,randautoseed=0', TZ='UTC', GOTRACEBACK='single', GOMEMLIMIT='2500MiB',
                   GORACE='log_path=%s halt_on_error=0 exitcode=0 history_size=4' % job['race_prefix'])
        self.log = open(os.path.join(self.dir, 'log'), 'wb')
        self.p = subprocess.Popen([binary, '-test.run=^TestSim$', '-test.timeout=0'], cwd=self.dir, env=env, stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL)
        procs.add(self.p)
        self.f = open(self.out)
        self.buf = ''
        self.cur = None       # run in progress
        self.since = time.time()
        self.agg = None
        self.done = False
        self.runs = 0

    def read(self):
        """New complete report lines."""
        self.buf += self.f.read()
        parts = self.buf.split('\n')
        self.buf = parts.pop()
        got = []
        for l in parts:
            if not l:
                continue
            j = json.loads(l)
            if j['kind'] == 'begin':
                self.cur, self.since = j['run'], time.time()
            elif j['kind'] == 'run':
                self.cur = None
                self.since = time.time()
                self.runs += 1
            if j.get('agg'):
                self.agg = j['agg']
            if j['kind'] in ('done', 'late'):
                self.done = self.done or j['kind'] == 'done'
            got.append(j)
        return got

    def alive(self):
        return self.p.poll() is None

    def kill(self):
        if self.alive():
            self.p.kill()
        self.p.wait()
        procs.discard(self.p)
        self.log.close()

    def tail(self):
        out = b''
        for n in ('log', 'cap'):
            try:
                with open(os.path.join(self.dir, n), 'rb') as f:
                    b = f.read()
                if b.strip():
                    out += b[:6000] if len(b) < 12000 else b[:4000] + b'\n...\n' + b[-2000:]
            except OSError:
                pass
        return out.decode('utf8', 'replace')

    def drop(self):
        self.kill()
        self.f.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def crash_text(s):
    m = re.search(r'(?m)^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*|SIG[A-Z]+: .*|unexpected fault address.*)$', s)
    return m.group(1) if m else ''


def crash_kind(w):
    """Why a worker ended without a report: the program's doing, or not."""
    t = w.tail()
    c = crash_text(t)
    if w.p.returncode == -signal.SIGKILL or 'cannot allocate memory' in t or 'out of memory' in t:
        return 'oom', t
    if 'harness: ' in c:
        return 'harness', t
    return 'crash', t


def one(scratch, binary, timeout, **job):
    """Runs a job of one scenario in a fresh process; returns its report."""
    w = Worker(scratch, binary, deadline=0, trace=True, **job)
    end = time.time() + timeout
    res = None
    while True:
        alive = w.alive()
        for j in w.read():
            if j['kind'] == 'run':
                res = j
        if not alive or w.done:
            break
        if time.time() > end:
            w.kill()
            r = {'violations': [{'class': 'stuck', 'detail': 'no end within %d s of real time' % timeout}], 'stuck': True}
            w.drop()
            return r
        time.sleep(0.01)
    if not w.done:
        w.p.wait()
        k, t = crash_kind(w)
        if k == 'crash':
            res = {'violations': [{'class': 'crash', 'detail': 'the process died: %s\n%s' % (crash_text(t), t[:3000])}]}
        else:
            res = {'trouble': k, 'text': t}
    w.drop()
    return res


def classes(res):
    return [v['class'] for v in (res or {}).get('violations') or []]


# ---------------------------------------------------------------- minimiser

def many(scratch, cands, binary, timeout, prop, par):
    """Replays candidates side by side, yields (index, report) as they end."""
    live = {}
    nxt = 0
    end_of = {}
    while live or nxt < len(cands):
        while nxt < len(cands) and len(live) < par:
            w = Worker(scratch, binary, mode='replay', prop=prop, scenario=cands[nxt], deadline=0, trace=True)
            live[nxt] = w
            end_of[nxt] = time.time() + timeout
            nxt += 1
        for i, w in list(live.items()):
            alive = w.alive()
            for j in w.read():
                if j['kind'] == 'run':
                    w.res = j
            if alive and not w.done and time.time() < end_of[i]:
                continue
            res = getattr(w, 'res', None)
            if not w.done and not alive:
                k, t = crash_kind(w)
                if k == 'crash':
                    res = {'violations': [{'class': 'crash', 'detail': 'the process died: %s' % crash_text(t)}]}
            elif alive and not w.done:
                res = {'violations': [{'class': 'stuck', 'detail': 'no end'}]}
            w.drop()
            del live[i]
            try:
                yield i, res
            except GeneratorExit:
                for x in live.values():
                    x.drop()
                raise
        time.sleep(0.005)


def clone(x):
    return json.loads(json.dumps(x))


def ops_of(sc):
    for p, ph in enumerate(sc['phases']):
        for t, th in enumerate(ph['threads']):
            for o, op in enumerate(th.get('ops') or []):
                yield p, t, o, op


def size(sc):
    return len(json.dumps(sc))


def reductions(sc):
    """Smaller scenarios, the most drastic first."""
    out = []

    def add(f):
        c = clone(sc)
        if f(c) is not False and c != sc:
            out.append(c)

    sched = sc.get('schedule') or []
    if sched:
        add(lambda c: c.update(schedule=[]))
    n = len(sc['phases'])
    if sc.get('prop') == 'C20':
        # Rounds have to stay alike.
        for t, th in enumerate(sc['phases'][0]['threads']):
            k = len(th.get('ops') or [])
            step = k // 2
            while step >= 1:
                for a in range(0, k, step):
                    add(lambda c, t=t, a=a, step=step: [ph['threads'][t]['ops'].__delitem__(slice(a, a + step)) for ph in c['phases']])
                step //= 2
    for i in range(n):
        if n > 1:
            add(lambda c, i=i: c['phases'].pop(i))
    for p, ph in enumerate(sc['phases']):
        for t, th in enumerate(ph['threads']):
            if th.get('ops'):
                # An empty thread keeps the others' numbers.
                add(lambda c, p=p, t=t: c['phases'][p]['threads'][t].update(ops=[]))
    # Runs of calls of one thread.
    for p, ph in enumerate(sc['phases']):
        for t, th in enumerate(ph['threads']):
            ops = th.get('ops') or []
            k = len(ops) // 2
            while k >= 2 and not any(x['kind'] == 'mutate' for x in ops):
                for a in range(0, len(ops), k):
                    add(lambda c, p=p, t=t, a=a, k=k: c['phases'][p]['threads'][t]['ops'].__delitem__(slice(a, a + k)))
                if k <= len(ops) // 8:
                    break
                k //= 2
    for p, t, o, op in ops_of(sc):
        def rm(c, p=p, t=t, o=o):
            ops = c['phases'][p]['threads'][t]['ops']
            for x in ops:
                if x['kind'] == 'mutate' and x.get('target', 0) == o and ops.index(x) != o:
                    return False
            for x in ops:
                if x['kind'] == 'mutate' and x.get('target', 0) > o:
                    x['target'] -= 1
            ops.pop(o)
        add(rm)
    # Halves, then single entries, of the schedule.
    k = len(sched)
    step = k // 2
    while step >= 1:
        for a in range(0, k, step):
            add(lambda c, a=a, step=step: c.update(schedule=sched[:a] + sched[a + step:]))
        if step == 1 or k > 64 and step <= k // 16:
            break
        step //= 2
    for p, t, o, op in ops_of(sc):
        L = op.get('list') or []

        def at(c, p=p, t=t, o=o):
            return c['phases'][p]['threads'][t]['ops'][o]
        if len(L) > 3 and not op.get('edits'):
            h = len(L) // 2
            add(lambda c, at=at, h=h: at(c)['list'].__delitem__(slice(0, h)))
            add(lambda c, at=at, h=h: (at(c)['list'].__delitem__(slice(h, None)), at(c)['list'][-1].update(sep='')))
        if not op.get('edits'):
            for i in range(len(L)):
                if len(L) > 1:
                    def f(c, at=at, i=i):
                        l = at(c)['list']
                        l.pop(i)
                        l[-1]['sep'] = ''
                    add(f)
                simple = {'text': 'a%d@b.c' % i, 'sep': L[i].get('sep', ''), 'boxes': [{'addr': 'a%d@b.c' % i}]}
                if len(L[i].get('text', '')) > 9:
                    add(lambda c, at=at, i=i, simple=simple: at(c)['list'].__setitem__(i, simple))
        E = op.get('edits') or []
        for i in range(len(E)):
            add(lambda c, at=at, i=i: at(c)['edits'].pop(i))
        for i, cv in enumerate(op.get('plan') or []):
            if not cv:
                continue
            for key in ('nested', 'abort', 'fail', 'stall', 'sleep', 'chunks', 'eof_with_data', 'lazy', 'write_to', 'scratch', 'dress', 'wait_at', 'nest_at', 'fail_at', 'abort_at'):
                if cv.get(key):
                    add(lambda c, at=at, i=i, key=key: at(c)['plan'][i].pop(key))
            out_ = cv.get('out', '')
            if len(out_) > 40:
                # Whole characters, as they are written in the file.
                ch = re.findall(r'\\x..|\\u....|\\U........|\\.|.', out_, re.S)
                add(lambda c, at=at, i=i: at(c)['plan'][i].update(out='x'))
                add(lambda c, at=at, i=i, ch=ch: at(c)['plan'][i].update(out=''.join(ch[:len(ch) // 2])))
    for p, ph in enumerate(sc['phases']):
        if ph.get('restart'):
            add(lambda c, p=p: c['phases'][p].pop('restart'))
    if sc.get('tz') != 'UTC':
        add(lambda c: c.update(tz='UTC'))
    # Threads without work at the end of a phase.
    for p, ph in enumerate(sc['phases']):
        if len(ph['threads']) > 1 and not ph['threads'][-1].get('ops'):
            add(lambda c, p=p: c['phases'][p]['threads'].pop())
    return out


def minimise(scratch, sc, cls, binary, prop, budget, tmo):
    end = time.time() + budget
    tried = kept = 0
    steps = [sc]
    progress = True
    while progress and time.time() < end:
        progress = False
        cands = reductions(sc)
        i = 0
        while i < len(cands) and time.time() < end:
            batch = cands[i:i + WORKERS]
            ok = None
            for k, res in many(scratch, batch, binary, tmo, prop, WORKERS):
                tried += 1
                if cls in classes(res) and (ok is None or k < ok):
                    ok = k
            if ok is not None:
                sc = batch[ok]
                steps.append(sc)
                kept += 1
                progress = True
                break
            i += len(batch)
    return steps, tried, kept


# ---------------------------------------------------------------- search

def tree_id():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d != '.git')
        for fn in sorted(files):
            if fn.endswith(('.go', '.mod', '.sum')) and not fn.endswith('_test.go'):
                p = os.path.join(root, fn)
                h.update(os.path.relpath(p, REPO).encode() + b'\0' + open(p, 'rb').read())
    return h.hexdigest()[:16]


def known(prop):
    """Findings of this property that are recorded and not repaired."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def merge(aggs):
    tot = {}
    for a in aggs:
        for k, v in a.items():
            if isinstance(v, bool) or v is None:
                continue
            if isinstance(v, int):
                if k.startswith('max_'):
                    tot[k] = max(tot.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
            elif isinstance(v, dict):
                d = tot.setdefault(k, {})
                for x, y in v.items():
                    d[x] = d.get(x, 0) + y
            elif isinstance(v, list):
                if k == 'preempts':
                    tot[k] = [x + y for x, y in zip(tot.get(k, [0, 0, 0]), v)]
                else:
                    tot.setdefault(k, []).extend(v)
    return tot


def evidence(prop, tier, seed, aggs, extra, wall, search, nviol):
    t = merge(aggs)
    runs = t.get('runs', 0)
    rate = lambda x: int(x * 3600 / search) if search > 0 else 0
    cov = {
        'evaluations': t.get('evals', 0),
        'distinct_nontrivial': len(set(t.get('hashes', []))),
        'rule': 'evaluations counts the conditions the oracle decided. A run is one seed: a generated workload of parser calls by one or more callers with its own '
                'schedule and faults. Runs are told apart by a hash over every scheduling decision (which thread ran, for how many scheduling points of each class) '
                'and every observed event (handler calls, clock reads, faults, lengths); a run is counted once per distinct hash and only if it made at least one call on non-empty input.',
        'samples': [s for s in t.get('samples', []) if s != '-'][:6] or ['none'],
        'simulated_runs': runs,
        'parser_calls': t.get('calls', 0),
        'outcomes_of_calls': t.get('kinds', {}),
        'distinct_inputs': len(set(t.get('inputs', []))),
        'reference_calls_alone': t.get('solo', 0),
        'runs_per_hour': rate(runs),
        'seeds_per_hour': rate(runs),
        'simulated_seconds': round(t.get('sim_nanos', 0) / 1e9, 3),
        'search_seconds': round(search, 1),
        'scheduling_points_passed': t.get('steps', 0),
        'thread_switches': t.get('switches', 0),
        'preemptions_by_class': dict(zip(['compute (library)', 'shared state, synchronisation and I/O (library)', 'ANTLR runtime'], t.get('preempts', [0, 0, 0]))),
        'forced_switches': t.get('forced', 0),
        'blocked_on_synchronisation': t.get('blocks', 0),
        'policies': t.get('policies', {}),
        'faults_injected': t.get('faults', {}),
        'clock_steps': t.get('jumps', 0),
        'clock_reads_by_the_code': t.get('clock_reads', 0),
        'most_scheduling_points_in_a_call': t.get('max_call_steps', 0),
        'real_components': ['all of /repo (root package and generated parser), built from the working tree', 'the ANTLR runtime of the module cache', 'mime, net/mail and the rest of the standard library'],
        'simulated_components': ['goroutine scheduling', 'sync and sync/atomic as used by the library and ANTLR', 'time (clock, timers, zone)', 'charset handlers and their readers', 'process start (package state is reset)'],
    }
    cov.update(extra)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['Preemption happens at the instrumented points (function entries, loop iterations, accesses to package state and fields, synchronisation, handler and reader calls) of /repo and ANTLR, not between machine instructions.',
                          'The standard library runs as it is, without preemption inside it except where it calls back into handlers and readers.',
                          'A process restart is modelled by re-initialising the package variables of /repo and ANTLR.'],
          'wall_s': round(wall, 2), 'violations': nviol}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (prop, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(d, prop + '.json'))


def batch_job(prop, seed, a, b, deadline):
    return dict(mode='batch', prop=prop, seed=seed, **{'from': a}, to=b, deadline=deadline, trace=False)


def check(prop, scratch):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1) & ((1 << 63) - 1)
    log('property %s, tier %s, seed %d' % (prop, tier, seed))
    nrace = min(RACE.get(prop, 0), WORKERS - 1)
    bins = build(os.path.join(scratch, 'build'), nrace > 0)
    log('built in %.1f s' % (time.time() - t0))
    budget = QUICK if tier == 'quick' else THOROUGH
    start = time.time()
    deadline = int(start + budget)
    ws = []
    for k in range(WORKERS):
        race = k < nrace
        ws.append(Worker(scratch, bins[race], **batch_job(prop, seed, k * STRIDE, (k + 1) * STRIDE, deadline)))
    old = []          # aggregates of workers that were replaced
    found = []        # (worker, run, report)
    incidents = []
    kn = known(prop)
    seen_known = {}

    def fresh(res):
        """The violations of a report that are not recorded findings."""
        left = []
        for v in res.get('violations') or []:
            for rx, text in kn:
                if rx.search(v['class'] + ' ' + v['detail']):
                    seen_known[text] = seen_known.get(text, 0) + 1
                    break
            else:
                left.append(v)
        return left

    def restart(w, nxt):
        if w.agg:
            old.append(w.agg)
        i = ws.index(w)
        race = w.race
        b = w.job['to']
        w.drop()
        if time.time() < deadline and nxt < b:
            ws[i] = Worker(scratch, bins[race], **batch_job(prop, seed, nxt, b, deadline))
        else:
            ws.pop(i)

    while ws and not found:
        time.sleep(0.05)
        for w in list(ws):
            alive = w.alive()
            last = w.job['from']
            for j in w.read():
                if j['kind'] == 'run':
                    w.last = j['run']
                    v = fresh(j)
                    if v:
                        j['violations'] = v
                        found.append((w, j['run'], j))
            if found:
                break
            last = getattr(w, 'last', w.job['from'] - 1)
            if alive:
                if w.cur is not None and time.time() - w.since > STALL:
                    run_no = w.cur
                    w.kill()
                    found.append((w, run_no, {'violations': [{'class': 'stuck', 'detail': 'run %d did not end within %d s of real time' % (run_no, STALL)}]}))
                    break
                continue
            if w.done:
                if w.p.returncode == 0 and last + 1 < w.job['to'] and time.time() < deadline:
                    restart(w, last + 1)     # ended after a run it could not clean up
                else:
                    w.kill()
                    ws.remove(w)
                    old.append(w.agg)
                continue
            w.p.wait()
            k, text = crash_kind(w)
            run_no = w.cur if w.cur is not None else last
            if k == 'crash':
                found.append((w, run_no, {'violations': [{'class': 'crash', 'detail': 'the process died: %s\n%s' % (crash_text(text), text[:3000])}]}))
                break
            incidents.append('%s in run %d: %s' % (k, run_no, text[-300:]))
            if k == 'harness' or len(incidents) > 6:
                raise Trouble('workers fail: %s\n%s' % (incidents, text))
            restart(w, run_no + 1)
    search = time.time() - start
    for w in ws:
        w.kill()
        w.read()
        if w.agg:
            old.append(w.agg)
    extra = {'workers': WORKERS, 'workers_with_race_detector': nrace}
    if incidents:
        extra['incidents'] = incidents
    for text, n in seen_known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    # A recorded finding is announced even if this search did not pass it.
    for rx, text in kn:
        if text not in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if not found:
        t = merge(old)
        if t.get('runs', 0) == 0:
            raise Trouble('no run completed')
        evidence(prop, tier, seed, old, extra, time.time() - t0, search, 0)
        print('ok: property=%s held in %d runs (%d calls, %d conditions) in %.0f s' % (prop, t['runs'], t['calls'], t['evals'], search))
        return 0
    # ------------------------------------------------------------ a violation
    w, run_no, rep = found[0]
    binary = bins[w.race]
    cls = rep['violations'][0]['class']
    log('run %d: %s: %s' % (run_no, cls, rep['violations'][0]['detail'][:2000]))
    tmo = STALL if cls == 'stuck' else 150
    doc = {'property': prop, 'seed': seed, 'run': run_no, 'tier': tier, 'race_detector': w.race, 'tree': tree_id(),
           'violation': rep['violations'][0], 'how_to_replay': 'cd /verif && ./check replay <this file>'}
    exact = None
    sc = rep.get('scenario')
    if sc is not None:
        res = one(scratch, binary, tmo, mode='replay', prop=prop, scenario=sc)
        if cls in classes(res):
            exact = 'scenario'
    if exact is None:
        # From the seed, in a fresh process.
        for _ in range(2):
            res = one(scratch, binary, tmo, **{k: v for k, v in batch_job(prop, seed, run_no, run_no + 1, 0).items() if k not in ('deadline', 'trace')})
            if cls in classes(res):
                exact = 'seed'
                break
    if exact is None and cls == 'stuck':
        raise Trouble('a run was stuck for %d s of real time but ends when repeated: %s' % (STALL, rep['violations'][0]['detail']))
    if exact is None:
        # With the runs that went before it in its process.
        a = w.job['from']
        lastres = {}

        def prefix():
            x = Worker(scratch, binary, **batch_job(prop, seed, a, run_no + 1, 0))
            end = time.time() + max(60, 3 * search)
            hit = None
            while time.time() < end:
                alive = x.alive()
                for j in x.read():
                    if j['kind'] == 'run' and fresh(j):
                        hit = j
                if hit or not alive:
                    break
                time.sleep(0.05)
            if hit is None and not x.done and not x.alive() and crash_kind(x)[0] == 'crash':
                hit = {'violations': [{'class': 'crash', 'detail': crash_text(x.tail())}]}
            x.drop()
            return hit
        hit = prefix()
        if hit:
            exact = 'history'
            doc['from'] = a
    if exact is None and cls == 'crash':
        raise Trouble('a worker died and does not die again: %s' % rep['violations'][0]['detail'])
    if exact == 'scenario':
        budget = 60 if tier == 'quick' else 180
        before = size(sc)
        small, tried, kept = minimise(scratch, sc, cls, binary, prop, budget, tmo)
        # The smallest that fails once more.
        while True:
            sc = small.pop()
            res = one(scratch, binary, tmo, mode='replay', prop=prop, scenario=sc)
            if cls in classes(res) or not small:
                break
        v = [x for x in res.get('violations') or [] if x['class'] == cls]
        if v:
            doc['violation'] = v[0]
            doc['sched_hash'], doc['event_hash'] = res.get('sched_hash'), res.get('event_hash')
        doc['minimised'] = {'candidates': tried, 'accepted': kept, 'bytes_before': before, 'bytes_after': size(sc)}
        doc['scenario'] = sc
        doc['schedule_and_faults'] = describe(sc)
    doc['mode'] = exact or 'unrepeatable'
    if exact is None:
        doc['note'] = 'The code under test behaved differently when the same run was repeated: it depends on something random that is not behind a seam. The observation stands: it is what the real code returned.'
        doc['scenario'] = sc
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha256(json.dumps(doc, sort_keys=True).encode()).hexdigest()[:12]))
    json.dump(doc, open(path, 'w'), indent=1, ensure_ascii=False)
    extra['violation'] = doc['violation']
    evidence(prop, tier, seed, old, extra, time.time() - t0, search, 1)
    print('%s: %s' % (doc['violation']['class'], doc['violation']['detail'][:1500]))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def describe(sc):
    """The schedule and the faults in words."""
    out = []
    cl = ['compute', 'shared', 'ANTLR']
    for e in sc.get('schedule') or []:
        out.append('thread %s yields at its %s point number %s to thread %s' % (e.get('t'), cl[e.get('c', 0)] if isinstance(e.get('c', 0), int) and 0 <= e.get('c', 0) < 3 else e.get('c'), e.get('n'), e.get('to')))
    for p, t, o, op in ops_of(sc):
        for c in op.get('plan') or []:
            if not c:
                continue
            w = '%s word %r' % (c.get('charset'), c.get('payload'))
            for k in ('fail', 'abort', 'stall', 'sleep', 'nested', 'chunks', 'eof_with_data', 'lazy'):
                if c.get(k):
                    out.append('phase %d thread %d op %d, %s: %s %s' % (p, t, o, w, k, c[k] if k != 'nested' else 'call'))
        for e in op.get('edits') or []:
            out.append('phase %d thread %d op %d: %s at byte %s' % (p, t, o, e.get('how'), e.get('off')))
        if op['kind'] in ('wall', 'sleep', 'mutate'):
            out.append('phase %d thread %d op %d: %s' % (p, t, o, op['kind']))
    for p, ph in enumerate(sc['phases']):
        if ph.get('restart'):
            out.append('phase %d begins with a restart of the process' % p)
    return out


def replay(path, scratch):
    doc = json.load(open(path))
    prop, cls = doc['property'], doc['violation']['class']
    bins = build(os.path.join(scratch, 'build'), doc.get('race_detector', False))
    binary = bins[bool(doc.get('race_detector'))]
    if doc['mode'] in ('scenario', 'unrepeatable'):
        res = one(scratch, binary, STALL, mode='replay', prop=prop, scenario=doc['scenario'])
    else:
        a = doc['run'] if doc['mode'] == 'seed' else doc['from']
        w = Worker(scratch, binary, **batch_job(prop, doc['seed'], a, doc['run'] + 1, 0))
        res = None
        end = time.time() + 800
        while time.time() < end:
            alive = w.alive()
            for j in w.read():
                if j.get('violations'):
                    res = j
            if res or not alive:
                break
            time.sleep(0.05)
        if res is None and not w.alive() and not w.done:
            res = {'violations': [{'class': 'crash', 'detail': crash_text(w.tail())}]}
        w.drop()
    for v in (res or {}).get('violations') or []:
        print('%s: %s' % (v['class'], v['detail'][:3000]))
    if doc.get('event_hash') and res and res.get('event_hash'):
        print('schedule %s, events %s: %s' % (res.get('sched_hash'), res.get('event_hash'),
              'as recorded' if (res.get('sched_hash'), res.get('event_hash')) == (doc['sched_hash'], doc['event_hash']) else 'not as recorded (%s, %s)' % (doc['sched_hash'], doc['event_hash'])))
    if cls in classes(res):
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('not reproduced: property=%s class=%s' % (prop, cls))
    return 0


def main():
    if len(sys.argv) < 3 and sys.argv[1:] != ['build']:
        print(__doc__)
        return 2
    scratch = tempfile.mkdtemp(prefix='vsim.')

    def bye(*_):
        raise SystemExit(2)
    signal.signal(signal.SIGTERM, bye)
    try:
        if sys.argv[1] == 'check':
            return check(sys.argv[2], scratch)
        if sys.argv[1] == 'replay':
            return replay(sys.argv[2], scratch)
        if sys.argv[1] == 'build':
            build(sys.argv[2] if len(sys.argv) > 2 else os.path.join(scratch, 'build'), True)
            log('the simulator builds')
            return 0
        print(__doc__)
        return 2
    except Trouble as e:
        log('trouble: %s' % e)
        return 2
    finally:
        for p in list(procs):
            try:
                p.kill()
                p.wait()
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
