"""One check: build, model-check the specification, replay its behaviours on the real code,
run the real code under controlled schedules, and let TLC explain every recorded run."""
import os, re, sys, json, time, threading, subprocess, tempfile, random, shutil, concurrent.futures as cf
import build as B, tlc

VERIF = B.VERIF
JOBS = 8

class Part:
    pass

class Model(Part):
    """TLC explores a bounded instance exhaustively; with emit, its transition cover becomes scripts."""
    def __init__(self, module, quick, thorough=None, invariants=('Inv',), view=None, emit=None, properties=(),
                 constraint=None, spec='Spec', sample=None, sample_thorough=None, script_max=None, timeout=400, deadlock=False):
        self.__dict__.update(locals())

class Replay(Part):
    """The scripts of a model, on the real code, one process per script."""
    def __init__(self, model, driver, trace, variant='posix', mode='', sample=4000, sample_thorough=None, constants=None,
                 invariants=('Inv',), env=None):
        self.__dict__.update(locals())

class Random(Part):
    """Random programs under seeded schedules."""
    def __init__(self, driver, trace, runs, runs_thorough, variant='posix', mode='', constants=None, invariants=('Inv',),
                 env=None, chunk=400):
        self.__dict__.update(locals())

class Screen(Part):
    """Many more random runs; of these TLC looks only at the ones in which something happened that hardly any
    specification explains: a crash, a stall, a failed assertion, something left over."""
    def __init__(self, driver, trace, runs, runs_thorough, variant='posix', mode='', constants=None, invariants=('Inv',), env=None):
        self.__dict__.update(locals())

ODD = re.compile(r'"e":"(?:crash|assert|stall|critical|warning|livelock|exit|corrupt|error)"|"leak":-?[1-9]')

class Check:
    def __init__(self, pid, parts, budget=260, budget_thorough=3000, assumptions=()):
        self.pid, self.parts, self.budget, self.budget_thorough, self.assumptions = pid, parts, budget, budget_thorough, list(assumptions)

def drivers_of(check):
    return sorted(set((p.driver, p.variant) for p in check.parts if not isinstance(p, Model)))

class Died(Exception):
    """the driver process itself ended, outside any run (each run is a process of its own)"""
    def __init__(self, rc, exe, mode):
        self.rc, self.exe, self.mode = rc, exe, mode
        Exception.__init__(self, 'driver %s ended with %d' % (os.path.basename(exe), rc))

def run_driver(exe, mode, seed=1, runs=None, scripts=None, cpu=None, env=None, timeout=800):
    d = tempfile.mkdtemp(prefix='dexv-run-')
    try:
        out = os.path.join(d, 'out')
        cmd = [exe, '--mode', mode, '--seed', str(seed), '--out', out]
        if cpu is not None:
            cmd += ['--cpu', str(cpu)]
        if scripts is not None:
            sp = os.path.join(d, 'scripts'); open(sp, 'w').write('\n'.join(scripts) + '\n')
            cmd += ['--script', sp]
        else:
            cmd += ['--runs', str(runs)]
        e = dict(os.environ); e['TMPDIR'] = d; e['G_SLICE'] = 'always-malloc'; e['MALLOC_PERTURB_'] = '165'; e.update(env or {})
        e.pop('G_MESSAGES_DEBUG', None)
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise RuntimeError('driver timed out: ' + ' '.join(cmd))
        if r.returncode != 0:
            raise Died(r.returncode, exe, mode)
        return [l for l in open(out, errors='replace').read().split('\n') if l]
    finally:
        shutil.rmtree(d, ignore_errors=True)

def shards(n, k):
    q, r = divmod(n, k); o = []; s = 0
    for i in range(k):
        m = q + (1 if i < r else 0)
        if m:
            o.append((s, m))
        s += m
    return o

class Found(Exception):
    def __init__(self, info):
        self.info = info

class Session:
    def __init__(self, check, tier, seed, say):
        self.check, self.tier, self.seed, self.say = check, tier, seed, say
        self.t0 = time.time()
        self.deadline = self.t0 + (check.budget if tier == 'quick' else check.budget_thorough)
        self.states = self.transitions = self.traces = 0
        self.spec_states = self.spec_transitions = 0
        self.samples = []
        self.detail = []
        self.unknown = 0
        self.unconfirmed = 0

    def go(self):
        exes = B.build(drivers_of(self.check)) if drivers_of(self.check) else {}
        self.say('built in %.1fs' % (time.time() - self.t0))
        models = {}
        for p in self.check.parts:
            if isinstance(p, Model):
                models[id(p)] = self.model(p)
        for p in self.check.parts:
            if isinstance(p, Replay):
                self.replay(p, exes[(p.driver, p.variant)], models[id(p.model)])
        for p in self.check.parts:
            if isinstance(p, Random):
                self.random(p, exes[(p.driver, p.variant)])
        for p in self.check.parts:
            if isinstance(p, Screen):
                self.screen(p, exes[(p.driver, p.variant)])

    def model(self, p):
        t = time.time()
        consts = p.quick if self.tier == 'quick' or p.thorough is None else p.thorough
        r = tlc.check_model(p.module, timeout=p.timeout if self.tier == 'quick' else 2400, spec=p.spec, constants=consts,
                            invariants=p.invariants, properties=p.properties, view=p.view, action_constraint=p.emit,
                            constraint=p.constraint, want_scripts=bool(p.emit), deadlock=p.deadlock)
        self.spec_states += r['states']; self.spec_transitions += r['transitions']
        sc = tlc.maximal(r['scripts']) if p.emit else []
        self.say('model %s %s: %d states, %d transitions, %d scripts, %.1fs' % (p.module, consts, r['states'], r['transitions'], len(sc), time.time() - t))
        self.detail.append(dict(kind='model', module=p.module, constants={k: (sorted(v, key=str) if isinstance(v, (set, frozenset)) else v) for k, v in consts.items()},
                                states=r['states'], transitions=r['transitions'], complete=True))
        return sc

    def judge(self, p, exe, lines, how):
        """how(k) -> dict describing run k so that it can be repeated"""
        tried = []
        lock = threading.Lock()
        def rejected(k):
            with lock:
                if len(tried) >= 6:
                    return
                tried.append(k)
                h = how(k)
                again = self.repeat(p, exe, h)
                r2 = tlc.validate(p.trace, [again], constants=p.constants, invariants=p.invariants, timeout=160)
                if r2['rejected']:
                    at, rc, out = tlc.explain(p.trace, again, p.constants, p.invariants)
                    raise Found(dict(h, property=self.check.pid, driver=p.driver, variant=p.variant, mode=p.mode, trace_module=p.trace,
                                     env=p.env, stuck_at=at, invariant_violated=(rc in (12, 13)), events=json.loads(again) if again.startswith('[') and again.endswith(']') else again))
                self.unconfirmed += 1
                self.say('a rejection did not repeat: %s' % h)
        r = tlc.validate(p.trace, lines, constants=p.constants, invariants=p.invariants,
                         chunk=max(20, min(600, (len(lines) + JOBS - 1) // JOBS)), jobs=JOBS,
                         deadline=self.deadline + 200, on_reject=rejected)
        self.states += r['states']; self.transitions += r['transitions']
        self.traces += r['accepted']; self.unknown += len(r['unknown'])
        if r['unknown']:
            self.say('%d runs were not decided in time' % len(r['unknown']))
        return r

    def findings(self):
        """(id, text) of the known findings met; raises Found for one which is not listed"""
        out = []
        for name, module in sorted(tlc.FINDINGS):
            m = [l for l in open(os.path.join(VERIF, 'known_findings.txt')) if re.match(r'known: property=%s id=%s ' % (self.check.pid, re.escape(name)), l)]
            if not m:
                raise Found(dict(property=self.check.pid, finding=name, trace_module=module, events='the deviation %s, which is not listed in known_findings.txt' % name, driver='-'))
            out.append((name, m[0].split(' ', 3)[3].strip()))
        return out

    def repeat(self, p, exe, h):
        if 'script' in h:
            return run_driver(exe, p.mode, scripts=[h['script']], cpu=0, env=p.env)[0]
        return run_driver(exe, p.mode, seed=h['seed'], runs=1, cpu=0, env=p.env)[0]

    def replay(self, p, exe, scripts):
        t = time.time()
        n = p.sample if self.tier == 'quick' else (p.sample_thorough or 10 ** 9)
        total = len(scripts)
        if len(scripts) > n:
            rnd = random.Random(self.seed); scripts = sorted(rnd.sample(scripts, n))
        acc = 0; ran = 0
        for base in range(0, len(scripts), 4800):
            if time.time() > self.deadline:
                self.say('time budget reached'); break
            batch = scripts[base:base + 4800]
            sh = shards(len(batch), JOBS)
            with cf.ThreadPoolExecutor(JOBS) as ex:
                lines = [l for ls in ex.map(lambda a: run_driver(exe, p.mode, scripts=batch[a[1][0]:a[1][0] + a[1][1]], cpu=a[0], env=p.env), enumerate(sh)) for l in ls]
            if len(lines) != len(batch):
                raise RuntimeError('driver wrote %d runs for %d scripts' % (len(lines), len(batch)))
            r = self.judge(p, exe, lines, lambda k: dict(script=batch[k]))
            acc += r['accepted']; ran += len(lines)
            if base == 0:
                self.samples.append(dict(kind='replay of a specification behaviour', driver=p.driver, script=batch[0], trace=lines[0][:1500]))
        self.detail.append(dict(kind='replay', driver=p.driver, variant=p.variant, mode=p.mode, scripts_of_model=total, replayed=ran, accepted=acc))
        self.say('replay %s/%s: %d of %d scripts, %d accepted, %.1fs' % (p.driver, p.mode, ran, total, acc, time.time() - t))

    def random(self, p, exe):
        t = time.time()
        n = p.runs if self.tier == 'quick' else p.runs_thorough
        seed0 = (self.seed % 1000) * 1000000 + 1
        acc = 0; done = 0
        while done < n:
            if time.time() > self.deadline:
                self.say('time budget reached'); break
            m = min(n - done, p.chunk * JOBS)
            sh = shards(m, JOBS)
            with cf.ThreadPoolExecutor(JOBS) as ex:
                lines = [l for ls in ex.map(lambda a: run_driver(exe, p.mode, seed=seed0 + done + a[1][0], runs=a[1][1], cpu=a[0], env=p.env), enumerate(sh)) for l in ls]
            r = self.judge(p, exe, lines, lambda k: dict(seed=seed0 + done + k))
            if done == 0:
                self.samples.append(dict(kind='random program under a seeded schedule', driver=p.driver, mode=p.mode, seed=seed0, trace=lines[0][:1500]))
            acc += r['accepted']; done += m
        self.detail.append(dict(kind='random', driver=p.driver, variant=p.variant, mode=p.mode, runs=done, accepted=acc))
        self.say('random %s/%s/%s: %d runs, %d accepted, %.1fs' % (p.driver, p.variant, p.mode, done, acc, time.time() - t))

    def screen(self, p, exe):
        t = time.time()
        n = p.runs if self.tier == 'quick' else p.runs_thorough
        seed0 = (self.seed % 1000) * 1000000 + 500000001
        done = odd = 0
        while done < n:
            if time.time() > self.deadline:
                self.say('time budget reached'); break
            m = min(n - done, 20000)
            sh = shards(m, JOBS)
            def one(a):
                ls = run_driver(exe, p.mode, seed=seed0 + done + a[1][0], runs=a[1][1], cpu=a[0], env=p.env)
                return [(seed0 + done + a[1][0] + k, l) for k, l in enumerate(ls) if ODD.search(l) or not l.endswith(']')]
            with cf.ThreadPoolExecutor(JOBS) as ex:
                got = [x for xs in ex.map(one, enumerate(sh)) for x in xs]
            if got:
                got = got[:200]
                self.judge(p, exe, [l for _, l in got], lambda k: dict(seed=got[k][0]))
            odd += len(got); done += m
        self.detail.append(dict(kind='screen', driver=p.driver, variant=p.variant, mode=p.mode, runs=done, judged=odd))
        self.say('screen %s/%s/%s: %d runs, %d of them looked at, %.1fs' % (p.driver, p.variant, p.mode, done, odd, time.time() - t))

def evidence(check, tier, seed, s, violations):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    e = dict(property=check.pid, tier=tier, seed=seed, level='model_checking',
             coverage=dict(states=s.spec_states + s.states, transitions=s.spec_transitions + s.transitions,
                           traces_validated_against_impl=s.traces, samples=s.samples[:4],
                           specification_states=s.spec_states, trace_validation_states=s.states,
                           undecided_runs=s.unknown, unconfirmed_rejections=s.unconfirmed, parts=s.detail),
             assumptions=check.assumptions, wall_s=round(time.time() - s.t0, 2), violations=violations)
    json.dump(e, open(os.path.join(VERIF, 'evidence', check.pid + '.json'), 'w'), indent=1)

def main(checks, pid, tier, seed):
    check = checks[pid]
    say = lambda m: print('[%s] %s' % (pid, m), flush=True)
    s = Session(check, tier, seed, say)
    try:
        try:
            s.go()
        except Died as e:
            # the code under test brought down even the process which only prepares the runs; does it again?
            for k in range(2):
                try:
                    run_driver(e.exe, e.mode, seed=1, runs=1)
                    raise
                except Died as e2:
                    pass
            name = os.path.basename(e.exe)[4:]; variant = os.path.basename(os.path.dirname(e.exe))
            raise Found(dict(property=pid, driver=name, variant=variant, mode=e.mode, seed=1, events='the process preparing the runs ended with status %d' % e.rc))
        known = s.findings()
    except Found as f:
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % pid)
        json.dump(f.info, open(path, 'w'), indent=1)
        i = f.info
        evs = i['events']
        say('the real code did something the specification does not allow: %s' % ({k: i[k] for k in ('driver', 'variant', 'mode', 'seed', 'script') if k in i}))
        if isinstance(evs, list):
            for k, e in enumerate(evs[:i['stuck_at'] + 1]):
                if k >= i['stuck_at'] - 12:
                    print('   %s %s' % ('>>' if k == i['stuck_at'] - 1 else '  ', json.dumps(e)[:400]))
        evidence(check, tier, seed, s, 1)
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1
    if s.traces == 0 and any(not isinstance(p, Model) for p in check.parts):
        print('no run was validated', file=sys.stderr)
        return 3
    evidence(check, tier, seed, s, 0)
    for name, text in known:
        print('KNOWN-FINDING: property=%s id=%s %s' % (pid, name, text), flush=True)
    say('held: %d specification states, %d runs of the real code validated, %.0fs' % (s.spec_states, s.traces, time.time() - s.t0))
    return 0

def replay_file(path):
    i = json.load(open(path))
    exe = B.build([(i['driver'], i['variant'])])[(i['driver'], i['variant'])]
    if 'trace_module' not in i:
        print(i['events'])
        try:
            run_driver(exe, i['mode'], seed=1, runs=1)
        except Died as e:
            print(e); return 1
        return 0
    if 'script' in i:
        line = run_driver(exe, i['mode'], scripts=[i['script']], cpu=0, env=i.get('env'))[0]
    else:
        line = run_driver(exe, i['mode'], seed=i['seed'], runs=1, cpu=0, env=i.get('env'))[0]
    r = tlc.validate(i['trace_module'], [line])
    print(line)
    print('REJECTED' if r['rejected'] else 'ACCEPTED')
    return 1 if r['rejected'] else 0
