"""Running TLC: exhaustive checks of a model, and validation of recorded traces."""
import os, re, subprocess, tempfile, shutil, concurrent.futures as cf, json, time, threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, 'specs')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class ModelError(Exception):
    pass

def _cfg_value(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{%s}' % ', '.join(_cfg_value(x) for x in sorted(v, key=str))
    raise ValueError(v)

def write_cfg(path, spec='Spec', constants=None, invariants=(), properties=(), view=None, action_constraint=None,
              constraint=None, init=None, next_=None, deadlock=False, symmetry=None):
    L = []
    if init:
        L.append('INIT %s\nNEXT %s' % (init, next_))
    else:
        L.append('SPECIFICATION ' + spec)
    for k, v in (constants or {}).items():
        L.append('CONSTANT %s = %s' % (k, _cfg_value(v)))
    for i in invariants:
        L.append('INVARIANT ' + i)
    for i in properties:
        L.append('PROPERTY ' + i)
    if view:
        L.append('VIEW ' + view)
    if constraint:
        L.append('CONSTRAINT ' + constraint)
    if action_constraint:
        L.append('ACTION_CONSTRAINT ' + action_constraint)
    L.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
    open(path, 'w').write('\n'.join(L) + '\n')

def run(module, cfg, workers=8, env=None, timeout=600, heap='6g', extra=(), jopts=()):
    d = tempfile.mkdtemp(prefix='dexv-tlc-')
    try:
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-XX:TieredStopAtLevel=4'] + list(jopts) + \
              ['-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', d, '-noGenerateSpecTE', '-config', cfg] + list(extra) + \
              [os.path.join(SPECS, module + '.tla')]
        e = dict(os.environ); e.update(env or {})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=d)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as x:
            o = x.stdout or ''
            if isinstance(o, bytes):
                o = o.decode('utf8', 'replace')
            return None, o
    finally:
        shutil.rmtree(d, ignore_errors=True)

def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        return int(m.group(1)), int(m.group(2))
    m = None
    for m in re.finditer(r'Progress\(.*?: ([\d,]+) states generated.*?, ([\d,]+) distinct', out):
        pass
    if m:
        return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))
    return 0, 0

def check_model(module, timeout=600, workers=8, want_scripts=True, extra=(), complete=True, **cfg):
    """Exhaustive TLC run.  Returns dict(states, transitions, scripts, out)."""
    fd, p = tempfile.mkstemp(suffix='.cfg', prefix='dexv-'); os.close(fd)
    try:
        write_cfg(p, **cfg)
        rc, out = run(module, p, workers=workers, timeout=timeout, extra=extra)
    finally:
        os.unlink(p)
    if rc != 0:
        lines = [l for l in out.splitlines() if not l.startswith('<<"SCRIPT"')]
        raise ModelError('%s: TLC %s\n%s' % (module, 'timed out' if rc is None else 'exit %d' % rc, '\n'.join(lines[-60:])))
    gen, dis = stats(out)
    scripts = re.findall(r'^<<"SCRIPT", "(.*)">>$', out, re.M) if want_scripts else []
    scripts = [s.encode().decode('unicode_escape') if '\\' in s else s for s in scripts]
    return dict(states=dis, transitions=gen, scripts=scripts, out=out)

def maximal(scripts):
    """Drops every script that is a proper prefix of another one."""
    s = sorted(set(x.strip() for x in scripts))
    out = []
    for a, b in zip(s, s[1:] + ['']):
        if not b.startswith(a + ' '):
            out.append(a)
    return out

def _validate_chunk(module, lines, constants, invariants, timeout, progress=False):
    fd, tp = tempfile.mkstemp(suffix='.ndjson', prefix='dexv-'); os.close(fd)
    fd, cp = tempfile.mkstemp(suffix='.cfg', prefix='dexv-'); os.close(fd)
    try:
        open(tp, 'w').write('\n'.join(lines) + '\n')
        write_cfg(cp, constants=constants, invariants=['Progress' if progress else 'Report'] + list(invariants), constraint='Open')
        rc, out = run(module, cp, workers=1, env={'TRACES': tp}, timeout=timeout, heap='3g',
                      jopts=['-XX:ParallelGCThreads=2', '-Dtlc2.tool.queue.IStateQueue=StateDeque'])
    finally:
        os.unlink(tp); os.unlink(cp)
    if 'Parsing or semantic analysis failed' in out or 'Could not find' in out:
        raise ModelError(module + ': ' + out[-1500:])
    ok = set(int(x) for x in re.findall(r'^<<"OK", (\d+)>>', out, re.M))
    gen, dis = stats(out)
    FINDINGS.update((m[1], module) for m in re.finditer(r'^<<"FINDING", "([^"]+)">>', out, re.M))
    return rc, out, ok, gen, dis

# deviations which a specification names (Finding(..) in TraceBase) and which were met
FINDINGS = set()

class _Stream:
    """TLC explaining a chunk of runs.  It searches depth first and takes the runs from the last to the first,
    so a run is rejected as soon as a run before it is explained, and a run which takes too long can be put aside."""
    def __init__(self, module, lines, constants, invariants):
        fd, self.tp = tempfile.mkstemp(suffix='.ndjson', prefix='dexv-'); os.close(fd)
        fd, self.cp = tempfile.mkstemp(suffix='.cfg', prefix='dexv-'); os.close(fd)
        self.dir = tempfile.mkdtemp(prefix='dexv-tlc-')
        open(self.tp, 'w').write('\n'.join(lines) + '\n')
        write_cfg(self.cp, constants=constants, invariants=['Report'] + list(invariants), constraint='Open')
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx3g', '-Xss16m', '-XX:TieredStopAtLevel=4', '-XX:ParallelGCThreads=2',
               '-Dtlc2.tool.queue.IStateQueue=StateDeque', '-cp', CP, 'tlc2.TLC', '-workers', '1', '-metadir', self.dir,
               '-noGenerateSpecTE', '-config', self.cp, os.path.join(SPECS, module + '.tla')]
        self.q = queue.Queue()
        self.p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                                  env=dict(os.environ, TRACES=self.tp), cwd=self.dir)
        self.t = threading.Thread(target=self._read, daemon=True); self.t.start()
    def _read(self):
        for l in self.p.stdout:
            self.q.put(l)
        self.q.put(None)
    def close(self):
        if self.p.poll() is None:
            self.p.kill()
        rc = self.p.wait(); self.t.join(5); self.p.stdout.close()
        os.unlink(self.tp); os.unlink(self.cp); shutil.rmtree(self.dir, ignore_errors=True)
        return rc

def _stream_chunk(module, lines, ix, constants, invariants, hard, deadline, stop, on_reject, res, lock):
    """ix is explained from its last element to its first; returns the runs put aside"""
    aside = []
    left = list(ix)
    while left:
        if stop.is_set() or time.time() > deadline:
            return aside + left
        s = _Stream(module, [lines[k] for k in left], constants, invariants)
        out = []; ok = set(); low = len(left); t = time.time() + 15; killed = None
        try:
            while True:
                try:
                    l = s.q.get(timeout=0.5)
                except queue.Empty:
                    if stop.is_set() or time.time() > deadline:
                        killed = 'stop'; break
                    if time.time() - t > hard:
                        killed = 'hard'; break
                    continue
                if l is None:
                    break
                out.append(l)
                m = re.match(r'<<"OK", (\d+)>>', l)
                if m:
                    k = int(m.group(1)) - 1
                    ok.add(k); t = max(t, time.time())
                    for j in range(k + 1, low):         # searched to the end without an explanation
                        if j not in ok:
                            with lock:
                                res['rejected'].append(left[j])
                            on_reject(left[j])
                    low = min(low, k)
                elif l.startswith('<<"FINDING"'):
                    m = re.match(r'<<"FINDING", "([^"]+)">>', l)
                    FINDINGS.add((m.group(1), module))
        finally:
            rc = s.close()
        text = ''.join(out)
        if 'Parsing or semantic analysis failed' in text or 'Could not find' in text:
            raise ModelError(module + ': ' + text[-1500:])
        gen, dis = stats(text)
        with lock:
            res['states'] += dis; res['transitions'] += gen; res['accepted'] += len(ok)
        if killed == 'stop':
            return aside + [left[j] for j in range(low) if j not in ok]
        if killed == 'hard':
            if low:
                aside.append(left[low - 1])
            left = left[:max(0, low - 1)]
            continue
        if rc == 0:
            bad = [left[j] for j in range(low)]
            left = []
        elif low == 0:
            bad = []; left = []
        else:
            # an invariant violated on the way, or a run with a shape the specification cannot even read
            m = re.search(r'tid = (\d+)', text) if rc in (12, 13) else None
            j = int(m.group(1)) - 1 if m else low - 1
            if m:
                bad = [left[x] for x in range(j, low) if x not in ok]
                left = left[:j]
            else:
                # which run it was is not said: one by one
                bad = []; n = 0
                for x in range(low - 1, -1, -1):
                    if n >= 3 or stop.is_set() or time.time() > deadline:
                        aside.append(left[x]); continue
                    r1, o1, ok1, g, d = _validate_chunk(module, [lines[left[x]]], constants, invariants, 60)
                    if r1 is None:
                        aside.append(left[x])
                    elif r1 == 0 and 1 in ok1:
                        with lock:
                            res['accepted'] += 1
                    else:
                        n += 1; bad.append(left[x])
                        if r1 not in (0, 12, 13):
                            res['errors'].append(o1[-1500:])
                left = []
        for k in bad:
            with lock:
                res['rejected'].append(k)
            on_reject(k)
    return aside

def validate(module, lines, constants=None, invariants=('Inv',), chunk=600, timeout=400, jobs=8, deadline=None,
             on_reject=None, hard=40, patient=150):
    """Returns dict(accepted, rejected=[index], unknown=[index], states, transitions, errors).
    An invariant violated on an explained prefix counts as a rejection of the run.  The shortest runs are looked at
    first; a run which takes longer than `hard` seconds is put aside and gets `patient` seconds at the end.
    on_reject(index) is called as soon as a run is rejected; when it raises, everything is stopped."""
    deadline = min(deadline or 1e18, time.time() + timeout)
    res = dict(accepted=0, rejected=[], unknown=[], states=0, transitions=0, errors=[])
    lock = threading.Lock(); stop = threading.Event()
    def rejected(k):
        if on_reject and not stop.is_set():
            on_reject(k)
    order = sorted(range(len(lines)), key=lambda k: len(lines[k]), reverse=True)
    n = max(1, (len(lines) + chunk - 1) // chunk)
    chunks = [order[a::n] for a in range(n)]
    def go(chunks, hard):
        aside = []
        with cf.ThreadPoolExecutor(jobs) as ex:
            fs = [ex.submit(_stream_chunk, module, lines, ix, constants, invariants, hard, deadline, stop, rejected, res, lock) for ix in chunks]
            err = None
            for f in cf.as_completed(fs):
                try:
                    aside += f.result()
                except BaseException as e:
                    stop.set(); err = err or e
            if err:
                raise err
        return aside
    aside = go(chunks, hard)
    if aside and time.time() < deadline:
        aside.sort(key=lambda k: len(lines[k]))
        aside = go([[k] for k in aside], patient)
    res['unknown'] = sorted(aside); res['rejected'].sort()
    return res

def explain(module, line, constants=None, invariants=('Inv',)):
    """Where a rejected run stops being explainable: (index of first unexplained event, TLC output tail)."""
    rc, out, ok, gen, dis = _validate_chunk(module, [line], constants, invariants, 100, progress=True)
    at = [int(x) for x in re.findall(r'^<<"AT", 1, (\d+)>>', out, re.M)]
    return (max(at) if at else 0), rc, out
