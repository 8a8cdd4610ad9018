"""Shared machinery of the checks: build, model check, generate, run, validate."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 2)


class Violated(Exception):
    """one violation is enough"""


class ModelFailure(Exception):
    """The machinery itself failed (not the code under test)."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vrg_%s_' % prop)
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples, self.notes, self.mc_runs = [], [], []
        self.generated = 0
        self.violations = []
        self.findings_seen = set()
        self.rng = random.Random(seed * 7919 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16))
        self.assumptions = []
        self.replay, self.replayed = None, 0     # bin/check --replay: the only script to run
        self.actions = {}
        self._builds = {}
        self._objs = {}
        self._build_lock = threading.Lock()
        self._lock = threading.Lock()
        self._spec_lock = threading.Lock()

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ building
    def build(self, harness, wraps=(), asan=True, cflags=(), main_src=None, extra=()):
        key = (harness, asan, main_src)
        if key in self._builds:
            return self._builds[key]
        d = os.path.join(self.tmp, 'build_%s_%d' % (re.sub(r'\W', '_', harness or main_src), asan))
        os.makedirs(d)
        flags = ['-w', '-g', '-O1', '-fno-omit-frame-pointer', '-I' + VERIF + '/harness/inc',
                 '-I' + REPO + '/src', '-I' + REPO + '/lib', '-I' + VERIF + '/harness'] + list(cflags)
        if asan:
            flags += ['-fsanitize=address', '-ftrivial-auto-var-init=pattern']
        else:
            flags += ['-fno-pie']
        srcs = sorted(os.path.join(REPO, 'src', f) for f in os.listdir(REPO + '/src') if f.endswith('.c'))
        srcs.append(REPO + '/lib/search.c')
        srcs.append(main_src or os.path.join(VERIF, 'harness', harness))
        srcs += [os.path.join(VERIF, 'harness', x) for x in extra]
        # /repo/lib/search.h is a build product; hide it when present
        def one(s):
            o = os.path.join(d, os.path.basename(s) + '.o')
            f = [x for x in flags if x != '-I' + REPO + '/lib']
            r = subprocess.run(['gcc', '-c'] + f + [s, '-o', o], capture_output=True, text=True)
            return o, r, s
        cache = os.environ.get('VERIF_CACHE')      # developer convenience only
        objs = []
        def cached(s):
            k = (s, tuple(flags))
            if k in self._objs:
                return self._objs[k], None, s
            if not cache:
                o, r, s = one(s)
                if r.returncode == 0:
                    self._objs[k] = o
                return o, r, s
            h = hashlib.sha1()
            for f in sorted(os.listdir(REPO + '/src')):
                if f.endswith('.h'):
                    h.update(open(REPO + '/src/' + f, 'rb').read())
            if 'harness' in s:
                h.update(open(VERIF + '/harness/hcore.h', 'rb').read())
            h.update(open(s, 'rb').read()); h.update(repr(flags).encode())
            o = os.path.join(cache, h.hexdigest() + '.o')
            if os.path.exists(o):
                return o, None, s
            oo, r, s = one(s)
            if r.returncode == 0:
                os.makedirs(cache, exist_ok=True)
                shutil.copy(oo, o)
            return oo, r, s
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for o, r, s in ex.map(cached, srcs):
                if r is not None and r.returncode != 0:
                    raise ModelFailure('cannot compile %s:\n%s' % (s, r.stderr[-3000:]))
                objs.append(o)
        exe = os.path.join(d, 'run')
        cmd = ['gcc'] + (['-fsanitize=address'] if asan else ['-no-pie']) + objs + \
              ['-Wl,--wrap=' + w for w in wraps] + ['-lgsl', '-lgslcblas', '-lm', '-o', exe]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise ModelFailure('cannot link %s:\n%s' % (harness, r.stderr[-3000:]))
        self._builds[key] = exe
        return exe

    # ------------------------------------------------------------- TLC
    def _spec_dir(self):
        d = os.path.join(self.tmp, 'spec')
        with self._spec_lock:
            if not os.path.isdir(d):
                shutil.copytree(VERIF + '/spec', d)
        return d

    def tlc(self, module, cfg, env=None, workers=1, mem='2g', timeout=800, extra=(), fast=False):
        d = self._spec_dir()
        cfgf = tempfile.NamedTemporaryFile('w', suffix='.cfg', dir=d, delete=False)
        cfgf.write(cfg); cfgf.close()
        meta = tempfile.mkdtemp(prefix='meta', dir=self.tmp)
        jvm = ['java', '-Xmx' + mem, '-Xss200m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC']
        if fast:
            jvm += ['-XX:TieredStopAtLevel=1']
        cmd = jvm + ['-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-nowarning', '-noGenerateSpecTE', '-metadir', meta,
                     '-workers', str(workers), '-config', cfgf.name] + list(extra) + [module + '.tla']
        e = dict(os.environ); e.update(env or {}); e.pop('JAVA_TOOL_OPTIONS', None)
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ModelFailure('TLC timed out on %s' % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    def model_check(self, module, constants, invariants=(), spec='Spec', view=None, constraint=None,
                    action_constraint=None, properties=(), workers=NCPU, timeout=800, mem='8g', record=True, extra=(),
                    generating=False):
        if self.replay is not None and not generating: return ''
        cfg = 'SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec
        if constants:
            cfg += 'CONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in constants.items())
        if invariants:
            cfg += 'INVARIANTS ' + ' '.join(invariants) + '\n'
        if properties:
            cfg += 'PROPERTIES ' + ' '.join(properties) + '\n'
        if view:
            cfg += 'VIEW %s\n' % view
        if constraint:
            cfg += 'CONSTRAINT %s\n' % constraint
        if action_constraint:
            cfg += 'ACTION_CONSTRAINT %s\n' % action_constraint
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, mem=mem, extra=extra)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or not m:
            raise ModelFailure('model checking %s failed (rc=%d):\n%s' % (module, rc, out[-4000:]))
        if record:
            self.transitions += int(m[-1][0]); self.states += int(m[-1][1])
            self.mc_runs.append({'module': module, 'constants': constants, 'invariants': list(invariants),
                                 'states': int(m[-1][1]), 'transitions': int(m[-1][0])})
            self.log('TLC %s %s: %s distinct states, %s transitions' % (module, constants, m[-1][1], m[-1][0]))
        return out

    def generate(self, module, constants, **kw):
        """scripts printed by the specification, one per transition"""
        out = self.model_check(module, constants, workers=1, generating=True, **kw)
        scripts = []
        for s in re.findall(r'<<\s*"SCRIPT",\s*<<(.*?)>>\s*>>', out, re.S):
            scripts.append(re.findall(r'"((?:[^"\\]|\\.)*)"', s))
        self.generated += len(scripts)
        self.log('%d command scripts generated from %s' % (len(scripts), module))
        return scripts

    # ------------------------------------------------------------- running
    def run_scripts(self, exe, scripts, timeout=60, per=None, env=None):
        """run every script on the real code; returns one list of event lines per script"""
        res = [[] for _ in scripts]
        stalled = threading.Event()        # one run that hangs is enough
        per = per or max(1, min(200, (len(scripts) + NCPU - 1) // NCPU))
        chunks = [list(range(i, min(i + per, len(scripts)))) for i in range(0, len(scripts), per)]

        def work(idx):
            pend = list(idx)
            while pend and not stalled.is_set():
                text = ''.join('reset\n' + ''.join(c + '\n' for c in scripts[i]) for i in pend)
                out, how = self._run(exe, text, timeout + 0.2 * len(pend), env, stalled)
                parts, cur = [], None
                for ln in out.split('\n'):
                    if not ln.startswith('{') or not ln.endswith('}'):
                        continue
                    if ln.startswith('{"ev":"Reset"'):
                        cur = [ln]; parts.append(cur)
                    elif cur is not None:
                        cur.append(ln)
                if how is None and len(parts) == len(pend):
                    for i, p in zip(pend, parts):
                        res[i] = p
                    return
                if how == 'dropped':
                    for i, p in zip(pend, parts[:-1]):
                        res[i] = p
                    return
                if not parts:
                    raise ModelFailure('harness gave no output: %s' % how)
                # script number len(parts)-1 is where it stopped
                for i, p in zip(pend, parts):
                    res[i] = p
                k = len(parts) - 1
                res[pend[k]] = parts[-1] + [json.dumps({'ev': 'Crash', 'how': (how or 'stopped')[:400]})]
                pend = pend[k + 1:]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(work, chunks))
        return res

    def _run(self, exe, text, timeout, env=None, stalled=None, quiet=60):
        """feed text to exe; it is stopped when it takes longer than timeout, or says nothing for so long"""
        e = dict(os.environ)
        e.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_malloc_fill_size=1000000:malloc_fill_byte=190:detect_stack_use_after_return=0',
                  'LC_ALL': 'C', 'TMPDIR': self.tmp})
        e.update(env or {})
        with tempfile.TemporaryFile(dir=self.tmp) as fi, tempfile.TemporaryFile(dir=self.tmp) as fo, tempfile.TemporaryFile(dir=self.tmp) as fe:
            fi.write(text.encode()); fi.flush(); fi.seek(0)
            p = subprocess.Popen([exe] if isinstance(exe, str) else exe, stdin=fi, stdout=fo, stderr=fe, env=e, cwd=self.tmp, start_new_session=True)
            t0 = last = time.time(); size = 0; end = None
            while end is None:
                try:
                    p.wait(1); break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time(); z = os.fstat(fo.fileno()).st_size
                if z != size: size, last = z, now
                if stalled is not None and stalled.is_set(): end = 'dropped'
                elif now - last > min(quiet, timeout): end = 'no answer within %d s' % (now - last)
                elif now - t0 > timeout: end = 'no answer within %.0f s' % timeout
                if end:
                    if stalled is not None: stalled.set()
                    os.killpg(p.pid, signal.SIGKILL); p.wait()
            fo.seek(0); fe.seek(0)
            out, err = fo.read(), fe.read()
        if end: return out.decode('latin-1'), end
        if p.returncode == 97:
            raise ModelFailure('harness rejected its input: ' + err.decode('latin-1')[-500:])
        if p.returncode != 0:
            err = err.decode('latin-1')
            m = re.search(r'ERROR: AddressSanitizer[^\n]*', err)
            fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) \S*?/(src/\w+\.c:\d+)', err)
            how = 'exit %d %s %s' % (p.returncode, m.group(0)[:160] if m else '', ' '.join('%s@%s' % f for f in fr[:3]))
            return out.decode('latin-1'), how
        return out.decode('latin-1'), None

    # ---------------------------------------------------------- validating
    def _validate_file(self, module, lines, timeout=800, constants=None):
        fd, path = tempfile.mkstemp(suffix='.ndjson', dir=self.tmp)
        with os.fdopen(fd, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n'
        if constants:
            cfg += 'CONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in constants.items())
        rc, out = self.tlc(module, cfg, env={'TRACE': path}, mem='3g', timeout=timeout, fast=len(lines) < 300)
        os.unlink(path)
        m = re.search(r'<<"MATCHED", (-?\d+), (\d+)>>', out)
        if m and int(m.group(2)) != len(lines):
            raise ModelFailure('TLC read %s of %d events' % (m.group(2), len(lines)))
        if m and rc == 0 and int(m.group(1)) == len(lines):
            return len(lines), None
        why = re.findall(r'<<"REFUSED", (\d+), "([^"]*)">>', out)
        if m:
            n = int(m.group(1))
            w = [x for (k, x) in why if int(k) == n + 1]
            return n, (w[-1] if w else 'no action of the specification matches this event')
        # TLC could not evaluate an action on this event
        if 'Error:' in out and ('Attempted to' in out or 'evaluat' in out or 'Applying' in out or 'not in the domain' in out):
            if 'OutOfMemory' in out or 'StackOverflow' in out:
                raise ModelFailure('TLC ran out of resources on a trace:\n' + out[-2000:])
            m2 = re.findall(r'/\\ l = (\d+)', out)
            e = re.search(r'Error: (?!The behavior|TLC threw)(.*)', out)
            return (int(m2[-1]) - 1 if m2 else -1), 'the specification cannot interpret the event (%s)' % (
                re.sub(r'\s+', ' ', out[out.find('Error:'):][:300]))
        raise ModelFailure('TLC failed on a trace (rc=%d):\n%s' % (rc, out[-3000:]))

    def check_traces(self, module, exe, scripts, results=None, chunk=None, timeout=60, label='', constants=None,
                     known=None, env=None, rerun=None):
        """run scripts and validate what they recorded.  known(script, trace, pos, why) -> id of
        a listed finding or None."""
        if results is None:
            if self.replay is not None:
                scripts = [s for s in scripts if '\n'.join(s) == self.replay]
            results = self.run_scripts(exe, scripts, timeout=timeout, env=env)
        elif self.replay is not None:
            keep = [i for i, s in enumerate(scripts) if '\n'.join(s) == self.replay]
            scripts, results = [scripts[i] for i in keep], [results[i] for i in keep]
            if rerun:
                again = rerun; rerun = lambda i: again(keep[i])
        if self.replay is not None:
            self.replayed += len(scripts)
        total = sum(len(r) for r in results)
        chunk = chunk or max(200, min(6000, total // NCPU + 1))
        groups, cur, n = [], [], 0
        for i, r in enumerate(results):
            cur.append(i); n += len(r)
            if n >= chunk:
                groups.append(cur); cur, n = [], 0
        if cur:
            groups.append(cur)
        stop = threading.Event()

        def work(g):
            g = list(g); ok = 0
            while g and not stop.is_set():
                lines = [x for i in g for x in results[i]]
                if not lines: return ok
                n, why = self._validate_file(module, lines, constants=constants)
                if why is None:
                    return ok + len(g)
                if n < 0:     # locate by bisection
                    bad = self._bisect(module, g, results, constants)
                    pos = -1
                else:
                    k, acc = 0, 0
                    while acc + len(results[g[k]]) <= n:
                        acc += len(results[g[k]]); k += 1
                    bad, pos = g[k], n - acc
                b = g.index(bad)
                ok += b
                with self._lock:
                    if stop.is_set():
                        return ok
                    if self._confirm(module, exe, scripts[bad], bad, pos, why, timeout, constants, known, env, rerun):
                        stop.set()
                        return ok
                g = g[b + 1:]
            return ok
        with cf.ThreadPoolExecutor(NCPU) as ex:
            oks = list(ex.map(work, groups))
        self.traces += sum(oks); self.events += total
        for r in results:
            for x in r:
                m = re.match(r'\{"ev":"(\w+)"', x)
                if m:
                    k = module + '.' + m.group(1)
                    self.actions[k] = self.actions.get(k, 0) + 1
        if results and len(self.samples) < 6:
            i = len(results) // 2
            self.samples.append({'spec': module, 'script': [c[:300] for c in scripts[i][:12]], 'last_event': results[i][-1][:600] if results[i] else ''})
        self.log('%s%s: %d traces, %d events validated' % (module, ' ' + label if label else '', sum(oks), total))
        if self.violations and self.tier == 'quick': raise Violated()

    def _bisect(self, module, g, results, constants):
        lo = list(g)
        while len(lo) > 1:
            h = lo[:len(lo) // 2]
            n, why = self._validate_file(module, [x for i in h for x in results[i]], constants=constants)
            lo = h if why is not None else lo[len(lo) // 2:]
        return lo[0]

    def _confirm(self, module, exe, script, idx, pos, why, timeout, constants, known, env, rerun=None):
        """re-execute and re-validate; True when a violation is to be reported"""
        tr = (rerun(idx) if rerun else self.run_scripts(exe, [script], timeout=timeout, env=env)[0])
        n, why2 = self._validate_file(module, tr, constants=constants)
        if why2 is None:
            # some defects (uninitialised memory) need company: not repeated, not reported
            self.notes.append('a rejection was not repeated: %s at %s' % (why, script[:3]))
            self.log('NOT REPEATED', why, script[:4])
            return False
        at = tr[n] if 0 <= n < len(tr) else tr[-1]
        if '"ev":"Crash"' in at:
            why2 = json.loads(at)['how']
        if known:
            k = known(script, tr, n, why2)
            if k:
                if k not in self.findings_seen:
                    self.findings_seen.add(k)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k), flush=True)
                return False
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        name = '%s_%s.txt' % (self.prop, hashlib.sha1(repr((script, why2)).encode()).hexdigest()[:10])
        path = os.path.join(d, name)
        with open(path, 'w') as f:
            f.write('property %s seed %d tier %s: the specification %s refuses event %d\nreason: %s\n\n' % (
                self.prop, self.seed, self.tier, module, n + 1, why2))
            f.write('--- commands (bin/check --replay %s)\n' % path)
            f.write('#harness %s\n#spec %s\n' % (os.path.basename(os.path.dirname(exe)) if isinstance(exe, str) else '-', module))
            f.write('\n'.join(script) + '\n--- recorded events (the last one is refused)\n')
            f.write('\n'.join(tr[:n + 1] if n >= 0 else tr) + '\n')
        self.violations.append((why2, path))
        print('  refused: %s' % why2)
        print('  event:   %s' % at[:500])
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
        return True

    # ------------------------------------------------------------ evidence
    def finish(self, level='model_checking'):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'events_validated': self.events,
               'scripts_generated_by_tlc': self.generated,
               'events_by_action': dict(sorted(self.actions.items())),
               'model_runs': self.mc_runs, 'samples': self.samples or ['none'], 'notes': self.notes}
        if self.replay is not None:
            print('replayed: the script was run %d time%s' % (self.replayed, '' if self.replayed == 1 else 's'))
            shutil.rmtree(self.tmp, ignore_errors=True)
            return 1 if self.violations else 0 if self.replayed else 2
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.prop, 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        return 1 if self.violations else 0
