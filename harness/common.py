"""Shared machinery of the checks: scratch build of /repo, drivers, TLC, verdicts and evidence."""
import glob, json, os, re, shutil, subprocess, sys, sysconfig, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 4


class Machinery(Exception):
    """The check could not reach a verdict (exit 2)."""


def driver_env(lib):
    e = dict(PATH='/usr/local/bin:/usr/bin:/bin', HOME='/nonexistent', LANG='C.UTF-8', MPLBACKEND='Agg',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', TRACKEDDY_LIB=lib, MPLCONFIGDIR=lib)
    e['PYTHONPATH'] = lib + ':' + os.path.join(VERIF, 'harness', 'drv')
    return e


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.bg = []
        self.violations = []
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.assumptions = [], {}, []

    # -- the code under test ---------------------------------------------------------------
    def build(self):
        """A private copy of the package of /repo's working tree, with the extension compiled from its source."""
        lib = os.path.join(self.scratch, 'lib')
        shutil.copytree(os.path.join(REPO, 'trackeddy'), os.path.join(lib, 'trackeddy'),
                        ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc'))
        inc = subprocess.run([PY, '-c', "import sysconfig,numpy;print(sysconfig.get_paths()['include']);"
                              "print(numpy.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                             capture_output=True, text=True, check=True).stdout.split()
        src = sorted(glob.glob(os.path.join(lib, 'trackeddy', 'src', '*.c')))
        r = subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-fwrapv', '-DNDEBUG', '-w', '-I', inc[0], '-I', inc[1]] + src +
                           ['-o', os.path.join(lib, 'trackeddy', '_cntr' + inc[2])], capture_output=True, text=True)
        if r.returncode:
            raise Machinery('the contour extension does not compile:\n' + r.stderr[-2000:])
        self.lib = lib
        return lib

    # -- drivers ---------------------------------------------------------------------------
    def drive(self, driver, jobs, timeout=700):
        """Run harness/drv/<driver>.py once per job, in parallel; returns the list of their outputs."""
        out, running, todo, n = [None] * len(jobs), {}, list(enumerate(jobs)), 0
        deadline = time.time() + timeout
        while todo or running:
            while todo and len(running) < CORES:
                k, job = todo.pop(0)
                jf, of, lf = [os.path.join(self.scratch, '%s_%d.%s' % (driver, k, s)) for s in ('job', 'out', 'log')]
                job = dict(job, tier=self.tier, scratch=os.path.join(self.scratch, 'w%d_%s' % (k, driver)))
                os.makedirs(job['scratch'], exist_ok=True)
                json.dump(job, open(jf, 'w'))
                p = subprocess.Popen([PY, '-s', os.path.join(VERIF, 'harness', 'drv', driver + '.py'), jf, of],
                                     cwd=job['scratch'], env=driver_env(self.lib), stdin=subprocess.DEVNULL,
                                     stdout=open(lf, 'w'), stderr=subprocess.STDOUT)
                running[k] = (p, of, lf)
            for k, (p, of, lf) in list(running.items()):
                rc = p.poll()
                if rc is None:
                    continue
                del running[k]
                if rc != 0 or not os.path.exists(of):
                    # the interpreter died: a crash inside the code under test (the drivers catch every exception)
                    log = open(lf).read()[-3000:]
                    if rc < 0 and rc not in (-9, -15):
                        out[k] = dict(cases=[dict(id='%s-job%d' % (driver, k), kind='crash', exc='signal %d' % -rc, job=jobs[k])], crashed=-rc)
                        continue
                    last = ([l for l in log.splitlines() if re.match(r'\w*(Error|Exception|Warning)\b', l)] or [''])[-1]
                    if rc == 1 and (re.match(r'(KeyError|IndexError|ValueError|ZeroDivisionError|OverflowError)\b', last) or last.startswith('TypeError') and 'argument' not in last):
                        # what the code returned could not be read as an observation
                        out[k] = dict(cases=[dict(id='%s-job%d' % (driver, k), kind='crash', exc='unreadable result: ' + last[:200], clause='Malformed', job=jobs[k])], crashed=1)
                        continue
                    for q, _, _ in running.values():
                        q.kill()
                    raise Machinery('driver %s failed (%s):\n%s' % (driver, rc, log))
                out[k] = json.load(open(of))
            if time.time() > deadline:
                for q, _, _ in running.values():
                    q.kill()
                raise Machinery('driver %s timed out' % driver)
            time.sleep(0.02)
        return out

    # -- TLC -------------------------------------------------------------------------------
    def tlc_start(self, module, cfg=None, env=None, workers=4, extra=(), heap='3g', tag=None):
        tag = tag or (cfg or module)
        d = os.path.join(self.scratch, 'tlc_' + re.sub(r'\W', '_', tag) + '_%d' % len(self.bg))
        os.makedirs(d)
        for f in glob.glob(os.path.join(VERIF, 'spec', '*.tla')):
            shutil.copy(f, d)
        shutil.copy(os.path.join(VERIF, 'spec', (cfg or module) + '.cfg'), os.path.join(d, 'run.cfg'))
        e = dict(os.environ)
        e.update(env or {})
        log = open(os.path.join(d, 'log'), 'w')
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xss64m', '-Xmx' + heap, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', os.path.join(d, 'states'), '-nowarning', '-config', 'run.cfg'] + list(extra) + [module + '.tla']
        p = subprocess.Popen(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT)
        job = dict(p=p, dir=d, module=module, cfg=cfg or module, t0=time.time())
        self.bg.append(job)
        return job

    def tlc_wait(self, job, timeout=800, expect='ok'):
        """Wait for TLC. A failed *design* run is a machinery failure (the specification itself is broken)."""
        try:
            job['p'].wait(timeout)
        except subprocess.TimeoutExpired:
            job['p'].kill()
            raise Machinery('TLC timed out on %s' % job['cfg'])
        txt = open(os.path.join(job['dir'], 'log')).read()
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', txt)
        job['generated'], job['distinct'] = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        job['txt'], job['wall'] = txt, time.time() - job['t0']
        ok = 'Model checking completed. No error has been found' in txt or 'The number of states generated' in txt
        if not ok and expect == 'ok':
            raise Machinery('TLC failed on %s:\n%s' % (job['cfg'], txt[-4000:]))
        job['ok'] = ok
        self.states += job['distinct']
        self.transitions += job['generated']
        return job

    def tlc(self, module, cfg=None, timeout=800, **kw):
        return self.tlc_wait(self.tlc_start(module, cfg, **kw), timeout)

    def simulate(self, module, cfg, num, depth, timeout=300):
        """Random behaviours of a specification: the histories printed by its Emit invariant, deduplicated."""
        job = self.tlc_start(module, cfg, workers=1, extra=('-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(self.seed)))
        self.tlc_wait(job, timeout)
        out = self.histories(job)
        m = re.search(r'The number of states generated: (\d+)', job['txt'])
        self.transitions += int(m.group(1)) if m else 0
        self.extra.setdefault('simulation_runs', []).append(dict(module=module, config=cfg, behaviours=num, distinct_histories=len(out)))
        if not out:
            raise Machinery('no histories from %s' % cfg)
        return out

    @staticmethod
    def histories(job):
        out, seen = [], set()
        for m in re.finditer(r'<<"HIST", (".*")>>', job['txt']):
            if m.group(1) not in seen:
                seen.add(m.group(1))
                out.append(json.loads(json.loads(m.group(1))))
        return out

    def design(self, *runs):
        """Start the design-level model checking runs (module, cfg) in the background."""
        return [self.tlc_start(m, c, workers=2) for m, c in runs]

    def design_wait(self, jobs, timeout=800):
        info = []
        for j in jobs:
            self.tlc_wait(j, timeout)
            info.append(dict(module=j['module'], config=j['cfg'], distinct_states=j['distinct'], states_generated=j['generated']))
        self.extra.setdefault('design_runs', []).extend(info)

    def judge(self, module, cases, workers=CORES, cfg=None, timeout=800, heap='6g', name=None):
        """Let TLC judge recorded executions. Module defines Violations(case); verdicts are printed per rejected case."""
        if not cases:
            return
        f = os.path.join(self.scratch, 'cases_%s_%d.json' % (module, len(self.bg)))
        crash = [c for c in cases if c.get('kind') == 'crash']
        for c in crash:
            self.reject(c, [c.get('clause', 'Crashed')])
        cases = [c for c in cases if c.get('kind') != 'crash']
        if not cases:
            return
        while True:
            json.dump(cases, open(f, 'w'))
            job = self.tlc_wait(self.tlc_start(module, cfg, env=dict(CASES=f, LANES=str(workers)), workers=workers, heap=heap, tag=name), timeout, expect=None)
            if job['ok']:
                break
            # an observation that is not even of the types of the specification: TLC names it in the state it stopped in
            m = re.search(r'Error: The behavior up to this point is:.*?\bk = (\d+)\s*\n(.*?Error: The error occurred when TLC was evaluating)', job['txt'], re.S)
            odd = int(m.group(1)) - 1 if m and 'StackOverflow' not in job['txt'] and 'OutOfMemory' not in job['txt'] else -1
            self.odd = getattr(self, 'odd', 0) + 1
            if not 0 <= odd < len(cases) or self.odd > 4 or len(cases) == 1:
                if 0 <= odd < len(cases):
                    self.reject(cases[odd], ['Malformed'])
                    return job
                raise Machinery('TLC failed on %s:\n%s' % (job['cfg'], job['txt'][-4000:]))
            self.reject(cases[odd], ['Malformed'])
            cases = cases[:odd] + cases[odd + 1:]
        txt = job['txt']
        rej = re.findall(r'<<"REJECT", (\d+), (\{.*?\}|<<.*?>>|".*?")>>', txt.replace('\n', ' '))
        m = re.search(r'<<"JUDGED", (\d+)>>', txt)
        if not m or int(m.group(1)) != len(cases):
            raise Machinery('%s judged %s of %d cases\n%s' % (module, m and m.group(1), len(cases), txt[-3000:]))
        self.traces += len(cases)
        for k, why in rej:
            c = cases[int(k) - 1]
            self.reject(c, re.findall(r'"([^"]*)"', why))
        return job

    # -- verdicts --------------------------------------------------------------------------
    def reject(self, case, clauses):
        self.violations.append(dict(id=case.get('id'), clauses=clauses, case=case))

    def known(self):
        out = []
        f = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
        if os.path.exists(f):
            for line in open(f):
                m = re.match(r'known: property=(\w+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self, coverage=None):
        known = self.known()
        fresh = []
        hit = set()
        for v in self.violations:
            key = str(v['case'].get('key', v['id']))
            m = [k for k in known if k[0] == key]
            if m:
                hit.update(m)
            else:
                fresh.append(v)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:4])
        cov.update(self.extra)
        cov.update(coverage or {})
        os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k[1]))
        rc = 0
        if fresh:
            path = os.path.join('evidence', 'replays', self.prop + '.json')
            json.dump(dict(property=self.prop, violations=fresh[:20]), open(os.path.join(VERIF, path), 'w'), indent=1)
            for v in fresh[:5]:
                print('  rejected by the specification: case %s clauses %s' % (v['id'], ','.join(v['clauses'])))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            rc = 1
        else:
            print('OK property=%s traces=%d states=%d wall=%.1fs' % (self.prop, self.traces, self.states, time.time() - self.t0))
        self.close()
        return rc

    def close(self):
        for j in self.bg:
            if j['p'].poll() is None:
                j['p'].kill()
                j['p'].wait()
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.scratch, ignore_errors=True)
