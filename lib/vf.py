"""Shared machinery of the checks: building drivers from /repo's working tree, running TLC,
collecting evidence and reporting verdicts.

A check ends in one of three ways: ok (exit 0), violation (exit 1, with a VIOLATION line), or
error (exit 2: the machinery itself failed; never reported as a violation)."""
import concurrent.futures, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    pass


def env_go():
    e = dict(os.environ)
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '')
    e.update(HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', TZ='UTC',
             GOCACHE='/root/.cache/go-build', GOMODCACHE='/root/go/pkg/mod', GONOSUMDB='*', GONOSUMCHECK='1', GOFLAGS_='')
    e.pop('GOFLAGS_')
    return e


def brief_tlc(out):
    return '\n'.join(l for l in out.splitlines() if not re.match(r'(Parsing|Semantic|Linting|Comput|Running|Starting)', l))[-2500:]


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.log_lines = []
        self.rep = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(self.rep, exist_ok=True)

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------------------------
    def build(self, instrument=False, yields=True, name='drv'):
        """Builds the driver program go/<name> against a scratch copy of /repo's working tree.
        With instrument, the concurrency, time and network primitives of the library are
        replaced by those of the controlled scheduler (see go/instrument)."""
        dst = os.path.join(self.tmp, 'src-%s-%d' % (name, instrument))
        os.makedirs(dst)
        for f in ('go.mod', 'go.sum'):
            shutil.copy(os.path.join(REPO, f), dst)
        for root, dirs, files in os.walk(os.path.join(REPO, 'sttp')):
            rel = os.path.relpath(root, REPO)
            os.makedirs(os.path.join(dst, rel), exist_ok=True)
            for f in files:
                if f.endswith('.go') and not f.endswith('_test.go'):
                    shutil.copy(os.path.join(root, f), os.path.join(dst, rel, f))
        g = os.path.join(VERIF, 'go')
        for d in sorted(os.listdir(g)):
            if os.path.isdir(os.path.join(g, d)):
                shutil.copytree(os.path.join(g, d), os.path.join(dst, 'vdrv', d))
        e = env_go()
        if instrument:
            ins = os.path.join(self.tmp, 'instrument')
            if not os.path.exists(ins):
                self.run(['go', 'build', '-trimpath', '-o', ins, './vdrv/instrument'], cwd=dst, env=e, what='build of the instrumenter')
            self.run([ins, '-root', dst] + (['-yields'] if yields else []), cwd=dst, env=e, what='instrumentation')
        out = os.path.join(self.tmp, '%s-%d' % (name, instrument))
        self.run(['go', 'build', '-trimpath', '-o', out, './vdrv/' + name], cwd=dst, env=e, what='build of the driver')
        return out

    def run(self, cmd, cwd=None, env=None, what='', timeout=800, ok=(0,), stdin=None, before=None):
        try:
            r = subprocess.run(cmd, cwd=cwd or self.tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, text=True, errors='replace', input=stdin, preexec_fn=before)
        except subprocess.TimeoutExpired:
            raise CheckError('%s timed out after %d s: %s' % (what, timeout, ' '.join(cmd)[:300]))
        if ok and r.returncode not in ok:
            raise CheckError('%s failed (exit %d): %s\n%s\n%s' % (what, r.returncode, ' '.join(cmd)[:300], r.stdout[-3000:], r.stderr[-3000:]))
        return r

    # ---- TLC ------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, args=(), heap='3g', dfs=False, timeout=800, count=True, expect_ok=True, what=None):
        """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg. Returns (output, result dict)."""
        cfg = cfg or module
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        java = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta]
        if dfs:
            java.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd = java + ['-cp', JAR, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers), '-config',
                      os.path.join(SPEC, cfg + '.cfg')] + list(args) + [os.path.join(SPEC, module + '.tla')]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out: %s/%s' % (module, cfg))
        out = r.stdout
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        if count:
            self.transitions += gen
            self.states += dist
        res = dict(exit=r.returncode, generated=gen, distinct=dist)
        if expect_ok and (r.returncode != 0 or 'Model checking completed. No error has been found' not in out and 'simulat' not in ' '.join(args)):
            raise CheckError('TLC on %s/%s did not complete without error (exit %d):\n%s' % (module, cfg, r.returncode, brief_tlc(out)))
        return out, res

    def model(self, module, cfg=None, **kw):
        """Model checks the specification itself; an error here is an error of the check."""
        t = time.time()
        out, res = self.tlc(module, cfg, **kw)
        self.extra.setdefault('model_runs', []).append(dict(spec=cfg or module, states=res['distinct'], transitions=res['generated'], wall_s=round(time.time() - t, 2)))
        self.log('model %s: %d states, %d transitions' % (cfg or module, res['distinct'], res['generated']))
        return out

    def plans(self, module, cfg=None, env=None, limit=0, **kw):
        """Model checks a module that prints behaviours as plans; writes them, each once and in a
        fixed order, to a file for the driver. With limit, a seeded sample of them."""
        out = self.model(module, cfg, env=env, **kw)
        ps = sorted(set(json.loads(m) for m in re.findall(r'^("PLAN .*")$', out, re.M)))
        ps = [p[5:] for p in ps]
        if not ps:
            raise CheckError('%s printed no plans' % module)
        n = len(ps)
        if limit and n > limit:
            ps = random.Random(self.seed).sample(ps, limit)
        path = tempfile.mktemp(prefix='plan-', dir=self.tmp)
        with open(path, 'w') as f:
            f.write('\n'.join(ps) + '\n')
        self.extra['behaviours_generated'] = self.extra.get('behaviours_generated', 0) + n
        self.extra['behaviours_replayed'] = self.extra.get('behaviours_replayed', 0) + len(ps)
        return path, len(ps)

    def cases(self, module, trace, cfg=None, lanes=8, heap='3g', timeout=800, env=None):
        """Lets TLC judge a file of cases recorded from the implementation. The module prints
        <<"MISMATCH", i, ...>> for each case it rejects. Returns {index: explanation}."""
        e = dict(env or {})
        e['TRACE'] = trace
        e['LANES'] = str(lanes)
        kf = known_findings(self.prop)
        e['KNOWN'] = ' ' + ' '.join(kf) + ' '
        t = time.time()
        out, res = self.tlc(module, cfg, env=e, workers=lanes, heap=heap, timeout=timeout)
        bad = {}
        for m in re.finditer(r'^"MISMATCH (\d+) (.*)"$', out, re.M):
            bad[int(m.group(1))] = m.group(2)
        for k in sorted(set(re.findall(r'^"KNOWN (\S+)"$', out, re.M))):
            if k in kf and kf[k] not in self.known:
                self.known.append(kf[k])
        n = sum(1 for _ in open(trace))
        if 'MISMATCH' in out and not bad:
            raise CheckError('unparsed mismatch report:\n' + out[-3000:])
        m = re.search(r'"CASES (\d+)"', out)
        if not m or int(m.group(1)) != n:
            raise CheckError('%s judged %s of %d cases:\n%s' % (module, m and m.group(1), n, out[-2000:]))
        if res['distinct'] < n:
            raise CheckError('%s explored %d states for %d cases:\n%s' % (module, res['distinct'], n, out[-2000:]))
        self.traces += n
        self.log('%s: %d cases judged in %.1f s, %d rejected' % (module, n, time.time() - t, len(bad)))
        return bad

    def case_check(self, module, n, drv=None, args=(), cap=8):
        """Runs the case driver of this property and lets TLC judge every case it recorded."""
        drv = drv or self.build()
        tr = os.path.join(self.tmp, 'cases%d.ndjson' % len(os.listdir(self.tmp)))
        cmd = [drv, '-prop', self.prop, '-seed', str(self.seed), '-n', str(n), '-out', tr] + list(args)
        r = self.run(cmd, what='driver', ok=None, before=memory_limit)
        if r.returncode != 0:
            died = in_library(r.stderr)
            if not died or in_library(self.run(cmd, what='driver', ok=None, before=memory_limit).stderr) != died:
                raise CheckError('driver failed (exit %d):\n%s' % (r.returncode, r.stderr[:3000]))
            self.violate(dict(property=self.prop, command=cmd[1:], stderr=r.stderr[:8000]), 'the library did not return: ' + died)
            raise CheckError('the driver could not finish')
        bad = self.cases(module, tr)
        cs = read_ndjson(tr)
        self.sample(*cs[3:5])
        for i in sorted(bad)[:int(os.environ.get('VERIF_CAP', cap))]:
            self.violate(dict(property=self.prop, case=cs[i - 1], explanation=bad[i]), 'case %d: %s' % (i, bad[i]))
        return cs

    def schedule(self, drv, scn, n, out, profile='', plan=None, jobs=8, timeout=700):
        """Runs n runs of a scenario under the controlled scheduler, spread over processes."""
        t = time.time()
        ps = []
        for j in range(jobs):
            o = '%s.%d' % (out, j)
            cmd = [drv, '-scn', scn, '-seed', str(self.seed), '-n', str(n), '-from', str(j), '-step', str(jobs), '-out', o]
            if profile:
                cmd += ['-profile', profile]
            if plan:
                cmd += ['-in', plan]
            e = dict(os.environ, GOMAXPROCS='2', TZ='UTC')
            ps.append((o, subprocess.Popen(cmd, cwd=self.tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=memory_limit)))
        pts = 0
        died = []
        try:
            for o, p in ps:
                try:
                    txt, _ = p.communicate(timeout=max(1, timeout - (time.time() - t)))
                except subprocess.TimeoutExpired:
                    raise CheckError('scenario %s timed out' % scn)
                if p.returncode != 0:
                    died.append((o, p, txt))
                    continue
                m = re.search(r'points (\d+)', txt)
                pts += int(m.group(1)) if m else 0
        finally:
            for o, p in ps:
                if p.poll() is None:
                    p.kill()
        fatal = [self.fatal(o, p, txt) for o, p, txt in died]
        k = 0
        with open(out, 'a') as f:
            for o, p in ps:
                for l in open(o):
                    if l.endswith('\n'):
                        f.write(l)
                        k += 1
                os.remove(o)
                os.remove(o + '.cur')
            for c in fatal:
                f.write(json.dumps(c) + '\n')
                k += 1
        self.extra['schedule_points'] = self.extra.get('schedule_points', 0) + pts
        self.log('%s%s: %d runs, %d scheduling points in %.1f s' % (scn, profile and '/' + profile, k, pts, time.time() - t))
        return k

    def fatal(self, o, p, txt):
        """A driver process died. When the run it was at kills the process again, on its own, by an
        error of the kind that a Go program cannot recover from, then that is how the run ended."""
        err = CheckError('scenario failed (exit %d):\n%s' % (p.returncode, txt[:1500] + txt[-2500:]))
        try:
            i = int(open(o + '.cur').read())
        except ValueError:
            raise err
        cmd = list(p.args)
        for a, v in (('-n', i + 1), ('-from', i), ('-step', 1), ('-out', o + '.again')):
            cmd[cmd.index(a) + 1] = str(v)
        try:
            r = subprocess.run(cmd + ['-live', o + '.live'], cwd=self.tmp, env=dict(os.environ, GOMAXPROCS='2', TZ='UTC'), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=memory_limit, timeout=120)
        except subprocess.TimeoutExpired:
            raise err
        m = re.search(r'^fatal error: (.*)', r.stdout, re.M)
        if r.returncode == 0 or not m:
            raise err
        ls = [json.loads(l) for l in open(o + '.live') if l.endswith('\n')]
        return dict(ls[0], ev=ls[1:] + [dict(e='end', kind='fatal', detail=m.group(1), threads=0)])

    def pieces(self, module, cfg, trace, n, env, workers, heap, timeout):
        """Runs TLC on a file of runs: on pieces of it, several at a time, when it is large.
        Yields the number of runs before the piece, and the output and result for it."""
        size = os.path.getsize(trace)
        k = min(n, max(size // 6000000, min(8, size // 1500000)))
        if k < 2:
            todo = [(0, n, trace)]
        else:
            lines = open(trace).read().splitlines(True)
            todo = []
            for j in range(k):
                a, b = n * j // k, n * (j + 1) // k
                path = '%s.%d' % (trace, j)
                with open(path, 'w') as f:
                    f.writelines(lines[a:b])
                todo.append((a, b - a, path))
            workers, heap = 1, '2500m'

        def one(t):
            a, m, path = t
            out, res = self.tlc(module, cfg, env=dict(env, TRACE=path), workers=workers, heap=heap, timeout=timeout, count=False)
            if path != trace:
                os.remove(path)
            if res['distinct'] < m:
                raise CheckError('%s explored %d states for %d runs:\n%s' % (module, res['distinct'], m, out[-2000:]))
            return a, (out, res)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            yield from ex.map(one, todo)

    def accept(self, module, trace, cfg=None, workers=8, heap='6g', timeout=800, env=None, prop=None, count=True):
        """Checks recorded runs against a trace specification. Returns {index: (events accepted, event)}."""
        e = dict(env or {})
        e.update(TRACE=trace, VERBOSE='0', PROP=prop or self.prop)
        kf = known_findings(self.prop)
        e['KNOWN'] = ' ' + ' '.join(kf) + ' '
        t = time.time()
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise CheckError('no runs recorded')
        acc = set()
        for first, (out, res) in self.pieces(module, cfg, trace, n, e, workers, heap, timeout):
            acc |= set(first + int(x) for x in re.findall(r'^"ACCEPT (\d+)"$', out, re.M))
            for k in sorted(set(re.findall(r'^"KNOWN (\S+)"$', out, re.M))):
                if k in kf and kf[k] not in self.known:
                    self.known.append(kf[k])
            if count:
                self.transitions += res['generated']
                self.states += res['distinct']
        self.traces += n if count else 0
        bad = [i for i in range(1, n + 1) if i not in acc]
        self.log('%s: %d runs checked in %.1f s, %d rejected' % (module, n, time.time() - t, len(bad)))
        r = {}
        if bad:
            lines = open(trace).read().splitlines()
            sub = trace + '.bad'
            some = bad[:12]
            with open(sub, 'w') as f:
                for i in some:
                    f.write(lines[i - 1] + '\n')
            e.update(TRACE=sub, VERBOSE='1')
            out, _ = self.tlc(module, cfg, env=e, workers=1, heap=heap, timeout=timeout, count=False)
            far = {}
            for a, b in re.findall(r'^"REACHED (\d+) (\d+)"$', out, re.M):
                far[int(a)] = max(far.get(int(a), 0), int(b))
            for k, i in enumerate(some):
                c = json.loads(lines[i - 1])
                p = far.get(k + 1, 0)
                r[i] = (p, c['ev'][p] if p < len(c['ev']) else None)
            for i in bad[12:]:
                r[i] = (-1, None)
        return r

    def binding(self, module, trace, bad, cfg=None, n=120, **kw):
        """Shows that the specification tells runs apart: corrupts some accepted runs (an event
        removed, repeated or moved) and counts how many of those are rejected."""
        rng = random.Random(self.seed)
        lines = open(trace).read().splitlines()
        good = [i for i in range(1, len(lines) + 1) if i not in bad]
        rng.shuffle(good)
        path = trace + '.cor'
        k = 0
        with open(path, 'w') as f:
            for i in good[:n]:
                c = json.loads(lines[i - 1])
                ev = c['ev']
                if len(ev) < 4:
                    continue
                j = rng.randrange(len(ev) - 1)
                how = rng.randrange(3)
                if how == 0:
                    del ev[j]
                elif how == 1:
                    ev.insert(j, ev[j])
                else:
                    x = ev.pop(j)
                    ev.insert(rng.randrange(len(ev) - 1), x)
                k += 1
                f.write(json.dumps(c) + '\n')
        if k == 0:
            return
        e = dict(kw.get('env') or {})
        e.update(TRACE=path, VERBOSE='0', PROP=kw.get('prop') or self.prop, KNOWN=' ')
        out, res = self.tlc(module, cfg, env=e, workers=4, count=False, expect_ok=False)
        acc = set(re.findall(r'^"ACCEPT (\d+)"$', out, re.M))
        if res['exit'] != 0:
            # a corrupted run made no sense to TLC, which then stops: take some one at a time
            some = open(path).read().splitlines()

            def one(j):
                p1 = '%s.%d' % (path, j)
                with open(p1, 'w') as f:
                    f.write(some[j] + '\n')
                o, _ = self.tlc(module, cfg, env=dict(e, TRACE=p1), workers=1, heap='1g', count=False, expect_ok=False)
                return '"ACCEPT 1"' in o
            k, acc = 0, []
            with concurrent.futures.ThreadPoolExecutor(5) as ex:
                while k == len(acc) and k < len(some):
                    m = min(k + 10, len(some))
                    acc += [j for j, a in zip(range(k, m), ex.map(one, range(k, m))) if a]
                    k = m
        self.extra['corrupted_traces'] = self.extra.get('corrupted_traces', 0) + k
        self.extra['corrupted_traces_rejected'] = self.extra.get('corrupted_traces_rejected', 0) + k - len(acc)
        if len(acc) == k:
            raise CheckError('%s accepts every corrupted trace' % module)

    def runs_check(self, module, trace, cfg=None, **kw):
        """accept(), with every rejected run reported as a violation."""
        bad = self.accept(module, trace, cfg, **kw)
        if not bad:
            self.binding(module, trace, bad, cfg, **{k: v for k, v in kw.items() if k in ('env', 'prop')})
        lines = open(trace).read().splitlines()
        for i in sorted(bad):
            c = json.loads(lines[i - 1])
            p, e = bad[i]
            what = 'run %d of scenario %s: the specification does not allow event %d: %s' % (c['i'], c['scn'], p + 1, json.dumps(e)[:400])
            self.violate(dict(property=self.prop, scenario=c['scn'], run=c['i'], seed=self.seed, accepted=p, rejected=e, cfg=c['cfg'], events=c['ev']), what)
        return bad

    # ---- verdicts --------------------------------------------------------------------------
    def sample(self, *xs):
        for x in xs:
            if len(self.samples) < 6:
                self.samples.append(x)

    def violate(self, replay, text):
        """replay: a JSON-able description of the failing case, sufficient to re-run it."""
        n = len(self.violations)
        path = os.path.join(self.rep, '%s-%d.json' % (self.prop, n))
        if n < 20:
            with open(path, 'w') as f:
                json.dump(replay, f, indent=1)
        self.violations.append((path, text))

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples, **self.extra),
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions, violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if self.violations:
            for path, text in self.violations[:5]:
                print(text)
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violations[0][0]))
            return 1
        self.log('held: %d states, %d transitions, %d traces' % (self.states, self.transitions, self.traces))
        return 0


def in_library(err):
    """Where a dead driver was, if it died (or was stuck) in the code under test: the message and
    the innermost function of the program, which must not be one of the driver's own."""
    m = re.search(r'^(panic|fatal error|runtime: goroutine stack exceeds|stuck): .*|^runtime: goroutine stack exceeds.*', err, re.M)
    if not m:
        return ''
    for g in re.split(r'\n\n', err[m.end():]):
        if not re.match(r'goroutine \d+ .*\[running|goroutine 1 ', g) and not re.search(r'main\.main\(', g):
            continue
        for f in re.findall(r'^(\S+)\(', g, re.M):
            if f.startswith('github.com/sttp/goapi/sttp/'):
                return m.group(0) + ' in ' + f
            if f.startswith(('github.com/sttp/goapi/vdrv/', 'main.')):
                break
    return ''


def memory_limit():
    """No driver process needs this much; code that asks for more is not to take the machine with it."""
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(l) for l in f]


def known_findings(prop):
    """The open known findings of a property: {id: description}."""
    res = {}
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'open: property=(\S+) id=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            res[m.group(2)] = m.group(3).strip()
    return res
