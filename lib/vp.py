"""Runner shared by all checks: build, drive, validate with TLC, report."""
import json, os, re, subprocess, sys, time, random, fcntl, hashlib, tempfile, shutil, signal
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, 'specs')
NCPU = min(8, os.cpu_count() or 1)
TLC_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class CheckError(Exception):
    """the machinery itself failed (exit 2): neither pass nor violation"""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.work = os.path.join(ROOT, 'work', '%s-%s-%d' % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True); os.makedirs(self.work)
        self.replays = os.path.join(ROOT, 'replays'); os.makedirs(self.replays, exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.mc = []
        self.violations = []
        self.known = load_known(prop)
        self.assumptions = []
        self.n = 0
        self.bins = {}

    def thorough(self): return self.tier == 'thorough'
    def log(self, *a): print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---------------- build
    def build(self, san='asan'):
        if san in self.bins: return self.bins[san]
        d = os.path.join(ROOT, '.build', san); os.makedirs(d, exist_ok=True)
        with open(d + '.lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = sh(['bash', os.path.join(ROOT, 'lib', 'build.sh'), d, san])
        if r.returncode != 0:
            print(r.stdout[-6000:]); raise CheckError('build failed')
        self.log('built', san)
        self.bins[san] = os.path.join(d, 'czidrv'); return self.bins[san]

    # ---------------- drive
    def _run_shard(self, binp, scripts, base, tmo, env, wrap=None):
        sp, op = base + '.in', base + '.out'
        with open(sp, 'w') as f:
            for s in scripts: f.write(json.dumps(s) + '\n')
        if os.path.exists(op): os.unlink(op)
        res = []; start = 0
        while start < len(scripts):
            ep = base + '.err'
            with open(ep, 'w') as er:
                p = subprocess.Popen((wrap or []) + [binp, sp, op, str(start), str(tmo)], stdout=er, stderr=er, env=env)
                try: rc = p.wait(timeout=3600)
                except subprocess.TimeoutExpired: p.kill(); rc = p.wait()
            got = []
            if os.path.exists(op):
                with open(op, encoding='utf-8', errors='surrogateescape') as f: got = [l for l in f if l.endswith('\n')]
            res = [json.loads(l) for l in got]
            if rc in (3, 4):
                raise CheckError('driver: ' + open(ep, errors='replace').read()[-2000:])
            if len(res) >= len(scripts) and rc == 0: break
            if len(res) >= len(scripts):
                # all episodes done, but the process did not exit cleanly
                res[-1]['crash'] = 'rc=%d at exit' % rc; res[-1]['stderr'] = open(ep, errors='replace').read()[-6000:]; break
            # crashed in episode len(res)
            err = open(ep, errors='replace').read()
            kind = 'timeout' if rc == -signal.SIGALRM else 'rc=%d' % rc
            m = re.search(r'(AddressSanitizer|ThreadSanitizer|LeakSanitizer): ([^\n]*)', err)
            if m: kind += ' ' + m.group(2)[:160]
            elif 'terminate called' in err: kind += ' uncaught exception'
            rec = dict(id=scripts[len(res)].get('id', '?'), crash=kind, stderr=err[-6000:], ev=[])
            with open(op, 'a') as f: f.write(json.dumps(rec) + '\n')
            start = len(res) + 1
            res.append(rec)
        for x in (sp, op, base + '.err'):
            if os.path.exists(x): os.unlink(x)
        return res

    def drive(self, scripts, san='asan', tmo=60, env_extra=None, shards=NCPU, wrap=None):
        """run every script; returns results in order. Adds ids."""
        binp = self.build(san)
        for i, s in enumerate(scripts): s.setdefault('id', '%s-%d' % (s.get('fam', 'x'), self.n + i))
        self.n += len(scripts)
        env = dict(os.environ); env.update(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=2048',
                                          TSAN_OPTIONS='exitcode=66:halt_on_error=1:second_deadlock_stack=1', LC_ALL='C.UTF-8')
        env.update(env_extra or {})
        k = max(1, min(shards, len(scripts)))
        parts = [scripts[i::k] for i in range(k)]
        self.dn = getattr(self, 'dn', 0) + 1
        with ThreadPoolExecutor(k) as ex:
            rs = list(ex.map(lambda j: self._run_shard(binp, parts[j], os.path.join(self.work, 'd%d_%d' % (self.dn, j)), tmo, env, wrap), range(k)))
        out = [None] * len(scripts)
        for j in range(k):
            for q, r in enumerate(rs[j]): out[j + q * k] = r
        self.log('drove %d episodes' % len(scripts))
        return out

    def tsan_wrap(self):
        """command prefix under which the ThreadSanitizer build starts, or False (its memory layout needs can clash with the kernel's)"""
        b = self.build('tsan'); ip = os.path.join(self.work, 'smoke.in'); open(ip, 'w').close()
        for w in ([], ['setarch', '-R']):
            try:
                if all(sh(w + [b, ip, ip + '.out', '0', '20']).returncode == 0 for _ in range(3)): return w
            except OSError: pass
        return False

    # ---------------- TLC
    def tlc(self, module, cfg=None, env=None, args=(), workers=NCPU, timeout=840, heap='6g'):
        meta = tempfile.mkdtemp(prefix='tlc', dir=self.work)
        e = dict(os.environ); e.update(env or {}); e['TRACE_SEED'] = str(self.seed)
        cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-cp', TLC_CP, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers), '-nowarning', '-noGenerateSpecTE',
               '-config', cfg or (module + '.cfg')] + list(args) + [module + '.tla']
        try:
            r = sh(cmd, cwd=SPECS, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timeout on ' + module)
        shutil.rmtree(meta, ignore_errors=True)
        return r

    @staticmethod
    def tlc_counts(out):
        m = re.findall(r'([\d,]+) states generated[^\n]*?,? ([\d,]+) distinct states found', out)
        if not m: return 0, 0
        g, d = m[-1]; return int(g.replace(',', '')), int(d.replace(',', ''))

    def model_check(self, module, cfg=None, **kw):
        """design-level check of the specification itself; failure is an error of the framework"""
        r = self.tlc(module, cfg, **kw); g, d = self.tlc_counts(r.stdout)
        if r.returncode != 0 or 'No error has been found' not in r.stdout:
            print(r.stdout[-4000:]); raise CheckError('model checking of %s failed' % (cfg or module))
        self.cov['states'] += d; self.cov['transitions'] += g; self.mc.append('%s: %d distinct states' % (cfg or module, d))
        self.log('model checked', cfg or module, d, 'states'); return r.stdout

    def must_reject(self, module, cfg, **kw):
        """a deliberately wrong design: its invariants must fail (they are not vacuous)"""
        r = self.tlc(module, cfg, **kw)
        if not re.search(r'Invariant \w+ is violated|Temporal properties were violated', r.stdout):
            print(r.stdout[-4000:]); raise CheckError('%s: the wrong design was not rejected' % cfg)
        self.mc.append('%s: wrong design rejected' % cfg); self.log('wrong design rejected:', cfg)

    def generate(self, module, cfg=None, args=(), **kw):
        """behaviours printed by a generator specification as  "SCRIPT|<json>"  lines"""
        r = self.tlc(module, cfg, args=args, **kw)
        out = []
        for m in re.finditer(r'^("SCRIPT\|.*")$', r.stdout, re.M):
            out.append(json.loads(json.loads(m.group(1))[7:]))
        if not out or 'rror:' in r.stdout:
            print(r.stdout[-3000:]); raise CheckError('generation from %s failed' % module)
        g, d = self.tlc_counts(r.stdout); self.cov['states'] += d; self.cov['transitions'] += g
        self.mc.append('%s: %d behaviours generated' % (cfg or module, len(out)))
        self.log('generated', len(out), 'behaviours from', module); return out

    def validate(self, module, results, env=None, cfg=None, timeout=840, chunk=None):
        """evaluate recorded episodes against the trace specification; returns list of (index, step, text)"""
        bad = []; idx = [i for i, r in enumerate(results) if not r.get('crash')]
        groups = [idx] if not chunk else [idx[k:k + chunk] for k in range(0, len(idx), chunk)]
        for g in groups:
            if not g: continue
            self.vn = getattr(self, 'vn', 0) + 1
            tp = os.path.join(self.work, 'trace%d.ndjson' % self.vn)
            with open(tp, 'w', encoding='utf-8', errors='surrogateescape') as f:
                for i in g: f.write(json.dumps(dict(id=results[i]['id'], ev=results[i]['ev'])) + '\n')
            e = dict(TRACE=tp, PROP=self.prop); e.update(env or {})
            r = self.tlc(module, cfg, env=e, timeout=timeout)
            n = sum(len(results[i]['ev']) + 1 for i in g)
            gen, dis = self.tlc_counts(r.stdout)
            found = re.findall(r'^"BAD\|(\d+)\|(\d+)\|(.*)"$', r.stdout, re.M)
            if 'rror:' in r.stdout or 'xception' in r.stdout or (r.returncode != 0):
                if re.search(r'OutOfMemory|StackOverflow|Parsing or semantic|No space left|Could not find module|java\.io', r.stdout) or not re.search(r'Error: (Evaluating|TLC threw|Attempted|In evaluation|The (first|second) argument)|The error occurred when TLC was evaluating|Attempted to ', r.stdout):
                    print(r.stdout[-5000:]); shutil.copy(tp, os.path.join(self.replays, 'error-%s.ndjson' % self.prop)); raise CheckError('TLC failed on trace module ' + module)
                # a recorded value lies outside everything the specification can evaluate: find the episodes
                os.unlink(tp)
                seen = {(int(ei), int(st)): tx for ei, st, tx in found}
                if seen: bad += [(g[ei - 1], st, tx) for (ei, st), tx in seen.items()]; continue
                if len(g) == 1: bad.append((g[0], 0, 'a recorded value has no meaning in the specification')); continue
                stop = getattr(self, 'outside', 0)
                for part in (g[:len(g) // 2], g[len(g) // 2:]):
                    if sum('no meaning' in b[2] for b in bad) + stop >= 3: break
                    self.outside = stop + sum('no meaning' in b[2] for b in bad)
                    sub = self.validate(module, [results[i] for i in part], env, cfg, timeout); bad += [(part[i], st, tx) for i, st, tx in sub]
                self.outside = stop; continue
            if not found and dis != n:
                print(r.stdout[-3000:]); raise CheckError('trace not fully consumed: %d of %d states' % (dis, n))
            seen = set()
            for ei, st, tx in found:
                if (ei, st) in seen: continue
                seen.add((ei, st)); bad.append((g[int(ei) - 1], int(st), tx))
            self.cov['states'] += dis; self.cov['transitions'] += gen
            self.cov['traces_validated_against_impl'] += len(g) - len(seen)
            os.unlink(tp)
        self.log('validated %d episodes with %s, %d rejected' % (len(idx), module, len(bad)))
        return bad

    # ---------------- the usual pipeline
    def conform(self, module, scripts, san='asan', tmo=60, env=None, classify=None, sample=None, **kw):
        """drive + validate + re-run every rejected or crashed episode once before reporting"""
        if not scripts: return []
        wrap = None
        if san == 'tsan':
            wrap = self.tsan_wrap()
            if wrap is False:
                self.log('note: ThreadSanitizer cannot start here, skipped'); self.assumptions.append('the ThreadSanitizer pass was skipped: it cannot start in this sandbox'); return []
        res = self.drive(scripts, san, tmo, wrap=wrap)
        bad = [(i, -1, 'crash: ' + r['crash']) for i, r in enumerate(res) if r.get('crash')]
        bad += self.validate(module, res, env, **kw)
        if not self.cov['samples'] or sample:
            for r in res[:1 if not sample else sample]:
                self.cov['samples'].append(json.loads(json.dumps(dict(id=r['id'], ev=r['ev'][:4]))[:100000]) if len(json.dumps(r['ev'][:4])) < 6000 else dict(id=r['id'], script=str(scripts[0])[:1500]))
        out = []
        if bad:
            # confirm: rerun these episodes alone
            pick = sorted({b[0] for b in bad})[:40]
            res2 = self.drive([scripts[i] for i in pick], san, tmo, wrap=wrap)
            bad2 = [(i, -1, 'crash: ' + r['crash']) for i, r in enumerate(res2) if r.get('crash')] + self.validate(module, res2, env, **kw)
            conf = {}
            for i, st, tx in bad2: conf.setdefault(pick[i], (st, tx, res2[i]))
            for i in sorted(conf):
                st, tx, r = conf[i]; self.report(scripts[i], r, st, tx, module, san); out.append((i, st, tx))
            if not conf: self.log('note: rejected episodes not reproducible, ignored:', bad[:3])
        return out

    def conform_lin(self, module, scripts, san='asan', tmo=60, env=None, chunk=2000):
        """concurrent histories: accepted iff TLC finds an allowed order ("DONE|n" printed). One recorded history without such an
        order is a proof; it is judged twice and reported with the recording."""
        wrap = None
        if san == 'tsan':
            wrap = self.tsan_wrap()
            if wrap is False:
                self.log('note: ThreadSanitizer cannot start here, skipped'); self.assumptions.append('the ThreadSanitizer pass was skipped: it cannot start in this sandbox'); return []
        res = self.drive(scripts, san, tmo, wrap=wrap)
        def judge(ix):
            miss = []
            for k in range(0, len(ix), chunk):
                g = ix[k:k + chunk]; self.vn = getattr(self, 'vn', 0) + 1
                tp = os.path.join(self.work, 'trace%d.ndjson' % self.vn)
                with open(tp, 'w') as f:
                    for i in g: f.write(json.dumps(dict(id=res[i]['id'], ev=res[i]['ev'])) + '\n')
                e = dict(TRACE=tp, PROP=self.prop); e.update(env or {})
                r = self.tlc(module, env=e)
                if 'rror:' in r.stdout or 'xception' in r.stdout or r.returncode != 0:
                    print(r.stdout[-5000:]); raise CheckError('TLC failed on trace module ' + module)
                done = {int(x) for x in re.findall(r'^"DONE\|(\d+)"$', r.stdout, re.M)}
                gen, dis = self.tlc_counts(r.stdout); self.cov['states'] += dis; self.cov['transitions'] += gen
                miss += [g[j] for j in range(len(g)) if j + 1 not in done]; os.unlink(tp)
            return miss
        ok = [i for i, r in enumerate(res) if not r.get('crash')]
        crash = [i for i, r in enumerate(res) if r.get('crash')]
        miss = judge(ok); miss = judge(miss) if miss else []
        self.cov['traces_validated_against_impl'] += len(ok) - len(miss)
        self.log('validated %d concurrent histories (%s) with %s, %d rejected, %d crashed' % (len(ok), san, module, len(miss), len(crash)))
        for i in miss: self.report(scripts[i], res[i], -1, 'no sequential order explains the concurrent results', module, san)
        if crash:
            # data races and crashes: run again (they may need several attempts)
            for i in crash[:5]:
                sc = [dict(scripts[i], id='%s-again%d' % (scripts[i]['id'], k)) for k in range(40)]
                again = [r for r in self.drive(sc, san, tmo, wrap=wrap) if r.get('crash')]
                if again: self.report(scripts[i], again[0], -1, 'crash: ' + again[0]['crash'], module, san)
                else: self.log('note: crash not reproducible:', res[i]['crash'], res[i].get('stderr', '')[-1500:])
        return miss

    def report(self, script, result, step, text, module, san='asan'):
        for k in self.known:
            if k.get('kind') == 'known' and re.search(k['match'], text) and ('script' not in k or re.search(k['script'], json.dumps(script))):
                k['hit'] = True; return
        name = '%s-%s.json' % (self.prop, hashlib.sha1(json.dumps(script, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(self.replays, name)
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, module=module, san=san, step=step, reason=text, script=script, result=result), f, indent=1)
        self.violations.append((text, path))

    def finish(self, level='model_checking', extra=None, assumptions=None):
        cov = dict(self.cov); cov['model_checked'] = self.mc
        if extra: cov.update(extra)
        if not cov['samples']: cov['samples'] = ['none']
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations), assumptions=(assumptions or []) + self.assumptions)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for k in self.known:
            if k.get('kind') == 'known' and k.get('hit'): print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            for t, p in self.violations[:5]: print('  reason:', t)
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violations[0][1]), flush=True); return 1
        self.log('OK'); return 0

def load_known(prop):
    """known_findings.txt: lines  'known: property=P01 match=/regex/ text'  or  'fixed: property=P01 <commit> text' (the latter suppress nothing)"""
    out = []; p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=/(.*?)/ (?:script=/(.*?)/ )?(.*)', l.strip())
            if m and m.group(1) == prop:
                d = dict(kind='known', match=m.group(2), text=m.group(4))
                if m.group(3): d['script'] = m.group(3)
                out.append(d)
    return out
