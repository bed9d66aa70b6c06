"""Check driver: batch execution of harness jobs, verdicts, known findings, evidence."""
import os, sys, json, time, random, threading, queue, subprocess, hashlib, tempfile, shutil, re
from . import build
ROOT = build.ROOT
CORPUS = ROOT + '/corpus'
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=8',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4:report_thread_leaks=0',
    'MSAN_OPTIONS': 'exitcode=99:print_stats=0',
    'LC_ALL': 'C',
}
class Result:
    __slots__ = ('rc', 'out', 'err', 'args', 'exe', 't')
    def __init__(s, rc, out, err, args, exe): s.rc, s.out, s.err, s.args, s.exe = rc, out, err, args, exe
    def lines(s, c): return [l for l in s.out.splitlines() if l[:1] in c and l[1:2] == ' ']
    @property
    def ok(s): return s.rc == 0
class Worker:
    def __init__(self, exe): self.exe = exe; self.p = None
    def start(self):
        env = dict(os.environ, **SAN_ENV)
        self.p = subprocess.Popen([self.exe, 'batch'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
    def run(self, args):
        t0 = time.time()
        if self.p is None: self.start()
        try:
            self.p.stdin.write(('\t'.join(args) + '\n').encode()); self.p.stdin.flush()
            h = self.p.stdout.readline().split()
            rc, a, b = map(int, h); out = self.p.stdout.read(a); err = self.p.stdout.read(b)
        except (BrokenPipeError, ValueError) as e:
            self.close(); raise RuntimeError(f'batch server died: {self.exe} {args}')
        r = Result(rc, out.decode('latin1'), err.decode('latin1'), args, self.exe); r.t = time.time() - t0; return r
    def close(self):
        if self.p:
            try: self.p.stdin.close()
            except Exception: pass
            try: self.p.stdout.close()
            except Exception: pass
            self.p.wait(); self.p = None
class Inconclusive(Exception): pass
class Check:
    def __init__(self, pid, level='exploration'):
        self.pid, self.level = pid, level
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1); self.rng = random.Random(f'{pid}/{self.seed}')
        self.t0 = time.time(); self.viol = {}; self.known_hit = {}; self.n_eval = 0; self.distinct = set(); self.samples = []; self.cov = {}; self.assumptions = []
        self.rule = ''; self.skipped = 0
        self.known = load_known(pid)
        base = build.B + '/tmp'; os.makedirs(base, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=pid + '-', dir=base)
    thorough = property(lambda s: s.tier == 'thorough')
    def pick(self, quick, thorough): return thorough if self.thorough else quick
    def build(self, *names, cli=()): self.bin = build.ensure(*names, cli=cli); return self.bin
    def count(self, k, n=1): self.cov[k] = self.cov.get(k, 0) + n
    def seen(self, k, v): self.cov.setdefault(k, set()).add(v)
    def sample(self, s):
        if len(self.samples) < 8: self.samples.append(str(s)[:600])
    def run_jobs(self, jobs, workers=None, retry_timeout=True):
        """jobs: list of (exe, args).  Results in order.  A watchdog expiry while the job was still using the CPU (77) is re-run once with a
        generous limit; a job whose threads all slept without using any CPU (76) is a hang at once.  After a few confirmed hangs, many
        crashes or the time budget the rest is not run (75)."""
        n = workers or build.NPROC; res = [None] * len(jobs); q = queue.Queue(); errs = []; lock = threading.Lock(); st = {'hang': 0, 'crash': 0}
        for i in range(len(jobs)): q.put(i)
        if self.skipped: retry_timeout = False
        def stopped(): return self.skipped or st['hang'] >= 3 or st['crash'] >= 80 or time.time() - self.t0 > self.pick(600, 36000)
        def work():
            ws = {}
            try:
                while not errs:
                    try: i = q.get_nowait()
                    except queue.Empty: break
                    exe, args = jobs[i]
                    if stopped(): res[i] = Result(75, '', '', args, exe); res[i].t = 0; continue
                    w = ws.get(exe) or ws.setdefault(exe, Worker(self.bin[exe]))
                    try: res[i] = w.run(args)
                    except RuntimeError as e:
                        try: res[i] = w.run(args)
                        except RuntimeError as e2: errs.append(str(e2)); continue
                    rc = res[i].rc
                    if rc == 77 and retry_timeout:
                        with lock:
                            if st['hang'] < 2:
                                res[i] = w.run([x for x in args if not x.startswith('timeout=')] + ['timeout=150']); rc = res[i].rc
                                if rc == 77: st['hang'] += 2
                    if rc in (76, 78): st['hang'] += 1
                    elif rc < 0 or rc in (99, 66): st['crash'] += 1
            finally:
                for w in ws.values(): w.close()
        th = [threading.Thread(target=work) for _ in range(min(n, len(jobs)) or 1)]
        [t.start() for t in th]; [t.join() for t in th]
        if errs: raise RuntimeError(errs[0])
        for r in sorted(res, key=lambda r: -r.t)[:3]:
            if os.environ.get('VERIF_SLOW'): print(f'slow {r.t:.2f}s rc={r.rc}', *r.args, file=sys.stderr)
        self.n_eval += len(jobs); self.skipped += sum(r.rc == 75 for r in res)
        return res
    def violation(self, key, msg, detail='', files=()):
        """key identifies the violation for known-findings matching (stable across runs and seeds)."""
        for k in self.known:
            if re.fullmatch(k['key'], key): self.known_hit.setdefault(k['key'], (k, msg)); return
        if key in self.viol: self.viol[key]['n'] += 1; return
        d = f'{ROOT}/evidence/replay'; os.makedirs(d, exist_ok=True)
        p = f'{d}/{self.pid}-{hashlib.sha1(key.encode()).hexdigest()[:8]}.txt'
        with open(p, 'w', errors='replace') as f: f.write(f'property {self.pid}\nkey {key}\n{msg}\nseed {self.seed} tier {self.tier}\n{detail}\n')
        for i, fn in enumerate(files):
            try: shutil.copy(fn, f'{p[:-4]}-{i}-{os.path.basename(fn)}')
            except OSError: pass
        self.viol[key] = {'msg': msg, 'replay': p, 'n': 1}
        if len(self.viol) <= 6: print(f'{msg}\nVIOLATION property={self.pid} replay={p}', flush=True)
    def judge(self, r, what='', key=None, allow_rc=(0,), monitor=True):
        """The part of the verdict every run shares: sanitizer reports, aborts, hangs, monitor (V) lines."""
        d = f'exe {r.exe}\nargs {" ".join(r.args)}\n--- stdout\n{r.out[-6000:]}\n--- stderr\n{r.err[-8000:]}'
        files = [a[5:] for a in r.args if a.startswith('file=')]
        if r.rc == 75: return False
        if r.rc == 76: self.violation(f'hang {what}', f'{what}: deadlock: every thread slept and no CPU time was used for 12 s', d, files); return False
        if r.rc == 77: self.violation(f'hang {what}', f'{what}: no progress: the call never returned (twice, generous watchdog)', d, files); return False
        if r.rc == 78: self.violation(f'deadlock {what}', f'{what}: {next(iter(r.lines("V")), "V deadlock")[2:]}', d, files); return False
        if r.rc not in allow_rc:
            self.violation(f'crash {what} {crash_sig(r)}', f'{what}: {crash_sig(r)}', d, files); return False
        if monitor:
            for l in r.lines('V'):
                self.violation(f'monitor {norm(l)}', f'{what}: {l[2:]}', d, files); return False
        return True
    def finish(self):
        wall = time.time() - self.t0
        for k, (kf, m) in self.known_hit.items(): print(f'KNOWN-FINDING: property={self.pid} {kf["desc"]}')
        cov = {'evaluations': self.n_eval, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule, 'samples': self.samples or ['(none)']}
        for k, v in self.cov.items(): cov[k] = (sorted(v, key=str)[:40] if len(v) <= 40 else len(v)) if isinstance(v, set) else v
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(self.viol)}
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        with open(f'{ROOT}/evidence/{self.pid}.json', 'w') as f: json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if not self.viol and self.skipped: print(f'{self.pid}: {self.skipped} runs were left out: inconclusive'); sys.exit(3)
        if not self.viol and not self.distinct and not self.known_hit:
            print(f'{self.pid}: nothing was observed: inconclusive'); sys.exit(3)
        print(f'{self.pid}: {"VIOLATED" if self.viol else "held on everything explored"}: {self.n_eval} runs, {len(self.distinct)} distinct cases, {wall:.1f}s; ' + ', '.join(f'{k}={v if not isinstance(v, set) else len(v)}' for k, v in self.cov.items())[:1500])
        sys.exit(1 if self.viol else 0)
def norm(l): return re.sub(r'\b(0x)?[0-9a-f]{8,16}\b', 'H', re.sub(r'\d+', 'N', l))[:200]
def crash_sig(r):
    t = r.err + r.out
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', t) or re.search(r'WARNING: (?:Memory|Thread)Sanitizer: ([\w -]+)', t)
    f = [x for x in re.findall(r'#\d+ 0x[0-9a-f]+ (?:in )?([\w.]+) ', t) if not x.startswith('__')]
    if m: return f'{m.group(1)} in {f[0] if f else "?"}'
    m = re.search(r'([\w./]+):(\d+):\d+: runtime error: ([^\n]*)', t)
    if m: return f'undefined behaviour at {os.path.basename(m.group(1))}: {norm(m.group(3))[:80]}'
    m = re.search(r"Assertion [`']?(.*?)'? failed", t)
    if m: return f'assertion failed: {m.group(1)[:80]}'
    m = re.search(r'FAULT signal (\d+) (\w+) pc=0x([0-9a-f]+)(.*)', t)
    if m: return f'invalid memory {m.group(2)} in {symbol(r.exe, int(m.group(3), 16))}{m.group(4).split(" of buffer")[0]}'
    return f'exit status {r.rc}' if r.rc >= 0 else f'killed by signal {-r.rc}'
_sym = {}
def symbol(exe, pc):
    if exe not in _sym:
        t = subprocess.run(['nm', '-n', exe], stdout=subprocess.PIPE).stdout.decode().split('\n')
        _sym[exe] = [(int(x[0], 16), x[2]) for x in (l.split() for l in t) if len(x) == 3 and x[1] in 'tTwW']
    import bisect
    i = bisect.bisect_right([a for a, _ in _sym[exe]], pc) - 1
    return _sym[exe][i][1].split('.')[0] if i >= 0 else '?'
def load_known(pid):
    out = []
    try:
        for l in open(ROOT + '/KNOWN_FINDINGS'):
            m = re.match(r'known: property=(\w+) key=/(.*?)/ (.*)', l)
            if m and m.group(1) == pid: out.append({'key': m.group(2), 'desc': m.group(3).strip()})
    except OSError: pass
    return out
_gold = None
def gold():
    global _gold
    if _gold is None: _gold = json.load(open(CORPUS + '/gold.json'))
    return _gold
def stream(name): return f'{CORPUS}/{name}.obu'
def streams(s): return sorted(k for k in gold() if k.startswith(s + '/'))
def pkey(l):
    """P line -> the part comparable with the golden result (size, layout, depth, sample hash)"""
    x = l.split(); return f'{x[4]} {x[5]} {x[6]} {x[7][2:]}'
def fields(l): return dict(t.split('=', 1) for t in l.split() if '=' in t)
def pcontent(l):
    """everything about a returned picture that must not depend on how decoding was driven"""
    x = l.split(' '); return ' '.join(x[4:])
def sched_args(r, threads=(2, 2, 3, 4, 5, 8)):
    a = [f'threads={r.choice(threads)}', f'sched={r.randrange(1, 1 << 30)}', f'smode={r.choice([0, 0, 1, 1, 2, 3, 3, 4, 4, 5, 5, 5, 6])}', f'speriod={r.choice([20, 100, 500, 3000, 20000])}', f'seed={r.randrange(1 << 20)}']
    if r.random() < .5: a.append(f'delay={r.choice([1, 2, 3, 4, 8])}')
    if r.random() < .15: a.append('spurious=2')
    return a
def sched_stats(c, r):
    for l in r.lines('S'):
        x = l.split()
        if x[1:2] == ['sched']:
            c.count('schedule_decisions', int(x[5])); c.count('thread_switches', int(x[7])); c.seen('distinct_schedules', x[11]); c.count('schedules_run'); return x[11]
def small(n, lim=40000): return not isinstance(n, str) or n not in gold() or gold()[n]['size'] <= lim
def main(fn, pid, level='exploration'):
    c = Check(pid, level)
    try: fn(c)
    except build.BuildError as e: print(f'{pid}: build failed\n{e}'); shutil.rmtree(c.tmp, ignore_errors=True); sys.exit(4)
    except Exception:
        if not c.viol: raise
        import traceback; traceback.print_exc() # after a violation: what was found counts
    c.finish()
