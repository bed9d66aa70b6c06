from lib.core import *
from lib import hostile
from checks.C06 import history, fields_s
def race_sig(r):
    """the two source locations of the first report, without line numbers"""
    t = r.err; f = re.findall(r'^    #0 (?:0x[0-9a-f]+ in )?(\w+)', t, re.M)
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', t)
    return f'{m.group(1).strip() if m else "report"} {" / ".join(sorted(set(f[:2])))}'
def judge(c, r, d):
    if r.rc == 66 or 'WARNING: ThreadSanitizer' in r.err:
        c.violation(race_sig(r), f'{d} {" ".join(r.args[1:])}: ThreadSanitizer: {race_sig(r)}', r.err[:12000], [a[5:] for a in r.args if a.startswith('file=')]); return False
    return c.judge(r, d)
def dep_job(r, n):
    """tall streams with short motion vectors, the threads that decode a frame being held up while others use its rows as soon as its progress allows"""
    return [f'file={stream(n)}', 'all=1', 'quiet=1', 'timeout=60', f'threads={r.choice([2, 3, 4, 6])}', f'delay={r.choice([2, 3, 4])}', f'sched={r.randrange(1, 1 << 30)}', f'smode={r.choice([5, 5, 5, 5, 6])}', f'speriod={r.choice([100, 500, 3000, 20000])}']
def check(c):
    c.build('vdec_tsan')
    c.rule = 'one decode under ThreadSanitizer (happens-before over the real mutex, atomic and thread operations) while a scheduler chooses the interleaving, or natively with random delays; other application threads read and release the returned pictures concurrently; non-trivial: more than one thread and pictures or errors returned; distinct by schedule (controlled) or input and settings (native)'
    r = c.rng; names = [n for n in sorted(gold()) if small(n)]; mt = streams('mt')
    def extra():
        a = []
        if r.random() < .6: a.append(f'relthreads={r.choice([1, 2])}')
        elif r.random() < .5: a.append(f'hold={r.choice([2, 8, 1000])}')
        if r.random() < .25: a.append('invis=1')
        if r.random() < .1: a.append('guard=1')
        return a
    inputs = [(stream(n), n) for n in r.sample(names, c.pick(260, len(names)))] + [(stream(n), n) for n in mt]
    inputs += hostile.mutants(c, names, c.pick(120, 3000)) + hostile.generate(c, c.pick(60, 1200), frames=6)
    jobs = []; meta = []
    for k in range(c.pick(1, 6)):
        for f, d in inputs:
            for m in ('s', 'j'):
                a = sched_args(r)
                if m == 'j': a = [x for x in a if x[:5] not in ('sched', 'smode', 'speri', 'spuri')] + [f'jitter={r.randrange(1, 1 << 30)}']
                jobs.append(('vdec_tsan', [f'file={f}', 'quiet=1', 'timeout=60', *a, *history(r), *extra()])); meta.append(d)
    for n in streams('dep') * c.pick(7, 80): jobs.append(('vdec_tsan', dep_job(r, n))); meta.append(n)
    for r_, d in zip(c.run_jobs(jobs), meta):
        if not judge(c, r_, f'{d}'): continue
        g = sched_stats(c, r_); s = fields_s(r_)
        if s.get('threads', 0) > 1 and s.get('pics', 0) + s.get('errs', 0) > 0: c.distinct.add(g or hash(tuple(x for x in r_.args if x[:5] != 'jitte')))
        c.count('pictures', s.get('pics', 0)); c.count('error_returns', s.get('errs', 0)); c.count('worker_threads', s.get('threads', 0))
        if not g: c.count('native_runs')
    c.sample(' '.join(jobs[0][1])); c.sample(' '.join(jobs[1][1]))
    c.assumptions = ['assembly is off: ThreadSanitizer sees only compiled code; the SIMD routines access the same buffers', 'several decoders in one process: see C26']
