from lib.core import *
from lib import hostile
import subprocess
from concurrent.futures import ThreadPoolExecutor
MASKS = [0, 1, 3, 7, 15, 31]
def check(c):
    c.build('vdec_rel', 'checkasm')
    c.rule = 'one stream decoded under several CPU flag masks; non-trivial: the portable (mask 0) run returned pictures or an error return and every other mask was compared with it (conformant streams also with libaom); distinct by stream'
    names = sorted(gold())
    g = gold(); jobs = []; meta = []
    for n in names:
        gr = '1' if '0,1,1' in g[n]['ref'] else '0'; want = g[n]['ref'][f'0,1,{gr}']
        for m in MASKS: jobs.append(('vdec_rel', [f'file={stream(n)}', 'all=1', f'grain={gr}', f'cpu={m}', f'alloc={"pad" if m & 4 else "guard"}', 'timeout=60'])); meta.append((n, m, want))
    for r, (n, m, want) in zip(c.run_jobs(jobs), meta):
        what = f'stream {n} cpu mask {m}'
        if not c.judge(r, what): continue
        got = [pkey(l) for l in r.lines('P')]
        if got != want or r.lines('R'):
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            c.violation(f'pixels {n}', f'{what}: picture {i} differs from the reference: {got[i] if i < len(got) else r.lines("R")[:1]}', r.out + '\nwant\n' + '\n'.join(want), [stream(n)]); continue
        c.distinct.add(n); c.count('conformant_mask_runs'); c.count('pictures_compared', len(want))
    # hostile streams: return codes and structure must agree (samples may differ only through illegal residuals)
    hs = hostile.mutants(c, names, c.pick(400, 8000)) + hostile.generate(c, c.pick(120, 3000))
    jobs = [('vdec_rel', [f'file={f}', f'cpu={m}', 'alloc=guard', 'timeout=60']) for f, _ in hs for m in (0, 1, 7, 15, 31)]
    res = c.run_jobs(jobs)
    for k, (f, d) in enumerate(hs):
        rs = res[5 * k:5 * k + 5]; ok = all([c.judge(r, f'hostile {d} {r.args[1]}') for r in rs])
        if not ok: continue
        st = [[re.sub(r' h=\w+', '', l) for l in r.lines('PRX')] for r in rs]
        for r, s in zip(rs, st):
            if s != st[0]: c.violation('structure', f'hostile stream {d}: {r.args[1]} and cpu=0 differ in return codes, order, size or headers', rs[0].out + '\nversus\n' + r.out, [f]); break
        else:
            c.distinct.add(f); c.count('hostile_streams'); c.count('hostile_error_returns', sum(l[0] == 'R' for l in st[0]))
            if [l for l in rs[0].lines('P')] != [l for l in rs[-1].lines('P')]: c.count('hostile_streams_with_sample_differences')
    # the repository's own kernel comparison (every SIMD kernel of every CPU level against its C reference on random operands), with fresh seeds
    seeds = [c.rng.randrange(1 << 32) for _ in range(c.pick(16, 600))]
    exe = os.path.join(build.B, 'ck/tests/checkasm')
    def one(s):
        try: p = subprocess.run([exe, str(s)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=c.pick(200, 600), cwd=c.tmp); return p.returncode, p.stdout.decode('latin1')
        except subprocess.TimeoutExpired: return None, ''
    with ThreadPoolExecutor(8) as ex: out = list(ex.map(one, seeds))
    for s, (rc, o) in zip(seeds, out):
        o = re.sub(r'\x1b\[[0-9;]*m', '', o); m = re.search(r'all (\d+) tests passed', o)
        if rc is None: c.count('kernel_runs_out_of_time'); continue
        if rc == 0 and m:
            c.count('kernel_comparison_runs'); c.count('kernel_variants_compared', int(m[1])); c.distinct.add(f'kernels seed {s}'); continue
        bad = sorted(set(re.findall(r'- (\S+) +\[FAILED', o))) or ['?']
        c.violation(f'kernel {bad[0]}', f'checkasm {s}: {" ".join(bad[:6])} differs from its C reference (exit {rc})', o[-20000:])
    c.sample(f'{names[0]} masks {MASKS}'); [c.sample(f'{d}') for _, d in hs[:4]]
    c.assumptions = ['CPU masks select among the code paths this machine supports']
