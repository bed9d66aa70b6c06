#!/usr/bin/env python3
"""mut.py run FILE.py [-i regex] [-s seed]: applies each mutant of FILE (list M of (id, 'C01 C02', file, old, new[, nth])) to a scratch copy and runs the checks on it.
   mut.py tests FILE.py id... : whether the repository's tests notice the mutant."""
import os, sys, subprocess, re, time, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.environ.get('MB', '/tmp/mb'); B = os.environ.get('VBM', '/tmp/vbm')
def sh(cmd, cwd='/', env=None, t=1200):
    try: p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    except subprocess.TimeoutExpired: return 124, 'timeout'
    return p.returncode, p.stdout.decode('utf-8', 'replace')
def sync(): sh(f'mkdir -p {S}; rsync -a --delete --checksum --exclude _build --exclude .git /repo/ {S}/ 2>/dev/null || (mkdir -p {S} && cd /repo && git archive HEAD | tar x -C {S})')
def apply(m, root):
    i, props, f, old, *nth = m; new = nth.pop(0) if nth else None
    edits = [(f, old, new, nth[0] if nth else None)] if isinstance(old, str) else [(f if len(e) == 2 else e[0], *e[-2:], None) for e in old]
    for f, old, new, k in edits:
        p = f'{root}/{f}'; t = open(p).read(); n = t.count(old)
        if not n: raise SystemExit(f'{i}: no match in {f}: {old!r}')
        if n > 1 and k is None: raise SystemExit(f'{i}: {n} matches in {f}: {old!r}')
        if k in (None, 0): t = t.replace(old, new, 1)
        else:
            pos = -1
            for _ in range(k + 1): pos = t.index(old, pos + 1)
            t = t[:pos] + new + t[pos + len(old):]
        open(p, 'w').write(t)
def load(f): d = {}; exec(open(f).read(), d); return d['M']
if __name__ == '__main__':
    a = sys.argv[1:]; M = load(a[1]); sel = a[a.index('-i') + 1] if '-i' in a else '.*'; seed = a[a.index('-s') + 1] if '-s' in a else '1'; extra = a[a.index('-c') + 1].split(',') if '-c' in a else None
    if a[0] == 'run':
        for m in M: # all must apply
            if not re.fullmatch(sel, m[0]): continue
            sync(); apply(m, S)
        for m in M:
            if not re.fullmatch(sel, m[0]): continue
            sync(); apply(m, S)
            for c in extra or m[1].split():
                env = dict(os.environ, VERIF_REPO=S, VERIF_BUILD=B, VERIF_SEED=seed, VERIF_TIER='quick')
                t0 = time.time(); rc, t = sh(f'python3 run.py {c}', R, env)
                v = [l for l in t.splitlines() if 'VIOLATION' in l or 'rror:' in l or 'Traceback' in l]
                print(f'{m[0]} {c} {"CAUGHT" if rc == 1 and any("VIOLATION" in l for l in v) else "MISSED" if not rc else "BROKEN"} rc={rc} {time.time()-t0:.0f}s {v[0][:150] if v else t[-150:] if rc else ""}', flush=True)
    if a[0] == 'tests':
        for i in a[2:]:
            m = [x for x in M if x[0] == i][0]; T = '/tmp/sb'
            sh('git checkout -q -f .', T); apply(m, T)
            rc, t = sh('ninja -C _build all tests/checkasm >/tmp/sb.log 2>&1 || (tail -20 /tmp/sb.log; exit 1)', T)
            if rc: print(i, 'does not build', t); continue
            rc, t = sh('meson test -C _build --no-rebuild --test-args 1 -t 3 >/tmp/sb.test 2>&1; grep -E "^(Ok|Fail|Timeout|Unexpected)" /tmp/sb.test', T)
            print(i, ' '.join(t.split()), flush=True); sh('git checkout -q -f .', T)
