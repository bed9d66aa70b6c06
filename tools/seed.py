#!/usr/bin/env python3
"""seed.py new ID          : take the diff of the scratch copy /tmp/sb as seeded/ID/patch.diff
   seed.py reset           : (re)create the scratch copy /tmp/sb from /repo
   seed.py verify ID...    : patch applies, builds, tests pass, demo 0 unpatched / !=0 patched
   seed.py catch ID [Cxx]  : run the property's check against the patched copy (own build directory)"""
import os, sys, subprocess, json, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = '/tmp/sb'
def sh(cmd, cwd=S, env=None, t=900):
    try: p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    except subprocess.TimeoutExpired: return 124, 'timeout'
    return p.returncode, p.stdout.decode('utf-8', 'replace')
def reset():
    if not os.path.exists(S): sh(f'mkdir -p {S}; cp -a /repo/. {S}/', '/'); shutil.rmtree(S + '/_build'); print(sh('CC=gcc meson setup _build --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false -Dtrim_dsp=false -Denable_examples=true -Denable_seek_stress=true -Dxxhash_muxer=enabled')[0])
    sh('git checkout -q -f --detach; git clean -fdq src include tools; git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD')
def base():
    """/tmp/sb0: the unchanged tree, built"""
    B = S + '0'
    if not os.path.exists(B): sh(f'git clone -q /repo {B}; cd {B}; CC=gcc meson setup _build --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false -Dtrim_dsp=false -Dxxhash_muxer=enabled', '/')
    rc, t = sh('git fetch -q origin HEAD && git checkout -q -f FETCH_HEAD && ninja -C _build', B); assert not rc, t
def build():
    return sh('ninja -C _build all tests/checkasm >/tmp/sb.log 2>&1 || (tail -20 /tmp/sb.log; exit 1)')
def demo(i): return sh(f'bash {R}/seeded/{i}/demo.sh', t=300)
def verify(i):
    reset(); p = f'{R}/seeded/{i}/patch.diff'
    rc, t = build()
    if rc: return f'base build failed {t}'
    rc, t = demo(i)
    if rc: return f'demo fails on the unchanged tree: {rc} {t[-600:]}'
    rc, t = sh(f'git apply {p}')
    if rc: return 'does not apply: ' + t
    rc, t = build()
    if rc: return 'does not build: ' + t
    rc, t = demo(i)
    if not rc: return 'demo passes with the change: ' + t[-600:]
    m = t[-200:]
    rc, t = sh('meson test -C _build --no-rebuild --test-args 1 -t 3 >/tmp/sb.test 2>&1; grep -E "^(Ok|Fail|Timeout|Unexpected)" /tmp/sb.test')
    if 'Fail:                0' not in t.replace('\t', ' ') and not all(l.split()[-1] == '0' for l in t.splitlines() if l.startswith(('Fail', 'Timeout'))): return 'tests fail: ' + t
    return 'OK demo says: ' + m.strip().replace('\n', ' | ') + ' // ' + ' '.join(t.split())
def catch(i, c):
    S2 = '/tmp/sbc'; sh(f'mkdir -p {S2}; rsync -a --delete --exclude _build --exclude .git /repo/ {S2}/ 2>/dev/null || (rm -rf {S2}; mkdir -p {S2}; cd /repo; git archive HEAD | tar x -C {S2})', '/')
    rc, t = sh(f'git apply --directory= {R}/seeded/{i}/patch.diff || patch -p1 < {R}/seeded/{i}/patch.diff', S2)
    if rc: return 'apply: ' + t
    env = dict(os.environ, VERIF_REPO=S2, VERIF_BUILD='/tmp/vbc', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
    import time; t0 = time.time(); rc, t = sh(f'python3 run.py {c}', R, env)
    return f'rc={rc} {time.time()-t0:.0f}s ' + ' / '.join([l for l in t.splitlines() if not l.startswith('[build]')][:3])[:700]
def mini(repo, out):
    rc, t = sh(f'gcc -O1 -I{repo}/include -I{repo}/_build/include -I{repo}/_build/include/dav1d {R}/tools/demo/mini.c -o {out} -L{repo}/_build/src -ldav1d -Wl,-rpath,{repo}/_build/src')
    assert not rc, t
def run(exe, f, opts):
    try: p = subprocess.run([exe, f, *opts], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20)
    except subprocess.TimeoutExpired: return 'timeout'
    return p.stdout.decode() + (f'rc {p.returncode}\n' if p.returncode else '')
def auto(i, prop, needs, breaks, optsets, glob=None):
    """diff of /tmp/sb -> seeded/i; the smallest corpus stream that shows it becomes the demonstration"""
    import glob as G, concurrent.futures as cf
    d = f'{R}/seeded/{i}'; os.makedirs(d, exist_ok=True); df = sh('git diff')[1]; assert df.strip(), 'no change'
    open(d + '/patch.diff', 'w').write(df)
    rc, t = build(); assert not rc, t
    base(); mini(S + '0', '/tmp/mini0'); mini(S, '/tmp/mini1')
    fs = sorted(G.glob(glob or R + '/corpus/*/*.obu'), key=os.path.getsize)
    def one(f):
        for o in optsets:
            a = run('/tmp/mini0', f, o.split())
            if a != run('/tmp/mini1', f, o.split()) and a == run('/tmp/mini0', f, o.split()): return f, o, a
    hits = []
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, fs):
            if r: hits.append(r)
    print(f'{len(hits)} of {len(fs)} streams show it')
    if not hits: return
    f, o, a = hits[0]
    for x in ('mini.c', 'lib.sh'): shutil.copy(f'{R}/tools/demo/{x}', d)
    shutil.copy(f, d + '/stream.obu'); open(d + '/expected.txt', 'w').write(a)
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# decodes stream.obu ({o}) and compares pictures and results with expected.txt
. "$(dirname "$0")/lib.sh"
client mini.c mini
timeout 60 "$T/mini" "$D/stream.obu" {o} > "$T/out"
cmp "$T/out" "$D/expected.txt"
''')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(f, o); print(verify(i))
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'reset': reset()
    elif a[0] == 'new':
        d = f'{R}/seeded/{a[1]}'; os.makedirs(d, exist_ok=True); open(d + '/patch.diff', 'w').write(sh('git diff')[1])
    elif a[0] == 'auto': auto(a[1], a[2], a[3], a[4], a[5].split(';'), *a[6:])
    elif a[0] == 'verify':
        for i in a[1:]: print(i, verify(i), flush=True)
    elif a[0] == 'catch':
        for i in a[1:]:
            if i.startswith('C') and i[1:].isdigit(): continue
            pr = [x for x in a[1:] if x.startswith('C') and x[1:].isdigit()] or [json.load(open(f'{R}/seeded/{i}/meta.json'))['property']]
            for c in pr: print(i, c, catch(i, c), flush=True)
