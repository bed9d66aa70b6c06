#!/usr/bin/env python3
"""Authoring-time: looks for generated streams on which a mutant of dav1d differs from libaom.
kill.py N SEED0 MUTANT_VDEC... (EXTRA="key=value ..." narrows the generator); prints and keeps those in /tmp/w/kill"""
import sys, os, subprocess, json, concurrent.futures as cf
N, S0 = int(sys.argv[1]), int(sys.argv[2]); EX = sys.argv[3:]; G = '/tmp/genlib'; tmp = '/tmp/w/kill'; os.makedirs(tmp, exist_ok=True)
src = open(os.path.dirname(os.path.abspath(__file__)) + '/mkcorpus.py').read(); d = {'os': os}; exec('import os, random, json\n' + src[src.index('def cfg'):src.index('def run')], d); cfg = d['cfg']
def run(a): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
def hashes(exe, f, g): return [l.split(' h=')[1][:16] for l in run([exe, f'file={f}', f'grain={g}', 'all=1', 'timeout=30']).stdout.decode().splitlines() if l.startswith('P ')]
def one(s):
    c = cfg(s); f = f'{tmp}/k{s}.obu'
    if run([f'{G}/gen'] + [f'{k}={v}' for k, v in c.items()] + [f]).returncode: return s, None
    t = run([f'{G}/refdec', f, 'grain=0', 'all=1']).stdout.decode().splitlines(); kills = []
    if any(l.startswith('E') for l in t): os.unlink(f); return s, None
    r = [l[-16:] for l in t]
    if hashes('/tmp/vb/bin/vdec_rel', f, 0) != r: os.unlink(f); return s, 'MISMATCH'
    for e in EX:
        if hashes(e, f, 0) != r: kills.append(os.path.basename(e))
    if not kills: os.unlink(f); return s, ''
    json.dump(c, open(f'{tmp}/k{s}.json', 'w')); return s, (os.path.getsize(f), kills, c)
st = {}
with cf.ThreadPoolExecutor(8) as ex:
    for s, k in ex.map(one, range(S0, S0 + N)):
        t = 'refused' if k is None else k if isinstance(k, str) else 'kill'; st[t] = st.get(t, 0) + 1
        if t in ('kill', 'MISMATCH'): print(s, k, flush=True)
print(st)
