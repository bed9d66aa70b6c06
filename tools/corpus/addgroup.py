#!/usr/bin/env python3
"""Authoring-time: addgroup.py GROUP DIR : adds the streams of DIR (NAME.obu, NAME.json) to corpus/GROUP; golden results by libaom (see mkgold.py). What is there stays."""
import sys, os, json, shutil, concurrent.futures as cf
src = open(os.path.dirname(os.path.abspath(__file__)) + '/mkgold.py').read(); exec(src[:src.rindex('main()')])
g, d = sys.argv[1:3]; old = json.load(open(f'{OUT}/gold.json')); have = {open(f'{OUT}/{k}.obu', 'rb').read() for k in old}; n = sum(k.startswith(g + '/') for k in old); os.makedirs(f'{OUT}/{g}', exist_ok=True)
jobs = [(f'{d}/{x}', json.load(open(f'{d}/{x[:-3]}json'))) for x in sorted(os.listdir(d)) if x.endswith('.obu')]
V = V + '/bin' if not os.path.exists(V + '/vdec_rel') else V
def masks(f): return len({run([f'{V}/vdec_rel', f'file={f}', 'all=1', 'grain=0', 'quiet=0', f'cpu={c}']) for c in (0, 1, 3, 7, 15, 31)}) == 1
with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(gold, jobs)); same = list(ex.map(lambda j: masks(j[0]), jobs))
for (f, cfg), (_, ref_), ok in zip(jobs, res, same):
    b = open(f, 'rb').read()
    if not ref_ or not ok or b in have: print('dropped', f, bool(ref_), ok); continue
    name = f'{g}/{n:04d}'; n += 1; shutil.copy(f, f'{OUT}/{name}.obu'); old[name] = {'cfg': cfg, 'ref': ref_, 'size': len(b)}; have.add(b)
with open(f'{OUT}/gold.json', 'w') as o: o.write('{\n' + ',\n'.join(json.dumps(k) + ':' + json.dumps(v, separators=(',', ':')) for k, v in sorted(old.items())) + '\n}\n')
print(g, n)
