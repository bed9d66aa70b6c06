from lib.core import *
from lib import mdl, obu, av1, oracle, hostile
from collections import Counter
def check(c):
    c.build('vdec_rel'); r = c.rng
    c.rule = 'one decode with an operating point, layer, hidden-frame or frame-type setting, whose pictures were compared (which frames, in which order, with which samples) with the selection an independent model makes from the full decode of the same stream; non-trivial: at least one picture selected and another one left out or added; distinct by stream and settings'
    g = gold(); names = sorted(n for n in g if g[n]['size'] < c.pick(20000, 200000)); src = [(n, stream(n), mdl.load(n)) for n in names]
    for f, cf in hostile.generate(c, c.pick(60, 1500), 'l', slayers=2, w=64, h=48) + hostile.generate(c, c.pick(60, 1500), 's3', slayers=3, tlayers=2, w=96, h=80) + hostile.generate(c, c.pick(40, 1000), 't', tlayers=3) + hostile.generate(c, c.pick(120, 2000), 'h', hidden=50, showex=50, hiddenkey=40, intraonly=40, switch=30, frames=6):
        src.append((f'generated {cf}', f, open(f, 'rb').read()))
    jobs = []; meta = []
    for k, (n, f, d) in enumerate(src):
        try: ob = obu.parse(d)
        except ValueError: continue
        gr = r.choice([0, 0, 1]); P = [(t[0].off, sum(o.size for o in t), t) for t in obu.tus(ob)]
        full = len(jobs); jobs.append(('vdec_rel', [f'file={f}', 'op=0', 'all=1', 'invis=1', f'grain={gr}', 'timeout=60'])); meta.append((n, P, None, None, f, None))
        lay = any(o.ext is not None for o in ob); sp = any(o.sid for o in ob)
        for _ in range(c.pick(8 if lay else 3, 24 if lay else 8)):
            st = dict(op=r.randrange(8) if lay else 0, all_layers=r.choice([0, 1]) if sp else 1, invis=r.choice([0, 0, 1]), dec=r.choice([0, 0, 0, 1, 2, 3] if lay else [0, 1, 1, 2, 2, 3]))
            if not st['all_layers']: st['invis'] = 0
            pk = r.choice(['tu', 'all']) if not st['all_layers'] else r.choice(['tu', 'obu', 'all'])
            jobs.append(('vdec_rel', [f'file={f}', f'pk={pk}', f'op={st["op"]}', f'all={st["all_layers"]}', f'invis={st["invis"]}', f'dec={st["dec"]}', f'grain={gr}', 'poll=each', 'timeout=60'] + mdl.thr(r, .4))); meta.append((n, P, st, full, f, pk))
    res = c.run_jobs(jobs); table = {}
    for i, (q, (n, P, st, full, f, pk)) in enumerate(zip(res, meta)):
        clean = not n.startswith('generated')
        if st is None:
            table[i] = None
            if not c.judge(q, f'{n} full decode') or q.lines('R'): continue
            try: m = oracle.model_run(P, op=0, all_layers=1, invis=1)
            except (av1.Bad, IndexError, KeyError, TypeError): c.count('outside_the_model'); continue
            L = q.lines('P')
            if len(L) != len(m.out): c.violation('count full', f'{n}: full decode returns {len(L)} pictures, {len(m.out)} predicted', q.out, [f]); continue
            table[i] = {}
            for p, l in zip(m.out, L): table[i].setdefault(p['h']['oid'], pkey(l))
            c.count('full_decodes'); continue
        t = table[full]
        if t is None: continue
        what = f'{n} {" ".join(q.args[1:6])}'
        if not c.judge(q, what): continue
        pp = P if pk == 'tu' else oracle.packets_of(b''.join(open(f, 'rb').read() for _ in (0,)), pk)
        ob = [o for x in P for o in x[2]]
        if pk == 'obu': pp = [(o.off, o.size, [o]) for o in ob]
        elif pk == 'all': pp = [(0, sum(o.size for o in ob), ob)]
        try: m = oracle.model_run(pp, **st)
        except av1.Bad: c.count('shows_undecoded_frames'); continue
        exp = m.outputs(); L = q.lines('P'); taint = any(x['taint'] for x in hs(m))
        if q.lines('R'):
            if not taint: c.violation('error', f'{what}: error {q.lines("R")[0]}', q.out, [f])
            else: c.count('errors_after_skipped_references')
            continue
        if len(exp) != len(L): c.violation('selection', f'{what}: {len(L)} pictures returned, {len(exp)} selected', q.out, [f]); continue
        bad = None
        for k, (p, l) in enumerate(zip(exp, L)):
            w = t.get(p['h']['oid'])
            if w is None: c.count('not_in_the_full_decode'); continue
            v = pkey(l)
            if p['h']['taint']: c.count('pictures_depending_on_skipped_frames'); w, v = w.rsplit(' ', 1)[0], v.rsplit(' ', 1)[0]
            ft = fields(l)
            if v != w: bad = f'picture {k} is {v}, the full decode has {w}'
            elif (int(ft['ft']), int(ft['sid']), int(ft['tid'])) != (p['h']['ft'], p['h']['sid'], p['h']['tid']): bad = f'picture {k}: frame type and layer {ft["ft"]} {ft["sid"]} {ft["tid"]}, should be {p["h"]["ft"]} {p["h"]["sid"]} {p["h"]["tid"]}'
            elif int(ft['ts']) != 1000 + 10 * p['pkt']: bad = f'picture {k} is from packet {(int(ft["ts"]) - 1000) // 10}, should be {p["pkt"]}'
            if bad: break
            c.count('pictures_compared')
        if bad: c.violation('samples' if 'full decode' in bad else 'selection', f'{what}: {bad}', q.out, [f]); continue
        if 0 < len(exp) and len(exp) != len(t): c.distinct.add((f, tuple(st.items())))
        c.seen('settings', tuple(st.values())); c.count(f'runs_frame_type_{st["dec"]}'); c.count('runs_highest_layer_only', not st['all_layers'])
    for j in jobs[1:4] + jobs[-3:]: c.sample(' '.join(j[1]))
    c.assumptions = ['frames that depend on frames excluded by the frame-type restriction are compared in everything but samples']
def hs(m):
    seen = {}
    for p in m.out: seen[p['h']['oid']] = p['h']
    for p in m.frames: seen[p['h']['oid']] = p['h']
    return seen.values()
