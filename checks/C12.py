from lib.core import *
from lib import mdl, obu, av1, oracle, reframe
def check(c):
    c.build('vdec_rel', 'vdec_asan'); r = c.rng
    c.rule = 'one decode of a corpus stream in a random packetisation, whose pictures were compared (timestamp, duration, offset, size, user data) with the packet an independent model of the stream says they came from; non-trivial: at least one picture compared; distinct by stream, packet boundaries and settings'
    g = gold(); names = sorted(n for n in g if g[n]['size'] < c.pick(20000, 200000)); jobs = []; meta = []
    lay = [n for n in names if mdl.is_lay(n)]
    for i, n in enumerate(names * c.pick(2, 14) + lay * c.pick(4, 30)):
        al_tu = mdl.is_lay(n); op, al, iv = mdl.lay_args(r, al_tu, al_tu); os_ = obu.parse(mdl.load(n))
        if r.random() < .5 and not al_tu:
            mm = av1.Model(op=op)
            for o in os_: mm.obu(o, 0)
            os_ = reframe.rewrite(r, os_, mm.hdr_of, True, r.random() < .3)
        if r.random() < .2 and not al_tu:                       # several sequences in a row
            os_ = os_ + obu.parse(mdl.load(r.choice([x for x in names[:400]])))
        f, P = mdl.case(c, str(i), mdl.group(r, os_, r.choice(['tu', 'tu', 'tus'] if not al else ['tu', 'obu', 'rnd', 'rnd', 'rnd', 'all'])))
        gr = r.choice([0, 1]); a = [f'file={f}', 'pk=sz:', f'grain={gr}', f'poll={r.choice(["each", "lazy", "cli", "rand"])}' if al else 'poll=each', 'ledger=1', f'data={r.choice(["wrap", "wrap", "create"])}', f'hold={r.choice([0, 0, 3, 100])}', 'timeout=60'] + mdl.model_args(op, al, iv) + mdl.thr(r, .5)
        if gr == 0 and r.random() < .3: a.append('fgapply=1')
        if r.random() < .4: a.append(f'props={r.choice(["sign", "neg"])}')
        jobs.append(('vdec_asan' if r.random() < .08 and g[n]['size'] < 5000 else 'vdec_rel', a)); meta.append((n, P, op, al, iv, f))
    for q, (n, P, op, al, iv, f) in zip(c.run_jobs(jobs), meta):
        m = mdl.judge(c, q, P, op, al, iv, 'count props', f'{n} in {len(P)} packets', [f])
        if m:
            if m.out: c.distinct.add(f)
            c.count('packets', len(P)); c.count('pictures_shown_again', sum('again' in p for p in m.out)); c.count('hidden_frames_returned', sum(not p['shown'] for p in m.out)); c.count('multi_threaded_runs', any(x.startswith('threads') for x in q.args)); c.count('with_grain', 'grain=1' in q.args)
    errors(c, r, [n for n in names if not mdl.is_lay(n)])
    for j in jobs[:3] + jobs[-3:]: c.sample(' '.join(j[1]))
    c.assumptions = ['every packet carries distinct property values']
def errors(c, r, names):
    """the properties reported with a decoding error are those of the packet whose frame failed"""
    jobs = []; meta = []
    for i in range(c.pick(700, 10000)):
        a, b = r.choice(names), r.choice(names); x = obu.tus(obu.parse(mdl.load(a))); m = av1.Model(); ok = []
        for j, t in enumerate(x):
            for o in t: m.obu(o, j)
            k = [o for o in t if id(o) in m.hdr_of]
            if len(k) == 1 and k[0].type == obu.FRAME: ok.append((j, k[0], m.hdr_of[id(k[0])]))
        if not ok: continue
        j, k, h = r.choice(ok); k2 = obu.Obu(obu.FRAME, k.payload[:(h['bits'] + 7) // 8 + 1], k.ext)      # tile data cut off
        pk = x[:j] + [[k2 if o is k else o for o in x[j]]] + (obu.tus(obu.parse(mdl.load(b))) if r.random() < .5 else [])
        f, P = mdl.case(c, f'e{i}', pk)
        jobs.append(('vdec_rel', [f'file={f}', 'pk=sz:', f'poll={r.choice(["each", "lazy", "cli", "rand"])}', f'data={r.choice(["wrap", "create"])}', f'props={r.choice(["-", "sign", "neg"])}', 'timeout=60', 'ledger=1'] + mdl.thr(r, .8))); meta.append((a, b, j, P, f))
    for q, (a, b, j, P, f) in zip(c.run_jobs(jobs), meta):
        what = f'{a} with the frame of packet {j} damaged'
        if not c.judge(q, what): continue
        if len(q.lines('R')) != 1: c.count('other_damage'); continue
        x = q.lines('X')[0]; want = f'X ts={1000 + 10 * j} dur={7 + j % 5} off={100000 + P[j][0]} sz={P[j][1]} ud=u{j}'
        if x != want: c.violation('error properties', f'{what}: the error was reported with "{x}", the packet has "{want}"', ' '.join(q.args) + '\n' + q.out, [f])
        else: c.count('errors_attributed'); c.seen('error_calls', ' '.join(q.lines('R')[0].split()[1:3])); c.distinct.add(f)
