from lib.core import *
from lib import mdl, obu, av1, oracle, reframe, hostile
def check(c):
    c.build('vdec_rel'); r = c.rng
    c.rule = 'one decode of a sequence of corpus streams (repeated, changed, or with only the operating parameters changed), with the event flags read after every returned picture and compared with an independent model; non-trivial: at least two events predicted; distinct by stream bytes and settings'
    g = gold(); names = sorted(n for n in g if g[n]['size'] < c.pick(6000, 60000)); jobs = []; meta = []
    timed = [n for n in names if any(av1.sequence(o.payload)['opi_bits'] for o in obu.parse(mdl.load(n))[:3] if o.type == obu.SEQ)]
    lay = [n for n in names if mdl.is_lay(n)]; ids = [n for n in names if not mdl.is_lay(n)]
    for i in range(c.pick(3000, 60000)):
        ly = r.random() < .3 and lay; pool = lay if ly else ids
        ns = [r.choice(pool if r.random() < .7 else timed)]
        for _ in range(r.choice([0, 1, 1, 2, 3])): ns.append(r.choice(ns) if r.random() < .4 else r.choice(pool if r.random() < .7 else timed))
        parts = [obu.parse(mdl.load(n)) for n in ns]; os_ = []
        for p in parts:
            if r.random() < .35: p = [edit(r, o, c) if o.type == obu.SEQ else o for o in p]
            os_ += p
        if r.random() < .3:                                                    # repeated sequence headers
            s = None; out = []
            for o in os_:
                if o.type == obu.SEQ: s = o
                out.append(o)
                if s and o.type == obu.TD and r.random() < .4: out.append(s)
            os_ = out
        op, al, iv = mdl.lay_args(r, bool(ly), True); 
        f, P = mdl.case(c, str(i), mdl.group(r, os_, r.choice(['tu', 'tu', 'tus'] if not al else ['tu', 'obu', 'rnd', 'all'])))
        a = [f'file={f}', 'pk=sz:', f'grain={r.choice([0, 1])}', f'poll={r.choice(["each", "lazy", "cli", "rand"])}' if al else 'poll=each', 'timeout=60'] + mdl.model_args(op, al, iv) + mdl.thr(r, .6)
        jobs.append(('vdec_rel', a)); meta.append((ns, P, op, al, iv, f))
    for q, (ns, P, op, al, iv, f) in zip(c.run_jobs(jobs), meta):
        if q.rc == 0 and q.lines('R'):
            c.count('runs_with_error_returns'); continue
        try: m = mdl.judge(c, q, P, op, al, iv, 'count event', '+'.join(ns), [f])
        except av1.Bad: c.count('outside_the_model'); continue
        if m:
            e = sum(bool(p['ev']) for p in m.outputs()); c.count('pictures_with_events', e); c.count('pictures_with_op_params_event', sum(p['ev'] >> 1 & 1 for p in m.outputs())); c.count('sequence_headers', sum(o.type == obu.SEQ for p in P for o in p[2]))
            if e >= 2: c.distinct.add(f)
    errors(c, r, ids); damaged(c, r, ids)
    for j in jobs[:3] + jobs[-3:]: c.sample(' '.join(j[1]))
def edit(r, o, c):
    """the same sequence header with another value of a field that does not change how frames are coded"""
    try: s = av1.sequence(o.payload); pos = r.choice([s['opi_bits'], s['opi_bits'], s['free_bits']])
    except Exception: return o
    if not pos: return o
    b = bytearray(o.payload); a, n = r.choice(pos); k = a + r.randrange(n); b[k >> 3] ^= 128 >> (k & 7)
    return obu.Obu(obu.SEQ, bytes(b), o.ext)
def errors(c, r, names):
    """the event of a sequence is not lost when its first frame fails to decode, nor reported twice"""
    jobs = []; meta = []
    for i in range(c.pick(300, 6000)):
        a, b = r.choice(names), r.choice(names); x = obu.tus(obu.parse(mdl.load(a))); y = obu.tus(obu.parse(mdl.load(b)))
        if obu.join([o for o in x[0] if o.type == obu.SEQ]) == obu.join([o for o in y[0] if o.type == obu.SEQ]): continue
        m = av1.Model()
        for o in sum(y, []): m.obu(o, 0)
        k = next((o for o in y[0] if o.type == obu.FRAME), None)
        if k is None or sum(id(o) in m.hdr_of for o in y[0]) != 1 or not m.hdr_of[id(k)]['show']: continue
        h = m.hdr_of[id(k)]; k2 = obu.Obu(obu.FRAME, k.payload[:(h['bits'] + 7) // 8 + 1], k.ext)               # tile data cut off: the frame cannot decode
        y2 = [k2 if o is k else o for o in y[0]]
        f, P = mdl.case(c, f'e{i}', x + [y2] + y)
        _, Q = mdl.case(c, 'ref', x + [y[0]] + y)
        jobs.append(('vdec_rel', [f'file={f}', 'pk=sz:', 'poll=each', 'timeout=60'] + mdl.thr(r, .7))); meta.append((a, b, len(x), f, [(p['pkt'], p['ev']) for p in oracle.model_run(Q).outputs()]))
    for q, (a, b, n, f, want) in zip(c.run_jobs(jobs), meta):
        if not c.judge(q, f'{a}, {b} with its first frame damaged, {b}'): continue
        if len(q.lines('R')) != 1: c.count('other_damage'); continue
        got = [(int(fields(l)['ts']) // 10 - 100, int(fields(l)['ev'])) for l in q.lines('P')]
        want = [(k, e) for k, e in want if k != n]; i = next((i for i, (k, e) in enumerate(want) if k > n), None)
        if i is None: continue
        want[i] = (want[i][0], want[i][1] | 1)
        if got != want: c.violation('event around an error', f'{a}, {b} with its first frame damaged, {b} again: (packet, event) {got}, should be {want}', q.out, [f])
        else: c.count('failed_first_frames'); c.distinct.add(f)
def damaged(c, r, names):
    """whichever frame fails, hidden or shown: every event is reported once, with the first picture returned from where it belongs"""
    jobs = []; meta = []
    for i in range(c.pick(900, 20000)):
        x = sum([obu.parse(mdl.load(r.choice(names))) for _ in range(r.choice([1, 1, 2, 3]))], []); m = av1.Model()
        for o in x: m.obu(o, 0)
        fr = [o for o in x if o.type == obu.FRAME and id(o) in m.hdr_of]; hid = [o for o in fr if not m.hdr_of[id(o)]['show']]
        if not fr: continue
        bad = {id(o) for o in [r.choice(hid if hid and r.random() < .6 else fr) for _ in range(r.choice([1, 1, 2, 3]))]}
        cut = lambda o: obu.Obu(obu.FRAME, o.payload[:(m.hdr_of[id(o)]['bits'] + 7) // 8 + 1], o.ext) if id(o) in bad else o     # tile data cut off
        g = mdl.group(r, x, r.choice(['tu', 'tu', 'obu'])); f, P = mdl.case(c, f'd{i}', [[cut(o) for o in p] for p in g]); _, Q = mdl.case(c, 'ref', g)
        want = oracle.model_run(Q).outputs()
        if any('again' in p and p['ev'] for p in want): c.count('shown_again_with_event'); continue
        jobs.append(('vdec_rel', [f'file={f}', 'pk=sz:', f'poll={r.choice(["each", "lazy", "cli"])}', f'grain={r.choice([0, 1])}', 'timeout=60'] + mdl.thr(r, .4))); meta.append((f, len(bad), [(p['pkt'], p['ev'], 'again' in p) for p in want]))
    for q, (f, nb, want) in zip(c.run_jobs(jobs), meta):
        what = f'{nb} frames damaged ({" ".join(q.args[1:])})'
        if not c.judge(q, what): continue
        if not q.lines('R'): c.count('undamaged'); continue
        got = [((int(fields(l)['ts']) - 1000) // 10, int(fields(l)['ev'])) for l in q.lines('P')]; k = 0; exp = []; ok = True
        for p, e in got:
            acc = 0; hit = False
            while k < len(want) and want[k][0] < p: acc |= want[k][1]; k += 1
            if k < len(want) and want[k][0] == p: acc |= want[k][1]; hit = True; acc = e if want[k][2] else acc; k += 1     # another frame than intended may be shown again
            if not hit: ok = False; break
            exp.append((p, acc))
        if not ok: c.count('pictures_out_of_order'); continue
        if len({p for p, *_ in want}) < len(want): c.count('several_pictures_per_packet'); continue
        if got != exp: j = next(j for j, (a, b) in enumerate(zip(got, exp)) if a != b); c.violation('event after damage', f'{what}: picture {j} (packet {got[j][0]}) reports events {got[j][1]}, should be {exp[j][1]}', ' '.join(q.args) + '\n' + q.out + f'\nexpected {exp}', [f])
        else: c.count('damaged_runs'); c.count('damaged_run_events', sum(e > 0 for _, e in got)); c.distinct.add(f)
