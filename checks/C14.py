from lib.core import *
from lib import mdl, obu, av1, oracle, reframe
def check(c):
    c.build('vdec_rel', 'vdec_asan'); r = c.rng
    c.rule = 'one rewritten form of a corpus stream (other packet boundaries, frames as header plus tile groups, redundant headers, padding / reserved / unknown-metadata OBUs, other size fields) whose pictures were compared with the reference decoding of the original; non-trivial: at least one picture compared; distinct by rewritten bytes and packet boundaries'
    g = gold(); names = sorted(n for n in g if g[n]['size'] < c.pick(60000, 1 << 30)); jobs = []; meta = []
    for n in names:
        k = c.pick(2, 8)
        for i in range(k):
            for key, want in sorted(g[n]['ref'].items()) if mdl.is_lay(n) else [next((x for x in g[n]['ref'].items() if x[0][-1] == '1'), next(iter(g[n]['ref'].items())))]:
                op, al, gr = map(int, key.split(',')); os_ = obu.parse(mdl.load(n))
                # header positions come from a model that sees every layer
                mm = av1.Model(op=op, all_layers=1)
                for o in os_: mm.obu(o, 0)
                restyle = r.random() < .75 and not (mm.idc and any(o.ext is not None and not (mm.idc >> o.tid & 1 and mm.idc >> (o.sid + 8) & 1) for o in os_))
                style = r.choice([None, None, 'each', 'frame', 'hdr1'])
                ob = reframe.rewrite(r, os_, mm.hdr_of, restyle, r.random() < .6, style)
                c.count('rewritten_frames', sum(o.type in (obu.FRAME, obu.FRAME_HDR) for o in ob)); c.count('tile_group_obus', sum(o.type == obu.TILE_GRP for o in ob)); c.count('inserted_obus', sum(o.type in (9, 10, 11, 12, 13, 14, 15) for o in ob))
                pk = mdl.group(r, ob, r.choice(['tu', 'tus', 'all'] if not al else ['tu', 'obu', 'rnd', 'rnd', 'all', 'tus']))
                w = reframe.write_random(r) if r.random() < .6 else obu.join
                f, P = mdl.case(c, f'{len(jobs)}', pk, w)
                a = [f'file={f}', 'pk=sz:', f'op={op}', f'all={al}', f'grain={gr}', f'poll={r.choice(["each", "lazy", "cli", "rand"])}' if al else 'poll=each', f'strict={r.choice([0, 0, 1])}', 'timeout=60'] + mdl.thr(r, .35)
                if r.random() < .2: a.append('data=create')
                jobs.append(('vdec_asan' if r.random() < .12 and g[n]['size'] < 6000 else 'vdec_rel', a)); meta.append((n, key, want, f, style if restyle else 'as is'))
    for q, (n, key, want, f, style) in zip(c.run_jobs(jobs), meta):
        what = f'rewritten {n} op,all,grain={key} ({style})'
        if not c.judge(q, what): continue
        if q.lines('R'): c.violation(f'rejected {n}', f'{what}: rejected: {q.lines("R")[0]}', ' '.join(q.args) + '\n' + q.out, [f]); continue
        got = [pkey(l) for l in q.lines('P')]
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            c.violation(f'pictures {n}', f'{what}: {len(got)} of {len(want)} pictures, picture {i} is {got[i] if i < len(got) else "missing"}, the original stream gives {want[i] if i < len(want) else "none"}', ' '.join(q.args) + '\n' + q.out, [f]); continue
        if want: c.distinct.add((n, f)); c.count('pictures_compared', len(want)); c.seen('styles', style)
    for j in jobs[:2] + jobs[-2:]: c.sample(' '.join(j[1]))
    c.assumptions = ['rewriting uses an independent reader of the AV1 syntax; the reference pictures are those of the corpus (libaom)']
