from lib.core import *
from lib import mdl, hostile, obu
def check(c):
    c.build('vdec_rel'); r = c.rng
    c.rule = 'one decode whose pictures were compared, field by field, with the sequence header, frame header, size and format that an independent reader of the AV1 syntax derives from the same bytes; non-trivial: at least one picture compared; distinct by stream'
    jobs = []; meta = []
    def add(f, pk, P, op, al, iv, what, clean):
        jobs.append(('vdec_rel', [f'file={f}', f'pk={pk}', 'hdr=1'] + mdl.model_args(op, al, iv) + mdl.thr(r, .4) + [f'grain={r.choice([0, 0, 1])}', f'poll={r.choice(["each", "each", "lazy"])}' if al else 'poll=each'])); meta.append((P, op, al, iv, what, f, clean))
    from lib import oracle
    for n in sorted(gold()):
        lay = mdl.is_lay(n)
        for _ in range(c.pick(4 if lay else 1, 12 if lay else 4)):
            pk = r.choice(['tu', 'tu', 'obu', 'all']); op, al, iv = mdl.lay_args(r, lay, pk == 'tu')
            add(stream(n), pk, oracle.packets_of(mdl.load(n), pk), op, al, iv, f'{n}', True)
    for f, cf in hostile.generate(c, c.pick(500, 12000)):
        d = open(f, 'rb').read(); op, al, iv = mdl.lay_args(r, False, True); add(f, 'tu', oracle.packets_of(d, 'tu'), 0, al, iv, f'generated {cf}', False)
    for f, d in hostile.mutants(c, sorted(k for k in gold() if small(k, 12000)), c.pick(1500, 40000), kinds=['hdrflip', 'hdrflip', 'hdrflip', 'tilerand', 'seqmix', 'dupobu'], stack=False):
        try: P = oracle.packets_of(open(f, 'rb').read(), 'tu')
        except (ValueError, IndexError): continue
        add(f, 'tu', P, 0, 1, r.choice([0, 0, 1]), f'mutant {d}', False)
    for q, (P, op, al, iv, what, f, clean) in zip(c.run_jobs(jobs), meta):
        m = mdl.judge(c, q, P, op, al, iv, 'size hdr count', what, [f], clean)
        if m:
            c.count(what.split()[0].split('/')[0] + '_streams')
            if m.out: c.distinct.add(f)
            for p in m.frames:
                h = p['h']; c.count('frames_modelled')
                for k in ('ft', 'prf', 'tx', 'sub'): c.seen(f'seen_{k}', h[k])
                c.seen('tile_counts', h['ntiles']); c.seen('warp_types', tuple(t for t, _ in h['gm']))
    for j in jobs[:3] + jobs[-3:]: c.sample(' '.join(j[1]))
    c.assumptions = ['fields of disabled tools (undefined in the specification) are not compared', 'mutated streams count only where no call reported an error']
