from lib.core import *
from lib import mdl, obu, hostile
def check(c):
    c.build('vdec_rel'); r = c.rng; g = gold()
    c.rule = 'one decoder fed the same sequence of streams (valid and damaged, with flushes, drains, fetches left out) many times over, with the live memory, picture buffers, input data, user data and threads counted after every round; distinct by bytes, calls and settings'
    names = sorted(n for n in g if g[n]['size'] < c.pick(6000, 30000)); lay = [n for n in names if mdl.is_lay(n)]; jobs = []; meta = []
    mut = hostile.mutants(c, names, c.pick(250, 4000), stack=True)
    for i in range(c.pick(600, 12000)):
        al = r.choice([0, 1]); ds = []; lim = r.choice([0, 0, 0, 20000]); dec = r.choice([0, 0, 0, 1, 2, 3])
        for _ in range(r.choice([1, 1, 2])):
            k = r.random(); ds.append((mdl.load(r.choice(lay if k < .1 else names)), 1) if k < .6 else (open(r.choice(mut)[0], 'rb').read(), 0))
        pk = []; play = ''; whole = 1
        for d, ok in ds:
            try:
                os_ = obu.parse(d)
                # (ITU-T T.35 payloads wait for the next frame that is started; where none may come they pile up: see the end)
                if not ok or lim or dec: os_ = [o for o in os_ if o.type != 5]
                p = [obu.join(x) for x in mdl.group(r, os_, r.choice(['tu', 'tu', 'obu', 'rnd', 'all'] if al else ['tu', 'all']))]
            except (ValueError, IndexError): continue
            p = [x for x in p if x]; whole &= ok and len(p) <= 40; p = p[:40]
            if not p: continue
            play += f'{len(pk)}-{len(pk) + len(p) - 1},' + r.choice(['', '', 'F,', 'D,', 'F,F,', 'G,', 'D,F,', 'V,']); pk += p
        if not pk: continue
        th = r.choice([1, 1, 1, 2, 3, 4, 8]); R = 24 if th > 1 else 10
        f = f'{c.tmp}/{i}.sz'; open(f, 'wb').write(obu.packets(pk))
        a = [f'file={f}', 'pk=sz:', f'threads={th}', f'delay={r.choice([0, 0, 1, 2, 8])}', f'all={al}', f'op={r.choice([0, 0, r.randrange(4)])}', f'grain={r.choice([0, 1])}', f'invis={r.choice([0, 0, 1]) if al else 0}', f'strict={r.choice([0, 0, 1])}', f'poll={r.choice(["each", "cli", "lazy", "rand"]) if al else "each"}', 'ledger=1', 'log=0', 'quiet=1', f'data={r.choice(["wrap", "create"])}', f'limit={lim}', f'dec={dec}', f'seed={i}', 'timeout=60'] + ([f'alloc={r.choice(["pad", "neg"])}'] if r.random() < .5 else [])
        if r.random() < .2: a.append('fgapply=1')
        jobs.append(('vdec_rel', a + ['play=' + (play + 'D,M,') * R])); meta.append((play, th, R, f, whole and 'limit=0' in a and 'dec=0' in a, len(pk), 'poll=rand' in a))
    for q, (play, th, R, f, whole, np, rnd) in zip(c.run_jobs(jobs), meta):
        what = f'play={play}D repeated, {th} threads'
        if not c.judge(q, 'long use'): continue
        M = [{k: int(v) for k, v in fields(l).items()} for l in q.lines('M')]; bad = lambda k, m: c.violation(k, f'{what}: {m}', ' '.join(q.args) + '\n' + q.out, [f])
        if len(M) != R: bad('rounds', f'{len(M)} of {R} rounds'); continue
        h = R // 2; b, e = M[h], M[-1]
        if any(m['threads'] != (th if th > 1 else 0) for m in M): bad('threads', f'{M[0]["threads"]} threads are running, {th} were asked for'); continue
        if any(m['data'] > (0 if whole else np) for m in M): bad('input kept', f'{max(m["data"] for m in M)} packets of input are still held after the decoder was drained'); continue      # (that of an incomplete or skipped frame may be, until the next frame header)
        if any(m['pics'] > 8 for m in M): bad('pictures kept', f'{max(m["pics"] for m in M)} picture buffers are held after everything was returned and released'); continue
        if any(m['ud'] > 10 + (0 if whole else np) for m in M): bad('user data kept', f'{max(m["ud"] for m in M)} user data references are held after everything was returned and released'); continue
        if th == 1 and not rnd:
            s = {(m['blocks'], m['bytes'], m['peak']) for m in M[3:]}
            if len(s) != 1: bad('growth', f'the memory held differs from round to round: {sorted(s)[:6]}'); continue
        else:       # pools fill up depending on timing; growth that goes on does not come from that
            # so: a leak adds blocks in (nearly) every round to the end; a pool stops growing once the worst moment was seen
            for k in ('blocks', 'bytes'):
                up = sum(y[k] > x[k] for x, y in zip(M[h:], M[h + 1:]))
                if up >= (R - h) * 3 // 4 and e[k] > b[k]: bad('growth', f'{k} keeps growing: {[m[k] for m in M][::4]}'); break
            else: up = 0
            if up: continue
        c.distinct.add((f, th)); c.count('rounds', R); c.seen('live_blocks', e['blocks'])
    # recorded finding: T.35 payloads that no frame follows are kept without limit
    t35 = obu.Obu(5, bytes([4, 0xb5]) + bytes(range(1, 60)) + b'\x80').write(); f = f'{c.tmp}/t35.sz'; td = obu.Obu(2, b'').write()
    open(f, 'wb').write(obu.packets([td + t35] * 8))
    q = c.run_jobs([('vdec_rel', [f'file={f}', 'pk=sz:', 'ledger=1', 'log=0', 'quiet=1', 'timeout=60', 'play=' + '0-7,D,M,' * 12])])[0]
    if c.judge(q, 'T.35 payloads only'):
        b = [int(fields(l)['blocks']) for l in q.lines('M')]
        if all(y > x for x, y in zip(b[4:], b[5:])): c.violation('growth pending T.35 payloads', f'temporal units of T.35 metadata that no frame follows: blocks keeps growing: {b}', q.out, [f])
    for j in jobs[:3]: c.sample(' '.join(j[1])[:400])
