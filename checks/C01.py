from lib.core import *
from lib import hostile
def settings(r):
    o = []
    p = lambda s, pr: o.append(s() if callable(s) else s) if r.random() < pr else None
    p(lambda: f'threads={r.choice([2, 3, 4, 8])}', .3); p(lambda: f'delay={r.choice([0, 1, 2, 5])}', .3); p(lambda: f'pk={r.choice(["all", "obu", "rnd:%d" % r.randrange(99)])}', .4)
    p('grain=0', .2); p(lambda: f'op={r.randrange(32)}', .1); p('all=0', .2); p('strict=1', .2); p('invis=1', .15); p(lambda: f'iflags={r.randrange(8)}', .15); p(lambda: f'dec={r.randrange(4)}', .15)
    p(lambda: f'cpu={r.choice([0, 0, 1, 3, 7, 15])}', .5); p(lambda: f'poll={r.choice(["each", "lazy", "rand"])}', .4); p(lambda: f'alloc={r.choice(["guard", "neg", "pad", "negpad", "over"])}', .3)
    p(lambda: f'hold={r.choice([2, 8, 1000])}', .15); p('guard=1', .2); p('limit=20000', .05); p('fgapply=1', .1); p('data=create', .1); p('log=0', .1); p('empties=25', .1)
    p(lambda: 'play=' + r.choice(['0-$,D,0-$,D', '0-1,F,0-$,D', '0-2,D,C,0-$,D', '0-$', '0-1,V,G,F,F,1-$,D', '1-$,D', '0-$,H,F,0-3,D']), .25)
    return o
def check(c):
    c.build('vdec_asan')
    c.rule = 'one decode under AddressSanitizer and UndefinedBehaviorSanitizer with assertions on; inputs: corpus mutants, generated streams with random entropy-coded data, valid streams; non-trivial: the run returned a picture or an error; distinct by the (return codes, pictures) trace'
    names = [n for n in sorted(gold()) if n.split('/')[0] in ('base', 'lay')]
    inputs = [(stream(n), n) for n in names[:c.pick(160, 1400)]]
    inputs += [(f, d) for f, d in hostile.mutants(c, names, c.pick(1500, 30000))] + [(f, d) for f, d in hostile.generate(c, c.pick(350, 6000))]
    # legal syntax with illegal values in single header fields; broken tile groups
    ill = hostile.generate(c, c.pick(200, 4000), 'b', bad=60) + hostile.generate(c, c.pick(120, 2500), 'bf', bad=120, fg=90) + hostile.generate(c, c.pick(120, 2500), 'bt', bad=150, tiles=100, tg=90, w=200, h=150)
    tg = [(f, d) for f, d in hostile.generate(c, c.pick(40, 400), 'tg', tiles=100, tg=90, w=200, h=150)]
    for i in range(c.pick(200, 4000)):
        f, d = c.rng.choice(tg); x = hostile.mutate(c.rng, open(f, 'rb').read(), 'tilegrp'); f = f'{c.tmp}/tgm{i}.obu'; open(f, 'wb').write(x); ill.append((f, f'{d} tilegrp'))
    inputs += ill
    inputs += [(stream(n), n) for n in streams('wide')[:c.pick(1, 9)] + streams('tall')[:c.pick(1, 9)] + streams('mt')[:c.pick(4, 99)]]
    pk = {f for f, _ in ill}
    jobs = [('vdec_asan', [f'file={f}', *(['pk=obu'] if f in pk and c.rng.random() < .5 else []), 'timeout=120', f'seed={c.rng.randrange(1 << 20)}', *settings(c.rng)]) for f, _ in inputs]
    for r, (f, d) in zip(c.run_jobs(jobs), inputs):
        if not c.judge(r, f'input {d if isinstance(d, str) else "generated"}'): continue
        t = r.lines('PRX')
        if t: c.distinct.add(hash('\n'.join(t)))
        c.count('pictures', len(r.lines('P'))); c.count('error_returns', len(r.lines('R'))); c.seen('return_codes', ' '.join(sorted({l.split()[2] for l in r.lines('R')})))
    for f, d in inputs[-4:] + inputs[:2]: c.sample(d)
    c.assumptions = ['SIMD assembly is not instrumented; its memory behaviour is watched by guard pages around pictures and input']
