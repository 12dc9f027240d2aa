import os, vf

def check(ctx):
    ctx.model('HashSet')
    drv = ctx.build()
    tr = os.path.join(ctx.tmp, 't.ndjson')
    ctx.run([drv, '-prop', 'C14', '-seed', str(ctx.seed), '-n', str(ctx.q(1500, 20000)), '-out', tr], what='driver')
    bad = ctx.cases('HashSetTrace', tr)
    cases = vf.read_ndjson(tr)
    ctx.sample(dict(kind=cases[-1]['kind'], steps=cases[-1]['steps'][:4]))
    ctx.extra['operations'] = sum(len(c['steps']) for c in cases)
    for i in sorted(bad):
        ctx.violate(dict(property='C14', case=cases[i - 1], explanation=bad[i]), 'case %d: %s' % (i, bad[i]))
