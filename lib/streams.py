"""Checks of the data protocol: exhaustive histories from the specification and random publishers,
replayed into the implementation; the recorded runs are judged by StreamTrace."""
import os, vf


def check(ctx, topics=(), profiles=()):
    """topics: (topic, quick depth, thorough depth, quick limit, thorough limit);
    profiles: (profile, quick runs, thorough runs)."""
    drv = ctx.build(instrument=True, name='sdrv')
    k = 0
    for topic, d, dt, lim, limt in topics:
        ctx.model('StreamMC', env=dict(TOPIC=topic, DEPTH='3', EAGER='0'))
        plan, n = ctx.plans('StreamMC', env=dict(TOPIC=topic, DEPTH=str(ctx.q(d, dt)), EAGER='1'), limit=ctx.q(lim, limt))
        tr = os.path.join(ctx.tmp, 'p%d.ndjson' % k)
        ctx.schedule(drv, 'stream', n, tr, plan=plan)
        ctx.runs_check('StreamTrace', tr)
        if k == 0:
            ctx.sample(*vf.read_ndjson(tr)[3:4])
        k += 1
    for prof, n, nt in profiles:
        tr = os.path.join(ctx.tmp, 'r%d.ndjson' % k)
        ctx.schedule(drv, 'stream', ctx.q(n, nt), tr, profile=prof)
        ctx.runs_check('StreamTrace', tr)
        ctx.sample(*vf.read_ndjson(tr)[5:6])
        k += 1
