import os, vf

def check(ctx):
    ctx.model('RetryMC', ctx.q('RetryMC', 'RetryMC2'))
    drv = ctx.build(instrument=True, name='sdrv')
    tr = os.path.join(ctx.tmp, 'retry.ndjson')
    ctx.schedule(drv, 'retry', ctx.q(3000, 30000), tr)
    ctx.runs_check('RetryTrace', tr)
    ctx.sample(*vf.read_ndjson(tr)[3:4])
    tr = os.path.join(ctx.tmp, 'life.ndjson')
    ctx.schedule(drv, 'life', ctx.q(3000, 30000), tr)
    ctx.runs_check('SessionTrace', tr)
    tr = os.path.join(ctx.tmp, 'startup.ndjson')
    ctx.schedule(drv, 'startup', ctx.q(1500, 10000), tr)
    ctx.runs_check('StartupTrace', tr)
