import os, vf

def check(ctx):
    ctx.model('StartupMC', ctx.q('StartupMC', 'StartupMC2'))
    drv = ctx.build(instrument=True, name='sdrv')
    tr = os.path.join(ctx.tmp, 't.ndjson')
    ctx.schedule(drv, 'startup', ctx.q(5000, 40000), tr)
    ctx.runs_check('StartupTrace', tr)
    ctx.sample(*vf.read_ndjson(tr)[5:6])
