import os, vf

def check(ctx):
    ctx.model('SessionMC', ctx.q('SessionMC3', 'SessionMC'))
    drv = ctx.build(instrument=True, name='sdrv')
    tr = os.path.join(ctx.tmp, 't.ndjson')
    ctx.schedule(drv, 'life', ctx.q(6000, 60000), tr)
    ctx.runs_check('SessionTrace', tr)
    ctx.sample(*vf.read_ndjson(tr)[5:6])
