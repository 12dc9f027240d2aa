import os, vf

def check(ctx):
    ctx.model('StartsMC')
    drv = ctx.build(instrument=True, name='sdrv')
    tr = os.path.join(ctx.tmp, 't.ndjson')
    ctx.schedule(drv, 'starts', ctx.q(3000, 30000), tr)
    ctx.runs_check('StartsTrace', tr)
    ctx.sample(*vf.read_ndjson(tr)[5:6])
