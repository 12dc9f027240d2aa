import os, vf

def check(ctx):
    ctx.model('CallbacksMC')
    drv = ctx.build(instrument=True, name='sdrv')
    tr = os.path.join(ctx.tmp, 't.ndjson')
    ctx.schedule(drv, 'callbacks', ctx.q(6000, 50000), tr)
    ctx.runs_check('CallbacksTrace', tr)
    ctx.sample(*vf.read_ndjson(tr)[5:6])
