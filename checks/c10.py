import os, vf

def check(ctx):
    ctx.model('Thread')
    drv = ctx.build(instrument=True, name='sdrv')
    tr = os.path.join(ctx.tmp, 't.ndjson')
    ctx.schedule(drv, 'thread', ctx.q(3000, 30000), tr)
    ctx.runs_check('ThreadTrace', tr)
    ctx.sample(*vf.read_ndjson(tr)[5:6])
