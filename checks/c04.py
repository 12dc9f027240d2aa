import os, vf

def check(ctx):
    ctx.model('FramesMC')
    drv = ctx.build(instrument=True, name='sdrv')
    tr = os.path.join(ctx.tmp, 't.ndjson')
    ctx.schedule(drv, 'cmds', ctx.q(1500, 12000), tr)
    ctx.runs_check('FramesTrace', tr)
    ctx.sample(*vf.read_ndjson(tr)[5:6])
