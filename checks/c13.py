import os

import vf


def check(ctx):
    ctx.model('ReaderMC')
    drv = ctx.build(instrument=True, name='sdrv')
    tr = os.path.join(ctx.tmp, 't.ndjson')
    ctx.schedule(drv, 'reader', ctx.q(8000, 60000), tr)
    ctx.runs_check('ReaderTrace', tr)
    tr2 = os.path.join(ctx.tmp, 'bulk.ndjson')
    ctx.schedule(drv, 'reader', ctx.q(4, 16), tr2, profile='bulk')
    ctx.runs_check('ReaderTrace', tr2)
    ctx.sample(*vf.read_ndjson(tr)[5:6])
