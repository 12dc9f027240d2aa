import os

import vf


def check(ctx):
    ctx.model('RequestMC')
    drv = ctx.build(instrument=True, name='sdrv')
    tr = os.path.join(ctx.tmp, 't.ndjson')
    ctx.schedule(drv, 'request', ctx.q(3000, 30000), tr)
    ctx.runs_check('RequestTrace', tr)
    ctx.sample(*vf.read_ndjson(tr)[5:6])
