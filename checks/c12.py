import os

import vf


def check(ctx):
    ctx.model('RegistryMC')
    drv = ctx.build(instrument=True, name='sdrv')
    tr = os.path.join(ctx.tmp, 't.ndjson')
    ctx.schedule(drv, 'registry', ctx.q(8000, 60000), tr)
    ctx.runs_check('RegistryTrace', tr)
    ctx.sample(*vf.read_ndjson(tr)[5:6])
