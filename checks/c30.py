import os, vf


def check(ctx):
    ctx.model('UdpMC', env=dict(DEPTH=ctx.q('3', '4'), EAGER='0'))
    drv = ctx.build(instrument=True, name='sdrv')
    plan, n = ctx.plans('UdpMC', env=dict(DEPTH=ctx.q('5', '6'), EAGER='1'), limit=ctx.q(3000, 40000))
    for k, (n, plan) in enumerate([(n, plan), (ctx.q(2500, 25000), None)]):
        tr = os.path.join(ctx.tmp, 'u%d.ndjson' % k)
        ctx.schedule(drv, 'udp', n, tr, plan=plan)
        ctx.runs_check('UdpTrace', tr)
        ctx.sample(*vf.read_ndjson(tr)[5:6])
