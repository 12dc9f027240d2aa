def check(ctx):
    plan, n = ctx.plans('XmlMC', limit=ctx.q(2500, 30000))
    drv = ctx.build()
    ctx.case_check('XmlTrace', n, drv=drv, args=['-in', plan])
    ctx.case_check('XmlTrace', ctx.q(3000, 30000), drv=drv)
