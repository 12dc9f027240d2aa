def check(ctx):
    plan, n = ctx.plans('SelectMC', ctx.q('SelectMC', 'SelectMC4'), limit=ctx.q(2500, 20000))
    drv = ctx.build()
    ctx.case_check('SelectTrace', n, drv=drv, args=['-in', plan])
    ctx.case_check('SelectTrace', ctx.q(3000, 30000), drv=drv)
