def check(ctx):
    ctx.model('ComputedMC')
    ctx.case_check('ComputedTrace', ctx.q(5000, 60000))
