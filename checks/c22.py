def check(ctx):
    ctx.model('GuidMC')
    ctx.case_check('GuidTrace', ctx.q(30000, 200000))
