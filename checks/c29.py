def check(ctx):
    ctx.model('BigMC')
    ctx.model('FormatMC')
    ctx.case_check('FormatTrace', ctx.q(20000, 150000))
