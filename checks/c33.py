def check(ctx):
    ctx.model('SigMC')
    ctx.case_check('SignalTrace', ctx.q(12000, 80000))
