def check(ctx):
    ctx.model('SigMC')
    ctx.case_check('SignalTrace', ctx.q(8000, 60000))
