def check(ctx):
    ctx.model('TicksMC')
    ctx.case_check('TicksTrace', ctx.q(20000, 200000))
