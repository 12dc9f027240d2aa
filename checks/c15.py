def check(ctx):
    ctx.model('ExprMC', ctx.q('ExprMC', 'ExprMC6'))
    ctx.case_check('ExprTrace', ctx.q(6000, 60000))
