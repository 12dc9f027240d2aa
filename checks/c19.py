def check(ctx):
    ctx.model('DataSetMC')
    ctx.case_check('DataSetTrace', ctx.q(8000, 80000))
