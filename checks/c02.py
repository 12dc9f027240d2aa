import streams


def check(ctx):
    ctx.model('TsscMC')
    ctx.model('TsscMC', 'TsscMC2')
    streams.check(ctx, topics=[('tssc', 4, 5, 2000, 12000)], profiles=[('tssc', 700, 6000), ('roll', 60, 800)])
