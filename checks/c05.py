import streams


def check(ctx):
    streams.check(ctx, profiles=[('seg', 1800, 18000), ('', 300, 3000)])
