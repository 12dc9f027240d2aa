import streams


def check(ctx):
    streams.check(ctx, topics=[('msgs', 4, 5, 4000, 40000)], profiles=[('msgs', 2500, 20000), ('', 500, 5000)])
