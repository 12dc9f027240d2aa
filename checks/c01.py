import streams


def check(ctx):
    streams.check(ctx, topics=[('data', 4, 5, 4000, 30000)], profiles=[('data', 1500, 15000), ('', 600, 6000)])
