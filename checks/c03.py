import streams


def check(ctx):
    streams.check(ctx, topics=[('caches', 4, 5, 2500, 20000)], profiles=[('cache', 1200, 12000), ('', 500, 5000)])
