import streams


def check(ctx):
    streams.check(ctx, topics=[('blocks', 5, 6, 4000, 30000)], profiles=[('block', 1500, 15000), ('', 400, 4000)])
