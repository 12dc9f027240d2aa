import streams


def check(ctx):
    streams.check(ctx, topics=[('keys', 4, 6, 1728, 30000)], profiles=[('enc', 1500, 15000)])
