import streams


def check(ctx):
    streams.check(ctx, topics=[('wild', 5, 6, 4000, 30000)], profiles=[('wild', 5000, 60000)])
