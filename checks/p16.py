from lib.netcheck import nets


def run(ctx):
    nets(ctx, "net", (("contained", ctx.pick(900, 9000)), ("flat", ctx.pick(500, 5000)), ("disks", ctx.pick(250, 2500))))
