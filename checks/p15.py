from lib.netcheck import nets


def run(ctx):
    nets(ctx, "net", (("confined", ctx.pick(900, 9000)), ("flat", ctx.pick(700, 7000)), ("disks", ctx.pick(250, 2500))))
