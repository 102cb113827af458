from lib.netcheck import nets


def run(ctx):
    nets(ctx, "net", (("plain", ctx.pick(600, 6000)), ("edges", ctx.pick(600, 6000)), ("disks", ctx.pick(250, 2500)),
                      ("flat", ctx.pick(300, 3000)), ("confined", ctx.pick(300, 3000))))
