from lib.netcheck import nets


def run(ctx):
    nets(ctx, "files", (("plain", ctx.pick(400, 4000)), ("contained", ctx.pick(500, 5000)), ("confined", ctx.pick(400, 4000)),
                        ("flat", ctx.pick(300, 3000)), ("disks", ctx.pick(150, 1500))))
