def run(ctx):
    b = ctx.build_start("p12.cc")
    lo = ctx.seed * 100000
    hs = []
    for mode, n, v in (("plain", ctx.pick(500, 5000), 4), ("box", ctx.pick(500, 6000), 2), ("cyl", ctx.pick(300, 4000), 2), ("sphere", ctx.pick(60, 600), 2)):
        hs.append((mode, ctx.tlc_start("Sizes", consts={"Lo": lo, "Hi": lo + n, "Mode": '"%s"' % mode}, tag=mode, workers=2,
                   invariants=["Meta", "Emit"]), v))
    exe = ctx.build_wait(b)
    for name, h, v in hs:
        ctx.replay(exe, ctx.tlc_wait(h)[0], name, args=[str(v)])
