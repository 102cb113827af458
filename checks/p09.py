def run(ctx):
    b = ctx.build_start("p09.cc")
    lo = ctx.seed * 100000
    hs = []
    for mode, n, v in (("dirs", ctx.pick(1000, 8000), 3), ("cyl", ctx.pick(1500, 12000), 3)):
        hs.append((mode, ctx.tlc_start("Angles", consts={"Lo": lo, "Hi": lo + n, "Mode": '"%s"' % mode}, tag=mode, workers=3,
                   invariants=["Meta", "Emit"]), v))
    exe = ctx.build_wait(b)
    for name, h, v in hs:
        ctx.replay(exe, ctx.tlc_wait(h)[0], name, args=[str(v)])
