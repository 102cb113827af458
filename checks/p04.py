def run(ctx):
    b = ctx.build_start("p04.cc")
    lo = ctx.seed * 100000
    hs = []
    for mode, n, v in (("line", ctx.pick(240, 4000), 2), ("space", ctx.pick(60, 1200), 2), ("par", ctx.pick(60, 1200), 2),
                       ("cyl", ctx.pick(120, 2000), 2), ("flat", ctx.pick(70, 1200), 2)):
        hs.append((mode, ctx.tlc_start("Admissible", consts={"Lo": lo, "Hi": lo + n, "MaxLen": 24, "Mode": '"%s"' % mode}, tag=mode, workers=2,
                   invariants=["Meta", "Emit"]), v))
    exe = ctx.build_wait(b)
    for name, h, v in hs:
        ctx.replay(exe, ctx.tlc_wait(h)[0], name, args=[str(v)])
