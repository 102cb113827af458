def run(ctx):
    b = ctx.build_start("p23.cc")
    lo = ctx.seed * 100000
    hs = []
    for mode, n in (("hist", ctx.pick(1200, 12000)), ("rot", ctx.pick(3000, 30000)), ("par", ctx.pick(3000, 30000)), ("proj", ctx.pick(3000, 30000)), ("param", ctx.pick(500, 5000))):
        hs.append((mode, ctx.tlc_start("Vectors", consts={"Lo": lo, "Hi": lo + n, "Mode": '"%s"' % mode, "MaxLen": ctx.pick(30, 40)}, tag=mode, workers=3 if mode == "hist" else 2,
                   invariants=["Meta", "Emit"])))
    exe = ctx.build_wait(b)
    for name, h in hs:
        ctx.replay(exe, ctx.tlc_wait(h)[0], name)
