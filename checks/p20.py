def run(ctx):
    b, b2 = ctx.build_start("p19.cc"), ctx.build_start("p20.cc")
    s0 = ctx.seed * 100000
    hs = [(k, ctx.tlc_start("Samplers", consts={"Kind": '"%s"' % k, "MaxLen": 8, "Seeds": "%d..%d" % (s0, s0 + ctx.pick(1500, 10000))},
          invariants=["Good", "NoReuse", "Emit"], tag=k, workers=3)) for k in ("box", "cyl")]
    u = ctx.tlc_start("Uniform", consts={"Lo": s0, "Hi": s0 + ctx.pick(600, 6000)}, invariants=["Within", "Even", "Emit"], tag="uniform", workers=2)
    exe, exe2 = ctx.build_wait(b), ctx.build_wait(b2)
    for name, h in hs:
        ctx.replay(exe, ctx.tlc_wait(h)[0], name, args=["2"])
    ctx.replay(exe2, ctx.tlc_wait(u)[0], "uniform", args=["%d" % ctx.pick(20000, 60000)])
