def run(ctx):
    b = ctx.build_start("p19.cc")
    s0 = ctx.seed * 100000
    hs = [(k, ctx.tlc_start("Samplers", consts={"Kind": '"%s"' % k, "MaxLen": ctx.pick(8, 12), "Seeds": "%d..%d" % (s0, s0 + ctx.pick(1500, 15000))},
          invariants=["Good", "NoReuse", "Emit"], tag=k, workers=3)) for k in ("disk", "poly", "quad")]
    exe = ctx.build_wait(b)
    for name, h in hs:
        ctx.replay(exe, ctx.tlc_wait(h)[0], name, args=["%d" % ctx.pick(2, 4)], case_timeout=10)
