def run(ctx):
    b = ctx.build_start("p17.cc")
    inv = ["Good", "Consistent", "Emit"]
    s0 = ctx.seed * 100000
    h = [("random", ctx.tlc_start("Builder", consts={"MaxLen": ctx.pick(30, 50), "Seeds": "%d..%d" % (s0, s0 + ctx.pick(600, 4000))}, next_="RNext",
              invariants=inv, tag="random", workers=4)),
         ("exhaustive", ctx.tlc_start("Builder", consts={"MaxLen": ctx.pick(3, 4), "Seeds": ctx.pick("{1, 5, 9}", "{1, 2, 5, 7, 9, 11}")},
              invariants=inv, tag="exhaustive", workers=4))]
    exe = ctx.build_wait(b)
    for name, x in h:
        ctx.replay(exe, ctx.tlc_wait(x)[0], name, args=["1"])
