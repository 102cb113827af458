def run(ctx):
    b = ctx.build_start("p02.cc")
    inv = ["Unique", "OneCallPerDraw", "CycleOrder", "Emit"]
    strat = '{"default", "sequential", "reverse", "sticky"}'
    s0 = ctx.seed * 100000
    h = [("exhaustive", ctx.tlc_start("MultiSampler", consts={"IdSeq": "<<0, 1, 2>>", "NumTypes": 2, "MaxLen": ctx.pick(4, 5), "Seeds": "{0}",
              "Strategies": ctx.pick('{"default", "reverse"}', strat)}, invariants=inv, tag="exhaustive", workers=4)),
         ("random", ctx.tlc_start("MultiSampler", consts={"IdSeq": "<<0, 1, 2, 3, 4, 5, 6>>", "NumTypes": 4, "MaxLen": ctx.pick(60, 150),
              "Seeds": "%d..%d" % (s0, s0 + ctx.pick(1200, 8000)), "Strategies": strat}, next_="RNext",
              invariants=["Unique", "CycleOrder", "Emit"], tag="random", workers=4))]
    exe = ctx.build_wait(b)
    for name, x in h:
        ctx.replay(exe, ctx.tlc_wait(x)[0], name)
