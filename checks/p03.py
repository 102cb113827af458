def run(ctx):
    b = ctx.build_start("p03.cc")
    inv = ["EachTagOnce", "InsertionOrder", "NothingLost", "Emit"]
    s0 = ctx.seed * 100000
    h = [("exhaustive", ctx.tlc_start("EntitySets", consts={"IdSeq": "<<0, 1>>", "NumTypes": 2, "MaxLen": ctx.pick(3, 4), "Seeds": "{0}"},
              invariants=inv, tag="exhaustive", workers=4)),
         ("random", ctx.tlc_start("EntitySets", consts={"IdSeq": "<<0, 1, 2, 3, 4, 5, 6>>", "NumTypes": 4, "MaxLen": ctx.pick(50, 120),
              "Seeds": "%d..%d" % (s0, s0 + ctx.pick(2000, 15000))}, next_="RNext", invariants=["NothingLost", "Emit"], tag="random", workers=4))]
    exe = ctx.build_wait(b)
    for name, x in h:
        ctx.replay(exe, ctx.tlc_wait(x)[0], name)
