def run(ctx):
    b = ctx.build_start("p21.cc")
    lo = ctx.seed * 100000
    hs = [("hide", ctx.tlc_start("PlanarPairs", consts={"Lo": lo, "Hi": lo + ctx.pick(1200, 12000)}, tag="pairs", workers=4, invariants=["Meta", "Emit"]), 2)]
    for mode, n, v in (("shape", ctx.pick(700, 8000), 3), ("pair", ctx.pick(200, 2000), 3)):
        hs.append((mode, ctx.tlc_start("BBoxes", consts={"Lo": lo, "Hi": lo + n, "Mode": '"%s"' % mode}, tag=mode, workers=2,
                   invariants=["Meta", "Emit"]), v))
    exe = ctx.build_wait(b)
    for name, h, v in hs:
        cases = ctx.tlc_wait(h)[0]
        if name == "pair":
            ctx.cov["box_pairs"] = sum(len(c["pairs"]) for c in cases)
        ctx.replay(exe, cases, name, args=[str(v)])
