import collections
def run(ctx):
    b = ctx.build_start("p06.cc")
    lo = ctx.seed * 100000
    hs = [("pairs", ctx.tlc_start("PlanarPairs", consts={"Lo": lo, "Hi": lo + ctx.pick(1500, 12000)}, tag="pairs", workers=4,
              invariants=["Meta", "Emit"]), ctx.pick(2, 3))]
    hs.append(("giant", ctx.tlc_start("GiantPairs", consts={"Lo": lo, "Hi": lo + ctx.pick(600, 6000)}, tag="giant", workers=2,
               invariants=["GMeta", "GEmit"]), ctx.pick(2, 3)))
    for mode, n, v in (("seg", ctx.pick(2500, 25000), 2), ("plane", ctx.pick(1500, 15000), 2), ("refuse", ctx.pick(250, 2500), 1), ("concave", 64, 1)):
        hs.append((mode, ctx.tlc_start("LinearPairs", consts={"Lo": lo, "Hi": lo + n, "Mode": '"%s"' % mode}, tag=mode,
                   workers=2, invariants=["Meta", "Emit"]), v))
    exe = ctx.build_wait(b)
    for name, h, v in hs:
        cases = ctx.tlc_wait(h)[0]
        ctx.cov.setdefault("kinds", {})[name] = dict(collections.Counter(str(c.get("kind", c.get("pp", c.get("share", "")))) for c in cases))
        ctx.replay(exe, cases, name, args=[str(v)])
