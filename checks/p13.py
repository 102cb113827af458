def run(ctx):
    b = ctx.build_start("p13.cc")
    lo = ctx.seed * 100000
    hs = []
    for mode, n, v in (("planar", ctx.pick(260, 2600), 4), ("box", ctx.pick(30, 300), 4), ("sphere", ctx.pick(40, 400), 4),
                       ("cyl", ctx.pick(120, 1200), 4), ("curve", ctx.pick(250, 4000), 4), ("seg", ctx.pick(400, 5000), 4)):
        hs.append((mode, ctx.tlc_start("Contains", consts={"Lo": lo, "Hi": lo + n, "Mode": '"%s"' % mode}, tag=mode, workers=2,
                   invariants=["Meta", "Emit"]), v))
    exe = ctx.build_wait(b)
    for name, h, v in hs:
        cases = ctx.tlc_wait(h)[0]
        ctx.cov.setdefault("probes", {})[name] = sum(len(x) for c in cases for k, x in c.items() if isinstance(x, list) and x and isinstance(x[0], dict))
        ctx.replay(exe, cases, name, args=[str(v)])
