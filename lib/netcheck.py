"""Cases of the specification NetScenes replayed into harness/net.cc."""


def nets(ctx, kind, modes):
    b = ctx.build_start("net.cc")
    lo = ctx.seed * 100000
    hs = [(mode, ctx.tlc_start("NetScenes", consts={"Lo": lo, "Hi": lo + n, "Mode": '"%s"' % mode}, tag=mode,
                               workers=6 if mode == "disks" else 2, invariants=["Meta", "Emit"])) for mode, n in modes]
    exe = ctx.build_wait(b)
    for name, h in hs:
        ctx.replay(exe, ctx.tlc_wait(h)[0], name, args=["%d" % ctx.pick(1, 2), kind])
