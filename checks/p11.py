import json, os


def run(ctx):
    b = ctx.build_start("p11.cc")
    lo = ctx.seed * 100000 + 50000
    hs = []
    for mode, n, v in (("poly", ctx.pick(600, 6000), 3), ("rim", ctx.pick(1500, 12000), 2)):
        hs.append((mode, ctx.tlc_start("Distances", consts={"Lo": lo, "Hi": lo + n, "Mode": '"%s"' % mode}, tag=mode, workers=3,
                   invariants=["Meta", "Emit"]), v))
    exe = ctx.build_wait(b)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ctx.replay(exe, json.load(open(os.path.join(here, "findings", "P11_kernel.json"))), "stored", args=["2"])
    for name, h, v in hs:
        ctx.replay(exe, ctx.tlc_wait(h)[0], name, args=[str(v)])
