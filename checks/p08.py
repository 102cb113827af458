import json, os


def run(ctx):
    b = ctx.build_start("p08.cc")
    lo = ctx.seed * 100000
    hs = []
    for module, mode, n in (("FlatPairs", "poly", ctx.pick(1000, 15000)), ("FlatPairs", "circ", ctx.pick(500, 8000)),
                            ("CylCuts", "axial", ctx.pick(700, 6000)), ("CylCuts", "round", ctx.pick(700, 5000)),
                            ("FaceCells", "flat", ctx.pick(400, 5000)), ("FaceCells", "cross", ctx.pick(400, 5000))):
        hs.append((module + "-" + mode, ctx.tlc_start(module, consts={"Lo": lo, "Hi": lo + n, "Mode": '"%s"' % mode}, tag=module + mode, workers=2,
                   invariants=["Meta", "Emit"])))
    hs.append(("pairs", ctx.tlc_start("PlanarPairs", consts={"Lo": lo, "Hi": lo + ctx.pick(1000, 10000)}, tag="pairs", workers=2,
               invariants=["Meta", "Emit"])))
    exe = ctx.build_wait(b)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ctx.replay(exe, json.load(open(os.path.join(here, "findings", "P08_kernel.json"))), "stored", args=["2"])
    for name, h in hs:
        ctx.replay(exe, ctx.tlc_wait(h)[0], name, args=["%d" % ctx.pick(1, 2)])
