def run(ctx):
    b = ctx.build_start("p01.cc")
    meta = ["TypeOK", "FinishedIffAll", "CountsAreHistory", "RejectsAreHistory"]
    # every history of a short length over a small alphabet ...
    h1 = ctx.tlc_start("SamplingStatus", consts={"IdSeq": "<<0, 1>>", "TargetSeq": "<<0, 1>>", "BatchSeq": "<<1>>",
                       "MaxLen": ctx.pick(3, 4), "Seeds": "{0}"}, invariants=meta + ["Emit"], tag="exhaustive", workers=4)
    # ... and long random histories over larger ones
    s0 = ctx.seed * 100000
    h2 = ctx.tlc_start("SamplingStatus", consts={"IdSeq": "<<0, 1, 2, 3, 4, 5>>", "TargetSeq": "<<0, 1, 2, 5, 250>>",
                       "BatchSeq": "<<1, 1, 2, 1700>>", "MaxLen": ctx.pick(40, 90),
                       "Seeds": "%d..%d" % (s0, s0 + ctx.pick(1500, 12000))}, next_="RNext", invariants=["TypeOK", "Emit"], tag="random", workers=4)
    h3 = ctx.tlc_start("SamplingStatus", consts={"IdSeq": "<<0, 1, 2>>", "TargetSeq": "<<0, 1, 2, 3>>", "BatchSeq": "<<1>>",
                       "MaxLen": 16, "Seeds": "%d..%d" % (s0, s0 + ctx.pick(4000, 40000))}, next_="RNext",
                       invariants=meta + ["Emit"], tag="random-small", workers=4)
    exe = ctx.build_wait(b)
    for name, h in (("exhaustive", h1), ("random", h2), ("random-small", h3)):
        cases, _, _ = ctx.tlc_wait(h)
        ctx.replay(exe, cases, name)
