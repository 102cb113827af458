def run(ctx):
    b = ctx.build_start("p05.cc")
    inv = ["NoDuplicateRelation", "Monotone", "Emit"]
    s0 = ctx.seed * 100000
    h = [("exhaustive", ctx.tlc_start("ConstraintsMatrix", consts={"IdSeq": "<<0, 1>>", "CSeq": "<<2>>", "HSeq": "<<0, 1>>", "MaxLen": ctx.pick(4, 5), "Seeds": "{0}"},
              invariants=inv, tag="exhaustive", workers=4)),
         ("random", ctx.tlc_start("ConstraintsMatrix", consts={"IdSeq": "<<0, 1, 2, 3, 4, 5>>", "CSeq": "<<1, 3, 3, 6, 10>>",
              "HSeq": "<<0, 1, 2, 3, 5, 8, 13, 19, 30>>", "MaxLen": ctx.pick(40, 60),
              "Seeds": "%d..%d" % (s0, s0 + ctx.pick(600, 4000))}, next_="RNext", invariants=inv, tag="random", workers=4)),
         ("random-small", ctx.tlc_start("ConstraintsMatrix", consts={"IdSeq": "<<0, 1, 2>>", "CSeq": "<<1, 3, 6>>",
              "HSeq": "<<0, 2, 4, 6, 9, 12, 16>>", "MaxLen": 25,
              "Seeds": "%d..%d" % (s0, s0 + ctx.pick(1000, 9000))}, next_="RNext", invariants=inv, tag="random-small", workers=4))]
    exe = ctx.build_wait(b)
    for name, x in h:
        cases = ctx.tlc_wait(x)[0]
        n = [sum(e.get("r") == v for c in cases for e in c["hist"] if e["op"] == "evaluate") for v in ("yes", "no", "refused")]
        ctx.cov.setdefault("verdicts", {})[name] = dict(zip(("yes", "no", "refused"), n))
        ctx.replay(exe, cases, name)
