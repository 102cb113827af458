"""P22: the replays of the other properties carried out through the Python package (harness/py.hh)."""
import os, shutil, subprocess, time
import vlib

MODULES = ("geometry", "common", "precision", "occutilities", "io", "entitynetwork", "sampling")
PYCFG = ["-I/usr/include/python3.12", "-L/usr/lib/x86_64-linux-gnu", "-lpython3.12"]


def package_start(ctx):
    root = os.path.join(ctx.work, "py", "frackit")
    jobs = []
    for m in MODULES:
        d = os.path.join(root, m)
        src = os.path.join(vlib.REPO, "python", "frackit", m)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(src):
            if f.endswith(".py"):
                shutil.copy(os.path.join(src, f), d)
        log = open(os.path.join(d, "log"), "w+")
        cmd = ["g++", "-std=c++17", "-O0", "-g0", "-w", "-fPIC", "-fvisibility=hidden", "-shared", "-I/usr/include/opencascade", "-I" + vlib.REPO,
               "-I/usr/include/python3.12", os.path.join(src, "_%s.cc" % m), "-o", os.path.join(d, "_%s.cpython-312-x86_64-linux-gnu.so" % m), *vlib.OCC_LIBS]
        jobs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT), m, log))
    return jobs


def package_wait(ctx, jobs):
    for p, m, log in jobs:
        if p.wait() != 0:
            log.seek(0)
            raise vlib.CheckError("Python module %s does not build:\n%s" % (m, log.read()[-3000:]))
    return os.path.join(ctx.work, "py")


NETS = (("plain", 60, "net"), ("contained", 60, "net"), ("confined", 60, "net"), ("disks", 20, "net"), ("contained", 40, "files"), ("plain", 40, "files"))


# harness, optimisation, [(name, module, constants, cases, variants / arguments, invariants, next)]
def parts(ctx):
    s0 = ctx.seed * 100000 + 60000
    n = lambda q: ctx.pick(q, 6 * q)
    rng = lambda k: {"Lo": s0, "Hi": s0 + n(k)}
    mode = lambda m, k, **x: dict(rng(k), Mode='"%s"' % m, **x)
    ME, seeds = ["Meta", "Emit"], lambda k: "%d..%d" % (s0, s0 + n(k))
    P = []
    add = lambda src, name, module, consts, args, inv=ME, nx="Next": P.append((src, name, module, consts, args, inv, nx))
    add("p01.cc", "status", "SamplingStatus", {"IdSeq": "<<0, 1, 2>>", "TargetSeq": "<<0, 1, 2, 3>>", "BatchSeq": "<<1>>", "MaxLen": 20, "Seeds": seeds(600)}, [], ["TypeOK", "Emit"], "RNext")
    add("p05.cc", "matrix", "ConstraintsMatrix", {"IdSeq": "<<0, 1, 2>>", "CSeq": "<<1, 3, 6>>", "HSeq": "<<0, 2, 4, 6, 9, 12, 16>>", "MaxLen": 20, "Seeds": seeds(300)}, [], ["NoDuplicateRelation", "Emit"], "RNext")
    add("p06.cc", "planar pairs", "PlanarPairs", rng(300), ["1"])
    add("p06.cc", "segments", "LinearPairs", mode("seg", 500), ["1"])
    add("p07.cc", "cylinder axial", "CylCuts", mode("axial", 250), ["1"])
    add("p07.cc", "cylinder round", "CylCuts", mode("round", 120), ["1"])
    for m, k in (("poly", 120), ("circ", 60)):
        add("p08.cc", "faces " + m, "FlatPairs", mode(m, k), ["1"])
    add("p08.cc", "faces and cylinders", "CylCuts", mode("axial", 60), ["1"])
    for m, k in (("poly", 150), ("kkt", 250)):
        add("p10.cc", "distance " + m, "Distances", mode(m, k), ["1"])
    for m, k in (("poly", 80), ("rim", 150)):
        add("p11.cc", "boundary distance " + m, "Distances", mode(m, k), ["1"])
    for m, k in (("plain", 100), ("box", 120), ("cyl", 80), ("sphere", 12)):
        add("p12.cc", "sizes " + m, "Sizes", mode(m, k), ["1"])
    for m, k in (("planar", 24), ("box", 4), ("sphere", 4), ("cyl", 12), ("curve", 30), ("seg", 60)):
        add("p13.cc", "contains " + m, "Contains", mode(m, k), ["1"])
    for k in ("disk", "poly", "quad", "box", "cyl"):
        add("p19.cc", "sampler " + k, "Samplers", {"Kind": '"%s"' % k, "MaxLen": 6, "Seeds": seeds(150)}, ["1"], ["Good", "Emit"])
    add("p20.cc", "uniform", "Uniform", rng(60), ["4000"], ["Within", "Even", "Emit"])
    for m, k in (("line", 40), ("space", 12), ("par", 12), ("flat", 12)):
        add("p04.cc", "constraints " + m, "Admissible", dict(mode(m, k), MaxLen=24), ["1"])
    for m, k in (("hist", 300), ("rot", 500)):
        add("p23.cc", "vectors " + m, "Vectors", dict(mode(m, k), MaxLen=30), [])
    for m, k, w in NETS:
        add("net.cc", "%s %s" % (w, m), "NetScenes", mode(m, k), ["1", w])
    for m, k in (("shape", 120), ("pair", 10)):
        add("p21.cc", "bounding boxes " + m, "BBoxes", mode(m, k), ["1"])
    return P


def run(ctx):
    jobs = package_start(ctx)
    P = parts(ctx)
    srcs = list(dict.fromkeys(p[0] for p in P))
    exes, pure, queue, running = {}, {}, srcs[:], {}
    hs, cases = {}, {}
    k = 0
    while len(exes) < len(srcs) or k < len(P) or hs:
        while queue and len(running) < 5:
            s = queue.pop(0)
            running[s] = ctx.build_start(s, defs=("PY",), opt="-O0", extra=PYCFG)
        while k < len(P) and len(hs) < 3:
            p = P[k]
            hs[k] = ctx.tlc_start(p[2], consts=p[3], tag=p[1].replace(" ", "-"), workers=1, invariants=p[5], next_=p[6])
            k += 1
        for s in [s for s, b in running.items() if b[0].poll() is not None]:
            exes[s] = ctx.build_wait(running.pop(s))
        for i in [i for i, h in hs.items() if h[0].poll() is not None]:
            cases[i] = ctx.tlc_wait(hs.pop(i))[0]
        time.sleep(0.05)
    env = {"PYTHONPATH": package_wait(ctx, jobs), "PYTHONDONTWRITEBYTECODE": "1"}

    def veto(src):
        def exe():
            if src not in pure:
                pure[src] = ctx.build(src, opt="-O0")
            return pure[src]
        return exe

    for i, (src, name, _, _, args, _, _) in enumerate(P):
        ctx.replay(exes[src], cases[i], name, args=args, env=env, veto=veto(src))
