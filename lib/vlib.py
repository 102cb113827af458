"""Common machinery of all checks: run TLC, build harnesses, replay, confirm, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FRACKIT_REPO", "/repo")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OCC_LIBS = "-lTKBO -lTKTopAlgo -lTKBRep -lTKGeomAlgo -lTKPrim -lTKGeomBase -lTKG3d -lTKG2d -lTKMath -lTKernel".split()
NPROC = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = self.tier == "thorough"
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "cases": 0, "samples": [],
                    "tlc_runs": [], "replays": []}
        self.violations = []
        self.known_hit = []
        self.known = load_known(pid)

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ TLC
    def tlc_start(self, module, consts=None, sim=None, depth=None, spec=None, init="Init", next_="Next",
            invariants=(), properties=(), constraint=None, alias="", workers=None, heap="3g", tag=""):
        """Run TLC on spec/<module>.tla. sim=N: seeded simulation of N behaviours of the given depth."""
        d = tempfile.mkdtemp(prefix="tlc_%s_%s" % (module, tag), dir=self.work)
        cfg = os.path.join(d, "m.cfg")
        with open(cfg, "w") as f:
            if spec:
                f.write("SPECIFICATION %s\n" % spec)
            else:
                f.write("INIT %s\nNEXT %s\n" % (init, next_))
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for i in properties:
                f.write("PROPERTY %s\n" % i)
            if constraint:
                f.write("CONSTRAINT %s\n" % constraint)
            f.write("CHECK_DEADLOCK FALSE\n")
            for k, v in (consts or {}).items():
                f.write("CONSTANT %s <- c_%s\n" % (k, k))
        for n in os.listdir(os.path.join(VERIF, "spec")):
            if n.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", n), d)
        with open(os.path.join(d, "MC.tla"), "w") as f:
            f.write("---- MODULE MC ----\nEXTENDS %s\n" % module)
            for k, v in (consts or {}).items():
                f.write("c_%s == %s\n" % (k, tla(v)))
            f.write("====\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss64m", "-cp", TLA_CP, "tlc2.TLC", "-config", cfg,
               "-metadir", os.path.join(d, "meta"), "-nowarning", "-noGenerateSpecTE"]
        if sim:
            cmd += ["-simulate", "num=%d" % sim, "-depth", str(depth or 50), "-seed", str(self.seed * 7919 + 17),
                    "-workers", "1"]
        else:
            cmd += ["-workers", str(workers or NPROC)]
        cmd.append("MC.tla")
        out = open(os.path.join(d, "out"), "w+")
        p = subprocess.Popen(cmd, cwd=d, stdout=out, stderr=subprocess.STDOUT)
        return (p, out, d, module, consts, sim, time.time(), tag)

    def tlc_wait(self, h, timeout=800, expect_ok=True):
        p, out, d, module, consts, sim, t0, tag = h
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            raise CheckError("TLC timeout on %s" % module)
        out.seek(0)
        cases, rest, stats = [], [], {}
        for line in out:
            if line.startswith('"'):
                try:
                    cases.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            rest.append(line)
        out.close()
        if not sim:  # workers emit in any order
            cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
        txt = "".join(rest)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
        if m:
            stats = {"generated": int(m.group(1).replace(",", "")), "distinct": int(m.group(2).replace(",", ""))}
        else:
            m = re.findall(r"Progress: ([\d,]+) states checked, ([\d,]+) traces", txt)
            m2 = re.search(r"The number of states generated: ([\d,]+)", txt)
            if m2:
                n = int(m2.group(1).replace(",", ""))
                stats = {"generated": n, "distinct": n}
            elif m:
                n = int(m[-1][0].replace(",", ""))
                stats = {"generated": n, "distinct": n}
        self.cov["states"] += stats.get("distinct", 0)
        self.cov["transitions"] += stats.get("generated", 0)
        self.cov["tlc_runs"].append({"module": module, "tag": tag, "consts": {k: str(v)[:200] for k, v in (consts or {}).items()},
                                     "simulate": sim, "states": stats, "emitted": len(cases),
                                     "wall_s": round(time.time() - t0, 2)})
        ok = rc == 0 and "Error:" not in txt
        if expect_ok and not ok:
            raise CheckError("TLC failed on %s (rc %s):\n%s" % (module, rc, txt[-4000:]))
        shutil.rmtree(d, ignore_errors=True)
        return cases, ok, txt

    def tlc(self, module, **kw):
        return self.tlc_wait(self.tlc_start(module, **kw))[0]

    # ------------------------------------------------------------- harness
    def build_start(self, src, defs=(), opt="-O1", san=None, extra=()):
        exe = os.path.join(self.work, os.path.basename(src).rsplit(".", 1)[0] + "_" + hashlib.md5(repr((defs, san)).encode()).hexdigest()[:6])
        cmd = ["g++", "-std=c++17", "-w", opt, "-DNDEBUG", "-I/usr/include/opencascade", "-I" + REPO,
               "-I" + os.path.join(VERIF, "harness"), *["-D" + d for d in defs],
               os.path.join(VERIF, "harness", src), "-o", exe, *OCC_LIBS, *extra]
        if san:
            cmd.insert(1, san)
        log = open(exe + ".log", "w+")
        return (subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT), exe, log)

    def build_wait(self, h):
        p, exe, log = h
        if p.wait() != 0:
            log.seek(0)
            t = log.read()
            errs = [l for l in t.split("\n") if "error" in l]
            raise CheckError("harness build failed:\n" + "\n".join(errs[:8])[:3000] + "\n...\n" + t[-1500:])
        return exe

    def build(self, src, **kw):
        return self.build_wait(self.build_start(src, **kw))

    # -------------------------------------------------------------- replay
    def replay(self, exe, cases, name, args=(), case_timeout=60, env=None, max_report=20, confirm=True, nproc=None, veto=None):
        """Feed cases to the harness (sharded over processes), collect and confirm deviations."""
        t0 = time.time()
        cmd = exe if isinstance(exe, list) else [exe]
        fails = run_shards(self, cmd, cases, list(args), case_timeout, env, nproc or NPROC)
        self.cov["traces_validated_against_impl"] += len(cases)
        self.cov["cases"] += len(cases)
        if cases and len(self.cov["samples"]) < 8:
            self.cov["samples"].append({"replay": name, "case": cases[(self.seed * 7919) % len(cases)]})
        self.cov["replays"].append({"name": name, "cases": len(cases), "deviations": len(fails),
                                    "wall_s": round(time.time() - t0, 2)})
        if not fails:
            return []
        # confirm in a fresh process
        confirmed = []
        for idx, msg in sorted(fails.items(), key=lambda t: (self.is_known(name, t[1]), t[0])):
            if len(confirmed) >= max_report:
                break
            if confirm:
                again = run_shards(self, cmd, cases, list(args), case_timeout, env, 1, idx)
                if not again:
                    self.cov.setdefault("unconfirmed", []).append(msg[:300])
                    continue
                msg = again[idx]
            if veto:  # a deviation of something else, when this command shows it, too
                other = veto()
                if run_shards(self, other if isinstance(other, list) else [other], cases, list(args), case_timeout, env, 1, idx):
                    self.cov["vetoed"] = self.cov.get("vetoed", 0) + 1
                    continue
            confirmed.append((idx, msg))
        for idx, msg in confirmed:
            self.report(name, cases[idx], msg, {"harness": [os.path.basename(c) for c in cmd], "args": list(args), "index": idx})
        if len(fails) > len(confirmed):
            self.cov["further_deviations"] = self.cov.get("further_deviations", 0) + len(fails) - len(confirmed)
        return confirmed

    def is_known(self, name, msg):
        return any(re.search(k["match"], "%s %s" % (name, msg)) for k in self.known)

    def report(self, name, case, msg, extra=None):
        for k in self.known:
            if re.search(k["match"], "%s %s" % (name, msg)):
                self.known_hit.append(k)
                return
        n = len(self.violations)
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replay", "%s_%d.json" % (self.pid, n))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "where": name, "deviation": msg, "case": case, "seed": self.seed,
                       "tier": self.tier, "extra": extra or {}}, f, indent=1)
        self.violations.append({"where": name, "msg": msg, "replay": path})

    # -------------------------------------------------------------- finish
    def finish(self, note=None):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if note:
            ev["coverage"]["note"] = note
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            if k in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        for v in self.violations[:5]:
            print("DEVIATION %s: %s" % (v["where"], v["msg"][:600]))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0]["replay"]))
        else:
            print("OK property=%s states=%d replayed=%d wall=%.1fs" % (
                self.pid, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    return str(v)


def run_shards(ctx, cmd, cases, args, case_timeout, env, nproc, only=None):
    """Runs all cases, or that with the index "only" (the index is a part of the input). Returns {case index: message}. Every case that crashes / hangs the harness counts as failing."""
    n = len(cases)
    todo = range(n) if only is None else [only]
    nproc = max(1, min(nproc, len(todo)))
    fails = {}
    d = tempfile.mkdtemp(prefix="rep", dir=ctx.work)
    e = dict(os.environ)
    e["CASE_TIMEOUT"] = str(case_timeout)
    e["VERIF_SEED"] = str(ctx.seed)
    e["VERIF_TIER"] = ctx.tier
    e.update(env or {})
    jobs = []
    crashes = 0

    def start(idxs, k):
        inp = os.path.join(d, "in_%s" % k)
        with open(inp, "w") as f:
            for i in idxs:
                f.write("%d %s\n" % (i, json.dumps(cases[i])))
        out = open(os.path.join(d, "out_%s" % k), "w+b")
        err = open(os.path.join(d, "err_%s" % k), "w+b")
        p = subprocess.Popen(cmd + [inp] + args, stdout=out, stderr=err, env=e, cwd=d)
        return (p, out, err, idxs, k)

    for k in range(nproc):
        idxs = list(todo[k::nproc])
        if idxs:
            jobs.append(start(idxs, str(k)))
    while jobs:
        nxt = []
        for p, out, err, idxs, k in jobs:
            try:
                rc = p.wait(timeout=1500)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = p.wait()
            out.seek(0)
            last, done = None, False
            for line in out.read().decode("utf-8", "replace").split("\n"):
                if line.startswith("@B "):
                    last = int(line[3:].split()[0])
                elif line.startswith("@FAIL "):
                    w = line[6:].split(" ", 1)
                    fails.setdefault(int(w[0]), w[1] if len(w) > 1 else "?")
                elif line.startswith("@END"):
                    done = True
            err.seek(0)
            etxt = err.read().decode("utf-8", "replace")
            out.close(); err.close()
            if rc == 3:
                raise CheckError("harness could not interpret a case: " + etxt[-2000:])
            if not done:
                if last is None:
                    raise CheckError("harness did not start (rc %s): %s" % (rc, etxt[-2000:]))
                what = "did not terminate within %ss" % case_timeout if rc == -signal.SIGALRM else "terminated abnormally (rc %s) %s" % (rc, etxt[-300:].replace("\n", " | "))
                fails.setdefault(last, "the call " + what)
                crashes += 1
                pos = idxs.index(last)
                rest = idxs[pos + 1:]
                if rest and crashes < 40:
                    nxt.append(start(rest, k + "r"))
        jobs = nxt
    shutil.rmtree(d, ignore_errors=True)
    return fails


def load_known(pid):
    """known_findings.txt: KNOWN-FINDING: property=<id> match=<regex> :: <text>; 'fixed:' lines suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) match=/(.*?)/ :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                res.append({"match": m.group(2), "text": m.group(3)})
    return res
