#!/usr/bin/env python3
"""setup_cmd: verifies that the tools the checks need are present and parses all specifications."""
import os, subprocess, sys, glob, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix="verif_setup_")
try:
    for f in glob.glob(os.path.join(V, "spec", "*.tla")):
        shutil.copy(f, d)
    cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
    fs = sorted(os.path.basename(f) for f in glob.glob(os.path.join(d, "*.tla")))
    r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", cp, "tla2sany.SANY"] + fs, cwd=d, capture_output=True, text=True)
    bad = r.returncode != 0 or "rror" in r.stdout.replace("Semantic errors:", "error")
    if r.returncode != 0:
        print(r.stdout[-3000:], r.stderr[-1000:]); sys.exit(1)
    print("parsed", len(fs), "specifications")
finally:
    shutil.rmtree(d, ignore_errors=True)
