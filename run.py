#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's working tree (tier/seed from VERIF_TIER/VERIF_SEED)."""
import importlib, os, sys, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
sys.dont_write_bytecode = True
import vlib

def main():
    pid = sys.argv[1]
    ctx = vlib.Ctx(pid)
    try:
        importlib.import_module(pid.lower()).run(ctx)
        rc = ctx.finish()
    except vlib.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.cleanup()
    sys.exit(rc)

main()
