#!/usr/bin/env python3
"""check.py ID: run the check of one property (see MANIFEST.json)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from vlib import Ctx, CheckError
import checks
import models


def main():
    pid = sys.argv[1]
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    ctx = Ctx(pid)
    import shutil
    try:
        shutil.rmtree(os.path.join(os.path.dirname(os.path.abspath(__file__)), "replays", pid),
                      ignore_errors=True)
        checks.CHECKS[pid](ctx)
        if not ctx.violations:
            models.run_models(ctx, pid)
    except CheckError as e:
        print(f"ERROR property={pid}: {e}", file=sys.stderr)
        if ctx.violations:      # a violation stands, whatever else went wrong
            return ctx.finish()
        shutil.rmtree(ctx.work, ignore_errors=True)
        return 2
    except Exception:
        traceback.print_exc()
        shutil.rmtree(ctx.work, ignore_errors=True)
        return 2
    return ctx.finish()


sys.exit(main())
