#!/usr/bin/env python3
"""check.py PROPERTY: decides one property against /repo's current working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("VERIF_TIER") is None and len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
from vlib import core
from vlib.registry import CHECKS


def main():
    pid = sys.argv[1]
    ctx = core.Ctx(pid)
    try:
        CHECKS[pid](ctx)
        rc = ctx.finish()
    except core.ToolError as e:
        if ctx.violations:                      # what was already seen stands
            rc = ctx.finish()
        else:
            print("TOOL-ERROR:", e)
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    sys.exit(rc)


main()
