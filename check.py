#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: decides one property of the real code with the TLA+ specification in spec/."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True

import engine  # noqa: E402
from layers import LAYERS  # noqa: E402
from props import PROPS, ASSUMPTIONS  # noqa: E402


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        return engine.die("usage: check.py PROPERTY [--replay FILE]; properties: " + " ".join(PROPS))
    prop = sys.argv[1]
    ctx = engine.Ctx(prop)
    try:
        if len(sys.argv) == 4 and sys.argv[2] == "--replay":
            with open(sys.argv[3]) as f:
                r = json.load(f)
            engine.conform(ctx, LAYERS[r["layer"]], [r["case"]])
        else:
            PROPS[prop](ctx)
            engine.evidence(ctx, "model_checking", ASSUMPTIONS)
        return engine.finish(ctx)
    except engine.CheckError as e:
        return engine.die(str(e))
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


sys.exit(main())
