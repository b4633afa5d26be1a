"""Run harnesses concretely on the unmodified dascore: python -m sx.replay IN OUT."""
from __future__ import annotations

import importlib
import json
import os
import sys
import traceback
import warnings


def run_case(mod, scenario, inputs, tier):
    from .harness import CheckFailed, ConcCtx, SkipCase

    func, opts = mod.SCENARIOS[scenario]
    ctx = ConcCtx(inputs)
    ctx.tier = tier
    try:
        func(ctx)
    except SkipCase:
        return {"status": "skip", "detail": ""}
    except CheckFailed as e:
        return {"status": "violation", "detail": str(e)}
    except Exception as e:  # noqa
        tb = "".join(traceback.format_exception(e))[-1500:]
        return {"status": "violation", "detail": f"unexpected {type(e).__name__}: {str(e)[:300]}", "tb": tb}
    return {"status": "ok", "detail": "", "checks": ctx.checks}


def main(src, dst):
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    tree = os.environ.get("SX_TREE", "/repo")
    sys.path.insert(0, tree)
    import dascore

    assert dascore.__file__.startswith(tree + "/"), dascore.__file__
    job = json.load(open(src))
    mod = importlib.import_module(f"checks.{job['property'].lower()}")
    with open(dst, "w") as fi:
        for scenario, inputs in job["cases"]:
            r = run_case(mod, scenario, inputs, job.get("tier", "quick"))
            fi.write(json.dumps(r) + "\n")
            fi.flush()


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
