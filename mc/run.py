import argparse
import importlib
import json
import os
import sys

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    core.quiet()
    import openptv_python
    where = os.path.dirname(os.path.dirname(os.path.abspath(openptv_python.__file__)))
    assert os.path.realpath(where) == os.path.realpath(core.REPO), where
    mod = importlib.import_module("mc.checks_" + GROUP[a.id])
    fn, level = getattr(mod, a.id), getattr(mod, "LEVELS", {}).get(a.id, "exploration")
    ctx = core.Ctx(a.id, a.tier, seed, level)
    if a.replay:
        d = json.load(open(a.replay))
        f = getattr(importlib.import_module(d["module"]), d["fn"])
        if hasattr(mod, "prepare"):
            mod.prepare()
        ctx.direct(f, d["item"])
    else:
        fn(ctx)
    return ctx.finish()


GROUP = {}
for g, ids in dict(io="C01 C02 C03 C04 C05 C06", track="C07 C08 C09 C10", cand="C11 C12 C13", corr="C14 C15 C16 C17 C18",
                   geom="C19 C20 C21 C22 C23", cal="C24 C25 C26", img="C27 C28 C29", pipe="C30 C31 C32 C33 C38", misc="C34 C35", hist="C36", move="C37", model="C39").items():
    for i in ids.split():
        GROUP[i] = g

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
