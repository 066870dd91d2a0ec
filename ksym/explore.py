"""Explores every path of one harness instance."""
import gc
import importlib
import logging
import os
import sys
import time
import traceback

from . import engine as E
from . import loader
from . import models
from . import symctx


def setup():
    sys.setrecursionlimit(6000)
    logging.disable(logging.CRITICAL)
    loader.install({"kiel": os.environ.get("KSYM_REPO", "/repo"),
                    "harness": os.path.dirname(os.path.dirname(
                        os.path.abspath(__file__)))})
    models.module_for("struct")
    import warnings
    warnings.simplefilter("ignore")


def run_path(eng, fn, params):
    """-> outcome string; the details are left on the engine."""
    loader.fresh("kiel")
    ctx = symctx.SymCtx(eng)
    try:
        fn(ctx, **params)
        eng.alive()
        return "done", ctx
    except BaseException as e:
        d = eng.dead if eng.dead is not None else e
        if isinstance(d, E.PathAbort):
            return "aborted", ctx
        if isinstance(d, E.CheckFailed):
            return "failed", ctx
        eng.dead = None
        if isinstance(d, E.Hang):
            ctx_fail(eng, ctx, eng.model(),
                     "runs without end (step budget exhausted)")
            return "failed", ctx
        if not isinstance(d, Exception):
            raise d
        tb = traceback.format_exc().splitlines()
        ctx_fail(eng, ctx, eng.model(), "unexpected %s: %s"
                 % (type(d).__name__, str(d)[:200]), tb[-14:])
        return "failed", ctx


def ctx_fail(eng, ctx, model, msg, tb=None):
    from . import values as V
    eng.fail = {"msg": msg, "tb": tb, "inputs": dict(
        (n, symctx.to_json(V.symval(v, model))) for n, v in ctx.inputs)}


def explore(module, fname, params, limits, roots=None, slice_s=None):
    """Runs one instance, from the given decision prefixes (or the start).

    Returns a JSON-able result; after slice_s seconds its "open" holds the
    prefixes still to be explored."""
    t0 = time.time()
    gc.disable()        # no finalizers of earlier paths inside a later one
    eng = E.Engine()
    E.set_engine(eng)
    eng.tick_limit = limits.get("ticks", 400000)
    if roots is not None:
        eng.worklist = [(p, None) for p in roots]
    mod = importlib.import_module(module)
    fn = getattr(mod, fname)
    res = {"paths": 0, "completed": 0, "aborted": 0, "failures": [],
           "samples": [], "reached": {}, "status": "ok", "why": "",
           "open": []}
    max_paths = limits.get("paths", 200000)
    deadline = t0 + limits.get("seconds", 600)
    want = limits.get("samples", 3)
    every = 1
    try:
        while True:
            prefix = eng.next_prefix()
            if prefix is None:
                break
            eng.reset_path(prefix)
            if res["paths"] % 40 == 0:
                gc.collect()
            outcome, ctx = run_path(eng, fn, params)
            res["paths"] += 1
            for r in ctx.reached:
                res["reached"][r] = res["reached"].get(r, 0) + 1
            if outcome == "failed":
                f = eng.fail
                eng.fail = None
                res["failures"].append(f)
                if len(res["failures"]) >= limits.get("failures", 1):
                    res["status"] = "failed"
                    break
            elif outcome == "aborted":
                res["aborted"] += 1
            else:
                res["completed"] += 1
                n = res["completed"]
                if n == every:
                    every = n * 3 if n > 2 else n + 1
                    eng.dead = None
                    s = ctx.sample(eng.model())
                    res["samples"].append(s)
                    if len(res["samples"]) > want:
                        res["samples"].pop(1)
            if slice_s and time.time() - t0 > slice_s and eng.worklist:
                res["open"] = [p for p, _ in eng.worklist]
                break
            if res["paths"] >= max_paths or time.time() > deadline:
                if eng.worklist:
                    res["status"] = "inconclusive"
                    res["why"] = "budget: %d paths, %.0fs, %d open" % (
                        res["paths"], time.time() - t0, len(eng.worklist))
                    break
    except (E.Unsupported, E.Inconclusive) as e:
        res["status"] = "inconclusive"
        res["why"] = "%s: %s\n%s" % (
            type(e).__name__, e, "".join(traceback.format_exc()[-2500:]))
    if res["failures"]:
        res["status"] = "failed"
    res["stats"] = eng.stats.as_dict()
    res["functions"] = sorted(
        f for f in eng.functions if f.startswith("kiel"))
    res["wall"] = round(time.time() - t0, 2)
    return res
