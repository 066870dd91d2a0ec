"""Runs harness code against the unmodified kiel, with recorded inputs.

Reads a JSON list of cases on stdin, writes one JSON result per line."""
import importlib
import json
import logging
import os
import random
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("KSYM_REPO", "/repo"))

from ksym import ctx as C     # noqa


class Timeout(BaseException):
    pass


def alarm(*a):
    raise Timeout()


CURRENT = [None]


def idx(what, n):
    if CURRENT[0] is None:
        return 0
    return CURRENT[0].env_index(what, n)


def patch_random():
    def choice(seq):
        if len(seq) == 0:
            raise IndexError("Cannot choose from an empty sequence")
        return seq[idx("random.choice", len(seq))]

    def randrange(start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        if len(r) == 0:
            raise ValueError("empty range for randrange()")
        return r[idx("random.randrange", len(r))]

    def shuffle(x):
        for i in reversed(range(1, len(x))):
            j = idx("random.shuffle", i + 1)
            x[i], x[j] = x[j], x[i]

    def sample(population, k):
        pop = list(population)
        return [pop.pop(idx("random.sample", len(pop))) for _ in range(k)]

    random.choice = choice
    random.randrange = randrange
    random.randint = lambda a, b: randrange(a, b + 1)
    random.shuffle = shuffle
    random.sample = sample


def run(case):
    for n in list(sys.modules):
        if n.split(".")[0] == "kiel":
            del sys.modules[n]
    ctx = C.ReplayCtx(case["inputs"])
    CURRENT[0] = ctx
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(case.get("timeout", 20))
    r = {"status": "ok", "msg": ""}
    try:
        mod = importlib.import_module(case["module"])
        getattr(mod, case["fn"])(ctx, **case["params"])
        ctx.alive()
    except C.Violation as e:
        r = {"status": "violation", "msg": str(e)}
    except C.Mismatch as e:
        r = {"status": "mismatch", "msg": str(e)}
    except Timeout:
        r = {"status": "violation", "msg": "does not terminate"}
    except Exception as e:
        r = {"status": "exception", "msg": "%s: %s" % (
            type(e).__name__, e), "tb": traceback.format_exc()[-3000:]}
    finally:
        signal.alarm(0)
        CURRENT[0] = None
    r["notes"] = ctx.notes
    return r


def main():
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    patch_random()
    for case in json.load(sys.stdin):
        out.write(json.dumps(run(case)) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
