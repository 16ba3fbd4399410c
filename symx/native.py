"""Native runner: executes harnesses on concrete inputs against the un-instrumented code.

Protocol: one JSON request per line on stdin, one JSON reply per line on a private copy of stdout."""
import importlib
import json
import os
import sys
import tempfile
import traceback
from pathlib import Path


def site(tb):
    """source files of the traceback, innermost last"""
    return [f.filename for f in traceback.extract_tb(tb)]


def main():
    out = os.fdopen(os.dup(1), "w", encoding="utf-8")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    scratch = Path(tempfile.mkdtemp(prefix="sxn_", dir=sys.argv[1]))
    os.chdir(scratch)
    from symx.env import NativeEnv, Skip, jsonable
    import spex.log  # noqa: F401
    from loguru import logger
    logger.remove()
    from symx.state import Keeper
    keeper = Keeper(["spex", "spexsrv"])
    keeper.load("spex")
    keeper.take()
    NativeEnv.keeper = keeper
    for line in sys.stdin:
        req = json.loads(line)
        mod = importlib.import_module("harness." + req["module"])
        keeper.restore()
        env = NativeEnv(req["inputs"], scratch)
        rep = {"skip": False, "exc": None}
        try:
            getattr(mod, req["fn"])(env, **req["params"])
        except Skip:
            rep["skip"] = True
        except (Exception, SystemExit) as e:
            rep["exc"] = type(e).__name__
            rep["msg"] = str(e)[:500]
            rep["where"] = site(e.__traceback__)[-1]
            rep["tb"] = "".join(traceback.format_exception(e))[-3000:]
        rep["fails"] = env.fails
        rep["outs"] = jsonable(env.outs)
        out.write(json.dumps(rep) + "\n")
        out.flush()


if __name__ == "__main__":
    sys.setrecursionlimit(8000)
    main()
