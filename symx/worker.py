"""Worker process: explores jobs symbolically, validates paths natively."""
import gc
import importlib
import json
import os
import random
import select
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO_SRC = "/repo/src"


class Native:
    def __init__(self, scratch):
        self.scratch = scratch
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONPATH=f"{REPO_SRC}:{VERIF}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   PYTHONUTF8="1")
        self.p = subprocess.Popen([sys.executable, "-m", "symx.native", str(self.scratch)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=str(VERIF))

    def ask(self, req, timeout=20.0):
        """reply, or None when the run did not finish"""
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write((json.dumps(req) + "\n").encode())
                self.p.stdin.flush()
                break
            except BrokenPipeError:
                self.p = None
        buf = b""
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while not buf.endswith(b"\n"):
            left = end - time.time()
            if left <= 0:
                self.p.kill()
                self.p.wait()
                self.p = None
                return {"hang": True}
            r, _, _ = select.select([fd], [], [], min(left, 1.0))
            if r:
                d = os.read(fd, 1 << 16)
                if not d:
                    self.p = None
                    return {"died": True}
                buf += d
        return json.loads(buf)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()


class Explorer:
    def __init__(self, scratch, seed, prop):
        from .core import CTX
        from . import rt, instr
        from .env import make_symenv, jsonable
        self.jsonable = jsonable
        self.ctx = CTX
        self.rt = rt
        self.prop = prop
        self.scratch = scratch
        self.native = Native(scratch)
        self.rnd = random.Random(seed)
        os.chdir(scratch)
        sys.setrecursionlimit(12000)
        instr.install(["spex", "spexsrv", "gcgen", "harness"])
        importlib.import_module("spex.log")
        from loguru import logger
        logger.remove()
        import loguru._better_exceptions as lb
        lb.ExceptionFormatter.format_exception = lambda self, *a, **k: iter(())  # prints the values of variables
        rt.register(traceback.print_exc, lambda *a, **k: None)
        rt.register(traceback.format_exc, lambda *a, **k: "")
        self.SymEnv = make_symenv()
        from .state import Keeper
        self.keeper = Keeper(["spex", "spexsrv"])
        self.keeper.load("spex")
        self.keeper.take()
        self.SymEnv.keeper = self.keeper
        self.npaths = 0

    def run_path(self, job, prefix):
        """one path; returns (status, env, exc)"""
        ctx = self.ctx
        from .core import Budget, Hang, Infeasible, PathEnd, Unsupported
        ctx.reset_path(prefix)
        mod = importlib.import_module("harness." + job["module"])
        self.keeper.restore()
        env = self.SymEnv(self.scratch)
        ctx.active = True
        try:
            getattr(mod, job["fn"])(env, **job["params"])
            if ctx.dead is not None:
                raise ctx.dead
            return "done", env, None
        except Infeasible:
            return "infeasible", env, None
        except Budget as e:
            return "budget", env, str(e)
        except Hang as e:
            return "hang", env, str(e)
        except Unsupported as e:
            return "unsupported", env, str(e)
        except PathEnd as e:
            return "unsupported", env, str(e)
        except RecursionError:
            return "unsupported", env, "recursion"
        except (Exception, SystemExit) as e:
            if ctx.dead is not None:
                return ("infeasible" if isinstance(ctx.dead, Infeasible) else "unsupported"), env, str(ctx.dead)
            return "exc", env, e
        finally:
            ctx.active = False

    def job(self, job, deadline, slice_s):
        """explore; returns a result dict with the remaining prefixes"""
        ctx = self.ctx
        ctx.new_job(None)
        ctx.worklist = [tuple_prefix(p) for p in job.get("prefixes", [[]])]
        t0 = time.time()
        res = dict(paths=0, done=0, infeasible=0, budget=0, hang=0, unsupported=0, validated=0, mismatches=[],
                   violations=[], inconclusive=[], samples=[], checks=0, reasons={}, remaining=[], exc=0,
                   labels={}, killed=0)
        gc.disable()
        vlabels = set()
        while ctx.worklist:
            now = time.time()
            if now > deadline or (now - t0 > slice_s and res["paths"] > 0):
                break
            if self.rnd.random() < 0.25 and len(ctx.worklist) > 1:
                i = self.rnd.randrange(len(ctx.worklist))
                ctx.worklist[i], ctx.worklist[-1] = ctx.worklist[-1], ctx.worklist[i]
            prefix = ctx.worklist.pop()
            ctx.deadline = None
            status, env, info = self.run_path(job, prefix)
            self.npaths += 1
            if self.npaths % 200 == 0:
                gc.collect()
            res["paths"] += 1
            if status == "infeasible":
                res["infeasible"] += 1
                continue
            if status in ("budget", "unsupported", "hang"):
                res[status] += 1
                res["reasons"][str(info)] = res["reasons"].get(str(info), 0) + 1
            self.finish(job, status, env, info, res, vlabels)
        res["remaining"] = ctx.worklist
        ctx.worklist = []
        gc.enable()
        gc.collect()
        res["stats"] = ctx.stats
        res["funcs"] = sorted(self.rt.FUNC_NAMES[i] for i in ctx.funcs)
        res["t"] = time.time() - t0
        return res

    def req(self, job, inputs):
        return dict(module=job["module"], fn=job["fn"], params=job["params"], inputs=inputs)

    def finish(self, job, status, env, info, res, vlabels):
        from .core import f_and, f_not
        ctx = self.ctx
        # 1. the properties on this path: one query for all of them
        fs = [c for c in env.checks if c[0] == self.prop]
        res["checks"] += len(fs)
        for c in fs:
            res["labels"][c[2]] = res["labels"].get(c[2], 0) + 1
        bad = None
        if fs:
            allf = f_and([c[1] for c in fs])
            q = f_not(allf)
            r = ctx.z_check(q) if q is not False else self._feas()
            if q is False:
                r = False
            if r is None:
                res["inconclusive"].append("solver unknown")
            if r:
                for c in fs:
                    if c[1] is True:
                        continue
                    n = f_not(c[1])
                    if (c[2], c[3]) in vlabels:
                        continue
                    if ctx.z_check(n):
                        self.confirm(job, n, c, res, vlabels)
        if status == "hang" or status == "exc":
            self.confirm_end(job, status, info, res, vlabels)
            return
        if status != "done":
            return
        res["done"] += 1
        # 2. validation of the path against the real code
        k = res["validated"]
        if k < 40 or self.rnd.random() < 0.3:
            inputs = ctx.model(True, self.rnd)
            if not isinstance(inputs, dict):
                res["inconclusive"].append("no model for a completed path")
                return
            try:
                want = self.jsonable(ctx.subst(env.outs))
            except Exception as e:  # noqa
                want = None
                res["inconclusive"].append("subst: %r" % e)
            rep = self.native.ask(self.req(job, inputs))
            if "died" in rep:
                res["inconclusive"].append("native runner died")
                return
            if rep.get("hang"):
                self.report(job, inputs, ["hang", "the run does not terminate", None], rep, res, vlabels)
                return
            res["validated"] += 1
            mine = [f for f in rep["fails"] if f[0] == self.prop]
            for f in mine:
                self.report(job, inputs, [f[1], f[1], f[2]], rep, res, vlabels)
            if rep["skip"] or rep["exc"] or (not mine and want is not None and rep["outs"] != want):
                if len(res["mismatches"]) < 3:
                    res["mismatches"].append(dict(job=job["params"], inputs=inputs, want=want, got=rep["outs"], skip=rep["skip"],
                                                  exc=rep.get("tb")))
                else:
                    res["mismatches"].append(None)
            elif len(res["samples"]) < 2:
                res["samples"].append(dict(harness=job["module"] + "." + job["fn"], params=job["params"], inputs=inputs, outs=want))

    def _feas(self):
        return False

    def confirm(self, job, n, c, res, vlabels):
        """a solver model violates check c: reproduce it on the real code"""
        ctx = self.ctx
        for k in range(4):
            inputs = ctx.model(n, self.rnd if k else None)
            if not isinstance(inputs, dict):
                break
            rep = self.native.ask(self.req(job, inputs))
            if rep.get("hang"):
                self.report(job, inputs, ["hang", "the run does not terminate", None], rep, res, vlabels)
                return
            for f in rep.get("fails", []):
                if f[0] == self.prop and f[1] == c[2]:
                    self.report(job, inputs, [f[1], f[1], f[2]], rep, res, vlabels)
                    return
        if len(res["inconclusive"]) < 5:
            res["inconclusive"].append("counterexample to %r did not reproduce: %r" % (c[2], inputs))
        else:
            res["inconclusive"].append(None)

    def confirm_end(self, job, status, info, res, vlabels):
        ctx = self.ctx
        inputs = ctx.model(True)
        if not isinstance(inputs, dict):
            return
        rep = self.native.ask(self.req(job, inputs))
        if status == "hang":
            if rep.get("hang"):
                self.report(job, inputs, ["hang", "the run does not terminate", None], rep, res, vlabels)
            else:
                res["inconclusive"].append("hang not confirmed")
            return
        res["exc"] += 1
        if rep.get("exc") and rep["where"].startswith("/repo/"):
            self.report(job, inputs, ["exception", rep["exc"] + ": " + rep["msg"][:120], None], rep, res, vlabels)
        else:
            tb = "".join(traceback.format_exception(info))[-1500:]
            if len(res["inconclusive"]) < 5:
                res["inconclusive"].append("exception in harness or engine: %s / native: %s" % (tb, rep.get("tb")))
            else:
                res["inconclusive"].append(None)

    def report(self, job, inputs, what, rep, res, vlabels):
        key = (what[0], what[2])
        if key in vlabels:
            return
        vlabels.add(key)
        res["violations"].append(dict(label=what[0], detail=what[1], tag=what[2], module=job["module"], fn=job["fn"],
                                      params=job["params"], inputs=inputs, reply={k: rep.get(k) for k in ("outs", "fails", "exc", "tb", "hang")}))


def tuple_prefix(p):
    return [tuple(tuple(y) if isinstance(y, list) else y for y in x) for x in p]


def main(inq, outq, seed, prop, base):
    scratch = Path(tempfile.mkdtemp(prefix="w_", dir=base))
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get("SX_DEBUG"):
        os.dup2(null, 2)
    ex = None
    try:
        ex = Explorer(scratch, seed, prop)
        outq.put(("ready", os.getpid(), None))
        while True:
            m = inq.get()
            if m is None:
                break
            jid, job, deadline, slice_s = m
            try:
                outq.put(("res", jid, ex.job(job, deadline, slice_s)))
            except BaseException as e:  # noqa
                outq.put(("err", jid, "".join(traceback.format_exception(e))))
    except BaseException as e:  # noqa
        outq.put(("fatal", None, "".join(traceback.format_exception(e))))
    finally:
        if ex is not None:
            ex.native.stop()
