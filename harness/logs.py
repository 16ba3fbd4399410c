"""P30 the log file"""
import gc
import importlib
import json
import os
import sys

from . import lib
from .files import cli, fresh
from .lib import LETTERS, document, figure, hdr, nested, p, td, tr


class Log:
    """the log file of the program, configured by the module itself in the folder `d`"""

    def __init__(self, env, d):
        self.env = env
        self.d = d

    def __enter__(self):
        from loguru import logger
        self.logger = logger
        self.old = str(self.env.scratch)
        os.chdir(self.d)
        cls = type(logger)
        level = cls.level
        cls.level = lambda lg, name, *a, **k: level(lg, name)  # the levels exist already
        try:
            importlib.reload(sys.modules["spex.log._log_config"])
        finally:
            cls.level = level
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        self.logger.remove()
        gc.collect()

    def read(self):
        return (self.d / "spex.log").read_text()


def lines(env, text):
    """the entries of the log, after checking that there is one JSON object on each line"""
    env.check("P30", text == "" or text.endswith("\n"), "the log ends with a complete line")
    out = []
    for x in text.split("\n")[:-1]:
        ok, v = env.attempt(json.loads, x)
        env.check("P30", ok, "every line is JSON")
        if not ok:
            return None
        env.check("P30", isinstance(v, dict), "every line is an object")
        out.append(v)
    return out


def mine(frames):
    return [f["name"] for f in frames if f["file"].endswith("logs.py")]


CH = LETTERS + '"\n'


class Custom(Exception):
    pass


def fail(depth, err):
    if depth > 0:
        fail(depth - 1, err)
    raise err


def chained(depth, errs):
    """raises errs[0] caused by errs[1] caused by ..."""
    if len(errs) > 1:
        try:
            chained(depth, errs[1:])
        except Exception as e:
            raise errs[0] from e
    fail(depth, errs[0])


def h_serial(env, n=2, msgs=1, chain=1, long=0, depths=(0, 2)):
    """what is written for each message: one line with text, level and the whole chain of errors"""
    from spex.log import ULog, logger
    d = fresh(env, "log")
    (d / "spex.log").write_text("left over from an earlier run\n")
    want = []
    fill = "".join("abcdefg hijk\n"[i % 13] for i in range(long))
    with Log(env, d) as log:
        for i in range(msgs):
            kind = env.pick("k%d" % i, ["info", "ulog", "debug", "error", "exc", "bound", "values", "ctx"])
            m = "m" + env.text("m%d" % i, n if kind != "values" else 0, lib.ALL if kind in ("info", "bound") else CH)
            m = m + fill
            if kind == "error":
                m = m + env.pick("s%d" % i, ["{}", "{x}", "<b>"])
            if kind == "values":
                bound = env.pick("b%d" % i, [{"n": 0}, {"row": "", "n": 1}, {"ok": False}, {"x": None}, {"l": [], "d": {}}, {"f": 0.5, "t": True}])
                logger.bind(**bound).info(m)
                want.append((m, "INFO", bound, None))
            elif kind == "info":
                logger.info(m)
                want.append((m, "INFO", None, None))
            elif kind == "debug":
                logger.debug(m)
                want.append((m, "DEBUG", None, None))
            elif kind == "error":
                logger.error(m)
                want.append((m, "ERROR", None, None))
            elif kind == "ulog":
                lv = env.pick("l%d" % i, [ULog.INFO, ULog.SUCCESS, ULog.WARNING, ULog.ERROR, ULog.LINT, ULog.CRITICAL])
                logger.log(lv, m)
                want.append((m, lv, None, None))
            elif kind == "bound":
                logger.bind(row=m).warning(m)
                want.append((m, "WARNING", {"row": m}, None))
            elif kind == "ctx":
                with logger.contextualize(entity={"fig_id": m, "title": "T"}):
                    logger.warning("x")
                want.append(("x", "WARNING", {"entity": {"fig_id": m, "title": "T"}}, None))
            else:
                depth = env.pick("d%d" % i, list(depths))
                errs = [(env.pick("e%d" % i, [ValueError, KeyError, Custom]) if j == 0 else ValueError)("e%d" % j + env.text("t%d_%d" % (i, j), n, CH) + fill) for j in range(chain)]
                try:
                    chained(depth, errs)
                except Exception:
                    logger.exception("caught")
                want.append(("caught", "ERROR", None, (depth, errs)))
    got = lines(env, log.read())
    if got is None:
        return
    env.out("n", len(got))
    env.check("P30", len(got) == len(want), "every message is one entry")
    if len(got) != len(want):
        return
    for g, (m, lv, extra, exc) in zip(got, want):
        env.check("P30", g["msg"] == m, "the text of the message")
        env.check("P30", g["level"] == lv, "the level of the message")
        env.check("P30", "file" in g and "func" in g and "line" in g, "where the message comes from")
        if extra is not None:
            env.check("P30", g.get("extra") == extra, "what the message is about")
        env.check("P30", ("exception" in g) == (exc is not None), "the error")
        if exc is not None and "exception" in g:
            depth, errs = exc
            e = g["exception"]
            for j in range(len(errs)):
                last = j == len(errs) - 1
                env.check("P30", e["type"] == type(errs[j]).__name__, "the type of the error")
                if type(errs[j]) is not KeyError:  # its text is quoted
                    env.check("P30", e["msg"] == errs[j].args[0], "the message of the error")
                fr = mine(e["frames"])
                env.check("P30", fr[-1:] == ["fail" if last else "chained"] and fr.count("fail") == (depth + 1 if last else 0), "the traceback of the error")
                env.check("P30", all(isinstance(f["lineno"], int) for f in e["frames"]), "line numbers")
                env.check("P30", ("cause" in e) == (not last), "the cause of the error")
                if last or "cause" not in e:
                    break
                e = e["cause"]


KINDS = ["good", "cell", "nested", "deep", "value"]
SUBS = ["good", "subvalue", "deepvalue", "subhead"]


def doc(env, kinds, t):
    body = ""
    for i, k in enumerate(kinds):
        bad = [hdr(env, "Bits", "Description"), tr(td(p(env, "7:4")), td("x"))]
        cell = p(env, "Name (ABC): " + t[i])
        if k == "nested":
            cell += nested(bad)
        elif k == "subvalue":
            cell += nested([hdr(env, "Value", "Description"), tr(td(p(env, "1h")), td("x"))])
        elif k == "deepvalue":
            cell += nested([hdr(env, "Bits", "Description"), tr(td(p(env, "7:4")), td(p(env, "Inner (IN): t") + nested([hdr(env, "Value", "Description"), tr(td(p(env, "1h")), td("x"))])))])
        elif k == "subhead":
            cell += nested([tr("<th colspan='x'>" + p(env, "Bits") + "</th>", td(p(env, "Description"), tag="th")), tr(td(p(env, "7:4")), td(p(env, "Inner (IN): t")))])
        elif k == "deep":
            cell += nested([hdr(env, "Value", "Description"), tr(td(p(env, "1h")), td(p(env, "A: b") + nested(bad)))])
        rows = [hdr(env, "Bits", "Description"), tr(td(p(env, "7:4")), td("x" if k == "cell" else cell))]
        if k == "value":
            rows = [hdr(env, "Value", "Description"), tr(td(p(env, "1h")), td("x"))]
        body += figure(env, "Figure %d: T" % (i + 1) + t[i], rows)
    return document(env, body)


def h_run(env, n=2, k=1, kinds=None, sym=1):
    """every figure that fails, and every error that ends the command, is in the log with its traceback"""
    d = fresh(env, "log")
    ks = [env.pick("k%d" % i, kinds or KINDS) for i in range(n)]
    t = [env.text("t%d" % i, k if i < sym else 0, CH) for i in range(n)]
    (d / "doc.html").write_text(doc(env, ks, t))
    skip = env.flag("skip")
    bad = env.flag("bad")
    verbose = env.flag("verbose")
    if bad:
        (d / "bad.html").write_text("<html><p></html>")
    with Log(env, d) as log:
        st = cli(env, (["-s"] if skip else []) + (["--verbose"] if verbose else []) + ["-o", str(d / "out"), str(d / "doc.html")] + ([str(d / "bad.html")] if bad else []))
    got = lines(env, log.read())
    if got is None:
        return
    env.out("st", st)
    failing = [i for i in range(n) if ks[i] != "good"]
    if not skip:
        failing = failing[:1]
    withexc = [g for g in got if "exception" in g]
    for i in failing:
        hits = [g for g in withexc if g.get("extra", {}).get("entity", {}).get("fig_id", "").split("_")[0] == str(i + 1)]
        env.check("P30", len(hits) > 0, "a figure that fails is in the log with its error")
        for g in hits:
            fr = [f for f in g["exception"]["frames"] if "/src/spex/" in f["file"]]
            env.check("P30", len(fr) > 0, "the entry has the traceback")
    for i in range(n):
        if i not in failing:
            hits = [g for g in withexc if g.get("extra", {}).get("entity", {}).get("fig_id", "").split("_")[0] == str(i + 1)]
            env.check("P30", hits == [], "no error is logged for a figure that does not fail")
    ends = bool(failing) and not skip or bad
    top = [g for g in withexc if "extra" not in g or "entity" not in g["extra"]]
    env.check("P30", (len(top) > 0) == ends, "an error that ends the command is in the log")
    env.check("P30", (st != 0) == ends, "status")
