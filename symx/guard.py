"""Stops and records every attempt to change a file outside of the temporary folders made while it is on."""
import os
import sys
import threading

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
ONE = {"os.mkdir", "os.rmdir", "os.remove", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.setxattr", "os.removexattr", "os.mkfifo",
       "os.mknod", "shutil.rmtree", "os.chflags", "os.lchmod"}
TWO = {"os.rename", "os.link", "os.symlink"}
_state = None
_hooked = False
_busy = threading.local()
_ever = set()  # temporary folders made since the first run; the interpreter may remove one of an earlier run late


class Guard:
    def __init__(self, roots=()):
        self.roots = [os.path.realpath(r) for r in roots]
        self.bad = []

    def inside(self, p):
        p = os.fsdecode(p)
        d, n = os.path.split(os.path.abspath(p))
        p = os.path.join(os.path.realpath(d), n)
        return any(p == r or p.startswith(r + os.sep) for r in self.roots) or any(p == r or p.startswith(r + os.sep) for r in _ever)

    def test(self, what, p):
        if isinstance(p, int) or p is None:
            return
        if os.fsdecode(p).startswith("/dev/"):
            return
        if not self.inside(p):
            self.bad.append((what, os.fsdecode(p)))
            raise PermissionError(13, "outside of the temporary folders", os.fsdecode(p))

    def event(self, ev, args):
        if ev == "open":
            path, mode, flags = args
            w = any(c in mode for c in "wax+") if mode else bool((flags or 0) & WRITE)
            if w:
                self.test(ev, path)
        elif ev == "tempfile.mkdtemp":
            self.roots.append(os.path.realpath(os.path.dirname(args[0])) + os.sep + os.path.basename(args[0]))
        elif ev == "tempfile.mkstemp":
            self.roots.append(os.path.realpath(os.path.dirname(args[0])) + os.sep + os.path.basename(args[0]))
        elif ev in ONE:
            if ev in ("os.remove", "os.rmdir") and len(args) > 1 and args[1] not in (-1, None):
                return  # relative to a folder that is itself being removed
            self.test(ev, args[0])
        elif ev in TWO:
            if ev == "os.rename":
                self.test(ev, args[0])
            self.test(ev, args[1])


def _hook(ev, args):
    if ev == "tempfile.mkdtemp":
        _ever.add(os.path.realpath(os.path.dirname(args[0])) + os.sep + os.path.basename(args[0]))
    g = _state
    if g is None or getattr(_busy, "on", False):
        return
    if ev == "open" or ev.startswith("os.") or ev.startswith("tempfile.") or ev.startswith("shutil."):
        _busy.on = True
        try:
            g.event(ev, args)
        finally:
            _busy.on = False


def on(roots=()):
    global _state, _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True
    sys.dont_write_bytecode = True
    _state = Guard(roots)
    _ever.update(_state.roots)
    return _state


def off():
    global _state
    _state = None
