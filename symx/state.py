"""Every path starts from the module state the program starts from: what earlier paths left in globals,
class attributes and caches of the modules under test is undone."""
import importlib
import pkgutil
import sys
import types

KINDS = (dict, list, set)


class Keeper:
    def __init__(self, packages):
        self.packages = packages
        self.seen = set()
        self.spaces = []  # (owner, {name: value})
        self.boxes = []  # (container, copy)
        self.caches = []

    def load(self, package):
        pk = importlib.import_module(package)
        for m in pkgutil.walk_packages(pk.__path__, package + "."):
            if m.name.endswith("__main__"):
                continue
            try:
                importlib.import_module(m.name)
            except Exception:
                pass

    def take(self):
        """record the modules loaded since the last time"""
        for name, m in list(sys.modules.items()):
            if name in self.seen or not any(name == p or name.startswith(p + ".") for p in self.packages):
                continue
            self.seen.add(name)
            self.space(m, name)

    def space(self, owner, mod):
        d = {k: v for k, v in vars(owner).items() if not (k.startswith("__") and k.endswith("__"))}
        keep = {}
        for k, v in d.items():
            if isinstance(v, types.ModuleType):
                continue
            keep[k] = v
            self.box(v, 0)
            f = v
            if isinstance(f, (staticmethod, classmethod)):
                f = f.__func__
            if isinstance(f, property):
                f = f.fget
            if hasattr(f, "cache_clear") and callable(f.cache_clear):
                self.caches.append(f)
            if isinstance(f, types.FunctionType):
                for x in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()):
                    self.box(x, 0)
                if vars(f):
                    self.box(vars(f), 0)
            if isinstance(v, type) and v.__module__ == mod and (v, "c") not in self.seen:
                self.seen.add((v, "c"))
                self.space(v, mod)
        self.spaces.append((owner, keep))

    def box(self, v, depth):
        if type(v) in KINDS and id(v) not in self.seen and depth < 4:
            self.seen.add(id(v))
            self.boxes.append((v, type(v)(v)))
            for x in list(v.values() if type(v) is dict else v):
                self.box(x, depth + 1)

    def restore(self):
        for f in self.caches:
            f.cache_clear()
        for box, copy in self.boxes:
            if type(box) is list:
                if len(box) != len(copy) or any(a is not b for a, b in zip(box, copy)):
                    box[:] = copy
            elif type(box) is dict:
                if len(box) != len(copy) or any(a is not b or p is not q for (a, p), (b, q) in zip(box.items(), copy.items())):
                    box.clear()
                    box.update(copy)
            elif len(box) != len(copy) or not all(x in copy for x in box):
                box.clear()
                box.update(copy)
        for owner, keep in self.spaces:
            now = vars(owner)
            for k, v in keep.items():
                if now.get(k) is not v:
                    try:
                        setattr(owner, k, v)
                    except Exception:
                        pass
