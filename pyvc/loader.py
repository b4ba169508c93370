"""Loads /repo/paf (current working tree) and indexes its function sources.

The modules are imported natively (so classes, enums, tables, decorators are
the real ones); the bodies of functions are looked up as AST, parsed from the
same files on every run.  paf.xcm needs libxcm.so, which is absent: it is
replaced by a stand-in with the same names.
"""
import ast
import errno
import importlib
import os
import sys
import types

REPO = os.environ.get("PAF_REPO", "/repo")


def fake_xcm():
    m = types.ModuleType("paf.xcm")

    # as in the real module: error = socket.error
    error = OSError
    m.error = error
    m.SO_RECEIVABLE = 1
    m.SO_SENDABLE = 2
    m.SO_ACCEPTABLE = 4

    def nope(*a, **k):
        raise error(errno.ECONNREFUSED)
    m.connect = nope
    m.server = nope
    return m


class CFunction:
    """A function of the (absent) C library."""
    def __init__(self, name):
        self.__name__ = name

    def __call__(self, *a):
        return None


class CLibrary:
    def __init__(self, *a, **k):
        self.__dict__["use_errno"] = k.get("use_errno", False)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = CFunction(name)
        setattr(self, name, f)
        return f


def real_xcm():
    """The real paf/xcm.py, on top of a library without code."""
    import ctypes
    import importlib.util
    fn = os.path.join(os.path.realpath(REPO), "paf", "xcm.py")
    spec = importlib.util.spec_from_file_location("paf._real_xcm", fn)
    mod = importlib.util.module_from_spec(spec)
    old = ctypes.CDLL
    ctypes.CDLL = CLibrary
    try:
        spec.loader.exec_module(mod)
    finally:
        ctypes.CDLL = old
    return mod


class Index:
    def __init__(self):
        self.by_line = {}     # (filename, firstlineno, name) -> [node]
        self.modules = {}
        self.files = set()
        self.classes = {}
        self.stores = {}      # (module, class) -> attributes set on self

    def attrs(self, cls):
        """Attributes that the methods of a class set on their object."""
        out = set()
        for k in cls.__mro__:
            out |= self.stores.get((k.__module__, k.__qualname__), set())
            # set on some object from outside, like a.b.c = ...
            out |= self.stores.get((k.__module__, "*"), set())
        return out

    def load(self, name):
        mod = real_xcm() if name == "xcm" else \
            importlib.import_module("paf." + name)
        fn = os.path.realpath(mod.__file__)
        if fn not in self.files:
            self.files.add(fn)
            tree = ast.parse(open(fn).read(), fn)
            self.stores[(mod.__name__, "*")] = {
                n.attr for n in ast.walk(tree)
                if isinstance(n, ast.Attribute) and
                isinstance(n.ctx, ast.Store) and
                not (isinstance(n.value, ast.Name) and n.value.id == "self")}
            for node in ast.walk(tree):
                if isinstance(node, ast.ClassDef):
                    self.stores[(mod.__name__, node.name)] = {
                        n.attr for n in ast.walk(node)
                        if isinstance(n, ast.Attribute) and
                        isinstance(n.ctx, ast.Store) and
                        isinstance(n.value, ast.Name) and
                        n.value.id == "self"}
                if isinstance(node, ast.FunctionDef):
                    line = min([node.lineno] + [d.lineno for d in
                                                node.decorator_list])
                    self.by_line.setdefault((fn, line, node.name),
                                            []).append(node)
                elif isinstance(node, ast.Lambda):
                    self.by_line.setdefault((fn, node.lineno, "<lambda>"),
                                            []).append(node)
        self.modules[name] = mod
        return mod

    def find(self, code):
        fn = os.path.realpath(code.co_filename)
        if fn not in self.files:
            return None
        nodes = self.by_line.get((fn, code.co_firstlineno, code.co_name), [])
        if len(nodes) == 1:
            return nodes[0]
        return None


MODULES = ["logging", "filter", "timer", "props", "proto", "sd", "conf",
           "eventloop", "client", "server", "xcm"]


def load_all(names=None):
    sys.dont_write_bytecode = True
    for p in (REPO,):
        if p not in sys.path:
            sys.path.insert(0, p)
    if "paf.xcm" not in sys.modules:
        import paf
        assert os.path.realpath(paf.__file__).startswith(
            os.path.realpath(REPO)), paf.__file__
        sys.modules["paf.xcm"] = fake_xcm()
        paf.xcm = sys.modules["paf.xcm"]
    idx = Index()
    for n in (names or MODULES):
        idx.load(n)
    return idx
