"""C25: the real paf/xcm.py on a scripted libxcm (xcmstub.c)."""
import atexit
import ctypes
import errno
import gc
import importlib.util
import shutil
import struct
import subprocess
import tempfile
from .base import *

_lib = None


def library():
    """The stub, under the name that xcm.py looks for."""
    global _lib
    if _lib is None:
        d = tempfile.mkdtemp(prefix="xcmstub")
        atexit.register(shutil.rmtree, d, True)
        so = os.path.join(d, "libxcm.so.0")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1",
                        "-Wl,-soname,libxcm.so.0", "-o", so,
                        os.path.join(HERE, "xcmstub.c")], check=True)
        _lib = ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)
        _lib.stub_log.restype = ctypes.c_char_p
        _lib.stub_script.argtypes = [ctypes.c_int] * 4 + [
            ctypes.c_char_p, ctypes.c_size_t]
    return _lib


def module():
    library()
    fn = os.path.join(os.path.realpath(loader.REPO), "paf", "xcm.py")
    spec = importlib.util.spec_from_file_location("paf._xcm", fn)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


ERRNOS = [errno.EAGAIN, errno.ECONNRESET, errno.EPIPE, errno.EINVAL,
          errno.ETIMEDOUT, errno.ENOENT, errno.EADDRINUSE, errno.ENOMEM,
          errno.EOVERFLOW, 1]
ATTRS = ["xcm.blocking", "tls.cert_file", "tcp.keepalive", "a", "b\u00e5"]
VALUES = [True, False, 0, 1, -1, 7, 2 ** 40, -2 ** 63, 2 ** 63 - 1, "", "x",
          "/a/b", "\u00e5\u4e2d"]
BAD = [None, 1.5, [1]]
OPS = ["send", "receive", "close", "finish", "set_blocking", "is_blocking",
       "set_target", "fileno", "set_attr", "get_attr", "accept", "del"]


class XcmHarness(Harness):
    name = "transport-histories"
    rule = "histories of up to 12 operations on sockets made by connect, " \
        "server and accept, each with a scripted result of libxcm; " \
        "non-trivial: at least one operation after the creation"

    def __init__(self, mods, prop):
        Harness.__init__(self, mods, prop)
        self.x = module()

    def result(self, rng):
        fail = rng.choice(ERRNOS) if rng.random() < .35 else 0
        return [fail, rng.choice([0, 2, 11]), rng.choice([0, 0, 1, 5, 7]),
                rng.choice([1, 1, 2, 3, 4, 5]),
                rng.choice(["", "00", "01", "61", "6162", "00ff00", "c3a5",
                            "6100", "ff" * 8, "80" + "00" * 7,
                            "61" * rng.choice([100, 65534, 65535])])]

    def attrs(self, rng):
        if rng.random() < .3:
            return None
        return [[n, rng.choice(VALUES if rng.random() < .92 else BAD)]
                for n in rng.sample(ATTRS, rng.randint(0, 4))]

    def gen(self, rng):
        ops = []
        for i in range(rng.randint(1, 12)):
            o = rng.choice(OPS)
            a = []
            if o == "send":
                a = [rng.choice(["", "61", "00ff", "7b" * 50, "00" * 3])]
            elif o == "set_blocking":
                a = [rng.random() < .5]
            elif o == "set_target":
                a = [rng.choice([0, 1, 2, 3, 4])]
            elif o == "set_attr":
                a = [rng.choice(ATTRS), rng.choice(
                    VALUES if rng.random() < .9 else BAD)]
            elif o == "get_attr":
                a = [rng.choice(ATTRS)]
            elif o == "accept":
                a = [self.attrs(rng)]
            ops.append([o, rng.randint(0, 3), a, self.result(rng)])
        return {"first": [rng.choice(["connect", "server"]), rng.choice(
            ["ux:a", "tcp:1.2.3.4:5", "\u00e5"]), self.attrs(rng),
            rng.choice([0, 0, 0, 1, 2]), self.result(rng)], "ops": ops}

    def fixed(self):
        ok = [0, 0, 0, 3, "6162"]
        first = ["server", "ux:a", None, 0, ok]
        con = ["connect", "ux:a", None, 0, ok]
        out = []
        for f in (first, con):
            for o in OPS:
                a = {"send": ["61"], "set_blocking": [True],
                     "set_target": [1], "set_attr": ["a", True],
                     "get_attr": ["a"], "accept": [None]}.get(o, [])
                for r in (ok, [11, 2, 0, 3, ""], [0, 11, 5, 1, "01"],
                          [0, 11, 0, 2, "80" + "00" * 7],
                          [0, 11, 0, 4, "0061"], [0, 0, 0, 5, "61" * 8]):
                    out.append({"first": f, "ops": [[o, 0, a, r]]})
                    out.append({"first": f, "ops": [
                        ["close", 0, [], ok], [o, 0, a, r]]})
        return out

    def script(self, r):
        d = bytes.fromhex(r[4])
        self.lib.stub_script(r[0], r[1], r[2], r[3], d, len(d))

    def log(self):
        s = self.lib.stub_log().decode("utf-8", "surrogateescape")
        self.lib.stub_reset_log = None
        new = s[self.pos:]
        self.pos = len(s)
        return [x for x in new.split("\n") if x]

    def run(self, case):
        self.lib = library()
        self.lib.stub_reset()
        self.pos = 0
        self.socks = []          # [socket or None, id, open, cls]
        kind, addr, attrs, flags, res = case["first"]
        x = self.x
        try:
            self.make(kind, lambda kw: getattr(x, kind)(
                addr, **dict(kw, **({"flags": flags} if kind == "connect" and
                                    flags else {}))),
                "%s %s 1" % (kind, addr), attrs, res,
                flags if kind == "connect" else 0,
                x.ConnectionSocket if kind == "connect" else x.ServerSocket)
            for o in case["ops"]:
                self.op(*o)
        finally:
            self.script([0, 0, 0, 1, ""])
            for s in self.socks:
                s[0] = None
            gc.collect()
            left = self.log()
            want = sorted("close %d" % s[1] for s in self.socks if s[2])
        check(sorted(left) == want, "when the sockets are gone, libxcm saw",
              left, "but should see", want)

    def made(self, lines):
        """attributes added, and the other calls in order"""
        adds = sorted(ln[4:] for ln in lines if ln.startswith("add "))
        return adds, [ln for ln in lines if not ln.startswith("add ")]

    def enc(self, v):
        if isinstance(v, bool):
            return "bool %d" % v
        if isinstance(v, int):
            return "int %d" % v
        if isinstance(v, str):
            return "str %s" % v

    def make(self, kind, fn, line, attrs, res, flags, cls):
        self.script(res)
        d = dict(attrs or [])
        bad = any(self.enc(v) is None for v in d.values())
        want = dict(d)
        if flags == 1:
            want["xcm.blocking"] = False
        got = exc = None
        try:
            got = fn({} if attrs is None else {"attrs": d})
        except Exception as e:
            exc = e
            e.__traceback__ = None
        lines = self.log()
        adds, others = self.made(lines)
        if bad or flags not in (0, 1):
            # which of the two is noticed first is not specified
            check(isinstance(exc, (TypeError, ValueError)), kind,
                  "with bad arguments gives", repr(exc or got))
            check(line not in others, kind, "though refused")
            check(others.count("map") == others.count("free"), kind,
                  "refused, calls libxcm as", others)
            return
        check(others == ["map", line, "free"], kind, "calls libxcm as",
              others, "instead of", ["map", line, "free"])
        if flags == 1 and "xcm.blocking" in d:
            last = [ln for ln in lines if ln.startswith(
                "add xcm.blocking ")]
            check(last[-1:] == ["add xcm.blocking bool 0"], "blocking:",
                  last)
        else:
            w = sorted("%s %s" % (n, self.enc(v)) for n, v in want.items())
            check(adds == w, kind, "passes attributes", adds, "instead of",
                  w)
        if res[0]:
            self.failed(kind, exc, got, res[0])
        else:
            check(exc is None and type(got) is cls, kind, "gives",
                  repr(exc or got))
            self.socks.append([got, len(self.socks), True, cls])

    def failed(self, what, exc, got, e):
        check(isinstance(exc, OSError) and exc.errno == e, what,
              "gives", repr(exc if exc is not None else got),
              "although libxcm failed with errno", e)

    def op(self, name, i, args, res):
        if not self.socks:
            return
        s = self.socks[i % len(self.socks)]
        if s[0] is None:
            return
        if name == "accept":
            if not hasattr(s[0], "accept"):
                return
            if s[2]:
                self.make("accept", lambda kw: s[0].accept(**kw),
                          "accept %d 1" % s[1], args[0], res, 0,
                          self.x.ConnectionSocket)
                return
        if name == "send" or name == "receive":
            if not hasattr(s[0], name):
                return
        self.script(res)
        if name == "del":
            s[0] = None
            gc.collect()
            lines = self.log()
            want = ["close %d" % s[1]] if s[2] else []
            s[2] = False
            check(lines == want, "a socket that goes away calls", lines,
                  "instead of", want)
            return
        a = list(args)
        if name == "send":
            a = [bytes.fromhex(args[0])]
        if name == "accept":
            a = []
        got = exc = None
        try:
            got = getattr(s[0], name)(*a)
        except Exception as e:
            exc = e
            e.__traceback__ = None
        lines = self.log()
        if not s[2]:
            check(not lines, name, "on a closed socket calls libxcm:", lines)
            check(exc is not None or name == "close", name,
                  "on a closed socket gives", repr(got))
            return
        n = s[1]
        if name == "set_attr":
            e = self.enc(args[1])
            if e is None:
                check(isinstance(exc, TypeError) and not lines, name,
                      "of a bad type gives", repr(exc or got), lines)
                return
            want = "set %d %s %s" % (n, args[0], e)
        else:
            want = {
                "send": lambda: "send %d %d %s" % (
                    n, len(args[0]) // 2, args[0]),
                "receive": lambda: None,
                "set_target": lambda: "await %d %d" % (n, args[0]),
                "set_blocking": lambda: "set_blocking %d %d" % (n, args[0]),
                "fileno": lambda: "fd %d" % n,
                "get_attr": lambda: "get %d %s" % (n, args[0]),
            }.get(name, lambda: "%s %d" % (name, n))()
        if name == "receive":
            ok = len(lines) == 1 and lines[0].startswith("receive %d " % n)
            check(ok and int(lines[0].split()[2]) >= 65535, "receive calls "
                  "libxcm as", lines)
        else:
            check(lines == [want], name, "calls libxcm as", lines,
                  "instead of", [want])
        if name == "close":
            s[2] = False
            check(exc is None, "close gives", repr(exc))
            return
        if name == "is_blocking":
            check(exc is None and got is bool(res[2]), name, "gives",
                  repr(exc or got), "instead of", bool(res[2]))
            return
        data = bytes.fromhex(res[4])
        if res[0]:
            if name == "set_target":
                check(exc is not None, name, "fails silently")
            else:
                self.failed(name, exc, got, res[0])
            return
        if name == "get_attr":
            self.attr(exc, got, res[3], data)
            return
        check(exc is None, name, "gives", repr(exc),
              "although libxcm succeeded")
        if name == "receive":
            check(type(got) is bytes and got == data, "received",
                  repr(got[:40]), len(got), "instead of", repr(data[:40]),
                  len(data))
        elif name == "fileno":
            check(got == res[2], name, "gives", got, "instead of", res[2])

    def attr(self, exc, got, ty, data):
        if len(data) > 8192:
            return
        if ty == 1:
            if len(data) == 1 and data in (b"\0", b"\1"):
                check(exc is None and got is (data == b"\1"),
                      "bool attribute", repr(exc or got), "instead of", data)
        elif ty == 2:
            if len(data) == 8:
                w = struct.unpack("=q", data)[0]
                check(exc is None and type(got) is int and got == w,
                      "int attribute", repr(exc or got), "instead of", w)
        elif ty == 3:
            t = data.split(b"\0")[0]
            if b"\0" in data:
                try:
                    w = t.decode()
                except ValueError:
                    return
                check(exc is None and got == w, "string attribute",
                      repr(exc or got), "instead of", repr(w))
        elif ty == 4:
            check(exc is None and type(got) is bytes and got == data,
                  "binary attribute", repr(exc or got), "instead of",
                  repr(data))
        else:
            check(exc is not None, "attribute of an unknown type gives",
                  repr(got))


HARNESSES = {"C25": [XcmHarness]}
