"""C27: the real paf/daemon.py, with stand-ins for the servers, the event
loop and the log."""
import contextlib
import copy
import importlib
import inspect
import io
import logging
import logging.handlers
import shutil
import socket
import tempfile
from .base import *

LEVELS = ["debug", "info", "warning", "error", "critical"]
ADDRS = ["ux:a", "tcp:*:4711", "tls:[::]:7", "ux:b c", "x", "a,b", ""]
VALUES = {"s": [None], "n": [None], "v": [None], "h": [None],
          "o": ["/tmp/x.log", "a b", ""],
          "u": ["/dev/log", "/other"],
          "l": LEVELS + ["loud", ""],
          "y": ["daemon", "user", "local0", "local7", "nobody", ""],
          "b": ["0", "1", "17", "x", ""],
          "x": ["0", "1", "4096", "1M", ""],
          "c": ["0", "1", "7", "100", "many", "", "-1"],
          "m": ["ux:a", "ux:a+ux:b", "a+b+c", "a+", "+"],
          "r": ["hooks.one", "hooks.two", "no.such", "hooks.bad"]}
FLAGS = "snvh"
BAD = {"l": ["loud", ""], "y": ["nobody", ""], "b": ["x", ""],
       "x": ["1M", ""], "c": ["many", "", "-1"]}
FILES = [
    None, None, "",
    "domains:\n  - addrs:\n    - ux:f\n",
    "domains:\n  - name: one\n    addrs: [ux:f, ux:g]\n    idle:\n"
    "      min: 5\n      max: 9\n  - name: two\n    sockets:\n"
    "      - addr: tls:*:5\n        tls:\n          cert: /c\n"
    "    protocol_version:\n      min: 3\n      max: 3\n",
    "log:\n  console: true\n  syslog: false\n  filter: debug\n"
    "  facility: local3\n  log_file: /f.log\n  log_file_backup: 4\n"
    "  log_file_max_size: 99\n  syslog_socket: /s\n"
    "resources:\n  total:\n    clients: 5\n    services: 6\n"
    "  user:\n    clients: 2\n    subscriptions: 3\n"
    "domains:\n  - addrs: [ux:f]\n",
    "resources:\n  total:\n    clients: 5\n",
    "domains: 7\n", "log:\n  filter: loud\n", "missing"]


class Fail(Exception):
    pass


class End(BaseException):
    """the event loop has been entered, and left otherwise"""


def limits(o):
    return tuple(sorted((k, v) for k, v in vars(o).items()))


def plain(conf):
    """the contents of a configuration"""
    return {"log": dict(vars(conf.log)),
            "user": {k.name: v for k, v in
                     conf.resources.user.resources.items()},
            "total": {k.name: v for k, v in
                      conf.resources.total.resources.items()},
            "domains": [(d.name, [(s.addr, dict(s.tls_attrs))
                                  for s in d.sockets],
                         limits(d.proto_version_limit),
                         limits(d.idle_limit)) for d in conf.domains]}


class DaemonHarness(Harness):
    name = "server-start"
    rule = "command lines of up to 6 options and 3 addresses, with and " \
        "without a configuration file; servers whose creation, hook or event " \
        "loop fails; non-trivial: some server is started"

    def __init__(self, mods, prop):
        Harness.__init__(self, mods, prop)
        self.d = importlib.import_module("paf.daemon")
        self.p = importlib.import_module("paf")

    def gen(self, rng):
        opts = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
            o = rng.choice("snoublyxcccmmmmr" + ("vh" if rng.random() < .1
                                                 else ""))
            v = rng.choice(VALUES[o])
            if v in BAD.get(o, []) and rng.random() < .8:
                v = VALUES[o][1]
            if o == "r" and rng.random() < .5:
                v = "hooks.one"
            opts.append([o, v])
        files = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            files.append(rng.choice(FILES[2:7] if rng.random() < .8
                                    else FILES[2:]))
            opts.insert(rng.randint(0, len(opts)), ["f", len(files) - 1])
        if rng.random() < .03:
            opts.append(["q", None])
        return {"opts": opts, "files": files, "style": rng.randint(0, 99),
                "args": [rng.choice(ADDRS[:6]) for _ in
                         range(rng.choice([0, 0, 1, 1, 2, 3]))],
                "fail": rng.choice([None] * 6 + [["create", 0], ["create", 1],
                                                 ["loop", 0], ["log", 0]])}

    def fixed(self):
        out = []

        def c(opts, args=(), files=(), fail=None, style=0):
            out.append({"opts": [list(x) for x in opts],
                        "files": list(files), "args": list(args),
                        "fail": fail, "style": style})
        for o, vs in sorted(VALUES.items()):
            for v in vs:
                for f in FILES[2:6]:
                    c([(o, v), ("f", 0)], [], [f])
                    c([("f", 0), (o, v)], ["ux:a"], [f])
                c([(o, v)], ["ux:a"])
        for f in FILES[2:]:
            c([("f", 0)], [], [f])
            c([("f", 0)], ["ux:z"], [f])
            c([("f", 0), ("f", 1)], [], [f, FILES[4]])
            c([("f", 0), ("f", 1)], [], [FILES[4], f])
            c([("m", "a+b"), ("f", 0)], [], [f])
            c([("m", "a+b"), ("f", 0), ("m", "c")], ["d", "e"], [f])
        for x in (["create", 0], ["create", 1], ["create", 2], ["loop", 0],
                  ["log", 0]):
            c([("m", "a+b")], ["c", "d"], fail=x)
            c([("f", 0)], [], [FILES[4]], fail=x)
        c([])
        c([("q", None)], ["a"])
        c([("c", "5"), ("c", "0")], ["a"])
        c([("c", "0"), ("c", "5")], ["a"])
        c([("l", "debug"), ("l", "error"), ("y", "user"), ("y", "local1")],
          ["a"])
        c([("r", "hooks.one"), ("r", "hooks.two")], ["a", "b"])
        c([("r", "hooks.two"), ("r", "hooks.one")], ["a", "b"])
        return out

    def argv(self, case, names):
        out = ["pafd"]
        st = case["style"]
        for i, (o, v) in enumerate(case["opts"]):
            if o == "f":
                v = names[v]
            if v is None:
                if st % 5 == 1 and len(out) > 1 and out[-1][:1] == "-" and \
                   out[-1][1:] and set(out[-1][1:]) <= set(FLAGS):
                    out[-1] += o
                else:
                    out.append("-" + o)
            elif v and (st + i) % 3 == 1:
                out.append("-%s%s" % (o, v))
            else:
                out += ["-" + o, v]
        if st % 7 == 3 or case["args"] and case["args"][0][:1] == "-":
            out.append("--")
        return out + list(case["args"])

    def want(self, case, names):
        """what is to happen: None (refused), a status, or a configuration"""
        opts = [(o, names[v] if o == "f" else v) for o, v in case["opts"]]
        if any(o == "q" for o, v in opts):
            return None
        files = [v for o, v in opts if o == "f"]
        conf = self.m["conf"]
        if files:
            try:
                c = conf.load(files[-1])
            except Exception:
                return None
        else:
            c = conf.default()
        w = plain(c)
        w["hook"] = None
        domains = [[a] for a in case["args"]]
        for o, v in opts:
            log = w["log"]
            if v in BAD.get(o, []):
                return None
            if o in "vh":
                return 0
            if o == "m":
                domains.append(v.split("+"))
            elif o == "r":
                w["hook"] = v
            elif o == "c":
                w["total"]["CLIENT"] = int(v) or None
            elif o == "s":
                log["console"] = True
            elif o == "n":
                log["syslog"] = False
            elif o == "o":
                log["log_file"] = v
            elif o == "b":
                log["log_file_backup"] = int(v)
            elif o == "x":
                log["log_file_max_size"] = int(v)
            elif o == "u":
                log["syslog_socket"] = v
            elif o == "l":
                log["filter"] = getattr(logging, v.upper())
            elif o == "y":
                log["facility"] = getattr(logging.handlers.SysLogHandler,
                                          "LOG_" + v.upper())
        if domains:
            d = conf.default().add_domain()
            w["domains"] = [(None, [(a, {}) for a in x],
                             limits(d.proto_version_limit),
                             limits(d.idle_limit)) for x in domains]
        return w if w["domains"] else None

    def nontrivial(self, case):
        return bool(case["args"]) or any(o in "mf" for o, v in case["opts"])

    def run(self, case):
        d = tempfile.mkdtemp(prefix="daemon")
        m = self.m
        spots = [(m["server"], "Server"), (m["eventloop"], "EventLoop"),
                 (m["logging"], "configure")]
        keep = [(o, n, getattr(o, n)) for o, n in spots]
        hooks = {k: sys.modules.get(k) for k in ("hooks", "no")}
        out, err = io.StringIO(), io.StringIO()
        try:
            names = []
            for i, f in enumerate(case["files"]):
                n = os.path.join(d, "conf%d" % i)
                names.append(n)
                if f != "missing":
                    with open(n, "w") as fd:
                        fd.write(f or "")
            want = self.want(case, names)
            log = self.stand_ins(case, [k[2] for k in keep])
            status = "none"
            with contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(err):
                try:
                    self.d.main(self.argv(case, names))
                except SystemExit as e:
                    status = e.code
                except End:
                    status = "end"
                except Exception as e:
                    # the interpreter's status for an uncaught exception
                    status = "%s: %s" % (type(e).__name__, e)
            self.judge(case, want, log, status)
        finally:
            for o, n, v in keep:
                setattr(o, n, v)
            for k, v in hooks.items():
                sys.modules.pop(k, None)
                if v is not None:
                    sys.modules[k] = v
            shutil.rmtree(d, True)

    def stand_ins(self, case, real):
        m, log = self.m, []
        fail = case["fail"] or [None, 0]
        ssig = inspect.signature(real[0])
        csig = inspect.signature(real[2])
        made = []

        class Server:
            def __init__(s, *a, **k):
                b = ssig.bind(*a, **k)
                b.apply_defaults()
                if fail[0] == "create" and len(made) == fail[1]:
                    raise Fail("create")
                s.args = dict(b.arguments)
                made.append(s)
                log.append(("server", s))

            def terminate(s):
                log.append(("terminate", s))

            def close_server_socks(s):
                log.append(("close", s))

        class EventLoop:
            def __init__(s):
                log.append(("event loop", s))

            def run(s):
                log.append(("run", s))
                if fail[0] == "loop":
                    raise Fail("loop")

        def configure(*a, **k):
            b = csig.bind(*a, **k)
            b.apply_defaults()
            log.append(("log", dict(b.arguments)))
            if fail[0] == "log":
                raise Fail("log")
        m["server"].Server = Server
        m["eventloop"].EventLoop = EventLoop
        m["logging"].configure = configure

        class Hooks:
            @staticmethod
            def one(servers):
                log.append(("hook", "hooks.one", list(servers)))

            @staticmethod
            def two(servers):
                log.append(("hook", "hooks.two", list(servers)))

            @staticmethod
            def bad(servers):
                raise Fail("hook")
        sys.modules["hooks"] = Hooks
        sys.modules["no"] = None
        return log

    def judge(self, case, want, log, status):
        kinds = [x[0] for x in log]
        servers = [x[1] for x in log if x[0] == "server"]
        ran = [x for x in log if x[0] == "run"]
        if want is None or want == 0:
            check(not servers and not ran, "servers are started in spite of",
                  case["opts"])
            if want == 0:
                check(status in (0, None), "status", status)
            else:
                check(status not in (0, None, "none"),
                      "status", status, "though nothing can be started")
            return
        fail = case["fail"] or [None, 0]
        logs = [x[1] for x in log if x[0] == "log"]
        check(len(logs) == 1, "the log is configured", len(logs), "times")
        check("server" not in kinds or kinds.index("log") <
              kinds.index("server"), "servers are made before the log is "
              "configured")
        w = want["log"]
        got = dict(logs[0])
        got.pop("syslog_ident", None)
        exp = {"console": w["console"], "log_file": w["log_file"],
               "log_file_backup": w["log_file_backup"],
               "log_file_max_size": w["log_file_max_size"],
               "syslog": w["syslog"], "syslog_socket": w["syslog_socket"],
               "syslog_facility": w["facility"], "filter_level": w["filter"]}
        check(got == exp, "the log is configured with", got, "instead of",
              exp)
        if fail[0] == "log":
            check(not servers and not ran and status not in (0, None, "none"),
                  "servers are started without a log, status", status)
            return
        n = len(want["domains"])
        failed = fail[0] == "create" and fail[1] < n or fail[0] == "loop" or \
            want["hook"] in ("no.such", "hooks.bad")
        loops = [x[1] for x in log if x[0] == "event loop"]
        exp = sorted(map(repr, want["domains"]))
        if fail[0] == "create" and fail[1] < n:
            check(not ran, "the event loop is run though a server failed")
        else:
            got = sorted(repr((
                s.args["name"], [(x.addr, dict(x.tls_attrs))
                                 for x in s.args["sockets"]],
                limits(s.args["proto_version_limit"]),
                limits(s.args["idle_limit"]))) for s in servers)
            check(got == exp, "the servers made are", got, "instead of", exp)
        for s in servers:
            u = {k.name: v for k, v in s.args["max_user_resources"].items()}
            t = {k.name: v for k, v in s.args["max_total_resources"].items()}
            check(u == want["user"], "user limits", u, "instead of",
                  want["user"])
            check(t == want["total"], "total limits", t, "instead of",
                  want["total"])
            check(s.args["event_loop"] in loops, "no event loop")
            check(not ran or ran[0][1] is s.args["event_loop"],
                  "a server uses an event loop which is not run")
        hooked = [x[1:] for x in log if x[0] == "hook"]
        if want["hook"] in ("hooks.one", "hooks.two") and \
           not (fail[0] == "create" and fail[1] < n):
            check(len(hooked) == 1 and hooked[0][0] == want["hook"] and
                  set(hooked[0][1]) == set(servers), "hooks called:", hooked)
        else:
            check(not hooked, "hooks called:", hooked)
        ends = {s: [x[0] for x in log if x[1] is s and x[0] in
                    ("terminate", "close")] for s in servers}
        if failed:
            check(status not in (0, None, "none"), "status", status,
                  "after a failure")
            if want["hook"] not in ("no.such", "hooks.bad"):
                check(all(ends.values()), "sockets left open after a failure")
            return
        check(len(ran) == 1 and kinds.index("run") > max(
            i for i, k in enumerate(kinds) if k == "server"),
            "the event loop is run", len(ran), "times")
        check(status in (0, None), "status", status, "after the event loop")
        for s in servers:
            check(ends[s].count("terminate") == 1, "a server is shut down",
                  ends[s].count("terminate"), "times")
        check(kinds.index("run") < kinds.index("terminate"),
              "servers shut down before the event loop has run")


class LogHarness(Harness):
    name = "log-configuration"
    rule = "the log configured in every way, in a scratch directory; " \
        "handlers and level of the root logger looked at; non-trivial: all"

    def __init__(self, mods, prop):
        Harness.__init__(self, mods, prop)
        self.l = mods["logging"]

    def case(self, r):
        return {"console": r([True, False]), "file": r([True, False]),
                "backup": r([0, 1, 5]), "size": r([0, 1000, 4096]),
                "syslog": r(["on", "on", "off", "missing", "off-missing"]),
                "ident": r([None, "x: "]), "facility": r([1, 3, 16]),
                "level": r([10, 20, 30, 40, 50])}

    def gen(self, rng):
        return self.case(rng.choice)

    def fixed(self):
        import random
        rng = random.Random(7)
        return [self.case(rng.choice) for _ in range(60)]

    def run(self, case):
        root = logging.getLogger()
        keep = root.handlers[:], root.level
        d = tempfile.mkdtemp(prefix="log")
        sock = None
        made = []
        try:
            root.handlers = []
            root.setLevel(logging.WARNING)
            dev = os.path.join(d, "dev")
            if case["syslog"] in ("on", "off"):
                sock = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
                sock.bind(dev)
            f = os.path.join(d, "file") if case["file"] else None
            on = case["syslog"] in ("on", "missing")
            try:
                self.l.configure(
                    console=case["console"], log_file=f,
                    log_file_backup=case["backup"],
                    log_file_max_size=case["size"], syslog=on,
                    syslog_socket=dev, syslog_ident=case["ident"],
                    syslog_facility=case["facility"],
                    filter_level=case["level"])
                missing = False
            except OSError:
                missing = True
            made = root.handlers[:]
            check(missing == (case["syslog"] == "missing"),
                  "syslog socket missing:", case["syslog"], "error:",
                  missing)
            if missing:
                return
            H = logging.handlers
            files = [h for h in made if isinstance(h, logging.FileHandler)]
            sys_ = [h for h in made if isinstance(h, H.SysLogHandler)]
            cons = [h for h in made if h not in files and h not in sys_]
            check(len(cons) == case["console"] and
                  all(h.stream in (sys.stderr, sys.__stderr__)
                      for h in cons), "console handlers:", cons)
            check(len(files) == case["file"], "file handlers:", files)
            for h in files:
                check((h.baseFilename, getattr(h, "backupCount", 0),
                       getattr(h, "maxBytes", 0)) ==
                      (f, case["backup"], case["size"]),
                      "log file", h.baseFilename, h.backupCount, h.maxBytes)
            check(len(sys_) == on, "syslog handlers:", sys_)
            for h in sys_:
                check(h.address == dev and h.facility == case["facility"],
                      "syslog", h.address, h.facility)
                if case["ident"]:
                    check(h.ident == case["ident"], "ident", h.ident)
            check(root.level == case["level"], "level", root.level)
            check(all(h.level == 0 for h in made), "handlers filter")
        finally:
            root.handlers, lv = keep
            root.setLevel(lv)
            for h in made:
                if h not in keep[0] and not isinstance(
                        h, logging.StreamHandler) or \
                        isinstance(h, logging.FileHandler):
                    h.close()
            if sock is not None:
                sock.close()
            shutil.rmtree(d, True)


HARNESSES = {"C27": [DaemonHarness, LogHarness]}
