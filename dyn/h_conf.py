"""Configuration documents against an independent reading of pafd(8)."""
import copy
import json
import logging
import logging.handlers
import tempfile

from dyn.base import Harness, check

try:
    import yaml
    YAML = True
except ImportError:
    YAML = False

LEVELS = {"debug": logging.DEBUG, "info": logging.INFO,
          "warning": logging.WARNING, "error": logging.ERROR,
          "critical": logging.CRITICAL}
FAC = logging.handlers.SysLogHandler.facility_names
LOG = {"console": (bool, False), "log_file": (str, None),
       "log_file_backup": (int, 0), "log_file_max_size": (int, 1000000),
       "syslog": (bool, True), "syslog_socket": (str, "/dev/log"),
       "facility": (str, logging.handlers.SysLogHandler.LOG_DAEMON),
       "filter": (str, logging.INFO)}
RES = ("clients", "services", "subscriptions")


class Rej(Exception):
    pass


def typ(v, t):
    if type(v) is not t:
        raise Rej()
    return v


class Ref:
    """The outcome the documentation asks for."""
    def __init__(self):
        self.unclear = False    # null values: as absent, or rejected

    def get(self, d, k, t, default=None):
        if k not in d:
            return default
        if d[k] is None:
            self.unclear = True
            return default
        return typ(d[k], t)

    def doc(self, d):
        typ(d, dict)
        out = {"log": {k: v[1] for k, v in LOG.items()}, "domains": [],
               "user": dict.fromkeys(RES), "total": dict.fromkeys(RES)}
        rejected = False

        def part(f, *a):
            nonlocal rejected
            try:
                f(*a)
            except Rej:
                rejected = True
        part(self.log, self.get_(d, "log", dict), out)
        part(self.domains, self.get_(d, "domains", list), out)
        part(self.res, self.get_(d, "resources", dict), out)
        if rejected:
            raise Rej()
        return out

    def get_(self, d, k, t):
        try:
            return self.get(d, k, t)
        except Rej:
            return "bad"

    def log(self, log, out):
        if log == "bad":
            raise Rej()
        if log is None:
            return
        for k, (t, dflt) in LOG.items():
            v = self.get(log, k, t)
            if v is None:
                continue
            if k == "facility":
                if v not in FAC:
                    raise Rej()
                v = FAC[v]
            elif k == "filter":
                if v not in LEVELS:
                    raise Rej()
                v = LEVELS[v]
            out["log"][k] = v

    def res(self, r, out):
        if r == "bad":
            raise Rej()
        if r is None:
            return
        bad = False
        for c in ("user", "total"):
            try:
                d = self.get(r, c, dict)
            except Rej:
                bad = True
                continue
            for k, v in (d or {}).items():
                if v is None and k in RES:
                    self.unclear = True
                elif k not in RES or type(v) is not int or v < 0:
                    bad = True
                else:
                    out[c][k] = v
        if bad:
            raise Rej()

    def domains(self, ds, out):
        if ds == "bad":
            raise Rej()
        for d in ds or []:
            out["domains"].append(self.domain(typ(d, dict)))

    def domain(self, d):
        name = self.get(d, "name", str)
        v = self.get(d, "protocol_version", dict) or {}
        vmin, vmax = self.get(v, "min", int, 2), self.get(v, "max", int, 3)
        if vmin < 2 or vmax > 3 or vmin > vmax:
            raise Rej()
        idle = self.get(d, "idle", dict) or {}
        imin = self.get(idle, "min", int, 4)
        if "max" in idle and "max_idle_time" in d:
            if idle["max"] is None or d["max_idle_time"] is None:
                self.unclear = True
            else:
                raise Rej()
        imax = self.get(idle, "max", int,
                        self.get(d, "max_idle_time", int, 30))
        if "max_idle_time" in d and d["max_idle_time"] is not None:
            typ(d["max_idle_time"], int)
        if imin < 1 or imin > imax:
            raise Rej()
        if "sockets" in d and "addrs" in d:
            if d["sockets"] is None or d["addrs"] is None:
                self.unclear = True
            else:
                raise Rej()
        a, b = self.get(d, "sockets", list), self.get(d, "addrs", list)
        s = a if a is not None else b
        if s is None:
            raise Rej()
        socks = []
        for x in s:
            if type(x) is str:
                socks.append((x, {}))
                continue
            typ(x, dict)
            if "addr" not in x:
                raise Rej()
            addr = typ(x["addr"], str)
            tls = {}
            if "tls" in x:
                tls = x["tls"]
                if tls is None:
                    self.unclear = True
                    tls = {}
                typ(tls, dict)
                if addr.split(":")[0] not in ("tls", "utls"):
                    if tls:
                        raise Rej()
                    self.unclear = True
                for k, w in tls.items():
                    if k not in ("cert", "key", "tc", "crl") or \
                       type(w) is not str:
                        raise Rej()
            socks.append((addr, tls))
        return {"name": name, "ver": (vmin, vmax), "idle": (imin, imax),
                "sockets": socks}


def state(m, c):
    for d in c.domains:
        check(d.idle_limit is not None and d.proto_version_limit is not None,
              "a domain without idle or version limits")
    T = m["sd"].ResourceType
    rt = {"clients": T.CLIENT, "services": T.SERVICE,
          "subscriptions": T.SUBSCRIPTION}
    return {"log": {k: getattr(c.log, k) for k in LOG},
            "domains": [{"name": d.name,
                         "ver": (d.proto_version_limit.version_min,
                                 d.proto_version_limit.version_max),
                         "idle": (d.idle_limit.idle_min,
                                  d.idle_limit.idle_max),
                         "sockets": [(s.addr, dict(s.tls_attrs))
                                     for s in d.sockets]}
                        for d in c.domains],
            "user": {k: c.resources.user.resources[t]
                     for k, t in rt.items()},
            "total": {k: c.resources.total.resources[t]
                      for k, t in rt.items()}}


def typed(x):
    """1 == True, so compare types also."""
    if isinstance(x, dict):
        return {k: typed(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [typed(v) for v in x]
    return (type(x).__name__, x)


WRONG = [None, True, False, 0, 1, -1, 3.5, 1.0, "1", "", "x", [], [1], {},
         {"a": 1}, -5, 2 ** 70]


class Conf(Harness):
    name = "conf"
    rule = "documents built from the documented parameters, with valid, " \
        "boundary and wrong values at random places, against an independent " \
        "reading of pafd(8); non-trivial: all distinct documents"

    def fixed(self):
        out = []
        dom = {"sockets": ["ux:a"]}
        for v in WRONG:
            out.append(v)
            for k in ("log", "domains", "resources"):
                out.append({k: v})
            for k in LOG:
                out.append({"log": {k: v}})
            for k in ("name", "protocol_version", "idle", "sockets", "addrs",
                      "max_idle_time"):
                out.append({"domains": [dict(dom, **{k: v})]})
            for k in ("min", "max"):
                out.append({"domains": [dict(dom, idle={k: v})]})
                out.append({"domains": [dict(dom, protocol_version={k: v})]})
            out.append({"domains": [dict(dom, idle={"min": 1},
                                         max_idle_time=v)]})
            out.append({"domains": [{"sockets": [v]}]})
            out.append({"domains": [v]})
            out.append({"domains": [{"sockets": [{"addr": v}]}]})
            for a in ("tls:x", "utls:x", "ux:x", "tls", "tlsx:1"):
                out.append({"domains": [{"sockets": [{"addr": a,
                                                      "tls": v}]}]})
            for a in ("tls:x", "utls:x", "ux:x", "tlsx:1", "utl:1", "xtls:1"):
                out.append({"domains": [{"sockets": [
                    {"addr": a, "tls": {"cert": v}}]}]})
            out.append({"domains": [{"sockets": [
                {"addr": "tls:x", "tls": {"cert": "c", "key": v}}]}]})
            for c in ("user", "total"):
                out.append({"resources": {c: v}})
                for r in RES + ("client", "other"):
                    out.append({"resources": {c: {r: v}}})
        for lo in range(0, 6):
            for hi in range(0, 6):
                out.append({"domains": [dict(dom, protocol_version={
                    "min": lo, "max": hi})]})
                out.append({"domains": [dict(dom, idle={"min": lo,
                                                        "max": hi})]})
                out.append({"domains": [dict(dom, idle={"min": lo},
                                             max_idle_time=hi)]})
            out.append({"domains": [dict(dom, protocol_version={"min": lo})]})
            out.append({"domains": [dict(dom, protocol_version={"max": lo})]})
            out.append({"domains": [dict(dom, max_idle_time=lo)]})
        for v in (29, 30, 31):
            out.append({"domains": [dict(dom, idle={"min": v})]})
        for f in list(FAC) + ["daemo", "DAEMON", "0"]:
            out.append({"log": {"facility": f}})
        for f in list(LEVELS) + ["warn", "INFO", "notset"]:
            out.append({"log": {"filter": f}})
        for a in ([], [["ux:a"]], [["ux:a", "tls:b"], ["tcp:c"]]):
            out.append({"addrs-only": a})
        out += [{"domains": [{"sockets": ["a"], "addrs": ["b"]}]},
                {"domains": [{"name": "x"}]}, {}, {"domains": []},
                {"domains": [{"addrs": []}]},
                {"domains": [{"addrs": [{"tls": {}}]}]},
                {"domains": [{"sockets": ["ux:a", {"addr": "tls:b", "tls": {
                    "cert": "c", "key": "k", "tc": "t", "crl": "r"}},
                    {"addr": "tcp:1"}]}, {"addrs": ["ux:b"]}]}]
        return out

    def val(self, rng, *good):
        return rng.choice(WRONG) if rng.random() < self.err else \
            copy.deepcopy(rng.choice(good))

    def opt(self, rng, d, k, f, p=0.4):
        if rng.random() < p:
            d[k] = f()

    def gen(self, rng):
        self.err = rng.choice([0, 0, 0.02, 0.1])
        v = self.val
        d = {}

        def log():
            o = {}
            for k, (t, dflt) in LOG.items():
                good = {"facility": list(FAC), "filter": list(LEVELS)}.get(
                    k, {bool: [True, False], int: [0, 1, 7, 100],
                        str: ["/a/b", "", "x"]}[t])
                self.opt(rng, o, k, lambda: v(rng, *good))
            return o

        def sock():
            if rng.random() < .5:
                return v(rng, "ux:a", "tls:1.2.3.4:5", "tcp:*:1")
            s = {}
            self.opt(rng, s, "addr", lambda: v(rng, "tls:x", "utls:y",
                                               "ux:z"),
                     1 - self.err / 2)
            if str(s.get("addr"))[:1] in "tu" and \
               str(s.get("addr"))[:2] != "ux" or rng.random() < self.err:
                self.opt(rng, s, "tls", lambda: v(rng, {}, {"cert": "c"}, {
                    "key": "k", "crl": "l"}, {"tc": "1"}))
            return s

        def dom():
            o = {}
            self.opt(rng, o, "name", lambda: v(rng, "d", ""))
            for k in ("tls", "addr", "other"):    # not a domain's
                if rng.random() < .06:
                    o[k] = rng.choice([{"cert": "c"}, "ux:o", 1])
            self.opt(rng, o, "protocol_version", lambda: v(
                rng, {}, {"min": 2}, {"min": 3}, {"max": 2}, {"max": 3},
                {"min": 2, "max": 2}, {"min": 3, "max": 3},
                {"min": v(rng, 2), "max": v(rng, 3)}))
            self.opt(rng, o, "idle", lambda: v(
                rng, {}, {"min": 1}, {"max": 4}, {"min": 30},
                {"max": 1000}, {"min": v(rng, 5), "max": v(rng, 9)},
                {"min": 7, "max": 7}))
            if "max" not in o.get("idle", {}) if isinstance(
                    o.get("idle", {}), dict) else True or \
                    rng.random() < self.err:
                self.opt(rng, o, "max_idle_time",
                         lambda: v(rng, 30, 31, 50, 4))
            k = rng.choice(["sockets", "addrs"])
            o[k] = v(rng, [sock() for _ in range(rng.randrange(4))])
            if rng.random() < self.err:
                o[{"sockets": "addrs", "addrs": "sockets"}[k]] = [sock()]
            if rng.random() < self.err / 2:
                del o[k]
            return o

        def res():
            o = {}
            for c in ("user", "total"):
                def cls():
                    r = {}
                    for k in RES:
                        self.opt(rng, r, k, lambda: v(rng, 0, 1, 10, 2 ** 40),
                                 .5)
                    if rng.random() < self.err:
                        r[rng.choice(["cli", "Clients", "7"])] = 1
                    return r
                self.opt(rng, o, c, lambda: v(rng, cls()), .7)
            return o
        self.opt(rng, d, "log", lambda: v(rng, log()), .5)
        self.opt(rng, d, "domains", lambda: v(
            rng, [dom() for _ in range(rng.randrange(4))]), .8)
        self.opt(rng, d, "resources", lambda: v(rng, res()), .6)
        return v(rng, d) if rng.random() < .05 else d

    def shrink(self, case, budget=3.0):
        return case

    def run(self, case):
        m = self.m
        if isinstance(case, dict) and "addrs-only" in case:
            return self.run_addrs(case["addrs-only"])
        conf = m["conf"]
        doc = copy.deepcopy(case)
        ref = Ref()
        try:
            want = ref.doc(copy.deepcopy(case))
        except Rej:
            want = None
        c = conf.Conf()
        other = state(m, conf.default())
        text = json.dumps(doc)
        try:
            if YAML and len(text) % 16 == 3:
                with tempfile.NamedTemporaryFile("w", suffix=".conf") as f:
                    f.write(text)
                    f.flush()
                    c = conf.load(f.name)
            else:
                conf.populate(c, doc)
            got = state(m, c)
            str(c)
        except conf.Error as e:
            str(e)
            got = None
        except Exception as e:
            check(False, repr(case)[:300], "ends in", repr(e)[:200])
        check(typed(state(m, conf.default())) == typed(other),
              "the defaults changed with", repr(case)[:300])
        if got is None:
            check(want is None or ref.unclear, repr(case)[:400],
                  "is refused, but is in order")
            return
        check(want is not None, repr(case)[:400], "is accepted as",
              repr(got)[:400])
        check(typed(got) == typed(want), repr(case)[:300], "results in",
              repr(got)[:400], "instead of", repr(want)[:400])


    def run_addrs(self, addrs):
        """Domains given on the command line."""
        c = self.m["conf"].Conf()
        c.set_domains(addrs)
        got = state(self.m, c)
        want = Ref().doc({"domains": [{"sockets": a} for a in addrs]})
        check(typed(got) == typed(want), "domains", repr(addrs), "result in",
              repr(got), "instead of", repr(want))


HARNESSES = {"C17": [Conf]}
