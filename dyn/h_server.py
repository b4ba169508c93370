"""The whole server (Server, Connection, Transaction, ServiceDiscovery, timers)
over a stand-in transport and event loop, against a protocol-level model."""
from .base import *
from . import model as M
from . import refproto as R
from .h_sd import Stop
import errno
import json as _json

ACC, SND, RCV = 4, 2, 1
GRACE, SCAN = 2.0, 1.0        # allowed handshake time, scan interval
MAXREC = 60

REASON = {"exists": "client-id-exists", "permission": "permission-denied",
          "resource": "insufficient-resources",
          "generation": "old-generation",
          "different": "same-generation-but-different"}


class FakeLoop:
    def __init__(self):
        self.handlers = {}

    def add(self, source, handler):
        assert source not in self.handlers
        self.handlers[source] = handler
        if hasattr(source, "set_listener"):
            source.set_listener(self)

    def remove(self, source):
        source.clear_listener()
        del self.handlers[source]

    def changed_fd(self, s):
        pass
    changed_timeout = changed_active = changed_fd


class FakeListen:
    def __init__(self, net, addr):
        self.net, self.addr = net, addr
        self.pending = []
        self.target = 0
        self.closed = False

    def fileno(self):
        return 100 + id(self) % 1000

    def set_target(self, t):
        self.target = t

    def finish(self):
        pass

    def close(self):
        self.closed = True

    def accept(self):
        self.net.need("C13,C18", not self.closed, "accept on a closed socket")
        if not self.pending:
            raise OSError(errno.EAGAIN, "again")
        c = self.pending.pop(0)
        if c == "fail":
            raise OSError(errno.ECONNABORTED, "aborted")
        c.accepted(self.net.clk.t)
        return c


class FakeConn:
    def __init__(self, net, idx, addr):
        self.net, self.idx, self.addr = net, idx, addr
        self.inbox, self.out = [], []
        self.closed = False
        self.target = 0
        self.blocked = False
        self.plan = []
        self.slow = False        # was ever blocked
        self.eof = None          # None, 0 (closed by peer) or errno
        self.send_err = None
        self.t = None
        # protocol model
        self.cid = None
        self.hs = False
        self.ver = None          # version in force for parsing (or None)
        self.hs_ver = None
        self.tas = {}            # active ta_id -> cmd
        self.exp = {}            # ta_id -> [expectations]
        self.done_tas = set()
        self.sub_ta = {}         # ta_id -> sub_id (accepted subscriptions)
        self.track = None
        self.query_t = None
        self.latency = None
        self.must_drop = False
        self.may_drop = False
        self.dropped = False     # as far as the model knows

    def accepted(self, t):
        self.t = t
        self.net.open.append(self)
        self.net.server_opened(self)

    # -- the transport interface
    def fileno(self):
        return 1000 + self.idx

    def set_target(self, t):
        self.target = t

    def get_attr(self, name):
        if name == "xcm.remote_addr":
            return self.addr
        if name == "xcm.transport":
            return self.addr.split(":")[0]
        if name == "tls.peer_subject_key_id" and self.addr.endswith("#"):
            return b"\x01\xab"
        raise OSError(errno.ENOENT, "no attribute")

    def set_attr(self, name, value):
        pass

    def close(self):
        self.net.need("C13", not self.closed, "connection closed twice")
        self.closed = True
        self.net.conn_closed(self)

    def send(self, data):
        self.net.need("C13,C20", not self.closed, "send on a closed "
                      "connection")
        if self.send_err is not None:
            self.may_drop = self.must_drop = True
            raise OSError(self.send_err, "send")
        again = self.plan.pop(0) if self.plan else 0
        if self.blocked or again:
            raise OSError(errno.EAGAIN, "again")
        self.out.append(bytes(data))

    def receive(self):
        self.net.need("C13,C20", not self.closed, "receive on a closed "
                      "connection")
        if self.inbox:
            data = self.inbox.pop(0)
            self.net.received(self, data)
            return data
        if self.eof is not None:
            self.must_drop = True
            if self.eof == 0:
                return b""
            raise OSError(self.eof, "receive")
        raise OSError(errno.EAGAIN, "again")

    def user(self):
        p = self.addr.split(":")
        if p[0] == "tls" and self.addr.endswith("#"):
            return "ski:01:ab"
        if p[0] in ("tcp", "tls"):
            return "ip:" + ":".join(p[1:-1])
        return "default"

    def ready(self):
        if self.closed:
            return False
        if self.target & RCV and (self.inbox or self.eof is not None):
            return True
        return bool(self.target & SND) and not self.blocked

    def drained(self):
        q = getattr(self.real, "out_wire_msgs", ()) if hasattr(
            self, "real") else ()
        return not self.inbox and not (self.target & SND) and not q


ADDRS = ["ux:a", "ux:b", "tcp:1.1.1.1:7", "tcp:1.1.1.1:8", "tcp:2.2.2.2:7",
         "tls:1.1.1.1:9", "tls:3.3.3.3:9#", "tcp:[fe::1]:7", "tls:[fe::2]:7"]


class ServerHarness(Harness):
    name = "server-histories"
    rule = "random histories over up to 5 connections: valid and malformed " \
        "messages of every command in any order, aborted and blocked " \
        "transports, time steps, configured limits; every answer, drop and " \
        "state compared with a protocol-level model; non-trivial: some " \
        "hello was sent"
    hang_s = 20
    mal = 0.08
    closing = 0.04

    def need(self, tags, cond, *msg):
        if not cond:
            if self.prop in tags.split(","):
                raise Violation(self.where + " " +
                                " ".join(str(m) for m in msg))
            raise Stop()

    # ---------------------------------------------------------- generation
    def gen(self, rng):
        p = rng.choice([0, 0, 0, 0.5])

        def lim():
            return rng.choice([0, 1, 2, 3]) if rng.random() < p else None
        vmin, vmax = rng.choice([(2, 3), (2, 3), (2, 3), (3, 3), (2, 2)])
        case = {"ul": [lim(), lim(), lim()],
                "tl": [rng.choice([None, None, 1, 2, 3, 0]) if p or
                       rng.random() < .3 else None, lim(), lim()],
                "ver": [vmin, vmax],
                "idle": rng.choice([[1, 4], [4, 30], [2, 2]]),
                "rnd": rng.randrange(1 << 30),
                "down": rng.random() < .4,
                "nlisten": rng.choice([1, 1, 2])}
        ops = []
        nc = rng.choice([1, 2, 3, 5])
        slots = {}
        users = rng.choice([1, 2])
        mal = self.mal if rng.random() < 0.6 else 0
        closing = self.closing
        live_prob = rng.random()
        # start with handshaked connections, usually
        for i in range(nc):
            ops.append(["open", i, self.addr(rng, users)])
            if rng.random() < 0.8:
                ops.append(["hello", i, i if rng.random() < .9 else 0,
                            *rng.choice([(2, 3), (2, 3), (3, 3), (2, 2)])])
        nops = rng.randint(5, 45)
        for _ in range(nops):
            ops.append(self.gen_op(rng, nc, users, mal, closing))
        case["ops"] = ops
        return case

    def addr(self, rng, users):
        return rng.choice(ADDRS) if users > 1 else "ux:a"

    def gen_op(self, rng, nc, users, mal, closing):
        i = rng.randrange(nc)
        r = rng.random()
        if r < mal:
            return ["raw", i, rng.randrange(1 << 30)]
        if r < mal + closing:
            return rng.choice([["eof", i, 0], ["eof", i, errno.ECONNRESET],
                               ["serr", i, errno.EPIPE]])
        r = rng.random()
        if r < 0.05:
            return ["open", i, self.addr(rng, users)]
        if r < 0.12:
            return ["hello", i, rng.choice([i, i, i, 0, 7]),
                    *rng.choice([(2, 3), (2, 3), (3, 3), (2, 2), (1, 1),
                                 (4, 9), (3, 2), (0, 2 ** 40)])]
        if r < 0.34:
            return ["pub", i, rng.randrange(3),
                    rng.choice([0, 0, 1, 1, 2, -1]),
                    rng.choice([-1, -1] + list(range(len(M.PROPS)))),
                    rng.choice([-1, -1, 0, 1, 2, 5, 40])]
        if r < 0.42:
            return ["unp", i, rng.randrange(3)]
        if r < 0.54:
            return ["sub", i, rng.randrange(3), rng.choice(
                list(range(len(M.FILTERS))) * 2 + [-1])]
        if r < 0.61:
            return ["uns", i, rng.randrange(3)]
        if r < 0.65:
            return ["req", i, "subscriptions"]
        if r < 0.70:
            return ["svc", i, rng.choice(list(range(len(M.FILTERS))) + [-1])]
        if r < 0.74:
            return ["req", i, "clients"]
        if r < 0.78:
            return ["req", i, "ping"]
        if r < 0.82:
            return ["req", i, "track"]
        if r < 0.86:
            return ["inf", i, rng.choice(["query", "reply", "reply", "x"])]
        if r < 0.885:
            return ["dup", i, rng.choice(["subscribe", "track", "ping",
                                          "publish", "unsubscribe"]),
                    rng.choice(R.TYPES)]
        if r < 0.91:
            return ["block", i, rng.random() < 0.5]
        if r < 0.92:
            return ["again", i, rng.choice(["ping", "services", "clients"])]
        if r < 0.93:
            return ["plan", i, [rng.randrange(2) for _ in range(6)]]
        if r < 0.94:
            return ["afail", 0]
        return ["adv", rng.choice([0.5, 1, 1, 2, 3.5, 5, 20, 60])]

    def fixed(self):
        b = {"ul": [None] * 3, "tl": [None] * 3, "ver": [2, 3],
             "idle": [4, 30], "rnd": 3, "nlisten": 1}

        def c(*ops, **kw):
            return dict(b, ops=[list(o) for o in ops], **kw)
        o0, h0 = ("open", 0, "ux:a"), ("hello", 0, 0, 2, 3)
        o1, h1 = ("open", 1, "ux:a"), ("hello", 1, 1, 2, 3)
        return [
            c(o0, ("req", 0, "ping"), ("pub", 0, 0, 1, 1, 5), h0,
              ("req", 0, "ping"), ("hello", 0, 0, 2, 2), ("hello", 0, 9, 2,
                                                          3),
              ("req", 0, "clients")),
            c(o0, h0, o1, h1, ("sub", 1, 0, 0), ("pub", 0, 0, 1, 1, 5),
              ("eof", 0, 0), ("adv", 2), ("adv", 5)),
            c(o0, o1, ("adv", 1), ("adv", 2), ("adv", 3), tl=[1, None,
                                                              None]),
            c(o0, h0, ("req", 0, "track"), ("adv", 20), ("inf", 0, "reply"),
              ("req", 0, "clients"), ("adv", 60)),
            c(o0, ("hello", 0, 0, 2, 2), ("pub", 0, 0, 1, 1, 5),
              ("adv", 60), ("req", 0, "clients"), ("svc", 0, 0)),
            c(o0, h0, o1, ("hello", 1, 0, 2, 3), ("adv", 5),
              ("hello", 1, 0, 2, 3), ("eof", 0, 0), ("hello", 1, 0, 2, 3),
              ("pub", 1, 1, 1, 1, 1)),
            c(o0, h0, o1, h1, ("sub", 0, 1, 1), ("uns", 1, 1),
              ("uns", 0, 1), ("uns", 0, 1), ("sub", 1, 1, 2),
              ("sub", 0, 1, -1), ("svc", 0, -1)),
            c(o0, h0, ("inf", 0, "query"), ("adv", 1)),
            c(o0, h0, ("req", 0, "track"), ("inf", 0, "query"),
              ("inf", 0, "reply")),
            c(o0, h0, ("req", 0, "track"), ("inf", 0, "x")),
        ]

    def nontrivial(self, case):
        return any(o[0] == "hello" for o in case["ops"])

    # ----------------------------------------------------------- execution
    def run(self, case):
        self.where = ""
        self.clk = Clock(1000.0)
        import random as RR
        st = RR.getstate()
        RR.seed(case["rnd"])
        self.clk.install()
        x = sys.modules["paf.xcm"]
        keep = x.server
        try:
            self.setup(case, x)
            for n, op in enumerate(case["ops"]):
                self.where = "step %d %s:" % (n, op)
                self.step(op)
                self.pump()
                self.sane()
            self.where = "at server shutdown:"
            self.finish()
        except Stop:
            pass
        finally:
            x.server = keep
            self.clk.uninstall()
            RR.setstate(st)

    def setup(self, case, x):
        srv, conf, S = self.m["server"], self.m["conf"], self.m["sd"]
        self.loop = FakeLoop()
        self.listens = []
        self.open = []
        self.all = []
        self.slots = {}
        self.case = case
        self.ver = case["ver"]
        self.idle = case["idle"]
        self.mod = M.Model(case["ul"], case["tl"])
        self.conn_of = {}            # cid -> FakeConn
        self.idle_st = {}
        self.views = {}              # sub_id -> view
        self.sub_conn = {}
        self.count = 0
        self.stalled = False

        def mk(addr, attrs=None):
            s = FakeListen(self, addr)
            self.listens.append(s)
            return s
        x.server = mk
        self.guard("C13,C18", lambda: setattr(self, "server", srv.create(
            None, [conf.SocketConf("ux:s%d" % i, {})
                   for i in range(case["nlisten"])],
            S.resources(*case["ul"]), S.resources(*case["tl"]),
            conf.ProtoVersionLimitConf(*case["ver"]),
            S.IdleLimit(*case["idle"]), self.loop)))

    def guard(self, tags, fun):
        try:
            fun()
        except (Violation, Stop, Hang):
            raise
        except Exception as e:
            if not blame(e):
                raise
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            self.need(tags, False, "%s: %s escaped from the server (%s:%s)" %
                      (type(e).__name__, e, os.path.basename(tb[-1].filename),
                       tb[-1].lineno))

    # -- model callbacks from the transport
    def server_opened(self, c):
        lim = self.case["tl"][0]
        if lim is not None:
            self.need("C18", len(self.open) <= lim, len(self.open),
                      "connections open, the limit is", lim)

    def conn_closed(self, c):
        """The server closed this connection."""
        if c in self.open:
            self.open.remove(c)
        now = self.clk.t
        if c.must_drop or c.may_drop or self.where.startswith("at server"):
            pass
        elif not c.hs:
            self.need("C18,C13", now > c.t + GRACE - M.EPS, "connection",
                      c.idx, "dropped", now - c.t, "s after it was accepted, "
                      "before its handshake was due")
        else:
            st = self.idle_st[c.cid]
            self.need("C16,C13,C14", c.hs_ver >= 3, "connection", c.idx,
                      "of a client without liveness tracking was dropped")
            lo = st["t0"] + 0.45 * st["mx"] + 0.5 * st["mn"]
            if st["forced"] is not None:
                lo = min(lo, st["forced"] + 0.5 * st["mn"])
            self.need("C16,C13,C18,C14", now >= lo - M.EPS, "connection",
                      c.idx, "was dropped", now - st["t0"], "s after its last "
                      "message; max idle time is", st["mx"])
        self.gone(c)

    def gone(self, c):
        c.dropped = True
        if c.hs:
            self.mark()
            for ta, sub in list(c.sub_ta.items()):
                self.views.pop(sub, None)
                self.sub_conn.pop(sub, None)
            self.mod.disconnect(c.cid, self.clk.t)
            del self.conn_of[c.cid]
            self.idle_st.pop(c.cid)
            self.reidle()

    def touch(self, c):
        mx = self.mod.max_idle(c.cid, *self.idle)
        self.idle_st[c.cid] = {"t0": self.clk.t, "mx": mx, "mn": mx,
                               "hi": mx, "forced": None}

    def reidle(self):
        for cid, st in self.idle_st.items():
            m = self.mod.max_idle(cid, *self.idle)
            st["mn"] = min(st["mn"], m)
            st["hi"] = max(st["hi"], m)

    def mark(self):
        """Connections that now wait for a client id still in use."""
        known = self.mod.known_clients()
        for c in self.open:
            if not c.hs and c.cid in known:
                c.exempt = self.clk.t

    def expire_orphans(self):
        self.mark()
        for sid in self.mod.expire(self.clk.t):
            del self.mod.services[sid]
        self.reidle()

    # -- the protocol model
    def expect(self, c, ta, *msgs):
        c.exp.setdefault(ta, []).extend(msgs)

    def received(self, c, data):
        """The server reads this message: what must it answer?"""
        p = R.parse(c.ver, data)
        alt = R.parse(3, data)
        if p is None:
            if alt is not None and not c.hs and alt[2] == "request":
                c.maybe_nohello = alt      # track before hello
                if alt[0] == "track":
                    c.may_drop = True
                    self.opt_fail(c, alt[1])
                    return
            c.must_drop = True
            return
        cmd, ta, typ, args, oargs = p
        act = c.tas.get(ta)
        if typ not in ("request", "inform") or \
           (act is not None and act != cmd):
            c.must_drop = True
            return
        if typ == "request" and act is not None:
            c.must_drop = True
            return
        if typ == "inform" and (act is None or cmd != "track"):
            c.must_drop = True
            return
        if not c.hs and cmd != "hello":
            self.expect(c, ta, self.fail("no-hello"))
            return
        if c.hs:
            self.touch(c)
        getattr(self, "do_" + cmd)(c, ta, typ, args, oargs)

    def opt_fail(self, c, ta):
        self.expect(c, ta, {"opt": True, "type": "fail",
                            "reason": {"no-hello"}, "cmd": None})

    def fail(self, *reasons):
        return {"type": "fail", "reason": set(reasons)}

    def done(self, **kw):
        return {"type": "complete", "fields": kw}

    def do_hello(self, c, ta, typ, args, oargs):
        cid, lo, hi = args
        if c.cid is not None and c.cid != cid:
            self.expect(c, ta, self.fail("permission-denied"))
            return
        if c.hs:
            self.expect(c, ta, self.done(**{"protocol-version": c.hs_ver}))
            return
        c.cid = cid
        lo2, hi2 = max(lo, self.ver[0]), min(hi, self.ver[1])
        if lo2 > hi2:
            c.ver = None
            self.expect(c, ta, self.fail("unsupported-protocol-version"))
            return
        c.ver = hi2
        user = c.user()
        errs = self.mod.connect_errors(cid, user)
        if errs:
            if cid in self.idle_st:
                st = self.idle_st[cid]
                if st["forced"] is None:
                    st["forced"] = self.clk.t
                st["prompt"] = True
            self.expect(c, ta, self.fail(*[REASON[e] for e in errs]))
            return
        c.hs, c.hs_ver = True, hi2
        self.mod.connect(cid, user)
        self.conn_of[cid] = c
        self.touch(c)
        self.expect(c, ta, self.done(**{"protocol-version": hi2}))

    def do_ping(self, c, ta, typ, args, oargs):
        self.expect(c, ta, self.done())

    def do_track(self, c, ta, typ, args, oargs):
        if typ == "request":
            if c.track is not None:
                self.expect(c, ta, self.fail("track-exists"))
            else:
                c.track = ta
                c.tas[ta] = "track"
                self.expect(c, ta, {"type": "accept", "fields": {}})
            return
        if args[0] == "query":
            self.expect(c, ta, {"type": "notify",
                                "fields": {"track-type": "reply"}})
        elif args[0] == "reply":
            self.sync_queries(c)
            if c.query_t is None:
                c.must_drop = True
            else:
                c.latency = self.clk.t - c.query_t
                c.query_t = None
        else:
            c.must_drop = True

    def sync_queries(self, c):
        """Looks for a track query the server has produced but which has not
        been compared yet."""
        self.collect(c)
        if c.target & SND or c.slow:
            raise Stop()       # a query may be queued: unknown to the model

    def do_publish(self, c, ta, typ, args, oargs):
        sid, gen, props, ttl = args
        errs = self.mod.publish_errors(c.cid, sid, gen, props, ttl)
        if errs:
            self.expect(c, ta, self.fail(*[REASON[e] for e in errs]))
            return
        self.mark()
        self.mod.publish(c.cid, sid, gen, props, ttl)
        self.reidle()
        self.touch(c)
        self.expect(c, ta, self.done())

    def do_unpublish(self, c, ta, typ, args, oargs):
        sid = args[0]
        errs = self.mod.unpublish_errors(c.cid, sid)
        if errs:
            self.expect(c, ta, self.fail(
                "permission-denied" if "permission" in errs else
                "non-existent-service-id"))
            return
        self.mark()
        del self.mod.services[sid]
        self.reidle()
        self.touch(c)
        self.expect(c, ta, self.done())

    def filter_idx(self, text):
        for i, (t, _) in enumerate(M.FILTERS):
            if t == text:
                return i
        return None

    def do_subscribe(self, c, ta, typ, args, oargs):
        sub = args[0]
        text = oargs.get("filter")
        errs = set(self.mod.subscribe_errors(c.cid, sub))
        reasons = {{"exists": "subscription-id-exists",
                    "resource": "insufficient-resources"}[e] for e in errs}
        if self.filter_idx(text) is None:
            if not self.bad_filter(text):
                raise Stop()       # a filter outside the model
            reasons.add("invalid-filter-syntax")
        if reasons:
            self.expect(c, ta, self.fail(*reasons))
            return
        f = self.filter_idx(text)
        self.mod.subscribe(c.cid, sub, f)
        c.tas[ta] = "subscribe"
        c.sub_ta[ta] = sub
        self.views[sub] = {}
        self.sub_conn[sub] = (c, ta)
        self.expect(c, ta, {"type": "accept", "fields": {}})

    def bad_filter(self, text):
        return text in ("(", "", "x", "(a=", "(a)", "(&(a=b))")

    def do_unsubscribe(self, c, ta, typ, args, oargs):
        sub = args[0]
        errs = self.mod.unsubscribe_errors(c.cid, sub)
        if errs:
            self.expect(c, ta, self.fail(
                "permission-denied" if "permission" in errs else
                "non-existent-subscription-id"))
            return
        sta = self.sub_conn[sub][1]
        self.collect(c, final=sub)
        del self.mod.subs[sub]
        view = self.views.pop(sub)
        del self.sub_conn[sub]
        del c.sub_ta[sta]
        del c.tas[sta]
        # notifications made earlier may still be queued ahead of it
        self.expect(c, sta, dict(self.done(), view=view, sub=sub))
        self.expect(c, ta, self.done())

    def do_subscriptions(self, c, ta, typ, args, oargs):
        rows = []
        for i, s in self.mod.subs.items():
            r = {"subscription-id": i, "client-id": s["cid"]}
            if M.FILTERS[s["f"]][0] is not None:
                r["filter"] = M.FILTERS[s["f"]][0]
            rows.append(r)
        self.listing(c, ta, rows)

    def do_services(self, c, ta, typ, args, oargs):
        text = oargs.get("filter")
        f = self.filter_idx(text)
        if f is None:
            if not self.bad_filter(text):
                raise Stop()
            self.expect(c, ta, self.fail("invalid-filter-syntax"))
            return
        rows = []
        for sid, g in self.mod.visible(f).items():
            rows.append(self.svc_row(sid, g))
        self.listing(c, ta, rows)

    def svc_row(self, sid, g):
        r = {"service-id": sid, "generation": g[0], "service-props": g[1],
             "ttl": g[2], "client-id": g[4]}
        if g[3] is not None:
            r["orphan-since"] = g[3]
        return r

    def do_clients(self, c, ta, typ, args, oargs):
        rows = []
        for cid, k in self.conn_of.items():
            r = {"client-id": cid, "client-address": k.addr,
                 "time": int(k.t)}
            if c.hs_ver >= 3:
                r["idle"] = self.clk.t - self.idle_st[cid]["t0"] \
                    if k.hs_ver >= 3 else None
                r["protocol-version"] = k.hs_ver
                self.collect(k)
                if k.track is not None and k.latency is not None:
                    r["latency"] = k.latency
            rows.append(r)
        self.listing(c, ta, rows)

    def listing(self, c, ta, rows):
        self.expect(c, ta, {"type": "accept", "fields": {}},
                    {"type": "rows", "rows": rows}, self.done())

    # -- comparing what was produced
    def produced(self, c):
        """Messages sent, plus those queued in the connection (peeked)."""
        out = c.out
        c.out = []
        return out

    def collect(self, c, final=None):
        q = getattr(getattr(c, "real", None), "out_wire_msgs", None)
        msgs = self.produced(c)
        for d in msgs:
            self.judge(c, d)

    def judge(self, c, data):
        try:
            m = _json.loads(data)
            cmd, ta, typ = m.pop("ta-cmd"), m.pop("ta-id"), m.pop("msg-type")
        except Exception:
            self.need("C12,C14", False, "undecodable answer", data[:100])
        ver = c.hs_ver or c.ver or 3
        ok = R.parse(ver, data) or R.parse(3, data)
        self.need("C12,C14,C05", ok is not None, "ill-formed answer",
                  data[:200])
        exp = c.exp.get(ta, [])
        while exp and exp[0].get("opt") and typ != "fail":
            exp.pop(0)
        if typ == "notify" and ta in c.sub_ta and not (
                exp and exp[0]["type"] == "accept"):
            self.notified(c, c.sub_ta[ta], m)
            return
        if typ == "notify" and ta == c.track and \
           m.get("track-type") == "query":
            self.need("C14", not (exp and exp[0]["type"] == "accept"),
                      "track query before the accept")
            self.queried(c)
            return
        if typ == "notify" and exp and "view" in exp[0]:
            self.notified(c, exp[0]["sub"], m, exp[0]["view"])
            return
        self.need("C14", exp, "unexpected", typ, "in transaction", ta, ":",
                  data[:150])
        e = exp[0]
        if e["type"] == "rows":
            if typ == "notify":
                for r in e["rows"]:
                    if self.row_eq(r, m):
                        e["rows"].remove(r)
                        return
                self.need("C22,C14", False, "listing contains", data[:250],
                          "which is not (or no longer) to be listed; left:",
                          e["rows"])
            self.need("C22,C14", not e["rows"], "listing lacks", e["rows"])
            exp.pop(0)
            e = exp[0]
        self.need("C14", e["type"] == typ, "answered with", typ, m,
                  "instead of", e["type"],
                  e.get("reason") or e.get("fields"),
                  "in transaction", ta) if not self.hello_tag(
                      cmd, e, typ, m) else None
        exp.pop(0)
        if typ == "fail":
            self.need(self.fail_tags(cmd, e["reason"], m.get("fail-reason")),
                      m.get("fail-reason") in e["reason"], "failed with",
                      m.get("fail-reason"), "instead of",
                      sorted(e["reason"]))
        else:
            self.need("C14,C15" if cmd == "hello" else "C14",
                      m == e["fields"], "answer carries", m, "instead of",
                      e["fields"])
        if not exp:
            c.exp.pop(ta, None)

    FT = {"no-hello": "C15,C14", "permission-denied": "C04,C14",
          "insufficient-resources": "C07,C14", "old-generation": "C03,C14",
          "same-generation-but-different": "C03,C14",
          "client-id-exists": "C15,C14", "track-exists": "C14",
          "unsupported-protocol-version": "C15,C14",
          "subscription-id-exists": "C06,C14",
          "invalid-filter-syntax": "C14,C09",
          "non-existent-service-id": "C14,C03",
          "non-existent-subscription-id": "C14,C06"}

    def fail_tags(self, cmd, want, got):
        t = set()
        for r in want | {got}:
            t |= set(self.FT.get(r, "C14").split(","))
        if cmd == "hello":
            t.add("C15")
        return ",".join(t)

    def hello_tag(self, cmd, e, typ, m):
        """A wrong kind of answer is also the business of the property that
        decides the outcome."""
        if e["type"] == typ:
            return True
        tags = {"C14"}
        for r in (e.get("reason") or set()) | {m.get("fail-reason")}:
            tags |= set(self.FT.get(r, "C14").split(","))
        if cmd == "hello":
            tags.add("C15")
        self.need(",".join(tags), False, "\"%s\" answered with" % cmd, typ, m,
                  "instead of", e["type"], e.get("reason") or e.get("fields"))

    def row_eq(self, r, m):
        m = dict(m)
        if "service-props" in m:
            m["service-props"] = M.freeze(m["service-props"])
        if "idle" in r and r["idle"] is None:
            r = dict(r)
            r.pop("idle")
            m.pop("idle", None)
        if set(r) != set(m):
            return False
        for k in r:
            if isinstance(r[k], float) or isinstance(m[k], float):
                if abs(r[k] - m[k]) > 1e-6:
                    return False
            elif r[k] != m[k]:
                return False
        return True

    def notified(self, c, sub, m, v=None):
        if v is None:
            v = self.views[sub]
        sid, t = m.get("service-id"), m.get("match-type")
        if t == "disappeared":
            self.need("C05", sid in v, "service", sid, "disappeared for "
                      "subscription", sub, "though not visible")
            del v[sid]
            return
        try:
            g = (m["generation"], M.freeze(m["service-props"]), m["ttl"],
                 m.get("orphan-since"), m["client-id"])
        except KeyError:
            self.need("C05,C14", False, "notification lacks fields:", m)
        if t == "appeared":
            self.need("C05,C06", sid not in v, "service", sid, "appeared "
                      "twice for subscription", sub)
        else:
            self.need("C05", t == "modified" and sid in v, "service", sid, t,
                      "for subscription", sub, "though never shown")
        v[sid] = g

    def queried(self, c):
        st = self.idle_st.get(c.cid)
        now = self.clk.t
        self.need("C16", st is not None and c.query_t is None,
                  "second track query while one is outstanding")
        self.need("C16", st["forced"] is not None or c.slow or
                  st["t0"] + 0.45 * st["mn"] - M.EPS <= now <=
                  st["t0"] + 0.55 * st["hi"] + M.EPS, "track query",
                  now - st["t0"], "s after the last message; max idle time",
                  st["mn"], st["hi"])
        c.query_t = now
        st["queried"] = True

    # -- driving
    def step(self, op):
        k = op[0]
        if k == "open":
            old = self.slots.get(op[1])
            if old is not None and not old.closed and old.eof is None:
                return
            c = FakeConn(self, self.count, op[2])
            self.count += 1
            self.slots[op[1]] = c
            self.all.append(c)
            self.listens[op[1] % len(self.listens)].pending.append(c)
            return
        if k == "afail":
            self.listens[0].pending.append("fail")
            return
        if k == "adv":
            self.advance(op[1])
            return
        c = self.slots.get(op[1])
        if c is None or c.closed or c.eof is not None:
            return
        if k == "eof":
            c.eof = op[2]
        elif k == "serr":
            c.send_err = op[2]
        elif k == "block":
            c.blocked = op[2]
            c.slow = True
        elif k == "plan":
            c.plan = list(op[2])
            c.slow = True
        elif k == "raw":
            import random as RR
            rng = RR.Random(op[2])
            m = R.rand_msg(rng, 3, None, rng.choice(
                ["request", "request", "inform", "notify"]))
            if rng.random() < 0.5:
                m["ta-id"] = rng.choice([c.track or 0] + list(c.tas) + [5])
            if "filter" in m:
                m["filter"] = rng.choice(["(", "x", "(a=*)", ""])
            for f in ("service-id", "subscription-id"):
                if f in m:
                    m[f] = rng.randrange(3)
            data = R.mutate(rng, m)
            if len(data):
                if R.parse(3, data) is not None:
                    d = R.parse(3, data)
                    if d[0] in ("hello", "publish") or "filter" in d[4] and \
                       not self.bad_filter(d[4]["filter"]) and \
                       self.filter_idx(d[4]["filter"]) is None:
                        return
                c.inbox.append(data)
        else:
            self.send(c, op)

    def tid(self, n):
        return 10 ** 6 - n if self.case.get("down") else n

    def send(self, c, op):
        k = op[0]
        c.next_ta = getattr(c, "next_ta", 100) + 1
        m = {"ta-cmd": None, "ta-id": self.tid(c.next_ta),
             "msg-type": "request"}
        if k == "hello":
            m.update({"ta-cmd": "hello", "client-id": op[2],
                      "protocol-minimum-version": op[3],
                      "protocol-maximum-version": op[4]})
        elif k == "pub":
            s = self.mod.services.get(op[2])
            gen = (s["gen"] if s else 3) + op[3]
            props = dict(M.PROPS[op[4]]) if op[4] >= 0 else {}
            if s is not None and op[4] < 0:
                for a, v, isstr in sorted(s["props"], key=str):
                    props.setdefault(a, []).append(v)
            ttl = op[5] if op[5] >= 0 else (s["ttl"] if s else 5)
            if gen < 0:
                return
            m.update({"ta-cmd": "publish", "service-id": op[2],
                      "generation": gen, "service-props": props,
                      "ttl": ttl})
        elif k == "unp":
            m.update({"ta-cmd": "unpublish", "service-id": op[2]})
        elif k in ("sub", "svc"):
            f = op[3] if k == "sub" else op[2]
            if k == "sub":
                m.update({"ta-cmd": "subscribe", "subscription-id": op[2]})
            else:
                m["ta-cmd"] = "services"
            if f == -1:
                m["filter"] = ["(", "x", "(a)", "(&(a=b))", ""][
                    (op[1] + c.next_ta) % 5]
            elif M.FILTERS[f][0] is not None:
                m["filter"] = M.FILTERS[f][0]
        elif k == "uns":
            m.update({"ta-cmd": "unsubscribe", "subscription-id": op[2]})
        elif k in ("req", "again"):
            m["ta-cmd"] = op[2]
            if k == "again":         # reuse of an earlier transaction id
                c.next_ta -= 1
                for t in map(self.tid, range(101, c.next_ta + 1)):
                    if t not in c.tas and t not in c.exp:
                        m["ta-id"] = t
                        break
                else:
                    return
                if c.inbox:
                    return
        elif k == "inf":
            m.update({"ta-cmd": "track", "msg-type": "inform",
                      "track-type": op[2],
                      "ta-id": c.track if c.track is not None
                      else self.tid(c.next_ta)})
        elif k == "dup":
            if not c.tas:
                return
            m.update({"ta-cmd": op[2], "msg-type": op[3],
                      "ta-id": sorted(c.tas)[0]})
            req = R.SPEC[3][op[2]][1][op[3]][0]
            for f in req:
                m[f] = {"int": 1, "str": "query", "num": 1,
                        "props": {}}[R.F[f]]
        c.inbox.append(_json.dumps(m).encode())

    def timer_source(self):
        for s in self.loop.handlers:
            if not hasattr(s, "xcm_sock"):
                return s
        return None

    def run_timers(self):
        s = self.timer_source()
        if s is not None and s.timeout is not None and \
           s.timeout <= self.clk.t:
            self.expire_orphans()
            h = self.loop.handlers[s]
            self.guard("C13,C16,C02,C18", h)
            self.expire_orphans()
            return True
        return False

    def pump(self):
        for n in range(3000):
            moved = self.run_timers()
            for s in self.listens:
                if s.pending and s.target & ACC and not s.closed:
                    before = len(s.pending)
                    self.call_handler(s, "C18,C13")
                    moved = True
            for c in list(self.open):
                if c.ready():
                    self.where_conn = c
                    self.call_handler(c, "C13,C14")
                    moved = True
                    if c.must_drop:
                        self.need("C13,C14,C12", c.closed, "connection",
                                  c.idx, "was not dropped")
            if not moved:
                return
        self.need("C13,C18,C20", False, "the server does not come to rest")

    def call_handler(self, sock, tags):
        for s, h in list(self.loop.handlers.items()):
            if getattr(s, "xcm_sock", None) is sock:
                self.guard(tags, h)
                return
        self.need("C13,C18,C19", False, "no handler registered for a live "
                  "socket")

    def advance(self, dt):
        end = self.clk.t + dt
        for n in range(5000):
            s = self.timer_source()
            t = s.timeout if s is not None else None
            if t is not None and t <= end:
                self.clk.t = max(self.clk.t, t)
                self.expire_orphans()
                self.guard("C13,C16,C02,C18", self.loop.handlers[s])
                self.expire_orphans()
                self.pump()
                self.sane(light=True)
            else:
                self.clk.t = end
                self.expire_orphans()
                self.pump()
                return
        self.need("C16,C18,C11", False, "timers keep firing")

    # -- after every step
    def sane(self, light=False):
        m = self.mod
        now = self.clk.t
        self.expire_orphans()
        for c in self.all:
            if c.closed:
                continue
            self.collect(c)
        for c in list(self.open):
            if c.closed or c.blocked or c.plan:
                continue
            if c.inbox and not c.target & RCV:
                self.need("C20", False, "requests are not read although "
                          "nothing is queued")
            left = {t: [e for e in x if not e.get("opt")]
                    for t, x in c.exp.items()}
            left = {t: x for t, x in left.items() if x}
            self.need("C14,C20" + self.left_tags(left), not left,
                      "no answer on connection", c.idx, "; expected:", left)
            for ta, sub in c.sub_ta.items():
                want = m.visible(m.subs[sub]["f"])
                v = self.views[sub]
                for sid in set(want) | set(v):
                    self.need("C05" if sid in want or sid in v else "C05",
                              self.same_g(v.get(sid), want.get(sid)),
                              "subscription", sub, "was told service", sid,
                              "is", v.get(sid), "but it is", want.get(sid))
        # connections
        for c in self.open:
            if c.t is None or c.closed:
                continue
            if not c.hs:
                if c.cid is not None and c.cid in m.known_clients():
                    c.exempt = now
                self.need("C18", now <= max(
                    c.t + GRACE, getattr(c, "exempt", 0)) + SCAN + M.EPS,
                          "connection", c.idx, "still open", now - c.t,
                          "s after it was accepted without handshake")
            else:
                st = self.idle_st[c.cid]
                if c.hs_ver >= 3:
                    self.need("C16", now <= max(
                        st["t0"] + 1.05 * st["hi"],
                        (st["forced"] or 0) + 0.5 * st["hi"]) + M.EPS,
                        "client", c.cid, "silent for", now - st["t0"],
                        "s is still connected; max idle time", st["hi"])
                    if c.track is not None and not c.blocked and \
                       not c.plan and now > st["t0"] + 0.55 * st["hi"] + \
                       M.EPS:
                        self.need("C16", c.query_t is not None, "client",
                                  c.cid, "silent for", now - st["t0"],
                                  "s was not queried; max idle time",
                                  st["hi"])
        lim = self.case["tl"][0]
        self.need("C18", lim is None or len(self.open) <= lim, len(self.open),
                  "connections are open; limit", lim)
        wait = sum(1 for s in self.listens for c in s.pending)
        self.need("C18", wait == 0 or (lim is not None and
                                       len(self.open) >= lim),
                  wait, "connections wait although", len(self.open),
                  "of", lim, "are open")
        if light:
            return
        srv = self.server
        a = getattr(srv, "clientless_connections", None)
        b = getattr(srv, "client_connections", None)
        if isinstance(a, set) and isinstance(b, dict):
            self.need("C18", {x.conn_sock for x in a} ==
                      {c for c in self.open if not c.hs}, "connections "
                      "without handshake are not those in the set")
            self.need("C18", {k: x.conn_sock for k, x in b.items()} ==
                      self.conn_of, "client connections are", list(b))
        sd = srv.sd
        for cid in set(range(8)):
            self.need("C13,C08", sd.has_client(cid) ==
                      (cid in m.known_clients()), "client", cid, "known:",
                      sd.has_client(cid))
        got = {s.service_id: s for s in sd.get_services()}
        self.need("C13,C02" if len(got) > len(m.services) else "C13,C01,C03",
                  set(got) == set(m.services), "services are",
                  sorted(got), "but should be", sorted(m.services))
        for sid, s in got.items():
            g = (s.generation(), M.freeze(s.props()), s.ttl(),
                 s.orphan_since(), s.client_id())
            self.need("C13,C01,C03,C04", self.same_g(g, m.content(sid)),
                      "service", sid, "is", g, "but should be",
                      m.content(sid))
        self.need("C13,C06", {s.sub_id for s in sd.get_subscriptions()} ==
                  set(m.subs), "subscriptions",
                  sorted(s.sub_id for s in sd.get_subscriptions()),
                  "should be", sorted(m.subs))
        n = len([h for h in self.loop.handlers
                 if isinstance(getattr(h, "xcm_sock", None), FakeConn)])
        self.need("C13,C19", n == len(self.open), n, "connections are "
                  "registered in the event loop,", len(self.open),
                  "are open")
        self.resources()

    def left_tags(self, left):
        t = set()
        for x in left.values():
            for e in x:
                if e["type"] == "rows" and e["rows"]:
                    t.add("C22")
        return "".join("," + i for i in t)

    def resources(self):
        rm = getattr(self.server.sd, "resource_manager", None)
        if rm is not None and hasattr(rm, "total"):
            for i, t in enumerate(self.m["sd"].ResourceType):
                self.need("C07,C13", rm.total(t) == self.mod.used(i),
                          "accounted", t.name, rm.total(t), "but",
                          self.mod.used(i), "exist")

    def same_g(self, a, b):
        if a is None or b is None:
            return a is b
        if (a[3] is None) != (b[3] is None):
            return False
        return a[:3] == b[:3] and a[4] == b[4] and (
            a[3] is None or abs(a[3] - b[3]) < 1e-6)

    def finish(self):
        for c in self.all:
            c.blocked = False
        self.guard("C13,C18", self.server.terminate)
        self.need("C13,C18", not self.open, len(self.open), "connections "
                  "left open")
        self.need("C13", all(s.closed for s in self.listens),
                  "a server socket is left open")


class Hostile(ServerHarness):
    name = "server-hostile"
    mal = 0.3
    closing = 0.08


class Idle(ServerHarness):
    name = "server-idle"
    rule = ServerHarness.rule + "; mostly time steps"

    def gen(self, rng):
        c = ServerHarness.gen(self, rng)
        c["tl"] = c["ul"] = [None] * 3
        ops = [o for o in c["ops"] if o[0] in ("open", "hello")]
        nc = 1 + max(o[1] for o in ops)
        for i in range(nc):
            if rng.random() < 0.6:
                ops.append(["req", i, "track"])
        for _ in range(rng.randint(5, 40)):
            i = rng.randrange(nc)
            ops.append(rng.choice([
                ["adv", rng.choice([0.5, 1, 2, 5, 8, 14, 16])],
                ["adv", rng.choice([0.5, 1, 2])],
                ["inf", i, "reply"], ["req", i, "ping"],
                ["req", i, "clients"],
                ["pub", i, rng.randrange(3), 1, 1,
                 rng.choice([0, 1, 2, 6, 40])],
                ["unp", i, rng.randrange(3)], ["inf", i, "query"],
                ["open", i, "ux:a"],
                ["hello", i, i, rng.choice([2, 3]), 3]]))
        if rng.random() < 0.3:
            # a tracked client that was queried, listed by other ones
            ops = [["open", 0, "ux:a"], ["hello", 0, 0, 3, 3],
                   ["open", 1, "ux:a"], ["hello", 1, 1, 2, 3],
                   ["req", 0, "track"], ["adv", 16], ["adv", 0.5],
                   ["inf", 0, "reply"], ["req", 1, "clients"]] + ops
        c["ops"] = ops
        return c


class Admission(ServerHarness):
    name = "server-admission"
    rule = "many arrivals, tight client limits, missing handshakes"

    def gen(self, rng):
        c = ServerHarness.gen(self, rng)
        c["tl"] = [rng.choice([None, 0, 1, 2, 3, 17]), None, None]
        c["ul"] = [None] * 3
        c["nlisten"] = rng.choice([1, 2])
        ops = []
        for _ in range(rng.randint(5, 50)):
            i = rng.randrange(rng.choice([3, 6, 40]))
            ops.append(rng.choice([
                ["open", i, "ux:a"], ["open", i, "ux:a"],
                ["open", i, "ux:a"],
                ["hello", i, rng.choice([i, i, 0]), 2, 3], ["eof", i, 0],
                ["afail", 0], ["raw", i, rng.randrange(999)],
                ["adv", rng.choice([0.25, 1, 1, 2])],
                ["hello", i, i, 9, 9]]))
        c["ops"] = ops
        return c


class Busy(ServerHarness):
    name = "server-backpressure"
    rule = "blocked transports and bursts of notifications"

    def gen(self, rng):
        c = ServerHarness.gen(self, rng)
        c["tl"] = c["ul"] = [None] * 3
        ops = [["open", 0, "ux:a"], ["hello", 0, 0, 2, 3],
               ["open", 1, "ux:a"], ["hello", 1, 1, 2, 3],
               ["sub", 0, 0, 0], ["sub", 1, 1, 0]]
        for _ in range(rng.randint(5, 60)):
            i = rng.randrange(2)
            ops.append(rng.choice([
                ["block", i, rng.random() < .6],
                ["plan", i, [rng.randrange(2) for _ in range(8)]],
                ["pub", i, rng.randrange(3), 1, rng.randrange(4), 5],
                ["pub", i, rng.randrange(3), 1, rng.randrange(4), 5],
                ["req", i, "subscriptions"], ["svc", i, 0],
                ["req", i, "ping"], ["unp", i, rng.randrange(3)]]))
        ops += [["block", 0, False], ["block", 1, False],
                ["plan", 0, []], ["plan", 1, []], ["req", 0, "ping"],
                ["req", 1, "ping"]]
        c["ops"] = ops
        return c


class Order(ServerHarness):
    name = "server-send-order"
    rule = "a subscriber behind a transport that accepts or defers each " \
        "send; bursts of 1-200 notifications and pings; the order of what " \
        "is sent, and the conditions waited for, checked at every step; " \
        "non-trivial: all"

    def gen(self, rng):
        ops = []
        for _ in range(rng.randint(3, 40)):
            r = rng.random()
            if r < 0.3:
                ops.append(["burst", rng.choice([1, 2, 5, 30, 63, 64, 65,
                                                 126, 127, 128, 129, 200])])
            elif r < 0.5:
                ops.append(["ping", rng.choice([1, 2, 3, 10, 140])])
            else:
                ops.append(["tick", [rng.randrange(2) for _ in range(
                    rng.choice([0, 1, 3, 70]))],
                    rng.choice([1, 1, 2, 5, 140])])
        return {"ops": ops, "ul": [None] * 3, "tl": [None] * 3, "rnd": 1,
                "ver": [2, 3], "idle": [4, 30], "nlisten": 1}

    def fixed(self):
        return []

    def nontrivial(self, case):
        return True

    def run(self, case):
        self.queue = []
        self.sid = 0
        self.c0 = None
        ServerHarness.run(self, case)

    def setup(self, case, x):
        ServerHarness.setup(self, case, x)
        for i in range(2):
            for o in (["open", i, "ux:a"], ["hello", i, i, 2, 3]):
                ServerHarness.step(self, o)
                self.pump()
        ServerHarness.step(self, ["sub", 0, 0, 0])
        self.pump()
        self.sane()
        c = self.c0 = self.slots[0]
        h = self

        def send(data):
            again = c.plan.pop(0) if c.plan else 0
            if again:
                raise OSError(errno.EAGAIN, "again")
            m = _json.loads(bytes(data))
            ident = ("n", m.get("service-id")) \
                if m["msg-type"] == "notify" else ("c", m["ta-id"])
            h.need("C20", h.queue, "message sent that was never produced "
                   "(or twice):", m)
            h.need("C20", h.queue[0] == ident, "sent", ident, "but",
                   h.queue[0], "is next in line")
            h.queue.pop(0)
        c.send = send

        def receive():
            h.need("C20", len(h.queue) < 128, "the server reads a request "
                   "while", len(h.queue), "messages are queued")
            if not c.inbox:
                raise OSError(errno.EAGAIN, "again")
            data = c.inbox.pop(0)
            h.queue.append(("c", _json.loads(data)["ta-id"]))
            return data
        c.receive = receive

    def step(self, op):
        c = self.c0
        if op[0] == "burst":
            p = self.slots[1]
            for _ in range(op[1]):
                self.sid += 1
                ServerHarness.send(self, p, ["pub", 1, self.sid, 0, 0, 50])
                self.queue.append(("n", self.sid))
                for _ in range(20):
                    if not p.ready():
                        break
                    self.call_handler(p, "C13,C20")
        elif op[0] == "ping":
            for _ in range(op[1]):
                ServerHarness.send(self, c, ["req", 0, "ping"])
        else:
            c.plan = list(op[1])
            for _ in range(op[2]):
                if not c.ready():
                    break
                self.call_handler(c, "C13,C20")
                self.conditions()
        self.conditions()

    def conditions(self):
        c, n = self.c0, len(self.queue)
        self.need("C20", bool(c.target & SND) == (n > 0), "asks for write "
                  "readiness:", bool(c.target & SND), "with", n, "queued")
        self.need("C20", bool(c.target & RCV) == (n < 128), "asks for "
                  "requests:", bool(c.target & RCV), "with", n, "queued")

    def pump(self):
        if self.c0 is None:
            ServerHarness.pump(self)

    def sane(self, light=False):
        if self.c0 is None:
            ServerHarness.sane(self, light)

    def finish(self):
        c = self.c0
        c.plan = []
        for _ in range(2000):
            if not c.ready():
                break
            self.call_handler(c, "C13,C20")
            self.conditions()
        self.need("C20", not self.queue and not c.inbox, len(self.queue),
                  "messages and", len(c.inbox), "requests are stuck")


HARNESSES = {
    "C13": [Hostile, ServerHarness, Idle], "C14": [ServerHarness, Hostile],
    "C15": [ServerHarness], "C16": [Idle, ServerHarness],
    "C18": [Admission, ServerHarness], "C20": [Order, Busy],
    "C22": [ServerHarness, Idle], "C05": [Busy], "C06": [ServerHarness],
    "C04": [ServerHarness], "C03": [ServerHarness], "C07": [ServerHarness],
    "C02": [ServerHarness], "C01": [ServerHarness], "C08": [ServerHarness],
}
