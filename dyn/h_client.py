"""The client library on a stand-in for the transport, with scripted server
messages, against the protocol's transaction rules."""
import errno
import json as _json
import select as real_select

from dyn import refproto as R
from dyn.base import Clock, Harness, Violation, blame
from dyn.h_eventloop import Ns

RCV, SND = 1, 2
CMDS = ["publish", "unpublish", "subscribe", "unsubscribe", "subscriptions",
        "services", "ping", "clients", "hello", "track"]


class Hungry(BaseException):
    """A synchronous call waits and the script has nothing more to give."""


class Tr:
    def __init__(self, ta, cmd, ia, cb):
        self.ta, self.cmd, self.ia = ta, cmd, ia
        self.state = "requesting"
        self.got = []        # what the callback was given
        self.want = []       # what it should have been given
        self.cb = cb


class Sock:
    def __init__(self, h):
        self.h = h
        self.plan = []
        self.inbox = []
        self.sent = []
        self.target = 0
        self.closed = False

    def fileno(self):
        return 77

    def set_target(self, c):
        self.target = c

    def send(self, data):
        r = self.plan.pop(0) if self.plan else 0
        if r == 1:
            raise OSError(errno.EAGAIN, "again")
        if r == 2:
            self.h.transport = True
            raise OSError(errno.EPIPE, "broken")
        self.h.sent(bytes(data))

    def receive(self):
        if not self.inbox:
            raise OSError(errno.EAGAIN, "again")
        x = self.inbox.pop(0)
        if x == "err":
            self.h.transport = True
            raise OSError(errno.ECONNRESET, "reset")
        self.h.received(x)
        return x

    def finish(self):
        pass

    def close(self):
        self.closed = True


class Client(Harness):
    name = "client"
    rule = "requests of every kind, asynchronous and synchronous; server " \
        "messages in and out of order, unknown, malformed; transports that " \
        "accept or defer each send; callbacks that make synchronous calls; " \
        "what is sent and what each callback is " \
        "given checked against the protocol's transaction rules; " \
        "non-trivial: some server message was delivered"
    hang_s = 5
    bad = 0.06

    def gen(self, rng):
        ver = rng.choice([2, 3, 3])
        ops = []
        for _ in range(rng.randint(1, 40)):
            r = rng.random()
            if r < .35:
                ops.append(["req", rng.choice(CMDS), rng.randrange(10 ** 6)])
            elif r < .4:
                ops.append(["sync", rng.choice(
                    ["publish", "unpublish", "unsubscribe", "subscriptions",
                     "services", "ping", "clients", "hello"]),
                    rng.randrange(10 ** 6)])
            elif r < .4 + self.bad:
                ops.append(["bad", rng.randrange(10 ** 6)])
            elif r < .8:
                ops.append(["ok", rng.randrange(10 ** 6)])
            elif r < .9:
                ops.append(["plan", [rng.randrange(2) for _ in range(
                    rng.choice([0, 1, 3, 10]))]])
            elif r < .93:
                ops.append(["query"])
            else:
                ops.append(["proc"])
        hello = rng.choice(["ok"] * 12 + ["fail", "ver", "close", "junk",
                                          "notify"])
        return {"ver": ver, "ops": ops, "track": rng.random() < .5,
                "sync": rng.random() < .5, "hello": hello,
                "lo": 2, "hi": ver, "proc": rng.choice([0, .3, .8]),
                "nest": [rng.random() < .3 for _ in range(
                    rng.choice([0, 3, 12]))],
                "seed": rng.randrange(1000)}

    def nontrivial(self, case):
        return case["hello"] == "ok" and len(case["ops"]) > 3

    def need(self, tags, cond, *msg):
        if not cond:
            if self.prop in tags.split(","):
                raise Violation(" ".join(str(m) for m in msg))
            raise Hungry()

    # -- transport side
    def sent(self, data):
        self.need("C20", self.queue, "sent but never produced, or sent "
                  "twice:", data[:200])
        want = self.queue.pop(0)
        m = R.parse(3 if want[1] == "track" or self.cver == 3 else 2, data)
        self.need("C20,C21,C12", m is not None, "sent an ill-formed message",
                  data[:200])
        if want[0] == "request":
            t = want[2]
            if t.ta is None:
                t.ta = m[1]
                self.need("C21", t.ta not in self.used, "transaction id",
                          t.ta, "is used for a second time")
                self.used.add(t.ta)
                self.trs[t.ta] = t
            self.need("C20,C21", m[1] == t.ta, "sent", m, "where the "
                      "request of transaction", t.ta, "is next")
            self.need("C20,C21", (m[0], m[2]) == (t.cmd, "request"), "sent",
                      m, "where a", t.cmd, "request is next")
            self.need("C21,C12", R.same(m[3], want[3]) and
                      R.same(m[4], want[4]), "sent", m, "for arguments",
                      want[3], want[4])
            self.live.append(t)
        else:
            self.need("C20,C21", (m[0], m[1], m[2], m[3]) ==
                      ("track", want[2].ta, "inform", [want[3]]), "sent", m,
                      "where track", want[3], "is next")

    def received(self, data):
        """The client has taken this message: what should come of it."""
        v = self.cver
        m = R.parse(v, data) if data else None
        self.expect_error = self.judge(m)
        self.taken += 1

    def judge(self, m):
        """None, or why the message is an error."""
        if m is None:
            return "malformed"
        cmd, ta, typ, args, opt = m
        t = self.trs.get(ta)
        if t is None or t.state == "terminated":
            return "of an unknown transaction"
        if typ in ("request", "inform"):
            return "of a client type"
        if cmd != t.cmd:
            return "of another command"
        if typ == "fail":
            t.state = "terminated"
        elif typ == "accept":
            if t.state != "requesting" or t.ia == R.SINGLE:
                return "an accept out of order"
            t.state = "accepted"
        elif typ == "notify":
            if t.state != "accepted":
                return "a notification out of order"
        else:
            if not (t.ia == R.SINGLE and t.state == "requesting" or
                    t.ia == R.MULTI and t.state == "accepted"):
                return "a complete out of order"
            t.state = "terminated"
        t.want.append((typ, args, opt))
        t.cur = m
        if cmd == "hello" and typ == "complete" and t is self.hello_t:
            if args[0] not in (2, 3):
                t.want.pop()
                return "an unsupported version"
            self.cver = args[0]
            if self.tracking and args[0] >= 3:
                self.trk = self.request("track", [], {}, R.TWO, None)
        if t is self.hello_t and typ == "fail":
            return "a failed hello"
        if t is self.trk and typ == "notify":
            if args[0] == "query":
                self.queue.append(("inform", "track", t, "reply"))
            else:
                self.replies += 1
                if self.replies > self.queries:
                    return "an unsolicited track reply"
        return None

    def request(self, cmd, args, opt, ia, cb):
        t = Tr(None, cmd, ia, cb)
        self.queue.append(("request", cmd, t, args, opt))
        self.all.append(t)
        return t

    # -- application side
    def cb(self, t):
        def f(ta, event, *args, **opt):
            k = event.name.lower()
            t.got.append((k, [dict(a) if isinstance(a, dict) else a
                              for a in args],
                          {o: dict(a) if isinstance(a, dict) else a
                           for o, a in opt.items()}))
            t.tas.append(ta)
            self.nested()
        t.tas = []
        return f

    def nested(self):
        """A callback that itself makes a synchronous call."""
        if not self.nest or self.cl is None:
            return
        if not self.nest.pop(0):
            return
        C = self.m["client"]
        old = self.sync_t
        t, f = self.call(["ping", "unpublish", "services"][
            len(self.nest) % 3], len(self.nest), True)
        self.sync_t = t
        try:
            f()
        except C.TransactionError:
            pass
        self.sync_t = old

    def compare(self):
        for t in self.all:
            if t.cb is None:
                continue
            self.need("C21", R.same(t.got, t.want), "the", t.cmd,
                      "request's callback was given", t.got[-3:],
                      "instead of", t.want[-3:], "(%d, %d)" % (
                          len(t.got), len(t.want)))
            self.need("C21", all(x == t.ta for x in t.tas), "the callback of",
                      t.ta, "was given transaction ids", t.tas)

    def state_ok(self):
        n = len(self.queue)
        s = self.sock
        self.need("C20", bool(s.target & SND) == (n > 0), "asks for write "
                  "readiness:", bool(s.target & SND), "with", n,
                  "messages queued")
        self.need("C20,C21", s.target & RCV, "does not ask for messages")
        self.compare()

    def guarded(self, f, *a, **k):
        """Runs library code; a protocol error must be due, and only then."""
        c = self.m["client"]
        self.expect_error = None
        self.transport = False
        try:
            r = f(*a, **k)
        except c.TransactionError as e:
            self.need("C21", self.expect_error is None, "a message that is",
                      self.expect_error, "gives", repr(e))
            raise
        except c.ProtocolError as e:
            self.need("C21", self.expect_error is not None, "a proper "
                      "message gives", repr(e))
            raise Hungry()
        except Violation:
            raise
        except c.TransportError as e:
            self.need("C21,C20", self.transport, "a working transport gives",
                      repr(e))
            raise Hungry()
        except Exception as e:
            if not blame(e):
                raise
            self.need("C21", False, "ends in", repr(e), "; last message "
                      "was", self.expect_error or "in order")
        self.need("C21", not self.transport, "a broken transport is ignored")
        self.need("C21", self.expect_error is None, "a message that is",
                  self.expect_error, "is accepted")
        return r

    # -- script
    def rnd(self, x):
        self.r.seed(x * 1009 + self.case["seed"])
        return self.r

    def call(self, cmd, x, sync):
        """Issues a request; returns its record (and result if sync)."""
        rng = self.rnd(x)
        cl = self.cl
        pick = lambda *a: rng.choice(a)
        n = pick(0, 1, 5, 2 ** 63 - 1)
        flt = pick(None, "(a=b)", "(&(a=1)(b=*))")
        fo = {} if flt is None else {"filter": flt}
        if cmd == "publish":
            p = pick({}, {"a": {"b"}}, {"a": {1, "1"}, "b": {"x"}},
                     {"a": set()})
            ttl = pick(0, 7)
            a = (n, 3, p, ttl)
            args, opt, kw = [n, 3, R.norm_props(p), ttl], {}, {}
        elif cmd in ("unpublish", "unsubscribe", "subscribe"):
            a, args, opt, kw = (n,), [n], {}, {}
            if cmd == "subscribe":
                opt, kw = fo, {"filter": flt} if flt or pick(0, 1) else {}
        elif cmd == "services":
            a, args, opt = (), [], fo
            kw = {"filter": flt} if flt or pick(0, 1) else {}
        elif cmd == "hello":
            a, kw, opt = (), {}, {}
            lo, hi = self.case["lo"], self.case["hi"]
            if pick(0, 1):
                lo, hi = 1, 9
                kw = {"proto_version_range": (lo, hi)}
            args = [5, lo, hi]
        else:
            a, args, opt, kw = (), [], {}, {}
        ia = R.SPEC[self.cver][cmd][0]
        t = self.request(cmd, args, opt, ia, None)
        fn = getattr(cl, cmd)
        if sync:
            return t, lambda: fn(*a, **kw)
        t.cb = self.cb(t)
        if cmd in ("subscribe", "track"):
            ta = self.guarded(fn, *a, t.cb, **kw)
        else:
            ta = self.guarded(fn, *a, response_cb=t.cb, **kw)
        if t.ta is None:
            self.need("C21", type(ta) is int and ta not in self.used,
                      "transaction id", ta, "is returned for two requests")
            self.used.add(ta)
            t.ta = ta
            self.trs[ta] = t
        self.need("C21", ta == t.ta, "a request sent as transaction", t.ta,
                  "is returned as", ta)
        return t, None

    def message(self, t, typ, rng):
        m = R.rand_msg(rng, self.cver, t.cmd, typ)
        m["ta-id"] = t.ta
        if t.cmd == "track" and "track-type" in m:
            m["track-type"] = "query"
        if t.cmd == "hello" and typ == "complete":
            m["protocol-version"] = 3
        return _json.dumps(m).encode()

    def nexts(self, t, pend):
        """Types that may follow, given what is already in the inbox."""
        s = pend.get(t.ta, t.state)
        if s == "requesting":
            return ["complete", "fail"] if t.ia == R.SINGLE else \
                ["accept", "accept", "fail"]
        if s == "accepted":
            return ["notify", "notify", "notify", "fail"] + \
                (["complete"] if t.ia == R.MULTI else [])
        return []

    def ok(self, rng, only=None):
        c = []
        for t in self.live:
            if only is not None and t is not only:
                continue
            ts = self.nexts(t, self.pend)
            if t is self.hello_t or t is self.trk:
                ts = [x for x in ts if x != "fail"]
            if ts:
                c.append((t, ts))
        if not c:
            return False
        t, ts = rng.choice(c)
        typ = rng.choice(ts)
        self.sock.inbox.append(self.message(t, typ, rng))
        self.pend[t.ta] = "terminated" if typ in ("fail", "complete") else \
            "accepted"
        return True

    def bad_one(self, rng):
        k = rng.randrange(11)
        ts = [t for t in self.all if t.ta is not None]
        t = rng.choice(ts)
        if k == 0:
            d = _json.dumps({"ta-cmd": "ping", "ta-id": 10 ** 6,
                             "msg-type": "complete"}).encode()
        elif k == 1:
            d = R.mutate(rng, R.rand_msg(rng, self.cver))
        elif k == 2:
            d = b""
        elif k == 3:
            d = self.message(t, rng.choice(["request", "inform"]), rng)
        elif k == 8:
            d = "err"
        elif k == 9:
            self.sock.plan = [0, 2]
            return
        elif k == 10 and self.trk is not None and self.trk.ta is not None:
            d = _json.dumps({"ta-cmd": "track", "ta-id": self.trk.ta,
                             "msg-type": "notify",
                             "track-type": "reply"}).encode()
        elif k == 4:
            m = R.rand_msg(rng, self.cver, rng.choice(
                [c for c in sorted(R.SPEC[self.cver]) if c != t.cmd]),
                rng.choice(["accept", "complete", "notify", "fail"]))
            m["ta-id"] = t.ta
            d = _json.dumps(m).encode()
        else:
            d = self.message(t, rng.choice(["accept", "notify", "complete",
                                            "fail"]), rng)
        self.sock.inbox.append(d)

    def poll(self):
        """A synchronous call waits: give it something."""
        self.polls += 1
        if self.polls > 60:
            raise Hungry()
        rng = self.rnd(self.polls + 77)
        if self.cl is None:
            if self.hello_fed or self.queue:
                if self.sock.plan:
                    return
                raise Hungry()
            self.feed_hello()
            return
        self.state_ok()
        if self.sync_t.ta is None or self.sync_t not in self.live:
            if not self.sock.plan and self.queue:
                self.need("C20", self.sock.target & SND, "queued messages "
                          "are stuck")
            return
        if not self.ok(rng, self.sync_t if rng.random() < .7 else None):
            self.ok(rng, self.sync_t)

    def feed_hello(self):
        self.hello_fed = True
        h = self.case["hello"]
        t = self.hello_t
        b = {"ta-cmd": "hello", "ta-id": t.ta, "msg-type": "complete",
             "protocol-version": self.case["ver"]}
        if h == "fail":
            b = {"ta-cmd": "hello", "ta-id": t.ta, "msg-type": "fail",
                 "fail-reason": "client-id-exists"}
        elif h == "ver":
            b["protocol-version"] = [0, 1, 4, 99][self.case["seed"] % 4]
        elif h == "notify":
            b = {"ta-cmd": "ping", "ta-id": t.ta, "msg-type": "complete"}
        d = _json.dumps(b).encode()
        if h == "close":
            d = b""
        elif h == "junk":
            d = d[:-2]
        self.sock.inbox.append(d)

    def run(self, case):
        import random
        self.case = case
        self.r = random.Random()
        self.cver = None
        self.queue, self.all, self.live = [], [], []
        self.trs, self.used, self.pend = {}, set(), {}
        self.taken = self.polls = self.replies = self.queries = 0
        self.expect_error = None
        self.trk = None
        self.tracking = case["track"]
        self.hello_fed = False
        self.cl = None
        self.sync_t = None
        self.nest = list(case.get("nest", ()))
        C = self.m["client"]
        self.sock = Sock(self)
        h = self
        clk = Clock(50.0)

        class Poll:
            def register(self, fd, ev=1):
                pass

            def poll(self, timeout=None):
                clk.t += 0.5
                h.poll()
                return [(77, 1)]
        old = C.select, C.xcm.connect
        C.select = Ns(real_select, poll=Poll)
        C.xcm.connect = lambda *a, **k: self.sock
        clk.install()
        try:
            self.body(case, C, clk)
        except Hungry:
            pass
        finally:
            C.select, C.xcm.connect = old
            clk.uninstall()

    def body(self, case, C, clk):
        conf = C.ServerConf("ux:x", case["lo"], case["hi"])
        self.hello_t = self.request("hello", [5, case["lo"], case["hi"]], {},
                                    R.SINGLE, None)
        ready = []
        cb = None if case["sync"] else lambda: ready.append(1)
        if case["seed"] % 3 == 0:
            self.sock.plan = [1]
        self.cl = None
        cl = self.guarded(C.connect, conf, client_id=5, ready_cb=cb,
                          track=case["track"])
        self.cl = cl
        if cb is not None:
            self.need("C21", not ready, "ready before the hello response")
            self.guarded(cl.process)
            self.state_ok()
            self.feed_hello()
            self.guarded(cl.process)
            self.need("C21", ready == [1], "ready", len(ready), "times")
        self.need("C21", cl.proto_version == case["ver"], "version",
                  cl.proto_version, "in use, selected was", case["ver"])
        self.state_ok()
        for k, o in enumerate(case["ops"]):
            rng = self.rnd(k * 31 + 5)
            if o[0] == "req":
                if o[1] == "track" and self.cver < 3:
                    continue
                self.call(o[1], o[2], False)
            elif o[0] == "sync":
                self.sync(C, o, clk)
            elif o[0] == "ok":
                self.ok(self.rnd(o[1]))
            elif o[0] == "bad":
                self.bad_one(self.rnd(o[1]))
            elif o[0] == "plan":
                self.sock.plan = list(o[1])
            elif o[0] == "query":
                t = self.trk
                if t is not None and t.state == "accepted":
                    self.queue.append(("inform", "track", t, "query"))
                    self.queries += 1
                    self.guarded(cl.tracker.query)
                    if not self.pend.get(t.ta) == "terminated" and \
                       rng.random() < .7:
                        self.sock.inbox.append(_json.dumps({
                            "ta-cmd": "track", "ta-id": t.ta,
                            "msg-type": "notify",
                            "track-type": "reply"}).encode())
            self.state_ok()
            if o[0] == "proc" or rng.random() < case["proc"]:
                self.process(cl)
        self.sock.plan = []
        for _ in range(3):
            self.process(cl)
        self.need("C20", not self.queue, len(self.queue), "messages are "
                  "never sent")
        self.need("C21", not self.sock.inbox, "messages are not read")

    def process(self, cl):
        self.guarded(cl.process)
        self.state_ok()

    def sync(self, C, o, clk):
        t, f = self.call(o[1], o[2], True)
        self.sync_t = t
        reason = None
        try:
            res = self.guarded(f)
            failed = False
        except C.TransactionError as e:
            failed = True
            reason = str(e)
        self.sync_t = None
        if not t.want:
            self.need("C21", False, "a", t.cmd, "call returned without a "
                      "response")
        typ, args, opt = t.want[-1]
        self.need("C21", failed == (typ == "fail"), "a", t.cmd, "call ",
                  "failed" if failed else "succeeded", "on", typ)
        if failed:
            r = opt.get("fail_reason")
            self.need("C21", r is None or r in reason, "a call that failed "
                      "for", repr(r), "raises", repr(reason))
            self.need("C21", r is not None or
                      reason == str(C.TransactionError()), "a call that "
                      "failed without a reason raises", repr(reason))
            return
        self.need("C21", typ == "complete", "a call returned on", typ)
        if t.cmd in ("subscriptions", "services", "clients"):
            want = []
            for k, a, p in t.want:
                if k == "notify":
                    want.append(a + ([p] if p else []))
            self.need("C21", R.same(list(map(plain, res)), want), t.cmd,
                      "returned", res, "instead of", want)
        elif t.cmd == "hello":
            self.need("C21", list(res) == args, "hello returned", res)
        elif t.cmd == "ping":
            self.need("C21", isinstance(res, float) and 0 <= res, "ping "
                      "returned", res)


def plain(n):
    return [dict(a) if isinstance(a, dict) else a for a in n]


class Busy(Client):
    name = "client-backpressure"
    rule = "bursts of requests on a transport that accepts or defers each " \
        "send"
    bad = 0

    def gen(self, rng):
        c = Client.gen(self, rng)
        c["hello"] = "ok"
        ops = []
        for _ in range(rng.randint(3, 60)):
            ops.append(rng.choice([
                ["req", rng.choice(["ping", "publish", "subscribe"]),
                 rng.randrange(999)],
                ["req", "ping", 1],
                ["plan", [rng.randrange(2) for _ in range(
                    rng.choice([1, 3, 10]))]],
                ["plan", [1] * 30],
                ["proc"], ["ok", rng.randrange(999)]]))
        c["ops"] = ops
        return c


HARNESSES = {"C21": [Client], "C20": [Busy]}
