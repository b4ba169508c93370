"""The event loop, on a stand-in for epoll, against the set of sources."""
import errno
import math
import os
import select as real_select
import signal as real_signal

from dyn.base import Clock, Harness, Violation, blame

INF = math.inf
EPS = 1e-6


class End(BaseException):
    pass


class Ns:
    """A module with some names replaced."""
    def __init__(self, mod, **kw):
        self.__dict__.update(kw)
        self._mod = mod

    def __getattr__(self, n):
        return getattr(self._mod, n)


class Sock:
    def __init__(self, fd):
        self.fd = fd
        self.target = None

    def fileno(self):
        return self.fd

    def set_target(self, c):
        self.target = c


class Src:
    def __init__(self, i):
        self.i = i
        self.reg = False
        self.fd = self.mask = self.timeout = None
        self.active = False
        self.due = False     # has been due since the last poll returned
        self.expect = False   # has an event to be called for


class EventLoop(Harness):
    name = "eventloop"
    rule = "random sources added, changed and removed, also by the handlers " \
        "themselves; random events, waits and signals from a stand-in for " \
        "epoll; descriptors, waits and every handler call checked against " \
        "the set of sources; non-trivial: some handler was called"
    hang_s = 5

    def op(self, rng, n):
        i = rng.randrange(n)
        return rng.choice([
            ["add", i], ["add", i], ["add", i], ["rm", i],
            ["fd", i, rng.randrange(6), rng.choice([1, 4, 5])],
            ["fd", i, rng.randrange(6), rng.choice([1, 4, 5])],
            ["fd", i, i, 1], ["nofd", i], ["close", i, rng.randrange(2)],
            ["to", i, rng.choice([0, 1, 2, 3, 0.001, -1, 1e7, 1e12, 2e6,
                                  2147483.5])],
            ["to", i, rng.choice([0, 1, 2, 3])], ["noto", i],
            ["act", i], ["noact", i]])

    def gen(self, rng):
        n = rng.randint(1, 5)
        ops = []
        for _ in range(rng.randint(1, 10)):
            ops.append(["pre", self.op(rng, n)])
        if rng.random() < .5:
            for i in range(n):
                ops.append(["pre", ["fd", i, i, 1]])
                ops.append(["pre", ["add", i]])
        for _ in range(rng.randint(0, 25)):
            if rng.random() < .6:
                ops.append(["h", [self.op(rng, n) for _ in range(
                    rng.choice([0, 0, 1, 1, 2, 4]))]])
            else:
                ops.append(["p", rng.choice(["ev", "ev", "ev", "late",
                                             "early", "sig", "all", "all",
                                             "stop"]),
                            rng.randrange(1000)])
        for _ in range(3):
            ops.append(["p", "all", 0])
        return {"ops": ops, "n": n, "xcm": rng.random() < .3}

    def nontrivial(self, case):
        return len(case["ops"]) > 5

    # -- the stand-in for epoll
    def make(self):
        h = self

        class Epoll:
            def __init__(self, *a, **k):
                self.fds = {}
                h.ep = self

            def register(self, fd, mask=5):
                fd = fd if isinstance(fd, int) else fd.fileno()
                if fd in self.fds:
                    raise FileExistsError(errno.EEXIST, "exists")
                self.fds[fd] = mask

            def modify(self, fd, mask):
                if fd not in self.fds:
                    raise FileNotFoundError(errno.ENOENT, "no such")
                self.fds[fd] = mask

            def unregister(self, fd):
                if fd not in self.fds:
                    raise FileNotFoundError(errno.ENOENT, "no such")
                del self.fds[fd]

            def poll(self, timeout=None, maxevents=-1):
                return h.poll(timeout)

            def close(self):
                pass

            def fileno(self):
                return 999
        return Epoll

    def need(self, cond, *msg):
        if not cond:
            raise Violation(" ".join(str(m) for m in msg))

    def desc(self):
        want = dict(self.wake)
        for s in self.src:
            if s.reg and s.fd is not None and s.fd not in self.closed:
                want[s.fd] = s.mask
        self.need(self.ep.fds == want, self.where, ": watched are",
                  self.ep.fds, "but the sources have", want)

    def poll(self, timeout):
        now = self.clk.t
        self.where = "at poll"
        self.desc()
        self.need(not self.over, "waits after being told to stop")
        self.need(not any(s.reg and s.active for s in self.src),
                  "waits while a source is active")
        ts = [s.timeout for s in self.src
              if s.reg and s.timeout is not None]
        t = INF if timeout is None or timeout < 0 else timeout
        # epoll refuses (OverflowError)
        self.need(t == INF or math.ceil(t * 1000) < 2 ** 31, "waits", t,
                  "s, which is more than epoll can")
        if ts:
            left = min(ts) - now
            self.need(t <= max(0, left) + EPS, "waits", t, "s with a timeout "
                      "pending in", left, "s")
            if t == 0 and left <= 0:
                self.starve += 1
                self.need(self.starve < 50, "a due timeout is not fired")
        else:
            self.starve = 0
        if not self.polls:
            raise End()
        kind, r = self.polls.pop(0)
        self.batch = set()
        for s in self.src:
            self.need(not s.expect, "the handler of source", s.i, "was not "
                      "called for an event on its descriptor")
            s.due = False
        fds = [f for f in self.ep.fds if f not in self.wake]
        evs = []
        if kind == "all":
            evs = fds[::-1] if r % 2 else fds
        elif kind == "ev":
            k = r
            for f in fds:
                if k % 2:
                    evs.append(f)
                k //= 2
            if k % 2:
                evs.reverse()
        elif kind == "sig":
            os.write(self.wfd, b"x")
            evs = list(self.wake) + fds[:r % 3]
            if r % 2:
                evs.reverse()
            self.over = True
        elif kind == "stop":
            self.loop.stop()
            self.over = True
        if evs:
            self.clk.t += min(t, (r % 7) / 10.0)
        elif kind == "early":
            if t != INF:
                self.clk.t += t / 2
        elif kind == "late":
            self.clk.t += (t if t != INF else 1) + (r % 3)
        elif t != INF:
            self.clk.t += t
        elif kind != "stop":
            self.clk.t += 1
        self.batch = set(evs)
        for s in self.src:
            s.expect = s.reg and s.fd in self.batch
        self.mark()
        self.where = "after poll"
        return [(f, 1) for f in evs]

    def mark(self):
        for s in self.src:
            if s.reg and s.timeout is not None and s.timeout <= self.clk.t:
                s.due = True

    def handler(self, i):
        s = self.src[i]

        def h():
            self.calls += 1
            self.mark()
            s.expect = False
            self.where = "in the handler of source %d" % i
            why = s.reg and (s.active or (
                s.fd is not None and s.fd in self.batch))
            self.need(why or s.due, "the handler of source", i, "is called, "
                      "but it is", "registered" if s.reg else "removed",
                      "fd", s.fd, "timeout",
                      None if s.timeout is None else s.timeout - self.clk.t,
                      "active", s.active, "; events", sorted(self.batch))
            self.starve = 0
            if self.calls > 200:
                raise End()
            for o in self.scripts.pop(0) if self.scripts else []:
                self.apply(o)
            if s.timeout is not None and s.timeout <= self.clk.t:
                self.apply(["noto", i])
            if s.active and (self.calls % 3 or self.calls > 50):
                self.apply(["noact", i])
            self.mark()
        return h

    def apply(self, o):
        s = self.src[o[1]]
        k = s.i
        r = self.obj[k]
        used = {x.fd for x in self.src if x.reg and x is not s}
        self.where = str(o)
        if o[0] in ("rm", "fd", "nofd", "close"):
            s.expect = False
        if o[0] == "add":
            if not s.reg and s.fd not in used - {None} and \
               s.fd not in self.closed:
                s.reg = True
                self.loop.add(r, self.handler(k))
        elif o[0] == "rm":
            if s.reg:
                s.reg = False
                self.loop.remove(r)
        elif o[0] == "fd":
            fd = 100 + o[2]
            if fd not in used or not s.reg:
                s.fd, s.mask = fd, o[3]
                self.closed.discard(fd)
                r.set_fd(fd, o[3])
        elif o[0] == "nofd":
            s.fd = s.mask = None
            r.clear_fd()
        elif o[0] == "close":
            # the descriptor is closed first; the kernel forgets it
            if s.reg and s.fd is not None:
                self.ep.fds.pop(s.fd, None)
                if o[2]:
                    s.fd = s.mask = None
                    r.clear_fd()
                else:
                    s.reg = False
                    self.loop.remove(r)
        elif o[0] == "to":
            t = self.clk.t + o[2]
            s.timeout = t
            r.set_timeout(t)
        elif o[0] == "noto":
            s.timeout = None
            r.clear_timeout()
        elif o[0] == "act":
            s.active = True
            r.set_active()
        elif o[0] == "noact":
            s.active = False
            r.clear_active()
        self.mark()
        self.desc()

    def run(self, case):
        ev = self.m["eventloop"]
        self.clk = Clock(1000.0)
        self.clk.install()
        old = ev.select, ev.signal
        self.wfd = None
        h = self

        def wake(fd):
            if fd != -1:
                h.wfd = fd
            return -1
        ev.select = Ns(real_select, epoll=self.make())
        ev.signal = Ns(real_signal, signal=lambda *a: None,
                       set_wakeup_fd=wake)
        loop = None
        try:
            self.src = [Src(i) for i in range(case["n"])]
            self.obj = []
            for s in self.src:
                if case["xcm"] and s.i == 0:
                    o = ev.XcmSource(Sock(100 + s.i))
                    s.fd, s.mask = 100 + s.i, 1
                    o.update(2)
                    self.need(o.xcm_sock.target == 2, "the condition of an "
                              "XcmSource is not passed on")
                else:
                    o = ev.Source()
                self.obj.append(o)
            self.closed = set()
            self.batch = set()
            self.calls = self.starve = 0
            self.over = False
            self.scripts = [o[1] for o in case["ops"] if o[0] == "h"]
            self.polls = [(o[1], o[2]) for o in case["ops"] if o[0] == "p"]
            self.wake = {}
            self.where = "at start"
            loop = self.loop = ev.EventLoop()
            self.wake = dict(self.ep.fds)
            for o in case["ops"]:
                if o[0] == "pre":
                    self.apply(o[1])
            for s in self.src:
                s.due = False
            self.mark()
            for _ in range(40):
                self.over = False
                try:
                    loop.run()
                except End:
                    break
                for s in self.src:
                    s.expect = False
                self.need(self.over, "the loop ends without having been "
                          "told to")
            self.over = False
            for s in self.src:
                s.expect = False
            # what is left behind when all is removed
            self.scripts = []
            for s in self.src:
                self.apply(["rm", s.i])
            for s in self.src:
                for o in (["fd", s.i, s.i, 1], ["to", s.i, 0],
                          ["act", s.i]):
                    self.apply(o)
            self.batch = set()
            self.polls = [("late", 1)]
            for s in self.src:
                s.due = False
            try:
                loop.run()
            except End:
                pass
        except (AssertionError, KeyError, OSError, AttributeError, TypeError,
                RuntimeError, ValueError, OverflowError, IndexError) as e:
            import traceback
            if not blame(e):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            raise Violation("%s: %r in %s" % (self.where, e, tb[-1].name))
        finally:
            self.clk.uninstall()
            if loop is not None:
                loop.close()
            ev.select, ev.signal = old


HARNESSES = {"C19": [EventLoop]}
