"""C19: paf.eventloop under contract."""
import errno
import fcntl
import os
import select
import signal
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import VC, SBound, CellValue, BuiltinMethod
from pyvc.loops import LoopSpec, WhileSpec
from pyvc.runner import Unit

SRC = sort("Source")
FN = sort("Fn_srchandler")
s, s2 = z3.Consts("s s2", SRC)
f = z3.Int("f")
CELLS = ("EL.source_handler.dom", "EL.source_handler.val",
         "EL.source_fd.dom", "EL.source_fd.val.0", "EL.source_fd.val.1",
         "EL.source_timeout.dom", "EL.source_timeout.val",
         "EL.source_active.dom", "EL.fd_source.dom", "EL.fd_source.val",
         "Ep.dom", "Ep.mask", "Closed")
FIELDS = ("Source.fd.some", "Source.fd", "Source.mask.some", "Source.mask",
          "Source.timeout.some", "Source.timeout", "Source.active",
          "Source.listener.some")
ANY = CELLS + FIELDS + ("EL.stop",)


def fa(vs, body, *pats):
    ps = [z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats]
    return z3.ForAll(vs if isinstance(vs, list) else [vs], body, patterns=ps)


def reg(h):
    """The watched descriptors, timeouts and active flags are exactly those
    of the registered sources."""
    R = lambda x: h.at("EL.source_handler.dom", x)
    fdin = lambda x: h.at("EL.source_fd.dom", x)
    fd = lambda x: h.at("EL.source_fd.val.0", x)
    mk = lambda x: h.at("EL.source_fd.val.1", x)
    T = "C19:exactly the registered sources are watched"
    sfd = h("EL.s_rfd")
    return [
        (T + " (descriptors)", fa(s, z3.And(
            fdin(s) == z3.And(R(s), h.at("Source.fd.some", s)),
            z3.Implies(fdin(s), z3.And(
                fd(s) == h.at("Source.fd", s),
                h.at("Source.mask.some", s),
                mk(s) == h.at("Source.mask", s),
                h.at("EL.fd_source.dom", fd(s)),
                h.at("EL.fd_source.val", fd(s)) == s))),
            fdin(s), R(s))),
        (T + " (descriptors)", fa(f, z3.Implies(
            h.at("EL.fd_source.dom", f), z3.And(
                fdin(h.at("EL.fd_source.val", f)),
                fd(h.at("EL.fd_source.val", f)) == f, f != sfd)),
            h.at("EL.fd_source.dom", f))),
        (T + " (descriptors)", fa(f, z3.Implies(
            h.at("Ep.dom", f), z3.Or(f == sfd, z3.And(
                h.at("EL.fd_source.dom", f),
                h.at("Ep.mask", f) == mk(h.at("EL.fd_source.val", f))))),
            h.at("Ep.dom", f))),
        (T + " (descriptors)", fa(f, z3.Implies(
            z3.And(h.at("EL.fd_source.dom", f),
                   z3.Not(h.at("Closed", f))), h.at("Ep.dom", f)),
            h.at("EL.fd_source.dom", f))),
        (T + " (timeouts)", fa(s, z3.And(
            h.at("EL.source_timeout.dom", s) ==
            z3.And(R(s), h.at("Source.timeout.some", s)),
            z3.Implies(h.at("EL.source_timeout.dom", s),
                       h.at("EL.source_timeout.val", s) ==
                       h.at("Source.timeout", s))),
            h.at("EL.source_timeout.dom", s), R(s))),
        (T + " (active flags)", fa(s, h.at("EL.source_active.dom", s) ==
                                   z3.And(R(s), h.at("Source.active", s)),
                                   h.at("EL.source_active.dom", s), R(s))),
        (T + " (listeners)", fa(s, R(s) == h.at("Source.listener.some", s),
                                R(s), h.at("Source.listener.some", s))),
        ("C19:the signal descriptor is watched", z3.And(
            h("EL.s_rfd.some"), h.at("Ep.dom", sfd),
            h.at("Ep.mask", sfd) == select.EPOLLIN)),
    ]


class Epoll(Sym):
    def sym_getattr(self, vc, name):
        m = {"register": self.register, "unregister": self.unregister,
             "modify": self.modify, "poll": self.poll,
             "close": lambda vc: None}.get(name)
        if m is None:
            raise Unsupported("epoll.%s" % name)
        return BuiltinMethod(name, self, lambda *a, **k: m(vc, *a, **k))

    def fd(self, vc, fd):
        (t,) = TInt().enc(vc, fd)
        return t

    def put(self, vc, t, mask):
        vc.hset("Ep.dom", z3.Store(vc.hget("Ep.dom"), t, z3.BoolVal(True)))
        (m,) = TInt().enc(vc, mask)
        vc.hset("Ep.mask", z3.Store(vc.hget("Ep.mask"), t, m))

    def register(self, vc, fd, eventmask=None):
        t = self.fd(vc, fd)
        if vc.ctx.branch(z3.Select(vc.hget("Ep.dom"), t), "fd in epoll"):
            raise ProgExc(FileExistsError(errno.EEXIST, "File exists"))
        if eventmask is None:
            raise Unsupported("epoll.register without mask")
        self.put(vc, t, eventmask)
        vc.hset("Closed", z3.Store(vc.hget("Closed"), t, z3.BoolVal(False)))

    def unregister(self, vc, fd):
        t = self.fd(vc, fd)
        if not vc.ctx.branch(z3.Select(vc.hget("Ep.dom"), t), "fd in epoll"):
            raise ProgExc(FileNotFoundError(errno.ENOENT, "No such file"))
        vc.hset("Ep.dom", z3.Store(vc.hget("Ep.dom"), t, z3.BoolVal(False)))

    def modify(self, vc, fd, eventmask):
        t = self.fd(vc, fd)
        if not vc.ctx.branch(z3.Select(vc.hget("Ep.dom"), t), "fd in epoll"):
            raise ProgExc(FileNotFoundError(errno.ENOENT, "No such file"))
        self.put(vc, t, eventmask)

    def poll(self, vc, timeout=None, maxevents=-1):
        ctx = vc.ctx
        h = H(vc)
        if "in_run" not in ctx.ghost:
            raise Unsupported("epoll.poll outside run")
        ctx.prove(z3.Not(h("EL.stop")), "C19:no wait after stop")
        ctx.prove(fa(s, z3.Not(h.at("EL.source_active.dom", s)),
                     h.at("EL.source_active.dom", s)),
                  "C19:no wait while a source is active")
        for n, g in reg(h):
            ctx.prove(g, n)
        nows = ctx.ghost.get("nows", ())
        timeout = vc.force(timeout)
        none = fa(s, z3.Not(h.at("EL.source_timeout.dom", s)),
                  h.at("EL.source_timeout.dom", s))
        if timeout is None:
            t = z3.RealVal(-1)
        else:
            t = as_real(timeout)
        n = nows[-1] if nows else None
        late = none if n is None else fa(
            s, z3.Implies(h.at("EL.source_timeout.dom", s), z3.And(
                h.at("EL.source_timeout.val", s) > n, t >= 0,
                n + t <= h.at("EL.source_timeout.val", s))),
            h.at("EL.source_timeout.dom", s))
        ctx.prove(t * 1000 <= (1 << 31) - 1,
                  "C19:a wait time that epoll accepts")
        ctx.prove(late, "C19:never waits beyond the earliest timeout")
        seq = vc.w.TEVENTS.fresh(vc, "events")
        ctx.assume(seq.ln() >= 0)
        j = z3.Int("j")
        at = z3.Select(seq.loc.get(1), j)
        ctx.assume(fa(j, z3.Implies(z3.And(j >= 0, j < seq.ln()),
                                    h.at("Ep.dom", at)), at))
        ctx.ghost["last"] = ctx.ghost["events"] = seq
        ctx.ghost["handled"] = None
        return seq


def api_effects(vc):
    """A handler: may use the whole API of sources and loop."""
    for m in ANY:
        vc.havoc(m)
    for n, g in reg(H(vc)):
        vc.ctx.assume(g)


def handler_call(vc, fn, args, kw):
    if args or kw:
        raise ProgExc(TypeError("handler takes no arguments"))
    h = H(vc)
    ctx = vc.ctx
    for n, g in reg(h):
        ctx.prove(g, n)
    why = ctx.ghost.get("why")
    if why is None:
        ctx.prove(z3.BoolVal(False), "C19:handler called for no reason")
    else:
        why(vc, fn.t, h)
    ctx.ghost["calls"] = ctx.ghost.get("calls", ()) + (fn.t,)
    vc.hset("Called", z3.Store(vc.hget("Called"), fn.t, z3.BoolVal(True)))
    api_effects(vc)
    return None


def now_hook(vc, t):
    g = vc.ctx.ghost
    nows = g.get("nows", ())
    if nows:
        vc.ctx.assume(t >= nows[-1])
    g["nows"] = nows + (t,)


class ELWorld(World):
    def __init__(self, index):
        World.__init__(self, index)
        el = self.el = index.modules["eventloop"]
        self.THandler = TFn("srchandler", handler_call)
        self.loop = el.EventLoop.__new__(el.EventLoop)
        self.epoll = Epoll()
        TS = TRef("Source")
        self.heap_class("Source", el.XcmSource, {
            "fd": TOpt(TInt()), "mask": TOpt(TInt()),
            "timeout": TOpt(TReal()), "active": TBool(),
            "listener": TOpt(TConst(lambda vc: self.loop)),
            "xcm_sock": TRef("XcmSock")})
        self.heap_class("XcmSock", None, {}, {
            "fileno": lambda vc, o: SInt(filenof(o.t)),
            "set_target": set_target})
        self.by_pycls[el.Source] = "Source"
        self.TEVENTS = TSeq(TTup(TInt(), TInt()))
        cells = {"source_handler": TMap(TS, self.THandler),
                 "source_fd": TMap(TS, TTup(TInt(), TInt())),
                 "source_timeout": TMap(TS, TReal()),
                 "source_active": TUSet(TS),
                 "fd_source": TMap(TInt(), TS),
                 "_stop": TBool(), "s_rfd": TOpt(TInt()),
                 "s_wfd": TOpt(TInt())}
        names = {"_stop": "stop"}
        self.native_fields[el.EventLoop] = nf = {
            n: (t, "EL." + names.get(n, n)) for n, t in cells.items()}
        nf["epoll"] = (TConst(lambda vc: self.epoll), "EL.epoll")
        for n, t in cells.items():
            self.cell("EL." + names.get(n, n), t)
        self.ghost("Ep.dom", z3.ArraySort(I, B))
        self.ghost("Ep.mask", z3.ArraySort(I, I))
        self.ghost("Closed", z3.ArraySort(I, B))
        self.ghost("Called", z3.ArraySort(FN, B))
        self.ghost("Target", z3.ArraySort(sort("XcmSock"), I))
        i = self.intercepts
        i[select.epoll] = lambda vc, *a, **k: self.epoll
        i[signal.signal] = lambda vc, *a: None
        i[signal.set_wakeup_fd] = lambda vc, *a, **k: SInt(
            vc.ctx.fresh("oldfd", I))
        i[os.pipe] = pipe
        i[os.pipe2] = pipe
        i[fcntl.fcntl] = lambda vc, *a: SInt(vc.ctx.fresh("flags", I))
        i[os.set_blocking] = lambda vc, *a: None
        i[os.read] = os_read
        i[os.close] = lambda vc, fd: None

    def instance(self, vc):
        o = self.loop
        o.__dict__.clear()
        for n, (t, cell) in self.native_fields[self.el.EventLoop].items():
            if n == "epoll":
                o.__dict__[n] = self.epoll
            elif hasattr(t, "dec_at"):
                o.__dict__[n] = vc.cell(cell, t)
            else:
                o.__dict__[n] = CellValue(cell, t)
        vc.ctx.ghost["now_hook"] = now_hook
        return o

    def while_spec(self, vc, env, st):
        if vc.call_stack and "fire_actives" in vc.call_stack[-1] or \
           "run" in vc.call_stack[-1]:
            return WhileSpec(env.fname, inv=lambda vc, env, pre:
                             reg(H(vc)) + handled(vc), on_head=head,
                             types={"fds": self.TEVENTS,
                                    "timeout": TReal()})
        return None

    def loop_spec(self, vc, env, coll, st):
        g = vc.ctx.ghost
        if isinstance(coll, SSeq):
            if g.get("unit") in ("handle_fds", "run"):
                if g["unit"] == "run":
                    g["why"] = fds_why

                def done(vc, env, D, pre):
                    g["handled"] = coll
                return LoopSpec("events", lambda vc, env, p, D, pre:
                                reg(H(vc)), start=fds_start, after=fds_after,
                                done=done)
            return None
        v = vc.as_view(coll)
        if v is None:
            return None
        if v.name() == "EL.source_timeout" and \
           g.get("unit") == "fire_timeouts" and calls_something(st):
            return LoopSpec("due", due_inv)
        return None


def head(vc, env):
    vc.ctx.ghost["last"] = None


def handled(vc):
    g = vc.ctx.ghost
    last, done = g.get("last"), g.get("handled")
    if last is None:
        return []
    return [("C19:every event polled is handled", z3.Or(
        last.ln() == 0, z3.BoolVal(done is not None and
                                   done.loc.get(0).eq(last.loc.get(0)))))]


def calls_something(st):
    import ast
    for n in ast.walk(ast.Module(body=st.body, type_ignores=[])):
        if isinstance(n, ast.Call) and not (
                isinstance(n.func, ast.Attribute) and
                n.func.attr in ("append", "add", "get")):
            return True
    return False


filenof = z3.Function("fileno", sort("XcmSock"), I)


def set_target(vc, o, cond):
    (t,) = TInt().enc(vc, cond)
    vc.hset("Target", z3.Store(vc.hget("Target"), o.t, t))


def pipe(vc, *a):
    r, w = vc.ctx.fresh("rfd", I), vc.ctx.fresh("wfd", I)
    vc.ctx.assume(z3.And(r >= 0, w >= 0, r != w,
                         z3.Not(z3.Select(vc.hget("Ep.dom"), r))))
    return (SInt(r), SInt(w))


def os_read(vc, fd, n):
    c = vc.ctx.choose(["data", "again"], "read")
    vc.ctx.ghost["signal"] = c == "data"
    if c == "again":
        raise ProgExc(BlockingIOError(errno.EAGAIN, "again"))
    return b"\x0f"


# ------------------------------------------------------------- loop specs
def due_inv(vc, env, V, D, pre):
    h = H(vc)
    p = H(vc, vc.ctx.ghost["entry"])
    nows = vc.ctx.ghost.get("nows", ())
    out = list(reg(h))
    if nows:
        out.append(("C19:due timeouts are fired", fa(s, z3.Implies(
            z3.And(z3.Select(V, s),
                   p.at("EL.source_timeout.val", s) <= nows[0]),
            h.at("Called", p.at("EL.source_handler.val", s))),
            z3.Select(V, s))))
    return out


def due_why(vc, fn, h):
    """a timeout handler may be called: its source was due on entry"""
    p = H(vc, vc.ctx.ghost["entry"])
    nows = vc.ctx.ghost.get("nows", ())
    if not nows:
        vc.ctx.prove(z3.BoolVal(False), "C19:no timeout is fired early")
        return
    vc.ctx.prove(z3.Exists([s], z3.And(
        p.at("EL.source_timeout.dom", s),
        p.at("EL.source_timeout.val", s) <= nows[-1],
        p.at("EL.source_handler.val", s) == fn)),
        "C19:no timeout is fired early")


def fds_start(vc, env, p):
    vc.ctx.ghost["it"] = dict(vc.ctx.heap)
    vc.ctx.ghost["calls"] = ()
    vc.ctx.ghost["signal"] = None


def cur_event(vc, p):
    return z3.Select(vc.ctx.ghost["events"].loc.get(1), p)


def fds_why(vc, fn, h):
    vc.ctx.prove(z3.Exists([f], z3.And(
        f != h("EL.s_rfd"),
        h.at("EL.fd_source.dom", f),
        fn == h.at("EL.source_handler.val", h.at("EL.fd_source.val", f)))),
        "C19:only handlers of registered sources are called")


def fds_after(vc, env, p, sig):
    h = H(vc, vc.ctx.ghost["it"])
    fd = cur_event(vc, p)
    calls = vc.ctx.ghost["calls"]
    src = h.at("EL.fd_source.val", fd)
    known = z3.And(fd != h("EL.s_rfd"), h.at("EL.fd_source.dom", fd))
    T = "C19:an event reaches the handler registered for its descriptor"
    out = [("C19:no event is left out", z3.BoolVal(sig is None or
                                                   sig[0] == "continue"))]
    if len(calls) == 0:
        out.append((T, z3.Not(known)))
    else:
        out.append((T, z3.And(known, z3.BoolVal(len(calls) == 1),
                              calls[0] == h.at("EL.source_handler.val",
                                               src))))
    sg = vc.ctx.ghost.get("signal")
    T = "C19:a signal stops the loop"
    out.append((T, (fd == h("EL.s_rfd")) == z3.BoolVal(sg is not None)))
    if sg:
        out.append((T, H(vc)("EL.stop")))
    return out


# ---------------------------------------------------------------- contracts
class ELContract(Contract):
    mod = ANY
    unit_name = None
    exc_tag = "C19"

    def requires(self, vc, a):
        return reg(H(vc))

    def prepare(self, vc):
        o = vc.w.instance(vc)
        if self.unit_name:
            vc.ctx.ghost["unit"] = self.unit_name
        return o

    def source(self, vc):
        r = SRef("Source", vc.ctx.fresh("source", SRC))
        vc.ctx.assume(vc.hget("Source.alive")[r.t])
        return r

    def frame(self, vc, a, old):
        """other sources keep their registration and their state"""
        new = H(vc)
        x = a[self.src].t
        same = []
        for n in FIELDS + ("EL.source_handler.dom", "EL.source_handler.val"):
            so = vc.w.comp_sorts[n]
            same.append(old.at(n, s) == new.at(n, s))
        return [("C19:other sources are unaffected", fa(
            s, z3.Implies(s != x, z3.And(*same)),
            new.at("EL.source_handler.dom", s),
            new.at("Source.fd.some", s), new.at("Source.timeout.some", s),
            new.at("Source.active", s)))]


def free_fd(vc, h, src, fd):
    """fd is not used by the loop or by another registered source, and, if it
    is src's own, has not been closed behind its back"""
    return z3.And(
        fd != h("EL.s_rfd"),
        z3.Implies(h.at("EL.fd_source.dom", fd),
                   h.at("EL.fd_source.val", fd) == src),
        z3.Implies(h.at("Closed", fd), z3.Or(
            z3.Not(h.at("Source.fd.some", src)),
            h.at("Source.fd", src) != fd)))


class SourceOp(ELContract):
    src = "self"

    def entry(self, vc):
        self.prepare(vc)
        return [self.source(vc)], {}

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        return reg(new) + self.frame(vc, a, old) + [
            ("C19:the source is changed as asked", self.effect(
                vc, a, old, new)),
            ("C19:registration is unaffected", z3.And(
                old("EL.source_handler.dom") == new("EL.source_handler.dom"),
                old("EL.source_handler.val") == new("EL.source_handler.val"),
                old("EL.stop") == new("EL.stop")))]

    def same(self, a, old, new, *names):
        x = a["self"].t
        return [old.at("Source." + n, x) == new.at("Source." + n, x)
                for n in names]


FDF = ("fd.some", "fd", "mask.some", "mask")
TOF = ("timeout.some", "timeout")
ACF = ("active",)


class SetFd(SourceOp):
    q = "eventloop.Source.set_fd"

    def entry(self, vc):
        a, kw = SourceOp.entry(self, vc)
        return a + [SInt(vc.ctx.fresh("fd", I)),
                    SInt(vc.ctx.fresh("mask", I))], {}

    def requires(self, vc, a):
        h = H(vc)
        return reg(h) + [("C19", free_fd(vc, h, a["self"].t, a["fd"].t))]

    def effect(self, vc, a, old, new):
        x = a["self"].t
        return z3.And(new.at("Source.fd.some", x),
                      new.at("Source.fd", x) == a["fd"].t,
                      new.at("Source.mask.some", x),
                      new.at("Source.mask", x) == a["mask"].t,
                      *self.same(a, old, new, *(TOF + ACF)))


class ClearFd(SourceOp):
    q = "eventloop.Source.clear_fd"

    def effect(self, vc, a, old, new):
        x = a["self"].t
        return z3.And(z3.Not(new.at("Source.fd.some", x)),
                      *self.same(a, old, new, *(TOF + ACF)))


class SetTimeout(SourceOp):
    q = "eventloop.Source.set_timeout"

    def entry(self, vc):
        a, kw = SourceOp.entry(self, vc)
        return a + [TOpt(TReal()).fresh(vc, "timeout")], {}

    def effect(self, vc, a, old, new):
        x = a["self"].t
        some, v = TOpt(TReal()).enc(vc, a["timeout"])
        return z3.And(new.at("Source.timeout.some", x) == some,
                      z3.Implies(some, new.at("Source.timeout", x) == v),
                      *self.same(a, old, new, *(FDF + ACF)))


class ClearTimeout(SourceOp):
    q = "eventloop.Source.clear_timeout"

    def effect(self, vc, a, old, new):
        x = a["self"].t
        return z3.And(z3.Not(new.at("Source.timeout.some", x)),
                      *self.same(a, old, new, *(FDF + ACF)))


class SetActive(SourceOp):
    q = "eventloop.Source.set_active"

    def effect(self, vc, a, old, new):
        return z3.And(new.at("Source.active", a["self"].t),
                      *self.same(a, old, new, *(FDF + TOF)))


class ClearActive(SourceOp):
    q = "eventloop.Source.clear_active"

    def effect(self, vc, a, old, new):
        return z3.And(z3.Not(new.at("Source.active", a["self"].t)),
                      *self.same(a, old, new, *(FDF + TOF)))


class Add(ELContract):
    q = "eventloop.EventLoop.add"
    src = "source"

    def entry(self, vc):
        o = self.prepare(vc)
        return [o, self.source(vc),
                SFn(vc.w.THandler, vc.ctx.fresh("handler", FN))], {}

    def requires(self, vc, a):
        h = H(vc)
        x = a["source"].t
        return reg(h) + [
            ("C19", z3.Not(h.at("EL.source_handler.dom", x))),
            ("C19", z3.Implies(h.at("Source.fd.some", x), z3.And(
                h.at("Source.mask.some", x),
                h.at("Source.fd", x) != h("EL.s_rfd"),
                z3.Not(h.at("EL.fd_source.dom", h.at("Source.fd", x))))))]

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        x = a["source"].t
        return reg(new) + self.frame(vc, a, old) + [
            ("C19:the source is registered", z3.And(
                new.at("EL.source_handler.dom", x),
                new.at("EL.source_handler.val", x) == a["handler"].t,
                *[old.at("Source." + n, x) == new.at("Source." + n, x)
                  for n in FDF + TOF + ACF]))]


class Remove(ELContract):
    q = "eventloop.EventLoop.remove"
    src = "source"

    def entry(self, vc):
        o = self.prepare(vc)
        return [o, self.source(vc)], {}

    def requires(self, vc, a):
        h = H(vc)
        return reg(h) + [("C19", h.at("EL.source_handler.dom",
                                      a["source"].t))]

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        x = a["source"].t
        return reg(new) + self.frame(vc, a, old) + [
            ("C19:the source is no longer registered",
             z3.Not(new.at("EL.source_handler.dom", x)))]


class Init(ELContract):
    q = "eventloop.EventLoop.__init__"
    mod = ANY + ("EL.s_rfd.some", "EL.s_rfd", "EL.s_wfd.some", "EL.s_wfd")

    def entry(self, vc):
        o = vc.w.loop
        o.__dict__.clear()
        vc.ctx.assume(fa(f, z3.Not(vc.hget("Ep.dom")[f]),
                         vc.hget("Ep.dom")[f]))
        vc.ctx.assume(fa(s, z3.Not(vc.hget("Source.listener.some")[s]),
                         vc.hget("Source.listener.some")[s]))
        return [o], {}

    def requires(self, vc, a):
        return []

    def ensures(self, vc, a, old, label, res):
        return reg(H(vc)) + [("C19:nothing registered at start", fa(
            s, z3.Not(H(vc).at("EL.source_handler.dom", s)),
            H(vc).at("EL.source_handler.dom", s)))]


class NextTimeout(ELContract):
    q = "eventloop.EventLoop.next_relative_timeout"
    mod = ()

    def entry(self, vc):
        return [self.prepare(vc)], {}

    def result(self, vc, a, label):
        # one reading of the clock
        now(vc)
        return SReal(vc.ctx.fresh("left", R))

    def ensures(self, vc, a, old, label, res):
        h = H(vc)
        if res is None:
            return [("C19:wait time", z3.BoolVal(False))]
        t = as_real(res)
        nows = vc.ctx.ghost.get("nows", ())
        none = fa(s, z3.Not(h.at("EL.source_timeout.dom", s)),
                  h.at("EL.source_timeout.dom", s))
        dom = lambda x: h.at("EL.source_timeout.dom", x)
        val = lambda x: h.at("EL.source_timeout.val", x)
        out = [("C19:waits for ever only without timeouts",
                z3.Implies(t < 0, z3.And(t == -1, none)))]
        if not nows:
            return out + [("C19:wait time", none), (
                "C19:a wait time that epoll accepts",
                t * 1000 <= (1 << 31) - 1)]
        n = nows[-1]
        return out + [
            ("C19:wait time is not negative and not beyond the earliest",
             fa(s, z3.Implies(dom(s), z3.And(
                 t >= 0, z3.Or(t == 0, n + t <= val(s)))), dom(s))),
            ("C19:no wait only if something is due", z3.Implies(
                t == 0, z3.Exists([s], z3.And(dom(s), val(s) <= n)))),
            ("C19:a wait time that epoll accepts",
             t * 1000 <= (1 << 31) - 1)
        ]


class FireTimeouts(ELContract):
    q = "eventloop.EventLoop.fire_timeouts"
    unit_name = "fire_timeouts"
    mod = ANY + ("Called",)

    def entry(self, vc):
        o = self.prepare(vc)
        vc.ctx.ghost["why"] = due_why
        vc.ctx.assume(fa(z3.Const("fn", FN), z3.Not(
            vc.hget("Called")[z3.Const("fn", FN)]),
            vc.hget("Called")[z3.Const("fn", FN)]))
        return [o], {}

    def verify(self, vc, f):
        vc.ctx.ghost["entry"] = vc.ctx.heap
        ELContract.verify(self, vc, f)

    def requires(self, vc, a):
        vc.ctx.ghost["entry"] = dict(vc.ctx.heap)
        return reg(H(vc))

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        if "unit" in vc.ctx.ghost and vc.ctx.ghost["unit"] == \
           "fire_timeouts":
            nows = vc.ctx.ghost.get("nows", ())
            due = z3.Not(old.at("EL.source_timeout.dom", s)) if not nows \
                else z3.Implies(z3.And(
                    old.at("EL.source_timeout.dom", s),
                    old.at("EL.source_timeout.val", s) <= nows[0]),
                    new.at("Called", old.at("EL.source_handler.val", s)))
            return reg(new) + [("C19:due timeouts are fired", fa(
                s, due, old.at("EL.source_timeout.dom", s)))]
        return reg(new)


class FireActives(ELContract):
    q = "eventloop.EventLoop.fire_actives"
    unit_name = "fire_actives"
    mod = ANY + ("Called",)

    def entry(self, vc):
        o = self.prepare(vc)

        def why(vc, fn, h):
            vc.ctx.prove(z3.Exists([s], z3.And(
                h.at("EL.source_active.dom", s),
                h.at("EL.source_handler.val", s) == fn)),
                "C19:only handlers of active sources are called")
        vc.ctx.ghost["why"] = why
        return [o], {}

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        return reg(new) + [("C19:no source left active", fa(
            s, z3.Not(new.at("EL.source_active.dom", s)),
            new.at("EL.source_active.dom", s)))]


class HandleFds(ELContract):
    q = "eventloop.EventLoop.handle_fds"
    unit_name = "handle_fds"
    mod = ANY + ("Called",)

    def entry(self, vc):
        o = self.prepare(vc)
        seq = vc.w.TEVENTS.fresh(vc, "events")
        vc.ctx.assume(seq.ln() >= 0)
        vc.ctx.ghost["events"] = seq
        vc.ctx.ghost["why"] = fds_why
        return [o, seq], {}

    def call_ghost(self, vc, a):
        vc.ctx.ghost["handled"] = a["fds"]

    def ensures(self, vc, a, old, label, res):
        return reg(H(vc))


class Run(ELContract):
    q = "eventloop.EventLoop.run"
    unit_name = "run"
    mod = ANY + ("Called",)

    def entry(self, vc):
        o = self.prepare(vc)
        vc.ctx.ghost["in_run"] = True
        return [o], {}

    def ensures(self, vc, a, old, label, res):
        return reg(H(vc)) + handled(vc) + [
            ("C19:run ends only when stopped", H(vc)("EL.stop"))]


class Stop(ELContract):
    q = "eventloop.EventLoop.stop"
    mod = ("EL.stop",)

    def entry(self, vc):
        return [self.prepare(vc)], {}

    def ensures(self, vc, a, old, label, res):
        return reg(H(vc)) + [("C19:stop", H(vc)("EL.stop"))]


def units():
    us = []
    for c in (Init, Add, Remove, SetFd, ClearFd, SetTimeout, ClearTimeout,
              SetActive, ClearActive, NextTimeout, FireTimeouts, FireActives,
              HandleFds, Stop):
        us.append(Unit("eventloop", ELWorld, c(), {"C19"}))
    us.append(Unit("eventloop", ELWorld, Run(), {"C19"}, contracts=[
        FireTimeouts(), FireActives(), HandleFds(), NextTimeout()]))
    return us


ASSUMES = {"C19": [
    "epoll: register fails iff the descriptor is registered, unregister and "
    "modify fail with FileNotFoundError iff it is not; a poll reports only "
    "registered descriptors; a descriptor leaves the epoll set by itself "
    "only when it is closed",
    "users of the loop: a source is added to one loop at a time; no two "
    "registered sources use the same descriptor; a source whose descriptor "
    "was closed is given another one or cleared before it is given the same "
    "number again",
    "handlers act on the loop only through the API of Source and EventLoop, "
    "and do not raise",
    "the clock does not go backwards; times are real numbers (no NaN)",
    "signal, pipe and fcntl calls in __init__ succeed"]}
