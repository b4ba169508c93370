"""paf.server under contract: connections, transactions, request handlers and
the server's bookkeeping (C13, C14, C15, C18, C20, C22, and the translation
between messages and the service discovery for C01-C08, C16)."""
import collections
import errno
import types
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import (VC, SBound, CellValue, BuiltinMethod, SymRange,
                         IFunc, View)
from pyvc.loops import LoopSpec
from pyvc.runner import Unit
from . import jsonval
from .jsonval import J, SJ, STR, S
from dyn import refproto

CON, TA, SRC, SOCK, SUB, SVC, TIM, WIRE, FIL = [sort(x) for x in (
    "Conn", "Ta", "Source", "Sock", "Subscription", "Service", "Timer",
    "Wire", "Filter")]
matchf = z3.Function("filter_match", FIL, sort("Props"), B)
w_ta = z3.Function("w_ta", WIRE, I)
w_type = z3.Function("w_type", WIRE, I)
MT = ["accept", "notify", "complete", "fail"]
c, c2, s, t, w, x = z3.Const("c", CON), z3.Const("c2", CON), \
    z3.Const("s", SRC), z3.Const("t", TA), z3.Const("w", WIRE), z3.Int("x")
j, k, i = z3.Ints("j k i")
ISET = z3.ArraySort(I, B)
MAXI = (1 << 63) - 1

REASONS = {
    "no-hello", "track-exists", "client-id-exists", "invalid-filter-syntax",
    "subscription-id-exists", "non-existent-subscription-id",
    "non-existent-service-id", "unsupported-protocol-version",
    "permission-denied", "old-generation", "same-generation-but-different",
    "insufficient-resources"}


def fa(vs, body, *pats):
    ps = [z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats]
    return z3.ForAll(vs if isinstance(vs, list) else [vs], body, patterns=ps)


# ------------------------------------------------------------------ types
class TBoundOf(T):
    """A method of a singleton."""
    def __init__(self, cls, name, obj):
        self.cls, self.name, self.obj = cls, name, obj

    def comps(self):
        return []

    def fn(self, vc):
        f = self.cls.__dict__.get(self.name)
        if f is None:
            raise Unsupported("%s.%s no longer exists" % (
                self.cls.__name__, self.name))
        return f

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, SBound) and v.fn is self.fn(vc) and \
           v.obj is vc.singletons[self.obj]:
            return []
        raise Unsupported("callback is not %s" % self.name)

    def dec(self, vc, terms):
        return SBound(self.fn(vc), vc.singletons[self.obj])


class TBoundRef(TBoundOf):
    """A method of a heap object."""
    def comps(self):
        return [("", sort(self.obj))]

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, SBound) and v.fn is self.fn(vc) and \
           isinstance(v.obj, SRef) and v.obj.cls == self.obj:
            return [v.obj.t]
        raise Unsupported("callback is not %s" % self.name)

    def dec(self, vc, terms):
        return SBound(self.fn(vc), SRef(self.obj, terms[0]))


class Sink(Sym):
    def __repr__(self):
        return "Sink"

    def sym_call(self, vc, args, kw):
        return None


class TSink(T):
    """A logging function: its calls have no effect."""
    def comps(self):
        return []

    def enc(self, vc, v):
        return []

    def dec(self, vc, terms):
        return Sink()


class SAttr(Sym):
    """An attribute of a transaction type that is one of several."""
    def __init__(self, vals, t):
        self.vals, self.t = vals, t

    def __repr__(self):
        return "SAttr(%s)" % self.t

    def sym_eq(self, vc, o):
        if isinstance(o, SAttr):
            return vc.eq(self.pick(vc), o)
        return mkbool(z3.simplify(z3.Or(*[
            self.t == n for n, v in enumerate(self.vals)
            if type(v) is type(o) and v == o] or [z3.BoolVal(False)])))

    def sym_is(self, vc, o):
        return self.sym_eq(vc, o)

    def sym_str(self, vc):
        return SText()

    def pick(self, vc):
        return self.vals[pick(vc, self.t, len(self.vals))]

    def sym_getattr(self, vc, name):
        return vc.getattr(self.pick(vc), name)

    def sym_contains(self, vc, k):
        return vc.contains(k, self.pick(vc))

    def sym_getitem(self, vc, k):
        return vc.getitem(self.pick(vc), k)

    def sym_iter(self, vc):
        yield from vc.segments(self.pick(vc))

    def sym_truth(self, vc):
        return vc.truth(self.pick(vc))


def pick(vc, t, n):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    for m in range(n - 1):
        if vc.ctx.branch(t == m, "is type %d" % m):
            return m
    vc.ctx.assume(t == n - 1)
    return n - 1


class STaType(Sym):
    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return "STaType(%s)" % self.t

    def sym_getattr(self, vc, name):
        try:
            vals = [getattr(o, name) for o in self.ty.objs]
        except AttributeError:
            return vc.getattr(self.ty.objs[pick(vc, self.t,
                                                len(self.ty.objs))], name)
        if any(isinstance(v, types.MethodType) for v in vals):
            return vc.getattr(self.ty.objs[pick(vc, self.t,
                                                len(self.ty.objs))], name)
        return SAttr(vals, self.t)

    def sym_is(self, vc, o):
        return self.sym_eq(vc, o)

    def sym_eq(self, vc, o):
        if o is None:
            return False
        return mkbool(z3.simplify(self.t == self.ty.enc(vc, o)[0]))


class TTaType(T):
    def __init__(self, objs):
        self.objs = objs

    def comps(self):
        return [("", I)]

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, STaType):
            return [v.t]
        for n, o in enumerate(self.objs):
            if o is v:
                return [z3.IntVal(n)]
        raise Unsupported("not a transaction type: %r" % (v,))

    def dec(self, vc, terms):
        if z3.is_int_value(terms[0]):
            return self.objs[terms[0].as_long()]
        return STaType(self, terms[0])

    def index(self, cmd):
        return [n for n, o in enumerate(self.objs) if o.cmd == cmd]


class SFilterText(SText):
    """str() of a filter"""
    def __init__(self, t):
        self.t = t

    def sym_eq(self, vc, o):
        if isinstance(o, SFilterText):
            return mkbool(z3.simplify(self.t == o.t))
        raise Unsupported("text of a filter compared")


class SWire(Sym):
    """An outgoing wire message."""
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SWire(%s)" % self.t


class SIn(Sym):
    """A received wire message."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "SIn"

    def sym_len(self, vc):
        return SInt(self.n)

    def sym_truth(self, vc):
        return vc.ctx.branch(self.n != 0, "not empty")


class TQueue(T):
    """A FIFO as absolute positions head..tail of an array of messages."""
    def comps(self):
        return [(".head", I), (".tail", I), (".el", z3.ArraySort(I, WIRE))]

    def enc(self, vc, v):
        if isinstance(v, (collections.deque, list)) and not v:
            vc.escape(v)
            return [z3.IntVal(0), z3.IntVal(0),
                    vc.ctx.fresh("el", z3.ArraySort(I, WIRE))]
        raise Unsupported("queue assigned %r" % (v,))

    def dec(self, vc, terms):
        raise Unsupported("queue outside a field")

    def dec_at(self, vc, loc):
        return SQueue(vc, loc, self)


class SQueue(Container):
    def length(self):
        return mkint(z3.simplify(self.loc.get(1) - self.loc.get(0)))

    def sym_len(self, vc):
        return self.length()

    def sym_truth(self, vc):
        return vc.ctx.branch(self.loc.get(1) > self.loc.get(0), "queued")

    def sym_getattr(self, vc, name):
        m = {"append": self.append, "popleft": self.popleft,
             "appendleft": self.appendleft, "clear": self.clear}.get(name)
        if m is None:
            raise Unsupported("%s of the outgoing queue" % name)
        return BuiltinMethod(name, self, lambda *a: m(vc, *a))

    def sym_getitem(self, vc, n):
        n = vc.force(n)
        if n != 0 or isinstance(n, Sym):
            raise Unsupported("item of the outgoing queue")
        if not self.sym_truth(vc):
            raise ProgExc(IndexError("deque index out of range"))
        return SWire(z3.Select(self.loc.get(2), self.loc.get(0)))

    def sym_delitem(self, vc, n):
        self.sym_getitem(vc, n)
        self.loc.set(0, self.loc.get(0) + 1)

    def clear(self, vc):
        self.loc.set(0, self.loc.get(1))

    def append(self, vc, v):
        v = vc.force(v)
        if not isinstance(v, SWire):
            raise Unsupported("%r queued" % (v,))
        queued(vc, self.loc.ref, v)
        n = self.loc.get(1)
        self.loc.set(2, z3.Store(self.loc.get(2), n, v.t))
        self.loc.set(1, n + 1)

    def popleft(self, vc):
        if not self.sym_truth(vc):
            raise ProgExc(IndexError("pop from an empty deque"))
        n = self.loc.get(0)
        v = z3.simplify(z3.Select(self.loc.get(2), n))
        self.loc.set(0, n + 1)
        return SWire(v)

    def appendleft(self, vc, v):
        v = vc.force(v)
        if not isinstance(v, SWire):
            raise Unsupported("%r queued" % (v,))
        n = self.loc.get(0) - 1
        el = self.loc.get(2)
        vc.ctx.prove(z3.Select(el, n) == v.t,
                     "C20:only the message taken last is put back")
        self.loc.set(0, n)


# --------------------------------------------------------- responses (C14)
def to_wire(vc, f, args, kw):
    """Message.to_wire: (C12 proves what it produces) accepts exactly the
    arguments its transaction type lists."""
    (m,) = args
    ctx = vc.ctx
    ty = m.ta_type
    if isinstance(ty, STaType):
        ty = ty.ty.objs[pick(vc, ty.t, len(ty.ty.objs))]
    mt = vc.force(m.msg_type)
    if not isinstance(mt, str) or mt not in MT:
        ctx.prove(z3.BoolVal(False), "C14:a message type of the server")
        raise PathEnd()
    (ta_id,) = TInt().enc(vc, m.ta_id)
    fields = ty.fields[mt]
    opt = ty.opt_fields[mt]
    a = [vc.force(v) for v in m.args]
    ctx.prove(z3.BoolVal(len(a) == len(fields)),
              "C13,C14:as many values as the message type has fields")
    oa = {n: vc.force(v) for n, v in dict(m.optargs).items()}
    names = {fl.python_name(): fl for fl in opt}
    ctx.prove(z3.BoolVal(set(oa) <= set(names)),
              "C13,C14:only fields of the message type")
    for fl, v in zip(fields, a):
        ctx.prove(z3.BoolVal(kind_ok(fl, v, vc)),
                  "C13,C14:values of the types of the fields: %s" % fl.name)
    for n, v in oa.items():
        ctx.prove(z3.BoolVal(v is None or n not in names or
                             kind_ok(names[n], v, vc)),
                  "C13,C14:values of the types of the fields: %s" % n)
    if mt == "fail":
        r = oa.get("fail_reason")
        ctx.prove(z3.BoolVal(isinstance(r, str) and r in REASONS),
                  "C14:documented failure reason")
    wt = ctx.fresh("wire", WIRE)
    vc.keep.append(wt)
    ctx.assume(z3.And(w_ta(wt) == ta_id, w_type(wt) == MT.index(mt)))
    g = ctx.ghost
    pay = dict(g.get("payload", {}))
    pay[wt.get_id()] = (ty, ta_id, mt, tuple(a), oa)
    g["payload"] = pay
    g["created"] = g.get("created", ()) + (wt,)
    return SWire(wt)


def kind_ok(fl, v, vc):
    n = type(fl).__name__
    if n == "StringField":
        return isinstance(v, (str, SText)) or isinstance(v, SAtom) and \
            v.ty.name in ("Addr", "User") or isinstance(v, SJ) and \
            vc.ctx.entails(J.is_Jstr(v.t))
    if n == "NonNegativeIntField":
        return isinstance(v, (int, SInt)) and not isinstance(v, bool)
    if n == "NonNegativeNumberField":
        return isinstance(v, (int, float, SInt, SReal)) and \
            not isinstance(v, bool)
    if n == "PropsField":
        return isinstance(v, SAtom) and v.ty.name == "Props"
    raise Unsupported("field type %s" % n)


def ans(vc, conn, ta):
    return z3.Select(z3.Select(vc.hget("Ans"), conn), ta)


def set_ans(vc, conn, ta, v):
    a = vc.hget("Ans")
    vc.hset("Ans", z3.Store(a, conn, z3.Store(z3.Select(a, conn), ta,
                                              z3.IntVal(v))))


def queued(vc, conn, v):
    """A message is put on a connection's outgoing queue."""
    ctx = vc.ctx
    g = ctx.ghost
    created = g.get("created", ())
    ok = bool(created) and created[0].eq(v.t)
    ctx.prove(z3.BoolVal(ok),
              "C14,C20:messages are queued once each, as they are made")
    g["created"] = created[1:]
    p = g.get("payload", {}).get(v.t.get_id())
    if p is None:
        if not ok:
            raise PathEnd()
        raise Unsupported("message of unknown origin queued")
    ty, ta_id, mt, a, oa = p
    ia = ty.ia_type.name
    st = ans(vc, conn, ta_id)
    cur = g.get("cur")          # (conn, ta id) of the request in progress
    here = z3.BoolVal(False) if cur is None or g.get("answered") else \
        z3.And(conn == cur[0], ta_id == cur[1])
    log = g.get("responses", ())
    g["responses"] = log + ((conn, ta_id, mt, a, oa, ty),)
    if mt == "accept":
        ctx.prove(z3.BoolVal(ia != "SINGLE_RESPONSE"),
                  "C14:no accept of a single-response command")
        ctx.prove(z3.And(here, st == 0), "C14:accept answers the request, "
                  "once")
        set_ans(vc, conn, ta_id, 2)
    elif mt == "notify":
        ctx.prove(st == 2, "C14:notifications only between accept and the "
                  "terminal message")
    elif mt == "complete" and ia != "SINGLE_RESPONSE":
        ctx.prove(st == 2, "C14:complete follows accept, once")
        set_ans(vc, conn, ta_id, 0)
        if cur is not None:
            g["completed"] = g.get("completed", ()) + ((conn, ta_id),)
    else:
        ctx.prove(z3.And(here, st == 0), "C14:one terminal message answers "
                  "the request")
        g["answered"] = True


# ------------------------------------------------------------ environment
def sock_send(vc, o, msg):
    ctx = vc.ctx
    what = ctx.choose(["sent", "would block", "error"], "send")
    if what == "sent":
        msg = vc.force(msg)
        conn = ctx.ghost.get("sending")
        if conn is None or not isinstance(msg, SWire):
            raise Unsupported("send outside activate")
        h = H(vc)
        sent = h.at("Sent", conn)
        ctx.prove(z3.And(sent < h.at("Conn.out_wire_msgs.tail", conn),
                         z3.Select(h.at("Conn.out_wire_msgs.el", conn),
                                   sent) == msg.t),
                  "C20:messages are sent in order, once each")
        ctx.prove(h.at("Conn.conn_sock", conn) == o.t,
                  "C20:sent to the client they are for")
        vc.hset("Sent", z3.Store(vc.hget("Sent"), conn, sent + 1))
        return None
    raise ProgExc(vc.w.xcm.error(
        errno.EAGAIN if what == "would block" else errno.ECONNRESET, "..."))


def sock_receive(vc, o):
    ctx = vc.ctx
    what = ctx.choose(["message", "would block", "error"], "receive")
    conn = ctx.ghost.get("sending")
    if conn is not None:
        h = H(vc)
        ctx.prove(h.at("Conn.out_wire_msgs.tail", conn) -
                  h.at("Conn.out_wire_msgs.head", conn) < vc.w.limit,
                  "C20:no requests are read at or above the soft limit")
    if what == "message":
        n = ctx.fresh("inlen", I)
        ctx.assume(n >= 0)
        return SIn(n)
    raise ProgExc(vc.w.xcm.error(
        errno.EAGAIN if what == "would block" else errno.ECONNRESET, "..."))


def sock_accept(vc, o):
    ctx = vc.ctx
    h = H(vc)
    ctx.prove(z3.Or(z3.Not(h("Max.some")),
                    num_conns(vc, h) < h("Max")),
              "C18:no connection is accepted at the limit")
    what = ctx.choose(["accepted", "would block", "error"], "accept")
    if what == "accepted":
        r = vc.new_ref("Sock")
        return r
    raise ProgExc(vc.w.xcm.error(
        errno.EAGAIN if what == "would block" else errno.EMFILE, "..."))


def sock_get_attr(vc, o, name):
    ctx = vc.ctx
    if ctx.choose(["value", "error"], "get_attr") == "error":
        e = vc.w.xcm.error(errno.ENOENT, "...")
        e.errno = SInt(ctx.fresh("errno", I))
        raise ProgExc(e)
    if name == "xcm.remote_addr":
        return SAtom(TAtom("Addr"), ctx.fresh("addr", sort("Addr")))
    if name == "xcm.transport":
        return ctx.choose(["tls", "tcp", "ux"], "transport")
    raise Unsupported("attribute %s of a socket" % name)


def sock_close(vc, o):
    g = vc.ctx.ghost
    vc.hset("Sock.closed", z3.Store(vc.hget("Sock.closed"), o.t,
                                    z3.BoolVal(True)))
    g["closed"] = g.get("closed", ()) + (o.t,)


def new_source(vc, sock):
    r = vc.new_ref("Source")
    vc.hset("Source.reg", z3.Store(vc.hget("Source.reg"), r.t,
                                   z3.BoolVal(False)))
    vc.hset("Source.kind", z3.Store(vc.hget("Source.kind"), r.t,
                                    z3.IntVal(vc.ctx.ghost.get("kind", 1))))
    return r


class Ext:
    """A contract on a function outside server.py."""
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, vc, f, args, kw):
        import inspect
        try:
            b = inspect.signature(f).bind(*args, **kw)
        except TypeError as e:
            raise ProgExc(TypeError(str(e)))
        b.apply_defaults()
        d = dict(b.arguments)
        d.pop("self", None)
        return self.fn(vc, args[0] if args else None, d)


def source_update(vc, o, a):
    (n,) = TInt().enc(vc, a["condition"])
    vc.hset("Source.cond", z3.Store(vc.hget("Source.cond"), o.t, n))


def loop_add(vc, o, a):
    src, handler = vc.force(a["source"]), a["handler"]
    ctx = vc.ctx
    srv = vc.w.srv
    if src is vc.singletons["timer_source"]:
        ctx.prove(z3.BoolVal(
            isinstance(handler, SBound) and
            handler.obj is vc.singletons["server"] and
            handler.fn is srv.Server.__dict__.get("timer_activate") and
            not ctx.ghost.get("timer_source")),
            "C11,C16:timers are served")
        ctx.ghost["timer_source"] = True
        return
    if not isinstance(src, SRef):
        raise Unsupported("source added")
    ctx.prove(z3.Not(z3.Select(vc.hget("Source.reg"), src.t)),
              "C13:a source is added once")
    so = vc.singletons["server"]
    if isinstance(handler, SBound) and handler.obj is so and \
       handler.fn is srv.Server.__dict__.get("sock_activate"):
        ctx.prove(z3.Select(vc.hget("Source.kind"), src.t) == 2,
                  "C18:server sockets are served")
        vc.hset("Source.reg", z3.Store(vc.hget("Source.reg"), src.t,
                                       z3.BoolVal(True)))
        return
    if not (isinstance(handler, SBound) and
            handler.fn is srv.Connection.__dict__.get("activate") and
            isinstance(handler.obj, SRef)):
        raise Unsupported("handler of a source")
    cn = handler.obj.t
    vc.hset("Source.reg", z3.Store(vc.hget("Source.reg"), src.t,
                                   z3.BoolVal(True)))
    vc.hset("Source.conn", z3.Store(vc.hget("Source.conn"), src.t, cn))
    # ghost: a new connection has no open transactions, nothing sent
    vc.hset("Ans", z3.Store(vc.hget("Ans"), cn, z3.K(I, z3.IntVal(0))))
    vc.hset("Sent", z3.Store(vc.hget("Sent"), cn, z3.IntVal(0)))


def loop_remove(vc, o, a):
    src = vc.force(a["source"])
    if not isinstance(src, SRef):
        raise Unsupported("source removed")
    vc.ctx.prove(z3.Select(vc.hget("Source.reg"), src.t),
                 "C13:only registered sources are removed")
    vc.hset("Source.reg", z3.Store(vc.hget("Source.reg"), src.t,
                                   z3.BoolVal(False)))


def timer_add(vc, o, a):
    fn = vc.force(a["handler"])
    srv = vc.w.srv
    if not (isinstance(fn, SBound) and fn.obj is vc.singletons["server"] and
            fn.fn is srv.Server.__dict__.get("clean_out_handler")):
        raise Unsupported("timer for another handler")
    if a.get("relative"):
        raise Unsupported("relative clean-out timer")
    exp = as_real(vc.force(a["expiration_time"]))
    now = vc.ctx.ghost.get("now")
    if now is None:
        raise Unsupported("timer set without reading the clock")
    vc.ctx.prove(exp <= now + 1, "C18:the next scan is within a second")
    r = vc.new_ref("Timer")
    vc.hset("TM.active", z3.Store(vc.hget("TM.active"), r.t,
                                  z3.BoolVal(True)))
    return r


# -- the service discovery, seen from the server
QUEUE = ("Conn.out_wire_msgs.tail", "Conn.out_wire_msgs.el", "Source.cond")
SERVICES = ("Sd.services.dom", "Sd.services.val")
SUBS = ("Sd.sub.dom", "Sd.sub.val")


def service_comps(vc):
    return [n for n in vc.w.comp_sorts if n.startswith("Service.")]


def wf_services(vc, h):
    d = h("Sd.services.dom")
    v = z3.Select(h("Sd.services.val"), j)
    return fa(j, z3.Implies(z3.Select(d, j), z3.And(
        h.at("Service.alive", v), h.at("Service.service_id", v) == j,
        h.at("Service.cur.some", v))), z3.Select(d, j), v)


def notifications(vc):
    """The match callbacks an operation may call: each puts one notification
    on the queue of the subscription's connection (subscription_triggered)."""
    ctx = vc.ctx
    old = H(vc)
    for n, g in inv_cb(vc, old):
        ctx.prove(g, n)
    for m in QUEUE:
        vc.havoc(m)
    new = H(vc)
    for f_ in notified(vc, old, new):
        ctx.assume(f_)


def notified(vc, old, new):
    """what callbacks may do to the queues"""
    q = "Conn.out_wire_msgs"
    tl = lambda h: h.at(q + ".tail", c)
    tl_ = lambda h: h.at(q + ".tail", h.at("Source.conn", s))
    return [
        fa(c, z3.And(tl(new) >= tl(old),
                     z3.Implies(z3.Not(is_open(old, c)),
                                tl(new) == tl(old))), tl(new)),
        fa([c, i], z3.Implies(i < tl(old), z3.Select(
            new.at(q + ".el", c), i) == z3.Select(old.at(q + ".el", c), i)),
            z3.Select(new.at(q + ".el", c), i)),
        fa(c, z3.Implies(tl(new) == tl(old), new.at(q + ".el", c) ==
                         old.at(q + ".el", c)), new.at(q + ".el", c)),
        fa(s, z3.If(z3.And(old.at("Source.reg", s),
                           old.at("Source.kind", s) == 1,
                           is_open(old, old.at("Source.conn", s))),
                    z3.Implies(
                        old.at("Conn.conn_source",
                               old.at("Source.conn", s)) == s,
                        z3.Or(z3.And(
                            new.at("Source.cond", s) ==
                            old.at("Source.cond", s),
                            tl_(new) == tl_(old)),
                            new.at("Source.cond", s) ==
                            cond_of(vc, new, new.at("Source.conn", s)))),
                    new.at("Source.cond", s) == old.at("Source.cond", s)),
            new.at("Source.cond", s))]


def record(vc, name, a, label):
    g = vc.ctx.ghost
    g["sd_calls"] = g.get("sd_calls", ()) + ((name, dict(a), label),)


def sd_op(name, outcomes, effect=None, pre=None):
    """An operation of the service discovery with the given outcomes; only
    'ok' has an effect."""
    def call(vc, o, a):
        ctx = vc.ctx
        if pre is not None:
            pre(vc, a)
        labels = ["ok"] + [x for x in outcomes if x != "ok"]
        lab = ctx.choose(labels, name)
        record(vc, name, a, lab)
        if lab != "ok":
            exc = getattr(vc.w.sd, lab)
            e = exc.__new__(exc)
            e.args = ("...",)
            raise ProgExc(e)
        return effect(vc, a) if effect is not None else None
    return Ext(call)


def sel(vc, name, kx):
    return z3.Select(vc.hget(name), kx)


def client_of(vc, a):
    cid = vc.force(a["client_id"])
    if cid is None:
        vc.ctx.prove(z3.BoolVal(False), "C13,C15:operation of a client")
        raise PathEnd()
    return TInt().enc(vc, cid)[0]


def must_connected(vc, a):
    vc.ctx.prove(sel(vc, "Sd.conn", client_of(vc, a)),
                 "C13,C15:only connected clients operate")


def eff_connect(vc, a):
    k0 = client_of(vc, a)
    h = H(vc)
    vc.ctx.assume(z3.Not(z3.Select(h("Sd.conn"), k0)))
    vc.hset("Sd.conn", z3.Store(h("Sd.conn"), k0, z3.BoolVal(True)))
    vc.hset("Sd.known", z3.Store(h("Sd.known"), k0, z3.BoolVal(True)))


def pre_connect(vc, a):
    srv = vc.w.srv
    cb = vc.force(a["conn_idle_cb"])
    vc.ctx.prove(z3.BoolVal(
        isinstance(cb, SBound) and cb.obj is vc.singletons["server"] and
        cb.fn is srv.Server.__dict__.get("client_idle")),
        "C16:idle events go to the server")
    vc.ctx.prove(z3.BoolVal(vc.force(a["idle_limit"]) is
                            vc.singletons["idle_limit"]),
                 "C16:the configured idle limits apply")
    u = a["user_id"]
    vc.ctx.prove(z3.BoolVal(u is vc.ctx.ghost.get("user")),
                 "C04:the user is that of the connection")
    vc.ctx.ghost["connect_id"] = client_of(vc, a)


def eff_disconnect(vc, a):
    k0 = client_of(vc, a)
    ctx = vc.ctx
    old = H(vc)
    vc.hset("Sd.conn", z3.Store(old("Sd.conn"), k0, z3.BoolVal(False)))
    for m in SUBS + SERVICES + ("Sd.known",) + tuple(service_comps(vc)):
        vc.havoc(m)
    new = H(vc)
    jd = lambda h: z3.Select(h("Sd.sub.dom"), j)
    jv = lambda h: z3.Select(h("Sd.sub.val"), j)
    ctx.assume(fa(j, z3.And(
        jd(new) == z3.And(jd(old), old.at("Subscription.client_id",
                                          jv(old)) != k0),
        jv(new) == jv(old)), jd(new), jv(new)))
    ctx.assume(wf_services(vc, new))
    ctx.assume(fa(k, z3.Implies(z3.Select(new("Sd.conn"), k),
                                z3.Select(new("Sd.known"), k)),
                  z3.Select(new("Sd.conn"), k)))
    notifications(vc)


def eff_publish(vc, a):
    ctx = vc.ctx
    (i0,) = TInt().enc(vc, a["service_id"])
    for m in SERVICES + tuple(service_comps(vc)):
        vc.havoc(m)
    new = H(vc)
    ctx.assume(wf_services(vc, new))
    ctx.assume(z3.Select(new("Sd.services.dom"), i0))
    v = z3.Select(new("Sd.services.val"), i0)
    g = lambda n: new.at("Service.cur." + n, v)
    ctx.assume(z3.And(
        g("generation") == TInt().enc(vc, a["generation"])[0],
        g("props") == TAtom("Props").enc(vc, a["service_props"])[0],
        g("ttl") == TInt().enc(vc, a["ttl"])[0],
        g("client_id") == client_of(vc, a)))
    notifications(vc)
    return SRef("Service", v)


def eff_unpublish(vc, a):
    for m in SERVICES + tuple(service_comps(vc)):
        vc.havoc(m)
    vc.ctx.assume(wf_services(vc, H(vc)))
    notifications(vc)


def eff_create(vc, a):
    ctx = vc.ctx
    srv = vc.w.srv
    cb = vc.force(a["match_cb"])
    if not (isinstance(cb, SBound) and isinstance(cb.obj, SRef) and
            cb.fn is srv.Connection.__dict__.get("subscription_triggered")):
        raise Unsupported("match callback")
    (j0,) = TInt().enc(vc, a["sub_id"])
    h = H(vc)
    ctx.assume(z3.Not(z3.Select(h("Sd.sub.dom"), j0)))
    r = vc.new_ref("Subscription")
    vc.set_field("Subscription", "sub_id", r.t, a["sub_id"])
    vc.set_field("Subscription", "client_id", r.t, a["client_id"])
    vc.set_field("Subscription", "filter", r.t, a["filter"])
    vc.hset("Sub.conn", z3.Store(vc.hget("Sub.conn"), j0, cb.obj.t))
    m = vc.cell("Sd.sub", vc.w.maps["Sd.sub"])
    m.setitem(a["sub_id"], r)
    cur = ctx.ghost.get("cur")
    if cur is None:
        raise Unsupported("subscription created outside a request")
    # ghost: the transaction the subscription belongs to
    so = vc.hget("Sub.of")
    vc.hset("Sub.of", z3.Store(so, cur[0], z3.Store(
        z3.Select(so, cur[0]), cur[1], j0)))
    return r


def pre_activate(vc, a):
    must_connected(vc, a)
    (j0,) = TInt().enc(vc, a["sub_id"])
    h = H(vc)
    v = z3.Select(h("Sd.sub.val"), j0)
    vc.ctx.prove(z3.And(z3.Select(h("Sd.sub.dom"), j0),
                        h.at("Subscription.client_id", v) ==
                        client_of(vc, a)),
                 "C06:the client's own subscription is activated")


def eff_unsubscribe(vc, a):
    ctx = vc.ctx
    (j0,) = TInt().enc(vc, a["sub_id"])
    h = H(vc)
    v = z3.Select(h("Sd.sub.val"), j0)
    ctx.assume(z3.And(z3.Select(h("Sd.sub.dom"), j0),
                      h.at("Subscription.client_id", v) == client_of(vc, a)))
    m = vc.cell("Sd.sub", vc.w.maps["Sd.sub"])
    m.delitem(a["sub_id"])


def sd_has_client(vc, o, a):
    return mkbool(sel(vc, "Sd.known", client_of(vc, a)))


def sd_last_seen(vc, o, a):
    k0 = client_of(vc, a)
    vc.ctx.prove(sel(vc, "Sd.conn", k0), "C13:a connected client is asked "
                 "for")
    return SReal(lastseen(k0))


lastseen = z3.Function("last_seen", I, R)


def sd_get_sub(vc, o, a):
    (j0,) = TInt().enc(vc, a["sub_id"])
    h = H(vc)
    if not vc.ctx.branch(z3.Select(h("Sd.sub.dom"), j0), "subscription"):
        return None
    return SRef("Subscription", z3.simplify(
        z3.Select(h("Sd.sub.val"), j0)))


def sd_max(vc, o, a):
    h = H(vc)
    return TOpt(TInt()).dec(vc, [h("Max.some"), h("Max")])


def filter_parse(vc, f, args, kw):
    (text,) = args
    ctx = vc.ctx
    text = vc.force(text)
    ok = ctx.choose(["ok", "ParseError"], "filter.parse")
    if ok != "ok":
        ctx.ghost["parsed"] = (text, None)
        e = vc.w.filter.ParseError.__new__(vc.w.filter.ParseError)
        e.args = ("...",)
        raise ProgExc(e)
    r = SRef("Filter", ctx.fresh("filter", FIL))
    ctx.ghost["parsed"] = (text, r.t)
    return r


def msg_arg(vc, fl):
    """a value that Message.parse lets through for a field (C12)"""
    ctx = vc.ctx
    n = type(fl).__name__
    if n == "StringField":
        return SJ(J.Jstr(ctx.fresh("str", STR)))
    if n == "NonNegativeIntField":
        v = ctx.fresh("arg_" + fl.python_name(), I)
        ctx.assume(z3.And(v >= 0, v <= MAXI))
        return SInt(v)
    if n == "NonNegativeNumberField":
        v = ctx.fresh("arg", R)
        ctx.assume(v >= 0)
        return SReal(v)
    if n == "PropsField":
        return SAtom(TAtom("Props"), ctx.fresh("props", sort("Props")))
    raise Unsupported("field type %s" % n)


def message_parse(vc, f, args, kw):
    """Message.parse (verified for C12): a message of the type that the
    version in use has for the command, or ProtocolError."""
    ctx = vc.ctx
    pv, wire = args
    cmd = ctx.ghost["cmd"]
    pr = vc.w.proto
    pv = vc.force(pv)
    ctx.ghost["parsed_with"] = pv
    if ctx.choose(["message", "ProtocolError"], "parse") == "ProtocolError":
        e = pr.ProtocolError.__new__(pr.ProtocolError)
        e.args = ("...",)
        raise ProgExc(e)
    if pv is None:
        v = 2
    elif isinstance(pv, int):
        v = pv
    else:
        v = 2 if ctx.branch(pv.t == 2, "version 2") else 3
        ctx.prove(z3.Implies(z3.BoolVal(v == 3), pv.t == 3),
                  "C15:a version that exists")
    ty = pr.TA_TYPES[v].get(cmd)
    if ty is None:
        raise PathEnd()
    mts = ["request", "inform", "notify"]
    mt = ctx.choose(mts, "message type")
    m = pr.Message.__new__(pr.Message)
    ta_id = ctx.fresh("ta_id", I)
    ctx.assume(z3.And(ta_id >= 0, ta_id <= MAXI))
    opt = {}
    for fl in ty.opt_fields[mt]:
        if ctx.choose(["given", "absent"], fl.name) == "given":
            opt[fl.python_name()] = msg_arg(vc, fl)
    m.__dict__.update(ta_type=ty, ta_id=SInt(ta_id), msg_type=mt,
                      args=[msg_arg(vc, fl) for fl in ty.fields[mt]],
                      optargs=opt)
    ctx.ghost["msg"] = (ty, ta_id, mt, tuple(m.args), dict(opt))
    if mt == "request":
        ctx.ghost["cur"] = (ctx.ghost["self"], ta_id)
    return m


def user_id(vc, f, args, kw):
    u = SAtom(TAtom("User"), vc.ctx.fresh("user", sort("User")))
    vc.ctx.ghost["user"] = u
    return u


# ------------------------------------------------------------- the world
def cond_of(vc, h, cn):
    n = h.at("Conn.out_wire_msgs.tail", cn) - \
        h.at("Conn.out_wire_msgs.head", cn)
    xcm = vc.w.xcm
    return z3.If(n > 0, z3.IntVal(xcm.SO_SENDABLE), z3.IntVal(0)) + \
        z3.If(n < vc.w.limit, z3.IntVal(xcm.SO_RECEIVABLE), z3.IntVal(0))


def is_open(h, cn):
    kc = h.at("Conn.client_id", cn)
    CC = "Server.client_connections"
    return z3.Or(z3.Select(h("Server.clientless_connections.dom"), cn),
                 z3.And(h.at("Conn.handshaked", cn),
                        z3.Select(h(CC + ".dom"), kc),
                        z3.Select(h(CC + ".val"), kc) == cn))


def num_conns(vc, h):
    return card(vc, h("Server.clientless_connections.dom"), CON) + \
        card(vc, h("Server.client_connections.dom"), I)


class SrvWorld(World):
    def __init__(self, index):
        World.__init__(self, index)
        m = index.modules
        self.srv, self.sd, self.proto, self.filter = \
            m["server"], m["sd"], m["proto"], m["filter"]
        self.el, self.tm, self.conf = m["eventloop"], m["timer"], m["conf"]
        import sys
        self.xcm = sys.modules["paf.xcm"]
        srv, sd = self.srv, self.sd
        self.limit = srv.SOFT_OUT_WIRE_LIMIT
        self.TProps, self.TUser = TAtom("Props"), TAtom("User")
        objs = []
        for v in sorted(self.proto.TA_TYPES):
            for n, o in sorted(self.proto.TA_TYPES[v].items()):
                if not any(o is y for y in objs):
                    objs.append(o)
        self.TTaType = TTaType(objs)
        one = lambda n: TConst(lambda vc: vc.singletons[n])
        C_, S_ = srv.Connection, srv.Server
        TTa = TRef("Ta")
        self.heap_class("Conn", C_, {
            "client_id": TOpt(TInt()), "proto_version": TOpt(TInt()),
            "conn_addr": TAtom("Addr"), "sd": one("sd"),
            "conn_sock": TOpt(TRef("Sock")),
            "conn_source": TOpt(TRef("Source")),
            "out_wire_msgs": TQueue(), "event_loop": one("loop"),
            "server": one("server"),
            "handshake_cb": TBoundOf(S_, "conn_handshake_completed",
                                     "server"),
            "proto_version_limit": one("limit"),
            "idle_limit": one("idle_limit"),
            "idle_cb": TBoundOf(S_, "client_idle", "server"),
            "term_cb": TBoundOf(S_, "conn_terminated", "server"),
            "tas": TMap(TInt(), TTa), "sub_tas": TMap(TInt(), TTa),
            "connect_time": TReal(), "handshaked": TBool(),
            "track_ta_id": TOpt(TInt()), "track_query_ts": TOpt(TReal()),
            "track_latency": TOpt(TReal())})
        self.heap_class("Ta", srv.Transaction, {
            "ta_id": TInt(), "ta_type": self.TTaType,
            "proto_version": TOpt(TInt()), "debug": TSink(),
            "term_cb": TBoundRef(C_, "ta_terminated", "Conn"),
            "state": TEnum(srv.TransactionState)})
        self.heap_class("Sock", None, {}, {
            "send": sock_send, "receive": sock_receive,
            "accept": sock_accept, "get_attr": sock_get_attr,
            "set_attr": lambda vc, o, n, v: None,
            "finish": lambda vc, o: None, "close": sock_close})
        self.heap_class("Source", self.el.XcmSource, {})
        self.heap_class("Timer", None, {})
        self.heap_class("Filter", None, {}, {
            "match": lambda vc, o, p: mkbool(matchf(
                o.t, TAtom("Props").enc(vc, p)[0])),
            "__str__": lambda vc, o: SFilterText(o.t)})
        self.heap_class("SockConf", None, {})
        self.TCONFS = TSeq(TRef("SockConf"))
        self.heap_class("SdClient", None, {"client_id": TInt()})
        gen = TRec(sd.Generation, {
            "generation": TInt(), "props": self.TProps, "ttl": TInt(),
            "orphan_since": TOpt(TReal()), "client_id": TInt(),
            "user_id": self.TUser})
        self.heap_class("Service", sd.Service, {
            "service_id": TInt(), "prev": TOpt(gen), "cur": TOpt(gen)})
        self.heap_class("Subscription", sd.Subscription, {
            "sub_id": TInt(), "client_id": TInt(),
            "filter": TOpt(TRef("Filter"))})
        for n, so in (("reg", B), ("kind", I), ("conn", CON), ("cond", I)):
            self.ghost("Source." + n, z3.ArraySort(SRC, so))
        self.ghost("Sock.closed", z3.ArraySort(sort("Sock"), B))
        self.ghost("TM.active", z3.ArraySort(TIM, B))
        self.ghost("Ans", z3.ArraySort(CON, z3.ArraySort(I, I)))
        self.ghost("Sent", z3.ArraySort(CON, I))
        self.ghost("Sub.conn", z3.ArraySort(I, CON))
        self.ghost("Sub.of", z3.ArraySort(CON, z3.ArraySort(I, I)))
        self.ghost("Max", I)
        self.ghost("Max.some", B)
        self.ghost("Sd.conn", ISET)
        self.ghost("Sd.known", ISET)
        self.maps = {
            "Sd.services": TMap(TInt(), TRef("Service")),
            "Sd.sub": TMap(TInt(), TRef("Subscription")),
            "Server.server_socks": TMap(TRef("Source"), TRef("Sock")),
            "Server.clientless_connections": TUSet(TRef("Conn")),
            "Server.client_connections": TMap(TInt(), TRef("Conn")),
            "Server.clean_out_timer": TOpt(TRef("Timer"))}
        for n, ty in self.maps.items():
            self.cell(n, ty)
        self.native_fields[S_] = {n[7:]: (ty, n) for n, ty in
                                  self.maps.items() if n[:7] == "Server."}
        self.intercepts[self.el.XcmSource] = new_source
        self.intercepts[range] = int_range
        P = "sd.ServiceDiscovery."
        ok = ["ok"]
        act = self.active_contracts
        act.update({
            P + "client_connect": sd_op("client_connect", [
                "AlreadyExistsError", "PermissionError", "ResourceError"],
                eff_connect, pre_connect),
            P + "client_disconnect": sd_op("client_disconnect", ok,
                                           eff_disconnect, must_connected),
            P + "client_active": sd_op("client_active", ok, None,
                                       must_connected),
            P + "publish": sd_op("publish", [
                "PermissionError", "ResourceError", "GenerationError",
                "SameGenerationButDifferentError"], eff_publish,
                must_connected),
            P + "unpublish": sd_op("unpublish", [
                "PermissionError", "NotFoundError"], eff_unpublish,
                must_connected),
            P + "create_subscription": sd_op("create_subscription", [
                "AlreadyExistsError", "ResourceError"], eff_create,
                must_connected),
            P + "activate_subscription": sd_op(
                "activate_subscription", ok,
                lambda vc, a: notifications(vc), pre_activate),
            P + "unsubscribe": sd_op("unsubscribe", [
                "PermissionError", "NotFoundError"], eff_unsubscribe,
                must_connected),
            P + "has_client": Ext(sd_has_client),
            P + "client_last_seen": Ext(sd_last_seen),
            P + "get_subscription": Ext(sd_get_sub),
            P + "max_total_clients": Ext(sd_max),
            P + "get_services": Ext(lambda vc, o, a: View(vc.cell(
                "Sd.services", vc.w.maps["Sd.services"]), "values")),
            P + "get_subscriptions": Ext(lambda vc, o, a: View(vc.cell(
                "Sd.sub", vc.w.maps["Sd.sub"]), "values")),
            "eventloop.XcmSource.update": Ext(source_update),
            "eventloop.EventLoop.add": Ext(loop_add),
            "eventloop.EventLoop.remove": Ext(loop_remove),
            "timer.TimerManager.add": Ext(timer_add),
            "filter.parse": filter_parse,
            "proto.Message.to_wire": to_wire,
            "proto.Message.parse": message_parse,
            "props.to_str": lambda vc, f, a, k: SText(),
            "server.Connection.determine_user_id": user_id,
            "server.Connection.log": lambda vc, f, a, k: None,
            "server.Server.debug": lambda vc, f, a, k: None,
        })
        for n in ("debug", "info", "warning"):
            act["logging." + n] = lambda vc, f, a, k: None

    def instance(self, vc):
        new = lambda cls: cls.__new__(cls)
        o = new(self.srv.Server)
        sdo, loop, tm = new(self.sd.ServiceDiscovery), \
            new(self.el.EventLoop), new(self.tm.TimerManager)
        loop.__dict__.update(s_rfd=None, s_wfd=None)
        sdo.__dict__["name"] = TOpt(TAtom("Name")).fresh(vc, "name")
        lim = new(self.conf.ProtoVersionLimitConf)
        lo, hi = vc.ctx.fresh("version_min", I), vc.ctx.fresh("version_max",
                                                              I)
        vc.ctx.assume(z3.And(2 <= lo, lo <= hi, hi <= 3))
        lim.__dict__.update(version_min=SInt(lo), version_max=SInt(hi))
        vc.ctx.ghost["versions"] = (lo, hi)
        idle = new(self.sd.IdleLimit)
        idle.__dict__.update(idle_min=SInt(vc.ctx.fresh("idle_min", I)),
                             idle_max=SInt(vc.ctx.fresh("idle_max", I)))
        ts = new(self.el.Source)
        o.__dict__.update(timer_manager=tm, sd=sdo, proto_version_limit=lim,
                          idle_limit=idle, event_loop=loop, timer_source=ts)
        for n, ty in self.maps.items():
            if n[:7] == "Server.":
                o.__dict__[n[7:]] = vc.cell(n, ty) if hasattr(ty, "dec_at") \
                    else CellValue(n, ty)
        vc.singletons.update(server=o, sd=sdo, loop=loop, tm=tm, limit=lim,
                             idle_limit=idle, timer_source=ts)
        vc.ctx.ghost["now_hook"] = now_hook
        return o

    def loop_spec(self, vc, env, coll, st):
        g = vc.ctx.ghost
        hook = g.get("loops")
        if hook is None:
            return None
        if isinstance(coll, SymRange):
            return hook(vc, env, "range", st)
        if isinstance(coll, SSeq):
            return hook(vc, env, "sockets", st)
        v = vc.as_view(coll)
        return hook(vc, env, v.name(), st) if v is not None else None


def int_range(vc, *a):
    from pyvc.interp import BUILTINS
    a = [vc.force(v) for v in a]
    if len(a) > 2 or not all(isinstance(v, (int, SInt)) for v in a):
        return BUILTINS[range](vc, *a)
    ts = [z3.IntVal(v) if isinstance(v, int) else v.t for v in a]
    if len(ts) == 1:
        ts = [z3.IntVal(0)] + ts
    return SymRange(*ts)


def now_hook(vc, tm):
    g = vc.ctx.ghost
    if g.get("now") is not None:
        vc.ctx.assume(tm >= g["now"])
    g["now"] = tm


# ------------------------------------------------------------- invariants
CC, CL = "Server.client_connections", "Server.clientless_connections"
OUT = "Conn.out_wire_msgs"


def ccd(h, kx):
    return z3.Select(h(CC + ".dom"), kx)


def ccv(h, kx):
    return z3.Select(h(CC + ".val"), kx)


def cl(h, cn):
    return z3.Select(h(CL + ".dom"), cn)


def inv_sets(h):
    v = ccv(h, k)
    return [
        ("C13,C18:a client's connection has finished the handshake", fa(
            k, z3.Implies(ccd(h, k), z3.And(
                h.at("Conn.alive", v), h.at("Conn.client_id.some", v),
                h.at("Conn.client_id", v) == k, h.at("Conn.handshaked", v),
                h.at("Conn.proto_version.some", v), z3.Not(cl(h, v)))),
            ccd(h, k), v)),
        ("C18:the others have not", fa(
            c, z3.Implies(cl(h, c), z3.And(
                h.at("Conn.alive", c), z3.Not(h.at("Conn.handshaked", c)))),
            cl(h, c))),
        ("C15:the version in use exists", fa(
            c, z3.Implies(z3.And(is_open(h, c),
                                 h.at("Conn.proto_version.some", c)),
                          z3.Or(h.at("Conn.proto_version", c) == 2,
                                h.at("Conn.proto_version", c) == 3)),
            h.at("Conn.proto_version", c)))]


def inv_sd(h):
    return [("C13,C01:connected in the service discovery iff there is a "
             "connection", fa(k, z3.Select(h("Sd.conn"), k) == ccd(h, k),
                              z3.Select(h("Sd.conn"), k), ccd(h, k))),
            ("C18", fa(k, z3.Implies(z3.Select(h("Sd.conn"), k),
                                     z3.Select(h("Sd.known"), k)),
                       z3.Select(h("Sd.conn"), k)))]


def inv_source(vc, h, but=None):
    src = h.at("Conn.conn_source", c)
    some = h.at("Conn.conn_source.some", c)
    op = is_open(h, c)
    ok = h.at("Source.cond", src) == cond_of(vc, h, c)
    if but is not None:
        ok = z3.Or(c == but, ok)
    oc = h.at("Source.conn", s)
    return [
        ("C13:an open connection is served", fa(c, z3.Implies(op, z3.And(
            some, h.at("Conn.conn_sock.some", c), h.at("Source.alive", src),
            h.at("Source.reg", src), h.at("Source.kind", src) == 1,
            h.at("Source.conn", src) == c)), src, some,
            h.at("Conn.conn_sock.some", c))),
        ("C20:waits for writing iff something is queued, for reading iff "
         "below the limit", fa(c, z3.Implies(op, ok), src)),
        ("C13:only open connections are served", fa(s, z3.Implies(z3.And(
            h.at("Source.reg", s), h.at("Source.kind", s) == 1), z3.And(
                h.at("Source.alive", s),
                is_open(h, oc), h.at("Conn.conn_source", oc) == s)),
            h.at("Source.reg", s)))]


def inv_queue(h, but=None):
    hd, tl = h.at(OUT + ".head", c), h.at(OUT + ".tail", c)
    op = is_open(h, c)
    if but is not None:
        op = z3.And(op, c != but)
    return [("C20:what is queued is what has not been sent", fa(
        c, z3.Implies(op, z3.And(hd <= tl, h.at("Sent", c) == hd,
                                 hd >= 0)), tl, hd))]


def types_of(vc, tx, *cmds):
    return z3.Or(*[tx == n for cmd in cmds
                   for n in vc.w.TTaType.index(cmd)])


def inv_tas(vc, h, but=None, cur=None):
    """cur: (connection, ta) being processed"""
    op = is_open(h, c)
    if but is not None:
        op = z3.And(op, c != but)
    dom = z3.Select(h.at("Conn.tas.dom", c), k)
    ta = z3.Select(h.at("Conn.tas.val", c), k)
    g = z3.And(op, dom)
    an = z3.Select(h.at("Ans", c), k)
    srv = vc.w.srv
    acc = list(srv.TransactionState).index(srv.TransactionState.ACCEPTED)
    tid = h.at("Conn.track_ta_id", c)
    tsome = h.at("Conn.track_ta_id.some", c)
    tracks = types_of(vc, h.at("Ta.ta_type", ta), "track")
    return [
        ("C14:the open transactions are those accepted and not ended", fa(
            [c, k], z3.Implies(op, z3.And(dom == (an == 2),
                                          z3.Or(an == 0, an == 2))), dom,
            an)),
        ("C14:open transactions", fa([c, k], z3.Implies(g, z3.And(
            h.at("Ta.alive", ta), h.at("Ta.ta_id", ta) == k,
            h.at("Ta.state", ta) == acc, h.at("Ta.term_cb", ta) == c,
            types_of(vc, h.at("Ta.ta_type", ta), "subscribe", "track"))),
            dom, ta)),
        ("C14:the tracker", fa(c, z3.Implies(z3.And(op, tsome), z3.And(
            z3.Select(h.at("Conn.tas.dom", c), tid),
            types_of(vc, h.at("Ta.ta_type",
                              z3.Select(h.at("Conn.tas.val", c), tid)),
                     "track"))), tid)),
        ("C14,C16:one tracker", fa([c, k], z3.Implies(z3.And(g, tracks),
                                                  z3.And(tsome, tid == k)),
                               ta)),
        ("C15:no transactions before hello", fa([c, k], z3.Implies(
            z3.And(op, z3.Not(h.at("Conn.handshaked", c))), z3.And(
                z3.Not(dom), z3.Not(tsome),
                z3.Not(z3.Select(h.at("Conn.sub_tas.dom", c), k)))), dom,
            z3.Select(h.at("Conn.sub_tas.dom", c), k)))]


def inv_subtas(vc, h, but=None):
    """the transaction a subscription is notified in"""
    op = is_open(h, c)
    if but is not None:
        op = z3.And(op, c != but)
    ta = z3.Select(h.at("Conn.sub_tas.val", c), j)
    dom = z3.Select(h.at("Conn.sub_tas.dom", c), j)
    tid = h.at("Ta.ta_id", ta)
    return [("C14,C06:subscriptions are notified in the transaction that "
             "created them", fa([c, j], z3.Implies(z3.And(op, dom), z3.And(
                 h.at("Ta.alive", ta),
                 z3.Select(h.at("Conn.tas.dom", c), tid),
                 z3.Select(h.at("Conn.tas.val", c), tid) == ta,
                 types_of(vc, h.at("Ta.ta_type", ta), "subscribe"),
                 z3.Select(h.at("Sub.of", c), tid) == j,
                 z3.Select(h.at("Ans", c), tid) == 2)), dom, ta))]


def inv_subs(h):
    sv = z3.Select(h("Sd.sub.val"), j)
    cn = h.at("Sub.conn", j)
    cid = h.at("Subscription.client_id", sv)
    return [("C06,C13:a subscription belongs to a client's connection", fa(
        j, z3.Implies(z3.Select(h("Sd.sub.dom"), j), z3.And(
            h.at("Subscription.alive", sv),
            h.at("Subscription.sub_id", sv) == j, ccd(h, cid),
            ccv(h, cid) == cn, h.at("Conn.alive", cn),
            z3.Select(h.at("Conn.sub_tas.dom", cn), j))),
        z3.Select(h("Sd.sub.dom"), j), sv))]


def inv_subs_conv(h, but=None):
    op = is_open(h, c)
    if but is not None:
        op = z3.And(op, c != but)
    dom = z3.Select(h.at("Conn.sub_tas.dom", c), j)
    return [("C06:what is cancelled is forgotten", fa([c, j], z3.Implies(
        z3.And(op, dom), z3.And(z3.Select(h("Sd.sub.dom"), j),
                                h.at("Sub.conn", j) == c)), dom))]


def full(vc, h):
    return z3.And(h("Max.some"), num_conns(vc, h) >= h("Max"))


def inv_admission(vc, h):
    acc = vc.w.xcm.SO_ACCEPTABLE
    d = z3.Select(h("Server.server_socks.dom"), s)
    return [
        ("C18:never above the limit", z3.Implies(
            h("Max.some"), num_conns(vc, h) <= h("Max"))),
        ("C18:accepting below the limit", fa(s, z3.Implies(z3.And(
            d, z3.Not(full(vc, h))), h.at("Source.cond", s) == acc), d)),
        ("C18", fa(s, z3.Implies(d, z3.And(
            h.at("Source.kind", s) == 2, h.at("Source.alive", s),
            h.at("Source.reg", s))), d))]


def inv_clean(vc, h):
    tt = h("Server.clean_out_timer")
    empty = fa(c, z3.Not(cl(h, c)), cl(h, c))
    return [("C18:a scan is scheduled while a handshake is pending", z3.Or(
        empty, z3.And(h("Server.clean_out_timer.some"),
                      z3.Select(h("TM.active"), tt)))),
        ("C18", z3.Implies(h("Server.clean_out_timer.some"), z3.And(
            z3.Select(h("TM.active"), tt), h.at("Timer.alive", tt))))]


def inv_cb(vc, h):
    """what a match callback needs"""
    return inv_source(vc, h)[:1] + inv_subtas_live(vc, h)


def inv_subtas_live(vc, h):
    """live subscriptions have an accepted transaction of their connection"""
    cn = h.at("Sub.conn", j)
    d = z3.Select(h("Sd.sub.dom"), j)
    ta = z3.Select(h.at("Conn.sub_tas.val", cn), j)
    sv = z3.Select(h("Sd.sub.val"), j)
    tid = h.at("Ta.ta_id", ta)
    return [("C06,C14:no notification before accept or after the end", fa(
        j, z3.Implies(d, z3.And(
            is_open(h, cn), h.at("Conn.alive", cn),
            z3.Select(h.at("Conn.sub_tas.dom", cn), j),
            h.at("Ta.alive", ta),
            types_of(vc, h.at("Ta.ta_type", ta), "subscribe"),
            z3.Select(h.at("Sub.of", cn), tid) == j,
            z3.Select(h.at("Conn.tas.dom", cn), tid),
            z3.Select(h.at("Conn.tas.val", cn), tid) == ta,
            z3.Select(h.at("Ans", cn), tid) == 2)), d, ta, sv))]


def inv_types(vc, h):
    n = len(vc.w.TTaType.objs)
    st = len(list(vc.w.srv.TransactionState))
    return [("T", fa(t, z3.And(h.at("Ta.ta_type", t) >= 0,
                               h.at("Ta.ta_type", t) < n),
                     h.at("Ta.ta_type", t))),
            ("T", fa(t, z3.And(h.at("Ta.state", t) >= 0,
                               h.at("Ta.state", t) < st),
                     h.at("Ta.state", t)))]


def inv(vc, h, but=None, clean=True, sd=True):
    """but: a connection whose own state is exempt"""
    out = inv_sets(h) + (inv_sd(h) if sd else []) + \
        inv_source(vc, h, but) + inv_queue(h, but) + inv_tas(vc, h, but) + \
        inv_subtas(vc, h, but) + inv_subs(h) + inv_subs_conv(h, but) + \
        inv_admission(vc, h) + [("C22", wf_services(vc, h))]
    if clean:
        out += inv_clean(vc, h)
    return out


# ---------------------------------------------------------------- contracts
SELF = "self"
MOD = None


def all_comps(vc):
    return tuple(vc.w.comp_sorts)


def same(vc, a, b):
    """a and b are the same value, as a formula"""
    a, b = vc.force(a), vc.force(b)
    if a is b:
        return z3.BoolVal(True)
    r = vc.eq(a, b)
    return r.t if isinstance(r, SBool) else z3.BoolVal(bool(r))


def tail(h, cn):
    return h.at(OUT + ".tail", cn)


class SrvContract(Contract):
    exc_tag = "C13"

    def __init__(self):
        pass

    @property
    def mod(self):
        return self._mod

    def conn(self, vc, name="self"):
        r = SRef("Conn", vc.ctx.fresh(name, CON))
        vc.ctx.assume(vc.hget("Conn.alive")[r.t])
        return r

    def prepare(self, vc):
        o = vc.w.instance(vc)
        self._mod = all_comps(vc)
        vc.ctx.ghost["loops"] = self.loops
        for n, f_ in inv_types(vc, H(vc)):
            vc.ctx.assume(f_)
        return o

    def loops(self, vc, env, name, st):
        return None


# -- requests
EXPECT = {
    # command -> (operation, how it ends, {outcome of the operation: reason})
    "publish": ("publish", {
        "PermissionError": "permission-denied",
        "ResourceError": "insufficient-resources",
        "GenerationError": "old-generation",
        "SameGenerationButDifferentError": "same-generation-but-different"}),
    "unpublish": ("unpublish", {
        "PermissionError": "permission-denied",
        "NotFoundError": "non-existent-service-id"}),
    "unsubscribe": ("unsubscribe", {
        "PermissionError": "permission-denied",
        "NotFoundError": "non-existent-subscription-id"}),
    "subscribe": ("create_subscription", {
        "AlreadyExistsError": "subscription-id-exists",
        "ResourceError": "insufficient-resources"}),
    "hello": ("client_connect", {
        "AlreadyExistsError": "client-id-exists",
        "PermissionError": "permission-denied",
        "ResourceError": "insufficient-resources"}),
}
# wire argument -> parameter of the operation
ARGS = {
    "publish": ["service_id", "generation", "service_props", "ttl"],
    "unpublish": ["service_id"], "unsubscribe": ["sub_id"],
    "subscribe": ["sub_id"]}


class Process(SrvContract):
    q = "server.Connection.process"

    def __init__(self, cmd=None, mode=None, version=None):
        self.cmd, self.mode, self.version = cmd, mode, version

    @property
    def outcomes(self):
        from pyvc.runner import get_index
        m = get_index().modules
        import sys
        return [Outcome("return"),
                Outcome("ProtocolError", m["proto"].ProtocolError),
                Outcome("error", sys.modules["paf.xcm"].error)]

    @property
    def covers(self):
        return ["%s:return" % self.q] if self.mode != "none" or \
            self.cmd else []

    def entry(self, vc):
        self.prepare(vc)
        r = self.conn(vc)
        vc.ctx.ghost.update({"self": r.t, "cmd": self.cmd})
        h = H(vc)
        pvs, pv = h.at("Conn.proto_version.some", r.t), \
            h.at("Conn.proto_version", r.t)
        hs = h.at("Conn.handshaked", r.t)
        ctx = vc.ctx
        ctx.assume(hs == z3.BoolVal(self.mode == "handshaked"))
        if self.version is None:
            ctx.assume(z3.Not(pvs))
        else:
            ctx.assume(z3.And(pvs, pv == self.version))
        return [r, SIn(ctx.fresh("inlen", I))], {}

    def requires(self, vc, a):
        h = H(vc)
        return inv(vc, h) + [("C13", is_open(h, a["self"].t))]

    def call_ghost(self, vc, a):
        self._mod = all_comps(vc)

    def make_exc(self, vc, exc):
        o = Contract.make_exc(self, vc, exc)
        o.errno = SInt(vc.ctx.fresh("errno", I))
        return o

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        cn = a["self"].t
        ok = label == "return"
        out = inv(vc, new, cn if label == "ProtocolError" else None)
        out += [("C13:the connection stays open", is_open(new, cn)),
                ("C20:nothing is taken from the queue", z3.And(
                    new.at(OUT + ".head", cn) == old.at(OUT + ".head", cn),
                    new.at("Sent", cn) == old.at("Sent", cn),
                    tail(new, cn) >= tail(old, cn)))]
        if self.cmd is not None:
            out += self.spec(vc, a, old, new, label)
        return out

    # what the message must lead to
    def spec(self, vc, a, old, new, label):
        g = vc.ctx.ghost
        cn = a["self"].t
        out = []
        P = lambda n, f_: out.append((n, f_ if z3.is_expr(f_) else
                                      z3.BoolVal(bool(f_))))
        hs = old.at("Conn.handshaked", cn)
        calls = g.get("sd_calls", ())
        resp = g.get("responses", ())
        pw = g.get("parsed_with", 0)
        pvs, pv = old.at("Conn.proto_version.some", cn), \
            old.at("Conn.proto_version", cn)
        if pw is None:
            P("C15:messages are parsed by the version in use", z3.Not(pvs))
        else:
            P("C15:messages are parsed by the version in use", z3.And(
                pvs, pv == TInt().enc(vc, pw)[0]))
        handshaked = self.mode == "handshaked"
        P("C15:only hello completes the handshake", z3.Implies(
            z3.BoolVal(self.cmd != "hello" or label == "ProtocolError"),
            z3.And(new.at("Conn.handshaked", cn) == hs,
                   new.at("Conn.proto_version.some", cn) == pvs,
                   z3.Implies(pvs, new.at("Conn.proto_version", cn) == pv))))
        if label != "return" or "msg" not in g:
            if label == "return":
                P("C15:every message is parsed", False)
            if label == "error":
                # only setting the keepalive option may fail
                return out
            P("C03,C15:a message in violation of the protocol has no effect",
              all(n == "client_active" for n, _, _ in calls))
            self.violation(vc, a, old, new, P, calls)
            return out
        ty, ta_id, mt, args, opt = g["msg"]
        cid = SInt(old.at("Conn.client_id", cn))
        P("C14:nothing is left unsent", not g.get("created"))
        mine = [r for r in resp if vc.ctx.entails(z3.And(
            r[0] == cn, r[1] == ta_id))]
        if handshaked:
            P("C16:a message shows that the client is alive",
              bool(calls) and calls[0][0] == "client_active")
            if calls:
                P("C16:the client itself", same(
                    vc, calls[0][1]["client_id"], cid))
            calls = calls[1:]
        P("C16:once", all(n != "client_active" for n, _, _ in calls))
        if mt == "inform":
            self.inform(vc, a, old, new, P, calls, mine, args)
            return out
        P("C14:a request is answered", mt == "request" and bool(mine))
        if not mine:
            return out
        P("C14:all responses are to the request or cancel a subscription",
          len(mine) == len(resp) or self.cmd == "unsubscribe")
        last = mine[-1]
        if not handshaked and self.cmd != "hello":
            P("C15:before hello nothing is done", not calls)
            P("C15:before hello requests fail", self.failed(
                mine, "no-hello"))
            return out
        getattr(self, "req_" + self.cmd.replace("-", "_"), self.req_other)(
            vc, a, old, new, P, calls, mine, args, opt)
        return out

    def violation(self, vc, a, old, new, P, calls):
        """a protocol error is raised for such messages only"""
        g = vc.ctx.ghost
        if "msg" not in g:
            return
        ty, ta_id, mt, args, opt = g["msg"]
        cn = a["self"].t
        dom = z3.Select(old.at("Conn.tas.dom", cn), ta_id)
        if mt == "request":
            P("C14:a request is refused only if its transaction exists", dom)
        if mt == "inform" and ty.cmd == "track":
            P("C14:an inform is refused only outside its transaction or if "
              "its type is wrong", z3.Or(
                  z3.Not(dom),
                  z3.Not(types_of(vc, old.at("Ta.ta_type", z3.Select(
                      old.at("Conn.tas.val", cn), ta_id)), "track")),
                  *([z3.Not(z3.Or(args[0].t == J.Jstr(S(vc, "query")), z3.And(
                      args[0].t == J.Jstr(S(vc, "reply")),
                      old.at("Conn.track_query_ts.some", cn))))]
                    if args else [])))

    def failed(self, mine, reason):
        return len(mine) == 1 and mine[0][2] == "fail" and \
            mine[0][4].get("fail_reason") == reason

    def completed(self, mine, n=1):
        return len(mine) == n and mine[-1][2] == "complete"

    def only_queue(self, vc, a, old, new):
        """nothing but this connection's queue changes"""
        keep = [n for n in vc.w.comp_sorts if n not in QUEUE + (
            "Sent", "Ans", "Ta.alive", "Timer.alive", "Sock.alive",
            "Source.alive") and not n.startswith("Ta.") and
            not n.startswith("Conn.tas")]
        return z3.And(*[old(n) == new(n) for n in keep])

    def others(self, a, old, new):
        cn = a["self"].t
        return fa(c, z3.Implies(c != cn, z3.And(
            old.at(OUT + ".tail", c) == new.at(OUT + ".tail", c),
            old.at(OUT + ".el", c) == new.at(OUT + ".el", c),
            old.at("Ans", c) == new.at("Ans", c))),
            new.at(OUT + ".tail", c), new.at(OUT + ".el", c),
            new.at("Ans", c))

    def op(self, vc, a, old, P, calls, name, args):
        """the one operation on the service discovery, with the message's
        arguments"""
        P("C13,C03,C04:the operation asked for, once",
          len(calls) == 1 and calls[0][0] == name)
        if len(calls) != 1 or calls[0][0] != name:
            return None
        d = calls[0][1]
        cid = SInt(old.at("Conn.client_id", a["self"].t))
        P("C01,C04:on behalf of the client of the connection", same(
            vc, d["client_id"], cid))
        for n, v in args.items():
            P("C01,C03,C07:with the values in the message: %s" % n, same(
                vc, d[n], v))
        return calls[0][2]

    def simple(self, vc, a, old, P, calls, mine, args):
        name, reasons = EXPECT[self.cmd]
        lab = self.op(vc, a, old, P, calls, name,
                      dict(zip(ARGS[self.cmd], args)))
        if lab is None:
            return None
        if lab != "ok":
            P("C14,C04:refusals are reported with their reason", self.failed(
                mine, reasons[lab]))
        return lab

    def req_publish(self, vc, a, old, new, P, calls, mine, args, opt):
        lab = self.simple(vc, a, old, P, calls, mine, args)
        if lab == "ok":
            P("C14:success is reported", self.completed(mine))

    req_unpublish = req_publish

    def req_ping(self, vc, a, old, new, P, calls, mine, args, opt):
        P("C14:ping", not calls and self.completed(mine))
        P("C14:ping changes nothing", z3.And(self.only_queue(
            vc, a, old, new), self.others(a, old, new)))

    def req_unsubscribe(self, vc, a, old, new, P, calls, mine, args, opt):
        lab = self.simple(vc, a, old, P, calls, mine, args)
        if lab != "ok":
            return
        P("C14:success is reported", self.completed(mine))
        resp = vc.ctx.ghost["responses"]
        cn = a["self"].t
        j0 = args[0].t
        sub = z3.Select(old.at("Conn.sub_tas.val", cn), j0)
        P("C14,C06:the subscription's transaction is completed", z3.And(
            z3.BoolVal(len(resp) == 2 and resp[0][2] == "complete"),
            resp[0][0] == cn, resp[0][1] == old.at("Ta.ta_id", sub)))

    def req_subscribe(self, vc, a, old, new, P, calls, mine, args, opt):
        g = vc.ctx.ghost
        cn = a["self"].t
        given = opt.get("filter")
        parsed = g.get("parsed")
        if given is not None:
            P("C05,C10:the filter given is used", parsed is not None and
              same(vc, parsed[0], given))
        else:
            P("C05,C10:no filter", parsed is None)
        if parsed is not None and parsed[1] is None:
            P("C14:malformed filters are refused", not calls and
              self.failed(mine, "invalid-filter-syntax"))
            return
        P("C06:created, then activated", [n for n, _, _ in calls] in (
            ["create_subscription"],
            ["create_subscription", "activate_subscription"]))
        if not calls:
            return
        lab = self.simple(vc, a, old, P, calls[:1], mine, args)
        f_ = vc.force(calls[0][1].get("filter"))
        if parsed is None:
            P("C05:no filter", f_ is None)
        else:
            P("C05:the filter given is used", isinstance(f_, SRef) and
              f_.t == parsed[1])
        if lab != "ok":
            return
        P("C14,C06:success is reported", len(mine) == 1 and
          mine[0][2] == "accept")
        P("C06:activated", len(calls) == 2)
        if len(calls) == 2:
            P("C06:the subscription created", z3.And(
                same(vc, calls[1][1]["sub_id"], args[0]),
                same(vc, calls[1][1]["client_id"],
                     calls[0][1]["client_id"])))
        sub = z3.Select(new.at("Conn.sub_tas.val", cn), args[0].t)
        P("C06,C14:notifications go to the transaction of the request",
          new.at("Ta.ta_id", sub) == vc.ctx.ghost["msg"][1])

    def req_hello(self, vc, a, old, new, P, calls, mine, args, opt):
        cn = a["self"].t
        g = vc.ctx.ghost
        cid, lo, hi = [v.t for v in args]
        some = old.at("Conn.client_id.some", cn)
        had = old.at("Conn.client_id", cn)
        slo, shi = g["versions"]
        best = z3.If(hi < shi, hi, shi)
        can = z3.And(best >= lo, best >= slo)
        changed = z3.And(some, had != cid)
        ended = self.mode == "handshaked"
        hs = new.at("Conn.handshaked", cn)
        ver = z3.And(new.at("Conn.proto_version.some", cn),
                     new.at("Conn.proto_version", cn) == best)
        T = "C15,C20:the highest common version"
        P("C04,C20:the client id of a connection does not change", z3.And(
            new.at("Conn.client_id.some", cn),
            new.at("Conn.client_id", cn) == z3.If(some, had, cid)))
        if len(calls) == 0:
            if ended:
                P("C20:a second hello changes nothing", self.only_queue(
                    vc, a, old, new))
                if self.completed(mine):
                    P("C20:a second hello repeats the answer", z3.And(
                        z3.Not(changed), z3.BoolVal(len(mine[0][3]) == 1),
                        same(vc, mine[0][3][0], SInt(
                            old.at("Conn.proto_version", cn)))))
                else:
                    P("C04:the client id can not be changed", z3.And(
                        changed, z3.BoolVal(self.failed(
                            mine, "permission-denied"))))
                return
            P("C15:not connected", z3.Not(hs))
            if self.failed(mine, "permission-denied"):
                P("C04:the client id can not be changed", changed)
            else:
                P("C15:no common version", z3.And(z3.Not(changed), z3.Not(
                    can), z3.BoolVal(self.failed(
                        mine, "unsupported-protocol-version"))))
            return
        lab = self.op(vc, a, new, P, calls, "client_connect", {})
        P("C15:one handshake", z3.Not(changed))
        P("C15:with a common version", z3.And(z3.BoolVal(not ended), can))
        if lab == "ok":
            P(T, z3.And(hs, ver, z3.BoolVal(self.completed(mine) and
                                            len(mine[0][3]) == 1)))
            if mine and len(mine[0][3]) == 1:
                P(T, same(vc, mine[0][3][0], SInt(best)))
        elif lab is not None:
            P("C04,C14:refusals are reported with their reason", z3.And(
                z3.Not(hs), z3.BoolVal(self.failed(
                    mine, EXPECT["hello"][1][lab]))))

    def req_track(self, vc, a, old, new, P, calls, mine, args, opt):
        cn = a["self"].t
        tid = old.at("Conn.track_ta_id", cn)
        tracked = old.at("Conn.track_ta_id.some", cn)
        P("C14:track does not concern the service discovery", not calls)
        if self.failed(mine, "track-exists"):
            P("C14,C16:one tracker at a time", tracked)
            P("C16:the tracker stays", z3.And(
                new.at("Conn.track_ta_id.some", cn),
                new.at("Conn.track_ta_id", cn) == tid))
        else:
            P("C16:a tracker is installed", z3.And(
                z3.Not(tracked), z3.BoolVal(len(mine) == 1 and
                                            mine[0][2] == "accept"),
                new.at("Conn.track_ta_id.some", cn),
                new.at("Conn.track_ta_id", cn) == vc.ctx.ghost["msg"][1]))

    def inform(self, vc, a, old, new, P, calls, mine, args):
        cn = a["self"].t
        P("C14:only track has informs", self.cmd == "track" and not calls)
        if not args:
            return
        kind = args[0].t
        ts = old.at("Conn.track_query_ts.some", cn)
        resp = vc.ctx.ghost.get("responses", ())
        if resp:
            P("C16:a query is answered with a reply", z3.And(
                kind == J.Jstr(S(vc, "query")), z3.BoolVal(
                    len(resp) == 1 and len(mine) == 1 and
                    mine[0][2] == "notify" and
                    list(mine[0][3]) == ["reply"] and not mine[0][4]),
                new("Conn.track_query_ts.some") ==
                old("Conn.track_query_ts.some")))
        else:
            P("C16:a reply ends the query outstanding", z3.And(
                kind == J.Jstr(S(vc, "reply")), ts,
                z3.Not(new.at("Conn.track_query_ts.some", cn)),
                new.at("Conn.track_latency.some", cn)))

    # -- listings (C22)
    def req_clients(self, vc, a, old, new, P, calls, mine, args, opt):
        P("C22:a listing changes nothing", z3.And(
            z3.BoolVal(not calls), self.only_queue(vc, a, old, new),
            self.others(a, old, new)))
        P("C14,C22:accept, listing, complete", [m[2] for m in mine] ==
          ["accept", "complete"])
        P("C22:everything is listed", vc.ctx.ghost.get("listed") ==
          LISTS[self.cmd])

    req_subscriptions = req_clients

    def req_services(self, vc, a, old, new, P, calls, mine, args, opt):
        g = vc.ctx.ghost
        given, parsed = opt.get("filter"), g.get("parsed")
        if given is not None:
            P("C22,C10:the filter given is used", parsed is not None and
              same(vc, parsed[0], given))
        else:
            P("C22:no filter", parsed is None)
        if parsed is not None and parsed[1] is None:
            P("C14:malformed filters are refused", not calls and
              self.failed(mine, "invalid-filter-syntax"))
            return
        self.req_clients(vc, a, old, new, P, calls, mine, args, opt)

    def req_other(self, vc, a, old, new, P, calls, mine, args, opt):
        raise Unsupported("no specification of command %s" % self.cmd)

    def loops(self, vc, env, name, st):
        if name not in LISTS.values() or self.cmd not in LISTS:
            return None
        cn = vc.ctx.ghost["self"]
        w = self

        def linv(vc, env, V, D, pre):
            h, p = H(vc), H(vc, pre)
            return [
                ("C22:only the queue of the client grows", z3.And(
                    tail(h, cn) >= tail(p, cn),
                    fa(c, z3.Implies(c != cn, z3.And(
                        tail(h, c) == tail(p, c), h.at(OUT + ".el", c) ==
                        p.at(OUT + ".el", c))), tail(h, c),
                        h.at(OUT + ".el", c)),
                    fa(s, z3.Implies(s != p.at("Conn.conn_source", cn),
                                     h.at("Source.cond", s) ==
                                     p.at("Source.cond", s)),
                       h.at("Source.cond", s)))),
                ("C20:waits for writing", h.at(
                    "Source.cond", p.at("Conn.conn_source", cn)) ==
                    cond_of(vc, h, cn))]

        def start(vc, env, k):
            vc.ctx.ghost["n0"] = len(vc.ctx.ghost.get("responses", ()))

        def step(vc, env, V, k, pre):
            g = vc.ctx.ghost
            got = g.get("responses", ())[g.get("n0", 0):]
            w.listed(vc, name, k, got)

        def done(vc, env, D, pre):
            g = vc.ctx.ghost
            vc.ctx.prove(z3.BoolVal(name == LISTS[w.cmd]),
                         "C22:the right collection is listed")
            g["listed"] = name if not g.get("listed") else "twice"
        return LoopSpec("listing", linv, start=start, step=step, done=done)

    def listed(self, vc, name, k, got):
        ctx = vc.ctx
        h = H(vc)
        T = "C22:each entry once, as it is"
        g = ctx.ghost
        ty, ta_id = g["msg"][0], g["msg"][1]
        cn = g["self"]
        if name == "Sd.services":
            sv = z3.Select(h("Sd.services.val"), k)
            cur = lambda n: h.at("Service.cur." + n, sv)
            parsed = g.get("parsed")
            if parsed is not None:
                m = matchf(parsed[1], cur("props"))
                ctx.prove(z3.BoolVal(bool(got)) == m,
                          "C22,C10:services are listed iff they match")
                if not got:
                    return
        ok = len(got) == 1 and got[0][2] == "notify"
        ctx.prove(z3.BoolVal(ok), T)
        if not ok:
            return
        cn_, tid, mt, args, opt, ty_ = got[0]
        ctx.prove(z3.And(cn_ == cn, tid == ta_id), T)
        if name == "Sd.services":
            vals = [SInt(k), SInt(cur("generation")),
                    SAtom(TAtom("Props"), cur("props")), SInt(cur("ttl")),
                    SInt(cur("client_id"))]
            opts = {"orphan_since": TOpt(TReal()).dec(
                vc, [cur("orphan_since.some"), cur("orphan_since")])}
        elif name == "Sd.sub":
            sv = z3.Select(h("Sd.sub.val"), k)
            vals = [SInt(k), SInt(h.at("Subscription.client_id", sv))]
            fs = h.at("Subscription.filter.some", sv)
            if ctx.branch(fs, "has a filter"):
                opts = {"filter": SFilterText(h.at("Subscription.filter",
                                                   sv))}
            else:
                opts = {"filter": None}
        else:
            cc_ = ccv(h, k)
            at = lambda n: h.at("Conn." + n, cc_)
            vals = [SInt(k), SAtom(TAtom("Addr"), at("conn_addr")),
                    trunc(at("connect_time"))]
            opts = {}
            if self.version == 3:
                vals += [SReal(g["now"] - lastseen(k)),
                         SInt(at("proto_version"))]
                if ctx.branch(at("track_ta_id.some"), "tracked"):
                    opts["latency"] = TOpt(TReal()).dec(vc, [
                        at("track_latency.some"), at("track_latency")])
        ctx.prove(z3.BoolVal(len(args) == len(vals)), T)
        for a_, v in zip(args, vals):
            ctx.prove(same(vc, a_, v), T)
        for n in set(opt) | set(opts):
            a_, v = vc.force(opt.get(n)), vc.force(opts.get(n))
            if a_ is None or v is None:
                ctx.prove(z3.BoolVal(a_ is v), T)
            else:
                ctx.prove(same(vc, a_, v), T)


def trunc(t_):
    return SInt(z3.If(t_ >= 0, z3.ToInt(t_), -z3.ToInt(-t_)))


LISTS = {"clients": CC, "services": "Sd.services", "subscriptions": "Sd.sub"}
COMMANDS = ["hello", "subscribe", "unsubscribe", "subscriptions", "services",
            "publish", "unpublish", "ping", "clients", "track"]
ALL = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C13", "C14", "C15", "C16",
       "C18", "C20", "C22"}



# -- closing a connection
class Terminate(SrvContract):
    q = "server.Connection.terminate"

    def comps(self, vc):
        pre = ("Source.reg", "Source.cond", "Sock.closed", "Conn.conn_sock",
               "Conn.conn_source", OUT + ".tail", OUT + ".el", CC, CL,
               "Sd.", "Service.")
        return tuple(n for n in vc.w.comp_sorts if n.startswith(pre))

    def entry(self, vc):
        self.prepare(vc)
        self._mod = self.comps(vc)
        return [self.conn(vc)], {}

    def call_ghost(self, vc, a):
        self._mod = self.comps(vc)

    def requires(self, vc, a):
        h = H(vc)
        return inv(vc, h, a["self"].t, clean=False) + [
            ("C13", is_open(h, a["self"].t))]

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        cn = a["self"].t
        hs = old.at("Conn.handshaked", cn)
        cid = old.at("Conn.client_id", cn)
        out = inv(vc, new, clean=False) + [
            ("C13,C01:a closed connection is closed", z3.And(
                z3.Not(is_open(new, cn)),
                z3.Not(new.at("Conn.conn_sock.some", cn)),
                z3.Not(new.at("Source.reg",
                              old.at("Conn.conn_source", cn))))),
            ("C18:only this connection ends", z3.And(
                fa(c, cl(new, c) == z3.And(cl(old, c), c != cn), cl(new, c)),
                fa(k, z3.And(
                    ccd(new, k) == z3.And(ccd(old, k), z3.Not(z3.And(
                        hs, k == cid))),
                    z3.Implies(ccd(new, k), ccv(new, k) == ccv(old, k))),
                    ccd(new, k), ccv(new, k)),
                fa(s, z3.Implies(new.at("Source.reg", s),
                                 old.at("Source.reg", s)),
                   new.at("Source.reg", s)),
                fa(c, z3.Implies(c != cn, z3.And(
                    new.at("Conn.conn_sock.some", c) ==
                    old.at("Conn.conn_sock.some", c),
                    new.at("Conn.conn_sock", c) ==
                    old.at("Conn.conn_sock", c))),
                    new.at("Conn.conn_sock", c),
                    new.at("Conn.conn_sock.some", c))))]
        if getattr(self, "unit", None) is not None:
            calls = vc.ctx.ghost.get("sd_calls", ())
            if len(calls) == 1 and calls[0][0] == "client_disconnect":
                out.append(("C01,C02,C13:the client is disconnected", z3.And(
                    hs, same(vc, calls[0][1]["client_id"], SInt(cid)))))
            else:
                out.append(("C01,C02,C13:the client is disconnected", z3.And(
                    z3.Not(hs), z3.BoolVal(not calls))))
            out.append(("C13:the socket is closed once",
                        z3.BoolVal(len(vc.ctx.ghost.get("closed", ())) == 1)))
        return out

    def loops(self, vc, env, name, st):
        return socks_loop(vc, name)


def socks_loop(vc, name):
    """resuming to accept"""
    if name != "Server.server_socks":
        return None
    acc = vc.w.xcm.SO_ACCEPTABLE

    def linv(vc, env, V, D, pre):
        h, p = H(vc), H(vc, pre)
        return [("C18:accepting again", fa(s, h.at("Source.cond", s) == z3.If(
            z3.Select(V, s), z3.IntVal(acc), p.at("Source.cond", s)),
            h.at("Source.cond", s)))]
    return LoopSpec("resume", linv)


class Activate(SrvContract):
    q = "server.Connection.activate"

    def entry(self, vc):
        self.prepare(vc)
        r = self.conn(vc)
        vc.ctx.ghost["sending"] = r.t
        return [r], {}

    def requires(self, vc, a):
        h = H(vc)
        return inv(vc, h) + [("C13", is_open(h, a["self"].t))]

    def ensures(self, vc, a, old, label, res):
        return inv(vc, H(vc))

    def loops(self, vc, env, name, st):
        if name != "range":
            return None
        cn = vc.ctx.ghost["sending"]

        def linv(vc, env, p, D, pre):
            h, o = H(vc), H(vc, pre)
            hd = lambda x: x.at(OUT + ".head", cn)
            return [
                ("C20:at most one message per turn is taken", z3.And(
                    hd(h) >= hd(o), hd(h) <= hd(o) + p)),
                ("C20:what is taken is sent", z3.And(
                    h.at("Sent", cn) == hd(h),
                    h(OUT + ".tail") == o(OUT + ".tail"),
                    h(OUT + ".el") == o(OUT + ".el"),
                    fa(c, z3.Implies(c != cn, z3.And(
                        h.at("Sent", c) == o.at("Sent", c),
                        h.at(OUT + ".head", c) == o.at(OUT + ".head", c))),
                        h.at("Sent", c), h.at(OUT + ".head", c))))]
        return LoopSpec("send", linv)


# -- events of the service discovery
class Triggered(SrvContract):
    q = "server.Connection.subscription_triggered"

    def __init__(self, match):
        self.match = match

    def entry(self, vc):
        self.prepare(vc)
        self._mod = QUEUE
        r = self.conn(vc)
        ctx = vc.ctx
        j0 = ctx.fresh("sub", I)
        sv = ctx.fresh("service", SVC)
        ctx.assume(vc.hget("Service.alive")[sv])
        m = vc.w.sd.MatchType[self.match]
        return [r, SInt(j0), m, SRef("Service", sv)], {}

    def requires(self, vc, a):
        h = H(vc)
        j0 = a["sub_id"].t
        sv = a["service"].t
        gone = self.match == "DISAPPEARED"
        return inv_cb(vc, h) + [("C06", z3.And(
            h.at("Sd.sub.dom", j0), h.at("Sub.conn", j0) == a["self"].t,
            h.at("Subscription.alive", h.at("Sd.sub.val", j0)),
            h.at("Service.%s.some" % ("prev" if gone else "cur"), sv)))]

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        out = [("C05", f_) for f_ in notified(vc, old, new)]
        resp = vc.ctx.ghost.get("responses", ())
        T = "C05,C14:the subscriber is told of the event, once"
        ok = len(resp) == 1 and resp[0][2] == "notify"
        out.append((T, z3.BoolVal(ok)))
        if not ok:
            return out
        cn, tid, mt, args, opt, ty = resp[0]
        j0, sv = a["sub_id"].t, a["service"].t
        ta = z3.Select(old.at("Conn.sub_tas.val", a["self"].t), j0)
        out.append((T, z3.And(cn == a["self"].t,
                              tid == old.at("Ta.ta_id", ta))))
        word = self.match.lower()
        out.append((T, z3.BoolVal(len(args) == 2 and args[0] == word)))
        out.append((T, same(vc, args[1], SInt(old.at("Service.service_id",
                                                     sv)))))
        cur = lambda n: old.at("Service.cur." + n, sv)
        want = {} if self.match == "DISAPPEARED" else {
            "generation": SInt(cur("generation")),
            "service_props": SAtom(TAtom("Props"), cur("props")),
            "ttl": SInt(cur("ttl")), "client_id": SInt(cur("client_id")),
            "orphan_since": TOpt(TReal()).dec(vc, [cur("orphan_since.some"),
                                                   cur("orphan_since")])}
        T = "C05:with the service as it is"
        for n in sorted(set(want) | set(opt)):
            x, y = vc.force(want.get(n)), vc.force(opt.get(n))
            out.append((T, z3.BoolVal(x is y) if x is None or y is None
                        else same(vc, x, y)))
        return out


class ClientIdle(SrvContract):
    q = "server.Server.client_idle"

    def __init__(self, warning):
        self.warning = warning

    def entry(self, vc):
        o = self.prepare(vc)
        cl_ = SRef("SdClient", vc.ctx.fresh("client", sort("SdClient")))
        return [o, cl_, self.warning], {}

    def requires(self, vc, a):
        h = H(vc)
        return inv(vc, h) + [("C16", h.at("Sd.conn", h.at(
            "SdClient.client_id", a["client"].t)))]

    def loops(self, vc, env, name, st):
        return socks_loop(vc, name)

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        g = vc.ctx.ghost
        cid = old.at("SdClient.client_id", a["client"].t)
        cn = ccv(old, cid)
        calls, resp = g.get("sd_calls", ()), g.get("responses", ())
        out = inv(vc, new)
        b = z3.BoolVal
        if not self.warning:
            T = "C16:an idle client is disconnected"
            ok = len(calls) == 1 and calls[0][0] == "client_disconnect"
            out.append((T, z3.And(b(ok), z3.Not(is_open(new, cn)))))
            if ok:
                out.append((T, same(vc, calls[0][1]["client_id"],
                                    SInt(cid))))
            return out
        v = old.at("Conn.proto_version", cn)
        if calls:
            T = "C16:the transport vouches for a version 2 client"
            out.append((T, z3.And(v == 2, b(
                len(calls) == 1 and not resp and
                calls[0][0] == "client_active"))))
            out.append((T, same(vc, calls[0][1]["client_id"], SInt(cid))))
            return out
        tracked = old.at("Conn.track_ta_id.some", cn)
        waiting = old.at("Conn.track_query_ts.some", cn)
        ask = z3.And(v >= 3, tracked, z3.Not(waiting))
        T = "C16:a tracked client is asked for a sign of life, once"
        ok = len(resp) == 1 and resp[0][2] == "notify" and \
            list(resp[0][3]) == ["query"] and not resp[0][4]
        out.append(("C16:a version 2 client counts as alive", v != 2))
        out.append((T, ask == b(bool(resp))))
        if resp:
            out.append((T, z3.And(b(ok), resp[0][0] == cn, resp[0][1] ==
                                  old.at("Conn.track_ta_id", cn),
                                  new.at("Conn.track_query_ts.some", cn))))
        return out


# -- admission and handshake supervision
class SockActivate(SrvContract):
    q = "server.Server.sock_activate"

    def entry(self, vc):
        return [self.prepare(vc)], {}

    def requires(self, vc, a):
        return inv(vc, H(vc))

    def ensures(self, vc, a, old, label, res):
        return inv(vc, H(vc))

    def loops(self, vc, env, name, st):
        if name == "Server.server_socks":
            return LoopSpec("accept", lambda vc, env, V, D, pre: inv(
                vc, H(vc)) + [("T", f_) for _, f_ in inv_types(vc, H(vc))] +
                [("C18", H(vc)("Server.server_socks.dom") == D),
                 ("C18", H(vc)("Server.server_socks.val") == H(vc, pre)(
                     "Server.server_socks.val"))])
        if name == "range":
            def linv(vc, env, p, D, pre):
                h, o = H(vc), H(vc, pre)
                return inv(vc, h) + [("T", f_) for _, f_ in inv_types(
                    vc, h)] + [
                    ("C18:at most one connection per turn",
                     num_conns(vc, h) <= num_conns(vc, o) + p),
                    ("C18", z3.And(*[h(n) == o(n) for n in (
                        "Server.server_socks.dom", "Server.server_socks.val",
                        "Max", "Max.some")]))]
            return LoopSpec("batch", linv)


def clients_kept(old, new):
    return fa(k, z3.And(ccd(new, k) == ccd(old, k), z3.Implies(
        ccd(new, k), ccv(new, k) == ccv(old, k))), ccd(new, k), ccv(new, k))


class CleanOut(SrvContract):
    q = "server.Server.clean_out_handler"

    def entry(self, vc):
        return [self.prepare(vc)], {}

    def requires(self, vc, a):
        h = H(vc)
        return inv(vc, h, clean=False) + [("C18", z3.And(
            h("Server.clean_out_timer.some"), z3.Not(h.at(
                "TM.active", h("Server.clean_out_timer")))))]

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        g = vc.ctx.ghost
        out = inv(vc, new)
        t0 = g.get("scan")
        over = lambda h, c_, n: z3.And(
            cl(h, c_), n - h.at("Conn.connect_time", c_) > 2, z3.Or(
                z3.Not(h.at("Conn.client_id.some", c_)), z3.Not(
                    h.at("Sd.known", h.at("Conn.client_id", c_)))))
        T = "C18:connections without handshake for too long are closed, " \
            "others are not"
        if t0 is None:
            return out + [(T, fa(c, z3.Not(cl(old, c)), cl(old, c)))]
        return out + [
            (T, fa(c, cl(new, c) == z3.And(cl(old, c), z3.Not(
                over(old, c, t0))), cl(new, c))),
            ("C18:clients are not affected", clients_kept(old, new))]

    def loops(self, vc, env, name, st):
        if name != CL:
            return None
        g = vc.ctx.ghost
        if "scan" not in g:
            g["scan"] = g.get("now")

        def linv(vc, env, V, D, pre):
            h, p = H(vc), H(vc, pre)
            return inv(vc, h, clean=False) + [("C18:only these are closed",
                z3.And(fa(c, cl(h, c) == z3.And(cl(p, c), z3.Not(z3.Select(
                    V, c))), cl(h, c)),
                    clients_kept(p, h)))]
        return LoopSpec("close", linv)


class Shutdown(SrvContract):
    """Server.terminate"""
    q = "server.Server.terminate"

    def entry(self, vc):
        return [self.prepare(vc)], {}

    def requires(self, vc, a):
        h = H(vc)
        d = z3.Select(h("Server.server_socks.dom"), s)
        # the server sockets are served by this server (ServerInit)
        return inv(vc, h) + [("C13", fa(s, z3.Implies(d, z3.And(
            h.at("Source.kind", s) == 2, h.at("Source.reg", s))), d)),
            ("C13", fa(s, z3.Implies(h.at("Source.reg", s), z3.Or(
                h.at("Source.kind", s) == 1, d)), h.at("Source.reg", s)))]

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        d = lambda h: z3.Select(h("Server.server_socks.dom"), s)
        sk = z3.Select(old("Server.server_socks.val"), s)
        return [
            ("C13,C18:shutdown ends every connection", z3.And(
                fa(c, z3.Not(cl(new, c)), cl(new, c)),
                fa(k, z3.Not(ccd(new, k)), ccd(new, k)),
                fa(k, z3.Not(new.at("Sd.conn", k)), new.at("Sd.conn", k)))),
            ("C13,C18:no connection and no socket is served after shutdown",
             fa(s, z3.Not(new.at("Source.reg", s)), new.at("Source.reg", s))),
            ("C13,C18:the server sockets are closed", fa(s, z3.Implies(
                d(old), new.at("Sock.closed", sk)), d(old)))]

    def loops(self, vc, env, name, st):
        if name == CL:
            def linv(vc, env, V, D, pre):
                h, p = H(vc), H(vc, pre)
                return inv(vc, h, clean=False) + [
                    ("C13:these are closed", z3.And(
                        fa(c, cl(h, c) == z3.And(cl(p, c), z3.Not(z3.Select(
                            V, c))), cl(h, c)), clients_kept(p, h)))] + \
                    socks_kept(p, h)
            return LoopSpec("close", linv)
        if name == CC:
            def linv(vc, env, V, D, pre):
                h, p = H(vc), H(vc, pre)
                return inv(vc, h, clean=False) + [
                    ("C13:these clients are closed", z3.And(
                        fa(c, cl(h, c) == cl(p, c), cl(h, c)),
                        fa(k, z3.And(
                            ccd(h, k) == z3.And(ccd(p, k), z3.Not(z3.Select(
                                V, k))),
                            z3.Implies(ccd(h, k), ccv(h, k) == ccv(p, k))),
                           ccd(h, k), ccv(h, k))))] + socks_kept(p, h)
            return LoopSpec("close clients", linv)
        if name == "Server.server_socks":
            def linv(vc, env, V, D, pre):
                h, p = H(vc), H(vc, pre)
                sk = z3.Select(h("Server.server_socks.val"), s)
                out = []
                # claims about what the loop changes
                if not h("Source.reg").eq(p("Source.reg")):
                    out.append(("C13:no longer served", fa(
                        s, h.at("Source.reg", s) == z3.And(
                            p.at("Source.reg", s), z3.Not(z3.Select(V, s))),
                        h.at("Source.reg", s))))
                if not h("Sock.closed").eq(p("Sock.closed")):
                    out.append(("C13:closed", fa(s, z3.Implies(
                        z3.Select(V, s), h.at("Sock.closed", sk)),
                        z3.Select(V, s))))
                return out
            return LoopSpec("stop", linv)


def socks_kept(p, h):
    """the sources of the server sockets stay registered"""
    return [("C13:server sockets are served", fa(s, z3.And(
        z3.Implies(h.at("Source.reg", s), p.at("Source.reg", s)), z3.Implies(
            h.at("Source.kind", s) == 2,
            h.at("Source.reg", s) == p.at("Source.reg", s))),
        h.at("Source.reg", s)))]


# -- timers and logging
class TimerChanged(SrvContract):
    q = "server.Server.timer_changed"

    def entry(self, vc):
        o = self.prepare(vc)
        self._mod = ()
        act = vc.contracts = dict(vc.contracts)

        def nxt(vc, o, a):
            v = TOpt(TReal()).fresh(vc, "next")
            vc.ctx.ghost["next"] = v
            return v

        def put(vc, o, a):
            vc.ctx.ghost["put"] = vc.ctx.ghost.get("put", ()) + (
                (o, a.get("timeout")),)
        act["timer.TimerManager.next_timeout"] = Ext(nxt)
        act["eventloop.Source.set_timeout"] = Ext(put)
        act["eventloop.Source.clear_timeout"] = Ext(put)
        return [o], {}

    def ensures(self, vc, a, old, label, res):
        g = vc.ctx.ghost
        put = g.get("put", ())
        T = "C11,C16:the event loop wakes up for the earliest timer"
        ok = len(put) == 1 and "next" in g and \
            put[0][0] is vc.singletons["timer_source"]
        if not ok:
            return [(T, z3.BoolVal(False))]
        x, y = TOpt(TReal()).enc(vc, put[0][1]), \
            TOpt(TReal()).enc(vc, g["next"])
        return [(T, z3.And(x[0] == y[0], z3.Implies(x[0], x[1] == y[1])))]


class TimerActivate(SrvContract):
    q = "server.Server.timer_activate"

    def entry(self, vc):
        o = self.prepare(vc)
        self._mod = ()
        vc.contracts = dict(vc.contracts)

        def process(vc, o, a):
            vc.ctx.ghost["ran"] = vc.ctx.ghost.get("ran", ()) + (o,)
        vc.contracts["timer.TimerManager.process"] = Ext(process)
        return [o], {}

    def ensures(self, vc, a, old, label, res):
        ran = vc.ctx.ghost.get("ran", ())
        return [("C11,C16:due timers are run", z3.BoolVal(
            len(ran) == 1 and ran[0] is vc.singletons["tm"]))]


class Log(SrvContract):
    """Logging does not fail and changes nothing."""
    def __init__(self, q):
        self.q = q

    def entry(self, vc):
        o = self.prepare(vc)
        self._mod = ()
        cat = SText()
        if "Connection" in self.q:
            return [self.conn(vc), Sink(), SText(), cat], {}
        return [o, SText(), cat], {}

    def ensures(self, vc, a, old, label, res):
        return [("C13:logging does not fail", z3.BoolVal(True))]


# -- start
ATTRS = {"cert": "tls.cert_file", "key": "tls.key_file",
         "tc": "tls.tc_file", "crl": "tls.crl_file"}


class AddSocket(SrvContract):
    q = "server.Server.add_socket"

    @property
    def outcomes(self):
        import sys
        return [Outcome("return"),
                Outcome("error", sys.modules["paf.xcm"].error)]

    def comps(self, vc):
        pre = ("Source.", "Sock.alive", "Server.server_socks")
        return tuple(n for n in vc.w.comp_sorts if n.startswith(pre))

    def call_ghost(self, vc, a):
        self._mod = self.comps(vc)

    def entry(self, vc):
        o = self.prepare(vc)
        self._mod = self.comps(vc)
        ctx = vc.ctx
        attrs = {n: SAtom(TAtom("File"), ctx.fresh(n, sort("File")))
                 for n in sorted(ATTRS)
                 if ctx.choose(["given", "absent"], n) == "given"}
        conf = vc.w.conf.SocketConf.__new__(vc.w.conf.SocketConf)
        conf.__dict__.update(addr=SAtom(TAtom("Addr"), ctx.fresh(
            "addr", sort("Addr"))), tls_attrs=attrs)

        def server(vc, addr, attrs={}):
            g = vc.ctx.ghost
            g["opened"] = g.get("opened", ()) + ((addr, dict(attrs)),)
            if vc.ctx.choose(["ok", "error"], "xcm.server") == "error":
                raise ProgExc(vc.w.xcm.error(errno.EADDRINUSE, "..."))
            return vc.new_ref("Sock")
        vc.w.intercepts[vc.w.xcm.server] = server
        ctx.ghost["kind"] = 2
        return [o, conf], {}

    def requires(self, vc, a):
        return socks_inv(vc, H(vc), served=False)

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        out = []
        x = z3.Const("x", SRC)
        d = lambda h, y: h.at("Server.server_socks.dom", y)
        out += socks_inv(vc, new, served=False)
        if label == "return":
            out.append(("C18:existing sockets are kept", fa(s, z3.Implies(
                d(old, s), d(new, s)), d(old, s))))
        if getattr(self, "unit", None) is not None:
            opened = vc.ctx.ghost.get("opened", ())
            conf = a["socket_conf"]
            T = "C17:the socket is opened as configured"
            want = {"xcm.blocking": False}
            for n, v in conf.tls_attrs.items():
                want[ATTRS[n]] = v
            if "crl" in conf.tls_attrs:
                want["tls.check_crl"] = True
            ok = len(opened) == 1 and opened[0][0] is conf.addr and \
                set(opened[0][1]) == set(want) and all(
                    opened[0][1][n] is v for n, v in want.items())
            out.append((T, z3.BoolVal(bool(ok))))
            if label == "return":
                nw = vc.ctx.fresh("which", SRC)
                out.append(("C18:one socket is added", z3.Exists([x], z3.And(
                    d(new, x), z3.Not(d(old, x)),
                    new("Server.server_socks.dom") == z3.Store(
                        old("Server.server_socks.dom"), x,
                        z3.BoolVal(True))))))
        return out


def socks_inv(vc, h, served=True):
    acc = vc.w.xcm.SO_ACCEPTABLE
    d = z3.Select(h("Server.server_socks.dom"), s)
    sk = z3.Select(h("Server.server_socks.val"), s)
    reg = h.at("Source.reg", s)
    return [("C18:accepting from the start", fa(s, z3.Implies(d, z3.And(
        h.at("Source.kind", s) == 2, h.at("Source.alive", s),
        h.at("Source.cond", s) == acc, reg if served else z3.Not(reg))),
        d)),
        ("C13:nothing else is served", fa(s, z3.Implies(
            reg, d if served else z3.BoolVal(False)), reg))]


class ServerInit(SrvContract):
    q = "server.Server.__init__"

    @property
    def outcomes(self):
        import sys
        return [Outcome("return"),
                Outcome("error", sys.modules["paf.xcm"].error)]

    def entry(self, vc):
        o = self.prepare(vc)
        self._mod = all_comps(vc)
        ctx = vc.ctx
        sg = vc.singletons
        args = [SText(), vc.w.TCONFS.fresh(vc, "sockets"), "user limits",
                "total limits", o.proto_version_limit, o.idle_limit,
                o.event_loop]
        ctx.assume(args[1].ln() >= 0)
        o.__dict__.clear()
        w = vc.w

        def tm(vc, cb):
            vc.ctx.prove(z3.BoolVal(
                isinstance(cb, SBound) and cb.obj is o and
                cb.fn is w.srv.Server.__dict__.get("timer_changed")),
                "C11,C16:the server follows the timers")
            return sg["tm"]

        def sdnew(vc, name, t_, u, tot):
            vc.ctx.prove(z3.BoolVal(name is args[0] and t_ is sg["tm"] and
                                    u == args[2] and tot == args[3]),
                         "C07,C17:the service discovery is set up as "
                         "configured")
            h = vc.hset
            h("Sd.conn", z3.K(I, z3.BoolVal(False)))
            h("Sd.known", z3.K(I, z3.BoolVal(False)))
            h("Sd.sub.dom", z3.K(I, z3.BoolVal(False)))
            h("Sd.services.dom", z3.K(I, z3.BoolVal(False)))
            return sg["sd"]
        w.intercepts[w.tm.TimerManager] = tm
        w.intercepts[w.sd.ServiceDiscovery] = sdnew
        w.intercepts[w.el.Source] = lambda vc: sg["timer_source"]
        ctx.assume(fa(s, z3.Not(vc.hget("Source.reg")[s]),
                      vc.hget("Source.reg")[s]))
        # a limit on the number of clients is not negative (conf)
        ctx.assume(z3.Implies(vc.hget("Max.some"), vc.hget("Max") >= 0))
        return [o] + args, {}

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        if label != "return":
            return []
        return inv(vc, new) + [
            ("C18:no connections at start", z3.And(
                fa(c, z3.Not(cl(new, c)), cl(new, c)),
                fa(k, z3.Not(ccd(new, k)), ccd(new, k)))),
            ("C11,C16:timers are served",
             z3.BoolVal(bool(vc.ctx.ghost.get("timer_source"))))] + \
            socks_inv(vc, new)

    def loops(self, vc, env, name, st):
        if name == "Server.server_socks":
            def linv(vc, env, V, D, pre):
                h, p = H(vc), H(vc, pre)
                return [("C18:served", fa(s, h.at("Source.reg", s) == z3.Or(
                    p.at("Source.reg", s), z3.Select(V, s)),
                    h.at("Source.reg", s)))]
            return LoopSpec("serve", linv)
        if name == "sockets":
            return LoopSpec("sockets", lambda vc, env, p, D, pre: socks_inv(
                vc, H(vc), served=False))

def units():
    us = []
    for cmd in COMMANDS:
        modes = [("no hello yet", "none", None),
                 ("hello failed, v2", "none", 2),
                 ("hello failed, v3", "none", 3),
                 ("v2", "handshaked", 2), ("v3", "handshaked", 3)]
        for lab, mode, ver in modes:
            if cmd == "track" and ver != 3:
                continue
            us.append(Unit("server", SrvWorld, Process(cmd, mode, ver), ALL,
                           name="server.Connection.process[%s,%s]" % (
                               cmd, lab)))
    us.append(Unit("server", SrvWorld, Terminate(), ALL))
    us.append(Unit("server", SrvWorld, Activate(), ALL,
                   contracts=[Process(), Terminate()]))
    for m in ("APPEARED", "MODIFIED", "DISAPPEARED"):
        us.append(Unit("server", SrvWorld, Triggered(m), ALL, name=
                       "server.Connection.subscription_triggered[%s]" % m))
    for wn in (True, False):
        us.append(Unit("server", SrvWorld, ClientIdle(wn), ALL, name=
                       "server.Server.client_idle[%s]" % (
                           "warning" if wn else "timeout")))
    us.append(Unit("server", SrvWorld, SockActivate(), ALL))
    us.append(Unit("server", SrvWorld, CleanOut(), ALL,
                   contracts=[Terminate()]))
    us.append(Unit("server", SrvWorld, Shutdown(), ALL,
                   contracts=[Terminate()]))
    us.append(Unit("server", SrvWorld, TimerChanged(), ALL | {"C11"}))
    us.append(Unit("server", SrvWorld, TimerActivate(), ALL | {"C11"}))
    us.append(Unit("server", SrvWorld, AddSocket(), ALL | {"C17"}))
    us.append(Unit("server", SrvWorld, ServerInit(), ALL | {"C11", "C17"},
                   contracts=[AddSocket()]))
    for q in ("server.Connection.log", "server.Server.debug"):
        us.append(Unit("server", SrvWorld, Log(q), ALL))
    return us


_A = [
    "the operations of ServiceDiscovery behave as proved in units/sd.py: "
    "their outcomes, which clients are connected and which subscriptions and "
    "services exist afterwards, and that every match callback is given a "
    "live subscription of the connection it was created by, and a service "
    "with current (disappeared: previous) contents; client_connect fails "
    "with AlreadyExistsError iff the client is connected",
    "EventLoop.add/remove and XcmSource.update behave as proved in "
    "units/eventloop.py, TimerManager.add as in units/timer.py, "
    "Message.parse and to_wire as in units/proto.py",
    "xcm: send, receive, accept and get_attr succeed or raise xcm.error; "
    "set_attr, finish, close and set_target do not fail; receive returns "
    "bytes",
    "filter.parse returns a filter or raises ParseError, Filter.match and "
    "str() of a filter do not fail, as proved in units/filter.py; "
    "Connection.determine_user_id returns a user, as proved in "
    "units/user.py",
    "the clock does not go backwards",
    "handlers run one at a time (one thread)"]
ASSUMES = {p: _A for p in ALL}
ASSUMES["C11"] = ASSUMES["C17"] = []
