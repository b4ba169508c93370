"""paf.client under contract: transactions, callbacks and the outgoing queue
of the client library (C21, and the client's side of C20)."""
import errno
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import SBound, BuiltinMethod, SymRange
from pyvc.loops import LoopSpec, WhileSpec
from pyvc.runner import Unit
from .server import (TTaType, STaType, TQueue, SQueue, SWire, SIn, WIRE, TA,
                     SOCK, fa, same, pick, k, i, int_range)

CLI, FN = sort("Cl"), sort("Fn_Cb")
MT = ["accept", "notify", "complete", "fail"]
REQ, ACC, END = 1, 2, 3
OUT, TAS = "Cl.out_wire_msgs", "Cl.transactions"


class CbError(Exception):
    """Any exception a callback may raise."""


class TQueueC(TQueue):
    def dec_at(self, vc, loc):
        return SQueueC(vc, loc, self)


class SQueueC(SQueue):
    def append(self, vc, v):
        v = vc.force(v)
        if not isinstance(v, SWire):
            raise Unsupported("%r queued" % (v,))
        g = vc.ctx.ghost
        created = g.get("created", ())
        vc.ctx.prove(z3.BoolVal(bool(created) and created[0].eq(v.t)),
                     "C20,C21:messages are queued once each, as they are "
                     "made")
        g["created"] = created[1:]
        n = self.loc.get(1)
        g["queued"] = g.get("queued", ()) + ((n, v.t),)
        self.loc.set(2, z3.Store(self.loc.get(2), n, v.t))
        self.loc.set(1, n + 1)


# ------------------------------------------------------------ environment
def to_wire(vc, f, args, kw):
    """Message.to_wire (C12)"""
    (m,) = args
    wt = vc.ctx.fresh("wire", WIRE)
    vc.keep.append(wt)
    g = vc.ctx.ghost
    pay = dict(g.get("payload", {}))
    pay[wt.get_id()] = (m.ta_type, m.ta_id, vc.force(m.msg_type),
                        tuple(m.args), dict(m.optargs))
    g["payload"] = pay
    g["created"] = g.get("created", ()) + (wt,)
    return SWire(wt)


def value(vc, fl):
    ctx = vc.ctx
    n = type(fl).__name__
    if n == "NonNegativeIntField":
        v = ctx.fresh(fl.python_name(), I)
        ctx.assume(v >= 0)
        return SInt(v)
    if n == "NonNegativeNumberField":
        v = ctx.fresh(fl.python_name(), R)
        ctx.assume(v >= 0)
        return SReal(v)
    t = {"StringField": "Str", "PropsField": "Props"}.get(n)
    if t is None:
        raise Unsupported("field type %s" % n)
    return SAtom(TAtom(t), ctx.fresh(fl.python_name(), sort(t)))


SPLIT = ("generation", "ttl")


def values(vc, ty, mt):
    opt = {}
    for fl in ty.opt_fields[mt]:
        fixed = vc.ctx.ghost.get("fixed")
        if fl.name in fixed if fixed is not None and fl.name in SPLIT else vc.ctx.choose(
               ["given", "absent"], fl.name) == "given":
            opt[fl.python_name()] = value(vc, fl)
    return [value(vc, fl) for fl in ty.fields[mt]], opt


def parse(vc, f, args, kw):
    """Message.parse (C12): a message, or ProtocolError"""
    ctx = vc.ctx
    pr = vc.w.proto
    g = ctx.ghost
    pv, wire = args
    g["parsed_with"] = vc.force(pv)
    if ctx.choose(["message", "ProtocolError"], "parse") == "ProtocolError":
        raise ProgExc(exc(pr.ProtocolError))
    ty = vc.w.ta_type
    mt = ctx.choose(MT + ["request", "inform"], "message type") \
        if g.get("fixed") is None else g["fixed"][0]
    m = pr.Message.__new__(pr.Message)
    ta_id = ctx.fresh("ta_id", I)
    ctx.assume(ta_id >= 0)
    a, opt = values(vc, ty, mt)
    m.__dict__.update(ta_type=ty, ta_id=SInt(ta_id), msg_type=mt, args=a,
                      optargs=opt)
    g["msg"] = (ty, ta_id, mt, tuple(a), dict(opt))
    return m


def exc(cls):
    e = cls.__new__(cls)
    e.args = ("...",)
    return e


def sock_send(vc, o, msg):
    ctx = vc.ctx
    msg = vc.force(msg)
    if not isinstance(msg, SWire):
        raise Unsupported("%r sent" % (msg,))
    h = H(vc)
    cl = ctx.ghost["self"]
    what = ctx.choose(["sent", "would block", "error"], "send")
    ctx.ghost["tried"] = True
    if what == "would block":
        raise ProgExc(vc.w.xcm.error(errno.EAGAIN, "..."))
    sent = h("Sent")
    ctx.prove(z3.Or(h("Dead"), z3.And(
        sent < h.at(OUT + ".tail", cl), z3.Select(
            h.at(OUT + ".el", cl), sent) == msg.t)),
        "C20:messages are sent in order, once each")
    ctx.prove(h.at("Cl.conn_sock", cl) == o.t, "C20:sent to the server")
    vc.hset("Sent", sent + 1)
    if what == "error":
        vc.hset("Dead", z3.BoolVal(True))
        raise ProgExc(vc.w.xcm.error(errno.ECONNRESET, "..."))
    ctx.ghost["handed"] = ctx.ghost.get("handed", 0) + 1
    return None


def sock_receive(vc, o):
    ctx = vc.ctx
    what = ctx.choose(["message", "would block", "error"], "receive")
    ctx.ghost["received"] = what
    if what == "message":
        n = ctx.fresh("inlen", I)
        ctx.assume(n >= 0)
        ctx.ghost["inlen"] = n
        return SIn(n)
    raise ProgExc(vc.w.xcm.error(
        errno.EAGAIN if what == "would block" else errno.ECONNRESET, "..."))


def sock_target(vc, o, c):
    (n,) = TInt().enc(vc, c)
    vc.hset("Target", n)


def ia(vc, tx, *names):
    return z3.Or(*[tx == n for n, o in enumerate(vc.w.TTaType.objs)
                   if o.ia_type.name in names])


def cmd_is(vc, tx, cmd):
    return z3.Or(*[tx == n for n in vc.w.TTaType.index(cmd)])


def legal(vc, st, tx, mt):
    """May a message of this type follow in a transaction?"""
    if mt == "accept":
        return z3.And(st == REQ, ia(vc, tx, "MULTI_RESPONSE", "TWO_WAY"))
    if mt == "notify":
        return st == ACC
    if mt == "complete":
        return z3.Or(z3.And(st == REQ, ia(vc, tx, "SINGLE_RESPONSE")),
                     z3.And(st == ACC, ia(vc, tx, "MULTI_RESPONSE")))
    if mt == "fail":
        return z3.Or(st == REQ, st == ACC)
    return z3.BoolVal(False)


def after(mt):
    return {"accept": ACC, "notify": ACC}.get(mt, END)


def callback(vc, f, args, kw):
    """A response callback: what it is given, and what it may do."""
    ctx = vc.ctx
    g = ctx.ghost
    m = g.get("msg")
    if m is None or g.get("delivered") or len(args) < 2:
        ctx.prove(z3.BoolVal(False), "C21:callbacks are called once per "
                  "message")
        raise PathEnd()
    ty, ta_id, mt, margs, mopt = m
    h = H(vc)
    T = "C21:the callback is that of the message's transaction"
    ctx.prove(f.t == h.at("CbOf", ta_id), T)
    ctx.prove(same(vc, args[0], SInt(ta_id)), T)
    st, tx = h.at("Ans", ta_id), h.at("TyOf", ta_id)
    ctx.prove(cmd_is(vc, tx, ty.cmd), "C21:the message is of the "
              "transaction's command")
    ctx.prove(legal(vc, st, tx, mt), "C21:the message is in order")
    ev = vc.concretize_enum(args[1])
    ctx.prove(z3.BoolVal(getattr(ev, "name", None) == mt.upper()),
              "C21:the event is that of the message")
    rest = list(args[2:])
    ctx.prove(z3.BoolVal(len(rest) == len(margs) and
                         all(x is y for x, y in zip(rest, margs)) and
                         set(kw) == set(mopt) and
                         all(kw[n] is mopt[n] for n in kw)),
              "C21:with the values of the message")
    vc.hset("Ans", z3.Store(h("Ans"), ta_id, z3.IntVal(after(mt))))
    g["delivered"] = True
    for n, f_ in inv(vc, H(vc), g["self"]):
        ctx.prove(f_, n)
    old = H(vc)
    for n in vc.w.api_comps():
        vc.havoc(n)
    for n, f_ in rely(vc, old, H(vc), g["self"]):
        ctx.assume(f_)
    lab = ctx.choose(["returns"] + sorted(vc.w.raises), "callback")
    if lab != "returns":
        g["raised"] = lab
        raise ProgExc(exc(vc.w.raises[lab]))
    return None


# ------------------------------------------------------------- the world
class CliWorld(World):
    ta_type = None

    def __init__(self, index):
        World.__init__(self, index)
        m = index.modules
        self.cli, self.proto = m["client"], m["proto"]
        import sys
        self.xcm = sys.modules["paf.xcm"]
        cli = self.cli
        self.raises = {"ProtocolError": self.proto.ProtocolError,
                       "TransportError": self.proto.TransportError,
                       "TransactionError": cli.TransactionError,
                       "any": CbError}
        objs = []
        for v in sorted(self.proto.TA_TYPES):
            for n, o in sorted(self.proto.TA_TYPES[v].items()):
                if not any(o is y for y in objs):
                    objs.append(o)
        self.TTaType = TTaType(objs)
        self.TCb = TFn("Cb", callback)
        self.TReady = TFn("Ready", ready)
        self.fn_encoders["Cb"] = cb_term
        self.heap_class("Cl", cli.Client, {
            "client_id": TInt(), "conn_sock": TRef("Sock"),
            "proto_version_range": TTup(TInt(), TInt()),
            "tracker": TOpt(TRef("Tracker")),
            "ready_cb": TOpt(self.TReady), "ta_id": TInt(),
            "out_wire_msgs": TQueueC(),
            "transactions": TMap(TInt(), TRef("Ta")),
            "proto_version": TOpt(TInt())})
        self.heap_class("Ta", cli.Transaction, {
            "ta_id": TInt(), "ta_type": self.TTaType,
            "state": TEnum(cli.TransactionState), "cb": self.TCb})
        self.heap_class("Tracker", cli.Tracker, {
            "conn": TRef("Cl"), "accepted": TBool(), "failed": TBool(),
            "notification_queries": TInt(), "inform_queries": TInt(),
            "notification_replies": TInt(), "ta_id": TInt(),
            "fail_reason": TOpt(TAtom("Str"))})
        self.heap_class("Sock", None, {}, {
            "send": sock_send, "receive": sock_receive,
            "set_target": sock_target, "fileno": lambda vc, o: 7,
            "finish": lambda vc, o: None, "close": sock_close})
        self.ghost("Ans", z3.ArraySort(I, I))
        self.ghost("CbOf", z3.ArraySort(I, FN))
        self.ghost("TyOf", z3.ArraySort(I, I))
        self.ghost("TaOf", z3.ArraySort(I, TA))
        self.ghost("Sent", I)
        self.ghost("Target", I)
        self.ghost("Dead", B)
        self.intercepts[range] = int_range
        act = self.active_contracts
        act["proto.Message.parse"] = parse
        act["proto.Message.to_wire"] = to_wire
        st = list(cli.TransactionState)
        names = [s.name for s in st]
        try:
            self.states = {REQ: names.index("REQUESTING"),
                           ACC: names.index("ACCEPTED"),
                           END: names.index("TERMINATED")}
        except ValueError:
            raise Unsupported("transaction states have other names")

    def api_comps(self):
        return [n for n in self.comp_sorts if n not in (
            "Cl.client_id", "Cl.conn_sock", "Cl.ready_cb.some",
            "Cl.ready_cb", "Cl.proto_version_range.0",
            "Cl.proto_version_range.1", "Cl.tracker", "Cl.tracker.some",
            "Cl.alive", "Sock.alive")]

    def loop_spec(self, vc, env, coll, st):
        if not isinstance(coll, SymRange):
            return None
        cl = vc.ctx.ghost["self"]

        def linv(vc, env, p, D, pre):
            h, o = H(vc), H(vc, pre)
            return inv(vc, h, cl) + rely(vc, o, h, cl)
        return LoopSpec("round", linv)

    def while_spec(self, vc, env, st):
        if not vc.ctx.ghost.get("rounds"):
            return None
        cl = vc.ctx.ghost["self"]

        def linv(vc, env, pre):
            h, o = H(vc), H(vc, pre)
            return inv(vc, h, cl) + rely(vc, o, h, cl)
        return WhileSpec("wait", inv=linv, mod=self.api_comps())


def sock_close(vc, o):
    g = vc.ctx.ghost
    g["closed"] = g.get("closed", 0) + 1


def ready(vc, f, args, kw):
    g = vc.ctx.ghost
    vc.ctx.prove(z3.BoolVal(not args and not kw), "C21:ready_cb takes no "
                 "arguments")
    g["ready"] = g.get("ready", 0) + 1


def cb_term(vc, v):
    g = vc.ctx.ghost
    d = dict(g.get("cbs", {}))
    key = ("fn", v.fn, id(v.obj)) if isinstance(v, SBound) else id(v)
    if key not in d:
        d[key] = vc.ctx.fresh("cb", FN)
        vc.keep.append(v)
        g["cbs"] = d
    return d[key]


# ------------------------------------------------------------- invariants
def st_is(vc, h, ta, an):
    s = h.at("Ta.state", ta)
    return z3.And(*[z3.Implies(an == a, s == n)
                    for a, n in vc.w.states.items()])


def cond_of(vc, h, cl):
    xcm = vc.w.xcm
    return z3.If(h.at(OUT + ".tail", cl) > h.at(OUT + ".head", cl),
                 z3.IntVal(xcm.SO_SENDABLE | xcm.SO_RECEIVABLE),
                 z3.IntVal(xcm.SO_RECEIVABLE))


def queue(vc, h, cl):
    hd, tl = h.at(OUT + ".head", cl), h.at(OUT + ".tail", cl)
    return [("C20:what is queued is what has not been sent", z3.And(
        hd <= tl, z3.Or(h("Dead"), h("Sent") == hd)))]


def inv(vc, h, cl):
    dom, val = h.at(TAS + ".dom", cl), h.at(TAS + ".val", cl)
    d, v = z3.Select(dom, k), z3.Select(val, k)
    an = h.at("Ans", k)
    n = h.at("Cl.ta_id", cl)
    pv = h.at("Cl.proto_version", cl)
    t = h.at("TaOf", k)
    return queue(vc, h, cl) + [
        ("C20:waits for writing iff something is queued",
         h("Target") == cond_of(vc, h, cl)),
        ("C21:known transactions are those of their ids", fa(
            k, z3.Implies(d, z3.And(v == t, an >= REQ)), d, v)),
        ("C21:the transactions are as the messages have it", fa(
            k, z3.Implies(an >= REQ, z3.And(
                h.at("Ta.alive", t), h.at("Ta.ta_id", t) == k,
                st_is(vc, h, t, an), h.at("Ta.cb", t) == h.at("CbOf", k),
                h.at("Ta.ta_type", t) == h.at("TyOf", k))), an, t)),
        ("C21:transactions that have not ended are known", fa(
            k, z3.And(an >= 0, an <= 3, z3.Implies(
                z3.Or(an == REQ, an == ACC), d)), an)),
        ("C21:ids are used once", z3.And(n >= 0, fa(k, z3.Implies(
            z3.Or(k < 0, k >= n), an == 0), an))),
        ("C21:the version in use exists", z3.Implies(
            h.at("Cl.proto_version.some", cl), z3.Or(pv == 2, pv == 3)))]


def types(vc, h):
    n = len(vc.w.TTaType.objs)
    t = z3.Const("t", TA)
    return [fa(k, z3.And(h.at("TyOf", k) >= 0, h.at("TyOf", k) < n),
               h.at("TyOf", k)),
            fa(t, z3.And(h.at("Ta.ta_type", t) >= 0,
                         h.at("Ta.ta_type", t) < n), h.at("Ta.ta_type", t)),
            fa(t, z3.And(h.at("Ta.state", t) >= 0, h.at("Ta.state", t) < len(
                list(vc.w.cli.TransactionState))), h.at("Ta.state", t))]


def rely(vc, old, new, cl):
    """what operations of the library, and so callbacks, do to the rest"""
    od, ov = z3.Select(old.at(TAS + ".dom", cl), k), \
        z3.Select(old.at(TAS + ".val", cl), k)
    nd, nv = z3.Select(new.at(TAS + ".dom", cl), k), \
        z3.Select(new.at(TAS + ".val", cl), k)
    n = old.at("Cl.ta_id", cl)
    t = z3.Const("t", TA)
    own = z3.And(k >= 0, k < n)
    tail = OUT + ".tail"
    return inv(vc, new, cl) + [
        ("C21", f_) for f_ in types(vc, new)] + [
        ("C21:ids only grow", new.at("Cl.ta_id", cl) >= n),
        ("C21:a transaction keeps its callback and command", fa(
            k, z3.Implies(old.at("Ans", k) >= REQ, z3.And(
                new.at("CbOf", k) == old.at("CbOf", k),
                new.at("TaOf", k) == old.at("TaOf", k),
                new.at("TyOf", k) == old.at("TyOf", k))),
            new.at("CbOf", k), new.at("TyOf", k), new.at("TaOf", k))),
        ("C21:transactions only progress", fa(
            k, new.at("Ans", k) >= old.at("Ans", k), new.at("Ans", k))),
        ("C21:forgotten transactions stay forgotten", fa(
            k, z3.Implies(z3.And(own, nd), od), nd)),
        ("C20:queued messages stay queued or are sent", z3.And(
            new.at(tail, cl) >= old.at(tail, cl),
            new("Sent") >= old("Sent"),
            fa(i, z3.Implies(i < old.at(tail, cl), z3.Select(
                new.at(OUT + ".el", cl), i) == z3.Select(
                    old.at(OUT + ".el", cl), i)),
                z3.Select(new.at(OUT + ".el", cl), i))))]


# ---------------------------------------------------------------- contracts
class CliContract(Contract):
    exc_tag = "C21"
    ends = ()
    _mod = ()

    @property
    def mod(self):
        return self._mod

    @property
    def outcomes(self):
        from pyvc.runner import get_index
        m = get_index().modules
        d = {"ProtocolError": m["proto"].ProtocolError,
             "TransportError": m["proto"].TransportError,
             "TransactionError": m["client"].TransactionError,
             "any": CbError}
        return [Outcome("return")] + [Outcome(n, d[n]) for n in self.ends]

    def prepare(self, vc, ta_type=None):
        vc.w.ta_type = ta_type
        ctx = vc.ctx
        r = SRef("Cl", ctx.fresh("self", CLI))
        ctx.assume(vc.hget("Cl.alive")[r.t])
        ctx.ghost["self"] = r.t
        self._mod = tuple(vc.w.comp_sorts)
        for f_ in types(vc, H(vc)):
            ctx.assume(f_)
        return r

    def call_ghost(self, vc, a):
        self._mod = tuple(vc.w.api_comps())

    def cl(self, a):
        return list(a.values())[0].t

    def requires(self, vc, a):
        return inv(vc, H(vc), self.cl(a))

    def verifying(self):
        return getattr(self, "unit", None) is not None


class TrySend(CliContract):
    q = "client.Client.try_send"
    ends = ("TransportError",)

    def entry(self, vc):
        return [self.prepare(vc)], {}

    def result(self, vc, a, label):
        if label == "return":
            return SBool(vc.ctx.fresh("sent", B))

    def requires(self, vc, a):
        return queue(vc, H(vc), self.cl(a))

    def call_ghost(self, vc, a):
        self._mod = tuple(self.mine(vc))

    def mine(self, vc):
        return [n for n in vc.w.comp_sorts if n in (
            "Sent", "Target", "Dead") or n.startswith(OUT)]

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        cl = self.cl(a)
        out = queue(vc, new, cl) + [
            ("C20:waits for writing iff something is queued",
             new("Target") == cond_of(vc, new, cl)),
            ("C20,C21:sending changes nothing else", z3.And(
                new.at(OUT + ".tail", cl) == old.at(OUT + ".tail", cl),
                new("Sent") >= old("Sent"),
                fa(i, z3.Implies(i < old.at(OUT + ".tail", cl), z3.Select(
                    new.at(OUT + ".el", cl), i) == z3.Select(
                        old.at(OUT + ".el", cl), i)),
                   z3.Select(new.at(OUT + ".el", cl), i)),
                *[old(n) == new(n) for n in vc.w.comp_sorts
                  if n not in self.mine(vc)]))]
        if label == "return" and self.verifying():
            out.append(("C20:one message at a time",
                        new("Sent") <= old("Sent") + 1))
            n = vc.ctx.ghost.get("handed", 0)
            out.append(("C20:what is taken is sent", new("Sent") ==
                        old("Sent") + n))
            out.append(("C20:a message that can be sent is sent", z3.Or(
                z3.BoolVal(bool(vc.ctx.ghost.get("tried"))),
                old.at(OUT + ".tail", cl) == old.at(OUT + ".head", cl))))
            (b,) = TBool().enc(vc, res) if isinstance(res, (bool, SBool)) \
                else [z3.BoolVal(True)]
            out.append(("C20:sending goes on until it would block",
                        b == z3.BoolVal(n == 1)))
        return out


class TryReceive(CliContract):
    q = "client.Client.try_receive"
    ends = ("ProtocolError", "TransportError", "TransactionError", "any")

    def __init__(self, cmd=None, version=None, fixed=None):
        self.cmd, self.version, self.fixed = cmd, version, fixed

    covers = ["client.Client.try_receive:return",
              "client.Client.try_receive:ProtocolError",
              "client.Client.try_receive:TransportError"]

    def entry(self, vc):
        from pyvc.runner import get_index
        ty = vc.w.proto.TA_TYPES[self.version].get(self.cmd)
        vc.ctx.ghost["fixed"] = self.fixed
        return [self.prepare(vc, ty)], {}

    def result(self, vc, a, label):
        if label == "return":
            return SBool(vc.ctx.fresh("received", B))

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        cl = self.cl(a)
        out = rely(vc, old, new, cl)
        if not self.verifying():
            return out
        g = vc.ctx.ghost
        P = lambda n, f_: out.append((n, f_ if z3.is_expr(f_) else
                                      z3.BoolVal(bool(f_))))
        got = bool(g.get("delivered"))
        what = g.get("received")
        m = g.get("msg")
        if what == "message" and "parsed_with" in g:
            pw = g["parsed_with"]
            some, pv = old.at("Cl.proto_version.some", cl), \
                old.at("Cl.proto_version", cl)
            P("C21:messages are parsed by the version in use",
              z3.Not(some) if pw is None else
              z3.And(some, pv == TInt().enc(vc, pw)[0]))
        if m is None:
            P("C21:callbacks are called for messages only", not got)
            want = {"would block": "return", "error": "TransportError",
                    "message": "ProtocolError"}.get(what)
            P("C21:a message that is no message is a protocol error, an "
              "error of the transport one of the transport", label == want)
            if label == "return":
                P("C21:there is no more to receive", same(vc, res, False))
            self.unchanged(vc, old, new, P)
            return out
        ty, ta_id, mt, args, opt = m
        an, tx = old.at("Ans", ta_id), old.at("TyOf", ta_id)
        ok = z3.And(cmd_is(vc, tx, ty.cmd), legal(vc, an, tx, mt),
                    g["inlen"] > 0)
        P("C21:a message in order is delivered, others are not",
          ok == z3.BoolVal(got))
        if not got:
            P("C21:a message out of order is a protocol error",
              label == "ProtocolError")
            self.unchanged(vc, old, new, P)
        else:
            P("C21:the callback's outcome is that of receiving",
              label == g.get("raised", "return"))
            if label == "return":
                P("C21:there may be more to receive", same(vc, res, True))
                P("C21:an ended transaction is forgotten", z3.Implies(
                    new.at("Ans", ta_id) == END,
                    z3.Not(z3.Select(new.at(TAS + ".dom", cl), ta_id))))
        return out

    def unchanged(self, vc, old, new, P):
        P("C21:without effect", z3.And(*[old(n) == new(n) for n in (
            "Ans", "Cl.ta_id", TAS + ".dom", TAS + ".val", "Sent",
            OUT + ".tail", OUT + ".head", OUT + ".el", "Cl.proto_version",
            "Cl.proto_version.some")]))


class Process(CliContract):
    q = "client.Client.process"
    ends = ("ProtocolError", "TransportError", "TransactionError", "any")

    def entry(self, vc):
        vc.ctx.ghost["rounds"] = True
        return [self.prepare(vc)], {}

    def ensures(self, vc, a, old, label, res):
        return rely(vc, old, H(vc), self.cl(a))


class Wait(CliContract):
    """wait: returns only when the criteria hold"""
    q = "client.wait"
    ends = ("ProtocolError", "TransportError", "TransactionError", "any")

    def entry(self, vc):
        r = self.prepare(vc)
        vc.ctx.ghost["rounds"] = True

        class Poll(Sym):
            def sym_getattr(self, vc, name):
                return BuiltinMethod(name, self, lambda *a: None)

        class Criteria(Sym):
            def sym_call(self, vc, args, kw):
                h = H(vc)
                vc.ctx.ghost["asked"] = (dict(h.heap),)
                b = vc.ctx.fresh("criteria", B)
                vc.ctx.ghost["answer"] = b
                return SBool(b)
        import select
        if hasattr(select, "poll"):
            vc.w.intercepts[select.poll] = lambda vc: Poll()
        return [r, Criteria()], {}

    def params(self, vc, f, args, kw):
        a = Contract.params(self, vc, f, args, kw)
        return a

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        out = rely(vc, old, new, self.cl(a))
        if label == "return":
            g = vc.ctx.ghost
            b = g.get("answer")
            out.append(("C21:waits until the criteria hold",
                        b if b is not None else z3.BoolVal(False)))
            if "asked" in g:
                o = H(vc, g["asked"][0])
                out.append(("C21:they hold at the end", z3.And(*[
                    o(n) == new(n) for n in vc.w.comp_sorts
                    if not n.endswith(".alive")])))
        return out


class AsyncRequest(CliContract):
    q = "client.Client.async_request"
    ends = ("TransportError",)

    def entry(self, vc):
        r = self.prepare(vc)
        ctx = vc.ctx
        ty = vc.w.TTaType.fresh(vc, "ta_type")
        ctx.assume(z3.And(ty.t >= 0, ty.t < len(vc.w.TTaType.objs)))
        args = (SAtom(TAtom("Any"), ctx.fresh("arg", sort("Any"))),)
        opt = {"filter": SAtom(TAtom("Any"), ctx.fresh("opt", sort("Any")))}
        return [r, ty, args, opt, vc.w.TCb.fresh(vc, "cb")], {}

    def call_ghost(self, vc, a):
        CliContract.call_ghost(self, vc, a)
        g = vc.ctx.ghost
        g["requests"] = g.get("requests", ()) + (tuple(a.values())[1:],)

    def result(self, vc, a, label):
        if label == "return":
            return SInt(H(vc, vc.ctx.ghost["pre"]).at("Cl.ta_id",
                                                      self.cl(a)))

    def apply(self, vc, f, args, kw):
        vc.ctx.ghost["pre"] = dict(vc.ctx.heap)
        H(vc)("Cl.ta_id")
        vc.hget("Cl.ta_id")
        vc.ctx.ghost["pre"] = dict(vc.ctx.heap)
        return CliContract.apply(self, vc, f, args, kw)

    def ensures(self, vc, a, old, label, res):
        cl = self.cl(a)
        _, ty, args, opt, cb = list(a.values())
        n = old.at("Cl.ta_id", cl)
        tl = old.at(OUT + ".tail", cl)
        if self.verifying():
            # ghost: a request opens a transaction
            h = H(vc)
            reg = z3.Select(h.at(TAS + ".dom", cl), n)
            for x, y in (("Ans", z3.IntVal(REQ)),
                         ("CbOf", vc.w.TCb.enc(vc, cb)[0]),
                         ("TyOf", vc.w.TTaType.enc(vc, ty)[0]),
                         ("TaOf", z3.Select(h.at(TAS + ".val", cl), n))):
                vc.hset(x, z3.Store(h(x), n, z3.If(
                    reg, y, h.at(x, n))))
        new = H(vc)
        out = rely(vc, old, new, cl)
        out += [("C21:a request gets the next id", new.at("Cl.ta_id", cl) ==
                 n + 1),
                ("C21:a request is known until it is answered", z3.Or(
                    z3.BoolVal(label != "return"), z3.And(
                        z3.Select(new.at(TAS + ".dom", cl), n),
                        new.at("CbOf", n) == vc.w.TCb.enc(vc, cb)[0],
                        new.at("TyOf", n) == vc.w.TTaType.enc(vc, ty)[0],
                        new.at("Ans", n) == REQ))),
                ("C20:one message per request", new.at(
                    OUT + ".tail", cl) == tl + 1),
                ("C21:others are not concerned", z3.And(
                    fa(k, z3.Implies(k != n, new.at("Ans", k) ==
                                     old.at("Ans", k)), new.at("Ans", k)),
                    new("Cl.proto_version") == old("Cl.proto_version"),
                    new("Cl.proto_version.some") ==
                    old("Cl.proto_version.some"),
                    *[new(x) == old(x) for x in vc.w.comp_sorts
                      if x.startswith("Tracker.")]))]
        if label == "return":
            r = TInt().enc(vc, res)[0] if isinstance(
                vc.force(res), (int, SInt)) else None
            out.append(("C21:the id is returned", r == n if r is not None
                        else z3.BoolVal(False)))
        if self.verifying():
            g = vc.ctx.ghost
            q = g.get("queued", ())
            T = "C20,C21:the request is queued"
            ok = len(q) == 1
            out.append((T, z3.BoolVal(ok)))
            out.append(("C21:no callback is called while a request is made",
                        z3.BoolVal(not g.get("delivered"))))
            p = g.get("payload", {}).get(q[0][1].get_id()) if ok else None
            if p is not None:
                out.append((T, q[0][0] == tl))
                pt, pid, pm, pa, po = p
                T = "C21:the request is that asked for"
                out.append((T, z3.And(
                    z3.BoolVal(pm == "request" and len(pa) == len(args) and
                               all(x is y for x, y in zip(pa, args)) and
                               set(po) == set(opt) and
                               all(po[x] is opt[x] for x in po)),
                    vc.w.TTaType.enc(vc, pt)[0] ==
                    vc.w.TTaType.enc(vc, ty)[0],
                    same(vc, pid, SInt(n)))))
        return out


class IssueInform(CliContract):
    q = "client.Client.issue_inform"
    ends = ("TransportError",)

    def entry(self, vc):
        r = self.prepare(vc)
        ctx = vc.ctx
        args = (SAtom(TAtom("Any"), ctx.fresh("arg", sort("Any"))),)
        return [r, SInt(ctx.fresh("ta", I)), args, {}], {}

    def requires(self, vc, a):
        ta = TInt().enc(vc, list(a.values())[1])[0]
        return CliContract.requires(self, vc, a) + [
            ("C21:informs belong to an accepted transaction",
             H(vc).at("Ans", ta) == ACC)]

    def call_ghost(self, vc, a):
        CliContract.call_ghost(self, vc, a)
        g = vc.ctx.ghost
        g["informs"] = g.get("informs", ()) + (tuple(a.values())[1:],)

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        cl = self.cl(a)
        _, ta, args, opt = list(a.values())
        tl = old.at(OUT + ".tail", cl)
        out = rely(vc, old, new, cl)
        out += [("C20:one message per inform", new.at(
                    OUT + ".tail", cl) == tl + 1),
                ("C21:others are not concerned", z3.And(*[
                    new(x) == old(x) for x in ["Ans", "Cl.ta_id",
                                               TAS + ".dom", TAS + ".val"] +
                    [x for x in vc.w.comp_sorts
                     if x.startswith("Tracker.")]]))]
        if self.verifying():
            g = vc.ctx.ghost
            q = g.get("queued", ())
            T = "C20,C21:the inform is queued"
            ok = len(q) == 1
            out.append((T, z3.BoolVal(ok)))
            p = g.get("payload", {}).get(q[0][1].get_id()) if ok else None
            if p is not None:
                out.append((T, q[0][0] == tl))
                pt, pid, pm, pa, po = p
                (tid,) = TInt().enc(vc, ta)
                out.append(("C21:the inform is that asked for", z3.And(
                    z3.BoolVal(pm == "inform" and len(pa) == len(args) and
                               all(x is y for x, y in zip(pa, args)) and
                               not po),
                    vc.w.TTaType.enc(vc, pt)[0] == old.at("TyOf", tid),
                    same(vc, pid, ta))))
        return out


# -- requests of the application
def method_args(vc, m):
    ctx = vc.ctx
    new = lambda n: SAtom(TAtom("Any"), ctx.fresh(n, sort("Any")))
    return {"publish": ["service_id", "generation", "service_props", "ttl"],
            "unpublish": ["service_id"], "unsubscribe": ["sub_id"],
            "subscribe": ["sub_id"]}.get(m, []), new


LISTS = ("services", "subscriptions", "clients")
METHODS = ["hello", "publish", "unpublish", "subscribe", "unsubscribe",
           "subscriptions", "services", "ping", "clients", "track"]


class Method(CliContract):
    """A request method: issues the request it is for; synchronously, returns
    what the server answers."""
    ends = ("TransportError", "ProtocolError", "TransactionError", "any")

    def __init__(self, m, sync, version=None):
        self.m, self.sync, self.version = m, sync, version
        self.q = "client.Client." + m
        self.covers = ["%s:return" % self.q] + (
            ["%s:TransactionError" % self.q] if sync else [])

    def entry(self, vc):
        r = self.prepare(vc)
        ctx = vc.ctx
        g = ctx.ghost
        h = H(vc)
        if self.version is not None:
            ctx.assume(z3.And(h.at("Cl.proto_version.some", r.t),
                              h.at("Cl.proto_version", r.t) ==
                              self.version))
        names, new = method_args(vc, self.m)
        self.vals = [new(n) for n in names]
        self.want_opt = {}
        kw = {}
        if self.m in ("subscribe", "services"):
            f_ = None
            if ctx.choose(["filter", "no filter"], "filter") == "filter":
                f_ = kw["filter"] = new("filter")
            self.want_opt = {"filter": f_}
        if self.m == "hello":
            self.vals = [h.at("Cl.client_id", r.t),
                         h.at("Cl.proto_version_range.0", r.t),
                         h.at("Cl.proto_version_range.1", r.t)]
            self.vals = [SInt(v) for v in self.vals]
            if ctx.choose(["range", "default"], "range") == "range":
                lo, hi = SInt(ctx.fresh("lo", I)), SInt(ctx.fresh("hi", I))
                kw["proto_version_range"] = (lo, hi)
                self.vals[1:] = [lo, hi]
        args = [r] + (self.vals if self.m != "hello" else [])
        if not self.sync:
            cb = vc.w.TCb.fresh(vc, "cb")
            self.cb = cb
            if self.m in ("subscribe", "track"):
                args.append(cb)
            else:
                kw["response_cb"] = cb
        vc.contracts = dict(vc.contracts)
        vc.contracts["client.wait"] = self.wait
        vc.w.intercepts[__import__("time").time] = now_
        return args, kw

    def wait(self, vc, f, args, kw):
        """wait, with what the server may send meanwhile"""
        import inspect
        b = inspect.signature(f).bind(*args, **kw)
        conn, crit = b.args
        ctx = vc.ctx
        g = ctx.ghost
        cl = g["self"]
        T = "C21:a call waits for its response"
        reqs = g.get("requests", ())
        ctx.prove(z3.BoolVal(len(reqs) == 1 and isinstance(conn, SRef)), T)
        if len(reqs) != 1:
            raise PathEnd()
        ty, _, _, call = reqs[0]
        ev = vc.w.cli.EventType
        ta = SInt(H(vc, g["pre"]).at("Cl.ta_id", cl))

        def asked():
            return vc.truth(vc.call(crit, [], {}))

        def tell(what, args=(), opt={}):
            vc.call(call, [ta, ev[what]] + list(args), dict(opt))
        if asked():
            ctx.prove(z3.BoolVal(False), T)
            raise PathEnd()
        old = H(vc)
        for n in vc.w.api_comps():
            vc.havoc(n)
        for n, f_ in rely(vc, old, H(vc), cl):
            ctx.assume(f_)
        lab = ctx.choose(["response"] + sorted(vc.w.raises), "meanwhile")
        if lab != "response":
            g["outcome"] = lab
            raise ProgExc(exc(vc.w.raises[lab]))
        multi = ty.ia_type.name != "SINGLE_RESPONSE"
        told = []
        if multi and ctx.choose(["accept", "fail"], "first") == "accept":
            tell("ACCEPT", values(vc, ty, "accept")[0])
            if asked():
                ctx.prove(z3.BoolVal(False), T)
                raise PathEnd()
            # any number of notifications before
            d = getattr(call, "__dict__", {})
            earlier = SText()
            for n, v in d.items():
                if isinstance(v, list) and not v:
                    v.append(earlier)
                    told.append(earlier)
            if ctx.choose(["notify", "no more"], "notify") == "notify":
                a, o = values(vc, ty, "notify")
                tell("NOTIFY", a, o)
                told.append(a + ([o] if o else []))
                if asked():
                    ctx.prove(z3.BoolVal(False), T)
                    raise PathEnd()
            end = ctx.choose(["COMPLETE", "FAIL"], "response")
        elif multi:
            end = "FAIL"
        else:
            end = ctx.choose(["COMPLETE", "FAIL"], "response")
        a, o = values(vc, ty, end.lower())
        tell(end, a, o)
        g["outcome"] = end
        g["reason"] = o.get("fail_reason")
        g["told"] = told
        g["answer"] = a
        if not asked():
            ctx.prove(z3.BoolVal(False), "C21:a call ends with its response")
            raise PathEnd()
        return None

    def verify(self, vc, f):
        self.exc = None
        return CliContract.verify(self, vc, f)

    def body(self, vc, f, args, kw):
        try:
            return CliContract.body(self, vc, f, args, kw)
        except ProgExc as e:
            self.exc = e.exc
            raise

    def ensures(self, vc, a, old, label, res):
        g = vc.ctx.ghost
        cl = g["self"]
        out = rely(vc, old, H(vc), cl)
        P = lambda n, f_: out.append((n, f_ if z3.is_expr(f_) else
                                      z3.BoolVal(bool(f_))))
        reqs = g.get("requests", ())
        T = "C21:the request of the method is made, once"
        P(T, len(reqs) == 1)
        if len(reqs) != 1:
            return out
        ty, args, opt, cb = reqs[0]
        ty = vc.force(ty)
        if isinstance(ty, STaType):
            P(T, cmd_is(vc, ty.t, self.m))
        else:
            P(T, getattr(ty, "cmd", None) == self.m and (
                self.version is None or ty is
                vc.w.proto.TA_TYPES[self.version][self.m]))
        T = "C21:with the values given"
        args = list(vc.iterate_concrete(args))
        P(T, len(args) == len(self.vals))
        for x, y in zip(args, self.vals):
            P(T, True if x is y else same(vc, x, y))
        opt = {n: v for n, v in dict(opt).items() if v is not None}
        want = {n: v for n, v in self.want_opt.items() if v is not None}
        P(T, set(opt) == set(want) and all(opt[n] is want[n] for n in opt))
        if not self.sync:
            P("C21:the callback given is that of the request",
              cb is self.cb)
            P("C21:a request without callback errors only in sending",
              label in ("return", "TransportError"))
            if label == "return":
                P("C21:the id is returned", same(vc, res, SInt(
                    old.at("Cl.ta_id", cl))))
            return out
        o = g.get("outcome", "TransportError")
        if o == "FAIL":
            P("C21:a failed call raises a transaction error",
              label == "TransactionError")
            r = vc.force(g["reason"])
            if label == "TransactionError" and r is not None:
                t = self.exc.args[0] if self.exc.args else None
                hp = t.has_part(r) if isinstance(t, SText) else t is r
                if hp is None:
                    raise Unsupported("text of unknown origin")
                P("C21:which carries the reason", hp)
            elif label == "TransactionError":
                P("C21:without a reason, none is made up", self.exc.args ==
                  vc.w.index.modules["client"].TransactionError().args)
        elif o == "COMPLETE":
            P("C21:a completed call returns", label == "return")
            if label == "return":
                self.answer(vc, res, P)
        else:
            P("C21:other errors are passed on", label == o)
        return out

    def answer(self, vc, res, P):
        g = vc.ctx.ghost
        if self.m in LISTS:
            T = "C21:the result is the notifications, in order"
            told = g["told"]
            ok = isinstance(res, (list, tuple)) and len(res) == len(told)
            P(T, ok)
            if ok:
                for x, y in zip(res, told):
                    if isinstance(y, SText):
                        P(T, x is y)
                        continue
                    x = list(x)
                    P(T, len(x) == len(y))
                    if len(x) == len(y):
                        for u, v in zip(x, y):
                            if isinstance(v, dict):
                                P(T, isinstance(u, dict) and
                                  set(u) == set(v) and
                                  all(u[n] is v[n] for n in u))
                            else:
                                P(T, u is v)
        elif self.m == "hello":
            T = "C21:the result is that of the response"
            P(T, isinstance(res, (list, tuple)) and
              len(res) == len(g["answer"]) and
              all(x is y for x, y in zip(res, g["answer"])))
        elif self.m == "ping":
            v = vc.force(res)
            P("C21:ping measures a time", as_real(v) >= 0 if isinstance(
                v, (SReal, SInt, int, float)) else False)


def now_(vc):
    g = vc.ctx.ghost
    t = vc.ctx.fresh("now", R)
    if g.get("now") is not None:
        vc.ctx.assume(t >= g["now"])
    g["now"] = t
    return SReal(t)


# -- establishing a connection
class Init(CliContract):
    """A new client says hello, and is ready when that is answered."""
    q = "client.Client"
    synthetic = True
    ends = ("TransportError", "ProtocolError", "any")

    def __init__(self, sync, track):
        self.sync, self.track = sync, track
        self.covers = ["init:%s" % x for x in (
            "ready", "failed", "version", "connect")]

    def verify(self, vc, f):
        ctx = vc.ctx
        g = ctx.ghost
        w = vc.w
        C = w.cli
        self._mod = tuple(w.comp_sorts)
        conf = ctx.created(C.ServerConf.__new__(C.ServerConf))
        lo, hi = SInt(ctx.fresh("lo", I)), SInt(ctx.fresh("hi", I))
        conf.__dict__.update(addr=SText(), attrs={"tls.cert_file": SText(),
                                                  "tls.key_file": SText()},
                             proto_version_min=lo,
                             proto_version_max=hi)
        cid = SInt(ctx.fresh("client_id", I))
        ready_cb = None if self.sync else w.TReady.fresh(vc, "ready")
        vc.hset("Ans", z3.K(I, z3.IntVal(0)))
        vc.hset("Sent", z3.IntVal(0))
        vc.hset("Dead", z3.BoolVal(False))
        for f_ in types(vc, H(vc)):
            ctx.assume(f_)

        def connect(vc, addr, flags=0, attrs={}):
            g["opened"] = g.get("opened", ()) + ((addr, dict(attrs)),)
            if ctx.choose(["ok", "error"], "connect") == "error":
                raise ProgExc(w.xcm.error(errno.ECONNREFUSED, "..."))
            return vc.new_ref("Sock")
        w.intercepts[w.xcm.connect] = connect
        vc.contracts = dict(vc.contracts)
        vc.contracts["client.wait"] = self.wait
        inner = AsyncRequest()
        made = []

        def request(vc, f, args, kw):
            if "self" not in g:
                g["self"] = args[0].t
            return inner.apply(vc, f, args, kw)
        vc.contracts["client.Client.async_request"] = request
        err = None
        T = "C21:a client says hello first"
        try:
            cl = vc.call(C.Client, [cid, conf, self.track, ready_cb], {})
            if not self.sync:
                ctx.prove(z3.BoolVal(not g.get("ready")),
                          "C21:not ready before hello is answered")
                ctx.prove(z3.Not(H(vc).at("Cl.proto_version.some", cl.t)),
                          "C21:no version before hello is answered")
                for n, f_ in inv(vc, H(vc), cl.t):
                    ctx.prove(f_, n)
                self.respond(vc)
        except ProgExc as e:
            err = e.exc
        n = {type(None): "return", w.proto.ProtocolError: "ProtocolError",
             w.proto.TransportError: "TransportError",
             CbError: "any"}.get(type(err), repr(err))
        ctx.trace.append("=> %s" % n)
        P = lambda nm, f_: ctx.prove(f_ if z3.is_expr(f_) else z3.BoolVal(
            bool(f_)), nm)
        op = g.get("opened", ())
        P("C21:one connection is opened, to the server", len(op) == 1 and
          op[0][0] is conf.addr)
        want = dict(conf.attrs)
        P("C21:the connection has the attributes configured", len(op) == 1 and
          all(op[0][1].get(k_) is v for k_, v in want.items()) and
          op[0][1].get("xcm.blocking") is False and
          len(op[0][1]) == len(want) + 1)
        reqs = g.get("requests", ())
        if not reqs:
            if n == "TransportError":
                stats_cover(ctx, "init:connect")
            P("C21:no hello only without connection or common version",
              n in ("TransportError", "ProtocolError"))
            if n == "ProtocolError":
                P("C21:no hello only without connection or common version",
                  z3.Or(lo.t > w.proto.MAX_VERSION,
                        hi.t < w.proto.MIN_VERSION))
            return
        ty, args, opt, cb = reqs[0]
        args = list(args)
        P(T, ty is w.proto.TA_TYPES[2]["hello"] and len(args) == 3 and
          not {k_: v for k_, v in opt.items() if v is not None})
        for x, y in zip(args, (cid, lo, hi)):
            P(T, same(vc, x, y))
        h = H(vc)
        me = g["self"]
        out = g.get("hello")
        if n == "any":
            return
        if out is None:
            P("C21:errors in sending are errors of the transport",
              n == "TransportError")
            return
        if out == "TransportError":
            P("C21:errors are passed on", n == out)
            return
        what, a = out
        if self.sync and n != "return":
            P("C21:a client that can not be established is closed",
              g.get("closed") == 1)
        if what == "FAIL":
            stats_cover(ctx, "init:failed")
            P("C21:a failed hello is a protocol error", n == "ProtocolError")
            P("C21:a failed hello is a protocol error",
              not g.get("ready") and len(reqs) == 1)
            return
        v = a[0].t
        good = z3.Or(v == 2, v == 3)
        if n == "ProtocolError":
            stats_cover(ctx, "init:version")
            P("C21:only versions that do not exist are refused",
              z3.Not(good))
            P("C21:not ready", not g.get("ready") and len(reqs) == 1)
            return
        P("C21:a version that does not exist is refused", good)
        P("C21:the version selected is used", z3.And(
            h.at("Cl.proto_version.some", me),
            h.at("Cl.proto_version", me) == v))
        if len(reqs) > 1:
            ty, args, opt, cb = reqs[1]
            T = "C21:the server is tracked if asked for, and possible"
            P(T, self.track and len(reqs) == 2 and not list(args))
            P(T, v == 3)
            P(T, cmd_is(vc, w.TTaType.enc(vc, ty)[0], "track"))
            if n == "return":
                tr = h.at("Cl.tracker", me)
                P(T, z3.And(h.at("Cl.tracker.some", me),
                            same(vc, cb, SRef("Tracker", tr)) if isinstance(
                                cb, SRef) else z3.BoolVal(False),
                            h.at("Ans", h.at("Tracker.ta_id", tr)) >= REQ))
        else:
            P("C21:the server is tracked if asked for, and possible",
              z3.BoolVal(not self.track) if not self.track else v != 3)
        if n == "TransportError":
            return
        P("C21:established", n == "return")
        stats_cover(ctx, "init:ready")
        P("C21:ready once", g.get("ready", 0) == (0 if self.sync else 1))

    def respond(self, vc):
        ctx = vc.ctx
        g = ctx.ghost
        ty, args, opt, cb = g["requests"][0]
        what = ctx.choose(["COMPLETE", "FAIL"], "hello")
        a, o = values(vc, ty, what.lower())
        g["hello"] = (what, a)
        vc.call(cb, [g["hello_ta"] if "hello_ta" in g else
                     SInt(ctx.fresh("ta", I)),
                     vc.w.cli.EventType[what]] + a, o)

    def wait(self, vc, f, args, kw):
        import inspect
        b = inspect.signature(f).bind(*args, **kw)
        conn, crit = b.args
        ctx = vc.ctx
        g = ctx.ghost
        T = "C21:waits for hello to be answered"
        if not self.sync or len(g.get("requests", ())) != 1 or \
           vc.truth(vc.call(crit, [], {})):
            ctx.prove(z3.BoolVal(False), T)
            raise PathEnd()
        if ctx.choose(["response", "error"], "meanwhile") == "error":
            g["hello"] = "TransportError"
            raise ProgExc(exc(vc.w.proto.TransportError))
        self.respond(vc)
        ctx.prove(z3.BoolVal(vc.truth(vc.call(crit, [], {}))), T)


# -- tracking
class TrackerEvent(CliContract):
    q = "client.Tracker.__call__"
    ends = ("ProtocolError", "TransportError")

    def __init__(self, what):
        self.what = what
        self.covers = ["%s:return" % self.q]

    def entry(self, vc):
        r = self.prepare(vc)
        ctx = vc.ctx
        t = SRef("Tracker", ctx.fresh("tracker", sort("Tracker")))
        ctx.assume(z3.And(vc.hget("Tracker.alive")[t.t],
                          vc.hget("Tracker.conn")[t.t] == r.t))
        ta = SInt(ctx.fresh("ta", I))
        ty = vc.w.proto.TA_TYPES[3]["track"]
        a, o = values(vc, ty, self.what.lower())
        self.a, self.o = a, o
        ctx.assume(H(vc).at("Ans", ta.t) == (
            END if self.what == "FAIL" else ACC))
        return [t, ta, vc.w.cli.EventType[self.what]] + a, o

    def requires(self, vc, a):
        h = H(vc)
        t = list(a.values())[0].t
        return inv(vc, h, vc.ctx.ghost["self"]) + [(
            "C21:replies answer queries", self.sane(h, t))]

    def sane(self, h, t):
        return z3.And(h.at("Tracker.notification_replies", t) >= 0,
                      h.at("Tracker.notification_replies", t) <=
                      h.at("Tracker.inform_queries", t))

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        g = vc.ctx.ghost
        t, ta = list(a.values())[:2]
        out = rely(vc, old, new, g["self"])
        P = lambda n, f_: out.append((n, f_ if z3.is_expr(f_) else
                                      z3.BoolVal(bool(f_))))
        inf = g.get("informs", ())
        d = lambda h, n: h.at("Tracker." + n, t.t)
        if self.what != "NOTIFY":
            P("C21:nothing is sent", not inf and label == "return")
            n = "accepted" if self.what == "ACCEPT" else "failed"
            P("C21:the tracker's state", d(new, n))
            if self.what == "FAIL" and self.o.get("fail_reason") is not None:
                P("C21:the tracker's reason", z3.And(
                    d(new, "fail_reason.some"), d(new, "fail_reason") ==
                    self.o["fail_reason"].t))
            P("C21:replies answer queries", self.sane(new, t.t))
            return out
        q = self.a[0].t == TAtom("Str").const(vc, "query")
        if inf:
            P("C21:a query is answered, once", z3.And(q, z3.BoolVal(
                len(inf) == 1), same(vc, inf[0][0], ta), z3.BoolVal(
                    list(inf[0][1]) == ["reply"])))
            P("C21:a query is answered, once",
              label in ("return", "TransportError"))
        else:
            P("C21:a query is answered, once", z3.Not(q))
            r = d(old, "notification_replies")
            bad = r >= d(old, "inform_queries")
            P("C21:an unsolicited reply is a protocol error",
              bad == z3.BoolVal(label == "ProtocolError"))
            P("C21:an unsolicited reply is a protocol error",
              label in ("return", "ProtocolError"))
        if label == "return":
            P("C21:replies answer queries", self.sane(new, t.t))
        return out


class TrackerQuery(CliContract):
    q = "client.Tracker.query"
    ends = ("TransportError",)

    def entry(self, vc):
        r = self.prepare(vc)
        ctx = vc.ctx
        t = SRef("Tracker", ctx.fresh("tracker", sort("Tracker")))
        h = H(vc)
        ctx.assume(z3.And(h.at("Tracker.alive", t.t),
                          h.at("Tracker.conn", t.t) == r.t,
                          h.at("Tracker.accepted", t.t),
                          h.at("Ans", h.at("Tracker.ta_id", t.t)) == ACC))
        return [t], {}

    def requires(self, vc, a):
        t = list(a.values())[0].t
        h = H(vc)
        return inv(vc, h, vc.ctx.ghost["self"]) + [(
            "C21:replies answer queries", TrackerEvent.sane(self, h, t))]

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        g = vc.ctx.ghost
        t = list(a.values())[0]
        out = rely(vc, old, new, g["self"])
        inf = g.get("informs", ())
        T = "C21:a query is sent"
        ok = len(inf) == 1 and list(inf[0][1]) == ["query"]
        out.append((T, z3.BoolVal(ok)))
        if ok:
            out.append((T, same(vc, inf[0][0], SInt(old.at(
                "Tracker.ta_id", t.t)))))
        if label == "return":
            n = "Tracker.inform_queries"
            out.append(("C21:queries are counted", new.at(n, t.t) ==
                        old.at(n, t.t) + 1))
            out.append(("C21:replies answer queries",
                        TrackerEvent.sane(self, new, t.t)))
        return out


BOTH = {"C20", "C21"}


def units():
    us = [Unit("client", CliWorld, TrySend(), BOTH)]
    for v in (2, 3):
        for cmd in METHODS:
            if cmd == "track" and v < 3:
                continue
            if v == 2 and cmd not in ("clients", "hello"):
                continue
            # (units of their own for some of the notifications)
            for fx in ([("notify",) + x for x in (
                    (), SPLIT[:1], SPLIT[1:], SPLIT)] + [
                        (x,) for x in MT + ["request", "inform"]
                        if x != "notify"] if cmd == "subscribe"
                       else [None]):
                us.append(Unit(
                    "client", CliWorld, TryReceive(cmd, v, fx), BOTH,
                    name="client.Client.try_receive[%s v%d%s]" % (
                        cmd, v, ", " + " with ".join(fx) if fx else "")))
    us.append(Unit("client", CliWorld, Process(), BOTH, contracts=[
        TrySend(), TryReceive()]))
    us.append(Unit("client", CliWorld, Wait(), {"C21"}, contracts=[
        Process()]))
    us.append(Unit("client", CliWorld, AsyncRequest(), BOTH, contracts=[
        TrySend()]))
    us.append(Unit("client", CliWorld, IssueInform(), BOTH, contracts=[
        TrySend()]))
    for m in METHODS:
        for s in (False, True):
            if s and m in ("subscribe", "track"):
                continue
            for v in (2, 3) if m == "clients" else (3,) if m == "track" \
                    else (None,):
                us.append(Unit(
                    "client", CliWorld, Method(m, s, v), {"C21"},
                    name="client.Client.%s[%s%s]" % (
                        m, "call" if s else "request",
                        "" if v is None else " v%d" % v),
                    contracts=[AsyncRequest()]))
    for s in (True, False):
        for t in (True, False):
            us.append(Unit("client", CliWorld, Init(s, t), BOTH,
                           name="client.Client[%s%s]" % (
                               "waiting" if s else "not waiting",
                               ", tracking" if t else "")))
    for e in ("ACCEPT", "NOTIFY", "FAIL"):
        us.append(Unit("client", CliWorld, TrackerEvent(e), {"C21"},
                       name="client.Tracker.__call__[%s]" % e,
                       contracts=[IssueInform()]))
    us.append(Unit("client", CliWorld, TrackerQuery(), {"C21"},
                   contracts=[IssueInform()]))
    return us


_A = [
    "Message.parse and to_wire behave as proved in units/proto.py",
    "xcm: send and receive succeed or raise xcm.error; set_target, fileno "
    "and close do not fail; receive returns bytes",
    "response callbacks may use the whole client library and raise any "
    "exception other than OSError and ValueError; they do not touch the "
    "library's internals",
    "the clock does not go backwards; one thread"]
ASSUMES = {"C21": _A, "C20": _A}
