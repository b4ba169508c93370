"""paf.sd under contract: the service discovery core (C01-C08, C16, C22)."""
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import VC, SBound, View, IFunc, Partial
from pyvc.loops import LoopSpec
from pyvc.runner import Unit

SVC, CON, CLI, SUB, TIM, FIL = [sort(x) for x in (
    "Service", "Connection", "Client", "Subscription", "Timer", "Filter")]
USER, PROPS, CONTENT = sort("User"), sort("Props"), sort("Content")
TYPES = ("CLIENT", "SUBSCRIPTION", "SERVICE")
GEN = ("generation", "props", "ttl", "orphan_since.some", "orphan_since",
       "client_id", "user_id")
matchf = z3.Function("filter_match", FIL, PROPS, B)
contentf = z3.Function("content", I, PROPS, I, B, R, I, USER, CONTENT)
EMPTY = z3.K(I, z3.BoolVal(False))
NOCONN = z3.K(CON, z3.BoolVal(False))
ISET = z3.ArraySort(I, B)


def fa(vs, body, *pats):
    vs = vs if isinstance(vs, list) else [vs]
    ps = [z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats]
    return z3.ForAll(vs, body, patterns=ps)


class St:
    """Named views of a heap."""
    def __init__(self, vc, heap=None):
        self.h = heap if isinstance(heap, H) else H(vc, heap)

    # cells
    @property
    def S(self):
        return self.h("DB.services.dom")

    def sv(self, i):
        return z3.Select(self.h("DB.services.val"), i)

    @property
    def C(self):
        return self.h("DB.clients.dom")

    def cv(self, k):
        return z3.Select(self.h("DB.clients.val"), k)

    @property
    def D(self):
        return self.h("DB.subscriptions.dom")

    def dv(self, j):
        return z3.Select(self.h("DB.subscriptions.val"), j)

    @property
    def OT(self):
        return self.h("SD.orphan_timers.dom")

    def ov(self, i):
        return z3.Select(self.h("SD.orphan_timers.val"), i)

    def cur(self, s, f):
        return self.h.at("Service.cur." + f, s)

    def prev(self, s, f):
        return self.h.at("Service.prev." + f, s)

    def f(self, name, x):
        return self.h.at(name, x)

    def content(self, s, which="cur"):
        return contentf(*[self.h.at("Service.%s.%s" % (which, g), s)
                          if g != "orphan_since" else
                          z3.If(self.h.at("Service.%s.orphan_since.some" %
                                          which, s),
                                self.h.at("Service.%s.orphan_since" % which,
                                          s), z3.RealVal(0))
                          for g in GEN])

    def conn(self, cl):         # active connection of a client object
        return self.h.at("Client.active_connection", cl)

    def connected(self, cl):
        return self.h.at("Client.active_connection.some", cl)

    def inact(self, cl):
        return self.h.at("Client.inactive_connections.dom", cl)

    def csvc(self, c):
        return self.h.at("Connection.services.dom", c)

    def csub(self, c):
        return self.h.at("Connection.subscriptions.dom", c)

    def match(self, j, props):
        s = self.dv(j)
        return z3.Implies(self.f("Subscription.filter.some", s),
                          matchf(self.f("Subscription.filter", s), props))

    def view(self, j, i):
        return self.h.at("View", j, i)

    def told(self, j, i):
        return self.h.at("Told", j, i)

    def U(self, t, u):
        return self.h.at("RM.U." + t, u)

    def tok(self, t, u):
        return self.h.at("Tok." + t, u)

    def tact(self, t):
        return self.h.at("TM.active", t)

    def timer_for(self, t, i, exp):
        """t is the pending expiry of service i at exp"""
        return z3.And(self.tact(t), self.f("Timer.alive", t),
                      self.f("Timer.kind", t) == 0,
                      self.f("Timer.sid", t) == i,
                      z3.Not(self.f("Timer.relative", t)),
                      self.f("Timer.exp", t) == exp)

    def limit_reached(self, t, u):
        return z3.Or(z3.And(self.h("RM.maxu.%s.some" % t),
                            self.U(t, u) >= self.h("RM.maxu." + t)),
                     z3.And(self.h("RM.maxt.%s.some" % t),
                            self.h("RM.total." + t) >=
                            self.h("RM.maxt." + t)))


i, j, k, i2 = z3.Ints("i j k i2")
c, cl, s, t, u = z3.Const("c", CON), z3.Const("cl", CLI), \
    z3.Const("s", SVC), z3.Const("t", TIM), z3.Const("u", USER)


def inv_services(a):
    """S1"""
    return [("C01", fa(i, z3.Implies(z3.Select(a.S, i), z3.And(
        a.f("Service.alive", a.sv(i)), a.f("Service.service_id", a.sv(i)) == i,
        a.cur(a.sv(i), "some"))), z3.Select(a.S, i), a.sv(i)))]


def inv_clients(a):
    cvk = a.cv(k)
    act = a.conn(cvk)
    return [
        ("C01,C08", fa(k, z3.Implies(z3.Select(a.C, k), z3.And(
            a.f("Client.alive", cvk), a.f("Client.client_id", cvk) == k,
            z3.Implies(a.connected(cvk), z3.And(
                a.f("Connection.alive", act),
                a.f("Connection.client", act) == cvk,
                z3.Not(a.f("Connection.disconnected_at.some", act)))))),
            z3.Select(a.C, k), cvk)),
        ("C01,C08:an ended connection is kept only while it holds services",
         fa([k, c], z3.Implies(z3.And(
             z3.Select(a.C, k), z3.Select(a.inact(cvk), c)), z3.And(
                 a.f("Connection.alive", c),
                 a.f("Connection.client", c) == cvk,
                 a.f("Connection.disconnected_at.some", c),
                 a.csvc(c) != EMPTY)), z3.Select(a.inact(cvk), c))),
        ("C08:a client is remembered only while connected or owning services",
         fa(k, z3.Implies(z3.Select(a.C, k), z3.Or(
             a.connected(cvk), a.inact(cvk) != NOCONN)),
            z3.Select(a.C, k), cvk))]


def holder(a, x):
    return a.h.at("holder", x)


def inv_holder(a):
    hi = holder(a, i)
    svi = a.sv(i)
    cid = a.cur(svi, "client_id")
    own = a.cv(cid)
    dis = a.f("Connection.disconnected_at.some", hi)
    g = z3.Select(a.S, i)

    def q(f):
        return fa(i, z3.Implies(g, f), g, svi)
    return [
        ("C01:a service is held by one connection of its owner", q(z3.And(
            a.f("Connection.alive", hi), z3.Select(a.csvc(hi), i),
            z3.Select(a.f("Connection.services.val", hi), i) == svi,
            z3.Select(a.C, cid), a.f("Connection.client", hi) == own,
            z3.Or(z3.And(a.connected(own), a.conn(own) == hi),
                  z3.Select(a.inact(own), hi))))),
        ("C04:a service belongs to its owner's user", q(
            a.cur(svi, "user_id") == a.f("Client.user_id", own))),
        ("C01:a service is an orphan iff its connection has ended", q(
            a.cur(svi, "orphan_since.some") == dis)),
        ("C01:the orphan time is the time the connection ended", q(
            z3.Implies(dis, a.cur(svi, "orphan_since") ==
                       a.f("Connection.disconnected_at", hi)))),
        ("C01:no other connection holds the service", fa([c, i], z3.Implies(
            z3.And(a.f("Connection.alive", c), z3.Select(a.csvc(c), i)),
            z3.And(g, hi == c)), z3.Select(a.csvc(c), i)))]


def inv_subs(a):
    own = a.cv(a.f("Subscription.client_id", a.dv(j)))
    act = a.conn(own)
    g = z3.Select(a.D, j)
    return [
        ("C06", fa(j, z3.Implies(g, z3.And(
            a.f("Subscription.alive", a.dv(j)),
            a.f("Subscription.sub_id", a.dv(j)) == j,
            z3.Select(a.C, a.f("Subscription.client_id", a.dv(j))),
            a.connected(own), z3.Select(a.csub(act), j),
            z3.Select(a.f("Connection.subscriptions.val", act), j) ==
            a.dv(j))), g, a.dv(j))),
        ("C04,C07", fa(j, z3.Implies(g, a.f("Subscription.user_id", a.dv(j))
                                     == a.f("Client.user_id", own)),
                       g, a.dv(j))),
        ("C06:subscriptions live only on live connections", fa(
            [c, j], z3.Implies(z3.And(
                a.f("Connection.alive", c), z3.Select(a.csub(c), j)),
                z3.And(g, act == c)), z3.Select(a.csub(c), j)))]


def inv_orphan_timers(a):
    svi = a.sv(i)
    return [
        ("C02:an expiry is pending for exactly the orphans", fa(
            i, z3.Select(a.OT, i) == z3.And(
                z3.Select(a.S, i), a.cur(svi, "orphan_since.some")),
            z3.Select(a.OT, i), z3.Select(a.S, i))),
        ("C02:the expiry is at orphan start plus TTL", fa(
            i, z3.Implies(z3.Select(a.OT, i), a.timer_for(
                a.ov(i), i, a.cur(svi, "orphan_since") +
                z3.ToReal(a.cur(svi, "ttl")))),
            z3.Select(a.OT, i), a.ov(i))),
        ("C02:no stale or second expiry is pending", fa(
            t, z3.Implies(z3.And(a.tact(t), a.f("Timer.kind", t) == 0),
                          z3.And(z3.Select(a.OT, a.f("Timer.sid", t)),
                                 a.ov(a.f("Timer.sid", t)) == t)),
            a.tact(t)))]


def inv_idle(a, exempt=None):
    own = a.f("Connection.client", c)
    ti = a.f("Connection.idle_timer", c)
    some = a.f("Connection.idle_timer.some", c)
    cvk = a.cv(k)
    act = a.conn(cvk)
    ok = z3.And(a.f("Connection.idle_timer.some", act),
                z3.Or(a.f("Connection.idle_state", act) == 0,
                      a.f("Connection.idle_state", act) == 1))
    if exempt is not None:
        ok = z3.Or(act == exempt, ok)
    lim = lambda x: a.f("Connection.idle_limit.idle_%s" % x, c)
    st = a.f("Connection.idle_state", c)
    return [
        ("C16", fa(c, z3.Implies(a.f("Connection.alive", c), z3.And(
            lim("min") >= 1, lim("min") <= lim("max"), st >= 0, st <= 2)),
            a.f("Connection.alive", c))),
        ("C16:the idle timer is pending and that of the connection", fa(
            c, z3.Implies(z3.And(a.f("Connection.alive", c), some), z3.And(
                a.tact(ti), a.f("Timer.alive", ti),
                a.f("Timer.kind", ti) == 1, a.f("Timer.relative", ti),
                a.f("Timer.conn", ti) == c,
                z3.Not(a.f("Connection.disconnected_at.some", c)),
                z3.Select(a.C, a.f("Client.client_id", own)),
                a.cv(a.f("Client.client_id", own)) == own,
                a.connected(own), a.conn(own) == c)), some)),
        ("C16:no second idle timer, and none of an ended connection", fa(
            t, z3.Implies(z3.And(a.tact(t), a.f("Timer.kind", t) == 1),
                          z3.And(
                a.f("Connection.alive", a.f("Timer.conn", t)),
                a.f("Connection.idle_timer.some", a.f("Timer.conn", t)),
                a.f("Connection.idle_timer", a.f("Timer.conn", t)) == t)),
            a.tact(t))),
        ("C16:a connected client has its idle timer pending", fa(
            k, z3.Implies(z3.And(z3.Select(a.C, k), a.connected(cvk)), ok),
            z3.Select(a.C, k), cvk)),
        ("C16,C02", fa(t, z3.Implies(a.tact(t), z3.And(
            a.f("Timer.alive", t),
            z3.Or(a.f("Timer.kind", t) == 0, a.f("Timer.kind", t) == 1))),
            a.tact(t)))]


def inv_view(a, pending=None):
    vis = z3.And(z3.Select(a.S, i), a.match(j, a.cur(a.sv(i), "props")))
    g = z3.Select(a.D, j)
    if pending is not None:
        g = z3.And(g, j != pending)
    return [
        ("C05:exactly the matching services are visible", fa(
            [j, i], z3.Implies(g, a.view(j, i) == vis), a.view(j, i),
            (z3.Select(a.D, j), z3.Select(a.S, i)))),
        ("C05:what was told last is the current content", fa(
            [j, i], z3.Implies(z3.And(g, a.view(j, i)),
                               a.told(j, i) == a.content(a.sv(i))),
            a.view(j, i)))]


def inv_tokens(a):
    cvk = a.cv(k)
    f = card_fn(I)
    out = [
        ("C07", fa([u, k], z3.Select(a.tok("CLIENT", u), k) == z3.And(
            z3.Select(a.C, k), a.connected(cvk),
            a.f("Client.user_id", cvk) == u),
            z3.Select(a.tok("CLIENT", u), k))),
        ("C07", fa([u, j], z3.Select(a.tok("SUBSCRIPTION", u), j) == z3.And(
            z3.Select(a.D, j), a.f("Subscription.user_id", a.dv(j)) == u),
            z3.Select(a.tok("SUBSCRIPTION", u), j))),
        ("C07", fa([u, i], z3.Select(a.tok("SERVICE", u), i) == z3.And(
            z3.Select(a.S, i), a.cur(a.sv(i), "user_id") == u),
            z3.Select(a.tok("SERVICE", u), i)))]
    for ty in TYPES:
        out.append(("C07:the number accounted is the number that exist", fa(
            u, a.U(ty, u) == f(a.tok(ty, u)), a.U(ty, u))))
        out.append(("C07:limits are not exceeded", fa(
            u, z3.And(z3.Implies(a.h("RM.maxu.%s.some" % ty),
                                 a.U(ty, u) <= a.h("RM.maxu." + ty))),
            a.U(ty, u))))
        out.append(("C07:limits are not exceeded",
                    z3.Implies(a.h("RM.maxt.%s.some" % ty),
                               a.h("RM.total." + ty) <=
                               a.h("RM.maxt." + ty))))
    return out


def inv(a, exempt=None, pending=None):
    return inv_services(a) + inv_clients(a) + inv_holder(a) + inv_subs(a) + \
        inv_orphan_timers(a) + inv_idle(a, exempt) + inv_view(a, pending) + \
        inv_tokens(a)


# ------------------------------------------------------------- callbacks
def match_call(vc, f, args, kw):
    """A subscription's callback: gets one event, does not call back."""
    if kw or len(args) != 3:
        raise ProgExc(TypeError("match callback takes 3 arguments"))
    sub_id, mt, service = args
    mt = vc.concretize_enum(mt)
    sd = vc.w.sd
    ctx = vc.ctx
    a = St(vc)
    jj = TInt().enc(vc, sub_id)[0]
    (ss,) = TRef("Service").enc(vc, service)
    ii = a.f("Service.service_id", ss)
    ctx.prove(z3.And(z3.Select(a.D, jj), a.f("Subscription.match_cb",
                                             a.dv(jj)) == f.t),
              "C06,C05:only live subscriptions are notified")
    if mt == sd.MatchType.APPEARED:
        ctx.prove(z3.Not(a.view(jj, ii)),
                  "C05:appeared only if not visible before")
    else:
        ctx.prove(a.view(jj, ii),
                  "C05:modified or disappeared only if visible before")
    if mt == sd.MatchType.DISAPPEARED:
        ctx.prove(a.prev(ss, "some"), "C13:previous content available")
        v = z3.BoolVal(False)
        tl = a.told(jj, ii)
    else:
        ctx.prove(a.cur(ss, "some"), "C13:current content available")
        v = z3.BoolVal(True)
        tl = ctx.fresh("told", CONTENT)
        ctx.assume(tl == a.content(ss))
    h = a.h
    upd(vc, "View", jj, ii, v)
    upd(vc, "Told", jj, ii, tl)
    upd(vc, "Events", jj, ii, h.at("Events", jj, ii) + 1)


def upd(vc, name, x, y, v):
    arr = vc.hget(name)
    vc.hset(name, z3.Store(arr, x, z3.Store(z3.Select(arr, x), y, v)))


def idle_call(vc, f, args, kw):
    """The server's idle callback.  A warning sends a track query, or, for
    clients without liveness tracking, counts as activity; a timeout ends the
    connection."""
    if kw or len(args) != 2:
        raise ProgExc(TypeError("idle callback takes 2 arguments"))
    client, warning = args
    ctx = vc.ctx
    (cc,) = TRef("Client").enc(vc, client)
    a = St(vc)
    kk = a.f("Client.client_id", cc)
    ctx.prove(z3.And(z3.Select(a.C, kk), a.cv(kk) == cc, a.connected(cc),
                     a.f("Connection.idle_cb", a.conn(cc)) == f.t),
              "C16:only connected clients are warned or timed out")
    sdo = vc.singletons["sd"]
    g = ctx.ghost
    if vc.truth(warning):
        g["warned"] = g.get("warned", 0) + 1
        ctx.prove(z3.BoolVal(g["warned"] == 1), "C16:warned once")
        if ctx.choose(["tracked", "untracked"], "idle warning") == \
           "untracked":
            vc.call(vc.getattr(sdo, "client_active"), [mkint(kk)], {})
    else:
        g["timed_out"] = a.conn(cc)
        vc.call(vc.getattr(sdo, "client_disconnect"), [mkint(kk)], {})


class TBound(T):
    """The service-changed handler of the one ServiceDiscovery."""
    def comps(self):
        return []

    def enc(self, vc, v):
        v = vc.force(v)
        cls = vc.w.sd.ServiceDiscovery
        if isinstance(v, SBound) and v.obj is vc.singletons.get("sd") and \
           v.fn is cls.__dict__.get("service_changed"):
            return []
        raise Unsupported("change callback is not sd.service_changed")

    def dec(self, vc, terms):
        return SBound(vc.w.sd.ServiceDiscovery.__dict__["service_changed"],
                      vc.singletons["sd"])


class FilterMatch:
    def __call__(self, vc, o, props):
        (p,) = TAtom("Props").enc(vc, props)
        return mkbool(matchf(o.t, p))


# ------------------------------------------------------------- the world
class SDWorld(World):
    def __init__(self, index):
        World.__init__(self, index)
        sd = index.modules["sd"]
        tm = index.modules["timer"]
        self.sd, self.tm = sd, tm
        self.TUser, self.TProps = TAtom("User"), TAtom("Props")
        self.TIdleCb = TFn("idle_cb", idle_call)
        self.TMatchCb = TFn("match_cb", match_call)
        single = lambda n: TConst(lambda vc: vc.singletons[n])
        gen = TRec(sd.Generation, {
            "generation": TInt(), "props": self.TProps, "ttl": TInt(),
            "orphan_since": TOpt(TReal()), "client_id": TInt(),
            "user_id": self.TUser})
        self.TIdle = TRec(sd.IdleLimit, {"idle_min": TInt(),
                                         "idle_max": TInt()})
        self.heap_class("Timer", None, {})
        for n, so in (("kind", I), ("sid", I), ("conn", CON), ("exp", R),
                      ("relative", B)):
            self.ghost("Timer." + n, z3.ArraySort(TIM, so))
        self.ghost("TM.active", z3.ArraySort(TIM, B))
        self.heap_class("Filter", None, {}, {"match": FilterMatch()})
        self.heap_class("Service", sd.Service, {
            "service_id": TInt(), "prev": TOpt(gen), "cur": TOpt(gen),
            "change_cb": TBound()})
        self.heap_class("Subscription", sd.Subscription, {
            "sub_id": TInt(), "filter": TOpt(TRef("Filter")),
            "client_id": TInt(), "user_id": self.TUser,
            "match_cb": self.TMatchCb})
        self.heap_class("Client", sd.Client, {
            "client_id": TInt(), "user_id": self.TUser, "db": single("db"),
            "resource_manager": single("rm"), "timer_manager": single("tm"),
            "active_connection": TOpt(TRef("Connection")),
            "inactive_connections": TUSet(TRef("Connection"), True)})
        self.heap_class("Connection", sd.Connection, {
            "client": TRef("Client"), "timer_manager": single("tm"),
            "idle_limit": self.TIdle, "idle_cb": self.TIdleCb,
            "subscriptions": TMap(TInt(), TRef("Subscription")),
            "services": TMap(TInt(), TRef("Service")),
            "connected_at": TReal(), "disconnected_at": TOpt(TReal()),
            "idle_state": TEnum(sd.IdleState),
            "idle_timer": TOpt(TRef("Timer")), "last_seen": TReal()})
        self.maps = {
            "DB.services": TMap(TInt(), TRef("Service")),
            "DB.clients": TMap(TInt(), TRef("Client")),
            "DB.subscriptions": TMap(TInt(), TRef("Subscription")),
            "SD.orphan_timers": TMap(TInt(), TRef("Timer"))}
        for n, ty in self.maps.items():
            self.cell(n, ty)
        self.native_fields[sd.DB] = {
            n: (self.maps["DB." + n], "DB." + n)
            for n in ("services", "clients", "subscriptions")}
        self.native_fields[sd.ServiceDiscovery] = {
            "orphan_timers": (self.maps["SD.orphan_timers"],
                              "SD.orphan_timers")}
        self.ghost("holder", z3.ArraySort(I, CON))
        self.ghost("View", z3.ArraySort(I, ISET))
        self.ghost("Told", z3.ArraySort(I, z3.ArraySort(I, CONTENT)))
        self.ghost("Events", z3.ArraySort(I, z3.ArraySort(I, I)))
        for ty in TYPES:
            self.ghost("RM.U." + ty, z3.ArraySort(USER, I))
            self.ghost("Tok." + ty, z3.ArraySort(USER, ISET))
            for n in ("total", "maxu", "maxt"):
                self.ghost("RM.%s.%s" % (n, ty), I)
            self.ghost("RM.maxu.%s.some" % ty, B)
            self.ghost("RM.maxt.%s.some" % ty, B)
        self.add_loops()

    def instance(self, vc):
        sd = self.sd
        db = sd.DB.__new__(sd.DB)
        for n in ("services", "clients", "subscriptions"):
            db.__dict__[n] = vc.cell("DB." + n, self.maps["DB." + n])
        rm = sd.ResourceManager.__new__(sd.ResourceManager)
        tm = self.tm.TimerManager.__new__(self.tm.TimerManager)
        o = sd.ServiceDiscovery.__new__(sd.ServiceDiscovery)
        o.__dict__.update(
            name="domain", timer_manager=tm, resource_manager=rm, db=db,
            orphan_timers=vc.cell("SD.orphan_timers",
                                  self.maps["SD.orphan_timers"]))
        vc.singletons.update(sd=o, db=db, rm=rm, tm=tm)
        return o

    # ---- loops
    def add_loops(self):
        self.loop_specs["DB.subscriptions"] = LoopSpec(
            "DB.subscriptions", changed_inv,
            mod=("View", "Told", "Events"))
        self.loop_specs["DB.services"] = LoopSpec(
            "DB.services", activate_inv, mod=("View", "Told", "Events"))
        self.loop_specs["Connection.services"] = LoopSpec(
            "Connection.services", orphan_inv)
        self.loop_specs["Connection.subscriptions"] = LoopSpec(
            "Connection.subscriptions", unsub_inv, step=unsub_step,
            mod=("Tok.SUBSCRIPTION",))


def same(a, b, *names):
    return z3.And(*[a.h(n) == b.h(n) for n in names])


# -- service_changed: the loop over the subscriptions
def vis_before(b, jj, change, ss, sd):
    if change == sd.ChangeType.ADDED:
        return z3.BoolVal(False)
    return b.match(jj, b.prev(ss, "props"))


def vis_after(b, jj, change, ss, sd):
    if change == sd.ChangeType.REMOVED:
        return z3.BoolVal(False)
    return b.match(jj, b.cur(ss, "props"))


def changed_post(b, a, change, ss, sd, sel):
    """effect on the subscribers selected by sel(j) (b: before, a: after)"""
    ii = b.f("Service.service_id", ss)
    before = vis_before(b, j, change, ss, sd)
    after = vis_after(b, j, change, ss, sd)
    hit = z3.And(sel(j), i2 == ii)
    return [
        ("C05:visibility follows the change", fa(
            [j, i2], a.view(j, i2) == z3.If(hit, after, b.view(j, i2)),
            a.view(j, i2))),
        ("C05:told the new content", fa(
            [j, i2], z3.If(hit, z3.Implies(after, a.told(j, i2) ==
                                           b.content(ss)),
                           a.told(j, i2) == b.told(j, i2)),
            a.told(j, i2))),
        ("C05:one notification per change", fa(
            [j, i2], a.h.at("Events", j, i2) == b.h.at("Events", j, i2) +
            z3.If(z3.And(hit, z3.Or(before, after)), 1, 0),
            a.h.at("Events", j, i2)))]


def changed_inv(vc, env, V, D, pre):
    g = vc.ctx.ghost.get("sc")
    if g is None:
        raise Unsupported("loop over the subscriptions outside "
                          "service_changed")
    b, a = St(vc, pre), St(vc)
    return changed_post(b, a, g[0], g[1], vc.w.sd,
                        lambda x: z3.Select(V, x))


# -- activate: the loop over the services
def activate_inv(vc, env, V, D, pre):
    jj = vc.ctx.ghost.get("activating")
    if jj is None:
        raise Unsupported("loop over the services outside "
                          "activate_subscription")
    b, a = St(vc, pre), St(vc)
    return activate_post(b, a, jj, lambda x: z3.Select(V, x))


def activate_post(b, a, jj, sel):
    hit = z3.And(j == jj, sel(i), b.match(jj, b.cur(b.sv(i), "props")))
    return [
        ("C06,C05:every matching service appears", fa(
            [j, i], a.view(j, i) == z3.Or(hit, b.view(j, i)), a.view(j, i))),
        ("C06,C05:with its current content", fa(
            [j, i], a.told(j, i) == z3.If(hit, b.content(b.sv(i)),
                                          b.told(j, i)), a.told(j, i))),
        ("C06,C05:exactly once", fa(
            [j, i], a.h.at("Events", j, i) == b.h.at("Events", j, i) +
            z3.If(hit, 1, 0), a.h.at("Events", j, i)))]


# -- disconnect: the loop orphaning the services of the connection
def frame_timers(b, a, sel):
    """timers not of a service selected by sel are as they were"""
    mine = z3.And(b.f("Timer.alive", t), b.f("Timer.kind", t) == 0,
                  sel(b.f("Timer.sid", t)))
    return [
        ("C02,C16", fa(t, z3.Implies(
            b.f("Timer.alive", t), z3.And(
                a.f("Timer.alive", t),
                *[a.f("Timer." + n, t) == b.f("Timer." + n, t)
                  for n in ("kind", "sid", "conn", "exp", "relative")])),
            a.f("Timer.alive", t), a.f("Timer.kind", t),
            a.f("Timer.conn", t), a.f("Timer.sid", t), a.f("Timer.exp", t),
            a.f("Timer.relative", t))),
        ("C02,C16", fa(t, z3.Implies(
            z3.And(b.f("Timer.alive", t), z3.Not(mine)),
            a.tact(t) == b.tact(t)), a.tact(t))),
        ("C02,C16", fa(t, z3.Implies(
            z3.And(a.tact(t), z3.Not(b.tact(t))),
            z3.And(z3.Not(b.f("Timer.alive", t)),
                   a.f("Timer.kind", t) == 0, sel(a.f("Timer.sid", t)))),
            a.tact(t)))]


def same_gen(b, a, ss, but=()):
    return z3.And(*[a.cur(ss, g) == b.cur(ss, g) for g in ("some",) + GEN
                    if g not in but])


def orphan_inv(vc, env, V, D, pre):
    b, a = St(vc, pre), St(vc)
    view = vc.w.loop_specs["Connection.services"].view
    cc = view.m.loc.ref
    if cc is None:
        raise Unsupported("loop over services of an unknown connection")
    at = b.f("Connection.disconnected_at", cc)
    inV = lambda x: z3.Select(V, x)
    svi = b.sv(i)
    hit = inV(i)
    return [
        ("C01", fa(i, z3.Implies(z3.Select(b.S, i), z3.And(
            same_gen(b, a, svi, ("orphan_since.some", "orphan_since")),
            z3.If(hit, z3.And(a.cur(svi, "orphan_since.some"),
                              a.cur(svi, "orphan_since") == at),
                  z3.And(a.cur(svi, "orphan_since.some") ==
                         b.cur(svi, "orphan_since.some"),
                         a.cur(svi, "orphan_since") ==
                         b.cur(svi, "orphan_since"))))),
            z3.Select(b.S, i), svi))] + inv_orphan_timers(a) + \
        frame_timers(b, a, inV) + [
            ("C05,C06", fa([j, i], z3.Implies(
                z3.Not(z3.Select(b.D, j)),
                a.h.at("Events", j, i) == b.h.at("Events", j, i)),
                a.h.at("Events", j, i)))] + inv_view(a)


# -- disconnect: the loop cancelling the subscriptions of the connection
def unsub_user(vc, cc):
    b = St(vc)
    return b.f("Client.user_id", b.f("Connection.client", cc))


def unsub_inv(vc, env, V, D, pre):
    b, a = St(vc, pre), St(vc)
    cc = vc.w.loop_specs["Connection.subscriptions"].view.m.loc.ref
    if cc is None:
        raise Unsupported("loop over subscriptions of unknown connection")
    uu = unsub_user(vc, cc)
    f = card_fn(I)
    U, Tk = "RM.U.SUBSCRIPTION", "Tok.SUBSCRIPTION"
    return [
        ("C06", fa(j, z3.Select(a.D, j) == z3.And(
            z3.Select(b.D, j), z3.Not(z3.Select(V, j))), z3.Select(a.D, j))),
        ("C06", a.h("DB.subscriptions.val") == b.h("DB.subscriptions.val")),
        ("C06", fa(c, z3.Implies(c != cc, a.csub(c) == b.csub(c)),
                   a.csub(c))),
        ("C06", a.h("Connection.subscriptions.val") ==
         b.h("Connection.subscriptions.val")),
        ("C06", fa(j, z3.Select(a.csub(cc), j) == z3.And(
            z3.Select(b.csub(cc), j), z3.Not(z3.Select(V, j))),
            z3.Select(a.csub(cc), j))),
        ("C07", fa(u, z3.Implies(u != uu, z3.And(
            a.U("SUBSCRIPTION", u) == b.U("SUBSCRIPTION", u),
            a.tok("SUBSCRIPTION", u) == b.tok("SUBSCRIPTION", u))),
            a.U("SUBSCRIPTION", u), a.tok("SUBSCRIPTION", u))),
        ("C07", fa(j, z3.Select(a.tok("SUBSCRIPTION", uu), j) == z3.And(
            z3.Select(b.tok("SUBSCRIPTION", uu), j),
            z3.Not(z3.Select(V, j))),
            z3.Select(a.tok("SUBSCRIPTION", uu), j))),
        ("C07", a.U("SUBSCRIPTION", uu) == f(a.tok("SUBSCRIPTION", uu))),
        ("C07", a.U("SUBSCRIPTION", uu) <= b.U("SUBSCRIPTION", uu)),
        ("C07", a.h("RM.total.SUBSCRIPTION") <=
         b.h("RM.total.SUBSCRIPTION"))]


def unsub_step(vc, env, V, kk, pre):
    cc = vc.w.loop_specs["Connection.subscriptions"].view.m.loc.ref
    tok_update(vc, "SUBSCRIPTION", unsub_user(vc, cc), kk, False)


def tok_update(vc, ty, uu, kk, adding):
    n = "Tok." + ty
    arr = vc.hget(n)
    old = z3.Select(arr, uu)
    new = z3.Store(old, kk, z3.BoolVal(adding))
    card_update(vc, old, new, kk, I, adding)
    vc.hset(n, z3.Store(arr, uu, new))


# ------------------------------------------------------------- contracts
# assumed at this level, proved elsewhere
class TMAdd:
    q = "timer.TimerManager.add"

    def __call__(self, vc, f, args, kw):
        import inspect
        b = inspect.signature(f).bind(*args, **kw)
        b.apply_defaults()
        p = dict(b.arguments)
        handler, exp, rel = [p[n] for n in list(p)[1:4]]
        kind, val = classify(vc, handler)
        r = vc.new_ref("Timer")

        def put(n, v):
            vc.hset("Timer." + n, z3.Store(vc.hget("Timer." + n), r.t, v))
        put("kind", z3.IntVal(kind))
        if kind == 0:
            put("sid", val)
        else:
            put("conn", val)
        put("exp", as_real(vc.force(exp)))
        put("relative", vc.boolt(rel))
        vc.hset("TM.active", z3.Store(vc.hget("TM.active"), r.t,
                                      z3.BoolVal(True)))
        return r


class TMRemove:
    q = "timer.TimerManager.remove"

    def __call__(self, vc, f, args, kw):
        (tt,) = TRef("Timer").enc(vc, args[1])
        act = vc.hget("TM.active")
        if not vc.ctx.branch(z3.Select(act, tt), "timer pending"):
            raise ProgExc(ValueError("timer not in queue"))
        vc.hset("TM.active", z3.Store(act, tt, z3.BoolVal(False)))


def classify(vc, handler):
    """What does the handler do when it fires?"""
    got = []
    saved = vc.contracts

    def orphan(vc, f, args, kw):
        got.append((0, TInt().enc(vc, args[1])[0]))
        raise PathEnd()

    def idle(vc, f, args, kw):
        got.append((1, TRef("Connection").enc(vc, args[0])[0]))
        raise PathEnd()
    vc.contracts = dict(saved)
    vc.contracts["sd.ServiceDiscovery.orphan_timeout"] = orphan
    vc.contracts["sd.Connection.idle_timer_fired"] = idle
    try:
        vc.ctx.sub_explore(lambda: vc.call(handler, [], {}))
    finally:
        vc.contracts = saved
    if len(got) != 1:
        raise Unsupported("timer handler of unknown effect")
    return got[0]


class Jitter(Contract):
    """base, plus or minus max_jitter of it"""
    q = "sd.jitter"

    def entry(self, vc):
        mj = vc.w.sd.WARNING_JITTER
        return [SReal(vc.ctx.fresh("base", R)), mj], {}

    def requires(self, vc, a):
        return [("C16", as_real(a["base"]) >= 0)]

    def result(self, vc, a, label):
        return SReal(vc.ctx.fresh("jittered", R))

    def ensures(self, vc, a, old, label, res):
        b, m = as_real(a["base"]), as_real(a["max_jitter"])
        r = as_real(res)
        m1, m2 = z3.simplify(1 - m), z3.simplify(1 + m)
        return [("C16:jitter is bounded", z3.And(r >= b * m1, r <= b * m2))]


class RMContract(Contract):
    """The units that verify these contracts against the code of
    ResourceManager are in units/rm.py; at call sites they act on the
    abstract state: tokens per user and type, and their total."""

    def ty(self, vc, a):
        t = vc.concretize_enum(a["resource_type"])
        return t.name

    def user(self, vc, a):
        return vc.w.TUser.enc(vc, a["user_id"])[0]


class RMAllocate(RMContract):
    q = "sd.ResourceManager.allocate"

    def __call__(self, vc, f, args, kw):
        p = self.params(vc, f, args, kw)
        ty, uu = self.ty(vc, p), self.user(vc, p)
        a = St(vc)
        lim = a.limit_reached(ty, uu)
        if vc.ctx.branch(lim, "limit reached"):
            raise ProgExc(self.make_exc(vc, vc.w.sd.ResourceError))
        n = "RM.U." + ty
        vc.hset(n, z3.Store(vc.hget(n), uu, a.U(ty, uu) + 1))
        vc.hset("RM.total." + ty, a.h("RM.total." + ty) + 1)


class RMDeallocate(RMContract):
    q = "sd.ResourceManager.deallocate"

    def __call__(self, vc, f, args, kw):
        p = self.params(vc, f, args, kw)
        ty, uu = self.ty(vc, p), self.user(vc, p)
        a = St(vc)
        card(vc, a.tok(ty, uu), I)
        vc.ctx.prove(a.U(ty, uu) > 0,
                     "C07,C13:nothing is returned that is not held")
        n = "RM.U." + ty
        vc.hset(n, z3.Store(vc.hget(n), uu, a.U(ty, uu) - 1))
        vc.hset("RM.total." + ty, a.h("RM.total." + ty) - 1)


class RMInit(RMContract):
    q = "sd.ResourceManager.__init__"

    def __call__(self, vc, f, args, kw):
        p = self.params(vc, f, args, kw)
        vc.singletons["rm"] = args[0]
        names = list(p)
        ed = TEnumDict(vc.w.sd.ResourceType, TOpt(TInt()))
        for n, x in (("maxu", p[names[1]]), ("maxt", p[names[2]])):
            want = [vc.hget("RM.%s.%s%s" % (n, ty, s)) for ty in
                    [m.name for m in ed.members] for s in (".some", "")]
            got = ed.enc(vc, x)
            for k in range(0, len(got), 2):
                vc.ctx.prove(z3.And(got[k] == want[k], z3.Implies(
                    got[k], got[k + 1] == want[k + 1])),
                    "C07:the configured limits apply")
        for ty in TYPES:
            vc.hset("RM.U." + ty, z3.K(USER, z3.IntVal(0)))
            vc.hset("RM.total." + ty, z3.IntVal(0))


# -- service_changed
TIMERS = ("TM.active", "Timer.alive", "Timer.kind", "Timer.sid",
          "Timer.conn", "Timer.exp", "Timer.relative")
NOTES = ("View", "Told", "Events")


class ServiceChanged(Contract):
    q = "sd.ServiceDiscovery.service_changed"
    mod = NOTES + TIMERS + ("SD.orphan_timers.dom", "SD.orphan_timers.val")

    def entry(self, vc):
        o = vc.w.instance(vc)
        ct = vc.w.sd.ChangeType
        n = vc.ctx.choose([m.name for m in ct], "change")
        s0 = SRef("Service", vc.ctx.fresh("service", SVC))
        return [o, ct[n], s0], {}

    def split(self, vc, a):
        names = list(a)
        ch = vc.concretize_enum(a[names[1]])
        (ss,) = TRef("Service").enc(vc, a[names[2]])
        return ch, ss

    def requires(self, vc, a):
        ch, ss = self.split(vc, a)
        sd = vc.w.sd
        b = St(vc)
        CT = sd.ChangeType
        ii = b.f("Service.service_id", ss)
        before = vis_before(b, j, ch, ss, sd)
        was = z3.And(b.prev(ss, "some"), b.prev(ss, "orphan_since.some"))
        exp = b.prev(ss, "orphan_since") + z3.ToReal(b.prev(ss, "ttl"))
        out = [("C03,C05,C02", b.cur(ss, "some") == (ch != CT.REMOVED)),
               ("C03,C05,C02", z3.Implies(z3.BoolVal(ch != CT.ADDED),
                                          b.prev(ss, "some"))),
               ("C05", fa(j, z3.Implies(z3.Select(b.D, j), z3.And(
                   b.f("Subscription.sub_id", b.dv(j)) == j,
                   b.f("Subscription.alive", b.dv(j)))),
                   z3.Select(b.D, j))),
               ("C05:the change starts from what was told", fa(
                   j, z3.Implies(z3.Select(b.D, j),
                                 b.view(j, ii) == before),
                   z3.Select(b.D, j))),
               ("C02", fa(t, z3.Implies(
                   z3.And(b.tact(t), b.f("Timer.kind", t) == 0,
                          b.f("Timer.sid", t) == ii),
                   z3.And(z3.Select(b.OT, ii), b.ov(ii) == t)),
                   b.tact(t))),
               ("C02", fa(t, z3.Implies(b.tact(t), b.f("Timer.alive", t)),
                          b.tact(t)))]
        if ch == CT.ADDED:
            out.append(("C02", z3.Not(z3.Select(b.OT, ii))))
        elif ch == CT.MODIFIED:
            out.append(("C02", z3.Select(b.OT, ii) == was))
        if ch != CT.ADDED:
            out.append(("C02", z3.Implies(
                z3.Select(b.OT, ii),
                z3.And(was, b.timer_for(b.ov(ii), ii, exp)))))
        vc.ctx.ghost["sc"] = (ch, ss)
        return out

    def ensures(self, vc, a, old, label, res):
        ch, ss = self.split(vc, a)
        b, n = St(vc, old), St(vc)
        ii = b.f("Service.service_id", ss)
        orphan = z3.And(b.cur(ss, "some"), b.cur(ss, "orphan_since.some"))
        exp = b.cur(ss, "orphan_since") + z3.ToReal(b.cur(ss, "ttl"))
        return changed_post(b, n, ch, ss, vc.w.sd,
                            lambda x: z3.Select(b.D, x)) + [
            ("C02:an expiry is pending iff an orphan", fa(
                i, z3.Select(n.OT, i) == z3.If(i == ii, orphan,
                                               z3.Select(b.OT, i)),
                z3.Select(n.OT, i))),
            ("C02:other expiries kept", fa(i, z3.Implies(
                i != ii, n.ov(i) == b.ov(i)), n.ov(i))),
            ("C02:the expiry is at orphan start plus TTL", z3.Implies(
                orphan, n.timer_for(n.ov(ii), ii, exp))),
            ("C02:no stale or second expiry is pending", fa(t, z3.Implies(
                z3.And(n.tact(t), n.f("Timer.kind", t) == 0,
                       n.f("Timer.sid", t) == ii),
                z3.And(orphan, n.ov(ii) == t)), n.tact(t)))] + \
            frame_timers(b, n, lambda x: x == ii)


# -- the public operations
ALL = None


class Op(Contract):
    """A public operation of ServiceDiscovery: keeps the invariant."""
    pending = None

    def __init__(self):
        self.mod = ()

    def entry_state(self, vc, args):
        """changes of the state before the call (a timer that fires)"""

    def pre(self, vc, a, st):
        return []

    def exempt(self, vc, a):
        return None

    def requires(self, vc, a):
        st = St(vc)
        return inv(st, self.exempt(vc, a), self.pend(vc, a)) + \
            self.pre(vc, a, st)

    def pend(self, vc, a):
        return None

    def pend_after(self, vc, a, label):
        return None

    def exit_ghost(self, vc, a, b, label):
        """ghost updates on return"""

    def body(self, vc, f, args, kw):
        self.old = H(vc)
        return Contract.body(self, vc, f, args, kw)

    def post(self, vc, a, b, n, label, res):
        return []

    def ensures(self, vc, a, old, label, res):
        b = St(vc, old)
        self.exit_ghost(vc, a, b, label)
        n = St(vc)
        if label in self.unchanged:
            return [("C03,C07,C04,C06:a refused request changes nothing",
                     unchanged(vc, b, n, m)) for m in sorted(vc.ctx.written)
                    if not m.endswith(".alive")]
        return inv(n, None, self.pend_after(vc, a, label)) + \
            self.post(vc, a, b, n, label, res)

    unchanged = ()

    def verify(self, vc, f):
        # everything may change that the postcondition does not fix
        self.mod = list(vc.w.comp_sorts)
        return Contract.verify(self, vc, f)


def unchanged(vc, b, n, m):
    """component m is as before (of the objects that existed before)"""
    cls = m.split(".")[0]
    if cls + ".alive" in vc.w.comp_sorts:
        r = z3.Const("r", sort(cls))
        return fa(r, z3.Implies(b.f(cls + ".alive", r),
                                n.f(m, r) == b.f(m, r)), n.f(m, r))
    return b.h(m) == n.h(m)


def names_of(a):
    return [a[n] for n in list(a)[1:]]


def int_arg(vc, v):
    return TInt().enc(vc, v)[0]


def sint(vc, n):
    return SInt(vc.ctx.fresh(n, I))


def keep_services(b, n, but=None):
    """services other than but: same set, same content, same holder"""
    x = z3.BoolVal(True) if but is None else i != but
    svi = b.sv(i)
    return [("C03,C01:other services are untouched", fa(
        i, z3.Implies(x, z3.Select(n.S, i) == z3.Select(b.S, i)),
        z3.Select(n.S, i))),
        ("C03,C01:other services are untouched", fa(
            i, z3.Implies(z3.And(x, z3.Select(b.S, i)), z3.And(
                n.sv(i) == svi, same_gen(b, n, svi),
                holder(n, i) == holder(b, i))), z3.Select(b.S, i),
            z3.Select(n.S, i)))]


def keep_subs(b, n, but=None, tag="C06"):
    x = z3.BoolVal(True) if but is None else j != but
    return [(tag + ":other subscriptions are untouched", fa(
        j, z3.Implies(x, z3.And(
            z3.Select(n.D, j) == z3.Select(b.D, j),
            z3.Implies(z3.Select(b.D, j), z3.And(
                n.dv(j) == b.dv(j),
                *[n.f("Subscription." + g, b.dv(j)) ==
                  b.f("Subscription." + g, b.dv(j)) for g in (
                      "client_id", "user_id", "filter.some", "filter",
                      "match_cb", "sub_id")])))),
        z3.Select(n.D, j)))]


def keep_connected(b, n, but=None):
    """who is connected, as whom, through which connection"""
    x = z3.BoolVal(True) if but is None else k != but
    was = z3.And(z3.Select(b.C, k), b.connected(b.cv(k)))
    isn = z3.And(z3.Select(n.C, k), n.connected(n.cv(k)))
    return [("C08,C01:other clients stay as they are", fa(
        k, z3.Implies(x, z3.And(isn == was, z3.Implies(was, z3.And(
            n.cv(k) == b.cv(k), n.conn(n.cv(k)) == b.conn(b.cv(k)),
            n.f("Client.user_id", n.cv(k)) ==
            b.f("Client.user_id", b.cv(k)))))),
        z3.Select(n.C, k), n.cv(k)))]


def keep_users(b, n):
    """a service never changes user"""
    return [("C04:a service never changes user", fa(i, z3.Implies(
        z3.And(z3.Select(b.S, i), z3.Select(n.S, i)),
        n.cur(n.sv(i), "user_id") == b.cur(b.sv(i), "user_id")),
        z3.Select(n.S, i)))]


def no_events_for_dead(b, n):
    """nothing is reported for subscriptions that do not exist"""
    return [("C06:nothing is reported for other subscriptions", fa(
        [j, i], z3.Implies(z3.Not(z3.Select(b.D, j)),
                           n.h.at("Events", j, i) ==
                           b.h.at("Events", j, i)),
        n.h.at("Events", j, i)))]


def idle_restarted(b, n, cc, lo="0.45", hi="0.55", state=0):
    """the idle timer was set anew, to about half the maximum idle time"""
    ti = n.f("Connection.idle_timer", cc)
    d = n.f("Timer.exp", ti)
    lim = lambda x: n.f("Connection.idle_limit.idle_" + x, cc)
    mx, mn = lim("max"), lim("min")
    ttl = lambda x: n.cur(z3.Select(n.f("Connection.services.val", cc), x),
                          "ttl")
    cl_ = lambda v: z3.ToReal(z3.If(v < mn, mn, z3.If(v > mx, mx, v)))
    lo, hi = z3.RealVal(lo), z3.RealVal(hi)
    has = n.csvc(cc) != EMPTY
    # maximum idle time: lowest TTL, clamped
    return [
        ("C16:the cycle starts again", z3.And(
            n.f("Connection.idle_timer.some", cc), n.tact(ti),
            n.f("Timer.relative", ti), z3.Not(b.tact(ti)),
            n.f("Connection.idle_state", cc) == state)),
        ("C16:half the upper bound without services", z3.Implies(
            z3.Not(has), z3.And(d >= lo * z3.ToReal(mx),
                                d <= hi * z3.ToReal(mx)))),
        ("C16:not later than half the lowest clamped TTL", fa(
            i, z3.Implies(z3.Select(n.csvc(cc), i), d <= hi * cl_(ttl(i))),
            z3.Select(n.csvc(cc), i))),
        ("C16:not earlier than half the lowest clamped TTL", z3.Implies(
            has, z3.Exists([i], z3.And(z3.Select(n.csvc(cc), i),
                                       d >= lo * cl_(ttl(i))),
                           patterns=[z3.Select(n.csvc(cc), i)])))]


def is_connected(st, kk):
    return z3.And(z3.Select(st.C, kk), st.connected(st.cv(kk)))


class Connect(Op):
    q = "sd.ServiceDiscovery.client_connect"

    def __init__(self, sd=None):
        Op.__init__(self)

    def entry(self, vc):
        w = vc.w
        sd = w.sd
        self.outcomes = [Outcome("ok"),
                         Outcome("exists", sd.AlreadyExistsError),
                         Outcome("user changed", sd.UserIdChanged),
                         Outcome("no resources", sd.ResourceError)]
        o = w.instance(vc)
        lim = w.TIdle.fresh(vc, "limit")
        vc.ctx.assume(z3.And(lim.idle_min.t >= 1,
                             lim.idle_min.t <= lim.idle_max.t))
        return [o, sint(vc, "client_id"), w.TUser.fresh(vc, "user"), lim,
                w.TIdleCb.fresh(vc, "idle_cb")], {}

    unchanged = ("user changed", "no resources")

    def exit_ghost(self, vc, a, b, label):
        if label == "ok":
            kk, uu, _, _ = names_of(a)
            tok_update(vc, "CLIENT", uu.t, kk.t, True)

    def ensures(self, vc, a, old, label, res):
        b = St(vc, old)
        kk, uu, lim, cb = names_of(a)
        kk, uu = kk.t, uu.t
        conn = is_connected(b, kk)
        other = z3.And(z3.Select(b.C, kk), b.f(
            "Client.user_id", b.cv(kk)) != uu)
        full = b.limit_reached("CLIENT", uu)
        out = Op.ensures(self, vc, a, old, label, res)
        tag = "C04,C07,C15:the outcome follows the rules"
        cond = {"ok": z3.And(z3.Not(conn), z3.Not(other), z3.Not(full)),
                "exists": conn,
                "user changed": z3.And(z3.Not(conn), other),
                "no resources": z3.And(z3.Not(conn), z3.Not(other), full)}
        return out + [(tag, cond[label])]

    def post(self, vc, a, b, n, label, res):
        kk, uu, lim, cb = names_of(a)
        kk, uu = kk.t, uu.t
        out = keep_services(b, n) + keep_subs(b, n) + \
            no_events_for_dead(b, n) + keep_users(b, n)
        if label == "exists":
            return out + keep_connected(b, n) + [
                ("C07", z3.And(*[same(b, n, "RM.U." + x) for x in TYPES]))]
        cc = n.conn(n.cv(kk))
        return out + keep_connected(b, n, kk) + [
            ("C15,C08:the client is connected", z3.And(
                is_connected(n, kk), n.f("Client.user_id", n.cv(kk)) == uu,
                n.csvc(cc) == EMPTY, n.csub(cc) == EMPTY,
                n.f("Connection.idle_cb", cc) == cb.t,
                n.f("Connection.idle_limit.idle_min", cc) == lim.idle_min.t,
                n.f("Connection.idle_limit.idle_max", cc) ==
                lim.idle_max.t))] + idle_restarted(b, n, cc)


class Disconnect(Op):
    q = "sd.ServiceDiscovery.client_disconnect"
    unchanged = ("not found",)

    def entry(self, vc):
        sd = vc.w.sd
        self.outcomes = [Outcome("ok"), Outcome("not found",
                                                sd.NotFoundError)]
        return [vc.w.instance(vc), sint(vc, "client_id")], {}

    def exempt(self, vc, a):
        (kk,) = names_of(a)
        b = St(vc)
        return b.conn(b.cv(int_arg(vc, kk)))

    def pre(self, vc, a, st):
        kk = int_arg(vc, names_of(a)[0])
        return [("C13:the client is connected or unknown", z3.Implies(
            z3.Select(st.C, kk), st.connected(st.cv(kk)))),
                # follows from the invariant
                ("C07", z3.Implies(z3.Select(st.C, kk), z3.Select(
                    st.tok("CLIENT", st.f("Client.user_id", st.cv(kk))),
                    kk)))]

    def exit_ghost(self, vc, a, b, label):
        if label == "ok":
            kk = int_arg(vc, names_of(a)[0])
            tok_update(vc, "CLIENT", b.f("Client.user_id", b.cv(kk)), kk,
                       False)

    def post(self, vc, a, b, n, label, res):
        kk = int_arg(vc, names_of(a)[0])
        if label == "not found":
            return []
        cc = b.conn(b.cv(kk))
        svi = b.sv(i)
        mine = z3.Select(b.csvc(cc), i)
        at = n.f("Connection.disconnected_at", cc)
        nows = vc.ctx.ghost.get("nows", ())
        return [
            ("C01:services stay when their owner leaves", z3.And(
                same(b, n, "DB.services.dom", "DB.services.val"))),
            ("C01:exactly the services of the connection become orphans",
             fa(i, z3.Implies(z3.Select(b.S, i), z3.And(
                 same_gen(b, n, svi, ("orphan_since.some", "orphan_since")),
                 holder(n, i) == holder(b, i),
                 z3.If(mine, z3.And(n.cur(svi, "orphan_since.some"),
                                    n.cur(svi, "orphan_since") == at),
                       z3.And(n.cur(svi, "orphan_since.some") ==
                              b.cur(svi, "orphan_since.some"),
                              n.cur(svi, "orphan_since") ==
                              b.cur(svi, "orphan_since"))))),
                z3.Select(b.S, i))),
            ("C01:the orphan time is now", z3.Or(
                *[at == x for x in nows]) if nows else z3.BoolVal(True)),
            ("C01,C08:the connection has ended", z3.And(
                z3.Not(is_connected(n, kk)),
                n.f("Connection.disconnected_at.some", cc))),
            ("C06:its subscriptions are gone, and no others", fa(
                j, z3.Select(n.D, j) == z3.And(
                    z3.Select(b.D, j),
                    b.f("Subscription.client_id", b.dv(j)) != kk),
                z3.Select(n.D, j))),
            ("C06:nothing is reported to the client that left", fa(
                [j, i], z3.Implies(z3.Or(
                    z3.Not(z3.Select(b.D, j)),
                    b.f("Subscription.client_id", b.dv(j)) == kk),
                    n.h.at("Events", j, i) == b.h.at("Events", j, i)),
                n.h.at("Events", j, i)))] + keep_connected(b, n, kk) + \
            keep_users(b, n)

    # used at the idle callback: nothing is needed of the result
    def apply(self, vc, f, args, kw):
        ctx = vc.ctx
        a = self.params(vc, f, args, kw)
        for nm, g in self.requires(vc, a):
            ctx.prove(g, "%s:pre of %s" % (nm, self.q))
        b = St(vc)
        kk = int_arg(vc, names_of(a)[0])
        ctx.prove(is_connected(b, kk), "C16:pre of %s" % self.q)
        old = H(vc)
        for m in vc.w.comp_sorts:
            if not m.startswith("RM.max"):
                vc.havoc(m)
        n = St(vc)
        for nm, g in inv(n) + self.post(vc, a, b, n, "ok", None):
            ctx.assume(g)
        ctx.ghost["left"] = (b, kk)
        return None


class Active(Op):
    q = "sd.ServiceDiscovery.client_active"

    def entry(self, vc):
        return [vc.w.instance(vc), sint(vc, "client_id")], {}

    def pre(self, vc, a, st):
        kk = int_arg(vc, names_of(a)[0])
        return [("C13", is_connected(st, kk))]

    def post(self, vc, a, b, n, label, res):
        kk = int_arg(vc, names_of(a)[0])
        return keep_services(b, n) + keep_subs(b, n) + \
            keep_connected(b, n) + no_events_for_dead(b, n) + \
            idle_restarted(b, n, n.conn(n.cv(kk)))


class Publish(Op):
    q = "sd.ServiceDiscovery.publish"
    unchanged = ("denied", "same generation", "old generation",
                 "no resources", "not found")

    def entry(self, vc):
        w = vc.w
        sd = w.sd
        self.outcomes = [
            Outcome("ok"), Outcome("denied", sd.PermissionError),
            Outcome("same generation", sd.SameGenerationButDifferentError),
            Outcome("old generation", sd.GenerationError),
            Outcome("no resources", sd.ResourceError)]
        return [w.instance(vc), sint(vc, "client_id"), sint(vc, "sid"),
                sint(vc, "generation"), w.TProps.fresh(vc, "props"),
                sint(vc, "ttl")], {}

    def pre(self, vc, a, st):
        kk = names_of(a)[0].t
        return [("C13", is_connected(st, kk))]

    def exit_ghost(self, vc, a, b, label):
        kk, ii, g, p, tl = [x.t for x in names_of(a)]
        if label != "ok":
            return
        n = St(vc)
        vc.hset("holder", z3.Store(vc.hget("holder"), ii,
                                   n.conn(n.cv(kk))))
        # a service that exists is not counted twice
        tok_update(vc, "SERVICE", b.f("Client.user_id", b.cv(kk)), ii, True)

    def ensures(self, vc, a, old, label, res):
        b = St(vc, old)
        kk, ii, g, p, tl = [x.t for x in names_of(a)]
        known = z3.Select(b.S, ii)
        uu = b.f("Client.user_id", b.cv(kk))
        ss = b.sv(ii)
        mine = b.cur(ss, "user_id") == uu
        g0 = b.cur(ss, "generation")
        eqv = z3.And(b.cur(ss, "props") == p, b.cur(ss, "ttl") == tl)
        full = b.limit_reached("SERVICE", uu)
        cond = {"ok": z3.Or(
            z3.And(z3.Not(known), z3.Not(full)),
            z3.And(known, mine, z3.Or(g > g0, z3.And(g == g0, eqv)))),
            "denied": z3.And(known, z3.Not(mine)),
            "same generation": z3.And(known, mine, g == g0, z3.Not(eqv)),
            "old generation": z3.And(known, mine, g < g0),
            "no resources": z3.And(z3.Not(known), full)}
        out = Op.ensures(self, vc, a, old, label, res)
        return out + [("C03,C04,C07:the outcome follows the rules",
                       cond[label])]

    def post(self, vc, a, b, n, label, res):
        kk, ii, g, p, tl = [x.t for x in names_of(a)]
        ss = n.sv(ii)
        uu = b.f("Client.user_id", b.cv(kk))
        return keep_services(b, n, ii) + keep_subs(b, n) + \
            keep_connected(b, n) + no_events_for_dead(b, n) + \
            keep_users(b, n) + [
            ("C03,C01:published as given, owned by the publisher", z3.And(
                z3.Select(n.S, ii), n.cur(ss, "some"),
                n.cur(ss, "generation") == g, n.cur(ss, "props") == p,
                n.cur(ss, "ttl") == tl, n.cur(ss, "client_id") == kk,
                n.cur(ss, "user_id") == uu,
                z3.Not(n.cur(ss, "orphan_since.some")))),
            ("C03", TRef("Service").enc(vc, res)[0] == ss
             if isinstance(res, SRef) else z3.BoolVal(False))] + \
            idle_restarted(b, n, n.conn(n.cv(kk)))


class Unpublish(Op):
    q = "sd.ServiceDiscovery.unpublish"
    unchanged = ("denied", "not found")

    def entry(self, vc):
        sd = vc.w.sd
        self.outcomes = [Outcome("ok"), Outcome("denied",
                                                sd.PermissionError),
                         Outcome("not found", sd.NotFoundError)]
        return [vc.w.instance(vc), sint(vc, "client_id"),
                sint(vc, "sid")], {}

    def pre(self, vc, a, st):
        kk = names_of(a)[0].t
        return [("C13", is_connected(st, kk))]

    def exit_ghost(self, vc, a, b, label):
        kk, ii = [x.t for x in names_of(a)]
        if label == "ok":
            tok_update(vc, "SERVICE", b.cur(b.sv(ii), "user_id"), ii, False)

    def ensures(self, vc, a, old, label, res):
        b = St(vc, old)
        kk, ii = [x.t for x in names_of(a)]
        known = z3.Select(b.S, ii)
        mine = b.cur(b.sv(ii), "user_id") == b.f("Client.user_id", b.cv(kk))
        cond = {"ok": z3.And(known, mine),
                "denied": z3.And(known, z3.Not(mine)),
                "not found": z3.Not(known)}
        return Op.ensures(self, vc, a, old, label, res) + [
            ("C03,C04:the outcome follows the rules", cond[label])]

    def post(self, vc, a, b, n, label, res):
        kk, ii = [x.t for x in names_of(a)]
        return keep_services(b, n, ii) + keep_subs(b, n) + \
            keep_connected(b, n) + no_events_for_dead(b, n) + \
            keep_users(b, n) + [
            ("C03:unpublished", z3.Not(z3.Select(n.S, ii)))] + \
            idle_restarted(b, n, n.conn(n.cv(kk)))


class CreateSub(Op):
    q = "sd.ServiceDiscovery.create_subscription"
    unchanged = ("exists", "no resources")

    def entry(self, vc):
        w = vc.w
        sd = w.sd
        self.outcomes = [Outcome("ok"), Outcome("exists",
                                                sd.AlreadyExistsError),
                         Outcome("no resources", sd.ResourceError)]
        return [w.instance(vc), sint(vc, "client_id"), sint(vc, "sub_id"),
                TOpt(TRef("Filter")).fresh(vc, "filter"),
                w.TMatchCb.fresh(vc, "cb")], {}

    def pre(self, vc, a, st):
        kk = names_of(a)[0].t
        return [("C13", is_connected(st, kk))]

    def pend_after(self, vc, a, label):
        return names_of(a)[1].t

    def exit_ghost(self, vc, a, b, label):
        kk, jj = [x.t for x in names_of(a)[:2]]
        if label == "ok":
            tok_update(vc, "SUBSCRIPTION", b.f("Client.user_id", b.cv(kk)),
                       jj, True)

    def ensures(self, vc, a, old, label, res):
        b = St(vc, old)
        kk, jj = [x.t for x in names_of(a)[:2]]
        used = z3.Select(b.D, jj)
        full = b.limit_reached("SUBSCRIPTION",
                               b.f("Client.user_id", b.cv(kk)))
        cond = {"ok": z3.And(z3.Not(used), z3.Not(full)), "exists": used,
                "no resources": z3.And(z3.Not(used), full)}
        return Op.ensures(self, vc, a, old, label, res) + [
            ("C06,C07:the outcome follows the rules", cond[label])]

    def post(self, vc, a, b, n, label, res):
        kk, jj, fl, cb = names_of(a)
        kk, jj = kk.t, jj.t
        d = n.dv(jj)
        fs = TOpt(TRef("Filter")).enc(vc, fl)
        return keep_services(b, n) + keep_subs(b, n, jj) + \
            keep_connected(b, n) + [
            ("C06:nothing is reported before the activation",
             same(b, n, "Events", "View", "Told")),
            ("C06,C22:subscribed as asked", z3.And(
                z3.Select(n.D, jj),
                n.f("Subscription.client_id", d) == kk,
                n.f("Subscription.filter.some", d) == fs[0],
                z3.Implies(fs[0], n.f("Subscription.filter", d) == fs[1]),
                n.f("Subscription.match_cb", d) == cb.t))]


class ActivateSub(Op):
    q = "sd.ServiceDiscovery.activate_subscription"

    def entry(self, vc):
        jj = sint(vc, "sub_id")
        vc.ctx.ghost["activating"] = jj.t
        return [vc.w.instance(vc), sint(vc, "client_id"), jj], {}

    def pend(self, vc, a):
        return names_of(a)[1].t

    def pre(self, vc, a, st):
        kk, jj = [x.t for x in names_of(a)]
        return [("C06", is_connected(st, kk)),
                ("C06", z3.And(z3.Select(st.D, jj), st.f(
                    "Subscription.client_id", st.dv(jj)) == kk)),
                # a new subscription has seen nothing
                ("C06", fa(i, z3.Not(st.view(jj, i)), st.view(jj, i)))]

    def post(self, vc, a, b, n, label, res):
        kk, jj = [x.t for x in names_of(a)]
        return keep_services(b, n) + keep_subs(b, n) + \
            keep_connected(b, n) + activate_post(
                b, n, jj, lambda x: z3.Select(b.S, x))


class Unsubscribe(Op):
    q = "sd.ServiceDiscovery.unsubscribe"
    unchanged = ("denied", "not found")

    def entry(self, vc):
        sd = vc.w.sd
        self.outcomes = [Outcome("ok"), Outcome("denied",
                                                sd.PermissionError),
                         Outcome("not found", sd.NotFoundError)]
        return [vc.w.instance(vc), sint(vc, "client_id"),
                sint(vc, "sub_id")], {}

    def pre(self, vc, a, st):
        kk = names_of(a)[0].t
        return [("C13", is_connected(st, kk))]

    def exit_ghost(self, vc, a, b, label):
        kk, jj = [x.t for x in names_of(a)]
        if label == "ok":
            tok_update(vc, "SUBSCRIPTION",
                       b.f("Subscription.user_id", b.dv(jj)), jj, False)

    def ensures(self, vc, a, old, label, res):
        b = St(vc, old)
        kk, jj = [x.t for x in names_of(a)]
        known = z3.Select(b.D, jj)
        mine = b.f("Subscription.client_id", b.dv(jj)) == kk
        cond = {"ok": z3.And(known, mine),
                "denied": z3.And(known, z3.Not(mine)),
                "not found": z3.Not(known)}
        return Op.ensures(self, vc, a, old, label, res) + [
            ("C06,C04:the outcome follows the rules", cond[label])]

    def post(self, vc, a, b, n, label, res):
        kk, jj = [x.t for x in names_of(a)]
        return keep_services(b, n) + keep_subs(b, n, jj) + \
            keep_connected(b, n) + [
            ("C06:the subscription is gone", z3.Not(z3.Select(n.D, jj))),
            ("C06:nothing more is reported",
             same(b, n, "Events", "View", "Told"))]


class OrphanTimeout(Op):
    q = "sd.ServiceDiscovery.orphan_timeout"

    def entry(self, vc):
        return [vc.w.instance(vc), sint(vc, "sid")], {}

    def verify(self, vc, f):
        return fired(self, vc, f, 0)

    def exit_ghost(self, vc, a, b, label):
        ii = names_of(a)[0].t
        tok_update(vc, "SERVICE", b.cur(b.sv(ii), "user_id"), ii, False)

    def post(self, vc, a, b, n, label, res):
        ii = names_of(a)[0].t
        return [("C02:only an orphan expires, when its TTL has passed",
                 z3.And(b.cur(b.sv(ii), "orphan_since.some"),
                        vc.ctx.ghost["fired_exp"] ==
                        b.cur(b.sv(ii), "orphan_since") +
                        z3.ToReal(b.cur(b.sv(ii), "ttl")))),
                ("C02:the expired service is removed",
                 z3.Not(z3.Select(n.S, ii)))] + \
            keep_services(b, n, ii) + keep_subs(b, n) + \
            keep_connected(b, n) + no_events_for_dead(b, n) + \
            keep_users(b, n)


class IdleFired(Op):
    q = "sd.Connection.idle_timer_fired"

    def entry(self, vc):
        vc.w.instance(vc)
        return [SRef("Connection", vc.ctx.fresh("conn", CON))], {}

    def verify(self, vc, f):
        return fired(self, vc, f, 1)

    def post(self, vc, a, b, n, label, res):
        cc = list(a.values())[0].t
        g = vc.ctx.ghost
        kk = b.f("Client.client_id", b.f("Connection.client", cc))
        if "left" in g:
            return [("C16:disconnected only after a warning",
                     b.f("Connection.idle_state", cc) == 1),
                    ("C16", z3.Not(is_connected(n, kk)))]
        return [("C16:warned when idle for half the time", z3.And(
            z3.BoolVal(g.get("warned") == 1),
            b.f("Connection.idle_state", cc) == 0))] + keep_services(b, n) + \
            keep_subs(b, n) + keep_connected(b, n) + [
            ("C16:half the time left", z3.Implies(
                n.f("Connection.idle_state", cc) == 1, z3.And(*[
                    x for _, x in idle_restarted(b, n, cc, "0.5", "0.5",
                                                 1)])))]


def fired(self, vc, f, kind):
    """The state in which a timer's handler runs: its timer has just left
    the queue."""
    ctx = vc.ctx
    self.mod = list(vc.w.comp_sorts)
    args, kw = self.entry(vc)
    st0 = St(vc)
    for nm, g in inv(st0):
        ctx.assume(g)
    tt = ctx.fresh("firing", TIM)
    ctx.assume(st0.tact(tt))
    ctx.assume(st0.f("Timer.kind", tt) == kind)
    ctx.assume(st0.f("Timer.sid" if kind == 0 else "Timer.conn", tt) ==
               args[-1].t)
    ctx.ghost["fired_exp"] = st0.f("Timer.exp", tt)
    vc.hset("TM.active", z3.Store(vc.hget("TM.active"), tt,
                                  z3.BoolVal(False)))
    self.requires = lambda vc, a: []
    self.entry = lambda vc: (args, kw)
    try:
        return Contract.verify(self, vc, f)
    finally:
        del self.requires, self.entry


class Init(Op):
    q = "sd.ServiceDiscovery.__init__"

    def entry(self, vc):
        w = vc.w
        sd = w.sd
        o = sd.ServiceDiscovery.__new__(sd.ServiceDiscovery)
        tm = w.tm.TimerManager.__new__(w.tm.TimerManager)
        vc.singletons.update(sd=o, tm=tm)
        st = St(vc)
        # nothing exists yet, and limits are not negative
        for x in ("Service", "Connection", "Client", "Subscription",
                  "Timer"):
            vc.hset(x + ".alive", z3.K(sort(x), z3.BoolVal(False)))
        vc.hset("TM.active", z3.K(TIM, z3.BoolVal(False)))
        for ty in TYPES:
            vc.hset("Tok." + ty, z3.K(USER, EMPTY))
            for n in ("maxu", "maxt"):
                vc.ctx.assume(st.h("RM.%s.%s" % (n, ty)) >= 0)
        card(vc, EMPTY, I)
        mu, mt = [{t: TOpt(TInt()).dec(vc, [
            st.h("RM.%s.%s.some" % (n, t.name)),
            st.h("RM.%s.%s" % (n, t.name))]) for t in sd.ResourceType}
            for n in ("maxu", "maxt")]
        return [o, "domain", tm, mu, mt], {}

    def requires(self, vc, a):
        return []

    def post(self, vc, a, b, n, label, res):
        return [("C01:nothing is published at the start", n.S == EMPTY),
                ("C08:no client is known at the start", n.C == EMPTY),
                ("C06:no subscription at the start", n.D == EMPTY)]


class Query(Op):
    def entry(self, vc):
        return [vc.w.instance(vc)], {}

    def view_is(self, res, name):
        ok = isinstance(res, View) and res.name() == name and \
            res.kind == "values"
        return z3.BoolVal(ok)

    def post(self, vc, a, b, n, label, res):
        return [("C22:a listing changes nothing", z3.And(
            *[b.h(m) == n.h(m) for m in sorted(vc.ctx.written)] or
            [z3.BoolVal(True)]))]


class GetServices(Query):
    q = "sd.ServiceDiscovery.get_services"

    def post(self, vc, a, b, n, label, res):
        return Query.post(self, vc, a, b, n, label, res) + [
            ("C22:all services, and no others", self.view_is(
                res, "DB.services"))]


class GetSubscriptions(Query):
    q = "sd.ServiceDiscovery.get_subscriptions"

    def post(self, vc, a, b, n, label, res):
        return Query.post(self, vc, a, b, n, label, res) + [
            ("C22:all subscriptions, and no others", self.view_is(
                res, "DB.subscriptions"))]


OPS = (Init, Connect, Disconnect, Active, Publish, Unpublish, CreateSub,
       ActivateSub, Unsubscribe, OrphanTimeout, IdleFired, GetServices,
       GetSubscriptions)
PROPS_ALL = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C13",
             "C16"}

_COMMON = [
    "times are real numbers and time.time() and random.random() (in [0, 1)) "
    "are arbitrary: floating point rounding is not modelled",
    "one ServiceDiscovery, TimerManager and ResourceManager; their objects "
    "are changed only through the operations under contract",
    "property sets, filters and user ids are values with equality; "
    "Filter.match is a function of filter and properties (C10)",
    "match callbacks do not call back into the service discovery, and the "
    "idle callback sends a query or counts as activity (warning) or "
    "disconnects the client (timeout): proved for the server's in "
    "units/server.py",
    "TimerManager.add and remove act as their contracts say (proved in "
    "units/timer.py, check C11), ResourceManager's as proved in units/rm.py",
    "assert statements are executed (python is not run with -O)",
]
ASSUMES = {p: _COMMON for p in PROPS_ALL}
ASSUMES["C07"] = _COMMON + [
    "the sum over a finite set changes by the difference at one point when "
    "the summand or the set changes at one point only (axiom of finite sums)"]


def units():
    base = [TMAdd(), TMRemove(), RMAllocate(), RMDeallocate(), RMInit(),
            Jitter()]
    us = [Unit("sd", SDWorld, Jitter(), {"C16"}),
          Unit("sd", SDWorld, ServiceChanged(), PROPS_ALL, contracts=base)]
    for o in OPS:
        props = {"C22"} if o in (GetServices, GetSubscriptions) else PROPS_ALL
        us.append(Unit("sd", SDWorld, o(), props,
                       contracts=base + [ServiceChanged(), Disconnect()]))
    return us
