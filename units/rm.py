"""paf.sd's resource accounting under contract (C07, C13), and IdleLimit."""
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.loops import LoopSpec, loop_locals
from pyvc.runner import Unit
from units.sd import USER, TYPES, St, fa

CONS = sort("Consumer")
UA, US = z3.ArraySort(USER, I), z3.ArraySort(USER, B)
# the sum of a function over a finite set
sumf = z3.Function("sum_over", UA, US, I)
NOUSER = z3.K(USER, z3.BoolVal(False))
u = z3.Const("u", USER)


class RMWorld(World):
    def __init__(self, index):
        World.__init__(self, index)
        sd = index.modules["sd"]
        self.sd = sd
        self.TUser = TAtom("User")
        rt = sd.ResourceType
        self.heap_class("Consumer", sd.Consumer, {
            "user_id": self.TUser,
            "max_resources": TConst(lambda vc: vc.singletons["maxu"]),
            "used_resources": TEnumDict(rt, TInt())})
        self.map = TMap(self.TUser, TRef("Consumer"))
        self.cell("RM.consumers", self.map)
        self.native_fields[sd.ResourceManager] = {
            "consumers": (self.map, "RM.consumers")}
        for ty in TYPES:
            self.ghost("RM.U." + ty, UA)
            for n in ("total", "maxu", "maxt"):
                self.ghost("RM.%s.%s" % (n, ty), I)
            self.ghost("RM.maxu.%s.some" % ty, B)
            self.ghost("RM.maxt.%s.some" % ty, B)

    def limits(self, vc):
        st = St(vc)
        return [{t: TOpt(TInt()).dec(vc, [
            st.h("RM.%s.%s.some" % (n, t.name)),
            st.h("RM.%s.%s" % (n, t.name))]) for t in self.sd.ResourceType}
            for n in ("maxu", "maxt")]

    def instance(self, vc):
        sd = self.sd
        o = sd.ResourceManager.__new__(sd.ResourceManager)
        mu, mt = self.limits(vc)
        vc.singletons["maxu"] = mu
        o.__dict__.update(max_user_resources=mu, max_total_resources=mt,
                          consumers=vc.cell("RM.consumers", self.map))
        return o

    # total(): the accumulator of a loop over the consumers
    def loop_spec(self, vc, env, coll, st):
        v = vc.as_view(coll)
        if v is None or v.name() != "RM.consumers":
            return None
        acc = [n for n in sorted(loop_locals(st)) if n in env.vars and
               isinstance(env.vars[n], (int, SInt)) and
               not isinstance(env.vars[n], bool)]
        if len(acc) != 1:
            return None
        ty = vc.ctx.ghost.get("rm_type")
        if ty is None:
            return None

        def step(vc, env, V, k, pre):
            A = St(vc).h("RM.U." + ty)
            vc.ctx.assume(sumf(A, z3.Store(V, k, z3.BoolVal(True))) ==
                          sumf(A, V) + z3.Select(A, k))

        def inv(vc, env, V, D, pre):
            A = St(vc).h("RM.U." + ty)
            vc.ctx.assume(sumf(A, NOUSER) == 0)
            return [("C07", TInt().enc(vc, env.vars[acc[0]])[0] ==
                     sumf(A, V))]
        return LoopSpec("RM.consumers", inv, locals={acc[0]: TInt()},
                        step=step)

    # total() as sum(... for consumer in ...)
    def sym_sum(self, vc, comp, start):
        ty = vc.ctx.ghost.get("rm_type")
        if ty is None or comp.view.name() != "RM.consumers" or start != 0:
            raise Unsupported("sum over a symbolic collection")
        A = St(vc).h("RM.U." + ty)
        D = comp.view.dom()
        some = z3.Or(*[c for c, v in comp.value if v is not None])
        vals = z3.And(*[z3.Implies(c, TInt().enc(vc, v[0])[0] ==
                                   z3.Select(A, comp.key))
                        for c, v in comp.value if v is not None])
        # the elements are the function summed over
        if not vc.ctx.entails(z3.Implies(z3.Select(D, comp.key),
                                         z3.And(some, vals))):
            raise Unsupported("sum of something else over the consumers")
        return SInt(sumf(A, D))


def inv_rm(a):
    D = a.h("RM.consumers.dom")
    v = z3.Select(a.h("RM.consumers.val"), u)
    g = z3.Select(D, u)
    used = {ty: a.f("Consumer.used_resources." + ty, v) for ty in TYPES}
    out = [("C07", fa(u, z3.Implies(g, z3.And(
        a.f("Consumer.alive", v), a.f("Consumer.user_id", v) == u,
        *[x >= 0 for x in used.values()])), g, v)),
        ("C08:only users holding something are accounted for", fa(
            u, z3.Implies(g, z3.Or(*[x > 0 for x in used.values()])),
            g, v))]
    for ty in TYPES:
        out += [("C07:what is accounted is what was allocated", fa(
            u, a.U(ty, u) == z3.If(g, used[ty], 0), a.U(ty, u), g, v)),
            ("C07:the total is the sum over the users",
             a.h("RM.total." + ty) == sumf(a.h("RM.U." + ty), D)),
            ("C07:no limit is exceeded", fa(u, z3.Implies(
                a.h("RM.maxu.%s.some" % ty), a.U(ty, u) <=
                a.h("RM.maxu." + ty)), a.U(ty, u))),
            ("C07:no limit is exceeded", z3.Implies(
                a.h("RM.maxt.%s.some" % ty), a.h("RM.total." + ty) <=
                a.h("RM.maxt." + ty)))]
    return out


class RMOp(Contract):
    mod = ()

    def entry(self, vc):
        w = vc.w
        o = w.instance(vc)
        ty = vc.ctx.choose(list(TYPES), "type")
        vc.ctx.ghost["rm_type"] = ty
        return [o, w.TUser.fresh(vc, "user"), w.sd.ResourceType[ty]], {}

    def verify(self, vc, f):
        self.mod = list(vc.w.comp_sorts)
        return Contract.verify(self, vc, f)

    def requires(self, vc, a):
        return inv_rm(St(vc))

    def update(self, vc, a, b, d):
        """ghost: d more tokens of the user, with the sum's defining facts"""
        ty = vc.ctx.ghost["rm_type"]
        uu = a["user_id"].t
        n = St(vc)
        D, D2 = b.h("RM.consumers.dom"), n.h("RM.consumers.dom")
        m = z3.Select(D2, uu)
        D3 = z3.Store(D, uu, m)
        vc.ctx.prove(D2 == D3, "C07:only this user is added or removed")
        for x in TYPES:
            A = b.h("RM.U." + x)
            A2 = z3.Store(A, uu, z3.Select(A, uu) + d) if x == ty else A
            vc.ctx.assume(sumf(A2, D3) == sumf(A, D) -
                          z3.If(z3.Select(D, uu), z3.Select(A, uu), 0) +
                          z3.If(m, z3.Select(A2, uu), 0))
            vc.hset("RM.U." + x, A2)
            if x == ty:
                vc.hset("RM.total." + x, b.h("RM.total." + x) + d)


class Allocate(RMOp):
    q = "sd.ResourceManager.allocate"

    def entry(self, vc):
        self.outcomes = [Outcome("ok"),
                         Outcome("refused", vc.w.sd.ResourceError)]
        return RMOp.entry(self, vc)

    def ensures(self, vc, a, old, label, res):
        b = St(vc, old)
        ty = vc.ctx.ghost["rm_type"]
        lim = b.limit_reached(ty, a["user_id"].t)
        if label == "refused":
            self.update(vc, a, b, 0)
            return inv_rm(St(vc)) + [("C07:refused only at a limit", lim)]
        self.update(vc, a, b, 1)
        return inv_rm(St(vc)) + [("C07:granted below the limits",
                                  z3.Not(lim))]


class Deallocate(RMOp):
    q = "sd.ResourceManager.deallocate"

    def requires(self, vc, a):
        st = St(vc)
        return RMOp.requires(self, vc, a) + [
            ("C07", st.U(vc.ctx.ghost["rm_type"], a["user_id"].t) > 0)]

    def ensures(self, vc, a, old, label, res):
        self.update(vc, a, St(vc, old), -1)
        return inv_rm(St(vc))


class InitRM(Contract):
    q = "sd.ResourceManager.__init__"

    def entry(self, vc):
        sd = vc.w.sd
        mu, mt = vc.w.limits(vc)
        vc.singletons["maxu"] = mu
        self.o = sd.ResourceManager.__new__(sd.ResourceManager)
        for ty in TYPES:
            vc.hset("RM.U." + ty, z3.K(USER, z3.IntVal(0)))
            vc.hset("RM.total." + ty, z3.IntVal(0))
            vc.ctx.assume(sumf(z3.K(USER, z3.IntVal(0)), NOUSER) == 0)
        self.mu, self.mt = mu, mt
        return [self.o, mu, mt], {}

    def requires(self, vc, a):
        h = H(vc)       # configured limits are not negative (C17)
        return [("C07", z3.And(h("RM.maxu." + t) >= 0,
                               h("RM.maxt." + t) >= 0)) for t in TYPES]

    def verify(self, vc, f):
        self.mod = list(vc.w.comp_sorts)
        return Contract.verify(self, vc, f)

    def ensures(self, vc, a, old, label, res):
        d = self.o.__dict__
        return inv_rm(St(vc)) + [
            ("C07:the configured limits apply", z3.BoolVal(
                d.get("max_user_resources") is self.mu and
                d.get("max_total_resources") is self.mt))]


class InitIdleLimit(Contract):
    q = "sd.IdleLimit.__init__"

    def entry(self, vc):
        sd = vc.w.sd
        self.outcomes = [Outcome("ok"), Outcome("refused", ValueError)]
        self.o = sd.IdleLimit.__new__(sd.IdleLimit)
        return [self.o, SInt(vc.ctx.fresh("lo", I)),
                SInt(vc.ctx.fresh("hi", I))], {}

    def ensures(self, vc, a, old, label, res):
        lo, hi = [a[n].t for n in list(a)[1:]]
        ok = z3.And(lo >= 1, lo <= hi)
        if label == "refused":
            return [("C16:only bad limits are refused", z3.Not(ok))]
        d = self.o.__dict__
        return [("C16:idle limits are sane", z3.And(
            ok, TInt().enc(vc, d["idle_min"])[0] == lo,
            TInt().enc(vc, d["idle_max"])[0] == hi))]


def units():
    return [Unit("rm", RMWorld, c, p) for c, p in (
        (Allocate(), {"C07", "C08"}), (Deallocate(), {"C07", "C08"}),
        (InitRM(), {"C07", "C08"}),
        (InitIdleLimit(), {"C16"}))]
