"""C11: paf.timer.TimerManager under contract."""
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import VC, SBound
from pyvc.loops import LoopSpec, WhileSpec
from pyvc.runner import Unit

TIM = sort("Timer")


def handler_call(vc, f, args, kw):
    """A timer handler: may add and remove timers, nothing else is known."""
    ctx = vc.ctx
    if args or kw:
        raise ProgExc(TypeError("handler takes no arguments"))
    head = ctx.ghost.get("head")
    if head is None:
        ctx.prove(z3.BoolVal(False), "C11:handler called outside processing")
        return None
    h = H(vc)
    first = head.at("TM.deque.at", 0)
    ctx.prove(f.t == h.at("Timer.handler", first),
              "C11:the fired handler is that of the earliest timer")
    nows = ctx.ghost.get("nows", ())
    exp = h.at("Timer.expiration_time", first)
    ctx.prove(z3.Or(*[exp <= n for n in nows]) if nows else
              z3.BoolVal(False), "C11:never fired early")
    j = z3.Int("j")
    ctx.prove(h("TM.deque.len") == head("TM.deque.len") - 1,
              "C11:timer removed before its handler runs")
    ctx.prove(z3.ForAll([j], z3.Implies(
        z3.And(j >= 0, j < h("TM.deque.len")),
        h.at("TM.deque.at", j) == head.at("TM.deque.at", j + 1)),
        patterns=[h.at("TM.deque.at", j)]),
        "C11:no other timer lost when firing")
    ctx.ghost["fired"] = ctx.ghost.get("fired", 0) + 1
    tok0 = told_ok(h)
    for m in ("TM.deque.len", "TM.deque.at", "TM.told.some", "TM.told"):
        vc.havoc(m)
    n = H(vc)
    ctx.assume(z3.And(*[g for _, g in wf(n)]))
    ctx.assume(z3.Implies(tok0, told_ok(n)))
    # anything still in the queue that was there before, or was just added
    return None


def cb_call(vc, f, args, kw):
    """next_timeout_cb: the owner re-reads next_timeout()."""
    if args or kw:
        raise ProgExc(TypeError("callback takes no arguments"))
    h = H(vc)
    vc.hset("TM.told.some", h("TM.deque.len") > 0)
    vc.hset("TM.told", z3.If(h("TM.deque.len") > 0,
                             h.at("Timer.expiration_time",
                                  h.at("TM.deque.at", 0)), h("TM.told")))
    vc.ctx.ghost["notified"] = True


def told_ok(h):
    ln = h("TM.deque.len")
    return z3.Or(z3.Not(h("TM.cb.some")), z3.And(
        h("TM.told.some") == (ln > 0),
        z3.Implies(ln > 0, h("TM.told") == h.at(
            "Timer.expiration_time", h.at("TM.deque.at", 0)))))


def wf(h):
    i, j = z3.Ints("i j")
    ln = h("TM.deque.len")
    exp = lambda k: h.at("Timer.expiration_time", h.at("TM.deque.at", k))
    return [("C11", ln >= 0),
            ("C11", z3.ForAll([i, j], z3.Implies(
                z3.And(0 <= i, i < j, j < ln), exp(i) <= exp(j)),
                patterns=[z3.MultiPattern(h.at("TM.deque.at", i),
                                          h.at("TM.deque.at", j))])),
            ("C11", z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < ln),
                h.at("Timer.alive", h.at("TM.deque.at", i))),
                patterns=[h.at("TM.deque.at", i)]))]


def now_hook(vc, t):
    g = vc.ctx.ghost
    nows = g.get("nows", ())
    if nows:
        vc.ctx.assume(t >= nows[-1])
    g["nows"] = nows + (t,)


class TimerWorld(World):
    def __init__(self, index):
        World.__init__(self, index)
        tm = index.modules["timer"]
        self.tm = tm
        self.THandler = TFn("handler", handler_call)
        self.TCb = TFn("cb", cb_call)
        self.heap_class("Timer", None, {"handler": self.THandler,
                                        "expiration_time": TReal()},
                        {"__eq__": timer_eq})
        self.TSEQ = TSeq(TRef("Timer"))
        self.cell("TM.deque", self.TSEQ)
        self.cell("TM.cb", TOpt(self.TCb))
        self.ghost("TM.told.some", B)
        self.ghost("TM.told", R)
        self.native_fields[tm.TimerManager] = {
            "deque": (self.TSEQ, "TM.deque"),
            "next_timeout_cb": (TOpt(self.TCb), "TM.cb")}
        self.intercepts[tm.Timer] = new_timer

    def instance(self, vc):
        o = self.tm.TimerManager.__new__(self.tm.TimerManager)
        o.__dict__["deque"] = vc.cell("TM.deque", self.TSEQ)
        from pyvc.interp import CellValue
        o.__dict__["next_timeout_cb"] = CellValue("TM.cb", TOpt(self.TCb))
        vc.ctx.ghost["now_hook"] = now_hook
        return o

    def while_spec(self, vc, env, st):
        if not env.fname.startswith("timer."):
            return None
        return WhileSpec("%s" % env.fname.split(".")[-1], candidates, variants,
                         inv=loop_inv, on_head=on_head, term_tag="C11")


def timer_eq(vc, a, b):
    h = H(vc)
    return z3.And(h.at("Timer.handler", a.t) == h.at("Timer.handler", b.t),
                  h.at("Timer.expiration_time", a.t) ==
                  h.at("Timer.expiration_time", b.t))


def new_timer(vc, handler=None, expiration_time=None):
    r = vc.new_ref("Timer")
    vc.set_field("Timer", "handler", r.t, handler)
    vc.set_field("Timer", "expiration_time", r.t, expiration_time)
    vc.ctx.ghost["new_timer"] = r
    return r


def loop_inv(vc, env, pre):
    out = list(wf(H(vc)))
    g = vc.ctx.ghost
    if g.get("head") is not None and g.get("fired") is not None:
        same = seq_same(H(vc), g["head"])
        out.append(("C11:a timer leaves the queue only by firing",
                    z3.Or(same, z3.BoolVal(g["fired"] == 1))))
    return out


def seq_same(a, b):
    j = z3.Int("j")
    return z3.And(a("TM.deque.len") == b("TM.deque.len"),
                  z3.ForAll([j], z3.Implies(
                      z3.And(j >= 0, j < a("TM.deque.len")),
                      a.at("TM.deque.at", j) == b.at("TM.deque.at", j)),
                      patterns=[a.at("TM.deque.at", j)]))


def on_head(vc, env):
    vc.ctx.ghost["head"] = H(vc)
    vc.ctx.ghost["fired"] = 0


def locals_of(env, kinds):
    return [(n, v) for n, v in sorted(env.vars.items())
            if isinstance(v, kinds) and not isinstance(v, bool) and
            not n.startswith("%")]


def int_t(v):
    return z3.IntVal(v) if isinstance(v, int) else v.t


def candidates(vc, env):
    h = H(vc)
    ln = h("TM.deque.len")
    j = z3.Int("j")
    out = []
    ints = locals_of(env, (int, SInt))
    reals = [(n, as_real(v)) for n, v in locals_of(env, (SReal,))]
    at = h.at("TM.deque.at", j)
    exp = h.at("Timer.expiration_time", at)

    def q(lo, hi, f):
        return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), f),
                         patterns=[at])
    for n, v in ints:
        v = int_t(v)
        out.append((n + ">=0", v >= 0))
        out.append((n + "<=len", v <= ln))
        for m, t in reals:
            out.append(("before %s <%s" % (n, m), q(0, v, exp < t)))
            out.append(("before %s <=%s" % (n, m), q(0, v, exp <= t)))
            out.append(("from %s >%s" % (n, m), q(v, ln, exp > t)))
            out.append(("from %s >=%s" % (n, m), q(v, ln, exp >= t)))
        for n2, v2 in ints:
            if n2 != n:
                out.append(("%s<%s" % (n, n2), v < int_t(v2)))
                out.append(("%s<=%s" % (n, n2), v <= int_t(v2)))
    for n, v in sorted(env.vars.items()):
        if isinstance(v, (bool, SBool)):
            b = vc.boolt(v)
            out.append(("%s or told" % n, z3.Or(b, told_ok(h))))
            out.append(("not %s or told" % n, z3.Or(z3.Not(b), told_ok(h))))
    out.append(("told", told_ok(h)))
    return out


def variants(vc, env):
    h = H(vc)
    out = []
    ints = locals_of(env, (int, SInt))
    if not ints:
        return None
    for n, v in ints:
        out.append(h("TM.deque.len") - int_t(v))
        out.append(int_t(v))
        for n2, v2 in ints:
            if n2 != n:
                out.append(int_t(v) - int_t(v2))
    return out


class TMContract(Contract):
    mod = ("TM.deque.len", "TM.deque.at", "TM.told.some", "TM.told",
           "Timer.alive", "Timer.handler", "Timer.expiration_time")

    def requires(self, vc, a):
        return wf(H(vc))

    def told(self, old, new):
        return [("C11:next-timeout notification", z3.Implies(
            told_ok(old), told_ok(new)))]


class Add(TMContract):
    q = "timer.TimerManager.add"

    def entry(self, vc):
        hd = SFn(vc.w.THandler, vc.ctx.fresh("handler", sort("Fn_handler")))
        return [vc.w.instance(vc), hd, SReal(vc.ctx.fresh("t", R)),
                SBool(vc.ctx.fresh("relative", B))], {}

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        g = vc.ctx.ghost
        p = g.get("inserted_at")
        t = g.get("new_timer")
        if p is None or not isinstance(res, SRef):
            return [("C11:timer added", z3.BoolVal(False))]
        j = z3.Int("j")
        n0 = old("TM.deque.len")
        at0 = lambda k: old.at("TM.deque.at", k)
        at1 = lambda k: new.at("TM.deque.at", k)
        exp = as_real(a["expiration_time"])
        rel = vc.boolt(a["relative"])
        nows = g.get("nows", ())
        e = new.at("Timer.expiration_time", res.t)
        out = [("C11:timer added",
                z3.And(new("TM.deque.len") == n0 + 1, p >= 0, p <= n0,
                       at1(p) == res.t)),
               ("C11:other timers kept", z3.ForAll([j], z3.Implies(
                   z3.And(0 <= j, j < p), at1(j) == at0(j)),
                   patterns=[at1(j)])),
               ("C11:other timers kept", z3.ForAll([j], z3.Implies(
                   z3.And(p < j, j <= n0), at1(j) == at0(j - 1)),
                   patterns=[at1(j)])),
               ("C11:expiration as asked", z3.Implies(z3.Not(rel), e == exp)),
               ("C11:expiration as asked", z3.Implies(rel, z3.Or(
                   *[e == exp + n for n in nows]) if nows else
                   z3.BoolVal(False))),
               ("C11:handler as asked", new.at("Timer.handler", res.t) ==
                a["handler"].t)]
        return wf(new) + out + self.told(old, new)


class Remove(TMContract):
    q = "timer.TimerManager.remove"
    mod = ("TM.deque.len", "TM.deque.at", "TM.told.some", "TM.told")

    def entry(self, vc):
        t = SRef("Timer", vc.ctx.fresh("timer", TIM))
        p = vc.ctx.fresh("p", I)
        h = H(vc)
        vc.ctx.assume(z3.And(p >= 0, p < h("TM.deque.len"),
                             h.at("TM.deque.at", p) == t.t))
        return [vc.w.instance(vc), t], {}

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        j = z3.Int("j")
        n1 = new("TM.deque.len")
        at0 = lambda k: old.at("TM.deque.at", k)
        at1 = lambda k: new.at("TM.deque.at", k)
        p = vc.ctx.ghost.get("removed_at", z3.IntVal(0))
        t0 = SRef("Timer", at0(p))
        return wf(new) + [
            ("C11:exactly one timer removed",
             z3.And(n1 == old("TM.deque.len") - 1, p >= 0, p <= n1)),
            ("C11:the given timer removed", timer_eq(vc, t0, a["timer"])),
            ("C11:other timers kept", z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < p), at1(j) == at0(j)),
                patterns=[at1(j)])),
            ("C11:other timers kept", z3.ForAll([j], z3.Implies(
                z3.And(p <= j, j < n1), at1(j) == at0(j + 1)),
                patterns=[at1(j)]))] + self.told(old, new)


class Process(TMContract):
    q = "timer.TimerManager.process"
    mod = TMContract.mod

    def requires(self, vc, a):
        h = H(vc)
        return wf(h) + [("C11", told_ok(h))]

    def entry(self, vc):
        return [vc.w.instance(vc)], {}

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        j = z3.Int("j")
        g = vc.ctx.ghost
        nows = g.get("nows", ())
        out = wf(new)
        if not nows:
            return out + [("C11:all due timers fired",
                           new("TM.deque.len") == 0)]
        out.append(("C11:all due timers fired", z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < new("TM.deque.len")),
            new.at("Timer.expiration_time", new.at("TM.deque.at", j)) >
            nows[0]), patterns=[new.at("TM.deque.at", j)])))
        if g.get("fired") == 0:
            out.append(("C11:a timer leaves the queue only by firing",
                        seq_same(new, g["head"])))
        return out + self.told(old, new)


class NextTimeout(TMContract):
    q = "timer.TimerManager.next_timeout"
    mod = ()

    def entry(self, vc):
        return [vc.w.instance(vc)], {}

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        n = new("TM.deque.len")
        if res is None:
            return [("C11:next timeout", n == 0)]
        if isinstance(res, SOpt):
            some, v = res.some, res.val
        else:
            some, v = z3.BoolVal(True), res
        e = as_real(v)
        j = z3.Int("j")
        at = new.at("TM.deque.at", j)
        return [("C11:next timeout", some == (n > 0)),
                ("C11:next timeout is pending", z3.Implies(some, z3.And(
                    n > 0, e == new.at("Timer.expiration_time",
                                       new.at("TM.deque.at", 0))))),
                ("C11:next timeout is the earliest", z3.Implies(
                    some, z3.ForAll([j], z3.Implies(
                        z3.And(j >= 0, j < n),
                        e <= new.at("Timer.expiration_time", at)),
                        patterns=[at])))]


class Empty(TMContract):
    q = "timer.TimerManager.empty"
    mod = ()

    def entry(self, vc):
        return [vc.w.instance(vc)], {}

    def ensures(self, vc, a, old, label, res):
        return [("C11:empty", vc.boolt(res) == (H(vc)("TM.deque.len") == 0))]


class Init(TMContract):
    q = "timer.TimerManager.__init__"
    mod = TMContract.mod + ("TM.cb.some", "TM.cb")

    def entry(self, vc):
        o = vc.w.tm.TimerManager.__new__(vc.w.tm.TimerManager)
        vc.hset("TM.told.some", z3.BoolVal(False))
        return [o, TOpt(vc.w.TCb).fresh(vc, "cb")], {}

    def requires(self, vc, a):
        return []

    def ensures(self, vc, a, old, label, res):
        new = H(vc)
        return wf(new) + [("C11:empty at start", new("TM.deque.len") == 0),
                          ("C11:next-timeout notification", told_ok(new))]


def units():
    us = []
    for c in (Init, Add, Remove, Process, NextTimeout, Empty):
        us.append(Unit("timer", TimerWorld, c(), {"C11"}))
    return us


ASSUMES = {"C11": [
    "time.time() does not go backwards within one TimerManager call",
    "expiration times are treated as real numbers (IEEE rounding and NaN are "
    "outside the proof)",
    "timer handlers do not raise; they act on the timer manager only through "
    "add/remove (C13 covers what the server's handlers may raise)",
    "Timer tuples compare by (handler, expiration time): removing one of two "
    "equal timers removes an indistinguishable one"]}
