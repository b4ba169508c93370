"""C27: the start of the server process (paf.daemon) under contract: what the
command line and the configuration ask for is what is served and logged."""
import ast
import getopt
import importlib
import inspect
import os
import sys
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import BuiltinMethod
from pyvc.loops import LoopSpec
from pyvc.runner import Unit
from .jsonval import S, STR
from .conf import (SY, TY, Y, LST, YLoc, ConfWorld, SetName, yterm, jseq, llen,
                   lat, code, sane, NAMES, LOG, EMPTYD)

# options: letter, takes an argument
OPTIONS = {"f": True, "m": True, "s": False, "b": True, "x": True, "o": True,
           "n": False, "u": True, "l": True, "y": True, "c": True, "r": True,
           "v": False, "h": False}
LETTERS = sorted(OPTIONS)
NO = {x: i for i, x in enumerate(LETTERS)}
i_, j_ = z3.Int("i"), z3.Int("j")
IA = z3.ArraySort(I, I)
YA = z3.ArraySort(I, Y)
one = z3.Function("list_of_one", Y, LST)
plus = z3.Function("parts_between_plus", STR, LST)
is_num = z3.Function("text_is_integer", STR, B)
num = z3.Function("text_as_integer", STR, I)
SOCKS = "DomainConf.sockets"


def txt(vc, v):
    v = vc.force(v)
    t = yterm(vc, v)
    if not vc.ctx.entails(Y.is_str(t)):
        raise Unsupported("%r is no text" % (v,))
    return t


def as_list(vc, v):
    """a list, as a part of a document"""
    v = vc.force(v)
    if isinstance(v, SSeq) and isinstance(v.loc, YLoc):
        return Y.list(v.loc.l)
    if isinstance(v, Domain):
        v.escaped = True
        l = vc.ctx.fresh("domain", LST)
        n, at = v.loc.get(0), v.loc.get(1)
        vc.ctx.assume(llen(l) == n)
        vc.ctx.assume(z3.ForAll([i_], z3.Implies(
            z3.And(i_ >= 0, i_ < n),
            z3.Select(lat(l), i_) == z3.Select(at, i_)),
            patterns=[z3.Select(lat(l), i_)]))
        return Y.list(l)
    if isinstance(v, list) and len(v) == 1:
        vc.escape(v)
        return Y.list(one(txt(vc, v[0])))
    return yterm(vc, v)


class TYL(TY):
    """lists of texts"""
    def enc(self, vc, v):
        return [as_list(vc, v)]


class Domain(SSeq):
    """the list of a domain's addresses, while it is filled"""
    escaped = False

    def append(self, v):
        if self.escaped:
            raise Unsupported("a list changed after it was used")
        SSeq.append(self, v)


class Opt(Sym):
    """'-x'"""
    def __init__(self, t):
        self.t = t

    def sym_eq(self, vc, o):
        o = vc.force(o)
        if isinstance(o, Opt):
            return mkbool(self.t == o.t)
        if isinstance(o, str) and len(o) == 2 and o[0] == "-" and o[1] in NO:
            return mkbool(self.t == NO[o[1]])
        return False

    def sym_is(self, vc, o):
        if o is None:
            return False
        raise Unsupported("'is' on an option")

    def sym_truth(self, vc):
        return True

    def sym_hash(self, vc):
        pass

    def sym_str(self, vc):
        return SText()


class Arg(SY):
    """the argument of an option"""
    def sym_int(self, vc):
        s = Y.ys(self.t)
        if vc.ctx.branch(is_num(s), "is a number"):
            return SInt(num(s))
        raise ProgExc(ValueError("invalid literal for int()"))

    def sym_getattr(self, vc, name):
        if name == "split":
            def split(sep=None, n=-1):
                if sep != "+" or n != -1:
                    raise Unsupported("split(%r)" % (sep,))
                return jseq(vc, plus(Y.ys(self.t)))
            return BuiltinMethod(name, self, split)
        return SY.sym_getattr(self, vc, name)


class TPair(T):
    def comps(self):
        return [(".opt", I), (".val", Y)]

    def enc(self, vc, v):
        raise Unsupported("storing an option")

    def dec(self, vc, terms):
        vc.ctx.assume(z3.And(terms[0] >= 0, terms[0] < len(LETTERS),
                             Y.is_str(terms[1])))
        return (Opt(terms[0]), Arg(terms[1]))


class Loc:
    ref = None
    name = "CommandLine"

    def __init__(self, what, *terms):
        self.what, self.terms = what, terms

    def get(self, i):
        return self.terms[i]


class Argv(Sym):
    def __init__(self, rest=False):
        self.rest = rest

    def sym_getitem(self, vc, i):
        i = vc.force(i)
        if not self.rest and i == 0:
            return "pafd"
        if not self.rest and isinstance(i, slice) and \
           (i.start, i.stop, i.step) == (1, None, None):
            return Argv(True)
        raise Unsupported("argv[%r]" % (i,))


class Obj(Sym):
    def __init__(self, **k):
        self.__dict__.update(k)

    def sym_is(self, vc, o):
        return self is o

    def sym_eq(self, vc, o):
        return self is o

    def sym_truth(self, vc):
        return True


class Loop(Obj):
    """the event loop"""
    def sym_getattr(self, vc, name):
        if name == "run":
            return BuiltinMethod(name, self, lambda: vc.w.loop_run(vc, self))
        raise Unsupported("event loop's %s" % name)


class DaemonWorld(ConfWorld):
    comp_loops = True

    def __init__(self, index):
        ConfWorld.__init__(self, index)
        index.load("daemon")
        self.d = importlib.import_module("paf.daemon")
        m = index.modules
        self.srv = m["server"]
        self.heap_class("Server", self.srv.Server, {})
        for n in ("i", "terminated", "closed"):
            self.ghost("Server." + n, z3.ArraySort(sort("Server"), I))
        self.servers = TSeq(TRef("Server"))
        self.cell("servers", self.servers)
        self.ghost("made", I)
        self.doms = TSeq(TYL())
        self.cell("doms", self.doms)
        self.dom = TSeq(TY())
        self.cell("dom", self.dom)
        w = self.intercepts
        lg = m["logging"]
        for n in ("info", "exception", "debug", "warning"):
            if hasattr(lg, n):
                w[getattr(lg, n)] = lambda vc, *a, **k: None
        w[print] = lambda vc, *a, **k: None
        w[sys.exit] = self.exit

    def format_hook(self, vc, fmt, specs, vals):
        for s, v in zip(specs, vals):
            if s in "di" and isinstance(v, SY):
                return ConfWorld.format_hook(self, vc, fmt, specs, vals)
        return SText()

    def exit(self, vc, status=None):
        raise ProgExc(SystemExit(status))

    def loop_spec(self, vc, env, coll, st):
        f = vc.ctx.ghost.get("loops")
        return f(vc, env, coll, st) if f else None

    def seq_comp(self, vc, coll, fn):
        """[[x] for x in <arguments>]"""
        if not isinstance(coll, SSeq) or \
           getattr(coll.loc, "what", None) != "args" or \
           vc.ctx.ghost.get("doms"):
            return None
        n, at = coll.loc.terms
        i = vc.ctx.fresh("i", I)

        def body():
            vc.ctx.assume(z3.And(i >= 0, i < n))
            r = fn(coll.at(i))
            return None if r is None else as_list(vc, r[0])
        res = vc.ctx.sub_explore(body)
        if len(res) != 1:
            return None
        outcome, v, conds, heap, written, fresh = res[0]
        if outcome != "ok" or v is None or written or \
           any(mentions(c, fresh) for c in conds) or mentions(v, fresh):
            return None
        a = vc.ctx.fresh("domains", YA)
        vc.ctx.assume(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < n), z3.Select(a, i) == v),
            patterns=[z3.Select(a, i)]))
        vc.ctx.ghost["doms"] = True
        vc.hset("doms.len", n)
        vc.hset("doms.at", a)
        return vc.cell("doms", self.doms)


def axioms(vc):
    a = vc.ctx.assume
    y, s = z3.Const("y", Y), z3.Const("s", STR)
    l = z3.Const("l", LST)
    a(z3.ForAll([y], z3.And(llen(one(y)) == 1,
                            z3.Select(lat(one(y)), 0) == y),
                patterns=[one(y)]))
    a(z3.ForAll([s], llen(plus(s)) >= 1, patterns=[plus(s)]))
    a(z3.ForAll([s, i_], z3.Implies(
        z3.And(i_ >= 0, i_ < llen(plus(s))),
        Y.is_str(z3.Select(lat(plus(s)), i_))),
        patterns=[z3.Select(lat(plus(s)), i_)]))


def exit_status(e):
    if not isinstance(e.args, tuple) or len(e.args) > 1:
        raise Unsupported("exit status")
    return e.args[0] if e.args else None


def fill_loop(vc, env, st, cell, ty, flag, cls=None):
    """A list made before the loop that the loop appends to."""
    names = {n.func.value.id for b in st.body for n in ast.walk(b)
             if isinstance(n, ast.Call) and
             isinstance(n.func, ast.Attribute) and
             n.func.attr == "append" and isinstance(n.func.value, ast.Name)}
    for n in sorted(names):
        v = env.vars.get(n)
        if type(v) is list and not v and \
           id(v) not in vc.ctx.escaped and \
           sum(1 for x in env.vars.values() if x is v) == 1:
            if flag and vc.ctx.ghost.get(flag):
                raise Unsupported("several lists")
            if flag:
                vc.ctx.ghost[flag] = True
            vc.hset(cell + ".len", z3.IntVal(0))
            env.vars[n] = cls(vc, HeapLoc(vc, cell, None, ty.comps()), ty) \
                if cls else vc.cell(cell, ty)
            return


# ------------------------------------------------------------ set_domains
class SetDomains(Contract):
    """each list of addresses becomes a domain with default settings"""
    q = "conf.Conf.set_domains"
    exc_tag = "C27"
    covers = ["conf.Conf.set_domains"]

    def verify(self, vc, f):
        ctx = vc.ctx
        axioms(vc)
        c = vc.new_ref("Conf")
        for _, g in sane(vc, H(vc), c.t):
            ctx.assume(g)
        l = ctx.fresh("domains", LST)
        x = z3.Select(lat(l), i_)
        ctx.assume(z3.ForAll([i_], z3.Implies(
            z3.And(i_ >= 0, i_ < llen(l)),
            z3.And(Y.is_list(x), llen(Y.yl(x)) >= 0)), patterns=[x]))
        ctx.assume(llen(l) >= 0)
        pre = H(vc)
        vc.ctx.ghost["loops"] = self.loops
        vc.ctx.ghost["l"], vc.ctx.ghost["c"] = l, c.t
        try:
            self.body(vc, f, [c, jseq(vc, l)], {})
        except ProgExc as e:
            ctx.prove(z3.BoolVal(False), "C27:set_domains ends with %s" %
                      type(e.exc).__name__)
            return
        stats_cover(ctx, self.q)
        h = H(vc)
        for x in self.done(vc, h, c.t, l, llen(l)):
            ctx.prove(x, "C27:the domains are those given, each with its "
                      "addresses and default settings")
        for n in ("log", "resources"):
            ctx.prove(h.at("Conf." + n, c.t) == pre.at("Conf." + n, c.t),
                      "C27:setting the domains changes nothing else")
        for n in ["LogConf." + k for k in LOG]:
            ctx.prove(h(n) == pre(n),
                      "C27:setting the domains changes nothing else")

    def is_domain(self, vc, h, r, t, n):
        s = z3.Select(h.at(SOCKS + ".at", r), j_)
        from .conf import SOCK
        return z3.And(
            h.at("DomainConf.alive", r), Y.is_null(h.at("DomainConf.name",
                                                        r)),
            h.at("DomainConf.proto_version_limit.lo", r) == 2,
            h.at("DomainConf.proto_version_limit.hi", r) == 3,
            h.at("DomainConf.idle_limit.lo", r) == 4,
            h.at("DomainConf.idle_limit.hi", r) == 30,
            h.at(SOCKS + ".len", r) == n,
            z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < n), z3.And(
                SOCK.addr(s) == z3.Select(lat(Y.yl(t)), j_),
                SOCK.tls(s) == EMPTYD)), patterns=[s]))

    def done(self, vc, h, c, l, n):
        at = h.at("Conf.domains.at", c)
        r, r2 = z3.Select(at, i_), z3.Select(at, j_)
        t = z3.Select(lat(l), i_)
        return [h.at("Conf.domains.len", c) == n,
                z3.ForAll([i_], z3.Implies(
                    z3.And(i_ >= 0, i_ < n),
                    self.is_domain(vc, h, r, t, llen(Y.yl(t)))),
                    patterns=[r])]

    def loops(self, vc, env, coll, st):
        if not isinstance(coll, SSeq) or not isinstance(coll.loc, YLoc):
            return None
        l, c = vc.ctx.ghost["l"], vc.ctx.ghost["c"]
        if vc.ctx.entails(coll.loc.l == l):
            def inv(vc, env, p, D, pre):
                h, h0 = H(vc), H(vc, pre)
                out = [("C27:the domains so far", x)
                       for x in self.done(vc, h, c, l, p)]
                for s in (".len", ".at"):
                    n = "Conf.domains" + s
                    out.append(("C27:one configuration", h(n) == z3.Store(
                        h0(n), c, h.at(n, c))))
                return out

            def start(vc, env, p):
                vc.ctx.ghost["p"] = p
            return LoopSpec("domains", inv, start=start)
        p = vc.ctx.ghost.get("p")
        if p is None:
            return None
        t = z3.Select(lat(l), p)
        if vc.ctx.entails(coll.loc.l == Y.yl(t)):
            h0 = H(vc)
            n = h0.at("Conf.domains.len", c)
            r = z3.Select(h0.at("Conf.domains.at", c), n - 1)

            def inner(vc, env, q, D, pre):
                h, h0 = H(vc), H(vc, pre)
                out = [("C27:the sockets so far",
                        self.is_domain(vc, h, r, t, q))]
                for s in (".len", ".at"):
                    m = SOCKS + s
                    out.append(("C27:one domain", h(m) == z3.Store(
                        h0(m), r, h.at(m, r))))
                return out
            return LoopSpec("sockets", inner)
        return None


# -------------------------------------------------------------------- run
class Run(Contract):
    """the servers made, run and shut down"""
    q = "daemon.run"
    exc_tag = "C27"
    covers = ["daemon.run:ended", "daemon.run:failed"]

    def verify(self, vc, f):
        ctx, w = vc.ctx, vc.w
        ok = lambda x, n: ctx.prove(
            x if z3.is_expr(x) else z3.BoolVal(bool(x)), "C27:" + n)
        c = self.c = vc.new_ref("Conf").t
        for _, x in sane(vc, H(vc), c):
            ctx.assume(x)
        h = self.h0 = H(vc)
        self.n = h.at("Conf.domains.len", c)
        ctx.assume(self.n >= 0)
        vc.hset("made", z3.IntVal(0))
        vc.ctx.ghost["loops"] = self.loops
        hook = None if ctx.choose(["none", "given"], "hook") == "none" else \
            SY(Y.str(ctx.fresh("hook", STR)))
        if hook is not None:
            if not hasattr(w.d, "run_hook"):
                raise Unsupported("no run_hook")

            def run_hook(vc, x, servers):
                ok(isinstance(x, SY) and vc.ctx.entails(x.t == hook.t),
                   "the hook is the one given")
                ok(self.is_list(vc, servers) and H(vc)("servers.len") ==
                   self.n, "the hook is given the servers")
                ok(not vc.ctx.ghost.get("hooked"), "the hook is called once")
                vc.ctx.ghost["hooked"] = True
                if vc.ctx.choose(["returns", "fails"], "hook") == "fails":
                    vc.ctx.ghost["hook failed"] = True
                    raise ProgExc(SystemExit(1))
            w.intercepts[w.d.run_hook] = run_hook
        w.intercepts[importlib.import_module("paf.eventloop").EventLoop] = \
            self.event_loop
        sig = inspect.signature(w.srv.Server)

        def create(vc, *a, **k):
            try:
                b = sig.bind(*a, **k)
            except TypeError as e:
                raise ProgExc(e)
            return self.create(vc, ok, b.arguments)
        w.intercepts[w.srv.Server] = create
        w.intercepts[w.srv.Server.terminate] = lambda vc, s: self.end(
            vc, s, "terminated")
        w.intercepts[w.srv.Server.close_server_socks] = \
            lambda vc, s: self.end(vc, s, "closed")
        w.loop_run = lambda vc, o: self.loop_run(vc, ok, o)
        status = 0
        try:
            self.body(vc, f, [SRef("Conf", c)] +
                      ([hook] if hook is not None else []), {})
        except ProgExc as e:
            if not isinstance(e.exc, SystemExit):
                ok(False, "run ends with unexpected %s" %
                   type(e.exc).__name__)
                return
            status = exit_status(e.exc)
        if isinstance(status, Sym) or not (status is None or
                                           isinstance(status, (int, str))):
            raise Unsupported("exit status %r" % (status,))
        h = H(vc)
        if status in (0, None):
            ok(vc.ctx.ghost.get("ran") and not vc.ctx.ghost.get("failed"),
               "success is the end of the event loop")
            ok(hook is None or vc.ctx.ghost.get("hooked"),
               "the hook is called")
            ok(z3.ForAll([i_], z3.Implies(
                z3.And(i_ >= 0, i_ < self.n),
                h.at("Server.terminated", z3.Select(h("servers.at"), i_))
                == 1), patterns=[z3.Select(h("servers.at"), i_)]),
               "each server is shut down, once")
            ok(h("made") == self.n, "one server for each domain")
            stats_cover(ctx, "daemon.run:ended")
            return
        ok(vc.ctx.ghost.get("failed") or vc.ctx.ghost.get("hook failed"),
           "failure is reported only when something has failed")
        stats_cover(ctx, "daemon.run:failed")
        if vc.ctx.ghost.get("hook failed"):
            return
        r = z3.Select(h("servers.at"), i_)
        ok(z3.ForAll([i_], z3.Implies(
            z3.And(i_ >= 0, i_ < h("made")),
            h.at("Server.terminated", r) + h.at("Server.closed", r) >= 1),
            patterns=[r]), "no socket stays open after a failure")

    def is_list(self, vc, v):
        v = vc.force(v)
        return isinstance(v, SSeq) and v.loc.name == "servers"

    def event_loop(self, vc, *a):
        if "event loop" in vc.ctx.ghost:
            raise Unsupported("several event loops")
        vc.ctx.ghost["event loop"] = o = Loop()
        return o

    def create(self, vc, ok, a):
        ctx, h = vc.ctx, H(vc)
        if "p" not in vc.ctx.ghost:
            raise Unsupported("a server made outside the loop over domains")
        if vc.ctx.choose(["made", "fails"], "server") == "fails":
            vc.ctx.ghost["failed"] = True
            raise ProgExc(Exception("..."))
        d = z3.Select(self.h0.at("Conf.domains.at", self.c), vc.ctx.ghost["p"])
        rs = h.at("Conf.resources", self.c)
        ok(yterm(vc, a["name"]) == h.at("DomainConf.name", d),
           "a server has its domain's name")
        s = vc.force(a["sockets"])
        ok(isinstance(s, SSeq) and z3.And(
            s.loc.get(0) == h.at(SOCKS + ".len", d),
            s.loc.get(1) == h.at(SOCKS + ".at", d)),
            "a server has its domain's sockets")
        for p, n in (("max_user_resources", "user"),
                     ("max_total_resources", "total")):
            v = vc.force(a[p])
            r = h.at("ResourcesConf." + n, rs)
            t = TEnumDict(vc.w.sd.ResourceType, TY())
            ok(z3.And(*[x == h.at("ResourcesClassConf.resources" + s, r)
                        for x, (s, _) in zip(t.enc(vc, v), t.comps())]),
               "a server has the %s limits of the configuration" % n)
        for p, lo, hi in (
                ("proto_version_limit", "version_min", "version_max"),
                ("idle_limit", "idle_min", "idle_max")):
            v = vc.force(a[p])
            ok(z3.And(*[TInt().enc(vc, getattr(v, x))[0] ==
                        h.at("DomainConf.%s.%s" % (p, e), d)
                        for x, e in ((lo, "lo"), (hi, "hi"))]),
               "a server has its domain's %s" % p)
        ok(a["event_loop"] is vc.ctx.ghost.get("event loop"),
           "a server uses the event loop")
        r = vc.new_ref("Server")
        m = h("made")
        for n, v in (("i", m), ("terminated", z3.IntVal(0)),
                     ("closed", z3.IntVal(0))):
            k = "Server." + n
            vc.hset(k, z3.Store(vc.hget(k), r.t, v))
        vc.hset("made", m + 1)
        return r

    def end(self, vc, s, how):
        k = "Server." + how
        vc.hset(k, z3.Store(vc.hget(k), s.t,
                            z3.Select(vc.hget(k), s.t) + 1))

    def loop_run(self, vc, ok, o):
        h = H(vc)
        ok(not vc.ctx.ghost.get("ran"), "the event loop is run once")
        ok(h("made") == self.n, "the event loop is run when all servers are "
           "there")
        r = z3.Select(h("servers.at"), i_)
        ok(z3.ForAll([i_], z3.Implies(
            z3.And(i_ >= 0, i_ < h("made")),
            h.at("Server.terminated", r) + h.at("Server.closed", r) == 0),
            patterns=[r]), "no server is shut down before")
        vc.ctx.ghost["ran"] = True
        if vc.ctx.choose(["ends", "fails"], "event loop") == "fails":
            vc.ctx.ghost["failed"] = True
            raise ProgExc(Exception("..."))

    def loops(self, vc, env, coll, st):
        if not isinstance(coll, SSeq):
            return None
        r, r2 = [z3.Select(vc.hget("servers.at"), x) for x in (i_, j_)]
        if coll.loc.name == "Conf.domains":
            fill_loop(vc, env, st, "servers", vc.w.servers, "list")
            if not vc.ctx.ghost.get("list"):
                raise Unsupported("no list of servers")

            def inv(vc, env, p, D, pre):
                h = H(vc)
                r = z3.Select(h("servers.at"), i_)
                return [("C27:one server per domain so far", z3.And(
                    h("servers.len") == p, h("made") == p)),
                    ("C27:the servers so far", z3.ForAll([i_], z3.Implies(
                        z3.And(i_ >= 0, i_ < p), z3.And(
                            h.at("Server.alive", r),
                            h.at("Server.i", r) == i_,
                            h.at("Server.terminated", r) == 0,
                            h.at("Server.closed", r) == 0)),
                        patterns=[r]))]

            def start(vc, env, p):
                vc.ctx.ghost["p"] = p

            def done(vc, env, D, pre):
                vc.ctx.ghost.pop("p", None)
            return LoopSpec("domains", inv, start=start, done=done)
        if coll.loc.name == "servers":
            n = vc.hget("servers.len")

            def inv(vc, env, p, D, pre):
                h, h0 = H(vc), H(vc, pre)
                r = z3.Select(h("servers.at"), i_)
                T, C = (lambda x, r, s="Server." + k: x.at(s, r)
                        for k in ("terminated", "closed"))
                x = T(h, r) + C(h, r) >= 1 if vc.ctx.ghost.get("failed") else \
                    T(h, r) == 1
                return [("C27:the servers shut down so far", z3.ForAll(
                    [i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.If(
                        i_ < p, x, z3.And(T(h, r) == T(h0, r),
                                          C(h, r) == C(h0, r)))),
                    patterns=[r]))]
            return LoopSpec("servers", inv)
        return None


# -------------------------------------------------------------------- main
class Main(Contract):
    q = "daemon.main"
    exc_tag = "C27"
    covers = ["daemon.main:" + x for x in (
        "run", "refused", "told", "configured", "default")]

    def verify(self, vc, f):
        ctx, w = vc.ctx, vc.w
        self.g_option = None
        axioms(vc)
        F = ctx.fresh
        self.ok = ok = lambda x, n: ctx.prove(
            x if z3.is_expr(x) else z3.BoolVal(bool(x)), "C27:" + n)
        self.n, self.opt, self.val = F("nopts", I), F("opts", IA), \
            F("vals", YA)
        self.na, self.args = F("nargs", I), F("args", YA)
        ctx.assume(z3.And(self.n >= 0, self.na >= 0))
        a = z3.Select(self.args, i_)
        ctx.assume(z3.ForAll([i_], Y.is_str(a), patterns=[a]))
        vc.ctx.ghost["loops"] = self.loops
        self.c = c = vc.new_ref("Conf").t
        for _, x in sane(vc, H(vc), c):
            ctx.assume(x)
        h = self.h0 = H(vc)
        ctx.assume(h.at("Conf.domains.len", c) >= 0)
        self.log = h.at("Conf.log", c)
        self.rs = h.at("Conf.resources", c)
        self.total = h.at("ResourcesConf.total", self.rs)
        self.define(vc)
        I_ = w.intercepts
        I_[getopt.getopt] = self.getopt
        cm = w.mod
        I_[cm.load] = self.load
        I_[cm.default] = self.default
        I_[cm.Conf.set_domains] = self.set_domains
        lg = importlib.import_module("paf.logging")
        sig = inspect.signature(lg.configure)

        def configure(vc, *a, **k):
            try:
                b = sig.bind(*a, **k)
            except TypeError as e:
                raise ProgExc(e)
            b.apply_defaults()
            return self.configure(vc, b.arguments)
        I_[lg.configure] = configure
        I_[os.getpid] = lambda vc: SInt(F("pid", I))
        if not hasattr(w.d, "run"):
            raise Unsupported("no run")
        I_[w.d.run] = self.run
        if hasattr(w.d, "usage"):
            I_[w.d.usage] = lambda vc, *a: None
        status, err = 0, False
        try:
            self.body(vc, f, [Argv()], {})
        except ProgExc as e:
            if isinstance(e.exc, SystemExit):
                status = exit_status(e.exc)
                if isinstance(status, Sym):
                    raise Unsupported("exit status")
            else:
                # reported with status 1 by the interpreter
                status = 1
                if not isinstance(e.exc, (OSError, cm.Error)) and \
                   not vc.ctx.ghost.get("external"):
                    ok(False, "main ends with unexpected %s" %
                       type(e.exc).__name__)
                    return
        if vc.ctx.ghost.get("run"):
            return
        if status in (0, None):
            ok(self.current(lambda o, v: z3.Or(o == NO["v"], o == NO["h"])),
               "nothing is started only when information is asked for")
            stats_cover(ctx, "daemon.main:told")
            return
        stats_cover(ctx, "daemon.main:refused")
        if vc.ctx.ghost.get("external"):
            return
        if "option" in vc.ctx.ghost:
            ok(self.current(lambda o, v: self.bad(vc, o, v)),
               "only a bad option is refused")
        else:
            ok(z3.And(self.count(self.n) + self.na == 0,
                      self.h0.at("Conf.domains.len", self.c) == 0),
               "only a configuration without domains is refused")

    # what the options mean: functions of the number of options so far
    def define(self, vc):
        ctx = vc.ctx
        self.fn = {}
        o, v = z3.Select(self.opt, i_), z3.Select(self.val, i_)
        rules = {k: [(x, v)] for k, x in (("file", "f"), ("hook", "r"))}
        T, F_ = (Y.bool(z3.BoolVal(b)) for b in (True, False))
        n = Y.int(num(Y.ys(v)))
        rules.update({
            "console": [("s", T)], "syslog": [("n", F_)],
            "log_file": [("o", v)], "syslog_socket": [("u", v)],
            "log_file_backup": [("b", n)], "log_file_max_size": [("x", n)],
            "filter": [("l", Y.int(code(NAMES["filter"], Y.ys(v), vc)[0]))],
            "facility": [("y", Y.int(code(NAMES["facility"], Y.ys(v),
                                          vc)[0]))],
            "clients": [("c", z3.If(num(Y.ys(v)) == 0, Y.null, n))]})
        h = self.h0
        start = {"file": Y.null, "hook": Y.null,
                 "clients": h.at("ResourcesClassConf.resources.CLIENT",
                                 self.total)}
        start.update({k: h.at("LogConf." + k, self.log) for k in LOG})
        for k, rs in rules.items():
            fn = z3.Function("option_sets_" + k, I, Y)
            self.fn[k] = fn
            ctx.assume(fn(0) == start[k])
            e = fn(i_)
            for x, y in rs:
                e = z3.If(o == NO[x], y, e)
            ctx.assume(z3.ForAll([i_], z3.Implies(i_ >= 0,
                                                  fn(i_ + 1) == e),
                                 patterns=[z3.MultiPattern(o, fn(i_))]))
        self.count = z3.Function("domain_options_before", I, I)
        self.nth = z3.Function("nth_domain_option", I, I)
        m = self.count(i_)
        is_m = o == NO["m"]
        ctx.assume(self.count(0) == 0)
        ctx.assume(z3.ForAll([i_], z3.Implies(i_ >= 0, z3.And(
            m >= 0, self.count(i_ + 1) == m + z3.If(is_m, 1, 0),
            z3.Implies(is_m, self.nth(m) == i_))),
            patterns=[z3.MultiPattern(o, m)]))

    def bad(self, vc, o, v):
        s = Y.ys(v)
        return z3.Or(
            z3.And(z3.Or(*[o == NO[x] for x in "bxc"]), z3.Not(is_num(s))),
            z3.And(o == NO["c"], num(s) < 0),
            *[z3.And(o == NO[x], z3.Not(code(NAMES[n], s, vc)[1]))
              for x, n in (("l", "filter"), ("y", "facility"))])

    def current(self, f):
        p = self.g_option
        if p is None:
            return z3.BoolVal(False)
        return f(z3.Select(self.opt, p), z3.Select(self.val, p))

    g_option = None

    # ---- what main uses
    def getopt(self, vc, args, spec, longopts=()):
        if not isinstance(args, Argv) or not args.rest or longopts or \
           not isinstance(spec, str):
            raise Unsupported("getopt")
        got = {}
        i = 0
        while i < len(spec):
            got[spec[i]] = spec[i + 1:i + 2] == ":"
            i += 2 if got[spec[i]] else 1
        self.ok({k: got.get(k) for k in OPTIONS} == OPTIONS,
                "the documented options are accepted")
        if set(got) != set(OPTIONS):
            raise Unsupported("other options")
        if vc.ctx.choose(["options", "fails"], "getopt") == "fails":
            vc.ctx.ghost["external"] = True
            raise ProgExc(getopt.GetoptError("..."))
        return (SSeq(vc, Loc("opts", self.n, self.opt, self.val),
                     TSeq(TPair())),
                SSeq(vc, Loc("args", self.na, self.args), TSeq(TArg())))

    def load(self, vc, name):
        self.once(vc)
        self.ok(z3.And(yterm(vc, name) == self.fn["file"](self.n),
                       Y.is_str(self.fn["file"](self.n))),
                "the configuration file read is the one given")
        w = vc.ctx.choose(["configuration", "no file", "bad"], "load")
        if w != "configuration":
            vc.ctx.ghost["external"] = True
            raise ProgExc(OSError("...") if w == "no file" else
                          vc.w.mod.Error("..."))
        stats_cover(vc.ctx, "daemon.main:configured")
        return SRef("Conf", self.c)

    def default(self, vc):
        self.once(vc)
        self.ok(Y.is_null(self.fn["file"](self.n)),
                "defaults apply only when no file is given")
        stats_cover(vc.ctx, "daemon.main:default")
        return SRef("Conf", self.c)

    def once(self, vc):
        if vc.ctx.ghost.get("conf"):
            raise Unsupported("several configurations")
        vc.ctx.ghost["conf"] = True

    def set_domains(self, vc, conf, l):
        l = vc.force(l)
        if not isinstance(l, SSeq) or l.loc.name != "doms":
            raise Unsupported("set_domains(%r)" % (l,))
        n, at = l.loc.get(0), l.loc.get(1)
        vc.ctx.ghost["set"] = (n, at)
        for k, v in ((".len", n), (".at", vc.ctx.fresh("doms", z3.ArraySort(
                I, sort("DomainConf"))))):
            k = "Conf.domains" + k
            vc.hset(k, z3.Store(vc.hget(k), conf.t, v))

    def configure(self, vc, a):
        h = H(vc)
        self.ok(not vc.ctx.ghost.get("log"), "the log is configured once")
        vc.ctx.ghost["log"] = True
        for k in LOG:
            p = {"facility": "syslog_facility", "filter": "filter_level"}.get(
                k, k)
            self.ok(yterm(vc, a[p]) == self.fn[k](self.n),
                    "the log's %s is as asked for" % k)
        if vc.ctx.choose(["done", "fails"], "log") == "fails":
            vc.ctx.ghost["external"] = True
            raise ProgExc(Exception("..."))

    def run(self, vc, conf, hook=None):
        h, ok = H(vc), self.ok
        vc.ctx.ghost["run"] = True
        stats_cover(vc.ctx, "daemon.main:run")
        ok(not vc.ctx.ghost.get("external"),
           "nothing is started after a failure")
        ok("option" not in vc.ctx.ghost, "all options are looked at")
        ok(vc.ctx.ghost.get("log"), "the log is configured before the start")
        ok(isinstance(conf, SRef) and conf.t == self.c,
           "what is run is the configuration")
        ok(yterm(vc, hook) == self.fn["hook"](self.n),
           "the hook is the one given")
        ok(h.at("ResourcesClassConf.resources.CLIENT", self.total) ==
           self.fn["clients"](self.n), "the client limit is as asked for")
        self.rest(vc, h)
        n, at = self.count(self.n) + self.na, None
        ok(h.at("Conf.domains.len", self.c) > 0, "there is a domain")
        if "set" in vc.ctx.ghost:
            ok(z3.And(n > 0, *self.are_domains(*vc.ctx.ghost["set"],
                                               self.n)),
               "the domains are those of the command line")
        else:
            ok(z3.And(n == 0, *[
                h("Conf.domains" + s) == self.h0("Conf.domains" + s)
                for s in (".len", ".at")]),
                "the domains are those of the configuration file")
        raise ProgExc(SystemExit(0))

    def rest(self, vc, h):
        """what no option changes"""
        h0 = self.h0
        m = "ResourcesClassConf.resources."
        rs = [h0.at("ResourcesConf." + x, self.rs) for x in ("user", "total")]
        self.ok(z3.And(
            h.at("Conf.log", self.c) == self.log,
            h.at("Conf.resources", self.c) == self.rs,
            *[h.at("ResourcesConf." + x, self.rs) == r
              for x, r in zip(("user", "total"), rs)],
            *[h.at(m + k, r) == h0.at(m + k, r) for r in rs
              for k in ("CLIENT", "SERVICE", "SUBSCRIPTION")
              if (k, r) != ("CLIENT", self.total) and not (
                  k == "CLIENT" and r is rs[1])]),
            "everything else is as in the configuration file")

    def are_domains(self, n, at, p):
        """the domains of the arguments and of the options before p"""
        def same(t, l):
            e = z3.Select(lat(Y.yl(t)), j_)
            return z3.And(Y.is_list(t), llen(Y.yl(t)) == llen(l),
                          z3.ForAll([j_], z3.Implies(
                              z3.And(j_ >= 0, j_ < llen(l)),
                              e == z3.Select(lat(l), j_)), patterns=[e]))
        x = z3.Select(at, i_)
        v = z3.Select(self.val, self.nth(i_ - self.na))
        return [n == self.na + self.count(p),
                z3.ForAll([i_], z3.Implies(
                    z3.And(i_ >= 0, i_ < self.na),
                    same(x, one(z3.Select(self.args, i_)))), patterns=[x]),
                z3.ForAll([i_], z3.Implies(
                    z3.And(i_ >= self.na, i_ < self.na + self.count(p)),
                    same(x, plus(Y.ys(v)))), patterns=[x])]

    # ---- loops
    def loops(self, vc, env, coll, st):
        if not isinstance(coll, SSeq):
            return None
        if isinstance(coll.loc, YLoc):
            fill_loop(vc, env, st, "dom", vc.w.dom, None, Domain)
            l = coll.loc.l

            def inv(vc, env, p, D, pre):
                h = H(vc)
                e = z3.Select(h("dom.at"), j_)
                return [("C27:the addresses so far", z3.And(
                    h("dom.len") == p, z3.ForAll([j_], z3.Implies(
                        z3.And(j_ >= 0, j_ < p),
                        e == z3.Select(lat(l), j_)), patterns=[e])))]
            return LoopSpec("addresses", inv, mod=["dom.len", "dom.at"])
        what = getattr(coll.loc, "what", None)
        if what == "args":
            fill_loop(vc, env, st, "doms", vc.w.doms, "doms")

            def inv(vc, env, p, D, pre):
                h = H(vc)
                n, at = h("doms.len"), h("doms.at")
                return [("C27:the domains so far", z3.And(
                    n == p, *self.args_so_far(at, p)))]
            return LoopSpec("arguments", inv, mod=["doms.len", "doms.at"])
        if what == "opts":
            return self.options_loop(vc, env, st)
        return None

    def args_so_far(self, at, p):
        keep, self.na = self.na, p
        try:
            return self.are_domains(p, at, 0)[1:2]
        finally:
            self.na = keep

    def carried(self, env, st):
        """texts remembered from options: the option each is remembered
        from"""
        out = {}
        for b in st.body:
            for n in ast.walk(b):
                if not isinstance(n, ast.If):
                    continue
                for s in n.body:
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 \
                       and isinstance(s.targets[0], ast.Name):
                        x = s.targets[0].id
                        k = {c.value for c in ast.walk(n.test)
                             if isinstance(c, ast.Constant)} & {"-f", "-r"}
                        if x in env.vars and env.vars[x] is None and \
                           len(k) == 1:
                            out[x] = {"-f": "file", "-r": "hook"}[k.pop()]
        return out

    def options_loop(self, vc, env, st):
        names = self.carried(env, st)
        acts = vc.ctx.ghost.get("conf")
        h = H(vc)
        applied = bool(acts) and not vc.ctx.ghost.get("applied")

        def inv(vc, env, p, D, pre):
            h, h0 = H(vc), H(vc, pre)
            out = [("C27:the last option of its kind counts", z3.And(
                yterm(vc, env.vars[x]) == self.fn[k](p),
                z3.Or(Y.is_null(self.fn[k](p)), Y.is_str(self.fn[k](p)))))
                for x, k in names.items()]
            out.append(("C27:options are counted", self.count(p) >= 0))
            if not applied:
                return out
            for k in LOG:
                m = "LogConf." + k
                out.append(("C27:options set %s" % k, h(m) == z3.Store(
                    h0(m), self.log, self.fn[k](p))))
            m = "ResourcesClassConf.resources.CLIENT"
            out.append(("C27:options set the client limit",
                        h(m) == z3.Store(h0(m), self.total,
                                         self.fn["clients"](p))))
            if vc.ctx.ghost.get("doms"):
                out += [("C27:the domains so far", x) for x in
                        self.are_domains(h("doms.len"), h("doms.at"), p)]
            return out

        def start(vc, env, p):
            vc.ctx.ghost["option"] = p
            self.g_option = p

        def after(vc, env, p, sig):
            o, v = z3.Select(self.opt, p), z3.Select(self.val, p)
            out = [("C27:no option is left out", z3.BoolVal(
                sig is None or sig[0] == "continue"))]
            if applied:
                out += [("C27:a bad option is refused",
                         z3.Not(self.bad(vc, o, v))),
                        ("C27:information that is asked for is given",
                         z3.And(o != NO["v"], o != NO["h"]))]
            return out

        def done(vc, env, D, pre):
            vc.ctx.ghost.pop("option", None)
            self.g_option = None
            if applied:
                vc.ctx.ghost["applied"] = True
        mod = []
        if applied:
            mod = ["LogConf." + k for k in LOG] + [
                "ResourcesClassConf.resources.CLIENT"]
            if vc.ctx.ghost.get("doms"):
                mod += ["doms.len", "doms.at"]
        return LoopSpec("options", inv, mod=mod, start=start, after=after,
                        done=done, locals={x: TYA() for x in names})


# ----------------------------------------------------------------- logging
class Logger(Sym):
    """the root logger"""
    def __init__(self):
        self.handlers = []
        self.level = None

    def sym_is(self, vc, o):
        return self is o

    def sym_truth(self, vc):
        return True

    def sym_getattr(self, vc, name):
        if name == "handlers":
            return self.handlers
        if name == "addHandler":
            return BuiltinMethod(name, self,
                                 lambda h: self.handlers.append(h))
        if name == "setLevel":
            return BuiltinMethod(name, self, self.set_level)
        raise Unsupported("logger.%s" % name)

    def set_level(self, level):
        self.level = level

    def sym_setattr(self, vc, name, v):
        v = vc.force(v)
        if name != "handlers" or type(v) is not list:
            raise Unsupported("logger.%s = %r" % (name, v))
        self.handlers = v


class Handler(Obj):
    def sym_getattr(self, vc, name):
        if name in self.attrs:
            return self.attrs[name]
        raise Unsupported("handler's %s" % name)

    def sym_setattr(self, vc, name, v):
        self.attrs[name] = v


class Configure(Contract):
    """the handlers of the root logger are those asked for"""
    q = "logging.configure"
    exc_tag = "C27"
    covers = ["logging.configure:" + x for x in ("done", "no socket")]

    def verify(self, vc, f):
        import logging
        from logging import handlers
        ctx, I_ = vc.ctx, vc.w.intercepts
        lg = importlib.import_module("paf.logging")
        F = ctx.fresh
        ok = lambda x, n: ctx.prove(
            x if z3.is_expr(x) else z3.BoolVal(bool(x)), "C27:" + n)
        may = lambda n, v: None if ctx.choose(["none", "some"], n) == \
            "none" else v
        a = {"console": SBool(F("console", B)),
             "log_file": may("file", SY(Y.str(F("file", STR)))),
             "log_file_backup": SInt(F("backup", I)),
             "log_file_max_size": SInt(F("size", I)),
             "syslog": SBool(F("syslog", B)),
             "syslog_socket": SY(Y.str(F("socket", STR))),
             "syslog_ident": may("ident", SY(Y.str(F("ident", STR)))),
             "syslog_facility": SInt(F("facility", I)),
             "filter_level": SInt(F("level", I))}
        there = F("exists", B)
        o = Logger()
        made = []
        T = lambda v: yterm(vc, v)

        def basic(vc, **k):
            if set(k) - {"level"} or o.handlers:
                raise Unsupported("basicConfig")
            o.level = k.get("level")
            o.handlers.append(Handler(kind="console", attrs={}))
        I_[logging.basicConfig] = basic
        I_[logging.getLogger] = lambda vc, *n: o if not n else None

        def handler(kind, cls):
            sig = inspect.signature(cls)

            def make(vc, *x, **k):
                try:
                    b = sig.bind(*x, **k)
                except TypeError as e:
                    raise ProgExc(e)
                b.apply_defaults()
                if ctx.choose(["made", "fails"], kind) == "fails":
                    ctx.ghost["failed"] = True
                    raise ProgExc(OSError("..."))
                h = Handler(kind=kind, attrs={"ident": ""},
                            args=b.arguments)
                made.append(h)
                return h
            return make
        I_[handlers.RotatingFileHandler] = handler(
            "file", handlers.RotatingFileHandler)
        I_[handlers.SysLogHandler] = handler("syslog",
                                             handlers.SysLogHandler)

        def exists(vc, p):
            ok(T(p) == T(a["syslog_socket"]), "the socket looked for is "
               "the system log's")
            return mkbool(there)
        I_[os.path.exists] = exists
        I_[os.strerror] = lambda vc, n: SText()
        keep = lg.logger
        lg.logger = o
        try:
            self.body(vc, f, [], dict(a))
        except ProgExc as e:
            ok(isinstance(e.exc, OSError), "configuring the log ends with %s"
               % type(e.exc).__name__)
            if not ctx.ghost.get("failed"):
                ok(z3.And(a["syslog"].t, z3.Not(there)),
                   "only a missing system log is refused")
                stats_cover(ctx, self.q + ":no socket")
            return
        finally:
            lg.logger = keep
        stats_cover(ctx, self.q + ":done")
        hs = {k: [h for h in o.handlers if h.kind == k]
              for k in ("console", "file", "syslog")}
        ok(all(len(x) <= 1 for x in hs.values()), "one handler of each kind")
        ok(z3.BoolVal(bool(hs["console"])) == a["console"].t,
           "there is a console log iff asked for")
        ok(z3.BoolVal(bool(hs["syslog"])) == a["syslog"].t,
           "there is a system log iff asked for")
        ok(bool(hs["file"]) == (a["log_file"] is not None),
           "there is a log file iff asked for")
        ok(o.level is not None and T(o.level) == T(a["filter_level"]),
           "the level is the one asked for")
        ok(z3.Implies(a["syslog"].t, there), "a missing system log is "
           "refused")
        want = {"file": {"filename": "log_file", "backupCount":
                         "log_file_backup", "maxBytes": "log_file_max_size"},
                "syslog": {"address": "syslog_socket",
                           "facility": "syslog_facility"}}
        for k, d in want.items():
            for h in hs[k]:
                for x, y in d.items():
                    ok(T(h.args[x]) == T(a[y]),
                       "the %s's %s is the one asked for" % (k, x))
        for h in hs["syslog"]:
            if a["syslog_ident"] is not None:
                ok(T(h.attrs["ident"]) == T(a["syslog_ident"]),
                   "the system log's ident is the one asked for")


class TYA(TY):
    def fresh(self, vc, base):
        t = vc.ctx.fresh(base, Y)
        return Arg(t)


class TArg(TY):
    def dec(self, vc, terms):
        return Arg(terms[0])


def units():
    return [Unit("daemon", DaemonWorld, SetDomains(), {"C27"}),
            Unit("daemon", DaemonWorld, Run(), {"C27"}),
            Unit("daemon", DaemonWorld, Configure(), {"C27"}),
            Unit("daemon", DaemonWorld, Main(), {"C27"},
                 contracts=[SetName("filter"), SetName("facility")])]


ASSUMES = {"C27": [
    "getopt.getopt, int and str.split behave as documented; an exception that "
    "leaves main ends the process with status 1",
    "the configuration a file gives is as proved for conf.load (C17), a "
    "server and its shutdown as proved for server.Server",
    "the user-supplied hook"]}
