"""C17: paf.conf under contract: every document is applied exactly or
rejected with a configuration error."""
import logging
import logging.handlers
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import BuiltinMethod
from pyvc.loops import LoopSpec
from pyvc.runner import Unit
from .jsonval import S, STR

# ------------------------------------------------- documents (what YAML gives)
LST = sort("DocList")
DCT = sort("DocDict")
_Y = z3.Datatype("Doc")
_Y.declare("null")
_Y.declare("bool", ("yb", B))
_Y.declare("int", ("yi", I))
_Y.declare("str", ("ys", STR))
_Y.declare("list", ("yl", LST))
_Y.declare("dict", ("yd", DCT))
_Y.declare("other", ("yo", I))        # float, date, bytes, set ...
Y = _Y.create()
YB = z3.ArraySort(Y, B)
dom_ = z3.Function("doc_keys", DCT, YB)
val_ = z3.Function("doc_values", DCT, z3.ArraySort(Y, Y))
llen = z3.Function("doc_len", LST, I)
lat = z3.Function("doc_at", LST, z3.ArraySort(I, Y))
head = z3.Function("text_before_colon", STR, STR)
isfloat = z3.Function("doc_is_float", I, B)
EMPTYD = z3.Const("doc_empty", DCT)
NOKEYS = z3.K(Y, z3.BoolVal(False))
KINDS = {bool: lambda t: Y.is_bool(t), str: lambda t: Y.is_str(t),
         int: lambda t: z3.Or(Y.is_int(t), Y.is_bool(t)),
         list: lambda t: Y.is_list(t), dict: lambda t: Y.is_dict(t),
         type(None): lambda t: Y.is_null(t),
         float: lambda t: z3.And(Y.is_other(t), isfloat(Y.yo(t)))}
EXACT = dict(KINDS)
EXACT[int] = lambda t: Y.is_int(t)


def yterm(vc, v):
    v = vc.force(v)
    if isinstance(v, SY):
        return v.t
    if v is None:
        return Y.null
    if isinstance(v, bool):
        return Y.bool(z3.BoolVal(v))
    if isinstance(v, SBool):
        return Y.bool(v.t)
    if isinstance(v, int):
        return Y.int(z3.IntVal(v))
    if isinstance(v, SInt):
        return Y.int(v.t)
    if isinstance(v, str):
        return Y.str(S(vc, v))
    if isinstance(v, dict) and not v:
        return Y.dict(EMPTYD)
    raise Unsupported("%r is no part of a document" % (v,))


class TY(T):
    def comps(self):
        return [("", Y)]

    def enc(self, vc, v):
        return [yterm(vc, v)]

    def dec(self, vc, terms):
        return SY(z3.simplify(terms[0]))

    def fresh(self, vc, base):
        return SY(vc.ctx.fresh(base, Y))


class YLoc:
    ref = None
    name = "DocList"

    def __init__(self, l):
        self.l = l

    def get(self, i):
        return llen(self.l) if i == 0 else lat(self.l)


class SYType(Sym):
    """type(x) of a part of a document"""
    def __init__(self, t):
        self.t = t

    def sym_is(self, vc, o):
        if o in EXACT:
            return mkbool(z3.simplify(EXACT[o](self.t)))
        raise Unsupported("type(...) is %r" % (o,))

    sym_eq = sym_is

    def sym_hash(self, vc):
        pass

    def sym_str(self, vc):
        return SText()

    def sym_getattr(self, vc, name):
        if name == "__name__":
            return SText()
        raise Unsupported("type(...).%s" % name)


class SPieces(Sym):
    """text.split(":")"""
    def __init__(self, s):
        self.s = s

    def sym_getitem(self, vc, i):
        if i == 0:
            return SY(Y.str(head(self.s)))
        raise Unsupported("piece %r of a text" % (i,))


class SY(Sym):
    """A part of a document."""
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "doc(%s)" % short(self.t)

    def is_(self, vc, rec, label):
        return vc.ctx.branch(rec(self.t), label)

    def sym_type(self, vc):
        return SYType(self.t)

    def sym_is(self, vc, o):
        if o is None:
            return mkbool(z3.simplify(Y.is_null(self.t)))
        if isinstance(o, bool):
            return mkbool(self.t == Y.bool(z3.BoolVal(o)))
        raise Unsupported("'is' on a part of a document")

    def sym_eq(self, vc, o):
        t = self.t
        if o is None:
            return mkbool(z3.simplify(Y.is_null(t)))
        if isinstance(o, (str, bool)) or isinstance(o, dict) and not o:
            if isinstance(o, dict):
                return mkbool(z3.And(Y.is_dict(t),
                                     dom_(Y.yd(t)) == NOKEYS))
            if isinstance(o, bool):
                raise Unsupported("comparing with a boolean")
            return mkbool(t == Y.str(S(vc, o)))
        if isinstance(o, (int, SInt)):
            n = z3.IntVal(o) if isinstance(o, int) else o.t
            if vc.ctx.branch(Y.is_other(t), "other"):
                return SBool(vc.ctx.fresh("equal", B))
            return mkbool(z3.Or(
                z3.And(Y.is_int(t), Y.yi(t) == n),
                z3.And(Y.is_bool(t), z3.If(Y.yb(t), 1, 0) == n)))
        if isinstance(o, SY) and vc.ctx.entails(z3.And(
                Y.is_str(t), Y.is_str(o.t))):
            return mkbool(t == o.t)
        if isinstance(o, SY) and vc.ctx.entails(z3.And(
                Y.is_int(t), Y.is_int(o.t))):
            return mkbool(t == o.t)
        raise Unsupported("comparing parts of a document")

    def sym_hash(self, vc):
        if vc.ctx.branch(z3.Or(Y.is_list(self.t), Y.is_dict(self.t)),
                         "unhashable"):
            raise ProgExc(TypeError("unhashable type"))

    def sym_isinstance(self, vc, t):
        ts = t if isinstance(t, tuple) else (t,)
        fs = []
        for x in ts:
            if x is object:
                return True
            if not isinstance(x, type):
                raise ProgExc(TypeError("isinstance() arg 2"))
            if x in KINDS:
                fs.append(KINDS[x](self.t))
            else:
                raise Unsupported("isinstance(..., %s)" % x.__name__)
        return mkbool(z3.simplify(z3.Or(*fs)))

    def sym_truth(self, vc):
        t = self.t
        if self.is_(vc, Y.is_dict, "is dict"):
            return vc.ctx.branch(dom_(Y.yd(t)) != NOKEYS, "not empty")
        if self.is_(vc, Y.is_list, "is list"):
            return vc.truth(self.sym_len(vc))
        if self.is_(vc, Y.is_other, "other"):
            return vc.ctx.branch(vc.ctx.fresh("truth", B), "truth")
        return vc.ctx.branch(z3.Or(
            z3.And(Y.is_bool(t), Y.yb(t)), z3.And(Y.is_int(t), Y.yi(t) != 0),
            z3.And(Y.is_str(t), Y.ys(t) != S(vc, ""))), "truth")

    def sym_cmp(self, vc, f, o):
        t = self.t
        if isinstance(o, SY):
            if vc.ctx.branch(Y.is_int(o.t), "is int"):
                o = SInt(Y.yi(o.t))
            else:
                raise Unsupported("ordering parts of a document")
        if not isinstance(o, (int, SInt)):
            raise Unsupported("ordering a part of a document and %r" % (o,))
        if self.is_(vc, Y.is_int, "is int"):
            x, y = vc.nums(SInt(Y.yi(t)), o)
            return mkbool(z3.simplify(f(x, y)))
        if self.is_(vc, Y.is_bool, "is bool"):
            x, y = vc.nums(SInt(z3.If(Y.yb(t), z3.IntVal(1), z3.IntVal(0))),
                           o)
            return mkbool(z3.simplify(f(x, y)))
        if self.is_(vc, Y.is_other, "other") and vc.ctx.choose(
                ["number", "no number"], "order") == "number":
            return SBool(vc.ctx.fresh("order", B))
        raise ProgExc(TypeError("'<' not supported"))

    def sym_str(self, vc):
        return self if vc.ctx.entails(Y.is_str(self.t)) else SText()

    def keys(self, vc):
        if not self.is_(vc, Y.is_dict, "is dict"):
            return None
        return dom_(Y.yd(self.t))

    def sym_len(self, vc):
        if self.is_(vc, Y.is_list, "is list"):
            n = llen(Y.yl(self.t))
            vc.ctx.assume(n >= 0)
            return SInt(n)
        if self.is_(vc, Y.is_dict, "is dict"):
            n = vc.ctx.fresh("len", I)
            vc.ctx.assume(z3.And(n >= 0, (n == 0) == (
                dom_(Y.yd(self.t)) == NOKEYS)))
            return SInt(n)
        if self.is_(vc, Y.is_str, "is str"):
            n = vc.ctx.fresh("len", I)
            vc.ctx.assume(z3.And(n >= 0, (n == 0) == (
                Y.ys(self.t) == S(vc, ""))))
            return SInt(n)
        raise ProgExc(TypeError("object has no len()"))

    def sym_contains(self, vc, k):
        d = self.keys(vc)
        if d is None:
            if self.is_(vc, Y.is_list, "is list"):
                raise Unsupported("'in' a list of a document")
            if self.is_(vc, Y.is_str, "is str"):
                raise Unsupported("'in' a text of a document")
            raise ProgExc(TypeError("argument is not iterable"))
        return mkbool(z3.Select(d, yterm(vc, k)))

    def sym_getitem(self, vc, k):
        if self.keys(vc) is None:
            if self.is_(vc, Y.is_list, "is list"):
                return jseq(vc, Y.yl(self.t)).getitem(k)
            raise Unsupported("subscript of a part of a document")
        kk = yterm(vc, k)
        if not vc.ctx.branch(z3.Select(dom_(Y.yd(self.t)), kk), "has key"):
            raise ProgExc(KeyError(k))
        return SY(z3.simplify(z3.Select(val_(Y.yd(self.t)), kk)))

    def sym_getattr(self, vc, name):
        if name in ("get", "items", "keys", "values"):
            if self.keys(vc) is None:
                raise ProgExc(AttributeError(name))
            if name == "get":
                def get(k, default=None):
                    kk = yterm(vc, k)
                    if default is None:
                        d = Y.null
                    else:
                        try:
                            d = yterm(vc, default)
                        except Unsupported:
                            d = None
                    if d is not None:
                        return SY(z3.If(z3.Select(dom_(Y.yd(self.t)), kk),
                                        z3.Select(val_(Y.yd(self.t)), kk),
                                        d))
                    if vc.ctx.branch(z3.Select(dom_(Y.yd(self.t)), kk),
                                     "has key"):
                        return SY(z3.Select(val_(Y.yd(self.t)), kk))
                    return default
                return BuiltinMethod(name, self, get)
            return BuiltinMethod(name, self, lambda: YView(vc, self, name))
        if name in ("split", "partition"):
            if not self.is_(vc, Y.is_str, "is str"):
                raise ProgExc(AttributeError(name))

            def split(sep, *n):
                if sep != ":":
                    raise Unsupported("split(%r)" % (sep,))
                return SPieces(Y.ys(self.t))
            return BuiltinMethod(name, self, split)
        if self.is_(vc, Y.is_str, "is str"):
            raise Unsupported("str.%s" % name)
        raise ProgExc(AttributeError("no attribute %s" % name))

    def sym_iter(self, vc):
        if self.is_(vc, Y.is_dict, "is dict"):
            yield ("sym", YView(vc, self, "keys"))
        elif self.is_(vc, Y.is_list, "is list"):
            vc.ctx.assume(llen(Y.yl(self.t)) >= 0)
            yield ("sym", jseq(vc, Y.yl(self.t)))
        elif self.is_(vc, Y.is_str, "is str"):
            raise Unsupported("iteration over a text")
        elif self.is_(vc, Y.is_other, "other"):
            raise Unsupported("iteration over a value of another kind")
        else:
            raise ProgExc(TypeError("not iterable"))


def jseq(vc, l):
    return SSeq(vc, YLoc(l), TSeq(TY()))


class YView(Sym):
    is_view = True
    is_snapshot = False

    def __init__(self, vc, j, kind):
        self.vc, self.j, self.kind = vc, j, kind

    def key_sort(self):
        return Y

    def dom(self):
        return dom_(Y.yd(self.j.t))

    def elem(self, k):
        # keys are hashable
        self.vc.ctx.assume(z3.Not(z3.Or(Y.is_list(k), Y.is_dict(k))))
        key = SY(k)
        if self.kind == "keys":
            return key
        v = SY(z3.simplify(z3.Select(val_(Y.yd(self.j.t)), k)))
        return v if self.kind == "values" else (key, v)

    def name(self):
        return "DocDict"

    def length(self):
        return self.j.sym_len(self.vc)


# ------------------------------------------------------- what documents mean
class Doc:
    """terms for the parts of a document that is a dictionary"""
    def __init__(self, vc, t):
        self.vc, self.t = vc, t

    def has(self, k):
        return z3.Select(dom_(Y.yd(self.t)), Y.str(S(self.vc, k)))

    def at(self, k):
        return z3.Select(val_(Y.yd(self.t)), Y.str(S(self.vc, k)))

    def given(self, k):
        return z3.And(self.has(k), z3.Not(Y.is_null(self.at(k))))

    def ok(self, k, kind, strict):
        """of the right type if there (null: either way)"""
        c = self.has(k) if strict else self.given(k)
        return z3.Implies(c, EXACT[kind](self.at(k)))

    def get(self, k, default):
        return z3.If(self.given(k), self.at(k), default)


def code(table, s, vc):
    """what a name stands for, and whether it does"""
    t = z3.IntVal(-1)
    for n, c in table.items():
        t = z3.If(s == S(vc, n), z3.IntVal(c), t)
    return t, z3.Or(*[s == S(vc, n) for n in table])


LEVELS = {"debug": logging.DEBUG, "info": logging.INFO,
          "warning": logging.WARNING, "error": logging.ERROR,
          "critical": logging.CRITICAL}
FACILITIES = dict(logging.handlers.SysLogHandler.facility_names)
LOG = {"console": (bool, False), "log_file": (str, None),
       "log_file_backup": (int, 0), "log_file_max_size": (int, 1000000),
       "syslog": (bool, True), "syslog_socket": (str, "/dev/log"),
       "facility": (str, logging.handlers.SysLogHandler.LOG_DAEMON),
       "filter": (str, logging.INFO)}
NAMES = {"facility": FACILITIES, "filter": LEVELS}
LIMITS = {"clients": "CLIENT", "services": "SERVICE",
          "subscriptions": "SUBSCRIPTION"}
TLS = ("cert", "key", "tc", "crl")


def isdict(t):
    return Y.is_dict(t)


def log_ok(vc, t, strict):
    d = Doc(vc, t)
    out = [isdict(t)]
    for k, (kind, _) in LOG.items():
        out.append(d.ok(k, kind, strict))
        if k in NAMES:
            out.append(z3.Implies(d.given(k), code(
                NAMES[k], Y.ys(d.at(k)), vc)[1]))
    return z3.And(*out)


def log_value(vc, t, k, default):
    d = Doc(vc, t)
    if k in NAMES:
        return z3.If(d.given(k), Y.int(code(NAMES[k], Y.ys(d.at(k)), vc)[0]),
                     default)
    return d.get(k, default)


def limits_ok(vc, t, strict):
    k = z3.Const("k", Y)
    v = z3.Select(val_(Y.yd(t)), k)
    good = z3.And(Y.is_int(v), Y.yi(v) >= 0)
    if not strict:
        good = z3.Or(Y.is_null(v), good)
    return z3.And(isdict(t), z3.ForAll([k], z3.Implies(
        z3.Select(dom_(Y.yd(t)), k),
        z3.And(z3.Or(*[k == Y.str(S(vc, n)) for n in LIMITS]), good)),
        patterns=[z3.Select(dom_(Y.yd(t)), k)]))


def resources_ok(vc, t, strict):
    d = Doc(vc, t)
    out = [isdict(t)]
    for c in ("user", "total"):
        out += [d.ok(c, dict, strict),
                z3.Implies(d.given(c), limits_ok(vc, d.at(c), strict))]
    return z3.And(*out)


def limit_value(vc, t, c, n, old):
    d = Doc(vc, t)
    return z3.If(d.given(c), Doc(vc, d.at(c)).get(n, old), old)


_K = z3.Datatype("SocketConf")
_K.declare("Sock", ("addr", Y), ("tls", DCT))
SOCK = _K.create()


def tls_address(vc, a):
    return z3.Or(*[head(Y.ys(a)) == S(vc, p) for p in ("tls", "utls")])


def socket_ok(vc, t, strict):
    d = Doc(vc, t)
    k = z3.Const("k", Y)
    tls = d.at("tls")
    keys = dom_(Y.yd(tls))
    there = d.has("tls") if strict else d.given("tls")
    some = there if strict else z3.And(there, keys != NOKEYS)
    return z3.Or(Y.is_str(t), z3.And(
        isdict(t), d.has("addr"), Y.is_str(d.at("addr")),
        d.ok("tls", dict, strict),
        z3.Implies(some, tls_address(vc, d.at("addr"))),
        z3.Implies(there, z3.ForAll([k], z3.Implies(
            z3.Select(keys, k), z3.And(
                z3.Or(*[k == Y.str(S(vc, n)) for n in TLS]),
                Y.is_str(z3.Select(val_(Y.yd(tls)), k)))),
            patterns=[z3.Select(keys, k)]))))


def socket_value(vc, t):
    d = Doc(vc, t)
    return z3.If(Y.is_str(t), SOCK.Sock(t, EMPTYD), SOCK.Sock(
        d.at("addr"), z3.If(d.given("tls"), Y.yd(d.at("tls")), EMPTYD)))


def yint(n):
    return Y.int(z3.IntVal(n))


def versions(vc, t):
    d = Doc(vc, t)
    v = Doc(vc, d.at("protocol_version"))
    g = d.given("protocol_version")
    return [z3.If(g, v.get(k, yint(x)), yint(x))
            for k, x in (("min", 2), ("max", 3))]


def idles(vc, t):
    d = Doc(vc, t)
    v = Doc(vc, d.at("idle"))
    g = d.given("idle")
    outer = d.get("max_idle_time", yint(30))
    return [z3.If(g, v.get("min", yint(4)), yint(4)),
            z3.If(g, v.get("max", outer), outer)]


socks = z3.Function("sockets_of", Y, LST)


def sockets(vc, t):
    key = "sockets"
    if key not in vc.ctx.axiomatized:
        vc.ctx.axiomatized.add(key)
        x = z3.Const("x", Y)
        d = Doc(vc, x)
        vc.ctx.assume(z3.ForAll([x], socks(x) == Y.yl(z3.If(
            d.given("sockets"), d.at("sockets"), d.at("addrs"))),
            patterns=[socks(x)]))
        vc.ctx.assume(dom_(EMPTYD) == NOKEYS)
        l = z3.Const("l", LST)
        vc.ctx.assume(z3.ForAll([l], llen(l) >= 0, patterns=[llen(l)]))
    return socks(t)


def domain_ok(vc, t, strict):
    d = Doc(vc, t)
    i = z3.Int("i")
    out = [isdict(t), d.ok("name", str, strict)]
    for c, ks in (("protocol_version", ("min", "max")),
                  ("idle", ("min", "max"))):
        out.append(d.ok(c, dict, strict))
        out += [z3.Implies(d.given(c), Doc(vc, d.at(c)).ok(k, int, strict))
                for k in ks]
    out.append(d.ok("max_idle_time", int, strict))
    lo, hi = versions(vc, t)
    out += [Y.yi(lo) >= 2, Y.yi(hi) <= 3, Y.yi(lo) <= Y.yi(hi)]
    lo, hi = idles(vc, t)
    out += [Y.yi(lo) >= 1, Y.yi(lo) <= Y.yi(hi)]
    inner = Doc(vc, d.at("idle"))
    there = (lambda x, k: x.has(k)) if strict else \
        (lambda x, k: x.given(k))
    out.append(z3.Not(z3.And(there(d, "max_idle_time"), d.given("idle"),
                             there(inner, "max"))))
    out.append(z3.Not(z3.And(there(d, "sockets"), there(d, "addrs"))))
    out += [d.ok(k, list, strict) for k in ("sockets", "addrs")]
    out.append(z3.Or(d.given("sockets"), d.given("addrs")))
    out.append(sockets_ok(vc, t, strict))
    return z3.And(*out)


def sockets_ok(vc, t, strict, upto=None):
    l = sockets(vc, t)
    i = z3.Int("i")
    x = z3.Select(lat(l), i)
    return z3.ForAll([i], z3.Implies(
        z3.And(i >= 0, i < (llen(l) if upto is None else upto)),
        socket_ok(vc, x, strict)), patterns=[x])


def domains_ok(vc, l, strict, upto=None):
    i = z3.Int("n")
    x = z3.Select(lat(l), i)
    return z3.ForAll([i], z3.Implies(
        z3.And(i >= 0, i < (llen(l) if upto is None else upto)),
        domain_ok(vc, x, strict)), patterns=[x])


def domain_as(vc, h, r, t, nsockets=None):
    """the domain r is what the document t says"""
    d = Doc(vc, t)
    l = sockets(vc, t)
    j = z3.Int("j")
    at = h.at("DomainConf.sockets.at", r)
    out = [h.at("DomainConf.name", r) == d.get("name", Y.null)]
    for f, (lo, hi) in (("proto_version_limit", versions(vc, t)),
                        ("idle_limit", idles(vc, t))):
        out += [h.at("DomainConf.%s.lo" % f, r) == Y.yi(lo),
                h.at("DomainConf.%s.hi" % f, r) == Y.yi(hi)]
    n = llen(l) if nsockets is None else nsockets
    out += [h.at("DomainConf.sockets.len", r) == n,
            z3.ForAll([j], z3.Implies(
                z3.And(j >= 0, j < n), z3.Select(at, j) ==
                socket_value(vc, z3.Select(lat(l), j))),
                patterns=[z3.Select(at, j)])]
    return z3.And(*out)


def conf_domains(vc, h, c, l, n):
    """the first n domains are those of the document"""
    i = z3.Int("n")
    r = z3.Select(h.at("Conf.domains.at", c), i)
    return [h.at("Conf.domains.len", c) == n,
            z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
                h.at("DomainConf.alive", r),
                domain_as(vc, h, r, z3.Select(lat(l), i)))),
                patterns=[r, z3.Select(lat(l), i)])]


# ------------------------------------------------------------------ the world
class TLim(T):
    """an object that holds two bounds"""
    def __init__(self, cls, lo, hi):
        self.cls, self.lo, self.hi = cls, lo, hi

    def comps(self):
        return [(".lo", I), (".hi", I)]

    def enc(self, vc, v):
        v = vc.force(v)
        if type(v) is not self.cls:
            raise Unsupported("%r is no %s" % (v, self.cls.__name__))
        d = vars(v)
        if set(d) != {self.lo, self.hi}:
            raise Unsupported("other attributes of %s" % self.cls.__name__)
        out = []
        for n in (self.lo, self.hi):
            x = d[n]
            if isinstance(x, SY):
                if not vc.ctx.entails(Y.is_int(x.t)):
                    raise Unsupported("a bound that is no integer")
                out.append(z3.simplify(Y.yi(x.t)))
            else:
                out.append(TInt().enc(vc, x)[0])
        return out

    def dec(self, vc, terms):
        o = self.cls.__new__(self.cls)
        o.__dict__.update({self.lo: SInt(terms[0]), self.hi: SInt(terms[1])})
        return o


class TSock(T):
    def __init__(self, cls):
        self.cls = cls

    def comps(self):
        return [("", SOCK)]

    def enc(self, vc, v):
        v = vc.force(v)
        if type(v) is not self.cls or set(vars(v)) != {"addr", "tls_attrs"}:
            raise Unsupported("%r is no socket's configuration" % (v,))
        d = vars(v)
        tls = yterm(vc, d["tls_attrs"])
        if not vc.ctx.entails(Y.is_dict(tls)):
            vc.ctx.prove(Y.is_dict(tls), "C17:the TLS settings of a socket "
                         "are a dictionary")
            raise PathEnd()
        return [SOCK.Sock(yterm(vc, d["addr"]), z3.simplify(Y.yd(tls)))]

    def dec(self, vc, terms):
        o = self.cls.__new__(self.cls)
        o.__dict__.update(addr=SY(SOCK.addr(terms[0])),
                          tls_attrs=SY(Y.dict(SOCK.tls(terms[0]))))
        return o


class ConfWorld(World):
    def __init__(self, index):
        World.__init__(self, index)
        c, sd = index.modules["conf"], index.modules["sd"]
        self.mod, self.sd = c, sd
        y = TY()
        self.heap_class("LogConf", c.LogConf, {k: y for k in LOG})
        self.heap_class("ResourcesClassConf", c.ResourcesClassConf, {
            "resources": TEnumDict(sd.ResourceType, y)})
        self.heap_class("ResourcesConf", c.ResourcesConf, {
            "user": TRef("ResourcesClassConf"),
            "total": TRef("ResourcesClassConf")})
        self.heap_class("DomainConf", c.DomainConf, {
            "name": y,
            "proto_version_limit": TLim(c.ProtoVersionLimitConf,
                                        "version_min", "version_max"),
            "idle_limit": TLim(sd.IdleLimit, "idle_min", "idle_max"),
            "sockets": TSeq(TSock(c.SocketConf))})
        self.heap_class("Conf", c.Conf, {
            "log": TRef("LogConf"), "domains": TSeq(TRef("DomainConf")),
            "resources": TRef("ResourcesConf")})

    def format_hook(self, vc, fmt, specs, vals):
        for s, v in zip(specs, vals):
            if s in "di" and isinstance(v, SY) and not vc.ctx.branch(
                    KINDS[int](v.t), "is int"):
                raise ProgExc(TypeError("%d format: a number is required"))
        return World.format_hook(self, vc, fmt, specs, vals)

    def loop_spec(self, vc, env, coll, st):
        from pyvc.interp import SEnumerate
        g = vc.ctx.ghost
        if isinstance(coll, SEnumerate):
            coll = coll.seq
        if isinstance(coll, SSeq) and isinstance(coll.loc, YLoc):
            l = coll.loc.l
            if "domains" in g and vc.ctx.entails(l == g["domains"]):
                return domains_loop(vc, l)
            if "domain" in g and vc.ctx.entails(
                    l == sockets(vc, g["domain"])):
                return sockets_loop(vc, l)
            return None
        if isinstance(coll, YView) and "limits" in g:
            for c, t in g["limits"].items():
                if vc.ctx.entails(coll.j.t == t):
                    return limits_loop(vc, c, t, coll)
        return None


def domains_loop(vc, l):
    c = vc.ctx.ghost["conf"]

    def inv(vc, env, p, D, pre):
        h, h0 = H(vc), H(vc, pre)
        out = [("C17", f) for f in conf_domains(vc, h, c, l, p)]
        out.append(("C17", domains_ok(vc, l, False, p)))
        for s in (".len", ".at"):
            n = "Conf.domains" + s
            out.append(("C17", h(n) == z3.Store(h0(n), c, h.at(n, c))))
        return out

    def start(vc, env, p):
        vc.ctx.ghost["domain"] = z3.Select(lat(l), p)
    return LoopSpec("domains", inv, start=start)


def sockets_loop(vc, l):
    c = vc.ctx.ghost["conf"]
    t = vc.ctx.ghost["domain"]

    def inv(vc, env, p, D, pre):
        h, h0 = H(vc), H(vc, pre)
        n = h0.at("Conf.domains.len", c)
        r = z3.Select(h0.at("Conf.domains.at", c), n - 1)
        out = [("C17", domain_as(vc, h, r, t, p)),
               ("C17", sockets_ok(vc, t, False, p))]
        for s in (".len", ".at"):
            m = "DomainConf.sockets" + s
            out.append(("C17", h(m) == z3.Store(h0(m), r, h.at(m, r))))
        return out
    return LoopSpec("sockets", inv)


def limits_loop(vc, c, t, coll):
    h = H(vc)
    rs = h.at("Conf.resources", vc.ctx.ghost["conf"])
    rc = h.at("ResourcesConf.%s" % c, rs)
    k = z3.Const("k", Y)
    v = z3.Select(val_(Y.yd(t)), k)

    def inv(vc, env, V, D, pre):
        h, h0 = H(vc), H(vc, pre)
        out = []
        for n, f in LIMITS.items():
            m = "ResourcesClassConf.resources." + f
            key = Y.str(S(vc, n))
            x = z3.Select(val_(Y.yd(t)), key)
            out.append(("C17", h(m) == z3.If(
                z3.And(z3.Select(V, key), z3.Not(Y.is_null(x))),
                z3.Store(h0(m), rc, x), h0(m))))
        out.append(("C17", z3.ForAll([k], z3.Implies(
            z3.Select(V, k), z3.And(
                z3.Or(*[k == Y.str(S(vc, n)) for n in LIMITS]),
                z3.Or(Y.is_null(v), z3.And(Y.is_int(v), Y.yi(v) >= 0)))),
            patterns=[z3.Select(V, k)])))
        return out
    return LoopSpec("limits", inv)


# ------------------------------------------------------------------ contracts
class C17(Contract):
    exc_tag = "C17"

    @property
    def outcomes(self):
        import sys
        e = getattr(sys.modules.get("paf.conf"), "Error", None)
        return [Outcome("return"), Outcome("error", e)]


def is_text(vc, v):
    return isinstance(v, (str, SText)) or isinstance(v, SY) and \
        vc.ctx.entails(Y.is_str(v.t))


class Path(Contract):
    q = "conf.path"
    exc_tag = "C17"

    def entry(self, vc):
        n = vc.ctx.choose([1, 2], "arguments")
        return [SText() for _ in range(n)], {}

    def params(self, vc, f, args, kw):
        return {"args": list(args)}

    def requires(self, vc, a):
        return [("C17:paths are made of texts", z3.BoolVal(all(
            is_text(vc, v) for v in a["args"])))]

    def result(self, vc, a, label):
        return SText()

    def ensures(self, vc, a, old, label, res):
        return [("C17:a path is a text", z3.BoolVal(is_text(vc, res)))]


class Lookup(C17):
    """dict_lookup: one parameter, under any of its names"""
    q = "conf.dict_lookup"
    covers = ["conf.dict_lookup:return", "conf.dict_lookup:error"]

    def entry(self, vc):
        ctx = vc.ctx
        d = SY(ctx.fresh("dict", Y))
        n = ctx.choose(["one", "one in a list", "two"], "names")
        ks = [SY(Y.str(ctx.fresh("key", STR))) for _ in range(
            2 if n == "two" else 1)]
        if n == "two":
            ctx.assume(ks[0].t != ks[1].t)
        kind = ctx.choose([bool, int, str, list, dict], "type")
        req = ctx.choose([False, True], "required")
        dflt = None if req else SY(ctx.fresh("default", Y))
        return [d, ks[0] if n == "one" else ks, kind, SText()], \
            {"required": req, "default": dflt}

    def params(self, vc, f, args, kw):
        a = Contract.params(self, vc, f, args, kw)
        try:
            ks = vc.force(a["dict_keys"])
            a["keys"] = [yterm(vc, k) for k in
                         (ks if isinstance(ks, (list, tuple)) else [ks])]
            a["d"] = yterm(vc, a["dict_value"])
            a["dflt"] = yterm(vc, a["default"])
            kind, req = a["value_type"], a["required"]
        except KeyError as e:
            raise Unsupported("dict_lookup without %s" % e)
        if len(a["keys"]) not in (1, 2) or kind not in EXACT or \
           not isinstance(req, bool) or not is_text(vc, a["dict_path"]):
            raise Unsupported("dict_lookup%r" % (tuple(a.values()),))
        a["t"] = z3.simplify(self.value(a))
        return a

    def has(self, a, k):
        return z3.Select(dom_(Y.yd(a["d"])), k)

    def at(self, a, k):
        return z3.Select(val_(Y.yd(a["d"])), k)

    def given(self, a, k):
        return z3.And(self.has(a, k), z3.Not(Y.is_null(self.at(a, k))))

    def value(self, a):
        t = a["dflt"]
        for k in reversed(a["keys"]):
            t = z3.If(self.given(a, k), self.at(a, k), t)
        return t

    def good(self, a, strict):
        there = self.has if strict else self.given
        ok = EXACT[a["value_type"]]
        out = [z3.Implies(there(a, k), ok(self.at(a, k))) for k in a["keys"]]
        if len(a["keys"]) == 2:
            out.append(z3.Not(z3.And(*[there(a, k) for k in a["keys"]])))
        if a["required"]:
            out.append(z3.Or(*[self.given(a, k) for k in a["keys"]]))
        return z3.And(*out)

    def requires(self, vc, a):
        r = [("C17:parameters are looked up in a dictionary",
              isdict(a["d"]))]
        if a["required"]:
            r.append(("C17:what is required has no default",
                      z3.BoolVal(a["default"] is None)))
        return r

    def result(self, vc, a, label):
        return SY(vc.ctx.fresh("param", Y)) if label == "return" else None

    def ensures(self, vc, a, old, label, res):
        if label == "error":
            return [("C17:only bad parameters are refused",
                     z3.Not(self.good(a, True)))]
        return [("C17:bad parameters are refused", self.good(a, False)),
                ("C17:the value is the one given, or the default",
                 yterm(vc, res) == a["t"])]


class SetName(C17):
    """LogConf.set_filter and set_facility"""
    def __init__(self, name):
        self.name = name
        self.q = "conf.LogConf.set_%s" % name
        self.mod = ("LogConf.%s" % name,)
        self.covers = [self.q + ":return", self.q + ":error"]

    def entry(self, vc):
        return [vc.new_ref("LogConf"),
                SY(Y.str(vc.ctx.fresh("name", STR)))], {}

    def params(self, vc, f, args, kw):
        v = list(Contract.params(self, vc, f, args, kw).values())
        return {"self": v[0], "name": v[1]}

    def requires(self, vc, a):
        return [("C17", Y.is_str(yterm(vc, a["name"])))]

    def ensures(self, vc, a, old, label, res):
        m = self.mod[0]
        t, known = code(NAMES[self.name], Y.ys(yterm(vc, a["name"])), vc)
        if label == "error":
            return [("C17:only unknown names are refused", z3.Not(known)),
                    ("C17", H(vc)(m) == old(m))]
        return [("C17:unknown names are refused", known),
                ("C17:names have their meaning", H(vc)(m) == z3.Store(
                    old(m), a["self"].t, Y.int(t)))]


class Part(C17):
    """a part of the document is put into the configuration"""
    def entry(self, vc):
        c = vc.new_ref("Conf")
        t = vc.ctx.fresh("part", Y)
        vc.ctx.ghost["conf"] = c.t
        return [c, SY(t), SText()], {}

    def params(self, vc, f, args, kw):
        v = list(Contract.params(self, vc, f, args, kw).values())
        if len(v) != 3 or not isinstance(v[0], SRef) or v[0].cls != "Conf":
            raise Unsupported("%s with other parameters" % self.q)
        a = {"conf": v[0].t, "t": yterm(vc, v[1]), "path": v[2]}
        return a

    kind = dict

    def requires(self, vc, a):
        return [("C17", z3.Or(Y.is_null(a["t"]), EXACT[self.kind](a["t"])))] \
            + sane(vc, H(vc), a["conf"])


def sane(vc, h, c):
    rs = h.at("Conf.resources", c)
    return [("C17", z3.And(
        h.at("Conf.alive", c), h.at("LogConf.alive", h.at("Conf.log", c)),
        h.at("ResourcesConf.alive", rs),
        *[h.at("ResourcesClassConf.alive", h.at("ResourcesConf." + x, rs))
          for x in ("user", "total")])),
        ("C17", h.at("ResourcesConf.user", rs) !=
         h.at("ResourcesConf.total", rs))]


def unlimited(h, c):
    rs = h.at("Conf.resources", c)
    return [("C17", z3.And(*[
        h.at("ResourcesClassConf.resources." + f,
             h.at("ResourcesConf." + x, rs)) == Y.null
        for x in ("user", "total") for f in LIMITS.values()]))]


class Log(Part):
    q = "conf.log_populate"
    mod = tuple("LogConf." + k for k in LOG)
    covers = ["conf.log_populate:return", "conf.log_populate:error"]

    def ensures(self, vc, a, old, label, res):
        t = a["t"]
        if label == "error":
            return [("C17:only bad logging settings are refused", z3.And(
                z3.Not(Y.is_null(t)), z3.Not(log_ok(vc, t, True))))]
        h = H(vc)
        r = old.at("Conf.log", a["conf"])
        out = [("C17:bad logging settings are refused",
                z3.Or(Y.is_null(t), log_ok(vc, t, False)))]
        for k in LOG:
            m = "LogConf." + k
            out.append(("C17:%s is what the document says" % k, h(m) == z3.If(
                Y.is_null(t), old(m), z3.Store(old(m), r, log_value(
                    vc, t, k, old.at(m, r))))))
        return out


class Resources(Part):
    q = "conf.resources_populate"
    mod = tuple("ResourcesClassConf.resources." + f for f in LIMITS.values())

    def requires(self, vc, a):
        return Part.requires(self, vc, a) + unlimited(H(vc), a["conf"])
    covers = ["conf.resources_populate:return",
              "conf.resources_populate:error"]

    def entry(self, vc):
        r = Part.entry(self, vc)
        t = r[0][1].t
        vc.ctx.ghost["limits"] = {c: Doc(vc, t).at(c)
                                  for c in ("user", "total")}
        return r

    def ensures(self, vc, a, old, label, res):
        t = a["t"]
        if label == "error":
            return [("C17:only bad limits are refused", z3.And(
                z3.Not(Y.is_null(t)), z3.Not(resources_ok(vc, t, True))))]
        h = H(vc)
        rs = old.at("Conf.resources", a["conf"])
        out = [("C17:bad limits are refused",
                z3.Or(Y.is_null(t), resources_ok(vc, t, False)))]
        for n, f in LIMITS.items():
            m = "ResourcesClassConf.resources." + f
            new = old(m)
            for c in ("user", "total"):
                r = old.at("ResourcesConf." + c, rs)
                new = z3.Store(new, r, limit_value(vc, t, c, n,
                                                   old.at(m, r)))
            out.append(("C17:the limit of %s is what the document says" % n,
                        h(m) == z3.If(Y.is_null(t), old(m), new)))
        return out


class Domains(Part):
    q = "conf.domains_populate"
    kind = list
    mod = ("Conf.domains.len", "Conf.domains.at", "DomainConf.alive",
           "DomainConf.name", "DomainConf.proto_version_limit.lo",
           "DomainConf.proto_version_limit.hi", "DomainConf.idle_limit.lo",
           "DomainConf.idle_limit.hi", "DomainConf.sockets.len",
           "DomainConf.sockets.at")
    covers = ["conf.domains_populate:return", "conf.domains_populate:error"]

    def entry(self, vc):
        r = Part.entry(self, vc)
        t = r[0][1].t
        vc.ctx.ghost["domains"] = Y.yl(t)
        return r

    def requires(self, vc, a):
        return Part.requires(self, vc, a) + [
            ("C17", H(vc).at("Conf.domains.len", a["conf"]) == 0)]

    def ensures(self, vc, a, old, label, res):
        t = a["t"]
        if label == "error":
            return [("C17:only bad domains are refused", z3.And(
                z3.Not(Y.is_null(t)),
                z3.Not(domains_ok(vc, Y.yl(t), True))))]
        h = H(vc)
        c = a["conf"]
        nul = Y.is_null(t)
        out = [("C17:bad domains are refused",
                z3.Or(nul, domains_ok(vc, Y.yl(t), False)))]
        n = z3.If(nul, 0, llen(Y.yl(t)))
        out += [("C17:the domains are those of the document", f)
                for f in conf_domains(vc, h, c, Y.yl(t), n)]
        for s in (".len", ".at"):
            m = "Conf.domains" + s
            out.append(("C17:other configurations stay as they are", h(m) ==
                        z3.Store(old(m), c, h.at(m, c))))
        return out


class Populate(C17):
    q = "conf.populate"
    covers = ["conf.populate:return", "conf.populate:error"]
    mod = Log.mod + Resources.mod + Domains.mod

    def entry(self, vc):
        c = vc.new_ref("Conf")
        vc.ctx.ghost["conf"] = c.t
        return [c, SY(vc.ctx.fresh("document", Y))], {}

    def params(self, vc, f, args, kw):
        v = list(Contract.params(self, vc, f, args, kw).values())
        return {"conf": v[0].t, "t": yterm(vc, v[1])}

    def requires(self, vc, a):
        return sane(vc, H(vc), a["conf"]) + unlimited(H(vc), a["conf"]) + [
            ("C17", H(vc).at("Conf.domains.len", a["conf"]) == 0)]

    def ensures(self, vc, a, old, label, res):
        t = a["t"]
        d = Doc(vc, t)
        h = H(vc)
        c = a["conf"]

        def good(strict):
            out = [isdict(t)]
            for k, kind, ok in (("log", dict, log_ok),
                                ("domains", list, lambda vc, x, s: domains_ok(
                                    vc, Y.yl(x), s)),
                                ("resources", dict, resources_ok)):
                out += [d.ok(k, kind, strict), z3.Implies(
                    d.given(k), ok(vc, d.at(k), strict))]
            return z3.And(*out)
        if label == "error":
            return [("C17:only bad documents are refused",
                     z3.Not(good(True)))]
        out = [("C17:bad documents are refused", good(False))]
        r = old.at("Conf.log", c)
        for k in LOG:
            m = "LogConf." + k
            out.append(("C17:%s is what the document says" % k, h.at(m, r) ==
                        z3.If(d.given("log"), log_value(
                            vc, d.at("log"), k, old.at(m, r)),
                            old.at(m, r))))
        rs = old.at("Conf.resources", c)
        for n, f in LIMITS.items():
            m = "ResourcesClassConf.resources." + f
            for k in ("user", "total"):
                r = old.at("ResourcesConf." + k, rs)
                out.append(("C17:the limit of %s is what the document says" %
                            n, h.at(m, r) == z3.If(
                                d.given("resources"), limit_value(
                                    vc, d.at("resources"), k, n,
                                    old.at(m, r)), old.at(m, r))))
        l = Y.yl(d.at("domains"))
        out += [("C17:the domains are those of the document", f)
                for f in conf_domains(vc, h, c, l, z3.If(
                    d.given("domains"), llen(l), 0))]
        return out


class Defaults(Contract):
    """Conf(): what applies when nothing is configured"""
    q = "conf.Conf"
    synthetic = True
    covers = ["conf.Conf"]

    def verify(self, vc, f):
        ctx = vc.ctx
        try:
            o = vc.call(vc.w.mod.Conf, [], {})
        except ProgExc as e:
            ctx.prove(z3.BoolVal(False), "C17:a configuration has defaults: "
                      "%s" % type(e.exc).__name__)
            return
        stats_cover(ctx, self.q)
        h = H(vc)
        for n, g in sane(vc, h, o.t):
            ctx.prove(g, n + ":a new configuration is complete")
        ctx.prove(h.at("Conf.domains.len", o.t) == 0,
                  "C17:no domains by default")
        r = h.at("Conf.log", o.t)
        for k, (_, v) in LOG.items():
            ctx.prove(h.at("LogConf." + k, r) == yterm(vc, v),
                      "C17:the default of %s is the documented one" % k)
        rs = h.at("Conf.resources", o.t)
        for c in ("user", "total"):
            r = h.at("ResourcesConf." + c, rs)
            for f in LIMITS.values():
                ctx.prove(h.at("ResourcesClassConf.resources." + f, r) ==
                          Y.null, "C17:no limits by default")


class AsNew:
    """what applied before a document was applied: the defaults"""
    def __init__(self, vc):
        self.vc, self.h = vc, H(vc)

    def at(self, m, r):
        k = m.split(".")
        if k[0] == "LogConf":
            return yterm(self.vc, LOG[k[1]][1])
        if k[0] == "ResourcesClassConf":
            return Y.null
        return self.h.at(m, r)


class TextFile(Sym):
    """an open file; its text is the document's"""
    def sym_getattr(self, vc, name):
        if name == "read":
            return BuiltinMethod(name, self, lambda *n: self.read(vc, *n))
        if name == "close":
            return BuiltinMethod(name, self, lambda: None)
        if name == "__enter__":
            return BuiltinMethod(name, self, lambda: self)
        if name == "__exit__":
            return BuiltinMethod(name, self, lambda *a: None)
        raise Unsupported("file.%s" % name)

    def read(self, vc, *n):
        if n and n != (-1,):
            raise Unsupported("reading a part of the file")
        if vc.ctx.choose(["text", "fails"], "read") == "fails":
            raise ProgExc(OSError("..."))
        return FileText()


class FileText(Sym):
    pass


class Load(C17):
    """the configuration a file asks for"""
    q = "conf.load"
    covers = ["conf.load:return", "conf.load:error", "conf.load:file"]

    def verify(self, vc, f):
        import yaml
        ctx, w = vc.ctx, vc.w
        name = SY(Y.str(ctx.fresh("file name", STR)))
        doc = SY(ctx.fresh("document", Y))

        def open_(vc, n, mode="r", *a, **k):
            ctx.prove(z3.BoolVal(mode in ("r", "rt")) if not isinstance(
                n, SY) else z3.And(mode in ("r", "rt"), n.t == name.t),
                "C17:the file named is read")
            if ctx.choose(["opened", "fails"], "open") == "fails":
                raise ProgExc(OSError("..."))
            return TextFile()

        def parse(vc, x, *a, **k):
            if isinstance(x, TextFile):
                x = x.read(vc)
            ctx.prove(z3.BoolVal(isinstance(x, FileText)),
                      "C17:the file's text is what is read")
            if ctx.choose(["document", "fails"], "yaml") == "fails":
                raise ProgExc(yaml.YAMLError("..."))
            return doc
        w.intercepts[open] = open_
        w.intercepts[yaml.safe_load] = parse
        try:
            r = self.body(vc, f, [name], {})
        except ProgExc as e:
            if isinstance(e.exc, (OSError, yaml.YAMLError)):
                stats_cover(ctx, "conf.load:file")
                return
            if not isinstance(e.exc, w.mod.Error):
                ctx.prove(z3.BoolVal(False), "C17:load ends with unexpected "
                          "%s" % type(e.exc).__name__)
                return
            stats_cover(ctx, "conf.load:error")
            for n, g in Populate().ensures(vc, {"conf": None, "t": doc.t},
                                           AsNew(vc), "error", None):
                ctx.prove(g, n)
            return
        stats_cover(ctx, "conf.load:return")
        r = vc.force(r)
        if not isinstance(r, SRef) or r.cls != "Conf":
            ctx.prove(z3.BoolVal(False), "C17:load returns a configuration")
            return
        for n, g in Populate().ensures(vc, {"conf": r.t, "t": doc.t},
                                       AsNew(vc), "return", None):
            ctx.prove(g, n)


def units():
    look = [Lookup()]
    return [Unit("conf", ConfWorld, c, {"C17"}, contracts=cs) for c, cs in (
        (Path(), []),
        (Lookup(), [Path()]),
        (SetName("filter"), []), (SetName("facility"), []),
        (Defaults(), []),
        (Log(), look + [SetName("filter"), SetName("facility"), Path()]),
        (Resources(), look + [Path()]),
        (Domains(), look + [Path()]),
        (Populate(), look + [Log(), Resources(), Domains(), Path()]),
        (Load(), [Populate()]))]


ASSUMES = {"C17": [
    "yaml.safe_load gives a document made of dictionaries with hashable "
    "keys, lists, texts, integers, booleans, null, and values of other "
    "types (float, date, bytes, set), or fails",
    "a null value counts as absent or is rejected (the documentation does "
    "not say); keys that are not documented have no effect"]}
