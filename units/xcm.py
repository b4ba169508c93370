"""C25: paf.xcm under contract: every transport call does what was asked of
libxcm, once, and reports what libxcm did."""
import ctypes
import os
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import BuiltinMethod
from pyvc.loops import LoopSpec
from pyvc.runner import Unit
from pyvc.loader import CFunction

STR = sort("XText")
_A = z3.Datatype("AttrValue")
_A.declare("bool", ("ab", B))
_A.declare("int", ("ai", I))
_A.declare("str", ("as_", STR))
_A.declare("other", ("ao", I))
AV = _A.create()
n_ = z3.Const("attr_name", STR)
MAX = 65535                # libxcm's largest message
MAP = ("CMap.dom", "CMap.val")


def lit(s):
    return z3.Const("text:" + s, STR)


class Txt(Sym):
    """text, or its encoding (utf-8)"""
    def __init__(self, t, enc=False):
        self.t, self.enc = t, enc

    def __repr__(self):
        return "%s(%s)" % ("bytes" if self.enc else "text", short(self.t))

    def sym_isinstance(self, vc, t):
        ts = t if isinstance(t, tuple) else (t,)
        return (bytes if self.enc else str) in ts

    def sym_is(self, vc, o):
        return self is o

    def sym_getattr(self, vc, name):
        if name == "encode" and not self.enc:
            return BuiltinMethod(name, self, lambda *a: Txt(
                self.t, utf8(a)))
        raise Unsupported("text.%s" % name)

    def sym_str(self, vc):
        return SText()


def utf8(a):
    if a and a[0].lower().replace("-", "").replace("_", "") != "utf8":
        raise Unsupported("encoding %r" % (a,))
    return True


class Attr(Sym):
    """the value of an attribute: bool, int, str, or something else"""
    def __init__(self, t):
        self.t = t

    def sym_isinstance(self, vc, t):
        ts = t if isinstance(t, tuple) else (t,)
        if not set(ts) <= {bool, int, str}:
            raise Unsupported("isinstance(attribute, %r)" % (ts,))
        fs = []
        if bool in ts or int in ts:
            fs.append(AV.is_bool(self.t))
        if int in ts:
            fs.append(AV.is_int(self.t))
        if str in ts:
            fs.append(AV.is_str(self.t))
        return vc.ctx.branch(z3.Or(*fs), "attribute is %s" % "/".join(
            x.__name__ for x in ts))

    def sym_is(self, vc, o):
        if o is None:
            return False
        if isinstance(o, bool):
            return vc.ctx.branch(self.t == AV.bool(z3.BoolVal(o)), "is")
        return self is o

    def sym_type(self, vc):
        for k, r in ((bool, AV.is_bool), (int, AV.is_int), (str, AV.is_str)):
            if vc.ctx.branch(r(self.t), "type"):
                return k
        return object

    def sym_getattr(self, vc, name):
        if name == "encode" and vc.ctx.branch(AV.is_str(self.t), "text"):
            return BuiltinMethod(name, self, lambda *a: Txt(
                AV.as_(self.t), utf8(a)))
        raise ProgExc(AttributeError(name))

    def sym_str(self, vc):
        return SText()


class TTxt(T):
    def comps(self):
        return [("", STR)]

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, str):
            return [lit(v)]
        if isinstance(v, Txt) and not v.enc:
            return [v.t]
        raise Unsupported("text %r" % (v,))

    def dec(self, vc, terms):
        return Txt(terms[0])


class TAttr(T):
    def comps(self):
        return [("", AV)]

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, Attr):
            return [v.t]
        if isinstance(v, bool):
            return [AV.bool(z3.BoolVal(v))]
        if isinstance(v, int):
            return [AV.int(z3.IntVal(v))]
        if isinstance(v, str):
            return [AV.str(lit(v))]
        raise Unsupported("attribute value %r" % (v,))

    def dec(self, vc, terms):
        return Attr(terms[0])


def encoded(vc, v):
    """the text whose utf-8 encoding v is, if it is one"""
    v = vc.force(v)
    if isinstance(v, bytes):
        return lit(v.decode())
    if isinstance(v, Txt) and v.enc:
        return v.t


class Handle(Sym):
    """struct xcm_socket *, not NULL"""
    def sym_is(self, vc, o):
        return self is o

    def sym_eq(self, vc, o):
        return self is o

    def sym_truth(self, vc):
        return True


class CMap(Handle):
    """struct xcm_attr_map *"""


class Msg(Sym):
    """the bytes of a message"""
    def __init__(self, n):
        self.n = n

    def sym_len(self, vc):
        return SInt(self.n)

    def sym_is(self, vc, o):
        return self is o


class CVar(Sym):
    """c_int() and the like"""
    def __init__(self, ty, v):
        self.ty, self.v = ty, v

    def sym_getattr(self, vc, name):
        if name == "value":
            return self.v
        raise Unsupported("c_int.%s" % name)


class Buf(Sym):
    """create_string_buffer(cap)"""
    def __init__(self, cap):
        self.cap, self.what = cap, None

    def sym_getattr(self, vc, name):
        if name in ("raw", "value"):
            return Raw(self, name)
        raise Unsupported("buffer.%s" % name)

    def sym_getitem(self, vc, i):
        return Raw(self, "raw").sym_getitem(vc, i)

    def sym_len(self, vc):
        return self.cap


class Raw(Sym):
    """(part of) the contents of a buffer: all of it, up to the first zero,
    or the first so many bytes"""
    def __init__(self, buf, part, n=None):
        self.buf, self.part, self.n = buf, part, n

    def sym_is(self, vc, o):
        return self is o

    def sym_getitem(self, vc, i):
        if self.part != "raw" or not isinstance(i, slice) or \
           i.start not in (None, 0) or i.step not in (None, 1) or \
           i.stop is None:
            raise Unsupported("piece %r of a buffer" % (i,))
        n = vc.force(i.stop)
        n = z3.IntVal(n) if isinstance(n, int) else n.t
        # (n negative would cut off the end)
        vc.ctx.prove(n >= 0, "C25:a length is not negative")
        return Raw(self.buf, "first", n)

    def sym_getattr(self, vc, name):
        if name == "decode" and self.part == "value":
            return BuiltinMethod(name, self, lambda *a: utf8(a) and
                                 Raw(self.buf, "text"))
        raise Unsupported("contents.%s" % name)


class Ref(Sym):
    def __init__(self, to):
        self.to = to


class Ptr(Sym):
    """a pointer to, and what is there"""
    def __init__(self, raw, ty, at=False):
        self.raw, self.ty, self.at = raw, ty, at

    def sym_getattr(self, vc, name):
        if name == "contents" and not self.at:
            return Ptr(self.raw, self.ty, True)
        if name == "value" and self.at:
            return self.read(vc)
        raise Unsupported("pointer.%s" % name)

    def sym_getitem(self, vc, i):
        if i == 0 and not self.at:
            return self.read(vc)
        raise Unsupported("pointer[%r]" % (i,))

    def read(self, vc):
        what = self.raw.buf.what if isinstance(self.raw, Raw) and \
            self.raw.part in ("raw", "first") else None
        sizes = {"bool": ctypes.c_bool, "int": ctypes.c_int64}
        if what is not None and what[0] in sizes and \
           same_type(self.ty, sizes[what[0]]):
            return what[1]
        return SInt(vc.ctx.fresh("whatever", I))


def same_type(a, b):
    if a is b:
        return True
    try:
        return ctypes.sizeof(a) == ctypes.sizeof(b) and \
            a._type_.lower() == b._type_.lower() and \
            a._type_.isupper() == b._type_.isupper()
    except (AttributeError, TypeError):
        return False


PTRS = (ctypes.c_void_p, ctypes.c_char_p)


def fits(ty, want):
    if want == "p":
        return ty in PTRS or isinstance(ty, type) and issubclass(
            ty, ctypes._Pointer)
    if want == "b":
        return ty is ctypes.c_bool
    if want == "i":
        return same_type(ty, ctypes.c_int)
    if want == "l":          # size_t or int64_t
        return getattr(ty, "_type_", "?") in "lLqQ" and \
            ctypes.sizeof(ty) == 8
    if want == "v":
        return ty is None
    raise AssertionError(want)


# as declared in libxcm's xcm.h, xcm_attr.h and xcm_attr_map.h
SIGS = {
    "xcm_connect_a": "ppp", "xcm_server_a": "ppp", "xcm_accept_a": "ppp",
    "xcm_close": "ip", "xcm_finish": "ip", "xcm_send": "ippl",
    "xcm_receive": "ippl", "xcm_await": "ipi", "xcm_fd": "ip",
    "xcm_set_blocking": "ipb", "xcm_is_blocking": "bp",
    "xcm_attr_get": "ippppl", "xcm_attr_set_bool": "ippb",
    "xcm_attr_set_int64": "ippl", "xcm_attr_set_str": "ippp",
    "xcm_attr_map_create": "p", "xcm_attr_map_destroy": "vp",
    "xcm_attr_map_add_bool": "vppb", "xcm_attr_map_add_int64": "vppl",
    "xcm_attr_map_add_str": "vppp"}


class XcmWorld(World):
    def __init__(self, index):
        World.__init__(self, index)
        m = self.m = index.modules["xcm"]
        self.ghost("CMap.dom", z3.ArraySort(STR, B))
        self.ghost("CMap.val", z3.ArraySort(STR, AV))
        self.TAttrs = TMap(TTxt(), TAttr())
        self.cell("attrs", self.TAttrs)
        w = self.intercepts
        for n in SIGS:
            w[getattr(m.xcm_c, n)] = self.c_call(n)
        w[ctypes.get_errno] = lambda vc: vc.ctx.ghost.get(
            "errno", SInt(vc.ctx.fresh("errno", I)))
        w[os.strerror] = lambda vc, e: SText()
        w[OSError] = oserror
        w[ctypes.c_int] = lambda vc, v=0: CVar(ctypes.c_int, v)
        w[ctypes.create_string_buffer] = lambda vc, n: Buf(vc.force(n))
        w[ctypes.byref] = lambda vc, x: Ref(x)
        w[ctypes.cast] = lambda vc, x, p: Ptr(vc.force(x), getattr(
            p, "_type_", None))
        w[ctypes.POINTER] = lambda vc, t: ctypes.POINTER(t)
        w[bytes] = lambda vc, x: x if isinstance(vc.force(x), Raw) else \
            self.no_bytes(x)

    def no_bytes(self, x):
        raise Unsupported("bytes(%r)" % (x,))

    def loop_spec(self, vc, env, coll, st):
        v = vc.as_view(coll)
        if v is None or v.name() != "attrs":
            return None

        def inv(vc, env, V, D, pre):
            h, p = H(vc), H(vc, pre)
            x = z3.Select(h("CMap.dom"), n_)
            return [("C25:the map has the attributes given", z3.ForAll(
                [n_], z3.And(
                    x == z3.Or(z3.Select(p("CMap.dom"), n_),
                               z3.Select(V, n_)),
                    z3.Select(h("CMap.val"), n_) == z3.If(
                        z3.Select(V, n_), z3.Select(h("attrs.val"), n_),
                        z3.Select(p("CMap.val"), n_))),
                patterns=[x, z3.Select(h("CMap.val"), n_)]))]
        return LoopSpec("attrs", inv)

    def c_call(self, name):
        fn = getattr(self, "c_" + name[4:], None)
        obj = getattr(self.m.xcm_c, name)
        sig = SIGS[name]

        def call(vc, *args):
            g = vc.ctx.ghost
            args = [vc.force(a) for a in args]
            types = getattr(obj, "argtypes", None)
            res = getattr(obj, "restype", ctypes.c_int)
            vc.ctx.prove(z3.BoolVal(
                types is not None and len(types) == len(sig) - 1 and
                fits(res, sig[0]) and
                all(fits(t, s) for t, s in zip(types, sig[1:])) and
                len(args) == len(types)),
                "C25:%s is called as libxcm declares it" % name)
            # any call may set errno
            e = vc.ctx.fresh("errno", I)
            g["errno"] = SInt(e)
            return fn(vc, e, *args)
        return call

    def called(self, vc, name, ok, *args):
        g = vc.ctx.ghost
        g["calls"] = g.get("calls", ()) + ((name, ok, args),)

    # -- attribute maps
    def c_attr_map_create(self, vc, e):
        if vc.ctx.ghost.get("map") is not None:
            raise Unsupported("several attribute maps")
        vc.hset("CMap.dom", z3.K(STR, z3.BoolVal(False)))
        m = vc.ctx.ghost["map"] = CMap()
        return m

    def live(self, vc, m):
        g = vc.ctx.ghost
        vc.ctx.prove(z3.BoolVal(isinstance(m, CMap) and m is g.get("map") and
                                not g.get("freed")),
                     "C25:the attribute map exists when it is used")

    def c_attr_map_destroy(self, vc, e, m):
        if m is None:
            return None
        self.live(vc, m)
        vc.ctx.ghost["freed"] = True

    def added(self, vc, m, name, ok, v):
        self.live(vc, m)
        n = encoded(vc, name)
        vc.ctx.prove(z3.BoolVal(ok and n is not None),
                     "C25:an attribute is passed as what it is")
        if n is None or not ok:
            raise PathEnd()
        vc.hset("CMap.dom", z3.Store(vc.hget("CMap.dom"), n,
                                     z3.BoolVal(True)))
        vc.hset("CMap.val", z3.Store(vc.hget("CMap.val"), n, v))

    def kind(self, vc, v, k):
        """v, passed as a C bool, int64 or string"""
        if k == "str":
            t = encoded(vc, v)
            return t is not None, t if t is None else AV.str(t)
        if isinstance(v, Attr):
            is_ = AV.is_bool if k == "bool" else AV.is_int
            return vc.ctx.entails(is_(v.t)), v.t
        if isinstance(v, bool if k == "bool" else int) and \
           (k == "bool" or not isinstance(v, bool)):
            return True, TAttr().enc(vc, v)[0]
        return False, None

    def c_attr_map_add_bool(self, vc, e, m, name, v):
        self.added(vc, m, name, *self.kind(vc, v, "bool"))

    def c_attr_map_add_int64(self, vc, e, m, name, v):
        self.added(vc, m, name, *self.kind(vc, v, "int"))

    def c_attr_map_add_str(self, vc, e, m, name, v):
        self.added(vc, m, name, *self.kind(vc, v, "str"))

    # -- sockets
    def use(self, vc, s):
        g = vc.ctx.ghost
        vc.ctx.prove(z3.BoolVal(isinstance(s, Handle) and
                                s is g.get("handle") and
                                not g.get("closed")),
                     "C25:no operation on a closed socket")
        if not isinstance(s, Handle):
            raise PathEnd()

    def created(self, vc, name, e, *args):
        self.live(vc, args[-1])
        h = H(vc)
        mp = (h("CMap.dom"), h("CMap.val"))
        if vc.ctx.choose(["ok", "NULL"], name) == "NULL":
            self.called(vc, name, e, *args[:-1], mp)
            return None
        r = vc.ctx.ghost["new"] = Handle()
        self.called(vc, name, None, *args[:-1], mp)
        return r

    def c_connect_a(self, vc, e, addr, m):
        return self.created(vc, "connect", e, addr, m)

    def c_server_a(self, vc, e, addr, m):
        return self.created(vc, "server", e, addr, m)

    def c_accept_a(self, vc, e, s, m):
        self.use(vc, s)
        return self.created(vc, "accept", e, m)

    def rc(self, vc, name, e, *args, lo=0, hi=None):
        if vc.ctx.choose(["ok", "failed"], name) == "failed":
            r = vc.ctx.fresh("rc", I)
            vc.ctx.assume(r == -1)
            self.called(vc, name, e, *args)
            return SInt(r)
        r = vc.ctx.fresh("rc", I)
        vc.ctx.assume(r >= lo)
        if hi is not None:
            vc.ctx.assume(r <= hi)
        self.called(vc, name, None, *args, SInt(r))
        return SInt(r)

    def c_close(self, vc, e, s):
        self.use(vc, s)
        vc.ctx.ghost["closed"] = True
        return self.rc(vc, "close", e)

    def c_finish(self, vc, e, s):
        self.use(vc, s)
        return self.rc(vc, "finish", e)

    def c_send(self, vc, e, s, msg, n):
        self.use(vc, s)
        return self.rc(vc, "send", e, msg, n)

    def c_receive(self, vc, e, s, buf, cap):
        self.use(vc, s)
        buf = buf.to if isinstance(buf, Ref) else buf
        ok = isinstance(buf, Buf) and isinstance(cap, int) and \
            isinstance(buf.cap, int)
        vc.ctx.prove(z3.BoolVal(ok and cap <= buf.cap and cap >= MAX),
                     "C25:the largest message fits the buffer")
        if not ok:
            raise PathEnd()
        r = self.rc(vc, "receive", e, hi=cap)
        buf.what = ("msg", r)
        vc.ctx.ghost["buf"] = buf
        return r

    def c_await(self, vc, e, s, cond):
        self.use(vc, s)
        return self.rc(vc, "await", e, cond)

    def c_fd(self, vc, e, s):
        self.use(vc, s)
        return self.rc(vc, "fd", e)

    def c_set_blocking(self, vc, e, s, v):
        self.use(vc, s)
        return self.rc(vc, "set_blocking", e, v)

    def c_is_blocking(self, vc, e, s):
        self.use(vc, s)
        r = SBool(vc.ctx.fresh("blocking", B))
        self.called(vc, "is_blocking", None, r)
        return r

    def c_attr_get(self, vc, e, s, name, ty, buf, cap):
        self.use(vc, s)
        buf = buf.to if isinstance(buf, Ref) else buf
        ok = isinstance(buf, Buf) and isinstance(cap, int) and \
            isinstance(buf.cap, int) and isinstance(ty, Ref) and \
            isinstance(ty.to, CVar) and same_type(ty.to.ty, ctypes.c_int)
        vc.ctx.prove(z3.BoolVal(ok and cap <= buf.cap and cap >= 8),
                     "C25:an attribute's value fits the buffer")
        if not ok:
            raise PathEnd()
        r = self.rc(vc, "attr_get", e, name, hi=cap)
        if vc.ctx.ghost["calls"][-1][1] is None:
            what = vc.ctx.choose(["bool", "int", "str", "bin", "new"],
                                 "type")
            # enum xcm_attr_type
            code = ["bool", "int", "str", "bin"].index(what) + 1 if \
                what != "new" else vc.ctx.fresh("type", I)
            if what == "new":
                vc.ctx.assume(z3.Or(code < 1, code > 4))
            ty.to.v = SInt(z3.IntVal(code) if isinstance(code, int)
                           else code)
            val = {"bool": lambda: SBool(vc.ctx.fresh("b", B)),
                   "int": lambda: SInt(vc.ctx.fresh("i", I))}.get(
                       what, lambda: None)()
            buf.what = (what, val)
            vc.ctx.ghost["buf"] = buf
        return r

    def set_(self, vc, e, s, name, v, k):
        self.use(vc, s)
        ok, t = self.kind(vc, v, k)
        vc.ctx.prove(z3.BoolVal(ok),
                     "C25:an attribute is passed as what it is")
        return self.rc(vc, "attr_set", e, name, t)

    def c_attr_set_bool(self, vc, e, s, name, v):
        return self.set_(vc, e, s, name, v, "bool")

    def c_attr_set_int64(self, vc, e, s, name, v):
        return self.set_(vc, e, s, name, v, "int")

    def c_attr_set_str(self, vc, e, s, name, v):
        return self.set_(vc, e, s, name, v, "str")


def oserror(vc, *args):
    o = OSError.__new__(OSError)
    o.args = ("...",)
    if 2 <= len(args) <= 5:
        o.errno = vc.force(args[0])
    return o


def eq(vc, a, b):
    """formula: the integers (or booleans) are equal"""
    a, b = vc.force(a), vc.force(b)
    if type(a) is bool and type(b) is bool:
        return z3.BoolVal(a == b)
    for ty in (TBool(), TInt()):
        try:
            return ty.enc(vc, a)[0] == ty.enc(vc, b)[0]
        except Unsupported:
            pass
    return z3.BoolVal(a is b)


class XcmOp(Contract):
    exc_tag = "C25"
    made = None                # C operation the function stands for

    def __init__(self, q, c, how, state="open"):
        self.q, self.c, self.how, self.state = q, c, how, state

    def call(self, vc, f, *args, **kw):
        try:
            return vc.force(self.body(vc, f, list(args), kw)), None
        except ProgExc as e:
            return None, e.exc

    def cover(self, vc, n):
        stats_cover(vc.ctx, "%s:%s" % (self.q, n))

    def socket(self, vc, cls):
        m = vc.w.m
        o = getattr(m, cls).__new__(getattr(m, cls))
        h = None
        if self.state == "open":
            h = vc.ctx.ghost["handle"] = Handle()
        o.__dict__["xcm_socket"] = h
        return o

    def verify(self, vc, f):
        ctx = vc.ctx
        want, args, check = self.how(self, vc, f)
        res, exc = self.call(vc, f, *args)
        calls = ctx.ghost.get("calls", ())
        T = "C25:%s " % self.q
        if ctx.ghost.get("map") is not None:
            ctx.prove(z3.BoolVal(bool(ctx.ghost.get("freed"))),
                      T + "frees the attribute map")
        if self.state == "closed":
            self.cover(vc, "closed")
            ctx.prove(z3.BoolVal(not calls), T + "on a closed socket does "
                      "not reach libxcm")
            ctx.prove(z3.BoolVal(
                exc is not None if self.c not in ("close", "del") else
                exc is None or self.c == "close"),
                T + "on a closed socket is an error")
            return
        if check(calls, res, exc):
            return
        ctx.prove(z3.BoolVal(len(calls) == 1 and calls[0][0] == want),
                  T + "is one xcm_%s" % want)
        if len(calls) != 1 or calls[0][0] != want:
            return
        _, failed, cargs = calls[0]
        for n, g in self.args_ok(vc, cargs):
            ctx.prove(g, T + n)
        if failed is not None:
            self.cover(vc, "failed")
            self.failed(vc, T, failed, res, exc)
        else:
            self.cover(vc, "ok")
            if exc is not None:
                ctx.prove(z3.BoolVal(False), T + "succeeds if libxcm did")
                return
            ctx.prove(self.result_ok(vc, cargs, res),
                      T + "gives what libxcm gave")

    def failed(self, vc, T, e, res, exc):
        if self.want_exc is OSError:
            ok = isinstance(exc, OSError) and isinstance(
                exc.errno, (int, SInt))
            vc.ctx.prove(z3.BoolVal(bool(ok)), T + "fails if libxcm did")
            if ok:
                vc.ctx.prove(eq(vc, exc.errno, SInt(e)),
                             T + "reports libxcm's error number")
        elif self.want_exc is not None:
            vc.ctx.prove(z3.BoolVal(isinstance(exc, self.want_exc)),
                         T + "fails if libxcm did")
        else:
            vc.ctx.prove(z3.BoolVal(exc is None), T + "does not fail")

    want_exc = OSError

    def args_ok(self, vc, cargs):
        return []

    def result_ok(self, vc, cargs, res):
        return z3.BoolVal(True)


def never(calls, res, exc):
    return False


def simple(cls, want):
    def how(self, vc, f):
        self.sock = self.socket(vc, cls)
        return want, [self.sock], never
    return how


class Close(XcmOp):
    want_exc = None

    def args_ok(self, vc, cargs):
        return [("forgets the socket", z3.BoolVal(
            self.sock.__dict__.get("xcm_socket", 1) is None))]


class Fd(XcmOp):
    def result_ok(self, vc, cargs, res):
        return eq(vc, res, cargs[-1])


class IsBlocking(XcmOp):
    def result_ok(self, vc, cargs, res):
        return eq(vc, res, cargs[-1])


class OneArg(XcmOp):
    """set_target, set_blocking"""
    def how_(self, vc, f):
        self.sock = self.socket(vc, "ConnectionSocket")
        self.arg = SBool(vc.ctx.fresh("v", B)) if self.c == "set_blocking" \
            else SInt(vc.ctx.fresh("condition", I))
        return self.c, [self.sock, self.arg], never

    def args_ok(self, vc, cargs):
        return [("passes its argument", eq(vc, cargs[0], self.arg))]


class SetTarget(OneArg):
    want_exc = ValueError


class Send(XcmOp):
    def how_(self, vc, f):
        self.sock = self.socket(vc, "ConnectionSocket")
        n = vc.ctx.fresh("length", I)
        vc.ctx.assume(n >= 0)
        self.msg = Msg(n)
        return "send", [self.sock, self.msg], never

    def args_ok(self, vc, cargs):
        return [("sends the message", z3.BoolVal(cargs[0] is self.msg)),
                ("sends all of the message", eq(vc, cargs[1],
                                                SInt(self.msg.n)))]


class Receive(XcmOp):
    def result_ok(self, vc, cargs, res):
        b = vc.ctx.ghost.get("buf")
        if not (isinstance(res, Raw) and res.buf is b and
                res.part == "first"):
            return z3.BoolVal(False)
        return res.n == cargs[-1].t


class GetAttr(XcmOp):
    def how_(self, vc, f):
        self.sock = self.socket(vc, "ConnectionSocket")
        self.name = Txt(vc.ctx.fresh("name", STR))

        def check(calls, res, exc):
            b = vc.ctx.ghost.get("buf")
            if b is not None and b.what and b.what[0] == "new":
                self.cover(vc, "new type")
                vc.ctx.prove(z3.BoolVal(exc is not None),
                             "C25:an attribute of an unknown type is an "
                             "error")
                return True
            return False
        return "attr_get", [self.sock, self.name], check

    def args_ok(self, vc, cargs):
        n = encoded(vc, cargs[0])
        return [("asks for the attribute named", z3.BoolVal(False)
                 if n is None else n == self.name.t)]

    def result_ok(self, vc, cargs, res):
        what, v = vc.ctx.ghost["buf"].what
        self.cover(vc, what)
        if what in ("bool", "int"):
            if what == "bool" and not isinstance(res, (bool, SBool)):
                return z3.BoolVal(False)
            return eq(vc, res, v)
        if not (isinstance(res, Raw) and
                res.buf is vc.ctx.ghost["buf"]):
            return z3.BoolVal(False)
        if what == "str":
            return z3.BoolVal(res.part == "text")
        return res.n == cargs[-1].t if res.part == "first" else \
            z3.BoolVal(False)


def int64(t):
    return z3.Implies(AV.is_int(t), z3.And(AV.ai(t) >= -2 ** 63,
                                           AV.ai(t) < 2 ** 63))


class SetAttr(XcmOp):
    def how_(self, vc, f):
        self.sock = self.socket(vc, "ConnectionSocket")
        self.name = Txt(vc.ctx.fresh("name", STR))
        self.val = Attr(vc.ctx.fresh("value", AV))
        vc.ctx.assume(int64(self.val.t))

        def check(calls, res, exc):
            if vc.ctx.entails(AV.is_other(self.val.t)):
                self.cover(vc, "bad type")
                vc.ctx.prove(z3.BoolVal(isinstance(exc, TypeError) and
                                        not calls),
                             "C25:an attribute of another type is refused")
                return True
            vc.ctx.prove(z3.Not(AV.is_other(self.val.t)),
                         "C25:an attribute of another type is refused")
            return False
        return "attr_set", [self.sock, self.name, self.val], check

    def args_ok(self, vc, cargs):
        n = encoded(vc, cargs[0])
        t = cargs[1]
        return [("sets the attribute named", z3.BoolVal(False)
                 if n is None else n == self.name.t),
                ("sets the value given", z3.BoolVal(False) if t is None
                 else t == self.val.t)]


class Create(XcmOp):
    """connect, server and accept"""
    def how_(self, vc, f):
        ctx = vc.ctx
        self.flags = 0
        if ctx.choose(["given", "none"], "attributes") == "given":
            attrs = vc.cell("attrs", vc.w.TAttrs)
            h = H(vc)
            v = z3.Select(h("attrs.val"), n_)
            ctx.assume(z3.ForAll([n_], int64(v), patterns=[v]))
            self.d, self.v = h("attrs.dom"), h("attrs.val")
            args = [attrs]
            kw = True
        else:
            self.d = z3.K(STR, z3.BoolVal(False))
            self.v = vc.hget("attrs.val")
            args = []
        bad = z3.And(z3.Select(self.d, n_), AV.is_other(z3.Select(
            self.v, n_)))
        self.addr = Txt(ctx.fresh("addr", STR))
        cls = "ServerSocket" if self.c == "server" else "ConnectionSocket"
        self.cls = getattr(vc.w.m, cls)
        if self.c == "accept":
            self.sock = self.socket(vc, "ServerSocket")
            args = [self.sock] + args
        elif self.c == "server":
            args = [self.addr] + args
        else:
            if args or ctx.choose(["none", "given"], "flags") == "given":
                k = ctx.choose(["0", "NONBLOCK", "other"], "which flags")
                self.flags = {"0": 0, "NONBLOCK": 1}.get(k)
                if self.flags is None:
                    x = ctx.fresh("flags", I)
                    ctx.assume(z3.And(x != 0, x != 1))
                    args = [self.addr, SInt(x)] + args
                else:
                    args = [self.addr, self.flags] + args
            else:
                args = [self.addr]
            if self.flags == 1:
                n = lit("xcm.blocking")
                self.d = z3.Store(self.d, n, z3.BoolVal(True))
                self.v = z3.Store(self.v, n, AV.bool(z3.BoolVal(False)))

        def check(calls, res, exc):
            if isinstance(exc, TypeError):
                self.cover(vc, "bad type")
                vc.ctx.prove(z3.Exists([n_], bad),
                             "C25:attributes are refused for their type "
                             "only")
            elif self.flags is None:
                self.cover(vc, "bad flags")
                vc.ctx.prove(z3.BoolVal(isinstance(exc, ValueError)),
                             "C25:unknown flags are refused")
            else:
                return False
            vc.ctx.prove(z3.BoolVal(not calls),
                         "C25:nothing is done if refused")
            return True
        return self.c, args, check

    def args_ok(self, vc, cargs):
        d, v = cargs[-1]
        x = z3.Select(d, n_)
        out = [("passes exactly the attributes given", z3.ForAll(
            [n_], z3.And(x == z3.Select(self.d, n_), z3.Implies(
                x, z3.Select(v, n_) == z3.Select(self.v, n_)))))]
        if self.c != "accept":
            a = encoded(vc, cargs[0])
            out.append(("uses the address given", z3.BoolVal(False)
                        if a is None else a == self.addr.t))
        return out

    def result_ok(self, vc, cargs, res):
        return z3.BoolVal(type(res) is self.cls and
                          res.__dict__.get("xcm_socket") is
                          vc.ctx.ghost["new"])


class Library(XcmOp):
    """The library is loaded so that error numbers are kept."""
    synthetic = True

    def verify(self, vc, f):
        self.cover(vc, "return")
        lib = vc.w.m.xcm_c
        vc.ctx.prove(z3.BoolVal(lib.__dict__.get("use_errno") is True),
                     "C25:libxcm's error numbers are kept")
        m = vc.w.m
        vc.ctx.prove(z3.BoolVal(
            (m.SO_RECEIVABLE, m.SO_SENDABLE, m.SO_ACCEPTABLE) == (1, 2, 4)),
            "C25:conditions are libxcm's")
        vc.ctx.prove(z3.BoolVal(m.error is OSError),
                     "C25:transport errors are OSError")


def units():
    us = []

    def add(cls, q, c, how=None, states=("open", "closed"), covers=()):
        for s in states:
            con = cls(q, c, how or cls.how_, s)
            us.append(Unit("xcm", XcmWorld, con, {"C25"},
                           name="%s[%s]" % (q, s) if len(states) > 1 else q))
            con.covers = ["%s:%s" % (q, x) for x in (
                ("ok", "failed") + tuple(covers) if s == "open" else
                ("closed",))]
    S, C = "xcm.Socket.", "xcm.ConnectionSocket."
    cs = lambda want: simple("ConnectionSocket", want)
    add(Close, S + "close", "close", cs("close"))
    add(Close, S + "__del__", "del", cs("close"))
    add(XcmOp, S + "finish", "finish", cs("finish"))
    add(OneArg, S + "set_blocking", "set_blocking")
    add(SetTarget, S + "set_target", "await")
    add(IsBlocking, S + "is_blocking", "is_blocking", cs("is_blocking"))
    add(Fd, S + "fileno", "fd", cs("fd"))
    add(SetAttr, S + "set_attr", "attr_set", covers=("bad type",))
    add(GetAttr, S + "get_attr", "attr_get", covers=(
        "bool", "int", "str", "bin", "new type"))
    add(Send, C + "send", "send")
    add(Receive, C + "receive", "receive", cs("receive"))
    add(Create, "xcm.ServerSocket.accept", "accept", covers=("bad type",))
    add(Create, "xcm.connect", "connect", states=("open",), covers=(
        "bad type", "bad flags"))
    add(Create, "xcm.server", "server", states=("open",), covers=(
        "bad type",))
    for u in us:
        if u.contract.c == "is_blocking" and u.contract.state == "open":
            u.contract.covers = [u.contract.q + ":ok"]
    us.append(Unit("xcm", XcmWorld, Library(None, None, None), {"C25"},
                   name="xcm library"))
    return us


ASSUMES = {"C25": [
    "libxcm: pointers are NULL or valid; calls returning int give -1 and set "
    "errno on failure, and otherwise a value that is not negative and, where "
    "a buffer is filled, at most its size; xcm_attr_get reports the type of "
    "the value it stored; strings are UTF-8; freeing a NULL attribute map "
    "does nothing",
    "ctypes passes arguments as declared, and get_errno gives the errno of "
    "the last foreign call of a library loaded with use_errno",
    "attribute values that are integers fit 64 bits",
    "the result of xcm_close is not reported (the socket is gone either "
    "way)"]}
