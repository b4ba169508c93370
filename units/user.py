"""Who a connection is taken for: Connection.determine_user_id (C04)."""
import ast
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import BuiltinMethod, SymComp
from pyvc.runner import Unit

ZS = z3.StringSort()
hex2 = z3.Function("two_hex_digits", I, ZS)
byte = z3.Function("ski_byte", I, I)


def zterm(v):
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, Txt):
        return v.term()


def zint(vc, v):
    v = vc.force(v)
    if isinstance(v, bool) or not isinstance(v, (int, SInt)):
        raise Unsupported("text offset %r" % (v,))
    return z3.IntVal(v) if isinstance(v, int) else v.t


class Txt(Sym):
    """a text: literals and terms in a row"""
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, Txt):
                self.parts += p.parts
            elif isinstance(p, str) and self.parts and \
                    isinstance(self.parts[-1], str):
                self.parts[-1] += p
            elif not (isinstance(p, str) and p == ""):
                self.parts.append(p)

    def __repr__(self):
        return "text%r" % (self.parts,)

    def term(self):
        ts = [z3.StringVal(p) if isinstance(p, str) else p
              for p in self.parts]
        return z3.Concat(*ts) if len(ts) > 1 else ts[0] if ts else \
            z3.StringVal("")

    def sym_truth(self, vc):
        return vc.ctx.branch(z3.Length(self.term()) > 0, "text not empty")

    def sym_len(self, vc):
        return SInt(z3.Length(self.term()))

    def sym_eq(self, vc, o):
        t = zterm(vc.force(o))
        return False if t is None else mkbool(self.term() == t)

    def sym_is(self, vc, o):
        return self is o

    def sym_isinstance(self, vc, t):
        ts = t if isinstance(t, tuple) else (t,)
        return str in ts

    def sym_str(self, vc):
        return self

    def sym_hash(self, vc):
        pass

    def sym_contains(self, vc, o):
        return vc.ctx.branch(z3.Contains(self.term(), self.need(vc, o)),
                             "occurs")

    def sym_binop(self, vc, op, o, swapped):
        o = vc.force(o)
        if isinstance(op, ast.Add) and zterm(o) is not None:
            return Txt([o, self] if swapped else [self, o])
        raise Unsupported("text %s %r" % (type(op).__name__, o))

    def need(self, vc, o):
        t = zterm(vc.force(o))
        if t is None:
            raise Unsupported("text method with %r" % (o,))
        return t

    def sym_getitem(self, vc, n):
        n = vc.force(n)
        if not isinstance(n, slice) or n.step not in (None, 1):
            raise Unsupported("index %r of a text" % (n,))
        t = self.term()
        ln = z3.Length(t)
        a = z3.IntVal(0) if n.start is None else zint(vc, n.start)
        b = ln if n.stop is None else zint(vc, n.stop)
        k = z3.simplify(a)
        if n.stop is None and z3.is_int_value(k) and self.parts and \
           isinstance(self.parts[0], str) and \
           0 <= k.as_long() <= len(self.parts[0]):
            return Txt([self.parts[0][k.as_long():]] + self.parts[1:])
        if vc.ctx.branch(a < 0, "negative start"):
            a = z3.If(ln + a < 0, 0, ln + a)
        if vc.ctx.branch(b < 0, "negative stop"):
            b = z3.If(ln + b < 0, 0, ln + b)
        return self.piece(vc, z3.SubString(t, a, z3.If(b > a, b - a, 0)))

    def piece(self, vc, t):
        return Txt([t])

    def sym_getattr(self, vc, name):
        m = getattr(self, "m_" + name, None)
        if m is None:
            raise Unsupported("str.%s" % name)
        return BuiltinMethod(name, self, lambda *a: m(vc, *a))

    def m_startswith(self, vc, p):
        ps = vc.force(p)
        return mkbool(z3.simplify(z3.Or(*[
            z3.PrefixOf(self.need(vc, x), self.term())
            for x in (ps if isinstance(ps, tuple) else (ps,))])))

    def m_endswith(self, vc, p):
        return mkbool(z3.SuffixOf(self.need(vc, p), self.term()))

    def cut(self, vc, sep, last):
        """the texts before and after the first (last) separator, if any"""
        s = self.need(vc, sep)
        t = self.term()
        if not (isinstance(sep, str) and len(sep) == 1):
            raise Unsupported("separator %r" % (sep,))
        for k in range(len(self.parts)):
            i = len(self.parts) - 1 - k if last else k
            p = self.parts[i]
            if isinstance(p, str) and sep in p:
                a, b = p.rsplit(sep, 1) if last else p.split(sep, 1)
                return Txt(self.parts[:i] + [a]), Txt([b] + self.parts[i + 1:])
            if not isinstance(p, str) and not vc.ctx.entails(z3.Not(
                    z3.Contains(p, s))):
                break
        if not vc.ctx.branch(z3.Contains(t, s), "has a separator"):
            return None
        a, b = vc.ctx.fresh("before", ZS), vc.ctx.fresh("after", ZS)
        vc.ctx.assume(z3.And(t == z3.Concat(a, s, b), z3.Not(z3.Contains(
            b if last else a, s))))
        return Txt([a]), Txt([b])

    def split(self, vc, last, sep, n):
        if n != 1:
            raise Unsupported("split into many")
        c = self.cut(vc, sep, last)
        return [self] if c is None else list(c)

    def m_split(self, vc, sep, n=-1):
        if n == 1:
            return self.split(vc, False, sep, n)
        return Pieces(self, sep)

    def m_rsplit(self, vc, sep, n=-1):
        return self.split(vc, True, sep, n)

    def m_partition(self, vc, sep):
        c = self.cut(vc, sep, False)
        return (self, "", "") if c is None else (c[0], sep, c[1])

    def m_rpartition(self, vc, sep):
        c = self.cut(vc, sep, True)
        return ("", "", self) if c is None else (c[0], sep, c[1])

    def find(self, vc, sep, last):
        c = self.cut(vc, sep, last)
        return -1 if c is None else SInt(z3.Length(c[0].term()))

    def m_find(self, vc, sep):
        return self.find(vc, sep, False)

    def m_rfind(self, vc, sep):
        return self.find(vc, sep, True)

    def index(self, vc, sep, last):
        r = self.find(vc, sep, last)
        if isinstance(r, int):
            raise ProgExc(ValueError("substring not found"))
        return r

    def m_index(self, vc, sep):
        return self.index(vc, sep, False)

    def m_rindex(self, vc, sep):
        return self.index(vc, sep, True)


class Pieces(Sym):
    """text.split(sep)"""
    def __init__(self, t, sep):
        self.t, self.sep = t, sep

    def sym_getitem(self, vc, n):
        n = vc.force(n)
        if n == 0:
            c = self.t.cut(vc, self.sep, False)
            return self.t if c is None else c[0]
        if n == -1:
            c = self.t.cut(vc, self.sep, True)
            return self.t if c is None else c[1]
        raise Unsupported("piece %r" % (n,))


class Ski(Sym):
    """the subject key identifier: any number of bytes"""
    is_view = True
    is_snapshot = False

    def __init__(self, n):
        self.n = n

    def key_sort(self):
        return I

    def dom(self):
        i = z3.Int("i!ski")
        return z3.Lambda([i], z3.And(i >= 0, i < self.n))

    def elem(self, k):
        return SInt(byte(k))

    def sym_iter(self, vc):
        yield ("sym", self)

    def sym_len(self, vc):
        return SInt(self.n)

    def sym_truth(self, vc):
        return vc.ctx.branch(self.n > 0, "key id not empty")

    def sym_is(self, vc, o):
        return self is o

    def sym_getattr(self, vc, name):
        if name == "hex":
            return BuiltinMethod(
                name, self, lambda sep="", *n: Hex() if type(self) is Ski
                else Txt([vc.ctx.fresh("digits", ZS)]))
        raise Unsupported("bytes.%s" % name)

    def sym_getitem(self, vc, n):
        if isinstance(n, slice) and n.start in (None, 0) and \
           n.stop is None and n.step in (None, 1):
            return self
        if isinstance(n, slice):
            m = vc.ctx.fresh("some", I)
            vc.ctx.assume(z3.And(m >= 0, m <= self.n))
            return SkiPart(m)
        raise Unsupported("a byte of the key identifier")


class SkiPart(Ski):
    """some of its bytes"""


class Hex(Sym):
    """the hexadecimal digits of the key identifier"""
    def sym_is(self, vc, o):
        return self is o


class UserWorld(World):
    def __init__(self, index):
        World.__init__(self, index)
        self.srv = index.modules["server"]
        self.xcm = self.srv.xcm
        for n in ("debug", "info", "warning"):
            self.active_contracts["logging." + n] = \
                self.active_contracts["server.Connection." + n] = \
                lambda vc, f, a, k: None

    def format_hook(self, vc, fmt, specs, vals):
        vals = [vc.force(v) for v in vals]
        if specs == ["x"] and fmt == "%02x" and isinstance(vals[0], SInt):
            return Txt([hex2(vals[0].t)])
        if set(specs) == {"s"}:
            return self.joined_hook(vc, [
                x for pair in zip(fmt.split("%s"), vals + [""])
                for x in pair])
        return World.format_hook(self, vc, fmt, specs, vals)

    def joined_hook(self, vc, pieces):
        if any(isinstance(p, Hex) for p in pieces):
            i = [isinstance(p, Hex) for p in pieces].index(True)
            return Ident(Txt(pieces[:i]), pieces[i], Txt(pieces[i + 1:]))
        if not all(zterm(p) is not None for p in pieces):
            raise Unsupported("text made of %r" % (pieces,))
        return Txt(pieces)

    def join_comp(self, vc, sep, comp):
        if isinstance(comp.view, SkiPart):
            return Txt([vc.ctx.fresh("digits", ZS)])
        if isinstance(comp.view, Ski) and len(comp.value) == 1:
            c, v = comp.value[0]
            if isinstance(v, tuple):
                v = v[0]
            if vc.ctx.entails(c) and zterm(v) is not None and vc.ctx.entails(
                    zterm(v) == hex2(byte(comp.key))):
                return Hex()
        raise Unsupported("join of %r" % (comp,))


class Ident(Sym):
    """a text with the key identifier in it"""
    def __init__(self, a, h, b):
        self.a, self.h, self.b = a, h, b

    def sym_is(self, vc, o):
        return self is o


class UserId(Contract):
    """Each user has an identity of its own: what identifies a peer is its
    certificate's key identifier (TLS), else its IP address, whole and in a
    form that no other kind of identity can take."""
    q = "server.Connection.determine_user_id"
    exc_tag = "C04"

    def __init__(self, proto, v6=False):
        self.proto = proto
        self.covers = ["user:ip"] if proto == "tcp" else \
            ["user:ski", "user:ip"] if proto == "tls" else ["user:local"]

    def verify(self, vc, f):
        ctx, w = vc.ctx, vc.w
        o = w.srv.Connection.__new__(w.srv.Connection)
        ip, port = ctx.fresh("ip", ZS), ctx.fresh("port", ZS)
        ctx.assume(z3.Not(z3.Contains(port, z3.StringVal(":"))))
        inet = self.proto in ("tcp", "tls")
        addr = Txt([self.proto + ":", ip] + ([":", port] if inet else []))
        ski = Ski(ctx.fresh("ski_len", I))
        ctx.assume(ski.n >= 0)
        got = []

        class Sock(Sym):
            def sym_getattr(self, vc, name):
                if name == "get_attr":
                    return BuiltinMethod(name, self, attr)
                raise Unsupported("socket.%s" % name)

        def attr(name):
            if name != "tls.peer_subject_key_id":
                raise Unsupported("attribute %r" % (name,))
            if not self.proto == "tls" or ctx.choose(
                    ["given", "not given"], "key id") == "not given":
                e = w.xcm.error.__new__(w.xcm.error)
                e.args = (2, "...")
                e.errno = 2
                raise ProgExc(e)
            got.append(1)
            return ski
        o.__dict__.update(conn_addr=addr, conn_sock=Sock())
        try:
            r = vc.force(self.body(vc, f, [o], {}))
        except ProgExc as e:
            ctx.prove(z3.BoolVal(False), "C04:%s ends with unexpected %s" % (
                self.q, type(e.exc).__name__))
            return
        cov = lambda n: ctx.stats.covers.update(
            {n: ctx.stats.covers.get(n, 0) + 1})
        T = "C04:peers are told apart by "
        local = w.index.modules["sd"].DEFAULT_USER_ID
        kinds = ["ip:", "ski:"]
        if self.proto == "tls" and got:
            cov("user:ski")
            ok = isinstance(r, Ident) and all(
                isinstance(p, str) for p in r.a.parts + r.b.parts)
            ctx.prove(z3.BoolVal(ok), T + "the whole key identifier")
            if ok:
                p = "".join(r.a.parts)
                ctx.prove(z3.BoolVal(p not in ("", "ip:") and
                                     not p.startswith("ip:") and
                                     not "ip:".startswith(p) and
                                     not local.startswith(p)),
                          T + "a key identifier that is none else's identity")
        elif inet:
            cov("user:ip")
            if isinstance(r, Ident) or zterm(r) is None:
                ctx.prove(z3.BoolVal(False), T + "the IP address")
                return
            ctx.prove(zterm(r) == z3.Concat(z3.StringVal("ip:"), ip),
                      T + "the IP address")
        else:
            cov("user:local")
            ctx.prove(z3.BoolVal(r == local if isinstance(r, str) else False),
                      T + "being local")
            ctx.prove(z3.BoolVal(not any(local.startswith(k)
                                         for k in kinds)),
                      T + "being local, which no other identity looks like")


def units():
    return [Unit("user", UserWorld, UserId(p), {"C04"},
                 name="server.Connection.determine_user_id[%s]" % p)
            for p in ("tls", "tcp", "ux", "uxf")]


ASSUMES = {"C04": [
    "xcm addresses of TCP and TLS connections are <protocol>:<ip>:<port>, "
    "the port without a colon; the subject key identifier is a byte string "
    "or not available (xcm.error)"]}
