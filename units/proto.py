"""C12: paf.proto under contract: parsing is total and typed, encoding and
decoding are inverse, for every JSON value and every well-formed message."""
import json
import os
import sys
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import BuiltinMethod
from pyvc.loops import LoopSpec
from pyvc.runner import Unit
from .jsonval import *

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "dyn"))
import refproto                                          # noqa: E402

HDR = ("ta-cmd", "ta-id", "msg-type")
MAX63 = (1 << 63) - 1


def field_ok(vc, h, kind, j):
    """the documented type of a field"""
    if kind == refproto.INT:
        return z3.And(J.is_Jint(j), J.ji(j) >= 0, J.ji(j) <= MAX63)
    if kind == refproto.STR:
        return J.is_Jstr(j)
    if kind == refproto.NUM:
        return z3.Or(z3.And(J.is_Jint(j), J.ji(j) >= 0),
                     z3.And(J.is_Jflt(j), J.jc(j) != 2,
                            z3.Or(J.jc(j) != 0, J.jr(j) >= 0)))
    return z3.And(J.is_Jdct(j), wfp(h, J.jd(j)))


def dct(h, d, vc, name):
    c = S(vc, name)
    return z3.Select(h.at("Jd.dom", d), c), z3.Select(h.at("Jd.val", d), c)


def header(vc, h, d):
    out = []
    for n, k in (("ta-cmd", refproto.STR), ("ta-id", refproto.INT),
                 ("msg-type", refproto.STR)):
        dom, val = dct(h, d, vc, n)
        out += [dom, field_ok(vc, h, k, val)]
    return z3.And(*out)


def shape(vc, h, j, version, cmd, typ):
    """j is a JSON object that spells a message of this command and type:
    list of (what, formula)"""
    d = J.jd(j)
    req, opt = refproto.SPEC[version][cmd][1][typ]
    k = z3.Const("k", STR)
    names = HDR + tuple(req) + tuple(opt)
    out = [("a JSON object with a header",
            z3.And(J.is_Jdct(j), header(vc, h, d),
                   dct(h, d, vc, "ta-cmd")[1] == J.Jstr(S(vc, cmd)),
                   dct(h, d, vc, "msg-type")[1] == J.Jstr(S(vc, typ)))),
           ("no other fields", z3.ForAll([k], z3.Implies(
               z3.Select(h.at("Jd.dom", d), k),
               z3.Or(*[k == S(vc, n) for n in names])),
               patterns=[z3.Select(h.at("Jd.dom", d), k)]))]
    for n in req:
        dom, val = dct(h, d, vc, n)
        out.append(("required field %s" % n, z3.And(
            dom, field_ok(vc, h, refproto.F[n], val))))
    for n in opt:
        dom, val = dct(h, d, vc, n)
        out.append(("optional field %s" % n, z3.Implies(
            dom, field_ok(vc, h, refproto.F[n], val))))
    return out


# ----------------------------------------------------------- wire and text
class SBytes(Sym):
    """bytes: an arbitrary message, or the UTF-8 encoding of a JSON text"""
    def __init__(self, text=None):
        self.text = text

    def sym_getattr(self, vc, name):
        if name == "decode":
            def decode(*a, **k):
                if k or len(a) > 1 or (a and str(a[0]).lower().replace(
                        "_", "-") not in ("utf-8", "utf8")):
                    raise Unsupported("decode%r" % (a,))
                if self.text is not None:
                    return self.text
                if vc.ctx.choose(["ok", "bad"], "decode") == "bad":
                    raise ProgExc(UnicodeDecodeError("utf-8", b"\xff", 0, 1,
                                                     "invalid"))
                return JText(None)
            return BuiltinMethod(name, self, decode)
        raise Unsupported("bytes.%s" % name)

    def sym_isinstance(self, vc, t):
        ts = t if isinstance(t, tuple) else (t,)
        return bytes in ts


class JText(Sym):
    """a text; j: the JSON value it spells, if it is the output of dumps"""
    def __init__(self, j):
        self.j = j

    def sym_getattr(self, vc, name):
        if name == "encode":
            def encode(*a, **k):
                if k or len(a) > 1 or (a and str(a[0]).lower().replace(
                        "_", "-") not in ("utf-8", "utf8")):
                    raise Unsupported("encode%r" % (a,))
                return SBytes(self)
            return BuiltinMethod(name, self, encode)
        raise Unsupported("str.%s" % name)


def loads(vc, text, **k):
    if k or not isinstance(text, JText):
        raise Unsupported("json.loads(%r)" % (text,))
    if text.j is not None:
        return SJ(text.j)
    c = vc.ctx.choose(["ok", "ValueError", "RecursionError"], "loads")
    if c == "ValueError":
        raise ProgExc(json.JSONDecodeError("bad", "doc", 0))
    if c == "RecursionError":
        raise ProgExc(RecursionError("maximum recursion depth"))
    j = vc.ctx.ghost["input"]
    vc.ctx.ghost["loaded"] = True
    return SJ(j)


def dumps(vc, v, **k):
    """json.dumps: fails with TypeError for what is no JSON value; the text
    denotes the value"""
    if k:
        raise Unsupported("json.dumps options")
    if isinstance(v, dict):
        d = fresh_id(vc, "obj", DCT)
        dom = z3.K(STR, z3.BoolVal(False))
        val = z3.Select(vc.hget("Jd.val"), d)
        for n, x in v.items():
            if not isinstance(n, str):
                raise Unsupported("key %r" % (n,))
            if isinstance(x, (SProps, set)):
                raise ProgExc(TypeError("set is not JSON serializable"))
            dom = z3.Store(dom, S(vc, n), z3.BoolVal(True))
            val = z3.Store(val, S(vc, n), jterm(vc, x))
        vc.hset("Jd.dom", z3.Store(vc.hget("Jd.dom"), d, dom))
        vc.hset("Jd.val", z3.Store(vc.hget("Jd.val"), d, val))
        n = len(v)
        vc.ctx.assume(card(vc, dom, STR) == n)
        return JText(J.Jdct(d))
    return JText(jterm(vc, v))


class ProtoWorld(World):
    def __init__(self, index):
        World.__init__(self, index)
        self.proto = index.modules["proto"]
        declare(self)
        self.intercepts[json.loads] = loads
        self.intercepts[json.dumps] = dumps

    def native_ok(self, f):
        return f not in (json.loads, json.dumps) and World.native_ok(self, f)

    def loop_spec(self, vc, env, coll, st):
        g = vc.ctx.ghost
        n = coll.loc.name if isinstance(coll, SSeq) else \
            vc.as_view(coll).name()
        if n == "Jdict" and g.get("last_ps") is not None:
            return LoopSpec("properties", from_inv(coll), start=outer_start)
        if n == "Jlist" and g.get("last_ps") is not None and \
           g.get("outer_k") is not None:
            return LoopSpec("values", from_inner(coll))
        if n == "Props" and g.get("last_dict") is not None:
            return LoopSpec("properties", to_inv(coll), start=outer_start)
        if n == "Jset" and g.get("last_dict") is not None and \
           g.get("outer_k") is not None:
            return LoopSpec("values", to_inner(coll))
        return None


def outer_start(vc, env, k):
    vc.ctx.ghost["outer_k"] = k


KK = z3.Const("k", STR)


def from_inv(coll):
    def inv(vc, env, V, D, pre):
        listok_axiom(vc)
        h = H(vc)
        p = vc.ctx.ghost["last_ps"]
        d = coll.j.dloc(vc)
        x = z3.Select(h.at("Jd.val", d), KK)
        mem = z3.Select(h.at("Ps.mem", p), KK)
        dom = z3.Select(h.at("Ps.dom", p), KK)
        v = z3.Select(V, KK)
        return [("C12:properties read so far", z3.ForAll([KK], z3.And(
            mem == z3.If(v, lset(J.jl(x)), EMPTYJ),
            dom == z3.And(v, llen(J.jl(x)) > 0),
            z3.Implies(v, z3.And(J.is_Jlst(x), listok(J.jl(x))))),
            patterns=[mem, dom, v]))]
    return inv


def from_inner(coll):
    l = coll.loc.l

    def inv(vc, env, p, D, pre):
        list_facts(vc, l)
        h, h0 = H(vc), H(vc, pre)
        ps, k = vc.ctx.ghost["last_ps"], vc.ctx.ghost["outer_k"]
        i = z3.Int("i")
        return [
            ("C12:values read so far", h("Ps.mem") == z3.Store(
                h0("Ps.mem"), ps, z3.Store(h0.at("Ps.mem", ps), k,
                                           pset(l, p)))),
            ("C12:values read so far", h("Ps.dom") == z3.If(
                p > 0, z3.Store(h0("Ps.dom"), ps, z3.Store(
                    h0.at("Ps.dom", ps), k, z3.BoolVal(True))),
                h0("Ps.dom"))),
            ("C12:values read so far", z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < p), scalar(z3.Select(lat(l), i))),
                patterns=[z3.Select(lat(l), i)]))]
    return inv


def to_inv(coll):
    def inv(vc, env, V, D, pre):
        h = H(vc)
        p = coll.ps.p
        d = vc.ctx.ghost["last_dict"]
        x = z3.Select(h.at("Jd.val", d), KK)
        mem = z3.Select(h.at("Ps.mem", p), KK)
        dom = z3.Select(h.at("Jd.dom", d), KK)
        h0, e = H(vc, pre), z3.Const("e", DCT)
        return [("C12:other objects unchanged", z3.ForAll([e], z3.Implies(
            e != d, z3.And(h.at("Jd.dom", e) == h0.at("Jd.dom", e),
                           h.at("Jd.val", e) == h0.at("Jd.val", e))),
            patterns=[h.at("Jd.dom", e), h.at("Jd.val", e)])),
                ("C12:properties written so far", z3.ForAll([KK], z3.And(
            dom == z3.And(z3.Select(V, KK), mem != EMPTYJ),
            z3.Implies(dom, z3.And(J.is_Jlst(x), lset(J.jl(x)) == mem,
                                   llen(J.jl(x)) > 0))),
            patterns=[dom, x, z3.Select(V, KK)]))]
    return inv


def to_inner(coll):
    def inv(vc, env, V, D, pre):
        h, h0 = H(vc), H(vc, pre)
        d, k = vc.ctx.ghost["last_dict"], vc.ctx.ghost["outer_k"]
        x = z3.Select(h.at("Jd.val", d), k)
        v = z3.Const("v", J)
        e = z3.Const("e", DCT)
        return [
            ("C12:values written so far", z3.And(
                z3.Select(h.at("Jd.dom", d), k) == (V != EMPTYJ),
                z3.Implies(z3.Select(h.at("Jd.dom", d), k), z3.And(
                    J.is_Jlst(x), lset(J.jl(x)) == V,
                    llen(J.jl(x)) > 0)))),
            ("C12:values written so far", z3.ForAll([KK], z3.Implies(
                KK != k, z3.And(
                    z3.Select(h.at("Jd.dom", d), KK) ==
                    z3.Select(h0.at("Jd.dom", d), KK),
                    z3.Select(h.at("Jd.val", d), KK) ==
                    z3.Select(h0.at("Jd.val", d), KK))),
                patterns=[z3.Select(h.at("Jd.dom", d), KK),
                          z3.Select(h.at("Jd.val", d), KK)])),
            ("C12:values written so far", z3.ForAll([e], z3.Implies(
                e != d, z3.And(h.at("Jd.dom", e) == h0.at("Jd.dom", e),
                               h.at("Jd.val", e) == h0.at("Jd.val", e))),
                patterns=[h.at("Jd.dom", e), h.at("Jd.val", e)]))]
    return inv


# -------------------------------------------------------------- contracts
def proto(vc):
    return vc.w.proto


class FromWire(Contract):
    """requires a dict; returns the properties it spells, or ProtocolError"""
    q = "proto.PropsField.from_wire"
    exc_tag = "C12"
    mod = ("Ps.dom", "Ps.mem")
    covers = None

    @property
    def outcomes(self):
        return [Outcome("return"), Outcome("error", self.error)]

    error = Exception

    def entry(self, vc):
        self.error = proto(vc).ProtocolError
        f = proto(vc).PropsField.__new__(proto(vc).PropsField)
        f.__dict__["name"] = "service-props"
        d = fresh_id(vc, "d", DCT)
        return [f, SJ(J.Jdct(d))], {}

    def params(self, vc, f, args, kw):
        self.error = proto(vc).ProtocolError
        a = Contract.params(self, vc, f, args, kw)
        a["d"] = list(a.values())[1]
        return a

    def requires(self, vc, a):
        if not isinstance(a["d"], SJ):
            raise Unsupported("from_wire(%r)" % (a["d"],))
        return [("C12:from_wire of an object", J.is_Jdct(a["d"].t))]

    def call_ghost(self, vc, a):
        a["ps"] = fresh_id(vc, "props", PS)

    def result(self, vc, a, label):
        listok_axiom(vc)
        return SProps(a["ps"]) if label == "return" else None

    def ensures(self, vc, a, old, label, res):
        h = H(vc)
        listok_axiom(vc)
        d = J.jd(a["d"].t)
        if label == "error":
            return [("C12:only ill-typed properties are refused",
                     z3.Not(wfp(old, d)))]
        if not isinstance(res, SProps):
            raise Unsupported("from_wire returns %r" % (res,))
        p = res.p
        q = z3.Const("q", PS)
        out = [("C12:property values are lists of strings and integers",
                wfp(old, d)),
               ("C12:the properties are those of the message",
                props_of(h, d, p))]
        if "ps" in a:
            out.append(("frame", z3.ForAll([q], z3.Implies(q != p, z3.And(
                h.at("Ps.dom", q) == old.at("Ps.dom", q),
                h.at("Ps.mem", q) == old.at("Ps.mem", q))),
                patterns=[h.at("Ps.dom", q), h.at("Ps.mem", q)])))
        return out


class ToWire(Contract):
    q = "proto.PropsField.to_wire"
    exc_tag = "C12"
    mod = ("Jd.dom", "Jd.val", "Ps.dom")
    covers = None

    def entry(self, vc):
        f = proto(vc).PropsField.__new__(proto(vc).PropsField)
        f.__dict__["name"] = "service-props"
        return [f, SProps(fresh_id(vc, "p", PS))], {}

    def params(self, vc, f, args, kw):
        a = Contract.params(self, vc, f, args, kw)
        a["p"] = list(a.values())[1]
        return a

    def requires(self, vc, a):
        if not isinstance(a["p"], SProps):
            raise Unsupported("to_wire(%r)" % (a["p"],))
        return [("C12:well-formed properties", wf_propset(H(vc),
                                                          a["p"].p))]

    def call_ghost(self, vc, a):
        a["new"] = fresh_id(vc, "dict", DCT)

    def result(self, vc, a, label):
        return SNewDict(a["new"])

    def ensures(self, vc, a, old, label, res):
        h = H(vc)
        p = a["p"].p
        if not isinstance(res, SNewDict):
            raise Unsupported("to_wire returns %r" % (res,))
        d = res.d
        e = z3.Const("e", DCT)
        out = [("C12:properties are written as they are",
                props_of(h, d, p)),
               ("C12:properties are written as lists of their values",
                wfp(h, d)),
               ("C12:encoding changes nothing", z3.And(
                   h("Ps.dom") == old("Ps.dom"),
                   h("Ps.mem") == old("Ps.mem"))),
               ("C12:encoding changes nothing", z3.ForAll([e], z3.Implies(
                   e != d, z3.And(h.at("Jd.dom", e) == old.at("Jd.dom", e),
                                  h.at("Jd.val", e) == old.at("Jd.val", e))),
                   patterns=[h.at("Jd.dom", e), h.at("Jd.val", e)]))]
        if "new" not in a:
            l, v = z3.Const("l", LST), z3.Const("v", J)
            vc.ctx.assume(z3.ForAll([l], listok(l) == list_ok(l),
                                    patterns=[listok(l)]))
        return out


def pyname(n):
    return n.replace("-", "_")


class Parse(Contract):
    q = "proto.Message.parse"
    exc_tag = "C12"
    mod = ("Jd.dom", "Ps.dom", "Ps.mem")

    def __init__(self, version, cmd, none=False):
        self.version, self.cmd, self.none = version, cmd, none
        self.covers = ["parse:error"] + (["parse:%s" % t
                                          for t in refproto.TYPES]
                                         if cmd else [])

    def entry(self, vc):
        v = self.version
        if self.none:
            v = None
        j = vc.ctx.fresh("input", J)
        g = vc.ctx.ghost
        g["input"] = j
        d = fresh_id(vc, "top", DCT)
        vc.ctx.assume(z3.Implies(J.is_Jdct(j), J.jd(j) == d))
        h = H(vc)
        vc.ctx.assume(z3.ForAll([KK], z3.Select(h.at("Jd.val", d), KK) !=
                                J.Jdct(d),
                                patterns=[z3.Select(h.at("Jd.val", d), KK)]))
        cd, cv = dct(h, d, vc, "ta-cmd")
        if self.cmd is None:
            vc.ctx.assume(z3.Or(z3.Not(J.is_Jdct(j)), z3.Not(cd), z3.And(*[
                cv != J.Jstr(S(vc, c)) for c in refproto.SPEC[self.version]])))
        else:
            vc.ctx.assume(z3.And(J.is_Jdct(j), cd,
                                 cv == J.Jstr(S(vc, self.cmd))))
        return [v, SBytes()], {}

    def verify(self, vc, f):
        args, kw = self.entry(vc)
        old = H(vc)
        P = proto(vc)
        g = vc.ctx.ghost
        try:
            res = self.body(vc, f, args, kw)
        except ProgExc as e:
            if type(e.exc) is not P.ProtocolError:
                vc.ctx.prove(z3.BoolVal(False), "C12:parse ends with "
                             "unexpected %s" % type(e.exc).__name__)
                return
            vc.ctx.trace.append("=> error")
            self.cover(vc, "parse:error")
            if g.get("loaded"):
                self.refused(vc, old)
            return
        self.accepted(vc, old, res)

    def cover(self, vc, n):
        c = vc.ctx.stats.covers
        c[n] = c.get(n, 0) + 1

    def refused(self, vc, old):
        if self.cmd is None:
            vc.ctx.prove(z3.BoolVal(True), "C12:unknown commands are refused")
            return
        for typ in refproto.TYPES:
            fs = [f for n, f in shape(vc, old, vc.ctx.ghost["input"],
                                      self.version, self.cmd, typ)]
            vc.ctx.prove(z3.Not(z3.And(*fs)),
                         "C12:a well-formed message is accepted (%s)" % typ,
                         lemma=False)

    def accepted(self, vc, old, res):
        P = proto(vc)
        prove = vc.ctx.prove
        if not vc.ctx.ghost.get("loaded"):
            prove(z3.BoolVal(False), "C12:only JSON texts are accepted")
            return
        if type(res) is not P.Message:
            prove(z3.BoolVal(False), "C12:parse returns a message")
            return
        typ = vc.force(res.msg_type)
        if isinstance(typ, SJ):
            for t in refproto.TYPES:
                if vc.ctx.branch(typ.t == J.Jstr(S(vc, t)), "type %s" % t):
                    typ = t
                    break
        if self.cmd is None or typ not in refproto.TYPES:
            prove(z3.BoolVal(False), "C12:only known commands and types are "
                  "accepted")
            return
        self.cover(vc, "parse:%s" % typ)
        vc.ctx.trace.append("=> %s" % typ)
        j = vc.ctx.ghost["input"]
        d = J.jd(j)
        T = "C12:the fields have the specified names and types: "
        for n, f in shape(vc, old, j, self.version, self.cmd, typ):
            prove(f, T + n)
        tt = res.ta_type
        prove(z3.BoolVal(tt is P.TA_TYPES[self.version].get(self.cmd) and
                         tt.cmd == self.cmd),
              "C12:the command's own transaction type")
        ia = {refproto.SINGLE: "SINGLE_RESPONSE",
              refproto.MULTI: "MULTI_RESPONSE", refproto.TWO: "TWO_WAY"}
        prove(z3.BoolVal(tt.ia_type.name == ia[refproto.SPEC[
            self.version][self.cmd][0]]), "C12:interaction type")
        T = "C12:parsing gives the values of the message: "
        prove(same_value(vc, res.ta_id, dct(old, d, vc, "ta-id")[1]),
              T + "ta-id")
        req, opt = refproto.SPEC[self.version][self.cmd][1][typ]
        if not isinstance(res.args, (list, tuple)) or \
           len(res.args) != len(req):
            prove(z3.BoolVal(False), T + "number of arguments")
            return
        for n, v in zip(req, res.args):
            prove(same_value(vc, v, dct(old, d, vc, n)[1]), T + n)
        if not isinstance(res.optargs, dict):
            raise Unsupported("optional arguments %r" % (res.optargs,))
        for k in res.optargs:
            if k not in [pyname(n) for n in opt]:
                prove(z3.BoolVal(False), T + "optional argument %s" % k)
        for n in opt:
            dom, val = dct(old, d, vc, n)
            if pyname(n) not in res.optargs or \
               res.optargs[pyname(n)] is None:
                prove(z3.Not(dom), T + n)
            else:
                prove(z3.And(dom, same_value(vc, res.optargs[pyname(n)],
                                             val)), T + n)


def same_value(vc, v, j):
    """Python value v is what the JSON value j denotes"""
    v = vc.force(v)
    if isinstance(v, SProps):
        return z3.And(J.is_Jdct(j), props_of(H(vc), J.jd(j), v.p))
    if isinstance(v, (SJ, int, str, SInt, float, SReal)):
        return jterm(vc, v) == j
    return z3.BoolVal(False)


class Encode(Contract):
    """to_wire of every well-formed message, then parse: the same message"""
    q = "proto.Message.to_wire"
    exc_tag = "C12"

    def __init__(self, version, cmd, typ):
        self.version, self.cmd, self.typ = version, cmd, typ
        self.covers = ["to_wire"]

    def value(self, vc, name, kind):
        if kind == refproto.PROPS:
            p = fresh_id(vc, "arg", PS)
            vc.ctx.assume(wf_propset(H(vc), p))
            return SProps(p)
        j = vc.ctx.fresh(name, J)
        vc.ctx.assume(field_ok(vc, H(vc), kind, j))
        return SJ(j)

    def verify(self, vc, f):
        P = proto(vc)
        ctx = vc.ctx
        listok_axiom(vc)
        req, opt = refproto.SPEC[self.version][self.cmd][1][self.typ]
        m = P.Message.__new__(P.Message)
        F = refproto.F
        args = [self.value(vc, n, F[n]) for n in req]
        optargs, given = {}, {}
        for n in opt:
            c = ctx.choose(["present", "absent", "none"]
                           if len(opt) < 3 else ["present", "absent"], n)
            if c == "present":
                optargs[pyname(n)] = given[n] = self.value(vc, n, F[n])
            elif c == "none":
                optargs[pyname(n)] = None
        ta_id = self.value(vc, "ta", refproto.INT)
        tt = P.TA_TYPES[self.version].get(self.cmd)
        init = P.Message.__init__
        vc.call(init, [m, tt, ta_id, self.typ, args, optargs], {})
        saved = list(args), dict(optargs)
        old = H(vc)
        T = "C12:an encoded message contains exactly the specified fields: "
        try:
            w = self.body(vc, f, [m], {})
        except ProgExc as e:
            ctx.prove(z3.BoolVal(False), "C12:a well-formed message is "
                      "encoded (%s)" % type(e.exc).__name__)
            return
        stats_cover(ctx, "to_wire")
        h = H(vc)
        if not isinstance(w, SBytes) or w.text is None or w.text.j is None:
            raise Unsupported("to_wire returns %r" % (w,))
        j = w.text.j
        for n, g in shape(vc, h, j, self.version, self.cmd, self.typ):
            ctx.prove(g, T + n)
        d = J.jd(j)
        ctx.prove(dct(h, d, vc, "ta-id")[1] == ta_id.t, T + "value of ta-id")
        for n, v in list(zip(req, saved[0])) + list(given.items()):
            dom, val = dct(h, d, vc, n)
            ctx.prove(z3.And(dom, same_value(vc, v, val)), T + "value of " + n)
        for n in opt:
            if n not in given:
                ctx.prove(z3.Not(dct(h, d, vc, n)[0]), T + "absent " + n)
        ctx.prove(h("Ps.mem") == old("Ps.mem"), "C12:encoding changes "
                  "nothing")
        same_list = len(m.args) == len(saved[0]) and all(
            x is y for x, y in zip(m.args, saved[0]))
        ctx.prove(z3.BoolVal(same_list and m.optargs == saved[1]
                             if not vc.has_sym(m.optargs) else
                             same_list and set(m.optargs) == set(saved[1]) and
                             all(m.optargs[k] is saved[1][k]
                                 for k in saved[1])),
                  "C12:encoding changes nothing")
        # and back
        ctx.assume(z3.ForAll([KK], z3.Select(h.at("Jd.val", d), KK) !=
                             J.Jdct(d),
                             patterns=[z3.Select(h.at("Jd.val", d), KK)]))
        T = "C12:decoding an encoded message gives the same message: "
        try:
            r = vc.call(P.Message.parse, [self.version, SBytes(w.text)], {})
        except ProgExc as e:
            ctx.prove(z3.BoolVal(False), T + "accepted (%s)" %
                      type(e.exc).__name__)
            return
        if type(r) is not P.Message:
            ctx.prove(z3.BoolVal(False), T + "a message")
            return
        typ = vc.force(r.msg_type)
        ctx.prove(z3.BoolVal(r.ta_type is tt), T + "command")
        ctx.prove(jterm(vc, typ) == J.Jstr(S(vc, self.typ)), T + "type")
        ctx.prove(jterm(vc, r.ta_id) == ta_id.t, T + "transaction id")
        hh = H(vc)

        def eq(x, y):
            if isinstance(y, SProps):
                return props_eq(hh, x.p, y.p) if isinstance(x, SProps) \
                    else z3.BoolVal(False)
            return jterm(vc, x) == y.t
        ctx.prove(z3.BoolVal(len(r.args) == len(saved[0])),
                  T + "number of arguments")
        for n, x, y in zip(req, r.args, saved[0]):
            ctx.prove(eq(x, y), T + n)
        ctx.prove(z3.BoolVal(set(r.optargs) == {pyname(n) for n in given}),
                  T + "optional arguments")
        for n, y in given.items():
            if pyname(n) in r.optargs:
                ctx.prove(eq(r.optargs[pyname(n)], y), T + n)


def units():
    us = [Unit("proto", ProtoWorld, FromWire(), {"C12"}),
          Unit("proto", ProtoWorld, ToWire(), {"C12"})]
    cs = [FromWire(), ToWire()]
    for v in (2, 3):
        for c in [None] + sorted(refproto.SPEC[v]):
            us.append(Unit("proto", ProtoWorld, Parse(v, c), {"C12"},
                           name="proto.Message.parse[v%d,%s]" % (
                               v, c or "unknown"), contracts=cs))
            if v == 2:
                us.append(Unit("proto", ProtoWorld, Parse(v, c, True),
                               {"C12"}, name="proto.Message.parse[no version,"
                               "%s]" % (c or "unknown"), contracts=cs))
            if c is None:
                continue
            for t in refproto.TYPES:
                us.append(Unit("proto", ProtoWorld, Encode(v, c, t), {"C12"},
                               name="proto.Message.to_wire[v%d,%s,%s]" % (
                                   v, c, t), contracts=cs))
    # the longest first
    us.sort(key=lambda u: -u.name.count("subscribe,") -
            ("parse" in u.name and "subscribe]" in u.name) * 2)
    return us


ASSUMES = {"C12": [
    "json.loads of arbitrary text gives a JSON value, ValueError or "
    "RecursionError; bytes.decode gives text or UnicodeDecodeError (a "
    "ValueError); formatting an integer that json.loads accepted does not "
    "fail",
    "json.loads(json.dumps(x)) == x for JSON values with string keys, and "
    "UTF-8 decoding inverts encoding (checked on generated values by the "
    "harness)"]}
