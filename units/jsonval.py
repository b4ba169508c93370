"""JSON values as terms: the domain of what json.loads returns and json.dumps
takes, and the property sets (str -> set of str|int) built from it."""
import collections
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import BuiltinMethod

STR = sort("Str")
LST = sort("Lst")
DCT = sort("Dct")
PS = sort("PropSet")
_J = z3.Datatype("J")
_J.declare("Jnull")
_J.declare("Jbool", ("jb", B))
_J.declare("Jint", ("ji", I))
_J.declare("Jflt", ("jr", R), ("jc", I))     # jc: 0 finite, 1 inf, 2 -inf, 3 nan
_J.declare("Jstr", ("js", STR))
_J.declare("Jlst", ("jl", LST))
_J.declare("Jdct", ("jd", DCT))
J = _J.create()
SJB = z3.ArraySort(STR, B)
SETJ = z3.ArraySort(J, B)
EMPTYJ = z3.K(J, z3.BoolVal(False))
strid = z3.Function("strid", STR, I)
llen = z3.Function("llen", LST, I)
lat = z3.Function("lat", LST, z3.ArraySort(I, J))
lset = z3.Function("lset", LST, SETJ)
pset = z3.Function("pset", LST, I, SETJ)     # the first i elements
lidx = z3.Function("lidx", LST, J, I)

_strs = {}


def S(vc, text):
    """The constant for a Python string."""
    if text not in _strs:
        _strs[text] = (z3.Const("str#%s" % text, STR), len(_strs) + 1)
    c, n = _strs[text]
    key = ("str", text)
    if key not in vc.ctx.axiomatized:
        vc.ctx.axiomatized.add(key)
        vc.ctx.assume(strid(c) == n)
    return c


def scalar(j):
    """a string or an integer"""
    return z3.Or(J.is_Jstr(j), J.is_Jint(j))


def list_facts(vc, l):
    """Definitions of lset and pset for one list."""
    key = ("lst", l.get_id())
    if key in vc.ctx.axiomatized:
        return
    vc.ctx.axiomatized.add(key)
    vc.keep.append(l)
    i, v = z3.Int("i"), z3.Const("v", J)
    a = vc.ctx.assume
    a(llen(l) >= 0)
    a(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(l)),
                                z3.Select(lset(l), z3.Select(lat(l), i))),
                patterns=[z3.Select(lat(l), i)]))
    a(z3.ForAll([v], z3.Implies(z3.Select(lset(l), v), z3.And(
        lidx(l, v) >= 0, lidx(l, v) < llen(l),
        z3.Select(lat(l), lidx(l, v)) == v)),
        patterns=[z3.Select(lset(l), v)]))
    a(pset(l, 0) == EMPTYJ)
    a(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(l)),
                                pset(l, i + 1) == z3.Store(
                                    pset(l, i), z3.Select(lat(l), i),
                                    z3.BoolVal(True))),
                patterns=[pset(l, i + 1), z3.Select(lat(l), i)]))
    a(pset(l, llen(l)) == lset(l))
    a(z3.Implies(llen(l) == 0, lset(l) == EMPTYJ))
    a(z3.Implies(llen(l) > 0, z3.Select(lset(l), z3.Select(lat(l), 0))))


def list_ok(l):
    v = z3.Const("v", J)
    return z3.ForAll([v], z3.Implies(z3.Select(lset(l), v), scalar(v)),
                     patterns=[z3.Select(lset(l), v)])


listok = z3.Function("listok", LST, B)


def listok_facts(vc, l):
    list_facts(vc, l)
    key = ("lok", l.get_id())
    if key not in vc.ctx.axiomatized:
        vc.ctx.axiomatized.add(key)
        vc.ctx.assume(listok(l) == list_ok(l))


def listok_axiom(vc):
    """definition of listok for every list"""
    l, v = z3.Const("l", LST), z3.Const("v", J)
    vc.ctx.assume(z3.ForAll([l, v], z3.Implies(z3.And(
        listok(l), z3.Select(lset(l), v)), scalar(v)),
        patterns=[z3.MultiPattern(listok(l), z3.Select(lset(l), v))]))


def wfp(h, d):
    """a JSON object whose values are lists of strings and integers"""
    k = z3.Const("k", STR)
    x = z3.Select(h.at("Jd.val", d), k)
    return z3.ForAll([k], z3.Implies(
        z3.Select(h.at("Jd.dom", d), k),
        z3.And(J.is_Jlst(x), listok(J.jl(x)))),
        patterns=[z3.Select(h.at("Jd.dom", d), k), x])


def props_of(h, d, p):
    """property set p is what the JSON object d spells"""
    k = z3.Const("k", STR)
    x = z3.Select(h.at("Jd.val", d), k)
    dom = z3.Select(h.at("Jd.dom", d), k)
    mem = z3.Select(h.at("Ps.mem", p), k)
    return z3.And(
        z3.ForAll([k], z3.And(
            z3.Select(h.at("Ps.dom", p), k) ==
            z3.And(dom, llen(J.jl(x)) > 0),
            mem == z3.If(dom, lset(J.jl(x)), EMPTYJ)),
            patterns=[z3.Select(h.at("Ps.dom", p), k), mem, dom]))


def props_eq(h, p, q):
    return z3.And(h.at("Ps.dom", p) == h.at("Ps.dom", q),
                  h.at("Ps.mem", p) == h.at("Ps.mem", q))


def wf_propset(h, p):
    """values are strings and integers; no key without values"""
    k, v = z3.Const("k", STR), z3.Const("v", J)
    m = z3.Select(z3.Select(h.at("Ps.mem", p), k), v)
    return z3.And(
        z3.ForAll([k, v], z3.Implies(m, z3.And(
            scalar(v), z3.Select(h.at("Ps.dom", p), k))), patterns=[m]),
        z3.ForAll([k], z3.Implies(z3.Select(h.at("Ps.dom", p), k),
                                  z3.Exists([v], m)),
                  patterns=[z3.Select(h.at("Ps.dom", p), k)]))


class JType(T):
    def comps(self):
        return [("", J)]

    def enc(self, vc, v):
        return [jterm(vc, v)]

    def dec(self, vc, terms):
        return SJ(terms[0])


class StrType(T):
    def comps(self):
        return [("", STR)]

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, str):
            return [S(vc, v)]
        if isinstance(v, SJ):
            if vc.ctx.branch(J.is_Jstr(v.t), "is str"):
                return [J.js(v.t)]
        raise Unsupported("cannot encode %r as str" % (v,))

    def dec(self, vc, terms):
        return SJ(J.Jstr(terms[0]))


def jterm(vc, v):
    v = vc.force(v)
    if isinstance(v, SJ):
        return v.t
    if v is None:
        return J.Jnull
    if isinstance(v, bool):
        return J.Jbool(z3.BoolVal(v))
    if isinstance(v, int):
        return J.Jint(z3.IntVal(v))
    if isinstance(v, SInt):
        return J.Jint(v.t)
    if isinstance(v, SBool):
        return J.Jbool(v.t)
    if isinstance(v, (float, SReal)):
        return J.Jflt(as_real(v), z3.IntVal(0))
    if isinstance(v, str):
        return J.Jstr(S(vc, v))
    if isinstance(v, SNewDict):
        return J.Jdct(v.d)
    raise Unsupported("cannot encode %r as a JSON value" % (v,))


KINDS = {bool: (J.is_Jbool,), int: (J.is_Jint, J.is_Jbool),
         float: (J.is_Jflt,), str: (J.is_Jstr,), list: (J.is_Jlst,),
         dict: (J.is_Jdct,), type(None): (J.is_Jnull,)}


class SJ(Sym):
    """A JSON value."""
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SJ(%s)" % short(self.t)

    def is_(self, vc, rec, label):
        return vc.ctx.branch(rec(self.t), label)

    def sym_truth(self, vc):
        t = self.t
        if self.is_(vc, J.is_Jdct, "is dict"):
            return vc.truth(self.sym_len(vc))
        if self.is_(vc, J.is_Jlst, "is list"):
            return vc.truth(self.sym_len(vc))
        return vc.ctx.branch(z3.Or(
            z3.And(J.is_Jbool(t), J.jb(t)), z3.And(J.is_Jint(t), J.ji(t) != 0),
            z3.And(J.is_Jflt(t), z3.Or(J.jc(t) != 0, J.jr(t) != 0)),
            z3.And(J.is_Jstr(t), J.js(t) != S(vc, ""))), "truth")

    def sym_is(self, vc, o):
        if o is None:
            return mkbool(z3.simplify(J.is_Jnull(self.t)))
        if isinstance(o, bool):
            return mkbool(self.t == J.Jbool(z3.BoolVal(o)))
        raise Unsupported("'is' on a JSON value")

    def sym_eq(self, vc, o):
        t = self.t
        if isinstance(o, SJ):
            # mixed numbers (1 == 1.0 == True) are left out
            num = lambda x: z3.Or(J.is_Jbool(x), J.is_Jint(x), J.is_Jflt(x))
            if not vc.ctx.entails(z3.Not(z3.And(num(t), num(o.t)))) and \
               not vc.ctx.entails(z3.And(J.is_Jint(t), J.is_Jint(o.t))):
                raise Unsupported("comparing JSON numbers")
            return mkbool(t == o.t)
        if o is None:
            return mkbool(z3.simplify(J.is_Jnull(t)))
        if isinstance(o, str):
            return mkbool(t == J.Jstr(S(vc, o)))
        if isinstance(o, (int, SInt)) and not isinstance(o, bool):
            n = z3.IntVal(o) if isinstance(o, int) else o.t
            return mkbool(z3.Or(
                z3.And(J.is_Jint(t), J.ji(t) == n),
                z3.And(J.is_Jbool(t), z3.If(J.jb(t), 1, 0) == n),
                z3.And(J.is_Jflt(t), J.jc(t) == 0, J.jr(t) == n)))
        raise Unsupported("comparing a JSON value with %r" % (o,))

    def sym_hash(self, vc):
        if vc.ctx.branch(z3.Or(J.is_Jlst(self.t), J.is_Jdct(self.t)),
                         "unhashable"):
            raise ProgExc(TypeError("unhashable type"))

    def sym_isinstance(self, vc, t):
        ts = t if isinstance(t, tuple) else (t,)
        fs = []
        for x in ts:
            if x is object:
                return True
            if x in KINDS:
                fs += [r(self.t) for r in KINDS[x]]
            elif not isinstance(x, type):
                raise ProgExc(TypeError("isinstance() arg 2"))
        return mkbool(z3.simplify(z3.Or(*fs))) if fs else False

    def sym_cmp(self, vc, f, o):
        t = self.t
        if isinstance(o, SJ):
            if vc.ctx.branch(J.is_Jint(o.t), "is int"):
                o = SInt(J.ji(o.t))
            else:
                raise Unsupported("ordering JSON values")
        if not isinstance(o, (int, float, SInt, SReal)):
            raise Unsupported("ordering a JSON value and %r" % (o,))
        if self.is_(vc, J.is_Jint, "is int"):
            x, y = vc.nums(SInt(J.ji(t)), o)
            return mkbool(z3.simplify(f(x, y)))
        if self.is_(vc, J.is_Jbool, "is bool"):
            x, y = vc.nums(SInt(z3.If(J.jb(t), z3.IntVal(1), z3.IntVal(0))),
                           o)
            return mkbool(z3.simplify(f(x, y)))
        if self.is_(vc, J.is_Jflt, "is float"):
            y = as_real(o)
            return mkbool(z3.And(J.jc(t) != 3, z3.Or(
                z3.And(J.jc(t) == 0, f(J.jr(t), y)),
                z3.And(J.jc(t) == 1, z3.BoolVal(bool(f(1, 0)))),
                z3.And(J.jc(t) == 2, z3.BoolVal(bool(f(0, 1)))))))
        raise ProgExc(TypeError("'<' not supported"))

    def sym_to_int(self, vc):
        t = self.t
        if self.is_(vc, J.is_Jflt, "is float"):
            if not vc.ctx.branch(J.jc(t) == 0, "finite"):
                raise ProgExc(ValueError("cannot convert float NaN/inf"))
        return SInt(vc.ctx.fresh("toint", I))

    def sym_str(self, vc):
        return SText()

    # -- lists and dictionaries
    def lst(self, vc):
        l = J.jl(self.t)
        listok_facts(vc, l)
        return l

    def dloc(self, vc):
        return J.jd(self.t)

    def dom(self, vc):
        return z3.Select(vc.hget("Jd.dom"), self.dloc(vc))

    def val(self, vc):
        return z3.Select(vc.hget("Jd.val"), self.dloc(vc))

    def sym_len(self, vc):
        if self.is_(vc, J.is_Jdct, "is dict"):
            return mkint(card(vc, self.dom(vc), STR))
        if self.is_(vc, J.is_Jlst, "is list"):
            return SInt(llen(self.lst(vc)))
        if self.is_(vc, J.is_Jstr, "is str"):
            n = vc.ctx.fresh("slen", I)
            vc.ctx.assume(n >= 0)
            return SInt(n)
        raise ProgExc(TypeError("object has no len()"))

    def key(self, vc, k):
        k = vc.force(k)
        if isinstance(k, str):
            return S(vc, k)
        if isinstance(k, SJ):
            k.sym_hash(vc)
            if vc.ctx.branch(J.is_Jstr(k.t), "is str"):
                return J.js(k.t)
        raise Unsupported("key %r of a JSON object" % (k,))

    def need_dict(self, vc, what):
        if not self.is_(vc, J.is_Jdct, "is dict"):
            raise ProgExc(AttributeError("no attribute %s" % what))

    def sym_getattr(self, vc, name):
        if name in ("get", "pop", "items", "keys", "values"):
            self.need_dict(vc, name)
            return BuiltinMethod(name, self, lambda *a: getattr(
                self, "d_" + name)(vc, *a))
        if name == "copy":
            raise Unsupported("copy of a JSON value")
        if self.is_(vc, J.is_Jstr, "is str"):
            raise Unsupported("str.%s" % name)
        raise ProgExc(AttributeError("no attribute %s" % name))

    def d_get(self, vc, k, default=None):
        kk = self.key(vc, k)
        if default is None:
            # null is read as None
            val = z3.simplify(z3.Select(self.val(vc), kk))
            if vc.ctx.branch(z3.And(z3.Select(self.dom(vc), kk), z3.Not(
                    J.is_Jnull(val))), "has %s" % (k,)):
                return SJ(val)
            return None
        if not vc.ctx.branch(z3.Select(self.dom(vc), kk), "has %s" % (k,)):
            return default
        return SJ(z3.simplify(z3.Select(self.val(vc), kk)))

    def remove(self, vc, kk):
        old = self.dom(vc)
        new = z3.Store(old, kk, z3.BoolVal(False))
        vc.hset("Jd.dom", z3.Store(vc.hget("Jd.dom"), self.dloc(vc), new))
        # the length only: new contents as a term of its own
        card_update(vc, old, z3.simplify(self.dom(vc)), kk, STR, False)

    def d_pop(self, vc, k, *default):
        kk = self.key(vc, k)
        if not vc.ctx.branch(z3.Select(self.dom(vc), kk), "has %s" % (k,)):
            if default:
                return default[0]
            raise ProgExc(KeyError(k))
        v = SJ(z3.simplify(z3.Select(self.val(vc), kk)))
        self.remove(vc, kk)
        return v

    def d_items(self, vc):
        return JView(vc, self, "items")

    def d_keys(self, vc):
        return JView(vc, self, "keys")

    def d_values(self, vc):
        return JView(vc, self, "values")

    def sym_contains(self, vc, k):
        if self.is_(vc, J.is_Jdct, "is dict"):
            return mkbool(z3.Select(self.dom(vc), self.key(vc, k)))
        raise Unsupported("'in' on a JSON value")

    def sym_getitem(self, vc, k):
        if self.is_(vc, J.is_Jdct, "is dict"):
            kk = self.key(vc, k)
            if not vc.ctx.branch(z3.Select(self.dom(vc), kk), "has key"):
                raise ProgExc(KeyError(k))
            return SJ(z3.simplify(z3.Select(self.val(vc), kk)))
        raise Unsupported("subscript of a JSON value")

    def sym_delitem(self, vc, k):
        if self.is_(vc, J.is_Jdct, "is dict"):
            kk = self.key(vc, k)
            if not vc.ctx.branch(z3.Select(self.dom(vc), kk), "has key"):
                raise ProgExc(KeyError(k))
            self.remove(vc, kk)
            return
        raise ProgExc(TypeError("object does not support item deletion"))

    def sym_iter(self, vc):
        if self.is_(vc, J.is_Jdct, "is dict"):
            yield ("sym", JView(vc, self, "keys"))
        elif self.is_(vc, J.is_Jlst, "is list"):
            yield ("sym", jseq(vc, self.lst(vc)))
        elif self.is_(vc, J.is_Jstr, "is str"):
            raise Unsupported("iteration over a string")
        else:
            raise ProgExc(TypeError("not iterable"))


class ListLoc:
    ref = None
    name = "Jlist"

    def __init__(self, l):
        self.l = l

    def get(self, i):
        return llen(self.l) if i == 0 else lat(self.l)


def jseq(vc, l):
    return SSeq(vc, ListLoc(l), TSeq(JType()))


class JView(Sym):
    """items/keys/values of a JSON object"""
    is_view = True
    is_snapshot = False

    def __init__(self, vc, j, kind):
        self.vc, self.j, self.kind = vc, j, kind

    def key_sort(self):
        return STR

    def dom(self):
        return self.j.dom(self.vc)

    def elem(self, k):
        key = SJ(J.Jstr(k))
        if self.kind == "keys":
            return key
        v = SJ(z3.simplify(z3.Select(self.j.val(self.vc), k)))
        return v if self.kind == "values" else (key, v)

    def name(self):
        return "Jdict"

    def length(self):
        return self.j.sym_len(self.vc)


# ------------------------------------------------- property sets being built
class SProps(Sym):
    """defaultdict(set) from str to sets of scalars"""
    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "SProps(%s)" % self.p

    def mem(self, vc):
        return z3.Select(vc.hget("Ps.mem"), self.p)

    def dom(self, vc):
        return z3.Select(vc.hget("Ps.dom"), self.p)

    def sym_isinstance(self, vc, t):
        ts = t if isinstance(t, tuple) else (t,)
        return any(issubclass(collections.defaultdict, x) for x in ts)

    def sym_is(self, vc, o):
        if o is None:
            return False
        return isinstance(o, SProps) and mkbool(self.p == o.p)

    def sym_eq(self, vc, o):
        if isinstance(o, SProps):
            return mkbool(props_eq(H(vc), self.p, o.p))
        return False

    def key(self, vc, k):
        k = vc.force(k)
        if isinstance(k, str):
            return S(vc, k)
        if isinstance(k, SJ):
            k.sym_hash(vc)
            if vc.ctx.branch(J.is_Jstr(k.t), "is str"):
                return J.js(k.t)
        raise Unsupported("property key %r" % (k,))

    def sym_getitem(self, vc, k):
        kk = self.key(vc, k)
        if not vc.ctx.entails(z3.Select(self.dom(vc), kk)):
            vc.hset("Ps.dom", z3.Store(vc.hget("Ps.dom"), self.p, z3.Store(
                self.dom(vc), kk, z3.BoolVal(True))))
        return SPropVals(self, kk)

    def sym_contains(self, vc, k):
        return mkbool(z3.Select(self.dom(vc), self.key(vc, k)))

    def sym_len(self, vc):
        return mkint(card(vc, self.dom(vc), STR))

    def sym_truth(self, vc):
        return vc.truth(self.sym_len(vc))

    def sym_getattr(self, vc, name):
        if name in ("items", "keys", "values"):
            return BuiltinMethod(name, self,
                                 lambda: PView(vc, self, name))
        if name == "get":
            def get(k, default=None):
                kk = self.key(vc, k)
                if vc.ctx.branch(z3.Select(self.dom(vc), kk), "has key"):
                    return SPropVals(self, kk)
                return default
            return BuiltinMethod(name, self, get)
        raise Unsupported("method %s of a property set" % name)

    def sym_iter(self, vc):
        yield ("sym", PView(vc, self, "keys"))


class SPropVals(Sym):
    """the set of values of one key"""
    def __init__(self, ps, k):
        self.ps, self.k = ps, k

    def cur(self, vc):
        return z3.Select(self.ps.mem(vc), self.k)

    def sym_getattr(self, vc, name):
        if name == "add":
            def add(v):
                if isinstance(v, SJ):
                    v.sym_hash(vc)
                j = jterm(vc, v)
                vc.hset("Ps.mem", z3.Store(vc.hget("Ps.mem"), self.ps.p,
                        z3.Store(self.ps.mem(vc), self.k, z3.Store(
                            self.cur(vc), j, z3.BoolVal(True)))))
            return BuiltinMethod(name, self, add)
        raise Unsupported("method %s of property values" % name)

    def sym_iter(self, vc):
        yield ("sym", JSetView(vc, self.cur(vc)))

    def sym_len(self, vc):
        return mkint(card(vc, self.cur(vc), J))

    def sym_truth(self, vc):
        return vc.truth(self.sym_len(vc))

    def sym_contains(self, vc, v):
        return mkbool(z3.Select(self.cur(vc), jterm(vc, v)))


class JSetView(Sym):
    is_view = True
    is_snapshot = True
    kind = "keys"

    def __init__(self, vc, d):
        self.vc, self.d = vc, d

    def key_sort(self):
        return J

    def dom(self):
        return self.d

    def elem(self, k):
        return SJ(k)

    def name(self):
        return "Jset"

    def length(self):
        return mkint(card(self.vc, self.d, J))


class PView(Sym):
    is_view = True
    is_snapshot = False

    def __init__(self, vc, ps, kind):
        self.vc, self.ps, self.kind = vc, ps, kind

    def key_sort(self):
        return STR

    def dom(self):
        return self.ps.dom(self.vc)

    def elem(self, k):
        key = SJ(J.Jstr(k))
        if self.kind == "keys":
            return key
        v = SPropVals(self.ps, k)
        return v if self.kind == "values" else (key, v)

    def name(self):
        return "Props"

    def length(self):
        return self.ps.sym_len(self.vc)


class SNewDict(Sym):
    """defaultdict(list) being built: a JSON object"""
    def __init__(self, d):
        self.d = d

    def dom(self, vc):
        return z3.Select(vc.hget("Jd.dom"), self.d)

    def val(self, vc):
        return z3.Select(vc.hget("Jd.val"), self.d)

    def sym_is(self, vc, o):
        return o is self

    def put(self, vc, kk, j):
        vc.hset("Jd.dom", z3.Store(vc.hget("Jd.dom"), self.d, z3.Store(
            self.dom(vc), kk, z3.BoolVal(True))))
        vc.hset("Jd.val", z3.Store(vc.hget("Jd.val"), self.d, z3.Store(
            self.val(vc), kk, j)))

    def key(self, vc, k):
        return SProps.key(self, vc, k)

    def sym_getitem(self, vc, k):
        kk = self.key(vc, k)
        if not vc.ctx.branch(z3.Select(self.dom(vc), kk), "has key"):
            l = new_list(vc, None, None)
            self.put(vc, kk, J.Jlst(l))
        return SNewList(self, kk)

    def sym_setitem(self, vc, k, v):
        kk = self.key(vc, k)
        if isinstance(v, list) and not v:
            self.put(vc, kk, J.Jlst(new_list(vc, None, None)))
            return
        raise Unsupported("storing %r" % (v,))

    def sym_contains(self, vc, k):
        return mkbool(z3.Select(self.dom(vc), self.key(vc, k)))


def new_list(vc, old, j):
    l = vc.ctx.fresh("list", LST)
    list_facts(vc, l)
    a = vc.ctx.assume
    if old is None:
        a(llen(l) == 0)
        a(lset(l) == EMPTYJ)
    else:
        a(llen(l) == llen(old) + 1)
        a(lat(l) == z3.Store(lat(old), llen(old), j))
        a(lset(l) == z3.Store(lset(old), j, z3.BoolVal(True)))
    return l


class SNewList(Sym):
    def __init__(self, d, k):
        self.d, self.k = d, k

    def sym_getattr(self, vc, name):
        if name == "append":
            def append(v):
                old = J.jl(z3.Select(self.d.val(vc), self.k))
                list_facts(vc, old)
                self.d.put(vc, self.k, J.Jlst(new_list(vc, old,
                                                       jterm(vc, v))))
            return BuiltinMethod(name, self, append)
        raise Unsupported("list.%s" % name)


def fresh_id(vc, base, so):
    """an object not seen before on this path"""
    x = vc.ctx.fresh(base, so)
    key = "ids:%s" % so
    old = vc.ctx.ghost.get(key, ())
    for o in old:
        vc.ctx.assume(x != o)
    vc.ctx.ghost[key] = old + (x,)
    return x


def defaultdict(vc, factory=None, *a, **k):
    if a or k:
        raise Unsupported("defaultdict with contents")
    if factory is set:
        p = fresh_id(vc, "props", PS)
        vc.hset("Ps.dom", z3.Store(vc.hget("Ps.dom"), p, z3.K(
            STR, z3.BoolVal(False))))
        vc.hset("Ps.mem", z3.Store(vc.hget("Ps.mem"), p, z3.K(STR, EMPTYJ)))
        vc.ctx.ghost["last_ps"] = p
        return SProps(p)
    if factory is list:
        d = fresh_id(vc, "dict", DCT)
        vc.hset("Jd.dom", z3.Store(vc.hget("Jd.dom"), d, z3.K(
            STR, z3.BoolVal(False))))
        vc.ctx.ghost["last_dict"] = d
        return SNewDict(d)
    raise Unsupported("defaultdict(%r)" % (factory,))


def declare(w):
    w.ghost("Jd.dom", z3.ArraySort(DCT, SJB))
    w.ghost("Jd.val", z3.ArraySort(DCT, z3.ArraySort(STR, J)))
    w.ghost("Ps.dom", z3.ArraySort(PS, SJB))
    w.ghost("Ps.mem", z3.ArraySort(PS, z3.ArraySort(STR, SETJ)))
    w.intercepts[collections.defaultdict] = defaultdict
