"""pyvc values: types, symbolic values, heap locations, containers."""
import enum
import z3
from .core import Unsupported, ProgExc, PathEnd

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()

_sorts = {}


def sort(name):
    if name not in _sorts:
        _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]


# ---------------------------------------------------------------- types
class T:
    def comps(self):
        """[(suffix, z3 sort)]"""
        raise NotImplementedError

    def enc(self, vc, v):
        raise NotImplementedError

    def dec(self, vc, terms):
        raise NotImplementedError

    def fresh(self, vc, base):
        return self.dec(vc, [vc.ctx.fresh(base + s, so)
                             for s, so in self.comps()])


class TInt(T):
    def comps(self):
        return [("", I)]

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, bool):
            raise Unsupported("bool where int expected")
        if isinstance(v, int):
            return [z3.IntVal(v)]
        if isinstance(v, SInt):
            return [v.t]
        raise Unsupported("cannot encode %r as int" % (v,))

    def dec(self, vc, terms):
        return mkint(terms[0])


class TReal(T):
    def comps(self):
        return [("", R)]

    def enc(self, vc, v):
        v = vc.force(v)
        return [as_real(v)]

    def dec(self, vc, terms):
        return SReal(terms[0])


class TBool(T):
    def comps(self):
        return [("", B)]

    def enc(self, vc, v):
        if isinstance(v, bool):
            return [z3.BoolVal(v)]
        if isinstance(v, SBool):
            return [v.t]
        raise Unsupported("cannot encode %r as bool" % (v,))

    def dec(self, vc, terms):
        return mkbool(terms[0])


class TAtom(T):
    """A value of which only equality matters (user ids, property sets...)."""
    interned = {}

    def __init__(self, name):
        self.name = name
        self.sort = sort(name)

    def comps(self):
        return [("", self.sort)]

    def const(self, vc, v):
        d = vc.ctx.ghost.setdefault("atoms:" + self.name, {})
        if v not in d:
            c = z3.Const("%s#%s" % (self.name, v), self.sort)
            for o in d.values():
                vc.ctx.assume(c != o)
            d = dict(d)
            d[v] = c
            vc.ctx.ghost["atoms:" + self.name] = d
        return d[v]

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, SAtom) and v.ty.name == self.name:
            return [v.t]
        if isinstance(v, str):
            return [self.const(vc, v)]
        raise Unsupported("cannot encode %r as %s" % (v, self.name))

    def dec(self, vc, terms):
        return SAtom(self, terms[0])


class TEnum(T):
    def __init__(self, cls):
        self.cls = cls
        self.members = list(cls)

    def comps(self):
        return [("", I)]

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, self.cls):
            return [z3.IntVal(self.members.index(v))]
        if isinstance(v, SEnum) and v.ty.cls is self.cls:
            return [v.t]
        raise Unsupported("cannot encode %r as enum" % (v,))

    def dec(self, vc, terms):
        if z3.is_int_value(terms[0]):
            return self.members[terms[0].as_long()]
        return SEnum(self, terms[0])


class TRef(T):
    def __init__(self, cls):
        self.cls = cls

    def comps(self):
        return [("", sort(self.cls))]

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, SRef) and v.cls == self.cls:
            return [v.t]
        raise Unsupported("cannot encode %r as %s reference" % (v, self.cls))

    def dec(self, vc, terms):
        return SRef(self.cls, terms[0])


class TOpt(T):
    def __init__(self, ty):
        self.ty = ty

    def comps(self):
        return [(".some", B)] + self.ty.comps()

    def enc(self, vc, v):
        if isinstance(v, SOpt):
            return [v.some] + v.ty.enc(vc, v.val)
        if v is None:
            return [z3.BoolVal(False)] + \
                [default_of(vc, so) for s, so in self.ty.comps()]
        return [z3.BoolVal(True)] + self.ty.enc(vc, v)

    def dec(self, vc, terms):
        if z3.is_true(terms[0]):
            return self.ty.dec(vc, terms[1:])
        if z3.is_false(terms[0]):
            return None
        return SOpt(terms[0], self.ty, self.ty.dec(vc, terms[1:]))


class TConst(T):
    """A field that always holds the same native object."""
    def __init__(self, get):
        self.get = get

    def comps(self):
        return []

    def enc(self, vc, v):
        if v is not self.get(vc):
            raise Unsupported("constant field assigned another object")
        return []

    def dec(self, vc, terms):
        return self.get(vc)


class TRec(T):
    """An immutable native record object with fields."""
    def __init__(self, pycls, fields):
        self.pycls = pycls
        self.fields = fields

    def comps(self):
        return [("." + f + s, so) for f, t in self.fields.items()
                for s, so in t.comps()]

    def enc(self, vc, v):
        v = vc.force(v)
        if type(v) is not self.pycls:
            raise Unsupported("cannot encode %r as record" % (v,))
        vc.freeze(v)
        out = []
        for f, t in self.fields.items():
            if f not in vars(v):
                raise Unsupported("record field %s missing" % f)
            out += t.enc(vc, vars(v)[f])
        if set(vars(v)) - set(self.fields):
            raise Unsupported("record has extra fields")
        return out

    def dec(self, vc, terms):
        o = self.pycls.__new__(self.pycls)
        i = 0
        for f, t in self.fields.items():
            n = len(t.comps())
            o.__dict__[f] = t.dec(vc, terms[i:i + n])
            i += n
        vc.freeze(o)
        return o


class TTup(T):
    """A tuple of fixed shape."""
    def __init__(self, *tys):
        self.tys = tys

    def comps(self):
        return [(".%d%s" % (i, s), so) for i, t in enumerate(self.tys)
                for s, so in t.comps()]

    def enc(self, vc, v):
        v = vc.force(v)
        if not isinstance(v, tuple) or len(v) != len(self.tys):
            raise Unsupported("cannot encode %r as tuple" % (v,))
        return [e for t, x in zip(self.tys, v) for e in t.enc(vc, x)]

    def dec(self, vc, terms):
        out, i = [], 0
        for t in self.tys:
            n = len(t.comps())
            out.append(t.dec(vc, terms[i:i + n]))
            i += n
        return tuple(out)


class TEnumDict(T):
    """A dict with exactly the members of an enum as keys."""
    def __init__(self, enumcls, ty):
        self.enumcls = enumcls
        self.ty = ty
        self.members = list(enumcls)

    def comps(self):
        return [("." + m.name + s, so) for m in self.members
                for s, so in self.ty.comps()]

    def enc(self, vc, v):
        if isinstance(v, EnumDictView):
            v = v.snapshot()
        if not isinstance(v, dict) or set(v) != set(self.members):
            raise Unsupported("cannot encode as enum dictionary")
        vc.escape(v)
        return [x for m in self.members for x in self.ty.enc(vc, v[m])]

    def dec(self, vc, terms):
        raise Unsupported("enum dictionary outside a field")

    def dec_at(self, vc, loc):
        return EnumDictView(vc, loc, self)


class TMap(T):
    def __init__(self, kt, vt):
        self.kt, self.vt = kt, vt
        (self.ks,) = [so for s, so in kt.comps()]

    def comps(self):
        return [(".dom", z3.ArraySort(self.ks, B))] + \
            [(".val" + s, z3.ArraySort(self.ks, so))
             for s, so in self.vt.comps()]

    def enc(self, vc, v):
        if isinstance(v, SMap):
            return [v.loc.get(i) for i in range(len(self.comps()))]
        if isinstance(v, dict):
            vc.escape(v)
            terms = [z3.K(self.ks, z3.BoolVal(False))]
            for s, so in self.vt.comps():
                terms.append(z3.K(self.ks, default_of(vc, so)))
            for k, x in v.items():
                (kk,) = self.kt.enc(vc, k)
                xx = self.vt.enc(vc, x)
                terms[0] = z3.Store(terms[0], kk, z3.BoolVal(True))
                for i, y in enumerate(xx):
                    terms[i + 1] = z3.Store(terms[i + 1], kk, y)
            return terms
        raise Unsupported("cannot encode %r as map" % (v,))

    def dec_at(self, vc, loc):
        return SMap(vc, loc, self)

    def dec(self, vc, terms):
        return SMap(vc, ValLoc(terms), self)


class TUSet(T):
    """Python set (or a list used as a set of distinct elements)."""
    def __init__(self, kt, pylist=False):
        self.kt = kt
        self.pylist = pylist
        (self.ks,) = [so for s, so in kt.comps()]

    def comps(self):
        return [(".dom", z3.ArraySort(self.ks, B))]

    def enc(self, vc, v):
        if isinstance(v, SUSet):
            return [v.loc.get(0)]
        if isinstance(v, (set, list, tuple, frozenset)):
            vc.escape(v)
            t = z3.K(self.ks, z3.BoolVal(False))
            for x in v:
                t = z3.Store(t, self.kt.enc(vc, x)[0], z3.BoolVal(True))
            return [t]
        raise Unsupported("cannot encode %r as set" % (v,))

    def dec_at(self, vc, loc):
        return SUSet(vc, loc, self)

    def dec(self, vc, terms):
        return SUSet(vc, ValLoc(terms), self)


class TSeq(T):
    """list/deque as (length, index -> element)."""
    def __init__(self, vt):
        self.vt = vt

    def comps(self):
        return [(".len", I)] + [(".at" + s, z3.ArraySort(I, so))
                                for s, so in self.vt.comps()]

    def enc(self, vc, v):
        if isinstance(v, SSeq):
            return [v.loc.get(i) for i in range(len(self.comps()))]
        import collections
        if isinstance(v, (list, tuple, collections.deque)):
            vc.escape(v)
            terms = [z3.IntVal(len(v))]
            for s, so in self.vt.comps():
                terms.append(z3.K(I, default_of(vc, so)))
            for i, x in enumerate(v):
                for j, y in enumerate(self.vt.enc(vc, x)):
                    terms[j + 1] = z3.Store(terms[j + 1], z3.IntVal(i), y)
            return terms
        raise Unsupported("cannot encode %r as sequence" % (v,))

    def dec_at(self, vc, loc):
        return SSeq(vc, loc, self)

    def dec(self, vc, terms):
        return SSeq(vc, ValLoc(terms), self)


class TFn(T):
    """A callable about which only what the contract `call` says is known."""
    def __init__(self, name, call):
        self.name, self.call = name, call

    def comps(self):
        return [("", sort("Fn_" + self.name))]

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, SFn) and v.ty.name == self.name:
            return [v.t]
        fn = vc.fn_term(self, v)
        if fn is not None:
            return [fn]
        raise Unsupported("cannot encode %r as callable %s" % (v, self.name))

    def dec(self, vc, terms):
        return SFn(self, terms[0])


def default_of(vc, so):
    return z3.Const("default_%s" % so, so)


# ---------------------------------------------------------------- values
class Sym:
    def __bool__(self):
        raise Unsupported("symbolic value used natively as a boolean")

    def __hash__(self):
        raise Unsupported("symbolic value hashed natively: %r" % (self,))

    def __eq__(self, o):
        raise Unsupported("symbolic value compared natively")

    def __iter__(self):
        raise Unsupported("symbolic value iterated natively")

    def __len__(self):
        raise Unsupported("symbolic value len natively")

    def __str__(self):
        return repr(self)


class SInt(Sym):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SInt(%s)" % self.t


class SReal(Sym):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SReal(%s)" % self.t


class SBool(Sym):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SBool(%s)" % self.t


class SAtom(Sym):
    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return "SAtom(%s)" % self.t


class SEnum(Sym):
    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return "SEnum(%s)" % self.t


class SRef(Sym):
    def __init__(self, cls, t):
        self.cls, self.t = cls, t

    def __repr__(self):
        return "SRef(%s:%s)" % (self.cls, self.t)


class SOpt(Sym):
    def __init__(self, some, ty, val):
        self.some, self.ty, self.val = some, ty, val

    def __repr__(self):
        return "SOpt(%s,%r)" % (self.some, self.val)


class SFn(Sym):
    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return "SFn(%s)" % self.t


class SText(Sym):
    """A string about whose contents nothing is known (log and error text)
    but what went into it, if that is recorded (parts)."""
    parts = None

    def __init__(self, parts=None):
        self.parts = parts

    def __repr__(self):
        return "SText"

    def has_part(self, x):
        """Does x occur in the text: True, or None if that is not known."""
        if self is x:
            return True
        if self.parts is None:
            return None
        r = False
        for y in self.parts:
            if y is x:
                return True
            if isinstance(y, SText) and y is not x:
                q = y.has_part(x)
                if q:
                    return True
                if q is None and type(y) is SText:
                    r = None
        return r


def mkint(t):
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def as_real(v):
    from fractions import Fraction
    if isinstance(v, bool):
        raise Unsupported("bool where number expected")
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        return z3.RealVal(str(Fraction(repr(v))))
    if isinstance(v, SInt):
        return z3.ToReal(v.t)
    if isinstance(v, SReal):
        return v.t
    raise Unsupported("cannot encode %r as number" % (v,))


# ---------------------------------------------------------------- locations
class ValLoc:
    """A container value without a home (immutable)."""
    ref = None

    def __init__(self, terms, origin=None):
        self.terms = list(terms)
        self.name = "value" if origin is None else origin.name
        self.ref = None if origin is None else origin.ref

    def get(self, i):
        return self.terms[i]

    def set(self, i, e):
        self.terms[i] = e


class HeapLoc:
    """A field of a heap object (ref given) or of a singleton (ref None)."""
    def __init__(self, vc, name, ref, comps):
        self.vc, self.name, self.ref, self.comps = vc, name, ref, comps

    def get(self, i):
        a = self.vc.hget(self.name + self.comps[i][0])
        return a if self.ref is None else z3.Select(a, self.ref)

    def set(self, i, e):
        n = self.name + self.comps[i][0]
        if self.ref is not None:
            e = z3.Store(self.vc.hget(n), self.ref, e)
        self.vc.hset(n, e)


# card: number of elements of a finite set given as an array
_card = {}


def card_fn(ks):
    if ks.name() not in _card:
        _card[ks.name()] = z3.Function("card_" + ks.name(),
                                       z3.ArraySort(ks, B), I)
    return _card[ks.name()]


def card(vc, dom, ks):
    """card(dom) with its defining facts for emptiness; dom is finite by
    construction (only ever extended by single elements)."""
    f = card_fn(ks)
    key = ("card", dom.get_id())
    if key not in vc.ctx.axiomatized:
        vc.ctx.axiomatized.add(key)
        vc.keep.append(dom)
        k = z3.Const("k", ks)
        vc.ctx.assume(f(dom) >= 0)
        vc.ctx.assume(z3.Implies(f(dom) == 0, z3.ForAll(
            [k], z3.Not(z3.Select(dom, k)), patterns=[z3.Select(dom, k)])))
        w = vc.ctx.fresh("witness", ks)
        vc.ctx.assume(z3.Implies(f(dom) != 0, z3.Select(dom, w)))
    return f(dom)


def card_update(vc, old, new, k, ks, adding):
    f = card_fn(ks)
    o = card(vc, old, ks)
    n = card(vc, new, ks)
    if adding:
        vc.ctx.assume(n == z3.If(z3.Select(old, k), o, o + 1))
    else:
        vc.ctx.assume(n == z3.If(z3.Select(old, k), o - 1, o))


def sel_patterns(f, k):
    """Patterns for a quantifier over k in formula f: the array reads at k."""
    f = z3.simplify(f)
    out, todo, seen = [], [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_select(x) and x.arg(1).eq(k):
            a = x.arg(0)
            while z3.is_store(a):
                a = a.arg(0)
            if not z3.is_const_array(a) and not a.decl().name() == "if":
                out.append(z3.Select(a, k))
                continue
        todo.extend(x.children())
    uniq = {}
    for o in out:
        uniq[o.get_id()] = o
    return list(uniq.values())


def forall_in(dom, k, body):
    sel = z3.Select(dom, k)
    return z3.ForAll([k], z3.Implies(sel, body),
                     patterns=sel_patterns(sel, k))


class Container(Sym):
    def __init__(self, vc, loc, ty):
        self.vc, self.loc, self.ty = vc, loc, ty

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.loc.name)

    def check_mutable(self):
        if isinstance(self.loc, ValLoc):
            raise Unsupported("mutation of a container value")


class EnumDictView(Container):
    def snapshot(self):
        return {m: self.getitem(m) for m in self.ty.members}

    def _idx(self, m):
        n = len(self.ty.ty.comps())
        i = self.ty.members.index(m)
        return range(i * n, (i + 1) * n)

    def getitem(self, m):
        m = self.vc.concretize_enum(m)
        if m not in self.ty.members:
            raise ProgExc(KeyError(m))
        return self.ty.ty.dec(self.vc, [self.loc.get(i)
                                        for i in self._idx(m)])

    def setitem(self, m, v):
        m = self.vc.concretize_enum(m)
        for i, e in zip(self._idx(m), self.ty.ty.enc(self.vc, v)):
            self.loc.set(i, e)


class SMap(Container):
    def dom(self):
        return self.loc.get(0)

    def nokey(self, k):
        """a key that no map of this type has"""
        k = self.vc.force(k)
        return k is None and not isinstance(self.ty.kt, TOpt)

    def has(self, k):
        if self.nokey(k):
            return False
        (kk,) = self.ty.kt.enc(self.vc, k)
        return mkbool(z3.simplify(z3.Select(self.dom(), kk)))

    def valat(self, kk):
        n = len(self.ty.vt.comps())
        terms = [z3.Select(self.loc.get(i + 1), kk) for i in range(n)]
        if isinstance(self.ty.vt, (TMap, TUSet, TSeq)):
            return self.ty.vt.dec_at(self.vc, SubLoc(self, kk))
        return self.ty.vt.dec(self.vc, terms)

    def getitem(self, k):
        if self.nokey(k):
            raise ProgExc(KeyError(None))
        (kk,) = self.ty.kt.enc(self.vc, k)
        if not self.vc.ctx.branch(z3.Select(self.dom(), kk), "key in %s" %
                                  self.loc.name):
            raise ProgExc(KeyError("key not in %s" % self.loc.name))
        return self.valat(kk)

    def get(self, k, default=None):
        if self.nokey(k):
            return default
        (kk,) = self.ty.kt.enc(self.vc, k)
        if not self.vc.ctx.branch(z3.Select(self.dom(), kk), "key in %s" %
                                  self.loc.name):
            return default
        return self.valat(kk)

    def setitem(self, k, v):
        self.check_mutable()
        (kk,) = self.ty.kt.enc(self.vc, k)
        vv = self.ty.vt.enc(self.vc, v)
        old = self.dom()
        for i, e in enumerate(vv):
            self.loc.set(i + 1, z3.Store(self.loc.get(i + 1), kk, e))
        new = z3.Store(old, kk, z3.BoolVal(True))
        self.loc.set(0, new)
        card_update(self.vc, old, self.dom(), kk, self.ty.ks, True)

    def delitem(self, k):
        self.check_mutable()
        if self.nokey(k):
            raise ProgExc(KeyError(None))
        (kk,) = self.ty.kt.enc(self.vc, k)
        if not self.vc.ctx.branch(z3.Select(self.dom(), kk), "key in %s" %
                                  self.loc.name):
            raise ProgExc(KeyError("key not in %s" % self.loc.name))
        old = self.dom()
        self.loc.set(0, z3.Store(old, kk, z3.BoolVal(False)))
        card_update(self.vc, old, self.dom(), kk, self.ty.ks, False)

    def pop(self, k, *default):
        if self.nokey(k):
            if default:
                return default[0]
            raise ProgExc(KeyError(None))
        (kk,) = self.ty.kt.enc(self.vc, k)
        if not self.vc.ctx.branch(z3.Select(self.dom(), kk), "key in %s" %
                                  self.loc.name):
            if default:
                return default[0]
            raise ProgExc(KeyError("key not in %s" % self.loc.name))
        v = self.valat(kk)
        self.delitem(k)
        return v

    def setdefault(self, k, d=None):
        (kk,) = self.ty.kt.enc(self.vc, k)
        if not self.vc.ctx.branch(z3.Select(self.dom(), kk), "key in %s" %
                                  self.loc.name):
            self.setitem(k, d)
        return self.valat(kk)

    def length(self):
        return mkint(card(self.vc, self.dom(), self.ty.ks))

    def clear(self):
        self.check_mutable()
        self.loc.set(0, z3.K(self.ty.ks, z3.BoolVal(False)))

    def values(self):
        return View(self, "values")

    def keys(self):
        return View(self, "keys")

    def items(self):
        return View(self, "items")

    def copy(self):
        n = len(self.ty.comps())
        return SMap(self.vc, ValLoc([self.loc.get(i) for i in range(n)],
                                    self.loc), self.ty)


class SubLoc:
    """Location of a container stored as a value in a map."""
    def __init__(self, smap, kk):
        self.m, self.kk = smap, kk
        self.name = smap.loc.name + "[]"
        self.ref = kk

    def get(self, i):
        return z3.Select(self.m.loc.get(i + 1), self.kk)

    def set(self, i, e):
        self.m.loc.set(i + 1, z3.Store(self.m.loc.get(i + 1), self.kk, e))


class SUSet(Container):
    def dom(self):
        return self.loc.get(0)

    def has(self, k):
        (kk,) = self.ty.kt.enc(self.vc, k)
        return mkbool(z3.simplify(z3.Select(self.dom(), kk)))

    def valat(self, kk):
        return self.ty.kt.dec(self.vc, [kk])

    def length(self):
        return mkint(card(self.vc, self.dom(), self.ty.ks))

    def add(self, k):
        self.check_mutable()
        (kk,) = self.ty.kt.enc(self.vc, k)
        old = self.dom()
        self.loc.set(0, z3.Store(old, kk, z3.BoolVal(True)))
        card_update(self.vc, old, self.dom(), kk, self.ty.ks, True)

    def append(self, k):
        (kk,) = self.ty.kt.enc(self.vc, k)
        # a list modelled as a set must not get duplicates
        if self.vc.ctx.branch(z3.Select(self.dom(), kk)):
            raise Unsupported("duplicate appended to a list modelled as a set")
        self.add(k)

    def _del(self, k, exc):
        self.check_mutable()
        (kk,) = self.ty.kt.enc(self.vc, k)
        old = self.dom()
        if exc is not None:
            if not self.vc.ctx.branch(z3.Select(old, kk), "elem in %s" %
                                      self.loc.name):
                raise ProgExc(exc)
        self.loc.set(0, z3.Store(old, kk, z3.BoolVal(False)))
        card_update(self.vc, old, self.dom(), kk, self.ty.ks, False)

    def remove(self, k):
        self._del(k, ValueError("not in list") if self.ty.pylist
                  else KeyError("not in set"))

    def discard(self, k):
        self._del(k, None)

    def clear(self):
        self.check_mutable()
        self.loc.set(0, z3.K(self.ty.ks, z3.BoolVal(False)))

    def copy(self):
        return SUSet(self.vc, ValLoc([self.dom()], self.loc), self.ty)


class View(Sym):
    """dict.keys()/values()/items() of a symbolic map, or a snapshot list."""
    def __init__(self, m, kind, snapshot=False):
        self.m, self.kind, self.is_snapshot = m, kind, snapshot

    def __repr__(self):
        return "%r.%s()" % (self.m, self.kind)

    def snap(self):
        return View(self.m.copy(), self.kind, True)

    def key_sort(self):
        return self.m.ty.ks

    def dom(self):
        return self.m.dom()

    def elem(self, kk):
        if self.kind == "keys":
            return self.m.ty.kt.dec(self.m.vc, [kk])
        if self.kind == "values":
            return self.m.valat(kk)
        return (self.m.ty.kt.dec(self.m.vc, [kk]), self.m.valat(kk))

    def name(self):
        return self.m.loc.name

    def length(self):
        return self.m.length()


class SSeq(Container):
    def ln(self):
        return self.loc.get(0)

    def length(self):
        return mkint(z3.simplify(self.ln()))

    def at(self, i):
        n = len(self.ty.vt.comps())
        return self.ty.vt.dec(self.vc, [z3.Select(self.loc.get(j + 1), i)
                                        for j in range(n)])

    def index(self, i):
        i = self.vc.force(i)
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic sequence")
        if isinstance(i, bool) or not isinstance(i, (int, SInt)):
            raise ProgExc(TypeError("sequence index must be integer"))
        t = z3.IntVal(i) if isinstance(i, int) else i.t
        n = self.ln()
        if isinstance(i, int):
            if i < 0:
                t = n + i
                ok = t >= 0
            else:
                ok = t < n
        else:
            if self.vc.ctx.branch(t < 0):
                t = t + n
                ok = t >= 0
            else:
                ok = t < n
        if not self.vc.ctx.branch(ok, "index in range of %s" % self.loc.name):
            raise ProgExc(IndexError("index out of range"))
        return t

    def getitem(self, i):
        return self.at(self.index(i))

    def shift(self, new_len, select):
        """new contents: select(j, old array) for symbolic index j"""
        j = z3.Int("j")
        n = len(self.ty.vt.comps())
        olds = [self.loc.get(i + 1) for i in range(n)]
        for i in range(n):
            a = self.vc.ctx.fresh("seq", olds[i].sort())
            self.vc.ctx.assume(z3.ForAll(
                [j], z3.Select(a, j) == select(j, olds[i], i),
                patterns=[z3.Select(a, j)]))
            self.loc.set(i + 1, a)
        self.loc.set(0, new_len)

    def append(self, v):
        self.check_mutable()
        vv = self.ty.vt.enc(self.vc, v)
        n = self.ln()
        self.vc.ctx.ghost["inserted_at"] = n
        for i, e in enumerate(vv):
            self.loc.set(i + 1, z3.Store(self.loc.get(i + 1), n, e))
        self.loc.set(0, n + 1)

    def popleft(self):
        self.check_mutable()
        if not self.vc.ctx.branch(self.ln() > 0, "%s not empty" %
                                  self.loc.name):
            raise ProgExc(IndexError("pop from an empty deque"))
        v = self.at(z3.IntVal(0))
        self.shift(self.ln() - 1, lambda j, a, i: z3.Select(a, j + 1))
        return v

    def pop(self):
        self.check_mutable()
        if not self.vc.ctx.branch(self.ln() > 0, "%s not empty" %
                                  self.loc.name):
            raise ProgExc(IndexError("pop from an empty deque"))
        v = self.at(self.ln() - 1)
        self.loc.set(0, self.ln() - 1)
        return v

    def insert(self, idx, v):
        self.check_mutable()
        idx = self.vc.force(idx)
        vv = self.ty.vt.enc(self.vc, v)
        t = z3.IntVal(idx) if isinstance(idx, int) else idx.t
        n = self.ln()
        t = z3.If(t < 0, z3.If(t + n < 0, 0, t + n), z3.If(t > n, n, t))
        t = z3.simplify(t)
        self.vc.ctx.ghost["inserted_at"] = t
        self.shift(n + 1, lambda j, a, i: z3.If(
            j < t, z3.Select(a, j),
            z3.If(j == t, vv[i], z3.Select(a, j - 1))))

    def appendleft(self, v):
        self.insert(0, v)

    def remove(self, x):
        return self.vc.w.seq_remove(self.vc, self, x)

    def remove_at(self, t):
        n = self.ln()
        self.shift(n - 1, lambda j, a, i: z3.If(
            j < t, z3.Select(a, j), z3.Select(a, j + 1)))

    def clear(self):
        self.loc.set(0, z3.IntVal(0))
