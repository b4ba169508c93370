"""paf.filter under contract: matching (C10), and the language (C09)."""
import ast
import operator
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import BuiltinMethod, StarSeq, assigned_names
from pyvc.loops import LoopSpec, WhileSpec
from pyvc.runner import Unit
from units.strs import *

_V = z3.Datatype("PropValue")
_V.declare("VS", ("vs", STR))
_V.declare("VI", ("vi", I))
VAL = _V.create()
FLT = sort("Flt")
SEM = z3.Function("flt_matches", FLT, B)     # on the properties at hand


def text_of(v):
    """a property value as text"""
    return z3.If(VAL.is_VS(v), VAL.vs(v), dec(VAL.vi(v)))


class SVal(Sym):
    """A property value: text or integer."""
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "value(%s)" % self.t

    def which(self, vc):
        if vc.ctx.branch(VAL.is_VS(self.t), "text"):
            return SStr([VAL.vs(self.t)])
        return SInt(VAL.vi(self.t))

    def sym_isinstance(self, vc, t):
        ts = t if isinstance(t, tuple) else (t,)
        v = self.which(vc)
        return any(issubclass(str if isinstance(v, SStr) else int, x)
                   for x in ts)

    def sym_eq(self, vc, o):
        if isinstance(o, SVal):
            return SBool(self.t == o.t)
        return vc.eq(self.which(vc), o)

    def sym_is(self, vc, o):
        o = vc.force(o)
        if o is None or isinstance(o, bool):
            return False
        raise Unsupported("identity of a property value")

    def sym_truth(self, vc):
        return vc.truth(self.which(vc))

    def sym_str(self, vc):
        v = self.which(vc)
        return v if isinstance(v, SStr) else SStr([dec(v.t)])

    def sym_cmp(self, vc, op, o):
        return vc.compare({operator.lt: ast.Lt, operator.le: ast.LtE,
                           operator.gt: ast.Gt, operator.ge: ast.GtE}[op](),
                          self.which(vc), o)

    def sym_len(self, vc):
        v = self.which(vc)
        if isinstance(v, SInt):
            raise ProgExc(TypeError("object of type 'int' has no len()"))
        return v.sym_len(vc)

    def sym_int(self, vc):
        v = self.which(vc)
        return v if isinstance(v, SInt) else v.sym_int(vc)

    def sym_getattr(self, vc, name):
        return vc.getattr(self.which(vc), name)

    def sym_binop(self, vc, op, o, swapped):
        v = self.which(vc)
        return vc.binop(op, o, v) if swapped else vc.binop(op, v, o)

    def sym_hash(self, vc):
        pass


class TVal(T):
    def comps(self):
        return [("", VAL)]

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, SVal):
            return [v.t]
        if isinstance(v, (str, SStr)):
            return [VAL.VS(term(vc, v))]
        if isinstance(v, (int, SInt)) and not isinstance(v, bool):
            return [VAL.VI(num(vc, v))]
        raise Unsupported("%r is no property value" % (v,))

    def dec(self, vc, terms):
        return SVal(terms[0])


class SFlt(Sym):
    """A filter of any kind, known by what it matches (and how it is
    printed)."""
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "filter(%s)" % self.t

    def sym_getattr(self, vc, name):
        if name == "match":
            return BuiltinMethod("match", self,
                                 lambda *a, **k: self.match(vc, *a, **k))
        if name == "__str__":
            return BuiltinMethod("__str__", self, lambda: self.sym_str(vc))
        raise Unsupported("attribute %s of a filter of unknown kind" % name)

    def match(self, vc, service):
        p = vc.ctx.ghost.get("props")
        if service is not p and not (isinstance(service, SMap) and all(
                service.loc.get(i).eq(p.loc.get(i))
                for i in range(len(p.ty.comps())))):
            vc.ctx.prove(z3.BoolVal(False),
                         "C10:operands are asked about the same properties")
        return SBool(SEM(self.t))

    def sym_str(self, vc):
        return SStr([PR(self.t)])

    def sym_truth(self, vc):
        return True

    def sym_is(self, vc, o):
        if o is None:
            return False
        raise Unsupported("identity of filters")


class TFlt(T):
    def comps(self):
        return [("", FLT)]

    def enc(self, vc, v):
        v = vc.force(v)
        if isinstance(v, SFlt):
            return [v.t]
        t = getattr(vc.w, "tree", None)
        t = t(vc, v) if t is not None else None
        if t is not None:
            return [t]
        raise Unsupported("%r is no filter" % (v,))

    def dec(self, vc, terms):
        return SFlt(terms[0])


VSET = TUSet(TVal())
PROPS = TMap(TStr(), VSET)
TEXTS = TSeq(TStr())
FLTS = TSeq(TFlt())
# rest(t, j, o): the parts from the j:th on, and the final part, fit into the
# text from offset o on
rest = z3.Function("rest_fits", STR, I, I, B)


class FilterWorld(World):
    joins_in_loops = True

    def __init__(self, index):
        World.__init__(self, index)
        self.mod = index.modules["filter"]
        self.cell("Props", PROPS)
        self.cell("Parts", TEXTS)
        self.cell("Operands", FLTS)

    def int_text(self, vc, v):
        return SStr([dec(v.t)])

    def format_hook(self, vc, fmt, specs, vals):
        t = formatted(vc, fmt, vals)
        return World.format_hook(self, vc, fmt, specs, vals) \
            if t is None else t

    def joined_hook(self, vc, pieces):
        t = concat(vc, pieces)
        return World.joined_hook(self, vc, pieces) if t is None else t


# ------------------------------------------------------------ matching (C10)
class MatchWorld(FilterWorld):
    def loop_spec(self, vc, env, coll, st):
        g = vc.ctx.ghost
        if isinstance(coll, SSeq) and isinstance(coll.ty.vt, TStr):
            return parts_spec(vc, env, st)
        if isinstance(coll, SUSet) and g.get("value_fits") is not None and \
           any(isinstance(n, (ast.For, ast.Call)) for b in st.body
               for n in ast.walk(b)) and "filter.Substring.compare" not in \
                self.active_contracts:
            v = z3.Const("v", VAL)

            def inv(vc, env, V, D, pre):
                return [("C10", z3.ForAll([v], z3.Implies(
                    z3.Select(V, v), z3.Not(g["value_fits"](v))),
                    patterns=[z3.Select(V, v)]))]
            return LoopSpec("values", inv)
        return None


def parts_spec(vc, env, st):
    """The loop over the parts of a wildcard: what has been placed does not
    decide the outcome, only the rest does."""
    g = vc.ctx.ghost
    names = [n for n in sorted(assigned_names(st.body))
             if isinstance(env.vars.get(n), (int, SInt)) and
             not isinstance(env.vars.get(n), bool)]
    if len(names) != 1:
        return None
    off = names[0]
    if "fit" in g:
        t = g["fit"]["text"]
    else:
        # compare inlined: the text of which this is the beginning
        o0 = num(vc, env.vars[off])
        texts = [term(vc, v) for _, v in sorted(env.vars.items())
                 if isinstance(v, SStr)] if "sub" in g else []
        texts = [t for t in texts
                 if vc.ctx.entails(fits(vc, t) == rest(t, 0, o0))]
        if not texts:
            return None
        t = texts[0]

    def inv(vc, env, p, D, pre):
        o = num(vc, env.vars[off])
        return [("C10", z3.And(o >= 0, o <= ln(t))),
                ("C10", fits(vc, t) == rest(t, p, o))]
    return LoopSpec("parts", inv, locals={off: TInt()})


def fits(vc, t):
    g = vc.ctx.ghost["sub"]
    return z3.If(g["ini.some"], z3.And(At(t, 0, g["ini"]),
                                       rest(t, 0, ln(g["ini"]))),
                 rest(t, 0, 0))


def rest_theory(g):
    """rest_fits by recursion over the parts that remain"""
    t = z3.Const("t", STR)
    j, o, p = z3.Ints("j o p")
    n, at = g["n"], g["at"]
    part = z3.Select(at, j)
    last = ln(t) - ln(g["fin"])
    f = [z3.ForAll([t, o], rest(t, n, o) == z3.Or(
        z3.Not(g["fin.some"]), z3.And(At(t, last, g["fin"]), last >= o)),
        patterns=[rest(t, n, o)])]
    more = z3.And(p >= o, At(t, p, part), rest(t, j + 1, p + ln(part)))
    q = z3.Function("rest_at", STR, I, I, I)(t, j, o)
    f += [z3.ForAll([t, j, o], z3.Implies(
        z3.And(j >= 0, j < n, rest(t, j, o)),
        z3.substitute(more, (p, q))), patterns=[rest(t, j, o)]),
        z3.ForAll([t, j, o, p], z3.Implies(
            z3.And(j >= 0, j < n, more), rest(t, j, o)),
            patterns=[z3.MultiPattern(rest(t, j, o), At(t, p, part))])]
    return f


class C10(Contract):
    outcomes = [Outcome("return")]
    exc_tag = "C10"

    def props(self, vc):
        g = vc.ctx.ghost
        if "props" not in g:
            g["props"] = vc.cell("Props", PROPS)
        return g["props"]

    def setup(self, vc):
        for f in theory():
            vc.ctx.assume(f)
        # values that are integers are spelled in decimals, texts as they are
        return self.props(vc)

    def has(self, key):
        """the value sets under a key"""
        h = self.h0
        return h.at("Props.dom", key), \
            lambda v: z3.Select(h.at("Props.val.dom", key), v)


class SubFields:
    """the fields of a wildcard: constants of the unit"""
    def sub(self, vc):
        ctx = vc.ctx
        g = {"ini.some": z3.Const("ini.some", B), "ini": z3.Const("ini", STR),
             "fin.some": z3.Const("fin.some", B), "fin": z3.Const("fin", STR),
             "n": H(vc)("Parts.len"), "at": H(vc)("Parts.at")}
        ctx.ghost["sub"] = g
        ctx.assume(g["n"] >= 0)
        for f in rest_theory(g):
            ctx.assume(f)
        # what fits from some offset on also fits from an earlier one
        t = z3.Const("t", STR)
        j, o, p = z3.Ints("j o p")
        t0 = ctx.fresh("t", STR)
        j0, o0, p0 = ctx.fresh("j", I), ctx.fresh("o", I), ctx.fresh("p", I)
        goal = z3.Implies(z3.And(j0 >= 0, j0 <= g["n"], o0 <= p0,
                                 rest(t0, j0, p0)), rest(t0, j0, o0))
        ctx.prove(goal, "C10:lemma: fitting later means fitting earlier",
                  lemma=False)
        ctx.assume(z3.ForAll([t, j, o, p], z3.Implies(z3.And(
            j >= 0, j <= g["n"], o <= p, rest(t, j, p)), rest(t, j, o)),
            patterns=[z3.MultiPattern(rest(t, j, o), rest(t, j, p))]))
        return g

    def sub_values(self, vc, g):
        return (SOpt(g["ini.some"], TStr(), SStr([g["ini"]])),
                vc.cell("Parts", TEXTS),
                SOpt(g["fin.some"], TStr(), SStr([g["fin"]])))


class Match(C10, SubFields):
    """a new filter of one kind, asked about any properties"""
    def __init__(self, kind):
        self.kind = kind
        self.q = "filter.%s.match" % kind
        self.synthetic = True
        self.covers = ["%s:%s" % (self.q, x) for x in ("true", "false")]

    def verify(self, vc, f):
        ctx = vc.ctx
        props = self.setup(vc)
        self.h0 = H(vc)
        if getattr(vc.w.mod, self.kind, None) is None:
            raise Unsupported("no class %s" % self.kind)
        ctx.written.clear()
        spec = None
        try:
            obj, spec = self.make(vc, getattr(vc.w.mod, self.kind))
            before = dict(vars(obj))
            r = vc.call(vc.getattr(obj, "match"), [props], {})
            r = vc.truth(r)
        except ProgExc as e:
            ctx.prove(z3.BoolVal(False), "C10:matching never fails: %s" %
                      type(e.exc).__name__)
            return
        ctx.trace.append("=> %s" % r)
        stats_cover(ctx, "%s:%s" % (self.q, "true" if r else "false"))
        for m in sorted(ctx.written):
            ctx.prove(self.h0(m) == H(vc)(m),
                      "C10:matching changes neither filter nor properties")
        ctx.prove(z3.BoolVal(set(before) == set(vars(obj)) and all(
            same(before[k], vars(obj)[k]) for k in before)),
            "C10:matching changes neither filter nor properties")
        goal = spec(r)
        ctx.prove(goal, "C10:%s matches exactly what it should" % self.kind)

    def make(self, vc, cls):
        ctx = vc.ctx
        k = ctx.fresh("key", STR)
        present, has = self.has(k)
        key = SStr([k])
        v = z3.Const("v", VAL)

        def some(cond):
            w = ctx.fresh("anyvalue", VAL)
            # a value that decides, if there is one (Skolem constant)
            e = z3.And(present, has(w), cond(w))
            ctx.assume(z3.ForAll([v], z3.Implies(
                z3.And(present, has(v), cond(v)), e), patterns=[has(v)]))
            return lambda r: e if r else z3.Not(e)
        kind = self.kind
        if kind == "Equal":
            x = ctx.fresh("value", STR)
            return vc.call(cls, [key, SStr([x])], {}), \
                some(lambda v: text_of(v) == x)
        if kind in ("GreaterThan", "LessThan"):
            x = ctx.fresh("value", I)
            return vc.call(cls, [key, SInt(x)], {}), some(
                lambda v: z3.And(VAL.is_VI(v), VAL.vi(v) > x if
                                 kind == "GreaterThan" else VAL.vi(v) < x))
        if kind == "Present":
            return vc.call(cls, [key], {}), \
                lambda r: present if r else z3.Not(present)
        if kind == "Substring":
            g = self.sub(vc)
            ini, parts, fin = self.sub_values(vc, g)
            ctx.ghost["value_fits"] = lambda v: fits(vc, text_of(v))
            return vc.call(cls, [key], {"initial": ini, "intermediate": parts,
                                        "final": fin}), \
                some(lambda v: fits(vc, text_of(v)))
        if kind == "Not":
            x = ctx.fresh("operand", FLT)
            return vc.call(cls, [SFlt(x)], {}), \
                lambda r: SEM(x) != z3.BoolVal(r)
        if kind in ("And", "Or"):
            ops = vc.cell("Operands", FLTS)
            n, at = self.h0("Operands.len"), self.h0("Operands.at")
            ctx.assume(n >= 2)
            i = z3.Int("i")
            w = ctx.fresh("which", I)
            d = SEM(z3.Select(at, w))
            if kind == "And":
                d = z3.Not(d)
            e = z3.And(w >= 0, w < n, d)
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(
                i >= 0, i < n, SEM(z3.Select(at, i)) if kind == "Or" else
                z3.Not(SEM(z3.Select(at, i)))), e),
                patterns=[z3.Select(at, i)]))
            return vc.call(cls, [StarSeq(ops)], {}), \
                lambda r: e if r == (kind == "Or") else z3.Not(e)
        raise Unsupported(kind)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SSeq) and isinstance(b, SSeq):
        return all(a.loc.get(i).eq(b.loc.get(i))
                   for i in range(len(a.ty.comps())))
    return False


class Compare(C10, SubFields):
    """Substring.compare of a text"""
    q = "filter.Substring.compare"

    def entry(self, vc):
        self.setup(vc)
        self.h0 = H(vc)
        g = self.sub(vc)
        ini, parts, fin = self.sub_values(vc, g)
        obj = vc.call(vc.w.mod.Substring, [SStr([vc.ctx.fresh("key", STR)])],
                      {"initial": ini, "intermediate": parts, "final": fin})
        t = vc.ctx.fresh("text", STR)
        vc.ctx.ghost["fit"] = {"text": t}
        return [obj, SStr([t])], {}

    def result(self, vc, a, label):
        vals = list(a.values())
        if vc.ctx.ghost.get("sub") is None or len(vals) != 2 or \
           not isinstance(vals[1], (str, SStr)):
            raise Unsupported("compare in an unknown setting")
        return SBool(fits(vc, term(vc, vals[1])))

    def ensures(self, vc, a, old, label, result):
        r = vc.boolt(result)
        return [("C10", r == fits(vc, term(vc, list(a.values())[1])))]


def match_units():
    u = []
    for k in ("Equal", "GreaterThan", "LessThan", "Present", "Substring",
              "Not", "And", "Or"):
        u.append(Unit("filter", MatchWorld, Match(k), ["C10"],
                      contracts=[Compare()] if k == "Substring" else []))
    u.append(Unit("filter", MatchWorld, Compare(), ["C10"]))
    return u



# ------------------------------------------------------------ language (C09)
SPECIALS = "()*\\!&|=><"          # the documented special characters
_E = z3.Datatype("ListElement")
_E.declare("EF", ("ef", FLT))
_E.declare("ES", ("es", STR))
EL = _E.create()
AEL = z3.ArraySort(I, EL)
A0 = z3.K(I, z3.Const("default_%s" % EL, EL))
TXT = z3.Const("the_text", STR)
N = ln(TXT)
fn = z3.Function
# words: end (or -1) and value of the word from an offset on
WE = fn("word_end", I, I)
W = fn("word", I, STR, STR)
# the body of a filter (what is between its parentheses)
PE = fn("body_end", I, I)
PT = fn("body_tree", I, FLT)
# operands: end, number and list
LE = fn("operands_end", I, I, I)
LN = fn("operands_n", I, I, I)
LA = fn("operands", I, I, AEL, AEL)
# parts of a wildcard after the first asterisk
ME = fn("parts_end", I, I)
MN = fn("parts_n", I, I, I)
MA = fn("parts", I, I, AEL, AEL)
MFs = fn("final_some", I, B)
MF = fn("final", I, STR)
ME2 = fn("parts_end2", I, STR, I)
MN2 = fn("parts_number2", I, STR, I, I)
MA2 = fn("parts2", I, STR, I, AEL, AEL)
MFs2 = fn("has_final2", I, STR, B)
MF2 = fn("final2", I, STR, STR)
# filters
kEq = fn("f_equal", STR, STR, FLT)
kGt = fn("f_greater", STR, I, FLT)
kLt = fn("f_less", STR, I, FLT)
kPr = fn("f_present", STR, FLT)
kSub = fn("f_substring", STR, B, STR, I, AEL, B, STR, FLT)
kNot = fn("f_not", FLT, FLT)
kAnd = fn("f_and", I, AEL, FLT)
kOr = fn("f_or", I, AEL, FLT)


def at(o):
    return ch(TXT, o)


def special(c):
    return z3.Or(*[c == ord(x) for x in SPECIALS])


def cases(conds, default):
    """[(condition, [equations])...] in order"""
    r = z3.And(*default)
    for c, eqs in reversed(conds):
        r = z3.If(c, z3.And(*eqs), r)
    return r


def add1(acc, c):
    return one_(c) if acc.eq(EMPTY) else cat_(acc, one_(c))


def u_word(o, acc):
    c, d = at(o), at(o + 1)
    return cases([
        (z3.Or(o < 0, o >= N), [WE(o) == -1]),
        (z3.And(c == ord("\\"), o + 1 < N, special(d)),
         [WE(o) == WE(o + 2), W(o, acc) == W(o + 2, add1(acc, d))]),
        (c == ord("\\"), [WE(o) == -1]),
        (special(c), [WE(o) == o, W(o, acc) == acc])],
        [WE(o) == WE(o + 1), W(o, acc) == W(o + 1, add1(acc, c))])


def u_parts(q, n, a):
    """the parts from q on; u_parts2: when a word was just read there"""
    e, v = WE(q), W(q, EMPTY)
    return z3.And(cases([
        (z3.Or(e < 0, e >= N), [ME(q) == -1])],
        [ME(q) == ME2(e, v), MN(q, n) == MN2(e, v, n),
         MA(q, n, a) == MA2(e, v, n, a),
         MFs(q) == MFs2(e, v), MF(q) == MF2(e, v)]), u_parts2(e, v, n, a))


def u_parts2(e, v, n, a):
    return cases([
        (z3.Or(e < 0, e >= N), [ME2(e, v) == -1]),
        (z3.And(at(e) == ord("*"), ln(v) == 0), [ME2(e, v) == -1]),
        (at(e) == ord("*"), [
            ME2(e, v) == ME(e + 1), MN2(e, v, n) == MN(e + 1, n + 1),
            MA2(e, v, n, a) == MA(e + 1, n + 1, z3.Store(a, n, EL.ES(v))),
            MFs2(e, v) == MFs(e + 1), MF2(e, v) == MF(e + 1)])],
        [ME2(e, v) == e, MN2(e, v, n) == n, MA2(e, v, n, a) == a,
         MFs2(e, v) == (ln(v) != 0), MF2(e, v) == v])


def u_operands(p, n, a):
    c, e = at(p), PE(p + 1)
    return cases([
        (z3.Or(p < 0, p >= N), [LE(p, n) == -1]),
        (z3.And(c == ord("("), e >= 0, e < N, at(e) == ord(")")),
         [LE(p, n) == LE(e + 1, n + 1), LN(p, n) == LN(e + 1, n + 1),
          LA(p, n, a) == LA(e + 1, n + 1,
                            z3.Store(a, n, EL.EF(PT(p + 1))))]),
        (z3.And(c == ord(")"), n >= 2),
         [LE(p, n) == p, LN(p, n) == n, LA(p, n, a) == a])],
        [LE(p, n) == -1])


def u_body(o):
    c = at(o)
    o2 = PE(o + 2)
    k, e = W(o, EMPTY), WE(o)
    v, e1 = W(e + 1, EMPTY), WE(e + 1)
    q = e1 + 1
    z = z3.IntVal(0)
    sub = kSub(k, ln(v) != 0, v, MN(q, z), MA(q, z, A0), MFs(q), MF(q))

    def order(op, kind):
        return (at(e) == ord(op), [
            PE(o) == z3.If(z3.And(e1 >= 0, stripped(v), isint(v)), e1, -1),
            PT(o) == kind(k, intval(v))])

    def composite(op, kind):
        return (c == ord(op), [
            PE(o) == LE(o + 1, z),
            PT(o) == kind(LN(o + 1, z), LA(o + 1, z, A0))])
    return cases([
        (z3.Or(o < 0, o >= N), [PE(o) == -1]),
        composite("&", kAnd), composite("|", kOr),
        (c == ord("!"), [
            PE(o) == z3.If(z3.And(o + 1 < N, at(o + 1) == ord("("),
                                  o2 >= 0, o2 < N, at(o2) == ord(")")),
                           o2 + 1, -1),
            PT(o) == kNot(PT(o + 2))]),
        (z3.Or(e < 0, e >= N, ln(k) == 0), [PE(o) == -1]),
        (z3.And(at(e) == ord("="), z3.Or(e1 < 0, e1 >= N)), [PE(o) == -1]),
        (z3.And(at(e) == ord("="), at(e1) != ord("*")),
         [PE(o) == z3.If(ln(v) == 0, -1, e1), PT(o) == kEq(k, v)]),
        (at(e) == ord("="), [
            PE(o) == ME(q), PT(o) == z3.If(
                z3.And(ln(v) == 0, MN(q, z) == 0, z3.Not(MFs(q))),
                kPr(k), sub)]),
        order(">", kGt), order("<", kLt)], [PE(o) == -1])


def accepted():
    e = PE(z3.IntVal(1))
    return z3.And(N >= 1, at(0) == ord("("), e >= 0, e < N,
                  at(e) == ord(")"), e + 1 == N)


class TEl(T):
    """element of a list: text or filter"""
    def comps(self):
        return [("", EL)]

    def enc(self, vc, v):
        v = vc.force(v)
        t = term(vc, v)
        if t is not None:
            return [EL.ES(t)]
        return [EL.EF(TFlt().enc(vc, v)[0])]

    def dec(self, vc, terms):
        raise Unsupported("an element of a list being parsed")


class TempLoc:
    """A list that the function under verification has made."""
    ref = None
    name = "list"

    def __init__(self, vc, terms):
        self.vc = vc
        self.terms = list(terms)
        vc.ctx.created(self)

    def get(self, i):
        return self.terms[i]

    def set(self, i, e):
        self.vc.check_native_write(self)
        self.terms[i] = e


ELS = TSeq(TEl())


class LangWorld(FilterWorld):
    def __init__(self, index):
        FilterWorld.__init__(self, index)
        self.heap_class("PState", self.mod.ParseState,
                        {"data": TStr(), "offset": TInt()})

    def tree(self, vc, o):
        """the filter an object stands for"""
        m = self.mod
        d = getattr(o, "__dict__", None)
        if d is None:
            return None
        try:
            key = term(vc, d["key"]) if "key" in d else None
            if type(o) is m.Equal:
                return kEq(key, term(vc, d["value"]))
            if type(o) is m.GreaterThan:
                return kGt(key, num(vc, d["value"]))
            if type(o) is m.LessThan:
                return kLt(key, num(vc, d["value"]))
            if type(o) is m.Present:
                return kPr(key)
            if type(o) is m.Substring:
                i, f = opt(vc, d["initial"]), opt(vc, d["final"])
                n, a = elements(vc, d["intermediate"])
                return kSub(key, i[0], i[1], n, a, f[0], f[1])
            if type(o) is m.Not:
                return kNot(TFlt().enc(vc, d["operand"])[0])
            if type(o) in (m.And, m.Or):
                n, a = elements(vc, d["operands"])
                return (kAnd if type(o) is m.And else kOr)(n, a)
        except KeyError as e:
            raise Unsupported("filter without %s" % e)
        return None

    def while_spec(self, vc, env, st):
        return parse_loop(vc, env, st)



def elements(vc, v):
    """a list of texts or filters as a list of elements"""
    if isinstance(v, SSeq) and v.loc.get(1).sort() != AEL:
        at, a = vc.ctx.ghost.get("texts_as", (None, None))
        if at is not None and at.eq(v.loc.get(1)):
            return [v.loc.get(0), a]
        raise Unsupported("list of unknown elements")
    return ELS.enc(vc, v)


def opt(vc, v):
    """(present, text)"""
    if v is None:
        return z3.BoolVal(False), EMPTY
    if isinstance(v, SOpt):
        return v.some, z3.If(v.some, term(vc, v.val), EMPTY)
    return z3.BoolVal(True), term(vc, v)


def list_terms(vc, v):
    if isinstance(v, SSeq):
        return [v.loc.get(i) for i in range(2)]
    if type(v) is list and not v:
        return [z3.IntVal(0), A0]
    return None


def parse_loop(vc, env, st):
    """A loop over the text being parsed: what it has yet to find, together
    with what it has, is what there was to find when it began."""
    states = [v for v in env.vars.values()
              if isinstance(v, SRef) and v.cls == "PState"]
    if len({s.t.get_id() for s in states}) != 1:
        return None
    state = states[0].t
    appended = {n.func.value.id for b in st.body for n in ast.walk(b)
                if isinstance(n, ast.Call) and
                isinstance(n.func, ast.Attribute) and
                n.func.attr == "append" and
                isinstance(n.func.value, ast.Name)}

    def look(env):
        h = H(vc)
        assigned = assigned_names(st.body)
        pos, txt, flags, lists = {}, {}, {}, {}
        pos["offset"] = h.at("PState.offset", state)
        for n, v in env.vars.items():
            if n in appended:
                l = list_terms(vc, v)
                if l is not None:
                    lists[n] = l
            if n not in assigned:
                continue
            if isinstance(v, bool):
                flags[n] = z3.BoolVal(v)
            elif isinstance(v, SBool):
                flags[n] = v.t
            elif isinstance(v, (int, SInt)):
                pos[n] = num(vc, v)
            elif isinstance(v, (str, SStr)):
                txt[n] = term(vc, v)
        return pos, txt, flags, lists
    p0, t0, f0, l0 = look(env)
    o0 = p0["offset"]
    offsets0 = vc.hget("PState.offset")

    def candidates(vc, env):
        pos, txt, flags, lists = look(env)
        out = []
        for pn, p in pos.items():
            out.append(("%s bounds" % pn, z3.And(p >= o0, p <= N)))
            if pn == "offset":
                out.append(("no other state", vc.hget("PState.offset") ==
                            z3.Store(offsets0, state, p)))
            for fn, f in list(flags.items()) + [(None, None)]:
                for neg in ((False, True) if f is not None else (False,)):
                    nm = "%s/%s%s" % (pn, "not " if neg else "", fn)
                    c = None if f is None else z3.Not(f) if neg else f
                    x = p if c is None else z3.If(c, p - 1, p)
                    if c is not None:
                        out.append(("escape %s" % nm, z3.Implies(c, z3.And(
                            p - 1 >= o0, p - 1 < N,
                            at(p - 1) == ord("\\")))))
                    for tn, t in txt.items():
                        if tn in t0:
                            out.append(("word %s %s" % (nm, tn), z3.And(
                                WE(o0) == WE(x),
                                W(o0, t0[tn]) == W(x, t))))
            for n, (k, a) in lists.items():
                if n not in l0:
                    continue
                k0, a0 = l0[n]
                out.append(("length %s" % n, k >= 0))
                out.append(("operands %s %s" % (pn, n), z3.And(
                    LE(o0, k0) == LE(p, k), LN(o0, k0) == LN(p, k),
                    LA(o0, k0, a0) == LA(p, k, a))))
                out.append(("parts %s %s" % (pn, n), z3.And(
                    ME(o0) == ME(p), MN(o0, k0) == MN(p, k),
                    MA(o0, k0, a0) == MA(p, k, a),
                    MFs(o0) == MFs(p), MF(o0) == MF(p))))
                for tn, t in txt.items():
                    if tn not in t0:
                        continue
                    t_ = t0[tn]
                    out.append(("parts %s %s %s" % (pn, n, tn), z3.And(
                        ME2(o0, t_) == ME2(p, t),
                        MN2(o0, t_, k0) == MN2(p, t, k),
                        MA2(o0, t_, k0, a0) == MA2(p, t, k, a),
                        MFs2(o0, t_) == MFs2(p, t),
                        MF2(o0, t_) == MF2(p, t))))
        return out

    def on_head(vc, env):
        pos, txt, flags, lists = look(env)
        for p in pos.values():
            for t in txt.values():
                vc.ctx.assume(u_word(p, t))
                if flags:
                    vc.ctx.assume(u_word(p - 1, t))
            for k, a in lists.values():
                vc.ctx.assume(u_operands(p, k, a))
                vc.ctx.assume(u_parts(p, k, a))
                for t in txt.values():
                    vc.ctx.assume(u_parts2(p, t, k, a))
                    vc.ctx.assume(u_parts(p + 1, k + 1, z3.Store(
                        a, k, EL.ES(t))))

    def variants(vc, env):
        return [N - p for p in look(env)[0].values()]

    def lists(vc, env, before):
        for n in appended:
            if list_terms(vc, before.get(n)) is not None:
                if type(before[n]) is list:
                    vc.escape(before[n])
                env.vars[n] = SSeq(vc, TempLoc(vc, [
                    vc.ctx.fresh(n + ".len", I), vc.ctx.fresh(n, AEL)]), ELS)

    spec = WhileSpec("%s:%d" % (env.fname, st.lineno - env.node.lineno
                                if env.node is not None else 0),
                     candidates, variants, on_head=on_head, lists=lists,
                     term_tag="C09")

    def fresh(vc, n, v):
        from pyvc.loops import fresh_like
        if isinstance(v, (str, SStr)):
            return TStr().fresh(vc, n)
        return fresh_like(vc, n, v, {})
    spec.fresh = fresh
    return spec


def perr(vc):
    return vc.w.mod.ParseError


class C09(Contract):
    exc_tag = "C09"
    mod = ("PState.offset",)

    @property
    def outcomes(self):
        import sys
        e = getattr(sys.modules.get("paf.filter"), "ParseError", None)
        return [Outcome("return"), Outcome("error", e)]

    def off(self, h, a):
        return h.at("PState.offset", a["state"].t)

    def params(self, vc, f, args, kw):
        a = Contract.params(self, vc, f, args, kw)
        s = [v for v in a.values() if isinstance(v, SRef) and
             v.cls == "PState"]
        if len(s) != 1 or len(a) != 1:
            raise Unsupported("%s with other parameters" % self.q)
        return {"state": s[0]}

    def requires(self, vc, a):
        h = H(vc)
        o = self.off(h, a)
        return [("C09", h.at("PState.data", a["state"].t) == TXT),
                ("C09", z3.And(o >= 0, o <= N))]

    def entry(self, vc):
        for f in theory():
            vc.ctx.assume(f)
        s = vc.new_ref("PState")
        return [s], {}

    def moved(self, vc, a, old):
        h = H(vc)
        return [("C09", h("PState.offset") == z3.Store(
            old("PState.offset"), a["state"].t, self.off(h, a)))]


class ParseStr(C09):
    q = "filter._parse_str"

    def entry(self, vc):
        r = C09.entry(self, vc)
        vc.ctx.assume(u_word(H(vc).at("PState.offset", r[0][0].t), EMPTY))
        return r

    def result(self, vc, a, label):
        return SStr([vc.ctx.fresh("word", STR)]) if label == "return" \
            else None

    def ensures(self, vc, a, old, label, result):
        h = H(vc)
        o, e = self.off(old, a), self.off(h, a)
        if label == "error":
            return [("C09:a word is refused only if it is none", WE(o) < 0)]
        if not isinstance(result, (str, SStr)):
            return [("C09:a word is a text", z3.BoolVal(False))]
        return self.moved(vc, a, old) + [
            ("C09:a word ends where it should", z3.And(
                WE(o) == e, e >= o, e < N)),
            ("C09:a word ends with a special character", z3.And(
                special(at(e)), at(e) != ord("\\"))),
            ("C09:a word has its characters, unescaped",
             W(o, EMPTY) == term(vc, result))]


class Parse(C09):
    """_parse: the body of a filter"""
    q = "filter._parse"

    @property
    def outcomes(self):
        return C09.outcomes.fget(self) + [Outcome("recursion",
                                                  RecursionError)]

    covers = ["filter._parse:return", "filter._parse:error",
              "filter._parse:recursion"]

    def entry(self, vc):
        r = C09.entry(self, vc)
        o = H(vc).at("PState.offset", r[0][0].t)
        vc.ctx.assume(u_body(o))
        vc.ctx.assume(u_parts(WE(WE(o) + 1) + 1, z3.IntVal(0), A0))
        vc.ctx.ghost["outer"] = o
        return r

    def body(self, vc, f, args, kw):
        vc.w.note_function(self.q)
        vc.ctx.ghost["inside"] = True
        return vc.invoke(vc.w.index.find(f.__code__), None, f.__globals__,
                         f.__defaults__ or (), f.__kwdefaults__ or {}, args,
                         kw, self.q)

    def requires(self, vc, a):
        r = C09.requires(self, vc, a)
        outer = vc.ctx.ghost.get("outer")
        o = self.off(H(vc), a)
        if vc.ctx.ghost.get("inside"):
            r.append(("C09:nested expressions are further on", o > outer))
        return r

    def result(self, vc, a, label):
        return SFlt(vc.ctx.fresh("filter", FLT)) if label == "return" \
            else None

    def ensures(self, vc, a, old, label, result):
        h = H(vc)
        o, e = self.off(old, a), self.off(h, a)
        if label == "recursion":
            vc.ctx.ghost["recursed"] = True
            return []
        if label == "error":
            return [("C09:only what is no filter is refused", PE(o) < 0)]
        try:
            t = TFlt().enc(vc, result)[0]
        except Unsupported:
            if isinstance(result, Sym) or vc.is_paf_obj(result):
                raise
            return [("C09:parsing gives a filter", z3.BoolVal(False))]
        return self.moved(vc, a, old) + [
            ("C09:a filter ends where it should", z3.And(
                PE(o) == e, e >= o, e <= N)),
            ("C09:a filter is what its text says", t == PT(o))]


class ParseAll(C09):
    """parse: the whole text"""
    q = "filter.parse"
    mod = ("PState.offset", "PState.data")

    def params(self, vc, f, args, kw):
        return Contract.params(self, vc, f, args, kw)

    def requires(self, vc, a):
        return []

    def entry(self, vc):
        for f in theory():
            vc.ctx.assume(f)
        return [SStr([TXT])], {}

    def ensures(self, vc, a, old, label, result):
        if label == "error":
            if vc.ctx.ghost.get("recursed"):
                return [("C09:too deep an expression is a syntax error",
                         z3.BoolVal(True))]
            return [("C09:only what is no filter is refused",
                     z3.Not(accepted()))]
        return [("C09:only filters are accepted", accepted()),
                ("C09:a filter is what its text says",
                 TFlt().enc(vc, result)[0] == PT(z3.IntVal(1)))]



# printing: what has been written so far (b) and then ...
ESC = fn("escaped_to", STR, STR, I, STR)     # ... i characters, escaped
PL = fn("parts_to", STR, I, AEL, STR)        # ... i parts, each with '*'
OL = fn("operands_to", STR, I, AEL, STR)     # ... i operands
PR = fn("printed", FLT, STR)
PRE = fn("prefix", STR, I, STR)              # the first i characters


def esc(s):
    return ESC(EMPTY, s, ln(s))


def u_esc(b, s, i):
    c = ch(s, i)
    return [ESC(b, s, 0) == b, z3.Implies(
        z3.And(i >= 0, i < ln(s)), ESC(b, s, i + 1) == z3.If(
            special(c), cat_(cat_(ESC(b, s, i), one_(ord("\\"))), one_(c)),
            cat_(ESC(b, s, i), one_(c))))]


def u_pl(b, i, a):
    return [PL(b, 0, a) == b, z3.Implies(i >= 0, PL(b, i + 1, a) == cat_(
        cat_(PL(b, i, a), esc(EL.es(z3.Select(a, i)))), one_(ord("*"))))]


def u_ol(b, i, a):
    return [OL(b, 0, a) == b, z3.Implies(i >= 0, OL(b, i + 1, a) == cat_(
        OL(b, i, a), PR(EL.ef(z3.Select(a, i)))))]


def sub_text(k, i, fin):
    """what precedes the parts of a wildcard, and what follows them"""
    b = ["(", esc(k), "="]
    return fold(b + (["*"] if i is None else [esc(i), "*"])), \
        lambda x: fold([x] + ([] if fin is None else [esc(fin)]) + [")"])


def text_loop(vc, env, coll, st):
    """A loop that writes one thing after the other: what is written is the
    text before the loop and then the things so far."""
    if not isinstance(coll, SSeq):
        return None
    seq = vc.ctx.ghost.get("seqs", {})
    accs = [n for n in sorted(assigned_names(st.body))
            if isinstance(env.vars.get(n), (str, SStr))]
    if len(accs) != 1:
        return None
    acc = accs[0]
    b = term(vc, env.vars[acc])
    kind = None
    for k, (x, f, u) in seq.items():
        if coll.loc.get(1).eq(x):
            kind = (f, u)
    if kind is None:
        return None
    f, u = kind
    # written apart: what it is when put after the text it belongs after
    more = vc.ctx.ghost.get("after", []) if b.eq(EMPTY) else []
    if more:
        vc.ctx.assume(z3.ForAll([s_, t_, u_], cat_(cat_(s_, t_), u_) ==
                                cat_(s_, cat_(t_, u_)),
                                patterns=[cat_(cat_(s_, t_), u_)]))

    def inv(vc, env, p, D, pre):
        if not isinstance(env.vars.get(acc), (str, SStr)):
            return [("C09", z3.BoolVal(False))]
        x = term(vc, env.vars[acc])
        return [("C09", x == f(b, p))] + [
            ("C09", cat_(b2, x) == f(b2, p)) for b2 in more]

    def start(vc, env, p):
        for b2 in [b] + more:
            for x in u(b2, p):
                vc.ctx.assume(x)
    for b2 in [b] + more:
        for x in u(b2, z3.IntVal(0)):
            vc.ctx.assume(x)
        vc.ctx.assume(cat_(b2, EMPTY) == b2)
    return LoopSpec("text", inv, locals={acc: TStr()}, start=start)


class PrintWorld(LangWorld):
    def while_spec(self, vc, env, st):
        return None

    def loop_spec(self, vc, env, coll, st):
        return text_loop(vc, env, coll, st)


class Escape(Contract):
    q = "filter.escape"
    exc_tag = "C09"

    def entry(self, vc):
        for f in theory():
            vc.ctx.assume(f)
        x = vc.ctx.fresh("text", STR)
        vc.ctx.ghost["seqs"] = {"chars": (
            arr(x), lambda b, p: ESC(b, x, p), lambda b, p: u_esc(b, x, p))}
        return [SStr([x])], {}

    def arg(self, vc, a):
        (v,) = a.values()
        v = vc.force(v)
        t = term(vc, v)
        if t is None:
            raise Unsupported("escape of %r" % (v,))
        return t

    def result(self, vc, a, label):
        return SStr([esc(self.arg(vc, a))])

    def ensures(self, vc, a, old, label, result):
        t = term(vc, vc.force(result))
        if t is None:
            return [("C09:escaping gives a text", z3.BoolVal(False))]
        return [("C09:escaping puts a backslash before each special "
                 "character, and changes nothing else",
                 t == esc(self.arg(vc, a)))]


KINDS = ("Equal", "GreaterThan", "LessThan", "Present", "Substring", "Not",
         "And", "Or")


class Print(Contract):
    """the text of a filter of one kind; it is equal to one like it"""
    synthetic = True

    def __init__(self, kind):
        self.kind = kind
        self.q = "filter.%s.__str__" % kind
        self.covers = [self.q]

    def verify(self, vc, f):
        ctx = vc.ctx
        for f in theory():
            ctx.assume(f)
        cls = getattr(vc.w.mod, self.kind, None)
        if cls is None:
            raise Unsupported("no class %s" % self.kind)
        ctx.ghost["seqs"] = {}
        ctx.written.clear()
        old = H(vc)
        try:
            args, kw, want = self.make(vc)
            o1 = vc.call(cls, list(args), dict(kw))
            o2 = vc.call(cls, list(args), dict(kw))
            tree = vc.w.tree(vc, o1)
            before = dict(vars(o1))
            r = vc.force(vc.call(str, [o1], {}))
            eq = vc.truth(vc.eq(o1, o2))
        except ProgExc as e:
            ctx.prove(z3.BoolVal(False), "C09:printing never fails: %s" %
                      type(e.exc).__name__)
            return
        stats_cover(ctx, self.q)
        t = term(vc, r)
        if t is None:
            if isinstance(r, SText):
                raise Unsupported("text of unknown making")
            t = z3.Const("no_text", STR)
        ctx.prove(t == want, "C09:%s is printed as the language has it" %
                  self.kind)
        ctx.prove(z3.BoolVal(eq), "C09:filters with the same parts are equal")
        ctx.prove(tree == self.tree, "C09:%s keeps what it is made of" %
                  self.kind)
        for m in sorted(ctx.written):
            ctx.prove(old(m) == H(vc)(m), "C09:printing changes nothing")
        ctx.prove(z3.BoolVal(set(before) == set(vars(o1)) and all(
            same(before[k], vars(o1)[k]) for k in before)),
            "C09:printing changes nothing")

    def make(self, vc):
        ctx = vc.ctx
        k = ctx.fresh("key", STR)
        kind = self.kind
        if kind == "Equal":
            x = ctx.fresh("value", STR)
            self.tree = kEq(k, x)
            return [SStr([k]), SStr([x])], {}, fold(
                ["(", esc(k), "=", esc(x), ")"])
        if kind in ("GreaterThan", "LessThan"):
            x = ctx.fresh("value", I)
            self.tree = (kGt if kind == "GreaterThan" else kLt)(k, x)
            return [SStr([k]), SInt(x)], {}, fold(
                ["(", esc(k), ">" if kind == "GreaterThan" else "<",
                 esc(dec(x)), ")"])
        if kind == "Present":
            self.tree = kPr(k)
            return [SStr([k])], {}, fold(["(", esc(k), "=*)"])
        if kind == "Substring":
            i = ctx.fresh("initial", STR)
            f = ctx.fresh("final", STR)
            i = i if ctx.choose(["yes", "no"], "initial") == "yes" else None
            f = f if ctx.choose(["yes", "no"], "final") == "yes" else None
            parts = vc.cell("Parts", TEXTS)
            n, at = parts.loc.get(0), parts.loc.get(1)
            ctx.assume(n >= 0)
            a = ctx.fresh("elements", AEL)
            j = z3.Int("j")
            ctx.assume(z3.ForAll([j], z3.Select(a, j) ==
                                 EL.ES(z3.Select(at, j)),
                                 patterns=[z3.Select(at, j),
                                           z3.Select(a, j)]))
            ctx.ghost["seqs"] = {"parts": (
                at, lambda b, p: PL(b, p, a), lambda b, p: u_pl(b, p, a))}
            ctx.ghost["texts_as"] = (at, a)
            b, rest = sub_text(k, i, f)
            ctx.ghost["after"] = [b]
            self.tree = kSub(k, z3.BoolVal(i is not None),
                             EMPTY if i is None else i, n, a,
                             z3.BoolVal(f is not None),
                             EMPTY if f is None else f)
            return [SStr([k])], {
                "initial": None if i is None else SStr([i]),
                "intermediate": parts,
                "final": None if f is None else SStr([f])}, \
                rest(PL(b, n, a))
        if kind == "Not":
            x = ctx.fresh("operand", FLT)
            self.tree = kNot(x)
            return [SFlt(x)], {}, fold(["(!", PR(x), ")"])
        ops = vc.cell("Operands", FLTS)
        n, at = ops.loc.get(0), ops.loc.get(1)
        ctx.assume(n >= 2)
        a = ctx.fresh("elements", AEL)
        j = z3.Int("j")
        ctx.assume(z3.ForAll([j], z3.Select(a, j) == EL.EF(z3.Select(at, j)),
                             patterns=[z3.Select(at, j), z3.Select(a, j)]))
        ctx.ghost["seqs"] = {"operands": (
            at, lambda b, p: OL(b, p, a), lambda b, p: u_ol(b, p, a))}
        ctx.ghost["texts_as"] = (at, a)
        b = fold(["(&" if kind == "And" else "(|"])
        ctx.ghost["after"] = [b]
        self.tree = (kAnd if kind == "And" else kOr)(n, a)
        return [StarSeq(ops)], {}, fold(
            [OL(b, n, a), ")"])


# ------------------------------------------------- printing and parsing back
VALID = fn("in_language", FLT, B)
PREA = fn("list_to", AEL, I, AEL)             # the first elements of a list


def occurs(t, o):
    """what the occurrence of a text made of parts amounts to"""
    if z3.is_app(t) and t.decl().eq(cat_):
        s, u = t.arg(0), t.arg(1)
        return [at_cat(TXT, o, s, u), ln(t) == ln(s) + ln(u)] + \
            occurs(s, o) + occurs(u, z3.simplify(o + ln(s)))
    if z3.is_app(t) and t.decl().eq(one_):
        return [at_one(TXT, o, t.arg(0)), ln(t) == 1]
    return [ln(t) >= 0]


def l_word(s, o):
    """an escaped text, followed by a special character, is read back"""
    e = o + ln(esc(s))
    return z3.Implies(
        z3.And(At(TXT, o, esc(s)), e < N, special(at(e)),
               at(e) != ord("\\")), z3.And(WE(o) == e, W(o, EMPTY) == s))


def l_first(s, o):
    """it does not begin like an operator"""
    return z3.Implies(z3.And(At(TXT, o, esc(s)), ln(s) > 0), z3.And(
        *[at(o) != ord(x) for x in "&|!"]))


def filters_in(n, a):
    j = z3.Int("j")
    x = z3.Select(a, j)
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(
        EL.is_EF(x), VALID(EL.ef(x)))), patterns=[x])


def texts_in(n, a):
    j = z3.Int("j")
    x = z3.Select(a, j)
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(
        EL.is_ES(x), ln(EL.es(x)) > 0)), patterns=[x])


def u_valid(t, kind, *x):
    if kind == "Equal":
        r = z3.And(ln(x[0]) > 0, ln(x[1]) > 0)
    elif kind in ("GreaterThan", "LessThan", "Present"):
        r = ln(x[0]) > 0
    elif kind == "Substring":
        k, si, i, n, a, sf, f = x
        r = z3.And(ln(k) > 0, n >= 0, si == (ln(i) > 0), sf == (ln(f) > 0),
                   z3.Or(si, sf, n > 0), texts_in(n, a))
    elif kind == "Not":
        r = VALID(x[0])
    else:
        r = z3.And(x[0] >= 2, filters_in(*x))
    return VALID(t) == r


def lists_equal(n, a, b):
    j = z3.Int("j")
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(a, j) ==
                                     z3.Select(b, j)),
                     patterns=[z3.Select(a, j), z3.Select(b, j)])


def goal_of(t, o):
    """a printed filter is read back"""
    return z3.And(at(o) == ord("("), PE(o + 1) == o + ln(PR(t)) - 1,
                  at(PE(o + 1)) == ord(")"), PT(o + 1) == t, ln(PR(t)) >= 2)


def hyp(t, o):
    return z3.Implies(z3.And(o >= 0, VALID(t), At(TXT, o, PR(t))),
                      goal_of(t, o))


class RoundTrip(Contract):
    """What is printed is parsed back, by induction over texts, lists and
    filters."""
    synthetic = True
    q = "filter.printing and parsing"
    covers = [q]

    def lemma(self, name, hyps, goal):
        ctx = self.vc.ctx
        seen = hyps + ([goal.arg(0)] if z3.is_implies(goal) else [])
        ctx.prove(z3.BoolVal(ctx.feasible(z3.And(*seen))),
                  "C09:lemma is not empty: " + name, lemma=False)
        ctx.prove(z3.Implies(z3.And(*hyps), goal), "C09:lemma: " + name,
                  lemma=False)

    def verify(self, vc, f):
        ctx = vc.ctx
        self.vc = vc
        for f in theory():
            ctx.assume(f)
        x = z3.Const("x", STR)
        for f in (z3.ForAll([x], cat_(EMPTY, x) == x,
                            patterns=[cat_(EMPTY, x)]),
                  z3.ForAll([x], At(x, 0, x), patterns=[ln(x)])):
            ctx.assume(f)
        self.words(ctx)
        self.valid(ctx)
        self.leaves(ctx)
        self.substring(ctx)
        self.composites(ctx)
        self.whole(ctx)
        stats_cover(ctx, self.q)

    def words(self, ctx):
        s, o = ctx.fresh("s", STR), ctx.fresh("o", I)
        i = ctx.fresh("i", I)
        n = ln(s)
        E = lambda i: ESC(EMPTY, s, i)
        c = ch(s, i)
        p = o + ln(E(i))
        inside = [i >= 0, i < n, o >= 0] + u_esc(EMPTY, s, i)
        two = cat_(cat_(E(i), one_(ord("\\"))), one_(c))
        chars = z3.If(special(c), z3.And(at(p) == ord("\\"), at(p + 1) == c,
                                         p + 1 < N),
                      z3.And(at(p) == c, p < N))
        self.lemma("escaped text: what occurs as a whole occurs up to any "
                   "character", inside + [At(TXT, o, E(i + 1))] +
                   occurs(two, o) + occurs(cat_(E(i), one_(c)), o),
                   z3.And(At(TXT, o, E(i)), chars,
                          ln(E(i + 1)) == ln(E(i)) +
                          z3.If(special(c), 2, 1)))
        # by induction from the end: chars holds for every i, as does
        P = lambda i: PRE(s, i)
        U = lambda i: z3.And(WE(o) == WE(o + ln(E(i))),
                             W(o, EMPTY) == W(o + ln(E(i)), P(i)))
        pre = [P(0) == EMPTY, z3.Implies(z3.And(i >= 0, i < n), P(i + 1) ==
                                         cat_(P(i), one_(c))), P(n) == s]
        self.lemma("reading an escaped text: at its beginning",
                   u_esc(EMPTY, s, i) + pre, U(z3.IntVal(0)))
        self.lemma("reading an escaped text: one more character",
                   inside + pre + [U(i), chars, u_word(p, P(i)),
                                   ln(E(i + 1)) == ln(E(i)) +
                                   z3.If(special(c), 2, 1)], U(i + 1))
        e = o + ln(E(n))
        self.lemma("reading an escaped text: at its end",
                   pre + [o >= 0, U(n), At(TXT, o, E(n)), u_word(e, s)],
                   l_word(s, o))
        self.lemma("an escaped text does not begin like an operator",
                   pre + [i == 0, n > 0, o >= 0, chars] +
                   u_esc(EMPTY, s, i), l_first(s, o))

    def valid(self, ctx):
        """parsing yields filters of the language"""
        o, n, a = ctx.fresh("o", I), ctx.fresh("n", I), ctx.fresh("a", AEL)
        w = ctx.fresh("w", STR)
        z = z3.IntVal(0)
        WB = lambda o: z3.Implies(WE(o) >= 0, z3.And(
            WE(o) >= o, WE(o) < N, special(at(WE(o))),
            at(WE(o)) != ord("\\")))
        self.lemma("words end at special characters",
                   [u_word(o, w), WB(o + 1), WB(o + 2)], WB(o))
        M = lambda q, n, a: z3.Implies(
            z3.And(ME(q) >= 0, n >= 0, texts_in(n, a)), z3.And(
                ME(q) >= q, ME(q) < N, MN(q, n) >= n, MFs(q) ==
                (ln(MF(q)) > 0), texts_in(MN(q, n), MA(q, n, a))))
        e, v = WE(o), W(o, EMPTY)
        self.lemma("the parts of a wildcard are not empty",
                   [u_parts(o, n, a), WB(o), M(e + 1, n + 1, z3.Store(
                       a, n, EL.ES(v)))], M(o, n, a))
        P = lambda o: z3.Implies(PE(o) >= 0, z3.And(
            PE(o) >= o, PE(o) <= N, VALID(PT(o))))
        L = lambda p, n, a: z3.Implies(
            z3.And(LE(p, n) >= 0, n >= 0, filters_in(n, a)), z3.And(
                LE(p, n) >= p, LE(p, n) < N, LN(p, n) >= 2,
                filters_in(LN(p, n), LA(p, n, a))))
        e = PE(o + 1)
        self.lemma("operands are filters of the language",
                   [u_operands(o, n, a), P(o + 1), L(e + 1, n + 1, z3.Store(
                       a, n, EL.EF(PT(o + 1))))], L(o, n, a))
        k, e = W(o, EMPTY), WE(o)
        v, e1 = W(e + 1, EMPTY), WE(e + 1)
        q = e1 + 1
        kinds = [
            (kEq, "Equal", (k, v)), (kGt, "GreaterThan", (k, intval(v))),
            (kLt, "LessThan", (k, intval(v))), (kPr, "Present", (k,)),
            (kSub, "Substring", (k, ln(v) != 0, v, MN(q, z), MA(q, z, A0),
                                 MFs(q), MF(q))),
            (kNot, "Not", (PT(o + 2),))] + [
            (x, y, (LN(o + 1, z), LA(o + 1, z, A0)))
            for x, y in ((kAnd, "And"), (kOr, "Or"))]
        self.lemma("what is parsed is in the language",
                   [u_body(o), WB(o), WB(e + 1), M(q, z, A0), P(o + 2),
                    L(o + 1, z, A0), texts_in(z, A0), filters_in(z, A0)] +
                   [u_valid(K(*x), y, *x) for K, y, x in kinds], P(o))

    def leaves(self, ctx):
        o = ctx.fresh("o", I)
        k, v = ctx.fresh("k", STR), ctx.fresh("v", STR)
        n = ctx.fresh("n", I)
        o1 = o + 1
        e = o1 + ln(esc(k))

        def kind(name, t, x, text, more):
            self.lemma("%s is read back" % name, [
                PR(t) == text, u_valid(t, name, *x), u_body(o1),
                l_word(k, o1), l_first(k, o1), l_word(v, e + 1)] +
                occurs(text, o) + more, hyp(t, o))
        kind("Equal", kEq(k, v), (k, v),
             fold(["(", esc(k), "=", esc(v), ")"]), [])
        for name, K, op in (("GreaterThan", kGt, ">"), ("LessThan", kLt,
                                                        "<")):
            d = dec(n)
            kind(name, K(k, n), (k, n),
                 fold(["(", esc(k), op, esc(d), ")"]),
                 [l_word(d, e + 1), stripped(d), isint(d), intval(d) == n,
                  ln(d) > 0])
        z = z3.IntVal(0)
        kind("Present", kPr(k), (k,), fold(["(", esc(k), "=*)"]),
             [u_word(e + 1, EMPTY), u_word(e + 2, EMPTY),
              u_parts(e + 2, z, A0)])
        t = ctx.fresh("t", FLT)
        text = fold(["(!", PR(t), ")"])
        self.lemma("Not is read back", [
            PR(kNot(t)) == text, u_valid(kNot(t), "Not", t), u_body(o1),
            hyp(t, o + 2)] + occurs(text, o), hyp(kNot(t), o))

    def prefixes(self, ctx, n, a, mk):
        """a list built element by element is the list"""
        i, j = ctx.fresh("i", I), z3.Int("j")
        PA = lambda i: PREA(a, i)
        defs = lambda i: [PA(0) == A0, z3.Implies(
            z3.And(i >= 0, i < n), PA(i + 1) == z3.Store(
                PA(i), i, z3.Select(a, i)))]
        self.lemma("a list built element by element is the list",
                   defs(i) + [i >= 0, i < n, lists_equal(i, PA(i), a)],
                   lists_equal(i + 1, PA(i + 1), a))
        return defs

    def substring(self, ctx):
        o = ctx.fresh("o", I)
        k, ini, fin = [ctx.fresh(x, STR) for x in ("k", "ini", "fin")]
        n, a, i = ctx.fresh("n", I), ctx.fresh("a", AEL), ctx.fresh("i", I)
        b = ctx.fresh("b", STR)
        pl = lambda i: PL(b, i, a)
        part = EL.es(z3.Select(a, i))
        ext = cat_(cat_(pl(i), esc(part)), one_(ord("*")))
        q = lambda i: o + ln(pl(i))
        ok = [i >= 0, i < n, o >= 0] + u_pl(b, i, a)
        here = z3.And(At(TXT, q(i), esc(part)),
                      at(q(i) + ln(esc(part))) == ord("*"),
                      q(i) + ln(esc(part)) < N,
                      ln(pl(i + 1)) == ln(pl(i)) + ln(esc(part)) + 1)
        self.lemma("parts of a wildcard occur one after the other",
                   ok + [At(TXT, o, pl(i + 1))] + occurs(ext, o),
                   z3.And(At(TXT, o, pl(i)), here))
        defs = self.prefixes(ctx, n, a, None)
        z = z3.IntVal(0)
        q0 = o + ln(b)

        def U(i):
            p = q(i)
            A = PREA(a, i)
            return z3.And(ME(q0) == ME(p), MN(q0, z) == MN(p, i),
                          MA(q0, z, A0) == MA(p, i, A), MFs(q0) == MFs(p),
                          MF(q0) == MF(p))
        self.lemma("reading the parts of a wildcard: the first",
                   u_pl(b, i, a) + defs(i), U(z))
        self.lemma("reading the parts of a wildcard: one more",
                   ok + defs(i) + [
                       U(i), here, texts_in(n, a), l_word(part, q(i)),
                       z3.Select(a, i) == EL.ES(part),
                       u_parts(q(i), i, PREA(a, i))], U(i + 1))
        for si in (True, False):
            for sf in (True, False):
                I_, F_ = (ini if si else EMPTY), (fin if sf else EMPTY)
                x = (k, z3.BoolVal(si), I_, n, a, z3.BoolVal(sf), F_)
                x2 = (k, z3.BoolVal(si), I_, n, PREA(a, n),
                      z3.BoolVal(sf), F_)
                t = kSub(*x)
                first, last = sub_text(k, ini if si else None,
                                       fin if sf else None)
                body = PL(b, n, a)
                text = last(body)
                e = o + 1 + ln(esc(k))
                qn = q(n)
                self.lemma("Substring is read back", [
                    b == first, PR(t) == text, u_valid(t, "Substring", *x),
                    u_body(o + 1), l_word(k, o + 1), l_first(k, o + 1),
                    l_word(ini, e + 1), u_word(e + 1, EMPTY),
                    # the lemmas above, from the first part to the last
                    z3.Implies(At(TXT, o, body), At(TXT, o, b)),
                    z3.Implies(z3.And(At(TXT, o, body), texts_in(n, a),
                                      n >= 0, o >= 0), U(n)),
                    lists_equal(n, PREA(a, n), a),
                    z3.Implies(lists_equal(n, PREA(a, n), a), t ==
                               kSub(*x2)),
                    l_word(fin, qn), u_word(qn, EMPTY),
                    u_parts(qn, n, PREA(a, n)), PL(b, 0, a) == b,
                    z3.Implies(n == 0, body == b)] +
                    occurs(text, o) + occurs(first, o), hyp(t, o))

    def composites(self, ctx):
        o = ctx.fresh("o", I)
        n, a, i = ctx.fresh("n", I), ctx.fresh("a", AEL), ctx.fresh("i", I)
        z = z3.IntVal(0)
        x = EL.ef(z3.Select(a, i))
        b = ctx.fresh("b", STR)
        ol = lambda i: OL(b, i, a)
        p = lambda i: o + ln(ol(i))
        p0 = o + ln(b)
        ok = [i >= 0, i < n, o >= 0] + u_ol(b, i, a)
        ext = cat_(ol(i), PR(x))
        here = z3.And(At(TXT, p(i), PR(x)), ln(ol(i + 1)) == ln(ol(i)) +
                      ln(PR(x)))
        self.lemma("operands occur one after the other",
                   ok + [At(TXT, o, ol(i + 1))] + occurs(ext, o),
                   z3.And(At(TXT, o, ol(i)), here))
        defs = self.prefixes(ctx, n, a, None)

        def U(i):
            A = PREA(a, i)
            return z3.And(LE(p0, z) == LE(p(i), i), LN(p0, z) == LN(p(i), i),
                          LA(p0, z, A0) == LA(p(i), i, A))
        self.lemma("reading operands: the first", u_ol(b, i, a) + defs(i),
                   U(z))
        self.lemma("reading operands: one more", ok + defs(i) + [
            U(i), here, filters_in(n, a), hyp(x, p(i)),
            z3.Select(a, i) == EL.EF(x), ln(ol(i)) >= 0,
            u_operands(p(i), i, PREA(a, i))], U(i + 1))
        for name, K, op in (("And", kAnd, "&"), ("Or", kOr, "|")):
            t = K(n, a)
            first = fold(["(" + op])
            body = OL(b, n, a)
            text = fold([body, ")"])
            self.lemma("%s is read back" % name, [
                b == first, PR(t) == text, u_valid(t, name, n, a),
                u_body(o + 1), z3.Implies(At(TXT, o, body), At(TXT, o, b)),
                z3.Implies(z3.And(At(TXT, o, body), filters_in(n, a),
                                  n >= 0, o >= 0), U(n)),
                lists_equal(n, PREA(a, n), a),
                z3.Implies(lists_equal(n, PREA(a, n), a),
                           t == K(n, PREA(a, n))),
                u_operands(p(n), n, PREA(a, n))] +
                occurs(text, o) + occurs(first, o), hyp(t, o))

    def whole(self, ctx):
        t = ctx.fresh("t", FLT)
        self.lemma("the text of a filter is accepted and is that filter",
                   [TXT == PR(t), VALID(t), hyp(t, z3.IntVal(0))],
                   z3.And(accepted(), PT(z3.IntVal(1)) == t))


def language_units():
    ps, p = ParseStr(), Parse()
    return [Unit("filter", LangWorld, ps, ["C09"]),
            Unit("filter", LangWorld, p, ["C09"], contracts=[ps, p]),
            Unit("filter", LangWorld, ParseAll(), ["C09"], contracts=[p]),
            Unit("filter", PrintWorld, Escape(), ["C09"])] + [
        Unit("filter", PrintWorld, Print(k), ["C09"], contracts=[Escape()])
        for k in KINDS] + [
        Unit("filter", PrintWorld, RoundTrip(), ["C09"])]


def units():
    return match_units() + language_units()


_A = [
    "texts: concatenation, startswith, endswith, find, slicing by one and "
    "comparison as in units/strs.py (code points in a row)",
    "lists with equal elements are equal; property values are texts or "
    "integers"]
ASSUMES = {"C10": _A, "C09": _A + [
    "str(n) is a text of characters that are not special, without "
    "surrounding white space, which int() turns into n; which other texts "
    "int() accepts is left open (both the parser and the specification use "
    "the same int())",
    "RecursionError may come from any nested call, and only from those"]}
