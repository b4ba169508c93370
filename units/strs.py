"""Strings: a length and characters; concatenation, occurrence."""
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.interp import BuiltinMethod

STR = sort("Text")
CH = I                                     # code points
AR = z3.ArraySort(I, I)
ln = z3.Function("str_len", STR, I)
arr = z3.Function("str_chars", STR, AR)
cat_ = z3.Function("str_cat", STR, STR, STR)
one_ = z3.Function("str_one", I, STR)
At = z3.Function("str_at", STR, I, STR, B)  # (text, offset, part)
dec = z3.Function("str_decimal", I, STR)
isint = z3.Function("str_is_int", STR, B)
intval = z3.Function("str_int", STR, I)
stripped = z3.Function("str_stripped", STR, B)
EMPTY = z3.Const("str_empty", STR)
s_, t_, u_ = z3.Consts("s t u", STR)
a_, b_, c_ = z3.Ints("a b c")


def ch(s, n):
    return z3.Select(arr(s), n)


def theory():
    """what strings are"""
    f = z3.ForAll
    return [
        ln(EMPTY) == 0,
        f([s_], z3.And(ln(s_) >= 0, z3.Implies(ln(s_) == 0, s_ == EMPTY)),
          patterns=[ln(s_)]),
        f([c_], z3.And(ln(one_(c_)) == 1, ch(one_(c_), 0) == c_),
          patterns=[one_(c_)]),
        f([s_, t_], ln(cat_(s_, t_)) == ln(s_) + ln(t_),
          patterns=[cat_(s_, t_)]),
        # a part occurs in a text at an offset
        f([t_, a_, s_], z3.Implies(At(t_, a_, s_), z3.And(
            a_ >= 0, a_ + ln(s_) <= ln(t_))), patterns=[At(t_, a_, s_)])]


def at_char(t, o, s, i):
    """instance: the i:th character of a part"""
    return z3.Implies(z3.And(At(t, o, s), i >= 0, i < ln(s)),
                      ch(t, o + i) == ch(s, i))


def at_cat(t, o, s, u):
    """instance: a concatenation occurs iff its parts do, in a row"""
    return At(t, o, cat_(s, u)) == z3.And(At(t, o, s), At(t, o + ln(s), u))


def at_one(t, o, c):
    return At(t, o, one_(c)) == z3.And(o >= 0, o < ln(t), ch(t, o) == c)


class TStr(T):
    def comps(self):
        return [("", STR)]

    def enc(self, vc, v):
        v = vc.force(v)
        t = term(vc, v)
        if t is None:
            raise Unsupported("cannot encode %r as text" % (v,))
        return [t]

    def dec(self, vc, terms):
        return SStr([terms[0]])

    def fresh(self, vc, base):
        return SStr([vc.ctx.fresh(base, STR)])


def term(vc, v):
    if isinstance(v, str):
        v = SStr([v] if v else [])
    if isinstance(v, SStr):
        return v.term()
    return None


def fold(parts):
    """left-nested, adjacent literals merged: equal texts built from the same
    parts are the same term"""
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            out.extend(one_(z3.IntVal(ord(c))) for c in p)
        else:
            flat(p, out)
    if not out:
        return EMPTY
    t = out[0]
    for p in out[1:]:
        t = cat_(t, p)
    return t


def flat(t, out):
    if z3.is_app(t) and t.decl().eq(cat_):
        flat(t.arg(0), out)
        flat(t.arg(1), out)
    elif not t.eq(EMPTY):
        out.append(t)


class SStr(Sym):
    """A text: parts are terms and literals."""
    def __init__(self, parts):
        self.parts = list(parts)

    def __repr__(self):
        return "text(%s)" % ", ".join(str(p) for p in self.parts)

    def term(self):
        return fold(self.parts)

    def char(self):
        """the code point, if the text is a single character"""
        t = self.term()
        if z3.is_app(t) and t.decl().eq(one_):
            return t.arg(0)

    def sym_eq(self, vc, o):
        o = vc.force(o)
        if hasattr(o, "which"):
            o = o.which(vc)
        if not isinstance(o, (str, SStr)):
            return False
        if isinstance(o, str) and o == "":
            return mkbool(z3.simplify(ln(self.term()) == 0))
        c = self.char()
        if c is not None:
            d = z3.IntVal(ord(o)) if isinstance(o, str) and len(o) == 1 \
                else o.char() if isinstance(o, SStr) else None
            if d is not None:
                return mkbool(z3.simplify(c == d))
            if isinstance(o, str):
                return False
        return mkbool(z3.simplify(self.term() == term(vc, o)))

    def sym_is(self, vc, o):
        return self is o

    def sym_truth(self, vc):
        return vc.ctx.branch(ln(self.term()) != 0, "text not empty")

    def sym_len(self, vc):
        return mkint(z3.simplify(ln(self.term())))

    def sym_isinstance(self, vc, t):
        ts = t if isinstance(t, tuple) else (t,)
        return any(issubclass(str, x) for x in ts)

    def sym_hash(self, vc):
        pass

    def sym_str(self, vc):
        return self

    def sym_cmp(self, vc, f, o):
        o = vc.force(o)
        if isinstance(o, (str, SStr)):
            raise Unsupported("order of texts")
        raise ProgExc(TypeError("not supported between text and %r" % (o,)))

    def sym_binop(self, vc, op, o, swapped):
        import ast
        if isinstance(op, ast.Add):
            if isinstance(o, SText):
                return SText([o, self] if swapped else [self, o])
            if isinstance(o, (str, SStr)):
                x = [o] if isinstance(o, str) else o.parts
                return SStr(x + self.parts if swapped else self.parts + x)
            raise ProgExc(TypeError("can only concatenate str"))
        if isinstance(op, ast.Mod) and not swapped:
            return SText([self])
        raise Unsupported("text %s" % type(op).__name__)

    def sym_getitem(self, vc, n):
        n = vc.force(n)
        if isinstance(n, slice):
            raise Unsupported("slice of a text")
        if isinstance(n, bool) or not isinstance(n, (int, SInt)):
            raise ProgExc(TypeError("string indices must be integers"))
        x = z3.IntVal(n) if isinstance(n, int) else n.t
        t = self.term()
        if vc.ctx.branch(x < 0, "negative index"):
            x = x + ln(t)
        if not vc.ctx.branch(z3.And(x >= 0, x < ln(t)), "within the text"):
            raise ProgExc(IndexError("string index out of range"))
        return SStr([one_(ch(t, z3.simplify(x)))])

    def chars(self, vc):
        t = self.term()
        return TSeq(TChar()).dec(vc, [ln(t), arr(t)])

    def sym_iter(self, vc):
        yield ("sym", self.chars(vc))

    def sym_contains(self, vc, o):
        return vc.ctx.branch(self.m_find(vc, o).t >= 0, "occurs")

    def sym_int(self, vc):
        t = self.term()
        if vc.ctx.branch(isint(t), "spells an integer"):
            return SInt(intval(t))
        raise ProgExc(ValueError("invalid literal for int()"))

    def sym_getattr(self, vc, name):
        m = getattr(self, "m_" + name, None)
        if m is None:
            if not hasattr(str, name):
                raise ProgExc(AttributeError("str.%s" % name))
            raise Unsupported("str.%s" % name)
        return BuiltinMethod(name, self, lambda *a: m(vc, *a))

    def m_strip(self, vc):
        return SStrip(self)

    def m_startswith(self, vc, p, at=0):
        p = vc.force(p)
        if not vc.ctx.entails(num(vc, at) >= 0):
            raise Unsupported("startswith from a negative offset")
        return SBool(At(self.term(), num(vc, at), need(vc, p)))

    def m_endswith(self, vc, p, start=0):
        t, p, o = self.term(), need(vc, vc.force(p)), num(vc, start)
        if not vc.ctx.entails(o >= 0):
            raise Unsupported("endswith from a negative offset")
        return SBool(z3.And(At(t, ln(t) - ln(p), p), ln(t) - ln(p) >= o))

    def m_find(self, vc, p, start=0):
        """the first occurrence from an offset on, or -1"""
        t, p, o = self.term(), need(vc, vc.force(p)), num(vc, start)
        if not vc.ctx.entails(o >= 0):
            raise Unsupported("find from a negative offset")
        r = vc.ctx.fresh("found", I)
        k = z3.Int("q")
        vc.ctx.assume(z3.Or(r == -1, z3.And(r >= o, At(t, r, p))))
        vc.ctx.assume(z3.ForAll([k], z3.Implies(
            z3.And(At(t, k, p), k >= o), z3.And(r >= 0, k >= r)),
            patterns=[At(t, k, p)]))
        return SInt(r)

    def m_index(self, vc, p, start=0):
        r = self.m_find(vc, p, start)
        if vc.ctx.branch(r.t < 0, "not found"):
            raise ProgExc(ValueError("substring not found"))
        return r


def need(vc, p):
    t = term(vc, p)
    if t is None:
        if isinstance(p, tuple):
            raise Unsupported("tuple of texts")
        raise ProgExc(TypeError("must be str, not %r" % (p,)))
    return t


def num(vc, n):
    n = vc.force(n)
    return z3.IntVal(n) if isinstance(n, int) else n.t


class SStrip(Sym):
    """what strip makes of a text"""
    def __init__(self, s):
        self.s = s

    def sym_eq(self, vc, o):
        if isinstance(o, SStr) and o.term().eq(self.s.term()):
            return SBool(stripped(self.s.term()))
        raise Unsupported("comparing stripped text")

    def sym_len(self, vc):
        raise Unsupported("length of stripped text")

    def sym_getattr(self, vc, name):
        raise Unsupported("stripped text")


class TChar(T):
    """a character as a text of its own"""
    def comps(self):
        return [("", I)]

    def enc(self, vc, v):
        c = v.char() if isinstance(v, SStr) else ord(v) if isinstance(
            v, str) and len(v) == 1 else None
        if c is None:
            raise Unsupported("%r is no single character" % (v,))
        return [c if z3.is_expr(c) else z3.IntVal(c)]

    def dec(self, vc, terms):
        return SStr([one_(terms[0])])


def concat(vc, pieces):
    """the concatenation, if all pieces are texts"""
    out = []
    for p in pieces:
        p = vc.force(p)
        if isinstance(p, SInt):
            p = SStr([dec(p.t)])
        elif isinstance(p, int) and not isinstance(p, bool):
            p = str(p)
        if hasattr(p, "sym_str"):
            p = p.sym_str(vc)
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, SStr):
            out.extend(p.parts)
        else:
            return None
    return SStr(out)


def formatted(vc, fmt, vals):
    import re
    vals = list(vals)
    pieces = []
    pos = 0
    for m in re.finditer(r"%(.)", fmt):
        pieces.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(1) == "%":
            pieces.append("%")
        elif m.group(1) in "sd":
            pieces.append(vals.pop(0))
        else:
            return None
    pieces.append(fmt[pos:])
    return concat(vc, pieces)
