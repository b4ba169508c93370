"""pyvc interpreter: a semantics of the Python subset used by paf, over
symbolic values.  Function bodies come from the AST of /repo's current files."""
import ast
import builtins
import collections
import contextlib
import enum
import functools
import operator
import types

import z3

from .core import Unsupported, ProgExc, PathEnd, mentions
from .values import *
from . import values as V

MISSING = object()


class Env:
    """Local scope of one call."""
    def __init__(self, parent, globs, node, fname):
        self.vars = {}
        self.parent = parent          # enclosing Env for closures
        self.globs = globs
        self.node = node
        self.fname = fname
        self.nonlocals = set()
        self.globals_decl = set()
        self.locals_set = None

    def lookup(self, name):
        e = self
        if name not in self.globals_decl:
            while e is not None:
                if name in e.vars:
                    return e.vars[name]
                if e.locals_set is not None and name in e.locals_set \
                   and name not in e.nonlocals:
                    if e is self:
                        raise ProgExc(UnboundLocalError(
                            "local variable '%s' referenced before "
                            "assignment" % name))
                    raise ProgExc(NameError("free variable '%s'" % name))
                e = e.parent
        if name in self.globs:
            return self.globs[name]
        b = self.globs.get("__builtins__", builtins)
        if isinstance(b, dict):
            if name in b:
                return b[name]
        elif hasattr(b, name):
            return getattr(b, name)
        raise ProgExc(NameError("name '%s' is not defined" % name))

    def store(self, name, v):
        if name in self.globals_decl:
            raise Unsupported("assignment to a module global")
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        self.vars[name] = v


def engine_value_named(text):
    todo, names = [Sym], {"IGen", "SegAll", "Chain", "ISymIter", "SetView",
                          "Partial", "IFunc", "SBound", "Poison",
                          "CellValue"}
    while todo:
        c = todo.pop()
        names.add(c.__name__)
        todo.extend(c.__subclasses__())
    return any("'%s'" % n in text or " %s " % n in text for n in names)


class IFunc:
    """A function or lambda created by interpreted code."""
    def __init__(self, node, env, defaults, kwdefaults, name):
        self.node, self.env = node, env
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = name
        self.qualname = name


class SBound:
    """Method bound to a symbolic receiver."""
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj

    def __repr__(self):
        return "<bound %r of %r>" % (self.fn, self.obj)


class BuiltinMethod:
    def __init__(self, name, obj, fn):
        self.name, self.obj, self.fn = name, obj, fn


class IGen:
    """A running interpreted generator."""
    def __init__(self, gen, interp):
        self.gen = gen
        self.interp = interp
        self.done = False


class ICtx:
    def __init__(self, igen):
        self.igen = igen


def value_mentions(v, names):
    if isinstance(v, (tuple, list)):
        return any(value_mentions(x, names) for x in v)
    if isinstance(v, SOpt):
        return mentions(v.some, names) or value_mentions(v.val, names)
    t = getattr(v, "t", None)
    if isinstance(t, z3.ExprRef):
        return mentions(t, names)
    return False


class SegAll:
    """'all elements of this symbolic container', yielded by a generator."""
    def __init__(self, coll):
        self.coll = coll


class StarSeq(Sym):
    """*seq among the arguments of a call"""
    def __init__(self, seq):
        self.seq = seq


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SymComp(Sym):
    """[expr for x in coll if cond] over a symbolic collection."""
    def __init__(self, view, key, cond, value, kind):
        self.view, self.key, self.cond = view, key, cond
        self.value, self.kind = value, kind

    def sym_truth(self, vc):
        if self.kind == "gen":
            return True
        sel = z3.Select(self.view.dom(), self.key)
        some = z3.Or(*[c for c, v in self.value if v is not None])
        if vc.ctx.choose(["empty", "some"], "comprehension") == "some":
            w = vc.ctx.fresh("w", self.key.sort())
            vc.ctx.assume(z3.substitute(z3.And(sel, some), (self.key, w)))
            return True
        vc.ctx.assume(z3.ForAll([self.key], z3.Implies(sel, z3.Not(some)),
                                patterns=sel_patterns(sel, self.key)))
        return False


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            # not inside a nested function
            return _own_yield(node)
    return False


def _own_yield(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


_locals_cache = {}


def assigned_names(node):
    """Names assigned in a function body / statement list (own scope)."""
    key = id(node)
    if key in _locals_cache and _locals_cache[key][0] is node:
        return _locals_cache[key][1]
    out = set()
    nonl = set()
    body = node.body if hasattr(node, "body") else node
    if not isinstance(body, list):
        body = [body]
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.FunctionDef):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # walrus inside comprehensions is not used in this code base
            continue
        if isinstance(n, (ast.Nonlocal, ast.Global)):
            nonl |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        todo.extend(ast.iter_child_nodes(n))
    out -= nonl
    _locals_cache[key] = (node, out)
    return out


class VC:
    """Verification context: world description + interpreter."""

    def __init__(self, world, ctx):
        self.w = world
        self.ctx = ctx
        self.keep = []
        self.depth = 0
        self.contracts = world.active_contracts
        self.frozen = {}
        self.call_stack = []
        self.singletons = {}

    # ------------------------------------------------------------ heap
    def hget(self, name):
        h = self.ctx.heap
        if name not in h:
            so = self.w.comp_sorts.get(name)
            if so is None:
                raise Unsupported("unknown heap component %s" % name)
            # the initial value of a component: the same constant on all paths
            h[name] = z3.Const("H0." + name, so)
        return h[name]

    def hset(self, name, e):
        self.hget(name)
        if z3.is_store(e) and has_ite(e.arg(2)):
            # conditionals would make terms over this component unusable as
            # triggers
            v = self.ctx.fresh("v", e.arg(2).sort())
            self.ctx.assume(v == e.arg(2))
            e = z3.Store(e.arg(0), e.arg(1), v)
        self.ctx.heap[name] = e
        self.ctx.written.add(name)

    def havoc(self, name):
        self.hget(name)
        self.ctx.heap[name] = self.ctx.fresh("H." + name,
                                             self.w.comp_sorts[name])
        self.ctx.written.add(name)

    def get_field(self, cls, fname, ref, heap=None):
        ty = self.w.classes[cls].fields[fname]
        name = "%s.%s" % (cls, fname)
        if hasattr(ty, "dec_at"):
            return ty.dec_at(self, HeapLoc(self, name, ref, ty.comps()))
        terms = [z3.simplify(z3.Select(self.hget(name + s), ref))
                 for s, so in ty.comps()]
        return ty.dec(self, terms)

    def set_field(self, cls, fname, ref, v):
        ty = self.w.classes[cls].fields[fname]
        name = "%s.%s" % (cls, fname)
        terms = ty.enc(self, v)
        for (s, so), e in zip(ty.comps(), terms):
            self.hset(name + s, z3.Store(self.hget(name + s), ref, e))

    def cell(self, name, ty):
        """A container (or value) living in a singleton cell."""
        return ty.dec_at(self, HeapLoc(self, name, None, ty.comps()))

    def new_ref(self, cls):
        """Allocate: a reference not alive before."""
        r = self.ctx.fresh("new" + cls, sort(cls))
        a = self.hget(cls + ".alive")
        self.ctx.assume(z3.Not(z3.Select(a, r)))
        self.hset(cls + ".alive", z3.Store(a, r, z3.BoolVal(True)))
        return SRef(cls, r)

    # ------------------------------------------------------------ natives
    def freeze(self, o):
        self.ctx.escaped[id(o)] = o

    escape = freeze

    def check_native_write(self, o):
        if id(o) in self.ctx.escaped:
            raise Unsupported("mutation of an object whose value was copied "
                              "into the symbolic heap")
        if id(o) not in self.ctx.own:
            self.ctx.native_writes += 1

    def fn_term(self, ty, v):
        f = getattr(self.w, "fn_encoders", {}).get(ty.name)
        return f(self, v) if f else None

    # ------------------------------------------------------------ basics
    def force(self, v):
        while isinstance(v, SOpt):
            if self.ctx.branch(v.some, "has value"):
                v = v.val
            else:
                v = None
        return v

    def concretize_enum(self, v):
        v = self.force(v)
        if isinstance(v, SEnum):
            ms = v.ty.members
            for i, m in enumerate(ms[:-1]):
                if self.ctx.branch(v.t == i, "is %s" % m.name):
                    return m
            self.ctx.assume(v.t == len(ms) - 1)
            return ms[-1]
        return v

    def truth(self, v):
        """Python truth value; may fork."""
        if isinstance(v, SOpt):
            v = self.force(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return self.ctx.branch(v.t)
        if isinstance(v, (SInt, SReal)):
            return self.ctx.branch(v.t != 0)
        if isinstance(v, (SRef, SFn, SEnum)):
            if isinstance(v, SRef):
                pc = self.w.classes[v.cls].pycls
                if pc is not None and (hasattr(pc, "__bool__") or
                                       hasattr(pc, "__len__")):
                    m = getattr(pc, "__bool__", None) or pc.__len__
                    return self.truth(self.call(m, [v], {}))
            return True
        if isinstance(v, (Container, View)):
            n = v.length()
            if isinstance(n, int):
                return n > 0
            return self.ctx.branch(n.t > 0)
        if hasattr(v, "sym_truth"):
            return self.truth(v.sym_truth(self))
        if isinstance(v, Sym):
            raise Unsupported("truth of %r" % (v,))
        if isinstance(v, (IFunc, SBound, BuiltinMethod, IGen, Partial)):
            return True
        if self.is_paf_obj(v) and hasattr(type(v), "__len__") and \
           not isinstance(v, (tuple, list, dict, str)):
            return self.truth(self.call(type(v).__len__, [v], {}))
        return bool(v)

    def is_paf_obj(self, v):
        return getattr(type(v), "__module__", "").startswith("paf.")

    # ------------------------------------------------------------ compare
    def eq(self, a, b):
        """a == b as bool or SBool"""
        if isinstance(a, SOpt) or isinstance(b, SOpt):
            if b is None:
                return mkbool(z3.simplify(z3.Not(a.some)))
            if a is None:
                return mkbool(z3.simplify(z3.Not(b.some)))
            if isinstance(a, SOpt) and isinstance(b, SOpt) and \
               len(a.ty.comps()) == 1 and \
               type(a.val) is type(b.val) and hasattr(a.val, "t"):
                return mkbool(z3.simplify(z3.Or(
                    z3.And(z3.Not(a.some), z3.Not(b.some)),
                    z3.And(a.some, b.some, a.val.t == b.val.t))))
            return self.eq(self.force(a), self.force(b))
        if hasattr(a, "sym_eq"):
            return a.sym_eq(self, b)
        if hasattr(b, "sym_eq"):
            return b.sym_eq(self, a)
        num = (int, float, SInt, SReal)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (SInt, SReal)) or isinstance(b, (SInt, SReal)):
                if not isinstance(a, num) or not isinstance(b, num):
                    return False
                x, y = self.nums(a, b)
                return mkbool(z3.simplify(x == y))
            if isinstance(a, SBool) or isinstance(b, SBool):
                return mkbool(z3.simplify(self.boolt(a) == self.boolt(b)))
            if isinstance(a, SAtom) or isinstance(b, SAtom):
                at = a if isinstance(a, SAtom) else b
                o = b if at is a else a
                if isinstance(o, SAtom):
                    if o.ty.name != at.ty.name:
                        raise Unsupported("comparing different atoms")
                    return mkbool(z3.simplify(at.t == o.t))
                if isinstance(o, str):
                    return mkbool(at.t == at.ty.const(self, o))
                if o is None:
                    return False
                raise Unsupported("comparing atom with %r" % (o,))
            if isinstance(a, SEnum) or isinstance(b, SEnum):
                e = a if isinstance(a, SEnum) else b
                o = b if e is a else a
                if isinstance(o, SEnum):
                    return mkbool(z3.simplify(e.t == o.t))
                if o in e.ty.members:
                    return mkbool(z3.simplify(e.t == e.ty.members.index(o)))
                return False
            if isinstance(a, SRef) and isinstance(b, SRef):
                if a.cls != b.cls:
                    return False
                pc = self.w.classes[a.cls].pycls
                hook = (self.w.classes[a.cls].methods or {}).get("__eq__")
                if hook is not None:
                    return mkbool(hook(self, a, b))
                if pc is not None and pc.__eq__ is not object.__eq__:
                    raise Unsupported("__eq__ on heap class")
                return mkbool(z3.simplify(a.t == b.t))
            if isinstance(a, (SRef, SFn)) or isinstance(b, (SRef, SFn)):
                return False
            if isinstance(a, SText) or isinstance(b, SText):
                if a is None or b is None:
                    return False
                raise Unsupported("comparing opaque text")
            if isinstance(a, (Container, View)) and b is None or \
               isinstance(b, (Container, View)) and a is None:
                return False
            raise Unsupported("comparing %r and %r" % (a, b))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
           type(a) is type(b):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                e = self.eq(x, y)
                if e is False:
                    return False
                r = self.and_(r, e)
            return r
        if self.is_paf_obj(a) and type(a).__eq__ is not object.__eq__ and \
           isinstance(type(a).__eq__, types.FunctionType):
            return self.call(type(a).__eq__, [a, b], {})
        try:
            return bool(a == b)
        except Unsupported:
            raise

    def and_(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return mkbool(z3.And(self.boolt(a), self.boolt(b)))

    def boolt(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SOpt):
            return self.boolt(self.force(v))
        if isinstance(v, (int, SInt)):
            t = v.t if isinstance(v, SInt) else z3.IntVal(v)
            return t != 0
        raise Unsupported("not a boolean: %r" % (v,))

    def not_(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, SBool):
            return mkbool(z3.simplify(z3.Not(v.t)))
        return not self.truth(v)

    def nums(self, a, b):
        if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
            return as_real(a), as_real(b)
        f = lambda x: x.t if isinstance(x, SInt) else z3.IntVal(int(x))
        return f(a), f(b)

    def is_(self, a, b):
        if isinstance(a, SOpt) and b is None:
            return mkbool(z3.simplify(z3.Not(a.some)))
        if isinstance(b, SOpt) and a is None:
            return mkbool(z3.simplify(z3.Not(b.some)))
        if isinstance(a, SOpt) or isinstance(b, SOpt):
            return self.is_(self.force(a), self.force(b))
        if (a is None or b is None) and not hasattr(a, "sym_is") and \
           not hasattr(b, "sym_is"):
            return a is b
        if isinstance(a, bool) and isinstance(b, SBool) or \
           isinstance(b, bool) and isinstance(a, SBool):
            return self.eq(a, b)
        if isinstance(a, SRef) and isinstance(b, SRef):
            return mkbool(z3.simplify(a.t == b.t)) if a.cls == b.cls \
                else False
        if (isinstance(a, SRef) or isinstance(b, SRef)) and \
           not hasattr(a, "sym_is") and not hasattr(b, "sym_is"):
            return False
        if isinstance(a, SEnum) or isinstance(b, SEnum):
            return self.eq(a, b)
        if hasattr(a, "sym_is"):
            return a.sym_is(self, b)
        if hasattr(b, "sym_is"):
            return b.sym_is(self, a)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if type(a) is not type(b):
                return False
            raise Unsupported("'is' on %r and %r" % (a, b))
        return a is b

    def contains(self, k, c):
        c = self.force(c)
        if hasattr(c, "sym_contains"):
            return c.sym_contains(self, k)
        if isinstance(c, (SMap, SUSet)):
            return c.has(k)
        if isinstance(c, View):
            if c.kind == "keys":
                return c.m.has(k)
            if c.kind == "values":
                v = c.m
                vt = v.ty.vt
                kk = z3.Const("k", v.ty.ks)
                terms = vt.enc(self, k)
                return mkbool(z3.Exists([kk], z3.And(
                    z3.Select(v.dom(), kk),
                    *[z3.Select(v.loc.get(i + 1), kk) == t
                      for i, t in enumerate(terms)])))
            raise Unsupported("in items()")
        if isinstance(c, SSeq):
            vt = c.ty.vt
            terms = vt.enc(self, k)
            j = z3.Int("j")
            return mkbool(z3.Exists([j], z3.And(
                j >= 0, j < c.ln(),
                *[z3.Select(c.loc.get(i + 1), j) == t
                  for i, t in enumerate(terms)])))
        if isinstance(c, range) and isinstance(k, SInt) and c.step == 1:
            return mkbool(z3.And(k.t >= c.start, k.t < c.stop))
        if isinstance(c, str) and hasattr(k, "sym_in_str"):
            return k.sym_in_str(self, c)
        if isinstance(c, str) and isinstance(k, SText):
            return SBool(self.ctx.fresh("in", B))
        if isinstance(c, (SText, SAtom)):
            return SBool(self.ctx.fresh("in", B))
        if isinstance(c, Sym):
            raise Unsupported("'in' on %r" % (c,))
        if isinstance(c, (list, tuple, set, frozenset, dict,
                          collections.deque)) or \
           type(c).__name__ in ("dict_keys", "dict_values"):
            k = self.force(k) if isinstance(k, SOpt) else k
            if isinstance(k, Sym) or hasattr(k, "sym_eq") or any(
                    isinstance(x, Sym) for x in c):
                # hashability of symbolic JSON-like values
                if isinstance(c, (set, frozenset, dict)) and \
                   hasattr(k, "sym_hash"):
                    k.sym_hash(self)
                r = False
                for x in list(c):
                    e = self.eq(k, x)
                    if e is True:
                        return True
                    if e is not False:
                        r = e if r is False else \
                            mkbool(z3.Or(self.boolt(r), self.boolt(e)))
                return r
            return self.native(lambda: k in c)
        if isinstance(c, type) and isinstance(c, enum.EnumMeta):
            return self.native(lambda: k in c)
        if isinstance(k, Sym):
            raise Unsupported("%r in %r" % (k, c))
        if self.is_paf_obj(c) and not isinstance(c, (tuple, enum.Enum)):
            raise Unsupported("in on paf object")
        return self.native(lambda: k in c)

    def native(self, f):
        try:
            return f()
        except (Unsupported, PathEnd, ProgExc):
            raise
        except Exception as e:
            if isinstance(e, (TypeError, AttributeError)) and \
               engine_value_named(str(e)):
                raise Unsupported("native operation on a symbolic value: %s"
                                  % e)
            raise ProgExc(e)

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.not_(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return self.not_(self.contains(a, b))
        a, b = self.force(a), self.force(b)
        fs = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
              ast.GtE: operator.ge}
        f = fs[type(op)]
        if hasattr(a, "sym_cmp"):
            return a.sym_cmp(self, f, b)
        if hasattr(b, "sym_cmp"):
            swap = {operator.lt: operator.gt, operator.gt: operator.lt,
                    operator.le: operator.ge, operator.ge: operator.le}
            return b.sym_cmp(self, swap[f], a)
        if isinstance(a, Sym) or isinstance(b, Sym):
            num = (int, float, SInt, SReal)
            if isinstance(a, num) and isinstance(b, num):
                x, y = self.nums(a, b)
                return mkbool(z3.simplify(f(x, y)))
            if a is None or b is None or isinstance(a, (SAtom, str)) != \
               isinstance(b, (SAtom, str)):
                raise ProgExc(TypeError("'<' not supported between %s and %s" %
                                        (a, b)))
            raise Unsupported("ordering %r and %r" % (a, b))
        return self.native(lambda: f(a, b))

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Mod) and isinstance(a, (str, SText)):
            return self.format_percent(a, b)
        if hasattr(a, "sym_binop"):
            return a.sym_binop(self, op, b, False)
        if hasattr(b, "sym_binop"):
            return b.sym_binop(self, op, a, True)
        if isinstance(op, ast.Add) and (isinstance(a, SText) or
                                        isinstance(b, SText)):
            if isinstance(a, (str, SText)) and isinstance(b, (str, SText)):
                return SText([a, b])
            raise ProgExc(TypeError("can only concatenate str"))
        if isinstance(a, Sym) or isinstance(b, Sym):
            num = (int, float, SInt, SReal)
            if not (isinstance(a, num) and isinstance(b, num)):
                if a is None or b is None:
                    raise ProgExc(TypeError("unsupported operand type"))
                raise Unsupported("arithmetic on %r and %r" % (a, b))
            x, y = self.nums(a, b)
            isr = x.sort() == R
            if isinstance(op, ast.Add):
                r = x + y
            elif isinstance(op, ast.Sub):
                r = x - y
            elif isinstance(op, ast.Mult):
                r = x * y
            elif isinstance(op, ast.FloorDiv) and not isr and \
                    z3.is_int_value(y) and y.as_long() > 0:
                r = x / y
            elif isinstance(op, ast.Mod) and not isr and \
                    z3.is_int_value(y) and y.as_long() > 0:
                r = x % y
            elif isinstance(op, ast.Div) and z3.is_int_value(z3.simplify(y)) \
                    and z3.simplify(y).as_long() != 0:
                r = z3.ToReal(x) / z3.ToReal(y) if not isr else x / y
                isr = True
            elif isinstance(op, ast.Div) and z3.is_rational_value(
                    z3.simplify(as_real(b))):
                r = as_real(a) / as_real(b)
                isr = True
            elif isinstance(op, ast.LShift) and isinstance(b, int) and \
                    not isr:
                r = x * (1 << b)
            elif isinstance(op, ast.RShift) and isinstance(b, int) and \
                    not isr:
                r = x / (1 << b)
            elif isinstance(op, (ast.BitOr, ast.BitAnd)) and not isr:
                # (x & y), (x | y): some integer, the same for the same x, y
                r = z3.Function("bit" + type(op).__name__, I, I, I)(x, y)
            else:
                raise Unsupported("operator %s" % type(op).__name__)
            r = z3.simplify(r)
            return SReal(r) if isr else mkint(r)
        fs = {ast.Add: operator.add, ast.Sub: operator.sub,
              ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
              ast.Mod: operator.mod, ast.Div: operator.truediv,
              ast.LShift: operator.lshift, ast.RShift: operator.rshift,
              ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
              ast.BitXor: operator.xor, ast.Pow: operator.pow}
        return self.native(lambda: fs[type(op)](a, b))

    def format_percent(self, fmt, args):
        if isinstance(fmt, SText):
            return SText()
        import re
        specs = re.findall(r"%(?:\(\w+\))?[#0\- +]*(?:\d+|\*)?(?:\.\d+)?"
                           r"[hlL]?([a-zA-Z%])", fmt)
        specs = [s for s in specs if s != "%"]
        if isinstance(args, tuple):
            vals = list(args)
        else:
            vals = [args]
        vals = [self.force(v) for v in vals]
        if len(vals) != len(specs):
            if not (not isinstance(args, tuple) and
                    isinstance(args, dict) and len(specs) == 0):
                raise ProgExc(TypeError("not enough arguments for format "
                                        "string / not all converted"))
        symbolic = False
        for s, v in zip(specs, vals):
            if s in "dixXo":
                ok = isinstance(v, (int, SInt)) or (
                    s in "di" and isinstance(v, (float, SReal)))
                if hasattr(v, "sym_isinstance"):
                    ok = self.truth(v.sym_isinstance(
                        self, (int, float) if s in "di" else int))
                    if ok and s in "di" and not self.truth(
                            v.sym_isinstance(self, int)):
                        # %d of inf/nan
                        v.sym_to_int(self)
                if not ok:
                    raise ProgExc(TypeError("%%%s format: a number is "
                                            "required, not %r" % (s, v)))
            elif s in "feEgG":
                ok = isinstance(v, (int, SInt, float, SReal))
                if hasattr(v, "sym_isinstance"):
                    ok = self.truth(v.sym_isinstance(self, (int, float)))
                if not ok:
                    raise ProgExc(TypeError("must be real number"))
            elif s in "sr":
                pass
            else:
                raise Unsupported("format %%%s" % s)
            if isinstance(v, Sym) or hasattr(v, "sym_eq") or \
               self.is_paf_obj(v) and not isinstance(v, enum.Enum) or \
               self.has_sym(v):
                symbolic = True
        if symbolic:
            return self.w.format_hook(self, fmt, specs, vals)
        return self.native(lambda: fmt % (tuple(vals) if isinstance(
            args, tuple) else vals[0]))

    def has_sym(self, v, depth=0):
        if isinstance(v, (Sym, IFunc, SBound)):
            return True
        if isinstance(v, ProgExc):
            return True
        if isinstance(v, BaseException):
            return any(self.has_sym(x) for x in v.args)
        if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
            return any(self.has_sym(x) for x in v)
        if isinstance(v, dict):
            return any(self.has_sym(x) for x in v.values()) or \
                any(self.has_sym(x) for x in v.keys())
        if self.is_paf_obj(v) and hasattr(v, "__dict__") and \
           not isinstance(v, (enum.Enum, type)) and depth < 4:
            return any(self.has_sym(x, depth + 1)
                       for x in vars(v).values() if x is not v)
        return False

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=MISSING):
        o = self.force(o)
        if isinstance(o, SRef):
            d = self.w.classes[o.cls]
            if name in d.fields:
                key = (o.cls, o.t.get_id())
                if key in self.ctx.initialised and \
                   name not in self.ctx.initialised[key]:
                    if default is not MISSING:
                        return default
                    raise ProgExc(AttributeError("%s not set" % name))
                return self.get_field(o.cls, name, o.t)
            if name == "__dict__":
                raise Unsupported("__dict__ of heap object")
            if name == "__class__" and d.pycls:
                return d.pycls
            if d.pycls is not None:
                for k in d.pycls.__mro__:
                    if name in k.__dict__:
                        return self.bind(k.__dict__[name], o, d.pycls)
            if d.methods and name in d.methods:
                m = d.methods[name]
                return BuiltinMethod(name, o, functools.partial(m, self, o))
            dyn = self.ctx.ghost.get("dyn:%s" % o.cls, {})
            if (o.t.get_id(), name) in dyn:
                raise Unsupported("undeclared attribute %s read" % name)
            if d.pycls is not None and name in self.w.index.attrs(d.pycls):
                raise Unsupported("attribute %s of %s is not part of the "
                                  "specification" % (name, o.cls))
            if default is not MISSING:
                return default
            raise ProgExc(AttributeError("'%s' object has no attribute '%s'" %
                                         (o.cls, name)))
        if isinstance(o, SuperProxy):
            obj = o.obj
            cls = self.pyclass(obj)
            mro = cls.__mro__
            for k in mro[mro.index(o.cls) + 1:]:
                if name in k.__dict__:
                    return self.bind(k.__dict__[name], obj, cls)
            raise ProgExc(AttributeError(name))
        if hasattr(o, "sym_getattr"):
            return o.sym_getattr(self, name)
        if isinstance(o, (Container, View)):
            return self.container_attr(o, name)
        if isinstance(o, SEnum):
            if name == "name":
                return SText()
            o = self.concretize_enum(o)
        if isinstance(o, (SText, SAtom)):
            return self.text_attr(o, name)
        if isinstance(o, (SInt, SReal, SBool, SFn, SRef)):
            raise ProgExc(AttributeError("%r has no attribute %s" % (o, name)))
        if isinstance(o, Sym):
            raise Unsupported("attribute %s of %r" % (name, o))
        if isinstance(o, (IFunc,)):
            if name == "__name__":
                return o.__name__
            raise Unsupported("attribute of function")
        if isinstance(o, (dict, list, set, tuple, collections.deque, str,
                          bytes)) and not self.is_paf_obj(o):
            if hasattr(o, name):
                return BuiltinMethod(name, o, None)
            if default is not MISSING:
                return default
            raise ProgExc(AttributeError(name))
        if isinstance(o, IGen):
            raise Unsupported("generator attribute")
        # native object or class
        if isinstance(o, type):
            try:
                v = getattr(o, name)
            except AttributeError as e:
                if default is not MISSING:
                    return default
                raise ProgExc(e)
            return v
        if isinstance(o, types.ModuleType) and \
           (o.__name__, name) in self.w.module_attrs:
            return self.w.module_attrs[(o.__name__, name)]
        d = getattr(o, "__dict__", None)
        if d is not None and name in d:
            return d[name]
        for k in type(o).__mro__:
            if name in k.__dict__:
                return self.bind(k.__dict__[name], o, type(o))
        if type(o) in self.w.native_fields and \
           name in self.w.index.attrs(type(o)) and not hasattr(o, name) and \
           set(self.w.native_fields[type(o)]) <= set(o.__dict__):
            raise Unsupported("attribute %s of %s is not part of the "
                              "specification" % (name, type(o).__name__))
        try:
            return getattr(o, name)
        except AttributeError as e:
            if default is not MISSING:
                return default
            raise ProgExc(e)

    def pyclass(self, o):
        if isinstance(o, SRef):
            return self.w.classes[o.cls].pycls
        return type(o)

    def bind(self, v, o, cls):
        if isinstance(v, types.FunctionType):
            return SBound(v, o)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return SBound(v.__func__, cls)
        if isinstance(v, property):
            return self.call(v.fget, [o], {})
        if isinstance(o, SRef):
            if isinstance(v, (types.WrapperDescriptorType,
                              types.MethodDescriptorType)):
                raise Unsupported("slot method on heap object")
            return v
        if hasattr(v, "__get__"):
            return v.__get__(o, cls)
        return v

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, SRef):
            d = self.w.classes[o.cls]
            if name in d.fields:
                key = (o.cls, o.t.get_id())
                if key in self.ctx.initialised:
                    self.ctx.initialised[key].add(name)
                self.set_field(o.cls, name, o.t, v)
                return
            # an attribute no contract mentions: remember only that it exists
            g = dict(self.ctx.ghost.get("dyn:%s" % o.cls, {}))
            g[(o.t.get_id(), name)] = True
            self.ctx.ghost["dyn:%s" % o.cls] = g
            return
        if hasattr(o, "sym_setattr"):
            return o.sym_setattr(self, name, v)
        if isinstance(o, Sym) or o is None:
            raise ProgExc(AttributeError("cannot set %s on %r" % (name, o)))
        if isinstance(o, (type, types.ModuleType)):
            raise Unsupported("assignment to class or module attribute")
        fields = self.w.native_fields.get(type(o), {})
        if name not in fields or \
           getattr(o.__dict__.get(name), "cell_name", None) != \
           fields[name][1]:
            self.check_native_write(o)
        if name in fields:
            ty, cellname = fields[name]
            terms = ty.enc(self, v)
            for (s, so), e in zip(ty.comps(), terms):
                self.hset(cellname + s, e)
            if hasattr(ty, "dec_at"):
                o.__dict__[name] = self.cell(cellname, ty)
            else:
                o.__dict__[name] = CellValue(cellname, ty)
            return
        self.native(lambda: object.__setattr__(o, name, v))

    def container_attr(self, o, name):
        m = getattr(o, name, None)
        ok = {SMap: ("get", "pop", "setdefault", "clear", "values", "keys",
                     "items", "copy"),
              SUSet: ("add", "remove", "discard", "append", "clear", "copy"),
              SSeq: ("append", "popleft", "pop", "insert", "appendleft",
                     "remove", "clear"),
              EnumDictView: ("values", "items", "keys", "get"),
              View: ()}
        for k, names in ok.items():
            if isinstance(o, k) and name in names:
                return BuiltinMethod(name, o, m)
        if isinstance(o, SUSet) and name == "append" and not o.ty.pylist:
            raise ProgExc(AttributeError(name))
        raise Unsupported("method %s of %r" % (name, o))

    def text_attr(self, o, name):
        if name in ("startswith", "endswith", "isdigit"):
            return BuiltinMethod(name, o, lambda *a: SBool(
                self.ctx.fresh("strpred", B)))
        if name in ("lower", "upper", "strip", "replace", "join", "encode",
                    "format"):
            return BuiltinMethod(name, o, lambda *a, **k: SText())
        raise Unsupported("method %s of opaque text" % name)

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, i):
        o = self.force(o)
        if isinstance(o, CellValue):
            raise Unsupported("cell value")
        if hasattr(o, "sym_getitem"):
            return o.sym_getitem(self, i)
        if isinstance(o, (SMap, SSeq, EnumDictView)):
            return o.getitem(i)
        if isinstance(o, View) and o.is_snapshot:
            return self.w.view_item(self, o, i)
        if isinstance(o, SUSet) and o.ty.pylist:
            raise Unsupported("index into unordered list model")
        if isinstance(o, (SText,)):
            return SText()
        if isinstance(o, SBound) and isinstance(o.obj, tuple):
            pass
        if isinstance(o, (SymComp, CompMix, SymRange, SEnumerate, View)):
            raise Unsupported("subscript of %r" % (o,))
        if isinstance(o, Sym):
            raise ProgExc(TypeError("%r is not subscriptable" % (o,)))
        i = self.force(i)
        if isinstance(i, SEnum):
            i = self.concretize_enum(i)
        if isinstance(i, slice):
            if self.has_sym((i.start, i.stop, i.step)):
                raise Unsupported("symbolic slice")
            return self.native(lambda: o[i])
        if isinstance(i, Sym) or hasattr(i, "sym_eq"):
            if isinstance(o, dict):
                for k in o:
                    if self.truth(self.eq(i, k)):
                        return o[k]
                raise ProgExc(KeyError("symbolic key"))
            if isinstance(o, (list, tuple, collections.deque)):
                n = len(o)
                for k in range(-n, n):
                    if self.truth(self.eq(i, k)):
                        return o[k]
                raise ProgExc(IndexError("index out of range"))
            raise Unsupported("symbolic subscript of %r" % (type(o),))
        if self.is_paf_obj(o) and isinstance(
                getattr(type(o), "__getitem__", None), types.FunctionType):
            return self.call(type(o).__getitem__, [o, i], {})
        return self.native(lambda: o[i])

    def setitem(self, o, i, v):
        o = self.force(o)
        if hasattr(o, "sym_setitem"):
            return o.sym_setitem(self, i, v)
        if isinstance(o, (SMap, EnumDictView)):
            return o.setitem(i, v)
        if isinstance(o, Sym):
            raise Unsupported("item assignment to %r" % (o,))
        i = self.force(i)
        if isinstance(i, SEnum):
            i = self.concretize_enum(i)
        if isinstance(i, Sym) or hasattr(i, "sym_eq"):
            if isinstance(o, dict):
                for k in list(o):
                    if self.truth(self.eq(i, k)):
                        self.check_native_write(o)
                        o[k] = v
                        return
            raise Unsupported("symbolic key stored in a native container")
        self.check_native_write(o)
        self.native(lambda: o.__setitem__(i, v))

    def delitem(self, o, i):
        o = self.force(o)
        if hasattr(o, "sym_delitem"):
            return o.sym_delitem(self, i)
        if isinstance(o, SMap):
            return o.delitem(i)
        if isinstance(o, Sym):
            raise Unsupported("del item of %r" % (o,))
        i = self.force(i)
        if isinstance(i, Sym):
            raise Unsupported("symbolic del key on a native container")
        self.check_native_write(o)
        self.native(lambda: o.__delitem__(i))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.force(f)
        if isinstance(f, SBound):
            return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kw)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k)
        if isinstance(f, functools.partial):
            k = dict(f.keywords)
            k.update(kw)
            return self.call(f.func, list(f.args) + list(args), k)
        if isinstance(f, SFn):
            return f.ty.call(self, f, list(args), kw)
        if isinstance(f, BuiltinMethod):
            return self.call_builtin_method(f, args, kw)
        if isinstance(f, IFunc):
            return self.call_ifunc(f, args, kw)
        if isinstance(f, types.FunctionType):
            return self.call_function(f, list(args), kw)
        if isinstance(f, type):
            return self.construct(f, list(args), kw)
        if hasattr(f, "sym_call"):
            return f.sym_call(self, args, kw)
        h = self.w.intercepts.get(f) if self._hashable(f) else None
        if h is not None:
            return h(self, *args, **kw)
        h = BUILTINS.get(f) if self._hashable(f) else None
        if h is not None:
            return h(self, *args, **kw)
        if isinstance(f, Sym) or f is None:
            raise ProgExc(TypeError("%r is not callable" % (f,)))
        if self.is_paf_obj(f) and hasattr(type(f), "__call__"):
            return self.call(type(f).__call__, [f] + list(args), kw)
        # exception base-class constructors and the like
        if isinstance(f, types.WrapperDescriptorType) and \
           f.__name__ == "__init__":
            if args and isinstance(args[0], BaseException):
                a = args[0]
                a.args = tuple(args[1:])
                return None
            if f is object.__init__:
                return None
        if self.has_sym(args) or self.has_sym(kw):
            raise Unsupported("native call %r with symbolic arguments" % (f,))
        if getattr(self.w, "native_ok", None) is not None and \
           not self.w.native_ok(f):
            raise Unsupported("native call of %r" % (f,))
        return self.native(lambda: f(*args, **kw))

    def _hashable(self, f):
        try:
            hash(f)
            return True
        except BaseException:
            return False

    def call_builtin_method(self, f, args, kw):
        o = f.obj
        if f.fn is not None:
            if f.name == "remove" and isinstance(o, SSeq):
                return self.w.seq_remove(self, o, *args)
            return f.fn(*args, **kw)
        name = f.name
        if isinstance(o, str):
            if name == "join":
                parts = args[0]
                if isinstance(parts, SymComp):
                    return self.w.join_comp(self, o, parts)
                if isinstance(parts, (View, Container)):
                    return SText()
                if isinstance(parts, IGen):
                    parts = list(self.drain(parts))
                if self.has_sym(parts):
                    for p in parts:
                        if not (isinstance(p, (str, SText, SAtom)) or
                                hasattr(p, "sym_eq")):
                            raise ProgExc(TypeError("join: str expected"))
                    return self.w.joined_hook(self, [
                        y for p in parts for y in (o, p)][1:])
                return self.native(lambda: o.join(parts))
            if name in ("format",) and (self.has_sym(args) or
                                        self.has_sym(kw)):
                return self.format_pieces(o, args, kw)
            if name in ("startswith", "endswith") and self.has_sym(args):
                return SBool(self.ctx.fresh("strpred", B))
        mutators = {"append", "extend", "insert", "pop", "remove", "clear",
                    "update", "add", "discard", "popleft", "appendleft",
                    "setdefault", "popitem", "sort", "reverse"}
        if name in mutators:
            self.check_native_write(o)
        if isinstance(o, dict) and name in ("get", "pop", "setdefault") and \
           args:
            k = self.force(args[0])
            if isinstance(k, SEnum):
                k = self.concretize_enum(k)
            if isinstance(k, Sym) or hasattr(k, "sym_eq"):
                if hasattr(k, "sym_hash"):
                    k.sym_hash(self)
                for x in list(o):
                    if self.truth(self.eq(k, x)):
                        if name == "pop":
                            return o.pop(x)
                        return o[x]
                if name == "get":
                    return args[1] if len(args) > 1 else None
                raise Unsupported("symbolic key")
            return self.native(lambda: getattr(o, name)(k, *args[1:], **kw))
        if isinstance(o, (list, collections.deque)) and \
           name in ("remove", "index", "count") and \
           (self.has_sym(o) or self.has_sym(args)):
            for idx, x in enumerate(list(o)):
                if self.truth(self.eq(x, args[0])):
                    if name == "remove":
                        del o[idx]
                        return None
                    if name == "index":
                        return idx
                    raise Unsupported("count")
            raise ProgExc(ValueError("not in list"))
        if isinstance(o, set) and name in ("add",) and self.has_sym(args):
            raise Unsupported("symbolic element added to a native set")
        if isinstance(o, list) and name == "sort" and self.has_sym(o):
            raise Unsupported("sort of symbolic list")
        if isinstance(o, list) and name == "extend":
            (x,) = args
            if isinstance(x, (Sym, IGen)):
                x = list(self.iterate_concrete(x))
            o.extend(x)
            return None
        if isinstance(o, (dict,)) and name == "update" and \
           self.has_sym(args):
            (x,) = args
            if isinstance(x, dict):
                o.update(x)
                o.update(kw)
                return None
            raise Unsupported("update with %r" % (x,))
        if isinstance(o, str) and self.has_sym(args):
            raise Unsupported("str.%s with symbolic arguments" % name)
        return self.native(lambda: getattr(o, name)(*args, **kw))

    def construct(self, cls, args, kw):
        h = self.w.intercepts.get(cls)
        if h is not None:
            return h(self, *args, **kw)
        h = BUILTINS.get(cls)
        if h is not None:
            return h(self, *args, **kw)
        hc = self.w.heap_class_of(cls)
        if hc is not None:
            r = self.new_ref(hc)
            self.ctx.initialised[(hc, r.t.get_id())] = set()
            self.keep.append(r.t)
            init = cls.__init__
            if isinstance(init, types.FunctionType):
                self.call(init, [r] + args, kw)
            elif args or kw:
                raise ProgExc(TypeError("constructor takes no arguments"))
            return r
        if isinstance(cls, enum.EnumMeta):
            if self.has_sym(args):
                raise Unsupported("enum lookup by symbolic value")
            return self.native(lambda: cls(*args, **kw))
        if issubclass(cls, BaseException):
            init = cls.__init__
            if isinstance(init, types.FunctionType):
                o = self.ctx.created(cls.__new__(cls))
                self.call(init, [o] + args, kw)
                return o
            if issubclass(cls, OSError):
                return self.native(lambda: cls(*[
                    a if not isinstance(a, Sym) else "text" for a in args]))
            o = cls.__new__(cls)
            o.args = tuple(args)
            return o
        if getattr(cls, "__module__", "").startswith("paf.") and \
           not issubclass(cls, tuple):
            o = self.ctx.created(cls.__new__(cls))
            init = cls.__init__
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + args, kw)
            elif args or kw:
                raise ProgExc(TypeError("constructor takes no arguments"))
            return o
        if issubclass(cls, tuple):
            if cls is tuple:
                if args and isinstance(self.force(args[0]), SSeq):
                    return b_list(self, args[0])
                return tuple(self.iterate_concrete(args[0])) if args else ()
            # namedtuple
            return self.native(lambda: cls(*args, **kw))
        if self.has_sym(args) or self.has_sym(kw):
            raise Unsupported("constructor %r with symbolic arguments" % cls)
        return self.native(lambda: cls(*args, **kw))

    def qualname(self, f):
        m = f.__module__
        if m.startswith("paf."):
            return "%s.%s" % (m[4:], f.__qualname__)
        return "%s.%s" % (m, f.__qualname__)

    def call_function(self, f, args, kw):
        q = self.qualname(f)
        c = self.contracts.get(q)
        if c is not None:
            return c(self, f, args, kw)
        h = self.w.intercepts.get(f)
        if h is not None:
            return h(self, *args, **kw)
        node = self.w.index.find(f.__code__)
        if node is None:
            w = getattr(f, "__wrapped__", None)
            if w is not None and "contextlib" in f.__code__.co_filename:
                g = self.call_function(w, args, kw)
                return ICtx(g)
            if f.__module__.startswith("paf."):
                raise Unsupported("source of %s not found" % q)
            if self.has_sym(args) or self.has_sym(kw):
                raise Unsupported("library function %s with symbolic "
                                  "arguments" % q)
            if getattr(self.w, "native_ok", None) is not None and \
               not self.w.native_ok(f):
                raise Unsupported("native call of %r" % (f,))
            return self.native(lambda: f(*args, **kw))
        env = None
        if f.__closure__:
            env = Env(None, f.__globals__, node, q)
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                env.vars[n] = c.cell_contents
        kwd = f.__kwdefaults__ or {}
        self.w.note_function(q)
        return self.invoke(node, env, f.__globals__, f.__defaults__ or (),
                           kwd, args, kw, q)

    def call_ifunc(self, f, args, kw):
        return self.invoke(f.node, f.env, f.env.globs, f.defaults,
                           f.kwdefaults, list(args), kw, f.qualname)

    def invoke(self, node, parent, globs, defaults, kwdefaults, args, kw, q):
        env = Env(parent, globs, node, q)
        self.bind_args(node, env, list(defaults), kwdefaults, args, dict(kw),
                       q)
        if isinstance(node, ast.Lambda):
            self.depth += 1
            try:
                return self.eval(node.body, env)
            finally:
                self.depth -= 1
        env.locals_set = assigned_names(node) | set(env.vars)
        if has_yield(node):
            return IGen(self.exec_block(node.body, env), self)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion too deep (needs a contract): %s" % q)
        self.call_stack.append(q)
        try:
            sig = drive(self.exec_block(node.body, env))
        finally:
            self.depth -= 1
            self.call_stack.pop()
        if sig is not None and sig[0] == "return":
            return sig[1]
        return None

    def bind_args(self, node, env, defaults, kwdefaults, args, kw, q):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        n = len(names)
        if any(isinstance(x, StarSeq) for x in args[:n]):
            raise Unsupported("* of a symbolic sequence as parameters")
        if len(args) > n and a.vararg is None:
            raise ProgExc(TypeError("%s() takes %d positional arguments but "
                                    "%d were given" % (q, n, len(args))))
        for i, v in enumerate(args[:n]):
            env.vars[names[i]] = v
        if a.vararg is not None:
            rest = args[n:]
            if len(rest) == 1 and isinstance(rest[0], StarSeq):
                rest = b_list(self, rest[0].seq)
            elif any(isinstance(x, StarSeq) for x in rest):
                raise Unsupported("* of a symbolic sequence and more")
            else:
                rest = tuple(rest)
            env.vars[a.vararg.arg] = rest
        elif any(isinstance(x, StarSeq) for x in args):
            raise Unsupported("* of a symbolic sequence as parameters")
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in env.vars:
                    raise ProgExc(TypeError("%s() got multiple values for "
                                            "argument '%s'" % (q, k)))
                env.vars[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise ProgExc(TypeError("%s() got an unexpected keyword "
                                        "argument '%s'" % (q, k)))
        if a.kwarg is not None:
            env.vars[a.kwarg.arg] = extra
        nd = len(defaults)
        for i, nm in enumerate(names):
            if nm not in env.vars:
                j = i - (n - nd)
                if j >= 0:
                    env.vars[nm] = defaults[j]
                else:
                    raise ProgExc(TypeError("%s() missing required argument "
                                            "'%s'" % (q, nm)))
        for nm in kwonly:
            if nm not in env.vars:
                if nm in kwdefaults:
                    env.vars[nm] = kwdefaults[nm]
                else:
                    raise ProgExc(TypeError("%s() missing keyword argument "
                                            "'%s'" % (q, nm)))

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        v = env.lookup(e.id)
        return v

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        v = self.getattr(o, e.attr)
        if isinstance(v, CellValue):
            return v.read(self)
        return v

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        i = self.eval(e.slice, env)
        return self.getitem(o, i)

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.ctx.created(list(self.elts(e.elts, env)))

    def e_Set(self, e, env):
        v = self.elts(e.elts, env)
        if self.has_sym(v):
            raise Unsupported("set display with symbolic elements")
        return self.native(lambda: set(v))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate_concrete(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env))
                continue
            kk = self.force(self.eval(k, env))
            if isinstance(kk, Sym):
                raise Unsupported("dict display with symbolic key")
            d[kk] = self.eval(v, env)
        return self.ctx.created(d)

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env),
                          self.eval(e.right, env))

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return self.not_(v)
        v = self.force(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, SInt):
                return mkint(z3.simplify(-v.t))
            if isinstance(v, SReal):
                return SReal(-v.t)
            return self.native(lambda: -v)
        if isinstance(v, Sym):
            raise Unsupported("unary operator")
        return self.native(lambda: {ast.UAdd: operator.pos,
                                    ast.Invert: operator.inv}[type(e.op)](v))

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return False if isinstance(v, SBool) else v
            if not is_and and t:
                return True if isinstance(v, SBool) else v
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return c if res is True else self.and_(res, c)
            if not self.truth(c):
                return False
            left = right
        return res

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env)):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        env.store(e.target.id, v)
        return v

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env, "<lambda>")

    def mkfunc(self, node, env, name):
        defaults = [self.eval(d, env) for d in node.args.defaults]
        kwd = {a.arg: self.eval(d, env) for a, d in
               zip(node.args.kwonlyargs, node.args.kw_defaults)
               if d is not None}
        f = IFunc(node, env, defaults, kwd, name)
        f.qualname = "%s.<locals>.%s" % (env.fname, name)
        return f

    def e_JoinedStr(self, e, env):
        parts = []
        pieces = []
        symbolic = False
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
                pieces.append(str(v.value))
                continue
            x = self.force(self.eval(v.value, env))
            spec = ""
            if v.format_spec is not None:
                spec = self.eval(v.format_spec, env)
            if isinstance(x, Sym) or self.has_sym(x) or \
               isinstance(spec, Sym) or hasattr(x, "sym_eq") or \
               (self.is_paf_obj(x) and not isinstance(x, enum.Enum)):
                if spec and isinstance(spec, str) and spec[-1] in "dxXo" and \
                   not isinstance(x, (SInt, int)):
                    raise ProgExc(TypeError("format code"))
                symbolic = True
                if v.conversion == 114 and not isinstance(x, (SInt, int)):
                    x = SText([x])
                pieces.append(x)
            else:
                parts.append(self.native(lambda: format(x, spec)))
                pieces.append(parts[-1])
        if symbolic:
            return self.w.joined_hook(self, pieces)
        return "".join(parts)

    def e_FormattedValue(self, e, env):
        return SText()

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_Call(self, e, env):
        # super() needs the environment
        if isinstance(e.func, ast.Name) and e.func.id == "super" and \
           not e.args:
            first = e_first_arg(env)
            return SuperProxy(self.class_of_env(env), first)
        f = self.eval(e.func, env)
        if (f is any or f is all or f is next) and e.args and \
           isinstance(e.args[0], ast.GeneratorExp) and not e.keywords:
            return self.gen_search(f, e, env)
        if isinstance(f, BuiltinMethod) and f.name == "join" and \
           f.obj == "" and len(e.args) == 1 and not e.keywords and \
           isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and \
           self.w.joins_in_loops:
            return self.gen_join(e, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                for seg in self.segments(self.eval(a.value, env)):
                    if seg[0] == "elem":
                        args.append(seg[1])
                    elif isinstance(seg[1], SSeq):
                        args.append(StarSeq(seg[1]))
                    else:
                        raise Unsupported("* with %r" % (seg[1],))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.eval(k.value, env))
                if not isinstance(d, dict):
                    raise Unsupported("** with %r" % (d,))
                kw.update(d)
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def gen_search(self, f, e, env):
        """any/all/next over a generator expression: the loop it abbreviates"""
        g = e.args[0]
        kind = f.__name__
        key = ("gensearch", id(e))
        memo = self.w.__dict__.setdefault("gen_memo", {})
        if key not in memo:
            if kind == "next":
                body = [ast.Return(value=g.elt)]
            else:
                test = g.elt if kind == "any" else \
                    ast.UnaryOp(op=ast.Not(), operand=g.elt)
                body = [ast.If(test=test, orelse=[], body=[ast.Return(
                    value=ast.Constant(value=kind == "any"))])]
            for n, c in enumerate(reversed(g.generators)):
                for t in reversed(c.ifs):
                    body = [ast.If(test=t, body=body, orelse=[])]
                it = c.iter if n < len(g.generators) - 1 else \
                    ast.Name(id=" it", ctx=ast.Load())
                st = ast.For(target=c.target, iter=it, body=body, orelse=[])
                st.pure = True
                body = [st]
            for b in body:
                ast.copy_location(b, e)
                ast.fix_missing_locations(b)
            memo[key] = (e, body)
        body = memo[key][1]
        env2 = Env(env, env.globs, None, env.fname)
        env2.vars[" it"] = self.eval(g.generators[0].iter, env)
        dflt = [self.eval(a, env) for a in e.args[1:]]
        sig = drive(self.exec_block(body, env2))
        if sig is not None:
            return sig[1]
        if kind != "next":
            return kind == "all"
        if dflt:
            return dflt[0]
        raise ProgExc(StopIteration())

    def format_pieces(self, fmt, args, kw):
        import string
        pieces, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    pieces.append(lit)
                if field is None:
                    continue
                if spec or conv not in (None, "s"):
                    return SText(list(args) + list(kw.values()))
                if field == "":
                    v, auto = args[auto], auto + 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field.isidentifier():
                    v = kw[field]
                else:
                    return SText(list(args) + list(kw.values()))
                pieces.append(self.call(str, [v], {}))
        except (ValueError, IndexError, KeyError) as e:
            raise ProgExc(e)
        return self.w.joined_hook(self, pieces)

    def gen_join(self, e, env):
        """"".join(... for ...): the loop it abbreviates"""
        g = e.args[0]
        memo = self.w.__dict__.setdefault("gen_memo", {})
        key = ("genjoin", id(e))
        if key not in memo:
            body = [ast.AugAssign(
                target=ast.Name(id=" text", ctx=ast.Store()), op=ast.Add(),
                value=g.elt)]
            for n, c in enumerate(reversed(g.generators)):
                for t in reversed(c.ifs):
                    body = [ast.If(test=t, body=body, orelse=[])]
                it = c.iter if n < len(g.generators) - 1 else \
                    ast.Name(id=" it", ctx=ast.Load())
                body = [ast.For(target=c.target, iter=it, body=body,
                                orelse=[])]
            for b in body:
                ast.copy_location(b, e)
                ast.fix_missing_locations(b)
            memo[key] = (e, body)
        body = memo[key][1]
        env2 = Env(env, env.globs, None, env.fname)
        env2.vars[" it"] = self.eval(g.generators[0].iter, env)
        env2.vars[" text"] = ""
        sig = drive(self.exec_block(body, env2))
        if sig is not None:
            raise Unsupported("%r in a generator" % (sig,))
        return env2.vars[" text"]

    def class_of_env(self, env):
        # find the class whose body contains the function node
        for m in self.w.index.modules.values():
            for c in vars(m).values():
                if isinstance(c, type):
                    for x in vars(c).values():
                        if isinstance(x, types.FunctionType) and \
                           self.w.index.find(x.__code__) is env.node:
                            return c
        raise Unsupported("super()")

    def e_ListComp(self, e, env):
        return self.comp(e, env, "list")

    def e_SetComp(self, e, env):
        v = self.comp(e, env, "set")
        if isinstance(v, SymComp):
            return v
        if self.has_sym(v):
            raise Unsupported("set of symbolic elements")
        return self.native(lambda: set(v))

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, "gen")

    def e_DictComp(self, e, env):
        pairs = self.comp(e, env, "dict")
        if isinstance(pairs, SymComp):
            raise Unsupported("symbolic dict comprehension")
        d = {}
        for k, v in pairs:
            k = self.force(k)
            if isinstance(k, Sym):
                raise Unsupported("dict comprehension with symbolic key")
            d[k] = v
        return d

    def comp(self, e, env, kind):
        def elt(env2):
            if kind == "dict":
                return (self.eval(e.key, env2), self.eval(e.value, env2))
            return self.eval(e.elt, env2)

        out = []

        def rec(gens, env2):
            if not gens:
                out.append(elt(env2))
                return None
            g = gens[0]
            it = self.eval(g.iter, env2)
            it = self.force(it)
            for seg in self.segments(it):
                if seg[0] == "elem":
                    env3 = Env(env2, env2.globs, None, env2.fname)
                    self.assign(g.target, seg[1], env3)
                    if all(self.truth(self.eval(c, env3)) for c in g.ifs):
                        rec(gens[1:], env3)
                else:
                    if len(e.generators) != 1 or kind == "dict":
                        raise Unsupported("nested symbolic comprehension")
                    out.append(self.sym_comp(e, g, seg[1], env2, kind, elt))
                    symbolic.append(out[-1])
            return None
        symbolic = []
        rec(e.generators, env)
        if symbolic and len(out) == 1:
            return out[0]
        if symbolic:
            return CompMix(out)
        return out

    def sym_comp(self, e, g, coll, env, kind, elt):
        view = self.as_view(coll)

        def fn(x):
            env3 = Env(env, env.globs, None, env.fname)
            self.assign(g.target, x, env3)
            for c in g.ifs:
                if not self.truth(self.eval(c, env3)):
                    return None
            return (elt(env3),)
        if view is None:
            if kind == "list" and hasattr(self.w, "seq_comp"):
                r = self.w.seq_comp(self, coll, fn)
                if r is not None:
                    return r
            if kind == "list" and getattr(self.w, "comp_loops", False):
                return self.loop_comp(e, g, coll, env)
            raise Unsupported("comprehension over %r" % (coll,))
        return self.map_comp(coll, fn, kind)

    def loop_comp(self, e, g, coll, env):
        """A list comprehension as the loop that appends to a new list (with
        the loop's invariant)."""
        acc = "list comprehension"
        st = self.w.memo.get(("comp", id(e)))
        if st is None:
            body = [ast.Expr(ast.Call(func=ast.Attribute(
                value=ast.Name(id=acc, ctx=ast.Load()), attr="append",
                ctx=ast.Load()), args=[e.elt], keywords=[]))]
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            st = ast.For(target=g.target, iter=g.iter, body=body, orelse=[])
            ast.copy_location(st, e)
            ast.fix_missing_locations(st)
            self.w.memo[("comp", id(e))] = st
        env2 = Env(env, env.globs, None, env.fname)
        env2.vars[acc] = []
        sig = drive(self.w.loops.exec_symfor(self, st, env2, coll), True)
        if sig is not None:
            raise Unsupported("comprehension left with %r" % (sig,))
        r = env2.vars[acc]
        if isinstance(r, list):
            raise Unsupported("comprehension over %r" % (coll,))
        return r

    def map_comp(self, coll, fn, kind):
        view = self.as_view(coll)
        if kind != "gen":
            view = frozen(self, view)
        key = self.ctx.fresh("elem", view.key_sort())

        def body():
            self.ctx.assume(z3.Select(view.dom(), key))
            return fn(view.elem(key))
        res = self.ctx.sub_explore(body)
        vals = []
        for outcome, v, conds, heap, written, fresh in res:
            if written:
                raise Unsupported("comprehension with side effects")
            if any(mentions(c, fresh) for c in conds) or \
               (outcome == "ok" and v is not None and
                    value_mentions(v, fresh)):
                raise Unsupported("comprehension element too complex")
            if outcome == "exc":
                # may some element raise?
                f = z3.And(z3.Select(view.dom(), key), *conds)
                k2 = self.ctx.fresh("raiser", key.sort())
                if self.ctx.choose(["no", "yes"], "element raises") == "yes":
                    self.ctx.assume(z3.substitute(f, (key, k2)))
                    raise ProgExc(v)
                self.ctx.assume(z3.ForAll([key], z3.Not(f), patterns=sel_patterns(
                    z3.Select(view.dom(), key), key)))
                continue
            vals.append((z3.And(*conds) if conds else z3.BoolVal(True), v))
        return SymComp(view, key, None, vals, kind)

    # ------------------------------------------------------------ iteration
    def as_view(self, v):
        if isinstance(v, View) or getattr(v, "is_view", False):
            return v
        if isinstance(v, SMap):
            return View(v, "keys")
        if isinstance(v, SUSet):
            return SetView(v)
        if isinstance(v, SymComp):
            from .loops import CompView
            return CompView(self, v)
        return None

    def segments(self, v):
        """Yield ('elem', x) or ('sym', container)."""
        v = self.force(v)
        if isinstance(v, SegAll):
            v = v.coll
        if isinstance(v, IGen):
            while True:
                x = self.gen_next(v)
                if x is MISSING:
                    return
                if isinstance(x, SegAll):
                    yield ("sym", x.coll)
                else:
                    yield ("elem", x)
        elif hasattr(v, "sym_iter"):
            yield from v.sym_iter(self)
        elif isinstance(v, EnumDictView):
            for m in v.ty.members:
                yield ("elem", m)
        elif isinstance(v, (View, SMap, SUSet, SSeq, SymRange,
                            SEnumerate)) or getattr(v, "is_view", False):
            yield ("sym", v)
        elif isinstance(v, Chain):
            for p in v.parts:
                yield from self.segments(p)
        elif isinstance(v, CompMix):
            for p in v.parts:
                yield ("sym" if isinstance(p, SymComp) else "elem", p)
        elif isinstance(v, SymComp):
            yield ("sym", v)
        elif isinstance(v, Sym):
            if isinstance(v, (SInt, SReal, SBool, SRef, SEnum, SFn)):
                raise ProgExc(TypeError("%r is not iterable" % (v,)))
            raise Unsupported("iteration over %r" % (v,))
        else:
            it = self.native(lambda: iter(v))
            while True:
                try:
                    x = self.native(lambda: next(it, MISSING))
                except ProgExc as e:
                    raise
                if x is MISSING:
                    return
                yield ("elem", x)

    def iterate_concrete(self, v):
        for s in self.segments(v):
            if s[0] != "elem":
                raise Unsupported("concrete iteration over %r" % (s[1],))
            yield s[1]

    def drain(self, g):
        yield from self.iterate_concrete(g)

    def gen_next(self, g):
        if g.done:
            return MISSING
        try:
            return next(g.gen)
        except StopIteration:
            g.done = True
            return MISSING

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            sig = yield from self.exec(st, env)
            if sig is not None:
                return sig
        return None

    def exec(self, st, env):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        r = m(st, env)
        if isinstance(r, types.GeneratorType):
            r = yield from r
        return r

    def s_Pass(self, st, env):
        return None

    def s_Expr(self, st, env):
        return self._expr_stmt(st, env)

    def _expr_stmt(self, st, env):
        if isinstance(st.value, ast.Yield):
            v = None if st.value.value is None else \
                self.eval(st.value.value, env)
            yield v
            return None
        if isinstance(st.value, ast.YieldFrom):
            v = self.eval(st.value.value, env)
            for s in self.segments(v):
                if s[0] == "elem":
                    yield s[1]
                else:
                    yield SegAll(s[1])
            return None
        self.eval(st.value, env)
        return None

    def s_Return(self, st, env):
        return ("return", None if st.value is None else
                self.eval(st.value, env))

    def s_Break(self, st, env):
        return ("break",)

    def s_Continue(self, st, env):
        return ("continue",)

    def s_Global(self, st, env):
        env.globals_decl |= set(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocals |= set(st.names)

    def s_Import(self, st, env):
        import importlib
        for a in st.names:
            m = self.native(lambda: importlib.import_module(a.name))
            if a.asname:
                env.store(a.asname, m)
            else:
                import sys
                env.store(a.name.split(".")[0],
                          sys.modules[a.name.split(".")[0]])

    def s_ImportFrom(self, st, env):
        import importlib
        m = self.native(lambda: importlib.import_module(st.module))
        for a in st.names:
            env.store(a.asname or a.name, self.getattr(m, a.name))

    def s_FunctionDef(self, st, env):
        f = self.mkfunc(st, env, st.name)
        for d in reversed(st.decorator_list):
            dec = self.eval(d, env)
            f = self.call(dec, [f], {})
        env.store(st.name, f)

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = env.lookup(t.id)
            v = self.eval(st.value, env)
            if isinstance(cur, list) and isinstance(st.op, ast.Add):
                self.check_native_write(cur)
                cur.extend(self.iterate_concrete(v))
                return
            env.store(t.id, self.binop(st.op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            if isinstance(cur, CellValue):
                cur = cur.read(self)
            v = self.binop(st.op, cur, self.eval(st.value, env))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            cur = self.getitem(o, i)
            v = self.binop(st.op, cur, self.eval(st.value, env))
            self.setitem(o, i, v)
        else:
            raise Unsupported("augmented assignment target")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred assignment")
            v = self.force(v)
            if hasattr(v, "sym_unpack"):
                vals = v.sym_unpack(self, len(t.elts))
            else:
                vals = list(self.iterate_concrete(v))
            if len(vals) != len(t.elts):
                raise ProgExc(ValueError("unpack: wrong number of values"))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.lookup(t.id)
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env),
                             self.eval(t.slice, env))
            elif isinstance(t, ast.Attribute):
                raise Unsupported("del attribute")

    def s_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise ProgExc(AssertionError("assertion at line %d" % st.lineno))

    def s_Raise(self, st, env):
        if st.exc is None:
            cur = env.vars.get("%exc")
            e = env
            while cur is None and e.parent is not None:
                e = e.parent
                cur = e.vars.get("%exc")
            if cur is None:
                raise ProgExc(RuntimeError("No active exception"))
            raise ProgExc(cur)
        v = self.eval(st.exc, env)
        if isinstance(v, type):
            v = self.construct(v, [], {})
        if not isinstance(v, BaseException):
            raise ProgExc(TypeError("exceptions must derive from "
                                    "BaseException"))
        raise ProgExc(v)

    def s_If(self, st, env):
        return self._if(st, env)

    def _if(self, st, env):
        if self.truth(self.eval(st.test, env)):
            return (yield from self.exec_block(st.body, env))
        return (yield from self.exec_block(st.orelse, env))

    def s_With(self, st, env):
        return self._with(st.items, st, env)

    def _with(self, items, st, env):
        if not items:
            return (yield from self.exec_block(st.body, env))
        item = items[0]
        cm = self.force(self.eval(item.context_expr, env))
        if isinstance(cm, Sym) and hasattr(cm, "sym_getattr"):
            return (yield from self._with_sym(cm, items, st, env))
        if not isinstance(cm, ICtx):
            raise Unsupported("context manager %r" % (cm,))
        g = cm.igen
        v = self.gen_next(g)
        if v is MISSING:
            raise ProgExc(RuntimeError("generator didn't yield"))
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, env)
        try:
            sig = yield from self._with(items[1:], st, env)
        except ProgExc as e:
            try:
                g.gen.throw(e)
            except StopIteration:
                return None
            raise ProgExc(RuntimeError("generator didn't stop after throw"))
        if self.gen_next(g) is not MISSING:
            raise ProgExc(RuntimeError("generator didn't stop"))
        return sig

    def _with_sym(self, cm, items, st, env):
        leave = self.getattr(cm, "__exit__")
        v = self.call(self.getattr(cm, "__enter__"), [], {})
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, env)
        try:
            sig = yield from self._with(items[1:], st, env)
        except ProgExc as e:
            if self.truth(self.call(leave, [type(e.exc), e.exc, None], {})):
                return None
            raise
        self.call(leave, [None, None, None], {})
        return sig

    def s_Try(self, st, env):
        return self._try(st, env)

    def _try(self, st, env):
        sig = None
        pending = None
        try:
            try:
                sig = yield from self.exec_block(st.body, env)
                if sig is None and st.orelse:
                    pass
            except ProgExc as e:
                h = self.find_handler(st, e.exc, env)
                if h is None:
                    raise
                saved = env.vars.get("%exc")
                env.vars["%exc"] = e.exc
                if h.name:
                    env.store(h.name, e.exc)
                try:
                    sig = yield from self.exec_block(h.body, env)
                finally:
                    if saved is None:
                        env.vars.pop("%exc", None)
                    else:
                        env.vars["%exc"] = saved
                    if h.name:
                        env.vars.pop(h.name, None)
            else:
                if sig is None and st.orelse:
                    sig = yield from self.exec_block(st.orelse, env)
        except ProgExc as e:
            pending = e
        if st.finalbody:
            fs = yield from self.exec_block(st.finalbody, env)
            if fs is not None:
                return fs
        if pending is not None:
            raise pending
        return sig

    def find_handler(self, st, exc, env):
        for h in st.handlers:
            if h.type is None:
                return h
            t = self.eval(h.type, env)
            if self.native(lambda: isinstance(exc, t)):
                return h
        return None

    def s_While(self, st, env):
        return self.w.loops.exec_while(self, st, env)

    def s_For(self, st, env):
        return self._for(st, env)

    def _for(self, st, env):
        it = self.force(self.eval(st.iter, env))
        broke = False
        for seg in self.segments(it):
            if seg[0] == "elem":
                self.assign(st.target, seg[1], env)
                sig = yield from self.exec_block(st.body, env)
            else:
                # a loop that merely yields its elements
                b = st.body
                if len(b) == 1 and isinstance(b[0], ast.Expr) and \
                   isinstance(b[0].value, ast.Yield) and \
                   isinstance(b[0].value.value, ast.Name) and \
                   isinstance(st.target, ast.Name) and \
                   b[0].value.value.id == st.target.id:
                    yield SegAll(seg[1])
                    continue
                sig = yield from self.w.loops.exec_symfor(self, st, env,
                                                          seg[1])
            if sig is not None:
                if sig[0] == "break":
                    broke = True
                    break
                if sig[0] == "continue":
                    continue
                return sig
        if not broke and st.orelse:
            return (yield from self.exec_block(st.orelse, env))
        return None


def e_first_arg(env):
    a = env.node.args
    return env.vars[(a.posonlyargs + a.args)[0].arg]


class CellValue:
    """Scalar field of a native singleton kept in a heap cell."""
    def __init__(self, name, ty):
        self.name, self.ty = name, ty
        self.cell_name = name

    def read(self, vc):
        return self.ty.dec(vc, [vc.hget(self.name + s)
                                for s, so in self.ty.comps()])


class SetView:
    """View interface for SUSet"""
    kind = "keys"

    def __init__(self, s, snapshot=False):
        self.m = s
        self.is_snapshot = snapshot

    def key_sort(self):
        return self.m.ty.ks

    def dom(self):
        return self.m.dom()

    def elem(self, kk):
        return self.m.valat(kk)

    def name(self):
        return self.m.loc.name

    def length(self):
        return self.m.length()


def frozen(vc, view):
    """The collection as it is now."""
    if getattr(view, "is_snapshot", True):
        return view
    if isinstance(view, View):
        return view.snap()
    if isinstance(view, SetView):
        return SetView(SUSet(vc, ValLoc([view.dom()], view.m.loc),
                             view.m.ty), True)
    return view


class Chain:
    def __init__(self, parts):
        self.parts = parts


class CompMix(Sym):
    """A comprehension over concrete elements and symbolic collections."""
    def __init__(self, parts):
        self.parts = parts

    def sym_truth(self, vc):
        for p in self.parts:
            if not isinstance(p, SymComp) or vc.truth(p):
                return True
        return False


class SymRange(Sym):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi      # z3 ints, step 1


class SEnumerate(Sym):
    def __init__(self, seq, start=0):
        self.seq, self.start = seq, start


def has_ite(e):
    todo = [e]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR,
                                   z3.Z3_OP_NOT, z3.Z3_OP_EQ):
                return True
            if not z3.is_store(x):
                todo += x.children()
    return False


def drive(gen, skip=False):
    """Run a non-generator function body; with skip, a generator's body as if
    its consumer did nothing."""
    try:
        while True:
            next(gen)
            if skip:
                continue
            raise Unsupported("yield outside a generator")
    except StopIteration as e:
        return e.value


# ---------------------------------------------------------------- builtins
def b_len(vc, v):
    v = vc.force(v)
    if hasattr(v, "sym_len"):
        return v.sym_len(vc)
    if isinstance(v, (Container, View)):
        return v.length()
    if isinstance(v, SText):
        n = vc.ctx.fresh("len", I)
        vc.ctx.assume(n >= 0)
        return SInt(n)
    if isinstance(v, SRef):
        f = getattr(vc.w.classes[v.cls].pycls, "__len__", None)
        if isinstance(f, types.FunctionType):
            return vc.call(f, [v], {})
    if isinstance(v, Sym) or v is None:
        raise ProgExc(TypeError("object of type %r has no len()" % (v,)))
    if vc.is_paf_obj(v) and isinstance(getattr(type(v), "__len__", None),
                                       types.FunctionType):
        return vc.call(type(v).__len__, [v], {})
    return vc.native(lambda: len(v))


def b_isinstance(vc, v, t):
    v = vc.force(v)
    if hasattr(v, "sym_isinstance"):
        return v.sym_isinstance(vc, t)
    ts = t if isinstance(t, tuple) else (t,)
    nat = {SInt: int, SReal: float, SBool: bool, SText: str, SSeq: list,
           SMap: dict, SUSet: set}
    for k, n in nat.items():
        if isinstance(v, k):
            return any(issubclass(n, x) for x in ts)
    if isinstance(v, SRef):
        pc = vc.w.classes[v.cls].pycls
        return any(issubclass(pc, x) for x in ts)
    if isinstance(v, SAtom):
        return any(issubclass(v.ty.pytype if hasattr(v.ty, "pytype") else str,
                              x) for x in ts)
    if isinstance(v, Sym):
        raise Unsupported("isinstance(%r)" % (v,))
    return vc.native(lambda: isinstance(v, t))


def b_min(vc, *a, **k):
    return minmax(vc, a, k, True)


def b_max(vc, *a, **k):
    return minmax(vc, a, k, False)


def minmax(vc, a, k, mn):
    if k and set(k) - {"default"}:
        raise Unsupported("min/max with key")
    if len(a) == 1:
        c = vc.force(a[0])
        if isinstance(c, SymComp):
            return comp_extreme(vc, c, mn, k)
        if isinstance(c, (View, SMap, SUSet)):
            v = vc.as_view(c)
            key = vc.ctx.fresh("elem", v.key_sort())
            c = SymComp(v, key, None, [(z3.BoolVal(True), (v.elem(key),))],
                        "list")
            return comp_extreme(vc, c, mn, k)
        a = list(vc.iterate_concrete(c))
        if not a:
            if "default" in k:
                return k["default"]
            raise ProgExc(ValueError("min() arg is an empty sequence"))
    a = [vc.force(x) for x in a]
    if not any(isinstance(x, Sym) for x in a):
        return vc.native(lambda: (min if mn else max)(a))
    r = a[0]
    for x in a[1:]:
        for y in (r, x):
            if not isinstance(y, (int, float, SInt, SReal)):
                raise ProgExc(TypeError("'<' not supported for %r" % (y,)))
        p, q = vc.nums(x, r)
        isr = p.sort() == R
        # min keeps the first of equal elements; equal numbers are equal
        e = z3.If(p < q, p, q) if mn else z3.If(p > q, p, q)
        e = z3.simplify(e)
        r = SReal(e) if isr else mkint(e)
    return r


def comp_extreme(vc, c, mn, k):
    """min/max over a symbolic comprehension: lower bound + witness."""
    n = c.view.length()
    some_filtered = any(v is None for _, v in c.value)
    key = c.key
    pres = []
    for cond, v in c.value:
        if v is None:
            continue
        x = vc.force(v[0])
        if not isinstance(x, (int, float, SInt, SReal)):
            raise Unsupported("min/max over %r" % (x,))
        pres.append((cond, x))
    dom = c.view.dom()
    anyp = z3.Or(*[cond for cond, _ in pres]) if pres else z3.BoolVal(False)
    if some_filtered:
        nonempty = SymComp(c.view, key, None, c.value, "list").sym_truth(vc)
    else:
        nonempty = n > 0 if isinstance(n, int) else \
            vc.ctx.branch(n.t > 0, "%s non-empty" % c.view.name())
    if not nonempty:
        if "default" in k:
            return k["default"]
        raise ProgExc(ValueError("min() iterable argument is empty"))
    isr = any(isinstance(x, (SReal, float)) for _, x in pres)
    m = vc.ctx.fresh("min" if mn else "max", R if isr else I)

    def term(x):
        if isr:
            return as_real(x)
        return x.t if isinstance(x, SInt) else z3.IntVal(x)
    sel = z3.Select(dom, key)
    for cond, x in pres:
        t = term(x)
        vc.ctx.assume(z3.ForAll([key], z3.Implies(
            z3.And(sel, cond), (m <= t) if mn else (m >= t)),
            patterns=sel_patterns(sel, key)))
    w = vc.ctx.fresh("argmin", key.sort())
    vc.ctx.assume(z3.Or(*[z3.substitute(
        z3.And(sel, cond, term(x) == m), (key, w)) for cond, x in pres]))
    return SReal(m) if isr else SInt(m)


def b_sorted(vc, v, **k):
    v = vc.force(v)
    if isinstance(v, (View, SMap, SUSet, SymComp)):
        if k:
            raise Unsupported("sorted with key")
        return SymSorted(vc, v)
    vals = list(vc.iterate_concrete(v))
    if vc.has_sym(vals):
        raise Unsupported("sorted of symbolic values")
    return vc.native(lambda: sorted(vals, **k))


class SymSorted(Sym):
    """sorted(collection): only its length and first/last element."""
    def __init__(self, vc, coll):
        self.coll = coll

    def sym_len(self, vc):
        return self.coll.view.length() if isinstance(self.coll, SymComp) \
            else self.coll.length()

    def sym_truth(self, vc):
        n = self.sym_len(vc)
        return n > 0 if isinstance(n, int) else SBool(n.t > 0)

    def sym_getitem(self, vc, i):
        if i == 0:
            try:
                return b_min(vc, self.coll)
            except ProgExc as e:
                raise ProgExc(IndexError("list index out of range"))
        if i == -1:
            try:
                return b_max(vc, self.coll)
            except ProgExc as e:
                raise ProgExc(IndexError("list index out of range"))
        raise Unsupported("index into sorted()")


def b_list(vc, *a):
    if not a:
        return []
    v = vc.force(a[0])
    if isinstance(v, View):
        return v.snap()
    if isinstance(v, SMap):
        return View(v, "keys").snap()
    if isinstance(v, SUSet):
        return SUSet(vc, ValLoc([v.dom()], v.loc), v.ty)
    if isinstance(v, SSeq):
        n = len(v.ty.comps())
        return SSeq(vc, ValLoc([v.loc.get(i) for i in range(n)]), v.ty)
    if isinstance(v, SymComp):
        return v
    if isinstance(v, CompMix):
        return CompMix(list(v.parts))
    if hasattr(v, "sym_list"):
        return v.sym_list(vc)
    if isinstance(v, Chain):
        parts = []
        for what, x in vc.segments(v):
            parts.append(x if what == "elem" else vc.map_comp(
                x, lambda y: (y,), "list"))
        return CompMix(parts) if any(isinstance(x, SymComp)
                                     for x in parts) else parts
    return list(vc.iterate_concrete(v))


def b_set(vc, *a):
    if not a:
        return set()
    v = vc.force(a[0])
    if isinstance(v, SUSet):
        return SUSet(vc, ValLoc([v.dom()], v.loc), v.ty)
    vals = list(vc.iterate_concrete(v))
    if vc.has_sym(vals):
        raise Unsupported("set of symbolic values")
    return vc.native(lambda: set(vals))


def b_int(vc, *a):
    if len(a) == 1:
        v = vc.force(a[0])
        if isinstance(v, SInt):
            return v
        if isinstance(v, SBool):
            return mkint(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, SReal):
            # truncation towards zero
            f = z3.ToInt(v.t)
            return SInt(z3.If(v.t >= 0, f, -z3.ToInt(-v.t)))
        if hasattr(v, "sym_int"):
            return v.sym_int(vc)
        if isinstance(v, Sym):
            raise Unsupported("int(%r)" % (v,))
    return vc.native(lambda: int(*a))


def b_str(vc, *a):
    if len(a) == 1:
        v = vc.force(a[0])
        if hasattr(v, "sym_str"):
            return v.sym_str(vc)
        if isinstance(v, SText) or (isinstance(v, SAtom)):
            return v
        if isinstance(v, SInt) and hasattr(vc.w, "int_text"):
            return vc.w.int_text(vc, v)
        if isinstance(v, Sym) or vc.has_sym(v):
            if vc.is_paf_obj(v) and isinstance(type(v).__str__,
                                               types.FunctionType):
                return vc.call(type(v).__str__, [v], {})
            if isinstance(v, SRef):
                pc = vc.w.classes[v.cls].pycls
                hook = (vc.w.classes[v.cls].methods or {}).get("__str__")
                if hook is not None:
                    return hook(vc, v)
                if pc is not None and isinstance(pc.__str__,
                                                 types.FunctionType):
                    return vc.call(pc.__str__, [v], {})
            return SText()
        if vc.is_paf_obj(v) and isinstance(type(v).__str__,
                                           types.FunctionType):
            return vc.call(type(v).__str__, [v], {})
    return vc.native(lambda: str(*a))


def b_range(vc, *a):
    a = [vc.force(x) for x in a]
    if any(isinstance(x, SReal) or x is None for x in a):
        raise ProgExc(TypeError("range() integer expected"))
    if not any(isinstance(x, Sym) for x in a):
        return vc.native(lambda: range(*a))
    t = [x.t if isinstance(x, SInt) else z3.IntVal(x) for x in a]
    if len(t) == 1:
        return SymRange(z3.IntVal(0), t[0])
    if len(t) == 2:
        return SymRange(t[0], t[1])
    raise Unsupported("symbolic range with step")


def b_enumerate(vc, v, start=0):
    v = vc.force(v)
    segs = list(vc.segments(v))
    if all(s[0] == "elem" for s in segs):
        return [(start + i, s[1]) for i, s in enumerate(segs)]
    if len(segs) == 1:
        return SEnumerate(segs[0][1], start)
    raise Unsupported("enumerate over mixed collection")


def b_any(vc, v):
    return anyall(vc, v, True)


def b_all(vc, v):
    return anyall(vc, v, False)


def anyall(vc, v, is_any):
    v = vc.force(v)
    if isinstance(v, CompMix):
        for p in v.parts:
            t = vc.truth(anyall(vc, p, is_any)) if isinstance(p, SymComp) \
                else vc.truth(p)
            if t == is_any:
                return is_any
        return not is_any
    if isinstance(v, (View, SUSet)) or isinstance(v, SMap):
        raise Unsupported("any/all over %r" % (v,))
    if isinstance(v, SymComp):
        dom = v.view.dom()
        key = v.key
        parts = []
        for cond, x in v.value:
            if x is None:
                continue
            b = vc.boolt(x[0])
            parts.append(z3.And(cond, b) if is_any else z3.Implies(cond, b))
        sel = z3.Select(dom, key)
        good = z3.Or(*parts) if is_any else z3.Not(z3.And(*parts))
        if vc.ctx.choose(["all", "some"], "element") == "some":
            w = vc.ctx.fresh("w", key.sort())
            vc.ctx.assume(z3.substitute(z3.And(sel, good), (key, w)))
            return is_any
        vc.ctx.assume(z3.ForAll([key], z3.Implies(sel, z3.Not(good)),
                                patterns=sel_patterns(sel, key)))
        return not is_any
    for x in vc.iterate_concrete(v):
        t = vc.truth(x)
        if is_any and t:
            return True
        if not is_any and not t:
            return False
    return not is_any


def b_sum(vc, v, start=0):
    v = vc.force(v)
    if isinstance(v, SymComp):
        return vc.w.sym_sum(vc, v, start)
    r = start
    for x in vc.iterate_concrete(v):
        r = vc.binop(ast.Add(), r, x)
    return r


def b_hasattr(vc, o, name):
    try:
        vc.getattr(o, name)
        return True
    except ProgExc as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


def b_getattr(vc, o, name, *d):
    name = vc.force(name)
    if not isinstance(name, str):
        raise Unsupported("getattr with symbolic name")
    v = vc.getattr(o, name, *d)
    if isinstance(v, CellValue):
        return v.read(vc)
    return v


def b_setattr(vc, o, name, v):
    vc.setattr(o, name, v)


def b_bool(vc, v=False):
    if isinstance(v, SBool):
        return v
    return vc.truth(v)


def b_iter(vc, v):
    if isinstance(v, (Sym, IGen)) or hasattr(v, "sym_iter"):
        return ISymIter(v)
    return vc.native(lambda: iter(v))


class ISymIter:
    def __init__(self, v):
        self.v = v


def b_next(vc, it, *d):
    if isinstance(it, IGen):
        x = vc.gen_next(it)
        if x is MISSING:
            if d:
                return d[0]
            raise ProgExc(StopIteration())
        if isinstance(x, SegAll):
            raise Unsupported("next() on symbolic generator")
        return x
    if isinstance(it, ISymIter):
        v = vc.as_view(it.v)
        if v is None:
            raise Unsupported("next(iter(%r))" % (it.v,))
        n = v.length()
        if not vc.ctx.branch(n.t > 0 if isinstance(n, SInt) else n > 0,
                             "non-empty"):
            if d:
                return d[0]
            raise ProgExc(StopIteration())
        k = vc.ctx.fresh("first", v.key_sort())
        vc.ctx.assume(z3.Select(v.dom(), k))
        return v.elem(k)
    if isinstance(it, (SymComp, CompMix)):
        raise Unsupported("next over comprehension")
    if isinstance(it, list):    # evaluated generator expression
        if it:
            return it[0]
        if d:
            return d[0]
        raise ProgExc(StopIteration())
    return vc.native(lambda: next(it, *d))


def b_abs(vc, v):
    v = vc.force(v)
    if isinstance(v, (SInt, SReal)):
        e = z3.If(v.t >= 0, v.t, -v.t)
        return SInt(e) if isinstance(v, SInt) else SReal(e)
    return vc.native(lambda: abs(v))


def b_type(vc, v):
    v = vc.force(v)
    if hasattr(v, "sym_type"):
        return v.sym_type(vc)
    if isinstance(v, SRef):
        return vc.w.classes[v.cls].pycls
    if isinstance(v, SInt):
        return int
    if isinstance(v, SReal):
        return float
    if isinstance(v, SBool):
        return bool
    if isinstance(v, Sym):
        raise Unsupported("type()")
    return type(v)


def b_partial(vc, f, *a, **k):
    return Partial(f, a, k)


def b_chain(vc, *parts):
    return Chain(parts)


def b_callable(vc, f):
    return isinstance(f, (IFunc, SBound, SFn, Partial)) or \
        (not isinstance(f, Sym) and callable(f))


def b_dict(vc, *a, **k):
    if a and isinstance(a[0], SMap):
        return a[0].copy()
    if a and isinstance(a[0], dict):
        d = dict(a[0])
        d.update(k)
        return d
    if not a:
        return dict(k)
    raise Unsupported("dict()")


def b_float(vc, v=0.0):
    v = vc.force(v)
    if isinstance(v, SInt):
        return SReal(z3.ToReal(v.t))
    if isinstance(v, SReal):
        return v
    if isinstance(v, Sym):
        raise Unsupported("float()")
    return vc.native(lambda: float(v))


def b_reversed(vc, v):
    return list(reversed(list(vc.iterate_concrete(v))))


def b_zip(vc, *a):
    return list(zip(*[list(vc.iterate_concrete(x)) for x in a]))


def b_map(vc, f, v):
    if vc.as_view(vc.force(v)) is not None:
        return vc.map_comp(vc.force(v), lambda x: (vc.call(f, [x], {}),),
                           "list")
    return [vc.call(f, [x], {}) for x in vc.iterate_concrete(v)]


def b_print(vc, *a, **k):
    return None


def b_repr(vc, v):
    if isinstance(v, Sym) or vc.has_sym(v):
        return SText()
    return vc.native(lambda: repr(v))


import itertools  # noqa: E402

BUILTINS = {
    len: b_len, isinstance: b_isinstance, min: b_min, max: b_max,
    sorted: b_sorted, list: b_list, set: b_set, int: b_int, str: b_str,
    range: b_range, enumerate: b_enumerate, any: b_any, all: b_all,
    sum: b_sum, hasattr: b_hasattr, getattr: b_getattr, setattr: b_setattr,
    bool: b_bool, iter: b_iter, next: b_next, abs: b_abs, type: b_type,
    functools.partial: b_partial, itertools.chain: b_chain,
    callable: b_callable, dict: b_dict, float: b_float,
    reversed: b_reversed, zip: b_zip, map: b_map, print: b_print,
    repr: b_repr,
}
