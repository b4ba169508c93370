"""What a unit sees: heap classes, cells, contracts in force, loop specs."""
import time
import types
import random
import z3
from . import core
from .core import Unsupported, ProgExc, PathEnd
from .values import *
from .interp import VC, SBound, IFunc, BuiltinMethod, CellValue, Partial
from . import loops as _loops


class ClassDecl:
    def __init__(self, pycls, fields, methods=None):
        self.pycls, self.fields, self.methods = pycls, fields, methods


class Loops:
    exec_while = staticmethod(_loops.exec_while)
    exec_symfor = staticmethod(_loops.exec_symfor)


PURE_LIB = ("re", "math", "string", "json", "ipaddress", "builtins",
            "collections", "itertools", "functools", "enum", "operator",
            "_operator", "_functools", "_json", "json.encoder",
            "json.decoder", "_sre", "abc", "codecs", "copy")


class World:
    loops = Loops

    joins_in_loops = False        # "".join(generator) executed as a loop

    def __init__(self, index):
        self.index = index
        self.classes = {}
        self.comp_sorts = {}
        self.active_contracts = {}
        self.intercepts = {}
        self.native_fields = {}
        self.module_attrs = {}      # (module, name) -> stand-in
        self.fn_encoders = {}
        self.by_pycls = {}
        self.loop_specs = {}       # collection name -> LoopSpec
        self.while_specs = {}      # function qualname -> WhileSpec
        self.functions = set()     # functions whose bodies were executed
        self.memo = {}
        self.intercepts[time.time] = now
        self.intercepts[random.random] = rnd

    # -- declarations
    def heap_class(self, name, pycls, fields, methods=None):
        self.classes[name] = ClassDecl(pycls, fields, methods)
        if pycls is not None:
            self.by_pycls[pycls] = name
        self.comp_sorts[name + ".alive"] = z3.ArraySort(sort(name), B)
        for f, t in fields.items():
            for s, so in t.comps():
                self.comp_sorts["%s.%s%s" % (name, f, s)] = \
                    z3.ArraySort(sort(name), so)

    def check_representation(self):
        """The classes still have the attributes the specification talks
        about."""
        todo = [(d.pycls, d.fields) for d in self.classes.values()
                if d.pycls is not None]
        todo += [(c, f) for c, f in self.native_fields.items()]
        for cls, fields in todo:
            if not isinstance(cls, type) or issubclass(cls, tuple):
                continue
            have = self.index.attrs(cls)
            for f in fields:
                if f not in have and not hasattr(cls, f):
                    raise Unsupported("%s has no attribute %s any more" %
                                      (cls.__name__, f))

    def cell(self, name, ty):
        for s, so in ty.comps():
            self.comp_sorts[name + s] = so

    def ghost(self, name, so):
        self.comp_sorts[name] = so

    # -- hooks of the interpreter
    def heap_class_of(self, cls):
        return self.by_pycls.get(cls)

    def note_function(self, q):
        self.functions.add(q)

    def format_hook(self, vc, fmt, specs, vals):
        # %s of program objects runs their __str__
        for s, v in zip(specs, vals):
            if s in "sr":
                from .interp import b_str
                b_str(vc, v)
        return SText(list(vals))

    def join_comp(self, vc, sep, comp):
        """sep.join(comprehension over a symbolic collection)"""
        return SText()

    def joined_hook(self, vc, pieces):
        """pieces of text put one after the other"""
        return SText([x for x in pieces if not isinstance(x, str)])

    def view_item(self, vc, view, i):
        i = vc.force(i)
        if not isinstance(i, int) or isinstance(i, bool):
            raise Unsupported("index into a snapshot of a symbolic "
                              "collection")
        n = view.length()
        need = i + 1 if i >= 0 else -i
        if not vc.ctx.branch(n.t >= need if isinstance(n, SInt) else
                             n >= need, "index in range"):
            raise ProgExc(IndexError("list index out of range"))
        k = vc.ctx.fresh("item", view.key_sort())
        vc.ctx.assume(z3.Select(view.dom(), k))
        return view.elem(k)

    def seq_remove(self, vc, seq, x):
        """list.remove / deque.remove: first equal element."""
        vt = seq.ty.vt
        terms = vt.enc(vc, x)
        if isinstance(vt, TRef):
            hook = (self.classes[vt.cls].methods or {}).get("__eq__")
            if hook is not None:
                return remove_first(vc, seq, lambda j: hook(
                    vc, SRef(vt.cls, z3.Select(seq.loc.get(1), j)), x))

        def equal(j):
            return z3.And(*[z3.Select(seq.loc.get(i + 1), j) == t
                            for i, t in enumerate(terms)])
        return remove_first(vc, seq, equal)

    def sym_sum(self, vc, comp, start):
        raise Unsupported("sum over a symbolic collection")

    def native_ok(self, f):
        m = getattr(f, "__module__", None)
        if m is None:
            s = getattr(f, "__self__", None)
            m = type(s).__module__ if s is not None else "builtins"
            if isinstance(s, types.ModuleType):
                m = s.__name__
        return m in PURE_LIB or m.split(".")[0] in ("re", "json") or \
            m.startswith("paf")

    def loop_spec(self, vc, env, coll, st):
        v = vc.as_view(coll)
        if v is None:
            return None
        return self.loop_specs.get(v.name())

    def while_spec(self, vc, env, st):
        return self.while_specs.get(env.fname)


def remove_first(vc, seq, equal, exc=None):
    ctx = vc.ctx
    j = z3.Int("j")
    n = seq.ln()
    arr = seq.loc.get(1)
    if ctx.choose(["present", "absent"], "remove") == "absent":
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n),
                                             z3.Not(equal(j))),
                             patterns=[z3.Select(arr, j)]))
        raise ProgExc(exc or ValueError("not in list"))
    w = ctx.fresh("pos", I)
    ctx.assume(z3.And(w >= 0, w < n, equal(w)))
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w),
                                         z3.Not(equal(j))),
                         patterns=[z3.Select(arr, j)]))
    vc.ctx.ghost["removed_at"] = w
    seq.remove_at(w)


def now(vc):
    """time.time(): any value; successive values are unrelated unless a unit
    says otherwise."""
    t = vc.ctx.fresh("now", R)
    h = vc.ctx.ghost.get("now_hook")
    if h:
        h(vc, t)
    return SReal(t)


def rnd(vc):
    t = vc.ctx.fresh("random", R)
    vc.ctx.assume(z3.And(t >= 0, t < 1))
    return SReal(t)


class H:
    """Formula-level access to a heap (a dict of components)."""
    def __init__(self, vc, heap=None):
        self.vc = vc
        self.heap = dict(vc.ctx.heap) if heap is None else heap

    def __call__(self, name):
        if name not in self.heap:
            so = self.vc.w.comp_sorts[name]
            return z3.Const("H0." + name, so)
        return self.heap[name]

    def at(self, name, *keys):
        e = self(name)
        for k in keys:
            e = z3.Select(e, k)
        return e


class Outcome:
    """One way a contracted function may end."""
    def __init__(self, label, exc=None, result=None):
        self.label, self.exc, self.result = label, exc, result


class Contract:
    """Subclass per function.

    q: qualified name; mod: components it may change; outcomes: list of
    Outcome, exceptional ones with the exception class;
    params(vc, args, kw) -> dict from the call's values;
    fresh(vc) -> (args, kw) arbitrary parameters for verification;
    requires(vc, a) / ensures(vc, a, old, label, result): [(name, formula)].
    """
    q = None
    mod = ()
    outcomes = [Outcome("return")]

    def params(self, vc, f, args, kw):
        import inspect
        sig = inspect.signature(f)
        try:
            b = sig.bind(*args, **kw)
        except TypeError as e:
            raise ProgExc(TypeError(str(e)))
        b.apply_defaults()
        return dict(b.arguments)

    def requires(self, vc, a):
        return []

    def ensures(self, vc, a, old, label, result):
        return []

    def result(self, vc, a, label):
        return None

    def call_ghost(self, vc, a):
        """ghost effects at the call site, before requires is proved"""

    def make_exc(self, vc, exc):
        o = exc.__new__(exc)
        o.args = ("...",)
        return o

    # -- use at a call site
    def apply(self, vc, f, args, kw):
        ctx = vc.ctx
        a = self.params(vc, f, args, kw)
        self.call_ghost(vc, a)
        for n, g in self.requires(vc, a):
            ctx.prove(g, "%s:pre of %s" % (n, self.q))
        old = H(vc)
        for m in self.mod:
            vc.havoc(m)
        labels = [o.label for o in self.outcomes]
        lab = ctx.choose(labels, self.q.split(".")[-1]) \
            if len(labels) > 1 else labels[0]
        out = [o for o in self.outcomes if o.label == lab][0]
        res = self.result(vc, a, lab)
        for n, g in self.ensures(vc, a, old, lab, res):
            ctx.assume(g)
        if not ctx.feasible(z3.BoolVal(True)):
            raise PathEnd()
        if out.exc is not None:
            raise ProgExc(self.make_exc(vc, out.exc))
        return res

    def __call__(self, vc, f, args, kw):
        return self.apply(vc, f, args, kw)

    # -- verification of the body
    def entry(self, vc):
        """arbitrary (args, kw) of a call, assuming what is type-like."""
        raise NotImplementedError

    def extra_assumptions(self, vc, a):
        return []

    def body(self, vc, f, args, kw):
        saved = vc.contracts
        vc.contracts = {k: v for k, v in saved.items() if k != self.q}
        try:
            return vc.call_function(f, args, kw)
        finally:
            vc.contracts = saved

    def verify(self, vc, f):
        ctx = vc.ctx
        args, kw = self.entry(vc)
        a = self.params(vc, f, args, kw)
        for n, g in self.requires(vc, a):
            ctx.assume(g)
        old = H(vc)
        ctx.written.clear()
        exc = None
        res = None
        try:
            res = self.body(vc, f, args, kw)
        except ProgExc as e:
            exc = e.exc
        if exc is None:
            cand = [o for o in self.outcomes if o.exc is None]
        else:
            cand = [o for o in self.outcomes if o.exc is not None and
                    type(exc) is o.exc]
            if not cand:
                cand = [o for o in self.outcomes if o.exc is not None and
                        isinstance(exc, o.exc)]
        if not cand:
            ctx.prove(z3.BoolVal(False), "%s:%s ends with %s" % (
                getattr(self, "exc_tag", "C13"), self.q,
                "a return" if exc is None else
                "unexpected %s(%s)" % (type(exc).__name__,
                                       core.short(exc.args))))
            return
        o = cand[0]
        ctx.trace.append("=> %s" % o.label)
        stats_cover(ctx, "%s:%s" % (self.q, o.label))
        extra = ctx.written - set(self.mod)
        new = H(vc)
        for m in sorted(extra):
            if m.endswith(".alive"):
                continue
            so = vc.w.comp_sorts[m]
            ctx.prove(old(m) == new(m), "frame:%s does not change %s" %
                      (self.q, m))
        for n, g in self.ensures(vc, a, old, o.label, res):
            ctx.prove(g, "%s:post of %s (%s)" % (n, self.q, o.label))


def stats_cover(ctx, name):
    c = ctx.stats.covers
    c[name] = c.get(name, 0) + 1
