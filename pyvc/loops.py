"""Loops: invariant-checked, summarised (pure searches), or unrolled when the
iteration space is concrete."""
import ast
import z3
from .core import Unsupported, ProgExc, PathEnd, Restart, mentions
from .values import *
from .interp import (SegAll, BuiltinMethod, SymComp, SymRange, SEnumerate, SetView,
                     assigned_names, drive, Env)


class Poison:
    """Value of a loop-local variable after the loop: unspecified."""
    def __init__(self, name):
        self.name = name

    def _no(self):
        raise Unsupported("variable %s read after its loop" % self.name)

    def sym_eq(self, vc, o):
        self._no()

    sym_is = sym_truth = sym_getattr = sym_getitem = sym_iter = sym_eq


def _load_names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and
            isinstance(n.ctx, ast.Load)}


class LoopSpec:
    """Invariant of a loop over a set-like collection.

    inv(vc, env, V, D, pre): list of (name, formula); V: visited keys (array),
    D: the iteration domain at loop entry, pre: heap dict at loop entry.
    mod: components havocked besides those found written by the body.
    locals: {name: T} re-bound to fresh values of that type.
    """
    def __init__(self, name, inv, mod=(), locals=None, done=None, step=None,
                 ghost_init=None, start=None, after=None):
        self.name, self.inv, self.mod = name, inv, list(mod)
        self.locals = locals or {}
        self.done = done
        self.step = step            # ghost update after an iteration
        self.ghost_init = ghost_init
        self.start = start          # at the start of an iteration
        self.after = after          # obligations at the end of an iteration
        self.view = None            # the view being iterated


def coll_key(vc, coll):
    """(view, name) of an iterated symbolic collection"""
    v = vc.as_view(coll)
    return v


def loop_locals(st):
    names = set(assigned_names(st.body))
    for n in ast.walk(st.target) if hasattr(st, "target") else []:
        if isinstance(n, ast.Name):
            names.add(n.id)
    return names


def exec_symfor(vc, st, env, coll):
    spec = None if getattr(st, "pure", False) else \
        vc.w.loop_spec(vc, env, coll, st)
    r = append_loop(vc, st, env, coll)
    if r is not None:
        return None
    if spec is not None:
        return (yield from spec_for(vc, st, env, coll, spec))
    return (yield from search_for(vc, st, env, coll))


class Appends(Sym):
    """Stands for a native list that a loop only appends to."""
    def __init__(self, name):
        self.name = name

    def sym_getattr(self, vc, name):
        if name != "append":
            raise Unsupported("list.%s in a loop that appends" % name)
        return BuiltinMethod("append", self, lambda x: self.append(vc, x))

    def append(self, vc, x):
        key = "appended:" + self.name
        vc.ctx.ghost[key] = vc.ctx.ghost.get(key, ()) + (x,)


def append_loop(vc, st, env, coll):
    """A loop whose only effect is to append to a new list: the list is the
    comprehension it spells out."""
    names = {n.func.value.id for n in ast.walk(ast.Module(
        body=st.body, type_ignores=[]))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
        n.func.attr == "append" and isinstance(n.func.value, ast.Name)}
    if len(names) != 1 or isinstance(coll, (SSeq, SymRange, SEnumerate)):
        return None
    (name,) = names
    lst = env.vars.get(name)
    if type(lst) is not list or lst or id(lst) in vc.ctx.escaped or \
       sum(1 for v in env.vars.values() if v is lst) != 1 or st.orelse:
        return None
    view = vc.as_view(coll)
    if view is None:
        return None
    key = "appended:" + name
    lnames = loop_locals(st)

    def fn(x):
        before = dict(env.vars)
        vc.ctx.ghost[key] = ()
        env.vars[name] = Appends(name)
        try:
            vc.assign(st.target, x, env)
            sig = drive(vc.exec_block(st.body, env))
            if sig is not None and sig[0] in ("return", "break"):
                raise Unsupported("appending loop that leaves early")
            for n in lnames:
                if n in before and n in _load_names(
                        ast.Module(body=st.body, type_ignores=[])) and \
                   env.vars.get(n) is not before[n] and \
                   n not in _target_names(st):
                    raise Unsupported("accumulation in an appending loop")
        finally:
            env.vars.clear()
            env.vars.update(before)
        got = vc.ctx.ghost[key]
        if len(got) > 1:
            raise Unsupported("several appends per iteration")
        return got if got else None
    g0 = vc.ctx.ghost.get(key)
    try:
        c = vc.map_comp(coll, fn, "list")
    except Unsupported as e:
        return None
    vc.ctx.ghost[key] = g0
    env.vars[name] = c
    for n in lnames:
        env.vars[n] = Poison(n)
    return True


def _target_names(st):
    return {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}


class CompView:
    """The elements of a symbolic comprehension (order unspecified)."""
    kind = "comp"
    is_snapshot = True

    def __init__(self, vc, c):
        self.vc, self.c = vc, c
        ks = c.key.sort()
        sel = z3.Select(c.view.dom(), c.key)
        some = z3.And(sel, z3.Or(*[f for f, v in c.value if v is not None]
                                 or [z3.BoolVal(False)]))
        self.d = vc.ctx.fresh("compdom", z3.ArraySort(ks, B))
        vc.ctx.assume(z3.ForAll([c.key], z3.Select(self.d, c.key) == some,
                                patterns=[z3.Select(self.d, c.key)] +
                                sel_patterns(sel, c.key)))
        vc.keep.append(self.d)

    def key_sort(self):
        return self.c.key.sort()

    def dom(self):
        return self.d

    def name(self):
        return self.c.view.name()

    def elem(self, k):
        cases = [(f, v) for f, v in self.c.value if v is not None]
        for f, v in cases[:-1]:
            if self.vc.ctx.branch(z3.substitute(f, (self.c.key, k)), "case"):
                return subst_value(self.vc, v[0], self.c.key, k)
        return subst_value(self.vc, cases[-1][1][0], self.c.key, k)


def subst_value(vc, v, key, k):
    def t(x):
        return z3.substitute(x, (key, k))
    if isinstance(v, tuple):
        return tuple(subst_value(vc, x, key, k) for x in v)
    if isinstance(v, (SInt, SReal, SBool)):
        return type(v)(t(v.t))
    if isinstance(v, (SAtom, SEnum, SFn)):
        return type(v)(v.ty, t(v.t))
    if isinstance(v, SRef):
        return SRef(v.cls, t(v.t))
    if isinstance(v, SOpt):
        return SOpt(t(v.some), v.ty, subst_value(vc, v.val, key, k))
    if isinstance(v, (SText, int, str, float, bool, type(None))):
        return v
    raise Unsupported("element %r of a comprehension" % (v,))


def discover_written(vc, fn):
    """Names of components possibly written by fn from the current state."""
    out = set()
    for r in vc.ctx.sub_explore(fn, limit=2000, discover=True):
        out |= r[4]
    return out


def spec_for(vc, st, env, coll, spec):
    if isinstance(coll, (SSeq, SymRange)) or \
       isinstance(coll, SEnumerate) and isinstance(coll.seq, SSeq):
        return (yield from spec_seq(vc, st, env, coll, spec))
    view = vc.as_view(coll)
    if view is None:
        raise Unsupported("loop spec on %r" % (coll,))
    ctx = vc.ctx
    ks = view.key_sort()
    D = view.dom()
    pre = dict(ctx.heap)
    spec.view = view
    empty = z3.K(ks, z3.BoolVal(False))
    live = not view.is_snapshot
    pre_vars = dict(env.vars)
    for n, f in spec.inv(vc, env, empty, D, pre):
        ctx.prove(f, "%s:init:%s" % (n, spec.name))
    lnames = loop_locals(st)
    carried = [n for n in lnames if n in env.vars and n in spec.locals]
    mod = set(spec.mod)
    for _ in range(4):
        # find out what the body writes
        def body():
            for m in mod:
                vc.havoc(m)
            V = ctx.fresh("V", D.sort())
            for n in carried:
                env.vars[n] = spec.locals[n].fresh(vc, n)
            for n, f in spec.inv(vc, env, V, D, pre):
                ctx.assume(f)
            k = ctx.fresh("k", ks)
            ctx.assume(z3.Select(D, k))
            ctx.assume(z3.Not(z3.Select(V, k)))
            saved = dict(env.vars)
            try:
                vc.assign(st.target, view.elem(k), env)
                if spec.start is not None:
                    spec.start(vc, env, k)
                return drive(vc.exec_block(st.body, env), True)
            finally:
                env.vars.clear()
                env.vars.update(saved)
        w = None
        key = ("written", id(st), spec.name)
        if key in vc.w.memo:
            w = vc.w.memo[key]
        else:
            w = discover_written(vc, body)
            env.vars.clear()
            env.vars.update(pre_vars)
            w = {x for x in w}
        if w <= mod:
            vc.w.memo[key] = w
            break
        mod |= w
    vc.w.memo[("written", id(st), spec.name)] = set(mod)
    for m in sorted(mod):
        vc.havoc(m)
    for n in lnames:
        if n in env.vars and n not in spec.locals:
            # assigned in the loop without an invariant: unknown afterwards
            pass
    for n in carried:
        env.vars[n] = spec.locals[n].fresh(vc, n)
    what = ctx.choose(["iterate", "exit"], "loop %s" % spec.name)
    if what == "exit":
        for n, f in spec.inv(vc, env, D, D, pre):
            ctx.assume(f)
        if spec.done is not None:
            spec.done(vc, env, D, pre)
        for n in lnames:
            if n not in carried:
                env.vars[n] = Poison(n)
        return None
    V = ctx.fresh("V", D.sort())
    for n, f in spec.inv(vc, env, V, D, pre):
        ctx.assume(f)
    k = ctx.fresh("k", ks)
    ctx.assume(z3.Select(D, k))
    ctx.assume(z3.Not(z3.Select(V, k)))
    kv = z3.Const("kv", ks)
    ctx.assume(z3.ForAll([kv], z3.Implies(z3.Select(V, kv),
                                          z3.Select(D, kv)),
                         patterns=[z3.Select(V, kv)]))
    if not ctx.feasible(z3.BoolVal(True)):
        raise PathEnd()
    for n in lnames:
        if n not in carried and n in env.vars:
            env.vars[n] = Poison(n)
    vc.assign(st.target, view.elem(k), env)
    if spec.start is not None:
        spec.start(vc, env, k)
    before_w, ctx.written = ctx.written, set()
    try:
        sig = yield from vc.exec_block(st.body, env)
    finally:
        body_w = ctx.written
        ctx.written = before_w | body_w
    if sig is not None and sig[0] in ("return", "break"):
        return sig
    if not body_w <= mod:
        vc.w.memo[("written", id(st), spec.name)] = mod | body_w
        raise Restart()
    if live:
        ctx.prove(view.dom() == D, "C13:iterated collection not modified:%s"
                  % spec.name)
    V2 = z3.Store(V, k, z3.BoolVal(True))
    spec.view = view
    if spec.step is not None:
        spec.step(vc, env, V, k, pre)
    for n, f in spec.inv(vc, env, V2, D, pre):
        ctx.prove(f, "%s:step:%s" % (n, spec.name))
    raise PathEnd()


def spec_seq(vc, st, env, seq, spec):
    """Loop over a sequence or a range of integers with an invariant; V is
    the index."""
    ctx = vc.ctx
    pre = dict(ctx.heap)
    counted = None
    if isinstance(seq, SEnumerate):
        counted, seq = seq.start, seq.seq
    if isinstance(seq, SymRange):
        frozen = RangeSeq(seq)
        lo = seq.lo
    else:
        n = len(seq.ty.comps())
        frozen = SSeq(vc, ValLoc([seq.loc.get(i) for i in range(n)],
                                 seq.loc), seq.ty)
        lo = z3.IntVal(0)

    def item(p):
        return frozen.at(p) if counted is None else \
            (mkint(z3.simplify(p + TInt().enc(vc, counted)[0])),
             frozen.at(p))
    D = z3.simplify(frozen.ln())
    pre_vars = dict(env.vars)
    for nm, f in spec.inv(vc, env, lo, D, pre):
        ctx.prove(f, "%s:init:%s" % (nm, spec.name))
    lnames = loop_locals(st)
    carried = [x for x in lnames if x in env.vars and x in spec.locals]
    mod = set(spec.mod)
    key = ("written", id(st), spec.name)

    def head(p):
        for m in sorted(mod):
            vc.havoc(m)
        for x in carried:
            env.vars[x] = spec.locals[x].fresh(vc, x)
        for nm, f in spec.inv(vc, env, p, D, pre):
            ctx.assume(f)
    for _ in range(4):
        def body():
            p = ctx.fresh("p", I)
            ctx.assume(z3.And(p >= lo, p < D))
            saved = dict(env.vars)
            try:
                head(p)
                if spec.start is not None:
                    spec.start(vc, env, p)
                vc.assign(st.target, item(p), env)
                return drive(vc.exec_block(st.body, env), True)
            finally:
                env.vars.clear()
                env.vars.update(saved)
        if key in vc.w.memo:
            w = vc.w.memo[key]
        else:
            w = discover_written(vc, body)
            env.vars.clear()
            env.vars.update(pre_vars)
        if w <= mod:
            vc.w.memo[key] = w
            break
        mod |= w
    vc.w.memo[key] = set(mod)
    p = ctx.fresh("p", I)
    what = ctx.choose(["iterate", "exit"], "loop %s" % spec.name)
    if what == "exit":
        head(z3.simplify(z3.If(D >= lo, D, lo)))
        if spec.done is not None:
            spec.done(vc, env, D, pre)
        for x in lnames:
            if x not in carried:
                env.vars[x] = Poison(x)
        return None
    ctx.assume(z3.And(p >= lo, p < D))
    head(p)
    if not ctx.feasible(z3.BoolVal(True)):
        raise PathEnd()
    for x in lnames:
        if x not in carried and x in env.vars:
            env.vars[x] = Poison(x)
    vc.assign(st.target, item(p), env)
    if spec.start is not None:
        spec.start(vc, env, p)
    before_w, ctx.written = ctx.written, set()
    try:
        sig = yield from vc.exec_block(st.body, env)
    finally:
        body_w = ctx.written
        ctx.written = before_w | body_w
    if spec.after is not None:
        for nm, f in spec.after(vc, env, p, sig):
            ctx.prove(f, "%s:iteration:%s" % (nm, spec.name))
    if sig is not None and sig[0] in ("return", "break"):
        return sig
    if not body_w <= mod:
        vc.w.memo[key] = mod | body_w
        raise Restart()
    if spec.step is not None:
        spec.step(vc, env, p, None, pre)
    for nm, f in spec.inv(vc, env, p + 1, D, pre):
        ctx.prove(f, "%s:step:%s" % (nm, spec.name))
    raise PathEnd()


class RangeSeq:
    def __init__(self, r):
        self.r = r

    def ln(self):
        return z3.If(self.r.hi < self.r.lo, self.r.lo, self.r.hi)

    def at(self, p):
        return SInt(p)


def search_for(vc, st, env, coll):
    """A body without side effects that either goes on or leaves the loop."""
    ctx = vc.ctx
    if isinstance(coll, (SSeq, SymRange, SEnumerate)):
        view = SeqView(vc, coll)
    else:
        view = vc.as_view(coll)
    if view is None:
        raise Unsupported("loop over %r" % (coll,))
    ks = view.key_sort()
    k = ctx.fresh("elem", ks)
    before = dict(env.vars)
    names = loop_locals(st)
    inside = view.inside(k) if hasattr(view, "inside") else \
        z3.Select(view.dom(), k)

    def body():
        ctx.assume(inside)
        try:
            vc.assign(st.target, view.elem(k), env)
            sig = drive(vc.exec_block(st.body, env))
            return (sig, dict(env.vars))
        finally:
            env.vars.clear()
            env.vars.update(before)
    res = ctx.sub_explore(body)
    normal = []
    has_leave = False
    for outcome, v, conds, heap, written, fresh in res:
        leave = outcome == "exc" or (v[0] is not None and
                                     v[0][0] in ("return", "break"))
        if leave:
            has_leave = True
            continue
        if written:
            raise Unsupported("loop over %s has side effects and no "
                              "invariant" % view.name())
        after = v[1]
        tgt = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        for n in names:
            if n in before and n not in tgt and after.get(n) is not before[n]:
                if n in _load_names(ast.Module(body=st.body,
                                               type_ignores=[])):
                    raise Unsupported("loop over %s accumulates into %s "
                                      "without an invariant" %
                                      (view.name(), n))
                # written only: its final value is that of some iteration
        conds = [c for c in conds if not mentions(c, fresh)]
        normal.append(z3.And(*conds) if conds else z3.BoolVal(True))
    goes_on = z3.Or(*normal) if normal else z3.BoolVal(False)
    what = "exhausted"
    if has_leave:
        what = ctx.choose(["found", "exhausted"], "search %s" % view.name())
    if what == "found":
        w = ctx.fresh("hit", ks)
        ctx.assume(view.inside(w) if hasattr(view, "inside") else
                   z3.Select(view.dom(), w))
        if hasattr(view, "before"):
            ctx.assume(view.before(k, w, goes_on))
        vc.assign(st.target, view.elem(w), env)
        sig = yield from vc.exec_block(st.body, env)
        if sig is not None and sig[0] in ("return", "break"):
            return sig
        raise PathEnd()
    ctx.assume(z3.ForAll([k], z3.Implies(inside, goes_on),
                         patterns=pats(view, k)))
    for n in names:
        if n not in before:
            env.vars[n] = Poison(n)
        elif any(v[1].get(n) is not before[n] for o, v, *_ in res
                 if o == "ok"):
            flag_value(vc, env, n, before, res, view, inside, k)
    return None


def flag_value(vc, env, n, before, res, view, inside, k):
    """Variable assigned (not read) in the loop body: after the loop it has
    its old value if no iteration assigns it, else one of the values."""
    ctx = vc.ctx
    cases = []
    for o, v, facts, _, _, fresh in res:
        if o != "ok" or (v[0] is not None and v[0][0] in ("return", "break")):
            continue
        val = v[1].get(n)
        n0 = len(facts)
        facts = [c for c in facts if not mentions(c, fresh)]
        exact = len(facts) == n0
        cases.append((z3.And(*facts) if facts else z3.BoolVal(True),
                      val is not before[n], val, exact))
    # goes both ways unless decided: an over-approximation when a condition
    # was weakened
    if ctx.choose(["yes", "no"], "%s assigned in loop" % n) == "yes":
        k2 = ctx.fresh("by", k.sort())
        ctx.assume(z3.substitute(z3.And(inside, z3.Or(
            *[c for c, ch, _, _ in cases if ch])), (k, k2)))
        vals = [val for c, ch, val, _ in cases if ch]
        if all(isinstance(x, (bool, int, str, type(None))) for x in vals) and \
           len(set(vals)) == 1:
            env.vars[n] = vals[0]
        else:
            env.vars[n] = Poison(n)
        return
    if all(exact for _, _, _, exact in cases):
        ctx.assume(z3.ForAll([k], z3.Implies(inside, z3.Or(
            *[c for c, ch, _, _ in cases if not ch])),
            patterns=pats(view, k)))


def pats(view, k):
    if hasattr(view, "pattern"):
        return [view.pattern(k)]
    return sel_patterns(z3.Select(view.dom(), k), k)


class SeqView:
    """Positions of a sequence / an integer range as a search space."""
    is_snapshot = False
    kind = "seq"

    def __init__(self, vc, s):
        self.vc = vc
        self.s = s

    def key_sort(self):
        return I

    def inside(self, k):
        s = self.s
        if isinstance(s, SymRange):
            return z3.And(k >= s.lo, k < s.hi)
        q = s.seq if isinstance(s, SEnumerate) else s
        if not isinstance(q, SSeq):
            raise Unsupported("enumerate of %r" % (q,))
        return z3.And(k >= 0, k < q.ln())

    def pattern(self, k):
        q = self.s.seq if isinstance(self.s, SEnumerate) else self.s
        if isinstance(q, SSeq) and len(q.ty.comps()) > 1:
            return z3.Select(q.loc.get(1), k)
        raise Unsupported("search over an integer range")

    def before(self, k, w, f):
        return z3.ForAll([k], z3.Implies(
            z3.And(self.inside(k), k < w), f), patterns=[self.pattern(k)])

    def elem(self, k):
        s = self.s
        if isinstance(s, SymRange):
            return SInt(k)
        if isinstance(s, SEnumerate):
            return (SInt(k + s.start), s.seq.at(k))
        return s.at(k)

    def name(self):
        return getattr(getattr(self.s, "loc", None), "name", "range")


class WhileSpec:
    """candidates(vc, env): list of (name, formula) over the current locals
    (Houdini-filtered), variants(vc, env): list of z3 Int terms;
    locals: types of the locals to havoc; mod/inv: heap invariant."""
    def __init__(self, name, candidates=None, variants=None, types=None,
                 inv=None, mod=(), on_head=None, term_tag="T", lists=None):
        self.term_tag = term_tag
        self.lists = lists          # lists the loop appends to: havocked
        self.name = name
        self.candidates = candidates or (lambda vc, env: [])
        self.variants = variants
        self.types = types or {}
        self.inv = inv or (lambda vc, env, pre: [])
        self.mod = list(mod)
        self.on_head = on_head


def exec_while(vc, st, env):
    spec = vc.w.while_spec(vc, env, st)
    if spec is not None:
        return (yield from spec_while(vc, st, env, spec))
    n = 0
    undecided = 0
    while True:
        d0 = len(vc.ctx.decisions)
        t = vc.truth(vc.eval(st.test, env))
        test_open = len(vc.ctx.decisions) != d0
        if not t:
            break
        if test_open:
            vc.ctx.weak = "loop at line %d of %s needs an invariant" % (
                st.lineno, env.fname)
        sig = yield from vc.exec_block(st.body, env)
        if sig is not None:
            if sig[0] == "break":
                return None
            if sig[0] == "return":
                return sig
        n += 1
        if test_open:
            undecided += 1
        if n > 600 or undecided > 3 or \
           (test_open is False and len(vc.ctx.decisions) - d0 > 0 and
                n > 40):
            raise Unsupported("loop at line %d of %s needs an invariant" %
                              (st.lineno, env.fname))
    if st.orelse:
        return (yield from vc.exec_block(st.orelse, env))
    return None


def fresh_like(vc, n, v, types):
    if n in types:
        return types[n].fresh(vc, n)
    if isinstance(v, bool) or isinstance(v, SBool):
        return SBool(vc.ctx.fresh(n, B))
    if isinstance(v, (int, SInt)):
        return SInt(vc.ctx.fresh(n, I))
    if isinstance(v, (float, SReal)):
        return SReal(vc.ctx.fresh(n, R))
    if isinstance(v, SOpt):
        return TOpt(v.ty).fresh(vc, n)
    raise Unsupported("loop variable %s of unsupported type %r" % (n, v))


def spec_while(vc, st, env, spec):
    ctx = vc.ctx
    assigned = [n for n in sorted(assigned_names(st.body))]
    carried = [n for n in assigned if n in env.vars]
    pre = dict(ctx.heap)
    for n, f in spec.inv(vc, env, pre):
        ctx.prove(f, "%s:init:%s" % (n, spec.name))
    mod = set(spec.mod)
    before = dict(env.vars)

    cur = {}

    def setup(names_on):
        for m in sorted(mod):
            vc.havoc(m)
        for n in carried:
            env.vars[n] = spec.types[n].fresh(vc, n) if n in spec.types \
                else spec.fresh(vc, n, before[n]) if hasattr(spec, "fresh") \
                else fresh_like(vc, n, before[n], spec.types)
        if spec.lists is not None:
            spec.lists(vc, env, before)
        for n, f in spec.inv(vc, env, pre):
            ctx.assume(f)
        for n, f in spec.candidates(vc, env):
            if n in names_on:
                ctx.assume(f)
        for n in assigned:
            if n not in carried:
                env.vars.pop(n, None)

    key = ("houdini", id(st), spec.name)
    mod |= set(vc.w.memo.get(("more", key), ()))
    if key in vc.w.memo:
        names, mod0, var_i = vc.w.memo[key]
        mod |= mod0
        names = set(names)
        # entry: the recorded candidates must hold here as well
        for n, f in spec.candidates(vc, env):
            if n in names:
                ctx.prove(f, "inv:init:%s:%s" % (spec.name, n))
    else:
        names = {n for n, f in spec.candidates(vc, env) if ctx.entails(f)}
        var_i = None
        for _ in range(60):
            bad = set()
            wr = set()
            nvar = [None]
            claims = [False]

            def one():
                setup(names)
                if spec.on_head is not None:
                    spec.on_head(vc, env)
                vs0 = spec.variants(vc, env) if spec.variants else None
                claims[0] = vs0 is not None
                if not vc.truth(vc.eval(st.test, env)):
                    return "exit"
                sig = drive(vc.exec_block(st.body, env))
                if sig is not None and sig[0] in ("return", "break"):
                    return "exit"
                cs = dict(spec.candidates(vc, env))
                for n in names:
                    if n not in cs or not ctx.entails(cs[n]):
                        bad.add(n)
                if vs0:
                    vs1 = spec.variants(vc, env)
                    ok = {i for i in range(len(vs0))
                          if ctx.entails(z3.And(vs0[i] >= 0,
                                                vs1[i] < vs0[i]))}
                    nvar[0] = ok if nvar[0] is None else nvar[0] & ok
                return "next"
            try:
                for r in ctx.sub_explore(one, limit=500, discover=True):
                    wr |= r[4]
            finally:
                env.vars.clear()
                env.vars.update(before)
            if not bad and wr <= mod:
                var_i = (nvar[0] or set()) if claims[0] else None
                break
            names -= bad
            mod |= wr
        vc.w.memo[key] = (frozenset(names), frozenset(mod), var_i)
        ctx.stats.obligations += len(names)
        ctx.stats.discharged += len(names)
        e = ctx.stats.by_name.setdefault("inv:inductive:%s" % spec.name,
                                         [0, 0])
        e[0] += len(names)
        e[1] += len(names)
    if var_i is not None:
        ctx.prove(z3.BoolVal(len(var_i) > 0),
                  "%s:terminates:%s" % (spec.term_tag, spec.name))
    setup(names)
    if spec.on_head is not None:
        spec.on_head(vc, env)
    vs0 = spec.variants(vc, env) if var_i else None
    if not vc.truth(vc.eval(st.test, env)):
        if st.orelse:
            return (yield from vc.exec_block(st.orelse, env))
        return None
    before_w, ctx.written = ctx.written, set()
    try:
        sig = yield from vc.exec_block(st.body, env)
    finally:
        body_w = ctx.written
        ctx.written = before_w | body_w
    if sig is not None:
        if sig[0] == "break":
            return None
        if sig[0] == "return":
            return sig
    if not body_w <= mod:
        a, b, c = vc.w.memo[key]
        vc.w.memo.pop(key)
        vc.w.memo[("more", key)] = frozenset(
            set(vc.w.memo.get(("more", key), ())) | body_w)
        raise Restart()
    cs = dict(spec.candidates(vc, env))
    for n in sorted(names):
        ctx.prove(cs[n], "inv:step:%s:%s" % (spec.name, n))
    if vs0:
        vs1 = spec.variants(vc, env)
        i = min(var_i)
        ctx.prove(z3.And(vs0[i] >= 0, vs1[i] < vs0[i]),
                  "%s:terminates:%s" % (spec.term_tag, spec.name))
    for n, f in spec.inv(vc, env, pre):
        ctx.prove(f, "%s:step:%s" % (n, spec.name))
    raise PathEnd()
