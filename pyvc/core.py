"""pyvc core: path exploration by re-execution, obligations, solver access.

A unit (one function under contract) is executed symbolically along every
feasible path.  Branch decisions are recorded; the next path re-executes with a
prefix of decisions forced.  Obligations met while still inside the forced
prefix were already discharged on the path that created the prefix (the state
is identical) and are skipped.
"""
import time
import z3


class Unsupported(BaseException):
    """The code left the subset of Python that pyvc gives a semantics to."""


class PathEnd(BaseException):
    """The current path is finished (infeasible, or cut at a loop head)."""


class ProgExc(BaseException):
    """An exception raised by the program under verification."""
    def __init__(self, exc):
        BaseException.__init__(self, repr(exc))
        self.exc = exc


class Budget(BaseException):
    pass


class Restart(BaseException):
    """Something was learnt (a loop's footprint): run the unit again."""


FEAS_RLIMIT = 100000
PROVE_RLIMIT = 4000000
RETRY_RLIMIT = 30000000


class Stats:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.by_name = {}
        self.failures = []
        self.backends = {}
        self.covers = {}


class Failure:
    def __init__(self, unit, name, trace, reason, model):
        self.unit = unit
        self.name = name
        self.trace = trace
        self.reason = reason
        self.model = model

    def text(self):
        s = "obligation %s of %s not discharged: %s\n" % \
            (self.name, self.unit, self.reason)
        s += "path: %s\n" % " ; ".join(self.trace)
        if self.model:
            s += "solver model (values of the inputs along this path):\n%s\n" \
                % self.model
        return s


def mk_solver():
    s = z3.Solver()
    s.set("auto_config", False)
    s.set("smt.mbqi", False)
    s.set("smt.random_seed", 1)
    return s


class Ctx:
    """State of one path."""

    def __init__(self, unit, stats, forced, max_decisions=4000):
        self.unit = unit
        self.stats = stats
        self.forced = forced
        self.pos = 0
        self.decisions = []       # (choice, alternative_open)
        self.solver = mk_solver()
        self.facts = []
        self.conds = []           # branch conditions only
        self.sub_fresh = None
        self.discovering = False
        self.heap = {}
        self.written = set()
        self.ghost = {}
        self.trace = []
        self.counter = {}
        self.axiomatized = set()
        self.escaped = {}
        self.initialised = {}
        self.native_writes = 0
        self.own = {}             # created in the current sub-exploration
        self.max_decisions = max_decisions
        self.sub = 0
        self.weak = None          # inside a loop unrolled without invariant
        self.deadline = None

    # -- naming
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return "%s!%d" % (base, n)

    def fresh(self, base, sort):
        n = self.fresh_name(base)
        if self.sub_fresh is not None:
            self.sub_fresh.add(n)
        return z3.Const(n, sort)

    # -- facts
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        if z3.is_true(f):
            return
        self.facts.append(f)
        self.solver.add(f)

    def replaying(self):
        return self.pos < len(self.forced) and not self.sub

    def _check(self, rlimit, *assumptions):
        t = time.time()
        self.solver.set("rlimit", rlimit)
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        return r

    def feasible(self, f):
        self.solver.push()
        self.solver.add(f)
        r = self._check(FEAS_RLIMIT)
        self.solver.pop()
        return r != z3.unsat

    def entails(self, f):
        """Definitely true here? (used for simplification only)"""
        return not self.feasible(z3.Not(f))

    def branch(self, cond, label=""):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if len(self.decisions) > self.max_decisions:
            raise Unsupported("too many decisions on a path")
        if self.pos < len(self.forced):
            choice = self.forced[self.pos][0]
            alt = False
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if not t and not f:
                raise PathEnd()
            choice = t
            alt = t and f
        self.pos += 1
        self.decisions.append((choice, alt))
        c = cond if choice else z3.Not(cond)
        self.conds.append(c)
        self.assume(c)
        if label or alt:
            self.trace.append("%s%s" % ("" if choice else "not ",
                                        label or short(cond)))
        return choice

    def choose(self, labels, what=""):
        """Non-deterministic choice between labelled alternatives."""
        for lab in labels[:-1]:
            b = self.fresh("choice", z3.BoolSort())
            if self.branch(b, "%s:%s" % (what, lab)):
                return lab
        return labels[-1]

    # -- obligations
    def prove(self, goal, name, lemma=True):
        if isinstance(goal, (list, tuple)):
            for i, g in enumerate(goal):
                self.prove(g, name, lemma)
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_and(goal):
            for g in goal.children():
                self.prove(g, name, lemma)
            return
        if self.replaying():
            if lemma:
                self.assume(goal)
            return
        if self.sub and self.discovering:
            if lemma:
                self.assume(goal)
            return
        if self.sub and z3.is_true(z3.simplify(goal)):
            return
        if self.sub:
            raise Unsupported("obligation inside a sub-exploration")
        st = self.stats
        st.obligations += 1
        e = st.by_name.setdefault(name, [0, 0])
        e[0] += 1
        g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(g):
            st.discharged += 1
            e[1] += 1
            st.backends["simplifier"] = st.backends.get("simplifier", 0) + 1
            return
        # once a name has failed, more of it is not worth the long search
        ok, reason, model = self._discharge(goal, not any(
            f.name == name for f in st.failures))
        if ok:
            st.discharged += 1
            e[1] += 1
            st.backends[reason] = st.backends.get(reason, 0) + 1
        elif self.weak:
            raise Unsupported(self.weak)
        else:
            st.failures.append(Failure(self.unit, name, list(self.trace),
                                       reason, model))
        if lemma or not ok:
            self.assume(goal)

    def _discharge(self, goal, hard=True):
        self.solver.push()
        self.solver.add(z3.Not(goal))
        r = self._check(PROVE_RLIMIT)
        model = None
        if r == z3.sat:
            model = model_text(self.solver.model())
        self.solver.pop()
        if r == z3.unsat:
            return True, "z3", None
        if r == z3.sat:
            return False, "refuted (z3: sat)", model
        # fresh solver, different configurations
        for conf in RETRIES if hard else []:
            s = z3.Solver()
            for k, v in conf.items():
                s.set(k, v)
            s.set("rlimit", RETRY_RLIMIT)
            s.set("timeout", 6000)
            for f in self.facts:
                s.add(f)
            s.add(z3.Not(goal))
            t = time.time()
            r = s.check()
            self.stats.solver_s += time.time() - t
            self.stats.queries += 1
            if r == z3.unsat:
                return True, "z3(retry)", None
            if r == z3.sat:
                return False, "refuted (z3: sat)", model_text(s.model())
        return False, "not provable (z3: unknown)", model

    def created(self, o):
        if self.sub:
            self.own[id(o)] = o
        return o

    # -- snapshots for sub-exploration
    def snapshot(self):
        return (dict(self.heap), set(self.written), dict(self.ghost),
                len(self.facts), self.solver.num_scopes(),
                dict(self.counter), set(self.axiomatized), list(self.trace),
                {k: set(v) for k, v in self.initialised.items()})

    def restore(self, s):
        self.heap, self.written, self.ghost = dict(s[0]), set(s[1]), dict(s[2])
        del self.facts[s[3]:]
        self.counter = dict(s[5])
        self.axiomatized = set(s[6])
        self.trace = list(s[7])
        self.initialised = {k: set(v) for k, v in s[8].items()}

    def sub_explore(self, fn, limit=64, discover=False):
        """Run fn along all of its paths from the current state, without
        leaving any effect; returns [(outcome, value, conds, heap, written,
        fresh)].  outcome: 'ok', 'exc' (value: exception); conds: the branch
        conditions of the path; fresh: names of constants created on it."""
        results = []
        work = [[]]
        saved_forced, saved_pos, saved_dec = \
            self.forced, self.pos, self.decisions
        while work:
            forced = work.pop()
            snap = self.snapshot()
            self.solver.push()
            self.forced, self.pos, self.decisions = forced, 0, []
            self.sub += 1
            nat = self.native_writes
            saved_own, self.own = self.own, {}
            saved_conds, self.conds = self.conds, []
            saved_disc = self.discovering
            self.discovering = discover
            saved_fresh, self.sub_fresh = self.sub_fresh, set()
            try:
                try:
                    v = fn()
                    res = ("ok", v)
                except ProgExc as e:
                    res = ("exc", e.exc)
                except PathEnd:
                    res = ("end", None)
                if self.native_writes != nat:
                    raise Unsupported("native object written in a "
                                      "sub-exploration")
                if res[0] != "end":
                    results.append(res + (list(self.conds), dict(self.heap),
                                          self.written - snap[1],
                                          set(self.sub_fresh)))
                dec = self.decisions
            finally:
                self.sub -= 1
                self.own = saved_own
                self.conds = saved_conds
                self.discovering = saved_disc
                if saved_fresh is not None:
                    saved_fresh |= self.sub_fresh
                self.sub_fresh = saved_fresh
                self.solver.pop()
                self.forced, self.pos, self.decisions = \
                    saved_forced, saved_pos, saved_dec
                cnt = dict(self.counter)
                self.restore(snap)
                self.counter = cnt     # keep names unique
            for i in range(len(dec) - 1, len(forced) - 1, -1):
                if dec[i][1]:
                    work.append([(c, False) for c, _ in dec[:i]] +
                                [(not dec[i][0], False)])
            if len(results) > limit:
                raise Unsupported("too many paths in a loop body")
        return results


RETRIES = [
    {"smt.random_seed": 7, "auto_config": False, "smt.mbqi": False},
    {},
    {"smt.random_seed": 3, "smt.mbqi": True, "smt.mbqi.max_iterations": 50},
]


def mentions(e, names):
    """Does the expression mention a constant with one of these names?"""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
           and x.decl().name() in names:
            return True
        todo.extend(x.children())
    return False


def short(e):
    s = str(e).replace("\n", " ")
    while "  " in s:
        s = s.replace("  ", " ")
    return s if len(s) < 100 else s[:97] + "..."


def model_text(m):
    out = []
    for d in m.decls()[:60]:
        try:
            v = str(m[d]).replace("\n", " ")
        except Exception:
            continue
        if len(v) < 160:
            out.append("  %s = %s" % (d.name(), v))
    return "\n".join(sorted(out))


def explore(unit_name, run, stats, max_paths=4000, deadline=None):
    """run(ctx) executes the unit along one path."""
    work = [[]]
    while work:
        forced = work.pop()
        ctx = Ctx(unit_name, stats, forced)
        ctx.deadline = deadline
        try:
            run(ctx)
        except PathEnd:
            pass
        stats.paths += 1
        dec = ctx.decisions
        for i in range(len(dec) - 1, len(forced) - 1, -1):
            if dec[i][1]:
                work.append([(c, False) for c, _ in dec[:i]] +
                            [(not dec[i][0], False)])
        if stats.paths > max_paths:
            raise Unsupported("too many paths in %s" % unit_name)
    return stats
