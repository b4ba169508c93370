"""Runs units: every function under contract is executed symbolically along
all of its paths and its obligations are discharged."""
import os
import sys
import time
import traceback
import types
import multiprocessing
from . import core, loader
from .core import (Stats, explore, Unsupported, ProgExc, Budget, PathEnd,
                   Restart)
from .interp import VC


class Unit:
    def __init__(self, group, world_cls, contract, props, name=None,
                 contracts=(), time_limit=240, max_paths=4000):
        self.group = group
        self.world_cls = world_cls
        self.contract = contract
        self.props = set(props)
        self.name = name or contract.q
        self.contracts = list(contracts)
        self.time_limit = time_limit
        self.max_paths = max_paths


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.status = "?"       # ok, failed, unsupported, error
        self.reason = ""
        self.obligations = 0
        self.discharged = 0
        self.by_name = {}
        self.failures = []      # (name, text)
        self.backends = {}
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.paths = 0
        self.queries = 0
        self.covers = {}
        self.functions = []
        self.contracts_used = []
        self.props = []


_index = None


def get_index():
    global _index
    if _index is None:
        _index = loader.load_all()
    return _index


def resolve(index, q):
    parts = q.split(".")
    m = index.modules.get(parts[0])
    if m is None:
        return None
    o = m
    for p in parts[1:]:
        if isinstance(o, type):
            o = o.__dict__.get(p)
            if o is None:
                return None
            if isinstance(o, staticmethod):
                o = o.__func__
        else:
            o = getattr(o, p, None)
    return o if isinstance(o, types.FunctionType) else None


def run_unit(unit, time_limit=None):
    r = UnitResult(unit.name)
    r.props = sorted(unit.props)
    t0 = time.time()
    stats = Stats()
    world = None
    gone = []
    try:
        index = get_index()
        world = unit.world_cls(index)
        world.check_representation()
        c = unit.contract
        f = None
        if c.q is not None and not getattr(c, "synthetic", False):
            f = resolve(index, c.q)
            if f is None:
                raise Unsupported("function %s no longer exists (callers are "
                                  "verified with its successor inlined)"
                                  % c.q)
        for cc in unit.contracts:
            if resolve(index, cc.q) is not None:
                world.active_contracts[cc.q] = cc
            else:
                gone.append(cc.q)
        gone += [q for q in world.active_contracts
                 if q.split(".")[0] in index.modules and
                 resolve(index, q) is None]
        c.unit = unit

        def run(ctx):
            vc = VC(world, ctx)
            c.verify(vc, f)
        for _ in range(12):
            try:
                explore(unit.name, run, stats, unit.max_paths,
                        deadline=t0 + (time_limit or unit.time_limit))
                break
            except Restart:
                stats = Stats()
        else:
            raise Unsupported("loop footprints do not settle")
        r.status = "failed" if stats.failures else "ok"
    except Unsupported as e:
        r.status, r.reason = "unsupported", str(e)
    except Budget:
        r.status, r.reason = "unsupported", "time budget exceeded"
    except ProgExc as e:
        r.status, r.reason = "unsupported", \
            "unexpected program exception in a specification: %r" % (e.exc,)
    except PathEnd:
        r.status, r.reason = "unsupported", "path ended outside exploration"
    except RecursionError:
        r.status, r.reason = "unsupported", "recursion limit"
    except Exception:
        r.status, r.reason = "error", traceback.format_exc()[-1500:]
    if r.status == "failed" and gone:
        # a callee this unit knows by its contract was renamed or inlined:
        # its successor ran in its place, and nothing is known of that
        r.status = "unsupported"
        r.reason = "contracts without a function: %s; not accepted: %s" % (
            sorted(set(gone)), sorted(set(f.name for f in stats.failures))[:3])
        stats.failures = []
    r.obligations = stats.obligations
    r.discharged = stats.discharged
    r.by_name = stats.by_name
    r.failures = [(f.name, f.text()) for f in stats.failures]
    r.backends = stats.backends
    r.solver_s = round(stats.solver_s, 3)
    r.wall_s = round(time.time() - t0, 3)
    r.paths = stats.paths
    r.queries = stats.queries
    r.covers = stats.covers
    if world is not None:
        r.functions = sorted(world.functions)
        r.contracts_used = sorted(world.active_contracts)
    if r.status == "ok":
        if r.obligations == 0:
            r.status, r.reason = "error", "no obligation was generated"
        else:
            need = getattr(unit.contract, "covers", None)
            if need is None and getattr(unit.contract, "outcomes", None):
                need = ["%s:%s" % (unit.contract.q, o.label)
                        for o in unit.contract.outcomes]
            miss = [n for n in (need or []) if not r.covers.get(n)]
            if miss:
                r.status, r.reason = "vacuous", "never reached: %s" % miss
    return r


def _job(args):
    unit, tl = args
    sys.setrecursionlimit(20000)
    return run_unit(unit, tl)


_units = None


def _pool_job(i):
    unit, tl = _units[i]
    sys.setrecursionlimit(20000)
    import threading
    out = []

    def go():
        out.append(run_unit(unit, tl))
    threading.stack_size(256 * 1024 * 1024)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    if not out:
        r = UnitResult(unit.name)
        r.status, r.reason = "error", "worker thread died"
        return r
    return out[0]


def run_units(units, jobs=8, time_limit=None):
    """All units, in parallel processes (forked: nothing is pickled but the
    results)."""
    global _units
    get_index()
    _units = [(u, time_limit) for u in units]
    ctx = multiprocessing.get_context("fork")
    results = [None] * len(units)
    with ctx.Pool(min(jobs, max(1, len(units))), maxtasksperchild=1) as pool:
        for i, r in enumerate(pool.imap(_pool_job, range(len(units)),
                                        chunksize=1)):
            results[i] = r
    return results
