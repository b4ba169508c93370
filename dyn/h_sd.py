"""ServiceDiscovery against the reference model: histories of connects,
disconnects, publishes, takeovers, subscriptions and time."""
from .base import *
from . import model as M

ERR = [("exists", "AlreadyExistsError"), ("permission", "PermissionError"),
       ("resource", "ResourceError"), ("generation", "GenerationError"),
       ("different", "SameGenerationButDifferentError"),
       ("notfound", "NotFoundError")]


class Stop(Exception):
    """A mismatch that another property's check reports."""


class SdHarness(Harness):
    name = "sd-histories"
    rule = "random histories (up to 40 steps) over 4 client ids, 2 users, " \
        "4 services, 4 subscriptions, resource limits, idle and orphan " \
        "expiry, compared with a reference model after every step; " \
        "non-trivial: some service was published"
    NC, NS, NSUB = 4, 4, 4

    def need(self, tags, cond, *msg):
        if not cond:
            if self.prop in tags.split(","):
                raise Violation(" ".join(str(m) for m in msg))
            raise Stop()

    # ---- generation
    def gen(self, rng):
        lim = lambda p: rng.choice([0, 1, 1, 2, 3]) if rng.random() < p \
            else None
        p = rng.choice([0, 0, 0.4, 0.8])
        lo = rng.choice([1, 2, 4])
        ops = []
        focus = rng.random()
        ns = rng.choice([1, 2, self.NS])
        nc = rng.choice([2, 3, self.NC])
        other = rng.choice([0.1, 0.2, 0.5])
        for _ in range(rng.randint(4, 40)):
            c = rng.randrange(nc)
            r = rng.random()
            if r < 0.16:
                ops.append(["con", c, 1 if rng.random() < other else 0])
            elif r < 0.26:
                ops.append(["dis", c])
            elif r < 0.54:
                ops.append(["pub", c, rng.randrange(ns),
                            rng.choice([0, 0, 0, 1, 1, 2, -1]),
                            rng.choice([-1, -1] + list(range(len(M.PROPS)))),
                            rng.choice([-1, -1, -1, 0, 1, 2, 5, 20, 40])])
            elif r < 0.64:
                ops.append(["unp", c, rng.randrange(ns)])
            elif r < 0.76:
                ops.append(["sub", c, rng.randrange(self.NSUB),
                            rng.randrange(len(M.FILTERS))])
            elif r < 0.82:
                ops.append(["uns", c, rng.randrange(self.NSUB)])
            elif r < 0.88:
                ops.append(["act", c])
            elif r < 0.97:
                ops.append([rng.choice(["adv", "adv", "jmp"]),
                            rng.choice([0.25, 1, 1, 2, 5, 10, 40])
                            if focus < 0.7 else rng.choice([0.25, 0.5])])
            else:
                ops.append(["lst", rng.randrange(len(M.FILTERS))])
        return {"ul": [lim(p), lim(p), lim(p)], "tl": [lim(p / 2), lim(p / 2),
                                                       lim(p / 2)],
                "idle": [lo, rng.choice([lo, lo + 4, 30, 100])],
                "rnd": rng.randrange(1 << 30),
                "quiet": rng.random() < 0.5, "ops": ops}

    def fixed(self):
        base_ = {"ul": [None] * 3, "tl": [None] * 3, "idle": [4, 30],
                 "rnd": 1, "quiet": True}

        def c(*ops, **kw):
            return dict(base_, ops=[list(o) for o in ops], **kw)
        return [
            c(("con", 0, 0), ("con", 1, 0), ("sub", 1, 0, 0),
              ("pub", 0, 0, 1, 1, 5), ("pub", 0, 1, 1, 2, 20), ("dis", 0),
              ("con", 0, 0), ("pub", 0, 0, 0, -1, -1), ("dis", 0),
              ("adv", 5), ("adv", 40)),
            c(("con", 0, 0), ("con", 1, 0), ("con", 2, 0),
              ("sub", 2, 0, 0), ("pub", 0, 0, 1, 1, 5), ("dis", 0),
              ("adv", 1), ("pub", 1, 0, 0, -1, -1), ("adv", 10),
              ("dis", 1), ("adv", 2), ("pub", 2, 0, 1, 2, 2), ("adv", 40)),
            c(("con", 0, 0), ("con", 3, 0), ("sub", 3, 1, 1),
              ("pub", 0, 0, 1, 1, 20), ("pub", 0, 0, 1, 2, 20),
              ("pub", 0, 0, 1, 1, 2), ("dis", 0), ("adv", 1), ("con", 0, 0),
              ("pub", 0, 0, 1, 1, 40), ("dis", 0), ("adv", 2), ("adv", 40)),
            c(("con", 0, 0), ("con", 1, 0), ("pub", 0, 0, 1, 1, 40),
              ("pub", 0, 1, 1, 1, 40), ("pub", 0, 2, 1, 1, 40), ("dis", 0),
              ("con", 2, 0), ("unp", 2, 0), ("pub", 2, 1, 1, 1, 40),
              ("adv", 40), ("con", 0, 1)),
            c(("con", 0, 0), ("pub", 0, 0, 1, 1, 40), ("dis", 0),
              ("adv", 1), ("con", 0, 0), ("pub", 0, 1, 1, 1, 40), ("dis", 0),
              ("adv", 1), ("con", 0, 1), ("pub", 0, 2, 1, 1, 40), ("dis", 0),
              ("adv", 1), ("con", 0, 0), ("dis", 0), ("con", 0, 1)),
            c(("con", 0, 0), ("sub", 0, 0, 0), ("sub", 0, 0, 0),
              ("sub", 0, 1, 1), ("uns", 0, 0), ("pub", 0, 0, 1, 1, 5),
              ("sub", 0, 0, 3), ("dis", 0), ("con", 0, 0), ("sub", 0, 0, 0),
              ("sub", 0, 1, 0), ul=[1, 2, 1]),
        ]

    def nontrivial(self, case):
        return any(o[0] == "pub" for o in case["ops"])

    # ---- execution
    def run(self, case):
        self.clk = Clock(1000.0)
        import random as R
        st = R.getstate()
        R.seed(case["rnd"])
        self.clk.install()
        try:
            self.start(case)
            for n, op in enumerate(case["ops"]):
                self.where = "step %d %s:" % (n, op)
                try:
                    self.step(op)
                except (Violation, Stop, Hang):
                    raise
                except RecursionError as e:
                    self.need("C13", False, self.where, "RecursionError")
                except Exception as e:
                    if not blame(e):
                        raise
                    self.need("C01,C02,C03,C04,C05,C06,C07,C08,C16", False,
                              self.where, "unexpected",
                              type(e).__name__, e)
                self.sane()
        except Stop:
            pass
        finally:
            self.clk.uninstall()
            R.setstate(st)

    def start(self, case):
        S = self.m["sd"]
        self.S = S
        self.F = self.m["filter"]
        self.tm = self.m["timer"].TimerManager()
        ul, tl = case["ul"], case["tl"]
        self.sd = S.ServiceDiscovery(
            None, self.tm, S.resources(*ul), S.resources(*tl))
        self.mod = M.Model(ul, tl)
        self.idle = case["idle"]
        self.limit = S.IdleLimit(*case["idle"])
        self.quiet = case["quiet"]
        self.views = {}        # sub_id -> {sid: content}
        self.live = {}         # sub_id -> token of the live subscription
        self.events = []
        self.idle_st = {}      # cid -> dict
        self.where = ""
        self.in_op = None
        self.seen_gen = {}

    def content(self, s, prev=False):
        g = (lambda n: getattr(s, ("prev_" if prev else "") + n)())
        return (g("generation"), M.freeze(g("props")), g("ttl"),
                g("orphan_since"), g("client_id"))

    def match_cb(self, token):
        def cb(sub_id, mtype, service):
            t, sub = token
            self.need("C06,C05", self.live.get(sub) is token, self.where,
                      "notification for subscription", sub, "after it ended")
            self.need("C05,C06", sub_id == sub, self.where, "notification "
                      "carries subscription id", sub_id, "instead of", sub)
            self.need("C06", token[0]["active"], self.where,
                      "notification before the subscription is accepted")
            v = self.views[sub]
            sid = service.service_id
            ev = (sub, sid, mtype.name)
            self.events.append(ev)
            if mtype.name == "APPEARED":
                self.need("C05,C06", sid not in v, self.where, "service", sid,
                          "appeared twice for subscription", sub)
                v[sid] = self.content(service)
            elif mtype.name == "MODIFIED":
                self.need("C05", sid in v, self.where, "service", sid,
                          "modified for subscription", sub,
                          "though never shown")
                v[sid] = self.content(service)
            else:
                self.need("C05", sid in v, self.where, "service", sid,
                          "disappeared for subscription", sub,
                          "though not visible")
                del v[sid]
        return cb

    def idle_cb(self, cid, uid):
        def cb(client, warning):
            self.need("C16", client.client_id == cid, self.where,
                      "idle callback for the wrong client")
            st = self.idle_st.get(cid)
            self.need("C16", st is not None and st["uid"] == uid, self.where,
                      "idle callback for client", cid, "not connected")
            now = self.clk.t
            if warning:
                self.need("C16", st["state"] == "active", self.where,
                          "second idle warning without traffic in between")
                self.need("C16", self.forced == cid or
                          now >= st["t0"] + 0.45 * st["max"] - M.EPS,
                          self.where, "idle warning for client", cid, "after",
                          now - st["t0"], "s, max idle time is", st["max"])
                st["state"] = "tentative"
                st["due"] = now + 0.5 * self.mod.max_idle(cid, *self.idle)
            else:
                self.need("C16", st["state"] == "tentative" and
                          now >= st["due"] - M.EPS, self.where,
                          "client", cid, "timed out too early or unwarned")
                self.sd.client_disconnect(cid)
                self.do_disconnect(cid)
        return cb

    forced = None

    def touch(self, cid):
        st = self.idle_st[cid]
        st["state"] = "active"
        st["t0"] = self.clk.t
        st["max"] = self.mod.max_idle(cid, *self.idle)

    def do_disconnect(self, cid):
        for i, s in self.mod.subs.items():
            if s["cid"] == cid:
                self.live.pop(i, None)
        self.mod.disconnect(cid, self.clk.t)
        self.idle_st.pop(cid)

    def attempt_op(self, tags, errors, fun, changed=()):
        """Calls the real operation; returns True if it succeeded."""
        before = self.timers() if errors else None
        try:
            fun()
            got = None
        except self.S.Error as e:
            got = [n for n, c in ERR
                   if isinstance(e, getattr(self.S, c, ()))]
            if not got:
                got = [type(e).__name__]
            why = e
        kinds = set(errors) | set(got or [])
        by = {"generation": "C03", "different": "C03", "resource": "C07",
              "permission": "C04",
              "exists": "C06" if tags == "sub" else "C04,C08,C15",
              "notfound": "C06" if tags == "sub" else "C03,C01"}
        tags = ",".join(by.get(x, "C03,C04,C06,C07,C08") for x in kinds)
        if got is None:
            self.need(tags, not errors, self.where, "succeeded although it "
                      "should be refused:", sorted(errors))
            return True
        self.need(tags, bool(errors), self.where,
                  "refused:", type(why).__name__, why)
        self.need(tags, set(got) & errors, self.where, "refused as",
                  type(why).__name__, "instead of one of", sorted(errors))
        if self.forced is None:
            self.need("C03,C04,C07", self.timers() == before, self.where,
                      "a refused request changed the timers")
        return False

    def timers(self):
        return [t.expiration_time for t in list(self.tm)]

    def visible_change(self, sid, fun):
        """Runs fun and checks how often each subscription is told."""

    def step(self, op):
        k = op[0]
        m = self.mod
        self.events = []
        self.change = None
        cid = op[1] if k not in ("adv", "jmp", "lst") else None
        if k == "con":
            user = ["u0", "u1"][op[2]]
            errs = m.connect_errors(cid, user)
            if cid in m.clients:
                self.forced = cid
                was = self.idle_st[cid]["state"]
            ok = None
            try:
                ok = self.attempt_op(
                    "con", errs, lambda: self.sd.client_connect(
                        cid, user, self.limit,
                        self.idle_cb(cid, m.uid + 1)))
            finally:
                self.forced = None
            if ok:
                m.connect(cid, user)
                self.idle_st[cid] = {"uid": m.uid}
                self.touch(cid)
        elif k == "dis":
            if cid in m.clients:
                self.live_before = dict(self.live)
                self.pre()
                for i, s in m.subs.items():
                    if s["cid"] == cid:
                        self.live.pop(i, None)
                self.sd.client_disconnect(cid)
                self.do_disconnect(cid)
                self.post(1)
            else:
                # a known but unconnected client is never disconnected
                return
        elif k == "act":
            if cid in m.clients:
                self.sd.client_active(cid)
                self.touch(cid)
        elif cid is not None and cid not in m.clients:
            return
        elif k == "pub":
            sid = op[2]
            s = m.services.get(sid)
            gen = (s["gen"] if s else 3) + op[3]
            ttl = op[5]
            props = dict(M.PROPS[op[4]]) if op[4] >= 0 else None
            if s is not None and op[4] < 0:
                props = {}
                for a, v, isstr in s["props"]:
                    props.setdefault(a, []).append(v)
            if props is None:
                props = {}
            props = {a: set(v) for a, v in props.items()}
            if ttl < 0:
                ttl = s["ttl"] if s else 5
            if gen < 0:
                return
            errs = m.publish_errors(cid, sid, gen, props, ttl)
            self.pre()
            old = m.content(sid) if s else None
            if self.attempt_op("pub", errs, lambda: self.sd.publish(
                    cid, sid, gen, props, ttl)):
                m.publish(cid, sid, gen, props, ttl)
                self.touch(cid)
                self.post(1 if old is None or old != m.content(sid) else 0,
                          sid)
            else:
                self.post(0)
        elif k == "unp":
            sid = op[2]
            errs = m.unpublish_errors(cid, sid)
            self.pre()
            if self.attempt_op("pub", errs, lambda: self.sd.unpublish(
                    cid, sid)):
                del m.services[sid]
                self.touch(cid)
                self.post(2, sid)
            else:
                self.post(0)
        elif k == "sub":
            sub, f = op[2], op[3]
            errs = m.subscribe_errors(cid, sub)
            text = M.FILTERS[f][0]
            flt = self.F.parse(text) if text is not None else None
            tok = ({"active": False}, sub)
            old = self.live.get(sub)
            if self.attempt_op(
                    "sub", errs, lambda: self.sd.create_subscription(
                        cid, sub, flt, self.match_cb(tok))):
                m.subscribe(cid, sub, f)
                self.live[sub] = tok
                self.views[sub] = {}
                tok[0]["active"] = True
                self.events = []
                self.sd.activate_subscription(cid, sub)
                self.need("C06,C05", all(e[0] == sub and e[2] == "APPEARED"
                                         for e in self.events), self.where,
                          "activation reported", self.events)
                want = m.visible(f)
                self.need("C06,C05", set(self.views[sub]) == set(want),
                          self.where, "activation showed services",
                          sorted(self.views[sub]), "but", sorted(want),
                          "match")
            else:
                self.need("C06", self.live.get(sub) is old, self.where,
                          "a refused subscription took effect")
        elif k == "uns":
            sub = op[2]
            errs = m.unsubscribe_errors(cid, sub)
            if self.attempt_op("sub", errs, lambda: self.sd.unsubscribe(
                    cid, sub)):
                del m.subs[sub]
                del self.live[sub]
        elif k in ("adv", "jmp"):
            self.advance(op[1], k == "jmp")
        elif k == "lst":
            text, f = M.FILTERS[op[1]]
            flt = self.F.parse(text) if text is not None else None
            got = sorted(s.service_id for s in self.sd.get_services()
                         if flt is None or flt.match(s.props()))
            self.need("C22", got == sorted(m.visible(op[1])), self.where,
                      "listing with filter", text, "gives", got)

    def pre(self):
        self.events = []
        self.before = {i: m_ for i, m_ in ((i, dict(v)) for i, v in
                                           self.views.items())}

    def post(self, most, sid=None):
        cnt = {}
        for sub, s, t in self.events:
            if sid is not None:
                self.need("C05", s == sid, self.where, "subscription", sub,
                          "was told about service", s)
            cnt.setdefault((sub, s), []).append(t)
        for (sub, s), ts in cnt.items():
            self.need("C05,C03", len(ts) <= most, self.where, "subscription",
                      sub, "was told", ts, "about service", s)

    def advance(self, dt, jump):
        m = self.mod
        end = self.clk.t + dt
        for _ in range(400):
            if self.quiet:
                # live clients keep talking
                for c in list(m.clients):
                    st = self.idle_st[c]
                    if not jump and self.clk.t - st["t0"] >= 0.3 * st["max"]:
                        self.sd.client_active(c)
                        self.touch(c)
            nt = self.tm.next_timeout()
            step_to = end
            if self.quiet and not jump and m.clients:
                step_to = min(end, self.clk.t + 0.3 * min(
                    self.idle_st[c]["max"] for c in m.clients))
            t = end if jump else min(step_to, nt) if nt is not None \
                else step_to
            self.clk.t = max(self.clk.t, t)
            self.expiring()
            self.tm.process()
            self.sane()
            if self.clk.t >= end:
                nt = self.tm.next_timeout()
                if nt is None or nt > self.clk.t:
                    break
        else:
            self.need("C16,C02,C11", False, self.where,
                      "timers keep firing without time passing")

    def expiring(self):
        """Called before timers are processed: the model's expiries."""
        self.pending_exp = True

    # ---- comparison after every step
    def sane(self):
        m = self.mod
        now = self.clk.t
        w = self.where
        # orphan expiry
        real = {s.service_id: s for s in self.sd.get_services()}
        due = set(m.expire(now)) if getattr(self, "pending_exp", False) \
            else set()
        if getattr(self, "pending_exp", False):
            for sid in due:
                self.need("C02,C01", sid not in real, w, "orphan", sid,
                          "was not removed at", m.services[sid]["orphan"],
                          "+", m.services[sid]["ttl"])
                del m.services[sid]
            self.pending_exp = False
        self.need("C01,C02,C03", set(real) == set(m.services), w,
                  "published services are", sorted(real), "but should be",
                  sorted(m.services))
        for sid, s in real.items():
            got, want = self.content(s), m.content(sid)
            self.need("C01,C02,C03" if got[3] != want[3] else "C01,C03,C04",
                      got == want, w, "service", sid, "is",
                      self.show(got), "but should be", self.show(want))
            self.need("C04", s.user_id() == m.services[sid]["user"], w,
                      "service", sid, "belongs to user", s.user_id())
            self.need("C22", s.service_id == sid, w, "service id")
        n = len(list(self.sd.get_services()))
        self.need("C22,C01", n == len(real), w, "a service is listed twice")
        # views
        for sub, x in m.subs.items():
            want = m.visible(x["f"])
            v = self.views[sub]
            for sid in set(v) | set(want):
                self.need("C05", v.get(sid) == want.get(sid), w,
                          "subscription", sub, "was told service", sid,
                          "is", self.show(v.get(sid)), "but it is",
                          self.show(want.get(sid)))
        subs = {s.sub_id: s for s in self.sd.get_subscriptions()}
        self.need("C06,C22", set(subs) == set(m.subs), w,
                  "subscriptions are", sorted(subs), "but should be",
                  sorted(m.subs))
        for i, s in subs.items():
            self.need("C22,C04", s.client_id == m.subs[i]["cid"], w,
                      "subscription", i, "belongs to client", s.client_id)
        # client records
        known = m.known_clients()
        for c in range(self.NC):
            self.need("C08", self.sd.has_client(c) == (c in known), w,
                      "client", c, "known:", self.sd.has_client(c),
                      "although", "connected" if c in m.clients else
                      "owner of orphans" if c in known else
                      "neither connected nor owner of an orphan")
        self.internals()
        # timers
        exps = sorted(self.timers())
        self.need("C02,C16,C11",
                  self.tm.next_timeout() == (exps[0] if exps else None), w,
                  "next timeout is not the first timer")
        for sid, s in m.services.items():
            if s["orphan"] is not None:
                t = s["orphan"] + s["ttl"]
                hit = [e for e in exps if abs(e - t) < M.EPS]
                self.need("C02", hit, w, "no expiry pending at", t,
                          "for orphan", sid)
                exps.remove(hit[0])
        wins = []
        for c, st in self.idle_st.items():
            if st["state"] == "tentative":
                wins.append((st["due"], st["due"]))
            else:
                wins.append((st["t0"] + 0.45 * st["max"],
                             st["t0"] + 0.55 * st["max"]))
        self.need("C02,C16" if len(exps) > len(wins) else "C16",
                  len(exps) == len(wins), w, len(exps), "timers pending "
                  "besides those of the orphans, for", len(wins),
                  "connected clients")
        wins.sort(key=lambda x: x[1])
        for lo, hi in wins:
            hit = [e for e in exps if lo - M.EPS <= e <= hi + M.EPS]
            self.need("C16", hit, w, "no idle timer within", (lo, hi),
                      "pending:", exps)
            exps.remove(min(hit))
        for c in m.clients:
            st = self.idle_st[c]
            ls = self.sd.client_last_seen(c)
            self.need("C16,C22", st["state"] != "active" or
                      abs(ls - st["t0"]) < M.EPS, w, "client", c,
                      "last seen", ls, "but was active at", st["t0"])

    def show(self, c):
        if c is None:
            return "absent"
        return "gen %s props %s ttl %s orphan_since %s client %s" % (
            c[0], sorted(map(str, c[1])), c[2], c[3], c[4])

    def internals(self):
        """Accounting and structure, where the attributes still exist."""
        m = self.mod
        w = self.where
        rm = getattr(self.sd, "resource_manager", None)
        types = list(self.S.ResourceType)
        if rm is not None and hasattr(rm, "total"):
            for i, t in enumerate(types):
                self.need("C07", rm.total(t) == m.used(i), w, "accounted",
                          t.name, "total is", rm.total(t), "but",
                          m.used(i), "exist")
        cons = getattr(rm, "consumers", None)
        if isinstance(cons, dict):
            users = {u for i in range(3) for u in ("u0", "u1")
                     if m.used(i, u)}
            self.need("C08,C07", set(cons) == users, w,
                      "accounting kept for users", sorted(cons),
                      "but resources are held by", sorted(users))
            for u, c in cons.items():
                r = getattr(c, "used_resources", None)
                if isinstance(r, dict):
                    for i, t in enumerate(types):
                        self.need("C07", r[t] == m.used(i, u), w, "user", u,
                                  "is accounted", r[t], t.name, "but has",
                                  m.used(i, u))
        db = getattr(self.sd, "db", None)
        cl = getattr(db, "clients", None)
        if isinstance(cl, dict):
            self.need("C08", set(cl) == m.known_clients(), w,
                      "client records", sorted(cl))
            holders = {}
            for c in cl.values():
                for i, conn in enumerate(list(c.get_connections())):
                    sv = getattr(conn, "services", None)
                    if sv is None:
                        return
                    self.need("C08", conn.is_connected() or len(sv) > 0, w,
                              "an ended connection without services is kept "
                              "for client", c.client_id)
                    for s in sv:
                        holders.setdefault(s, []).append(
                            (c.client_id, conn.is_connected()))
            for sid, s in m.services.items():
                want = [(s["cid"], s["orphan"] is None)]
                self.need("C01", holders.get(sid) == want, w, "service", sid,
                          "is held by", holders.get(sid), "instead of", want)
            self.need("C01,C08", set(holders) <= set(m.services), w,
                      "connections hold unpublished services")


class LimitHarness(SdHarness):
    name = "sd-limits"
    rule = "short histories with tight limits; non-trivial: as above"

    def gen(self, rng):
        c = SdHarness.gen(self, rng)
        for k in ("ul", "tl"):
            c[k] = [rng.choice([None, 0, 1, 2]) for _ in range(3)]
        if all(x is None or x > 0 for x in c["ul"][:1] + c["tl"][:1]):
            return c
        return c


H = [SdHarness]
HARNESSES = {p: H for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C08",
                            "C16", "C22")}
HARNESSES["C07"] = [SdHarness, LimitHarness]
