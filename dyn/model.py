"""Reference model of a service discovery domain, written from the property
statements (not from paf/sd.py)."""

EPS = 1e-6


def freeze(props):
    return frozenset((k, v if isinstance(v, str) else int(v),
                      isinstance(v, str))
                     for k, vs in props.items() for v in vs)


# filter text -> (text or None, independent meaning over frozen properties)
def has(p, k):
    return any(a == k for a, _, _ in p)


FILTERS = [
    (None, lambda p: True),
    ("(a=x)", lambda p: ("a", "x", True) in p),
    ("(!(a=x))", lambda p: ("a", "x", True) not in p),
    ("(n>5)", lambda p: any(k == "n" and not s and v > 5 for k, v, s in p)),
    ("(a=*)", lambda p: has(p, "a")),
    ("(&(a=x)(n<9))", lambda p: ("a", "x", True) in p and any(
        k == "n" and not s and v < 9 for k, v, s in p)),
    ("(|(a=y)(b=*z))", lambda p: ("a", "y", True) in p or any(
        k == "b" and str(v).endswith("z") for k, v, _ in p)),
]

PROPS = [
    {}, {"a": ["x"]}, {"a": ["y"]}, {"a": ["x", "y"], "n": [3]},
    {"n": [7]}, {"n": [6, 12], "b": ["zz"]}, {"b": ["q"], "a": ["x"]},
    {"a": ["x"], "n": [9]},
]


class Model:
    def __init__(self, user_limits, total_limits):
        self.services = {}      # sid -> dict
        self.clients = {}       # connected: cid -> dict(user, uid)
        self.subs = {}          # sub_id -> dict(cid, user, fidx)
        self.user_limits = user_limits      # (clients, subs, services)
        self.total_limits = total_limits
        self.uid = 0

    # -- accounting
    def used(self, rtype, user=None):
        if rtype == 0:
            xs = [c["user"] for c in self.clients.values()]
        elif rtype == 1:
            xs = [s["user"] for s in self.subs.values()]
        else:
            xs = [s["user"] for s in self.services.values()]
        return len([x for x in xs if user is None or x == user])

    def full(self, rtype, user):
        u, t = self.user_limits[rtype], self.total_limits[rtype]
        return (u is not None and self.used(rtype, user) >= u) or \
            (t is not None and self.used(rtype) >= t)

    def record_user(self, cid):
        """The user a known client id belongs to, or None."""
        if cid in self.clients:
            return self.clients[cid]["user"]
        for s in self.services.values():
            if s["cid"] == cid:
                return s["user"]
        return None

    # -- operations: errors that justify a refusal (empty: must succeed)
    def connect_errors(self, cid, user):
        e = set()
        if cid in self.clients:
            return {"exists"} | ({"permission"} if
                                 self.clients[cid]["user"] != user else set())
        ru = self.record_user(cid)
        if ru is not None and ru != user:
            e.add("permission")
        if self.full(0, user):
            e.add("resource")
        return e

    def connect(self, cid, user):
        self.uid += 1
        self.clients[cid] = {"user": user, "uid": self.uid}

    def disconnect(self, cid, now):
        c = self.clients.pop(cid)
        for s in self.services.values():
            if s["cid"] == cid and s["orphan"] is None:
                s["orphan"] = now
        for i in [i for i, s in self.subs.items() if s["cid"] == cid]:
            del self.subs[i]
        return c

    def publish_errors(self, cid, sid, gen, props, ttl):
        user = self.clients[cid]["user"]
        s = self.services.get(sid)
        if s is None:
            return {"resource"} if self.full(2, user) else set()
        e = set()
        if s["user"] != user:
            e.add("permission")
        if gen < s["gen"]:
            e.add("generation")
        if gen == s["gen"] and (freeze(props) != s["props"] or
                                ttl != s["ttl"]):
            e.add("different")
        if s["user"] != user:
            return {"permission"}
        return e

    def publish(self, cid, sid, gen, props, ttl):
        self.services[sid] = {
            "gen": gen, "props": freeze(props), "ttl": ttl, "orphan": None,
            "cid": cid, "user": self.clients[cid]["user"]}

    def unpublish_errors(self, cid, sid):
        s = self.services.get(sid)
        if s is None:
            return {"notfound"}
        if s["user"] != self.clients[cid]["user"]:
            return {"permission"}
        return set()

    def subscribe_errors(self, cid, sub):
        e = set()
        if sub in self.subs:
            e.add("exists")
        if self.full(1, self.clients[cid]["user"]):
            e.add("resource")
        return e

    def subscribe(self, cid, sub, fidx):
        self.subs[sub] = {"cid": cid, "user": self.clients[cid]["user"],
                          "f": fidx}

    def unsubscribe_errors(self, cid, sub):
        s = self.subs.get(sub)
        if s is None:
            return {"notfound"}
        if s["cid"] != cid:
            return {"permission"}
        return set()

    def expire(self, now):
        """Orphans whose time has come."""
        return [i for i, s in self.services.items()
                if s["orphan"] is not None and
                s["orphan"] + s["ttl"] <= now + EPS]

    def lowest_ttl(self, cid):
        ts = [s["ttl"] for s in self.services.values()
              if s["cid"] == cid and s["orphan"] is None]
        return min(ts) if ts else None

    def max_idle(self, cid, lo, hi):
        t = self.lowest_ttl(cid)
        return hi if t is None else min(hi, max(lo, t))

    def visible(self, fidx):
        f = FILTERS[fidx][1]
        return {i: self.content(i) for i, s in self.services.items()
                if f(s["props"])}

    def content(self, sid):
        s = self.services[sid]
        return (s["gen"], s["props"], s["ttl"], s["orphan"], s["cid"])

    def known_clients(self):
        return set(self.clients) | {s["cid"] for s in self.services.values()
                                    if s["orphan"] is not None}
