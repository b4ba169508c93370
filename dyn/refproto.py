"""Reference for the wire protocol, written from the protocol's description."""
import json
import math

INT, STR, NUM, PROPS = "int", "str", "num", "props"
F = {"client-id": INT, "protocol-minimum-version": INT,
     "protocol-maximum-version": INT, "protocol-version": INT,
     "track-type": STR, "subscription-id": INT, "filter": STR,
     "match-type": STR, "service-id": INT, "generation": INT,
     "service-props": PROPS, "ttl": INT, "orphan-since": NUM,
     "client-address": STR, "time": INT, "idle": NUM, "latency": NUM,
     "fail-reason": STR}
SINGLE, MULTI, TWO = 1, 2, 3
TYPES = ("request", "accept", "notify", "inform", "complete", "fail")


def _t(ia, req=(), oreq=(), notify=(), onotify=(), inform=(), complete=()):
    d = {k: ((), ()) for k in TYPES}
    d["request"] = (req, oreq)
    d["notify"] = (notify, onotify)
    d["inform"] = (inform, ())
    d["complete"] = (complete, ())
    d["fail"] = ((), ("fail-reason",))
    return ia, d


_COMMON = {
    "hello": _t(SINGLE, ("client-id", "protocol-minimum-version",
                         "protocol-maximum-version"),
                complete=("protocol-version",)),
    "subscribe": _t(MULTI, ("subscription-id",), ("filter",),
                    ("match-type", "service-id"),
                    ("generation", "service-props", "ttl", "client-id",
                     "orphan-since")),
    "unsubscribe": _t(SINGLE, ("subscription-id",)),
    "subscriptions": _t(MULTI, notify=("subscription-id", "client-id"),
                        onotify=("filter",)),
    "services": _t(MULTI, (), ("filter",),
                   ("service-id", "generation", "service-props", "ttl",
                    "client-id"), ("orphan-since",)),
    "publish": _t(SINGLE, ("service-id", "generation", "service-props",
                           "ttl")),
    "unpublish": _t(SINGLE, ("service-id",)),
    "ping": _t(SINGLE),
}
SPEC = {
    2: dict(_COMMON, clients=_t(MULTI, notify=("client-id", "client-address",
                                               "time"))),
    3: dict(_COMMON, clients=_t(MULTI, notify=(
        "client-id", "client-address", "time", "idle", "protocol-version"),
        onotify=("latency",)),
        track=_t(TWO, notify=("track-type",), inform=("track-type",))),
}


def is_int(v):
    return type(v) is int


def field_ok(kind, v):
    if kind == INT:
        return is_int(v) and 0 <= v < 2 ** 63
    if kind == STR:
        return type(v) is str
    if kind == NUM:
        return type(v) in (int, float) and not v < 0
    if type(v) is not dict:
        return False
    return all(type(vs) is list and all(type(x) in (int, str) for x in vs)
               for vs in v.values())


def norm_props(v):
    return {k: set(vs) for k, vs in v.items() if len(vs) > 0}


def parse(version, data):
    """None, or (cmd, ta_id, type, args, optargs) with normalised props."""
    if version is None:
        version = 2
    try:
        m = json.loads(data.decode("utf-8"))
    except (ValueError, RecursionError):
        return None
    if type(m) is not dict:
        return None
    cmd, ta, typ = m.get("ta-cmd"), m.get("ta-id"), m.get("msg-type")
    if not field_ok(STR, cmd) or not field_ok(INT, ta) or \
       not field_ok(STR, typ):
        return None
    if cmd not in SPEC[version] or typ not in TYPES:
        return None
    req, opt = SPEC[version][cmd][1][typ]
    rest = {k: v for k, v in m.items()
            if k not in ("ta-cmd", "ta-id", "msg-type")}
    args, oargs = [], {}
    for f in req:
        if f not in rest or not field_ok(F[f], rest[f]):
            return None
        v = rest.pop(f)
        args.append(norm_props(v) if F[f] == PROPS else v)
    for f in opt:
        if f in rest:
            if not field_ok(F[f], rest[f]):
                return None
            v = rest.pop(f)
            oargs[f.replace("-", "_")] = norm_props(v) if F[f] == PROPS else v
    if rest:
        return None
    return cmd, ta, typ, args, oargs


def same(a, b):
    """Equality that tells 1 from True and treats nan as itself."""
    if type(a) is float and type(b) is float and math.isnan(a):
        return math.isnan(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return {(type(x), x) for x in a} == {(type(x), x) for x in b}
    return type(a) is type(b) and a == b


# ---- generation of messages
def rand_str(rng):
    return rng.choice(["", "a", "name", "\u00e5", "\u2603", "\n", "\"", "\\",
                       "-1", "1", "(a=x)", "x" * 50, "\ud800", "\x00",
                       "query", "reply", "appeared", "\U0001f600"])


def rand_int(rng):
    return rng.choice([0, 1, 2, 3, 7, 42, 2 ** 31, 2 ** 32, 2 ** 53 + 1,
                       2 ** 63 - 1])


def rand_value(rng, kind):
    if kind == INT:
        return rand_int(rng)
    if kind == STR:
        return rand_str(rng)
    if kind == NUM:
        return rng.choice([0, 1, 0.5, 1e300, 5e-324, 12345.678, 2 ** 70, 3.0])
    d = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        d[rand_str(rng)] = [rng.choice([rand_str(rng), rand_int(rng), -5,
                                        -2 ** 70, 2 ** 64])
                            for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < .03:
        d["many"] = ["v%d" % i for i in range(rng.choice([40, 130, 300]))]
    if rng.random() < .03:
        d.update(("k%d" % i, [i]) for i in range(rng.choice([40, 130, 300])))
    return d


def rand_msg(rng, version, cmd=None, typ=None):
    cmd = cmd or rng.choice(sorted(SPEC[version]))
    typ = typ or rng.choice(TYPES)
    req, opt = SPEC[version][cmd][1][typ]
    m = {"ta-cmd": cmd, "ta-id": rand_int(rng), "msg-type": typ}
    for f in req:
        m[f] = rand_value(rng, F[f])
    for f in opt:
        if rng.random() < 0.6:
            m[f] = rand_value(rng, F[f])
    return m


WEIRD = [None, True, False, -1, 2 ** 63, 1.5, 1.0, -0.5, "", "x", [], ["a"],
         {}, {"a": 1}, {"a": [None]}, {"a": [True]}, {"a": [1.5]},
         {"a": [[]]}, {"a": "x"}, {"a": [1, "1"]}, 10 ** 400,
         float("inf"), float("-inf"), float("nan"), [[[]]],
         {"a": [True] + ["x"] * 150}, {"a": [1] * 150 + [None]},
         {"a": [7] * 70 + [[]] + [8] * 70},
         dict([("k%d" % i, [i]) for i in range(120)], k3=["a", 1.5]),
         dict([("k%d" % i, [i]) for i in range(120)], k119="a")]


def mutate(rng, m):
    """A message that is probably ill-formed (as bytes)."""
    m = dict(m)
    r = rng.random()
    if r < 0.2 and m:
        del m[rng.choice(sorted(m))]
    elif r < 0.6 and m:
        m[rng.choice(sorted(m))] = rng.choice(WEIRD)
    elif r < 0.7:
        m[rng.choice(["x", "ttl", "filter", "fail-reason", "client-id",
                      "service_id", ""])] = rng.choice(WEIRD)
    elif r < 0.74:
        m["msg-type"] = rng.choice(TYPES + ("REQUEST", "", "x"))
    elif r < 0.78:
        m["ta-cmd"] = rng.choice(sorted(SPEC[3]) + ["x", "", "Hello"])
    s = json.dumps(m).encode()
    if r < 0.78:
        return s
    r = rng.random()
    if r < 0.2:
        return json.dumps(rng.choice(WEIRD)).encode()
    if r < 0.4 and s:
        i = rng.randrange(len(s))
        return s[:i] + bytes([rng.randrange(256)]) + s[i + 1:]
    if r < 0.55:
        return s[:rng.randrange(len(s) + 1)]
    if r < 0.62:
        n = rng.choice([100, 900, 1100, 3000, 30000])
        return b"[" * n + b"]" * rng.choice([0, n])
    if r < 0.68:
        n = rng.choice([100, 900, 1100, 3000])
        return s[:-1] + b', "x": ' + b'{"a":' * n + b"1" + b"}" * n + b"}"
    if r < 0.72:
        return s[:-1] + b', "ttl": ' + b"9" * rng.choice([30, 4000, 5000]) + \
            b"}"
    if r < 0.8:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(1, 20)))
    if r < 0.9:
        return s + rng.choice([b" ", b"x", b"{}", b"\x00"])
    return b"\xef\xbb\xbf" + s
