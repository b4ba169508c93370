"""C12: Message.parse / to_wire against a reference of the protocol."""
from .base import *
from . import refproto as R
import base64
import json as _json


class ParseHarness(Harness):
    name = "proto-parse"
    rule = "well-formed and mutated messages of every command and type, raw " \
        "bytes, deep nesting; Message.parse compared with a reference " \
        "parser; non-trivial: all"

    def fixed(self):
        out = []
        for ver in (None, 2, 3):
            v = ver or 2
            for cmd in sorted(R.SPEC[3]):
                for typ in R.TYPES:
                    out.append([ver, cmd, typ])
        cases = []
        import random as _r
        rng = _r.Random(7)
        for ver, cmd, typ in out:
            req, opt = R.SPEC[3].get(cmd)[1][typ]
            for w in R.WEIRD:
                for f in ("ta-cmd", "ta-id", "msg-type") + tuple(req) + \
                        tuple(opt):
                    m = R.rand_msg(rng, 3, cmd, typ)
                    m[f] = w
                    cases.append(self.case(ver, _json.dumps(m).encode()))
        return cases[::3]

    def case(self, ver, data):
        return {"ver": ver, "b64": base64.b64encode(data).decode()}

    def gen(self, rng):
        ver = rng.choice([None, 2, 3])
        m = R.rand_msg(rng, rng.choice([2, 3]))
        if rng.random() < 0.4:
            data = _json.dumps(m).encode()
        else:
            data = R.mutate(rng, m)
        return self.case(ver, data)

    def run(self, case):
        P = self.m["proto"]
        data = base64.b64decode(case["b64"])
        want = R.parse(case["ver"], data)
        shown = data[:120]
        try:
            msg = P.Message.parse(case["ver"], data)
        except P.ProtocolError:
            check(want is None, "well-formed message rejected:", shown)
            return
        except Exception as e:
            raise Violation("%s instead of a protocol error for %s" % (
                type(e).__name__, shown))
        check(want is not None, "ill-formed message accepted:", shown)
        args = [dict(a) if isinstance(a, dict) else a for a in msg.args]
        oargs = {k: dict(a) if isinstance(a, dict) else a
                 for k, a in msg.optargs.items()}
        got = (msg.cmd(), msg.ta_id, msg.msg_type, args, oargs)
        check(R.same(list(got), list(want)), "message", shown, "parsed as",
              got, "instead of", want)
        t = msg.msg_type
        flags = [msg.is_request(), msg.is_accept(), msg.is_notify(),
                 msg.is_inform(), msg.is_complete(), msg.is_fail()]
        check(flags == [t == x for x in ("request", "accept", "notify",
                                         "inform", "complete", "fail")],
              "message type predicates are wrong for", t)
        check(msg.is_client_generated() == (t in ("request", "inform")) and
              msg.is_server_generated() == (t not in ("request", "inform")),
              "client/server-generated is wrong for", t)


class RoundTrip(Harness):
    name = "proto-roundtrip"
    rule = "random well-formed messages built from arguments, encoded, " \
        "checked against the reference parser and parsed back; " \
        "non-trivial: all"

    def gen(self, rng):
        ver = rng.choice([2, 3])
        m = R.rand_msg(rng, ver)
        return {"ver": ver, "msg": m, "none": rng.random() < 0.3}

    def fixed(self):
        import random as _r
        rng = _r.Random(5)
        return [{"ver": v, "msg": R.rand_msg(rng, v, c, t), "none": False}
                for v in (2, 3) for c in sorted(R.SPEC[v])
                for t in R.TYPES for _ in range(3)]

    def run(self, case):
        P = self.m["proto"]
        ver, m = case["ver"], dict(case["msg"])
        cmd, ta, typ = m.pop("ta-cmd"), m.pop("ta-id"), m.pop("msg-type")
        req, opt = R.SPEC[ver][cmd][1][typ]
        py = lambda f: {k: set(v) for k, v in m[f].items()} \
            if R.F[f] == R.PROPS else m[f]
        args = [py(f) for f in req]
        oargs = {f.replace("-", "_"): py(f) for f in opt if f in m}
        if case["none"]:
            for f in opt:
                oargs.setdefault(f.replace("-", "_"), None)
        keep = dict(oargs)
        try:
            t = P.lookup_type(ver, cmd)
            wire = P.Message(t, ta, typ, args, oargs).to_wire()
        except Exception as e:
            raise Violation("encoding %s/%s raised %s: %s" % (
                cmd, typ, type(e).__name__, e))
        check(oargs == keep, "encoding changed the optional arguments")
        want = (cmd, ta, typ,
                [R.norm_props(a) if isinstance(a, dict) else a
                 for a in args],
                {k: R.norm_props(a) if isinstance(a, dict) else a
                 for k, a in oargs.items() if a is not None})
        got = R.parse(ver, wire)
        check(got is not None and R.same(list(got), list(want)),
              "message", want, "encoded as", wire[:200])
        try:
            msg = P.Message.parse(ver, wire)
        except Exception as e:
            raise Violation("parsing the encoded message %s raised %s: %s" %
                            (wire[:120], type(e).__name__, e))
        back = (msg.cmd(), msg.ta_id, msg.msg_type,
                [dict(a) if isinstance(a, dict) else a for a in msg.args],
                {k: dict(a) if isinstance(a, dict) else a
                 for k, a in msg.optargs.items()})
        check(R.same(list(back), list(want)), "message", want,
              "comes back as", back)


HARNESSES = {"C12": [ParseHarness, RoundTrip]}
