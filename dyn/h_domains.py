"""C26: the domain files of the real paf/client.py in a scratch directory."""
import shutil
import tempfile
from .base import *

NAMES = ["d", "dom-2", "a.b", ".hidden", "sub", "ux:x", "x y", "#c", "å"]
BLANKS = ["", " ", "\t", "\n", "\r\n", " \n\t\r", "\n\n"]
WHITE = " \t\r\n\x0b\x0c\x1c\x1d\x1e\x85\xa0"
ADDRS = ["ux:a", "tls:1.2.3.4:5", "tcp:[::1]:7", "#x", "a#b", "{", "x{}",
         "ux: b c", "å", "a\"", "\\"]
TLS = [("tlsCertificateFile", "tls.cert_file"),
       ("tlsKeyFile", "tls.key_file"),
       ("tlsTrustedCaFile", "tls.tc_file")]
VER = [("minProtocolVersion", "proto_version_min", 2),
       ("maxProtocolVersion", "proto_version_max", 3)]


def ref(name, content):
    """(address, attributes, versions) of every server of a domain file"""
    if content is None:
        return []
    # universal newlines, as of any text file
    t = content.replace("\r\n", "\n").replace("\r", "\n")
    if t.lstrip(" \t\r\n").startswith("{"):
        out = []
        for o in json.loads(t)["servers"]:
            out.append((o["address"],
                        {x: o[j] for j, x in TLS if j in o},
                        tuple(o.get(j, d) for j, _, d in VER)))
        return out
    out = []
    for ln in t.split("\n"):
        while ln and ln[0] in WHITE:
            ln = ln[1:]
        while ln and ln[-1] in WHITE:
            ln = ln[:-1]
        if ln and ln[0] != "#":
            out.append((ln, {}, (2, 3)))
    return out


_seen = None


def _hook(event, args):
    if _seen is not None and event in ("open", "os.listdir", "os.scandir"):
        _seen.append(args[0])


def audited(f):
    """the paths that f opens or lists"""
    global _seen
    if not hasattr(audited, "on"):
        audited.on = True
        sys.addaudithook(_hook)
    _seen = []
    try:
        f()
    except OSError:
        pass
    finally:
        out, _seen = _seen, None
    return [p for p in out if isinstance(p, str) and
            not p.endswith((".py", ".pyc"))]


class DomainsHarness(Harness):
    name = "domain-files"
    rule = "directories of up to 5 files, plain or JSON, and " \
        "subdirectories; every name is read, connected to and listed; " \
        "non-trivial: some file names a server"

    def __init__(self, mods, prop):
        Harness.__init__(self, mods, prop)
        self.c = mods["client"]

    def plain(self, rng):
        out = []
        for i in range(rng.randint(0, 4)):
            out.append(rng.choice(["", " ", "\t", "  "]) + rng.choice(
                ADDRS + ["", "# comment", "#", "##", "# {"]) +
                rng.choice(["", " ", "\t", " # no"]))
        t = rng.choice(["", " ", "\n"]) + rng.choice(
            ["\n", "\n", "\r\n", "\n\n"]).join(out) + \
            rng.choice(["", "\n", "\n\n"])
        # what looks like JSON must be
        return "#\n" + t if t.lstrip().startswith("{") else t

    def json(self, rng):
        ss = []
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            o = {"address": rng.choice(ADDRS + [" ux:a ", "", "# a"])}
            for j, _ in TLS:
                if rng.random() < .4:
                    o[j] = rng.choice(["/a", "/b/" + j, "", "å"])
            for j, _, _ in VER:
                if rng.random() < .4:
                    o[j] = rng.choice([0, 1, 2, 3, 4, 7])
            if rng.random() < .3:
                o["other"] = 1
            o = dict(sorted(o.items(), key=lambda x: rng.random()))
            ss.append(o)
        d = {"servers": ss}
        if rng.random() < .3:
            d = {"x": {}, "servers": ss, "version": 1}
        t = json.dumps(d, indent=rng.choice([None, None, 1]),
                       ensure_ascii=rng.random() < .5)
        return rng.choice(BLANKS) + t + rng.choice(BLANKS)

    def gen(self, rng):
        files = {}
        for n in rng.sample(NAMES, rng.randint(0, 5)):
            r = rng.random()
            files[n] = None if r < .12 else self.plain(rng) if r < .5 \
                else self.json(rng)
        links = rng.random() < .2
        cids = [rng.choice([None, 0, 1, 7, 2 ** 63 - 1]) for _ in range(2)]
        return {"files": files, "links": links, "cids": cids,
                "track": rng.random() < .5, "cb": rng.random() < .5,
                "env": rng.choice(["env", "env", "none", "missing"])}

    def fixed(self):
        one = '{"servers":[{"address":"ux:a"%s}]}'
        out = []
        for f in ("", "\n", "#\n", "ux:a", " ux:a ", "#a\nux:b", "\n\nux:a\n",
                  "  # x\n y#z \nq", "ux:a\nux:b", "a{", one % "",
                  "\n\t\r " + one % "", '{"servers":[]}',
                  "#{\nux:a", "\x0bux:a\x0c",
                  one % ',"tlsKeyFile":"/k"',
                  one % ',"tlsCertificateFile":"/c"',
                  one % ',"tlsTrustedCaFile":"/t"',
                  one % ',"minProtocolVersion":3',
                  one % ',"maxProtocolVersion":2',
                  one % ',"minProtocolVersion":0,"maxProtocolVersion":9',
                  '{"servers":[{"address":"a","tlsKeyFile":"/k"},'
                  '{"address":"b"}]}',
                  '{"servers":[{"address":"a"},{"address":"b",'
                  '"tlsKeyFile":"/k","maxProtocolVersion":2}]}'):
            for env in ("env", "none"):
                out.append({"files": {"d": f, "sub": None}, "links": False,
                            "cids": [None, 0], "track": True, "cb": True,
                            "env": env})
        out.append({"files": {}, "links": False, "cids": [None, 5],
                    "track": False, "cb": False, "env": "missing"})
        return out

    def nontrivial(self, case):
        return any(f is not None and ref(n, f)
                   for n, f in case["files"].items())

    def run(self, case):
        d = tempfile.mkdtemp(prefix="domains")
        env = os.environ.get("PAF_DOMAINS")
        keep = {n: getattr(self.c, n) for n in ("Client",)}
        try:
            where = os.path.join(d, "dir")
            if case["env"] != "missing":
                os.mkdir(where)
                for n, f in case["files"].items():
                    p = os.path.join(where, n)
                    if f is None:
                        os.mkdir(p)
                        continue
                    with open(p, "w", encoding="utf-8", newline="") as fd:
                        fd.write(f)
                if case["links"] and case["files"]:
                    os.symlink(sorted(case["files"])[0],
                               os.path.join(where, "link"))
            os.environ.pop("PAF_DOMAINS", None)
            if case["env"] == "none":
                self.default()
                os.environ["PAF_DOMAINS"] = where
                self.look(case, where, True)
                return
            os.environ["PAF_DOMAINS"] = where
            self.look(case, where, case["env"] != "missing")
        finally:
            for n, v in keep.items():
                setattr(self.c, n, v)
            os.environ.pop("PAF_DOMAINS", None)
            if env is not None:
                os.environ["PAF_DOMAINS"] = env
            shutil.rmtree(d, True)

    def default(self):
        """The default directory is not written to: only what is asked of
        the system is looked at."""
        d = "/run/paf/domains.d"
        paths = audited(lambda: self.c.read_domain("no-such-domain"))
        check(set(paths) <= {os.path.join(d, "no-such-domain")},
              "without PAF_DOMAINS the files opened are", paths)
        paths = audited(lambda: list(self.c.list_domains()))
        check(set(paths) <= {d}, "without PAF_DOMAINS the directories "
              "listed are", paths)

    def look(self, case, where, there):
        files = dict(case["files"]) if there else {}
        if there and case["links"] and files:
            files["link"] = files[sorted(files)[0]]
        if there:
            got = sorted(self.c.list_domains())
            want = sorted(n for n, f in files.items() if f is not None)
            check(got == want, "the domains listed are", got,
                  "instead of", want)
        for n in sorted(files) + ["absent", "ux:absent"]:
            self.domain(case, n, ref(n, files.get(n)))
        conf = self.c.ServerConf("ux:given", 2, 2)
        self.connect(case, conf, None, conf)

    def same(self, n, s, want):
        got = (s.addr, s.attrs, (s.proto_version_min, s.proto_version_max))
        check(got == want and type(s) is self.c.ServerConf,
              "a server of domain %r is" % n, got, "instead of", want)

    def domain(self, case, n, want):
        ss = self.c.read_domain(n)
        check(len(ss) == len(want), "domain %r has" % n, len(ss),
              "servers instead of", len(want))
        for s, x in zip(ss, want):
            self.same(n, s, x)
        first = want[0] if want else (n, {}, (2, 3))
        self.same(n, self.c.domain_server(n), first)
        self.connect(case, n, first, None)

    def connect(self, case, what, first, conf):
        made = []

        class Client(object):
            def __init__(s, client_id, server_conf, track, ready_cb):
                made.append((client_id, server_conf, track, ready_cb, s))
        self.c.Client = Client
        ids = []
        for cid in case["cids"]:
            del made[:]
            kw = {}
            cb = None
            if cid is not None:
                kw["client_id"] = cid
            if case["track"]:
                kw["track"] = True
            if case["cb"]:
                cb = kw["ready_cb"] = lambda: None
            r = self.c.connect(what, **kw)
            check(len(made) == 1 and made[0][4] is r, "connect to", what,
                  "makes", len(made), "clients")
            m = made[0]
            if conf is not None:
                check(m[1] is conf, "the configuration given is not used")
            else:
                self.same(what, m[1], first)
            if cid is None:
                check(type(m[0]) is int and 0 <= m[0] < 2 ** 63,
                      "client id", m[0], "is no 63-bit number")
                check(m[0] not in ids, "client id", m[0], "comes twice")
                ids.append(m[0])
            else:
                check(m[0] == cid, "client id", m[0], "instead of", cid)
            check(m[2] is case["track"], "track", m[2])
            check(m[3] is cb, "callback", m[3])


HARNESSES = {"C26": [DomainsHarness]}
