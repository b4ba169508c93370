"""C26: the domain files of paf.client under contract: a domain's name leads
to exactly the server its file names."""
import ast
import json
import os
import random
import z3
from pyvc.core import *
from pyvc.values import *
from pyvc.world import *
from pyvc.interp import BuiltinMethod, MISSING
from pyvc.loops import LoopSpec
from pyvc.runner import Unit
from .jsonval import S, STR
from .conf import (SY, TY, Y, YLoc, YView, Doc, yterm, llen, lat, dom_, val_,
                   EMPTYD, NOKEYS)

tlen = z3.Function("text_len", STR, I)
code = z3.Function("text_chars", STR, z3.ArraySort(I, I))
strip = z3.Function("text_stripped", STR, STR)
nlines = z3.Function("text_lines", STR, I)
line = z3.Function("text_line", STR, z3.ArraySort(I, STR))
first = z3.Function("first_not_blank", STR, I)     # JSON's white space
rest = z3.Function("without_leading_blanks", STR, STR)
join = z3.Function("path_join", STR, STR, STR)
isfile = z3.Function("is_file", STR, B)
servers_to = z3.Function("server_lines_before", STR, I, I)
nth = z3.Function("nth_server_line", STR, I, I)
json_of = z3.Function("json_of", STR, Y)
BLANK = [9, 10, 13, 32]
t_, i_ = z3.Const("t", STR), z3.Int("i")
TLS = {"tlsCertificateFile": "tls.cert_file", "tlsKeyFile": "tls.key_file",
       "tlsTrustedCaFile": "tls.tc_file"}
VERSIONS = {"proto_version_min": ("minProtocolVersion", 2),
            "proto_version_max": ("maxProtocolVersion", 3)}


def blank(c):
    return z3.Or(*[c == x for x in BLANK])


def is_server(l):
    """a line that names a server: not empty and no comment"""
    x = strip(l)
    return z3.And(tlen(x) > 0, z3.Select(code(x), 0) != ord("#"))


def jsonlike(t):
    return z3.And(first(t) < tlen(t),
                  z3.Select(code(t), first(t)) == ord("{"))


def axioms(vc):
    a = vc.ctx.assume
    c = z3.Select(code(t_), i_)
    a(z3.ForAll([t_], tlen(t_) >= 0, patterns=[tlen(t_)]))
    a(z3.ForAll([t_], (tlen(t_) == 0) == (t_ == S(vc, "")),
                patterns=[tlen(t_)]))
    a(z3.ForAll([t_], z3.And(
        first(t_) >= 0, first(t_) <= tlen(t_),
        z3.Implies(first(t_) < tlen(t_),
                   z3.Not(blank(z3.Select(code(t_), first(t_)))))),
        patterns=[first(t_)]))
    a(z3.ForAll([t_, i_], z3.Implies(z3.And(i_ >= 0, i_ < first(t_)),
                                     blank(c)),
                patterns=[z3.MultiPattern(c, first(t_))]))
    r = rest(t_)
    a(z3.ForAll([t_], z3.And(
        tlen(r) == tlen(t_) - first(t_),
        z3.Select(code(r), 0) == z3.Select(code(t_), first(t_))),
        patterns=[r]))
    a(z3.ForAll([t_], nlines(t_) >= 1, patterns=[nlines(t_)]))
    # server lines are counted: definitions
    l = z3.Select(line(t_), i_)
    n = servers_to(t_, i_)
    a(z3.ForAll([t_], servers_to(t_, 0) == 0, patterns=[nlines(t_)]))
    a(z3.ForAll([t_, i_], z3.Implies(i_ >= 0, z3.And(
        n >= 0, servers_to(t_, i_ + 1) == n + z3.If(is_server(l), 1, 0),
        z3.Implies(is_server(l), nth(t_, n) == i_))),
        patterns=[z3.MultiPattern(l, n)]))
    vc.ctx.assume(dom_(EMPTYD) == NOKEYS)


def literal(vc, s):
    c = S(vc, s)
    key = ("chars", s)
    if key not in vc.ctx.axiomatized:
        vc.ctx.axiomatized.add(key)
        vc.ctx.assume(z3.And(tlen(c) == len(s), *[
            z3.Select(code(c), i) == ord(x) for i, x in enumerate(s)]))
    return c


def text(t):
    return Tx(Y.str(t))


class Ch(Sym):
    """a character"""
    def __init__(self, c):
        self.c = c

    def sym_eq(self, vc, o):
        o = vc.force(o)
        if isinstance(o, Ch):
            return mkbool(self.c == o.c)
        if isinstance(o, str):
            return mkbool(self.c == ord(o)) if len(o) == 1 else False
        return False

    def sym_is(self, vc, o):
        raise Unsupported("'is' on a character")

    def sym_hash(self, vc):
        pass

    def sym_truth(self, vc):
        return True

    def sym_len(self, vc):
        return 1

    def sym_in_str(self, vc, s):
        return mkbool(z3.Or(*[self.c == ord(x) for x in s] or
                            [z3.BoolVal(False)]))

    def sym_str(self, vc):
        return SText()

    def sym_getattr(self, vc, name):
        raise Unsupported("str.%s of a character" % name)


class TCh(T):
    def comps(self):
        return [("", I)]

    def enc(self, vc, v):
        raise Unsupported("storing a character")

    def dec(self, vc, terms):
        return Ch(terms[0])


class TTx(TY):
    """texts of a sequence"""
    def comps(self):
        return [("", STR)]

    def enc(self, vc, v):
        return [Y.ys(yterm(vc, v))]

    def dec(self, vc, terms):
        return text(terms[0])


class SeqLoc:
    ref = None
    name = "Texts"

    def __init__(self, what, n, at):
        self.what, self.n, self.at = what, n, at

    def get(self, i):
        return self.n if i == 0 else self.at


class Tx(SY):
    """A text whose characters matter."""
    @property
    def s(self):
        return z3.simplify(Y.ys(self.t))

    def sym_len(self, vc):
        return SInt(tlen(self.s))

    def sym_truth(self, vc):
        return vc.ctx.branch(tlen(self.s) > 0, "not empty")

    def sym_isinstance(self, vc, t):
        ts = t if isinstance(t, tuple) else (t,)
        return str in ts or object in ts

    def sym_getitem(self, vc, i):
        i = vc.force(i)
        if isinstance(i, slice) and i.start in (None, 0) and i.stop == 1 \
           and i.step in (None, 1):
            if vc.ctx.branch(tlen(self.s) > 0, "not empty"):
                return Ch(z3.Select(code(self.s), 0))
            return ""
        if i != 0:
            raise Unsupported("[%r] of a text" % (i,))
        if not vc.ctx.branch(tlen(self.s) > 0, "not empty"):
            raise ProgExc(IndexError("string index out of range"))
        return Ch(z3.Select(code(self.s), 0))

    def sym_iter(self, vc):
        yield ("sym", SSeq(vc, SeqLoc(("chars", self.s), tlen(self.s),
                                      code(self.s)), TSeq(TCh())))

    def sym_contains(self, vc, k):
        raise Unsupported("'in' a text")

    def sym_getattr(self, vc, name):
        f = getattr(self, "m_" + name, None)
        if f is None:
            if not hasattr(str, name):
                raise ProgExc(AttributeError(name))
            raise Unsupported("str.%s" % name)
        return BuiltinMethod(name, self, lambda *a, **k: f(vc, *a, **k))

    def m_strip(self, vc, *a):
        if a and a != (None,):
            raise Unsupported("strip(%r)" % (a,))
        return text(strip(self.s))

    def m_lstrip(self, vc, *a):
        if len(a) != 1 or not isinstance(a[0], str) or \
           sorted(set(map(ord, a[0]))) != BLANK:
            raise Unsupported("lstrip(%r)" % (a,))
        return text(rest(self.s))

    def m_startswith(self, vc, x):
        if isinstance(x, tuple) and len(x) == 1:
            x = x[0]
        if not isinstance(x, str) or len(x) != 1:
            raise Unsupported("startswith(%r)" % (x,))
        return mkbool(z3.And(tlen(self.s) > 0,
                             z3.Select(code(self.s), 0) == ord(x)))

    def m_split(self, vc, sep=None, n=-1):
        if sep != "\n" or n != -1:
            raise Unsupported("split(%r)" % (sep,))
        s = self.s
        return SSeq(vc, SeqLoc(("lines", s), nlines(s), line(s)),
                    TSeq(TTx()))


class File(Sym):
    def __init__(self, w):
        self.w = w

    def sym_getattr(self, vc, name):
        if name == "read":
            return BuiltinMethod(name, self, lambda *n: self.read(vc, *n))
        if name in ("close", "__exit__"):
            return BuiltinMethod(name, self, lambda *a: None)
        if name == "__enter__":
            return BuiltinMethod(name, self, lambda: self)
        raise Unsupported("file.%s" % name)

    def read(self, vc, *n):
        if n and n != (-1,):
            raise Unsupported("reading a part of the file")
        if vc.ctx.choose(["text", "fails"], "read") == "fails":
            vc.ctx.ghost["unreadable"] = True
            raise ProgExc(OSError("..."))
        return text(vc.ctx.ghost["text"])


class Environ(Sym):
    def __init__(self, w):
        self.w = w

    def key(self, vc, k):
        if k != "PAF_DOMAINS":
            raise Unsupported("environment variable %r" % (k,))
        return vc.ctx.ghost["env"]

    def sym_contains(self, vc, k):
        return mkbool(self.key(vc, k)[0])

    def sym_getitem(self, vc, k):
        there, v = self.key(vc, k)
        if not vc.ctx.branch(there, "set"):
            raise ProgExc(KeyError(k))
        return text(v)

    def get(self, vc, k, default=None):
        there, v = self.key(vc, k)
        return text(v) if vc.ctx.branch(there, "set") else default

    def sym_getattr(self, vc, name):
        if name == "get":
            return BuiltinMethod(name, self,
                                 lambda k, d=None: self.get(vc, k, d))
        raise Unsupported("os.environ.%s" % name)


def txt(vc, v):
    """term of a text"""
    v = vc.force(v)
    if isinstance(v, str):
        return literal(vc, v)
    t = yterm(vc, v)
    if not vc.ctx.entails(Y.is_str(t)):
        raise Unsupported("%r is no text" % (v,))
    return z3.simplify(Y.ys(t))


class DomainWorld(World):
    comp_loops = True

    def __init__(self, index):
        World.__init__(self, index)
        c = self.c = index.modules["client"]
        y = TY()
        self.heap_class("ServerConf", c.ServerConf, {
            "addr": y, "proto_version_min": y, "proto_version_max": y,
            "attrs": TMap(TY(), TY())})
        self.seq = TSeq(TRef("ServerConf"))
        self.cell("servers", self.seq)
        env = Environ(self)
        self.module_attrs[("os", "environ")] = env
        w = self.intercepts
        w[os.getenv] = env.get
        w[os.path.join] = lambda vc, a, *b: self.join(vc, a, b)
        w[os.path.isfile] = lambda vc, p: mkbool(isfile(txt(vc, p)))
        w[os.listdir] = self.listdir
        w[open] = self.open
        w[json.loads] = self.loads

    def join(self, vc, a, b):
        t = txt(vc, a)
        for x in b:
            t = join(t, txt(vc, x))
        return text(t)

    def dir(self, vc):
        there, v = vc.ctx.ghost["env"]
        return z3.If(there, v, literal(vc, "/run/paf/domains.d"))

    def listdir(self, vc, d):
        vc.ctx.prove(txt(vc, d) == self.dir(vc),
                     "C26:the directory listed is that of domains")
        n, at = vc.ctx.ghost["names"]
        return SSeq(vc, SeqLoc(("names",), n, at), TSeq(TTx()))

    def open(self, vc, n, mode="r", *a, **k):
        g = vc.ctx.ghost
        if mode not in ("r", "rt"):
            raise Unsupported("open mode %r" % (mode,))
        vc.ctx.prove(txt(vc, n) == join(self.dir(vc), g["domain"]),
                     "C26:the file opened is the domain's")
        if vc.ctx.choose(["opened", "fails"], "open") == "fails":
            g["unreadable"] = True
            raise ProgExc(OSError("..."))
        return File(self)

    def loads(self, vc, x):
        g = vc.ctx.ghost
        vc.ctx.prove(txt(vc, x) == g["text"],
                     "C26:what is parsed is the domain's file")
        g["json"] = True
        if vc.ctx.choose(["json", "no json"], "loads") == "no json":
            g["ill-formed"] = True
            raise ProgExc(ValueError("..."))
        t = json_of(g["text"])
        if not vc.ctx.branch(well_formed(vc, t), "well-formed"):
            # any outcome will do
            stats_cover(vc.ctx, "ill-formed")
            raise PathEnd()
        return SY(t)

    def loop_spec(self, vc, env, coll, st):
        g = vc.ctx.ghost
        if not isinstance(coll, SSeq):
            return None
        if isinstance(coll.loc, YLoc):
            return self.filled(vc, env, st, lambda h, p: conf_servers(
                vc, h, coll.loc.l, p))
        what = getattr(coll.loc, "what", ("?",))
        if what[0] == "chars":
            return chars_loop(what[1])
        if what[0] == "lines":
            return self.filled(vc, env, st, lambda h, p: line_servers(
                vc, h, what[1], p))
        if what[0] == "names":
            return names_loop(self, *g["names"])
        return None

    def filled(self, vc, env, st, meaning):
        """a loop that fills a list made before it"""
        names = {n.func.value.id for b in st.body for n in ast.walk(b)
                 if isinstance(n, ast.Call) and
                 isinstance(n.func, ast.Attribute) and
                 n.func.attr == "append" and
                 isinstance(n.func.value, ast.Name)}
        for n in names:
            v = env.vars.get(n)
            if type(v) is list and not v and \
               id(v) not in vc.ctx.escaped and \
               sum(1 for x in env.vars.values() if x is v) == 1:
                if vc.ctx.ghost.get("list"):
                    raise Unsupported("several lists of servers")
                vc.ctx.ghost["list"] = True
                vc.hset("servers.len", z3.IntVal(0))
                env.vars[n] = vc.cell("servers", self.seq)
        if not vc.ctx.ghost.get("list"):
            raise Unsupported("no list that the loop fills")

        def inv(vc, env, p, D, pre):
            return [("C26:the servers so far", f)
                    for f in meaning(H(vc), p)]
        return LoopSpec("servers", inv, mod=["servers.len", "servers.at"])


def chars_loop(s):
    def inv(vc, env, p, D, pre):
        c = z3.Select(code(s), i_)
        return [("C26:only blanks so far", z3.ForAll([i_], z3.Implies(
            z3.And(i_ >= 0, i_ < p), blank(c)), patterns=[c]))]
    return LoopSpec("chars", inv)


def names_loop(w, n, at):
    def start(vc, env, p):
        vc.ctx.ghost["yielded"] = ()

    def after(vc, env, p, sig):
        x = z3.Select(at, p)
        y = vc.ctx.ghost.get("yielded", ())
        there = isfile(join(w.dir(vc), x))
        if not y:
            f = z3.Not(there)
        else:
            f = z3.And(there, len(y) == 1, txt(vc, y[0]) == x)
        stats_cover(vc.ctx, "list_domains:%d" % len(y))
        return [("C26:every file of the directory, and nothing else, is "
                 "listed once", z3.And(f, z3.BoolVal(sig is None or
                                                     sig[0] == "continue")))]
    return LoopSpec("names", lambda *a: [], start=start, after=after)


# ---------------------------------------------------------- what files mean
def server_json(vc, h, r, t):
    """the server r is what the object t of a domain file says"""
    d = Doc(vc, t)
    k = z3.Const("k", Y)
    ks = {j: Y.str(S(vc, x)) for j, x in TLS.items()}
    A = h.at("ServerConf.attrs.dom", r)
    V = h.at("ServerConf.attrs.val", r)
    out = [h.at("ServerConf.addr", r) == d.at("address")]
    for f, (n, x) in VERSIONS.items():
        out.append(h.at("ServerConf." + f, r) == z3.If(
            d.has(n), d.at(n), Y.int(z3.IntVal(x))))
    out.append(z3.ForAll([k], z3.Select(A, k) == z3.Or(*[
        z3.And(k == x, d.has(j)) for j, x in ks.items()]),
        patterns=[z3.Select(A, k)]))
    out += [z3.Implies(d.has(j), z3.Select(V, x) == d.at(j))
            for j, x in ks.items()]
    return z3.And(*out)


def server_plain(vc, h, r, addr):
    """the server r: an address, and defaults"""
    k = z3.Const("k", Y)
    A = h.at("ServerConf.attrs.dom", r)
    return z3.And(
        h.at("ServerConf.addr", r) == Y.str(addr),
        *[h.at("ServerConf." + f, r) == Y.int(z3.IntVal(x))
          for f, (n, x) in VERSIONS.items()],
        z3.ForAll([k], z3.Not(z3.Select(A, k)),
                  patterns=[z3.Select(A, k)]))


def conf_servers(vc, h, l, n):
    r = z3.Select(h("servers.at"), i_)
    return [h("servers.len") == n,
            z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.And(
                h.at("ServerConf.alive", r),
                server_json(vc, h, r, z3.Select(lat(l), i_)))),
                patterns=[r])]


def line_servers(vc, h, s, n):
    r = z3.Select(h("servers.at"), i_)
    j = nth(s, i_)
    return [h("servers.len") == servers_to(s, n),
            z3.ForAll([i_], z3.Implies(
                z3.And(i_ >= 0, i_ < servers_to(s, n)), z3.And(
                    h.at("ServerConf.alive", r),
                    server_plain(vc, h, r, strip(z3.Select(line(s), j))))),
                patterns=[r])]


def well_formed(vc, t):
    d = Doc(vc, t)
    l = Y.yl(d.at("servers"))
    x = z3.Select(lat(l), i_)
    o = Doc(vc, x)
    return z3.And(Y.is_dict(t), d.has("servers"),
                  Y.is_list(d.at("servers")), llen(l) >= 0,
                  z3.ForAll([i_], z3.Implies(
                      z3.And(i_ >= 0, i_ < llen(l)), z3.And(
                          Y.is_dict(x), o.has("address"),
                          Y.is_str(o.at("address")),
                          *[z3.Implies(o.has(j), Y.is_str(o.at(j)))
                            for j in TLS],
                          *[z3.Implies(o.has(j), Y.is_int(o.at(j)))
                            for j, _ in VERSIONS.values()])),
                      patterns=[x]))


class C26(Contract):
    exc_tag = "C26"

    def set_up(self, vc):
        g = vc.ctx.ghost
        f = vc.ctx.fresh
        axioms(vc)
        g["env"] = (f("env_set", B), f("env", STR))
        g["domain"] = f("domain", STR)
        g["text"] = f("file", STR)
        g["names"] = (f("nnames", I), f("names", z3.ArraySort(I, STR)))
        vc.ctx.assume(g["names"][0] >= 0)

    def cover(self, vc, n):
        stats_cover(vc.ctx, "%s:%s" % (self.q, n))

    def run(self, vc, f, args, kw={}):
        """the case, and the result"""
        g = vc.ctx.ghost
        exc = r = None
        try:
            r = vc.force(self.body(vc, f, args, kw))
        except ProgExc as e:
            exc = e.exc
        if g.get("unreadable"):
            case = "none"
        elif g.get("ill-formed"):
            return "ill-formed", None
        else:
            t, js = g["text"], json_of(g["text"])
            case = "plain"
            if vc.ctx.branch(jsonlike(t), "json-like"):
                case = "json"
                if not vc.ctx.branch(well_formed(vc, js), "well-formed"):
                    return "ill-formed", None
        if exc is not None:
            vc.ctx.prove(z3.BoolVal(False), "C26:%s ends with %s though the "
                         "file is as it should be" % (
                             self.q, type(exc).__name__))
            raise PathEnd()
        self.cover(vc, case)
        return case, r

    covers_ = ("none", "plain", "json")

    @property
    def covers(self):
        return ["%s:%s" % (self.q, x) for x in self.covers_]

    def first(self, vc, case, r):
        """r is the server that the domain stands for"""
        g, h = vc.ctx.ghost, H(vc)
        t = g["text"]
        if not isinstance(r, SRef) or r.cls != "ServerConf":
            vc.ctx.prove(z3.BoolVal(False), "C26:%s gives a server" % self.q)
            return
        n = {"none": z3.IntVal(0), "plain": servers_to(t, nlines(t)),
             "json": llen(Y.yl(Doc(vc, json_of(t)).at("servers")))}[case]
        some = {"none": lambda: z3.BoolVal(False),
                "plain": lambda: server_plain(
                    vc, h, r.t, strip(z3.Select(line(t), nth(t, 0)))),
                "json": lambda: server_json(vc, h, r.t, z3.Select(lat(
                    Y.yl(Doc(vc, json_of(t)).at("servers"))), 0))}[case]()
        vc.ctx.prove(z3.If(n > 0, some, server_plain(vc, h, r.t,
                                                     g["domain"])),
                     "C26:the first server of the domain's file, or else the "
                     "name as an address")


class ReadDomain(C26):
    q = "client.read_domain"

    def verify(self, vc, f):
        self.set_up(vc)
        g = vc.ctx.ghost
        case, r = self.run(vc, f, [text(g["domain"])])
        if case == "ill-formed":
            return
        if isinstance(r, (list, tuple)) and not r:
            n, name = z3.IntVal(0), None
        elif isinstance(r, SSeq) and r.loc.name == "servers":
            n, name = r.ln(), "servers"
        else:
            raise Unsupported("result %r" % (r,))
        h = H(vc)
        t = g["text"]
        if case == "none":
            vc.ctx.prove(n == 0, "C26:no file, no servers")
            return
        if name is None:
            vc.hset("servers.len", z3.IntVal(0))
            h = H(vc)
        fs = line_servers(vc, h, t, nlines(t)) if case == "plain" else \
            conf_servers(vc, h, Y.yl(Doc(vc, json_of(t)).at("servers")),
                         llen(Y.yl(Doc(vc, json_of(t)).at("servers"))))
        for x in fs:
            vc.ctx.prove(x, "C26:the servers are those of the domain's file")


class DomainServer(C26):
    q = "client.domain_server"

    def verify(self, vc, f):
        self.set_up(vc)
        g = vc.ctx.ghost
        case, r = self.run(vc, f, [text(g["domain"])])
        if case != "ill-formed":
            self.first(vc, case, r)


class Connect(C26):
    q = "client.connect"

    def __init__(self, given):
        self.given = given
        if given:
            self.covers_ = ("given",)

    @property
    def label(self):
        return "configuration" if self.given else "domain"

    def verify(self, vc, f):
        self.set_up(vc)
        ctx, w = vc.ctx, vc.w
        g = ctx.ghost
        made = []

        def client(vc, *a, **k):
            names = ("client_id", "server_conf", "track", "ready_cb")
            d = dict(zip(names, a))
            d.update(k)
            if set(d) != set(names) or len(a) > 4:
                raise Unsupported("arguments of Client")
            made.append((d, o))
            return o
        o = Obj()
        w.intercepts[w.c.Client] = client

        def randint(vc, lo, hi):
            r = ctx.fresh("random", I)
            ctx.assume(z3.And(r >= TInt().enc(vc, lo)[0],
                              r <= TInt().enc(vc, hi)[0]))
            return SInt(r)
        w.intercepts[random.Random.randint] = lambda vc, o, lo, hi: \
            randint(vc, lo, hi)
        w.intercepts[random.getrandbits] = lambda vc, n: randint(
            vc, 0, (1 << n) - 1)
        cid = None if ctx.choose(["none", "given"], "client id") == "none" \
            else SInt(ctx.fresh("cid", I))
        cb = None if ctx.choose(["none", "given"], "callback") == "none" \
            else Obj()
        track = SBool(ctx.fresh("track", B))
        a = vc.new_ref("ServerConf") if self.given else text(g["domain"])
        kw = {"client_id": cid, "ready_cb": cb, "track": track}
        if self.given:
            r = vc.force(self.body(vc, f, [a], kw))
            self.cover(vc, "given")
        else:
            case, r = self.run(vc, f, [a], kw)
            if case == "ill-formed":
                return
        P = lambda n, x: ctx.prove(x if z3.is_expr(x) else z3.BoolVal(
            bool(x)), "C26:connect " + n)
        P("makes one client and gives it", len(made) == 1 and r is o)
        if len(made) != 1:
            return
        d = made[0][0]
        if self.given:
            x = d["server_conf"]
            P("uses the configuration given", isinstance(x, SRef) and
              x.cls == "ServerConf" and ctx.entails(x.t == a.t))
        else:
            self.first(vc, case, vc.force(d["server_conf"]))
        x = vc.force(d["client_id"])
        x = TInt().enc(vc, x)[0]
        P("uses the client id given, or else any 63-bit number",
          x == cid.t if cid is not None else
          z3.And(x >= 0, x < 2 ** 63))
        P("passes on the callback", d["ready_cb"] is cb)
        x = vc.force(d["track"])
        P("passes on whether to track", TBool().enc(vc, x)[0] == track.t)


class Obj(Sym):
    def sym_is(self, vc, o):
        return self is o

    def sym_truth(self, vc):
        return True


class ListDomains(C26):
    q = "client.list_domains"
    covers = ["list_domains:0", "list_domains:1"]

    def verify(self, vc, f):
        self.set_up(vc)
        g = vc.ctx.ghost
        it = vc.force(self.body(vc, f, [], {}))
        from pyvc.interp import IGen
        if not isinstance(it, IGen):
            raise Unsupported("list_domains gives %r" % (it,))
        try:
            while True:
                v = vc.gen_next(it)
                if v is MISSING:
                    break
                vc.ctx.ghost["yielded"] = \
                    vc.ctx.ghost.get("yielded", ()) + (v,)
        except ProgExc as e:
            vc.ctx.prove(z3.BoolVal(False), "C26:list_domains ends with %s" %
                         type(e.exc).__name__)
            return
        vc.ctx.prove(z3.BoolVal(not vc.ctx.ghost.get("yielded")),
                     "C26:nothing but the directory's files is listed")


def units():
    return [Unit("domains", DomainWorld, c, {"C26"}, name=n) for n, c in (
        ("client.read_domain", ReadDomain()),
        ("client.domain_server", DomainServer()),
        ("client.connect[domain]", Connect(False)),
        ("client.connect[configuration]", Connect(True)),
        ("client.list_domains", ListDomains()))]


ASSUMES = {"C26": [
    "open, os.listdir, os.path.join/isfile, str.strip/split and os.environ "
    "behave as documented (texts are sequences of characters; what strip "
    "and split give is left open); json.loads gives the JSON value a text "
    "spells, or ValueError",
    "a file that looks like JSON but is not of the documented form may "
    "lead to any error or result",
    "the client made is as proved for Client.__init__ (C21)"]}
