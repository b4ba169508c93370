"""Filters: text and matching, against an independent reference."""
import copy
import re as _re

from dyn.base import Harness, check

SPEC = set("()*\\!&|=><")
DEPTH = 60      # deeper nesting than this may be refused


class Bad(Exception):
    pass


def ref_parse(s):
    """('eq',k,v) ('gt',k,n) ('lt',k,n) ('pres',k) ('sub',k,i,[..],f)
    ('not',f) ('and',[..]) ('or',[..]); Bad if not of the language;
    ValueError when the language is unclear (lenient integers)."""
    n = len(s)
    maxd = 0

    def word(i):
        out = []
        while i < n:
            if s[i] == "\\":
                if i + 1 >= n or s[i + 1] not in SPEC:
                    raise Bad()
                out.append(s[i + 1])
                i += 2
            elif s[i] in SPEC:
                break
            else:
                out.append(s[i])
                i += 1
        return "".join(out), i

    def need(i, c):
        if i >= n or s[i] != c:
            raise Bad()
        return i + 1

    # explicit stack, no recursion
    stack = []
    i = 0
    unclear = False
    done = None
    while True:
        # at the start of a filter
        i = need(i, "(")
        maxd = max(maxd, len(stack))
        if i >= n:
            raise Bad()
        if s[i] in "&|!":
            stack.append((s[i], []))
            i += 1
            continue
        k, i = word(i)
        if k == "" or i >= n:
            raise Bad()
        if s[i] in "<>":
            op = s[i]
            v, i = word(i + 1)
            if _re.fullmatch("-?(0|[1-9][0-9]*)", v, _re.ASCII) and \
               len(v) < 4000:
                num = int(v)
            else:
                try:
                    num = int(v)
                except ValueError:
                    raise Bad()
                if v.strip() != v:
                    raise Bad()
                unclear = True
            node = ("gt" if op == ">" else "lt", k, num)
        elif s[i] == "=":
            parts = []
            i += 1
            while True:
                v, i = word(i)
                parts.append(v)
                if i < n and s[i] == "*":
                    i += 1
                else:
                    break
            if len(parts) == 1:
                if parts[0] == "":
                    raise Bad()
                node = ("eq", k, parts[0])
            else:
                if "" in parts[1:-1]:
                    raise Bad()
                ini, fin = parts[0] or None, parts[-1] or None
                if ini is None and fin is None and len(parts) == 2:
                    node = ("pres", k)
                else:
                    node = ("sub", k, ini, tuple(parts[1:-1]), fin)
        else:
            raise Bad()
        while True:
            # a filter body is complete
            i = need(i, ")")
            if not stack:
                done = node
                break
            op, kids = stack[-1]
            kids.append(node)
            if op == "!":
                stack.pop()
                node = ("not", kids[0])
                continue
            if i < n and s[i] == "(":
                break
            if len(kids) < 2:
                raise Bad()
            stack.pop()
            node = ("and" if op == "&" else "or", tuple(kids))
        if done is not None:
            break
    if i != n:
        raise Bad()
    if unclear:
        raise ValueError()
    return done, maxd


def sub_match(t, ini, mids, fin):
    """By definition: t = ini x0 mid1 x1 ... fin, by dynamic programming."""
    if ini is not None:
        if t[:len(ini)] != ini:
            return False
        pos = {len(ini)}
    else:
        pos = {0}
    for m in mids:
        new = set()
        lo = min(pos)
        for p in range(lo, len(t) - len(m) + 1):
            if t[p:p + len(m)] == m:
                new.add(p + len(m))
        if not new:
            return False
        pos = new
    if fin is None:
        return True
    e = len(t) - len(fin)
    return e >= min(pos) and t[e:] == fin


def ref_match(f, props):
    t = f[0]
    if t == "not":
        return not ref_match(f[1], props)
    if t == "and":
        return all(ref_match(x, props) for x in f[1])
    if t == "or":
        return any(ref_match(x, props) for x in f[1])
    vs = props.get(f[1])
    if t == "pres":
        return vs is not None
    if vs is None:
        return False
    if t == "eq":
        return any(str(v) == f[2] for v in vs)
    if t == "gt":
        return any(type(v) is int and v > f[2] for v in vs)
    if t == "lt":
        return any(type(v) is int and v < f[2] for v in vs)
    return any(sub_match(str(v), f[2], f[3], f[4]) for v in vs)


ALPHA = ["a", "b", "n", "0", "1", "-", " ", "\n", "å", "\U0001F600", "+",
         "_", ".", "^", "$", "[", "\\", "(", ")", "*", "!", "&", "|", "=",
         ">", "<", "\x00", "\t", ":", '"', "'", "{", "%s", "\u2028", "\r"]


def rand_str(rng, special=0.3, lo=1):
    n = rng.choice([lo, 1, 1, 2, 3, 5])
    n = max(n, lo)
    out = ""
    for _ in range(n):
        out += rng.choice(ALPHA) if rng.random() < special else \
            rng.choice("abn01")
    return out


def esc(s):
    return "".join("\\" + c if c in SPEC else c for c in s)


def rand_ast(rng, depth):
    r = rng.random()
    if depth > 0 and r < 0.45:
        k = rng.choice(["not", "and", "or"])
        if k == "not":
            return ("not", rand_ast(rng, depth - 1))
        return (k, tuple(rand_ast(rng, depth - 1)
                         for _ in range(rng.choice([2, 2, 2, 3, 5]))))
    key = rng.choice(["a", "b", "n", rand_str(rng)])
    k = rng.choice(["eq", "eq", "gt", "lt", "pres", "sub", "sub"])
    if k == "eq":
        return ("eq", key, rng.choice(["a", "b", "1", "-1", "ab",
                                       rand_str(rng)]))
    if k in ("gt", "lt"):
        return (k, key, rng.choice([0, 1, -1, 2, 10, 7, 2 ** 63, -2 ** 70,
                                    99]))
    if k == "pres":
        return ("pres", key)
    ini = rng.choice([None, "a", "b", "aa", "1", rand_str(rng)])
    fin = rng.choice([None, "a", "b", "aa", "1", rand_str(rng)])
    mids = tuple(rng.choice(["a", "b", "ab", "aa", rand_str(rng)])
                 for _ in range(rng.choice([0, 0, 1, 2, 3])))
    if ini is None and fin is None and not mids:
        return ("pres", key)
    return ("sub", key, ini, mids, fin)


def text(f):
    t = f[0]
    if t == "not":
        return "(!%s)" % text(f[1])
    if t in ("and", "or"):
        return "(%s%s)" % ("&" if t == "and" else "|",
                           "".join(text(x) for x in f[1]))
    if t == "eq":
        return "(%s=%s)" % (esc(f[1]), esc(f[2]))
    if t in ("gt", "lt"):
        return "(%s%s%d)" % (esc(f[1]), ">" if t == "gt" else "<", f[2])
    if t == "pres":
        return "(%s=*)" % esc(f[1])
    return "(%s=%s*%s%s)" % (esc(f[1]), esc(f[2] or ""),
                             "".join(esc(m) + "*" for m in f[3]),
                             esc(f[4] or ""))


def build(m, f):
    """The filter object made with the constructors."""
    t = f[0]
    if t == "not":
        return m.Not(build(m, f[1]))
    if t in ("and", "or"):
        return (m.And if t == "and" else m.Or)(*[build(m, x) for x in f[1]])
    if t == "eq":
        return m.Equal(f[1], f[2])
    if t == "gt":
        return m.GreaterThan(f[1], f[2])
    if t == "lt":
        return m.LessThan(f[1], f[2])
    if t == "pres":
        return m.Present(f[1])
    return m.Substring(f[1], initial=f[2], intermediate=list(f[3]),
                       final=f[4])


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def keys_of(f, out, strs):
    if f[0] == "not":
        keys_of(f[1], out, strs)
    elif f[0] in ("and", "or"):
        for x in f[1]:
            keys_of(x, out, strs)
    else:
        out.add(f[1])
        strs.append(f)


def related_value(rng, leaf):
    if leaf[0] == "eq":
        v = leaf[2]
        try:
            if str(int(v)) == v and rng.random() < .5:
                return int(v)
        except ValueError:
            pass
        return v
    if leaf[0] in ("gt", "lt"):
        v = leaf[2] + rng.choice([-1, 0, 1])
        return str(v) if rng.random() < .2 else v
    if leaf[0] == "sub":
        j = ["", "x", "a", "\n", "ab", "b"]
        s = (leaf[2] or rng.choice(j)) + rng.choice(j)
        for p in leaf[3]:
            s += p + rng.choice(j)
        s += leaf[4] or ""
        if rng.random() < .3:
            # overlaps and near misses
            k = rng.randrange(len(s) + 1)
            s = s[:k] + s[k + 1:]
        if rng.random() < .1:
            s += "\n"
        try:
            if str(int(s)) == s and rng.random() < .5:
                return int(s)
        except ValueError:
            pass
        return s
    return rng.choice([1, "a", "", 0])


def rand_props(rng, f):
    keys, leaves = set(), []
    keys_of(f, keys, leaves)
    props = {}
    for _ in range(rng.choice([0, 1, 2, 3])):
        leaf = rng.choice(leaves)
        k = leaf[1] if rng.random() < .85 else rng.choice(["a", "b", "n"])
        vs = props.setdefault(k, [])
        for _ in range(rng.choice([1, 1, 2, 3])):
            v = related_value(rng, rng.choice(leaves)) \
                if rng.random() < .7 else \
                rng.choice([0, 1, -1, 5, "a", "b", "", "0", "1", "\n", "é",
                            2 ** 64, rand_str(rng)])
            if v not in vs:
                vs.append(v)
    return props


def real(props):
    return {k: set(vs) for k, vs in props.items()}


def rand_text(rng):
    f = rand_ast(rng, rng.choice([0, 1, 2, 3]))
    s = text(f)
    r = rng.random()
    if r < 0.35:
        return s
    s = list(s)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.randrange(len(s) + 1)
        q = rng.random()
        if q < .35 and s:
            del s[min(k, len(s) - 1)]
        elif q < .75:
            s.insert(k, rng.choice(["(", ")", "*", "\\", "!", "&", "|", "=",
                                    ">", "<", "a", "(a=b)", "0", " ",
                                    "(!(a=*))", "**", "\\a", "(&(a=1)(b=2))",
                                    "()", "-", "\\\\"]))
        elif s:
            a, b = sorted((k, rng.randrange(len(s) + 1)))
            s = s[:b] + s[a:]
    return "".join(s)


def vary(rng, f):
    """A filter that differs in one place, if at all."""
    if f[0] == "not":
        return ("not", vary(rng, f[1]))
    if f[0] in ("and", "or"):
        ops = list(f[1])
        r = rng.random()
        if r < .15:
            return ("or" if f[0] == "and" else "and", f[1])
        if r < .25:
            return (f[0], tuple(ops + [ops[-1]]))
        if r < .35 and len(ops) > 2:
            return (f[0], tuple(ops[:-1]))
        if r < .45:
            return (f[0], tuple(ops[::-1]))
        k = rng.randrange(len(ops))
        ops[k] = vary(rng, ops[k])
        return (f[0], tuple(ops))
    if f[0] in ("gt", "lt"):
        return rng.choice([(f[0], f[1], f[2] + 1), (f[0], f[1], -f[2]),
                           ("gt" if f[0] == "lt" else "lt", f[1], f[2]),
                           ("eq", f[1], str(f[2])), f])
    if f[0] == "eq":
        return rng.choice([("eq", f[1], f[2] + "x"), ("eq", f[2], f[1]),
                           ("sub", f[1], f[2], (), None),
                           ("eq", f[1], f[2].swapcase()), f])
    if f[0] == "pres":
        return rng.choice([("pres", f[1] + "x"), ("eq", f[1], "*"), f])
    return rng.choice([("sub", f[1], f[2], f[3] + ("x",), f[4]),
                       ("sub", f[1], f[2], f[3], (f[4] or "") + "x"),
                       ("sub", f[1], f[2], f[3][1:] or ("y",), f[4]),
                       ("eq", f[1], "*"), f])


class Text(Harness):
    name = "filter-text"
    rule = "grammar-based filter texts and mutations of them; accepted iff " \
        "an independent parser accepts, printed form parses to an equal " \
        "filter; non-trivial: all distinct texts"
    hang_s = 5

    def fixed(self):
        deep = [50, 200, 400, 1000, 5000, 100000]
        out = ["", "(", ")", "()", "(a", "(a=", "(a=)", "(a=b", "(a=*", "\\",
               "(\\", "(a\\", "(a=b\\", "(a>5", "(!", "(!)", "(!(a=b)", "(&",
               "(&)", "(&(a=b))", "(&(a=b)(c=d)", "(&(a=b)(c=d))x", "(|",
               "(a=b)(c=d)", "((a=b))", "(a=**)", "(a=*b**)", "(a>)",
               "(a>-)", "(a>--1)", "(a>1.0)", "(a> 1)", "(a>1 )", "(=b)",
               "(>1)", "(a!b=c)", "(a=b!c)", "(a\\!b=c)", "(!a=b)",
               "(a=\\*)", "(a=*\\**)", "(a==b)", "(a=b=c)", "(a><1)",
               "(a=b)\n", " (a=b)", "(a=\n)", "( =a)", "(a= )", "(a>5*)",
               "(a>=5)", "(a|b)", "a=b", "(!(!(a=*)))", "(&(a=*)x(b=*))",
               "(a=\\a)", "(&(a=b)(c=d)(e=f)(g>1)(h<2))", "(a=b*c)",
               "(a=b*c*d*)", "(a=*b)"]
        for d in deep:
            out += ["(!" * d + "(a=b)" + ")" * d,
                    "(&(a=b)" * d + "(c=d)" + ")" * d, "(!" * d, "(" * d,
                    "(|(x=y)" * d]
        return [{"text": s} for s in out]

    def gen(self, rng):
        return {"text": rand_text(rng)}

    def run(self, case):
        m = self.m["filter"]
        s = case["text"]
        short = repr(s[:120])
        try:
            want = ref_parse(s)
        except Bad:
            want = None
        except ValueError:
            want = "unclear"
        try:
            got = m.parse(s)
        except m.ParseError as e:
            str(e)
            got = None
        except RecursionError:
            check(False, "parsing", short, "ends in RecursionError")
        except Exception as e:
            check(False, "parsing", short, "ends in", repr(e)[:200])
        if want == "unclear":
            if got is None:
                return
        elif want is None:
            check(got is None, short, "is not a filter, but is accepted as",
                  str(got)[:120] if got is not None else "")
            return
        elif got is None:
            check(want[1] > DEPTH, short, "is a filter, but is refused")
            return
        p = str(got)
        if want != "unclear":
            check(p == text(want[0]), short, "is printed as", repr(p[:200]),
                  "instead of", repr(text(want[0])[:200]))
        try:
            again = m.parse(p)
        except Exception as e:
            check(False, "printing", short, "gives", repr(p[:120]),
                  "which does not parse:", repr(e)[:100])
        check(again == got and got == again, short, "does not equal what "
              "its printed form", repr(p[:120]), "parses to")


class RoundTrip(Harness):
    name = "filter-roundtrip"
    rule = "filters made with the constructors: printing and parsing gives " \
        "an equal filter, and unequal ones do not become equal; non-trivial: "\
        "all distinct"
    hang_s = 5

    def gen(self, rng):
        f = rand_ast(rng, rng.choice([0, 1, 2]))
        g = vary(rng, f) if rng.random() < .6 else \
            rand_ast(rng, rng.choice([0, 1]))
        return {"f": f, "g": g, "props": [rand_props(rng, f)
                                          for _ in range(3)]}

    def run(self, case):
        m = self.m["filter"]
        f, g = tup(case["f"]), tup(case["g"])
        a = build(m, f)
        p = str(a)
        try:
            b = m.parse(p)
        except Exception as e:
            check(False, "a filter printed as", repr(p), "does not parse:",
                  repr(e)[:100])
        check(a == b and b == a, "a filter does not equal what its printed "
              "form", repr(p), "parses to")
        for props in case["props"]:
            check(bool(a.match(real(props))) == bool(b.match(real(props))),
                  repr(p), "does not mean the same after being parsed")
        c = build(m, g)
        check((a == c) == (f == g), "filters", repr(p), "and", repr(str(c)),
              "compare", "equal" if a == c else "unequal")


class Escape(Harness):
    name = "filter-escape"
    rule = "random strings escaped and embedded as key, value, or part of " \
        "a wildcard; non-trivial: strings with a special character"

    def gen(self, rng):
        return {"s": rand_str(rng, 0.7), "t": rand_str(rng, 0.7),
                "u": rand_str(rng, 0.5)}

    def nontrivial(self, case):
        return any(c in SPEC for c in case["s"] + case["t"])

    def run(self, case):
        m = self.m["filter"]
        s, t, u = case["s"], case["t"], case["u"]
        try:
            f = m.parse("(%s=%s)" % (m.escape(s), m.escape(t)))
        except m.ParseError as e:
            check(False, repr(s), "and", repr(t), "escaped do not parse:", e)
        check(f.match({s: {t}}), "the filter for", repr(s), "=", repr(t),
              "does not match it")
        if u != t:
            check(not f.match({s: {u}}), "the filter for", repr(s), "=",
                  repr(t), "matches value", repr(u))
        if u != s:
            check(not f.match({u: {t}}), "the filter for", repr(s), "=",
                  repr(t), "matches key", repr(u))
        try:
            f = m.parse("(%s=*)" % m.escape(s))
            check(f.match({s: {t}}), "presence of", repr(s))
            check(u == s or not f.match({u: {t}}), "presence of", repr(s))
            f = m.parse("(%s=%s*%s)" % (m.escape(s), m.escape(t),
                                        m.escape(u)))
            check(f.match({s: {t + "--" + u}}), "wildcard on", repr(t),
                  repr(u))
            check(not f.match({s: {"-" + t + "--" + u}}) or
                  sub_match("-" + t + "--" + u, t, (), u), "wildcard on",
                  repr(t), repr(u))
        except m.ParseError as e:
            check(False, repr(s), repr(t), repr(u), "escaped do not parse:",
                  e)


class Match(Harness):
    name = "filter-match"
    rule = "random filters on property sets derived from them (hits, near " \
        "misses, integers and texts); non-trivial: filters whose keys occur"
    hang_s = 5

    def fixed(self):
        a = "a" * 4000
        out = [{"f": ("sub", "n", None, ("a",) * 12, "b"), "props": {"n": [a]}},
               {"f": ("sub", "n", "a", ("aa",) * 9, "ab"),
                "props": {"n": [a]}},
               {"f": ("sub", "n", "ab", (), "bc"), "props": {"n": ["abc"]}},
               {"f": ("sub", "n", "a", ("a",), "a"), "props": {"n": ["aa"]}},
               {"f": ("sub", "n", "a", ("a",), "a"), "props": {"n": ["aaa"]}},
               {"f": ("sub", "n", "1", (), None), "props": {"n": [12]}},
               {"f": ("sub", "n", "a", (), None), "props": {"n": ["a\nb"]}},
               {"f": ("sub", "n", "a", (), None), "props": {"n": ["b\na"]}},
               {"f": ("sub", "n", None, (), "a"), "props": {"n": ["a\n"]}},
               {"f": ("eq", "n", "a"), "props": {"n": ["a\n"]}},
               {"f": ("eq", "n", "1"), "props": {"n": [1]}},
               {"f": ("pres", "n"), "props": {"n": [""]}},
               {"f": ("gt", "n", 1), "props": {"n": ["2"]}},
               {"f": ("lt", "n", 1), "props": {"n": ["0", 1]}},
               {"f": ("sub", "n", "x", ("a", "b"), "b"),
                "props": {"n": ["xbab"]}},
               {"f": ("sub", "n", None, ("a", "b"), None),
                "props": {"n": ["ba"]}}]
        return out

    def gen(self, rng):
        f = rand_ast(rng, rng.choice([0, 0, 1, 2, 3]))
        return {"f": f, "props": rand_props(rng, f)}

    def nontrivial(self, case):
        k, le = set(), []
        keys_of(tup(case["f"]), k, le)
        return any(x in case["props"] for x in k)

    def run(self, case):
        m = self.m["filter"]
        f = tup(case["f"])
        o = build(m, f)
        o2 = m.parse(text(f))
        props = real(case["props"])
        before = copy.deepcopy(props)
        shown = str(o)
        want = ref_match(f, props)
        for x in (o, o2, o):
            try:
                got = x.match(props)
            except Exception as e:
                check(False, shown[:200], "on", repr(before)[:200],
                      "ends in", repr(e)[:100])
            check(bool(got) == want, shown[:200], "on", repr(before)[:200],
                  "matches" if got else "does not match")
        check(props == before and
              {k: {type(v) for v in vs} for k, vs in props.items()} ==
              {k: {type(v) for v in vs} for k, vs in before.items()},
              "matching changed the properties")
        check(str(o) == shown, "matching changed the filter", shown[:200])


HARNESSES = {"C09": [Text, RoundTrip, Escape], "C10": [Match]}
