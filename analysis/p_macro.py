"""C13 to C17: what quote!, quote_in! and quote_fn! expand to, against the meaning of the quoted source."""
import itertools, sys
import models
import minirust as mr
from absint import *
from exact import *
from macro_model import MacroEng, leaf

ONE = num(1)


# ------------------------------------------------------------------ source
def T(n): return ("T", leaf("token", n))
def S(n): return ("S", ("s", "") if n == "" else leaf("string", n))
def L(n): return ("L", ("s", "") if n == "" else leaf("literal", n))
def I(n): return ("I", n)
def X(n): return ("X", leaf("expr", n))
def C(c): return ("C", c)
ESC = ("Esc",)
def Str(*xs): return ("Str", q(*xs))
def K(n): return ("K", ("s", "") if n == "" else leaf("literal", n))          # $[const]("..")
def KX(n): return ("KX", leaf("expr", n))        # $[const](expr)
def E(*xs): return ("E", q(*xs))                     # $(..) in a string
def If(c, a, b=None, arrow=False): return ("If", leaf("cond", c), a, b, arrow)
def For(p, e, q, join=None, arrow=True): return ("For", leaf("pat", p), leaf("expr", e), join, q, arrow)
def Match(e, *arms): return ("Match", leaf("expr", e), arms)
def Arm(p, q, guard=None, attrs=(), form="{", comma=True):
    return (tuple(leaf("attr", a) for a in attrs), leaf("pat", p), leaf("cond", guard) if guard else None, q, form, comma)
def W(k, v): return ("W", k, v)                    # a certain keyword, punctuation or name
def Let(p, e): return ("Let", leaf("pat", p), leaf("expr", e))
def LetS(p, e): return ("LetS", leaf("pat", p), leaf("expr", e))     # of a struct literal
def Ref(b, n, brace=True): return ("Ref", b, leaf("raw", b, n), brace)
def G(d, *xs): return ("G", d, q(*xs))


def q(*xs):
    """(separation, node) pairs from a mixed list: 0/1.. columns of space, ("row", column, blank), nodes"""
    out, sep = [], None
    for x in xs:
        if isinstance(x, int) or isinstance(x, tuple) and x[0] in ("row", "i"):
            sep = x
        else:
            out.append((0 if sep is None else sep, x))
            sep = None
    if sep is not None:
        out.append((sep, None))
    return tuple(out)


CLOSE = {"(": ")", "{": "}", "[": "]"}


class Lay:
    """gives every token of a source its place"""

    def __init__(self, line=1, col=0):
        self.line, self.col = num(line), num(col) if isinstance(col, int) else col
        self.stretch = None             # where the next leaf ends, if on a later line

    def pos(self):
        return (self.line, self.col)

    def move(self, k):
        self.col = aff_add(self.col, num(k) if isinstance(k, int) else k)

    def sep(self, s):
        if isinstance(s, tuple) and s[0] == "row":
            _, c, blank = s
            self.line = aff_add(self.line, blank if isinstance(blank, tuple) else num(1 + blank))
            self.col = num(c) if isinstance(c, int) else c
        elif s:
            self.move(s)

    def tok(self, kind, payload, width=1):
        a = self.pos()
        if self.stretch is not None and kind in ("tt", "x", "lstr", "raw"):
            s, self.stretch = self.stretch, None
            self.sep(s)
        else:
            self.move(width)
        return (kind, payload, a + self.pos())

    def group(self, d, f):
        a = self.pos()
        self.move(1)
        ts = f()
        self.move(1)
        return ("g", (d, tuple(ts)), a + self.pos())

    def raw(self, xs):
        r = []
        for x in xs:
            if isinstance(x, tuple) and x[0] in CLOSE:
                r.append(self.group(x[0], lambda: self.raw(x[1])))
            elif isinstance(x, tuple):
                r.append(self.tok(x[0], x[1] if isinstance(x[1], str) and x[0] in ("lchar", "id", "kw", "p") else leaf(x[0], x[1]), 2))
            else:
                r.append(self.tok("kw" if x.isalpha() else "p", x, len(x)))
            self.space()
        return r

    def quote(self, Q, units):
        """tokens of Q; units gets (start, end, node, nested)"""
        r = []
        for s, n in Q:
            self.sep(s)
            if n is None:
                continue
            r += self.node(n, units)
        return r

    def unit(self, units, start, node, sub=None):
        units.append((start, self.pos(), node, sub))

    def space(self):
        self.move(1)
        return []

    def node(self, n, units):
        if n[0] == "Tall":
            self.stretch, n = n[2], n[1]
        k, a = n[0], self.pos()
        t = []
        sub = {}
        if k == "RAW":
            t = self.raw(n[1])
        elif k == "T":
            t = [self.tok("tt", n[1])]
        elif k == "W":
            t = [self.tok(n[1], n[2], len(n[2]))]
        elif k == "S":
            t = [self.tok("lstr", n[1], 3)]
        elif k == "Esc":
            t = [self.tok("p", "$"), self.tok("p", "$")]
        elif k == "I":
            t = [self.tok("p", "$"), self.tok("id", n[1], 3)]
        elif k == "C":
            t = [self.tok("p", "$"), self.group("[", lambda: [self.tok("lchar", n[1], 3)])]
        elif k == "G":
            return self.grp(n, units)
        elif k == "Str":
            def inner():
                x = [self.tok("id", "str", 3)]
                return x
            t = [self.tok("p", "$"), self.group("[", inner)]
            b = self.pos()
            def parts():
                r = self.parts(n[1], sub.setdefault("parts", []))
                sub["end"] = self.pos()
                return r
            sub["start"] = (b[0], aff_add(b[1], ONE))
            t.append(self.group("(", parts))
        else:
            t = [self.tok("p", "$"), self.group("(", lambda: self.inner(n, sub))]
        self.unit(units, a, n, sub)
        return t

    def grp(self, n, units):
        a = self.pos()
        self.move(1)
        units.append((a, self.pos(), ("D", n[1]), None))
        ts = self.quote(n[2], units)
        b = self.pos()
        self.move(1)
        units.append((b, self.pos(), ("D", CLOSE[n[1]]), None))
        return [("g", (n[1], tuple(ts)), a + self.pos())]

    def kw(self, s):
        return [self.tok("kw", s, len(s))] + self.space()

    def leafs(self, kind, v):
        return [self.tok(kind, v, 3)] + self.space()

    def nested(self, d, Q, sub, key, edge=False):
        b = self.pos()
        u = []
        g = self.group(d, lambda: self.quote(Q, u))
        e = self.pos()
        sub[key] = (u, ((b[0], aff_add(b[1], ONE)), (e[0], aff_add(e[1], ONE, -1))) if edge else None)
        return [g]

    def open(self, Q, sub, key):
        u = []
        ts = self.quote(Q, u)
        sub[key] = (u, None)
        return ts

    def inner(self, n, sub):
        k = n[0]
        if k == "X":
            return [self.tok("x", n[1], 3)]
        if k == "L":
            return [self.tok("lstr", n[1], 3)]
        if k == "If":
            r = self.kw("if") + self.leafs("x", n[1])
            if n[4]:
                return r + [self.tok("p", "=>", 2)] + self.space() + self.open(n[2], sub, "then")
            r += self.nested("{", n[2], sub, "then")
            if n[3] is not None:
                r += self.space() + self.kw("else") + self.nested("{", n[3], sub, "else")
            return r
        if k == "For":
            r = self.kw("for") + self.leafs("pat", n[1]) + self.kw("in") + self.leafs("x", n[2])
            if n[3] is not None:
                r += [self.tok("id", "join", 4)] + self.space() + self.nested("(", n[3], sub, "join", True) + self.space()
            if n[5]:
                return r + [self.tok("p", "=>", 2)] + self.space() + self.open(n[4], sub, "body")
            return r + self.nested("{", n[4], sub, "body")
        if k == "Match":
            r = self.kw("match") + self.leafs("x", n[1])

            def arms():
                o = []
                for i, (attrs, pat, guard, Q, form, comma) in enumerate(n[2]):
                    for x in attrs:
                        o += self.leafs("attr", x)
                    o += self.leafs("pat", pat)
                    if guard is not None:
                        o += self.kw("if") + self.leafs("x", guard)
                    o += [self.tok("p", "=>", 2)] + self.space()
                    if form == "bare":
                        o += self.open(Q, sub, i)
                    else:
                        o += self.nested(form, Q, sub, i, form == "(")
                    if comma:
                        o += [self.tok("p", ",")]
                    self.space()
                return o
            return r + [self.group("{", arms)]
        if k == "LetS":
            r = self.kw("let") + self.leafs("pat", n[1]) + [self.tok("p", "=")] + self.space() + [self.tok("x", n[2], 3)] + self.space()
            b = self.group("{", lambda: [self.tok("tt", leaf("token", "fields"), 4)])
            sub["value"] = ("sym", ("leaf", "struct literal", n[2], b[1]))
            return r + [b]
        if k == "Let":
            return self.kw("let") + self.leafs("pat", n[1]) + [self.tok("p", "=")] + self.space() + [self.tok("x", n[2], 3)]
        if k == "Ref":
            r = self.kw("ref") + ([self.tok("p", "_")] if n[1] is None else [self.tok("id", n[1], 2)]) + self.space()
            if n[3]:
                return r + [self.group("{", lambda: [self.tok("raw", n[2], 5)])]
            return r + [self.tok("p", "=>", 2)] + self.space() + [self.tok("raw", n[2], 5)]
        raise AssertionError(k)

    # ---- inside of $[str](..)
    def parts(self, ps, units):
        r = []
        for s, n in ps:
            self.sep(s)
            if n is None:
                continue
            if n[0] == "Tall":
                self.stretch, n = n[2], n[1]
            a = self.pos()
            k, sub = n[0], {}
            if k == "T":
                t = [self.tok("tt", n[1])]
            elif k == "W":
                t = [self.tok(n[1], n[2], len(n[2]))]
            elif k == "Esc":
                t = [self.tok("p", "$"), self.tok("p", "$")]
            elif k == "I":
                t = [self.tok("p", "$"), self.tok("id", n[1], 3)]
            elif k in ("K", "KX"):
                t = [self.tok("p", "$"), self.group("[", lambda: [self.tok("kw", "const", 5)]),
                     self.group("(", lambda: [self.tok("lstr" if k == "K" else "x", n[1], 3)])]
            elif k == "E":
                t = [self.tok("p", "$")] + self.nested("(", n[1], sub, "body")
            elif k == "G":
                self.move(1)
                units.append((a, self.pos(), ("D", n[1]), None))
                ts = self.parts(n[2], units)
                b = self.pos()
                self.move(1)
                units.append((b, self.pos(), ("D", CLOSE[n[1]]), None))
                r.append(("g", (n[1], tuple(ts)), a + self.pos()))
                continue
            else:
                raise AssertionError(k)
            self.unit(units, a, n, sub)
            r += t
        return r


class Reject(Exception):
    pass


class Oracle:
    """what the documentation says a quoted source does to the stream"""

    def __init__(self, world, cmp):
        self.w, self.cmp = world, cmp
        self.out = []

    def lt(self, a, b):
        return self.cmp("ge0", aff_add(aff_add(b, a, -1), num(-1)))

    def eq(self, a, b):
        return self.cmp("eq0", aff_add(a, b, -1))

    def ev(self, *e):
        self.out.append(e)

    def quote(self, units, edge, env):
        prev = row = None
        levels = []
        if edge is not None:
            prev, row = edge[0], edge[0][1]
        for i, (start, end, node, sub) in enumerate(units):
            if node[0] == "C" and units[i + 1:i + 2] and units[i + 1][2] == ("D", "("):
                raise Reject("an argument for a control function")
            if prev is None:
                row = start[1]
            elif self.eq(prev[0], start[0]):
                if self.lt(prev[1], start[1]):
                    self.ev("ws", "space")
            elif self.lt(start[0], prev[0]):
                # not one piece of source
                self.ev("ws", "space")
            else:
                blank = self.lt(aff_add(prev[0], ONE), start[0])
                if self.eq(row, start[1]):
                    self.ev("ws", "line" if blank else "push")
                elif self.lt(row, start[1]):
                    levels.append(row)
                    self.ev("ws", "indent")
                    if blank:
                        self.ev("ws", "line")
                else:
                    while True:
                        if not levels:
                            raise Reject("a row matches no known level of indentation")
                        top = levels.pop()
                        self.ev("ws", "unindent")
                        if blank:
                            self.ev("ws", "line")
                        if self.eq(top, start[1]):
                            break
                        if self.lt(top, start[1]):
                            raise Reject("a row matches no known level of indentation")
                row = start[1]
            env = self.node(node, sub, env)
            prev = end
        if edge is not None and prev is not None and self.eq(prev[0], edge[1][0]) and self.lt(prev[1], edge[1][1]):
            self.ev("ws", "space")
        for _ in levels:
            self.ev("ws", "unindent")

    def valid(self, units, edge=None):
        """rejects what is not a source, wherever it is"""
        o = Oracle(self.w, self.cmp)
        o.node = lambda node, sub, env: env
        o.quote(units, edge, ())
        for start, end, node, sub in units:
            for k, v in (sub or {}).items():
                if isinstance(v, tuple) and isinstance(v[0], list):
                    self.valid(*v)
            if node[0] == "Str":
                o.string(sub, ())
                self.valid_parts(sub["parts"])

    def valid_parts(self, units):
        for start, end, n, s in units:
            if n[0] == "E":
                self.valid(*s["body"])

    def text(self, v):
        self.ev("text", tuple(p for p in ((("s", v),) if isinstance(v, str) else (v,)) if p != ("s", "")))

    def node(self, n, sub, env):
        k = n[0]
        if k in ("T", "L"):
            self.text(n[1])
        elif k == "D":
            self.text(n[1])
        elif k == "W":
            self.text(n[2])
        elif k == "Esc":
            self.text("$")
        elif k == "S":
            self.ev("item", "OpenQuote", False)
            self.text(n[1])
            self.ev("item", "CloseQuote")
        elif k == "C":
            self.ev("ws", {" ": "space", "\n": "line", "\r": "push"}[n[1]])
        elif k == "I":
            self.ev("eval", ("ident", ("s", n[1])), env)
            self.ev("append", ("ident", ("s", n[1])), env)
        elif k == "X":
            self.ev("eval", n[1], env)
            self.ev("append", n[1], env)
        elif k == "If":
            self.ev("eval", n[1], env)
            if self.w.cond.get(n[1], True):
                self.quote(*sub["then"], env + (("if", n[1]),))
            elif n[3] is not None:
                self.quote(*sub["else"], env)
        elif k == "For":
            self.ev("eval", n[2], env)
            c = self.w.count.get(n[2], 2)
            for i in range(c):
                e = env + ((n[1], ("elem", n[2], i)),)
                self.quote(*sub["body"], e)
                if n[3] is not None and i + 1 < c:
                    self.quote(*sub["join"], e)
        elif k == "Match":
            self.ev("eval", n[1], env)
            for i, (attrs, pat, guard, Q, form, comma) in enumerate(n[2]):
                if not self.w.matches.get(pat, True):
                    continue
                e = env + (("attrs", attrs), (pat, ("value", n[1])))
                if guard is not None:
                    self.ev("eval", guard, e)
                    if not self.w.cond.get(guard, True):
                        continue
                self.quote(*sub[i], e)
                break
            else:
                self.ev("no arm", ("value", n[1]))
        elif k == "Let":
            self.ev("eval", n[2], env)
            return env + ((n[1], ("value", n[2])),)
        elif k == "LetS":
            self.ev("eval", sub["value"], env)
            return env + ((n[1], ("value", sub["value"])),)
        elif k == "Ref":
            self.ev("raw", n[2], env)
        elif k == "Str":
            self.ev("item", "OpenQuote", has_eval(n))
            self.string(sub, env)
            self.ev("item", "CloseQuote")
        else:
            raise AssertionError(k)
        return env

    def string(self, sub, env):
        prev = sub["start"]
        units = sub["parts"] + [(sub["end"], None, None, None)]
        for start, end, n, s in units:
            if not self.eq(prev[0], start[0]):
                raise Reject("a line break in a string")
            g = aff_add(start[1], prev[1], -1)
            if g[2]:
                raise Imprecise("width of a gap in a string")
            self.text(" " * max(g[1], 0))
            if n is None:
                break
            if n[0] in ("T", "K", "D"):
                self.text(n[1])
            elif n[0] == "W":
                self.text(n[2])
            elif n[0] == "Esc":
                self.text("$")
            elif n[0] == "KX":
                self.ev("eval", n[1], env)
                self.ev("append", n[1], env)
            elif n[0] == "I":
                self.ev("item", "OpenEval")
                self.ev("item", "Literal", (("s", n[1]),))
                self.ev("item", "CloseEval")
            elif n[0] == "E":
                self.ev("item", "OpenEval")
                self.quote(*s["body"], env)
                self.ev("item", "CloseEval")
            prev = end


def has_eval(n):
    """does this string interpolate anything itself"""
    return any(x is not None and (x[0] in ("I", "E") or x[0] == "G" and has_eval(("Str", x[2]))) for _, x in n[1])


def quotes(n):
    k = n[0]
    if k == "If":
        return [n[2]] + ([n[3]] if n[3] is not None else [])
    if k == "For":
        return [n[4]] + ([n[3]] if n[3] is not None else [])
    if k == "Match":
        return [a[3] for a in n[2]]
    if k in ("G", "Str"):
        return [n[2] if k == "G" else n[1]]
    if k == "E":
        return [n[1]]
    return []


def walk(Q):
    for _, n in Q:
        if n is None:
            continue
        if n[0] == "Tall":
            n = n[1]
        yield n
        for x in quotes(n):
            yield from walk(x)


def needs_eval(Q):
    return any(n[0] == "Str" and has_eval(n) for n in walk(Q))


def worlds(Q, limit=64):
    ch = {}
    for n in walk(Q):
        if n[0] == "If":
            ch["c", n[1]] = (True, False)
        elif n[0] == "For":
            ch["n", n[2]] = (0, 1, 2, 3)
        elif n[0] == "Match":
            for a in n[2]:
                ch["m", a[1]] = (True, False)
                if a[2] is not None:
                    ch["c", a[2]] = (True, False)
    ks = list(ch)
    all_ = list(itertools.islice(itertools.product(*[ch[k] for k in ks]), limit))
    for vs in all_:
        d = dict(zip(ks, vs))
        yield mr.World({k[1]: v for k, v in d.items() if k[0] == "c"}, {k[1]: v for k, v in d.items() if k[0] == "n"},
                       {k[1]: v for k, v in d.items() if k[0] == "m"})


class Need(Exception):
    def __init__(self, op, a):
        self.op, self.a = op, a


def decisions(st, f):
    """f(cmp) under every way the undecided comparisons can turn out"""
    work = [st]
    while work:
        s = work.pop()

        def cmp(op, a):
            d = s.decide(op, a) if a[2] else ((a[1] >= 0) if op == "ge0" else a[1] == 0)
            if d is None:
                raise Need(op, a)
            return d
        try:
            yield s, f(cmp)
        except Need as nd:
            for op, a in ((nd.op, nd.a), ("ne0", nd.a) if nd.op == "eq0" else ("ge0", aff_add(num(-1), nd.a, -1))):
                s2 = s.copy()
                try:
                    s2.assume(op, a)
                except Infeasible:
                    continue
                work.append(s2)


def witness(st, names, budget=30000):
    """numbers that satisfy the constraints, or None"""
    cons = [(o, c) for o, c in st.cons if all(s in names for s, _ in c[2])]
    steps = [0]

    def holds(o, x):
        return x >= 0 if o == "ge0" else x == 0 if o == "eq0" else x != 0

    def go(i, val):
        steps[0] += 1
        if steps[0] > budget:
            return None
        for o, c in cons:
            if all(s in val for s, _ in c[2]) and not holds(o, c[1] + sum(k * val[s] for s, k in c[2])):
                return None
        if i == len(names):
            return val
        v = names[i]
        some = [0, 1, 2, 10, 20, 40] + ([-1, -2] if v[0] == "delta" else [])
        for o, c in cons:
            d = dict(c[2])
            if v in d and all(s in val or s == v for s in d):
                x = -(c[1] + sum(k * val[s] for s, k in c[2] if s != v))
                some += [x // d[v] + j for j in (-1, 0, 1)]
        for x in dict.fromkeys(some):
            if x >= 0 or v[0] == "delta":
                r = go(i + 1, {**val, v: x})
                if r is not None:
                    return r
        return None
    return go(0, {})


def contradictory(st, names):
    """no rational solution (Fourier-Motzkin)"""
    cons = [(o, c) for o, c in st.cons if all(s in names for s, _ in c[2])]

    def go(ges):
        """ges: set of affine terms that are not negative"""
        for v in names:
            lo = [g for g in ges if dict(g[2]).get(v, 0) > 0]
            up = [g for g in ges if dict(g[2]).get(v, 0) < 0]
            ges = {g for g in ges if not dict(g[2]).get(v, 0)}
            for a in lo:
                for b in up:
                    x = aff_add(aff_mul(a, -dict(b[2])[v]), aff_mul(b, dict(a[2])[v]))
                    if x[2]:
                        ges.add(x)
                    elif x[1] < 0:
                        return True
            if len(ges) > 4000:
                return False
        return any(not g[2] and g[1] < 0 for g in ges)

    def split(ges, nes):
        if go(ges):
            return True
        if not nes:
            return False
        n = nes[0]
        return split(ges | {aff_add(n, num(-1))}, nes[1:]) and split(ges | {aff_add(aff_mul(n, -1), num(-1))}, nes[1:])
    ges = {c for o, c in cons if o == "ge0"} | {c for o, c in cons if o == "eq0"} | {aff_mul(c, -1) for o, c in cons if o == "eq0"}
    ges |= {("i", 0, ((n, 1),)) for n in names if n[0] != "delta"}
    return split(ges, [c for o, c in cons if o == "ne0"][:8])


class Macros:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.m = MacroEng(prog)
        self.roots = {r.name: r for r in prog.roots if r.trait is None and r.name in ("quote", "quote_in", "quote_fn") and r.has_body
                      and r.path == r.name}
        self.paths = 0
        self.traces = 0

    def expected_missing(self):
        return [n for n in ("quote", "quote_in", "quote_fn") if n not in self.roots]

    # -------------------------------------------------------------- one source
    def expand(self, macro, Q, sym_ints=(), line=1, col=0, assume=()):
        lay = Lay(line, col)
        units = []
        toks = []
        if macro == "quote_in":
            toks += [lay.tok("x", leaf("expr", "target"), 4)] + lay.space() + [lay.tok("p", "=>", 2)] + lay.space()
        toks += lay.quote(Q, units)
        self.m.spans.clear()
        st = self.m.ex.state()
        for n in sym_ints:
            if n[0] != "delta":
                self.m.eng.uint.add(n)
        for op, a in assume:
            st.assume(op, a)
        for n in walk(Q):
            if n[0] in ("T", "L", "S", "K") and n[1][0] == "sym":
                st.set_fact("nonempty", n[1][1], True)
        return units, self.m.run(self.roots[macro], toks, st)

    def compare(self, macro, Q, sym_ints=(), assume=(), line=1, col=0):
        """list of (kind of complaint, text); kinds: order, ws, flow, eval, panic, reject, string, imprecise"""
        bad = []
        try:
            units, outs = self.expand(macro, Q, sym_ints, line, col, assume)
        except (Imprecise, RecursionError) as e:
            return [("imprecise", "%s" % (e,))]
        if any(n[0] == "RAW" for n in walk(Q)):
            self.paths += len(outs)
            return [("panic", "panics: %s" % (atoms,)) for kind, atoms, st in outs if kind == "panic"]
        if not outs:
            return [("imprecise", "no outcome")]
        for kind, atoms, st in outs:
            self.paths += 1
            if kind == "panic":
                bad.append(("panic", "panics: %s" % (atoms,)))
                continue
            if kind == "ok":
                has = "lang_supports_eval" in mr.show(atoms)
                if has != needs_eval(Q):
                    bad.append(("eval", "the check that the language supports interpolation is %s" % ("made although nothing is interpolated" if has else "missing")))
            for w in worlds(Q):
                def oracle(cmp):
                    o = Oracle(w, cmp)
                    try:
                        o.valid(units)
                        o.quote(units, None, ())
                    except Reject as e:
                        return ("reject", str(e))
                    return ("ok", o.out)
                got = None
                if kind == "ok":
                    try:
                        got = self.meaning(macro, atoms, w)
                    except mr.Unknown as e:
                        bad.append(("imprecise", "the expansion is not understood (%s): %s" % (e, mr.show(atoms)[:300])))
                        break
                    except mr.Wrong as e:
                        bad.append(("flow", str(e)))
                        break
                for s, exp in decisions(st, oracle):
                    self.traces += 1
                    r = self.diff(exp, kind, got, s, sym_ints, w)
                    if r is not None and sym_ints and witness(s, list(sym_ints)) is None:
                        if contradictory(s, list(sym_ints)):
                            continue
                        r = ("imprecise", "no example of: %s" % r[1])
                    if r is not None and r not in bad:
                        bad.append(r)
                if bad:
                    break
        return bad

    def meaning(self, macro, atoms, w):
        ev = mr.Eval(w)
        if macro == "quote_in":
            # a block that names the target first
            g = mr.P(atoms).group("{") if len(atoms) == 1 else atoms
            tgt = leaf("expr", "target")
            ev.primary_of = tgt
            orig = ev.primary

            def primary(p, brace):
                if p.at() == ("leaf", tgt):
                    p.i += 1
                    return ("stream", "target")
                return orig(p, brace)
            ev.primary = primary
            ev.block(g)
        else:
            v = ev.stmts(atoms)
            if v[0] != "stream":
                raise mr.Wrong("the macro does not evaluate to the stream")
        return ev.trace

    def diff(self, exp, kind, got, st, ints, w):
        if exp[0] == "reject":
            if kind == "ok":
                return ("reject", "accepted: %s%s" % (exp[1], self.at(st, ints)))
            return None
        if kind == "error":
            return ("reject", "rejected%s" % self.at(st, ints))
        a, b = self.clean(exp[1]), self.clean(got)
        if a == b:
            return None
        na, nb = [x for x in a if x[0] != "ws"], [x for x in b if x[0] != "ws"]
        na, nb = mr.normalise(na), mr.normalise(nb)
        if na != nb:
            i = next((i for i, (x, y) in enumerate(zip(na, nb)) if x != y), min(len(na), len(nb)))
            x = self.ev(na[i]) if i < len(na) else "nothing more"
            y = self.ev(nb[i]) if i < len(nb) else "nothing more"
            return ("order", "expected %s, found %s%s%s" % (x, y, self.in_world(w), self.at(st, ints)))
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        x = self.ev(a[i]) if i < len(a) else "nothing more"
        y = self.ev(b[i]) if i < len(b) else "nothing more"
        return ("ws", "expected %s, found %s after %s%s%s" % (x, y, self.ev(a[i - 1]) if i else "the start", self.in_world(w), self.at(st, ints)))

    def clean(self, tr):
        # what runs without a name for the stream cannot append to it, so its place does not matter
        out = [e for e in tr if e[0] != "check" and not (e[0] == "raw" and e[1][1][2] is None)]
        return mr.normalise(out) + [e for e in tr if e[0] == "raw" and e[1][1][2] is None]

    def at(self, st, ints):
        if not ints:
            return ""
        v = witness(st, list(ints))
        if v is None:
            return ""
        return " (with %s)" % ", ".join("%s=%s" % (k[-1] if isinstance(k, tuple) else k, v[k]) for k in ints)

    def in_world(self, w):
        r = []
        for d, f in ((w.cond, lambda v: str(v).lower()), (w.count, lambda v: "%d elements" % v), (w.matches, lambda v: "matches" if v else "does not match")):
            r += ["%s: %s" % (k[1][-1], f(v)) for k, v in d.items()]
        return " (%s)" % ", ".join(r) if r else ""

    def ev(self, e):
        def nm(v):
            if v[0] == "sym":
                return str(v[1][-1])
            if v[0] == "s":
                return repr(v[1])
            if v[0] == "ident":
                return nm(v[1])
            return str(v)
        if e[0] == "text":
            return "text %s" % " ".join(nm(p) for p in e[1])
        if e[0] == "ws":
            r = [("", "a line break", "an empty line")[e[1]], "%+d levels" % e[2] if e[2] else "", "a space" if e[3] else ""]
            return " and ".join(x for x in r if x)
        if e[0] == "item":
            return "%s%s" % (e[1], "(%s)" % (e[2],) if len(e) > 2 else "")
        if e[0] in ("eval", "append", "raw"):
            return "%s %s%s" % (e[0], nm(e[1]), " under %s" % ", ".join(self.bind(x) for x in e[2]) if e[2] else "")
        return str(e)

    def bind(self, x):
        def nm(v):
            return str(v[1][-1]) if v[0] == "sym" else "%s of %s" % (v[0], nm(v[1])) + (" %d" % v[2] if len(v) > 2 else "") if v[0] in ("elem", "value") else str(v)
        if x[0] == "if":
            return "if " + nm(x[1])
        if x[0] == "attrs":
            return "attributes %s" % " ".join(nm(a) for a in x[1])
        return "%s = %s" % (nm(x[0]), nm(x[1]))


def show(Q):
    r = ""
    for s, n in Q:
        if isinstance(s, tuple) and s[0] == "row":
            r += "\\n" * (1 + (s[2] if isinstance(s[2], int) else 1)) + "@%s " % (s[1] if isinstance(s[1], int) else s[1][2][0][0][-1] if s[1][2] else s[1][1])
        elif s:
            r += " "
        if n is None:
            continue
        if n[0] == "Tall":
            r, n = r + "<over several lines>", n[1]
        k = n[0]
        nm = lambda v: v[1] if v[0] == "s" else str(v[1][-1])
        if k == "T": r += nm(n[1])
        elif k == "W": r += n[2]
        elif k == "S": r += '"%s"' % nm(n[1])
        elif k == "L": r += '$("%s")' % nm(n[1])
        elif k == "I": r += "$" + n[1]
        elif k == "X": r += "$(%s)" % nm(n[1])
        elif k == "C": r += "$[%r]" % n[1]
        elif k == "Esc": r += "$$"
        elif k == "K": r += '$[const]("%s")' % nm(n[1])
        elif k == "KX": r += '$[const](%s)' % nm(n[1])
        elif k == "E": r += "$(%s)" % show(n[1])
        elif k == "G": r += n[1] + show(n[2]) + CLOSE[n[1]]
        elif k == "Str": r += "$[str](%s)" % show(n[1])
        elif k == "If": r += "$(if %s %s)" % (nm(n[1]), "=> " + show(n[2]) if n[4] else "{%s}%s" % (show(n[2]), " else {%s}" % show(n[3]) if n[3] is not None else ""))
        elif k == "For": r += "$(for %s in %s%s %s)" % (nm(n[1]), nm(n[2]), " join (%s)" % show(n[3]) if n[3] is not None else "", "=> " + show(n[4]) if n[5] else "{%s}" % show(n[4]))
        elif k == "Match": r += "$(match %s {%s})" % (nm(n[1]), "".join("%s%s%s => %s%s" % ("".join("#[%s] " % nm(x) for x in a[0]), nm(a[1]), " if %s" % nm(a[2]) if a[2] else "",
                                                      show(a[3]) if a[4] == "bare" else a[4] + show(a[3]) + CLOSE[a[4]], ", " if a[5] else " ") for a in n[2]))
        elif k == "LetS": r += "$(let %s = %s {..})" % (nm(n[1]), nm(n[2]))
        elif k == "Let": r += "$(let %s = %s)" % (nm(n[1]), nm(n[2]))
        elif k == "RAW": r += show_raw(n[1])
        elif k == "Ref": r += "$(ref %s %s)" % (n[1] or "_", "{..}" if n[3] else "=> ..")
    return r


def show_raw(xs):
    return " ".join(x if isinstance(x, str) else x[0] + show_raw(x[1]) + CLOSE[x[0]] if x[0] in CLOSE else repr(x[1]) if x[0] == "lchar" else '"%s"' % x[1] if x[0] == "lstr" else "<%s>" % x[0] if x[0] != "id" else x[1] for x in xs)


# ------------------------------------------------------------------ families
def V(*n):
    return ("i", 0, ((n, 1),))


MACROS = ("quote", "quote_in", "quote_fn")
A, B, D = T("a"), T("b"), T("d")


def contents():
    """one node of each kind, by name"""
    return {
        "token": T("a"), "literal": L("l"), "empty literal": L(""), "string": S("s"), "empty string": S(""), "identifier": I("x"),
        "expression": X("e"), "space": C(" "), "line": C("\n"), "push": C("\r"), "escape": ESC, "scope": Ref("tk", "r"),
        "group": G("(", T("g")), "braces": G("{", X("h")), "empty group": G("["), "quoted": Str(T("w")), "let": Let("p", "v"),
    }


def rename(n, tag):
    """the same node with names of its own"""
    if isinstance(n, tuple):
        if n[:1] == ("sym",) and n[1][0] == "leaf":
            return ("sym", n[1] + (tag,)) if tag else n
        return tuple(rename(x, tag) for x in n)
    return n


def flows():
    return {
        "if": If("c", q(T("y"))), "if else": If("c", q(T("y")), q(T("z"))), "if arrow": If("c", q(T("y"), 1, X("y2")), arrow=True),
        "if empty": If("c", q(), q(T("z"))), "if empty else": If("c", q(T("y")), q()),
        "for": For("p", "e", q(T("y")), arrow=False), "for arrow": For("p", "e", q(X("y"))), "for join": For("p", "e", q(X("y")), q(T("j"), 1)),
        "for join braces": For("p", "e", q(X("y")), q(T("j"), X("k")), arrow=False), "for empty": For("p", "e", q(), q(T("j")), arrow=False),
        "for empty join": For("p", "e", q(T("y")), q()),
        "match": Match("m", Arm("p1", q(T("y")), form="{", comma=False), Arm("p2", q(X("z")), form="{", comma=False)),
        "match bare": Match("m", Arm("p1", q(T("y"), 1, X("y2")), form="bare"), Arm("p2", q(T("z")), form="bare")),
        "match guard": Match("m", Arm("p1", q(T("y")), guard="g", form="("), Arm("p2", q(T("z")), guard="g2", form="bare"), Arm("p3", q(T("w")), form="bare", comma=False)),
        "match attributes": Match("m", Arm("p1", q(T("y")), attrs=("at",), form="bare"), Arm("p2", q(T("z")), attrs=("at1", "at2"), guard="g", form="{")),
        "match alternatives": Match("m", Arm("p1|p2", q(T("y")), form="bare"), Arm("|p3|p4", q(T("z")), guard="g")),
        "let": Let("p", "v"), "let struct": LetS("p", "v"), "scope": Ref("tk", "r"), "scope arrow": Ref("tk", "r", False), "scope without name": Ref(None, "r"),
        "match empty": Match("m"), "match empty arm": Match("m", Arm("p1", q()), Arm("p2", q(), form="(")),
        "match mixed": Match("m", Arm("p1", q(T("y"))), Arm("p2", q(T("z"), 1, T("w")), form="("), Arm("p3", q(X("u")), form="{", comma=False)),
    }


def strings():
    return {
        "empty": Str(), "word": Str(T("w")), "const": Str(K("k")), "const empty": Str(K("")), "const expr": Str(KX("k")),
        "ident": Str(I("v")), "eval": Str(E(T("w"))), "eval empty": Str(E()), "escape": Str(ESC), "group": Str(G("(", T("w"))),
        "group ident": Str(G("{", I("v"))), "group group": Str(G("[", 1, G("(", E(X("v"))), 1)),
        "eval string": Str(E(Str(I("v")))), "eval expr": Str(E(X("v"))), "eval literal": Str(E(S("w"))),
    }


def parts():
    return {"word": T("w"), "ident": I("v"), "eval": E(X("v")), "const": K("k"), "const empty": K(""), "const expr": KX("k"), "escape": ESC,
            "group": G("(", T("w"), 1, I("u")), "eval tokens": E(T("w"), 1, X("v"))}


COMMA = W("p", ",")
WORDS = [W("kw", k) for k in ("if", "else", "for", "in", "match", "let", "ref", "const")] + [W("id", i) for i in ("join", "str")] + \
    [W("p", p) for p in ("=>", "=", ",", "_", "#", ":", ";")]


class Case:
    def __init__(self, fam, macro, Q, ints=(), assume=(), col=0):
        self.fam, self.macro, self.Q, self.ints, self.assume, self.col = fam, macro, Q, tuple(ints), tuple(assume), col

    def name(self):
        return "%s! { %s }" % (self.macro, show(self.Q))


SEPS = (0, 1, ("row", 0, 0), ("row", 4, 0))


def pairs(fam, xs, ys, seps, macros):
    for i, (na, a) in enumerate(xs.items()):
        for j, (nb, b) in enumerate(ys.items()):
            for s in seps:
                for m in macros:
                    yield Case(fam, m, q(rename(a, "1"), s, rename(b, "2")))


def fam_order(tier):
    c = contents()
    deep = tier == "thorough"
    for n, a in c.items():
        for m in MACROS:
            yield Case("one node", m, q(a))
    for m in MACROS:
        yield Case("nothing", m, q())
    yield from pairs("two nodes", c, c, SEPS if deep else (0, 1), MACROS if deep else ("quote_in",))
    few = c if deep else {k: c[k] for k in ("token", "string", "expression", "group", "line", "let", "scope")}
    for (na, a), (nb, b), (nc, d) in itertools.product(few.items(), few.items(), few.items()):
        yield Case("three nodes", "quote_in" if deep else MACROS[(len(na) + len(nb) + len(nc)) % 3], q(rename(a, "1"), rename(b, "2"), rename(d, "3")))
    # words and punctuation that mean something elsewhere
    for w in WORDS:
        for m in MACROS:
            yield Case("words", m, q(w, 1, X("e"), w))
        yield Case("words", "quote_in", q(I("x"), w, 1, G("(", w), w, G("{", 1, T("y"), 1), 1, T("z")))
        yield Case("words", "quote", q(If("c", q(w, 1, T("y")), q(T("z"), w)), w, G("{", w, 1)))
        yield Case("words", "quote", q(Str(w, T("y"), 1, w), w, 1, S("s")))
    # all contents inside of each delimiter, and nested groups
    for n, a in c.items():
        for d in "({[":
            yield Case("inside of a group", "quote_in", q(A, G(d, 1, rename(a, "1"), G("(", rename(a, "2")), 1), B))


def fam_flow(tier):
    f, c = flows(), contents()
    deep = tier == "thorough"
    for n, a in f.items():
        for m in MACROS:
            yield Case("one statement", m, q(A, 1, a, 1, B))
    for x in commas():
        yield Case("commas", "quote_in", x)
    yield Case("no else", "quote_in", q(If("c", q())))
    # each kind of content before, after and inside of each kind of statement
    for (n, a), (k, x) in itertools.product(f.items(), c.items()):
        if deep or k in ("token", "string", "expression", "line", "let", "quoted"):
            yield Case("statement and content", "quote_in" if deep else "quote", q(rename(x, "1"), a, 1, rename(x, "2")))
    for k, x in c.items():
        x, y, z = rename(x, "1"), rename(x, "2"), rename(x, "3")
        if k == "let":
            continue
        for n, a in (("if", If("c", q(x), q(y))), ("for", For("p", "e", q(x), q(y))), ("match", Match("m", Arm("p1", q(x, z) if k not in ("group", "braces") else q(T("o"), x), form="bare"), Arm("p2", q(y), form="(")))):
            yield Case("content in a statement", "quote_in", q(a, B))
    inner = f if deep else {k: f[k] for k in ("if else", "for join", "match guard")}
    for (n, a), (k, x) in itertools.product(flowers(deep), inner.items()):
        yield Case("statement in a statement", "quote_in", q(a(rename(x, "i")), 1, B))
    for (n, a), (k, b) in itertools.product(f.items(), f.items()):
        if deep or n in inner or k in inner:
            yield Case("two statements", "quote_in" if deep else "quote", q(rename(a, "1"), rename(b, "2")))


def commas():
    """commas do not end a bare body inside of delimiters"""
    deep = q(T("f"), G("(", T("a"), COMMA, 1, G("[", T("b"), COMMA, T("c"), G("{", COMMA)), COMMA))
    deep2 = q(T("f"), G("(", G("[", T("b"), COMMA, T("c"), G("{", COMMA), COMMA)), G("{", COMMA, T("d")))
    for x in (deep, deep2):
        yield q(Match("m", Arm("p1", x, form="bare"), Arm("p2", q(T("z")), form="bare")))
        yield q(Match("m", Arm("p1", x + ((0, T("w")),), form="bare", guard="g"), Arm("p2", x, form="(")))
        yield q(Match("m", Arm("p1", q(T("w"), If("c", x, x)), form="bare"), Arm("p2", q(T("w"), Str(*[y for _, y in x])), form="bare", comma=False)))
    flat = q(T("f"), COMMA, 1, X("g"), COMMA)
    yield q(If("c", flat, arrow=True))
    yield q(For("p", "e", flat), COMMA)
    yield q(For("p", "e", flat, q(COMMA), arrow=False), 1, COMMA)
    yield q(Match("m", Arm("p1", flat), Arm("p2", flat, form="(")), COMMA)
    yield q(Match("m", Arm("p1", q(T("w"), If("c", flat)), form="bare"), Arm("p2", q(For("p", "e", flat)), form="bare")), COMMA)


def flowers(deep):
    r = {
        "then": lambda x: If("oc", q(x, T("o")), q(T("o2"))), "else": lambda x: If("oc", q(T("o")), q(T("o2"), x)),
        "body": lambda x: For("op", "oe", q(T("o"), x), q(T("oj"))), "join": lambda x: For("op", "oe", q(T("o")), q(x)),
        "arm": lambda x: Match("om", Arm("op1", q(x)), Arm("op2", q(T("o")))),
    }
    if deep:
        r.update({
            "group": lambda x: G("(", T("o"), x, T("o2")), "last arm": lambda x: Match("om", Arm("op1", q(T("o")), guard="og", form="bare"), Arm("op2", q(x, 1, T("o2")), form="bare")),
            "arrow": lambda x: If("oc", q(T("o"), x), arrow=True), "paren arm": lambda x: Match("om", Arm("op1", q(x), form="(")),
            "body without join": lambda x: For("op", "oe", q(x), arrow=False),
        })
    return r.items()


def fam_string(tier):
    s, c, p = strings(), contents(), parts()
    deep = tier == "thorough"
    for n, a in s.items():
        for m in MACROS:
            yield Case("one string", m, q(A, 1, a, B))
        for k, x in c.items():
            if deep or k in ("token", "expression", "string", "line"):
                yield Case("string and content", "quote", q(rename(x, "1"), a, rename(x, "2")))
    for (na, a), (nb, b) in itertools.product(p.items(), p.items()):
        for g in (0, 1, 3) if deep else (0, 2):
            yield Case("two parts", "quote_in", q(Str(rename(a, "1"), g, rename(b, "2")), B))
        yield Case("parts with spaces around", "quote", q(Str(1, rename(a, "1"), rename(b, "2"), 2)))
    if deep:
        for (na, a), (nb, b), (nc, d) in itertools.product(p.items(), p.items(), p.items()):
            yield Case("three parts", "quote_in", q(Str(rename(a, "1"), rename(b, "2"), 1, rename(d, "3"))))
    for (na, a), (nb, b) in itertools.product(p.items(), p.items()):
        if deep or nb in ("word", "ident", "eval"):
            yield Case("parts in a group", "quote_in", q(Str(T("w"), G("(", rename(a, "1"), 1, rename(b, "2"), 1), 1, rename(a, "3"))))
    # where strings can be: in what is interpolated, in statements, in groups
    for n, a in s.items():
        if not deep and n not in ("word", "ident", "eval", "group ident", "const expr"):
            continue
        for k, f in flowers(True):
            yield Case("string in a statement", "quote", q(f(a)))
        yield Case("string in a string", "quote_in", q(Str(T("w"), E(a, X("u")), 1, K("k2"))))
        yield Case("string in a group", "quote_fn", q(G("{", A, G("(", a))))
    for n, f in flows().items():
        if deep or n in ("if else", "for join", "match bare"):
            yield Case("statement in a string", "quote_in", q(Str(T("w"), 1, E(f), 1, I("v"))))
    for n, f in c.items():
        yield Case("content in a string", "quote_in", q(Str(E(1, f, B), 1)))


def rows(fam, macro, n, blanks=None, mk=None, col=True, inner=False):
    """n rows, each in a column of its own"""
    names = [("column", i) for i in range(n)]
    mk = mk or (lambda i: T("t%d" % i))
    xs = [mk(0)]
    for i in range(1, n):
        xs += [("row", V("column", i), blanks[i - 1] if blanks else 0), mk(i)]
    return Case(fam, macro, q(*xs), names, (), V("column", 0))


def fam_ws(tier):
    deep = tier == "thorough"
    c = contents()
    for n in range(1, 7 if deep else 5):
        for m in MACROS if n < 4 else ("quote_in",):
            for bl in itertools.product((0, 1), repeat=n - 1):
                if deep or n < 4 or sum(bl) in (0, n - 1, 1):
                    if n > 5 and sum(bl) not in (0, 1):
                        continue
                    yield rows("rows of tokens", m, n, bl)
    # any number of empty lines
    for n in (2, 3):
        k = rows("rows with empty lines", "quote_in", n, [aff_add(ONE, V("empty", i)) for i in range(n - 1)])
        k.ints += tuple(("empty", i) for i in range(n - 1))
        yield k
    # two columns on a line, any gap
    for na, a in c.items():
        for nb, b in c.items():
            if deep or na in ("token", "string", "group") or nb in ("token", "quoted", "expression"):
                yield Case("gap in a row", "quote", q(rename(a, "1"), V("gap"), rename(b, "2")), [("gap",)])
    yield Case("gaps in a group", "quote_in", q(A, V("gap", 0), G("(", V("gap", 1), B, V("gap", 2)), V("gap", 3), D), [("gap", i) for i in range(4)])
    yield Case("gaps around a statement", "quote_in", q(A, V("gap", 0), If("c", q(V("gap", 1), B, V("gap", 2)), q(V("gap", 3), D)), V("gap", 4), D), [("gap", i) for i in range(5)])
    yield Case("gaps in a join", "quote_in", q(For("p", "e", q(X("y")), q(V("gap", 0), B, V("gap", 1))), 1, D), [("gap", 0), ("gap", 1)])
    yield Case("gaps in a join", "quote_in", q(For("p", "e", q(1, X("y"), 1), q(V("gap", 0), B, V("gap", 2), X("u"), V("gap", 1)), arrow=False), 1, D), [("gap", i) for i in range(3)])
    yield Case("gaps in an arm", "quote_in", q(Match("m", Arm("p1", q(V("gap", 0), B, V("gap", 1)), form="("), Arm("p2", q(V("gap", 2), B, V("gap", 3)))), 1, D), [("gap", i) for i in range(4)])
    yield Case("gaps in an empty join", "quote_in", q(For("p", "e", q(X("y")), q(V("gap", 0))), 1, D), [("gap", 0)])
    yield Case("gaps in an empty arm", "quote_in", q(Match("m", Arm("p1", q(V("gap", 0)), form="(")), 1, D), [("gap", 0)])
    # rows that begin with something else
    for k, x in list(c.items()) + list(flows().items()):
        if deep or k in ("string", "expression", "group", "quoted", "if else", "for join", "line", "scope", "match"):
            yield rows("rows of other nodes", "quote_in", 3 if deep or k != "match" else 2, None, lambda i, x=x: rename(x, str(i)))
            yield rows("rows of mixed nodes", "quote_in", 3, (1, 0), lambda i, x=x: T("t%d" % i) if i % 2 == 0 else rename(x, str(i)))
    # rows inside of statements and groups, and after them
    def body(i, n=3, blank=0):
        xs = [("row", V("column", i), 0), T("r%d" % i)]
        for k in range(1, n):
            xs += [("row", V("column", i + k), blank), T("r%d" % (i + k))]
        return q(*xs)
    cols = lambda n: [("column", i) for i in range(n)]
    after = (("row", V("column", 4), 0), D)
    for bl in (0, 1):
        bd = body(1, 3, bl)
        yield Case("rows in a group", "quote_in", q(A, ("G", "{", bd + ((("row", V("column", 4), 0), None),)), 1, D), cols(5), (), V("column", 0))
        yield Case("rows in a group", "quote", q(A, 1, ("G", "(", bd), *after), cols(5), (), V("column", 0))
        yield Case("rows in a branch", "quote_in", q(A, 1, If("c", bd), *after), cols(5), (), V("column", 0))
        yield Case("rows in a branch", "quote", q(If("c", q(B), bd), *after), cols(5), (), V("column", 0))
        yield Case("rows in a loop", "quote_in", q(A, ("row", V("column", 0), 0), For("p", "e", bd, arrow=False), *after), cols(5), (), V("column", 0))
        # what is around the rows of a join or of an arm in parentheses is on their lines: rows at its edges have no documented meaning
        jd = q(V("gap", 0), B) + body(1, 2, bl) + q(V("gap", 1), B, V("gap", 2))
        yield Case("rows in a join", "quote_in", q(A, 1, For("p", "e", q(X("y")), jd), 1, D), cols(3) + [("gap", i) for i in range(3)], (), V("column", 0))
        yield Case("rows in an arm", "quote_in", q(A, 1, Match("m", Arm("p1", bd), Arm("p2", q(B), form="bare")), *after), cols(5), (), V("column", 0))
        yield Case("rows in an arm", "quote_in", q(A, 1, Match("m", Arm("p1", jd, form="(")), 1, D), cols(3) + [("gap", i) for i in range(3)], (), V("column", 0))
        yield Case("rows in a string", "quote_in", q(A, 1, ("Str", ((0, ("E", bd)),)), 1, D), cols(4), (), V("column", 0))
    # a statement whose body is deeper than what follows it, twice
    yield Case("rows at two depths", "quote_in", q(A, ("row", V("column", 1), 0), If("c", q(("row", V("column", 2), 0), B)), ("row", V("column", 3), 0), D), cols(4), (), V("column", 0))
    if deep:
        yield Case("rows at three depths", "quote_in",
                   q(A, ("row", V("column", 1), 0), If("c", q(("row", V("column", 2), 0), B, ("row", V("column", 3), 1), For("p", "e", q(("row", V("column", 4), 0), B), arrow=False))),
                     ("row", V("column", 5), 0), D), cols(6), (), V("column", 0))


def fam_panic(tier):
    deep = tier == "thorough"
    # tokens and interpolations over several lines, and places that go back
    tall = {"token": T("a"), "literal": L("l"), "expression": X("e"), "string": S("s")}
    for k, x in tall.items():
        for m in MACROS:
            t = ("Tall", x, ("row", V("column", 0), 0))
            yield Case("nodes over several lines", m, q(t, V("gap"), B, ("row", V("column", 1), 0), D), [("column", 0), ("column", 1), ("gap",)], (), V("start"))
    for n in (2, 3, 4) if deep else (2, 3):
        for k, x in tall.items():
            xs, names = [T("t0")], [("column", 0)]
            for i in range(1, n):
                xs += [("row", V("column", i), V("delta", i)), rename(x, str(i))]
                names += [("column", i), ("delta", i)]
            for m in MACROS if k == "token" and n < 4 else ("quote_in",):
                yield Case("places that go back", m, q(*xs), names, (), V("column", 0))
    yield Case("places that go back", "quote_in", q(A, If("c", q(("row", V("column", 1), V("delta", 1)), B)), ("row", V("column", 2), V("delta", 2)), D),
               [("column", 1), ("delta", 1), ("column", 2), ("delta", 2)])
    yield Case("places that go back", "quote_in", q(A, For("p", "e", q(X("y")), q(("row", V("column", 1), V("delta", 1)), B, ("row", V("column", 2), V("delta", 2)))), D),
               [("column", 1), ("delta", 1), ("column", 2), ("delta", 2)])
    # strings on several lines, or from several places (the width of a gap is a number of spaces to write: no symbolic columns)
    for k, x in parts().items():
        for l1, c1, l2, c2 in itertools.product((0, 1, -1), (0, 9), (0, 1, -1), (0, 30)) if deep or k in ("word", "eval") else ((0, 0, 0, 0), (1, 0, 0, 30), (-1, 9, 0, 0)):
            yield Case("strings over several lines", "quote_in", q(Str(T("w0"), ("row", c1, num(l1)), x, ("row", c2, num(l2))), B), (), (), 5)
    for c in (0, 5, 50):
        yield Case("strings over several lines", "quote_in", q(Str(("E", ((0, ("Tall", X("v"), ("row", c, 0))),)), 1, T("w")), B))
        yield Case("strings over several lines", "quote_in", q(Str(("E", ((0, ("Tall", X("v"), ("row", c, 0))),))), B))
        yield Case("strings over several lines", "quote_in", q(Str(("Tall", T("v"), ("row", c, 0)), 1, I("v")), B))
    # rows inside of interpolations, statements and groups that end on other lines than they begin
    r2 = (("row", V("column", 0), 0), B), (("row", V("column", 1), V("delta", 1)), D), (("row", V("column", 2), V("delta", 2)), None)
    ints = [("column", 0), ("column", 1), ("delta", 1), ("column", 2), ("delta", 2)]
    for k, n in (("string", ("Str", ((0, ("E", r2)),))), ("string with space", ("Str", ((1, ("E", r2[1:])), (1, None)))), ("branch", If("c", r2)), ("loop", For("p", "e", r2, arrow=False)),
                 ("join", For("p", "e", q(X("y")), r2[1:])), ("arm", Match("m", Arm("p1", r2[1:], form="("))), ("group", ("G", "[", r2))):
        yield Case("rows in a " + k, "quote_in", q(A, n, D), ints)
    # what is not a source
    for m, xs in malformed(deep):
        yield Case("malformed sources", m, q(("RAW", tuple(xs))))


def malformed(deep):
    x, pat, raw, t, s = ("x", "x"), ("pat", "p"), ("raw", "r"), ("tt", "t"), ("lstr", "s")
    idt = ("id", "v")
    br, pa, em = ("{", (t,)), ("(", (t,)), ("{", ())
    words = ["if", "else", "for", "in", "match", "let", "ref", "const", "=>", "=", ",", "_", "$", idt, ("id", "str"), ("id", "join"), x, pat, s, ("lchar", " "), t, br, pa, ("[", ()), "#"]
    for w in words:
        yield "quote", ["$", w]
        yield "quote_fn", [w]
        yield "quote_in", ["$", ("(", (w,))]
        yield "quote_in", ["$", ("[", (w,))]
        yield "quote_in", ["$", ("[", (("id", "str"),)), w]
        yield "quote_in", ["$", ("[", (("id", "str"),)), ("(", (w,))]
        yield "quote_in", ["$", ("[", (("id", "str"),)), ("(", ("$", w))]
        yield "quote_in", ["$", ("[", (("id", "str"),)), ("(", (("(", ("$", w)),))]
        yield "quote_in", ["$", ("[", ("const",)), ("(", (w,))]
        yield "quote_in", ["$", ("[", (("id", "str"),)), ("(", ("$", ("[", ("const",)), ("(", (w,))))]
        yield "quote_in", ["$", ("[", (("id", "str"),)), ("(", ("$", ("[", (w,)), pa))]
    for m in MACROS:
        yield m, ["$"]
        yield m, [t, "$"]
        yield m, ["$", ("[", ())]
        yield m, ["$", ("(", ())]
        yield m, [("(", ("$",))]
    for c in "xt\0":
        yield "quote", ["$", ("[", (("lchar", c),))]
    valid = [
        ["if", x, br], ["if", x, br, "else", br], ["if", x, "=>", t, t], ["if", x, em, "else", em],
        ["for", pat, "in", x, br], ["for", pat, "in", x, "=>", t], ["for", pat, "in", x, ("id", "join"), pa, "=>", t], ["for", pat, "in", x, ("id", "join"), pa, br],
        ["match", x, ("{", (pat, "=>", t, ",", pat, "=>", br))], ["match", x, ("{", (pat, "if", x, "=>", pa, ","))], ["match", x, ("{", (("attr", "a"), pat, "=>", t))],
        ["let", pat, "=", x], ["ref", idt, br], ["ref", "_", "=>", raw], ["ref", idt, "=>", raw],
    ]
    subs = words if deep else ["else", "in", "=>", ",", "$", x, br]
    seen = set()
    for v in valid:
        for y in mutations(v, subs):
            y = tuple(y)
            if y not in seen:
                seen.add(y)
                yield "quote_in", ["$", ("(", y)]
                if deep:
                    yield "quote", [t, "$", ("(", y), t]


def mutations(v, subs):
    """prefixes, one token less, one token other or more; the same within groups"""
    yield v
    for i in range(len(v)):
        yield v[:i]
        yield v[:i] + v[i + 1:]
        for w in subs:
            yield v[:i] + [w] + v[i + 1:]
            yield v[:i] + [w] + v[i:]
        if isinstance(v[i], tuple) and v[i][0] in CLOSE:
            for y in mutations(list(v[i][1]), subs[:4]):
                yield v[:i] + [(v[i][0], tuple(y))] + v[i + 1:]
    for w in subs:
        yield v + [w]


FAMS = {"panic": fam_panic, "order": fam_order, "flow": fam_flow, "string": fam_string, "ws": fam_ws}
_shared = None


def _one(i):
    M, cases = _shared
    c = cases[i]
    p, t = M.paths, M.traces
    import time
    t0 = time.time()
    M.m.eng.t0 = time.process_time()
    try:
        r = M.compare(c.macro, c.Q, c.ints, c.assume, 1, c.col)
    except Exception as e:
        r = [("imprecise", "%s: %s" % (type(e).__name__, str(e)[:200]))]
    return i, r, M.paths - p, M.traces - t, time.time() - t0


def run_cases(M, cases):
    """compare every case, on all processors"""
    global _shared
    import multiprocessing as mp, os
    _shared = (M, cases)
    n = min(os.cpu_count() or 1, 8)
    with mp.get_context("fork").Pool(n) as pool:
        for r in pool.imap_unordered(_one, range(len(cases)), chunksize=4):
            yield r


def check_family(progs, rep, fam, kinds):
    prog = progs["genco_macros"] if "genco_macros" in progs else None
    if prog is None:
        rep.ob("macros", "genco-macros", False, "the macros were not found", "imprecise|macros")
        return
    M = Macros(prog, rep)
    for n in M.expected_missing():
        rep.ob("macros", n, False, "the macro %s was not found" % n, "imprecise|%s" % n)
    cases = [c for c in FAMS[fam](rep.tier) if c.macro in M.roots]
    slow = []
    for i, r, p, t, dt in run_cases(M, cases):
        c = cases[i]
        rep.count("paths of the macros", p)
        rep.count("expansions compared", t)
        slow.append((dt, c.name()))
        r = [x for x in r if x[0] in kinds or x[0] == "imprecise"]
        if not r:
            rep.ob(c.fam, c.name(), True)
        for k, text in r[:3]:
            key = "%s%s|%s" % ("imprecise|" if k == "imprecise" else "", k, c.name())
            rep.ob(c.fam, "genco-macros: " + c.name(), False, text, key)
    slow.sort(reverse=True)
    rep.note("slowest: %s" % "; ".join("%.1fs %s" % (a, b) for a, b in slow[:3]))


def check_order(progs, rep):
    check_family(progs, rep, "order", ("order", "flow", "reject"))


def check_ws(progs, rep):
    check_family(progs, rep, "ws", ("ws", "reject"))


def check_flow(progs, rep):
    check_family(progs, rep, "flow", ("order", "flow", "reject"))


def check_string(progs, rep):
    check_family(progs, rep, "string", ("order", "flow", "eval", "reject"))


def check_panic(progs, rep):
    check_family(progs, rep, "panic", ("panic",))
