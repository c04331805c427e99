"""Meaning of the generated statements: what they do to the stream, for given conditions, element counts and arms.

The macros produce Rust; only the forms they could reasonably produce are known here, anything else raises
Unknown, and is reported as undecided."""


class Unknown(Exception):
    pass


class Wrong(Exception):
    """the statements cannot compile, or do something no quoted code may do"""


class Break(Exception):
    pass


class Continue(Exception):
    pass


class World:
    """cond: leaf -> bool, count: leaf -> number of elements, matches: pattern leaf -> bool; default True / 2 / True"""

    def __init__(self, cond=None, count=None, matches=None):
        self.cond, self.count, self.matches = cond or {}, count or {}, matches or {}


def show(atoms):
    r = []
    for a in atoms:
        if a[0] == "g":
            r.append({"(": "(%s)", "{": "{ %s }", "[": "[%s]", "": "%s"}[a[1]] % show(a[2]))
        elif a[0] == "i":
            r.append(a[1][1] if a[1][0] == "s" else "<ident>")
        elif a[0] == "p":
            r.append(a[1])
        elif a[0] == "lit":
            r.append('"%s"' % "".join(p[1] if p[0] == "s" else "<%s>" % (p[1][-1],) for p in a[1]))
        elif a[0] == "leaf":
            r.append("<%s>" % (a[1][1][-1] if isinstance(a[1][1][-1], str) else "..",))
        else:
            r.append(str(a[1]) if len(a) > 1 else a[0])
    return " ".join(r)


class P:
    """cursor over atoms"""

    def __init__(self, atoms):
        self.a, self.i = list(atoms), 0

    def end(self):
        return self.i >= len(self.a)

    def at(self, k=0):
        return self.a[self.i + k] if self.i + k < len(self.a) else ("end",)

    def is_i(self, s, k=0):
        return self.at(k) == ("i", ("s", s))

    def is_p(self, s, k=0):
        return self.at(k) == ("p", s)

    def is_g(self, d, k=0):
        return self.at(k)[0] == "g" and self.at(k)[1] == d

    def name(self):
        a = self.at()
        if a[0] != "i":
            raise Unknown("a name expected at %s" % show(self.a[self.i:self.i + 4]))
        self.i += 1
        return a[1]

    def eat_p(self, s):
        if not self.is_p(s):
            raise Unknown("%s expected at %s" % (s, show(self.a[self.i:self.i + 4])))
        self.i += 1

    def eat_i(self, s):
        if not self.is_i(s):
            raise Unknown("%s expected at %s" % (s, show(self.a[self.i:self.i + 4])))
        self.i += 1

    def group(self, d):
        if not self.is_g(d):
            raise Unknown("%s..  expected at %s" % (d, show(self.a[self.i:self.i + 4])))
        self.i += 1
        return self.a[self.i - 1][2]


UNIT = ("unit",)


class Eval:
    def __init__(self, world):
        self.w = world
        self.trace = []
        self.scopes = [{}]
        self.env = ()
        self.steps = 0
        self.result = None

    # ----- scopes
    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None

    def cell(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s
        raise Unknown("unknown name %s" % (n,))

    def scoped(self, f):
        self.scopes.append({})
        env = self.env
        try:
            return f()
        finally:
            self.scopes.pop()
            self.env = env

    def ev(self, *e):
        self.trace.append(e)

    # ----- statements
    def block(self, atoms):
        return self.scoped(lambda: self.stmts(atoms))

    def stmts(self, atoms):
        p = P(atoms)
        val = UNIT
        while not p.end():
            self.steps += 1
            if self.steps > 5000:
                raise Unknown("too many steps")
            val = self.stmt(p)
        return val

    def stmt(self, p):
        if p.is_p(";"):
            p.i += 1
            return UNIT
        if p.is_i("let"):
            p.i += 1
            pat = self.pattern(p)
            if p.is_p(":"):
                while not p.is_p("="):
                    if p.end():
                        raise Unknown("type")
                    p.i += 1
            p.eat_p("=")
            v = self.expr(p)
            if p.is_i("else"):
                p.i += 1
                other = p.group("{")
                p.eat_p(";")
                if not self.bind(pat, v):
                    self.block(other)
                    raise Unknown("the else of a let goes on")
                return UNIT
            p.eat_p(";")
            if not self.bind(pat, v):
                raise Unknown("refutable let")
            return UNIT
        if p.at()[0] == "leaf" and p.at()[1][1][1:2] == ("raw",):
            self.ev("raw", p.at()[1], self.env)
            p.i += 1
            return UNIT
        if self.blocklike(p):
            v = self.expr_block(p)
            if p.is_p(";"):
                p.i += 1
                v = UNIT
            elif p.is_p("."):
                v = self.postfix(p, v)
                if p.is_p(";"):
                    p.i += 1
            return v
        v = self.expr(p)
        if p.is_p(";"):
            p.i += 1
            return UNIT
        if not p.end():
            raise Unknown("statement at %s" % show(p.a[p.i:p.i + 6]))
        return v

    def blocklike(self, p):
        return p.is_g("{") or any(p.is_i(x) for x in ("if", "for", "while", "loop", "match"))

    def expr_block(self, p):
        if p.is_g("{"):
            return self.block(p.group("{"))
        if p.is_i("if"):
            return self.if_(p)
        if p.is_i("for"):
            p.i += 1
            pat = self.pattern(p)
            p.eat_i("in")
            it = self.iter(self.expr(p, brace=False))
            body = p.group("{")
            self.loop(lambda: self.next(it), pat, body)
            return UNIT
        if p.is_i("while"):
            p.i += 1
            start = p.i
            for _ in range(50):
                p.i = start
                stop = []

                def once():
                    if self.cond(p):
                        self.block(p.group("{"))
                    else:
                        p.group("{")
                        stop.append(1)
                try:
                    self.scoped(once)
                except Continue:
                    continue
                except Break:
                    p.i = start
                    self.skip_to_block(p)
                    break
                if stop:
                    break
            else:
                raise Unknown("endless loop")
            return UNIT
        if p.is_i("loop"):
            p.i += 1
            body = p.group("{")
            for _ in range(50):
                try:
                    self.block(body)
                except Continue:
                    continue
                except Break:
                    return UNIT
            raise Unknown("endless loop")
        if p.is_i("match"):
            p.i += 1
            return self.match(p)
        raise Unknown("?")

    def skip_to_block(self, p):
        while not p.is_g("{"):
            p.i += 1
        p.i += 1

    def loop(self, step, pat, body):
        for _ in range(50):
            v = step()
            if v == ("none",):
                return
            self.scopes.append({})
            env = self.env
            try:
                if not self.bind(pat, v[1]):
                    raise Unknown("refutable pattern")
                self.block(body)
            except Continue:
                continue
            except Break:
                return
            finally:
                self.scopes.pop()
                self.env = env

    def if_(self, p):
        p.eat_i("if")
        self.scopes.append({})
        env = self.env
        try:
            c = self.cond(p)
            body = p.group("{")
            v = self.block(body) if c else UNIT
        finally:
            self.scopes.pop()
            self.env = env
        if p.is_i("else"):
            p.i += 1
            if p.is_i("if"):
                if c:
                    self.skip_if(p)
                    return v
                return self.if_(p)
            e = p.group("{")
            if not c:
                v = self.block(e)
        return v

    def skip_if(self, p):
        p.eat_i("if")
        self.skip_to_block(p)
        if p.is_i("else"):
            p.i += 1
            if p.is_i("if"):
                self.skip_if(p)
            else:
                p.group("{")

    def cond(self, p):
        """a condition, which may be a `let`"""
        if p.is_i("let"):
            p.i += 1
            pat = self.pattern(p)
            p.eat_p("=")
            v = self.expr(p, brace=False)
            return self.bind(pat, v)
        if p.at()[0] == "leaf" and p.is_g("{", 1):
            l = p.at()[1]
            p.i += 1
            self.ev("eval", l, self.env)
            r = self.w.cond.get(l, True)
            if r:
                self.env = self.env + (("if", l),)
            return r
        return self.bool(self.expr(p, brace=False))

    def bool(self, v):
        if v[0] == "bool":
            return v[1]
        if v[0] == "value":
            if v[1][1][1:2] == ("cond",):
                raise Wrong("a condition, which may be a `let`, is used as a plain expression")
            return self.w.cond.get(v[1], True)
        raise Unknown("condition %s" % (v,))

    def match(self, p):
        v = self.expr(p, brace=False)
        q = P(p.group("{"))
        done = None
        while not q.end():
            attrs = []
            while q.at()[0] == "leaf" and q.at()[1][1][1:2] == ("attr",):
                attrs.append(q.at()[1])
                q.i += 1
            pat = self.pattern(q)
            self.scopes.append({})
            env = self.env
            try:
                if done is None:
                    self.env = self.env + (("attrs", tuple(attrs)),)
                hit = done is None and self.bind(pat, v)
                if q.is_i("if"):
                    q.i += 1
                    if hit:
                        if q.at()[0] == "leaf" and q.is_p("=>", 1):
                            l = q.at()[1]
                            q.i += 1
                            self.ev("eval", l, self.env)
                            hit = self.w.cond.get(l, True)
                        else:
                            hit = self.bool(self.expr(q, brace=True, stop="=>"))
                    else:
                        while not q.is_p("=>"):
                            if q.end():
                                raise Unknown("guard")
                            q.i += 1
                q.eat_p("=>")
                if q.is_g("{"):
                    b = q.group("{")
                    if hit:
                        done = self.block(b)
                elif hit:
                    done = self.expr(q)
                else:
                    while not q.end() and not q.is_p(","):
                        q.i += 1
            finally:
                self.scopes.pop()
                self.env = env
            if q.is_p(","):
                q.i += 1
        if done is None:
            self.ev("no arm", v)
            return UNIT
        return done

    # ----- patterns
    def pattern(self, p):
        if p.is_p("|"):
            p.i += 1
        if p.at()[0] == "leaf":
            p.i += 1
            return ("leaf", p.a[p.i - 1][1])
        if p.is_p("_"):
            p.i += 1
            return ("any",)
        if p.is_p("&"):
            p.i += 1
            return self.pattern(p)
        if p.is_g("("):
            q = P(p.group("("))
            r = []
            while not q.end():
                r.append(self.pattern(q))
                if q.is_p(","):
                    q.i += 1
            return ("tuple", tuple(r))
        if p.is_i("mut") or p.is_i("ref"):
            p.i += 1
        n = p.name()
        while p.is_p("::"):
            p.i += 1
            n = p.name()
        if n == ("s", "Some") or n == ("s", "Ok"):
            q = P(p.group("("))
            return ("some", self.pattern(q))
        if n == ("s", "None"):
            return ("nothing",)
        if n in (("s", "true"), ("s", "false")):
            return ("const", ("bool", n == ("s", "true")))
        return ("name", n)

    def bind(self, pat, v):
        k = pat[0]
        if k == "any":
            return True
        if k == "name":
            self.scopes[-1][pat[1]] = v
            if v[0] in ("value", "elem"):
                self.env = self.env + (("bound", pat[1], v),) if False else self.env
            return True
        if k == "leaf":
            if not self.w.matches.get(pat[1], True):
                return False
            self.env = self.env + ((pat[1], v),)
            return True
        if k == "some":
            return v[0] == "some" and self.bind(pat[1], v[1])
        if k == "nothing":
            return v[0] == "none"
        if k == "const":
            if v[0] == "value" and pat[1][0] == "bool":
                return self.bool(v) == pat[1][1]
            return v == pat[1]
        if k == "tuple":
            if v[0] != "tuple" or len(v[1]) != len(pat[1]):
                raise Unknown("tuple pattern for %s" % (v,))
            return all([self.bind(a, b) for a, b in zip(pat[1], v[1])])
        raise Unknown("pattern %s" % (pat,))

    # ----- iterators
    def iter(self, v):
        if v[0] == "iter":
            return v
        if v[0] == "value":
            return ("iter", {"of": v[1], "n": self.w.count.get(v[1], 2), "i": 0, "enum": False})
        if v[0] == "range":
            raise Unknown("range")
        raise Unknown("iteration over %s" % (v,))

    def nth(self, it, i):
        if i >= it["n"]:
            return ("none",)
        e = ("elem", it["of"], i)
        return ("some", ("tuple", (("int", i), e)) if it["enum"] else e)

    def next(self, v):
        it = v[1]
        r = self.nth(it, it["i"])
        it["i"] += 1
        return r

    # ----- expressions
    def expr(self, p, brace=True, stop=None):
        return self.logic(p, brace, "||")

    def logic(self, p, brace, op):
        sub = (lambda: self.logic(p, brace, "&&")) if op == "||" else (lambda: self.compare(p, brace))
        v = sub()
        while p.is_p(op):
            p.i += 1
            a = self.bool(v)
            # both sides are plain values
            b = self.bool(sub())
            v = ("bool", (a or b) if op == "||" else (a and b))
        return v

    def compare(self, p, brace):
        v = self.arith(p, brace)
        for op in ("==", "!=", "<", ">", "<=", ">="):
            if p.is_p(op):
                p.i += 1
                w = self.arith(p, brace)
                if v[0] != w[0] or v[0] not in ("int", "bool"):
                    raise Unknown("comparison")
                x, y = v[1], w[1]
                return ("bool", {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        if p.is_p("=") and not p.is_p("=", 1):
            n = p.at(-1)
            if n[0] == "i":
                p.i += 1
                w = self.expr(p, brace)
                self.cell(n[1])[n[1]] = w
                return UNIT
        if p.is_p("+="):
            n = p.at(-1)
            p.i += 1
            w = self.expr(p, brace)
            c = self.cell(n[1])
            if c[n[1]][0] != "int" or w[0] != "int":
                raise Unknown("+=")
            c[n[1]] = ("int", c[n[1]][1] + w[1])
            return UNIT
        return v

    def arith(self, p, brace):
        v = self.unary(p, brace)
        while p.is_p("+") or p.is_p("-"):
            s = 1 if p.is_p("+") else -1
            p.i += 1
            w = self.unary(p, brace)
            if v[0] != "int" or w[0] != "int":
                raise Unknown("arithmetic")
            v = ("int", v[1] + s * w[1])
        return v

    def unary(self, p, brace):
        if p.is_p("!"):
            p.i += 1
            return ("bool", not self.bool(self.unary(p, brace)))
        if p.is_p("&") or p.is_p("*"):
            p.i += 1
            if p.is_i("mut"):
                p.i += 1
            return self.unary(p, brace)
        return self.postfix(p, self.primary(p, brace))

    def args(self, p):
        q = P(p.group("("))
        r = []
        while not q.end():
            r.append(self.expr(q))
            if q.is_p(","):
                q.i += 1
            elif not q.end():
                raise Unknown("arguments at %s" % show(q.a[q.i:q.i + 5]))
        return r

    def postfix(self, p, v):
        while p.is_p(".") and p.at(1)[0] in ("i", "int"):
            p.i += 1
            if p.at()[0] == "int":
                i = p.at()[1]
                p.i += 1
                if v[0] != "tuple" or i >= len(v[1]):
                    raise Unknown("field %s of %s" % (i, v[0]))
                v = v[1][i]
                continue
            n = p.name()
            if p.is_p("::"):
                p.i += 1
                if p.is_p("<"):
                    while not p.is_p(">"):
                        p.i += 1
                    p.i += 1
            if not p.is_g("("):
                raise Unknown("field %s" % (n,))
            v = self.method(v, n[1], self.args(p))
        return v

    def primary(self, p, brace):
        a = p.at()
        if a[0] == "leaf":
            p.i += 1
            self.ev("eval", a[1], self.env)
            return ("value", a[1])
        if a[0] == "lit":
            p.i += 1
            return ("text", a[1])
        if a[0] == "int":
            p.i += 1
            return ("int", a[1])
        if p.is_g("("):
            q = P(p.group("("))
            if q.end():
                return UNIT
            v = self.expr(q)
            if q.is_p(","):
                r = [v]
                while q.is_p(","):
                    q.i += 1
                    if not q.end():
                        r.append(self.expr(q))
                v = ("tuple", tuple(r))
            if not q.end():
                raise Unknown("tuple")
            return v
        if p.is_g("{") or self.blocklike(p):
            return self.expr_block(p)
        if p.is_i("break"):
            p.i += 1
            raise Break()
        if p.is_i("continue"):
            p.i += 1
            raise Continue()
        if p.is_i("move") or p.is_p("|"):
            if p.is_i("move"):
                p.i += 1
            p.eat_p("|")
            ps = []
            while not p.is_p("|"):
                ps.append(self.pattern(p))
                if p.is_p(","):
                    p.i += 1
                elif p.is_p(":"):
                    while not p.is_p("|"):
                        p.i += 1
            p.i += 1
            if p.is_g("{"):
                return ("closure", tuple(ps), p.group("{"))
            raise Unknown("closure")
        if a[0] == "i":
            if p.is_i("true") or p.is_i("false"):
                p.i += 1
                return ("bool", p.is_i("true", -1))
            path = [p.name()]
            while p.is_p("::") or p.is_p("<"):
                if p.is_p("<"):
                    while not p.is_p(">"):
                        if p.end():
                            raise Unknown("generics")
                        p.i += 1
                    p.i += 1
                    continue
                p.i += 1
                if p.is_p("<"):
                    continue
                path.append(p.name())
            if len(path) == 1:
                v = self.lookup(path[0])
                if v is not None:
                    return v
                if not p.is_g("("):
                    # a name of the surrounding code
                    self.ev("eval", ("ident", path[0]), self.env)
                    return ("value", ("ident", path[0]))
            return self.path(p, [x[1] if x[0] == "s" else x for x in path])
        raise Unknown("expression at %s" % show(p.a[p.i:p.i + 6]))

    def path(self, p, path):
        n = path[-1]
        q = path[-2] if len(path) > 1 else None
        call = p.is_g("(")
        if q == "Item":
            if n in ("CloseQuote", "OpenEval", "CloseEval", "Space", "Push", "Line") and not call:
                return ("item", n)
            if n == "OpenQuote" and call:
                a = self.args(p)
                return ("item", n, a[0][1])
            if n == "Literal" and call:
                a = self.args(p)
                if a[0][0] == "itemstr":
                    return ("item", n, a[0][1])
        if q == "ItemStr" and n == "Static" and call:
            a = self.args(p)
            if a[0][0] == "text":
                return ("itemstr", a[0][1])
        if n == "into_iter" and q == "IntoIterator" and call:
            return self.iter(self.args(p)[0])
        if n in ("new", "default") and q == "Tokens" and call:
            self.args(p)
            return ("stream", "new")
        if n == "from_fn" and call:
            a = self.args(p)
            if len(a) == 1 and a[0][0] == "closure" and len(a[0][1]) == 1:
                self.scopes.append({})
                self.bind(a[0][1][0], ("stream", "closure"))
                self.stmts(a[0][2])
                self.scopes.pop()
                return ("stream", "from_fn")
        if n == "Some" and call:
            return ("some", self.args(p)[0])
        if n == "None":
            return ("none",)
        if n in ("take", "replace") and q == "mem" and call:
            g = P(p.group("("))
            g.eat_p("&")
            g.eat_i("mut")
            k = g.name()
            new = None
            if g.is_p(","):
                g.i += 1
                if not g.end():
                    new = self.expr(g)
            c = self.cell(k)
            old = c[k]
            if new is None:
                if old[0] not in ("bool", "int", "some", "none"):
                    raise Unknown("default of %s" % (old,))
                new = {"bool": ("bool", False), "int": ("int", 0)}.get(old[0], ("none",))
            c[k] = new
            return old
        if n == "drop" and call:
            self.args(p)
            return UNIT
        if q in ("Iterator", "IntoIterator", "Peekable", "Tokens", "Option") and call:
            a = self.args(p)
            if a:
                return self.method(a[0], n, a[1:])
        raise Unknown("path %s" % "::".join(str(x) for x in path))

    def method(self, v, n, args):
        if v[0] == "value" and v[1][0] == "sym" and n in ("into_iter", "iter"):
            return self.iter(v)
        if v[0] == "stream":
            if n == "append" and len(args) == 1:
                a = args[0]
                if a[0] == "itemstr":
                    self.ev("text", a[1])
                elif a[0] == "item":
                    self.ev(*a)
                elif a[0] == "text":
                    self.ev("text", a[1])
                elif a[0] in ("value",):
                    self.ev("append", a[1], self.env)
                else:
                    raise Unknown("append of %s" % (a,))
                return UNIT
            if n in ("space", "push", "line", "indent", "unindent") and not args:
                self.ev("ws", n)
                return UNIT
            if n == "lang_supports_eval" and not args:
                self.ev("check")
                return UNIT
            raise Unknown("method %s of a stream" % n)
        if v[0] == "iter":
            it = v[1]
            if n in ("into_iter", "iter", "by_ref", "peekable", "fuse"):
                return v
            if n == "next":
                return self.next(v)
            if n == "peek":
                return self.nth(it, it["i"])
            if n == "size_hint":
                # nothing is known about iterators in general: zero is always right as a lower bound
                return ("tuple", (("int", 0), ("none",)))
            if n in ("len", "is_empty", "next_back", "rev"):
                raise Wrong("not every iterator has %s" % n)
            if n == "enumerate":
                return ("iter", dict(it, enum=True))
        if v[0] in ("some", "none"):
            if n == "is_some":
                return ("bool", v[0] == "some")
            if n == "is_none":
                return ("bool", v[0] == "none")
        raise Unknown("method %s of %s" % (n, v[0]))


def join_parts(ps):
    out = []
    for p in ps:
        if p[0] == "s" and out and out[-1][0] == "s":
            out[-1] = ("s", out[-1][1] + p[1])
        elif p != ("s", ""):
            out.append(p)
    return tuple(out)


def normalise(trace):
    """texts merged, whitespace requests merged, each in between of the others"""
    out = []
    for e in trace:
        if e[0] == "text":
            if not e[1]:
                continue
            if out and out[-1][0] == "text":
                out[-1] = ("text", join_parts(out[-1][1] + e[1]))
            else:
                out.append(("text", join_parts(e[1])))
        elif e[0] == "item" and e[1] in ("Space", "Push", "Line") or e[0] == "ws":
            n = e[1].lower()
            run = list(out.pop()[1]) if out and out[-1][0] == "run" else []
            request(run, n)
            out.append(("run", tuple(run)))
        else:
            out.append(e)
    return [e for e in (("ws",) + realized(e[1]) if e[0] == "run" else e for e in out) if e != ("ws", 0, 0, 0)]


def request(run, n):
    """what a request for whitespace does to the pending ones (C02)"""
    if n == "space":
        if run[-1:] != ["space"]:
            run.append("space")
    elif n == "push":
        while run and run[-1] in ("space", "push"):
            run.pop()
        if run[-1:] != ["line"]:
            run.append("push")
    elif n == "line":
        while run and run[-1] in ("line", "push"):
            run.pop()
        run.append("line")
    else:
        k = {"indent": 1, "unindent": -1}[n]
        while run and (isinstance(run[-1], int) or run[-1] in ("space", "push", "line")):
            x = run.pop()
            k += x if isinstance(x, int) else 0
        if k:
            run.append(k)


def realized(run):
    """line ends, levels and spaces that formatting makes of them (C04)"""
    lines = levels = spaces = 0
    for x in run:
        if x == "space":
            spaces += 1
            continue
        spaces = 0
        lines = max(lines, 2 if x == "line" else 1)
        if isinstance(x, int):
            levels += x
    return lines, levels, spaces
