"""C03: whatever is appended to a stream arrives in it complete, unchanged and in order."""
import itertools, sys
import models
from absint import *
from exact import *
from p_tokens import TokenFns, WS

INTS = ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "isize", "usize")


def leaf(*n):
    return ("sym", ("leaf",) + n)


class Run:
    """Executes functions on streams whose contents are known; what is generic leaves a mark."""

    def __init__(self, prog):
        self.prog = prog
        self.tf = TokenFns(prog)
        self.ex = Exact(prog, intercepts=[self.intercept])
        self.eng = self.ex.eng
        self.eng.list_max = 1000
        self.item_str = [p for p, a in prog.adts.items() if p.endswith("item_str::ItemStr")][0]

    # ------------------------------------------------------------ values
    def text(self, v, kind=0):
        return ("adt", self.item_str, kind, (v,))

    def item(self, kind, *payload):
        return ("adt", self.tf.item["path"], self.tf.vi[kind], tuple(payload))

    def lit(self, *n):
        return self.item("Literal", self.text(leaf(*n)))

    def stream(self, items, last=0):
        f = [None, None]
        f[self.tf.ix_items], f[self.tf.ix_last] = ("o", "list", tuple(items)), num(last)
        return ("adt", self.tf.tokens["path"], 0, tuple(f))

    def items_of(self, st, v):
        v = strip(st, v)
        if not (v[0] == "adt" and v[1] == self.tf.tokens["path"]):
            raise Imprecise("not a stream: %s" % (str(v)[:100],))
        l = strip(st, v[3][self.tf.ix_items])
        if l[:2] != ("o", "list"):
            raise Imprecise("the items of a stream are not known: %s" % (str(l)[:120],))
        return [deep(st, x) for x in l[2]]

    # ------------------------------------------------------------ calls
    def mark(self, call, tokens, m):
        t = models.deref_place(call.st, tokens)
        if t is None:
            raise Imprecise("the stream is not known")
        v = call.st.load(t[0], t[1])
        items = self.items_of(call.st, v)
        f = list(v[3])
        f[self.tf.ix_items] = ("o", "list", tuple(items) + (m,))
        call.st.store(t[0], t[1], ("adt", v[1], v[2], tuple(f)))
        return call.done(UNIT)

    def intercept(self, call):
        d, n = call.d, call.name
        tr = models.base(d["trait"]) if d["trait"] else None
        opaque = call.inst is None or not call.inst.has_body
        if opaque and n == "format_into" and tr == "FormatInto":
            return self.mark(call, call.args[1], ("mark", "content", deep(call.st, call.args[0])))
        if opaque and n == "register" and tr == "Register":
            return self.mark(call, call.args[1], ("mark", "register", deep(call.st, call.args[0])))
        if n in ("call_once", "call_mut", "call") and opaque:
            a = strip(call.st, call.args[1])
            if a[0] == "tup" and len(a[1]) == 1:
                return self.mark(call, a[1][0], ("mark", "called", deep(call.st, call.args[0])))
        if n in ("to_string", "fmt") and opaque and call.args:
            v = strip(call.st, call.args[0])
            if v[0] == "sym" and v[1][:1] == ("leaf",) and n == "to_string":
                return call.done(("sym", ("leaf", "shown", v[1])))
        if n == "size_hint" and call.args:
            v = strip(call.st, call.args[0])
            if v[:3] == ("o", "it", "list"):
                # promises some number, up to how many there are
                i = call.st.ghost.get("hint")
                if i is None:
                    def promise(k):
                        def f(s):
                            s.ghost["hint"] = k
                        return f
                    raise Fork([promise(k) for k in sorted({0, len(v[3])})])
                if i == "exact":
                    return call.done(("tup", (num(len(v[3])), some(num(len(v[3]))))))
                return call.done(("tup", (num(min(i, len(v[3]))), sym("upper"))))
        if n == "clone" and opaque and tr == "Clone":
            v = deep(call.st, call.args[0])
            if v[0] == "sym" and v[1][:1] == ("leaf",):
                return call.done(v)
        return NotImplemented

    def run(self, inst, args, st=None):
        """outcomes (value, state); a panic is a result too"""
        out = []
        self.eng.nstates = 0
        for o in self.eng.run(inst, args, st or self.ex.state()):
            if o.kind == "ret":
                out.append((o.val, o.st))
            elif o.kind == "panic":
                out.append((("panic", o.info), o.st))
        return out

    def method(self, name, trait=None, argc=None, self_base="Tokens", path=None):
        c = [r for r in self.prog.roots if r.has_body and r.name == name and r.self_s and models.base(r.self_s.lstrip("&")) == self_base
             and (r.trait is None if trait is None else r.trait and models.base(r.trait) == trait) and (argc is None or r.argc == argc)
             and (path is None or path(r))]
        return c[0] if len(c) == 1 else None

    def made(self, st, path, x):
        """a value of the struct as its public constructor makes it of x"""
        fs = [f for f in self.prog.roots if f.has_body and f.trait is None and not f.self_s and f.argc == 1
              and self.prog.types[f.locals[0]].get("path") == path and f.name in MAKERS]
        if len(fs) != 1:
            return ("adt", path, 0, (x,))
        rs = self.run(fs[0], [x], st.copy())
        if len(rs) != 1 or isinstance(rs[0][0], tuple) and rs[0][0][0] == "panic":
            raise Imprecise("constructor %s" % fs[0].path)
        return deep(rs[0][1], rs[0][0])

    # ------------------------------------------------------------ comparing
    def same(self, st, a, b):
        a, b = self.plain(st, a), self.plain(st, b)
        return a == b

    def plain(self, st, it):
        """an item without its representation: texts as texts, no link of the chain"""
        if it[0] == "mark":
            return ("mark", it[1], deep(st, it[2]))
        if it[0] != "adt":
            return it
        k = self.tf.vn[it[2]]
        if k == "Literal":
            return (k, canon(st, tparts(st, it[3][0])))
        if k in ("Lang", "Register"):
            return (k, deep(st, it[3][1]))
        return (k,) + tuple(deep(st, x) for x in it[3])

    def show(self, p):
        if p[0] == "Literal":
            return "text %s" % (" + ".join(repr(x[1]) if x[0] == "s" else "_".join(str(y) for y in flat(x)) for x in p[1]) or "''")
        if p[0] == "mark":
            return "%s of %s" % (p[1], show_leaf(p[2]))
        return "%s%s" % (p[0], "".join(" " + show_leaf(x) for x in p[1:]))


def flat(x):
    if isinstance(x, tuple):
        for y in x:
            yield from flat(y)
    elif x not in ("sym", "leaf"):
        yield x


def show_leaf(v):
    return "_".join(str(y) for y in flat(v))[:60]


def shown(v):
    return ("sym", ("leaf", "shown", v[1]))


# ---------------------------------------------------------------- what each value must append
def lists(r):
    for n in (0, 1, 2, 3, 40):
        yield tuple(leaf("element", i) for i in range(n))


class Cases:
    """(description, argument, expected plain items) for the type a FormatInto or Register is implemented for"""

    def __init__(self, r, st):
        self.r, self.st, self.n = r, st, 0

    def ref(self, v):
        self.n += 1
        c = ("arg", self.n)
        self.st.mem[c] = v
        return ("ref", c, ())

    def lit(self, v):
        return ("Literal", canon(self.st, tparts(self.st, v)))

    def content(self, v):
        return ("mark", "content", v)

    def of(self, inst, ty, ti):
        """cases for a value of type ty"""
        t = self.r.prog.types[ti]
        if ty.startswith("&") and not ty.startswith(("&str", "&[")) and t["k"] == "ref":
            to = t["to"]
            for d, v, exp in self.of(inst, self.r.prog.tys(to), to):
                yield d, self.ref(v), exp
            return
        b = models.base(ty)
        x = leaf("x")
        prog = self.r.prog
        if ty in ("&str",) or b == "String" or (b == "Rc" and "String" in ty):
            yield "a text", x, [self.lit(x)]
        elif b == "ItemStr":
            for k in range(len(prog.adts[self.r.item_str]["variants"])):
                yield "a text", self.r.text(x, k), [self.lit(x)]
        elif b == "Arguments":
            yield "format arguments", x, [self.lit(shown(x))]
        elif ty in INTS:
            yield "an integer", x, [self.lit(shown(x))]
        elif b in ("Display", "FromFn", "QuotedFn", "RegisterFn", "StaticLiteral"):
            a = prog.adts[prog.types[ti]["path"]]
            if len(a["variants"][0]["fields"]) != 1:
                raise Imprecise("representation of %s" % b)
            v = self.r.made(self.st, prog.types[ti]["path"], x)
            exp = {"Display": [self.lit(shown(x))], "FromFn": [("mark", "called", x)], "RegisterFn": [("mark", "register", x)],
                   "QuotedFn": [("OpenQuote", boolean(False)), self.content(x), ("CloseQuote",)], "StaticLiteral": [self.lit(x)]}[b]
            yield b, v, exp
        elif b == "Cow" and "str" in ty.split("[")[0].split(",")[-1]:
            for k in (0, 1):
                yield "a %s text" % ("borrowed", "owned")[k], ("adt", prog.types[ti]["path"], k, (x,)), [self.lit(x)]
        elif b == "Cow":
            for k in (0, 1):
                for es in lists(self.r):
                    l = ("o", "list", es)
                    yield "%d %s elements" % (len(es), ("borrowed", "owned")[k]), ("adt", prog.types[ti]["path"], k, (self.ref(l) if k == 0 else l,)), \
                        [self.content(e) for e in es]
        elif b == "Vec":
            for es in lists(self.r):
                yield "%d elements" % len(es), ("o", "list", es), [self.content(e) for e in es]
        elif ty.startswith("&["):
            for es in lists(self.r):
                yield "%d elements" % len(es), self.ref(("o", "list", es)), [self.content(e) for e in es]
        elif b == "Option":
            yield "none", none(), []
            yield "some", some(x), [self.content(x)]
        elif b == "Tokens":
            r = self.r
            one = {"Literal": r.lit("l"), "Lang": r.item("Lang", num(0), leaf("import")), "Register": r.item("Register", num(0), leaf("registered")),
                   "OpenQuote": r.item("OpenQuote", boolean(True)), "CloseQuote": r.item("CloseQuote"), "OpenEval": r.item("OpenEval"), "CloseEval": r.item("CloseEval")}
            two = dict(one, Literal=r.lit("l2"), Lang=r.item("Lang", num(0), leaf("import2")))
            yield "an empty stream", r.stream([]), []
            for k in one:
                yield "a stream of %s" % k, r.stream([one[k]], 1 if k in ("Lang", "Register") else 0), [r.plain(self.st, one[k])]
            for a, c in itertools.product(one, two):
                ia, ic = one[a], two[c]
                last = 0
                if a in ("Lang", "Register"):
                    last = 1
                if c in ("Lang", "Register"):
                    ic = r.item(c, num(last), ic[3][1])
                    last = 2
                yield "a stream of %s and %s" % (a, c), r.stream([ia, ic], last), [r.plain(self.st, ia), r.plain(self.st, ic)]
        elif b == "Item":
            r = self.r
            for it in (r.lit("l"), r.item("Lang", num(0), leaf("import")), r.item("Register", num(0), leaf("registered")),
                       r.item("OpenQuote", boolean(True)), r.item("OpenQuote", boolean(False)), r.item("CloseQuote"), r.item("OpenEval"), r.item("CloseEval")):
                p = r.plain(self.st, it)
                yield "item %s" % p[0], it, [p]
        elif ty.startswith("(") and ty.endswith(")"):
            n = len([y for y in ty[1:-1].split(",") if y.strip()])
            es = tuple(leaf("element", i) for i in range(n))
            yield "%d elements" % n, ("tup", es), [("mark", "register", e) for e in es]
        else:
            yield None, None, None


MAKERS = ("display", "register", "from_fn", "__from_fn", "quoted", "static", "static_literal", "comment", "block_comment", "doc_comment")
COMMENTS = {"lang::java::block_comment::BlockComment": ("/**", "*", "*/"), "lang::csharp::block_comment::BlockComment": (None, "///", None),
            "lang::csharp::comment::Comment": (None, "//", None), "lang::dart::doc_comment::DocComment": (None, "///", None)}


def comment_lines(r, st, items):
    """lines of plain items"""
    out, cur = [], []
    for it in items:
        p = r.plain(st, it)
        if p[0] in ("Push", "Line"):
            out.append(cur)
            cur = []
        else:
            cur.append(p)
    return out + [cur]


def check_comment(r, inst, form, rep):
    op, pre, cl = form
    what = "comment: %s (%s)" % (inst.self_s, inst.span())
    bad, n = set(), 0
    try:
        for prior in (False, True):
            for es in lists(r):
                st = r.ex.state()
                texts = tuple(r.text(e) for e in es)
                st.mem[("T",)] = r.stream([r.lit("before")] if prior else [])
                v = r.made(st, r.prog.types[inst.locals[1]]["path"], ("o", "list", texts))
                for res, s in r.run(inst, [v, ("ref", ("T",), ())], st):
                    n += 1
                    if isinstance(res, tuple) and res[0] == "panic":
                        bad.add("may panic: %s" % (res[1],))
                        continue
                    got = comment_lines(r, s, r.items_of(s, s.mem[("T",)]))
                    W = lambda x: [("Literal", (("s", x),))]
                    exp = [[("Literal", (leaf("before"),))]] if prior else [[]]
                    if es:
                        if op:
                            exp.append(W(op))
                        for e in es:
                            exp.append(W(pre) + [("Space",), ("Literal", (e,))])
                        if cl:
                            exp.append(W(cl))
                    norm = lambda ls: [[p for p in (l[1:] if l and l[0] == ("Space",) else l)] for l in ls]
                    g, x = norm(got), norm(exp)
                    while g and not g[-1] and len(g) > len(x):
                        g.pop()
                    if g != x:
                        bad.add("with %d lines%s it is %s" % (len(es), " after other text" if prior else "", " / ".join(", ".join(r.show(p) for p in l) for l in g)))
    except Imprecise as e:
        rep.ob("followable", what, False, str(e), "imprecise|%s" % inst.path)
        if not bad:
            return
    rep.count("outcomes", n)
    rep.ob("a comment has each of its lines, prefixed and on a line of its own", what, n and not bad, "; ".join(sorted(bad)[:3]), "comment|%s" % inst.self_s)


def check_impl(r, inst, rep):
    prog = r.prog
    ti = inst.locals[1]
    ty = prog.tys(ti)
    b = prog.types[ti].get("path")
    if b in COMMENTS:
        return check_comment(r, inst, COMMENTS[b], rep)
    what = "%s for %s (%s)" % (inst.name, ty, inst.span())
    bad, n = set(), 0
    try:
        for prior in (0, 1, 2):
            st0 = r.ex.state()
            cs = Cases(r, st0)
            before = [[], [r.lit("before")], [r.lit("before"), r.item("Lang", num(0), leaf("earlier"))]][prior]
            if lang_import(prog, ti):
                inner = lang_import(prog, ti)
                k = leaf("import")
                a = prog.adts[inner]
                payload = ("adt", inner, 0, tuple(leaf("field", f["name"]) for f in a["variants"][0]["fields"]))
                v = cs.ref(payload) if ty.startswith("&") else payload
                cases = [("an import", v, [("Lang" if inst.name == "format_into" else "Register", payload)])]
            else:
                cases = list(cs.of(inst, ty, ti))
            for d, v, exp in cases:
                if d is None:
                    rep.ob("known kind of value", what, False, "no rule says what a %s appends" % ty, "imprecise|kind|%s" % ty)
                    return
                st = st0.copy()
                st.mem[("T",)] = r.stream(before, 2 if prior == 2 else 0)
                for res, s in r.run(inst, [v, ("ref", ("T",), ())], st):
                    n += 1
                    if isinstance(res, tuple) and res[0] == "panic":
                        bad.add("may panic on %s: %s" % (d, res[1]))
                        continue
                    got = [unwrap(r, s, r.plain(s, x)) for x in r.items_of(s, s.mem[("T",)])]
                    want = [r.plain(s, x) for x in before] + exp
                    if got != want:
                        bad.add("%s becomes [%s], not [%s]" % (d, ", ".join(r.show(p) for p in got[len(before):]) if got[:len(before)] == want[:len(before)]
                                                                else "changed: " + ", ".join(r.show(p) for p in got), ", ".join(r.show(p) for p in exp)))
    except Imprecise as e:
        rep.ob("followable", what, False, str(e), "imprecise|%s" % inst.path)
        if not bad:
            return
    rep.count("outcomes", n)
    rep.ob("what is appended arrives complete, unchanged and in order", what, n and not bad, "; ".join(sorted(bad)[:3]) or "no outcome",
           "content|%s|%s" % (inst.name, ty))


def unwrap(r, s, p):
    """an import in the stream is held as the language's item"""
    if p[0] in ("Lang", "Register") and p[1][0] == "adt" and p[1][1].split("::")[-1] == "Any" and len(p[1][3]) == 1:
        return (p[0], deep(s, p[1][3][0]))
    return p


def lang_import(prog, ti):
    t = prog.types[ti]
    if t["k"] == "ref":
        t = prog.types[t["to"]]
    return t["path"] if t["k"] == "adt" and t["path"].startswith("lang::") and t["path"].split("::")[-1].startswith("Import") else None


# ---------------------------------------------------------------- the stream's own functions
def sources(r):
    """short streams of every mixture of content and whitespace, as the public functions build them"""
    one = {"text": [r.lit("a")], "import": [r.item("Lang", num(0), leaf("import"))], "registered": [r.item("Register", num(0), leaf("registered"))],
           "quote": [r.item("OpenQuote", boolean(True))], "endquote": [r.item("CloseQuote")], "eval": [r.item("OpenEval")], "endeval": [r.item("CloseEval")],
           "space": [r.item("Space")], "push": [r.item("Push")], "line": [r.item("Line")], "indent": [r.item("Indentation", num(1))]}
    yield "nothing", []
    yield "forty texts", [r.lit("text", i) for i in range(40)]
    for a in one:
        yield a, one[a]
    for a, b in itertools.product(one, one):
        if {a, b} <= {"space", "push", "line", "indent"}:
            continue
        y = list(one[b])
        if b in ("import", "registered"):
            y = [r.item("Lang" if b == "import" else "Register", num(1 if a in ("import", "registered") else 0), leaf(b + "2"))]
        yield "%s, %s" % (a, b), one[a] + y


def chain(r, items):
    last = 0
    for i, x in enumerate(items):
        if r.tf.vn[x[2]] in ("Lang", "Register"):
            last = i + 1
    return last


def stream_fns(r, rep):
    prog = r.prog
    into = r.method("format_into", "FormatInto", self_base="Item")
    if into is None:
        rep.ob("anchored", "appending an item", False, "not found", "imprecise|anchor|item")
        return
    base = [r.lit("before")]

    def folded(src, start):
        """one item appended after the other"""
        st = r.ex.state()
        st.mem[("T",)] = r.stream(start)
        for it in src:
            rs = r.run(into, [it, ("ref", ("T",), ())], st)
            if len(rs) != 1 or rs[0][0] and rs[0][0][0] == "panic":
                raise Imprecise("appending an item has %d outcomes" % len(rs))
            st = rs[0][1]
        return [r.plain(st, x) for x in r.items_of(st, st.mem[("T",)])]

    fns = []
    for name, trait, argc, how in (("append", None, 2, "mark"), ("register", None, 2, "mark"), ("extend", None, 2, "extend"), ("from_iter", "FromIterator", 1, "from"),
                                   ("into_iter", "IntoIterator", 1, "iter"), ("iter", None, 1, "iter"), ("clone", "Clone", 1, "copy"),
                                   ("is_empty", None, 1, "empty"), ("new", None, 0, "new"), ("with_capacity", None, 1, "new"), ("default", "Default", 0, "new")):
        c = [x for x in prog.roots if x.has_body and x.name == name and x.self_s and models.base(x.self_s.lstrip("&")) == "Tokens" and x.argc == argc and
             (x.trait is None if trait is None else x.trait and models.base(x.trait) == trait)]
        rep.ob("anchored", "Tokens::%s" % name, bool(c), "not found", "imprecise|anchor|%s" % name)
        fns += [(x, how) for x in c]
    for f, how in fns:
        what = "%s %s(%s) (%s)" % (f.self_s, f.name, ", ".join(prog.tys(l) for l in f.locals[1:1 + f.argc]), f.span())
        bad, n = set(), 0
        try:
            if how == "new":
                for res, s in r.run(f, [num(7)] * f.argc):
                    n += 1
                    if r.items_of(s, res):
                        bad.add("a new stream is not empty")
            elif how == "mark":
                st = r.ex.state()
                st.mem[("T",)] = r.stream(base)
                for res, s in r.run(f, [("ref", ("T",), ()), leaf("x")], st):
                    n += 1
                    got = [r.plain(s, x) for x in r.items_of(s, s.mem[("T",)])]
                    if got != [r.plain(s, base[0]), ("mark", "content" if f.name == "append" else "register", leaf("x"))]:
                        bad.add("becomes [%s]" % ", ".join(r.show(p) for p in got))
            else:
                for d, src in sources(r):
                    st = r.ex.state()
                    by_ref = "&" in f.path.split("FromIterator<")[-1][:3] if how == "from" else prog.types[f.locals[1]]["k"] == "ref"
                    if how in ("extend", "from"):
                        el = []
                        for i, x in enumerate(src):
                            if how == "from" and by_ref:
                                st.mem[("src", i)] = x
                                el.append(("ref", ("src", i), ()))
                            else:
                                el.append(x)
                        arg = ("o", "it", "list", tuple(el))
                    else:
                        arg = r.stream(src, chain(r, src))
                        if by_ref:
                            st.mem[("S",)] = arg
                            arg = ("ref", ("S",), ())
                    for start in ([], base):
                        if start and how != "extend":
                            continue
                        s1 = st.copy()
                        s1.mem[("T",)] = r.stream(start)
                        want = folded(src, start) if how in ("extend", "from") else [r.plain(s1, x) for x in src]
                        for res, s in r.run(f, ([("ref", ("T",), ())] if how == "extend" else []) + [arg], s1):
                            n += 1
                            if isinstance(res, tuple) and res[0] == "panic":
                                bad.add("may panic: %s" % (res[1],))
                            elif how == "empty":
                                if strip(s, res) != boolean(not src):
                                    bad.add("%s: %s" % (d, res))
                            elif how == "iter":
                                it = strip(s, res)
                                got = drain(r, s, it)
                                if isinstance(got, str):
                                    bad.add("%s: %s" % (d, got))
                                    continue
                                if got is None:
                                    raise Imprecise("what %s iterates over is not known: %s" % (f.name, str(it)[:150]))
                                got = [r.plain(s, x) for x in got]
                                if got != want:
                                    bad.add("%s yields [%s]" % (d, ", ".join(r.show(p) for p in got)))
                            else:
                                got = [r.plain(s, x) for x in r.items_of(s, s.mem[("T",)] if how == "extend" else res)]
                                if got != want:
                                    bad.add("%s becomes [%s], not [%s]" % (d, ", ".join(r.show(p) for p in got), ", ".join(r.show(p) for p in want)))
        except Imprecise as e:
            rep.ob("followable", what, False, str(e), "imprecise|%s" % f.path)
            if not bad:
                continue
        rep.count("outcomes", n)
        rep.ob("the stream holds exactly what went in", what, n and not bad, "; ".join(sorted(bad)[:3]) or "no outcome", "stream|%s|%s" % (f.name, f.self_s))


def ival(v):
    return v[1] if v[0] == "i" and not v[2] else None


def drain(r, st, it):
    """what an iterator yields, by running its next()"""
    if it[0] == "o" and it[1] == "it":
        return [deep(st, x) for x in it[3]]
    if it[0] != "adt":
        return None
    nx = [x for x in r.prog.roots if x.has_body and x.name == "next" and x.self_s and x.self_s.split("<")[0] == it[1]]
    if len(nx) != 1:
        return None
    sh = [x for x in r.prog.roots if x.has_body and x.name == "size_hint" and x.self_s and x.self_s.split("<")[0] == it[1]]
    st = st.copy()
    st.ghost["hint"] = "exact"
    st.mem[("It",)] = it
    out, hints = [], []
    for _ in range(60):
        for h in sh[:1]:
            for v, s in r.run(h, [("ref", ("It",), ())], st):
                if isinstance(v, tuple) and v[0] == "panic":
                    return "its size hint may panic"
                v = strip(s, v)
                if v[0] != "tup" or len(v[1]) != 2:
                    raise Imprecise("size hint %r" % (v,))
                hints.append((len(out), strip(s, v[1][0]), deep(s, strip(s, v[1][1]))))
        rs = r.run(nx[0], [("ref", ("It",), ())], st)
        if len(rs) != 1:
            return None
        v, st = rs[0]
        v = strip(st, v)
        if v[0] != "adt" or v[1] != OPTION:
            return None
        if v[2] == 0:
            for i, lo, hi in hints:
                left = len(out) - i
                if ival(lo) is None or hi[0] == "adt" and hi[2] == 1 and ival(hi[3][0]) is None or hi[0] not in ("adt", "sym"):
                    raise Imprecise("size hint %r, %r" % (lo, hi))
                if ival(lo) > left or hi[0] == "adt" and hi[2] == 1 and ival(hi[3][0]) < left:
                    return "its size hint is %s to %s with %d items left" % (ival(lo), hi, left)
            return out
        out.append(deep(st, v[3][0]))
    return out


def check(progs, rep):
    prog = progs["genco"]
    try:
        r = Run(prog)
    except Imprecise as e:
        rep.ob("followable", "representation", False, str(e), "imprecise|representation")
        return
    impls = [x for x in prog.roots if x.has_body and x.trait and models.base(x.trait) in ("FormatInto", "Register") and x.name in ("format_into", "register")]
    rep.count("implementations", len(impls))
    for x in impls:
        check_impl(r, x, rep)
    stream_fns(r, rep)


if __name__ == "__main__":
    import mir
    from report import Report
    rep = Report("C03", "quick")
    check(mir.load(), rep)
    for o in rep.obls:
        if not o[2]:
            print(o[0], "|", o[1][:110], "|", o[3][-260:], "|", o[4][:60])
    print(rep.counts, len(rep.obls), sum(1 for o in rep.obls if o[2]))
