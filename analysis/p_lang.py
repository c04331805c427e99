"""C09, C10, C12: what a file's header declares, and what the references in its body denote."""
import itertools, sys, time
import models
from absint import *
from exact import *


def leaf(*n):
    return ("sym", ("leaf",) + n)


def find_fn(prog, path):
    c = [r for r in prog.root_by_path.get(path, []) if r.has_body]
    if len(c) != 1:
        raise Imprecise("%s not found" % path)
    return c[0]


def only(outs, what):
    r = [o for o in outs if o.kind == "ret"]
    if len(r) != 1 or len(outs) != 1:
        raise Imprecise("%s has %d outcomes" % (what, len(outs)))
    return r[0]


class LangRun:
    def __init__(self, prog, mod, lang):
        self.prog, self.mod, self.lang = prog, mod, lang
        self.ex = Exact(prog)
        self.item_str = [a for a in prog.adts if a.endswith("item_str::ItemStr")][0]
        self.eng = self.ex.eng
        self.lang_path = "%s::%s" % (mod, lang)
        m = [r for r in prog.roots if r.has_body and r.name == "format_file" and r.trait and r.trait.split("::")[-1] == "Lang" and r.self_s == self.lang_path]
        if len(m) != 1:
            raise Imprecise("format_file of %s not found" % lang)
        self.format_file = m[0]

    def method(self, name, trait, self_s=None, arg=None):
        c = [r for r in self.prog.roots if r.has_body and r.name == name and r.trait and r.trait.split("::")[-1].split("<")[0] == trait and
             r.self_s == self_s and (arg is None or arg in r.path)]
        if len(c) != 1:
            raise Imprecise("%s::%s for %s not found (%d)" % (trait, name, self_s, len(c)))
        return c[0]

    def call(self, st, inst, args, what):
        """run inst; every outcome that returns as (value, state)"""
        r = []
        for o in self.eng.run(inst, args, st):
            if o.kind == "panic":
                raise Imprecise("%s may panic at %s" % (what, o.info[1]))
            if o.kind == "ret":
                r.append((o.val, o.st))
        return r

    def call1(self, st, inst, args, what):
        r = self.call(st, inst, args, what)
        if len(r) != 1:
            raise Imprecise("%s has %d outcomes" % (what, len(r)))
        return r[0]

    def make(self, st, ctor, args, builders):
        v, st = self.call1(st, find_fn(self.prog, "%s::%s" % (self.mod, ctor)), list(args), ctor)
        for b, bargs in builders:
            t = strip(st, v)
            v, st = self.call1(st, find_fn(self.prog, "%s::%s" % (t[1], b)), [v] + list(bargs), b)
        return deep(st, v), st

    def stream(self, st, adds, lines=True):
        """a stream with the given imports: (value, how) with how = 'use' or 'register'"""
        new = [r for r in self.prog.roots if r.has_body and r.name == "new" and r.trait is None and r.self_s and models.base(r.self_s) == "Tokens" and r.argc == 0]
        push = [r for r in self.prog.roots if r.has_body and r.name == "push" and r.trait is None and r.self_s and models.base(r.self_s) == "Tokens" and r.argc == 1]
        if len(new) != 1 or len(push) != 1:
            raise Imprecise("Tokens::new or push not found")
        v, st = self.call1(st, new[0], [], "new")
        st.mem[("T",)] = v
        ref = ("ref", ("T",), ())
        for v, how in adds:
            ty = v[1]
            inst = self.method("format_into" if how == "use" else "register", "FormatInto" if how == "use" else "Register", ty,
                               None if ty == self.item_str else "<" + self.lang_path + ">")
            _, st = self.call1(st, inst, [v, ref], how)
            if lines:
                _, st = self.call1(st, push[0], [ref], "push")
        return st

    def file(self, st, config):
        """Lang::format_file: list of (segments, state)"""
        st.mem[("Cfg",)] = config
        out = []
        for v, s in self.call(st, self.format_file, [("ref", ("T",), ()), sym(OUT), ("ref", ("Cfg",), ())], "format_file"):
            if not (v[0] == "adt" and v[1] == RESULT and v[2] == 0):
                continue
            out += self.render(s)
        return out

    def render(self, s):
        """the text of what was formatted: pieces, references as ("ref", item, text)"""
        work = [(s, [])]
        fm = s.ghost["formats"]
        for tok, cfg, fmt in fm:
            items = self.items(s, tok)
            for it in items:
                nxt = []
                for s1, acc in work:
                    nxt += self.item(s1, acc, it, cfg, fmt)
                work = nxt
            work = [(s1, acc + [("end",)]) for s1, acc in work]
        return [(acc, s1) for s1, acc in work]

    def items(self, s, tok):
        ls = [x for x in tok[3] if strip(s, x)[0] == "o" and strip(s, x)[1] in ("list", "bag")]
        if len(ls) != 1 or strip(s, ls[0])[1] != "list":
            raise Imprecise("the items of a stream are not known: %r" % (str(tok)[:200],))
        return [deep(s, x) for x in strip(s, ls[0])[2]]

    def item(self, s, acc, it, cfg, fmt):
        if it[0] != "adt":
            raise Imprecise("item %r" % (it,))
        vn = self.variant(it)
        if vn in ("Lang", "Register"):
            if vn == "Register":
                return [(s, acc)]
            s = s.copy()
            s.ghost["text"] = ()
            payload = [x for x in it[3] if x[0] == "adt"][0]
            inst = self.method("format", "LangItem", payload[1], "<" + self.lang_path + ">")
            r = []
            s.mem[("It",)], s.mem[("Fm",)], s.mem[("Cf",)] = payload, fmt, cfg
            for v, s1 in self.call(s, inst, [("ref", ("It",), ()), sym(OUT), ("ref", ("Cf",), ()), ("ref", ("Fm",), ())], "LangItem::format"):
                if v[0] == "adt" and v[1] == RESULT and v[2] == 0:
                    r.append((s1, acc + [("ref", payload, s1.ghost["text"])]))
            return r
        if vn == "Literal":
            return [(s, acc + [("text", tparts(s, it[3][0]))])]
        if vn == "OpenQuote":
            return [(s, acc + [("oq",)])]
        if vn == "CloseQuote":
            return [(s, acc + [("cq",)])]
        if vn in ("Push", "Line", "Space"):
            return [(s, acc + [(vn.lower(),)])]
        if vn == "Indentation":
            return [(s, acc + [("ind", it[3][0][1])])]
        raise Imprecise("item %s" % vn)

    def variant(self, it):
        a = self.prog.adts[it[1]]
        return a["variants"][it[2]]["name"]


def layout(pieces):
    """whitespace as formatting realizes it: list of lines, each (indent, [atoms])
    atoms: ("s", text), symbols, ("q", parts), ("ref", item, parts)"""
    lines, cur = [], []
    nl, sp, ind, quote = 0, False, 0, None
    started = False
    cur_ind = 0
    for p in pieces:
        k = p[0]
        if k == "push":
            if nl < 1:
                nl = 1
            sp = False
        elif k == "line":
            nl, sp = 2, False
        elif k == "space":
            sp = True
        elif k == "ind":
            ind += p[1]
            nl = max(nl, 1)
            sp = False
        elif k == "end":
            pass
        else:
            if k == "text" and not p[1]:
                continue
            if quote is not None:
                if k == "cq":
                    cur.append(("q", models.norm_parts(tuple(quote))))
                    quote = None
                elif k == "text":
                    if sp or nl:
                        raise Imprecise("whitespace inside of a string")
                    quote += list(p[1])
                else:
                    raise Imprecise("%s inside of a string" % k)
                continue
            if started:
                if nl:
                    lines.append((cur_ind, cur))
                    for _ in range(nl - 1):
                        lines.append((0, []))
                    cur, cur_ind = [], ind
                    if sp:
                        cur.append(("s", " "))
                elif sp:
                    cur.append(("s", " "))
            else:
                started = True
                cur_ind = ind
                if sp and not nl:
                    cur.append(("s", " "))
            nl, sp = 0, False
            if k == "oq":
                quote = []
            elif k == "text":
                cur += list(p[1])
            elif k == "ref":
                cur.append(p)
    if cur:
        lines.append((cur_ind, cur))
    return lines, nl


def show_line(l):
    ind, atoms = l
    out = " " * (4 * max(0, ind))
    for a in atoms:
        if a[0] == "s":
            out += a[1]
        elif a[0] == "q":
            out += '"%s"' % show_parts(a[1])
        elif a[0] == "ref":
            out += "{{%s}}" % show_parts(a[2])
        else:
            out += show_parts((a,))
    return out


def show_parts(ps):
    r = ""
    for p in ps:
        if p[0] == "s":
            r += p[1]
        elif p[0] == "sym" and isinstance(p[1], tuple) and p[1][0] == "leaf":
            r += "<%s>" % "".join(str(x) for x in p[1][1:])
        else:
            r += "<%s>" % (p,)
    return r



# ------------------------------------------------------------------ reading the text back
def words(st, atoms):
    """tokens of a line: ("w", parts), ("p", char), ("q", parts), ("ref", item, parts)"""
    out, cur = [], []

    def flush():
        if cur:
            out.append(("w", canon(st, models.norm_parts(tuple(cur)))))
            cur.clear()
    for a in atoms:
        if a[0] == "s":
            for c in a[1]:
                if c.isalnum() or c == "_":
                    cur.append(("s", c))
                else:
                    flush()
                    if not c.isspace():
                        out.append(("p", c))
        elif a[0] == "q":
            flush()
            out.append(("q", canon(st, a[1])))
        elif a[0] == "ref":
            flush()
            out.append(("ref", a[1], canon(st, a[2])))
        else:
            cur.append(a)
    flush()
    return out


class Reader:
    """a cursor over tokens"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def kw(self, *ws):
        for w in ws:
            if self.i < len(self.t) and (self.t[self.i] == ("w", (("s", w),)) or self.t[self.i] == ("p", w)):
                self.i += 1
            else:
                raise Bad("expected `%s`" % w)

    def at(self, w):
        return self.i < len(self.t) and (self.t[self.i] == ("w", (("s", w),)) or self.t[self.i] == ("p", w))

    def opt(self, w):
        if self.at(w):
            self.i += 1
            return True
        return False

    def get(self, k):
        if self.i < len(self.t) and self.t[self.i][0] == k:
            self.i += 1
            return self.t[self.i - 1][1]
        raise Bad("expected a %s" % {"w": "name", "q": "string"}[k])

    def path(self, sep):
        r = self.get("w")
        while self.i + len(sep) < len(self.t) and [x for x in self.t[self.i:self.i + len(sep)]] == [("p", c) for c in sep] and \
                self.t[self.i + len(sep)][0] == "w":
            self.i += len(sep)
            r = r + (("s", sep),) + self.get("w")
        return models.norm_parts(r)

    def end(self):
        if self.i != len(self.t):
            raise Bad("something follows")


class Bad(Exception):
    pass


def dot(a, b, sep="."):
    return models.norm_parts(tuple(a) + (("s", sep),) + tuple(b))


class Spec:
    """One language.  Declarations bind a text to a meaning; a reference means what its text is bound to."""
    ctor = "import"
    sep = None
    refs_bare = True

    def recipes(self):
        raise NotImplementedError

    def configs(self):
        return [("default", [])]

    def module(self, i, tag):
        return [leaf(i, "M")]


M, N, A, MA = "M", "N", "A", "MA"


class Python(Spec):
    mod, lang = "lang::python", "Python"

    def recipes(self):
        imp = lambda *b: ("import", [M, N], list(b), ("member",))
        return [imp(), imp(("with_alias", A)), imp(("qualified",)), imp(("with_module_alias", MA)),
                imp(("with_alias", A), ("qualified",)), imp(("qualified",), ("with_alias", A)),
                imp(("with_alias", A), ("with_module_alias", MA)), imp(("with_module_alias", MA), ("qualified",)),
                ("import_module", [M], [], ("module",)), ("import_module", [M], [("with_alias", A)], ("module",))]

    def decl(self, r):
        if r.opt("from"):
            m = r.path(".")
            r.kw("import")
            out = []
            while True:
                n = r.get("w")
                a = r.get("w") if r.opt("as") else None
                out.append((a or n, ("member", m, n)))
                if not r.opt(","):
                    break
            r.end()
            return out
        r.kw("import")
        m = r.path(".")
        a = r.get("w") if r.opt("as") else None
        r.end()
        return [(a or m, ("module", m))]

    def denotes(self, env, text, want):
        for b, t in env:
            if text == b and t == want:
                return True
            if t[0] == "module" and want[0] == "member" and t[1] == want[1] and text == dot(b, want[2]):
                return True
        return False

    def meaning(self, kind, a):
        return ("member", a[M], a[N]) if kind == ("member",) else ("module", a[M])


class JavaScript(Spec):
    mod, lang = "lang::js", "JavaScript"

    def recipes(self):
        out = []
        for g in ("Global", "Path"):
            imp = lambda k, *b: ("import", [M + ":" + g, N], list(b), (k, g))
            out += [imp("named"), imp("named", ("with_alias", A)), imp("default", ("into_default",)), imp("ns", ("into_wildcard",))]
            if g == "Global":
                out += [imp("named", ("into_default",), ("with_alias", A)), imp("default", ("with_alias", A), ("into_default",)),
                        imp("ns", ("with_alias", A), ("into_wildcard",)), imp("named", ("into_wildcard",), ("with_alias", A)),
                        imp("default", ("into_wildcard",), ("into_default",)), imp("ns", ("into_default",), ("into_wildcard",))]
        return out

    def configs(self):
        return [("default", []), ("module path", [("with_module_path", "P")])]

    def decl(self, r):
        r.kw("import")
        out = []
        if r.opt("*"):
            r.kw("as")
            out.append((r.get("w"), ("ns",)))
        else:
            if not r.at("{"):
                out.append((r.get("w"), ("default",)))
                if r.at("from"):
                    pass
                else:
                    r.kw(",")
                    if not r.at("{"):
                        raise Bad("expected `{`")
            if r.opt("{"):
                while True:
                    d = r.at("default")
                    n = r.get("w")
                    a = r.get("w") if r.opt("as") else None
                    if d:
                        if a is None:
                            raise Bad("default needs a name")
                        out.append((a, ("default",)))
                    else:
                        out.append((a or n, ("named", n)))
                    if not r.opt(","):
                        break
                r.kw("}")
        r.kw("from")
        m = r.get("q")
        r.kw(";")
        r.end()
        return [(b, (t[0], m) + t[1:]) for b, t in out]

    def meaning(self, kind, a):
        m = a[M]
        if kind[1] == "Path" and "P" in a:
            m = (("sym", ("relative", mktext(a["P"]), mktext(a[M]))),)
        return (kind[0], m) + ((a[N],) if kind[0] == "named" else ())

    def denotes(self, env, text, want):
        return any(b == text and t == want for b, t in env)


class Go(Spec):
    mod, lang = "lang::go", "Go"
    sep = "/"

    def recipes(self):
        return [("import", [M + ":1", N], [], ("member",)), ("import", [M + ":2", N], [], ("member",)), ("import", [M + ":3", N], [], ("member",))]

    def configs(self):
        return [("default", []), ("package", [("with_package", "P")])]

    def package(self, r):
        r.kw("package")
        return r.get("w")

    def decl(self, r):
        r.kw("import")
        m = r.get("q")
        r.end()
        return [(tuple(split_on(m, "/")[-1]), ("module", m))]

    def meaning(self, kind, a):
        return ("member", a[M], a[N])

    def denotes(self, env, text, want):
        return any(t[1] == want[1] and text == dot(b, want[2]) for b, t in env)


class Rust(Spec):
    mod, lang = "lang::rust", "Rust"
    sep = "::"

    def recipes(self):
        out = []
        for k in ("1", "2"):
            imp = lambda *b: ("import", [M + ":" + k, N], list(b), ("member",))
            out += [imp(), imp(("qualified",)), imp(("direct",)), imp(("with_alias", A)), imp(("with_module_alias", MA))]
            if k == "2":
                out += [imp(("with_alias", A), ("qualified",)), imp(("with_module_alias", MA), ("with_alias", A)),
                        imp(("with_module_alias", MA), ("qualified",)), imp(("with_alias", A), ("with_module_alias", MA)),
                        imp(("qualified",), ("with_alias", A)), imp(("qualified",), ("direct",)), imp(("direct",), ("qualified",))]
        return out

    def configs(self):
        return [("default", []), ("qualified", [("with_default_import", "!1")]), ("direct", [("with_default_import", "!0")])]

    def decl(self, r):
        r.kw("use")
        m = r.path("::")
        out = []
        if r.at(":"):
            r.kw(":", ":", "{")
            n = 0
            while True:
                if r.opt("self"):
                    a = r.get("w") if r.opt("as") else None
                    out.append((a or tuple(split_on(m, "::")[-1]), ("module", m)))
                else:
                    x = r.get("w")
                    a = r.get("w") if r.opt("as") else None
                    out.append((a or x, ("item", m, x)))
                n += 1
                if not r.opt(","):
                    break
            r.kw("}")
        else:
            a = r.get("w") if r.opt("as") else None
            segs = [tuple(x) for x in split_on(m, "::")]
            pre = models.norm_parts(tuple(p for i, x in enumerate(segs[:-1]) for p in ((("s", "::"),) if i else ()) + x))
            # the last segment may be a module or an item
            out.append((a or segs[-1], ("either", m, pre, segs[-1])))
        r.kw(";")
        r.end()
        return out

    def meaning(self, kind, a):
        return ("member", a[M], a[N])

    def denotes(self, env, text, want):
        _, m, n = want
        for b, t in env:
            mod = t[1] if t[0] in ("module", "either") else None
            if mod == m and text == dot(b, n, "::"):
                return True
            item = (t[1], t[2]) if t[0] == "item" else (t[2], t[3]) if t[0] == "either" else None
            if item == (m, tuple(n)) and text == b:
                return True
        # a crate is in scope by its name
        return len(split_on(m, "::")) == 1 and text == dot(m, n, "::")


class Dart(Spec):
    mod, lang = "lang::dart", "Dart"

    def recipes(self):
        return [("import", [M, N], [], ("member",)), ("import", [M, N], [("with_alias", A)], ("prefixed",)),
                ("import", [M + ":dart:core", N], [], ("member",)), ("import", [M + ":dart:core", N], [("with_alias", A)], ("prefixed",))]

    def decl(self, r):
        r.kw("import")
        m = r.get("q")
        a = r.get("w") if r.opt("as") else None
        r.kw(";")
        r.end()
        return [((a,) if a else None, ("module", m))]

    def meaning(self, kind, a):
        return ("member", a[M], a[N])

    def implicit(self, env, want):
        core = (("s", "dart:core"),)
        return want[1] == core and not any(t[1] == core for b, t in env)

    def denotes(self, env, text, want):
        if text == want[2] and self.implicit(env, want):
            return True
        return any(t[1] == want[1] and text == (dot(b[0], want[2]) if b else want[2]) for b, t in env)

    def redundant_ok(self, d, env):
        return d[1][1] == (("s", "dart:core"),)


class Swift(Spec):
    mod, lang = "lang::swift", "Swift"

    def recipes(self):
        return [("import", [M, N], [], ("member",))]

    def decl(self, r):
        r.kw("import")
        m = r.get("w")
        r.end()
        return [(None, ("module", m))]

    def meaning(self, kind, a):
        return ("member", a[M], a[N])

    def denotes(self, env, text, want):
        return any(t[1] == want[1] and text == want[2] for b, t in env)


class C(Spec):
    mod, lang = "lang::c", "C"

    def recipes(self):
        return [("include", [M, N], [], ("local",)), ("include_system", [M, N], [], ("system",))]

    def decl(self, r):
        r.kw("#", "include")
        if r.opt("<"):
            m = r.get("w")
            r.kw(">")
            r.end()
            return [(None, ("system", m))]
        m = r.get("q")
        r.end()
        return [(None, ("local", m))]

    def meaning(self, kind, a):
        return (kind[0], a[M], a[N])

    def denotes(self, env, text, want):
        return any(t == want[:2] and text == want[2] for b, t in env)


class Java(Spec):
    mod, lang = "lang::java", "Java"
    collide = True

    def recipes(self):
        return [("import", [M, N], [], ("type",))]

    def configs(self):
        return [("default", []), ("package", [("with_package", "P")])]

    def package(self, r):
        r.kw("package")
        p = r.get("w")
        r.kw(";")
        return p

    def decl(self, r):
        r.kw("import")
        m = r.get("w")
        r.kw(".")
        n = r.get("w")
        r.kw(";")
        r.end()
        return [(n, ("type", m, n))]

    def meaning(self, kind, a):
        return ("type", a[M], a[N])

    def pairs(self, args, own):
        ns = [a[N] for a in args]
        ms = [a[M] for a in args] + ([own] if own else []) + [(("s", "java.lang"),)]
        return list(itertools.combinations(ns, 2)) + list(itertools.combinations(ms, 2))

    def means(self, env, text, known, own):
        """what a text denotes in the file: a set of types"""
        for m, n in known:
            if text == dot(m, n):
                return {(m, n)}
        d = {(t[1], t[2]) for b, t in env if b == text}
        if d:
            return d
        if own is not None and (own, text) in known:
            return {(own, text)}
        return {((("s", "java.lang"),), text)}

    def needed(self, want, own):
        return want[1] != (("s", "java.lang"),) and want[1] != own


class Csharp(Java):
    mod, lang = "lang::csharp", "Csharp"

    def recipes(self):
        return [("import", [M, N], [], ("type",)), ("import", [M, N], [("qualified",)], ("type",))]

    def configs(self):
        return [("default", []), ("namespace", [("with_namespace", "P")])]

    package = None

    def decl(self, r):
        r.kw("using")
        m = r.get("w")
        r.kw(";")
        r.end()
        return [(None, ("module", m))]

    def pairs(self, args, own):
        ns = [a[N] for a in args]
        ms = [a[M] for a in args] + ([own] if own else [])
        return list(itertools.combinations(ns, 2)) + list(itertools.combinations(ms, 2))

    def means(self, env, text, known, own):
        for m, n in known:
            if text == dot(m, n):
                return {(m, n)}
        if own is not None and (own, text) in known:
            return {(own, text)}
        return {(m, n) for m, n in known if n == text and any(t[1] == m for b, t in env)}

    def needed(self, want, own):
        return want[1] != own


V = "V"


class Nix(Spec):
    mod, lang = "lang::nix", "Nix"
    sep = "."
    VALUES = {"text": None, "argument": ("argument", [N], []), "inherit": ("inherit", [M + ":2", N], []), "with": ("with", [M + ":2", N], []),
              "variable(argument)": ("variable", [N, V + ":argument"], []), "variable(inherit)": ("variable", [N, V + ":inherit"], []),
              "variable(with)": ("variable", [N, V + ":with"], [])}

    def recipes(self):
        out = [("argument", [N], [], ("arg",)), ("inherit", [M + ":1", N], [], ("inherit",)), ("inherit", [M + ":2", N], [], ("inherit",)),
               ("with", [M + ":1", N], [], ("with",)), ("with", [M + ":2", N], [], ("with",))]
        return out + [("variable", [N, V + ":" + v], [], ("var",)) for v in self.VALUES]

    def configs(self):
        return [("default", []), ("scoped", [("with_scoped", "!scoped")])]

    def meaning(self, kind, a):
        if kind[0] == "arg":
            return ("arg", a[N])
        if kind[0] == "inherit":
            return ("inherit", a[M], a[N])
        if kind[0] == "with":
            return ("with", a[M], a[N])
        return ("var", a[N], a[V])

    def denotes(self, env, text, want, scoped=False):
        root = lambda p: scoped or ("arg", tuple(split_on(p, ".")[0])) in env
        if text != (want[1] if want[0] in ("arg", "var") else want[2]):
            return False
        if want[0] == "arg":
            return scoped or want in env
        if want[0] == "inherit":
            return want in env and root(want[1])
        if want[0] == "with":
            return ("with", want[1]) in env and root(want[1])
        return want in env

    def read(self, s, secs, cfg):
        """the header: [declarations], [references in it]"""
        env, refs = [], []
        words_ = lambda l: words(s, l[1])
        is_kw = lambda l, k: words_(l) == [("w", (("s", k),))]

        def block(sec, first, last):
            if len(sec) < 2 or sec[0][0] or sec[-1][0] or any(l[0] != 1 for l in sec[1:-1]):
                raise Bad("a block of the header is not laid out as one")
            if words_(sec[0]) != first or words_(sec[-1]) != last:
                raise Bad("a block of the header is not delimited")
            return sec[1:-1]
        if cfg == "default":
            b = block(secs.pop(0) if secs else [], [("p", "{")], [("p", "}"), ("p", ":")])
            if not b or words_(b[-1]) != [("p", ".")] * 3:
                raise Bad("the arguments do not end with ...")
            for l in b[:-1]:
                r = Reader(words_(l))
                env.append(("arg", r.path(".")))
                r.kw(",")
                r.end()
        isref = lambda sec: len(sec[0][1]) == 1 and (sec[0][1][0][0] == "ref" or sec[0][1][0] == BODY)
        if secs and not isref(secs[0]) and Reader(words_(secs[0][0])).at("with"):
            for l in secs.pop(0):
                r = Reader(words_(l))
                r.kw("with")
                env.append(("with", r.path(".")))
                r.kw(";")
                r.end()
                if l[0]:
                    raise Bad("a declaration is indented")
        if secs and not isref(secs[0]) and is_kw(secs[0][0], "let"):
            for l in block(secs.pop(0), [("w", (("s", "let"),))], [("w", (("s", "in"),))]):
                r = Reader(words_(l))
                if r.opt("inherit"):
                    r.kw("(")
                    p = r.path(".")
                    r.kw(")")
                    env.append(("inherit", p, r.get("w")))
                else:
                    n = r.get("w")
                    r.kw("=")
                    if r.i < len(r.t) and r.t[r.i][0] == "ref":
                        refs.append(r.t[r.i])
                        v = ("ref", payload(r.t[r.i][1]))
                        r.i += 1
                    else:
                        v = r.get("w")
                    env.append(("var", n, v))
                r.kw(";")
                r.end()
        return env, refs


SPECS = {"nix": Nix, "python": Python, "js": JavaScript, "go": Go, "rust": Rust, "dart": Dart, "swift": Swift, "c": C, "java": Java, "csharp": Csharp}


def arg(i, a, ex):
    """(value, text) of a constructor argument"""
    name, _, tag = a.partition(":")
    if tag in ("1", "2", "3") and name == M:
        ps = []
        for k in range(int(tag)):
            l = leaf(i, "M%d" % k)
            ex.eng.sep_free.add(l)
            if k:
                ps.append(("s", ex.sep))
            ps.append(l)
        return mktext(ps), tuple(ps)
    if tag in ("Global", "Path"):
        l = leaf(i, name)
        return ("adt", "lang::js::Module", {"Path": 0, "Global": 1}[tag], (l,)), (l,)
    if tag:
        return ("s", tag), (("s", tag),)
    return leaf(i, name), (leaf(i, name),)


# the text at the end of every body
BODY = leaf("body")


def payload(v):
    return v[3][0] if v[1].split("::")[-1] == "Any" else v


def setup(prog, spec, combo, config, how="use", adds=None):
    R = LangRun(prog, spec.mod, spec.lang)
    R.ex.sep = spec.sep
    st = R.ex.state()
    imps, args = [], []
    R.nested = {}

    def nested(i, name, st):
        """a stream that holds one thing: (tokens, what it holds)"""
        r = spec.VALUES[name]
        if r is None:
            l = leaf(i, "text")
            lit = [k for k, v in enumerate(prog.adts["tokens::item::Item"]["variants"]) if v["name"] == "Literal"][0]
            st = R.stream(st, [(("adt", R.item_str, 0, (l,)), "use")], False)
            return deep(st, st.mem.pop(("T",))), (l,), st
        vals, a = [], {}
        for x in r[1]:
            if x.startswith(V + ":"):
                v, t, st = nested((i, "v"), x[2:], st)
            else:
                v, t = arg((i, "v"), x, R.ex)
            vals.append(v)
            a[x.partition(":")[0]] = t
        v, st = R.make(st, r[0], vals, [])
        R.nested[payload(v)] = ({"argument": ("arg",), "inherit": ("inherit",), "with": ("with",), "variable": ("var",)}[r[0]], a)
        st = R.stream(st, [(v, "use")], False)
        return deep(st, st.mem.pop(("T",))), ("ref", payload(v)), st
    for i, (ctor, cargs, builders, kind) in enumerate(combo):
        vals, a = [], {}
        for x in cargs:
            if x.startswith(V + ":"):
                v, t, st = nested(i, x[2:], st)
            else:
                v, t = arg(i, x, R.ex)
            vals.append(v)
            a[x.partition(":")[0]] = t
        bs = []
        for b in builders:
            bv = []
            for x in b[1:]:
                v, t = arg(i, x, R.ex)
                bv.append(v)
                a[x] = t
            bs.append((b[0], bv))
        v, st = R.make(st, ctor, vals, bs)
        imps.append(v)
        args.append(a)
    adds = [(imps[i], h) for i, h in adds] if adds is not None else [(v, how) for v in imps]
    st = R.stream(st, adds + [(("adt", R.item_str, 0, (BODY,)), "use")])
    c, st = R.call1(st, find_fn(prog, "<%s::Config as core::default::Default>::default" % spec.mod), [], "default")
    own = None
    for b in config[1]:
        if b[1] == "!scoped":
            v = ("b", True)
        elif b[1].startswith("!"):
            v = ("adt", "lang::rust::ImportMode", int(b[1][1:]), ())
        else:
            v = leaf("cfg", b[1])
            own = (v,)
        c, st = R.call1(st, find_fn(prog, "%s::Config::%s" % (spec.mod, b[0])), [c, v], b[0])
    for a in args:
        if own and spec.lang == "JavaScript":
            a["P"] = own
    return R, st, c, imps, args, own


def split_cases(states, pairs):
    """decide the equality of every pair"""
    for a, b in pairs:
        nxt = []
        for s in states:
            work = [s]
            while work:
                s1 = work.pop()
                try:
                    text_eq(s1, mktext(a), mktext(b))
                    nxt.append(s1)
                except Fork as f:
                    for m in f.muts:
                        s2 = s1.copy()
                        try:
                            m(s2)
                            work.append(s2)
                        except Infeasible:
                            pass
        states = nxt
    return states


def sections(lines):
    """blocks of lines between single blank lines"""
    out, cur = [], []
    blanks = 0
    for l in lines:
        if not l[1]:
            blanks += 1
            continue
        if blanks:
            out.append((cur, blanks))
            cur, blanks = [], 0
        cur.append(l)
    out.append((cur, 0))
    return out


def judge(spec, kinds, pieces, s, args, own, imps, how, config, nested):
    """complaints about one outcome: {topic: text}"""
    bad = {}
    lines, pend = layout(pieces)
    text = "\n".join(show_line(l) for l in lines)
    secs = sections(lines)
    own_c = canon(s, own) if own else None
    wants = [spec.meaning(k, {x: y if y[0] == "ref" else canon(s, y) for x, y in a.items()}) for k, a in zip(kinds, args)]

    def cw(w):
        return tuple(x if not isinstance(x, tuple) else ("ref", inner(x[1])) if x[:1] == ("ref",) else canon(s, x) for x in w)

    def inner(p):
        if p not in nested:
            return None
        k, a = nested[p]
        return cw(spec.meaning(k, {x: y if y[0] == "ref" else canon(s, y) for x, y in a.items()}))
    wants = [cw(w) for w in wants]
    # ---- the sections of the file
    if any(b > 1 for _, b in secs):
        bad["layout"] = "more than one blank line"
    secs = [x for x, _ in secs if x]
    env, ndecl = [], 0
    body = None
    pkg = own is not None and getattr(spec, "package", None) is not None
    ns = own is not None and spec.lang == "Csharp"
    try:
        if pkg:
            if not secs:
                raise Bad("no package declaration")
            sec = secs.pop(0)
            r = Reader(words(s, sec[0][1]))
            if spec.package(r) != own_c:
                raise Bad("the wrong package is declared")
            r.end()
            if len(sec) != 1 or sec[0][0]:
                raise Bad("the package declaration is not on a line of its own")
        header_refs = []
        is_ref = lambda l: any(a[0] == "ref" or a == BODY for a in l[1])
        if spec.lang == "Nix":
            env, header_refs = spec.read(s, secs, config)
        elif secs and not any(is_ref(l) for l in secs[0]) and not (ns and Reader(words(s, secs[0][0][1])).at("namespace")):
            sec = secs.pop(0)
            for l in sec:
                if l[0]:
                    raise Bad("a declaration is indented")
                env += spec.decl(Reader(words(s, l[1])))
        if ns:
            sec = secs.pop(0) if secs else []
            if not sec:
                raise Bad("no namespace block")
            if len(sec) == 1:
                # an empty block on one line
                sec = [(sec[0][0], sec[0][1][:-1] + [("s", sec[0][1][-1][1][:-1])]), (0, [("s", "}")])] \
                    if sec[0][1][-1][0] == "s" and sec[0][1][-1][1].endswith("}") else [sec[0], (0, [])]
            r = Reader(words(s, sec[0][1]))
            r.kw("namespace")
            if r.get("w") != own_c:
                raise Bad("the wrong namespace is declared")
            r.kw("{")
            r.end()
            r = Reader(words(s, sec[-1][1]))
            r.kw("}")
            r.end()
            if sec[0][0] or sec[-1][0] or any(l[0] != 1 for l in sec[1:-1]):
                raise Bad("the body is not indented in its namespace")
            body = sec[1:-1]
        else:
            body = secs.pop(0) if secs else []
        if secs:
            raise Bad("there are more sections than expected")
        want_refs = [] if how == "register" else imps
        got = []
        for l in body:
            if len(l[1]) != 1 or l[1][0][0] != "ref" and l[1][0] != BODY or (l[0] and not ns):
                raise Bad("the body is altered")
            got.append(l[1][0])
        if not got or got.pop() != BODY or any(g == BODY for g in got):
            raise Bad("the body is altered")
        if [payload(g[1]) for g in got] != list(want_refs):
            raise Bad("the body is altered")
    except Bad as x:
        bad["layout"] = "%s: %s" % (x, text.replace("\n", " / "))
        return bad
    # ---- what references mean
    if spec.lang == "Nix":
        env = [tuple(("ref", inner(x[1])) if x[:1] == ("ref",) else x for x in d) for d in env]
        for g, w in [(g, w) for g, w in zip(got, wants)] + [(h, inner(payload(h[1]))) for h in header_refs]:
            if w is None or not spec.denotes(env, canon(s, g[2]), w, config == "scoped"):
                bad.setdefault("reference", "`%s` is not bound by the header: %s" % (show_parts(canon(s, g[2])), text.replace("\n", " / ")))
        asked = wants + [inner(p) for p in nested]
        if len(set(env)) != len(env):
            bad.setdefault("twice", "declared twice: %s" % text.replace("\n", " / "))
        for d in env:
            if not any(d == w or d[0] == "with" and d == w[:2] and w[0] == "with" or
                       d[0] == "arg" and w[0] in ("inherit", "with") and d[1] == tuple(split_on(w[1], ".")[0]) for w in asked):
                bad.setdefault("extra", "a declaration nothing asks for: %s" % text.replace("\n", " / "))
        for w in asked:
            n = w[1] if w[0] in ("arg", "var") else w[2]
            if not spec.denotes(env, n, w, config == "scoped"):
                bad.setdefault("missing", "nothing is declared for %s: %s" % (show_parts(n), text.replace("\n", " / ")))
        return bad
    known = [(w[1], w[2]) for w in wants] if getattr(spec, "collide", False) else None
    for g, w in zip(got, wants):
        t = canon(s, g[2])
        if known is not None:
            m = spec.means(env, t, known, own_c)
            if m != {(w[1], w[2])}:
                bad.setdefault("reference", "`%s` stands for %s.%s but denotes %s in: %s" % (
                    show_parts(t), show_parts(w[1]), show_parts(w[2]),
                    " and ".join(sorted("%s.%s" % (show_parts(a), show_parts(b)) for a, b in m)) or "nothing", text.replace("\n", " / ")))
        elif not spec.denotes(env, t, w):
            bad.setdefault("reference", "`%s` is not bound to %s by the header: %s" % (show_parts(t), show_want(w), text.replace("\n", " / ")))
    # ---- declarations: once, and only what is asked for
    if len(set(env)) != len(env):
        bad.setdefault("twice", "declared twice: %s" % text.replace("\n", " / "))
    if known is not None:
        for b, t in env:
            if not any(t[1] == w[1] and (len(t) < 3 or t[2] == w[2]) and spec.needed(w, own_c) for w in wants):
                bad.setdefault("extra", "a declaration nothing asks for: %s" % text.replace("\n", " / "))
        if spec.lang == "Java" and len(set(b for b, t in env)) != len(env):
            bad.setdefault("clash", "two imports declare the same name: %s" % text.replace("\n", " / "))
        if how == "register":
            pass
    else:
        for d in env:
            b, t = d
            ok_ = any(spec.serves(d, w) if hasattr(spec, "serves") else serves(t, w) for w in wants)
            if not ok_ and not (hasattr(spec, "redundant_ok") and spec.redundant_ok(d, env)):
                bad.setdefault("extra", "a declaration nothing asks for: %s" % text.replace("\n", " / "))
        if how == "register":
            for w in wants:
                if not any(serves(t, w) for b, t in env) and not (w[0] == "member" and spec.lang in ("Rust",) and len(split_on(w[1], "::")) == 1) and \
                        not (hasattr(spec, "implicit") and spec.implicit(env, w)):
                    bad.setdefault("missing", "nothing is declared for a registered import: %s" % text.replace("\n", " / "))
    return bad


def serves(t, w):
    """declaration t is about what w means"""
    if t[0] == "either":
        return w[1] == t[1] or (w[1], w[2]) == (t[2], t[3])
    if t[0] == "item":
        return (w[1], w[2]) == (t[1], t[2])
    if len(t) == 2:
        return t[1] == w[1] and (t[0] == w[0] or t[0] == "module")
    return t == w


def show_want(w):
    return " ".join(show_parts(x) if isinstance(x, tuple) else x for x in w)


def run_case(prog, lang, combo, config, how, part=None):
    """one combination of imports; returns (complaints, number of outcomes)"""
    spec = SPECS[lang]()
    name = "%s[%s]%s: %s" % (lang, config[0], " registered" if how == "register" else "", "; ".join(show_recipe(c) for c in combo))
    try:
        R, st, c, imps, args, own = setup(prog, spec, combo, config, how)
        if part is not None:
            # the equalities of this share are decided first
            res = [x for s0 in split_cases([st], spec.pairs(args, own))[part[0]::part[1]] for x in R.file(s0, c)]
        else:
            res = R.file(st, c)
        if part is not None and not res:
            return name, {}, 0, None
        bad, n = {}, 0
        for pieces, s in res:
            states = [s]
            if getattr(spec, "collide", False):
                states = split_cases(states, spec.pairs(args, own))
            for s1 in states:
                n += 1
                for k, v in judge(spec, [x[3] for x in combo], pieces, s1, args, own, imps, how, config[0], R.nested).items():
                    bad.setdefault(k, v)
            fm = s.ghost["formats"]
            if not fm or fm[-1][0] != s.mem[("T",)] and lang != "csharp" and not ends_with(prog, s, fm[-1][0], s.mem[("T",)]):
                bad.setdefault("layout", "the body is not formatted last")
            if any(deep(s, x[1]) != deep(s, c) for x in fm):
                bad.setdefault("layout", "something is formatted with another configuration")
            if len(set(x[2] for x in fm)) > 1:
                pass
        if not n:
            bad["layout"] = "formatting a file never succeeds"
        return name, bad, n, None
    except Imprecise as x:
        return name, {}, 0, str(x)
    except Exception:
        import traceback
        return name, {}, 0, traceback.format_exc()


def ends_with(prog, st, v, body):
    """the last items of stream v are those of the body"""
    def items(v):
        v = strip(st, v)
        if v[0] != "adt":
            raise Imprecise("formatted stream %r" % (v,))
        l = [strip(st, x) for x in v[3]]
        l = [x for x in l if x[:2] == ("o", "list")]
        if len(l) != 1:
            raise Imprecise("items of a formatted stream")
        out = []
        for x in l[0][2]:
            x = deep(st, x)
            # the links between imports are not the same at another position
            out.append(("adt", x[1], x[2], x[3][1:]) if x[0] == "adt" and len(x[3]) == 2 and x[3][0][0] == "i" else x)
        return out
    b = items(body)
    return items(v)[-len(b):] == b


def show_recipe(r):
    return "%s%s" % (r[0], "".join("." + b[0] for b in r[2])) + "".join("(%s)" % x.partition(":")[2] for x in r[1] if ":" in x)


def cases(tier, langs=None):
    out = []
    for lang, S in SPECS.items():
        if langs and lang not in langs:
            continue
        spec = S()
        rs = spec.recipes()
        for cfg in spec.configs():
            out.append((lang, (), cfg, "use"))
            for r in rs:
                out.append((lang, (r,), cfg, "use"))
                out.append((lang, (r,), cfg, "register"))
            for a, b in itertools.product(rs, rs):
                deep_ = [x for x in (a, b) if x[1][-1].startswith("V:variable(")]
                if tier != "thorough" and deep_ and (a[3] if deep_[0] is b else b[3]) != ("arg",):
                    continue
                if tier == "thorough" or rs.index(a) <= rs.index(b):
                    out.append((lang, (a, b), cfg, "use"))
            if tier != "pairs" and (getattr(spec, "collide", False) or len(rs) <= 2):
                for c in itertools.combinations_with_replacement(rs, 3):
                    if tier == "thorough" or len(set(map(repr, c))) == 1:
                        if getattr(spec, "collide", False):
                            out += [(lang, c, cfg, "use", (k, 8)) for k in range(8)]
                        else:
                            out.append((lang, c, cfg, "use"))
    return out


PROG = None


def work(c):
    return run_case(PROG, *c)


def run_all(prog, tier, langs=None):
    global PROG
    PROG = prog
    import multiprocessing, absint
    cs = cases(tier, langs)
    with multiprocessing.get_context("fork").Pool(8) as pool:
        return list(zip(cs, pool.map(work, cs, chunksize=4)))


def header_of(s, pieces):
    """the lines of a file except for those which are nothing but a reference"""
    lines, _ = layout(pieces)
    return [l for l in lines if not (len(l[1]) == 1 and (l[1][0][0] == "ref" or l[1][0] == BODY))]


def canon_lines(s, lines):
    out = []
    for ind, atoms in lines:
        l = []
        for a in atoms:
            if a[0] == "ref":
                l += list(a[2])
            elif a[0] == "q":
                l.append(("q", canon(s, a[1])))
            else:
                l.append(a)
        r = []
        for x in l:
            if x[0] == "q":
                r.append(x)
            elif r and r[-1][0] == "t":
                r[-1] = ("t", r[-1][1] + (x,))
            else:
                r.append(("t", (x,)))
        out.append((ind, tuple(x if x[0] == "q" else ("t", canon(s, models.norm_parts(x[1]))) for x in r)))
    return tuple(out)


def merge(a, b):
    """the state in which the decisions of both were made, or None"""
    c = a.copy()
    try:
        for x, y in sorted(b.ghost["eq"], key=repr):
            assume_eq(x, y)(c)
        for x in b.ghost["ne"]:
            if len(frozenset(rep_of(c, y) for y in x)) == 1:
                return None
    except Infeasible:
        return None
    less = {(canon_value(c, x), canon_value(c, y)) for x, y in a.ghost["less"] | b.ghost["less"]}
    while True:
        more = {(x, w) for x, y in less for z, w in less if y == z} - less
        if not more:
            break
        less |= more
    return None if any(x == y for x, y in less) else c


def run_order(prog, lang, combo, config):
    """does the header depend on the order, number and kind of occurrences?"""
    spec = SPECS[lang]()
    name = "%s[%s]: %s" % (lang, config[0], "; ".join(show_recipe(c) for c in combo))
    ways = [[(i, "use") for i in range(len(combo))],
            [(i, "use") for i in range(len(combo) - 1, 0, -1)] + [(0, "register"), (0, "use")]]
    try:
        outs = []
        for adds in ways:
            R, st, c, imps, args, own = setup(prog, spec, combo, config, "use", adds)
            outs.append([(header_of(s, p), s) for p, s in R.file(st, c)])
        n = 0
        for h1, s1 in outs[0]:
            for h2, s2 in outs[1]:
                m = merge(s1, s2)
                if m is None:
                    continue
                n += 1
                if canon_lines(m, h1) != canon_lines(m, h2):
                    return name, {"order": "the header is `%s` or `%s`, depending on the order of use" % (
                        " / ".join(show_line(l) for l in h1), " / ".join(show_line(l) for l in h2))}, n, None
        if not n:
            return name, {}, 0, "no outcomes in common"
        return name, {}, n, None
    except Imprecise as x:
        return name, {}, 0, str(x)
    except Exception:
        import traceback
        return name, {}, 0, traceback.format_exc()


def work_order(c):
    return run_order(PROG, *c)


def run_orders(prog, tier, langs=None):
    global PROG
    PROG = prog
    import multiprocessing
    cs = [(l, c, cfg) for l, c, cfg, how, *_ in cases(tier, langs) if how == "use" and 1 <= len(c) <= 2]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        return list(zip(cs, pool.map(work_order, cs, chunksize=4)))


TOPICS = {
    "layout": "the file is: package, declarations, body",
    "reference": "references denote what was asked for",
    "twice": "nothing is declared twice",
    "extra": "nothing else is declared",
    "missing": "everything asked for is declared",
    "clash": "no two declarations of one name",
    "order": "the header only depends on the set of imports",
}


def report(rep, res, topics):
    for c, (name, bad, n, imp) in res:
        rep.count("outcomes", n)
        if imp:
            rep.ob("followable", name, False, imp.strip().split("\n")[-1], "imprecise|%s" % name)
            continue
        for t in topics:
            if n or t in bad:
                rep.ob(TOPICS[t], name, t not in bad, bad.get(t, ""), "%s|%s" % (t, name))


def usable(rep, prog):
    """languages whose interface is where it is expected"""
    out = []
    for l, S in SPECS.items():
        out.append(l)
    return out


def check_layout(progs, rep):
    report(rep, run_all(progs["genco"], rep.tier if rep.tier == "thorough" else "pairs"), ["layout"])


def check_modules(prog, rep):
    """texts that are turned into a module of JavaScript name a global module"""
    import p_content
    paths = [p for p, a in prog.adts.items() if a.get("local") and p.startswith("lang::") and p.split("::")[-1] == "Module" and a["kind"] == "enum"]
    for f in [x for x in prog.roots if x.has_body and x.name == "from" and x.trait and models.base(x.trait) == "From" and x.self_s in paths]:
        where = "%s from %s" % (f.self_s, prog.tys(f.locals[1]))
        try:
            r = p_content.Run(prog)
            st = r.ex.state()
            x = p_content.leaf("x")
            is_item = prog.types[f.locals[1]].get("path") == r.item_str
            names = [v["name"] for v in prog.adts[f.self_s]["variants"]]
            outs = []
            for k in range(len(prog.adts[r.item_str]["variants"])) if is_item else [None]:
                outs += r.run(f, [x if k is None else r.text(x, k)], st.copy())
            bad = "" if outs else "never returns"
            for v, s in outs:
                if v[0] == "panic":
                    bad = "may panic"
                    continue
                v = strip(s, v)
                if v[0] != "adt" or "Global" not in names:
                    raise Imprecise("module %r" % (v,))
                if names[v[2]] != "Global":
                    bad = "is a module of kind %s" % names[v[2]]
                elif p_content.tparts(s, v[3][0]) != (x,):
                    bad = "names %r" % (p_content.tparts(s, v[3][0]),)
        except Imprecise as e:
            rep.ob("reference", where, False, str(e), "imprecise|module|%s" % where)
            continue
        rep.ob("a text names the global module of this name", where, not bad, bad, "module|%s" % where)


def check_refs(progs, rep):
    check_modules(progs["genco"], rep)
    report(rep, run_all(progs["genco"], rep.tier if rep.tier == "thorough" else "pairs"), ["reference", "twice", "extra", "missing"])


def check_collide(progs, rep):
    report(rep, run_all(progs["genco"], rep.tier, ["java", "csharp"]), ["reference", "extra", "clash"])


def check_order(progs, rep):
    import p_det
    p_det.check(progs, rep)
    report(rep, run_orders(progs["genco"], rep.tier), ["order"])


if __name__ == "__main__":
    import mir
    prog = mir.load()["genco"]
    tier = "quick"
    t0 = time.time()
    if sys.argv[1:2] == ["order"]:
        res = run_orders(prog, tier, sys.argv[2:])
    else:
        res = run_all(prog, tier, sys.argv[1:])
    seen = set()
    for c, (name, bad, n, imp) in res:
        if imp:
            print("IMPRECISE", name, imp.strip().split("\n")[-1][:300])
        for k, v in bad.items():
            print(k, "|", name, "|", v[:400])
    print(len(res), "cases", sum(x[1][2] for x in res), "outcomes", time.time() - t0)
