"""C19: equality, ordering and hashing go by content; conversions to and from item texts keep the text."""
import itertools, sys
import models
from absint import *
from exact import *
from p_content import Run, Cases, leaf, drain

ORD = "core::cmp::Ordering"
TRAITS = ("PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Clone")


def ordering(c):
    return ("adt", ORD, c + 1, ())


def known_less(st, x, y):
    less = {(canon_value(st, a), canon_value(st, b)) for a, b in st.ghost["less"]}
    while True:
        more = {(a, d) for a, b in less for c, d in less if b == c} - less
        if not more:
            return (x, y) in less
        less |= more


def text_cmp(st, a, b):
    x, y = mktext(canon(st, tparts(st, a))), mktext(canon(st, tparts(st, b)))
    if x == y:
        return 0
    if x[0] == y[0] == "s":
        return (x[1] > y[1]) - (x[1] < y[1])
    if known_less(st, x, y):
        return -1
    if known_less(st, y, x):
        return 1
    ne = any(frozenset(mktext(canon(st, tparts(st, q))) for q in n) == frozenset([x, y]) for n in st.ghost["ne"])

    def lt(u, v):
        def f(s):
            assume_ne(u, v)(s)
            s.ghost["less"] = s.ghost["less"] | {(u, v)}
        return f
    raise Fork(([] if ne else [assume_eq(x, y)]) + [lt(x, y), lt(y, x)])


def value_cmp(st, a, b):
    """structural order, or None"""
    a, b = strip(st, a), strip(st, b)
    if is_text(a) and is_text(b):
        return text_cmp(st, a, b)
    if a[0] == b[0] == "i" and not a[2] and not b[2]:
        return (a[1] > b[1]) - (a[1] < b[1])
    if a[0] == b[0] == "b":
        return int(a[1]) - int(b[1])
    if a[0] == b[0] == "adt" and a[1] == b[1]:
        if a[2] != b[2]:
            return -1 if a[2] < b[2] else 1
        for x, y in zip(a[3], b[3]):
            c = value_cmp(st, x, y)
            if c:
                return c
        return 0
    if a[0] == b[0] == "tup":
        for x, y in zip(a[1], b[1]):
            c = value_cmp(st, x, y)
            if c:
                return c
        return 0
    if a[:2] == b[:2] == ("o", "list"):
        for x, y in zip(a[2], b[2]):
            c = value_cmp(st, x, y)
            if c:
                return c
        return (len(a[2]) > len(b[2])) - (len(a[2]) < len(b[2]))
    raise Imprecise("order of %s and %s" % (str(a)[:80], str(b)[:80]))


class EqRun(Run):
    def __init__(self, prog):
        super().__init__(prog)
        self.ex.derived = lambda inst: False if inst is self.top else Exact.derived(self.ex, inst)
        self.top = None

    def intercept(self, call):
        d, n, st, args = call.d, call.name, call.st, call.args
        tr = models.base(d["trait"]) if d["trait"] else None
        own = call.inst is not None and call.inst.local and call.inst.has_body and not Exact.derived(self.ex, call.inst)
        if own and tr in TRAITS:
            self.eng.push_frame(st, call.inst, list(args), call.dest, call.ret, call.cont)
            return None
        if len(args) == 2 and not own:
            a, b = strip(st, args[0]), strip(st, args[1])
            if n in ("cmp", "partial_cmp", "lt", "le", "gt", "ge") and tr in ("Ord", "PartialOrd", "Iterator", None):
                if a[0] == "o" and a[1] in ("it", "ad") or b[0] == "o" and b[1] in ("it", "ad"):
                    return NotImplemented
                c = value_cmp(st, a, b)
                if n == "cmp":
                    return call.done(ordering(c))
                if n == "partial_cmp":
                    return call.done(some(ordering(c)))
                return call.done(boolean({"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[n]))
            if n == "hash" and tr in ("Hash", None):
                st.ghost["hash"] = st.ghost.get("hash", ()) + (deep(st, a),)
                return call.done(UNIT)
        if n == "hash_slice" and len(args) == 2:
            st.ghost["hash"] = st.ghost.get("hash", ()) + tuple(deep(st, x) for x in strip(st, args[0])[2])
            return call.done(UNIT)
        if tr == "Hasher" and n.startswith("write") and len(args) == 2:
            st.ghost["hash"] = st.ghost.get("hash", ()) + (deep(st, args[1]),)
            return call.done(UNIT)
        if n in ("as_bytes", "as_ref", "as_str", "deref") and len(args) == 1 and is_text(strip(st, args[0])) and not own:
            t = strip(st, args[0])
            if t[0] == "adt":
                t = t[3][0]
            return call.done(t)
        if n == "len" and len(args) == 1 and is_text(strip(st, args[0])) and not own:
            t = canon(st, tparts(st, args[0]))
            return call.done(num(len(t[0][1])) if len(t) == 1 and t[0][0] == "s" else ("i", 0, ((("textlen", mktext(t)), 1),)))
        if n in ("is_eq", "is_ne", "is_lt", "is_gt", "is_le", "is_ge") and args and strip(st, args[0])[:2] == ("adt", ORD):
            c = strip(st, args[0])[2] - 1
            return call.done(boolean({"is_eq": c == 0, "is_ne": c != 0, "is_lt": c < 0, "is_gt": c > 0, "is_le": c <= 0, "is_ge": c >= 0}[n]))
        if n == "reverse" and args and strip(st, args[0])[:2] == ("adt", ORD):
            return call.done(ordering(-(strip(st, args[0])[2] - 1)))
        if n == "then" and len(args) == 2 and strip(st, args[0])[:2] == ("adt", ORD):
            return call.done(args[1] if strip(st, args[0])[2] == 1 else args[0])
        if n == "fmt" and len(args) == 2 and strip(st, args[1]) == sym(OUT) and is_text(strip(st, args[0])) and not own:
            st.ghost["text"] = models.norm_parts(st.ghost["text"] + tparts(st, args[0]))
            return call.done(ok())
        return super().intercept(call)

    # -------------------------------------------------------- values of a type
    def values(self, ti, tag, d=0):
        prog = self.prog
        t = prog.types[ti]
        if t["k"] == "ref":
            return self.values(t["to"], tag, d)
        if t["k"] in ("int",):
            return [num(-1), num(1)]
        if t["k"] == "uint":
            return [num(0), num(2)]
        if t["k"] == "bool":
            return [boolean(False), boolean(True)]
        if t["k"] == "adt":
            p = t["path"]
            b = models.base(p)
            if b in ("String", "Rc", "RelativePathBuf"):
                return [leaf(*tag)]
            if b == "Box":
                return self.values(t["args"][0], tag, d)
            if b == "Vec":
                es = self.values(t["args"][0], tag + (0,), d + 1)[:2]
                return [("o", "list", ())] + [("o", "list", (e,)) for e in es]
            if p == self.item_str:
                return [self.text(leaf(*tag), k) for k in range(len(prog.adts[p]["variants"]))]
            vf = t.get("vf")
            if vf is None or d > 4:
                raise Imprecise("values of %s" % t["s"])
            out = []
            for vi, fs in enumerate(vf):
                cols = [self.values(f, tag + (vi, i), d + 1) for i, f in enumerate(fs)]
                # every field varied on its own, and all together
                if not cols:
                    out.append(("adt", p, vi, ()))
                    continue
                rows = [tuple(c[0] for c in cols)]
                for i, c in enumerate(cols):
                    rows += [tuple(x if j == i else cols[j][0] for j in range(len(cols))) for x in c[1:]]
                rows.append(tuple(c[-1] for c in cols))
                for r in dict.fromkeys(rows):
                    out.append(("adt", p, vi, r))
            return out
        return [leaf(*tag)]


def ref(st, name, v):
    st.mem[(name,)] = v
    return ("ref", (name,), ())


def decide(st, f):
    """[(state, value)] of a question that may split cases"""
    work, out = [st], []
    while work:
        s = work.pop()
        try:
            out.append((s, f(s)))
        except Infeasible:
            pass
        except Fork as k:
            for m in k.muts:
                s2 = s.copy()
                try:
                    m(s2)
                    work.append(s2)
                except Infeasible:
                    pass
        if len(out) > 3000:
            raise Imprecise("too many cases")
    return out


def runs(r, inst, args, st):
    r.top = inst
    try:
        for v, s in r.run(inst, args, st):
            if isinstance(v, tuple) and v and v[0] == "panic":
                raise Imprecise("may panic: %s" % (v[1],))
            yield v, s
    finally:
        r.top = None


def as_ord(st, v):
    v = strip(st, v)
    if v[0] == "adt" and v[1] == OPTION and v[2] == 1:
        v = strip(st, v[3][0])
    if v[:2] == ("adt", ORD):
        return v[2] - 1
    raise Imprecise("an ordering %s" % (str(v)[:80],))


def check_impl(r, rep, inst, tname, texts_only):
    """one hand-written impl function"""
    what = "%s for %s (%s)" % (inst.name, tname, inst.span())
    bad, n = set(), 0
    sub = r.prog.types[inst.locals[1]]
    ti = sub["to"] if sub["k"] == "ref" else inst.locals[1]
    try:
        A, B = r.values(ti, ("a",)), r.values(ti, ("b",))
        if inst.name in ("eq", "ne"):
            for a, b in itertools.product(A, B):
                st = r.ex.state()
                for v, s in runs(r, inst, [ref(st, "A", a), ref(st, "B", b)], st):
                    for s2, e in decide(s, lambda q: value_eq(q, a, b)):
                        n += 1
                        got = strip(s2, v)
                        if got[0] != "b":
                            raise Imprecise("the result %s" % (str(got)[:100],))
                        if got[1] != (e if inst.name == "eq" else not e):
                            bad.add("%s and %s are %s, but %s says %s" % (show(a), show(b), "equal" if e else "different", inst.name, got[1]))
        elif inst.name in ("cmp", "partial_cmp"):
            C = r.values(ti, ("c",))
            for a, b in itertools.product(A, B):
                st = r.ex.state()
                for v, s in runs(r, inst, [ref(st, "A", a), ref(st, "B", b)], st):
                    for s2, e in decide(s, lambda q: text_cmp(q, a, b) if texts_only else value_eq(q, a, b)):
                        n += 1
                        o = as_ord(s2, v)
                        if texts_only:
                            if o != e:
                                bad.add("%s and %s compare as %d, their texts as %d" % (show(a), show(b), o, e))
                            continue
                        if (o == 0) != e:
                            bad.add("%s and %s compare as %d but are %s" % (show(a), show(b), o, "equal" if e else "different"))
                        for v2, s3 in runs(r, inst, [("ref", ("B",), ()), ("ref", ("A",), ())], s2):
                            if as_ord(s3, v2) != -o:
                                bad.add("%s against %s is %d, the other way round %d" % (show(a), show(b), o, as_ord(s3, v2)))
            if not texts_only and len(A) <= 6:
                for a, b, c in itertools.product(A, B, C):
                    st = r.ex.state()
                    for v, s in runs(r, inst, [ref(st, "A", a), ref(st, "B", b)], st):
                        if as_ord(s, v) >= 0:
                            continue
                        for v2, s2 in runs(r, inst, [("ref", ("B",), ()), ref(s, "C", c)], s):
                            if as_ord(s2, v2) >= 0:
                                continue
                            for v3, s3 in runs(r, inst, [("ref", ("A",), ()), ("ref", ("C",), ())], s2):
                                n += 1
                                if as_ord(s3, v3) >= 0:
                                    bad.add("the order is not transitive on %s, %s, %s" % (show(a), show(b), show(c)))
        elif inst.name == "hash":
            for a, b in itertools.product(A, B):
                st = r.ex.state()
                for s, e in decide(st, lambda q: value_eq(q, a, b)):
                    if not e:
                        continue
                    for _, s1 in runs(r, inst, [ref(s, "A", a), sym("hasher")], s.copy()):
                        h1 = s1.ghost.get("hash", ())
                        s1.ghost["hash"] = ()
                        for _, s2 in runs(r, inst, [ref(s1, "B", b), sym("hasher")], s1):
                            n += 1
                            x, y = ([hnorm(s2, z) for z in h] for h in (h1, s2.ghost.get("hash", ())))
                            if x != y:
                                bad.add("%s and %s are equal but are hashed as %s and %s" % (show(a), show(b), [show(z) for z in x], [show(z) for z in y]))
                            if not x and len(A) > 1:
                                bad.add("nothing is hashed")
        elif inst.name == "clone":
            for a in A:
                st = r.ex.state()
                for v, s in runs(r, inst, [ref(st, "A", a)], st):
                    for s2, e in decide(s, lambda q: value_eq(q, v, a)):
                        n += 1
                        if not e:
                            bad.add("the clone of %s is %s" % (show(a), show(deep(s2, v))))
        else:
            return
    except Imprecise as e:
        rep.ob("followable", what, False, str(e), "imprecise|%s" % inst.path)
        if not bad:
            return
    rep.count("cases", n)
    rep.ob("%s goes by content" % {"eq": "equality", "ne": "equality", "cmp": "ordering", "partial_cmp": "ordering", "hash": "hashing", "clone": "cloning"}[inst.name],
           what, n and not bad, "; ".join(sorted(bad)[:3]) or "no case", "eq|%s|%s" % (inst.name, tname))


def hnorm(st, v):
    v = strip(st, v)
    if v[0] == "adt" and is_text(v):
        v = v[3][0]
    return canon_value(st, v)


def show(v):
    if v[0] == "sym":
        return "_".join(str(x) for x in v[1][1:] if not isinstance(x, tuple)) or "?"
    if v[0] == "adt":
        return "%s#%d(%s)" % (v[1].split("::")[-1], v[2], ", ".join(show(x) for x in v[3]))
    if v[0] in ("i", "b", "s"):
        return str(v[1])
    return str(v)[:60]


def check_types(r, rep):
    prog = r.prog
    by = {}
    for im in prog.impls:
        t = prog.types[im["self"]]
        if im["trait"] and models.base(im["trait"]) in TRAITS and t["k"] == "adt" and prog.adts.get(t["path"], {}).get("local"):
            by.setdefault(t["path"], {})[models.base(im["trait"])] = bool(im.get("derived")) and by.get(t["path"], {}).get(models.base(im["trait"]), True)
    for p in sorted(by):
        if p.split("::")[-1] == "Kind" or "{" in p:
            pass
        hand = [t for t, d in by[p].items() if not d]
        rep.count("types")
        if not hand:
            rep.ob("comparisons are derived together", p, True, "")
            continue
        for t in hand:
            fs = [x for x in prog.roots if x.has_body and x.trait and models.base(x.trait) == t and x.self_s and models.base(x.self_s) == models.base(p) and
                  x.self_s.split("<")[0] == p and x.name in ("eq", "ne", "cmp", "partial_cmp", "hash", "clone")]
            for f in fs:
                if f.argc == 2 and t in ("PartialEq", "PartialOrd") and prog.tys(f.locals[1]) != prog.tys(f.locals[2]):
                    continue
                check_impl(r, rep, f, p, p == r.item_str)


def check_mixed(r, rep):
    """a stream against a list of items"""
    prog = r.prog
    T = r.tf.tokens["path"]
    for f in prog.roots:
        if not (f.has_body and f.name == "eq" and f.argc == 2 and f.trait and models.base(f.trait) == "PartialEq"):
            continue
        tys = [prog.types[l] for l in f.locals[1:3]]
        tys = [prog.types[t["to"]] if t["k"] == "ref" else t for t in tys]
        isT = [t["k"] == "adt" and t["path"] == T for t in tys]
        if sorted(isT) != [False, True]:
            continue
        what = "%s == %s (%s)" % (prog.tys(f.locals[1]), prog.tys(f.locals[2]), f.span())
        X = [r.lit("x"), r.item("Space"), r.item("Push"), r.item("Indentation", num(1)), r.item("Lang", num(0), leaf("p"))]
        Y = [r.lit("y"), r.item("Space"), r.item("Push"), r.item("Indentation", num(1)), r.item("Indentation", num(2)), r.item("Lang", num(0), leaf("q"))]
        ls = lambda X: [()] + [(x,) for x in X] + [(X[0], x) for x in X[1:]]
        bad, n = set(), 0
        try:
            for xs, ys in itertools.product(ls(X), ls(Y)):
                st = r.ex.state()
                # where the last import is says nothing about the items
                tok, lst = r.stream(xs, len(xs) if xs and xs[-1] == X[-1] else 0), ("o", "list", tuple(ys))
                args = [tok, lst] if isT[0] else [lst, tok]
                for v, s in runs(r, f, [ref(st, "A", args[0]), ref(st, "B", args[1])], st):
                    for s2, e in decide(s, lambda q: value_eq(q, ("o", "list", tuple(xs)), lst)):
                        n += 1
                        got = strip(s2, v)
                        if got[0] != "b":
                            raise Imprecise("the result %s" % (str(got)[:100],))
                        if got[1] != e:
                            bad.add("items [%s] and [%s]: %s" % (", ".join(show(x) for x in xs), ", ".join(show(x) for x in ys), got[1]))
        except Imprecise as e:
            rep.ob("followable", what, False, str(e), "imprecise|mixed|%s" % f.path)
            if not bad:
                continue
        rep.count("cases", n)
        rep.ob("a stream equals the list of its items", what, n and not bad, "; ".join(sorted(bad)[:3]) or "no case", "mixed|%s" % f.path)


def check_texts(r, rep):
    prog = r.prog
    for f in prog.roots:
        if not (f.has_body and f.argc >= 1):
            continue
        selfs = f.self_s == r.item_str
        tr = models.base(f.trait) if f.trait else None
        if selfs and tr == "From" and f.name == "from":
            mode = "from"
        elif selfs and (tr in ("AsRef", "Deref", "Borrow") or tr is None and f.name in ("as_str",)) and f.argc == 1:
            mode = "to"
        elif selfs and tr == "Display" and f.name == "fmt":
            mode = "show"
        else:
            continue
        what = "%s %s(%s) (%s)" % (tr or "", f.name, prog.tys(f.locals[1]), f.span())
        bad, n = set(), 0
        try:
            st = r.ex.state()
            if mode == "from":
                ti = f.locals[1]
                ty = prog.tys(ti)
                cs = Cases(r, st)
                x = leaf("x")
                if "Box<str>" in ty or ty == "&&str":
                    args = [cs.ref(x) if ty == "&&str" else x]
                else:
                    args = [v for d, v, _ in cs.of(f, ty, ti) if d is not None]
                if not args:
                    rep.ob("known kind of text", what, False, "no rule for %s" % ty, "imprecise|kind|%s" % ty)
                    continue
            else:
                args = [ref(st, "A%d" % k, r.text(leaf("x"), k)) for k in range(len(prog.adts[r.item_str]["variants"]))]
            for a in args:
                for v, s in runs(r, f, [a] + ([sym(OUT)] if mode == "show" else []), st.copy()):
                    n += 1
                    t = s.ghost["text"] if mode == "show" else tparts(s, v)
                    if tuple(canon(s, t)) != (leaf("x"),):
                        bad.add("the text x becomes %s" % (str(t)[:100],))
        except Imprecise as e:
            rep.ob("followable", what, False, str(e), "imprecise|text|%s" % f.path)
            if not bad:
                continue
        rep.count("cases", n)
        rep.ob("conversions keep the text", what, n and not bad, "; ".join(sorted(bad)[:3]) or "no case", "text|%s" % what.split(" (")[0])


def check(progs, rep):
    prog = progs["genco"]
    try:
        r = EqRun(prog)
    except Imprecise as e:
        rep.ob("followable", "representation", False, str(e), "imprecise|representation")
        return
    check_types(r, rep)
    check_mixed(r, rep)
    check_texts(r, rep)


if __name__ == "__main__":
    import mir
    from report import Report
    rep = Report("C19", "quick")
    check(mir.load(), rep)
    for o in rep.obls:
        if not o[2] or "-v" in sys.argv:
            print(o[2], o[0], "|", o[1][:110], "|", o[3][-260:], "|", o[4][:60])
    print(rep.counts, len(rep.obls), sum(1 for o in rep.obls if o[2]))
