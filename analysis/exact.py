"""Exact collections and texts: code that handles a bounded number of arbitrary elements.

Texts are arbitrary (opaque symbols, or concatenations of symbols that contain no separator); whether
two of them are equal is split into cases and remembered.  Sets and maps hold exactly what was put in,
and are enumerated in every order."""
import itertools
import models
from absint import *

SEPS = ("::", "/", ".")
OUT = ("out",)


def tparts(st, v):
    """parts of a text"""
    v = strip(st, v)
    if v[0] == "adt" and v[1].endswith("item_str::ItemStr") and len(v[3]) == 1:
        return tparts(st, v[3][0])
    if v[0] in ("bytes",):
        return tparts(st, v[1])
    if v[0] == "str1":
        return tparts(st, v[1])
    if v[0] == "ch":
        return (("s", chr(v[1])),)
    if v[0] == "o" and v[1] == "str":
        r = []
        for p in v[2]:
            r += tparts(st, p)
        return models.norm_parts(tuple(r))
    if v[0] == "s":
        return (v,) if v[1] else ()
    return (v,)


def mktext(ps):
    ps = models.norm_parts(tuple(ps))
    if not ps:
        return ("s", "")
    if len(ps) == 1:
        return ps[0]
    return ("o", "str", ps)


def is_text(v):
    return v[0] in ("s", "sym", "str1", "ch") or (v[0] == "o" and v[1] == "str") or \
        (v[0] == "adt" and v[1].endswith("item_str::ItemStr"))


def chase(uf, p):
    n = 0
    while p in uf and n < 50:
        p = uf[p]
        n += 1
    return p


def is_rel(p):
    return p[0] == "sym" and isinstance(p[1], tuple) and p[1][0] == "relative"


def cong(st, uf, p):
    """the same term over representatives"""
    inner = lambda v: mktext(tuple(q for x in tparts(st, v) for q in tparts(st, chase(uf, x)) if q != ("s", "")))
    return ("sym", ("relative", inner(p[1][1]), inner(p[1][2])))


def rep_of(st, p):
    uf = dict(st.ghost["eq"])
    if any(is_rel(x) for x in uf) or is_rel(p):
        uf = {(cong(st, uf, k) if is_rel(k) else k): (cong(st, uf, v) if is_rel(v) else v) for k, v in uf.items()}
        if is_rel(p):
            p = cong(st, uf, p)
    return chase({k: v for k, v in uf.items() if k != v}, p)


def canon(st, ps):
    return models.norm_parts(tuple(q for p in ps for q in (lambda r: r[2] if r[0] == "o" else (r,))(rep_of(st, p)) if q != ("s", "")))


def assume_eq(a, b):
    def f(s):
        a2, b2 = rep_of(s, a), rep_of(s, b)
        if a2 == b2:
            return
        if a2[0] != "sym":
            a2, b2 = b2, a2
        if a2[0] != "sym":
            raise Infeasible()
        s.ghost["eq"] = s.ghost["eq"] | frozenset([(a2, b2)])
        for x in s.ghost["ne"]:
            if len(frozenset(rep_of(s, y) for y in x)) == 1:
                raise Infeasible()
        # terms over equals are equal
        rel = {}
        uf = dict(s.ghost["eq"])
        for k, v in s.ghost["eq"]:
            if is_rel(k):
                c = cong(s, uf, k)
                if rel.setdefault(c, v) != v:
                    assume_eq(rel[c], v)(s)
    return f


def assume_ne(a, b):
    def f(s):
        s.ghost["ne"] = s.ghost["ne"] | frozenset([frozenset([a, b])])
    return f


def split_on(ps, sep):
    """segments of a text; opaque parts contain no separator"""
    out, cur = [], []
    for p in ps:
        if p[0] == "s":
            bits = p[1].split(sep)
            for i, b in enumerate(bits):
                if i:
                    out.append(cur)
                    cur = []
                if b:
                    cur.append(("s", b))
        else:
            cur.append(p)
    out.append(cur)
    return out


def text_eq(st, a, b):
    """True, False, or raises Fork"""
    pa, pb = canon(st, tparts(st, a)), canon(st, tparts(st, b))
    if pa == pb:
        return True
    if all(p[0] == "s" for p in pa + pb):
        return False
    seps = [s for s in SEPS if any(p[0] == "s" and s in p[1] for p in pa + pb)]
    free = st.eng.sep_free
    if len(pa) > 1 or len(pb) > 1 or seps:
        if all(p[0] == "s" or p in free for p in pa + pb) and seps:
            sa, sb = split_on(pa, seps[0]), split_on(pb, seps[0])
            if len(sa) != len(sb):
                return False
            r = [text_eq(st, mktext(x), mktext(y)) for x, y in zip(sa, sb)]
            return all(r)
        if len(pa) == 1 and len(pb) == 1:
            pass
        else:
            # strip what is common
            while pa and pb and pa[0] == pb[0]:
                pa, pb = pa[1:], pb[1:]
            while pa and pb and pa[-1] == pb[-1]:
                pa, pb = pa[:-1], pb[:-1]
            for x in (pa, pb):
                if not x:
                    y = pb if x is pa else pa
                    if any(p[0] == "s" for p in y) or y:
                        return False
            if len(pa) != 1 or len(pb) != 1:
                raise Imprecise("equality of %r and %r" % (pa, pb))
    x, y = mktext(pa), mktext(pb)
    k = frozenset([x, y])
    for n in st.ghost["ne"]:
        if frozenset(mktext(canon(st, tparts(st, q))) for q in n) == k:
            return False
    if x[0] != "sym" and y[0] != "sym":
        raise Imprecise("equality of %r and %r" % (x, y))
    raise Fork([assume_eq(x, y), assume_ne(x, y)])


def value_eq(st, a, b):
    a, b = strip(st, a), strip(st, b)
    if a == b:
        return True
    if is_text(a) and is_text(b):
        return text_eq(st, a, b)
    if a[0] == b[0] == "adt":
        if a[2] != b[2] or a[1] != b[1]:
            return False
        return all(value_eq(st, x, y) for x, y in zip(a[3], b[3]))
    if a[0] == b[0] and a[0] in ("tup", "arr"):
        return len(a[1]) == len(b[1]) and all(value_eq(st, x, y) for x, y in zip(a[1], b[1]))
    if a[0] == b[0] == "b":
        return a[1] == b[1]
    if a[0] == b[0] == "i":
        d = aff_add(a, b, -1)
        if not d[2]:
            return d[1] == 0
        r = st.decide("eq0", d)
        if r is None:
            raise Fork([lambda s: s.assume("eq0", d), lambda s: s.assume("ne0", d)])
        return r
    if a[0] == b[0] == "o" and a[1] == b[1] == "list":
        return len(a[2]) == len(b[2]) and all(value_eq(st, x, y) for x, y in zip(a[2], b[2]))
    raise Imprecise("equality of %r and %r" % (str(a)[:100], str(b)[:100]))


def canon_value(st, v):
    """a value with its texts by representatives"""
    v = strip(st, v)
    if is_text(v):
        return mktext(canon(st, tparts(st, v)))
    if v[0] == "adt":
        return v[:3] + (tuple(canon_value(st, x) for x in v[3]),)
    if v[0] in ("tup", "arr"):
        return (v[0], tuple(canon_value(st, x) for x in v[1]))
    if v[0] == "o" and v[1] == "list":
        return ("o", "list", tuple(canon_value(st, x) for x in v[2]))
    return v


def elems(o):
    return tuple(o[2])


SETS = ("BTreeSet", "HashSet", "IndexSet")
MAPS = ("BTreeMap", "HashMap", "IndexMap")


class Exact:
    def __init__(self, prog, intercepts=()):
        self.prog = prog
        eng = self.eng = Engine(prog, intercepts=list(intercepts) + [self.intercept], max_states=40000, widen_after=10 ** 6)
        eng.list_max = 200
        eng.sep_free = set()
        eng.on_write = self.on_write
        self.shown = None               # text of what is no text here
        eng.exact = self

    def state(self):
        st = St(self.eng)
        st.ghost["eq"] = frozenset()
        st.ghost["ne"] = frozenset()
        st.ghost["less"] = frozenset()
        st.ghost["text"] = ()
        st.ghost["formats"] = ()
        return st

    def empty(self, b):
        return {"Vec": ("o", "list", ()), "VecDeque": ("o", "list", ()), "BTreeSet": ("o", "set", ()), "HashSet": ("o", "set", ()),
                "BTreeMap": ("o", "map", ()), "HashMap": ("o", "map", ()), "String": ("o", "str", ())}.get(b)

    def add(self, st, o, x):
        if o[0] == "o" and o[1] == "list":
            return ("o", "list", o[2] + (x,))
        if o[0] == "o" and o[1] == "set":
            es = elems(o)
            return o if self.find(st, es, x) is not None else ("o", "set", es + (x,))
        if o[0] == "o" and o[1] == "map":
            es = elems(o)
            i = self.find(st, es, x[1][0], lambda e: e[0])
            kv = (x[1][0], x[1][1])
            return ("o", "map", es + (kv,) if i is None else es[:i] + (kv,) + es[i + 1:])
        if o[0] == "o" and o[1] == "str" or o[0] == "s":
            return ("o", "str", tparts(st, o) + tparts(st, x))
        raise Imprecise("collecting into %r" % (o[:2],))

    # ---------------------------------------------------------------- writing
    def on_write(self, eng, st, target, v, dest, ret, cont, site, tb):
        if strip(st, target) == sym(OUT):
            st.ghost["text"] = models.norm_parts(st.ghost["text"] + tparts(st, v))
            return eng.deliver(st, ok(), dest, ret, cont)
        if tb == "String":
            v = strip(st, v)
            if v[:2] == ("o", "tt") and self.shown is not None:
                v = self.shown(v)
            t = models.deref_place(st, target)
            if t is not None and is_text(t[2]):
                st.store(t[0], t[1], mktext(tparts(st, t[2]) + tparts(st, v)))
                return eng.deliver(st, ok(), dest, ret, cont)
        return NotImplemented

    # ---------------------------------------------------------------- calls
    def intercept(self, call):
        st, d, n = call.st, call.d, call.name
        key = models.norm(call.key)
        ty = key.split(" ")[0].split("::")[0]
        args = call.args
        tr = models.base(d["trait"]) if d["trait"] else None
        if args:
            a0 = strip(st, args[0])
            # the destination
            if a0 == sym(OUT):
                if n in ("write_str", "write_char"):
                    st.ghost["text"] = models.norm_parts(st.ghost["text"] + tparts(st, args[1]))
                    return call.done(ok())
            # formatting of a stream
            if call.inst is not None and call.inst.local and call.inst.has_body and call.inst.trait is None and len(args) == 4:
                ab = [strip(st, a) for a in args[:2]]
                if sym(OUT) in ab:
                    tok = ab[1] if ab[0] == sym(OUT) else ab[0]
                    if tok[0] == "adt" and tok[1].split("::")[-1] == "Tokens":
                        st.ghost["formats"] += ((tok, strip(st, args[2]), deep(st, args[3])),)
                        return call.done(ok())
            if sym(OUT) in [strip(st, a) for a in args]:
                return NotImplemented
            if self.textish(call, a0):
                r = self.text_call(call, key, n, tr)
                if r is not NotImplemented:
                    return r
            if tr in ("PartialEq",) and n in ("eq", "ne") and len(args) == 2 and not (call.inst is not None and call.inst.local and call.inst.has_body
                                                                                   and not self.derived(call.inst)):
                r = value_eq(st, args[0], args[1])
                return call.done(boolean(r if n == "eq" else not r))
            if n == "clone" and tr == "Clone" and not (call.inst is not None and call.inst.local and call.inst.has_body and not self.derived(call.inst)):
                return call.done(models.deep_clone(st, a0))
            if call.inst is not None and call.inst.local and call.inst.has_body and not is_text(a0) and not self.derived(call.inst) and not d["local"] \
                    and "{closure#" not in call.inst.path:
                # an implementation of a foreign trait
                self.eng.push_frame(st, call.inst, list(args), call.dest, call.ret, call.cont)
                return None
            if tr == "Into" and n == "into" and not is_text(a0) and call.dty is not None:
                t = self.prog.types[call.dty]
                if t["k"] == "adt" and a0[0] == "adt" and a0[1] != t["path"]:
                    c = [r for r in self.prog.roots if r.has_body and r.name == "from" and r.self_s == t["s"] and r.path.endswith("From<%s>>::from" % a0[1])]
                    if len(c) != 1:
                        raise Imprecise("conversion of %s into %s" % (a0[1], t["s"]))
                    self.eng.push_frame(st, c[0], list(args), call.dest, call.ret, call.cont)
                    return None
            if tr in ("Into", "From") and n in ("into", "from") and (call.inst is None or not call.inst.has_body or is_text(a0)):
                return call.done(models.deep_clone(st, a0))
            if a0[0] == "o" and a0[1] in ("set", "map", "entry") or ty in SETS + MAPS:
                r = self.collection(call, key, n, a0, ty, tr)
                if r is not NotImplemented:
                    return r
            if a0[0] == "o" and a0[1] == "list":
                r = self.vector(call, n, a0)
                if r is not NotImplemented:
                    return r
            if a0[0] == "o" and a0[1] in ("it", "ad") and n == "collect" or n == "from_iter" and tr == "FromIterator":
                r = self.collect(call)
                if r is not NotImplemented:
                    return r
            if a0[0] == "o" and a0[1] == "it" and a0[2] == "list":
                if n == "count" or n == "len":
                    return call.done(num(len(a0[3])))
                if n == "last":
                    return call.done(some(a0[3][-1]) if a0[3] else none())
                if n == "rev":
                    return call.done(("o", "it", "list", tuple(reversed(a0[3]))))
                if n in ("skip", "take"):
                    i = strip(st, args[1])
                    if i[0] == "i" and not i[2]:
                        return call.done(("o", "it", "list", a0[3][i[1]:] if n == "skip" else a0[3][:i[1]]))
                if n in ("cloned", "copied"):
                    return call.done(("o", "it", "list", tuple(models.deep_clone(st, x) for x in a0[3])))
                if n in ("eq", "ne") and tr == "Iterator" and len(args) == 2:
                    b = models.make_iter(call, args[1])
                    if b[0] == "o" and b[1] == "it" and b[2] == "list":
                        r = len(a0[3]) == len(b[3]) and all(value_eq(st, x, y) for x, y in zip(a0[3], b[3]))
                        return call.done(boolean(r if n == "eq" else not r))
                if n == "nth":
                    i, p = strip(st, args[1]), models.place(call)
                    if i[0] == "i" and not i[2] and p:
                        st.store(p[0], p[1], ("o", "it", "list", a0[3][i[1] + 1:]))
                        return call.done(some(a0[3][i[1]]) if i[1] < len(a0[3]) else none())
                if n == "next_back":
                    p = models.place(call)
                    if p:
                        if not a0[3]:
                            return call.done(none())
                        st.store(p[0], p[1], ("o", "it", "list", a0[3][:-1]))
                        return call.done(some(a0[3][-1]))
        return NotImplemented

    def derived(self, inst):
        return inst.self_s is not None and (inst.self_s, inst.trait) in self.derives()

    def derives(self):
        if not hasattr(self, "_der"):
            self._der = set()
            for im in self.prog.impls:
                if im.get("derived"):
                    self._der.add((self.prog.types[im["self"]]["s"], im["trait"]))
        return self._der

    def textish(self, call, a0):
        return is_text(a0) or (a0[0] == "o" and a0[1] == "it" and a0[2] == "split")

    def text_call(self, call, key, n, tr):
        st, args = call.st, call.args
        t = tparts(st, args[0])
        if n in ("deref", "as_ref", "borrow", "as_str", "to_string", "to_owned", "clone", "into", "from", "into_string", "into_boxed_str", "as_relative_path", "into_owned") \
                and len(args) == 1:
            if call.dty is not None and self.prog.types[call.dty].get("path") == OPTION:
                return NotImplemented
            t0 = strip(st, args[0])
            if t0[0] == "sym" and not self.is_leaf(t0):
                return NotImplemented
            return call.done(mktext(t) if t0[0] != "sym" else t0)
        if len(args) == 2 and n in ("eq", "ne") and tr == "PartialEq":
            b = strip(st, args[1])
            if is_text(b):
                r = text_eq(st, args[0], args[1])
                return call.done(boolean(r if n == "eq" else not r))
        pat = strip(st, args[1]) if len(args) > 1 else None
        if pat is not None and pat[0] == "ch":
            pat = ("s", chr(pat[1]))
        if n in ("split", "rsplit", "split_once", "rsplit_once", "contains", "splitn", "rsplitn") and pat is not None:
            if n in ("splitn", "rsplitn"):
                lim, pat = pat, strip(st, args[2])
                if pat[0] == "ch":
                    pat = ("s", chr(pat[1]))
            if pat[0] != "s":
                return NotImplemented
            sep = pat[1]
            if not all(p[0] == "s" or p in self.eng.sep_free for p in t) or sep not in SEPS:
                if n == "contains" and all(p[0] == "s" for p in t):
                    return call.done(boolean(sep in "".join(p[1] for p in t)))
                return NotImplemented
            segs = [mktext(x) for x in split_on(t, sep)]

            def joinsep(xs):
                r = ()
                for i, x in enumerate(xs):
                    r += ((("s", sep),) if i else ()) + tparts(st, x)
                return mktext(r)
            if n == "contains":
                return call.done(boolean(len(segs) > 1))
            if n == "split":
                return call.done(("o", "it", "list", tuple(segs)))
            if n == "rsplit":
                return call.done(("o", "it", "list", tuple(reversed(segs))))
            if n in ("splitn", "rsplitn"):
                if lim[0] != "i" or lim[2]:
                    return NotImplemented
                k = lim[1]
                if len(segs) > k:
                    segs = segs[:k - 1] + [joinsep(segs[k - 1:])] if n == "splitn" else [joinsep(segs[:len(segs) - k + 1])] + segs[len(segs) - k + 1:]
                return call.done(("o", "it", "list", tuple(segs if n == "splitn" else reversed(segs))))
            if len(segs) < 2:
                return call.done(none())
            if n == "split_once":
                return call.done(some(("tup", (segs[0], joinsep(segs[1:])))))
            return call.done(some(("tup", (joinsep(segs[:-1]), segs[-1]))))
        if n in ("push_str", "push") and key.startswith("String"):
            p = models.place(call)
            if p is not None:
                st.store(p[0], p[1], mktext(t + tparts(st, args[1])))
                return call.done(UNIT)
        return NotImplemented

    def is_leaf(self, t):
        return isinstance(t[1], tuple) and t[1][:1] == ("leaf",)

    # ---------------------------------------------------------------- sets and maps
    def order(self, st, es, why, key=lambda x: x):
        """the elements in some order (all are explored, but the same elements always come in the same order)"""
        if len(es) < 2:
            return es
        ks = [canon_value(st, key(e)) for e in es]
        less = {(canon_value(st, x), canon_value(st, y)) for x, y in st.ghost["less"]}
        while True:
            more = {(x, w) for x, y in less for z, w in less if y == z} - less
            if not more:
                break
            less |= more
        ps = [p for p in itertools.permutations(range(len(es)))
              if not any(ks[p[j]] != ks[p[i]] and (ks[p[j]], ks[p[i]]) in less for i in range(len(p)) for j in range(i + 1, len(p)))]
        if not ps:
            raise Infeasible()
        if len(ps) == 1:
            return tuple(es[i] for i in ps[0])

        def choose(p):
            def f(s):
                s.ghost["less"] = s.ghost["less"] | {(deep(s, key(es[p[i]])), deep(s, key(es[p[j]])))
                                                     for i in range(len(p)) for j in range(i + 1, len(p))}
            return f
        raise Fork([choose(p) for p in ps])

    def find(self, st, es, k, key=lambda x: x):
        for i, e in enumerate(es):
            if value_eq(st, key(e), k):
                return i
        return None

    def put(self, call, o):
        p = models.place(call)
        if p is None:
            raise Imprecise("change of an opaque collection at %s" % call.where())
        call.st.store(p[0], p[1], o)

    def collection(self, call, key, n, a0, ty, tr):
        st, args = call.st, call.args
        if a0[0] != "o":
            return NotImplemented
        kind = a0[1]
        if kind == "set":
            es = elems(a0)
            if n in ("insert", "replace"):
                v = deep(st, args[1])
                i = self.find(st, es, v)
                if i is None:
                    self.put(call, ("o", "set", es + (v,)))
                return call.done(boolean(i is None))
            if n in ("contains", "get", "remove", "take"):
                i = self.find(st, es, args[1])
                if n in ("remove", "take") and i is not None:
                    self.put(call, ("o", "set", es[:i] + es[i + 1:]))
                if n in ("contains", "remove"):
                    return call.done(boolean(i is not None))
                return call.done(none() if i is None else some(es[i]))
            if n in ("is_empty", "len"):
                return call.done(boolean(not es) if n == "is_empty" else num(len(es)))
            if n == "clear":
                self.put(call, ("o", "set", ()))
                return call.done(UNIT)
            if n in ("into_iter", "iter", "drain"):
                return call.done(("o", "it", "list", self.order(st, es, call.where())))
            if n in ("first", "last", "pop_first", "pop_last"):
                if not es:
                    return call.done(none())
                o = self.order(st, es, call.where())
                if n.startswith("pop"):
                    self.put(call, ("o", "set", o[1:]))
                return call.done(some(o[0]))
            if n == "extend":
                it = models.make_iter(call, args[1])
                if it[1] == "it" and it[2] == "list":
                    for v in it[3]:
                        v = deep(st, v)
                        if self.find(st, es, v) is None:
                            es = es + (v,)
                    self.put(call, ("o", "set", es))
                    return call.done(UNIT)
                return NotImplemented
            if n == "clone":
                return call.done(a0)
            if tr is None or n in ("retain",):
                raise Imprecise("%s at %s" % (key, call.where()))
        if kind == "map":
            es = elems(a0)
            p = models.place(call)

            def ref(i, mut):
                if p is not None:
                    return ("ref", p[0], p[1] + (("mv", es[i][0]),))
                return ("rv", es[i][1])
            if n == "insert":
                k, v = deep(st, args[1]), args[2]
                i = self.find(st, es, k, lambda e: e[0])
                if i is None:
                    self.put(call, ("o", "map", es + ((k, v),)))
                    return call.done(none())
                self.put(call, ("o", "map", es[:i] + ((es[i][0], v),) + es[i + 1:]))
                return call.done(some(es[i][1]))
            if n in ("contains_key", "get", "get_mut", "remove", "index", "get_key_value"):
                i = self.find(st, es, args[1], lambda e: e[0])
                if n == "contains_key":
                    return call.done(boolean(i is not None))
                if n == "remove":
                    if i is None:
                        return call.done(none())
                    self.put(call, ("o", "map", es[:i] + es[i + 1:]))
                    return call.done(some(es[i][1]))
                if n == "index":
                    if i is None:
                        return [models.panic_outcome(call, "no entry found for key")]
                    return call.done(ref(i, False))
                if n == "get_key_value":
                    return call.done(none() if i is None else some(("tup", (("rv", es[i][0]), ref(i, False)))))
                return call.done(none() if i is None else some(ref(i, True)))
            if n == "entry":
                k = deep(st, args[1])
                i = self.find(st, es, k, lambda e: e[0])
                return call.done(("o", "entry", ("ref", p[0], p[1]), k if i is None else es[i][0]))
            if n in ("is_empty", "len"):
                return call.done(boolean(not es) if n == "is_empty" else num(len(es)))
            if n == "clear":
                self.put(call, ("o", "map", ()))
                return call.done(UNIT)
            if n in ("into_iter", "iter", "iter_mut", "drain", "keys", "values", "values_mut", "into_keys", "into_values"):
                o = self.order(st, es, call.where(), lambda e: e[0])
                out = []
                for k, v in o:
                    vv = ("ref", p[0], p[1] + (("mv", k),)) if p is not None and n in ("iter", "iter_mut", "values", "values_mut", "into_iter") and \
                        args[0][0] == "ref" else v
                    out.append(k if "keys" in n else vv if "values" in n else ("tup", (k, vv)))
                return call.done(("o", "it", "list", tuple(out)))
            if n == "clone":
                return call.done(a0)
            if tr is None:
                raise Imprecise("%s at %s" % (key, call.where()))
        if kind == "entry":
            _, _, r, k = a0
            m = st.load(r[1], r[2])
            i = [j for j, (kk, _) in enumerate(m[2]) if kk == k]
            if n in ("or_default", "or_insert", "or_insert_with", "and_modify"):
                if i:
                    if n == "and_modify":
                        return NotImplemented
                    return call.done(("ref", r[1], r[2] + (("mv", k),)))
                if n == "and_modify":
                    return call.done(a0)
                if n == "or_default":
                    v = models.default_of(call, self.prog.types[call.dty]["to"])
                elif n == "or_insert":
                    v = args[1]
                else:
                    return NotImplemented
                st.store(r[1], r[2], ("o", "map", tuple(m[2]) + ((k, v),)))
                return call.done(("ref", r[1], r[2] + (("mv", k),)))
        return NotImplemented

    def vector(self, call, n, a0):
        st, args = call.st, call.args
        es = a0[2]
        if n in ("sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key"):
            self.put(call, ("o", "list", self.order(st, es, call.where())))
            return call.done(UNIT)
        if n == "dedup":
            out = []
            for e in es:
                if not out or not value_eq(st, out[-1], e):
                    out.append(e)
            self.put(call, ("o", "list", tuple(out)))
            return call.done(UNIT)
        if n == "contains":
            return call.done(boolean(self.find(st, es, args[1]) is not None))
        if n == "reverse":
            self.put(call, ("o", "list", tuple(reversed(es))))
            return call.done(UNIT)
        if n == "insert" and len(args) == 3:
            i = strip(st, args[1])
            if i[0] == "i" and not i[2] and 0 <= i[1] <= len(es):
                self.put(call, ("o", "list", es[:i[1]] + (args[2],) + es[i[1]:]))
                return call.done(UNIT)
        if n in ("remove", "swap_remove") and len(args) == 2:
            i = strip(st, args[1])
            if i[0] == "i" and not i[2] and 0 <= i[1] < len(es):
                self.put(call, ("o", "list", es[:i[1]] + es[i[1] + 1:]))
                return call.done(es[i[1]])
        if n == "truncate":
            i = strip(st, args[1])
            if i[0] == "i" and not i[2]:
                self.put(call, ("o", "list", es[:i[1]]))
                return call.done(UNIT)
        if n == "drain":
            r = strip(st, args[1])
            if r[0] == "adt" and r[1].endswith("RangeFull"):
                self.put(call, ("o", "list", ()))
                return call.done(("o", "it", "list", es))
        if n in ("pop_back",):
            if not es:
                return call.done(none())
            self.put(call, ("o", "list", es[:-1]))
            return call.done(some(es[-1]))
        if n == "push_front":
            self.put(call, ("o", "list", (args[1],) + es))
            return call.done(UNIT)
        if n == "append":
            q = models.deref_place(st, args[1])
            if q is not None and q[2][0] == "o" and q[2][1] == "list":
                self.put(call, ("o", "list", es + q[2][2]))
                st.store(q[0], q[1], ("o", "list", ()))
                return call.done(UNIT)
        return NotImplemented

    def collect(self, call):
        st = call.st
        t = self.prog.types[call.dty]
        b = (t.get("path") or "").split("::")[-1]
        it = models.make_iter(call, call.args[0])
        if it[1] == "it" and it[2] == "list":
            es = it[3]
            if b in ("Vec", "VecDeque"):
                return call.done(("o", "list", es))
            if b in SETS:
                out = ()
                for e in es:
                    e = deep(st, e)
                    if self.find(st, out, e) is None:
                        out += (e,)
                return call.done(("o", "set", out))
            if b in MAPS:
                out = ()
                for e in es:
                    e = strip(st, e)
                    k, v = deep(st, e[1][0]), e[1][1]
                    i = self.find(st, out, k, lambda x: x[0])
                    out = out + ((k, v),) if i is None else out[:i] + ((out[i][0], v),) + out[i + 1:]
                return call.done(("o", "map", out))
            return NotImplemented
        if b in ("Vec", "VecDeque"):
            return models.drive(call, it, ("collect", ("o", "list", ())))
        return NotImplemented
