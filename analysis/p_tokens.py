"""C01/C02: the token stream builder keeps the import chain and collapses whitespace requests."""
import absint
from absint import *
import models

WS = ("Push", "Line", "Space", "Indentation")


class TokenFns:
    """The representation of a token stream."""

    def __init__(self, prog):
        self.prog = prog
        self.tokens = self.find_adt("Tokens")
        self.item = self.find_adt("Item")
        self.vi = {v["name"]: i for i, v in enumerate(self.item["variants"])}
        self.vn = {i: n for n, i in self.vi.items()}
        fs = [f["name"] for f in self.tokens["variants"][0]["fields"]]
        # the vector of items is the field of vector type, the chain head the integer
        self.ix_items = self.ix_last = None
        for t in prog.types:
            if t["k"] == "adt" and t.get("path") == self.tokens["path"] and t.get("vf") and t["vf"][0]:
                for i, ft in enumerate(t["vf"][0]):
                    k = prog.types[ft]
                    if k["k"] == "uint":
                        self.ix_last = i
                    elif k["k"] == "adt" and k["path"].endswith("::Vec"):
                        self.ix_items = i
                        self.items_ty = ft
                break
        if self.ix_items is None or self.ix_last is None or len(fs) != 2:
            raise Imprecise("unexpected representation of Tokens: %s" % fs)
        e = prog.types[self.items_ty]
        self.item_ty = e["args"][0]

    def find_adt(self, name):
        c = [a for p, a in self.prog.adts.items()
             if p.split("::")[-1] == name and a.get("local") and p.startswith("tokens::")]
        if len(c) != 1:
            raise Imprecise("type %s not found uniquely" % name)
        return c[0]

    def inherent(self, name):
        c = [r for r in self.prog.roots if r.has_body and r.name == name and r.trait is None and r.self_s
             and models.base(r.self_s) == "Tokens" and r.path.startswith("tokens::")]
        return c[0] if len(c) == 1 else None

    def accessors(self):
        """Every function of the crate whose body reaches into the fields of a Tokens."""
        out = []
        for r in self.prog.insts:
            if r is None or not r.has_body or not r.local:
                continue
            if self.touches(r):
                out.append(r)
        return out

    def touches(self, r):
        """'w' if it may write, 'r' if it only reads the representation"""
        mode = None
        for b in r.blocks:
            if b["cleanup"]:
                continue
            places = []
            for s in b["s"]:
                if s[0] == "=":
                    if self.is_field(r, s[1]):
                        return "w"
                    rv = s[2]
                    if rv[0] in ("ref", "reborrow", "raw") and self.is_field(r, rv[2]):
                        mode = "w" if rv[1] else (mode or "r")
                        if mode == "w":
                            return "w"
                    if rv[0] in ("use", "cast") or rv[0] == "agg" or rv[0] == "bin":
                        for o in flat_ops(rv):
                            if self.is_field(r, o[1]):
                                mode = mode or "r"
                    if rv[0] == "agg" and rv[1][0] == "adt" and self.prog.defs[rv[1][1]]["path"] == self.tokens["path"]:
                        return "w"
            t = b["t"]
            if t[0] == "call":
                for o in t[2]:
                    if o[0] in ("c", "m") and self.is_field(r, o[1]):
                        mode = mode or "r"
                if self.is_field(r, t[3]):
                    return "w"
        return mode

    def is_field(self, r, p):
        t = r.locals[p[0]]
        for e in p[1]:
            ty = self.prog.types[t] if t is not None else None
            if e == "*":
                t = ty.get("to") if ty and ty["k"] in ("ref", "ptr") else None
            elif isinstance(e, list) and e[0] == "f":
                if ty and ty["k"] == "adt" and ty.get("path") == self.tokens["path"]:
                    return True
                t = e[2]
            elif isinstance(e, list) and e[0] == "d":
                continue
            else:
                t = None
        return False


def flat_ops(rv):
    for x in rv[1:]:
        if isinstance(x, list):
            if x and x[0] in ("c", "m") and len(x) == 2 and isinstance(x[1], list):
                yield x
            elif x and isinstance(x[0], list):
                for y in x:
                    if isinstance(y, list) and y and y[0] in ("c", "m"):
                        yield y


FRESH_VEC = ("o", "vec", frozenset(), None, ())


class VecRun:
    """Runs a function on an arbitrary token stream; collects what happens to the stream per step
    (a step ends at a return, at the next element of an unknown iterator, or at an unknown callee that
    gets hold of the stream)."""

    def __init__(self, tf):
        self.tf = tf
        self.eng = Engine(tf.prog, intercepts=[self.intercept])
        self.eng.on_push = self.on_push
        self.eng.on_event = self.on_event
        self.eng.on_drop = self.on_drop
        self.eng.elem_ty = tf.item_ty
        self.bad = []
        self.steps = []
        self.outs = []

    T = ("T",)

    def fresh(self, st):
        fs = [None, None]
        fs[self.tf.ix_items] = FRESH_VEC
        self.eng.uint.add("last0")
        fs[self.tf.ix_last] = ("i", 0, (("last0", 1),))
        st.mem[self.T] = ("adt", self.tf.tokens["path"], 0, tuple(fs))
        st.ghost["sum"] = num(0)
        st.ghost["head"] = ("i", 0, (("last0", 1),))

    def vec(self, st):
        return st.mem[self.T][3][self.tf.ix_items]

    def last(self, st):
        return self.eng.as_int(st, strip(st, st.mem[self.T][3][self.tf.ix_last]), None)

    def kinds(self, st, v):
        v = strip(st, v)
        if v[0] == "adt":
            return frozenset([self.tf.vn[v[2]]])
        if v[0] == "sym":
            return frozenset(self.tf.vn[i] for i in st.variants(v[1], len(self.tf.vn)))
        return frozenset(["?"])

    def on_drop(self, st, name, vs):
        st.renew("dropped")
        ind = self.tf.vi["Indentation"]
        if vs == frozenset([ind]):
            # everything dropped so far becomes one unknown, here and wherever the code keeps the same total
            st.renew("acc")
            total = aff_add(st.ghost["sum"], ("i", 0, ((fname(name, ind, 0), 1),)))
            acc = ("i", 0, (("acc", 1),))
            for c in list(st.mem):
                st.mem[c] = rebase(st.mem[c], total, acc)
            st.ghost["sum"] = acc

    def on_push(self, call, o, v):
        st = call.st
        if T_of(call) != self.T:
            return NotImplemented
        if not (o[0] == "o" and o[1] == "vec"):
            raise Imprecise("the vector of items is %r" % (o,))
        v = strip(st, v)
        top = o[3]
        if not o[4] and top not in (None, "empty") and top[0] == "pop" and v == ("sym", top[1]):
            return NotImplemented
        ks = self.kinds(st, v)
        where = "%s in %r" % (call.where(), st.frames[-1].inst)
        if ks & {"Lang", "Register"}:
            if v[0] != "adt":
                self.bad.append(("an import is stored without being linked to the previous one", where, "link"))
            else:
                # the head may be updated before or after the import is stored
                prev = self.eng.as_int(st, strip(st, v[3][0]), None)
                if prev != st.ghost["head"]:
                    self.bad.append(("the import does not link to the one before it", where, "link"))
            st.ghost["head"] = aff_add(models.vec_len(self.eng, o), num(1))
        return NotImplemented

    def on_event(self, call, ev):
        if ev[0] == "iter_next":
            self.end_step(call.st, "next element of %r" % (ev[1],), call.where())
            self.fresh(call.st)
        if ev[0] == "reserve":
            self.steps.append(("reserve", ev[2]))

    def intercept(self, call):
        # a callee that is unknown here receives the stream
        st = call.st
        if call.inst is not None and call.inst.has_body and call.inst.local:
            return NotImplemented
        if not call.d["local"]:
            return NotImplemented
        for a in call.args:
            if a[0] == "ref" and a[1] == self.T and not a[2]:
                self.end_step(st, "call of %s" % call.key, call.where())
                self.fresh(st)
                return call.done(UNIT)
        return NotImplemented

    def end_step(self, st, why, where):
        v = self.vec(st)
        _, _, dropped, top, suf = v
        if top not in (None, "empty") and top[0] == "pop":
            dropped, top = models.drop_pop(st, dropped, top)
        dk = frozenset(self.tf.vn.get(i, "?") if i != "?" else "?" for i in dropped)
        if dk - set(WS):
            self.bad.append(("drops items that are not whitespace requests: %s" % ", ".join(sorted(dk - set(WS))), where, "drop"))
        li = [i for i, x in enumerate(suf) if self.kinds(st, x) & {"Lang", "Register"}]
        last = self.last(st)
        if li:
            want = models.vec_len(self.eng, ("o", "vec", dropped, top, suf[:li[-1] + 1]))
            if last != want:
                self.bad.append(("the head of the import chain is %s after appending an import as element %s" % (fmt_aff(last), fmt_aff(want)), where, "head"))
        elif last != ("i", 0, (("last0", 1),)):
            self.bad.append(("the head of the import chain changes to %s without an import being appended" % fmt_aff(last), where, "head"))
        tk = None if top is None else (frozenset() if top == "empty" else frozenset(self.tf.vn[i] for i in st.variants(top[1], len(self.tf.vn))))
        self.steps.append(("step", dk, tk, tuple((self.kinds(st, x), strip(st, x)) for x in suf), st.ghost.get("sum"), why, where, dict(st.facts), st.cons))

    def lost(self, st):
        """kinds of imports that have been taken off the stream for good where the analysis had to stop"""
        if st is None or self.T not in st.mem:
            return frozenset()
        v = self.vec(st)
        if v[0] != "o" or v[1] != "vec" or "?" in v[2]:
            return frozenset()
        return frozenset(self.tf.vn[i] for i in v[2]) & {"Lang", "Register"}

    def run(self, inst, args, facts=()):
        st = St(self.eng)
        self.fresh(st)
        for k, v in facts:
            st.facts[k] = v
        a = []
        for x in args:
            a.append(("ref", self.T, ()) if x == "T" else x)
        outs = self.eng.run(inst, a, st)
        for o in outs:
            if o.kind == "ret" and self.T in o.st.mem:
                self.end_step(o.st, "return", inst.span())
            elif o.kind == "panic":
                self.bad.append(("can panic: %s" % (o.info,), str(o.info[1]), "panic"))
        self.outs = outs
        return self


def rebase(v, total, acc):
    """replaces the part `total` of every integer by `acc`"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "i" and isinstance(v[2], tuple):
            d = dict(v[2])
            if total[2] and all(d.get(s) == k for s, k in total[2]):
                return aff_add(aff_add(v, total, -1), acc)
            return v
        if v and v[0] in ("gen", "sym"):
            return v
        return tuple(rebase(x, total, acc) for x in v)
    return v


def T_of(call):
    a = call.args[0]
    n = 0
    while a[0] == "ref" and n < 10:
        if a[1] == ("T",):
            return a[1]
        a = call.st.load(a[1], a[2])
        n += 1
    return None


def fmt_aff(a):
    t = " + ".join("%s%s" % ("" if k == 1 else "%d*" % k, s if isinstance(s, str) else s[0]) for s, k in a[2])
    return "%s%s" % (t, (" %+d" % a[1]) if a[1] or not t else "")


def ref_params(prog, r, want_mut=True):
    """positions of the parameters of type &mut Tokens"""
    out = []
    for i in range(1, r.argc + 1):
        t = prog.types[r.locals[i]]
        if t["k"] == "ref" and (t["mut"] or not want_mut):
            to = prog.types[t["to"]]
            if to["k"] == "adt" and to["path"].endswith("tokens::Tokens"):
                out.append(i)
    return out


def generic_args(prog, eng, r, tpos=()):
    args = []
    for i in range(1, r.argc + 1):
        if i in tpos:
            args.append("T")
        else:
            n = ("arg", i)
            eng.sym_ty[n] = r.locals[i]
            t = prog.types[r.locals[i]]
            if t["k"] in ("int", "uint"):
                if t["k"] == "uint":
                    eng.uint.add(n)
                args.append(("i", 0, ((n, 1),)))
            else:
                args.append(("sym", n))
    return args


# ---------------------------------------------------------------- C01
def check_chain(progs, rep):
    prog = progs["genco"]
    tf = TokenFns(prog)
    acc = tf.accessors()
    covered = set()
    todo = []
    for r in acc:
        mode = tf.touches(r)
        if mode == "w" and ref_params(prog, r):
            todo.append(r)
    # the public functions first, then whatever they did not reach
    names = [("inherent", n) for n in ("space", "push", "line", "indent", "unindent", "append", "extend", "register")]
    run_list = []
    for _, n in names:
        r = tf.inherent(n)
        if r is not None:
            run_list.append(r)
    for r in prog.roots:
        if r.has_body and r.trait and r.trait.endswith("FormatInto") and r.name == "format_into":
            run_list.append(r)
    done = set()
    # what only the crate itself can call is judged where it is called, if all of these calls are followed
    private = {prog.defs[x["def"]]["path"] for x in prog.j["items"] if not x["pub"] and x["kind"] in ("Fn", "AssocFn")}
    todo.sort(key=lambda r: r.path in private)
    for r in run_list + todo:
        if r.ix in done or (r in todo and r.ix in covered):
            continue
        done.add(r.ix)
        ctx = r in todo and r.path in private and in_context(prog, r, covered)
        n = len(rep.obls)
        one_chain(prog, tf, rep, r, covered)
        if ctx and not all(o[2] for o in rep.obls[n:]):
            del rep.obls[n:]
            covered.add(r.ix)
            rep.count("private helpers followed in the functions that call them")
    # construction and other representation access
    for r in acc:
        if r.ix in covered:
            continue
        construct(prog, tf, rep, r)
    check_walk(prog, tf, rep)
    # a stream is only reachable through its fields from within the crate
    for f in tf.tokens["variants"][0]["fields"]:
        rep.ob("representation is private", "Tokens.%s" % f["name"], not f["pub"], "the field is public", "pub|%s" % f["name"])


def in_context(prog, r, covered):
    paths = {prog.insts[i].path for i in covered}
    if r.path not in paths:
        return False
    for i in prog.insts:
        if i is None or not i.has_body or not i.local or i.path == r.path:
            continue
        for b in i.blocks:
            t = b["t"]
            ops = [t[1]] + t[2] if t[0] == "call" else []
            if any(o[0] == "k" and "fn" in o[1].get("v", {}) and prog.defs[o[1]["v"]["fn"]]["path"] == r.path for o in ops) and i.path not in paths:
                return False
    return True


def variants_of_args(prog, tf, r, args):
    """split on the kind of an item that is passed by value"""
    res = []
    for i, a in enumerate(args):
        t = prog.types[r.locals[i + 1]]
        if t["k"] == "adt" and t.get("path") == tf.item["path"]:
            for vi in sorted(tf.vn):
                res.append([((("v", a[1])), frozenset([vi]))])
            return res
    return [[]]


def one_chain(prog, tf, rep, r, covered):
    where = "%r (%s)" % (r, r.span())
    import os, time
    if os.environ.get("DBG"): print(time.time(), where, flush=True)
    probe = VecRun(tf)
    args = generic_args(prog, probe.eng, r, ref_params(prog, r))
    if "T" not in args:
        return
    for facts in variants_of_args(prog, tf, r, args):
        v = VecRun(tf)
        args = generic_args(prog, v.eng, r, ref_params(prog, r))
        try:
            v.run(r, args, facts)
        except Imprecise as e:
            lost = v.lost(getattr(e, "st", None))
            if lost:
                rep.ob("imports keep their position", where, False, "takes items that may be imports off the stream and goes on: %s, at %s" % (
                    ", ".join(sorted(lost)), e.st.frames[-1].inst.span() if e.st.frames else r.span()), "drop|%s" % r.path)
            rep.ob("stream operation followable", where, False, str(e), "imprecise|%s" % r.path)
            return
        covered |= v.eng.visited_insts
        rep.count("states", v.eng.nstates)
        rep.count("steps", len(v.steps))
        for rule in ("link", "head", "drop"):
            b = [x for x in v.bad if x[2] == rule]
            rep.ob({"link": "imports are linked", "head": "chain head tracks the last import",
                    "drop": "only whitespace is dropped"}[rule], where, not b, "; ".join("%s at %s" % x[:2] for x in b[:3]), "%s|%s" % (rule, r.path))


def construct(prog, tf, rep, r):
    """Functions that build or read a stream without mutating one that was passed in."""
    where = "%r (%s)" % (r, r.span())
    mode = tf.touches(r)
    if mode == "r":
        rep.count("read-only functions")
        return
    v = VecRun(tf)
    args = generic_args(prog, v.eng, r)
    # locally built streams are concrete lists: run and look at the result
    v.eng.on_push = None
    try:
        outs = v.eng.run(r, [a for a in args])
    except Imprecise as e:
        v = ListRun(tf)
        try:
            v.run(r)
            rep.ob("constructed streams are consistent", where, not v.bad, "; ".join(v.bad[:3]), "construct|%s" % r.path)
        except Imprecise as e2:
            rep.ob("stream operation followable", where, False, str(e2), "imprecise|%s" % r.path)
        return
    bad = []
    for o in outs:
        if o.kind == "ret" and o.val[0] == "adt" and o.val[1] == tf.tokens["path"]:
            items, last = strip(o.st, o.val[3][tf.ix_items]), strip(o.st, o.val[3][tf.ix_last])
            if items == ("o", "list", ()) and last == num(0):
                continue
            if isinstance(items, tuple) and items[0] == "sym" and last[0] in ("sym", "i"):
                # copied field by field from one existing stream
                src = {root(x[1]) if x[0] == "sym" else root(x[2][0][0]) for x in (items, last) if x[0] == "sym" or x[2]}
                if len(src) == 1 or (is_copy(items, "clone") and is_copy(last, "clone")):
                    continue
            bad.append("returns a stream with items %r and chain head %r" % (items, last))
    rep.ob("constructed streams are consistent", where, not bad, "; ".join(bad[:3]), "construct|%s" % r.path)


def is_copy(v, n):
    return v[0] == "sym" and n in repr(v) or v[0] == "i"


class ListRun(VecRun):
    """A stream built from scratch: the built stream is tracked in the T cell."""

    def run(self, inst):
        raise Imprecise("not followable")


def check_walk(prog, tf, rep):
    """Walking: visits the item at the current position and moves to its predecessor."""
    ws = [r for r in prog.roots if r.has_body and r.name == "walk_imports" and r.self_s and models.base(r.self_s) == "Tokens"]
    nx = [r for r in prog.roots if r.has_body and r.name == "next" and r.self_s and models.base(r.self_s) == "WalkImports"]
    rep.ob("anchored", "walk_imports", len(ws) == 1 and len(nx) == 1, "the import walk was not found", "imprecise|anchor|walk")
    if len(ws) != 1 or len(nx) != 1:
        return
    walk(prog, tf, rep, ws[0], nx[0])


def walk(prog, tf, rep, w, n):
    eng = Engine(prog)
    st = St(eng)
    fs = [None, None]
    fs[tf.ix_items] = sym("items")
    fs[tf.ix_last] = ("i", 0, (("last0", 1),))
    eng.uint.add("last0")
    st.mem[("T",)] = ("adt", tf.tokens["path"], 0, tuple(fs))
    eng.elem_ty = tf.item_ty
    try:
        outs = eng.run(w, [("ref", ("T",), ())], st)
        outs = [o for o in outs if o.kind == "ret"]
        o = outs[0]
        it = deep(o.st, o.val)
        ints = [i for i, x in enumerate(it[3]) if x[0] == "i"]
        okk = len(outs) == 1 and it[0] == "adt" and len(ints) == 1 and it[3][ints[0]] == ("i", 0, (("last0", 1),)) and \
            sym("items") in it[3]
        rep.ob("walk starts at the chain head", "%r (%s)" % (w, w.span()), okk, "starts with %r" % (it,), "walkstart")
        if not okk:
            return
        ip = ints[0]
        ii = [i for i, x in enumerate(it[3]) if x == sym("items")][0]
        # one step from an arbitrary position
        eng = Engine(prog)
        eng.elem_ty = tf.item_ty
        st = St(eng)
        fs = [None, None]
        fs[ip] = ("i", 0, (("pos", 1),))
        fs[ii] = sym("items")
        eng.uint.add("pos")
        eng.pinned = {"pos", "items"}
        st.mem[("W",)] = ("adt", it[1], 0, tuple(fs))
        outs = eng.run(n, [("ref", ("W",), ())], st)
    except Imprecise as e:
        rep.ob("walk followable", "%r" % n, False, str(e), "imprecise|walk")
        return
    bad = []
    seen = {"end": 0, "Lang": 0, "Register": 0}
    pos = ("i", 0, (("pos", 1),))
    elem = None
    for o in outs:
        s = o.st
        if o.kind == "panic":
            bad.append("can panic: %s" % (o.info,))
            continue
        v = o.val
        newpos = s.mem[("W",)][3][ip]
        if v[0] == "adt" and v[2] == 0:
            # end: position 0, or outside the vector, or a non-import (both excluded by the chain invariant)
            if s.decide("eq0", pos) is True:
                seen["end"] += 1
                continue
            nm = ("f", "items", "idx", aff_add(pos, num(-1)))
            vs = s.get_fact("v", nm)
            beyond = s.decide("ge0", aff_add(aff_add(eng.length(s, sym("items")), pos, -1), num(0)))
            if beyond is False:
                continue
            if vs is not None and not (vs & {tf.vi["Lang"], tf.vi["Register"]}):
                continue
            bad.append("ends although the current position holds an import")
            continue
        nm = ("f", "items", "idx", aff_add(pos, num(-1)))
        x = deep(s, v[3][0])
        vs = s.get_fact("v", nm)
        if vs is None or len(vs) != 1:
            bad.append("yields something without knowing the kind of item at the position: %r" % (x,))
            continue
        vi = next(iter(vs))
        if tf.vn[vi] not in ("Lang", "Register"):
            bad.append("yields something for an item that is no import")
            continue
        if s.decide("eq0", pos) is not False:
            bad.append("steps although the position is the end marker")
        if root(x[1]) != root(fname(nm, vi, 1)) or not within(x, fname(nm, vi, 1)):
            bad.append("yields %r instead of the import at the position" % (x,))
        np = self_int(eng, s, newpos)
        if np != ("i", 0, ((fname(nm, vi, 0), 1),)):
            bad.append("continues at %r instead of the predecessor recorded with the import" % (newpos,))
        seen[tf.vn[vi]] += 1
    rep.ob("walk visits each linked import and then its predecessor", "%r (%s)" % (n, n.span()), not bad, "; ".join(bad[:4]), "walkstep")
    for k in sorted(seen):
        rep.ob("walk handles %s" % k, "%r (%s)" % (n, n.span()), seen[k] > 0, "no path for it", "walk|%s" % k)


def within(x, nm):
    return x[0] == "sym" and (x[1] == nm or repr(nm) in repr(x[1]))


def self_int(eng, s, v):
    return eng.as_int(s, strip(s, v), None)


# ---------------------------------------------------------------- C02
ABSORB = {
    "Space": {"Space"},
    "Push": {"Push", "Space"},
    "Line": {"Line", "Push"},
    "Indentation": {"Push", "Space", "Line", "Indentation"},
}
MAY_DROP = {
    "Space": set(),
    "Push": {"Push", "Space"},
    "Line": {"Line", "Push", "Space"},
    "Indentation": {"Push", "Space", "Line", "Indentation"},
}


def judge_ws(tf, kind, step, n, eng):
    """the effect of one whitespace request; n: requested change of indentation"""
    _, dropped, top, suf, total, why, where, facts = step[:8]
    if dropped - MAY_DROP[kind]:
        return "drops a pending %s" % ", ".join(sorted(dropped - MAY_DROP[kind]))
    if kind == "Space" and dropped:
        return "drops something"
    if suf == ():
        if kind == "Space":
            return None if top == {"Space"} else "leaves no space request behind (last: %s)" % fmt_kinds(top)
        if kind == "Push":
            return None if top == {"Line"} else "leaves no line break request behind (last: %s)" % fmt_kinds(top)
        if kind == "Line":
            return "leaves no blank line request behind"
        # net indentation zero
        v = aff_add(n, total)
        st = St(eng)
        if not v[2] and v[1] == 0:
            pass
        elif not known_zero(v, step):
            return "drops a change of indentation by %s" % fmt_aff(v)
        if top is None or top & ABSORB[kind]:
            return "may leave whitespace requests next to each other (last: %s)" % fmt_kinds(top)
        return None
    if len(suf) != 1 or suf[0][0] != {kind}:
        return "appends %s" % ", ".join("/".join(sorted(k)) for k, _ in suf)
    if kind == "Space":
        if top is None or "Space" in top:
            return "may put a second space request next to another (last: %s)" % fmt_kinds(top)
    elif kind == "Push":
        if top is None or top & {"Push", "Space", "Line"}:
            return "may put a line break request next to %s" % fmt_kinds(top)
    elif kind == "Line":
        if top is None or top & {"Push", "Line"}:
            return "may put a blank line request next to %s" % fmt_kinds(top)
    else:
        if top is None or top & ABSORB[kind]:
            return "may put a change of indentation next to %s" % fmt_kinds(top)
        v = suf[0][1]
        if v[0] != "adt":
            got = ("i", 0, ((fname(v[1], tf.vi["Indentation"], 0), 1),))
        else:
            got = v[3][0]
            if got[0] == "sym":
                got = ("i", 0, ((got[1], 1),))
        if got[0] != "i" or aff_add(got, aff_add(n, total), -1) != num(0):
            return "changes the indentation by %s instead of %s" % (fmt_aff(got) if got[0] == "i" else got, fmt_aff(aff_add(n, total)))
    return None


def known_zero(v, step):
    z = step[8] if len(step) > 8 else frozenset()
    return ("eq0", v) in z or ("eq0", aff_mul(v, -1)) in z


def fmt_kinds(k):
    return "anything" if k is None else ("nothing" if not k else "/".join(sorted(k)))


def check_ws(progs, rep):
    prog = progs["genco"]
    tf = TokenFns(prog)
    ops = [("space", "Space", num(0)), ("push", "Push", num(0)), ("line", "Line", num(0)), ("indent", "Indentation", num(1)),
           ("unindent", "Indentation", num(-1))]
    for name, kind, n in ops:
        r = tf.inherent(name)
        rep.ob("anchored", "Tokens::%s" % name, r is not None, "not found", "imprecise|anchor|%s" % name)
        if r is None:
            continue
        one_ws(prog, tf, rep, r, kind, n, ["T"], [], "request %s()" % name)
    # requests that arrive as items
    fi = [r for r in prog.roots if r.has_body and r.name == "format_into" and r.self_s and models.base(r.self_s) == "Item"
          and r.trait and r.trait.endswith("FormatInto")]
    rep.ob("anchored", "Item::format_into", len(fi) == 1, "not found", "imprecise|anchor|item")
    targets = [(r, ["it", "T"]) for r in fi]
    for r, _ in targets:
        for k in WS:
            n = ("i", 0, ((fname("it", tf.vi["Indentation"], 0), 1),))
            one_ws(prog, tf, rep, r, k, n, [sym("it"), "T"], [(("v", "it"), frozenset([tf.vi[k]]))], "appended item %s" % k)
        for k in tf.vi:
            if k not in WS:
                one_content(prog, tf, rep, r, k)


def one_ws(prog, tf, rep, r, kind, n, args, facts, what):
    v = VecRun(tf)
    v.eng.pinned = {"it"}
    where = "%s: %r (%s)" % (what, r, r.span())
    v.eng.sym_ty["it"] = tf.item_ty
    try:
        v.run(r, args, facts)
    except Imprecise as e:
        rep.ob("followable", where, False, str(e), "imprecise|%s" % what)
        return
    steps = [s for s in v.steps if s[0] == "step"]
    bad = [b for b in (judge_ws(tf, kind, s, n, v.eng) for s in steps) if b]
    rep.count("outcomes", len(steps))
    rep.ob("whitespace requests collapse", where, steps and not bad, "; ".join(sorted(set(bad))[:4]) or "no outcome", "ws|%s" % what)
    other = [b for b in v.bad]
    rep.ob("nothing else changes", where, not other, "; ".join("%s at %s" % b[:2] for b in other[:3]), "other|%s" % what)


def one_content(prog, tf, rep, r, k):
    v = VecRun(tf)
    v.eng.sym_ty["it"] = tf.item_ty
    what = "appended item %s" % k
    where = "%s: %r (%s)" % (what, r, r.span())
    try:
        v.run(r, [sym("it"), "T"], [(("v", "it"), frozenset([tf.vi[k]]))])
    except Imprecise as e:
        rep.ob("followable", where, False, str(e), "imprecise|%s" % what)
        return
    steps = [s for s in v.steps if s[0] == "step"]
    bad = []
    for s in steps:
        _, dropped, top, suf, total, why, wh, facts = s[:8]
        if dropped:
            bad.append("drops %s" % ", ".join(sorted(dropped)))
        if len(suf) != 1 or suf[0][0] != {k}:
            bad.append("appends %s" % (", ".join("/".join(sorted(x)) for x, _ in suf) or "nothing"))
            continue
        x = suf[0][1]
        if x == sym("it"):
            continue
        if x[0] != "adt":
            bad.append("appends something else")
            continue
        for i, f in enumerate(x[3]):
            if k in ("Lang", "Register") and i == 0:
                continue
            if not (f[0] == "sym" and f[1] == fname("it", tf.vi[k], i)):
                bad.append("changes field %d of the item: %r" % (i, f))
    rep.count("outcomes", len(steps))
    rep.ob("content is appended as it is", where, steps and not bad and not v.bad,
           "; ".join(sorted(set(bad + ["%s at %s" % b[:2] for b in v.bad]))[:4]) or "no outcome", "content|%s" % k)


if __name__ == "__main__":
    import sys, mir
    from report import Report
    progs = mir.load()
    rep = Report("C01", "quick")
    globals()[sys.argv[1]](progs, rep)
    for o in rep.obls:
        print(o[2], o[0], "|", o[1][:110], "|", o[3][:300] if not o[2] else "")
    print(rep.counts)
