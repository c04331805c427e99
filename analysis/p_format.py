"""C04/C08: how a stream of items is turned into text."""
import models
from absint import *
from p_tokens import TokenFns, fmt_aff, rebase


def mentions(v, x):
    return v == x or isinstance(v, tuple) and any(mentions(y, x) for y in v)

IT = ("it", 0)
W = ("W",)
SP_SETS = {" ": "sp", "\t": "tab"}


class FormatRun:
    """Explores the formatting of an arbitrary list of items from a fresh formatter.

    A step begins when an item is taken from the list and ends when the next one is taken (or at the end)."""

    def __init__(self, tf, mode):
        self.tf, self.mode = tf, mode
        self.prog = tf.prog
        self.bad = {}
        self.nsteps = 0
        self.kinds_seen = {}
        self.recs = set()
        eng = self.eng = Engine(tf.prog, intercepts=[self.intercept], max_states=200000)
        eng.feed_next, eng.feed_peek, eng.feed_iter = self.feed_next, self.feed_peek, self.feed_iter
        eng.stk_save, eng.stk_restore, eng.stk_bottom, eng.stk_empty = self.stk_save, self.stk_restore, self.stk_bottom, self.stk_empty
        eng.on_write = self.on_write
        eng.pinned = {"cfg", "lc", "lf", IT, ("it", 1), ("it", 2), ("it", 3)}
        eng.uint.add("sp")

    # ------------------------------------------------------------ set up
    def complain(self, key, text, where):
        self.bad.setdefault(key, "%s at %s" % (text, where))
        # enough to report: do not explore what follows from it for long
        self.eng.halt_at = min(self.eng.halt_at, self.eng.nstates + 2000)

    def start(self):
        prog, eng, tf = self.prog, self.eng, self.tf
        mk = [r for r in prog.roots if r.has_body and r.name == "as_formatter" and r.self_s and models.base(r.self_s) == "FmtWriter"]
        fm = [r for r in prog.roots if r.has_body and r.name == "format" and r.self_s and models.base(r.self_s) == "Tokens" and r.trait is None]
        if len(mk) != 1 or len(fm) != 1:
            raise Imprecise("as_formatter / Tokens::format not found")
        outs = [o for o in eng.run(mk[0], [sym(W), sym("cfg")]) if o.kind == "ret"]
        if len(outs) != 1:
            raise Imprecise("as_formatter is not straight-line")
        st = St(eng)
        st.mem[("F",)] = deep(outs[0].st, outs[0].val)
        fs = [None, None]
        fs[tf.ix_items] = ("o", "feed")
        fs[tf.ix_last] = num(0)
        st.mem[("T",)] = ("adt", tf.tokens["path"], 0, tuple(fs))
        self.reset(st)
        st.ghost["fr"] = st.ghost["fr0"] = ("fr", True, False, ("b", False), False)
        st.ghost["pe"] = ("pe", 0, False)
        return st, fm[0]

    def reset(self, st):
        g = st.ghost
        g["pend"] = ("pend", 0)       # 0: start of output, then: None / 1 / 2 line ends
        g["sp"], g["lvl"] = num(0), num(0)
        g["lines"], g["wsp"], g["wtab"] = num(0), num(0), num(0)
        g["step"] = ("none",)
        g["evs"] = ()

    def run(self, nested=None):
        """`nested`: (function, its arguments) of a nested string instead of a whole token stream"""
        st, fm = self.start()
        self.nested = nested is not None
        a = [("ref", ("T",), ()), ("ref", ("F",), ()), sym("lc"), sym("lf")]
        if nested is not None:
            fm, spec = nested
            a = []
            for i, x in enumerate(spec):
                if x == "F":
                    a.append(("ref", ("F",), ()))
                elif x[0] in ("adt", "o"):
                    st.mem[("A", i)] = x
                    a.append(("ref", ("A", i), ()))
                else:
                    a.append(x)
        self.outs = self.eng.run(fm, a, st)
        return self.finish_run()

    def finish_run(self):
        n = {"ok": 0, "err": 0}
        for o in self.outs:
            if o.kind == "panic":
                self.complain("panic|%s" % (o.info[0],), "can panic: %s in %s" % (o.info[0], o.info[2]), o.info[1])
                continue
            if o.kind != "ret":
                continue
            v = o.val
            vs = None
            if v[0] == "adt":
                isok = v[2] == 0
            elif v[0] == "sym":
                isok = o.st.variants(v[1], 2) == frozenset([0])
            else:
                isok = True
            n["ok" if isok else "err"] += 1
            self.end_step(o.st, "return", "ok" if isok else "err")
        return n

    # ------------------------------------------------------------ the list of items
    def shift(self, st):
        if self.mode == "ws":
            self.shift_ws(st)
        st.renew(IT)
        for j in (1, 2, 3):
            a, b = ("it", j), ("it", j - 1)
            for c in list(st.mem):
                st.mem[c] = subst(st.mem[c], a, b)
            for g in list(st.ghost):
                st.ghost[g] = subst(st.ghost[g], a, b)
            st.facts = {(k, subst(n, a, b)): v for (k, n), v in st.facts.items()}
            st.cons = frozenset(subst(c, a, b) for c in st.cons)
            self.eng.sym_ty[("it", j)] = self.eng.sym_ty[b] = self.tf.item_ty
            x, y = ("has", j), ("has", j - 1)
            st.facts.pop(("b", y), None)
            if ("b", x) in st.facts:
                st.facts[("b", y)] = st.facts.pop(("b", x))
        st.facts.pop(("b", ("has", 0)), None)

    def shift_ws(self, st):
        st.renew("lvl")
        lv = st.ghost["lvl"]
        if lv[2]:
            new = ("i", 0, (("lvl", 1),))
            for c in list(st.mem):
                st.mem[c] = rebase(st.mem[c], lv, new)
            st.cons = frozenset((op, rebase(a, lv, new)) for op, a in st.cons)
            st.ghost["lvl"] = new
        sp = st.ghost["sp"]
        if sp != num(0):
            st.renew("sp")
            sp = st.ghost["sp"]
            new = ("i", 0, (("sp", 1),))
            if sp[2]:
                for c in list(st.mem):
                    st.mem[c] = rebase(st.mem[c], sp, new)
            else:
                f = st.mem[("F",)]
                st.mem[("F",)] = f[:3] + (tuple(new if x == sp else x for x in f[3]),) + f[4:]
            st.ghost["sp"] = new
        # what earlier items taught about the numbers does not matter any more
        st.cons = frozenset(c for c in st.cons if not any(s in ("lvl", "sp") or (isinstance(s, tuple) and s[0] == "mul") for s, _ in c[1][2]))
        for k in [k for k in st.facts if root(k[1]) == "cfg"]:
            del st.facts[k]

    def more(self, st, j):
        return st.get_fact("b", ("has", j))

    def set_more(self, s, j, v):
        s.set_fact("b", ("has", j), v)
        if v:
            for i in range(1, j):
                s.set_fact("b", ("has", i), True)

    def take(self, call, value):
        def some_(s):
            self.set_more(s, 1, True)
            self.end_step(s, "next", None)
            self.shift(s)
            s.ghost["step"] = ("item",)
        def none_(s):
            self.set_more(s, 1, False)
            self.end_step(s, "next", None)
            s.ghost["step"] = ("end",)
        m = self.more(call.st, 1)
        alts = []
        if m is not False:
            alts.append((some_, value))
        if m is not True:
            alts.append((none_, none()))
        return call.each(alts)

    def feed_next(self, call, o):
        return self.take(call, some(("tup", (sym(IT), ("rv", ("o", "feed"))))))

    def feed_iter(self, call, ref, it):
        return self.take(call, some(sym(IT)))

    def feed_peek(self, call, o, i):
        if i[2] or i[1] > 2:
            raise Imprecise("peek far ahead")
        j = i[1] + 1
        m = self.more(call.st, j)
        if m is None and any(self.more(call.st, k) is False for k in range(1, j)):
            m = False
        alts = []
        if m is not False:
            alts.append((lambda s: self.set_more(s, j, True), some(sym("it", j))))
        if m is not True:
            alts.append((lambda s: self.set_more(s, j, False), none()))
        return call.each(alts)

    # ------------------------------------------------------------ frames
    def stk_save(self, st, top):
        if self.mode == "ws":
            return sym("frame")        # whitespace does not depend on what is open
        r = ("sv", deep(st, top), st.ghost["fr"])
        st.ghost["fr"] = ("fr", False, False, ("b", False), True)
        st.ghost["evs"] += (("enter",),)
        return r

    def stk_restore(self, st, r):
        if self.mode == "ws":
            st.renew("frame")
            return sym("frame")
        st.ghost["fr"] = r[2]
        st.ghost["evs"] += (("leave",),)
        return r[1]

    def stk_bottom(self, st, top):
        return st.ghost["fr"][1]

    def stk_empty(self, st):
        st.ghost["evs"] += (("empty",),)

    # ------------------------------------------------------------ calls
    def tgt(self, st, v):
        n = 0
        while v[0] in ("ref", "rv") and n < 10:
            if v[0] == "ref" and v[1] == ("F",) and not v[2]:
                return "F"
            v = v[1] if v[0] == "rv" else st.load(v[1], v[2])
            n += 1
        return v

    def intercept(self, call):
        st, d = call.st, call.d
        tr = (d["trait"] or "").split("::")[-1]
        if d["name"] in ("new", "with_capacity") and models.norm(call.key).split("::")[0] in ("SmallVec", "Vec"):
            return call.done(("o", "stk", frozenset(), None))
        if self.mode == "q" and call.inst is not None and call.inst.local and d["name"] == "write_str" and len(call.args) == 2:
            ty = prog_self(call.inst)
            if ty == "Formatter":
                v = deep(st, call.args[1])
                if self.tgt(st, call.args[0]) == "F":
                    self.content(st, v, call.where())
                    return call.done(ok())
        if tr == "Write" and call.args:
            t = self.tgt(st, call.args[0])
            if t == sym(W):
                return self.dyn_write(call)
            if t != "F" and t[0] == "o" and t[1] == "str" and (call.inst is None or not call.inst.has_body):
                if d["name"] not in ("write_str", "write_char"):
                    return NotImplemented
                models.str_append(call, deep(st, call.args[1]), 0)
                return call.done(ok())
            if t != "F" and t[0] == "adt" and (call.inst is None or not call.inst.has_body):
                inst = models.find_method(self.eng, t[1], d["name"], "Write")
                if inst is not None:
                    self.eng.push_frame(st, inst, call.args, call.dest, call.ret, call.cont)
                    return None
                if d["name"] == "write_fmt":
                    return NotImplemented
        if d["local"] and tr in ("Lang", "LangItem") and (call.inst is None or not call.inst.has_body or call.inst.trait):
            return self.callback(call, tr)
        if call.inst is not None and call.inst.local and call.inst.has_body and any(f.inst is call.inst for f in st.frames):
            return self.recursion(call)
        return NotImplemented

    def on_write(self, eng, st, target, v, dest, ret, cont, site, tb):
        t = self.tgt(st, target)
        if t == sym(W):
            self.written(st, v, "%s:%s" % tuple(site) if site else "?")
            return eng.deliver(st, ok(), dest, ret, cont)
        if t != "F" and t[0] == "adt":
            inst = models.find_method(eng, t[1], "write_str", "Write")
            if inst is not None:
                eng.push_frame(st, inst, [target, v], dest, ret, cont)
                return None
        return NotImplemented

    def dyn_write(self, call):
        st, n = call.st, call.d["name"]
        g = st.ghost
        where = call.where()
        if n == "write_line":
            if self.mode == "ws":
                if deep(st, call.args[1]) != sym("cfg"):
                    self.complain("line-config", "a line end is written with another configuration", where)
                if g["wsp"] != num(0) or g["wtab"] != num(0):
                    self.complain("order", "a line end is written after spaces or indentation", where)
                g["lines"] = aff_add(g["lines"], num(1))
            return call.done(ok())
        if n == "write_str":
            self.written(st, deep(st, call.args[1]), where)
            return call.done(ok())
        if n == "write_char":
            c = strip(st, call.args[1])
            self.written(st, ("s", chr(c[1])) if c[0] == "ch" else ("str1", c), where)
            return call.done(ok())
        raise Imprecise("%s on the destination" % n)

    def written(self, st, v, where):
        v = deep(st, v)
        if v[0] == "o" and v[1] == "str":
            for p in v[2]:
                self.written(st, p, where)
            return
        g = st.ghost
        base, size = v, None
        if v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "slice":
            base, size = v[1][1], aff_add(v[1][3], v[1][2], -1)
        if base[0] == "s" and base[1] and set(base[1]) == {" "}:
            if self.mode == "ws":
                g["wsp"] = aff_add(g["wsp"], size if size is not None else num(len(base[1])))
            return
        if base[0] == "s" and base[1] and set(base[1]) == {"\t"}:
            if self.mode == "ws":
                if g["wsp"] != num(0) and st.decide("eq0", g["wsp"]) is not True:
                    self.complain("order", "tabs are written after spaces", where)
                g["wtab"] = aff_add(g["wtab"], size if size is not None else num(len(base[1])))
            return
        if size is not None:
            self.complain("content", "part of something is written: %r" % (v,), where)
            return
        self.content(st, v, where)

    # ------------------------------------------------------------ content and what precedes it
    def content(self, st, v, where):
        g = st.ghost
        if self.mode == "ws":
            self.judge_ws(st, v, where)
        if v[0] == "sym" and isinstance(v[1], tuple) and v[1][:1] == ("cbtext",):
            return
        g["evs"] += (("raw", v),)

    def judge_ws(self, st, v, where):
        g = st.ghost
        pend = g["pend"][1]
        lines = {0: 0, None: 0, 1: 1, 2: 2}[pend]
        if not self.same(st, g["lines"], num(lines)):
            self.complain("lines", "%s line ends are written instead of %d" % (fmt_aff(g["lines"]), lines), where)
        want_sp, want_tab = g["sp"], num(0)
        if pend is not None:
            lvl = g["lvl"]
            pos = st.decide("ge0", lvl)
            if pos is None:
                raise Fork([lambda s: s.assume("ge0", lvl), lambda s: s.assume("ge0", aff_add(num(-1), lvl, -1))])
            if pos is False:
                lvl = num(0)
            nm = self.indent_field(st)
            vs = st.get_fact("v", nm) or frozenset([0, 1])
            if len(vs) > 1:
                if st.decide("eq0", lvl) is not True:
                    raise Fork([lambda s, i=i: s.set_fact("v", nm, frozenset([i])) for i in sorted(vs)])
            elif next(iter(vs)) == self.ix_space:
                self.eng.uint.add(fname(nm, self.ix_space, 0))
                want_sp = aff_add(want_sp, self.eng.product(st, lvl, ("i", 0, ((fname(nm, self.ix_space, 0), 1),))))
            else:
                want_tab = lvl
        if not self.same(st, g["wsp"], want_sp):
            self.complain("spaces", "%s spaces are written instead of %s" % (fmt_aff(g["wsp"]), fmt_aff(want_sp)), where)
        if not self.same(st, g["wtab"], want_tab):
            self.complain("tabs", "%s tabs are written instead of %s" % (fmt_aff(g["wtab"]), fmt_aff(want_tab)), where)
        if v[0] not in ("s", "str1", "ch") and st.get_fact("b", ("nonempty", v)) is not True:
            if (pend, g["sp"]) != (None, num(0)):
                self.complain("empty", "pending whitespace is written for text that may be empty: %r" % (v,), where)
        g["pend"], g["sp"] = ("pend", None), num(0)
        g["lines"], g["wsp"], g["wtab"] = num(0), num(0), num(0)

    def indent_field(self, st):
        if not hasattr(self, "_ixf"):
            c = [a for p, a in self.prog.adts.items() if p.split("::")[-1] == "Config" and p.startswith("fmt::") and a.get("local")]
            e = [a for p, a in self.prog.adts.items() if p.split("::")[-1] == "Indentation" and a.get("local")]
            if len(c) != 1 or len(e) != 1:
                raise Imprecise("Config / Indentation not found")
            fs = [f["name"] for f in c[0]["variants"][0]["fields"]]
            self._ixf = fname("cfg", None, fs.index("indentation"))
            self.ix_space = [i for i, x in enumerate(e[0]["variants"]) if x["name"] == "Space"][0]
            self.ind_adt = e[0]
        return self._ixf

    def same(self, st, a, b):
        d = aff_add(a, b, -1)
        return d == num(0) or st.decide("eq0", d) is True

    # ------------------------------------------------------------ language callbacks
    def callback(self, call, tr):
        st = call.st
        n = call.d["name"]
        args = list(call.args)
        item = None
        if not args:
            return NotImplemented         # e.g. the default of a setting: some value
        if tr == "LangItem":
            item = deep(st, args.pop(0))
        if self.tgt(st, args[0]) != "F":
            t = self.tgt(st, args[0])
            if not (t[0] == "adt"):
                raise Imprecise("callback on %r" % (t,))
            inner = True
        else:
            inner = False
        rest = tuple(deep(st, a) for a in args[1:])
        st.ghost["evs"] += (("cb", n, item, rest, inner),)
        if self.mode == "ws" or inner:
            w = models.find_method(self.eng, [p for p in self.prog.adts if p.split("::")[-1] == "Formatter" and self.prog.adts[p].get("local")][0],
                                   "write_str", "Write")
            if w is None:
                raise Imprecise("Formatter::write_str not found")
            if self.mode == "q":
                st.set_fact("b", ("nonempty", sym("cbtext", n)), True)
            self.eng.push_frame(st, w, [args[0], sym("cbtext", n)], call.dest, call.ret, call.cont)
            return None
        return call.done(ok())

    def recursion(self, call):
        """the same function again: a nested string; analysed on its own"""
        st = call.st
        consts = tuple(a for a in call.args if a[0] == "b")
        t = self.tgt(st, call.args[0])
        inner = t != "F"
        spec = []
        for i, x in enumerate(call.args):
            y = deep(st, x)
            spec.append("F" if i == 0 else ("o", "str", ()) if y[0] == "o" and y[1] == "str" else y)
        self.recs.add((call.inst.ix, tuple(spec)))
        st.ghost["evs"] += (("nested", inner, consts),)
        if inner:
            self.same_config(st, deep(st, st.mem[("F",)]), deep(st, t), call.where())
            w = models.find_method(self.eng, t[1], "write_str", "Write")
            if self.mode == "q":
                st.set_fact("b", ("nonempty", sym("nestedtext")), True)
            self.eng.push_frame(st, w, [call.args[0], sym("nestedtext")], call.dest, call.ret, call.cont)
            return None
        return call.done(ok())

    def same_config(self, st, f, x, where):
        """a string inside of a string is formatted with the configuration of the output"""
        if f[0] == "sym" and mentions(f, "cfg"):
            if x[0] in ("ref", "rv"):
                x = deep(st, self.tgt(st, x))
            if x == f:
                return
            if mentions(x, "cfg"):
                raise Imprecise("a string inside of a string is formatted with a changed configuration")
            self.complain("nested-config", "a string inside of a string is not formatted with the configuration of the output", where)
        elif f[0] == "adt" and x[0] == "adt" and f[1] == x[1] and f[2] == x[2]:
            for a, b in zip(f[3], x[3]):
                self.same_config(st, a, b, where)

    # ------------------------------------------------------------ steps
    def end_step(self, st, why, res):
        self.nsteps += 1
        g = st.ghost
        step = g["step"]
        ks = None
        if step == ("item",):
            vs = st.variants(IT[0:2], len(self.tf.vn)) if False else st.get_fact("v", IT)
            ks = frozenset(self.tf.vn[i] for i in (vs if vs is not None else self.tf.vn))
            for k in ks:
                self.kinds_seen[k] = self.kinds_seen.get(k, 0) + 1
        if self.mode == "ws":
            self.end_ws(st, ks, why, res)
        else:
            self.end_q(st, ks, why, res)
        g["evs"] = ()

    def lit(self, v, old=False, nx=False):
        """is v the text of the current literal item (`old`: or of one that was taken before; `nx`: of the next one)"""
        if v[0] != "sym":
            return False
        n = v[1]
        it = ("it", 1) if nx else IT
        while isinstance(n, tuple) and n and n[0] == "f":
            if n == fname(it, self.tf.vi["Literal"], 0):
                return True
            if old and n[2:] == (self.tf.vi["Literal"], 0) and isinstance(n[1], tuple) and n[1][:2] == ("gen", IT):
                return True
            n = n[1]
        return False

    def end_ws(self, st, ks, why, res):
        g = st.ghost
        where = "step %s" % ("/".join(sorted(ks)) if ks else g["step"][0])
        if res == "err":
            return
        for k in ("lines", "wsp", "wtab"):
            if not self.same(st, g[k], num(0)):
                self.complain("trailing", "whitespace is written without content following it", where)
        if ks is None:
            if any(e[0] not in ("enter", "leave", "empty") for e in g["evs"]):
                self.complain("extra", "something is written although no item asks for it: %r" % (g["evs"],), where)
            return
        if "Indentation" in ks and len(ks) > 1:
            self.complain("kinds", "items that need different treatment are not told apart", where)
        eff = set()
        raws = [e for e in g["evs"] if e[0] == "raw"]
        for k in ks:
            pend, sp, lvl = g["pend"][1], g["sp"], g["lvl"]
            if k == "Space":
                sp = aff_add(sp, num(1))
            elif k in ("Push", "Line", "Indentation"):
                z = False
                if k == "Indentation":
                    f = ("i", 0, ((fname(IT, self.tf.vi["Indentation"], 0), 1),))
                    z = st.decide("eq0", f) is True
                    lvl = aff_add(lvl, f) if not z else lvl
                if not z:
                    sp = num(0)
                    if k == "Line":
                        pend = 0 if pend == 0 else 2
                    else:
                        pend = pend if pend in (0, 2) else 1
            if k == "Literal":
                pass
            elif raws:
                self.complain("content|%s" % k, "writes %r for an item of kind %s" % (raws[0][1], k), where)
            eff.add((pend, sp, lvl))
        if "Literal" in ks:
            cbs = [e for e in g["evs"] if e[0] == "cb"]
            if len(ks) > 1:
                self.complain("kinds", "literals are treated like other items", where)
            if raws:
                if len(raws) != 1 or not self.lit(raws[0][1]) or cbs:
                    self.complain("literal", "a literal is not written as it is: %r" % (g["evs"],), where)
            elif cbs:
                if len(cbs) != 1 or not any(self.lit(a) for a in cbs[0][3]):
                    self.complain("literal", "a literal is not handed to the language: %r" % (g["evs"],), where)
            else:
                nm = fname(IT, self.tf.vi["Literal"], 0)
                if not self.lit_empty(st) and g["step"] == ("item",):
                    self.complain("literal-lost", "a literal may be dropped", where)
        if len(eff) != 1:
            self.complain("kinds", "items that need different treatment are not told apart", where)
            return
        pend, sp, lvl = next(iter(eff))
        g["pend"], g["sp"], g["lvl"] = ("pend", pend), sp, lvl

    # ------------------------------------------------------------ quotes and interpolations
    NOTHING = ("Register", "Push", "Line", "Space", "Indentation")

    def is_bool(self, st, v, want):
        """is the boolean term `v` equal to `want` (True / False / another term)"""
        def val(x):
            if x[0] == "b":
                return x[1]
            return st.get_fact("b", x[1]) if x[0] == "sym" else None
        if isinstance(want, bool):
            return val(v) is want
        if v == want:
            return True
        return val(v) is not None and val(v) is val(want)

    def end_q(self, st, ks, why, res):
        g = st.ghost
        evs = [e for e in g["evs"] if e[0] != "empty" and (e[0] != "leave" or ks is not None)]
        fr0, pe = g["fr0"], g["pe"]
        bottom, q, ev, e = fr0[1:]
        at = "%s in %s%s" % ("/".join(sorted(ks)) if ks else g["step"][0], "a string" if q else "an interpolation" if e else "the top level",
                              " of a nested string" if self.nested else "")
        def bad(key, text):
            self.complain("%s|%s" % (key, at), text, at)
        failed = why == "return" and res == "err"
        stopped = why == "return" and res == "ok"
        if ks is None:
            if g["step"] == ("end",):
                fine = bottom and not q and not self.nested and pe[1] == 0
                if stopped and not fine:
                    bad("unclosed", "the end of the stream is accepted although something is still open")
                if failed and fine:
                    bad("end", "a complete stream is rejected")
            elif why == "return":
                bad("early", "returns without looking at the stream")
            if evs:
                bad("extra", "something is written although no item asks for it: %s" % show(evs))
            return
        kinds = set()
        for k in ks:
            kinds.add(self.step_q(st, k, evs, failed, stopped, why, fr0, pe, bad))
        if len(kinds) > 1:
            bad("kinds", "items that need different treatment are not told apart")
            return
        new = next(iter(kinds))
        if new is not None:
            g["fr"] = g["fr0"] = new[0]
            g["pe"] = new[1]

    def step_q(self, st, k, evs, failed, stopped, why, fr0, pe, bad):
        bottom, q, ev, e = fr0[1:]
        none_ = (fr0, ("pe", 0, False))
        args = (sym("lc"), sym("lf"))
        cbs = lambda n: len(evs) == 1 and evs[0][0] == "cb" and evs[0][1] == n and not evs[0][4]
        now = st.ghost["fr"]

        def expect(cond, text):
            if not cond:
                bad("%s|%s" % (k, text), "%s: %s" % (text, show(evs)))

        # the shortcut for an interpolation which is a single literal
        if pe[1]:
            want = "Literal" if pe[1] == 1 else "CloseEval"
            if k != want or why == "return":
                bad("shortcut", "the interpolation is treated as a single literal, but it is not")
                return None
            done = pe[2]
            if evs:
                expect(cbs("string_eval_literal") and not done and len(evs[0][3]) == 3 and evs[0][3][:2] == args and self.lit(evs[0][3][2], True),
                       "a literal interpolation is not handed over once")
                done = True
            if pe[1] == 2:
                expect(done, "a literal interpolation is lost")
                return none_
            return (fr0, ("pe", 2, done))
        illegal = False
        if k == "OpenQuote" and q:
            b = st.get_fact("b", fname(IT, self.tf.vi["OpenQuote"], 0))
            if b is None:
                bad("kinds", "interpolated and plain nested strings are not told apart")
                return None
            illegal = b
        elif k == "CloseQuote" and not q:
            if self.nested and bottom and not failed:
                expect(stopped and not evs, "a nested string does not end where it is closed")
                return None
            illegal = True
        elif k == "OpenEval":
            illegal = not q
        elif k == "CloseEval":
            illegal = not (e and not q)
        if illegal:
            expect(failed, "an item that is out of place is accepted")
            return None
        if why == "return":
            expect(False, "is rejected" if failed else "formatting stops in the middle of the stream")
            return None
        if k in self.NOTHING:
            expect(not evs, "writes something")
            return none_
        if k == "Lang":
            it = evs[0][2] if cbs("format") else None
            expect(it is not None and it == sym("f", IT, self.tf.vi["Lang"], 1) and evs[0][3] == args, "the language item is not formatted once")
            return none_
        if k == "Literal":
            if not evs and self.lit_empty(st):
                return none_
            if q:
                expect(cbs("write_quoted") and len(evs[0][3]) == 1 and self.lit(evs[0][3][0]), "a literal inside of a string is not escaped once")
            else:
                expect(len(evs) == 1 and evs[0][0] == "raw" and self.lit(evs[0][1]), "a literal outside of strings is not written as it is")
            return none_
        if k == "OpenQuote" and not q:
            b = sym(fname(IT, self.tf.vi["OpenQuote"], 0)) if False else ("sym", fname(IT, self.tf.vi["OpenQuote"], 0))
            expect(cbs("open_quote") and evs[0][3][:2] == args and self.is_bool(st, evs[0][3][2], b), "the string is not opened once")
            return (("fr", bottom, True, b, e), ("pe", 0, False))
        if k == "OpenQuote":
            shape = [x[:2] if x[0] == "cb" else x[:1] for x in evs]
            good = shape == [("cb", "open_quote"), ("nested",), ("cb", "close_quote"), ("cb", "write_quoted")] and not evs[3][4] and \
                all(x[4] and x[3][:2] == args and self.is_bool(st, x[3][2], False) for x in (evs[0], evs[2])) and evs[1][1]
            expect(good, "a nested string is not formatted and escaped once")
            if good:
                v = evs[3][3][0]
                got = [p for p in (v[2] if v[0] == "o" and v[1] == "str" else (v,))]
                want = [sym("cbtext", "open_quote"), sym("nestedtext"), sym("cbtext", "close_quote")]
                left = [p for p in want if st.get_fact("b", ("nonempty", p)) is not False]
                expect(got == left or got == want, "the text of a nested string is not what its parts are: %s instead of" % short(got))
            return none_
        if k == "CloseQuote":
            expect(cbs("close_quote") and evs[0][3][:2] == args and self.is_bool(st, evs[0][3][2], ev), "the string is not closed once")
            return (("fr", bottom, False, ("b", False), e), ("pe", 0, False))
        if k == "OpenEval":
            if not evs:
                return (fr0, ("pe", 1, False))
            if len(evs) == 1 and evs[0][0] == "cb" and evs[0][1] == "string_eval_literal":
                expect(self.lit(evs[0][3][2], nx=True) and evs[0][3][:2] == args, "a literal interpolation is not handed over")
                return (fr0, ("pe", 1, True))
            names = sorted(x[0] if x[0] != "cb" else x[1] for x in evs)
            expect(names == ["enter", "start_string_eval"] and all(x[0] != "cb" or x[3] == args and not x[4] for x in evs), "an interpolation is not begun once")
            return (now, ("pe", 0, False))
        if k == "CloseEval":
            names = sorted(x[0] if x[0] != "cb" else x[1] for x in evs)
            expect(names == ["end_string_eval", "leave"] and all(x[0] != "cb" or x[3] == args and not x[4] for x in evs), "an interpolation is not ended once")
            return (now, ("pe", 0, False))
        raise Imprecise("item kind %s" % k)

    def lit_empty(self, st):
        em = [v for (k, n), v in st.facts.items() if k == "b" and isinstance(n, tuple) and n[0] == "nonempty" and
              n[1][0] == "sym" and root(n[1][1]) == IT]
        return em == [False]

    def report(self):
        return self.bad


def prog_self(inst):
    return models.base(inst.self_s) if inst.self_s else None


def short(v):
    return repr(v)[:300]


def show(evs):
    return ", ".join(str(e[1]) if e[0] == "cb" else "%s %s" % (e[0], short(e[1:])) for e in evs) or "nothing"


def entry_check(progs, rep, mode):
    prog = progs["genco"]
    tf = TokenFns(prog)
    r = FormatRun(tf, mode)
    try:
        n = r.run()
    except Imprecise as e:
        rep.ob("formatting followable", mode, False, str(e), "imprecise|%s" % mode)
        for k, v in sorted(r.bad.items()):
            rep.ob("formatting step", k, False, v, "step|%s" % k)
        return r, None
    rep.count("states", r.eng.nstates)
    rep.count("steps", r.nsteps)
    return r, n


def settle(rep, r, n, rules, what):
    """one obligation per item kind and rule; complaints that name neither count as they are"""
    where = "Tokens::format and what it calls (%s)" % what
    for k in sorted(r.tf.vn.values() if isinstance(r.tf.vn, dict) else r.tf.vn):
        rep.ob("every kind of item is met", "%s, %s" % (k, what), r.kinds_seen.get(k, 0) > 0, "no path takes an item of this kind", "imprecise|kind|%s|%s" % (k, what))
    for rule in rules:
        hits = {k: v for k, v in r.bad.items() if k.split("|")[0] in rules[rule]}
        rep.ob(rule, where, not hits, "; ".join(sorted(hits.values())[:4]), "%s|%s" % (rule, what))
    named = set(x for v in rules.values() for x in v)
    for k, v in sorted(r.bad.items()):
        if k.split("|")[0] not in named:
            rep.ob("formatting step", k, False, v, "step|%s" % k)
    rep.count("paths", len(r.outs))
    rep.count("item steps", r.nsteps)
    rep.count("states", r.eng.nstates)
    rep.ob("both outcomes are explored", where, n["ok"] > 0, "%r" % n, "imprecise|outcomes|%s" % what)


def check_ws(progs, rep):
    import p_write
    p_write.check_config(progs["genco"], rep, ("indentation",))
    r, n = entry_check(progs, rep, "ws")
    if n is None:
        return
    settle(rep, r, n, {
        "line ends in front of content": ("lines", "line-config", "order"),
        "spaces in front of content": ("spaces",),
        "tabs in front of content": ("tabs",),
        "whitespace is written only together with content": ("trailing", "empty", "extra"),
        "configuration of strings inside of strings": ("nested-config",),
        "literals reach the output": ("literal", "literal-lost", "content"),
        "kinds of items are told apart": ("kinds",),
        "no panic": ("panic",),
    }, "whitespace")


def check_q(progs, rep):
    prog = progs["genco"]
    tf = TokenFns(prog)
    r, n = entry_check(progs, rep, "q")
    if n is None:
        import p_delim
        return p_delim.check(prog, rep)
    rules = {
        "string and interpolation protocol, %s" % k: (k,) for k in sorted(r.tf.vn.values() if isinstance(r.tf.vn, dict) else r.tf.vn)}
    rules["the end of the stream"] = ("unclosed", "end", "early", "extra")
    rules["single literal interpolations"] = ("shortcut",)
    rules["configuration of strings inside of strings"] = ("nested-config",)
    rules["no panic"] = ("panic",)
    settle(rep, r, n, rules, "whole stream")
    done = set()
    todo = list(r.recs)
    while todo:
        ix, spec = todo.pop()
        if (ix, spec) in done:
            continue
        done.add((ix, spec))
        r2 = FormatRun(tf, "q")
        try:
            n = r2.run((prog.insts[ix], spec))
        except Imprecise as e:
            rep.ob("formatting followable", "nested", False, str(e), "imprecise|nested")
            for k, v in sorted(r2.bad.items()):
                rep.ob("formatting step", k, False, v, "step|%s" % k)
            continue
        settle(rep, r2, n, rules, "nested string")
        todo += list(r2.recs)
    import p_delim
    p_delim.check(prog, rep)


if __name__ == "__main__":
    import sys, mir, time
    from report import Report
    progs = mir.load()
    rep = Report("C04", "quick")
    t = time.time()
    globals()[sys.argv[1]](progs, rep)
    for o in rep.obls:
        print(o[2], o[0], "|", o[1][:110], "|", o[3][:300] if not o[2] else "")
    print(rep.counts, time.time() - t)
