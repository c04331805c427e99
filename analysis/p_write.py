"""C06: every destination and every entry point receives the same text."""
import itertools
import models
from absint import *
from p_tokens import TokenFns

SINK = ("sink",)


def parts(st, v):
    out = []
    v = strip(st, v)
    while v[0] in ("bytes", "rv"):
        v = strip(st, v[1])
    for p in models.str_parts(st, v):
        while p[0] in ("bytes", "rv"):
            p = strip(st, p[1])
        if p[0] == "str1":
            p = ("char", p[1])
        if p[0] == "sym" and isinstance(p[1], tuple) and p[1][0] == "chr":
            p = ("char", p)
        out.append(p)
    return models.norm_parts(tuple(out))


class Sink:
    """Runs code whose innermost destination is opaque, and records what reaches it."""

    def __init__(self, prog, prefix="core::io::write::Write::"):
        self.prog = prog
        self.bad = {}
        eng = self.eng = Engine(prog, intercepts=[self.intercept], max_states=20000)
        eng.on_write = self.on_write
        eng.uint.add("n")

    def text(self, st, v):
        st.ghost["text"] = models.norm_parts(st.ghost["text"] + parts(st, v))

    def on_write(self, eng, st, target, v, dest, ret, cont, site, tb):
        if strip(st, target) == sym(SINK):
            self.text(st, v)
            return eng.deliver(st, ok(), dest, ret, cont)
        t = strip(st, target)
        if t[0] == "adt":
            inst = models.find_method(eng, t[1], "write_str", "Write")
            if inst is not None:
                eng.push_frame(st, inst, [target, v], dest, ret, cont)
                return None
        return NotImplemented

    def intercept(self, call):
        st, d = call.st, call.d
        tr = (d["trait"] or "").split("::")[-1]
        if tr != "Write" or not call.args:
            return NotImplemented
        t = strip(st, call.args[0])
        n = d["name"]
        if t == sym(SINK):
            if n in ("write_str", "write_char", "write_all"):
                self.text(st, call.args[1])
                return call.done(ok())
            if n == "flush":
                return call.done(ok())
            if n in ("write", "write_vectored"):
                self.bad.setdefault("partial", "`%s` may write a part only (%s)" % (n, call.where()))
                self.text(st, call.args[1])
                return call.done(ok(sym("written")))
            if n == "write_fmt":
                return NotImplemented
            raise Imprecise("%s on the destination" % n)
        if t[0] == "o" and t[1] == "str" and (call.inst is None or not call.inst.has_body) and n in ("write_str", "write_char"):
            models.str_append(call, deep(st, call.args[1]), 0)
            return call.done(ok())
        if t[0] == "adt" and (call.inst is None or not call.inst.has_body):
            inst = models.find_method(self.eng, t[1], n, "Write")
            if inst is None:
                ps = [i for i in self.prog.insts if i is not None and i.has_body and i.local and i.name == n and i.path == d["path"]]
                inst = ps[0] if len(ps) == 1 else None
            if inst is not None:
                self.eng.push_frame(st, inst, call.args, call.dest, call.ret, call.cont)
                return None
        return NotImplemented


def succeed(outs):
    """the outcomes that are not the failure of something"""
    r = []
    for o in outs:
        if o.kind == "ret" and not (o.val[0] == "adt" and o.val[1] == RESULT and o.val[2] == 1):
            r.append(o)
    return r


def provided(prog, trait_path, name):
    c = [i for i in prog.insts if i is not None and i.has_body and i.local and i.name == name and i.path == "%s::%s" % (trait_path, name)]
    return c[0] if len(c) == 1 else None


def check_writer(prog, rep, adt, impl_w, depth):
    path = adt["path"]
    short = path.split("::")[-1]

    def m(name, trait):
        c = [r for r in prog.roots if r.has_body and r.name == name and r.self_s and r.self_s.split("<")[0] == path and
             (r.trait == trait)]
        return c[0] if c else None
    new = m("new", None)
    into = m("into_inner", None) or m("into_vec", None)
    w = m("write_str", "core::fmt::Write")
    if not new or not into or not w:
        rep.ob("destinations are analysed", short, False, "constructor or accessor not found", "imprecise|%s" % short)
        return
    trait = impl_w["trait"]
    ops = {"str": w, "char": m("write_char", "core::fmt::Write"), "line": m("write_line", trait), "end": m("write_trailing_line", trait) or
           provided(prog, trait, "write_trailing_line")}
    lines = into.name == "into_vec"
    for seq in itertools.product(["str", "char", "line", "end"], repeat=depth):
        # the trailing line is the last thing written
        if "end" in seq[:-1]:
            continue
        sk = Sink(prog)
        what = "%s: %s" % (short, ", ".join(seq))
        try:
            st = St(sk.eng)
            st.ghost["text"] = ()
            outs = succeed(sk.eng.run(new, [sym(SINK)] if new.argc else [], st))
            sts = []
            for o in outs:
                s = o.st
                s.mem[("Wr",)] = deep(s, o.val)
                sts.append(s)
            want, ended = [], False
            for k, op in enumerate(seq):
                nl = ("sym", "NL")
                nxt = []
                if op == "str":
                    want.append(("sym", ("s", k)))
                elif op == "char":
                    want.append(("char", ("sym", ("chr", k))))
                elif op == "line" or not lines:
                    want.append("NL")
                for s in sts:
                    arg = {"str": ("sym", ("s", k)), "char": ("sym", ("chr", k))}.get(op, ("sym", "cfg"))
                    inst = ops[op]
                    if inst is None:
                        if op != "char":
                            raise Imprecise("no %s" % op)
                        inst, arg = w, ("str1", arg)
                    ro = sk.eng.run(inst, [("ref", ("Wr",), ()), arg], s)
                    for o in ro:
                        if o.kind == "panic":
                            sk.bad.setdefault("panic", "%s may panic at %s" % (inst.name, o.info[1]))
                    nxt += [o.st for o in succeed(ro)]
                sts = nxt
            res = []
            for s in sts:
                v = s.mem[("Wr",)]
                for o in succeed(sk.eng.run(into, [v], s)):
                    res.append(result_text(o, lines))
            exp = expect_text(want, lines, sk)
            if not res:
                sk.bad.setdefault("none", "never succeeds")
            for x in res:
                if x != exp:
                    sk.bad.setdefault("text", "the destination holds %s instead of %s" % (show(x), show(exp)))
        except Imprecise as x:
            rep.ob("destinations followable", what, False, str(x), "imprecise|%s" % short)
            continue
        rep.ob("what is written is what the destination holds", what, not sk.bad, "; ".join(sk.bad.values()), "%s|%s" % (short, ",".join(sorted(sk.bad))))


def nl_name(prog):
    c = [a for p, a in prog.adts.items() if p.split("::")[-1] == "Config" and p.startswith("fmt::") and a.get("local")]
    fs = [f["name"] for f in c[0]["variants"][0]["fields"]]
    return fname("cfg", None, fs.index("newline"))


def expect_text(want, lines, sk):
    if not lines:
        nl = ("sym", nl_name(sk.prog))
        return ("text", models.norm_parts(tuple(nl if x == "NL" else x for x in want)))
    out, cur = [], []
    for x in want:
        if x == "NL":
            out.append(models.norm_parts(tuple(cur)))
            cur = []
        else:
            cur.append(x)
    out.append(models.norm_parts(tuple(cur)))
    return ("lines", tuple(out))


def result_text(o, lines):
    v = strip(o.st, o.val)
    if not lines:
        if v == sym(SINK):
            return ("text", o.st.ghost["text"])
        return ("text", parts(o.st, v))
    if v[0] == "o" and v[1] == "list":
        return ("lines", tuple(parts(o.st, x) for x in v[2]))
    return ("?", v)


def show(x):
    def one(p):
        return repr(p[1]) if p[0] == "s" else "%s" % (p[1],) if p[0] == "sym" else repr(p)
    if x[0] == "text":
        return "[%s]" % " ".join(one(p) for p in x[1])
    if x[0] == "lines":
        return "lines %s" % " | ".join(" ".join(one(p) for p in l) for l in x[1])
    return repr(x)[:300]


class Entry(Sink):
    """to_string and friends: formatting itself is replaced by writing one opaque text."""

    def __init__(self, prog, tf):
        Sink.__init__(self, prog)
        self.tf = tf
        self.eng.intercepts.insert(0, self.entry)

    def entry(self, call):
        st, d = call.st, call.d
        n = d["name"]
        if d["trait"] and d["trait"].split("::")[-1] == "Lang" and n == "format_file":
            a = call.args
            return self.formatted(call, "file", a[0], a[1], a[2], None)
        if call.inst is not None and call.inst.local and call.inst.has_body and call.inst.trait is None and len(call.args) == 4:
            own = models.base(call.inst.self_s) if call.inst.self_s else None
            if own == "Tokens" and self.is_fmt(st, call.args[1]):
                return self.formatted(call, "body", call.args[0], call.args[1], call.args[2], call.args[3])
            if own == "Formatter" and self.is_fmt(st, call.args[0]):
                return self.formatted(call, "body", call.args[1], call.args[0], call.args[2], call.args[3])
        return NotImplemented

    def is_fmt(self, st, v):
        v = strip(st, v)
        return v[0] == "adt" and v[1].split("::")[-1] == "Formatter"

    def formatted(self, call, kind, tokens, out, config, fmt):
        st = call.st
        f = deep(st, out)
        self.seen.append((kind, deep(st, tokens), f, deep(st, config), None if fmt is None else deep(st, fmt), call.where()))
        st.ghost["kinds"] += (kind,)
        w = models.find_method(self.eng, strip(st, out)[1], "write_str", "Write")
        if w is None:
            raise Imprecise("Formatter::write_str not found")
        st.set_fact("b", ("nonempty", sym("cbtext")), True)
        self.eng.push_frame(st, w, [out, sym("cbtext")], call.dest, call.ret, call.cont)
        return None


def default_call(v, what):
    if v[0] != "sym" or not isinstance(v[1], tuple):
        return False
    return v[1][0] == "default" and v[1][1].endswith("::" + what)


def check_entries(prog, rep):
    tf = TokenFns(prog)
    cfgs = [a for p, a in prog.adts.items() if p.split("::")[-1] == "Config" and p.startswith("fmt::") and a.get("local")]
    names = [f["name"] for f in cfgs[0]["variants"][0]["fields"]]
    for name, kind, lines in (("to_string", "body", False), ("to_vec", "body", True), ("to_file_string", "file", False), ("to_file_vec", "file", True)):
        r = tf.inherent(name)
        e = Entry(prog, tf)
        e.seen = []
        bad = {}
        where = "Tokens::%s" % name
        try:
            if r is None:
                raise Imprecise("not found")
            st = St(e.eng)
            st.ghost["text"] = ()
            st.ghost["kinds"] = ()
            fs = [None, None]
            fs[tf.ix_items], fs[tf.ix_last] = sym("items"), ("i", 0, (("last", 1),))
            tv = ("adt", tf.tokens["path"], 0, tuple(fs))
            st.mem[("T",)] = tv
            outs = e.eng.run(r, [("ref", ("T",), ())], st)
            good = succeed(outs)
            for o in outs:
                if o.kind == "panic":
                    bad.setdefault("panic", "may panic at %s" % (o.info[1],))
            for o in good:
                v = o.val[3][0] if o.val[0] == "adt" and o.val[1] == RESULT else o.val
                o.val = v
                got = result_text(o, lines)
                nl = [] if kind == "body" else [("s", "\n")]
                exp = ("lines", ((sym("cbtext"),),)) if lines else ("text", tuple([sym("cbtext")] + nl))
                if got != exp:
                    bad.setdefault("text", "returns %s instead of %s" % (show(got), show(exp)))
                if o.st.ghost["kinds"] != (kind,):
                    bad.setdefault("kind", "formats %s" % (o.st.ghost["kinds"],))
            if not good:
                bad["none"] = "never succeeds"
            for k, tok, f, config, fmt, w in e.seen:
                if tok not in (tv, sym("items")):
                    bad.setdefault("tokens", "formats something else than the stream: %r" % (tok,))
                if not default_call(config, "Config") or (fmt is not None and not default_call(fmt, "Format")):
                    bad.setdefault("config", "does not use the default configuration of the language (%s): %r" % (w, (config, fmt)))
                cs = [x for x in f[3] if x[0] in ("rv", "adt") and strip(o.st, x)[0] == "adt" and strip(o.st, x)[1] == cfgs[0]["path"]]
                if len(cs) != 1:
                    raise Imprecise("the formatter has no configuration")
                c = strip(o.st, cs[0])
                ind, nl = c[3][names.index("indentation")], c[3][names.index("newline")]
                if not (ind[0] == "sym" and ind[1][0] == "call" and ind[1][1].endswith("Lang::default_indentation")):
                    bad.setdefault("indentation", "does not indent by the language's default: %r" % (ind,))
                if strip(o.st, nl) != ("s", "\n"):
                    bad.setdefault("newline", "line ends are %r" % (nl,))
        except Imprecise as x:
            rep.ob("entry points followable", where, False, str(x), "imprecise|%s" % name)
            continue
        rep.ob("the entry point returns what formatting writes", where, not bad, "; ".join(bad.values()), "%s|%s" % (name, ",".join(sorted(bad))))


def check_file(prog, rep):
    """Tokens::format_file: the language's file, then one line end"""
    tf = TokenFns(prog)
    r = tf.inherent("format_file")
    e = Entry(prog, tf)
    e.seen = []
    bad = {}
    try:
        mk = [x for x in prog.roots if x.has_body and x.name == "as_formatter" and x.self_s and models.base(x.self_s) == "FmtWriter"]
        if r is None or len(mk) != 1:
            raise Imprecise("format_file or as_formatter not found")
        st = St(e.eng)
        st.ghost["text"], st.ghost["kinds"] = (), ()
        wadt = [a for p, a in prog.adts.items() if p.split("::")[-1] == "FmtWriter" and a.get("local")][0]
        st.mem[("Wr",)] = ("adt", wadt["path"], 0, (sym(SINK),))
        o, = [o for o in e.eng.run(mk[0], [("ref", ("Wr",), ()), sym("cfg")], st) if o.kind == "ret"]
        st = o.st
        st.mem[("F",)] = o.val
        n = 0
        for o in succeed(e.eng.run(r, [sym("toks"), ("ref", ("F",), ()), sym("lc")], st)):
            n += 1
            exp = (sym("cbtext"), ("sym", nl_name(prog)))
            if o.st.ghost["text"] != exp:
                bad.setdefault("text", "writes %s instead of the file and one line end" % show(("text", o.st.ghost["text"])))
            if o.st.ghost["kinds"] != ("file",):
                bad.setdefault("kind", "formats %s" % (o.st.ghost["kinds"],))
        for k, tok, f, config, fmt, w in e.seen:
            if tok != sym("toks") or config != sym("lc"):
                bad.setdefault("args", "passes on %r and %r" % (tok, config))
        if not n:
            bad["none"] = "never succeeds"
    except Imprecise as x:
        rep.ob("entry points followable", "Tokens::format_file", False, str(x), "imprecise|format_file")
        return
    rep.ob("a file ends with one line end", "Tokens::format_file", not bad, "; ".join(bad.values()), "format_file|%s" % ",".join(sorted(bad)))


def check_config(prog, rep, parts=("indentation", "newline")):
    """a setter of the format's configuration sets its part and keeps the other"""
    cfgs = [a for p, a in prog.adts.items() if p.split("::")[-1] == "Config" and p.startswith("fmt::") and a.get("local")]
    names = [f["name"] for f in cfgs[0]["variants"][0]["fields"]]
    tf = TokenFns(prog)
    for part in parts:
        fn = "with_" + part
        where = "fmt::Config::%s" % fn
        f = [x for x in prog.roots if x.has_body and x.name == fn and x.self_s and x.trait is None and x.argc == 2
             and prog.types[x.locals[0]].get("path") == cfgs[0]["path"]]
        bad = set()
        try:
            if len(f) != 1 or sorted(names) != ["indentation", "newline"]:
                raise Imprecise("fmt::Config has other parts, or no such function")
            e = Entry(prog, tf)
            v = ("adt", cfgs[0]["path"], 0, tuple(sym("old " + n) for n in names))
            n = 0
            for o in e.eng.run(f[0], [v, sym("given")], St(e.eng)):
                n += 1
                if o.kind != "ret":
                    bad.add("may panic")
                    continue
                got = strip(o.st, o.val)
                for k, x in zip(names, got[3] if got[0] == "adt" else ()):
                    if deep(o.st, x) != (sym("given") if k == part else sym("old " + k)):
                        bad.add("leaves %r as %s" % (deep(o.st, x), k))
            if not n:
                bad.add("never returns")
        except Imprecise as x:
            rep.ob("configuration followable", where, False, str(x), "imprecise|%s" % fn)
            continue
        rep.ob("a setter sets its part of the configuration", where, not bad, "; ".join(sorted(bad)), "config|%s" % fn)


def check_formatters(prog, rep):
    """as_formatter of every destination: an untouched formatter for that destination with the given configuration"""
    tf = TokenFns(prog)
    fresh = {}
    for f in [x for x in prog.roots if x.has_body and x.name == "as_formatter" and x.self_s and x.trait is None]:
        where = "%s::as_formatter" % f.self_s
        try:
            e = Entry(prog, tf)
            t = prog.types[f.locals[1]]
            adt = prog.types[t["to"]]["path"]
            st = St(e.eng)
            st.ghost["text"], st.ghost["kinds"] = (), ()
            st.mem[("Wr",)] = ("adt", adt, 0, tuple(sym(("wr", i)) for i in range(len(prog.adts[adt]["variants"][0]["fields"]))))
            for o in e.eng.run(f, [("ref", ("Wr",), ()), sym("cfg")], st):
                if o.kind != "ret":
                    rep.ob("a destination's formatter starts afresh", where, False, "may panic", "formatter|%s" % adt)
                    continue
                v = strip(o.st, o.val)
                if v[0] != "adt":
                    raise Imprecise("formatter %r" % (v,))
                fresh.setdefault(adt, []).append((f, where, tuple(deep(o.st, x) if strip(o.st, x) != strip(o.st, ("ref", ("Wr",), ())) else "writer" for x in v[3])))
        except Imprecise as x:
            rep.ob("configuration followable", where, False, str(x), "imprecise|as_formatter|%s" % f.self_s)
    ref = [x for a, l in fresh.items() if a.split("::")[-1] == "FmtWriter" for x in l]
    for a, l in sorted(fresh.items()):
        for f, where, v in l:
            bad = "" if sym("cfg") in v and "writer" in v and ref and v == ref[0][2] else "holds %r instead of %r" % (v, ref and ref[0][2])
            rep.ob("a destination's formatter starts afresh", where, not bad, bad[:400], "formatter|%s" % a)


def check(progs, rep):
    prog = progs["genco"]
    check_config(prog, rep)
    check_formatters(prog, rep)
    depth = 4 if rep.tier == "thorough" else 3
    done = set()
    for im in prog.impls:
        t = prog.types[im["self"]]
        if im["trait"] and im["trait"].split("::")[-1] == "Write" and not im["trait"].startswith("core::") and t["k"] == "adt":
            adt = prog.adts[t["path"]]
            if adt["path"] in done:
                continue
            done.add(adt["path"])
            check_writer(prog, rep, adt, im, depth)
    rep.count("destinations", len(done))
    if len(done) < 3:
        rep.ob("destinations are found", "impl Write", False, "%s" % sorted(done), "imprecise|destinations")
    check_entries(prog, rep)
    check_file(prog, rep)


if __name__ == "__main__":
    import sys, mir, time
    from report import Report
    progs = mir.load()
    rep = Report("C06", "quick")
    t = time.time()
    check(progs, rep)
    for o in rep.obls:
        if not o[2]: print(o[2], o[0], "|", o[1][:110], "|", o[3][:400] if not o[2] else "")
    print(len(rep.obls), rep.counts, time.time() - t)
