"""C05: the failure of a destination is never swallowed."""
import re
import models
from absint import *

ERR = re.compile(r"(^|::)(fmt|io|io::error)::Error>*$")
# code of the formatter that rejects malformed streams (C08 says when)
MAY_REJECT = ("fmt::formatter", "fmt::cursor")


def fallible(prog, ti):
    t = prog.types[ti]
    return t["k"] == "adt" and t.get("path") == RESULT and ERR.search(t["s"]) is not None


def takes_result(prog, call):
    for t in call.arg_types():
        if t is None:
            continue
        ty = prog.types[t]
        while ty["k"] == "ref":
            ty = prog.types[ty["to"]]
        if ty["k"] == "adt" and ty.get("path") in (RESULT, "core::ops::control_flow::ControlFlow"):
            return True
    return False


class ErrRun:
    def __init__(self, prog):
        self.prog = prog
        self.bad = {}
        self.sites = set()
        self.eng = None

    def run(self, r):
        prog = self.prog
        eng = self.eng = Engine(prog, intercepts=[self.intercept], max_states=20000)
        eng.on_write = self.on_write
        eng.lenient = True
        st = St(eng)
        st.ghost["failed"] = ("ok",)
        args = []
        for i in range(1, r.argc + 1):
            n = ("arg", i)
            t = r.locals[i]
            ty = prog.types[t]
            if ty["k"] == "ref" and prog.types[ty["to"]]["k"] in ("adt", "param", "tuple"):
                eng.sym_ty[n] = ty["to"]
                st.mem[("A", i)] = ("sym", n)
                args.append(("ref", ("A", i), ()))
                continue
            eng.sym_ty[n] = t
            args.append(("sym", n))
        self.root = r
        return eng.run(r, args, st)

    def on_write(self, eng, st, target, v, dest, ret, cont, site, tb):
        return self.fork(Call(eng, st, {"name": "write_fmt", "trait": "Write", "local": False, "path": "write!"}, None, "write!", (), [], dest, ret, site, None, cont),
                         self.root.locals[0])

    def intercept(self, call):
        st, prog = call.st, self.prog
        if call.dty is None or call.cont is not None:
            return NotImplemented
        if fallible(prog, call.dty) and not takes_result(prog, call) and call.name not in ("from_residual", "branch", "from_output"):
            if call.name in ("ok_or", "ok_or_else"):
                return NotImplemented
            return self.fork(call, call.dty)
        if call.inst is not None and call.inst.local and call.inst.has_body and "{closure#" not in call.inst.path:
            # anything else of the crate is judged on its own
            return self.eng.opaque(call)
        return NotImplemented

    def fork(self, call, ty):
        st = call.st
        self.sites.add((self.root.ix, tuple(call.site) if call.site else None))
        if st.ghost["failed"] != ("ok",):
            self.bad.setdefault("goes-on", "%s is called at %s after %s failed at %s" % ((call.key, call.where()) + st.ghost["failed"][1:]))
        def fail(s):
            if s.ghost["failed"] == ("ok",):
                s.ghost["failed"] = ("err", call.key, call.where())
        n = ("val",) + (tuple(call.site) if call.site else ())
        e = ("errv",) + (tuple(call.site) if call.site else ())
        st.renew(n)
        return call.each([(None, ok(("sym", n))), (fail, err(("sym", e)))])


def is_err(st, v):
    if v[0] == "adt" and v[1] == RESULT:
        return v[2] == 1
    if v[0] == "sym":
        vs = st.get_fact("v", v[1])
        if vs is not None and len(vs) == 1:
            return next(iter(vs)) == 1
    return None


def check(progs, rep):
    prog = progs["genco"]
    seen = set()
    for r in list(prog.roots) + [i for i in prog.insts if i is not None and i.has_body and i.local and "{closure#" in i.path]:
        if not r.has_body or not r.local:
            continue
        if "{closure#" in r.path:
            if r.j["def"] in seen:
                continue
            seen.add(r.j["def"])
        ret = fallible(prog, r.locals[0])
        has = ret
        for b in r.blocks:
            t = b["t"]
            if t[0] == "call" and not b["cleanup"] and not t[3][1] and fallible(prog, r.locals[t[3][0]]):
                has = True
        if not has:
            continue
        where = "%r (%s)" % (r, r.span())
        e = ErrRun(prog)
        try:
            outs = e.run(r)
        except Imprecise as x:
            rep.ob("failures followable", where, False, str(x), "imprecise|%r" % r)
            outs = []
        bad = dict(e.bad)
        n = 0
        for o in outs:
            f = o.st.ghost["failed"]
            if o.kind != "ret":
                if f != ("ok",) and o.kind == "panic":
                    bad.setdefault("panics", "panics when %s at %s fails" % f[1:])
                continue
            n += 1
            k = is_err(o.st, o.val) if ret else False
            if f != ("ok",) and k is not True:
                bad.setdefault("swallowed", "the failure of %s at %s %s" % (f[1:] + ("is turned into success" if ret else "is dropped",)))
            if f == ("ok",) and ret and k is not False and not r.path.replace("<", "").startswith(MAY_REJECT):
                bad.setdefault("spurious", "fails although nothing it calls failed")
        rep.count("outcomes", n)
        rep.count("fallible call sites", len(e.sites))
        rep.ob("failures are passed on", where, not bad, "; ".join(bad.values()), "%r|%s" % (r, ",".join(sorted(bad))))


if __name__ == "__main__":
    import sys, mir, time
    from report import Report
    progs = mir.load()
    rep = Report("C05", "quick")
    t = time.time()
    check(progs, rep)
    for o in rep.obls:
        if not o[2]: print(o[2], o[0], "|", o[1][:110], "|", o[3][:300] if not o[2] else "")
    print(len(rep.obls), rep.counts, time.time() - t)
