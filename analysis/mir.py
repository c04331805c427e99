"""Typed view over the extracted facts."""
import facts as F


class Inst:
    __slots__ = ("ix", "j", "prog", "path", "name", "kind", "argc", "blocks", "locals", "targs", "trait", "self_s",
                 "has_body", "crate", "_live", "_preds", "_heads", "_addr", "local")

    def __init__(self, prog, ix, j):
        self.ix, self.j, self.prog = ix, j, prog
        d = prog.defs[j["def"]]
        self.path = d["path"]
        self.name = d["name"]
        self.trait = d["trait"]
        self.crate = d["crate"]
        self.local = d["local"]
        self.self_s = prog.types[d["self"]]["s"] if d["self"] is not None else None
        self.kind = j["kind"]
        self.targs = tuple(prog.types[t]["s"] for t in j["args"])
        self.has_body = "blocks" in j
        if self.has_body:
            self.argc = j["argc"]
            self.blocks = j["blocks"]
            self.locals = j["locals"]
        self._live = self._preds = self._heads = self._addr = None

    def __repr__(self):
        return "%s<%s>" % (self.path, ", ".join(self.targs))

    def span(self):
        s = self.j.get("span")
        return "%s:%d" % (s[0], s[1]) if s else "?"


class Program:
    def __init__(self, j):
        self.j = j
        self.types = j["types"]
        self.defs = j["defs"]
        self.adts = {a["path"]: a for a in j["adts"]}
        self.adt_by_def = {a["def"]: a for a in j["adts"]}
        self.insts = []
        for ix, x in enumerate(j["insts"]):
            self.insts.append(Inst(self, ix, x) if x else None)
        self.roots = [self.insts[i] for i in j["roots"]]
        self.by_path = {}
        for i in self.insts:
            if i is not None:
                self.by_path.setdefault(i.path, []).append(i)
        self.root_by_path = {}
        for r in self.roots:
            self.root_by_path.setdefault(r.path, []).append(r)
        self.statics = {s["def"]: s for s in j["statics"] if s}
        self.impls = j["impls"]

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]["s"]

    def adt_of(self, ti):
        t = self.types[ti]
        return self.adt_by_def[t["def"]] if t["k"] == "adt" else None

    # ---- pretty printing -------------------------------------------------
    def fmt_place(self, p):
        s = "_%d" % p[0]
        for e in p[1]:
            if e == "*":
                s = "(*%s)" % s
            elif e[0] == "f":
                s += ".%d" % e[1]
            elif e[0] == "d":
                s = "(%s as v%d)" % (s, e[1])
            else:
                s += str(e)
        return s

    def fmt_const(self, c):
        v = c["v"]
        if "fn" in v:
            d = self.defs[v["fn"]]
            r = ""
            if v["inst"] is not None:
                i = self.insts[v["inst"]]
                r = " => #%d %s %s%s" % (v["inst"], v["rk"], i, "" if i.has_body else " [nobody]")
            else:
                r = " => " + v["rk"]
            return "fn %s<%s>%s" % (d["path"], ", ".join(self.tys(a) for a in v["args"]), r)
        return "const %s: %s" % (v, self.tys(c["ty"]))

    def fmt_op(self, o):
        if o[0] in "cm":
            return ("move " if o[0] == "m" else "") + self.fmt_place(o[1])
        if o[0] == "k":
            return self.fmt_const(o[1])
        return str(o)

    def fmt_rv(self, r):
        k = r[0]
        if k == "use":
            return self.fmt_op(r[1])
        if k in ("ref", "reborrow"):
            return "&%s%s" % ("mut " if r[1] else "", self.fmt_place(r[2]))
        if k == "raw":
            return "&raw %s" % self.fmt_place(r[2])
        if k == "discr":
            return "discr(%s)" % self.fmt_place(r[1])
        if k == "bin":
            return "%s(%s, %s)" % (r[1], self.fmt_op(r[2]), self.fmt_op(r[3]))
        if k == "un":
            return "%s(%s)" % (r[1], self.fmt_op(r[2]))
        if k == "cast":
            return "%s as %s [%s]" % (self.fmt_op(r[2]), self.tys(r[3]), r[1])
        if k == "agg":
            kk = r[1]
            n = kk[0]
            if n == "adt":
                n = "%s::v%d" % (self.defs[kk[1]]["path"], kk[2])
            if n == "closure":
                n = "closure#%d" % kk[2]
            return "%s{%s}" % (n, ", ".join(self.fmt_op(o) for o in r[2]))
        return str(r)

    def show(self, inst):
        out = ["fn #%d %r (%s) %s" % (inst.ix, inst, inst.kind, inst.span())]
        if not inst.has_body:
            return out[0] + " <no body>"
        for i, t in enumerate(inst.locals):
            out.append("  _%d: %s" % (i, self.tys(t)))
        for n, p in inst.j["names"]:
            out.append("  debug %s => %s" % (n, self.fmt_place(p)))
        for bi, b in enumerate(inst.blocks):
            if b["cleanup"]:
                continue
            out.append(" bb%d:" % bi)
            for s in b["s"]:
                if s[0] == "=":
                    out.append("    %s = %s" % (self.fmt_place(s[1]), self.fmt_rv(s[2])))
                else:
                    out.append("    %s" % s)
            t = b["t"]
            if t[0] == "call":
                out.append("    %s = CALL %s(%s) -> %s  @%s" % (self.fmt_place(t[3]), self.fmt_op(t[1]),
                           ", ".join(self.fmt_op(a) for a in t[2]), t[4], t[5]))
            elif t[0] == "switch":
                out.append("    switch %s %s else %s" % (self.fmt_op(t[1]), t[2], t[3]))
            else:
                out.append("    %s" % t)
        for k, p in enumerate(inst.j.get("promoted", [])):
            out.append(" promoted %d: %s" % (k, p["blocks"]))
        return "\n".join(out)


def load():
    j = F.extract()
    return {c: Program(x) for c, x in j.items()}


if __name__ == "__main__":
    import sys
    ps = load()
    crate, pat = sys.argv[1], sys.argv[2]
    p = ps[crate]
    for i in p.insts:
        if i and pat in repr(i) and (len(sys.argv) < 4 or i.has_body):
            print(p.show(i) if len(sys.argv) > 3 else repr((i.ix, i, i.kind, i.has_body)))
