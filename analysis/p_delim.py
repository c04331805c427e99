"""C08, per language: the delimiters of strings and interpolations, and what is written for interpolated literals."""
from absint import *
import models
from p_quote import lang_impls

# language -> (delimiters of plain strings, of interpolating ones, of interpolations, short form); by the language references
TABLE = {
    "c": ('"', None, None, None), "csharp": ('"', None, None, None), "go": ('"', None, None, None),
    "java": ('"', None, None, None), "nix": ('"', None, None, None), "python": ('"', None, None, None),
    "rust": ('"', None, None, None), "swift": ('"', None, None, None),
    "dart": ('"', '"', ("${", "}"), "$"), "js": ('"', "`", ("${", "}"), None),
}
IDSTART = cs_norm([(0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a)])
IDPART = cs_norm([(0x30, 0x39)] + list(IDSTART))
OUT = sym("out")


class Writes:
    def __init__(self, prog):
        self.eng = Engine(prog, intercepts=[self.intercept])
        self.eng.on_write = self.on_write

    def intercept(self, call):
        if call.d["name"] in ("write_str", "write_char") and call.args and strip(call.st, call.args[0]) == OUT:
            v = strip(call.st, call.args[1])
            if call.d["name"] == "write_char":
                v = ("s", chr(v[1])) if v[0] == "ch" else ("str1", v)
            return self.on_write(call.eng, call.st, OUT, v, call.dest, call.ret, call.cont, call.site, "")
        return NotImplemented

    def on_write(self, eng, st, target, v, dest, ret, cont, site, tb):
        if strip(st, target) != OUT:
            return NotImplemented
        v = deep(st, v)
        st.ghost["out"] = st.ghost.get("out", ()) + tuple(v[2] if v[:2] == ("o", "str") else (v,))
        if len(st.ghost["out"]) > 40:
            raise Imprecise("unbounded output")
        return eng.deliver(st, ok(), dest, ret, cont)

    def run(self, inst, args):
        """[(pieces, state)]"""
        r = []
        for o in self.eng.run(inst, args):
            if o.kind == "panic":
                r.append((("panics: %s" % (o.info[0],),), o.st))
            elif o.kind == "ret":
                out = []
                for x in o.st.ghost.get("out", ()):
                    if x[0] == "s" and out and out[-1][0] == "s":
                        out[-1] = ("s", out[-1][1] + x[1])
                    elif x != ("s", ""):
                        out.append(x)
                r.append((tuple(out), o.st))
        return r


def method(prog, path, name):
    own = lang_impls(prog, name).get(path)
    if own is not None:
        return own
    for r in prog.insts:
        if r is not None and r.has_body and r.path.endswith("lang::Lang::" + name) and r.targs and r.targs[0].replace("genco::", "") == path:
            return r
    return None


def shown(out):
    return "".join(x[1] if x[0] == "s" else "<%s>" % (x[1],) if isinstance(x, tuple) else str(x) for x in out)


def delims(rep, prog, path, lang):
    plain, interp, ev, short = TABLE[lang]
    for has, want in ((False, plain), (True, interp)):
        if want is None:
            continue
        for name in ("open_quote", "close_quote"):
            inst = method(prog, path, name)
            w = Writes(prog)
            rs = {x[0] for x in w.run(inst, [OUT, sym("config"), sym("format"), boolean(has)])}
            rep.ob("delimiters", "%s %s(%s)" % (path, name, has), rs == {(("s", want),)},
                   "writes %s instead of %s" % (sorted(map(shown, rs)), want), "delim|%s|%s|%s" % (path, name, has))
    if ev is None:
        return
    for name, want in (("start_string_eval", ev[0]), ("end_string_eval", ev[1])):
        rs = {x[0] for x in Writes(prog).run(method(prog, path, name), [OUT, sym("config"), sym("format")])}
        rep.ob("delimiters", "%s %s" % (path, name), rs == {(("s", want),)},
               "writes %s instead of %s" % (sorted(map(shown, rs)), want), "delim|%s|%s" % (path, name))
    inst = method(prog, path, "string_eval_literal")
    merges = False
    for n in range(0, 4):
        cs = [sym("lit", i) for i in range(n)]
        lit = ("o", "str", tuple(("str1", c) for c in cs)) if n else ("s", "")
        w = Writes(prog)
        bad = None
        rs = w.run(inst, [OUT, sym("config"), sym("format"), lit])
        for out, st in rs:
            body = tuple(("str1", c) for c in cs)
            if out == (("s", ev[0]),) + body + (("s", ev[1]),) or not n and out == (("s", ev[0] + ev[1]),):
                continue
            if short and out == (("s", short),) + body:
                sets = [st.charset(c[1]) for c in cs]
                merges = True
                if not n:
                    bad = "nothing is interpolated"
                elif cs_inter(sets[0], cs_compl(IDSTART)) or any(cs_inter(s, cs_compl(IDPART)) for s in sets[1:]):
                    bad = "the short form is written for text that is no identifier, such as %s" % (
                        [chr(example(s, IDSTART if i == 0 else IDPART)) for i, s in enumerate(sets)],)
                continue
            bad = "writes %s" % shown(out)
        rep.ob("interpolated literals", "%s: %d arbitrary characters" % (path, n), bool(rs) and not bad, bad or "no result",
               "evallit|%s|%d" % (path, n))
    if short:
        rep.ob("interpolations end where their content ends", path, not merges,
               "`%s` and an identifier, when characters of identifiers follow it in the string, is a longer identifier" % short,
               "evalmerge|%s" % path)


def example(cs, allowed):
    x = cs_inter(cs, cs_compl(allowed)) or cs
    return x[0][0]


def check(prog, rep):
    from p_quote import KNOWN
    for path, lang in sorted(KNOWN.items()):
        try:
            delims(rep, prog, path, lang)
        except Imprecise as e:
            rep.ob("delimiters", path, False, "cannot follow: %s" % e, "imprecise|%s" % path)
    names = set()
    for im in prog.impls:
        if im["trait"].endswith("lang::LangSupportsEval"):
            names.add(prog.types[im["self"]]["s"].replace("genco::", ""))
    for p in sorted(names):
        lang = KNOWN.get(p)
        if lang is None:
            rep.note("no reference grammar for %s" % p)
            continue
        rep.ob("interpolation is only offered where strings can interpolate", p, TABLE[lang][2] is not None,
               "strings as they are written for this language cannot interpolate", "supports|%s" % p)
