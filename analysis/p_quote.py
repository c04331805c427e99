"""C07: quoted text decodes back to the original characters, per language."""
import absint
from absint import *
import models

KNOWN = {
    "lang::c::C": "c", "lang::csharp::Csharp": "csharp", "lang::dart::Dart": "dart", "lang::go::Go": "go",
    "lang::java::Java": "java", "lang::js::JavaScript": "js", "lang::nix::Nix": "nix", "lang::python::Python": "python",
    "lang::rust::Rust": "rust", "lang::swift::Swift": "swift",
}


def lang_impls(prog, name):
    """{lang path: inst} of the method `name` of every local impl of genco's Lang."""
    out = {}
    for r in prog.insts:
        if r is None or not r.has_body or r.name != name or not r.local:
            continue
        if r.trait and r.trait.endswith("lang::Lang") and r.self_s:
            out[r.self_s.replace("genco::", "")] = r
    return out


class Quote:
    """Runs write_quoted on an opaque string and collects what is written for which characters."""

    def __init__(self, prog):
        self.prog = prog
        self.eng = Engine(prog, intercepts=[self.intercept])
        self.eng.on_write = self.on_write
        self.eng.on_event = self.on_event
        self.emits = {}      # (charset, ahead, pieces) -> where
        self.bad = []
        self.parts = None    # where parts of the input are gone through, which are not told from the input

    IN = sym("in")
    OUT = sym("out")

    def intercept(self, call):
        if call.args and (call.inst is None or not call.inst.has_body):
            n = call.d["name"]
            a = strip(call.st, call.args[0])
            if n == "is_empty" and a == self.IN:
                e = call.st.ghost.get("inempty")
                if e is None:
                    def known(b):
                        def f(s):
                            s.ghost["inempty"] = b
                        return f
                    raise Fork([known(True), known(False)])
                return call.done(boolean(e))
            if n not in PLAIN and mentions(a, self.IN):
                # what is found out about the whole input is not followed
                call.st.ghost["looked"] = True
        if call.d["name"] in ("write_str", "write_char") and call.args and strip(call.st, call.args[0]) == self.OUT:
            v = strip(call.st, call.args[1])
            if call.d["name"] == "write_char":
                v = ("s", chr(v[1])) if v[0] == "ch" else ("str1", v)
            return self.on_write(call.eng, call.st, self.OUT, deep(call.st, v), call.dest, call.ret, call.cont, call.site, "")
        return NotImplemented

    def on_write(self, eng, st, target, v, dest, ret, cont, site, tb):
        if strip(st, target) != self.OUT:
            return NotImplemented
        cur = st.ghost.get("cur")
        v = freeze_chars(st, v)
        if cur is None:
            if v == self.IN:
                st.ghost["whole"] = st.ghost.get("whole", 0) + 1
            elif mentions(v, self.IN) or st.ghost.get("parts"):
                self.parts = site
            else:
                self.bad.append(("text written that belongs to no input character: %r" % (v,), site))
        else:
            st.ghost["cur"] = (cur[0], cur[1] + (v,))
            if len(cur[1]) > 12:
                raise Imprecise("unbounded output for one character")
        st.ghost["site"] = tuple(site) if site else None
        return eng.deliver(st, ok(), dest, ret, cont)

    def on_event(self, call, ev):
        st = call.st
        if ev[0] in ("iter_next", "iter_elem", "iter_end") and ev[1] != ("chars", self.IN):
            if mentions(ev[1], self.IN):
                self.parts = self.parts or call.site
                st.ghost["parts"] = True
            return
        peek_ = call.cont is not None and call.cont[0] == "peek"
        if ev[0] == "iter_next":
            if not peek_:
                self.flush(st)
        elif ev[0] == "iter_elem":
            if peek_:
                st.ghost["ahead"] = ("char", ev[2])
            else:
                st.ghost["cur"] = (ev[2], ())
                st.ghost["ahead"] = None
        elif ev[0] == "iter_end":
            if peek_:
                st.ghost["ahead"] = ("end",)
            else:
                st.ghost["done"] = True
        elif ev[0] == "iter_take":
            self.flush(st)
            v = ev[1]
            if v[2] == 0:
                st.ghost["done"] = True
            else:
                st.ghost["cur"] = (strip(st, v[3][0]), ())
            st.ghost["ahead"] = None

    def flush(self, st):
        cur = st.ghost.pop("cur", None)
        ahead = st.ghost.get("ahead")
        site = st.ghost.pop("site", None)
        if cur is None:
            return
        c, pieces = cur
        cs = ((c[1], c[1]),) if c[0] == "ch" else st.charset(c[1])
        if ahead is None:
            a = "any"
        elif ahead[0] == "end":
            a = "end"
        else:
            x = ahead[1]
            a = ((x[1], x[1]),) if x[0] == "ch" else st.charset(x[1])
        name = c[1] if c[0] == "sym" else None
        self.emits.setdefault((cs, a, canon(pieces, name)), site)

    def run(self, inst):
        outs = self.eng.run(inst, [self.OUT, self.IN])
        for o in outs:
            if o.kind == "ret":
                self.flush(o.st)
                w = o.st.ghost.get("whole", 0)
                if w and o.st.ghost.get("looked"):
                    self.parts = "the input is written as a whole after a look at it"
                elif w == 1 and not o.st.ghost.get("done"):
                    self.emits.setdefault((ALLCH, "any", (("self",),)), None)
                elif w and o.st.ghost.get("done"):
                    self.parts = "the input is written as a whole after a look at its characters"
                elif not w and o.st.ghost.get("inempty"):
                    pass
                elif w or not o.st.ghost.get("done"):
                    self.bad.append(("returns without having gone through the whole input", None))
            elif o.kind == "panic":
                self.bad.append(("can panic: %s" % (o.info,), o.info[1]))
        if self.parts:
            raise Imprecise("goes through parts of the input: %s" % (self.parts,))
        return self


PLAIN = {"chars", "next", "peek", "peekable", "into_iter", "by_ref", "write_str", "write_char", "deref", "as_ref", "as_str", "borrow", "clone", "fmt", "branch", "from"}


def mentions(v, x):
    return v == x or isinstance(v, tuple) and any(mentions(y, x) for y in v)


def freeze_chars(st, v):
    return v


def canon(pieces, name):
    """Rename the character to `self`, split into atoms."""
    out = []
    for p in pieces:
        if p[0] == "s":
            out.extend(("lit", c) for c in p[1])
        elif p[0] == "str1":
            out.append(("self",) if p[1] == ("sym", name) else ("?", p))
        elif p[0] == "fmt" and p[1] in ("lower_hex", "upper_hex", "octal"):
            v = p[2]
            what = None
            if v[0] == "i":
                if len(v[2]) == 1 and v[1] == 0 and v[2][0][1] == 1:
                    s = v[2][0][0]
                    what = {("ord", name): "ord", ("u16hi", name): "hi", ("u16lo", name): "lo"}.get(s)
                elif not v[2]:
                    what = ("const", v[1])
            zero = bool(p[3] & (1 << 24))
            alt = bool(p[3] & (1 << 23))
            out.append(("num", p[1], what, p[4] or 0, zero, alt))
        elif p[0] == "disp" and p[1][0] == "i" or p[0] == "i":
            v = p[1] if p[0] == "disp" else p
            ok_ = v[0] == "i" and len(v[2]) == 1 and v[1] == 0 and v[2][0] == (("ord", name), 1)
            out.append(("num", "decimal", "ord" if ok_ else None, 0, False, False))
        else:
            out.append(("?", p))
    return tuple(out)


def render(atoms, cp):
    """The output for the character cp; None if it is not determined by cp."""
    s = ""
    for a in atoms:
        if a[0] == "lit":
            s += a[1]
        elif a[0] == "self":
            s += chr(cp)
        elif a[0] == "num":
            _, base, what, width, zero, alt = a
            if what is None:
                return None
            if isinstance(what, tuple):
                n = what[1]
            elif what == "ord":
                n = cp
            elif what == "hi":
                n = 0xD800 + ((cp - 0x10000) >> 10)
            else:
                n = 0xDC00 + ((cp - 0x10000) & 0x3FF)
            d = {"lower_hex": "%x", "upper_hex": "%X", "octal": "%o", "decimal": "%d"}[base] % n
            if alt:
                d = {"lower_hex": "0x", "upper_hex": "0x", "octal": "0o", "decimal": ""}[base] + d
            s += d.rjust(width, "0" if zero else " ")
        else:
            return None
    return s


HEX = set("0123456789abcdefABCDEF")
OCT = set("01234567")


class Bad(Exception):
    pass


def hexrun(s, i, lo, hi):
    j = i
    while j < len(s) and j - i < hi and s[j] in HEX:
        j += 1
    if j - i < lo:
        raise Bad("malformed hexadecimal escape in %r" % s)
    return int(s[i:j], 16), j


# simple escapes: language -> {escape letter: code point}
SIMPLE = {
    "c": {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "'": 39, '"': 34, "\\": 92, "?": 63},
    "csharp": {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "'": 39, '"': 34, "\\": 92, "0": 0},
    "java": {"b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "'": 39, '"': 34, "\\": 92, "s": 32},
    "go": {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, '"': 34, "\\": 92},
    "python": {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "'": 39, '"': 34, "\\": 92},
    "rust": {"n": 10, "r": 13, "t": 9, "\\": 92, "0": 0, "'": 39, '"': 34},
    "swift": {"0": 0, "\\": 92, "t": 9, "n": 10, "r": 13, '"': 34, "'": 39},
    "js": {"b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11},
    "dart": {"b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11},
    "nix": {"n": 10, "r": 13, "t": 9},
}
# characters that may not stand for themselves between the delimiters
RAW_BAD = {
    "c": '"\\\n\r\0', "csharp": '"\\\n\r\u0085\u2028\u2029', "java": '"\\\n\r', "go": '"\\\n\0\ufeff', "python": '"\\\n\r\0',
    "rust": '"\\\r', "swift": '"\\\n\r\0', "js": '"\\\n\r`', "dart": '"\\\n\r$', "nix": '"\\',
}


def decode(lang, s):
    """Decode the inside of a string literal; returns the list of code points (UTF-16 units for java/js/dart/C#).
    Raises Bad if it is not the inside of a well-formed literal without interpolation."""
    out = []
    i = 0
    u16 = lang in ("java", "js", "dart", "csharp")

    def put(cp):
        if cp > 0x10FFFF:
            raise Bad("code point out of range")
        if u16 and cp >= 0x10000:
            cp -= 0x10000
            out.append(0xD800 + (cp >> 10))
            out.append(0xDC00 + (cp & 0x3FF))
        else:
            out.append(cp)
    while i < len(s):
        c = s[i]
        if c != "\\":
            if c in RAW_BAD[lang]:
                raise Bad("%r stands for itself" % c)
            if lang in ("js", "nix") and c == "$" and s[i + 1:i + 2] == "{":
                raise Bad("interpolation starts in %r" % s)
            put(ord(c))
            i += 1
            continue
        if i + 1 >= len(s):
            raise Bad("dangling backslash")
        e = s[i + 1]
        i += 2
        if lang == "java" and e == "u":
            # translated before the literal is even lexed
            while s[i:i + 1] == "u":
                i += 1
            v, j = hexrun(s, i, 4, 4)
            if v in (10, 13, 34, 92):
                raise Bad("unicode escape of a character that is significant to the lexer")
            i = j
            put(v)
            continue
        if lang == "java" and e in OCT:
            j = i - 1
            mx = 3 if e in "0123" else 2
            while j < len(s) and j - i + 1 < mx and s[j] in OCT:
                j += 1
            put(int(s[i - 1:j], 8))
            i = j
            continue
        if lang in ("c", "python", "go") and e in OCT:
            j = i - 1
            while j < len(s) and j - (i - 1) < 3 and s[j] in OCT:
                j += 1
            v = int(s[i - 1:j], 8)
            if lang == "go" and j - (i - 1) != 3:
                raise Bad("short octal escape")
            if lang in ("c", "go") and v >= 0x80:
                raise Bad("octal escape denotes a byte")
            put(v)
            i = j
            continue
        if e == "x" and lang not in ("java", "swift", "nix"):
            if lang == "c":
                v, i = hexrun(s, i, 1, 10 ** 6)
                if v >= 0x80:
                    raise Bad("hex escape denotes a byte")
            elif lang == "csharp":
                v, i = hexrun(s, i, 1, 4)
            else:
                v, i = hexrun(s, i, 2, 2)
                if lang in ("rust", "go") and v >= 0x80:
                    raise Bad("hex escape denotes a byte or is invalid")
            put(v)
            continue
        if e == "u":
            if lang in ("rust", "swift") or (lang in ("js", "dart") and s[i:i + 1] == "{"):
                if s[i:i + 1] != "{":
                    raise Bad("malformed unicode escape")
                v, j = hexrun(s, i + 1, 1, 8 if lang == "swift" else 6)
                if s[j:j + 1] != "}":
                    raise Bad("malformed unicode escape")
                i = j + 1
                if lang in ("rust", "swift") and 0xD800 <= v <= 0xDFFF:
                    raise Bad("surrogate")
                put(v)
                continue
            if lang == "nix":
                put(ord("u"))
                continue
            v, i = hexrun(s, i, 4, 4)
            if lang in ("go", "c", "python") and 0xD800 <= v <= 0xDFFF:
                raise Bad("surrogate")
            if lang == "c" and v < 0xA0 and v not in (0x24, 0x40, 0x60):
                raise Bad("universal character name below U+00A0")
            put(v)
            continue
        if e == "U" and lang in ("c", "csharp", "go", "python"):
            v, i = hexrun(s, i, 8, 8)
            if 0xD800 <= v <= 0xDFFF or v > 0x10FFFF:
                raise Bad("not a scalar value")
            if lang == "c" and v < 0xA0 and v not in (0x24, 0x40, 0x60):
                raise Bad("universal character name below U+00A0")
            put(v)
            continue
        if e in SIMPLE[lang]:
            put(SIMPLE[lang][e])
            continue
        if lang == "js":
            if e == "0" and not s[i:i + 1].isdigit():
                put(0)
                continue
            if e in "0123456789":
                raise Bad("legacy octal escape")
            if e in "\n\r\u2028\u2029":
                raise Bad("line continuation")
            put(ord(e))
            continue
        if lang in ("dart", "nix"):
            if lang == "dart" and e in "\n\r":
                raise Bad("escaped line break")
            put(ord(e))
            continue
        raise Bad("invalid escape \\%s" % e)
    return out


def expect(lang, cp):
    if lang in ("java", "js", "dart", "csharp") and cp >= 0x10000:
        cp -= 0x10000
        return [0xD800 + (cp >> 10), 0xDC00 + (cp & 0x3FF)]
    return [cp]


# characters for which the language has no representation at all
UNREPRESENTABLE = {"nix": {0}, }

# every bound at which the meaning of the output can change
def cell_bounds(lang):
    b = {0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 0x1F, 0x20, 0x7F, 0x80, 0xA0, 0x85, 0x86, 0x100, 0x1000, 0x10, 0x40, 0x8, 0x200, 0x2028, 0x2029,
         0x202A, 0xFEFF, 0xFF00, 0x10000, 0x100000, 0xD800, 0xE000, 64, 512, 4096, 32768, 1000, 10, 100, 10000, 100000,
         1000000, 0x110000}
    for c in range(0x21, 0x80):
        b.add(c)
    return b


def cells(cs, bounds):
    bs = sorted(bounds)
    for lo, hi in cs:
        p = lo
        for x in bs:
            if p < x <= hi:
                yield p, x - 1
                p = x
        yield p, hi


def check_lang(rep, prog, path, lang, inst):
    q = Quote(prog)
    where = "%s (%s)" % (path, inst.span())
    try:
        q.run(inst)
    except Imprecise as e:
        rep.ob("followable", where, False, "cannot follow write_quoted: %s" % e, "imprecise|%s" % path)
        return
    rep.count("states", q.eng.nstates)
    rep.ob("whole input, nothing else", where, not q.bad, "; ".join("%s at %s" % b for b in q.bad[:5]), "extra|%s" % path)
    # every character is covered
    cov = cs_norm([r for (cs, a, p) in q.emits for r in cs])
    missing = cs_inter(cs_compl(cov), ALLCH)
    rep.ob("every character written", where, not missing, "no output for %s" % (missing[:5],), "missing|%s" % path)
    # first characters that may follow
    starts = {}
    for (cs, a, atoms), site in q.emits.items():
        for lo, hi in cells(cs, cell_bounds(lang)):
            for cp in {lo, hi}:
                r = render(atoms, cp)
                if r:
                    starts.setdefault(r[0], cp)
    tails_any = sorted(starts)
    for (cs, a, atoms), site in sorted(q.emits.items(), key=repr):
        if lang == "nix":
            pass
        rn = "%s chars %s" % (where, ["%x-%x" % r for r in cs[:4]])
        n = 0
        fail = None
        for lo, hi in cells(cs, cell_bounds(lang)):
            if 0xD800 <= lo <= hi <= 0xDFFF:
                continue
            for cp in sorted({lo, hi, (lo + hi) // 2}):
                if 0xD800 <= cp <= 0xDFFF or cp in UNREPRESENTABLE.get(lang, ()):
                    continue
                n += 1
                s = render(atoms, cp)
                if s is None:
                    fail = (cp, "output not determined by the character: %r" % (atoms,))
                    break
                fail = judge(lang, s, cp, a, q, starts)
                if fail:
                    break
            if fail:
                break
        rep.count("cells", n)
        rep.ob("decodes back", rn, not fail, "" if not fail else "U+%04X at %s: %s" % (fail[0], site, fail[1]),
               "decode|%s|%s" % (path, "%04X" % fail[0] if fail else ""))


def judge(lang, s, cp, ahead, q, starts):
    try:
        got = decode(lang, s)
    except Bad as e:
        return cp, "%r: %s" % (s, e)
    want = expect(lang, cp)
    if got != want:
        return cp, "%r decodes to %s" % (s, ["U+%04X" % x for x in got])
    # followed by anything that may come next
    nxt = []
    if ahead == "any":
        nxt = [(x, c) for c, x in starts.items()]
    elif ahead == "end":
        # another piece of text may be quoted right after this one
        nxt = [(x, c) for c, x in starts.items()]
    else:
        for c, x in starts.items():
            pass
        seen = set()
        for (cs, a2, atoms) in q.emits:
            inter = cs_inter(cs, ahead)
            for lo, hi in cells(inter, cell_bounds(lang)):
                for x in {lo, hi}:
                    r = render(atoms, x)
                    if r and r[0] not in seen:
                        seen.add(r[0])
                        nxt.append((x, r[0]))
    for x, c in sorted(nxt):
        # the following character's own rendering
        tails = follow(q, x, c)
        for t in tails:
            try:
                g2 = decode(lang, s + t)
            except Bad as e:
                return cp, "%r followed by %r: %s" % (s, t, e)
            if g2 != want + expect(lang, x):
                return cp, "%r followed by %r decodes to %s" % (s, t, ["U+%04X" % y for y in g2])
    return None


def follow(q, x, c):
    out = []
    for (cs, a, atoms) in q.emits:
        if cs_inter(cs, ((x, x),)):
            r = render(atoms, x)
            if r and r[0] == c:
                out.append(r)
    return out


def check(progs, rep):
    prog = progs["genco"]
    impls = lang_impls(prog, "write_quoted")
    for path, lang in sorted(KNOWN.items()):
        inst = impls.get(path)
        if inst is None:
            rep.ob("anchored", path, False, "no write_quoted for %s" % path, "anchor|%s" % path)
            continue
        check_lang(rep, prog, path, lang, inst)
    for p in sorted(set(impls) - set(KNOWN)):
        rep.note("no reference grammar for %s: not judged" % p)
