"""The macros' view of the world: token streams, parse buffers and spans, as models of proc_macro2, quote and syn.

Tokens of the input are (kind, payload, (start line, start column, end line, end column)):
  p punctuation, id identifier, kw keyword, lstr string literal, lchar character literal, g group (delimiter, tokens),
  tt any other token, and - as one token each, whatever is in it - x expression, pat pattern, attr attribute, raw statements."""
import models
from absint import *
from exact import *

DELIMS = {"Paren": "(", "Brace": "{", "Bracket": "["}
PUNCT = {"Dollar": "$", "FatArrow": "=>", "Comma": ",", "Underscore": "_", "Eq": "=", "Pound": "#", "Colon": ":", "Semi": ";"}
PUSH = {"push_dot": ".", "push_colon2": "::", "push_colon": ":", "push_semi": ";", "push_eq": "=", "push_comma": ",", "push_fat_arrow": "=>",
        "push_rarrow": "->", "push_and": "&", "push_and_and": "&&", "push_or": "|", "push_or_or": "||", "push_star": "*", "push_lt": "<",
        "push_gt": ">", "push_underscore": "_", "push_bang": "!", "push_pound": "#", "push_eq_eq": "==", "push_ne": "!=", "push_add": "+",
        "push_add_eq": "+=", "push_sub": "-", "push_question": "?", "push_dot2": "..", "push_dot_dot_eq": "..=", "push_le": "<=", "push_ge": ">="}
KW = ("If", "Else", "For", "In", "Match", "Let", "Ref", "Const", "While", "Loop")


def leaf(*n):
    return ("sym", ("leaf",) + n)


def ts(atoms=()):
    return ("o", "ts", tuple(atoms))


def tok_type(t):
    """last segment of the token type in `fn(TokenMarker) -> T {..}` or `T`"""
    if "->" in t:
        t = t.split("->", 1)[1].split("{")[0]
    return models.base(t.strip())


TRIMS = {"trim": "strip", "trim_start": "lstrip", "trim_end": "rstrip", "trim_matches": "strip", "trim_start_matches": "lstrip", "trim_end_matches": "rstrip"}


class MacroEng:
    def __init__(self, prog):
        self.prog = prog
        self.ex = Exact(prog, intercepts=[self.intercept])
        self.eng = self.ex.eng
        self.eng.list_max = 1000
        self.eng.resume_tokens = self.resume_tokens
        self.ex.shown = self.shown
        self.eng.seconds = 45           # one source
        opaque = self.eng.opaque

        def strict(call):
            # a guess about what is not modelled could look like a defect
            if not call.key.endswith("::drop"):
                raise Imprecise("call of %s" % call.key)
            return opaque(call)
        self.eng.opaque = strict
        self.eng.recursion_max = 8
        self.spans = {}

    # ------------------------------------------------------------- buffers
    def buf(self, st, toks, fork=False):
        b = st.ghost.get("bufs", ())
        st.ghost["bufs"] = b + ((tuple(toks), 0, fork),)
        return ("o", "pb", len(b))

    def look(self, st, v, k=0):
        v = strip(st, v)
        if v[:2] != ("o", "pb"):
            raise Imprecise("not a parse buffer: %s" % (str(v)[:80],))
        toks, i, _ = st.ghost["bufs"][v[2]]
        return toks[i + k] if i + k < len(toks) else None

    def advance(self, st, v, n=1):
        v = strip(st, v)
        bs = list(st.ghost["bufs"])
        toks, i, f = bs[v[2]]
        bs[v[2]] = (toks, i + n, f)
        st.ghost["bufs"] = tuple(bs)

    def leftover(self, st):
        return any(i < len(t) for t, i, f in st.ghost.get("bufs", ()) if not f)

    def is_tok(self, t, ty):
        if t is None:
            return False
        k, p = t[0], t[1]
        if ty in DELIMS:
            return k == "g" and p[0] == DELIMS[ty]
        if ty in PUNCT:
            return k == "p" and p == PUNCT[ty]
        if ty in KW:
            return k == "kw" and p == ty.lower()
        if ty == "Ident":
            return k == "id"
        if ty == "LitStr":
            return k == "lstr"
        if ty == "LitChar":
            return k == "lchar"
        if ty == "Lit":
            return k in ("lstr", "lchar")
        if ty == "TokenTree":
            return k in ("p", "id", "kw", "lstr", "lchar", "g", "tt")
        if ty == "Expr":
            return k in ("x", "lstr", "lchar", "id")
        if ty == "Pat":
            return k in ("pat", "id")
        if ty == "Attribute":
            return k == "attr"
        if ty.islower():
            return k == "id" and p == ty
        raise Imprecise("token type %s" % ty)

    def span(self, pos):
        return ("o", "span", tuple(pos))

    def tok_value(self, t, ty, path):
        k, p, pos = t
        sp = self.span(pos)
        if ty == "Ident":
            return ("o", "ident", p if isinstance(p, tuple) else ("s", p), sp)
        if ty == "LitStr":
            return ("o", "litstr", p, sp)
        if ty == "LitChar":
            return ("o", "litchar", p, sp)
        if ty == "TokenTree":
            return ("o", "tt", (k, p), sp)
        if ty in ("Expr", "Pat", "Attribute"):
            v = p if k in ("x", "pat", "attr") else ("sym", ("leaf", "token", k, p))
            self.spans[v] = sp
            return v
        if ty in PUNCT and ty != "Underscore":
            return ("adt", path, 0, (("arr", (sp,) * len(PUNCT[ty])),))
        return ("adt", path, 0, (sp,))

    def span_of(self, st, v):
        v = strip(st, v)
        if v[:2] == ("o", "span"):
            return v
        if v[0] == "o" and v[1] in ("ident", "litstr", "litchar", "tt"):
            return v[3]
        if v in self.spans:
            return self.spans[v]
        if v[0] == "adt" and v[3]:
            x = strip(st, v[3][0])
            if x[0] == "arr":
                a, b = strip(st, x[1][0]), strip(st, x[1][-1])
                return ("o", "span", a[2][:2] + b[2][2:]) if a[:2] == ("o", "span") else a
            return self.span_of(st, x) if x[0] in ("adt", "o", "sym") else sym("span")
        if v[:2] == ("o", "pb"):
            t = self.look(st, v)
            if t is None:
                return sym("scope_span")
            if t[0] == "g":
                l, c = t[2][:2]
                return self.span((l, c, l, aff_add(c, num(1))))
            return self.span(t[2])
        return sym("span")

    # ------------------------------------------------------------- calls
    def push(self, call, target, atoms):
        t = models.deref_place(call.st, target)
        if t is None:
            raise Imprecise("the token stream is not known")
        v = call.st.load(t[0], t[1])
        if v[:2] != ("o", "ts"):
            raise Imprecise("not a token stream: %s" % (str(v)[:80],))
        call.st.store(t[0], t[1], ts(v[2] + tuple(atoms)))
        return call.done(UNIT)

    def resume_tokens(self, call, k, v):
        """an iterator adapter that a token stream was extended from has been consumed"""
        call.cont, call.site = k[2], list(k[3]) if k[3] else None
        return self.push(call, k[1], [y for e in v[2] for y in self.atoms(call.st, e)])

    def atoms(self, st, v):
        v = strip(st, v)
        if v[0] == "o":
            if v[1] == "ts":
                return v[2]
            if v[1] == "ident":
                return (("i", v[2]),)
            if v[1] == "litstr":
                return (("lit", self.parts(st, v[2])),)
            if v[1] == "litchar":
                return (("char", v[2]),)
            if v[1] == "tt":
                return (("tok", v[2]),)
            if v[1] == "str":
                return (("lit", self.parts(st, v)),)
        if v[0] == "b":
            return (("i", ("s", "true" if v[1] else "false")),)
        if v[0] == "s":
            return (("lit", self.parts(st, v)),)
        if v[0] == "i" and not v[2]:
            return (("int", v[1]),)
        if v[0] == "ch":
            return (("char", v[1]),)
        if v[0] == "sym" and v[1][:1] == ("leaf",):
            return (("leaf", v),)
        if v[0] == "adt" and v[1].split("::")[-1] == "Path":
            r = []
            segs = strip(st, v[3][1])
            if segs[:2] != ("o", "list"):
                raise Imprecise("path of %s" % (str(segs)[:60],))
            for i, s in enumerate(segs[2]):
                r += ([("p", "::")] if i else []) + list(self.atoms(st, s))
            return tuple(r)
        if v[0] == "adt" and v[1].split("::")[-1] == "PathSegment":
            return self.atoms(st, v[3][0])
        if v[0] == "adt" and v[1].split("::")[-1] == "RepInterp":
            return self.atoms(st, v[3][0])
        if v[0] == "adt" and v[1] == OPTION:
            return self.atoms(st, v[3][0]) if v[3] else ()
        if v[0] == "box":
            return self.atoms(st, v[1])
        raise Imprecise("tokens of %s" % (str(v)[:100],))

    def parts(self, st, v):
        r = []
        for p in tparts(st, v):
            if p[:2] == ("o", "tt"):
                p = self.shown(p)
            elif p[:2] == ("o", "ident"):
                p = p[2]
            r += tparts(st, p)
        return models.norm_parts(tuple(r))

    def err(self, *n):
        return err(sym("error", *n))

    def intercept(self, call):
        st, d, n = call.st, call.d, call.name
        key = models.norm(call.key)
        tr = models.base(d["trait"]) if d["trait"] else None
        a = call.args
        local_body = call.inst is not None and call.inst.local and call.inst.has_body
        a0 = strip(st, a[0]) if a else None
        targs = [self.prog.tys(t) if isinstance(t, int) else t for t in call.targs]

        # ---- token streams
        if tr == "ToTokens" and n in ("to_tokens", "to_token_stream", "into_token_stream"):
            if local_body:
                return NotImplemented
            x = self.atoms(st, a0)
            return self.push(call, a[1], x) if n == "to_tokens" else call.done(ts(x))
        if not d["local"] and (d["crate"] == "quote" or call.key.startswith("quote::")):
            b = n[:-8] if n.endswith("_spanned") else n
            sp = 1 if n.endswith("_spanned") else 0
            if b in PUSH:
                return self.push(call, a[0], (("p", PUSH[b]),))
            if b == "push_ident":
                return self.push(call, a[0], (("i", strip(st, a[1 + sp])),))
            if b == "push_group":
                dl = strip(st, a[1 + sp])
                c = {0: "(", 1: "{", 2: "[", 3: ""}[dl[2]] if dl[0] == "adt" else None
                if c is None:
                    raise Imprecise("delimiter %s" % (dl,))
                return self.push(call, a[0], (("g", c, self.atoms(st, a[2 + sp])),))
            if b == "parse":
                t = tparts(st, a[1 + sp])
                if len(t) != 1 or t[0][0] != "s":
                    raise Imprecise("tokens from %s" % (t,))
                s = t[0][1]
                return self.push(call, a[0], (("int", int(s)),) if s.isdigit() else (("lit", (("s", s[1:-1]),)),) if s[:1] == '"' else (("i", ("s", s)),))
            if n == "append":
                return self.push(call, a[0], self.atoms(st, a[1]))
            if n in ("get_span", "__into_span"):
                return call.done(a0)
            if n == "quote_into_iter":
                return call.done(("tup", (models.make_iter(call, a[0]), UNIT)))
            if n in ("bitor", "check"):
                return call.done(UNIT)
        if n in ("bitor",) and targs and "HasIterator" in targs[0]:
            return call.done(UNIT)
        if key.startswith("TokenStream::") and n == "new" or tr == "Default" and targs[:1] == ["proc_macro2::TokenStream"]:
            return call.done(ts())
        if n == "is_empty" and a0[:2] == ("o", "ts"):
            return call.done(boolean(not a0[2]))
        if n == "extend" and a0 is not None and a0[:2] == ("o", "ts"):
            x = strip(st, a[1])
            if x[0] == "adt" and x[1] == OPTION and not x[3]:
                x = ts()
            if x[:2] == ("o", "ad"):
                c2 = models.sub(call, call.dest, call.ret, ("tokens", a[0], call.cont, tuple(call.site or ())))
                return models.drive(c2, x, ("collect", ("o", "list", ())))
            if x[:2] == ("o", "it") and x[2] == "list":
                x = ("o", "list", x[3])
            if x[:2] == ("o", "list"):
                return self.push(call, a[0], [y for e in x[2] for y in self.atoms(st, e)])
            return self.push(call, a[0], self.atoms(st, x))
        if n in ("from", "into") and a0 is not None and a0[:2] in (("o", "ts"), ("o", "ident"), ("o", "punct")):
            if a0[1] == "punct" and "TokenTree" in " ".join(targs):
                return call.done(("o", "tt", ("p", a0[2]), a0[3]))
            return call.done(a0)
        # ---- leaves of the output
        if call.key.startswith("proc_macro2::Ident::new") or key == "Ident::new":
            return call.done(("o", "ident", mktext(tparts(st, a[0])), strip(st, a[1])))
        if key == "LitStr::new":
            return call.done(("o", "litstr", mktext(tparts(st, a[0])), strip(st, a[1])))
        if key == "LitStr::token":
            # the literal as it is written
            t = tparts(st, a0[2])
            src = '"%s"' % t[0][1] if len(t) == 1 and t[0][0] == "s" and t[0][1].isalnum() else '""' if not t else None
            return call.done(("o", "littok", ("s", src) if src is not None else ("sym", ("source", t)), a0[3]))
        if a0 is not None and a0[:2] == ("o", "littok") and n in ("to_string", "fmt"):
            return call.done(a0[2])
        if n in TRIMS and call.key.startswith("core::str"):
            t = tparts(st, a0)
            c = strip(st, a[1]) if len(a) > 1 else None
            if not t or len(t) == 1 and t[0][0] == "s" and (c is None or c[0] == "ch"):
                x = t[0][1] if t else ""
                x = getattr(x, TRIMS[n])(*([chr(c[1])] if c else []))
                return call.done(("s", x))
            return call.done(("sym", ("trimmed", n, t)))
        if key == "LitStr::value":
            return call.done(a0[2])
        if key == "LitChar::value":
            return call.done(("ch", ord(a0[2])))
        if key == "Punct::new":
            return call.done(("o", "punct", chr(strip(st, a[0])[1]), sym("callsite")))
        if key in ("Punct::set_span", "Ident::set_span", "Group::set_span"):
            return call.done(UNIT)
        if n == "to_string" and a0[:2] == ("o", "ident"):
            return call.done(a0[2])
        if n in ("to_string",) and a0[:2] == ("o", "tt"):
            return call.done(self.shown(a0))
        if n == "fmt" and tr in ("Display",) and a0 is not None and a0[:2] in (("o", "tt"), ("o", "ident")):
            v = a0[2] if a0[1] == "ident" else self.shown(a0)
            return self.eng.write_piece(st, a[1], v, call.dest, call.ret, call.cont, call.site, models.base(self.prog.tys(call.arg_types()[1])) if call.arg_types()[1] is not None else "")
        if tr == "PartialEq" and a0 is not None and a0[:2] == ("o", "ident"):
            r = text_eq(st, a0[2], strip(st, a[1]))
            return call.done(boolean(r if n == "eq" else not r))
        if n == "clone" and a0 is not None and (a0[0] == "o" and a0[1] in ("ts", "ident", "litstr", "span", "tt", "punct") or a0[0] == "sym"):
            return call.done(a0)
        # ---- spans
        if key == "Span::unwrap":
            return call.done(a0)
        if key in ("Span::start", "Span::end") and a0[:2] == ("o", "span"):
            p = a0[2]
            q = p[:2] if n == "start" else p[2:]
            return call.done(("o", "span", q + q))
        if key in ("Span::line", "Span::column") and a0[:2] == ("o", "span"):
            return call.done(a0[2][0 if n == "line" else 1])
        if key == "Span::join":
            b = strip(st, a[1])
            if a0[:2] == ("o", "span") and b[:2] == ("o", "span"):
                return call.done(some(("o", "span", a0[2][:2] + b[2][2:])))
            return call.done(none())
        if key in ("Span::call_site", "Span::mixed_site"):
            return call.done(sym("callsite"))
        if n == "span" and (tr == "Spanned" or key in ("Ident::span", "TokenTree::span", "LitStr::span", "ParseBuffer::span", "Punct::span", "LitChar::span")):
            return call.done(self.span_of(st, a[0]))
        if n in ("open", "close") and key.startswith("DelimSpan") and a0[:2] == ("o", "span"):
            p, one = a0[2], num(1)
            return call.done(("o", "span", (p[0], p[1], p[0], aff_add(p[1], one)) if n == "open" else (p[2], aff_add(p[3], one, -1), p[2], p[3])))
        # ---- the input
        if a0 is not None and a0[:2] == ("o", "pb"):
            if n == "is_empty":
                return call.done(boolean(self.look(st, a0) is None))
            if n in ("peek", "peek2", "peek3"):
                ty = tok_type(targs[-1])
                return call.done(boolean(self.is_tok(self.look(st, a0, {"peek": 0, "peek2": 1, "peek3": 2}[n]), ty)))
            if n == "fork":
                toks, i, _ = st.ghost["bufs"][a0[2]]
                return call.done(self.buf(st, toks[i:], True))
            if n == "error":
                return call.done(sym("error"))
            if n in ("parse_braces", "parse_parens", "parse_brackets"):
                ty = {"parse_braces": "Brace", "parse_parens": "Paren", "parse_brackets": "Bracket"}[n]
                t = self.look(st, a0)
                if not self.is_tok(t, ty):
                    return call.done(self.err("expected", ty))
                self.advance(st, a0)
                b = self.buf(st, t[1][1])
                return call.done(ok(("adt", "syn::group::%ss" % ty, 0, (("adt", "syn::token::%s" % ty, 0, (self.span(t[2]),)), b))))
            if n == "parse_outer":
                r = []
                while self.is_tok(self.look(st, a0), "Attribute"):
                    r.append(self.look(st, a0)[1])
                    self.advance(st, a0)
                return call.done(ok(("o", "list", tuple(r))))
            if n == "call":
                f = self.prog.show and strip(st, a[1])
                nm = self.prog.defs[f[1]]["name"] if f[0] == "fn" else None
                if nm == "parse_outer":
                    r = []
                    while self.is_tok(self.look(st, a0), "Attribute"):
                        r.append(self.look(st, a0)[1])
                        self.advance(st, a0)
                    return call.done(ok(("o", "list", tuple(r))))
                raise Imprecise("ParseBuffer::call of %s" % nm)
            if n in ("parse_without_eager_brace", "parse_single", "parse_multi", "parse_multi_with_leading_vert"):
                ty = "Expr" if n == "parse_without_eager_brace" else "Pat"
                t = self.look(st, a0)
                if not self.is_tok(t, ty):
                    return call.done(self.err("expected", ty))
                alt = t[0] == "pat" and [x for x in t[1][1] if isinstance(x, str) and "|" in x]
                if alt and (n == "parse_single" or alt[0].startswith("|") and n == "parse_multi"):
                    # only the first of several patterns is taken, and nothing that uses one can follow
                    return call.done(self.err("alternatives"))
                self.advance(st, a0)
                return call.done(ok(self.tok_value(t, ty, ty)))
            if n == "parse" and not (local_body and tr == "Parse" and tok_type(targs[-1]) not in ("join",) and False):
                if tr == "Parse":
                    ty, path = tok_type(call.inst.self_s if call.inst else targs[0]), call.inst.self_s if call.inst else targs[0]
                    if local_body and not ty.islower():
                        return NotImplemented
                else:
                    path = targs[-1]
                    ty = tok_type(path)
                if ty == "Option":
                    inner = path[path.index("<") + 1:-1]
                    t = self.look(st, a0)
                    if not self.is_tok(t, tok_type(inner)):
                        return call.done(ok(none()))
                    self.advance(st, a0)
                    return call.done(ok(some(self.tok_value(t, tok_type(inner), inner))))
                if ty == "TokenStream":
                    r = []
                    while self.look(st, a0) is not None:
                        t = self.look(st, a0)
                        r.append(("leaf", t[1]) if t[0] in ("x", "pat", "attr", "raw") else ("tok", t[:2]))
                        self.advance(st, a0)
                    return call.done(ok(ts(r)))
                t = self.look(st, a0)
                c = [i for i in self.prog.roots if i.has_body and i.name == "parse" and i.trait and models.base(i.trait) == "Parse" and i.self_s == path]
                if c and not ty.islower():
                    self.eng.push_frame(st, c[0], [a[0]], call.dest, call.ret, call.cont)
                    return None
                if not self.is_tok(t, ty):
                    return call.done(self.err("expected", ty))
                self.advance(st, a0)
                if ty == "Expr":
                    nx = self.look(st, a0)
                    if nx is not None and nx[0] == "g" and nx[1][0] == "{" and t[0] in ("x", "id"):
                        # a brace after a path is taken for a struct literal
                        self.advance(st, a0)
                        return call.done(ok(("sym", ("leaf", "struct literal", t[1], nx[1]))))
                return call.done(ok(self.tok_value(t, ty, path.split("<")[0])))
        # ---- entry points of syn
        if n == "parse" and tr == "Parser":
            f = strip(st, a[0])
            if f[0] == "clo":
                self.eng.push_frame(st, self.prog.insts[f[1]], [a[0], ("rv", ("o", "pb", 0))], call.dest, call.ret, call.cont)
                return None
        if call.key.startswith("syn::parse") and n in ("parse", "parse2") and targs:
            c = [i for i in self.prog.roots if i.has_body and i.name == "parse" and i.trait and models.base(i.trait) == "Parse" and i.self_s == targs[0]]
            if len(c) == 1:
                self.eng.push_frame(st, c[0], [("rv", ("o", "pb", 0))], call.dest, call.ret, call.cont)
                return None
        if key == "Error::new":
            return call.done(sym("error"))
        if n in ("to_compile_error", "into_compile_error"):
            return call.done(ts((("error",),)))
        if n == "push" and key == "Punctuated::push":
            p = models.place(call)
            l = st.load(p[0], p[1])
            st.store(p[0], p[1], ("o", "list", (l[2] if l[:2] == ("o", "list") else ()) + (strip(st, a[1]),)))
            return call.done(UNIT)
        if n in ("default", "new") and (key.startswith("Punctuated") or targs and targs[0].startswith("syn::punctuated::Punctuated")):
            return call.done(("o", "list", ()))
        return NotImplemented

    def shown(self, tt):
        k, p = tt[2]
        if k == "tt":
            return p
        if k in ("p", "id", "kw"):
            return ("s", p) if isinstance(p, str) else p
        return ("sym", ("leaf", "shown", tt[2]))

    # ------------------------------------------------------------- running
    def run(self, root, toks, st=None, args=None):
        """outcomes: (kind, atoms, state); kind: ok, error, panic"""
        st = st or self.ex.state()
        self.eng.nstates = 0
        self.buf(st, toks)
        if args is None:
            args = [sym("input")]
        out = []
        for o in self.eng.run(root, args, st):
            if o.kind == "panic":
                out.append(("panic", o.info, o.st))
            elif o.kind == "ret":
                v = strip(o.st, o.val)
                if v[:2] != ("o", "ts"):
                    raise Imprecise("result %s" % (str(v)[:100],))
                if any(x[0] == "error" for x in v[2]) or self.leftover(o.st):
                    out.append(("error", v[2], o.st))
                else:
                    out.append(("ok", v[2], o.st))
        return out
