"""Models of the foreign (core/alloc/smallvec/...) functions that have no extracted body.

A model gives the abstract meaning of a library function.  Everything in here is part of the
trusted base and documented as such: it restates the documented contract of std."""
import re
from absint import *
from absint import Call, peek
import absint

_norm = {}


def base(t):
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].strip()
        if t.startswith("'"):
            t = t.split(" ", 1)[1] if " " in t else t
        if t.startswith("mut "):
            t = t[4:]
    out, d = "", 0
    for i, c in enumerate(t):
        if c == "<":
            d += 1
        elif c == ">" and i and t[i - 1] != "-":
            d -= 1
        elif d == 0:
            out += c
    return out.split("::")[-1]


def split_as(s):
    """'<X as Y>::rest' -> X, Y, rest (balanced)."""
    d = 0
    i = 0
    pos = None
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
            if d == 0:
                inner = s[1:i]
                rest = s[i + 1:]
                if pos is None:
                    return inner, None, rest.lstrip(":")
                return s[1:pos], s[pos + 4:i], rest.lstrip(":")
        elif d == 1 and s.startswith(" as ", i) and pos is None:
            pos = i
        i += 1
    return s, None, ""


def norm(key):
    r = _norm.get(key)
    if r is not None:
        return r
    if key.startswith("<"):
        x, y, m = split_as(key)
        r = "%s as %s::%s" % (base(x), base(y) if y else "", m)
    else:
        m = re.search(r"<impl (.*)>::(\w+)$", key)
        if m:
            t = m.group(1)
            if " for " in t:
                tr, ty = t.rsplit(" for ", 1)
                r = "%s as %s::%s" % (base(ty), base(tr), m.group(2))
            else:
                b = base(t)
                if t.startswith("["):
                    b = "slice"
                r = "%s::%s" % (b, m.group(2))
        else:
            k = re.sub(r"::<[^:]*(?:::[^:<>]+)*[^:]*>", "", key)
            # fall back: drop every balanced generic group
            out, d = "", 0
            i = 0
            while i < len(key):
                c = key[i]
                if c == "<":
                    d += 1
                elif c == ">" and key[i - 1] != "-":
                    d -= 1
                elif d == 0:
                    out += c
                i += 1
            k = out.replace("::::", "::")
            r = "::".join(k.split("::")[-2:])
    _norm[key] = r
    return r


M = {}


def model_for(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def model(call):
    if call.d["local"] and (call.inst is None or call.inst.local):
        return NotImplemented
    n = norm(call.key)
    f = M.get(n)
    if f is None and call.d["trait"]:
        f = M.get("%s::%s" % (base(call.d["trait"]), call.d["name"]))
    if f is None:
        return NotImplemented
    return f(call)


# ------------------------------------------------------------------ helpers
def place(call, i=0):
    """cell/path of a mutable receiver, or None for opaque."""
    a = call.args[i]
    return deref_place(call.st, a)


def deref_place(st, a):
    n = 0
    while a[0] == "ref":
        v = st.load(a[1], a[2])
        if v[0] != "ref":
            return a[1], a[2], v
        a = v
        n += 1
    return None


def obj(call, i=0):
    return strip(call.st, call.args[i])


def setobj(call, v, i=0):
    p = place(call, i)
    if p is None:
        raise Imprecise("mutation of an object without a place in %s (%s)" % (call.key, call.where()))
    call.eng.weak_store(call.st, p[0], p[1], v)


def option(call, alts):
    """alts: list of (mutator|None, value or callable)"""
    return call.each(alts)


def is_false(v):
    return v == ("b", False)


# ------------------------------------------------------------------ identity-like
@model_for("ToString::to_string", "T as ToString::to_string", "str as ToOwned::to_owned", "ToOwned::to_owned",
           "String::into_boxed_str", "String as Clone::clone", "Box as Clone::clone", "Clone::clone",
           "RelativePathBuf as Clone::clone", "Rc as Clone::clone", "T as Clone::clone", "bool as Clone::clone",
           "i16 as Clone::clone", "usize as Clone::clone", "Vec as Clone::clone", "String::as_str",
           "Into::into", "From::from", "String as Deref::deref", "Vec as Deref::deref", "Vec as DerefMut::deref_mut",
           "Rc as Deref::deref", "RelativePathBuf as Deref::deref", "AsRef::as_ref", "String as AsRef::as_ref",
           "Borrow::borrow", "str as AsRef::as_ref", "hint::must_use", "String as From::from", "Box as From::from",
           "Box as AsRef::as_ref", "Box as Deref::deref", "RelativePath::as_str", "str::into_boxed_str", "Vec::as_slice",
           "String::into_string", "Cow as Deref::deref", "Cow::into_owned", "str::to_owned", "Box::into_string",
           "Iterator::by_ref", "String as Borrow::borrow")
def m_identity(call):
    v = call.args[0]
    n = norm(call.key)
    if n.endswith(("clone", "to_string", "to_owned", "into_owned", "from", "into")):
        v = deep_clone(call.st, v)
    return call.done(v)


def deep_clone(st, v):
    v = strip(st, v)
    if v[0] == "any":
        return v
    if v[0] in ("adt",):
        return ("adt", v[1], v[2], tuple(deep_clone(st, x) if x[0] in ("ref",) else x for x in v[3]))
    return v


@model_for("I as IntoIterator::into_iter")
def m_into_iter_id(call):
    return call.done(call.args[0])


@model_for("SmallVec as Deref::deref", "SmallVec as DerefMut::deref_mut", "Vec::as_mut_slice", "String::as_mut_str",
           "SmallVec as AsRef::as_ref", "Box as DerefMut::deref_mut", "Ref as Deref::deref", "RefMut as Deref::deref",
           "RefMut as DerefMut::deref_mut")
def m_identity_ref(call):
    return call.done(call.args[0])


@model_for("Box::new", "Rc::new")
def m_box_new(call):
    return call.done(call.args[0])   # boxes are transparent


@model_for("mem::take")
def m_take(call):
    p = place(call)
    if p is None:
        raise Imprecise("mem::take of an opaque place")
    v = p[2]
    ty = call.eng.prog.types[call.targs[0]] if call.targs else None
    call.st.store(p[0], p[1], default_of(call, call.targs[0]))
    return call.done(v)


@model_for("mem::replace")
def m_replace(call):
    p = place(call)
    if p is None:
        raise Imprecise("mem::replace of an opaque place")
    call.st.store(p[0], p[1], call.args[1])
    return call.done(p[2])


def default_of(call, ti):
    prog = call.eng.prog
    ty = prog.types[ti]
    k = ty["k"]
    if k in ("uint", "int"):
        return num(0)
    if k == "bool":
        return boolean(False)
    if k == "tuple":
        return ("tup", tuple(default_of(call, t) for t in ty["args"]))
    if k == "adt":
        p = ty["path"]
        if p == OPTION:
            return none()
        b = p.split("::")[-1]
        if b in ("Vec", "SmallVec", "VecDeque"):
            return ("o", "list", ())
        if b in ("BTreeSet", "HashSet"):
            return ("o", "set", frozenset())
        if b in ("BTreeMap", "HashMap"):
            return ("o", "map", ())
        if b == "String":
            return ("o", "str", ())
        if b == "Cell" or b == "RefCell":
            return default_of(call, ty["args"][0])
        # a local type: an explicit or derived Default impl
        want = ty["s"]
        for i in prog.insts:
            if i is not None and i.has_body and i.name == "default" and i.trait and i.trait.endswith("Default"):
                if i.self_s and base(i.self_s) == b and i.path.startswith("<" + p.split("<")[0][:20]):
                    return const_call(call.eng, call.st, i)
        # enum with no visible impl
    raise Imprecise("default of %s" % ty["s"])


def const_call(eng, st, inst, args=()):
    """Evaluate a straight-line constructor in a fresh state."""
    e2 = absint.Engine(eng.prog, eng.intercepts)
    e2.models = eng.models
    outs = e2.run(inst, list(args))
    outs = [o for o in outs if o.kind == "ret"]
    if len(outs) != 1:
        raise Imprecise("constructor %r is not straight-line" % inst)
    return outs[0].val


@model_for("Default::default", "Vec as Default::default", "String as Default::default", "BTreeMap as Default::default",
           "BTreeSet as Default::default", "bool as Default::default", "Cell as Default::default",
           "RefCell as Default::default", "usize as Default::default", "Punctuated as Default::default",
           "Option as Default::default")
def m_default(call):
    if call.dty is None:
        raise Imprecise("default of unknown type")
    t = call.eng.prog.types[call.dty]
    if t["k"] in ("param", "alias", "proj", "other"):
        return call.done(sym("default", t["s"]))
    return call.done(default_of(call, call.dty))


# ------------------------------------------------------------------ strings
@model_for("String::new", "String::with_capacity")
def m_string_new(call):
    return call.done(("o", "str", ()))


STR_MAX = 12


def str_parts(st, v):
    v = strip(st, v)
    if v[0] == "s":
        return (v,) if v[1] else ()
    if v[0] == "o" and v[1] == "str":
        return v[2]
    return (v,)


def norm_parts(ps):
    out = []
    for p in ps:
        if p[0] == "ch":
            p = ("s", chr(p[1]))
        if p[0] == "s" and out and out[-1][0] == "s":
            out[-1] = ("s", out[-1][1] + p[1])
        elif p[0] == "many" and out and out[-1] == p:
            pass
        else:
            out.append(p)
    return tuple(out)


def str_append(call, v, i=0):
    p = place(call, i)
    if p is None:
        return
    cur = p[2]
    ps = norm_parts(str_parts(call.st, cur) + str_parts(call.st, v))
    if len(ps) > STR_MAX:
        ps = (("many", frozenset(ps)),)
    call.eng.weak_store(call.st, p[0], p[1], ("o", "str", ps))


@model_for("String::push_str", "String::push", "String as AddAssign::add_assign")
def m_push_str(call):
    v = deep(call.st, call.args[1])
    if call.eng.on_event is not None:
        call.eng.on_event(call, ("strpush", call.args[0], v))
    str_append(call, v)
    return call.done(UNIT)


@model_for("String as Write::write_str", "String as Write::write_char")
def m_string_write(call):
    v = deep(call.st, call.args[1])
    if call.eng.on_event is not None:
        call.eng.on_event(call, ("strpush", call.args[0], v))
    str_append(call, v)
    return call.done(ok())


@model_for("String::clear")
def m_string_clear(call):
    if call.eng.on_event is not None:
        call.eng.on_event(call, ("strclear", call.args[0], None))
    setobj(call, ("o", "str", ()))
    return call.done(UNIT)


def str_nonempty(call, v):
    v = strip(call.st, v)
    if v[0] == "s":
        return boolean(bool(v[1]))
    if v[0] == "o" and v[1] == "str":
        if not v[2]:
            return boolean(False)
        for p in v[2]:
            if p[0] == "s" or p[0] == "sym" and call.st.get_fact("nonempty", p[1]):
                return boolean(True)
            if p[0] in ("hex", "ch"):
                return boolean(True)
        return sym("nonempty", v)
    if v[0] == "sym" and call.st.get_fact("nonempty", v[1]):
        return boolean(True)
    if v[0] in ("hex", "ch", "str1"):
        return boolean(True)
    return sym("nonempty", v)


@model_for("str::is_empty", "String::is_empty")
def m_str_is_empty(call):
    return call.done(neg(str_nonempty(call, call.args[0])))


@model_for("str::len", "String::len")
def m_str_len(call):
    return call.done(call.eng.length(call.st, call.args[0]))


@model_for("str as Index::index", "slice as Index::index", "String as Index::index")
def m_str_index(call):
    s = obj(call, 0)
    r = obj(call, 1)
    st = call.st
    if r[0] == "adt":
        n = r[1].split("::")[-1]
        fs = [call.eng.as_int(st, strip(st, f), None) for f in r[3][:2]] if n in ("Range", "RangeTo", "RangeFrom") else None
        if fs is not None:
            for f in fs:
                if f[2] and st.decide("ge0", f) is None:
                    st.assume("ge0", f)      # usize
            L = call.eng.length(st, s)
            if n == "Range":
                lo, hi = fs
            elif n == "RangeTo":
                lo, hi = num(0), fs[0]
            else:
                lo, hi = fs[0], L
            conds = [aff_add(hi, lo, -1), aff_add(L, hi, -1)]
            if all(st.decide("ge0", c) is True for c in conds):
                if s[0] == "s" and not lo[2] and not hi[2]:
                    return call.done(("rv", ("s", s[1][lo[1]:hi[1]])))
                return call.done(sym("slice", s, lo, hi))
            return call.each([(None, sym("slice", s, lo, hi))]) + [panic_outcome(call, "slice index out of range")]
    raise Imprecise("str index %r" % (r,))


def panic_outcome(call, what):
    from absint import Outcome
    return Outcome("panic", None, call.st, (what, call.site, repr(call.st.frames[-1].inst)))


@model_for("str::chars", "str::bytes", "str::char_indices")
def m_chars(call):
    v = deep(call.st, call.args[0])
    return call.done(("o", "it", "chars", v, call.name, 0))


@model_for("str::split", "str::rsplit", "str::splitn", "str::rsplitn", "str::lines")
def m_split(call):
    v = deep(call.st, call.args[0])
    args = tuple(deep(call.st, a) for a in call.args[1:])
    return call.done(("o", "it", "split", v, (call.name,) + args, 0))


@model_for("str::split_once", "str::rsplit_once", "str::find", "str::get", "str::parse", "str::rfind",
           "str::strip_prefix", "str::strip_suffix")
def m_split_once(call):
    v = deep(call.st, call.args[0])
    args = tuple(deep(call.st, a) for a in call.args[1:])
    return call.done(("sym", ("pure", call.name, v, args)))


@model_for("str::starts_with", "str::ends_with", "str::contains")
def m_str_pred(call):
    v = deep(call.st, call.args[0])
    f = strip(call.st, call.args[1]) if len(call.args) > 1 else UNIT
    known = v[0] == "s" or v[0] == "str1" or v[:2] == ("o", "str") and all(p[0] in ("s", "str1") for p in v[2])
    if known and f[0] in ("clo", "fn", "ch"):
        cs = []
        for p in (v[2] if v[0] == "o" else (v,)):
            cs += [("ch", ord(c)) for c in p[1]] if p[0] == "s" else [p[1]]
        if call.name != "contains":
            if not cs:
                return call.done(boolean(False))
            c = cs[0 if call.name == "starts_with" else -1]
            if f[0] == "ch":
                if c[0] == "ch":
                    return call.done(boolean(c == f))
                return call.done(("inset", c[1], ((f[1], f[1]),)))
            return call.eng.invoke(call.st, f, closure_args(None, f, [c]), call.dest, call.ret, call.site, None, call.cont)
        if f[0] != "ch":
            return drive(call, ("o", "it", "chars", v, "chars", 0), ("any", f))
    args = tuple(deep(call.st, a) for a in call.args[1:])
    return call.done(("sym", ("pred", call.name, v, args)))


def str_eq(call, a, b):
    a, b = deep(call.st, a), deep(call.st, b)
    if a == b:
        return boolean(True)
    if a[0] == "s" and b[0] == "s":
        return boolean(a[1] == b[1])
    return ("sym", ("eq",) + tuple(sorted((a, b), key=repr)))


@model_for("str as PartialEq::eq", "String as PartialEq::eq", "PartialEq::eq", "Box as PartialEq::eq",
           "ItemStr as PartialEq::eq", "RelativePathBuf as PartialEq::eq", "Ident as PartialEq::eq")
def m_str_eq(call):
    return call.done(str_eq(call, call.args[0], call.args[1]))


@model_for("PartialEq::ne", "str as PartialEq::ne")
def m_str_ne(call):
    return call.done(neg(str_eq(call, call.args[0], call.args[1])))


@model_for("Ord::cmp", "str as Ord::cmp", "Box as Ord::cmp")
def m_cmp(call):
    a, b = deep(call.st, call.args[0]), deep(call.st, call.args[1])
    if a == b:
        return call.done(("adt", "core::cmp::Ordering", 1, ()))
    return call.done(sym("cmp", a, b))


# ------------------------------------------------------------------ chars
def charval(call, i=0):
    v = strip(call.st, call.args[i])
    return v


def cs_pred(call, cs):
    v = charval(call)
    if v[0] == "ch":
        return boolean(any(l <= v[1] <= h for l, h in cs))
    if v[0] == "sym":
        return ("inset", v[1], cs)
    raise Imprecise("char predicate on %r" % (v,))


CONTROL = ((0, 0x1F), (0x7F, 0x9F))
ASCII = ((0, 0x7F),)
CHARSETS = {
    "is_ascii": ASCII,
    "is_control": CONTROL,
    "is_ascii_control": ((0, 0x1F), (0x7F, 0x7F)),
    "is_ascii_graphic": ((0x21, 0x7E),),
    "is_ascii_alphabetic": ((0x41, 0x5A), (0x61, 0x7A)),
    "is_ascii_digit": ((0x30, 0x39),),
    "is_ascii_alphanumeric": ((0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A)),
    "is_ascii_hexdigit": ((0x30, 0x39), (0x41, 0x46), (0x61, 0x66)),
    "is_ascii_uppercase": ((0x41, 0x5A),),
    "is_ascii_lowercase": ((0x61, 0x7A),),
    "is_ascii_punctuation": ((0x21, 0x2F), (0x3A, 0x40), (0x5B, 0x60), (0x7B, 0x7E)),
    "is_ascii_whitespace": ((0x09, 0x0A), (0x0C, 0x0D), (0x20, 0x20)),
    "is_whitespace": ((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A),
                      (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)),
}


def m_charpred(call):
    return call.done(cs_pred(call, CHARSETS[call.name]))


for _n in CHARSETS:
    M["char::" + _n] = m_charpred
    M["u8::" + _n] = m_charpred


@model_for("char::is_alphanumeric", "char::is_alphabetic", "char::is_numeric", "char::is_lowercase", "char::is_uppercase")
def m_charpred_uni(call):
    v = charval(call)
    if v[0] == "ch":
        c = chr(v[1])
        return call.done(boolean({"is_alphanumeric": c.isalnum(), "is_alphabetic": c.isalpha(), "is_numeric": c.isnumeric(),
                                  "is_lowercase": c.islower(), "is_uppercase": c.isupper()}[call.name]))
    return call.done(("sym", ("pred", call.name, v, ())))


@model_for("char::encode_utf8", "char::to_string")
def m_encode_utf8(call):
    v = charval(call)
    return call.done(("rv", ("s", chr(v[1]))) if v[0] == "ch" else ("str1", v))


@model_for("char::encode_utf16")
def m_encode_utf16(call):
    v = charval(call)
    st = call.st
    if v[0] == "ch":
        c = v[1]
        if c < 0x10000:
            u = (num(c),)
        else:
            c -= 0x10000
            u = (num(0xD800 + (c >> 10)), num(0xDC00 + (c & 0x3FF)))
        return call.done(("rv", ("arr", u)))
    if v[0] != "sym":
        raise Imprecise("encode_utf16 of %r" % (v,))
    n = v[1]
    bmp, ast = cs_inter(st.charset(n), ((0, 0xFFFF),)), cs_inter(st.charset(n), ((0x10000, MAXCP),))
    call.eng.uint.update([("u16hi", n), ("u16lo", n)])
    alts = []
    if bmp:
        alts.append((lambda s: s.set_fact("c", n, bmp), ("rv", ("arr", (("i", 0, ((("ord", n), 1),)),)))))
    if ast:
        alts.append((lambda s: s.set_fact("c", n, ast),
                     ("rv", ("arr", (("i", 0, ((("u16hi", n), 1),)), ("i", 0, ((("u16lo", n), 1),)))))))
    return call.each(alts)


@model_for("char::len_utf8", "char::len_utf16", "char::to_ascii_lowercase", "char::to_ascii_uppercase")
def m_charfn(call):
    return call.done(sym("charfn", call.name, charval(call)))


@model_for("char::escape_default", "char::escape_unicode", "char::escape_debug", "str::escape_default", "str::escape_debug",
           "str::escape_unicode")
def m_escape(call):
    return call.done(("sym", ("escape", call.name, charval(call))))


@model_for("str::as_bytes", "String::as_bytes")
def m_as_bytes(call):
    return call.done(("bytes", deep(call.st, call.args[0])))


@model_for("u32 as From::from", "u64 as From::from", "i32 as From::from", "usize as From::from")
def m_int_from(call):
    v = strip(call.st, call.args[0])
    ty = call.arg_types()[0]
    if v[0] in ("ch", "sym") and ty is not None:
        v = call.eng.as_int(call.st, v, ty)
    return call.done(v)


# ------------------------------------------------------------------ integer helpers
def ints(call):
    ts = call.arg_types()
    return [call.eng.as_int(call.st, strip(call.st, a), t) for a, t in zip(call.args, ts)]


@model_for("usize::saturating_sub", "u32::saturating_sub", "u64::saturating_sub")
def m_sat_sub(call):
    a, b = ints(call)
    d = aff_add(a, b, -1)
    r = call.st.decide("ge0", d)
    if r is True:
        return call.done(d)
    if r is False:
        return call.done(num(0))
    return call.each([(lambda s: s.assume("ge0", d), d), (lambda s: s.assume("ge0", aff_add(num(-1), d, -1)), num(0))])


@model_for("usize::checked_sub")
def m_checked_sub(call):
    a, b = ints(call)
    d = aff_add(a, b, -1)
    return call.each([(lambda s: s.assume("ge0", d), some(d)),
                      (lambda s: s.assume("ge0", aff_add(num(-1), d, -1)), none())])


@model_for("usize::wrapping_sub", "u32::wrapping_sub", "u64::wrapping_sub")
def m_wrapping_sub(call):
    a, b = ints(call)
    d = aff_add(a, b, -1)
    r = call.st.decide("ge0", d)
    if r is True:
        return call.done(d)
    bits = {"u32": 32}.get(call.key.split("::")[0], 64)
    w = aff_add(d, num(1 << bits))
    if r is False:
        return call.done(w)
    return call.each([(lambda s: s.assume("ge0", d), d), (lambda s: s.assume("ge0", aff_add(num(-1), d, -1)), w)])


@model_for("usize::checked_add", "i16::checked_add")
def m_checked_add(call):
    a, b = ints(call)
    if call.key.startswith("usize"):
        return call.done(some(aff_add(a, b)))       # like the operator: counters do not reach the limit
    return call.each([(None, some(aff_add(a, b))), (None, none())])


@model_for("usize::saturating_add", "usize::wrapping_add", "i16::saturating_add", "i16::wrapping_add")
def m_add(call):
    a, b = ints(call)
    return call.done(aff_add(a, b))


def minmax(call, a, b, ismax):
    d = aff_add(a, b, -1)     # a - b >= 0
    r = call.st.decide("ge0", d)
    if r is not None:
        return call.done(a if r == ismax else b)
    return call.each([(lambda s: s.assume("ge0", d), a if ismax else b),
                      (lambda s: s.assume("ge0", aff_add(num(-1), d, -1)), b if ismax else a)])


@model_for("cmp::min", "Ord::min", "usize as Ord::min", "i16 as Ord::min")
def m_min(call):
    a, b = ints(call)
    return minmax(call, a, b, False)


@model_for("cmp::max", "Ord::max", "usize as Ord::max", "i16 as Ord::max")
def m_max(call):
    a, b = ints(call)
    return minmax(call, a, b, True)


@model_for("usize::abs_diff", "i16::unsigned_abs", "i16::abs", "usize::pow", "usize::checked_mul")
def m_intfn(call):
    s = ("intfn", call.name) + tuple(ints(call))
    call.eng.uint.add(s)
    return call.done(("i", 0, ((s, 1),)))


# ------------------------------------------------------------------ vectors / slices
@model_for("Vec::new", "Vec::with_capacity", "SmallVec::new", "VecDeque::new", "SmallVec::with_capacity")
def m_vec_new(call):
    return call.done(("o", "list", ()))


@model_for("BTreeSet::new", "HashSet::new")
def m_set_new(call):
    return call.done(("o", "set", frozenset()))


@model_for("BTreeMap::new", "HashMap::new")
def m_map_new(call):
    return call.done(("o", "map", ()))


@model_for("Vec::reserve", "String::reserve", "Vec::shrink_to_fit", "Vec::reserve_exact")
def m_reserve(call):
    if call.eng.on_event is not None:
        call.eng.on_event(call, ("reserve", call.args[0], call.args[1] if len(call.args) > 1 else None))
    return call.done(UNIT)


LIST_MAX = 6


@model_for("Vec::push", "SmallVec::push", "VecDeque::push_back")
def m_push(call):
    p = place(call)
    v = call.args[1]
    if p is None:
        o = obj(call)
        r = call.eng.on_push(call, o, v) if call.eng.on_push else NotImplemented
        if r is not NotImplemented:
            return r
        raise Imprecise("push on an opaque vector in %s" % call.where())
    o = p[2]
    if call.eng.on_push is not None:
        r = call.eng.on_push(call, o, v)
        if r is not NotImplemented:
            return r
    call.eng.weak_store(call.st, p[0], p[1], vec_push(call, o, v))
    return call.done(UNIT)


def vec_push(call, o, v):
    if o[0] == "o" and o[1] == "vec":
        _, _, dropped, top, suf = o
        if not suf and top is not None and top != "empty" and top[0] == "pop" and v == ("sym", top[1]):
            return ("o", "vec", dropped, ("top", top[1]), ())
        if not suf and top is not None and top != "empty" and top[0] == "pop" and v[0] == "adt":
            # re-creating exactly the item that was popped
            vs = call.st.get_fact("v", top[1])
            if vs == frozenset([v[2]]) and not v[3]:
                return ("o", "vec", dropped, ("top", top[1]), ())
        if top is not None and top != "empty" and top[0] == "pop":
            dropped, top = drop_pop(call.st, dropped, top)
        return ("o", "vec", dropped, top, suf + (v,))
    if o[0] == "o" and o[1] == "stk":
        return ("o", "stk", o[2] | frozenset([call.eng.stk_save(call.st, o[3])]) if o[3] is not None else o[2], v)
    if o[0] == "o" and o[1] == "list":
        if len(o[2]) >= (getattr(call.eng, "list_max", None) or LIST_MAX):
            return ("o", "bag", frozenset(o[2] + (v,)))
        return ("o", "list", o[2] + (v,))
    if o[0] == "o" and o[1] == "bag":
        return ("o", "bag", o[2] | frozenset([v]))
    if call.eng.lenient:
        return call.done(UNIT)
    raise Imprecise("push on %r in %s" % (o, call.where()))


def drop_pop(st, dropped, top):
    vs = st.get_fact("v", top[1])
    if st.eng.on_drop is not None:
        st.eng.on_drop(st, top[1], vs)
    return dropped | (vs if vs is not None else frozenset(["?"])), None


@model_for("Vec::pop", "SmallVec::pop")
def m_pop(call):
    p = place(call)
    if p is None:
        raise Imprecise("pop on an opaque vector")
    o = p[2]
    st = call.st
    put = lambda s, v: s.store(p[0], p[1], v)
    if o[0] == "o" and o[1] == "list":
        if not o[2]:
            return call.done(none())
        put(st, ("o", "list", o[2][:-1]))
        return call.done(some(o[2][-1]))
    if o[0] == "o" and o[1] == "vec":
        _, _, dropped, top, suf = o
        if suf:
            put(st, ("o", "vec", dropped, top, suf[:-1]))
            return call.done(some(suf[-1]))
        if top == "empty":
            return call.done(none())
        if top is not None and top[0] == "top":
            put(st, ("o", "vec", dropped, ("pop", top[1]), ()))
            return call.done(some(("sym", top[1])))
        if top is not None and top[0] == "pop":
            dropped, _ = drop_pop(st, dropped, top)
        n = ("popped", 0)
        # the previously popped element is gone: forget it
        put(st, ("o", "vec", dropped, None, ()))
        st.renew(n)
        if call.eng.elem_ty is not None:
            call.eng.sym_ty[n] = call.eng.elem_ty
        return call.each([(lambda s: put(s, ("o", "vec", dropped, "empty", ())), none()),
                          (lambda s: put(s, ("o", "vec", dropped, ("pop", n), ())), some(("sym", n)))])
    if o[0] == "o" and o[1] == "stk":
        _, _, rest, top = o
        if top is None:
            return call.done(none())
        alts = []
        bottom = call.eng.stk_bottom(st, top)
        if bottom is not True:
            for r in sorted(rest, key=repr):
                alts.append((lambda s, r=r: put(s, ("o", "stk", rest, call.eng.stk_restore(s, r))), some(top)))
        if bottom is not False or not rest:
            def last(s):
                call.eng.stk_empty(s)
                put(s, ("o", "stk", rest, None))
            alts.append((last, some(top)))
        if call.eng.on_event is not None:
            call.eng.on_event(call, ("stkpop", rest, top))
        return call.each(alts)
    if o[0] == "o" and o[1] == "bag":
        return call.each([(lambda s: None, none())] + [(lambda s: None, some(v)) for v in sorted(o[2], key=repr)])
    raise Imprecise("pop on %r" % (o,))


@model_for("Vec as Extend::extend", "Extend::extend", "BTreeSet as Extend::extend", "VecDeque as Extend::extend",
           "BTreeMap as Extend::extend", "String as Extend::extend", "Vec::append", "Vec::extend_from_slice", "BTreeSet::append")
def m_extend(call):
    p = place(call)
    st = call.st
    src = strip(st, call.args[1])
    if p is None:
        raise Imprecise("extend of an opaque collection in %s" % call.where())
    if src[0] == "sym":
        t = call.eng.prog.types[call.arg_types()[1]] if call.arg_types()[1] is not None else None
        if t is not None and t.get("path") == OPTION:
            # extend with an opaque option
            nm = src[1]
            vs = st.variants(nm, 2)
            alts = []
            if 0 in vs:
                alts.append((lambda s: s.set_fact("v", nm, frozenset([0])), UNIT))
            if 1 in vs:
                def add(s):
                    s.set_fact("v", nm, frozenset([1]))
                    s.store(p[0], p[1], vec_push(call, peek(s, p[0], p[1]), ("sym", fname(nm, 1, 0))))
                alts.append((add, UNIT))
            return call.each(alts)
    if src[0] == "adt" and src[1] == OPTION:
        if src[2] == 1:
            v = src[3][0]
            if call.eng.on_push is not None:
                r = call.eng.on_push(call, p[2], v)
                if r is not NotImplemented:
                    return r
            st.store(p[0], p[1], vec_push(call, p[2], v))
        return call.done(UNIT)
    it = make_iter(call, src)
    return drive(call, it, ("extend", ("ref", p[0], p[1])))


def vec_len(eng, o):
    if o[3] == "empty":
        return num(len(o[4]))
    s = ("veclen", o[2] if o[2] else 0, 0 if o[3] is None else o[3][0])
    if o[3] is None and not o[2] or (o[3] is not None and o[3][0] == "top" and not o[2]):
        s = ("veclen", 0, 0)
    eng.uint.add(s)
    return ("i", len(o[4]), ((s, 1),))


@model_for("Vec::len", "SmallVec::len", "VecDeque::len", "BTreeSet::len", "BTreeMap::len", "slice::len")
def m_len(call):
    o = obj(call)
    if o[0] == "o" and o[1] in ("list",):
        return call.done(num(len(o[2])))
    if o[0] == "o" and o[1] == "vec":
        return call.done(vec_len(call.eng, o))
    if o[0] == "arr":
        return call.done(num(len(o[1])))
    if o[0] == "o" and o[1] in ("set", "bag", "map", "kv"):
        s = ("size", sizekey(o))
        call.eng.uint.add(s)
        return call.done(("i", 0, ((s, 1),)))
    return call.done(call.eng.length(call.st, o))


def sizekey(o):
    return o[2] if o[1] != "map" else tuple(k for k, _ in o[2])


@model_for("Vec::is_empty", "BTreeSet::is_empty", "BTreeMap::is_empty", "VecDeque::is_empty", "slice::is_empty",
           "SmallVec::is_empty", "TokenStream::is_empty")
def m_is_empty(call):
    o = obj(call)
    st = call.st
    if o[0] == "o" and o[1] in ("list", "set", "map", "bag", "kv"):
        if not o[2]:
            return call.done(boolean(True))
        if o[1] == "list":
            return call.done(boolean(False))
        return call.done(("sym", ("isempty", sizekey(o))))
    if o[0] == "o" and o[1] == "stk":
        return call.done(boolean(o[3] is None))
    if o[0] == "o" and o[1] == "vec":
        _, _, dropped, top, suf = o
        if suf or (top is not None and top != "empty" and top[0] == "top"):
            return call.done(boolean(False))
        if top == "empty":
            return call.done(boolean(True))
        return call.done(("sym", ("vecempty", dropped, top)))
    if o[0] == "arr":
        return call.done(boolean(not o[1]))
    if o[0] == "s":
        return call.done(boolean(not o[1]))
    return call.done(("sym", ("isempty", o)))


def elem_ref(call, v):
    return v


@model_for("slice::last", "slice::last_mut", "Vec::last", "Vec::last_mut", "VecDeque::back", "VecDeque::back_mut")
def m_last(call):
    p = place(call)
    o = obj(call)
    st = call.st
    if o[0] == "o" and o[1] == "list" or o[0] == "o" and o[1] == "stk":
        if o[1] == "list" and not o[2]:
            return call.done(none())
        if o[1] == "stk":
            if o[3] is None:
                return call.done(none())
            if p:
                return call.done(some(("ref", p[0], p[1] + (("stktop",),))))
            return call.done(some(("rv", o[3])))
        if p:
            return call.done(some(("ref", p[0], p[1] + (("top",),))))
        return call.done(some(("rv", o[2][-1])))
    if o[0] == "o" and o[1] == "vec":
        _, _, dropped, top, suf = o
        if suf:
            return call.done(some(("rv", suf[-1])))
        if top == "empty":
            return call.done(none())
        if top is not None and top[0] == "top":
            return call.done(some(("sym", top[1])))
        if top is not None and top[0] == "pop":
            dropped, _ = drop_pop(st, dropped, top)
        n = ("popped", 0)
        put = lambda s, v: s.store(p[0], p[1], v)
        if not p:
            raise Imprecise("last of an unplaced vector")
        put(st, ("o", "vec", dropped, None, ()))
        st.renew(n)
        if call.eng.elem_ty is not None:
            call.eng.sym_ty[n] = call.eng.elem_ty
        return call.each([(lambda s: put(s, ("o", "vec", dropped, "empty", ())), none()),
                          (lambda s: put(s, ("o", "vec", dropped, ("top", n), ())), some(("sym", n)))])
    if o[0] == "arr":
        return call.done(some(("rv", o[1][-1])) if o[1] else none())
    if o[0] == "sym":
        return call.each([(None, none()), (None, some(("sym", ("f", o[1], "from_end", 1))))])
    raise Imprecise("last of %r" % (o,))


@model_for("slice::first", "slice::get", "VecDeque::front", "slice::get_mut", "Vec::get")
def m_first(call):
    o = obj(call)
    st = call.st
    i = num(0) if call.name in ("first", "front") else call.eng.as_int(st, strip(st, call.args[1]), call.arg_types()[1])
    if o[0] == "o" and o[1] == "list" and not i[2]:
        return call.done(some(("rv", o[2][i[1]])) if 0 <= i[1] < len(o[2]) else none())
    if o[0] == "o" and o[1] == "feed":
        return call.eng.feed_peek(call, o, i)
    if o[0] == "sym":
        nm = ("f", o[1], "idx", i)
        ln = call.eng.length(st, o)
        d = aff_add(aff_add(ln, i, -1), num(-1))
        if call.eng.elem_ty is not None:
            call.eng.sym_ty[nm] = call.eng.elem_ty
        alts = []
        alts.append((lambda s: s.assume("ge0", aff_add(num(-1), d, -1)), none()))
        alts.append((lambda s: s.assume("ge0", d), some(("sym", nm))))
        return call.each(alts)
    raise Imprecise("get on %r in %s" % (o, call.where()))


@model_for("slice::split_first")
def m_split_first(call):
    o = obj(call)
    if o[0] == "o" and o[1] == "feed":
        return call.eng.feed_next(call, o)
    if o[0] == "o" and o[1] == "list":
        if not o[2]:
            return call.done(none())
        return call.done(some(("tup", (("rv", o[2][0]), ("rv", ("o", "list", o[2][1:]))))))
    raise Imprecise("split_first of %r" % (o,))


@model_for("Vec::clear", "BTreeSet::clear", "BTreeMap::clear")
def m_clear(call):
    setobj(call, ("o", "list", ()) if norm(call.key).startswith("Vec") else
           ("o", "set", frozenset()) if "Set" in norm(call.key) else ("o", "map", ()))
    return call.done(UNIT)


@model_for("Vec::truncate", "Vec::remove", "Vec::insert", "Vec::retain", "Vec::drain", "Vec::sort", "Vec::dedup",
           "slice::reverse", "Vec::swap_remove", "slice::sort", "slice::sort_by")
def m_vec_other(call):
    raise Imprecise("unmodelled vector operation %s at %s" % (call.key, call.where()))


@model_for("VecDeque::pop_front")
def m_pop_front(call):
    p = place(call)
    o = p[2] if p else obj(call)
    if o[0] == "o" and o[1] == "list":
        if not o[2]:
            return call.done(none())
        call.st.store(p[0], p[1], ("o", "list", o[2][1:]))
        return call.done(some(o[2][0]))
    if o[0] == "o" and o[1] == "bag":
        # consuming loop: treat as an iterator over the bag
        vs = sorted(o[2], key=repr)
        alts = [(lambda s: s.store(p[0], p[1], ("o", "list", ())), none())]
        alts += [(None, some(v)) for v in vs]
        if call.eng.on_event is not None:
            return call.each([(compose(call, alts[0][0], ("iter_end", ("bag", o[2]))), none())] +
                             [(compose(call, None, ("iter_elem", ("bag", o[2]), v)), some(v)) for v in vs])
        return call.each(alts)
    raise Imprecise("pop_front of %r" % (o,))


def compose(call, mut, ev):
    def f(s):
        if mut is not None:
            mut(s)
        old = call.st
        call.st = s
        try:
            call.eng.on_event(call, ev)
        finally:
            call.st = old
    return f


# ------------------------------------------------------------------ sets and maps
@model_for("BTreeSet::insert", "HashSet::insert")
def m_set_insert(call):
    p = place(call)
    v = deep(call.st, call.args[1])
    if p is None:
        raise Imprecise("insert into an opaque set")
    o = p[2]
    if not (o[0] == "o" and o[1] == "set"):
        raise Imprecise("insert into %r" % (o,))
    call.st.store(p[0], p[1], ("o", "set", o[2] | frozenset([v])))
    if call.eng.on_event is not None:
        call.eng.on_event(call, ("insert", p[1], v))
    return call.done(("sym", ("inserted", v)))


@model_for("BTreeSet::contains", "HashSet::contains", "BTreeMap::contains_key", "HashMap::contains_key")
def m_contains(call):
    o = obj(call)
    k = deep(call.st, call.args[1])
    if o[0] == "o" and not o[2]:
        return call.done(boolean(False))
    if o[0] == "o":
        ks = o[2] if o[1] == "set" else frozenset(kk for kk, _ in o[2])
        return call.done(("sym", ("memb", k, ks)))
    return call.done(("sym", ("memb", k, o)))


@model_for("BTreeMap::insert", "HashMap::insert")
def m_map_insert(call):
    p = place(call)
    k, v = deep(call.st, call.args[1]), deep(call.st, call.args[2])
    o = p[2] if p else obj(call)
    if call.eng.on_event is not None:
        call.eng.on_event(call, ("mapinsert", k, v))
    if p is None or not (o[0] == "o" and o[1] == "map"):
        raise Imprecise("insert into an opaque map")
    d = dict(o[2])
    d[k] = v
    call.st.store(p[0], p[1], ("o", "map", tuple(sorted(d.items(), key=repr))))
    return call.done(("sym", ("replaced", k)))


@model_for("BTreeMap::entry", "HashMap::entry")
def m_entry(call):
    p = place(call)
    if p is None:
        raise Imprecise("entry of an opaque map")
    k = deep(call.st, call.args[1])
    return call.done(("o", "entry", ("ref", p[0], p[1]), k))


def entry_ref(call, mk):
    e = strip(call.st, call.args[0])
    _, _, r, k = e
    m = call.st.load(r[1], r[2])
    d = dict(m[2])
    if k not in d:
        d[k] = mk()
        call.st.store(r[1], r[2], ("o", "map", tuple(sorted(d.items(), key=repr))))
    else:
        pass
    return ("ref", r[1], r[2] + (("mv", k),))


@model_for("Entry::or_default")
def m_or_default(call):
    # result type &mut V
    vt = call.eng.prog.types[call.dty]["to"]
    return call.done(entry_ref(call, lambda: default_of(call, vt)))


@model_for("Entry::or_insert")
def m_or_insert(call):
    v = call.args[1]
    if call.eng.on_event is not None:
        e = strip(call.st, call.args[0])
        call.eng.on_event(call, ("mapinsert?", e[3], deep(call.st, v)))
    return call.done(entry_ref(call, lambda: v))


@model_for("Entry::or_insert_with")
def m_or_insert_with(call):
    e = strip(call.st, call.args[0])
    m = call.st.load(e[2][1], e[2][2])
    if e[3] in dict(m[2]):
        return call.done(entry_ref(call, None))
    f = call.args[1]
    return call.eng.invoke(call.st, f, closure_args(call, f, []), call.dest, call.ret, call.site, None,
                           ("orinsert", call.args[0]))


@model_for("BTreeMap::get", "HashMap::get", "BTreeMap::get_mut")
def m_map_get(call):
    o = obj(call)
    k = deep(call.st, call.args[1])
    if o[0] == "o" and o[1] == "map" and not o[2]:
        return call.done(none())
    v = ("sym", ("mapval", k))
    nm = ("memb", k, frozenset(kk for kk, _ in o[2]) if o[0] == "o" else o)
    f = call.st.get_fact("b", nm)
    alts = []
    if f is not True:
        alts.append((lambda s: s.set_fact("b", nm, False), none()))
    if f is not False:
        alts.append((lambda s: s.set_fact("b", nm, True), some(v)))
    return call.each(alts)


# ------------------------------------------------------------------ iterators
def make_iter(call, src):
    st = call.st
    src = strip(st, src)
    if src[0] == "o":
        k = src[1]
        if k == "it" or k == "ad":
            return src
        if k == "list":
            return ("o", "it", "list", src[2])
        if k in ("set", "bag"):
            return ("o", "it", "set", src[2], k)
        if k == "map":
            return ("o", "it", "set", frozenset(("tup", (kk, vv)) for kk, vv in src[2]), "map")
        if k == "vec":
            return ("o", "it", "vec", src)
        if k == "feed":
            return ("o", "it", "feed", src)
    if src[0] == "arr":
        return ("o", "it", "list", src[1])
    if src[0] == "sym":
        return ("o", "it", "sym", src[1])
    if src[0] == "adt" and src[1] == OPTION:
        return ("o", "it", "list", src[3])
    if src[0] == "adt" and src[1].endswith("Range"):
        return (range_list(call, src) if call.eng.exact is not None else None) or src
    if src[0] == "adt":
        return ("o", "it", "user", src)
    raise Imprecise("iteration over %r in %s" % (src, call.where()))


@model_for("slice::iter", "slice::iter_mut", "Vec as IntoIterator::into_iter", "BTreeSet as IntoIterator::into_iter",
           "BTreeMap as IntoIterator::into_iter", "IntoIterator::into_iter", "BTreeSet::iter", "BTreeMap::iter", "Vec::iter",
           "[T] as IntoIterator::into_iter", "BTreeMap::values", "BTreeMap::keys", "BTreeMap::into_values",
           "BTreeMap::into_keys", "VecDeque as IntoIterator::into_iter", "VecDeque::iter", "slice as IntoIterator::into_iter",
           "Option as IntoIterator::into_iter", "VecDeque::drain", "SmallVec as IntoIterator::into_iter")
def m_iter(call):
    it = make_iter(call, call.args[0])
    if call.name in ("values", "into_values") or call.name in ("keys", "into_keys"):
        ix = 1 if "values" in call.name else 0
        it = ("o", "it", "set", frozenset(t[1][ix] for t in it[3]), "map")
    return call.done(it)


def m_iter_fallback(call):
    return m_iter(call)


M["[T; N] as IntoIterator::into_iter"] = m_iter


@model_for("Iterator::map", "Iterator::filter", "Iterator::filter_map", "Iterator::cloned", "Iterator::copied",
           "Iterator::peekable", "Iterator::enumerate", "Iterator::rev", "Iterator::chain", "Iterator::skip",
           "Iterator::take", "Iterator::inspect", "Iterator::flat_map", "Iterator::take_while", "Iterator::skip_while",
           "Iterator::flatten", "Iterator::zip", "Iterator::fuse", "Iterator::step_by", "Iterator::map_while")
def m_adaptor(call):
    inner = make_iter(call, call.args[0])
    if call.name == "by_ref":
        return NotImplemented
    if call.name in ("cloned", "copied", "fuse"):
        return call.done(inner)
    if call.name == "rev" and inner[2] in ("set", "sym") and inner[1] == "it":
        return call.done(inner)
    extra = tuple(call.args[1:])
    if call.name == "rev":
        r = reverse_iter(inner)
        if r is not None:
            return call.done(r)
        if call.eng.exact is not None:
            raise Imprecise("iterator adaptor rev at %s" % call.where())
    if call.name == "enumerate":
        extra = (num(0),)
    if call.name == "zip":
        extra = (make_iter(call, extra[0]),)
    if call.name in ("flatten", "flat_map"):
        extra = extra + (("o", "it", "list", ()),)
    if call.name in ("skip_while", "take_while", "map_while"):
        extra = extra + (boolean(False),)
    return call.done(("o", "ad", call.name, inner, extra, None))


def reverse_iter(it):
    """the same elements in the opposite order, if they are known"""
    if it[0] != "o":
        return None
    if it[1] == "it" and it[2] == "list":
        return ("o", "it", "list", tuple(reversed(it[3])))
    if it[1] == "ad" and it[2] in ("map", "filter", "filter_map", "inspect"):
        r = reverse_iter(it[3])
        return None if r is None else it[:3] + (r,) + it[4:]
    if it[1] == "ad" and it[2] == "chain":
        a, b = reverse_iter(it[3]), reverse_iter(it[4][0])
        return None if a is None or b is None else it[:3] + (b, (a,)) + it[5:]
    return None


def range_list(call, v):
    """a range of known bounds, as the list of its numbers"""
    v = strip(call.st, v)
    if v[0] == "adt" and v[1].endswith(("::Range",)):
        a, b = [call.eng.as_int(call.st, strip(call.st, f), None) for f in v[3][:2]]
        if a is not None and b is not None and not a[2] and not b[2] and b[1] - a[1] <= 200:
            return ("o", "it", "list", tuple(num(i) for i in range(a[1], b[1])))
    return None


def closure_args(call_or_none, f, args):
    if f[0] in ("clo", "rv", "ref"):
        return [f] + list(args)
    return list(args)


NEXTS = ["Iterator::next", "Iter as Iterator::next", "IntoIter as Iterator::next", "IterMut as Iterator::next",
         "Chars as Iterator::next", "Split as Iterator::next", "RSplit as Iterator::next", "Cloned as Iterator::next",
         "Peekable as Iterator::next", "Map as Iterator::next", "Filter as Iterator::next", "Enumerate as Iterator::next",
         "Copied as Iterator::next", "Rev as Iterator::next", "FilterMap as Iterator::next", "Keys as Iterator::next",
         "Values as Iterator::next", "Chain as Iterator::next", "Drain as Iterator::next", "Skip as Iterator::next",
         "Take as Iterator::next", "IntoValues as Iterator::next", "Bytes as Iterator::next", "Lines as Iterator::next",
         "CharIndices as Iterator::next", "TakeWhile as Iterator::next", "SkipWhile as Iterator::next", "MapWhile as Iterator::next",
         "Zip as Iterator::next", "Flatten as Iterator::next", "FlatMap as Iterator::next", "StepBy as Iterator::next",
         "Inspect as Iterator::next", "Fuse as Iterator::next"]


@model_for(*NEXTS)
def m_next(call):
    p = place(call)
    if p is None:
        o = obj(call)
        if o[0] == "sym":
            return opaque_next(call, o[1], None)
        raise Imprecise("next on %r in %s" % (o, call.where()))
    if p[2][0] == "sym":
        return opaque_next(call, p[2][1], None)
    if p[2][0] == "adt":
        return NotImplemented
    return iter_next(call.eng, call.st, call, ("ref", p[0], p[1]), ())


@model_for("Range as Iterator::next", "Range as RangeIteratorImpl::spec_next")
def m_range_next(call):
    p = place(call)
    if p is None or p[2][0] != "adt":
        raise Imprecise("next on the range %r in %s" % (p, call.where()))
    a, b = [call.eng.as_int(call.st, strip(call.st, f), None) for f in p[2][3][:2]]
    if a is None or b is None:
        raise Imprecise("next on the range %r in %s" % (p, call.where()))
    left = aff_add(aff_add(b, a, -1), num(-1))
    new = ("adt", p[2][1], p[2][2], (aff_add(a, num(1)), b) + tuple(p[2][3][2:]))

    def more(s):
        s.assume("ge0", left)
        s.store(p[0], p[1], new)
    return call.each([(more, some(a)), (lambda s: s.assume("ge0", aff_add(num(-1), left, -1)), none())])


@model_for("Result as Try::branch", "Option as Try::branch")
def m_try_branch(call):
    v = call.args[0]
    if v[0] != "adt":
        return NotImplemented
    good = 0 if v[1] == RESULT else 1
    cf = "core::ops::control_flow::ControlFlow"
    if v[2] == good:
        return call.done(("adt", cf, 0, (v[3][0],)))
    return call.done(("adt", cf, 1, (v,)))


def opaque_next(call, src, put):
    eng, st = call.eng, call.st
    n = ("el", src)
    if eng.on_event is not None:
        eng.on_event(call, ("iter_next", src))
    st.renew(n)
    if eng.elem_ty_of:
        t = eng.elem_ty_of(src)
        if t is not None:
            eng.sym_ty[n] = t
    ev = eng.on_event
    alts = [(compose(call, None, ("iter_end", src)) if ev else None, none()),
            (compose(call, None, ("iter_elem", src, ("sym", n))) if ev else None, some(("sym", n)))]
    return call.each(alts)


def iter_next(eng, st, call, ref, stack):
    """next() on the iterator object stored at `ref`.  `stack`: pending adaptor continuations."""
    it = st.load(ref[1], ref[2])
    if it[0] == "sym":
        it = ("o", "it", "sym", it[1])
    if it[0] == "ref":
        return iter_next(eng, st, call, it, stack)
    if not (it[0] == "o" and it[1] in ("it", "ad")):
        raise Imprecise("next on %r" % (it,))
    if it[1] == "ad":
        return adaptor_next(eng, st, call, ref, it, stack)
    k = it[2]
    ev = eng.on_event
    alts = []
    if k == "list":
        if not it[3]:
            alts.append((None, none()))
        else:
            v = it[3][0]
            rest = ("o", "it", "list", it[3][1:])
            alts.append((lambda s: s.store(ref[1], ref[2], rest), some(v if v[0] in ("ref", "rv") else v)))
    elif k == "set":
        src = ("set", it[3])
        alts.append((compose(call, None, ("iter_end", src)) if ev else None, none()))
        for v in sorted(it[3], key=repr):
            alts.append((compose(call, None, ("iter_elem", src, v)) if ev else None, some(v)))
        if eng.drain_tracking:
            def mk(m, d):
                def f(s):
                    s.store(ref[1], ref[2], it[:5] + (d,))
                    if m:
                        m(s)
                return f
            alts = [(mk(alts[0][0], "done"), alts[0][1])] + [(mk(m, "active"), v) for m, v in alts[1:]]
    elif k == "chars":
        return chars_next(eng, st, call, ref, it)
    elif k in ("sym", "split"):
        src = it[3]
        nm = ("el", src) if k == "sym" else ("part", src, it[4])
        if k == "split":
            i = it[5]
            nm = nm + (i,)
            if it[4][0] in ("split", "rsplit", "lines") and i == 0 and it[4][0] != "lines":
                # the first piece always exists
                return call.each([(lambda s: s.store(ref[1], ref[2], it[:5] + (1,)), some(("sym", nm)))])
            alts.append((None, none()))
            alts.append((lambda s: s.store(ref[1], ref[2], it[:5] + (min(i + 1, 2),)), some(("sym", nm))))
        else:
            if ev:
                ev(call, ("iter_next", src))
            st.renew(nm)
            if eng.elem_ty_of:
                t = eng.elem_ty_of(src)
                if t is not None:
                    eng.sym_ty[nm] = t
            alts.append((compose(call, None, ("iter_end", src)) if ev else None, none()))
            alts.append((compose(call, None, ("iter_elem", src, ("sym", nm))) if ev else None, some(("sym", nm))))
    elif k == "user":
        inst = find_method(eng, it[3][1], "next", "Iterator")
        if inst is None:
            raise Imprecise("no next() for %s" % it[3][1])
        eng.push_frame(st, inst, [("ref", ref[1], ref[2] + (("adin",),))], call.dest, call.ret, call.cont)
        return None
    elif k == "vec":
        return eng.vec_iter(call, ref, it)
    elif k == "feed":
        return eng.feed_iter(call, ref, it)
    else:
        raise Imprecise("next on iterator kind %s" % k)
    return call.each(alts)


def sub(call, dest, ret, cont):
    return Call(call.eng, call.st, call.d, call.inst, call.key, call.targs, call.args, dest, ret, call.site, call.dty, cont)


def adaptor_next(eng, st, call, ref, it, stack):
    _, _, name, inner, extra, peeked = it
    iref = ("ref", ref[1], ref[2] + (("adin",),))
    if name == "peekable":
        if peeked is not None:
            st.store(ref[1], ref[2], it[:5] + (None,))
            if eng.on_event is not None:
                eng.on_event(call, ("iter_take", peeked))
            return call.done(peeked)
        return iter_next(eng, st, call, iref, stack)
    if name == "take":
        n = eng.as_int(st, strip(st, extra[0]), None)
        if n is None:
            raise Imprecise("iterator adaptor take at %s" % call.where())
        if not eng.truth(st, ("cond", "ge0", aff_add(n, num(-1)))):
            return call.done(none())
        st.store(ref[1], ref[2], it[:4] + ((aff_add(n, num(-1)),), peeked))
        return iter_next(eng, st, call, iref, stack)
    if name in ("take_while", "map_while") and extra[1] == boolean(True):
        return call.done(none())
    if name in ("flatten", "flat_map"):
        cur = extra[-1]
        if cur[3]:
            st.store(ref[1], ref[2], it[:4] + (extra[:-1] + (cur[:3] + (cur[3][1:],),), peeked))
            return call.done(some(cur[3][0]))
    if name in ("map", "filter", "filter_map", "inspect", "take_while", "enumerate", "chain", "rev", "map_while", "skip_while", "skip", "zip",
                "flatten", "flat_map", "step_by"):
        c2 = sub(call, call.dest, call.ret, ("ad", name, ref, call.cont, tuple(call.site or ())))
        return iter_next(eng, st, c2, iref, stack)
    raise Imprecise("iterator adaptor %s at %s" % (name, call.where()))


@model_for("Peekable::peek")
def m_peek(call):
    p = place(call)
    o = p[2]
    if o[0] == "sym":
        return opaque_next(call, o[1], None)
    if not (o[0] == "o" and o[1] == "ad" and o[2] == "peekable"):
        raise Imprecise("peek on %r" % (o,))
    if o[5] is not None:
        v = o[5]
        if v[2] == 1:
            return call.done(some(("rv", v[3][0])))
        return call.done(none())
    c2 = sub(call, call.dest, call.ret, ("peek", ("ref", p[0], p[1]), call.cont))
    return iter_next(call.eng, call.st, c2, ("ref", p[0], p[1] + (("adin",),)), ())


@model_for("Iterator::size_hint", "ExactSizeIterator::len", "IntoIter as Iterator::size_hint", "Cloned as Iterator::size_hint",
           "Iter as Iterator::size_hint", "IntoIter as ExactSizeIterator::len", "Peekable as Iterator::size_hint",
           "Map as Iterator::size_hint")
def m_size_hint(call):
    o = obj(call)
    s = ("hint", 0)
    call.eng.uint.add(s)
    if call.name == "len":
        return call.done(("i", 0, ((s, 1),)))
    return call.done(("tup", (("i", 0, ((s, 1),)), ("sym", ("hint", "upper")))))


@model_for("Iterator::collect", "Iterator::for_each", "Iterator::count", "Iterator::any", "Iterator::all", "Iterator::fold",
           "Iterator::last", "Iterator::find", "Iterator::position", "Iterator::try_for_each", "Iterator::nth",
           "Iterator::min", "Iterator::max", "Iterator::find_map", "Iterator::try_fold", "FromIterator::from_iter",
           "BTreeSet as FromIterator::from_iter", "Vec as FromIterator::from_iter", "BTreeMap as FromIterator::from_iter")
def m_consume(call):
    it = make_iter(call, call.args[0])
    n = call.name
    if n in ("collect", "from_iter"):
        t = call.eng.prog.types[call.dty]
        b = t.get("path", "").split("::")[-1]
        if call.eng.exact is not None:
            acc = call.eng.exact.empty(b)
        else:
            acc = {"Vec": ("o", "bag", frozenset()), "VecDeque": ("o", "bag", frozenset()),
                   "BTreeSet": ("o", "set", frozenset()), "BTreeMap": ("o", "map", ())}.get(b)
        if acc is None:
            raise Imprecise("collect into %s" % t["s"])
        return drive(call, it, ("collect", acc))
    if n == "count":
        if it[1] == "it" and it[2] == "list":
            return call.done(num(len(it[3])))
        if call.eng.exact is not None:
            return drive(call, it, ("count",))
        key = ("count",) + tuple(it[2:5] if it[2] == "split" else it[2:4])
        call.eng.uint.add(key)
        return call.done(("i", 0, ((key, 1),)))
    if n == "for_each":
        return drive(call, it, ("foreach", call.args[1]))
    known = it[:3] == ("o", "it", "chars") and (it[3][0] in ("s", "str1") or it[3][:2] == ("o", "str") and all(
        p[0] in ("s", "str1") for p in it[3][2]))
    if (call.eng.exact is not None or known) and n in ("any", "all", "position", "find", "find_map", "last", "fold"):
        # the first four take the iterator by reference
        back = call.args[0] if call.args[0][0] == "ref" and n in ("any", "all", "position", "find", "find_map") else None
        return drive(call, it, (n,) + tuple(call.args[1:]), back)
    if n in ("any", "all", "position", "find", "last", "min", "max", "nth"):
        if n in ("any", "all"):
            return call.done(("sym", (n, limit_it(it), limit_it(call.args[1]))))
        if n == "last" and it[1] == "it" and it[2] == "split":
            nm = ("part", it[3], ("last",) + it[4])
            return call.done(some(("sym", nm)))
    raise Imprecise("iterator consumer %s at %s" % (n, call.where()))


def limit_it(v):
    return v


def drive(call, it, what, back=None):
    """consume `it` completely, feeding each element to `what`"""
    eng, st = call.eng, call.st
    depth = len(st.frames) - 1
    cell = ("L", depth, ("drv",) + tuple(call.site or ()))
    acc = ("L", depth, ("acc",) + tuple(call.site or ()))
    st.mem[cell] = it
    if what[0] == "collect":
        st.mem[acc] = what[1]
    if what[0] in ("count", "position"):
        st.mem[acc] = num(0)
    if what[0] == "last":
        st.mem[acc] = none()
    if what[0] == "fold":
        st.mem[acc] = what[1]
        what = ("fold", what[2])
    if back is not None:
        what = what + (("back", back),)
    return drive_next(call, cell, acc, what)


def drive_back(st, cell, what):
    b = what[-1]
    if isinstance(b, tuple) and b[:1] == ("back",):
        st.store(b[1][1], b[1][2], st.mem[cell])


def drive_next(call, cell, acc, what):
    c2 = sub(call, call.dest, call.ret, ("drive", cell, acc, what, call.cont, tuple(call.site or ())))
    return iter_next(call.eng, call.st, c2, ("ref", cell, ()), ())


def chars_next(eng, st, call, ref, it):
    """next() of str::chars().  Names alternate so that a character and the one peeked after it stay apart."""
    _, _, _, v, kind, par = it
    ev = eng.on_event
    if v[0] == "s" and kind == "chars":
        v = ("o", "str", (v,)) if v[1] else ("o", "str", ())
    if v[0] == "str1" or v[0] == "o" and v[1] == "str" and all(p[0] in ("s", "str1") for p in v[2]):
        # known characters
        ps = [v] if v[0] == "str1" else list(v[2])
        if not ps:
            if ev:
                ev(call, ("iter_end", ("chars",)))
            return call.done(none())
        p = ps[0]
        if p[0] == "str1":
            c, rest = p[1], ps[1:]
        else:
            c, rest = ("ch", ord(p[1][0])), ([("s", p[1][1:])] if p[1][1:] else []) + ps[1:]
        st.store(ref[1], ref[2], it[:3] + (("o", "str", tuple(rest)), kind, par))
        if ev:
            ev(call, ("iter_elem", ("chars",), c))
        return call.done(some(c))
    if kind == "char_indices":
        raise Imprecise("char_indices over an opaque string")
    nm = ("char", v, par)
    if ev:
        ev(call, ("iter_next", ("chars", v)))
    st.renew(nm)
    st.store(ref[1], ref[2], it[:5] + (1 - par,))
    return call.each([(compose(call, None, ("iter_end", ("chars", v))) if ev else None, none()),
                      (compose(call, None, ("iter_elem", ("chars", v), ("sym", nm))) if ev else None, some(("sym", nm)))])


class _D:
    pass


def mkcall(eng, st, dest, ret, cont, site):
    c = Call(eng, st, {"name": "?", "local": False, "trait": None, "path": "?"}, None, "?", (), [], dest, ret,
             list(site) if site else None, None, cont)
    return c


def cont(eng, st, k, v, dest, ret):
    """A modelled computation resumes with value v."""
    call = mkcall(eng, st, dest, ret, None, None)
    t = k[0]
    if t == "orinsert":
        e = strip(st, k[1])
        m = st.load(e[2][1], e[2][2])
        d = dict(m[2])
        d[e[3]] = v
        st.store(e[2][1], e[2][2], ("o", "map", tuple(sorted(d.items(), key=repr))))
        return eng.deliver(st, ("ref", e[2][1], e[2][2] + (("mv", e[3]),)), dest, ret, None)
    if t == "peek":
        _, ref, nxt = k
        o = st.load(ref[1], ref[2])
        st.store(ref[1], ref[2], o[:5] + (v,))
        return eng.deliver(st, some(("rv", v[3][0])) if v[2] == 1 else none(), dest, ret, nxt)
    if t == "ad":
        _, name, ref, nxt, site = k
        it = st.load(ref[1], ref[2])
        call.cont, call.site = nxt, list(site) if site else None
        if v[2] == 0:
            if name == "chain":
                st.store(ref[1], ref[2], it[4][0] if it[4][0][0] == "o" else make_iter(call, it[4][0]))
                return iter_next(eng, st, call, ref, ())
            return eng.deliver(st, v, dest, ret, nxt)
        x = v[3][0]
        if name == "enumerate" and eng.exact is not None:
            st.store(ref[1], ref[2], it[:4] + ((num(it[4][0][1] + 1),), it[5]))
            return eng.deliver(st, some(("tup", (it[4][0], x))), dest, ret, nxt)
        if name in ("skip", "step_by"):
            n = eng.as_int(st, strip(st, it[4][0]), None)
            if n is None or name == "step_by" and n[2]:
                raise Imprecise("iterator adaptor %s" % name)
            if name == "step_by":
                # deliver the first, then skip one less than the step before each further one
                st.store(ref[1], ref[2], it[:4] + ((n, num(n[1] - 1)), it[5]))
                left = it[4][1][1] if len(it[4]) > 1 else 0
                if left == 0:
                    return eng.deliver(st, v, dest, ret, nxt)
                st.store(ref[1], ref[2], it[:4] + ((n, num(left - 1)), it[5]))
                return iter_next(eng, st, call_ad(call, name, ref, nxt, site), ("ref", ref[1], ref[2] + (("adin",),)), ())
            if not eng.truth(st, ("cond", "ge0", aff_add(n, num(-1)))):
                return eng.deliver(st, v, dest, ret, nxt)
            st.store(ref[1], ref[2], it[:4] + ((aff_add(n, num(-1)),), it[5]))
            return iter_next(eng, st, call_ad(call, name, ref, nxt, site), ("ref", ref[1], ref[2] + (("adin",),)), ())
        if name == "zip":
            o = it[4][0]
            if o[1] != "it" or o[2] != "list":
                raise Imprecise("iterator adaptor zip")
            if not o[3]:
                return eng.deliver(st, none(), dest, ret, nxt)
            st.store(ref[1], ref[2], it[:4] + ((o[:3] + (o[3][1:],),), it[5]))
            return eng.deliver(st, some(("tup", (x, o[3][0]))), dest, ret, nxt)
        if name == "flatten":
            c = make_iter(call, x)
            if c[0] != "o" or c[1] != "it" or c[2] != "list":
                raise Imprecise("iterator adaptor flatten")
            st.store(ref[1], ref[2], it[:4] + (it[4][:-1] + (c,), it[5]))
            return iter_next(eng, st, mkcall(eng, st, dest, ret, nxt, site), ref, ())
        if name == "skip_while" and it[4][1] == boolean(True):
            return eng.deliver(st, v, dest, ret, nxt)
        if name == "enumerate":
            s = ("enum", ref[1])
            eng.uint.add(s)
            return eng.deliver(st, some(("tup", (("i", 0, ((s, 1),)), x))), dest, ret, nxt)
        if name in ("chain", "rev"):
            return eng.deliver(st, v, dest, ret, nxt)
        f = it[4][0]
        arg = x if name in ("map", "filter_map", "flat_map", "map_while") else ("rv", x)
        return eng.invoke(st, f, closure_args(None, f, [arg]), dest, ret, list(site) if site else None, None,
                          ("ad2", name, ref, x, nxt, site))
    if t == "ad2":
        _, name, ref, x, nxt, site = k
        if name == "map":
            return eng.deliver(st, some(v), dest, ret, nxt)
        if name == "inspect":
            return eng.deliver(st, some(x), dest, ret, nxt)
        if name == "flat_map":
            c = make_iter(call, v)
            if c[0] != "o" or c[1] != "it" or c[2] != "list":
                raise Imprecise("iterator adaptor flat_map")
            it = st.load(ref[1], ref[2])
            st.store(ref[1], ref[2], it[:4] + (it[4][:-1] + (c,), it[5]))
            return iter_next(eng, st, mkcall(eng, st, dest, ret, nxt, site), ref, ())
        if name == "map_while":
            if v[0] == "sym":
                raise Imprecise("opaque map_while result")
            if v[2] == 0:
                it = st.load(ref[1], ref[2])
                st.store(ref[1], ref[2], it[:4] + ((it[4][0], boolean(True)), it[5]))
            return eng.deliver(st, v, dest, ret, nxt)
        call.cont, call.site = nxt, list(site) if site else None
        if name == "filter_map":
            if v[0] == "sym":
                n = v[1]
                alts = []
                vs = st.variants(n, 2)
                raise Imprecise("opaque filter_map result")
            if v[2] == 1:
                return eng.deliver(st, v, dest, ret, nxt)
            return iter_next(eng, st, call_ad(call, name, ref, nxt, site), ("ref", ref[1], ref[2] + (("adin",),)), ())
        b = eng.truth(st, v)
        if name == "filter":
            if b:
                return eng.deliver(st, some(x), dest, ret, nxt)
            return iter_next(eng, st, call_ad(call, name, ref, nxt, site), ("ref", ref[1], ref[2] + (("adin",),)), ())
        if name == "take_while":
            if b:
                return eng.deliver(st, some(x), dest, ret, nxt)
            it = st.load(ref[1], ref[2])
            st.store(ref[1], ref[2], it[:4] + ((it[4][0], boolean(True)), it[5]))
            return eng.deliver(st, none(), dest, ret, nxt)
        if name == "skip_while":
            if b:
                return iter_next(eng, st, call_ad(call, name, ref, nxt, site), ("ref", ref[1], ref[2] + (("adin",),)), ())
            it = st.load(ref[1], ref[2])
            st.store(ref[1], ref[2], it[:4] + ((it[4][0], boolean(True)), it[5]))
            return eng.deliver(st, some(x), dest, ret, nxt)
        raise Imprecise("adaptor %s" % name)
    if t == "drive":
        _, cell, acc, what, nxt, site = k
        call.cont, call.site = nxt, list(site) if site else None
        if v[2] == 0:
            if what[0] in ("collect", "count", "last", "fold"):
                return eng.deliver(st, st.mem[acc], dest, ret, nxt)
            drive_back(st, cell, what)
            if what[0] in ("any", "all"):
                return eng.deliver(st, boolean(what[0] == "all"), dest, ret, nxt)
            if what[0] in ("position", "find", "find_map"):
                return eng.deliver(st, none(), dest, ret, nxt)
            return eng.deliver(st, UNIT, dest, ret, nxt)
        x = v[3][0]
        if what[0] == "count":
            st.mem[acc] = num(st.mem[acc][1] + 1)
            return drive_again(eng, st, call, cell, acc, what)
        if what[0] == "last":
            st.mem[acc] = some(x)
            return drive_again(eng, st, call, cell, acc, what)
        if what[0] in ("any", "all", "position", "find", "find_map", "fold"):
            f = what[1]
            a = [st.mem[acc], x] if what[0] == "fold" else [("rv", x) if what[0] == "find" else x]
            return eng.invoke(st, f, closure_args(None, f, a), dest, ret, list(site) if site else None, None,
                              ("drive3", cell, acc, what, nxt, site, x))
        if what[0] == "collect":
            cur = st.mem[acc]
            x = deep(st, x)
            if eng.exact is not None:
                new = eng.exact.add(st, cur, x)
            elif cur[1] == "map":
                d = dict(cur[2])
                d[x[1][0]] = x[1][1]
                new = ("o", "map", tuple(sorted(d.items(), key=repr)))
            else:
                new = ("o", cur[1], cur[2] | frozenset([x]))
            if eng.on_event is not None:
                eng.on_event(call, ("insert", ("acc",), x))
            seen = ("drvseen", cell)
            st.mem[acc] = new
            return drive_again(eng, st, call, cell, acc, what)
        if what[0] == "extend":
            r = what[1]
            o = st.load(r[1], r[2])
            x = deep(st, x)
            if eng.exact is not None:
                st.store(r[1], r[2], eng.exact.add(st, o, x))
            elif o[0] == "o" and o[1] == "set":
                st.store(r[1], r[2], ("o", "set", o[2] | frozenset([x])))
                if eng.on_event is not None:
                    eng.on_event(call, ("insert", r[2], x))
            elif o[0] == "o" and o[1] in ("list", "bag"):
                st.store(r[1], r[2], ("o", "bag", frozenset(o[2]) | frozenset([x])))
                if eng.on_event is not None:
                    eng.on_event(call, ("insert", r[2], x))
            else:
                if eng.on_push is not None:
                    call.args = [r, x]
                    rr = eng.on_push(call, o, x)
                    if rr is not NotImplemented:
                        pass
                    else:
                        raise Imprecise("extend of %r" % (o,))
                else:
                    st.store(r[1], r[2], vec_push(call, o, x))
            return drive_again(eng, st, call, cell, acc, what)
        if what[0] == "foreach":
            f = what[1]
            return eng.invoke(st, f, closure_args(None, f, [x]), dest, ret, list(site) if site else None, None,
                              ("drive2", cell, acc, what, nxt, site))
    if t == "drive3":
        _, cell, acc, what, nxt, site, x = k
        call.cont, call.site = nxt, list(site) if site else None
        if what[0] == "fold":
            st.mem[acc] = v
            return drive_again(eng, st, call, cell, acc, what)
        if what[0] == "find_map":
            if v[0] != "adt":
                raise Imprecise("opaque find_map result")
            b = v[2] == 1
        else:
            b = eng.truth(st, v)
        if b != (what[0] == "all"):
            drive_back(st, cell, what)
            r = {"any": boolean(True), "all": boolean(False), "find": some(x), "find_map": v, "position": st.mem.get(acc)}[what[0]]
            return eng.deliver(st, some(r) if what[0] == "position" else r, dest, ret, nxt)
        if what[0] == "position":
            st.mem[acc] = num(st.mem[acc][1] + 1)
        return drive_again(eng, st, call, cell, acc, what)
    if t == "drive2":
        _, cell, acc, what, nxt, site = k
        call.cont, call.site = nxt, list(site) if site else None
        return drive_again(eng, st, call, cell, acc, what)
    if t == "fmt":
        return fmt_cont(eng, st, k, v, dest, ret)
    h = eng.conts.get(t)
    if h is not None:
        return h(eng, st, k, v, dest, ret)
    f = getattr(eng, "resume_" + t, None) if isinstance(t, str) else None
    if f is not None:
        return f(call, k, v)
    raise Imprecise("continuation %r" % (t,))


def call_ad(call, name, ref, nxt, site):
    return sub(call, call.dest, call.ret, ("ad", name, ref, nxt, site))


def drive_again(eng, st, call, cell, acc, what):
    """Next round of a driven loop; stops when the abstract state did not change (fixpoint)."""
    key = ("drvmemo", cell)
    snap = (st.mem.get(acc), tuple(sorted(((c, v) for c, v in st.mem.items() if c != key), key=repr)),
            frozenset(st.facts.items()), tuple(sorted(st.ghost.items(), key=repr)))
    sig = hash(repr(snap))
    seen = eng.drive_seen.setdefault((key, tuple(f.sig() for f in st.frames)), set())
    if sig in seen:
        raise Infeasible()
    seen.add(sig)
    return drive_next(call, cell, acc, what)


# ------------------------------------------------------------------ formatting machinery
@model_for("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex",
           "Argument::new_octal", "Argument::new_binary", "Argument::new_lower_exp")
def m_argument(call):
    ty = call.arg_types()[0]
    return call.done(("farg", call.name[4:], deep(call.st, call.args[0]), ty))


@model_for("Arguments::new", "Arguments::new_v1")
def m_arguments(call):
    st = call.st
    tmpl = strip(st, call.args[0])
    args = strip(st, call.args[1])
    bs = [x[1] for x in tmpl[1]]
    av = [strip(st, a) for a in args[1]]
    return call.done(("o", "fmt", decode_template(bs, av)))


@model_for("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def m_arguments_str(call):
    v = strip(call.st, call.args[0])
    if v[0] == "arr":
        v = strip(call.st, v[1][0])
    return call.done(("o", "fmt", (v,) if v[1] else ()))


def decode_template(bs, args):
    i, ai = 0, 0
    out = []
    while True:
        n = bs[i]
        i += 1
        if n == 0:
            return tuple(out)
        if n < 0x80:
            out.append(("s", bytes(bs[i:i + n]).decode()))
            i += n
            continue
        if n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("s", bytes(bs[i:i + ln]).decode()))
            i += ln
            continue
        flags, width, prec = 0x60000020, 0, 0
        if n & 1:
            flags = int.from_bytes(bytes(bs[i:i + 4]), "little")
            i += 4
        if n & 2:
            width = bs[i] | bs[i + 1] << 8
            i += 2
        if n & 4:
            prec = bs[i] | bs[i + 1] << 8
            i += 2
        if n & 8:
            ai = bs[i] | bs[i + 1] << 8
            i += 2
        if n & 0x30:
            raise Imprecise("dynamic width in a format string")
        a = args[ai]
        ai += 1
        kind, v = a[1], a[2]
        if kind == "display" and flags == 0x60000020 and not width and not n & 4:
            out.append(v if v[0] in ("s",) else ("disp", v, a[3]))
        else:
            out.append(("fmt", kind, v, flags, width if n & 2 else None, prec if n & 4 else None, a[3]))


def as_text(frag):
    """a fragment as a string value"""
    if frag[0] == "disp":
        return frag[1]
    return frag


def find_method(eng, adt, name, trait):
    for i in eng.prog.insts:
        if i is not None and i.has_body and i.local and i.name == name and i.trait and i.trait.split("::")[-1] == trait \
                and i.self_s and re.sub(r"<.*", "", i.self_s) == adt:
            return i
    return None


def find_write(eng, self_base, name):
    for i in eng.prog.insts:
        if i is not None and i.has_body and i.name == name and i.trait == "core::fmt::Write" and i.self_s \
                and base(i.self_s) == self_base and i.local:
            return i
    return None


@model_for("Write::write_fmt", "Formatter::write_fmt", "String as Write::write_fmt")
def m_write_fmt(call):
    st = call.st
    f = strip(st, call.args[1])
    if f[0] == "sym":
        frags = (("disp", f, None),)
    else:
        frags = f[2]
    return fmt_step(call.eng, st, call.args[0], frags, 0, call.dest, call.ret, call.cont, tuple(call.site or ()),
                    base(call.eng.prog.types[call.targs[0]]["s"]) if call.targs else "Formatter")


def fmt_step(eng, st, target, frags, i, dest, ret, nxt, site, tb):
    if i >= len(frags):
        return eng.deliver(st, ok(), dest, ret, nxt)
    fr = frags[i]
    v = as_text(fr)
    k = ("fmt", target, frags, i, nxt, site, tb)
    return eng.write_piece(st, target, v, dest, ret, k, list(site) if site else None, tb)


def fmt_cont(eng, st, k, v, dest, ret):
    _, target, frags, i, nxt, site, tb = k
    v = strip(st, v)
    if v[0] == "sym":
        vs = st.variants(v[1], 2)
        if len(vs) > 1:
            raise Fork([lambda s, x=x: s.set_fact("v", v[1], frozenset([x])) for x in sorted(vs)])
        bad = 1 in vs
    else:
        bad = v[2] == 1
    if bad:
        return eng.deliver(st, v, dest, ret, nxt)
    return fmt_step(eng, st, target, frags, i + 1, dest, ret, nxt, site, tb)


@model_for("Write::write_char")
def m_write_char(call):
    # default method: encodes the character and calls write_str
    c = strip(call.st, call.args[1])
    v = ("s", chr(c[1])) if c[0] == "ch" else ("str1", c)
    tb = base(call.eng.prog.types[call.targs[0]]["s"]) if call.targs else "?"
    return call.eng.write_piece(call.st, call.args[0], v, call.dest, call.ret, call.cont, call.site, tb)


@model_for("str as Display::fmt", "Display::fmt", "String as Display::fmt")
def m_display(call):
    v = deep(call.st, call.args[0])
    return call.eng.write_piece(call.st, call.args[1], v, call.dest, call.ret, call.cont, call.site, "Formatter")


@model_for("fmt::format")
def m_fmt_format(call):
    f = strip(call.st, call.args[0])
    if f[0] != "o":
        return call.done(("o", "str", (f,)))
    return call.done(("o", "str", norm_parts(tuple(as_text(x) for x in f[2]))))


# ------------------------------------------------------------------ cells
@model_for("Cell::new", "RefCell::new", "Cell::get", "RefCell::into_inner", "Cell::into_inner")
def m_cell_id(call):
    if call.name == "get":
        return call.done(strip(call.st, call.args[0]))
    return call.done(call.args[0])


@model_for("Cell::set", "RefCell::replace")
def m_cell_set(call):
    setobj(call, call.args[1])
    return call.done(UNIT)


@model_for("Cell::replace", "Cell::take")
def m_cell_replace(call):
    p = place(call)
    call.st.store(p[0], p[1], call.args[1] if len(call.args) > 1 else none())
    return call.done(p[2])


@model_for("RefCell::borrow", "RefCell::borrow_mut")
def m_cell_borrow(call):
    return call.done(call.args[0])


# ------------------------------------------------------------------ panics
@model_for("panicking::panic", "panicking::panic_fmt", "option::unwrap_failed", "option::expect_failed",
           "result::unwrap_failed", "panicking::panic_bounds_check", "panicking::unreachable_display",
           "panicking::panic_const_div_by_zero", "panicking::panic_nounwind", "panicking::panic_display",
           "panicking::panic_explicit", "panicking::assert_failed")
def m_panic(call):
    return panic_outcome(call, "call of %s" % norm(call.key))


@model_for("hint::unreachable_unchecked")
def m_unreachable(call):
    raise Infeasible()


@model_for("intrinsics::integer_max", "intrinsics::integer_min")
def m_intmax(call):
    t = call.eng.prog.types[call.dty] if call.dty is not None else {"k": "uint", "bits": 64}
    bits = t.get("bits", 64)
    if t["k"] == "uint":
        return call.done(num((1 << bits) - 1 if call.name == "integer_max" else 0))
    return call.done(num((1 << (bits - 1)) - 1 if call.name == "integer_max" else -(1 << (bits - 1))))


@model_for("RelativePath::relative")
def m_relative(call):
    return call.done(("sym", ("relative", deep(call.st, call.args[0]), deep(call.st, call.args[1]))))
