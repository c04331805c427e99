"""C11, effects: nothing that formatting or building a stream does depends on anything but its inputs."""

DENY = {
    "std::time::": "the clock", "std::env::": "the environment", "std::fs::": "the file system", "std::net::": "the network",
    "std::process::id": "the process", "std::process::Command": "other processes", "std::thread::": "threads", "std::sync::": "shared state",
    "std::io::stdin": "standard input", "core::sync::atomic::": "shared state", "std::hash::random::": "a random seed",
    "std::collections::hash_map::RandomState": "a random seed", "core::arch::": "the processor",
}
HASHY = ("HashMap<", "HashSet<", "hash_map::", "hash_set::", "IndexMap<" + "\0")
ITER = ("iter", "iter_mut", "into_iter", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "extract_if", "union",
        "difference", "intersection", "symmetric_difference", "fmt", "next", "hash")
SORT = ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key")
SHARED = ("core::cell::", "core::sync::atomic::", "std::sync::", "std::cell::", "once_cell::", "std::thread::local::LocalKey", "alloc::rc::Rc<core::cell",
          "UnsafeCell", "Atomic", "OnceLock", "LazyLock", "Mutex", "RwLock", "OnceCell", "LazyCell", "RefCell", "Cell<")
CONTENTS_OF_PTR = ("Pointer",)


def walk(v):
    if isinstance(v, dict):
        yield v
        for x in v.values():
            yield from walk(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from walk(x)


def constants(prog, inst):
    bodies = [inst.blocks] + [p["blocks"] for p in inst.j.get("promoted", [])]
    for bs in bodies:
        for b in bs:
            if b["cleanup"]:
                continue
            yield from (x for x in walk([b["s"], b["t"]]) if isinstance(x, dict))


def place_type(prog, inst, o):
    if o[0] in "cm" and not o[1][1]:
        return prog.tys(inst.locals[o[1][0]])
    if o[0] in "cm" and isinstance(o[1][1][-1], list) and o[1][1][-1][0] == "f":
        return prog.tys(o[1][1][-1][2])
    return ""


def check_inst(prog, inst):
    """[(what, where)] definite, [(what, where)] undecided"""
    bad, open_ = [], []
    sorts = False
    hash_iter = []
    for bs in [inst.blocks] + [p["blocks"] for p in inst.j.get("promoted", [])]:
        for b in bs:
            if b["cleanup"]:
                continue
            for st in b["s"]:
                if st[0] != "=":
                    continue
                rv = st[2]
                where = "%s:%s" % tuple(st[3][:2]) if len(st) > 3 and st[3] else inst.span()
                if rv[0] == "tls":
                    bad.append(("reads a thread local", where))
                if rv[0] == "cast" and "PointerExposeProvenance" in rv[1]:
                    bad.append(("turns an address into a number", where))
                if rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge", "Cmp") and place_type(prog, inst, rv[2]).startswith("*"):
                    bad.append(("orders by address", where))
            t = b["t"]
            if t[0] != "call":
                continue
            where = "%s:%s" % tuple(t[5][:2]) if len(t) > 5 and t[5] else inst.span()
            f = t[1]
            if f[0] != "k" or "fn" not in f[1]["v"]:
                continue
            v = f[1]["v"]
            d = prog.defs[v["fn"]]
            path, name = d["path"], d["name"]
            for k, what in DENY.items():
                if path.startswith(k) or path.startswith("<" + k):
                    bad.append(("depends on %s (%s)" % (what, path), where))
            targs = [prog.tys(a) for a in v["args"]]
            selfs = [prog.tys(d["self"])] if d.get("self") is not None else []
            subj = selfs + targs[:1]
            if name in ITER and any(any(h in s for h in HASHY) for s in subj + [path]) and not path.startswith("<alloc::collections::btree"):
                hash_iter.append(("iterates over a hash table (%s)" % path, where))
            if name in SORT or name in ("collect", "from_iter", "extend") and any("BTree" in s for s in targs):
                sorts = True
            if name in ("addr", "expose_provenance", "expose_addr") and "ptr" in path:
                bad.append(("turns an address into a number", where))
            if name in ("fmt", "new_pointer") and "Pointer" in path:
                bad.append(("formats an address", where))
            if name in ("cmp", "partial_cmp", "lt", "le", "gt", "ge", "hash", "max", "min") and any(s.startswith("*") for s in subj):
                bad.append(("orders or hashes by address", where))
    (open_ if sorts else bad).extend(hash_iter)
    for c in constants(prog, inst):
        if "static" in c and isinstance(c["static"], int):
            s = prog.statics.get(c["static"])
            t = prog.tys(s["ty"]) if s else ""
            p = prog.defs[c["static"]]["path"]
            if "mutability: Mut" in str(prog.defs[c["static"]].get("kind")) or any(x in t for x in SHARED):
                bad.append(("uses shared state %s" % p, inst.span()))
    return bad, open_


def check(progs, rep):
    for crate in ("genco", "genco_macros"):
        prog = progs[crate]
        seen = set()
        for inst in prog.insts:
            if inst is None or not inst.has_body or not inst.local:
                continue
            key = (inst.path, inst.span())
            bad, open_ = check_inst(prog, inst)
            if key in seen and not bad and not open_:
                continue
            seen.add(key)
            name = "%s (%s)" % (inst.path, inst.span())
            rep.ob("depends on its inputs only", name, not bad, "; ".join("%s at %s" % b for b in bad[:3]), "effect|%s|%s" % (inst.path, bad[0][0] if bad else ""))
            if open_:
                rep.ob("depends on its inputs only", name, False, "; ".join("%s at %s" % b for b in open_[:3]), "imprecise|%s" % inst.path)
        for d, s in prog.statics.items():
            t = prog.tys(s["ty"])
            rep.ob("statics hold constants", prog.defs[d]["path"], not any(x in t for x in SHARED) and "mutability: Mut" not in str(prog.defs[d].get("kind")), "shared mutable state of type %s" % t,
                   "static|%s" % prog.defs[d]["path"])
