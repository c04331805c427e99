"""C18: nothing that builds or formats a stream panics.

The inventory of the library's MIR says where a panic can start: failed assertions of the compiler (overflow, bounds,
division), calls that never return, and calls of library functions that are documented to panic.  The abstract
interpretations of the other checks - building streams, formatting them, quoting, files of every language, comparisons and
conversions, each with arbitrary inputs - are run, and each construct of the inventory has to be visited by them without
any path on which it panics."""
import importlib, json, os, tempfile
import absint
from report import Report

RUNS = [("p_format", "check_ws"), ("p_format", "check_q"), ("p_lang", "check_layout"), ("p_write", "check"), ("p_content", "check"),
        ("p_quote", "check"), ("p_tokens", "check_ws"), ("p_tokens", "check_chain"), ("p_eq", "check")]

PANICKY = {"unwrap", "expect", "unwrap_err", "expect_err", "index", "index_mut", "remove", "swap_remove", "split_at", "split_at_mut",
           "split_off", "drain", "copy_from_slice", "clone_from_slice", "chunks", "chunks_exact", "windows", "step_by", "borrow_mut",
           "from_digit", "to_digit", "truncate", "replace_range", "rotate_left", "rotate_right", "swap", "ilog2", "ilog10", "ilog",
           "sum", "product", "insert_str", "extend_from_within", "copy_within", "get_many_mut", "strict_add", "strict_sub", "unreachable_unchecked",
           "pow", "abs", "div_euclid", "rem_euclid", "next_multiple_of", "div_ceil", "insert"}
# functions of these names which never panic for the type they belong to
HARMLESS = ("alloc::collections::btree", "std::collections::hash", "hashbrown", "core::option::Option::<T>::insert", "indexmap")


def inventory(prog):
    """(function, file:line) -> what can panic there"""
    sites = {}
    for i in prog.insts:
        if i is None or not i.has_body or not i.local or i.crate not in (None, "genco"):
            continue
        for b in i.blocks:
            t = b["t"]
            what = None
            if t[0] == "assert":
                what = "assertion: %s" % (" ".join(str(x) for x in t[3][:2]),)
            elif t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1].get("v", {}):
                d = prog.defs[t[1][1]["v"]["fn"]]
                if d["local"]:
                    continue
                if t[4] is None:
                    what = "call of %s, which does not return" % d["path"]
                elif d["name"] in PANICKY and not d["path"].startswith(HARMLESS):
                    what = "call of %s" % d["path"]
            if what and b.get("cleanup") is not True:
                sites.setdefault((i.path, "%s:%s" % tuple(t[5][:2]) if t[5] else i.span()), what)
    return sites


def run(progs, tier, path):
    kids = []
    for m, f in RUNS:
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                absint.SITES = os.open(path, os.O_WRONLY | os.O_APPEND)
                rep = Report("C18", tier)
                getattr(importlib.import_module(m), f)(progs, rep)
                rc = 0
            except BaseException as e:
                os.write(absint.SITES, (json.dumps(["failed", "%s.%s" % (m, f), "%s: %s" % (type(e).__name__, e)]) + "\n").encode())
            finally:
                os._exit(rc)
        kids.append((pid, m, f))
    for pid, m, f in kids:
        os.waitpid(pid, 0)


def check(progs, rep):
    prog = progs["genco"]
    sites = inventory(prog)
    fd, path = tempfile.mkstemp(prefix="genco-sites-")
    os.close(fd)
    try:
        run(progs, "quick", path)
        visits, panics, failed = set(), {}, []
        for l in open(path):
            e = json.loads(l)
            if e[0] == "visit":
                visits.add((e[1], e[2]))
            elif e[0] == "panic":
                panics.setdefault((e[1], e[2]), set()).add(e[3])
            else:
                failed.append(e[1:])
    finally:
        os.unlink(path)
    for what, why in failed:
        rep.ob("runs", what, False, why, "imprecise|run|%s" % what)
    for s, what in sorted(sites.items()):
        subj = "%s (%s): %s" % (s + (what,))
        if s in panics:
            rep.ob("no panic", subj, False, "panics: %s" % "; ".join(sorted(panics[s])), "panic|%s|%s" % (s[0], what))
        elif s not in visits:
            rep.ob("no panic", subj, False, "no analysis visits it", "imprecise|unvisited|%s|%s" % (s[0], what))
        else:
            rep.ob("no panic", subj, True)
    for s in sorted(set(panics) - set(sites)):
        rep.ob("no panic", "%s (%s)" % s, False, "panics: %s" % "; ".join(sorted(panics[s])), "panic|%s|%s" % (s[0], sorted(panics[s])[0]))
    fns = {v[0] for v in visits}
    allfns = {i.path for i in prog.insts if i is not None and i.has_body and i.local}
    quiet = allfns - {s[0] for s in sites}
    rep.ob("functions", "the other %d functions" % len(quiet), True, "no construct in them can panic")
    rep.count("functions without any construct that can panic", len(quiet))
    rep.count("constructs that can panic", len(sites))
    rep.count("functions visited by the analyses", len(fns))
