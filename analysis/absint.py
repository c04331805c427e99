"""Abstract interpreter over the extracted MIR.

Domain (one abstract state per path equivalence class, explored to a fixpoint):
  * structured terms for data (ADT variants, tuples, references, closures),
  * opaque symbols for everything that comes from outside, with finite facts
    (possible variants, truth values, character sets) attached to them,
  * integers as affine expressions over symbols, with affine path constraints and a
    delta-widening at loop heads (Karr-like equalities between counters),
  * collections as may-contain sets of terms; iteration yields any contained term or the end.
Nothing of the analysed program is executed and no solver is involved."""
import sys, time

sys.setrecursionlimit(10000)

MAXCP = 0x10FFFF


PROCESS_T0 = time.time()
PROCESS_SECONDS, ENGINE_SECONDS = 780, 500


class Fork(Exception):
    def __init__(self, muts):
        self.muts = muts


class Infeasible(Exception):
    pass


class Imprecise(Exception):
    """The analysis cannot follow the code (reported, never silently ignored)."""


UNIT = ("tup", ())
OPTION = "core::option::Option"
RESULT = "core::result::Result"


def none():
    return ("adt", OPTION, 0, ())


def some(v):
    return ("adt", OPTION, 1, (v,))


def ok(v=UNIT):
    return ("adt", RESULT, 0, (v,))


def err(v):
    return ("adt", RESULT, 1, (v,))


def sym(*n):
    return ("sym", n if len(n) > 1 else n[0])


def num(n):
    return ("i", n, ())


def boolean(b):
    return ("b", bool(b))


# ---------------------------------------------------------------- affine ints
def aff_add(a, b, k=1):
    c = a[1] + k * b[1]
    d = dict(a[2])
    for s, x in b[2]:
        d[s] = d.get(s, 0) + k * x
    return ("i", c, tuple(sorted(((s, x) for s, x in d.items() if x), key=lambda t: repr(t[0]))))


def aff_mul(a, n):
    if n == 0:
        return num(0)
    return ("i", a[1] * n, tuple((s, x * n) for s, x in a[2]))


# ---------------------------------------------------------------- names
def root(n):
    while isinstance(n, tuple) and n and n[0] == "f":
        n = n[1]
    return n


def fname(base, vi, i):
    return ("f", base, vi or 0, i)


def rebase(n, a, b):
    """replace root a of field-name n by b"""
    if n == a:
        return b
    if isinstance(n, tuple) and n and n[0] == "f":
        return ("f", rebase(n[1], a, b), n[2], n[3])
    return n


def occurs(v, n, memo=None):
    if v == n:
        return True
    if isinstance(v, tuple) and v and v[0] == "gen" and len(v) == 3:
        return False
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            if occurs(x, n):
                return True
    return False


def subst(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        if v and v[0] == "gen" and len(v) == 3:
            return v          # already generalised
        r = tuple([subst(x, a, b) for x in v])
        if any([x is not y for x, y in zip(r, v)]):
            if len(r) == 3 and r[0] == "i" and isinstance(r[2], tuple):
                r = ("i", r[1], tuple(sorted(r[2], key=lambda t: repr(t[0]))))
            return r
        return v
    if isinstance(v, frozenset):
        return frozenset(subst(x, a, b) for x in v)
    return v


def collect_roots(v, out):
    if isinstance(v, tuple):
        if v and v[0] == "sym" and len(v) == 2:
            out.add(root(v[1]))
            collect_roots(v[1], out)
            return
        if v and v[0] == "i" and len(v) == 3 and isinstance(v[2], tuple):
            for s, _ in v[2]:
                out.add(s)
                out.add(root(s))
                collect_roots(s, out)
            return
        if v and v[0] == "f" and len(v) == 4:
            out.add(root(v))
        if v and v[0] in ("ord", "dsc"):
            out.add(v[1])
        for x in v:
            collect_roots(x, out)
        if len(v) and isinstance(v[0], str):
            out.add(v)
    elif isinstance(v, frozenset):
        for x in v:
            collect_roots(x, out)


def strip(st, v):
    """Look through references (value semantics)."""
    n = 0
    while True:
        n += 1
        if n > 60:
            return v
        if v[0] == "rv":
            v = v[1]
        elif v[0] == "ref":
            v = st.load(v[1], v[2])
        elif v[0] == "box":
            v = v[1]
        else:
            return v


def deep(st, v, d=0):
    """Dereference everything (for event arguments, keys of collections)."""
    if d > 12:
        return v
    v = strip(st, v)
    if v[0] == "adt":
        if v[1].endswith("item_str::ItemStr") and len(v[3]) == 1:
            return deep(st, v[3][0], d + 1)
        return ("adt", v[1], v[2], tuple(deep(st, x, d + 1) for x in v[3]))
    if v[0] in ("tup", "arr"):
        return (v[0], tuple(deep(st, x, d + 1) for x in v[1]))
    return v


def join(a, b):
    if a == b:
        return a
    if a[0] == "o" and b[0] == "o" and a[1] == b[1] == "set":
        return ("o", "set", a[2] | b[2])
    if a[0] == b[0] == "adt" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
        return ("adt", a[1], a[2], tuple(join(x, y) for x, y in zip(a[3], b[3])))
    if a[0] == b[0] == "tup" and len(a[1]) == len(b[1]):
        return ("tup", tuple(join(x, y) for x, y in zip(a[1], b[1])))
    xs = a[1] if a[0] == "any" else frozenset([a])
    ys = b[1] if b[0] == "any" else frozenset([b])
    return ("any", xs | ys)


# ---------------------------------------------------------------- char sets
def cs_norm(rs):
    rs = sorted(r for r in rs if r[0] <= r[1])
    out = []
    for lo, hi in rs:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return tuple(out)


def cs_inter(a, b):
    out = []
    for l1, h1 in a:
        for l2, h2 in b:
            l, h = max(l1, l2), min(h1, h2)
            if l <= h:
                out.append((l, h))
    return cs_norm(out)


def cs_compl(a):
    out, p = [], 0
    for lo, hi in a:
        if p < lo:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


SURR = ((0xD800, 0xDFFF),)
ALLCH = cs_compl(SURR)


class Frame:
    __slots__ = ("inst", "body", "bb", "si", "dest", "ret", "depth", "cont", "hist")

    def __init__(self, inst, body, bb, dest, ret, depth, cont=None):
        self.inst, self.body, self.bb, self.dest, self.ret, self.depth = inst, body, bb, dest, ret, depth
        self.si = 0
        self.cont = cont
        self.hist = {}      # loop head and shape of the state -> (visits, integers) on this path

    def copy(self):
        f = Frame(self.inst, self.body, self.bb, self.dest, self.ret, self.depth, self.cont)
        f.si = self.si
        f.hist = dict(self.hist) if self.hist else {}
        return f

    def sig(self):
        return (self.inst.ix, self.bb, self.si, self.dest, self.ret, self.cont)


class St:
    __slots__ = ("frames", "mem", "facts", "cons", "ghost", "trace", "eng", "steps")

    def __init__(self, eng):
        self.eng = eng
        self.frames = []
        self.mem = {}
        self.facts = {}
        self.cons = frozenset()
        self.ghost = {}
        self.trace = ()
        self.steps = 0

    def copy(self):
        s = St(self.eng)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.cons = self.cons
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.steps = self.steps
        return s

    # -------------------------------------------------- memory
    def load(self, cell, path=()):
        if cell not in self.mem:
            raise Imprecise("read of an unknown cell %r" % (cell,))
        v = self.mem[cell]
        for i, e in enumerate(path):
            if v[0] == "any":
                self.fork_any(cell, path[:i], v)
            v = self.proj(v, e)
        if v[0] == "any" and not self.eng.keep_any:
            self.fork_any(cell, path, v)
        return v

    def fork_any(self, cell, path, v):
        muts = []
        for o in sorted(v[1], key=repr):
            muts.append(lambda s, o=o: s.store(cell, path, o))
        raise Fork(muts)

    def proj(self, v, e):
        k = v[0]
        if e == "B":
            if k == "box":
                return v[1]
            if k == "sym":
                return v
            raise Imprecise("box projection of %r" % (v,))
        if e[0] == "mv":
            for kk, vv in v[2]:
                if kk == e[1]:
                    return vv
            raise Imprecise("missing map entry")
        if e[0] == "stktop" or e[0] == "adin":
            return v[3]
        if e[0] == "box0":
            return v
        if e[0] == "top":
            return v[2][-1]
        if e[0] == "f":
            _, vi, i = e
            if k == "adt":
                if vi is not None and v[2] != vi:
                    raise Infeasible()
                if i >= len(v[3]):
                    raise Imprecise("field %d of %r" % (i, v))
                return v[3][i]
            if k in ("tup", "arr"):
                return v[1][i]
            if k == "clo":
                return v[2][i]
            if k == "sym":
                return ("sym", fname(v[1], vi, i))
            if k in ("rv", "ref", "box"):
                return v
            raise Imprecise("field %r of %r" % (e, v))
        if e[0] == "ci":
            if k == "arr":
                return v[1][e[1]] if not e[2] else v[1][-e[1]]
            if k == "sym":
                return ("sym", ("f", v[1], "from_end" if e[2] else "idx", e[1]))
            if k == "o" and v[1] == "list":
                return v[2][e[1]]
        raise Imprecise("projection %r of %r" % (e, v))

    def store(self, cell, path, val):
        if not path:
            self.mem[cell] = val
            return
        self.mem[cell] = self.upd(self.mem[cell], path, val)

    def upd(self, v, path, val):
        if not path:
            return val
        e = path[0]
        k = v[0]
        if e == "B":
            if k == "box":
                return ("box", self.upd(v[1], path[1:], val))
            if k == "sym":
                return ("box", self.upd(v, path[1:], val))
        elif e[0] == "mv":
            return ("o", "map", tuple((kk, self.upd(vv, path[1:], val) if kk == e[1] else vv) for kk, vv in v[2]))
        elif e[0] == "stktop" or e[0] == "adin":
            return v[:3] + (self.upd(v[3], path[1:], val),) + v[4:]
        elif e[0] == "top":
            return ("o", v[1], v[2][:-1] + (self.upd(v[2][-1], path[1:], val),))
        elif e[0] == "f":
            _, vi, i = e
            if k == "adt":
                fs = list(v[3])
                fs[i] = self.upd(fs[i], path[1:], val)
                return ("adt", v[1], v[2], tuple(fs))
            if k in ("tup", "arr"):
                fs = list(v[1])
                fs[i] = self.upd(fs[i], path[1:], val)
                return (k, tuple(fs))
            if k == "clo":
                fs = list(v[2])
                fs[i] = self.upd(fs[i], path[1:], val)
                return ("clo", v[1], tuple(fs))
            if k == "sym":
                x = self.eng.expand(self, v, vi)
                if x is not None:
                    return self.upd(x, path, val)
        raise Imprecise("store through %r into %r" % (e, v))

    # -------------------------------------------------- facts
    def get_fact(self, kind, name):
        f = self.facts.get((kind, name))
        r = root(name)
        if isinstance(r, tuple) and r and r[0] == "gen":
            n2 = rebase(name, r, r[1])
            g = self.get_fact(kind, n2) if root(n2) != r and isinstance(root(n2), tuple) and root(n2)[0] == "gen" else None
            for (k, n), val in r[2]:
                if k == kind and n == n2:
                    g = val
            if f is None:
                f = g
            elif g is not None and kind == "v":
                f = f & g
        return f

    def set_fact(self, kind, name, val):
        self.facts[(kind, name)] = val

    def variants(self, name, n):
        f = self.get_fact("v", name)
        return f if f is not None else frozenset(range(n))

    def charset(self, name):
        f = self.get_fact("c", name)
        return f if f is not None else ALLCH

    def refine_chars(self, name, cs):
        c = cs_inter(self.charset(name), cs)
        if not c:
            raise Infeasible()
        self.set_fact("c", name, c)

    # -------------------------------------------------- fresh elements
    def renew(self, name):
        """`name` is about to denote a new element: generalise what still mentions the old one."""
        kinds = []
        for (k, n), val in self.facts.items():
            if root(n) == name and k in ("v", "b"):
                kinds.append(((k, n), val))
        gen = ("gen", name, frozenset(kinds))
        hit = False
        for c, v in list(self.mem.items()):
            if occurs(v, name):
                self.mem[c] = self.generalise(subst(v, name, gen))
        for g, v in list(self.ghost.items()):
            if occurs(v, name):
                self.ghost[g] = subst(v, name, gen)
        for kn in list(self.facts):
            if occurs(kn[1], name):
                del self.facts[kn]
        self.cons = frozenset(c for c in self.cons if not occurs(c, name))

    def generalise(self, v):
        if v[0] == "o" and v[1] == "map":
            d = {}
            for k, x in v[2]:
                x = self.generalise(x)
                d[k] = join(d[k], x) if k in d else x
            return ("o", "map", tuple(sorted(d.items(), key=repr)))
        if v[0] == "o" and v[1] == "deque":
            return v
        if v[0] == "adt":
            return ("adt", v[1], v[2], tuple(self.generalise(x) for x in v[3]))
        if v[0] == "tup":
            return ("tup", tuple(self.generalise(x) for x in v[1]))
        return v

    # -------------------------------------------------- ints
    def bounds(self, s):
        lo, hi = None, None
        if isinstance(s, tuple) and s and s[0] == "ord":
            cs = self.charset(s[1])
            lo, hi = cs[0][0], cs[-1][1]
        elif s in self.eng.uint:
            lo = 0
        if isinstance(s, tuple) and s and s[0] == "mul":
            fs = [self.bounds(x) for x in s[1:3]]
            if all(l is not None and l >= 0 for l, _ in fs):
                lo = fs[0][0] * fs[1][0]
            if (0, 0) in fs:
                lo = hi = 0
        for op, a in self.cons:
            if len(a[2]) == 1 and a[2][0][0] == s and op in ("ge0", "eq0"):
                k = a[2][0][1]
                if k == 1:
                    lo = -a[1] if lo is None else max(lo, -a[1])
                elif k == -1:
                    hi = a[1] if hi is None else min(hi, a[1])
                if op == "eq0" and abs(k) == 1:
                    x = -a[1] * k
                    lo = hi = x
        for op, a in self.cons:
            if op == "ne0" and len(a[2]) == 1 and a[2][0][0] == s and abs(a[2][0][1]) == 1:
                x = -a[1] * a[2][0][1]
                if lo == x:
                    lo += 1
                if hi == x:
                    hi -= 1
        return lo, hi

    def rng(self, a):
        lo = hi = a[1]
        for s, k in a[2]:
            l, h = self.bounds(s)
            if k < 0:
                l, h = h, l
            lo = None if (lo is None or l is None) else lo + k * l
            hi = None if (hi is None or h is None) else hi + k * h
        return lo, hi

    def decide(self, op, a):
        if op == "ne0":
            r = self.decide("eq0", a)
            return None if r is None else not r
        lo, hi = self.rng(a)
        if op == "ge0":
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            if self.entails(a):
                return True
            if self.entails(aff_add(num(-1), a, -1)):
                return False
            return None
        if op == "eq0":
            if lo is not None and lo == hi:
                return lo == 0
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return False
            if len(a[2]) == 1 and isinstance(a[2][0][0], tuple) and a[2][0][0] and a[2][0][0][0] == "ord":
                cp = -a[1] * a[2][0][1]
                cs = self.charset(a[2][0][0][1])
                if not any(l <= cp <= h for l, h in cs):
                    return False
            neg = aff_mul(a, -1)
            for o, c in self.cons:
                if o == "ne0" and (c == a or c == neg):
                    return False
                if o == "eq0" and (c == a or c == neg):
                    return True
            ge, le = self.entails(a), self.entails(neg)
            if ge and le:
                return True
            if self.entails(aff_add(a, num(-1))) or self.entails(aff_add(neg, num(-1))):
                return False
            return None
        raise AssertionError(op)

    def entails(self, a):
        """a >= 0 follows from one or two recorded constraints."""
        cs = []
        for o, c in self.cons:
            if o == "ge0":
                cs.append(c)
            elif o == "eq0":
                cs.append(c)
                cs.append(aff_mul(c, -1))
        def pos(d):
            lo, _ = self.rng(d)
            return lo is not None and lo >= 0
        for c in cs:
            if pos(aff_add(a, c, -1)):
                return True
        for i, c in enumerate(cs):
            for e in cs[i:]:
                if pos(aff_add(aff_add(a, c, -1), e, -1)):
                    return True
        return False

    def assume(self, op, a):
        d = self.decide(op, a)
        if d is True:
            return
        if d is False:
            raise Infeasible()
        if len(a[2]) == 1 and isinstance(a[2][0][0], tuple) and a[2][0][0] and a[2][0][0][0] == "ord" and abs(a[2][0][1]) == 1:
            n = a[2][0][0][1]
            k = a[2][0][1]
            x = -a[1] * k
            if op == "eq0":
                self.refine_chars(n, ((x, x),) if 0 <= x <= MAXCP else ())
            elif op == "ne0":
                self.refine_chars(n, cs_compl(((x, x),)))
            elif k == 1:
                self.refine_chars(n, ((max(x, 0), MAXCP),))
            else:
                self.refine_chars(n, ((0, min(x, MAXCP)),) if x >= 0 else ())
            return
        if op == "eq0":
            # solve for a widening symbol if there is one
            for s, k in a[2]:
                if isinstance(s, tuple) and s and s[0] == "w" and abs(k) == 1:
                    rest = ("i", a[1], tuple(t for t in a[2] if t[0] != s))
                    self.subst_int(s, aff_mul(rest, -k))
                    return
        self.cons = self.cons | {(op, a)}

    def subst_int(self, s, val):
        def sub(v):
            if isinstance(v, tuple):
                if v and v[0] == "i" and len(v) == 3 and isinstance(v[2], tuple):
                    for t, k in v[2]:
                        if t == s:
                            r = ("i", v[1], tuple(x for x in v[2] if x[0] != s))
                            return aff_add(r, val, k)
                    return v
                return tuple(sub(x) for x in v)
            if isinstance(v, frozenset):
                return frozenset(sub(x) for x in v)
            return v
        self.mem = {c: sub(v) for c, v in self.mem.items()}
        self.ghost = {g: sub(v) for g, v in self.ghost.items()}
        self.cons = frozenset((o, sub(c)) for o, c in self.cons)
        bad = [1 for o, c in self.cons if self.__class__.decide(self, o, c) is False and not c[2]]
        if bad:
            raise Infeasible()


SITES = None        # file descriptor: where code that can panic is visited and where it does (C18)
_noted = set()


def note(*what):
    if what not in _noted:
        _noted.add(what)
        import json, os
        os.write(SITES, (json.dumps(what, default=str) + "\n").encode())


def own_site(st):
    """the innermost construct of the analysed crates that is being run"""
    for fr in reversed(st.frames):
        if fr.inst is not None and fr.inst.local:
            t = fr.body[fr.bb]["t"]
            sp = t[5] if t[0] in ("call", "assert") else None
            return (fr.inst.path, "%s:%s" % tuple(sp[:2]) if sp else fr.inst.span())
    return ("?", "?")


class Outcome:
    __slots__ = ("kind", "val", "st", "info")

    def __init__(self, kind, val, st, info=None):
        self.kind, self.val, self.st, self.info = kind, val, st, info
        if SITES is not None and kind == "panic":
            note("panic", *own_site(st), str(info[0]))


BUDGET = 400000


class Engine:
    def __init__(self, prog, intercepts=(), widen_after=3, keep_any=False, max_states=60000):
        self.prog = prog
        self.intercepts = list(intercepts)
        self.uint = set()
        self.keep_any = keep_any
        self.widen_after = widen_after
        self.unmodelled = {}
        self.havocs = []
        self.visited_insts = set()
        self.max_states = max_states
        self.lenient = False     # contents of opaque collections do not matter
        self.halt_at = float("inf")
        self.t0 = time.process_time()
        self.nstates = 0
        self.ntrans = 0
        self.sym_ty = {}
        self.widen_n = 0
        self.merge_ghost = True
        self.ovf_sites = set()
        import models
        self.models = models
        self.on_event = None
        self.exact = None
        self.on_push = None
        self.on_drop = None
        self.pinned = set()
        self.on_write = None
        self.on_panic = None
        self.recursion_max = 2
        self.seconds = ENGINE_SECONDS
        self.elem_ty = None
        self.elem_ty_of = None
        self.drain_tracking = False
        self.drive_seen = {}
        self.conts = {}

    # -------------------------------------------------- entry point
    def run(self, inst, args, st=None, depth0=None):
        """Explore `inst` called on abstract args; returns the list of outcomes."""
        st = st.copy() if st is not None else St(self)
        st.frames = []
        st.eng = self
        self.push_frame(st, inst, args, None, None)
        return self.explore(st)

    def push_frame(self, st, inst, args, dest, ret, cont=None):
        depth = len(st.frames)
        if depth > 60:
            raise Imprecise("call depth: %r" % inst)
        if sum(1 for f in st.frames if f.inst is inst) > self.recursion_max:
            raise Imprecise("recursion in %r" % inst)
        self.visited_insts.add(inst.ix)
        argc = inst.argc
        f = Frame(inst, inst.blocks, 0, dest, ret, depth, cont)
        sp = inst.j.get("spread")
        if sp is not None and len(args) != argc:
            # the spread argument takes the remaining arguments as a tuple
            args = list(args[:sp - 1]) + [("tup", tuple(args[sp - 1:]))]
        if len(args) != argc:
            raise Imprecise("arity mismatch calling %r: %d vs %d" % (inst, len(args), argc))
        st.frames.append(f)
        for i, a in enumerate(args):
            st.mem[("L", depth, i + 1)] = a

    def explore(self, st0):
        outs = []
        seen = {}
        work = [st0]
        while work:
            st = work.pop()
            self.nstates += 1
            if self.nstates >= self.halt_at:
                raise Imprecise("stopped early, there are complaints already")
            if self.nstates > self.max_states:
                raise Imprecise("state budget exceeded in %s" % (st.frames[-1].inst if st.frames else "?"))
            for o in self.run_path(st, work, seen):
                outs.append(o)
        return outs

    def run_path(self, st, work, seen):
        """Run one state until it ends, forks, or meets a known state."""
        outs = []
        while True:
            fr = st.frames[-1]
            if fr.si == 0 and self.is_join(fr):
                r = self.memo(st, seen)
                if r is None:
                    return outs
                st = r
                fr = st.frames[-1]
            snap = None
            try:
                self.body(st)
                if st.frames[-1].body[st.frames[-1].bb]["t"][0] in ("call", "ret"):
                    snap = st.copy()
                res = self.step(st)
            except Fork as fk:
                self.ntrans += len(fk.muts)
                if snap is not None:
                    st = snap
                for m in fk.muts:
                    s2 = st.copy()
                    try:
                        m(s2)
                    except Infeasible:
                        continue
                    except Fork as f2:
                        stack = [(s2, f2)]
                        while stack:
                            s3, f3 = stack.pop()
                            for m3 in f3.muts:
                                s4 = s3.copy()
                                try:
                                    m3(s4)
                                    work.append(s4)
                                except Infeasible:
                                    pass
                        continue
                    work.append(s2)
                return outs
            except Infeasible:
                return outs
            except Imprecise as e:
                e.st = getattr(e, "st", None) or st
                raise
            if res is None:
                continue
            if isinstance(res, Outcome):
                outs.append(res)
                return outs
            # list of states
            self.ntrans += len(res)
            for s2 in res:
                if isinstance(s2, Outcome):
                    outs.append(s2)
                else:
                    work.append(s2)
            return outs

    # -------------------------------------------------- joins
    def is_join(self, fr):
        inst = fr.inst
        if inst._preds is None:
            n = [0] * len(inst.blocks)
            for b in inst.blocks:
                if b["cleanup"]:
                    continue
                for s in succs(b["t"]):
                    n[s] += 1
            inst._preds = n
            inst._heads = loop_heads(inst.blocks)
        return inst._preds[fr.bb] > 1

    def memo(self, st, seen):
        fr = st.frames[-1]
        now = time.time()
        if time.process_time() - self.t0 > self.seconds or now - PROCESS_T0 > PROCESS_SECONDS:
            raise Imprecise("time budget exceeded in %r" % (fr.inst,))
        self.gc(st)
        skel, ints = self.skeleton(st)
        lst = seen.setdefault(skel, [])
        for old_ints, old_cons in lst:
            if self.covered(st, old_ints, old_cons, ints):
                return None
        if fr.bb in fr.inst._heads:
            key = (fr.bb, hash(skel))
            cnt, prev = fr.hist.get(key, (0, None))
            fr.hist[key] = (cnt + 1, (ints, st.cons))
            w = self.widen(st, prev, ints) if cnt >= self.widen_after else None
            if w is not None:
                w.frames[-1].hist[key] = (cnt + 1, None)
                st = w
                self.gc(st)
                skel, ints = self.skeleton(st)
                lst = seen.setdefault(skel, [])
                for old_ints, old_cons in lst:
                    if self.covered(st, old_ints, old_cons, ints):
                        return None
                st.frames[-1].hist[key] = (cnt + 1, (ints, st.cons))
        lst.append((ints, st.cons))
        return st

    def gc(self, st):
        """Drop dead locals and irrelevant facts."""
        top = len(st.frames) - 1
        keep = {}
        for d, f in enumerate(st.frames):
            live, addr = liveness(f.inst, self.prog)
            if d == top:
                lv = live[f.bb]
            else:
                nx = st.frames[d + 1]
                lv = live[nx.ret] if nx.ret is not None else set()
            keep[d] = lv | addr
            if d < top and st.frames[d + 1].dest is not None:
                dst = st.frames[d + 1].dest
                if dst[0][0] == "L" and dst[1]:
                    keep[d] = keep[d] | {dst[0][2]}
        for c in list(st.mem):
            if c[0] == "L":
                if c[1] > top or c[2] not in keep[c[1]]:
                    if isinstance(c[2], tuple) and c[1] <= top and any(f.cont is not None and occurs(f.cont, c) for f in st.frames):
                        continue
                    del st.mem[c]
        roots = set(self.pinned)
        for v in st.mem.values():
            collect_roots(v, roots)
        for v in st.ghost.values():
            collect_roots(v, roots)
        for f in st.frames:
            if f.cont is not None:
                collect_roots(f.cont, roots)
        for k in list(st.facts):
            n = k[1]
            if root(n) in roots or n in roots:
                continue
            if isinstance(n, tuple) and n and n[0] in ("eq", "call", "memb", "lt", "nonempty", "pred"):
                rr = set()
                collect_roots(n, rr)
                rr.discard(n)
                if rr & roots:
                    continue
            del st.facts[k]
        def kept(s):
            if s in roots or root(s) in roots:
                return True
            if isinstance(s, tuple) and s and s[0] == "mul":
                return kept(s[1]) and kept(s[2])
            if isinstance(s, tuple) and s and s[0] in ("len", "size"):
                rr = set()
                collect_roots(s, rr)
                return bool(rr & roots)
            return False
        st.cons = frozenset(c for c in st.cons if all(kept(s) for s, _ in c[1][2]))

    def skeleton(self, st):
        ints = []

        def sk(v):
            if isinstance(v, tuple):
                if len(v) == 3 and v[0] == "i" and isinstance(v[2], tuple):
                    ints.append(v)
                    return "INT"
                return tuple(sk(x) for x in v)
            return v
        fs = tuple(f.sig() for f in st.frames)
        mem = sk(tuple(sorted(st.mem.items(), key=cell_key)))
        gh = sk(tuple(sorted(st.ghost.items(), key=cell_key))) if self.merge_ghost else None
        facts = frozenset(st.facts.items())
        return (fs, mem, gh, facts), tuple(ints)

    def covered(self, st, old_ints, old_cons, ints):
        """The state is an instance of an old one: its widened numbers can be chosen so that all of its constraints hold."""
        sub = match_ints(old_ints, ints)
        if sub is None:
            return False
        for op, c in old_cons:
            x = c
            for s, k in c[2]:
                if s in sub:
                    x = aff_add(x, aff_add(sub[s], ("i", 0, ((s, 1),)), -1), k)
            if (op, x) not in st.cons and st.decide(op, x) is not True:
                return False
        return True

    def widen(self, st, prev, new):
        old, old_cons = prev
        if len(old) != len(new):
            return None
        # a position that carries a symbol of this loop head keeps its fixed part: positions whose symbol moves alike share one
        fr = st.frames[-1]
        head = ("w", fr.inst.ix, fr.bb, len(fr.inst.blocks), len(st.frames))
        groups, names = {}, {}
        plan = []
        for a, b in zip(old, new):
            d = aff_add(b, a, -1)
            ws = [(s, k) for s, k in a[2] if isinstance(s, tuple) and s[:5] == head]
            if not ws:
                if d == num(0):
                    plan.append((b, None, 0))
                    continue
                key, k = d, 1
                if aff_mul(d, -1) in groups:
                    key, k = aff_mul(d, -1), -1
                plan.append((a, key, k))
            elif len(ws) == 1 and abs(ws[0][1]) == 1:
                s, k = ws[0]
                key = (s, aff_mul(d, k))
                plan.append((("i", a[1], tuple(t for t in a[2] if t[0] != s)), key, k))
            else:
                rest = ("i", a[1], tuple(t for t in a[2] if t not in ws))
                key = (tuple(ws), d)
                plan.append((rest, key, 1))
            groups.setdefault(key, len(groups))
        out = []
        for rest, key, k in plan:
            if key is None:
                out.append(rest)
                continue
            if key not in names:
                s, n = head + (groups[key],), 0
                # a symbol that is not in use
                while any(occurs(x, s) for x in old) or any(occurs(x, s) for x in new):
                    n += 1
                    s = head + (groups[key], n)
                names[key] = s
            out.append(aff_add(rest, ("i", 0, ((names[key], 1),)), k))
        s2 = st.copy()
        it = iter(out)

        def put(v):
            if isinstance(v, tuple):
                if len(v) == 3 and v[0] == "i" and isinstance(v[2], tuple):
                    return next(it)
                return tuple(put(x) for x in v)
            return v
        s2.mem = dict(put(tuple(sorted(st.mem.items(), key=cell_key))))
        s2.ghost = dict(put(tuple(sorted(st.ghost.items(), key=cell_key))))
        # inequalities between two numbers that hold before and after, at least one of which is widened, are guessed to last;
        # the next round confirms them or starts over without them
        so = st.copy()
        so.cons = old_cons
        ges = [c for o, c in st.cons if o == "ge0"]
        moved = {i for i, (_, key, _) in enumerate(plan) if key is not None}
        for i in range(len(new)):
            for j in range(len(new)):
                if i != j and (i in moved or j in moved):
                    d = aff_add(new[i], new[j], -1)
                    if d[2] and d in ges and so.decide("ge0", aff_add(old[i], old[j], -1)) is True:
                        e = aff_add(out[i], out[j], -1)
                        if e[2]:
                            s2.cons = s2.cons | {("ge0", e)}
        # keep constraints that do not talk about widened values only if they are about stable symbols
        return s2

    # -------------------------------------------------- types / expansion
    def expand(self, st, v, vi):
        """Make the fields of a symbolic struct explicit (needed to store into one)."""
        t = self.sym_ty.get(v[1])
        if t is None:
            return None
        ty = self.prog.types[t]
        while ty["k"] in ("ref", "ptr"):
            ty = self.prog.types[ty["to"]]
        if ty["k"] == "adt":
            adt = self.prog.adt_by_def[ty["def"]]
            if adt["kind"] == "struct" and adt["variants"][0]["fields"]:
                n = len(adt["variants"][0]["fields"])
                fs = []
                for i in range(n):
                    nm = fname(v[1], None, i)
                    if ty["vf"][0]:
                        self.sym_ty[nm] = ty["vf"][0][i]
                    fs.append(("sym", nm))
                return ("adt", adt["path"], 0, tuple(fs))
            if adt["kind"] == "enum" and vi is not None:
                fs = []
                for i in range(len(adt["variants"][vi]["fields"])):
                    nm = fname(v[1], vi, i)
                    if ty["vf"][vi]:
                        self.sym_ty[nm] = ty["vf"][vi][i]
                    fs.append(("sym", nm))
                return ("adt", adt["path"], vi, tuple(fs))
        if ty["k"] == "tuple":
            return ("tup", tuple(("sym", fname(v[1], None, i)) for i in range(len(ty["args"]))))
        return None

    # -------------------------------------------------- places
    def lval(self, st, p, want_ty=False):
        """-> (('cell', cell, path) | ('val', v), type)"""
        fr = st.frames[-1]
        prog = self.prog
        cell = ("L", fr.depth, p[0])
        cur = ("cell", cell, ())
        t = fr.inst.locals[p[0]] if fr.body is fr.inst.blocks else None
        vi = None
        for e in p[1]:
            if e == "*":
                v = self.get(st, cur)
                if v[0] == "ref":
                    cur = ("cell", v[1], v[2])
                elif v[0] == "rv":
                    cur = ("val", v[1])
                elif v[0] == "box":
                    cur = ("cell", cur[1], cur[2] + ("B",)) if cur[0] == "cell" else ("val", v[1])
                elif v[0] == "sym":
                    cur = ("val", v)
                elif v[0] in ("o", "s", "adt", "arr", "tup", "fn", "clo", "str1", "bytes", "i", "ch", "b"):
                    cur = ("val", v)   # transparent reference
                else:
                    raise Imprecise("deref of %r in %r" % (v, fr.inst))
                ty = prog.types[t] if t is not None else None
                t = ty["to"] if ty and ty["k"] in ("ref", "ptr") else (ty["args"][0] if ty and ty["k"] == "adt" and ty["args"] else None)
                if cur[0] == "val" and cur[1][0] == "sym" and t is not None:
                    self.sym_ty.setdefault(cur[1][1], t)
                continue
            if e[0] == "d":
                vi = e[1]
                continue
            if e[0] == "f":
                ty = prog.types[t] if t is not None else None
                isbox = ty is not None and ty["k"] == "adt" and ty["path"] == "alloc::boxed::Box"
                v = None
                if isbox:
                    v = self.get(st, cur)
                    if v[0] == "box":
                        cur = ("val", ("ref", cur[1], cur[2] + ("B",))) if cur[0] == "cell" else ("val", ("rv", v[1]))
                    else:
                        cur = ("val", v)
                    t = None
                    vi = None
                    self_box = True
                    # swallow the pointer wrappers
                    cur = ("boxptr", cur[1])
                    continue
                if cur[0] == "boxptr":
                    continue
                el = ("f", vi, e[1])
                if cur[0] == "cell":
                    cur = ("cell", cur[1], cur[2] + (el,))
                else:
                    cur = ("val", st.proj(cur[1], el))
                t = e[2]
                vi = None
                continue
            if e[0] == "ci":
                el = ("ci", e[1], e[3])
            elif e[0] == "i":
                iv = self.as_int(st, st.load(("L", fr.depth, e[1])), None)
                if iv[2]:
                    v = self.get(st, cur)
                    if v[0] == "sym":
                        cur = ("val", ("sym", ("f", v[1], "idx", iv)))
                        ty = prog.types[t] if t is not None else None
                        t = ty.get("to") if ty else None
                        continue
                    raise Imprecise("symbolic index in %r" % fr.inst)
                el = ("ci", iv[1], False)
            elif e[0] == "sub":
                v = self.get(st, cur)
                cur = ("val", ("sym", ("sub", v, e[1], e[2], e[3])))
                continue
            else:
                raise Imprecise("projection %r" % (e,))
            v = self.get(st, cur)
            if v[0] == "arr" and el[0] == "ci" and cur[0] == "cell":
                ix = el[1] if not el[2] else len(v[1]) - el[1]
                if ix >= len(v[1]):
                    raise Infeasible()
                cur = ("cell", cur[1], cur[2] + (("f", None, ix),))
            else:
                cur = ("val", st.proj(v, el))
            ty = prog.types[t] if t is not None else None
            t = ty.get("to") if ty else None
        if cur[0] == "boxptr":
            cur = ("val", cur[1])
        return cur, t

    def get(self, st, lv):
        if lv[0] == "cell":
            return st.load(lv[1], lv[2])
        v = lv[1]
        if v[0] == "any":
            # no place to narrow: enumerate is impossible, keep first-class
            raise Imprecise("unnarrowable alternatives %r" % (v,))
        return v

    def read(self, st, p):
        lv, t = self.lval(st, p)
        v = self.get(st, lv)
        if v[0] == "sym" and t is not None:
            self.sym_ty.setdefault(v[1], t)
            ty = self.prog.types[t]
            if ty["k"] == "uint":
                self.uint.add(v[1])
        return v

    def write(self, st, p, val):
        lv, t = self.lval(st, p)
        if lv[0] != "cell":
            v = lv[1]
            self.havocs.append(("write through opaque reference", repr(st.frames[-1].inst)))
            raise Imprecise("write through an opaque reference in %r" % st.frames[-1].inst)
        self.weak_store(st, lv[1], lv[2], val)

    def weak_store(self, st, cell, path, val):
        # storing below a map value is a weak update when the key is generalised
        for i, e in enumerate(path):
            if isinstance(e, tuple) and e[0] == "mv" and has_gen(e[1]):
                old = peek(st, cell, path)
                if old is not None:
                    val = join(old, val)
                break
        st.store(cell, path, val)

    # -------------------------------------------------- operands
    def operand(self, st, o):
        if o[0] == "c":
            return self.read(st, o[1])
        if o[0] == "m":
            v = self.read(st, o[1])
            return v
        if o[0] == "k":
            return self.const(st, o[1])
        if o[0] == "rc":
            return boolean(False)
        raise Imprecise("operand %r" % (o,))

    def const(self, st, c):
        return self.cval(st, c["v"], c["ty"])

    def cval(self, st, v, t):
        prog = self.prog
        if "fn" in v:
            return ("fn", v["fn"], tuple(v["args"]), v["inst"], v["rk"], tuple(v["ctor"]) if v["ctor"] else None)
        if "int" in v:
            return num(int(v["int"]))
        if "bool" in v:
            return boolean(v["bool"])
        if "char" in v:
            return ("ch", v["char"])
        if "str" in v:
            return ("rv", ("s", v["str"]))
        if "tuple" in v:
            return ("tup", tuple(self.cval(st, x, None) for x in v["tuple"]))
        if "arr" in v:
            return ("arr", tuple(self.cval(st, x, None) for x in v["arr"]))
        if "adt" in v:
            p = None
            if t is not None:
                p = prog.types[t].get("path")
            return ("adt", p, v["adt"], tuple(self.cval(st, x, None) for x in v["fields"]))
        if "ref" in v:
            it = None
            if t is not None and prog.types[t]["k"] in ("ref", "ptr"):
                it = prog.types[t]["to"]
            return ("rv", self.cval(st, v["ref"], it))
        if "static" in v:
            s = prog.statics.get(v["static"])
            if s is None:
                return sym("static", prog.defs[v["static"]]["path"])
            return ("rv", self.cval(st, s["v"], s["ty"]))
        if "promoted" in v:
            return self.promoted(st, st.frames[-1].inst, v["promoted"])
        if "zst" in v:
            if t is not None:
                ty = prog.types[t]
                if ty["k"] == "adt":
                    return ("adt", ty["path"], 0, ())
                if ty["k"] == "closure":
                    return ("clo", ("def", ty["def"]), ())
                if ty["k"] == "tuple":
                    return UNIT
            return UNIT
        if "uneval" in v:
            return sym("const", prog.defs[v["uneval"]]["path"])
        return sym("const", str(v))

    def promoted(self, st, inst, k):
        b = inst.j["promoted"][k]
        fake = PromotedInst(inst, b)
        s2 = St(self)
        s2.facts = st.facts
        f = Frame(fake, fake.blocks, 0, None, None, 0)
        s2.frames = [f]
        n = 0
        while True:
            n += 1
            if n > 50:
                raise Imprecise("promoted")
            blk = fake.blocks[f.bb]
            for s in blk["s"]:
                if s[0] == "=":
                    self.write(s2, s[1], self.rvalue(s2, s[2], s[1]))
            if blk["t"][0] == "goto":
                f.bb = blk["t"][1]
                continue
            if blk["t"][0] == "ret":
                break
            if blk["t"][0] == "assert":
                f.bb = blk["t"][4]
                continue
            raise Imprecise("promoted terminator %r" % (blk["t"],))
        return freeze(s2, s2.mem[("L", 0, 0)])

    # -------------------------------------------------- ints
    def as_int(self, st, v, ty):
        if v[0] == "i":
            return v
        if v[0] == "b":
            return num(1 if v[1] else 0)
        if v[0] == "ch":
            return num(v[1])
        if v[0] == "sym":
            k = self.prog.types[ty]["k"] if ty is not None else None
            if k == "char":
                return ("i", 0, ((("ord", v[1]), 1),))
            if k == "uint":
                self.uint.add(v[1])
            return ("i", 0, ((v[1], 1),))
        if v[0] in ("rv", "ref"):
            return self.as_int(st, strip(st, v), ty)
        raise Imprecise("not an integer: %r" % (v,))

    def op_ty(self, st, o):
        if o[0] in "cm":
            _, t = self.lval(st, o[1])
            return t
        if o[0] == "k":
            return o[1]["ty"]
        return None

    # -------------------------------------------------- rvalues
    def rvalue(self, st, r, dst):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k in ("ref", "reborrow", "raw"):
            p = r[2]
            lv, t = self.lval(st, p)
            if lv[0] == "cell":
                return ("ref", lv[1], lv[2])
            v = lv[1]
            if v[0] == "sym":
                if t is not None:
                    self.sym_ty.setdefault(v[1], t)
                return v       # references to opaque data are transparent
            return ("rv", v)
        if k == "discr":
            lv, t = self.lval(st, r[1])
            v = self.get(st, lv)
            if v[0] == "adt":
                a = self.prog.adts.get(v[1])
                if a is None or a["kind"] != "enum":
                    return num(0)
                d = a["variants"][v[2]]["discr"]
                return num(int(d))
            if v[0] == "sym":
                path = self.prog.types[t].get("path") if t is not None else None
                return ("dsc", v[1], path)
            if v[0] == "b":
                return num(int(v[1]))
            raise Imprecise("discriminant of %r in %r" % (v, st.frames[-1].inst))
        if k == "cast":
            v = self.operand(st, r[2])
            tt = self.prog.types[r[3]]
            if tt["k"] in ("int", "uint"):
                if v[0] == "dsc":
                    return v
                if v[0] in ("cond", "not"):
                    return ("bint", v)
                ft = self.op_ty(st, r[2])
                a = self.as_int(st, v, ft)
                if not a[2]:
                    n = a[1]
                    bits = tt["bits"]
                    n &= (1 << bits) - 1
                    if tt["k"] == "int" and n >> (bits - 1):
                        n -= 1 << bits
                    return num(n)
                fk = self.prog.types[ft]["k"] if ft is not None else None
                if fk == "int" and tt["k"] == "uint":
                    lo, _ = st.rng(a)
                    if lo is None or lo < 0:
                        s = ("cast", a)
                        self.uint.add(s)
                        return ("i", 0, ((s, 1),))
                if fk == "char" and tt["bits"] < 21:
                    lo, hi = st.rng(a)
                    if hi is None or hi >= (1 << tt["bits"]):
                        s = ("trunc", tt["bits"], a)
                        self.uint.add(s)
                        return ("i", 0, ((s, 1),))
                return a
            if tt["k"] == "char":
                a = self.as_int(st, v, self.op_ty(st, r[2]))
                if not a[2]:
                    return ("ch", a[1])
                if len(a[2]) == 1 and a[1] == 0 and a[2][0][1] == 1 and a[2][0][0][0] == "ord":
                    return ("sym", a[2][0][0][1])
                return sym("chr", a)
            return v
        if k == "bin":
            return self.binop(st, r[1], r[2], r[3])
        if k == "un":
            v = self.operand(st, r[2])
            if r[1] == "Not":
                return neg(v) if self.is_boolish(st, v, r[2]) else sym("bitnot", v)
            if r[1] == "Neg":
                return aff_mul(self.as_int(st, v, self.op_ty(st, r[2])), -1)
            if r[1] == "PtrMetadata":
                v = strip(st, v)
                return self.length(st, v)
            raise Imprecise("unop %s" % r[1])
        if k == "agg":
            kk = r[1]
            vs = tuple(self.operand(st, o) for o in r[2])
            if kk[0] == "adt":
                d = self.prog.defs[kk[1]]["path"]
                if kk[3] is not None:
                    return sym("union", vs[0])
                return ("adt", d, kk[2], vs)
            if kk[0] == "tuple":
                return ("tup", vs)
            if kk[0] == "array":
                return ("arr", vs)
            if kk[0] == "closure":
                return ("clo", kk[2], vs)
            if kk[0] == "rawptr":
                return vs[0]
            raise Imprecise("aggregate %r" % (kk,))
        if k == "repeat":
            v = self.operand(st, r[1])
            if r[2] is not None and r[2] <= 64:
                return ("arr", (v,) * r[2])
            return sym("repeat", v, r[2])
        raise Imprecise("rvalue %r" % (r,))

    def is_boolish(self, st, v, o):
        if v[0] in ("b", "cond", "not"):
            return True
        t = self.op_ty(st, o)
        return t is not None and self.prog.types[t]["k"] == "bool"

    def length(self, st, v):
        v = strip(st, v)
        if v[0] == "s":
            return num(len(v[1].encode()))
        if v[0] == "arr":
            return num(len(v[1]))
        if v[0] == "o" and v[1] == "list":
            return num(len(v[2]))
        s = ("len", v)
        self.uint.add(s)
        return ("i", 0, ((s, 1),))

    def binop(self, st, op, oa, ob):
        a, b = self.operand(st, oa), self.operand(st, ob)
        ta, tb = self.op_ty(st, oa), self.op_ty(st, ob)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            r = self.compare(st, base, a, b, ta, tb)
            return r
        kb = self.prog.types[ta]["k"] if ta is not None else None
        if kb == "bool" or a[0] in ("b", "cond", "not"):
            if base in ("BitAnd", "BitOr", "BitXor"):
                if a[0] == "b" and b[0] == "b":
                    x = {"BitAnd": a[1] and b[1], "BitOr": a[1] or b[1], "BitXor": a[1] != b[1]}[base]
                    return boolean(x)
                for x, y in ((a, b), (b, a)):
                    if x[0] == "b":
                        if base == "BitAnd":
                            return y if x[1] else boolean(False)
                        if base == "BitOr":
                            return boolean(True) if x[1] else y
                        return neg(y) if x[1] else y
                # decide the left operand first
                self.branch_on(st, a, self.op_cell(st, oa))
        a, b = self.as_int(st, a, ta), self.as_int(st, b, tb)
        ty = self.prog.types[ta] if ta is not None else {"k": "int"}
        if base == "Add":
            v = aff_add(a, b)
        elif base == "Sub":
            v = aff_add(a, b, -1)
        elif base == "Mul":
            if not a[2]:
                v = aff_mul(b, a[1])
            elif not b[2]:
                v = aff_mul(a, b[1])
            else:
                v = self.product(st, a, b)
        elif base in ("Div", "Rem", "Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
            if not a[2] and not b[2] and (b[1] or base not in ("Div", "Rem")):
                x, y = a[1], b[1]
                v = num({"Div": lambda: abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1), "Rem": lambda: x % y,
                         "Shl": lambda: x << y, "Shr": lambda: x >> y, "BitAnd": lambda: x & y,
                         "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}[base]())
            else:
                s = ("bin", base, a, b)
                if ty["k"] == "uint":
                    self.uint.add(s)
                v = ("i", 0, ((s, 1),))
        elif base == "Cmp":
            if not a[2] and not b[2]:
                x = (a[1] > b[1]) - (a[1] < b[1])
                return ("adt", "core::cmp::Ordering", x + 1, ())
            return sym("cmp", a, b)
        else:
            raise Imprecise("binop %s" % op)
        if op.endswith("WithOverflow"):
            return ("tup", (v, self.overflow(st, base, v, a, b, ty)))
        return v

    def product(self, st, a, b):
        # distribute over a product symbol so that n*k stays comparable
        tot = num(a[1] * b[1])
        for s, k in a[2]:
            tot = aff_add(tot, ("i", 0, ((s, k * b[1]),)) if b[1] else num(0))
        for s, k in b[2]:
            tot = aff_add(tot, ("i", 0, ((s, k * a[1]),)) if a[1] else num(0))
        for s, k in a[2]:
            for t, l in b[2]:
                x, y = sorted((s, t), key=repr)
                p = ("mul", x, y)
                if s in self.uint and t in self.uint:
                    self.uint.add(p)
                tot = aff_add(tot, ("i", 0, ((p, k * l),)))
        return tot

    def overflow(self, st, base, v, a, b, ty):
        if not v[2]:
            bits = ty.get("bits", 64)
            if ty["k"] == "uint":
                return boolean(v[1] < 0 or v[1] >= 1 << bits)
            return boolean(v[1] < -(1 << (bits - 1)) or v[1] >= 1 << (bits - 1))
        if base == "Sub" and ty["k"] == "uint":
            return ("cond", "ge0", aff_add(num(-1), v, -1))
        fr = st.frames[-1]
        self.ovf_sites.add((repr(fr.inst), base))
        if SITES is not None and ty.get("bits", 64) <= 16:
            note("panic", *own_site(st), "overflow of %s" % ty["s"])
        return boolean(False)

    def compare(self, st, op, a, b, ta, tb):
        if a[0] == "dsc" or b[0] == "dsc":
            if a[0] != "dsc":
                a, b = b, a
            if b[0] == "i" and not b[2] and op in ("Eq", "Ne"):
                adt = self.prog.adts.get(a[2])
                vi = [i for i, x in enumerate(adt["variants"]) if int(x["discr"]) == b[1]]
                return ("isv", a[1], vi[0] if vi else -1, len(adt["variants"]), op == "Eq")
            if b[0] == "dsc" and b == a:
                return boolean(op == "Eq")
            if b[0] == "dsc" and op in ("Eq", "Ne"):
                # force both
                self.need_variant(st, a[1], len(self.prog.adts[a[2]]["variants"]))
                x = next(iter(st.variants(a[1], 99)))
                return self.compare(st, op, num(int(self.prog.adts[a[2]]["variants"][x]["discr"])), b, ta, tb)
        if a[0] in ("b", "cond", "not") or b[0] in ("b", "cond", "not") or (
                ta is not None and self.prog.types[ta]["k"] == "bool"):
            if a[0] == "b" and b[0] == "b":
                return boolean((a[1] == b[1]) == (op == "Eq"))
            for x, y in ((a, b), (b, a)):
                if x[0] == "b" and op in ("Eq", "Ne"):
                    return y if (x[1] == (op == "Eq")) else neg(y)
            n = ("eq",) + tuple(sorted((a, b), key=repr))
            return ("sym", n) if op == "Eq" else ("not", ("sym", n))
        if ta is not None and self.prog.types[ta]["k"] in ("ref", "ptr", "fnptr"):
            return sym("ptrcmp", op, a, b)
        x, y = self.as_int(st, a, ta), self.as_int(st, b, tb)
        d = aff_add(x, y, -1)
        if ta is not None and self.prog.types[ta]["k"] == "uint":
            # unsigned: > 0 is != 0
            if not y[2] and (op, y[1]) in (("Gt", 0), ("Le", 0), ("Ge", 1), ("Lt", 1)):
                d = x
                op = "Ne" if op in ("Gt", "Ge") else "Eq"
        if op == "Eq":
            c = ("cond", "eq0", d)
        elif op == "Ne":
            c = ("cond", "ne0", d)
        elif op == "Ge":
            c = ("cond", "ge0", d)
        elif op == "Gt":
            c = ("cond", "ge0", aff_add(d, num(-1)))
        elif op == "Le":
            c = ("cond", "ge0", aff_mul(d, -1))
        else:
            c = ("cond", "ge0", aff_add(aff_mul(d, -1), num(-1)))
        r = st.decide(c[1], c[2])
        return c if r is None else boolean(r)

    def need_variant(self, st, name, n):
        vs = st.variants(name, n)
        if len(vs) == 1:
            return next(iter(vs))
        raise Fork([lambda s, i=i: s.set_fact("v", name, frozenset([i])) for i in sorted(vs)])

    def op_cell(self, st, o):
        if o[0] in "cm":
            lv, _ = self.lval(st, o[1])
            if lv[0] == "cell":
                return lv
        return None

    # truth of a boolean abstract value; forks when undecided
    def truth(self, st, v):
        if v[0] in ("rv", "ref"):
            v = strip(st, v)
        if v[0] == "b":
            return v[1]
        if v[0] == "i" and not v[2]:
            return v[1] != 0
        if v[0] == "not":
            return not self.truth(st, v[1])
        if v[0] == "bint":
            return self.truth(st, v[1])
        if v[0] == "cond":
            d = st.decide(v[1], v[2])
            if d is not None:
                return d
            raise Fork([lambda s: s.assume(v[1], v[2]), lambda s: assume_not(s, v)])
        if v[0] == "isv":
            vs = st.variants(v[1], v[3])
            if v[2] not in vs:
                return not v[4]
            if len(vs) == 1:
                return v[4]
            raise Fork([lambda s: s.set_fact("v", v[1], frozenset([v[2]])),
                        lambda s: s.set_fact("v", v[1], vs - {v[2]})])
        if v[0] == "inset":
            cs = st.charset(v[1])
            inn, out = cs_inter(cs, v[2]), cs_inter(cs, cs_compl(v[2]))
            if not inn:
                return False
            if not out:
                return True
            raise Fork([lambda s: s.set_fact("c", v[1], inn), lambda s: s.set_fact("c", v[1], out)])
        if v[0] == "sym":
            f = st.get_fact("b", v[1])
            if f is not None:
                return f
            raise Fork([lambda s: s.set_fact("b", v[1], True), lambda s: s.set_fact("b", v[1], False)])
        raise Imprecise("truth of %r" % (v,))

    def branch_on(self, st, v, cell):
        t = self.truth(st, v)
        if cell is not None:
            raise Fork([lambda s: s.store(cell[1], cell[2], boolean(t))])
        raise Imprecise("boolean operator on undecided operands")

    # -------------------------------------------------- one step
    def body(self, st):
        fr = st.frames[-1]
        st.steps += 1
        if st.steps > BUDGET:
            raise Imprecise("step budget")
        blk = fr.body[fr.bb]
        ss = blk["s"]
        while fr.si < len(ss):
            s = ss[fr.si]
            if s[0] == "=":
                v = self.rvalue(st, s[2], s[1])
                self.write(st, s[1], v)
            elif s[0] == "sd":
                lv, t = self.lval(st, s[1])
                v = self.get(st, lv)
                if v[0] == "adt":
                    st.store(lv[1], lv[2], ("adt", v[1], s[2], v[3]))
            elif s[0] == "dead":
                st.mem.pop(("L", fr.depth, s[1]), None)
            fr.si += 1

    def step(self, st):
        fr = st.frames[-1]
        blk = fr.body[fr.bb]
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return self.jump(st, t[1])
        if k == "switch":
            return self.switch(st, t)
        if k == "ret":
            return self.ret(st)
        if k == "call":
            return self.call(st, t)
        if k == "assert":
            c = self.operand(st, t[1])
            if SITES is not None:
                note("visit", *own_site(st))
            if self.truth(st, c) == t[2]:
                return self.jump(st, t[4])
            return Outcome("panic", None, st, ("assert " + t[3][0], t[5], repr(fr.inst)))
        if k == "drop":
            return self.jump(st, t[2])
        if k == "unreachable":
            raise Infeasible()
        if k == "unwind":
            return Outcome("unwind", None, st)
        raise Imprecise("terminator %r" % (t,))

    def jump(self, st, bb):
        fr = st.frames[-1]
        fr.bb = bb
        fr.si = 0
        return None

    def switch(self, st, t):
        v = self.operand(st, t[1])
        fr = st.frames[-1]
        targets, other = t[2], t[3]
        if v[0] == "dsc":
            name, path = v[1], v[2]
            adt = self.prog.adts.get(path)
            if adt is None:
                raise Imprecise("switch on unknown enum %r" % (path,))
            vs = st.variants(name, len(adt["variants"]))
            out = []
            rest = set(vs)
            for val, bb in targets:
                for i, x in enumerate(adt["variants"]):
                    if int(x["discr"]) == val and i in vs:
                        s2 = st.copy()
                        s2.set_fact("v", name, frozenset([i]))
                        self.jump(s2, bb)
                        out.append(s2)
                        rest.discard(i)
            if rest and fr.body[other]["t"][0] != "unreachable":
                s2 = st.copy()
                s2.set_fact("v", name, frozenset(rest))
                self.jump(s2, other)
                out.append(s2)
            if len(out) == 1:
                st2 = out[0]
                return [st2]
            return out
        ty = self.op_ty(st, t[1])
        kt = self.prog.types[ty]["k"] if ty is not None else None
        if kt == "bool" or v[0] in ("b", "cond", "not", "isv", "inset", "bint"):
            b = self.truth(st, v)
            n = 1 if b else 0
            for val, bb in targets:
                if val == n:
                    return self.jump(st, bb)
            return self.jump(st, other)
        a = self.as_int(st, v, ty)
        if not a[2]:
            n = a[1]
            if kt == "int" and n < 0:
                n += 1 << self.prog.types[ty]["bits"]
            for val, bb in targets:
                if val == n:
                    return self.jump(st, bb)
            return self.jump(st, other)
        out = []
        last = st
        for val, bb in targets:
            s2 = st.copy()
            d = aff_add(a, num(val), -1)
            try:
                s2.assume("eq0", d)
                self.jump(s2, bb)
                out.append(s2)
            except Infeasible:
                pass
        s2 = st.copy()
        try:
            for val, bb in targets:
                s2.assume("ne0", aff_add(a, num(val), -1))
            if fr.body[other]["t"][0] != "unreachable":
                self.jump(s2, other)
                out.append(s2)
        except Infeasible:
            pass
        if not out:
            raise Infeasible()
        return out

    def ret(self, st):
        fr = st.frames[-1]
        v = st.mem.get(("L", fr.depth, 0), UNIT)
        if v[0] == "any":
            st.load(("L", fr.depth, 0))
        if v[0] == "ref" and v[1][0] == "L" and v[1][1] == fr.depth:
            v = ("rv", st.load(v[1], v[2]))
        for c in list(st.mem):
            if c[0] == "L" and c[1] >= fr.depth:
                del st.mem[c]
        st.frames.pop()
        if not st.frames:
            return Outcome("ret", v, st)
        if fr.cont is not None:
            return self.deliver(st, v, fr.dest, fr.ret, fr.cont)
        if fr.dest is not None:
            self.weak_store(st, fr.dest[0], fr.dest[1], v)
        if fr.ret is None:
            return Outcome("panic", None, st, ("diverges", None, ""))
        return self.jump(st, fr.ret)

    # -------------------------------------------------- calls
    def call(self, st, t):
        fr = st.frames[-1]
        if SITES is not None and fr.inst is not None and fr.inst.local:
            note("visit", *own_site(st))
        f = self.operand(st, t[1])
        args = [self.operand(st, a) for a in t[2]]
        dlv, dty = self.lval(st, t[3])
        if dlv[0] != "cell":
            raise Imprecise("call destination")
        dest = (dlv[1], dlv[2])
        return self.invoke(st, f, args, dest, t[4], t[5], dty)

    def finish(self, st, dest, ret, v):
        """Deliver the result of a modelled call."""
        if ret is None:
            return Outcome("panic", None, st, ("diverges", None, repr(st.frames[-1].inst)))
        if dest is not None:
            self.weak_store(st, dest[0], dest[1], v)
        return self.jump(st, ret)

    def invoke(self, st, f, args, dest, ret, site, dty=None, cont=None):
        prog = self.prog
        if f[0] in ("rv", "ref"):
            f = strip(st, f)
        if f[0] == "clo":
            # direct closure value (from models)
            inst = prog.insts[f[1]] if not isinstance(f[1], tuple) else None
            if inst is None:
                raise Imprecise("closure without body")
            self.push_frame(st, inst, args, dest, ret, cont)
            return None
        if f[0] != "fn":
            r = self.intercept_opaque(st, f, args, dest, ret, site)
            if r is not NotImplemented:
                return r
            raise Imprecise("call of %r in %r" % (f, st.frames[-1].inst))
        _, di, targs, ix, rk, ctor = f
        d = prog.defs[di]
        if ctor is not None:
            v = ("adt", prog.defs[ctor[0]]["path"], ctor[1], tuple(args))
            return self.deliver(st, v, dest, ret, cont)
        inst = prog.insts[ix] if ix is not None else None
        key = inst.path if inst is not None else d["path"]
        call = Call(self, st, d, inst, key, targs, args, dest, ret, site, dty, cont)
        for h in self.intercepts:
            r = h(call)
            if r is not NotImplemented:
                return r
        r = self.models.model(call)
        if r is not NotImplemented:
            return r
        if inst is not None and inst.has_body:
            a = list(args)
            dd = prog.defs[inst.j["def"]]
            if dd["kind"] == "Closure" and len(a) == 2 and inst.j.get("spread") is None:
                tv = strip(st, a[1])
                if tv[0] == "tup" and not (inst.argc == 2 and len(tv[1]) != 1):
                    a = [a[0]] + list(tv[1])
            self.push_frame(st, inst, a, dest, ret, cont)
            return None
        return self.opaque(call)

    def deliver(self, st, v, dest, ret, cont):
        if cont is not None:
            return self.models.cont(self, st, cont, v, dest, ret)
        return self.finish(st, dest, ret, v)

    def intercept_opaque(self, st, f, args, dest, ret, site):
        if f[0] == "sym":
            v = sym("call", f[1], tuple(deep(st, a) for a in args))
            return self.finish(st, dest, ret, v)
        return NotImplemented

    def opaque(self, call):
        """Unknown callee: pure term; what it may mutate becomes unknown."""
        st = call.st
        self.unmodelled[call.key] = self.unmodelled.get(call.key, 0) + 1
        for a, ty in zip(call.args, call.arg_types()):
            if ty is not None and self.prog.types[ty]["k"] == "ref" and self.prog.types[ty]["mut"] and a[0] == "ref":
                st.store(a[1], a[2], sym("havoc", call.key))
                self.havocs.append((call.key, repr(st.frames[-1].inst)))
        v = ("sym", ("call", call.key, tuple(limit(deep(st, a)) for a in call.args)))
        if call.dty is not None:
            self.sym_ty.setdefault(v[1], call.dty)
        return self.deliver(st, v, call.dest, call.ret, call.cont)


    # -------------------------------------------------- writing text
    def write_piece(self, st, target, v, dest, ret, cont, site, tb):
        """`target.write_str(v)` where target's type is named tb."""
        if self.on_write is not None:
            r = self.on_write(self, st, target, v, dest, ret, cont, site, tb)
            if r is not NotImplemented:
                return r
        inst = self.models.find_write(self, tb, "write_str")
        if inst is not None:
            self.push_frame(st, inst, [target, v], dest, ret, cont)
            return None
        raise Imprecise("write to %s %r at %r" % (tb, target, site))

    # stacks: hook points that keep analysis-side bookkeeping in step with a stack of the program
    def stk_save(self, st, top):
        return top

    def stk_restore(self, st, r):
        return r

    def stk_bottom(self, st, top):
        """is `top` the only element of the stack (None: may be)"""
        return None

    def stk_empty(self, st):
        pass

    def feed_next(self, call, o):
        raise Imprecise("feed")

    feed_peek = feed_iter = vec_iter = feed_next


class Call:
    __slots__ = ("eng", "st", "d", "inst", "key", "targs", "args", "dest", "ret", "site", "dty", "cont")

    def __init__(self, eng, st, d, inst, key, targs, args, dest, ret, site, dty, cont):
        self.eng, self.st, self.d, self.inst, self.key, self.targs = eng, st, d, inst, key, targs
        self.args, self.dest, self.ret, self.site, self.dty, self.cont = args, dest, ret, site, dty, cont

    @property
    def name(self):
        return self.d["name"]

    def done(self, v):
        return self.eng.deliver(self.st, v, self.dest, self.ret, self.cont)

    def each(self, outcomes):
        """outcomes: list of (mutator, value-function)."""
        res = []
        for mut, val in outcomes:
            s2 = self.st.copy()
            try:
                if mut is not None:
                    mut(s2)
                v = val(s2) if callable(val) else val
                r = self.eng.deliver(s2, v, self.dest, self.ret, self.cont)
            except Infeasible:
                continue
            if r is None:
                res.append(s2)
            elif isinstance(r, list):
                res.extend(r)
            else:
                res.append(r)
        if not res:
            raise Infeasible()
        return res

    def arg_types(self):
        fr = self.st.frames[-1]
        t = fr.body[fr.bb]["t"]
        if t[0] == "call":
            ts = [self.eng.op_ty(self.st, o) for o in t[2]]
            if len(ts) == len(self.args):
                return ts
        return [None] * len(self.args)

    def where(self):
        return "%s:%d" % tuple(self.site) if self.site else "?"


class PromotedInst:
    def __init__(self, inst, b):
        self.ix = ("promoted", inst.ix)
        self.j = inst.j
        self.blocks = b["blocks"]
        self.locals = b["locals"]
        self.argc = 0
        self._preds = None

    def __repr__(self):
        return "promoted"


_cell_keys = {}


def cell_key(t):
    c = t[0]
    r = _cell_keys.get(c)
    if r is None:
        r = _cell_keys[c] = repr(c)
    return r


def freeze(st, v):
    if v[0] == "ref":
        return ("rv", freeze(st, st.load(v[1], v[2])))
    if v[0] == "rv":
        return ("rv", freeze(st, v[1]))
    if v[0] == "adt":
        return ("adt", v[1], v[2], tuple(freeze(st, x) for x in v[3]))
    if v[0] in ("tup", "arr"):
        return (v[0], tuple(freeze(st, x) for x in v[1]))
    return v


def limit(v, d=0):
    if d > 8:
        return ("sym", "deep")
    if isinstance(v, tuple):
        return tuple(limit(x, d + 1) for x in v)
    return v


def neg(v):
    if v[0] == "b":
        return boolean(not v[1])
    if v[0] == "not":
        return v[1]
    if v[0] == "cond":
        op, a = v[1], v[2]
        if op == "eq0":
            return ("cond", "ne0", a)
        if op == "ne0":
            return ("cond", "eq0", a)
        return ("cond", "ge0", aff_add(num(-1), a, -1))
    if v[0] == "isv":
        return v[:4] + (not v[4],)
    return ("not", v)


def assume_not(s, v):
    n = neg(v)
    s.assume(n[1], n[2])


def has_gen(v):
    if isinstance(v, tuple):
        if v and v[0] == "gen":
            return True
        return any(has_gen(x) for x in v)
    return False


def peek(st, cell, path):
    v = st.mem.get(cell)
    try:
        for e in path:
            v = st.proj(v, e)
    except (Imprecise, Infeasible):
        return None
    return v


def match_ints(old, new):
    """new is an instance of old (old's widening symbols may stand for anything)."""
    if old == new:
        return {}
    if len(old) != len(new):
        return None
    sub = {}
    for a, b in zip(old, new):
        ws = [(s, k) for s, k in a[2] if isinstance(s, tuple) and s and s[0] == "w"]
        if not ws:
            if a != b:
                return None
            continue
        x = a
        for s, k in ws:
            if s in sub:
                x = aff_add(("i", x[1], tuple(t for t in x[2] if t[0] != s)), sub[s], k)
        ws = [(s, k) for s, k in ws if s not in sub]
        if not ws:
            if x != b:
                return None
            continue
        if len(ws) > 1 or abs(ws[0][1]) != 1:
            return None
        s, k = ws[0]
        rest = ("i", x[1], tuple(t for t in x[2] if t[0] != s))
        sub[s] = aff_mul(aff_add(b, rest, -1), k)
    return sub


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    if k == "drop":
        return [t[2]]
    return []


def loop_heads(blocks):
    heads = set()
    color = {}
    stack = [(0, iter(succs(blocks[0]["t"])))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s) == 1:
                heads.add(s)
            elif s not in color:
                color[s] = 1
                stack.append((s, iter(succs(blocks[s]["t"]))))
                break
        else:
            color[b] = 2
            stack.pop()
    return heads


def _uses_place(p, use):
    use.add(p[0])
    for e in p[1]:
        if isinstance(e, list) and e[0] == "i":
            use.add(e[1])


def _uses_op(o, use):
    if o[0] in "cm" and o[0] != "rc":
        _uses_place(o[1], use)


def liveness(inst, prog):
    """(live-in per block, locals whose address is taken)"""
    if getattr(inst, "_live", None) is not None:
        return inst._live
    n = len(inst.blocks)
    addr = set()
    gen, kill = [set() for _ in range(n)], [set() for _ in range(n)]
    for bi, b in enumerate(inst.blocks):
        g, k = gen[bi], kill[bi]

        def use(p):
            u = set()
            _uses_place(p, u)
            g.update(u - k)

        def useop(o):
            if o[0] in ("c", "m"):
                use(o[1])
        for s in b["s"]:
            if s[0] == "=":
                r = s[2]
                if r[0] in ("use", "repeat"):
                    useop(r[1])
                elif r[0] in ("ref", "reborrow", "raw"):
                    use(r[2])
                    if "*" not in r[2][1]:
                        addr.add(r[2][0])
                elif r[0] == "cast":
                    useop(r[2])
                elif r[0] == "bin":
                    useop(r[2])
                    useop(r[3])
                elif r[0] == "un":
                    useop(r[2])
                elif r[0] == "discr":
                    use(r[1])
                elif r[0] == "agg":
                    for o in r[2]:
                        useop(o)
                if s[1][1]:
                    use(s[1])
                else:
                    k.add(s[1][0])
            elif s[0] == "sd":
                use(s[1])
        t = b["t"]
        if t[0] == "switch":
            useop(t[1])
        elif t[0] == "call":
            useop(t[1])
            for o in t[2]:
                useop(o)
            if t[3][1]:
                use(t[3])
        elif t[0] == "assert":
            useop(t[1])
            for o in t[3][1:]:
                if isinstance(o, list):
                    useop(o)
        elif t[0] == "ret":
            if 0 not in k:
                g.add(0)
    live = [set(g) for g in gen]
    ch = True
    while ch:
        ch = False
        for bi in range(n - 1, -1, -1):
            t = inst.blocks[bi]["t"]
            o = set()
            for s in succs(t):
                o |= live[s]
            if t[0] == "call" and not t[3][1]:
                o.discard(t[3][0])
            nl = gen[bi] | (o - kill[bi])
            if nl != live[bi]:
                live[bi] = nl
                ch = True
    inst._live = (live, addr)
    return inst._live
