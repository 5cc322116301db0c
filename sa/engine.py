"""Path-sensitive typestate dataflow over monomorphic MIR, run to a fixpoint.

The abstract state is: call frames, a store of abstract values, a finite set of facts about
symbols, and the state of a property monitor.  At join points and loop heads states are
canonicalised (dead locals dropped, fresh symbols and cells renamed) and each canonical state is
analysed once.  There is no solver: every fact is an entry in a finite table.
"""
import heapq
import random
import sys
import time

from prog import succs

sys.setrecursionlimit(100000)


class NeedFork(Exception):
    """Unknown fact: the state is split, one copy per (key, value)."""

    def __init__(self, alts):
        self.alts = alts


class Dead(Exception):
    pass


class Unknown(Exception):
    """Outside what the analysis models: the path is given up and counted."""


class Frame:
    __slots__ = ("fn", "bb", "si", "fs", "dest", "target", "hook", "args", "deep")

    def copy(self):
        f = Frame()
        f.deep = self.deep
        f.fn, f.bb, f.si, f.fs = self.fn, self.bb, self.si, self.fs
        f.dest, f.target, f.hook, f.args = self.dest, self.target, self.hook, self.args
        return f


TRUE = ("b", 1)
FALSE = ("b", 0)
UNIT = ("A", 0, ())
NONE = ("A", 0, ())


def some(v):
    return ("A", 1, (v,))


def ok(v=UNIT):
    return ("A", 0, (v,))


def err(v):
    return ("A", 1, (v,))


class State:
    __slots__ = ("frames", "heap", "facts", "mon", "nsym", "log", "taint", "steps")

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = self.heap.copy()
        s.facts = self.facts.copy()
        s.mon = self.mon
        s.nsym = self.nsym
        s.log = self.log
        s.taint = self.taint
        s.steps = self.steps
        return s

    def fresh(self):
        self.nsym += 1
        return ("$N", self.nsym)

    def alloc(self, v):
        self.nsym += 1
        c = ("$H", self.nsym)
        self.heap[c] = v
        return c

    def note(self, s):
        self.log = (self.log, s)

    def trail(self):
        out = []
        l = self.log
        while l:
            out.append(l[1])
            l = l[0]
        return out[::-1]


class Work:
    """Worklist in weak topological order: loops are finished before what follows them,
    and what recurses more than twice comes after everything that does not."""

    def __init__(self):
        self.h = []
        self.n = 0

    def key(self, st):
        d = st.frames[-1].deep if st.frames else 0
        return (d if d > 2 else 0,) + tuple([f.fn.pos[f.bb] if f.fn is not None else 0 for f in st.frames])

    def append(self, st):
        self.n += 1
        heapq.heappush(self.h, (self.key(st), -self.n, st))

    def pop(self):
        return heapq.heappop(self.h)[2]

    def before(self, st):
        return bool(self.h) and self.h[0][0] < self.key(st)

    def __len__(self):
        return len(self.h)


class Hunt(Work):
    """Depth-first from states picked at random: what is left when a budget ran out
    before the worklist was empty.  It finds violations sooner; it proves nothing."""

    def __init__(self):
        Work.__init__(self)
        self.rng = random.Random(1)
        self.last = -1

    def append(self, st):
        self.h.append(st)

    def pop(self):
        if len(self.h) > self.last >= 0:
            # the last path went on: follow it
            self.last = len(self.h) - 1
            return self.h.pop()
        i = self.rng.randrange(len(self.h))
        self.h[i], self.h[-1] = self.h[-1], self.h[i]
        self.last = len(self.h) - 1
        return self.h.pop()

    def before(self, st):
        return False


NOSTEP = object()


MAX_SECS = 240     # per analysis; the driver sets it to a share of what is left


class Engine:
    def __init__(self, prog, models, cfg=None):
        self.p = prog
        self.models = models
        self.cfg = cfg or {}
        self.seen_values = {}
        self.WIDE = self.cfg.get("wide", self.WIDE)
        self.undecided = {}
        self.violations = {}
        self.probing = False          # states of a predicate's probe are told apart by the character
        self.stats = {"states": 0, "steps": 0, "memo": 0, "paths": 0, "fns": set(), "joins": 0}
        self.max_states = self.cfg.get("max_states", 400000)
        self.hunting = False
        self.max_depth = self.cfg.get("max_depth", 120)
        self.resolved = {}
        self.inhab = {}
        for f in prog.fns:
            f.model = models.lookup(f) if models else None

    # ---- reporting
    def undecide(self, why):
        self.undecided[why] = self.undecided.get(why, 0) + 1

    def violate(self, st, prop, key, msg):
        """A definite violation of `prop` on this path (suppressed on tainted paths)."""
        if st.taint:
            self.undecide("suppressed(%s): %s" % (prop, st.taint))
            return
        k = (prop, key)
        if k not in self.violations:
            where = [f.fn.name for f in st.frames if f.fn and f.fn.crate in ("instant_xml", "fixtures", "core", "alloc", "std")]
            self.violations[k] = {"property": prop, "key": key, "msg": msg,
                                  "frames": where[-6:], "trail": [str(x) for x in st.trail()][-40:]}

    # ---- types
    def ty(self, i):
        return self.p.types[i]

    def inhabited(self, tid, depth=0):
        if depth > 4:
            return True
        t = self.p.types[tid]
        if t["k"] == "never":
            return False
        if t["k"] == "adt":
            r = self.inhab.get(tid)
            if r is None:
                self.inhab[tid] = True
                vs = t["variants"]
                if t.get("adt") == "enum":
                    r = any(all(self.inhabited(f[1], depth + 1) for f in v["fields"]) for v in vs)
                else:
                    r = all(self.inhabited(f[1], depth + 1) for f in vs[0]["fields"]) if vs else True
                self.inhab[tid] = r
            return r
        return True

    # ---- facts
    def ask(self, st, key, choices):
        v = st.facts.get(key)
        if v is None:
            if len(choices) == 1:
                st.facts[key] = choices[0]
                return choices[0]
            raise NeedFork([(key, c) for c in choices])
        return v

    def variant(self, st, v):
        """Variant index of an enum value."""
        if v[0] == "A":
            return v[1]
        if v[0] == "y":
            t = self.ty(v[2])
            if t["k"] == "adt" and t.get("adt") == "enum":
                vs = t["variants"]
                alts = [i for i, x in enumerate(vs)
                        if all(self.inhabited(f[1]) for f in x["fields"])]
                return self.ask(st, ("var", v[1]), alts)
            return 0
        h = self.models.variant(self, st, v)
        if h is not None:
            return h
        raise Unknown("variant of %s" % (v[0],))

    def as_bool(self, st, v):
        if v[0] == "b":
            return v[1]
        if v[0] == "y":
            return self.ask(st, ("b", v[1]), (0, 1))
        if v[0] == "i":
            return 1 if v[1] else 0
        raise Unknown("bool of %s" % (v[0],))

    def choose_const(self, st, v, vals):
        return self.models.choose(self, st, v, vals)

    # ---- values
    def child(self, v, ty, k, i):
        if ty["name"].endswith("borrow::Cow"):
            return v[1]
        return ("f", v[1], k, i)

    def field(self, st, v, i, fty=None):
        t = v[0]
        if t == "A":
            if v[2] is None:
                raise Unknown("field of partial")
            if i >= len(v[2]):
                raise Unknown("field index")
            r = v[2][i]
            if r is None:
                raise Unknown("uninit field")
            return r
        if t == "y":
            ty = self.ty(v[2])
            if ty["k"] == "adt":
                nm = ty["name"]
                if ty.get("box") is not None or nm in ("std::ptr::NonNull", "std::ptr::Unique", "core::ptr::NonNull", "core::ptr::Unique"):
                    return ("y", v[1], fty if fty is not None else ty["variants"][0]["fields"][i][1])
                k = self.variant(st, v)
                f = ty["variants"][k]["fields"][i]
                return self.sym_value(st, self.child(v, ty, k, i), f[1])
            if ty["k"] in ("tuple",):
                return self.sym_value(st, ("f", v[1], 0, i), ty["args"][i])
            if ty["k"] == "closure":
                return self.sym_value(st, ("f", v[1], 0, i), ty["upvars"][i])
            raise Unknown("field of symbolic %s" % ty["k"])
        if t == "ref" or t == "sc":
            return v
        raise Unknown("field of %s" % (t,))

    def sym_value(self, st, sym, tid):
        """The abstract value of a symbol of the given type."""
        t = self.ty(tid)
        k = t["k"]
        if k == "ref":
            to = self.ty(t["of"])
            if to["k"] == "str":
                return ("str", (("y", sym),))
            return ("ref", ("$D", sym, t["of"]), ())
        if k == "adt":
            m = self.models.sym_adt.get(t["name"])
            if m:
                return m(self, st, sym, tid)
            if t.get("box") is not None:
                return ("ref", ("$D", sym, t["box"]), ())
        if k == "tuple" and not t["args"]:
            return UNIT
        return ("y", sym, tid)

    def load_cell(self, st, cell):
        c = cell[0]
        if c in ("=", "=s"):
            return cell[1]
        v = st.heap.get(cell)
        if v is None:
            if c == "$D":
                v = self.sym_value(st, cell[1], cell[2])
                st.heap[cell] = v
                return v
            raise Unknown("uninitialised %s" % (cell,))
        return v

    def read(self, st, cell, path):
        v = self.load_cell(st, cell)
        for s in path:
            v = self.step(st, v, s)
        return v

    def step(self, st, v, s):
        if type(s) is int:
            return self.field(st, v, s)
        k = s[0]
        if k == "f":
            return self.field(st, v, s[1], s[2])
        if k == "e":
            return self.models.elem(self, st, v, s[1])
        if k == "m":
            return v[1][s[1]][1]
        raise Unknown("step %s" % (s,))

    def write(self, st, cell, path, new):
        if cell[0] in ("=", "=s"):
            raise Unknown("write to constant")
        if not path:
            st.heap[cell] = new
            return
        v = st.heap.get(cell)
        if v is None and cell[0] == "$D":
            v = self.load_cell(st, cell)
        st.heap[cell] = self.rebuild(st, v, path, 0, new)

    def rebuild(self, st, v, path, k, new):
        if k == len(path):
            return new
        s = path[k]
        i = s if type(s) is int else s[1]
        if type(s) is not int and s[0] == "e":
            return self.models.set_elem(self, st, v, i, path, k, new)
        if type(s) is not int and s[0] == "m":
            es = list(v[1])
            es[i] = (es[i][0], self.rebuild(st, es[i][1], path, k + 1, new))
            return ("Map", tuple(es))
        if v is None:
            # field-wise initialisation of an aggregate
            fs = [None] * (i + 1)
            fs[i] = self.rebuild(st, None, path, k + 1, new)
            return ("A", 0, tuple(fs))
        if v[0] == "y":
            v = self.expand(st, v)
        if v[0] != "A":
            if v[0] == "ref":
                return self.rebuild(st, v, path, k + 1, new) if k + 1 < len(path) else new
            raise Unknown("write field of %s" % (v[0],))
        fs = list(v[2])
        while len(fs) <= i:
            fs.append(None)
        fs[i] = self.rebuild(st, fs[i], path, k + 1, new)
        return ("A", v[1], tuple(fs))

    def expand(self, st, v):
        t = self.ty(v[2])
        if t["k"] == "adt":
            k = self.variant(st, v)
            n = len(t["variants"][k]["fields"])
            return ("A", k, tuple(self.field(st, v, i) for i in range(n)))
        if t["k"] == "tuple":
            return ("A", 0, tuple(self.field(st, v, i) for i in range(len(t["args"]))))
        raise Unknown("expand %s" % t["k"])

    # ---- places
    def place(self, st, fr, p):
        """Resolve a MIR place to (cell, path)."""
        cell = ("$L", fr.fs, p[0])
        path = ()
        for q in p[1]:
            k = q[0]
            if k == "field":
                path = path + (q[1],)
            elif k == "deref":
                v = self.read(st, cell, path)
                cell, path = self.deref(st, v)
            elif k in ("downcast", "cast"):
                continue
            elif k == "index":
                ix = self.load_cell(st, ("$L", fr.fs, q[1]))
                path = path + (("e", ix),)
            elif k == "cindex":
                v = self.read(st, cell, path)
                n = ("i", q[1])
                if q[3]:
                    n = ("i", self.models.known_len(self, st, v) - q[1])
                path = path + (("e", n),)
            elif k == "subslice":
                v = self.read(st, cell, path)
                nv = self.models.subslice(self, st, v, q[1], q[2], q[3])
                cell, path = ("=", nv), ()
            else:
                raise Unknown("projection %s" % k)
        return cell, path

    def deref(self, st, v):
        t = v[0]
        if t == "ref":
            return v[1], v[2]
        if t == "y":
            ty = self.ty(v[2])
            to = ty.get("box")
            if to is None:
                to = ty.get("of")
            if to is None:
                raise Unknown("deref of symbolic %s" % ty["d"])
            return ("$D", v[1], to), ()
        if t in ("str", "slv", "dyn", "iter"):
            return ("=s", v), ()
        raise Unknown("deref of %s" % (t,))

    def deref_all(self, st, v):
        """Follow references to the final value."""
        n = 0
        while v[0] == "ref":
            v = self.read(st, v[1], v[2])
            n += 1
            if n > 20:
                raise Unknown("deref chain")
        return v

    def operand(self, st, fr, o):
        k = o[0]
        if k == "const":
            return self.const(st, o[1], o[2])
        p = o[1]
        if not p[1]:
            v = st.heap.get(("$L", fr.fs, p[0]))
            if v is None:
                raise Unknown("uninit local _%d in %s" % (p[0], fr.fn.name))
            if k == "move":
                pass
            return v
        cell, path = self.place(st, fr, p)
        return self.read(st, cell, path)

    def const(self, st, c, tid):
        k = c[0]
        if k == "bool":
            return ("b", 1 if c[1] else 0)
        if k == "int":
            return ("i", int(c[1]))
        if k == "char":
            return ("c", c[1])
        if k == "str":
            return ("str", (("k", c[1]),) if c[1] else ())
        if k == "ref":
            t = self.ty(tid)
            return ("ref", ("=", self.const(st, c[1], c[2])), ())
        if k == "slice":
            return ("ref", ("=", ("arr", tuple(self.const(st, x, None) for x in c[1]))), ())
        if k == "agg":
            t = self.ty(tid) if tid is not None else None
            tk = t["k"] if t else "adt"
            if tk == "array":
                return ("arr", tuple(self.const_child(st, x) for x in c[2]))
            fs = tuple(self.const_child(st, x) for x in c[2])
            return ("A", c[1] or 0, fs)
        if k == "zst":
            t = self.ty(tid) if tid is not None else None
            if t and t["k"] == "fndef":
                return ("fn", t.get("inst"))
            if t and t["k"] == "array":
                return ("arr", ())
            if t and t["k"] == "adt" and t.get("adt") == "enum":
                return ("A", 0, ())
            return self.zst(tid)
        if k == "fnptr":
            return ("fn", c[1])
        if k == "float":
            return ("fl", c[1])
        return ("y", ("opaque", tid), tid)

    def zst(self, tid):
        if tid is None:
            return UNIT
        t = self.ty(tid)
        if t["k"] == "adt" and t["variants"]:
            return ("A", 0, tuple(self.zst(f[1]) for f in t["variants"][0]["fields"]))
        if t["k"] == "tuple":
            return ("A", 0, tuple(self.zst(x) for x in t["args"]))
        if t["k"] == "closure":
            return ("A", 0, ())
        return UNIT

    def const_child(self, st, x):
        # children of aggregates are [val, ty] pairs or bare values
        if len(x) == 2 and isinstance(x[0], list):
            return self.const(st, x[0], x[1])
        return self.const(st, x, None)

    def opty(self, fr, o):
        if o[0] == "const":
            return o[2]
        t = fr.fn.locals[o[1][0]]
        for q in o[1][1]:
            k = q[0]
            ty = self.ty(t)
            if k == "field":
                t = q[2]
            elif k == "deref":
                t = ty.get("box") if ty.get("box") is not None else ty.get("of")
            elif k in ("index", "cindex"):
                t = ty["of"]
        return t

    # ---- rvalues
    def rvalue(self, st, fr, r, destp):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "addr"):
            p = r[1]
            cell, path = self.place(st, fr, p)
            if cell[0] == "=s" and not path:
                return cell[1]
            return ("ref", cell, path)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            kind = r[1]
            if kind[0] == "array":
                return ("arr", tuple(ops))
            if kind[0] == "adt":
                t = self.ty(kind[1])
                if t.get("adt") == "union":
                    raise Unknown("union")
                m = self.models.agg_adt.get(t["name"])
                if m:
                    return m(self, st, kind, ops)
                return ("A", kind[2], tuple(ops))
            if kind[0] == "tuple" or kind[0] == "closure":
                return ("A", 0, tuple(ops))
            if kind[0] == "rawptr":
                return self.models.rawptr(self, st, ops)
            raise Unknown("aggregate %s" % kind[0])
        if k == "discr":
            cell, path = self.place(st, fr, r[1])
            if not path and cell[0] == "$L" and cell not in st.heap:
                return ("undef",)           # left over from matching on a type without values
            v = self.read(st, cell, path)
            i = self.variant(st, v)
            t = self.place_ty(fr, r[1])
            vs = self.ty(t).get("variants")
            if not vs:
                return ("i", i)
            return ("i", int(vs[i]["discr"]))
        if k == "bin":
            return self.binop(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r)
        if k == "cbin":
            v = self.binop(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r, True)
            return v
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if v[0] == "b":
                    return ("b", 1 - v[1])
                if v[0] == "i":
                    raise Unknown("bitnot")
                return ("b", 1 - self.as_bool(st, v))
            if r[1] == "PtrMetadata":
                return self.models.length(self, st, v)
            raise Unknown("unop %s" % r[1])
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "len":
            cell, path = self.place(st, fr, r[1])
            return self.models.length(self, st, ("ref", cell, path) if cell[0] != "=s" else cell[1])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is None or int(n) > 256:
                raise Unknown("repeat")
            return ("arr", (v,) * int(n))
        raise Unknown("rvalue %s" % k)

    def place_ty(self, fr, p):
        return self.opty(fr, ["copy", p])

    def cast(self, st, fr, r):
        kind = r[1]
        v = self.operand(st, fr, r[2])
        return self.models.cast(self, st, kind, v, r[3], self.opty(fr, r[2]))

    def binop(self, st, fr, op, a, b, r, checked=False):
        return self.models.binop(self, st, op, a, b, checked, self.opty(fr, r[2]))

    # ---- running
    def new_state(self, mon):
        st = State()
        st.frames = []
        st.heap = {}
        st.facts = {}
        st.mon = mon
        st.nsym = 0
        st.log = None
        st.taint = None
        st.steps = 0
        return st

    def push(self, st, fn, args, dest=None, target=None, hook=None):
        """Enter a function; `dest` is (cell, path) to write, `target` the caller's next block."""
        self.p.prep(fn)
        if len(st.frames) > self.max_depth:
            raise Unknown("call depth in %s" % fn.name)
        st.nsym += 1
        fr = Frame()
        fr.fn, fr.bb, fr.si, fr.fs = fn, 0, 0, st.nsym
        fr.dest, fr.target, fr.hook = dest, target, hook
        fr.args = None
        # how often a function is active at once: unbounded recursion is explored last
        fr.deep = st.frames[-1].deep if st.frames else 0
        d = sum(1 for f in st.frames if f.fn is fn)
        if d > fr.deep:
            fr.deep = d
        n = fn.nargs
        if fn.spread is not None and len(args) != n:
            # "rust-call": the last argument is a tuple to spread
            pass
        if len(args) != n:
            raise Unknown("arity of %s: %d/%d" % (fn.name, len(args), n))
        for i, a in enumerate(args):
            st.heap[("$L", fr.fs, i + 1)] = a
        st.frames.append(fr)
        self.stats["fns"].add(fn.id)

    def call_value(self, st, f, args, dest, target=None, hook=None):
        """Call a callable value (fn item, fn pointer, closure or reference to one)."""
        fnid, a = self.models.callable(self, st, f, args)
        fn = self.p.fns[fnid]
        self.invoke(st, fn, a, dest, target, hook)

    def invoke(self, st, fn, args, dest, target, hook=None):
        if fn.model:
            if hook:
                raise Unknown("hooked model call %s" % fn.name)
            v = fn.model(self, st, args, fn, dest, target)
            if v is not NOSTEP:
                self.write(st, dest[0], dest[1], v)
                if target is None:
                    raise Dead()
                fr = st.frames[-1]
                fr.bb, fr.si = target, 0
            return
        if not fn.body:
            v = self.constructor(st, fn, args)
            if v is None:
                raise Unknown("no body: %s [%s]" % (fn.name, fn.kind))
            self.write(st, dest[0], dest[1], v)
            if target is None:
                raise Unknown("no body: %s [%s]" % (fn.name, fn.kind))
            fr = st.frames[-1]
            fr.bb, fr.si = target, 0
            return
        c = self.cfg.get("contract")
        if c and fn.crate in ("instant_xml", "fixtures") and any(f.fn is fn for f in st.frames):
            v = c(self, st, args, fn)
            if v is not None:
                if hook:
                    raise Unknown("hooked contract call %s" % fn.name)
                self.write(st, dest[0], dest[1], v)
                fr = st.frames[-1]
                fr.bb, fr.si = target, 0
                return
        self.push(st, fn, args, dest, target, hook)

    def constructor(self, st, fn, args):
        """A variant or tuple struct used as a function."""
        t = self.ty(fn.ret) if fn.ret is not None else None
        if not t or t["k"] != "adt":
            return None
        last = fn.df.rsplit("::", 1)[-1]
        for i, v in enumerate(t["variants"]):
            if v["name"] == last and len(v["fields"]) == len(args):
                m = self.models.agg_adt.get(t["name"])
                if m:
                    return None
                return ("A", i, tuple(args))
        return None

    def run(self, st0, on_return):
        secs = self.cfg.get("max_secs", MAX_SECS)
        hunt = not self.probing and not self.cfg.get("debug")
        if hunt:
            first = st0.clone()
        if self.explore(st0, on_return, Work(), self.max_states, secs * (0.8 if hunt else 1)):
            return
        self.undecide("state budget")
        if hunt:
            self.hunting = True
            self.explore(first, on_return, Hunt(), max(5000, self.max_states // 5), secs * 0.2)
            self.hunting = False

    def explore(self, st0, on_return, work, most, secs):
        """Follow every path from `st0`; False if the budget ran out first."""
        work.append(st0)
        memo = {}
        nstates = 0
        done = True
        deadline = time.time() + secs
        while work:
            st = work.pop()
            nstates += 1
            if nstates > most or (nstates % 256 == 0 and time.time() > deadline):
                done = False
                break
            try:
                self.run_path(st, work, memo, on_return)
            except Dead:
                pass
            except Unknown as e:
                fr = st.frames[-1] if st.frames else None
                self.undecide("%s @ %s" % (e, fr.fn.name if fr else "?"))
                if self.cfg.get("debug"):
                    self.debug(st, e)
            except (TypeError, KeyError, IndexError, AttributeError, ValueError, AssertionError) as e:
                # a shape of value the models do not foresee: this path stays undecided
                fr = st.frames[-1] if st.frames else None
                self.undecide("unforeseen (%s %s) @ %s" % (type(e).__name__, str(e)[:60], fr.fn.name if fr else "?"))
                if self.cfg.get("debug"):
                    raise
        self.stats["states"] += nstates
        return done

    def debug(self, st, e):
        print("UNKNOWN", e)
        for f in st.frames[-6:]:
            print("   ", f.fn.name, "bb%d[%d]" % (f.bb, f.si), f.fn.file, f.fn.line)

    def fork(self, st, alts, work):
        for key, val in reversed(alts):
            s2 = st.clone()
            s2.facts[key] = val
            s2.note((key, val))
            ok_ = True
            if self.models.check_fact:
                ok_ = self.models.check_fact(self, s2, key, val)
            if ok_:
                work.append(s2)

    def run_path(self, st, work, memo, on_return):
        p = self.p
        while st.frames:
            fr = st.frames[-1]
            if fr.fn is None:
                raise Unknown("hook frame")
            fn = fr.fn
            stmts, term = fn.blocks[fr.bb]
            if fr.si == 0 and fn.heads and (fr.bb not in fn.joins) and work.before(st):
                work.append(st)
                return
            if fr.si == 0 and fr.bb in fn.joins and (fr.bb in fn.heads or fn.crate in ("instant_xml", "fixtures")):
                if work.before(st):
                    # let the states of earlier blocks arrive first
                    work.append(st)
                    return
                self.stats["joins"] += 1
                if not self.probing and self.seen(st, fr, memo):
                    self.stats["memo"] += 1
                    return
            try:
                while fr.si < len(stmts):
                    s = stmts[fr.si]
                    if s[0] == "=":
                        pl = s[1]
                        v = self.rvalue(st, fr, s[2], pl)
                        if not pl[1]:
                            st.heap[("$L", fr.fs, pl[0])] = v
                        else:
                            cell, path = self.place(st, fr, pl)
                            self.write(st, cell, path, v)
                    elif s[0] == "setd":
                        cell, path = self.place(st, fr, s[1])
                        v = self.read(st, cell, path) if not (not path and st.heap.get(cell) is None) else None
                        if v is None:
                            self.write(st, cell, path, ("A", s[2], ()))
                        elif v[0] == "A":
                            self.write(st, cell, path, ("A", s[2], v[2]))
                        else:
                            raise Unknown("set discriminant")
                    elif s[0] in ("live", "dead"):
                        st.heap.pop(("$L", fr.fs, s[1]), None)
                    else:
                        raise Unknown("stmt %s" % s[0])
                    fr.si += 1
                self.stats["steps"] += len(stmts)
            except NeedFork as e:
                self.fork(st, e.alts, work)
                return
            # terminator
            k = term[0]
            if k == "goto":
                fr.bb, fr.si = term[1], 0
            elif k == "switch":
                try:
                    fr.bb = self.switch(st, fr, term)
                    fr.si = 0
                except NeedFork as e:
                    self.fork(st, e.alts, work)
                    return
            elif k == "drop":
                fr.bb, fr.si = term[2], 0
            elif k == "return":
                v = st.heap.get(("$L", fr.fs, 0), UNIT)
                if fr.hook is not None:
                    snap = st.clone()
                    try:
                        self.pop(st)
                        self.models.hooks[fr.hook[0]](self, st, fr, v)
                    except NeedFork as e:
                        self.fork(snap, e.alts, work)
                        return
                    continue
                self.pop(st)
                if not st.frames:
                    self.stats["paths"] += 1
                    snap = st.clone()
                    try:
                        on_return(self, st, v)
                    except NeedFork as e:
                        # re-run the return with the fact decided
                        for key, val in e.alts:
                            s2 = snap.clone()
                            s2.facts[key] = val
                            s2.note((key, val))
                            self.finish(s2, v, on_return)
                    return
                self.write(st, fr.dest[0], fr.dest[1], v)
                if fr.target is None:
                    raise Dead()
                up = st.frames[-1]
                up.bb, up.si = fr.target, 0
            elif k == "call":
                snap = st.clone()
                try:
                    self.do_call(st, fr, term)
                except NeedFork as e:
                    self.fork(snap, e.alts, work)
                    return
                except Unknown:
                    raise
            elif k == "assert":
                snap = None
                try:
                    c = self.as_bool(st, self.operand(st, fr, term[1]))
                except NeedFork as e:
                    self.fork(st, e.alts, work)
                    return
                if bool(c) == bool(term[2]):
                    fr.bb, fr.si = term[4], 0
                else:
                    self.panic(st, "assert:%s" % str(term[3])[:60], fn)
                    return
            elif k == "unreachable":
                return
            elif k in ("resume", "abort"):
                return
            else:
                raise Unknown("terminator %s" % k)

    def finish(self, st, v, on_return):
        try:
            on_return(self, st, v)
        except NeedFork as e:
            for key, val in e.alts:
                s2 = st.clone()
                s2.facts[key] = val
                s2.note((key, val))
                self.finish(s2, v, on_return)

    def pop(self, st):
        fr = st.frames.pop()
        fs = fr.fs
        h = st.heap
        for l in range(len(fr.fn.locals)):
            h.pop(("$L", fs, l), None)

    def panic(self, st, what, fn):
        h = self.cfg.get("on_panic")
        if h:
            h(self, st, what, fn)

    def switch(self, st, fr, term):
        v = self.operand(st, fr, term[1])
        t = v[0]
        if t in ("i", "b", "c"):
            n = v[1]
            for val, b in term[2]:
                if int(val) == n:
                    return b
            return term[3]
        tid = self.opty(fr, term[1])
        if self.ty(tid)["k"] == "bool":
            n = self.as_bool(st, v)
            for val, b in term[2]:
                if int(val) == n:
                    return b
            return term[3]
        n = self.models.switch_const(self, st, v, [int(x) for x, _ in term[2]], tid)
        if n is None:
            return term[3]
        for val, b in term[2]:
            if int(val) == n:
                return b
        return term[3]

    def do_call(self, st, fr, term):
        callee = term[1]
        args = [self.operand(st, fr, a) for a in term[2]]
        dest = self.place(st, fr, term[3])
        target = term[4]
        if callee[0] == "unres":
            raise Unknown("unresolved %s" % callee[1])
        if callee[0] == "ptr":
            f = self.operand(st, fr, callee[1])
            self.call_value(st, f, args, dest, target)
            return
        fn = self.p.fns[callee[1]]
        if fn.closure and len(args) == 2 and fr.fn.kind != "shim":
            # rust-call ABI: the closure body takes the tuple's elements
            tup = args[1]
            n = fn.nargs - 1 if fn.body else 0
            args = [args[0]] + [self.field(st, tup, i) for i in range(n)]
        if target is None and not fn.model:
            # diverging call: a panic entry point
            self.panic(st, fn.name, fr.fn)
            raise Dead()
        self.invoke(st, fn, args, dest, target)

    def seen(self, st, fr, memo):
        """Has this canonical state been analysed?  At loop heads summaries are joined."""
        head = fr.bb in fr.fn.heads
        live = fr.fn.live[fr.bb]
        for l in range(len(fr.fn.locals)):
            if l not in live:
                st.heap.pop(("$L", fr.fs, l), None)
        if st.mon is not None and hasattr(st.mon, "normalize"):
            st.mon.normalize(self, st, head)
        if head:
            self.widen(st, fr)
            self.models.merge(self, st)
        key, payload = self.canon(st, head)
        if self.hunting and payload:
            key = (key, tuple(sorted((repr(rk), v) for rk, (k, v) in payload.items())))
            payload = None
        if not payload:
            if key in memo:
                return True
            memo[key] = None
            return False
        old = memo.get(key)
        if old is None:
            memo[key] = {rk: v for rk, (k, v) in payload.items()}
            return False
        changed = False
        for rk, (k, v) in payload.items():
            o = old[rk]
            j = o if o == v else self.models.join_fact(k[0], (v[0],) + tuple(o[1:]) if k[0] == "seg" else o, v)
            if j is None:
                # not joinable: analyse separately
                key2 = (key, rk, v)
                if key2 in memo:
                    return True
                memo[key2] = None
                return False
            st.facts[k] = j
            if j[1:] != o[1:] if k[0] == "seg" else j != o:
                changed = True
                old[rk] = j
        return not changed

    WIDE = 12

    def widen(self, st, fr):
        """Counters and growing lists held by this frame: after WIDE different values, any value."""
        ctx = tuple((f.fn.id, f.bb) for f in st.frames[-3:])

        def go(v, path):
            if type(v) is not tuple or not v:
                return v
            t = v[0]
            if t == "i":
                if self.wide(ctx, path, v[1]):
                    return ("any",)
                return v
            if t == "op":
                return ("any",)
            if t == "V" and v[3]:
                if v[1] is None or v[1][0] == "$N":
                    if self.wide(ctx, path, len(v[3])):
                        sym = st.fresh()
                        st.facts[("vempty", sym)] = 0
                        st.facts[("wide", sym)] = 1
                        return ("V", sym, v[2], ())
                return v
            if t == "A":
                fs = tuple([go(x, path + (i,)) for i, x in enumerate(v[2])])
                return v if fs == v[2] else ("A", v[1], fs)
            return v

        for d, f in enumerate(st.frames[::-1][:6]):
            for l in range(len(f.fn.locals)):
                c = ("$L", f.fs, l)
                v = st.heap.get(c)
                if v is not None and v[0] in ("i", "op", "V", "A"):
                    w = go(v, (d, l))
                    if w is not v:
                        st.heap[c] = w

    def wide(self, ctx, path, n):
        k = (ctx, path)
        seen = self.seen_values.get(k)
        if seen is None:
            seen = self.seen_values[k] = set()
        if seen is True:
            return True
        seen.add(n)
        if len(seen) > self.WIDE:
            self.seen_values[k] = True
            return True
        return False

    # ---- canonical states
    def canon(self, st, head=False):
        names = {}
        queue = []
        fsmap = {f.fs: i for i, f in enumerate(st.frames)}
        seen_bases = set()

        def ren(v):
            if type(v) is tuple:
                if not v:
                    return v
                t = v[0]
                if t == "$N":
                    n = names.get(v)
                    if n is None:
                        n = names[v] = ("$N", len(names))
                    return n
                if t == "$L":
                    i = fsmap.get(v[1])
                    if i is None:
                        return ("$dang",)
                    return ("$L", i, v[2])
                if t == "$H":
                    n = names.get(v)
                    if n is None:
                        n = names[v] = ("$H", len(names))
                        queue.append(v)
                    return n
                if t == "$D":
                    n = names.get(v)
                    if n is None:
                        names[v] = n = ("$D", ren(v[1]))
                        if v in st.heap:
                            queue.append(v)
                        seen_bases.add(v[1])
                    return n
                if t == "y" or t == "f" or t == "d" or t == "e" or t == "in":
                    seen_bases.add(v[1] if t == "y" else v)
                return tuple([ren(x) for x in v])
            if type(v) is frozenset:
                return frozenset(ren(x) for x in v)
            return v

        out = []
        last = len(st.frames) - 1
        for i, f in enumerate(st.frames):
            fn = f.fn
            if i == last:
                live = fn.live[f.bb]
            else:
                live = fn.live[st.frames[i + 1].target] if st.frames[i + 1].target is not None and st.frames[i + 1].hook is None else None
            ls = []
            for l in range(len(fn.locals)):
                if live is not None and l not in live and i == last:
                    continue
                if live is not None and l not in live:
                    continue
                v = st.heap.get(("$L", f.fs, l))
                if v is not None:
                    ls.append((l, ren(v)))
            d = f.dest
            out.append((fn.id, f.bb, tuple(ls), ren(d) if d else None, f.target, ren(f.hook) if f.hook else None))
        mon = ren(st.mon.canon()) if st.mon is not None else None
        more = getattr(st.mon, "positions", None)
        if more is not None:
            mon = (mon, ren(more(st)))
        hp = []
        qi = 0
        while qi < len(queue):
            c = queue[qi]
            qi += 1
            v = st.heap.get(c)
            hp.append((names[c], ren(v) if v is not None else None))
        # facts about symbols that can still be reached
        fk = []
        payload = {}

        def alive(sym):
            if type(sym) is tuple:
                if sym in seen_bases:
                    return True
                if sym and sym[0] == "e" and type(sym[2]) is tuple and sym[2][0] == "$N":
                    return sym[2] in names
                if sym and sym[0] in ("f", "d", "e", "c"):
                    return alive(sym[1])
                if sym and sym[0] == "$N":
                    return sym in names
            return False

        def alive_text(p):
            for x in p:
                if type(x) is tuple and x:
                    if x[0] == "y":
                        if not alive(x[1]):
                            return False
                    elif not alive_any(x):
                        return False
            return True

        def alive_any(x):
            if type(x) is tuple:
                if x and x[0] == "$N":
                    return x in names
                if x and x[0] in ("f", "e", "c"):
                    return alive(x)
                return all(alive_any(y) for y in x)
            return True

        def keep(key, val):
            k = key[0]
            if k in ("var", "b", "vempty"):
                return alive(key[1])
            if k == "streq":
                return alive_text(key[1]) and alive_text(key[2])
            if k in ("seg", "poseq", "posne"):
                return key[2] in names
            if k == "nx":
                return (key[2] == "0" or key[2] in names) and val in names
            if k in ("imgp", "iemp"):
                return key[1] in names
            if k in ("end", "last"):
                return alive_text(key[1]) if val == "0" else val in names
            if k == "whole":
                return alive_text(key[1])
            if k == "nd":
                return False
            if k == "cv":
                s_ = key[1]
                if type(s_) is tuple and s_ and s_[0] in ("cat", "bat"):
                    return s_[2] in names or (s_[2] == "0" and ("nx", s_[1], "0") in st.facts)
                return alive(s_) if type(s_) is tuple and s_ and s_[0] in ("f", "e", "c", "in", "$N") else alive_any(s_)
            return all(alive_any(x) for x in key[1:])

        pending = list(st.facts.items())
        kept = {}
        while pending:
            batch = []
            rest = []
            for kv in pending:
                (batch if keep(*kv) else rest).append(kv)
            if not batch:
                break
            batch = sorted(((repr(ren(k)), k, v) for k, v in batch), key=lambda x: x[0])
            for rk, k, v in batch:
                kept[k] = v
                if head and k[0] == "imgp":
                    payload[rk] = (k, v)
                    fk.append((rk, bool(v[1])))
                elif head and k[0] == "seg" and v[2] is None:
                    payload[rk] = (k, v)
                    fk.append((rk, ren(v[0])))
                else:
                    fk.append((rk, ren(v)))
            pending = rest
        if head:
            st.facts = kept
        return (tuple(out), mon, tuple(hp), tuple(fk), st.taint), payload
