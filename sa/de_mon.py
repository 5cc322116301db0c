"""Monitor for the readers of typed values.

The element being read is symbolic: `Deserializer::next` on a handle may yield any further attribute,
text or child element, the end of the element, or an input error.  The monitor classifies what was
yielded by the type's configuration (names, namespaces, kinds) and compares what the reader returns.

A handle is ("D", ev, pid): ev names the element, pid the node prepared with `for_node` (or None).
"""
from engine import NOSTEP, NONE, UNIT, Dead, NeedFork, Unknown, err, ok, some
from models import const_text, lit, str_eq, text_of
import strdom  # noqa: F401

SCALARS = ("str", "bool", "char", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64",
           "IpAddr", "NaiveDate", "NaiveDateTime", "DateTimeUtc", "unit")
NUMS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64")
DATES = ("NaiveDate", "NaiveDateTime", "DateTimeUtc")


class Rec:
    """What is known of one element: phase 0 attributes, 1 content, 2 at its end, 3 after an error."""
    __slots__ = ("phase", "open", "typ", "slots", "last", "text", "seen", "cf")

    def __init__(self, typ, nslots, phase=0):
        self.phase = phase
        self.open = None
        self.typ = typ
        self.slots = ((0, None, 0),) * nslots      # (count, source, lost)
        self.last = None
        self.text = None
        self.seen = ()
        self.cf = False

    def copy(self, **kw):
        r = Rec.__new__(Rec)
        for k in Rec.__slots__:
            setattr(r, k, kw[k] if k in kw else getattr(self, k))
        return r

    def canon(self):
        return (self.phase, self.open, self.typ, self.slots, self.last, self.text, self.seen, self.cf)


class DeMon:
    __slots__ = ("spec", "root", "recs", "pend", "why", "flags")

    def __init__(self, spec, root):
        self.spec = spec
        self.root = root
        self.recs = ()        # ((ev, Rec), ...)
        self.pend = ()        # ((pid, node or None, ev), ...)
        self.why = ()         # reasons for which an error is due
        self.flags = ()

    def copy(self, **kw):
        m = DeMon.__new__(DeMon)
        for k in DeMon.__slots__:
            setattr(m, k, kw[k] if k in kw else getattr(self, k))
        return m

    def canon(self):
        return (tuple((e, r.canon()) for e, r in self.recs), self.pend, self.why, self.flags)

    def rec(self, ev):
        for e, r in self.recs:
            if e == ev:
                return r
        return None

    def put(self, ev, r):
        out = []
        hit = False
        for e, x in self.recs:
            if e == ev:
                hit = True
                if r is not None:
                    out.append((ev, r))
            else:
                out.append((e, x))
        if not hit and r is not None:
            out.append((ev, r))
        return self.copy(recs=tuple(out))

    def add(self, what):
        return self if what in self.why or len(self.why) >= 2 else self.copy(why=tuple(sorted(self.why + (what,))))

    def normalize(self, eng, st, head=False):
        normalize(eng, st, head)

    def flag(self, what):
        return self if what in self.flags else self.copy(flags=tuple(sorted(self.flags + (what,))))


# ---------------------------------------------------------------- configuration
def base(spec, ty):
    """(innermost type, is a collection, may be absent)"""
    coll = opt = False
    while ty[0] in ("opt", "vec", "box", "ref", "cow"):
        if ty[0] == "vec":
            coll = True
        if ty[0] == "opt" and not coll:
            opt = True
        ty = ty[1]
    return ty, coll, opt


def slots_of(spec, ty):
    """Fields of a struct type with transparent ones flattened: list of dicts with path, ty, local, ns, kind."""
    d = spec[ty[1]]
    out = []
    if d["kind"] not in ("struct", "transparent"):
        return out
    for i, f in enumerate(d["fields"]):
        b, coll, opt = base(spec, f["ty"])
        kind = "attr" if f.get("attribute") else "text" if f.get("direct") else "tuple" if f.get("tuple") else "elem"
        if kind == "tuple":
            kind = "ttext" if is_scalar(spec, b) else "telem"
        if b[0] == "user" and spec[b[1]]["kind"] == "transparent":
            for s in slots_of(spec, b):
                s = dict(s)
                s["path"] = (i,) + s["path"]
                s["name"] = f["name"] + "." + s["name"]
                if opt:
                    s["optional_group"] = True
                out.append(s)
            continue
        out.append(dict(path=(i,), name=f["name"], ty=f["ty"], base=b, coll=coll, opt=opt, local=f["local"], ns=f["ns"], kind=kind,
                        borrow=f.get("borrow", False), with_=f.get("with", False)))
    return out


SLOTS = {}


def slots(spec, ty):
    k = (id(spec), ty)
    if k not in SLOTS:
        SLOTS[k] = slots_of(spec, ty) if ty is not None and ty[0] == "user" else ANYSLOTS if ty == ("any",) else []
    return SLOTS[k]


ANYSLOTS = [dict(path=None, name="attributes", ty=("anyattr",), base=("anyattr",), coll=True, opt=False, kind="attr", borrow=False, with_=False, local=None, ns=None),
            dict(path=None, name="children", ty=("any",), base=("any",), coll=True, opt=False, kind="elem", borrow=False, with_=False, local=None, ns=None),
            dict(path=None, name="text", ty=("opt", ("cow", ("str",))), base=("str",), coll=False, opt=True, kind="text", borrow=True, with_=False, local=None, ns=None)]


def is_scalar(spec, b):
    return b[0] in SCALARS or (b[0] == "user" and spec[b[1]]["kind"] == "scalar")


def required(s):
    return not s["coll"] and not s["opt"]


# ---------------------------------------------------------------- symbols of nodes
def find_adt(eng, suffix):
    c = eng.models.__dict__.setdefault("_adt", {})
    if suffix not in c:
        c[suffix] = None
        for i, t in enumerate(eng.p.types):
            if t["k"] == "adt" and t.get("name", "").endswith(suffix):
                c[suffix] = i
                break
    if c[suffix] is None:
        raise Unknown("no type %s" % suffix)
    return c[suffix]


def variant_ix(eng, tid, name):
    for i, v in enumerate(eng.ty(tid)["variants"]):
        if v["name"] == name:
            return i
    raise Unknown("no variant %s" % name)


def field_ix(eng, tid, name):
    for i, f in enumerate(eng.ty(tid)["variants"][0]["fields"]):
        if f[0] == name:
            return i
    raise Unknown("no field %s" % name)


def name_pieces(eng, kind, ev):
    if ev == ("in", "root"):
        return (("y", ("f", ev, 0, "local")),)
    tid = find_adt(eng, "de::Element" if kind == "open" else "de::Attribute")
    return (("y", ("f", ev, 0, field_ix(eng, tid, "local"))),)


def ns_pieces(ev):
    return (("y", ("f", ev, 9, 0)),)


def attr_value_sym(eng, ev):
    return ("f", ev, 0, field_ix(eng, find_adt(eng, "de::Attribute"), "value"))


def node(eng, st, what, ev):
    tid = find_adt(eng, "de::Node")
    k = variant_ix(eng, tid, {"attr": "Attribute", "text": "Text", "open": "Open"}[what])
    f = eng.ty(tid)["variants"][k]["fields"][0][1]
    return ("A", k, (("y", ev, f),))


def error_value(eng, st, variant, tid=None):
    t = find_adt(eng, "instant_xml::Error") if tid is None else tid
    k = variant_ix(eng, t, variant)
    n = len(eng.ty(t)["variants"][k]["fields"])
    return ("A", k, tuple(("S", lit("?")) for _ in range(n)))


# ---------------------------------------------------------------- classification
def matches(eng, st, m, s_ty, local, ns, kind, ev):
    """Does the configuration say a field of this type takes the node?"""
    spec = m.spec
    b, coll, opt = base(spec, s_ty)
    if b[0] == "any":
        return 1
    if b[0] in SCALARS:
        return conj(eng, st, kind, ev, local, ns)
    d = spec[b[1]]
    if d["kind"] == "struct":
        return conj(eng, st, kind, ev, d["local"], d["ns"])
    if d["kind"] == "scalar":
        return conj(eng, st, kind, ev, local, d["ns"])
    if d["kind"] == "forward":
        for n, t in d["variants"]:
            if matches(eng, st, m, t, local, ns, kind, ev):
                return 1
        return 0
    raise Unknown("match of %s" % d["kind"])


def peek_eq(eng, st, a, b):
    try:
        return str_eq(eng, st, a, b)
    except NeedFork:
        return None


def conj(eng, st, kind, ev, local, ns):
    if local is not None and peek_eq(eng, st, name_pieces(eng, kind, ev), lit(local)) == 0 or peek_eq(eng, st, ns_pieces(ev), lit(ns)) == 0:
        return 0
    if local is not None and not str_eq(eng, st, name_pieces(eng, kind, ev), lit(local)):
        return 0
    return str_eq(eng, st, ns_pieces(ev), lit(ns))


def effective(eng, st, m, s_ty, kind, ev):
    """The type that reads the node: forwarding enums resolved."""
    b, coll, opt = base(m.spec, s_ty)
    if b[0] == "user" and m.spec[b[1]]["kind"] == "forward":
        for n, t in m.spec[b[1]]["variants"]:
            if matches(eng, st, m, t, None, None, kind, ev):
                return effective(eng, st, m, t, kind, ev)
        return None
    return b


def classify(eng, st, ev):
    """Assign the last node of element `ev` to the slot the configuration names."""
    m = st.mon
    r = m.rec(ev)
    if r is None or r.last is None or r.last[2] is not None:
        return r
    kind, nev, _ = r.last
    ss = slots(m.spec, r.typ)
    hit = -1
    for i, s in enumerate(ss):
        if kind == "attr" and s["kind"] == "attr" or kind == "open" and s["kind"] == "elem":
            if s["local"] is None and r.typ == ("any",) or matches(eng, st, m, s["ty"], s["local"], s["ns"], kind, nev):
                hit = i
                break
        elif kind == "text" and s["kind"] == "text":
            hit = i
            break
        elif s["kind"] == "ttext" and kind == "text" and r.slots[i][0] == 0 and all(x[0] for x in r.slots[:i]):
            hit = i
            break
        elif s["kind"] == "telem" and kind == "open" and r.slots[i][0] == 0 and all(r.slots[j][0] or ss[j]["kind"] == "ttext" for j in range(i)):
            if matches(eng, st, m, s["ty"], s["local"], s["ns"], kind, nev):
                hit = i
            break
    src = None
    if kind == "attr":
        src = ("p", (("y", attr_value_sym(eng, nev)),))
        if r.typ == ("any",):
            src = ("e", nev)
    elif kind == "text":
        src = ("p", (("y", nev),))
    else:
        src = ("e", nev)
    sl = r.slots
    seen = r.seen
    if hit >= 0:
        c, old, lost = sl[hit]
        if ss[hit]["coll"]:
            if old is not None:
                lost = 2 if lost == 2 or no_value(m, ss[hit], old) else 1
            new = (1, src, lost)
        else:
            if r.typ == ("any",):
                new = (1, ("p", old[1] + src[1]) if c else src, lost)
            else:
                new = (min(c + 1, 2), src if c == 0 else old, lost)
                if c >= 1:
                    m = m.add("dup")
        sl = sl[:hit] + (new,) + sl[hit + 1:]
    else:
        what = "unknown nodes"
        if is_scalar(m.spec, r.typ) if r.typ else False:
            if kind == "text" and r.text is None:
                what = None
        if what and not seen:
            seen = (what,)
        if kind == "open" and any(x["kind"] == "ttext" and not y[0] for x, y in zip(ss, sl)):
            m = m.add("element in scalar")
    kw = {}
    if r.typ is not None and is_scalar(m.spec, r.typ):
        if kind == "text" and r.text is None:
            kw["text"] = nev
        elif kind == "text":
            m = m.flag("moretext")
        elif kind == "open" and r.text is None and r.typ != ("unit",):
            m = m.add("element in scalar")
    r = r.copy(slots=sl, seen=seen, last=(kind, nev, hit), **kw)
    st.mon = m.put(ev, r)
    return r


def no_value(m, s, src):
    """Has the collection element read from `src` no text though its type needs one?"""
    b = s["base"]
    if b in (("str",), ("unit",)) or not is_scalar(m.spec, b):
        return False
    if src == ("p0",):
        return True
    c = m.rec(src[1]) if src[0] == "e" else None
    return c is not None and c.phase == 2 and c.text is None


def handle(eng, st, v):
    c = eng.deref_all(st, v)
    if c[0] != "D":
        raise Unknown("not a reader handle: %s" % (c[0],))
    return c


def violate(eng, st, prop, key, msg):
    eng.violate(st, prop, "%s|%s" % (st.mon.root, key), "%s: %s" % (st.mon.root, msg))


# ---------------------------------------------------------------- operations on handles
def settle_child(eng, st, ev):
    """The reader goes on with element `ev`: its last child must have been read to its end."""
    m = st.mon
    r = m.rec(ev)
    if r.open is not None:
        c = m.rec(r.open)
        if c is None or c.phase < 2:
            if c is not None and c.phase == 3:
                pass
            else:
                hit = r.last[2] if r.last else None
                nm = slots(m.spec, r.typ)[hit]["name"] if hit is not None and hit >= 0 else "an unknown child"
                violate(eng, st, "C10", "child left unread|%s" % nm, "reading goes on in the parent although the element of %s has not been read to its end" % nm)
                raise Dead()
        absorb(eng, st, ev)
        m = st.mon
        r = m.rec(ev)
        st.mon = m.put(ev, r.copy(open=None))


def typed_walk(eng, st, rep):
    """Changes of the heap when `rep(value, type, depth, variant of the holder)` is applied where values of known type are."""
    out = {}
    done = set()

    def walk(v, tid, depth, wrap):
        if type(v) is not tuple or not v:
            return v
        t = eng.ty(tid)
        r = rep(v, t, depth, wrap) if rep.__code__.co_argcount > 3 else rep(v, t, depth)
        if r is not None:
            return r
        if v[0] == "A":
            if t["k"] == "adt":
                vs = t["variants"]
                ts = [f[1] for f in vs[v[1]]["fields"]] if v[1] < len(vs) else []
            else:
                ts = t.get("args") if t["k"] == "tuple" else t.get("upvars") if t["k"] == "closure" else None
            if not v[2] or ts is None or len(ts) < len(v[2]):
                return v
            new = tuple(walk(x, ts[i], depth + 1, v[1]) for i, x in enumerate(v[2]))
            return v if new == v[2] else ("A", v[1], new)
        if v[0] == "V" and v[3]:
            new = tuple(walk(x, v[2], depth + 1, None) for x in v[3])
            return v if new == v[3] else ("V", v[1], v[2], new)
        if v[0] == "ref" and not v[2]:
            to = t.get("box")
            if to is None:
                to = t.get("of")
            if to is None:
                return v
            c = v[1]
            if c[0] == "=":
                nv = walk(c[1], to, depth + 1, wrap)
                return v if nv is c[1] or nv == c[1] else ("ref", ("=", nv), v[2])
            if c[0] == "$H" and c not in done:
                done.add(c)
                old = st.heap.get(c)
                if old is not None:
                    nv = walk(old, to, depth + 1, wrap)
                    if nv != old:
                        out[c] = nv
        return v
    fns = {f.fs: f.fn for f in st.frames}
    for cell in list(st.heap):
        if cell[0] == "$L" and cell[1] in fns:
            v = st.heap[cell]
            if v is not None:
                nv = walk(v, fns[cell[1]].locals[cell[2]], 0, None)
                if nv is not v and nv != v:
                    out[cell] = nv
    return out


def absorb(eng, st, ev):
    """Replace a completely read child's value by a token once it is seen to be right."""
    m = st.mon
    r = m.rec(ev)
    cev = r.open
    c = m.rec(cev)
    if c is None:
        return
    hit = r.last[2] if r.last and r.last[1] == cev else None
    if hit is None or hit < 0 or c.typ is None:
        st.mon = m.put(cev, None)
        return
    if is_scalar(m.spec, c.typ):
        src = ("p", (("y", c.text),)) if c.text is not None else ("p0",)
        sl = tuple((n, src if s == ("e", cev) else s, l) for n, s, l in r.slots)
        spec = slots(m.spec, r.typ)[hit]
        if src == ("p0",) and not spec["coll"] and c.typ != ("unit",) and (spec["opt"] or c.typ != ("str",)):
            m = m.add("empty")
            # an empty element is no value: as if it had not been there (rejecting it is right, too)
            n, s0, l = sl[hit]
            if n == 1 and s0 in (src, None):
                sl = sl[:hit] + ((0, src if spec["opt"] and c.typ == ("str",) else None, l),) + sl[hit + 1:]
            elif n == 2:
                sl = sl[:hit] + ((1, s0, l),) + sl[hit + 1:]
        st.mon = m.put(ev, r.copy(slots=sl)).put(cev, None)
        return
    # a struct or captured element
    n = [1 if c.cf else 0]
    name = c.typ[1] if c.typ[0] == "user" else "AnyElement"

    def rep(v, t, depth):
        if v[0] != "A" or t["k"] != "adt" or t.get("name", "").rsplit("::", 1)[-1] != name:
            return None
        try:
            if not reading(eng, st, c.typ, ("e", cev), v, True, dry=True):
                n[0] += 1
                return ("dv", cev)
        except (NeedFork, Unknown):
            pass
    st.heap.update(typed_walk(eng, st, rep))
    if n[0] or not slots(m.spec, c.typ):
        m = st.mon
        r = m.rec(ev)
        sl = tuple((k, ("dv", cev) if s == ("e", cev) else s, l) for k, s, l in r.slots)
        st.mon = m.put(ev, r.copy(slots=sl)).put(cev, None)


def choose(eng, st, tag, alts):
    if len(alts) == 1:
        return alts[0]
    w = eng.ask(st, ("nd", ("$N", st.nsym + 1), tag), alts)
    st.nsym += 1
    return w


def settle_root(eng, st, ev):
    m = st.mon
    r = m.rec(ev)
    if r is not None and r.typ == ("?",):
        ty = root_type(m)
        typ = effective(eng, st, m, ty, "open", ev)
        st.mon = m.put(ev, r.copy(typ=typ, slots=((0, None, 0),) * len(slots(m.spec, typ))))


def root_type(m):
    return ("user", m.root) if m.root in m.spec else ("any",)


SV = ("sv",)


def rename(eng, st):
    """Between two nodes: give the values read so far canonical names and forget how they came about."""
    m = st.mon
    if any(p[1] is not None for p in m.pend):
        return
    for ev, r in m.recs:
        if r.open is not None or r.typ is None:
            continue
        ss = slots(m.spec, r.typ)
        for i, s in enumerate(ss):
            n, src, lost = r.slots[i]
            if src is None or s["coll"] or src[0] not in ("p", "p0"):
                continue
            b = s["base"]
            text = b == ("str",)
            want = src[1] if src[0] == "p" else ()
            if n == 0 or text and len(want) == 1 and want[0][0] == "y" and want[0][1][:1] == SV:
                continue
            if not text and (src[0] == "p0" or b == ("unit",)):
                continue
            new = ("y", ("sv", ev, i))
            if text and not want and sum(1 for e2, r2 in m.recs for x in r2.slots if x[1] == ("p0",)) > 1:
                continue
            hits = []

            def rep(v, t, depth, wrap=None):
                if text:
                    if v[0] in ("S", "str") and v[1] == want:
                        hits.append(wrap)
                        return (v[0], (new,))
                    return None
                if t["k"] == "bool" and depth == 0 or (t["k"] == "adt" and t.get("name", "").rsplit("::", 1)[-1] != b[-1] if b[0] == "user" else v[0] == "A" and t["k"] == "adt" and t.get("adt") == "enum"):
                    return None
                try:
                    if v[0] in ("y", "b", "A"):
                        bad = reading(eng, st, b, src, v, False, dry=True)
                        if not bad:
                            hits.append(None)
                            return ("dv", (ev, i))
                        if bad[0][1].endswith(ANY_OFFSET):
                            # what is known about the text is about to be forgotten
                            violate(eng, st, bad[0][0], "offset", bad[0][1])
                except (NeedFork, Unknown):
                    pass
            out = typed_walk(eng, st, rep)
            if not hits or len(hits) > 1 and (not text or not want):
                continue
            if s["borrow"] and len(want) == 1 and want[0][0] == "y" and 1 in hits and st.facts.get(("var", want[0][1])) != 1:
                continue
            st.heap.update(out)
            nsrc = ("p", (new,)) if text else ("dv", (ev, i))
            r = r.copy(slots=r.slots[:i] + ((n, nsrc, lost),) + r.slots[i + 1:])
            m = m.put(ev, r)
    if "empty" in m.why:
        m = m.copy(why=tuple(x for x in m.why if x != "empty"))
    st.mon = m


def normalize(eng, st, head=False):
    """Bring the bookkeeping up to date as far as that needs no further assumption."""
    for ev, r in st.mon.recs:
        try:
            classify(eng, st, ev)
        except (NeedFork, Unknown):
            pass
    for ev, r in st.mon.recs[::-1]:
        r = st.mon.rec(ev)
        if r is None or r.open is None:
            continue
        c = st.mon.rec(r.open)
        if c is not None and c.phase == 2:
            old = st.mon
            try:
                if c is not None:
                    absorb(eng, st, ev)
            except (NeedFork, Unknown):
                st.mon = old
                continue
            m = st.mon
            if m.rec(r.open) is None:
                r = m.rec(ev)
                st.mon = m.put(ev, r.copy(open=None))
    for ev, r in st.mon.recs:
        if r.open is None and r.last is not None and r.last[2] is not None:
            st.mon = st.mon.put(ev, r.copy(last=None))
    if head:
        rename(eng, st)


def op_next(eng, st, a, fn, dest, target):
    h = handle(eng, st, a[0])
    _, ev, pid = h
    m = st.mon
    if pid is not None:
        for p, nd, e in m.pend:
            if p == pid:
                if nd is not None:
                    st.mon = m.copy(pend=tuple((q, None if q == pid else x, y) for q, x, y in m.pend))
                    return some(ok(nd))
                if e == "av":
                    violate(eng, st, "C10", "reads past an attribute value", "the reader of an attribute value goes on to consume what follows it")
                    raise Dead()
                raise Unknown("reading past a prepared text node")
        raise Unknown("stale handle")
    live = [p for p in m.pend if p[1] is not None]
    if live:
        violate(eng, st, "C10", "prepared node leaks", "a node prepared for a field is left unread and then read as content of the element")
        raise Dead()
    if m.pend:
        m = m.copy(pend=())
        st.mon = m
    settle_root(eng, st, ev)
    m = st.mon
    r = m.rec(ev)
    if r is None or r.phase in (2, 3):
        return NONE
    classify(eng, st, ev)
    settle_child(eng, st, ev)
    m = st.mon
    r = m.rec(ev)
    if r.phase == 0:
        alts = ("err", "attr", "text", "open", "end")
    else:
        alts = ("err", "text", "open", "end")
    if eng.cfg.get("max_attr") is not None and r.phase == 0:
        pass
    w = choose(eng, st, "next", alts)
    st.note((w, ev))
    if w == "err":
        st.mon = m.add("input").put(ev, r.copy(phase=3, last=None))
        return some(err(error_value(eng, st, "UnexpectedEndOfStream")))
    if w == "end":
        st.mon = m.put(ev, r.copy(phase=2, last=None))
        return NONE
    nev = st.fresh()
    st.mon = m.put(ev, r.copy(phase=0 if w == "attr" else 1, last=(w, nev, None), open=nev if w == "open" else None))
    return some(ok(node(eng, st, w, nev)))


def op_nested(eng, st, a, fn, dest, target):
    h = handle(eng, st, a[0])
    ev = h[1]
    e = a[1]
    r = st.mon.rec(ev)
    if e[0] != "y" or r is None or r.open != e[1] or st.mon.rec(e[1]) is not None:
        raise Unknown("nested on %s" % (e[0],))
    r = classify(eng, st, ev)
    hit = r.last[2]
    m = st.mon
    typ = None
    if hit >= 0:
        typ = effective(eng, st, m, slots(m.spec, r.typ)[hit]["ty"], "open", e[1])
    st.mon = m.put(e[1], Rec(typ, len(slots(m.spec, typ))))
    return ("D", e[1], None)


def op_for_node(eng, st, a, fn, dest, target):
    h = handle(eng, st, a[0])
    ev = h[1]
    classify(eng, st, ev)
    nd = a[1]
    pid = st.fresh()
    m = st.mon
    tid = find_adt(eng, "de::Node")
    kind = "av" if nd[0] == "A" and nd[1] == variant_ix(eng, tid, "AttributeValue") else "tx"
    if any(p[1] is not None for p in m.pend):
        raise Unknown("two prepared nodes")
    st.mon = m.copy(pend=((pid, nd, kind),))
    return ("D", ev, pid)


def op_ignore(eng, st, a, fn, dest, target):
    h = handle(eng, st, a[0])
    _, ev, pid = h
    if pid is not None:
        return NOSTEP if _push(eng, st, fn, a, dest, target) else NOSTEP
    settle_root(eng, st, ev)
    m = st.mon
    r = m.rec(ev)
    if m.pend and any(p[1] is not None for p in m.pend):
        violate(eng, st, "C10", "prepared node leaks", "a node prepared for a field is left unread and then skipped with the element")
        raise Dead()
    if r is None or r.phase in (2, 3):
        return ok()
    r = classify(eng, st, ev)
    settle_child(eng, st, ev)
    m = st.mon
    r = m.rec(ev)
    ss = slots(m.spec, r.typ)
    if any(s["kind"] in ("attr", "elem", "text") for s in ss):
        eng.push(st, fn, a, dest, target)      # what is skipped may belong to a field: look at it node by node
        return NOSTEP
    alts = ("err", "end")
    if r.typ is not None and is_scalar(m.spec, r.typ) and r.text is not None and r.typ != ("unit",):
        alts = ("err", "end", "more")
    w = choose(eng, st, "ignore", alts)
    st.note(("skip", w, ev))
    if w == "err":
        st.mon = m.add("input").put(ev, r.copy(phase=3, last=None))
        return err(error_value(eng, st, "UnexpectedEndOfStream"))
    if w == "more":
        m = m.flag("moretext")
    st.mon = m.put(ev, r.copy(phase=2, last=None))
    return ok()


def _push(eng, st, fn, a, dest, target):
    eng.push(st, fn, a, dest, target)
    return True


def ident(eng, st, kind, ev):
    tid = find_adt(eng, "instant_xml::Id")
    fs = {"ns": ("str", ns_pieces(ev)), "name": ("str", name_pieces(eng, kind, ev))}
    return ("A", 0, tuple(fs[f[0]] for f in eng.ty(tid)["variants"][0]["fields"]))


def op_element_id(eng, st, a, fn, dest, target):
    kind = "attr" if fn.df.endswith("attribute_id") else "open"
    e = eng.read(st, a[1][1], a[1][2]) if a[1][0] == "ref" else a[1]
    if e[0] == "A" and kind == "attr":
        # an attribute whose value has been moved out is still named by its local name
        i = field_ix(eng, find_adt(eng, "de::Attribute"), "local")
        ln = e[2][i] if i < len(e[2]) else None
        if ln and ln[0] == "str" and len(ln[1]) == 1 and ln[1][0][0] == "y" and ln[1][0][1][0] == "f":
            e = ("y", ln[1][0][1][1], None)
    if e[0] != "y":
        raise Unknown("id of %s" % (e[0],))
    ev = e[1]
    got = eng.ask(st, ("unres", ev), (0, 1))
    if got:
        st.mon = st.mon.add("prefix")
        return err(error_value(eng, st, "UnknownPrefix"))
    return ok(ident(eng, st, kind, ev))


def op_parent(eng, st, a, fn, dest, target):
    h = handle(eng, st, a[0])
    if h[1] != ("in", "root") and st.facts.get(("unres", h[1])) != 0 and may_panic(eng, fn):
        # nobody has looked the element's prefix up: it may be undeclared
        if eng.ask(st, ("unres", h[1]), (0, 1)):
            eng.panic(st, "the name of an element with an undeclared prefix is taken for granted", st.frames[-1].fn)
            raise Dead()
    return ident(eng, st, "open", h[1])


def may_panic(eng, fn):
    if not fn.body:
        return True
    for stmts, term in fn.blocks:
        if term[0] == "call" and term[1][0] == "fn":
            n = eng.p.fns[term[1][1]].df
            if n.endswith(("::unwrap", "::expect", "::index")) or "panic" in n:
                return True
    return False


def recursive(eng, st, a, fn):
    """A re-entered reader of a captured element: by induction it captures that element, or fails."""
    ret = eng.ty(fn.locals[0])
    if not ret.get("name", "").endswith("result::Result") or not eng.ty(ret["args"][0]).get("name", "").endswith("AnyElement"):
        return None
    ev = None
    for x in a:
        if x[0] == "ref":
            try:
                c = eng.deref_all(st, x)
            except Unknown:
                continue
            if c[0] == "D":
                ev = c[1]
    r = st.mon.rec(ev) if ev is not None else None
    if r is None or r.phase != 0 or any(x[0] for x in r.slots) or r.last is not None:
        raise Unknown("recursion in %s" % fn.df)
    for x in a:
        if x[0] == "A" and len(x[2]) == 2 and x[2] != ident(eng, st, "open", ev)[2]:
            violate(eng, st, "C20", "child captured under another name", "a captured child is given the name of another element")
            raise Dead()
    w = choose(eng, st, "any", ("err", "ok"))
    if w == "err":
        st.mon = st.mon.add("input").put(ev, r.copy(phase=3))
        return err(error_value(eng, st, "UnexpectedEndOfStream"))
    st.mon = st.mon.put(ev, r.copy(phase=2, cf=True))
    return ok(("dv", ev))


# ---------------------------------------------------------------- values
def term_ok(name, args):
    return ("u", name, args)


PARSERS = {"u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "char", "IpAddr"}


def op_from_str(eng, st, a, fn, dest, target):
    ret = eng.ty(fn.locals[0] if fn.body else fn.ret)
    t = ret["args"][0]
    name = eng.ty(t)["d"].rsplit("::", 1)[-1]
    p = text_of(eng, st, a[0])
    key = ("pf", name, p)
    good = eng.ask(st, key, (1, 0))
    if not good:
        st.mon = st.mon.add("parse")
        return err(("y", ("opaque", "parse error"), ret["args"][1]))
    return ok(("y", ("u", "from_str", (name, p)), t))


def op_chrono(eng, st, a, fn, dest, target):
    from models import uninterpreted
    v = uninterpreted(eng, st, a, fn)
    if v[0] == "y":
        t = eng.ty(v[2])
        if t["k"] == "adt" and t.get("name", "").endswith("result::Result"):
            k = eng.variant(st, v)
            if k == 1:
                st.mon = st.mon.add("parse")
            return ("A", k, (eng.field(st, v, 0),))
        if t["k"] in ("int", "uint"):
            st.mon = st.mon.add("zone")
    return v


def mism(prop, what):
    return [(prop, what)]


def reading(eng, st, ty, src, v, borrow, dry=False, where="value"):
    """Problems with `v` as the reading of `src` as type `ty`: [] when it is right.

    src: ("p", pieces) text; ("p0",) an element without text; ("e", ev) an element still known;
    ("dv", ev) an element whose reading has been checked."""
    m = st.mon
    spec = m.spec
    if v is None:
        raise Unknown("moved value")
    if v == ("dv", src[1] if len(src) > 1 else None) and src[0] in ("dv", "e"):
        return []
    k = ty[0]
    if k == "bool" and v[0] not in ("b", "y"):
        raise Unknown("bool from %s" % v[0])
    if k == "opt":
        if v[0] != "A":
            raise Unknown("option %s" % v[0])
        if v[1] == 0:
            if src == ("p0",):
                return []
            if src[0] == "p" and src[1] == ():
                return []
            out = mism("C13", "%s is absent from the result although the input has it" % where)
            if base(spec, ty)[0] not in (("str",), ("unit",)) and is_scalar(spec, base(spec, ty)[0]):
                out += mism("C14", "the text of %s is neither parsed nor an error" % where)
            return out
        if src == ("p0",) and base(spec, ty)[0] not in (("str",), ("unit",)):
            return mism("C16", "%s has a value although its element is empty" % where)
        return reading(eng, st, ty[1], src, v[2][0], borrow, dry, where)
    if k in ("box", "ref"):
        if v[0] != "ref":
            raise Unknown("box of %s" % v[0])
        return reading(eng, st, ty[1], src, eng.read(st, v[1], v[2]), borrow, dry, where)
    if k == "cow" and ty[1] == ("str",):
        return read_text(eng, st, src, v, borrow, where)
    if k == "str":
        return read_text(eng, st, src, v, False, where)
    if k == "unit":
        return []
    if k in ("vec", "cow"):
        raise Unknown("collection in %s" % where)
    if k == "user" and spec[ty[1]]["kind"] == "forward":
        if v[0] != "A":
            raise Unknown("enum value %s" % v[0])
        d = spec[ty[1]]
        n, t = d["variants"][v[1]]
        if src[0] == "e":
            c = m.rec(src[1])
            b = base(spec, t)[0]
            if c is not None and b[0] == "user" and spec[b[1]]["kind"] == "struct" and c.typ != b:
                return mism("C18", "%s is variant %s, which the element does not match" % (where, n))
        return reading(eng, st, t, src, v[2][0], borrow, dry, where)
    if k in ("user", "any") and not is_scalar(spec, ty):
        if src[0] == "p":
            raise Unknown("struct from text")
        if src[0] == "e" and m.rec(src[1]) is not None:
            return read_struct(eng, st, ty, src[1], v, dry, where)
        if not slots(spec, ty):
            return []
        return mism("C13", "%s is not the value read from its element" % where)
    # scalars
    if src == ("p0",):
        return mism("C16", "%s has a value although its element is empty" % where)
    if src[0] != "p":
        raise Unknown("scalar from %s" % src[0])
    p = src[1]
    if k == "bool":
        return read_labels(eng, st, p, v, [("true", 1), ("1", 1), ("false", 0), ("0", 0)], where, dry)
    if k == "user":
        if v[0] == "y":
            raise Unknown("symbolic enum")
        if v[0] != "A" or v[2]:
            raise Unknown("enum from %s" % v[0])
        return read_labels(eng, st, p, ("b", v[1]), [(l, i) for i, (n, l) in enumerate(spec[ty[1]]["variants"])], where, dry)
    if k in NUMS or k in ("char", "IpAddr"):
        name = "IpAddr" if k == "IpAddr" else k
        if v[0] != "y":
            return mism("C19", "%s is not parsed from the text" % where)
        s = v[1]
        if s[0] != "u" or s[1] != "from_str":
            return mism("C19", "%s is not parsed from the text" % where)
        good = [p]
        if k in NUMS:
            good += [(("trim", p),)]
            kk = const_text(p)
            if kk is not None:
                good.append(lit(kk.strip()))
        if s[2][0] == name and s[2][1] not in good and harmless_cut(k, s[2][1], good):
            raise Unknown("part of the text of a number is cut off")
        if s[2][0] != name or s[2][1] not in good:
            return mism("C19", "%s is parsed as %s from %s" % (where, s[2][0], "other text" if s[2][1] not in good else "its text"))
        return []
    if k in DATES:
        return read_date(eng, st, k, p, v, where)
    raise Unknown("type %s" % k)


def harmless_cut(k, p, good):
    """May cutting these characters off leave every number what it was?"""
    while len(p) == 1 and p[0][0] == "cut":
        _, side, what, p = p[0]
        chars = set(what) if type(what) is str else None
        if chars is None and sum(y - x + 1 for x, y in what) < 40:
            chars = {chr(c) for x, y in what for c in range(x, y + 1)}
        if chars is None:
            return False
        if not (side == "trim_start" and chars <= set("+0 \t\r\n") or k in ("f32", "f64") and chars <= set("+0. \t\r\n")
                or chars <= set(" \t\r\n")):
            return False
        if p in good:
            return True
    return False


def read_date(eng, st, k, p, v, where):
    def calls(x, out):
        if type(x) is tuple:
            if len(x) == 3 and x[0] == "u":
                out.append((x[1], x[2]))
            for y in x:
                calls(y, out)
        return out
    cs = calls(v, [])
    names = [c[0].rsplit("::", 1)[-1] for c in cs]
    src = ("S", p)
    if not any(src in c[1] for c in cs):
        return mism("C19", "%s is not parsed from the text" % where)
    if k == "DateTimeUtc":
        if "parse_from_rfc3339" in names or any(n in ("from_str", "parse_from_str") for n in names):
            if offset_unseen(eng, st, cs, p):
                return mism("C19", where + ANY_OFFSET)
            return []
        return mism("C19", "%s is parsed by %s" % (where, "/".join(names)))
    want = "%Y-%m-%d" if k == "NaiveDate" else "%Y-%m-%dT%H:%M:%S%.f"
    for n, c in zip(names, cs):
        if n == "parse_from_str":
            f = c[1][1]
            if f != ("S", lit(want)):
                return mism("C19", "%s is parsed with the format %s, written with %s" % (where, const_text(f[1]) if f[0] == "S" else "?", want))
            return [] if not any(x in names for x in ("with_nanosecond", "trunc_subsecs", "round_subsecs", "with_second")) else mism("C19", "%s is altered after parsing" % where)
    return []


ANY_OFFSET = " is read from a text with any offset from UTC, though it is written with none"


def offset_unseen(eng, st, cs, p):
    """Is the value taken over although nothing was decided about the offset of the text?"""
    parse = [("u", n, c) for n, c in cs if n.rsplit("::", 1)[-1] in ("parse_from_rfc3339", "from_str")]
    if not any(("var", t) in st.facts for t in parse):
        return False        # what was decided then is no longer known
    for key, val in st.facts.items():
        if key in (("var", t) for t in parse):
            continue
        if key[0] in ("streq", "has", "seg", "nx", "whole") and mentions(key, p):
            return False
        if key[0] not in ("streq", "has", "seg", "nx", "whole", "end") and any(mentions(key, t) for t in parse):
            return False
    return True


def mentions(x, t):
    if x == t:
        return True
    return type(x) is tuple and any(mentions(y, t) for y in x)


def read_labels(eng, st, p, v, labels, where, dry):
    if v[0] == "y":
        raise Unknown("symbolic scalar")
    want = [l for l, n in labels if n == v[1]]
    if dry:
        for l in want:
            if const_text(p) is not None:
                if const_text(p) == l:
                    return []
            elif st.facts.get(("streq",) + tuple(sorted((p, lit(l)), key=repr))) == 1:
                return []
        raise Unknown("label")
    for l in want:
        if str_eq(eng, st, p, lit(l)):
            return []
    return mism("C19", "%s is read from text that does not denote it" % where)


def read_text(eng, st, src, v, borrow, where):
    if src[0] == "p0":
        p = ()
    elif src[0] == "p":
        p = src[1]
    else:
        raise Unknown("text from %s" % src[0])
    got = text_of(eng, st, v)
    if got != p and not (src[0] == "p" and const_text(got) == const_text(p) is not None):
        return mism("C11", "%s is not the text of the input" % where)
    if borrow and len(p) == 1 and p[0][0] == "y" and v[0] == "A":
        s = p[0][1]
        if v[1] == 1 and s[:1] != SV and eng.ask(st, ("var", s), (0, 1)) == 0:
            return mism("C15", "%s is a copy although the text could be borrowed" % where)
    return []


def getpath(eng, st, v, path):
    for i in path:
        v = eng.field(st, v, i)
    return v


def read_struct(eng, st, ty, ev, v, dry, where):
    m = st.mon
    r = m.rec(ev)
    ss = slots(m.spec, ty)
    if r.typ != ty:
        return mism("C18", "%s is read from an element that does not match" % where)
    if r.phase != 2:
        if dry:
            return mism("C10", "unread")
        return mism("C10", "%s: the element is not read to its end" % where)
    if ty == ("any",):
        return read_any(eng, st, ev, r, v, dry, where)
    if v[0] != "A":
        raise Unknown("struct value %s" % v[0])
    if v[1] != 0:
        raise Unknown("struct value with a variant")
    if len(m.spec[ty[1]]["fields"]) != len(v[2]):
        return mism("C13", "%s has other fields" % where)
    out = []
    for i, s in enumerate(ss):
        n, src, lost = r.slots[i]
        w = "%s.%s" % (ty[1], s["name"])
        if s.get("optional_group"):
            raise Unknown("optional transparent field")
        x = getpath(eng, st, v, s["path"])
        if s["coll"]:
            out += read_coll(eng, st, ev, i, s, n, src, lost, x, w)
            continue
        if n == 0 and src == ("p0",) and s["opt"]:
            continue
        if n == 0:
            if s["kind"] in ("text", "ttext"):
                pr = reading(eng, st, s["ty"], ("p", ()), x, False, dry, w) if s["base"] != ("unit",) else []
                if pr and s["ty"][0] == "opt" and x == NONE:
                    pr = []
                out += [("C16", "%s gets a value although the input has none" % w)] if pr else []
            elif s["opt"]:
                if x[0] == "A" and x[1] != 0 or x[0] not in ("A",) and s["ty"][0] == "opt":
                    out.append(("C16" if not r.seen else "C18", "%s gets a value although no node of the input matches it" % w))
            else:
                out.append(("C16", "no value in the input for required %s, but reading succeeds" % w))
            continue
        if n == 2:
            out.append(("C09", "more than one value for %s, but reading succeeds" % w))
            continue
        out += reading(eng, st, s["ty"], src, x, s["borrow"], dry, w)
    return out


def read_coll(eng, st, ev, i, s, n, src, lost, x, w):
    x0 = x
    t = s["ty"]
    while t[0] in ("box", "cow", "opt"):
        if t[0] == "box":
            x = eng.read(st, x[1], x[2])
        elif x[0] == "A":
            if t[0] == "opt" and x[1] == 0:
                return [] if n == 0 else mism("C09", "%s is absent although the input has values for it" % w)
            x = x[2][0]
        t = t[1]
    x = eng.deref_all(st, x)
    if x[0] == "arr":
        if not x[1] and n == 0:
            return []
        raise Unknown("collection %s" % x[0])
    if x[0] != "V":
        raise Unknown("collection %s" % x[0])
    tag = ("H", ev, i)
    if n == 0:
        if x[1] is None and not x[3]:
            return []
        return mism("C16", "%s has elements although the input has none" % w)
    if src is not None and len(x[3]) == 1 and not lost:
        pr = item_problems(eng, st, ev, st.mon.rec(ev), s, src, x[3][0])
        if pr:
            return pr
    if lost or src is not None:
        if lost == 2 or src is not None and no_value(st.mon, s, src):
            return mism("C16", "an element of %s without the value it needs is left out" % w)
        return mism("C09", "%s lacks a value of the input" % w)
    if x[3]:
        return mism("C09", "%s has an element that is not a value of the input" % w)
    if x[1] != tag:
        return mism("C09", "%s does not hold its values" % w)
    return []


def read_any(eng, st, ev, r, v, dry, where):
    if v[0] != "A":
        raise Unknown("captured %s" % v[0])
    if len(v[2]) != 5:
        return mism("C20", "not a captured element")
    tid = find_adt(eng, "AnyElement")
    g = lambda n: v[2][field_ix(eng, tid, n)]
    out = []
    if text_of(eng, st, g("ns")) != ns_pieces(ev):
        out.append(("C20", "the namespace of a captured element is not that of the element read"))
    if text_of(eng, st, g("name")) != name_pieces(eng, "open", ev):
        out.append(("C20", "the name of a captured element is not that of the element read"))
    for i, nm in enumerate(("attributes", "children")):
        n, src, lost = r.slots[i]
        x = g(nm)
        pr = read_coll(eng, st, ev, i, ANYSLOTS[i], n, src, lost, x, "AnyElement." + nm)
        out += [("C20", b) for a, b in pr]
    n, src, lost = r.slots[2]
    x = g("text")
    if n == 0:
        if x[0] == "A" and x[1] == 1:
            out.append(("C20", "a captured element has text although the element has none"))
    else:
        pr = reading(eng, st, ("opt", ("cow", ("str",))), src, x, True, dry, "AnyElement.text")
        out += [(a if a == "C15" else "C20", b) for a, b in pr]
    return out


def read_anyattr(eng, st, ev, v):
    tid = find_adt(eng, "AnyAttribute")
    if v[0] != "A":
        raise Unknown("captured attribute %s" % v[0])
    if len(v[2]) != 3:
        return mism("C20", "not a captured attribute")
    g = lambda n: v[2][field_ix(eng, tid, n)]
    out = []
    if text_of(eng, st, g("ns")) != ns_pieces(ev):
        out.append(("C20", "the namespace of a captured attribute is not that of the attribute read"))
    if text_of(eng, st, g("name")) != name_pieces(eng, "attr", ev):
        out.append(("C20", "the name of a captured attribute is not that of the attribute read"))
    if text_of(eng, st, g("value")) != (("y", attr_value_sym(eng, ev)),):
        out.append(("C20", "the value of a captured attribute is not that of the attribute read"))
    return out


def item_problems(eng, st, ev, r, s, src, x):
    """Problems with `x` as the reading of the node `src` of collection field `s`."""
    t = s["ty"]
    while t[0] in ("box", "cow", "opt") and t != ("cow", ("str",)):
        t = t[1]
    t = t[1] if t[0] == "vec" else t
    if s["name"] == "attributes" and r.typ == ("any",):
        return read_anyattr(eng, st, src[1], x)
    if src[0] == "e":
        c = st.mon.rec(src[1])
        if c is not None and c.typ is not None and is_scalar(st.mon.spec, c.typ):
            src = ("p", (("y", c.text),)) if c.text is not None else ("p0",)
    pr = reading(eng, st, t, src, x, s["borrow"], False, "%s.%s" % (r.typ[1] if len(r.typ) > 1 else "AnyElement", s["name"]))
    if r.typ == ("any",):
        pr = [(a if a == "C15" else "C20", b) for a, b in pr]
    return pr


def on_push(eng, st, cell, path):
    """A value was appended to a collection: is it the value of the node just read?"""
    v = eng.read(st, cell, path)
    if v[0] != "V" or not v[3]:
        return
    if len(v[3]) > 1:
        if len(v[3]) > 2:
            eng.write(st, cell, path, ("V", (v[1] if v[1] and v[1][0] == "bad" else ("bad", v[1])), v[2], ()))
        return
    for ev, r in st.mon.recs:
        classify(eng, st, ev)
    m = st.mon
    for ev, r in m.recs[::-1]:
        ss = slots(m.spec, r.typ)
        for i, s in enumerate(ss):
            n, src, lost = r.slots[i]
            if not s["coll"] or src is None:
                continue
            tag = ("H", ev, i)
            if v[1] is not None and v[1] != tag:
                continue
            try:
                if item_problems(eng, st, ev, r, s, src, v[3][0]):
                    continue
            except Unknown:
                continue
            eng.write(st, cell, path, ("V", tag, v[2], ()))
            st.facts[("vempty", tag)] = 0
            r = r.copy(slots=r.slots[:i] + ((n, None, lost),) + r.slots[i + 1:])
            if src[0] == "e" and r.open == src[1]:
                c = m.rec(src[1])
                if c is not None and c.phase == 2:
                    m = m.put(src[1], None)
                    r = r.copy(open=None)
            st.mon = m.put(ev, r)
            return


# ---------------------------------------------------------------- the end
def at_return(eng, st, v):
    m = st.mon
    spec = m.spec
    ev = ("in", "root")
    if v[0] == "y":
        raise Unknown("symbolic result")
    settle_root(eng, st, ev)
    classify(eng, st, ev)
    r = st.mon.rec(ev)
    m = st.mon
    ty = root_type(m)
    if v[1] == 0:
        if r.open is not None:
            c = m.rec(r.open)
            if c is not None and c.phase < 2:
                violate(eng, st, "C10", "child left unread at the end", "reading succeeds although a child has not been read to its end")
                return
            settle_child(eng, st, ev)
            m = st.mon
            r = m.rec(ev)
        if any(p[1] is not None for p in m.pend):
            violate(eng, st, "C10", "prepared node left", "reading succeeds with a prepared node left unread")
        for w in m.why:
            if w in ("input", "prefix"):
                violate(eng, st, "C14", "swallowed|" + w, "reading succeeds although the input has an error (%s)" % {"input": "reported by the deserializer", "prefix": "an undeclared prefix"}[w])
                return
        if not root_matches(eng, st, ty, ev):
            violate(eng, st, "C18", "root", "reading succeeds from an element that does not match the type")
            return
        if ty[0] == "user" and spec[ty[1]]["kind"] == "forward" or r.phase == 2 or r.phase != 3:
            if r.phase != 2:
                violate(eng, st, "C10", "element left unread", "reading succeeds although the element has not been read to its end")
                return
        if "parse" in m.why:
            violate(eng, st, "C14", "swallowed|parse", "reading succeeds although a value did not parse")
            return
        if "moretext" in m.flags:
            eng.violate(st, "C11", "text after the first run", "text of an element that follows a comment, CDATA section or child element is dropped")
        out = reading(eng, st, ty, ("e", ev), v[2][0], False)
        for prop, what in out:
            violate(eng, st, prop, what, what)
            if "element in scalar" in m.why and prop == "C16" and "C10" not in [p for p, _ in out]:
                violate(eng, st, "C10", "inner|" + what, what + "; the element holds another element")
        return
    # an error: is it due?
    if m.why:
        check_kind(eng, st, v)
        return
    for e, c in m.recs:
        ss = slots(spec, c.typ)
        if c.phase == 2:
            if any(required(s) and c.slots[i][0] == 0 and s["kind"] not in ("text", "ttext") for i, s in enumerate(ss)):
                check_kind(eng, st, v, "missing")
                return
            if c.typ is not None and is_scalar(spec, c.typ) and c.text is None and c.typ not in (("unit",),):
                if c.typ != ("str",):
                    return
        if c.typ is not None and is_scalar(spec, c.typ) and label_error(eng, st, c.typ, ("y", c.text) if c.text is not None else None):
            return
        for i, s in enumerate(ss):
            n, src, lost = c.slots[i]
            if src is not None and src[0] == "p" and is_scalar(spec, s["base"]) and label_error(eng, st, s["base"], src[1][0] if src[1] else None):
                return
            if src == ("p0",) and s["base"] not in (("str",), ("unit",)):
                return
            if n == 0 and s["kind"] in ("text", "ttext") and s["base"] != ("str",):
                return
            if n and s["with_"]:
                return
    if not root_matches(eng, st, ty, ev):
        return
    seen = sorted(set(x for e, c in m.recs for x in c.seen))
    if seen:
        violate(eng, st, "C18", "rejected|" + ",".join(seen), "a valid element is rejected; it has %s, which should have no effect" % ", ".join(seen))
    else:
        violate(eng, st, "C13", "rejected", "an element with the configured names and valid content is rejected")


def label_error(eng, st, ty, piece):
    if piece is None:
        return True
    if ty == ("bool",):
        ls = ["true", "1", "false", "0"]
    elif ty[0] == "user":
        ls = [l for n, l in st.mon.spec[ty[1]]["variants"]]
    else:
        return False
    return not any(str_eq(eng, st, (piece,), lit(l)) for l in ls)


def check_kind(eng, st, v, extra=None):
    m = st.mon
    why = m.why + ((extra,) if extra else ())
    e = v[2][0]
    if e[0] != "A" or len(why) != 1:
        return
    name = eng.ty(find_adt(eng, "instant_xml::Error"))["variants"][e[1]]["name"]
    if why == ("dup",) and name != "DuplicateValue":
        if not maybe_other(eng, st):
            violate(eng, st, "C09", "error kind", "more than one value for a field is reported as %s, not as a duplicate value" % name)
    if why == ("missing",) and name != "MissingValue":
        if not maybe_other(eng, st):
            violate(eng, st, "C16", "error kind", "a missing value is reported as %s" % name)


def maybe_other(eng, st):
    """Could the error be about something else (a label that does not match, an empty scalar)?"""
    m = st.mon
    for e, c in m.recs:
        if c.typ is not None and is_scalar(m.spec, c.typ):
            if c.text is None or label_error(eng, st, c.typ, ("y", c.text)):
                return True
        for i, s in enumerate(slots(m.spec, c.typ)):
            n, src, lost = c.slots[i]
            if src is not None and src[0] == "p" and is_scalar(m.spec, s["base"]) and label_error(eng, st, s["base"], src[1][0] if src[1] else None):
                return True
            if n == 0 and s["kind"] in ("text", "ttext"):
                return True
    return False


def root_matches(eng, st, ty, ev):
    if ty == ("any",):
        return 1
    return matches(eng, st, st.mon, ty, None, None, "open", ev)


OPS = {
    "instant_xml::Deserializer::nested": op_nested,
    "<instant_xml::Deserializer as std::iter::Iterator>::next": op_next,
    "instant_xml::Deserializer::for_node": op_for_node,
    "instant_xml::Deserializer::ignore": op_ignore,
    "instant_xml::Deserializer::parent": op_parent,
    "instant_xml::Deserializer::element_id": op_element_id,
    "instant_xml::Deserializer::attribute_id": op_element_id,
}
