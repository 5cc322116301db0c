"""Abstract text: positions in a symbolic string, classes of the characters between them, and
"images" of a string under a character-by-character replacement.

 position          ("pos", S, m)      S: text pieces; m: "0", "end" or a marker ("$N", k)
 fact ("seg",S,m)  = (prev, how, n)   how: ("sym", s) one unit named s (n=1), or ("cls", ranges)
                                      any number of units (n=None)
 fact ("nx",S,m)   = m'               the position after the unit at m
 fact ("whole",S)  = ranges           every unit of S is in ranges (a full scan reached the end)
 fact ("last",S)   = m                marker of the unit most recently handed out
 piece ("img",S,a,b,id), fact ("imgp",id) = (same, map): the units from a to b, where those in
 `same` are copied and each source text in `map` is replaced; nothing else occurs.
"""
from engine import NOSTEP, NONE, TRUE, FALSE, UNIT, Dead, NeedFork, Unknown, err, ok, some
from models import Models, cat, const_text, lit, model, pattern, text_of, as_seq, str_eq, char_text

CHARS = ((0, 0xD7FF), (0xE000, 0x10FFFF))
BYTES = ((0, 255),)


def r_union(a, b):
    out = []
    for lo, hi in sorted(a + b):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return tuple(out)


def r_inter(a, b):
    out = []
    for x in a:
        for y in b:
            lo, hi = max(x[0], y[0]), min(x[1], y[1])
            if lo <= hi:
                out.append((lo, hi))
    return tuple(sorted(out))


def r_minus(a, b):
    out = list(a)
    for y in b:
        nxt = []
        for x in out:
            if y[1] < x[0] or y[0] > x[1]:
                nxt.append(x)
                continue
            if x[0] < y[0]:
                nxt.append((x[0], y[0] - 1))
            if x[1] > y[1]:
                nxt.append((y[1] + 1, x[1]))
        out = nxt
    return tuple(sorted(out))


def r_has(a, n):
    return any(lo <= n <= hi for lo, hi in a)


def universe(eng, tid):
    if tid is None:
        return ((-(1 << 63), (1 << 64) - 1),)
    t = eng.ty(tid)
    if t["k"] == "char":
        return CHARS
    bits = t.get("bits") or 64
    if t["k"] == "uint":
        return ((0, (1 << bits) - 1),)
    if t["k"] == "int":
        return ((-(1 << (bits - 1)), (1 << (bits - 1)) - 1),)
    if t["k"] == "bool":
        return ((0, 1),)
    return ((-(1 << 63), (1 << 64) - 1),)


def sym_ranges(eng, st, v):
    return st.facts.get(("cv", v[1])) or universe(eng, v[2] if len(v) > 2 else None)


def split(eng, st, v, sub):
    """Is the scalar symbol in `sub`? 1 or 0, forking when unknown."""
    cur = sym_ranges(eng, st, v)
    yes = r_inter(cur, sub)
    no = r_minus(cur, sub)
    if not yes:
        return 0
    if not no:
        return 1
    raise NeedFork([(("cv", v[1]), yes), (("cv", v[1]), no)])


def choose_const(eng, st, v, vals):
    cur = sym_ranges(eng, st, v)
    cand = [x for x in vals if r_has(cur, x)]
    if not cand:
        return None
    rest = r_minus(cur, tuple((x, x) for x in cand))
    if not rest and len(cand) == 1:
        return cand[0]
    alts = [(("cv", v[1]), ((x, x),)) for x in cand]
    if rest:
        alts.append((("cv", v[1]), rest))
    raise NeedFork(alts)


def unit_ranges(st, S, m):
    """Known class of the unit at marker m."""
    for kind in ("cat", "bat"):
        f = st.facts.get(("cv", (kind, S, m)))
        if f:
            return f
    return None


def single(r):
    return r[0][0] if r and len(r) == 1 and r[0][0] == r[0][1] else None


# ---------------------------------------------------------------- walking
def step_class(st, S, how, byte):
    if how[0] == "cls":
        return how[1]
    return st.facts.get(("cv", how[1])) or (BYTES if how[1][0] == "bat" else CHARS)


def walk(st, S, a, b):
    """Steps from position a to position b, oldest first, or None."""
    out = []
    n = 0
    b = resolve(st, S, b)
    a = resolve(st, S, a)
    while b != a:
        f = st.facts.get(("seg", S, b))
        if f is None:
            return None
        prev, how, cnt = f
        if not (cnt is None and st.facts.get(("poseq", S, b)) == prev):
            out.append((prev, how, cnt))
        b = resolve(st, S, prev)
        n += 1
        if n > 300:
            return None
    return out[::-1]


def resolve(st, S, m):
    if m == "end":
        e = st.facts.get(("end", S))
        if e is not None:
            return e
    return m


def mark_of(st, S, v):
    """Marker of an integer value used as a position in S."""
    if v[0] == "pos" and v[1] == S:
        return v[2]
    if v[0] == "i":
        m = move(st, S, "0", v[1])
        if m is not None:
            return m
    if v[0] == "blen" and v[1] == S:
        return "end"
    raise Unknown("position %s" % (v[0],))


def seg_class(st, S, a, b):
    w = walk(st, S, a, b)
    if w is None:
        return None
    r = ()
    for prev, how, n in w:
        r = r_union(r, step_class(st, S, how, 0))
    return r


# ---------------------------------------------------------------- scanning
def scan_next(eng, st, S, m, kind):
    """(symbol, position after) of the next unit, or None at the end."""
    nx = st.facts.get(("nx", S, m))
    if nx is not None:
        st.facts[("last", S)] = m
        f = st.facts.get(("seg", S, nx))
        if f is not None and f[1][0] == "sym" and f[1][1][0] != kind:
            if step_class(st, S, f[1], 0)[-1][1] > 127:
                raise Unknown("bytes and characters of one text")
            return f[1][1], nx
        return (kind, S, m), nx
    k = const_text(S)
    if k is not None:
        raise Unknown("scan of constant text")
    if resolve(st, S, "end") == m and m != "end":
        return None
    e = st.facts.get(("streq", (), S)) if m == "0" else None
    if len(S) == 1 and S[0][0] == "ch" and kind == "bat" and S[0][1][0] == "y":
        # the bytes of one character: the character itself, or several bytes beyond ASCII
        if m == "0":
            if split(eng, st, S[0][1], ((0, 127),)):
                kind = "cat"
            else:
                st.facts.setdefault(("cv", ("bat", S, "0")), ((128, 255),))
        else:
            f = st.facts.get(("seg", S, m))
            if f is not None and f[1][0] == "sym" and f[1][1][0] == "cat":
                kind = "cat"
            else:
                st.facts.setdefault(("cv", ("bat", S, m)), ((128, 255),))
    if len(S) == 1 and S[0][0] == "ch" and kind == "bat" and m == "0":
        more = 1
    elif len(S) == 1 and S[0][0] == "ch" and kind == "cat":
        more = 1 if m == "0" else 0       # the text of one character
        if more and S[0][1][0] == "y" and ("cv", S[0][1][1]) in st.facts:
            st.facts.setdefault(("cv", ("cat", S, "0")), st.facts[("cv", S[0][1][1])])
    elif e is not None:
        more = 1 - e
    else:
        more = eng.ask(st, ("nd", st.fresh()), (0, 1))
    if not more:
        st.facts[("end", S)] = m
        c = seg_class(st, S, "0", m)
        if c is not None:
            st.facts[("whole", S)] = c
        if m == "0":
            st.facts[("streq", (), S)] = 1
        return None
    if m == "0":
        st.facts[("streq", (), S)] = 0
    n = st.fresh()
    sym = (kind, S, m)
    w = st.facts.get(("whole", S))
    if w and ("cv", sym) not in st.facts and (w[-1][1] < 128 or kind == "cat" and w[-1][1] > 255):
        st.facts[("cv", sym)] = w
    st.facts[("nx", S, m)] = n
    st.facts[("seg", S, n)] = (m, ("sym", sym), 1)
    st.facts[("last", S)] = m
    return sym, n


def find_tid(eng, name):
    r = eng.resolved.get(name)
    if r is None:
        for i, t in enumerate(eng.p.types):
            if t["d"] == name:
                r = eng.resolved[name] = i
                break
    return r


def charv(eng, st, sym):
    r = st.facts.get(("cv", sym))
    s = single(r) if r else None
    kind = "char" if sym[0] == "cat" else "u8"
    if s is not None:
        return ("c", s) if kind == "char" else ("i", s)
    return ("y", sym, find_tid(eng, kind))


def posv(S, m):
    return ("pos", S, m)


@pattern(r"(std|core)::str::<impl str>::(char_indices|chars|bytes|as_bytes)$|^std::string::String::(as_bytes|into_bytes)$")
def m_chars(eng, st, a, fn, dest, target):
    S = text_of(eng, st, a[0])
    op = fn.df.rsplit("::", 1)[1]
    if op in ("as_bytes", "into_bytes"):
        if op == "as_bytes":
            return ("ref", ("=", ("bytes", S)), ())
        return ("bytes", S)
    if const_text(S) is not None:
        k = const_text(S)
        if op == "bytes":
            return ("it", "val", ("arr", tuple(("i", b) for b in k.encode())), 0)
        if op == "chars":
            return ("it", "val", ("arr", tuple(("c", ord(c)) for c in k)), 0)
        return ("it", "val", ("arr", tuple(("A", 0, (("i", len(k[:i].encode())), ("c", ord(c)))) for i, c in enumerate(k))), 0)
    return ("sc", op, S, "0")


@pattern(r"^<std::str::(CharIndices|Chars|Bytes) as std::iter::Iterator>::next$")
def m_chars_next(eng, st, a, fn, dest, target):
    it = eng.read(st, a[0][1], a[0][2])
    if it[0] == "A" and len(it[2]) == 2 and it[2][1] is not None:      # CharIndices { front_offset, iter }
        off, inner = it[2]
        if inner[0] == "sc" and inner[1] == "chars":
            r = scan_next(eng, st, inner[2], inner[3], "cat")
            if r is None:
                return NONE
            eng.write(st, a[0][1], a[0][2], ("A", 0, (off, ("sc", "chars", inner[2], r[1]))))
            return some(("A", 0, (posv(inner[2], inner[3]), charv(eng, st, r[0]))))
        if inner[0] == "it" and off[0] == "i":
            from models import iter_next
            v, n = iter_next(eng, st, inner)
            if v[1] == 0:
                return NONE
            c = v[2][0]
            eng.write(st, a[0][1], a[0][2], ("A", 0, (("i", off[1] + len(chr(c[1]).encode())), n)))
            return some(("A", 0, (off, c)))
    if it[0] == "it":
        from models import iter_next
        v, n = iter_next(eng, st, it)
        eng.write(st, a[0][1], a[0][2], n)
        return v
    if it[0] != "sc":
        raise Unknown("iterator %s" % (str(it)[:300],))
    op, S, m = it[1], it[2], it[3]
    r = scan_next(eng, st, S, m, "bat" if op == "bytes" else "cat")
    if r is None:
        return NONE
    eng.write(st, a[0][1], a[0][2], ("sc", op, S, r[1]))
    c = charv(eng, st, r[0])
    if op == "char_indices":
        return some(("A", 0, (posv(S, m), c)))
    return some(c)


WHITE = ((9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029),
         (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000))


@pattern(r"(^|::)(char::methods::)?<impl char>::is_whitespace$")
def m_is_whitespace(eng, st, a, fn, dest, target):
    v = eng.deref_all(st, a[0])
    if v[0] == "c":
        return ("b", 1 if r_has(WHITE, v[1]) else 0)
    if v[0] != "y":
        raise Unknown("whitespace of %s" % v[0])
    return ("b", split(eng, st, v, WHITE))


@pattern(r"^(std|core)::str::Chars::as_str$")
def m_chars_as_str(eng, st, a, fn, dest, target):
    it = eng.read(st, a[0][1], a[0][2])
    if it[0] == "it" and it[2][0] == "arr" and type(it[3]) is int:
        return ("str", lit("".join(chr(c[1]) for c in it[2][1][it[3]:])))
    if it[0] == "sc" and it[1] == "chars":
        return ("str", substr(eng, st, it[2], it[3], "end"))
    raise Unknown("as_str of %s" % it[0])


@pattern(r"^<std::slice::Iter<'?_?,? ?T> as std::iter::ExactSizeIterator>::len$")
def m_iter_len(eng, st, a, fn, dest, target):
    it = eng.read(st, a[0][1], a[0][2])
    if it[0] == "sc":
        return ("rlen", it[2], it[3])
    if it[0] == "it" and it[2][0] == "arr" and type(it[3]) is int:
        return ("i", len(it[2][1]) - it[3])
    raise Unknown("iterator length")


PROBE = (("y", ("probe",)),)


def closure_fn(eng, tid):
    """The body of a closure type."""
    tab = eng.p.__dict__.get("closure_bodies")
    if tab is None:
        tab = eng.p.closure_bodies = {}
        for f in eng.p.fns:
            if "{closure" in f.df and f.body:
                eng.p.prep(f)
                if f.nargs == 2:
                    t = f.locals[1]
                    d = eng.ty(t)
                    tab.setdefault(d["of"] if d["k"] == "ref" else t, f)
    return tab.get(tid)


def predicate_set(eng, st, v, tid):
    """Ranges of the characters a predicate accepts, found by analysing it on an unknown character; or None."""
    t = eng.ty(tid)
    if t["k"] == "fndef" and isinstance(t.get("inst"), int):
        f = eng.p.fns[t["inst"]]
        args = []
    elif t["k"] == "closure":
        f = closure_fn(eng, tid)
        args = [v] if f is not None and eng.ty(f.locals[1])["k"] != "ref" else [("ref", ("=", v), ())]
    else:
        return None
    if f is None or f.model is not None or not f.body:
        return None
    key = (f.id, v if v[0] == "A" else None)
    memo = eng.__dict__.setdefault("predicates", {})
    if key in memo:
        return memo[key]
    eng.p.prep(f)
    memo[key] = None
    if f.nargs != len(args) + 1 or eng.ty(f.locals[f.nargs])["k"] != "char":
        return None
    sym = ("cat", PROBE, "0")
    s2 = st.clone()
    s2.frames = []
    s2.taint = None
    s2.facts = {k: x for k, x in s2.facts.items() if k != ("cv", sym)}
    out = {0: (), 1: ()}
    bad = []

    def done(e, s, r):
        if r[0] != "b" or not isinstance(r[1], int) or s.taint:
            bad.append(r)
            return
        out[r[1]] = r_union(out[r[1]], s.facts.get(("cv", sym)) or CHARS)

    keep = eng.undecided, eng.violations, dict(eng.stats), eng.max_states
    eng.undecided, eng.violations, eng.max_states, eng.probing = {}, {}, 500, True
    try:
        eng.push(s2, f, args + [charv(eng, s2, sym)])
        eng.run(s2, done)
        bad += list(eng.undecided) + list(eng.violations)
    except Unknown:
        bad.append(1)
    finally:
        eng.undecided, eng.violations, _, eng.max_states = keep
        eng.probing = False
        eng.stats.update(keep[2])
    if not bad and not r_inter(out[0], out[1]) and not r_minus(CHARS, r_union(out[0], out[1])):
        memo[key] = out[1]
    return memo[key]


def pattern_set(eng, st, v, fn=None):
    """Ranges of the characters a search pattern matches, or None."""
    v = eng.deref_all(st, v)
    if fn is not None and fn.ins and len(fn.ins) > 1:
        r = predicate_set(eng, st, v, fn.ins[1])
        if r is not None:
            return r
    if v[0] == "set":
        return v[1]
    if v[0] == "c":
        return ((v[1], v[1]),)
    if v[0] == "arr" and all(x[0] == "c" for x in v[1]):
        r = ()
        for x in v[1]:
            r = r_union(r, ((x[1], x[1]),))
        return r
    if v[0] == "str":
        k = const_text(v[1])
        if k is not None and len(k) == 1:
            return ((ord(k), ord(k)),)
    return None


@pattern(r"(std|core)::str::<impl str>::(contains|find)$")
def m_str_search(eng, st, a, fn, dest, target):
    S = text_of(eng, st, a[0])
    op = fn.df.rsplit("::", 1)[1]
    sub = pattern_set(eng, st, a[1], fn)
    k = const_text(S)
    if k is not None:
        q = eng.deref_all(st, a[1])
        pk = const_text(q[1]) if q[0] == "str" else None
        if sub is not None:
            i = next((i for i, c in enumerate(k) if r_has(sub, ord(c))), None)
        elif pk is not None:
            i = k.find(pk)
            i = None if i < 0 else i
        elif fn.body:
            eng.push(st, fn, a, dest, target)
            return NOSTEP
        else:
            raise Unknown("search in constant text")
        if op == "contains":
            return ("b", 0 if i is None else 1)
        return NONE if i is None else some(("i", len(k[:i].encode())))
    if sub is None:
        if fn.body and (op == "contains" or eng.deref_all(st, a[1])[0] != "str"):
            eng.push(st, fn, a, dest, target)      # a predicate: searched step by step
            return NOSTEP
        raise Unknown("search for a string")
    w = st.facts.get(("whole", S))
    if w and not r_inter(w, sub) and w[-1][1] > 255:
        return NONE if op == "find" else FALSE
    if ("nx", S, "0") in st.facts or resolve(st, S, "end") != "end":
        raise Unknown("search in text already scanned")
    got = eng.ask(st, ("has", S, sub), (0, 1))
    rest = r_minus(CHARS, sub)
    if not got:
        n = st.fresh()
        st.facts[("seg", S, n)] = ("0", ("cls", rest), None)
        st.facts[("end", S)] = n
        st.facts[("whole", S)] = r_inter(w, rest) if w else rest
        return NONE if op == "find" else FALSE
    st.facts[("streq", (), S)] = 0
    if op == "contains":
        return TRUE
    n = st.fresh()
    n2 = st.fresh()
    st.facts[("seg", S, n)] = ("0", ("cls", rest), None)
    st.facts[("nx", S, n)] = n2
    st.facts[("seg", S, n2)] = (n, ("sym", ("cat", S, n)), 1)
    st.facts[("cv", ("cat", S, n))] = sub
    return some(posv(S, n))


def byte_iter_next(eng, st, it):
    r = scan_next(eng, st, it[2], it[3], "bat")
    if r is None:
        return NONE, it
    return some(("ref", ("=", charv(eng, st, r[0])), ())), ("sc", it[1], it[2], r[1])


@pattern(r"^<std::iter::Enumerate<I> as std::iter::Iterator>::next$")
def m_enumerate_next(eng, st, a, fn, dest, target):
    it = eng.read(st, a[0][1], a[0][2])
    if it[0] == "A" and it[2][0] is not None and it[2][0][0] == "sc" and it[2][0][1] in ("biter", "bytes"):
        sc = it[2][0]
        S, m = sc[2], sc[3]
        r = scan_next(eng, st, S, m, "bat")
        if r is None:
            return NONE
        eng.write(st, a[0][1], a[0][2], ("A", 0, (("sc", sc[1], S, r[1]), it[2][1])))
        c = charv(eng, st, r[0])
        return some(("A", 0, (posv(S, m), ("ref", ("=", c), ()) if sc[1] == "biter" else c)))
    eng.push(st, fn, a, dest, target)
    return NOSTEP


# ---------------------------------------------------------------- slicing
def substr(eng, st, S, a, b):
    if a == "0" and b == "end":
        return S
    if a == "0" and resolve(st, S, "end") == b:
        return S
    return (("sub", S, a, b),)


def bounds(eng, st, S, r, name):
    """(a, b) markers of a range value."""
    f = r[2]
    if "RangeFull" in name:
        return "0", "end"
    if "RangeToInclusive" in name or "RangeInclusive" in name:
        raise Unknown("inclusive range")
    if "RangeFrom" in name:
        return mark_of(st, S, f[0]), "end"
    if "RangeTo" in name:
        return "0", mark_of(st, S, f[0])
    return mark_of(st, S, f[0]), mark_of(st, S, f[1])


def const_slice(eng, S, r, name):
    k = const_text(S)
    f = r[2]
    b = k.encode()
    lo, hi = 0, len(b)
    if "RangeFull" in name:
        pass
    elif "RangeFrom" in name:
        lo = f[0][1]
    elif "RangeTo" in name:
        hi = f[0][1] + (1 if "Inclusive" in name else 0)
    else:
        lo, hi = f[0][1], f[1][1]
    if not (isinstance(lo, int) and isinstance(hi, int)) or lo > hi or hi > len(b):
        return None
    try:
        return lit(b[lo:hi].decode())
    except UnicodeDecodeError:
        return None


@pattern(r"(std|core)::str::<impl str>::get$|<impl std::ops::Index<I> for (str|std::string::String)>::index$|^<(str|std::string::String) as std::ops::Index<I>>::index$")
def m_str_get(eng, st, a, fn, dest, target):
    S = text_of(eng, st, a[0])
    name = eng.p.tyname[fn.ins[1]] if fn.ins and len(fn.ins) > 1 else ""
    isget = fn.df.endswith("get")
    if const_text(S) is not None:
        r = const_slice(eng, S, a[1], name)
        if r is None:
            if isget:
                return NONE
            eng.panic(st, "str slice", st.frames[-1].fn)
            raise Dead()
    else:
        try:
            lo, hi = bounds(eng, st, S, a[1], name)
        except Unknown:
            st.taint = st.taint or "slice position"
            r = (("subx", S, a[1]),)
            return some(("str", r)) if isget else ("str", r)
        w = walk(st, S, lo, hi)
        if w is None and not (hi == "end" or lo == "0"):
            st.taint = st.taint or "slice order"
        r = substr(eng, st, S, lo, hi)
    return some(("str", r)) if isget else ("str", r)


@pattern(r"^(std|core)::str::<impl str>::split_at(_checked)?$")
def m_split_at(eng, st, a, fn, dest, target):
    S = text_of(eng, st, a[0])
    opt = fn.df.endswith("checked")
    k = const_text(S)
    if k is not None:
        b = k.encode()
        i = a[1][1] if a[1][0] == "i" else None
        if not isinstance(i, int):
            raise Unknown("split at an unknown position")
        try:
            p, q = b[:i].decode(), b[i:].decode()
            if i > len(b):
                raise UnicodeDecodeError("utf-8", b, 0, 1, "")
        except UnicodeDecodeError:
            if opt:
                return NONE
            eng.panic(st, "str split_at", st.frames[-1].fn)
            raise Dead()
        l, r = (lit(p), lit(q))
    else:
        try:
            pos = bounds(eng, st, S, ("A", 0, (a[1],)), "RangeTo")[1]
        except Unknown:
            raise Unknown("split at an unknown position")
        if walk(st, S, "0", pos) is None:
            st.taint = st.taint or "slice order"
        l, r = substr(eng, st, S, "0", pos), substr(eng, st, S, pos, "end")
    v = ("A", 0, (("str", l), ("str", r)))
    return some(v) if opt else v


# ---------------------------------------------------------------- building images
def norm_piece(eng, st, x):
    """A piece as an image of its string, or None."""
    if x[0] == "img":
        return x
    if x[0] == "sub":
        S, a, b = x[1], x[2], x[3]
        c = seg_class(st, S, a, b)
        if c is None:
            return None
        i = st.fresh()
        st.facts[("imgp", i)] = (c, ())
        return ("img", S, a, b, i)
    if x[0] == "ch" and x[1][0] == "y" and x[1][1][0] == "cat":
        S, m = x[1][1][1], x[1][1][2]
        nx = st.facts.get(("nx", S, m))
        if nx is None:
            return None
        i = st.fresh()
        st.facts[("imgp", i)] = (unit_ranges(st, S, m) or CHARS, ())
        return ("img", S, m, nx, i)
    return None


def join_map(m, n):
    d = dict(m)
    for k, v in n:
        if k in d and d[k] != v:
            return None
        d[k] = v
    return tuple(sorted(d.items(), key=repr))


def source_text(st, S, a, b):
    """The source text of [a, b) as a tuple of units (value or class), or None."""
    w = walk(st, S, a, b)
    if w is None:
        return None
    out = []
    for prev, how, n in w:
        if n != 1:
            return None
        c = step_class(st, S, how, 0)
        s = single(c)
        out.append(s if s is not None else ("cls", how[1]))
    return tuple(out)


def append(self, eng, st, p, q):
    out = list(p)
    for x in q:
        if x[0] == "k":
            if not x[1]:
                continue
            # text standing for the unit just read
            done = False
            if out and out[-1][0] == "img":
                S, a, b, i = out[-1][1:]
                m = st.facts.get(("last", S))
                nx = st.facts.get(("nx", S, m)) if m is not None else None
                if nx is not None:
                    src = source_text(st, S, b, nx)
                    if src and all(isinstance(u, int) for u in src):
                        done = absorb(st, out, S, a, nx, i, src, x[1])
            elif not out:
                for key in list(st.facts):
                    if key[0] == "last":
                        S = key[1]
                        nx = st.facts.get(("nx", S, st.facts[key]))
                        src = source_text(st, S, "0", nx) if nx is not None else None
                        if src and (len(src) == 1 or src[0] == 38 and all(isinstance(u, int) for u in src)) and isinstance(src[0], int):
                            i = st.fresh()
                            st.facts[("imgp", i)] = ((), ((src, x[1]),))
                            out.append(("img", S, "0", nx, i))
                            done = True
                            break
            if done:
                continue
            if out and out[-1][0] == "k":
                out[-1] = ("k", out[-1][1] + x[1])
            else:
                out.append(x)
            continue
        if x[0] == "chr":
            # decoded character reference
            if out and out[-1][0] == "img":
                S, a, b, i = out[-1][1:]
                m = st.facts.get(("last", S))
                nx = st.facts.get(("nx", S, m)) if m is not None else None
                if nx is not None:
                    src = source_text(st, S, b, nx)
                    if src and absorb(st, out, S, a, nx, i, ref_key(src), ref_val(x, src)):
                        continue
            out.append(x)
            continue
        n = norm_piece(eng, st, x)
        if n is None:
            out.append(x)
            continue
        S, a, b, i = n[1:]
        if out and out[-1][0] == "img" and out[-1][1] == S and same_pos(st, S, out[-1][3], a):
            s0, m0 = st.facts[("imgp", out[-1][4])]
            s1, m1 = st.facts[("imgp", i)]
            mm = join_map(m0, m1)
            if mm is not None:
                j = st.fresh()
                st.facts[("imgp", j)] = (r_union(s0, s1), mm)
                out[-1] = ("img", S, out[-1][2], b, j)
                continue
        out.append(n)
    return tuple(out)


def ref_key(src):
    return ("ref",) + tuple(u if isinstance(u, int) else "*" for u in src[:3])


def ref_val(x, src):
    return x


def same_pos(st, S, a, b):
    if a == b:
        return True
    w = walk(st, S, a, b)
    return w == []


def absorb(st, out, S, a, nx, i, src, text):
    same, mp = st.facts[("imgp", i)]
    mm = join_map(mp, ((src, text),))
    if mm is None:
        return False
    j = st.fresh()
    st.facts[("imgp", j)] = (same, mm)
    out[-1] = ("img", S, a, nx, j)
    return True


Models.append = append


class Contains:
    df = "str::contains"
    body = None


def stripped(k, how):
    a, b = 0, len(k)
    while how != "trim_end" and a < b and r_has(WHITE, ord(k[a])):
        a += 1
    while how != "trim_start" and a < b and r_has(WHITE, ord(k[b - 1])):
        b -= 1
    return k[a:b]


@pattern(r"(std|core)::str::<impl str>::trim(_start|_end)?$")
def m_trim(eng, st, a, fn, dest, target):
    p = text_of(eng, st, a[0])
    how = fn.df.rsplit("::", 1)[1]
    k = const_text(p)
    if k is not None:
        return ("str", lit(stripped(k, how)))
    if len(p) == 1 and p[0][0] == how:
        return ("str", p)
    return ("str", ((how, p),))


CASES = {"to_lowercase": str.lower, "to_uppercase": str.upper,
         "to_ascii_lowercase": lambda s: "".join(c.lower() if c < "\x80" else c for c in s),
         "to_ascii_uppercase": lambda s: "".join(c.upper() if c < "\x80" else c for c in s)}


@pattern(r"(std|core|alloc)::str::<impl str>::to_(ascii_)?(lower|upper)case$")
def m_case(eng, st, a, fn, dest, target):
    p = text_of(eng, st, a[0])
    op = fn.df.rsplit("::", 1)[1]
    k = const_text(p)
    if k is not None:
        if op in ("to_lowercase", "to_uppercase") and any(ord(c) > 127 for c in k):
            raise Unknown("case of letters beyond ASCII")
        return ("S", lit(CASES[op](k)))
    return ("S", (("fx", op, p),))


@pattern(r"(std|core|alloc)::str::<impl str>::(replace|replacen|repeat)$")
def m_replace(eng, st, a, fn, dest, target):
    p = text_of(eng, st, a[0])
    op = fn.df.rsplit("::", 1)[1]
    k = const_text(p)
    if op == "repeat":
        if k is not None and a[1][0] == "i":
            return ("S", lit(k * a[1][1]))
        if a[1] == ("i", 1):
            return ("S", p)
        return ("S", (("fx", "%s %s" % (op, a[1][1] if a[1][0] == "i" else "?"), p),))
    v = eng.deref_all(st, a[1])
    pat = const_text(v[1]) if v[0] == "str" else None
    if pat is None:
        pat = pattern_set(eng, st, a[1], fn)
        if pat is not None and len(pat) == 1 and single(pat) is not None:
            pat = chr(single(pat))
    to = const_text(text_of(eng, st, a[2]))
    if pat is None or to is None:
        raise Unknown("%s with an unknown pattern" % op)
    if type(pat) is str:
        if pat == to:
            return ("S", p)
        if k is not None and op == "replace" and pat:
            return ("S", lit(k.replace(pat, to)))
        if p and pat and m_known_without(st, p, pat):
            return ("S", p)
    elif k is not None:
        if op == "replace":
            return ("S", lit("".join(to if r_has(pat, ord(c)) else c for c in k)))
        raise Unknown("replacen")
    return ("S", (("fx", "%s %s by %s" % (op, pat, to), p),))


def m_known_without(st, p, pat):
    """Is the text known to lack a character of the pattern?"""
    w = st.facts.get(("whole", p))
    if w is not None and any(not r_has(w, ord(c)) for c in pat):
        return True
    return any(st.facts.get(("has", p, ((ord(c), ord(c)),))) == 0 for c in pat)


XML_WHITE = ((9, 10), (13, 13), (32, 32))
SIDES = {"trim_matches": "trim", "trim_start_matches": "trim_start", "trim_end_matches": "trim_end"}


@pattern(r"(std|core)::str::<impl str>::trim_(start_|end_)?matches$")
def m_trim_matches(eng, st, a, fn, dest, target):
    p = text_of(eng, st, a[0])
    op = fn.df.rsplit("::", 1)[1]
    sub = pattern_set(eng, st, a[1], fn)
    if sub is not None:
        if not r_minus(sub, WHITE) and not r_minus(XML_WHITE, sub):
            what = None
        else:
            what = sub
    else:
        v = eng.deref_all(st, a[1])
        what = const_text(v[1]) if v[0] == "str" else None
        if what is None:
            raise Unknown("pattern of %s" % op)
    k = const_text(p)
    if k is not None:
        if what == "":
            return ("str", lit(k))
        test = (lambda x: k_in(x, what if what is not None else sub)) if type(what) is not str else None
        i, j = 0, len(k)
        n = 1 if test else len(what)
        if op != "trim_end_matches":
            while i + n <= j and (test(k[i]) if test else k.startswith(what, i)):
                i += n
        if op != "trim_start_matches":
            while j - n >= i and (test(k[j - 1]) if test else k[:j].endswith(what)):
                j -= n
        return ("str", lit(k[i:j]))
    if what is None:
        how = SIDES[op]
        return ("str", p if len(p) == 1 and p[0][0] in (how, "trim") else ((how, p),))
    return ("str", (("cut", SIDES[op], what, p),))


def k_in(c, ranges):
    return r_has(ranges, ord(c))


def is_empty(self, eng, st, p):
    if len(p) == 1 and p[0][0] == "fx" and p[0][1] in CASES:
        return self.is_empty(eng, st, p[0][2])
    if len(p) == 1 and p[0][0] == "fx":
        if self.is_empty(eng, st, p[0][2]):
            return 1
        return eng.ask(st, ("cutall", p), (0, 1))
    if len(p) == 1 and p[0][0] == "cut":
        if self.is_empty(eng, st, p[0][3]):
            return 1
        return eng.ask(st, ("cutall", p), (0, 1))
    if len(p) == 1 and p[0][0] in ("trim", "trim_start", "trim_end"):
        if st.facts.get(("streq", (), p[0][1])) == 1:
            return 1
        return 0 if m_str_search(eng, st, [("str", p[0][1]), ("set", r_minus(CHARS, WHITE))], Contains, None, None) == TRUE else 1
    for x in p:
        if x[0] == "k" and x[1]:
            return 0
        if x[0] == "img":
            same, mp = st.facts[("imgp", x[4])]
            if mp:
                return 0
    p = tuple(x for x in p if not (x[0] == "img" and same_pos(st, x[1], x[2], x[3])))
    if not p:
        return 1
    if len(p) == 1 and p[0][0] in ("img", "sub"):
        return eng.ask(st, ("iemp", p[0][-1] if p[0][0] == "img" else st.fresh()), (0, 1))
    return str_eq(eng, st, p, ())


Models.is_empty = is_empty


# ---------------------------------------------------------------- position arithmetic
_sym_binop = Models.sym_binop


def unit_is_one(st, S, m):
    r = st.facts.get(("cv", ("cat", S, m)))
    if ("nx", S, m) in st.facts:
        f = st.facts.get(("seg", S, st.facts[("nx", S, m)]))
        if f and f[1][0] == "sym" and f[1][1][0] == "bat":
            return True
    return bool(r) and r[-1][1] < 128


def sym_binop(self, eng, st, op, a, b, checked, tid):
    if a[0] == b[0] == "rlen" and op == "Sub" and a[1] == b[1] and st.facts.get(("nx", a[1], a[2])) == b[2]:
        v = ("clen", a[1], a[2])
        return ("A", 0, (v, FALSE)) if checked else v
    if (a[0] == "pos" or b[0] == "pos") and op in ("Add", "Sub"):
        r = None
        if op == "Add" and a[0] == "pos" and b[0] == "clen" and a[1:] == b[1:]:
            r = st.facts.get(("nx", a[1], a[2]))
            S = a[1]
        if a[0] == "pos" and b[0] == "i":
            S, m = a[1], a[2]
            r = move(st, S, m, b[1] if op == "Add" else -b[1])
        if a[0] == "i" and b[0] == "pos" and op == "Add":
            r = move(st, b[1], b[2], a[1])
            S = b[1]
        if r is None:
            v = ("op", op, a, b)
            return ("A", 0, (v, FALSE)) if checked else v
        v = posv(S, r)
        return ("A", 0, (v, FALSE)) if checked else v
    if a[0] in ("pos", "blen") or b[0] in ("pos", "blen"):
        S = a[1] if a[0] in ("pos", "blen") else b[1]
        try:
            x, y = mark_of(st, S, a), mark_of(st, S, b)
        except Unknown:
            x = y = None
        if x is not None and op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            rel = compare(eng, st, S, x, y)
            if rel is not None:
                return TRUE if {"Eq": rel == 0, "Ne": rel != 0, "Lt": rel < 0, "Le": rel <= 0, "Gt": rel > 0, "Ge": rel >= 0}[op] else FALSE
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and a[0] == "y" and b[0] in ("i", "c") or \
            op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and b[0] == "y" and a[0] in ("i", "c"):
        flip = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}
        v, n, o = (a, b[1], op) if a[0] == "y" else (b, a[1], flip.get(op, op))
        big = 1 << 70
        sub = {"Eq": ((n, n),), "Ne": ((-big, n - 1), (n + 1, big)), "Lt": ((-big, n - 1),), "Le": ((-big, n),),
               "Gt": ((n + 1, big),), "Ge": ((n, big),)}[o]
        return ("b", split(eng, st, v, sub))
    return _sym_binop(self, eng, st, op, a, b, checked, tid)


Models.sym_binop = sym_binop


def move(st, S, m, n):
    while n > 0:
        if not unit_is_one(st, S, m):
            return None
        m = st.facts[("nx", S, m)]
        n -= 1
    while n < 0:
        f = st.facts.get(("seg", S, m))
        if f is None or f[2] != 1 or not unit_is_one(st, S, f[0]):
            return None
        m = f[0]
        n += 1
    return m


def compare(eng, st, S, x, y):
    """-1, 0, 1 ordering of two positions; forks when a segment between them may be empty."""
    if resolve(st, S, x) == resolve(st, S, y):
        return 0
    for lo, hi, sg in ((x, y, -1), (y, x, 1)):
        w = walk(st, S, lo, hi)
        if w is None:
            continue
        if not w:
            return 0
        if any(n == 1 for _, _, n in w):
            return sg
        # only segments of unknown length: empty or not
        m = resolve(st, S, hi)
        while True:
            f = st.facts.get(("seg", S, m))
            if f is None:
                return None
            if f[2] is None and st.facts.get(("poseq", S, m)) is None:
                k = eng.ask(st, ("posne", S, m), (1, 0))
                if k:
                    return sg
                st.facts[("poseq", S, m)] = f[0]
            m = f[0]
            if m == resolve(st, S, lo):
                return 0
    return None


# ---------------------------------------------------------------- widening
def merge(eng, st):
    """Forget positions nothing refers to: their units are summarised by a class."""
    refs = set()

    def scan(v):
        if type(v) is tuple:
            if v and v[0] == "pos":
                refs.add((v[1], v[2]))
            elif v and v[0] == "img":
                refs.add((v[1], v[2]))
                refs.add((v[1], v[3]))
            elif v and v[0] == "sub":
                refs.add((v[1], v[2]))
                refs.add((v[1], v[3]))
            elif v and v[0] == "sc":
                refs.add((v[2], v[3]))
            for x in v:
                if type(x) is tuple:
                    scan(x)

    strs = set(k[1] for k in st.facts if k[0] == "seg")
    if not strs:
        return
    for v in st.heap.values():
        scan(v)
    for k, v in list(st.facts.items()):
        if k[0] == "end":
            refs.add((k[1], v))
    for S in strs:
        heads = [m for (s, m) in refs if s == S]
        keep = {}
        done = set()
        for h in heads:
            m = h
            # the suffix that must stay exact: from the last known unit on (byte scans only)
            steps = []
            while True:
                f = st.facts.get(("seg", S, m))
                if f is None:
                    break
                steps.append((m, f))
                if (S, f[0]) in refs or f[0] == "0":
                    break
                m = f[0]
            if not steps:
                continue
            cut = 0
            for i, (mm, f) in enumerate(steps):
                if f[2] == 1 and f[1][1][0] == "bat":
                    r = st.facts.get(("cv", f[1][1]))
                    if r and single(r) is not None and i < 24:
                        cut = i + 1
                        break
            for mm, f in steps[:cut]:
                keep[mm] = f
            rest = steps[cut:]
            if rest:
                c = ()
                for mm, f in rest:
                    if not (f[2] is None and st.facts.get(("poseq", S, mm)) == f[0]):
                        c = r_union(c, step_class(st, S, f[1], 0))
                top = rest[0][0]
                keep[top] = (rest[-1][1][0], ("cls", c), None) if not (len(rest) == 1 and rest[0][1][2] is None) else rest[0][1]
        nxkeep = set(keep)
        for k in list(st.facts):
            if len(k) > 1 and k[1] == S:
                if k[0] == "seg":
                    if k[2] in keep:
                        st.facts[k] = keep[k[2]]
                    else:
                        del st.facts[k]
                elif k[0] == "nx":
                    n = st.facts[k]
                    f = keep.get(n)
                    if f is None or f[2] != 1:
                        del st.facts[k]
                elif k[0] in ("poseq", "posne"):
                    del st.facts[k]
                elif k[0] == "last":
                    if ("nx", S, st.facts[k]) not in st.facts:
                        del st.facts[k]
        # symbols of forgotten units
    for k in list(st.facts):
        if k[0] == "last" and ("nx", k[1], st.facts[k]) not in st.facts:
            del st.facts[k]


def join_fact(kind, a, b):
    if kind == "imgp":
        mm = join_map(a[1], b[1])
        if mm is None:
            return None
        return (r_union(a[0], b[0]), mm)
    if kind == "seg":
        if a[0] != b[0] or a[2] is not None or b[2] is not None:
            return None
        return (a[0], ("cls", r_union(a[1][1], b[1][1])), None)
    return None


def _choose(self, eng, st, v, vals):
    return choose_const(eng, st, v, vals)


Models.choose = _choose
Models.merge = lambda self, eng, st: merge(eng, st)
Models.join_fact = lambda self, k, a, b: join_fact(k, a, b)


def forget(st, S):
    """Drop what is known about positions in S (nothing refers to them any more)."""
    for k in list(st.facts):
        if k[0] in ("seg", "nx", "end", "whole", "last", "poseq", "posne") and k[1] == S:
            del st.facts[k]
        elif k[0] == "streq" and S in k[1:] or k[0] == "has" and k[1] == S:
            del st.facts[k]
        elif k[0] == "cv" and type(k[1]) is tuple and k[1] and k[1][0] in ("cat", "bat") and k[1][1] == S:
            del st.facts[k]
