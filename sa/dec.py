"""Character references: what a text denotes, and the conversions used to find out.

A decoded text is an image (`strdom`) of the source: runs of source text copied, and references
replaced.  `check_accepted` and `check_rejected` compare what the code made of a source text with what
the XML rules say it denotes, from the facts established on the path.
"""
from engine import Dead, NeedFork, Unknown, NONE, UNIT, err, ok, some
from models import Models, as_seq, const_text, lit, model, pattern, text_of
import models as M
import strdom
from strdom import BYTES, r_inter, r_minus, r_has, single, split, step_class

XMLCHARS = ((0x9, 0xA), (0xD, 0xD), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF))
DEC = ((48, 57),)
HEX = ((48, 57), (65, 70), (97, 102))
NAMED = {b"amp": "&", b"lt": "<", b"gt": ">", b"quot": '"', b"apos": "'"}
# the longest reference that is not padded with zeros: &#1114111; and &#x10FFFF;
LONGEST = 8


# ---------------------------------------------------------------- conversions
def byte_values(eng, st, v):
    s = as_seq(eng, st, v)
    if s[0] == "arr":
        return s[1]
    if s[0] == "V" and s[1] is None:
        return s[3]
    raise Unknown("bytes %s" % s[0])


@pattern(r"^(std|core)::str::(converts::)?from_utf8$|^(std|core)::str::<impl str>::from_utf8$")
def m_from_utf8(eng, st, a, fn, dest, target):
    bs = byte_values(eng, st, a[0])
    plain = True
    for b in bs:
        if b[0] == "i":
            plain = plain and b[1] < 128
        if b[0] != "i" and plain and not split(eng, st, b, ((0, 127),)):
            plain = False
    if not plain:
        if eng.ask(st, ("nd", st.fresh()), (0, 1)):
            return err(("y", ("opaque", "utf8"), 0))
    if all(b[0] == "i" for b in bs) and plain:
        return ok(("str", lit(bytes(b[1] for b in bs).decode())))
    return ok(("str", (("bs", tuple(bs)),)))


@pattern(r"^std::string::String::from_utf8_lossy$")
def m_lossy(eng, st, a, fn, dest, target):
    return ("A", 1, (("S", (("y", ("opaque", "lossy")),)),))


@pattern(r"^std::string::String::capacity$")
def m_capacity(eng, st, a, fn, dest, target):
    if eng.ask(st, ("nd", st.fresh()), (0, 1)):
        return ("i", 0)
    return ("i", 64)


def bytes_of_text(p):
    """The byte values of a text made of constants and byte runs, or None."""
    out = []
    for x in p:
        if x[0] == "k":
            out += [("i", b) for b in x[1].encode()]
        elif x[0] == "bs":
            out += list(x[1])
        else:
            return None
    return out


def is_in(eng, st, b, rng):
    if b[0] == "i":
        return 1 if r_has(rng, b[1]) else 0
    return split(eng, st, b, rng)


@pattern(r"(std|core)::str::<impl str>::(starts_with|ends_with|strip_prefix)$")
def m_starts(eng, st, a, fn, dest, target):
    p = text_of(eng, st, a[0])
    bs = bytes_of_text(p)
    sub = strdom.pattern_set(eng, st, a[1], fn)
    op = fn.df.rsplit("::", 1)[1]
    if bs is None:
        raise Unknown("%s of a symbolic text" % op)
    if sub is None:
        v = eng.deref_all(st, a[1])
        k = const_text(v[1]) if v[0] == "str" else None
        if k is None:
            if v[0] == "fn" and fn.body:
                raise Unknown("search predicate")
            raise Unknown("search pattern")
        want = [((b, b),) for b in k.encode()]
    else:
        want = [r_inter(sub, ((0, 127),))]
    if len(bs) < len(want):
        return NONE if op == "strip_prefix" else ("b", 0)
    seq = bs[:len(want)] if op != "ends_with" else bs[len(bs) - len(want):]
    for b, w in zip(seq, want):
        if not is_in(eng, st, b, w):
            return NONE if op == "strip_prefix" else ("b", 0)
    if op == "strip_prefix":
        return some(("str", (("bs", tuple(bs[len(want):])),) if len(bs) > len(want) else ()))
    return ("b", 1)


@pattern(r"^(std|core)::num::<impl (u32|u64|usize|u16|u8|i32|i64)>::from_str_radix$|^(std|core)::num::<impl std::str::FromStr for (u32|u64|usize|u16|u8|i32|i64)>::from_str$|^<(u32|u64|usize|u16|u8|i32|i64) as std::str::FromStr>::from_str$")
def m_from_radix(eng, st, a, fn, dest, target):
    p = text_of(eng, st, a[0])
    bs = bytes_of_text(p)
    if bs is None:
        raise Unknown("number from a symbolic text")
    radix = 10
    if fn.df.endswith("from_str_radix"):
        if a[1][0] != "i":
            raise Unknown("radix")
        radix = a[1][1]
    t = eng.ty(fn.ret)
    tid = t["args"][0]
    bits = eng.ty(tid).get("bits") or 64
    bad = err(("y", ("opaque", "parse int"), 0))
    if radix not in (10, 16):
        raise Unknown("radix %d" % radix)
    digits = DEC if radix == 10 else HEX
    i = 0
    if bs and is_in(eng, st, bs[0], ((43, 43),)):
        i = 1
    if i >= len(bs):
        return bad
    for b in bs[i:]:
        if not is_in(eng, st, b, digits):
            return bad
    ds = tuple(bs[i:])
    if all(b[0] == "i" for b in ds):
        n = int(bytes(b[1] for b in ds).decode(), radix)
        return ok(("i", n)) if n < 1 << bits else bad
    sym = ("u", "charref", (radix, ds))
    top = radix ** len(ds)
    if ("cv", sym) not in st.facts:
        st.facts[("cv", sym)] = ((0, top - 1),)
    if top > 1 << bits and not split(eng, st, ("y", sym, tid), ((0, (1 << bits) - 1),)):
        return bad
    return ok(("y", sym, tid))


@pattern(r"^(std|core)::char::(convert::)?from_u32$|^(std|core)::char::methods::<impl char>::from_u32$|^char::from_u32$|^(std|core)::char::<impl char>::from_u32$")
def m_from_u32(eng, st, a, fn, dest, target):
    v = a[0]
    if v[0] == "i":
        return some(("c", v[1])) if r_has(strdom.CHARS, v[1]) else NONE
    if v[0] != "y":
        raise Unknown("char from %s" % v[0])
    if not split(eng, st, v, strdom.CHARS):
        return NONE
    return some(("y", v[1], strdom.find_tid(eng, "char")))


@pattern(r"^<char as std::convert::TryFrom<u32>>::try_from$|^(std|core)::char::convert::<impl std::convert::TryFrom<u32> for char>::try_from$")
def m_char_try_from(eng, st, a, fn, dest, target):
    r = m_from_u32(eng, st, a, fn, dest, target)
    return ok(r[2][0]) if r[1] == 1 else err(("y", ("opaque", "char"), 0))


@pattern(r"^<std::vec::Vec<T, A> as std::iter::Extend<(&'?\w* ?)?T>>::extend$|^std::vec::Vec::<T, A>::extend_from_slice$")
def m_extend(eng, st, a, fn, dest, target):
    v = eng.deref_all(st, a[1])
    if v[0] == "it":
        raise Unknown("extend")
    es = byte_values(eng, st, v)
    s, put = M.own_seq(eng, st, a[0])
    put(s[3] + tuple(es))
    return UNIT


# ---------------------------------------------------------------- images with references
_ref_val = strdom.ref_val


def ref_piece(st, sym):
    """The piece for a character that a digit string denotes, with what the path knows of it."""
    return ("chr", sym)


def describe(st, x, S, steps):
    """Value recorded for a numeric reference: its radix, where the digits start and end, its range."""
    sym = x[1]
    radix, ds = sym[2]
    units = [how[1] for _, how, n in steps]
    for off in range(len(units)):
        if len(units) - 1 - off == len(ds) and all(d[0] == "y" and d[1] == u or d[0] == "i" and single(step_class(st, S, ("sym", u), 0)) == d[1]
                                                   for d, u in zip(ds, units[off:-1])):
            return ("chr", radix, off, st.facts.get(("cv", sym)))
    return None


def append(self, eng, st, p, q):
    out = p
    for x in q:
        if x[0] == "ch" and x[1][0] == "y" and type(x[1][1]) is tuple and x[1][1][:2] == ("u", "charref"):
            r = absorb_ref(st, out, x[1])
            if r is None:
                out = out + (x,)
            else:
                out = r
        else:
            out = _append(self, eng, st, out, (x,))
    return out


_append = strdom.append
Models.append = append


def absorb_ref(st, p, v):
    """Extend the image at the end of `p` by the reference just read, replaced by the character `v`."""
    if p and p[-1][0] == "img":
        S, a, b, i = p[-1][1:]
        m = st.facts.get(("last", S))
        head = p[:-1]
        same, mp = st.facts[("imgp", i)]
    elif not p:
        for key in list(st.facts):
            if key[0] == "last":
                S, m = key[1], st.facts[key]
                a = b = "0"
                head, same, mp = (), (), ()
                break
        else:
            return None
    else:
        return None
    nx = st.facts.get(("nx", S, m)) if m is not None else None
    if nx is None:
        return None
    w = strdom.walk(st, S, b, nx)
    if not w or any(n != 1 for _, _, n in w):
        return None
    d = describe(st, ("chr", v[1]), S, w)
    if d is None:
        return None
    src = [single(step_class(st, S, how, 0)) for _, how, _ in w]
    key = ("ref",) + tuple(src[:d[2]]) + (src[-1], d)
    if wrong(key, 1) is None:
        key = ("ref",)          # a reference replaced by what it stands for
    mm = strdom.join_map(mp, ((key, 1),))
    if mm is None:
        return None
    j = st.fresh()
    st.facts[("imgp", j)] = (same, mm)
    return head + (("img", S, a, nx, j),)


_merge = Models.merge


def merge(self, eng, st):
    """Of the bytes before the last reference only whether they may contain an ampersand is kept."""
    _merge(self, eng, st)
    for k, v in st.facts.items():
        if k[0] == "seg" and v[2] is None and v[1][0] == "cls" and v[1][1][-1][1] <= 255 and type(k[1][0]) is tuple \
                and k[1][0][0] == "y" and k[1][0][1][0] == "t":
            st.facts[k] = (v[0], ("cls", BYTES if r_has(v[1][1], 38) else r_minus(BYTES, ((38, 38),))), None)


Models.merge = merge


# ---------------------------------------------------------------- what the rules say
def may_contain(st, S, ch):
    w = st.facts.get(("whole", S))
    if w is not None:
        return r_has(w, ch)
    for k, v in st.facts.items():
        if k[0] == "has" and k[1] == S and v == 0 and r_has(k[2], ch):
            return False
    return True


def check_accepted(eng, st, S, p):
    """`p` is handed out for the source text S."""
    if p == S or p == ():
        if st.facts.get(("streq", (), S)) == 1:
            return
        if p == () and S:
            eng.violate(st, "C11", "a text is dropped", "a text is handed out as the empty string")
            return
        if may_contain(st, S, 38):
            eng.violate(st, "C11", "a reference is left in place", "a text that may contain a reference is handed out unchanged")
        return
    if len(p) != 1 or p[0][0] != "img" or p[0][1] != S:
        eng.violate(st, "C11", "decoded text is not the text with its references replaced",
                    "what is handed out is not the text with its references replaced: %s" % M_show(p))
        return
    a, b, i = p[0][2:]
    if not strdom.same_pos(st, S, "0", a) or strdom.resolve(st, S, b) != strdom.resolve(st, S, "end"):
        eng.violate(st, "C11", "decoded text is cut", "part of the text is missing in what is handed out")
        return
    same, mp = st.facts[("imgp", i)]
    if r_has(same, 38):
        eng.violate(st, "C11", "a reference is left in place", "an ampersand of the source text is copied into the decoded text")
    for src, val in mp:
        bad = wrong(src, val)
        if bad:
            eng.violate(st, "C11", bad[0], bad[1])


def M_show(p):
    return " ".join(str(x)[:60] for x in p)[:300]


def wrong(src, val):
    """(key, message) if replacing the source text `src` by `val` is not what the rules say."""
    if src == ("ref",):
        return None
    if src and src[0] == "ref":
        ints = src[1:-1]
        _, radix, off, rng = src[-1]
        pre = bytes(x for x in ints[:-1] if x is not None)
        if None in ints or ints[-1] != 59:
            return ("a numeric reference of another shape", "a character is taken from digits that are not those of a complete reference")
        if (radix, pre) not in ((10, b"&#"), (16, b"&#x"), (16, b"&#X")):
            return ("numeric reference: radix %d after %s" % (radix, pre.decode("latin1")),
                    "the digits after %r are read as a number of base %d" % (pre.decode("latin1"), radix))
        left = r_minus(rng or strdom.CHARS, XMLCHARS)
        if left:
            return ("a reference to a character not allowed in XML", "a reference to a character not allowed in XML is accepted: code points %s" % ", ".join("%X-%X" % x for x in left))
        return None
    if isinstance(val, str) and all(isinstance(u, int) for u in src):
        if not src or src[0] != 38:
            return ("text replaced", "%r of the source text is replaced by %r" % (bytes(src), val))
        bs = bytes(src)
        if bs[-1:] != b";":
            return ("an unterminated reference", "the unterminated reference %r is replaced by %r" % (bs.decode("latin1"), val))
        if NAMED.get(bs[1:-1]) == val:
            return None
        n = bs[1:-1]
        if n[:1] == b"#":
            try:
                c = int(n[2:], 16) if n[1:2] in b"xX" else int(n[1:])
                if val == chr(c) and r_has(XMLCHARS, c):
                    return None
            except (ValueError, OverflowError):
                pass
        return ("reference %s" % bs.decode("latin1"), "the reference %r is replaced by %r" % (bs.decode("latin1"), val))
    return ("text replaced", "part of the text is replaced by something else")


def suffix(st, S):
    """The classes of the source bytes read since the last ampersand: (classes, number symbol digits...) or None."""
    m = st.facts.get(("last", S))
    cur = st.facts.get(("nx", S, m)) if m is not None else None
    if cur is None:
        cur = st.facts.get(("end", S))
    if cur is None:
        return None
    out = []
    while cur != "0":
        f = st.facts.get(("seg", S, cur))
        if f is None or f[2] != 1:
            return None
        c = step_class(st, S, f[1], 0)
        out.append((c, f[1][1]))
        if single(c) == 38:
            return out[::-1]
        cur = f[0]
        if len(out) > 40:
            return None
    return None


def reference_positions(st, S):
    """The positions of the reference being read at the end of the known part of S: what an error is judged by.

    They stay alive until the verdict, whatever the code under analysis has forgotten."""
    m = st.facts.get(("last", S))
    cur = st.facts.get(("nx", S, m)) if m is not None else None
    if cur is None:
        cur = st.facts.get(("end", S))
    if cur is None:
        return ()
    out = [m]
    n = 0
    while cur != "0":
        f = st.facts.get(("seg", S, cur))
        if f is None or f[2] != 1:
            return ()
        out.append(cur)
        c = single(step_class(st, S, f[1], 0))
        if c == 38:
            return tuple(out)
        if c == 59 and n:
            return ()
        cur = f[0]
        n += 1
        if n > 12:
            return ()
    return ()


def check_rejected(eng, st, S):
    """An error is reported for the source text S: does every text of this path deserve it?"""
    if not may_contain(st, S, 38):
        eng.violate(st, "C11", "a text without references is rejected", "a text without references is rejected")
        return
    s = suffix(st, S)
    if s is None:
        raise Unknown("where the text was rejected")
    body = s[1:]
    ended = st.facts.get(("end", S)) is not None and ("last", S) in st.facts and st.facts.get(("nx", S, st.facts[("last", S)])) == st.facts[("end", S)]
    if body and single(body[-1][0]) == 59 and not ended:
        ref = body[:-1]
        good = may_be_reference(st, S, ref)
        if good:
            eng.violate(st, "C11", "rejected: %s" % good, "a text is rejected for %s" % good)
        return
    if ended:
        return          # input ends inside the reference
    # given up before the end of the reference
    ref = body
    n = len(ref)
    if n <= LONGEST:
        for k in NAMED:
            if len(k) >= n and all(r_has(c, k[i]) for i, (c, _) in enumerate(ref)):
                eng.violate(st, "C11", "rejected: &%s;" % k.decode(), "the reference &%s; is rejected after %d characters" % (k.decode(), n))
                return
    for pre, digits, name in ((b"#", DEC, "decimal"), (b"#x", HEX, "hexadecimal")):
        if all(r_has(c, pre[i]) if i < len(pre) else bool(r_inter(c, digits)) for i, (c, _) in enumerate(ref)):
            if n <= LONGEST:
                eng.violate(st, "C11", "rejected: a %s reference" % name, "a %s reference is rejected after %d characters" % (name, n))
            else:
                eng.violate(st, "C11", "rejected: a numeric reference padded with zeros beyond %d characters" % LONGEST,
                            "a numeric reference padded with zeros beyond %d characters is rejected" % LONGEST)
            return


def may_be_reference(st, S, ref):
    n = len(ref)
    for k in NAMED:
        if len(k) == n and all(r_has(c, k[i]) for i, (c, _) in enumerate(ref)):
            return "&%s;" % k.decode()
    for pre, digits, radix, name in ((b"#", DEC, 10, "decimal"), (b"#x", HEX, 16, "hexadecimal")):
        if n <= len(pre):
            continue
        if all(r_has(c, pre[i]) if i < len(pre) else bool(r_inter(c, digits)) for i, (c, _) in enumerate(ref)):
            rng = number_range(st, S, radix, ref[len(pre):])
            if r_inter(rng, XMLCHARS):
                return "a %s reference to an allowed character" % name
    return None


def number_range(st, S, radix, ds):
    """Values the digits can have on this path."""
    lo = hi = 0
    for c, _ in ds:
        vals = [int(chr(x), radix) for r in r_inter(c, DEC if radix == 10 else HEX) for x in range(r[0], r[1] + 1)]
        lo = lo * radix + min(vals)
        hi = hi * radix + max(vals)
    rng = ((lo, hi),)
    for k, v in st.facts.items():
        if k[0] == "cv" and type(k[1]) is tuple and k[1][:2] == ("u", "charref"):
            r, syms = k[1][2]
            if r == radix and len(syms) == len(ds) and all(
                    d[0] == "y" and d[1] == u or d[0] == "i" and single(c) == d[1] for d, (c, u) in zip(syms, ds)):
                rng = r_inter(rng, v)
    return rng
