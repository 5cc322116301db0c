"""Models of the standard library operations the analysed code uses."""
import re

from engine import (NOSTEP, NONE, TRUE, FALSE, UNIT, Dead, NeedFork, Unknown, err, ok, some)

TABLE = {}
PATTERNS = []


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def pattern(rx):
    def deco(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return deco


# ---------------------------------------------------------------- text
def cat(*ps):
    out = []
    for p in ps:
        for x in p:
            if x[0] == "k":
                if not x[1]:
                    continue
                if out and out[-1][0] == "k":
                    out[-1] = ("k", out[-1][1] + x[1])
                    continue
            out.append(x)
    return tuple(out)


def lit(s):
    return (("k", s),) if s else ()


def const_text(p):
    """The text when it is a compile-time constant, else None."""
    if not p:
        return ""
    if len(p) == 1 and p[0][0] == "k":
        return p[0][1]
    return None


def text_of(eng, st, v):
    """Pieces of a string-like value (following references and Cow)."""
    v = eng.deref_all(st, v)
    t = v[0]
    if t in ("str", "S"):
        return v[1]
    if t == "A" and len(v[2]) == 1:
        return text_of(eng, st, v[2][0])
    if t == "y":
        ty = eng.ty(v[2])
        if ty["k"] == "str" or (ty["k"] == "adt" and ty["name"].endswith("borrow::Cow")):
            return (("y", v[1]),)
    if t == "bytes":
        return v[1]
    raise Unknown("text of %s" % (t,))


def text_syms(p):
    for x in p:
        if x[0] == "y":
            yield x[1]


def str_eq(eng, st, a, b):
    if a == b:
        return 1
    ka, kb = const_text(a), const_text(b)
    if ka is not None and kb is not None:
        return 0
    h = eng.models.text_eq
    if h:
        r = h(eng, st, a, b)
        if r is not None:
            return r
    # a symbol already known equal to a constant
    def known(p):
        if len(p) == 1 and p[0][0] == "y":
            for k, v in st.facts.items():
                if k[0] == "streq" and v == 1:
                    if k[1] == p and const_text(k[2]) is not None:
                        return k[2]
                    if k[2] == p and const_text(k[1]) is not None:
                        return k[1]
        return None
    na = a if ka is not None else known(a)
    nb = b if kb is not None else known(b)
    if na is not None and nb is not None:
        return 1 if na == nb else 0
    # one symbol equal to the other's known value, through a third
    x, y = (a, b) if repr(a) <= repr(b) else (b, a)
    return eng.ask(st, ("streq", x, y), (1, 0))


# ---------------------------------------------------------------- sequences
def as_seq(eng, st, v):
    """Sequence value behind a (reference to a) Vec, slice or array."""
    v = eng.deref_all(st, v)
    t = v[0]
    if t in ("arr", "V", "slv"):
        return v
    if t == "y":
        ty = eng.ty(v[2])
        if ty["k"] == "slice":
            return ("V", v[1], ty["of"], ())
        if ty["k"] == "array":
            n = ty.get("len")
            if n is not None and int(n) <= 64:
                return ("arr", tuple(eng.sym_value(st, ("e", v[1], ("i", i)), ty["of"]) for i in range(int(n))))
            return ("V", v[1], ty["of"], ())
        if ty["k"] == "adt" and ty["name"].endswith("borrow::Cow"):
            of = eng.ty(ty["args"][-1])
            if of["k"] == "slice":
                return ("V", v[1], of["of"], ())
    if t == "A" and len(v[2]) == 1:
        return as_seq(eng, st, v[2][0])
    if t in ("str", "S"):
        return ("bytes", v[1])
    raise Unknown("sequence %s" % (t,))


class Models:
    hooks = {}
    sym_adt = {}
    agg_adt = {}
    check_fact = None
    text_eq = None

    def __init__(self, sinks=()):
        self.sinks = sinks
        self.hooks = dict(HOOKS)
        self.sym_adt = dict(SYM_ADT)
        self.agg_adt = {}
        self.extra = {}

    def lookup(self, fn):
        m = self.extra.get(fn.df)
        if m:
            return m
        m = TABLE.get(fn.df)
        if m:
            return m
        for rx, f in PATTERNS:
            if rx.search(fn.df):
                return f
        if fn.crate == "chrono":
            return m_chrono
        return None

    def variant(self, eng, st, v):
        if v[0] == "entry":
            return v[1]
        if v[0] == "i":
            return v[1]
        if v[0] == "b":
            return v[1]
        return None

    def elem(self, eng, st, v, ix):
        s = as_seq(eng, st, v)
        if s[0] == "arr":
            if ix[0] != "i":
                raise Unknown("symbolic index")
            if not 0 <= ix[1] < len(s[1]):
                raise Unknown("index out of range")
            return s[1][ix[1]]
        if s[0] == "V":
            if ix[0] == "ys":       # element named by symbol
                return eng.sym_value(st, ix[1], s[2])
            if ix[0] == "app":
                return s[3][ix[1]]
            if s[1] is None and ix[0] == "i" and 0 <= ix[1] < len(s[3]):
                return s[3][ix[1]]
            if ix[0] == "i" and s[1] is not None:
                st.taint = st.taint or "list element by index"
                return eng.sym_value(st, ("e", s[1], st.fresh()), s[2])
            raise Unknown("vec index")
        if s[0] == "bytes":
            return eng.models.byte_at(eng, st, s, ix)
        if s[0] == "slv":
            return eng.models.slv_elem(eng, st, s, ix)
        raise Unknown("elem")

    def byte_at(self, eng, st, s, ix):
        raise Unknown("byte index")

    def slv_elem(self, eng, st, s, ix):
        base = eng.read(st, s[1], s[2])
        if ix[0] != "i":
            raise Unknown("symbolic index")
        return self.elem(eng, st, base, ("i", ix[1] + s[3]))

    def set_elem(self, eng, st, v, ix, path, k, new):
        s = as_seq(eng, st, v)
        if s[0] == "arr":
            if ix[0] != "i" or not 0 <= ix[1] < len(s[1]):
                raise Unknown("symbolic index write")
            es = list(s[1])
            es[ix[1]] = eng.rebuild(st, es[ix[1]], path, k + 1, new)
            return ("arr", tuple(es))
        if s[0] == "V":
            if ix[0] == "i" and s[1] is None:
                ix = ("app", ix[1])
            if ix[0] == "app":
                es = list(s[3])
                es[ix[1]] = eng.rebuild(st, es[ix[1]], path, k + 1, new)
                return ("V", s[1], s[2], tuple(es))
        raise Unknown("element write")

    def known_len(self, eng, st, v):
        n = self.length(eng, st, v)
        if n[0] != "i":
            raise Unknown("unknown length")
        return n[1]

    def length(self, eng, st, v):
        s = as_seq(eng, st, v)
        if s[0] == "arr":
            return ("i", len(s[1]))
        if s[0] == "V":
            if s[1] is None:
                return ("i", len(s[3]))
            if st.facts.get(("vempty", s[1])) == 1:
                return ("i", len(s[3]))
            return ("len", s[1], len(s[3]))
        if s[0] == "slv":
            return ("i", s[4])
        if s[0] == "bytes":
            k = const_text(s[1])
            if k is not None:
                return ("i", len(k.encode()))
            return ("blen", s[1])
        raise Unknown("length")

    def subslice(self, eng, st, v, a, b, fromend):
        s = as_seq(eng, st, v)
        n = self.known_len(eng, st, s)
        hi = n - b if fromend else b
        if s[0] == "arr":
            return ("arr", s[1][a:hi])
        if s[0] == "V" and s[1] is None:
            return ("arr", s[3][a:hi])
        if s[0] == "slv":
            base = as_seq(eng, st, eng.read(st, s[1], s[2]))
            if base[0] == "arr":
                return ("arr", base[1][s[3] + a:s[3] + hi])
        raise Unknown("subslice")

    def rawptr(self, eng, st, ops):
        return ops[0]

    def cast(self, eng, st, kind, v, tid, src):
        t = eng.ty(tid)
        k = kind if isinstance(kind, str) else kind[0]
        if v[0] in ("i", "c", "b") and t["k"] in ("int", "uint", "char"):
            n = v[1]
            if t["k"] == "char":
                return ("c", n)
            bits = t.get("bits") or 64
            n &= (1 << bits) - 1
            if t["k"] == "int" and n >> (bits - 1):
                n -= 1 << bits
            return ("i", n)
        if t["k"] in ("int", "uint", "char", "float") and v[0] == "y":
            return ("cast", t["d"], v)
        if v[0] == "A" and t["k"] in ("int", "uint"):
            vs = eng.ty(src).get("variants")
            return ("i", int(vs[v[1]]["discr"]))
        return v

    def binop(self, eng, st, op, a, b, checked, tid):
        op0 = op.replace("Unchecked", "").replace("WithOverflow", "")
        if a[0] in ("i", "c", "b") and b[0] in ("i", "c", "b"):
            x, y = a[1], b[1]
            if op0 in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op0]
                return TRUE if r else FALSE
            if a[0] == "b":
                r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}.get(op0)
                if r is None:
                    raise Unknown("binop %s" % op)
                return ("b", r)
            if op0 == "Cmp":
                return ("A", 0 if x < y else 1 if x == y else 2, ())
            t = eng.ty(tid)
            bits = t.get("bits") or 64
            signed = t["k"] == "int"
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y,
                     "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << (y % bits), "Shr": lambda: x >> (y % bits),
                     "Div": lambda: x // y, "Rem": lambda: x % y}[op0]()
            except (KeyError, ZeroDivisionError):
                raise Unknown("binop %s" % op)
            w = r & ((1 << bits) - 1)
            if signed and w >> (bits - 1):
                w -= 1 << bits
            if checked:
                return ("A", 0, (("i", w), ("b", 0 if w == r else 1)))
            return ("i", w)
        return self.sym_binop(eng, st, op0, a, b, checked, tid)

    def sym_binop(self, eng, st, op, a, b, checked, tid):
        if a[0] == "undef" or b[0] == "undef":
            return ("undef",)
        if a[0] == "any" or b[0] == "any":
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                st.taint = st.taint or "comparison of a counter"
                r = ("b", eng.ask(st, ("nd", ("counter", st.nsym)), (0, 1)))
                st.nsym += 1
                return r
            if (eng.ty(tid).get("bits") or 64) < 64:
                st.taint = st.taint or "arithmetic on a counter"
            return ("A", 0, (("any",), ("b", 0))) if checked else ("any",)
        if op in ("BitAnd", "BitOr", "BitXor") and (a[0] == "b" or b[0] == "b" or eng.ty(tid)["k"] == "bool"):
            x, y = eng.as_bool(st, a), eng.as_bool(st, b)
            return ("b", {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if op in ("Eq", "Ne"):
                if a == b:
                    return TRUE if op == "Eq" else FALSE
                if eng.ty(tid)["k"] == "bool":
                    x, y = eng.as_bool(st, a), eng.as_bool(st, b)
                    return ("b", 1 if (x == y) == (op == "Eq") else 0)
                if b[0] in ("i", "c") and a[0] == "y":
                    n = eng.choose_const(st, a, [b[1]])
                    return ("b", 1 if (n is not None) == (op == "Eq") else 0)
                if a[0] in ("i", "c") and b[0] == "y":
                    n = eng.choose_const(st, b, [a[1]])
                    return ("b", 1 if (n is not None) == (op == "Eq") else 0)
            # length against zero
            z = None
            for p, q, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op))):
                if p[0] in ("len", "blen") and q[0] == "i":
                    z = (p, q[1], o)
            if z:
                p, n, o = z
                if p[0] == "len" and p[2] == 0 or p[0] == "blen":
                    e = None
                    if (n == 0 and o in ("Eq", "Le")) or (n == 1 and o == "Lt"):
                        e = 1
                    elif (n == 0 and o in ("Ne", "Gt")) or (n == 1 and o == "Ge"):
                        e = 0
                    if e is not None:
                        if p[0] == "len":
                            return ("b", 1 if eng.ask(st, ("vempty", p[1]), (1, 0)) == e else 0)
                        return ("b", 1 if str_eq(eng, st, p[1], ()) == e else 0)
            if a[0] != "y" or b[0] not in ("y", "i", "c"):
                st.taint = st.taint or "comparison of %s and %s" % (a[0], b[0])
            return ("b", eng.ask(st, ("cmp", op, a, b), (0, 1)))
        r = ("op", op, a, b)
        if checked:
            n = size_bits(r)
            if n is not None and n < 63:
                return ("A", 0, (r, ("b", 0)))
            return ("A", 0, (r, ("b", eng.ask(st, ("ovf", op, a, b), (0, 1)))))
        return r

    def switch_const(self, eng, st, v, vals, tid):
        if v[0] == "y":
            return eng.choose_const(st, v, vals)
        if v[0] in ("len", "op", "cast", "blen"):
            return eng.choose_const(st, ("y", v), vals)
        raise Unknown("switch on %s" % (v[0],))

    def callable(self, eng, st, f, args):
        """(fn id, args) for calling the callable `f` with already spread arguments."""
        if f[0] == "fn":
            return f[1], args
        raise Unknown("call of %s" % (f[0],))


def size_bits(v):
    """An upper bound of the bits a sum or product of lengths needs, None where it is unknown.

    A length is a `usize` that counts bytes or elements held in memory: below 2^48 on every machine."""
    if v[0] in ("len", "blen"):
        return 48
    if v[0] == "i":
        return max(1, v[1].bit_length()) if v[1] >= 0 else None
    if v[0] == "op" and v[1] in ("Add", "Mul"):
        a, b = size_bits(v[2]), size_bits(v[3])
        if a is None or b is None:
            return None
        return max(a, b) + 1 if v[1] == "Add" else a + b
    return None


HOOKS = {}
SYM_ADT = {}


def hook(name):
    def deco(f):
        HOOKS[name] = f
        return f
    return deco


def finish(eng, st, dest, target, v):
    """Complete a modelled call whose result became known after a hooked call returned."""
    eng.write(st, dest[0], dest[1], v)
    if target is None:
        raise Dead()
    fr = st.frames[-1]
    fr.bb, fr.si = target, 0


# ---------------------------------------------------------------- mem, ptr
@model("std::mem::replace", "core::mem::replace")
def m_replace(eng, st, a, fn, dest, target):
    old = eng.read(st, a[0][1], a[0][2])
    eng.write(st, a[0][1], a[0][2], a[1])
    return old


@model("std::mem::swap")
def m_swap(eng, st, a, fn, dest, target):
    x = eng.read(st, a[0][1], a[0][2])
    y = eng.read(st, a[1][1], a[1][2])
    eng.write(st, a[0][1], a[0][2], y)
    eng.write(st, a[1][1], a[1][2], x)
    return UNIT


@model("std::mem::drop", "std::mem::forget", "core::mem::drop")
def m_drop(eng, st, a, fn, dest, target):
    return UNIT


@model("std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new")
def m_box_new(eng, st, a, fn, dest, target):
    return ("ref", st.alloc(a[0]), ())


@pattern(r"^<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref$|^<std::boxed::Box<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$|^<std::boxed::Box<T, A> as std::borrow::Borrow(Mut)?<T>>::borrow(_mut)?$")
def m_box_ref(eng, st, a, fn, dest, target):
    v = eng.read(st, a[0][1], a[0][2])
    c, p = eng.deref(st, v)
    if c[0] == "=s":
        return c[1]
    return ("ref", c, p)


# ---------------------------------------------------------------- strings
@model("std::string::String::new", "std::string::String::with_capacity",
       "<std::string::String as std::default::Default>::default")
def m_string_new(eng, st, a, fn, dest, target):
    return ("S", ())


def mk_str(p):
    return ("str", p)


@model("<std::string::String as std::ops::Deref>::deref", "std::string::String::as_str", "<std::string::String as std::convert::AsRef<str>>::as_ref",
       "<std::string::String as std::borrow::Borrow<str>>::borrow",
       "<str as std::convert::AsRef<str>>::as_ref", "<str as std::borrow::Borrow<T>>::borrow", "std::string::String::into_boxed_str")
def m_as_str(eng, st, a, fn, dest, target):
    return ("str", text_of(eng, st, a[0]))


@model("<std::borrow::Cow<B> as std::ops::Deref>::deref", "<std::borrow::Cow<B> as std::convert::AsRef<T>>::as_ref",
       "<std::borrow::Cow<T> as std::convert::AsRef<T>>::as_ref")
def m_cow_deref(eng, st, a, fn, dest, target):
    v = eng.read(st, a[0][1], a[0][2])
    ty = eng.ty(fn.ret)
    of = eng.ty(ty["of"]) if ty["k"] == "ref" else None
    if of and of["k"] == "str":
        return ("str", text_of(eng, st, v))
    if v[0] == "y":
        return ("ref", ("=", v), ())
    if v[0] == "A":
        if v[1] == 0:
            return v[2][0]
        return ("ref", a[0][1], a[0][2] + (0,))
    raise Unknown("cow deref")


@model("std::string::String::push_str")
def m_push_str(eng, st, a, fn, dest, target):
    s = eng.read(st, a[0][1], a[0][2])
    if s[0] != "S":
        raise Unknown("push_str")
    eng.write(st, a[0][1], a[0][2], ("S", eng.models.append(eng, st, s[1], text_of(eng, st, a[1]))))
    return UNIT


def char_text(eng, st, v):
    if v[0] == "c":
        return lit(chr(v[1]))
    f = st.facts.get(("cv", v[1] if v[0] == "y" else v))
    if v[0] == "y" and type(v[1]) is tuple and v[1][:2] == ("u", "charref"):
        return (("ch", v),)
    if f and len(f) == 1 and f[0][0] == f[0][1]:
        return lit(chr(f[0][0]))
    return (("ch", v),)


@model("std::string::String::push")
def m_push(eng, st, a, fn, dest, target):
    s = eng.read(st, a[0][1], a[0][2])
    eng.write(st, a[0][1], a[0][2], ("S", eng.models.append(eng, st, s[1], char_text(eng, st, a[1]))))
    return UNIT


def _append(self, eng, st, p, q):
    return cat(p, q)


Models.append = _append


@model("std::string::String::reserve", "std::vec::Vec::<T, A>::reserve", "std::string::String::shrink_to_fit")
def m_reserve(eng, st, a, fn, dest, target):
    return UNIT


@model("std::str::<impl std::borrow::ToOwned for str>::to_owned", "<str as std::borrow::ToOwned>::to_owned", "<T as std::string::ToString>::to_string", "<str as alloc::string::SpecToString>::spec_to_string",
       "<std::string::String as std::clone::Clone>::clone", "<std::string::String as std::convert::From<&str>>::from",
       "alloc::str::<impl str>::to_owned", "<std::string::String as std::convert::From<&mut str>>::from",
       "<std::string::String as std::convert::From<std::borrow::Cow<str>>>::from",
       "std::str::<impl str>::to_string", "std::str::<impl str>::into_string", "std::borrow::Cow::<str>::into_owned")
def m_to_owned(eng, st, a, fn, dest, target):
    if fn.df == "<T as std::string::ToString>::to_string":
        return ("S", display(eng, st, a[0], eng.ty(fn.ins[0])["of"], None))
    return ("S", text_of(eng, st, a[0]))


@model("std::borrow::Cow::<B>::into_owned", "std::borrow::Cow::<B>::to_mut")
def m_cow_into_owned(eng, st, a, fn, dest, target):
    if fn.df.endswith("to_mut"):
        v = eng.read(st, a[0][1], a[0][2])
        if v[0] != "A" or v[1] != 1:
            eng.write(st, a[0][1], a[0][2], ("A", 1, (("S", text_of(eng, st, v)),)))
        return ("ref", a[0][1], a[0][2] + (0,))
    v = a[0]
    if v[0] == "A" and v[1] == 1:
        return v[2][0]
    try:
        return ("S", text_of(eng, st, v))
    except Unknown:
        return as_seq(eng, st, v)


@model("<std::borrow::Cow<str> as std::ops::AddAssign>::add_assign", "<std::borrow::Cow<str> as std::ops::AddAssign<&str>>::add_assign",
       "<std::string::String as std::ops::AddAssign<&str>>::add_assign", "<std::string::String as std::ops::AddAssign>::add_assign")
def m_cow_add_assign(eng, st, a, fn, dest, target):
    v = eng.read(st, a[0][1], a[0][2])
    p = ("S", cat(text_of(eng, st, v), text_of(eng, st, a[1])))
    eng.write(st, a[0][1], a[0][2], p if "string::String as" in fn.df else ("A", 1, (p,)))
    return UNIT


@model("std::str::<impl str>::len", "std::string::String::len")
def m_str_len(eng, st, a, fn, dest, target):
    return eng.models.str_len(eng, st, text_of(eng, st, a[0]))


def _str_len(self, eng, st, p):
    k = const_text(p)
    if k is not None:
        return ("i", len(k.encode()))
    return ("blen", p)


Models.str_len = _str_len


@model("std::str::<impl str>::is_empty", "std::string::String::is_empty")
def m_str_is_empty(eng, st, a, fn, dest, target):
    p = text_of(eng, st, a[0])
    return ("b", eng.models.is_empty(eng, st, p))


def _is_empty(self, eng, st, p):
    if any(x[0] == "k" and x[1] for x in p):
        return 0
    return str_eq(eng, st, p, ())


Models.is_empty = _is_empty


@pattern(r"^(<(&A|str|std::string::String|&'?\w* ?str|std::borrow::Cow<str>|std::borrow::Cow<B>) as std::cmp::PartialEq(<.*>)?>::(eq|ne)|std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::(eq|ne)|core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)|std::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)|<std::string::String as std::cmp::PartialEq<.*>>::(eq|ne)|std::string::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne))$")
def m_str_eq(eng, st, a, fn, dest, target):
    ne = fn.df.endswith("ne")
    x, y = eng.deref_all(st, a[0]), eng.deref_all(st, a[1])
    if x[0] in ("b", "i", "c") and y[0] in ("b", "i", "c"):
        return ("b", 1 if (x[1] == y[1]) != ne else 0)
    try:
        p, q = text_of(eng, st, x), text_of(eng, st, y)
    except Unknown:
        if fn.body:
            eng.push(st, fn, a, dest, target)
            return NOSTEP
        raise
    r = str_eq(eng, st, p, q)
    return ("b", (1 - r) if ne else r)


# ---------------------------------------------------------------- formatting
def decode_template(b):
    """Pieces of a compiled format template: text or (arg index, opts)."""
    out = []
    i = 0
    arg = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(bytes(b[i:i + x]).decode("utf8", "replace"))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(bytes(b[i:i + n]).decode("utf8", "replace"))
            i += n
        elif x & 0xC0 == 0xC0:
            opts = {}
            if x & 1:
                opts["flags"] = int.from_bytes(bytes(b[i:i + 4]), "little")
                i += 4
            if x & 2:
                opts["width"] = b[i] | b[i + 1] << 8
                i += 2
            if x & 4:
                opts["prec"] = b[i] | b[i + 1] << 8
                i += 2
            if x & 8:
                arg = b[i] | b[i + 1] << 8
                i += 2
            out.append((arg, tuple(sorted(opts.items()))))
            arg += 1
        else:
            raise Unknown("format template")
    return out


@pattern(r"^(core|std)::fmt::rt::Argument(::<.*>)?::new_(display|debug|lower_hex|upper_hex|from_usize)$")
def m_argument(eng, st, a, fn, dest, target):
    t = eng.ty(fn.ins[0])
    return ("farg", fn.df.rsplit("new_", 1)[1], a[0], t.get("of"))


def bytes_of(eng, st, v):
    v = eng.deref_all(st, v)
    if v[0] == "str":
        return None, const_text(v[1])
    s = as_seq(eng, st, v)
    if s[0] == "arr":
        return [x[1] for x in s[1]], None
    return None, None


@pattern(r"^(core|std)::fmt::(rt::<impl std::fmt::)?Arguments(<.*>|::<.*>)?>?::(new|new_const|new_v1|from_str|from_str_nonconst)(::<.*>)?$")
def m_arguments(eng, st, a, fn, dest, target):
    if "from_str" in fn.df:
        return ("fmt", (text_of(eng, st, a[0]),))
    b, s = bytes_of(eng, st, a[0])
    if b is None:
        raise Unknown("format arguments")
    tmpl = decode_template(b)
    args = as_seq(eng, st, a[1]) if len(a) > 1 else ("arr", ())
    if args[0] != "arr":
        raise Unknown("format args")
    out = []
    for x in tmpl:
        if isinstance(x, str):
            out.append(lit(x))
        else:
            out.append((args[1][x[0]], x[1]))
    return ("fmt", tuple(out))


def display(eng, st, v, tid, opts):
    """Text written by formatting a value with Display."""
    v0 = v
    v = eng.deref_all(st, v)
    t = eng.ty(tid) if tid is not None else None
    n = 0
    while t is not None and (t["k"] == "ref" or t.get("box") is not None):
        tid = t["of"] if t["k"] == "ref" else t["box"]
        t = eng.ty(tid)
    if v[0] in ("str", "S"):
        return v[1]
    if v[0] == "A" and t is not None and t["k"] == "adt" and t["name"].endswith("borrow::Cow"):
        return text_of(eng, st, v)
    if v[0] == "i":
        return lit(str(v[1]))
    if v[0] == "b":
        return lit("true" if v[1] else "false")
    if v[0] == "c":
        return lit(chr(v[1]))
    if v[0] == "fmt":
        return fmt_text(eng, st, v)
    if v[0] == "y" and t is not None:
        if t["k"] == "adt" and t["name"].endswith("borrow::Cow"):
            return text_of(eng, st, v)
        if t["k"] == "bool":
            return lit("true" if eng.as_bool(st, v) else "false")
        if t["k"] == "char":
            return char_text(eng, st, v)
        return (("disp", eng.p.tyname[tid], v[1], opts or ()),)
    if t is not None:
        return (("disp", eng.p.tyname[tid], v, opts or ()),)
    raise Unknown("display of %s" % (v[0],))


def fmt_text(eng, st, f):
    out = []
    for x in f[1]:
        if x and isinstance(x[0], tuple) and x[0] and x[0][0] == "farg":
            a, opts = x
            if a[1] == "display":
                out.append(display(eng, st, a[2], a[3], opts))
            else:
                out.append(((a[1], eng.p.tyname[a[3]] if a[3] is not None else "?", strip_ref(eng, st, a[2]), opts),))
        else:
            out.append(x)
    return cat(*out)


def strip_ref(eng, st, v):
    try:
        return eng.deref_all(st, v)
    except Unknown:
        return ("?",)


@model("std::fmt::format", "alloc::fmt::format", "std::fmt::format::format_inner")
def m_format(eng, st, a, fn, dest, target):
    return ("S", fmt_text(eng, st, a[0]))


@pattern(r"^<std::string::String as std::fmt::Write>::(write_str|write_char|write_fmt)$|^std::fmt::Write::write_fmt$")
def m_string_write(eng, st, a, fn, dest, target):
    if fn.df == "std::fmt::Write::write_fmt" and "String" not in fn.name.split(" as ")[0]:
        raise Unknown("write_fmt")
    s = eng.read(st, a[0][1], a[0][2])
    if fn.df.endswith("write_char"):
        t = char_text(eng, st, a[1])
    elif fn.df.endswith("write_fmt"):
        t = fmt_text(eng, st, a[1])
    else:
        t = text_of(eng, st, a[1])
    eng.write(st, a[0][1], a[0][2], ("S", eng.models.append(eng, st, s[1], t)))
    return ok()


# ---------------------------------------------------------------- slices, Vec, iteration
@pattern(r"^<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$|^std::vec::Vec::<T, A>::as_(mut_)?slice$|^<std::vec::Vec<T, A> as std::convert::AsRef<\[T\]>>::as_ref$|^<std::vec::Vec<T, A> as std::borrow::Borrow<\[T\]>>::borrow$")
def m_vec_slice(eng, st, a, fn, dest, target):
    return a[0]


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "<std::vec::Vec<T> as std::default::Default>::default")
def m_vec_new(eng, st, a, fn, dest, target):
    t = eng.ty(fn.ret)
    return ("V", None, t["args"][0], ())


@model("std::vec::Vec::<T, A>::len", "std::slice::<impl [T]>::len")
def m_len(eng, st, a, fn, dest, target):
    return eng.models.length(eng, st, a[0])


@model("std::vec::Vec::<T, A>::is_empty", "std::slice::<impl [T]>::is_empty")
def m_seq_is_empty(eng, st, a, fn, dest, target):
    s = as_seq(eng, st, a[0])
    n = eng.models.length(eng, st, s)
    if n[0] == "i":
        return ("b", 1 if n[1] == 0 else 0)
    if n[0] == "len":
        if n[2]:
            return FALSE
        return ("b", eng.ask(st, ("vempty", n[1]), (1, 0)))
    if n[0] == "blen":
        return ("b", str_eq(eng, st, n[1], ()))
    raise Unknown("is_empty")


@pattern(r"(std|core)::slice::<impl \[T\]>::iter(_mut)?$|^<&(mut )?(std::vec::Vec<T, A>|\[T\]|\[T; N\]) as std::iter::IntoIterator>::into_iter$|<impl std::iter::IntoIterator for &(mut )?(\[T\]|\[T; N\]|std::vec::Vec<T, A>)>::into_iter$")
def m_slice_iter(eng, st, a, fn, dest, target):
    v = a[0]
    n = 0
    while v[0] == "ref":
        t = eng.read(st, v[1], v[2])
        if t[0] != "ref":
            break
        v = t
    if v[0] == "ref":
        t = eng.read(st, v[1], v[2])
        if t[0] == "bytes":
            k = const_text(t[1])
            if k is None:
                return ("sc", "biter", t[1], "0")
            return ("it", "ref", ("ref", ("=", ("arr", tuple(("i", b) for b in k.encode()))), ()), 0)
    return ("it", "ref", v, 0)


@pattern(r"^<std::slice::Iter(Mut)?<T> as std::iter::Iterator>::next$|^<std::vec::IntoIter<T, A> as std::iter::Iterator>::next$|^<std::array::IntoIter<T, N> as std::iter::Iterator>::next$|^<std::collections::vec_deque::Iter(Mut)?<T> as std::iter::Iterator>::next$|^<std::collections::(hash|btree)_map::(Iter|IterMut|Keys|Values|ValuesMut)<.*> as std::iter::Iterator>::next$")
def m_slice_next(eng, st, a, fn, dest, target):
    it = eng.read(st, a[0][1], a[0][2])
    if it[0] == "sc" and it[1] in ("biter", "bytes"):
        import strdom
        v, nit = strdom.byte_iter_next(eng, st, it)
        eng.write(st, a[0][1], a[0][2], nit)
        return v
    if it[0] != "it":
        raise Unknown("iterator %s" % it[0])
    v, nit = iter_next(eng, st, it)
    eng.write(st, a[0][1], a[0][2], nit)
    return v


def iter_next(eng, st, it):
    """(Option<item>, new iterator)."""
    kind, src, pos = it[1], it[2], it[3]
    s = as_seq(eng, st, src)
    if type(pos) is tuple and pos[0] == "r":
        es = s[1] if s[0] == "arr" else s[3]
        if pos[1] >= pos[2]:
            return NONE, it
        x = ("ref", src[1], src[2] + (("e", ("i", pos[1])),)) if kind == "ref" else es[pos[1]]
        return some(x), ("it", kind, src, ("r", pos[1] + 1, pos[2]))

    def item(ix):
        if kind == "ref":
            if src[0] != "ref":
                raise Unknown("iter source")
            return ("ref", src[1], src[2] + (("e", ix),))
        return eng.models.elem(eng, st, s, ix)

    if s[0] == "arr":
        if pos < len(s[1]):
            return some(item(("i", pos))), ("it", kind, src, pos + 1)
        return NONE, it
    if s[0] == "V":
        if s[1] is not None and pos in (0, "b"):
            if pos == 0:
                more = 1 - eng.ask(st, ("vempty", s[1]), (0, 1))
                if ("wide", s[1]) in st.facts:
                    st.taint = st.taint or "elements of a list built in a loop"
            else:
                more = eng.ask(st, ("nd", st.fresh()), (0, 1))
            if more:
                e = ("e", s[1], st.fresh())
                m = st.mon
                if m is not None and hasattr(m, "on_iter"):
                    st.mon = m.on_iter(eng, st, s[1], e)
                if kind == "ref":
                    r = ("ref", ("$D", e, s[2]), ())
                else:
                    r = eng.sym_value(st, e, s[2])
                return some(r), ("it", kind, src, "b")
            m = st.mon
            if m is not None and hasattr(m, "on_iter_end"):
                st.mon = m.on_iter_end(eng, st, s[1])
            pos = ("a", 0)
        elif s[1] is None and pos == 0:
            pos = ("a", 0)
        j = pos[1]
        if j < len(s[3]):
            return some(item(("app", j))), ("it", kind, src, ("a", j + 1))
        return NONE, ("it", kind, src, pos)
    raise Unknown("iterate %s" % s[0])


@pattern(r"^<(std::vec::Vec<T, A>|\[T; N\]) as std::iter::IntoIterator>::into_iter$|<impl std::iter::IntoIterator for (\[T; N\]|std::vec::Vec<T, A>)>::into_iter$")
def m_into_iter(eng, st, a, fn, dest, target):
    return ("it", "val", a[0], 0)


def bound(v):
    if v[0] != "i":
        raise Unknown("symbolic range")
    return v[1]


@pattern(r"^<std::ops::Range(|To|From|Full|Inclusive|ToInclusive)(<usize>)? as std::slice::SliceIndex<\[T\]>>::(index|index_mut|get)$|^<std::ops::Range(|To|From|Full)(<usize>)? as std::slice::SliceIndex<\[T\]>>::get$")
def m_slice_range(eng, st, a, fn, dest, target):
    kind = re.search(r"Range(ToInclusive|Inclusive|To|From|Full|)", fn.df).group(1)
    s = as_seq(eng, st, a[1])
    if s[0] == "V" and s[1] is None:
        s = ("arr", s[3])
    if kind == "Full":
        return a[1]
    if s[0] != "arr":
        raise Unknown("range of %s" % s[0])
    if kind == "Inclusive":
        raise Unknown("inclusive range")
    n = len(s[1])
    r = a[0]
    lo, hi = 0, n
    if kind == "":
        lo, hi = bound(eng.field(st, r, 0)), bound(eng.field(st, r, 1))
    elif kind == "From":
        lo = bound(eng.field(st, r, 0))
    elif kind == "To":
        hi = bound(eng.field(st, r, 0))
    elif kind == "ToInclusive":
        hi = bound(eng.field(st, r, 0)) + 1
    if lo > hi or hi > n:
        if fn.df.endswith("get"):
            return NONE
        eng.panic(st, "slice range", fn)
        raise Dead()
    if fn.df.endswith("index_mut"):
        raise Unknown("mutable subslice")
    v = ("ref", ("=", ("arr", s[1][lo:hi])), ())
    return some(v) if fn.df.endswith("get") else v


@model("std::slice::<impl [T]>::to_vec", "<[T] as std::borrow::ToOwned>::to_owned", "std::slice::<impl [T]>::into_vec", "<std::vec::Vec<T, A> as std::clone::Clone>::clone")
def m_to_vec(eng, st, a, fn, dest, target):
    s = as_seq(eng, st, a[0])
    t = eng.ty(fn.ret)
    if s[0] == "arr":
        return ("V", None, t["args"][0], s[1])
    if s[0] == "V":
        return s
    raise Unknown("to_vec of %s" % s[0])


@pattern(r"^<std::vec::Vec<T, A> as std::ops::Index<I>>::index$|^core::slice::index::<impl std::ops::Index<I> for \\[T\\]>::index$")
def m_vec_index(eng, st, a, fn, dest, target):
    v = a[0]
    s = as_seq(eng, st, v)
    if s[0] == "V" and s[1] is not None and eng.ty(fn.ins[1])["k"] == "uint":
        st.taint = st.taint or "list element by index"
        return ("ref", ("$D", ("e", s[1], st.fresh()), s[2]), ())
    eng.push(st, fn, a, dest, target)
    return NOSTEP


@model("core::num::<impl usize>::saturating_sub", "core::num::<impl u32>::saturating_sub", "core::num::<impl usize>::saturating_add",
       "core::num::<impl u16>::saturating_sub", "core::num::<impl u16>::saturating_add", "core::num::<impl u32>::saturating_add")
def m_saturating(eng, st, a, fn, dest, target):
    x, y = a
    bits = eng.ty(fn.ret).get("bits") or 64
    if x[0] == "i" and y[0] == "i":
        n = x[1] - y[1] if fn.df.endswith("sub") else x[1] + y[1]
        return ("i", max(0, min(n, (1 << bits) - 1)))
    return ("any",)


@model("std::vec::Vec::<T, A>::push")
def m_vec_push(eng, st, a, fn, dest, target):
    v = eng.read(st, a[0][1], a[0][2])
    s = as_seq(eng, st, v)
    if s[0] != "V":
        raise Unknown("push")
    eng.write(st, a[0][1], a[0][2], ("V", s[1], s[2], s[3] + (a[1],)))
    return UNIT


DEQ = r"std::collections::(VecDeque|vec_deque::VecDeque)"


@pattern(r"^" + DEQ + r"::<T>::(new|with_capacity)$|^<" + DEQ + r"<T> as std::default::Default>::default$")
def m_deque_new(eng, st, a, fn, dest, target):
    t = eng.ty(fn.ret)
    return ("V", None, t["args"][0], ())


def own_seq(eng, st, ref):
    """The (known) elements of a growable sequence, and a function to replace them."""
    v = eng.read(st, ref[1], ref[2])
    if v[0] == "ref":
        return own_seq(eng, st, v)
    s = as_seq(eng, st, v)
    if s[0] != "V":
        raise Unknown("sequence %s" % s[0])

    def put(es):
        eng.write(st, ref[1], ref[2], ("V", s[1], s[2], tuple(es)))
    return s, put


@pattern(r"^" + DEQ + r"::<T, A>::(push_back|push_front|pop_back|pop_front|len|is_empty|clear|front|back|front_mut|back_mut|truncate|insert|remove|extend)$|^std::vec::Vec::<T, A>::(pop|clear|truncate|insert|remove|swap_remove)$")
def m_seq_op(eng, st, a, fn, dest, target):
    op = fn.df.rsplit("::", 1)[1]
    if op in ("len", "is_empty"):
        return (m_len if op == "len" else m_seq_is_empty)(eng, st, a, fn, dest, target)
    s, put = own_seq(eng, st, a[0])
    es = s[3]
    if op == "push_back":
        put(es + (a[1],))
        return UNIT
    if s[1] is not None:
        raise Unknown("%s of a symbolic sequence" % op)
    if op == "push_front":
        put((a[1],) + es)
        return UNIT
    if op == "clear":
        put(())
        return UNIT
    if op in ("pop", "pop_back"):
        if not es:
            return NONE
        put(es[:-1])
        return some(es[-1])
    if op == "pop_front":
        if not es:
            return NONE
        put(es[1:])
        return some(es[0])
    if op in ("front", "back", "front_mut", "back_mut"):
        if not es:
            return NONE
        r = a[0]
        return some(("ref", r[1], r[2] + (("e", ("i", 0 if op.startswith("front") else len(es) - 1)),)))
    if op == "truncate" and a[1][0] == "i":
        put(es[:a[1][1]])
        return UNIT
    if op == "insert" and a[1][0] == "i" and a[1][1] <= len(es):
        put(es[:a[1][1]] + (a[2],) + es[a[1][1]:])
        return UNIT
    if op == "remove" and a[1][0] == "i":
        n = a[1][1]
        if "Deque" in fn.df:
            if n >= len(es):
                return NONE
            put(es[:n] + es[n + 1:])
            return some(es[n])
        if n < len(es):
            put(es[:n] + es[n + 1:])
            return es[n]
    raise Unknown("sequence operation %s" % op)


@pattern(r"^" + DEQ + r"::<T, A>::(iter|iter_mut)$")
def m_deque_iter(eng, st, a, fn, dest, target):
    return m_slice_iter(eng, st, a, fn, dest, target)


@pattern(r"^<std::slice::Iter(Mut)?<T> as std::iter::DoubleEndedIterator>::next_back$|^<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back$|^<std::collections::vec_deque::Iter(Mut)?<T> as std::iter::DoubleEndedIterator>::next_back$")
def m_slice_next_back(eng, st, a, fn, dest, target):
    it = eng.read(st, a[0][1], a[0][2])
    if it[0] != "it":
        raise Unknown("iterator %s" % it[0])
    kind, src, pos = it[1], it[2], it[3]
    s = as_seq(eng, st, src)
    if s[0] == "V" and s[1] is None:
        es = s[3]
    elif s[0] == "arr":
        es = s[1]
    elif s[0] == "V" and not s[3] and pos in (0, "b") and not hasattr(st.mon, "on_iter"):
        if pos == 0:
            more = 1 - eng.ask(st, ("vempty", s[1]), (0, 1))
            if ("wide", s[1]) in st.facts:
                st.taint = st.taint or "elements of a list built in a loop"
        else:
            more = eng.ask(st, ("nd", st.fresh()), (0, 1))
        if not more:
            eng.write(st, a[0][1], a[0][2], ("it", kind, src, ("a", 0)))
            return NONE
        e = ("e", s[1], st.fresh())
        eng.write(st, a[0][1], a[0][2], ("it", kind, src, "b"))
        return some(("ref", ("$D", e, s[2]), ()) if kind == "ref" else eng.sym_value(st, e, s[2]))
    else:
        raise Unknown("iterate %s backwards" % s[0])
    if pos == 0:
        lo, hi = 0, len(es)
    elif pos[0] == "r":
        lo, hi = pos[1], pos[2]
    else:
        lo, hi = pos[1] if type(pos) is tuple else pos, len(es)
    if lo >= hi:
        return NONE
    eng.write(st, a[0][1], a[0][2], ("it", kind, src, ("r", lo, hi - 1)))
    if kind == "ref":
        if src[0] != "ref":
            raise Unknown("iter source")
        return some(("ref", src[1], src[2] + (("e", ("i", hi - 1)),)))
    return some(es[hi - 1])



# ---------------------------------------------------------------- hash / tree maps with known keys
def map_of(eng, st, ref):
    m = eng.read(st, ref[1], ref[2])
    if m[0] != "Map":
        raise Unknown("map %s" % m[0])
    return m


MAPRX = r"std::collections::(HashMap|BTreeMap|hash_map::HashMap|btree_map::BTreeMap)"


@pattern(r"^" + MAPRX + r"(::<.*>)?::(new|with_capacity)$|^<" + MAPRX + r"<.*> as std::default::Default>::default$")
def m_map_new(eng, st, a, fn, dest, target):
    return ("Map", ())


def map_find(eng, st, m, key):
    p = text_of(eng, st, key)
    for i, (k, v) in enumerate(m[1]):
        if str_eq(eng, st, text_of(eng, st, k), p):
            return i
    return None


@pattern(r"^" + MAPRX + r"::<.*>::(get|contains_key|get_mut)$")
def m_map_get(eng, st, a, fn, dest, target):
    m = map_of(eng, st, a[0])
    i = map_find(eng, st, m, a[1])
    if fn.df.endswith("contains_key"):
        return ("b", 0 if i is None else 1)
    if i is None:
        return NONE
    return some(("ref", a[0][1], a[0][2] + (("m", i),)))


@pattern(r"^" + MAPRX + r"::<.*>::insert$")
def m_map_insert(eng, st, a, fn, dest, target):
    m = map_of(eng, st, a[0])
    i = map_find(eng, st, m, a[1])
    if i is None:
        eng.write(st, a[0][1], a[0][2], ("Map", m[1] + ((a[1], a[2]),)))
        return NONE
    es = list(m[1])
    old = es[i][1]
    es[i] = (es[i][0], a[2])
    eng.write(st, a[0][1], a[0][2], ("Map", tuple(es)))
    return some(old)


@pattern(r"^" + MAPRX + r"::<.*>::remove$")
def m_map_remove(eng, st, a, fn, dest, target):
    m = map_of(eng, st, a[0])
    i = map_find(eng, st, m, a[1])
    if i is None:
        return NONE
    es = list(m[1])
    old = es.pop(i)[1]
    eng.write(st, a[0][1], a[0][2], ("Map", tuple(es)))
    return some(old)


@pattern(r"^" + MAPRX + r"::<.*>::(len|is_empty)$")
def m_map_len(eng, st, a, fn, dest, target):
    m = map_of(eng, st, a[0])
    if fn.df.endswith("is_empty"):
        return ("b", 0 if m[1] else 1)
    return ("i", len(m[1]))


@pattern(r"^" + MAPRX + r"::<.*>::entry$")
def m_map_entry(eng, st, a, fn, dest, target):
    m = map_of(eng, st, a[0])
    i = map_find(eng, st, m, a[1])
    h = ("mapent", a[0], a[1], i)
    # hash_map::Entry { Occupied, Vacant }; btree_map::Entry { Vacant, Occupied }
    btree = "BTree" in fn.df or "btree" in fn.df
    occ = 1 if btree else 0
    return ("A", occ if i is not None else 1 - occ, (h,))


@pattern(r"^" + MAPRX + r"::<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values)$|^<&(mut )?" + MAPRX + r"<.*> as std::iter::IntoIterator>::into_iter$")
def m_map_iter(eng, st, a, fn, dest, target):
    m = map_of(eng, st, a[0])
    if "Hash" in fn.df and len(m[1]) > 1:
        raise Unknown("iteration order of a hash map")
    op = fn.df.rsplit("::", 1)[1]
    order = sorted(range(len(m[1])), key=lambda i: repr(text_of(eng, st, m[1][i][0])))
    out = []
    for i in order:
        k = ("ref", ("=", m[1][i][0]), ())
        v = ("ref", a[0][1], a[0][2] + (("m", i),))
        out.append(k if "keys" in op else v if "values" in op else ("A", 0, (k, v)))
    return ("it", "val", ("arr", tuple(out)), 0)


@pattern(r"(OccupiedEntry|VacantEntry).*::(get|get_mut|insert|remove|into_mut|key|remove_entry|insert_entry)$")
def m_entry_op(eng, st, a, fn, dest, target):
    op = fn.df.rsplit("::", 1)[1]
    h = eng.deref_all(st, a[0])
    if h[0] != "mapent":
        raise Unknown("map entry")
    ref, key, i = h[1], h[2], h[3]
    m = map_of(eng, st, ref)
    if "Vacant" in fn.df:
        if op != "insert":
            raise Unknown("vacant %s" % op)
        eng.write(st, ref[1], ref[2], ("Map", m[1] + ((key, a[1]),)))
        return ("ref", ref[1], ref[2] + (("m", len(m[1])),))
    if op in ("get", "get_mut", "into_mut"):
        return ("ref", ref[1], ref[2] + (("m", i),))
    es = list(m[1])
    if op == "insert":
        old = es[i][1]
        es[i] = (es[i][0], a[1])
        eng.write(st, ref[1], ref[2], ("Map", tuple(es)))
        return old
    if op == "remove":
        old = es.pop(i)[1]
        eng.write(st, ref[1], ref[2], ("Map", tuple(es)))
        return old
    raise Unknown("entry %s" % op)


# ---------------------------------------------------------------- symbolic containers
def sa_string(eng, st, sym, tid):
    return ("S", (("y", sym),))


def sa_vec(eng, st, sym, tid):
    return ("V", sym, eng.ty(tid)["args"][0], ())


SYM_ADT["std::string::String"] = sa_string
SYM_ADT["alloc::string::String"] = sa_string
SYM_ADT["std::vec::Vec"] = sa_vec
SYM_ADT["alloc::vec::Vec"] = sa_vec


# ---------------------------------------------------------------- calls through Fn traits
@pattern(r"^std::ops::(FnOnce::call_once|FnMut::call_mut|Fn::call)$|^<.* as std::ops::Fn(Once|Mut)?<.*>>::call(_once|_mut)?$")
def m_call_fn(eng, st, a, fn, dest, target):
    if not fn.body:
        raise Unknown("fn trait %s" % fn.name)
    eng.push(st, fn, a, dest, target)
    return NOSTEP


# ---------------------------------------------------------------- panics
@pattern(r"^(core|std)::(panicking|option|result|slice|str|rt)::.*(panic|fail|expect_failed|unwrap_failed|begin_panic|bounds)[a-z_]*$|^std::rt::(begin_panic|panic_fmt)|^core::panicking::")
def m_panic(eng, st, a, fn, dest, target):
    eng.panic(st, fn.name, st.frames[-1].fn)
    raise Dead()


@pattern(r"^(std|core)::(intrinsics|hint|ub_checks)::.*(assume|assert_unchecked|check_language_ub|cold_path|black_box|likely)")
def m_noop(eng, st, a, fn, dest, target):
    if "check_language" in fn.df:
        return FALSE
    if "likely" in fn.df or "black_box" in fn.df:
        return a[0]
    return UNIT


@model("std::any::type_name", "core::any::type_name", "std::any::type_name_of_val", "std::intrinsics::type_name")
def m_type_name(eng, st, a, fn, dest, target):
    return ("str", (("k", "<type>"),))


@pattern(r"^std::char::methods::<impl char>::encode_utf8$|^core::char::methods::<impl char>::encode_utf8$|^char::encode_utf8$")
def m_encode_utf8(eng, st, a, fn, dest, target):
    return mk_str(char_text(eng, st, a[0]))


# ---------------------------------------------------------------- library calls kept as terms
def term(eng, st, v):
    v = eng.deref_all(st, v)
    if v[0] == "y":
        return v[1]
    if v[0] in ("str", "S"):
        return ("S", v[1])
    return v


def uninterpreted(eng, st, a, fn):
    """The result is the term f(args); its variant, when it has one, is decided by forking."""
    name = re.sub(r"::<[^>]*>", "", fn.df)
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", fn.df)
    short = (m.group(2) if m else name).rsplit("::", 2)
    short = "%s::%s" % (re.sub(r"<.*", "", m.group(2)).rsplit("::", 1)[-1], m.group(3)) if m else "::".join(short[-2:])
    tid = fn.locals[0] if fn.body else fn.ret
    if tid is None:
        raise Unknown("call %s" % fn.df)
    return eng.sym_value(st, ("u", short, tuple(term(eng, st, x) for x in a)), tid)


def m_chrono(eng, st, a, fn, dest, target):
    return uninterpreted(eng, st, a, fn)
