"""The fixture program: types that use the library the way its users do, with what each must do.

Each entry yields (a) Rust source using the derive macros and (b) a description, written from the
documentation and independent of the macros, of the names, namespaces and order its values have on
the wire.  `gen.py` renders (a); the monitors read (b).
"""

NS = {"NA": "urn:a", "NB": "urn:b", "NC": "urn:c"}


# ------------------------------------------------------------------ case rules, from their definition
def words_field(n):
    if n.startswith("r#"):
        n = n[2:]
    return n


def field_case(n, rule):
    n = words_field(n)
    w = [x for x in n.split("_") if x]
    if rule in (None, "lowercase", "snake_case"):
        return n
    if rule in ("UPPERCASE", "SCREAMING_SNAKE_CASE"):
        return n.upper()
    if rule == "kebab-case":
        return "-".join(n.split("_"))
    if rule == "SCREAMING-KEBAB-CASE":
        return "-".join(n.upper().split("_"))
    p = "".join(x[:1].upper() + x[1:] for x in w)
    if rule == "PascalCase":
        return p
    if rule == "camelCase":
        return p[:1].lower() + p[1:]
    raise ValueError(rule)


def variant_case(n, rule):
    w = []
    for ch in n:
        if ch.isupper() or not w:
            w.append("")
        w[-1] += ch
    if rule in (None, "PascalCase"):
        return n
    if rule == "lowercase":
        return n.lower()
    if rule == "UPPERCASE":
        return n.upper()
    if rule == "camelCase":
        return n[:1].lower() + n[1:]
    s = "_".join(x.lower() for x in w)
    if rule == "snake_case":
        return s
    if rule == "SCREAMING_SNAKE_CASE":
        return s.upper()
    if rule == "kebab-case":
        return s.replace("_", "-")
    if rule == "SCREAMING-KEBAB-CASE":
        return s.upper().replace("_", "-")
    raise ValueError(rule)


RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]

# ------------------------------------------------------------------ types
STR = ("str",)
BOOL = ("bool",)
CHAR = ("char",)
U32 = ("u32",)
IP = ("IpAddr",)
ANY = ("any",)
UNIT = ("unit",)


def opt(t):
    return ("opt", t)


def vec(t):
    return ("vec", t)


def box(t):
    return ("box", t)


def ref(t):
    return ("ref", t)


def cow(t):
    return ("cow", t)


def user(n):
    return ("user", n)


TYPES = {}
ORDER = []
RENDER = {"str": "String", "IpAddr": "std::net::IpAddr", "NaiveDate": "chrono::NaiveDate", "NaiveDateTime": "chrono::NaiveDateTime", "DateTimeUtc": "chrono::DateTime<chrono::Utc>", "unit": "()", "any": "AnyElement<'a>"}


def rust(t, owner=None):
    k = t[0]
    if k == "opt":
        return "Option<%s>" % rust(t[1])
    if k == "vec":
        return "Vec<%s>" % rust(t[1])
    if k == "box":
        return "Box<%s>" % rust(t[1])
    if k == "ref":
        return "&'a " + ("str" if t[1] == STR else rust(t[1]))
    if k == "cow":
        if t[1] == STR:
            return "std::borrow::Cow<'a, str>"
        if t[1][0] == "vec":
            return "std::borrow::Cow<'a, [%s]>" % rust(t[1][1])
    if k == "user":
        return t[1] + ("<'a>" if TYPES[t[1]]["lifetime"] else "")
    if k == "gen":
        return "T"
    return RENDER.get(k, k)


def F(name, ty, attribute=False, direct=False, ns=None, rename=None, borrow=False, ser_with=None, de_with=None):
    return dict(name=name, ty=ty, attribute=attribute, direct=direct, nsattr=ns, rename=rename, borrow=borrow, ser_with=ser_with, de_with=de_with)


def nsval(x):
    return NS.get(x, x)


def nslit(x):
    return x if x in NS else '"%s"' % x


def ns_attr(ns, prefixes):
    parts = []
    if ns is not None:
        parts.append(nslit(ns))
    for p, u in prefixes:
        parts.append("%s = %s" % (p, nslit(u)))
    return "ns(%s)" % ", ".join(parts) if parts else None


def has_lt(ty):
    k = ty[0]
    if k in ("ref", "cow", "any"):
        return True
    if k == "user":
        return TYPES[ty[1]]["lifetime"]
    return any(has_lt(x) for x in ty[1:] if isinstance(x, tuple))


def add(name, d):
    d["name"] = name
    d.setdefault("roots", ("ser", "de"))
    d.setdefault("derive", ("ToXml", "FromXml"))
    TYPES[name] = d
    ORDER.append(name)
    return user(name)


def struct(name, fields=(), ns=None, prefixes=(), rename=None, rename_all=None, force=False, transparent=False, tuple_=False, unit=False, derive=None, roots=None, local=None):
    d = dict(kind="transparent" if transparent else "struct", fields=[])
    attrs = []
    if transparent:
        attrs.append("transparent")
    if rename:
        attrs.append('rename = "%s"' % rename)
    if rename_all:
        attrs.append('rename_all = "%s"' % rename_all)
    n = ns_attr(ns, prefixes)
    if n:
        attrs.append(n)
    if force:
        attrs.append("force_prefix")
    d["local"] = rename or name
    d["ns"] = nsval(ns) if ns is not None else ""
    d["force"] = force
    d["prefixes"] = [(p, nsval(u)) for p, u in prefixes]
    d["lifetime"] = any(has_lt(f if tuple_ else f["ty"]) for f in fields)
    body = []
    for i, f in enumerate(fields):
        if tuple_:
            d["fields"].append(dict(name=str(i), ty=f, tuple=True, local=None, ns=None))
            continue
        a = []
        if f["attribute"]:
            a.append("attribute")
        if f["direct"]:
            a.append("direct")
        if f["borrow"]:
            a.append("borrow")
        if f["rename"]:
            a.append('rename = "%s"' % f["rename"])
        if f["nsattr"]:
            a.append("ns(%s)" % nslit(f["nsattr"]))
        if f["ser_with"]:
            a.append('serialize_with = "%s"' % f["ser_with"])
        if f["de_with"]:
            a.append('deserialize_with = "%s"' % f["de_with"])
        fd = dict(name=words_field(f["name"]), ty=f["ty"], local=f["rename"] or field_case(f["name"], rename_all))
        if f["attribute"]:
            fd["attribute"] = True
            fd["ns"] = nsval(f["nsattr"]) if f["nsattr"] else ""
        else:
            fd["ns"] = nsval(f["nsattr"]) if f["nsattr"] else d["ns"]
        if f["direct"]:
            fd["direct"] = True
        if f["borrow"]:
            fd["borrow"] = True
        if f["ser_with"] or f["de_with"]:
            fd["with"] = True
        d["fields"].append(fd)
        body.append("    %spub %s: %s,\n" % ("#[xml(%s)] " % ", ".join(a) if a else "", f["name"], "@%d" % i))
    d["_rust"] = (attrs, body, [f if tuple_ else f["ty"] for f in fields], tuple_, unit)
    if derive:
        d["derive"] = derive
    if roots:
        d["roots"] = roots
    return add(name, d)


def scalar_enum(name, variants, ns=None, rename_all=None):
    """variants: (ident, rename or None, discriminant or None)"""
    attrs = ["scalar"]
    if rename_all:
        attrs.append('rename_all = "%s"' % rename_all)
    if ns:
        attrs.append(ns_attr(ns, ()))
    vs = []
    body = []
    for v in variants:
        ident, ren, disc = (v, None, None) if isinstance(v, str) else v
        label = ren if ren is not None else str(disc) if disc is not None else variant_case(words_field(ident), rename_all)
        vs.append((words_field(ident), label))
        body.append("    %s%s%s,\n" % ('#[xml(rename = "%s")] ' % ren.replace('"', '\\"') if ren is not None else "", ident, " = %d" % disc if disc is not None else ""))
    d = dict(kind="scalar", local=name, ns=nsval(ns) if ns else "", variants=vs, lifetime=False, _rust=(attrs, body, [], "enum", False), roots=())
    return add(name, d)


def forward_enum(name, variants, roots=None):
    d = dict(kind="forward", variants=[(n, t) for n, t in variants], lifetime=any(has_lt(t) for _, t in variants))
    d["_rust"] = (["forward"], ["    %s(@%d),\n" % (n, i) for i, (n, t) in enumerate(variants)], [t for _, t in variants], "enum", False)
    if roots:
        d["roots"] = roots
    return add(name, d)


# ------------------------------------------------------------------ the fixtures
def build():
    A = lambda n, t, **k: F(n, t, attribute=True, **k)
    # scalars, as elements, attributes and text
    struct("Scalars", [F("b", BOOL), F("n", U32), F("s", STR), F("c", CHAR), F("ip", IP)])
    struct("ScalarAttrs", [A("b", BOOL), A("n", U32), A("s", STR), A("c", CHAR), A("ip", IP)])
    struct("Signed", [F("a", ("i8",)), F("b", ("i16",)), F("c", ("i32",)), F("d", ("i64",)), F("e", ("isize",))])
    struct("Unsigned", [F("a", ("u8",)), F("b", ("u16",)), A("c", ("u64",)), F("d", ("usize",))])
    struct("Floats", [F("a", ("f32",)), F("b", ("f64",))])
    struct("Dates", [F("a", ("DateTimeUtc",)), F("b", ("NaiveDate",)), F("c", ("NaiveDateTime",))])
    struct("DateAttrs", [A("a", ("DateTimeUtc",)), A("b", ("NaiveDate",)), A("c", ("NaiveDateTime",))])
    struct("Strs", [A("at", cow(STR)), F("co", cow(STR)), F("bo", cow(STR), borrow=True), F("bx", box(STR))])
    struct("BorrowOpt", [F("b", opt(cow(STR)), borrow=True), F("n", opt(U32))], roots=("de",))
    struct("BorrowOne", [F("b", cow(STR), borrow=True), F("n", opt(U32))], roots=("de",))
    struct("StrRefs", [A("at", ref(STR)), F("el", ref(STR)), F("op", opt(ref(STR)))], derive=("ToXml",), roots=("ser",))
    # optional values
    struct("Leaf", [F("x", U32)])
    struct("Opts", [A("at", opt(STR)), F("n", opt(U32)), F("leaf", opt(user("Leaf")))])
    struct("OptAttrs", [A("a", opt(U32)), A("b", opt(BOOL)), A("c", opt(STR))])
    struct("OptWrapped", [A("at", ref(opt(STR))), A("bx", box(opt(U32))), F("el", ref(opt(STR)))], derive=("ToXml",), roots=("ser",))
    struct("OptBox", [F("a", opt(box(user("Leaf")))), F("b", box(opt(U32))), F("c", opt(opt(U32)))], roots=("ser",))
    # direct text
    struct("Direct", [A("at", STR), F("text", STR, direct=True)])
    struct("DirectOpt", [A("at", opt(U32)), F("text", opt(STR), direct=True)])
    struct("DirectNum", [F("n", U32, direct=True)])
    struct("DirectCow", [F("t", cow(STR), direct=True)])
    struct("DirectBool", [F("v", opt(BOOL), direct=True)])
    struct("DirectAfter", [F("leaf", user("Leaf")), F("text", STR, direct=True)])
    struct("DirectOptAfter", [F("leaf", user("Leaf")), F("text", opt(STR), direct=True)])
    struct("DirectBoxOpt", [F("text", box(opt(STR)), direct=True)], derive=("ToXml",), roots=("ser",))
    struct("DirectInside", [F("a", user("Direct")), F("b", user("DirectOpt")), F("c", user("DirectNum"))])
    # shapes
    struct("UnitS", unit=True)
    struct("EmptyS", [])
    struct("AttrOnly", [A("k", STR)])
    struct("Shapes", [F("u", user("UnitS")), F("e", user("EmptyS")), F("a", user("AttrOnly")), F("tail", U32)])
    struct("TupOne", [STR], tuple_=True)
    struct("TupLeaf", [user("Leaf")], tuple_=True)
    struct("TupTwo", [STR, user("Leaf")], tuple_=True)
    struct("TupElems", [user("Leaf"), user("AttrOnly")], tuple_=True)
    struct("TupHolder", [F("t", user("TupOne")), F("w", user("TupElems")), F("n", U32)])
    # collections
    struct("Vecs", [F("leafs", vec(user("Leaf"))), F("names", vec(STR)), F("tail", U32)])
    struct("VecOpt", [F("xs", vec(opt(U32))), F("ys", opt(vec(user("Leaf"))))], roots=("ser",))
    struct("VecVec", [F("xs", vec(vec(STR)))], roots=("ser",))
    struct("VecBox", [F("xs", vec(box(user("Leaf"))))])
    struct("Boxed", [F("a", box(user("Leaf"))), F("n", box(U32)), A("k", box(STR))])
    struct("IpOne", [F("ip", IP), A("at", opt(IP))])
    struct("CowSlice", [F("xs", cow(vec(STR)))])
    struct("VecAttrOnly", [F("xs", vec(user("AttrOnly"))), F("y", U32)])
    struct("NumVec", [F("xs", vec(U32)), F("y", opt(U32))])
    struct("BoolVec", [A("k", opt(U32)), F("xs", vec(BOOL))])
    # scalar enums
    scalar_enum("Status", ["Active", "Inactive", ("Gone", "no longer", None)])
    scalar_enum("Level", [("Low", None, 1), ("Mid", None, 5), ("High", None, 10)])
    scalar_enum("Marks", [("Amp", "R&D", None), ("Lt", "a<b", None), ("Quot", 'say "hi"', None), ("Apos", "it's", None), ("Gt", "b>a", None)])
    scalar_enum("StatusB", ["On", "Off"], ns="NB")
    struct("Enums", [A("at", user("Status")), F("el", user("Status")), F("lv", opt(user("Level")))])
    struct("EnumDirect", [F("v", user("Status"), direct=True)])
    struct("EnumMarks", [A("at", user("Marks")), F("el", user("Marks"))])
    struct("EnumNs", [F("st", user("StatusB")), F("n", U32)], ns="NA")
    struct("EnumVec", [F("xs", vec(user("Status")))])
    # forwarded enums
    struct("Req", [A("id", U32), F("body", STR)])
    struct("Resp", [F("code", U32)])
    forward_enum("Msg", [("Req", user("Req")), ("Resp", user("Resp"))])
    forward_enum("Outer", [("Msg", user("Msg")), ("Unit", user("UnitS"))])
    struct("MsgHolder", [F("m", user("Msg")), F("n", U32)])
    struct("MsgOpt", [F("m", opt(user("Msg"))), F("n", U32)])
    struct("MsgVec", [F("m", vec(user("Msg")))])
    # transparent
    struct("Inline", [F("one", STR), F("two", opt(U32))], transparent=True, roots=())
    struct("InlineEl", [F("leaf", user("Leaf")), F("unit", opt(user("AttrOnly")))], transparent=True, roots=())
    struct("InlineHolder", [F("before", U32), F("inl", user("Inline")), F("after", U32)])
    struct("InlineElHolder", [F("inl", user("InlineEl")), F("after", U32)])
    struct("InlineOpt", [F("inl", opt(user("Inline"))), F("after", U32)], roots=("ser",))
    # names
    for i, r in enumerate(RULES):
        struct("Case%d" % i, [F("one_two", U32), A("some_attr_name", STR), F("x", opt(BOOL)), F("r#type", U32)], rename_all=r)
        scalar_enum("VCase%d" % i, ["OneTwo", "Abc", "HTTPGet", ("Kept", "as-is", None)], rename_all=r)
    struct("VCases", [F("c%d" % i, user("VCase%d" % i)) for i in range(3)])
    struct("VCases2", [F("c%d" % i, user("VCase%d" % i)) for i in range(3, 6)])
    struct("VCases3", [F("c%d" % i, user("VCase%d" % i)) for i in range(6, 8)])
    struct("Renamed", [F("a", U32, rename="alpha"), A("b", STR, rename="beta-1"), F("c", opt(STR), rename="c.c")], rename="re-named")
    struct("RenamedAll", [F("a_b", U32, rename="keep_me"), F("c_d", U32)], rename="Root_Name", rename_all="PascalCase", ns="NA")
    struct("RawNames", [F("r#type", STR), A("r#match", U32)])
    # namespaces
    struct("NsOwn", [F("plain", BOOL), F("pref", STR, ns="NB"), F("other", ("i32",), ns="urn:other"), F("tail", U32)], ns="NA", prefixes=[("b", "NB")])
    struct("NsAttr", [A("at", STR, ns="NB"), A("pl", U32), A("op", opt(STR), ns="NB"), F("el", U32)], ns="NA", prefixes=[("b", "NB")])
    struct("NsAttrOwn", [A("at", STR, ns="NA"), F("el", U32)], ns="NA", prefixes=[("a", "NA")])
    struct("NsAttrOwnBare", [A("at", STR, ns="NA"), F("el", U32)], ns="NA")
    struct("NsDashed", [F("el", U32, ns="NB")], ns="NA", prefixes=[("my-ns.v1", "NB")], roots=("ser", "de"))
    struct("NsPrefOnly", [F("el", U32, ns="NB"), F("pl", U32)], prefixes=[("b", "NB"), ("c", "NC")])
    shapes = {
        "Body": lambda n, **k: struct(n, [A("k", STR), F("v", U32)], roots=("de",), **k),
        "Empty": lambda n, **k: struct(n, [A("k", STR)], roots=("de",), **k),
        "Tup": lambda n, **k: struct(n, [STR], tuple_=True, roots=("de",), **k),
        "Unit": lambda n, **k: struct(n, unit=True, roots=("de",), **k),
    }
    kids = []
    for ns in (None, "NA", "NB", "NC"):
        for pi, pf in enumerate(((), (("q", "NB"),), (("p", "NC"),))):
            for force in (False, True):
                if force and not pf:
                    continue
                if pi and ns is None and force:
                    continue
                kids.append((ns, pi, pf, force))
    kid_names = []
    for i, (ns, pi, pf, force) in enumerate(kids):
        for sh in ("Body", "Empty") if i % 2 == 0 else ("Body", "Unit" if i % 4 == 1 else "Tup"):
            n = "K%s%s%s%s" % (sh, ns or "N", pi, "f" if force else "")
            shapes[sh](n, ns=ns, prefixes=pf, force=force)
            kid_names.append(n)
    half = [kid_names[i::4] for i in range(4)]
    for pns in (None, "NA"):
        for ppi, ppf in enumerate(((), (("p", "NA"),), (("q", "NB"),), (("q", "NB"), ("p", "NA")))):
            for force in (False, True):
                if force and not ppf:
                    continue
                for h, part in enumerate(half):
                    n = "P%s%d%s_%d" % (pns or "N", ppi, "f" if force else "", h)
                    fs = []
                    for j, kn in enumerate(part):
                        fs.append(F("k%d" % j, user(kn)))
                        if j % 3 == 1:
                            fs.append(F("t%d" % j, U32))
                    fs.append(F("tail", U32))
                    fs.append(F("btail", U32, ns="NB"))
                    struct(n, fs, ns=pns, prefixes=ppf, force=force, roots=("ser",))
    # nesting three levels deep
    struct("G3", [A("at", STR, ns="NB"), F("v", U32)], ns="NC", prefixes=[("b2", "NB")], roots=("de",))
    struct("G2", [F("g", user("G3")), F("w", U32), F("h", user("G3"))], ns="NB", roots=("de",))
    struct("G1", [F("g", vec(user("G2"))), F("u", U32), F("v", U32, ns="NB")], ns="NA", prefixes=[("b", "NB")])
    # custom functions
    # captured elements and values of no type
    struct("AnyHold", [F("n", U32), F("any", ANY, borrow=True)], derive=("FromXml",), roots=("de",))
    struct("AnyOpt", [F("any", opt(ANY), borrow=True)], derive=("FromXml",), roots=("de",))
    struct("AnyVec", [A("k", opt(STR)), F("xs", vec(ANY), borrow=True)], derive=("FromXml",), roots=("de",))
    struct("UnitField", [F("u", UNIT), F("o", opt(UNIT)), F("n", U32)], derive=("FromXml",), roots=("de",))
    struct("WithStr", [F("a", U32, de_with="instant_xml::from_xml_str"), F("n", U32)], derive=("FromXml",), roots=("de",))
    struct("Many", [A("a", U32), A("b", STR), F("c", STR), F("d", user("Leaf")), F("e", vec(U32)), F("f", opt(user("AttrOnly")))], roots=("de",))
    struct("With", [F("a", STR, ser_with="ser_with_str", de_with="de_with_str"), F("n", U32)])
    return TYPES


HEAD = '''#![allow(dead_code, non_snake_case, non_camel_case_types, clippy::all)]
use instant_xml::*;
use instant_xml::ser::{Context, Prefix};
use std::fmt;

pub const NA: &str = "urn:a";
pub const NB: &str = "urn:b";
pub const NC: &str = "urn:c";

/// The output under observation.
pub struct Sink;
impl fmt::Write for Sink {
    #[inline(never)]
    fn write_str(&mut self, _s: &str) -> fmt::Result { Ok(()) }
    #[inline(never)]
    fn write_char(&mut self, _s: char) -> fmt::Result { Ok(()) }
    #[inline(never)]
    fn write_fmt(&mut self, _s: fmt::Arguments<'_>) -> fmt::Result { Ok(()) }
}

fn own_attr<'a>(ns: std::borrow::Cow<'a, str>, name: std::borrow::Cow<'a, str>, value: std::borrow::Cow<'a, str>) -> AnyAttribute<'a> {
    AnyAttribute { ns, name, value }
}
fn own_elem<'a>(ns: std::borrow::Cow<'a, str>, name: std::borrow::Cow<'a, str>, text: Option<std::borrow::Cow<'a, str>>) -> AnyElement<'a> {
    AnyElement { ns, name, attributes: Vec::new(), text, children: Vec::new() }
}
/// The parts of captured elements the copies are made of; every string is arbitrary.
pub struct Parts<S> { pub n: (S, S, S, S, S, S, S, S), pub t: (Option<S>, Option<S>, Option<S>, Option<S>), pub a: (S, S, S, S, S, S, S, S, S) }
fn own_tree<'a, S>(p: Parts<S>, cow: fn(S) -> std::borrow::Cow<'a, str>) -> AnyElement<'a> {
    let mut root = own_elem(cow(p.n.0), cow(p.n.1), p.t.0.map(cow));
    let mut one = own_elem(cow(p.n.2), cow(p.n.3), p.t.1.map(cow));
    let two = own_elem(cow(p.n.4), cow(p.n.5), p.t.2.map(cow));
    let three = own_elem(cow(p.n.6), cow(p.n.7), p.t.3.map(cow));
    root.attributes.push(own_attr(cow(p.a.0), cow(p.a.1), cow(p.a.2)));
    root.attributes.push(own_attr(cow(p.a.3), cow(p.a.4), cow(p.a.5)));
    one.attributes.push(own_attr(cow(p.a.6), cow(p.a.7), cow(p.a.8)));
    one.children.push(three);
    root.children.push(one);
    root.children.push(two);
    root
}
fn own_b<'a>(s: &'a str) -> std::borrow::Cow<'a, str> { std::borrow::Cow::Borrowed(s) }
fn own_o(s: String) -> std::borrow::Cow<'static, str> { std::borrow::Cow::Owned(s) }
pub fn root_own_borrowed(p: Parts<&str>) -> AnyElement<'static> { own_tree(p, own_b).into_owned() }
pub fn root_own_owned(p: Parts<String>) -> AnyElement<'static> { own_tree(p, own_o).into_owned() }

/// A value whose serialization may fail.
pub struct Failing;
impl ToXml for Failing {
    #[inline(never)]
    fn serialize<W: fmt::Write + ?Sized>(&self, _: Option<Id<'_>>, _: &mut Serializer<'_, W>) -> Result<(), Error> { Ok(()) }
}

pub fn ser_with_str<W: fmt::Write + ?Sized>(value: &String, serializer: &mut Serializer<'_, W>) -> Result<(), Error> {
    value.serialize(Some(Id { ns: "", name: "a" }), serializer)
}
pub fn de_with_str<'xml>(into: &mut Option<String>, field: &'static str, deserializer: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
    <String as FromXml<'xml>>::deserialize(into, field, deserializer)?;
    deserializer.ignore()
}

'''

FAIL_HOLDERS = '''
#[derive(ToXml)]
pub struct FailField { pub a: u32, pub f: Failing, pub b: u32 }
#[derive(ToXml)]
pub struct FailAttr { #[xml(attribute)] pub a: u32, #[xml(attribute)] pub f: Failing, pub b: u32 }
#[derive(ToXml)]
pub struct FailDirect { #[xml(direct)] pub f: Failing }
#[derive(ToXml)]
pub struct FailOpt { pub f: Option<Failing>, pub g: Box<Failing>, pub h: Vec<Failing> }
#[derive(ToXml)]
pub struct FailTuple(pub Failing);
#[derive(ToXml)]
#[xml(forward)]
pub enum FailForward { A(FailTuple), B(FailField) }
#[derive(ToXml)]
#[xml(transparent)]
pub struct FailInline { pub f: Failing, pub g: FailTuple }
pub fn fail_with<W: fmt::Write + ?Sized>(value: &Failing, serializer: &mut Serializer<'_, W>) -> Result<(), Error> {
    value.serialize(None, serializer)
}
#[derive(ToXml)]
pub struct FailWith { #[xml(serialize_with = "fail_with")] pub f: Failing, pub i: FailInline }
#[derive(ToXml)]
pub struct FailSlice<'a> { pub s: std::borrow::Cow<'a, [Box<u32>]>, pub r: &'a Failing }
'''
FAIL_NAMES = ["FailField", "FailAttr", "FailDirect", "FailOpt", "FailTuple", "FailForward", "FailInline", "FailWith", "FailSlice"]


def deps(t, out):
    if t[0] == "user":
        out.add(t[1])
    for x in t[1:]:
        if isinstance(x, tuple):
            deps(x, out)
    return out


def type_deps(d):
    out = set()
    for f in d.get("fields", ()):
        deps(f["ty"], out)
    if d["kind"] == "forward":
        for v in d["variants"]:
            deps(v[1], out)
    return out


def users_of(bad):
    """Types that cannot be compiled when `bad` are left out: name -> reason."""
    out = {}
    more = True
    while more:
        more = False
        for n in ORDER:
            if n in bad or n in out:
                continue
            for x in type_deps(TYPES[n]):
                if x in bad or x in out:
                    out[n] = x
                    more = True
                    break
    return out


def pieces(skip):
    out = [(None, HEAD)]
    for n in ORDER:
        if n in skip:
            continue
        add = lambda s, n=n: out.append((n, s))
        d = TYPES[n]
        attrs, body, tys, tup, unit = d["_rust"]
        lt = "<'a>" if d["lifetime"] else ""
        add("#[derive(%s)]\n" % ", ".join(d["derive"]))
        if attrs:
            add("#[xml(%s)]\n" % ", ".join(attrs))
        if unit:
            add("pub struct %s;\n" % n)
        elif tup == "enum":
            s = "".join(body)
            for i, t in enumerate(tys):
                s = s.replace("@%d" % i, rust(t))
            add("pub enum %s%s {\n%s}\n" % (n, lt, s))
        elif tup:
            add("pub struct %s%s(%s);\n" % (n, lt, ", ".join("pub " + rust(t) for t in tys)))
        else:
            s = []
            for i, b in enumerate(body):
                s.append(b.replace("@%d" % i, rust(tys[i])))
            add("pub struct %s%s {\n%s}\n" % (n, lt, "".join(s)))
    out.append((None, FAIL_HOLDERS))
    for n in ORDER:
        if n in skip:
            continue
        add = lambda s, n=n: out.append((n, s))
        d = TYPES[n]
        lt = "<'_>" if d["lifetime"] else ""
        if "ser" in d["roots"] and "ToXml" in d["derive"]:
            add("pub fn root_ser_%s(v: &%s%s, w: &mut Sink) -> Result<(), Error> { to_writer(v, w) }\n" % (n, n, lt))
        if "de" in d["roots"] and "FromXml" in d["derive"]:
            lt2 = "<'a>" if d["lifetime"] else ""
            add("pub fn root_de_%s<'a>(d: &mut Deserializer<'_, 'a>) -> Result<%s%s, Error> { if !<%s as FromXml<'a>>::matches(d.parent(), None) { return Err(Error::MissingTag); } let mut acc = <%s as FromXml<'a>>::Accumulator::default(); <%s as FromXml<'a>>::deserialize(&mut acc, \"<root element>\", d)?; acc.try_done(\"<root element>\") }\n" % (n, n, lt2, n + lt2, n + lt2, n + lt2))
            add("pub fn root_match_%s<'a>(id: Id<'_>, field: Option<Id<'_>>) -> bool { <%s as FromXml<'a>>::matches(id, field) }\n" % (n, n + lt2))
    for n in FAIL_NAMES:
        lt = "<'_>" if n == "FailSlice" else ""
        out.append((None, "pub fn root_fail_%s(v: &%s%s, w: &mut Sink) -> Result<(), Error> { to_writer(v, w) }\n" % (n, n, lt)))
    out.append(("Scalars", "pub fn root_tostr_Scalars(v: &Scalars) -> Result<String, Error> { to_string(v) }\n"))
    out.append(("NsOwn", "pub fn root_tostr_NsOwn(v: &NsOwn) -> Result<String, Error> { to_string(v) }\n"))
    out.append((None, "pub fn root_de_AnyElement<'a>(d: &mut Deserializer<'_, 'a>) -> Result<AnyElement<'a>, Error> { let mut acc = <AnyElement<'a> as FromXml<'a>>::Accumulator::default(); <AnyElement<'a> as FromXml<'a>>::deserialize(&mut acc, \"<root element>\", d)?; acc.try_done(\"<root element>\") }\n"))
    return [(o, s) for o, s in out if o not in skip]


def render_owned(skip=()):
    """(source, line -> type the line belongs to)"""
    owner = {}
    src = []
    line = 1
    for o, s in pieces(set(skip)):
        for i in range(s.count("\n") + (not s.endswith("\n"))):
            owner.setdefault(line + i, o)
        line += s.count("\n")
        src.append(s)
    return "".join(src), owner


def render():
    return render_owned()[0]


build()

if __name__ == "__main__":
    print(render())
