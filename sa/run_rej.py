"""Unsupported derive configurations: programs that must not compile, each with a twin that must.

A witness is a type definition whose xml attributes ask for something unsupported or contradictory.
It is compiled (never run) against the macros as built from /repo; one that the compiler accepts is a
violation.  The twin differs from it only in the unsupported request being gone; a witness whose twin
is refused says nothing and is counted as undecided.
"""
import os

import build

NEEDS_PROG = False
ACCEPTED = {}
TWINS_BAD = {}
WITNESSES = []          # (group, name, trait, bad, good)

COMMON = """#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
pub mod common {
    pub use instant_xml::{FromXml, ToXml};
    #[derive(ToXml, FromXml)]
    pub struct Inner { pub t: String }
    #[derive(ToXml, FromXml)]
    pub struct Other { pub t: String }
    pub const NS: &str = "urn:n";
    pub const p: &str = "urn:p";
    pub mod names { pub const NS: &str = "urn:n"; }
    pub mod with {
        use instant_xml::{ToXml, FromXml, Error, Deserializer, Serializer};
        pub fn ser<W: std::fmt::Write + ?Sized>(v: &String, s: &mut Serializer<W>) -> Result<(), Error> {
            v.serialize(None, s)
        }
        pub fn de<'xml>(into: &mut <String as FromXml<'xml>>::Accumulator, field: &'static str,
                        d: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
            String::deserialize(into, field, d)
        }
    }
}
"""


def w(group, name, bad, good, traits="SD"):
    for t in traits:
        WITNESSES.append((group, name, {"S": "ToXml", "D": "FromXml"}[t], bad, good))


def x(items):
    """An xml attribute line, or none."""
    return "#[xml%s]" % items if items else ""


# kinds of type, with a hole for container attributes
NAMED = "%s struct T { a: String, b: Option<u32> }"
NAMED1 = "%s struct T { a: Inner }"
TUPLE = "%s struct T(Inner);"
UNITS = "%s struct T;"
PLAINENUM = "%s enum T { A, B, C }"
WRAPENUM = "%s enum T { A(Inner), B(Other) }"
UNION = "%s union T { a: u32 }"


def table():
    if WITNESSES:
        return
    # ---- modes
    for extra in ("", "#[xml()]", '#[xml(rename_all = "lowercase")]', "#[xml(ns(NS))]", '#[xml(rename = "t")]'):
        for k, n, mode in ((PLAINENUM, "unit variants", "scalar"), (WRAPENUM, "wrapped variants", "forward")):
            if mode == "forward" and "rename_all" in extra:
                good = k % "#[xml(forward)]"
            else:
                inner = extra[6:-2]
                good = k % ("#[xml(%s)]" % ", ".join(i for i in (mode, inner) if i))
            w("missing mode", "enum with %s, %s" % (n, extra or "no xml attribute"), k % extra, good)
    for k, n, mode in ((PLAINENUM, "enum with unit variants", "scalar"), (WRAPENUM, "enum with wrapped variants", "forward"),
                       (NAMED1, "struct", "transparent")):
        good = k % ("#[xml(%s)]" % mode)
        for second in ("scalar", "forward", "transparent"):
            for form in ("#[xml({0}, {1})]", "#[xml({1}, {0})]", "#[xml({0})] #[xml({1})]", "#[xml({1})] #[xml({0})]",
                         "#[xml({0})] #[allow(dead_code)] #[xml({1})]"):
                if second == mode and form in ("#[xml({1}, {0})]", "#[xml({1})] #[xml({0})]"):
                    continue
                a = form.format(mode, second)
                w("doubled mode", "%s, %s" % (n, a), k % a, good)
            if mode == "scalar":
                a = '#[xml(%s, rename_all = "lowercase", %s)]' % (mode, second)
                w("doubled mode", "%s, %s" % (n, a), k % a, k % '#[xml(scalar, rename_all = "lowercase")]')
                a = '#[xml(%s, ns(NS), %s)]' % (mode, second)
                w("doubled mode", "%s, %s" % (n, a), k % a, k % '#[xml(scalar, ns(NS))]')
    for k, n in ((NAMED, "struct with named fields"), (NAMED1, "struct with one field"), (TUPLE, "tuple struct"), (UNITS, "unit struct"),
                 ("%s struct T(String);", "tuple struct of a scalar"), ("%s struct T {}", "empty struct")):
        for m in ("scalar", "forward"):
            for rest in ("", ', rename = "t"', ", ns(NS)"):
                w("mode on the wrong kind of type", "%s, %s%s" % (n, m, rest), k % ("#[xml(%s%s)]" % (m, rest)),
                  k % (("#[xml(%s)]" % rest[2:]) if rest else ""))
    for k, n, mode in ((PLAINENUM, "enum with unit variants", "scalar"), (WRAPENUM, "enum with wrapped variants", "forward"),
                       ("%s enum T { A(String) }", "enum with one variant", None)):
        good = k % ("#[xml(%s)]" % mode) if mode else WRAPENUM % "#[xml(forward)]"
        w("mode on the wrong kind of type", "%s, transparent" % n, k % "#[xml(transparent)]", good)
    for m in (None, "scalar", "forward", "transparent"):
        w("mode on the wrong kind of type", "union, %s" % (m or "no mode"), UNION % x(m and "(%s)" % m), "struct T { a: u32 }")
    for k, n in ((TUPLE, "tuple struct"), (UNITS, "unit struct")):
        w("mode on the wrong kind of type", "%s, transparent" % n, k % "#[xml(transparent)]", k % "", "D")

    # ---- scalar enums
    for v in ("A(String)", "A(u32)", "A(Inner)", "A(String, String)", "A { a: String }", "A()", "A {}", "A(())"):
        if v in ("A()", "A {}"):
            continue            # no data
        for where, src in (("first", "enum T { %s, B }"), ("last", "enum T { B, C, %s }"), ("only", "enum T { %s }")):
            for attr in ("#[xml(scalar)]", '#[xml(scalar, rename_all = "UPPERCASE")]'):
                w("data in a scalar enum variant", "%s %s %s" % (attr, where, v), attr + src % v, attr + src % "A")
        w("data in a scalar enum variant", "renamed %s" % v, "#[xml(scalar)] enum T { B, #[xml(rename = \"x\")] %s }" % v,
          "#[xml(scalar)] enum T { B, #[xml(rename = \"x\")] A }")
    for it in ("attribute", "borrow", "direct", "transparent", "scalar", "forward", "force_prefix", "ns(NS)", 'ns(p = "urn:p")',
               'rename_all = "lowercase"', 'serialize_with = "with::ser"', 'deserialize_with = "with::de"'):
        for where, src in (("first", "#[xml(scalar)] enum T { %s A, B }"), ("last", "#[xml(scalar)] enum T { B, %s A }")):
            w("key on a scalar enum variant", "%s on the %s" % (it, where), src % ("#[xml(%s)]" % it), src % "")
        src = "#[xml(scalar)] enum T { B, %s A }"
        w("key on a scalar enum variant", "rename with %s" % it, src % ('#[xml(rename = "x", %s)]' % it), src % '#[xml(rename = "x")]')
        w("key on a scalar enum variant", "%s with rename" % it, src % ('#[xml(%s, rename = "x")]' % it), src % '#[xml(rename = "x")]')
        w("key on a scalar enum variant", "rename, then %s" % it, src % ('#[xml(rename = "x")] #[xml(%s)]' % it), src % '#[xml(rename = "x")]')
    for d in ("= 1 + 1", "= -1", "= { 3 }", "= N", "= 'c' as isize", "= (2)"):
        w("discriminant that is not a literal", d, "const N: isize = 4; #[xml(scalar)] enum T { A %s, B }" % d,
          "const N: isize = 4; #[xml(scalar)] enum T { A = 2, B }")
    for d in ("= 1", "= 0", "= 0x10"):
        w("renamed variant with a discriminant", d, '#[xml(scalar)] enum T { #[xml(rename = "x")] A %s, B }' % d,
          "#[xml(scalar)] enum T { A %s, B }" % d)
        if d != "= 0":
            w("renamed variant with a discriminant", "last " + d, '#[xml(scalar)] enum T { B, #[xml(rename = "x")] A %s }' % d,
              "#[xml(scalar)] enum T { B, A %s }" % d)

    # ---- transparent structs
    tr = "#[xml(%s)] struct T { %s }"
    good = tr % ("transparent", "a: Inner, b: Other")
    for it in ('ns("urn:x")', "ns(NS)", "ns(names::NS)", 'ns(q = "urn:q")', "ns(q = NS)", 'ns(NS, q = "urn:q")', 'rename = "t"', "force_prefix"):
        for form in ("transparent, %s", "%s, transparent"):
            w("declaration on a transparent type", form % it, tr % (form % it, "a: Inner, b: Other"), good)
        w("declaration on a transparent type", "transparent, separately %s" % it,
          "#[xml(transparent)] #[xml(%s)] struct T { a: Inner, b: Other }" % it, good)
        w("declaration on a transparent type", "%s, separately transparent" % it,
          "#[xml(%s)] #[xml(transparent)] struct T { a: Inner, b: Other }" % it, good)
    for it in ("attribute", 'attribute, rename = "x"', 'rename = "x", attribute', "attribute, ns(p)"):
        for where, fs, gs in (("only", "#[xml(%s)] c: String", "c: String"), ("first", "#[xml(%s)] c: String, a: Inner", "c: String, a: Inner"),
                              ("last", "a: Inner, #[xml(%s)] c: Option<u32>", "a: Inner, c: Option<u32>"),
                              ("middle", "a: Inner, #[xml(%s)] c: String, b: Other", "a: Inner, c: String, b: Other")):
            w("attribute on a transparent type", "%s, %s" % (where, it), tr % ("transparent", fs % it), tr % ("transparent", gs))
        w("attribute on a transparent type", "%s after another xml attribute" % it,
          tr % ("transparent", 'a: Inner, #[xml(borrow)] #[xml(%s)] c: String' % it), tr % ("transparent", "a: Inner, c: String"))
    for where, fs, gs in (("only", "#[xml(direct)] c: String", "c: String"), ("last", "a: Inner, #[xml(direct)] c: String", "a: Inner, c: String"),
                          ("first", "#[xml(direct)] c: String, a: Inner", "c: String, a: Inner")):
        w("direct field on a transparent type", where, tr % ("transparent", fs), tr % ("transparent", gs), "D")

    # ---- direct fields
    st = "struct T { %s }"
    for n, bad, gd in (
            ("followed by an element", "#[xml(direct)] d: String, e: String", "e: String, #[xml(direct)] d: String"),
            ("followed by an attribute", "#[xml(direct)] d: String, #[xml(attribute)] e: String", "#[xml(attribute)] e: String, #[xml(direct)] d: String"),
            ("between elements", "a: String, #[xml(direct)] d: String, e: String", "a: String, e: String, #[xml(direct)] d: String"),
            ("between an attribute and an element", "#[xml(attribute)] a: String, #[xml(direct)] d: String, e: Option<String>",
             "#[xml(attribute)] a: String, e: Option<String>, #[xml(direct)] d: String"),
            ("twice", "#[xml(direct)] d: String, #[xml(direct)] e: String", "d: String, #[xml(direct)] e: String"),
            ("twice, around an element", "#[xml(direct)] d: String, a: String, #[xml(direct)] e: String", "d: String, a: String, #[xml(direct)] e: String"),
            ("followed by an optional element", "#[xml(direct)] d: Option<String>, e: Option<String>", "e: Option<String>, #[xml(direct)] d: Option<String>"),
            ("followed by a list", "#[xml(direct)] d: String, e: Vec<Inner>", "e: Vec<Inner>, #[xml(direct)] d: String"),
            ("declared by a second xml attribute, followed by an element", "#[xml(borrow)] #[xml(direct)] d: String, e: String",
             "e: String, #[xml(direct)] d: String")):
        w("direct field that is not the last", n, st % bad, st % gd)
        w("direct field that is not the last", n + ", with container options", '#[xml(ns(NS), rename = "t")] ' + st % bad, '#[xml(ns(NS), rename = "t")] ' + st % gd)
    for it in ("attribute, direct", "direct, attribute", 'attribute, rename = "x", direct', "direct, borrow, attribute"):
        for where, s in (("only", "#[xml(%s)] d: String"), ("last", "a: String, #[xml(%s)] d: String"), ("optional", "#[xml(%s)] d: Option<String>"),
                         ("number", "#[xml(%s)] d: u32")):
            for k in ("attribute", "direct"):
                w("attribute field that is also direct", "%s, %s; not %s" % (it, where, k), st % (s % it),
                  st % (s % ", ".join(i for i in it.split(", ") if i != ("direct" if k == "attribute" else "attribute"))))
    for it in ("#[xml(attribute)] #[xml(direct)]", "#[xml(direct)] #[xml(attribute)]"):
        w("attribute field that is also direct", it, st % (it + " d: String"), st % "#[xml(direct)] d: String")
    for it in ('direct, serialize_with = "with::ser"', 'serialize_with = "with::ser", direct'):
        w("direct field with serialize_with", it, st % ("#[xml(%s)] d: String" % it), st % '#[xml(serialize_with = "with::ser")] d: String', "S")
    for it in ('direct, deserialize_with = "with::de"', 'deserialize_with = "with::de", direct'):
        w("direct field with deserialize_with", it, st % ("#[xml(%s)] d: String" % it), st % '#[xml(deserialize_with = "with::de")] d: String', "D")
    for it in ('attribute, serialize_with = "with::ser"', 'serialize_with = "with::ser", attribute'):
        w("attribute field with serialize_with", it, st % ("#[xml(%s)] d: String" % it), st % "#[xml(attribute)] d: String", "S")
    for it in ("ns(\"urn:x\")", "ns(names::NS)", "ns(::std::x)"):
        w("attribute namespace that is no prefix", it, "#[xml(ns(p = NS))] " + st % ("#[xml(attribute, %s)] d: String" % it),
          "#[xml(ns(p = NS))] " + st % "#[xml(attribute, ns(p))] d: String", "S")

    # ---- keys in the wrong place
    for it in ("transparent", "scalar", "forward", 'rename_all = "lowercase"', "force_prefix"):
        for form in ("%s", "attribute, %s", "%s, attribute", 'rename = "x", %s'):
            a = form % it
            g = ", ".join(i for i in a.split(", ") if i != it)
            w("container key on a field", a, st % ("#[xml(%s)] d: String, e: u32" % a), st % ("%s d: String, e: u32" % x(g and "(%s)" % g)))
        w("container key on a field", "rename, then " + it, st % ('#[xml(rename = "x")] #[xml(%s)] d: String' % it), st % '#[xml(rename = "x")] d: String')
        w("container key on a field", it + " on the last field", st % ("a: String, #[xml(%s)] d: String" % it), st % "a: String, d: String")
        w("container key on a field", it + " on a field of a transparent type",
          "#[xml(transparent)] struct T { #[xml(%s)] a: Inner }" % it, "#[xml(transparent)] struct T { a: Inner }")
    for it in ("attribute", "direct", "borrow", 'serialize_with = "with::ser"', 'deserialize_with = "with::de"'):
        for k, n, mode in ((NAMED, "struct", ""), (TUPLE, "tuple struct", ""), (UNITS, "unit struct", ""), (PLAINENUM, "scalar enum", "scalar"),
                           (WRAPENUM, "forward enum", "forward"), (NAMED1, "transparent struct", "transparent")):
            a = ", ".join(i for i in (mode, it) if i)
            w("field key on a type", "%s on a %s" % (it, n), k % ("#[xml(%s)]" % a), k % x(mode and "(%s)" % mode))
            a = ", ".join(i for i in (it, mode) if i)
            if mode:
                w("field key on a type", "%s first on a %s" % (it, n), k % ("#[xml(%s)]" % a), k % x("(%s)" % mode))
                w("field key on a type", "%s separately on a %s" % (it, n), k % ("#[xml(%s)] #[xml(%s)]" % (mode, it)), k % x("(%s)" % mode))
            else:
                w("field key on a type", "%s after rename on a %s" % (it, n), k % ('#[xml(rename = "t", %s)]' % it), k % '#[xml(rename = "t")]')
                w("field key on a type", "%s separately after rename on a %s" % (it, n), k % ('#[xml(rename = "t")] #[xml(%s)]' % it), k % '#[xml(rename = "t")]')

    # ---- unknown keys, malformed attributes, case rules
    unknown = ("skip", "default", "flatten", "attr", "Attribute", "rename_al", "renameall", "ns_all", "forceprefix", "text", "with", "xml",
               "scalars", "transparent_", "inline", "wrapped", "namespace", "tag", 'unknown = "x"', "unknown(x)")
    malformed = ("attribute direct", "attribute; borrow", "attribute,, borrow", ", attribute", '"attribute"', "attribute = \"x\"", "attribute()",
                 "attribute(true)", "rename", "rename =", "rename = x", 'rename("x")', 'rename "x"', 'rename == "x"', "ns", "ns =", 'ns = "urn:x"', "ns[NS]",
                 "ns(,)", "ns(NS, p)", "ns(NS, p =)", "ns(NS NS)", "ns(NS,, p = NS)", "ns(p = NS = NS)", "ns(a:b)", "ns(a::)", "ns(1 + 1)", "ns(NS; p = NS)",
                 "ns(p::q = NS)", "ns(NS, p = NS q = NS)", "ns(\"urn:x\" p = NS)",
                 "rename_all", "rename_all =", "serialize_with", "serialize_with =", "deserialize_with", "deserialize_with =", "direct = true", "direct, attribute rename",
                 "borrow = 'a", "borrow: 'a")
    fieldish = ("attribute", "direct", "borrow", "serialize_with", "deserialize_with")
    for it in unknown + malformed:
        g = "unknown key" if it in unknown else "malformed xml attribute"
        if it not in ("direct, attribute rename",) and not it.startswith("rename_all"):
            w(g, "field: " + it, st % ("#[xml(%s)] d: String" % it), st % "d: String")
            w(g, "second xml attribute of a field: " + it, st % ("#[xml(borrow)] #[xml(%s)] d: String" % it), st % "#[xml(borrow)] d: String")
            w(g, "field, after a key: " + it, st % ("#[xml(borrow, %s)] d: String" % it), st % "#[xml(borrow)] d: String")
        if g == "unknown key":
            w(g, "field, before a key: " + it, st % ("#[xml(%s, borrow)] d: String" % it), st % "#[xml(borrow)] d: String")
            w(g, "field of a transparent type: " + it, "#[xml(transparent)] struct T { #[xml(%s)] a: Inner }" % it, "#[xml(transparent)] struct T { a: Inner }")
            w(g, "variant of a scalar enum: " + it, "#[xml(scalar)] enum T { B, #[xml(%s)] A }" % it, "#[xml(scalar)] enum T { B, A }")
            w(g, "variant of a forward enum: " + it, "#[xml(forward)] enum T { B(Inner), #[xml(%s)] A(Other) }" % it, "#[xml(forward)] enum T { B(Inner), A(Other) }")
        if not it.startswith(fieldish):
            for k, n, mode in ((NAMED, "struct", ""), (TUPLE, "tuple struct", ""), (UNITS, "unit struct", ""), (PLAINENUM, "scalar enum", "scalar, "),
                               (WRAPENUM, "forward enum", "forward, "), (NAMED1, "transparent struct", "transparent, ")):
                good = k % x(mode and "(%s)" % mode[:-2])
                w(g, "%s: %s" % (n, it), k % ("#[xml(%s%s)]" % (mode, it)), good)
                if mode:
                    w(g, "second xml attribute of a %s: %s" % (n, it), k % ("#[xml(%s)] #[xml(%s)]" % (mode[:-2], it)), good)
                elif k is NAMED:
                    w(g, "second xml attribute of a %s: %s" % (n, it), k % ('#[xml(rename = "t")] #[xml(%s)]' % it), k % '#[xml(rename = "t")]')
    for a in ("#[xml]", '#[xml = "attribute"]', '#[xml = "rename"]'):
        w("malformed xml attribute", "field " + a, st % (a + " d: String"), st % "d: String")
        w("malformed xml attribute", "struct " + a, a + " " + st % "d: String", st % "d: String")
        w("malformed xml attribute", "variant " + a, "#[xml(scalar)] enum T { B, %s A }" % a, "#[xml(scalar)] enum T { B, A }")
    for r in ("forgetaboutit", "", "Lowercase", "LOWERCASE", "uppercase", "UpperCase", "pascalCase", "Pascal Case", "CamelCase", "camelcase", "snakecase",
              "Snake_Case", "snake-case", "SCREAMING_SNAKE", "SCREAMING_SNAKE-CASE", "screaming_snake_case", "Kebab-Case", "kebab_case", "KEBAB-CASE",
              "SCREAMING_KEBAB_CASE", "screaming-kebab-case", "Train-Case", "lowercase ", " lowercase", "camelCase\\0"):
        for k, n, mode in ((NAMED, "struct", ""), (PLAINENUM, "scalar enum", "scalar, ")):
            w("unknown case rule", "%s: %r" % (n, r), k % ('#[xml(%srename_all = "%s")]' % (mode, r)), k % ('#[xml(%srename_all = "lowercase")]' % mode))
    for r in ("1", "'l'", "lowercase", 'b"lowercase"'):
        w("unknown case rule", "no string: " + r, NAMED % ("#[xml(rename_all = %s)]" % r), NAMED % '#[xml(rename_all = "lowercase")]')
    for k, n, mode in ((PLAINENUM, "scalar enum", "scalar"), (WRAPENUM, "forward enum", "forward")):
        for form in ("%s, force_prefix", "force_prefix, %s"):
            w("force_prefix on an enum", n + ", " + form % mode, k % ("#[xml(%s)]" % (form % mode)), k % ("#[xml(%s)]" % mode))
        w("force_prefix on an enum", n + ", separately", k % ("#[xml(%s)] #[xml(force_prefix)]" % mode), k % ("#[xml(%s)]" % mode))

    # ---- forward enums
    fw = "#[xml(forward)] enum T { %s }"
    for n, v in (("unit variant", "%s"), ("two fields", "%s(Inner, Other)"), ("named field", "%s { a: Inner }"), ("no field", "%s()"),
                 ("three fields", "%s(Inner, Other, Inner)")):
        w("forward variant without exactly one unnamed field", n + ", first", fw % (v % "A" + ", B(Other)"), fw % "A(Inner), B(Other)")
        w("forward variant without exactly one unnamed field", n + ", last", fw % ("B(Other), " + v % "A"), fw % "B(Other), A(Inner)")
        w("forward variant without exactly one unnamed field", n + ", only", fw % (v % "A"), fw % "A(Inner)")
    for it in ('rename = "x"', "attribute", "direct", "borrow", "ns(NS)", "forward", "scalar", "transparent", "force_prefix", 'rename_all = "lowercase"'):
        w("key on a forward variant", "first, " + it, fw % ("#[xml(%s)] A(Inner), B(Other)" % it), fw % "A(Inner), B(Other)")
        w("key on a forward variant", "last, " + it, fw % ("B(Other), #[xml(%s)] A(Inner)" % it), fw % "B(Other), A(Inner)")
        w("key on a forward variant", "after an empty xml attribute, " + it, fw % ("B(Other), #[xml()] #[xml(%s)] A(Inner)" % it), fw % "B(Other), A(Inner)")
    w("forward enum without variants", "empty", fw % "", fw % "A(Inner)", "D")
    for form in ('forward, rename_all = "%s"', 'rename_all = "%s", forward'):
        for r in ("lowercase", "camelCase", "SCREAMING-KEBAB-CASE"):
            w("rename_all on a forward enum", form % r, WRAPENUM % ("#[xml(%s)]" % (form % r)), WRAPENUM % "#[xml(forward)]")

    # ---- tuple structs
    for it in ("attribute", "direct", "borrow", 'rename = "x"', "ns(NS)", 'serialize_with = "with::ser"', 'deserialize_with = "with::de"', "scalar", "skip"):
        w("xml attribute on a field of a tuple struct", "only, " + it, "struct T(#[xml(%s)] Inner);" % it, "struct T(Inner);")
        w("xml attribute on a field of a tuple struct", "last, " + it, "struct T(Inner, #[xml(%s)] Other);" % it, "struct T(Inner, Other);")
        w("xml attribute on a field of a tuple struct", "first, " + it, "struct T(#[xml(%s)] Inner, Other);" % it, "struct T(Inner, Other);")
    for it in ('serialize_with = "1 + 1"', 'serialize_with = ""', 'serialize_with = "with:ser"', 'serialize_with = "with ser"'):
        w("serialize_with that is no path", it, st % ("#[xml(%s)] d: String" % it), st % '#[xml(serialize_with = "with::ser")] d: String', "S")
    for it in ('deserialize_with = "1 + 1"', 'deserialize_with = ""', 'deserialize_with = "with:de"', 'deserialize_with = "with de"'):
        w("deserialize_with that is no path", it, st % ("#[xml(%s)] d: String" % it), st % '#[xml(deserialize_with = "with::de")] d: String', "D")


def render(which, left_out):
    lines = COMMON.splitlines()
    owner = {}
    for i, wit in enumerate(WITNESSES):
        if i in left_out:
            continue
        for l in ("mod w%d { use super::common::*;" % i, "#[derive(%s)]" % wit[2], wit[which].replace("\n", " "), "}"):
            if l.startswith("#[derive") and wit[which].startswith("const "):
                l = ""
            if wit[which].startswith("const ") and l == wit[which]:
                a, b = l.split("; ", 1)
                l = "%s; #[derive(%s)] %s" % (a, wit[2], b)
            lines.append(l)
            owner[len(lines)] = i
    return "\n".join(lines) + "\n", owner


def compile_all(which, name):
    """Indices of the witnesses (or twins) the compiler refuses."""
    refused = set()
    for attempt in range(12):
        src, owner = render(which, refused)
        er, lines = build.build_crate(name, src, os.path.join(build.BUILD, name + ".json"))
        if er is None:
            return refused
        new = set(owner[n] for n in lines if n in owner) - refused
        if not new:
            raise build.BuildError("the %s program does not compile:\n%s" % (name, er))
        refused |= new
    raise build.BuildError("the %s program does not compile" % name)


def prepare(tier):
    table()
    build.build_driver()
    bad = compile_all(4, "twins")
    refused = compile_all(3, "witnesses")
    TWINS_BAD.update({i: 1 for i in bad})
    ACCEPTED.update({i: 1 for i in range(len(WITNESSES)) if i not in refused})


def jobs(prog, spec, prop, tier):
    table()
    return sorted(set(x[0] for x in WITNESSES))


def run(prog, spec, job, tier):
    viol = []
    und = {}
    n = 0
    for i, (group, name, trait, bad, good) in enumerate(WITNESSES):
        if group != job:
            continue
        n += 1
        if i in TWINS_BAD:
            k = "the twin does not compile: %s (%s)" % (name, trait)
            und[k] = und.get(k, 0) + 1
        elif i in ACCEPTED:
            viol.append({"property": "C17", "key": "accepted: %s|%s|%s" % (group, name, trait),
                         "msg": "derive(%s) accepts an unsupported configuration (%s: %s): %s" % (trait, group, name, bad),
                         "source": bad, "twin": good})
    return {"violations": viol, "undecided": und, "stats": {"obligations": n}}


if __name__ == "__main__":
    import time
    t0 = time.time()
    table()
    prepare("quick")
    print(len(WITNESSES), "witnesses", "%.0f s" % (time.time() - t0))
    for j in jobs(None, None, "C17", "quick"):
        r = run(None, None, j, "quick")
        print("%-50s %4d accepted %d undecided %d" % (j, r["stats"]["obligations"], len(r["violations"]), len(r["undecided"])))
        for v in r["violations"]:
            print("    ", v["key"][:200])
        for u in r["undecided"]:
            print("     und", u[:200])
