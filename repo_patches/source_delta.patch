From 2399978e7f8c7bfa57ca478021b79068561b24d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:05 +0000
Subject: [PATCH 01/23] fix: write an element's children and direct value
 inside its tags

With a direct `Option` field that is `None`, a struct that also has child
elements was written as a self-closing tag followed by those children.
---
 instant-xml-macros/src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 445214a..2cf6986 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -316,10 +316,12 @@ impl StructOutput {
             .map_err(|err| err.to_compile_error())?;
 
         let mut attrs_only = true;
+        let mut has_elements = false;
         let mut direct = None;
         for (field, field_meta) in &fields {
             if !field_meta.attribute {
                 attrs_only = false;
+                has_elements |= !field_meta.direct;
             }
 
             if direct.is_some() {
@@ -334,6 +336,9 @@ impl StructOutput {
             }
         }
 
+        // Child elements precede the direct field, so the start tag can only be
+        // self-closing in the absence of a direct value if there are none.
+        let direct = direct.filter(|_| !has_elements);
         if !inline {
             self.body.extend(match (attrs_only, direct) {
                 (true, _) => quote!(serializer.end_empty()?;),
-- 
2.43.0


From dbfe95365716555ac5d4c4807641fe600421bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 02/23] fix: restore the namespace context after a self-closing
 element

Declarations made on an element without content stayed in effect for its
following siblings, which could then end up in the wrong namespace.
---
 instant-xml/src/ser.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 03703f9..8b3b3d5 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -23,6 +23,8 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// This might be different from the default namespace for child elements in case of
     /// `force_prefix`.
     attribute_ns: Option<&'static str>,
+    /// Namespace context to restore if the current start tag turns out to be self-closing
+    outer: Option<(&'static str, Vec<Prefix>)>,
     state: State,
 }
 
@@ -34,6 +36,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             prefixes: HashMap::new(),
             default_ns: "",
             attribute_ns: None,
+            outer: None,
             state: State::Element,
         }
     }
@@ -100,6 +103,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             };
 
         self.state = State::Attribute;
+        self.outer = None;
         self.attribute_ns = cx.as_ref().map(|cx| cx.default_ns);
         let Some(cx) = cx else {
             return Ok(Element {
@@ -144,6 +148,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             used += 1;
         }
 
+        self.outer = Some((old.default_ns, old.prefixes[..used].to_vec()));
         Ok(Element {
             prefix,
             name,
@@ -213,6 +218,10 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         self.output.write_str(" />")?;
         self.attribute_ns = None;
         self.state = State::Element;
+        if let Some((default_ns, prefixes)) = self.outer.take() {
+            self.restore(default_ns, &prefixes);
+        }
+
         Ok(())
     }
 
@@ -233,8 +242,14 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Ok(());
         };
 
-        let _ = mem::replace(&mut self.default_ns, old.default_ns);
-        for prefix in old.prefixes.into_iter() {
+        self.restore(old.default_ns, &old.prefixes);
+        Ok(())
+    }
+
+    /// Restore the namespace context from before an element was started
+    fn restore(&mut self, default_ns: &'static str, prefixes: &[Prefix]) {
+        self.default_ns = default_ns;
+        for prefix in prefixes {
             if prefix.ns.is_empty() && prefix.prefix.is_empty() {
                 continue;
             }
@@ -253,8 +268,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 }
             }
         }
-
-        Ok(())
     }
 
     /// Get the prefix for a namespace URI, if any
-- 
2.43.0


From c4f920ed11b82c0af2dbdc2c7f47aaa601dee78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 03/23] fix: don't use a prefix that is bound to another
 namespace

When an element binds a prefix its ancestor uses for a different namespace,
names in the ancestor's namespace were still written with that prefix.
---
 instant-xml/src/ser.rs | 49 ++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 8b3b3d5..8a18e17 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -1,7 +1,6 @@
 //! XML serialization support code
 
-use std::collections::hash_map::Entry;
-use std::collections::HashMap;
+use std::collections::btree_map::{BTreeMap, Entry};
 use std::fmt::{self};
 use std::mem;
 
@@ -16,7 +15,7 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// The prefix map is updated using `Context` types that are held on the stack in the relevant
     /// `ToXml` implementation. If a prefix is already defined for a given namespace, we don't
     /// update the set with the new prefix.
-    prefixes: HashMap<&'static str, &'static str>,
+    prefixes: BTreeMap<&'static str, &'static str>,
     default_ns: &'static str,
     /// Default namespace for attributes.
     ///
@@ -24,7 +23,7 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// `force_prefix`.
     attribute_ns: Option<&'static str>,
     /// Namespace context to restore if the current start tag turns out to be self-closing
-    outer: Option<(&'static str, Vec<Prefix>)>,
+    outer: Option<(&'static str, Vec<Prefix>, Vec<Prefix>)>,
     state: State,
 }
 
@@ -33,7 +32,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
     pub fn new(output: &'xml mut W) -> Self {
         Self {
             output,
-            prefixes: HashMap::new(),
+            prefixes: BTreeMap::new(),
             default_ns: "",
             attribute_ns: None,
             outer: None,
@@ -58,9 +57,15 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         let force_prefix = cx.as_ref().is_some_and(|cx| cx.force_prefix);
+        // A prefix that this element binds to another namespace can't be used for its own name
+        let known_prefix = self.prefixes.get(ns).filter(|prefix| {
+            cx.iter()
+                .flat_map(|cx| &cx.prefixes)
+                .all(|new| new.prefix != **prefix || new.ns == ns)
+        });
 
         let (prefix, update_default_ns) =
-            match (ns == self.default_ns, self.prefixes.get(ns), force_prefix) {
+            match (ns == self.default_ns, known_prefix, force_prefix) {
                 // Ns != default ns, force prefix: use prefix, don't change default ns
                 (false, Some(prefix), true) => {
                     self.output.write_fmt(format_args!("<{prefix}:{name}"))?;
@@ -110,6 +115,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 prefix,
                 name,
                 parent: None,
+                shadowed: [Prefix::default(); N],
             });
         };
 
@@ -121,6 +127,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         let _ = mem::replace(&mut old.default_ns, prev);
 
         let mut used = 0;
+        let mut shadowed = [Prefix::default(); N];
         for prefix in cx.prefixes.into_iter() {
             if prefix.prefix.is_empty() {
                 continue;
@@ -133,6 +140,13 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             self.output
                 .write_fmt(format_args!(" xmlns:{}=\"{}\"", prefix.prefix, prefix.ns))?;
 
+            // The prefix no longer stands for the namespace an ancestor might have bound it to
+            let hidden = self.prefixes.iter().find(|(_, p)| **p == prefix.prefix);
+            if let Some((ns, prefix)) = hidden.map(|(ns, prefix)| (*ns, *prefix)) {
+                self.prefixes.remove(ns);
+                shadowed[used] = Prefix { ns, prefix };
+            }
+
             let prev = match self.prefixes.entry(prefix.ns) {
                 Entry::Occupied(mut entry) => mem::replace(entry.get_mut(), prefix.prefix),
                 Entry::Vacant(entry) => {
@@ -148,11 +162,16 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             used += 1;
         }
 
-        self.outer = Some((old.default_ns, old.prefixes[..used].to_vec()));
+        self.outer = Some((
+            old.default_ns,
+            old.prefixes[..used].to_vec(),
+            shadowed[..used].to_vec(),
+        ));
         Ok(Element {
             prefix,
             name,
             parent: Some(old),
+            shadowed,
         })
     }
 
@@ -218,8 +237,8 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         self.output.write_str(" />")?;
         self.attribute_ns = None;
         self.state = State::Element;
-        if let Some((default_ns, prefixes)) = self.outer.take() {
-            self.restore(default_ns, &prefixes);
+        if let Some((default_ns, prefixes, shadowed)) = self.outer.take() {
+            self.restore(default_ns, &prefixes, &shadowed);
         }
 
         Ok(())
@@ -242,12 +261,12 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Ok(());
         };
 
-        self.restore(old.default_ns, &old.prefixes);
+        self.restore(old.default_ns, &old.prefixes, &element.shadowed);
         Ok(())
     }
 
     /// Restore the namespace context from before an element was started
-    fn restore(&mut self, default_ns: &'static str, prefixes: &[Prefix]) {
+    fn restore(&mut self, default_ns: &'static str, prefixes: &[Prefix], shadowed: &[Prefix]) {
         self.default_ns = default_ns;
         for prefix in prefixes {
             if prefix.ns.is_empty() && prefix.prefix.is_empty() {
@@ -268,6 +287,12 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 }
             }
         }
+
+        for prefix in shadowed {
+            if !prefix.prefix.is_empty() {
+                self.prefixes.insert(prefix.ns, prefix.prefix);
+            }
+        }
     }
 
     /// Get the prefix for a namespace URI, if any
@@ -290,6 +315,8 @@ pub struct Element<'a, const N: usize> {
     pub name: &'a str,
     /// Namespace context of the parent element, if any
     pub parent: Option<Context<N>>,
+    /// Prefixes of the parent element bound to another namespace in this one
+    shadowed: [Prefix; N],
 }
 
 /// Namespace context for serialization
-- 
2.43.0


From 11a200d95cc1d32d5d52c2fc27bee6aae94410be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:54 +0000
Subject: [PATCH 04/23] fix: write the prefix of an attribute in the element's
 own namespace

---
 instant-xml/src/ser.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 8a18e17..d0c9bc6 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -187,15 +187,18 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         let attr_ns = self.attribute_ns.unwrap_or(self.default_ns);
-        match ns.is_empty() || ns == attr_ns {
-            true => self.output.write_fmt(format_args!(" {name}=\""))?,
-            false => {
-                let prefix = self
-                    .prefixes
-                    .get(ns)
-                    .ok_or(Error::UnexpectedState("unknown prefix"))?;
-                self.output.write_fmt(format_args!(" {prefix}:{name}=\""))?;
+        let prefix = match ns.is_empty() {
+            true => None,
+            false => self.prefixes.get(ns),
+        };
+
+        match prefix {
+            // The default namespace doesn't apply to attributes, so use a prefix if there is one
+            Some(prefix) => self.output.write_fmt(format_args!(" {prefix}:{name}=\""))?,
+            None if ns.is_empty() || ns == attr_ns => {
+                self.output.write_fmt(format_args!(" {name}=\""))?
             }
+            None => return Err(Error::UnexpectedState("unknown prefix")),
         }
 
         self.state = State::Scalar;
-- 
2.43.0


From eae2bb8d99a5b498f12fbb6244c91d29a23c28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 05/23] fix: forward present() from references and boxes

---
 instant-xml/src/impls.rs | 4 ++++
 instant-xml/src/lib.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 6d07e74..846736a 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -525,6 +525,10 @@ impl<T: ToXml + ?Sized> ToXml for Box<T> {
     ) -> Result<(), Error> {
         self.as_ref().serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        self.as_ref().present()
+    }
 }
 
 impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Box<T> {
diff --git a/instant-xml/src/lib.rs b/instant-xml/src/lib.rs
index e44e3e2..6017a55 100644
--- a/instant-xml/src/lib.rs
+++ b/instant-xml/src/lib.rs
@@ -369,6 +369,10 @@ impl<T: ToXml + ?Sized> ToXml for &T {
     ) -> Result<(), Error> {
         (*self).serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        (**self).present()
+    }
 }
 
 /// Deserialize a type from XML
-- 
2.43.0


From 1f7d53e5999bf71b5caea0de942f31793a152140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 06/23] fix: escape the labels of scalar enums

---
 instant-xml-macros/src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 2cf6986..a4f4852 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -75,7 +75,7 @@ fn serialize_scalar_enum(
                     None => None,
                 };
 
-                serializer.write_str(match self { #variants })?;
+                <str as ::instant_xml::ToXml>::serialize(match self { #variants }, None, serializer)?;
                 if let Some(element) = element {
                     serializer.write_close(element)?;
                 }
-- 
2.43.0


From 76befc2871e44a74ee02586f65c22033f6bb7bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:04 +0000
Subject: [PATCH 07/23] fix: report a second element for a single-valued field
 as a duplicate

---
 instant-xml-macros/src/de.rs   | 16 ++++++++++++++++
 instant-xml/src/any_element.rs |  6 +++++-
 instant-xml/src/impls.rs       |  6 +++++-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 29b2001..8d4ecd3 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -196,6 +196,10 @@ fn deserialize_forward_enum(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 let id = deserializer.parent();
                 #variants else {
                     return Err(Error::UnexpectedTag(format!("{:?}", id)));
@@ -318,6 +322,10 @@ fn deserialize_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 enum __Elements {
                     #elements_enum
                     __Ignore,
@@ -774,6 +782,10 @@ fn deserialize_tuple_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 #declare_values
                 deserializer.ignore()?;
 
@@ -849,6 +861,10 @@ fn deserialize_unit_struct(input: &syn::DeriveInput, meta: &ContainerMeta<'_>) -
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
+                if into.is_some() {
+                    return Err(::instant_xml::Error::DuplicateValue(field));
+                }
+
                 deserializer.ignore()?;
                 *into = Some(Self);
                 Ok(())
diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index 8b84483..b7150da 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -146,9 +146,13 @@ where
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _field: &'static str,
+        field: &'static str,
         deserializer: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         let id = deserializer.parent();
         *into = Some(Self::deserialize(deserializer, id)?);
         Ok(())
diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 846736a..e8e23ea 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -821,9 +821,13 @@ impl<'xml> FromXml<'xml> for () {
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _: &'static str,
+        field: &'static str,
         _: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         *into = Some(());
         Ok(())
     }
-- 
2.43.0


From f500f9fb04ac15ee7a5b5f01a31e3ab07324d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:06 +0000
Subject: [PATCH 08/23] fix: yield the node prepared for an empty direct field

---
 instant-xml/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 1313898..bde46c0 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -101,7 +101,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
         Deserializer {
             parent: self.parent,
             level: self.level,
-            done: self.done,
+            done: false,
             context: self.context.borrow(),
         }
     }
-- 
2.43.0


From c982b6a83c6547ad910fe454334f700083953518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:33 +0000
Subject: [PATCH 09/23] fix: reject input that ends inside an element

---
 instant-xml/src/de.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index bde46c0..2ffddcc 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -160,6 +160,7 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
 
         let (prefix, local) = match self.context.next() {
             Some(Ok(Node::Close { prefix, local })) => (prefix, local),
+            None => return Some(Err(Error::UnexpectedEndOfStream)),
             item => return item,
         };
 
-- 
2.43.0


From cb5a8c31d1e072ff0ee8462dbf44ca9d5820d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:11 +0000
Subject: [PATCH 10/23] fix: reject content after the root element

---
 instant-xml/src/de.rs  | 10 ++++++++++
 instant-xml/src/lib.rs |  5 ++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 2ffddcc..b717295 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -77,6 +77,16 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
         value.try_done("<root element>")
     }
 
+    /// Skip the rest of the root element and check that nothing but comments follows it
+    pub(crate) fn finish(mut self) -> Result<(), Error> {
+        self.ignore()?;
+        match self.context.next() {
+            None => Ok(()),
+            Some(Ok(_)) => Err(Error::UnexpectedState("content after root element")),
+            Some(Err(e)) => Err(e),
+        }
+    }
+
     /// Skip all remaining nodes in the current element
     pub fn ignore(&mut self) -> Result<(), Error> {
         loop {
diff --git a/instant-xml/src/lib.rs b/instant-xml/src/lib.rs
index 6017a55..4f4479c 100644
--- a/instant-xml/src/lib.rs
+++ b/instant-xml/src/lib.rs
@@ -432,7 +432,10 @@ impl<T> Accumulate<Self> for Option<T> {
 ///
 /// This is a convenience function that creates a `Deserializer` and calls `deserialize()`.
 pub fn from_str<'xml, T: FromXml<'xml>>(input: &'xml str) -> Result<T, Error> {
-    Deserializer::new(input)?.deserialize()
+    let mut deserializer = Deserializer::new(input)?;
+    let value = deserializer.deserialize()?;
+    deserializer.finish()?;
+    Ok(value)
 }
 
 /// Serialize a value to an XML string
-- 
2.43.0


From 11e900d7870cbecdb38bd6e2cb7ed56f29bf7bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:13 +0000
Subject: [PATCH 11/23] fix: skip what a deserialize_with function leaves of
 its element

---
 instant-xml-macros/src/de.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 8d4ecd3..177d2f3 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -642,6 +642,7 @@ fn named_field<'a>(
                 __Elements::#enum_name => {
                     let mut nested = deserializer.nested(data);
                     #with(&mut #val_name, #field_str, &mut nested)?;
+                    nested.ignore()?;
                 },
             ));
         } else if field_meta.direct {
-- 
2.43.0


From f1bb856bb554b9b7864562e0faae1dd86e6e12ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:14 +0000
Subject: [PATCH 12/23] fix: keep all text of a captured element

---
 instant-xml/src/any_element.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index b7150da..cb4f2f1 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -105,7 +105,10 @@ impl<'a> AnyElement<'a> {
                     elem.children
                         .push(Self::deserialize(&mut nested, child_id)?);
                 }
-                Some(Ok(Node::Text(text))) => elem.text = Some(text),
+                Some(Ok(Node::Text(text))) => match &mut elem.text {
+                    Some(prev) => *prev += text,
+                    None => elem.text = Some(text),
+                },
                 Some(Ok(Node::Close { .. })) => break,
                 Some(Ok(_)) => continue,
                 Some(Err(e)) => return Err(e),
-- 
2.43.0


From 5a819edb1ad76b1b7ea819505cca81dbdb41744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:16 +0000
Subject: [PATCH 13/23] fix: reject character references with a sign

---
 instant-xml/src/de.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index b717295..13504df 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -477,6 +477,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Hexadecimal character reference e.g. "&#x007c;" -> '|'
                         str::from_utf8(hex)
                             .ok()
+                            .filter(|digits| !digits.starts_with('+'))
                             .and_then(|hex_str| u32::from_str_radix(hex_str, 16).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
@@ -490,6 +491,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Decimal character reference e.g. "&#1234;" -> 'Ӓ'
                         str::from_utf8(decimal)
                             .ok()
+                            .filter(|digits| !digits.starts_with('+'))
                             .and_then(|decimal_str| u32::from_str(decimal_str).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
-- 
2.43.0


From 7375fc04c5fb711c5bd9798ea87a6a9d01bd1701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:01 +0000
Subject: [PATCH 14/23] fix: read tuple struct fields only from elements that
 match their type

---
 instant-xml-macros/src/de.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 177d2f3..1fd6b3c 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -816,17 +816,26 @@ fn unnamed_field(
     let field_str = format!("{type_name}::{index}");
     declare_values.extend(quote!(
         let #name = match <#no_lifetime_type as FromXml>::KIND {
-            Kind::Element => match deserializer.next() {
-                Some(Ok(Node::Open(data))) => {
-                    let mut nested = deserializer.nested(data);
-                    let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
-                    <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, &mut nested)?;
-                    nested.ignore()?;
-                    value
+            Kind::Element => loop {
+                match deserializer.next() {
+                    Some(Ok(Node::Open(data))) => {
+                        let id = deserializer.element_id(&data)?;
+                        let mut nested = deserializer.nested(data);
+                        if !<#no_lifetime_type as FromXml>::matches(id, None) {
+                            nested.ignore()?;
+                            continue;
+                        }
+
+                        let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
+                        <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, &mut nested)?;
+                        nested.ignore()?;
+                        break value;
+                    }
+                    Some(Ok(Node::Attribute(_) | Node::Text(_))) => continue,
+                    Some(Ok(node)) => return Err(Error::UnexpectedNode(format!("{:?}", node))),
+                    Some(Err(e)) => return Err(e),
+                    None => return Err(Error::MissingValue(#field_str)),
                 }
-                Some(Ok(node)) => return Err(Error::UnexpectedNode(format!("{:?}", node))),
-                Some(Err(e)) => return Err(e),
-                None => return Err(Error::MissingValue(#field_str)),
             }
             Kind::Scalar => {
                 let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
-- 
2.43.0


From f0a61de6b354938aec09d81f93bb8a7600ee3382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:43 +0000
Subject: [PATCH 15/23] fix: read the scalar fields of transparent structs

---
 instant-xml-macros/src/de.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 1fd6b3c..4ac81bf 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -453,8 +453,10 @@ fn deserialize_inline_struct(
         }
 
         let field_ty = data.no_lifetime_type;
+        let (ns, tag) = (data.ns, data.tag);
+        let field_id = quote!(Some(::instant_xml::Id { ns: #ns, name: #tag }));
         matches.extend(quote!(
-            <#field_ty as FromXml<'xml>>::matches(id, None)
+            <#field_ty as FromXml<'xml>>::matches(id, #field_id)
         ));
 
         let field_name = &field.ident;
@@ -470,12 +472,13 @@ fn deserialize_inline_struct(
         }
         if let Some(with) = data.deserialize_with {
             deserialize.extend(
-                quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+                quote!(if <#field_ty as FromXml<'xml>>::matches(current, #field_id) {
                     #with(&mut into.#field_name, #field_str, deserializer)?;
+                    deserializer.ignore()?;
                 }),
             );
         } else {
-            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, #field_id) {
                 match <#field_ty as FromXml>::KIND {
                     Kind::Element => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
@@ -714,6 +717,8 @@ fn named_field<'a>(
 
     Ok(FieldData {
         field_name,
+        ns,
+        tag: field_tag,
         no_lifetime_type,
         deserialize_with,
     })
@@ -721,6 +726,8 @@ fn named_field<'a>(
 
 struct FieldData<'a> {
     field_name: &'a Ident,
+    ns: TokenStream,
+    tag: TokenStream,
     no_lifetime_type: syn::Type,
     deserialize_with: Option<syn::Path>,
 }
-- 
2.43.0


From 0b396736ebd814f11b5a3e6b9a1520185e600719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 16/23] fix: read an empty element into a borrowed field

---
 instant-xml/src/de.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 13504df..9c4fa21 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -426,11 +426,7 @@ pub fn borrow_cow_str<'a, 'xml: 'a>(
         return Err(Error::DuplicateValue(field));
     }
 
-    match deserializer.take_str()? {
-        Some(value) => into.inner = Some(value),
-        None => return Ok(()),
-    };
-
+    into.inner = Some(deserializer.take_str()?.unwrap_or_default());
     deserializer.ignore()?;
     Ok(())
 }
@@ -447,12 +443,10 @@ pub fn borrow_cow_slice_u8<'xml>(
         return Err(Error::DuplicateValue(field));
     }
 
-    if let Some(value) = deserializer.take_str()? {
-        *into = Some(match value {
-            Cow::Borrowed(v) => Cow::Borrowed(v.as_bytes()),
-            Cow::Owned(v) => Cow::Owned(v.into_bytes()),
-        });
-    }
+    *into = Some(match deserializer.take_str()?.unwrap_or_default() {
+        Cow::Borrowed(v) => Cow::Borrowed(v.as_bytes()),
+        Cow::Owned(v) => Cow::Owned(v.into_bytes()),
+    });
 
     deserializer.ignore()?;
     Ok(())
-- 
2.43.0


From 405b34ba2f4740880d00b521aacf160f06e9fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 17/23] fix: apply limits set with with_limits to the root's
 start tag

---
 instant-xml/src/de.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 9c4fa21..f4991f1 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -61,6 +61,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
 
     /// Deserialize a value of type `T` from the deserializer's XML input
     pub fn deserialize<T: FromXml<'xml>>(&mut self) -> Result<T, Error> {
+        self.context.check_limits()?;
         let id = self.context.element_id(&self.parent)?;
         if !T::matches(id, None) {
             return Err(Error::UnexpectedValue(match id.ns.is_empty() {
@@ -203,6 +204,37 @@ impl<'xml> Context<'xml> {
         }
     }
 
+    /// Check the current element against limits that were set after its start tag was parsed
+    fn check_limits(&self) -> Result<(), Error> {
+        if self.stack.len() > self.limits.max_levels {
+            return Err(Error::Other(
+                "maximum number of nested element levels exceeded".to_owned(),
+            ));
+        }
+
+        if let Some(level) = self.stack.last() {
+            if level.prefixes.len() > self.limits.max_ns_declarations {
+                return Err(Error::Other(
+                    "maximum number of namespace declarations exceeded".to_owned(),
+                ));
+            }
+        }
+
+        let mut attributes = 0;
+        for node in &self.records {
+            if let Node::Attribute(_) = node {
+                attributes += 1;
+            }
+        }
+
+        match attributes > self.limits.max_attributes {
+            true => Err(Error::Other(
+                "maximum number of attributes exceeded".to_owned(),
+            )),
+            false => Ok(()),
+        }
+    }
+
     fn element_id(&self, element: &Element<'xml>) -> Result<Id<'xml>, Error> {
         Ok(Id {
             ns: match (element.default_ns, element.prefix) {
-- 
2.43.0


From 30ba5f6e0c7bb844d92ff5a30a3e8dad05e7c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 18/23] fix: read every xml attribute of an item

---
 instant-xml-macros/src/meta.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index 56d145c..941816f 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -278,15 +278,18 @@ impl NamespaceMeta {
 }
 
 pub(crate) fn meta_items(attrs: &[syn::Attribute]) -> Vec<(MetaItem, Span)> {
-    let list = match attrs.iter().find(|attr| attr.path().is_ident("xml")) {
-        Some(attr) => match &attr.meta {
-            syn::Meta::List(list) => list,
+    let mut items = Vec::new();
+    for attr in attrs.iter().filter(|attr| attr.path().is_ident("xml")) {
+        match &attr.meta {
+            syn::Meta::List(list) => list_items(list, &mut items),
             _ => panic!("expected list in xml attribute"),
-        },
-        None => return Vec::new(),
-    };
+        }
+    }
 
-    let mut items = Vec::new();
+    items
+}
+
+fn list_items(list: &syn::MetaList, items: &mut Vec<(MetaItem, Span)>) {
     let mut state = MetaState::Start;
     for tree in list.tokens.clone() {
         let span = tree.span();
@@ -372,8 +375,6 @@ pub(crate) fn meta_items(attrs: &[syn::Attribute]) -> Vec<(MetaItem, Span)> {
             }
         };
     }
-
-    items
 }
 
 #[derive(Debug)]
-- 
2.43.0


From e21f6fbb3cd430bae4d4a592e5d0cf23e7e86ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 19/23] fix: reject incomplete keys at the end of an xml
 attribute

---
 instant-xml-macros/src/meta.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index 941816f..24767b9 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -375,6 +375,11 @@ fn list_items(list: &syn::MetaList, items: &mut Vec<(MetaItem, Span)>) {
             }
         };
     }
+
+    match state {
+        MetaState::Start | MetaState::Comma => {}
+        state => panic!("invalid end state in xml attribute ({})", state.name()),
+    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 70333d2ec8edb7c4dc0c90fda893950bfa05e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 20/23] fix: reject serialize_with on attribute fields

---
 instant-xml-macros/src/ser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index a4f4852..1a60890 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -403,6 +403,13 @@ impl StructOutput {
                 ));
             }
 
+            if let Some(with) = &field_meta.serialize_with {
+                return Err(syn::Error::new(
+                    with.span(),
+                    "`serialize_with` is not supported on attributes",
+                ));
+            }
+
             let (ns, error) = match &field_meta.ns.uri {
                 Some(Namespace::Path(path)) => match path.get_ident() {
                     Some(path) => (quote!(#path), quote!()),
-- 
2.43.0


From a0d2ee9d07078456d9d57e4397454cb5bf92ccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 21/23] fix: reject rename_all on forward enums and
 force_prefix on transparent structs in FromXml

---
 instant-xml-macros/src/de.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 4ac81bf..2d64708 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -7,6 +7,7 @@ use syn::spanned::Spanned;
 use super::{
     discard_lifetimes, meta_items, ContainerMeta, FieldMeta, Mode, Namespace, VariantMeta,
 };
+use crate::case::RenameRule;
 
 pub(crate) fn from_xml(input: &syn::DeriveInput) -> TokenStream {
     let meta = match ContainerMeta::from_derive(input) {
@@ -126,6 +127,12 @@ fn deserialize_forward_enum(
 ) -> TokenStream {
     if data.variants.is_empty() {
         return syn::Error::new(input.span(), "empty enum is not supported").to_compile_error();
+    } else if meta.rename_all != RenameRule::None {
+        return syn::Error::new(
+            input.span(),
+            "rename_all is not allowed on wrapped enum type",
+        )
+        .to_compile_error();
     }
 
     let ident = &input.ident;
@@ -400,6 +407,12 @@ fn deserialize_inline_struct(
     } else if let Some(rename) = meta.rename {
         return syn::Error::new(rename.span(), "inline structs cannot be renamed")
             .to_compile_error();
+    } else if meta.force_prefix {
+        return syn::Error::new(
+            input.span(),
+            "inline structs cannot have force_prefix declaration",
+        )
+        .to_compile_error();
     }
 
     // Varying values
-- 
2.43.0


From 5ac7e62369bcfd1a51f611ceeffb9572e213cac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 22/23] fix: apply camelCase to names that do not start with an
 ASCII character

---
 instant-xml-macros/src/case.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/case.rs b/instant-xml-macros/src/case.rs
index 42908d2..e7c9232 100644
--- a/instant-xml-macros/src/case.rs
+++ b/instant-xml-macros/src/case.rs
@@ -71,7 +71,7 @@ impl RenameRule {
             None | PascalCase => variant,
             LowerCase => variant.to_ascii_lowercase(),
             UpperCase => variant.to_ascii_uppercase(),
-            CamelCase => variant[..1].to_ascii_lowercase() + &variant[1..],
+            CamelCase => uncapitalize(&variant),
             SnakeCase => {
                 let mut snake = String::new();
                 for (i, ch) in variant.char_indices() {
@@ -115,7 +115,7 @@ impl RenameRule {
             }
             CamelCase => {
                 let pascal = PascalCase.apply_to_field(ident);
-                pascal[..1].to_ascii_lowercase() + &pascal[1..]
+                uncapitalize(&pascal)
             }
             ScreamingSnakeCase => field.to_ascii_uppercase(),
             KebabCase => field.replace('_', "-"),
@@ -124,6 +124,14 @@ impl RenameRule {
     }
 }
 
+fn uncapitalize(name: &str) -> String {
+    let mut chars = name.chars();
+    match chars.next() {
+        Some(first) => first.to_ascii_lowercase().to_string() + chars.as_str(),
+        Option::None => String::new(),
+    }
+}
+
 pub(crate) struct ParseError<'a> {
     unknown: &'a str,
 }
-- 
2.43.0


From 74bf7498e9297e67856eda1cd3dc4ff52db590f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 23/23] fix: drop r# from container and variant names

---
 instant-xml-macros/src/case.rs | 3 ++-
 instant-xml-macros/src/lib.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/case.rs b/instant-xml-macros/src/case.rs
index e7c9232..2954485 100644
--- a/instant-xml-macros/src/case.rs
+++ b/instant-xml-macros/src/case.rs
@@ -11,6 +11,7 @@ use std::fmt::{self, Debug, Display};
 use proc_macro2::Ident;
 #[cfg(test)]
 use proc_macro2::Span;
+use syn::ext::IdentExt;
 
 use self::RenameRule::*;
 
@@ -66,7 +67,7 @@ impl RenameRule {
 
     /// Apply a renaming rule to an enum variant, returning the version expected in the source.
     pub(crate) fn apply_to_variant(&self, ident: &Ident) -> String {
-        let variant = ident.to_string();
+        let variant = ident.unraw().to_string();
         match *self {
             None | PascalCase => variant,
             LowerCase => variant.to_ascii_lowercase(),
diff --git a/instant-xml-macros/src/lib.rs b/instant-xml-macros/src/lib.rs
index 92fca8c..bf1d4f0 100644
--- a/instant-xml-macros/src/lib.rs
+++ b/instant-xml-macros/src/lib.rs
@@ -8,6 +8,7 @@ use std::mem;
 
 use proc_macro2::{Literal, Span, TokenStream};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{parse_macro_input, DeriveInput, GenericParam, Generics};
 
@@ -116,7 +117,7 @@ impl<'input> ContainerMeta<'input> {
     fn tag(&self) -> TokenStream {
         match &self.rename {
             Some(name) => quote!(#name),
-            None => self.input.ident.to_string().into_token_stream(),
+            None => self.input.ident.unraw().to_string().into_token_stream(),
         }
     }
 
-- 
2.43.0

