From 861750416e7c8dae1ec9007f60d0ab0ea19ba3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:17 +0000
Subject: [PATCH 01/41] fix: reject documents that end before the element is
 closed

---
 instant-xml/src/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 1313898..dde40ed 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -160,7 +160,12 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
 
         let (prefix, local) = match self.context.next() {
             Some(Ok(Node::Close { prefix, local })) => (prefix, local),
-            item => return item,
+            Some(item) => return Some(item),
+            // The input ended before this element was closed
+            None => {
+                self.done = true;
+                return Some(Err(Error::UnexpectedEndOfStream));
+            }
         };
 
         if self.context.stack.len() == self.level - 1
-- 
2.43.0


From 54a8ee16375301285323e82077b6630fd05ae99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:19 +0000
Subject: [PATCH 02/41] fix: reject signs in numeric character references

---
 instant-xml/src/de.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index dde40ed..d7f169e 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -471,6 +471,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Hexadecimal character reference e.g. "&#x007c;" -> '|'
                         str::from_utf8(hex)
                             .ok()
+                            .filter(|hex_str| hex_str.bytes().all(|b| b.is_ascii_hexdigit()))
                             .and_then(|hex_str| u32::from_str_radix(hex_str, 16).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
@@ -484,6 +485,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Decimal character reference e.g. "&#1234;" -> 'Ӓ'
                         str::from_utf8(decimal)
                             .ok()
+                            .filter(|decimal_str| decimal_str.bytes().all(|b| b.is_ascii_digit()))
                             .and_then(|decimal_str| u32::from_str(decimal_str).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
-- 
2.43.0


From ab87c4263e345c168fe98b3049fce5ff3df94b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 03/41] fix: do not panic in Deserializer::parent() when the
 prefix is not in scope

---
 instant-xml/src/de.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index d7f169e..a910571 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -13,6 +13,10 @@ use crate::{Accumulate, Error, FromXml, Id};
 /// XML deserializer for iterating over nodes in an element
 pub struct Deserializer<'cx, 'xml> {
     parent: Element<'xml>,
+    /// Namespace of `parent`, resolved while its declarations are in scope
+    ///
+    /// Empty if the prefix of `parent` is unknown.
+    parent_ns: &'xml str,
     level: usize,
     done: bool,
     context: Mut<'cx, Context<'xml>>,
@@ -32,6 +36,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
             None => return Err(Error::UnexpectedEndOfStream),
         };
 
+        context.element_id(&parent)?;
         Ok(Self::with_context(parent, context))
     }
 
@@ -45,8 +50,10 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
 
     fn with_context(parent: Element<'xml>, context: Mut<'cx, Context<'xml>>) -> Self {
         let level = context.stack.len();
+        let parent_ns = context.element_id(&parent).map_or("", |id| id.ns);
         Self {
             parent,
+            parent_ns,
             level,
             done: false,
             context,
@@ -100,6 +107,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
         self.context.records.push_front(node);
         Deserializer {
             parent: self.parent,
+            parent_ns: self.parent_ns,
             level: self.level,
             done: self.done,
             context: self.context.borrow(),
@@ -125,10 +133,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     /// Get the identifier of the parent element
     pub fn parent(&self) -> Id<'xml> {
         Id {
-            ns: match self.parent.prefix {
-                Some(ns) => self.context.lookup(ns).unwrap(),
-                None => self.context.default_ns(),
-            },
+            ns: self.parent_ns,
             name: self.parent.local,
         }
     }
-- 
2.43.0


From f3306f7352a9b93de8b43832f0b5fe1b1b1c7098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 04/41] fix: do not truncate text at comments and CDATA
 sections

---
 instant-xml/src/de.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index a910571..254efc8 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -249,6 +249,35 @@ impl<'xml> Context<'xml> {
             .rev()
             .find_map(|level| level.prefixes.get(prefix).copied())
     }
+
+    /// Complete a text node that starts with `text`
+    ///
+    /// Comments and the boundaries of CDATA sections do not separate character data.
+    fn text(&mut self, mut text: Cow<'xml, str>) -> Result<Node<'xml>, Error> {
+        loop {
+            let rest = self.parser.stream();
+            match rest.curr_byte() {
+                Ok(b'<') if rest.starts_with(b"<!--") || rest.starts_with(b"<![CDATA[") => {}
+                Ok(b'<') | Err(_) => return Ok(Node::Text(text)),
+                Ok(_) => {}
+            }
+
+            let next = match self.parser.next() {
+                Some(Ok(Token::Text { text })) => decode(text.as_str())?,
+                Some(Ok(Token::Cdata { text, .. })) => Cow::Borrowed(text.as_str()),
+                Some(Ok(Token::Comment { .. })) => continue,
+                Some(Ok(token)) => return Err(Error::UnexpectedToken(format!("{token:?}"))),
+                Some(Err(e)) => return Err(Error::Parse(e)),
+                None => return Ok(Node::Text(text)),
+            };
+
+            match (text.is_empty(), next.is_empty()) {
+                (_, true) => {}
+                (true, false) => text = next,
+                (false, false) => text.to_mut().push_str(&next),
+            }
+        }
+    }
 }
 
 impl<'xml> Iterator for Context<'xml> {
@@ -395,10 +424,10 @@ impl<'xml> Iterator for Context<'xml> {
                     }
                 }
                 Ok(Token::Text { text }) => {
-                    return Some(decode(text.as_str()).map(Node::Text));
+                    return Some(decode(text.as_str()).and_then(|text| self.text(text)));
                 }
                 Ok(Token::Cdata { text, .. }) => {
-                    return Some(Ok(Node::Text(Cow::Borrowed(text.as_str()))));
+                    return Some(self.text(Cow::Borrowed(text.as_str())));
                 }
                 Ok(token @ Token::Declaration { .. }) => {
                     if !self.stack.is_empty() {
-- 
2.43.0


From 4262af34cbba8b5b8b9d8810b5ef813b5c2ce660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:27 +0000
Subject: [PATCH 05/41] fix: reject content after the root element

---
 instant-xml/src/de.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 254efc8..55cd1a2 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -81,7 +81,13 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
 
         let mut value = T::Accumulator::default();
         T::deserialize(&mut value, "<root element>", self)?;
-        value.try_done("<root element>")
+        let value = value.try_done("<root element>")?;
+        if self.level == 1 {
+            self.ignore()?;
+            self.context.finish()?;
+        }
+
+        Ok(value)
     }
 
     /// Skip all remaining nodes in the current element
@@ -250,6 +256,18 @@ impl<'xml> Context<'xml> {
             .find_map(|level| level.prefixes.get(prefix).copied())
     }
 
+    /// Check that only comments and processing instructions follow the root element
+    fn finish(&mut self) -> Result<(), Error> {
+        for token in &mut self.parser {
+            match token? {
+                Token::Comment { .. } | Token::ProcessingInstruction { .. } => continue,
+                token => return Err(Error::UnexpectedToken(format!("{token:?}"))),
+            }
+        }
+
+        Ok(())
+    }
+
     /// Complete a text node that starts with `text`
     ///
     /// Comments and the boundaries of CDATA sections do not separate character data.
-- 
2.43.0


From cf4d9a5210c4b7a4f371cdabbac1ac2d156608a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 06/41] fix: consume the synthesized empty text node of an
 empty direct field

---
 instant-xml/src/de.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 55cd1a2..8be62a9 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -2,6 +2,7 @@
 
 use std::borrow::Cow;
 use std::collections::{BTreeMap, VecDeque};
+use std::mem;
 use std::ops::{Deref, DerefMut};
 use std::str::{self, FromStr};
 
@@ -19,6 +20,8 @@ pub struct Deserializer<'cx, 'xml> {
     parent_ns: &'xml str,
     level: usize,
     done: bool,
+    /// Whether a node passed to `for_node` is still to be yielded, even if `done`
+    pending: bool,
     context: Mut<'cx, Context<'xml>>,
 }
 
@@ -56,6 +59,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
             parent_ns,
             level,
             done: false,
+            pending: false,
             context,
         }
     }
@@ -116,6 +120,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
             parent_ns: self.parent_ns,
             level: self.level,
             done: self.done,
+            pending: true,
             context: self.context.borrow(),
         }
     }
@@ -165,7 +170,8 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
     type Item = Result<Node<'xml>, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.done {
+        let pending = mem::take(&mut self.pending);
+        if self.done && !pending {
             return None;
         }
 
-- 
2.43.0


From cdd92272ef650ee554dce6aa1dc82473ba058c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:00 +0000
Subject: [PATCH 07/41] fix: keep all text around child elements in AnyElement

---
 instant-xml/src/any_element.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index 8b84483..274bf7f 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -105,7 +105,10 @@ impl<'a> AnyElement<'a> {
                     elem.children
                         .push(Self::deserialize(&mut nested, child_id)?);
                 }
-                Some(Ok(Node::Text(text))) => elem.text = Some(text),
+                Some(Ok(Node::Text(text))) => match &mut elem.text {
+                    Some(existing) => existing.to_mut().push_str(&text),
+                    None => elem.text = Some(text),
+                },
                 Some(Ok(Node::Close { .. })) => break,
                 Some(Ok(_)) => continue,
                 Some(Err(e)) => return Err(e),
-- 
2.43.0


From 59435a3379c5b224f8c8f8617269f8387bd406f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 08/41] fix: forward ToXml::present() through references and
 boxes

---
 instant-xml/src/impls.rs | 4 ++++
 instant-xml/src/lib.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 6d07e74..846736a 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -525,6 +525,10 @@ impl<T: ToXml + ?Sized> ToXml for Box<T> {
     ) -> Result<(), Error> {
         self.as_ref().serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        self.as_ref().present()
+    }
 }
 
 impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Box<T> {
diff --git a/instant-xml/src/lib.rs b/instant-xml/src/lib.rs
index e44e3e2..e672ff0 100644
--- a/instant-xml/src/lib.rs
+++ b/instant-xml/src/lib.rs
@@ -369,6 +369,10 @@ impl<T: ToXml + ?Sized> ToXml for &T {
     ) -> Result<(), Error> {
         (*self).serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        (*self).present()
+    }
 }
 
 /// Deserialize a type from XML
-- 
2.43.0


From 53e3bf558188c5f1ee584f69d57ee45d9573577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:19 +0000
Subject: [PATCH 09/41] fix: escape the output of display_to_xml

---
 instant-xml/src/impls.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 846736a..c93ea66 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -131,7 +131,9 @@ pub fn display_to_xml(
     field: Option<Id<'_>>,
     serializer: &mut Serializer<'_, impl fmt::Write + ?Sized>,
 ) -> Result<(), Error> {
-    DisplayToXml(value).serialize(field, serializer)
+    let mut text = String::new();
+    fmt::write(&mut text, format_args!("{value}"))?;
+    DisplayToXml(&encode(&text)?).serialize(field, serializer)
 }
 
 struct DisplayToXml<'a, T: fmt::Display>(pub &'a T);
-- 
2.43.0


From 0b0e852a367d5ad4915ecfecd776244f79bd8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:38 +0000
Subject: [PATCH 10/41] fix: escape the serialized names of scalar enum
 variants

---
 instant-xml-macros/src/ser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 445214a..7c3b19b 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -75,7 +75,8 @@ fn serialize_scalar_enum(
                     None => None,
                 };
 
-                serializer.write_str(match self { #variants })?;
+                let value: &str = match self { #variants };
+                <str as ::instant_xml::ToXml>::serialize(value, None, serializer)?;
                 if let Some(element) = element {
                     serializer.write_close(element)?;
                 }
-- 
2.43.0


From 0d642255f8693d36d732270a576d4729512fe3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 11/41] fix: do not close the element early if its direct field
 is absent but it has child elements

---
 instant-xml-macros/src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 7c3b19b..f450630 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -317,6 +317,7 @@ impl StructOutput {
             .map_err(|err| err.to_compile_error())?;
 
         let mut attrs_only = true;
+        let mut elements = false;
         let mut direct = None;
         for (field, field_meta) in &fields {
             if !field_meta.attribute {
@@ -332,9 +333,13 @@ impl StructOutput {
 
             if field_meta.direct {
                 direct = Some(field.ident.as_ref().unwrap());
+            } else if !field_meta.attribute {
+                elements = true;
             }
         }
 
+        // The element is only empty without its direct field if there are no child elements
+        let direct = direct.filter(|_| !elements);
         if !inline {
             self.body.extend(match (attrs_only, direct) {
                 (true, _) => quote!(serializer.end_empty()?;),
-- 
2.43.0


From dd3ff38d17b0d42a243c84e8b282e17105059228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 12/41] fix: use the declared prefix for attributes in the
 container's own namespace

---
 instant-xml/src/ser.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 03703f9..680a3c8 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -162,16 +162,14 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Err(Error::UnexpectedState("invalid state for attribute"));
         }
 
+        // The default namespace does not apply to attributes, so use a prefix if there is one
         let attr_ns = self.attribute_ns.unwrap_or(self.default_ns);
-        match ns.is_empty() || ns == attr_ns {
-            true => self.output.write_fmt(format_args!(" {name}=\""))?,
-            false => {
-                let prefix = self
-                    .prefixes
-                    .get(ns)
-                    .ok_or(Error::UnexpectedState("unknown prefix"))?;
-                self.output.write_fmt(format_args!(" {prefix}:{name}=\""))?;
+        match (ns.is_empty(), self.prefixes.get(ns)) {
+            (false, Some(prefix)) => self.output.write_fmt(format_args!(" {prefix}:{name}=\""))?,
+            (false, None) if ns != attr_ns => {
+                return Err(Error::UnexpectedState("unknown prefix"));
             }
+            _ => self.output.write_fmt(format_args!(" {name}=\""))?,
         }
 
         self.state = State::Scalar;
-- 
2.43.0


From 0c68b09af80088c217b336a886f3a76bf25cbc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 13/41] fix: restore the namespace context after an empty
 element

---
 instant-xml/src/ser.rs | 47 ++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 680a3c8..b5cb85e 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -23,6 +23,8 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// This might be different from the default namespace for child elements in case of
     /// `force_prefix`.
     attribute_ns: Option<&'static str>,
+    /// Namespace context around the element whose start tag is being written
+    outer: Option<Outer>,
     state: State,
 }
 
@@ -34,6 +36,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             prefixes: HashMap::new(),
             default_ns: "",
             attribute_ns: None,
+            outer: None,
             state: State::Element,
         }
     }
@@ -101,6 +104,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         self.state = State::Attribute;
         self.attribute_ns = cx.as_ref().map(|cx| cx.default_ns);
+        self.outer = None;
         let Some(cx) = cx else {
             return Ok(Element {
                 prefix,
@@ -144,6 +148,11 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             used += 1;
         }
 
+        self.outer = Some(Outer {
+            default_ns: old.default_ns,
+            prefixes: old.prefixes[..used].to_vec(),
+        });
+
         Ok(Element {
             prefix,
             name,
@@ -198,6 +207,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         self.output.write_char('>')?;
         self.attribute_ns = None;
+        self.outer = None;
         self.state = State::Element;
         Ok(())
     }
@@ -210,6 +220,9 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         self.output.write_str(" />")?;
         self.attribute_ns = None;
+        if let Some(outer) = self.outer.take() {
+            self.restore(outer.default_ns, &outer.prefixes);
+        }
         self.state = State::Element;
         Ok(())
     }
@@ -231,28 +244,23 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Ok(());
         };
 
-        let _ = mem::replace(&mut self.default_ns, old.default_ns);
-        for prefix in old.prefixes.into_iter() {
+        self.restore(old.default_ns, &old.prefixes);
+        Ok(())
+    }
+
+    /// Return to the namespace context outside of an element
+    fn restore(&mut self, default_ns: &'static str, prefixes: &[Prefix]) {
+        self.default_ns = default_ns;
+        for prefix in prefixes {
             if prefix.ns.is_empty() && prefix.prefix.is_empty() {
                 continue;
             }
 
-            let mut entry = match self.prefixes.entry(prefix.ns) {
-                Entry::Occupied(entry) => entry,
-                Entry::Vacant(_) => unreachable!(),
-            };
-
             match prefix.prefix {
-                "" => {
-                    entry.remove();
-                }
-                prev => {
-                    let _ = mem::replace(entry.get_mut(), prev);
-                }
-            }
+                "" => self.prefixes.remove(prefix.ns),
+                prev => self.prefixes.insert(prefix.ns, prev),
+            };
         }
-
-        Ok(())
     }
 
     /// Get the prefix for a namespace URI, if any
@@ -266,6 +274,13 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
     }
 }
 
+/// Namespace context outside of an element
+struct Outer {
+    default_ns: &'static str,
+    /// Prefixes to restore, or to remove if the prefix is empty
+    prefixes: Vec<Prefix>,
+}
+
 /// An element being serialized, used for tracking namespace context
 #[non_exhaustive]
 pub struct Element<'a, const N: usize> {
-- 
2.43.0


From d77096e13ec3f212a884a9ee8f82a5a5fe1fc96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 14/41] fix: do not use a prefix that is bound to another
 namespace by a descendant

---
 instant-xml/src/ser.rs | 58 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index b5cb85e..9719b4d 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -58,6 +58,10 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         let force_prefix = cx.as_ref().is_some_and(|cx| cx.force_prefix);
+        let hidden = match &cx {
+            Some(cx) => self.hide_redeclared(&cx.prefixes),
+            None => [Prefix::default(); N],
+        };
 
         let (prefix, update_default_ns) =
             match (ns == self.default_ns, self.prefixes.get(ns), force_prefix) {
@@ -110,6 +114,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 prefix,
                 name,
                 parent: None,
+                hidden,
             });
         };
 
@@ -151,12 +156,14 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         self.outer = Some(Outer {
             default_ns: old.default_ns,
             prefixes: old.prefixes[..used].to_vec(),
+            hidden: hidden.to_vec(),
         });
 
         Ok(Element {
             prefix,
             name,
             parent: Some(old),
+            hidden,
         })
     }
 
@@ -221,7 +228,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         self.output.write_str(" />")?;
         self.attribute_ns = None;
         if let Some(outer) = self.outer.take() {
-            self.restore(outer.default_ns, &outer.prefixes);
+            self.restore(outer.default_ns, &outer.prefixes, &outer.hidden);
         }
         self.state = State::Element;
         Ok(())
@@ -244,12 +251,49 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Ok(());
         };
 
-        self.restore(old.default_ns, &old.prefixes);
+        self.restore(old.default_ns, &old.prefixes, &element.hidden);
         Ok(())
     }
 
+    /// Remove mappings whose prefix is about to be declared for another namespace
+    ///
+    /// Returns the removed mappings.
+    fn hide_redeclared<const N: usize>(&mut self, prefixes: &[Prefix; N]) -> [Prefix; N] {
+        let mut hidden = [Prefix::default(); N];
+        // Hiding a mapping can make it necessary to declare another prefix, so start over
+        for slot in &mut hidden {
+            match self.redeclared(prefixes) {
+                Some(old) => {
+                    self.prefixes.remove(old.ns);
+                    *slot = old;
+                }
+                None => break,
+            }
+        }
+
+        hidden
+    }
+
+    /// Find a mapping whose prefix is about to be declared for another namespace
+    fn redeclared(&self, prefixes: &[Prefix]) -> Option<Prefix> {
+        prefixes
+            .iter()
+            .enumerate()
+            .filter(|(i, new)| {
+                !new.prefix.is_empty()
+                    && !self.prefixes.contains_key(new.ns)
+                    && !prefixes[..*i].iter().any(|p| p.ns == new.ns)
+            })
+            .find_map(|(_, new)| {
+                self.prefixes
+                    .iter()
+                    .find(|(_, prefix)| **prefix == new.prefix)
+                    .map(|(&ns, &prefix)| Prefix { prefix, ns })
+            })
+    }
+
     /// Return to the namespace context outside of an element
-    fn restore(&mut self, default_ns: &'static str, prefixes: &[Prefix]) {
+    fn restore(&mut self, default_ns: &'static str, prefixes: &[Prefix], hidden: &[Prefix]) {
         self.default_ns = default_ns;
         for prefix in prefixes {
             if prefix.ns.is_empty() && prefix.prefix.is_empty() {
@@ -261,6 +305,10 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 prev => self.prefixes.insert(prefix.ns, prev),
             };
         }
+
+        for prefix in hidden.iter().filter(|prefix| !prefix.prefix.is_empty()) {
+            self.prefixes.insert(prefix.ns, prefix.prefix);
+        }
     }
 
     /// Get the prefix for a namespace URI, if any
@@ -279,6 +327,8 @@ struct Outer {
     default_ns: &'static str,
     /// Prefixes to restore, or to remove if the prefix is empty
     prefixes: Vec<Prefix>,
+    /// Prefixes to restore because the element declared them for other namespaces
+    hidden: Vec<Prefix>,
 }
 
 /// An element being serialized, used for tracking namespace context
@@ -290,6 +340,8 @@ pub struct Element<'a, const N: usize> {
     pub name: &'a str,
     /// Namespace context of the parent element, if any
     pub parent: Option<Context<N>>,
+    /// Mappings of the parent element hidden by declarations of this element
+    hidden: [Prefix; N],
 }
 
 /// Namespace context for serialization
-- 
2.43.0


From f88227a0a537eaa98e15a2c2b3a5d3ea36929b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 15/41] fix: omit the r# of raw identifiers from struct and
 variant names

---
 instant-xml-macros/src/case.rs | 6 +++++-
 instant-xml-macros/src/de.rs   | 6 +++++-
 instant-xml-macros/src/lib.rs  | 3 ++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/instant-xml-macros/src/case.rs b/instant-xml-macros/src/case.rs
index 42908d2..f4165c3 100644
--- a/instant-xml-macros/src/case.rs
+++ b/instant-xml-macros/src/case.rs
@@ -66,7 +66,11 @@ impl RenameRule {
 
     /// Apply a renaming rule to an enum variant, returning the version expected in the source.
     pub(crate) fn apply_to_variant(&self, ident: &Ident) -> String {
-        let variant = ident.to_string();
+        let mut variant = ident.to_string();
+        if variant.starts_with("r#") {
+            variant = variant[2..].to_string();
+        }
+
         match *self {
             None | PascalCase => variant,
             LowerCase => variant.to_ascii_lowercase(),
diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 29b2001..3681d1b 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -2,6 +2,7 @@ use std::collections::BTreeSet;
 
 use proc_macro2::{Ident, Literal, Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 
 use super::{
@@ -483,7 +484,10 @@ fn deserialize_inline_struct(
 
     // Attributes
     let ident = &input.ident;
-    let accumulator = Ident::new(&format!("__{ident}Accumulator"), Span::call_site());
+    let accumulator = Ident::new(
+        &format!("__{}Accumulator", ident.unraw()),
+        Span::call_site(),
+    );
     let generics = meta.xml_generics(borrowed);
 
     let (xml_impl_generics, xml_ty_generics, _) = generics.split_for_impl();
diff --git a/instant-xml-macros/src/lib.rs b/instant-xml-macros/src/lib.rs
index 92fca8c..bf1d4f0 100644
--- a/instant-xml-macros/src/lib.rs
+++ b/instant-xml-macros/src/lib.rs
@@ -8,6 +8,7 @@ use std::mem;
 
 use proc_macro2::{Literal, Span, TokenStream};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{parse_macro_input, DeriveInput, GenericParam, Generics};
 
@@ -116,7 +117,7 @@ impl<'input> ContainerMeta<'input> {
     fn tag(&self) -> TokenStream {
         match &self.rename {
             Some(name) => quote!(#name),
-            None => self.input.ident.to_string().into_token_stream(),
+            None => self.input.ident.unraw().to_string().into_token_stream(),
         }
     }
 
-- 
2.43.0


From a43a870f101f2f86cfe8e694b7ba5085fbf6c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:12 +0000
Subject: [PATCH 16/41] fix: accept dashes and dots in the first prefix of ns()
 without a URI

---
 instant-xml-macros/src/meta.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index 56d145c..0465196 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -131,6 +131,19 @@ impl NamespaceMeta {
                         prefix: segment.ident.to_string(),
                     }
                 }
+                // The first item is a prefix rather than a namespace path
+                (
+                    NsState::Path {
+                        colon1: None,
+                        colon2: None,
+                        path: Some(path),
+                    },
+                    TokenTree::Punct(punct),
+                ) if matches!(punct.as_char(), '-' | '.') && path.get_ident().is_some() => {
+                    NsState::Eq {
+                        prefix: format!("{}{}", path.segments[0].ident, punct.as_char()),
+                    }
+                }
                 (NsState::Prefix, TokenTree::Ident(id)) => NsState::Eq {
                     prefix: id.to_string(),
                 },
-- 
2.43.0


From b92128f733b71740ec891c5005bf5d16b5c62436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:34 +0000
Subject: [PATCH 17/41] fix: report repeated single-valued elements of derived
 types as duplicates

---
 instant-xml-macros/src/de.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 3681d1b..266b874 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -197,6 +197,10 @@ fn deserialize_forward_enum(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 let id = deserializer.parent();
                 #variants else {
                     return Err(Error::UnexpectedTag(format!("{:?}", id)));
@@ -319,6 +323,10 @@ fn deserialize_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 enum __Elements {
                     #elements_enum
                     __Ignore,
@@ -778,6 +786,10 @@ fn deserialize_tuple_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 #declare_values
                 deserializer.ignore()?;
 
@@ -853,6 +865,10 @@ fn deserialize_unit_struct(input: &syn::DeriveInput, meta: &ContainerMeta<'_>) -
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
+                if into.is_some() {
+                    return Err(::instant_xml::Error::DuplicateValue(field));
+                }
+
                 deserializer.ignore()?;
                 *into = Some(Self);
                 Ok(())
-- 
2.43.0


From 0704a3333990cad2540f6427895447824465212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 18/41] fix: support deserialize_with and borrow on attribute
 fields

---
 instant-xml-macros/src/de.rs |  2 +-
 instant-xml/src/de.rs        | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 266b874..a5e64d1 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -682,7 +682,7 @@ fn named_field<'a>(
         if let Some(with) = &deserialize_with {
             tokens.r#match.extend(quote!(
                 __Attributes::#enum_name => {
-                    let mut nested = deserializer.nested(data);
+                    let mut nested = deserializer.for_attribute(attr.value);
                     #with(&mut #val_name, #field_str, &mut nested)?;
                 },
             ));
diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 8be62a9..f3c6653 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -125,6 +125,17 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
         }
     }
 
+    /// Create a deserializer that will yield only the given attribute value
+    #[doc(hidden)]
+    pub fn for_attribute<'a>(&'a mut self, value: Cow<'xml, str>) -> Deserializer<'a, 'xml>
+    where
+        'cx: 'a,
+    {
+        let mut nested = self.for_node(Node::AttributeValue(value));
+        nested.done = true;
+        nested
+    }
+
     /// Extract a string value from the current node
     ///
     /// Consumes a text node or attribute value, returning the content as a string.
-- 
2.43.0


From f1660c232103484fed10d299fa4863d63d140f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:15 +0000
Subject: [PATCH 19/41] fix: read empty elements into borrowed strings

---
 instant-xml/src/de.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index f3c6653..23158fd 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -491,7 +491,8 @@ pub fn borrow_cow_str<'a, 'xml: 'a>(
 
     match deserializer.take_str()? {
         Some(value) => into.inner = Some(value),
-        None => return Ok(()),
+        // An empty element holds the empty string
+        None => into.inner = Some(Cow::Borrowed("")),
     };
 
     deserializer.ignore()?;
@@ -510,12 +511,12 @@ pub fn borrow_cow_slice_u8<'xml>(
         return Err(Error::DuplicateValue(field));
     }
 
-    if let Some(value) = deserializer.take_str()? {
-        *into = Some(match value {
-            Cow::Borrowed(v) => Cow::Borrowed(v.as_bytes()),
-            Cow::Owned(v) => Cow::Owned(v.into_bytes()),
-        });
-    }
+    *into = Some(match deserializer.take_str()? {
+        Some(Cow::Borrowed(v)) => Cow::Borrowed(v.as_bytes()),
+        Some(Cow::Owned(v)) => Cow::Owned(v.into_bytes()),
+        // An empty element holds the empty string
+        None => Cow::Borrowed(&[]),
+    });
 
     deserializer.ignore()?;
     Ok(())
-- 
2.43.0


From 3dcdd640a91ac50a93af6a132ae5f97472e8204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 20/41] fix: match the child elements of tuple structs and skip
 unrelated content

---
 instant-xml-macros/src/de.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index a5e64d1..fd0fd09 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -819,18 +819,27 @@ fn unnamed_field(
     let field_str = format!("{type_name}::{index}");
     declare_values.extend(quote!(
         let #name = match <#no_lifetime_type as FromXml>::KIND {
-            Kind::Element => match deserializer.next() {
-                Some(Ok(Node::Open(data))) => {
-                    let mut nested = deserializer.nested(data);
-                    let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
-                    <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, &mut nested)?;
-                    nested.ignore()?;
-                    value
+            Kind::Element => loop {
+                match deserializer.next() {
+                    Some(Ok(Node::Open(data))) => {
+                        let id = deserializer.element_id(&data)?;
+                        let mut nested = deserializer.nested(data);
+                        if !<#no_lifetime_type as FromXml>::matches(id, None) {
+                            nested.ignore()?;
+                            continue;
+                        }
+
+                        let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
+                        <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, &mut nested)?;
+                        nested.ignore()?;
+                        break value;
+                    }
+                    Some(Ok(Node::Attribute(_) | Node::Text(_))) => continue,
+                    Some(Ok(node)) => return Err(Error::UnexpectedNode(format!("{:?}", node))),
+                    Some(Err(e)) => return Err(e),
+                    None => break Default::default(),
                 }
-                Some(Ok(node)) => return Err(Error::UnexpectedNode(format!("{:?}", node))),
-                Some(Err(e)) => return Err(e),
-                None => return Err(Error::MissingValue(#field_str)),
-            }
+            },
             Kind::Scalar => {
                 let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
                 <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, deserializer)?;
-- 
2.43.0


From 131f26f24ab4db6c071d1e0dac5ef280d3c14964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 21/41] fix: do not panic on camelCase names starting with a
 non-ASCII character

---
 instant-xml-macros/src/case.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/case.rs b/instant-xml-macros/src/case.rs
index f4165c3..0f4fcdd 100644
--- a/instant-xml-macros/src/case.rs
+++ b/instant-xml-macros/src/case.rs
@@ -75,7 +75,7 @@ impl RenameRule {
             None | PascalCase => variant,
             LowerCase => variant.to_ascii_lowercase(),
             UpperCase => variant.to_ascii_uppercase(),
-            CamelCase => variant[..1].to_ascii_lowercase() + &variant[1..],
+            CamelCase => lowercase_first(&variant),
             SnakeCase => {
                 let mut snake = String::new();
                 for (i, ch) in variant.char_indices() {
@@ -119,7 +119,7 @@ impl RenameRule {
             }
             CamelCase => {
                 let pascal = PascalCase.apply_to_field(ident);
-                pascal[..1].to_ascii_lowercase() + &pascal[1..]
+                lowercase_first(&pascal)
             }
             ScreamingSnakeCase => field.to_ascii_uppercase(),
             KebabCase => field.replace('_', "-"),
@@ -128,6 +128,15 @@ impl RenameRule {
     }
 }
 
+/// Convert the first character to lower case, if it is an ASCII letter
+fn lowercase_first(s: &str) -> String {
+    let mut chars = s.chars();
+    match chars.next() {
+        Some(first) => first.to_ascii_lowercase().to_string() + chars.as_str(),
+        _ => String::new(),
+    }
+}
+
 pub(crate) struct ParseError<'a> {
     unknown: &'a str,
 }
-- 
2.43.0


From 349e3fa76d08a654b9b8bdbfe5fb9e2fcdfe2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:23 +0000
Subject: [PATCH 22/41] fix: allow deserialize_with functions to leave the end
 of their element unread

---
 instant-xml-macros/src/de.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index fd0fd09..ffc8070 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -473,6 +473,7 @@ fn deserialize_inline_struct(
             deserialize.extend(
                 quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
                     #with(&mut into.#field_name, #field_str, deserializer)?;
+                    deserializer.ignore()?;
                 }),
             );
         } else {
@@ -646,6 +647,7 @@ fn named_field<'a>(
                 __Elements::#enum_name => {
                     let mut nested = deserializer.nested(data);
                     #with(&mut #val_name, #field_str, &mut nested)?;
+                    nested.ignore()?;
                 },
             ));
         } else if field_meta.direct {
-- 
2.43.0


From 4f2f68461ccf21df3fa5863b745520a630e43bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 23/41] fix: allow field types named like the items used by
 derived FromXml impls

---
 instant-xml-macros/src/de.rs | 65 +++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index ffc8070..f2cb4b6 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -92,20 +92,19 @@ fn deserialize_scalar_enum(
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::Error;
 
                 if into.is_some() {
-                    return Err(Error::DuplicateValue(field));
+                    return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
                 let cow_str = match deserializer.take_str()? {
                     Some(val) => val,
-                    None => return Err(Error::MissingValue(#type_str)),
+                    None => return Err(::instant_xml::Error::MissingValue(#type_str)),
                 };
 
                 let value = match cow_str.as_ref() {
                     #variants
-                    _ => return Err(Error::UnexpectedValue(
+                    _ => return Err(::instant_xml::Error::UnexpectedValue(
                         format!("enum variant not found for '{}' in field {}", cow_str, field),
                     )),
                 };
@@ -194,20 +193,19 @@ fn deserialize_forward_enum(
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::de::Node;
-                use ::instant_xml::{Accumulate, Error, FromXml};
+                use ::instant_xml::{Accumulate as _, FromXml};
 
                 if into.is_some() {
-                    return Err(Error::DuplicateValue(field));
+                    return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
                 let id = deserializer.parent();
                 #variants else {
-                    return Err(Error::UnexpectedTag(format!("{:?}", id)));
+                    return Err(::instant_xml::Error::UnexpectedTag(format!("{:?}", id)));
                 };
 
                 if let Some(_) = deserializer.next() {
-                    return Err(Error::UnexpectedState("unexpected node after wrapped enum variant"));
+                    return Err(::instant_xml::Error::UnexpectedState("unexpected node after wrapped enum variant"));
                 }
 
                 Ok(())
@@ -276,7 +274,7 @@ fn deserialize_struct(
     }
 
     if direct.is_empty() {
-        direct.extend(quote!(Node::Text(_) => {
+        direct.extend(quote!(::instant_xml::de::Node::Text(_) => {
             // no direct field, ignore
         }));
     }
@@ -320,11 +318,10 @@ fn deserialize_struct(
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::de::Node;
-                use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
+                use ::instant_xml::{Accumulate as _, FromXml};
 
                 if into.is_some() {
-                    return Err(Error::DuplicateValue(field));
+                    return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
                 enum __Elements {
@@ -345,7 +342,7 @@ fn deserialize_struct(
                     };
 
                     match node {
-                        Node::Attribute(attr) => {
+                        ::instant_xml::de::Node::Attribute(attr) => {
                             let id = deserializer.attribute_id(&attr)?;
                             let field = #attributes_branches;
 
@@ -354,7 +351,7 @@ fn deserialize_struct(
                                 __Attributes::__Ignore => {}
                             }
                         }
-                        Node::Open(data) => {
+                        ::instant_xml::de::Node::Open(data) => {
                             let id = deserializer.element_id(&data)?;
                             let element = #elements_branches;
 
@@ -367,7 +364,7 @@ fn deserialize_struct(
                             }
                         }
                         #direct
-                        node => return Err(Error::UnexpectedNode(format!("{:?} in {}", node, #ident_str))),
+                        node => return Err(::instant_xml::Error::UnexpectedNode(format!("{:?} in {}", node, #ident_str))),
                     }
                 }
 
@@ -479,10 +476,10 @@ fn deserialize_inline_struct(
         } else {
             deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
                 match <#field_ty as FromXml>::KIND {
-                    Kind::Element => {
+                    ::instant_xml::Kind::Element => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
                     }
-                    Kind::Scalar => {
+                    ::instant_xml::Kind::Scalar => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
                         deserializer.ignore()?;
                     }
@@ -515,7 +512,6 @@ fn deserialize_inline_struct(
                 _: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::Kind;
 
                 let current = deserializer.parent();
                 #deserialize
@@ -597,7 +593,7 @@ fn named_field<'a>(
             tokens.branches.extend(quote!(else));
         }
         tokens.branches.extend(quote!(
-            if <#no_lifetime_type as FromXml>::matches(id, Some(Id { ns: #ns, name: #field_tag }))
+            if <#no_lifetime_type as FromXml>::matches(id, Some(::instant_xml::Id { ns: #ns, name: #field_tag }))
         ));
 
         tokens.branches.extend(match field_meta.attribute {
@@ -652,20 +648,20 @@ fn named_field<'a>(
             ));
         } else if field_meta.direct {
             direct.extend(quote!(
-                Node::Text(text) => {
+                ::instant_xml::de::Node::Text(text) => {
                     seen_direct = true;
-                    let mut nested = deserializer.for_node(Node::Text(text));
+                    let mut nested = deserializer.for_node(::instant_xml::de::Node::Text(text));
                     <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
                 }
             ));
         } else {
             tokens.r#match.extend(quote!(
                 __Elements::#enum_name => match <#no_lifetime_type as FromXml>::KIND {
-                    Kind::Element => {
+                    ::instant_xml::Kind::Element => {
                         let mut nested = deserializer.nested(data);
                         <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
                     }
-                    Kind::Scalar => {
+                    ::instant_xml::Kind::Scalar => {
                         let mut nested = deserializer.nested(data);
                         <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
                         nested.ignore()?;
@@ -691,7 +687,7 @@ fn named_field<'a>(
         } else {
             tokens.r#match.extend(quote!(
                 __Attributes::#enum_name => {
-                    let mut nested = deserializer.for_node(Node::AttributeValue(attr.value));
+                    let mut nested = deserializer.for_node(::instant_xml::de::Node::AttributeValue(attr.value));
                     let new = <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
                 },
             ));
@@ -706,9 +702,9 @@ fn named_field<'a>(
         return_val.extend(quote!(
             #field_name: match #val_name.try_done(#field_str) {
                 Ok(value) => value,
-                Err(Error::MissingValue(_)) => {
+                Err(::instant_xml::Error::MissingValue(_)) => {
                     let mut acc = <#no_lifetime_type as FromXml>::Accumulator::default();
-                    let mut nested = deserializer.for_node(Node::Text("".into()));
+                    let mut nested = deserializer.for_node(::instant_xml::de::Node::Text("".into()));
                     <#no_lifetime_type as FromXml>::deserialize(&mut acc, #field_str, &mut nested)?;
                     acc.try_done(#field_str)?
                 }
@@ -785,11 +781,10 @@ fn deserialize_tuple_struct(
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::de::Node;
-                use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
+                use ::instant_xml::{Accumulate as _, FromXml};
 
                 if into.is_some() {
-                    return Err(Error::DuplicateValue(field));
+                    return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
                 #declare_values
@@ -821,9 +816,9 @@ fn unnamed_field(
     let field_str = format!("{type_name}::{index}");
     declare_values.extend(quote!(
         let #name = match <#no_lifetime_type as FromXml>::KIND {
-            Kind::Element => loop {
+            ::instant_xml::Kind::Element => loop {
                 match deserializer.next() {
-                    Some(Ok(Node::Open(data))) => {
+                    Some(Ok(::instant_xml::de::Node::Open(data))) => {
                         let id = deserializer.element_id(&data)?;
                         let mut nested = deserializer.nested(data);
                         if !<#no_lifetime_type as FromXml>::matches(id, None) {
@@ -836,13 +831,13 @@ fn unnamed_field(
                         nested.ignore()?;
                         break value;
                     }
-                    Some(Ok(Node::Attribute(_) | Node::Text(_))) => continue,
-                    Some(Ok(node)) => return Err(Error::UnexpectedNode(format!("{:?}", node))),
+                    Some(Ok(::instant_xml::de::Node::Attribute(_) | ::instant_xml::de::Node::Text(_))) => continue,
+                    Some(Ok(node)) => return Err(::instant_xml::Error::UnexpectedNode(format!("{:?}", node))),
                     Some(Err(e)) => return Err(e),
                     None => break Default::default(),
                 }
             },
-            Kind::Scalar => {
+            ::instant_xml::Kind::Scalar => {
                 let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
                 <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, deserializer)?;
                 value
-- 
2.43.0


From 2639dceb9b349148281793648325c3c7633fc515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 24/41] fix: keep rejecting markup in attribute values after
 write_str

---
 instant-xml/src/ser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 9719b4d..36f9be0 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -202,7 +202,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         self.output.write_fmt(format_args!("{value}"))?;
-        self.state = State::Element;
         Ok(())
     }
 
-- 
2.43.0


From 3b76c8f1e27d97088de18075c3257ed8e3f67193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 25/41] fix: do not overflow when a deserializer outlives its
 element

---
 instant-xml/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 23158fd..e318939 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -196,7 +196,7 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
             }
         };
 
-        if self.context.stack.len() == self.level - 1
+        if self.context.stack.len() + 1 == self.level
             && local == self.parent.local
             && prefix == self.parent.prefix
         {
-- 
2.43.0


From 9a68e9e73e9caae25e93f5ea0efd827073aa0982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 26/41] fix: from_xml_str accepts the empty representation of a
 type

A value that displays as nothing is written as an element without text,
which yields no text node: reading it back failed with MissingValue.
---
 instant-xml/src/impls.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index c93ea66..7a8d017 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -26,6 +26,8 @@ pub fn from_xml_str<T: FromStr>(
     }
 
     let Some(value) = deserializer.take_str()? else {
+        // An element without text yields no text node, but the type may have an empty representation
+        *into = T::from_str("").ok();
         return Ok(());
     };
 
-- 
2.43.0


From 2d46c92c831ea53e4e7dc8f98672f3d3ce5c3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 27/41] fix: discard what an attribute's deserialize_with did
 not read

---
 instant-xml-macros/src/de.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index f2cb4b6..4017e0a 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -682,6 +682,7 @@ fn named_field<'a>(
                 __Attributes::#enum_name => {
                     let mut nested = deserializer.for_attribute(attr.value);
                     #with(&mut #val_name, #field_str, &mut nested)?;
+                    nested.ignore()?;
                 },
             ));
         } else {
-- 
2.43.0


From 3a33e19c0922abdde4ab2c56340e3bc0c5061b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:23 +0000
Subject: [PATCH 28/41] fix: an empty element in a Box is a missing value like
 without the Box

Option<Box<u8>> failed with MissingValue where Option<u8> is None.
---
 instant-xml/src/impls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 7a8d017..1aedfca 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -552,7 +552,12 @@ impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Box<T> {
 
         let mut value = T::Accumulator::default();
         T::deserialize(&mut value, field, deserializer)?;
-        *into = Some(Self::new(value.try_done(field)?));
+        match value.try_done(field) {
+            Ok(value) => *into = Some(Self::new(value)),
+            // Like for `T` itself, it is up to the accumulator to report a missing value
+            Err(Error::MissingValue(_)) => {}
+            Err(err) => return Err(err),
+        }
 
         Ok(())
     }
-- 
2.43.0


From 432a61c61da2e435647af8b86c3cff19e1290912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:02 +0000
Subject: [PATCH 29/41] fix: derive FromXml for generic transparent structs

---
 instant-xml-macros/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 4017e0a..7acda92 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -523,7 +523,7 @@ fn deserialize_inline_struct(
             const KIND: ::instant_xml::Kind = ::instant_xml::Kind::Element;
         }
 
-        #visibility struct #accumulator #xml_ty_generics #where_clause {
+        #visibility struct #accumulator #xml_impl_generics #where_clause {
             #acc_field_defs
         }
 
-- 
2.43.0


From 85a37f0b457e934e2a2e551e5a2d3213a6ab1a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:06 +0000
Subject: [PATCH 30/41] fix: derive ToXml for types with a parameter named W

---
 instant-xml-macros/src/ser.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index f450630..4a3aac2 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -61,10 +61,10 @@ fn serialize_scalar_enum(
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     quote!(
         impl #impl_generics ToXml for #ident #ty_generics #where_clause {
-            fn serialize<W: ::core::fmt::Write + ?::core::marker::Sized>(
+            fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
                 field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<W>,
+                serializer: &mut instant_xml::Serializer<__W>,
             ) -> ::std::result::Result<(), instant_xml::Error> {
                 let element = match field {
                     Some(id) => {
@@ -149,10 +149,10 @@ fn serialize_forward_enum(
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
     quote!(
         impl #impl_generics ToXml for #ident #ty_generics #where_clause {
-            fn serialize<W: ::core::fmt::Write + ?::core::marker::Sized>(
+            fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
                 field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<W>,
+                serializer: &mut instant_xml::Serializer<__W>,
             ) -> ::std::result::Result<(), instant_xml::Error> {
                 match self {
                     #variants
@@ -212,10 +212,10 @@ fn serialize_struct(
 
     quote!(
         impl #impl_generics ToXml for #ident #ty_generics #where_clause {
-            fn serialize<W: ::core::fmt::Write + ?::core::marker::Sized>(
+            fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
                 field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<W>,
+                serializer: &mut instant_xml::Serializer<__W>,
             ) -> ::std::result::Result<(), instant_xml::Error> {
                 // Start tag
                 #context
@@ -283,10 +283,10 @@ fn serialize_inline_struct(
     let ident = &input.ident;
     quote!(
         impl #impl_generics ToXml for #ident #ty_generics #where_clause {
-            fn serialize<W: ::core::fmt::Write + ?::core::marker::Sized>(
+            fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
                 field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<W>,
+                serializer: &mut instant_xml::Serializer<__W>,
             ) -> ::std::result::Result<(), instant_xml::Error> {
                 #out
                 Ok(())
-- 
2.43.0


From 0e0fce44158495b3a7bfd1c718393d3730a4e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 31/41] fix: accept doc comments on the fields of a tuple
 struct

---
 instant-xml-macros/src/de.rs  | 2 +-
 instant-xml-macros/src/ser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 7acda92..1d3bbd0 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -744,7 +744,7 @@ fn deserialize_tuple_struct(
     let mut return_val = TokenStream::new();
     let mut borrowed = BTreeSet::new();
     for (index, field) in fields.unnamed.iter().enumerate() {
-        if !field.attrs.is_empty() {
+        if field.attrs.iter().any(|attr| attr.path().is_ident("xml")) {
             return syn::Error::new(
                 field.span(),
                 "attributes not allowed on tuple struct fields",
diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 4a3aac2..18818f0 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -504,7 +504,7 @@ impl StructOutput {
     }
 
     fn unnamed_field(&mut self, field: &syn::Field, index: usize) -> Result<(), syn::Error> {
-        if !field.attrs.is_empty() {
+        if field.attrs.iter().any(|attr| attr.path().is_ident("xml")) {
             return Err(syn::Error::new(
                 field.span(),
                 "unnamed fields cannot have attributes",
-- 
2.43.0


From fc71f1abde427726260f4c4825c3162430d34323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:51 +0000
Subject: [PATCH 32/41] fix: reject an xml attribute that ends after a key

---
 instant-xml-macros/src/meta.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index 0465196..eeb16d2 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -386,7 +386,10 @@ pub(crate) fn meta_items(attrs: &[syn::Attribute]) -> Vec<(MetaItem, Span)> {
         };
     }
 
-    items
+    match state {
+        MetaState::Start | MetaState::Comma => items,
+        state => panic!("invalid end state in xml attribute ({})", state.name()),
+    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 57339b17368d0ad3918f6516fc7be8d9a6f3c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 33/41] fix: read scalar fields of transparent structs

---
 instant-xml-macros/src/de.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 1d3bbd0..36d6edf 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -451,8 +451,9 @@ fn deserialize_inline_struct(
         }
 
         let field_ty = data.no_lifetime_type;
+        let field_id = data.id;
         matches.extend(quote!(
-            <#field_ty as FromXml<'xml>>::matches(id, None)
+            <#field_ty as FromXml<'xml>>::matches(id, Some(#field_id))
         ));
 
         let field_name = &field.ident;
@@ -468,13 +469,13 @@ fn deserialize_inline_struct(
         }
         if let Some(with) = data.deserialize_with {
             deserialize.extend(
-                quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+                quote!(if <#field_ty as FromXml<'xml>>::matches(current, Some(#field_id)) {
                     #with(&mut into.#field_name, #field_str, deserializer)?;
                     deserializer.ignore()?;
                 }),
             );
         } else {
-            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, Some(#field_id)) {
                 match <#field_ty as FromXml>::KIND {
                     ::instant_xml::Kind::Element => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
@@ -716,6 +717,7 @@ fn named_field<'a>(
 
     Ok(FieldData {
         field_name,
+        id: quote!(::instant_xml::Id { ns: #ns, name: #field_tag }),
         no_lifetime_type,
         deserialize_with,
     })
@@ -723,6 +725,8 @@ fn named_field<'a>(
 
 struct FieldData<'a> {
     field_name: &'a Ident,
+    /// Namespace and name of the field
+    id: TokenStream,
     no_lifetime_type: syn::Type,
     deserialize_with: Option<syn::Path>,
 }
-- 
2.43.0


From aee17a9e2c5f02f2f767ee8ad03f1e000c0719bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 34/41] fix: read scalar enum variants with an empty name

---
 instant-xml-macros/src/de.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 36d6edf..c1fc3d3 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -97,16 +97,16 @@ fn deserialize_scalar_enum(
                     return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
-                let cow_str = match deserializer.take_str()? {
-                    Some(val) => val,
-                    None => return Err(::instant_xml::Error::MissingValue(#type_str)),
-                };
-
-                let value = match cow_str.as_ref() {
+                let text = deserializer.take_str()?;
+                // An element without text yields no text node, but a variant may have an empty name
+                let value = match text.as_deref().unwrap_or("") {
                     #variants
-                    _ => return Err(::instant_xml::Error::UnexpectedValue(
-                        format!("enum variant not found for '{}' in field {}", cow_str, field),
-                    )),
+                    _ => return Err(match text {
+                        Some(text) => ::instant_xml::Error::UnexpectedValue(
+                            format!("enum variant not found for '{}' in field {}", text, field),
+                        ),
+                        None => ::instant_xml::Error::MissingValue(#type_str),
+                    }),
                 };
 
                 *into = Some(value);
-- 
2.43.0


From 2c8386b5e6a676f53126e4969ecd876fc139e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:15 +0000
Subject: [PATCH 35/41] fix: match attributes by their own namespace rather
 than their enum's

---
 instant-xml-macros/src/de.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index c1fc3d3..6117e35 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -593,13 +593,16 @@ fn named_field<'a>(
         if !tokens.branches.is_empty() {
             tokens.branches.extend(quote!(else));
         }
-        tokens.branches.extend(quote!(
-            if <#no_lifetime_type as FromXml>::matches(id, Some(::instant_xml::Id { ns: #ns, name: #field_tag }))
-        ));
-
         tokens.branches.extend(match field_meta.attribute {
-            true => quote!({ __Attributes::#enum_name }),
-            false => quote!({ __Elements::#enum_name }),
+            // The namespace of an attribute does not depend on the type of its value
+            true => quote!(
+                if id == (::instant_xml::Id { ns: #ns, name: #field_tag }) { __Attributes::#enum_name }
+            ),
+            false => quote!(
+                if <#no_lifetime_type as FromXml>::matches(id, Some(::instant_xml::Id { ns: #ns, name: #field_tag })) {
+                    __Elements::#enum_name
+                }
+            ),
         });
     }
 
-- 
2.43.0


From 0e0c445340cf93cfc298fb56e94de7b32ef31af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:12 +0000
Subject: [PATCH 36/41] fix: escape white space that parsers normalise

---
 instant-xml/src/impls.rs |  2 ++
 instant-xml/src/ser.rs   | 28 +++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 1aedfca..cdfd960 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -576,6 +576,8 @@ fn encode(input: &str) -> Result<Cow<'_, str>, Error> {
             '<' => "&lt;",
             '>' => "&gt;",
             '\'' => "&apos;",
+            // Parsers replace a literal carriage return by a line feed
+            '\r' => "&#13;",
             _ => continue,
         };
         result.push_str(input.get(last_end..start).unwrap());
diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 36f9be0..60c0cf2 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -201,7 +201,11 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Err(Error::UnexpectedState("invalid state for scalar"));
         }
 
-        self.output.write_fmt(format_args!("{value}"))?;
+        match self.state {
+            State::Scalar => fmt::write(&mut AttributeValue(self.output), format_args!("{value}"))?,
+            _ => self.output.write_fmt(format_args!("{value}"))?,
+        }
+
         Ok(())
     }
 
@@ -321,6 +325,28 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
     }
 }
 
+/// Writer for attribute values
+///
+/// Escapes the white space that parsers replace by spaces when it is written literally.
+struct AttributeValue<'a, W: ?Sized>(&'a mut W);
+
+impl<W: fmt::Write + ?Sized> fmt::Write for AttributeValue<'_, W> {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        let mut rest = s;
+        while let Some(at) = rest.find(['\t', '\n', '\r']) {
+            self.0.write_str(&rest[..at])?;
+            self.0.write_str(match rest.as_bytes()[at] {
+                b'\t' => "&#9;",
+                b'\n' => "&#10;",
+                _ => "&#13;",
+            })?;
+            rest = &rest[at + 1..];
+        }
+
+        self.0.write_str(rest)
+    }
+}
+
 /// Namespace context outside of an element
 struct Outer {
     default_ns: &'static str,
-- 
2.43.0


From 574f239e40c0eed3ab7a036bb3cbe19c5cb467a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 37/41] fix: discard lifetimes in field types substituted by a
 macro_rules! macro

---
 instant-xml-macros/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instant-xml-macros/src/lib.rs b/instant-xml-macros/src/lib.rs
index bf1d4f0..4998b75 100644
--- a/instant-xml-macros/src/lib.rs
+++ b/instant-xml-macros/src/lib.rs
@@ -263,6 +263,8 @@ fn discard_lifetimes(
 ) {
     match ty {
         syn::Type::Path(ty) => discard_path_lifetimes(ty, borrowed, borrow),
+        // A type substituted for a `$ty:ty` fragment of a `macro_rules!` macro
+        syn::Type::Group(ty) => discard_lifetimes(&mut ty.elem, borrowed, borrow, top),
         syn::Type::Reference(ty) => {
             if top {
                 // If at the top level, we'll want to borrow from `&'a str` and `&'a [u8]`.
-- 
2.43.0


From 65dc78457347a454d3c90d914e4a8f44d0dc7cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 38/41] fix: skip text and attribute values that a field's type
 leaves unread

A direct field of type () was read from the same text again and again.
---
 instant-xml-macros/src/de.rs | 11 +++++++----
 instant-xml/src/de.rs        | 18 +++++++++++++++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 6117e35..234930c 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -654,8 +654,9 @@ fn named_field<'a>(
             direct.extend(quote!(
                 ::instant_xml::de::Node::Text(text) => {
                     seen_direct = true;
-                    let mut nested = deserializer.for_node(::instant_xml::de::Node::Text(text));
+                    let mut nested = deserializer.for_text(text);
                     <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
+                    nested.ignore()?;
                 }
             ));
         } else {
@@ -692,8 +693,9 @@ fn named_field<'a>(
         } else {
             tokens.r#match.extend(quote!(
                 __Attributes::#enum_name => {
-                    let mut nested = deserializer.for_node(::instant_xml::de::Node::AttributeValue(attr.value));
-                    let new = <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
+                    let mut nested = deserializer.for_attribute(attr.value);
+                    <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
+                    nested.ignore()?;
                 },
             ));
         }
@@ -709,8 +711,9 @@ fn named_field<'a>(
                 Ok(value) => value,
                 Err(::instant_xml::Error::MissingValue(_)) => {
                     let mut acc = <#no_lifetime_type as FromXml>::Accumulator::default();
-                    let mut nested = deserializer.for_node(::instant_xml::de::Node::Text("".into()));
+                    let mut nested = deserializer.for_text("".into());
                     <#no_lifetime_type as FromXml>::deserialize(&mut acc, #field_str, &mut nested)?;
+                    nested.ignore()?;
                     acc.try_done(#field_str)?
                 }
                 Err(e) => return Err(e),
diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index e318939..1f3e27a 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -131,7 +131,23 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     where
         'cx: 'a,
     {
-        let mut nested = self.for_node(Node::AttributeValue(value));
+        self.for_value(Node::AttributeValue(value))
+    }
+
+    /// Create a deserializer that will yield only the given text
+    #[doc(hidden)]
+    pub fn for_text<'a>(&'a mut self, text: Cow<'xml, str>) -> Deserializer<'a, 'xml>
+    where
+        'cx: 'a,
+    {
+        self.for_value(Node::Text(text))
+    }
+
+    fn for_value<'a>(&'a mut self, node: Node<'xml>) -> Deserializer<'a, 'xml>
+    where
+        'cx: 'a,
+    {
+        let mut nested = self.for_node(node);
         nested.done = true;
         nested
     }
-- 
2.43.0


From 8e871b6184c645c3d2f46d8eda1069a6b1d71b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 39/41] fix: report a repeated AnyElement as a duplicate

---
 instant-xml/src/any_element.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index 274bf7f..73124ec 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -149,9 +149,13 @@ where
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _field: &'static str,
+        field: &'static str,
         deserializer: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         let id = deserializer.parent();
         *into = Some(Self::deserialize(deserializer, id)?);
         Ok(())
-- 
2.43.0


From d2d1479194ec2d35a9a63c5ff33129d2763cfbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 40/41] fix: report a repeated unit value as a duplicate

---
 instant-xml/src/impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index cdfd960..4de1f9b 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -832,9 +832,13 @@ impl<'xml> FromXml<'xml> for () {
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _: &'static str,
+        field: &'static str,
         _: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         *into = Some(());
         Ok(())
     }
-- 
2.43.0


From 8f62fc141c01269caefa8349c2099c40e54dd43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 41/41] fix: read all xml attributes of an item, not only the
 first

---
 instant-xml-macros/src/meta.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index eeb16d2..4217911 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -291,14 +291,17 @@ impl NamespaceMeta {
 }
 
 pub(crate) fn meta_items(attrs: &[syn::Attribute]) -> Vec<(MetaItem, Span)> {
-    let list = match attrs.iter().find(|attr| attr.path().is_ident("xml")) {
-        Some(attr) => match &attr.meta {
-            syn::Meta::List(list) => list,
+    attrs
+        .iter()
+        .filter(|attr| attr.path().is_ident("xml"))
+        .flat_map(|attr| match &attr.meta {
+            syn::Meta::List(list) => list_items(list),
             _ => panic!("expected list in xml attribute"),
-        },
-        None => return Vec::new(),
-    };
+        })
+        .collect()
+}
 
+fn list_items(list: &syn::MetaList) -> Vec<(MetaItem, Span)> {
     let mut items = Vec::new();
     let mut state = MetaState::Start;
     for tree in list.tokens.clone() {
-- 
2.43.0

