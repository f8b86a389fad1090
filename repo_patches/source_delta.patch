From 4f949fb31908f6c54024b7d8a0ad1eb1cac50061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:08 +0000
Subject: [PATCH 01/29] fix: a struct always consumes its own start element

A root element named like a field (and not like the struct) was matched as that
field, after which the loop spun forever on EndDocument.
---
 yaserde_derive/src/de/expand_struct.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index fca7486..db8540e 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -154,10 +154,6 @@ pub fn parse(
       let visit_struct = |struct_name: syn::Path, action: TokenStream| {
         Some(quote! {
           (#namespace, #label_name) => {
-            if depth == 0 {
-              // Don't count current struct's StartElement as substruct's StartElement
-              let _root = reader.next_event();
-            }
             if let Ok(::yaserde::__xml::reader::XmlEvent::StartElement { .. }) = reader.peek() {
               // If substruct's start element found then deserialize substruct
               let value = <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader)?;
@@ -421,9 +417,11 @@ pub fn parse(
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement{ref name, ref attributes, ..} => {
               let namespace = name.namespace.clone().unwrap_or_default();
-              if depth == 0 && name.local_name == #root && namespace.as_str() == #root_namespace {
+              if depth == 0
+                && (!#flatten || (name.local_name == #root && namespace.as_str() == #root_namespace))
+              {
                 // Consume root element. We must do this first. In the case it shares a name with a child element, we don't
-                // want to prematurely match the child element below.
+                // want to prematurely match the child element below. Only a flattened struct can have no element of its own.
                 let event = reader.next_event()?;
                 #write_unused
               } else {
@@ -460,6 +458,10 @@ pub fn parse(
               if #flatten {
                 break;
               }
+
+              return ::std::result::Result::Err(
+                ::std::format!("End of document, missing some content ?"),
+              );
             }
             ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
               #set_text
-- 
2.43.0


From 5f1edfcac7476db9b9b52b59244ebc4573d78556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:26 +0000
Subject: [PATCH 02/29] fix: read the whole of a simple element

An empty element was dropped (String "" did not round-trip), and when the content
could not be parsed the rest of the element was left to be taken for the parent's.
---
 yaserde_derive/src/de/expand_struct.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index db8540e..fa35723 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -508,18 +508,26 @@ fn build_call_visitor(
 
       #namespaces_matching
 
+      let field_depth = reader.depth();
       let result = reader.read_inner_value::<#field_type, _>(|reader| {
-        if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s)) = reader.peek() {
-          let val = visitor.#visitor(&s);
+        let mut content = ::std::string::String::new();
+        while let ::yaserde::__xml::reader::XmlEvent::Characters(s) = reader.peek()? {
+          content.push_str(s);
           let _event = reader.next_event()?;
-          val
-        } else {
-          ::std::result::Result::Err(::std::format!("unable to parse content for {}", #label_name))
         }
+        visitor.#visitor(&content)
       });
 
-      if let ::std::result::Result::Ok(value) = result {
-        #value_label#action
+      match result {
+        ::std::result::Result::Ok(value) => {
+          #value_label#action
+        }
+        ::std::result::Result::Err(_) => {
+          // Skip what is left of the element: its content must not be taken for ours
+          while reader.depth() > field_depth {
+            let _event = reader.next_event()?;
+          }
+        }
       }
     }
   })
-- 
2.43.0


From 2da5ea1d4fab285964333fc398925b2508b45d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:24 +0000
Subject: [PATCH 03/29] fix: leave a nested element completely after
 deserializing it

Enums and primitives stop before their end element; the rest then leaked into the
parent, and into the document handed to its flattened fields.
---
 yaserde_derive/src/de/expand_enum.rs   | 7 ++++++-
 yaserde_derive/src/de/expand_struct.rs | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 3134a07..c92362c 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -265,10 +265,15 @@ fn build_unnamed_visitor_calls(
 
       let call_struct_visitor = |struct_name, action| {
         Some(quote! {
+          let field_depth = reader.depth();
           match <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader) {
             Ok(value) => {
               #action;
-              let _root = reader.next_event();
+              // read EndElement, with whatever was left before it
+              let _event = reader.next_event()?;
+              while reader.depth() > field_depth {
+                let _event = reader.next_event()?;
+              }
             },
             Err(msg) => {
               return Err(msg);
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index fa35723..cc62476 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -156,10 +156,14 @@ pub fn parse(
           (#namespace, #label_name) => {
             if let Ok(::yaserde::__xml::reader::XmlEvent::StartElement { .. }) = reader.peek() {
               // If substruct's start element found then deserialize substruct
+              let field_depth = reader.depth();
               let value = <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader)?;
               #value_label #action;
-              // read EndElement
+              // read EndElement, with whatever was left before it
               let _event = reader.next_event()?;
+              while reader.depth() > field_depth {
+                let _event = reader.next_event()?;
+              }
             }
           }
         })
-- 
2.43.0


From dbdad3dc6cd2c2bcdda393c84e7c7bdc8652e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:49 +0000
Subject: [PATCH 04/29] fix: a variant payload that cannot be parsed is no
 reason to panic

It is ignored, as an unparsable element of a struct is, with all its content; and
"1" and "0" are booleans here as in a struct.
---
 yaserde_derive/src/de/expand_enum.rs | 46 +++++++++++++++++-----------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index c92362c..643f1cc 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -182,12 +182,22 @@ fn build_unnamed_field_visitors(fields: &syn::FieldsUnnamed) -> TokenStream {
 
       let simple_type_visitor = |simple_type: Field| {
         let visitor = simple_type.get_simple_type_visitor();
-        let field_type = simple_type.into();
+        let field_type: TokenStream = simple_type.into();
+
+        let map_if_bool = if field_type.to_string() == "bool" {
+          quote!(match v {
+            "1" => "true",
+            "0" => "false",
+            _ => v,
+          })
+        } else {
+          quote!(v)
+        };
 
         make_visitor(
           &visitor,
           &field_type,
-          &quote! { ::std::result::Result::Ok(#field_type::from_str(v).unwrap()) },
+          &quote! { #field_type::from_str(#map_if_bool).map_err(|e| e.to_string()) },
         )
       };
 
@@ -236,29 +246,29 @@ fn build_unnamed_visitor_calls(
         let visitor = simple_type.get_simple_type_visitor();
         let field_type: TokenStream = simple_type.into();
 
-        let label_name = format!("field_{}", idx);
-
         Some(quote! {
           let visitor = #visitor_label{};
 
+          let field_depth = reader.depth();
           let result = reader.read_inner_value::<#field_type, _>(|reader| {
-            if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
-              return visitor.#visitor("");
-            }
-
-            if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s))
-              = reader.next_event()
-            {
-              visitor.#visitor(&s)
-            } else {
-              ::std::result::Result::Err(
-                ::std::format!("unable to parse content for {}", #label_name),
-              )
+            let mut content = ::std::string::String::new();
+            while let ::yaserde::__xml::reader::XmlEvent::Characters(s) = reader.peek()? {
+              content.push_str(s);
+              let _event = reader.next_event()?;
             }
+            visitor.#visitor(&content)
           });
 
-          if let ::std::result::Result::Ok(value) = result {
-            #action
+          match result {
+            ::std::result::Result::Ok(value) => {
+              #action
+            }
+            ::std::result::Result::Err(_) => {
+              // Skip what is left of the element
+              while reader.depth() > field_depth {
+                let _event = reader.next_event()?;
+              }
+            }
           }
         })
       };
-- 
2.43.0


From 6f0be1c88a8b55c86dd66e6c1cd381e30f9822df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:06 +0000
Subject: [PATCH 05/29] fix: an enum is selected by its own content only

Its own element, the content of unknown elements and a text naming a variant with a
payload (which spun forever on a struct) do not select a variant, and the whole
element is read once the variant is known, so a truncated one is an error.
---
 yaserde_derive/src/de/expand_enum.rs | 52 +++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 643f1cc..1b712a8 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -17,6 +17,14 @@ pub fn parse(
     true,
   );
 
+  // A unit variant is also named by the text of the element
+  let match_text_to_enum: TokenStream = data_enum
+    .variants
+    .iter()
+    .filter(|variant| matches!(variant.fields, Fields::Unit))
+    .filter_map(|variant| parse_variant(variant, name))
+    .collect();
+
   let match_to_enum: TokenStream = data_enum
     .variants
     .iter()
@@ -24,6 +32,7 @@ pub fn parse(
     .collect();
 
   let flatten = root_attributes.flatten;
+  let has_own_element = !flatten && root_attributes.tag.is_none();
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
   let element_name = if let Some(tag) = &root_attributes.tag {
@@ -66,17 +75,19 @@ pub fn parse(
           ::yaserde::__derive_trace!("Enum {} @ {}: matching {:?}", stringify!(#name), start_depth, event);
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement { ref name, ref attributes, .. } => {
-              match #element_name {
-                #match_to_enum
-                _named_element => {
-                  let _root = reader.next_event();
-                }
-              }
-
-              if let ::yaserde::__xml::reader::XmlEvent::Characters(content) = reader.peek()?.to_owned() {
-                match content.as_str() {
+              if #has_own_element && reader.depth() == start_depth {
+                // The element of the enum itself names no variant
+                let _root = reader.next_event()?;
+              } else {
+                match #element_name {
                   #match_to_enum
-                  _ => {}
+                  _named_element => {
+                    let _root = reader.next_event()?;
+                    if reader.depth() > start_depth + 1 {
+                      // Nothing inside an unknown element names a variant either
+                      reader.skip_element(|_| {})?;
+                    }
+                  }
                 }
               }
             }
@@ -84,10 +95,15 @@ pub fn parse(
               if name.local_name == named_element && reader.depth() == start_depth + 1 {
                 break;
               }
-              let _root = reader.next_event();
+              let _root = reader.next_event()?;
             }
             ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
-              let _root = reader.next_event();
+              match text_content.as_str() {
+                #match_text_to_enum
+                _ => {
+                  let _root = reader.next_event()?;
+                }
+              }
             }
             ::yaserde::__xml::reader::XmlEvent::EndDocument => {
               if #flatten {
@@ -104,6 +120,18 @@ pub fn parse(
           }
         }
 
+        // Leave the reader at the end of the enum's own element
+        loop {
+          let depth = reader.depth();
+          match reader.peek()? {
+            ::yaserde::__xml::reader::XmlEvent::EndElement { .. } if depth == start_depth + 1 => break,
+            ::yaserde::__xml::reader::XmlEvent::EndDocument => break,
+            _ => {
+              let _event = reader.next_event()?;
+            }
+          }
+        }
+
         ::yaserde::__derive_debug!("Enum {} @ {}: success", stringify!(#name), start_depth);
         ::std::result::Result::Ok(enum_value.unwrap_or(<#name as ::std::default::Default>::default()))
       }
-- 
2.43.0


From 3fee09386f0eca7eff7fb9a5ba4afc5fe76553c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:11 +0000
Subject: [PATCH 06/29] fix: read the whole element of a derived primitive

A truncated one was taken for a complete (or empty) one.
---
 yaserde/src/primitives.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/yaserde/src/primitives.rs b/yaserde/src/primitives.rs
index 0d4107f..8950202 100644
--- a/yaserde/src/primitives.rs
+++ b/yaserde/src/primitives.rs
@@ -43,9 +43,20 @@ pub fn deserialize_primitives<S, R: Read>(
     return Err("Start element not found".to_string());
   }
 
-  if let Ok(xml::reader::XmlEvent::Characters(ref text)) = reader.peek() {
-    deserialize_function(text)
-  } else {
-    deserialize_function("")
+  let depth = reader.depth();
+  let mut text = String::new();
+  while let xml::reader::XmlEvent::Characters(ref content) = reader.peek()? {
+    text.push_str(content);
+    reader.next_event()?;
+  }
+  let value = deserialize_function(&text)?;
+
+  // Leave the reader at the end of the element
+  while reader.depth() > depth
+    || !matches!(reader.peek()?, xml::reader::XmlEvent::EndElement { .. })
+  {
+    reader.next_event()?;
   }
+
+  Ok(value)
 }
-- 
2.43.0


From 50f397fcf2c0f8f60e253ee2f169cbec3344d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:11 +0000
Subject: [PATCH 07/29] fix: report write errors of scalar values

---
 yaserde/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaserde/src/lib.rs b/yaserde/src/lib.rs
index 6c86ac9..06b0f61 100644
--- a/yaserde/src/lib.rs
+++ b/yaserde/src/lib.rs
@@ -177,8 +177,7 @@ macro_rules! serialize_type {
       fn serialize<W: Write>(&self, writer: &mut ser::Serializer<W>) -> Result<(), String> {
         let content = format!("{}", self);
         let event = XmlEvent::characters(&content);
-        let _ret = writer.write(event);
-        Ok(())
+        writer.write(event).map_err(|e| e.to_string())
       }
 
       fn serialize_attributes(
-- 
2.43.0


From be8d20335b656dae05f2c0d1eafa694fb1f1042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:10 +0000
Subject: [PATCH 08/29] fix: honour skip_serializing and skip_serializing_if on
 every kind of field

Attribute fields ignored the former, text fields and the attributes of flattened
fields both.
---
 yaserde_derive/src/common/field.rs      |  3 +++
 yaserde_derive/src/ser/expand_struct.rs | 33 ++++++++++++++++---------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 06f650c..becc047 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -186,6 +186,9 @@ impl YaSerdeField {
       .map(|skip_if_function| quote!(!self.#skip_if_function(&self.#label)))
       .unwrap_or(quote!(true));
 
+    let skip_serializing = self.is_skip_serializing();
+    let skip_if = quote!(!#skip_serializing && #skip_if);
+
     self
       .get_default_function()
       .map(|default_function| {
diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 2a4507b..5f05a07 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -121,15 +121,19 @@ pub fn serialize(
           }
         }
       } else {
+        let conditions = condition_generator(&label, &field);
+
         match field.get_type() {
           Field::FieldStruct { .. } => {
             quote!(
-              let (attributes, namespace) = self.#label.serialize_attributes(
-                ::std::vec![],
-                ::yaserde::__xml::namespace::Namespace::empty(),
-              )?;
-              child_attributes_namespace.extend(&namespace);
-              child_attributes.extend(attributes);
+              #conditions {
+                let (attributes, namespace) = self.#label.serialize_attributes(
+                  ::std::vec![],
+                  ::yaserde::__xml::namespace::Namespace::empty(),
+                )?;
+                child_attributes_namespace.extend(&namespace);
+                child_attributes.extend(attributes);
+              }
             )
           }
           _ => quote!(),
@@ -145,21 +149,26 @@ pub fn serialize(
     .filter(|field| !field.is_attribute())
     .filter_map(|field| {
       let label = field.label();
+      let conditions = condition_generator(&label, &field);
+
       if field.is_text_content() {
         return match field.get_type() {
           Field::FieldOption { .. } => Some(quote!(
-            let s = self.#label.as_deref().unwrap_or_default();
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let s = self.#label.as_deref().unwrap_or_default();
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
           _ => Some(quote!(
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
         };
       }
       let label_name = field.renamed_label(root_attributes);
-      let conditions = condition_generator(&label, &field);
 
       if field.is_cdata() {
         return quote! {
-- 
2.43.0


From 772f3f2375247a05797a680826f271c7c5fb8806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:10 +0000
Subject: [PATCH 09/29] fix: serialize the attributes of an optional flattened
 struct

---
 yaserde_derive/src/ser/expand_struct.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 5f05a07..e4e37fd 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -136,6 +136,20 @@ pub fn serialize(
               }
             )
           }
+          Field::FieldOption { data_type } if matches!(*data_type, Field::FieldStruct { .. }) => {
+            quote!(
+              #conditions {
+                if let ::std::option::Option::Some(ref item) = self.#label {
+                  let (attributes, namespace) = item.serialize_attributes(
+                    ::std::vec![],
+                    ::yaserde::__xml::namespace::Namespace::empty(),
+                  )?;
+                  child_attributes_namespace.extend(&namespace);
+                  child_attributes.extend(attributes);
+                }
+              }
+            )
+          }
           _ => quote!(),
         }
       }
-- 
2.43.0


From d18adc9d088b6ec4fa120718b0645e4a31a4913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:10 +0000
Subject: [PATCH 10/29] fix: keep a cdata section closed when its content holds
 ]]>

---
 yaserde_derive/src/ser/expand_struct.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index e4e37fd..ccec7a7 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -189,7 +189,9 @@ pub fn serialize(
             #conditions {
               let start_event = ::yaserde::__xml::writer::XmlEvent::start_element(#label_name);
               writer.write(start_event).map_err(|e| e.to_string())?;
-              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&self.#label);
+              // "]]>" would end the section: split it over two
+              let content = self.#label.replace("]]>", "]]]]><![CDATA[>");
+              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&content);
               writer.write(data).map_err(|e| e.to_string())?;
               let end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
               writer.write(end_event).map_err(|e| e.to_string())?;
-- 
2.43.0


From ea3e6703ba610700f976a097ea14a4f39dbb2fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:24 +0000
Subject: [PATCH 11/29] fix: HexBinaryYaSerde parses the hexadecimal it writes

---
 yaserde_derive/src/primitives.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index 386bf28..5fef1af 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -57,7 +57,8 @@ pub fn primitive_yaserde(input: TokenStream) -> TokenStream {
 
 pub fn hexbinary_serde(input: TokenStream) -> TokenStream {
   let first = input.clone();
-  let DeriveInput { ident, .. } = parse_macro_input!(first);
+  let ref di @ DeriveInput { ref ident, .. } = parse_macro_input!(first);
+  let bits = extract_path(di).unwrap();
   // Calculate number digits to determine whether leading zero should be added
   quote!(
     impl std::fmt::Display for #ident {
@@ -71,7 +72,7 @@ pub fn hexbinary_serde(input: TokenStream) -> TokenStream {
 
       fn from_str(s: &::std::primitive::str) -> ::std::result::Result<Self, Self::Err> {
         Self::from_bits(
-          s.parse()
+          #bits::from_str_radix(s, 16)
               .map_err(|_| String::from("Failed to parse Bitflag integer"))?,
       )
       .ok_or(String::from("Unknown bits were set in Bitflag"))
@@ -105,12 +106,16 @@ pub fn primitive_serde(input: TokenStream) -> TokenStream {
 }
 
 fn extract_full_path(ast: &syn::DeriveInput) -> Result<TokenStream2, syn::Error> {
+  extract_path(ast).map(|path| {
+    quote! { <#path as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string())? }
+  })
+}
+
+fn extract_path(ast: &syn::DeriveInput) -> Result<&syn::TypePath, syn::Error> {
   if let syn::Data::Struct(data_struct) = &ast.data {
     if let syn::Fields::Unnamed(fields) = &data_struct.fields {
       if let Some(syn::Type::Path(path)) = &fields.unnamed.first().map(|f| &f.ty) {
-        return Ok(
-          quote! { <#path as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string())? },
-        );
+        return Ok(path);
       }
     }
   }
-- 
2.43.0


From 94fd071a6050f01173c06132f013623f14b41c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:26 +0000
Subject: [PATCH 12/29] fix: a flattened variant keeps its name inside a named
 enum element

---
 yaserde_derive/src/ser/expand_enum.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 560ed79..8a80160 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -117,6 +117,8 @@ fn inner_enum_inspector(
   name: &Ident,
   root_attributes: &YaSerdeAttribute,
 ) -> TokenStream {
+  let flatten = root_attributes.flatten;
+
   data_enum
     .variants
     .iter()
@@ -300,7 +302,13 @@ fn inner_enum_inspector(
                 }
                 Field::FieldStruct { .. } => {
                   if variant_attrs.flatten || field.is_flatten() {
-                     match_field(&quote!{ ::yaserde::YaSerialize::serialize(item, writer)?})
+                     match_field(&quote!{
+                       if !#flatten {
+                         // The enum took the name for its own element
+                         writer.set_start_event_name(::std::option::Option::None);
+                       }
+                       ::yaserde::YaSerialize::serialize(item, writer)?
+                     })
                    } else {
                      write_element(&match_field(&serialize))
                    }
-- 
2.43.0


From 11565b3e3312f5c32058a72d03fa1772df9c4b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:35 +0000
Subject: [PATCH 13/29] fix: a nested enum is in the namespace of its member

Only a root element is in the namespace of its type, as for structs; an enum without
a prefix could not be a prefixed member.
---
 yaserde_derive/src/de/expand_enum.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 1b712a8..798255f 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -65,7 +65,9 @@ pub fn parse(
         let start_depth = reader.depth();
         ::yaserde::__derive_debug!("Enum {} @ {}: start to parse {:?}", stringify!(#name), start_depth, named_element);
 
-        #namespaces_matching
+        if reader.depth() == 0 {
+          #namespaces_matching
+        }
 
         #[allow(unused_assignments, unused_mut)]
         let mut enum_value = ::std::option::Option::None;
-- 
2.43.0


From b3b9d1d37fa1758162997fa3bfa946a67234df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:37 +0000
Subject: [PATCH 14/29] fix: an empty element has an empty text

A text member holding "" did not round-trip.
---
 yaserde_derive/src/de/expand_struct.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index cc62476..73d965d 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -360,6 +360,9 @@ pub fn parse(
         _ => {
           if let Some(default_function) = field.get_default_function() {
             quote! { #label: #value_label.unwrap_or_else(|| #default_function()), }
+          } else if field.is_text_content() && matches!(field.get_type(), Field::FieldString) {
+            // An element without text has an empty one
+            quote! { #label: #value_label.unwrap_or_default(), }
           } else {
             let error = format!(
               "{} is a required field of {}",
-- 
2.43.0


From ed05ce7658cb629db101932cea58527a08220542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:16 +0000
Subject: [PATCH 15/29] fix: write the attributes and namespaces of a variant's
 payload

---
 yaserde_derive/src/ser/expand_enum.rs | 30 +++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 8a80160..de727f9 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -263,11 +263,29 @@ fn inner_enum_inspector(
                 ::yaserde::YaSerialize::serialize(item, writer)?;
               };
 
-              let write_sub_type = |data_type| {
-                write_element(match data_type {
-                  Field::FieldString => &write_string_chars,
-                  _ => &serialize,
-                })
+              // The element of the variant is the payload's own: it holds its attributes
+              let write_struct = quote! {
+                let (attributes, namespace) = ::yaserde::YaSerialize::serialize_attributes(
+                  item,
+                  ::std::vec![],
+                  ::yaserde::__xml::namespace::Namespace::empty(),
+                )?;
+                writer.write(::yaserde::__xml::writer::XmlEvent::StartElement {
+                  name: ::yaserde::__xml::name::Name::from(#label_name),
+                  attributes: attributes.iter().map(|attribute| attribute.borrow()).collect(),
+                  namespace: ::std::borrow::Cow::Owned(namespace),
+                }).map_err(|e| e.to_string())?;
+
+                #serialize
+
+                let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
+                writer.write(struct_end_event).map_err(|e| e.to_string())?;
+              };
+
+              let write_sub_type = |data_type| match data_type {
+                Field::FieldString => write_element(&write_string_chars),
+                Field::FieldStruct { .. } => write_struct.clone(),
+                _ => write_element(&serialize),
               };
 
               let match_field = |write: &TokenStream| {
@@ -310,7 +328,7 @@ fn inner_enum_inspector(
                        ::yaserde::YaSerialize::serialize(item, writer)?
                      })
                    } else {
-                     write_element(&match_field(&serialize))
+                     match_field(&write_struct)
                    }
                 }
                 Field::FieldString => match_field(&write_element(&write_string_chars)),
-- 
2.43.0


From 3ef540e0986e98295aa0587c65574f47240ea3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:32 +0000
Subject: [PATCH 16/29] fix: the tag alone selects the variant of a tagged enum

---
 yaserde_derive/src/de/expand_enum.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 798255f..99a2cb7 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -17,11 +17,12 @@ pub fn parse(
     true,
   );
 
-  // A unit variant is also named by the text of the element
+  // A unit variant is also named by the text of the element, unless a tag names it
+  let is_tagged = root_attributes.tag.is_some();
   let match_text_to_enum: TokenStream = data_enum
     .variants
     .iter()
-    .filter(|variant| matches!(variant.fields, Fields::Unit))
+    .filter(|variant| !is_tagged && matches!(variant.fields, Fields::Unit))
     .filter_map(|variant| parse_variant(variant, name))
     .collect();
 
@@ -32,7 +33,7 @@ pub fn parse(
     .collect();
 
   let flatten = root_attributes.flatten;
-  let has_own_element = !flatten && root_attributes.tag.is_none();
+  let has_own_element = !flatten && !is_tagged;
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
   let element_name = if let Some(tag) = &root_attributes.tag {
@@ -80,6 +81,10 @@ pub fn parse(
               if #has_own_element && reader.depth() == start_depth {
                 // The element of the enum itself names no variant
                 let _root = reader.next_event()?;
+              } else if #is_tagged && reader.depth() > start_depth {
+                // The tag is an attribute of the element of the enum itself
+                let _root = reader.next_event()?;
+                reader.skip_element(|_| {})?;
               } else {
                 match #element_name {
                   #match_to_enum
-- 
2.43.0


From 9bf276da7575df404666df45d1b4f833253d02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 17/29] fix: write the element of a flattened variant wherever
 the enum stands

---
 yaserde_derive/src/ser/expand_enum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index de727f9..2143f21 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -324,6 +324,7 @@ fn inner_enum_inspector(
                        if !#flatten {
                          // The enum took the name for its own element
                          writer.set_start_event_name(::std::option::Option::None);
+                         writer.set_skip_start_end(false);
                        }
                        ::yaserde::YaSerialize::serialize(item, writer)?
                      })
-- 
2.43.0


From d0296492e482451db72e4b95acdee6ba3ba7c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 18/29] fix: read the payload of a tagged enum's variant

---
 yaserde_derive/src/de/expand_enum.rs | 50 +++++++++++++++++-----------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 99a2cb7..b2e0afc 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -17,15 +17,17 @@ pub fn parse(
     true,
   );
 
-  // A unit variant is also named by the text of the element, unless a tag names it
   let is_tagged = root_attributes.tag.is_some();
-  let match_text_to_enum: TokenStream = data_enum
+  let match_unit_to_enum: TokenStream = data_enum
     .variants
     .iter()
-    .filter(|variant| !is_tagged && matches!(variant.fields, Fields::Unit))
+    .filter(|variant| matches!(variant.fields, Fields::Unit))
     .filter_map(|variant| parse_variant(variant, name))
     .collect();
 
+  // A unit variant is also named by the text of the element, unless a tag names it
+  let match_text_to_enum = Some(&match_unit_to_enum).filter(|_| !is_tagged);
+
   let match_to_enum: TokenStream = data_enum
     .variants
     .iter()
@@ -36,19 +38,29 @@ pub fn parse(
   let has_own_element = !flatten && !is_tagged;
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
-  let element_name = if let Some(tag) = &root_attributes.tag {
+  // The tag is an attribute of the element of the enum itself
+  let read_tag = root_attributes.tag.as_ref().map(|tag| {
     quote! {
-      attributes
-        .iter()
-        .find(|attr| attr.name.local_name.as_str() == #tag)
-        .ok_or(format!("Expected enum tagged with {}, found {:?}", #tag, event))?
-        .value.as_str()
-    }
-  } else {
-    quote! {
-      name.local_name.as_str()
+      if reader.depth() == start_depth {
+        let tag = attributes
+          .iter()
+          .find(|attr| attr.name.local_name.as_str() == #tag)
+          .ok_or(format!("Expected enum tagged with {}, found {:?}", #tag, event))?
+          .value.as_str();
+
+        match tag {
+          #match_unit_to_enum
+          _ => {}
+        }
+
+        tagged_variant = tag.to_owned();
+        let _root = reader.next_event()?;
+      } else if name.local_name != tagged_variant {
+        let _root = reader.next_event()?;
+        reader.skip_element(|_| {})?;
+      } else
     }
-  };
+  });
 
   quote! {
     impl #impl_generics ::yaserde::YaDeserialize for #name #ty_generics #where_clause {
@@ -72,6 +84,8 @@ pub fn parse(
 
         #[allow(unused_assignments, unused_mut)]
         let mut enum_value = ::std::option::Option::None;
+        #[allow(unused_mut)]
+        let mut tagged_variant = ::std::string::String::new();
 
         loop {
           let event = reader.peek()?.to_owned();
@@ -81,12 +95,8 @@ pub fn parse(
               if #has_own_element && reader.depth() == start_depth {
                 // The element of the enum itself names no variant
                 let _root = reader.next_event()?;
-              } else if #is_tagged && reader.depth() > start_depth {
-                // The tag is an attribute of the element of the enum itself
-                let _root = reader.next_event()?;
-                reader.skip_element(|_| {})?;
-              } else {
-                match #element_name {
+              } else #read_tag {
+                match name.local_name.as_str() {
                   #match_to_enum
                   _named_element => {
                     let _root = reader.next_event()?;
-- 
2.43.0


From 948ef46d8a1097a2befc55c51db00a884e37c43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 19/29] fix: read a unit variant by the name it is written with

---
 yaserde_derive/src/de/expand_enum.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index b2e0afc..c3babc9 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -157,7 +157,8 @@ pub fn parse(
 }
 
 fn parse_variant(variant: &syn::Variant, name: &Ident) -> Option<TokenStream> {
-  let xml_element_name = YaSerdeAttribute::from(&variant.attrs).xml_element_name(&variant.ident);
+  let variant_attrs = YaSerdeAttribute::from(&variant.attrs);
+  let xml_element_name = variant_attrs.xml_element_name(&variant.ident);
 
   let variant_name = {
     let label = &variant.ident;
@@ -165,12 +166,20 @@ fn parse_variant(variant: &syn::Variant, name: &Ident) -> Option<TokenStream> {
   };
 
   match variant.fields {
-    Fields::Unit => Some(quote! {
-      #xml_element_name => {
-        enum_value = ::std::option::Option::Some(#variant_name);
-        break;
-      }
-    }),
+    Fields::Unit => {
+      // As a text, the variant is written with its prefix
+      let prefixed_name = variant_attrs.prefix.map(|prefix| {
+        let prefixed_name = format!("{}:{}", prefix, xml_element_name);
+        quote! { | #prefixed_name }
+      });
+
+      Some(quote! {
+        #xml_element_name #prefixed_name => {
+          enum_value = ::std::option::Option::Some(#variant_name);
+          break;
+        }
+      })
+    }
     Fields::Unnamed(ref fields) => {
       let field_visitors = build_unnamed_field_visitors(fields);
       let call_visitors = build_unnamed_visitor_calls(fields, &variant_name);
-- 
2.43.0


From fe8fe311a5503db8d2ba1660b71a39f7f3df9ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 20/29] fix: read a text member from the text only, not from an
 element of its name

---
 yaserde_derive/src/de/expand_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 73d965d..43c8b2e 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -55,6 +55,9 @@ pub fn parse(
       if field.is_attribute() {
         return true;
       };
+      if field.is_text_content() {
+        return false;
+      }
       match field.get_type() {
         Field::FieldVec { data_type } => !matches!(*data_type, Field::FieldStruct { .. }),
         Field::FieldOption { data_type } => !matches!(*data_type, Field::FieldStruct { .. }),
@@ -144,7 +147,7 @@ pub fn parse(
     .fields
     .iter()
     .map(|field| YaSerdeField::new(field.clone()))
-    .filter(|field| !field.is_attribute() && !field.is_flatten())
+    .filter(|field| !field.is_attribute() && !field.is_flatten() && !field.is_text_content())
     .filter_map(|field| {
       let value_label = field.get_value_label();
       let label_name = field.renamed_label_without_namespace();
-- 
2.43.0


From 427bd28acbf16ff9303097a126538e93f07292b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:27 +0000
Subject: [PATCH 21/29] fix: a raw identifier names its element without r#

---
 yaserde_derive/src/common/attribute.rs | 6 +++++-
 yaserde_derive/src/common/field.rs     | 2 +-
 yaserde_derive/src/ser/label.rs        | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/common/attribute.rs b/yaserde_derive/src/common/attribute.rs
index 3532af1..68a1140 100644
--- a/yaserde_derive/src/common/attribute.rs
+++ b/yaserde_derive/src/common/attribute.rs
@@ -4,6 +4,7 @@ use serde::Deserialize;
 use serde_tokenstream::from_tokenstream;
 use std::collections::BTreeMap;
 use std::convert::TryFrom;
+use syn::ext::IdentExt;
 use syn::{Attribute, Meta};
 
 #[derive(Clone, Debug, Default, PartialEq, Deserialize)]
@@ -88,7 +89,10 @@ impl From<&Vec<Attribute>> for YaSerdeAttribute {
 
 impl YaSerdeAttribute {
   pub fn xml_element_name(&self, ident: &Ident) -> String {
-    self.rename.clone().unwrap_or_else(|| ident.to_string())
+    self
+      .rename
+      .clone()
+      .unwrap_or_else(|| ident.unraw().to_string())
   }
 
   pub fn prefix_namespace(&self) -> String {
diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index becc047..d10c252 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -61,7 +61,7 @@ impl YaSerdeField {
       .attributes
       .rename
       .clone()
-      .unwrap_or_else(|| self.label().as_ref().unwrap().to_string())
+      .unwrap_or_else(|| self.label().as_ref().unwrap().unraw().to_string())
   }
 
   pub fn renamed_label(&self, root_attributes: &YaSerdeAttribute) -> String {
diff --git a/yaserde_derive/src/ser/label.rs b/yaserde_derive/src/ser/label.rs
index 89998a5..bc3a0bb 100644
--- a/yaserde_derive/src/ser/label.rs
+++ b/yaserde_derive/src/ser/label.rs
@@ -1,5 +1,6 @@
 use crate::common::YaSerdeAttribute;
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 pub fn build_label_name(
   label: &Ident,
@@ -18,7 +19,7 @@ pub fn build_label_name(
   let label = field_attrs
     .rename
     .clone()
-    .unwrap_or_else(|| label.to_string());
+    .unwrap_or_else(|| label.unraw().to_string());
 
   format!("{}{}", prefix, label)
 }
-- 
2.43.0


From bffa3b20b18f606264983499ffca7a8735e0e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:36 +0000
Subject: [PATCH 22/29] fix: a text member holds all of the element's text, not
 its last piece

---
 yaserde_derive/src/de/expand_struct.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 43c8b2e..2af5c43 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -332,10 +332,13 @@ pub fn parse(
       };
 
       match field.get_type() {
-        Field::FieldString => set_text(&quote! { Some(text_content.to_owned()) }),
+        // Child elements may stand between the pieces of a text
+        Field::FieldString => {
+          set_text(&quote! { Some(#label.unwrap_or_default() + text_content.as_str()) })
+        }
         Field::FieldOption { data_type } => match *data_type {
           Field::FieldString => set_text(
-            &quote! { if text_content.is_empty() { None } else { Some(text_content.to_owned()) }},
+            &quote! { if text_content.is_empty() { #label } else { Some(#label.unwrap_or_default() + text_content.as_str()) }},
           ),
           _ => None,
         },
-- 
2.43.0


From 91264412285d4b30b6587ee64f83edc0e6f33422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 23/29] fix: a flattened member does not need the namespace of
 its parent's element

---
 yaserde/src/de/mod.rs                  | 8 ++++++++
 yaserde_derive/src/de/expand_struct.rs | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index b08b138..9b9b2fa 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -14,6 +14,14 @@ pub fn from_reader<R: Read, T: YaDeserialize>(reader: R) -> Result<T, String> {
   <T as YaDeserialize>::deserialize(&mut Deserializer::new_from_reader(reader))
 }
 
+/// For a flattened member: the element is its parent's, whose namespace need not be the member's
+#[doc(hidden)]
+pub fn from_str_flattened<T: YaDeserialize>(s: &str) -> Result<T, String> {
+  let mut reader = Deserializer::new_from_reader(s.as_bytes());
+  reader.depth = 1;
+  <T as YaDeserialize>::deserialize(&mut reader)
+}
+
 pub struct Deserializer<R: Read> {
   depth: usize,
   reader: EventReader<R>,
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 2af5c43..11c6c03 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -213,11 +213,11 @@ pub fn parse(
 
       match field.get_type() {
         Field::FieldStruct { .. } => quote! {
-          #value_label = Some(::yaserde::de::from_str(&unused_xml_elements)?);
+          #value_label = Some(::yaserde::de::from_str_flattened(&unused_xml_elements)?);
         },
         Field::FieldOption { data_type } => match *data_type {
           Field::FieldStruct { .. } => quote! {
-            #value_label = ::yaserde::de::from_str(&unused_xml_elements).ok();
+            #value_label = ::yaserde::de::from_str_flattened(&unused_xml_elements).ok();
           },
           field_type => unimplemented!(r#""flatten" is not implemented for {:?}"#, field_type),
         },
-- 
2.43.0


From 71eab54125de76587305840af2c926f8de9a0ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:27 +0000
Subject: [PATCH 24/29] fix: hand namespaces declared below to flattened
 members as they are

---
 yaserde/src/de/mod.rs                  | 76 +++++++++++++++++++++++++-
 yaserde_derive/src/de/expand_struct.rs | 12 +---
 2 files changed, 78 insertions(+), 10 deletions(-)

diff --git a/yaserde/src/de/mod.rs b/yaserde/src/de/mod.rs
index 9b9b2fa..24ca11c 100644
--- a/yaserde/src/de/mod.rs
+++ b/yaserde/src/de/mod.rs
@@ -2,9 +2,13 @@
 //!
 
 use crate::YaDeserialize;
+use std::borrow::Cow;
 use std::io::Read;
-use xml::name::OwnedName;
+use xml::attribute::Attribute;
+use xml::name::{Name, OwnedName};
+use xml::namespace::Namespace;
 use xml::reader::{EventReader, ParserConfig, XmlEvent};
+use xml::writer::{EventWriter, XmlEvent as WriterEvent};
 
 pub fn from_str<T: YaDeserialize>(s: &str) -> Result<T, String> {
   from_reader(s.as_bytes())
@@ -139,3 +143,73 @@ impl<R: Read> Deserializer<R> {
     }
   }
 }
+
+/// The events flattened members are read from
+#[doc(hidden)]
+pub struct UnusedXml {
+  writer: Option<EventWriter<Vec<u8>>>,
+  scopes: Vec<Namespace>,
+}
+
+impl UnusedXml {
+  #[allow(clippy::new_without_default)]
+  pub fn new() -> Self {
+    UnusedXml {
+      writer: Some(EventWriter::new(vec![])),
+      scopes: vec![],
+    }
+  }
+
+  pub fn write(&mut self, event: &XmlEvent) {
+    if let Some(ref mut writer) = self.writer {
+      let result = match event {
+        XmlEvent::StartElement {
+          name,
+          attributes,
+          namespace,
+        } => {
+          // The writer drops the declarations that were in force somewhere above, be they
+          // overridden since, and those of no default namespace. As attributes it writes them.
+          let mut all = declarations(self.scopes.last(), namespace);
+          all.extend(attributes.iter().map(|attribute| attribute.borrow()));
+          self.scopes.push(namespace.clone());
+          writer.write(WriterEvent::StartElement {
+            name: name.borrow(),
+            attributes: all.into(),
+            namespace: Cow::Owned(Namespace::empty()),
+          })
+        }
+        event => {
+          if let XmlEvent::EndElement { .. } = event {
+            self.scopes.pop();
+          }
+          event.as_writer_event().map_or(Ok(()), |e| writer.write(e))
+        }
+      };
+      if result.is_err() {
+        self.writer = None;
+      }
+    }
+  }
+
+  pub fn into_string(self) -> Option<String> {
+    String::from_utf8(self.writer?.into_inner()).ok()
+  }
+}
+
+fn declarations<'a>(outer: Option<&Namespace>, inner: &'a Namespace) -> Vec<Attribute<'a>> {
+  let known = |prefix: &str| match outer {
+    Some(outer) => outer.get(prefix),
+    None if prefix.is_empty() => Some(""),
+    None => None,
+  };
+
+  inner
+    .iter()
+    .filter(|(prefix, uri)| !matches!(*prefix, "xml" | "xmlns") && known(prefix) != Some(uri))
+    .map(|(prefix, uri)| match prefix {
+      "" => Attribute::new(Name::local("xmlns"), uri),
+      prefix => Attribute::new(Name::prefixed(prefix, "xmlns"), uri),
+    })
+    .collect()
+}
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 11c6c03..8c25c10 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -555,19 +555,13 @@ fn build_code_for_unused_xml_events(
 ) {
   (
     Some(quote! {
-      let mut buf = ::std::vec![];
-      let mut writer = ::std::option::Option::Some(::yaserde::__xml::writer::EventWriter::new(&mut buf));
+      let mut unused_xml = ::yaserde::de::UnusedXml::new();
     }),
     Some(quote! {
-      if let ::std::option::Option::Some(ref mut w) = writer {
-        if w.write(event.as_writer_event().unwrap()).is_err() {
-          writer = ::std::option::Option::None;
-        }
-      }
+      unused_xml.write(&event);
     }),
     Some(quote! {
-      if writer.is_some() {
-        let unused_xml_elements = ::std::string::String::from_utf8(buf).unwrap();
+      if let ::std::option::Option::Some(unused_xml_elements) = unused_xml.into_string() {
         #call_flatten_visitors
       }
     }),
-- 
2.43.0


From 6f663b79dd6cc5c30ad6c5dafacad90dc841ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:02 +0000
Subject: [PATCH 25/29] fix: the text naming a unit variant may come in several
 pieces

---
 yaserde_derive/src/de/expand_enum.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index c3babc9..7d140b6 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -114,12 +114,16 @@ pub fn parse(
               }
               let _root = reader.next_event()?;
             }
-            ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
+            ::yaserde::__xml::reader::XmlEvent::Characters(_) => {
+              // A processing instruction may stand between the pieces of a text
+              let mut text_content = ::std::string::String::new();
+              while let ::yaserde::__xml::reader::XmlEvent::Characters(text) = reader.peek()? {
+                text_content.push_str(text);
+                let _event = reader.next_event()?;
+              }
               match text_content.as_str() {
                 #match_text_to_enum
-                _ => {
-                  let _root = reader.next_event()?;
-                }
+                _ => {}
               }
             }
             ::yaserde::__xml::reader::XmlEvent::EndDocument => {
-- 
2.43.0


From fb23aedbbd55f1b96bf156663ca4ee1aad3fc91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:14 +0000
Subject: [PATCH 26/29] fix: values of the built-in types stand in their
 member's element

char, usize and isize members, and members of a type parameter that is a
built-in type, were written as bare text: what they belong to was lost, and the
items of a list ran together.
---
 yaserde/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yaserde/src/lib.rs b/yaserde/src/lib.rs
index 06b0f61..b710fab 100644
--- a/yaserde/src/lib.rs
+++ b/yaserde/src/lib.rs
@@ -177,7 +177,18 @@ macro_rules! serialize_type {
       fn serialize<W: Write>(&self, writer: &mut ser::Serializer<W>) -> Result<(), String> {
         let content = format!("{}", self);
         let event = XmlEvent::characters(&content);
-        writer.write(event).map_err(|e| e.to_string())
+
+        // A member's value stands in the element the member is named for
+        match writer.get_start_event_name() {
+          Some(name) if !writer.skip_start_end() => {
+            let start_event = XmlEvent::start_element(name.as_str());
+            writer.write(start_event).map_err(|e| e.to_string())?;
+            writer.write(event).map_err(|e| e.to_string())?;
+            let end_event = XmlEvent::end_element();
+            writer.write(end_event).map_err(|e| e.to_string())
+          }
+          _ => writer.write(event).map_err(|e| e.to_string()),
+        }
       }
 
       fn serialize_attributes(
-- 
2.43.0


From 06fd350ad2e1f2e6151eaebb80db4848dc4c2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:41 +0000
Subject: [PATCH 27/29] fix: write the optional members of a variant with named
 members

They were left out, whatever they held.
---
 yaserde_derive/src/ser/expand_enum.rs | 36 ++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 2143f21..8e68d80 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -216,7 +216,41 @@ fn inner_enum_inspector(
                     _ => {}
                   }
                 }),
-                Field::FieldOption { .. } => None,
+                Field::FieldOption { data_type } => {
+                  let write_item = match *data_type {
+                    Field::FieldOption { .. } | Field::FieldVec { .. } => quote!(),
+                    Field::FieldStruct { .. } => quote! {
+                      writer.set_start_event_name(
+                        ::std::option::Option::Some(#field_label_name.to_string()),
+                      );
+                      writer.set_skip_start_end(false);
+                      ::yaserde::YaSerialize::serialize(item, writer)?;
+                    },
+                    _simple_type => quote! {
+                      let struct_start_event =
+                        ::yaserde::__xml::writer::XmlEvent::start_element(#field_label_name);
+                      writer.write(struct_start_event).map_err(|e| e.to_string())?;
+
+                      let string_value = item.to_string();
+                      let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&string_value);
+                      writer.write(data_event).map_err(|e| e.to_string())?;
+
+                      let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
+                      writer.write(struct_end_event).map_err(|e| e.to_string())?;
+                    },
+                  };
+
+                  Some(quote! {
+                    match self {
+                      &#name::#label { ref #field_label, .. } => {
+                        if let ::std::option::Option::Some(item) = #field_label {
+                          #write_item
+                        }
+                      },
+                      _ => {},
+                    }
+                  })
+                }
               }
             })
             .collect();
-- 
2.43.0


From 44e967dcddbf82ec59a1abf29729e0883d33ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:42 +0000
Subject: [PATCH 28/29] fix: names that differ in case or punctuation only are
 different members

---
 yaserde_derive/src/common/field.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index d10c252..fc9129d 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -81,7 +81,8 @@ impl YaSerdeField {
   }
 
   pub fn get_visitor_ident(&self, struct_name: Option<&syn::Path>) -> Ident {
-    let label = self.renamed_label_without_namespace();
+    // By the field: names of elements may differ in their case or punctuation only
+    let label = self.label().as_ref().unwrap().unraw().to_string();
 
     let struct_id = struct_name.map_or_else(
       || "".to_string(),
@@ -111,7 +112,7 @@ impl YaSerdeField {
       &format!(
         "__Visitor_{attribute}{}{}_{}",
         prefix,
-        label.replace('.', "_").to_upper_camel_case(),
+        label,
         struct_id
       ),
       self.get_span(),
-- 
2.43.0


From 18be86bac888e7405514ae5072d0860f15d60d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:20 +0000
Subject: [PATCH 29/29] fix: several yaserde attributes on one item count as
 one

---
 yaserde_derive/src/common/attribute.rs | 50 +++++++++++---------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/yaserde_derive/src/common/attribute.rs b/yaserde_derive/src/common/attribute.rs
index 68a1140..26c8c38 100644
--- a/yaserde_derive/src/common/attribute.rs
+++ b/yaserde_derive/src/common/attribute.rs
@@ -3,7 +3,6 @@ use quote::{quote, ToTokens};
 use serde::Deserialize;
 use serde_tokenstream::from_tokenstream;
 use std::collections::BTreeMap;
-use std::convert::TryFrom;
 use syn::ext::IdentExt;
 use syn::{Attribute, Meta};
 
@@ -46,44 +45,35 @@ pub struct YaSerdeAttribute {
   pub cdata: bool,
 }
 
-impl TryFrom<&Attribute> for YaSerdeAttribute {
-  type Error = String;
+impl From<&Vec<Attribute>> for YaSerdeAttribute {
+  fn from(attributes: &Vec<Attribute>) -> Self {
+    // The lists of several attributes count as one
+    let mut tokens = TokenStream::new();
 
-  fn try_from(attr: &Attribute) -> Result<Self, Self::Error> {
-    if attr.path().is_ident("yaserde") {
-      let attributes = match &attr.meta {
-        Meta::Path(_) => {
-          unreachable!()
-        }
+    for attribute in attributes {
+      if !attribute.path().is_ident("yaserde") {
+        continue;
+      }
+      match &attribute.meta {
         Meta::List(list) => {
-          let mut tokens = TokenStream::new();
+          let ended = list.tokens.clone().into_iter().last();
           list.tokens.to_tokens(&mut tokens);
-
-          match from_tokenstream::<YaSerdeAttribute>(&tokens) {
-            Ok(attribute) => attribute,
-            Err(error) => {
-              panic!("YaSerDe derive error: {}", error);
-            }
+          if ended.is_some_and(|token| token.to_string() != ",") {
+            tokens.extend(quote!(,));
           }
         }
-        Meta::NameValue(_) => {
+        Meta::Path(_) | Meta::NameValue(_) => {
           unreachable!()
         }
-      };
-
-      Ok(attributes)
-    } else {
-      Err("not an attribute".to_string())
+      }
     }
-  }
-}
 
-impl From<&Vec<Attribute>> for YaSerdeAttribute {
-  fn from(attributes: &Vec<Attribute>) -> Self {
-    attributes
-      .iter()
-      .find_map(|attribute| YaSerdeAttribute::try_from(attribute).ok())
-      .unwrap_or_default()
+    match from_tokenstream::<YaSerdeAttribute>(&tokens) {
+      Ok(attribute) => attribute,
+      Err(error) => {
+        panic!("YaSerDe derive error: {}", error);
+      }
+    }
   }
 }
 
-- 
2.43.0

