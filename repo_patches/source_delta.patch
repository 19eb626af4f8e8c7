From d90e72a7e3a494861eb32c31e1b1bf158a04ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:49 +0000
Subject: [PATCH 01/25] fix: decode optional elements of xs:all in any order

An optional element of an xs:all group was only looked for at the current
position, so it was silently dropped when it came after another element.
---
 xsd-internal/src/ast/leaf.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c565ff9..476da31 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -218,6 +218,14 @@ impl Leaf {
                 }
 
                 from_vec
+            } else if self.is_optional() && self.is_unordered {
+                quote! {
+                    if let Some(node) = node.child(#name_xml, #namespace_xml) {
+                        Some(#value)
+                    } else {
+                        None
+                    }
+                }
             } else if self.is_optional() {
                 quote! {
                     if let Some(node) = node.next_child(#name_xml, #namespace_xml) {
-- 
2.43.0


From d054eb60b1a44b5e0ebeb83e79f65bbca930839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:52 +0000
Subject: [PATCH 02/25] fix: detect optional xs:all groups that do not start
 with their first element

The lookahead stopped at the first required element, so an optional xs:all
whose elements came in another order was silently skipped.
---
 xsd-internal/src/ast/root.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 3b4944b..998135b 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -355,7 +355,8 @@ impl Root {
                         if *prev_required {
                             return None;
                         }
-                        *prev_required = !leaf.is_optional();
+                        // any element of an unordered group (xs:all) can come first
+                        *prev_required = !leaf.is_optional() && !leaf.is_unordered;
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
-- 
2.43.0


From 072f8a36f8f51c4af2bd06d423137097ce2c2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:37 +0000
Subject: [PATCH 03/25] fix: write the element around values of simple types
 and fixed values

Roots, choice variants and simpleContent extensions whose type is a named
simple type, and references to elements with a fixed value, were written as
bare text without their element, so that the result could not be read again.
---
 xsd-internal/src/ast/element_definition.rs | 11 ++---------
 xsd-internal/src/ast/leaf.rs               | 18 +-----------------
 xsd-internal/src/ast/leaf_content.rs       |  9 +++++++++
 xsd-internal/src/ast/root.rs               | 11 ++---------
 4 files changed, 14 insertions(+), 35 deletions(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 8504397..1a760bb 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,4 +1,3 @@
-use crate::ast::{LeafContent, LeafDefinition};
 use crate::xsd::context::SchemaContext;
 
 use super::{Attribute, ElementContent};
@@ -42,14 +41,8 @@ impl ElementDefinition {
         // let the base element (<xs:extension base="" />) do the wrapping so that the base type
         // is still able to add attributes to the XML element
         let is_named_leaf = matches!(
-            self.content,
-            Some(ElementContent::Leaf(
-                _,
-                LeafDefinition {
-                    content: LeafContent::Named(_),
-                    ..
-                },
-            ))
+            &self.content,
+            Some(ElementContent::Leaf(_, definition)) if !definition.content.is_text(ctx)
         );
         let wrap = !self.is_virtual && !is_named_leaf;
         if wrap {
diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 476da31..d8f0d09 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -1,5 +1,4 @@
 use super::{LeafContent, LeafDefinition, Name};
-use crate::ast::Root;
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -85,22 +84,7 @@ impl Leaf {
             });
         }
 
-        let wrap = !self.is_virtual
-            && match &self.definition {
-                LeafDefinition {
-                    content: LeafContent::Named(name),
-                    ..
-                } => {
-                    matches!(
-                        ctx.resolve(name),
-                        Some(Root::Leaf(LeafDefinition {
-                            content: LeafContent::Literal(_),
-                            ..
-                        }))
-                    )
-                }
-                _ => true,
-            };
+        let wrap = !self.is_virtual && self.definition.content.is_text(ctx);
 
         if wrap {
             tn.append_all(quote! {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 1c2733a..5094ce1 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -12,6 +12,15 @@ pub enum LeafContent {
 }
 
 impl LeafContent {
+    /// Whether the content is written as mere text, so that the enclosing element has to be
+    /// written separately.
+    pub fn is_text(&self, ctx: &SchemaContext) -> bool {
+        match self {
+            LeafContent::Literal(_) | LeafContent::Fixed(_) => true,
+            LeafContent::Named(name) => matches!(ctx.resolve(name), Some(Root::Leaf(_))),
+        }
+    }
+
     pub fn to_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.to_impl(),
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 998135b..92050c5 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -172,13 +172,7 @@ impl Root {
                     #inner
                 };
                 // TODO: improve those cases to make them easier to understand
-                if !matches!(
-                    def,
-                    LeafDefinition {
-                        content: LeafContent::Named(_),
-                        ..
-                    }
-                ) {
+                if def.content.is_text(ctx) {
                     quote! {
                         ctx.write_start_element(writer)?;
                         #tn
@@ -209,8 +203,7 @@ impl Root {
                     let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
                     let name_xml = &variant.name.name;
                     let inner = variant.definition.to_xml_impl(ctx);
-                    let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
-                    let mut inner = if is_literal {
+                    let mut inner = if variant.definition.content.is_text(ctx) {
                         quote! {
                             let mut ctx = ::xsd::Context::new(#name_xml);
                             ctx.write_start_element(writer)?;
-- 
2.43.0


From 9e050a690f9110884dbf94cef8cdfacf724da6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:41 +0000
Subject: [PATCH 04/25] fix: write choice variants in their namespace

Variants were always written without prefix, so that variants of imported
schemas and references to elements of an unqualified schema ended up in the
wrong namespace.
---
 xsd-internal/src/ast/root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 92050c5..e1f800c 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -201,7 +201,7 @@ impl Root {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
                     let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
-                    let name_xml = &variant.name.name;
+                    let name_xml = ctx.get_xml_element_name(&variant.name);
                     let inner = variant.definition.to_xml_impl(ctx);
                     let mut inner = if variant.definition.content.is_text(ctx) {
                         quote! {
-- 
2.43.0


From 8f4a93d4e51153913b012ed5fb79f9874ef22bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:44 +0000
Subject: [PATCH 05/25] fix: parse attributes of named simple types like the
 type they restrict

The generated code did not compile for attributes whose named simple type
restricts anything but a string type.
---
 xsd-internal/src/ast/attribute.rs          | 4 ++--
 xsd-internal/src/ast/element_definition.rs | 2 +-
 xsd-internal/src/ast/leaf_content.rs       | 7 +++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 8b03c06..eb1b58a 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -59,10 +59,10 @@ impl Attribute {
         }
     }
 
-    pub fn from_xml_impl(&self) -> TokenStream {
+    pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let name_xml = &self.name.name;
-        let inner = self.content.from_str_impl();
+        let inner = self.content.from_str_impl(ctx);
 
         if self.is_optional {
             quote! {
diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 1a760bb..75f708b 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -63,7 +63,7 @@ impl ElementDefinition {
             ts.append_all(content.from_xml_impl(ctx));
         }
         for attr in &self.attributes {
-            ts.append_all(attr.from_xml_impl());
+            ts.append_all(attr.from_xml_impl(ctx));
         }
         quote! {
             {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 5094ce1..011d9fa 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -84,10 +84,13 @@ impl LeafContent {
         }
     }
 
-    pub fn from_str_impl(&self) -> TokenStream {
+    pub fn from_str_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.from_str_impl(),
-            LeafContent::Named(name) => name.from_str_impl(),
+            LeafContent::Named(name) => match ctx.elements.get(name) {
+                Some(Root::Leaf(def)) => def.content.from_str_impl(ctx),
+                _ => name.from_str_impl(),
+            },
             LeafContent::Fixed(_) => quote! { () },
         }
     }
-- 
2.43.0


From 30a322cbff1e5eb82cafdf9529dc9bb067d92120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:48 +0000
Subject: [PATCH 06/25] fix: reject attributes that do not have their fixed
 value

Fixed values were only checked for elements.
---
 xsd-internal/src/ast/attribute.rs    | 2 +-
 xsd-internal/src/ast/leaf_content.rs | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index eb1b58a..ef05f27 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -68,7 +68,7 @@ impl Attribute {
             quote! {
                 #name_ident: {
                     if let Some(val) = node.attribute(#name_xml) {
-                        Some(#inner)
+                        Some({ #inner })
                     } else {
                         None
                     }
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 011d9fa..6f1b3d0 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -91,7 +91,14 @@ impl LeafContent {
                 Some(Root::Leaf(def)) => def.content.from_str_impl(ctx),
                 _ => name.from_str_impl(),
             },
-            LeafContent::Fixed(_) => quote! { () },
+            LeafContent::Fixed(fixed) => quote! {
+                if val != #fixed {
+                    return Err(::xsd::decode::FromXmlError::FixedMismatch {
+                        expected: #fixed,
+                        received: val.to_string(),
+                    }.into());
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 6375b2661efce33fdb64b3a19fef108d4f078c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:09 +0000
Subject: [PATCH 07/25] fix: generate valid code for repeated sequences inside
 of a choice

The variant is a Vec, but the decoder produced a single value for it, so
that the generated code did not compile.
---
 xsd-internal/src/ast/root.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index e1f800c..75e0959 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -282,9 +282,21 @@ impl Root {
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
                             let first_name = format_ident!("{}", name.name.to_pascal_case());
-                            quote! {
-                                if #first_name::lookahead(node) {
-                                    Self::#variant_name(#inner)
+                            if variant.is_vec() {
+                                quote! {
+                                    if #first_name::lookahead(node) {
+                                        let mut vec = Vec::new();
+                                        while #first_name::lookahead(node) {
+                                            vec.push(#inner);
+                                        }
+                                        Self::#variant_name(vec)
+                                    }
+                                }
+                            } else {
+                                quote! {
+                                    if #first_name::lookahead(node) {
+                                        Self::#variant_name(#inner)
+                                    }
                                 }
                             }
                         } else {
-- 
2.43.0


From 0c50f38f462a37372adf4af88e340430155328a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:53 +0000
Subject: [PATCH 08/25] fix: escape all keywords in generated identifiers

`break` was never escaped because of a typo, reserved keywords were missing,
and names that cannot be raw identifiers (self, super, crate, Self) made the
macro panic.
---
 xsd-internal/src/ast/root.rs | 15 ++++++++-------
 xsd-internal/src/utils.rs    | 10 +++++++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 75e0959..04c7986 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 
+use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 
 use super::{ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name};
@@ -84,17 +85,17 @@ impl Root {
             }
             Root::Enum(names) => {
                 let names = escape_enum_names(names.clone());
-                let variants = names.keys().map(|k| format_ident!("{}", k));
+                let variants = names.keys().map(|k| escape_ident(k));
                 let from_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
-                    let variant = format_ident!("{}", variant);
+                    let variant = escape_ident(variant);
                     quote! {
                         #name_xml => #root_name::#variant
                     }
                 });
                 let as_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
-                    let variant = format_ident!("{}", variant);
+                    let variant = escape_ident(variant);
                     quote! {
                         #root_name::#variant => #name_xml
                     }
@@ -144,7 +145,7 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let mut type_ident = variant.definition.to_impl(ctx);
                     if variant.is_vec() {
                         type_ident = quote! { Vec<#type_ident> }
@@ -200,7 +201,7 @@ impl Root {
             }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let name_xml = ctx.get_xml_element_name(&variant.name);
                     let inner = variant.definition.to_xml_impl(ctx);
                     let mut inner = if variant.definition.content.is_text(ctx) {
@@ -275,7 +276,7 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let inner = variant.definition.from_xml_impl(ctx);
                     let name_xml = &variant.name.name;
                     let namespace_xml = ctx.quote_xml_namespace(&variant.name);
@@ -371,7 +372,7 @@ impl Root {
                                 // TODO: reflect that in the type?
                                 unreachable!()
                             };
-                            let name = format_ident!("{}", name.name.to_pascal_case());
+                            let name = escape_ident(&name.name.to_pascal_case());
                             Some(quote! {
                                 #name::lookahead(node)
                             })
diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index 656910f..e779b1c 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -2,10 +2,14 @@ use quote::format_ident;
 
 pub fn escape_ident(name: &str) -> syn::Ident {
     match name {
-        " break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false" | "fn"
+        // those keywords cannot be used as raw identifiers
+        "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
+        "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
         | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
-        | "pub" | "ref" | "return" | "self" | "Self" | "static" | "struct" | "super" | "trait"
-        | "true" | "type" | "unsafe" | "use" | "where" | "while" | "async" | "await" | "dyn" => {
+        | "pub" | "ref" | "return" | "static" | "struct" | "trait" | "true" | "type" | "unsafe"
+        | "use" | "where" | "while" | "async" | "await" | "dyn" | "abstract" | "become" | "box"
+        | "do" | "final" | "gen" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+        | "virtual" | "yield" => {
             format_ident!("r#{}", name)
         }
         _ => format_ident!("{}", name),
-- 
2.43.0


From d987b602cdeabb50f1d1715bc5de78df8aa3052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:57 +0000
Subject: [PATCH 09/25] fix: do not panic on names that start with a non-ASCII
 character

---
 xsd-internal/src/xsd/parse/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index 694107a..eecb47b 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -47,9 +47,10 @@ where
 
     let mut virtual_name = String::new();
     for name in names.into_iter() {
-        if !name.name.is_empty() {
-            virtual_name += name.name[0..1].to_ascii_uppercase().as_str();
-            virtual_name += &name.name[1..];
+        let mut chars = name.name.chars();
+        if let Some(first) = chars.next() {
+            virtual_name.push(first.to_ascii_uppercase());
+            virtual_name += chars.as_str();
         }
     }
 
-- 
2.43.0


From f24e39ee1f545876f2af80051b3437d2ce251a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:01 +0000
Subject: [PATCH 10/25] fix: support elements that have the same name as their
 type

Such an element replaced the type with a reference to itself, and resolving
it overflowed the stack.
---
 xsd-internal/src/xsd/schema.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index cc1a1b2..a4c6ed3 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -7,7 +7,7 @@ use std::{collections::HashMap, path::Path};
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
 use super::error::XsdError;
 use super::node::Node;
-use crate::ast::{Name, Namespace, Root};
+use crate::ast::{LeafContent, LeafDefinition, Name, Namespace, Root};
 use crate::utils::escape_ident;
 use inflector::Inflector;
 use proc_macro2::TokenStream;
@@ -132,6 +132,14 @@ impl Schema {
             let name = Name::new(child.try_attribute("name")?.value(), ctx.target_namespace());
 
             let root = crate::xsd::parse::root::parse(child, &name, &mut ctx)?;
+            // an element with the same name as its type is already covered by the type itself
+            if matches!(
+                &root,
+                Root::Leaf(LeafDefinition { content: LeafContent::Named(type_name), .. })
+                    if *type_name == name
+            ) {
+                continue;
+            }
             ctx.add_root(name, root);
         }
 
-- 
2.43.0


From 254ee6d39214721c5156d8838b0b594cf43a908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:04 +0000
Subject: [PATCH 11/25] fix: resolve unprefixed references in the default
 namespace of the schema

References without prefix were always looked up without namespace, so that
schemas with xmlns="..." matched referenced elements in no namespace.
---
 xsd-internal/src/xsd/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index f676c72..756d0e3 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -139,7 +139,11 @@ impl<'input> Context<'input> {
                 },
             )?))
         } else {
-            Ok(LeafContent::Named(Name::new(name, Namespace::None)))
+            let namespace = self
+                .default_namespace
+                .map(|ns| self.shared.namespaces.get_or_insert(ns))
+                .unwrap_or_default();
+            Ok(LeafContent::Named(Name::new(name, namespace)))
         }
     }
 
-- 
2.43.0


From bb7e66d4379ecf956440e73735ef29f8a08ffab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:07 +0000
Subject: [PATCH 12/25] fix: do not mistake namespaced attributes for XSD
 attributes

A custom attribute like `my:minOccurs` was used as if it was `minOccurs`.
---
 xsd-internal/src/xsd/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 211ed72..c9512c3 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -66,9 +66,9 @@ impl<'a, 'input> From<roxmltree::Node<'a, 'input>> for Node<'a, 'input> {
         // TODO: throw on non XSD namespace children/attributes instead of ignoring them?
         let attributes = node
             .attributes()
+            // ignore custom (aka namespaced) attributes
+            .filter(|attr| attr.namespace().is_none())
             .map(|attr| {
-                // let ns = attr.namespace();
-                // TODO: filter by XSD attributes?
                 (
                     attr.name(),
                     Attribute {
-- 
2.43.0


From 381cec90df0d735ddc0cecf75032c4230133e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:30 +0000
Subject: [PATCH 13/25] fix: do not overflow the stack on circular includes

---
 xsd-internal/src/xsd/context.rs |  4 +++
 xsd-internal/src/xsd/schema.rs  | 45 +++++++++++++++++++++++----------
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 756d0e3..063483f 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -1,4 +1,5 @@
 use std::collections::{HashMap, HashSet};
+use std::path::PathBuf;
 
 use super::error::XsdError;
 use super::node::Attribute;
@@ -24,6 +25,8 @@ pub struct SharedContext {
     pub namespaces: Namespaces,
     /// Dependencies between structs. Key = parent, Value = child
     pub dependencies: HashMap<Name, HashSet<Name>>,
+    /// The schema files that have been visited already.
+    pub files: HashSet<PathBuf>,
 }
 
 /// The context reduced to the data necessary for the code-generation.
@@ -81,6 +84,7 @@ impl<'input> Context<'input> {
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
+            files: self.shared.files,
         }
     }
 
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index a4c6ed3..bd4b433 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -2,6 +2,7 @@ use std::collections::HashSet;
 use std::fs::read_to_string;
 use std::io;
 use std::ops::Range;
+use std::path::PathBuf;
 use std::{collections::HashMap, path::Path};
 
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
@@ -17,6 +18,7 @@ use roxmltree::{Document, TextPos};
 #[derive(Debug)]
 pub struct Schema {
     pub(crate) dependencies: HashMap<Name, HashSet<Name>>,
+    pub(crate) files: HashSet<PathBuf>,
     pub(crate) context: SchemaContext,
 }
 
@@ -54,6 +56,8 @@ impl Schema {
         shared: Option<SharedContext>,
     ) -> Result<Self, SchemaError> {
         let path = path.as_ref().to_path_buf();
+        let mut shared = shared.unwrap_or_default();
+        shared.files.insert(canonicalize(&path));
         let doc = match Document::parse(data) {
             Ok(doc) => doc,
             Err(err) => {
@@ -69,18 +73,20 @@ impl Schema {
 
         let base_path = path.parent().unwrap_or(path.as_path());
         let root_node = doc.root_element().into();
-        Schema::parse_schema_with_context(&root_node, base_path, shared).map_err(|err| match err {
-            ParseError::Schema(err) => err,
-            ParseError::Xsd(err) => {
-                let pos = err
-                    .range()
-                    .map(|range| doc.text_pos_at(range.start))
-                    .unwrap_or_else(|| TextPos { row: 0, col: 0 });
-                SchemaError::Xsd {
-                    file: path.to_string_lossy().to_string(),
-                    row: pos.row,
-                    col: pos.col,
-                    err: Box::new(err),
+        Schema::parse_schema_with_context(&root_node, base_path, Some(shared)).map_err(|err| {
+            match err {
+                ParseError::Schema(err) => err,
+                ParseError::Xsd(err) => {
+                    let pos = err
+                        .range()
+                        .map(|range| doc.text_pos_at(range.start))
+                        .unwrap_or_else(|| TextPos { row: 0, col: 0 });
+                    SchemaError::Xsd {
+                        file: path.to_string_lossy().to_string(),
+                        row: pos.row,
+                        col: pos.col,
+                        err: Box::new(err),
+                    }
                 }
             }
         })
@@ -112,15 +118,21 @@ impl Schema {
         );
 
         for child in root.children().namespace(NS_XSD).iter() {
-            // TODO: prevent circular includes
             if child.name() == "include" || child.name() == "import" {
                 // TODO: make sure that it is a relative path
                 let location: &str = &child.try_attribute("schemaLocation")?.value();
                 let mut path = base_path.to_path_buf();
                 path.push(location);
 
+                // skip schemas that have been loaded already (e.g. because of circular includes)
+                let shared = ctx.take_shared();
+                if shared.files.contains(&canonicalize(&path)) {
+                    ctx.set_shared(shared);
+                    continue;
+                }
+
                 // merge imports
-                let mut schema = Schema::parse_file_with_context(path, Some(ctx.take_shared()))?;
+                let mut schema = Schema::parse_file_with_context(path, Some(shared))?;
                 for (name, root) in std::mem::take(&mut schema.context.elements) {
                     ctx.add_root(name, root);
                 }
@@ -150,6 +162,7 @@ impl Schema {
         SharedContext {
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
+            files: self.files,
         }
     }
 
@@ -334,6 +347,10 @@ impl Schema {
     }
 }
 
+fn canonicalize(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_path_buf())
+}
+
 #[derive(Debug, thiserror::Error)]
 pub enum SchemaError {
     #[error("Error on line {row} (offset {col} in {file}): {err}")]
-- 
2.43.0


From dec37fc3d6bf833575135318f8a7dabd7164783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:56 +0000
Subject: [PATCH 14/25] fix: write the attributes of the base type of an
 extended sequence

---
 xsd-internal/src/ast/element_definition.rs | 20 +++++++++--
 xsd/src/lib.rs                             | 39 +++++++++++++---------
 2 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 75f708b..dd9b52b 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,6 +1,6 @@
 use crate::xsd::context::SchemaContext;
 
-use super::{Attribute, ElementContent};
+use super::{Attribute, ElementContent, LeafContent, Root};
 use proc_macro2::TokenStream;
 use quote::quote;
 use quote::TokenStreamExt;
@@ -45,7 +45,7 @@ impl ElementDefinition {
             Some(ElementContent::Leaf(_, definition)) if !definition.content.is_text(ctx)
         );
         let wrap = !self.is_virtual && !is_named_leaf;
-        if wrap {
+        if wrap && !self.extends_element(ctx) {
             ts.append_all(quote! { ctx.write_start_element(writer)?; });
         }
         if let Some(content) = &self.content {
@@ -57,6 +57,22 @@ impl ElementDefinition {
         ts
     }
 
+    /// Whether the content starts with the content of another element it extends. It is then up to
+    /// that element to start the XML element, so that it is able to add its attributes to it.
+    fn extends_element(&self, ctx: &SchemaContext) -> bool {
+        let Some(ElementContent::Leaves(leaves)) = &self.content else {
+            return false;
+        };
+        let Some(LeafContent::Named(name)) = leaves
+            .first()
+            .filter(|leaf| leaf.is_virtual)
+            .map(|leaf| &leaf.definition.content)
+        else {
+            return false;
+        };
+        matches!(ctx.resolve(name), Some(Root::Element(def)) if !def.is_virtual)
+    }
+
     pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let mut ts = TokenStream::new();
         if let Some(content) = &self.content {
diff --git a/xsd/src/lib.rs b/xsd/src/lib.rs
index 6ad4798..a281954 100644
--- a/xsd/src/lib.rs
+++ b/xsd/src/lib.rs
@@ -21,6 +21,7 @@ pub struct ContextInner<'a> {
     name: Name<'a>,
     attributes: Vec<(Name<'a>, Cow<'a, str>)>,
     namespace: Namespace,
+    is_started: bool,
 }
 
 impl<'a, 'b> Context<'a, 'b> {
@@ -29,6 +30,7 @@ impl<'a, 'b> Context<'a, 'b> {
             name: name.into(),
             attributes: Vec::new(),
             namespace: Namespace::empty(),
+            is_started: false,
         })
     }
 
@@ -72,23 +74,28 @@ impl<'a, 'b> Context<'a, 'b> {
         &mut self,
         writer: &mut ::xml::writer::EventWriter<W>,
     ) -> Result<(), xml::writer::Error> {
-        match self {
-            Context::Virtual(_) => {}
-            Context::Context(inner) => {
-                let attributes = mem::take(&mut inner.attributes);
-                let namespace = mem::replace(&mut inner.namespace, Namespace::empty());
-                writer.write(XmlEvent::StartElement {
-                    name: inner.name,
-                    attributes: Cow::Owned(
-                        attributes
-                            .iter()
-                            .map(|(k, v)| Attribute::new(*k, v))
-                            .collect(),
-                    ),
-                    namespace: Cow::Owned(namespace),
-                })?
-            }
+        let inner: &mut ContextInner<'a> = match self {
+            Context::Virtual(inner) => inner,
+            Context::Context(inner) => inner,
+        };
+        // the element might have already been started by a wrapped context
+        if inner.is_started {
+            return Ok(());
         }
+        inner.is_started = true;
+
+        let attributes = mem::take(&mut inner.attributes);
+        let namespace = mem::replace(&mut inner.namespace, Namespace::empty());
+        writer.write(XmlEvent::StartElement {
+            name: inner.name,
+            attributes: Cow::Owned(
+                attributes
+                    .iter()
+                    .map(|(k, v)| Attribute::new(*k, v))
+                    .collect(),
+            ),
+            namespace: Cow::Owned(namespace),
+        })?;
 
         Ok(())
     }
-- 
2.43.0


From 9feb6ac6cf6714fa961ef8e2bd68142ee7031cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:00 +0000
Subject: [PATCH 15/25] fix: read text that is split by comments and processing
 instructions

---
 xsd/src/decode.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index a627f2b..14fa94d 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -1,4 +1,4 @@
-use std::cell::RefCell;
+use std::cell::{OnceCell, RefCell};
 use std::collections::VecDeque;
 use std::ops::Range;
 
@@ -40,6 +40,7 @@ pub struct Document<'a>(roxmltree::Document<'a>);
 pub struct Node<'a> {
     node: roxmltree::Node<'a, 'a>,
     children: RefCell<Children<'a>>,
+    text: OnceCell<String>,
 }
 
 struct Children<'a> {
@@ -81,6 +82,7 @@ impl<'a> Node<'a> {
                 peeked: VecDeque::new(),
                 next: None,
             }),
+            text: OnceCell::new(),
             node,
         }
     }
@@ -178,12 +180,26 @@ impl<'a> Node<'a> {
     }
 
     pub fn text(&self) -> Result<&str, FromXmlError> {
-        if self.node.first_child().is_none() {
-            Ok("")
-        } else {
-            self.node.text().ok_or_else(|| FromXmlError::TextExpected {
-                name: self.node.tag_name().name().to_string(),
-            })
+        // the text might be split by comments and processing instructions
+        let mut parts = self
+            .node
+            .children()
+            .take_while(|child| !child.is_element())
+            .filter(|child| child.is_text())
+            .filter_map(|child| child.text());
+        match (parts.next(), parts.next()) {
+            (Some(first), None) => Ok(first),
+            (Some(first), Some(second)) => Ok(self.text.get_or_init(|| {
+                let mut text = format!("{first}{second}");
+                text.extend(parts);
+                text
+            })),
+            (None, _) if self.node.children().any(|child| child.is_element()) => {
+                Err(FromXmlError::TextExpected {
+                    name: self.node.tag_name().name().to_string(),
+                })
+            }
+            (None, _) => Ok(""),
         }
     }
 
-- 
2.43.0


From 2bdfd955e17a0ef2a59a3b90f38f7800aa97ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:03 +0000
Subject: [PATCH 16/25] fix: treat elements whose namespace is reset by
 xmlns="" as unqualified

---
 xsd/src/decode.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index 14fa94d..40ee25d 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -54,11 +54,16 @@ pub fn decode(input: &str) -> Result<Document<'_>, FromXmlError> {
     Ok(Document(doc))
 }
 
+fn has_name(node: &roxmltree::Node<'_, '_>, name: &str, namespace: Option<&str>) -> bool {
+    let tag_name = node.tag_name();
+    // `xmlns=""` resets to no namespace
+    tag_name.name() == name && tag_name.namespace().filter(|ns| !ns.is_empty()) == namespace
+}
+
 impl Document<'_> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let root = self.0.root_element();
-        let tag_name = root.tag_name();
-        if !root.is_element() || tag_name.name() != name || tag_name.namespace() != namespace {
+        if !root.is_element() || !has_name(&root, name, namespace) {
             None
         } else {
             Some(Node::new(root))
@@ -96,8 +101,7 @@ impl<'a> Node<'a> {
                 .or_else(|| children.children.next());
         }
         if let Some(next) = &children.next {
-            let tag_name = next.tag_name();
-            return tag_name.name() == name && tag_name.namespace() == namespace;
+            return has_name(next, name, namespace);
         }
         false
     }
@@ -110,8 +114,7 @@ impl<'a> Node<'a> {
             .or_else(|| children.peeked.pop_front())
             .or_else(|| children.children.next())
         {
-            let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if has_name(&next, name, namespace) {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
@@ -134,24 +137,21 @@ impl<'a> Node<'a> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let mut children = self.children.borrow_mut();
         if let Some(next) = children.next.take() {
-            let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if has_name(&next, name, namespace) {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
         }
 
         for (ix, child) in children.peeked.iter().enumerate() {
-            let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if has_name(child, name, namespace) {
                 return children.peeked.remove(ix).map(Node::new);
             }
         }
 
         #[allow(clippy::while_let_on_iterator)]
         while let Some(child) = children.children.next() {
-            let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if has_name(&child, name, namespace) {
                 return Some(Node::new(child));
             }
             children.peeked.push_back(child);
-- 
2.43.0


From 018080c0e320145f86b6acecd4c44db804728ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:56 +0000
Subject: [PATCH 17/25] fix: parse all lexical representations of booleans and
 numbers

---
 xsd-internal/src/ast/literal_type.rs | 25 ++++++++++++++++++++++++-
 xsd-internal/src/ast/root.rs         |  5 +++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index 9229eff..e6b792b 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -68,10 +68,33 @@ impl LiteralType {
         quote!(val.to_string())
     }
 
+    /// Parse the string `val`, according to the lexical representation of the type.
+    pub fn parse_impl(&self, val: TokenStream) -> TokenStream {
+        use LiteralType::*;
+        // whitespace around everything but strings is insignificant
+        let trimmed = quote! { #val.trim_matches([' ', '\t', '\n', '\r']) };
+        match self {
+            Boolean => quote! {
+                match #trimmed {
+                    "1" => Ok(true),
+                    "0" => Ok(false),
+                    val => <bool as ::std::str::FromStr>::from_str(val),
+                }
+            },
+            Int64 | Uint64 | Int32 | Decimal | Float32 => {
+                quote! { ::std::str::FromStr::from_str(#trimmed) }
+            }
+            String | DateTime | Time | Date | Duration | Base64Binary | HexBinary | Any => {
+                quote! { ::std::str::FromStr::from_str(#val) }
+            }
+        }
+    }
+
     pub fn from_str_impl(&self) -> TokenStream {
         let type_ = self.xsd_name();
+        let inner = self.parse_impl(quote! { val });
         quote! {
-            std::str::FromStr::from_str(val).map_err(|err| {
+            #inner.map_err(|err| {
                 ::xsd::decode::FromXmlError::ParseType {
                     type_: #type_.to_string(),
                     value: val.to_string(),
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 04c7986..882ab3e 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -57,14 +57,15 @@ impl Root {
                 let mut tn = quote! {
                     (pub #inner);
                 };
-                if matches!(def.content, LeafContent::Literal(_)) {
+                if let LeafContent::Literal(literal) = &def.content {
                     let type_ = root_name.to_string();
+                    let inner = literal.parse_impl(quote! { s });
                     tn.append_all(quote! {
                         impl ::std::str::FromStr for #root_name {
                             type Err = ::xsd::decode::FromXmlError;
 
                             fn from_str(s: &str) -> Result<Self, Self::Err> {
-                                Ok(#root_name(::std::str::FromStr::from_str(s).map_err(|err| {
+                                Ok(#root_name(#inner.map_err(|err| {
                                     ::xsd::decode::FromXmlError::ParseType {
                                         type_: #type_.to_string(),
                                         value: s.to_string(),
-- 
2.43.0


From 387b10653704e6b5de575530b9f5083c89985261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:00 +0000
Subject: [PATCH 18/25] fix: write infinite floats in their XSD representation

---
 xsd-internal/src/ast/attribute.rs    | 10 ++++++++--
 xsd-internal/src/ast/literal_type.rs |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index ef05f27..cf4d04a 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -1,4 +1,4 @@
-use super::{LeafContent, Name};
+use super::{LeafContent, LeafDefinition, Name, Root};
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -38,7 +38,13 @@ impl Attribute {
         let name_xml = ctx.get_xml_element_name(&self.name);
         let inner = match &self.content {
             LeafContent::Literal(literal) => literal.to_xml_impl(),
-            LeafContent::Named(_) => quote! { val.to_string() },
+            LeafContent::Named(name) => match ctx.resolve(name) {
+                Some(Root::Leaf(LeafDefinition {
+                    content: LeafContent::Literal(literal),
+                    ..
+                })) => literal.to_xml_impl(),
+                _ => quote! { val.to_string() },
+            },
             LeafContent::Fixed(fixed) => quote! { #fixed },
         };
         if self.is_optional {
diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index e6b792b..318a75c 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -65,7 +65,10 @@ impl LiteralType {
     }
 
     pub fn to_xml_impl(&self) -> TokenStream {
-        quote!(val.to_string())
+        match self {
+            LiteralType::Float32 => quote!(val.to_string().replace("inf", "INF")),
+            _ => quote!(val.to_string()),
+        }
     }
 
     /// Parse the string `val`, according to the lexical representation of the type.
-- 
2.43.0


From 1f10f1a6f7d3812eb89bb3995fae80eb3df75fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:30 +0000
Subject: [PATCH 19/25] fix: do not write unqualified elements in the default
 namespace

---
 xsd-internal/src/xsd/context.rs | 10 ++++++++--
 xsd-internal/src/xsd/schema.rs  |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 063483f..ef0da44 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -27,6 +27,8 @@ pub struct SharedContext {
     pub dependencies: HashMap<Name, HashSet<Name>>,
     /// The schema files that have been visited already.
     pub files: HashSet<PathBuf>,
+    /// Whether there is a schema with elements that are not part of a namespace.
+    pub has_unqualified: bool,
 }
 
 /// The context reduced to the data necessary for the code-generation.
@@ -52,6 +54,8 @@ impl<'input> Context<'input> {
                 document_namespaces.insert(prefix, ns.uri());
             }
         }
+        let is_qualified = schema.attribute("elementFormDefault") == Some("qualified");
+        shared.has_unqualified |= !is_qualified || target_namespace.is_none();
         Context {
             roots: Default::default(),
             default_namespace: schema.default_namespace(),
@@ -59,7 +63,7 @@ impl<'input> Context<'input> {
                 .map(|tn| shared.namespaces.get_or_insert(tn))
                 .unwrap_or_default(),
             document_namespaces,
-            is_qualified: schema.attribute("elementFormDefault") == Some("qualified"),
+            is_qualified,
             shared,
         }
     }
@@ -80,11 +84,13 @@ impl<'input> Context<'input> {
             context: SchemaContext {
                 target_namespace: self.target_namespace(),
                 elements: self.roots,
-                is_qualified: self.is_qualified,
+                // names without a namespace must not end up in a default namespace
+                is_qualified: self.is_qualified && !self.shared.has_unqualified,
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
             files: self.shared.files,
+            has_unqualified: self.shared.has_unqualified,
         }
     }
 
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index bd4b433..0b4ffdf 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -19,6 +19,7 @@ use roxmltree::{Document, TextPos};
 pub struct Schema {
     pub(crate) dependencies: HashMap<Name, HashSet<Name>>,
     pub(crate) files: HashSet<PathBuf>,
+    pub(crate) has_unqualified: bool,
     pub(crate) context: SchemaContext,
 }
 
@@ -163,6 +164,7 @@ impl Schema {
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
             files: self.files,
+            has_unqualified: self.has_unqualified,
         }
     }
 
-- 
2.43.0


From 0bf8ec6f23f8f40cf917575e88c67cc4e6ce20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:02 +0000
Subject: [PATCH 20/25] fix: detect optional groups whose leading groups are
 empty

---
 xsd-internal/src/ast/leaf.rs | 10 ++++++++++
 xsd-internal/src/ast/root.rs | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index d8f0d09..56ce6cc 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -38,6 +38,16 @@ impl Leaf {
         self.min_occurs == MinOccurs(0)
     }
 
+    /// Whether there are valid documents without any element of that leaf.
+    pub fn is_emptiable(&self, ctx: &SchemaContext) -> bool {
+        match &self.definition.content {
+            LeafContent::Named(name) if self.is_virtual && !self.is_optional() => {
+                matches!(ctx.elements.get(name), Some(root) if root.is_emptiable(ctx))
+            }
+            _ => self.is_optional(),
+        }
+    }
+
     pub fn is_vec(&self) -> bool {
         match self.max_occurs {
             MaxOccurs::Unbounded => true,
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 882ab3e..5f9e06d 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -41,6 +41,17 @@ impl Root {
         matches!(self, Root::Enum(_) | Root::Choice(_))
     }
 
+    /// Whether the group of elements (e.g. a nested xs:sequence) can be empty.
+    pub fn is_emptiable(&self, ctx: &SchemaContext) -> bool {
+        match self {
+            Root::Element(ElementDefinition {
+                content: Some(ElementContent::Leaves(leaves)),
+                ..
+            }) => leaves.iter().all(|leaf| leaf.is_emptiable(ctx)),
+            _ => false,
+        }
+    }
+
     pub fn docs(&self) -> Option<&str> {
         match self {
             Root::Leaf(def) => def.docs.as_deref(),
@@ -363,7 +374,7 @@ impl Root {
                             return None;
                         }
                         // any element of an unordered group (xs:all) can come first
-                        *prev_required = !leaf.is_optional() && !leaf.is_unordered;
+                        *prev_required = !leaf.is_emptiable(ctx) && !leaf.is_unordered;
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
-- 
2.43.0


From 8e05fbb98296e3f61e04338570b2de79fb87ba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:29 +0000
Subject: [PATCH 21/25] fix: keep inner attributes of the annotated module
 inside it

---
 xsd-derive/src/generator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd-derive/src/generator.rs b/xsd-derive/src/generator.rs
index ad653fa..cc5d04b 100644
--- a/xsd-derive/src/generator.rs
+++ b/xsd-derive/src/generator.rs
@@ -8,7 +8,10 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
     let schema = Schema::parse_file(path)?;
     let structs = schema.generate_all()?;
 
-    let attrs = &item.attrs;
+    let (attrs, inner_attrs): (Vec<_>, Vec<_>) = item
+        .attrs
+        .iter()
+        .partition(|attr| matches!(attr.style, syn::AttrStyle::Outer));
     let vis = &item.vis;
     let ident = &item.ident;
     let items = item
@@ -20,6 +23,8 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
     let result = quote! {
         #(#attrs)*
         #vis mod #ident {
+            #(#inner_attrs)*
+
             #(#items
             )*
 
-- 
2.43.0


From ecced2ea554569860d45be9b0015840a26528314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 22/25] fix: accept empty documentation and keep text
 interrupted by comments or markup

---
 xsd-internal/src/xsd/node.rs             | 13 +++++++------
 xsd-internal/src/xsd/parse/annotation.rs |  3 +--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index c9512c3..f8583f7 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -154,14 +154,15 @@ impl<'a, 'input> Node<'a, 'input> {
             })
     }
 
+    /// All text inside of the node, also when it is interrupted by comments or markup.
     pub fn text(&self) -> Option<Cow<'input, str>> {
         self.inner
-            .first_child()
-            .and_then(|child| if child.is_text() { Some(child) } else { None })
-            .and_then(|child| child.text())
-            // TODO: this currently always returns a &str, but is internally a Cow, find a way to
-            // retrieve the Cow instead of the &str to avoid unnecessary allocations
-            .map(|v| Cow::Owned(v.to_string()))
+            .descendants()
+            .filter(|child| child.is_text())
+            .filter_map(|child| child.text())
+            .map(String::from)
+            .reduce(|text, part| text + &part)
+            .map(Cow::Owned)
     }
 
     pub fn try_text(&self) -> Result<Cow<'input, str>, NodeError> {
diff --git a/xsd-internal/src/xsd/parse/annotation.rs b/xsd-internal/src/xsd/parse/annotation.rs
index e0e6b1a..17ef966 100644
--- a/xsd-internal/src/xsd/parse/annotation.rs
+++ b/xsd-internal/src/xsd/parse/annotation.rs
@@ -6,8 +6,7 @@ pub fn parse(node: Node<'_, '_>) -> Result<Option<String>, XsdError> {
     let mut children = node.children().namespace(NS_XSD).collect();
     let docs = children
         .remove("documentation", Some(NS_XSD))
-        .map(|child| child.try_text())
-        .transpose()?
+        .and_then(|child| child.text())
         .and_then(|text| {
             if !text.is_empty() {
                 Some(cleanup_docs(&text))
-- 
2.43.0


From 5804f153650ddff21a820abf05927a97ead28991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:43 +0000
Subject: [PATCH 23/25] fix: do not name a group like a group it consists of

---
 xsd-internal/src/xsd/context.rs               |  4 +++
 xsd-internal/src/xsd/parse/choice.rs          |  4 +--
 xsd-internal/src/xsd/parse/complex_content.rs |  2 +-
 xsd-internal/src/xsd/parse/complex_type.rs    |  2 +-
 xsd-internal/src/xsd/parse/mod.rs             | 33 ++++++++++++++++++-
 xsd-internal/src/xsd/parse/sequence.rs        |  4 +--
 6 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index ef0da44..234218b 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -79,6 +79,10 @@ impl<'input> Context<'input> {
         self.roots.insert(name, root);
     }
 
+    pub fn root(&self, name: &Name) -> Option<&Root> {
+        self.roots.get(name)
+    }
+
     pub fn into_schema(self) -> Schema {
         Schema {
             context: SchemaContext {
diff --git a/xsd-internal/src/xsd/parse/choice.rs b/xsd-internal/src/xsd/parse/choice.rs
index 0d71c10..bb4716a 100644
--- a/xsd-internal/src/xsd/parse/choice.rs
+++ b/xsd-internal/src/xsd/parse/choice.rs
@@ -29,10 +29,10 @@ where
                 let leaves = super::sequence::parse(child, parent, ctx)?;
                 let leaf_name =
                     super::derive_virtual_name(leaves.iter().map(|v| &v.name), ctx, true);
-                let root_name = super::derive_virtual_name(
+                let root_name = super::derive_group_name(
                     vec![parent, &leaf_name, &ctx.get_node_name("Variant", false)],
+                    &leaves,
                     ctx,
-                    false,
                 );
 
                 ctx.add_root(
diff --git a/xsd-internal/src/xsd/parse/complex_content.rs b/xsd-internal/src/xsd/parse/complex_content.rs
index 79640e2..6c2d3de 100644
--- a/xsd-internal/src/xsd/parse/complex_content.rs
+++ b/xsd-internal/src/xsd/parse/complex_content.rs
@@ -47,7 +47,7 @@ where
 
         let leaves = super::sequence::parse(child, parent, ctx)?;
         let leaf_name = ctx.get_node_name(&base_name.name, false);
-        let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
+        let root_name = super::derive_group_name(vec![parent, &leaf_name], &leaves, ctx);
 
         ctx.add_root(
             root_name.clone(),
diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index 79dc547..3a31b46 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -60,7 +60,7 @@ where
 
         if max_occurs.is_vec() || min_occurs != Default::default() {
             let leaf_name = super::derive_virtual_name(leaves.iter().map(|v| &v.name), ctx, true);
-            let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
+            let root_name = super::derive_group_name(vec![parent, &leaf_name], &leaves, ctx);
 
             ctx.add_root(
                 root_name.clone(),
diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index eecb47b..18b4a65 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -14,7 +14,7 @@ use inflector::Inflector;
 use super::context::Context;
 use super::error::XsdError;
 use super::node::Node;
-use crate::ast::Name;
+use crate::ast::{ElementContent, Leaf, LeafContent, Name, Root};
 
 fn derive_virtual_name<'a, 'input, 'b>(
     names: impl IntoIterator<Item = &'b Name> + Clone,
@@ -57,6 +57,37 @@ where
     ctx.get_node_name(&virtual_name, false)
 }
 
+/// Derives the name of the type of a group. A group must not get the name of a group that is part
+/// of it (e.g. a sequence that consists of nothing but a choice).
+fn derive_group_name<'input, 'b>(
+    names: Vec<&'b Name>,
+    leaves: &[Leaf],
+    ctx: &'b Context<'input>,
+) -> Name {
+    let mut name = derive_virtual_name(names, ctx, false);
+    while contains_type(leaves, &name, ctx) {
+        name = ctx.get_node_name(&format!("{}Group", name.name), false);
+    }
+    name
+}
+
+fn contains_type(leaves: &[Leaf], name: &Name, ctx: &Context) -> bool {
+    leaves.iter().any(|leaf| match &leaf.definition.content {
+        LeafContent::Named(n) if leaf.is_virtual => {
+            n == name
+                || match ctx.root(n) {
+                    Some(Root::Choice(choice)) => contains_type(&choice.variants, name, ctx),
+                    Some(Root::Element(el)) => match &el.content {
+                        Some(ElementContent::Leaves(leaves)) => contains_type(leaves, name, ctx),
+                        _ => false,
+                    },
+                    _ => false,
+                }
+        }
+        _ => false,
+    })
+}
+
 fn derive_mutal_prefix<'a>(names: impl IntoIterator<Item = &'a str>) -> Option<String> {
     let mut names = names.into_iter();
     if let Some(first) = names.next() {
diff --git a/xsd-internal/src/xsd/parse/sequence.rs b/xsd-internal/src/xsd/parse/sequence.rs
index e9e4fde..a75ee44 100644
--- a/xsd-internal/src/xsd/parse/sequence.rs
+++ b/xsd-internal/src/xsd/parse/sequence.rs
@@ -30,7 +30,7 @@ where
                 let variants = super::choice::parse(child, parent, ctx)?;
                 let leaf_name =
                     super::derive_virtual_name(variants.iter().map(|v| &v.name), ctx, true);
-                let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
+                let root_name = super::derive_group_name(vec![parent, &leaf_name], &variants, ctx);
 
                 ctx.add_root(
                     root_name.clone(),
@@ -63,7 +63,7 @@ where
                 let leaves = parse(child, parent, ctx)?;
                 let leaf_name =
                     super::derive_virtual_name(leaves.iter().map(|v| &v.name), ctx, true);
-                let root_name = super::derive_virtual_name(vec![parent, &leaf_name], ctx, false);
+                let root_name = super::derive_group_name(vec![parent, &leaf_name], &leaves, ctx);
 
                 ctx.add_root(
                     root_name.clone(),
-- 
2.43.0


From 9380b26d523f4795eac2cde84d82a2b7d21c5645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:00 +0000
Subject: [PATCH 24/25] fix: enumeration values with characters that
 identifiers cannot have

---
 xsd-internal/src/ast/root.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 5f9e06d..15144bc 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -437,6 +437,10 @@ impl Root {
     }
 }
 
+fn is_ident(s: &str) -> bool {
+    syn::parse_str::<Ident>(s).is_ok()
+}
+
 fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
     let mut unknown_count = 0;
     let mut enum_names = HashMap::with_capacity(names.len());
@@ -448,7 +452,8 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
             .filter_map(|c| match c {
                 '_' | '-' => Some('_'),
                 c => {
-                    if c.is_alphanumeric() {
+                    // not everything alphanumeric (e.g. `²`) is valid as part of an identifier
+                    if c.is_alphanumeric() && is_ident(&format!("_{}", c)) {
                         Some(c)
                     } else {
                         None
@@ -461,7 +466,7 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
             && variant_name
                 .chars()
                 .next()
-                .map(|c| !c.is_alphabetic())
+                .map(|c| !is_ident(&c.to_string()))
                 .unwrap_or(false)
         {
             variant_name = format!("V{}", variant_name);
-- 
2.43.0


From 263465e3b3c47b0d0a983341d8b732fe1285ce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:08 +0000
Subject: [PATCH 25/25] fix: documentation of only white space does not hide
 the documentation of the type

---
 xsd-internal/src/xsd/parse/annotation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/parse/annotation.rs b/xsd-internal/src/xsd/parse/annotation.rs
index 17ef966..e7e69d5 100644
--- a/xsd-internal/src/xsd/parse/annotation.rs
+++ b/xsd-internal/src/xsd/parse/annotation.rs
@@ -8,7 +8,7 @@ pub fn parse(node: Node<'_, '_>) -> Result<Option<String>, XsdError> {
         .remove("documentation", Some(NS_XSD))
         .and_then(|child| child.text())
         .and_then(|text| {
-            if !text.is_empty() {
+            if !text.trim().is_empty() {
                 Some(cleanup_docs(&text))
             } else {
                 None
-- 
2.43.0

