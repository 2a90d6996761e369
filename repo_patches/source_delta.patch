From ce014aabe7b731d724fad7af2af2485aa2982763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:16 +0000
Subject: [PATCH 01/34] fix: keep constant struct-literal fields in source
 order so output is deterministic

---
 src/bindgen/ir/constant.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index f96b2da..80e138f 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -3,9 +3,9 @@
  * file, You can obtain one at http://mozilla.org/MPL/2.0/. */
 
 use std::borrow::Cow;
-use std::collections::HashMap;
 use std::io::Write;
 
+use indexmap::IndexMap;
 use syn::ext::IdentExt;
 use syn::UnOp;
 
@@ -108,7 +108,7 @@ pub enum Literal {
     Struct {
         path: Path,
         export_name: String,
-        fields: HashMap<String, LiteralStructField>,
+        fields: IndexMap<String, LiteralStructField>,
     },
     Cast {
         ty: Type,
@@ -437,7 +437,7 @@ impl Literal {
                     } => name,
                     _ => return Err(format!("Unsupported call expression. {:?}", *expr)),
                 };
-                let mut fields = HashMap::<String, LiteralStructField>::default();
+                let mut fields = IndexMap::<String, LiteralStructField>::default();
                 for (index, arg) in args.iter().enumerate() {
                     let ident =
                         member_to_ident(&syn::Member::Unnamed(syn::Index::from(index))).to_string();
@@ -458,7 +458,7 @@ impl Literal {
                 ..
             }) => {
                 let struct_name = path.segments[0].ident.unraw().to_string();
-                let mut field_map = HashMap::<String, LiteralStructField>::default();
+                let mut field_map = IndexMap::<String, LiteralStructField>::default();
                 for field in fields {
                     let ident = member_to_ident(&field.member).to_string();
                     let cfg = Cfg::load(&field.attrs);
-- 
2.43.0


From 3073257fc1c07e47e047f87da2c8948d047c6e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:14 +0000
Subject: [PATCH 02/34] fix: instantiate generic types used by exported statics
 in C and Cython

---
 src/bindgen/ir/global.rs | 9 +++++++++
 src/bindgen/library.rs   | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/bindgen/ir/global.rs b/src/bindgen/ir/global.rs
index 7816a29..75c165a 100644
--- a/src/bindgen/ir/global.rs
+++ b/src/bindgen/ir/global.rs
@@ -9,6 +9,7 @@ use crate::bindgen::ir::{
     AnnotationSet, Cfg, Documentation, GenericParams, Item, ItemContainer, Path, Type,
 };
 use crate::bindgen::library::Library;
+use crate::bindgen::monomorph::Monomorphs;
 
 #[derive(Debug, Clone)]
 pub struct Static {
@@ -66,6 +67,14 @@ impl Static {
     pub fn simplify_standard_types(&mut self, config: &Config) {
         self.ty.simplify_standard_types(config);
     }
+
+    pub fn add_monomorphs(&self, library: &Library, out: &mut Monomorphs) {
+        self.ty.add_monomorphs(library, out);
+    }
+
+    pub fn mangle_paths(&mut self, monomorphs: &Monomorphs) {
+        self.ty.mangle_paths(monomorphs);
+    }
 }
 
 impl Item for Static {
diff --git a/src/bindgen/library.rs b/src/bindgen/library.rs
index 9bccceb..78fca44 100644
--- a/src/bindgen/library.rs
+++ b/src/bindgen/library.rs
@@ -405,6 +405,9 @@ impl Library {
         for x in &self.functions {
             x.add_monomorphs(self, &mut monomorphs);
         }
+        self.globals.for_all_items(|x| {
+            x.add_monomorphs(self, &mut monomorphs);
+        });
 
         // Insert the monomorphs into self
         for monomorph in monomorphs.drain_structs() {
@@ -442,5 +445,7 @@ impl Library {
         for x in &mut self.functions {
             x.mangle_paths(&monomorphs);
         }
+        self.globals
+            .for_all_items_mut(|x| x.mangle_paths(&monomorphs));
     }
 }
-- 
2.43.0


From 835d1a203ea45f4c92d2ccb0ffba6e4631b41162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:34 +0000
Subject: [PATCH 03/34] fix: recognise NonZeroUsize and NonZeroIsize by their
 real names

---
 src/bindgen/ir/ty.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/ir/ty.rs b/src/bindgen/ir/ty.rs
index dd4bf02..183c9d5 100644
--- a/src/bindgen/ir/ty.rs
+++ b/src/bindgen/ir/ty.rs
@@ -114,12 +114,12 @@ impl PrimitiveType {
             "NonZeroU16" => (IntKind::B16, false),
             "NonZeroU32" => (IntKind::B32, false),
             "NonZeroU64" => (IntKind::B64, false),
-            "NonZeroUSize" => (IntKind::Size, false),
+            "NonZeroUsize" | "NonZeroUSize" => (IntKind::Size, false),
             "NonZeroI8" => (IntKind::B8, true),
             "NonZeroI16" => (IntKind::B16, true),
             "NonZeroI32" => (IntKind::B32, true),
             "NonZeroI64" => (IntKind::B64, true),
-            "NonZeroISize" => (IntKind::Size, true),
+            "NonZeroIsize" | "NonZeroISize" => (IntKind::Size, true),
 
             _ => return None,
         };
-- 
2.43.0


From becc317df98c0dacddab9d8983c105ce8973896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:10 +0000
Subject: [PATCH 04/34] fix: a private associated constant no longer hides the
 public ones after it

---
 src/bindgen/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 7f004d1..9268e0f 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -792,7 +792,7 @@ impl Parse {
             if let syn::Visibility::Public(_) = item.vis {
             } else {
                 warn!("Skip {}::{} - (not `pub`).", crate_name, item.ident);
-                return;
+                continue;
             }
 
             let path = Path::new(item.ident.unraw().to_string() + impl_path.name());
-- 
2.43.0


From c733fd9f230329af8f1e698419a927981aa4401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:10 +0000
Subject: [PATCH 05/34] fix: apply cfg attributes of impl blocks to their
 methods and associated constants

---
 src/bindgen/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 9268e0f..798fff2 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -543,6 +543,7 @@ impl Parse {
 
                     if let syn::Type::Path(ref path) = *item_impl.self_ty {
                         if let Some(type_name) = path.path.get_ident() {
+                            let impl_cfg = Cfg::append(mod_cfg, Cfg::load(&item_impl.attrs));
                             for method in item_impl.items.iter().filter_map(|item| match item {
                                 syn::ImplItem::Fn(method) if !method.should_skip_parsing() => {
                                     Some(method)
@@ -553,7 +554,7 @@ impl Parse {
                                     config,
                                     binding_crate_name,
                                     crate_name,
-                                    mod_cfg,
+                                    impl_cfg.as_ref(),
                                     &Path::new(type_name.unraw().to_string()),
                                     method,
                                 )
@@ -592,9 +593,10 @@ impl Parse {
             }
             _ => None,
         });
+        let impl_cfg = Cfg::append(mod_cfg, Cfg::load(&item_impl.attrs));
         self.load_syn_assoc_consts(
             crate_name,
-            mod_cfg,
+            impl_cfg.as_ref(),
             &item_impl.self_ty,
             associated_constants,
         );
-- 
2.43.0


From 507c47ed7aaf6193a6a4df2ead22bdafd45eec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:10 +0000
Subject: [PATCH 06/34] fix: honour #[unsafe(export_name)] on statics

---
 src/bindgen/utilities.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bindgen/utilities.rs b/src/bindgen/utilities.rs
index 6c58b6d..b5d4450 100644
--- a/src/bindgen/utilities.rs
+++ b/src/bindgen/utilities.rs
@@ -65,6 +65,7 @@ impl SynItemHelpers for syn::ItemStatic {
     fn exported_name(&self) -> Option<String> {
         self.attrs
             .attr_name_value_lookup("export_name")
+            .or_else(|| self.unsafe_attr_name_value_lookup("export_name"))
             .or_else(|| {
                 if self.is_no_mangle() {
                     Some(self.ident.unraw().to_string())
-- 
2.43.0


From 4c5126ddc1eb623d1751f63db68180fdd5836682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:51 +0000
Subject: [PATCH 07/34] fix: escape reserved keywords used as union field names

---
 src/bindgen/ir/union.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bindgen/ir/union.rs b/src/bindgen/ir/union.rs
index 9c42583..d96b2f2 100644
--- a/src/bindgen/ir/union.rs
+++ b/src/bindgen/ir/union.rs
@@ -15,6 +15,7 @@ use crate::bindgen::library::Library;
 use crate::bindgen::mangle;
 use crate::bindgen::monomorph::Monomorphs;
 use crate::bindgen::rename::{IdentifierType, RenameRule};
+use crate::bindgen::reserved;
 use crate::bindgen::utilities::IterHelpers;
 
 #[derive(Debug, Clone)]
@@ -210,6 +211,10 @@ impl Item for Union {
                 field.name.insert(0, '_');
             }
         }
+
+        for field in &mut self.fields {
+            reserved::escape(&mut field.name);
+        }
     }
 
     fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
-- 
2.43.0


From 4aed57d216b3762e7a3d5450e88412def5b1dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:51 +0000
Subject: [PATCH 08/34] fix: escape reserved keywords produced by enum variant
 rename rules

---
 src/bindgen/ir/enumeration.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index aa83a78..864e70d 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -601,6 +601,14 @@ impl Item for Enum {
                     )
                 })
                 .collect();
+
+            // The rule may have turned a name into a reserved keyword.
+            for variant in &mut self.variants {
+                reserved::escape(&mut variant.export_name);
+                if let VariantBody::Body { ref mut name, .. } = variant.body {
+                    reserved::escape(name);
+                }
+            }
         }
     }
 
-- 
2.43.0


From d0c3466ba029d32dd503dff31834c485ea8441e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:51 +0000
Subject: [PATCH 09/34] fix: do not write a duplicate const qualifier for
 immutable statics

---
 src/bindgen/ir/ty.rs                   | 22 ++++++++++++++++++++++
 src/bindgen/language_backend/clike.rs  |  2 +-
 src/bindgen/language_backend/cython.rs |  2 +-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/ir/ty.rs b/src/bindgen/ir/ty.rs
index 183c9d5..5319733 100644
--- a/src/bindgen/ir/ty.rs
+++ b/src/bindgen/ir/ty.rs
@@ -473,6 +473,28 @@ impl Type {
         }
     }
 
+    /// Whether the declaration of this type already starts with a `const` qualifier.
+    pub fn declares_const_base(&self) -> bool {
+        let mut current = self;
+        let mut const_base = false;
+        loop {
+            match *current {
+                Type::Ptr {
+                    ref ty, is_const, ..
+                } => {
+                    const_base = is_const;
+                    current = ty;
+                }
+                Type::Array(ref ty, ..) => current = ty,
+                Type::FuncPtr { ref ret, .. } => {
+                    const_base = false;
+                    current = ret;
+                }
+                Type::Path(..) | Type::Primitive(..) => return const_base,
+            }
+        }
+    }
+
     pub fn make_zeroable(&self, new_zeroable: bool) -> Option<Self> {
         match *self {
             Type::Primitive(PrimitiveType::Integer {
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 4d927ab..7b50268 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -758,7 +758,7 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
         self.write_documentation(out, &s.documentation);
         out.write("extern ");
         if let Type::Ptr { is_const: true, .. } = s.ty {
-        } else if !s.mutable {
+        } else if !s.mutable && !s.ty.declares_const_base() {
             out.write("const ");
         }
         cdecl::write_field(self, out, &s.ty, &s.export_name, self.config);
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index ad5bb7b..2bf1c19 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -303,7 +303,7 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
         self.write_documentation(out, &s.documentation);
         out.write("extern ");
         if let Type::Ptr { is_const: true, .. } = s.ty {
-        } else if !s.mutable {
+        } else if !s.mutable && !s.ty.declares_const_base() {
             out.write("const ");
         }
         cdecl::write_field(self, out, &s.ty, &s.export_name, self.config);
-- 
2.43.0


From 9194c7fdb4f4f17df85e6fbdec8f5457166c206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:48 +0000
Subject: [PATCH 10/34] fix: keep constant struct-literal fields whose exported
 name differs from the source name

---
 src/bindgen/bindings.rs                | 14 ++++++++------
 src/bindgen/ir/constant.rs             |  9 ++++++++-
 src/bindgen/ir/structure.rs            | 19 ++++++++++++++++---
 src/bindgen/language_backend/clike.rs  |  4 ++--
 src/bindgen/language_backend/cython.rs |  4 ++--
 5 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index dbd0b7d..1cc487d 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -31,7 +31,7 @@ pub struct Bindings {
     /// appear in constant literals.
     enum_map: ItemMap<Enum>,
     typedef_map: ItemMap<Typedef>,
-    struct_fileds_memo: RefCell<HashMap<BindgenPath, Rc<Vec<String>>>>,
+    struct_fileds_memo: RefCell<HashMap<BindgenPath, Rc<Vec<(String, String)>>>>,
     pub globals: Vec<Static>,
     pub constants: Vec<Constant>,
     pub items: Vec<ItemContainer>,
@@ -137,7 +137,9 @@ impl Bindings {
         result
     }
 
-    pub fn struct_field_names(&self, path: &BindgenPath) -> Rc<Vec<String>> {
+    /// Lists the fields of the struct at `path` in declaration order, as pairs of
+    /// the name used in Rust struct literals and the exported name.
+    pub fn struct_field_names(&self, path: &BindgenPath) -> Rc<Vec<(String, String)>> {
         let mut memos = self.struct_fileds_memo.borrow_mut();
         if let Some(memo) = memos.get(path) {
             return memo.clone();
@@ -145,14 +147,14 @@ impl Bindings {
 
         let resolved_path = self.resolved_struct_path(path);
 
-        let mut fields = Vec::<String>::new();
+        let mut fields = Vec::<(String, String)>::new();
         self.struct_map.for_items(&resolved_path, |st| {
             let mut pos: usize = 0;
-            for field in &st.fields {
-                if let Some(found_pos) = fields.iter().position(|v| *v == field.name) {
+            for (field, source_name) in st.fields.iter().zip(&st.source_field_names) {
+                if let Some(found_pos) = fields.iter().position(|v| v.1 == field.name) {
                     pos = found_pos + 1;
                 } else {
-                    fields.insert(pos, field.name.clone());
+                    fields.insert(pos, (source_name.clone(), field.name.clone()));
                     pos += 1;
                 }
             }
diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 80e138f..ef69f45 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -774,7 +774,14 @@ impl Constant {
             if !out.bindings().struct_is_transparent(path) {
                 break;
             }
-            value = &fields.iter().next().unwrap().1.value
+            let names = out.bindings().struct_field_names(path);
+            let field = names
+                .first()
+                .and_then(|(source_name, _)| fields.get(source_name));
+            value = match field {
+                Some(field) => &field.value,
+                None => &fields.iter().next().unwrap().1.value,
+            }
         }
 
         language_backend.write_documentation(out, self.documentation());
diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index b481096..bb6daf6 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -27,6 +27,9 @@ pub struct Struct {
     pub export_name: String,
     pub generic_params: GenericParams,
     pub fields: Vec<Field>,
+    /// The names the fields have in struct literals of the Rust source, in the
+    /// order of `fields`.
+    pub source_field_names: Vec<String>,
     /// Whether there's a tag field on the body of this struct. When this is
     /// true, is_enum_variant_body is also guaranteed to be true.
     pub has_tag_field: bool,
@@ -71,6 +74,7 @@ impl Struct {
             layout_config.ensure_safe_to_represent(&align)?;
         }
 
+        let mut tuple_field_names = None;
         let fields = match item.fields {
             syn::Fields::Unit => Vec::new(),
             syn::Fields::Named(ref fields) => fields
@@ -80,9 +84,11 @@ impl Struct {
             syn::Fields::Unnamed(ref fields) => {
                 let mut out = Vec::new();
                 let mut current = 0;
-                for field in fields.unnamed.iter() {
+                let mut names = Vec::new();
+                for (index, field) in fields.unnamed.iter().enumerate() {
                     if let Some(mut ty) = Type::load(&field.ty)? {
                         ty.replace_self_with(&path);
+                        names.push(format!("_{index}"));
                         out.push(Field {
                             name: format!("{current}"),
                             ty,
@@ -93,6 +99,7 @@ impl Struct {
                         current += 1;
                     }
                 }
+                tuple_field_names = Some(names);
                 out
             }
         };
@@ -100,7 +107,7 @@ impl Struct {
         let has_tag_field = false;
         let is_enum_variant_body = false;
 
-        Ok(Struct::new(
+        let mut result = Struct::new(
             path,
             GenericParams::load(&item.generics)?,
             fields,
@@ -111,7 +118,11 @@ impl Struct {
             Cfg::append(mod_cfg, Cfg::load(&item.attrs)),
             AnnotationSet::load(&item.attrs)?,
             Documentation::load(&item.attrs),
-        ))
+        );
+        if let Some(names) = tuple_field_names {
+            result.source_field_names = names;
+        }
+        Ok(result)
     }
 
     #[allow(clippy::too_many_arguments)]
@@ -144,11 +155,13 @@ impl Struct {
         }
 
         let export_name = path.name().to_owned();
+        let source_field_names = fields.iter().map(|field| field.name.clone()).collect();
         Self {
             path,
             export_name,
             generic_params,
             fields,
+            source_field_names,
             has_tag_field,
             is_enum_variant_body,
             alignment,
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 7b50268..37ba381 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -921,8 +921,8 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
                 }
                 // In C++, same order as defined is required.
                 let ordered_fields = out.bindings().struct_field_names(path);
-                for (i, ordered_key) in ordered_fields.iter().enumerate() {
-                    if let Some(lit) = fields.get(ordered_key) {
+                for (i, (source_name, ordered_key)) in ordered_fields.iter().enumerate() {
+                    if let Some(lit) = fields.get(source_name) {
                         let condition = lit.cfg.to_condition(self.config);
                         if is_constexpr {
                             out.new_line();
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index 2bf1c19..2a374f8 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -403,8 +403,8 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
                 let mut is_first_field = true;
                 // In C++, same order as defined is required.
                 let ordered_fields = out.bindings().struct_field_names(path);
-                for ordered_key in ordered_fields.iter() {
-                    if let Some(lit) = fields.get(ordered_key) {
+                for (source_name, _) in ordered_fields.iter() {
+                    if let Some(lit) = fields.get(source_name) {
                         if !is_first_field {
                             write!(out, ", ");
                         } else {
-- 
2.43.0


From d5ecfad259a1b307dd6a2a75564c481441ae7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:27 +0000
Subject: [PATCH 11/34] fix: resolve enum variants in constants by their source
 name when a rename rule is set

---
 src/bindgen/ir/enumeration.rs | 41 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 864e70d..98bb4a0 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -572,33 +572,34 @@ impl Item for Enum {
             self.variants = self
                 .variants
                 .iter()
-                .map(|variant| {
-                    EnumVariant::new(
-                        r.apply(
+                .map(|variant| EnumVariant {
+                    // Keep the source name, constants refer to the variant by it.
+                    name: variant.name.clone(),
+                    export_name: r
+                        .apply(
                             &variant.export_name,
                             IdentifierType::EnumVariant {
                                 prefix: &self.export_name,
                             },
                         )
                         .into_owned(),
-                        variant.discriminant.clone(),
-                        match variant.body {
-                            VariantBody::Empty(..) => variant.body.clone(),
-                            VariantBody::Body {
-                                ref name,
-                                ref body,
-                                inline,
-                                inline_casts,
-                            } => VariantBody::Body {
-                                name: r.apply(name, IdentifierType::StructMember).into_owned(),
-                                body: body.clone(),
-                                inline,
-                                inline_casts,
-                            },
+                    discriminant: variant.discriminant.clone(),
+                    body: match variant.body {
+                        VariantBody::Empty(..) => variant.body.clone(),
+                        VariantBody::Body {
+                            ref name,
+                            ref body,
+                            inline,
+                            inline_casts,
+                        } => VariantBody::Body {
+                            name: r.apply(name, IdentifierType::StructMember).into_owned(),
+                            body: body.clone(),
+                            inline,
+                            inline_casts,
                         },
-                        variant.cfg.clone(),
-                        variant.documentation.clone(),
-                    )
+                    },
+                    cfg: variant.cfg.clone(),
+                    documentation: variant.documentation.clone(),
                 })
                 .collect();
 
-- 
2.43.0


From 22676832ef62d04d720c863caef3bfb7e406d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:18 +0000
Subject: [PATCH 12/34] fix: honour cbindgen:ignore on functions in extern
 blocks

---
 src/bindgen/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 798fff2..39e1463 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -619,6 +619,9 @@ impl Parse {
         let mod_cfg = Cfg::append(mod_cfg, Cfg::load(&item.attrs));
         for foreign_item in &item.items {
             if let syn::ForeignItem::Fn(ref function) = *foreign_item {
+                if function.attrs.as_slice().should_skip_parsing() {
+                    continue;
+                }
                 if !config
                     .parse
                     .should_generate_top_level_item(crate_name, binding_crate_name)
-- 
2.43.0


From ba50ad614a2183e67b3ca5eb98c994152f8f0708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:17 +0000
Subject: [PATCH 13/34] fix: do not refer to the nonexistent UINTn_MIN macros

---
 src/bindgen/ir/constant.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index ef69f45..b1812cb 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -44,6 +44,12 @@ pub(crate) fn to_known_assoc_constant(associated_to: &Path, name: &str) -> Optio
             signed,
             zeroable: _,
         } => match kind {
+            // <stdint.h> has no UINTn_MIN macros.
+            IntKind::B8 | IntKind::B16 | IntKind::B32 | IntKind::B64
+                if !signed && name == "MIN" =>
+            {
+                return Some("0".to_owned())
+            }
             IntKind::B8 => {
                 if signed {
                     "INT8"
-- 
2.43.0


From 9d94ee67bd4c9678485d462cebaada977bcc6a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:51 +0000
Subject: [PATCH 14/34] fix: do not write a duplicate const qualifier for
 constants of pointer type

---
 src/bindgen/ir/constant.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index b1812cb..7aea105 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -805,7 +805,7 @@ impl Constant {
 
                 if let Type::Ptr { is_const: true, .. } = self.ty {
                     // Nothing.
-                } else {
+                } else if !self.ty.declares_const_base() {
                     out.write("const ");
                 }
                 crate::bindgen::cdecl::write_field(language_backend, out, &self.ty, &name, config);
@@ -818,7 +818,9 @@ impl Constant {
                 language_backend.write_literal(out, value);
             }
             Language::Cython => {
-                out.write("const ");
+                if !self.ty.declares_const_base() {
+                    out.write("const ");
+                }
                 // For extern Cython declarations the initializer is ignored,
                 // but still useful as documentation, so we write it as a comment.
                 crate::bindgen::cdecl::write_field(language_backend, out, &self.ty, &name, config);
-- 
2.43.0


From 630aa3ce55f5fab2fa3dccdf6235b911baad8810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:23 +0000
Subject: [PATCH 15/34] fix: give tuple struct fields valid names when a rename
 rule leaves them numeric

---
 src/bindgen/ir/structure.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index bb6daf6..3f9b295 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -361,14 +361,13 @@ impl Item for Struct {
                 for (dest, src) in names.zip(o) {
                     *dest = src;
                 }
-            } else if let Some(r) = field_rules.not_none() {
-                for name in names {
-                    *name = r.apply(name, IdentifierType::StructMember).into_owned();
-                }
             } else {
-                // If we don't have any rules for a tuple struct, prefix them with
-                // an underscore so it still compiles.
                 for name in names {
+                    if let Some(r) = field_rules.not_none() {
+                        *name = r.apply(name, IdentifierType::StructMember).into_owned();
+                    }
+                    // If no rule gave the field of a tuple struct a usable name,
+                    // prefix it with an underscore so it still compiles.
                     if name.starts_with(|c: char| c.is_ascii_digit()) {
                         name.insert(0, '_');
                     }
-- 
2.43.0


From 8e2e7cc0d656f22dde203cf146fe5e53632063e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:51 +0000
Subject: [PATCH 16/34] fix: write pass in a Cython extern block when every
 item was filtered out

---
 src/bindgen/ir/constant.rs             |  2 +-
 src/bindgen/language_backend/cython.rs | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 7aea105..57cc81f 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -200,7 +200,7 @@ impl Literal {
         }
     }
 
-    fn is_valid(&self, bindings: &Bindings) -> bool {
+    pub(crate) fn is_valid(&self, bindings: &Bindings) -> bool {
         match *self {
             Literal::Expr(..) => true,
             Literal::Array { ref items } => items.iter().all(|i| i.is_valid(bindings)),
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index 2a374f8..d99dc01 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -421,11 +421,14 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
     fn write_functions<W: Write>(&mut self, out: &mut SourceWriter<W>, b: &Bindings) {
         self.write_functions_default(out, b);
 
-        if b.globals.is_empty()
-            && b.constants.is_empty()
-            && b.items.is_empty()
-            && b.functions.is_empty()
-        {
+        // The `cdef extern` block must not be empty, whatever the reason nothing was written.
+        let wrote_something = b.globals.iter().any(|g| g.annotations.should_export())
+            || b.constants.iter().any(|c| c.value.is_valid(b))
+            || b.items
+                .iter()
+                .any(|i| i.deref().annotations().should_export())
+            || b.functions.iter().any(|f| f.annotations.should_export());
+        if !wrote_something {
             out.write("pass");
         }
     }
-- 
2.43.0


From 4efcbe56b2a03180c17b0662c1d564f091db61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:14 +0000
Subject: [PATCH 17/34] fix: follow path attributes of modules the way rustc
 does

---
 src/bindgen/parser.rs | 100 ++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 53 deletions(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 39e1463..c8bbcc3 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -56,7 +56,7 @@ pub fn parse_src(src_file: &FilePath, config: &Config) -> ParseResult {
         version: None,
     };
 
-    context.parse_mod(&pkg_ref, src_file, 0)?;
+    context.parse_mod(&pkg_ref, src_file, 0, false)?;
     context.out.source_files = context.cache_src.keys().map(|k| k.to_owned()).collect();
     Ok(context.out)
 }
@@ -161,7 +161,7 @@ impl Parser<'_> {
             let crate_src = self.lib.as_ref().unwrap().find_crate_src(pkg);
 
             match crate_src {
-                Some(crate_src) => self.parse_mod(pkg, crate_src.as_path(), 0)?,
+                Some(crate_src) => self.parse_mod(pkg, crate_src.as_path(), 0, false)?,
                 None => {
                     // This should be an error, but is common enough to just elicit a warning
                     warn!(
@@ -232,6 +232,7 @@ impl Parser<'_> {
         pkg: &PackageRef,
         mod_path: &FilePath,
         depth: usize,
+        from_path_attr: bool,
     ) -> Result<(), Error> {
         let mod_items = match self.cache_src.entry(mod_path.to_path_buf()) {
             Entry::Vacant(vacant_entry) => {
@@ -263,7 +264,7 @@ impl Parser<'_> {
 
         let mod_dir = mod_path.parent().unwrap();
 
-        let is_mod_rs = depth == 0 || mod_path.ends_with("mod.rs");
+        let is_mod_rs = depth == 0 || from_path_attr || mod_path.ends_with("mod.rs");
         let submod_dir = if is_mod_rs {
             mod_dir
         } else {
@@ -334,63 +335,56 @@ impl Parser<'_> {
                 )?;
             } else if let Some(mod_dir) = mod_dir {
                 let submod_dir = submod_dir.unwrap();
+                let path_attr = item.attrs.iter().find_map(|attr| match &attr.meta {
+                    syn::Meta::NameValue(syn::MetaNameValue {
+                        path,
+                        value:
+                            syn::Expr::Lit(syn::ExprLit {
+                                lit: syn::Lit::Str(path_lit),
+                                ..
+                            }),
+                        ..
+                    }) if path.is_ident("path") => Some(path_lit.value()),
+                    _ => None,
+                });
                 let next_mod_path1 = submod_dir.join(next_mod_name.clone() + ".rs");
                 let next_mod_path2 = submod_dir.join(next_mod_name.clone()).join("mod.rs");
 
-                if next_mod_path1.exists() {
-                    self.parse_mod(pkg, next_mod_path1.as_path(), depth + 1)?;
+                if let Some(path_attr) = path_attr {
+                    // https://doc.rust-lang.org/reference/items/modules.html#the-path-attribute
+                    //
+                    //     For path attributes on modules not inside inline module blocks, the file path
+                    //     is relative to the directory the source file is located.
+                    //
+                    //     For path attributes inside inline module blocks, the relative location of the
+                    //     file path depends on the kind of source file the path attribute is located
+                    //     in.  "mod-rs" source files are root modules (such as lib.rs or main.rs) and
+                    //     modules with files named mod.rs. "non-mod-rs" source files are all other
+                    //     module files.
+                    //
+                    //     Paths for path attributes inside inline module blocks in a mod-rs file are
+                    //     relative to the directory of the mod-rs file including the inline module
+                    //     components as directories. For non-mod-rs files, it is the same except the
+                    //     path starts with a directory with the name of the non-mod-rs module.
+                    //
+                    let base = if is_inline && !is_in_mod_rs {
+                        submod_dir
+                    } else {
+                        mod_dir
+                    };
+                    // A file loaded through a path attribute acts as a "mod-rs" file.
+                    self.parse_mod(pkg, &base.join(path_attr), depth + 1, true)?;
+                } else if next_mod_path1.exists() {
+                    self.parse_mod(pkg, next_mod_path1.as_path(), depth + 1, false)?;
                 } else if next_mod_path2.exists() {
-                    self.parse_mod(pkg, next_mod_path2.as_path(), depth + 1)?;
+                    self.parse_mod(pkg, next_mod_path2.as_path(), depth + 1, false)?;
                 } else {
-                    // Last chance to find a module path
-                    let mut path_attr_found = false;
-                    for attr in &item.attrs {
-                        if let syn::Meta::NameValue(syn::MetaNameValue {
-                            path,
-                            value: syn::Expr::Lit(syn::ExprLit { lit, .. }),
-                            ..
-                        }) = &attr.meta
-                        {
-                            match lit {
-                                syn::Lit::Str(ref path_lit) if path.is_ident("path") => {
-                                    path_attr_found = true;
-                                    // https://doc.rust-lang.org/reference/items/modules.html#the-path-attribute
-                                    //
-                                    //     For path attributes on modules not inside inline module blocks, the file path
-                                    //     is relative to the directory the source file is located.
-                                    //
-                                    //     For path attributes inside inline module blocks, the relative location of the
-                                    //     file path depends on the kind of source file the path attribute is located
-                                    //     in.  "mod-rs" source files are root modules (such as lib.rs or main.rs) and
-                                    //     modules with files named mod.rs. "non-mod-rs" source files are all other
-                                    //     module files.
-                                    //
-                                    //     Paths for path attributes inside inline module blocks in a mod-rs file are
-                                    //     relative to the directory of the mod-rs file including the inline module
-                                    //     components as directories. For non-mod-rs files, it is the same except the
-                                    //     path starts with a directory with the name of the non-mod-rs module.
-                                    //
-                                    let base = if is_inline && !is_in_mod_rs {
-                                        submod_dir
-                                    } else {
-                                        mod_dir
-                                    };
-                                    self.parse_mod(pkg, &base.join(path_lit.value()), depth + 1)?;
-                                    break;
-                                }
-                                _ => (),
-                            }
-                        }
-                    }
-
                     // This should be an error, but it's common enough to
                     // just elicit a warning
-                    if !path_attr_found {
-                        warn!(
-                            "Parsing crate `{}`: can't find mod {}`.",
-                            pkg.name, next_mod_name
-                        );
-                    }
+                    warn!(
+                        "Parsing crate `{}`: can't find mod {}`.",
+                        pkg.name, next_mod_name
+                    );
                 }
             } else {
                 warn!(
-- 
2.43.0


From e5b45c06e4b30d9faf53e4d4537749187cbff874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:41 +0000
Subject: [PATCH 18/34] fix: find the binding crate by its manifest also when
 run with a relative path

---
 src/bindgen/cargo/cargo.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/cargo/cargo.rs b/src/bindgen/cargo/cargo.rs
index c8f820c..a4ba991 100644
--- a/src/bindgen/cargo/cargo.rs
+++ b/src/bindgen/cargo/cargo.rs
@@ -187,10 +187,16 @@ impl Cargo {
         // Keep a list of candidates in case the manifest check fails, so that the old behavior
         // still applies, returning the first package that was found
         let mut candidates = vec![];
+        // `cargo metadata` reports absolute paths, while ours may be relative.
+        let canonical_manifest_path = self.manifest_path.canonicalize().ok();
         for package in &self.metadata.packages {
             if package.name_and_version.name == package_name {
                 // If we are sure it is the right package return it
-                if Path::new(package.manifest_path.as_str()) == self.manifest_path {
+                let manifest_path = Path::new(package.manifest_path.as_str());
+                if manifest_path == self.manifest_path
+                    || (canonical_manifest_path.is_some()
+                        && manifest_path.canonicalize().ok() == canonical_manifest_path)
+                {
                     return Some(package.name_and_version.clone());
                 }
                 // Otherwise note that a package was found
-- 
2.43.0


From 397bb72f1f2233e2524db5ba22134961f0932050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:40 +0000
Subject: [PATCH 19/34] fix: keep the temporary target directory of macro
 expansion until it is done, and remove it then

---
 src/bindgen/cargo/cargo_expand.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bindgen/cargo/cargo_expand.rs b/src/bindgen/cargo/cargo_expand.rs
index ed46a58..fb9dc43 100644
--- a/src/bindgen/cargo/cargo_expand.rs
+++ b/src/bindgen/cargo/cargo_expand.rs
@@ -77,10 +77,11 @@ pub fn expand(
     let cargo = env::var("CARGO").unwrap_or_else(|_| String::from("cargo"));
     let mut cmd = Command::new(cargo);
 
-    let mut _temp_dir = None; // drop guard
+    let _temp_dir; // drop guard
     if use_tempdir {
-        _temp_dir = Some(Builder::new().prefix("cbindgen-expand").tempdir()?);
-        set_target_dir(&mut cmd, _temp_dir.unwrap().path());
+        let temp_dir = Builder::new().prefix("cbindgen-expand").tempdir()?;
+        set_target_dir(&mut cmd, temp_dir.path());
+        _temp_dir = Some(temp_dir);
     } else if let Ok(ref path) = env::var("CARGO_EXPAND_TARGET_DIR") {
         set_target_dir(&mut cmd, Path::new(path));
     } else if let Ok(ref path) = env::var("OUT_DIR") {
-- 
2.43.0


From 07d9310bf6c182bce9b5600ceda608475f6f1233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:08 +0000
Subject: [PATCH 20/34] fix: honour parse.clean and only_target_dependencies of
 the config file on the command line

---
 src/main.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e0c9cbd..825fbed 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -78,6 +78,10 @@ fn apply_config_overrides(config: &mut Config, matches: &ArgMatches) {
     if matches.get_flag("d") {
         config.parse.parse_deps = true;
     }
+
+    if matches.get_flag("clean") {
+        config.parse.clean = true;
+    }
 }
 
 fn load_bindings(input: &Path, matches: &ArgMatches) -> Result<Bindings, Error> {
@@ -102,15 +106,20 @@ fn load_bindings(input: &Path, matches: &ArgMatches) -> Result<Bindings, Error>
     }
 
     // We have to load a whole crate, so we use cargo to gather metadata
-    let lib = Cargo::load(
-        input,
-        matches.get_one::<PathBuf>("lockfile").map(|s| s.as_path()),
-        matches.get_one::<String>("crate").map(|s| s.as_str()),
-        true,
-        matches.get_flag("clean"),
-        matches.get_flag("only-target-dependencies"),
-        matches.get_one::<PathBuf>("metadata").map(|p| p.as_path()),
-    )?;
+    let load_crate = |clean, only_target_dependencies| {
+        Cargo::load(
+            input,
+            matches.get_one::<PathBuf>("lockfile").map(|s| s.as_path()),
+            matches.get_one::<String>("crate").map(|s| s.as_str()),
+            true,
+            clean,
+            only_target_dependencies,
+            matches.get_one::<PathBuf>("metadata").map(|p| p.as_path()),
+        )
+    };
+    let clean = matches.get_flag("clean");
+    let only_target_dependencies = matches.get_flag("only-target-dependencies");
+    let mut lib = load_crate(clean, only_target_dependencies)?;
 
     // Load any config specified or search in the binding crate directory
     let mut config = match matches.get_one::<PathBuf>("config") {
@@ -129,6 +138,11 @@ fn load_bindings(input: &Path, matches: &ArgMatches) -> Result<Bindings, Error>
 
     apply_config_overrides(&mut config, matches);
 
+    // The config may ask for more than the command line did
+    if config.parse.clean != clean || config.only_target_dependencies != only_target_dependencies {
+        lib = load_crate(config.parse.clean, config.only_target_dependencies)?;
+    }
+
     Builder::new()
         .with_config(config)
         .with_cargo(lib)
-- 
2.43.0


From 6c8ceb2b7d6990c7dc4c96de56b968035366de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:50 +0000
Subject: [PATCH 21/34] fix: a renamed identifier does not start with a digit

---
 src/bindgen/rename.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/rename.rs b/src/bindgen/rename.rs
index 3b61ed4..62a07a5 100644
--- a/src/bindgen/rename.rs
+++ b/src/bindgen/rename.rs
@@ -70,7 +70,7 @@ impl RenameRule {
             return Cow::Borrowed(text);
         }
 
-        Cow::Owned(match self {
+        let renamed = match self {
             RenameRule::None => return Cow::Borrowed(text),
             RenameRule::GeckoCase => context.to_str().to_owned() + &text.to_upper_camel_case(),
             RenameRule::LowerCase => text.to_lowercase(),
@@ -93,6 +93,13 @@ impl RenameRule {
                 result
             }
             RenameRule::Prefix(prefix) => prefix.to_owned() + text,
+        };
+
+        // The case conversions drop leading underscores, which are what makes `_0` an identifier.
+        Cow::Owned(if renamed.starts_with(|c: char| c.is_ascii_digit()) {
+            format!("_{renamed}")
+        } else {
+            renamed
         })
     }
 }
-- 
2.43.0


From 2cdb88533bb930e0fa3bf295baca105a42acf728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:09 +0000
Subject: [PATCH 22/34] fix: C++ operators of empty variants and casts to array
 fields compile

---
 src/bindgen/ir/enumeration.rs         | 24 +++++++++++++++++-------
 src/bindgen/ir/structure.rs           |  3 ++-
 src/bindgen/language_backend/clike.rs |  4 ++++
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 98bb4a0..d071707 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -1290,26 +1290,36 @@ impl Enum {
                     } else {
                         write_attrs!("mut-cast");
                     }
+                    let name = format!(
+                        "As{}(){}",
+                        variant.export_name,
+                        if const_casts { " const" } else { "" }
+                    );
                     if inline_casts {
                         let field = body.fields.last().unwrap();
                         let return_type = field.ty.clone();
+                        let needs_declarator =
+                            matches!(return_type, Type::Array(..) | Type::FuncPtr { .. });
                         let return_type = Type::Ptr {
                             ty: Box::new(return_type),
                             is_const: const_casts,
                             is_ref: true,
                             is_nullable: false,
                         };
-                        language_backend.write_type(out, &return_type);
+                        if needs_declarator {
+                            // The name goes inside the type, as in `int (&AsFoo())[3]`.
+                            let method = Field::from_name_and_type(name, return_type);
+                            write_field(language_backend, out, &method);
+                        } else {
+                            language_backend.write_type(out, &return_type);
+                            write!(out, " {name}");
+                        }
                     } else if const_casts {
-                        write!(out, "const {}&", body.export_name());
+                        write!(out, "const {}& {name}", body.export_name());
                     } else {
-                        write!(out, "{}&", body.export_name());
+                        write!(out, "{}& {name}", body.export_name());
                     }
 
-                    write!(out, " As{}()", variant.export_name);
-                    if const_casts {
-                        write!(out, " const");
-                    }
                     out.open_brace();
                     write!(out, "{}(Is{}());", assert_name, variant.export_name);
                     out.new_line();
diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index 3f9b295..bbe48b9 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -46,7 +46,8 @@ pub struct Struct {
 impl Struct {
     /// Whether this struct can derive operator== / operator!=.
     pub fn can_derive_eq(&self) -> bool {
-        !self.fields.is_empty() && self.fields.iter().all(|x| x.ty.can_cmp_eq())
+        self.fields.len() > self.has_tag_field as usize
+            && self.fields.iter().all(|x| x.ty.can_cmp_eq())
     }
 
     pub fn add_associated_constant(&mut self, c: Constant) {
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 37ba381..bc005c8 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -262,6 +262,10 @@ impl<'a> CLikeLanguageBackend<'a> {
         }
 
         let skip_fields = s.has_tag_field as usize;
+        if s.fields.len() == skip_fields {
+            // There is nothing to compare.
+            return;
+        }
 
         macro_rules! emit_op {
             ($op_name:expr, $op:expr, $conjuc:expr) => {{
-- 
2.43.0


From 212d07d98c059f733cbe6f33a5469546aba7aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:01 +0000
Subject: [PATCH 23/34] fix: derived ostream operators leave out variants that
 are configured out

---
 src/bindgen/ir/enumeration.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index d071707..56f97a4 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -1052,17 +1052,22 @@ impl Enum {
                 .variants
                 .iter()
                 .map(|x| {
-                    format!(
+                    let case = format!(
                         "case {}::{}: {} << \"{}\"; break;",
                         tag_name, x.export_name, stream, x.export_name
-                    )
+                    );
+                    (x.cfg.to_condition(config), case)
                 })
                 .collect();
             out.write_vertical_source_list(
                 language_backend,
                 &vec[..],
                 ListType::Join(""),
-                |_, out, s| write!(out, "{s}"),
+                |_, out, (condition, case)| {
+                    condition.write_before(config, out);
+                    write!(out, "{case}");
+                    condition.write_after(config, out);
+                },
             );
             out.close_brace(false);
             out.new_line();
@@ -1102,7 +1107,7 @@ impl Enum {
                     .iter()
                     .map(|x| {
                         let tag_str = format!("\"{}\"", x.export_name);
-                        if let VariantBody::Body {
+                        let case = if let VariantBody::Body {
                             ref name, ref body, ..
                         } = x.body
                         {
@@ -1121,14 +1126,19 @@ impl Enum {
                                 "case {}::{}: {} << {}; break;",
                                 tag_name, x.export_name, stream, tag_str,
                             )
-                        }
+                        };
+                        (x.cfg.to_condition(config), case)
                     })
                     .collect();
                 out.write_vertical_source_list(
                     language_backend,
                     &vec[..],
                     ListType::Join(""),
-                    |_, out, s| write!(out, "{s}"),
+                    |_, out, (condition, case)| {
+                        condition.write_before(config, out);
+                        write!(out, "{case}");
+                        condition.write_after(config, out);
+                    },
                 );
                 out.close_brace(false);
                 out.new_line();
-- 
2.43.0


From 1963a308dba3b4329719888d48a5608bc0f6b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:40 +0000
Subject: [PATCH 24/34] fix: names of derived C++ constructor arguments and of
 renamed cast fields are valid

---
 src/bindgen/ir/enumeration.rs         | 9 ++++++---
 src/bindgen/language_backend/clike.rs | 9 +++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 56f97a4..1dc3497 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -1175,11 +1175,14 @@ impl Enum {
                 condition.write_before(config, out);
 
                 let arg_renamer = |name: &str| {
-                    config
+                    let mut name = config
                         .function
                         .rename_args
                         .apply(name, IdentifierType::FunctionArg)
-                        .into_owned()
+                        .into_owned();
+                    // The rule may have turned a name into a reserved keyword.
+                    reserved::escape(&mut name);
+                    name
                 };
 
                 macro_rules! write_attrs {
@@ -1335,7 +1338,7 @@ impl Enum {
                     out.new_line();
                     write!(out, "return {member_name}");
                     if inline_casts {
-                        write!(out, "._0");
+                        write!(out, ".{}", body.fields.last().unwrap().name);
                     }
                     write!(out, ";");
                     out.close_brace(false);
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index bc005c8..999345d 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -5,6 +5,7 @@ use crate::bindgen::ir::{
 };
 use crate::bindgen::language_backend::LanguageBackend;
 use crate::bindgen::rename::IdentifierType;
+use crate::bindgen::reserved;
 use crate::bindgen::writer::{ListType, SourceWriter};
 use crate::bindgen::{cdecl, Bindings, Config, Language};
 use crate::bindgen::{DocumentationLength, DocumentationStyle};
@@ -131,11 +132,15 @@ impl<'a> CLikeLanguageBackend<'a> {
                 .fields
                 .iter()
                 .map(|field| {
-                    self.config
+                    let mut name = self
+                        .config
                         .function
                         .rename_args
                         .apply(&field.name, IdentifierType::FunctionArg)
-                        .into_owned()
+                        .into_owned();
+                    // The rule may have turned a name into a reserved keyword.
+                    reserved::escape(&mut name);
+                    name
                 })
                 .collect();
             write!(out, "{}(", s.export_name());
-- 
2.43.0


From 9a476f10f5b6879a9da11c356a5eec245000b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:33 +0000
Subject: [PATCH 25/34] fix: typed self receiver that is a reference is one
 pointer, not two

---
 src/bindgen/ir/function.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/bindgen/ir/function.rs b/src/bindgen/ir/function.rs
index e4bfb95..3dc7c68 100644
--- a/src/bindgen/ir/function.rs
+++ b/src/bindgen/ir/function.rs
@@ -223,19 +223,12 @@ trait SynFnArgHelpers {
 }
 
 fn gen_self_type(receiver: &syn::Receiver) -> Result<Type, String> {
-    let mut self_ty = Type::Path(GenericPath::self_path());
+    let self_ty = Type::Path(GenericPath::self_path());
 
     let is_const = match &receiver.kind {
         syn::ReceiverKind::Reference(_, _, mut_token) => mut_token.is_none(),
-        // Custom self type
-        syn::ReceiverKind::Typed(_, ty) => {
-            self_ty = Type::load(ty)?.unwrap_or(self_ty);
-
-            match &**ty {
-                syn::Type::Reference(ref_ty) => ref_ty.mutability.is_none(),
-                _ => return Ok(self_ty),
-            }
-        }
+        // Custom self type, which already says whether it is a reference
+        syn::ReceiverKind::Typed(_, ty) => return Ok(Type::load(ty)?.unwrap_or(self_ty)),
         syn::ReceiverKind::Value => return Ok(self_ty),
         _ => return Err(String::from("Receiver is of an unsupported kind")),
     };
-- 
2.43.0


From 5e0b2212d39d135d87d7a0c2cf18c56eaddf7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:56 +0000
Subject: [PATCH 26/34] fix: references to associated constants use the name
 the constant is declared with

---
 src/bindgen/bindings.rs                | 14 +++++++
 src/bindgen/ir/constant.rs             | 51 +++++---------------------
 src/bindgen/ir/structure.rs            | 30 +++++++++++++++
 src/bindgen/language_backend/clike.rs  | 13 +++----
 src/bindgen/language_backend/cython.rs |  4 ++
 5 files changed, 63 insertions(+), 49 deletions(-)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index 1cc487d..9faf99e 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -137,6 +137,20 @@ impl Bindings {
         result
     }
 
+    /// Returns how the constant `name` associated to the struct at `path` should be
+    /// referenced in generated code, or `None` if there's no such constant.
+    pub fn associated_constant_reference(&self, path: &BindgenPath, name: &str) -> Option<String> {
+        let mut result = None;
+        self.struct_map
+            .for_items(&self.resolved_struct_path(path), |s| {
+                if result.is_none() && s.associated_constants.iter().any(|c| c.export_name == name)
+                {
+                    result = Some(s.associated_constant_name(name, &self.config));
+                }
+            });
+        result
+    }
+
     /// Lists the fields of the struct at `path` in declaration order, as pairs of
     /// the name used in Rust struct literals and the exported name.
     pub fn struct_field_names(&self, path: &BindgenPath) -> Rc<Vec<(String, String)>> {
diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 57cc81f..43ac0c5 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -18,7 +18,6 @@ use crate::bindgen::ir::{
 };
 use crate::bindgen::language_backend::LanguageBackend;
 use crate::bindgen::library::Library;
-use crate::bindgen::rename::{IdentifierType, RenameRule};
 use crate::bindgen::writer::SourceWriter;
 use crate::bindgen::Bindings;
 
@@ -729,50 +728,20 @@ impl Constant {
             return;
         }
 
-        let associated_to_transparent = associated_to_struct.is_some_and(|s| s.is_transparent);
-
-        let in_body = associated_to_struct.is_some()
-            && config.language == Language::Cxx
-            && config.structure.associated_constants_in_body
-            && config.constant.allow_static_const
-            && !associated_to_transparent;
+        let in_body =
+            associated_to_struct.is_some_and(|s| s.has_associated_constants_in_body(config));
 
         let condition = self.cfg.to_condition(config);
         condition.write_before(config, out);
 
-        let name = if in_body {
-            Cow::Owned(format!(
-                "{}::{}",
-                associated_to_struct.unwrap().export_name(),
-                self.export_name(),
-            ))
-        } else if self.associated_to.is_none() {
-            Cow::Borrowed(self.export_name())
-        } else {
-            let associated_name = match associated_to_struct {
-                Some(s) => {
-                    let name = s.export_name();
-                    let rules = s
-                        .annotations
-                        .parse_atom::<RenameRule>("rename-associated-constant");
-                    let rules = rules
-                        .as_ref()
-                        .unwrap_or(&config.structure.rename_associated_constant);
-
-                    if let Some(r) = rules.not_none() {
-                        r.apply(name, IdentifierType::Type)
-                    } else {
-                        Cow::Borrowed(name)
-                    }
-                }
-                None => {
-                    let mut name = self.associated_to.as_ref().unwrap().name().to_owned();
-                    config.export.rename(&mut name);
-                    Cow::Owned(name)
-                }
-            };
-
-            Cow::Owned(format!("{}_{}", associated_name, self.export_name()))
+        let name = match (associated_to_struct, &self.associated_to) {
+            (Some(s), _) => Cow::Owned(s.associated_constant_name(self.export_name(), config)),
+            (None, None) => Cow::Borrowed(self.export_name()),
+            (None, Some(associated_to)) => {
+                let mut associated_name = associated_to.name().to_owned();
+                config.export.rename(&mut associated_name);
+                Cow::Owned(format!("{}_{}", associated_name, self.export_name()))
+            }
         };
 
         let mut value = &self.value;
diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index bbe48b9..d71602e 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -54,6 +54,36 @@ impl Struct {
         self.associated_constants.push(c);
     }
 
+    /// Whether the associated constants are members of the generated struct.
+    pub fn has_associated_constants_in_body(&self, config: &Config) -> bool {
+        config.language == Language::Cxx
+            && config.structure.associated_constants_in_body
+            && config.constant.allow_static_const
+            && !self.is_transparent
+    }
+
+    /// The name by which generated code refers to the associated constant `name`.
+    pub fn associated_constant_name(&self, name: &str, config: &Config) -> String {
+        if self.has_associated_constants_in_body(config) {
+            return format!("{}::{}", self.export_name(), name);
+        }
+
+        let rules = self
+            .annotations
+            .parse_atom::<RenameRule>("rename-associated-constant");
+        let rules = rules
+            .as_ref()
+            .unwrap_or(&config.structure.rename_associated_constant);
+        match rules.not_none() {
+            Some(r) => format!(
+                "{}_{}",
+                r.apply(self.export_name(), IdentifierType::Type),
+                name
+            ),
+            None => format!("{}_{}", self.export_name(), name),
+        }
+    }
+
     pub fn load(
         layout_config: &LayoutConfig,
         item: &syn::ItemStruct,
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 999345d..42f7219 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -868,14 +868,11 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
                     if let Some(variant) = out.bindings().enum_variant_reference(path, name) {
                         return write!(out, "{variant}");
                     }
-                    let path_separator = if self.config.language == Language::C {
-                        "_"
-                    } else if self.config.structure.associated_constants_in_body {
-                        "::"
-                    } else {
-                        "_"
-                    };
-                    write!(out, "{export_name}{path_separator}")
+                    if let Some(constant) = out.bindings().associated_constant_reference(path, name)
+                    {
+                        return write!(out, "{constant}");
+                    }
+                    write!(out, "{export_name}_")
                 }
                 write!(out, "{name}")
             }
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index d99dc01..82354d2 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -351,6 +351,10 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
                     if let Some(variant) = out.bindings().enum_variant_reference(path, name) {
                         return write!(out, "{variant}");
                     }
+                    if let Some(constant) = out.bindings().associated_constant_reference(path, name)
+                    {
+                        return write!(out, "{constant}");
+                    }
                     write!(out, "{export_name}_")
                 }
                 write!(out, "{name}")
-- 
2.43.0


From f0b08c101f2b2f223f9d4d3c74e23f2746ca3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:41 +0000
Subject: [PATCH 27/34] fix: constants that refer to an item of a type are
 emitted after the types

---
 src/bindgen/ir/constant.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 43ac0c5..9af1a48 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -282,6 +282,10 @@ impl Literal {
                 && match *lit {
                     Literal::Struct { .. } => false,
                     Literal::Cast { ref ty, .. } => ty.is_primitive_or_ptr_primitive(),
+                    Literal::Path {
+                        associated_to: Some((ref path, _)),
+                        ref name,
+                    } => to_known_assoc_constant(path, name).is_some(),
                     _ => true,
                 };
             uses_only_primitive_types
-- 
2.43.0


From 89c14ecedf867235f81e14359cf4610740ecc18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:17 +0000
Subject: [PATCH 28/34] fix: const casts to a function pointer payload compile

---
 src/bindgen/ir/enumeration.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 1dc3497..369a4cf 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -1313,11 +1313,16 @@ impl Enum {
                         let return_type = field.ty.clone();
                         let needs_declarator =
                             matches!(return_type, Type::Array(..) | Type::FuncPtr { .. });
-                        let return_type = Type::Ptr {
-                            ty: Box::new(return_type),
-                            is_const: const_casts,
-                            is_ref: true,
-                            is_nullable: false,
+                        let return_type = match return_type {
+                            // A reference to a function pointer cannot be made const, so that
+                            // the pointer itself is returned.
+                            Type::FuncPtr { .. } if const_casts => return_type,
+                            _ => Type::Ptr {
+                                ty: Box::new(return_type),
+                                is_const: const_casts,
+                                is_ref: true,
+                                is_nullable: false,
+                            },
                         };
                         if needs_declarator {
                             // The name goes inside the type, as in `int (&AsFoo())[3]`.
-- 
2.43.0


From fed04af1ae2a073b7555bcf6c1c4d7dfb7024175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:47 +0000
Subject: [PATCH 29/34] fix: control and Latin-1 character constants are valid
 C literals

---
 src/bindgen/ir/constant.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 9af1a48..5a94fd1 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -400,9 +400,11 @@ impl Literal {
             syn::Expr::Lit(syn::ExprLit { ref lit, .. }) => {
                 match lit {
                     syn::Lit::Byte(ref value) => Ok(Literal::Expr(format!("{}", value.value()))),
-                    syn::Lit::Char(ref value) => Ok(Literal::Expr(match value.value() as u32 {
-                        0..=255 => format!("'{}'", value.value().escape_default()),
-                        other_code => format!(r"U'\U{other_code:08X}'"),
+                    syn::Lit::Char(ref value) => Ok(Literal::Expr(match value.value() {
+                        c @ ('\t' | '\r' | '\n' | ' '..='~') => format!("'{}'", c.escape_default()),
+                        // C has no universal character names below U+00A0.
+                        c @ '\0'..='\u{9f}' => format!(r"U'\x{:02X}'", c as u32),
+                        c => format!(r"U'\U{:08X}'", c as u32),
                     })),
                     syn::Lit::Int(ref value) => {
                         let suffix = match value.suffix() {
-- 
2.43.0


From 2f0ea7ae2edfa8fdecd5d6057fce69ad90fa9418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:01 +0000
Subject: [PATCH 30/34] fix: a doubly negated constant is not written as a
 decrement

---
 src/bindgen/language_backend/clike.rs  | 9 ++++++++-
 src/bindgen/language_backend/cython.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 42f7219..dcff8f2 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -886,7 +886,14 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
             }
             Literal::PostfixUnaryOp { op, ref value } => {
                 write!(out, "{op}");
-                self.write_literal(out, value);
+                if matches!(**value, Literal::PostfixUnaryOp { op: inner, .. } if inner == *op) {
+                    // Without the parentheses, `- -1` would decrement.
+                    write!(out, "(");
+                    self.write_literal(out, value);
+                    write!(out, ")");
+                } else {
+                    self.write_literal(out, value);
+                }
             }
             Literal::BinOp {
                 ref left,
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index 82354d2..6994386 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -369,7 +369,14 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
             }
             Literal::PostfixUnaryOp { op, ref value } => {
                 write!(out, "{op}");
-                self.write_literal(out, value);
+                if matches!(**value, Literal::PostfixUnaryOp { op: inner, .. } if inner == *op) {
+                    // Without the parentheses, `- -1` would decrement.
+                    write!(out, "(");
+                    self.write_literal(out, value);
+                    write!(out, ")");
+                } else {
+                    self.write_literal(out, value);
+                }
             }
             Literal::BinOp {
                 ref left,
-- 
2.43.0


From fca393e41c17cc8a4b61a0a9f990e29970aff079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:18 +0000
Subject: [PATCH 31/34] fix: negated boolean constants are false when they
 should be

---
 src/bindgen/ir/constant.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 5a94fd1..cea229c 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -14,7 +14,7 @@ use crate::bindgen::declarationtyperesolver::DeclarationTypeResolver;
 use crate::bindgen::dependencies::Dependencies;
 use crate::bindgen::ir::{
     AnnotationSet, Cfg, ConditionWrite, Documentation, GenericParams, Item, ItemContainer, Path,
-    Struct, ToCondition, Type,
+    PrimitiveType, Struct, ToCondition, Type,
 };
 use crate::bindgen::language_backend::LanguageBackend;
 use crate::bindgen::library::Library;
@@ -295,6 +295,22 @@ impl Literal {
 }
 
 impl Literal {
+    /// Makes the negations in a boolean expression logical: a bitwise one would
+    /// apply to the promoted operand in C, and never be false.
+    fn negate_logically(&mut self) {
+        match self {
+            Literal::PostfixUnaryOp { op, value } if *op == "~" => {
+                *op = "!";
+                value.negate_logically();
+            }
+            Literal::BinOp { left, op, right } if matches!(*op, "&&" | "||" | "&" | "|" | "^") => {
+                left.negate_logically();
+                right.negate_logically();
+            }
+            _ => {}
+        }
+    }
+
     pub fn rename_for_config(&mut self, config: &Config) {
         match self {
             Literal::Struct {
@@ -582,6 +598,9 @@ impl Constant {
         };
 
         let mut lit = Literal::load(expr)?;
+        if let Type::Primitive(PrimitiveType::Bool) = ty {
+            lit.negate_logically();
+        }
 
         if let Some(ref associated_to) = associated_to {
             ty.replace_self_with(associated_to);
-- 
2.43.0


From 4204e76a2bd52ea375b117f59c2f2116270848e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:53 +0000
Subject: [PATCH 32/34] fix: generic enums that refer to themselves can be
 instantiated

---
 src/bindgen/ir/enumeration.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 369a4cf..61a6203 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -621,12 +621,6 @@ impl Item for Enum {
     ) {
         let mappings = self.generic_params.call(self.path.name(), generic_values);
 
-        for variant in &self.variants {
-            if let VariantBody::Body { ref body, .. } = variant.body {
-                body.instantiate_monomorph(generic_values, library, out);
-            }
-        }
-
         let mangled_path = mangle::mangle_path(
             &self.path,
             generic_values,
-- 
2.43.0


From 6f0ac4a163543eb283c753f07fd7221d4143f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:17 +0000
Subject: [PATCH 33/34] fix: Self in a generic type keeps its generic arguments

---
 src/bindgen/ir/constant.rs     |  4 ++--
 src/bindgen/ir/enumeration.rs  | 23 ++++++++++++++++++-----
 src/bindgen/ir/field.rs        | 10 +++++++---
 src/bindgen/ir/function.rs     |  8 +++++---
 src/bindgen/ir/generic_path.rs | 13 +++++++++++--
 src/bindgen/ir/structure.rs    |  7 ++++---
 src/bindgen/ir/ty.rs           |  6 +++---
 src/bindgen/ir/union.rs        |  5 +++--
 8 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index cea229c..9d96e48 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -177,7 +177,7 @@ impl Literal {
                 ref mut ty,
                 ref mut value,
             } => {
-                ty.replace_self_with(self_ty);
+                ty.replace_self_with(self_ty, GenericParams::empty());
                 value.replace_self_with(self_ty);
             }
             Literal::Path {
@@ -603,7 +603,7 @@ impl Constant {
         }
 
         if let Some(ref associated_to) = associated_to {
-            ty.replace_self_with(associated_to);
+            ty.replace_self_with(associated_to, GenericParams::empty());
             lit.replace_self_with(associated_to);
         }
 
diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 61a6203..d4ed3f0 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -117,6 +117,7 @@ impl EnumVariant {
             inline_tag_field: bool,
             fields: &syn::punctuated::Punctuated<syn::Field, syn::token::Comma>,
             self_path: &Path,
+            self_params: &GenericParams,
             inline_name: Option<&str>,
         ) -> Result<Vec<Field>, String> {
             let mut res = Vec::new();
@@ -130,7 +131,7 @@ impl EnumVariant {
 
             for (i, field) in fields.iter().enumerate() {
                 if let Some(mut ty) = Type::load(&field.ty)? {
-                    ty.replace_self_with(self_path);
+                    ty.replace_self_with(self_path, self_params);
                     res.push(Field {
                         name: inline_name.map_or_else(
                             || match field.ident {
@@ -174,8 +175,14 @@ impl EnumVariant {
                 VariantBody::Body {
                     body: Struct::new(
                         path,
-                        generic_params,
-                        parse_fields(inline_tag_field, &fields.named, self_path, None)?,
+                        generic_params.clone(),
+                        parse_fields(
+                            inline_tag_field,
+                            &fields.named,
+                            self_path,
+                            &generic_params,
+                            None,
+                        )?,
                         inline_tag_field,
                         true,
                         None,
@@ -208,8 +215,14 @@ impl EnumVariant {
                 VariantBody::Body {
                     body: Struct::new(
                         path,
-                        generic_params,
-                        parse_fields(inline_tag_field, &fields.unnamed, self_path, inline_name)?,
+                        generic_params.clone(),
+                        parse_fields(
+                            inline_tag_field,
+                            &fields.unnamed,
+                            self_path,
+                            &generic_params,
+                            inline_name,
+                        )?,
                         inline_tag_field,
                         true,
                         None,
diff --git a/src/bindgen/ir/field.rs b/src/bindgen/ir/field.rs
index 73019ee..e67db84 100644
--- a/src/bindgen/ir/field.rs
+++ b/src/bindgen/ir/field.rs
@@ -1,7 +1,7 @@
 use syn::ext::IdentExt;
 
 use crate::bindgen::ir::{AnnotationSet, Cfg};
-use crate::bindgen::ir::{Documentation, Path, Type};
+use crate::bindgen::ir::{Documentation, GenericParams, Path, Type};
 
 #[derive(Debug, Clone)]
 pub struct Field {
@@ -23,9 +23,13 @@ impl Field {
         }
     }
 
-    pub fn load(field: &syn::Field, self_path: &Path) -> Result<Option<Field>, String> {
+    pub fn load(
+        field: &syn::Field,
+        self_path: &Path,
+        self_params: &GenericParams,
+    ) -> Result<Option<Field>, String> {
         Ok(if let Some(mut ty) = Type::load(&field.ty)? {
-            ty.replace_self_with(self_path);
+            ty.replace_self_with(self_path, self_params);
             Some(Field {
                 name: field
                     .ident
diff --git a/src/bindgen/ir/function.rs b/src/bindgen/ir/function.rs
index 3dc7c68..725729f 100644
--- a/src/bindgen/ir/function.rs
+++ b/src/bindgen/ir/function.rs
@@ -9,7 +9,9 @@ use syn::ext::IdentExt;
 use crate::bindgen::config::{Config, Language};
 use crate::bindgen::declarationtyperesolver::DeclarationTypeResolver;
 use crate::bindgen::dependencies::Dependencies;
-use crate::bindgen::ir::{AnnotationSet, Cfg, Documentation, GenericPath, Path, Type};
+use crate::bindgen::ir::{
+    AnnotationSet, Cfg, Documentation, GenericParams, GenericPath, Path, Type,
+};
 use crate::bindgen::library::Library;
 use crate::bindgen::monomorph::Monomorphs;
 use crate::bindgen::rename::{IdentifierType, RenameRule};
@@ -60,9 +62,9 @@ impl Function {
 
         if let Some(self_path) = self_type_path {
             for arg in &mut args {
-                arg.ty.replace_self_with(self_path);
+                arg.ty.replace_self_with(self_path, GenericParams::empty());
             }
-            ret.replace_self_with(self_path);
+            ret.replace_self_with(self_path, GenericParams::empty());
         }
 
         Ok(Function {
diff --git a/src/bindgen/ir/generic_path.rs b/src/bindgen/ir/generic_path.rs
index 1b93a24..8a35e46 100644
--- a/src/bindgen/ir/generic_path.rs
+++ b/src/bindgen/ir/generic_path.rs
@@ -103,6 +103,15 @@ impl GenericParams {
         Ok(GenericParams(params))
     }
 
+    /// The arguments with which an item having these parameters names itself.
+    fn as_arguments(&self) -> Vec<GenericArgument> {
+        self.iter()
+            .map(|param| {
+                GenericArgument::Type(Type::Path(GenericPath::new(param.name.clone(), vec![])))
+            })
+            .collect()
+    }
+
     /// Associate each parameter with an argument.
     pub fn call<'out>(
         &'out self,
@@ -257,11 +266,11 @@ impl GenericPath {
         Self::new(Path::new("Self"), vec![])
     }
 
-    pub fn replace_self_with(&mut self, self_ty: &Path) {
+    pub fn replace_self_with(&mut self, self_ty: &Path, self_params: &GenericParams) {
         if self.path.replace_self_with(self_ty) {
             self_ty.name().clone_into(&mut self.export_name);
+            self.generics = self_params.as_arguments();
         }
-        // Caller deals with generics.
     }
 
     pub fn path(&self) -> &Path {
diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index d71602e..c3f8a37 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -105,20 +105,21 @@ impl Struct {
             layout_config.ensure_safe_to_represent(&align)?;
         }
 
+        let generic_params = GenericParams::load(&item.generics)?;
         let mut tuple_field_names = None;
         let fields = match item.fields {
             syn::Fields::Unit => Vec::new(),
             syn::Fields::Named(ref fields) => fields
                 .named
                 .iter()
-                .try_skip_map(|field| Field::load(field, &path))?,
+                .try_skip_map(|field| Field::load(field, &path, &generic_params))?,
             syn::Fields::Unnamed(ref fields) => {
                 let mut out = Vec::new();
                 let mut current = 0;
                 let mut names = Vec::new();
                 for (index, field) in fields.unnamed.iter().enumerate() {
                     if let Some(mut ty) = Type::load(&field.ty)? {
-                        ty.replace_self_with(&path);
+                        ty.replace_self_with(&path, &generic_params);
                         names.push(format!("_{index}"));
                         out.push(Field {
                             name: format!("{current}"),
@@ -140,7 +141,7 @@ impl Struct {
 
         let mut result = Struct::new(
             path,
-            GenericParams::load(&item.generics)?,
+            generic_params,
             fields,
             has_tag_field,
             is_enum_variant_body,
diff --git a/src/bindgen/ir/ty.rs b/src/bindgen/ir/ty.rs
index 5319733..78c9d65 100644
--- a/src/bindgen/ir/ty.rs
+++ b/src/bindgen/ir/ty.rs
@@ -593,11 +593,11 @@ impl Type {
         }
     }
 
-    pub fn replace_self_with(&mut self, self_ty: &Path) {
+    pub fn replace_self_with(&mut self, self_ty: &Path, self_params: &GenericParams) {
         if let Type::Path(ref mut generic_path) = *self {
-            generic_path.replace_self_with(self_ty);
+            generic_path.replace_self_with(self_ty, self_params);
         }
-        self.visit_types(|ty| ty.replace_self_with(self_ty))
+        self.visit_types(|ty| ty.replace_self_with(self_ty, self_params))
     }
 
     fn visit_types(&mut self, mut visitor: impl FnMut(&mut Type)) {
diff --git a/src/bindgen/ir/union.rs b/src/bindgen/ir/union.rs
index d96b2f2..fab5b8f 100644
--- a/src/bindgen/ir/union.rs
+++ b/src/bindgen/ir/union.rs
@@ -49,18 +49,19 @@ impl Union {
 
         let path = Path::new(item.ident.unraw().to_string());
 
+        let generic_params = GenericParams::load(&item.generics)?;
         let (fields, tuple_union) = {
             let out = item
                 .fields
                 .named
                 .iter()
-                .try_skip_map(|field| Field::load(field, &path))?;
+                .try_skip_map(|field| Field::load(field, &path, &generic_params))?;
             (out, false)
         };
 
         Ok(Union::new(
             path,
-            GenericParams::load(&item.generics)?,
+            generic_params,
             fields,
             repr.align,
             tuple_union,
-- 
2.43.0


From 75bbce2e95436c0c3ed3447910abdd616b7383fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:23 +0000
Subject: [PATCH 34/34] fix: documentation text does not end the comment it is
 written in

---
 src/bindgen/language_backend/clike.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index dcff8f2..21e4874 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -827,7 +827,13 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
                 DocumentationStyle::Auto => unreachable!(), // Auto case should always be covered
             }
 
-            write!(out, "{line}");
+            match style {
+                // The text must not end the comment it is in.
+                DocumentationStyle::C | DocumentationStyle::Doxy => {
+                    write!(out, "{}", line.replace("*/", "* /"))
+                }
+                _ => write!(out, "{line}"),
+            }
             out.new_line();
         }
 
-- 
2.43.0

