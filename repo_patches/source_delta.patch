From bfeb37ac21f454cc7c5591999950f8ce4c184110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 01/54] fix: self-referential generic tagged enums no longer
 recurse forever when monomorphized

Instantiating the variant bodies before registering the instantiation itself
made a pointer back to the enum instantiate it again (debug assertion, or
unbounded recursion in release builds).
---
 src/bindgen/ir/enumeration.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index aa83a78..028289c 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -612,12 +612,6 @@ impl Item for Enum {
     ) {
         let mappings = self.generic_params.call(self.path.name(), generic_values);
 
-        for variant in &self.variants {
-            if let VariantBody::Body { ref body, .. } = variant.body {
-                body.instantiate_monomorph(generic_values, library, out);
-            }
-        }
-
         let mangled_path = mangle::mangle_path(
             &self.path,
             generic_values,
@@ -638,7 +632,14 @@ impl Item for Enum {
             self.documentation.clone(),
         );
 
+        // Register the enum itself before its bodies, which may refer back to it through a pointer.
         out.insert_enum(library, self, monomorph, generic_values.to_owned());
+
+        for variant in &self.variants {
+            if let VariantBody::Body { ref body, .. } = variant.body {
+                body.instantiate_monomorph(generic_values, library, out);
+            }
+        }
     }
 
     fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
-- 
2.43.0


From f4b4223b34321d9d697df34af6ebf3024ac01adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:21 +0000
Subject: [PATCH 02/54] fix: instantiate generic types used by statics in C and
 Cython output

---
 src/bindgen/ir/global.rs | 9 +++++++++
 src/bindgen/library.rs   | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/bindgen/ir/global.rs b/src/bindgen/ir/global.rs
index 7816a29..75c165a 100644
--- a/src/bindgen/ir/global.rs
+++ b/src/bindgen/ir/global.rs
@@ -9,6 +9,7 @@ use crate::bindgen::ir::{
     AnnotationSet, Cfg, Documentation, GenericParams, Item, ItemContainer, Path, Type,
 };
 use crate::bindgen::library::Library;
+use crate::bindgen::monomorph::Monomorphs;
 
 #[derive(Debug, Clone)]
 pub struct Static {
@@ -66,6 +67,14 @@ impl Static {
     pub fn simplify_standard_types(&mut self, config: &Config) {
         self.ty.simplify_standard_types(config);
     }
+
+    pub fn add_monomorphs(&self, library: &Library, out: &mut Monomorphs) {
+        self.ty.add_monomorphs(library, out);
+    }
+
+    pub fn mangle_paths(&mut self, monomorphs: &Monomorphs) {
+        self.ty.mangle_paths(monomorphs);
+    }
 }
 
 impl Item for Static {
diff --git a/src/bindgen/library.rs b/src/bindgen/library.rs
index 9bccceb..78fca44 100644
--- a/src/bindgen/library.rs
+++ b/src/bindgen/library.rs
@@ -405,6 +405,9 @@ impl Library {
         for x in &self.functions {
             x.add_monomorphs(self, &mut monomorphs);
         }
+        self.globals.for_all_items(|x| {
+            x.add_monomorphs(self, &mut monomorphs);
+        });
 
         // Insert the monomorphs into self
         for monomorph in monomorphs.drain_structs() {
@@ -442,5 +445,7 @@ impl Library {
         for x in &mut self.functions {
             x.mangle_paths(&monomorphs);
         }
+        self.globals
+            .for_all_items_mut(|x| x.mangle_paths(&monomorphs));
     }
 }
-- 
2.43.0


From ffcae43e6452297a9a933363797bf62446f871dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:15 +0000
Subject: [PATCH 03/54] fix: qualify immutable statics themselves as const, not
 what they point to

'static X: [*mut u8; 2]' was declared as an array of pointers to const, and
'static F: extern fn()' as a pointer to a function returning a const type.
---
 src/bindgen/cdecl.rs                   | 14 ++++++++++++++
 src/bindgen/language_backend/clike.rs  | 13 ++++++++-----
 src/bindgen/language_backend/cython.rs | 13 ++++++++-----
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/bindgen/cdecl.rs b/src/bindgen/cdecl.rs
index c1baf98..61c1994 100644
--- a/src/bindgen/cdecl.rs
+++ b/src/bindgen/cdecl.rs
@@ -391,6 +391,20 @@ pub fn write_field<F: Write, LB: LanguageBackend>(
     CDecl::from_type(t, config).write(language_backend, out, Some(ident), config);
 }
 
+/// Like `write_field`, but qualifies the declared object itself as `const` if requested.
+pub fn write_global<F: Write, LB: LanguageBackend>(
+    language_backend: &mut LB,
+    out: &mut SourceWriter<F>,
+    t: &Type,
+    is_const: bool,
+    ident: &str,
+    config: &Config,
+) {
+    let mut cdecl = CDecl::new();
+    cdecl.build_type(t, is_const, config);
+    cdecl.write(language_backend, out, Some(ident), config);
+}
+
 pub fn write_type<F: Write, LB: LanguageBackend>(
     language_backend: &mut LB,
     out: &mut SourceWriter<F>,
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 4d927ab..5e2b20e 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -757,11 +757,14 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
 
         self.write_documentation(out, &s.documentation);
         out.write("extern ");
-        if let Type::Ptr { is_const: true, .. } = s.ty {
-        } else if !s.mutable {
-            out.write("const ");
-        }
-        cdecl::write_field(self, out, &s.ty, &s.export_name, self.config);
+        cdecl::write_global(
+            self,
+            out,
+            &s.ty,
+            !s.mutable,
+            &s.export_name,
+            self.config,
+        );
         out.write(";");
 
         condition.write_after(self.config, out);
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index ad5bb7b..bbdb135 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -302,11 +302,14 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
 
         self.write_documentation(out, &s.documentation);
         out.write("extern ");
-        if let Type::Ptr { is_const: true, .. } = s.ty {
-        } else if !s.mutable {
-            out.write("const ");
-        }
-        cdecl::write_field(self, out, &s.ty, &s.export_name, self.config);
+        cdecl::write_global(
+            self,
+            out,
+            &s.ty,
+            !s.mutable,
+            &s.export_name,
+            self.config,
+        );
         out.write(";");
 
         condition.write_after(self.config, out);
-- 
2.43.0


From aa6f88fc9f93e5300aae77f81c44fe6b48763bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:00 +0000
Subject: [PATCH 04/54] fix: a private associated constant no longer hides the
 public ones after it

---
 src/bindgen/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 7f004d1..9268e0f 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -792,7 +792,7 @@ impl Parse {
             if let syn::Visibility::Public(_) = item.vis {
             } else {
                 warn!("Skip {}::{} - (not `pub`).", crate_name, item.ident);
-                return;
+                continue;
             }
 
             let path = Path::new(item.ident.unraw().to_string() + impl_path.name());
-- 
2.43.0


From 51be74e3b0753c76c78a948d9701cb1979c49153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:00 +0000
Subject: [PATCH 05/54] fix: recognize #[unsafe(export_name = "...")] on
 statics

---
 src/bindgen/utilities.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bindgen/utilities.rs b/src/bindgen/utilities.rs
index 6c58b6d..b5d4450 100644
--- a/src/bindgen/utilities.rs
+++ b/src/bindgen/utilities.rs
@@ -65,6 +65,7 @@ impl SynItemHelpers for syn::ItemStatic {
     fn exported_name(&self) -> Option<String> {
         self.attrs
             .attr_name_value_lookup("export_name")
+            .or_else(|| self.unsafe_attr_name_value_lookup("export_name"))
             .or_else(|| {
                 if self.is_no_mangle() {
                     Some(self.ident.unraw().to_string())
-- 
2.43.0


From 0c5691ddba133d408885f4676a5e0ea2cda5b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:00 +0000
Subject: [PATCH 06/54] fix: honour cbindgen:ignore and cfg(test) on functions
 in extern blocks

---
 src/bindgen/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 9268e0f..fdd071d 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -617,6 +617,9 @@ impl Parse {
         let mod_cfg = Cfg::append(mod_cfg, Cfg::load(&item.attrs));
         for foreign_item in &item.items {
             if let syn::ForeignItem::Fn(ref function) = *foreign_item {
+                if function.attrs.should_skip_parsing() {
+                    continue;
+                }
                 if !config
                     .parse
                     .should_generate_top_level_item(crate_name, binding_crate_name)
-- 
2.43.0


From 91aabb89a614076ea6772dad2e1f65d8bc787feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:00 +0000
Subject: [PATCH 07/54] fix: apply the cfg of impl blocks and bitflags!
 invocations to what they contain

---
 src/bindgen/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index fdd071d..45462d9 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -541,6 +541,7 @@ impl Parse {
                         impls_with_assoc_consts.push(item_impl);
                     }
 
+                    let impl_cfg = Cfg::append(mod_cfg, Cfg::load(&item_impl.attrs));
                     if let syn::Type::Path(ref path) = *item_impl.self_ty {
                         if let Some(type_name) = path.path.get_ident() {
                             for method in item_impl.items.iter().filter_map(|item| match item {
@@ -553,7 +554,7 @@ impl Parse {
                                     config,
                                     binding_crate_name,
                                     crate_name,
-                                    mod_cfg,
+                                    impl_cfg.as_ref(),
                                     &Path::new(type_name.unraw().to_string()),
                                     method,
                                 )
@@ -592,9 +593,10 @@ impl Parse {
             }
             _ => None,
         });
+        let impl_cfg = Cfg::append(mod_cfg, Cfg::load(&item_impl.attrs));
         self.load_syn_assoc_consts(
             crate_name,
-            mod_cfg,
+            impl_cfg.as_ref(),
             &item_impl.self_ty,
             associated_constants,
         );
@@ -1029,6 +1031,9 @@ impl Parse {
             transparent
         };
 
+        let macro_cfg = Cfg::append(mod_cfg, Cfg::load(&item.attrs));
+        let mod_cfg = macro_cfg.as_ref();
+
         let (struct_, impl_) = bitflags.expand(out_of_line_transparent);
         if let Some(struct_) = struct_ {
             self.load_syn_struct(config, crate_name, mod_cfg, &struct_);
-- 
2.43.0


From f536db19f1a0ffc247d8a109492a0c22a19ac24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:18 +0000
Subject: [PATCH 08/54] fix: parenthesize nested unary operators in constants

`-(-5)` was written as `--5`.
---
 src/bindgen/language_backend/clike.rs  | 8 ++++++++
 src/bindgen/language_backend/cython.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 5e2b20e..9b5497e 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -883,7 +883,15 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
             }
             Literal::PostfixUnaryOp { op, ref value } => {
                 write!(out, "{op}");
+                // Two adjacent operators could merge into a single token, like `--`.
+                let nested = matches!(**value, Literal::PostfixUnaryOp { .. });
+                if nested {
+                    write!(out, "(");
+                }
                 self.write_literal(out, value);
+                if nested {
+                    write!(out, ")");
+                }
             }
             Literal::BinOp {
                 ref left,
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index bbdb135..3fc3a8d 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -368,7 +368,15 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
             }
             Literal::PostfixUnaryOp { op, ref value } => {
                 write!(out, "{op}");
+                // Two adjacent operators could merge into a single token, like `--`.
+                let nested = matches!(**value, Literal::PostfixUnaryOp { .. });
+                if nested {
+                    write!(out, "(");
+                }
                 self.write_literal(out, value);
+                if nested {
+                    write!(out, ")");
+                }
             }
             Literal::BinOp {
                 ref left,
-- 
2.43.0


From fbc5988d9cc63fb1cda5cbde4fa6baf07d92bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:18 +0000
Subject: [PATCH 09/54] fix: write control and Latin-1 character constants as
 valid C literals

`char::escape_default` produces Rust's \u{..} syntax for them, which C and
C++ reject.
---
 src/bindgen/ir/constant.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index f96b2da..3c3c820 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -392,7 +392,11 @@ impl Literal {
                 match lit {
                     syn::Lit::Byte(ref value) => Ok(Literal::Expr(format!("{}", value.value()))),
                     syn::Lit::Char(ref value) => Ok(Literal::Expr(match value.value() as u32 {
-                        0..=255 => format!("'{}'", value.value().escape_default()),
+                        0x09 | 0x0A | 0x0D | 0x20..=0x7E => {
+                            format!("'{}'", value.value().escape_default())
+                        }
+                        // Universal character names can't denote control characters.
+                        control_code @ 0..=0x9F => format!(r"U'\x{control_code:02X}'"),
                         other_code => format!(r"U'\U{other_code:08X}'"),
                     })),
                     syn::Lit::Int(ref value) => {
-- 
2.43.0


From c744ddaad3934e118358c90f6edb1d737e6be8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:18 +0000
Subject: [PATCH 10/54] fix: keep suffix-only float literals (1f32) floating
 point in constants

---
 src/bindgen/ir/constant.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 3c3c820..cf27eca 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -404,6 +404,8 @@ impl Literal {
                             "u64" => "ull",
                             "i64" => "ll",
                             "u32" => "u",
+                            // `1f32` must not turn into an integer literal.
+                            "f32" | "f64" => ".0",
                             _ if value.base10_parse::<i64>().is_err() => "ull",
                             _ => "",
                         };
-- 
2.43.0


From c9e3e9d39eda21e8055871945aa3c3511ab5ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:18 +0000
Subject: [PATCH 11/54] fix: negate bool constants with ! rather than ~

`!true` was written as `~true`, which is true again.
---
 src/bindgen/ir/constant.rs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index cf27eca..2be0ddd 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -14,7 +14,7 @@ use crate::bindgen::declarationtyperesolver::DeclarationTypeResolver;
 use crate::bindgen::dependencies::Dependencies;
 use crate::bindgen::ir::{
     AnnotationSet, Cfg, ConditionWrite, Documentation, GenericParams, Item, ItemContainer, Path,
-    Struct, ToCondition, Type,
+    PrimitiveType, Struct, ToCondition, Type,
 };
 use crate::bindgen::language_backend::LanguageBackend;
 use crate::bindgen::library::Library;
@@ -31,7 +31,7 @@ fn member_to_ident(member: &syn::Member) -> String {
 
 // TODO: Maybe add support to more std associated constants.
 pub(crate) fn to_known_assoc_constant(associated_to: &Path, name: &str) -> Option<String> {
-    use crate::bindgen::ir::{IntKind, PrimitiveType};
+    use crate::bindgen::ir::IntKind;
 
     if name != "MAX" && name != "MIN" {
         return None;
@@ -258,6 +258,35 @@ impl Literal {
         }
     }
 
+    /// Whether this expression is known to be a `bool`, regardless of its context.
+    fn is_bool(&self) -> bool {
+        match self {
+            Literal::Expr(value) => value == "true" || value == "false",
+            Literal::PostfixUnaryOp { op, .. } => *op == "!",
+            Literal::BinOp { left, op, right } => match *op {
+                "&&" | "||" | "==" | "!=" | "<" | "<=" | ">" | ">=" => true,
+                "&" | "|" | "^" => left.is_bool() || right.is_bool(),
+                _ => false,
+            },
+            _ => false,
+        }
+    }
+
+    /// Turns the negations in an expression of type `bool` into logical ones.
+    fn use_logical_not(&mut self) {
+        match self {
+            Literal::PostfixUnaryOp { op, value } if *op == "~" || *op == "!" => {
+                *op = "!";
+                value.use_logical_not();
+            }
+            Literal::BinOp { left, op, right } if matches!(*op, "&&" | "||" | "&" | "|" | "^") => {
+                left.use_logical_not();
+                right.use_logical_not();
+            }
+            _ => {}
+        }
+    }
+
     fn has_pointer_casts(&self) -> bool {
         let mut has_pointer_casts = false;
         self.visit(&mut |lit| {
@@ -485,7 +514,7 @@ impl Literal {
                 UnOp::Not(_) => {
                     let val = Self::load(expr)?;
                     Ok(Literal::PostfixUnaryOp {
-                        op: "~",
+                        op: if val.is_bool() { "!" } else { "~" },
                         value: Box::new(val),
                     })
                 }
@@ -577,6 +606,9 @@ impl Constant {
         };
 
         let mut lit = Literal::load(expr)?;
+        if let Type::Primitive(PrimitiveType::Bool) = ty {
+            lit.use_logical_not();
+        }
 
         if let Some(ref associated_to) = associated_to {
             ty.replace_self_with(associated_to);
-- 
2.43.0


From 25eac13ae34db379e9716c47023a1ba581192693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:45 +0000
Subject: [PATCH 12/54] fix: tuple struct fields stay identifiers under
 rename_fields rules

With e.g. rename_fields = "camelCase" they were written as plain digits.
---
 src/bindgen/ir/structure.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index b481096..c0176e8 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -352,18 +352,15 @@ impl Item for Struct {
                 for name in names {
                     *name = r.apply(name, IdentifierType::StructMember).into_owned();
                 }
-            } else {
-                // If we don't have any rules for a tuple struct, prefix them with
-                // an underscore so it still compiles.
-                for name in names {
-                    if name.starts_with(|c: char| c.is_ascii_digit()) {
-                        name.insert(0, '_');
-                    }
-                }
             }
         }
 
         for field in &mut self.fields {
+            // If no rule turned the index of a tuple field into an identifier,
+            // prefix it with an underscore so it still compiles.
+            if field.name.starts_with(|c: char| c.is_ascii_digit()) {
+                field.name.insert(0, '_');
+            }
             reserved::escape(&mut field.name);
         }
 
-- 
2.43.0


From 0aba7b3a7bebf138892977a42b2674368ba9f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:33 +0000
Subject: [PATCH 13/54] fix: resolve enum variants in constants after variant
 renaming

rename_variants replaced the Rust name that constants refer to, so they used a
name that is not declared.
---
 src/bindgen/ir/enumeration.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 028289c..05c8446 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -573,7 +573,7 @@ impl Item for Enum {
                 .variants
                 .iter()
                 .map(|variant| {
-                    EnumVariant::new(
+                    let mut renamed = EnumVariant::new(
                         r.apply(
                             &variant.export_name,
                             IdentifierType::EnumVariant {
@@ -598,7 +598,10 @@ impl Item for Enum {
                         },
                         variant.cfg.clone(),
                         variant.documentation.clone(),
-                    )
+                    );
+                    // Keep the Rust name, constants refer to variants by it.
+                    renamed.name.clone_from(&variant.name);
+                    renamed
                 })
                 .collect();
         }
-- 
2.43.0


From 5656e0e7b1615465a9e3b7ff25d932fd51444291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:57 +0000
Subject: [PATCH 14/54] fix: keep the values of renamed fields in struct
 constants

Struct literals were matched against the exported field names, so any renamed
or keyword-escaped field silently vanished from the initializer.
---
 src/bindgen/bindings.rs                | 14 ++++++++------
 src/bindgen/ir/structure.rs            | 13 +++++++++++++
 src/bindgen/language_backend/clike.rs  |  4 ++--
 src/bindgen/language_backend/cython.rs |  4 ++--
 4 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index dbd0b7d..4c62dc8 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -31,7 +31,7 @@ pub struct Bindings {
     /// appear in constant literals.
     enum_map: ItemMap<Enum>,
     typedef_map: ItemMap<Typedef>,
-    struct_fileds_memo: RefCell<HashMap<BindgenPath, Rc<Vec<String>>>>,
+    struct_fileds_memo: RefCell<HashMap<BindgenPath, Rc<Vec<(String, String)>>>>,
     pub globals: Vec<Static>,
     pub constants: Vec<Constant>,
     pub items: Vec<ItemContainer>,
@@ -137,7 +137,9 @@ impl Bindings {
         result
     }
 
-    pub fn struct_field_names(&self, path: &BindgenPath) -> Rc<Vec<String>> {
+    /// Returns the names of the fields of a struct in order, each as struct literals
+    /// spell it and as it's exported.
+    pub fn struct_field_names(&self, path: &BindgenPath) -> Rc<Vec<(String, String)>> {
         let mut memos = self.struct_fileds_memo.borrow_mut();
         if let Some(memo) = memos.get(path) {
             return memo.clone();
@@ -145,14 +147,14 @@ impl Bindings {
 
         let resolved_path = self.resolved_struct_path(path);
 
-        let mut fields = Vec::<String>::new();
+        let mut fields = Vec::<(String, String)>::new();
         self.struct_map.for_items(&resolved_path, |st| {
             let mut pos: usize = 0;
-            for field in &st.fields {
-                if let Some(found_pos) = fields.iter().position(|v| *v == field.name) {
+            for (literal_name, field) in st.literal_field_names.iter().zip(&st.fields) {
+                if let Some(found_pos) = fields.iter().position(|(_, v)| *v == field.name) {
                     pos = found_pos + 1;
                 } else {
-                    fields.insert(pos, field.name.clone());
+                    fields.insert(pos, (literal_name.clone(), field.name.clone()));
                     pos += 1;
                 }
             }
diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index c0176e8..33afdaa 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -27,6 +27,8 @@ pub struct Struct {
     pub export_name: String,
     pub generic_params: GenericParams,
     pub fields: Vec<Field>,
+    /// The names of the fields before any renaming, as struct literals spell them.
+    pub literal_field_names: Vec<String>,
     /// Whether there's a tag field on the body of this struct. When this is
     /// true, is_enum_variant_body is also guaranteed to be true.
     pub has_tag_field: bool,
@@ -144,11 +146,22 @@ impl Struct {
         }
 
         let export_name = path.name().to_owned();
+        let literal_field_names = fields
+            .iter()
+            .map(|field| {
+                if field.name.starts_with(|c: char| c.is_ascii_digit()) {
+                    format!("_{}", field.name)
+                } else {
+                    field.name.clone()
+                }
+            })
+            .collect();
         Self {
             path,
             export_name,
             generic_params,
             fields,
+            literal_field_names,
             has_tag_field,
             is_enum_variant_body,
             alignment,
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 9b5497e..a05528d 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -932,8 +932,8 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
                 }
                 // In C++, same order as defined is required.
                 let ordered_fields = out.bindings().struct_field_names(path);
-                for (i, ordered_key) in ordered_fields.iter().enumerate() {
-                    if let Some(lit) = fields.get(ordered_key) {
+                for (i, (literal_name, ordered_key)) in ordered_fields.iter().enumerate() {
+                    if let Some(lit) = fields.get(literal_name) {
                         let condition = lit.cfg.to_condition(self.config);
                         if is_constexpr {
                             out.new_line();
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index 3fc3a8d..5070c84 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -414,8 +414,8 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
                 let mut is_first_field = true;
                 // In C++, same order as defined is required.
                 let ordered_fields = out.bindings().struct_field_names(path);
-                for ordered_key in ordered_fields.iter() {
-                    if let Some(lit) = fields.get(ordered_key) {
+                for (literal_name, _) in ordered_fields.iter() {
+                    if let Some(lit) = fields.get(literal_name) {
                         if !is_first_field {
                             write!(out, ", ");
                         } else {
-- 
2.43.0


From 245772ff9049ac3430c585be6ec8adcacd241c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:56 +0000
Subject: [PATCH 15/54] fix: declare C++ constants after the enums and
 associated constants they use

---
 src/bindgen/ir/constant.rs          | 22 ++++++++++++++++++-
 src/bindgen/language_backend/mod.rs | 34 ++++++++++++++++++++++++-----
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 2be0ddd..e5ffcb3 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -3,7 +3,7 @@
  * file, You can obtain one at http://mozilla.org/MPL/2.0/. */
 
 use std::borrow::Cow;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Write;
 
 use syn::ext::IdentExt;
@@ -659,6 +659,26 @@ impl Constant {
     pub fn uses_only_primitive_types(&self) -> bool {
         self.value.uses_only_primitive_types() && self.ty.is_primitive_or_ptr_primitive()
     }
+
+    /// Whether the value refers to something declared along with a type (an enum
+    /// variant or an associated constant), or to one of the given constants.
+    pub fn refers_to_items_or(&self, constants: &HashSet<&str>) -> bool {
+        let mut result = false;
+        self.value.visit(&mut |lit| {
+            if let Literal::Path {
+                associated_to,
+                name,
+            } = lit
+            {
+                result |= match associated_to {
+                    Some((path, _)) => to_known_assoc_constant(path, name).is_none(),
+                    None => constants.contains(name.as_str()),
+                };
+            }
+            !result
+        });
+        result
+    }
 }
 
 impl Item for Constant {
diff --git a/src/bindgen/language_backend/mod.rs b/src/bindgen/language_backend/mod.rs
index 0e8f99f..aa1a4d0 100644
--- a/src/bindgen/language_backend/mod.rs
+++ b/src/bindgen/language_backend/mod.rs
@@ -1,11 +1,13 @@
+use crate::bindgen::config::Language;
 use crate::bindgen::ir::{
-    cfg::ConditionWrite, DeprecatedNoteKind, Documentation, Enum, Function, ItemContainer, Literal,
-    OpaqueItem, Static, Struct, ToCondition, Type, Typedef, Union,
+    cfg::ConditionWrite, DeprecatedNoteKind, Documentation, Enum, Function, Item, ItemContainer,
+    Literal, OpaqueItem, Static, Struct, ToCondition, Type, Typedef, Union,
 };
 use crate::bindgen::writer::SourceWriter;
 use crate::bindgen::{cdecl, Bindings, Layout};
 use crate::Config;
 
+use std::collections::HashSet;
 use std::io::Write;
 
 mod clike;
@@ -14,6 +16,26 @@ mod cython;
 pub use clike::CLikeLanguageBackend;
 pub use cython::CythonLanguageBackend;
 
+/// For each constant, whether it has to be written after the types.
+fn constants_after_items(b: &Bindings) -> Vec<bool> {
+    // Macros are only expanded where they're used, but the initializer of a typed
+    // constant can only use what is already declared.
+    let typed = b.config.language == Language::Cxx
+        && (b.config.constant.allow_static_const || b.config.constant.allow_constexpr);
+    let mut names = HashSet::new();
+    b.constants
+        .iter()
+        .map(|constant| {
+            let after_items = !constant.uses_only_primitive_types()
+                || (typed && constant.refers_to_items_or(&names));
+            if after_items && constant.associated_to.is_none() {
+                names.insert(constant.export_name());
+            }
+            after_items
+        })
+        .collect()
+}
+
 pub trait LanguageBackend: Sized {
     fn open_namespaces<W: Write>(&mut self, out: &mut SourceWriter<W>);
     fn close_namespaces<W: Write>(&mut self, out: &mut SourceWriter<W>);
@@ -130,8 +152,8 @@ pub trait LanguageBackend: Sized {
     }
 
     fn write_primitive_constants<W: Write>(&mut self, out: &mut SourceWriter<W>, b: &Bindings) {
-        for constant in &b.constants {
-            if constant.uses_only_primitive_types() {
+        for (constant, after_items) in b.constants.iter().zip(constants_after_items(b)) {
+            if !after_items {
                 out.new_line_if_not_start();
                 constant.write(&b.config, self, out, None);
                 out.new_line();
@@ -178,8 +200,8 @@ pub trait LanguageBackend: Sized {
     }
 
     fn write_non_primitive_constants<W: Write>(&mut self, out: &mut SourceWriter<W>, b: &Bindings) {
-        for constant in &b.constants {
-            if !constant.uses_only_primitive_types() {
+        for (constant, after_items) in b.constants.iter().zip(constants_after_items(b)) {
+            if after_items {
                 out.new_line_if_not_start();
                 constant.write(&b.config, self, out, None);
                 out.new_line();
-- 
2.43.0


From 2bbc4ba033a89df4e6d535dba07f060cb3443dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:01 +0000
Subject: [PATCH 16/54] fix: T::MIN of unsigned types is 0, there is no
 UINTn_MIN macro

---
 src/bindgen/ir/constant.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index e5ffcb3..ffecfce 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -44,6 +44,12 @@ pub(crate) fn to_known_assoc_constant(associated_to: &Path, name: &str) -> Optio
             signed,
             zeroable: _,
         } => match kind {
+            // There are no macros for the minimum of unsigned types.
+            IntKind::B8 | IntKind::B16 | IntKind::B32 | IntKind::B64
+                if !signed && name == "MIN" =>
+            {
+                return Some("0".to_owned())
+            }
             IntKind::B8 => {
                 if signed {
                     "INT8"
-- 
2.43.0


From 9bc674aefd6ee1339b43e7f5710e3f0c0aca3123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 17/54] fix: qualify pointer and array constants themselves as
 const in C++

---
 src/bindgen/ir/constant.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index ffecfce..ac7a745 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -754,15 +754,12 @@ impl Constant {
 
         let condition = self.cfg.to_condition(config);
         condition.write_before(config, out);
-        if let Type::Ptr { is_const: true, .. } = self.ty {
-            out.write("static ");
-        } else {
-            out.write("static const ");
-        }
-        crate::bindgen::cdecl::write_field(
+        out.write("static ");
+        crate::bindgen::cdecl::write_global(
             language_backend,
             out,
             &self.ty,
+            true,
             self.export_name(),
             config,
         );
@@ -854,12 +851,14 @@ impl Constant {
                     out.write(if in_body { "inline " } else { "static " });
                 }
 
-                if let Type::Ptr { is_const: true, .. } = self.ty {
-                    // Nothing.
-                } else {
-                    out.write("const ");
-                }
-                crate::bindgen::cdecl::write_field(language_backend, out, &self.ty, &name, config);
+                crate::bindgen::cdecl::write_global(
+                    language_backend,
+                    out,
+                    &self.ty,
+                    true,
+                    &name,
+                    config,
+                );
                 write!(out, " = ");
                 language_backend.write_literal(out, value);
                 write!(out, ";");
-- 
2.43.0


From b9e59b816e0c5be84b27096aa6a57c43d78f7ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:33 +0000
Subject: [PATCH 18/54] fix: write nested transparent struct literals as the
 value they wrap

---
 src/bindgen/ir/constant.rs             | 28 +++++++++++++++++++-------
 src/bindgen/language_backend/clike.rs  |  1 +
 src/bindgen/language_backend/cython.rs |  1 +
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index ac7a745..4202c66 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -227,6 +227,26 @@ impl Literal {
         }
     }
 
+    /// Literals of transparent structs are written as the value of their only field.
+    pub(crate) fn resolve_transparent(&self, bindings: &Bindings) -> &Literal {
+        let mut value = self;
+        while let Literal::Struct { path, fields, .. } = value {
+            if !bindings.struct_is_transparent(path) {
+                break;
+            }
+            let field = bindings
+                .struct_field_names(path)
+                .iter()
+                .find_map(|(literal_name, _)| fields.get(literal_name))
+                .or_else(|| fields.values().next());
+            match field {
+                Some(field) => value = &field.value,
+                None => break,
+            }
+        }
+        value
+    }
+
     pub(crate) fn can_be_constexpr(&self) -> bool {
         !self.has_pointer_casts()
     }
@@ -830,13 +850,7 @@ impl Constant {
             Cow::Owned(format!("{}_{}", associated_name, self.export_name()))
         };
 
-        let mut value = &self.value;
-        while let Literal::Struct { path, fields, .. } = value {
-            if !out.bindings().struct_is_transparent(path) {
-                break;
-            }
-            value = &fields.iter().next().unwrap().1.value
-        }
+        let value = self.value.resolve_transparent(out.bindings());
 
         language_backend.write_documentation(out, self.documentation());
 
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index a05528d..1aef45e 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -841,6 +841,7 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
     }
 
     fn write_literal<W: Write>(&mut self, out: &mut SourceWriter<W>, l: &Literal) {
+        let l = l.resolve_transparent(out.bindings());
         match l {
             Literal::Expr(v) => write!(out, "{v}"),
             Literal::Array { items } => {
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index 5070c84..9e2917d 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -337,6 +337,7 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
     }
 
     fn write_literal<W: Write>(&mut self, out: &mut SourceWriter<W>, l: &Literal) {
+        let l = l.resolve_transparent(out.bindings());
         match l {
             Literal::Expr(v) => match &**v {
                 "true" => write!(out, "True"),
-- 
2.43.0


From db3fd38cb40a5ecbdfe62840e9caf182105a4174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:36 +0000
Subject: [PATCH 19/54] fix: refer to associated constants by the name they are
 declared with

---
 src/bindgen/bindings.rs               |  9 +++++
 src/bindgen/ir/constant.rs            | 49 ++++++---------------------
 src/bindgen/ir/structure.rs           | 26 ++++++++++++++
 src/bindgen/language_backend/clike.rs | 12 +++----
 4 files changed, 50 insertions(+), 46 deletions(-)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index 4c62dc8..dfad5db 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -106,6 +106,15 @@ impl Bindings {
         any
     }
 
+    /// Returns what precedes the names of the constants associated to a struct.
+    pub fn associated_constant_prefix(&self, path: &BindgenPath) -> Option<String> {
+        let mut prefix = None;
+        self.struct_map.for_items(path, |s| {
+            prefix = Some(s.associated_constant_prefix(&self.config));
+        });
+        prefix
+    }
+
     pub fn enum_exists(&self, path: &BindgenPath) -> bool {
         let mut any = false;
         self.enum_map.for_items(path, |_| any = true);
diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index 4202c66..abd1582 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -18,7 +18,6 @@ use crate::bindgen::ir::{
 };
 use crate::bindgen::language_backend::LanguageBackend;
 use crate::bindgen::library::Library;
-use crate::bindgen::rename::{IdentifierType, RenameRule};
 use crate::bindgen::writer::SourceWriter;
 use crate::bindgen::Bindings;
 
@@ -804,50 +803,24 @@ impl Constant {
             return;
         }
 
-        let associated_to_transparent = associated_to_struct.is_some_and(|s| s.is_transparent);
-
-        let in_body = associated_to_struct.is_some()
-            && config.language == Language::Cxx
-            && config.structure.associated_constants_in_body
-            && config.constant.allow_static_const
-            && !associated_to_transparent;
+        let in_body =
+            associated_to_struct.is_some_and(|s| s.has_associated_constants_in_body(config));
 
         let condition = self.cfg.to_condition(config);
         condition.write_before(config, out);
 
-        let name = if in_body {
+        let name = if let Some(s) = associated_to_struct {
             Cow::Owned(format!(
-                "{}::{}",
-                associated_to_struct.unwrap().export_name(),
-                self.export_name(),
+                "{}{}",
+                s.associated_constant_prefix(config),
+                self.export_name()
             ))
-        } else if self.associated_to.is_none() {
-            Cow::Borrowed(self.export_name())
-        } else {
-            let associated_name = match associated_to_struct {
-                Some(s) => {
-                    let name = s.export_name();
-                    let rules = s
-                        .annotations
-                        .parse_atom::<RenameRule>("rename-associated-constant");
-                    let rules = rules
-                        .as_ref()
-                        .unwrap_or(&config.structure.rename_associated_constant);
-
-                    if let Some(r) = rules.not_none() {
-                        r.apply(name, IdentifierType::Type)
-                    } else {
-                        Cow::Borrowed(name)
-                    }
-                }
-                None => {
-                    let mut name = self.associated_to.as_ref().unwrap().name().to_owned();
-                    config.export.rename(&mut name);
-                    Cow::Owned(name)
-                }
-            };
-
+        } else if let Some(ref associated_to) = self.associated_to {
+            let mut associated_name = associated_to.name().to_owned();
+            config.export.rename(&mut associated_name);
             Cow::Owned(format!("{}_{}", associated_name, self.export_name()))
+        } else {
+            Cow::Borrowed(self.export_name())
         };
 
         let value = self.value.resolve_transparent(out.bindings());
diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index 33afdaa..2ff3d13 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -173,6 +173,32 @@ impl Struct {
         }
     }
 
+    /// Whether the constants associated to this struct become static members.
+    pub fn has_associated_constants_in_body(&self, config: &Config) -> bool {
+        config.language == Language::Cxx
+            && config.structure.associated_constants_in_body
+            && config.constant.allow_static_const
+            && !self.is_transparent
+    }
+
+    /// What precedes the name of the constants associated to this struct.
+    pub fn associated_constant_prefix(&self, config: &Config) -> String {
+        let name = self.export_name();
+        if self.has_associated_constants_in_body(config) {
+            return format!("{name}::");
+        }
+        let rules = self
+            .annotations
+            .parse_atom::<RenameRule>("rename-associated-constant");
+        let rules = rules
+            .as_ref()
+            .unwrap_or(&config.structure.rename_associated_constant);
+        match rules.not_none() {
+            Some(r) => format!("{}_", r.apply(name, IdentifierType::Type)),
+            None => format!("{name}_"),
+        }
+    }
+
     pub fn simplify_standard_types(&mut self, config: &Config) {
         for field in &mut self.fields {
             field.ty.simplify_standard_types(config);
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 1aef45e..6f8f1c2 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -863,14 +863,10 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
                     if let Some(variant) = out.bindings().enum_variant_reference(path, name) {
                         return write!(out, "{variant}");
                     }
-                    let path_separator = if self.config.language == Language::C {
-                        "_"
-                    } else if self.config.structure.associated_constants_in_body {
-                        "::"
-                    } else {
-                        "_"
-                    };
-                    write!(out, "{export_name}{path_separator}")
+                    match out.bindings().associated_constant_prefix(path) {
+                        Some(prefix) => write!(out, "{prefix}"),
+                        None => write!(out, "{export_name}_"),
+                    }
                 }
                 write!(out, "{name}")
             }
-- 
2.43.0


From 6ffb3c744d880c4c969f692b3f66d27955b52114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:19 +0000
Subject: [PATCH 20/54] fix: mangle negative const arguments into valid
 identifiers

---
 src/bindgen/mangle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/mangle.rs b/src/bindgen/mangle.rs
index 01812e9..0ab17b0 100644
--- a/src/bindgen/mangle.rs
+++ b/src/bindgen/mangle.rs
@@ -79,7 +79,10 @@ impl<'a> Mangler<'a> {
                 // see the comment on `enum GenericArgument`.
                 self.append_mangled_type(&Type::Path(path.clone()), last);
             }
-            GenericArgument::Const(ConstExpr::Value(ref val)) => self.output.push_str(val),
+            GenericArgument::Const(ConstExpr::Value(ref val)) => {
+                // A negative value has to remain part of a valid identifier.
+                self.output.push_str(&val.replace('-', "neg"))
+            }
         }
     }
 
-- 
2.43.0


From a9ec2b9c20703c99946000a28aafb7c5d337cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:28 +0000
Subject: [PATCH 21/54] fix: emit every cfg-dependent declaration sharing a
 name, whatever its kind

---
 src/bindgen/library.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/library.rs b/src/bindgen/library.rs
index 78fca44..9601e3c 100644
--- a/src/bindgen/library.rs
+++ b/src/bindgen/library.rs
@@ -150,11 +150,18 @@ impl Library {
     }
 
     pub fn get_items(&self, p: &Path) -> Option<Vec<ItemContainer>> {
+        // Declarations of different kinds may share a name if they have cfgs.
+        let mut items = Vec::new();
+
         macro_rules! find {
             ($field:ident, $kind:ident) => {
                 if self.config.export.should_generate(ItemType::$kind) {
                     if let Some(x) = self.$field.get_items(p) {
-                        return Some(x);
+                        if x.iter().all(|item| item.deref().cfg().is_some()) {
+                            items.extend(x);
+                        } else if items.is_empty() {
+                            return Some(x);
+                        }
                     }
                 }
             };
@@ -166,7 +173,11 @@ impl Library {
         find!(opaque_items, OpaqueItems);
         find!(typedefs, Typedefs);
 
-        None
+        if items.is_empty() {
+            None
+        } else {
+            Some(items)
+        }
     }
 
     pub fn get_config(&self) -> &Config {
-- 
2.43.0


From 1121020bd7793b3e3521e931f9f5381810e23ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:29 +0000
Subject: [PATCH 22/54] fix: guard the stream output of a conditional enum
 variant by its cfg

---
 src/bindgen/ir/enumeration.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 05c8446..d861114 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -1047,9 +1047,12 @@ impl Enum {
                 .variants
                 .iter()
                 .map(|x| {
-                    format!(
-                        "case {}::{}: {} << \"{}\"; break;",
-                        tag_name, x.export_name, stream, x.export_name
+                    (
+                        x.cfg.to_condition(config),
+                        format!(
+                            "case {}::{}: {} << \"{}\"; break;",
+                            tag_name, x.export_name, stream, x.export_name
+                        ),
                     )
                 })
                 .collect();
@@ -1057,7 +1060,11 @@ impl Enum {
                 language_backend,
                 &vec[..],
                 ListType::Join(""),
-                |_, out, s| write!(out, "{s}"),
+                |_, out, (condition, s)| {
+                    condition.write_before(config, out);
+                    write!(out, "{s}");
+                    condition.write_after(config, out);
+                },
             );
             out.close_brace(false);
             out.new_line();
@@ -1097,7 +1104,7 @@ impl Enum {
                     .iter()
                     .map(|x| {
                         let tag_str = format!("\"{}\"", x.export_name);
-                        if let VariantBody::Body {
+                        let case = if let VariantBody::Body {
                             ref name, ref body, ..
                         } = x.body
                         {
@@ -1116,14 +1123,19 @@ impl Enum {
                                 "case {}::{}: {} << {}; break;",
                                 tag_name, x.export_name, stream, tag_str,
                             )
-                        }
+                        };
+                        (x.cfg.to_condition(config), case)
                     })
                     .collect();
                 out.write_vertical_source_list(
                     language_backend,
                     &vec[..],
                     ListType::Join(""),
-                    |_, out, s| write!(out, "{s}"),
+                    |_, out, (condition, s)| {
+                        condition.write_before(config, out);
+                        write!(out, "{s}");
+                        condition.write_after(config, out);
+                    },
                 );
                 out.close_brace(false);
                 out.new_line();
-- 
2.43.0


From a378e21949564058e3a41c756b204945e88a0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:33 +0000
Subject: [PATCH 23/54] fix: escape reserved words used as argument names of
 function pointers

---
 src/bindgen/ir/ty.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/ir/ty.rs b/src/bindgen/ir/ty.rs
index dd4bf02..9adad20 100644
--- a/src/bindgen/ir/ty.rs
+++ b/src/bindgen/ir/ty.rs
@@ -12,6 +12,7 @@ use crate::bindgen::dependencies::Dependencies;
 use crate::bindgen::ir::{GenericArgument, GenericParams, GenericPath, Path};
 use crate::bindgen::library::Library;
 use crate::bindgen::monomorph::Monomorphs;
+use crate::bindgen::reserved;
 use crate::bindgen::utilities::IterHelpers;
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
@@ -770,7 +771,10 @@ impl Type {
                 ..
             } => {
                 ret.rename_for_config(config, generic_params);
-                for (_, arg) in args {
+                for (name, arg) in args {
+                    if let Some(name) = name {
+                        reserved::escape(name);
+                    }
                     arg.rename_for_config(config, generic_params);
                 }
             }
-- 
2.43.0


From 08c076aa1b38574f2f0bd19543c4e1821177d6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:33 +0000
Subject: [PATCH 24/54] fix: complete the list of reserved words (alternative
 operators, asm, typeid, restrict, C++20)

---
 src/bindgen/reserved.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/bindgen/reserved.rs b/src/bindgen/reserved.rs
index 4983f99..b9378d8 100644
--- a/src/bindgen/reserved.rs
+++ b/src/bindgen/reserved.rs
@@ -8,7 +8,12 @@
 const RESERVED_KEYWORDS: &[&str] = &[
     "alignas",
     "alignof",
+    "and",
+    "and_eq",
+    "asm",
     "auto",
+    "bitand",
+    "bitor",
     "bool",
     "break",
     "case",
@@ -18,10 +23,16 @@ const RESERVED_KEYWORDS: &[&str] = &[
     "char32_t",
     "char8_t",
     "class",
+    "co_await",
+    "co_return",
+    "co_yield",
+    "compl",
+    "concept",
     "const",
     "const_cast",
     "consteval",
     "constexpr",
+    "constinit",
     "continue",
     "decltype",
     "default",
@@ -47,13 +58,19 @@ const RESERVED_KEYWORDS: &[&str] = &[
     "namespace",
     "new",
     "noexcept",
+    "not",
+    "not_eq",
     "nullptr",
     "operator",
+    "or",
+    "or_eq",
     "private",
     "protected",
     "public",
     "register",
     "reinterpret_cast",
+    "requires",
+    "restrict",
     "return",
     "short",
     "signed",
@@ -70,6 +87,7 @@ const RESERVED_KEYWORDS: &[&str] = &[
     "true",
     "try",
     "typedef",
+    "typeid",
     "typename",
     "union",
     "unsigned",
@@ -79,6 +97,8 @@ const RESERVED_KEYWORDS: &[&str] = &[
     "volatile",
     "wchar_t",
     "while",
+    "xor",
+    "xor_eq",
 ];
 
 pub fn escape(rust_identifier: &mut String) {
-- 
2.43.0


From 8a13021dcb5bb37ce18bd949d360a2761b0c9841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:33 +0000
Subject: [PATCH 25/54] fix: escape enum variants that become reserved words by
 a rename rule

---
 src/bindgen/ir/enumeration.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index d861114..d9490a1 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -601,6 +601,11 @@ impl Item for Enum {
                     );
                     // Keep the Rust name, constants refer to variants by it.
                     renamed.name.clone_from(&variant.name);
+                    // The rule may have produced a reserved word.
+                    reserved::escape(&mut renamed.export_name);
+                    if let VariantBody::Body { ref mut name, .. } = renamed.body {
+                        reserved::escape(name);
+                    }
                     renamed
                 })
                 .collect();
-- 
2.43.0


From d383dd3978e4c7d45c583001ff03067e185af227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:14 +0000
Subject: [PATCH 26/54] fix: escape reserved words used as union field names

---
 src/bindgen/ir/union.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bindgen/ir/union.rs b/src/bindgen/ir/union.rs
index 9c42583..d96b2f2 100644
--- a/src/bindgen/ir/union.rs
+++ b/src/bindgen/ir/union.rs
@@ -15,6 +15,7 @@ use crate::bindgen::library::Library;
 use crate::bindgen::mangle;
 use crate::bindgen::monomorph::Monomorphs;
 use crate::bindgen::rename::{IdentifierType, RenameRule};
+use crate::bindgen::reserved;
 use crate::bindgen::utilities::IterHelpers;
 
 #[derive(Debug, Clone)]
@@ -210,6 +211,10 @@ impl Item for Union {
                 field.name.insert(0, '_');
             }
         }
+
+        for field in &mut self.fields {
+            reserved::escape(&mut field.name);
+        }
     }
 
     fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
-- 
2.43.0


From 13209ea85b82e7a9a706b2df5dd48b07d46f8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:27 +0000
Subject: [PATCH 27/54] fix: no raw identifier prefix in the names of variant
 bodies

---
 src/bindgen/ir/enumeration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index d9490a1..e867598 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -164,7 +164,7 @@ impl EnumVariant {
         let body = match variant.fields {
             syn::Fields::Unit => VariantBody::Empty(annotations),
             syn::Fields::Named(ref fields) => {
-                let path = Path::new(format!("{}_Body", variant.ident));
+                let path = Path::new(format!("{}_Body", variant.ident.unraw()));
                 let name = body_rule
                     .apply(
                         &variant.ident.unraw().to_string(),
@@ -190,7 +190,7 @@ impl EnumVariant {
                 }
             }
             syn::Fields::Unnamed(ref fields) => {
-                let path = Path::new(format!("{}_Body", variant.ident));
+                let path = Path::new(format!("{}_Body", variant.ident.unraw()));
                 let name = body_rule
                     .apply(
                         &variant.ident.unraw().to_string(),
-- 
2.43.0


From 72e993f5196ff29ffd2ccfce24e3e1f586871ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:50 +0000
Subject: [PATCH 28/54] fix: resolve #[path] modules as rustc does

---
 src/bindgen/parser.rs | 127 +++++++++++++++++-------------------------
 1 file changed, 51 insertions(+), 76 deletions(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 45462d9..fa704d9 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -56,7 +56,7 @@ pub fn parse_src(src_file: &FilePath, config: &Config) -> ParseResult {
         version: None,
     };
 
-    context.parse_mod(&pkg_ref, src_file, 0)?;
+    context.parse_mod(&pkg_ref, src_file, 0, /* is_path_attr = */ false)?;
     context.out.source_files = context.cache_src.keys().map(|k| k.to_owned()).collect();
     Ok(context.out)
 }
@@ -161,7 +161,9 @@ impl Parser<'_> {
             let crate_src = self.lib.as_ref().unwrap().find_crate_src(pkg);
 
             match crate_src {
-                Some(crate_src) => self.parse_mod(pkg, crate_src.as_path(), 0)?,
+                Some(crate_src) => {
+                    self.parse_mod(pkg, crate_src.as_path(), 0, /* is_path_attr = */ false)?
+                }
                 None => {
                     // This should be an error, but is common enough to just elicit a warning
                     warn!(
@@ -221,10 +223,7 @@ impl Parser<'_> {
             self.cache_expanded_crate.get(&pkg.name).unwrap().clone()
         };
 
-        self.process_mod(
-            pkg, None, None, &mod_items, 0, /* is_mod_rs = */ true,
-            /* is_inline = */ false,
-        )
+        self.process_mod(pkg, None, None, &mod_items, 0)
     }
 
     fn parse_mod(
@@ -232,6 +231,7 @@ impl Parser<'_> {
         pkg: &PackageRef,
         mod_path: &FilePath,
         depth: usize,
+        is_path_attr: bool,
     ) -> Result<(), Error> {
         let mod_items = match self.cache_src.entry(mod_path.to_path_buf()) {
             Entry::Vacant(vacant_entry) => {
@@ -263,7 +263,8 @@ impl Parser<'_> {
 
         let mod_dir = mod_path.parent().unwrap();
 
-        let is_mod_rs = depth == 0 || mod_path.ends_with("mod.rs");
+        // Files loaded through a `#[path]` attribute are treated like mod.rs files.
+        let is_mod_rs = depth == 0 || is_path_attr || mod_path.ends_with("mod.rs");
         let submod_dir = if is_mod_rs {
             mod_dir
         } else {
@@ -274,15 +275,7 @@ impl Parser<'_> {
             &submod_dir_2018
         };
 
-        self.process_mod(
-            pkg,
-            Some(mod_dir),
-            Some(submod_dir),
-            &mod_items,
-            depth,
-            /* is_inline = */ false,
-            is_mod_rs,
-        )
+        self.process_mod(pkg, Some(mod_dir), Some(submod_dir), &mod_items, depth)
     }
 
     /// `mod_dir` is the path to the current directory of the module. It may be
@@ -290,7 +283,6 @@ impl Parser<'_> {
     ///
     /// `submod_dir` is the path to search submodules in by default, which might
     /// be different for rust 2018 for example.
-    #[allow(clippy::too_many_arguments)]
     fn process_mod(
         &mut self,
         pkg: &PackageRef,
@@ -298,8 +290,6 @@ impl Parser<'_> {
         submod_dir: Option<&FilePath>,
         items: &[syn::Item],
         depth: usize,
-        is_inline: bool,
-        is_in_mod_rs: bool,
     ) -> Result<(), Error> {
         debug_assert_eq!(mod_dir.is_some(), submod_dir.is_some());
         // We process the items first then the nested modules.
@@ -318,79 +308,64 @@ impl Parser<'_> {
                 self.cfg_stack.push(cfg.clone());
             }
 
+            // https://doc.rust-lang.org/reference/items/modules.html#the-path-attribute
+            //
+            //     For path attributes on modules not inside inline module blocks, the file path
+            //     is relative to the directory the source file is located.
+            //
+            //     Paths for path attributes inside inline module blocks in a mod-rs file are
+            //     relative to the directory of the mod-rs file including the inline module
+            //     components as directories. For non-mod-rs files, it is the same except the
+            //     path starts with a directory with the name of the non-mod-rs module.
+            let path_attr = item.attrs.iter().find_map(|attr| match &attr.meta {
+                syn::Meta::NameValue(syn::MetaNameValue {
+                    path,
+                    value:
+                        syn::Expr::Lit(syn::ExprLit {
+                            lit: syn::Lit::Str(path_lit),
+                            ..
+                        }),
+                    ..
+                }) if path.is_ident("path") => Some(path_lit.value()),
+                _ => None,
+            });
+
             if let Some((_, ref inline_items)) = item.content {
-                // TODO(emilio): This should use #[path] attribute if present,
-                // rather than next_mod_name.
-                let next_submod_dir = submod_dir.map(|dir| dir.join(&next_mod_name));
-                let next_mod_dir = mod_dir.map(|dir| dir.join(&next_mod_name));
+                // Inside of an inline module there's no difference between the two directories.
+                let next_mod_dir = match path_attr {
+                    Some(ref path) => mod_dir.map(|dir| dir.join(path)),
+                    None => submod_dir.map(|dir| dir.join(&next_mod_name)),
+                };
                 self.process_mod(
                     pkg,
                     next_mod_dir.as_deref(),
-                    next_submod_dir.as_deref(),
+                    next_mod_dir.as_deref(),
                     inline_items,
                     depth,
-                    /* is_inline = */ true,
-                    is_in_mod_rs,
                 )?;
             } else if let Some(mod_dir) = mod_dir {
                 let submod_dir = submod_dir.unwrap();
                 let next_mod_path1 = submod_dir.join(next_mod_name.clone() + ".rs");
                 let next_mod_path2 = submod_dir.join(next_mod_name.clone()).join("mod.rs");
 
-                if next_mod_path1.exists() {
-                    self.parse_mod(pkg, next_mod_path1.as_path(), depth + 1)?;
+                if let Some(path) = path_attr {
+                    self.parse_mod(
+                        pkg,
+                        &mod_dir.join(path),
+                        depth + 1,
+                        /* is_path_attr = */ true,
+                    )?;
+                } else if next_mod_path1.exists() {
+                    self.parse_mod(pkg, next_mod_path1.as_path(), depth + 1, false)?;
                 } else if next_mod_path2.exists() {
-                    self.parse_mod(pkg, next_mod_path2.as_path(), depth + 1)?;
+                    self.parse_mod(pkg, next_mod_path2.as_path(), depth + 1, false)?;
                 } else {
-                    // Last chance to find a module path
-                    let mut path_attr_found = false;
-                    for attr in &item.attrs {
-                        if let syn::Meta::NameValue(syn::MetaNameValue {
-                            path,
-                            value: syn::Expr::Lit(syn::ExprLit { lit, .. }),
-                            ..
-                        }) = &attr.meta
-                        {
-                            match lit {
-                                syn::Lit::Str(ref path_lit) if path.is_ident("path") => {
-                                    path_attr_found = true;
-                                    // https://doc.rust-lang.org/reference/items/modules.html#the-path-attribute
-                                    //
-                                    //     For path attributes on modules not inside inline module blocks, the file path
-                                    //     is relative to the directory the source file is located.
-                                    //
-                                    //     For path attributes inside inline module blocks, the relative location of the
-                                    //     file path depends on the kind of source file the path attribute is located
-                                    //     in.  "mod-rs" source files are root modules (such as lib.rs or main.rs) and
-                                    //     modules with files named mod.rs. "non-mod-rs" source files are all other
-                                    //     module files.
-                                    //
-                                    //     Paths for path attributes inside inline module blocks in a mod-rs file are
-                                    //     relative to the directory of the mod-rs file including the inline module
-                                    //     components as directories. For non-mod-rs files, it is the same except the
-                                    //     path starts with a directory with the name of the non-mod-rs module.
-                                    //
-                                    let base = if is_inline && !is_in_mod_rs {
-                                        submod_dir
-                                    } else {
-                                        mod_dir
-                                    };
-                                    self.parse_mod(pkg, &base.join(path_lit.value()), depth + 1)?;
-                                    break;
-                                }
-                                _ => (),
-                            }
-                        }
-                    }
-
                     // This should be an error, but it's common enough to
                     // just elicit a warning
-                    if !path_attr_found {
-                        warn!(
-                            "Parsing crate `{}`: can't find mod {}`.",
-                            pkg.name, next_mod_name
-                        );
-                    }
+                    warn!(
+                        "Parsing crate `{}`: can't find mod {}`.",
+                        pkg.name, next_mod_name
+                    );
                 }
             } else {
                 warn!(
-- 
2.43.0


From f0dd35f9d84208862ad1cfc181bfe18242933d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:50 +0000
Subject: [PATCH 29/54] fix: list every source file once in the depfile

---
 src/bindgen/bindings.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index dfad5db..f8a28c2 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -221,6 +221,8 @@ impl Bindings {
             .collect();
         // Sorting makes testing easier by ensuring the output is ordered.
         canon_source_files.sort_unstable();
+        // The same file can be known by more than one path.
+        canon_source_files.dedup();
 
         // When writing the depfile we must escape whitespace in paths to avoid it being interpreted
         // as a seperator.
-- 
2.43.0


From f0af384af0af775115d1468928306f574de1cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:40 +0000
Subject: [PATCH 30/54] fix: escape # and $ in depfile paths

---
 src/bindgen/bindings.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/bindgen/bindings.rs b/src/bindgen/bindings.rs
index f8a28c2..448362a 100644
--- a/src/bindgen/bindings.rs
+++ b/src/bindgen/bindings.rs
@@ -225,23 +225,35 @@ impl Bindings {
         canon_source_files.dedup();
 
         // When writing the depfile we must escape whitespace in paths to avoid it being interpreted
-        // as a seperator.
+        // as a seperator, as well as the other characters that are special to make.
         // It is not clear how to otherwise _correctly_ replace whitespace in a non-unicode
         // compliant slice, without knowing the encoding, so we lossy convert such cases,
         // to avoid panics.
+        fn escape(path: &path::Path) -> String {
+            let mut escaped = String::new();
+            let mut backslashes = 0;
+            for c in path.to_string_lossy().chars() {
+                match c {
+                    ' ' | '#' => {
+                        // Backslashes in front of an escaped character have to be doubled.
+                        escaped.extend(std::iter::repeat('\\').take(backslashes + 1));
+                    }
+                    '$' => escaped.push('$'),
+                    _ => {}
+                }
+                escaped.push(c);
+                backslashes = if c == '\\' { backslashes + 1 } else { 0 };
+            }
+            escaped
+        }
         let mut depfile = File::create(depfile_path).unwrap();
-        write!(
-            &mut depfile,
-            "{}:",
-            canon_header_path.to_string_lossy().replace(' ', "\\ ")
-        )
-        .expect("Writing header name to depfile failed");
+        write!(&mut depfile, "{}:", escape(&canon_header_path))
+            .expect("Writing header name to depfile failed");
         canon_source_files.into_iter().for_each(|source_file| {
             // Add line-continue and line-break and then indent with 4 spaces.
             // This makes the output more human-readable.
             depfile.write_all(b" \\\n    ").unwrap();
-            let escaped_path = source_file.to_string_lossy().replace(' ', "\\ ");
-            depfile.write_all(escaped_path.as_bytes()).unwrap();
+            depfile.write_all(escape(&source_file).as_bytes()).unwrap();
         });
 
         writeln!(&mut depfile).unwrap();
-- 
2.43.0


From 077a170d672a9345d703709eb13a96ba3bfd2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:23 +0000
Subject: [PATCH 31/54] fix: report an invalid configuration file as an error
 instead of panicking

---
 src/main.rs | 50 +++++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e0c9cbd..97ae5a2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -80,18 +80,35 @@ fn apply_config_overrides(config: &mut Config, matches: &ArgMatches) {
     }
 }
 
+/// Loads the config specified on the command line, or the one in the given directory.
+fn load_config(matches: &ArgMatches, root: &Path) -> Config {
+    let path = match matches.get_one::<PathBuf>("config") {
+        Some(path) => path.clone(),
+        None => {
+            let path = root.join("cbindgen.toml");
+            if !path.exists() {
+                return Config::default();
+            }
+            path
+        }
+    };
+
+    Config::from_file(path).unwrap_or_else(|msg| {
+        error!("{msg}");
+        std::process::exit(1);
+    })
+}
+
 fn load_bindings(input: &Path, matches: &ArgMatches) -> Result<Bindings, Error> {
     // If a file is specified then we load it as a single source
     if !input.is_dir() {
         // Load any config specified or search in the input directory
-        let mut config = match matches.get_one::<PathBuf>("config") {
-            Some(c) => Config::from_file(c).unwrap(),
-            None => Config::from_root_or_default(
-                input
-                    .parent()
-                    .expect("All files should have a parent directory"),
-            ),
-        };
+        let mut config = load_config(
+            matches,
+            input
+                .parent()
+                .expect("All files should have a parent directory"),
+        );
 
         apply_config_overrides(&mut config, matches);
 
@@ -113,19 +130,10 @@ fn load_bindings(input: &Path, matches: &ArgMatches) -> Result<Bindings, Error>
     )?;
 
     // Load any config specified or search in the binding crate directory
-    let mut config = match matches.get_one::<PathBuf>("config") {
-        Some(c) => Config::from_file(c).unwrap(),
-        None => {
-            let binding_crate_dir = lib.find_crate_dir(&lib.binding_crate_ref());
-
-            if let Some(binding_crate_dir) = binding_crate_dir {
-                Config::from_root_or_default(binding_crate_dir)
-            } else {
-                // This shouldn't happen
-                Config::from_root_or_default(input)
-            }
-        }
-    };
+    let binding_crate_dir = lib.find_crate_dir(&lib.binding_crate_ref());
+    // The crate directory should always be there
+    let config_dir = binding_crate_dir.as_deref().unwrap_or(input);
+    let mut config = load_config(matches, config_dir);
 
     apply_config_overrides(&mut config, matches);
 
-- 
2.43.0


From f8086c78cdf1361056222a1c488549d9358f9ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:50 +0000
Subject: [PATCH 32/54] fix: skip types whose generic parameters can't be
 handled instead of panicking

---
 src/bindgen/parser.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index fa704d9..97d8dfd 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -901,9 +901,12 @@ impl Parse {
             Err(msg) => {
                 info!("Take {}::{} - opaque ({}).", crate_name, item.ident, msg);
                 let path = Path::new(item.ident.unraw().to_string());
-                self.opaque_items.try_insert(
-                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
-                );
+                match OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg) {
+                    Ok(opaque) => {
+                        self.opaque_items.try_insert(opaque);
+                    }
+                    Err(msg) => warn!("Skip {}::{} - ({}).", crate_name, item.ident, msg),
+                }
             }
         }
     }
@@ -925,9 +928,12 @@ impl Parse {
             Err(msg) => {
                 info!("Take {}::{} - opaque ({}).", crate_name, item.ident, msg);
                 let path = Path::new(item.ident.unraw().to_string());
-                self.opaque_items.try_insert(
-                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
-                );
+                match OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg) {
+                    Ok(opaque) => {
+                        self.opaque_items.try_insert(opaque);
+                    }
+                    Err(msg) => warn!("Skip {}::{} - ({}).", crate_name, item.ident, msg),
+                }
             }
         }
     }
@@ -948,9 +954,12 @@ impl Parse {
             Err(msg) => {
                 info!("Take {}::{} - opaque ({}).", crate_name, item.ident, msg);
                 let path = Path::new(item.ident.unraw().to_string());
-                self.opaque_items.try_insert(
-                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
-                );
+                match OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg) {
+                    Ok(opaque) => {
+                        self.opaque_items.try_insert(opaque);
+                    }
+                    Err(msg) => warn!("Skip {}::{} - ({}).", crate_name, item.ident, msg),
+                }
             }
         }
     }
@@ -966,9 +975,12 @@ impl Parse {
             Err(msg) => {
                 info!("Take {}::{} - opaque ({}).", crate_name, item.ident, msg);
                 let path = Path::new(item.ident.unraw().to_string());
-                self.opaque_items.try_insert(
-                    OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg).unwrap(),
-                );
+                match OpaqueItem::load(path, &item.generics, &item.attrs, mod_cfg) {
+                    Ok(opaque) => {
+                        self.opaque_items.try_insert(opaque);
+                    }
+                    Err(msg) => warn!("Skip {}::{} - ({}).", crate_name, item.ident, msg),
+                }
             }
         }
     }
-- 
2.43.0


From ae0c0b869fcb12242d43e0ba924935790512d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:40 +0000
Subject: [PATCH 33/54] fix: warn about malformed annotations and
 ptrs-as-arrays instead of panicking

---
 src/bindgen/ir/annotation.rs | 12 ++++++++----
 src/bindgen/ir/function.rs   |  9 +++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/bindgen/ir/annotation.rs b/src/bindgen/ir/annotation.rs
index ec0c6e7..1aefe67 100644
--- a/src/bindgen/ir/annotation.rs
+++ b/src/bindgen/ir/annotation.rs
@@ -199,10 +199,14 @@ impl AnnotationSet {
         T: Default + FromStr,
     {
         match self.annotations.get(name) {
-            Some(AnnotationValue::Atom(x)) => Some(
-                x.as_ref()
-                    .map_or(T::default(), |y| y.parse::<T>().ok().unwrap()),
-            ),
+            Some(AnnotationValue::Atom(Some(x))) => match x.parse::<T>() {
+                Ok(value) => Some(value),
+                Err(..) => {
+                    warn!("Ignoring the annotation {name}: can't parse {x:?}");
+                    None
+                }
+            },
+            Some(AnnotationValue::Atom(None)) => Some(T::default()),
             _ => None,
         }
     }
diff --git a/src/bindgen/ir/function.rs b/src/bindgen/ir/function.rs
index e4bfb95..3cc1175 100644
--- a/src/bindgen/ir/function.rs
+++ b/src/bindgen/ir/function.rs
@@ -190,10 +190,11 @@ impl Function {
         if let Some(tuples) = self.annotations.list("ptrs-as-arrays") {
             let mut ptrs_as_arrays: HashMap<String, String> = HashMap::new();
             for str_tuple in tuples {
-                let parts: Vec<&str> = str_tuple[1..str_tuple.len() - 1]
-                    .split(';')
-                    .map(|x| x.trim())
-                    .collect();
+                let mut tuple = str_tuple.chars();
+                // Drop the enclosing brackets
+                tuple.next();
+                tuple.next_back();
+                let parts: Vec<&str> = tuple.as_str().split(';').map(|x| x.trim()).collect();
                 if parts.len() != 2 {
                     warn!(
                         "{parts:?} does not follow the correct syntax, so the annotation is being ignored"
-- 
2.43.0


From 7953bbdc9442f6277e1725cb64c77ca8a98923ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:40 +0000
Subject: [PATCH 34/54] fix: skip items that use generics with a wrong number
 of arguments instead of panicking

---
 src/bindgen/ir/generic_path.rs | 9 +++++++++
 src/bindgen/ir/item.rs         | 5 +++++
 src/bindgen/ir/opaque.rs       | 7 +++++++
 src/bindgen/ir/ty.rs           | 8 ++++++++
 4 files changed, 29 insertions(+)

diff --git a/src/bindgen/ir/generic_path.rs b/src/bindgen/ir/generic_path.rs
index 1b93a24..f8b7c1b 100644
--- a/src/bindgen/ir/generic_path.rs
+++ b/src/bindgen/ir/generic_path.rs
@@ -103,6 +103,15 @@ impl GenericParams {
         Ok(GenericParams(params))
     }
 
+    /// Whether each parameter can be associated with an argument.
+    pub fn accepts(&self, arguments: &[GenericArgument]) -> bool {
+        self.len() >= arguments.len()
+            && self
+                .iter()
+                .skip(arguments.len())
+                .all(|param| param.default.is_some())
+    }
+
     /// Associate each parameter with an argument.
     pub fn call<'out>(
         &'out self,
diff --git a/src/bindgen/ir/item.rs b/src/bindgen/ir/item.rs
index 03e1c15..bb21849 100644
--- a/src/bindgen/ir/item.rs
+++ b/src/bindgen/ir/item.rs
@@ -43,6 +43,11 @@ pub trait Item {
         !self.generic_params().is_empty()
     }
 
+    /// Whether this item can be instantiated with the given generic arguments.
+    fn accepts_generics(&self, generics: &[GenericArgument]) -> bool {
+        self.generic_params().accepts(generics)
+    }
+
     fn rename_for_config(&mut self, _config: &Config) {}
     fn add_dependencies(&self, _library: &Library, _out: &mut Dependencies) {}
     fn instantiate_monomorph(
diff --git a/src/bindgen/ir/opaque.rs b/src/bindgen/ir/opaque.rs
index 4527e3c..7732026 100644
--- a/src/bindgen/ir/opaque.rs
+++ b/src/bindgen/ir/opaque.rs
@@ -100,6 +100,13 @@ impl Item for OpaqueItem {
 
     fn add_dependencies(&self, _: &Library, _: &mut Dependencies) {}
 
+    fn accepts_generics(&self, generics: &[GenericArgument]) -> bool {
+        // We can be instantiated with less generic params because of default
+        // template parameters, or because of empty types that we remove during
+        // parsing (`()`).
+        self.is_generic() && generics.len() <= self.generic_params.len()
+    }
+
     fn instantiate_monomorph(
         &self,
         generic_values: &[GenericArgument],
diff --git a/src/bindgen/ir/ty.rs b/src/bindgen/ir/ty.rs
index 9adad20..cfc07ce 100644
--- a/src/bindgen/ir/ty.rs
+++ b/src/bindgen/ir/ty.rs
@@ -732,6 +732,14 @@ impl Type {
                 let path = generic.path();
                 if let Some(items) = library.get_items(path) {
                     for item in items {
+                        if !item.deref().accepts_generics(generic.generics()) {
+                            warn!(
+                                "Can't instantiate {} with {} generic arguments",
+                                path,
+                                generic.generics().len()
+                            );
+                            continue;
+                        }
                         item.deref()
                             .instantiate_monomorph(generic.generics(), library, out);
                     }
-- 
2.43.0


From 929488322f4e05b20b757bba1b2572d144b8df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:27 +0000
Subject: [PATCH 35/54] fix: no panic with a tab width of zero

---
 src/bindgen/writer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/writer.rs b/src/bindgen/writer.rs
index 2b6d6bc..764db8c 100644
--- a/src/bindgen/writer.rs
+++ b/src/bindgen/writer.rs
@@ -132,8 +132,9 @@ impl<'a, F: Write> SourceWriter<'a, F> {
     }
 
     pub fn push_tab(&mut self) {
-        let spaces = self.spaces() - (self.spaces() % self.bindings.config.tab_width)
-            + self.bindings.config.tab_width;
+        let tab_width = self.bindings.config.tab_width;
+        let past_tab_stop = self.spaces().checked_rem(tab_width).unwrap_or(0);
+        let spaces = self.spaces() - past_tab_stop + tab_width;
         self.spaces.push(spaces);
     }
 
-- 
2.43.0


From 1da149f22600858ca32fcdc6b3ff8901a44aaa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:27 +0000
Subject: [PATCH 36/54] fix: generic tagged enums may share the names of their
 variants in C

---
 src/bindgen/ir/enumeration.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index e867598..8704c5e 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -640,14 +640,9 @@ impl Item for Enum {
             self.documentation.clone(),
         );
 
-        // Register the enum itself before its bodies, which may refer back to it through a pointer.
+        // The bodies of the variants are part of the enum: they are specialized with it and need
+        // no monomorphs of their own.
         out.insert_enum(library, self, monomorph, generic_values.to_owned());
-
-        for variant in &self.variants {
-            if let VariantBody::Body { ref body, .. } = variant.body {
-                body.instantiate_monomorph(generic_values, library, out);
-            }
-        }
     }
 
     fn add_dependencies(&self, library: &Library, out: &mut Dependencies) {
-- 
2.43.0


From 200c57a8e1f8498f3f9aacc003781aaac255170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:43 +0000
Subject: [PATCH 37/54] fix: treat types with qualified paths, transparent
 enums and unsupported discriminants as opaque

---
 src/bindgen/ir/constant.rs    | 10 ++++++++++
 src/bindgen/ir/enumeration.rs |  7 +++++++
 src/bindgen/ir/ty.rs          |  3 +++
 3 files changed, 20 insertions(+)

diff --git a/src/bindgen/ir/constant.rs b/src/bindgen/ir/constant.rs
index abd1582..ecd2a6e 100644
--- a/src/bindgen/ir/constant.rs
+++ b/src/bindgen/ir/constant.rs
@@ -323,6 +323,16 @@ impl Literal {
         has_pointer_casts
     }
 
+    /// Whether a struct literal (or a call, which looks like one) is part of the expression.
+    pub fn has_struct_literal(&self) -> bool {
+        let mut found = false;
+        self.visit(&mut |lit| {
+            found |= matches!(lit, Literal::Struct { .. });
+            !found
+        });
+        found
+    }
+
     pub fn uses_only_primitive_types(&self) -> bool {
         let mut uses_only_primitive_types = true;
         self.visit(&mut |lit| {
diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 8704c5e..676f17e 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -107,6 +107,10 @@ impl EnumVariant {
         let discriminant = match variant.discriminant {
             Some((_, ref expr)) => {
                 let mut discriminant = Literal::load(expr)?;
+                if discriminant.has_struct_literal() {
+                    // No integer, it's either a call or a field of a struct literal.
+                    return Err(format!("Unsupported discriminant. {expr:?}"));
+                }
                 discriminant.replace_self_with(self_path);
                 Some(discriminant)
             }
@@ -361,6 +365,9 @@ impl Enum {
         if repr.style == ReprStyle::Rust && repr.ty.is_none() {
             return Err("Enum is not marked with a valid #[repr(prim)] or #[repr(C)].".to_owned());
         }
+        if repr.style == ReprStyle::Transparent {
+            return Err("Enum is marked with #[repr(transparent)].".to_owned());
+        }
         // TODO: Implement translation of aligned enums.
         if repr.align.is_some() {
             return Err("Enum is marked with #[repr(align(...))] or #[repr(packed)].".to_owned());
diff --git a/src/bindgen/ir/ty.rs b/src/bindgen/ir/ty.rs
index cfc07ce..2d761f4 100644
--- a/src/bindgen/ir/ty.rs
+++ b/src/bindgen/ir/ty.rs
@@ -385,6 +385,9 @@ impl Type {
                 }
             }
             syn::Type::Path(ref path) => {
+                if path.qself.is_some() {
+                    return Err(format!("Unsupported qualified path: {ty:?}"));
+                }
                 let generic_path = GenericPath::load(&path.path)?;
 
                 if generic_path.name() == "PhantomData" || generic_path.name() == "PhantomPinned" {
-- 
2.43.0


From af08a1624381f375a46e813e8d8ca013535dfec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:20 +0000
Subject: [PATCH 38/54] fix: derive the operators of enum variant bodies
 consistently with their enum

---
 src/bindgen/ir/enumeration.rs         |  7 +++++--
 src/bindgen/ir/structure.rs           | 14 +++++++++++++-
 src/bindgen/language_backend/clike.rs | 20 ++++----------------
 3 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 676f17e..0eec95b 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -156,9 +156,12 @@ impl EnumVariant {
 
         let variant_cfg = Cfg::append(mod_cfg, Cfg::load(&variant.attrs));
         let mut annotations = AnnotationSet::load(&variant.attrs)?;
-        if let Some(b) = enum_annotations.bool("derive-ostream") {
-            annotations.add_default("derive-ostream", AnnotationValue::Bool(b));
+        // The operators of the enum are written in terms of the ones of the bodies.
+        if let Some(b) = enum_annotations.bool("derive-eq") {
+            annotations.add_default("derive-eq", AnnotationValue::Bool(b));
         }
+        let ostream = config.enumeration.derive_ostream(enum_annotations);
+        annotations.add_default("derive-ostream", AnnotationValue::Bool(ostream));
 
         let body_rule = enum_annotations.parse_atom::<RenameRule>("rename-variant-name-fields");
         let body_rule = body_rule
diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index 2ff3d13..e31ea87 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -43,9 +43,21 @@ pub struct Struct {
 }
 
 impl Struct {
+    /// The fields that operators compare: all but the tag of an enum variant body.
+    fn compared_fields(&self) -> &[Field] {
+        &self.fields[self.has_tag_field as usize..]
+    }
+
     /// Whether this struct can derive operator== / operator!=.
     pub fn can_derive_eq(&self) -> bool {
-        !self.fields.is_empty() && self.fields.iter().all(|x| x.ty.can_cmp_eq())
+        !self.compared_fields().is_empty()
+            && self.compared_fields().iter().all(|x| x.ty.can_cmp_eq())
+    }
+
+    /// Whether this struct can derive operator< and the like.
+    pub fn can_derive_order(&self) -> bool {
+        // The tag of an enum variant body isn't ordered.
+        !self.has_tag_field && self.fields.len() == 1 && self.fields[0].ty.can_cmp_order()
     }
 
     pub fn add_associated_constant(&mut self, c: Constant) {
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index 6f8f1c2..cccabb6 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -311,28 +311,16 @@ impl<'a> CLikeLanguageBackend<'a> {
         if self.config.structure.derive_neq(&s.annotations) && s.can_derive_eq() {
             emit_op!("neq", "!=", "||");
         }
-        if self.config.structure.derive_lt(&s.annotations)
-            && s.fields.len() == 1
-            && s.fields[0].ty.can_cmp_order()
-        {
+        if self.config.structure.derive_lt(&s.annotations) && s.can_derive_order() {
             emit_op!("lt", "<", "&&");
         }
-        if self.config.structure.derive_lte(&s.annotations)
-            && s.fields.len() == 1
-            && s.fields[0].ty.can_cmp_order()
-        {
+        if self.config.structure.derive_lte(&s.annotations) && s.can_derive_order() {
             emit_op!("lte", "<=", "&&");
         }
-        if self.config.structure.derive_gt(&s.annotations)
-            && s.fields.len() == 1
-            && s.fields[0].ty.can_cmp_order()
-        {
+        if self.config.structure.derive_gt(&s.annotations) && s.can_derive_order() {
             emit_op!("gt", ">", "&&");
         }
-        if self.config.structure.derive_gte(&s.annotations)
-            && s.fields.len() == 1
-            && s.fields[0].ty.can_cmp_order()
-        {
+        if self.config.structure.derive_gte(&s.annotations) && s.can_derive_order() {
             emit_op!("gte", ">=", "&&");
         }
     }
-- 
2.43.0


From b60d64ce7497e144b1e33483867cfac2de2b64ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:43 +0000
Subject: [PATCH 39/54] fix: renaming rules keep identifiers like _0 valid

---
 src/bindgen/rename.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/rename.rs b/src/bindgen/rename.rs
index 3b61ed4..57b653f 100644
--- a/src/bindgen/rename.rs
+++ b/src/bindgen/rename.rs
@@ -70,7 +70,7 @@ impl RenameRule {
             return Cow::Borrowed(text);
         }
 
-        Cow::Owned(match self {
+        let mut renamed = match self {
             RenameRule::None => return Cow::Borrowed(text),
             RenameRule::GeckoCase => context.to_str().to_owned() + &text.to_upper_camel_case(),
             RenameRule::LowerCase => text.to_lowercase(),
@@ -93,7 +93,13 @@ impl RenameRule {
                 result
             }
             RenameRule::Prefix(prefix) => prefix.to_owned() + text,
-        })
+        };
+
+        // Case conversions drop leading underscores, which `_0` and the like need.
+        if renamed.chars().next().map_or(true, |c| c.is_ascii_digit()) {
+            renamed.insert(0, '_');
+        }
+        Cow::Owned(renamed)
     }
 }
 
-- 
2.43.0


From 49941b7dc2c56bd06cbe92922acbe56a3ca42611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:52 +0000
Subject: [PATCH 40/54] fix: valid accessors for tagged enum variants holding
 arrays or function pointers

---
 src/bindgen/ir/enumeration.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/ir/enumeration.rs b/src/bindgen/ir/enumeration.rs
index 0eec95b..37ab035 100644
--- a/src/bindgen/ir/enumeration.rs
+++ b/src/bindgen/ir/enumeration.rs
@@ -1307,8 +1307,17 @@ impl Enum {
                     } else {
                         write_attrs!("mut-cast");
                     }
+                    // C++ functions can only return references to arrays and function pointers
+                    // through a declarator around their name; return the body for those.
+                    let field = body.fields.last().unwrap();
+                    let mut pointee = &field.ty;
+                    while let Type::Ptr { ref ty, .. } = *pointee {
+                        pointee = ty;
+                    }
+                    let inline_casts =
+                        inline_casts && !matches!(pointee, Type::Array(..) | Type::FuncPtr { .. });
+
                     if inline_casts {
-                        let field = body.fields.last().unwrap();
                         let return_type = field.ty.clone();
                         let return_type = Type::Ptr {
                             ty: Box::new(return_type),
@@ -1332,7 +1341,7 @@ impl Enum {
                     out.new_line();
                     write!(out, "return {member_name}");
                     if inline_casts {
-                        write!(out, "._0");
+                        write!(out, ".{}", field.name);
                     }
                     write!(out, ";");
                     out.close_brace(false);
-- 
2.43.0


From 32f42ccb971545c048c0c3f605a88f02b06b7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:21 +0000
Subject: [PATCH 41/54] fix: don't hide the tag type of C++ tagged enums behind
 a renamed tag member

---
 src/bindgen/ir/structure.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index e31ea87..c41427a 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -400,7 +400,10 @@ impl Item for Struct {
                     *dest = src;
                 }
             } else if let Some(r) = field_rules.not_none() {
-                for name in names {
+                // In C++ the type of the tag is a sibling called `Tag`, which the name
+                // of the tag of an enum variant body must not hide.
+                let skip = self.has_tag_field && config.language == Language::Cxx;
+                for name in names.skip(skip as usize) {
                     *name = r.apply(name, IdentifierType::StructMember).into_owned();
                 }
             }
-- 
2.43.0


From b79788a6122bd296cdce92d6eaa239cf07d2bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:35 +0000
Subject: [PATCH 42/54] fix: documentation can't end its comment or continue it
 over the declaration

---
 src/bindgen/language_backend/clike.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index cccabb6..b63878d 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -800,20 +800,41 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
             _ => (),
         }
 
-        for line in &d.doc_comment[..end] {
+        let lines = &d.doc_comment[..end];
+        for line in lines {
             match style {
                 DocumentationStyle::C => out.write(""),
+                DocumentationStyle::Doxy if line.starts_with('/') => out.write(" * "),
                 DocumentationStyle::Doxy => out.write(" *"),
                 DocumentationStyle::C99 => out.write("//"),
                 DocumentationStyle::Cxx => out.write("///"),
                 DocumentationStyle::Auto => unreachable!(), // Auto case should always be covered
             }
 
-            write!(out, "{line}");
+            match style {
+                // The text must not close the comment.
+                DocumentationStyle::C | DocumentationStyle::Doxy => {
+                    write!(out, "{}", line.replace("*/", "*\\/"))
+                }
+                _ => write!(out, "{line}"),
+            }
             out.new_line();
         }
 
+        // A backslash at the end of a line comment continues it on the next line.
+        let continued = lines.last().is_some_and(|l| l.trim_end().ends_with('\\'));
+
         match style {
+            DocumentationStyle::C99 if continued => {
+                out.write("//");
+                out.new_line();
+            }
+
+            DocumentationStyle::Cxx if continued => {
+                out.write("///");
+                out.new_line();
+            }
+
             DocumentationStyle::C => {
                 out.write(" */");
                 out.new_line();
-- 
2.43.0


From f58d23b7690439a8b5ce43af73260fb9662e1170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:36 +0000
Subject: [PATCH 43/54] fix: find the bound crate by its manifest also when
 given a relative path

---
 src/bindgen/cargo/cargo.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/cargo/cargo.rs b/src/bindgen/cargo/cargo.rs
index c8f820c..c541194 100644
--- a/src/bindgen/cargo/cargo.rs
+++ b/src/bindgen/cargo/cargo.rs
@@ -187,10 +187,18 @@ impl Cargo {
         // Keep a list of candidates in case the manifest check fails, so that the old behavior
         // still applies, returning the first package that was found
         let mut candidates = vec![];
+        // `cargo metadata` reports absolute paths, but we may have been given a relative one.
+        let manifest_path = self.manifest_path.canonicalize();
         for package in &self.metadata.packages {
             if package.name_and_version.name == package_name {
                 // If we are sure it is the right package return it
-                if Path::new(package.manifest_path.as_str()) == self.manifest_path {
+                let package_manifest_path = Path::new(package.manifest_path.as_str());
+                if package_manifest_path == self.manifest_path
+                    || matches!(
+                        (&manifest_path, package_manifest_path.canonicalize()),
+                        (Ok(a), Ok(ref b)) if a == b
+                    )
+                {
                     return Some(package.name_and_version.clone());
                 }
                 // Otherwise note that a package was found
-- 
2.43.0


From 0e08f4b1e5fdafc2ee59264ba0b5b4091351ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:36 +0000
Subject: [PATCH 44/54] fix: keep the temporary target directory of parse.clean
 until the expansion is done, then remove it

---
 src/bindgen/cargo/cargo_expand.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/cargo/cargo_expand.rs b/src/bindgen/cargo/cargo_expand.rs
index ed46a58..6b9ee74 100644
--- a/src/bindgen/cargo/cargo_expand.rs
+++ b/src/bindgen/cargo/cargo_expand.rs
@@ -79,8 +79,9 @@ pub fn expand(
 
     let mut _temp_dir = None; // drop guard
     if use_tempdir {
-        _temp_dir = Some(Builder::new().prefix("cbindgen-expand").tempdir()?);
-        set_target_dir(&mut cmd, _temp_dir.unwrap().path());
+        let temp_dir = Builder::new().prefix("cbindgen-expand").tempdir()?;
+        set_target_dir(&mut cmd, temp_dir.path());
+        _temp_dir = Some(temp_dir);
     } else if let Ok(ref path) = env::var("CARGO_EXPAND_TARGET_DIR") {
         set_target_dir(&mut cmd, Path::new(path));
     } else if let Ok(ref path) = env::var("OUT_DIR") {
-- 
2.43.0


From 8c00904e88f6e3bb35ebb991dc2c79855d4e05ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:33 +0000
Subject: [PATCH 45/54] fix: a dependency listed for several targets is
 conditional on any of them

---
 src/bindgen/cargo/cargo.rs          |  5 +++--
 src/bindgen/cargo/cargo_metadata.rs | 22 +---------------------
 src/bindgen/ir/cfg.rs               | 20 ++++++++++++++++++--
 3 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/bindgen/cargo/cargo.rs b/src/bindgen/cargo/cargo.rs
index c541194..70435e6 100644
--- a/src/bindgen/cargo/cargo.rs
+++ b/src/bindgen/cargo/cargo.rs
@@ -167,8 +167,9 @@ impl Cargo {
                     .metadata
                     .packages
                     .get(package)
-                    .and_then(|meta_package| meta_package.dependencies.get(dep_name))
-                    .and_then(Cfg::load_metadata);
+                    .and_then(|meta_package| {
+                        Cfg::load_metadata(&meta_package.dependencies, dep_name)
+                    });
 
                 let package_ref = PackageRef {
                     name: dep_name.to_owned(),
diff --git a/src/bindgen/cargo/cargo_metadata.rs b/src/bindgen/cargo/cargo_metadata.rs
index 37d613b..d75cdba 100644
--- a/src/bindgen/cargo/cargo_metadata.rs
+++ b/src/bindgen/cargo/cargo_metadata.rs
@@ -46,7 +46,7 @@ pub struct Package {
     id: String,
     source: Option<String>,
     /// List of dependencies of this particular package
-    pub dependencies: HashSet<Dependency>,
+    pub dependencies: Vec<Dependency>,
     /// Targets provided by the crate (lib, bin, example, test, ...)
     pub targets: Vec<Target>,
     features: HashMap<String, Vec<String>>,
@@ -157,26 +157,6 @@ impl PartialEq for Package {
 
 impl Eq for Package {}
 
-impl Borrow<str> for Dependency {
-    fn borrow(&self) -> &str {
-        &self.name
-    }
-}
-
-impl Hash for Dependency {
-    fn hash<H: Hasher>(&self, state: &mut H) {
-        self.name.hash(state);
-    }
-}
-
-impl PartialEq for Dependency {
-    fn eq(&self, other: &Self) -> bool {
-        self.name == other.name
-    }
-}
-
-impl Eq for Dependency {}
-
 fn discover_target(manifest_path: &Path) -> Option<String> {
     if let Ok(target) = std::env::var("TARGET") {
         return Some(target);
diff --git a/src/bindgen/ir/cfg.rs b/src/bindgen/ir/cfg.rs
index 9bf632c..303f5d5 100644
--- a/src/bindgen/ir/cfg.rs
+++ b/src/bindgen/ir/cfg.rs
@@ -42,7 +42,7 @@ impl<'a> DefineKey<'a> {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub enum Cfg {
     Boolean(String),
     Named(String, String),
@@ -169,7 +169,23 @@ impl Cfg {
         }
     }
 
-    pub fn load_metadata(dependency: &Dependency) -> Option<Cfg> {
+    /// Loads the condition of the dependency on `name`, which may be listed several times, e.g.
+    /// for several targets.
+    pub fn load_metadata(dependencies: &[Dependency], name: &str) -> Option<Cfg> {
+        let mut cfgs = Vec::new();
+        for dependency in dependencies.iter().filter(|dep| dep.name == name) {
+            let cfg = Cfg::load_dependency(dependency)?;
+            if !cfgs.contains(&cfg) {
+                cfgs.push(cfg);
+            }
+        }
+        if cfgs.len() > 1 {
+            return Some(Cfg::Any(cfgs));
+        }
+        cfgs.pop()
+    }
+
+    fn load_dependency(dependency: &Dependency) -> Option<Cfg> {
         let target = dependency.target.as_ref()?;
         match syn::parse_str::<syn::Meta>(target) {
             Ok(target) => {
-- 
2.43.0


From 9d27dd8a225c8cef0b819e1f991f7a736dc5ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:16 +0000
Subject: [PATCH 46/54] fix: out-of-line bitflags may stand before their struct

---
 src/bindgen/parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/parser.rs b/src/bindgen/parser.rs
index 97d8dfd..b448aa2 100644
--- a/src/bindgen/parser.rs
+++ b/src/bindgen/parser.rs
@@ -470,6 +470,7 @@ impl Parse {
         items: &'a [syn::Item],
     ) -> Vec<&'a syn::ItemMod> {
         let mut impls_with_assoc_consts = Vec::new();
+        let mut macros_with_impls = Vec::new();
         let mut nested_modules = Vec::new();
 
         for item in items {
@@ -538,7 +539,14 @@ impl Parse {
                     }
                 }
                 syn::Item::Macro(ref item) => {
-                    self.load_builtin_macro(config, crate_name, mod_cfg, item);
+                    // `bitflags! { impl Flags: u32 { .. } }` needs to know `Flags`, which may come
+                    // later.
+                    let first_token = item.mac.tokens.clone().into_iter().next();
+                    if first_token.map_or(false, |token| token.to_string() == "impl") {
+                        macros_with_impls.push(item);
+                    } else {
+                        self.load_builtin_macro(config, crate_name, mod_cfg, item);
+                    }
                 }
                 syn::Item::Mod(ref item) => {
                     nested_modules.push(item);
@@ -547,6 +555,10 @@ impl Parse {
             }
         }
 
+        for item in macros_with_impls {
+            self.load_builtin_macro(config, crate_name, mod_cfg, item);
+        }
+
         for item_impl in impls_with_assoc_consts {
             self.load_syn_assoc_consts_from_impl(crate_name, mod_cfg, item_impl)
         }
-- 
2.43.0


From 22355554656db05261df3998eab981d44a11cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:16 +0000
Subject: [PATCH 47/54] fix: integer literals in 64-bit bitflags are 64 bits
 wide

---
 src/bindgen/bitflags.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/bindgen/bitflags.rs b/src/bindgen/bitflags.rs
index 5297d02..aa4a30e 100644
--- a/src/bindgen/bitflags.rs
+++ b/src/bindgen/bitflags.rs
@@ -155,6 +155,8 @@ struct FlagValueFold<'a> {
     flag_names: &'a HashSet<String>,
     out_of_line: bool,
     is_transparent: bool,
+    /// The suffix to give to integer literals, if they wouldn't fit the representation otherwise.
+    int_suffix: Option<&'static str>,
 }
 
 impl FlagValueFold<'_> {
@@ -164,6 +166,27 @@ impl FlagValueFold<'_> {
 }
 
 impl Fold for FlagValueFold<'_> {
+    fn fold_lit_int(&mut self, node: syn::LitInt) -> syn::LitInt {
+        match self.int_suffix {
+            Some(suffix) if node.suffix().is_empty() => {
+                syn::LitInt::new(&format!("{}{}", node.base10_digits(), suffix), node.span())
+            }
+            _ => node,
+        }
+    }
+
+    fn fold_expr_binary(&mut self, mut node: syn::ExprBinary) -> syn::ExprBinary {
+        if matches!(node.op, syn::BinOp::Shl(..) | syn::BinOp::Shr(..)) {
+            // The distance of a shift has a type of its own.
+            let int_suffix = self.int_suffix.take();
+            *node.right = self.fold_expr(*node.right);
+            self.int_suffix = int_suffix;
+            *node.left = self.fold_expr(*node.left);
+            return node;
+        }
+        syn::fold::fold_expr_binary(self, node)
+    }
+
     fn fold_expr(&mut self, node: syn::Expr) -> syn::Expr {
         // bitflags 2 doesn't expose `bits` publically anymore, and the documented way to
         // combine flags is using the `bits` method, e.g.
@@ -249,11 +272,23 @@ impl Flag {
             ref value,
             ..
         } = *self;
+        // Integer literals in e.g. `1 << 40` are as wide as the flags, but C's are only `int`s.
+        let int_suffix = match repr {
+            syn::Type::Path(syn::TypePath {
+                qself: None, path, ..
+            }) => match path.get_ident() {
+                Some(ident) if ident == "u64" || ident == "usize" => Some("u64"),
+                Some(ident) if ident == "i64" || ident == "isize" => Some("i64"),
+                _ => None,
+            },
+            _ => None,
+        };
         let folded_value = FlagValueFold {
             struct_name,
             flag_names,
             out_of_line,
             is_transparent,
+            int_suffix,
         }
         .fold_expr(value.clone());
         let value = if out_of_line || is_transparent {
-- 
2.43.0


From e6ee785457fd200de45cdb0372c1fd8d407a41e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:06 +0000
Subject: [PATCH 48/54] fix: function pointers that are not optional are
 required to be non-null

---
 src/bindgen/cdecl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/cdecl.rs b/src/bindgen/cdecl.rs
index 61c1994..73050eb 100644
--- a/src/bindgen/cdecl.rs
+++ b/src/bindgen/cdecl.rs
@@ -165,7 +165,7 @@ impl CDecl {
             Type::FuncPtr {
                 ref ret,
                 ref args,
-                is_nullable: _,
+                is_nullable,
                 never_return,
             } => {
                 let args = args
@@ -174,7 +174,7 @@ impl CDecl {
                     .collect();
                 self.declarators.push(CDeclarator::Ptr {
                     is_const: false,
-                    is_nullable: true,
+                    is_nullable: *is_nullable,
                     is_ref: false,
                 });
                 self.declarators.push(CDeclarator::Func {
-- 
2.43.0


From e2075b7fbc7aa131824a3566b33b0be976c8821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:06 +0000
Subject: [PATCH 49/54] fix: #[deprecated(since = "..")] without a note is a
 deprecation

---
 src/bindgen/utilities.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/utilities.rs b/src/bindgen/utilities.rs
index b5d4450..db02fa7 100644
--- a/src/bindgen/utilities.rs
+++ b/src/bindgen/utilities.rs
@@ -218,7 +218,11 @@ pub trait SynAttributeHelpers {
             }
         };
 
-        let arg = args.iter().find(|arg| arg.path.is_ident("note"))?;
+        // #[deprecated(since = "")]
+        let arg = match args.iter().find(|arg| arg.path.is_ident("note")) {
+            Some(arg) => arg,
+            None => return Some(String::new()),
+        };
         if let syn::Expr::Lit(syn::ExprLit {
             lit: syn::Lit::Str(ref lit),
             ..
-- 
2.43.0


From 577fe43f7067ba0d3723d3746982122291ffffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:06 +0000
Subject: [PATCH 50/54] fix: write deprecation notes as C string literals

---
 src/bindgen/ir/annotation.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/bindgen/ir/annotation.rs b/src/bindgen/ir/annotation.rs
index 1aefe67..9014634 100644
--- a/src/bindgen/ir/annotation.rs
+++ b/src/bindgen/ir/annotation.rs
@@ -46,6 +46,24 @@ pub enum DeprecatedNoteKind {
     EnumVariant,
 }
 
+/// Writes a string as a C string literal, on one line.
+fn c_string_literal(value: &str) -> String {
+    let mut literal = String::from("\"");
+    for c in value.chars() {
+        match c {
+            '"' => literal.push_str("\\\""),
+            '\\' => literal.push_str("\\\\"),
+            '\n' => literal.push_str("\\n"),
+            '\r' => literal.push_str("\\r"),
+            '\t' => literal.push_str("\\t"),
+            c if c.is_ascii_control() => literal.push_str(&format!("\\{:03o}", c as u32)),
+            c => literal.push(c),
+        }
+    }
+    literal.push('"');
+    literal
+}
+
 impl AnnotationSet {
     pub fn new() -> AnnotationSet {
         AnnotationSet {
@@ -96,7 +114,7 @@ impl AnnotationSet {
             DeprecatedNoteKind::Struct => &config.structure.deprecated_with_note,
         }
         .as_ref()?;
-        Some(Cow::Owned(format.replace("{}", &format!("{note:?}"))))
+        Some(Cow::Owned(format.replace("{}", &c_string_literal(note))))
     }
 
     pub fn load(attrs: &[syn::Attribute]) -> Result<AnnotationSet, String> {
-- 
2.43.0


From 4632a8ccad90f068dd83bc7df913129bfd511ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:18 +0000
Subject: [PATCH 51/54] fix: write the cbindgen version as a string in Cython,
 which has no /* */ comments

---
 src/bindgen/language_backend/cython.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index 9e2917d..e3a16d6 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -57,7 +57,7 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
             out.new_line_if_not_start();
             write!(
                 out,
-                "/* Generated with cbindgen:{} */",
+                "''' Generated with cbindgen:{} '''",
                 crate::bindgen::config::VERSION
             );
             out.new_line();
-- 
2.43.0


From 22162cf6777fb1fd092949179a9e7b4e2508a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:38 +0000
Subject: [PATCH 52/54] fix: a receiver with a type (self: &Self) has that
 type, not a pointer to it

---
 src/bindgen/ir/function.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/bindgen/ir/function.rs b/src/bindgen/ir/function.rs
index 3cc1175..15a7ab6 100644
--- a/src/bindgen/ir/function.rs
+++ b/src/bindgen/ir/function.rs
@@ -224,19 +224,12 @@ trait SynFnArgHelpers {
 }
 
 fn gen_self_type(receiver: &syn::Receiver) -> Result<Type, String> {
-    let mut self_ty = Type::Path(GenericPath::self_path());
+    let self_ty = Type::Path(GenericPath::self_path());
 
     let is_const = match &receiver.kind {
         syn::ReceiverKind::Reference(_, _, mut_token) => mut_token.is_none(),
         // Custom self type
-        syn::ReceiverKind::Typed(_, ty) => {
-            self_ty = Type::load(ty)?.unwrap_or(self_ty);
-
-            match &**ty {
-                syn::Type::Reference(ref_ty) => ref_ty.mutability.is_none(),
-                _ => return Ok(self_ty),
-            }
-        }
+        syn::ReceiverKind::Typed(_, ty) => return Ok(Type::load(ty)?.unwrap_or(self_ty)),
         syn::ReceiverKind::Value => return Ok(self_ty),
         _ => return Err(String::from("Receiver is of an unsupported kind")),
     };
-- 
2.43.0


From f30142cbed96eb79254f50b73176493639a89c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:38 +0000
Subject: [PATCH 53/54] fix: NonZeroUsize and NonZeroIsize were misspelt

---
 src/bindgen/ir/ty.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bindgen/ir/ty.rs b/src/bindgen/ir/ty.rs
index 2d761f4..a6327f8 100644
--- a/src/bindgen/ir/ty.rs
+++ b/src/bindgen/ir/ty.rs
@@ -115,12 +115,12 @@ impl PrimitiveType {
             "NonZeroU16" => (IntKind::B16, false),
             "NonZeroU32" => (IntKind::B32, false),
             "NonZeroU64" => (IntKind::B64, false),
-            "NonZeroUSize" => (IntKind::Size, false),
+            "NonZeroUsize" => (IntKind::Size, false),
             "NonZeroI8" => (IntKind::B8, true),
             "NonZeroI16" => (IntKind::B16, true),
             "NonZeroI32" => (IntKind::B32, true),
             "NonZeroI64" => (IntKind::B64, true),
-            "NonZeroISize" => (IntKind::Size, true),
+            "NonZeroIsize" => (IntKind::Size, true),
 
             _ => return None,
         };
-- 
2.43.0


From 28311df896c3b1944eefac37b22d8c7607c9914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:41 +0000
Subject: [PATCH 54/54] fix: constants marked cbindgen:no-export are not
 emitted

---
 src/bindgen/ir/structure.rs            | 6 ++++++
 src/bindgen/language_backend/clike.rs  | 4 ++--
 src/bindgen/language_backend/cython.rs | 2 +-
 src/bindgen/language_backend/mod.rs    | 6 +++---
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/bindgen/ir/structure.rs b/src/bindgen/ir/structure.rs
index c41427a..607cf86 100644
--- a/src/bindgen/ir/structure.rs
+++ b/src/bindgen/ir/structure.rs
@@ -186,6 +186,12 @@ impl Struct {
     }
 
     /// Whether the constants associated to this struct become static members.
+    pub fn exported_associated_constants(&self) -> impl Iterator<Item = &Constant> {
+        self.associated_constants
+            .iter()
+            .filter(|c| c.annotations.should_export())
+    }
+
     pub fn has_associated_constants_in_body(&self, config: &Config) -> bool {
         config.language == Language::Cxx
             && config.structure.associated_constants_in_body
diff --git a/src/bindgen/language_backend/clike.rs b/src/bindgen/language_backend/clike.rs
index b63878d..d21285e 100644
--- a/src/bindgen/language_backend/clike.rs
+++ b/src/bindgen/language_backend/clike.rs
@@ -606,7 +606,7 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
             && self.config.structure.associated_constants_in_body
             && self.config.constant.allow_static_const
         {
-            for constant in &s.associated_constants {
+            for constant in s.exported_associated_constants() {
                 out.new_line();
                 constant.write_declaration(self.config, self, out, s);
             }
@@ -619,7 +619,7 @@ impl LanguageBackend for CLikeLanguageBackend<'_> {
             out.close_brace(true);
         }
 
-        for constant in &s.associated_constants {
+        for constant in s.exported_associated_constants() {
             out.new_line();
             constant.write(self.config, self, out, Some(s));
         }
diff --git a/src/bindgen/language_backend/cython.rs b/src/bindgen/language_backend/cython.rs
index e3a16d6..7d25224 100644
--- a/src/bindgen/language_backend/cython.rs
+++ b/src/bindgen/language_backend/cython.rs
@@ -213,7 +213,7 @@ impl LanguageBackend for CythonLanguageBackend<'_> {
         }
         out.close_brace(true);
 
-        for constant in &s.associated_constants {
+        for constant in s.exported_associated_constants() {
             out.new_line();
             constant.write(self.config, self, out, Some(s));
         }
diff --git a/src/bindgen/language_backend/mod.rs b/src/bindgen/language_backend/mod.rs
index aa1a4d0..ef1a6aa 100644
--- a/src/bindgen/language_backend/mod.rs
+++ b/src/bindgen/language_backend/mod.rs
@@ -153,7 +153,7 @@ pub trait LanguageBackend: Sized {
 
     fn write_primitive_constants<W: Write>(&mut self, out: &mut SourceWriter<W>, b: &Bindings) {
         for (constant, after_items) in b.constants.iter().zip(constants_after_items(b)) {
-            if !after_items {
+            if !after_items && constant.annotations.should_export() {
                 out.new_line_if_not_start();
                 constant.write(&b.config, self, out, None);
                 out.new_line();
@@ -170,7 +170,7 @@ pub trait LanguageBackend: Sized {
     ) {
         if let Some(typedef) = s.as_typedef() {
             self.write_type_def(out, &typedef);
-            for constant in &s.associated_constants {
+            for constant in s.exported_associated_constants() {
                 out.new_line();
                 constant.write(&b.config, self, out, Some(s));
             }
@@ -201,7 +201,7 @@ pub trait LanguageBackend: Sized {
 
     fn write_non_primitive_constants<W: Write>(&mut self, out: &mut SourceWriter<W>, b: &Bindings) {
         for (constant, after_items) in b.constants.iter().zip(constants_after_items(b)) {
-            if after_items {
+            if after_items && constant.annotations.should_export() {
                 out.new_line_if_not_start();
                 constant.write(&b.config, self, out, None);
                 out.new_line();
-- 
2.43.0

