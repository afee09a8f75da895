From 22018ac0be5865e75efdf4a109e76f179f73a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 01/12] fix: look up the last written char in constant time

---
 src/demangler.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index fc12d3c..c18d410 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -119,7 +119,12 @@ mod writing {
         }
 
         fn last_char(&self) -> Option<char> {
-            match std::str::from_utf8(self.as_bytes()) {
+            // only look at the last encoded char: this is called for nearly every node that gets
+            // written, so it must not depend on how much has been written already
+            let bytes = self.as_bytes();
+            let tail = &bytes[bytes.len().saturating_sub(4)..];
+            let start = tail.iter().rposition(|x| x & 0xC0 != 0x80)?;
+            match std::str::from_utf8(&tail[start..]) {
                 Ok(string) => string.chars().next_back(),
                 Err(_) => None,
             }
-- 
2.43.0


From 49014cc7183f66b7f65f8bd8f27796b3c51799ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 02/12] fix: leave no stray space behind when NO_MS_KEYWORDS
 drops __restrict

---
 src/nodes/enums.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/nodes/enums.rs b/src/nodes/enums.rs
index 70abf2f..dae26e0 100644
--- a/src/nodes/enums.rs
+++ b/src/nodes/enums.rs
@@ -56,9 +56,6 @@ impl SingleQualifier {
             Self::Const => "const",
             Self::Volatile => "volatile",
             Self::Restrict => {
-                if flags.no_ms_keywords() {
-                    return Ok(());
-                }
                 if flags.no_leading_underscores() {
                     "restrict"
                 } else {
@@ -122,7 +119,9 @@ impl Qualifiers {
         mask: SingleQualifier,
         needs_space: bool,
     ) -> Result<bool> {
-        if !self.contains(mask.into()) {
+        if !self.contains(mask.into())
+            || (matches!(mask, SingleQualifier::Restrict) && flags.no_ms_keywords())
+        {
             return Ok(needs_space);
         }
 
-- 
2.43.0


From 152ce0f9a3860e5db0a202d73d629a1f60cbc5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 03/12] fix: separate a type that ends in '_' or '$' from what
 follows it

---
 src/nodes/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index 647d303..d019cff 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -114,7 +114,8 @@ use std::mem;
 
 fn output_space_if_necessary(ob: &mut dyn Writer) -> Result<()> {
     if let Some(c) = ob.last_char() {
-        if c.is_alphanumeric() || c == '>' {
+        // an identifier can end in '_' or '$' as well as in a letter or digit
+        if c.is_alphanumeric() || matches!(c, '_' | '$' | '>') {
             write!(ob, " ")?;
         }
     }
-- 
2.43.0


From 2005532e0c3d02d5668ffc45bb1bc0e936b511f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 04/12] fix: write function types in full under NAME_ONLY

NAME_ONLY suppresses the signature of the function it names, but it also
mangled function types that are part of the name, i.e. in a template
argument: f<void (int)> became f<>, a function pointer lost the end of its
return type, and noexcept was left behind on the function itself.
---
 src/nodes/derived.rs | 63 ++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 6b1dcd1..9f66739 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -153,7 +153,7 @@ impl FunctionSignatureNode {
         flags: OutputFlags,
         is_function_ptr: bool,
     ) -> Result<()> {
-        if !flags.no_access_specifier() && !flags.name_only() {
+        if !flags.no_access_specifier() {
             if self.function_class.is_public() {
                 write!(ob, "public: ")?;
             }
@@ -165,7 +165,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_member_type() && !flags.name_only() {
+        if !flags.no_member_type() {
             if !self.function_class.is_global() && self.function_class.is_static() {
                 write!(ob, "static ")?;
             }
@@ -177,18 +177,14 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
+        if !flags.no_return_type() {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_pre(cache, ob, flags)?;
                 write!(ob, " ")?;
             }
         }
 
-        if !is_function_ptr
-            && !flags.no_calling_convention()
-            && !flags.no_ms_keywords()
-            && !flags.name_only()
-        {
+        if !is_function_ptr && !flags.no_calling_convention() && !flags.no_ms_keywords() {
             if let Some(call_convention) = self.call_convention {
                 call_convention.output(ob, flags)?;
             }
@@ -202,9 +198,8 @@ impl FunctionSignatureNode {
         cache: &NodeCache,
         ob: &mut dyn Writer,
         flags: OutputFlags,
-        is_function_ptr: bool,
     ) -> Result<()> {
-        if (is_function_ptr || !flags.name_only()) && !self.function_class.no_parameter_list() {
+        if !self.function_class.no_parameter_list() {
             write!(ob, "(")?;
             if let Some(params) = self.params.map(|x| x.resolve(cache)) {
                 params.output(cache, ob, flags)?;
@@ -221,7 +216,7 @@ impl FunctionSignatureNode {
             write!(ob, ")")?;
         }
 
-        if !flags.no_this_type() && !flags.name_only() {
+        if !flags.no_this_type() {
             if self.quals.is_const() {
                 write!(ob, " const")?;
             }
@@ -250,7 +245,7 @@ impl FunctionSignatureNode {
             write!(ob, " noexcept")?;
         }
 
-        if !flags.no_this_type() && !flags.name_only() {
+        if !flags.no_this_type() {
             match self.ref_qualifier {
                 Some(FunctionRefQualifier::Reference) => write!(ob, " &")?,
                 Some(FunctionRefQualifier::RValueReference) => write!(ob, " &&")?,
@@ -258,7 +253,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && !flags.name_only() {
+        if !flags.no_return_type() {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_post(cache, ob, flags)?;
             }
@@ -301,7 +296,7 @@ impl WriteableTypeNode for FunctionSignatureNode {
         ob: &mut dyn Writer,
         flags: OutputFlags,
     ) -> Result<()> {
-        self.do_output_post(cache, ob, flags, false)
+        self.do_output_post(cache, ob, flags)
     }
 }
 
@@ -327,9 +322,7 @@ impl ThunkSignatureNode {
         flags: OutputFlags,
         is_function_ptr: bool,
     ) -> Result<()> {
-        if !flags.name_only() {
-            write!(ob, "[thunk]: ")?;
-        }
+        write!(ob, "[thunk]: ")?;
         self.function_node
             .do_output_pre(cache, ob, flags, is_function_ptr)
     }
@@ -339,8 +332,12 @@ impl ThunkSignatureNode {
         cache: &NodeCache,
         ob: &mut dyn Writer,
         flags: OutputFlags,
-        is_function_ptr: bool,
     ) -> Result<()> {
+        self.output_this_adjust(ob)?;
+        self.function_node.do_output_post(cache, ob, flags)
+    }
+
+    fn output_this_adjust(&self, ob: &mut dyn Writer) -> Result<()> {
         let ThisAdjustor {
             static_offset,
             vbptr_offset,
@@ -358,8 +355,7 @@ impl ThunkSignatureNode {
             }
         }
 
-        self.function_node
-            .do_output_post(cache, ob, flags, is_function_ptr)
+        Ok(())
     }
 }
 
@@ -394,7 +390,7 @@ impl WriteableTypeNode for ThunkSignatureNode {
         ob: &mut dyn Writer,
         flags: OutputFlags,
     ) -> Result<()> {
-        self.do_output_post(cache, ob, flags, false)
+        self.do_output_post(cache, ob, flags)
     }
 }
 
@@ -490,12 +486,8 @@ impl WriteableTypeNode for PointerTypeNode {
         }
         if let TypeNode::Signature(sig) = pointee {
             match sig {
-                SignatureNode::FunctionSignature(func) => {
-                    func.do_output_post(cache, ob, flags, true)
-                }
-                SignatureNode::ThunkSignature(thunk) => {
-                    thunk.do_output_post(cache, ob, flags, true)
-                }
+                SignatureNode::FunctionSignature(func) => func.do_output_post(cache, ob, flags),
+                SignatureNode::ThunkSignature(thunk) => thunk.do_output_post(cache, ob, flags),
             }
         } else {
             pointee.output_post(cache, ob, flags)
@@ -1236,11 +1228,24 @@ pub(crate) struct FunctionSymbolNode {
 
 impl WriteableNode for FunctionSymbolNode {
     fn output(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        self.signature.resolve(cache).output_pre(cache, ob, flags)?;
+        let signature = self.signature.resolve(cache);
+        if flags.name_only() {
+            // The signature of the function itself isn't part of its name, but any other
+            // function type in there (i.e. a template argument) is, and gets written in full.
+            if let Some(name) = self.name {
+                name.resolve(cache).output(cache, ob, flags)?;
+            }
+            if let SignatureNode::ThunkSignature(thunk) = signature {
+                thunk.output_this_adjust(ob)?;
+            }
+            return Ok(());
+        }
+
+        signature.output_pre(cache, ob, flags)?;
         super::output_space_if_necessary(ob)?;
         if let Some(name) = self.name {
             name.resolve(cache).output(cache, ob, flags)?;
         }
-        self.signature.resolve(cache).output_post(cache, ob, flags)
+        signature.output_post(cache, ob, flags)
     }
 }
-- 
2.43.0


From 0f084bca672dae3f06227bb5066ed56da3c04328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 05/12] fix: number back references independently of the output
 flags

Names were told apart by how the requested flags render them, so i.e.
NO_TAG_SPECIFIER merged A<struct B> and A<class B> and shifted every later
back reference: symbols demangled to the wrong type, or not at all.
---
 src/demangler.rs     | 97 ++++++++++++++++++++++++++++++--------------
 src/nodes/derived.rs |  9 +++-
 2 files changed, 74 insertions(+), 32 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index c18d410..04bf738 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -199,13 +199,20 @@ mod writing {
 
 use writing::BufWriter;
 
+struct NameBackref<'alloc> {
+    // What tells two names apart. It can't depend on the output flags: they must not have a say in
+    // how back references are numbered.
+    key: &'alloc str,
+    node: NodeHandle<NamedIdentifier>,
+}
+
 #[derive(Default)]
-struct BackrefContext {
+struct BackrefContext<'alloc> {
     function_params: ArrayVec<NodeHandle<ITypeNode>, 10>,
 
     // The first 10 BackReferences in a mangled name can be back-referenced by
     // special name @[0-9]. This is a storage for the first 10 BackReferences.
-    names: ArrayVec<NodeHandle<NamedIdentifier>, 10>,
+    names: ArrayVec<NameBackref<'alloc>, 10>,
 }
 
 #[derive(Clone, Copy)]
@@ -247,7 +254,7 @@ pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
-    backrefs: BackrefContext,
+    backrefs: BackrefContext<'alloc>,
     flags: OutputFlags,
 }
 
@@ -1097,19 +1104,24 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // First 10 strings can be referenced by special BackReferences ?0, ?1, ..., ?9.
     // Memorize it.
     fn memorize_string(&mut self, s: &'alloc str) -> Result<()> {
-        if !self.backrefs.names.is_full()
-            && self
-                .backrefs
-                .names
-                .iter()
-                .all(|x| x.resolve(&self.cache).name != s)
-        {
-            let name = self.cache.intern(NamedIdentifierNode {
+        self.memorize_name(
+            s,
+            NamedIdentifierNode {
                 name: s,
                 ..Default::default()
-            })?;
+            },
+        )
+    }
+
+    fn memorize_name(&mut self, key: &'alloc str, name: NamedIdentifierNode<'alloc>) -> Result<()> {
+        if !self.backrefs.names.is_full() && self.backrefs.names.iter().all(|x| x.key != key) {
+            let node = self.cache.intern(name)?;
             // SAFETY: we just verified the array is not full
-            unsafe { self.backrefs.names.push_unchecked(name) };
+            unsafe {
+                self.backrefs
+                    .names
+                    .push_unchecked(NameBackref { key, node });
+            };
         }
         Ok(())
     }
@@ -1117,14 +1129,35 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     fn memorize_identifier(&mut self, identifier: NodeHandle<IIdentifierNode>) -> Result<()> {
         // Render this class template name into a string buffer so that we can
         // memorize it for the purpose of back-referencing.
-        let mut ob = {
-            let ob = alloc::new_vec(self.allocator);
-            BufWriter::new(ob)
+        let render = |flags| -> Result<&'alloc str> {
+            let mut ob = {
+                let ob = alloc::new_vec(self.allocator);
+                BufWriter::new(ob)
+            };
+            identifier
+                .resolve(&self.cache)
+                .output(&self.cache, &mut ob, flags)?;
+            Ok(ob.try_into()?)
         };
-        identifier
-            .resolve(&self.cache)
-            .output(&self.cache, &mut ob, self.flags)?;
-        self.memorize_string(ob.try_into()?)
+        let node = self.named_identifier_from_render(render)?;
+        self.memorize_name(node.canonical_name.unwrap_or(node.name), node)
+    }
+
+    // Keep what the default flags render along with what the requested flags render: the former is
+    // what identifies the name.
+    fn named_identifier_from_render<F>(&self, render: F) -> Result<NamedIdentifierNode<'alloc>>
+    where
+        F: Fn(OutputFlags) -> Result<&'alloc str>,
+    {
+        Ok(NamedIdentifierNode {
+            name: render(self.flags)?,
+            canonical_name: if self.flags.is_empty() {
+                None
+            } else {
+                Some(render(OutputFlags::empty())?)
+            },
+            ..Default::default()
+        })
     }
 
     // Parses a type name in the form of A@B@C@@ which represents C::B::A.
@@ -1250,8 +1283,9 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .backrefs
             .names
             .get(i as usize)
-            .ok_or(Error::InvalidBackRef)?;
-        Ok(*node)
+            .ok_or(Error::InvalidBackRef)?
+            .node;
+        Ok(node)
     }
 
     fn demangle_template_instantiation_name(
@@ -1770,7 +1804,6 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     }
 
     fn demangle_locally_scoped_name_piece(&mut self) -> Result<NodeHandle<NamedIdentifier>> {
-        let mut identifier = NamedIdentifierNode::default();
         self.mangled_name
             .try_consume_char('?')
             .ok_or(Error::InvalidLocallyScopedNamePiece)?;
@@ -1786,15 +1819,17 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         let scope = self.do_parse()?.resolve(&self.cache);
 
         // Render the parent symbol's name into a buffer.
-        let mut ob = {
-            let ob = alloc::new_vec(self.allocator);
-            BufWriter::new(ob)
+        let render = |flags| -> Result<&'alloc str> {
+            let mut ob = {
+                let ob = alloc::new_vec(self.allocator);
+                BufWriter::new(ob)
+            };
+            write!(ob, "`")?;
+            scope.output(&self.cache, &mut ob, flags)?;
+            write!(ob, "'::`{number}'")?;
+            Ok(ob.try_into()?)
         };
-        write!(ob, "`")?;
-        scope.output(&self.cache, &mut ob, self.flags)?;
-        write!(ob, "'::`{number}'")?;
-
-        identifier.name = ob.try_into()?;
+        let identifier = self.named_identifier_from_render(render)?;
         self.cache.intern(identifier)
     }
 
diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 9f66739..882fcba 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -731,11 +731,18 @@ impl WriteableNode for DynamicStructorIdentifierNode {
 pub(crate) struct NamedIdentifierNode<'alloc> {
     pub(crate) template_params: TemplateParameters,
     pub(crate) name: &'alloc str,
+
+    // What `name` would have been with the default flags, if it was rendered with any others.
+    pub(crate) canonical_name: Option<&'alloc str>,
 }
 
 impl WriteableNode for NamedIdentifierNode<'_> {
     fn output(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        write!(ob, "{}", self.name)?;
+        let name = match self.canonical_name {
+            Some(canonical_name) if flags.is_empty() => canonical_name,
+            _ => self.name,
+        };
+        write!(ob, "{name}")?;
         self.template_params.output(cache, ob, flags)
     }
 }
-- 
2.43.0


From 9f13f02c841f9cf54171feed662e40c7d37a10d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 06/12] fix: write a back reference to an anonymous namespace
 as such

It came out as the namespace's mangled key: f(struct 0xabc::S).
---
 src/demangler.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 04bf738..eee3ee4 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1793,14 +1793,15 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .mangled_name
             .try_consume_n_bytes(pos)
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
-        self.memorize_string(namespace_key)?;
+        let identifier = NamedIdentifierNode {
+            name: "`anonymous namespace'",
+            ..Default::default()
+        };
+        self.memorize_name(namespace_key, identifier.clone())?;
         self.mangled_name
             .try_consume_char('@')
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
-        self.cache.intern(NamedIdentifierNode {
-            name: "`anonymous namespace'",
-            ..Default::default()
-        })
+        self.cache.intern(identifier)
     }
 
     fn demangle_locally_scoped_name_piece(&mut self) -> Result<NodeHandle<NamedIdentifier>> {
-- 
2.43.0


From cc35ad4d6231732c8870742b349e60db1bd5b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 07/12] fix: limit how deep the parser recurses

A symbol that nests deep enough overflowed the stack, which aborts the
process: i.e. '?x@@3', 'P6A' repeated 20000 times. Such symbols are now
rejected as malicious before they can exhaust a 2 MiB stack.
---
 src/demangler.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/demangler.rs b/src/demangler.rs
index eee3ee4..c23f2e5 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -250,12 +250,17 @@ enum FunctionIdentifierCodeGroup {
     DoubleUnder,
 }
 
+// How deep types, template instantiations, and symbols may nest in each other. Nothing else limits
+// the recursion, so it has to fit into the 2 MiB stack that threads get by default.
+const MAX_NESTING: usize = 1 << 9;
+
 pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
     backrefs: BackrefContext<'alloc>,
     flags: OutputFlags,
+    nesting: usize,
 }
 
 impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
@@ -270,6 +275,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             cache: NodeCache::new(allocator),
             backrefs: BackrefContext::default(),
             flags,
+            nesting: 0,
         }
     }
 
@@ -303,7 +309,22 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         }
     }
 
+    // Every cycle in the recursion goes through here.
+    fn nested<T>(&mut self, parse: impl FnOnce(&mut Self) -> Result<T>) -> Result<T> {
+        if self.nesting >= MAX_NESTING {
+            return Err(Error::MaliciousInput);
+        }
+        self.nesting += 1;
+        let result = parse(self);
+        self.nesting -= 1;
+        result
+    }
+
     fn do_parse(&mut self) -> Result<NodeHandle<ISymbolNode>> {
+        self.nested(Self::demangle_symbol)
+    }
+
+    fn demangle_symbol(&mut self) -> Result<NodeHandle<ISymbolNode>> {
         // Typeinfo names are strings stored in RTTI data. They're not symbol names.
         // It's still useful to demangle them. They're the only demangled entity
         // that doesn't start with a "?" but a ".".
@@ -556,6 +577,13 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // <variable-type> ::= <type> <cvr-qualifiers>
     //                 ::= <type> <pointee-cvr-qualifiers> # pointers, references
     fn demangle_type(&mut self, qmm: QualifierMangleMode) -> Result<NodeHandle<ITypeNode>> {
+        self.nested(|x| x.demangle_unguarded_type(qmm))
+    }
+
+    fn demangle_unguarded_type(
+        &mut self,
+        qmm: QualifierMangleMode,
+    ) -> Result<NodeHandle<ITypeNode>> {
         let quals = match qmm {
             QualifierMangleMode::Mangle => self.demangle_qualifiers()?.0,
             QualifierMangleMode::Result => {
@@ -1291,6 +1319,13 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     fn demangle_template_instantiation_name(
         &mut self,
         nbb: NameBackrefBehavior,
+    ) -> Result<NodeHandle<IIdentifierNode>> {
+        self.nested(|x| x.demangle_unguarded_template_instantiation_name(nbb))
+    }
+
+    fn demangle_unguarded_template_instantiation_name(
+        &mut self,
+        nbb: NameBackrefBehavior,
     ) -> Result<NodeHandle<IIdentifierNode>> {
         self.mangled_name
             .try_consume_str("?$")
-- 
2.43.0


From 32747e5ec611e76d30d6213d8d429469b381d6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 08/12] fix: separate a type that ends in a combining mark from
 what follows it

C++ identifiers may end in characters that aren't alphanumeric (i.e. a
combining mark): 'class e\u{301} x' was written as 'class e\u{301}x'.
---
 src/nodes/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index d019cff..a7c3c67 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -114,8 +114,9 @@ use std::mem;
 
 fn output_space_if_necessary(ob: &mut dyn Writer) -> Result<()> {
     if let Some(c) = ob.last_char() {
-        // an identifier can end in '_' or '$' as well as in a letter or digit
-        if c.is_alphanumeric() || matches!(c, '_' | '$' | '>') {
+        // an identifier can end in '_' or '$' as well as in a letter or digit, and anything that
+        // isn't ascii (i.e. a combining mark) has to come from an identifier
+        if c.is_alphanumeric() || matches!(c, '_' | '$' | '>') || !c.is_ascii() {
             write!(ob, " ")?;
         }
     }
-- 
2.43.0


From 3db4d97a6c271fb4c4c58d1d7b4effc6211efedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 09/12] fix: refuse a number of more than 64 bits instead of
 showing another one

---
 src/demangler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index c23f2e5..5773c3a 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1099,8 +1099,10 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
                     // TODO: grammar says "<hex digit>+ @", but code says "<hex digit>* @"... bug?
                     // https://github.com/llvm/llvm-project/blob/bafda89a0944d947fc4b3b5663185e07a397ac30/llvm/lib/Demangle/MicrosoftDemangle.cpp#L932-L958
                     '@' => break Ok((number, is_negative)),
+                    // a number that doesn't fit must not be mistaken for another one
+                    _ if number >> 60 != 0 => break Err(Error::InvalidNumber),
                     c if c.is_rebased_ascii_hexdigit() => {
-                        number = number.wrapping_shl(4) + u64::from(c as u8 - b'A');
+                        number = (number << 4) + u64::from(c as u8 - b'A');
                     }
                     _ => break Err(Error::InvalidNumber),
                 }
-- 
2.43.0


From 224fc13e58c0bdf00e9494b96d740121a9cc7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 10/12] fix: separate an ellipsis from a parameter that ends in
 a parenthesis

---
 src/nodes/derived.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 882fcba..e702158 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -201,14 +201,16 @@ impl FunctionSignatureNode {
     ) -> Result<()> {
         if !self.function_class.no_parameter_list() {
             write!(ob, "(")?;
-            if let Some(params) = self.params.map(|x| x.resolve(cache)) {
+            let params = self.params.map(|x| x.resolve(cache));
+            if let Some(params) = params {
                 params.output(cache, ob, flags)?;
             } else {
                 write!(ob, "void")?;
             }
 
             if self.is_variadic {
-                if ob.last_char().is_some_and(|x| x != '(') {
+                // a parameter can end in '(', too, so don't go by what has been written
+                if params.is_some_and(|x| !x.nodes.is_empty()) {
                     write!(ob, ", ")?;
                 }
                 write!(ob, "...")?;
-- 
2.43.0


From 4ec11f5f91cf2b433d88f439288d8ae9a6284f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:52 +0000
Subject: [PATCH 11/12] fix: show the qualifiers of custom types

---
 src/nodes/derived.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index e702158..559ad6f 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -626,7 +626,8 @@ impl WriteableNode for CustomTypeNode {
 
 impl WriteableTypeNode for CustomTypeNode {
     fn output_pre(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        self.identifier.resolve(cache).output(cache, ob, flags)
+        self.identifier.resolve(cache).output(cache, ob, flags)?;
+        self.quals.output(ob, flags, true, false)
     }
 
     fn output_post(&self, _: &NodeCache, _: &mut dyn Writer, _: OutputFlags) -> Result<()> {
-- 
2.43.0


From 16b406a67b4fb1158a0e6fe9c4efd0e3b58c8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 12/12] fix: don't keep every size of the buffers that names
 are rendered into

---
 src/demangler.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 5773c3a..3808ed9 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1160,19 +1160,23 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         // Render this class template name into a string buffer so that we can
         // memorize it for the purpose of back-referencing.
         let render = |flags| -> Result<&'alloc str> {
-            let mut ob = {
-                let ob = alloc::new_vec(self.allocator);
-                BufWriter::new(ob)
-            };
+            let mut ob = BufWriter::new(Vec::new());
             identifier
                 .resolve(&self.cache)
                 .output(&self.cache, &mut ob, flags)?;
-            Ok(ob.try_into()?)
+            self.allocate_rendered(ob)
         };
         let node = self.named_identifier_from_render(render)?;
         self.memorize_name(node.canonical_name.unwrap_or(node.name), node)
     }
 
+    // A buffer that grows in the arena leaves all of its smaller selves behind, so names are rendered
+    // outside of it, and only what they have become is kept.
+    fn allocate_rendered(&self, ob: BufWriter<Vec<u8>>) -> Result<&'alloc str> {
+        let bytes = ob.into_bytes();
+        Ok(self.allocator.alloc_str(std::str::from_utf8(&bytes)?))
+    }
+
     // Keep what the default flags render along with what the requested flags render: the former is
     // what identifies the name.
     fn named_identifier_from_render<F>(&self, render: F) -> Result<NamedIdentifierNode<'alloc>>
@@ -1858,14 +1862,11 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
 
         // Render the parent symbol's name into a buffer.
         let render = |flags| -> Result<&'alloc str> {
-            let mut ob = {
-                let ob = alloc::new_vec(self.allocator);
-                BufWriter::new(ob)
-            };
+            let mut ob = BufWriter::new(Vec::new());
             write!(ob, "`")?;
             scope.output(&self.cache, &mut ob, flags)?;
             write!(ob, "'::`{number}'")?;
-            Ok(ob.try_into()?)
+            self.allocate_rendered(ob)
         };
         let identifier = self.named_identifier_from_render(render)?;
         self.cache.intern(identifier)
-- 
2.43.0

