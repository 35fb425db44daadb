From f64439be44d67b44cf5f90b434d408d5d79f804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 01/46] fix: extend object stack sizes to every name of a
 function

stack_sizes::analyze_object keeps the size of a function under one of its
symbols only, in an order that depends on the hash seed; with aliases or
mapping symbols the stack usage got lost nondeterministically
---
 src/main.rs | 66 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 36c34a0..a9476db 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -28,7 +28,11 @@ use petgraph::{
     Direction, Graph,
 };
 use walkdir::WalkDir;
-use xmas_elf::{sections::SectionData, symbol_table::Entry, ElfFile};
+use xmas_elf::{
+    sections::SectionData,
+    symbol_table::{Entry, Type as SymbolType},
+    ElfFile,
+};
 
 use crate::{
     ir::{FnSig, Item, Stmt, Type},
@@ -362,10 +366,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
     // extract stack size information
     // the `.o` file doesn't have address information so we just keep the stack usage information
-    let mut stack_sizes: HashMap<_, _> = stack_sizes::analyze_object(&obj)?
-        .into_iter()
-        .map(|(name, stack)| (name.to_owned(), stack))
-        .collect();
+    let mut stack_sizes = object_stack_sizes(&obj)?;
 
     let mut ar = Archive::new(
         File::open(&compiler_builtins_rlib_path)
@@ -383,11 +384,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         {
             buf.clear();
             entry.read_to_end(&mut buf)?;
-            stack_sizes.extend(
-                stack_sizes::analyze_object(&buf)?
-                    .into_iter()
-                    .map(|(name, stack)| (name.to_owned(), stack)),
-            );
+            stack_sizes.extend(object_stack_sizes(&buf)?);
         }
     }
 
@@ -1493,6 +1490,55 @@ struct Indirect {
     callees: HashSet<NodeIndex>,
 }
 
+// `stack_sizes::analyze_object` reports the stack usage of a function under just one -- which one is
+// unspecified -- of the symbols that refer to it, and that can even be a mapping symbol like `$x.0`;
+// here we extend that information to all the names of the function
+fn object_stack_sizes(obj: &[u8]) -> anyhow::Result<HashMap<String, u64>> {
+    fn functions<'a, E: Entry>(
+        entries: &'a [E],
+        elf: &ElfFile<'a>,
+    ) -> HashMap<(u16, u64), Vec<&'a str>> {
+        let mut functions = HashMap::<_, Vec<_>>::new();
+        for entry in entries {
+            if let (Ok(SymbolType::Func), Ok(name)) | (Ok(SymbolType::NoType), Ok(name)) =
+                (entry.get_type(), entry.get_name(elf))
+            {
+                // NOTE clear the thumb bit
+                let key = (entry.shndx(), entry.value() & !1);
+                if entry.shndx() != 0 && !name.is_empty() {
+                    functions.entry(key).or_default().push(name);
+                }
+            }
+        }
+        functions
+    }
+
+    let mut stack_sizes: HashMap<_, _> = stack_sizes::analyze_object(obj)?
+        .into_iter()
+        .map(|(name, stack)| (name.to_owned(), stack))
+        .collect();
+
+    let elf = ElfFile::new(obj).map_err(anyhow::Error::msg)?;
+    let functions = match elf
+        .find_section_by_name(".symtab")
+        .map(|sect| sect.get_data(&elf))
+    {
+        Some(Ok(SectionData::SymbolTable32(entries))) => functions(entries, &elf),
+        Some(Ok(SectionData::SymbolTable64(entries))) => functions(entries, &elf),
+        _ => HashMap::new(),
+    };
+
+    for names in functions.values() {
+        if let Some(stack) = names.iter().find_map(|name| stack_sizes.get(*name)).cloned() {
+            for name in names {
+                stack_sizes.entry((*name).to_owned()).or_insert(stack);
+            }
+        }
+    }
+
+    Ok(stack_sizes)
+}
+
 // removes hashes like `::hfc5adc5d79855638`, if present
 fn dehash(demangled: &str) -> Option<&str> {
     const HASH_LENGTH: usize = 19;
-- 
2.43.0


From d5a3295b9e9abfb1ab36ef9af841189849d23ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 02/46] fix: llvm.memmove lowers to memmove, not to memset

also look the memory routines up by any of their names and not only by the
canonical one, include the remaining AEABI variants and, when a routine is
dynamically linked, do not make the edge depend on the order in which
functions are visited
---
 src/main.rs | 92 +++++++++++++++++++++++++----------------------------
 1 file changed, 44 insertions(+), 48 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a9476db..8718de0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -611,13 +611,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         continue;
                     }
 
-                    let mut call = |callee| {
-                        if !callees_seen.contains(&callee) {
-                            g.add_edge(caller, callee, ());
-                            callees_seen.insert(callee);
-                        }
-                    };
-
                     if target_.is_thumb() && func.starts_with("llvm.") {
                         // we'll analyze the machine code in the ELF file to figure out what these
                         // lower to
@@ -626,49 +619,52 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
                     // TODO? consider alignment and `value` argument to only include one edge
                     // TODO? consider the `len` argument to elide the call to `*mem*`
-                    if func.starts_with("llvm.memcpy.") {
-                        if let Some(callee) = indices.get("memcpy") {
-                            call(*callee);
-                        }
-
-                        // ARMv7-R and the like use these
-                        if let Some(callee) = indices.get("__aeabi_memcpy") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("__aeabi_memcpy4") {
-                            call(*callee);
-                        }
-
-                        continue;
-                    }
-
-                    // TODO? consider alignment and `value` argument to only include one edge
-                    // TODO? consider the `len` argument to elide the call to `*mem*`
-                    if func.starts_with("llvm.memset.") || func.starts_with("llvm.memmove.") {
-                        if let Some(callee) = indices.get("memset") {
-                            call(*callee);
-                        }
-
-                        // ARMv7-R and the like use these
-                        if let Some(callee) = indices.get("__aeabi_memset") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("__aeabi_memset4") {
-                            call(*callee);
-                        }
-
-                        if let Some(callee) = indices.get("memclr") {
-                            call(*callee);
-                        }
+                    let routines: &[&str] = if func.starts_with("llvm.memcpy.") {
+                        // ARMv7-R and the like use the `__aeabi` ones
+                        &[
+                            "memcpy",
+                            "__aeabi_memcpy",
+                            "__aeabi_memcpy4",
+                            "__aeabi_memcpy8",
+                        ]
+                    } else if func.starts_with("llvm.memmove.") {
+                        &[
+                            "memmove",
+                            "__aeabi_memmove",
+                            "__aeabi_memmove4",
+                            "__aeabi_memmove8",
+                        ]
+                    } else if func.starts_with("llvm.memset.") {
+                        &[
+                            "memset",
+                            "__aeabi_memset",
+                            "__aeabi_memset4",
+                            "__aeabi_memset8",
+                            "memclr",
+                            "__aeabi_memclr",
+                            "__aeabi_memclr4",
+                            "__aeabi_memclr8",
+                        ]
+                    } else {
+                        &[]
+                    };
 
-                        if let Some(callee) = indices.get("__aeabi_memclr") {
-                            call(*callee);
-                        }
+                    if !routines.is_empty() {
+                        for routine in routines.iter().copied() {
+                            let callee = if let Some(canon) = aliases.get(routine) {
+                                indices[*canon]
+                            } else if symbols.undefined.contains(routine) {
+                                // dynamically linked
+                                *indices
+                                    .entry(routine.into())
+                                    .or_insert_with(|| g.add_node(Node(routine, None, false)))
+                            } else {
+                                continue;
+                            };
 
-                        if let Some(callee) = indices.get("__aeabi_memclr4") {
-                            call(*callee);
+                            if callees_seen.insert(callee) {
+                                g.add_edge(caller, callee, ());
+                            }
                         }
 
                         continue;
-- 
2.43.0


From 08ad190c65bbcb09b4fe0e5cb5ab8b7e508773e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 03/46] fix: do not lose calls to memcmp when it is undefined
 or an alias

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8718de0..a0024bd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -712,7 +712,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     // if the intrinsic has no corresponding node (symbol in the output ELF) assume
                     // that it has been lowered to machine code
                     const SYMBOLLESS_INTRINSICS: &[&str] = &["memcmp"];
-                    if SYMBOLLESS_INTRINSICS.contains(func) && !indices.contains_key(*func) {
+                    if SYMBOLLESS_INTRINSICS.contains(func)
+                        && !aliases.contains_key(func)
+                        && !symbols.undefined.contains(func)
+                    {
                         continue;
                     }
 
-- 
2.43.0


From a10c6d5b1b4019a513ed63b98d72bd4f931a5688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 04/46] fix: calls through bitcasts resolve aliases and add a
 single edge

---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a0024bd..0167050 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -576,7 +576,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     // try harder -- does this ever occur in pure Rust programs?
 
                     let sym = sym.expect("BUG? unnamed symbol is being invoked");
-                    let callee = if let Some(idx) = indices.get(sym) {
+                    let callee = if let Some(canon) = aliases.get(sym) {
+                        // use canonical name
+                        indices[*canon]
+                    } else if let Some(idx) = indices.get(sym) {
                         *idx
                     } else {
                         warn!("no stack information for `{}`", sym);
@@ -586,7 +589,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         idx
                     };
 
-                    g.add_edge(caller, callee, ());
+                    if callees_seen.insert(callee) {
+                        g.add_edge(caller, callee, ());
+                    }
                 }
 
                 Stmt::DirectCall(func) => {
-- 
2.43.0


From e96b560352d475a2019b0d2ff9492ebe247c579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 05/46] fix: escape backslashes in DOT labels

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 0167050..11d2e03 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1370,7 +1370,7 @@ where
     fn write_char(&mut self, c: char) -> fmt::Result {
         match (|| -> io::Result<()> {
             match c {
-                '"' => write!(self.writer, "\\")?,
+                '"' | '\\' => write!(self.writer, "\\")?,
                 _ => {}
             }
 
-- 
2.43.0


From a9a13fa5bcbaa48999014b7de504b11f504fc0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 06/46] fix: --target takes precedence over the target of the
 project configuration

this is the precedence that Cargo itself, and thus the build, uses
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 11d2e03..ba92bc6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -144,7 +144,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let cwd = env::current_dir()?;
     let project = Project::query(cwd)?;
     let target_flag = args.target.as_deref();
-    let target = project.target().or(target_flag).unwrap_or(&host);
+    let target = target_flag.or(project.target()).unwrap_or(&host);
 
     let mut is_no_std = false;
     {
@@ -354,7 +354,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
-    let target = project.target().or(target_flag).unwrap_or(&host);
+    let target = target_flag.or(project.target()).unwrap_or(&host);
 
     // we know how to analyze the machine code in the ELF file for these targets thus we have more
     // information and need less LLVM-IR hacks
-- 
2.43.0


From 9a7805dad1c07a0f899b6436937a95069898873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 07/46] fix: count undefined functions when looking for
 ambiguous names

an undefined, called function with a mangled name was a panic
---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ba92bc6..5b4acc4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -428,6 +428,12 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // whether a symbol name is ambiguous after removing the hash
     let mut ambiguous = HashMap::<String, u32>::new();
 
+    for name in &symbols.undefined {
+        if let Some(dehashed) = dehash(&rustc_demangle::demangle(name).to_string()) {
+            *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
+        }
+    }
+
     // we do a first pass over all the definitions to collect methods in `impl Trait for Type`
     let mut default_methods = HashSet::new();
     for name in defines.keys() {
@@ -1220,7 +1226,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let demangled = rustc_demangle::demangle(&node.name).to_string();
 
         if let Some(dehashed) = dehash(&demangled) {
-            if ambiguous[dehashed] == 1 {
+            if ambiguous.get(dehashed) == Some(&1) {
                 node.name = Cow::Owned(dehashed.to_owned());
             }
         }
-- 
2.43.0


From ddbbb3cbade3d28ed2894883240abeeacacd910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 08/46] fix: start point matches whole names, and aliases

'foo' also matched every function whose path has a component that starts
with 'h' right after 'foo', like 'foo::helper'
---
 src/main.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5b4acc4..abbbcff 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1074,15 +1074,12 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // filter the call graph
     if let Some(start) = &args.start {
         let start: &str = start;
-        let start = indices.get(start).cloned().or_else(|| {
-            let start_ = start.to_owned() + "::h";
+        let node = aliases.get(start).copied().unwrap_or(start);
+        let start = indices.get(node).cloned().or_else(|| {
             let hits = indices
                 .keys()
                 .filter_map(|key| {
-                    if rustc_demangle::demangle(key)
-                        .to_string()
-                        .starts_with(&start_)
-                    {
+                    if dehash(&rustc_demangle::demangle(key).to_string()) == Some(start) {
                         Some(key)
                     } else {
                         None
-- 
2.43.0


From a2afe5632f17318c03e9c57e891ec1a3192ecc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 09/46] fix: tell functions with the same (local) name apart

---
 src/main.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index abbbcff..6df1f42 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -459,7 +459,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // add all real nodes
     let mut has_stack_usage_info = false;
     let mut has_untyped_symbols = false;
-    let mut addr2name = BTreeMap::new();
+    let mut addr2idx = BTreeMap::new();
     for (address, sym) in &symbols.defined {
         let names = sym.names();
         // filter out tags
@@ -494,9 +494,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             aliases.insert(name, canonical_name);
         }
 
-        let _out = addr2name.insert(address, canonical_name);
-        debug_assert!(_out.is_none());
-
         let stack = stack_sizes.get(canonical_name).cloned();
         if stack.is_none() {
             if !target_.is_thumb() {
@@ -514,6 +511,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let idx = g.add_node(Node(canonical_name, stack, false));
         indices.insert(canonical_name.into(), idx);
 
+        // NOTE names are not unique: different functions can be given the same local symbol
+        let _out = addr2idx.insert(*address, idx);
+        debug_assert!(_out.is_none());
+
         if let Some(def) = names.iter().filter_map(|name| defines.get(name)).next() {
             // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
             match (&def.sig.inputs[..], def.sig.output.as_ref()) {
@@ -560,8 +561,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 continue;
             }
         };
-        defined.insert(*canonical_name);
         let caller = indices[*canonical_name];
+        defined.insert(caller);
         let callees_seen = edges.entry(caller).or_default();
 
         for stmt in &define.stmts {
@@ -803,6 +804,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             let text = sect.raw_data(&elf);
 
             for (address, sym) in &symbols.defined {
+                let caller = addr2idx[address];
                 let address = *address as u32;
                 let canonical_name = aliases[&sym.names()[0]];
                 let mut size = sym.size() as u32;
@@ -829,7 +831,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     target_ == Target::Thumbv7m,
                     &tags,
                 );
-                let caller = indices[canonical_name];
 
                 // sanity check
                 if let Some(stack) = our_stack {
@@ -906,7 +907,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     warn!("no stack usage information for `{}`", canonical_name);
                 }
 
-                if !defined.contains(canonical_name) && indirect {
+                if !defined.contains(&caller) && indirect {
                     // this function performs an indirect function call and we have no type
                     // information to narrow down the list of callees so inject the uncertainty
                     // in the form of a call to an unknown function with unknown stack usage
@@ -924,11 +925,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 for offset in bls {
                     let addr = (address as i64 + i64::from(offset)) as u64;
                     // address may be off by one due to the thumb bit being set
-                    let name = addr2name
+                    let callee = *addr2idx
                         .get(&addr)
                         .unwrap_or_else(|| panic!("BUG? no symbol at address {}", addr));
 
-                    let callee = indices[*name];
                     if !callees_seen.contains(&callee) {
                         g.add_edge(caller, callee, ());
                         callees_seen.insert(callee);
@@ -942,11 +942,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                         // intra-function B branches are not function calls
                     } else {
                         // address may be off by one due to the thumb bit being set
-                        let name = addr2name
+                        let callee = *addr2idx
                             .get(&(addr as u64))
                             .unwrap_or_else(|| panic!("BUG? no symbol at address {}", addr));
 
-                        let callee = indices[*name];
                         if !callees_seen.contains(&callee) {
                             g.add_edge(caller, callee, ());
                             callees_seen.insert(callee);
-- 
2.43.0


From 3a95269021c694e5cfe40363fa15efd3d9fe868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 10/46] fix: the J1 and J2 bits were swapped in the decoder of
 B (T3)

---
 src/thumb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 573cc4b..a98a093 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -468,8 +468,8 @@ pub fn analyze(
                 let j2 = second[1] & (1 << 3) != 0;
                 let imm11 = (i32::from(second[1] & 0b111) << 8) | second[0] as i32;
                 let imm21 = (if s { 1 } else { 0 } << 20)
-                    | (if j1 { 1 } else { 0 } << 19)
-                    | (if j2 { 1 } else { 0 } << 18)
+                    | (if j2 { 1 } else { 0 } << 19)
+                    | (if j1 { 1 } else { 0 } << 18)
                     | (imm6 << 12)
                     | (imm11 << 1);
 
-- 
2.43.0


From 38ce0946705f8013fe7d9516a250f3eb0fe4ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 11/46] fix: BKPT is a 16-bit instruction

it was taken for the first half of a 32-bit one, so the instruction after
it -- be it a BL -- was lost
---
 src/thumb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index a98a093..b3e9bdc 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -168,7 +168,7 @@ pub fn analyze(
         } else if matches(first, "0b010000_1110_xxx_xxx") {
             // A7.7.16  BIC (register) - T1
             continue;
-        } else if matches(first, "0b1010_1110_xxxxxxxx") {
+        } else if matches(first, "0b1011_1110_xxxxxxxx") {
             // A7.7.17  BKPT - T1
             continue;
         } else if matches(first, "0b010001_11_1_xxxx_000") {
-- 
2.43.0


From beef992d0ce293e5d75215d57ab6ca5aa7a40cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 12/46] fix: accept consecutive data mapping symbols, and empty
 data

---
 src/thumb.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index b3e9bdc..5e5cc4a 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -56,14 +56,8 @@ pub fn analyze(
             if tags[needle].1 == Tag::Data {
                 // start of a data section
 
-                if let Some(tag) = tags.get(needle + 1) {
-                    assert_eq!(
-                        tag.1,
-                        Tag::Thumb,
-                        "BUG: expected a thumb tag at {:#10x} but found another data tag",
-                        tag.0
-                    );
-
+                // NOTE consecutive data tags are possible
+                if let Some(tag) = tags[needle..].iter().find(|tag| tag.1 == Tag::Thumb) {
                     // skip the data section
                     let end = tag.0;
                     // NOTE the range starts at 1 because we'll skip `first` using the `continue`
@@ -72,7 +66,9 @@ pub fn analyze(
                         halfwords.next();
                     }
 
-                    continue;
+                    if end > start {
+                        continue;
+                    }
                 } else {
                     // continues until the end of the binary; we won't find more instructions so
                     // let's stop decoding
-- 
2.43.0


From 9fa4131e4d15d21ce9d8b4160f7e50173e39ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 13/46] fix: consider the remaining instructions that change SP

SUBW, ADD / MOV / SUB of registers, LDR into SP, loads and stores with
writeback were ignored by the stack analysis, and STMDB without writeback
was considered to be a push
---
 src/thumb.rs | 68 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 5e5cc4a..551873b 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -77,7 +77,18 @@ pub fn analyze(
             }
         }
 
-        if matches(first, "0b010000_0101_xxx_xxx") {
+        if matches(first, "0b01000100_1_xxxx_101") || matches(first, "0b01000110_1_xxxx_101") {
+            // NOTE we break the alphabetical order because the rules for `ADD (register)` and `MOV
+            // (register)` include these
+            // A7.7.6  ADD (SP plus register) - T2
+            // A7.7.76  MOV (register) - T1, where `Rd` is SP
+            // e.g. '44b5            add     sp, r6' (`r6` holds a negative number)
+            modifies_sp = true;
+            // the new value of SP is unknown
+            stack = None;
+
+            continue;
+        } else if matches(first, "0b010000_0101_xxx_xxx") {
             // A7.7.2 ADC (register) - T1
             continue;
         } else if matches(first, "0b000_11_1_0_xxx_xxx_xxx") {
@@ -382,7 +393,7 @@ pub fn analyze(
             const SP: u8 = 0b1101;
 
             if v7
-                && matches(first, "0b11101_00_100_x_0_xxxx")
+                && matches(first, "0b11101_00_100_1_0_xxxx")
                 && matches(second, "0b0_x_0_xxxxxxxxxxxxx")
             {
                 // A7.7.157      STMDB, STMFD
@@ -420,6 +431,54 @@ pub fn analyze(
                         *stack += u64::from(imm32);
                     }
                 }
+            } else if v7
+                && matches(first, "0b11110_x_10101_0_1101")
+                && matches(second, "0b0_xxx_1101_xxxxxxxx")
+            {
+                // A7.7.173      SUB (SP minus immediate) - T3
+                modifies_sp = true;
+
+                let imm8 = second[0];
+                let imm3 = (second[1] >> 4) & 0b0111;
+                let i = (first[1] >> 2) & 1;
+                let imm32 = (u32::from(i) << 11) | (u32::from(imm3) << 8) | u32::from(imm8);
+
+                if let Some(stack) = stack.as_mut() {
+                    *stack += u64::from(imm32);
+                }
+            } else if v7
+                && (((matches(first, "0b11110_x_0_1000_x_xxxx")
+                    || matches(first, "0b11110_x_0_1101_x_xxxx")
+                    || matches(first, "0b11110_x_10000_0_xxxx")
+                    || matches(first, "0b11110_x_10101_0_xxxx"))
+                    && first[0] & 0b1111 != SP
+                    && matches(second, "0b0_xxx_1101_xxxxxxxx"))
+                    || ((matches(first, "0b11101_01_1000_x_xxxx")
+                        || matches(first, "0b11101_01_1101_x_xxxx")
+                        || matches(first, "0b11101_01_0010_x_1111"))
+                        && matches(second, "0bx_xxx_1101_xxxxxxxx"))
+                    || (matches(first, "0b11111_00_0x_10_1_xxxx")
+                        && matches(second, "0b1101_xxxxxxxxxxxx")))
+            {
+                // ADD, SUB (immediate or register), MOV (register), LDR; where the destination is SP
+                // e.g. 'ebad 0d01       sub.w   sp, sp, r1'
+                modifies_sp = true;
+                // the new value of SP is unknown
+                stack = None;
+            } else if v7
+                && (matches(first, "0b1110_100_1_0_1_1_x_1101")
+                    || matches(first, "0b1110_100_0_0_1_1_x_1101"))
+            {
+                // A7.7.50, A7.7.163      LDRD, STRD (immediate) - T1
+                // (writeback, post/pre-increment, subtract immediate)
+                // e.g. 'e96d 0102       strd    r0, r1, [sp, #-8]!'
+                modifies_sp = true;
+
+                let imm32 = u32::from(second[0]) << 2;
+
+                if let Some(stack) = stack.as_mut() {
+                    *stack += u64::from(imm32);
+                }
             } else if v7
                 && matches(first, "0b1110_110_1_0_x_1_0_1101")
                 && matches(second, "0bxxxx_1011_xxxxxxxx")
@@ -540,10 +599,11 @@ pub fn analyze(
                 imm32 += 2 * i + 4;
 
                 bls.push(imm32);
-            } else if matches(first, "0b11111_0000100_xxxx")
+            } else if (matches(first, "0b11111_00_0_0_xx_x_xxxx")
+                || matches(first, "0b11111_00_1_0_xx_1_xxxx"))
                 && matches(second, "0bxxxx_1x01_xxxxxxxx")
             {
-                // A7.7.158  STR - T4
+                // A7.7.158  STR - T4 (and the other load and store instructions)
                 // (writeback, post/pre-increment, subtract immediate)
 
                 let rn = first[0] & 0b1111;
-- 
2.43.0


From 43b12d75acc7a887b562e02810547755e3b4d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 14/46] fix: CBZ, CBNZ, TBB and TBH are branches

---
 src/thumb.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index 551873b..ce24f15 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -191,6 +191,9 @@ pub fn analyze(
             }
         } else if v7 && matches(first, "0b1011_x_0_x_1_xxxxx_xxx") {
             // A7.7.21  CBNZ, CBZ - T1
+            // this is an `if`; give up the stack usage analysis
+            stack = None;
+
             continue;
         } else if matches(first, "0b010000_1011_xxx_xxx") {
             // A7.7.26  CMN (register) - T1
@@ -393,6 +396,13 @@ pub fn analyze(
             const SP: u8 = 0b1101;
 
             if v7
+                && matches(first, "0b11101_00_01101_xxxx")
+                && matches(second, "0b1111_0000_000x_xxxx")
+            {
+                // A7.7.185      TBB, TBH - T1
+                // this is a `match`; give up the stack usage analysis
+                stack = None;
+            } else if v7
                 && matches(first, "0b11101_00_100_1_0_xxxx")
                 && matches(second, "0b0_x_0_xxxxxxxxxxxxx")
             {
-- 
2.43.0


From 047b281741587ed4e4db70fc8fe7c2fa6daa3233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 15/46] fix: analyze the whole machine code of functions
 without size

assembly functions with no mapping symbol at their address, or with data in
them, were not analyzed at all: calls were lost and the stack usage was
reported to be 0 bytes
---
 src/main.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6df1f42..4e1ec0c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -811,12 +811,22 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
                 if size == 0 {
                     // try harder at finding out the size of this symbol
+                    // NOTE it can not extend past the start of the next function
+                    let etext = stext + text.len() as u32;
+                    let end = symbols
+                        .defined
+                        .range(u64::from(address) + 1..)
+                        .next()
+                        .map(|(next, _)| cmp::min(*next as u32, etext))
+                        .unwrap_or(etext);
+                    size = end.saturating_sub(address);
+
                     if let Ok(needle) = tags.binary_search_by(|tag| tag.0.cmp(&address)) {
                         let start = tags[needle];
                         if start.1 == Tag::Thumb {
                             if let Some(end) = tags.get(needle + 1) {
                                 if end.1 == Tag::Thumb {
-                                    size = end.0 - start.0;
+                                    size = cmp::min(size, end.0 - start.0);
                                 }
                             }
                         }
-- 
2.43.0


From a5a2d64b768a519934a3ed9356b9d943a38c9a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 16/46] fix: do not lose calls through function pointers of a
 signature that no function has

such a call was dropped, that is considered to use no stack at all
---
 src/main.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4e1ec0c..fc05caf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -758,12 +758,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 }
 
                 Stmt::IndirectCall(sig) => {
-                    for (key_sig, indirect) in &mut indirects {
-                        if key_sig.loosely_equal(sig) {
-                            indirect.called = true;
-                            indirect.callers.insert(caller);
-                        }
-                    }
+                    // NOTE it may be that no function has this very signature
+                    let indirect = indirects.entry(sig.clone()).or_default();
+                    indirect.called = true;
+                    indirect.callers.insert(caller);
                 }
 
                 Stmt::Label | Stmt::Comment | Stmt::Other => {}
@@ -1024,11 +1022,22 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             })
     };
 
-    for (mut sig, indirect) in indirects {
+    let sigs = indirects
+        .iter()
+        .map(|(sig, indirect)| (sig.clone(), indirect.callees.clone()))
+        .collect::<Vec<_>>();
+
+    for (mut sig, mut indirect) in indirects {
         if !indirect.called {
             continue;
         }
 
+        for (other_sig, callees) in &sigs {
+            if other_sig.loosely_equal(&sig) {
+                indirect.callees.extend(callees);
+            }
+        }
+
         let callees = if let Some(one_true_void) = one_true_void {
             match (&sig.inputs[..], sig.output.as_ref()) {
                 // special case: this is `ArgumentV1.formatter` a pseudo trait object
@@ -1065,14 +1074,14 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             g.add_edge(*caller, call, ());
         }
 
-        if has_untyped_symbols {
+        if callees.is_empty() {
+            error!("BUG? no callees for `{}`", name);
+        }
+
+        if has_untyped_symbols || callees.is_empty() {
             // add an edge between this and a potential extern / untyped symbol
             let extern_sym = g.add_node(Node("?", None, false));
             g.add_edge(call, extern_sym, ());
-        } else {
-            if callees.is_empty() {
-                error!("BUG? no callees for `{}`", name);
-            }
         }
 
         for callee in callees {
-- 
2.43.0


From 54e073334fa3ed2d831297dffa7d1880a5825fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 17/46] fix: do not lose the invoke statements that can't be
 parsed

these are errors, like it's the case of call statements. On the other hand
names and strings that contain the word 'call' are not call statements
---
 src/ir/define.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index c943530..e00e6f5 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -129,7 +129,7 @@ fn asm(i: &str) -> IResult<&str, Stmt> {
         space1(i)
     })(i)?
     .0;
-    let i = tag("call")(i)?.0;
+    let i = alt((tag("call"), tag("invoke")))(i)?.0;
     let i = space1(i)?.0;
     let i = alt((map(super::type_, drop), map(tag("void"), drop)))(i)?.0;
     let i = space1(i)?.0;
@@ -184,7 +184,7 @@ fn bitcast_call(i: &str) -> IResult<&str, Stmt> {
         space1(i)
     })(i)?
     .0;
-    let i = tag("call")(i)?.0;
+    let i = alt((tag("call"), tag("invoke")))(i)?.0;
     let i = space1(i)?.0;
 
     let i = many0(|i| {
@@ -263,16 +263,18 @@ fn indirect_call(i: &str) -> IResult<&str, Stmt> {
 }
 
 fn other(i: &str) -> IResult<&str, Stmt> {
-    let i = separated_list1(
-        space1,
-        map_res(is_not(" \t\r\n"), |i| {
-            if i == "call" {
-                Err(())
-            } else {
-                Ok(())
-            }
-        }),
-    )(i)?
+    let i = map_res(is_not("\r\n"), |line: &str| {
+        // NOTE quoted names and strings can contain anything
+        let mut unquoted = line.split('"').step_by(2);
+        if unquoted.any(|s| {
+            s.split_whitespace()
+                .any(|word| ["call", "invoke", "callbr"].contains(&word))
+        }) {
+            Err(())
+        } else {
+            Ok(())
+        }
+    })(i)?
     .0;
     Ok((i, Stmt::Other))
 }
-- 
2.43.0


From 0e7a2a308d71d7c9dce6457d876e62010b72a7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 18/46] fix: local values can have quoted names

---
 src/ir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir.rs b/src/ir.rs
index 3c0b36d..bd72ad0 100644
--- a/src/ir.rs
+++ b/src/ir.rs
@@ -140,7 +140,7 @@ struct Local;
 
 fn local(i: &str) -> IResult<&str, Local> {
     let i = char('%')(i)?.0;
-    let i = alt((map(digit1, drop), map(ident, drop)))(i)?.0;
+    let i = alt((map(digit1, drop), map(ident, drop), map(string, drop)))(i)?.0;
     Ok((i, Local))
 }
 
-- 
2.43.0


From 9ee3598af114a742375fac02c57ae890b3b520e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 19/46] fix: signature of indirect calls of variadic functions

---
 src/ir/define.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index e00e6f5..99906ab 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -253,13 +253,17 @@ fn indirect_call(i: &str) -> IResult<&str, Stmt> {
     // TODO we likely want to parse the metadata (`!dbg !0`) that comes after the argument list
     // NOTE shortcut
     let i = not_line_ending(i)?.0;
-    Ok((
-        i,
-        Stmt::IndirectCall(FnSig {
+    let sig = match output {
+        // variadic function: the call includes the whole function type
+        Some(Type::Fn(sig)) => sig,
+
+        output => FnSig {
             inputs,
             output: output.map(Box::new),
-        }),
-    ))
+        },
+    };
+
+    Ok((i, Stmt::IndirectCall(sig)))
 }
 
 fn other(i: &str) -> IResult<&str, Stmt> {
-- 
2.43.0


From 85dcde086b3e8de1382c8c56e09588acba55bc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 20/46] fix: decode the escapes in the names of functions

the functions whose names contain quotes, non-ASCII characters, etc. were
considered to have been removed by the linker and their calls were lost
---
 src/ir.rs | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/ir.rs b/src/ir.rs
index bd72ad0..31eb129 100644
--- a/src/ir.rs
+++ b/src/ir.rs
@@ -128,7 +128,7 @@ struct Global<'a>(Option<&'a str>);
 fn global(i: &str) -> IResult<&str, Global> {
     let i = char('@')(i)?.0;
     let (i, s) = alt((
-        map(string, |s| Some(s.0)),
+        map(string, |s| Some(unescape(s.0))),
         map(digit1, |_| None),
         map(ident, |i| Some(i.0)),
     ))(i)?;
@@ -278,7 +278,45 @@ pub struct Function<'a>(pub &'a str);
 fn function(i: &str) -> IResult<&str, Function> {
     let i = char('@')(i)?.0;
     let (i, name) = name(i)?;
-    Ok((i, Function(name)))
+    Ok((i, Function(unescape(name))))
+}
+
+// turns the name of a global value (`caf\C3\A9`) into the name of the symbol in the object file
+fn unescape(name: &str) -> &str {
+    if !name.contains('\\') {
+        return name;
+    }
+
+    let mut bytes = vec![];
+    let mut i = name;
+    while let Some(first) = i.bytes().next() {
+        match i.get(1..3).and_then(|hex| u8::from_str_radix(hex, 16).ok()) {
+            Some(byte) if first == b'\\' => {
+                bytes.push(byte);
+                i = &i[3..];
+            }
+            _ if i.starts_with("\\\\") => {
+                bytes.push(first);
+                i = &i[2..];
+            }
+            _ => {
+                let len = i.chars().next().map_or(1, |c| c.len_utf8());
+                bytes.extend_from_slice(&i.as_bytes()[..len]);
+                i = &i[len..];
+            }
+        }
+    }
+
+    // this prefix tells LLVM not to mangle the name
+    if bytes.first() == Some(&1) {
+        bytes.remove(0);
+    }
+
+    match std::string::String::from_utf8(bytes) {
+        // NOTE names live as long as the program and those that contain escapes are rare
+        Ok(unescaped) => Box::leak(unescaped.into_boxed_str()),
+        Err(_) => name,
+    }
 }
 
 #[derive(Clone, Copy, Debug, PartialEq)]
-- 
2.43.0


From cd1a9ac732e0e5f7b368b6f047fb25371d713551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 21/46] fix: consider the instructions that write PC

`mov pc, rN` and `ldr pc, [..]` are indirect branches just like `bx rN`; together with `add pc, rN`
they're also how jump tables are implemented.
---
 src/thumb.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/thumb.rs b/src/thumb.rs
index ce24f15..28a5746 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -87,6 +87,24 @@ pub fn analyze(
             // the new value of SP is unknown
             stack = None;
 
+            continue;
+        } else if matches(first, "0b01000110_1_xxxx_111") {
+            // A7.7.76  MOV (register) - T1, where `Rd` is PC
+            let rm = (first[0] >> 3) & 0b1111;
+
+            // `mov pc, lr` is just a `return`
+            if rm != 0b1110 {
+                // this is a `match` or an indirect tail call
+                indirect = true;
+                stack = None;
+            }
+
+            continue;
+        } else if matches(first, "0b01000100_1_xxxx_111") {
+            // A7.7.4 ADD (register) - T2, where `Rd` is PC
+            // this is a `match`; give up the stack usage analysis
+            stack = None;
+
             continue;
         } else if matches(first, "0b010000_0101_xxx_xxx") {
             // A7.7.2 ADC (register) - T1
@@ -475,6 +493,15 @@ pub fn analyze(
                 modifies_sp = true;
                 // the new value of SP is unknown
                 stack = None;
+            } else if v7
+                && matches(first, "0b11111_00_0x_10_1_xxxx")
+                && first[0] & 0b1111 != SP
+                && matches(second, "0b1111_xxxxxxxxxxxx")
+            {
+                // LDR where the destination is PC; this is a `match` or an indirect tail call
+                // e.g. 'f85f f000       ldr.w   pc, [pc]'
+                indirect = true;
+                stack = None;
             } else if v7
                 && (matches(first, "0b1110_100_1_0_1_1_x_1101")
                     || matches(first, "0b1110_100_0_0_1_1_x_1101"))
-- 
2.43.0


From b8a5f5526c468dfe44eea1a8132c4e6922acde6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 22/46] fix: do not take function names that start with `h` for
 hashes

v0 mangled names have no trailing hash: `krate::handle_interrupts` was shortened to `krate`.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index fc05caf..c56669a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1572,7 +1572,8 @@ fn dehash(demangled: &str) -> Option<&str> {
     if len > HASH_LENGTH {
         if demangled
             .get(len - HASH_LENGTH..)
-            .map(|hash| hash.starts_with("::h"))
+            .and_then(|hash| hash.strip_prefix("::h"))
+            .map(|hash| hash.bytes().all(|byte| byte.is_ascii_hexdigit()))
             .unwrap_or(false)
         {
             Some(&demangled[..len - HASH_LENGTH])
-- 
2.43.0


From 329547f11108bf3a79785f9637a26a6bdbe88ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 23/46] fix: do not overflow on branches across address
 0x8000_0000

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index c56669a..5bf3645 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -944,7 +944,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 }
 
                 for offset in bs {
-                    let addr = (address as i32 + offset) as u32;
+                    let addr = (i64::from(address) + i64::from(offset)) as u32;
 
                     if addr >= address && addr < (address + size) {
                         // intra-function B branches are not function calls
-- 
2.43.0


From 528dcb11c81eb1047ad6f5c7eeac1a77dfa5a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 24/46] fix: stop skipping data at the end of the function

the next code mapping symbol can be in another section, far away
---
 src/thumb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 28a5746..9df9d78 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -63,7 +63,10 @@ pub fn analyze(
                     // NOTE the range starts at 1 because we'll skip `first` using the `continue`
                     // that comes after this `for` loop
                     for _ in 1..(end - start) / 2 {
-                        halfwords.next();
+                        if halfwords.next().is_none() {
+                            // the tag is past the end of the function, maybe in another section
+                            break;
+                        }
                     }
 
                     if end > start {
-- 
2.43.0


From e8e06436df6ec9f4c99bd657aa6e8c0b69a707fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 25/46] fix: instructions that subtract 0 from SP do not modify
 it

they tripped the sanity check
---
 src/thumb.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index 9df9d78..f7eb146 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -377,10 +377,9 @@ pub fn analyze(
         } else if matches(first, "0b1011_0000_1_xxxxxxx") {
             // A7.7.173      SUB (SP minus immediate) - T1
             // e.g. 'b081            sub     sp, #4'
-            modifies_sp = true;
-
             let imm7 = first[0] & 0b0111_1111;
             let imm32 = u32::from(imm7) << 2;
+            modifies_sp |= imm32 != 0;
 
             if let Some(stack) = stack.as_mut() {
                 *stack += u64::from(imm32);
@@ -449,14 +448,13 @@ pub fn analyze(
                 // A7.7.173      SUB (SP minus immediate) - T2
                 let rd = second[1] & 0b1111;
                 if rd == SP {
-                    modifies_sp = true;
-
                     let imm8 = second[0];
                     let imm3 = (second[1] >> 4) & 0b0111;
                     let i = (first[1] >> 2) & 1;
                     let imm32 = thumb_expand_imm(
                         (u16::from(i) << 11) | (u16::from(imm3) << 8) | u16::from(imm8),
                     );
+                    modifies_sp |= imm32 != 0;
 
                     if let Some(stack) = stack.as_mut() {
                         *stack += u64::from(imm32);
@@ -467,12 +465,11 @@ pub fn analyze(
                 && matches(second, "0b0_xxx_1101_xxxxxxxx")
             {
                 // A7.7.173      SUB (SP minus immediate) - T3
-                modifies_sp = true;
-
                 let imm8 = second[0];
                 let imm3 = (second[1] >> 4) & 0b0111;
                 let i = (first[1] >> 2) & 1;
                 let imm32 = (u32::from(i) << 11) | (u32::from(imm3) << 8) | u32::from(imm8);
+                modifies_sp |= imm32 != 0;
 
                 if let Some(stack) = stack.as_mut() {
                     *stack += u64::from(imm32);
@@ -512,9 +509,8 @@ pub fn analyze(
                 // A7.7.50, A7.7.163      LDRD, STRD (immediate) - T1
                 // (writeback, post/pre-increment, subtract immediate)
                 // e.g. 'e96d 0102       strd    r0, r1, [sp, #-8]!'
-                modifies_sp = true;
-
                 let imm32 = u32::from(second[0]) << 2;
+                modifies_sp |= imm32 != 0;
 
                 if let Some(stack) = stack.as_mut() {
                     *stack += u64::from(imm32);
@@ -524,10 +520,9 @@ pub fn analyze(
                 && matches(second, "0bxxxx_1011_xxxxxxxx")
             {
                 // A7.7.249      VPUSH - T1
-                modifies_sp = true;
-
                 let imm8 = second[0] & 0b1111_1111;
                 let imm32 = u32::from(imm8) << 2;
+                modifies_sp |= imm32 != 0;
 
                 if let Some(stack) = stack.as_mut() {
                     *stack += u64::from(imm32);
@@ -537,10 +532,9 @@ pub fn analyze(
                 && matches(second, "0bxxxx_1010_xxxxxxxx")
             {
                 // A7.7.249      VPUSH - T2
-                modifies_sp = true;
-
                 let imm8 = second[0] & 0b1111_1111;
                 let imm32 = u32::from(imm8) << 2;
+                modifies_sp |= imm32 != 0;
 
                 if let Some(stack) = stack.as_mut() {
                     *stack += u64::from(imm32);
@@ -648,10 +642,9 @@ pub fn analyze(
 
                 let rn = first[0] & 0b1111;
                 if rn == SP {
-                    modifies_sp = true;
-
                     let imm8 = second[0] & 0b1111_1111;
                     let imm32 = u32::from(imm8);
+                    modifies_sp |= imm32 != 0;
 
                     if let Some(stack) = stack.as_mut() {
                         *stack += u64::from(imm32);
-- 
2.43.0


From 083efe3d496a91c035f759650c28668ada010642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 26/46] fix: expansion of the constants of the form 0x00XY00XY

---
 src/thumb.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/thumb.rs b/src/thumb.rs
index f7eb146..30eb611 100644
--- a/src/thumb.rs
+++ b/src/thumb.rs
@@ -686,20 +686,16 @@ fn sign_extend(x: i32, nbits: u32) -> i32 {
 
 fn thumb_expand_imm(imm12: u16) -> u32 {
     if imm12 >> 10 == 0b00 {
+        let imm8 = u32::from(imm12 & 0b0000_1111_1111);
+
         match (imm12 >> 8) & 0b0011 {
-            0b00 => u32::from(imm12 & 0b0000_1111_1111),
+            0b00 => imm8,
 
-            0b01 => u32::from(imm12 & 0b0000_1111_1111) << 8,
+            0b01 => (imm8 << 16) | imm8,
 
-            0b10 => {
-                let imm8 = u32::from(imm12 & 0b0000_1111_1111);
-                (imm8 << 24) | (imm8 << 8)
-            }
+            0b10 => (imm8 << 24) | (imm8 << 8),
 
-            0b11 => {
-                let imm8 = u32::from(imm12 & 0b0000_1111_1111);
-                (imm8 << 24) | (imm8 << 16) | (imm8 << 8) | imm8
-            }
+            0b11 => (imm8 << 24) | (imm8 << 16) | (imm8 << 8) | imm8,
 
             _ => unreachable!(),
         }
-- 
2.43.0


From cb66246fff4729716e0ca3c71f5c6e01cb2fc3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 27/46] fix: do not ignore contradicting stack sizes of
 outlined functions

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5bf3645..1e2714c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -869,11 +869,11 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                             );
 
                             *llvm_stack = stack;
-                        } else if is_outlined_function(canonical_name) {
+                        } else if *llvm_stack == 0 && is_outlined_function(canonical_name) {
                             // ^ functions produced by LLVM's function outliner are not properly
                             // analyzed by LLVM's emit-stack-sizes pass and are all assigned a stack
                             // usage of 0 bytes, which is sometimes wrong
-                            if *llvm_stack == 0 && stack != *llvm_stack {
+                            if stack != *llvm_stack {
                                 warn!(
                                     "LLVM reported that `{}` uses {} bytes of stack but \
                                      our analysis reported {} bytes; overriding LLVM's result \
-- 
2.43.0


From a9c45d4c3a53a162a9ba3e1c83b5b455bb4fe480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 28/46] fix: symbols with and without the thumb bit can refer
 to the same function

---
 src/main.rs | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1e2714c..76eaad8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -393,12 +393,17 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let mut symbols = stack_sizes::analyze_executable(&elf)?;
 
     // clear the thumb bit
-    if target_.is_thumb() {
-        symbols.defined = symbols
-            .defined
-            .into_iter()
-            .map(|(k, v)| (k & !1, v))
-            .collect();
+    // NOTE some of the symbols of a function can have the thumb bit set and others have it clear
+    let mut functions = BTreeMap::<u64, Function>::new();
+    for (address, sym) in &symbols.defined {
+        let address = if target_.is_thumb() {
+            *address & !1
+        } else {
+            *address
+        };
+        let function = functions.entry(address).or_default();
+        function.names.extend(sym.names());
+        function.size = cmp::max(function.size, sym.size());
     }
 
     // remove version strings from undefined symbols
@@ -460,10 +465,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let mut has_stack_usage_info = false;
     let mut has_untyped_symbols = false;
     let mut addr2idx = BTreeMap::new();
-    for (address, sym) in &symbols.defined {
-        let names = sym.names();
+    for (address, sym) in &functions {
         // filter out tags
-        let names = names
+        let names = sym
+            .names
             .iter()
             .filter_map(|&name| {
                 if name == "$a"
@@ -801,18 +806,17 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
             let stext = sect.address() as u32;
             let text = sect.raw_data(&elf);
 
-            for (address, sym) in &symbols.defined {
+            for (address, sym) in &functions {
                 let caller = addr2idx[address];
                 let address = *address as u32;
-                let canonical_name = aliases[&sym.names()[0]];
-                let mut size = sym.size() as u32;
+                let canonical_name = aliases[&sym.names[0]];
+                let mut size = sym.size as u32;
 
                 if size == 0 {
                     // try harder at finding out the size of this symbol
                     // NOTE it can not extend past the start of the next function
                     let etext = stext + text.len() as u32;
-                    let end = symbols
-                        .defined
+                    let end = functions
                         .range(u64::from(address) + 1..)
                         .next()
                         .map(|(next, _)| cmp::min(*next as u32, etext))
@@ -1507,6 +1511,13 @@ impl fmt::Display for Max {
     }
 }
 
+// a function in the executable
+#[derive(Default)]
+struct Function<'a> {
+    names: Vec<&'a str>,
+    size: u64,
+}
+
 // used to track indirect function calls (`fn` pointers)
 #[derive(Default, Debug)]
 struct Indirect {
-- 
2.43.0


From dd716d48d4729c79359a7a7d6099c336892c7ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 29/46] fix: consider all the names of functions when looking
 for the start point

---
 src/main.rs | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 76eaad8..89ae83c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -465,6 +465,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let mut has_stack_usage_info = false;
     let mut has_untyped_symbols = false;
     let mut addr2idx = BTreeMap::new();
+    // all the names of the functions
+    let mut function_names = vec![];
     for (address, sym) in &functions {
         // filter out tags
         let names = sym
@@ -514,6 +516,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
 
         let idx = g.add_node(Node(canonical_name, stack, false));
+        function_names.extend(names.iter().map(|name| (*name, idx)));
         indices.insert(canonical_name.into(), idx);
 
         // NOTE names are not unique: different functions can be given the same local symbol
@@ -1096,26 +1099,27 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // filter the call graph
     if let Some(start) = &args.start {
         let start: &str = start;
-        let node = aliases.get(start).copied().unwrap_or(start);
-        let start = indices.get(node).cloned().or_else(|| {
-            let hits = indices
-                .keys()
-                .filter_map(|key| {
-                    if dehash(&rustc_demangle::demangle(key).to_string()) == Some(start) {
-                        Some(key)
-                    } else {
-                        None
-                    }
-                })
-                .collect::<Vec<_>>();
+        // NOTE different functions can have the same (local) name
+        let find = |matches: &dyn Fn(&str) -> bool| -> BTreeMap<NodeIndex, &str> {
+            function_names
+                .iter()
+                .map(|(name, idx)| (*idx, *name))
+                .chain(indices.iter().map(|(name, idx)| (*idx, &**name)))
+                .filter(|(_, name)| matches(name))
+                .collect()
+        };
 
-            if hits.len() > 1 {
-                error!("multiple matches for `{}`: {:?}", start, hits);
-                None
-            } else {
-                hits.first().map(|key| indices[*key])
-            }
-        });
+        let mut hits = find(&|name| name == start);
+        if hits.is_empty() {
+            hits = find(&|name| dehash(&rustc_demangle::demangle(name).to_string()) == Some(start));
+        }
+
+        let start = if hits.len() > 1 {
+            error!("multiple matches for `{}`: {:?}", start, hits.values());
+            None
+        } else {
+            hits.keys().next().copied()
+        };
 
         if let Some(start) = start {
             // create a new graph that only contains nodes reachable from `start`
-- 
2.43.0


From e476dc17161d70b61df3d147baa101c0dea2b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 30/46] fix: do not shorten a name to the name of another
 function

---
 src/main.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 89ae83c..581e018 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -434,9 +434,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     let mut ambiguous = HashMap::<String, u32>::new();
 
     for name in &symbols.undefined {
-        if let Some(dehashed) = dehash(&rustc_demangle::demangle(name).to_string()) {
-            *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
-        }
+        let demangled = rustc_demangle::demangle(name).to_string();
+        let path = dehash(&demangled).unwrap_or(&demangled);
+        *ambiguous.entry(path.to_string()).or_insert(0) += 1;
     }
 
     // we do a first pass over all the definitions to collect methods in `impl Trait for Type`
@@ -511,9 +511,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
 
         let demangled = rustc_demangle::demangle(canonical_name).to_string();
-        if let Some(dehashed) = dehash(&demangled) {
-            *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;
-        }
+        let path = dehash(&demangled).unwrap_or(&demangled);
+        *ambiguous.entry(path.to_string()).or_insert(0) += 1;
 
         let idx = g.add_node(Node(canonical_name, stack, false));
         function_names.extend(names.iter().map(|name| (*name, idx)));
-- 
2.43.0


From 6d356d2c0ee01a261906e038b7501df5dae7bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 31/46] fix: do not print an empty graph when the executable
 has been stripped

an executable without symbol table is not an executable without functions
---
 src/main.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 581e018..0d1eb26 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -388,6 +388,15 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
     }
 
+    // without symbols (e.g. the profile contains `strip = true`) there's nothing to analyze
+    if ElfFile::new(&elf)
+        .map_err(anyhow::Error::msg)?
+        .find_section_by_name(".symtab")
+        .is_none()
+    {
+        bail!("the executable has no symbol table; was it stripped?")
+    }
+
     // extract list of "live" symbols (symbols that have not been GC-ed by the linker)
     // this time we use the ELF and not the object file
     let mut symbols = stack_sizes::analyze_executable(&elf)?;
-- 
2.43.0


From a969a48f0d4c6d00881f98f0ff6f46ba8c581345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 32/46] fix: fail when the machine code of the executable can't
 be found

the calls that only appear in the machine code were missing from the graph
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0d1eb26..0088d2d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -976,8 +976,8 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                     }
                 }
             }
-        } else {
-            error!(".text section not found")
+        } else if !functions.is_empty() {
+            bail!(".text section not found")
         }
     }
 
-- 
2.43.0


From 105994fac81360a35dac52f857326964096b319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 33/46] fix: do not accept a truncated compiler_builtins
 archive

---
 src/main.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0088d2d..dc5f4d4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -377,13 +377,18 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     while let Some(entry) = ar.next_entry() {
         let mut entry = entry?;
         let header = entry.header();
-
-        if str::from_utf8(header.identifier())
+        let size = header.size();
+        let is_object = str::from_utf8(header.identifier())
             .map(|id| id.contains("compiler_builtins") && id.ends_with(".o"))
-            .unwrap_or(false)
-        {
-            buf.clear();
-            entry.read_to_end(&mut buf)?;
+            .unwrap_or(false);
+
+        buf.clear();
+        entry.read_to_end(&mut buf)?;
+        if buf.len() as u64 != size {
+            bail!("`{}` is truncated", compiler_builtins_rlib_path)
+        }
+
+        if is_object {
             stack_sizes.extend(object_stack_sizes(&buf)?);
         }
     }
-- 
2.43.0


From d8ba8075ae266b040c12ecdb8c9f86b2d8f2a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 34/46] fix: start points could not be given to `cargo
 call-stack`

Cargo passes the name of the subcommand as the first argument, and that was
taken for the start point
---
 src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index dc5f4d4..d88f7f3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -131,7 +131,13 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
     Builder::from_env(Env::default().default_filter_or("warn")).init();
 
-    let args = Args::parse();
+    // when run as `cargo call-stack` Cargo passes the name of the subcommand as the first argument
+    let mut args: Vec<_> = env::args_os().collect();
+    if args.get(1).map(|arg| arg == "call-stack").unwrap_or(false) {
+        args.remove(1);
+    }
+
+    let args = Args::parse_from(args);
     let profile = Profile::Release;
 
     let file = match (&args.example, &args.bin) {
-- 
2.43.0


From bdc02a06b2d1d579eb8f1150b3e8833daef55aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 35/46] fix: trigger a rebuild of examples and additional
 binaries

touching `src/main.rs` does not make Cargo rebuild the requested example
---
 src/main.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index d88f7f3..26ae1a6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -219,6 +219,21 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     // "touch" some source file to trigger a rebuild
     let root = project.toml().parent().expect("UNREACHABLE");
     let now = FileTime::from_system_time(SystemTime::now());
+    // NOTE examples and additional binaries do not depend on `src/main.rs`
+    let sources = if args.example.is_some() {
+        [
+            format!("examples/{}.rs", file),
+            format!("examples/{}/main.rs", file),
+        ]
+    } else {
+        [
+            format!("src/bin/{}.rs", file),
+            format!("src/bin/{}/main.rs", file),
+        ]
+    };
+    for source in &sources {
+        let _ = filetime::set_file_times(root.join(source), now, now);
+    }
     if !filetime::set_file_times(root.join("src/main.rs"), now, now).is_ok() {
         if !filetime::set_file_times(root.join("src/lib.rs"), now, now).is_ok() {
             // look for some rust source file and "touch" it
-- 
2.43.0


From 011ffc1e1d5b43362476dd2b32b89e05969cb9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 36/46] fix: pass on compiler invocations without a separate
 --crate-name

Build scripts and newer Cargo versions run `$RUSTC_WRAPPER rustc -vV`,
`--print cfg` or `--crate-name=probe`, none of which was forwarded to rustc.
---
 src/wrapper.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/wrapper.rs b/src/wrapper.rs
index 5d0b5f4..ee8817b 100644
--- a/src/wrapper.rs
+++ b/src/wrapper.rs
@@ -39,13 +39,13 @@ pub(crate) fn wrapper() -> anyhow::Result<i32> {
         }
     }
 
-    if args.crate_name == "compiler_builtins" {
+    if args.crate_name.as_deref() == Some("compiler_builtins") {
         rustc.arg("--emit=llvm-ir");
 
         let out_dir = args
             .out_dir
             .ok_or_else(|| anyhow!("missing `--out-dir` argument"))?;
-        let ll_path = format!("{}/{}{}.ll", out_dir, args.crate_name, args.extra_filename);
+        let ll_path = format!("{}/compiler_builtins{}.ll", out_dir, args.extra_filename);
         eprintln!("{}{}", COMPILER_BUILTINS_LL_PATH_MARKER, ll_path);
     }
 
@@ -59,7 +59,8 @@ pub(crate) fn wrapper() -> anyhow::Result<i32> {
 
 struct RustcArgs {
     extra_filename: String,
-    crate_name: String,
+    // absent if nothing is compiled, e.g. `rustc -vV`
+    crate_name: Option<String>,
     out_dir: Option<String>,
     extern_crates: Vec<Extern>,
 }
@@ -80,10 +81,16 @@ impl RustcArgs {
         let mut extern_crates = Vec::new();
 
         while let Some(arg) = args.next() {
+            // long options are also accepted as `--option=value`
+            let (arg, value) = match arg.split_once('=') {
+                Some((option, value)) if option.starts_with("--") => (option, Some(value)),
+                _ => (arg, None),
+            };
+
             match &*arg {
                 "--extern" => {
-                    let arg = args
-                        .next()
+                    let arg = value
+                        .or_else(|| args.next())
                         .ok_or_else(|| anyhow!("missing argument for `--extern`"))?;
                     let mut arg = &*arg;
                     if arg.starts_with(NOPRELUDE) {
@@ -101,14 +108,16 @@ impl RustcArgs {
                 }
                 "--crate-name" => {
                     crate_name = Some(
-                        args.next()
+                        value
+                            .or_else(|| args.next())
                             .ok_or_else(|| anyhow!("missing argument for `--crate-name`"))?
                             .to_string(),
                     );
                 }
                 "--out-dir" => {
                     out_dir = Some(
-                        args.next()
+                        value
+                            .or_else(|| args.next())
                             .ok_or_else(|| anyhow!("missing argument for `--out-dir`"))?
                             .to_string(),
                     );
@@ -145,7 +154,7 @@ impl RustcArgs {
 
         Ok(Self {
             extra_filename: extra_filename.unwrap_or_default(),
-            crate_name: crate_name.ok_or_else(|| anyhow!("missing `--crate-name` argument"))?,
+            crate_name,
             out_dir,
             extern_crates,
         })
-- 
2.43.0


From 91829fa34610b1a3424fe5ad803349d92b78a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 37/46] fix: recognize --extern with options other than just
 noprelude

Cargo also passes `priv,noprelude:` and `noprelude,nounused:`.
---
 src/wrapper.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/wrapper.rs b/src/wrapper.rs
index ee8817b..d5ad400 100644
--- a/src/wrapper.rs
+++ b/src/wrapper.rs
@@ -72,7 +72,6 @@ struct Extern {
 
 impl RustcArgs {
     fn parse(args: &mut dyn Iterator<Item = &str>) -> anyhow::Result<Self> {
-        const NOPRELUDE: &str = "noprelude:";
         const DASH_C: &str = "-C";
 
         let mut extra_filename = None;
@@ -92,14 +91,12 @@ impl RustcArgs {
                     let arg = value
                         .or_else(|| args.next())
                         .ok_or_else(|| anyhow!("missing argument for `--extern`"))?;
-                    let mut arg = &*arg;
-                    if arg.starts_with(NOPRELUDE) {
-                        arg = &arg[NOPRELUDE.len()..];
-                    }
 
                     let mut split = arg.splitn(2, '=');
                     let name = split.next().unwrap(); // cannot fail
                     let path = split.next();
+                    // strip the options, e.g. `priv,noprelude:`
+                    let name = name.rsplit(':').next().unwrap(); // cannot fail
 
                     extern_crates.push(Extern {
                         crate_name: name.to_string(),
-- 
2.43.0


From 4ae8c9088dda7bfc32cfb5fe2e271610ab183a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 38/46] fix: forward compiler arguments that are not valid
 UTF-8

---
 src/wrapper.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wrapper.rs b/src/wrapper.rs
index d5ad400..f651f87 100644
--- a/src/wrapper.rs
+++ b/src/wrapper.rs
@@ -23,12 +23,16 @@ pub(crate) const COMPILER_BUILTINS_LL_PATH_MARKER: &str =
     "@CARGO_CALL_STACK:compiler_builtins_ll_path@";
 
 pub(crate) fn wrapper() -> anyhow::Result<i32> {
-    let mut args = env::args().skip(1);
+    let mut args = env::args_os().skip(1);
     let rustc_path = args.next().unwrap();
     let mut rustc = Command::new(&rustc_path);
 
     let rustc_args = args.collect::<Vec<_>>();
-    let args = RustcArgs::parse(&mut rustc_args.iter().map(|s| &**s))?;
+    let utf8_args = rustc_args
+        .iter()
+        .map(|s| s.to_string_lossy())
+        .collect::<Vec<_>>();
+    let args = RustcArgs::parse(&mut utf8_args.iter().map(|s| &**s))?;
 
     for ext in &args.extern_crates {
         match (&*ext.crate_name, &ext.path) {
@@ -53,7 +57,7 @@ pub(crate) fn wrapper() -> anyhow::Result<i32> {
 
     let status = rustc
         .status()
-        .map_err(|e| anyhow!("failed to spawn `{}`: {}", rustc_path, e))?;
+        .map_err(|e| anyhow!("failed to spawn `{}`: {}", rustc_path.to_string_lossy(), e))?;
     Ok(status.code().unwrap_or(-1))
 }
 
-- 
2.43.0


From b1bfe777fe7fd6a66bb282153e88491a605774ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 39/46] fix: strip versions from undefined symbols also if
 given as name@VERSION

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 26ae1a6..89d7a89 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -446,8 +446,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         .undefined
         .into_iter()
         .map(|sym| {
-            if let Some(name) = sym.rsplit("@@").nth(1) {
-                name
+            // `name@@VERSION` or (binutils 2.35 and newer) `name@VERSION`
+            if let Some((name, _version)) = sym.rsplit_once('@') {
+                name.strip_suffix('@').unwrap_or(name)
             } else {
                 sym
             }
-- 
2.43.0


From 82bf4806947fa9e6d2f56a41533be07243858b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 40/46] fix: consider the signatures of all the functions that
 were folded into one

An address can have several names whose IR signatures differ (identical code
folding). Calls through function pointers with the signature of any but the first
one got no edge.
---
 src/main.rs | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 89d7a89..1979a20 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -558,31 +558,34 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let _out = addr2idx.insert(*address, idx);
         debug_assert!(_out.is_none());
 
-        if let Some(def) = names.iter().filter_map(|name| defines.get(name)).next() {
-            // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
-            match (&def.sig.inputs[..], def.sig.output.as_ref()) {
-                ([Type::Pointer(..), Type::Pointer(fmt)], Some(output))
-                    if **fmt == Type::Alias("core::fmt::Formatter")
-                        && **output == Type::Integer(1) =>
-                {
-                    fmts.insert(idx);
+        // NOTE the linker can fold functions that have different signatures into a single one
+        let mut is_typed = false;
+        for name in &names {
+            let sig = if let Some(def) = defines.get(name) {
+                // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
+                match (&def.sig.inputs[..], def.sig.output.as_ref()) {
+                    ([Type::Pointer(..), Type::Pointer(fmt)], Some(output))
+                        if **fmt == Type::Alias("core::fmt::Formatter")
+                            && **output == Type::Integer(1) =>
+                    {
+                        fmts.insert(idx);
+                    }
+
+                    _ => {}
                 }
 
-                _ => {}
-            }
+                def.sig.clone()
+            } else if let Some(sig) = declares.get(name).and_then(|decl| decl.sig.clone()) {
+                sig
+            } else {
+                continue;
+            };
 
-            indirects
-                .entry(def.sig.clone())
-                .or_default()
-                .callees
-                .insert(idx);
-        } else if let Some(sig) = names
-            .iter()
-            .filter_map(|name| declares.get(name).and_then(|decl| decl.sig.clone()))
-            .next()
-        {
+            is_typed = true;
             indirects.entry(sig).or_default().callees.insert(idx);
-        } else if !is_outlined_function(canonical_name) {
+        }
+
+        if !is_typed && !is_outlined_function(canonical_name) {
             // ^ functions produced by LLVM's function outliner are never called through function
             // pointers (as of LLVM 14.0.6)
             has_untyped_symbols = true;
-- 
2.43.0


From bf4ee487469fc9d033e748565a3f16e4dcfffd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 41/46] fix: parse floating-point and other constant arguments
 of indirect calls

One such argument, e.g. a memory-mapped register (`inttoptr (i32 4 to ptr)`) or
a float, made the analysis of the whole program fail.
---
 src/ir/define.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index 99906ab..09d70f7 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -3,6 +3,8 @@ use nom::{
     bytes::complete::{is_not, tag},
     character::complete::{char, digit1, line_ending, not_line_ending, space1},
     combinator::{map, map_res, opt},
+    error::ErrorKind,
+    error_position,
     multi::{many0, many1, separated_list0, separated_list1},
     sequence::delimited,
     IResult,
@@ -164,20 +166,37 @@ fn argument(i: &str) -> IResult<&str, Argument> {
         map(super::function, drop),
         map(super::null, drop),
         map(super::undef, drop),
-        map(
-            |i| {
-                let i = opt(char('-'))(i)?.0;
-                digit1(i)
-            },
-            drop,
-        ),
         map(tag("true"), drop),
         map(tag("false"), drop),
+        map(constant, drop),
     ))(i)?
     .0;
     Ok((i, Argument(ty)))
 }
 
+// any other constant, for example: `-1`, `1.000000e+00`, `zeroinitializer`, `{ i8 1, i8 2 }` or
+// `inttoptr (i32 4 to ptr)`
+fn constant(i: &str) -> IResult<&str, &str> {
+    let mut depth = 0;
+    let mut is_quoted = false;
+    let end = i.find(|c| {
+        match c {
+            '\r' | '\n' => return true,
+            '"' => is_quoted = !is_quoted,
+            _ if is_quoted => {}
+            ',' | ')' if depth == 0 => return true,
+            '(' | '[' | '{' | '<' => depth += 1,
+            ')' | ']' | '}' | '>' => depth -= 1,
+            _ => {}
+        }
+        false
+    });
+    match end {
+        Some(end) if end != 0 => Ok((&i[end..], &i[..end])),
+        _ => Err(nom::Err::Error(error_position!(i, ErrorKind::Verify))),
+    }
+}
+
 fn bitcast_call(i: &str) -> IResult<&str, Stmt> {
     let i = opt(|i| {
         let i = tag("tail")(i)?.0;
-- 
2.43.0


From 8bd20511ce33423592b33ec2cd0bf15d7ec7e1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 42/46] fix: prefer the application's version of functions over
 compiler_builtins' weak one

---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1979a20..f4f2971 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -364,7 +364,9 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
     for item in items.into_iter().chain(compiler_builtins_items) {
         match item {
             Item::Define(def) => {
-                defines.insert(def.name, def);
+                // NOTE the linker prefers the application's version of functions, like `memcpy`, that
+                // `compiler_builtins` provides as weak symbols
+                defines.entry(def.name).or_insert(def);
             }
 
             Item::Declare(decl) => {
@@ -410,7 +412,10 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         }
 
         if is_object {
-            stack_sizes.extend(object_stack_sizes(&buf)?);
+            for (name, stack) in object_stack_sizes(&buf)? {
+                // NOTE the application's version of a function takes precedence
+                stack_sizes.entry(name).or_insert(stack);
+            }
         }
     }
 
-- 
2.43.0


From 5bd5a8b7db64cdf6df365f579be2fbc42c488508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:18 +0000
Subject: [PATCH 43/46] fix: do not take the rest of a pointer type for a
 constant argument

---
 src/ir/define.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ir/define.rs b/src/ir/define.rs
index 09d70f7..f8f5a49 100644
--- a/src/ir/define.rs
+++ b/src/ir/define.rs
@@ -177,6 +177,11 @@ fn argument(i: &str) -> IResult<&str, Argument> {
 // any other constant, for example: `-1`, `1.000000e+00`, `zeroinitializer`, `{ i8 1, i8 2 }` or
 // `inttoptr (i32 4 to ptr)`
 fn constant(i: &str) -> IResult<&str, &str> {
+    // this is the rest of a type, for example `ptr addrspace(1)`
+    if i.starts_with("addrspace") || i.starts_with('*') {
+        return Err(nom::Err::Error(error_position!(i, ErrorKind::Verify)));
+    }
+
     let mut depth = 0;
     let mut is_quoted = false;
     let end = i.find(|c| {
-- 
2.43.0


From 995056b180478d2d66a8ac1ce3308ff53ad4d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:08 +0000
Subject: [PATCH 44/46] fix: keep rustc the first argument of the workspace's
 wrapper

---
 src/wrapper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wrapper.rs b/src/wrapper.rs
index f651f87..d25c0dd 100644
--- a/src/wrapper.rs
+++ b/src/wrapper.rs
@@ -28,6 +28,8 @@ pub(crate) fn wrapper() -> anyhow::Result<i32> {
     let mut rustc = Command::new(&rustc_path);
 
     let rustc_args = args.collect::<Vec<_>>();
+    // NOTE with `RUSTC_WORKSPACE_WRAPPER` this is another wrapper and its first argument is `rustc`
+    rustc.args(&rustc_args);
     let utf8_args = rustc_args
         .iter()
         .map(|s| s.to_string_lossy())
@@ -53,7 +55,7 @@ pub(crate) fn wrapper() -> anyhow::Result<i32> {
         eprintln!("{}{}", COMPILER_BUILTINS_LL_PATH_MARKER, ll_path);
     }
 
-    rustc.arg("-Zemit-stack-sizes").args(&rustc_args);
+    rustc.arg("-Zemit-stack-sizes");
 
     let status = rustc
         .status()
-- 
2.43.0


From c4657097395ef2fc58852b3d1c210c06014e26af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:27 +0000
Subject: [PATCH 45/46] fix: count formatting functions that are only declared
 in the IR

The special case of `core::fmt` looked only at definitions for the functions that a call through the
erased signature may lead to, and dropped the callees found by signature. Also keep the pointer when
the signature is spelled with `fmt::Void`.
---
 src/main.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f4f2971..906f126 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -567,18 +567,6 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let mut is_typed = false;
         for name in &names {
             let sig = if let Some(def) = defines.get(name) {
-                // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
-                match (&def.sig.inputs[..], def.sig.output.as_ref()) {
-                    ([Type::Pointer(..), Type::Pointer(fmt)], Some(output))
-                        if **fmt == Type::Alias("core::fmt::Formatter")
-                            && **output == Type::Integer(1) =>
-                    {
-                        fmts.insert(idx);
-                    }
-
-                    _ => {}
-                }
-
                 def.sig.clone()
             } else if let Some(sig) = declares.get(name).and_then(|decl| decl.sig.clone()) {
                 sig
@@ -586,6 +574,18 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
                 continue;
             };
 
+            // if the signature is `fn(&_, &mut fmt::Formatter) -> fmt::Result`
+            match (&sig.inputs[..], sig.output.as_ref()) {
+                ([Type::Pointer(..), Type::Pointer(fmt)], Some(output))
+                    if **fmt == Type::Alias("core::fmt::Formatter")
+                        && **output == Type::Integer(1) =>
+                {
+                    fmts.insert(idx);
+                }
+
+                _ => {}
+            }
+
             is_typed = true;
             indirects.entry(sig).or_default().callees.insert(idx);
         }
@@ -1102,7 +1102,7 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
 
                     // canonicalize the signature
                     if one_true_void != "fmt::Void" {
-                        sig.inputs[0] = Type::Alias("fmt::Void");
+                        sig.inputs[0] = Type::Pointer(Box::new(Type::Alias("fmt::Void")));
                     }
 
                     &fmts
-- 
2.43.0


From eb1023c92bb6d994a9dfe4b45a2e57ab10972f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:03 +0000
Subject: [PATCH 46/46] fix: ignore labels and symbols of other sections when
 looking for mapping symbols

---
 src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 906f126..be65ab9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -830,12 +830,21 @@ If you would like to use cargo-call-stack with your current toolchain, which mos
         let mut tags: Vec<_> = match sect.get_data(&elf).unwrap() {
             SectionData::SymbolTable32(entries) => entries
                 .iter()
-                .filter_map(|entry| {
+                .enumerate()
+                // NOTE the mapping symbols of other sections, e.g. `.debug_frame`, say nothing about
+                // the machine code; their addresses can be offsets within the section
+                .filter(|(i, entry)| {
+                    entry
+                        .get_section_header(&elf, *i)
+                        .and_then(|sect| sect.get_name(&elf))
+                        == Ok(".text")
+                })
+                .filter_map(|(_, entry)| {
                     let addr = entry.value() as u32;
                     entry.get_name(&elf).ok().and_then(|name| {
-                        if name.starts_with("$d") {
+                        if name == "$d" || name.starts_with("$d.") {
                             Some((addr, Tag::Data))
-                        } else if name.starts_with("$t") {
+                        } else if name == "$t" || name.starts_with("$t.") {
                             Some((addr, Tag::Thumb))
                         } else {
                             None
-- 
2.43.0

