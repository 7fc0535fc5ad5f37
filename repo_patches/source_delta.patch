From e4086c6160da2c669ca4ed8b1b716ea0b10138a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 01/22] fix: check the referenced type, not the referring one,
 when finalizing a type system

SystemBuilder::finalize tested the presence of the type it iterates over, which is always true,
so incomplete systems were accepted when a library named a type its dependency doesn't define.
---
 src/typesys/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index 52a2fd2..e5b6cce 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -124,7 +124,7 @@ impl SystemBuilder {
 
         for (sem_id, info) in &self.types {
             for (inner_id, _) in info.ty.type_refs() {
-                if !self.types.contains_key(sem_id) {
+                if !self.types.contains_key(inner_id) {
                     errors.push(Error::InnerTypeAbsent {
                         unknown: *inner_id,
                         known: *sem_id,
-- 
2.43.0


From f2a33346655752a229c452d8dd8cf4e46d9f4ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 02/22] fix: keep all names of a type which several libraries
 define

A type with the same name and structure has the same semantic id in each library defining it.
Importing a library replaced the name contributed by the one imported before, so the linked
system depended on the order of imports and types became unresolvable by their name.
---
 src/typesys/translate.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/typesys/translate.rs b/src/typesys/translate.rs
index e5b6cce..219529f 100644
--- a/src/typesys/translate.rs
+++ b/src/typesys/translate.rs
@@ -93,6 +93,7 @@ pub struct SystemBuilder {
     pending_deps: BTreeSet<Dependency>,
     imported_deps: BTreeSet<Dependency>,
     types: BTreeMap<SemId, SymTy>,
+    aliases: BTreeSet<(SemId, TypeFqn)>,
 }
 
 impl SystemBuilder {
@@ -109,6 +110,9 @@ impl SystemBuilder {
             let id = ty.sem_id_named(&ty_name);
             let ty = ty.translate(&mut self, &())?;
             let info = SymTy::named(lib.name.clone(), ty_name.clone(), ty);
+            if let Some(fqn) = info.orig.clone() {
+                self.aliases.insert((id, fqn));
+            }
             self.types.insert(id, info);
         }
 
@@ -136,7 +140,19 @@ impl SystemBuilder {
             return Err(errors);
         }
 
-        SymbolicSys::with(self.imported_deps, self.types).map_err(|err| vec![err])
+        // the same type may be defined by several libraries: each of its names must be resolvable
+        let mut aliases = self.aliases;
+        for (sem_id, info) in &self.types {
+            if let Some(fqn) = &info.orig {
+                aliases.remove(&(*sem_id, fqn.clone()));
+            }
+        }
+        let mut sys =
+            SymbolicSys::with(self.imported_deps, self.types).map_err(|err| vec![err])?;
+        for (sem_id, fqn) in aliases {
+            sys.symbols.update_unchecked(sem_id, Some(fqn)).map_err(|err| vec![err])?;
+        }
+        Ok(sys)
     }
 
     #[allow(clippy::multiple_bound_locations)]
-- 
2.43.0


From 2879482399ab3fae41bc883c4db4d0e54fcb70cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 03/22] fix: choose the used dependency independently of the
 process's hash seed

Dependency is equal to another one with the same id or the same name, but hashes by id only, so
with several versions of a library among the known ones, the version which was used (and thus
the id of the library built) depended on the random iteration order of the hash table.
---
 src/typelib/transpile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typelib/transpile.rs b/src/typelib/transpile.rs
index 49268b0..c902267 100644
--- a/src/typelib/transpile.rs
+++ b/src/typelib/transpile.rs
@@ -52,7 +52,7 @@ pub trait BuilderParent: StrictParent<StreamWriter<Sink>> {
 #[derive(Debug)]
 pub struct LibBuilder {
     pub(super) lib_name: LibName,
-    pub(super) known_libs: HashMap<Dependency, Option<HashSet<SemId>>>,
+    pub(super) known_libs: BTreeMap<Dependency, Option<HashSet<SemId>>>,
     pub(super) extern_types: HashMap<LibName, BTreeMap<SemId, TypeName>>,
     pub(super) types: HashMap<TypeName, Ty<TranspileRef>>,
     sink: StreamWriter<Sink>,
-- 
2.43.0


From 6844da53f2571ddf1883b6554e55cccd5d5599fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 04/22] fix: do not overflow iterating over types with 255
 inner types

---
 src/ast/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast/iter.rs b/src/ast/iter.rs
index 127b52f..e424f26 100644
--- a/src/ast/iter.rs
+++ b/src/ast/iter.rs
@@ -61,7 +61,7 @@ impl<Ref: TypeRef> Iterator for IntoIter<Ref> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let ret = self.ty.ty_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         ret.cloned()
     }
 }
@@ -100,7 +100,7 @@ impl<'ty, Ref: TypeRef + 'ty> Iterator for Iter<'ty, Ref> {
     fn next(&mut self) -> Option<Self::Item> {
         let r = self.ty.ty_at(self.pos);
         let item = self.ty.case_at(self.pos);
-        self.pos += 1;
+        self.pos = self.pos.saturating_add(1);
         r.map(|r| (r, item))
     }
 }
-- 
2.43.0


From 5061a743eba621bd7e971f3b2a71d9cedf838443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 05/22] fix: report libraries with undefined or circular types
 instead of hanging

---
 src/typelib/symbolic.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/typelib/symbolic.rs b/src/typelib/symbolic.rs
index a41e6ea..e36e7cc 100644
--- a/src/typelib/symbolic.rs
+++ b/src/typelib/symbolic.rs
@@ -274,6 +274,15 @@ impl LibBuilder {
     pub fn compile(self) -> Result<TypeLib, CompileError> { self.compile_symbols()?.compile() }
 }
 
+/// Finds a name of a library type referenced from the type definition and not present in the index.
+fn unresolved(ty: &Ty<TranspileRef>, index: &TypeIndex) -> Option<TypeName> {
+    ty.type_refs().find_map(|(r, _)| match r {
+        TranspileRef::Embedded(ty) => unresolved(ty, index),
+        TranspileRef::Named(name) if !index.contains_key(name) => Some(name.clone()),
+        TranspileRef::Named(_) | TranspileRef::Extern(_) => None,
+    })
+}
+
 impl SymbolicLib {
     pub fn compile(self) -> Result<TypeLib, CompileError> {
         let name = self.name;
@@ -313,7 +322,11 @@ impl SymbolicLib {
                 new_types.insert(name.clone(), ty);
                 old_types.remove(name);
             }
-            debug_assert!(found, "incomplete type definition found in the library");
+            if !found {
+                let (name, within) = old_types.pop_first().expect("loop condition");
+                let unknown = unresolved(&within, &index).unwrap_or(name);
+                return Err(CompileError::UnknownType { unknown, within });
+            }
         }
 
         let mut used_dependencies = BTreeSet::<Dependency>::new();
-- 
2.43.0


From 036e72e0286d6d949e5237d24728d3043085b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 06/22] fix: flush a binary library written to the standard
 output

The standard output is line buffered, so the tail of the library was reported as written while
still in the buffer, where a failure to write it would be ignored.
---
 src/typelib/serialize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index 6871dd5..fd4416e 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -57,7 +57,8 @@ impl TypeLib {
 
         match format {
             StlFormat::Binary => {
-                self.strict_encode(StrictWriter::with(StreamWriter::new::<U24MAX>(file)))?;
+                self.strict_encode(StrictWriter::with(StreamWriter::new::<U24MAX>(&mut file)))?;
+                file.flush()?;
             }
             #[cfg(feature = "armor")]
             StlFormat::Armored => {
-- 
2.43.0


From b4621b4705a956a775c814a76a329a4c8d60d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 07/22] fix: do not allocate memory by the untrusted length of
 a collection

A few bytes of typed data announcing a large list, set or map made the process abort on a memory
allocation failure.
---
 src/value/decode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index cf1aa04..b59b20a 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -38,6 +38,10 @@ use crate::typify::{TypeSpec, TypedVal};
 use crate::value::Blob;
 use crate::{SemId, StrictVal, Ty, TypeRef, TypeSystem};
 
+/// Length of a collection is untrusted until its items are read, so it must not define the amount of
+/// memory we allocate in advance.
+const MAX_PREALLOC: usize = 0x100;
+
 #[derive(Clone, Eq, PartialEq, Debug, Display, Error, From)]
 #[display(doc_comments)]
 pub enum Error {
@@ -88,7 +92,7 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<StrictVal>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(MAX_PREALLOC));
         for _ in 0..len {
             let item = self.strict_read_type(ty, d)?;
             list.push(item.val);
@@ -103,7 +107,7 @@ impl TypeSystem {
         ty: SemId,
         d: &mut impl ReadRaw,
     ) -> Result<Vec<(StrictVal, StrictVal)>, Error> {
-        let mut list = Vec::with_capacity(len);
+        let mut list = Vec::with_capacity(len.min(MAX_PREALLOC));
         for _ in 0..len {
             let key = self.strict_read_type(key_ty, d)?;
             let item = self.strict_read_type(ty, d)?;
-- 
2.43.0


From 7ce4f3b6399b3facaa350e8627eed9ffb0bb09ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 08/22] fix: do not allocate memory by the untrusted length of
 a large string

Four bytes announcing a large blob or string made the reader allocate up to 4 GB (or panic on a
capacity overflow for 64-bit lengths) before any of the data arrived.
---
 src/value/decode.rs | 54 +++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index b59b20a..047edd1 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -23,11 +23,10 @@
 
 //! Reification module: reads & writes strict values from binary strict encodings.
 
-use amplify::ascii::AsciiString;
+use amplify::ascii::AsAsciiStr;
 use amplify::confinement::{
-    Confined, LargeAscii, LargeBlob, LargeString, MediumAscii, MediumBlob, MediumString,
-    SmallAscii, SmallBlob, SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16,
-    U32 as MAX32,
+    MediumAscii, MediumBlob, MediumString, SmallAscii, SmallBlob, SmallString, TinyAscii, TinyBlob,
+    TinyString, U16 as MAX16, U32 as MAX32,
 };
 use amplify::num::{u24, u40, u48, u56};
 use encoding::{DecodeError, Primitive, ReadRaw, StreamReader, StrictDecode, StrictReader};
@@ -42,6 +41,18 @@ use crate::{SemId, StrictVal, Ty, TypeRef, TypeSystem};
 /// memory we allocate in advance.
 const MAX_PREALLOC: usize = 0x100;
 
+/// Reads data of a large string in chunks, such that the memory we allocate doesn't exceed the amount
+/// of data actually present.
+fn read_large(mut len: u64, d: &mut impl ReadRaw) -> Result<Vec<u8>, DecodeError> {
+    let mut buf = Vec::new();
+    while len > 0 {
+        let chunk = len.min(MAX16 as u64);
+        buf.extend(d.read_raw::<MAX16>(chunk as usize)?);
+        len -= chunk;
+    }
+    Ok(buf)
+}
+
 #[derive(Clone, Eq, PartialEq, Debug, Display, Error, From)]
 #[display(doc_comments)]
 pub enum Error {
@@ -180,14 +191,13 @@ impl TypeSystem {
                 } else if sizing.max <= u24::MAX.into_u64() {
                     StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
                 } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
+                    let len = u32::strict_decode(&mut reader)? as u64;
+                    let buf = read_large(len, reader.unbox())?;
+                    StrictVal::String(buf.as_ascii_str().map_err(DecodeError::from)?.to_string())
                 } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
+                    let len = u64::strict_decode(&mut reader)?;
+                    let buf = read_large(len, reader.unbox())?;
+                    StrictVal::String(buf.as_ascii_str().map_err(DecodeError::from)?.to_string())
                 }
             }
             // Restricted strings:
@@ -200,14 +210,13 @@ impl TypeSystem {
                 } else if sizing.max <= u24::MAX.into_u64() {
                     StrictVal::String(MediumAscii::strict_decode(&mut reader)?.to_string())
                 } else if sizing.max <= u32::MAX as u64 {
-                    StrictVal::String(LargeAscii::strict_decode(&mut reader)?.to_string())
+                    let len = u32::strict_decode(&mut reader)? as u64;
+                    let buf = read_large(len, reader.unbox())?;
+                    StrictVal::String(buf.as_ascii_str().map_err(DecodeError::from)?.to_string())
                 } else {
-                    StrictVal::String(
-                        Confined::<AsciiString, 0, { u64::MAX as usize }>::strict_decode(
-                            &mut reader,
-                        )?
-                        .to_string(),
-                    )
+                    let len = u64::strict_decode(&mut reader)?;
+                    let buf = read_large(len, reader.unbox())?;
+                    StrictVal::String(buf.as_ascii_str().map_err(DecodeError::from)?.to_string())
                 }
             }
 
@@ -275,8 +284,8 @@ impl TypeSystem {
                 StrictVal::Bytes(Blob(string.release()))
             }
             Ty::List(ty, sizing) if ty.is_byte() && sizing.max <= u32::MAX as u64 => {
-                let string = LargeBlob::strict_decode(&mut reader)?;
-                StrictVal::Bytes(Blob(string.release()))
+                let len = u32::strict_decode(&mut reader)? as u64;
+                StrictVal::Bytes(Blob(read_large(len, reader.unbox())?))
             }
 
             // Unicode strings:
@@ -293,8 +302,9 @@ impl TypeSystem {
                 StrictVal::String(string.release())
             }
             Ty::List(ty, sizing) if ty.is_unicode_char() && sizing.max <= u32::MAX as u64 => {
-                let string = LargeString::strict_decode(&mut reader)?;
-                StrictVal::String(string.release())
+                let len = u32::strict_decode(&mut reader)? as u64;
+                let buf = read_large(len, reader.unbox())?;
+                StrictVal::String(String::from_utf8(buf).map_err(DecodeError::from)?)
             }
 
             // Other lists:
-- 
2.43.0


From f627085971ee07c937038a0a51dc5ae3065fb745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 09/22] fix: read single unicode characters instead of
 panicking

---
 src/value/decode.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 047edd1..b677ddc 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -174,7 +174,16 @@ impl TypeSystem {
                 }
             }
             Ty::UnicodeChar => {
-                todo!()
+                let d = reader.unbox();
+                let mut buf = d.read_raw::<1>(1).map_err(DecodeError::from)?;
+                let rest = match buf[0] {
+                    0xC0..=0xDF => 1,
+                    0xE0..=0xEF => 2,
+                    0xF0..=0xF7 => 3,
+                    _ => 0,
+                };
+                buf.extend(d.read_raw::<3>(rest).map_err(DecodeError::from)?);
+                StrictVal::String(String::from_utf8(buf).map_err(DecodeError::from)?)
             }
 
             // ASCII strings:
-- 
2.43.0


From 54ad836b34c5989d63a14ba83635e2ccf285ff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 10/22] fix: refuse values out of the bounds of their type when
 reading them

Reading accepted collections and strings shorter or longer than the type allows, and restricted
strings made of other characters, which peers using the compiled-in type refuse.
---
 src/value/decode.rs | 55 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index b677ddc..85ab1ca 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -25,8 +25,8 @@
 
 use amplify::ascii::AsAsciiStr;
 use amplify::confinement::{
-    MediumAscii, MediumBlob, MediumString, SmallAscii, SmallBlob, SmallString, TinyAscii, TinyBlob,
-    TinyString, U16 as MAX16, U32 as MAX32,
+    Error as ConfinementError, MediumAscii, MediumBlob, MediumString, SmallAscii, SmallBlob,
+    SmallString, TinyAscii, TinyBlob, TinyString, U16 as MAX16, U32 as MAX32,
 };
 use amplify::num::{u24, u40, u48, u56};
 use encoding::{DecodeError, Primitive, ReadRaw, StreamReader, StrictDecode, StrictReader};
@@ -127,6 +127,55 @@ impl TypeSystem {
         Ok(list)
     }
 
+    /// Checks size of a collection and characters of a string which were read to be the ones allowed
+    /// by their type.
+    fn check_conformance(
+        &self,
+        spec: &TypeSpec,
+        ty: &Ty<SemId>,
+        val: &StrictVal,
+    ) -> Result<(), Error> {
+        let (len, sizing) = match (val, ty) {
+            (StrictVal::String(s), Ty::List(id, sizing)) => {
+                self.check_chars(spec, *id, s.as_bytes())?;
+                (s.len(), *sizing)
+            }
+            (StrictVal::String(s), Ty::Tuple(fields)) => {
+                let Some((rest, sizing)) = self.rstring_sizing(fields)? else {
+                    return Ok(());
+                };
+                let (first, tail) = s.as_bytes().split_at(s.len().min(1));
+                self.check_chars(spec, fields[0], first)?;
+                self.check_chars(spec, rest, tail)?;
+                (s.len(), sizing)
+            }
+            (StrictVal::Bytes(s), Ty::List(_, sizing)) => (s.len(), *sizing),
+            (StrictVal::List(s), Ty::List(_, sizing)) | (StrictVal::Set(s), Ty::Set(_, sizing)) => {
+                (s.len(), *sizing)
+            }
+            (StrictVal::Map(s), Ty::Map(_, _, sizing)) => (s.len(), *sizing),
+            _ => return Ok(()),
+        };
+        if (len as u64) < sizing.min {
+            let min_len = sizing.min as usize;
+            return Err(DecodeError::Confinement(ConfinementError::Undersize { len, min_len }).into());
+        }
+        if len as u64 > sizing.max {
+            let max_len = sizing.max as usize;
+            return Err(DecodeError::Confinement(ConfinementError::Oversize { len, max_len }).into());
+        }
+        Ok(())
+    }
+
+    fn check_chars(&self, spec: &TypeSpec, char_ty: SemId, chars: &[u8]) -> Result<(), Error> {
+        if let Some(Ty::Enum(variants)) = self.find(char_ty) {
+            if let Some(tag) = chars.iter().find(|tag| !variants.has_tag(**tag)) {
+                return Err(DecodeError::EnumTagNotKnown(spec.to_string(), *tag).into());
+            }
+        }
+        Ok(())
+    }
+
     pub fn strict_deserialize_type(&self, sem_id: SemId, data: &[u8]) -> Result<TypedVal, Error> {
         let mut cursor = StreamReader::cursor::<MAX32>(data);
         let ty = self.strict_read_type(sem_id, &mut cursor)?;
@@ -410,6 +459,8 @@ impl TypeSystem {
             }
         };
 
+        self.check_conformance(&spec, ty, &val)?;
+
         Ok(TypedVal {
             val,
             orig: TypeSymbol::unnamed(sem_id),
-- 
2.43.0


From e008147df23640983fea3f0e94c95eac96150988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 11/22] fix: write arrays of non-bytes and single character
 values instead of panicking

Both are what reading and type checking produce for arrays and character enums.
---
 src/value/encode.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/value/encode.rs b/src/value/encode.rs
index 06c4a48..4425695 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -147,6 +147,18 @@ impl TypeSystem {
                 writer.write_all(s.as_bytes())?;
             }
 
+            (StrictVal::List(list), Ty::Array(sem_id, len)) => {
+                debug_assert_eq!(list.len(), *len as usize);
+                for val in list {
+                    self.strict_write_val(val, *sem_id, writer)?;
+                }
+            }
+            (StrictVal::String(s), Ty::Enum(variants)) if s.len() == 1 => {
+                let tag = s.as_bytes()[0];
+                debug_assert!(variants.has_tag(tag));
+                writer.write_all(&[tag])?;
+            }
+
             (StrictVal::Tuple(vals), Ty::Tuple(fields)) => {
                 debug_assert_eq!(vals.len(), fields.len());
                 for (val, sem_id) in vals.iter().zip(fields) {
-- 
2.43.0


From c944584b67c2912b30fb06d0f3159619c95b6fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 12/22] fix: do not overflow computing bounds of a string of
 unlimited length

---
 src/typesys/iter.rs     | 4 ++--
 src/typesys/type_sys.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index 99fb6a9..f393c4a 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -181,8 +181,8 @@ impl Iterator for TypeTreeIter<'_> {
                             let first = self.sys.symbols.lookup(fields[0]);
                             let rest = self.sys.symbols.lookup(*rest);
                             let mut sizing = *sizing;
-                            sizing.min += 1;
-                            sizing.max += 1;
+                            sizing.min = sizing.min.saturating_add(1);
+                            sizing.max = sizing.max.saturating_add(1);
                             let _ = iter.next(); // skipping first char
                             let _ = iter.next(); // skipping nested list
                             nested.push(NestedCase::RStr(first.cloned(), rest.cloned(), sizing))
diff --git a/src/typesys/type_sys.rs b/src/typesys/type_sys.rs
index 662e746..c13193c 100644
--- a/src/typesys/type_sys.rs
+++ b/src/typesys/type_sys.rs
@@ -161,8 +161,8 @@ impl TypeSystem {
         let rest = self.find(rest).ok_or(UnknownType(rest))?;
         if let Ty::List(rest, sizing) = rest {
             let mut sizing = *sizing;
-            sizing.min += 1;
-            sizing.max += 1;
+            sizing.min = sizing.min.saturating_add(1);
+            sizing.max = sizing.max.saturating_add(1);
             return Ok(Some((*rest, sizing)));
         }
         Ok(None)
-- 
2.43.0


From 46adcce6b6d301bc5992079c1ab123f2765a413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 13/22] fix: refuse repeated items of sets and keys of maps
 when reading them

---
 src/value/decode.rs | 31 ++++++++++++++++++++++++++++++-
 src/value/encode.rs |  2 +-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/value/decode.rs b/src/value/decode.rs
index 85ab1ca..c2b57c6 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -23,6 +23,8 @@
 
 //! Reification module: reads & writes strict values from binary strict encodings.
 
+use std::collections::HashSet;
+
 use amplify::ascii::AsAsciiStr;
 use amplify::confinement::{
     Error as ConfinementError, MediumAscii, MediumBlob, MediumString, SmallAscii, SmallBlob,
@@ -127,6 +129,23 @@ impl TypeSystem {
         Ok(list)
     }
 
+    /// Checks that items of a set, or keys of a map, which were read are all different.
+    fn is_unique<'val>(
+        &self,
+        item_ty: SemId,
+        items: impl Iterator<Item = &'val StrictVal>,
+    ) -> Result<bool, DecodeError> {
+        let mut known = HashSet::new();
+        for item in items {
+            let mut buf = Vec::new();
+            self.strict_write_val(item, item_ty, &mut buf)?;
+            if !known.insert(buf) {
+                return Ok(false);
+            }
+        }
+        Ok(true)
+    }
+
     /// Checks size of a collection and characters of a string which were read to be the ones allowed
     /// by their type.
     fn check_conformance(
@@ -396,7 +415,6 @@ impl TypeSystem {
                 let list = self.strict_read_list(len as usize, *ty, d)?;
                 StrictVal::List(list)
             }
-            // TODO: Find a way to check for the uniqueness of the set values
             Ty::Set(ty, sizing) if sizing.max <= u8::MAX as u64 => {
                 let len = u8::strict_decode(&mut reader)?;
                 d = reader.unbox();
@@ -460,6 +478,17 @@ impl TypeSystem {
         };
 
         self.check_conformance(&spec, ty, &val)?;
+        match (&val, ty) {
+            (StrictVal::Set(items), Ty::Set(id, _)) if !self.is_unique(*id, items.iter())? => {
+                return Err(DecodeError::RepeatedSetValue.into());
+            }
+            (StrictVal::Map(items), Ty::Map(key_id, ..))
+                if !self.is_unique(*key_id, items.iter().map(|(key, _)| key))? =>
+            {
+                return Err(DecodeError::RepeatedMapValue.into());
+            }
+            _ => {}
+        }
 
         Ok(TypedVal {
             val,
diff --git a/src/value/encode.rs b/src/value/encode.rs
index 4425695..be15ef3 100644
--- a/src/value/encode.rs
+++ b/src/value/encode.rs
@@ -88,7 +88,7 @@ impl TypeSystem {
         self.strict_write_val(&typed.val, typed.orig.id, writer)
     }
 
-    fn strict_write_val(
+    pub(super) fn strict_write_val(
         &self,
         val: &StrictVal,
         sem_id: SemId,
-- 
2.43.0


From 149d67885f3268d7081e993a0f63b1664b11e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 14/22] fix: write armor of libraries with several dependencies
 such that it can be read

---
 src/typelib/serialize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/typelib/serialize.rs b/src/typelib/serialize.rs
index fd4416e..6e0f9b4 100644
--- a/src/typelib/serialize.rs
+++ b/src/typelib/serialize.rs
@@ -181,10 +181,10 @@ impl armor::StrictArmor for TypeLib {
 
         let mut headers = vec![ArmorHeader::new("Name", self.name.to_string())];
         if !self.dependencies.is_empty() {
-            headers.push(ArmorHeader::with(
-                "Dependencies",
-                self.dependencies.iter().map(Dependency::to_string),
-            ));
+            // Armor headers occupying multiple lines can't be parsed back
+            let dependencies =
+                self.dependencies.iter().map(Dependency::to_string).collect::<Vec<_>>();
+            headers.push(ArmorHeader::new("Dependencies", dependencies.join(", ")));
         }
         headers
     }
-- 
2.43.0


From 8140c15203ea138f6d1e04275fa4283ba4a083e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:56 +0000
Subject: [PATCH 15/22] fix: do not panic expanding a type of an incomplete
 type system

---
 src/typesys/iter.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index f393c4a..7f48dee 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -190,14 +190,16 @@ impl Iterator for TypeTreeIter<'_> {
                     }
                 }
             } else if let Ty::List(inner_id, _) = ty {
-                let inner_ty = self.sys.get(*inner_id).expect("incomplete type system");
-                if inner_ty.is_char_enum() {
-                    let fqn = self.sys.symbols.lookup(*inner_id);
-                    nested.push(NestedCase::AsciiStr(fqn.cloned()));
-                } else if inner_ty.is_byte() {
-                    nested.push(NestedCase::ByteStr);
-                } else if inner_ty.is_unicode_char() {
-                    nested.push(NestedCase::UniStr);
+                // a system which was read from untrusted data may be incomplete
+                if let Some(inner_ty) = self.sys.get(*inner_id) {
+                    if inner_ty.is_char_enum() {
+                        let fqn = self.sys.symbols.lookup(*inner_id);
+                        nested.push(NestedCase::AsciiStr(fqn.cloned()));
+                    } else if inner_ty.is_byte() {
+                        nested.push(NestedCase::ByteStr);
+                    } else if inner_ty.is_unicode_char() {
+                        nested.push(NestedCase::UniStr);
+                    }
                 }
                 if !nested.is_empty() {
                     push = false;
-- 
2.43.0


From 7df4863c05218222b37e95b63daf8c10c576febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:31 +0000
Subject: [PATCH 16/22] fix: refuse enums and unions with repeated names of
 variants

---
 src/ast/encoding.rs | 23 ++++++++++++++++++++---
 src/ast/ty.rs       |  2 +-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/ast/encoding.rs b/src/ast/encoding.rs
index d866d5b..5cdcf5a 100644
--- a/src/ast/encoding.rs
+++ b/src/ast/encoding.rs
@@ -21,17 +21,17 @@
 // or implied. See the License for the specific language governing permissions and limitations under
 // the License.
 
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::io;
 
-use amplify::confinement::TinyOrdMap;
+use amplify::confinement::{NonEmptyOrdSet, TinyOrdMap};
 use encoding::VariantName;
 use strict_encoding::{
     DecodeError, StrictDecode, StrictDumb, StrictEncode, StrictType, TypedRead, TypedWrite,
     Variant, STRICT_TYPES_LIB,
 };
 
-use crate::ast::ty::UnionVariants;
+use crate::ast::ty::{EnumVariants, UnionVariants};
 use crate::TypeRef;
 
 #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
@@ -58,6 +58,10 @@ impl<Ref: TypeRef> StrictDecode for UnionVariants<Ref> {
         let read = TinyOrdMap::<u8, VariantInfo<Ref>>::strict_decode(reader)?;
         let mut inner = BTreeMap::new();
         for (tag, info) in read {
+            // a variant is equal to any other one having the same name, thus the latter is lost
+            if inner.keys().any(|variant: &Variant| variant.name == info.name) {
+                return Err(DecodeError::RepeatedMapValue);
+            }
             inner.insert(
                 Variant {
                     name: info.name,
@@ -69,3 +73,16 @@ impl<Ref: TypeRef> StrictDecode for UnionVariants<Ref> {
         UnionVariants::try_from(inner).map_err(DecodeError::from)
     }
 }
+
+impl StrictDecode for EnumVariants {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let read = NonEmptyOrdSet::<Variant, { u8::MAX as usize }>::strict_decode(reader)?;
+        // variants are equal if either their tags or their names are, so that the order in which
+        // they were read is not ensured when a name repeats
+        let names = read.iter().map(|variant| &variant.name).collect::<BTreeSet<_>>();
+        if names.len() != read.len() {
+            return Err(DecodeError::RepeatedSetValue);
+        }
+        Ok(EnumVariants::from(read))
+    }
+}
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index fb65021..0e68a3e 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -640,7 +640,7 @@ where Ref: Display
 
 #[derive(Wrapper, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, From)]
 #[wrapper(Deref)]
-#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictDumb, StrictType, StrictEncode)]
 #[strict_type(lib = STRICT_TYPES_LIB, dumb = variants!("dumb"))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
 pub struct EnumVariants(NonEmptyOrdSet<Variant, { u8::MAX as usize }>);
-- 
2.43.0


From 5f5b3921e928c8cfada953711dd231052428cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 17/22] fix: detect different types with the same name
 independently of the order in which a library is built

---
 src/typelib/transpile.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/typelib/transpile.rs b/src/typelib/transpile.rs
index c902267..5883255 100644
--- a/src/typelib/transpile.rs
+++ b/src/typelib/transpile.rs
@@ -21,6 +21,7 @@
 // or implied. See the License for the specific language governing permissions and limitations under
 // the License.
 
+use std::any::type_name;
 use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 use std::io;
 use std::io::Sink;
@@ -55,6 +56,8 @@ pub struct LibBuilder {
     pub(super) known_libs: BTreeMap<Dependency, Option<HashSet<SemId>>>,
     pub(super) extern_types: HashMap<LibName, BTreeMap<SemId, TypeName>>,
     pub(super) types: HashMap<TypeName, Ty<TranspileRef>>,
+    /// Rust types which were already compiled under a given name
+    compiled: HashMap<TypeName, HashSet<&'static str>>,
     sink: StreamWriter<Sink>,
     last_compiled: Option<TranspileRef>,
 }
@@ -74,6 +77,7 @@ impl LibBuilder {
             known_libs: known_libs.into_iter().map(|d| (d, None)).collect(),
             extern_types: empty!(),
             types: empty!(),
+            compiled: empty!(),
             sink: StreamWriter::sink::<MAX_WRITE_COUNT>(),
             last_compiled: None,
         }
@@ -88,6 +92,7 @@ impl LibBuilder {
             known_libs: known_libs.into_iter().map(|(d, types)| (d, Some(types))).collect(),
             extern_types: empty!(),
             types: empty!(),
+            compiled: empty!(),
             sink: StreamWriter::sink::<MAX_WRITE_COUNT>(),
             last_compiled: None,
         }
@@ -245,8 +250,21 @@ impl BuilderParent for LibBuilder {
                 let lib_id = me.dependency_id(&lib_name);
                 (me, TranspileRef::Extern(SymbolRef::with(lib_name, name, lib_id, r.id())))
             }
-            (_, Some(name)) if self.types.contains_key(&name) => (self, TranspileRef::Named(name)),
-            (_, Some(_)) => _compile(self),
+            // different rust types may share a name; for them we have to compare the definitions
+            (_, Some(name))
+                if self
+                    .compiled
+                    .get(&name)
+                    .map(|known| known.contains(type_name::<T>()))
+                    .unwrap_or_default() =>
+            {
+                (self, TranspileRef::Named(name))
+            }
+            (_, Some(name)) => {
+                let (mut me, r) = _compile(self);
+                me.compiled.entry(name).or_default().insert(type_name::<T>());
+                (me, r)
+            }
         }
     }
 
-- 
2.43.0


From e40d1827903b563b5806a4ff5781570642693b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 18/22] fix: refuse structures with repeated names of fields

---
 src/ast/encoding.rs | 16 ++++++++++++++--
 src/ast/ty.rs       |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ast/encoding.rs b/src/ast/encoding.rs
index 5cdcf5a..158fc02 100644
--- a/src/ast/encoding.rs
+++ b/src/ast/encoding.rs
@@ -24,14 +24,14 @@
 use std::collections::{BTreeMap, BTreeSet};
 use std::io;
 
-use amplify::confinement::{NonEmptyOrdSet, TinyOrdMap};
+use amplify::confinement::{NonEmptyOrdSet, NonEmptyVec, TinyOrdMap};
 use encoding::VariantName;
 use strict_encoding::{
     DecodeError, StrictDecode, StrictDumb, StrictEncode, StrictType, TypedRead, TypedWrite,
     Variant, STRICT_TYPES_LIB,
 };
 
-use crate::ast::ty::{EnumVariants, UnionVariants};
+use crate::ast::ty::{EnumVariants, Field, NamedFields, UnionVariants};
 use crate::TypeRef;
 
 #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
@@ -86,3 +86,15 @@ impl StrictDecode for EnumVariants {
         Ok(EnumVariants::from(read))
     }
 }
+
+impl<Ref: TypeRef> StrictDecode for NamedFields<Ref> {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let read = NonEmptyVec::<Field<Ref>, { u8::MAX as usize }>::strict_decode(reader)?;
+        // a value of the type is not able to hold two fields of the same name
+        let names = read.iter().map(|field| &field.name).collect::<BTreeSet<_>>();
+        if names.len() != read.len() {
+            return Err(DecodeError::RepeatedMapValue);
+        }
+        Ok(NamedFields::from(read))
+    }
+}
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 0e68a3e..576afac 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -364,7 +364,7 @@ where Ref: Display
 }
 
 #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, From)]
-#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictDumb, StrictType, StrictEncode)]
 #[strict_type(lib = STRICT_TYPES_LIB, dumb = fields!("dumb" => Ref::strict_dumb()))]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
 pub struct NamedFields<Ref: TypeRef>(NonEmptyVec<Field<Ref>, { u8::MAX as usize }>);
-- 
2.43.0


From 1cb97ced15fa0088098510b502d066f332b1c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 19/22] fix: do not panic displaying the reserved primitive
 type

---
 src/ast/ty.rs       | 2 ++
 src/value/decode.rs | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 576afac..596816b 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -252,6 +252,8 @@ where Ref: Display
 {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
         match self {
+            // has no display representation on its own
+            Ty::Primitive(Primitive::RESERVED) => f.write_str("Reserved"),
             Ty::Primitive(prim) => Display::fmt(prim, f),
             Ty::Enum(vars) => Display::fmt(vars, f),
             Ty::Union(fields) if self.is_option() => {
diff --git a/src/value/decode.rs b/src/value/decode.rs
index c2b57c6..e1173da 100644
--- a/src/value/decode.rs
+++ b/src/value/decode.rs
@@ -234,9 +234,9 @@ impl TypeSystem {
                     Primitive::I32 => StrictVal::num(i32::strict_decode(&mut reader)?),
                     Primitive::I64 => StrictVal::num(i64::strict_decode(&mut reader)?),
                     // Primitive::I128 => StrictVal::num(i128::strict_decode(&mut reader)?),
-                    other => {
+                    _ => {
                         return Err(Error::NotImplemented(format!(
-                            "loading {other} into a typed value is not yet implemented"
+                            "loading {ty} into a typed value is not yet implemented"
                         )));
                     }
                 }
-- 
2.43.0


From 231edaffd508da5a639c4c5ea66886d29c4acbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:38 +0000
Subject: [PATCH 20/22] fix: refuse definitions with repeated names in JSON,
 YAML and TOML forms

---
 src/ast/encoding.rs | 49 +++++++++++++++++++++++++++++++++++++++++++++
 src/ast/ty.rs       |  6 +++---
 2 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/src/ast/encoding.rs b/src/ast/encoding.rs
index 158fc02..1aa263f 100644
--- a/src/ast/encoding.rs
+++ b/src/ast/encoding.rs
@@ -98,3 +98,52 @@ impl<Ref: TypeRef> StrictDecode for NamedFields<Ref> {
         Ok(NamedFields::from(read))
     }
 }
+
+#[cfg(feature = "serde")]
+mod _serde {
+    use amplify::confinement::NonEmptyOrdMap;
+    use serde::de::Error;
+    use serde::{Deserialize, Deserializer};
+
+    use super::*;
+
+    impl<'de, Ref: TypeRef + Deserialize<'de>> Deserialize<'de> for NamedFields<Ref> {
+        fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: Deserializer<'de> {
+            let read =
+                NonEmptyVec::<Field<Ref>, { u8::MAX as usize }>::deserialize(deserializer)?;
+            let names = read.iter().map(|field| &field.name).collect::<BTreeSet<_>>();
+            if names.len() != read.len() {
+                return Err(D::Error::custom("repeated field name"));
+            }
+            Ok(NamedFields::from(read))
+        }
+    }
+
+    impl<'de, Ref: TypeRef + Deserialize<'de>> Deserialize<'de> for UnionVariants<Ref> {
+        fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: Deserializer<'de> {
+            let read = NonEmptyOrdMap::<Variant, Ref, { u8::MAX as usize }>::deserialize(
+                deserializer,
+            )?;
+            let names = read.keys().map(|variant| &variant.name).collect::<BTreeSet<_>>();
+            if names.len() != read.len() {
+                return Err(D::Error::custom("repeated variant name"));
+            }
+            Ok(UnionVariants::from(read))
+        }
+    }
+
+    impl<'de> Deserialize<'de> for EnumVariants {
+        fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: Deserializer<'de> {
+            let read =
+                NonEmptyOrdSet::<Variant, { u8::MAX as usize }>::deserialize(deserializer)?;
+            let names = read.iter().map(|variant| &variant.name).collect::<BTreeSet<_>>();
+            if names.len() != read.len() {
+                return Err(D::Error::custom("repeated variant name"));
+            }
+            Ok(EnumVariants::from(read))
+        }
+    }
+}
diff --git a/src/ast/ty.rs b/src/ast/ty.rs
index 596816b..ae4d8f4 100644
--- a/src/ast/ty.rs
+++ b/src/ast/ty.rs
@@ -368,7 +368,7 @@ where Ref: Display
 #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, From)]
 #[derive(StrictDumb, StrictType, StrictEncode)]
 #[strict_type(lib = STRICT_TYPES_LIB, dumb = fields!("dumb" => Ref::strict_dumb()))]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
+#[cfg_attr(feature = "serde", derive(Serialize), serde(transparent))]
 pub struct NamedFields<Ref: TypeRef>(NonEmptyVec<Field<Ref>, { u8::MAX as usize }>);
 
 impl<Ref: TypeRef> Wrapper for NamedFields<Ref> {
@@ -510,7 +510,7 @@ where Ref: Display
 #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, From)]
 #[derive(StrictDumb, StrictType)]
 #[strict_type(lib = STRICT_TYPES_LIB, dumb = variants!("dumb" => Ref::strict_dumb()))]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
+#[cfg_attr(feature = "serde", derive(Serialize), serde(transparent))]
 pub struct UnionVariants<Ref: TypeRef>(NonEmptyOrdMap<Variant, Ref, { u8::MAX as usize }>);
 
 impl<Ref: TypeRef> Wrapper for UnionVariants<Ref> {
@@ -644,7 +644,7 @@ where Ref: Display
 #[wrapper(Deref)]
 #[derive(StrictDumb, StrictType, StrictEncode)]
 #[strict_type(lib = STRICT_TYPES_LIB, dumb = variants!("dumb"))]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
+#[cfg_attr(feature = "serde", derive(Serialize), serde(transparent))]
 pub struct EnumVariants(NonEmptyOrdSet<Variant, { u8::MAX as usize }>);
 
 impl TryFrom<BTreeSet<Variant>> for EnumVariants {
-- 
2.43.0


From 7ca97ff0dde81b179c6f584fd538e57d78189f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 21/22] fix: lay out an optional type as deep as the type it
 wraps

---
 src/typesys/iter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/typesys/iter.rs b/src/typesys/iter.rs
index 7f48dee..0e4ea7e 100644
--- a/src/typesys/iter.rs
+++ b/src/typesys/iter.rs
@@ -170,6 +170,7 @@ impl Iterator for TypeTreeIter<'_> {
             } else if ty.is_option() {
                 nested.push(NestedCase::Option);
                 let _ = iter.next(); // skipping none
+                dive = false;
                 ret = false;
             } else if let Ty::Tuple(fields) = ty {
                 if fields.len() == 2 {
-- 
2.43.0


From da079e904edcb37505dc5ddbac4df535ac3149c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 22/22] fix: lay out the reserved primitive type

---
 src/layout/translate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout/translate.rs b/src/layout/translate.rs
index 6637624..772f17b 100644
--- a/src/layout/translate.rs
+++ b/src/layout/translate.rs
@@ -88,8 +88,8 @@ impl TypeInfo {
             Ty::Primitive(prim) if *prim == Primitive::UNIT => {
                 attributes.push(Attr::TypeName(ident!("Unit")));
             }
-            Ty::Primitive(prim) => {
-                attributes.push(Attr::TypeName(ident!("{}", prim)));
+            Ty::Primitive(_) => {
+                attributes.push(Attr::TypeName(ident!("{}", ty)));
             }
             Ty::Array(_, len) => attributes.push(Attr::Len(*len)),
             Ty::List(_, sizing) | Ty::Set(_, sizing) | Ty::Map(_, _, sizing) => {
-- 
2.43.0

