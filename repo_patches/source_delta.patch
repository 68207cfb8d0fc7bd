From 32072b24d3144018160707f65c25a96071152083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 01/54] fix: resolve type references through all enclosing
 groups

A reference was looked up in own group and then in the root only, while the
generated code resolves names through all parent groups. As a result a type
of a parent group could not be referenced, or (with equal names) the protocol
store and the generated code meant different types.
---
 cli/src/protocol/enums.rs  |  7 ++-----
 cli/src/protocol/fields.rs |  7 ++-----
 cli/src/protocol/store.rs  | 36 ++++++++++++++++++++++++++++++++++++
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/cli/src/protocol/enums.rs b/cli/src/protocol/enums.rs
index e756585..b40f3e8 100644
--- a/cli/src/protocol/enums.rs
+++ b/cli/src/protocol/enums.rs
@@ -23,11 +23,8 @@ impl EnumItem {
                 stop!("Fail to get primitive type {}", first);
             }
         } else {
-            let path = if let Some(path) = store.find_by_path(own_group_id, &self.type_path) {
-                // Has been found in own group
-                path
-            } else if let Some(path) = store.find_by_path(0, &self.type_path) {
-                // Has been found in root group
+            let path = if let Some(path) = store.resolve_path(own_group_id, &self.type_path) {
+                // Has been found in own group or in one of parent groups
                 path
             } else {
                 stop!("Fail to find type: {}", self.type_path.join("."));
diff --git a/cli/src/protocol/fields.rs b/cli/src/protocol/fields.rs
index e99c12b..81d1949 100644
--- a/cli/src/protocol/fields.rs
+++ b/cli/src/protocol/fields.rs
@@ -104,11 +104,8 @@ impl Field {
         if self.type_path.len() == 1 && PrimitiveTypes::get_entity(&first).is_some() {
             self.kind = first;
         } else {
-            let path = if let Some(path) = store.find_by_path(own_group_id, &self.type_path) {
-                // Has been found in own group
-                path
-            } else if let Some(path) = store.find_by_path(0, &self.type_path) {
-                // Has been found in root group
+            let path = if let Some(path) = store.resolve_path(own_group_id, &self.type_path) {
+                // Has been found in own group or in one of parent groups
                 path
             } else {
                 stop!("Fail to find type: {}", self.type_path.join("."));
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 1b1815e..9023773 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -229,6 +229,7 @@ impl Store {
             } else if let Some(group_ref) = self
                 .groups
                 .iter()
+                .chain(self.c_group.iter())
                 .find(|i| i.name == *type_str && i.parent == parent)
             {
                 results.push((String::from(type_str), group_ref.id));
@@ -240,6 +241,41 @@ impl Store {
         Some(results)
     }
 
+    /// Resolves a type reference used inside of group "from". Names are looked up in own group, then in all
+    /// parent groups up to the root - exactly like it will be done in a generated code. First part of a path
+    /// (name of group) is attached to the closest level, which has such group.
+    pub fn resolve_path(&self, from: usize, path: &[String]) -> Option<Vec<(String, usize)>> {
+        let is_path = path.len() > 1;
+        let mut level: usize = from;
+        loop {
+            if is_path {
+                if self.has_child_group(level, &path[0]) {
+                    return self.find_by_path(level, path);
+                }
+            } else if let Some(found) = self.find_by_path(level, path) {
+                return Some(found);
+            }
+            if level == 0 {
+                return None;
+            }
+            level = self.get_group_with_opened(level)?.parent;
+        }
+    }
+
+    fn has_child_group(&self, parent: usize, name: &str) -> bool {
+        self.groups
+            .iter()
+            .chain(self.c_group.iter())
+            .any(|i| i.name == name && i.parent == parent)
+    }
+
+    fn get_group_with_opened(&self, id: usize) -> Option<&Group> {
+        self.groups
+            .iter()
+            .chain(self.c_group.iter())
+            .find(|i| i.id == id)
+    }
+
     pub fn get_struct_by_str_path(&self, from: usize, path: &str) -> Option<&Struct> {
         let path: Vec<String> = path
             .split('.')
-- 
2.43.0


From bffe65d0f9767d6c666719100d81d32085cd27d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 02/54] fix: optional enum fields with a path or repeated in
 Rust output

---
 cli/src/protocol/render/rust/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 54554e5..5e9973d 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -97,7 +97,7 @@ impl RustRender {
         for field in &strct.fields {
             if field.optional {
                 if let Some(id) = field.ref_type_id {
-                    if let Some(enums) = store.get_enum(id) {
+                    if store.get_enum(id).is_some() {
                         body = format!(
                             "{}{}if let Some(buf) = storage.get({}) {{\n",
                             body,
@@ -112,7 +112,7 @@ impl RustRender {
                             field.name
                         );
                         body = format!("{}{}}} else {{\n", body, self.spaces(level + 3));
-                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, enums.name, field.id);
+                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, self.get_decode_value_type_ref(field), field.id);
                         body = format!("{}{}Ok(val) => Some(val),\n", body, self.spaces(level + 5));
                         body = format!(
                             "{}{}Err(e) => {{ return Err(e) }},\n",
@@ -536,11 +536,18 @@ impl RustRender {
         }
     }
 
-    fn get_decode_type_ref(&self, field: &Field) -> String {
-        let mut type_str = self.get_type_ref(field);
+    /// Type of a value of the field without considering of optional flag
+    fn get_decode_value_type_ref(&self, field: &Field) -> String {
+        let type_str = self.get_type_ref(field);
         if field.repeated {
-            type_str = format!("Vec::<{}>", type_str);
+            format!("Vec::<{}>", type_str)
+        } else {
+            type_str
         }
+    }
+
+    fn get_decode_type_ref(&self, field: &Field) -> String {
+        let mut type_str = self.get_decode_value_type_ref(field);
         if field.optional {
             type_str = format!("Option::<{}>", type_str);
         }
-- 
2.43.0


From ef6f36f9684faa2ba38e321e78427971bd0eefff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 03/54] fix: enum option with an empty payload cannot be
 decoded in Rust

---
 cli/src/protocol/render/rust/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 5e9973d..e87b66a 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -304,7 +304,7 @@ impl RustRender {
             enums.name
         );
         body = format!(
-            "{}{}if buf.len() <= sizes::U16_LEN {{\n",
+            "{}{}if buf.len() < sizes::U16_LEN {{\n",
             body,
             self.spaces(level + 2)
         );
-- 
2.43.0


From d8e82da2ca12447549221a350726beeecb6b3553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 04/54] fix: check bounds of fields, items and package body
 before reading in Rust decoders

---
 .../render/rust/static/protocol.decode.rs     |  6 +-
 .../render/rust/static/protocol.packing.rs    |  6 +-
 .../render/rust/static/protocol.storage.rs    | 60 ++++++++++++-------
 3 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.decode.rs b/cli/src/protocol/render/rust/static/protocol.decode.rs
index 3d2ad78..a998870 100644
--- a/cli/src/protocol/render/rust/static/protocol.decode.rs
+++ b/cli/src/protocol/render/rust/static/protocol.decode.rs
@@ -92,7 +92,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
@@ -570,7 +570,7 @@ impl Decode<Vec<String>> for Vec<String> {
                     return Err(format!("To extract length of string (u32) value from array buffer should have length at least {} bytes, but length is {}", sizes::U32_LEN, buf.len()));
                 }
                 let item_len: u32 = cursor.get_u32_le();
-                if buffer.len() < sizes::U32_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U32_LEN) as u64) < item_len as u64 {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U32_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
@@ -606,7 +606,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
diff --git a/cli/src/protocol/render/rust/static/protocol.packing.rs b/cli/src/protocol/render/rust/static/protocol.packing.rs
index f29a44e..0696f26 100644
--- a/cli/src/protocol/render/rust/static/protocol.packing.rs
+++ b/cli/src/protocol/render/rust/static/protocol.packing.rs
@@ -98,7 +98,7 @@ pub fn get_header_from_buffer(buf: &[u8]) -> Result<PackageHeader, String> {
 }
 
 pub fn has_buffer_body(buf: &[u8], header: &PackageHeader) -> bool {
-    buf.len() >= header.len_usize + MSG_HEADER_LEN
+    has_buffer_header(buf) && buf.len() - MSG_HEADER_LEN >= header.len_usize
 }
 
 pub fn get_body_from_buffer(
@@ -106,8 +106,8 @@ pub fn get_body_from_buffer(
     header: &PackageHeader,
     uuid: Option<String>,
 ) -> Result<(Vec<u8>, Vec<u8>), String> {
-    if buf.len() < header.len_usize + MSG_HEADER_LEN {
-        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len() - MSG_HEADER_LEN));
+    if !has_buffer_body(buf, header) {
+        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len()));
     }
     // Get body
     let mut body = vec![0; header.len_usize];
diff --git a/cli/src/protocol/render/rust/static/protocol.storage.rs b/cli/src/protocol/render/rust/static/protocol.storage.rs
index 20fb0fe..21b7aa2 100644
--- a/cli/src/protocol/render/rust/static/protocol.storage.rs
+++ b/cli/src/protocol/render/rust/static/protocol.storage.rs
@@ -43,29 +43,33 @@ impl Storage {
     }
 
     fn id(buf: &[u8], pos: usize) -> Result<(u16, usize), String> {
-        let mut cursor: Cursor<&[u8]> = Cursor::new(buf);
-        if let Ok(pos) = u64::try_from(pos) {
-            cursor.set_position(pos);
-        } else {
-            return Err("Fail to set cursor position".to_string());
-        }
+        let mut cursor = Storage::cursor(buf, pos, sizes::U16_LEN)?;
         let id = cursor.get_u16_le();
         Ok((id, pos + sizes::U16_LEN))
     }
 
-    fn body(buf: &[u8], pos: usize) -> Result<(Vec<u8>, usize), String> {
-        let mut cursor: Cursor<&[u8]> = Cursor::new(buf);
-        if let Ok(pos) = u64::try_from(pos) {
-            cursor.set_position(pos);
-        } else {
-            return Err("Fail to set cursor position".to_string());
+    /// Returns cursor on given position if at least "required" bytes are available there
+    fn cursor(buf: &[u8], pos: usize, required: usize) -> Result<Cursor<&[u8]>, String> {
+        match buf.get(pos..) {
+            Some(rest) if rest.len() >= required => Ok(Cursor::new(rest)),
+            _ => Err(format!(
+                "Cannot read {} byte(s) on position {}, because length of buffer is {}",
+                required,
+                pos,
+                buf.len()
+            )),
         }
-        let prop_body_len_rank = cursor.get_u8();
+    }
+
+    fn body(buf: &[u8], pos: usize) -> Result<(Vec<u8>, usize), String> {
+        let prop_body_len_rank = Storage::cursor(buf, pos, sizes::U8_LEN)?.get_u8();
         let prop_body_len_usize: usize;
         let prop_rank_len: usize = 1;
         let prop_size_len: usize;
+        let size_pos = pos + prop_rank_len;
         match prop_body_len_rank {
             8 => {
+                let mut cursor = Storage::cursor(buf, size_pos, sizes::U8_LEN)?;
                 if let Ok(val) = usize::try_from(cursor.get_u8()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U8_LEN;
@@ -74,6 +78,7 @@ impl Storage {
                 }
             }
             16 => {
+                let mut cursor = Storage::cursor(buf, size_pos, sizes::U16_LEN)?;
                 if let Ok(val) = usize::try_from(cursor.get_u16_le()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U16_LEN;
@@ -82,6 +87,7 @@ impl Storage {
                 }
             }
             32 => {
+                let mut cursor = Storage::cursor(buf, size_pos, sizes::U32_LEN)?;
                 if let Ok(val) = usize::try_from(cursor.get_u32_le()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U32_LEN;
@@ -90,6 +96,7 @@ impl Storage {
                 }
             }
             64 => {
+                let mut cursor = Storage::cursor(buf, size_pos, sizes::U64_LEN)?;
                 if let Ok(val) = usize::try_from(cursor.get_u64_le()) {
                     prop_body_len_usize = val;
                     prop_size_len = sizes::U64_LEN;
@@ -101,15 +108,24 @@ impl Storage {
                 return Err(format!("Unknown rank has been gotten: {}", v));
             }
         };
-        let mut prop_body_buf = vec![0; prop_body_len_usize];
-        prop_body_buf.copy_from_slice(
-            &buf[(pos + prop_rank_len + prop_size_len)
-                ..(pos + prop_rank_len + prop_size_len + prop_body_len_usize)],
-        );
-        Ok((
-            prop_body_buf,
-            pos + prop_rank_len + prop_size_len + prop_body_len_usize,
-        ))
+        let body_pos = size_pos + prop_size_len;
+        let body_end = match body_pos.checked_add(prop_body_len_usize) {
+            Some(end) => end,
+            None => {
+                return Err(format!(
+                    "Invalid length of property body: {}",
+                    prop_body_len_usize
+                ));
+            }
+        };
+        match buf.get(body_pos..body_end) {
+            Some(body) => Ok((body.to_vec(), body_end)),
+            None => Err(format!(
+                "Cannot extract property body, because expecting {} bytes, but length of buffer is {}",
+                prop_body_len_usize,
+                buf.len() - body_pos
+            )),
+        }
     }
 
     fn next(buf: &[u8], pos: usize) -> Result<(u16, Vec<u8>, usize), String> {
-- 
2.43.0


From ae56d6672092e688bf27c65c596cd2f06fda0dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 05/54] fix: keep present but empty optional values apart from
 absent ones in Rust

---
 cli/src/protocol/render/rust/mod.rs           |  9 ++++++--
 .../render/rust/static/protocol.decode.rs     |  7 ++++++-
 .../render/rust/static/protocol.storage.rs    | 21 +++++++++++++++++--
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index e87b66a..5c3a210 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -99,12 +99,17 @@ impl RustRender {
                 if let Some(id) = field.ref_type_id {
                     if store.get_enum(id).is_some() {
                         body = format!(
-                            "{}{}if let Some(buf) = storage.get({}) {{\n",
+                            "{}{}if storage.get({}).is_some() {{\n",
                             body,
                             self.spaces(level + 2),
                             field.id
                         );
-                        body = format!("{}{}if buf.is_empty() {{\n", body, self.spaces(level + 3));
+                        body = format!(
+                            "{}{}if storage.is_absent({}) {{\n",
+                            body,
+                            self.spaces(level + 3),
+                            field.id
+                        );
                         body = format!(
                             "{}{}self.{} = None;\n",
                             body,
diff --git a/cli/src/protocol/render/rust/static/protocol.decode.rs b/cli/src/protocol/render/rust/static/protocol.decode.rs
index a998870..2ad9df1 100644
--- a/cli/src/protocol/render/rust/static/protocol.decode.rs
+++ b/cli/src/protocol/render/rust/static/protocol.decode.rs
@@ -642,8 +642,13 @@ where
     T: Decode<T>,
 {
     fn get_from_storage(source: Source, id: Option<u16>) -> Result<Option<T>, String> {
+        let absent = match (&source, id) {
+            (Source::Storage(storage), Some(id)) => storage.is_absent(id),
+            (Source::Storage(_), None) => false,
+            (Source::Buffer(buf), _) => buf.is_empty(),
+        };
         if let Ok(buf) = Self::get_buf_from_source(source, id) {
-            if buf.is_empty() {
+            if absent {
                 Ok(None)
             } else {
                 match T::get_from_storage(Source::Buffer(buf), id) {
diff --git a/cli/src/protocol/render/rust/static/protocol.storage.rs b/cli/src/protocol/render/rust/static/protocol.storage.rs
index 21b7aa2..a1eafc0 100644
--- a/cli/src/protocol/render/rust/static/protocol.storage.rs
+++ b/cli/src/protocol/render/rust/static/protocol.storage.rs
@@ -8,12 +8,16 @@ use std::io::Cursor;
 #[derive(Debug, Clone)]
 pub struct Storage {
     map: HashMap<u16, Vec<u8>>,
+    absent: std::collections::HashSet<u16>,
 }
 
 #[allow(dead_code)]
 impl Storage {
     pub fn from(map: HashMap<u16, Vec<u8>>) -> Self {
-        Storage { map }
+        Storage {
+            map,
+            absent: std::collections::HashSet::new(),
+        }
     }
 
     pub fn new(buf: Vec<u8>) -> Result<Self, String> {
@@ -23,10 +27,18 @@ impl Storage {
         */
         let mut position: usize = 0;
         let mut map: HashMap<u16, Vec<u8>> = HashMap::new();
+        let mut absent = std::collections::HashSet::new();
         if !buf.is_empty() {
             loop {
                 match Storage::next(&buf, position) {
                     Ok((id, body, pos)) => {
+                        // Absent value is stored with U8 rank and zero length. Present, but empty
+                        // values (string, array, struct) have another rank.
+                        if body.is_empty() && buf[position + sizes::U16_LEN] == 8 {
+                            absent.insert(id);
+                        } else {
+                            absent.remove(&id);
+                        }
                         position = pos;
                         map.insert(id, body);
                         if pos == buf.len() {
@@ -39,7 +51,7 @@ impl Storage {
                 }
             }
         }
-        Ok(Storage { map })
+        Ok(Storage { map, absent })
     }
 
     fn id(buf: &[u8], pos: usize) -> Result<(u16, usize), String> {
@@ -138,6 +150,11 @@ impl Storage {
         }
     }
 
+    /// Returns true if there are no value for property (optional property without value)
+    pub fn is_absent(&self, id: u16) -> bool {
+        self.absent.contains(&id)
+    }
+
     pub fn get(&mut self, id: u16) -> Option<&Vec<u8>> {
         self.map.get(&id)
     }
-- 
2.43.0


From 7f3cfa8f80f0e59526e94881321727c0dd557d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 06/54] fix: a bad package does not hold back packages after it
 in Rust stream reader

---
 .../render/rust/static/protocol.buffer.rs     | 55 ++++++++++++-------
 .../render/rust/static/protocol.packing.rs    |  8 ++-
 2 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.buffer.rs b/cli/src/protocol/render/rust/static/protocol.buffer.rs
index 8e81a28..9ae3170 100644
--- a/cli/src/protocol/render/rust/static/protocol.buffer.rs
+++ b/cli/src/protocol/render/rust/static/protocol.buffer.rs
@@ -1,6 +1,9 @@
 use super::packing;
 use packing::PackageHeader;
-use packing::{get_body_from_buffer, get_header_from_buffer, has_buffer_body, has_buffer_header};
+use packing::{
+    get_body_from_buffer, get_header_from_buffer, get_rest_of_buffer, has_buffer_body,
+    has_buffer_header,
+};
 
 // injectable
 #[derive(Debug)]
@@ -60,37 +63,51 @@ where
     #[allow(clippy::ptr_arg)]
     pub fn chunk(&mut self, buf: &Vec<u8>, uuid: Option<String>) -> Result<(), ReadError> {
         // Add data into buffer
-        self.buffer.append(&mut buf.clone());
+        self.buffer.extend_from_slice(buf);
+        // Wrong message is reported, but it should not affect messages after
+        let mut result: Result<(), ReadError> = Ok(());
+        while let Some(outcome) = self.read(uuid.clone()) {
+            match outcome {
+                Ok(message) => self.queue.push(message),
+                Err(e) => {
+                    if result.is_ok() {
+                        result = Err(e);
+                    }
+                }
+            }
+        }
+        result
+    }
+
+    /// Reads next package from buffer. Returns None if there are no complete package.
+    fn read(&mut self, uuid: Option<String>) -> Option<Result<IncomeMessage<T>, ReadError>> {
         if !has_buffer_header(&self.buffer) {
-            return Ok(());
+            return None;
         }
         // Get header
         let header: PackageHeader = match get_header_from_buffer(&self.buffer) {
             Ok(v) => v,
             Err(e) => {
-                return Err(ReadError::Header(e));
+                // Border of package is unknown: nothing in buffer can be read
+                self.buffer.clear();
+                return Some(Err(ReadError::Header(e)));
             }
         };
         if !has_buffer_body(&self.buffer, &header) {
-            return Ok(());
+            return None;
         }
-        let (body, rest) = match get_body_from_buffer(&self.buffer, &header, uuid.clone()) {
-            Ok(v) => v,
+        // Package is complete and will be removed from buffer in any case
+        let rest = get_rest_of_buffer(&self.buffer, &header);
+        let package = std::mem::replace(&mut self.buffer, rest);
+        let body = match get_body_from_buffer(&package, &header, uuid) {
+            Ok((body, _rest)) => body,
             Err(e) => {
-                return Err(ReadError::Parsing(e));
+                return Some(Err(ReadError::Parsing(e)));
             }
         };
-        self.buffer = rest;
-        match Self::get_message(self, &header, &body) {
-            Ok(msg) => {
-                self.queue.push(IncomeMessage { header, msg });
-                if !self.buffer.is_empty() {
-                    self.chunk(&vec![], uuid)
-                } else {
-                    Ok(())
-                }
-            }
-            Err(e) => Err(e),
+        match self.get_message(&header, &body) {
+            Ok(msg) => Some(Ok(IncomeMessage { header, msg })),
+            Err(e) => Some(Err(e)),
         }
     }
 
diff --git a/cli/src/protocol/render/rust/static/protocol.packing.rs b/cli/src/protocol/render/rust/static/protocol.packing.rs
index 0696f26..7e4bfa0 100644
--- a/cli/src/protocol/render/rust/static/protocol.packing.rs
+++ b/cli/src/protocol/render/rust/static/protocol.packing.rs
@@ -101,6 +101,11 @@ pub fn has_buffer_body(buf: &[u8], header: &PackageHeader) -> bool {
     has_buffer_header(buf) && buf.len() - MSG_HEADER_LEN >= header.len_usize
 }
 
+/// Bytes after complete package
+pub fn get_rest_of_buffer(buf: &[u8], header: &PackageHeader) -> Vec<u8> {
+    buf[(MSG_HEADER_LEN + header.len_usize)..].to_vec()
+}
+
 pub fn get_body_from_buffer(
     buf: &[u8],
     header: &PackageHeader,
@@ -112,8 +117,7 @@ pub fn get_body_from_buffer(
     // Get body
     let mut body = vec![0; header.len_usize];
     body.copy_from_slice(&buf[MSG_HEADER_LEN..(MSG_HEADER_LEN + header.len_usize)]);
-    let mut rest = vec![0; buf.len() - MSG_HEADER_LEN - header.len_usize];
-    rest.copy_from_slice(&buf[(MSG_HEADER_LEN + header.len_usize)..]);
+    let rest = get_rest_of_buffer(buf, header);
     match PackingMiddleware::decode(body, header.id, header.sequence, uuid) {
         Ok(buffer) => Ok((buffer, rest)),
         Err(e) => Err(e),
-- 
2.43.0


From 46d87289f5c8b96c27f57e98437035f8175b6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 07/54] fix: default value of nested struct is addressed from
 the wrong module in Rust

---
 cli/src/protocol/render/rust/mod.rs | 37 ++++++++---------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 5c3a210..b10f1bf 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -84,7 +84,7 @@ impl RustRender {
                 "{}{}{}\n",
                 body,
                 self.spaces(level + 3),
-                self.field_default(field, &mut store.clone(), level + 3)
+                self.field_default(field, &mut store.clone())
             );
         }
         body = format!("{}{}}}\n", body, self.spaces(level + 2));
@@ -476,36 +476,19 @@ impl RustRender {
         }
     }
 
-    fn entity_default(&self, entity_id: usize, store: &mut Store, level: u8) -> String {
-        if let Some(strct) = store.get_struct(entity_id) {
-            let path = if !strct.path.is_empty() {
-                format!("{}::", strct.path.join("::"))
-            } else {
-                String::new()
-            };
-            let mut body = format!("{}{} {{\n", path, strct.name);
-            for field in &strct.fields {
-                body = format!(
-                    "{}{}{}\n",
-                    body,
-                    self.spaces(level),
-                    self.field_default(field, &mut store.clone(), level)
-                );
-            }
-            format!("{}{}}}", body, self.spaces(level - 1))
-        } else if let Some(enums) = store.get_enum(entity_id) {
-            let path = if !enums.path.is_empty() {
-                format!("{}::", enums.path.join("::"))
-            } else {
-                String::new()
-            };
-            format!("{}{}::Defaults", path, enums.name)
+    fn entity_default(&self, entity_id: usize, field: &Field, store: &mut Store) -> String {
+        // The name as it's written in the protocol: resolved by Rust in the same way as by the store
+        let name = field.get_full_name().join("::");
+        if store.get_struct(entity_id).is_some() {
+            format!("{}::defaults()", name)
+        } else if store.get_enum(entity_id).is_some() {
+            format!("{}::Defaults", name)
         } else {
             panic!("Fail to find a struct/enum id: {}", entity_id);
         }
     }
 
-    fn field_default(&self, field: &Field, store: &mut Store, level: u8) -> String {
+    fn field_default(&self, field: &Field, store: &mut Store) -> String {
         let mut body = format!("{}: ", field.name);
         if field.repeated && !field.optional {
             body = format!("{}vec![],", body);
@@ -517,7 +500,7 @@ impl RustRender {
             body = format!(
                 "{}{},",
                 body,
-                self.entity_default(struct_id, store, level + 1)
+                self.entity_default(struct_id, field, store)
             );
         }
         body
-- 
2.43.0


From cd42511d4b67fc4e7f3b7fd9b5bbc87d468c5d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 08/54] fix: field identifiers above 255 are read wrong in
 TypeScript

---
 .../render/typescript/static/protocol.convertor.storage.ts      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index cc74a1e..2b81038 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -37,7 +37,7 @@ export class Storage {
 
 	private _getId(buffer: Buffer, position: number): number | Error {
 		try {
-			return buffer.readUInt8(position);
+			return buffer.readUInt16LE(position);
 		} catch (err) {
 			return err instanceof Error
 				? err
-- 
2.43.0


From 127fba6e8e497300cc48aad12b9e10c7dec57151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 09/54] fix: truncated fields and items are accepted by
 TypeScript decoders

---
 .../typescript/static/protocol.convertor.storage.ts      | 7 +++++++
 .../render/typescript/static/protocol.convertor.ts       | 9 +++++++--
 .../static/protocol.primitives.array.string.utf8.ts      | 7 +++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index 2b81038..4700a30 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -105,6 +105,13 @@ export class Storage {
 					position += Primitives.u64.getSize();
 					break;
 			}
+			if (Number(length) > buffer.byteLength - position) {
+				return new Error(
+					`Invalid length of field (id=${id}): ${length} bytes, but only ${
+						buffer.byteLength - position
+					} bytes are available.`
+				);
+			}
 			const body = buffer.slice(position, position + Number(length));
 			position += Number(length);
 			return { id, body, position };
diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
index a20a8d7..723e8a6 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
@@ -177,13 +177,18 @@ export abstract class Convertor<T> {
 		}
 		let offset: number = 0;
 		do {
+			if (buffer.byteLength - offset < u64.getSize()) {
+				return new Error(
+					`Invalid size marker of ${this.getSignature()}/${this.getId()} in an array`
+				);
+			}
 			const len = buffer.readBigUInt64LE(offset);
-			if (isNaN(Number(len)) || !isFinite(Number(len))) {
+			offset += u64.getSize();
+			if (Number(len) > buffer.byteLength - offset) {
 				return new Error(
 					`Invalid length of ${this.getSignature()}/${this.getId()} in an array`
 				);
 			}
-			offset += u64.getSize();
 			const body = buffer.slice(offset, offset + Number(len));
 			const self = this.defaults();
 			if (typeof (self as any).decode !== "function") {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
index 497bcc3..839fc3a 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
@@ -61,11 +61,14 @@ export class ArrayStrUTF8 extends Primitive<string[]> {
 		}
 		let offset: number = 0;
 		do {
+			if (buffer.byteLength - offset < u32.getSize()) {
+				return new Error(`Invalid size marker of string in an array`);
+			}
 			const len = buffer.readUInt32LE(offset);
-			if (isNaN(len) || !isFinite(len)) {
+			offset += u32.getSize();
+			if (len > buffer.byteLength - offset) {
 				return new Error(`Invalid length of string in an array`);
 			}
-			offset += u32.getSize();
 			const body = buffer.slice(offset, offset + len);
 			const str = StrUTF8.decode(body);
 			if (str instanceof Error) {
-- 
2.43.0


From 38e1a11cc96be7becd96a03f953f43240f70168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 10/54] fix: TypeScript stream reader never returns after a
 foreign signature

---
 cli/src/protocol/render/typescript/static/packing.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/packing.ts b/cli/src/protocol/render/typescript/static/packing.ts
index a15edf5..79bda7b 100644
--- a/cli/src/protocol/render/typescript/static/packing.ts
+++ b/cli/src/protocol/render/typescript/static/packing.ts
@@ -84,10 +84,9 @@ export abstract class BufferReader<T> {
 						this._queue.push(msg);
 					}
 				}
-				this._buffer = this._buffer.slice(
-					MessageHeader.SIZE + header.len
-				);
 			}
+			// Package is complete and should be removed from buffer in any case
+			this._buffer = this._buffer.slice(MessageHeader.SIZE + header.len);
 		} while (true);
 		return errors.length > 0 ? errors : undefined;
 	}
-- 
2.43.0


From b2e2e8a0a1da45accddd1ba953382108b2a60ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 11/54] fix: unknown message or option is thrown instead of
 being reported in TypeScript

---
 cli/src/protocol/render/typescript/mod.rs     |  2 +-
 .../static/protocol.primitives.enum.ts        | 21 ++++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index e052e23..f9e40e3 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1670,7 +1670,7 @@ impl TypescriptRender {
             body = format!("{}{}return err instanceof Error ? err : {{ header: {{ id: header.id, sequence: header.sequence, timestamp: header.ts }}, msg: {{ {}}}, getRef: () => instance }};\n", body, self.spaces(4), self.get_available_entity(structs.parent, &structs.name, &mut store.clone()));
         }
         body = format!(
-            "{}{}default: throw new Error(`Unknown message id=${{header.id}}`);\n",
+            "{}{}default: return new Error(`Unknown message id=${{header.id}}`);\n",
             body,
             self.spaces(3)
         );
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
index 7ab80e9..183e226 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
@@ -88,15 +88,22 @@ export abstract class Enum<T> {
 
 	public decode(bytes: ArrayBufferLike): Error | undefined {
 		const buffer = Buffer.from(bytes);
-		const id: number = buffer.readUInt16LE();
-		const target: ISigned<any> = this.getOptionValue(id);
-		const error: Error | undefined = target.decode(
-			bytes.slice(u16.getSize(), buffer.byteLength)
-		);
-		if (error instanceof Error) {
-			return error;
+		if (buffer.byteLength < u16.getSize()) {
+			return new Error(
+				`Invalid size of enum. Expecting at least ${u16.getSize()} bytes, but size of buffer: ${
+					buffer.byteLength
+				} bytes.`
+			);
 		}
+		const id: number = buffer.readUInt16LE();
 		try {
+			const target: ISigned<any> = this.getOptionValue(id);
+			const error: Error | undefined = target.decode(
+				bytes.slice(u16.getSize(), buffer.byteLength)
+			);
+			if (error instanceof Error) {
+				return error;
+			}
 			this._value = new Option<any>(id, target);
 		} catch (e) {
 			return new Error(`Fail to decode due error: ${e}`);
-- 
2.43.0


From 8e8073dc9ab3fe838823fed5be5d52cfb8e978c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 12/54] fix: keep present but empty optional values apart from
 absent ones in TypeScript

---
 cli/src/protocol/render/typescript/mod.rs     |  4 ++--
 .../static/protocol.convertor.storage.ts      | 22 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index f9e40e3..30b10e8 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1123,10 +1123,10 @@ impl TypescriptRender {
             );
             body = format!("{}\n{}}}", body, self.spaces(level));
             body = format!(
-                "{}\n{}if ({}Buf.byteLength === 0) {{",
+                "{}\n{}if (storage.isAbsent({})) {{",
                 body,
                 self.spaces(level),
-                field.name
+                field.id
             );
             body = format!(
                 "{}\n{}this.{} = undefined;",
diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index 4700a30..58da5a1 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -6,11 +6,13 @@ import { ESize } from "./protocol.sizes";
 interface INext {
 	id: number;
 	body: ArrayBufferLike;
+	absent: boolean;
 	position: number;
 }
 
 export class Storage {
 	private _fields: Map<number, ArrayBufferLike> = new Map();
+	private _absent: Set<number> = new Set();
 
 	public read(bytes: ArrayBufferLike): Error | undefined {
 		const buffer = Buffer.from(bytes);
@@ -28,6 +30,11 @@ export class Storage {
 			}
 			position = field.position;
 			this._fields.set(field.id, field.body);
+			if (field.absent) {
+				this._absent.add(field.id);
+			} else {
+				this._absent.delete(field.id);
+			}
 		} while (true);
 	}
 
@@ -35,6 +42,14 @@ export class Storage {
 		return this._fields.get(id);
 	}
 
+	/**
+	 * Absent value is stored with u8 rank and zero length. Present, but empty
+	 * values (string, array, struct) have another rank.
+	 */
+	public isAbsent(id: number): boolean {
+		return this._absent.has(id);
+	}
+
 	private _getId(buffer: Buffer, position: number): number | Error {
 		try {
 			return buffer.readUInt16LE(position);
@@ -114,7 +129,12 @@ export class Storage {
 			}
 			const body = buffer.slice(position, position + Number(length));
 			position += Number(length);
-			return { id, body, position };
+			return {
+				id,
+				body,
+				absent: rank === ESize.u8 && body.byteLength === 0,
+				position,
+			};
 		} catch (err) {
 			return err instanceof Error
 				? err
-- 
2.43.0


From 26e9e1da7e3c5b91354eb66945ebfbe0d81806d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 13/54] fix: references to types of other groups in TypeScript
 output

---
 cli/src/protocol/render/typescript/mod.rs | 159 +++++++++++++---------
 1 file changed, 98 insertions(+), 61 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index 30b10e8..04628f1 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -90,7 +90,7 @@ impl TypescriptRender {
             "{}\n{}return {};",
             body,
             self.spaces(level + 2),
-            self.entity_default(strct.id, &mut store.clone(), level + 2)
+            self.entity_default(strct, &mut store.clone(), level + 2)
         );
         body = format!("{}\n{}}}\n", body, self.spaces(level + 1));
 
@@ -245,12 +245,12 @@ impl TypescriptRender {
                     self.etype(prim_type_ref, variant.repeated)
                 );
             } else if let Some(ref_type_id) = variant.ref_type_id {
-                if let Some(strct) = store.get_struct(ref_type_id) {
+                if store.get_struct(ref_type_id).is_some() {
                     body = format!(
                         "{}\n{}{}.getSignature(),",
                         body,
                         self.spaces(level),
-                        store.get_struct_path(strct.id).join(".")
+                        variant.type_path.join(".")
                     );
                 } else {
                     stop!(
@@ -279,13 +279,13 @@ impl TypescriptRender {
                     self.etype_def(prim_type_ref, variant.repeated)
                 );
             } else if let Some(ref_type_id) = variant.ref_type_id {
-                if let Some(strct) = store.get_struct(ref_type_id) {
+                if store.get_struct(ref_type_id).is_some() {
                     body = format!(
                         "{}\n{}case {}: return {}.defaults();",
                         body,
                         self.spaces(level + 1),
                         pos,
-                        store.get_struct_path(strct.id).join(".")
+                        variant.type_path.join(".")
                     );
                 } else {
                     stop!(
@@ -334,8 +334,8 @@ impl TypescriptRender {
             let types = if let Some(prim_type_ref) = variant.types.clone() {
                 self.etype_ts(prim_type_ref, variant.repeated)
             } else if let Some(ref_type_id) = variant.ref_type_id {
-                if let Some(strct) = store.get_struct(ref_type_id) {
-                    store.get_struct_path(strct.id).join(".")
+                if store.get_struct(ref_type_id).is_some() {
+                    variant.type_path.join(".")
                 } else {
                     stop!("Unknown type of data in scope of enum {} / {}, ref_type_id: {}. Failed to find a struct. ", enums.name, variant.name, ref_type_id);
                 }
@@ -371,8 +371,8 @@ impl TypescriptRender {
             let types = if let Some(prim_type_ref) = variant.types.clone() {
                 self.etype_ts(prim_type_ref, variant.repeated)
             } else if let Some(ref_type_id) = variant.ref_type_id {
-                if let Some(strct) = store.get_struct(ref_type_id) {
-                    store.get_struct_path(strct.id).join(".")
+                if store.get_struct(ref_type_id).is_some() {
+                    variant.type_path.join(".")
                 } else {
                     stop!("Unknown type of data in scope of enum {} / {}, ref_type_id: {}. Failed to find a struct. ", enums.name, variant.name, ref_type_id);
                 }
@@ -416,14 +416,14 @@ impl TypescriptRender {
         body = format!("{}{}}});", body, self.spaces(level + 1));
         for field in &strct.fields {
             if let Some(ref_type_id) = field.ref_type_id {
-                if let Some(enums) = store.get_enum(ref_type_id) {
+                if store.get_enum(ref_type_id).is_some() {
                     // -------
                     body = format!(
                         "{}\n{}this._{} = new {}()",
                         body,
                         self.spaces(level + 1),
                         field.name,
-                        enums.name,
+                        field.get_full_name().join("."),
                     );
                     body = format!(
                         "{}\n{}{}this._{}.set(this.{});",
@@ -588,8 +588,8 @@ impl TypescriptRender {
             let variant_type = if let Some(prim_type_ref) = variant.types.clone() {
                 self.etype_ts(prim_type_ref.clone(), variant.repeated)
             } else if let Some(ref_type_id) = variant.ref_type_id {
-                if let Some(strct) = store.get_struct(ref_type_id) {
-                    store.get_struct_path(strct.id).join(".")
+                if store.get_struct(ref_type_id).is_some() {
+                    variant.type_path.join(".")
                 } else {
                     stop!(
                         "Unknown type of data in scope of enum {} / {}, ref_type_id: {}",
@@ -660,6 +660,18 @@ impl TypescriptRender {
             self.spaces(level + 1),
             enums.id
         );
+        body = format!(
+            "{}{}public static getOptionsScheme(): Protocol.IPropScheme[] {{\n",
+            body,
+            self.spaces(level + 1),
+        );
+        body = format!(
+            "{}{}return {};\n",
+            body,
+            self.spaces(level + 2),
+            self.enum_map(enums, store, level + 2)
+        );
+        body = format!("{}{}}}\n", body, self.spaces(level + 1));
         body = format!(
             "{}{}public from(obj: any): I{} | Error {{\n",
             body,
@@ -1014,18 +1026,24 @@ impl TypescriptRender {
         .to_string()
     }
 
-    fn entity_default(&self, entity_id: usize, store: &mut Store, level: u8) -> String {
-        if let Some(strct) = store.get_struct(entity_id) {
-            let mut body = format!("new {}({{", store.get_struct_path(entity_id).join("."));
-            for field in &strct.fields {
-                body = format!(
-                    "{}\n{}{},",
-                    body,
-                    self.spaces(level + 1),
-                    self.field_default(field, &mut store.clone(), level)
-                );
-            }
-            format!("{}\n{}}})", body, self.spaces(level))
+    fn entity_default(&self, strct: &Struct, store: &mut Store, level: u8) -> String {
+        let mut body = format!("new {}({{", strct.name);
+        for field in &strct.fields {
+            body = format!(
+                "{}\n{}{},",
+                body,
+                self.spaces(level + 1),
+                self.field_default(field, &mut store.clone())
+            );
+        }
+        format!("{}\n{}}})", body, self.spaces(level))
+    }
+
+    /// Default value of the type, to which the field refers. Type is addressed in the same way as
+    /// in the protocol: TypeScript looks for namespaces in the same way as the store.
+    fn ref_default(&self, field: &Field, entity_id: usize, store: &mut Store) -> String {
+        if store.get_struct(entity_id).is_some() {
+            format!("{}.defaults()", field.get_full_name().join("."))
         } else if store.get_enum(entity_id).is_some() {
             "{}".to_string()
         } else {
@@ -1033,7 +1051,7 @@ impl TypescriptRender {
         }
     }
 
-    fn field_default(&self, field: &Field, store: &mut Store, level: u8) -> String {
+    fn field_default(&self, field: &Field, store: &mut Store) -> String {
         let mut body = format!("{}: ", field.name);
         if field.optional {
             body = format!("{}undefined", body);
@@ -1042,50 +1060,65 @@ impl TypescriptRender {
         } else if let Some(default_value) = self.type_default_value(&field.kind) {
             body = format!("{}{}", body, default_value);
         } else if let Some(struct_id) = field.ref_type_id {
-            body = format!(
-                "{}{}",
-                body,
-                self.entity_default(struct_id, store, level + 1)
-            );
+            body = format!("{}{}", body, self.ref_default(field, struct_id, store));
         }
         body
     }
 
+    fn enum_map(&self, enums: &Enum, store: &mut Store, level: u8) -> String {
+        let mut body = String::from("[");
+        for variant in &enums.variants {
+            if let Some(struct_id) = variant.ref_type_id {
+                if store.get_struct(struct_id).is_some() {
+                    body = format!(
+                        "{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: false }},",
+                        body,
+                        self.spaces(level + 1),
+                        variant.name,
+                        variant.type_path.join("."),
+                        if variant.repeated { "true" } else { "false" }
+                    );
+                } else {
+                    stop!("Nested enums aren't supported.");
+                }
+            } else if let Some(etype) = variant.types.clone() {
+                body = format!(
+                    "{}\n{}{{ prop: '{}', types: Protocol.Primitives.{}, optional: false, }},",
+                    body,
+                    self.spaces(level + 1),
+                    variant.name,
+                    self.etype(etype, variant.repeated)
+                );
+            } else {
+                stop!("Incorrect option definition for enum {}", enums.name);
+            }
+        }
+        format!("{}\n{}]", body, self.spaces(level))
+    }
+
     fn get_field_map_def(&self, field: &Field, store: &mut Store, level: u8) -> String {
         let mut body: String = String::from("");
         if let Some(entity_id) = field.ref_type_id {
-            if let Some(strct) = store.get_struct(entity_id) {
+            // Getters are used, because type can be declared later
+            if store.get_struct(entity_id).is_some() {
                 body = format!(
-                    "{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: {} }},",
+                    "{}\n{}{{ prop: '{}', get types() {{ return {}.getValidator({}); }}, optional: {} }},",
                     body,
                     self.spaces(level),
                     field.name,
-                    store.get_struct_path(strct.id).join("."),
+                    field.get_full_name().join("."),
                     if field.repeated { "true" } else { "false" },
                     if field.optional { "true" } else { "false" }
                 );
-            } else if let Some(enums) = store.get_enum(entity_id) {
+            } else if store.get_enum(entity_id).is_some() {
                 body = format!(
-                    "{}\n{}{{ prop: '{}', optional: {}, options: [",
+                    "{}\n{}{{ prop: '{}', get options() {{ return {}.getOptionsScheme(); }}, optional: {} }},",
                     body,
                     self.spaces(level),
                     field.name,
+                    field.get_full_name().join("."),
                     if field.optional { "true" } else { "false" }
                 );
-                for variant in &enums.variants {
-                    if let Some(struct_id) = variant.ref_type_id {
-                        if let Some(strct) = store.get_struct(struct_id) {
-                            body = format!("{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: false }},", body, self.spaces(level + 1), variant.name, strct.name, if variant.repeated { "true" } else { "false" });
-                        } else {
-                            stop!("Nested enums aren't supported.");
-                        }
-                    } else if let Some(etype) = variant.types.clone() {
-                        body = format!("{}\n{}{{ prop: '{}', types: Protocol.Primitives.{}, optional: false, }},", body, self.spaces(level + 1), variant.name, self.etype(etype, variant.repeated));
-                    } else {
-                        stop!("Incorrect option definition for enum {}", enums.name);
-                    }
-                }
-                body = format!("{}\n{}] }},", body, self.spaces(level));
             }
         } else {
             body = format!(
@@ -1150,16 +1183,16 @@ impl TypescriptRender {
     fn get_field_decode(&self, field: &Field, store: &mut Store, level: u8) -> String {
         let mut body: String;
         if let Some(entity_id) = field.ref_type_id {
-            if let Some(strct) = store.get_struct(entity_id) {
+            if store.get_struct(entity_id).is_some() {
                 if field.repeated {
                     body = format!(
                         "{}const arr{}Inst: {} = {}.defaults();",
                         self.spaces(level),
                         field.name,
-                        store.get_struct_path(strct.id).join("."),
-                        store.get_struct_path(strct.id).join(".")
+                        field.get_full_name().join("."),
+                        field.get_full_name().join(".")
                     );
-                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, strct.name, field.id, field.name, field.name);
+                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, field.get_full_name().join("."), field.id, field.name, field.name);
                     body = format!(
                         "{}\n{}if (arr{} instanceof Error) {{",
                         body,
@@ -1179,7 +1212,7 @@ impl TypescriptRender {
                         self.spaces(level + 1),
                         field.name,
                         field.name,
-                        store.get_struct_path(strct.id).join(".")
+                        field.get_full_name().join(".")
                     );
                     body = format!("{}\n{}}}", body, self.spaces(level));
                 } else {
@@ -1188,7 +1221,7 @@ impl TypescriptRender {
                         self.spaces(level),
                         field.name,
                         field.get_full_name().join("."),
-                        self.entity_default(entity_id, &mut store.clone(), level)
+                        self.ref_default(field, entity_id, store)
                     );
                     body = format!(
                         "{}\n{}const {}Buf: ArrayBufferLike | undefined = storage.get({});",
@@ -1342,9 +1375,10 @@ impl TypescriptRender {
             } else {
                 format!("")
             };
-            if let Some(strct) = store.get_struct(entity_id) {
+            if store.get_struct(entity_id).is_some() {
                 if field.repeated {
-                    body = format!("() => {{{} const self: {} = {}.defaults(); return this.getBufferFromBuf<{}[]>({}, Protocol.ESize.u64, self.encodeSelfArray.bind(self), this.{}); }}", optional, strct.name, strct.name, strct.name, field.id, field.name);
+                    let type_ref = field.get_full_name().join(".");
+                    body = format!("() => {{{} const self: {} = {}.defaults(); return this.getBufferFromBuf<{}[]>({}, Protocol.ESize.u64, self.encodeSelfArray.bind(self), this.{}); }}", optional, type_ref, type_ref, type_ref, field.id, field.name);
                 } else {
                     body = format!("() => {{{} const buffer = this.{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
                 }
@@ -1428,10 +1462,13 @@ impl TypescriptRender {
             "str" => String::from("string"),
             _ => {
                 if let Some(ref_type_id) = field.ref_type_id {
+                    let mut path = field.get_full_name();
                     if store.get_struct(ref_type_id).is_some() {
-                        store.get_struct_path(ref_type_id).join(".")
-                    } else if let Some(enums) = store.get_enum(ref_type_id) {
-                        format!("I{}", enums.name)
+                        path.join(".")
+                    } else if store.get_enum(ref_type_id).is_some() {
+                        let name = path.pop().unwrap_or_default();
+                        path.push(format!("I{}", name));
+                        path.join(".")
                     } else {
                         stop!(
                             "Fail to find a struct/enum id: {} for field {}",
-- 
2.43.0


From 5f1107b09e787f55e7ba5a1815161008453a3bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 14/54] fix: enum fields in TypeScript are encoded from their
 current values and can be repeated

---
 cli/src/protocol/render/typescript/mod.rs     | 139 +++++++-----------
 .../static/protocol.primitives.enum.ts        |  71 +++++++++
 .../typescript/static/protocol.validator.ts   |  91 +++++++-----
 3 files changed, 182 insertions(+), 119 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index 04628f1..56de5b0 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -111,18 +111,6 @@ impl TypescriptRender {
             );
         }
 
-        for field in &strct.fields {
-            if let Some(ref_type_id) = field.ref_type_id {
-                if store.get_enum(ref_type_id).is_some() {
-                    body = format!(
-                        "{}\n{}{}",
-                        body,
-                        self.spaces(level + 1),
-                        format!("private _{}: Primitives.Enum;", field.name,),
-                    );
-                }
-            }
-        }
         body = format!("{}\n", body);
         body = format!(
             "{}{}public static getSignature(): string {{ return '{}'; }}\n",
@@ -140,7 +128,7 @@ impl TypescriptRender {
         body = format!(
             "{}\n{}",
             body,
-            self.struct_constructor(strct, &mut store.clone(), level + 1)
+            self.struct_constructor(strct, level + 1)
         );
         body = format!("{}\n", body);
         body = format!(
@@ -396,7 +384,7 @@ impl TypescriptRender {
         body
     }
 
-    fn struct_constructor(&self, strct: &Struct, store: &mut Store, level: u8) -> String {
+    fn struct_constructor(&self, strct: &Struct, level: u8) -> String {
         let mut body = format!(
             "{}constructor(params: I{})  {{\n",
             self.spaces(level),
@@ -414,32 +402,6 @@ impl TypescriptRender {
             self.spaces(level + 2)
         );
         body = format!("{}{}}});", body, self.spaces(level + 1));
-        for field in &strct.fields {
-            if let Some(ref_type_id) = field.ref_type_id {
-                if store.get_enum(ref_type_id).is_some() {
-                    // -------
-                    body = format!(
-                        "{}\n{}this._{} = new {}()",
-                        body,
-                        self.spaces(level + 1),
-                        field.name,
-                        field.get_full_name().join("."),
-                    );
-                    body = format!(
-                        "{}\n{}{}this._{}.set(this.{});",
-                        body,
-                        self.spaces(level + 1),
-                        if field.optional {
-                            format!("this.{} !== undefined && ", field.name)
-                        } else {
-                            "".to_string()
-                        },
-                        field.name,
-                        field.name,
-                    );
-                }
-            }
-        }
         body = format!("{}\n{}}}\n", body, self.spaces(level));
         body
     }
@@ -672,6 +634,34 @@ impl TypescriptRender {
             self.enum_map(enums, store, level + 2)
         );
         body = format!("{}{}}}\n", body, self.spaces(level + 1));
+        for (method, input, output, call) in &[
+            ("encodeValue", "value: I{}", "ArrayBufferLike | Error", "encodeEnum"),
+            ("decodeValue", "bytes: ArrayBufferLike", "I{} | Error", "decodeEnum"),
+            (
+                "encodeValues",
+                "values: Array<I{}>",
+                "ArrayBufferLike | Error",
+                "encodeEnums",
+            ),
+            (
+                "decodeValues",
+                "bytes: ArrayBufferLike",
+                "Array<I{}> | Error",
+                "decodeEnums",
+            ),
+        ] {
+            body = format!(
+                "{}{}public static {}({}): {} | Error {{ return Protocol.Primitives.Enum.{}(() => new {}(), {}); }}\n",
+                body,
+                self.spaces(level + 1),
+                method,
+                input.replace("{}", &enums.name),
+                output.replace("{}", &enums.name),
+                call,
+                enums.name,
+                input.split(':').next().unwrap_or_default(),
+            );
+        }
         body = format!(
             "{}{}public from(obj: any): I{} | Error {{\n",
             body,
@@ -1112,12 +1102,13 @@ impl TypescriptRender {
                 );
             } else if store.get_enum(entity_id).is_some() {
                 body = format!(
-                    "{}\n{}{{ prop: '{}', get options() {{ return {}.getOptionsScheme(); }}, optional: {} }},",
+                    "{}\n{}{{ prop: '{}', get options() {{ return {}.getOptionsScheme(); }}, optional: {}, repeated: {} }},",
                     body,
                     self.spaces(level),
                     field.name,
                     field.get_full_name().join("."),
-                    if field.optional { "true" } else { "false" }
+                    if field.optional { "true" } else { "false" },
+                    if field.repeated { "true" } else { "false" }
                 );
             }
         } else {
@@ -1275,63 +1266,40 @@ impl TypescriptRender {
                     );
                     body = format!("{}\n{}}}", body, self.spaces(level));
                 }
-            } else if let Some(_enums) = store.get_enum(entity_id) {
-                body = format!("{}this.{} = {{}};", self.spaces(level), field.name);
+            } else if store.get_enum(entity_id).is_some() {
+                let mut type_str = self.get_type_ref(field, &mut store.clone());
+                if field.repeated {
+                    type_str = format!("Array<{}>", type_str);
+                }
                 body = format!(
-                    "{}\n{}const {}Buf: ArrayBufferLike | undefined = storage.get({});",
-                    body,
+                    "{}const {}: {} | Error = this.getValue<{}>(storage, {}, {}.{});",
                     self.spaces(level),
                     field.name,
-                    field.id
-                );
-                body = format!(
-                    "{}\n{}if ({}Buf === undefined) {{",
-                    body,
-                    self.spaces(level),
-                    field.name
-                );
-                body = format!(
-                    "{}\n{}return new Error(`Fail to get property \"{}\"`);",
-                    body,
-                    self.spaces(level + 1),
-                    field.name
+                    type_str,
+                    type_str,
+                    field.id,
+                    field.get_full_name().join("."),
+                    if field.repeated {
+                        "decodeValues"
+                    } else {
+                        "decodeValue"
+                    }
                 );
-                body = format!("{}\n{}}}", body, self.spaces(level));
                 body = format!(
-                    "{}\n{}if ({}Buf.byteLength > 0) {{",
+                    "{}\n{}if ({} instanceof Error) {{",
                     body,
                     self.spaces(level),
                     field.name
                 );
+                body = format!("{}\n{}return {};", body, self.spaces(level + 1), field.name);
+                body = format!("{}\n{}}} else {{", body, self.spaces(level));
                 body = format!(
-                    "{}\n{}const {}Err: Error | undefined = this._{}.decode({}Buf);",
+                    "{}\n{}this.{} = {};",
                     body,
                     self.spaces(level + 1),
                     field.name,
-                    field.name,
-                    field.name
-                );
-                body = format!(
-                    "{}\n{}if ({}Err instanceof Error) {{",
-                    body,
-                    self.spaces(level + 1),
-                    field.name
-                );
-                body = format!(
-                    "{}\n{}return {}Err;",
-                    body,
-                    self.spaces(level + 2),
-                    field.name
-                );
-                body = format!("{}\n{}}} else {{", body, self.spaces(level + 1));
-                body = format!(
-                    "{}\n{}this.{} = this._{}.get();",
-                    body,
-                    self.spaces(level + 2),
-                    field.name,
                     field.name
                 );
-                body = format!("{}\n{}}}", body, self.spaces(level + 1));
                 body = format!("{}\n{}}}", body, self.spaces(level));
             } else {
                 stop!(
@@ -1383,7 +1351,8 @@ impl TypescriptRender {
                     body = format!("() => {{{} const buffer = this.{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
                 }
             } else if store.get_enum(entity_id).is_some() {
-                body = format!("() => {{{} const buffer = this._{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
+                let type_ref = field.get_full_name().join(".");
+                body = format!("() => {{{} return this.getBufferFromBuf<{}>({}, Protocol.ESize.u64, {}.{}, this.{}); }}", optional, self.get_declare_type_ref(field, &mut store.clone()), field.id, type_ref, if field.repeated { "encodeValues" } else { "encodeValue" }, field.name);
             } else {
                 stop!(
                     "Fail to find a type by ref {} for field {}",
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
index 183e226..ff08970 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
@@ -5,6 +5,7 @@ import * as Primitives from "./protocol.primitives";
 
 import { ISigned } from "./protocol.primitives.interface";
 import { u16 } from "./protocol.primitives.u16";
+import { u64 } from "./protocol.primitives.u64";
 import { getPackingMiddleware, PackingMiddleware } from "./packing.middleware";
 
 // injectable
@@ -43,6 +44,76 @@ export class Option<T> {
 }
 
 export abstract class Enum<T> {
+	public static encodeEnum<T>(
+		getInstance: () => Enum<T>,
+		value: T
+	): ArrayBufferLike | Error {
+		const instance = getInstance();
+		const error: Error | undefined = instance.set(value);
+		return error instanceof Error ? error : instance.encode();
+	}
+
+	public static decodeEnum<T>(
+		getInstance: () => Enum<T>,
+		bytes: ArrayBufferLike
+	): T | Error {
+		if (bytes.byteLength === 0) {
+			return {} as T;
+		}
+		const instance = getInstance();
+		const error: Error | undefined = instance.decode(bytes);
+		return error instanceof Error ? error : instance.get();
+	}
+
+	public static encodeEnums<T>(
+		getInstance: () => Enum<T>,
+		values: T[]
+	): ArrayBufferLike | Error {
+		const buffers: ArrayBufferLike[] = [];
+		for (const value of values) {
+			const body = Enum.encodeEnum(getInstance, value);
+			if (body instanceof Error) {
+				return body;
+			}
+			const len = u64.encode(BigInt(body.byteLength));
+			if (len instanceof Error) {
+				return len;
+			}
+			buffers.push(len);
+			buffers.push(body);
+		}
+		return Tools.append(buffers);
+	}
+
+	public static decodeEnums<T>(
+		getInstance: () => Enum<T>,
+		bytes: ArrayBufferLike
+	): T[] | Error {
+		const buffer = Buffer.from(bytes);
+		const values: T[] = [];
+		let offset: number = 0;
+		while (offset < buffer.byteLength) {
+			if (buffer.byteLength - offset < u64.getSize()) {
+				return new Error(`Invalid size marker of enum in an array`);
+			}
+			const len = Number(buffer.readBigUInt64LE(offset));
+			offset += u64.getSize();
+			if (len > buffer.byteLength - offset) {
+				return new Error(`Invalid length of enum in an array`);
+			}
+			const value = Enum.decodeEnum(
+				getInstance,
+				buffer.slice(offset, offset + len)
+			);
+			if (value instanceof Error) {
+				return value;
+			}
+			values.push(value);
+			offset += len;
+		}
+		return values;
+	}
+
 	private _value: Option<any> | undefined;
 
 	public setValue(opt: Option<any>): Error | undefined {
diff --git a/cli/src/protocol/render/typescript/static/protocol.validator.ts b/cli/src/protocol/render/typescript/static/protocol.validator.ts
index 8d8e068..ea0586e 100644
--- a/cli/src/protocol/render/typescript/static/protocol.validator.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.validator.ts
@@ -8,6 +8,46 @@ export interface IPropScheme {
 	optional?: boolean;
 	types?: Required<IValidator>;
 	options?: IPropScheme[];
+	repeated?: boolean;
+}
+
+function validateEnum(
+	target: any,
+	name: string,
+	scheme: IPropScheme[]
+): string | undefined {
+	if (typeof target !== "object" || target === null) {
+		return `Property "${name}" should be an object, because it's enum`;
+	}
+	const options: string[] = [];
+	try {
+		scheme.forEach((prop: IPropScheme) => {
+			if (prop.types === undefined) {
+				throw new Error(
+					`Invalid option description for option "${prop.prop}" of option "${name}"`
+				);
+			}
+			if (target[prop.prop] !== undefined) {
+				options.push(prop.prop);
+				const err: Error | undefined = prop.types.validate(
+					target[prop.prop]
+				);
+				if (err instanceof Error) {
+					throw new Error(
+						`Fail to validate option "${prop.prop}" of option "${name}" due: ${err.message}`
+					);
+				}
+			}
+		});
+	} catch (err) {
+		return err instanceof Error ? err.message : `Unknown error: ${err}`;
+	}
+	if (options.length > 1) {
+		return `Enum should have only one definition or nothing. Found values for: ${options.join(
+			", "
+		)}`;
+	}
+	return undefined;
 }
 
 export function validate(obj: any, scheme: IPropScheme[]): Error | undefined {
@@ -29,42 +69,25 @@ export function validate(obj: any, scheme: IPropScheme[]): Error | undefined {
 					return undefined;
 				}
 			} else if (property.options instanceof Array) {
-				if (
-					typeof obj[property.prop] !== "object" ||
-					obj[property.prop] === null
-				) {
-					return `Property "${property.prop}" should be an object, because it's enum`;
+				if (!property.repeated) {
+					return validateEnum(
+						obj[property.prop],
+						property.prop,
+						property.options
+					);
 				}
-				const target: any = obj[property.prop];
-				const options: string[] = [];
-				try {
-					property.options.forEach((prop: IPropScheme) => {
-						if (prop.types === undefined) {
-							throw new Error(
-								`Invalid option description for option "${prop.prop}" of option "${property.prop}"`
-							);
-						}
-						if (target[prop.prop] !== undefined) {
-							options.push(prop.prop);
-							const err: Error | undefined = prop.types.validate(
-								target[prop.prop]
-							);
-							if (err instanceof Error) {
-								throw new Error(
-									`Fail to validate option "${prop.prop}" of option "${property.prop}" due: ${err.message}`
-								);
-							}
-						}
-					});
-				} catch (err) {
-					return err instanceof Error
-						? err.message
-						: `Unknown error: ${err}`;
+				if (!(obj[property.prop] instanceof Array)) {
+					return `Property "${property.prop}" should be an array of enums`;
 				}
-				if (options.length > 1) {
-					return `Enum should have only one definition or nothing. Found values for: ${options.join(
-						", "
-					)}`;
+				for (const item of obj[property.prop]) {
+					const err: string | undefined = validateEnum(
+						item,
+						property.prop,
+						property.options
+					);
+					if (err !== undefined) {
+						return err;
+					}
 				}
 				return undefined;
 			} else {
-- 
2.43.0


From 1d315553e21cdaca15495d122c95ca5651aef0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 15/54] fix: TypeScript validation of numbers and enums

---
 cli/src/protocol/render/typescript/mod.rs     | 19 ++++++++++++++++---
 .../static/protocol.primitives.enum.ts        |  4 ++++
 .../static/protocol.primitives.f32.ts         |  2 +-
 .../static/protocol.primitives.i16.ts         |  2 +-
 .../static/protocol.primitives.i32.ts         |  2 +-
 .../static/protocol.primitives.i64.ts         |  4 ++--
 .../static/protocol.primitives.i8.ts          |  2 +-
 .../static/protocol.primitives.u16.ts         |  2 +-
 .../static/protocol.primitives.u32.ts         |  2 +-
 .../static/protocol.primitives.u64.ts         |  4 ++--
 .../static/protocol.primitives.u8.ts          |  2 +-
 .../typescript/static/protocol.validator.ts   |  7 +++++++
 12 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index 56de5b0..50a8736 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -295,7 +295,7 @@ impl TypescriptRender {
     }
 
     fn enum_setter(&self, enums: &Enum, store: &mut Store, level: u8) -> String {
-        let mut body = format!("{}if (Object.keys(src).length > 1) {{", self.spaces(level),);
+        let mut body = format!("{}if (Object.keys(src).filter((key: string) => (src as any)[key] !== undefined).length > 1) {{", self.spaces(level),);
         body = format!(
             "{}\n{}return new Error(`Option cannot have more then 1 value.`);",
             body,
@@ -608,10 +608,23 @@ impl TypescriptRender {
             self.spaces(level + 3)
         );
         body = format!("{}{}}} else {{\n", body, self.spaces(level + 2));
-        body = format!("{}{}err = inst.set(obj);\n", body, self.spaces(level + 3));
+        body = format!(
+            "{}{}err = Protocol.validate({{ {}: obj }}, [{{ prop: '{}', options: {}.getOptionsScheme() }}]);\n",
+            body,
+            self.spaces(level + 3),
+            enums.name,
+            enums.name,
+            enums.name
+        );
+        body = format!("{}{}if (err === undefined) {{\n", body, self.spaces(level + 3));
+        body = format!("{}{}err = inst.set(obj);\n", body, self.spaces(level + 4));
+        body = format!("{}{}}}\n", body, self.spaces(level + 3));
+        body = format!("{}{}}}\n", body, self.spaces(level + 2));
+        body = format!("{}{}if (err instanceof Error) {{\n", body, self.spaces(level + 2));
+        body = format!("{}{}return err;\n", body, self.spaces(level + 3));
         body = format!("{}{}}}\n", body, self.spaces(level + 2));
         body = format!(
-            "{}{}return err instanceof Error ? err : inst.get();\n",
+            "{}{}return inst.isDefined() ? inst.get() : new Error(`Value of enum isn't defined.`);\n",
             body,
             self.spaces(level + 2)
         );
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
index ff08970..13ec526 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
@@ -135,6 +135,10 @@ export abstract class Enum<T> {
 		return this._value.get();
 	}
 
+	public isDefined(): boolean {
+		return this._value !== undefined;
+	}
+
 	public getValueIndex(): number {
 		if (this._value === undefined) {
 			throw new Error(`Value of enum isn't defined yet.`);
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.f32.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.f32.ts
index 90c536a..cfc8b73 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.f32.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.f32.ts
@@ -47,7 +47,7 @@ export class f32 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (isNaN(value) || !isFinite(Math.fround(value))) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		return undefined;
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.i16.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.i16.ts
index ba513ee..20555da 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.i16.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.i16.ts
@@ -50,7 +50,7 @@ export class i16 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (!Number.isInteger(value)) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		if (value < i16.MIN || value > i16.MAX) {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.i32.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.i32.ts
index 0ec6733..86619b6 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.i32.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.i32.ts
@@ -50,7 +50,7 @@ export class i32 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (!Number.isInteger(value)) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		if (value < i32.MIN || value > i32.MAX) {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts
index 3c1935f..7f4ced3 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts
@@ -5,8 +5,8 @@ import { CBits } from "./protocol.sizes";
 
 // injectable
 export class i64 extends Primitive<bigint> {
-	public static MIN: number = -Number.MAX_SAFE_INTEGER;
-	public static MAX: number = Number.MAX_SAFE_INTEGER;
+	public static MIN: bigint = BigInt("-9223372036854775808");
+	public static MAX: bigint = BigInt("9223372036854775807");
 
 	public static getSignature(): string {
 		return "i64";
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.i8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.i8.ts
index 68cfd0c..7339e72 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.i8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.i8.ts
@@ -50,7 +50,7 @@ export class i8 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (!Number.isInteger(value)) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		if (value < i8.MIN || value > i8.MAX) {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.u16.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.u16.ts
index dc0b334..f17a5f2 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.u16.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.u16.ts
@@ -50,7 +50,7 @@ export class u16 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (!Number.isInteger(value)) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		if (value < u16.MIN || value > u16.MAX) {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.u32.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.u32.ts
index 8dd97d9..389d6cd 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.u32.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.u32.ts
@@ -50,7 +50,7 @@ export class u32 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (!Number.isInteger(value)) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		if (value < u32.MIN || value > u32.MAX) {
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts
index ce763e0..4ec6c2a 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts
@@ -5,8 +5,8 @@ import { CBits } from "./protocol.sizes";
 
 // injectable
 export class u64 extends Primitive<bigint> {
-	public static MIN: number = 0;
-	public static MAX: number = Number.MAX_SAFE_INTEGER;
+	public static MIN: bigint = BigInt("0");
+	public static MAX: bigint = BigInt("18446744073709551615");
 
 	public static getSignature(): string {
 		return "u64";
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.u8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.u8.ts
index 68acb5b..84c25c0 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.u8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.u8.ts
@@ -50,7 +50,7 @@ export class u8 extends Primitive<number> {
 		if (typeof value !== "number") {
 			return new Error(`Invalid type of variable`);
 		}
-		if (isNaN(value) || !isFinite(value)) {
+		if (!Number.isInteger(value)) {
 			return new Error(`Invalid value of variable: ${value}`);
 		}
 		if (value < u8.MIN || value > u8.MAX) {
diff --git a/cli/src/protocol/render/typescript/static/protocol.validator.ts b/cli/src/protocol/render/typescript/static/protocol.validator.ts
index ea0586e..f4a9de0 100644
--- a/cli/src/protocol/render/typescript/static/protocol.validator.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.validator.ts
@@ -42,6 +42,13 @@ function validateEnum(
 	} catch (err) {
 		return err instanceof Error ? err.message : `Unknown error: ${err}`;
 	}
+	const unknown: string[] = Object.keys(target).filter(
+		(key: string) =>
+			target[key] !== undefined && !options.includes(key)
+	);
+	if (unknown.length > 0) {
+		return `Enum "${name}" doesn't have option(s): ${unknown.join(", ")}`;
+	}
 	if (options.length > 1) {
 		return `Enum should have only one definition or nothing. Found values for: ${options.join(
 			", "
-- 
2.43.0


From b042874afb440fcc6c709de330cfe29edb491c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 16/54] fix: protocol with unclosed definition at the end of
 file is accepted without it

---
 cli/src/protocol/parser.rs | 7 +++++++
 cli/src/protocol/store.rs  | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 3aba545..8eead02 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -282,6 +282,13 @@ impl Parser {
                             offset
                         }
                         ENext::End() => {
+                            if store.has_opened() || !is_in(&expectation, &EExpectation::StructDef)
+                            {
+                                errs.push(format!(
+                                    "Unexpecting end of file. Expected: {:?}",
+                                    expectation
+                                ));
+                            }
                             break;
                         }
                     };
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 9023773..a4c7320 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -407,6 +407,11 @@ impl Store {
         self.c_field.is_some()
     }
 
+    /// Returns true if some group, struct or enum is still not closed
+    pub fn has_opened(&self) -> bool {
+        self.c_group.is_some() || self.c_struct.is_some() || self.c_enum.is_some()
+    }
+
     pub fn open(&mut self) {
         if self.c_group.is_none() && self.c_struct.is_none() && self.c_enum.is_none() {
             stop!("No created struct or enum");
-- 
2.43.0


From 61d158aa5c60667aedc50e7f8f634c4c673eaff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 17/54] fix: unpaired square bracket in protocol is taken as a
 mark of repeated field or ignored

---
 cli/src/protocol/parser.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 8eead02..f9c7193 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -364,19 +364,24 @@ impl Parser {
                         if !str.is_empty() {
                             breakable = Some(char);
                         } else {
-                            continue;
+                            // Open bracket makes sense only together with close bracket
+                            let rest = &content[pass..];
+                            return match rest.find(|c: char| !c.is_ascii_whitespace()) {
+                                Some(pos) if rest[pos..].starts_with(chars::CLOSE_SQ_BRACKET) => {
+                                    Ok(ENext::Repeated(pass + pos + 1))
+                                }
+                                _ => Err(ENextErr::NotSupported(format!(
+                                    "found not closed char: {}",
+                                    char
+                                ))),
+                            };
                         }
                     }
                     chars::CLOSE_SQ_BRACKET => {
-                        if let Some(c) = str.chars().next() {
-                            if c != '[' {
-                                return Err(ENextErr::NotSupported(format!(
-                                    "found not supportable char: {}",
-                                    char
-                                )));
-                            }
-                        }
-                        return Ok(ENext::Repeated(pass));
+                        return Err(ENextErr::NotSupported(format!(
+                            "found not supportable char: {}",
+                            char
+                        )));
                     }
                     _ => {}
                 };
-- 
2.43.0


From 5762aba79f708ee747093aed25a0ba24db48ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 18/54] fix: space before semicolon makes simple option of enum
 invalid

---
 cli/src/protocol/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index f9c7193..cad2f38 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -386,7 +386,12 @@ impl Parser {
                     _ => {}
                 };
             }
-            if char.is_ascii_whitespace() || breakable.is_some() {
+            if char.is_ascii_whitespace() {
+                // Spaces do not affect a meaning of the word: check what is after
+                let next_char = content[pass..].chars().find(|c| !c.is_ascii_whitespace());
+                return Ok(ENext::Word((str, pass - 1, next_char)));
+            }
+            if breakable.is_some() {
                 return Ok(ENext::Word((str, pass - 1, breakable)));
             }
             let allowed: bool = allowed_chars.iter().any(|&c| c == char);
-- 
2.43.0


From 8a42f62050bc4a795971bfebe055d41a60665deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 19/54] fix: reference which a later or nearer declaration
 gives another meaning is accepted

The store resolved a reference with declarations before it only, generated code
resolves it with all declarations. Besides a name of a group hides a type with
the same name (and vice versa) in generated code, but not in the store.
---
 cli/src/protocol/parser.rs |  2 +-
 cli/src/protocol/store.rs  | 58 +++++++++++++++++++++++++++++++++-----
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index cad2f38..bb8e3b9 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -308,7 +308,7 @@ impl Parser {
             }
         }
         if errs.is_empty() {
-            match store.order() {
+            match store.check_references().and_then(|_| store.order()) {
                 Ok(_) => Ok(store),
                 Err(e) => Err(vec![e]),
             }
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index a4c7320..49eed91 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -243,17 +243,20 @@ impl Store {
 
     /// Resolves a type reference used inside of group "from". Names are looked up in own group, then in all
     /// parent groups up to the root - exactly like it will be done in a generated code. First part of a path
-    /// (name of group) is attached to the closest level, which has such group.
+    /// (name of group) is attached to the closest level, which has such name.
     pub fn resolve_path(&self, from: usize, path: &[String]) -> Option<Vec<(String, usize)>> {
         let is_path = path.len() > 1;
         let mut level: usize = from;
         loop {
-            if is_path {
-                if self.has_child_group(level, &path[0]) {
-                    return self.find_by_path(level, path);
-                }
-            } else if let Some(found) = self.find_by_path(level, path) {
-                return Some(found);
+            let group = self.has_child_group(level, &path[0]);
+            let found = self.find_by_path(level, &path[0..1]);
+            if is_path && group {
+                return self.find_by_path(level, path);
+            } else if !is_path && found.is_some() {
+                return found;
+            } else if group || found.is_some() {
+                // The name is taken on this level and hides everything above
+                return None;
             }
             if level == 0 {
                 return None;
@@ -445,6 +448,47 @@ impl Store {
         }
     }
 
+    /// A reference is resolved to a type, which is declared before it. Generated code doesn't depend on order
+    /// of declarations, that's why the reference should mean the same type after all has been declared.
+    pub fn check_references(&self) -> Result<(), String> {
+        let fields = self.structs.iter().flat_map(|strct| {
+            strct.fields.iter().map(move |field| {
+                (
+                    strct.parent,
+                    field.ref_type_id,
+                    field.get_full_name(),
+                    &strct.name,
+                )
+            })
+        });
+        let variants = self.enums.iter().flat_map(|enums| {
+            enums.variants.iter().map(move |variant| {
+                (
+                    enums.parent,
+                    variant.ref_type_id,
+                    variant.type_path.clone(),
+                    &enums.name,
+                )
+            })
+        });
+        for (parent, ref_type_id, path, owner) in fields.chain(variants) {
+            if ref_type_id.is_none() {
+                continue;
+            }
+            let resolved = self
+                .resolve_path(parent, &path)
+                .and_then(|found| found.last().map(|(_, id)| *id));
+            if resolved != ref_type_id {
+                return Err(format!(
+                    "Meaning of reference {} in {} is changed by a declaration after it",
+                    path.join("."),
+                    owner
+                ));
+            }
+        }
+        Ok(())
+    }
+
     pub fn order(&mut self) -> Result<(), String> {
         let mut parents: Vec<usize> = vec![];
         for strct in &self.structs {
-- 
2.43.0


From 2dfd8d00729a12732042da038f497e2d780bed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 20/54] fix: repeated names of types, groups, fields and
 options are accepted

Generated code with them doesn't compile.
---
 cli/src/protocol/enums.rs |  3 +++
 cli/src/protocol/store.rs | 23 +++++++++++++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/enums.rs b/cli/src/protocol/enums.rs
index b40f3e8..826a901 100644
--- a/cli/src/protocol/enums.rs
+++ b/cli/src/protocol/enums.rs
@@ -74,6 +74,9 @@ impl Enum {
     }
 
     pub fn set_name(&mut self, name: String) {
+        if self.variants.iter().any(|variant| variant.name == name) {
+            stop!("Option {} of enum {} is already declared", name, self.name);
+        }
         if let Some(mut current) = self.current.take() {
             current.name = name;
             self.variants.push(current);
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 49eed91..a9ac01a 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -136,9 +136,10 @@ impl Store {
         if self.c_enum.is_some() {
             stop!("Struct cannot be defined inside enum");
         }
+        let parent = self.get_group_id();
+        self.check_name(parent, &name);
         self.sequence += 1;
         self.bind_struct_with_group(self.sequence);
-        let parent = self.get_group_id();
         self.c_struct = Some(Struct::new(
             self.sequence,
             parent,
@@ -154,9 +155,10 @@ impl Store {
         if self.c_enum.is_some() {
             stop!("Enum cannot be defined inside enum");
         }
+        let parent = self.get_group_id();
+        self.check_name(parent, &name);
         self.sequence += 1;
         self.bind_enum_with_group(self.sequence);
-        let parent = self.get_group_id();
         self.c_enum = Some(Enum::new(
             self.sequence,
             parent,
@@ -173,12 +175,22 @@ impl Store {
             stop!("Group cannot be defined inside enum");
         }
         let parent: usize = self.get_group_id();
+        self.check_name(parent, &name);
         self.sequence += 1;
         self.bind_group_with_group(self.sequence);
         self.c_group = Some(Group::new(self.sequence, parent, name));
         self.path.push(self.sequence);
     }
 
+    /// All declarations of a level share the same scope of names
+    fn check_name(&self, parent: usize, name: &str) {
+        if self.has_child_group(parent, name)
+            || self.find_by_path(parent, &[name.to_owned()]).is_some()
+        {
+            stop!("Name {} is already declared", name);
+        }
+    }
+
     pub fn set_field_type(&mut self, type_str: &str) {
         if self.c_struct.is_none() {
             stop!("Fail to create new field, because no open struct.");
@@ -356,6 +368,13 @@ impl Store {
     pub fn close_field(&mut self) {
         if let Some(mut c_struct) = self.c_struct.take() {
             if let Some(c_field) = self.c_field.take() {
+                if c_struct.fields.iter().any(|f| f.name == c_field.name) {
+                    stop!(
+                        "Field {} of struct {} is already declared",
+                        c_field.name,
+                        c_struct.name
+                    );
+                }
                 c_struct.add_field(c_field);
                 self.c_struct = Some(c_struct);
                 self.c_field = None;
-- 
2.43.0


From 22160cb91052d74384d7330265419a25ac82c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 21/54] fix: options of enum which refer to an enum or to
 repeated structs in TypeScript

Repeated structs were rendered as a single struct, an option of enum type was
refused although Rust output accepts it.
---
 cli/src/protocol/render/typescript/mod.rs     | 194 +++++++++---------
 .../static/protocol.primitives.enum.ts        |  23 +++
 .../typescript/static/protocol.validator.ts   |  33 +--
 3 files changed, 136 insertions(+), 114 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index 50a8736..cf96fe8 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1,4 +1,4 @@
-use super::protocol::enums::Enum;
+use super::protocol::enums::{Enum, EnumItem};
 use super::protocol::fields::Field;
 use super::protocol::groups::Group;
 use super::protocol::store::Store;
@@ -222,6 +222,80 @@ impl TypescriptRender {
         body
     }
 
+    /// TypeScript type of option's value
+    fn variant_type(&self, enums: &Enum, variant: &EnumItem, store: &Store) -> String {
+        if let Some(prim_type_ref) = variant.types.clone() {
+            return self.etype_ts(prim_type_ref, variant.repeated);
+        }
+        let mut path = variant.type_path.clone();
+        if !self.is_struct_variant(enums, variant, store) {
+            let name = path.pop().unwrap_or_default();
+            path.push(format!("I{}", name));
+        }
+        if variant.repeated {
+            format!("Array<{}>", path.join("."))
+        } else {
+            path.join(".")
+        }
+    }
+
+    /// Signature of option, which refers to a struct or an enum
+    fn variant_signature(&self, enums: &Enum, variant: &EnumItem, store: &Store) -> String {
+        let type_ref = variant.type_path.join(".");
+        let is_struct = self.is_struct_variant(enums, variant, store);
+        if is_struct && !variant.repeated {
+            format!("{}.getSignature()", type_ref)
+        } else {
+            format!(
+                "'{}{}'",
+                type_ref,
+                if variant.repeated { "[]" } else { "" }
+            )
+        }
+    }
+
+    /// Value of option, which refers to a struct or an enum. Empty value if it isn't given.
+    fn variant_option(
+        &self,
+        enums: &Enum,
+        variant: &EnumItem,
+        value: Option<String>,
+        store: &Store,
+    ) -> String {
+        let type_ref = variant.type_path.join(".");
+        let is_struct = self.is_struct_variant(enums, variant, store);
+        if is_struct && !variant.repeated {
+            return value.unwrap_or_else(|| format!("{}.defaults()", type_ref));
+        }
+        let methods = match (is_struct, variant.repeated) {
+            (true, _) => format!("(value) => {}.defaults().encodeSelfArray(value), (bytes) => {}.defaults().decodeSelfArray(bytes)", type_ref, type_ref),
+            (false, true) => format!("{}.encodeValues, {}.decodeValues", type_ref, type_ref),
+            (false, false) => format!("{}.encodeValue, {}.decodeValue", type_ref, type_ref),
+        };
+        format!(
+            "Protocol.Primitives.Enum.getOption<{}>({}, {}, {})",
+            self.variant_type(enums, variant, store),
+            self.variant_signature(enums, variant, store),
+            methods,
+            value.unwrap_or_else(|| (if variant.repeated { "[]" } else { "{}" }).to_owned())
+        )
+    }
+
+    fn is_struct_variant(&self, enums: &Enum, variant: &EnumItem, store: &Store) -> bool {
+        if let Some(ref_type_id) = variant.ref_type_id {
+            if store.get_struct(ref_type_id).is_some() {
+                return true;
+            } else if store.get_enum(ref_type_id).is_some() {
+                return false;
+            }
+        }
+        stop!(
+            "Unknown type of data in scope of enum {} / {}",
+            enums.name,
+            variant.name
+        );
+    }
+
     fn enum_declaration(&self, enums: &Enum, store: &mut Store, level: u8) -> String {
         let mut body = "[".to_string();
         for variant in &enums.variants {
@@ -232,22 +306,13 @@ impl TypescriptRender {
                     self.spaces(level),
                     self.etype(prim_type_ref, variant.repeated)
                 );
-            } else if let Some(ref_type_id) = variant.ref_type_id {
-                if store.get_struct(ref_type_id).is_some() {
-                    body = format!(
-                        "{}\n{}{}.getSignature(),",
-                        body,
-                        self.spaces(level),
-                        variant.type_path.join(".")
-                    );
-                } else {
-                    stop!(
-                        "Unknown type of data in scope of enum {} / {}, ref_type_id: {} ",
-                        enums.name,
-                        variant.name,
-                        ref_type_id
-                    );
-                }
+            } else {
+                body = format!(
+                    "{}\n{}{},",
+                    body,
+                    self.spaces(level),
+                    self.variant_signature(enums, variant, store)
+                );
             }
         }
         body = format!("{}\n{}]", body, self.spaces(level - 1));
@@ -266,23 +331,14 @@ impl TypescriptRender {
                     self.etype(prim_type_ref.clone(), variant.repeated),
                     self.etype_def(prim_type_ref, variant.repeated)
                 );
-            } else if let Some(ref_type_id) = variant.ref_type_id {
-                if store.get_struct(ref_type_id).is_some() {
-                    body = format!(
-                        "{}\n{}case {}: return {}.defaults();",
-                        body,
-                        self.spaces(level + 1),
-                        pos,
-                        variant.type_path.join(".")
-                    );
-                } else {
-                    stop!(
-                        "Unknown type of data in scope of enum {} / {}, ref_type_id: {} ",
-                        enums.name,
-                        variant.name,
-                        ref_type_id
-                    );
-                }
+            } else {
+                body = format!(
+                    "{}\n{}case {}: return {};",
+                    body,
+                    self.spaces(level + 1),
+                    pos,
+                    self.variant_option(enums, variant, None, store)
+                );
             }
         }
         body = format!(
@@ -309,31 +365,11 @@ impl TypescriptRender {
                     self.etype(prim_type_ref.clone(), variant.repeated),
                     variant.name
                 )
-            } else if variant.ref_type_id.is_some() {
-                format!("src.{}", variant.name)
             } else {
-                stop!(
-                    "Unknown type of data in scope of enum {} / {}",
-                    enums.name,
-                    variant.name
-                );
+                self.variant_option(enums, variant, Some(format!("src.{}", variant.name)), store)
             };
             //
-            let types = if let Some(prim_type_ref) = variant.types.clone() {
-                self.etype_ts(prim_type_ref, variant.repeated)
-            } else if let Some(ref_type_id) = variant.ref_type_id {
-                if store.get_struct(ref_type_id).is_some() {
-                    variant.type_path.join(".")
-                } else {
-                    stop!("Unknown type of data in scope of enum {} / {}, ref_type_id: {}. Failed to find a struct. ", enums.name, variant.name, ref_type_id);
-                }
-            } else {
-                stop!(
-                    "Unknown type of data in scope of enum {} / {}",
-                    enums.name,
-                    variant.name
-                );
-            };
+            let types = self.variant_type(enums, variant, store);
             body = format!(
                 "{}\n{}if (src.{} !== undefined) {{",
                 body,
@@ -356,21 +392,7 @@ impl TypescriptRender {
     fn get_enum_decode(&self, enums: &Enum, store: &mut Store, level: u8) -> String {
         let mut body = format!("{}switch (this.getValueIndex()) {{", self.spaces(level),);
         for (pos, variant) in enums.variants.iter().enumerate() {
-            let types = if let Some(prim_type_ref) = variant.types.clone() {
-                self.etype_ts(prim_type_ref, variant.repeated)
-            } else if let Some(ref_type_id) = variant.ref_type_id {
-                if store.get_struct(ref_type_id).is_some() {
-                    variant.type_path.join(".")
-                } else {
-                    stop!("Unknown type of data in scope of enum {} / {}, ref_type_id: {}. Failed to find a struct. ", enums.name, variant.name, ref_type_id);
-                }
-            } else {
-                stop!(
-                    "Unknown type of data in scope of enum {} / {}",
-                    enums.name,
-                    variant.name
-                );
-            };
+            let types = self.variant_type(enums, variant, store);
             body = format!(
                 "{}\n{}case {}: target.{} = this.getValue<{}>(); break;",
                 body,
@@ -547,26 +569,7 @@ impl TypescriptRender {
             enums.name
         );
         for variant in &enums.variants {
-            let variant_type = if let Some(prim_type_ref) = variant.types.clone() {
-                self.etype_ts(prim_type_ref.clone(), variant.repeated)
-            } else if let Some(ref_type_id) = variant.ref_type_id {
-                if store.get_struct(ref_type_id).is_some() {
-                    variant.type_path.join(".")
-                } else {
-                    stop!(
-                        "Unknown type of data in scope of enum {} / {}, ref_type_id: {}",
-                        enums.name,
-                        variant.name,
-                        ref_type_id
-                    );
-                }
-            } else {
-                stop!(
-                    "Unknown type of data in scope of enum {} / {} ",
-                    enums.name,
-                    variant.name
-                );
-            };
+            let variant_type = self.variant_type(enums, variant, store);
             body = format!(
                 "{}{}{}?: {};\n",
                 body,
@@ -1082,7 +1085,14 @@ impl TypescriptRender {
                         if variant.repeated { "true" } else { "false" }
                     );
                 } else {
-                    stop!("Nested enums aren't supported.");
+                    body = format!(
+                        "{}\n{}{{ prop: '{}', get options() {{ return {}.getOptionsScheme(); }}, optional: false, repeated: {} }},",
+                        body,
+                        self.spaces(level + 1),
+                        variant.name,
+                        variant.type_path.join("."),
+                        if variant.repeated { "true" } else { "false" }
+                    );
                 }
             } else if let Some(etype) = variant.types.clone() {
                 body = format!(
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
index 13ec526..868e0a5 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
@@ -114,6 +114,29 @@ export abstract class Enum<T> {
 		return values;
 	}
 
+	/**
+	 * Value of an option, which isn't a primitive or a struct: list of structs, enum or list of enums
+	 */
+	public static getOption<T>(
+		signature: string,
+		encode: (value: T) => ArrayBufferLike | Error,
+		decode: (bytes: ArrayBufferLike) => T | Error,
+		value: T
+	): ISigned<T> {
+		return {
+			getSignature: () => signature,
+			get: () => value,
+			encode: () => encode(value),
+			decode: (bytes: ArrayBufferLike) => {
+				const decoded: T | Error = decode(bytes);
+				if (!(decoded instanceof Error)) {
+					value = decoded;
+				}
+				return decoded;
+			},
+		};
+	}
+
 	private _value: Option<any> | undefined;
 
 	public setValue(opt: Option<any>): Error | undefined {
diff --git a/cli/src/protocol/render/typescript/static/protocol.validator.ts b/cli/src/protocol/render/typescript/static/protocol.validator.ts
index f4a9de0..36acc41 100644
--- a/cli/src/protocol/render/typescript/static/protocol.validator.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.validator.ts
@@ -19,28 +19,17 @@ function validateEnum(
 	if (typeof target !== "object" || target === null) {
 		return `Property "${name}" should be an object, because it's enum`;
 	}
-	const options: string[] = [];
-	try {
-		scheme.forEach((prop: IPropScheme) => {
-			if (prop.types === undefined) {
-				throw new Error(
-					`Invalid option description for option "${prop.prop}" of option "${name}"`
-				);
-			}
-			if (target[prop.prop] !== undefined) {
-				options.push(prop.prop);
-				const err: Error | undefined = prop.types.validate(
-					target[prop.prop]
-				);
-				if (err instanceof Error) {
-					throw new Error(
-						`Fail to validate option "${prop.prop}" of option "${name}" due: ${err.message}`
-					);
-				}
-			}
-		});
-	} catch (err) {
-		return err instanceof Error ? err.message : `Unknown error: ${err}`;
+	const options: string[] = scheme
+		.map((prop: IPropScheme) => prop.prop)
+		.filter((prop: string) => target[prop] !== undefined);
+	const err: Error | undefined = validate(
+		target,
+		scheme.filter((prop: IPropScheme) => options.includes(prop.prop))
+	);
+	if (err instanceof Error) {
+		return `Fail to validate option "${options.join(
+			", "
+		)}" of option "${name}" due: ${err.message}`;
 	}
 	const unknown: string[] = Object.keys(target).filter(
 		(key: string) =>
-- 
2.43.0


From 0497ccb7ad4b0035720a041f11195cdf444c5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:37 +0000
Subject: [PATCH 22/54] fix: not ASCII comments, last word and not finished
 definition of workflow are parsed wrong

---
 cli/src/workflow/parser.rs | 40 ++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index f668bf4..465be67 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -109,6 +109,11 @@ impl Parser {
                             }
                         }
                         ENext::End() => {
+                            if opened.is_some() {
+                                return Err(
+                                    self.err("Unexpected end of file. Last definition isn't closed.")
+                                );
+                            }
                             break;
                         }
                         _ => 0,
@@ -206,10 +211,10 @@ impl Parser {
         ];
         let allowed_chars: Vec<char> = vec![chars::UNDERLINE];
         let limited_chars: Vec<char> = vec![chars::AT, chars::AMPERSAND];
-        let mut limited: bool = false;
         let mut comment: bool = false;
         for char in content.chars() {
-            pass += 1;
+            // Length in bytes, because it's used as offset in a source
+            pass += char.len_utf8();
             if comment && char == chars::CARET {
                 comment = false;
             } else if comment {
@@ -250,26 +255,19 @@ impl Parser {
                 };
             }
             if char.is_ascii_whitespace() || breakable.is_some() {
-                if limited
-                    && ((!str.starts_with(chars::AMPERSAND) && str.contains(chars::AMPERSAND))
-                        || (!str.starts_with(chars::AT) && str.contains(chars::AT)))
-                {
-                    return Err(ENextErr::InvalidSyntax(format!(
-                        "Chars {} and {} can be used only at the begging of words. Issue: {}",
-                        chars::AMPERSAND,
-                        chars::AT,
-                        str
-                    )));
-                } else {
-                    return Ok(ENext::Word((str, pass - 1, breakable)));
-                }
+                return Ok(ENext::Word((str, pass - 1, breakable)));
             }
             let allowed: bool = allowed_chars.iter().any(|&c| c == char);
-            limited = if limited {
-                true
-            } else {
-                limited_chars.iter().any(|&c| c == char)
-            };
+            let limited: bool = limited_chars.iter().any(|&c| c == char);
+            if limited && !str.is_empty() {
+                return Err(ENextErr::InvalidSyntax(format!(
+                    "Chars {} and {} can be used only at the begging of words. Issue: {}{}",
+                    chars::AMPERSAND,
+                    chars::AT,
+                    str,
+                    char
+                )));
+            }
             if !char.is_ascii_alphanumeric() && !allowed && !limited {
                 return Err(ENextErr::NotSupported(format!(
                     "found not supportable char: {}",
@@ -281,7 +279,7 @@ impl Parser {
         if str.is_empty() {
             Ok(ENext::End())
         } else {
-            Ok(ENext::Word((str, pass - 1, None)))
+            Ok(ENext::Word((str, pass, None)))
         }
     }
 
-- 
2.43.0


From 3860231441d79d54f876cbc5b81e9fc89153ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 23/54] fix: workflow grammar: words without delimiter, config
 closed in the middle, broadcasts of a single response

---
 cli/src/workflow/beacon.rs  |  9 +++++++--
 cli/src/workflow/config.rs  | 23 ++++++++++++-----------
 cli/src/workflow/event.rs   | 13 ++++++++-----
 cli/src/workflow/request.rs | 37 ++++++++++++++++++++++++-------------
 4 files changed, 51 insertions(+), 31 deletions(-)

diff --git a/cli/src/workflow/beacon.rs b/cli/src/workflow/beacon.rs
index b16be9a..0208a25 100644
--- a/cli/src/workflow/beacon.rs
+++ b/cli/src/workflow/beacon.rs
@@ -127,6 +127,12 @@ impl EntityParser for Beacons {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!(
+                        "Word {} isn't expected. Expectation: {:?}",
+                        word, self.expectation
+                    ));
+                }
                 match self.pending.clone() {
                     Pending::Broadcast(path_to_struct) => {
                         /* USECASES:
@@ -146,7 +152,6 @@ impl EntityParser for Beacons {
                             word
                         ));
                         self.expectation = vec![
-                            EExpectation::Word,
                             EExpectation::PathDelimiter,
                             EExpectation::Semicolon,
                         ];
@@ -228,7 +233,7 @@ impl EntityParser for Beacons {
                             */
                             self.pending = Pending::Broadcast(String::new());
                             self.expectation =
-                                vec![EExpectation::Word, EExpectation::PathDelimiter];
+                                vec![EExpectation::Word];
                             Ok(offset)
                         }
                         _ => Err(format!(
diff --git a/cli/src/workflow/config.rs b/cli/src/workflow/config.rs
index ef76d9c..bec4fc8 100644
--- a/cli/src/workflow/config.rs
+++ b/cli/src/workflow/config.rs
@@ -350,11 +350,8 @@ impl EntityParser for Config {
                                 if path_to_struct.is_empty() { "" } else { "." },
                                 word
                             ));
-                            self.expectation = vec![
-                                EExpectation::Word,
-                                EExpectation::PathDelimiter,
-                                EExpectation::Semicolon,
-                            ];
+                            self.expectation =
+                                vec![EExpectation::PathDelimiter, EExpectation::Semicolon];
                         }
                         Pending::SelfKey(path_to_struct) => {
                             self.pending = Pending::SelfKey(format!(
@@ -363,11 +360,8 @@ impl EntityParser for Config {
                                 if path_to_struct.is_empty() { "" } else { "." },
                                 word
                             ));
-                            self.expectation = vec![
-                                EExpectation::Word,
-                                EExpectation::PathDelimiter,
-                                EExpectation::Semicolon,
-                            ];
+                            self.expectation =
+                                vec![EExpectation::PathDelimiter, EExpectation::Semicolon];
                         }
                     };
                     self.prev = Some(prev);
@@ -443,7 +437,14 @@ impl EntityParser for Config {
                 }
             }
             ENext::Close(offset) => {
-                if let Err(e) = self.close(protocol) {
+                if !matches!(self.pending, Pending::Nothing)
+                    || !is_in(&self.expectation, &EExpectation::Word)
+                {
+                    Err(format!(
+                        "Symbol CLOSE isn't expected. Expectation: {:?}",
+                        self.expectation
+                    ))
+                } else if let Err(e) = self.close(protocol) {
                     Err(e)
                 } else {
                     Ok(offset)
diff --git a/cli/src/workflow/event.rs b/cli/src/workflow/event.rs
index a9bd4be..9ded7e2 100644
--- a/cli/src/workflow/event.rs
+++ b/cli/src/workflow/event.rs
@@ -38,7 +38,6 @@ impl Event {
             reference: None,
             broadcasts: vec![],
             expectation: vec![
-                EExpectation::Word,
                 EExpectation::PathDelimiter,
                 EExpectation::Open,
             ],
@@ -104,7 +103,7 @@ impl Event {
 
 impl EntityParser for Event {
     fn open(word: String) -> Option<Self> {
-        if word.starts_with(chars::AT) {
+        if word.starts_with(chars::AT) && word.len() > 1 {
             Some(Self::new(word[1..word.len()].to_owned()))
         } else {
             None
@@ -148,6 +147,12 @@ impl EntityParser for Event {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!(
+                        "Word {} isn't expected. Expectation: {:?}",
+                        word, self.expectation
+                    ));
+                }
                 match self.pending.clone() {
                     Pending::Reference(path_to_struct) => {
                         /* USECASES:
@@ -164,7 +169,6 @@ impl EntityParser for Event {
                             word
                         ));
                         self.expectation = vec![
-                            EExpectation::Word,
                             EExpectation::PathDelimiter,
                             EExpectation::Open,
                             EExpectation::Semicolon,
@@ -191,7 +195,6 @@ impl EntityParser for Event {
                         );
                         self.pending = Pending::Broadcast(broadcast);
                         self.expectation = vec![
-                            EExpectation::Word,
                             EExpectation::PathDelimiter,
                             EExpectation::Semicolon,
                             EExpectation::Question,
@@ -316,7 +319,7 @@ impl EntityParser for Event {
                             */
                             self.pending = Pending::Broadcast(Broadcast::new(String::new(), false));
                             self.expectation =
-                                vec![EExpectation::Word, EExpectation::PathDelimiter];
+                                vec![EExpectation::Word];
                             Ok(offset)
                         }
                         _ => Err(format!(
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index e3ab5c7..a7e365f 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -130,7 +130,6 @@ impl Request {
             actions: vec![],
             broadcasts: vec![],
             expectation: vec![
-                EExpectation::Word,
                 EExpectation::PathDelimiter,
                 EExpectation::Exclamation,
             ],
@@ -244,7 +243,7 @@ impl Request {
 
 impl EntityParser for Request {
     fn open(word: String) -> Option<Self> {
-        if word.chars().all(char::is_alphanumeric) {
+        if word.chars().all(|c| c.is_alphanumeric() || c == '_') {
             Some(Self::new(word))
         } else {
             None
@@ -303,6 +302,12 @@ impl EntityParser for Request {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!(
+                        "Word {} isn't expected. Expectation: {:?}",
+                        word, self.expectation
+                    ));
+                }
                 match self.pending.clone() {
                     Pending::Nothing => {}
                     Pending::Request(path_to_struct) => {
@@ -313,7 +318,6 @@ impl EntityParser for Request {
                             word
                         ));
                         self.expectation = vec![
-                            EExpectation::Word,
                             EExpectation::PathDelimiter,
                             EExpectation::Semicolon,
                             EExpectation::Exclamation,
@@ -328,7 +332,6 @@ impl EntityParser for Request {
                             word
                         ));
                         self.expectation = vec![
-                            EExpectation::Word,
                             EExpectation::PathDelimiter,
                             EExpectation::Open,
                         ];
@@ -353,7 +356,6 @@ impl EntityParser for Request {
                             );
                             self.expectation = vec![
                                 EExpectation::PathDelimiter,
-                                EExpectation::Word,
                                 EExpectation::Arrow,
                                 EExpectation::CloseBracket,
                             ];
@@ -374,14 +376,15 @@ impl EntityParser for Request {
                             );
                             self.expectation = vec![
                                 EExpectation::PathDelimiter,
-                                EExpectation::Word,
                                 EExpectation::CloseBracket,
                             ];
-                        } else if action.response.is_some() && action.conclusion.is_some() {
+                        } else {
                             /* USECASES:
                             Message.Request !Message.Err {
                                                                  |
                                 (Accept    > Message.Accepted) > Events.Message;
+                                                          |
+                                (Messages.Response) > Events.Message;
                             }
                             */
                             action.current = format!(
@@ -392,12 +395,9 @@ impl EntityParser for Request {
                             );
                             self.expectation = vec![
                                 EExpectation::PathDelimiter,
-                                EExpectation::Word,
                                 EExpectation::Semicolon,
                                 EExpectation::Question,
                             ];
-                        } else {
-                            return Err(format!("Unexpected place for {}", word));
                         }
                         self.pending = Pending::Action(action);
                     }
@@ -409,7 +409,6 @@ impl EntityParser for Request {
                             word
                         ));
                         self.expectation = vec![
-                            EExpectation::Word,
                             EExpectation::PathDelimiter,
                             EExpectation::Semicolon,
                         ];
@@ -421,11 +420,13 @@ impl EntityParser for Request {
                 if is_in(&self.expectation, &EExpectation::Question) {
                     match self.pending.clone() {
                         Pending::Action(mut action) => {
-                            if action.response.is_some() && action.conclusion.is_some() {
+                            if action.response.is_some() {
                                 /* USECASES:
                                 Message.Request !Message.Err {
                                                                                    |
                                     (Accept    > Message.Accepted) > Events.Message?;
+                                                                       |
+                                    (Messages.Response) > Events.Message?;
                                 }
                                 */
                                 action.optional = true;
@@ -674,7 +675,7 @@ impl EntityParser for Request {
                             */
                             self.pending = Pending::Broadcast(String::new());
                             self.expectation =
-                                vec![EExpectation::Word, EExpectation::PathDelimiter];
+                                vec![EExpectation::Word];
                             Ok(offset)
                         }
                         Pending::Action(mut action) => {
@@ -690,6 +691,16 @@ impl EntityParser for Request {
                                     (Deny      > Message.Denied);
                                 }
                                 */
+                                if !action
+                                    .current
+                                    .chars()
+                                    .all(|c| c.is_alphanumeric() || c == '_')
+                                {
+                                    return Err(format!(
+                                        "Conclusion {} should be a single word",
+                                        action.current
+                                    ));
+                                }
                                 action.conclusion = Some(action.current);
                                 action.current = String::new();
                                 self.expectation = vec![EExpectation::Word];
-- 
2.43.0


From ce7e278277a466053c4699ac87c8e1dce91caa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 24/54] fix: workflow references which are not structures,
 incomplete requests and repeated conclusions or broadcasts are accepted

---
 cli/src/workflow/beacon.rs  |  2 +-
 cli/src/workflow/config.rs  |  4 ++--
 cli/src/workflow/event.rs   | 13 +++++++++++--
 cli/src/workflow/request.rs | 35 ++++++++++++++++++++++++++---------
 cli/src/workflow/store.rs   |  1 +
 5 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/cli/src/workflow/beacon.rs b/cli/src/workflow/beacon.rs
index 0208a25..6e389df 100644
--- a/cli/src/workflow/beacon.rs
+++ b/cli/src/workflow/beacon.rs
@@ -35,7 +35,7 @@ impl Broadcast {
     }
 
     pub fn validate(&self, protocol: &Protocol) -> bool {
-        protocol.find_by_str_path(0, &self.reference).is_some()
+        protocol.get_struct_by_str_path(0, &self.reference).is_some()
     }
 }
 
diff --git a/cli/src/workflow/config.rs b/cli/src/workflow/config.rs
index bec4fc8..c0d84fa 100644
--- a/cli/src/workflow/config.rs
+++ b/cli/src/workflow/config.rs
@@ -135,7 +135,7 @@ impl Config {
 
     fn close(&mut self, protocol: &mut Protocol) -> Result<(), String> {
         if let Some(self_key) = self.self_key.as_ref() {
-            if protocol.find_by_str_path(0, self_key).is_none() {
+            if protocol.get_struct_by_str_path(0, self_key).is_none() {
                 return Err(format!("Self key {} isn't defined in protocol", self_key));
             }
             protocol.add_service_struct(
@@ -173,7 +173,7 @@ impl Config {
             ));
         }
         if let Some(assigned_key) = self.assigned_key.as_ref() {
-            if protocol.find_by_str_path(0, assigned_key).is_none() {
+            if protocol.get_struct_by_str_path(0, assigned_key).is_none() {
                 return Err(format!(
                     "Assigned key {} isn't defined in protocol",
                     assigned_key
diff --git a/cli/src/workflow/event.rs b/cli/src/workflow/event.rs
index 9ded7e2..add1f40 100644
--- a/cli/src/workflow/event.rs
+++ b/cli/src/workflow/event.rs
@@ -50,7 +50,7 @@ impl Event {
         if let Some(reference) = self.reference.as_ref() {
             if reference != defaults::connected
                 && reference != defaults::disconnected
-                && protocol.find_by_str_path(0, reference).is_none()
+                && protocol.get_struct_by_str_path(0, reference).is_none()
             {
                 return Err(format!(
                     "Reference to event object/struct {} isn't defined in protocol",
@@ -68,7 +68,7 @@ impl Event {
             ));
         }
         for broadcast in self.broadcasts.iter() {
-            if protocol.find_by_str_path(0, &broadcast.reference).is_none() {
+            if protocol.get_struct_by_str_path(0, &broadcast.reference).is_none() {
                 return Err(format!(
                     "Broadcast object/struct {} isn't defined in protocol",
                     &broadcast.reference
@@ -287,6 +287,15 @@ impl EntityParser for Event {
                             */
                             if broadcast.reference.is_empty() {
                                 Err(String::from("Broadcast reference cannot be empty"))
+                            } else if self
+                                .broadcasts
+                                .iter()
+                                .any(|b| b.reference == broadcast.reference)
+                            {
+                                Err(format!(
+                                    "Broadcast {} has been already added",
+                                    broadcast.reference
+                                ))
                             } else {
                                 self.broadcasts.push(broadcast);
                                 self.expectation = vec![EExpectation::Arrow, EExpectation::Close];
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index a7e365f..bcbd0d5 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -140,7 +140,7 @@ impl Request {
 
     fn close(&mut self, protocol: &Protocol) -> Result<(), String> {
         if let Some(request) = self.request.as_ref() {
-            if protocol.find_by_str_path(0, request).is_none() {
+            if protocol.get_struct_by_str_path(0, request).is_none() {
                 return Err(format!("Request {} isn't defined in protocol", request));
             }
         } else {
@@ -149,28 +149,45 @@ impl Request {
             ));
         }
         if let Some(error) = self.error.as_ref() {
-            if protocol.find_by_str_path(0, error).is_none() {
+            if protocol.get_struct_by_str_path(0, error).is_none() {
                 return Err(format!("Error {} isn't defined in protocol", error));
             }
-        } else if !self.actions.is_empty() {
-            return Err(String::from(
-                "As soon as request has actions, error usecase should be defined.",
+        } else {
+            return Err(format!(
+                "Error usecase should be defined for request {}",
+                self.get_request()?
+            ));
+        }
+        if self.actions.is_empty() {
+            return Err(format!(
+                "At least one response should be defined for request {}",
+                self.get_request()?
             ));
         }
         for broadcast in self.broadcasts.iter() {
-            if protocol.find_by_str_path(0, broadcast).is_none() {
+            if protocol.get_struct_by_str_path(0, broadcast).is_none() {
                 return Err(format!(
                     "Broadcast object/struct {} isn't defined in protocol",
                     broadcast
                 ));
             }
         }
-        for action in self.actions.iter() {
+        for (n, action) in self.actions.iter().enumerate() {
+            if action.conclusion.is_some()
+                && self.actions[..n]
+                    .iter()
+                    .any(|a| a.conclusion == action.conclusion)
+            {
+                return Err(format!(
+                    "Conclusion {} is used multiple times",
+                    action.get_conclusion()?
+                ));
+            }
             if action.conclusion.is_none() && self.actions.len() != 1 {
                 return Err(String::from("In case request has a multiple response, should be defined conclusion for each response"));
             }
             if let Some(response) = action.response.as_ref() {
-                if protocol.find_by_str_path(0, response).is_none() {
+                if protocol.get_struct_by_str_path(0, response).is_none() {
                     return Err(format!(
                         "Response object/struct {} isn't defined in protocol",
                         response
@@ -182,7 +199,7 @@ impl Request {
                 ));
             }
             for broadcast in action.broadcast.iter() {
-                if protocol.find_by_str_path(0, &broadcast.reference).is_none() {
+                if protocol.get_struct_by_str_path(0, &broadcast.reference).is_none() {
                     return Err(format!(
                         "Response broadcast object/struct {} isn't defined in protocol",
                         broadcast.reference
diff --git a/cli/src/workflow/store.rs b/cli/src/workflow/store.rs
index fc43a94..bbf41df 100644
--- a/cli/src/workflow/store.rs
+++ b/cli/src/workflow/store.rs
@@ -110,6 +110,7 @@ impl Store {
     }
 
     pub fn validate(&self) -> Result<(), String> {
+        self.get_config()?;
         // Beacons and requests should not be in conflict
         for beacon in &self.beacons {
             if self.is_request_exist(beacon.reference.clone())? {
-- 
2.43.0


From d9799ba6be19724d107d1a521af50a47d333b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 25/54] fix: broadcasts of a single response are ignored, same
 broadcast of several responses gives code which is not compiled

---
 .../producer/rust/render_request_handler.rs   |  6 +-
 .../producer/rust/render_request_response.rs  | 56 +++++++------
 .../typescript/render_event_emitter.rs        |  2 +-
 .../typescript/render_request_handler.rs      | 84 +++++++++++++------
 cli/src/workflow/request.rs                   | 13 +++
 5 files changed, 107 insertions(+), 54 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_handler.rs b/cli/src/workflow/render/producer/rust/render_request_handler.rs
index 8ecde49..c59d5dc 100644
--- a/cli/src/workflow/render/producer/rust/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_handler.rs
@@ -100,7 +100,7 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.has_cases() {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[response_mod]]", &self.get_response_mod_name(request)?);
             output = output.replace("[[conclusions]]", &self.get_conclusions(request)?);
@@ -120,7 +120,7 @@ impl Render {
             if action.broadcast.is_empty() {
                 let mut out = templates::CONCLUSION_WITHOUT_BROADCAST.to_owned();
                 out = out.replace("[[response_mod]]", &self.get_response_mod_name(request)?);
-                out = out.replace("[[conclusion]]", &action.get_conclusion()?);
+                out = out.replace("[[conclusion]]", &action.get_case_name());
                 output = format!(
                     "{}{}{}",
                     output,
@@ -134,7 +134,7 @@ impl Render {
             } else {
                 let mut out = templates::CONCLUSION_WITH_BROADCAST.to_owned();
                 out = out.replace("[[response_mod]]", &self.get_response_mod_name(request)?);
-                out = out.replace("[[conclusion]]", &action.get_conclusion()?);
+                out = out.replace("[[conclusion]]", &action.get_case_name());
                 let mut broadcasts_declaration = String::new();
                 let mut broadcasts_processing = String::new();
                 for (pos, broadcast) in action.broadcast.iter().enumerate() {
diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index 2239344..a3599c6 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -58,7 +58,7 @@ impl Render {
             return Ok(());
         }
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.has_cases() {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[broadcast_types]]", &self.get_broadcast_types(request)?);
             output = output.replace(
@@ -88,7 +88,7 @@ impl Render {
                 output = format!(
                     "{}{}(protocol::{}),{}",
                     output,
-                    action.get_conclusion()?,
+                    action.get_case_name(),
                     tools::into_rust_path(&action.get_response()?),
                     if pos == request.actions.len() - 1 {
                         ""
@@ -102,7 +102,7 @@ impl Render {
                     brodcast_output = format!(
                         "{}{},{}",
                         brodcast_output,
-                        self.get_broadcast_type_name(broadcast),
+                        self.get_broadcast_type_name(request, broadcast),
                         if pos == action.broadcast.len() - 1 {
                             ""
                         } else {
@@ -113,7 +113,7 @@ impl Render {
                 output = format!(
                     "{}\n{}(\n\t(\n\t\tprotocol::{},\n{}\n\t)\n),{}",
                     output,
-                    action.get_conclusion()?,
+                    action.get_case_name(),
                     tools::into_rust_path(&action.get_response()?),
                     tools::inject_tabs(2, brodcast_output),
                     if pos == request.actions.len() - 1 {
@@ -128,33 +128,39 @@ impl Render {
     }
 
     fn get_broadcast_types(&self, request: &Request) -> Result<String, String> {
-        let mut output = String::new();
+        let mut types: Vec<String> = vec![];
         for action in request.actions.iter() {
-            if !action.broadcast.is_empty() {
-                for broadcast in action.broadcast.iter() {
-                    if broadcast.optional {
-                        output = format!(
-                            "{}type {} = Option<(Vec<Uuid>, protocol::{})>;\n",
-                            output,
-                            self.get_broadcast_type_name(broadcast),
-                            tools::into_rust_path(&broadcast.reference),
-                        );
-                    } else {
-                        output = format!(
-                            "{}type {} = (Vec<Uuid>, protocol::{});\n",
-                            output,
-                            self.get_broadcast_type_name(broadcast),
-                            tools::into_rust_path(&broadcast.reference),
-                        );
-                    }
+            for broadcast in action.broadcast.iter() {
+                let name = self.get_broadcast_type_name(request, broadcast);
+                let reference = tools::into_rust_path(&broadcast.reference);
+                let declaration = if broadcast.optional {
+                    format!("type {} = Option<(Vec<Uuid>, protocol::{})>;\n", name, reference)
+                } else {
+                    format!("type {} = (Vec<Uuid>, protocol::{});\n", name, reference)
+                };
+                // Same broadcast can be used with several responses
+                if !types.contains(&declaration) {
+                    types.push(declaration);
                 }
             }
         }
-        Ok(output)
+        Ok(types.concat())
     }
 
-    fn get_broadcast_type_name(&self, broadcast: &Broadcast) -> String {
-        format!("Broadcast{}", broadcast.reference.replace(".", ""))
+    fn get_broadcast_type_name(&self, request: &Request, broadcast: &Broadcast) -> String {
+        // Same broadcast can be optional with one response and required with another one
+        let ambiguous = broadcast.optional
+            && request.actions.iter().any(|action| {
+                action
+                    .broadcast
+                    .iter()
+                    .any(|b| b.reference == broadcast.reference && !b.optional)
+            });
+        format!(
+            "{}Broadcast{}",
+            if ambiguous { "Optional" } else { "" },
+            broadcast.reference.replace(".", "")
+        )
     }
 
     fn get_dest_file(&self, base: &Path, request: &Request) -> Result<PathBuf, String> {
diff --git a/cli/src/workflow/render/producer/typescript/render_event_emitter.rs b/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
index 46864be..f58327b 100644
--- a/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
+++ b/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
@@ -175,7 +175,7 @@ impl Render {
         Ok(tools::inject_tabs(
             1,
             format!(
-                r#"static REQUIRED = [{}
+                r#"static REQUIRED: Array<{{ getId(): number; getSignature(): string }}> = [{}
 ];"#,
                 tools::inject_tabs(1, broadcasts),
             ),
diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index 7820748..e22f4d5 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -76,12 +76,9 @@ export function handler(
 	});
 }"#;
     pub const BROADCAST_IMPL: &str = r#"[[name]](msg: Protocol.[[reference]]): Response {
-    if (
-        self._response.getId() !==
-        Protocol.[[conclusion]].getId()
-    ) {
+    if ([[conditions]]) {
         throw new Error(
-            `Message "Protocol.[[reference]]" can be used only with "Protocol.[[conclusion]]"`
+            `Message "Protocol.[[reference]]" can be used only with [[conclusions]]`
         );
     }
     if (
@@ -175,7 +172,7 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.has_cases() {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace(
                 "[[required_broadcasts]]",
@@ -222,11 +219,11 @@ impl Render {
                     broadcasts = format!("{}\nProtocol.{},", broadcasts, broadcast.reference);
                 }
                 output = format!(
-                    r#"{}{}static REQUIRED_{} = [{}
+                    r#"{}{}static REQUIRED_{}: Array<{{ getId(): number; getSignature(): string }}> = [{}
 ];"#,
                     output,
                     "\n",
-                    action.get_conclusion()?.to_uppercase(),
+                    action.get_case_name().to_uppercase(),
                     tools::inject_tabs(1, broadcasts),
                 );
             }
@@ -248,31 +245,68 @@ impl Render {
         Ok(output)
     }
 
-    fn get_methods_declarations(&self, request: &Request) -> Result<String, String> {
-        let mut output = String::new();
+    /// List of all broadcasts with responses, which can go together with a broadcast
+    fn get_broadcasts(&self, request: &Request) -> Result<Vec<(String, Vec<String>)>, String> {
+        let mut broadcasts: Vec<(String, Vec<String>)> = vec![];
         for action in request.actions.iter() {
+            let response = action.get_response()?;
             for broadcast in action.broadcast.iter() {
-                output = format!(
-                    "{}\n{}(msg: Protocol.{}): Response;",
-                    output,
-                    broadcast.reference.replace(".", ""),
-                    broadcast.reference,
-                );
+                match broadcasts
+                    .iter_mut()
+                    .find(|(reference, _)| reference == &broadcast.reference)
+                {
+                    Some((_, responses)) => {
+                        if !responses.contains(&response) {
+                            responses.push(response.clone());
+                        }
+                    }
+                    None => {
+                        broadcasts.push((broadcast.reference.clone(), vec![response.clone()]));
+                    }
+                }
             }
         }
+        Ok(broadcasts)
+    }
+
+    fn get_methods_declarations(&self, request: &Request) -> Result<String, String> {
+        let mut output = String::new();
+        for (reference, _) in self.get_broadcasts(request)?.iter() {
+            output = format!(
+                "{}\n{}(msg: Protocol.{}): Response;",
+                output,
+                reference.replace(".", ""),
+                reference,
+            );
+        }
         Ok(tools::inject_tabs(2, output))
     }
 
     fn get_methods_implementations(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
-        for action in request.actions.iter() {
-            for broadcast in action.broadcast.iter() {
-                let mut out = templates::BROADCAST_IMPL.to_owned();
-                out = out.replace("[[name]]", &broadcast.reference.replace(".", ""));
-                out = out.replace("[[reference]]", &broadcast.reference);
-                out = out.replace("[[conclusion]]", &action.get_response()?);
-                output = format!("{}\n{}", output, out,);
-            }
+        for (reference, responses) in self.get_broadcasts(request)?.iter() {
+            let conditions: Vec<String> = responses
+                .iter()
+                .map(|response| {
+                    format!(
+                        "\n        self._response.getId() !==\n        Protocol.{}.getId()",
+                        response
+                    )
+                })
+                .collect();
+            let conclusions: Vec<String> = responses
+                .iter()
+                .map(|response| format!("\"Protocol.{}\"", response))
+                .collect();
+            let mut out = templates::BROADCAST_IMPL.to_owned();
+            out = out.replace("[[name]]", &reference.replace(".", ""));
+            out = out.replace("[[reference]]", reference);
+            out = out.replace(
+                "[[conditions]]",
+                &format!("{}\n    ", conditions.join(" &&")),
+            );
+            out = out.replace("[[conclusions]]", &conclusions.join(" or "));
+            output = format!("{}\n{}", output, out,);
         }
         Ok(tools::inject_tabs(3, output))
     }
@@ -284,7 +318,7 @@ impl Render {
                 let mut out = templates::BROADCAST_CHECK.to_owned();
                 out = out.replace(
                     "[[requered_conclusion]]",
-                    &action.get_conclusion()?.to_uppercase(),
+                    &action.get_case_name().to_uppercase(),
                 );
                 out = out.replace("[[conclusion]]", &action.get_response()?);
                 output = format!("{}\n{}", output, out,);
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index bcbd0d5..3441e75 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -89,6 +89,13 @@ impl Action {
         }
     }
 
+    /// Name of response on producer side. Single response might be without conclusion
+    pub fn get_case_name(&self) -> String {
+        self.conclusion
+            .clone()
+            .unwrap_or_else(|| String::from("Response"))
+    }
+
     pub fn get_response(&self) -> Result<String, String> {
         if let Some(response) = self.response.as_ref() {
             Ok(String::from(response))
@@ -235,6 +242,12 @@ impl Request {
         }
     }
 
+    /// Returns true if handler of producer chooses between different responses or
+    /// provides broadcasts together with response
+    pub fn has_cases(&self) -> bool {
+        self.actions.len() > 1 || self.actions.iter().any(|a| !a.broadcast.is_empty())
+    }
+
     pub fn get_err(&self) -> Result<String, String> {
         if let Some(error) = self.error.as_ref() {
             Ok(error.to_string())
-- 
2.43.0


From 36621c7905162c6781366c8b99c4d82de8764d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 26/54] fix: sequence diagram does not show broadcasts of a
 single response

---
 .../workflow/render/puml/render_request.rs    | 41 ++++++++++---------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/cli/src/workflow/render/puml/render_request.rs b/cli/src/workflow/render/puml/render_request.rs
index 1edf2b6..b6144fd 100644
--- a/cli/src/workflow/render/puml/render_request.rs
+++ b/cli/src/workflow/render/puml/render_request.rs
@@ -1,4 +1,4 @@
-use super::{helpers::render as tools, workflow::request::Request};
+use super::{helpers::render as tools, workflow::request::{Action, Request}};
 
 mod templates {
     pub const MODULE: &str = r#"group [[name]]
@@ -41,33 +41,36 @@ impl RenderRequest {
                 } else {
                     return Err(String::from("Action doesn't have bound conclusion name"));
                 };
-                let reference = if let Some(reference) = action.response.as_ref() {
-                    reference
-                } else {
-                    return Err(String::from("Action doesn't have bound response reference"));
-                };
-                let mut broadcasts: String = String::new();
-                for broadcast in &action.broadcast {
-                    broadcasts = format!(
-                        "{}\nProducer {} Consumers: {}",
-                        broadcasts,
-                        if broadcast.optional { "-->" } else { "->" },
-                        broadcast.reference,
-                    );
-                }
                 output = format!(
                     r#"{}
 == {} ==
     Producer -> Consumer: {}{}"#,
                     output,
                     name,
-                    reference,
-                    tools::inject_tabs(1, broadcasts),
+                    action.get_response()?,
+                    tools::inject_tabs(1, self.get_broadcasts(action)),
                 );
             }
-        } else {
-            output = format!("\nProducer -> Consumer: {}", request.get_response()?);
+        } else if let Some(action) = request.actions.first() {
+            output = format!(
+                "\nProducer -> Consumer: {}{}",
+                action.get_response()?,
+                self.get_broadcasts(action)
+            );
         }
         Ok(output)
     }
+
+    fn get_broadcasts(&self, action: &Action) -> String {
+        let mut broadcasts: String = String::new();
+        for broadcast in &action.broadcast {
+            broadcasts = format!(
+                "{}\nProducer {} Consumers: {}",
+                broadcasts,
+                if broadcast.optional { "-->" } else { "->" },
+                broadcast.reference,
+            );
+        }
+        broadcasts
+    }
 }
-- 
2.43.0


From 9329a43e503e1c84f10c05efae8d227017790eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 27/54] fix: failed generation ends with exit status 0

---
 cli/src/ctrlargs.rs | 8 ++++++++
 cli/src/main.rs     | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/cli/src/ctrlargs.rs b/cli/src/ctrlargs.rs
index f61688a..278162e 100644
--- a/cli/src/ctrlargs.rs
+++ b/cli/src/ctrlargs.rs
@@ -129,6 +129,14 @@ impl CtrlArgs {
 
     pub fn actions(&self) -> Result<(), Vec<String>> {
         let mut errors: Vec<String> = vec![];
+        if let Some(ctrl) = self._ctrls.get(&EArgumentsNames::OptionHelp) {
+            if ctrl.as_ref().is_action_available() {
+                return ctrl
+                    .as_ref()
+                    .action(&self._ctrls)
+                    .map_err(|e| vec![e]);
+            }
+        }
         for ctrl in self._ctrls.values() {
             if let Err(e) = ctrl.as_ref().action(&self._ctrls) {
                 errors.push(e)
diff --git a/cli/src/main.rs b/cli/src/main.rs
index 312214c..af90535 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -21,6 +21,7 @@ fn main() {
         std::process::exit(1);
     }
     if let Err(errors) = ctrl.actions() {
-        println!("{}", errors.join("\n"))
+        println!("{}", errors.join("\n"));
+        std::process::exit(1);
     }
 }
-- 
2.43.0


From 1e1b4cf17daf7ac07c2410b58e232bfaf81ba001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:27 +0000
Subject: [PATCH 28/54] fix: keys without a value are ignored or take another
 key as a value

---
 cli/src/arguments/args_option_files.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cli/src/arguments/args_option_files.rs b/cli/src/arguments/args_option_files.rs
index 51bcb01..d6dafc4 100644
--- a/cli/src/arguments/args_option_files.rs
+++ b/cli/src/arguments/args_option_files.rs
@@ -60,6 +60,16 @@ impl ArgsOptionFiles {
         }
     }
 
+    fn get_value(&mut self, args: &[String], index: usize) -> Option<String> {
+        match args.get(index + 1) {
+            Some(value) if !value.is_empty() && !value.starts_with('-') => Some(value.to_owned()),
+            _ => {
+                self.set_err(format!("Key {} should have a value", args[index]));
+                None
+            }
+        }
+    }
+
     fn set_src(&mut self, path: PathBuf) {
         if !path.exists() {
             self.set_err(format!(
@@ -194,7 +204,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::SOURCE || arg == keys::SRC || arg == keys::S)
         {
-            if let Some(arg_str_src) = args.get(src_index + 1) {
+            if let Some(arg_str_src) = options.get_value(&args, src_index) {
                 options.set_src(Path::new(pwd).join(arg_str_src))
             }
         }
@@ -202,7 +212,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::WORKFLOW || arg == keys::WF)
         {
-            if let Some(arg_str_wf) = args.get(wf_index + 1) {
+            if let Some(arg_str_wf) = options.get_value(&args, wf_index) {
                 options.set_workflow(Path::new(pwd).join(arg_str_wf));
             }
         }
@@ -216,7 +226,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::DESTINATION_RS || arg == keys::DEST_RS || arg == keys::RS)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = options.get_value(&args, dest_index) {
                 options.set_dest_rs(Path::new(pwd).join(arg_str_dest), overwrite);
             }
         }
@@ -224,7 +234,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::DESTINATION_TS || arg == keys::DEST_TS || arg == keys::TS)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = options.get_value(&args, dest_index) {
                 options.set_dest_ts(Path::new(pwd).join(arg_str_dest), overwrite);
             }
         }
@@ -232,7 +242,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::CONSUMER_DEST || arg == keys::CD)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = options.get_value(&args, dest_index) {
                 options.set_dest_consumer(Path::new(pwd).join(arg_str_dest));
             }
         }
@@ -240,7 +250,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::PRODUCER_DEST || arg == keys::PD)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = options.get_value(&args, dest_index) {
                 options.set_dest_producer(Path::new(pwd).join(arg_str_dest));
             }
         }
@@ -248,7 +258,7 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::PUML || arg == keys::D)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = options.get_value(&args, dest_index) {
                 options.set_dest_uml(Path::new(pwd).join(arg_str_dest), overwrite);
             }
         }
@@ -274,7 +284,7 @@ impl CtrlArg for ArgsOptionFiles {
 
     fn get_err(&self) -> Option<String> {
         if self.has_errs() {
-            Some(self.errs.join(""))
+            Some(self.errs.join("\n"))
         } else {
             None
         }
-- 
2.43.0


From 03a91782d908dda9e6f81c77a6584e56f48f8be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 29/54] fix: files are changed although arguments, sources or
 packages are not valid

---
 cli/src/arguments/args_option_files.rs        | 71 ++++++++-----------
 .../workflow/render/consumer/rust/render.rs   |  4 ++
 .../render/consumer/rust/render_cargo.rs      |  7 +-
 .../render/consumer/typescript/render.rs      |  4 ++
 .../consumer/typescript/render_package.rs     |  7 +-
 .../workflow/render/producer/rust/render.rs   |  4 ++
 .../render/producer/rust/render_cargo.rs      |  7 +-
 .../render/producer/typescript/render.rs      |  4 ++
 .../producer/typescript/render_package.rs     |  7 +-
 cli/src/workflow/render/render.rs             | 17 +++++
 10 files changed, 88 insertions(+), 44 deletions(-)

diff --git a/cli/src/arguments/args_option_files.rs b/cli/src/arguments/args_option_files.rs
index d6dafc4..daa80ce 100644
--- a/cli/src/arguments/args_option_files.rs
+++ b/cli/src/arguments/args_option_files.rs
@@ -9,8 +9,6 @@ use super::{
 
 use std::{
     collections::HashMap,
-    fs,
-    fs::remove_file,
     path::{Path, PathBuf},
     time::Instant,
 };
@@ -97,6 +95,11 @@ impl ArgsOptionFiles {
             self.set_err(format!("Rust destination file already exists. Use key --overwrite (--ow or -o) to overwrite destination file. File: {}",
                 path.as_path().display().to_string(),
             ));
+        } else if path.is_dir() || !Self::has_parent(&path) {
+            self.set_err(format!(
+                "Rust destination file cannot be created. File: {}",
+                path.as_path().display().to_string(),
+            ));
         } else {
             self.dest_rs = Some(path);
         }
@@ -107,40 +110,35 @@ impl ArgsOptionFiles {
             self.set_err(format!("Typescript destination file already exists. Use key --overwrite (--ow or -o) to overwrite destination file. File: {}",
                 path.as_path().display().to_string(),
             ));
+        } else if path.is_dir() || !Self::has_parent(&path) {
+            self.set_err(format!(
+                "Typescript destination file cannot be created. File: {}",
+                path.as_path().display().to_string(),
+            ));
         } else {
             self.dest_ts = Some(path);
         }
     }
 
     fn set_dest_consumer(&mut self, path: PathBuf) {
-        if !path.exists() {
-            if let Err(err) = fs::create_dir(path.clone()) {
-                self.set_err(format!(
-                    "Consumer destination doesn't exist. Fail to create dest path: {}; error: {}",
-                    path.as_path().display().to_string(),
-                    err.to_string()
-                ));
-            } else {
-                self.dest_consumer = Some(path);
-            }
-        } else {
+        if path.is_dir() || (!path.exists() && Self::has_parent(&path)) {
             self.dest_consumer = Some(path);
+        } else {
+            self.set_err(format!(
+                "Consumer destination isn't a folder and cannot be created. Path: {}",
+                path.as_path().display().to_string()
+            ));
         }
     }
 
     fn set_dest_producer(&mut self, path: PathBuf) {
-        if !path.exists() {
-            if let Err(err) = fs::create_dir(path.clone()) {
-                self.set_err(format!(
-                    "Producer destination doesn't exist. Fail to create dest path: {}; error: {}",
-                    path.as_path().display().to_string(),
-                    err.to_string()
-                ));
-            } else {
-                self.dest_producer = Some(path);
-            }
-        } else {
+        if path.is_dir() || (!path.exists() && Self::has_parent(&path)) {
             self.dest_producer = Some(path);
+        } else {
+            self.set_err(format!(
+                "Producer destination isn't a folder and cannot be created. Path: {}",
+                path.as_path().display().to_string()
+            ));
         }
     }
 
@@ -149,11 +147,20 @@ impl ArgsOptionFiles {
             self.set_err(format!("PUML scheme destination file already exists. Use key --overwrite (--ow or -o) to overwrite destination file. File: {}",
                 path.as_path().display().to_string(),
             ));
+        } else if path.is_dir() || !Self::has_parent(&path) {
+            self.set_err(format!(
+                "PUML scheme destination file cannot be created. File: {}",
+                path.as_path().display().to_string(),
+            ));
         } else {
             self.dest_uml = Some(path);
         }
     }
 
+    fn has_parent(path: &Path) -> bool {
+        path.parent().map_or(false, |parent| parent.is_dir())
+    }
+
     fn set_err(&mut self, err: String) {
         self.errs.push(err);
     }
@@ -349,14 +356,6 @@ impl CtrlArg for ArgsOptionFiles {
                             return Err(format!("File {:?} exists. Use key \"overwrite\" to overwrite file. -h to get more info", dest));
                         } else if dest.exists() {
                             println!("[INFO] {:?} will be overwritten", dest);
-                            if let Err(err) = remove_file(dest.clone()) {
-                                return Err(format!(
-                                    "Fail to remove file {:?} due error: {}",
-                                    dest, err
-                                ));
-                            } else {
-                                println!("[INFO] {:?} clean", dest);
-                            }
                         }
                         RustRender::new(embedded, 0).render(&mut protocol_store, &dest)?;
                     }
@@ -365,14 +364,6 @@ impl CtrlArg for ArgsOptionFiles {
                             return Err(format!("File {:?} exists. Use key \"overwrite\" to overwrite file. -h to get more info", dest));
                         } else if dest.exists() {
                             println!("[INFO] {:?} will be overwritten", dest);
-                            if let Err(err) = remove_file(dest.clone()) {
-                                return Err(format!(
-                                    "Fail to remove file {:?} due error: {}",
-                                    dest, err
-                                ));
-                            } else {
-                                println!("[INFO] {:?} clean", dest);
-                            }
                         }
                         TypescriptRender::new(embedded, 0).render(&mut protocol_store, &dest)?;
                     }
diff --git a/cli/src/workflow/render/consumer/rust/render.rs b/cli/src/workflow/render/consumer/rust/render.rs
index 80fc68b..c7d8206 100644
--- a/cli/src/workflow/render/consumer/rust/render.rs
+++ b/cli/src/workflow/render/consumer/rust/render.rs
@@ -53,6 +53,10 @@ impl ImplementationRender<ProtocolRustRender> for RustRender {
         RustRender {}
     }
 
+    fn check(&self, base: &Path) -> Result<(), String> {
+        (render_cargo::Render::new()).load(base).map(|_| ())
+    }
+
     fn render(
         &self,
         base: &Path,
diff --git a/cli/src/workflow/render/consumer/rust/render_cargo.rs b/cli/src/workflow/render/consumer/rust/render_cargo.rs
index 59d8c46..2466a09 100644
--- a/cli/src/workflow/render/consumer/rust/render_cargo.rs
+++ b/cli/src/workflow/render/consumer/rust/render_cargo.rs
@@ -18,13 +18,18 @@ impl Render {
         Self {}
     }
 
-    pub fn render(&self, base: &Path) -> Result<(), String> {
+    pub fn load(&self, base: &Path) -> Result<(PathBuf, Value), String> {
         let target = self.get_target_file(base)?;
         let content = fs::read_to_string(target.clone())
             .map_err(|e| format!("Fail read {}; error: {}", target.to_string_lossy(), e))?;
         let cargo = content
             .parse::<Value>()
             .map_err(|e| format!("Fail parse {}; error: {}", target.to_string_lossy(), e))?;
+        Ok((target, cargo))
+    }
+
+    pub fn render(&self, base: &Path) -> Result<(), String> {
+        let (target, cargo) = self.load(base)?;
         let mut cargo_original = cargo.clone();
         let mut deps = match cargo {
             Value::Table(mut cargo) => {
diff --git a/cli/src/workflow/render/consumer/typescript/render.rs b/cli/src/workflow/render/consumer/typescript/render.rs
index a3f4779..09715a4 100644
--- a/cli/src/workflow/render/consumer/typescript/render.rs
+++ b/cli/src/workflow/render/consumer/typescript/render.rs
@@ -20,6 +20,10 @@ impl ImplementationRender<ProtocolTypescriptRender> for TypescriptRender {
         TypescriptRender {}
     }
 
+    fn check(&self, base: &Path) -> Result<(), String> {
+        (render_package::Render::new()).load(base).map(|_| ())
+    }
+
     fn render(
         &self,
         base: &Path,
diff --git a/cli/src/workflow/render/consumer/typescript/render_package.rs b/cli/src/workflow/render/consumer/typescript/render_package.rs
index ecb07eb..e9167c6 100644
--- a/cli/src/workflow/render/consumer/typescript/render_package.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_package.rs
@@ -18,13 +18,18 @@ impl Render {
         Self {}
     }
 
-    pub fn render(&self, base: &Path) -> Result<(), String> {
+    pub fn load(&self, base: &Path) -> Result<(PathBuf, Value), String> {
         let target = self.get_target_file(base)?;
         let content = fs::read_to_string(target.clone())
             .map_err(|e| format!("Fail read {}; error: {}", target.to_string_lossy(), e))?;
         let package = content
             .parse::<Value>()
             .map_err(|e| format!("Fail parse {}; error: {}", target.to_string_lossy(), e))?;
+        Ok((target, package))
+    }
+
+    pub fn render(&self, base: &Path) -> Result<(), String> {
+        let (target, package) = self.load(base)?;
         let mut package_original = package.clone();
         let mut deps = match package {
             Value::Object(mut package) => {
diff --git a/cli/src/workflow/render/producer/rust/render.rs b/cli/src/workflow/render/producer/rust/render.rs
index 1a72f49..7b2d331 100644
--- a/cli/src/workflow/render/producer/rust/render.rs
+++ b/cli/src/workflow/render/producer/rust/render.rs
@@ -32,6 +32,10 @@ impl ImplementationRender<ProtocolRustRender> for RustRender {
         RustRender {}
     }
 
+    fn check(&self, base: &Path) -> Result<(), String> {
+        (render_cargo::Render::new()).load(base).map(|_| ())
+    }
+
     fn render(
         &self,
         base: &Path,
diff --git a/cli/src/workflow/render/producer/rust/render_cargo.rs b/cli/src/workflow/render/producer/rust/render_cargo.rs
index 59d8c46..2466a09 100644
--- a/cli/src/workflow/render/producer/rust/render_cargo.rs
+++ b/cli/src/workflow/render/producer/rust/render_cargo.rs
@@ -18,13 +18,18 @@ impl Render {
         Self {}
     }
 
-    pub fn render(&self, base: &Path) -> Result<(), String> {
+    pub fn load(&self, base: &Path) -> Result<(PathBuf, Value), String> {
         let target = self.get_target_file(base)?;
         let content = fs::read_to_string(target.clone())
             .map_err(|e| format!("Fail read {}; error: {}", target.to_string_lossy(), e))?;
         let cargo = content
             .parse::<Value>()
             .map_err(|e| format!("Fail parse {}; error: {}", target.to_string_lossy(), e))?;
+        Ok((target, cargo))
+    }
+
+    pub fn render(&self, base: &Path) -> Result<(), String> {
+        let (target, cargo) = self.load(base)?;
         let mut cargo_original = cargo.clone();
         let mut deps = match cargo {
             Value::Table(mut cargo) => {
diff --git a/cli/src/workflow/render/producer/typescript/render.rs b/cli/src/workflow/render/producer/typescript/render.rs
index de022e5..11c8880 100644
--- a/cli/src/workflow/render/producer/typescript/render.rs
+++ b/cli/src/workflow/render/producer/typescript/render.rs
@@ -28,6 +28,10 @@ impl ImplementationRender<ProtocolTypescriptRender> for TypescriptRender {
         TypescriptRender {}
     }
 
+    fn check(&self, base: &Path) -> Result<(), String> {
+        (render_package::Render::new()).load(base).map(|_| ())
+    }
+
     fn render(
         &self,
         base: &Path,
diff --git a/cli/src/workflow/render/producer/typescript/render_package.rs b/cli/src/workflow/render/producer/typescript/render_package.rs
index ecb07eb..e9167c6 100644
--- a/cli/src/workflow/render/producer/typescript/render_package.rs
+++ b/cli/src/workflow/render/producer/typescript/render_package.rs
@@ -18,13 +18,18 @@ impl Render {
         Self {}
     }
 
-    pub fn render(&self, base: &Path) -> Result<(), String> {
+    pub fn load(&self, base: &Path) -> Result<(PathBuf, Value), String> {
         let target = self.get_target_file(base)?;
         let content = fs::read_to_string(target.clone())
             .map_err(|e| format!("Fail read {}; error: {}", target.to_string_lossy(), e))?;
         let package = content
             .parse::<Value>()
             .map_err(|e| format!("Fail parse {}; error: {}", target.to_string_lossy(), e))?;
+        Ok((target, package))
+    }
+
+    pub fn render(&self, base: &Path) -> Result<(), String> {
+        let (target, package) = self.load(base)?;
         let mut package_original = package.clone();
         let mut deps = match package {
             Value::Object(mut package) => {
diff --git a/cli/src/workflow/render/render.rs b/cli/src/workflow/render/render.rs
index 6de4269..c8be96e 100644
--- a/cli/src/workflow/render/render.rs
+++ b/cli/src/workflow/render/render.rs
@@ -28,6 +28,7 @@ use std::{
 
 pub trait ImplementationRender<T: ProtocolRender> {
     fn new() -> Self;
+    fn check(&self, base: &Path) -> Result<(), String>;
     fn render(
         &self,
         base: &Path,
@@ -51,6 +52,22 @@ pub fn render(
     if producer_dest.is_none() && !producer_outs.is_empty() {
         return Err(String::from("Destination folder for producer isn't defined. Use --producer-dest (or -pd) to define it."));
     }
+    if let Some(dest) = consumer_dest.as_ref() {
+        for out in consumer_outs {
+            match out {
+                Target::Rust => (ConsumerRustRender::new()).check(dest)?,
+                Target::TypeScript => (ConsumerTypescriptRender::new()).check(dest)?,
+            }
+        }
+    }
+    if let Some(dest) = producer_dest.as_ref() {
+        for out in producer_outs {
+            match out {
+                Target::Rust => (ProducerRustRender::new()).check(dest)?,
+                Target::TypeScript => (ProducerTypescriptRender::new()).check(dest)?,
+            }
+        }
+    }
     if let Some(consumer_dest) = consumer_dest.take() {
         mkdir(&consumer_dest)?;
         for out in consumer_outs {
-- 
2.43.0


From bcc2a4840b7feb04fea145f11555509fa4e798b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 30/54] fix: code of workflow is not generated if sequence
 diagram is requested, destinations are ignored without workflow

---
 cli/src/arguments/args_option_files.rs | 23 ++++++++++++++++-------
 cli/src/workflow/render/render.rs      | 10 +++++-----
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/cli/src/arguments/args_option_files.rs b/cli/src/arguments/args_option_files.rs
index daa80ce..85993fb 100644
--- a/cli/src/arguments/args_option_files.rs
+++ b/cli/src/arguments/args_option_files.rs
@@ -322,6 +322,11 @@ impl CtrlArg for ArgsOptionFiles {
                         t_parsing.elapsed().as_millis(),
                         src
                     );
+                    if self.workflow.is_none()
+                        && (self.dest_consumer.is_some() || self.dest_producer.is_some())
+                    {
+                        return Err(String::from("Code of consumer and producer can be created only based on workflow scheme. Please define path to workflow scheme"));
+                    }
                     if self.workflow.is_none() && self.dest_uml.is_some() {
                         return Err(String::from("PUML scheme can be created only based on workflow scheme. Please define path to workflow scheme"));
                     }
@@ -331,19 +336,23 @@ impl CtrlArg for ArgsOptionFiles {
                             WorkflowParser::new(workflow_path.to_owned())?;
                         match workflow.parse(&mut protocol_store) {
                             Ok(workflow_store) => {
+                                if self.dest_uml.is_none()
+                                    || self.dest_consumer.is_some()
+                                    || self.dest_producer.is_some()
+                                {
+                                    workflow_render(
+                                        self.dest_consumer.clone(),
+                                        self.dest_producer.clone(),
+                                        &workflow_store,
+                                        &mut protocol_store,
+                                    )?;
+                                }
                                 if let Some(uml_path) = self.dest_uml.as_ref() {
                                     (PumlRender::new()).render(
                                         uml_path,
                                         &workflow_store,
                                         &mut protocol_store,
                                     )?;
-                                } else {
-                                    workflow_render(
-                                        self.dest_consumer.clone(),
-                                        self.dest_producer.clone(),
-                                        workflow_store,
-                                        &mut protocol_store,
-                                    )?;
                                 }
                             }
                             Err(err) => {
diff --git a/cli/src/workflow/render/render.rs b/cli/src/workflow/render/render.rs
index c8be96e..e77e726 100644
--- a/cli/src/workflow/render/render.rs
+++ b/cli/src/workflow/render/render.rs
@@ -41,7 +41,7 @@ pub trait ImplementationRender<T: ProtocolRender> {
 pub fn render(
     mut consumer_dest: Option<PathBuf>,
     mut producer_dest: Option<PathBuf>,
-    store: WorkflowStore,
+    store: &WorkflowStore,
     protocol: &mut Protocol,
 ) -> Result<(), String> {
     let consumer_outs = &(store.get_config()?.consumer);
@@ -80,7 +80,7 @@ pub fn render(
                     }
                     (ConsumerRustRender::new()).render(
                         &dest,
-                        &store,
+                        store,
                         protocol,
                         ProtocolRustRender::new(true, 0),
                     )?;
@@ -92,7 +92,7 @@ pub fn render(
                     }
                     (ConsumerTypescriptRender::new()).render(
                         &dest,
-                        &store,
+                        store,
                         protocol,
                         ProtocolTypescriptRender::new(true, 0),
                     )?;
@@ -112,7 +112,7 @@ pub fn render(
                     }
                     (ProducerRustRender::new()).render(
                         &dest,
-                        &store,
+                        store,
                         protocol,
                         ProtocolRustRender::new(true, 0),
                     )?;
@@ -124,7 +124,7 @@ pub fn render(
                     }
                     (ProducerTypescriptRender::new()).render(
                         &dest,
-                        &store,
+                        store,
                         protocol,
                         ProtocolTypescriptRender::new(true, 0),
                     )?;
-- 
2.43.0


From bf0d4573cf70833b8bf7e3ebb6a51fe57ec44638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 31/54] fix: rust producer holds back valid messages of a chunk
 with an invalid package

---
 .../render/producer/rust/render_mod.rs        | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 44ba0c6..aabe875 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -405,24 +405,27 @@ pub mod producer {
             if consumer.get_identification().is_discredited() {
                 // Consumer is discredited do nothing with it
                 return Ok(());
-            } else if let Err(err) = consumer.chunk(&buffer) {
+            }
+            if let Err(err) = consumer.chunk(&buffer) {
                 responsing_err(
                     format!("fail to read chunk of data; error: {}", err),
                     uuid,
                     context,
                     control,
                     options,
-                    &mut Some(consumer),
+                    &mut Some(&mut *consumer),
                 )
                 .await?;
-                return Ok(());
-            } else {
-                (
-                    consumer.get_messages(),
-                    consumer.get_identification().assigned(),
-                    consumer.get_identification().has_key(),
-                )
+                if consumer.get_identification().is_discredited() {
+                    return Ok(());
+                }
             }
+            // Buffer keeps valid messages even if a chunk has an invalid package
+            (
+                consumer.get_messages(),
+                consumer.get_identification().assigned(),
+                consumer.get_identification().has_key(),
+            )
         } else {
             responsing_err(
                 String::from("fail to find consumer; message wouldn't be processed"),
-- 
2.43.0


From 94ac9d9c5907d2a0553dd61e56c8db0fa7e0eca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 32/54] fix: rust producer checks identification once per chunk
 and serves the rest of a chunk after disconnecting

---
 .../workflow/render/producer/rust/render_mod.rs  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index aabe875..a00d6d3 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -388,7 +388,7 @@ pub mod producer {
             "new chunk of data from {} has been gotten",
             uuid,
         );
-        let (messages, assigned, has_key) = if let Some(consumer) = consumers.get_mut(&uuid) {
+        let messages = if let Some(consumer) = consumers.get_mut(&uuid) {
             if !consumer.is_confirmed() {
                 disconnect(uuid, consumer, control).await?;
                 emitters::error::emit::<E, C>(
@@ -421,11 +421,7 @@ pub mod producer {
                 }
             }
             // Buffer keeps valid messages even if a chunk has an invalid package
-            (
-                consumer.get_messages(),
-                consumer.get_identification().assigned(),
-                consumer.get_identification().has_key(),
-            )
+            consumer.get_messages()
         } else {
             responsing_err(
                 String::from("fail to find consumer; message wouldn't be processed"),
@@ -447,6 +443,10 @@ pub mod producer {
             } else {
                 return Ok(());
             };
+            if consumer.get_identification().is_discredited() {
+                // Consumer is discredited; the rest of its messages should not be processed
+                return Ok(());
+            }
             match message {
                 [[indentification_self_enum_ref]] if !consumer.is_hash_accepted() => {
                     trace!(
@@ -585,7 +585,7 @@ pub mod producer {
                         )
                         .await
                         .map_err(ProducerError::EventEmitterError)?;
-                    } else if !has_key {
+                    } else if !consumer.get_identification().has_key() {
                         warn!(
                             target: logs::targets::PRODUCER,
                             "consumer {} tries to send data, but it doesn't have a key", uuid
@@ -600,7 +600,7 @@ pub mod producer {
                         )
                         .await
                         .map_err(ProducerError::EventEmitterError)?;
-                    } else if !assigned
+                    } else if !consumer.get_identification().assigned()
                         && options.producer_indentification_strategy
                             != ProducerIdentificationStrategy::Ignore
                     {
-- 
2.43.0


From 8e4c8149ed3997064cd2a5512223ba8dffed2baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 33/54] fix: rust producer stops if transport fails to
 disconnect or to confirm one consumer

---
 .../render/producer/rust/render_mod.rs        | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index a00d6d3..847f2c2 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -324,7 +324,13 @@ pub mod producer {
             return Ok(());
         }
         consumer.get_mut_identification().discredited();
-        control.disconnect(uuid).await?;
+        if let Err(err) = control.disconnect(uuid).await {
+            // Problem of one consumer should not stop a producer
+            warn!(
+                target: logs::targets::PRODUCER,
+                "{}:: fail to disconnect consumer: {}", uuid, err
+            );
+        }
         Ok(())
     }
 
@@ -809,14 +815,25 @@ pub mod producer {
                     MergedChannel::Confirmation(uuid) => {
                         if let Some(consumer) = consumers.get_mut(&uuid) {
                             consumer.confirm();
-                            control
+                            if let Err(err) = control
                                 .send(
                                     (protocol::InternalServiceGroup::ConnectConfirmationBeacon {})
                                         .pack(0, Some(uuid.to_string()))
                                         .map_err(|e| ProducerError::Protocol(uuid, e))?,
                                     Some(uuid),
                                 )
+                                .await
+                            {
+                                responsing_err(
+                                    format!("fail to confirm connection: {}", err),
+                                    uuid,
+                                    &mut context,
+                                    &control,
+                                    options,
+                                    &mut Some(consumer),
+                                )
                                 .await?;
+                            }
                         } else {
                             emitters::error::emit::<E, C>(
                                 ProducerError::ConsumerError(format!(
-- 
2.43.0


From 125dec8997b11a53ce8256fc5bdd06df6b19a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 34/54] fix: rust producer does not emit shutdown event if
 request of shutdown was dropped

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 847f2c2..4474d88 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -932,9 +932,13 @@ pub mod producer {
                 "shutdown has been requested"
             );
             if let Some(tx_response) = tx_response {
-                tx_response.send(()).map_err(|_| {
-                    ProducerError::ChannelError(String::from("Fail to send shutdown response"))
-                })?;
+                if tx_response.send(()).is_err() {
+                    // Nobody waits for a response any more
+                    warn!(
+                        target: logs::targets::PRODUCER,
+                        "fail to send shutdown response"
+                    );
+                }
             }
             drop(server);
             debug!(
-- 
2.43.0


From c763b6b60ed0ed6e5bfff1683b6e59900d62f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 35/54] fix: rust producer does not answer a beacon if its
 handler failed

---
 .../render/producer/rust/render_beacon_emitter.rs        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_beacon_emitter.rs b/cli/src/workflow/render/producer/rust/render_beacon_emitter.rs
index 69a1087..75c4fbb 100644
--- a/cli/src/workflow/render/producer/rust/render_beacon_emitter.rs
+++ b/cli/src/workflow/render/producer/rust/render_beacon_emitter.rs
@@ -20,15 +20,16 @@ pub async fn emit<E: server::Error, C: server::Control<E>>(
     control: &Control<E, C>,
 ) -> Result<(), EmitterError> {
     let mut scope: Scope<'_, E, C> = Scope::new(context, control, identification, filter);
-    beacons::[[beacon_mod]]::emit(beacon, &mut scope)
-        .await
-        .map_err(EmitterError::Emitting)?;
-    let mut response = protocol::InternalServiceGroup::BeaconConfirmation { error: None };
+    let result = beacons::[[beacon_mod]]::emit(beacon, &mut scope).await;
+    let mut response = protocol::InternalServiceGroup::BeaconConfirmation {
+        error: result.as_ref().err().cloned(),
+    };
     let buffer = pack(&sequence, &identification.uuid(), &mut response)?;
     control
         .send(buffer, Some(identification.uuid()))
         .await
         .map_err(|e: ProducerError<E>| EmitterError::Emitting(e.to_string()))?;
+    result.map_err(EmitterError::Emitting)?;
     scope.call().await;
     Ok(())
 }"#;
-- 
2.43.0


From 07ba1413e7395b562f0e762ad37bd967aeb939a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 36/54] fix: rust consumer holds back valid messages of a chunk
 with an invalid package

---
 .../render/consumer/rust/render_consumer.rs   | 97 +++++++++----------
 1 file changed, 47 insertions(+), 50 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 715f3bf..467eb04 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -520,61 +520,58 @@ where
                                 "has been received {} bytes",
                                 income.len()
                             );
-                            match buffer.chunk(&income, None) {
-                                Ok(()) => {
-                                    while let Some(msg) = buffer.next() {
-                                        if let protocol::AvailableMessages::InternalServiceGroup(
-                                            protocol::InternalServiceGroup::AvailableMessages::ConnectConfirmationBeacon(msg)
-                                        ) = msg.msg {
-                                            debug!(
+                            if let Err(err) = buffer.chunk(&income, None) {
+                                shortcuts::emit_error::<E>(
+                                    ConsumerError::BufferError(format!("{:?}", err)),
+                                    &tx_consumer_event,
+                                )
+                                .await;
+                            }
+                            // Buffer keeps valid messages even if a chunk has an invalid package
+                            while let Some(msg) = buffer.next() {
+                                if let protocol::AvailableMessages::InternalServiceGroup(
+                                    protocol::InternalServiceGroup::AvailableMessages::ConnectConfirmationBeacon(msg)
+                                ) = msg.msg {
+                                    debug!(
+                                        target: logs::targets::CONSUMER,
+                                        "producer has been confirmed connection"
+                                    );
+                                    let api_auth = api.clone();
+                                    let options_auth = options.clone();
+                                    let tx_auth_auth = tx_auth.clone();
+                                    spawn(async move {
+                                        if let Err(err) = tx_auth_auth
+                                            .send(Auth::SetUuid(auth(api_auth, options_auth).await))
+                                        {
+                                            error!(
                                                 target: logs::targets::CONSUMER,
-                                                "producer has been confirmed connection"
+                                                "fail to send response for consumer auth: {}", err
                                             );
-                                            let api_auth = api.clone();
-                                            let options_auth = options.clone();
-                                            let tx_auth_auth = tx_auth.clone();
-                                            spawn(async move {
-                                                if let Err(err) = tx_auth_auth
-                                                    .send(Auth::SetUuid(auth(api_auth, options_auth).await))
-                                                {
-                                                    error!(
-                                                        target: logs::targets::CONSUMER,
-                                                        "fail to send response for consumer auth: {}", err
-                                                    );
-                                                }
-                                            });
-                                            continue;
                                         }
-                                        match api.accept(msg.header.sequence, msg.msg.clone()).await
-                                        {
-                                            Ok(accepted) => {
-                                                if accepted {
-                                                    continue;
-                                                }
-                                            }
-                                            Err(err) => {
-                                                shortcuts::emit_error::<E>(
-                                                        ConsumerError::Pending(format!("Fail to handle broadcast Events::Connect; error: {}", err)),
-                                                        &tx_consumer_event
-                                                    ).await;
-                                            }
-                                        };
-                                        match msg.msg {[[broadcast_handlers]]
-                                            _ => {
-                                                shortcuts::emit_error::<E>(
-                                                    ConsumerError::UnknownMessage(format!("header: {:?}", msg.header)),
-                                                    &tx_consumer_event
-                                                ).await;
-                                            }
+                                    });
+                                    continue;
+                                }
+                                match api.accept(msg.header.sequence, msg.msg.clone()).await
+                                {
+                                    Ok(accepted) => {
+                                        if accepted {
+                                            continue;
                                         }
                                     }
-                                }
-                                Err(err) => {
-                                    shortcuts::emit_error::<E>(
-                                        ConsumerError::BufferError(format!("{:?}", err)),
-                                        &tx_consumer_event,
-                                    )
-                                    .await;
+                                    Err(err) => {
+                                        shortcuts::emit_error::<E>(
+                                                ConsumerError::Pending(format!("Fail to handle broadcast Events::Connect; error: {}", err)),
+                                                &tx_consumer_event
+                                            ).await;
+                                    }
+                                };
+                                match msg.msg {[[broadcast_handlers]]
+                                    _ => {
+                                        shortcuts::emit_error::<E>(
+                                            ConsumerError::UnknownMessage(format!("header: {:?}", msg.header)),
+                                            &tx_consumer_event
+                                        ).await;
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From f2327037a43e18bc6d3d403c55fa4b0fc5f48cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 37/54] fix: rust consumer stops if a call was dropped or its
 response came after timeout

---
 .../render/consumer/rust/render_consumer.rs   | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 467eb04..eaa5628 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -444,12 +444,12 @@ where
             }
             Channel::AcceptIncome((sequence, msg, tx_response)) => {
                 let accepted = if let Some(response) = pending.remove(&sequence) {
-                    response.send(msg).map_err(|_| {
-                        ConsumerError::APIChannel(format!(
-                            "Fail to use pending channel; sequence: {}",
-                            sequence
-                        ))
-                    })?;
+                    if response.send(msg).is_err() {
+                        debug!(
+                            target: logs::targets::CONSUMER,
+                            "no one waits for a response anymore; sequence: {}", sequence
+                        );
+                    }
                     true
                 } else {
                     false
@@ -472,11 +472,12 @@ where
                 if sequence >= u32::MAX - 1 {
                     sequence = 10;
                 }
-                tx_response.send(sequence).map_err(|_| {
-                    ConsumerError::APIChannel(String::from(
-                        "Fail to send response for for Channel::Sequence",
-                    ))
-                })?;
+                if tx_response.send(sequence).is_err() {
+                    debug!(
+                        target: logs::targets::CONSUMER,
+                        "no one waits for a sequence anymore: {}", sequence
+                    );
+                }
             }
             Channel::Shutdown(tx_response) => {
                 tx_shutdown.send(tx_response).await.map_err(|_| {
@@ -613,9 +614,12 @@ where
                     }
                 },
                 Auth::GetUuid(tx_response) => {
-                    tx_response.send(uuid).map_err(|_| {
-                        ConsumerError::APIChannel(String::from("Fail to response on uuid request"))
-                    })?;
+                    if tx_response.send(uuid).is_err() {
+                        debug!(
+                            target: logs::targets::CONSUMER,
+                            "no one waits for uuid anymore"
+                        );
+                    }
                 }
             },
         }
-- 
2.43.0


From 757adbd0b1370993dc122660dc69e3dab7ce1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 38/54] fix: rust consumer takes a broadcast as a response on
 its key during handshake

---
 cli/src/workflow/render/consumer/rust/render_consumer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index eaa5628..6c0f1f7 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -638,8 +638,8 @@ where
     let mut key = options.key.clone();
     let response = api
         .request(
-            0,
-            &key.pack(0, None)
+            1,
+            &key.pack(1, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
@@ -676,9 +676,9 @@ where
     };
     let response = api
         .request(
-            1,
+            2,
             &hash
-                .pack(1, None)
+                .pack(2, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
-- 
2.43.0


From 34be4e96d2112fa259cd4ac39482c478883075cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 39/54] fix: rust consumer does not reconnect if a call was
 made while connection was being lost

---
 .../workflow/render/consumer/rust/render_consumer.rs  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 6c0f1f7..b7822d4 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -461,11 +461,12 @@ where
                 })?;
             }
             Channel::Uuid(tx_response) => {
-                tx_auth.send(Auth::GetUuid(tx_response)).map_err(|_| {
-                    ConsumerError::APIChannel(String::from(
-                        "Fail to send response for for Channel::Uuid",
-                    ))
-                })?;
+                if tx_auth.send(Auth::GetUuid(tx_response)).is_err() {
+                    debug!(
+                        target: logs::targets::CONSUMER,
+                        "uuid is requested, but connection is already closed"
+                    );
+                }
             }
             Channel::Sequence(tx_response) => {
                 sequence += 1;
-- 
2.43.0


From a68c726752cfde1be2f65deb66d050f853c058c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 40/54] fix: rust consumer never finishes if it is shut down
 from a handler of an event

---
 .../render/consumer/rust/render_consumer.rs   | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index b7822d4..8963df8 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -210,8 +210,10 @@ where
     let emitter_consumer = consumer.clone();
     let cancel = api.get_shutdown_token();
     let cancel_shutdown_getter = api.get_shutdown_token();
+    let finished = CancellationToken::new();
+    let finished_caller = finished.clone();
     debug!(target: logs::targets::CONSUMER, "listener task is started");
-    let (rx_consumer_getter, context, mut shutdown, client) = join!(
+    let (rx_consumer_getter, context, shutdowned, client) = join!(
         async move {
             debug!(target: logs::targets::CONSUMER, "getter subtask is started");
             while let Some(tx_response) = select! {
@@ -256,9 +258,18 @@ where
                     );
                 }
                 cancel_shutdown_getter.cancel();
-                Some(tx_response)
+                // Request of shutdown can come from a handler of emitter subtask; that's why
+                // it should be answered without waiting for emitter subtask
+                finished.cancelled().await;
+                if tx_response.send(()).is_err() {
+                    error!(
+                        target: logs::targets::CONSUMER,
+                        "fail to send shutdown response/confirmation"
+                    );
+                }
+                true
             } else {
-                None
+                false
             }
         },
         async move {
@@ -341,6 +352,7 @@ where
             )
             .await;
             getter_task_canceler_caller.cancel();
+            finished_caller.cancel();
             debug!(
                 target: logs::targets::CONSUMER,
                 "listener subtask is finished"
@@ -355,17 +367,6 @@ where
         }
     );
     debug!(target: logs::targets::CONSUMER, "listener task is finished");
-    let shutdowned = if let Some(tx_response) = shutdown.take() {
-        if tx_response.send(()).is_err() {
-            error!(
-                target: logs::targets::CONSUMER,
-                "fail to send shutdown response/confirmation"
-            );
-        }
-        true
-    } else {
-        false
-    };
     match client {
         Ok(client) => Ok((client, context, rx_consumer_getter, shutdowned)),
         Err(err) => Err(err),
-- 
2.43.0


From 30a89fbcddd4c5e30ca05b9434f0aea73e657887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 41/54] fix: rust consumer does not reconnect if connection is
 lost during handshake

---
 cli/src/workflow/render/consumer/rust/render_consumer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 8963df8..7578f01 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -610,6 +610,13 @@ where
                             .send(Emitter::Connected)
                             .map_err(|e| ConsumerError::APIChannel(e.to_string()))?;
                     }
+                    Err(err) if cancel.is_cancelled() => {
+                        debug!(
+                            target: logs::targets::CONSUMER,
+                            "handshake is interrupted because connection is already closed: {}",
+                            err
+                        );
+                    }
                     Err(err) => {
                         shortcuts::emit_error::<E>(err.clone(), &tx_consumer_event).await;
                         return Err(err);
-- 
2.43.0


From 49e71474d2921d92043ba8c46f15d7c261ffc279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 42/54] fix: typescript consumer holds back valid messages of a
 chunk with an invalid package

---
 cli/src/workflow/render/consumer/typescript/render_consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 0c42841..b728dfe 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -243,8 +243,8 @@ export class Consumer {
     private _onData(buffer: ArrayBufferLike) {
         const errors: Error[] | undefined = this._buffer.chunk(buffer);
         if (errors instanceof Array) {
+            // Buffer keeps valid messages even if a chunk has an invalid package
             this._logger.err(`Fail to process chunk of data due error(s):\n\t${errors.map(e => e.message).join('\n\t')}`)
-            return;
         }
         do {
             const msg: Protocol.IAvailableMessage<Protocol.IAvailableMessages> | undefined =  this._buffer.next();
-- 
2.43.0


From 535ecdf580e1d2d454cd833c94774da1d6643ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 43/54] fix: typescript consumer never settles requests of a
 lost connection and joins its data with data of the next one

---
 .../consumer/typescript/render_consumer.rs    | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index b728dfe..a97af29 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -71,8 +71,8 @@ export class Consumer {
  
     private readonly _client: Client;
     private readonly _subscriptions: { [key: string]: Subscription } = {};
-    private readonly _pending: Map<number, (response: Protocol.IAvailableMessages) => void> = new Map();
-    private readonly _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
+    private readonly _pending: Map<number, { resolve: (response: Protocol.IAvailableMessages) => void, reject: (err: Error) => void }> = new Map();
+    private _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
     private readonly _logger: Logger;
     private readonly _options: Options;
     private _uuid: string | undefined;
@@ -146,6 +146,7 @@ export class Consumer {
 			const global = globals();
 			global[Consumer.GUID] = undefined;
 		}
+		this._dropPending(`Consumer is destroyed`);
 		return this._client.destroy();
 	}
 
@@ -160,8 +161,8 @@ export class Consumer {
         if (sequence === undefined) {
             return Promise.resolve({});
         }
-        return new Promise((resolve) => {
-            this._pending.set(sequence, resolve);
+        return new Promise((resolve, reject) => {
+            this._pending.set(sequence, { resolve, reject });
         });
     }
 
@@ -189,6 +190,12 @@ export class Consumer {
         return this._sequence ++;
     }
 
+    private _dropPending(reason: string) {
+        const pending = Array.from(this._pending.values());
+        this._pending.clear();
+        pending.forEach((request) => request.reject(new Error(reason)));
+    }
+
     private _hash(): Promise<void> {
         return new Promise((resolve, reject) => {
             const request: Protocol.InternalServiceGroup.HashRequest = new Protocol.InternalServiceGroup.HashRequest({
@@ -232,6 +239,8 @@ export class Consumer {
     private _onClientDisconnected() {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
+        this._buffer = new Protocol.BufferReaderMessages();
+        this._dropPending(`Client is disconnected`);
         this.disconnected.emit();
     }
 
@@ -254,7 +263,7 @@ export class Consumer {
             const pending = this._pending.get(msg.header.sequence);
             if (pending !== undefined) {
                 this._pending.delete(msg.header.sequence);
-                pending(msg.msg);
+                pending.resolve(msg.msg);
             }[[broadcasts_checking]]
             
         } while (true);
-- 
2.43.0


From c865317196c33a33891844708fbac6a651374d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 44/54] fix: typescript request or beacon cannot be sent again
 after transport failed to send it

---
 cli/src/workflow/render/consumer/typescript/render_beacon.rs  | 3 +++
 cli/src/workflow/render/consumer/typescript/render_request.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cli/src/workflow/render/consumer/typescript/render_beacon.rs b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
index 9f476b9..6a82002 100644
--- a/cli/src/workflow/render/consumer/typescript/render_beacon.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
@@ -104,6 +104,9 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
                     }
                 })
                 .catch((err: Error) => {
+                    if (this._state === ERequestState.Pending) {
+                        this._state = ERequestState.Ready;
+                    }
                     reject(err);
                 });
         });
diff --git a/cli/src/workflow/render/consumer/typescript/render_request.rs b/cli/src/workflow/render/consumer/typescript/render_request.rs
index d25bf40..ff5242e 100644
--- a/cli/src/workflow/render/consumer/typescript/render_request.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_request.rs
@@ -54,6 +54,9 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
                         return reject(new Error(`Unexpected state for request "[[reference]]".`));
                 }
             }).catch((err: Error) => {
+                if (this._state === ERequestState.Pending) {
+                    this._state = ERequestState.Ready;
+                }
                 reject(err);
             });
         });
-- 
2.43.0


From 01612615ba265c1b5fa3c47f2e97b5f18070fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 45/54] fix: typescript producer does not confirm connection,
 so rust consumers never start their handshake

---
 .../workflow/render/producer/typescript/render_mod.rs  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 1842f8d..ac216a3 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -174,6 +174,16 @@ export class Producer {
         const consumer = new Consumer(uuid, this._options, this._logger);
         this._logger.debug(`new connection accepted: ${uuid}`);
         this._consumers.set(uuid, consumer);
+        this.send(
+            uuid,
+            new Protocol.InternalServiceGroup.ConnectConfirmationBeacon(
+                {}
+            ).pack(0, uuid)
+        ).catch((err: Error) => {
+            this._logger.err(
+                `fail to send connection confirmation to ${uuid}; error: ${err.message}`
+            );
+        });
         this._checkErr(
             Events.connectedHandler(
                 consumer.getIdentification(),
-- 
2.43.0


From ed401361e8856e262a4eedb67d9c0a437ad23b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 46/54] fix: typescript producer holds back valid messages of a
 chunk with an invalid package or an unknown message

---
 cli/src/workflow/render/producer/typescript/render_mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index ac216a3..7c72571 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -250,7 +250,7 @@ export class Producer {
         }
         const error = consumer.chunk(event.buffer);
         if (error instanceof Error) {
-            return this._receivingErr(error, event.uuid, consumer);
+            this._receivingErr(error, event.uuid, consumer);
         }
         do {
             const message = consumer.message();
@@ -451,7 +451,6 @@ export class Producer {
 					)}`
 				);
 			} catch (_) {}
-            break;
         } while (true);
     }
 
-- 
2.43.0


From 0aa28cfe559d3a88e5a3aa9fd2d93c8e27849b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:09 +0000
Subject: [PATCH 47/54] fix: typescript producer serves messages of a consumer
 which it has decided to disconnect

---
 cli/src/workflow/render/producer/typescript/render_mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 7c72571..11d4b75 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -253,6 +253,9 @@ export class Producer {
             this._receivingErr(error, event.uuid, consumer);
         }
         do {
+            if (consumer.getIdentification().isDiscredited()) {
+                return;
+            }
             const message = consumer.message();
             if (message === undefined) {
                 return;
@@ -321,6 +324,7 @@ export class Producer {
                     );
                 });
                 if (hashErr !== undefined) {
+                    consumer.getIdentification().discredited();
                     this.disconnect(event.uuid).catch((err: Error) => {
                         this._logger.err(
                             `Fail to disconnect consumer ${event.uuid} because hash; error: ${err.message}`
@@ -341,6 +345,7 @@ export class Producer {
                 continue;
             }
             if (!consumer.isHashAccepted()) {
+                consumer.getIdentification().discredited();
                 this.disconnect(event.uuid).catch((err: Error) => {
                     this._logger.err(
                         `Fail to disconnect consumer ${event.uuid} because not accepted hash; error: ${err.message}`
@@ -363,6 +368,7 @@ export class Producer {
                 continue;
             }
             if (!consumer.getIdentification().hasKey()) {
+                consumer.getIdentification().discredited();
                 this.disconnect(event.uuid).catch((err: Error) => {
                     this._logger.err(
                         `Fail to disconnect consumer ${event.uuid} because key isn't setup; error: ${err.message}`
@@ -403,6 +409,7 @@ export class Producer {
                     this._options.producerIndentificationStrategy ===
                         ProducerIdentificationStrategy.EmitErrorAndDisconnect
                 ) {
+                    consumer.getIdentification().discredited();
                     this.disconnect(event.uuid).catch((err: Error) => {
                         this._logger.err(
                             `Fail to disconnect consumer ${event.uuid} because assigned key isn't setup; error: ${err.message}`
@@ -472,6 +479,7 @@ export class Producer {
                 ConsumerErrorHandelingStrategy.EmitErrorAndDisconnect
         ) {
             if (consumer !== undefined) {
+                consumer.getIdentification().discredited();
                 this.disconnect(uuid)
                     .then(() => {
                         this._logger.debug(
-- 
2.43.0


From 411e3f1337e67feafb2c0dffffe0c79762e41c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 48/54] fix: typescript producer takes every consumer as
 assigned

---
 .../render/producer/typescript/render_identification.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_identification.rs b/cli/src/workflow/render/producer/typescript/render_identification.rs
index adb72fd..c62c6be 100644
--- a/cli/src/workflow/render/producer/typescript/render_identification.rs
+++ b/cli/src/workflow/render/producer/typescript/render_identification.rs
@@ -62,7 +62,7 @@ export class Identification {
     }
 
     public assigned(): boolean {
-        if (this.assign === undefined) {
+        if (this._assigned === undefined) {
             switch (this._strategy) {
                 case ProducerIdentificationStrategy.Ignore:
                     return true;
-- 
2.43.0


From 4ca41f1ae37cb44a543b69896c242ea98307473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 49/54] fix: typescript producer merges key of one consumer
 into keys of others which were assigned with the same object

---
 .../render/producer/typescript/render_identification.rs   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_identification.rs b/cli/src/workflow/render/producer/typescript/render_identification.rs
index c62c6be..dc7e000 100644
--- a/cli/src/workflow/render/producer/typescript/render_identification.rs
+++ b/cli/src/workflow/render/producer/typescript/render_identification.rs
@@ -46,7 +46,9 @@ export class Identification {
     ): string {
         if (this._key === undefined || overwrite) {
             this._key = key;
-        } else {[[self_key_overwrite]]
+        } else {
+            // the object could be shared with other consumers
+            this._key = new Protocol.[[self_key]](this._key);[[self_key_overwrite]]
         }
         return this._uuid;
     }
@@ -57,7 +59,9 @@ export class Identification {
     ) {
         if (this._assigned === undefined || overwrite) {
             this._assigned = key;
-        } else {[[assign_key_overwrite]]
+        } else {
+            // the object could be shared with other consumers
+            this._assigned = new Protocol.[[assign_key]](this._assigned);[[assign_key_overwrite]]
         }
     }
 
-- 
2.43.0


From abe067a12e30a6a5a09d59062a3a5ab1553c5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 50/54] fix: typescript producer does not confirm a beacon if
 its handler failed

---
 .../producer/typescript/render_beacon_emitter.rs   | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_beacon_emitter.rs b/cli/src/workflow/render/producer/typescript/render_beacon_emitter.rs
index 46d927b..09f64ee 100644
--- a/cli/src/workflow/render/producer/typescript/render_beacon_emitter.rs
+++ b/cli/src/workflow/render/producer/typescript/render_beacon_emitter.rs
@@ -36,7 +36,19 @@ export function handler(
 					})
 					.catch(reject);
 			})
-			.catch(reject);
+			.catch((err: Error) => {
+				const confirmation =
+					new Protocol.InternalServiceGroup.BeaconConfirmation({
+						error: err instanceof Error ? err.message : `${err}`,
+					});
+				producer
+					.send(
+						consumer.uuid(),
+						confirmation.pack(sequence, consumer.uuid())
+					)
+					.then(() => reject(err))
+					.catch(() => reject(err));
+			});
 	});
 }"#;
 }
-- 
2.43.0


From be6ebb904f7e42d5c2e1dae109199126c8b5709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 51/54] fix: typescript consumer starts handshake before
 producer confirmed connection

---
 .../consumer/typescript/render_consumer.rs     | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index a97af29..42e3506 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -78,6 +78,7 @@ export class Consumer {
     private _uuid: string | undefined;
     private _key: Protocol.[[self_key_interface]];
     private _sequence: number = 1;
+    private _confirmed: boolean = false;
 
     public readonly connected: Subject<void> = new Subject(`connected`);
     public readonly ready: Subject<string> = new Subject(`ready`);
@@ -222,7 +223,16 @@ export class Consumer {
     }
 
     private _onClientConnected() {
-        this._logger.debug(`Client is connected`);
+        this._logger.debug(`Client is connected; waiting confirmation from producer...`);
+        this.connected.emit();
+    }
+
+    private _onConnectionConfirmed() {
+        if (this._confirmed) {
+            return;
+        }
+        this._confirmed = true;
+        this._logger.debug(`Producer has been confirmed connection`);
         this.assign(this._key).then((uuid: string) => {
             this._hash().then(() => {
                 this._logger.debug(`Protocol and workflow hashes has been accepted`);
@@ -233,12 +243,12 @@ export class Consumer {
         }).catch((err: Error) => {
             this._logger.err(`Default assign prodecure is failed: ${err.message}`);
         });
-        this.connected.emit();
     }
 
     private _onClientDisconnected() {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
+        this._confirmed = false;
         this._buffer = new Protocol.BufferReaderMessages();
         this._dropPending(`Client is disconnected`);
         this.disconnected.emit();
@@ -260,6 +270,10 @@ export class Consumer {
             if (msg === undefined) {
                 return;
             }
+            if (msg.msg.InternalServiceGroup !== undefined && msg.msg.InternalServiceGroup.ConnectConfirmationBeacon !== undefined) {
+                this._onConnectionConfirmed();
+                continue;
+            }
             const pending = this._pending.get(msg.header.sequence);
             if (pending !== undefined) {
                 this._pending.delete(msg.header.sequence);
-- 
2.43.0


From 203b1ac34f1bac9e2d7178c6768a5fc999940622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:18 +0000
Subject: [PATCH 52/54] fix: an answer of a lost connection does not reach the
 session after it

---
 .../render/consumer/typescript/render_consumer.rs   | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 42e3506..e89b9c7 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -79,6 +79,7 @@ export class Consumer {
     private _key: Protocol.[[self_key_interface]];
     private _sequence: number = 1;
     private _confirmed: boolean = false;
+    private _session: number = 0;
 
     public readonly connected: Subject<void> = new Subject(`connected`);
     public readonly ready: Subject<string> = new Subject(`ready`);
@@ -171,7 +172,11 @@ export class Consumer {
         return new Promise((resolve, reject) => {
             const request: Protocol.[[self_key]] = new Protocol.[[self_key]](key);
             const sequence: number = this.getSequence();
+            const session: number = this._session;
             this.request(request.pack(sequence), sequence).then((response: Protocol.IAvailableMessages) => {
+                if (session !== this._session) {
+                    return reject(new Error(this._logger.err(`Client has been disconnected.`)));
+                }
                 if (response.InternalServiceGroup === undefined) {
                     return reject(new Error(this._logger.err(`Expecting message from "InternalServiceGroup" group.`)));
                 }
@@ -233,8 +238,15 @@ export class Consumer {
         }
         this._confirmed = true;
         this._logger.debug(`Producer has been confirmed connection`);
+        const session: number = this._session;
         this.assign(this._key).then((uuid: string) => {
+            if (session !== this._session) {
+                return;
+            }
             this._hash().then(() => {
+                if (session !== this._session) {
+                    return;
+                }
                 this._logger.debug(`Protocol and workflow hashes has been accepted`);
                 this.ready.emit(uuid);
             }).catch((err: Error) => {
@@ -249,6 +261,7 @@ export class Consumer {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
         this._confirmed = false;
+        this._session += 1;
         this._buffer = new Protocol.BufferReaderMessages();
         this._dropPending(`Client is disconnected`);
         this.disconnected.emit();
-- 
2.43.0


From 64945f894739aac5e15eae2c7a0b64b1388bcfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:02 +0000
Subject: [PATCH 53/54] fix: typescript consumer, whose creation is refused,
 stays silent

---
 .../render/consumer/typescript/render_consumer.rs    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index e89b9c7..ea7a123 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -117,10 +117,7 @@ export class Consumer {
         this._key = key;
         this._options = new Options(`Consumer ${Consumer.GUID}`, options);
         this._logger = this._options.logger;
-        this._subscriptions.data = this._client.getEvents().data.subscribe(this._onData.bind(this));
-        this._subscriptions.connected = this._client.getEvents().connected.subscribe(this._onClientConnected.bind(this));
-        this._subscriptions.disconnected = this._client.getEvents().disconnected.subscribe(this._onClientDisconnected.bind(this));
-        this._subscriptions.error = this._client.getEvents().error.subscribe(this._onClientError.bind(this));
+        // Before any subscription: consumer, which isn't created, should not listen client
         if (this._options.global) {
             const global = globals();
             if (global instanceof Error) {
@@ -129,6 +126,13 @@ export class Consumer {
             if (global[Consumer.GUID] !== undefined) {
                 throw new Error(`Attempt to init consumer multiple times`);
             }
+        }
+        this._subscriptions.data = this._client.getEvents().data.subscribe(this._onData.bind(this));
+        this._subscriptions.connected = this._client.getEvents().connected.subscribe(this._onClientConnected.bind(this));
+        this._subscriptions.disconnected = this._client.getEvents().disconnected.subscribe(this._onClientDisconnected.bind(this));
+        this._subscriptions.error = this._client.getEvents().error.subscribe(this._onClientError.bind(this));
+        if (this._options.global) {
+            const global = globals();
             global[Consumer.GUID] = this;
             if (global[Consumer.GUID_SUBS] !== undefined) {
                 ((subject: Subject<Consumer>) => {
-- 
2.43.0


From 24df264b9741577b207dd8c9238375d7b879cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:02 +0000
Subject: [PATCH 54/54] fix: destroying of typescript consumer once again
 doesn't take away global consumer, which has replaced it

---
 .../workflow/render/consumer/typescript/render_consumer.rs    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index ea7a123..a82fa12 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -150,7 +150,9 @@ export class Consumer {
 		);
 		if (this._options.global) {
 			const global = globals();
-			global[Consumer.GUID] = undefined;
+			if (global[Consumer.GUID] === this) {
+				global[Consumer.GUID] = undefined;
+			}
 		}
 		this._dropPending(`Consumer is destroyed`);
 		return this._client.destroy();
-- 
2.43.0

