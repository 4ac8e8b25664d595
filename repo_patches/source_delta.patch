From 0beb85572f4b349c256f93c6583c9d8b5eb0042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 01/50] fix: ipcbus: ignore malformed datagrams instead of
 panicking the receive thread

---
 crates/ipcbus/src/udp_procbus.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index daaba3f..13acba8 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -126,6 +126,11 @@ impl ProcBus {
         self.0.listener.get_or_init(move || {
             let this = ProcBus(self.0.clone());
             self.0.udp.rx_thread(move |b| {
+                // Anything on this host can send to the multicast group.
+                if b.len() != 20 {
+                    tracing::warn!(len = b.len(), "Ignoring malformed bus message");
+                    return;
+                }
                 let (busid, rest) = b.split_at(8);
                 let busid = u64::from_ne_bytes(busid.try_into().unwrap());
                 if busid != this.0.bus_id {
-- 
2.43.0


From 9c545edaf3c903850323fb50657967d8ebf04e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 02/50] fix: ipcbus: an interrupted receive must not stop the
 bus thread

---
 crates/ipcbus/src/udp_multicast.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ipcbus/src/udp_multicast.rs b/crates/ipcbus/src/udp_multicast.rs
index d3ab364..1d339c7 100644
--- a/crates/ipcbus/src/udp_multicast.rs
+++ b/crates/ipcbus/src/udp_multicast.rs
@@ -51,7 +51,11 @@ fn recv(socket: Arc<Socket>, mut tx: impl FnMut(&[u8])) -> std::io::Result<()> {
     let align = buf.as_ptr().align_offset(4);
     let buf = &mut buf[align..];
     loop {
-        let (l, a) = socket.recv_from(buf)?;
+        let (l, a) = match socket.recv_from(buf) {
+            Ok(v) => v,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e),
+        };
         if !a.as_socket_ipv4().unwrap().ip().is_loopback() {
             continue;
         }
-- 
2.43.0


From de4edb106512ff192d9dcbe77cd25672dd1f6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 03/50] fix: ipcbus: replace the port map atomically

---
 crates/ipcbus/src/udp_procbus.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index 13acba8..8aa12f9 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -46,7 +46,10 @@ pub fn get_port(bus_id: u64) -> std::io::Result<u16> {
     bytes.extend(bus_id.to_ne_bytes());
     new_port = new_port.saturating_add(1);
     bytes.extend(new_port.to_ne_bytes());
-    std::fs::write(&path, bytes).unwrap();
+    // replace the map atomically: a crash halfway must not lose or tear existing entries
+    let tmp = std::env::temp_dir().join("procbus.map.tmp");
+    std::fs::write(&tmp, bytes).unwrap();
+    std::fs::rename(&tmp, &path).unwrap();
     lockfile.unlock().unwrap();
     Ok(new_port)
 }
-- 
2.43.0


From bfe5b9a695c674fb2fbdc689b3298de26ec524a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 04/50] fix: save within the same microsecond as the last log
 entry failed with KeyExist

---
 crates/core/src/env/lmdb/save.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/env/lmdb/save.rs b/crates/core/src/env/lmdb/save.rs
index a2fd020..4f8dd62 100644
--- a/crates/core/src/env/lmdb/save.rs
+++ b/crates/core/src/env/lmdb/save.rs
@@ -29,9 +29,9 @@ impl LMDBEnv {
                 let last: u64 = super::db::pktlog::val(recv.try_into().unwrap());
                 if last > start {
                     eprintln!("db log saved entries from the future? - this could become undefined behavior");
-
-                    start = last + 1;
                 }
+                // the log only accepts larger keys, also when two saves share a microsecond
+                start = start.max(last + 1);
             }
             Ok((None, _)) => unreachable!(),
             Err(Error::NotFound) => {}
-- 
2.43.0


From 372104b58ee87faac135777f70e6fb0b07ff7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 05/50] fix: opening an instance: create its type and id files
 atomically

A process that died (or ran out of space) between creating and writing
'type' or 'id' left an empty file behind, and every later open failed
('db type mismatch') or panicked. Two processes opening a new instance at
once could see the same. A failing create_db is an error, not a panic.
---
 crates/core/src/env/lmdb/db.rs | 61 ++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 4f22170..38844b7 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -88,6 +88,23 @@ pub fn as_io(e: lmdb::Error) -> std::io::Error {
     }
 }
 
+fn read_if_exists(path: &Path) -> Result<Option<Vec<u8>>> {
+    match std::fs::read(path) {
+        Ok(bytes) => Ok(Some(bytes)),
+        Err(e) if e.kind() == ErrorKind::NotFound => Ok(None),
+        Err(e) => Err(e),
+    }
+}
+
+/// `path` either does not exist or has all of `content`, even if we die halfway.
+fn create_atomic(path: &Path, content: &[u8]) -> Result<()> {
+    let tmp = path.with_extension("tmp");
+    let mut file = std::fs::File::create(&tmp)?;
+    file.write_all(content)?;
+    file.sync_all()?;
+    std::fs::rename(&tmp, path)
+}
+
 pub(crate) fn open(path: &Path, make_dir: bool) -> std::io::Result<LMDBEnv> {
     tracing::trace!(?path, make_dir, "open db");
     path.as_os_str().to_str().ok_or(io::Error::new(
@@ -97,35 +114,43 @@ pub(crate) fn open(path: &Path, make_dir: bool) -> std::io::Result<LMDBEnv> {
     if make_dir {
         std::fs::create_dir_all(path)?
     };
-    if let Ok(mut f) = std::fs::File::create_new(path.join("type")) {
-        f.write_all(b"lmdb")?;
-        f.flush()?;
-    }
-    if std::fs::read(path.join("type"))? != b"lmdb" {
+    let typefile = path.join("type");
+    // An incomplete file is what a process leaves behind when it dies while creating it.
+    if read_if_exists(&typefile)?.is_some_and(|t| !b"lmdb".starts_with(&t)) {
         return Err(io::Error::other("db type mismatch"));
     }
-    let idfile = path.join("id");
-    if let Ok(mut file) = std::fs::File::create_new(&idfile) {
-        let id: [u8; 8] = linkspace_pkt::now().0;
-        file.write_all(&id)?;
-        file.flush()?;
-    }
     let env = open_env(
         path,
         EnvironmentFlags::empty() | EnvironmentFlags::WRITE_MAP | EnvironmentFlags::NO_TLS,
     );
-    let pktlog = env.create_db(Some("pktlog"), pktlog::PKTLOG_FLAGS).unwrap();
-    let hash = env.create_db(Some("hash"), DatabaseFlags::empty()).unwrap();
+    let idfile = path.join("id");
+    let uid: [u8; 8] = {
+        // The write lock ensures everybody agrees on who creates the files
+        let _lock = env.begin_rw_txn().map_err(as_io)?;
+        if read_if_exists(&typefile)?.as_deref() != Some(b"lmdb") {
+            create_atomic(&typefile, b"lmdb")?;
+        }
+        match read_if_exists(&idfile)?.map(<[u8; 8]>::try_from) {
+            Some(Ok(uid)) => uid,
+            _ => {
+                let uid = linkspace_pkt::now().0;
+                create_atomic(&idfile, &uid)?;
+                uid
+            }
+        }
+    };
+    let pktlog = env
+        .create_db(Some("pktlog"), pktlog::PKTLOG_FLAGS)
+        .map_err(as_io)?;
+    let hash = env
+        .create_db(Some("hash"), DatabaseFlags::empty())
+        .map_err(as_io)?;
     let tree = env
         .create_db(
             Some("tree"),
             DatabaseFlags::DUP_SORT | DatabaseFlags::DUP_FIXED,
         )
-        .unwrap();
-    let uid: [u8; 8] = std::fs::read(idfile)
-        .unwrap()
-        .try_into()
-        .expect("expect 8 bytes");
+        .map_err(as_io)?;
     let uid = u64::from_be_bytes(uid);
     Ok(LMDBEnv {
         pktlog,
-- 
2.43.0


From 38b96684b845119ddfb785a30c27efa6cf026d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:34 +0000
Subject: [PATCH 06/50] fix: opening an instance: save the bootstrap packets in
 one transaction

A process that died between saving the public group and the LNS roots left
an instance that would never get the roots.
---
 crates/core/src/env/lmdb/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/env/lmdb/mod.rs b/crates/core/src/env/lmdb/mod.rs
index 876efad..472ecfc 100644
--- a/crates/core/src/env/lmdb/mod.rs
+++ b/crates/core/src/env/lmdb/mod.rs
@@ -56,10 +56,15 @@ impl BTreeEnv {
         if std::env::var_os("LK_FORCE_EMPTY").is_some() {
             return Ok(env);
         }
-        let new = env.save_ptr_one(&PUBLIC_GROUP_PKT)?.is_written();
-        if new && std::env::var_os("LK_NO_LNS").is_none() {
-            let mut roots: Vec<_> = LNS_ROOTS.iter().map(|p| (p, SaveState::Pending)).collect();
-            env.save_ptr(&mut roots)?;
+        let public_group: &NetPktPtr = &PUBLIC_GROUP_PKT;
+        let reader = env.new_read_txn().map_err(io::Error::other)?;
+        let is_new = reader.read_ptr(public_group.hash_ref())?.is_none();
+        drop(reader);
+        if is_new {
+            // One transaction - an instance never has the first without the others.
+            let roots = std::env::var_os("LK_NO_LNS").is_none();
+            let roots = roots.then(|| LNS_ROOTS.iter()).into_iter().flatten();
+            env.save_ptr_iter(std::iter::once(public_group).chain(roots))?;
         }
         Ok(env)
     }
-- 
2.43.0


From 2843869e8d2a2be1ef15aa58145e55b8d9a8d907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 07/50] fix: threads opening the same instance at once opened
 its database twice

get_env checked the table, opened, and then inserted, without holding the
lock in between; the second open panics.
---
 crates/common/src/static_env.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/crates/common/src/static_env.rs b/crates/common/src/static_env.rs
index 3dbff1d..8a398bf 100644
--- a/crates/common/src/static_env.rs
+++ b/crates/common/src/static_env.rs
@@ -13,7 +13,7 @@ use std::cell::OnceCell;
 /// TODO: allow multiple
 use std::io;
 use std::path::{Path, PathBuf};
-use std::sync::RwLock;
+use std::sync::{PoisonError, RwLock};
 
 static ENVS: RwLock<Option<FxHashMap<same_file::Handle, BTreeEnv>>> = RwLock::new(None);
 
@@ -30,19 +30,14 @@ pub fn get_env(path: &Path, mkdir: bool) -> io::Result<BTreeEnv> {
         }
         Err(e) => return Err(e),
     };
-    if let Some(v) = ENVS
-        .read()
-        .unwrap()
-        .as_ref()
-        .and_then(|o| o.get(&handle).cloned())
-    {
-        return Ok(v);
+    // Held until the env is in the table. A process must not open the same database twice.
+    let mut envs = ENVS.write().unwrap_or_else(PoisonError::into_inner);
+    let envs = envs.get_or_insert_default();
+    if let Some(v) = envs.get(&handle) {
+        return Ok(v.clone());
     }
     let env = BTreeEnv::open(path.to_owned(), mkdir)?;
-    ENVS.write()
-        .unwrap()
-        .get_or_insert_default()
-        .insert(handle, env.clone());
+    envs.insert(handle, env.clone());
     Ok(env)
 }
 
-- 
2.43.0


From e1ad00f614d2cd39448c7c910b59dc39e26e7265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 08/50] fix: tree queries skipped branches when jumping to the
 next depth, prefix or key

---
 crates/core/src/env/lmdb/tree_iter.rs | 21 +++++++++------------
 crates/core/src/predicate/treekey.rs  |  2 +-
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/crates/core/src/env/lmdb/tree_iter.rs b/crates/core/src/env/lmdb/tree_iter.rs
index 1ccab16..0457e1c 100644
--- a/crates/core/src/env/lmdb/tree_iter.rs
+++ b/crates/core/src/env/lmdb/tree_iter.rs
@@ -91,20 +91,17 @@ impl<'txn> TreeKeysIter<'txn> {
                         (true, true, true) => unreachable!(),
                         (false, _, _) => {
                             tracing::trace!(?depth, "Depth OOB, setting next depth");
-                            jump.push(
-                                self.req
-                                    .depth
-                                    .next_depth(depth.val.unwrap_or(255))
-                                    .unwrap_or(255),
-                            );
+                            jump.push(depth.val.unwrap_or(255));
                         }
                         (true, false, _) => {
-                            jump.push(
-                                self.req
-                                    .depth
-                                    .next_depth(depth.val.unwrap_or(255))
-                                    .unwrap_or(255),
-                            );
+                            let before =
+                                at.btree_key.space().space_bytes() < self.req.rspace.space_bytes();
+                            let depth = if before {
+                                depth.val
+                            } else {
+                                depth.val.and_then(|v| self.req.depth.next_depth(v))
+                            };
+                            jump.push(depth.unwrap_or(255));
                             tracing::trace!("Prefix OOB, extinding with lowerbound ");
                         }
                         (true, true, false) => {
diff --git a/crates/core/src/predicate/treekey.rs b/crates/core/src/predicate/treekey.rs
index d1418af..4c0749c 100644
--- a/crates/core/src/predicate/treekey.rs
+++ b/crates/core/src/predicate/treekey.rs
@@ -47,7 +47,7 @@ impl TreeKeys {
         btree_key.extend_from_slice(&Domain::from(domain).0);
         btree_key.push(depth);
         btree_key.extend(rspace.space_bytes());
-        btree_key.extend_from_slice(&pubkey.to_be_bytes::<32>());
+        // A deeper space has more components here. These can sort before any pubkey.
         Ok(btree_key)
     }
 }
-- 
2.43.0


From 1eb822e3c715d8197c63c8c89b2f960091e50b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 09/50] fix: a tree query for depths that no space has panicked

---
 crates/core/src/env/lmdb/queries.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 7392685..e6d96a1 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -43,7 +43,8 @@ impl<'txn> ReadTxn<'txn> {
         order: Order,
     ) -> Option<(TreeEntryRef<'txn>, TreeKeysIter<'txn>)> {
         let req = rules.compile_tree_keys(order.is_asc()).unwrap();
-        let lower_bound = req.lower_bound().unwrap();
+        // Without a lower bound there is no key that can match
+        let lower_bound = req.lower_bound().ok()?;
         let iter_dup = self.0.tree_cursor().iter_dup(order.is_asc());
         let at = iter_dup
             .set_range(&lower_bound)
-- 
2.43.0


From 0fbe1f53ce3fa615eb396310d579a4bebe725c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 10/50] fix: newest first tree query for exactly one create
 stamp missed packets

---
 crates/core/src/env/lmdb/db.rs        |  2 +-
 crates/core/src/env/lmdb/tree_iter.rs | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 38844b7..387cc4d 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -309,7 +309,7 @@ impl<'txn> HashCursor<'txn> {
 
 pub struct IterDup<'txn> {
     cur: RoCursor<'txn>,
-    value_asc: bool,
+    pub(super) value_asc: bool,
 }
 impl<'o> Debug for IterDup<'o> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
diff --git a/crates/core/src/env/lmdb/tree_iter.rs b/crates/core/src/env/lmdb/tree_iter.rs
index 0457e1c..718e4b3 100644
--- a/crates/core/src/env/lmdb/tree_iter.rs
+++ b/crates/core/src/env/lmdb/tree_iter.rs
@@ -26,11 +26,20 @@ impl<'txn> TreeKeysIter<'txn> {
             .map(spd)
             .filter(|v| self.req.cstamp.contains(v.create()))
     }
+    fn stamp_cmp(&self, at: &TreeEntryRef<'txn>) -> IterCmp {
+        let range = self.req.cstamp;
+        match range.iter_cmp(at.create()) {
+            // A range of one stamp has no direction of its own
+            IterCmp::Pre if range.start == range.end && !self.iter_dup.value_asc => IterCmp::Post,
+            IterCmp::Post if range.start == range.end && !self.iter_dup.value_asc => IterCmp::Pre,
+            cmp => cmp,
+        }
+    }
     fn next_stamp_match(&self, at: &mut TreeEntryRef<'txn>) -> Result<(), ()> {
-        let mut cmp = self.req.cstamp.iter_cmp(at.create());
+        let mut cmp = self.stamp_cmp(at);
         while cmp == IterCmp::Pre {
             *at = self.iter_dup.get_next_entry().map(spd).ok_or(())?;
-            cmp = self.req.cstamp.iter_cmp(at.create());
+            cmp = self.stamp_cmp(at);
         }
         if cmp == IterCmp::In {
             Ok(())
-- 
2.43.0


From 92864f64864a3c8b1954c495d6e34f4fd66ce30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 11/50] fix: tree query with i_branch went on after its last
 branch

---
 crates/core/src/env/lmdb/queries.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index e6d96a1..a1e8a29 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -117,6 +117,7 @@ impl<'txn> ReadTxn<'txn> {
                         None => {
                             key_ptr = keys_iter.as_mut().and_then(|v| v.next_scope());
                             yields = nth_find_set.iter(0);
+                            cnt = key_ptr.is_some();
                         }
                     }
                 }
-- 
2.43.0


From 245529bbbfa8afc52074ac5e8e589a7148678682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 12/50] fix: log queries ignored the recv bounds

---
 crates/core/src/env/lmdb/db.rs  | 38 ++++++++++++++++++++++++---------
 crates/core/src/env/lmdb/get.rs |  9 +++++++-
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index 387cc4d..fefa8ec 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -240,6 +240,32 @@ pub mod pktlog {
     }
 }
 
+/// Iterate down from the last key that is not greater than `start`
+fn iter_rev_from<'txn>(
+    cursor: RoCursor<'txn>,
+    start: &[u8],
+) -> impl Iterator<Item = (&'txn [u8], &'txn [u8])> {
+    let it = match cursor.get(Some(start), None, ffi::MDB_SET_RANGE) {
+        Ok((Some(k), _)) if k == start => Iter::Ok {
+            cursor,
+            op: ffi::MDB_GET_CURRENT,
+            next_op: ffi::MDB_PREV,
+        },
+        Ok(_) => Iter::Ok {
+            cursor,
+            op: ffi::MDB_PREV,
+            next_op: ffi::MDB_PREV,
+        },
+        Err(Error::NotFound) => Iter::Ok {
+            cursor,
+            op: ffi::MDB_LAST,
+            next_op: ffi::MDB_PREV,
+        },
+        Err(error) => Iter::Err(error),
+    };
+    it.map_while(|kv| kv.ok())
+}
+
 impl<'txn> PktLogCursor<'txn> {
     pub(crate) fn range_uniq(self, start: &u64) -> impl Iterator<Item = (u64, &'txn [u8])> {
         let c = self.0.iter_from(pktlog::bytes(*start));
@@ -254,16 +280,8 @@ impl<'txn> PktLogCursor<'txn> {
         })
     }
     pub(crate) fn range_uniq_rev(self, start: &u64) -> impl Iterator<Item = (u64, &'txn [u8])> {
-        let start = *start;
-        let it = match self.0.get(Some(&pktlog::bytes(start)), None, ffi::MDB_LAST) {
-            Ok(_) | Err(Error::NotFound) => Iter::Ok {
-                cursor: self.0,
-                op: ffi::MDB_GET_CURRENT,
-                next_op: ffi::MDB_PREV,
-            },
-            Err(error) => Iter::Err(error),
-        };
-        it.map_while(|kv| kv.ok()).map(|(k, v)| {
+        let start = pktlog::bytes(*start);
+        iter_rev_from(self.0, &start).map(|(k, v)| {
             let k = pktlog::val(k.try_into().unwrap());
             let v = assert_align(v);
             (k, v)
diff --git a/crates/core/src/env/lmdb/get.rs b/crates/core/src/env/lmdb/get.rs
index d5e8f91..fd205d3 100644
--- a/crates/core/src/env/lmdb/get.rs
+++ b/crates/core/src/env/lmdb/get.rs
@@ -63,12 +63,19 @@ impl<'env> ReadTxn<'env> {
     pub fn log_range(&self, q: StampRange) -> impl Iterator<Item = RecvPktPtr> {
         let dir = IterDirection::from(q.start, q.end);
         if dir.is_forward() {
-            Either::Left(self.0.pkt_cursor().range_uniq(&q.start).map(as_recv_ptr))
+            Either::Left(
+                self.0
+                    .pkt_cursor()
+                    .range_uniq(&q.start)
+                    .take_while(move |(k, _)| *k <= q.end)
+                    .map(as_recv_ptr),
+            )
         } else {
             Either::Right(
                 self.0
                     .pkt_cursor()
                     .range_uniq_rev(&q.start)
+                    .take_while(move |(k, _)| *k >= q.end)
                     .map(as_recv_ptr),
             )
         }
-- 
2.43.0


From 264e36883fbbe19afbe56af1eb56a362ac694988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 13/50] fix: log queries applied i_branch to log positions
 instead of ignoring it

---
 crates/core/src/env/lmdb/queries.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index a1e8a29..7c70135 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -161,8 +161,6 @@ impl<'txn> ReadTxn<'txn> {
         let log_range = recv.stamp_range(ord.is_asc());
         let it = self.log_range(log_range);
 
-        let nth_find_set = rules.state.i_branch.iter(0);
-        let it = it.zip(nth_find_set).filter_map(|(v, ok)| ok.then_some(v));
         let it = it.filter(move |pkt| tests.test(**pkt));
 
         let nth_log_set = rules.state.i_db.iter(0);
-- 
2.43.0


From b90e2b96bf218c2eb3b20729f4184d0de4cd50dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 14/50] fix: implement hash-desc queries instead of panicking

---
 crates/core/src/env/lmdb/db.rs      |  9 +++++++
 crates/core/src/env/lmdb/queries.rs | 40 +++++++++++------------------
 2 files changed, 24 insertions(+), 25 deletions(-)

diff --git a/crates/core/src/env/lmdb/db.rs b/crates/core/src/env/lmdb/db.rs
index fefa8ec..ba7ab76 100644
--- a/crates/core/src/env/lmdb/db.rs
+++ b/crates/core/src/env/lmdb/db.rs
@@ -316,6 +316,15 @@ impl<'txn> HashCursor<'txn> {
             (k.try_into().unwrap(), v)
         })
     }
+    pub(crate) fn range_uniq_rev(
+        self,
+        start: &[u8; 32],
+    ) -> impl Iterator<Item = (&'txn [u8; 32], u64)> {
+        iter_rev_from(self.0, start).map(|(k, v)| {
+            let v = u64::from_ne_bytes(v.try_into().unwrap());
+            (k.try_into().unwrap(), v)
+        })
+    }
     pub(crate) fn read_uniq(&self, key: &[u8; 32]) -> Result<Option<u64>> {
         match self.0.get(Some(key), None, ffi::MDB_SET) {
             Err(lmdb::Error::NotFound) => Ok(None),
diff --git a/crates/core/src/env/lmdb/queries.rs b/crates/core/src/env/lmdb/queries.rs
index 7c70135..b34c973 100644
--- a/crates/core/src/env/lmdb/queries.rs
+++ b/crates/core/src/env/lmdb/queries.rs
@@ -174,32 +174,22 @@ impl<'txn> ReadTxn<'txn> {
         ord: Order,
     ) -> impl Iterator<Item = Stamp> + '_ {
         use crate::predicate::value_test::*;
-        match ord {
-            Order::Asc => {
-                let TestSet {
-                    bound:
-                        Bound {
-                            low: greater_eq,
-                            high: less_eq,
-                        },
-                    mask,
-                } = hashset;
-                if mask != Mask::DEFAULT {
-                    tracing::warn!("todo impl hash mask jumping");
-                }
-                let greater_eq: B64<[u8; 32]> = greater_eq.into();
-                self.0
-                    .hash_cursor()
-                    .range_uniq(&greater_eq)
-                    .map(|(hash, stamp)| (B64(*hash).into(), stamp))
-                    .take_while(move |(v, _)| *v <= less_eq)
-                    .filter(move |(v, stamp): &(U256, _)| recv_bound.test(*stamp) && mask.test(v))
-                    .map(|(_, stamp)| stamp.into())
-            }
-            Order::Desc => {
-                todo!("hash desc not yet impl");
-            }
+        let TestSet {
+            bound: Bound { low, high },
+            mask,
+        } = hashset;
+        if mask != Mask::DEFAULT {
+            tracing::warn!("todo impl hash mask jumping");
         }
+        let cursor = self.0.hash_cursor();
+        let it = match ord {
+            Order::Asc => Either::Left(cursor.range_uniq(&B64::from(low))),
+            Order::Desc => Either::Right(cursor.range_uniq_rev(&B64::from(high))),
+        };
+        it.map(|(hash, stamp)| -> (U256, u64) { (B64(*hash).into(), stamp) })
+            .take_while(move |(v, _)| low <= *v && *v <= high)
+            .filter(move |(v, stamp)| recv_bound.test(*stamp) && mask.test(v))
+            .map(|(_, stamp)| stamp.into())
     }
     pub fn query_hash(
         &'txn self,
-- 
2.43.0


From e2de67b1cb3057ea1d17f93ad4a9a6e662f459ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 15/50] fix: predicates with contradicting masks were accepted
 (or panicked in debug builds)

---
 crates/core/src/predicate/value_test.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index fc73bfe..2f85ca0 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -549,6 +549,9 @@ impl<U: UInt> TestSet<U> {
         !self.has_any()
     }
     pub fn min_value(&self) -> Option<U> {
+        if !self.mask.has_any() {
+            return None;
+        }
         let v = self.mask.in_set(self.bound.low)?;
         if self.bound.high < v {
             None
-- 
2.43.0


From 054dee329c4170e9fb5bc5ee84aa5c55fb8f6d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 16/50] fix: printed queries escaped padded bytes twice and
 could not be parsed again

---
 crates/byte-fmt/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/byte-fmt/src/lib.rs b/crates/byte-fmt/src/lib.rs
index c7a5042..e06c473 100644
--- a/crates/byte-fmt/src/lib.rs
+++ b/crates/byte-fmt/src/lib.rs
@@ -159,12 +159,11 @@ where
     fn write_abe(&self, out: &mut dyn FnMut(ABE)) {
         let (max_padded, bytes) = self.x_prefix_cut();
         let mode = if max_padded { MAX_STR } else { "a" };
-        let st = abe::abtxt::as_abtxt(bytes);
-        let st: &str = st.borrow();
+        // the bytes are escaped when the expression is printed
         if self.as_ref().len() == 16 {
-            abe::abe!({ mode : st  }).for_each(out)
+            abe::abe!({ mode : bytes  }).for_each(out)
         } else {
-            abe::abe!({ mode : st : (self.as_ref().len().to_string()) }).for_each(out)
+            abe::abe!({ mode : bytes : (self.as_ref().len().to_string()) }).for_each(out)
         }
     }
     fn to_abe_str(&self) -> String {
-- 
2.43.0


From 974f1ab4a2c234572f920f030fb3bdb06a0474d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 17/50] fix: an event between processing the log and waiting
 was missed

---
 crates/common/src/runtime/rx.rs  |  8 ++++++--
 crates/core/src/env/lmdb/mod.rs  | 18 ++++++++++++++++++
 crates/ipcbus/src/udp_procbus.rs | 21 +++++++++++++++++++++
 3 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index a9b45f9..f011e3f 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -130,9 +130,11 @@ impl Linkspace {
     }
     pub async fn poll(&self) -> Stamp {
         loop {
+            // read before processing - anything announced in the meantime is not waited for
+            let seen = self.env().last_event();
             self.process();
             let rt_head = self.0.exec.process_upto.get();
-            let env_head = self.env().log_head().await;
+            let env_head = self.env().log_head_after(seen).await;
             if env_head == rt_head {
                 return env_head;
             }
@@ -178,6 +180,8 @@ impl Linkspace {
         // check the break conditions, and update 'next_check' as required for next check
         let mut awoken = None;
         loop {
+            // read before processing - anything announced in the meantime is not waited for
+            let seen = self.env().last_event();
             let log_head = self.process();
             tracing::trace!(ev_notify=?awoken,db_head=?log_head,"step");
             if let Some(awoken) = awoken {
@@ -249,7 +253,7 @@ impl Linkspace {
             };
 
             tracing::debug!(wakeup=?d(next_check), "waiting for new event");
-            awoken = self.env().next_deadline(Some(next_check));
+            awoken = self.env().next_deadline_after(seen, Some(next_check));
         }
     }
 
diff --git a/crates/core/src/env/lmdb/mod.rs b/crates/core/src/env/lmdb/mod.rs
index 472ecfc..a38ef9c 100644
--- a/crates/core/src/env/lmdb/mod.rs
+++ b/crates/core/src/env/lmdb/mod.rs
@@ -84,6 +84,24 @@ impl BTreeEnv {
     pub fn next_deadline(&self, deadline: Option<std::time::Instant>) -> Option<u64> {
         self.0.log_head.next_deadline(deadline)
     }
+    /// The last announced log head, to be read before looking at the log.
+    pub fn last_event(&self) -> u64 {
+        self.0.log_head.val()
+    }
+    /// wait until a log head after `seen` is announced
+    pub async fn log_head_after(&self, seen: u64) -> Stamp {
+        let v = self.0.log_head.next_async_after(seen).await;
+        Stamp::new(v)
+    }
+
+    /// wait until a log head after `seen` is announced
+    pub fn next_deadline_after(
+        &self,
+        seen: u64,
+        deadline: Option<std::time::Instant>,
+    ) -> Option<u64> {
+        self.0.log_head.next_deadline_after(seen, deadline)
+    }
     // private generic function.
     fn save<P: NetPkt>(&self, pkts: &mut [(P, SaveState)]) -> io::Result<Range<u64>> {
         let range = self.0.lmdb.save(pkts).map_err(db::as_io)?;
diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index 8aa12f9..46a0a62 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -153,12 +153,23 @@ impl ProcBus {
     pub fn val(&self) -> u64 {
         self.0.val.load(Ordering::SeqCst)
     }
+    /// Wait for the next event.
     pub fn next_deadline(&self, deadline: Option<Instant>) -> Option<u64> {
+        self.next_deadline_after(u64::MAX, deadline)
+    }
+    /// Wait for the next event, or return at once if something newer than `seen` was already emitted.
+    /// A caller that reads [Self::val] before it looks for work never misses an event in between.
+    pub fn next_deadline_after(&self, seen: u64, deadline: Option<Instant>) -> Option<u64> {
         tracing::trace!(ptr=%format!("{:p}",&self.0.val)
                         ,val=&self.0.val.load(Ordering::Relaxed),"Waiting");
         let mut listener = EventListener::new(&self.0.proc);
         let mut listener = unsafe { std::pin::Pin::new_unchecked(&mut listener) };
         listener.as_mut().listen();
+        let val = self.0.val.load(Ordering::SeqCst);
+        if val > seen {
+            tracing::trace!(val, seen, "Already emitted");
+            return Some(val);
+        }
         match deadline {
             Some(d) => {
                 if listener.as_mut().wait_deadline(d).is_none() {
@@ -172,10 +183,20 @@ impl ProcBus {
         tracing::trace!(val, "Wakeup");
         Some(val)
     }
+    /// See [Self::next_deadline]
     pub async fn next_async(&self) -> u64 {
+        self.next_async_after(u64::MAX).await
+    }
+    /// See [Self::next_deadline_after]
+    pub async fn next_async_after(&self, seen: u64) -> u64 {
         let mut listener = EventListener::new(&self.0.proc);
         let mut listener = unsafe { std::pin::Pin::new_unchecked(&mut listener) };
         listener.as_mut().listen();
+        let val = self.0.val.load(Ordering::SeqCst);
+        if val > seen {
+            tracing::trace!(val, seen, "Already emitted");
+            return val;
+        }
         tracing::trace!("Async Wait");
         listener.await;
         tracing::trace!("Async Ok");
-- 
2.43.0


From 119b9fcdbbc9ac38d8f907daa4fc2ad7d4cedb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 18/50] fix: commands given inside of callbacks were lost, spun
 or panicked

---
 crates/common/src/runtime/rx.rs | 89 +++++++++++++++------------------
 1 file changed, 41 insertions(+), 48 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index f011e3f..172aba6 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -12,6 +12,7 @@ use linkspace_pkt::reroute::ShareArcPkt;
 use std::{
     borrow::Cow,
     cell::{Cell, OnceCell, RefCell},
+    collections::VecDeque,
     ops::ControlFlow,
     path::{Path, PathBuf},
     rc::Rc,
@@ -48,7 +49,7 @@ struct Executor {
     env: BTreeEnv,
     written: Cell<bool>,
     callbacks: RefCell<Matcher>,
-    pending: RefCell<Vec<Pending>>,
+    pending: RefCell<VecDeque<Pending>>,
     // This is a fake lifetime
     process_txn: RefCell<Rc<ReadTxn<'static>>>,
     process_upto: Cell<Stamp>,
@@ -100,32 +101,38 @@ impl Linkspace {
     }
 
     fn insert_watch(&self, watch_entry: RxEntry) {
-        match self.0.exec.callbacks.try_borrow_mut() {
-            Ok(mut lk) => {
-                if let Some(w) = lk.register(watch_entry) {
-                    drop_watch(w, self, StopReason::Replaced)
-                }
-            }
-            Err(_) => self
-                .0
-                .exec
-                .pending
-                .borrow_mut()
-                .push(Pending::NewWatch { watch_entry }),
-        };
+        self.apply(Pending::NewWatch { watch_entry })
     }
-    pub fn drain_pending(&self, lk: &mut Matcher) {
-        for cmd in self.0.exec.pending.borrow_mut().drain(..) {
-            match cmd {
-                Pending::NewWatch { watch_entry } => {
-                    if let Some(w) = lk.register(watch_entry) {
-                        drop_watch(w, self, StopReason::Replaced)
+    fn apply(&self, cmd: Pending) {
+        self.0.exec.pending.borrow_mut().push_back(cmd);
+        self.drain_pending();
+    }
+    /// Apply commands in the order they were given.
+    /// Inside of a callback the watches are in use and the commands are left for when it is done.
+    /// Nothing is borrowed while a watch is told it stopped, that might give more commands.
+    fn drain_pending(&self) {
+        loop {
+            let mut stopped = vec![];
+            {
+                let Ok(mut lk) = self.0.exec.callbacks.try_borrow_mut() else {
+                    return;
+                };
+                let Some(cmd) = self.0.exec.pending.borrow_mut().pop_front() else {
+                    return;
+                };
+                match cmd {
+                    Pending::NewWatch { watch_entry } => {
+                        let replaced = lk.register(watch_entry);
+                        stopped.extend(replaced.map(|w| (w, StopReason::Replaced)));
+                    }
+                    Pending::Close { id, range } => {
+                        lk.deregister(&id, range, |w| stopped.push((w, StopReason::Closed)));
                     }
-                }
-                Pending::Close { id, range } => {
-                    lk.deregister(&id, range, |w| drop_watch(w, self, StopReason::Closed));
                 }
             }
+            for (w, reason) in stopped {
+                drop_watch(w, self, reason);
+            }
         }
     }
     pub async fn poll(&self) -> Stamp {
@@ -261,6 +268,8 @@ impl Linkspace {
     #[instrument(skip(self), ret)]
     pub fn process(&self) -> Stamp {
         let exec = &self.0.exec;
+        // before the reader moves on from what new watches have seen
+        self.drain_pending();
         exec.written.set(false);
         let (txn, from, mut upto): (Rc<ReadTxn>, Stamp, Stamp) = {
             let mut txn = exec.process_txn.borrow_mut();
@@ -286,7 +295,6 @@ impl Linkspace {
         };
         let _g = tracing::error_span!("process log", ?from, atleast_upto=?upto).entered();
         let mut lock = exec.callbacks.borrow_mut();
-        self.drain_pending(&mut lock);
         exec.is_running.set(true);
         let mut count = Rc::strong_count(&txn);
         let mut validate = || {
@@ -324,13 +332,12 @@ impl Linkspace {
                 },
             );
         }
-        self.drain_pending(&mut lock);
-
         exec.is_running.set(false);
         exec.process_upto.set(upto);
         tracing::trace!(?upto);
 
         std::mem::drop((txn, lock));
+        self.drain_pending();
         if !exec.written.get() {
             return upto;
         };
@@ -447,30 +454,16 @@ impl Linkspace {
     }
 
     pub fn close(&self, id: impl AsRef<QueryIDRef>) {
-        match self.0.exec.callbacks.try_borrow_mut() {
-            Ok(mut lk) => {
-                lk.deregister(id.as_ref(), false, |w| {
-                    drop_watch(w, self, StopReason::Closed)
-                });
-            }
-            Err(_) => self.0.exec.pending.borrow_mut().push(Pending::Close {
-                id: id.as_ref().to_vec(),
-                range: false,
-            }),
-        }
+        self.apply(Pending::Close {
+            id: id.as_ref().to_vec(),
+            range: false,
+        })
     }
     pub fn close_range(&self, prefix: impl AsRef<QueryIDRef>) {
-        match self.0.exec.callbacks.try_borrow_mut() {
-            Ok(mut lk) => {
-                lk.deregister(prefix.as_ref(), true, |w| {
-                    drop_watch(w, self, StopReason::Closed)
-                });
-            }
-            Err(_) => self.0.exec.pending.borrow_mut().push(Pending::Close {
-                id: prefix.as_ref().to_vec(),
-                range: true,
-            }),
-        }
+        self.apply(Pending::Close {
+            id: prefix.as_ref().to_vec(),
+            range: true,
+        })
     }
     /// Will panic if called during execution
     pub fn dbg_watches(&self) -> std::cell::Ref<Matcher> {
-- 
2.43.0


From e5be868fec68cd534eebc9902f9539399b7ef9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 19/50] fix: a watch past its recv bound was dropped before
 what it still had to see and without notice

---
 crates/common/src/runtime/rx.rs | 24 ++++++++++++++++--------
 crates/core/src/matcher/mod.rs  | 21 +++++++++++----------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 172aba6..136a75b 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -189,6 +189,7 @@ impl Linkspace {
         loop {
             // read before processing - anything announced in the meantime is not waited for
             let seen = self.env().last_event();
+            let at = now();
             let log_head = self.process();
             tracing::trace!(ev_notify=?awoken,db_head=?log_head,"step");
             if let Some(awoken) = awoken {
@@ -233,7 +234,7 @@ impl Linkspace {
                 next_check = next_check.min(last_step_constraint);
             }
 
-            match exec.next_work() {
+            match self.next_work(at) {
                 Ok(Some(next_oob)) => {
                     if next_oob != Stamp::MAX {
                         match next_oob.get().checked_sub(now().get()) {
@@ -470,21 +471,28 @@ impl Linkspace {
         self.0.exec.callbacks.borrow()
     }
 }
-impl Executor {
+impl Linkspace {
     /** return when next to process.
+    `at` is a point in time before the last process.
     Ok(None) means immediatly, Ok(Some(stamp)) means at stamp a watch can be dropped, Err means no current watches
      **/
     #[instrument(skip(self), ret)]
-    fn next_work(&self) -> Result<Option<Stamp>, ()> {
-        if self.is_running.get() {
+    fn next_work(&self, at: Stamp) -> Result<Option<Stamp>, ()> {
+        let exec = &self.0.exec;
+        if exec.is_running.get() {
             tracing::warn!("has_work called during work");
             panic!();
             //return true;
         }
-        if !self.pending.borrow().is_empty() {
-            return Ok(None);
-        };
-        self.callbacks.borrow_mut().gc(now()).ok_or(()).map(Some)
+        let mut finished = vec![];
+        let next = exec.callbacks.borrow_mut().gc(at, |w| finished.push(w));
+        if finished.is_empty() {
+            return next.ok_or(()).map(Some);
+        }
+        for w in finished {
+            drop_watch(w, self, StopReason::Finish);
+        }
+        Ok(None)
     }
 }
 
diff --git a/crates/core/src/matcher/mod.rs b/crates/core/src/matcher/mod.rs
index 84046c6..44859b4 100644
--- a/crates/core/src/matcher/mod.rs
+++ b/crates/core/src/matcher/mod.rs
@@ -252,18 +252,19 @@ impl<C> Matcher<C> {
             .for_each(on_drop);
     }
     /// clears out of bound watches and determine when the next gc should be run ( none means empty, Some(MAX) means no oob set)
-    #[instrument(skip(self))]
-    pub fn gc(&mut self, logptr: Stamp) -> Option<Stamp> {
+    #[instrument(skip(self, on_drop))]
+    pub fn gc(&mut self, logptr: Stamp, on_drop: impl FnMut(WatchEntry<C>)) -> Option<Stamp> {
         let mut min: u64 = u64::MAX;
         let old_len = self.watch_entries.len();
-        self.watch_entries.retain(|e| {
-            if e.recv_bounds.high > logptr.get() {
-                min = e.recv_bounds.high.min(min);
-                true
-            } else {
-                false
-            }
-        });
+        self.watch_entries
+            .extract_if(|e| {
+                let in_bounds = e.recv_bounds.high > logptr.get();
+                if in_bounds {
+                    min = e.recv_bounds.high.min(min);
+                }
+                !in_bounds
+            })
+            .for_each(on_drop);
         tracing::trace!(old_len, len = self.watch_entries.len());
         if self.watch_entries.is_empty() {
             None
-- 
2.43.0


From bd09272402829ce7ac812e250b0858c25d7eec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 20/50] fix: closing a range of watches required one with the
 prefix as id

---
 crates/core/src/matcher/mod.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/crates/core/src/matcher/mod.rs b/crates/core/src/matcher/mod.rs
index 44859b4..3acaf18 100644
--- a/crates/core/src/matcher/mod.rs
+++ b/crates/core/src/matcher/mod.rs
@@ -211,25 +211,28 @@ impl<C> Matcher<C> {
         range: bool,
         mut on_drop: impl FnMut(WatchEntry<C>),
     ) -> usize {
+        if range {
+            // watch_entries is ordered by id, the prefix itself does not have to be one
+            let start = self
+                .watch_entries
+                .partition_point(|e| e.query_id.as_slice() < id);
+            let c = self.watch_entries[start..]
+                .iter()
+                .take_while(|v| v.query_id.starts_with(id))
+                .count();
+            self.watch_entries
+                .drain(start..start + c)
+                .for_each(on_drop);
+            return c;
+        }
         match self
             .watch_entries
             .binary_search_by_key(&id, |e| &e.query_id)
         {
             Ok(i) => {
-                if !range {
-                    let w = self.watch_entries.remove(i);
-                    on_drop(w);
-                    1
-                } else {
-                    let c = self.watch_entries[i..]
-                        .iter()
-                        .take_while(|v| v.query_id.starts_with(id))
-                        .count();
-                    for w in self.watch_entries.drain(i..c + i) {
-                        on_drop(w)
-                    }
-                    c
-                }
+                let w = self.watch_entries.remove(i);
+                on_drop(w);
+                1
             }
             Err(_) => 0,
         }
-- 
2.43.0


From 1c6a9555cd3dbf9ca751e70b73929a24ca123e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 21/50] fix: a watch with the follow option was never told it
 stopped

---
 crates/common/src/runtime/handlers.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/common/src/runtime/handlers.rs b/crates/common/src/runtime/handlers.rs
index cb13465..5492fa7 100644
--- a/crates/common/src/runtime/handlers.rs
+++ b/crates/common/src/runtime/handlers.rs
@@ -122,4 +122,7 @@ impl<F: PktStreamHandler> PktStreamHandler for FollowHandler<F> {
         }
         ControlFlow::Continue(())
     }
+    fn stopped(&mut self, watch: BareWatch, rx: &Linkspace, reason: StopReason) {
+        self.inner.stopped(watch, rx, reason)
+    }
 }
-- 
2.43.0


From 4b6bc9c87b12846a17c20a1e9655933dad6d7f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 22/50] fix: the reasons Break and Finish for stopping a watch
 were swapped

---
 crates/common/src/runtime/rx.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 136a75b..46b9685 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -325,9 +325,9 @@ impl Linkspace {
                 },
                 |w| {
                     let reason = if w.last_test.1.is_break() {
-                        StopReason::Break
-                    } else {
                         StopReason::Finish
+                    } else {
+                        StopReason::Break
                     };
                     drop_watch(w, self, reason)
                 },
-- 
2.43.0


From b3cfc0dd9ca91d805d809413367f37eeed1ea7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 23/50] fix: lk_watch said it registered a finished watch and
 counted packets it was not called with

---
 crates/common/src/runtime/rx.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 46b9685..2a34b3a 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -409,6 +409,7 @@ impl Linkspace {
         }
         let span = debug_span!(parent:&span,"query", preds=%q.predicates);
         let mut counter = 0;
+        let mut calls: u32 = 0;
         let check_db = q.predicates.state.check_db();
         self.close(watch_id); // this is not ideal. But other close semantics seem worse.
         if check_db {
@@ -421,6 +422,7 @@ impl Linkspace {
                 .try_for_each(|dbp| {
                     let _g = local_span.enter();
                     tracing::debug!(pkt=%PktFmtDebug(&dbp.pkt), recv=%dbp.recv().unwrap(),"Match");
+                    calls += 1;
                     onmatch.handle_pkt(&dbp, self)
                 });
 
@@ -435,7 +437,7 @@ impl Linkspace {
             exec.is_reading.update(|i| i - 1);
             tracing::debug!(?r, "Done with DB");
             if matches!(r, ControlFlow::Break(_)) {
-                return Ok(crate::saturating_cast(counter));
+                return Ok(crate::saturating_cast(calls));
             }
         }
         match RxEntry::new(
@@ -449,9 +451,12 @@ impl Linkspace {
                 tracing::debug!("Setup Watch");
                 self.insert_watch(e)
             }
-            Err(r) => tracing::info!(e=?r,"Did not register"),
+            Err(r) => {
+                tracing::info!(e=?r,"Did not register");
+                return Ok(crate::saturating_cast(calls));
+            }
         }
-        Ok(crate::saturating_neg_cast(counter))
+        Ok(crate::saturating_neg_cast(calls))
     }
 
     pub fn close(&self, id: impl AsRef<QueryIDRef>) {
-- 
2.43.0


From 6f0cc787deb3ae22b4e961a4f8347de41ae0f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 24/50] fix: what was processed while a watch was set up was
 not given to it

---
 crates/common/src/runtime/rx.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index 2a34b3a..a7ee030 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -412,6 +412,7 @@ impl Linkspace {
         let mut calls: u32 = 0;
         let check_db = q.predicates.state.check_db();
         self.close(watch_id); // this is not ideal. But other close semantics seem worse.
+        let seen = self.get_reader().log_head();
         if check_db {
             let local_span = tracing::debug_span!(parent: &span, "DB Callback").entered();
             tracing::trace!(?mode);
@@ -444,10 +445,13 @@ impl Linkspace {
             watch_id.to_vec(),
             q.into_owned(),
             counter,
-            Box::new(onmatch),
+            Box::new(onmatch) as PktStream,
             span,
         ) {
-            Ok(e) => {
+            Ok(mut e) => {
+                if self.catch_up(&mut e, seen, &mut calls).is_break() {
+                    return Ok(crate::saturating_cast(calls));
+                }
                 tracing::debug!("Setup Watch");
                 self.insert_watch(e)
             }
@@ -459,6 +463,28 @@ impl Linkspace {
         Ok(crate::saturating_neg_cast(calls))
     }
 
+    /// A callback of a watch that is not yet registered can process the log.
+    /// Give the watch what was processed since `seen`.
+    fn catch_up(&self, watch: &mut RxEntry, mut seen: Stamp, calls: &mut u32) -> ControlFlow<()> {
+        loop {
+            let upto = self.0.exec.process_upto.get();
+            if seen >= upto {
+                return ControlFlow::Continue(());
+            }
+            let reader = self.get_reader();
+            for pkt in reader.pkts_after(seen).take_while(|p| p.recv <= upto) {
+                let (test_ok, test_finish) = watch.test(pkt);
+                if test_ok {
+                    *calls += 1;
+                    let arc = OnceCell::new();
+                    watch.ctx.handle_pkt(&ShareArcPkt { arc, pkt }, self)?;
+                }
+                test_finish?;
+            }
+            seen = upto;
+        }
+    }
+
     pub fn close(&self, id: impl AsRef<QueryIDRef>) {
         self.apply(Pending::Close {
             id: id.as_ref().to_vec(),
-- 
2.43.0


From ce1842324ec78adad75abdd16878127f917329c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 25/50] fix: a watch that reached its recv bound before it was
 registered was lost without notice

---
 crates/common/src/runtime/rx.rs |  4 ++++
 crates/core/src/matcher/mod.rs  | 17 ++++++-----------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/common/src/runtime/rx.rs b/crates/common/src/runtime/rx.rs
index a7ee030..959510d 100644
--- a/crates/common/src/runtime/rx.rs
+++ b/crates/common/src/runtime/rx.rs
@@ -452,6 +452,10 @@ impl Linkspace {
                 if self.catch_up(&mut e, seen, &mut calls).is_break() {
                     return Ok(crate::saturating_cast(calls));
                 }
+                if e.recv_bounds.high <= self.get_reader().log_head().get() {
+                    tracing::debug!("Did not register - past its recv bound");
+                    return Ok(crate::saturating_cast(calls));
+                }
                 tracing::debug!("Setup Watch");
                 self.insert_watch(e)
             }
diff --git a/crates/core/src/matcher/mod.rs b/crates/core/src/matcher/mod.rs
index 3acaf18..156a2f7 100644
--- a/crates/core/src/matcher/mod.rs
+++ b/crates/core/src/matcher/mod.rs
@@ -189,20 +189,15 @@ impl<C> Matcher<C> {
             .and_then(|i| self.watch_entries.get(i))
     }
     pub fn register(&mut self, watch_e: WatchEntry<C>) -> Option<WatchEntry<C>> {
-        let ok = watch_e.recv_bounds.high > linkspace_pkt::now().get();
-        tracing::debug!(register_ok=?ok);
-        match (
-            ok,
-            self.watch_entries
-                .binary_search_by_key(&watch_e.query_id.as_ref(), |v| &v.query_id),
-        ) {
-            (true, Ok(i)) => Some(::std::mem::replace(&mut self.watch_entries[i], watch_e)),
-            (false, Ok(i)) => Some(self.watch_entries.remove(i)),
-            (true, Err(i)) => {
+        match self
+            .watch_entries
+            .binary_search_by_key(&watch_e.query_id.as_ref(), |v| &v.query_id)
+        {
+            Ok(i) => Some(::std::mem::replace(&mut self.watch_entries[i], watch_e)),
+            Err(i) => {
                 self.watch_entries.insert(i, watch_e);
                 None
             }
-            (false, Err(_i)) => None,
         }
     }
     pub fn deregister(
-- 
2.43.0


From c8b19b01a599bb037fd476e662493c8362e268dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 26/50] fix: options without a value (:follow, :notify-close)
 were not recognised

---
 crates/abe/src/abconf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/abe/src/abconf.rs b/crates/abe/src/abconf.rs
index 348f1cc..7115214 100644
--- a/crates/abe/src/abconf.rs
+++ b/crates/abe/src/abconf.rs
@@ -57,7 +57,8 @@ impl ABConf {
         starts_with: &[&[u8]],
     ) -> Option<Result<Option<&[u8]>, &ABList>> {
         match &self.get_checked(starts_with).next()? {
-            Ok(lst) => match &lst[starts_with.len() - 1..] {
+            // a leading ':' is a logical empty first component without an entry of its own
+            Ok(lst) => match &lst[starts_with.len() - lst[0].0.is_some() as usize..] {
                 [(Some(Ctr::Colon), bytes)] => Some(Ok(Some(bytes.as_slice()))),
                 [] => Some(Ok(None)),
                 _ => Some(Err(lst)),
@@ -86,7 +87,7 @@ impl ABConf {
         starts_with: &'b [&[u8]],
     ) -> impl Iterator<Item = &'a ABList> + 'b {
         self.0.iter().rev().filter(move |a| {
-            if a.len() < starts_with.len() {
+            if a.iter_bytes().count() < starts_with.len() {
                 return false;
             }
             let ok = starts_with
-- 
2.43.0


From b34c4f91dbb0733001520073426f24f904ac30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 27/50] fix: reject predicates with contradicting masks where
 they are added

Replaces e2de67b, value_test.rs is back as it was.
---
 crates/core/src/predicate/pkt_predicates.rs | 62 +++++++++++++--------
 crates/core/src/predicate/value_test.rs     |  3 -
 2 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/crates/core/src/predicate/pkt_predicates.rs b/crates/core/src/predicate/pkt_predicates.rs
index 5d38b6b..65134eb 100644
--- a/crates/core/src/predicate/pkt_predicates.rs
+++ b/crates/core/src/predicate/pkt_predicates.rs
@@ -17,6 +17,7 @@ use anyhow::{ensure, Context};
 use super::{
     exprs::{Predicate, QScope},
     treekey::TreeKeys,
+    uint::UInt,
     value_test::*,
 };
 
@@ -83,6 +84,14 @@ impl Default for PktPredicates {
         PktPredicates::DEFAULT
     }
 }
+/// [TestSet::try_add] that rejects masks which require the same bit to be set and unset.
+fn try_add<U: UInt>(set: &mut TestSet<U>, op: TestOp, val: U) -> anyhow::Result<()> {
+    let mut mask = set.mask;
+    mask.add(op, val);
+    ensure!(mask.has_any(), "incompatible {op:?} {val:?}");
+    set.try_add(op, val)
+}
+
 impl PktPredicates {
     pub const DEFAULT: PktPredicates = PktPredicates {
         pkt_types: TestSet::DEFAULT,
@@ -243,25 +252,24 @@ impl PktPredicates {
         let op = *op;
         match kind {
             RuleType::Field(f) => {
-                self.pkt_types
-                    .try_add(TestOp::Mask1, f.info().pkts.bits())
+                try_add(&mut self.pkt_types, TestOp::Mask1, f.info().pkts.bits())
                     .with_context(|| format!("incompatible pkt typs:{rule:?}"))?;
                 match f {
-                    FieldEnum::PktTypeF => self.pkt_types.try_add(op, U8::try_from(val)?.0)?,
-                    FieldEnum::SizeF => self.size.try_add(op, U16::try_from(val)?.get())?,
+                    FieldEnum::PktTypeF => try_add(&mut self.pkt_types, op, U8::try_from(val)?.0)?,
+                    FieldEnum::SizeF => try_add(&mut self.size, op, U16::try_from(val)?.get())?,
                     FieldEnum::PktHashF => {
-                        self.hash.try_add(op, LkHash::try_from(val)?.into())?;
+                        try_add(&mut self.hash, op, LkHash::try_from(val)?.into())?;
                         if op == TestOp::Equal {
-                            self.state.i_query.try_add(TestOp::Equal, 0u32)?;
+                            try_add(&mut self.state.i_query, TestOp::Equal, 0u32)?;
                         }
                     }
-                    FieldEnum::DomainF => self
-                        .domain
-                        .try_add(op, Domain::try_from(val)?.uint().get())?,
+                    FieldEnum::DomainF => {
+                        try_add(&mut self.domain, op, Domain::try_from(val)?.uint().get())?
+                    }
                     FieldEnum::SpaceNameF => {
                         ensure!(op == TestOp::Equal, "space only supports equallity");
                         let rspace: RootedSpaceBuf = SpaceBuf::try_from(val)?.try_into_rooted()?;
-                        self.depth.try_add(TestOp::Equal, rspace.depth() as u8)?;
+                        try_add(&mut self.depth, TestOp::Equal, rspace.depth() as u8)?;
                         ensure!(
                             rspace.starts_with(&self.rspace_prefix),
                             "space prefix conflict"
@@ -270,34 +278,38 @@ impl PktPredicates {
                         self.check_space()?;
                     }
                     FieldEnum::DepthF => {
-                        self.depth.try_add(op, U8::try_from(val)?.0)?;
+                        try_add(&mut self.depth, op, U8::try_from(val)?.0)?;
                         self.check_space()?;
                     }
                     FieldEnum::GroupIDF => {
-                        self.group.try_add(op, GroupID::try_from(val)?.into())?
+                        try_add(&mut self.group, op, GroupID::try_from(val)?.into())?
                     }
-                    FieldEnum::CreateF => self.create.try_add(op, U64::try_from(val)?.get())?,
+                    FieldEnum::CreateF => try_add(&mut self.create, op, U64::try_from(val)?.get())?,
                     FieldEnum::PubKeyF => {
-                        self.pubkey.try_add(op, PubKey::try_from(val)?.into())?;
+                        try_add(&mut self.pubkey, op, PubKey::try_from(val)?.into())?;
                     }
                     FieldEnum::SignatureF => todo!(),
                     FieldEnum::DataF => todo!(),
-                    FieldEnum::VarNetFlagsF => self.var_flags.try_add(op, U8::try_from(val)?.0)?,
-                    FieldEnum::VarHopF => self.var_hop.try_add(op, U32::try_from(val)?.get())?,
+                    FieldEnum::VarNetFlagsF => {
+                        try_add(&mut self.var_flags, op, U8::try_from(val)?.0)?
+                    }
+                    FieldEnum::VarHopF => {
+                        try_add(&mut self.var_hop, op, U32::try_from(val)?.get())?
+                    }
                     FieldEnum::VarStampF => {
-                        self.var_stamp.try_add(op, U64::try_from(val)?.get())?
+                        try_add(&mut self.var_stamp, op, U64::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits0F => {
-                        self.var_ubits[0].try_add(op, U32::try_from(val)?.get())?
+                        try_add(&mut self.var_ubits[0], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits1F => {
-                        self.var_ubits[1].try_add(op, U32::try_from(val)?.get())?
+                        try_add(&mut self.var_ubits[1], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits2F => {
-                        self.var_ubits[2].try_add(op, U32::try_from(val)?.get())?
+                        try_add(&mut self.var_ubits[2], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::VarUBits3F => {
-                        self.var_ubits[3].try_add(op, U32::try_from(val)?.get())?
+                        try_add(&mut self.var_ubits[3], op, U32::try_from(val)?.get())?
                     }
                     FieldEnum::RSpaceNameF => todo!(),
                     FieldEnum::SpaceComp0F => todo!(),
@@ -309,10 +321,10 @@ impl PktPredicates {
                     FieldEnum::SpaceComp6F => todo!(),
                     FieldEnum::SpaceComp7F => todo!(),
                     FieldEnum::DataSizeF => {
-                        self.data_size.try_add(op, U16::try_from(val)?.get())?
+                        try_add(&mut self.data_size, op, U16::try_from(val)?.get())?
                     }
                     FieldEnum::LinksLenF => {
-                        self.links_len.try_add(op, U16::try_from(val)?.get())?
+                        try_add(&mut self.links_len, op, U16::try_from(val)?.get())?
                     }
                 }
             }
@@ -323,7 +335,9 @@ impl PktPredicates {
                 self.prefix(sp)?;
             }
             RuleType::Limit(l) => {
-                self.state.idx(*l).add(op, U32::try_from(val)?.get());
+                let limit = self.state.idx(*l);
+                limit.add(op, U32::try_from(val)?.get());
+                ensure!(limit.mask.has_any(), "incompatible {op:?}");
                 self.state.is_valid()?;
             }
         };
diff --git a/crates/core/src/predicate/value_test.rs b/crates/core/src/predicate/value_test.rs
index 2f85ca0..fc73bfe 100644
--- a/crates/core/src/predicate/value_test.rs
+++ b/crates/core/src/predicate/value_test.rs
@@ -549,9 +549,6 @@ impl<U: UInt> TestSet<U> {
         !self.has_any()
     }
     pub fn min_value(&self) -> Option<U> {
-        if !self.mask.has_any() {
-            return None;
-        }
         let v = self.mask.in_set(self.bound.low)?;
         if self.bound.high < v {
             None
-- 
2.43.0


From 231c6bae7ec26c9bcdf1af63092622b543d91fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 28/50] fix: pkt: a rerouted keypoint in parts keeps all its
 segments

ByteSegments holds eight slices but the net header, the hash and the seven
segments of a signed point are nine: rerouting NetPktParts of a keypoint hit the
debug assertion, or silently wrote the packet without its signature. Rerouting
an already rerouted packet replaces its header.
---
 crates/pkt/src/byte_segments.rs  | 22 ++++++++++++++--------
 crates/pkt/src/netpkt/reroute.rs |  8 +++++++-
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/crates/pkt/src/byte_segments.rs b/crates/pkt/src/byte_segments.rs
index fb5fa7b..5f6d356 100644
--- a/crates/pkt/src/byte_segments.rs
+++ b/crates/pkt/src/byte_segments.rs
@@ -6,7 +6,9 @@
 Utility to create packets from multiple byte slices without allocating.
 **/
 #[derive(Clone, Debug)]
-pub struct ByteSegments<'a>(pub(crate) [&'a [u8]; 8]);
+pub struct ByteSegments<'a>(pub(crate) [&'a [u8]; MAX_SEGMENTS]);
+// A rerouted signed packet in parts: net header, hash, point header, linkpoint header, links, space, data, padding, and signature.
+const MAX_SEGMENTS: usize = 9;
 
 impl<'a> ExactSizeIterator for ByteSegments<'a> {
     #[inline(always)]
@@ -16,7 +18,7 @@ impl<'a> ExactSizeIterator for ByteSegments<'a> {
     }
     #[inline]
     fn is_empty(&self) -> bool {
-        self.0 == [&[] as &[u8]; 8]
+        self.0 == [&[] as &[u8]; MAX_SEGMENTS]
     }
 }
 
@@ -62,6 +64,10 @@ impl<'a> Iterator for ByteSegments<'a> {
             self.0[7] = tail;
             return Some(*h);
         }
+        if let Some((h, tail)) = self.0[8].split_first() {
+            self.0[8] = tail;
+            return Some(*h);
+        }
         None
     }
 }
@@ -79,7 +85,7 @@ impl<'a> ByteSegments<'a> {
     #[inline(always)]
     pub const fn from_array<const N: usize>(segments: [&'a [u8]; N]) -> Self {
         assert!(N < 8, "not supported");
-        let mut r: [&'a [u8]; 8] = [&[]; 8];
+        let mut r: [&'a [u8]; MAX_SEGMENTS] = [&[]; MAX_SEGMENTS];
         let mut i = 0;
         while i < N {
             r[i] = segments[i];
@@ -95,12 +101,12 @@ impl<'a> ByteSegments<'a> {
     #[must_use]
     #[inline(always)]
     pub(crate) fn push_front(self, head: &'a [u8]) -> Self {
-        let [a, b, c, d, e, f, g, h] = self.0;
+        let [a, b, c, d, e, f, g, h, i] = self.0;
         debug_assert!(
-            h.is_empty(),
+            i.is_empty(),
             "segmented packet construction stacked to deep"
         );
-        ByteSegments([head, a, b, c, d, e, f, g])
+        ByteSegments([head, a, b, c, d, e, f, g, h])
     }
     #[inline]
     pub fn to_bytes(self) -> Box<[u8]> {
@@ -113,7 +119,7 @@ impl<'a> ByteSegments<'a> {
     #[inline(always)]
     pub const unsafe fn write_segments_unchecked(self, mut dest: *mut u8) -> *mut u8 {
         let mut i = 0;
-        while i < 8 {
+        while i < MAX_SEGMENTS {
             let len = self.0[i].len();
             if len > 0 {
                 core::ptr::copy_nonoverlapping(self.0[i].as_ptr(), dest, len);
@@ -124,7 +130,7 @@ impl<'a> ByteSegments<'a> {
         dest
     }
     #[inline(always)]
-    pub fn io_slices(self) -> [std::io::IoSlice<'a>; 8] {
+    pub fn io_slices(self) -> [std::io::IoSlice<'a>; MAX_SEGMENTS] {
         self.0.map(std::io::IoSlice::new)
     }
     #[inline(always)]
diff --git a/crates/pkt/src/netpkt/reroute.rs b/crates/pkt/src/netpkt/reroute.rs
index 7fb3d30..27258c4 100644
--- a/crates/pkt/src/netpkt/reroute.rs
+++ b/crates/pkt/src/netpkt/reroute.rs
@@ -44,7 +44,13 @@ impl<T: NetPkt + ?Sized> NetPkt for ReroutePkt<T> {
     }
     fn byte_segments(&self) -> ByteSegments {
         let mut segm = self.pkt.byte_segments();
-        segm.0[0] = &segm.0[0][size_of::<NetPktHeader>()..];
+        let rest = &segm.0[0][size_of::<NetPktHeader>()..];
+        if rest.is_empty() {
+            // the header is a segment of its own because the inner packet is rerouted as well
+            segm.0[0] = self.net_header.as_bytes();
+            return segm;
+        }
+        segm.0[0] = rest;
         segm.push_front(self.net_header.as_bytes())
     }
     fn as_netbox(&self) -> crate::NetPktBox {
-- 
2.43.0


From 7ede699c9eded88a57d028ec04fafc0e252a591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 29/50] fix: common: a packet stream that ends inside a packet
 header is an error

NetPktDecoder reported the end of the stream when the reader ran dry after some
bytes of the next header, so a truncated stream looked complete.
---
 crates/common/src/pkt_reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/pkt_reader.rs b/crates/common/src/pkt_reader.rs
index b8e2e62..ff6f7d0 100644
--- a/crates/common/src/pkt_reader.rs
+++ b/crates/common/src/pkt_reader.rs
@@ -51,7 +51,12 @@ impl<T: Read> Iterator for NetPktDecoder<T> {
                 let r = self.reader.read(buf);
                 tracing::trace!(?r, "read");
                 match r {
-                    Ok(0) if zeros > 3 => return None,
+                    Ok(0) if zeros > 3 => {
+                        if buf.len() == std::mem::size_of::<PartialNetHeader>() {
+                            return None;
+                        }
+                        return Some(Err(Error::IO(ErrorKind::UnexpectedEof.into())));
+                    }
                     Ok(0) => zeros += 1,
                     Ok(n) => {
                         let tmp = buf;
-- 
2.43.0


From aefe48de5fa3acd2d7a0e5780aa449ce1870131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 30/50] fix: common: NetPktDecoder retries an interrupted read
 of a packet header

The body is read with read_exact, which retries, but an EINTR while reading the
header was returned as an error and the bytes read so far were dropped.
---
 crates/common/src/pkt_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/pkt_reader.rs b/crates/common/src/pkt_reader.rs
index ff6f7d0..627bc0f 100644
--- a/crates/common/src/pkt_reader.rs
+++ b/crates/common/src/pkt_reader.rs
@@ -63,7 +63,7 @@ impl<T: Read> Iterator for NetPktDecoder<T> {
                         buf = &mut tmp[n..];
                     }
                     Err(ref e) if e.kind() == ErrorKind::UnexpectedEof => return None,
-                    //Err(ref e) if e.kind() == ErrorKind::Interrupted && buf.len() == UPTO_PKT_SIZE => {return None}
+                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                     Err(e) => return Some(Err(Error::IO(e))),
                 }
             }
-- 
2.43.0


From 9c91e41f36760e2a0b6d89bb1195c89937b1e572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 31/50] fix: pkt: checking a packet with a malformed space does
 not assert that it is valid

internal_consitent_length read the space through unchecked_tail, whose debug
assertion panics on exactly the packets the check is there to reject.
---
 crates/pkt/src/point_ptr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pkt/src/point_ptr.rs b/crates/pkt/src/point_ptr.rs
index f182c6c..f5aca53 100644
--- a/crates/pkt/src/point_ptr.rs
+++ b/crates/pkt/src/point_ptr.rs
@@ -165,7 +165,9 @@ impl PointThinPtr {
                 if link_size % u16::try_from(size_of::<Link>()).unwrap() != 0 {
                     return Err(Error::IndivisableLinkbytes);
                 }
-                unsafe { self.unchecked_tail() }.rspace.check_components()?;
+                // not through unchecked_tail, which asserts that the space is valid
+                let rspace = &self.pkt_bytes()[usize::from(isp_offset)..usize::from(data_offset)];
+                RootedSpace::from(rspace)?;
                 padding
             }
             BarePointFields::Error { padding, .. } => padding,
-- 
2.43.0


From 3cb68b27ece0f011ef8d4b791833e6fa3ab6fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 32/50] fix: pkt: reject a point header whose size is smaller
 than the header itself

A size of 0 to 3 passed the header check, after which reading the packet
indexed past the end of the buffer that was allocated for it.
---
 crates/pkt/src/point.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/pkt/src/point.rs b/crates/pkt/src/point.rs
index 2769730..cf66618 100644
--- a/crates/pkt/src/point.rs
+++ b/crates/pkt/src/point.rs
@@ -67,6 +67,9 @@ impl PointHeader {
         if self.reserved != 0 {
             return Err(Error::HeaderReservedSet(self.reserved));
         }
+        if (self.upoint_size() as usize) < size_of::<PointHeader>() {
+            return Err(Error::ContentLen);
+        }
         let len = self.ucontent_size() as usize;
         if len > MAX_CONTENT_SIZE {
             return Err(Error::ContentLen);
-- 
2.43.0


From 0ca741635d800c51f46bc4a5b3dec75d010a34b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 33/50] fix: pkt: the depth byte of an eight component space is
 checked

check_components compares the depth when it reaches the end of the space, which
it never does when all eight components are present. A received packet could
claim any depth, and reading its components indexed past the tables.
---
 crates/pkt/src/rooted_space.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/pkt/src/rooted_space.rs b/crates/pkt/src/rooted_space.rs
index 84a622e..5a4beb6 100644
--- a/crates/pkt/src/rooted_space.rs
+++ b/crates/pkt/src/rooted_space.rs
@@ -231,6 +231,10 @@ impl RootedSpace {
             }
             i += 1;
         }
+        // with all components present the loop never reached the end of the space to compare it
+        if len as usize != MAX_SPACE_DEPTH {
+            return Err(SpaceError::EmptyComponentIdx);
+        }
         Ok(())
     }
 
-- 
2.43.0


From e677c904a8381eabe90442e1f80bd1a1ccdd7f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 34/50] fix: handshake: sessions that start in the same
 microsecond are told apart

Phase0 and Phase1 contained nothing but a stamp, so two sessions signed in
one microsecond were the same packet and one answer was valid for both.
---
 crates/common/src/protocols/handshake.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/common/src/protocols/handshake.rs b/crates/common/src/protocols/handshake.rs
index 26d9b9e..632338f 100644
--- a/crates/common/src/protocols/handshake.rs
+++ b/crates/common/src/protocols/handshake.rs
@@ -29,6 +29,11 @@ pub fn valid_stamp_range(stamp: Stamp, max_diff_sec: Option<usize>) -> anyhow::R
     Ok(())
 }
 
+/// The stamp alone does not distinguish sessions that start in the same microsecond.
+fn nonce() -> [u8; 16] {
+    rand::random()
+}
+
 pub struct Phase0(pub NetPktBox);
 pub struct Phase1(pub NetPktBox);
 pub struct Phase2(pub NetPktBox);
@@ -42,7 +47,7 @@ pub fn phase0_client_init(id: &SigningKey) -> Phase0 {
             HANDSHAKE_D,
             &ID_SENTINAL_SPACENAME,
             &[],
-            &[],
+            &nonce(),
             now,
             id,
             (),
@@ -79,7 +84,7 @@ pub fn phase1_server_signs(
             HANDSHAKE_D,
             &ID_SENTINAL_SPACENAME,
             &links,
-            &[],
+            &nonce(),
             now(),
             id,
             (),
-- 
2.43.0


From bf8ff9bc1b55376111573261e7abded11fe24bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 35/50] fix: handshake: a server only answers a phase0

A server's phase1 relayed to another server as phase0 was answered with a
packet the first server accepted as phase2 of a client that never connected.
---
 crates/common/src/protocols/handshake.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/common/src/protocols/handshake.rs b/crates/common/src/protocols/handshake.rs
index 632338f..79ffe70 100644
--- a/crates/common/src/protocols/handshake.rs
+++ b/crates/common/src/protocols/handshake.rs
@@ -72,6 +72,19 @@ pub fn phase1_server_signs(
         None => anyhow::bail!("not signed"),
     };
     valid_stamp_range(*theirs.get_create_stamp(), max_diff_sec)?;
+    // answering anything else could sign what another session takes for a phase2
+    ensure!(
+        theirs.domain() == Some(&HANDSHAKE_D),
+        "not in the session domain"
+    );
+    ensure!(
+        theirs.group() == Some(&their_key),
+        "not in the group of its signer"
+    );
+    ensure!(
+        theirs.get_rooted_spacename() == ID_SENTINAL_SPACENAME.as_ref(),
+        "wrong spacename"
+    );
     let our_group = unicast_group(their_key, id.pubkey());
     ensure!(
         our_group != PRIVATE,
-- 
2.43.0


From 597577f2443031278f0c68aff89e5fb7c3bcb82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 36/50] fix: lns: names of more than one component resolve

---
 crates/common/src/protocols/lns/public_claim.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/protocols/lns/public_claim.rs b/crates/common/src/protocols/lns/public_claim.rs
index e67b03d..6c6e097 100644
--- a/crates/common/src/protocols/lns/public_claim.rs
+++ b/crates/common/src/protocols/lns/public_claim.rs
@@ -71,9 +71,12 @@ pub fn walk_live_claims(
         .get_rooted_spacename()
         .into_buf()
         .append(sub);
+    let depth = *rspace.space_depth();
     let mut predicates =
         Query::dgsk(LNS, *parent.claim.pkt.get_group(), rspace, B64([255; 32])).predicates;
-    predicates.depth.add(crate::core::prelude::TestOp::Equal, 2);
+    predicates
+        .depth
+        .add(crate::core::prelude::TestOp::Equal, depth);
     let mut claim_votes: LkHashMap<(Option<Claim>, Vec<RecvPkt>)> = Default::default();
     let mut _count = 0;
     let max_required_votes = (parent.claim.authorities().count() + 1) / 2;
-- 
2.43.0


From f528e09a99fd132415b7ba13993bd5e220a9b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 37/50] fix: lns: a vote for the claim of another name does not
 make it live

---
 crates/common/src/protocols/lns/public_claim.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/protocols/lns/public_claim.rs b/crates/common/src/protocols/lns/public_claim.rs
index 6c6e097..ab3f991 100644
--- a/crates/common/src/protocols/lns/public_claim.rs
+++ b/crates/common/src/protocols/lns/public_claim.rs
@@ -98,7 +98,16 @@ pub fn walk_live_claims(
                     std::collections::hash_map::Entry::Vacant(v) => {
                         let o_claim = reader.read(&l.ptr)?;
                         let claim = match o_claim {
-                            Some(claim_pkt) => match Claim::from(claim_pkt) {
+                            Some(claim_pkt) => match Claim::from(claim_pkt).and_then(|c| {
+                                // a claim is only about its own name
+                                anyhow::ensure!(
+                                    *c.pkt.get_rooted_spacename() == *predicates.rspace_prefix,
+                                    "voted for as {} but claims {}",
+                                    predicates.rspace_prefix,
+                                    c.name
+                                );
+                                Ok(c)
+                            }) {
                                 Ok(o) => Some(o),
                                 Err(error) => {
                                     issue_handler(Issue::BadClaimInVote {
-- 
2.43.0


From 388f28b95dffaa87d71ef3fe8e39bf1a5d2e91e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 38/50] fix: lns: a tie is noticed when other claims have fewer
 votes

---
 crates/common/src/protocols/lns/public_claim.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/common/src/protocols/lns/public_claim.rs b/crates/common/src/protocols/lns/public_claim.rs
index ab3f991..c22c427 100644
--- a/crates/common/src/protocols/lns/public_claim.rs
+++ b/crates/common/src/protocols/lns/public_claim.rs
@@ -165,6 +165,7 @@ pub fn walk_live_claims(
     let live = votes_by_claim.pop().unwrap();
     let mut ties: Vec<_> = votes_by_claim
         .into_iter()
+        .rev()
         .take_while(|p| order(&live) == order(p))
         .collect();
     if !ties.is_empty() {
-- 
2.43.0


From 7758961645840c68c830e8a97fef6589396bbd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:58 +0000
Subject: [PATCH 39/50] fix: lns: half of the votes are no majority

---
 crates/common/src/protocols/lns/public_claim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/common/src/protocols/lns/public_claim.rs b/crates/common/src/protocols/lns/public_claim.rs
index c22c427..105a0c6 100644
--- a/crates/common/src/protocols/lns/public_claim.rs
+++ b/crates/common/src/protocols/lns/public_claim.rs
@@ -79,7 +79,7 @@ pub fn walk_live_claims(
         .add(crate::core::prelude::TestOp::Equal, depth);
     let mut claim_votes: LkHashMap<(Option<Claim>, Vec<RecvPkt>)> = Default::default();
     let mut _count = 0;
-    let max_required_votes = (parent.claim.authorities().count() + 1) / 2;
+    let max_required_votes = parent.claim.authorities().count() / 2 + 1;
     for auth in parent.claim.authorities() {
         _count = 0;
         predicates.pubkey = TestSet::new_eq(auth.into());
-- 
2.43.0


From 913b754f8e2815667d2d27b9f37e97fee2da0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 40/50] fix: lns: a local key that is overwritten is the newest
 claim

---
 crates/common/src/protocols/lns/claim.rs | 11 ++++++++++-
 crates/common/src/protocols/lns/mod.rs   | 13 ++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/protocols/lns/claim.rs b/crates/common/src/protocols/lns/claim.rs
index 2963935..19d91aa 100644
--- a/crates/common/src/protocols/lns/claim.rs
+++ b/crates/common/src/protocols/lns/claim.rs
@@ -90,6 +90,15 @@ pub fn read_enckey(data: &[u8]) -> anyhow::Result<(PubKey, String)> {
 
 impl Claim {
     pub fn new(name: Name, until: Stamp, links: &mut [Link], data: &[u8]) -> anyhow::Result<Self> {
+        Self::new_at(name, until, links, data, Stamp::ZERO)
+    }
+    pub fn new_at(
+        name: Name,
+        until: Stamp,
+        links: &mut [Link],
+        data: &[u8],
+        create: Stamp,
+    ) -> anyhow::Result<Self> {
         ensure!(!links.is_empty(), "requires at least one link");
         let link_stamp = as_stamp_tag(links[0].tag).0;
         ensure!(
@@ -101,7 +110,7 @@ impl Claim {
         links[0].tag[0..8].copy_from_slice(&until.0);
         let path = name.claim_space();
         let group = name.claim_group();
-        let pkt = linkpoint(group, LNS, &path, links, data, Stamp::ZERO, ()).as_netbox();
+        let pkt = linkpoint(group, LNS, &path, links, data, create, ()).as_netbox();
         ensure!(*pkt.get_create_stamp() < until);
         Self::from(pkt)
     }
diff --git a/crates/common/src/protocols/lns/mod.rs b/crates/common/src/protocols/lns/mod.rs
index bb1cf29..599a5e6 100644
--- a/crates/common/src/protocols/lns/mod.rs
+++ b/crates/common/src/protocols/lns/mod.rs
@@ -21,7 +21,7 @@ use anyhow::ensure;
 use byte_fmt::{ab, AB};
 use linkspace_argon2_identity::pubkey;
 use linkspace_pkt::{
-    rspace1, Domain, GroupID, Link, LkHash, Point, PubKey, RootedStaticSpace, Stamp, Tag,
+    rspace1, Domain, GroupID, Link, LkHash, Point, PointExt, PubKey, RootedStaticSpace, Stamp, Tag,
 };
 use tracing::instrument;
 
@@ -204,15 +204,21 @@ pub fn setup_special_keyclaim(
         sp == NameType::Local,
         "you can only setup :local key claims this way"
     );
+    let mut create = Stamp::ZERO;
     if let Ok(Some(c)) = lookup_claim(lk, &name) {
         if !overwrite {
             anyhow::bail!("claim already set but overwrite is false")
         } else {
-            tracing::debug!(old_claim=%c)
+            tracing::debug!(old_claim=%c);
+            // newer than the claim it replaces - whatever the clock says
+            create = *c.pkt.get_create_stamp();
+            if c.pkt.data() != enckey.as_bytes() {
+                create = Stamp::new(create.get() + 1);
+            }
         }
     }
     let pubkey = pubkey(enckey)?.into();
-    let claim = Claim::new(
+    let claim = Claim::new_at(
         name,
         Stamp::MAX,
         &mut [Link {
@@ -220,6 +226,7 @@ pub fn setup_special_keyclaim(
             ptr: pubkey,
         }],
         enckey.as_bytes(),
+        create,
     )?;
     if claim.name.space().to_array().len() > 2 {
         anyhow::bail!("Local is currently limited to single component name")
-- 
2.43.0


From 69060ec1468e97f6298dab4b33a1790a3dee8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 41/50] fix: lns: local keys set at the same time or since the
 last process are not lost

---
 crates/common/src/protocols/lns/admin.rs      |  4 +-
 .../common/src/protocols/lns/local_claim.rs   | 48 ++++++++++++---
 crates/common/src/protocols/lns/mod.rs        | 59 +++++++++++--------
 crates/linkspace/src/lib.rs                   | 12 +++-
 4 files changed, 87 insertions(+), 36 deletions(-)

diff --git a/crates/common/src/protocols/lns/admin.rs b/crates/common/src/protocols/lns/admin.rs
index 09a9c89..980840f 100644
--- a/crates/common/src/protocols/lns/admin.rs
+++ b/crates/common/src/protocols/lns/admin.rs
@@ -24,11 +24,11 @@ pub(crate) fn save_private_claim(
     and: &[&dyn NetPkt],
     priority: bool,
 ) -> anyhow::Result<bool> {
-    let read = lk.get_reader();
+    let read = lk.env().new_read_txn()?;
     let admin_k = admin.map(|v| v.pubkey());
     let now = now();
     // This claim is being overwritten. This means its old by-tag ptrs must be removed as well.
-    let old_claim = super::lookup_claim(lk, &new_claim.name)?;
+    let old_claim = super::local_claim::read_latest(lk, &new_claim.name)?;
     let old_claim = old_claim.as_ref();
     let old_chash = old_claim.map(|o| o.pkt.hash());
     if let Some(c) = old_claim {
diff --git a/crates/common/src/protocols/lns/local_claim.rs b/crates/common/src/protocols/lns/local_claim.rs
index cfe10bc..b4581de 100644
--- a/crates/common/src/protocols/lns/local_claim.rs
+++ b/crates/common/src/protocols/lns/local_claim.rs
@@ -13,30 +13,64 @@ pub fn get_private_claim<'o>(
     name: &Name,
     admin: Option<PubKey>,
 ) -> ApplyResult<RecvPktPtr<'o>> {
-    ApplyResult::Value(get_private_claims(reader, name, true, admin)?.next()?)
+    let preds = private_claims_predicates(name, true, admin)?;
+    let mut it = reader.query_tree(Order::Desc, &preds);
+    let newest = it.next()?;
+    let (create, key) = (*newest.get_create_stamp(), newest.pubkey().copied());
+    // several processes might have made the next claim - it is the first of those
+    let first = it
+        .take_while(|p| *p.get_create_stamp() == create && p.pubkey().copied() == key)
+        .fold(newest, |a, b| if b.recv < a.recv { b } else { a });
+    ApplyResult::Value(first)
 }
 
-pub fn get_private_claims<'o>(
-    reader: &'o ReadTxn,
+/// The claim as it is stored now. Others read the state of the last process
+pub(crate) fn read_latest(lk: &Linkspace, name: &Name) -> anyhow::Result<Option<Claim>> {
+    get_private_claim(&lk.env().new_read_txn()?, name, None)
+        .into_ok()?
+        .map(Claim::from)
+        .transpose()
+}
+
+fn private_claims_predicates(
     name: &Name,
     exact: bool,
     admin: Option<PubKey>,
-) -> anyhow::Result<impl Iterator<Item = RecvPktPtr<'o>>> {
+) -> anyhow::Result<PktPredicates> {
     let path = name.claim_space();
     let mut preds = PktPredicates::from_gdp(PRIVATE, LNS, &path, exact).create_before(now())?;
-    preds.state.i_branch = TestSet::new_eq(0);
     if let Some(v) = admin {
         preds.pubkey.add(TestOp::Equal, v.into())
     }
+    Ok(preds)
+}
+
+pub fn get_private_claims<'o>(
+    reader: &'o ReadTxn,
+    name: &Name,
+    exact: bool,
+    admin: Option<PubKey>,
+) -> anyhow::Result<impl Iterator<Item = RecvPktPtr<'o>>> {
+    let mut preds = private_claims_predicates(name, exact, admin)?;
+    preds.state.i_branch = TestSet::new_eq(0);
     Ok(reader.query_tree(Order::Desc, &preds))
 }
 
+/// false if another claim was made at the same time and is the one that counts
 pub(crate) fn setup_local_keyclaim(
     lk: &Linkspace,
     claim: Claim,
     admin: Option<&SigningKey>,
-) -> anyhow::Result<()> {
+) -> anyhow::Result<bool> {
     // We fake a claim chain and insert it into the admin tree.
     save_private_claim(lk, &claim, admin, &[], true)?;
-    Ok(())
+    let mut preds = private_claims_predicates(&claim.name, true, admin.map(|v| v.pubkey()))?;
+    let create = *claim.pkt.get_create_stamp();
+    preds.create.add(TestOp::Equal, create.get());
+    let reader = lk.env().new_read_txn()?;
+    let first = reader
+        .query_tree(Order::Desc, &preds)
+        .min_by_key(|p| p.recv)
+        .map(|p| p.hash());
+    Ok(first == Some(claim.pkt.hash()))
 }
diff --git a/crates/common/src/protocols/lns/mod.rs b/crates/common/src/protocols/lns/mod.rs
index 599a5e6..4e515c6 100644
--- a/crates/common/src/protocols/lns/mod.rs
+++ b/crates/common/src/protocols/lns/mod.rs
@@ -163,6 +163,12 @@ pub fn lookup_enckey(lk: &Linkspace, name: &Name) -> anyhow::Result<Option<(PubK
     Ok(None)
 }
 
+/// The key of a local name as it is stored now. [lookup_enckey] reads the state of the last process
+pub fn latest_enckey(lk: &Linkspace, name: &Name) -> anyhow::Result<Option<(PubKey, String)>> {
+    ensure!(name.name_type() == NameType::Local, "not a :local name");
+    Ok(local_claim::read_latest(lk, name)?.and_then(|c| c.enckey().ok()))
+}
+
 pub fn lookup_pubkey(lk: &Linkspace, name: &Name) -> anyhow::Result<Option<PubKey>> {
     lookup_claim(lk, name).map(|m| m.and_then(|c| c.pubkey().copied()))
 }
@@ -204,33 +210,36 @@ pub fn setup_special_keyclaim(
         sp == NameType::Local,
         "you can only setup :local key claims this way"
     );
-    let mut create = Stamp::ZERO;
-    if let Ok(Some(c)) = lookup_claim(lk, &name) {
-        if !overwrite {
-            anyhow::bail!("claim already set but overwrite is false")
-        } else {
+    if name.space().to_array().len() > 2 {
+        anyhow::bail!("Local is currently limited to single component name")
+    }
+    let pubkey = pubkey(enckey)?.into();
+    loop {
+        // another thread or process might have set it since the last process
+        let mut create = Stamp::ZERO;
+        if let Some(c) = local_claim::read_latest(lk, &name)? {
+            if !overwrite {
+                anyhow::bail!("claim already set but overwrite is false")
+            }
             tracing::debug!(old_claim=%c);
-            // newer than the claim it replaces - whatever the clock says
-            create = *c.pkt.get_create_stamp();
-            if c.pkt.data() != enckey.as_bytes() {
-                create = Stamp::new(create.get() + 1);
+            if c.pkt.data() == enckey.as_bytes() {
+                return Ok(pubkey);
             }
+            // newer than the claim it replaces - whatever the clock says
+            create = Stamp::new(c.pkt.get_create_stamp().get() + 1);
+        }
+        let claim = Claim::new_at(
+            name.clone(),
+            Stamp::MAX,
+            &mut [Link {
+                tag: ab(&PUBKEY_TAG),
+                ptr: pubkey,
+            }],
+            enckey.as_bytes(),
+            create,
+        )?;
+        if local_claim::setup_local_keyclaim(lk, claim, None)? {
+            return Ok(pubkey);
         }
     }
-    let pubkey = pubkey(enckey)?.into();
-    let claim = Claim::new_at(
-        name,
-        Stamp::MAX,
-        &mut [Link {
-            tag: ab(&PUBKEY_TAG),
-            ptr: pubkey,
-        }],
-        enckey.as_bytes(),
-        create,
-    )?;
-    if claim.name.space().to_array().len() > 2 {
-        anyhow::bail!("Local is currently limited to single component name")
-    }
-    local_claim::setup_local_keyclaim(lk, claim, None)?;
-    Ok(pubkey)
 }
diff --git a/crates/linkspace/src/lib.rs b/crates/linkspace/src/lib.rs
index 9ff5c2a..c352666 100644
--- a/crates/linkspace/src/lib.rs
+++ b/crates/linkspace/src/lib.rs
@@ -1197,8 +1197,16 @@ pub mod varscope {
                     use super::key::*;
                     let key = lk_keygen();
                     let enckey = super::key::lk_key_encrypt(&key, &password);
-                    lns::setup_special_keyclaim(&linkspace.0, name, &enckey, false)?;
-                    Ok(key)
+                    match lns::setup_special_keyclaim(&linkspace.0, name.clone(), &enckey, false) {
+                        Ok(_) => Ok(key),
+                        // it was set since the last process
+                        Err(e) => match lns::latest_enckey(&linkspace.0, &name) {
+                            Ok(Some((_, enckey))) => {
+                                Ok(linkspace_common::identity::decrypt(&enckey, &password)?)
+                            }
+                            _ => Err(e),
+                        },
+                    }
                 } else {
                     anyhow::bail!("no matching entry found")
                 }
-- 
2.43.0


From a3e552c4e24826c6479668becb7e22877fc4f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:11 +0000
Subject: [PATCH 42/50] fix: status: a poll whose callback broke on a recent
 reply is over

---
 crates/linkspace/src/conventions/status.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index bcd88e9..809d89e 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -117,13 +117,14 @@ pub fn lk_status_watch(
     d_timeout: Stamp,
     mut cb: impl crate::runtime::cb::PktHandler + 'static,
 ) -> LkResult<bool> {
-    use crate::runtime::{lk_get_all, lk_watch2};
+    use crate::runtime::{lk_get_all, lk_stop, lk_watch2};
     use linkspace_common::prelude::{U16, U32};
     use tracing::debug_span;
 
     let span = debug_span!("status_poll", ?status, ?d_timeout);
     let _ = span.enter();
     let mut ok = false;
+    let mut satisfied = false;
     let mut last_request = Stamp::ZERO;
     let mut query: Query = lk_status_overwatch(status, d_timeout)?;
     // We want to capture any old request, so we first lk_get_all both requests and replies.
@@ -136,9 +137,14 @@ pub fn lk_status_watch(
             ok = true;
             let cnt = (cb).handle_pkt(pkt, lk);
             tracing::debug!("recently replied");
-            cnt.is_break()
+            satisfied = cnt.is_break();
+            satisfied
         }
     })?;
+    if satisfied {
+        lk_stop(lk, status.qid, false);
+        return Ok(ok);
+    }
     if last_request == Stamp::ZERO {
         tracing::debug!("creating new req");
         let req = lk_status_request(status).unwrap();
-- 
2.43.0


From 465d2f21ae0a35dedddae77d860429de7e42065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 43/50] fix: status: a request for one instance is no request
 for all of them

---
 crates/linkspace/src/conventions/status.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index 809d89e..4d70a13 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -127,11 +127,15 @@ pub fn lk_status_watch(
     let mut satisfied = false;
     let mut last_request = Stamp::ZERO;
     let mut query: Query = lk_status_overwatch(status, d_timeout)?;
+    let space = lk_status_space(status)?;
     // We want to capture any old request, so we first lk_get_all both requests and replies.
     lk_get_all(lk, &query, &mut |pkt| {
         if pkt.get_links().is_empty() && pkt.data().is_empty() {
-            last_request = *pkt.get_create_stamp();
-            tracing::debug!(pkt=%PktFmt(&pkt),"recently requested");
+            // The query also matches requests for one instance - those are not answered by the others.
+            if pkt.get_rooted_spacename() == &*space {
+                last_request = *pkt.get_create_stamp();
+                tracing::debug!(pkt=%PktFmt(&pkt),"recently requested");
+            }
             false
         } else {
             ok = true;
-- 
2.43.0


From 0fb9162e1d5b1de95700e7b3c6e3ef6375cd66d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 44/50] fix: pull: a qid that does not fit is an error

---
 crates/linkspace/src/conventions/pull.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/linkspace/src/conventions/pull.rs b/crates/linkspace/src/conventions/pull.rs
index d9890ca..af98328 100644
--- a/crates/linkspace/src/conventions/pull.rs
+++ b/crates/linkspace/src/conventions/pull.rs
@@ -42,7 +42,8 @@ pub fn lk_pull_point(query: &Query) -> LkResult<NetPktBox> {
         .context("missing :qid:... option")?;
     let data = query.0.to_string();
     tracing::trace!(data);
-    let pull_space = rspace_buf(&[b"pull", &*group, &*domain, id]);
+    let pull_space = RootedSpaceBuf::try_from_iter([b"pull" as &[u8], &*group, &*domain, id])
+        .context("qid does not fit in the space name")?;
     let pkt = lk_linkpoint(
         data.as_bytes(),
         EXCHANGE_DOMAIN,
-- 
2.43.0


From 35e8d6bde5e75826981363a47702d571bd74dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 45/50] fix: a printed query keeps which of its repeated
 options is used

---
 crates/core/src/query.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/query.rs b/crates/core/src/query.rs
index 1db32c1..6090210 100644
--- a/crates/core/src/query.rs
+++ b/crates/core/src/query.rs
@@ -48,7 +48,7 @@ pub struct Query {
 }
 impl Display for Query {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        Display::fmt(&self.conf, f)?;
+        self.fmt_options(f)?;
         self.predicates.fmt(f)?;
         Ok(())
     }
@@ -85,12 +85,21 @@ impl Query {
     pub fn to_str(&self, canonical: bool) -> String {
         use std::fmt::Write;
         let mut out = String::new();
-        writeln!(out, "{}", &self.conf).unwrap();
+        self.fmt_options(&mut out).unwrap();
+        writeln!(out).unwrap();
         for p in self.predicates.iter() {
             writeln!(out, "{}", p.to_str(canonical)).unwrap();
         }
         out
     }
+    /// The option added last is the one used. Write them in the order they were added such that parsing does not change it.
+    fn fmt_options(&self, out: &mut dyn std::fmt::Write) -> std::fmt::Result {
+        let options: Vec<_> = self.conf.get_inner(&[]).collect();
+        for opt in options.into_iter().rev() {
+            writeln!(out, "{opt}")?;
+        }
+        Ok(())
+    }
     pub fn add_option(&mut self, name: &str, values: &[&[u8]]) {
         let mut ab = ABList::DEFAULT;
         ab.push_v((Some(Ctr::Colon), name.as_bytes().to_vec()));
-- 
2.43.0


From bea687af3536cb1f0acfb662470c3b5f4d0fe58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 46/50] fix: status: a service only answers requests of its own
 domain in the local group

---
 crates/linkspace/src/conventions/status.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index 4d70a13..0d366e9 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -226,6 +226,8 @@ pub fn lk_status_set(
         instance: None,
         ..status
     })?;
+    q = lk_query_push(q, "group", "=", &*PRIVATE)?;
+    q = lk_query_push(q, "domain", "=", &*status.domain)?;
     q = lk_query_push(q, "data_size", "=", &*U16::ZERO)?;
     q = lk_query_push(q, "links_len", "=", &*U16::ZERO)?;
     q = lk_query_push(q, "prefix", "=", prefix.space_bytes())?;
-- 
2.43.0


From a922c44e89bb63ac691611f5768c97b0c120caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:18 +0000
Subject: [PATCH 47/50] fix: status: a point with data or links but not both is
 no reply

---
 crates/linkspace/src/conventions/status.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index 0d366e9..28f8cff 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -137,6 +137,9 @@ pub fn lk_status_watch(
                 tracing::debug!(pkt=%PktFmt(&pkt),"recently requested");
             }
             false
+        } else if pkt.get_links().is_empty() || pkt.data().is_empty() {
+            // neither a request nor a reply
+            false
         } else {
             ok = true;
             let cnt = (cb).handle_pkt(pkt, lk);
-- 
2.43.0


From f42dc1691367abaa491416f69ac37f1413ab55bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 48/50] fix: status: a service does not answer requests below
 its own instance

---
 crates/linkspace/src/conventions/status.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index 28f8cff..41bdfd0 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -249,7 +249,7 @@ pub fn lk_status_set(
                 qid: &[],
             };
             let p = pkt.get_rooted_spacename();
-            if p.depth() == space.depth() && p.space() != space.as_ref() {
+            if p.depth() >= space.depth() && p.space() != space.as_ref() {
                 return Ok(());
             }
             let link = Link {
-- 
2.43.0


From 55c3c1d217673a9ccf26ef015184fc3249b55100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 49/50] fix: status: a poll ends a timeout after the newest
 request

---
 crates/linkspace/src/conventions/status.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/linkspace/src/conventions/status.rs b/crates/linkspace/src/conventions/status.rs
index 41bdfd0..6c74393 100644
--- a/crates/linkspace/src/conventions/status.rs
+++ b/crates/linkspace/src/conventions/status.rs
@@ -133,7 +133,7 @@ pub fn lk_status_watch(
         if pkt.get_links().is_empty() && pkt.data().is_empty() {
             // The query also matches requests for one instance - those are not answered by the others.
             if pkt.get_rooted_spacename() == &*space {
-                last_request = *pkt.get_create_stamp();
+                last_request = last_request.max(*pkt.get_create_stamp());
                 tracing::debug!(pkt=%PktFmt(&pkt),"recently requested");
             }
             false
-- 
2.43.0


From 3503fe72f949576fcb6a32a8d03d5173f94f5969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:49 +0000
Subject: [PATCH 50/50] fix: bus: a wait that finds a newer value does not wake
 another waiter

---
 crates/ipcbus/src/udp_procbus.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ipcbus/src/udp_procbus.rs b/crates/ipcbus/src/udp_procbus.rs
index 46a0a62..468fad5 100644
--- a/crates/ipcbus/src/udp_procbus.rs
+++ b/crates/ipcbus/src/udp_procbus.rs
@@ -168,6 +168,7 @@ impl ProcBus {
         let val = self.0.val.load(Ordering::SeqCst);
         if val > seen {
             tracing::trace!(val, seen, "Already emitted");
+            listener.as_mut().discard(); // a dropped listener would pass its notification on
             return Some(val);
         }
         match deadline {
@@ -195,6 +196,7 @@ impl ProcBus {
         let val = self.0.val.load(Ordering::SeqCst);
         if val > seen {
             tracing::trace!(val, seen, "Already emitted");
+            listener.as_mut().discard(); // a dropped listener would pass its notification on
             return val;
         }
         tracing::trace!("Async Wait");
-- 
2.43.0

