From fd742d026ccc0995219e1759334ac355df7dd3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 01/12] fix: replace the store file atomically

A crash during the write left a truncated store, which made every later start panic.
---
 src/store/store.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/store/store.rs b/src/store/store.rs
index 20e635d..6fcc639 100644
--- a/src/store/store.rs
+++ b/src/store/store.rs
@@ -3,6 +3,7 @@ use super::{
     IntermediaryTransactionStore, IntermediaryTransactionStoreBackend, TransactionStore, TransactionStoreBackendTrait,
 };
 use crate::{Batcher, BlockHeader, BlockTrait, BufferWriter, HashingBufferReader, Logger, PartialLogger, SequentialThreadPool, TryInto};
+use std::io::Write;
 
 #[derive(Debug)]
 pub struct Store<T: TransactionStoreBackendTrait> {
@@ -140,7 +141,12 @@ impl IndexedStore {
         let mut writer = BufferWriter::new();
         self.to_writer(&mut writer, logger);
         logger.log("writing buffer to file...");
-        std::fs::write(path, writer.buffer()).unwrap();
+        let temporary_path = format!("{}.tmp", path);
+        let mut file = std::fs::File::create(&temporary_path).unwrap();
+        file.write_all(&writer.buffer()).unwrap();
+        file.sync_all().unwrap();
+        drop(file);
+        std::fs::rename(&temporary_path, path).unwrap();
         logger.log("writing buffer to file done!");
         logger.log("writing store to file done!");
     }
-- 
2.43.0


From fcf150e55f340f8dd9c9a815138dabe073e367ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 02/12] fix: keep the lock while the store is written

The guard was dropped at once, so an update with new blocks waited for the end
of the write with the augmentations locked, and all queries with it.  With the
lock held, the blocks stay in the tail until the write is done.
---
 src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index af43455..bd304fc 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -53,7 +53,7 @@ impl State {
             } else {
                 tail_blocks.augmentations(&store)
             };
-            assert!(augmentations.len() == self.confirmations);
+            assert!(augmentations.len() >= self.confirmations);
             Update::AugmentationsUpdate(augmentations, blocks)
         } else {
             Update::LastAugmentationUpdate(tail_blocks.last_augmentation(&store))
@@ -164,7 +164,7 @@ impl State {
     }
 
     pub async fn write(&self, file: &str) {
-        let _ = self.mutex.lock().await;
+        let _guard = self.mutex.lock().await;
         let store = self.store.read().await;
         let logger = Logger::new();
         store.to_file(file, &logger);
-- 
2.43.0


From 652710b8685a5c191a98bb2aef81fcc668431de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 03/12] fix: compute all augmentations in the first update

Without a new block (always so with CONFIRMATIONS=1) the first update tried to
replace the last of no augmentations and the service could not start.
---
 src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index bd304fc..acc0c2b 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -35,10 +35,11 @@ impl State {
     }
 
     async fn compute_update(&self, update_store: bool, logger: &Logger) -> Update {
+        let first_update = self.augmentations.read().await.is_empty();
         let store = self.store.read().await;
         let mut tail_blocks = self.tail_blocks.lock().await;
         tail_blocks.update_mempool(&self.client, logger).await;
-        if tail_blocks.update_blocks(&store, &self.client, logger).await {
+        if tail_blocks.update_blocks(&store, &self.client, logger).await || first_update {
             let blocks = if update_store {
                 tail_blocks.pop(self.confirmations)
             } else {
-- 
2.43.0


From 65809e01e78429ee3f15a70b6f80347503465a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 04/12] fix: ignore repeated blocks in the block files

Every repetition on the chain doubled the number of heads.
---
 src/block_file_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index e390488..fd22182 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -61,6 +61,9 @@ impl BlockFileReader {
         let mut hashmap = HashMap::with_capacity(blocks.len());
         let mut reverse_hashmap = HashMap::with_capacity(blocks.len());
         for block in blocks {
+            if hashmap.contains_key(&block.hash()) {
+                continue;
+            }
             match reverse_hashmap.get_mut(&block.previous_block_hash()) {
                 None => {
                     reverse_hashmap.insert(block.previous_block_hash(), vec![block.hash()]);
-- 
2.43.0


From 151268aca1ac27116577d3a8354292e83206769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 05/12] fix: accept zero padding shorter than a block header

A block file that ends with 1 to 87 zero bytes could not be read.
---
 src/block_file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index fd22182..5025b8d 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -115,7 +115,7 @@ impl BlockFileReader {
         let mut blocks = Vec::new();
         loop {
             let bytes = file.read(&mut buffer).unwrap();
-            if bytes == 0 {
+            if buffer[..bytes].iter().all(|byte| *byte == 0) {
                 break;
             }
             assert!(bytes == 88);
-- 
2.43.0


From 2a21fe9d59b4e0998f20e61b431859259db68d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 06/12] fix: survive a wall clock that is set back

The elapsed time of a log line made the service panic.
---
 src/chronometer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chronometer.rs b/src/chronometer.rs
index aaeee76..e14896d 100644
--- a/src/chronometer.rs
+++ b/src/chronometer.rs
@@ -11,7 +11,7 @@ impl Chronometer {
     }
 
     pub fn elapsed(&self) -> String {
-        let elapsed = SystemTime::now().duration_since(self.start).unwrap().as_millis();
+        let elapsed = SystemTime::now().duration_since(self.start).unwrap_or_default().as_millis();
         format!("{:02}:{:02}.{:03}", elapsed / 60000, (elapsed % 60000) / 1000, elapsed % 1000)
     }
 }
-- 
2.43.0


From c0991b09ab7315d099c95248546bfd0d9f82f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 07/12] fix: do not let the query string replace path
 parameters

/addresses/A/balance?address=B answered for B.
---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 4fe8f7c..bc4637a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -129,7 +129,8 @@ impl<S> Router<S> {
     pub async fn route(&self, request: Request<Body>, body: Vec<u8>) -> Response<Body> {
         println!("{} {}", request.method(), request.uri());
         for route in &self.routes {
-            if let Some(mut parameters) = route.check(&request) {
+            if let Some(path_parameters) = route.check(&request) {
+                let mut parameters = HashMap::new();
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
                         let parts: Vec<&str> = part.split('=').collect();
@@ -138,6 +139,7 @@ impl<S> Router<S> {
                         }
                     }
                 }
+                parameters.extend(path_parameters);
                 return (route.handler)(request, parameters, body, self.state.clone()).await;
             }
         }
-- 
2.43.0


From 7733904f6b0e5d74d55e739d000e8036d7fec3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 08/12] fix: fail when a worker thread fails

The items of a panicking worker (an unreadable block file, a batch that cannot be
processed) and all after them were dropped silently, and the partial index was
stored as if it were complete.
---
 src/thread_pool.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/thread_pool.rs b/src/thread_pool.rs
index bd02761..bec9f6c 100644
--- a/src/thread_pool.rs
+++ b/src/thread_pool.rs
@@ -3,11 +3,12 @@ use std::{
         mpsc::{channel, Receiver},
         Arc, Mutex,
     },
-    thread::spawn,
+    thread::{spawn, JoinHandle},
 };
 
 pub struct ThreadPool<Output> {
     output_receiver: Receiver<Output>,
+    threads: Vec<JoinHandle<()>>,
 }
 
 impl<Output> ThreadPool<Output>
@@ -24,11 +25,12 @@ where
         let (output_sender, output_receiver) = channel();
 
         let process_fn = Arc::new(process_fn);
+        let mut handles = Vec::new();
         for _ in 0..threads {
             let input_receiver = input_receiver.clone();
             let output_sender = output_sender.clone();
             let process_fn = process_fn.clone();
-            spawn(move || loop {
+            handles.push(spawn(move || loop {
                 let input = input_receiver.lock().unwrap().recv();
                 match input {
                     Ok(input) => {
@@ -39,12 +41,15 @@ where
                         break;
                     }
                 }
-            });
+            }));
         }
         for input in inputs {
             input_sender.send(input).unwrap()
         }
-        Self { output_receiver }
+        Self {
+            output_receiver,
+            threads: handles,
+        }
     }
 }
 
@@ -52,6 +57,12 @@ impl<Output> Iterator for ThreadPool<Output> {
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.output_receiver.recv().ok()
+        let output = self.output_receiver.recv().ok();
+        if output.is_none() {
+            for thread in self.threads.drain(..) {
+                thread.join().unwrap();
+            }
+        }
+        output
     }
 }
-- 
2.43.0


From 06bfef7c44e84ae08266fe3608ef7fbab6cde7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 09/12] fix: refuse unconfirmed transaction ids of the wrong
 length

---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 32f56a3..cb19a8d 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -76,7 +76,7 @@ impl Client {
             .iter()
             .map(|hash| {
                 let mut result = [0u8; 32];
-                reverse_hex::decode_into(hash, &mut result).unwrap();
+                assert_eq!(reverse_hex::decode_into(hash, &mut result).unwrap(), result.len());
                 result
             })
             .collect()
-- 
2.43.0


From 37a01cc1f0659d3db36280ca01b5f0ffa9dbfbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:55 +0000
Subject: [PATCH 10/12] fix: do not ignore query parameters that contain no or
 several equals signs

---
 src/server.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index bc4637a..6d51fc8 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -133,10 +133,10 @@ impl<S> Router<S> {
                 let mut parameters = HashMap::new();
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
-                        let parts: Vec<&str> = part.split('=').collect();
-                        if parts.len() == 2 {
-                            parameters.insert(parts[0].to_string(), parts[1].to_string());
-                        }
+                        let mut parts = part.splitn(2, '=');
+                        let name = parts.next().unwrap_or("");
+                        let value = parts.next().unwrap_or("");
+                        parameters.insert(name.to_string(), value.to_string());
                     }
                 }
                 parameters.extend(path_parameters);
-- 
2.43.0


From bd0657fcece97c59722f186afd211eaea49554ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:56 +0000
Subject: [PATCH 11/12] fix: refuse settings that are not valid Unicode instead
 of using the default

---
 src/configuration.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 3126388..59e508f 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -19,14 +19,15 @@ pub struct Configuration {
 fn var(key: &str, default: Option<String>) -> Result<String, String> {
     match env::var(key) {
         Ok(value) => Ok(value),
-        Err(_) => default.ok_or(format!("Missing {}", key)),
+        Err(env::VarError::NotPresent) => default.ok_or(format!("Missing {}", key)),
+        Err(env::VarError::NotUnicode(_)) => Err(format!("Invalid {}", key)),
     }
 }
 
 fn var_map<T, E: error::Error>(key: &str, mut f: impl FnMut(&str) -> Result<T, E>, default: Option<T>) -> Result<T, String> {
-    match var(key, None) {
-        Ok(value) => f(&value).map_err(|_| format!("Invalid {} {}", key, value)),
-        Err(err) => default.ok_or(err),
+    match (env::var_os(key), default) {
+        (None, Some(default)) => Ok(default),
+        _ => var(key, None).and_then(|value| f(&value).map_err(|_| format!("Invalid {} {}", key, value))),
     }
 }
 
-- 
2.43.0


From 67f3dcbc63464d864ca041bccd143fd49851ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 12/12] fix: ignore files in the block directory whose name is
 not valid Unicode

---
 src/block_file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index 5025b8d..722bc0d 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -49,7 +49,7 @@ impl BlockFileReader {
         let regex = Regex::new(r"^blk[0-9]{5}\.dat$").unwrap();
         let mut file_names: Vec<_> = read_dir(&self.path)
             .expect(&format!("Could not list files of directory {}", &self.path))
-            .map(|entry| entry.unwrap().file_name().into_string().unwrap())
+            .filter_map(|entry| entry.unwrap().file_name().into_string().ok())
             .filter(|file_name| regex.is_match(file_name))
             .collect();
         file_names.sort();
-- 
2.43.0

