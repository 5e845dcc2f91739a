From a3bc329d1ea758cf824fbe69ed9b008a3c4dbcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 01/10] fix: escape channel names when choosing the inbox
 folder

A channel name containing path separators, ".." or an absolute path
was joined to the storage path as is, so a sender could write outside of
the storage folder or into another receiver's inbox.
---
 .../server/messages_inbox/stored_queue.rs     | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index 283a7cd..1688c24 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -21,6 +21,22 @@ pub enum Error {
     Serialize(#[from] serde_json::Error)
 }
 
+/// Name of the folder of a channel. Channel's name is chosen
+/// by a remote user, so it should be escaped to become exactly
+/// one path component, different for every channel.
+fn folder_name(channel: &str) -> String {
+    match channel {
+        "" => String::from("%"),
+        "." => String::from("%2E"),
+        ".." => String::from("%2E%2E"),
+
+        channel => channel.replace('%', "%25")
+            .replace('/', "%2F")
+            .replace('\\', "%5C")
+            .replace('\0', "%00")
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct StoredQueueMessagesInbox {
     /// Path to the messages inbox's folder.
@@ -63,7 +79,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.storage_folder
             .join(receiver.to_base64())
-            .join(&channel);
+            .join(folder_name(&channel));
 
         tokio::fs::create_dir_all(&folder).await?;
 
@@ -105,7 +121,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.storage_folder
             .join(receiver.to_base64())
-            .join(&channel);
+            .join(folder_name(&channel));
 
         if let Ok(index) = tokio::fs::read(folder.join("index")).await {
             assert!(index.len() % 8 == 0);
-- 
2.43.0


From 08ef19cd759386cd566910fec3cde03293d6a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:37 +0000
Subject: [PATCH 02/10] fix: make the stored queue inbox atomic

Concurrent sends and polls lost messages (unsynchronised read-modify-write
of the index), a failed read of the index erased the queue, polls which
failed half-way dropped messages, and torn writes made a channel unreadable.
---
 .../server/messages_inbox/stored_queue.rs     | 117 +++++++++++++++---
 1 file changed, 98 insertions(+), 19 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index 1688c24..0f6ab2f 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -1,4 +1,5 @@
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
+use std::sync::{Mutex, MutexGuard};
 
 use serde_json::Value as Json;
 
@@ -37,6 +38,42 @@ fn folder_name(channel: &str) -> String {
     }
 }
 
+/// Changes of the index are read-modify-write operations,
+/// so they should be done one at a time.
+fn lock() -> MutexGuard<'static, ()> {
+    static LOCK: Mutex<()> = Mutex::new(());
+
+    LOCK.lock().unwrap_or_else(|err| err.into_inner())
+}
+
+/// Read the file, or return `None` if it doesn't exist.
+fn read_file(path: &Path) -> std::io::Result<Option<Vec<u8>>> {
+    match std::fs::read(path) {
+        Ok(content) => Ok(Some(content)),
+        Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(None),
+        Err(err) => Err(err)
+    }
+}
+
+fn read_index(folder: &Path) -> std::io::Result<Vec<u8>> {
+    let mut index = read_file(&folder.join("index"))?
+        .unwrap_or(vec![]);
+
+    // Drop partially written message id
+    index.truncate(index.len() / 8 * 8);
+
+    Ok(index)
+}
+
+/// Write the file in such a way that it has either
+/// the old or the new content at any moment of time.
+fn write_file(folder: &Path, name: &str, content: &[u8]) -> std::io::Result<()> {
+    let temp = folder.join(".tmp");
+
+    std::fs::write(&temp, content)?;
+    std::fs::rename(temp, folder.join(name))
+}
+
 #[derive(Debug, Clone)]
 pub struct StoredQueueMessagesInbox {
     /// Path to the messages inbox's folder.
@@ -58,17 +95,14 @@ impl StoredQueueMessagesInbox {
     }
 }
 
-#[async_trait::async_trait]
-impl MessagesInbox for StoredQueueMessagesInbox {
-    type Error = Error;
-
-    async fn add_message(
+impl StoredQueueMessagesInbox {
+    fn add_message_blocking(
         &self,
         sender: Sender,
         receiver: PublicKey,
         channel: String,
         message: Message
-    ) -> Result<(), Self::Error> {
+    ) -> Result<(), Error> {
         #[cfg(feature = "tracing")]
         tracing::debug!(
             sender = ?sender,
@@ -81,10 +115,11 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             .join(receiver.to_base64())
             .join(folder_name(&channel));
 
-        tokio::fs::create_dir_all(&folder).await?;
+        let _lock = lock();
+
+        std::fs::create_dir_all(&folder)?;
 
-        let mut index = tokio::fs::read(folder.join("index")).await
-            .unwrap_or(vec![]);
+        let mut index = read_index(&folder)?;
 
         let message_id = safe_random_u64();
 
@@ -99,18 +134,19 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let message_info = serde_json::to_vec(&message_info.to_json()?)?;
 
-        tokio::fs::write(folder.join("index"), index).await?;
-        tokio::fs::write(folder.join(message_id.to_string()), message_info).await?;
+        // The message should be stored before it's listed in the index
+        write_file(&folder, &message_id.to_string(), &message_info)?;
+        write_file(&folder, "index", &index)?;
 
         Ok(())
     }
 
-    async fn poll_messages(
+    fn poll_messages_blocking(
         &self,
         receiver: PublicKey,
         channel: String,
         limit: Option<u64>
-    ) -> Result<(Vec<MessageInfo>, u64), Self::Error> {
+    ) -> Result<(Vec<MessageInfo>, u64), Error> {
         #[cfg(feature = "tracing")]
         tracing::debug!(
             receiver = receiver.to_base64(),
@@ -123,14 +159,17 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             .join(receiver.to_base64())
             .join(folder_name(&channel));
 
-        if let Ok(index) = tokio::fs::read(folder.join("index")).await {
-            assert!(index.len() % 8 == 0);
+        let _lock = lock();
+
+        let index = read_index(&folder)?;
 
+        if !index.is_empty() {
             let mut bytes = [0; 8];
             let mut limit = limit.unwrap_or(u64::MAX);
             let mut shift = 0;
 
             let mut messages = Vec::new();
+            let mut polled = Vec::new();
 
             for message_id in index.chunks(8) {
                 if limit == 0 {
@@ -142,14 +181,14 @@ impl MessagesInbox for StoredQueueMessagesInbox {
                 let message_id = u64::from_be_bytes(bytes);
                 let message_path = folder.join(message_id.to_string());
 
-                if let Ok(message_info) = tokio::fs::read(&message_path).await {
+                if let Some(message_info) = read_file(&message_path)? {
                     let message_info = serde_json::from_slice::<Json>(&message_info)?;
 
                     messages.push(MessageInfo::from_json(&message_info)?);
 
                     limit -= 1;
 
-                    tokio::fs::remove_file(message_path).await?;
+                    polled.push(message_path);
                 }
 
                 shift += 8;
@@ -157,7 +196,13 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
             let index = &index[shift..];
 
-            tokio::fs::write(folder.join("index"), index).await?;
+            write_file(&folder, "index", index)?;
+
+            // These files are not listed in the index anymore,
+            // so failing to remove one of them is harmless
+            for message_path in polled {
+                let _ = std::fs::remove_file(message_path);
+            }
 
             return Ok((
                 messages,
@@ -169,6 +214,40 @@ impl MessagesInbox for StoredQueueMessagesInbox {
     }
 }
 
+#[async_trait::async_trait]
+impl MessagesInbox for StoredQueueMessagesInbox {
+    type Error = Error;
+
+    async fn add_message(
+        &self,
+        sender: Sender,
+        receiver: PublicKey,
+        channel: String,
+        message: Message
+    ) -> Result<(), Self::Error> {
+        let inbox = self.clone();
+
+        // Blocking task can't be cancelled half-way
+        tokio::task::spawn_blocking(move || {
+            inbox.add_message_blocking(sender, receiver, channel, message)
+        }).await.map_err(std::io::Error::from)?
+    }
+
+    async fn poll_messages(
+        &self,
+        receiver: PublicKey,
+        channel: String,
+        limit: Option<u64>
+    ) -> Result<(Vec<MessageInfo>, u64), Self::Error> {
+        let inbox = self.clone();
+
+        // Blocking task can't be cancelled half-way
+        tokio::task::spawn_blocking(move || {
+            inbox.poll_messages_blocking(receiver, channel, limit)
+        }).await.map_err(std::io::Error::from)?
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::rest_api::types::client::tests::get_client;
-- 
2.43.0


From 2f499b10497732a687c1f8cb230abf8022bfb962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 03/10] fix: make routing table records atomic

Indexing truncated the record in place, so a crash, a full disk or a
concurrent reader saw a torn record which made the whole listing fail, as
did a record removed while the folder was being listed. Failed removals
were reported as successful disconnects.
---
 src/drivers/server/router/global_table.rs | 68 +++++++++++++++++++----
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/src/drivers/server/router/global_table.rs b/src/drivers/server/router/global_table.rs
index 4807704..0a3a71a 100755
--- a/src/drivers/server/router/global_table.rs
+++ b/src/drivers/server/router/global_table.rs
@@ -1,4 +1,5 @@
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
+use std::sync::Mutex;
 
 use serde_json::{json, Value as Json};
 
@@ -44,6 +45,41 @@ impl GlobalTableRouter {
             storage_folder
         })
     }
+
+    /// Replace the record's file in such a way that it has either
+    /// the old or the new content at any moment of time.
+    async fn write_record(&self, path: PathBuf, record: Vec<u8>) -> Result<(), Error> {
+        static LOCK: Mutex<()> = Mutex::new(());
+
+        let temp = self.storage_folder.join(".tmp");
+
+        // Blocking task can't be cancelled half-way
+        tokio::task::spawn_blocking(move || {
+            let _lock = LOCK.lock().unwrap_or_else(|err| err.into_inner());
+
+            std::fs::write(&temp, record)?;
+            std::fs::rename(temp, path)
+        }).await.map_err(std::io::Error::from)??;
+
+        Ok(())
+    }
+}
+
+/// Read the record, or return `None` if it doesn't exist.
+async fn read_record(path: impl AsRef<Path>) -> std::io::Result<Option<Vec<u8>>> {
+    match tokio::fs::read(path).await {
+        Ok(record) => Ok(Some(record)),
+        Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(None),
+        Err(err) => Err(err)
+    }
+}
+
+/// Remove the record if it exists.
+async fn remove_record(path: impl AsRef<Path>) -> std::io::Result<()> {
+    match tokio::fs::remove_file(path).await {
+        Err(err) if err.kind() != std::io::ErrorKind::NotFound => Err(err),
+        _ => Ok(())
+    }
 }
 
 #[async_trait::async_trait]
@@ -60,7 +96,7 @@ impl Router for GlobalTableRouter {
             "client": client.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&client)?).await?;
+        self.write_record(path, serde_json::to_vec(&client)?).await?;
 
         Ok(true)
     }
@@ -76,7 +112,7 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&record)?).await?;
+        self.write_record(path, serde_json::to_vec(&record)?).await?;
 
         Ok(true)
     }
@@ -91,7 +127,7 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&server)?).await?;
+        self.write_record(path, serde_json::to_vec(&server)?).await?;
 
         Ok(true)
     }
@@ -104,9 +140,9 @@ impl Router for GlobalTableRouter {
         // 1. It's faster and easier to implement
         // 2. Current implementations generally ignore availability
         //    flag thus changing it doesn't make a weather
-        let _ = tokio::fs::remove_file(self.storage_folder.join("local").join(&public_key)).await;
-        let _ = tokio::fs::remove_file(self.storage_folder.join("remote").join(&public_key)).await;
-        let _ = tokio::fs::remove_file(self.storage_folder.join("servers").join(&public_key)).await;
+        remove_record(self.storage_folder.join("local").join(&public_key)).await?;
+        remove_record(self.storage_folder.join("remote").join(&public_key)).await?;
+        remove_record(self.storage_folder.join("servers").join(&public_key)).await?;
 
         Ok(())
     }
@@ -120,7 +156,11 @@ impl Router for GlobalTableRouter {
         let mut entries = tokio::fs::read_dir(folder).await?;
 
         while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
+            // Record could be removed since the folder was listed
+            let Some(entry) = read_record(entry.path()).await? else {
+                continue;
+            };
+
             let record = serde_json::from_slice::<Json>(&entry)?;
 
             let client = Client::from_json(&record["client"])?;
@@ -140,7 +180,11 @@ impl Router for GlobalTableRouter {
         let mut entries = tokio::fs::read_dir(folder).await?;
 
         while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
+            // Record could be removed since the folder was listed
+            let Some(entry) = read_record(entry.path()).await? else {
+                continue;
+            };
+
             let record = serde_json::from_slice::<Json>(&entry)?;
 
             let client = Client::from_json(&record["client"])?;
@@ -161,7 +205,11 @@ impl Router for GlobalTableRouter {
         let mut entries = tokio::fs::read_dir(folder).await?;
 
         while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
+            // Record could be removed since the folder was listed
+            let Some(entry) = read_record(entry.path()).await? else {
+                continue;
+            };
+
             let record = serde_json::from_slice::<Json>(&entry)?;
 
             let server = Server::from_json(&record["server"])?;
-- 
2.43.0


From fb6f0e2a9f1765aee36516b70bb9c44d8978b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 04/10] fix: look up the requested client

Lookup handler searched for the sender of the request instead.
---
 src/rest_api/middleware/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rest_api/middleware/server.rs b/src/rest_api/middleware/server.rs
index 8ffac1c..4fcb816 100644
--- a/src/rest_api/middleware/server.rs
+++ b/src/rest_api/middleware/server.rs
@@ -274,7 +274,7 @@ where
                 }
 
                 // Try to find the client in the local index
-                match driver.router().lookup_local_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_local_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, available))) => {
                         let body = LookupResponseBody::local(client, available);
 
@@ -295,7 +295,7 @@ where
                 }
 
                 // Try to find the client in the remote index
-                match driver.router().lookup_remote_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, server, available))) => {
                         let body = LookupResponseBody::remote(client, server, available);
 
@@ -317,7 +317,7 @@ where
 
                 // Return searching hint if neither local nor known remote record found
                 let hint = driver.router()
-                    .lookup_remote_client_hint(&request.0.public_key, request.0.request.client_type)
+                    .lookup_remote_client_hint(&request.0.request.public_key, request.0.request.client_type)
                     .await;
 
                 match hint {
-- 
2.43.0


From bfc96d5cf789e08973011d9a1437d99d68ea4be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:23 +0000
Subject: [PATCH 05/10] fix: keep the newest connection of a client

An older (delayed or replayed) announcement replaced a newer one, and a
server returned its own stale record of a client which has moved.
---
 src/drivers/server/router/global_table.rs | 37 +++++++++++++++-----
 src/rest_api/middleware/server.rs         | 42 +++++++++++++----------
 2 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/src/drivers/server/router/global_table.rs b/src/drivers/server/router/global_table.rs
index 0a3a71a..60777b4 100755
--- a/src/drivers/server/router/global_table.rs
+++ b/src/drivers/server/router/global_table.rs
@@ -48,7 +48,10 @@ impl GlobalTableRouter {
 
     /// Replace the record's file in such a way that it has either
     /// the old or the new content at any moment of time.
-    async fn write_record(&self, path: PathBuf, record: Vec<u8>) -> Result<(), Error> {
+    /// 
+    /// If `auth_date` is given, then a record of the client with
+    /// newer connection certificate is kept, and `false` is returned.
+    async fn write_record(&self, path: PathBuf, record: Vec<u8>, auth_date: Option<u64>) -> Result<bool, Error> {
         static LOCK: Mutex<()> = Mutex::new(());
 
         let temp = self.storage_folder.join(".tmp");
@@ -57,11 +60,27 @@ impl GlobalTableRouter {
         tokio::task::spawn_blocking(move || {
             let _lock = LOCK.lock().unwrap_or_else(|err| err.into_inner());
 
+            if let Some(auth_date) = auth_date {
+                match std::fs::read(&path) {
+                    Ok(known) => {
+                        let known = serde_json::from_slice::<Json>(&known).ok()
+                            .and_then(|known| Client::from_json(&known["client"]).ok());
+
+                        if known.is_some_and(|known| known.certificate.token.auth_date > auth_date) {
+                            return Ok(false);
+                        }
+                    }
+
+                    Err(err) if err.kind() == std::io::ErrorKind::NotFound => (),
+                    Err(err) => return Err(err.into())
+                }
+            }
+
             std::fs::write(&temp, record)?;
-            std::fs::rename(temp, path)
-        }).await.map_err(std::io::Error::from)??;
+            std::fs::rename(temp, path)?;
 
-        Ok(())
+            Ok(true)
+        }).await.map_err(std::io::Error::from)?
     }
 }
 
@@ -96,7 +115,7 @@ impl Router for GlobalTableRouter {
             "client": client.to_json()?
         });
 
-        self.write_record(path, serde_json::to_vec(&client)?).await?;
+        self.write_record(path, serde_json::to_vec(&client)?, None).await?;
 
         Ok(true)
     }
@@ -106,15 +125,15 @@ impl Router for GlobalTableRouter {
             .join("remote")
             .join(client.public_key.to_base64());
 
+        let auth_date = client.certificate.token.auth_date;
+
         let record = json!({
             "indexed_at": timestamp(),
             "client": client.to_json()?,
             "server": server.to_json()?
         });
 
-        self.write_record(path, serde_json::to_vec(&record)?).await?;
-
-        Ok(true)
+        self.write_record(path, serde_json::to_vec(&record)?, Some(auth_date)).await
     }
 
     async fn index_server(&self, server: Server) -> Result<bool, Self::Error> {
@@ -127,7 +146,7 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        self.write_record(path, serde_json::to_vec(&server)?).await?;
+        self.write_record(path, serde_json::to_vec(&server)?, None).await?;
 
         Ok(true)
     }
diff --git a/src/rest_api/middleware/server.rs b/src/rest_api/middleware/server.rs
index 4fcb816..55e70e3 100644
--- a/src/rest_api/middleware/server.rs
+++ b/src/rest_api/middleware/server.rs
@@ -273,9 +273,22 @@ where
                     );
                 }
 
+                // Try to find the client in the remote index
+                let remote = match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
+                    Ok(remote) => remote,
+
+                    Err(err) => return LookupResponse::error(
+                        ResponseStatus::ServerError,
+                        format!("Failed to lookup remote client: {err}")
+                    )
+                };
+
+                // Remote record with newer certificate means that the client has left this server
+                let remote_auth_date = remote.as_ref().map(|(client, _, _)| client.certificate.token.auth_date);
+
                 // Try to find the client in the local index
                 match driver.router().lookup_local_client(&request.0.request.public_key, request.0.request.client_type).await {
-                    Ok(Some((client, available))) => {
+                    Ok(Some((client, available))) if remote_auth_date <= Some(client.certificate.token.auth_date) => {
                         let body = LookupResponseBody::local(client, available);
 
                         return LookupResponse::success(
@@ -294,25 +307,16 @@ where
                     _ => ()
                 }
 
-                // Try to find the client in the remote index
-                match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
-                    Ok(Some((client, server, available))) => {
-                        let body = LookupResponseBody::remote(client, server, available);
-
-                        return LookupResponse::success(
-                            ResponseStatus::Success,
-                            &driver.params().secret_key,
-                            request.0.proof_seed,
-                            body
-                        );
-                    }
-
-                    Err(err) => return LookupResponse::error(
-                        ResponseStatus::ServerError,
-                        format!("Failed to lookup remote client: {err}")
-                    ),
+                // Otherwise return the remote record
+                if let Some((client, server, available)) = remote {
+                    let body = LookupResponseBody::remote(client, server, available);
 
-                    _ => ()
+                    return LookupResponse::success(
+                        ResponseStatus::Success,
+                        &driver.params().secret_key,
+                        request.0.proof_seed,
+                        body
+                    );
                 }
 
                 // Return searching hint if neither local nor known remote record found
-- 
2.43.0


From 8274fe0bc6a1b9e2c1beeae47b0d9f8e297c39e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:44 +0000
Subject: [PATCH 06/10] fix: check that responses are signed by the connected
 server

---
 src/rest_api/middleware/client.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index d04cf28..fbf5e79 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -15,6 +15,16 @@ use crate::address::resolve as resolve_uri;
 
 use super::Error;
 
+/// Check that successful response was made by the expected server.
+/// 
+/// Error responses are not signed.
+fn is_signed_by<T>(response: &Response<T>, server_public: &PublicKey) -> bool {
+    match response {
+        Response::Success { public_key, .. } => public_key == server_public,
+        Response::Error { .. } => true
+    }
+}
+
 #[derive(Debug, Clone, Hash)]
 /// Client HTTP middleware
 /// 
@@ -177,7 +187,7 @@ impl<T: HttpClient + Send + Sync> Client<T> {
         ).await?;
 
         // Validate response
-        if !response.validate(proof_seed)? {
+        if !response.validate(proof_seed)? || !is_signed_by(&response.0, &server_public) {
             return Err(Error::InvalidProofSeedSignature);
         }
 
@@ -300,7 +310,7 @@ impl<T: HttpClient> ConnectedClient<T> {
         ).await?;
 
         // Validate response
-        if !response.validate(proof_seed)? {
+        if !response.validate(proof_seed)? || !is_signed_by(&response.0, &self.connected_server.public_key) {
             return Err(Error::InvalidProofSeedSignature);
         }
 
@@ -549,7 +559,7 @@ impl<T: HttpClient> ConnectedClient<T> {
         ).await?;
 
         // Validate response
-        if !response.validate(proof_seed)? {
+        if !response.validate(proof_seed)? || !is_signed_by(&response.0, &self.connected_server.public_key) {
             return Err(Error::InvalidProofSeedSignature);
         }
 
-- 
2.43.0


From 3beda9c814809b0cdd9de3248323eb8e70747ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 07/10] fix: continue client lookup past misbehaving servers

---
 src/rest_api/middleware/client.rs | 35 ++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index fbf5e79..e089067 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -411,7 +411,7 @@ impl<T: HttpClient> ConnectedClient<T> {
 
         while let Some(server_address) = queue.pop_front() {
             // Skip server if it was already used
-            if used_servers.contains(&server_address) {
+            if !used_servers.insert(server_address.clone()) {
                 continue;
             }
 
@@ -423,36 +423,51 @@ impl<T: HttpClient> ConnectedClient<T> {
                 // FIXME: causes some weird ass issue with "infinite async recursion"
                 format!("http://{server_address}/api/v1/lookup"), // resolve_uri(&server_address, self).await?
                 request.clone()
-            ).await?;
+            ).await;
+
+            // Skip unreachable server and go to the next one
+            let Ok(response) = response else {
+                continue;
+            };
 
             // Validate response
-            if !response.validate(proof_seed)? {
+            if !matches!(response.validate(proof_seed), Ok(true)) {
                 // Skip execution and go to the next server
                 continue;
             }
 
             // Process successful response
             if let Response::Success { public_key, response, .. } = response.0 {
-                match response {
+                let (client, server, available) = match response {
                     LookupResponseBody::Local { client, available } => {
-                        let server = ServerApiRecord::new(public_key, &server_address);
-
-                        return Ok(Some((client, server, available)));
+                        (client, ServerApiRecord::new(public_key, &server_address), available)
                     }
 
                     LookupResponseBody::Remote { client, server, available } => {
-                        return Ok(Some((client, server, available)));
+                        (client, server, available)
                     }
 
                     LookupResponseBody::Hint { mut servers } => {
                         for server in servers.drain(..) {
                             queue.push_back(server.address);
                         }
+
+                        continue;
                     }
+                };
+
+                // Skip record if it's not about the requested client
+                if client.public_key != request.0.request.public_key || client_type.is_some_and(|client_type| client_type != client.info.client_type) {
+                    continue;
                 }
-            }
 
-            used_servers.insert(server_address);
+                // Skip record if the client is not connected to the returned server
+                if !matches!(client.certificate.validate(&client.public_key, &server.public_key), Ok(true)) {
+                    continue;
+                }
+
+                return Ok(Some((client, server, available)));
+            }
         }
 
         Ok(None)
-- 
2.43.0


From 18631d5c1ee5be4e755e48ae6d80965b6584d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:19 +0000
Subject: [PATCH 08/10] fix: ask each server once during traversal

---
 src/drivers/server/traversal/bfs_recursion.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/drivers/server/traversal/bfs_recursion.rs b/src/drivers/server/traversal/bfs_recursion.rs
index 5acdf55..dcb9477 100755
--- a/src/drivers/server/traversal/bfs_recursion.rs
+++ b/src/drivers/server/traversal/bfs_recursion.rs
@@ -1,4 +1,4 @@
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 
 use crate::http::client::HttpClient;
 use crate::rest_api::middleware::Client as ClientMiddleware;
@@ -21,10 +21,15 @@ impl Traversal for BfsRecursionTraversal {
 
             let mut remote_servers = VecDeque::from(remote_servers);
 
+            // Store used servers to prevent infinite traversal loops
+            let mut used_servers = HashSet::new();
+
             while let Some(remote_server) = remote_servers.pop_front() {
-                if let Ok(mut response) = client.get_servers(&remote_server.address).await {
-                    for remote_server in response.drain(..) {
-                        remote_servers.push_back(remote_server);
+                if used_servers.insert(remote_server.address.clone()) {
+                    if let Ok(mut response) = client.get_servers(&remote_server.address).await {
+                        for remote_server in response.drain(..) {
+                            remote_servers.push_back(remote_server);
+                        }
                     }
                 }
 
-- 
2.43.0


From ea58989e6f5aed36b2101ef4b08bb4ba0fd19217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:12 +0000
Subject: [PATCH 09/10] fix: account for every port forward

---
 src/port_forward/upnp.rs | 74 +++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 19 deletions(-)

diff --git a/src/port_forward/upnp.rs b/src/port_forward/upnp.rs
index da7e05f..ef53e71 100644
--- a/src/port_forward/upnp.rs
+++ b/src/port_forward/upnp.rs
@@ -1,4 +1,4 @@
-use std::sync::Mutex;
+use std::sync::{Mutex, MutexGuard, PoisonError};
 use std::collections::HashMap;
 
 use easy_upnp::*;
@@ -16,12 +16,35 @@ impl UpnpPortForwarder {
         Self::default()
     }
 
+    /// Get table of made forwards
+    /// 
+    /// The table is changed only after successful gateway calls,
+    /// so it's still correct if one of them has panicked
+    fn table(&self) -> MutexGuard<'_, HashMap<(u16, Protocol), UpnpConfig>> {
+        self.forwarded.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
+    fn delete_port(config: &UpnpConfig) -> Result<(), Error> {
+        let config = UpnpConfig {
+            address: config.address,
+            port: config.port,
+            protocol: config.protocol,
+            duration: config.duration,
+            comment: config.comment.clone()
+        };
+
+        delete_ports([config])
+            .next()
+            .unwrap()
+    }
+
     fn build_config(port: u16, protocol: PortMappingProtocol, duration: Duration) -> UpnpConfig {
         UpnpConfig {
             address: None,
             port,
             protocol,
-            duration: duration.as_secs() as u32,
+            // Round up because 0 means an unlimited lease
+            duration: u32::try_from(duration.as_secs_f64().ceil() as u64).unwrap_or(u32::MAX),
             comment: String::from("Hyperborea UPnP port forwarder")
         }
     }
@@ -42,40 +65,53 @@ impl PortForwarder for UpnpPortForwarder {
             )
         };
 
+        // Keep the table locked so it can't be changed
+        // between making the forward and storing it
+        let mut forwarded = self.table();
+
         add_ports([Self::build_config(port, upnp_protocol, duration)])
             .next()
             .unwrap()?;
 
-        self.forwarded.lock()
-            .expect("Failed to get forwards table")
-            .insert((port, protocol), Self::build_config(port, upnp_protocol, duration));
+        forwarded.insert((port, protocol), Self::build_config(port, upnp_protocol, duration));
 
         Ok(true)
     }
 
     async fn close(&self, port: u16, protocol: Protocol) -> Result<bool, Self::Error> {
-        let mut forwarded = self.forwarded.lock()
-            .expect("Failed to get forwards table");
+        if protocol == Protocol::Both {
+            return Ok(
+                self.close(port, Protocol::TCP).await? &&
+                self.close(port, Protocol::UDP).await?
+            );
+        }
+
+        let mut forwarded = self.table();
 
-        if let Some(config) = forwarded.remove(&(port, protocol)) {
-            delete_ports([config])
-                .next()
-                .unwrap()?;
+        if let Some(config) = forwarded.get(&(port, protocol)) {
+            Self::delete_port(config)?;
+
+            forwarded.remove(&(port, protocol));
         }
 
         Ok(true)
     }
 
     async fn discard(&self) -> Result<bool, Self::Error> {
-        let configs = self.forwarded.lock()
-            .expect("Failed to get forwards table")
-            .drain()
-            .map(|(_, v)| v)
-            .collect::<Vec<_>>();
+        let mut result = Ok(true);
 
-        delete_ports(configs)
-            .collect::<Result<_, _>>()?;
+        // Keep forwards which were not reverted
+        self.table().retain(|_, config| {
+            match Self::delete_port(config) {
+                Ok(()) => false,
+                Err(err) => {
+                    result = Err(err);
 
-        Ok(true)
+                    true
+                }
+            }
+        });
+
+        result
     }
 }
-- 
2.43.0


From d146993162e39fce2bdd6b2dfb52914b03e7c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 10/10] fix: reject truncated tokens and encapsulated
 signatures instead of panicking

---
 src/crypto/asymmetric/public_key.rs    | 15 ++++++++++++---
 src/rest_api/types/connection_token.rs |  4 ++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/crypto/asymmetric/public_key.rs b/src/crypto/asymmetric/public_key.rs
index e8863ba..92c5a06 100644
--- a/src/crypto/asymmetric/public_key.rs
+++ b/src/crypto/asymmetric/public_key.rs
@@ -53,14 +53,23 @@ impl PublicKey {
     pub fn decode_encapsulated_signature(&self, capsule: impl AsRef<[u8]>) -> Result<Option<Vec<u8>>, CryptographyError> {
         let capsule = capsule.as_ref();
 
+        if capsule.len() < 8 {
+            return Err(CryptographyError::Decoding("Encapsulated signature is too short".into()));
+        }
+
         let mut sign_len_bytes = [0_u8; 8];
 
         sign_len_bytes.copy_from_slice(&capsule[..8]);
 
-        let sign_len = u64::from_be_bytes(sign_len_bytes) as usize;
+        let sign_len = u64::from_be_bytes(sign_len_bytes);
+        let capsule = &capsule[8..];
+
+        // Length is provided by the capsule itself so it can't be trusted
+        if sign_len > capsule.len() as u64 {
+            return Err(CryptographyError::Decoding("Encapsulated signature is too short".into()));
+        }
 
-        let signature = &capsule[8..sign_len + 8];
-        let message = &capsule[sign_len + 8..];
+        let (signature, message) = capsule.split_at(sign_len as usize);
 
         if !self.verify_signature(message, signature)? {
             return Ok(None);
diff --git a/src/rest_api/types/connection_token.rs b/src/rest_api/types/connection_token.rs
index cab26fa..335a9d3 100644
--- a/src/rest_api/types/connection_token.rs
+++ b/src/rest_api/types/connection_token.rs
@@ -73,6 +73,10 @@ impl ConnectionToken {
     pub fn from_bytes(certificate: impl AsRef<[u8]>) -> Result<Self, CryptographyError> {
         let certificate = certificate.as_ref();
 
+        if certificate.len() < 8 {
+            return Err(CryptographyError::Decoding("Connection token is too short".into()));
+        }
+
         let mut auth_date = [0u8; 8];
 
         auth_date.copy_from_slice(&certificate[..8]);
-- 
2.43.0

