From 80b8a205c6865e1ecc5b063811fd98c929f1fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 1/5] fix: a lazy document read concurrently no longer reads as
 missing for the reader that loses the race

---
 plotline/src/document/lazy.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/plotline/src/document/lazy.rs b/plotline/src/document/lazy.rs
index e60a031..289af16 100644
--- a/plotline/src/document/lazy.rs
+++ b/plotline/src/document/lazy.rs
@@ -60,14 +60,10 @@ where
             return doc;
         }
 
-        if self
+        // If another reader has cached the document in the meantime, that one prevails.
+        let _ = self
             .document
-            .set(self.document_repo.find_by_id(&self.document_id)?)
-            .is_err()
-        {
-            tracing::error!(id = format!("{:?}", self.document_id), "document not found");
-            return None;
-        }
+            .set(self.document_repo.find_by_id(&self.document_id)?);
 
         self.document.get()
     }
-- 
2.43.0


From 578050836cdbbcd088a33ca20bec866cb28fa3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 2/5] fix: a save whose target cannot be read reports an error
 instead of success

---
 plotline/src/schema/ops/save.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plotline/src/schema/ops/save.rs b/plotline/src/schema/ops/save.rs
index 426f052..e6e2df6 100644
--- a/plotline/src/schema/ops/save.rs
+++ b/plotline/src/schema/ops/save.rs
@@ -4,7 +4,7 @@ use crate::{
     deref::With,
     id::Identify,
     prelude::Transaction,
-    schema::{trigger::Trigger, Result},
+    schema::{trigger::Trigger, Error, Result},
 };
 
 /// Schedules a trigger before a save is performed.
@@ -28,7 +28,9 @@ impl<T> Save<T> {
         tx.with(|ctx| {
             let ctx = ctx.with_target(self.node);
             ctx.triggers().select(BeforeSave).execute(&ctx)?;
-            ctx.target().with(|node| ctx.save(node.clone()));
+            ctx.target()
+                .with(|node| ctx.save(node.clone()))
+                .ok_or_else(|| Error::custom("the node being saved is not accessible"))?;
             ctx.triggers().select(AfterSave).execute(&ctx)?;
 
             Ok(())
-- 
2.43.0


From 4872e0ca412f2cf62fae5a174507132cd4404365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 3/5] fix: a transaction whose operations could not be
 committed reports an error instead of success

---
 plotline/src/schema/transaction.rs | 42 +++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/plotline/src/schema/transaction.rs b/plotline/src/schema/transaction.rs
index be58ad7..dbbf34d 100644
--- a/plotline/src/schema/transaction.rs
+++ b/plotline/src/schema/transaction.rs
@@ -8,7 +8,9 @@ use crate::{
     id::Identify,
 };
 
-use super::{guard::SchemaWriteGuard, resource::ResourceSet, trigger::TriggerSet, Result, Schema};
+use super::{
+    guard::SchemaWriteGuard, resource::ResourceSet, trigger::TriggerSet, Error, Result, Schema,
+};
 
 /// Represents a set of operations that must be perfomed as a whole.
 pub trait Transaction: Sized {
@@ -55,9 +57,9 @@ where
     where
         F: FnOnce(Context<'_, Self::Target>) -> Result<U>,
     {
-        f((&self).into()).inspect(|_| {
-            self.commit();
-        })
+        let value = f((&self).into())?;
+        self.commit()?;
+        Ok(value)
     }
 }
 
@@ -66,22 +68,24 @@ where
     T: Identify,
     T::Id: Clone + Ord,
 {
-    fn commit(mut self) {
+    fn commit(mut self) -> Result<()> {
         let Some(mut guard) = self.guard.take() else {
             tracing::error!("committing uninitialized transaction");
-            return;
+            return Err(Error::custom("committing uninitialized transaction"));
         };
 
         let Some(ops) = Arc::into_inner(self.operations) else {
             tracing::error!("commiting transaction with contexts yet in use");
-            return;
+            return Err(Error::custom(
+                "commiting transaction with contexts yet in use",
+            ));
         };
 
         let ops = match ops.into_inner() {
             Ok(ops) => ops,
             Err(err) => {
                 tracing::error!(error = err.to_string(), "committing poisoned transaction");
-                return;
+                return Err(Error::custom("committing poisoned transaction"));
             }
         };
 
@@ -93,6 +97,8 @@ where
                 guard.remove(&node_id);
             }
         });
+
+        Ok(())
     }
 }
 
@@ -127,9 +133,9 @@ where
     where
         F: FnOnce(Context<'_, Self::Target>) -> Result<U>,
     {
-        f((&self).into()).inspect(|_| {
-            self.commit();
-        })
+        let value = f((&self).into())?;
+        self.commit()?;
+        Ok(value)
     }
 }
 
@@ -137,17 +143,19 @@ impl<T> Foreground<'_, T>
 where
     T: Identify,
 {
-    fn commit(self) {
+    fn commit(self) -> Result<()> {
         let Some(ops) = Arc::into_inner(self.operations) else {
             tracing::error!("commiting transaction with contexts yet in use");
-            return;
+            return Err(Error::custom(
+                "commiting transaction with contexts yet in use",
+            ));
         };
 
         let ops = match ops.into_inner() {
             Ok(ops) => ops,
             Err(err) => {
                 tracing::error!(error = err.to_string(), "committing poisoned transaction");
-                return;
+                return Err(Error::custom("committing poisoned transaction"));
             }
         };
 
@@ -158,11 +166,15 @@ where
                     error = err.to_string(),
                     "committing transaction into poisoned context"
                 );
-                return;
+                return Err(Error::custom(
+                    "committing transaction into poisoned context",
+                ));
             }
         };
 
         upstream_ops.extend(ops);
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From e641fbaf1084515a9f30057fded1ecbc0d996882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:17 +0000
Subject: [PATCH 4/5] fix: the local repository lists and loads exactly the
 files ending with a dot and its extension

---
 plotline-cli/src/repository.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index be8dd8e..8e10b09 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -21,7 +21,11 @@ impl DocumentRepository for LocalDocumentRepository {
     type Document = Document;
 
     fn find_by_id(&self, id: &<Self::Document as Identify>::Id) -> Option<Self::Document> {
-        let path = self.context.join(id).with_extension(&self.extension);
+        let mut file_name = id.file_name().unwrap_or_default().to_os_string();
+        file_name.push(".");
+        file_name.push(&self.extension);
+
+        let path = self.context.join(id.with_file_name(file_name));
 
         fs::read(&path)
             .inspect_err(|err| {
@@ -54,20 +58,25 @@ impl LocalDocumentRepository {
                 entry.ok()
             })
             .filter({
-                let regex = Regex::new(&format!("\\.{}$", self.extension))
+                let regex = Regex::new(&format!("\\.{}$", regex::escape(&self.extension)))
                     .expect("pattern should be a valid regular expression");
 
                 move |entry| {
-                    let matches = regex.is_match(&entry.file_name().to_string_lossy());
+                    let matches = regex.is_match(&entry.file_name().to_string_lossy())
+                        && entry.path().is_file();
                     tracing::debug!(path = entry.path().to_string_lossy().to_string(), matches);
 
                     matches
                 }
             })
             .filter_map(move |entry| {
-                let path = entry
-                    .path()
-                    .with_extension("")
+                // The extension may be made of several dot-separated parts.
+                let path = self
+                    .extension
+                    .split('.')
+                    .fold(entry.path().to_path_buf(), |path, _| {
+                        path.with_extension("")
+                    })
                     .strip_prefix(&self.context)
                     .map(ToOwned::to_owned);
 
-- 
2.43.0


From bf0f692e69ae181e418fba7c228b741189f41ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:17 +0000
Subject: [PATCH 5/5] fix: deleting from an interval tree finds every interval,
 keeps the others and always returns

---
 plugins/interval/src/node.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 1b430e4..aa18e5b 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -89,10 +89,15 @@ where
 
         if interval.lo() < self.value.lo() {
             self.left = self.left.map(|left| left.delete(interval)).flatten();
-        } else if interval.lo() > self.value.lo() {
+        } else {
             self.right = self.right.map(|right| right.delete(interval)).flatten();
         }
 
+        self.max = Some(self.value.hi())
+            .max(self.left.as_ref().map(|left| left.max))
+            .max(self.right.as_ref().map(|right| right.max))
+            .expect("max with Some should never be None");
+
         Some(self)
     }
 }
@@ -222,6 +227,7 @@ where
 
             let center = intervals.len() / 2;
             let left = intervals.drain(0..center).collect();
+            let root = root.insert(intervals.remove(0));
             immersion(immersion(root, left), intervals)
         }
 
-- 
2.43.0

