From 99c442df857de610f9bfa59d11e73c3e5fe7d339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 1/6] fix: English stemmer: leave sses, ies and eed alone when
 nothing precedes them, like elasticlunr.js

---
 src/lang/en.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 388f3e4..0251daa 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -271,17 +271,21 @@ impl PorterStemmer {
     ///
     ///     meetings  ->  meet
     /// ~~~~
+    ///
+    /// As in elasticlunr.js, "sses", "ies" and "eed" must have at least one
+    /// character in front of them: its rules are `^(.+?)(ss|i)es$` and
+    /// `^(.+?)eed$`.
     fn step1ab(&mut self) {
         if self.b[self.k - 1] == b's' {
-            if self.ends("sses") {
+            if self.ends("sses") && self.j > 0 {
                 self.k -= 2;
-            } else if self.ends("ies") {
+            } else if self.ends("ies") && self.j > 0 {
                 self.set_to("i");
             } else if self.b[self.k - 2] != b's' {
                 self.k -= 1;
             }
         }
-        if self.ends("eed") {
+        if self.ends("eed") && self.j > 0 {
             if self.measure() > 0 {
                 self.k -= 1
             }
-- 
2.43.0


From d2b2d4b1c5d0dadff45c164c385197d95569ccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 2/6] fix: English stemmer: a doubled y is not collapsed before
 -ed and -ing, like elasticlunr.js

---
 src/lang/en.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 0251daa..6c15772 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -196,9 +196,15 @@ impl PorterStemmer {
     /// bytes are usually the trailing continuation bytes of one multi-byte
     /// character (e.g. `त` is `E0 A4 A4`), and step1ab would then chop `k` into
     /// the middle of that character, leaving `b[..k]` invalid UTF-8.
+    ///
+    /// A double y does not count: elasticlunr.js uses `([^aeiouylsz])\1$`.
     #[inline]
     fn double_consonant(&self, i: usize) -> bool {
-        i >= 1 && self.b[i] == self.b[i - 1] && self.b[i].is_ascii() && self.is_consonant(i)
+        i >= 1
+            && self.b[i] == self.b[i - 1]
+            && self.b[i].is_ascii()
+            && self.b[i] != b'y'
+            && self.is_consonant(i)
     }
 
     /// cvc(z, i) is TRUE <=> i-2,i-1,i has the form consonant - vowel - consonant
-- 
2.43.0


From 1348feac74f045546d9f708a75371c990ca88dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 3/6] fix: English stemmer: no recursion over runs of y, which
 overflowed the stack

---
 src/lang/en.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 6c15772..24e105d 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -117,17 +117,14 @@ impl PorterStemmer {
     /// stem.is_consonant(i) is true <=> stem[i] is a consonant
     #[inline]
     fn is_consonant(&self, i: usize) -> bool {
-        match self.b[i] {
-            b'a' | b'e' | b'i' | b'o' | b'u' => false,
-            b'y' => {
-                if i == 0 {
-                    true
-                } else {
-                    !self.is_consonant(i - 1)
-                }
-            }
-            _ => true,
+        // Each y is the opposite of what precedes it. Walk back over a run of them
+        // in a loop: recursion overflows the stack on very long runs.
+        let mut y = i;
+        while y > 0 && self.b[y] == b'y' {
+            y -= 1;
         }
+        let consonant = !matches!(self.b[y], b'a' | b'e' | b'i' | b'o' | b'u');
+        consonant == ((i - y) % 2 == 0)
     }
 
     /// stem.measure() measures the number of consonant sequences in [0, j).
-- 
2.43.0


From f637471f8568513257b46a190d3eb67fbc494904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:44 +0000
Subject: [PATCH 4/6] fix: Arabic stemmer: remove every diacritic and
 elongation mark, not only the first

---
 src/lang/ar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/ar.rs b/src/lang/ar.rs
index 2fa0074..34702ad 100644
--- a/src/lang/ar.rs
+++ b/src/lang/ar.rs
@@ -58,7 +58,7 @@ impl PipelineFn for Stemmer {
 
     fn filter(&self, token: String) -> Option<String> {
         // remove diacritics and elongating character
-        let result = self.diacritics.replace(&token, "");
+        let result = self.diacritics.replace_all(&token, "");
         // replace all variations of alef (آأإٱى) to a plain alef (ا)
         let result = self.alefs.replace(&result, "\u{0627}");
         if result.is_empty() {
-- 
2.43.0


From c95d3d4c4b8d1f5ced527281a25addef05c55671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:44 +0000
Subject: [PATCH 5/6] fix: DocumentStore::remove_doc also forgets the
 document's field lengths

---
 src/document_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/document_store.rs b/src/document_store.rs
index 8adc722..1794d40 100644
--- a/src/document_store.rs
+++ b/src/document_store.rs
@@ -61,6 +61,7 @@ impl DocumentStore {
         }
 
         self.docs.remove(doc_ref);
+        self.doc_info.remove(doc_ref);
     }
 
     pub fn add_field_length(&mut self, doc_ref: &str, field: &str, length: usize) {
-- 
2.43.0


From b621d120b47a8ab4b0b088662afb4e94d020ca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:25 +0000
Subject: [PATCH 6/6] fix: an Index can be read back from its serialized form

---
 src/lib.rs | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3234375..73b4dbd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -194,7 +194,7 @@ impl IndexBuilder {
 }
 
 /// An elasticlunr search index.
-#[derive(Serialize, Deserialize)]
+#[derive(Serialize)]
 #[serde(rename_all = "camelCase")]
 pub struct Index {
     fields: Vec<String>,
@@ -206,17 +206,50 @@ pub struct Index {
     version: &'static str,
     index: BTreeMap<String, InvertedIndex>,
     document_store: DocumentStore,
-    #[serde(with = "ser_lang")]
+    #[serde(serialize_with = "ser_lang::serialize")]
     lang: Box<dyn Language>,
 }
 
+/// The parts of a serialized `Index` that are read back. The pipeline is the language's, and
+/// custom tokenizers are not part of the serialized form.
+#[derive(Deserialize)]
+#[serde(rename_all = "camelCase")]
+struct StoredIndex {
+    fields: Vec<String>,
+    #[serde(rename = "ref")]
+    ref_field: String,
+    index: BTreeMap<String, InvertedIndex>,
+    document_store: DocumentStore,
+    #[serde(deserialize_with = "ser_lang::deserialize")]
+    lang: Box<dyn Language>,
+}
+
+impl<'de> serde::Deserialize<'de> for Index {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        let stored = StoredIndex::deserialize(deserializer)?;
+        Ok(Index {
+            field_tokenizers: stored.fields.iter().map(|_| None).collect(),
+            fields: stored.fields,
+            pipeline: stored.lang.make_pipeline(),
+            ref_field: stored.ref_field,
+            version: crate::ELASTICLUNR_VERSION,
+            index: stored.index,
+            document_store: stored.document_store,
+            lang: stored.lang,
+        })
+    }
+}
+
 mod ser_lang {
     use crate::Language;
     use serde::de;
     use serde::{Deserializer, Serializer};
     use std::fmt;
 
-    // `serde(with = ...)` hands us a reference to the field itself, which is a
+    // `serde(serialize_with = ...)` hands us a reference to the field itself, which is a
     // `Box<dyn Language>`, so the extra indirection is not ours to remove.
     #[allow(clippy::borrowed_box)]
     pub fn serialize<S>(lang: &Box<dyn Language>, serializer: S) -> Result<S::Ok, S::Error>
@@ -242,7 +275,7 @@ mod ser_lang {
             formatter.write_str("a capitalized language name")
         }
 
-        fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Self::Value, E>
+        fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-- 
2.43.0

