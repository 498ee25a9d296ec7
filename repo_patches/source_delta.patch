From c375d04d5e3e39b3d0ec630167c9e24111afdd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 1/4] fix: reject a padding length of zero

PKCS#7 padding is 1 to block_size bytes long. Unpad::flush accepted a final
block ending in a zero byte and returned the whole block as data.
---
 src/pkcs7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index eb50bb2..090af7a 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -125,7 +125,7 @@ impl Unpad {
         }
 
         let len = self.storage[self.storage.len() - 1];
-        if len > (self.block_size as u8) {
+        if len == 0 || len > (self.block_size as u8) {
             return Err(UnpadError::InvalidPadding);
         }
         let pad_off: usize = self.block_size - usize::from(len);
-- 
2.43.0


From 19fedd3cf4cc5d0a7a9b11861a9a3f9c4f05de4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 2/4] fix: do not accept a ciphertext that ends in the middle
 of a block

Decipher::flush looked only at the blocks already decrypted and ignored the
bytes of an unfinished ciphertext block, so a ciphertext with trailing bytes
was accepted, and the bytes leaked into the next message.
---
 src/aes_cbc.rs | 4 ++++
 src/pkcs7.rs   | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/aes_cbc.rs b/src/aes_cbc.rs
index 7cde4d3..0e88a12 100644
--- a/src/aes_cbc.rs
+++ b/src/aes_cbc.rs
@@ -215,6 +215,10 @@ impl Decipher {
 
     /// Decrypt and return final cleartext data
     pub fn flush(&mut self) -> Result<Vec<u8>, DecipherError> {
+        if !self.buffer.is_empty() {
+            return Err(DecipherError::PKCS7(pkcs7::UnpadError::UnfinishedBlock));
+        }
+
         match self.unpad.flush() {
             Err(err) => Err(DecipherError::PKCS7(err)),
             Ok(block) => Ok(block),
diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index 090af7a..a2ad68d 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -40,6 +40,11 @@ impl Pad {
         Some(head)
     }
 
+    /// `true` when no bytes of an unfinished block are held.
+    pub fn is_empty(&self) -> bool {
+        self.storage.is_empty()
+    }
+
     pub fn flush(&mut self) -> Vec<u8> {
         let len = self.block_size - self.storage.len();
         while self.storage.len() < self.block_size {
-- 
2.43.0


From 94d12c5de341605191f13d01a94aa1785699b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 3/4] fix: do not consume data when a cipher has no key yet

Cipher::write, Cipher::flush and Decipher::write took the data into their
buffers, or out of them, before finding that no key was installed, so the
bytes of a refused call were lost or were processed twice after a retry.
---
 src/aes.rs     |  5 +++++
 src/aes_cbc.rs | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/aes.rs b/src/aes.rs
index 7ce0a82..d4f9dd2 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -345,6 +345,11 @@ impl AES {
         Ok(())
     }
 
+    /// `true` once a key is installed.
+    pub(crate) fn is_initialized(&self) -> bool {
+        self.round_keys.is_some()
+    }
+
     /// Encrypt block of data.
     pub fn encrypt(&self, b: &[u8; BLOCK_SIZE]) -> Result<[u8; BLOCK_SIZE], AESError> {
         let nr = self.round_count;
diff --git a/src/aes_cbc.rs b/src/aes_cbc.rs
index 0e88a12..742d18e 100644
--- a/src/aes_cbc.rs
+++ b/src/aes_cbc.rs
@@ -63,6 +63,10 @@ impl Cipher {
 
     /// Encrypt data
     pub fn write(&mut self, b: &[u8]) -> Result<Vec<u8>, AESError> {
+        if !self.aes.is_initialized() {
+            return Err(AESError::NotInitialized);
+        }
+
         let blocks = match self.pad.write(b) {
             None => {
                 return Ok(vec![]);
@@ -80,6 +84,10 @@ impl Cipher {
 
     /// Encrypt and return final cipher block
     pub fn flush(&mut self) -> Result<Vec<u8>, AESError> {
+        if !self.aes.is_initialized() {
+            return Err(AESError::NotInitialized);
+        }
+
         let block = self.pad.flush();
         Ok(self.encrypt_block(&block)?)
     }
@@ -185,6 +193,10 @@ impl Decipher {
 
     /// Decrypt data
     pub fn write(&mut self, b: &[u8]) -> Result<Vec<u8>, DecipherError> {
+        if !self.aes.is_initialized() {
+            return Err(DecipherError::AES(AESError::NotInitialized));
+        }
+
         let blocks = match self.buffer.write(b) {
             Some(blocks) => blocks,
             None => {
-- 
2.43.0


From f60d31e8492fb452812ed874852f41b4ac9da67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 4/4] fix: install a new AES key completely or not at all

AES::init set the new number of rounds before expanding the key. If the
expansion unwound on a failed allocation, the instance was left with the
previous round keys and the wrong number of rounds.
---
 src/aes.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index d4f9dd2..d7f8578 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -325,7 +325,7 @@ impl AES {
 
     /// Initialize an instance with a encryption/decryption key.
     pub fn init(&mut self, key: &[u8]) -> Result<(), AESError> {
-        self.round_count = match key.len() {
+        let round_count = match key.len() {
             // 128 bits
             16 => 10,
 
@@ -340,7 +340,10 @@ impl AES {
                 return Err(AESError::InvalidKeySize);
             }
         };
-        self.round_keys = Some(expand_key(key, self.round_count));
+        let round_keys = expand_key(key, round_count);
+
+        self.round_count = round_count;
+        self.round_keys = Some(round_keys);
 
         Ok(())
     }
-- 
2.43.0

