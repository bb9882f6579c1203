From 8baa228b04d6411836188f31371eea848f165f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 1/8] fix: refuse byte lengths larger than the buffer before
 adding padding to them

A corrupt length near the maximum overflowed len + pad in the decoders of
scripts, predicates, message data, witnesses and receipt data, and panicked.
---
 src/lib.rs                       |  3 +++
 src/receipt/receipt_std.rs       |  7 ++++---
 src/restore.rs                   | 31 +++++++++++++++++++++++++++++++
 src/transaction/types/input.rs   | 13 ++++++++-----
 src/transaction/types/script.rs  |  7 +++++--
 src/transaction/types/witness.rs |  5 ++++-
 6 files changed, 55 insertions(+), 11 deletions(-)
 create mode 100644 src/restore.rs

diff --git a/src/lib.rs b/src/lib.rs
index 5bd0355..53b6740 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,6 +19,9 @@ pub use fuel_types::{
 };
 pub use tx_pointer::TxPointer;
 
+#[cfg(feature = "std")]
+mod restore;
+
 #[cfg(feature = "builder")]
 mod builder;
 
diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index 2e09c74..fbb1490 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -5,6 +5,7 @@ use fuel_types::bytes::{self, SizedBytes, WORD_SIZE};
 use fuel_types::Word;
 
 use crate::receipt::script_result::ScriptExecutionResult;
+use crate::restore;
 use std::io::{self, Write};
 
 impl io::Read for Receipt {
@@ -269,7 +270,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = restore::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -329,7 +330,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = restore::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -392,7 +393,7 @@ impl io::Write for Receipt {
                 let (nonce, buf) = unsafe { bytes::restore_array_unchecked(buf) };
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
-                let (count, data, _) = bytes::restore_bytes(buf)?;
+                let (count, data, _) = restore::restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
diff --git a/src/restore.rs b/src/restore.rs
new file mode 100644
index 0000000..72ffb81
--- /dev/null
+++ b/src/restore.rs
@@ -0,0 +1,31 @@
+//! Decoding helpers for lengths that come from untrusted bytes.
+
+use fuel_types::bytes::{self, WORD_SIZE};
+
+use std::io;
+
+/// Restore `len` word-aligned bytes, refusing a length the buffer cannot hold before any
+/// arithmetic is done with it.
+pub(crate) fn restore_raw_bytes(buf: &[u8], len: usize) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    if len > buf.len() {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_raw_bytes(buf, len)
+}
+
+/// Restore length-prefixed word-aligned bytes, refusing a length the buffer cannot hold before
+/// any arithmetic is done with it.
+pub(crate) fn restore_bytes(buf: &[u8]) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    if buf.len() < WORD_SIZE {
+        return Err(bytes::eof());
+    }
+
+    // Safety: buffer size is checked
+    let (len, data) = unsafe { bytes::restore_usize_unchecked(buf) };
+    if len > data.len() {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_bytes(buf)
+}
diff --git a/src/transaction/types/input.rs b/src/transaction/types/input.rs
index 6c3562b..f6630f8 100644
--- a/src/transaction/types/input.rs
+++ b/src/transaction/types/input.rs
@@ -11,6 +11,9 @@ use fuel_types::bytes::{Deserializable, SizedBytes, WORD_SIZE};
 
 use alloc::vec::Vec;
 
+#[cfg(feature = "std")]
+use crate::restore;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -733,10 +736,10 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = restore::restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) = restore::restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let owner = owner.into();
@@ -817,13 +820,13 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, data, buf) = bytes::restore_raw_bytes(buf, data_len)?;
+                let (size, data, buf) = restore::restore_raw_bytes(buf, data_len)?;
                 n += size;
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = restore::restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) = restore::restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let message_id = message_id.into();
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index 666796d..3808697 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -12,6 +12,9 @@ use derivative::Derivative;
 use fuel_types::bytes::{SizedBytes, WORD_SIZE};
 use fuel_types::{bytes, Bytes32, Word};
 
+#[cfg(feature = "std")]
+use crate::restore;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -630,10 +633,10 @@ impl io::Write for Script {
 
         let receipts_root = receipts_root.into();
 
-        let (size, script, buf) = bytes::restore_raw_bytes(buf, script_len)?;
+        let (size, script, buf) = restore::restore_raw_bytes(buf, script_len)?;
         n += size;
 
-        let (size, script_data, mut buf) = bytes::restore_raw_bytes(buf, script_data_len)?;
+        let (size, script_data, mut buf) = restore::restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
         let mut inputs = vec![Input::default(); inputs_len];
diff --git a/src/transaction/types/witness.rs b/src/transaction/types/witness.rs
index e7b5211..3611658 100644
--- a/src/transaction/types/witness.rs
+++ b/src/transaction/types/witness.rs
@@ -8,6 +8,9 @@ use rand::{
 
 use alloc::vec::Vec;
 
+#[cfg(feature = "std")]
+use crate::restore;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -89,7 +92,7 @@ impl io::Read for Witness {
 #[cfg(feature = "std")]
 impl io::Write for Witness {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        bytes::restore_bytes(buf).map(|(n, data, _)| {
+        restore::restore_bytes(buf).map(|(n, data, _)| {
             self.data = data;
             n
         })
-- 
2.43.0


From 0267e0b04b083ac9dbee245ed6ca33b3a2122b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 2/8] fix: grow decoded collections with their content instead
 of the announced count

A corrupt count of inputs, outputs, witnesses or storage slots allocated the
announced number of values up front: capacity overflow panic, or gigabytes for
a few bytes of input.
---
 src/restore.rs                  | 20 ++++++++++++++++++
 src/transaction/types/create.rs | 37 +++++++++++----------------------
 src/transaction/types/mint.rs   | 13 ++++++------
 src/transaction/types/script.rs | 26 +++++++----------------
 4 files changed, 45 insertions(+), 51 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index 72ffb81..ba8f84f 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -29,3 +29,23 @@ pub(crate) fn restore_bytes(buf: &[u8]) -> io::Result<(usize, Vec<u8>, &[u8])> {
 
     bytes::restore_bytes(buf)
 }
+
+/// Restore `count` consecutive values. The vector grows with the values that are really there, so
+/// a corrupt count cannot make it allocate more than the buffer justifies.
+pub(crate) fn restore_many<T>(mut buf: &[u8], count: usize) -> io::Result<(usize, Vec<T>, &[u8])>
+where
+    T: Default + io::Write,
+{
+    let mut n = 0;
+    let mut values = Vec::new();
+
+    for _ in 0..count {
+        let mut value = T::default();
+        let len = value.write(buf)?;
+        buf = &buf[len..];
+        n += len;
+        values.push(value);
+    }
+
+    Ok((n, values, buf))
+}
diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index c6a2001..8239a61 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -13,6 +13,9 @@ use derivative::Derivative;
 use fuel_types::bytes::{SizedBytes, WORD_SIZE};
 use fuel_types::{bytes, AssetId, Salt, Word};
 
+#[cfg(feature = "std")]
+use crate::restore;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -641,37 +644,21 @@ impl io::Write for Create {
         let (inputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (outputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (witnesses_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
-        let (salt, mut buf) = unsafe { bytes::restore_array_unchecked(buf) };
+        let (salt, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
         let salt = salt.into();
 
-        let mut storage_slots = vec![StorageSlot::default(); storage_slots_len as usize];
-        n += StorageSlot::SLOT_SIZE * storage_slots_len as usize;
-        for storage_slot in storage_slots.iter_mut() {
-            let _ = storage_slot.write(buf)?;
-            buf = &buf[StorageSlot::SLOT_SIZE..];
-        }
+        let (size, storage_slots, buf) = restore::restore_many(buf, storage_slots_len as usize)?;
+        n += size;
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
-            let input_len = input.write(buf)?;
-            buf = &buf[input_len..];
-            n += input_len;
-        }
+        let (size, inputs, buf) = restore::restore_many(buf, inputs_len)?;
+        n += size;
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
-            let output_len = output.write(buf)?;
-            buf = &buf[output_len..];
-            n += output_len;
-        }
+        let (size, outputs, buf) = restore::restore_many(buf, outputs_len)?;
+        n += size;
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
-            let witness_len = witness.write(buf)?;
-            buf = &buf[witness_len..];
-            n += witness_len;
-        }
+        let (size, witnesses, _) = restore::restore_many(buf, witnesses_len)?;
+        n += size;
 
         *self = Create {
             gas_price,
diff --git a/src/transaction/types/mint.rs b/src/transaction/types/mint.rs
index f52861a..37b6897 100644
--- a/src/transaction/types/mint.rs
+++ b/src/transaction/types/mint.rs
@@ -7,6 +7,9 @@ use derivative::Derivative;
 use fuel_types::bytes::{SizedBytes, WORD_SIZE};
 use fuel_types::{Bytes32, Word};
 
+#[cfg(feature = "std")]
+use crate::restore;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -285,14 +288,10 @@ impl io::Write for Mint {
         // Safety: buffer size is checked
         let tx_pointer = TxPointer::from_bytes(buf)?;
         let buf = &buf[tx_pointer.serialized_size()..];
-        let (outputs_len, mut buf) = unsafe { bytes::restore_usize_unchecked(buf) };
+        let (outputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
-            let output_len = output.write(buf)?;
-            buf = &buf[output_len..];
-            n += output_len;
-        }
+        let (size, outputs, _) = restore::restore_many(buf, outputs_len)?;
+        n += size;
 
         *self = Mint {
             tx_pointer,
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index 3808697..a979537 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -636,29 +636,17 @@ impl io::Write for Script {
         let (size, script, buf) = restore::restore_raw_bytes(buf, script_len)?;
         n += size;
 
-        let (size, script_data, mut buf) = restore::restore_raw_bytes(buf, script_data_len)?;
+        let (size, script_data, buf) = restore::restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
-            let input_len = input.write(buf)?;
-            buf = &buf[input_len..];
-            n += input_len;
-        }
+        let (size, inputs, buf) = restore::restore_many(buf, inputs_len)?;
+        n += size;
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
-            let output_len = output.write(buf)?;
-            buf = &buf[output_len..];
-            n += output_len;
-        }
+        let (size, outputs, buf) = restore::restore_many(buf, outputs_len)?;
+        n += size;
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
-            let witness_len = witness.write(buf)?;
-            buf = &buf[witness_len..];
-            n += witness_len;
-        }
+        let (size, witnesses, _) = restore::restore_many(buf, witnesses_len)?;
+        n += size;
 
         *self = Script {
             gas_price,
-- 
2.43.0


From 489264f95207ba3afab5c974c7aa742720fbe74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 3/8] fix: write every byte of the serialized size of a receipt

ScriptResult and MessageOut left the last 48 bytes of their serialized size as
they were in the caller's buffer.
---
 src/receipt/receipt_std.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index fbb1490..4a5293e 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -16,6 +16,9 @@ impl io::Read for Receipt {
             return Err(bytes::eof());
         }
 
+        // Some variants are shorter than their serialized size; the remainder is zeroed
+        buf[..len].fill(0);
+
         match self {
             Self::Call {
                 id,
-- 
2.43.0


From 358dd69fb2156b454c69aa9aa2e9c2d75194cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 4/8] fix: refuse non-ASCII text for TxPointer and UtxoId
 instead of panicking

The text was sliced at a byte offset that may not be a character boundary.
---
 src/transaction/types/utxo_id.rs | 3 +++
 src/tx_pointer.rs                | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transaction/types/utxo_id.rs b/src/transaction/types/utxo_id.rs
index c4c89b3..aff30cf 100644
--- a/src/transaction/types/utxo_id.rs
+++ b/src/transaction/types/utxo_id.rs
@@ -84,6 +84,9 @@ impl str::FromStr for UtxoId {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         const ERR: &str = "Invalid encoded byte";
+        if !s.is_ascii() {
+            return Err(ERR);
+        }
         let s = s.trim_start_matches("0x");
         let utxo_id = if s.is_empty() {
             UtxoId::new(Bytes32::default(), 0)
diff --git a/src/tx_pointer.rs b/src/tx_pointer.rs
index b0d66bf..0278ec3 100644
--- a/src/tx_pointer.rs
+++ b/src/tx_pointer.rs
@@ -68,7 +68,7 @@ impl str::FromStr for TxPointer {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         const ERR: &str = "Invalid encoded byte";
 
-        if s.len() != 12 {
+        if s.len() != 12 || !s.is_ascii() {
             return Err(ERR);
         }
 
-- 
2.43.0


From a367c3caea88509b1e3c828c702e14f3de896fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 5/8] fix: leave a TxPointer unchanged when decoding it fails

An out-of-range transaction index was refused after the block height had been
overwritten.
---
 src/tx_pointer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tx_pointer.rs b/src/tx_pointer.rs
index 0278ec3..817dbc9 100644
--- a/src/tx_pointer.rs
+++ b/src/tx_pointer.rs
@@ -96,12 +96,15 @@ impl io::Write for TxPointer {
         let (block_height, buf) = unsafe { bytes::restore_word_unchecked(buf) };
         let (tx_index, _) = unsafe { bytes::restore_word_unchecked(buf) };
 
-        self.block_height =
+        let block_height =
             u32::try_from(block_height).map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
 
-        self.tx_index =
+        let tx_index =
             u16::try_from(tx_index).map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
 
+        self.block_height = block_height;
+        self.tx_index = tx_index;
+
         Ok(Self::LEN)
     }
 
-- 
2.43.0


From 0777e57ad7566cde32caf26a1ea87e021bf1d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 6/8] fix: refuse inputs whose amounts overflow instead of
 wrapping the balance

Summing the inputs of an asset panicked in debug builds and wrapped in release
builds, crediting less than was spent.
---
 src/checked_transaction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checked_transaction.rs b/src/checked_transaction.rs
index 3a8ef7d..21b589e 100644
--- a/src/checked_transaction.rs
+++ b/src/checked_transaction.rs
@@ -312,7 +312,10 @@ where
         }
         _ => None,
     }) {
-        *balances.entry(asset_id).or_default() += amount;
+        let balance = balances.entry(asset_id).or_default();
+        *balance = balance
+            .checked_add(*amount)
+            .ok_or(CheckError::ArithmeticOverflow)?;
     }
 
     // Deduct fee from base asset
-- 
2.43.0


From ae1e3c058deec18bde69b1ed7e00d6da4395a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:47 +0000
Subject: [PATCH 7/8] fix: refuse identifier text that is not hexadecimal
 digits of the right length

---
 src/transaction/types/utxo_id.rs | 5 +++--
 src/tx_pointer.rs                | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transaction/types/utxo_id.rs b/src/transaction/types/utxo_id.rs
index aff30cf..a82e341 100644
--- a/src/transaction/types/utxo_id.rs
+++ b/src/transaction/types/utxo_id.rs
@@ -84,10 +84,11 @@ impl str::FromStr for UtxoId {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         const ERR: &str = "Invalid encoded byte";
-        if !s.is_ascii() {
+        let s = s.trim_start_matches("0x");
+        if !s.bytes().all(|b| b.is_ascii_hexdigit()) || (s.len() > 2 && s.len() != 2 * TxId::LEN + 2)
+        {
             return Err(ERR);
         }
-        let s = s.trim_start_matches("0x");
         let utxo_id = if s.is_empty() {
             UtxoId::new(Bytes32::default(), 0)
         } else if s.len() > 2 {
diff --git a/src/tx_pointer.rs b/src/tx_pointer.rs
index 817dbc9..28793ba 100644
--- a/src/tx_pointer.rs
+++ b/src/tx_pointer.rs
@@ -68,7 +68,7 @@ impl str::FromStr for TxPointer {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         const ERR: &str = "Invalid encoded byte";
 
-        if s.len() != 12 || !s.is_ascii() {
+        if s.len() != 12 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
             return Err(ERR);
         }
 
-- 
2.43.0


From ec203325ad5cd783c0ec0ddab345e7ece9864333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 8/8] fix: size the encoding and the fee of a modified
 transaction by its content, not by outdated cached offsets

---
 src/transaction/types/create.rs | 23 +++++++++++++++++++++--
 src/transaction/types/script.rs | 24 ++++++++++++++++++++++--
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index 8239a61..882cb8e 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -65,6 +65,25 @@ impl crate::UniqueIdentifier for Create {
     }
 }
 
+impl Create {
+    /// Size of the encoding up to the witnesses, always of the current content: the cached
+    /// offsets are outdated if the transaction was modified after `precompute`.
+    fn size_without_witnesses(&self) -> usize {
+        Self::storage_slots_offset_static()
+            + self.storage_slots.len() * StorageSlot::SLOT_SIZE
+            + self
+                .inputs
+                .iter()
+                .map(|i| i.serialized_size())
+                .sum::<usize>()
+            + self
+                .outputs
+                .iter()
+                .map(|o| o.serialized_size())
+                .sum::<usize>()
+    }
+}
+
 impl Chargeable for Create {
     fn price(&self) -> Word {
         *GasPrice::gas_price(self)
@@ -79,7 +98,7 @@ impl Chargeable for Create {
         // Just use the default serialized size for now until
         // the compressed representation for accounting purposes
         // is defined. Witness data should still be excluded.
-        self.witnesses_offset()
+        self.size_without_witnesses()
     }
 }
 
@@ -196,7 +215,7 @@ impl crate::Cacheable for Create {
 
 impl SizedBytes for Create {
     fn serialized_size(&self) -> usize {
-        self.witnesses_offset()
+        self.size_without_witnesses()
             + self
                 .witnesses()
                 .iter()
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index a979537..973e900 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -97,6 +97,26 @@ impl crate::UniqueIdentifier for Script {
     }
 }
 
+impl Script {
+    /// Size of the encoding up to the witnesses, always of the current content: the cached
+    /// offsets are outdated if the transaction was modified after `precompute`.
+    fn size_without_witnesses(&self) -> usize {
+        Self::script_offset_static()
+            + bytes::padded_len(self.script.as_slice())
+            + bytes::padded_len(self.script_data.as_slice())
+            + self
+                .inputs
+                .iter()
+                .map(|i| i.serialized_size())
+                .sum::<usize>()
+            + self
+                .outputs
+                .iter()
+                .map(|o| o.serialized_size())
+                .sum::<usize>()
+    }
+}
+
 impl Chargeable for Script {
     fn price(&self) -> Word {
         *GasPrice::gas_price(self)
@@ -111,7 +131,7 @@ impl Chargeable for Script {
         // Just use the default serialized size for now until
         // the compressed representation for accounting purposes
         // is defined. Witness data should still be excluded.
-        self.witnesses_offset()
+        self.size_without_witnesses()
     }
 }
 
@@ -176,7 +196,7 @@ impl crate::Cacheable for Script {
 
 impl SizedBytes for Script {
     fn serialized_size(&self) -> usize {
-        self.witnesses_offset()
+        self.size_without_witnesses()
             + self
                 .witnesses()
                 .iter()
-- 
2.43.0

