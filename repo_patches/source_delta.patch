From 2ed6615355f1c5051aae3370c20b1edba42215a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 01/15] fix: accept randomness requests only into initialized
 queues

The queue account was not validated, so a request could be written into the
oracle list, or into a partly allocated queue which then could never be
initialized.
---
 program/src/request_randomness.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index 616203a..e2bb03b 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -56,6 +56,11 @@ pub fn process_request_randomness(
         .has_seeds(&[IDENTITY], &args.callback_program_id)?
         .is_signer()?;
 
+    // Verify the queue account
+    oracle_queue_info
+        .is_writable()?
+        .has_owner(&ephemeral_vrf_api::ID)?;
+
     // Load slot and slothash
     slothashes_account_info.is_sysvar(&slot_hashes::id())?;
     let slothash: [u8; 32] = slothashes_account_info.try_borrow_data()?[16..48]
@@ -67,9 +72,8 @@ pub fn process_request_randomness(
     {
         // Borrow queue account data and load QueueAccount view
         let mut data = oracle_queue_info.try_borrow_mut_data()?;
-        if data.len() < 8 {
-            return Err(ProgramError::InvalidAccountData);
-        }
+        // The account must be an initialized queue, not any other (or a partly allocated) account
+        Queue::try_from_bytes(&data)?;
         // Skip 8-byte discriminator
         let queue_data = &mut data[8..];
         let mut queue_acc = QueueAccount::load(queue_data)?;
-- 
2.43.0


From adb06ac99f0390fd78131ec59ba4fcf1bb4b7bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 02/15] fix: do not purge a queue that is not initialized

Loading an all-zero queue writes its cursor, so anybody could purge a partly
allocated queue and block its initialization for good.
---
 program/src/purge_expired_requests.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/program/src/purge_expired_requests.rs b/program/src/purge_expired_requests.rs
index f49182e..e249adc 100644
--- a/program/src/purge_expired_requests.rs
+++ b/program/src/purge_expired_requests.rs
@@ -32,6 +32,7 @@ pub fn process_purge_expired_requests(accounts: &[AccountInfo<'_>], data: &[u8])
 
     // Borrow queue data and scan/remove expired items using QueueAccount view
     let mut acc_data = oracle_queue_info.try_borrow_mut_data()?;
+    Queue::try_from_bytes(&acc_data)?;
     let queue_data = &mut acc_data[8..];
     let mut queue_acc = QueueAccount::load(queue_data)?;
 
-- 
2.43.0


From 7db345b092da2aa7577b83f4e580825dfcfa9405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 03/15] fix: closing a partly allocated queue must not lower
 the open queue count

A queue is counted as open only once it is initialized. Closing one that is
not let an oracle be removed while it still had an open queue.
---
 program/src/close_oracle_queue.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/program/src/close_oracle_queue.rs b/program/src/close_oracle_queue.rs
index 05ed0d1..abf34c8 100644
--- a/program/src/close_oracle_queue.rs
+++ b/program/src/close_oracle_queue.rs
@@ -56,19 +56,19 @@ pub fn process_close_oracle_queue(accounts: &[AccountInfo], data: &[u8]) -> Prog
         )?;
 
     // Ensure the queue has no pending items before closing.
-    {
-        // Borrow data and load QueueAccount view to check emptiness
-        let mut data = oracle_queue_info.try_borrow_mut_data()?;
-        let queue_data = &mut data[8..];
-        let queue_acc = QueueAccount::load(queue_data)?;
-        if !queue_acc.is_empty() {
-            return Err(EphemeralVrfError::QueueNotEmpty.into());
-        }
-    }
+    // A partly allocated queue has none and is not counted as open.
+    let is_open = match Queue::try_from_bytes(&oracle_queue_info.try_borrow_data()?) {
+        Ok(queue) if !queue.is_empty() => return Err(EphemeralVrfError::QueueNotEmpty.into()),
+        Ok(_) => true,
+        Err(_) => false,
+    };
 
     // Decrement oracle's open queue count
-    let mut oracle_data_mut = oracle_data_info.as_account_mut::<Oracle>(&ephemeral_vrf_api::ID)?;
-    oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_sub(1);
+    if is_open {
+        let mut oracle_data_mut =
+            oracle_data_info.as_account_mut::<Oracle>(&ephemeral_vrf_api::ID)?;
+        oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_sub(1);
+    }
 
     close_account(oracle_queue_info, oracle_info)?;
 
-- 
2.43.0


From 10a43a9050197a1fbcb41eebc4582ef25af044c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 04/15] fix: undelegate only from the delegation program's
 buffer

Any signing account owned by the delegation program was accepted as buffer. A
program can sign for an address of its own that it has delegated, and could so
create oracle records and queues with arbitrary content.
---
 program/src/process_undelegation.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/program/src/process_undelegation.rs b/program/src/process_undelegation.rs
index f4d64f2..41d9cb3 100644
--- a/program/src/process_undelegation.rs
+++ b/program/src/process_undelegation.rs
@@ -1,4 +1,5 @@
 use ephemeral_rollups_sdk::cpi::undelegate_account;
+use ephemeral_rollups_sdk::dlp_api::pda::UNDELEGATE_BUFFER_TAG;
 use ephemeral_vrf_api::prelude::*;
 
 /// Process the undelegation of an Oracle queue from the delegation program
@@ -31,6 +32,13 @@ pub fn process_undelegation(accounts: &[AccountInfo<'_>], data: &[u8]) -> Progra
         return Err(ProgramError::NotEnoughAccountKeys);
     };
 
+    // The buffer must be the delegation program's own buffer for this account: any other account
+    // owned by the delegation program (e.g. a delegated PDA) can be signed for by its deriving program.
+    delegation_buffer.has_seeds(
+        &[UNDELEGATE_BUFFER_TAG, oracle_queue_info.key.as_ref()],
+        &ephemeral_rollups_sdk::id(),
+    )?;
+
     // Undelegate
     undelegate_account(
         oracle_queue_info,
-- 
2.43.0


From b03a95dd05c1f1600ddbf37784289e49c7e54018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 05/15] fix: give every pending request a unique id

The index mixed into the id is the queue length, which drops when a request is
removed, so an identical request in the same slot could get the id (and the
randomness) of one that is still pending.
---
 program/src/request_randomness.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/program/src/request_randomness.rs b/program/src/request_randomness.rs
index e2bb03b..ff24dac 100644
--- a/program/src/request_randomness.rs
+++ b/program/src/request_randomness.rs
@@ -79,16 +79,26 @@ pub fn process_request_randomness(
         let mut queue_acc = QueueAccount::load(queue_data)?;
 
         // Compute a combined hash that includes a logical insertion index hint
-        let idx = queue_acc.len() as u32;
-        let combined_hash = hashv(&[
-            &args.caller_seed,
-            &slot.to_le_bytes(),
-            &slothash,
-            &args.callback_discriminator,
-            &args.callback_program_id.to_bytes(),
-            &time.to_le_bytes(),
-            &idx.to_le_bytes(),
-        ]);
+        // (bumped if an identical request is already pending with that index)
+        let mut idx = queue_acc.len() as u32;
+        let combined_hash = loop {
+            let combined_hash = hashv(&[
+                &args.caller_seed,
+                &slot.to_le_bytes(),
+                &slothash,
+                &args.callback_discriminator,
+                &args.callback_program_id.to_bytes(),
+                &time.to_le_bytes(),
+                &idx.to_le_bytes(),
+            ]);
+            if queue_acc
+                .find_item_by_id(&combined_hash.to_bytes())
+                .is_none()
+            {
+                break combined_hash;
+            }
+            idx = idx.wrapping_add(1);
+        };
 
         // Log to simplify gathering all the information needed to recreate the combined_hash.
         msg!("Idx: {}", idx);
-- 
2.43.0


From f0908b4c0d15c89c804d9f48a8c68ea14d7df2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 06/15] fix: queue view must not hold two overlapping mutable
 references

---
 api/src/state/queue.rs                 | 72 ++++++++++++++------------
 program/src/initialize_oracle_queue.rs |  4 +-
 2 files changed, 41 insertions(+), 35 deletions(-)

diff --git a/api/src/state/queue.rs b/api/src/state/queue.rs
index e83eb51..a3a91d4 100644
--- a/api/src/state/queue.rs
+++ b/api/src/state/queue.rs
@@ -113,8 +113,6 @@ impl CompactAccountMeta {
 
 /// View over a queue account: header + variable region in the same account data.
 pub struct QueueAccount<'a> {
-    /// Header, mapped on the first bytes after discriminator.
-    pub header: &'a mut Queue,
     /// Full account data including header and variable data.
     pub acc: &'a mut [u8],
 }
@@ -138,25 +136,32 @@ impl<'a> QueueAccount<'a> {
             return Err(ProgramError::InvalidAccountData);
         }
 
-        let (header_bytes, _rest) = acc.split_at_mut(header_size);
-        // Validate alignment and size using a safe checked conversion first
-        if bytemuck::try_from_bytes_mut::<Queue>(header_bytes).is_err() {
-            return Err(ProgramError::InvalidAccountData);
-        }
-        // Then form the header reference from the raw pointer to avoid lifetime conflicts
-        let header: &mut Queue = unsafe { &mut *(header_bytes.as_mut_ptr() as *mut Queue) };
+        // Validate alignment and size using a safe checked conversion
+        let header = bytemuck::try_from_bytes_mut::<Queue>(&mut acc[..header_size])
+            .map_err(|_| ProgramError::InvalidAccountData)?;
 
         // If this is a freshly created account, cursor 0 means "no data yet":
         if header.cursor == 0 {
             header.cursor = Self::items_start() as u32;
         }
 
-        Ok(Self { header, acc })
+        Ok(Self { acc })
+    }
+
+    /// Header, mapped on the first bytes after the discriminator. It is derived from
+    /// `acc` on every use: a stored reference would alias `acc`.
+    pub fn header(&self) -> &Queue {
+        bytemuck::from_bytes(&self.acc[..size_of::<Queue>()])
+    }
+
+    /// Mutable variant of `header`.
+    pub fn header_mut(&mut self) -> &mut Queue {
+        bytemuck::from_bytes_mut(&mut self.acc[..size_of::<Queue>()])
     }
 
     /// Internal helper to write bytes into the variable region at current cursor and advance.
     fn write_bytes(&mut self, bytes: &[u8]) -> Result<u32, ProgramError> {
-        let start = self.header.cursor as usize;
+        let start = self.header().cursor as usize;
         let end = start + bytes.len();
 
         if end > self.acc.len() {
@@ -164,7 +169,7 @@ impl<'a> QueueAccount<'a> {
         }
 
         self.acc[start..end].copy_from_slice(bytes);
-        self.header.cursor = end as u32;
+        self.header_mut().cursor = end as u32;
 
         Ok(start as u32)
     }
@@ -189,7 +194,7 @@ impl<'a> QueueAccount<'a> {
     /// effectively removing all trailing holes. If no items are used, reset to items_start().
     fn trim_trailing_holes(&mut self) {
         let mut cursor = Self::items_start();
-        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);
+        let end = core::cmp::min(self.acc.len(), self.header().cursor as usize);
         let align = core::mem::align_of::<QueueItem>();
 
         // Default to empty queue start; if we see used items we’ll update this
@@ -220,8 +225,8 @@ impl<'a> QueueAccount<'a> {
 
         // If nothing was used, this becomes items_start(); otherwise end of last used.
         let new_cursor = last_used_end_aligned;
-        if (new_cursor as u32) < self.header.cursor {
-            self.header.cursor = new_cursor as u32;
+        if (new_cursor as u32) < self.header().cursor {
+            self.header_mut().cursor = new_cursor as u32;
         }
     }
 
@@ -242,7 +247,7 @@ impl<'a> QueueAccount<'a> {
 
         // Pre-compute sizes for a transactional capacity check to avoid partial writes
         let items_align = core::mem::align_of::<QueueItem>();
-        let aligned = Self::align_up(self.header.cursor as usize, items_align);
+        let aligned = Self::align_up(self.header().cursor as usize, items_align);
         let item_size = size_of::<QueueItem>();
         let disc_len_usize = discriminator.len();
         let metas_bytes_len = size_of_val(metas);
@@ -260,19 +265,19 @@ impl<'a> QueueAccount<'a> {
         }
 
         // Ensure items area starts at aligned offset; cursor may have been advanced already
-        let aligned = Self::align_up(self.header.cursor as usize, items_align);
-        if aligned != self.header.cursor as usize {
-            let start = self.header.cursor as usize;
+        let aligned = Self::align_up(self.header().cursor as usize, items_align);
+        if aligned != self.header().cursor as usize {
+            let start = self.header().cursor as usize;
             let end = aligned;
             // Safe due to preflight check above
             self.acc[start..end].fill(0);
-            self.header.cursor = end as u32;
+            self.header_mut().cursor = end as u32;
         }
 
         // Reserve space for the item so items are contiguous
-        let item_pos = self.header.cursor as usize;
+        let item_pos = self.header().cursor as usize;
         // Safe due to preflight check above
-        self.header.cursor = (item_pos + item_size) as u32;
+        self.header_mut().cursor = (item_pos + item_size) as u32;
 
         // Write discriminator/metas/args into variable region (after the reserved item slot)
         let disc_off = self.write_bytes(discriminator)?;
@@ -301,15 +306,15 @@ impl<'a> QueueAccount<'a> {
         Self::write_item_unaligned(dst, &item);
 
         // Item index is logical position among used items.
-        let logical_index = self.header.item_count as usize;
-        self.header.item_count = self.header.item_count.saturating_add(1);
+        let logical_index = self.header().item_count as usize;
+        self.header_mut().item_count = self.header().item_count.saturating_add(1);
         Ok(logical_index)
     }
 
     /// Iterate over all used items.
     pub fn iter_items(&self) -> impl Iterator<Item = QueueItem> + '_ {
         let mut cursor = Self::items_start();
-        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);
+        let end = core::cmp::min(self.acc.len(), self.header().cursor as usize);
         let align = core::mem::align_of::<QueueItem>();
 
         let mut out = Vec::new();
@@ -347,7 +352,7 @@ impl<'a> QueueAccount<'a> {
         let mut current = 0usize;
 
         let mut cursor = Self::items_start();
-        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);
+        let end = core::cmp::min(self.acc.len(), self.header().cursor as usize);
         let align = core::mem::align_of::<QueueItem>();
 
         while cursor + size_of::<QueueItem>() <= end {
@@ -384,11 +389,11 @@ impl<'a> QueueAccount<'a> {
         let mut current = 0usize;
 
         let mut cursor = Self::items_start();
-        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);
+        let end = core::cmp::min(self.acc.len(), self.header().cursor as usize);
         let align = core::mem::align_of::<QueueItem>();
 
         while cursor + size_of::<QueueItem>() <= end {
-            let bytes = &mut self.acc[cursor..cursor + size_of::<QueueItem>()];
+            let bytes = &self.acc[cursor..cursor + size_of::<QueueItem>()];
             let mut item = Self::read_item_unaligned(bytes);
 
             if item.used == 1 {
@@ -401,12 +406,13 @@ impl<'a> QueueAccount<'a> {
                         + metas_bytes
                         + (item.args_len as usize);
                     let next = Self::align_up(item_end, align);
-                    let was_tail = next == self.header.cursor as usize;
+                    let was_tail = next == self.header().cursor as usize;
 
                     // Logically remove
                     item.used = 0;
-                    self.header.item_count = self.header.item_count.saturating_sub(1);
+                    self.header_mut().item_count = self.header().item_count.saturating_sub(1);
                     // Write back modified item using unaligned write
+                    let bytes = &mut self.acc[cursor..cursor + size_of::<QueueItem>()];
                     Self::write_item_unaligned(bytes, &item);
 
                     // If we removed the tail, shrink cursor to eliminate trailing holes
@@ -442,7 +448,7 @@ impl<'a> QueueAccount<'a> {
         let mut current = 0usize;
 
         let mut cursor = Self::items_start();
-        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);
+        let end = core::cmp::min(self.acc.len(), self.header().cursor as usize);
         let align = core::mem::align_of::<QueueItem>();
 
         while cursor + size_of::<QueueItem>() <= end {
@@ -475,11 +481,11 @@ impl<'a> QueueAccount<'a> {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.header.item_count == 0
+        self.header().item_count == 0
     }
 
     pub fn len(&self) -> usize {
-        self.header.item_count as usize
+        self.header().item_count as usize
     }
 }
 
diff --git a/program/src/initialize_oracle_queue.rs b/program/src/initialize_oracle_queue.rs
index 7d99bda..e0deda3 100644
--- a/program/src/initialize_oracle_queue.rs
+++ b/program/src/initialize_oracle_queue.rs
@@ -130,8 +130,8 @@ pub fn process_initialize_oracle_queue(accounts: &[AccountInfo<'_>], data: &[u8]
         let disc = AccountDiscriminator::Queue.to_bytes();
         data[..8].copy_from_slice(&disc);
         let acc_without_disc = &mut data[8..];
-        let qacc = QueueAccount::load(acc_without_disc)?;
-        qacc.header.index = args.index;
+        let mut qacc = QueueAccount::load(acc_without_disc)?;
+        qacc.header_mut().index = args.index;
     }
 
     // Increment oracle's open queue count
-- 
2.43.0


From 52a8a228ace44f0b2b828d33e2cb11e68fbb091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 07/15] fix: random_u8_with_range must support the full byte
 range

For 0..=255 the range computation overflowed (a panic with overflow checks,
a division by zero without), and for ranges whose size divides 256 the
rejection threshold wrapped to 0 so that no byte was ever accepted.
---
 sdk/src/rnd.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sdk/src/rnd.rs b/sdk/src/rnd.rs
index c98042c..1752ab9 100644
--- a/sdk/src/rnd.rs
+++ b/sdk/src/rnd.rs
@@ -29,17 +29,18 @@ pub fn random_u8(bytes: &[u8; 32]) -> u8 {
 /// a value that falls within an evenly divisible range. If no such value is found,
 /// it falls back to a slightly biased approach using the last byte.
 pub fn random_u8_with_range(bytes: &[u8; 32], min_value: u8, max_value: u8) -> u8 {
-    let range = (max_value - min_value + 1) as u16;
-    let threshold = (256 / range * range) as u8;
+    // Up to 256 values, so neither the range nor the threshold fits into a u8
+    let range = (max_value - min_value) as u16 + 1;
+    let threshold = 256 / range * range;
 
     // Try to find a byte that, when mapped, gives an unbiased result
     for &b in bytes.iter().rev() {
-        if b < threshold {
-            return min_value + (b % range as u8);
+        if (b as u16) < threshold {
+            return min_value + (b as u16 % range) as u8;
         }
     }
     // Fallback (slight bias, but rare fallback case)
-    min_value + (bytes[31] % range as u8)
+    min_value + (bytes[31] as u16 % range) as u8
 }
 
 /// Generates a random u32 value from a 32-byte random seed
-- 
2.43.0


From 4641ad91cc4330240eb23dd45ae51329b4d1f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 08/15] fix: derive the SDK's delegation addresses under the
 delegation program

pda.rs was copied from the delegation program, where crate::id() is the
delegation program; in the SDK it is the VRF program, so every helper
returned an address nobody uses.
---
 sdk/src/consts.rs |  3 +++
 sdk/src/pda.rs    | 26 +++++++++++++++-----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/sdk/src/consts.rs b/sdk/src/consts.rs
index b519d75..3b9b6b4 100644
--- a/sdk/src/consts.rs
+++ b/sdk/src/consts.rs
@@ -3,6 +3,9 @@ use crate::compat::{pubkey, Pubkey};
 /// Verifiable Random Function program id
 pub const VRF_PROGRAM_ID: Pubkey = pubkey!("Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz");
 
+/// Delegation program id
+pub const DELEGATION_PROGRAM_ID: Pubkey = pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
+
 /// The default queue for randomness requests
 pub const DEFAULT_QUEUE: Pubkey = pubkey!("Cuj97ggrhhidhbu39TijNVqE74xvKJ69gDervRUXAxGh");
 
diff --git a/sdk/src/pda.rs b/sdk/src/pda.rs
index 800203e..c909ab8 100644
--- a/sdk/src/pda.rs
+++ b/sdk/src/pda.rs
@@ -1,4 +1,5 @@
 use crate::compat::{Compat, Modern, Pubkey};
+use crate::consts::DELEGATION_PROGRAM_ID;
 
 /// NOTE: Copy/Pasted from delegation-program/src/pda.rs (modify there if needed)
 #[macro_export]
@@ -75,7 +76,7 @@ pub fn delegation_record_pda_from_delegated_account(delegated_account: &Pubkey)
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         delegation_record_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -85,7 +86,7 @@ pub fn delegation_metadata_pda_from_delegated_account(delegated_account: &Pubkey
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         delegation_metadata_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -95,7 +96,7 @@ pub fn commit_state_pda_from_delegated_account(delegated_account: &Pubkey) -> Pu
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         commit_state_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -105,7 +106,7 @@ pub fn commit_record_pda_from_delegated_account(delegated_account: &Pubkey) -> P
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         commit_record_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -129,23 +130,26 @@ pub fn undelegate_buffer_pda_from_delegated_account(delegated_account: &Pubkey)
     let delegated_account = (*delegated_account).modern();
     crate::compat::latest::Pubkey::find_program_address(
         undelegate_buffer_seeds_from_delegated_account!(delegated_account),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
 }
 
 pub fn fees_vault_pda() -> Pubkey {
-    crate::compat::latest::Pubkey::find_program_address(fees_vault_seeds!(), &crate::id().modern())
-        .0
-        .compat()
+    crate::compat::latest::Pubkey::find_program_address(
+        fees_vault_seeds!(),
+        &DELEGATION_PROGRAM_ID.modern(),
+    )
+    .0
+    .compat()
 }
 
 pub fn validator_fees_vault_pda_from_validator(validator: &Pubkey) -> Pubkey {
     let validator = (*validator).modern();
     crate::compat::latest::Pubkey::find_program_address(
         validator_fees_vault_seeds_from_validator!(validator),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -155,7 +159,7 @@ pub fn program_config_from_program_id(program_id: &Pubkey) -> Pubkey {
     let program_id = (*program_id).modern();
     crate::compat::latest::Pubkey::find_program_address(
         program_config_seeds_from_program_id!(program_id),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
@@ -165,7 +169,7 @@ pub fn ephemeral_balance_pda_from_payer(payer: &Pubkey, index: u8) -> Pubkey {
     let payer = (*payer).modern();
     crate::compat::latest::Pubkey::find_program_address(
         ephemeral_balance_seeds_from_payer!(payer, index),
-        &crate::id().modern(),
+        &DELEGATION_PROGRAM_ID.modern(),
     )
     .0
     .compat()
-- 
2.43.0


From 141b5832367e2f860332fd1d531b663ba5f95726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 09/15] fix: oracle must not terminate when the node is
 unreachable at start

BlockhashCache::new unwrapped the first RPC response, so the retry loop in
main never saw the error and the process died.
---
 vrf-oracle/src/blockhash_cache.rs | 6 +++---
 vrf-oracle/src/oracle/client.rs   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrf-oracle/src/blockhash_cache.rs b/vrf-oracle/src/blockhash_cache.rs
index 2d405cf..86374d8 100644
--- a/vrf-oracle/src/blockhash_cache.rs
+++ b/vrf-oracle/src/blockhash_cache.rs
@@ -21,8 +21,8 @@ struct CacheData {
 }
 
 impl BlockhashCache {
-    pub async fn new(client: Arc<nonblocking::rpc_client::RpcClient>) -> Self {
-        let (blockhash, slot) = Self::fetch_blockhash_and_slot(&client).await.unwrap();
+    pub async fn new(client: Arc<nonblocking::rpc_client::RpcClient>) -> anyhow::Result<Self> {
+        let (blockhash, slot) = Self::fetch_blockhash_and_slot(&client).await?;
         let inner = Arc::new(RwLock::new(CacheData {
             blockhash,
             slot,
@@ -32,7 +32,7 @@ impl BlockhashCache {
         let cache = Self { inner, client };
 
         cache.spawn_refresh_task();
-        cache
+        Ok(cache)
     }
 
     fn spawn_refresh_task(&self) {
diff --git a/vrf-oracle/src/oracle/client.rs b/vrf-oracle/src/oracle/client.rs
index 8ff49fe..be9e076 100644
--- a/vrf-oracle/src/oracle/client.rs
+++ b/vrf-oracle/src/oracle/client.rs
@@ -102,7 +102,7 @@ impl OracleClient {
             self.rpc_url.clone(),
             CommitmentConfig::processed(),
         ));
-        let blockhash_cache = Arc::new(BlockhashCache::new(Arc::clone(&rpc_client)).await);
+        let blockhash_cache = Arc::new(BlockhashCache::new(Arc::clone(&rpc_client)).await?);
         fetch_and_process_program_accounts(
             &self,
             &rpc_client,
-- 
2.43.0


From 08ec04705c50c9d73d1e2e8e48a0dd777cfed65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:25 +0000
Subject: [PATCH 10/15] fix: retry a request whose confirmed transaction was
 dropped with its fork

---
 vrf-oracle/src/oracle/processor.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/vrf-oracle/src/oracle/processor.rs b/vrf-oracle/src/oracle/processor.rs
index 92a0ecf..82d1ae5 100644
--- a/vrf-oracle/src/oracle/processor.rs
+++ b/vrf-oracle/src/oracle/processor.rs
@@ -26,6 +26,9 @@ use std::time::Duration;
 use tokio::task;
 use tokio::time::sleep;
 
+/// How long a request whose transaction was confirmed is kept from being retried.
+const CONFIRMED_GRACE_PERIOD: Duration = Duration::from_secs(30);
+
 pub async fn fetch_and_process_program_accounts(
     oracle_client: &Arc<OracleClient>,
     rpc_client: &Arc<RpcClient>,
@@ -282,7 +285,14 @@ pub async fn process_oracle_queue(
                     }
                 }
 
-                // Task finished. Remove from active_tasks. If not confirmed, also clear inflight to allow retry.
+                // `processed` is not final: the confirmed transaction can still be dropped with its
+                // fork. Usually the request leaves the queue and this task is cancelled while it waits;
+                // otherwise the request is released for a retry.
+                if confirmed_success {
+                    sleep(CONFIRMED_GRACE_PERIOD).await;
+                }
+
+                // Task finished. Remove from active_tasks and clear inflight to allow retry.
                 {
                     let mut tasks_all = oracle_client_for_cleanup.active_tasks.write().await;
                     if let Some(tasks_for_queue) = tasks_all.get_mut(&queue_key_spawn) {
@@ -290,7 +300,7 @@ pub async fn process_oracle_queue(
                     }
                 }
 
-                if !confirmed_success {
+                {
                     let mut inflight_all =
                         oracle_client_for_cleanup.inflight_requests.write().await;
                     if let Some(inflight_for_queue) = inflight_all.get_mut(&queue_key_spawn) {
-- 
2.43.0


From d0c18a7bc92b62d29b8e5071ef85309de50a87ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 11/15] fix: close only the queue that was named

---
 vrf-cli/src/main.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index 1d3f67e..bee1d82 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -183,13 +183,13 @@ async fn main() -> Result<()> {
         }
         Commands::CloseOracleQueue { queue } => {
             let queue = Pubkey::from_str(queue)?;
-            let queue_account = rpc_client.get_account(&queue)?;
-            let queue_struct = Queue::try_from_bytes(queue_account.data.as_slice())?;
-            println!(
-                "Closing oracle queue: {} with index: {}",
-                queue, queue_struct.index
-            );
-            vec![close_oracle_queue(signer.pubkey(), queue_struct.index)]
+            let Some(index) =
+                (0..=u8::MAX).find(|i| oracle_queue_pda(&signer.pubkey(), *i).0 == queue)
+            else {
+                anyhow::bail!("{queue} is not a queue of {}", signer.pubkey());
+            };
+            println!("Closing oracle queue: {queue} with index: {index}");
+            vec![close_oracle_queue(signer.pubkey(), index)]
         }
         Commands::DerivePubkey {} => {
             let (_, oracle_vrf_pk) = generate_vrf_keypair(&signer);
-- 
2.43.0


From e2146d6e741a51961cc916df078fb942b866803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 12/15] fix: list all queues of the oracle

---
 vrf-cli/src/main.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vrf-cli/src/main.rs b/vrf-cli/src/main.rs
index bee1d82..84d9541 100644
--- a/vrf-cli/src/main.rs
+++ b/vrf-cli/src/main.rs
@@ -198,11 +198,16 @@ async fn main() -> Result<()> {
             exit(0)
         }
         Commands::ListQueue {} => {
-            for i in 0..20 {
-                let queue = oracle_queue_pda(&signer.pubkey(), i).0;
-                let acc = rpc_client.get_account(&queue);
-                if acc.is_ok() {
-                    let account = acc?;
+            let queues: Vec<Pubkey> = (0..=u8::MAX)
+                .map(|i| oracle_queue_pda(&signer.pubkey(), i).0)
+                .collect();
+            // 100 accounts is the most a node returns at once
+            for chunk in queues.chunks(100) {
+                let accounts = rpc_client.get_multiple_accounts(chunk)?;
+                for (queue, account) in chunk.iter().zip(accounts) {
+                    let Some(account) = account else {
+                        continue;
+                    };
                     let queue_struct = match Queue::try_from_bytes(account.data.as_slice()) {
                         Ok(q) => q,
                         Err(_) => {
-- 
2.43.0


From ab0a86ac949b9d1cbd7206037af54445612ecba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 13/15] fix: a queue of no bytes must not be reported as
 initialized

---
 api/src/sdk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/sdk.rs b/api/src/sdk.rs
index 7866be9..1474d61 100644
--- a/api/src/sdk.rs
+++ b/api/src/sdk.rs
@@ -79,7 +79,7 @@ pub fn initialize_oracle_queue(
         oracle_queue_pda(&identity, index).0.to_string()
     );
     let target_size = bytes_to_allocate.unwrap_or(9500);
-    let inits = target_size.div_ceil(10240);
+    let inits = target_size.div_ceil(10240).max(1);
     let mut ixs = Vec::with_capacity(inits as usize);
     for _ in 0..inits {
         ixs.push(Instruction {
-- 
2.43.0


From 6a05a0f1fce127cd463c872923e6163008c1ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 14/15] fix: skip streamed accounts that another program owns

---
 vrf-oracle/src/oracle/sources.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrf-oracle/src/oracle/sources.rs b/vrf-oracle/src/oracle/sources.rs
index 2c595c9..e74e853 100644
--- a/vrf-oracle/src/oracle/sources.rs
+++ b/vrf-oracle/src/oracle/sources.rs
@@ -54,6 +54,9 @@ impl QueueUpdateSource for LaserstreamSource {
             if let Some(UpdateOneof::Account(acc)) = update.update_oneof {
                 let slot = acc.slot;
                 let acc = acc.account?;
+                if acc.owner != PROGRAM_ID.as_ref() {
+                    continue;
+                }
                 let queue = Queue::try_from_bytes(&acc.data).ok()?;
                 let pubkey = Pubkey::new_from_array(acc.pubkey.try_into().ok()?);
                 return Some((pubkey, *queue, acc.data, slot));
-- 
2.43.0


From 347ea7cd1851f2c1496b797bf274bcee473de8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:44 +0000
Subject: [PATCH 15/15] fix: end the blockhash refresh with its cache

---
 vrf-oracle/src/blockhash_cache.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vrf-oracle/src/blockhash_cache.rs b/vrf-oracle/src/blockhash_cache.rs
index 86374d8..c754667 100644
--- a/vrf-oracle/src/blockhash_cache.rs
+++ b/vrf-oracle/src/blockhash_cache.rs
@@ -36,13 +36,18 @@ impl BlockhashCache {
     }
 
     fn spawn_refresh_task(&self) {
-        let inner = self.inner.clone();
+        // The task must not outlive the cache it refreshes
+        let inner = Arc::downgrade(&self.inner);
         let client = self.client.clone();
 
         tokio::spawn(async move {
             loop {
                 tokio::time::sleep(Duration::from_millis(100)).await;
 
+                let Some(inner) = inner.upgrade() else {
+                    return;
+                };
+
                 let should_refresh = {
                     let cache = inner.read().await;
                     cache.timestamp.elapsed() > Duration::from_secs(60)
-- 
2.43.0

