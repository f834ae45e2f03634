From 3a78c96c773cbc117e07b7c220916acb8e3fbfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:21 +0000
Subject: [PATCH 01/20] fix: erase_all forgets everything the cache knows

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 37fb23a..81f8e1a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,6 +55,9 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
     ///
     /// This is just a thin helper function as it just calls the flash's erase function.
     pub async fn erase_all(&mut self) -> Result<(), Error<S::Error>> {
+        // Nothing the cache knows about the flash is true anymore
+        self.cache.invalidate_cache_state();
+
         self.flash
             .erase(self.flash_range.start, self.flash_range.end)
             .await
-- 
2.43.0


From 2dd504d95d9dc30e5f8569dd7c6a4b565e88f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:17 +0000
Subject: [PATCH 02/20] fix: a single page queue accepts pushes again after
 everything was popped

---
 src/queue/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ac65308..3c53689 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -230,10 +230,12 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                         calculate_page_address::<S>(self.flash_range(), next_page)
                             + S::WORD_SIZE as u32;
 
+                    // A single page is never closed, so we say it is to have its items checked.
+                    // If they're all popped, then the page can be used again.
                     if !allow_overwrite_old_data
                         && !self
                             .inner
-                            .is_page_empty(next_page, Some(next_page_state))
+                            .is_page_empty(next_page, Some(PageState::Closed))
                             .await?
                     {
                         self.inner.cache.unmark_dirty();
-- 
2.43.0


From f36d83f10edaa77be728a198da92210b3902fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:24 +0000
Subject: [PATCH 03/20] fix: find_max_fit reports what a push accepts

---
 src/queue/mod.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 3c53689..f22d7b9 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -355,20 +355,33 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
 
         let current_page = self.find_youngest_page().await?;
 
+        // Nothing bigger than what fits on an empty page can ever be stored
+        let max_fit = ItemHeader::available_data_bytes::<S>(calculate_page_size::<S>() as u32)
+            .map(|available| available.min(u32::from(u16::MAX)));
+
         // Check if we have space on the next page
         let next_page = self.inner.next_page(current_page);
-        match self.inner.get_page_state_cached(next_page).await? {
-            state @ PageState::Closed => {
-                if self.inner.is_page_empty(next_page, Some(state)).await? {
+        let single_page = next_page == current_page;
+        match (
+            self.inner.get_page_state_cached(next_page).await?,
+            single_page,
+        ) {
+            (PageState::Closed, _) | (PageState::PartialOpen, true) => {
+                // A single page is never closed, but can be used again if all its items are popped
+                if self
+                    .inner
+                    .is_page_empty(next_page, Some(PageState::Closed))
+                    .await?
+                {
                     self.inner.cache.unmark_dirty();
-                    return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                    return Ok(max_fit);
                 }
             }
-            PageState::Open => {
+            (PageState::Open, _) => {
                 self.inner.cache.unmark_dirty();
-                return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                return Ok(max_fit);
             }
-            PageState::PartialOpen => {
+            (PageState::PartialOpen, false) => {
                 // This should never happen
                 return Err(Error::Corrupted {
                     #[cfg(feature = "_test")]
@@ -400,9 +413,10 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
         };
 
         self.inner.cache.unmark_dirty();
-        Ok(ItemHeader::available_data_bytes::<S>(
-            page_data_end_address - next_item_address,
-        ))
+        Ok(
+            ItemHeader::available_data_bytes::<S>(page_data_end_address - next_item_address)
+                .map(|available| available.min(u32::from(u16::MAX))),
+        )
     }
 
     /// Calculate how much space is left free in the queue (in bytes).
-- 
2.43.0


From 8201ce351b63eb34ef2152015d75387baec1375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 04/20] fix: fetch_all_items repairs a half-erased page instead
 of reporting corruption

---
 src/map.rs | 93 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 48 insertions(+), 45 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 88a4bda..8a18031 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -785,52 +785,8 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         &mut self,
         data_buffer: &mut [u8],
     ) -> Result<MapItemIter<'_, K, S, C>, Error<S::Error>> {
-        // Get the first page index.
-        // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
         let first_page = run_with_auto_repair!(
-            function = {
-                match self
-                    .inner
-                    .find_first_page(0, PageState::PartialOpen)
-                    .await?
-                {
-                    Some(last_used_page) => {
-                        // The next page of the `PartialOpen` page is the first page
-                        Ok(self.inner.next_page(last_used_page))
-                    }
-                    None => {
-                        // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
-                        // If the page one before that is closed, then that's the last used page.
-                        if let Some(first_open_page) =
-                            self.inner.find_first_page(0, PageState::Open).await?
-                        {
-                            let previous_page = self.inner.previous_page(first_open_page);
-                            if self
-                                .inner
-                                .get_page_state_cached(previous_page)
-                                .await?
-                                .is_closed()
-                            {
-                                // The previous page is closed, so the first_open_page is what we want
-                                Ok(first_open_page)
-                            } else {
-                                // The page before the open page is not closed, so it must be open.
-                                // This means that all pages are open and that we don't have any items yet.
-                                self.inner.cache.unmark_dirty();
-                                Ok(0)
-                            }
-                        } else {
-                            // There are no open pages, so everything must be closed.
-                            // Something is up and this should never happen.
-                            // To recover, we will just erase all the flash.
-                            Err(Error::Corrupted {
-                                #[cfg(feature = "_test")]
-                                backtrace: std::backtrace::Backtrace::capture(),
-                            })
-                        }
-                    }
-                }
-            },
+            function = self.find_first_used_page().await,
             repair = self.try_repair(data_buffer).await?
         )?;
 
@@ -848,6 +804,53 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         })
     }
 
+    /// Get the index of the page an iteration over all items starts at.
+    ///
+    /// The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
+    async fn find_first_used_page(&mut self) -> Result<usize, Error<S::Error>> {
+        match self
+            .inner
+            .find_first_page(0, PageState::PartialOpen)
+            .await?
+        {
+            Some(last_used_page) => {
+                // The next page of the `PartialOpen` page is the first page
+                Ok(self.inner.next_page(last_used_page))
+            }
+            None => {
+                // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
+                // If the page one before that is closed, then that's the last used page.
+                if let Some(first_open_page) =
+                    self.inner.find_first_page(0, PageState::Open).await?
+                {
+                    let previous_page = self.inner.previous_page(first_open_page);
+                    if self
+                        .inner
+                        .get_page_state_cached(previous_page)
+                        .await?
+                        .is_closed()
+                    {
+                        // The previous page is closed, so the first_open_page is what we want
+                        Ok(first_open_page)
+                    } else {
+                        // The page before the open page is not closed, so it must be open.
+                        // This means that all pages are open and that we don't have any items yet.
+                        self.inner.cache.unmark_dirty();
+                        Ok(0)
+                    }
+                } else {
+                    // There are no open pages, so everything must be closed.
+                    // Something is up and this should never happen.
+                    // To recover, we will just erase all the flash.
+                    Err(Error::Corrupted {
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    })
+                }
+            }
+        }
+    }
+
     async fn migrate_items(
         &mut self,
         data_buffer: &mut [u8],
-- 
2.43.0


From 31f8d983afdea24c9d034a65ab067ffecdba7e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:38 +0000
Subject: [PATCH 05/20] fix: remove_item and fetch_all_items distrust the cache
 after an interrupted call

---
 src/map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index 8a18031..2c3f6e0 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -630,6 +630,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
     where
         S: MultiwriteNorFlash,
     {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         if let Some(key) = &search_key {
             self.inner.cache.notice_key_erased(key);
         } else {
@@ -808,6 +812,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
     ///
     /// The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
     async fn find_first_used_page(&mut self) -> Result<usize, Error<S::Error>> {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         match self
             .inner
             .find_first_page(0, PageState::PartialOpen)
-- 
2.43.0


From 2d6e76043d6c7ff49d9e6531dfbadf3a21e4edc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:07 +0000
Subject: [PATCH 06/20] fix: iterating a map reports flash errors instead of
 skipping pages

---
 src/map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 2c3f6e0..393f2c0 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -1120,7 +1120,9 @@ impl<K: Key, S: NorFlash, C: CacheImpl<K>> MapItemIter<'_, K, S, C> {
                         );
                         break;
                     }
-                    _ => continue,
+                    // A half-erased page has no items that are not stored in another page too
+                    Ok(PageState::Open) | Err(Error::Corrupted { .. }) => continue,
+                    Err(e) => return Err(e),
                 }
             }
         };
-- 
2.43.0


From ee3a499acbea73ff397356936fd02d1f75ef2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:38 +0000
Subject: [PATCH 07/20] fix: iterating a map does not visit the leftovers of an
 interrupted erase

---
 src/map.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 393f2c0..6a8142e 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -838,8 +838,9 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                         .await?
                         .is_closed()
                     {
-                        // The previous page is closed, so the first_open_page is what we want
-                        Ok(first_open_page)
+                        // The previous page is closed, so the oldest items are in the page after the first_open_page.
+                        // The first_open_page itself may only contain the leftovers of an interrupted erase.
+                        Ok(self.inner.next_page(first_open_page))
                     } else {
                         // The page before the open page is not closed, so it must be open.
                         // This means that all pages are open and that we don't have any items yet.
-- 
2.43.0


From 58e188730ed21145a35f8542c4f731fa1b8affe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:44 +0000
Subject: [PATCH 08/20] fix: a flash error during the repair reaches the caller

---
 src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 81f8e1a..c85e0c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -81,11 +81,10 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
         // Loop through the pages and get their state. If one returns the corrupted error,
         // the page is likely half-erased. Fix for that is to re-erase again to hopefully finish the job.
         for page_index in self.get_pages(0) {
-            if matches!(
-                self.get_page_state(page_index).await,
-                Err(Error::Corrupted { .. })
-            ) {
-                self.open_page(page_index).await?;
+            match self.get_page_state(page_index).await {
+                Ok(_) => {}
+                Err(Error::Corrupted { .. }) => self.open_page(page_index).await?,
+                Err(e) => return Err(e),
             }
         }
 
-- 
2.43.0


From 5fe60098750b31b606027f1c5356a1056180d312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:18 +0000
Subject: [PATCH 09/20] fix: a header with a bogus length at the end of the
 address space is corrupted

---
 src/item.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/item.rs b/src/item.rs
index 373ed90..5387ba8 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -107,7 +107,9 @@ impl ItemHeader {
             },
         };
 
-        if header.next_item_address::<S>(address) > end_address {
+        // Written such that it can't overflow at the end of the address space
+        let available = end_address - Self::data_address::<S>(address);
+        if round_up_to_alignment::<S>(u32::from(header.length)) > available {
             // We have a header here that's claims it's larger than is possible
             // This is never written. So either it's a bug or there's a CRC collision
             // Let's assume the latter
-- 
2.43.0


From 89b560ed10e237dac2ecbd0b822d52dcf08da53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:18 +0000
Subject: [PATCH 10/20] fix: keys are deserialized from the data of their item
 only

---
 src/item.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/item.rs b/src/item.rs
index 5387ba8..3ae09d6 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -251,7 +251,7 @@ impl<'d> core::fmt::Debug for Item<'d> {
 
 impl<'d> Item<'d> {
     pub(crate) fn data(&self) -> &[u8] {
-        self.item_data_buffer
+        &self.item_data_buffer[..self.header.length as usize]
     }
 
     pub(crate) fn data_mut(&mut self) -> &mut [u8] {
-- 
2.43.0


From db12738f4a28449449308b74b36da51e59aa0a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:03 +0000
Subject: [PATCH 11/20] fix: a wrongly read crc in the header of an item is
 read again too

---
 src/item.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 3ae09d6..bf4797e 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -123,7 +123,7 @@ impl ItemHeader {
     }
 
     pub(crate) async fn read_item<'d, S: NorFlash>(
-        self,
+        mut self,
         flash: &mut S,
         data_buffer: &'d mut [u8],
         address: u32,
@@ -131,7 +131,7 @@ impl ItemHeader {
     ) -> Result<MaybeItem<'d>, Error<S::Error>> {
         match self.crc {
             None => Ok(MaybeItem::Erased(self, data_buffer)),
-            Some(header_crc) => {
+            Some(mut header_crc) => {
                 let data_address = ItemHeader::data_address::<S>(address);
                 let read_len = round_up_to_alignment_usize::<S>(self.length as usize);
                 if data_address + read_len as u32 > end_address {
@@ -165,6 +165,18 @@ impl ItemHeader {
                     } else {
                         if !retry {
                             retry = true;
+                            // It may also be the crc in the header that was read wrong
+                            match Self::read_new(flash, address, end_address).await {
+                                Ok(Some(Self {
+                                    length,
+                                    crc: Some(crc),
+                                })) if length == self.length => {
+                                    header_crc = crc;
+                                    self.crc = Some(crc);
+                                }
+                                Err(e @ Error::Storage { .. }) => return Err(e),
+                                _ => {}
+                            }
                             continue;
                         }
                         Ok(MaybeItem::Corrupted(self, data_buffer))
-- 
2.43.0


From 49fba139d7971e83b29a602a742f0021328725d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:50 +0000
Subject: [PATCH 12/20] fix: a header that seems too long is read again before
 it counts as corrupted

---
 src/item.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index bf4797e..6434a23 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -63,6 +63,8 @@ impl ItemHeader {
             return Ok(None);
         }
 
+        let available = end_address - Self::data_address::<S>(address);
+
         let mut retry = false;
         loop {
             flash
@@ -82,7 +84,12 @@ impl ItemHeader {
             let length_crc = u16::from_le_bytes(buffer[Self::LENGTH_CRC_FIELD].try_into().unwrap());
             let calculated_length_crc = crc16(&buffer[Self::LENGTH_FIELD]);
 
-            if calculated_length_crc != length_crc {
+            // A header that claims it's larger than is possible is never written.
+            // So it was read wrong, it's a bug or there's a CRC collision
+            let length = u16::from_le_bytes(buffer[Self::LENGTH_FIELD].try_into().unwrap());
+            let fits = round_up_to_alignment::<S>(u32::from(length)) <= available;
+
+            if calculated_length_crc != length_crc || !fits {
                 if retry {
                     return Err(Error::Corrupted {
                         #[cfg(feature = "_test")]
@@ -107,18 +114,6 @@ impl ItemHeader {
             },
         };
 
-        // Written such that it can't overflow at the end of the address space
-        let available = end_address - Self::data_address::<S>(address);
-        if round_up_to_alignment::<S>(u32::from(header.length)) > available {
-            // We have a header here that's claims it's larger than is possible
-            // This is never written. So either it's a bug or there's a CRC collision
-            // Let's assume the latter
-            return Err(Error::Corrupted {
-                #[cfg(feature = "_test")]
-                backtrace: std::backtrace::Backtrace::capture(),
-            });
-        }
-
         Ok(Some(header))
     }
 
-- 
2.43.0


From 5399828f54cad0b8466e08baf9f97924f6370169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:42 +0000
Subject: [PATCH 13/20] fix: the buffered queue reports too small buffers
 instead of emptiness

---
 src/queue/buffered.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index d203068..ce1ae40 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -140,6 +140,14 @@ impl<const N: usize> RamRing<N> {
         Some(&buf[..len])
     }
 
+    /// Copy the oldest item into `buf` and return its length, or `None` if the ring is empty.
+    fn copy_oldest<E>(&self, buf: &mut [u8]) -> Result<Option<usize>, Error<E>> {
+        match (self.oldest_len(), self.peek_into(buf)) {
+            (Some(len), None) => Err(Error::BufferTooSmall(len)),
+            (len, _) => Ok(len),
+        }
+    }
+
     /// Discard the oldest item without copying it. Does nothing if the ring is empty.
     pub fn discard_oldest(&mut self) {
         if let Some(len) = self.oldest_len() {
@@ -250,10 +258,9 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let Some(data) = self.ram.peek_into(scratch) else {
+        let Some(len) = self.ram.copy_oldest(scratch)? else {
             return Ok(false);
         };
-        let len = data.len();
         self.storage.push(&scratch[..len], allow_overwrite).await?;
         self.ram.discard_oldest();
         Ok(true)
@@ -287,8 +294,7 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
-        if let Some(len) = len {
+        if let Some(len) = self.ram.copy_oldest(data_buffer)? {
             self.ram.discard_oldest();
             return Ok(Some(&mut data_buffer[..len]));
         }
@@ -311,8 +317,7 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
-        if let Some(len) = len {
+        if let Some(len) = self.ram.copy_oldest(data_buffer)? {
             return Ok(Some(&mut data_buffer[..len]));
         }
         Ok(None)
@@ -440,9 +445,7 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let len = self
-            .ring
-            .lock(|r| r.borrow().peek_into(scratch).map(|s| s.len()));
+        let len = self.ring.lock(|r| r.borrow().copy_oldest(scratch))?;
         let Some(len) = len else {
             return Ok(false);
         };
-- 
2.43.0


From d3463059192d79fc09d93b45448a10c04c6da7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:54 +0000
Subject: [PATCH 14/20] fix: draining the shared ring does not lose an item
 when the pushed one was evicted meanwhile

---
 src/queue/buffered.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index ce1ae40..a2aa3a8 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -47,6 +47,8 @@ struct RamRing<const N: usize> {
     /// Total bytes occupied (length prefixes + data).
     used: usize,
     item_count: usize,
+    /// Number of items discarded so far (wrapping). As long as it stays the same, so does the oldest item.
+    discarded: usize,
 }
 
 impl<const N: usize> RamRing<N> {
@@ -58,6 +60,7 @@ impl<const N: usize> RamRing<N> {
             write_pos: 0,
             used: 0,
             item_count: 0,
+            discarded: 0,
         }
     }
 
@@ -154,6 +157,7 @@ impl<const N: usize> RamRing<N> {
             self.read_pos = (self.read_pos + 2 + len) % N;
             self.used -= 2 + len;
             self.item_count -= 1;
+            self.discarded = self.discarded.wrapping_add(1);
         }
     }
 
@@ -445,12 +449,22 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let len = self.ring.lock(|r| r.borrow().copy_oldest(scratch))?;
-        let Some(len) = len else {
+        let (len, discarded) = self.ring.lock(|r| {
+            let r = r.borrow();
+            (r.copy_oldest(scratch), r.discarded)
+        });
+        let Some(len) = len? else {
             return Ok(false);
         };
         storage.push(&scratch[..len], allow_overwrite).await?;
-        self.ring.lock(|r| r.borrow_mut().discard_oldest());
+        self.ring.lock(|r| {
+            let mut r = r.borrow_mut();
+            // An enqueue during the push may have evicted the item already.
+            // Then the now oldest item has not been pushed yet.
+            if r.discarded == discarded {
+                r.discard_oldest();
+            }
+        });
         Ok(true)
     }
 
-- 
2.43.0


From 5ec3ebc8e01f5432a3f62dfe9f6eb26733002d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:03 +0000
Subject: [PATCH 15/20] fix: heapless string keys report a too small buffer as
 such

---
 src/heapless_09_impl.rs | 2 +-
 src/heapless_impl.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heapless_09_impl.rs b/src/heapless_09_impl.rs
index 43d11d6..49490ec 100644
--- a/src/heapless_09_impl.rs
+++ b/src/heapless_09_impl.rs
@@ -77,7 +77,7 @@ impl<LenType: heapless_09::LenType, const CAP: usize> Key for String<CAP, LenTyp
         }
 
         if buffer.len() < self.len() + 2 {
-            return Err(SerializationError::InvalidFormat);
+            return Err(SerializationError::BufferTooSmall);
         }
 
         buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
diff --git a/src/heapless_impl.rs b/src/heapless_impl.rs
index d22d487..b5dcc4b 100644
--- a/src/heapless_impl.rs
+++ b/src/heapless_impl.rs
@@ -78,7 +78,7 @@ impl<const CAP: usize> Key for String<CAP> {
         }
 
         if buffer.len() < self.len() + 2 {
-            return Err(SerializationError::InvalidFormat);
+            return Err(SerializationError::BufferTooSmall);
         }
 
         buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
-- 
2.43.0


From 42386fd68e43326daad523aa66280f0a144e1c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:18 +0000
Subject: [PATCH 16/20] fix: iterating a map does not skip an item that could
 not be read

---
 src/item.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 6434a23..0efcf0c 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -597,10 +597,14 @@ impl ItemIter {
         let mut data_buffer = Some(data_buffer);
         while let (Some(header), address) = self.header.next(flash).await? {
             let buffer = data_buffer.take().unwrap();
-            match header
+            // If the item cannot be read, the next call has to start with it again
+            let next_address = core::mem::replace(&mut self.header.current_address, address);
+            let item = header
                 .read_item(flash, buffer, address, self.header.end_address)
-                .await?
-            {
+                .await?;
+            self.header.current_address = next_address;
+
+            match item {
                 MaybeItem::Corrupted(_, buffer) | MaybeItem::Erased(_, buffer) => {
                     data_buffer.replace(buffer);
                 }
-- 
2.43.0


From 31c2170fa7b1cf66b2c325fbe9bb143ac71725d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:59 +0000
Subject: [PATCH 17/20] fix: iterating a map does not skip a page whose state
 could not be read

---
 src/map.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 6a8142e..830f8c9 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -1094,29 +1094,27 @@ impl<K: Key, S: NorFlash, C: CacheImpl<K>> MapItemIter<'_, K, S, C> {
 
             // The current page is done, we need to find the next page
             // Find next page which is not open, update `self.current_iter`
+            // If this gets interrupted, the next call has to start from the current page again
+            let mut page_index = self.current_page_index;
             loop {
-                self.current_page_index = self.storage.inner.next_page(self.current_page_index);
+                page_index = self.storage.inner.next_page(page_index);
 
                 // We've looped back to the first page, which means all pages are checked, there's nothing left so we return None
-                if self.current_page_index == self.first_page {
+                if page_index == self.first_page {
                     return Ok(None);
                 }
 
-                match self
-                    .storage
-                    .inner
-                    .get_page_state_cached(self.current_page_index)
-                    .await
-                {
+                match self.storage.inner.get_page_state_cached(page_index).await {
                     Ok(PageState::Closed | PageState::PartialOpen) => {
+                        self.current_page_index = page_index;
                         self.current_iter = ItemIter::new(
                             calculate_page_address::<S>(
                                 self.storage.inner.flash_range.clone(),
-                                self.current_page_index,
+                                page_index,
                             ) + S::WORD_SIZE as u32,
                             calculate_page_end_address::<S>(
                                 self.storage.inner.flash_range.clone(),
-                                self.current_page_index,
+                                page_index,
                             ) - S::WORD_SIZE as u32,
                         );
                         break;
-- 
2.43.0


From a1b4e1f94bf6826457ee038fbdc167874a854436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:11 +0000
Subject: [PATCH 18/20] fix: configurations with a reversed range or huge pages
 give an error instead of panicking

---
 src/map.rs       | 3 ++-
 src/queue/mod.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 830f8c9..98fea8c 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -45,7 +45,8 @@ impl<S: NorFlash> MapConfig<S> {
             return Err(MapConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 2 pages are used
-        if flash_range.end - flash_range.start < S::ERASE_SIZE as u32 * 2 {
+        let range_length = flash_range.end.saturating_sub(flash_range.start);
+        if (range_length as u64) < S::ERASE_SIZE as u64 * 2 {
             return Err(MapConfigError::RangeTooSmall);
         }
 
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index f22d7b9..2e07fee 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -39,7 +39,8 @@ impl<S: NorFlash> QueueConfig<S> {
             return Err(QueueConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 1 page is used
-        if flash_range.end - flash_range.start < (S::ERASE_SIZE as u32) {
+        let range_length = flash_range.end.saturating_sub(flash_range.start);
+        if (range_length as u64) < S::ERASE_SIZE as u64 {
             return Err(QueueConfigError::RangeTooSmall);
         }
 
-- 
2.43.0


From c9dd2ea68f220f4816922c47ac1458ba4a3405c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 19/20] fix: a key pointer cache without room for keys does not
 panic

---
 src/cache/key_pointers.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cache/key_pointers.rs b/src/cache/key_pointers.rs
index 726eec1..1c67c5a 100644
--- a/src/cache/key_pointers.rs
+++ b/src/cache/key_pointers.rs
@@ -130,9 +130,11 @@ pub(crate) struct TrackedKeyPointers<'a, KEY: Eq> {
 
 impl<'a, KEY: Eq> TrackedKeyPointers<'a, KEY> {
     fn insert_front(&mut self, value: (KEY, NonZeroU32)) {
-        let len = self.key_pointers.len();
-        self.key_pointers[len - 1] = Some(value);
-        move_to_front(self.key_pointers, len - 1);
+        // A cache without any room for keys has no last element
+        if let Some(last) = self.key_pointers.last_mut() {
+            *last = Some(value);
+            self.key_pointers.rotate_right(1);
+        }
     }
 }
 
-- 
2.43.0


From c7d839fcb53d6f9be66147065ad2a27d4860541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:47 +0000
Subject: [PATCH 20/20] fix: a new item cannot complete the header of an
 interrupted push

---
 src/item.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 0efcf0c..82da63e 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -641,15 +641,18 @@ impl ItemHeaderIter {
     /// Traverse headers until the callback returns false. If the callback returns true,
     /// the element is skipped and traversal continues.
     ///
-    /// If the end of the headers is reached, a `None` item header is returned.
+    /// If the end of the headers is reached, a `None` item header is returned together with the address of the
+    /// first spot that is free for a new item.
     pub(crate) async fn traverse<S: NorFlash>(
         &mut self,
         flash: &mut S,
         callback: impl Fn(&ItemHeader, u32) -> bool,
     ) -> Result<(Option<ItemHeader>, u32), Error<S::Error>> {
+        let mut corrupted_end = 0;
         loop {
             match ItemHeader::read_new(flash, self.current_address, self.end_address).await {
                 Ok(Some(header)) => {
+                    corrupted_end = 0;
                     let next_address = header.next_item_address::<S>(self.current_address);
                     if callback(&header, self.current_address) {
                         self.current_address = next_address;
@@ -660,9 +663,12 @@ impl ItemHeaderIter {
                     }
                 }
                 Ok(None) => {
-                    return Ok((None, self.current_address));
+                    // The erased end of a partially written header is not free, because
+                    // a new item put there could complete that header by accident
+                    return Ok((None, self.current_address.max(corrupted_end)));
                 }
                 Err(Error::Corrupted { .. }) => {
+                    corrupted_end = ItemHeader::data_address::<S>(self.current_address);
                     self.current_address += S::WORD_SIZE as u32;
                 }
                 Err(e) => return Err(e),
-- 
2.43.0

