From bf9d1f494ec9d2892be7f6fef4cfb8ad0dc3e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 01/23] fix: forward only the ancillary data that was received

The control buffer kept its full size when a message carried no or fewer
descriptors, so the controller forwarded stale bytes: sendmsg failed with
EINVAL, the message was lost and the destination was dropped.
---
 ipmb/src/platform/linux/encoded_message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 18c45ab..3518ce6 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -81,6 +81,9 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
+            // Forward only the ancillary data that was really received
+            control_data.truncate(hdr.msg_controllen as _);
+
             // parse
             let mut objects = vec![];
 
-- 
2.43.0


From f3ebc4d97489c6a70eb2dfba860ae24b61ee6a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 02/23] fix: receive every descriptor a message can carry

More than four objects and regions truncated the ancillary data: the sender
was disconnected, the message lost and the descriptors leaked.
---
 ipmb/src/platform/linux/encoded_message.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 3518ce6..97b6eda 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -58,7 +58,7 @@ impl EncodedMessage {
 
             let meta = Meta {
                 iov_len: r as _,
-                control_len: 32, // TODO: How to peek this?
+                control_len: libc::CMSG_SPACE((SCM_MAX_FD * mem::size_of::<RawFd>()) as _),
             };
 
             // recv payload
@@ -74,10 +74,7 @@ impl EncodedMessage {
 
             r = libc::recvmsg(local.0.as_raw(), &mut hdr, 0);
             // When remote disconnected, recvmsg returns 0
-            if r <= 0
-                || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
-                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
-            {
+            if r <= 0 {
                 return Err(Error::Disconnect);
             }
 
@@ -101,6 +98,13 @@ impl EncodedMessage {
                 }
             }
 
+            // Checked after taking ownership of the received descriptors
+            if (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
+                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
+            {
+                return Err(Error::Disconnect);
+            }
+
             let version_ptr = iov_data.as_ptr() as *const u32;
             let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
             if magic != 0xFF {
@@ -180,6 +184,9 @@ impl EncodedMessage {
     }
 }
 
+/// Maximum number of descriptors the kernel passes in one message
+const SCM_MAX_FD: usize = 253;
+
 struct Meta {
     iov_len: u32,
     control_len: u32,
-- 
2.43.0


From de3f04bfba174eb76755a7b6d6c59216c0e2dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 03/23] fix: mark every descriptor close-on-exec

---
 ipmb/src/platform/linux.rs                 | 8 ++++++--
 ipmb/src/platform/linux/encoded_message.rs | 2 +-
 ipmb/src/platform/linux/io_mul.rs          | 4 ++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 77cce29..b4fd5f2 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -321,8 +321,12 @@ impl IoHub {
                 if let Some(ref listener) = self.listener {
                     if ev.u64 == listener.as_raw() as u64 {
                         unsafe {
-                            let fd =
-                                libc::accept(listener.as_raw(), ptr::null_mut(), ptr::null_mut());
+                            let fd = libc::accept4(
+                                listener.as_raw(),
+                                ptr::null_mut(),
+                                ptr::null_mut(),
+                                libc::SOCK_CLOEXEC,
+                            );
                             if fd != -1 {
                                 let local = Local(Fd::from_raw(fd));
                                 let _ = libc::setsockopt(
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 97b6eda..43c0785 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -72,7 +72,7 @@ impl EncodedMessage {
 
             hdr.msg_flags = 0;
 
-            r = libc::recvmsg(local.0.as_raw(), &mut hdr, 0);
+            r = libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC);
             // When remote disconnected, recvmsg returns 0
             if r <= 0 {
                 return Err(Error::Disconnect);
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index df3d8ca..f9eb9f8 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -9,13 +9,13 @@ pub struct IoMultiplexing {
 impl IoMultiplexing {
     pub fn new() -> Self {
         let fd = unsafe {
-            let fd = libc::epoll_create1(0);
+            let fd = libc::epoll_create1(libc::EPOLL_CLOEXEC);
             assert_ne!(fd, -1);
             Fd::from_raw(fd)
         };
 
         let waker_fd = unsafe {
-            let efd = libc::eventfd(0, 0);
+            let efd = libc::eventfd(0, libc::EFD_CLOEXEC);
             assert_ne!(efd, -1);
             Fd::from_raw(efd)
         };
-- 
2.43.0


From ad3efe06ab5762c9c89a6763b31b3a4a0ad67702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 04/23] fix: validate received frames and memory region objects

---
 ipmb/src/platform/linux.rs                 | 10 ++++
 ipmb/src/platform/linux/encoded_message.rs | 53 ++++++++++++++--------
 ipmb/src/platform/mod.rs                   | 24 ++++++++--
 3 files changed, 64 insertions(+), 23 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index b4fd5f2..74e7f29 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -36,6 +36,16 @@ impl MemoryRegion {
             Some(fd)
         }
     }
+
+    pub(crate) fn obj_size(obj: &Object) -> Result<u64, Error> {
+        unsafe {
+            let mut stat: libc::stat = mem::zeroed();
+            if libc::fstat(obj.as_raw(), &mut stat) == -1 {
+                return Err(Error::IoError(io::Error::last_os_error()));
+            }
+            Ok(u64::try_from(stat.st_size).unwrap_or(0))
+        }
+    }
 }
 
 impl platform::MappedRegion {
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 43c0785..33b8939 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -105,8 +105,11 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
-            let version_ptr = iov_data.as_ptr() as *const u32;
-            let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
+            // The buffer is padded, only r bytes of it were received
+            let mut frame = &iov_data[..r as usize];
+
+            let [magic, major, minor, patch] =
+                take_u32(&mut frame).ok_or(Error::Disconnect)?.to_ne_bytes();
             if magic != 0xFF {
                 return Err(Error::VersionMismatch(Version((0, 0, 0)), None));
             }
@@ -116,31 +119,29 @@ impl EncodedMessage {
                 return Err(Error::VersionMismatch(remote_version, None));
             }
 
-            let selector_size_ptr = version_ptr.offset(1);
-            let selector_size = *selector_size_ptr;
-            let selector_ptr = selector_size_ptr.offset(1) as *const u8;
+            let selector_data = take_block(&mut frame).ok_or(Error::Disconnect)?;
+            let selector: Selector = decode(selector_data)?;
+
+            let payload = take_block(&mut frame).ok_or(Error::Disconnect)?;
+            let payload_data = slice::from_raw_parts(payload.as_ptr(), payload.len());
 
-            // TODO: Check size
-            let selector: Selector =
-                decode(slice::from_raw_parts(selector_ptr, selector_size as _))?;
+            let object_count = objects
+                .len()
+                .checked_sub(selector.memory_region_count as usize)
+                .ok_or(Error::Disconnect)?;
 
-            let memory_regions: Vec<_> = objects
-                .drain((objects.len() - selector.memory_region_count as usize)..)
+            let memory_regions = objects
+                .drain(object_count..)
                 .map(|obj| {
-                    let r = MemoryRegion::from_object(obj);
+                    let r = MemoryRegion::try_from_object(obj)?;
                     r.ref_count_inner(-1);
-                    r
+                    Ok(r)
                 })
-                .collect();
-
-            let payload_size_ptr = selector_ptr.offset(selector_size.align4() as _) as *const u32;
+                .collect::<Result<Vec<_>, Error>>()?;
 
             Ok(Self {
                 selector,
-                payload_data: slice::from_raw_parts(
-                    payload_size_ptr.offset(1) as *const u8,
-                    *payload_size_ptr as _,
-                ),
+                payload_data,
                 iov_data,
                 control_data,
                 objects,
@@ -184,6 +185,20 @@ impl EncodedMessage {
     }
 }
 
+fn take_u32(frame: &mut &[u8]) -> Option<u32> {
+    let (head, tail) = frame.split_first_chunk::<4>()?;
+    *frame = tail;
+    Some(u32::from_ne_bytes(*head))
+}
+
+/// Take a length-prefixed block and the padding behind it
+fn take_block<'a>(frame: &mut &'a [u8]) -> Option<&'a [u8]> {
+    let size = take_u32(frame)? as usize;
+    let block = frame.get(..size)?;
+    *frame = frame.get(size.align4()..)?;
+    Some(block)
+}
+
 /// Maximum number of descriptors the kernel passes in one message
 const SCM_MAX_FD: usize = 253;
 
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 6a8d8b6..2dd16f0 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -48,7 +48,7 @@ impl Drop for MemoryRegion {
 
 impl MemoryRegion {
     pub fn clone(&self) -> io::Result<Self> {
-        self.object().clone().map(Self::from_object)
+        Self::try_from_object(self.object().clone()?).map_err(io::Error::other)
     }
 }
 
@@ -88,9 +88,20 @@ impl MemoryRegion {
     }
 
     pub fn from_object(obj: Object) -> Self {
+        Self::try_from_object(obj).expect("MemoryRegion::from_object")
+    }
+
+    pub(crate) fn try_from_object(obj: Object) -> Result<Self, Error> {
+        // Accessing a mapping beyond the end of the object would be fatal
+        #[cfg(target_os = "linux")]
+        let object_size = Self::obj_size(&obj)?;
+        #[cfg(target_os = "linux")]
+        if object_size < Self::header_length() as u64 {
+            return Err(Error::MemoryRegionMapping);
+        }
+
         let mr = unsafe {
-            let header = MappedRegion::from_object(&obj, 0, Self::header_length())
-                .expect("MappedRegion::from_object");
+            let header = MappedRegion::from_object(&obj, 0, Self::header_length())?;
 
             let buffer_size = header
                 .as_slice()
@@ -99,6 +110,11 @@ impl MemoryRegion {
                 .cast::<u64>()
                 .read_unaligned();
 
+            #[cfg(target_os = "linux")]
+            if buffer_size > object_size - Self::header_length() as u64 {
+                return Err(Error::MemoryRegionMapping);
+            }
+
             Self {
                 header,
                 buffer_size,
@@ -108,7 +124,7 @@ impl MemoryRegion {
         };
         mr.ref_count_inner(1);
 
-        mr
+        Ok(mr)
     }
 
     pub fn object(&self) -> &Object {
-- 
2.43.0


From 45bf1de556657edbd300b7764f8be615b7e9c352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 05/23] fix: tell a peer with an incompatible version about it

---
 ipmb/src/platform/linux/encoded_message.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 33b8939..7f723dc 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -116,7 +116,9 @@ impl EncodedMessage {
             let remote_version = Version((major, minor, patch));
 
             if !version().compatible(remote_version) {
-                return Err(Error::VersionMismatch(remote_version, None));
+                // The last descriptor of a connect message is the way to reply
+                let reply = objects.pop().map(Remote::new);
+                return Err(Error::VersionMismatch(remote_version, reply));
             }
 
             let selector_data = take_block(&mut frame).ok_or(Error::Disconnect)?;
-- 
2.43.0


From af36669df1008afb88b8f98e9f8992eabe520b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 06/23] fix: rejoin instead of panicking after an unreadable
 frame

---
 ipmb/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 4f17f2b..02501d6 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -283,7 +283,11 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                 continue;
                             }
                         }
-                        Err(Error::Disconnect) => {
+                        Err(Error::Timeout) => {
+                            break Err(RecvError::Timeout);
+                        }
+                        // The connection is not usable anymore, whatever the reason
+                        Err(_) => {
                             let epoch = *epoch;
                             drop(io_hub_guard);
                             drop(rule);
@@ -322,10 +326,6 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                 Rule::Server { .. } => continue,
                             }
                         }
-                        Err(Error::Timeout) => {
-                            break Err(RecvError::Timeout);
-                        }
-                        Err(_) => unreachable!(),
                     }
                 }
                 Rule::Server {
-- 
2.43.0


From d6f028a093ac5fb030e54a74fb229ba74625dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 07/23] fix: accept every time to live and drop messages which
 outlived it

---
 ipmb/src/bus_controller.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index e5eb1db..c1fb1f1 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -13,6 +13,9 @@ use std::{
 };
 use type_uuid::TypeUuid;
 
+/// Longer times to live are as good as this one, and cannot be added to an `Instant`
+const MAX_TTL: Duration = Duration::from_secs(1000 * 365 * 24 * 60 * 60);
+
 pub struct BusController {
     label: Label,
     token: String,
@@ -71,18 +74,19 @@ impl BusController {
 
                 if let Some(remain) = remain {
                     if !remain.selector.ttl.is_zero() {
-                        self.message_buffer
-                            .push((now + remain.selector.ttl, remain));
+                        let ttl = remain.selector.ttl.min(MAX_TTL);
+                        self.message_buffer.push((now + ttl, remain));
                     }
                 } else if endpoint_connected && !self.message_buffer.is_empty() {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
 
                     for (expire, msg) in message_buffer.drain(..) {
+                        if expire <= now {
+                            continue;
+                        }
                         let (remain, _) = self.handle_message(msg);
                         if let Some(remain) = remain {
-                            if expire > now {
-                                self.message_buffer_swap.push((expire, remain));
-                            }
+                            self.message_buffer_swap.push((expire, remain));
                         }
                     }
 
-- 
2.43.0


From 93647e4593ef8a5a57e86c0078fba5e18da602f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 08/23] fix: refuse to map ranges outside of a memory region

---
 ipmb-ffi/src/lib.rs      |  5 ++++-
 ipmb/src/platform/mod.rs | 33 ++++++++++++++++++++++++---------
 ipmb/src/util/mod.rs     | 11 ++++++-----
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index c950e0a..b93ce07 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -406,7 +406,10 @@ pub unsafe extern "C" fn ipmb_memory_region_map(
     if size < 0 {
         region.map(offset..)
     } else {
-        region.map(offset..offset + size as usize)
+        let Some(end) = offset.checked_add(size as usize) else {
+            return ptr::null_mut();
+        };
+        region.map(offset..end)
     }
     .map(|v| {
         if !real_size.is_null() {
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 2dd16f0..497f90c 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -61,12 +61,11 @@ impl MemoryRegion {
     }
 
     pub fn new(size: usize) -> Option<Self> {
-        let real_size = Self::header_length() + size;
+        let real_size = Self::header_length().checked_add(size)?;
         let obj = Self::obj_new(real_size)?;
 
         unsafe {
-            let mut header = MappedRegion::from_object(&obj, 0, Self::header_length())
-                .expect("MappedRegion::from_object");
+            let mut header = MappedRegion::from_object(&obj, 0, Self::header_length()).ok()?;
 
             let rc: &AtomicU32 = mem::transmute(header.as_slice().as_ptr());
             rc.store(1, Ordering::SeqCst);
@@ -132,10 +131,16 @@ impl MemoryRegion {
     }
 
     pub fn map(&mut self, range: impl RangeBounds<usize>) -> Result<&mut [u8], Error> {
-        let (offset, size) = util::range_to_offset_size(range);
-        let size = size.unwrap_or_else(|| {
-            usize::try_from(self.buffer_size() - offset as u64).unwrap_or(usize::MAX)
-        });
+        let (offset, size) =
+            util::range_to_offset_size(range).ok_or(Error::MemoryRegionMapping)?;
+        let available = self
+            .buffer_size()
+            .checked_sub(offset as u64)
+            .ok_or(Error::MemoryRegionMapping)?;
+        let size = size.unwrap_or_else(|| usize::try_from(available).unwrap_or(usize::MAX));
+        if size as u64 > available {
+            return Err(Error::MemoryRegionMapping);
+        }
         let real_offset = Self::header_length() + offset;
 
         let need_remap = self
@@ -185,7 +190,7 @@ impl Drop for MappedRegion {
             let adjustment_for_alignment = self.offset - aligned_offset;
             Self::unmap(
                 self.buffer.as_mut_ptr().sub(adjustment_for_alignment) as _,
-                adjustment_for_alignment + self.buffer.len(),
+                mapping_size(adjustment_for_alignment, self.buffer.len()),
             );
         }
     }
@@ -199,7 +204,11 @@ impl MappedRegion {
     ) -> Result<Self, Error> {
         let aligned_offset = trunc_page(offset);
         let adjustment_for_alignment = offset - aligned_offset;
-        let addr = Self::map(obj, aligned_offset, adjustment_for_alignment + size)?;
+        let addr = Self::map(
+            obj,
+            aligned_offset,
+            mapping_size(adjustment_for_alignment, size),
+        )?;
 
         Ok(Self {
             offset,
@@ -219,6 +228,12 @@ impl MappedRegion {
     }
 }
 
+/// An empty mapping is not possible, even if nothing of it is used
+#[inline]
+fn mapping_size(adjustment_for_alignment: usize, size: usize) -> usize {
+    (adjustment_for_alignment + size).max(1)
+}
+
 #[inline]
 fn trunc_page(size: usize) -> usize {
     size & !(page_mask())
diff --git a/ipmb/src/util/mod.rs b/ipmb/src/util/mod.rs
index 326e85b..9fd59ae 100644
--- a/ipmb/src/util/mod.rs
+++ b/ipmb/src/util/mod.rs
@@ -58,17 +58,18 @@ pub fn rand_string(length: usize) -> String {
         .collect()
 }
 
-pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> (usize, Option<usize>) {
+/// Returns `None` if the range is reversed or not representable
+pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> Option<(usize, Option<usize>)> {
     let offset = match bounds.start_bound() {
         Bound::Included(&bound) => bound,
-        Bound::Excluded(&bound) => bound + 1,
+        Bound::Excluded(&bound) => bound.checked_add(1)?,
         Bound::Unbounded => 0,
     };
     let size = match bounds.end_bound() {
-        Bound::Included(&bound) => Some(bound + 1 - offset),
-        Bound::Excluded(&bound) => Some(bound - offset),
+        Bound::Included(&bound) => Some(bound.checked_add(1)?.checked_sub(offset)?),
+        Bound::Excluded(&bound) => Some(bound.checked_sub(offset)?),
         Bound::Unbounded => None,
     };
 
-    (offset, size)
+    Some((offset, size))
 }
-- 
2.43.0


From 981c47b941486e6f75b43fa58c18d4067e593319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 09/23] fix: never free a region of the registry which is still
 held

---
 ipmb/src/memory_registry.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/memory_registry.rs b/ipmb/src/memory_registry.rs
index 6a17adb..f12cbeb 100644
--- a/ipmb/src/memory_registry.rs
+++ b/ipmb/src/memory_registry.rs
@@ -34,7 +34,8 @@ impl MemoryRegistry {
     ) -> Option<MemoryRegion> {
         let now = Instant::now();
 
-        for (_, rs) in self.inner.range_mut(min_size..min_size * 2) {
+        let max_size = min_size.saturating_mul(2).saturating_sub(1).max(min_size);
+        for (_, rs) in self.inner.range_mut(min_size..=max_size) {
             for r in rs {
                 if r.region.ref_count_inner(0) == 1 && tag == r.tag.as_deref() {
                     r.last_alloc = now;
@@ -73,7 +74,8 @@ impl MemoryRegistry {
                     r.guard = Guard { free: None };
                 }
 
-                should_retain
+                // Someone still holds the region, it's too early to call back
+                should_retain || r.guard.free.is_some()
             });
             !rs.is_empty()
         });
-- 
2.43.0


From d3ecf45ccfa16ff880724731ae9d3d4cdbcf467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 10/23] fix: allow a null pointer for an empty message

---
 ipmb-ffi/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index b93ce07..74d730b 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -282,7 +282,11 @@ pub unsafe extern "C" fn ipmb_message(
     ptr: *const u8,
     size: u32,
 ) -> Message {
-    let data = slice::from_raw_parts(ptr, size as _).to_owned();
+    let data = if size == 0 {
+        vec![]
+    } else {
+        slice::from_raw_parts(ptr, size as _).to_owned()
+    };
 
     ipmb::Message::<ipmb::BytesMessage>::new(selector.into(), ipmb::BytesMessage { format, data })
         .into()
-- 
2.43.0


From ee9029700c1ce2c53d6954fc06dc14eea34781ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 11/23] fix: honour timeouts exactly

---
 ipmb/src/lib.rs                   |  5 +++-
 ipmb/src/platform/linux.rs        |  9 ++++---
 ipmb/src/platform/linux/io_mul.rs | 44 ++++++++++++++++++++-----------
 ipmb/src/platform/mod.rs          |  3 +--
 ipmb/src/util/mod.rs              | 14 +++++++++-
 5 files changed, 53 insertions(+), 22 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 02501d6..f0ea34d 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -203,7 +203,10 @@ pub struct EndpointReceiver<R> {
 
 impl<'de, R: MessageBox> EndpointReceiver<R> {
     pub fn recv(&mut self, timeout: Option<Duration>) -> Result<Message<R>, RecvError> {
+        let deadline = util::deadline(timeout);
+
         loop {
+            let timeout = util::remaining(deadline);
             let rule = self.rule.read().unwrap();
             match &*rule {
                 Rule::Client {
@@ -413,7 +416,7 @@ impl Rule {
         im: Arc<IoMultiplexing>,
         timeout: Option<Duration>,
     ) -> Result<Self, JoinError> {
-        let end = timeout.map(|timeout| Instant::now() + timeout);
+        let end = util::deadline(timeout);
 
         macro_rules! wait {
             () => {
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 74e7f29..0280c2e 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -1,6 +1,8 @@
 use crate::{
-    message, platform, util::Align4, version, EndpointID, Error, Label, LabelOp, MemoryRegion,
-    Message, MessageBox, Object, Selector,
+    message, platform,
+    util::{self, Align4},
+    version, EndpointID, Error, Label, LabelOp, MemoryRegion, Message, MessageBox, Object,
+    Selector,
 };
 pub(crate) use encoded_message::EncodedMessage;
 use fd::Local;
@@ -303,6 +305,7 @@ impl IoHub {
         remote: Option<&Remote>,
     ) -> Result<EncodedMessage, Error> {
         let _ = remote;
+        let deadline = util::deadline(timeout);
 
         'ret: loop {
             if let Some(ref rx) = self.bus_rx {
@@ -317,7 +320,7 @@ impl IoHub {
                 }
             }
 
-            self.im.wait(&mut self.in_buffer, timeout);
+            self.im.wait(&mut self.in_buffer, deadline);
 
             if self.in_buffer.is_empty() {
                 break Err(Error::Timeout);
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index f9eb9f8..d2b0dee 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -1,5 +1,6 @@
 use super::Fd;
-use std::{ffi, mem, time::Duration};
+use crate::util;
+use std::{ffi, mem, time::Instant};
 
 pub struct IoMultiplexing {
     fd: Fd,
@@ -38,20 +39,33 @@ impl IoMultiplexing {
         }
     }
 
-    pub(crate) fn wait(&self, events: &mut Vec<libc::epoll_event>, timeout: Option<Duration>) {
-        unsafe {
-            let n = libc::epoll_wait(
-                self.fd.as_raw(),
-                events.as_mut_ptr(),
-                events.capacity() as _,
-                timeout
-                    .map(|tot| tot.as_millis() as ffi::c_int)
-                    .unwrap_or(-1),
-            );
-            if n < 1 {
-                events.clear();
-            } else {
-                events.set_len(n as _);
+    /// Wait until something is readable, `events` is empty if the deadline has passed.
+    pub(crate) fn wait(&self, events: &mut Vec<libc::epoll_event>, deadline: Option<Instant>) {
+        events.clear();
+
+        loop {
+            let remain = util::remaining(deadline);
+            // Round up, so as not to give up early
+            let millis = remain
+                .map(|remain| remain.as_nanos().div_ceil(1_000_000))
+                .map(|millis| ffi::c_int::try_from(millis).unwrap_or(ffi::c_int::MAX));
+
+            unsafe {
+                let n = libc::epoll_wait(
+                    self.fd.as_raw(),
+                    events.as_mut_ptr(),
+                    events.capacity() as _,
+                    millis.unwrap_or(-1),
+                );
+                if n > 0 {
+                    events.set_len(n as _);
+                    break;
+                }
+            }
+
+            // It may have been interrupted, or the deadline is too far away for a single wait
+            if util::remaining(deadline).is_some_and(|remain| remain.is_zero()) {
+                break;
             }
         }
     }
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 497f90c..321f7ec 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -131,8 +131,7 @@ impl MemoryRegion {
     }
 
     pub fn map(&mut self, range: impl RangeBounds<usize>) -> Result<&mut [u8], Error> {
-        let (offset, size) =
-            util::range_to_offset_size(range).ok_or(Error::MemoryRegionMapping)?;
+        let (offset, size) = util::range_to_offset_size(range).ok_or(Error::MemoryRegionMapping)?;
         let available = self
             .buffer_size()
             .checked_sub(offset as u64)
diff --git a/ipmb/src/util/mod.rs b/ipmb/src/util/mod.rs
index 9fd59ae..15e6fec 100644
--- a/ipmb/src/util/mod.rs
+++ b/ipmb/src/util/mod.rs
@@ -1,6 +1,9 @@
 use rand::Rng;
 use serde::{Deserialize, Serialize};
-use std::ops::{Bound, RangeBounds};
+use std::{
+    ops::{Bound, RangeBounds},
+    time::{Duration, Instant},
+};
 use type_uuid::Bytes;
 
 #[allow(dead_code)]
@@ -58,6 +61,15 @@ pub fn rand_string(length: usize) -> String {
         .collect()
 }
 
+/// Returns `None` to wait forever
+pub fn deadline(timeout: Option<Duration>) -> Option<Instant> {
+    timeout.and_then(|timeout| Instant::now().checked_add(timeout))
+}
+
+pub fn remaining(deadline: Option<Instant>) -> Option<Duration> {
+    deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()))
+}
+
 /// Returns `None` if the range is reversed or not representable
 pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> Option<(usize, Option<usize>)> {
     let offset = match bounds.start_bound() {
-- 
2.43.0


From 70d8635e0f1fbf2dfcfd65bea15a50f63ada3013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 12/23] fix: report a message which cannot be sent instead of
 rejoining forever

---
 ipmb-ffi/src/lib.rs                        |  1 +
 ipmb/src/errors.rs                         |  2 ++
 ipmb/src/lib.rs                            |  1 +
 ipmb/src/platform/linux/encoded_message.rs | 29 ++++++++++++++++------
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index 74d730b..676ad4c 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -164,6 +164,7 @@ pub unsafe extern "C" fn ipmb_send(sender: &mut Sender, message: Message) -> Err
         Err(ipmb::SendError::VersionMismatch(_)) => ERROR_CODE_VERSION_MISMATCH,
         Err(ipmb::SendError::TokenMismatch) => ERROR_CODE_TOKEN_MISMATCH,
         Err(ipmb::SendError::PermissionDenied) => ERROR_CODE_PERMISSION_DENIED,
+        Err(ipmb::SendError::IoError(_)) => ERROR_CODE_UNKNOWN,
     }
 }
 
diff --git a/ipmb/src/errors.rs b/ipmb/src/errors.rs
index 1e7a5e2..97fffa2 100644
--- a/ipmb/src/errors.rs
+++ b/ipmb/src/errors.rs
@@ -56,6 +56,8 @@ pub enum SendError {
     TokenMismatch,
     #[error("permission denied")]
     PermissionDenied,
+    #[error("io error: {0}")]
+    IoError(#[from] std::io::Error),
 }
 
 impl From<JoinError> for SendError {
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index f0ea34d..879d47d 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -176,6 +176,7 @@ impl<T: MessageBox> EndpointSender<T> {
                             Rule::Server { .. } => {}
                         }
                     }
+                    Err(Error::IoError(err)) => break Err(SendError::IoError(err)),
                     Err(_) => unreachable!(),
                     Ok(_) => break Ok(()),
                 },
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 7f723dc..334a7ad 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -174,15 +174,28 @@ impl EncodedMessage {
         }
 
         let remote_guard = remote.lock();
-        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) };
-        if r == -1 {
-            for r in self.memory_regions.iter() {
-                r.ref_count_inner(-1);
+        let err = loop {
+            let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, libc::MSG_NOSIGNAL) };
+            if r != -1 {
+                return Ok(());
             }
-            log::error!("sendmsg: {}", io::Error::last_os_error());
-            Err(Error::Disconnect)
-        } else {
-            Ok(())
+            let err = io::Error::last_os_error();
+            if err.kind() != io::ErrorKind::Interrupted {
+                break err;
+            }
+        };
+        drop(remote_guard);
+
+        for r in self.memory_regions.iter() {
+            r.ref_count_inner(-1);
+        }
+        log::error!("sendmsg: {}", err);
+        match err.raw_os_error() {
+            // It's the message which cannot be sent, the connection is fine
+            Some(libc::EMSGSIZE | libc::EINVAL | libc::ETOOMANYREFS | libc::ENOBUFS) => {
+                Err(Error::IoError(err))
+            }
+            _ => Err(Error::Disconnect),
         }
     }
 }
-- 
2.43.0


From 4ee44340fb74c608a2efc21e6900db3b1b1032c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 13/23] fix: accept identifiers containing nul

---
 ipmb/src/platform/linux.rs | 41 ++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 0280c2e..a3d1e7b 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -9,7 +9,7 @@ use fd::Local;
 pub use fd::{Fd, Remote};
 pub(crate) use io_mul::IoMultiplexing;
 use std::{
-    ffi, io, mem,
+    io, mem,
     os::fd::RawFd,
     ptr, slice,
     sync::{mpsc, Arc, Once},
@@ -91,20 +91,25 @@ pub(crate) fn page_mask() -> usize {
 }
 
 // we use abstract socket address
-fn identifier_to_socket_addr(identifier: &str) -> libc::sockaddr_un {
-    let identifier = ffi::CString::new(identifier).unwrap();
+fn identifier_to_socket_addr(identifier: &str) -> (libc::sockaddr_un, libc::socklen_t) {
     let mut addr = libc::sockaddr_un {
         sun_family: libc::AF_UNIX as _,
         sun_path: [0; 108],
     };
-    unsafe {
-        libc::strncpy(
-            addr.sun_path[1..].as_mut_ptr(),
-            identifier.as_ptr() as _,
-            addr.sun_path.len() - 2,
-        );
+    let mut len = mem::size_of_val(&addr);
+
+    let identifier = identifier.as_bytes();
+    let identifier = &identifier[..identifier.len().min(addr.sun_path.len() - 2)];
+    for (dst, src) in addr.sun_path[1..].iter_mut().zip(identifier) {
+        *dst = *src as _;
+    }
+
+    // The address is padded with nul, which must not be confused with a nul of the identifier
+    if identifier.contains(&0) {
+        len = mem::offset_of!(libc::sockaddr_un, sun_path) + 1 + identifier.len();
     }
-    addr
+
+    (addr, len as _)
 }
 
 pub(crate) fn look_up(
@@ -120,13 +125,9 @@ pub(crate) fn look_up(
         }
         let fd = Fd::from_raw(fd);
 
-        let addr = identifier_to_socket_addr(identifier);
+        let (addr, addr_len) = identifier_to_socket_addr(identifier);
 
-        let mut r = libc::connect(
-            fd.as_raw(),
-            &addr as *const _ as _,
-            mem::size_of_val(&addr) as _,
-        );
+        let mut r = libc::connect(fd.as_raw(), &addr as *const _ as _, addr_len);
         if r == -1 {
             let err = io::Error::last_os_error();
 
@@ -231,13 +232,9 @@ pub(crate) fn register(
         }
         let fd = Fd::from_raw(fd);
 
-        let addr = identifier_to_socket_addr(identifier);
+        let (addr, addr_len) = identifier_to_socket_addr(identifier);
 
-        let mut r = libc::bind(
-            fd.as_raw(),
-            &addr as *const _ as _,
-            mem::size_of_val(&addr) as _,
-        );
+        let mut r = libc::bind(fd.as_raw(), &addr as *const _ as _, addr_len);
         if r == -1 {
             let err = io::Error::last_os_error();
 
-- 
2.43.0


From 673bec561bbf801d7be7a88e39e9faa17a367f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:39 +0000
Subject: [PATCH 14/23] fix: refuse to decode lengths far beyond any message

---
 ipmb/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 879d47d..476a86b 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -73,10 +73,13 @@ pub enum SelectorMode {
     Multicast,
 }
 
+/// Upper bound of what decoding may claim, a length prefix is not trusted beyond it.
+const DECODE_LIMIT: usize = 256 << 20;
+
 pub fn decode<'de, T: Deserialize<'de>>(data: &'de [u8]) -> Result<T, Error> {
+    let config = bincode::config::standard().with_limit::<DECODE_LIMIT>();
     let (d, _): (T, _) =
-        bincode::serde::borrow_decode_from_slice(data, bincode::config::standard())
-            .map_err(Error::Decode)?;
+        bincode::serde::borrow_decode_from_slice(data, config).map_err(Error::Decode)?;
     Ok(d)
 }
 
-- 
2.43.0


From ae94f8b51df676b6698d27b7800de0091172408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:10 +0000
Subject: [PATCH 15/23] fix: refuse deeply nested label operations of a peer

---
 ipmb/src/label.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/label.rs b/ipmb/src/label.rs
index 7b079af..36015b5 100644
--- a/ipmb/src/label.rs
+++ b/ipmb/src/label.rs
@@ -1,7 +1,7 @@
-use serde::{Deserialize, Serialize};
+use serde::{de, Deserialize, Deserializer, Serialize};
 use smallvec::SmallVec;
 use smol_str::SmolStr;
-use std::{iter, ops::Not};
+use std::{cell::Cell, iter, ops::Not};
 
 #[derive(Debug, Default, Clone, Serialize, Deserialize, PartialEq)]
 pub struct Label(SmallVec<[SmolStr; 8]>);
@@ -71,9 +71,33 @@ pub enum LabelOp {
     True,
     False,
     Leaf(SmolStr),
-    Not(Box<Self>),
-    And(Box<Self>, Box<Self>),
-    Or(Box<Self>, Box<Self>),
+    Not(#[serde(deserialize_with = "nested")] Box<Self>),
+    And(
+        #[serde(deserialize_with = "nested")] Box<Self>,
+        #[serde(deserialize_with = "nested")] Box<Self>,
+    ),
+    Or(
+        #[serde(deserialize_with = "nested")] Box<Self>,
+        #[serde(deserialize_with = "nested")] Box<Self>,
+    ),
+}
+
+/// Deeper operations received from a peer are refused, they would exhaust the stack
+const MAX_DEPTH: usize = 512;
+
+thread_local! {
+    static DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+fn nested<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Box<LabelOp>, D::Error> {
+    let depth = DEPTH.get();
+    if depth >= MAX_DEPTH {
+        return Err(de::Error::custom("label operation is nested too deeply"));
+    }
+    DEPTH.set(depth + 1);
+    let op = Box::deserialize(deserializer);
+    DEPTH.set(depth);
+    op
 }
 
 impl LabelOp {
-- 
2.43.0


From ff6cbb64c42532e6be9d782233fbb5e3257f508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:29 +0000
Subject: [PATCH 16/23] fix: let a sender rejoin while the receiver waits

---
 ipmb/src/lib.rs            | 56 +++++++++++++++++++++++++++++++-------
 ipmb/src/platform/linux.rs | 12 +++++++-
 2 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 476a86b..cf9d5b5 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -15,7 +15,7 @@ use std::{
     sync::{
         mpsc,
         mpsc::{Receiver, RecvTimeoutError, Sender},
-        Arc, Mutex, RwLock,
+        Arc, LockResult, Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard,
     },
     thread,
     time::{Duration, Instant},
@@ -92,12 +92,15 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
     options: Options,
     timeout: Option<Duration>,
 ) -> Result<(EndpointSender<T>, EndpointReceiver<R>), JoinError> {
-    let rule = Arc::new(RwLock::new(Rule::join(
-        options,
-        0,
-        Arc::new(IoMultiplexing::new()),
-        timeout,
-    )?));
+    let rule = Arc::new(SharedRule {
+        rule: RwLock::new(Rule::join(
+            options,
+            0,
+            Arc::new(IoMultiplexing::new()),
+            timeout,
+        )?),
+        rejoining: Mutex::new(()),
+    });
 
     Ok((
         EndpointSender {
@@ -113,7 +116,7 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
 
 /// The sending half of endpoint, messages can be sent with [`send`](EndpointSender::send).
 pub struct EndpointSender<T> {
-    rule: Arc<RwLock<Rule>>,
+    rule: Arc<SharedRule>,
     _marker: PhantomData<T>,
 }
 
@@ -147,7 +150,17 @@ impl<T: MessageBox> EndpointSender<T> {
                         let epoch = *epoch;
                         drop(rule);
 
+                        // The receiver holds the rule while it waits, unless it is interrupted
+                        let rejoining = self.rule.rejoining.lock().unwrap();
+                        match &*self.rule.read().unwrap() {
+                            Rule::Client {
+                                im, epoch: epoch1, ..
+                            } if epoch == *epoch1 => im.wake(),
+                            _ => continue,
+                        }
+
                         let mut rule = self.rule.write().unwrap();
+                        drop(rejoining);
                         match &mut *rule {
                             Rule::Client {
                                 endpoint_id: _,
@@ -201,7 +214,7 @@ impl<T: MessageBox> EndpointSender<T> {
 /// The receiving half of endpoint, messages sent to the endpoint can be retrieved using [`recv`](EndpointReceiver::recv), dropping receiver will close underly receving kernel buffer.
 // Don't impl Clone
 pub struct EndpointReceiver<R> {
-    rule: Arc<RwLock<Rule>>,
+    rule: Arc<SharedRule>,
     _maker: PhantomData<R>,
 }
 
@@ -210,6 +223,9 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
         let deadline = util::deadline(timeout);
 
         loop {
+            // Let a sender which is about to rejoin have the rule
+            drop(self.rule.rejoining.lock().unwrap());
+
             let timeout = util::remaining(deadline);
             let rule = self.rule.read().unwrap();
             match &*rule {
@@ -291,7 +307,11 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                             }
                         }
                         Err(Error::Timeout) => {
-                            break Err(RecvError::Timeout);
+                            match util::remaining(deadline) {
+                                Some(remain) if remain.is_zero() => break Err(RecvError::Timeout),
+                                // Interrupted by a sender
+                                _ => continue,
+                            }
                         }
                         // The connection is not usable anymore, whatever the reason
                         Err(_) => {
@@ -393,6 +413,22 @@ impl<R> Drop for EndpointReceiver<R> {
     }
 }
 
+struct SharedRule {
+    rule: RwLock<Rule>,
+    /// Held by a sender which is about to replace the rule
+    rejoining: Mutex<()>,
+}
+
+impl SharedRule {
+    fn read(&self) -> LockResult<RwLockReadGuard<'_, Rule>> {
+        self.rule.read()
+    }
+
+    fn write(&self) -> LockResult<RwLockWriteGuard<'_, Rule>> {
+        self.rule.write()
+    }
+}
+
 enum Rule {
     Client {
         #[allow(dead_code)]
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index a3d1e7b..25d50ca 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -214,7 +214,10 @@ pub(crate) fn look_up(
         )?;
 
         match ack {
-            message::ConnectMessageAck::Ok(endpoint_id) => Ok((io_hub, remote, endpoint_id)),
+            message::ConnectMessageAck::Ok(endpoint_id) => {
+                io_hub.interruptible = true;
+                Ok((io_hub, remote, endpoint_id))
+            }
             message::ConnectMessageAck::ErrVersion(v) => Err(Error::VersionMismatch(v, None)),
             message::ConnectMessageAck::ErrToken => Err(Error::TokenMismatch),
         }
@@ -265,6 +268,8 @@ pub(crate) struct IoHub {
     listener: Option<Fd>,
     in_buffer: Vec<libc::epoll_event>,
     im: Arc<IoMultiplexing>,
+    /// Whether `recv` gives up when it is woken
+    interruptible: bool,
 }
 
 impl IoHub {
@@ -281,6 +286,7 @@ impl IoHub {
             listener: Some(listener),
             in_buffer: Vec::with_capacity(2),
             im,
+            interruptible: false,
         }
     }
 
@@ -293,6 +299,7 @@ impl IoHub {
             listener: None,
             in_buffer: Vec::with_capacity(2),
             im,
+            interruptible: false,
         }
     }
 
@@ -326,6 +333,9 @@ impl IoHub {
             for ev in self.in_buffer.drain(..) {
                 if ev.u64 == self.im.waker_fd.as_raw() as u64 {
                     self.im.clear_waker();
+                    if self.interruptible {
+                        break 'ret Err(Error::Timeout);
+                    }
                     continue;
                 }
                 if let Some(ref listener) = self.listener {
-- 
2.43.0


From 66a4b19fc1124253cfbeb570604ba3e9539e4c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 17/23] fix: release the memory regions of unread messages when
 a receiver goes away

---
 ipmb/src/platform/linux.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 25d50ca..ec80df4 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -384,6 +384,16 @@ impl IoHub {
     }
 }
 
+impl Drop for IoHub {
+    fn drop(&mut self) {
+        // Unread messages hold reference counts of their memory regions, nobody else releases them
+        for local in self.local_list.iter_mut() {
+            unsafe { libc::shutdown(local.0.as_raw(), libc::SHUT_RD) };
+            while EncodedMessage::from_local(local).is_ok() {}
+        }
+    }
+}
+
 impl<T: MessageBox> message::Message<T> {
     fn encode_inner(&self) -> (&'static [u8], Vec<u8>, Vec<u8>) {
         // iov data
-- 
2.43.0


From 71edbae05f681a55e917bb06535f5b293c3e3bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 18/23] fix: release the callback when alloc_with_free of the
 C++ interface fails

---
 ipmb-ffi/ipmb.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb-ffi/ipmb.cc b/ipmb-ffi/ipmb.cc
index 9ff74fe..f349d42 100644
--- a/ipmb-ffi/ipmb.cc
+++ b/ipmb-ffi/ipmb.cc
@@ -192,6 +192,8 @@ namespace ipmb {
             return std::make_tuple(MemoryRegion(region_raw),
                                Error::kSuccess);
         default:
+          // The region was not created, so nobody will call free_function
+          delete f;
           return std::make_tuple(MemoryRegion(nullptr), Error::kUnknown);
       }
     }
-- 
2.43.0


From d35e346147fbedf694782f91eac7a59e1cb094b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 19/23] fix: joining spun without regard to its timeout while
 the identifier was bound but nobody listened

---
 ipmb/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index cf9d5b5..c76dae8 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -529,7 +529,18 @@ impl Rule {
                             };
                             break rule;
                         }
-                        Err(Error::IdentifierInUse) => {}
+                        Err(Error::IdentifierInUse) => {
+                            // Someone else is registering: it will be available soon
+                            let mut wait = Duration::from_millis(10);
+                            if let Some(end) = end {
+                                let remain = end.saturating_duration_since(Instant::now());
+                                if remain.is_zero() {
+                                    return Err(JoinError::Timeout);
+                                }
+                                wait = wait.min(remain);
+                            }
+                            thread::sleep(wait);
+                        }
                         Err(Error::PermissionDenied) => {
                             permission_denied_count += 1;
                             if permission_denied_count > 5 {
-- 
2.43.0


From fd27df97116b316a0a57ef2795b42ab37d52ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 20/23] fix: joining waited forever when the controller did not
 accept connections any more

---
 ipmb/src/platform/linux.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index ec80df4..f622847 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -127,6 +127,22 @@ pub(crate) fn look_up(
 
         let (addr, addr_len) = identifier_to_socket_addr(identifier);
 
+        // Don't wait forever for a controller which has stopped accepting connections
+        let mut send_timeout = libc::timeval {
+            tv_sec: 2,
+            tv_usec: 0,
+        };
+        let set_send_timeout = |send_timeout: &libc::timeval| {
+            let _ = libc::setsockopt(
+                fd.as_raw(),
+                libc::SOL_SOCKET,
+                libc::SO_SNDTIMEO,
+                send_timeout as *const _ as _,
+                mem::size_of_val(send_timeout) as _,
+            );
+        };
+
+        set_send_timeout(&send_timeout);
         let mut r = libc::connect(fd.as_raw(), &addr as *const _ as _, addr_len);
         if r == -1 {
             let err = io::Error::last_os_error();
@@ -139,6 +155,10 @@ pub(crate) fn look_up(
                 _ => Error::IoError(err),
             });
         }
+
+        send_timeout.tv_sec = 0;
+        set_send_timeout(&send_timeout);
+
         let _ = libc::setsockopt(
             fd.as_raw(),
             libc::SOL_SOCKET,
-- 
2.43.0


From 1409a18d2bea4ae90bcc093365c1e8152ef9bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 21/23] fix: a JavaScript receive whose timeout had passed
 consumed a message, and was not rejected while messages kept coming

---
 ipmb-js/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index c83f50a..968172d 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -451,6 +451,9 @@ extern "C" fn delegate_receiver(
             DelegateAction::Close(tsfn) => local.close(env, tsfn),
             DelegateAction::CleanTimeout => local.clean_timeout(env),
             DelegateAction::Recv(r) => {
+                // An expired promise must not consume the message
+                local.clean_timeout(env);
+
                 if local.deferred_list.is_empty() {
                     local.messages.push(r);
                 } else {
-- 
2.43.0


From 9984ea24362a9d16f94a7124d6826bc58362d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 22/23] fix: closing a JavaScript receiver blocked for as long
 as messages kept coming

---
 ipmb-js/src/lib.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index 968172d..97d8a56 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -282,19 +282,21 @@ pub fn join(options: Options, timeout: Option<u32>, mut env: Env) -> Result<napi
     thread::spawn(move || loop {
         let r = receiver.recv(Some(Duration::from_millis(200)));
 
+        match guard_receiver.try_recv() {
+            Ok(_) => {
+                tsfn.destroy();
+                break;
+            }
+            Err(mpsc::TryRecvError::Disconnected) => {
+                break;
+            }
+            Err(mpsc::TryRecvError::Empty) => {}
+        }
+
         match r {
-            Err(ipmb::RecvError::Timeout) => match guard_receiver.try_recv() {
-                Ok(_) => {
-                    tsfn.destroy();
-                    break;
-                }
-                Err(mpsc::TryRecvError::Disconnected) => {
-                    break;
-                }
-                Err(mpsc::TryRecvError::Empty) => {
-                    tsfn.call(DelegateAction::CleanTimeout);
-                }
-            },
+            Err(ipmb::RecvError::Timeout) => {
+                tsfn.call(DelegateAction::CleanTimeout);
+            }
             Err(
                 ipmb::RecvError::VersionMismatch(_)
                 | ipmb::RecvError::TokenMismatch
-- 
2.43.0


From 27241d986de3e0c52fbdf7387e87c284472cf463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 23/23] fix: padding of packets disclosed uninitialised memory
 to peers

---
 ipmb/src/platform/linux.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index f622847..a1c32f5 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -499,6 +499,8 @@ fn alloc_buffer<T>(size: usize) -> Vec<u8> {
         buffer_t_size += 1;
     }
     let mut buf_t = Vec::<T>::with_capacity(buffer_t_size);
+    // What is not written, such as padding, must not disclose memory contents to peers
+    unsafe { ptr::write_bytes(buf_t.as_mut_ptr(), 0, buffer_t_size) };
 
     let buffer_size = buffer_t_size * mem::size_of::<T>();
     let buf =
-- 
2.43.0

