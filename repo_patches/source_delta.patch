From eb39167590107b12e46a41e5f2866edd064b5e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 01/36] fix: do not forward uninitialised control data on linux

A message received without attachments kept a full, uninitialised control
buffer; forwarding it to another endpoint made sendmsg fail with EINVAL, so
the message was lost and the target endpoint was removed from the bus.
---
 ipmb/src/platform/linux/encoded_message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 18c45ab..13c6431 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -80,6 +80,8 @@ impl EncodedMessage {
             {
                 return Err(Error::Disconnect);
             }
+            // Only keep the control data written by kernel, the message may be forwarded later
+            control_data.truncate(hdr.msg_controllen as _);
 
             // parse
             let mut objects = vec![];
-- 
2.43.0


From 087e56eadccaf0c5f4637ead4efd254b0ac8c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 02/36] fix: receive messages with more than 4 attachments on
 linux

The control buffer only had room for 4 fds, a message with more attachments
was truncated by the kernel and treated as a disconnect. Attachments of a
truncated message are now closed too.
---
 ipmb/src/platform/linux/encoded_message.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 13c6431..92d9b37 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -5,6 +5,9 @@ use crate::{
 use std::{io, mem, os::fd::RawFd, ptr, slice};
 use type_uuid::TypeUuid;
 
+/// The maximum number of fds which can be attached to a message, see SCM_MAX_FD of kernel.
+const SCM_MAX_FD: usize = 253;
+
 /// Message layout
 /// | version (magic__major__minor__patch)
 /// | selector_size (u32)
@@ -58,7 +61,8 @@ impl EncodedMessage {
 
             let meta = Meta {
                 iov_len: r as _,
-                control_len: 32, // TODO: How to peek this?
+                // The control length can't be peeked, always reserve for the maximum attachments
+                control_len: libc::CMSG_SPACE((SCM_MAX_FD * mem::size_of::<RawFd>()) as _),
             };
 
             // recv payload
@@ -74,10 +78,7 @@ impl EncodedMessage {
 
             r = libc::recvmsg(local.0.as_raw(), &mut hdr, 0);
             // When remote disconnected, recvmsg returns 0
-            if r <= 0
-                || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
-                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
-            {
+            if r <= 0 {
                 return Err(Error::Disconnect);
             }
             // Only keep the control data written by kernel, the message may be forwarded later
@@ -100,6 +101,12 @@ impl EncodedMessage {
                 }
             }
 
+            if (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
+                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
+            {
+                return Err(Error::Disconnect);
+            }
+
             let version_ptr = iov_data.as_ptr() as *const u32;
             let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
             if magic != 0xFF {
-- 
2.43.0


From 0c2668dab20bc2c0bef08b0b348ad16c206487e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 03/36] fix: never deliver a buffered message after its ttl

Expired messages were only dropped while handling another message, on an idle
bus an endpoint joining after the ttl still received them.
---
 ipmb/src/bus_controller.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index e5eb1db..89b71f5 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -78,11 +78,13 @@ impl BusController {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
 
                     for (expire, msg) in message_buffer.drain(..) {
+                        // The message may have expired while the bus was idle
+                        if expire <= now {
+                            continue;
+                        }
                         let (remain, _) = self.handle_message(msg);
                         if let Some(remain) = remain {
-                            if expire > now {
-                                self.message_buffer_swap.push((expire, remain));
-                            }
+                            self.message_buffer_swap.push((expire, remain));
                         }
                     }
 
-- 
2.43.0


From bbc37eae45b71663454ae43f9b267eca52b49578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 04/36] fix: accept any ttl and join timeout

Adding a very large ttl (e.g. Duration::MAX) to the current time panicked in the
bus controller thread, taking the whole bus down; join panicked likewise.
---
 ipmb/src/bus_controller.rs | 9 +++++++--
 ipmb/src/lib.rs            | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index 89b71f5..dcb8bc4 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -13,6 +13,9 @@ use std::{
 };
 use type_uuid::TypeUuid;
 
+/// Used when the ttl is too large to be represented as an expiration time.
+const MAXIMUM_TTL: Duration = Duration::from_secs(60 * 60 * 24 * 365 * 30);
+
 pub struct BusController {
     label: Label,
     token: String,
@@ -71,8 +74,10 @@ impl BusController {
 
                 if let Some(remain) = remain {
                     if !remain.selector.ttl.is_zero() {
-                        self.message_buffer
-                            .push((now + remain.selector.ttl, remain));
+                        let expire = now
+                            .checked_add(remain.selector.ttl)
+                            .unwrap_or_else(|| now + MAXIMUM_TTL);
+                        self.message_buffer.push((expire, remain));
                     }
                 } else if endpoint_connected && !self.message_buffer.is_empty() {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 4f17f2b..74852a7 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -413,7 +413,7 @@ impl Rule {
         im: Arc<IoMultiplexing>,
         timeout: Option<Duration>,
     ) -> Result<Self, JoinError> {
-        let end = timeout.map(|timeout| Instant::now() + timeout);
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
         macro_rules! wait {
             () => {
-- 
2.43.0


From 229c20cf20e1cdea4ade89add0f283901e230d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 05/36] fix: restart interrupted sendmsg and recvmsg on linux

EINTR was treated as a disconnect: the message being received was lost and the
peer was dropped from the bus.
---
 ipmb/src/platform/linux/encoded_message.rs | 26 ++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 92d9b37..4fe3fa6 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -49,11 +49,13 @@ impl EncodedMessage {
             hdr.msg_iov = &mut iov;
             hdr.msg_iovlen = 1;
 
-            let mut r = libc::recvmsg(
-                local.0.as_raw(),
-                &mut hdr,
-                libc::MSG_PEEK | libc::MSG_TRUNC | libc::MSG_CTRUNC,
-            );
+            let mut r = retry_interrupted(|| {
+                libc::recvmsg(
+                    local.0.as_raw(),
+                    &mut hdr,
+                    libc::MSG_PEEK | libc::MSG_TRUNC | libc::MSG_CTRUNC,
+                )
+            });
             // When remote disconnected, recvmsg returns 0
             if r <= 0 {
                 return Err(Error::Disconnect);
@@ -76,7 +78,7 @@ impl EncodedMessage {
 
             hdr.msg_flags = 0;
 
-            r = libc::recvmsg(local.0.as_raw(), &mut hdr, 0);
+            r = retry_interrupted(|| libc::recvmsg(local.0.as_raw(), &mut hdr, 0));
             // When remote disconnected, recvmsg returns 0
             if r <= 0 {
                 return Err(Error::Disconnect);
@@ -173,7 +175,7 @@ impl EncodedMessage {
         }
 
         let remote_guard = remote.lock();
-        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) };
+        let r = retry_interrupted(|| unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) });
         if r == -1 {
             for r in self.memory_regions.iter() {
                 r.ref_count_inner(-1);
@@ -186,6 +188,16 @@ impl EncodedMessage {
     }
 }
 
+/// Restart a system call interrupted by a signal.
+fn retry_interrupted(mut f: impl FnMut() -> libc::ssize_t) -> libc::ssize_t {
+    loop {
+        let r = f();
+        if r != -1 || io::Error::last_os_error().kind() != io::ErrorKind::Interrupted {
+            break r;
+        }
+    }
+}
+
 struct Meta {
     iov_len: u32,
     control_len: u32,
-- 
2.43.0


From 0a6b888f87d6cc824fb13d82cf4b8a08c0e27fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 06/36] fix: recv must not report a timeout when interrupted by
 a signal

epoll_wait returning EINTR ended recv(None) or recv(Some(t)) with
RecvError::Timeout before any timeout elapsed.
---
 ipmb/src/platform/linux.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 77cce29..37d6edc 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -11,7 +11,7 @@ use std::{
     os::fd::RawFd,
     ptr, slice,
     sync::{mpsc, Arc, Once},
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 mod encoded_message;
@@ -293,6 +293,8 @@ impl IoHub {
         remote: Option<&Remote>,
     ) -> Result<EncodedMessage, Error> {
         let _ = remote;
+        // A timeout too large to be represented never expires
+        let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
         'ret: loop {
             if let Some(ref rx) = self.bus_rx {
@@ -307,10 +309,17 @@ impl IoHub {
                 }
             }
 
-            self.im.wait(&mut self.in_buffer, timeout);
+            self.im.wait(
+                &mut self.in_buffer,
+                deadline.map(|deadline| deadline.saturating_duration_since(Instant::now())),
+            );
 
             if self.in_buffer.is_empty() {
-                break Err(Error::Timeout);
+                // The wait may also be interrupted by a signal
+                match deadline {
+                    Some(deadline) if Instant::now() >= deadline => break Err(Error::Timeout),
+                    _ => continue,
+                }
             }
 
             for ev in self.in_buffer.drain(..) {
-- 
2.43.0


From f66de190df9cbb6928e932300e63395db89c8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 07/36] fix: don't truncate recv timeouts

The timeout was rounded down to milliseconds, and wrapped to 32 bits, so that
recv(Some(t)) could report a timeout long before t elapsed.
---
 ipmb/src/platform/linux/io_mul.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index df3d8ca..61ea526 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -44,8 +44,12 @@ impl IoMultiplexing {
                 self.fd.as_raw(),
                 events.as_mut_ptr(),
                 events.capacity() as _,
+                // Round up so that the wait doesn't return before timeout
                 timeout
-                    .map(|tot| tot.as_millis() as ffi::c_int)
+                    .map(|tot| {
+                        let millis = (tot.as_nanos() + 999_999) / 1_000_000;
+                        millis.min(ffi::c_int::MAX as _) as ffi::c_int
+                    })
                     .unwrap_or(-1),
             );
             if n < 1 {
-- 
2.43.0


From d1205a3e8fff814946eabde46682e84a1a8614b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:21 +0000
Subject: [PATCH 08/36] fix: ignored messages must not extend the timeout of
 recv

Every message of a type the receiver doesn't handle restarted the full timeout,
on a busy bus recv(Some(t)) never returned.
---
 ipmb/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 74852a7..c1790f3 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -203,7 +203,13 @@ pub struct EndpointReceiver<R> {
 
 impl<'de, R: MessageBox> EndpointReceiver<R> {
     pub fn recv(&mut self, timeout: Option<Duration>) -> Result<Message<R>, RecvError> {
+        // A timeout too large to be represented never expires
+        let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+
         loop {
+            let timeout =
+                deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()));
+
             let rule = self.rule.read().unwrap();
             match &*rule {
                 Rule::Client {
-- 
2.43.0


From d4569d254976727277310cf1feb6a8deb92c9c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 09/36] fix: don't leak file descriptors into child processes
 on linux

A child of the controller process inherited the accepted sockets and the
endpoint sockets. The peers then never saw the controller go away, and a stale
epoll registration could make the controller read from the wrong socket and
block forever.
---
 ipmb/src/platform/linux.rs                 | 11 ++++++++---
 ipmb/src/platform/linux/encoded_message.rs |  4 +++-
 ipmb/src/platform/linux/io_mul.rs          | 19 ++++++++++++++++---
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 37d6edc..08397f6 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -330,8 +330,12 @@ impl IoHub {
                 if let Some(ref listener) = self.listener {
                     if ev.u64 == listener.as_raw() as u64 {
                         unsafe {
-                            let fd =
-                                libc::accept(listener.as_raw(), ptr::null_mut(), ptr::null_mut());
+                            let fd = libc::accept4(
+                                listener.as_raw(),
+                                ptr::null_mut(),
+                                ptr::null_mut(),
+                                libc::SOCK_CLOEXEC,
+                            );
                             if fd != -1 {
                                 let local = Local(Fd::from_raw(fd));
                                 let _ = libc::setsockopt(
@@ -356,7 +360,8 @@ impl IoHub {
                 {
                     let r = EncodedMessage::from_local(local);
                     if r.is_err() {
-                        self.local_list.swap_remove(i);
+                        let local = self.local_list.swap_remove(i);
+                        self.im.unregister(&local.0);
                     }
                     break 'ret r;
                 }
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 4fe3fa6..5e985ea 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -78,7 +78,9 @@ impl EncodedMessage {
 
             hdr.msg_flags = 0;
 
-            r = retry_interrupted(|| libc::recvmsg(local.0.as_raw(), &mut hdr, 0));
+            r = retry_interrupted(|| {
+                libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC)
+            });
             // When remote disconnected, recvmsg returns 0
             if r <= 0 {
                 return Err(Error::Disconnect);
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index 61ea526..3e8e027 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -1,5 +1,5 @@
 use super::Fd;
-use std::{ffi, mem, time::Duration};
+use std::{ffi, mem, ptr, time::Duration};
 
 pub struct IoMultiplexing {
     fd: Fd,
@@ -9,13 +9,13 @@ pub struct IoMultiplexing {
 impl IoMultiplexing {
     pub fn new() -> Self {
         let fd = unsafe {
-            let fd = libc::epoll_create1(0);
+            let fd = libc::epoll_create1(libc::EPOLL_CLOEXEC);
             assert_ne!(fd, -1);
             Fd::from_raw(fd)
         };
 
         let waker_fd = unsafe {
-            let efd = libc::eventfd(0, 0);
+            let efd = libc::eventfd(0, libc::EFD_CLOEXEC);
             assert_ne!(efd, -1);
             Fd::from_raw(efd)
         };
@@ -38,6 +38,19 @@ impl IoMultiplexing {
         }
     }
 
+    // Must be called before fd is closed, the registration otherwise remains as long as any
+    // duplicate of fd is open, e.g. in a forked process.
+    pub(crate) fn unregister(&self, fd: &Fd) {
+        unsafe {
+            libc::epoll_ctl(
+                self.fd.as_raw(),
+                libc::EPOLL_CTL_DEL,
+                fd.as_raw(),
+                ptr::null_mut(),
+            );
+        }
+    }
+
     pub(crate) fn wait(&self, events: &mut Vec<libc::epoll_event>, timeout: Option<Duration>) {
         unsafe {
             let n = libc::epoll_wait(
-- 
2.43.0


From b6f576a1847d04c1435adaf466201b910b8c0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:09 +0000
Subject: [PATCH 10/36] fix: validate received messages on linux

A malformed message from any local process could read out of bounds, panic the
bus controller or make it access unmapped memory.
---
 ipmb/src/lib.rs                            | 10 ++---
 ipmb/src/platform/linux.rs                 | 12 ++++++
 ipmb/src/platform/linux/encoded_message.rs | 50 ++++++++++++++--------
 ipmb/src/platform/mod.rs                   |  9 ++--
 4 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index c1790f3..ee1215b 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -289,7 +289,11 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                 continue;
                             }
                         }
-                        Err(Error::Disconnect) => {
+                        Err(Error::Timeout) => {
+                            break Err(RecvError::Timeout);
+                        }
+                        // Disconnected, including by an invalid message
+                        Err(_) => {
                             let epoch = *epoch;
                             drop(io_hub_guard);
                             drop(rule);
@@ -328,10 +332,6 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                 Rule::Server { .. } => continue,
                             }
                         }
-                        Err(Error::Timeout) => {
-                            break Err(RecvError::Timeout);
-                        }
-                        Err(_) => unreachable!(),
                     }
                 }
                 Rule::Server {
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 08397f6..57b0956 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -44,6 +44,18 @@ impl platform::MappedRegion {
         aligned_offset: usize,
         aligend_size: usize,
     ) -> Result<*mut u8, Error> {
+        // Access to the mapping beyond the end of object would be fatal
+        let in_bounds = unsafe {
+            let mut stat: libc::stat = mem::zeroed();
+            libc::fstat(obj.as_raw(), &mut stat) != -1
+                && aligned_offset
+                    .checked_add(aligend_size)
+                    .is_some_and(|end| end as u64 <= stat.st_size as u64)
+        };
+        if !in_bounds {
+            return Err(Error::MemoryRegionMapping);
+        }
+
         let addr = unsafe {
             libc::mmap(
                 ptr::null_mut(),
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 5e985ea..aac1e7c 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -111,6 +111,9 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
+            if (r as usize) < mem::size_of::<u32>() {
+                return Err(Error::Disconnect);
+            }
             let version_ptr = iov_data.as_ptr() as *const u32;
             let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
             if magic != 0xFF {
@@ -122,31 +125,31 @@ impl EncodedMessage {
                 return Err(Error::VersionMismatch(remote_version, None));
             }
 
-            let selector_size_ptr = version_ptr.offset(1);
-            let selector_size = *selector_size_ptr;
-            let selector_ptr = selector_size_ptr.offset(1) as *const u8;
-
-            // TODO: Check size
-            let selector: Selector =
-                decode(slice::from_raw_parts(selector_ptr, selector_size as _))?;
-
-            let memory_regions: Vec<_> = objects
-                .drain((objects.len() - selector.memory_region_count as usize)..)
+            // Never trust the sizes, they come from another process
+            let data = &iov_data[..r as usize];
+            let (selector_data, data) =
+                split_sized(&data[mem::size_of::<u32>()..]).ok_or(Error::Disconnect)?;
+            let (payload_data, _) = split_sized(data).ok_or(Error::Disconnect)?;
+            let payload_data = slice::from_raw_parts(payload_data.as_ptr(), payload_data.len());
+
+            let selector: Selector = decode(selector_data)?;
+
+            let object_count = objects
+                .len()
+                .checked_sub(selector.memory_region_count as usize)
+                .ok_or(Error::Disconnect)?;
+            let memory_regions = objects
+                .drain(object_count..)
                 .map(|obj| {
-                    let r = MemoryRegion::from_object(obj);
+                    let r = MemoryRegion::try_from_object(obj)?;
                     r.ref_count_inner(-1);
-                    r
+                    Ok(r)
                 })
-                .collect();
-
-            let payload_size_ptr = selector_ptr.offset(selector_size.align4() as _) as *const u32;
+                .collect::<Result<Vec<_>, Error>>()?;
 
             Ok(Self {
                 selector,
-                payload_data: slice::from_raw_parts(
-                    payload_size_ptr.offset(1) as *const u8,
-                    *payload_size_ptr as _,
-                ),
+                payload_data,
                 iov_data,
                 control_data,
                 objects,
@@ -200,6 +203,15 @@ fn retry_interrupted(mut f: impl FnMut() -> libc::ssize_t) -> libc::ssize_t {
     }
 }
 
+/// Split `size (u32) | data | padding` off.
+fn split_sized(buf: &[u8]) -> Option<(&[u8], &[u8])> {
+    let (size, buf) = buf.split_first_chunk()?;
+    let size = u32::from_ne_bytes(*size) as usize;
+    let data = buf.get(..size)?;
+    let remain = buf.get(size.align4()..).unwrap_or_default();
+    Some((data, remain))
+}
+
 struct Meta {
     iov_len: u32,
     control_len: u32,
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 6a8d8b6..a8ea813 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -88,9 +88,12 @@ impl MemoryRegion {
     }
 
     pub fn from_object(obj: Object) -> Self {
+        Self::try_from_object(obj).expect("MappedRegion::from_object")
+    }
+
+    pub(crate) fn try_from_object(obj: Object) -> Result<Self, Error> {
         let mr = unsafe {
-            let header = MappedRegion::from_object(&obj, 0, Self::header_length())
-                .expect("MappedRegion::from_object");
+            let header = MappedRegion::from_object(&obj, 0, Self::header_length())?;
 
             let buffer_size = header
                 .as_slice()
@@ -108,7 +111,7 @@ impl MemoryRegion {
         };
         mr.ref_count_inner(1);
 
-        mr
+        Ok(mr)
     }
 
     pub fn object(&self) -> &Object {
-- 
2.43.0


From c09d6161a5d7fc11eab5c3f60aada5081441ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 11/36] fix: reply to endpoints with an incompatible version on
 linux

They retried forever instead of getting JoinError::VersionMismatch.
---
 ipmb/src/platform/linux/encoded_message.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index aac1e7c..71b35d1 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -122,7 +122,11 @@ impl EncodedMessage {
             let remote_version = Version((major, minor, patch));
 
             if !version().compatible(remote_version) {
-                return Err(Error::VersionMismatch(remote_version, None));
+                // The remote of connect message, needed to reply
+                return Err(Error::VersionMismatch(
+                    remote_version,
+                    objects.pop().map(Remote::new),
+                ));
             }
 
             // Never trust the sizes, they come from another process
-- 
2.43.0


From 6dca8d2ecdec908cc61c23bd1226ce05d14e06c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:26 +0000
Subject: [PATCH 12/36] fix: limit memory claimed by malformed messages

---
 ipmb/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index ee1215b..2a720d1 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -73,10 +73,14 @@ pub enum SelectorMode {
     Multicast,
 }
 
+/// The maximum number of bytes which can be claimed by an encoded value, prevents a few malformed
+/// bytes from aborting the process by exhausting memory.
+const DECODE_LIMIT: usize = 1 << 30;
+
 pub fn decode<'de, T: Deserialize<'de>>(data: &'de [u8]) -> Result<T, Error> {
+    let config = bincode::config::standard().with_limit::<DECODE_LIMIT>();
     let (d, _): (T, _) =
-        bincode::serde::borrow_decode_from_slice(data, bincode::config::standard())
-            .map_err(Error::Decode)?;
+        bincode::serde::borrow_decode_from_slice(data, config).map_err(Error::Decode)?;
     Ok(d)
 }
 
-- 
2.43.0


From ccb380f65af101958764c39b532a917edb1bea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 13/36] fix: limit the nesting level of received label ops

A deeply nested one overflowed the stack of bus controller.
---
 ipmb/src/label.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/label.rs b/ipmb/src/label.rs
index 7b079af..a86042f 100644
--- a/ipmb/src/label.rs
+++ b/ipmb/src/label.rs
@@ -1,7 +1,7 @@
-use serde::{Deserialize, Serialize};
+use serde::{de, Deserialize, Deserializer, Serialize};
 use smallvec::SmallVec;
 use smol_str::SmolStr;
-use std::{iter, ops::Not};
+use std::{cell::Cell, iter, ops::Not};
 
 #[derive(Debug, Default, Clone, Serialize, Deserialize, PartialEq)]
 pub struct Label(SmallVec<[SmolStr; 8]>);
@@ -71,9 +71,36 @@ pub enum LabelOp {
     True,
     False,
     Leaf(SmolStr),
-    Not(Box<Self>),
-    And(Box<Self>, Box<Self>),
-    Or(Box<Self>, Box<Self>),
+    Not(#[serde(deserialize_with = "deserialize_nested")] Box<Self>),
+    And(
+        #[serde(deserialize_with = "deserialize_nested")] Box<Self>,
+        #[serde(deserialize_with = "deserialize_nested")] Box<Self>,
+    ),
+    Or(
+        #[serde(deserialize_with = "deserialize_nested")] Box<Self>,
+        #[serde(deserialize_with = "deserialize_nested")] Box<Self>,
+    ),
+}
+
+/// The maximum nesting level which can be deserialized, a deeper one could overflow the stack.
+const MAXIMUM_DEPTH: usize = 1024;
+
+thread_local! {
+    static DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+fn deserialize_nested<'de, D: Deserializer<'de>>(
+    deserializer: D,
+) -> Result<Box<LabelOp>, D::Error> {
+    let depth = DEPTH.with(|depth| depth.get());
+    if depth >= MAXIMUM_DEPTH {
+        return Err(de::Error::custom("label op is nested too deeply"));
+    }
+
+    DEPTH.with(|d| d.set(depth + 1));
+    let r = Box::deserialize(deserializer);
+    DEPTH.with(|d| d.set(depth));
+    r
 }
 
 impl LabelOp {
-- 
2.43.0


From 48df8d5957bf6bbf29cf83fcd1fc1aaf58ef5d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 14/36] fix: detect closed endpoints on linux

Closing a socket doesn't set SO_ERROR of the peer, the resources of the closed
endpoints were never released.
---
 ipmb/src/platform/linux/fd.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/ipmb/src/platform/linux/fd.rs b/ipmb/src/platform/linux/fd.rs
index a3ffe26..4837945 100644
--- a/ipmb/src/platform/linux/fd.rs
+++ b/ipmb/src/platform/linux/fd.rs
@@ -1,6 +1,6 @@
 use std::{
     fmt::Debug,
-    io, mem,
+    io,
     os::fd::{self, AsRawFd, FromRawFd, IntoRawFd},
     sync::{Mutex, MutexGuard},
 };
@@ -45,23 +45,15 @@ impl Remote {
     }
 
     pub fn is_dead(&self) -> bool {
-        let mut err: i32 = 0;
-        let mut len: u32 = mem::size_of_val(&err) as _;
-        let r = unsafe {
-            libc::getsockopt(
-                self.v,
-                libc::SOL_SOCKET,
-                libc::SO_ERROR,
-                &mut err as *mut _ as *mut _,
-                &mut len,
-            )
+        // The pending error of socket isn't set when peer closed
+        let mut fd = libc::pollfd {
+            fd: self.v,
+            events: 0,
+            revents: 0,
         };
+        let r = unsafe { libc::poll(&mut fd, 1, 0) };
 
-        if r == -1 || err != 0 {
-            true
-        } else {
-            false
-        }
+        r > 0 && fd.revents & (libc::POLLHUP | libc::POLLERR | libc::POLLNVAL) != 0
     }
 }
 
-- 
2.43.0


From cb844bf847afd015571ac8aab57acbdb4baf3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 15/36] fix: a message too large to send must not disconnect
 endpoints on linux

The sender retried forever, and the controller removed the target endpoint.
---
 ipmb-ffi/src/lib.rs                        |  1 +
 ipmb/src/errors.rs                         |  3 +++
 ipmb/src/lib.rs                            |  1 +
 ipmb/src/platform/linux/encoded_message.rs | 15 +++++++++++++--
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index c950e0a..a743cf9 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -160,6 +160,7 @@ pub unsafe extern "C" fn ipmb_sender_drop(sender: Sender) {}
 pub unsafe extern "C" fn ipmb_send(sender: &mut Sender, message: Message) -> ErrorCode {
     match sender.send(message.into()) {
         Ok(_) => ERROR_CODE_SUCCESS,
+        Err(ipmb::SendError::IoError(_)) => ERROR_CODE_UNKNOWN,
         Err(ipmb::SendError::Timeout) => ERROR_CODE_TIMEOUT,
         Err(ipmb::SendError::VersionMismatch(_)) => ERROR_CODE_VERSION_MISMATCH,
         Err(ipmb::SendError::TokenMismatch) => ERROR_CODE_TOKEN_MISMATCH,
diff --git a/ipmb/src/errors.rs b/ipmb/src/errors.rs
index 1e7a5e2..b095be3 100644
--- a/ipmb/src/errors.rs
+++ b/ipmb/src/errors.rs
@@ -48,6 +48,9 @@ pub enum JoinError {
 
 #[derive(Debug, Error)]
 pub enum SendError {
+    /// The message can't be sent, e.g. it is too large.
+    #[error("io error: {0}")]
+    IoError(std::io::Error),
     #[error("timeout")]
     Timeout,
     #[error("version mismatch: {0}")]
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 2a720d1..3626975 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -180,6 +180,7 @@ impl<T: MessageBox> EndpointSender<T> {
                             Rule::Server { .. } => {}
                         }
                     }
+                    Err(Error::IoError(err)) => break Err(SendError::IoError(err)),
                     Err(_) => unreachable!(),
                     Ok(_) => break Ok(()),
                 },
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 71b35d1..c5e7a4b 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -186,11 +186,22 @@ impl EncodedMessage {
         let remote_guard = remote.lock();
         let r = retry_interrupted(|| unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) });
         if r == -1 {
+            let err = io::Error::last_os_error();
             for r in self.memory_regions.iter() {
                 r.ref_count_inner(-1);
             }
-            log::error!("sendmsg: {}", io::Error::last_os_error());
-            Err(Error::Disconnect)
+            log::error!("sendmsg: {}", err);
+            match err.raw_os_error() {
+                // The message can't be sent, but the connection is still alive
+                Some(
+                    libc::EMSGSIZE
+                    | libc::EINVAL
+                    | libc::ETOOMANYREFS
+                    | libc::ENOBUFS
+                    | libc::ENOMEM,
+                ) => Err(Error::IoError(err)),
+                _ => Err(Error::Disconnect),
+            }
         } else {
             Ok(())
         }
-- 
2.43.0


From 93fd6ab2f6174c6022e3ca8e5e4d4a0860075e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 16/36] fix: mapping a memory region must be within its bounds

Accessing a mapping beyond the end of region is fatal. And mapping an empty
range failed at some offsets.
---
 ipmb/src/platform/linux.rs |  5 +++--
 ipmb/src/platform/mod.rs   | 16 ++++++++++------
 ipmb/src/util/mod.rs       | 21 ++++++++++++++-------
 3 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 57b0956..5f03088 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -59,7 +59,8 @@ impl platform::MappedRegion {
         let addr = unsafe {
             libc::mmap(
                 ptr::null_mut(),
-                aligend_size,
+                // An empty mapping is not allowed
+                aligend_size.max(1),
                 libc::PROT_READ | libc::PROT_WRITE,
                 libc::MAP_SHARED,
                 obj.as_raw(),
@@ -74,7 +75,7 @@ impl platform::MappedRegion {
     }
 
     pub(crate) fn unmap(addr: *mut u8, len: usize) {
-        let r = unsafe { libc::munmap(addr as _, len) };
+        let r = unsafe { libc::munmap(addr as _, len.max(1)) };
         assert_ne!(r, -1);
     }
 }
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index a8ea813..fa74535 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -119,11 +119,12 @@ impl MemoryRegion {
     }
 
     pub fn map(&mut self, range: impl RangeBounds<usize>) -> Result<&mut [u8], Error> {
-        let (offset, size) = util::range_to_offset_size(range);
-        let size = size.unwrap_or_else(|| {
-            usize::try_from(self.buffer_size() - offset as u64).unwrap_or(usize::MAX)
-        });
-        let real_offset = Self::header_length() + offset;
+        let buffer_size = usize::try_from(self.buffer_size()).unwrap_or(usize::MAX);
+        let (offset, size) =
+            util::range_to_offset_size(range, buffer_size).ok_or(Error::MemoryRegionMapping)?;
+        let real_offset = Self::header_length()
+            .checked_add(offset)
+            .ok_or(Error::MemoryRegionMapping)?;
 
         let need_remap = self
             .buffer
@@ -186,7 +187,10 @@ impl MappedRegion {
     ) -> Result<Self, Error> {
         let aligned_offset = trunc_page(offset);
         let adjustment_for_alignment = offset - aligned_offset;
-        let addr = Self::map(obj, aligned_offset, adjustment_for_alignment + size)?;
+        let aligned_size = adjustment_for_alignment
+            .checked_add(size)
+            .ok_or(Error::MemoryRegionMapping)?;
+        let addr = Self::map(obj, aligned_offset, aligned_size)?;
 
         Ok(Self {
             offset,
diff --git a/ipmb/src/util/mod.rs b/ipmb/src/util/mod.rs
index 326e85b..ab6a35a 100644
--- a/ipmb/src/util/mod.rs
+++ b/ipmb/src/util/mod.rs
@@ -58,17 +58,24 @@ pub fn rand_string(length: usize) -> String {
         .collect()
 }
 
-pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> (usize, Option<usize>) {
+/// Returns `None` if the range isn't within `0..len`.
+pub fn range_to_offset_size<S: RangeBounds<usize>>(
+    bounds: S,
+    len: usize,
+) -> Option<(usize, usize)> {
     let offset = match bounds.start_bound() {
         Bound::Included(&bound) => bound,
-        Bound::Excluded(&bound) => bound + 1,
+        Bound::Excluded(&bound) => bound.checked_add(1)?,
         Bound::Unbounded => 0,
     };
-    let size = match bounds.end_bound() {
-        Bound::Included(&bound) => Some(bound + 1 - offset),
-        Bound::Excluded(&bound) => Some(bound - offset),
-        Bound::Unbounded => None,
+    let end = match bounds.end_bound() {
+        Bound::Included(&bound) => bound.checked_add(1)?,
+        Bound::Excluded(&bound) => bound,
+        Bound::Unbounded => len,
     };
+    if end > len {
+        return None;
+    }
 
-    (offset, size)
+    Some((offset, end.checked_sub(offset)?))
 }
-- 
2.43.0


From cad1fd86e903dddc3c895a86796757b4bd5dea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 17/36] fix: accept empty data and reject overflowing ranges in
 C API

---
 ipmb-ffi/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index a743cf9..8e4d25c 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -283,7 +283,12 @@ pub unsafe extern "C" fn ipmb_message(
     ptr: *const u8,
     size: u32,
 ) -> Message {
-    let data = slice::from_raw_parts(ptr, size as _).to_owned();
+    // ptr may be null if there is no data
+    let data = if size == 0 {
+        vec![]
+    } else {
+        slice::from_raw_parts(ptr, size as _).to_owned()
+    };
 
     ipmb::Message::<ipmb::BytesMessage>::new(selector.into(), ipmb::BytesMessage { format, data })
         .into()
@@ -407,7 +412,7 @@ pub unsafe extern "C" fn ipmb_memory_region_map(
     if size < 0 {
         region.map(offset..)
     } else {
-        region.map(offset..offset + size as usize)
+        region.map(offset..offset.saturating_add(size as usize))
     }
     .map(|v| {
         if !real_size.is_null() {
-- 
2.43.0


From 7a46d8cb6fef7e24ab0cdeb56330f9033adfeb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 18/36] fix: allocating a huge memory region must return None

---
 ipmb/src/memory_registry.rs | 2 +-
 ipmb/src/platform/mod.rs    | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/ipmb/src/memory_registry.rs b/ipmb/src/memory_registry.rs
index 6a17adb..92517be 100644
--- a/ipmb/src/memory_registry.rs
+++ b/ipmb/src/memory_registry.rs
@@ -34,7 +34,7 @@ impl MemoryRegistry {
     ) -> Option<MemoryRegion> {
         let now = Instant::now();
 
-        for (_, rs) in self.inner.range_mut(min_size..min_size * 2) {
+        for (_, rs) in self.inner.range_mut(min_size..min_size.saturating_mul(2)) {
             for r in rs {
                 if r.region.ref_count_inner(0) == 1 && tag == r.tag.as_deref() {
                     r.last_alloc = now;
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index fa74535..99ff862 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -61,12 +61,11 @@ impl MemoryRegion {
     }
 
     pub fn new(size: usize) -> Option<Self> {
-        let real_size = Self::header_length() + size;
+        let real_size = Self::header_length().checked_add(size)?;
         let obj = Self::obj_new(real_size)?;
 
         unsafe {
-            let mut header = MappedRegion::from_object(&obj, 0, Self::header_length())
-                .expect("MappedRegion::from_object");
+            let mut header = MappedRegion::from_object(&obj, 0, Self::header_length()).ok()?;
 
             let rc: &AtomicU32 = mem::transmute(header.as_slice().as_ptr());
             rc.store(1, Ordering::SeqCst);
-- 
2.43.0


From 544a3171802c159314d7683ff444fdb22c5e75cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:47 +0000
Subject: [PATCH 19/36] fix: close receiver while messages keep arriving in
 ipmb-js

The JS thread was blocked in close until there was an idle period.
---
 ipmb-js/src/lib.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index c83f50a..ae2ac0f 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -280,21 +280,24 @@ pub fn join(options: Options, timeout: Option<u32>, mut env: Env) -> Result<napi
     };
 
     thread::spawn(move || loop {
+        // Messages may keep arriving, don't wait for an idle period to close
+        match guard_receiver.try_recv() {
+            Ok(_) => {
+                tsfn.destroy();
+                break;
+            }
+            Err(mpsc::TryRecvError::Disconnected) => {
+                break;
+            }
+            Err(mpsc::TryRecvError::Empty) => {}
+        }
+
         let r = receiver.recv(Some(Duration::from_millis(200)));
 
         match r {
-            Err(ipmb::RecvError::Timeout) => match guard_receiver.try_recv() {
-                Ok(_) => {
-                    tsfn.destroy();
-                    break;
-                }
-                Err(mpsc::TryRecvError::Disconnected) => {
-                    break;
-                }
-                Err(mpsc::TryRecvError::Empty) => {
-                    tsfn.call(DelegateAction::CleanTimeout);
-                }
-            },
+            Err(ipmb::RecvError::Timeout) => {
+                tsfn.call(DelegateAction::CleanTimeout);
+            }
             Err(
                 ipmb::RecvError::VersionMismatch(_)
                 | ipmb::RecvError::TokenMismatch
-- 
2.43.0


From 223b096cc96cbaedcc65f53727cf5fee96bb4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:16 +0000
Subject: [PATCH 20/36] fix: limit memory reserved by a malformed label

---
 ipmb/src/label.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb/src/label.rs b/ipmb/src/label.rs
index a86042f..44d4b93 100644
--- a/ipmb/src/label.rs
+++ b/ipmb/src/label.rs
@@ -4,6 +4,8 @@ use smol_str::SmolStr;
 use std::{cell::Cell, iter, ops::Not};
 
 #[derive(Debug, Default, Clone, Serialize, Deserialize, PartialEq)]
+// Unlike SmallVec, Vec doesn't reserve the claimed length, which may be malformed
+#[serde(from = "Vec<SmolStr>")]
 pub struct Label(SmallVec<[SmolStr; 8]>);
 
 impl Label {
-- 
2.43.0


From f82f072cf4c53c842673e458e657c38f39c249a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 21/36] fix: release memory regions of unread messages on linux

---
 ipmb/src/platform/linux.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 5f03088..a9860f5 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -387,6 +387,16 @@ impl IoHub {
     }
 }
 
+impl Drop for IoHub {
+    fn drop(&mut self) {
+        // The unread messages hold references of their memory regions
+        for local in &mut self.local_list {
+            let _ = unsafe { libc::shutdown(local.0.as_raw(), libc::SHUT_RD) };
+            while EncodedMessage::from_local(local).is_ok() {}
+        }
+    }
+}
+
 impl<T: MessageBox> message::Message<T> {
     fn encode_inner(&self) -> (&'static [u8], Vec<u8>, Vec<u8>) {
         // iov data
-- 
2.43.0


From 57e82fdb2dbd2a6e12cd6a023a741d2f9bf27c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:05 +0000
Subject: [PATCH 22/36] fix: send must not wait for a receiver which already
 rejoined

If both halves notice the death of the controller and the receiver rejoins
first, it holds the lock while it waits for a message, possibly for ever.
---
 ipmb/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 3626975..4aee589 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -15,7 +15,7 @@ use std::{
     sync::{
         mpsc,
         mpsc::{Receiver, RecvTimeoutError, Sender},
-        Arc, Mutex, RwLock,
+        Arc, Mutex, RwLock, TryLockError,
     },
     thread,
     time::{Duration, Instant},
@@ -148,7 +148,15 @@ impl<T: MessageBox> EndpointSender<T> {
                         let epoch = *epoch;
                         drop(rule);
 
-                        let mut rule = self.rule.write().unwrap();
+                        // The receiver may have rejoined meanwhile and hold the lock as long as it
+                        // is waiting for a message
+                        let mut rule = match self.rule.try_write() {
+                            Err(TryLockError::WouldBlock) => {
+                                thread::sleep(Duration::from_millis(1));
+                                continue;
+                            }
+                            rule => rule.unwrap(),
+                        };
                         match &mut *rule {
                             Rule::Client {
                                 endpoint_id: _,
-- 
2.43.0


From 99ba5724194faf1ab4e385c72b4b7d72bd6ee5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:06 +0000
Subject: [PATCH 23/36] fix: don't raise SIGPIPE when the peer of a connect
 message is gone on linux

The reply object of a connect message may be any socket.
---
 ipmb/src/platform/linux/encoded_message.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index c5e7a4b..1a9d8b8 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -184,7 +184,9 @@ impl EncodedMessage {
         }
 
         let remote_guard = remote.lock();
-        let r = retry_interrupted(|| unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) });
+        let r = retry_interrupted(|| unsafe {
+            libc::sendmsg(remote_guard.as_raw(), &hdr, libc::MSG_NOSIGNAL)
+        });
         if r == -1 {
             let err = io::Error::last_os_error();
             for r in self.memory_regions.iter() {
-- 
2.43.0


From 9c9af271899f881aa6333ae201790cef0644e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:49 +0000
Subject: [PATCH 24/36] fix: a connect message must not be able to block the
 bus controller on linux

The ack was sent to the reply socket of an arbitrary process, whose buffer may
be full.
---
 ipmb/src/platform/linux/encoded_message.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 1a9d8b8..b1082af 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -183,10 +183,14 @@ impl EncodedMessage {
             r.ref_count_inner(1);
         }
 
+        let mut flags = libc::MSG_NOSIGNAL;
+        // The remote isn't an endpoint yet, it must not be able to block the bus controller
+        if self.selector.uuid == <message::ConnectMessageAck as TypeUuid>::UUID {
+            flags |= libc::MSG_DONTWAIT;
+        }
+
         let remote_guard = remote.lock();
-        let r = retry_interrupted(|| unsafe {
-            libc::sendmsg(remote_guard.as_raw(), &hdr, libc::MSG_NOSIGNAL)
-        });
+        let r = retry_interrupted(|| unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, flags) });
         if r == -1 {
             let err = io::Error::last_os_error();
             for r in self.memory_regions.iter() {
@@ -197,6 +201,7 @@ impl EncodedMessage {
                 // The message can't be sent, but the connection is still alive
                 Some(
                     libc::EMSGSIZE
+                    | libc::EAGAIN
                     | libc::EINVAL
                     | libc::ETOOMANYREFS
                     | libc::ENOBUFS
-- 
2.43.0


From 8f20b1635a0f2766bff4c10afff04fc816ba2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 25/36] fix: free the callback of the C++ wrapper when the
 allocation fails

---
 ipmb-ffi/ipmb.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb-ffi/ipmb.cc b/ipmb-ffi/ipmb.cc
index 9ff74fe..b046b90 100644
--- a/ipmb-ffi/ipmb.cc
+++ b/ipmb-ffi/ipmb.cc
@@ -192,6 +192,8 @@ namespace ipmb {
             return std::make_tuple(MemoryRegion(region_raw),
                                Error::kSuccess);
         default:
+          // Never called in this case
+          delete f;
           return std::make_tuple(MemoryRegion(nullptr), Error::kUnknown);
       }
     }
-- 
2.43.0


From ca70eb2c6e52ed949240fc409dec8213d5fa21f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 26/36] fix: an expired recv must not take a message away in
 ipmb-js

---
 ipmb-js/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index ae2ac0f..3de7ce5 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -454,6 +454,9 @@ extern "C" fn delegate_receiver(
             DelegateAction::Close(tsfn) => local.close(env, tsfn),
             DelegateAction::CleanTimeout => local.clean_timeout(env),
             DelegateAction::Recv(r) => {
+                // Messages may keep arriving, expired ones must not take them away
+                local.clean_timeout(env);
+
                 if local.deferred_list.is_empty() {
                     local.messages.push(r);
                 } else {
-- 
2.43.0


From dcd3f02f5f0810e89268510e6ed71f4861982685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:29 +0000
Subject: [PATCH 27/36] fix: dropping a receiver must not wait for a sender
 which waits for the receiver

A sender holds the lock of the endpoint while it waits for the bus to take its
message. When the bus itself was waiting for this endpoint to receive, dropping
the receiver waited for ever, and with it the whole bus.
---
 ipmb/src/lib.rs | 53 +++++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 4aee589..4a607fd 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -13,9 +13,10 @@ use std::{
     fmt::{Display, Formatter},
     marker::PhantomData,
     sync::{
+        atomic::{AtomicBool, Ordering},
         mpsc,
         mpsc::{Receiver, RecvTimeoutError, Sender},
-        Arc, Mutex, RwLock, TryLockError,
+        Arc, Mutex, PoisonError, RwLock, TryLockError,
     },
     thread,
     time::{Duration, Instant},
@@ -168,10 +169,10 @@ impl<T: MessageBox> EndpointSender<T> {
                                 epoch: epoch1,
                             } => {
                                 if epoch == *epoch1 {
-                                    let reader_closed = *reader_closed;
+                                    let reader_closed = *reader_closed.get_mut();
 
                                     // Close reader
-                                    drop(io_hub.take());
+                                    drop(io_hub.get_mut().unwrap().take());
 
                                     *rule = Rule::join(
                                         options.clone(),
@@ -234,8 +235,11 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                     im: _,
                     epoch,
                 } => {
-                    if !*reader_closed && io_hub.is_none() {
+                    let mut io_hub_guard = io_hub.lock().unwrap();
+
+                    if !reader_closed.load(Ordering::Relaxed) && io_hub_guard.is_none() {
                         let epoch = *epoch;
+                        drop(io_hub_guard);
                         drop(rule);
 
                         let mut rule = self.rule.write().unwrap();
@@ -250,10 +254,10 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                 epoch: epoch1,
                             } => {
                                 if epoch == *epoch1 {
-                                    let reader_closed = *reader_closed;
+                                    let reader_closed = *reader_closed.get_mut();
 
                                     // Close reader
-                                    drop(io_hub.take());
+                                    drop(io_hub.get_mut().unwrap().take());
 
                                     *rule = Rule::join(
                                         options.clone(),
@@ -273,9 +277,9 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                         }
                     }
 
-                    let mut io_hub_guard = io_hub.as_ref().expect("reader closed").lock().unwrap();
+                    let io_hub = io_hub_guard.as_mut().expect("reader closed");
 
-                    match io_hub_guard.recv(timeout, Some(remote)) {
+                    match io_hub.recv(timeout, Some(remote)) {
                         Ok(encoded_msg) => {
                             if encoded_msg.selector.label_op.validate(&options.label) {
                                 match R::decode(encoded_msg.selector.uuid, encoded_msg.payload_data)
@@ -323,10 +327,10 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                     epoch: epoch1,
                                 } => {
                                     if epoch == *epoch1 {
-                                        let reader_closed = *reader_closed;
+                                        let reader_closed = *reader_closed.get_mut();
 
                                         // Close reader
-                                        drop(io_hub.take());
+                                        drop(io_hub.get_mut().unwrap().take());
 
                                         *rule = Rule::join(
                                             options.clone(),
@@ -353,7 +357,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                     receiver,
                     im: _,
                 } => {
-                    let receiver = receiver.as_ref().expect("reader closed").lock().unwrap();
+                    let receiver_guard = receiver.lock().unwrap();
+                    let receiver = receiver_guard.as_ref().expect("reader closed");
                     break match timeout {
                         Some(timeout) => match receiver.recv_timeout(timeout) {
                             Ok(encoded_msg) => {
@@ -400,7 +405,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
 
 impl<R> Drop for EndpointReceiver<R> {
     fn drop(&mut self) {
-        let mut rule = self.rule.write().unwrap();
+        // A sender may hold the read lock as long as the bus is waiting for this endpoint to receive
+        let rule = self.rule.read().unwrap();
         rule.reader_close();
     }
 }
@@ -411,8 +417,8 @@ enum Rule {
         endpoint_id: EndpointID,
         options: Options,
         remote: Remote,
-        io_hub: Option<Mutex<IoHub>>,
-        reader_closed: bool,
+        io_hub: Mutex<Option<IoHub>>,
+        reader_closed: AtomicBool,
         im: Arc<IoMultiplexing>,
         epoch: u32,
     },
@@ -420,7 +426,7 @@ enum Rule {
         #[allow(dead_code)]
         endpoint_id: EndpointID,
         bus_sender: Mutex<Sender<EncodedMessage>>,
-        receiver: Option<Mutex<Receiver<EncodedMessage>>>,
+        receiver: Mutex<Option<Receiver<EncodedMessage>>>,
         im: Arc<IoMultiplexing>,
     },
 }
@@ -466,8 +472,8 @@ impl Rule {
                         endpoint_id,
                         options,
                         remote,
-                        io_hub: Some(Mutex::new(io_hub)),
-                        reader_closed: false,
+                        io_hub: Mutex::new(Some(io_hub)),
+                        reader_closed: AtomicBool::new(false),
                         im,
                         epoch,
                     };
@@ -500,7 +506,7 @@ impl Rule {
                             let rule = Rule::Server {
                                 endpoint_id,
                                 bus_sender: Mutex::new(bus_sender),
-                                receiver: Some(Mutex::new(receiver)),
+                                receiver: Mutex::new(Some(receiver)),
                                 im,
                             };
                             break rule;
@@ -553,18 +559,21 @@ impl Rule {
 }
 
 impl Rule {
-    fn reader_close(&mut self) {
+    fn reader_close(&self) {
         match self {
             Rule::Client {
                 io_hub,
                 reader_closed,
                 ..
             } => {
-                let _ = io_hub.take();
-                *reader_closed = true;
+                reader_closed.store(true, Ordering::Relaxed);
+                let _ = io_hub.lock().unwrap_or_else(PoisonError::into_inner).take();
             }
             Rule::Server { receiver, .. } => {
-                let _ = receiver.take();
+                let _ = receiver
+                    .lock()
+                    .unwrap_or_else(PoisonError::into_inner)
+                    .take();
             }
         }
     }
-- 
2.43.0


From 5254de5358fd16f0009ccebc6540d8c96beb067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 28/36] fix: recv must honour its timeout while a sender is
 rejoining

A sender which has noticed that the bus is gone holds the lock of the endpoint
until it has rejoined, possibly for ever. recv with a timeout waited for it.
---
 ipmb/src/lib.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 4a607fd..df01c89 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -16,7 +16,7 @@ use std::{
         atomic::{AtomicBool, Ordering},
         mpsc,
         mpsc::{Receiver, RecvTimeoutError, Sender},
-        Arc, Mutex, PoisonError, RwLock, TryLockError,
+        Arc, Mutex, PoisonError, RwLock, TryLockError, TryLockResult,
     },
     thread,
     time::{Duration, Instant},
@@ -224,7 +224,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
             let timeout =
                 deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()));
 
-            let rule = self.rule.read().unwrap();
+            let rule = lock_until(deadline, || self.rule.try_read())?;
             match &*rule {
                 Rule::Client {
                     endpoint_id: _,
@@ -242,7 +242,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                         drop(io_hub_guard);
                         drop(rule);
 
-                        let mut rule = self.rule.write().unwrap();
+                        let mut rule = lock_until(deadline, || self.rule.try_write())?;
                         match &mut *rule {
                             Rule::Client {
                                 endpoint_id: _,
@@ -312,10 +312,12 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                         // Disconnected, including by an invalid message
                         Err(_) => {
                             let epoch = *epoch;
+                            // Rejoin later if the lock isn't available now
+                            drop(io_hub_guard.take());
                             drop(io_hub_guard);
                             drop(rule);
 
-                            let mut rule = self.rule.write().unwrap();
+                            let mut rule = lock_until(deadline, || self.rule.try_write())?;
                             match &mut *rule {
                                 Rule::Client {
                                     endpoint_id: _,
@@ -403,6 +405,24 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
     }
 }
 
+/// A sender may hold the lock as long as it is rejoining, recv must not wait for it after deadline.
+fn lock_until<T>(
+    deadline: Option<Instant>,
+    mut try_lock: impl FnMut() -> TryLockResult<T>,
+) -> Result<T, RecvError> {
+    loop {
+        match try_lock() {
+            Err(TryLockError::WouldBlock) => {
+                if matches!(deadline, Some(deadline) if Instant::now() >= deadline) {
+                    return Err(RecvError::Timeout);
+                }
+                thread::sleep(Duration::from_millis(1));
+            }
+            guard => return Ok(guard.unwrap()),
+        }
+    }
+}
+
 impl<R> Drop for EndpointReceiver<R> {
     fn drop(&mut self) {
         // A sender may hold the read lock as long as the bus is waiting for this endpoint to receive
-- 
2.43.0


From 08bc13ff0bfef48adc19f1eb4925c64558a8d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 29/36] fix: recv must not wait for its whole timeout again
 when the bus disappears

---
 ipmb/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index df01c89..e52a284 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -220,10 +220,10 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
         // A timeout too large to be represented never expires
         let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
-        loop {
-            let timeout =
-                deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()));
+        let remaining =
+            || deadline.map(|deadline| deadline.saturating_duration_since(Instant::now()));
 
+        loop {
             let rule = lock_until(deadline, || self.rule.try_read())?;
             match &*rule {
                 Rule::Client {
@@ -263,7 +263,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                         options.clone(),
                                         epoch.overflowing_add(1).0,
                                         im.clone(),
-                                        timeout,
+                                        remaining(),
                                     )?;
 
                                     if reader_closed {
@@ -279,7 +279,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
 
                     let io_hub = io_hub_guard.as_mut().expect("reader closed");
 
-                    match io_hub.recv(timeout, Some(remote)) {
+                    match io_hub.recv(remaining(), Some(remote)) {
                         Ok(encoded_msg) => {
                             if encoded_msg.selector.label_op.validate(&options.label) {
                                 match R::decode(encoded_msg.selector.uuid, encoded_msg.payload_data)
@@ -338,7 +338,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                             options.clone(),
                                             epoch.overflowing_add(1).0,
                                             im.clone(),
-                                            timeout,
+                                            remaining(),
                                         )?;
 
                                         if reader_closed {
@@ -361,7 +361,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                 } => {
                     let receiver_guard = receiver.lock().unwrap();
                     let receiver = receiver_guard.as_ref().expect("reader closed");
-                    break match timeout {
+                    break match remaining() {
                         Some(timeout) => match receiver.recv_timeout(timeout) {
                             Ok(encoded_msg) => {
                                 match R::decode(encoded_msg.selector.uuid, encoded_msg.payload_data)
-- 
2.43.0


From 02cb17f9d74f6fb55677697c7828f5696293bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 30/36] fix: send must report a payload without encoding
 instead of panicking

---
 ipmb/src/bus_controller.rs        | 10 +++++-----
 ipmb/src/errors.rs                |  6 ++++++
 ipmb/src/lib.rs                   |  2 +-
 ipmb/src/platform/linux.rs        | 18 +++++++++---------
 ipmb/src/platform/macos/mod.rs    | 20 ++++++++++----------
 ipmb/src/platform/windows/mod.rs  | 20 ++++++++++----------
 ipmb/src/platform/windows/util.rs |  2 +-
 7 files changed, 42 insertions(+), 36 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index dcb8bc4..73ab176 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -62,7 +62,7 @@ impl BusController {
                             ConnectMessageAck::ErrVersion(version()),
                         )
                         .into_encoded()
-                        .send(&remote);
+                        .and_then(|mut ack| ack.send(&remote));
                         continue;
                     }
                     _ => continue,
@@ -182,7 +182,7 @@ impl BusController {
                 ConnectMessageAck::ErrVersion(version()),
             )
             .into_encoded()
-            .send(&remote);
+            .and_then(|mut ack| ack.send(&remote));
             return false;
         };
 
@@ -193,14 +193,14 @@ impl BusController {
                 ConnectMessageAck::ErrVersion(version()),
             )
             .into_encoded()
-            .send(&remote);
+            .and_then(|mut ack| ack.send(&remote));
             return false;
         }
 
         if payload.token != self.token {
             let _ = Message::new(encoded_msg.selector.clone(), ConnectMessageAck::ErrToken)
                 .into_encoded()
-                .send(&remote);
+                .and_then(|mut ack| ack.send(&remote));
             return false;
         }
 
@@ -211,7 +211,7 @@ impl BusController {
             ConnectMessageAck::Ok(endpoint_id),
         )
         .into_encoded()
-        .send(&remote)
+        .and_then(|mut ack| ack.send(&remote))
         {
             log::error!("connect ack: {:?}", err);
             return false;
diff --git a/ipmb/src/errors.rs b/ipmb/src/errors.rs
index b095be3..9c0d037 100644
--- a/ipmb/src/errors.rs
+++ b/ipmb/src/errors.rs
@@ -61,6 +61,12 @@ pub enum SendError {
     PermissionDenied,
 }
 
+impl SendError {
+    pub(crate) fn not_encodable(err: Error) -> Self {
+        Self::IoError(std::io::Error::new(std::io::ErrorKind::InvalidInput, err))
+    }
+}
+
 impl From<JoinError> for SendError {
     fn from(value: JoinError) -> Self {
         match value {
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index e52a284..fe79054 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -131,7 +131,7 @@ impl<T> Clone for EndpointSender<T> {
 impl<T: MessageBox> EndpointSender<T> {
     pub fn send(&self, mut msg: Message<T>) -> Result<(), SendError> {
         msg.selector.memory_region_count = msg.memory_regions.len() as _;
-        let mut msg = msg.into_encoded();
+        let mut msg = msg.into_encoded().map_err(SendError::not_encodable)?;
 
         loop {
             let rule = self.rule.read().unwrap();
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index a9860f5..d9ba4a1 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -202,7 +202,7 @@ pub(crate) fn look_up(
         );
         msg.objects.push(write_fd);
 
-        let mut encoded_msg = msg.into_encoded();
+        let mut encoded_msg = msg.into_encoded()?;
         encoded_msg.send(&remote)?;
 
         let mut io_hub: IoHub = IoHub::for_endpoint(Local(read_fd), im);
@@ -398,17 +398,17 @@ impl Drop for IoHub {
 }
 
 impl<T: MessageBox> message::Message<T> {
-    fn encode_inner(&self) -> (&'static [u8], Vec<u8>, Vec<u8>) {
+    fn encode_inner(&self) -> Result<(&'static [u8], Vec<u8>, Vec<u8>), Error> {
         // iov data
         let mut size = 4 // version 
             + 4 // selector size
             + 4 // payload size
             ;
         let selector_data =
-            bincode::serde::encode_to_vec(&self.selector, bincode::config::standard()).unwrap();
+            bincode::serde::encode_to_vec(&self.selector, bincode::config::standard())?;
         size += selector_data.len().align4();
 
-        let payload_bytes = self.payload.encode().unwrap();
+        let payload_bytes = self.payload.encode()?;
         size += payload_bytes.len().align4();
 
         let mut iov_data: Vec<u8> = alloc_buffer::<u32>(size);
@@ -459,20 +459,20 @@ impl<T: MessageBox> message::Message<T> {
             }
         }
 
-        (payload_data, iov_data, control_data)
+        Ok((payload_data, iov_data, control_data))
     }
 
-    pub(crate) fn into_encoded(self) -> EncodedMessage {
-        let (payload_data, iov_data, control_data) = self.encode_inner();
+    pub(crate) fn into_encoded(self) -> Result<EncodedMessage, Error> {
+        let (payload_data, iov_data, control_data) = self.encode_inner()?;
 
-        EncodedMessage {
+        Ok(EncodedMessage {
             selector: self.selector,
             payload_data,
             iov_data,
             control_data,
             objects: self.objects,
             memory_regions: self.memory_regions,
-        }
+        })
     }
 }
 
diff --git a/ipmb/src/platform/macos/mod.rs b/ipmb/src/platform/macos/mod.rs
index 23874a3..dbbd387 100644
--- a/ipmb/src/platform/macos/mod.rs
+++ b/ipmb/src/platform/macos/mod.rs
@@ -87,7 +87,7 @@ pub(crate) fn look_up(
                     },
                 );
                 msg.objects.push(local.clone()?);
-                let mut encoded_msg = msg.into_encoded();
+                let mut encoded_msg = msg.into_encoded()?;
                 encoded_msg.send(&remote)?;
 
                 let mut io_hub: IoHub = IoHub::for_endpoint(local, im);
@@ -266,7 +266,7 @@ struct BaseMessage {
 /// | payload_padding
 ///
 impl<T: MessageBox> Message<T> {
-    fn encode_inner(&self) -> (&'static [u8], Vec<u8>) {
+    fn encode_inner(&self) -> Result<(&'static [u8], Vec<u8>), Error> {
         unsafe {
             let mut size = mem::size_of::<mach_sys::mach_msg_header_t>();
 
@@ -280,13 +280,13 @@ impl<T: MessageBox> Message<T> {
 
             // TODO: How can we hint size
             let selector_data =
-                bincode::serde::encode_to_vec(&self.selector, bincode::config::standard()).unwrap();
+                bincode::serde::encode_to_vec(&self.selector, bincode::config::standard())?;
             size += selector_data.len().align4();
 
             size += 4; // payload size
 
             // TODO: How can we hint size
-            let payload_bytes = self.payload.encode().unwrap();
+            let payload_bytes = self.payload.encode()?;
             size += payload_bytes.len().align4();
 
             let mut mach_msg: Vec<u8> = Vec::with_capacity(size);
@@ -346,23 +346,23 @@ impl<T: MessageBox> Message<T> {
 
             ptr::copy_nonoverlapping(payload_bytes.as_ptr(), payload_ptr, payload_bytes.len());
 
-            (
+            Ok((
                 slice::from_raw_parts(payload_ptr, payload_bytes.len()),
                 mach_msg,
-            )
+            ))
         }
     }
 
-    pub(crate) fn into_encoded(self) -> EncodedMessage {
-        let (payload_data, mach_msg) = self.encode_inner();
+    pub(crate) fn into_encoded(self) -> Result<EncodedMessage, Error> {
+        let (payload_data, mach_msg) = self.encode_inner()?;
 
-        EncodedMessage {
+        Ok(EncodedMessage {
             selector: self.selector,
             payload_data,
             mach_msg,
             objects: self.objects,
             memory_regions: self.memory_regions,
-        }
+        })
     }
 }
 
diff --git a/ipmb/src/platform/windows/mod.rs b/ipmb/src/platform/windows/mod.rs
index 716e4cc..8cac86e 100644
--- a/ipmb/src/platform/windows/mod.rs
+++ b/ipmb/src/platform/windows/mod.rs
@@ -128,7 +128,7 @@ pub(crate) fn look_up(
         )));
         msg.objects.push(write_pipe);
 
-        let mut encoded_msg = msg.into_encoded();
+        let mut encoded_msg = msg.into_encoded()?;
         encoded_msg.send(&remote)?;
 
         let mut io_hub: IoHub = IoHub::for_endpoint(im, identifier_h, read_pipe);
@@ -556,11 +556,11 @@ impl EncodedMessage {
 }
 
 impl<T: MessageBox> Message<T> {
-    fn encode_inner(&self) -> (&'static [u8], Vec<u8>, usize) {
+    fn encode_inner(&self) -> Result<(&'static [u8], Vec<u8>, usize), Error> {
         unsafe {
             // TODO: How can we hint size
-            let selector_bytes = encode(&self.selector).unwrap();
-            let payload_bytes = self.payload.encode().unwrap();
+            let selector_bytes = encode(&self.selector)?;
+            let payload_bytes = self.payload.encode()?;
 
             let msg_size = 4
                 + 4
@@ -598,25 +598,25 @@ impl<T: MessageBox> Message<T> {
             let payload_ptr = payload_size_ptr.add(1) as *mut u8;
             ptr::copy_nonoverlapping(payload_bytes.as_ptr(), payload_ptr, payload_bytes.len());
 
-            (
+            Ok((
                 slice::from_raw_parts(payload_ptr, payload_bytes.len()),
                 pipe_msg,
                 msg_size,
-            )
+            ))
         }
     }
 
-    pub(crate) fn into_encoded(self) -> EncodedMessage {
-        let (payload_data, pipe_msg, msg_size) = self.encode_inner();
+    pub(crate) fn into_encoded(self) -> Result<EncodedMessage, Error> {
+        let (payload_data, pipe_msg, msg_size) = self.encode_inner()?;
 
-        EncodedMessage {
+        Ok(EncodedMessage {
             selector: self.selector,
             payload_data,
             pipe_msg,
             msg_size,
             objects: self.objects,
             memory_regions: self.memory_regions,
-        }
+        })
     }
 }
 
diff --git a/ipmb/src/platform/windows/util.rs b/ipmb/src/platform/windows/util.rs
index 404a949..60205d1 100644
--- a/ipmb/src/platform/windows/util.rs
+++ b/ipmb/src/platform/windows/util.rs
@@ -24,7 +24,7 @@ pub fn fetch_remote_process_handle(
                 reply_pipe: name,
             },
         )
-        .into_encoded()
+        .into_encoded()?
         .send(remote)?;
 
         // Wait connect
-- 
2.43.0


From d1317d23dfdbbb65128fdf4e47ea8c1ec66c0204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 31/36] fix: a too deeply nested selector must be refused by
 send instead of disconnecting peers

---
 ipmb/src/errors.rs |  2 +-
 ipmb/src/label.rs  | 21 ++++++++++++++++++++-
 ipmb/src/lib.rs    |  4 ++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/errors.rs b/ipmb/src/errors.rs
index 9c0d037..3649901 100644
--- a/ipmb/src/errors.rs
+++ b/ipmb/src/errors.rs
@@ -62,7 +62,7 @@ pub enum SendError {
 }
 
 impl SendError {
-    pub(crate) fn not_encodable(err: Error) -> Self {
+    pub(crate) fn not_encodable(err: impl Into<Box<dyn std::error::Error + Send + Sync>>) -> Self {
         Self::IoError(std::io::Error::new(std::io::ErrorKind::InvalidInput, err))
     }
 }
diff --git a/ipmb/src/label.rs b/ipmb/src/label.rs
index 44d4b93..af90afe 100644
--- a/ipmb/src/label.rs
+++ b/ipmb/src/label.rs
@@ -84,7 +84,8 @@ pub enum LabelOp {
     ),
 }
 
-/// The maximum nesting level which can be deserialized, a deeper one could overflow the stack.
+/// The maximum nesting level which can be serialized and deserialized, a deeper one could overflow
+/// the stack.
 const MAXIMUM_DEPTH: usize = 1024;
 
 thread_local! {
@@ -114,6 +115,24 @@ impl LabelOp {
         Self::Or(Box::new(self), Box::new(v.into()))
     }
 
+    /// Whether nobody could deserialize it.
+    pub(crate) fn is_too_deep(&self) -> bool {
+        let mut ops = vec![(self, 0)];
+        while let Some((op, depth)) = ops.pop() {
+            if depth > MAXIMUM_DEPTH {
+                return true;
+            }
+            match op {
+                Self::True | Self::False | Self::Leaf(_) => {}
+                Self::Not(left) => ops.push((left, depth + 1)),
+                Self::And(left, right) | Self::Or(left, right) => {
+                    ops.extend([(&**left, depth + 1), (&**right, depth + 1)]);
+                }
+            }
+        }
+        false
+    }
+
     pub fn validate(&self, label: &Label) -> bool {
         match self {
             Self::True => true,
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index fe79054..a8609b6 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -131,6 +131,10 @@ impl<T> Clone for EndpointSender<T> {
 impl<T: MessageBox> EndpointSender<T> {
     pub fn send(&self, mut msg: Message<T>) -> Result<(), SendError> {
         msg.selector.memory_region_count = msg.memory_regions.len() as _;
+        // The peers would disconnect
+        if msg.selector.label_op.is_too_deep() {
+            return Err(SendError::not_encodable("label op is nested too deeply"));
+        }
         let mut msg = msg.into_encoded().map_err(SendError::not_encodable)?;
 
         loop {
-- 
2.43.0


From eba7d4a8705f21d663a052971d02fda204f71f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 32/36] fix: a dropped connection must not stay registered
 while a forked process holds duplicates of it

---
 ipmb/src/platform/linux.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index d9ba4a1..6bad88b 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -393,6 +393,7 @@ impl Drop for IoHub {
         for local in &mut self.local_list {
             let _ = unsafe { libc::shutdown(local.0.as_raw(), libc::SHUT_RD) };
             while EncodedMessage::from_local(local).is_ok() {}
+            self.im.unregister(&local.0);
         }
     }
 }
-- 
2.43.0


From b73d57f0c20d85d94c399f0de4e9ba259a3f7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 33/36] fix: recv must report any decode error of a user's
 MessageBox instead of panicking

---
 ipmb/src/errors.rs | 7 +++++++
 ipmb/src/lib.rs    | 6 +++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/errors.rs b/ipmb/src/errors.rs
index 3649901..9e6cc54 100644
--- a/ipmb/src/errors.rs
+++ b/ipmb/src/errors.rs
@@ -92,6 +92,13 @@ pub enum RecvError {
     PermissionDenied,
 }
 
+impl RecvError {
+    /// `MessageBox` may be implemented by users, with errors of any kind
+    pub(crate) fn not_decodable(err: Error) -> Self {
+        Self::Decode(bincode::error::DecodeError::OtherString(err.to_string()))
+    }
+}
+
 impl From<JoinError> for RecvError {
     fn from(value: JoinError) -> Self {
         match value {
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index a8609b6..e8fca74 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -300,7 +300,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                     Err(Error::Decode(err)) => {
                                         break Err(RecvError::Decode(err));
                                     }
-                                    Err(_) => unreachable!(),
+                                    Err(err) => break Err(RecvError::not_decodable(err)),
                                 }
                             } else {
                                 log::warn!(
@@ -380,7 +380,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                         continue;
                                     }
                                     Err(Error::Decode(err)) => Err(RecvError::Decode(err)),
-                                    Err(_) => unreachable!(),
+                                    Err(err) => Err(RecvError::not_decodable(err)),
                                 }
                             }
                             Err(RecvTimeoutError::Timeout) => Err(RecvError::Timeout),
@@ -399,7 +399,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                     continue;
                                 }
                                 Err(Error::Decode(err)) => Err(RecvError::Decode(err)),
-                                Err(_) => unreachable!(),
+                                Err(err) => Err(RecvError::not_decodable(err)),
                             }
                         }
                     };
-- 
2.43.0


From e4cd5ed28917f177ba9aaab3d0fe289c6ffae654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 34/36] fix: cloning a memory region must report a failed
 mapping instead of panicking

---
 ipmb/src/platform/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 99ff862..6051c94 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -48,7 +48,9 @@ impl Drop for MemoryRegion {
 
 impl MemoryRegion {
     pub fn clone(&self) -> io::Result<Self> {
-        self.object().clone().map(Self::from_object)
+        let obj = self.object().clone()?;
+        // The mapping may fail, e.g. when the process has too many of them
+        Self::try_from_object(obj).map_err(|err| io::Error::new(io::ErrorKind::Other, err))
     }
 }
 
-- 
2.43.0


From be3fad56d6d6e3291c2a4427e800b9110a82b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 35/36] fix: join must retry instead of panicking when
 descriptors or threads are lacking

---
 ipmb/src/bus_controller.rs        |  6 ++---
 ipmb/src/lib.rs                   | 38 ++++++++++++++++++++-----------
 ipmb/src/platform/linux.rs        | 25 ++++++++++----------
 ipmb/src/platform/linux/io_mul.rs | 23 ++++++++++++-------
 ipmb/src/platform/macos/mod.rs    |  6 ++---
 ipmb/src/platform/windows/mod.rs  |  6 ++---
 6 files changed, 62 insertions(+), 42 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index 73ab176..456672a 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -6,7 +6,7 @@ use crate::{
     SelectorMode,
 };
 use std::{
-    mem,
+    io, mem,
     sync::mpsc::Sender,
     thread,
     time::{Duration, Instant},
@@ -50,7 +50,7 @@ impl BusController {
         }
     }
 
-    pub fn run(mut self) {
+    pub fn run(mut self) -> io::Result<()> {
         thread::Builder::new()
             .name(String::from("ipmb bus controller"))
             .spawn(move || loop {
@@ -100,7 +100,7 @@ impl BusController {
                 self.detect_reachable(now);
                 self.maintain(now);
             })
-            .expect("failed to spawn ipmb bus controller");
+            .map(drop)
     }
 
     // Don't read or write self.message_buffer
diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index e8fca74..fe366b4 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -94,12 +94,7 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
     options: Options,
     timeout: Option<Duration>,
 ) -> Result<(EndpointSender<T>, EndpointReceiver<R>), JoinError> {
-    let rule = Arc::new(RwLock::new(Rule::join(
-        options,
-        0,
-        Arc::new(IoMultiplexing::new()),
-        timeout,
-    )?));
+    let rule = Arc::new(RwLock::new(Rule::join(options, 0, None, timeout)?));
 
     Ok((
         EndpointSender {
@@ -181,7 +176,7 @@ impl<T: MessageBox> EndpointSender<T> {
                                     *rule = Rule::join(
                                         options.clone(),
                                         epoch.overflowing_add(1).0,
-                                        im.clone(),
+                                        Some(im.clone()),
                                         None,
                                     )?;
 
@@ -266,7 +261,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                     *rule = Rule::join(
                                         options.clone(),
                                         epoch.overflowing_add(1).0,
-                                        im.clone(),
+                                        Some(im.clone()),
                                         remaining(),
                                     )?;
 
@@ -341,7 +336,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                         *rule = Rule::join(
                                             options.clone(),
                                             epoch.overflowing_add(1).0,
-                                            im.clone(),
+                                            Some(im.clone()),
                                             remaining(),
                                         )?;
 
@@ -459,7 +454,7 @@ impl Rule {
     fn join(
         options: Options,
         epoch: u32,
-        im: Arc<IoMultiplexing>,
+        im: Option<Arc<IoMultiplexing>>,
         timeout: Option<Duration>,
     ) -> Result<Self, JoinError> {
         let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
@@ -478,6 +473,19 @@ impl Rule {
             };
         }
 
+        let im = match im {
+            Some(im) => im,
+            None => loop {
+                match IoMultiplexing::new() {
+                    Ok(im) => break Arc::new(im),
+                    Err(err) => {
+                        log::error!("io multiplexing: {:?}", err);
+                        wait!();
+                    }
+                }
+            },
+        };
+
         let mut timeout_count = 0;
         // When the service is in the process of registration, other endpoints may return PermissionDenied
         let mut permission_denied_count = 0;
@@ -520,12 +528,16 @@ impl Rule {
 
                             let bus_controller = BusController::new(
                                 endpoint_id,
-                                options.label,
-                                options.token,
+                                options.label.clone(),
+                                options.token.clone(),
                                 sender,
                                 io_hub,
                             );
-                            bus_controller.run();
+                            if let Err(err) = bus_controller.run() {
+                                log::error!("bus controller: {:?}", err);
+                                wait!();
+                                continue;
+                            }
 
                             let rule = Rule::Server {
                                 endpoint_id,
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 6bad88b..a844bf5 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -205,7 +205,7 @@ pub(crate) fn look_up(
         let mut encoded_msg = msg.into_encoded()?;
         encoded_msg.send(&remote)?;
 
-        let mut io_hub: IoHub = IoHub::for_endpoint(Local(read_fd), im);
+        let mut io_hub: IoHub = IoHub::for_endpoint(Local(read_fd), im)?;
         // Wait ack
         let encoded_msg = io_hub.recv(Some(Duration::from_secs(2)), Some(&remote))?;
         let ack = message::ConnectMessageAck::decode(
@@ -256,7 +256,7 @@ pub(crate) fn register(
 
         let (bus_tx, bus_rx) = mpsc::channel();
         Ok((
-            IoHub::for_bus_controller(fd, bus_rx, im),
+            IoHub::for_bus_controller(fd, bus_rx, im)?,
             bus_tx,
             EndpointID::new(),
         ))
@@ -276,28 +276,28 @@ impl IoHub {
         listener: Fd,
         bus_rx: mpsc::Receiver<EncodedMessage>,
         im: Arc<IoMultiplexing>,
-    ) -> Self {
-        im.register(&listener);
+    ) -> io::Result<Self> {
+        im.register(&listener)?;
 
-        Self {
+        Ok(Self {
             bus_rx: Some(bus_rx),
             local_list: vec![],
             listener: Some(listener),
             in_buffer: Vec::with_capacity(2),
             im,
-        }
+        })
     }
 
-    fn for_endpoint(local: Local, im: Arc<IoMultiplexing>) -> Self {
-        im.register(&local.0);
+    fn for_endpoint(local: Local, im: Arc<IoMultiplexing>) -> io::Result<Self> {
+        im.register(&local.0)?;
 
-        Self {
+        Ok(Self {
             bus_rx: None,
             local_list: vec![local],
             listener: None,
             in_buffer: Vec::with_capacity(2),
             im,
-        }
+        })
     }
 
     pub fn recv(
@@ -358,8 +358,9 @@ impl IoHub {
                                     &MAXIMUM_BUF_SIZE as *const _ as _,
                                     mem::size_of_val(&MAXIMUM_BUF_SIZE) as _,
                                 );
-                                self.im.register(&local.0);
-                                self.local_list.push(local);
+                                if self.im.register(&local.0).is_ok() {
+                                    self.local_list.push(local);
+                                }
                             }
                         }
                         continue;
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index 3e8e027..18cd598 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -1,5 +1,5 @@
 use super::Fd;
-use std::{ffi, mem, ptr, time::Duration};
+use std::{ffi, io, mem, ptr, time::Duration};
 
 pub struct IoMultiplexing {
     fd: Fd,
@@ -7,35 +7,42 @@ pub struct IoMultiplexing {
 }
 
 impl IoMultiplexing {
-    pub fn new() -> Self {
+    pub fn new() -> io::Result<Self> {
         let fd = unsafe {
             let fd = libc::epoll_create1(libc::EPOLL_CLOEXEC);
-            assert_ne!(fd, -1);
+            if fd == -1 {
+                return Err(io::Error::last_os_error());
+            }
             Fd::from_raw(fd)
         };
 
         let waker_fd = unsafe {
             let efd = libc::eventfd(0, libc::EFD_CLOEXEC);
-            assert_ne!(efd, -1);
+            if efd == -1 {
+                return Err(io::Error::last_os_error());
+            }
             Fd::from_raw(efd)
         };
 
         let im = Self { fd, waker_fd };
 
-        im.register(&im.waker_fd);
+        im.register(&im.waker_fd)?;
 
-        im
+        Ok(im)
     }
 
-    pub(crate) fn register(&self, fd: &Fd) {
+    pub(crate) fn register(&self, fd: &Fd) -> io::Result<()> {
         unsafe {
             let mut ev = libc::epoll_event {
                 events: libc::EPOLLIN as _,
                 u64: fd.as_raw() as _,
             };
             let r = libc::epoll_ctl(self.fd.as_raw(), libc::EPOLL_CTL_ADD, fd.as_raw(), &mut ev);
-            assert_ne!(r, -1);
+            if r == -1 {
+                return Err(io::Error::last_os_error());
+            }
         }
+        Ok(())
     }
 
     // Must be called before fd is closed, the registration otherwise remains as long as any
diff --git a/ipmb/src/platform/macos/mod.rs b/ipmb/src/platform/macos/mod.rs
index dbbd387..0b7445f 100644
--- a/ipmb/src/platform/macos/mod.rs
+++ b/ipmb/src/platform/macos/mod.rs
@@ -736,7 +736,7 @@ pub(crate) struct IoMultiplexing {
 }
 
 impl IoMultiplexing {
-    pub fn new() -> Self {
+    pub fn new() -> io::Result<Self> {
         unsafe {
             let fd = libc::kqueue();
             assert_ne!(fd, -1); // TODO
@@ -753,10 +753,10 @@ impl IoMultiplexing {
             let r = libc::kevent(fd.as_raw_fd(), &event, 1, ptr::null_mut(), 0, ptr::null());
             assert_ne!(r, -1); // TODO
 
-            Self {
+            Ok(Self {
                 fd,
                 waker: event.ident,
-            }
+            })
         }
     }
 
diff --git a/ipmb/src/platform/windows/mod.rs b/ipmb/src/platform/windows/mod.rs
index 8cac86e..535d9ca 100644
--- a/ipmb/src/platform/windows/mod.rs
+++ b/ipmb/src/platform/windows/mod.rs
@@ -867,18 +867,18 @@ pub(crate) struct IoMultiplexing {
 }
 
 impl IoMultiplexing {
-    pub fn new() -> Self {
+    pub fn new() -> io::Result<Self> {
         unsafe {
             let completion_port: Foundation::HANDLE =
                 IO::CreateIoCompletionPort(Foundation::INVALID_HANDLE_VALUE, None, 0, 0)
                     .expect("CreateIoCompletionPort failed");
             let completion_port = OwnedHandle::from_raw_handle(completion_port.0 as _);
 
-            Self {
+            Ok(Self {
                 completion_port: Handle(completion_port),
                 waker: 0, // We use 0 as waker key, because a valid handle will never be 0
                 sa: SecurityAttr::allow_everyone().unwrap(),
-            }
+            })
         }
     }
 
-- 
2.43.0


From 02d48ef837af5204c1fda4094227d769dbc9a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:00 +0000
Subject: [PATCH 36/36] fix: send must not wait for the receiver when only its
 own connection was closed

---
 ipmb/src/lib.rs            | 8 +++++++-
 ipmb/src/platform/linux.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index fe366b4..d1fd99c 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -141,17 +141,23 @@ impl<T: MessageBox> EndpointSender<T> {
                     remote,
                     io_hub: _,
                     reader_closed: _,
-                    im: _,
+                    #[cfg_attr(not(target_os = "linux"), allow(unused_variables))]
+                    im,
                     epoch,
                 } => match msg.send(remote) {
                     Err(Error::Disconnect) => {
                         let epoch = *epoch;
+                        #[cfg(target_os = "linux")]
+                        let im = im.clone();
                         drop(rule);
 
                         // The receiver may have rejoined meanwhile and hold the lock as long as it
                         // is waiting for a message
                         let mut rule = match self.rule.try_write() {
                             Err(TryLockError::WouldBlock) => {
+                                // It doesn't notice when the bus only closed our connection
+                                #[cfg(target_os = "linux")]
+                                im.wake();
                                 thread::sleep(Duration::from_millis(1));
                                 continue;
                             }
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index a844bf5..4804f5e 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -305,7 +305,6 @@ impl IoHub {
         timeout: Option<Duration>,
         remote: Option<&Remote>,
     ) -> Result<EncodedMessage, Error> {
-        let _ = remote;
         // A timeout too large to be represented never expires
         let deadline = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
@@ -335,9 +334,11 @@ impl IoHub {
                 }
             }
 
+            let mut woken = false;
             for ev in self.in_buffer.drain(..) {
                 if ev.u64 == self.im.waker_fd.as_raw() as u64 {
                     self.im.clear_waker();
+                    woken = true;
                     continue;
                 }
                 if let Some(ref listener) = self.listener {
@@ -380,6 +381,11 @@ impl IoHub {
                     break 'ret r;
                 }
             }
+
+            // A sender waits for us to rejoin
+            if woken && remote.is_some_and(Remote::is_dead) {
+                break Err(Error::Disconnect);
+            }
         }
     }
 
-- 
2.43.0

