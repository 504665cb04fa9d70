From cec70174831c551f639680dd05d73e39dc42aadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 01/38] verif: hooks behind --cfg lxi_verif (instrumented spin
 mutex, in-memory HiSLIP session entry)

---
 device/src/lib.rs        |   3 ++
 device/src/lock.rs       |   3 ++
 device/src/status.rs     |   4 ++
 device/src/verif.rs      | 112 +++++++++++++++++++++++++++++++++++++++
 hislip/src/server/mod.rs |  15 ++++++
 5 files changed, 137 insertions(+)
 create mode 100644 device/src/verif.rs

diff --git a/device/src/lib.rs b/device/src/lib.rs
index dd6e78d..6b62605 100644
--- a/device/src/lib.rs
+++ b/device/src/lib.rs
@@ -22,6 +22,9 @@ pub mod status;
 pub mod trigger;
 /// Example/debugging devices
 pub mod util;
+/// Verification hooks
+#[cfg(lxi_verif)]
+pub mod verif;
 
 #[derive(Debug)]
 #[non_exhaustive]
diff --git a/device/src/lock.rs b/device/src/lock.rs
index 6595319..f1af92d 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -2,6 +2,9 @@ use alloc::{sync::Arc, vec::Vec};
 use futures::channel::oneshot::{channel, Receiver, Sender};
 
 pub use futures::lock::{Mutex, MutexGuard};
+#[cfg(lxi_verif)]
+pub use crate::verif::SpinMutex;
+#[cfg(not(lxi_verif))]
 pub use spin::Mutex as SpinMutex;
 
 /// An error returned by a locking operation
diff --git a/device/src/status.rs b/device/src/status.rs
index da56575..4e866ed 100644
--- a/device/src/status.rs
+++ b/device/src/status.rs
@@ -1,5 +1,9 @@
 use alloc::{sync::Arc, vec::Vec};
 use futures::channel::mpsc;
+
+#[cfg(lxi_verif)]
+use crate::verif::SpinMutex as Mutex;
+#[cfg(not(lxi_verif))]
 use spin::Mutex;
 
 /// A mpmc channel where **ALL** receiver receives the sent message (i.e. a broadcast channel).
diff --git a/device/src/verif.rs b/device/src/verif.rs
new file mode 100644
index 0000000..ea1aaf0
--- /dev/null
+++ b/device/src/verif.rs
@@ -0,0 +1,112 @@
+//! Verification hooks, only compiled with `--cfg lxi_verif`.
+//!
+//! Provides a drop-in replacement for [spin::Mutex] which reports every acquisition attempt,
+//! contention and release to a globally installed hook, so that an external scheduler can
+//! control how critical sections of concurrent threads interleave.
+use core::ops::{Deref, DerefMut};
+
+/// What is about to happen/has happened to a mutex
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Event {
+    /// About to try to take the mutex
+    Acquire,
+    /// The mutex was taken by someone else, will try again when the hook returns
+    Contended,
+    /// The mutex was just released
+    Released,
+}
+
+pub type Hook = fn(Event, usize);
+
+static HOOK: spin::Once<Hook> = spin::Once::new();
+
+/// Install hook, may only be done once.
+pub fn install(hook: Hook) {
+    HOOK.call_once(|| hook);
+}
+
+fn call(event: Event, addr: usize) {
+    if let Some(hook) = HOOK.get() {
+        hook(event, addr)
+    }
+}
+
+pub struct SpinMutex<T: ?Sized> {
+    inner: spin::Mutex<T>,
+}
+
+impl<T> SpinMutex<T> {
+    pub const fn new(value: T) -> Self {
+        Self {
+            inner: spin::Mutex::new(value),
+        }
+    }
+
+    pub fn into_inner(self) -> T {
+        self.inner.into_inner()
+    }
+}
+
+impl<T: ?Sized> SpinMutex<T> {
+    fn addr(&self) -> usize {
+        &self.inner as *const _ as *const u8 as usize
+    }
+
+    pub fn lock(&self) -> SpinMutexGuard<'_, T> {
+        let addr = self.addr();
+        call(Event::Acquire, addr);
+        loop {
+            if let Some(guard) = self.inner.try_lock() {
+                break SpinMutexGuard {
+                    addr,
+                    guard: Some(guard),
+                };
+            }
+            call(Event::Contended, addr);
+            core::hint::spin_loop();
+        }
+    }
+
+    pub fn try_lock(&self) -> Option<SpinMutexGuard<'_, T>> {
+        let addr = self.addr();
+        call(Event::Acquire, addr);
+        self.inner.try_lock().map(|guard| SpinMutexGuard {
+            addr,
+            guard: Some(guard),
+        })
+    }
+
+    pub fn is_locked(&self) -> bool {
+        self.inner.is_locked()
+    }
+
+    pub fn get_mut(&mut self) -> &mut T {
+        self.inner.get_mut()
+    }
+}
+
+pub struct SpinMutexGuard<'a, T: ?Sized> {
+    addr: usize,
+    guard: Option<spin::MutexGuard<'a, T>>,
+}
+
+impl<'a, T: ?Sized> Deref for SpinMutexGuard<'a, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.guard.as_ref().unwrap()
+    }
+}
+
+impl<'a, T: ?Sized> DerefMut for SpinMutexGuard<'a, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.guard.as_mut().unwrap()
+    }
+}
+
+impl<'a, T: ?Sized> Drop for SpinMutexGuard<'a, T> {
+    fn drop(&mut self) {
+        drop(self.guard.take());
+        call(Event::Released, self.addr);
+    }
+}
diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index e86db47..4130155 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -189,6 +189,21 @@ where
         Ok(())
     }
 
+    /// Verification hook: serve a single connection over any stream
+    #[cfg(lxi_verif)]
+    pub async fn verif_handle_session<S, SRQ>(
+        &self,
+        peer: String,
+        stream: S,
+        srq: SRQ,
+    ) -> Result<(), io::Error>
+    where
+        S: AsyncRead + AsyncWrite + Unpin,
+        SRQ: Stream<Item = u8> + Unpin,
+    {
+        self.handle_session(peer, stream, srq).await
+    }
+
     async fn handle_session<S, SRQ>(
         &self,
         peer: String,
-- 
2.43.0


From 794095fcb7ee4d0450c0455d85ad06f5c1809998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 02/38] verif: hook storage without spin::Once

---
 device/src/verif.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/device/src/verif.rs b/device/src/verif.rs
index ea1aaf0..0cc9524 100644
--- a/device/src/verif.rs
+++ b/device/src/verif.rs
@@ -18,15 +18,16 @@ pub enum Event {
 
 pub type Hook = fn(Event, usize);
 
-static HOOK: spin::Once<Hook> = spin::Once::new();
+static HOOK: spin::Mutex<Option<Hook>> = spin::Mutex::new(None);
 
-/// Install hook, may only be done once.
+/// Install hook
 pub fn install(hook: Hook) {
-    HOOK.call_once(|| hook);
+    *HOOK.lock() = Some(hook);
 }
 
 fn call(event: Event, addr: usize) {
-    if let Some(hook) = HOOK.get() {
+    let hook = *HOOK.lock();
+    if let Some(hook) = hook {
         hook(event, addr)
     }
 }
-- 
2.43.0


From 85204c51a13ba1b761cf50304e2bce33556b4822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 03/38] fix: re-check the lock once the device has been
 obtained

A client waiting for (or trying to get) the device could be handed it after
another client acquired an exclusive/shared lock in the meantime.
---
 device/src/lock.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index f1af92d..f197e4d 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -349,7 +349,10 @@ impl<DEV> LockHandle<DEV> {
         // Check any active locks
         self.can_lock()?;
         // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // Someone else may have acquired a lock since checking
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Lock device if allowed
@@ -369,8 +372,11 @@ impl<DEV> LockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
-                            log::trace!(id=self.id; "Locked!");
-                            return Ok(guard)
+                            // Someone else may have acquired a lock while waiting for device
+                            if self.can_lock().is_ok() {
+                                log::trace!(id=self.id; "Locked!");
+                                return Ok(guard)
+                            }
                         },
                         // Interrupted by a new lock being granted/released
                         _event = l => {
@@ -450,7 +456,10 @@ impl<DEV> RemoteLockHandle<DEV> {
         // Check any active locks
         self.can_lock()?;
         // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // Someone else may have acquired a lock since checking
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Wait for device becoming onlocked (or handle acquiring a lock) and available
@@ -473,8 +482,11 @@ impl<DEV> RemoteLockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
-                            log::trace!("Locked!");
-                            return Ok(guard)
+                            // Someone else may have acquired a lock while waiting for device
+                            if self.can_lock().is_ok() {
+                                log::trace!("Locked!");
+                                return Ok(guard)
+                            }
                         },
                         // Interrupted by a new lock being granted/released
                         _event = l => {
-- 
2.43.0


From d4dcbc65ad7cba945f6605baadaca16653eb8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:50 +0000
Subject: [PATCH 04/38] fix: do not keep listeners that are no longer waiting

Every access to the device left a listener behind until the next lock event,
which may never happen.
---
 device/src/lock.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index f197e4d..81a0d18 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -82,6 +82,8 @@ impl SharedLock {
 
     fn listen(&mut self) -> Receiver<()> {
         let (sender, receiver) = channel();
+        // Forget listeners which are no longer waiting
+        self.event.retain(|sender| !sender.is_canceled());
         self.event.push(sender);
         receiver
     }
-- 
2.43.0


From 2822829cdc7370606d4fc9466e48e21258ee8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 05/38] fix: forget closed status receivers when a new one is
 created

---
 device/src/status.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/device/src/status.rs b/device/src/status.rs
index 4e866ed..021994b 100644
--- a/device/src/status.rs
+++ b/device/src/status.rs
@@ -38,6 +38,8 @@ impl Sender {
 
     pub fn get_new_receiver(&mut self) -> Receiver {
         let mut senders = self.senders.lock();
+        // Forget receivers which are gone even if nothing is ever sent
+        senders.retain(|sender| !sender.is_closed());
         let (sender, receiver) = mpsc::channel(1);
         senders.push(sender);
         receiver
-- 
2.43.0


From 0575619a21ea6e03f281395ab2a30784155f9d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:29 +0000
Subject: [PATCH 06/38] fix: refuse a second asynchronous channel for a session

---
 hislip/src/server/session/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/mod.rs b/hislip/src/server/session/mod.rs
index afba926..197dd7a 100644
--- a/hislip/src/server/session/mod.rs
+++ b/hislip/src/server/session/mod.rs
@@ -65,7 +65,7 @@ impl SharedSession {
         // !matches!(self.state, SessionState::Handshake) // Just looks weird
         match self.state {
             SessionState::Handshake => false,
-            _ => false,
+            _ => true,
         }
     }
 
-- 
2.43.0


From 371f0e2c9ce7638b7188053fce72d04f6ffdbc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:54 +0000
Subject: [PATCH 07/38] fix: do not keep session state locked while waiting on
 the asynchronous channel

---
 hislip/src/server/session/asynchronous.rs | 54 ++++++++++++-----------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 3b23d4e..7145115 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -10,7 +10,7 @@ use byteorder::{ByteOrder, NetworkEndian};
 use futures::future::Either;
 use futures::lock::Mutex;
 use futures::{pin_mut, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, FutureExt, Stream};
-use lxi_device::lock::{LockHandle, SharedLockError, SharedLockMode, SpinMutex};
+use lxi_device::lock::{LockHandle, RemoteLockHandle, SharedLockError, SharedLockMode, SpinMutex};
 use lxi_device::{Device, DeviceError};
 
 use crate::common::errors::{Error, FatalErrorCode, NonFatalErrorCode};
@@ -35,6 +35,9 @@ where
     /// Device
     handle: Arc<SpinMutex<LockHandle<DEV>>>,
 
+    /// Used to wait without keeping handle or shared resources locked
+    remote: RemoteLockHandle<DEV>,
+
     clear: Sender<()>,
 }
 
@@ -49,11 +52,13 @@ where
         handle: Arc<SpinMutex<LockHandle<DEV>>>,
         clear: Sender<()>,
     ) -> Self {
+        let remote = RemoteLockHandle::new(handle.clone());
         Self {
             id,
             config,
             shared,
             handle,
+            remote,
             clear,
         }
     }
@@ -147,8 +152,8 @@ where
                                 // Release
                                 let message_id = message_parameter;
                                 log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Release async lock");
-                                let mut handle = self.handle.lock();
-                                let control = match handle.try_release() {
+                                let res = self.handle.lock().try_release();
+                                let control = match res {
                                     Ok(SharedLockMode::Exclusive) => {
                                         ReleaseLockControl::SuccessExclusive
                                     }
@@ -174,16 +179,15 @@ where
 
                                         log::debug!(peer=peer.to_string(), session_id=self.id, timeout=timeout; "Async lock: {:?}", lockstr);
                                         // Try to acquire lock
-                                        let mut handle = self.handle.lock();
                                         let res = if timeout == 0 {
                                             // Try to lock immediately
-                                            handle.try_acquire(lockstr.as_bytes())
+                                            self.remote.try_acquire(lockstr.as_bytes())
                                         } else {
                                             // Try to acquire lock before timeout
                                             // TODO: Cannot be cancelled by AsyncClearDevice
                                             future::timeout(
                                                 Duration::from_millis(timeout as u64),
-                                                handle.async_acquire(lockstr.as_bytes()),
+                                                self.remote.async_acquire(lockstr.as_bytes()),
                                             )
                                             .await
                                             .map_err(|_| SharedLockError::Timeout)
@@ -216,57 +220,53 @@ where
                             ..
                         } => {
                             log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Remote/local request = {}", request);
-                            let mut shared = self.shared.lock().await;
-                            let handle = self.handle.lock();
+                            // Set and quickly release
+                            match request {
+                                0 | 2 => self.shared.lock().await.enable_remote = false,
+                                1 | 3 | 4 | 5 => self.shared.lock().await.enable_remote = true,
+                                _ => {}
+                            }
                             let res = match request {
                                 0 => {
                                     // Disable remote
-                                    shared.enable_remote = false;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    let mut dev = self.remote.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
                                 }
                                 1 => {
                                     // Enable remote
-                                    shared.enable_remote = true;
                                     Ok(())
                                 }
                                 2 => {
                                     // Disable remote and go to local
-                                    shared.enable_remote = false;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    let mut dev = self.remote.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
                                 }
                                 3 => {
                                     //Enable remote and go to remote
-                                    shared.enable_remote = true;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    let mut dev = self.remote.async_lock().await.unwrap();
                                     dev.set_remote(false)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-                                    shared.enable_remote = true;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    let mut dev = self.remote.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     Ok(())
                                 }
                                 5 => {
                                     // Enable remote, got to remote, and set local lockout
-                                    shared.enable_remote = true;
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    let mut dev = self.remote.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     dev.set_remote(true)
                                 }
                                 6 => {
                                     // Go to local without changing state of remote enable
-                                    let mut dev = handle.async_lock().await.unwrap();
+                                    let mut dev = self.remote.async_lock().await.unwrap();
                                     dev.set_remote(false)
                                 }
                                 _ => Err(DeviceError::NotSupported),
                             };
-                            drop(shared);
-                            drop(handle);
 
                             match res {
                                 Ok(_) => {
@@ -351,15 +351,17 @@ where
 
                             let stb = {
                                 let shared = self.shared.lock().await;
-                                let handle = self.handle.lock();
-                                let mut dev = handle.inner_lock().await;
+                                let sent = shared.sent_message_id;
+                                let enable_remote = shared.enable_remote;
+                                drop(shared);
+
+                                let mut dev = self.remote.inner_lock().await;
 
                                 // Calculate MAV bit
-                                let sent = shared.sent_message_id;
                                 let mav = if sent > message_id { 0x10 } else { 0x00 };
 
                                 // Enable remote
-                                if shared.enable_remote {
+                                if enable_remote {
                                     let _res = dev.set_remote(true);
                                 }
 
-- 
2.43.0


From 7cd93281fe0abeb338d80d8eed50a209e1fdefdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 08/38] fix: go to remote when requested by
 AsyncRemoteLocalControl 3

---
 hislip/src/server/session/asynchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 7145115..8b8f5d9 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -246,7 +246,7 @@ where
                                 3 => {
                                     //Enable remote and go to remote
                                     let mut dev = self.remote.async_lock().await.unwrap();
-                                    dev.set_remote(false)
+                                    dev.set_remote(true)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-- 
2.43.0


From 33b4477b4c186d625008ceba4fd49e8a2eb847a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 09/38] fix: do not end the session when another service
 request arises before the status query

---
 hislip/src/server/session/asynchronous.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 8b8f5d9..c0c1394 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -95,7 +95,9 @@ where
                                 .write_to(&mut wr)
                                 .await?
                         }
-                        _ => {
+                        // Client has already been notified
+                        Some(_) => {}
+                        None => {
                             send_fatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut wr, FatalErrorCode::UnidentifiedError,
                                 "Server shutdown",
-- 
2.43.0


From f3d1653a178aafca1ac13f83d8a36f26db5d0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 10/38] fix: forget the identification query once it has been
 answered

---
 hislip/src/server/session/synchronous.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index a368cae..0e7a4ee 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -236,10 +236,9 @@ where
                                         {
                                             self.config.short_idn.clone()
                                         } else {
-                                            let data = dev.execute(&buffer);
-                                            buffer.clear();
-                                            data
+                                            dev.execute(&buffer)
                                         };
+                                        buffer.clear();
 
                                         // Send back response
                                         if let Some(data) = data {
-- 
2.43.0


From 73684936d500eab7104b65b11f8253845d8c3eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 11/38] fix: do not panic when the client announces a maximum
 message size of zero

---
 hislip/src/server/session/synchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 0e7a4ee..bd5ff9d 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -243,7 +243,7 @@ where
                                         // Send back response
                                         if let Some(data) = data {
                                             let mut chunks = data
-                                                .chunks(shared.max_message_size as usize)
+                                                .chunks(shared.max_message_size.clamp(1, usize::MAX as u64) as usize)
                                                 .peekable();
                                             drop(shared);
 
-- 
2.43.0


From e3f97b4ca41dddfa3576ee09f4680114382aef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 12/38] fix: do not lose the device clear which interrupted a
 response

---
 hislip/src/server/session/synchronous.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index bd5ff9d..6b247d8 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -249,7 +249,8 @@ where
 
                                             while let Some(chunk) = chunks.next() {
                                                 // Stop sending if a clear has been received on async channel
-                                                if self.clear.try_recv().is_ok() {
+                                                // (which is then handled when the next message is received)
+                                                if !self.clear.is_empty() {
                                                     break;
                                                 }
 
-- 
2.43.0


From cae8b211ddee3f750b4a0f69cb1614373c184ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:59 +0000
Subject: [PATCH 13/38] fix: do not keep the device while sending to the client

---
 hislip/src/server/session/synchronous.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 6b247d8..149e911 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -174,6 +174,7 @@ where
                             message_type: MessageType::VendorSpecific(code),
                             ..
                         } => {
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream, NonFatalErrorCode::UnrecognizedVendorDefinedMessage,
                                 "Unrecognized Vendor Defined Message ({})", code
@@ -220,6 +221,7 @@ where
                                     shared.read_message_id = message_id;
 
                                     if buffer.try_reserve_exact(data.len()).is_err() {
+                                        drop(dev);
                                         send_fatal!(peer=peer.to_string(), session_id=self.id;
                                             &mut stream,
                                             FatalErrorCode::UnidentifiedError,
@@ -240,6 +242,9 @@ where
                                         };
                                         buffer.clear();
 
+                                        // A slow client should not keep others from using the device
+                                        drop(dev);
+
                                         // Send back response
                                         if let Some(data) = data {
                                             let mut chunks = data
@@ -277,6 +282,8 @@ where
                                 }
                                 // Initial handshake
                                 SessionState::Handshake => {
+                                    drop(shared);
+                                    drop(dev);
                                     send_fatal!(peer=peer.to_string(), session_id=self.id;
                                         &mut stream,
                                         FatalErrorCode::AttemptUseWithoutBothChannels,
@@ -305,6 +312,7 @@ where
                                 }
                                 // Initial handshake
                                 SessionState::Handshake => {
+                                    drop(dev);
                                     send_fatal!(peer=peer.to_string(), session_id=self.id;
                                         &mut stream,
                                         FatalErrorCode::AttemptUseWithoutBothChannels,
@@ -318,6 +326,7 @@ where
                             ..
                         } => {
                             // Should've been handled above when AsyncDeviceClear was sent
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream,
                                 NonFatalErrorCode::UnidentifiedError,
@@ -334,6 +343,7 @@ where
                         } if protocol >= PROTOCOL_2_0 => {
                             log::debug!(peer=peer.to_string(), session_id=self.id; "Start/end TLS");
 
+                            drop(dev);
                             send_fatal!(
                                 &mut stream,
                                 FatalErrorCode::SecureConnectionFailed,
@@ -350,6 +360,7 @@ where
                         } if protocol >= PROTOCOL_2_0 => {
                             log::debug!(peer=peer.to_string(), session_id=self.id; "Authentication Start/Exchange");
 
+                            drop(dev);
                             send_fatal!(
                                 &mut stream,
                                 FatalErrorCode::SecureConnectionFailed,
@@ -357,6 +368,7 @@ where
                             )
                         }
                         msg => {
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream,
                                 NonFatalErrorCode::UnidentifiedError,
@@ -367,6 +379,7 @@ where
                 }
                 // Invalid message
                 Err(err) => {
+                    drop(dev);
                     if err.is_fatal() {
                         Message::from(err).write_to(&mut stream).await?;
                         return Err(io::ErrorKind::Other.into());
-- 
2.43.0


From c4c0228d79b6426950b7eff81bdadaa254bbe173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:00 +0000
Subject: [PATCH 14/38] fix: skip the payload of oversized messages and ignore
 truncated ones

---
 hislip/src/common/messages.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 960c427..27a7144 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -64,6 +64,11 @@ impl Message {
         let message_parameter = BigEndian::read_u32(&buf[4..8]);
 
         if len > maxlen {
+            // Skip payload so that the next message is found
+            let skipped = futures::io::copy(reader.take(len), &mut futures::io::sink()).await?;
+            if skipped < len {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             Ok(Err(Error::NonFatal(
                 NonFatalErrorCode::MessageTooLarge,
                 "Message payload too large".to_string(),
@@ -77,6 +82,9 @@ impl Message {
                 )));
             }
             reader.take(len).read_to_end(&mut payload).await?;
+            if (payload.len() as u64) < len {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             match MessageType::from_message_type(buf[2]).ok_or_else(|| {
                 Error::NonFatal(
                     NonFatalErrorCode::UnrecognizedMessageType,
-- 
2.43.0


From 95154f253c7a70524930be5123ccbc0827940447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:01 +0000
Subject: [PATCH 15/38] fix: check the payload length of AsyncEndTLS

---
 hislip/src/server/session/asynchronous.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index c0c1394..15cd341 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -429,6 +429,12 @@ where
                             payload,
                         } if protocol >= PROTOCOL_2_0 => {
                             // Only supported >= 2.0
+                            if payload.len() != 4 {
+                                send_fatal!(peer=peer.to_string(), session_id=self.id;
+                                    &mut wr, FatalErrorCode::PoorlyFormattedMessageHeader,
+                                    "Expected 4 bytes in AsyncEndTLS payload"
+                                )
+                            }
 
                             let _control = RmtDeliveredControl(control_code);
                             let message_id_sent = message_parameter;
-- 
2.43.0


From 019d77ad568bf6bb5166c89f5e614decb0dbb65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 16/38] fix: let a device clear win over obtaining the device

---
 hislip/src/server/session/synchronous.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 149e911..1bcc0ce 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -4,7 +4,7 @@ use std::str::from_utf8;
 use async_std::channel::Receiver;
 use async_std::sync::Arc;
 use futures::lock::Mutex;
-use futures::{select, AsyncRead, AsyncWrite, AsyncWriteExt, FutureExt};
+use futures::{select_biased, AsyncRead, AsyncWrite, AsyncWriteExt, FutureExt};
 use lxi_device::lock::RemoteLockHandle;
 use lxi_device::trigger::Source;
 use lxi_device::Device;
@@ -155,14 +155,14 @@ where
 
             // Wait for device becoming available or a lock is acquired
             // Abort the lock attempt if a clear device is started
-            let mut dev = select! {
-                res = self.handle.async_lock().fuse() => res.unwrap(),
+            let mut dev = select_biased! {
                 _abort = self.clear.recv().fuse() => {
                     // Clear buffer
                     buffer.clear();
                     self.clear_buffer(&mut stream, peer.clone(), msg).await?;
                     continue;
                 }
+                res = self.handle.async_lock().fuse() => res.unwrap(),
             };
 
             // Do not read messages unless a loc
-- 
2.43.0


From 0d24b4f3814c0b8968b8381abc107ed354612b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 17/38] fix: re-check the lock before clearing the device

---
 hislip/src/server/session/synchronous.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 1bcc0ce..d0e0fa1 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -107,7 +107,10 @@ where
                 }) => {
                     if self.handle.can_lock().is_ok() {
                         let mut dev = self.handle.inner_lock().await;
-                        let _res = dev.clear();
+                        // Might have been locked while waiting for the device
+                        if self.handle.can_lock().is_ok() {
+                            let _res = dev.clear();
+                        }
                     }
 
                     break self
-- 
2.43.0


From dda40de764453306899d08fc094d788b3a79c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:34 +0000
Subject: [PATCH 18/38] fix: do not keep all sessions locked while refusing an
 asynchronous channel

---
 hislip/src/server/mod.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index 4130155..626d48f 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -344,16 +344,14 @@ where
                         } => {
                             // Connect to existing session
                             let id = (message_parameter & 0x0000FFFF) as u16;
-                            let session = {
-                                let mut guard = self.inner.lock().await;
-                                if let Some(s) = guard.get_session(id) {
-                                    s
-                                } else {
-                                    send_fatal!(peer=format!("{}", peer), session_id=id;
-                                    &mut stream, FatalErrorCode::InvalidInitialization,
-                                        "Invalid session id"
-                                    );
-                                }
+                            let session = self.inner.lock().await.get_session(id);
+                            let session = if let Some(s) = session {
+                                s
+                            } else {
+                                send_fatal!(peer=format!("{}", peer), session_id=id;
+                                &mut stream, FatalErrorCode::InvalidInitialization,
+                                    "Invalid session id"
+                                );
                             };
 
                             let (shared, device) = session.clone();
-- 
2.43.0


From 30ef45092bae8ef97254362d7dc7b9df5c482bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 19/38] fix: set the message-available bit instead of clearing
 all others in VXI-11 READSTB

---
 vxi11/src/server/vxi11/core_service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 894df22..0d1d8fe 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -318,7 +318,7 @@ where
                                     // Replace MAV bit
                                     resp.stb &= 0xef;
                                     if !link.out_buf.is_empty() {
-                                        resp.stb &= 0x10;
+                                        resp.stb |= 0x10;
                                     }
                                     xdr::DeviceErrorCode::NoError
                                 }
-- 
2.43.0


From 98afd9bf212306b447f61bf23ce6a922e104c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 20/38] fix: VXI-11 READ without the termination character in
 its response panicked, and never gave it as reason

---
 vxi11/src/server/vxi11/core_service.rs | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 0d1d8fe..edff5e3 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -251,22 +251,22 @@ where
                     // Execute if END is set
                     resp.error = match dev {
                         Ok(_) => {
-                            let to_take = if parms.flags.is_termcharset() {
-                                let pos = link.out_buf.iter().position(|c| c.eq(&parms.term_char));
-
-                                // Take whatever is first terminator, or end
-                                let to_take = pos.map_or(parms.request_size as usize, |x| {
-                                    min(link.out_buf.len(), x + 1)
-                                });
-                                // Returning because of term_char
-                                if matches!(pos, Some(c) if c == to_take) {
-                                    resp.reason |= 0x2;
-                                }
-                                to_take
+                            let term = if parms.flags.is_termcharset() {
+                                link.out_buf.iter().position(|c| c.eq(&parms.term_char))
                             } else {
-                                link.out_buf.len()
+                                None
+                            };
+
+                            // Take whatever is first terminator, or end
+                            let to_take = min(
+                                term.map_or(link.out_buf.len(), |x| x + 1),
+                                parms.request_size as usize,
+                            );
+
+                            // Returning because of term_char
+                            if matches!(term, Some(x) if x + 1 == to_take) {
+                                resp.reason |= 0x2;
                             }
-                            .min(parms.request_size as usize);
 
                             // Returning because of request_size
                             if to_take == parms.request_size as usize {
-- 
2.43.0


From ac8d32c8bfcabbe256f97b22c7e60e6b53cfd76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 21/38] fix: a refused VXI-11 DEVICE_CLEAR must not clear the
 buffers of the link

---
 vxi11/src/server/vxi11/core_service.rs | 8 +++++---
 vxi11/src/server/vxi11/mod.rs          | 5 -----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index edff5e3..b1aca9d 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -382,8 +382,6 @@ where
                 let resp = xdr::DeviceError {
                     error: match get_link!(self.links, &parms.lid.0) {
                         Some(link) => {
-                            link.clear();
-
                             let dev = lock_device!(
                                 link.handle,
                                 parms.flags,
@@ -392,7 +390,11 @@ where
                             );
 
                             match dev {
-                                Ok(mut d) => d.clear().into(),
+                                Ok(mut d) => {
+                                    link.in_buf.clear();
+                                    link.out_buf.clear();
+                                    d.clear().into()
+                                }
                                 Err(err) => err.into(),
                             }
                         }
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index 049517a..777705b 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -103,11 +103,6 @@ impl<DEV> Link<DEV> {
         )
     }
 
-    fn clear(&mut self) {
-        self.in_buf.clear();
-        self.out_buf.clear();
-    }
-
     fn close(&mut self) {
         log::trace!("Link {} closed", self.id);
         // Release any held locks
-- 
2.43.0


From ec5af0bfb794a882bfad9fdf1433b504b50ead3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 22/38] fix: VXI-11 CREATE_LINK reports a lock it could not
 get, and waits for it without holding up other clients

---
 vxi11/src/server/vxi11/core_service.rs | 34 ++++++++++++++++----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index b1aca9d..6a73421 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -147,29 +147,37 @@ where
                     max_recv_size: self.max_recv_size,
                 };
 
-                let mut inner = self.inner.lock().await;
-                resp.error = match inner.new_link(&parms.device) {
+                let new_link = self.inner.lock().await.new_link(&parms.device);
+                resp.error = match new_link {
                     Ok((lid, mut link)) => {
-                        resp.lid = lid.into();
-
                         // Try to lock
-                        if parms.lock_device {
+                        let locked = if parms.lock_device {
                             let res = timeout(
                                 Duration::from_millis(parms.lock_timeout as u64),
                                 link.handle.async_acquire_exclusive(),
                             )
                             .await
                             .map_or(Err(SharedLockError::Timeout), |f| f);
-                            match res {
-                                Ok(()) => {
-                                    log::debug!(peer=format!("{}", self.peer), link=lid; "Exclusive lock acquired")
-                                }
-                                Err(err) => resp.error = err.into(),
+                            if res.is_ok() {
+                                log::debug!(peer=format!("{}", self.peer), link=lid; "Exclusive lock acquired")
+                            }
+                            res
+                        } else {
+                            Ok(())
+                        };
+
+                        match locked {
+                            Ok(()) => {
+                                log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
+                                resp.lid = lid.into();
+                                self.links.lock().await.insert(lid, link);
+                                xdr::DeviceErrorCode::NoError
+                            }
+                            Err(err) => {
+                                self.inner.lock().await.remove_link(lid);
+                                err.into()
                             }
                         }
-                        log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
-                        self.links.lock().await.insert(lid, link);
-                        xdr::DeviceErrorCode::NoError
                     }
                     Err(err) => {
                         log::debug!(peer=format!("{}", self.peer); "Failed to create new link, {:?}: {}", err, parms.device);
-- 
2.43.0


From c277f84d7e91f93f1c5eefb63d047d05b36bf690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 23/38] fix: destroyed VXI-11 links and those of departed
 clients stayed usable, abortable and sent service requests

---
 vxi11/src/server/vxi11/core_service.rs | 42 ++++++++++++++++++++------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 6a73421..b1d3557 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -83,9 +83,10 @@ where
             });
 
             task::spawn(async move {
-                if let Err(err) = s.serve_tcp_stream(stream).await {
+                if let Err(err) = s.clone().serve_tcp_stream(stream).await {
                     log::debug!("Error processing client: {}", err)
                 }
+                s.close().await;
                 drop(token);
             });
         }
@@ -107,6 +108,32 @@ pub struct VxiCoreSession<DEV> {
     srq: Arc<Mutex<Option<VxiSrqClient>>>,
 }
 
+impl<DEV> VxiCoreSession<DEV> {
+    /// Remove a link, returns false if there is no such link
+    async fn remove_link(&self, lid: u32) -> bool {
+        let removed = self.links.lock().await.remove(&lid);
+        match removed {
+            Some(mut link) => {
+                if let Some(task) = link.srq_handle.take() {
+                    task.cancel().await;
+                }
+                self.inner.lock().await.remove_link(lid);
+                // Dropping the link releases its locks
+                true
+            }
+            None => false,
+        }
+    }
+
+    /// Remove all remaining links
+    async fn close(&self) {
+        let lids: Vec<u32> = self.links.lock().await.keys().copied().collect();
+        for lid in lids {
+            self.remove_link(lid).await;
+        }
+    }
+}
+
 #[async_trait::async_trait]
 impl<DEV> RpcService for VxiCoreSession<DEV>
 where
@@ -589,15 +616,10 @@ where
                 log::debug!(peer=format!("{}", self.peer), link=parms.0; "Destroy link");
 
                 let resp = xdr::DeviceError {
-                    error: match get_link!(self.links, &parms.0) {
-                        Some(link) => {
-                            let mut inner = self.inner.lock().await;
-
-                            link.handle.force_release();
-                            inner.remove_link(parms.0);
-                            xdr::DeviceErrorCode::NoError
-                        }
-                        None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
+                    error: if self.remove_link(parms.0).await {
+                        xdr::DeviceErrorCode::NoError
+                    } else {
+                        xdr::DeviceErrorCode::InvalidLinkIdentifier
                     },
                 };
 
-- 
2.43.0


From fff1761c0305ab700394302dae131903432dbc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 24/38] fix: a VXI-11 abort which finds nothing to abort must
 not hit a later operation

---
 vxi11/src/server/vxi11/core_service.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index b1d3557..4f392a9 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -31,9 +31,17 @@ macro_rules! get_link {
     };
 }
 
+/// Forget an abort which arrived while nothing was waiting
+macro_rules! drain_abort {
+    ($abort:expr) => {
+        while let Ok(Some(())) = $abort.try_next() {}
+    };
+}
+
 macro_rules! lock_device {
     ($handle:expr, $flags:expr, $timeout:expr, $abort:expr) => {
         if $flags.is_waitlock() {
+            drain_abort!($abort);
             select! {
                 d = timeout(
                     Duration::from_millis($timeout as u64),
@@ -487,14 +495,17 @@ where
 
                 let resp = xdr::DeviceError {
                     error: match get_link!(self.links, &parms.lid.0) {
-                        Some(link) if parms.flags.is_waitlock() => select! {
-                            d = timeout(
-                                Duration::from_millis(parms.lock_timeout as u64),
-                                link.handle.async_acquire_exclusive(),
-                            ).fuse() => d.map_or(Err(SharedLockError::Timeout), |f| f),
-                            _ = link.abort.next() => Err(SharedLockError::Aborted)
+                        Some(link) if parms.flags.is_waitlock() => {
+                            drain_abort!(link.abort);
+                            select! {
+                                d = timeout(
+                                    Duration::from_millis(parms.lock_timeout as u64),
+                                    link.handle.async_acquire_exclusive(),
+                                ).fuse() => d.map_or(Err(SharedLockError::Timeout), |f| f),
+                                _ = link.abort.next() => Err(SharedLockError::Aborted)
+                            }
+                            .into()
                         }
-                        .into(),
                         Some(link) => link.handle.try_acquire_exclusive().into(),
                         None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
                     },
-- 
2.43.0


From 3b6c0c68b0f1d8095ba35b9f1e6d909abd4ab8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 25/38] fix: bind the VXI-11 core channel to its own port

---
 vxi11/src/server/vxi11/core_service.rs | 3 ++-
 vxi11/src/server/vxi11/mod.rs          | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 4f392a9..4dc146b 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -59,6 +59,7 @@ macro_rules! lock_device {
 pub struct VxiCoreServer<DEV> {
     pub(super) inner: Arc<Mutex<VxiInner<DEV>>>,
     pub(super) max_recv_size: u32,
+    pub(super) core_port: u16,
     pub(super) async_port: u16,
 }
 
@@ -67,7 +68,7 @@ where
     DEV: Device + Send + 'static,
 {
     pub async fn bind(self: Arc<Self>, addrs: IpAddr) -> io::Result<()> {
-        let listener = TcpListener::bind((addrs, self.async_port)).await?;
+        let listener = TcpListener::bind((addrs, self.core_port)).await?;
         self.serve(listener).await
     }
 
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index 777705b..8e97df2 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -242,6 +242,7 @@ impl<DEV> VxiServerBuilder<DEV> {
         (
             Arc::new(VxiCoreServer {
                 inner: inner.clone(),
+                core_port: self.core_port,
                 async_port: self.async_port,
                 max_recv_size: 128 * 1024,
             }),
-- 
2.43.0


From 0d9290e727779ce4605bedd8f9f53c442301c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 26/38] fix: a record cut short by the end of the stream is not
 a record

---
 vxi11/src/common/onc_rpc/record.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/record.rs b/vxi11/src/common/onc_rpc/record.rs
index d9eccdd..92ed589 100644
--- a/vxi11/src/common/onc_rpc/record.rs
+++ b/vxi11/src/common/onc_rpc/record.rs
@@ -20,10 +20,10 @@ where
         if buf.len() + len > maxlen || buf.try_reserve(len).is_err() {
             return Err(ErrorKind::OutOfMemory.into());
         }
-        reader
-            .take((fragment_len & 0x7FFFFFFF) as u64)
-            .read_to_end(&mut buf)
-            .await?;
+        let n = reader.take(len as u64).read_to_end(&mut buf).await?;
+        if n != len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
 
         // Check if last fragment
         if fragment_len & 0x80000000 != 0 {
-- 
2.43.0


From da5e036da313d22008a089b8fe5bc21e55a827ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 27/38] fix: XDR opaque data and strings shorter than their
 length are not valid

---
 vxi11/src/common/xdr/basic.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/common/xdr/basic.rs b/vxi11/src/common/xdr/basic.rs
index c9dcb54..a08e7e5 100644
--- a/vxi11/src/common/xdr/basic.rs
+++ b/vxi11/src/common/xdr/basic.rs
@@ -25,7 +25,7 @@
 #![allow(dead_code)]
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
-use std::io::{Read, Result, Write};
+use std::io::{ErrorKind, Read, Result, Write};
 
 macro_rules! read_padding {
     ($reader:expr, $len:expr) => {
@@ -583,7 +583,9 @@ impl XdrDecode for Opaque {
         RD: Read,
     {
         let len = reader.read_u32::<NetworkEndian>()? as usize;
-        reader.take(len as u64).read_to_end(&mut self.0)?;
+        if reader.take(len as u64).read_to_end(&mut self.0)? != len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
@@ -652,7 +654,9 @@ impl XdrDecode for String {
     {
         let len = reader.read_u32::<NetworkEndian>()? as u64;
         let mut s = reader.take(len);
-        s.read_to_string(self)?;
+        if s.read_to_string(self)? as u64 != len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
-- 
2.43.0


From bc32c515c720d931e0ac30a21306fb54b837ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 28/38] fix: a malformed datagram must not end the RPC service
 for everybody

---
 vxi11/src/common/onc_rpc/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index f60cc42..0c0d8d0 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -94,9 +94,14 @@ pub(crate) trait RpcService {
             let mut buf = vec![0; 1500];
             let (n, peer) = socket.recv_from(&mut buf).await?;
 
-            let reply = self.clone().handle_message(buf[..n].to_vec()).await?;
-
-            socket.send_to(&reply, peer).await?;
+            match self.clone().handle_message(buf[..n].to_vec()).await {
+                Ok(reply) => {
+                    if let Err(err) = socket.send_to(&reply, peer).await {
+                        log::debug!("Failed to reply to {}: {}", peer, err);
+                    }
+                }
+                Err(err) => log::debug!("Ignored message from {}: {}", peer, err),
+            }
         }
     }
 
-- 
2.43.0


From c265bf492c03634d9caf1eccbf8e40cdc5880d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 29/38] fix: answer calls with other authentication flavours
 with an authentication error

---
 vxi11/src/common/onc_rpc/xdr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/xdr.rs b/vxi11/src/common/onc_rpc/xdr.rs
index 761fa91..f7da1f2 100644
--- a/vxi11/src/common/onc_rpc/xdr.rs
+++ b/vxi11/src/common/onc_rpc/xdr.rs
@@ -303,6 +303,7 @@ pub(crate) enum AuthFlavour {
     None,
     Sys,
     Short,
+    Other(u32),
 }
 
 impl Default for AuthFlavour {
@@ -321,7 +322,7 @@ impl XdrDecode for AuthFlavour {
             0 => Self::None,
             1 => Self::Sys,
             2 => Self::Short,
-            _ => return Err(ErrorKind::Other.into()),
+            other => Self::Other(other),
         };
         Ok(())
     }
@@ -336,6 +337,7 @@ impl XdrEncode for AuthFlavour {
             AuthFlavour::None => 0,
             AuthFlavour::Sys => 1,
             AuthFlavour::Short => 2,
+            AuthFlavour::Other(other) => *other,
         })
     }
 }
-- 
2.43.0


From 9b7a2d4612aca4b9cb88e4d40c93289a2c7cc637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 30/38] fix: keep reporting service requests after one could
 not be sent

---
 vxi11/src/server/vxi11/core_service.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 4dc146b..f6fc5a1 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -573,7 +573,6 @@ where
                                                     client.device_intr_srq(&parms.handle.0).await
                                                 {
                                                     log::error!(link=parms.lid.0; "Failed to send service request: {err:?}");
-                                                    return Err(err);
                                                 }
                                             } else {
                                                 log::error!(link=parms.lid.0; "Failed to send service request: No interrupt channel open");
-- 
2.43.0


From 48e5112a22e6e7789634cb542feb20c126a289f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 31/38] fix: arguments and results of PMAPPROC_CALLIT are
 opaque data

---
 vxi11/src/client/portmapper.rs     | 4 ++--
 vxi11/src/common/portmapper/xdr.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 8297625..5abfdc5 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -87,11 +87,11 @@ impl PortMapperClient {
             prog,
             vers,
             proc,
-            args: args_cursor.into_inner(),
+            args: Opaque(args_cursor.into_inner()),
         };
         let res: CallResult = self.0.call(PMAPPROC_CALLIT, callit_args).await?;
         let mut ret: RET = Default::default();
-        ret.read_xdr(&mut io::Cursor::new(res.res))?;
+        ret.read_xdr(&mut io::Cursor::new(res.res.0))?;
         Ok(ret)
     }
 }
diff --git a/vxi11/src/common/portmapper/xdr.rs b/vxi11/src/common/portmapper/xdr.rs
index bb59b8b..9ada69d 100644
--- a/vxi11/src/common/portmapper/xdr.rs
+++ b/vxi11/src/common/portmapper/xdr.rs
@@ -53,7 +53,7 @@ pub(crate) struct Callit {
     pub(crate) prog: u32,
     pub(crate) vers: u32,
     pub(crate) proc: u32,
-    pub(crate) args: Vec<u8>,
+    pub(crate) args: Opaque,
 }
 
 impl XdrEncode for Callit {
@@ -83,7 +83,7 @@ impl XdrDecode for Callit {
 #[derive(Debug, Default, Clone)]
 pub(crate) struct CallResult {
     pub(crate) port: u32,
-    pub(crate) res: Vec<u8>,
+    pub(crate) res: Opaque,
 }
 
 impl XdrEncode for CallResult {
-- 
2.43.0


From bf2693aefd6e8b38b55216b86d1cd3fdb8714a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 32/38] fix: RPC clients accept only the reply to their own
 call, and only what has been received of it

---
 vxi11/src/common/onc_rpc/mod.rs | 58 ++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index 0c0d8d0..1ae0502 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -184,6 +184,25 @@ pub(crate) trait RpcService {
     }
 }
 
+/// Decode a message, returns `None` if it is not the reply to call `xid`
+fn parse_reply(
+    xid: u32,
+    data: Vec<u8>,
+) -> Result<Option<(xdr::RpcMessage, Cursor<Vec<u8>>)>, RpcError> {
+    let mut cursor = Cursor::new(data);
+    let mut msg = xdr::RpcMessage::default();
+    let res = msg.read_xdr(&mut cursor);
+    if msg.xid != xid {
+        log::debug!("Ignored message with xid {}, expected {}", msg.xid, xid);
+        return Ok(None);
+    }
+    res?;
+    match msg.mtype {
+        xdr::MsgType::Reply(_) => Ok(Some((msg, cursor))),
+        xdr::MsgType::Call(_) => Ok(None),
+    }
+}
+
 pub(crate) struct UdpRpcClient {
     xid: u32,
     prog: u32,
@@ -227,15 +246,18 @@ impl UdpRpcClient {
         args.write_xdr(&mut args_cursor)?;
         self.socket.send(&args_cursor.into_inner()).await?;
 
-        // Read response
-        let mut buf = vec![0; 1024];
-        self.socket.recv(&mut buf).await?;
-        let mut ret_cursor = Cursor::new(buf);
+        // Read response, ignore everything which does not answer this call
+        let (reply, mut ret_cursor) = loop {
+            let mut buf = vec![0; 1024];
+            let n = self.socket.recv(&mut buf).await?;
+            buf.truncate(n);
+            if let Some(reply) = parse_reply(self.xid, buf)? {
+                break reply;
+            }
+        };
 
-        // Deserialize and parse response
-        let mut reply = xdr::RpcMessage::default();
+        // Parse response
         let mut ret: RET = Default::default();
-        reply.read_xdr(&mut ret_cursor)?;
         match reply {
             xdr::RpcMessage {
                 mtype:
@@ -267,9 +289,7 @@ impl UdpRpcClient {
             xdr::RpcMessage {
                 mtype: xdr::MsgType::Call(..),
                 ..
-            } => {
-                todo!()
-            }
+            } => unreachable!(),
         }
     }
 
@@ -344,14 +364,16 @@ where
         args.write_xdr(&mut args_cursor)?;
         write_record(&mut self.io, args_cursor.into_inner()).await?;
 
-        // Read response
-        let fragment = read_record(&mut self.io, 1024 * 1024).await?;
-        let mut ret_cursor = Cursor::new(fragment);
+        // Read response, ignore everything which does not answer this call
+        let (reply, mut ret_cursor) = loop {
+            let fragment = read_record(&mut self.io, 1024 * 1024).await?;
+            if let Some(reply) = parse_reply(self.xid, fragment)? {
+                break reply;
+            }
+        };
 
-        // Deserialize and parse response
-        let mut reply = xdr::RpcMessage::default();
+        // Parse response
         let mut ret: RET = Default::default();
-        reply.read_xdr(&mut ret_cursor)?;
         match reply {
             xdr::RpcMessage {
                 mtype:
@@ -383,9 +405,7 @@ where
             xdr::RpcMessage {
                 mtype: xdr::MsgType::Call(..),
                 ..
-            } => {
-                todo!()
-            }
+            } => unreachable!(),
         }
     }
 
-- 
2.43.0


From 9fcb21c735191fe8d2b062a5055aec218d6c5ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 33/38] fix: a connection lost before it could be served must
 not end the server

---
 hislip/src/server/mod.rs                | 17 +++++++++++++++--
 raw/src/server/mod.rs                   | 21 +++++++++++++++++----
 telnet/src/server/mod.rs                |  8 +++++++-
 vxi11/src/server/portmapper.rs          |  8 +++++++-
 vxi11/src/server/vxi11/abort_service.rs |  8 +++++++-
 vxi11/src/server/vxi11/core_service.rs  |  8 +++++++-
 6 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index 626d48f..6afbe8a 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -174,8 +174,21 @@ where
         let listener = TcpListener::bind(addr).await?;
         let mut incoming = listener.incoming();
         while let Some(stream) = incoming.next().await {
-            let stream = stream?;
-            let peer = stream.peer_addr()?;
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(err) => {
+                    log::warn!("Listening error: {err}");
+                    async_std::task::sleep(std::time::Duration::from_millis(100)).await;
+                    continue;
+                }
+            };
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::warn!("Connection lost: {err}");
+                    continue;
+                }
+            };
 
             let s = self.clone();
             let t = srq.get_new_receiver();
diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index da13cc6..c8146a4 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -43,15 +43,22 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::warn!("Connection lost: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
             let device = device.clone();
 
-            stream.set_nodelay(true)?;
-
             task::spawn(async move {
+                if let Err(err) = stream.set_nodelay(true) {
+                    log::warn!("Failed to set nodelay: {}", err)
+                }
                 let (reader, writer) = stream.split();
                 if let Err(err) = s
                     .process_client(reader, writer, shared_lock, device, peer)
@@ -86,7 +93,13 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::warn!("Connection lost: {}", err);
+                    continue;
+                }
+            };
             log::info!("Accepted from: {:?}", peer);
 
             let shared_lock = shared_lock.clone();
diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 905bf82..4454de7 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -42,7 +42,13 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::warn!("Connection lost: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
diff --git a/vxi11/src/server/portmapper.rs b/vxi11/src/server/portmapper.rs
index 68cbddc..7f20139 100644
--- a/vxi11/src/server/portmapper.rs
+++ b/vxi11/src/server/portmapper.rs
@@ -64,7 +64,13 @@ impl<const N: usize> StaticPortMap<N> {
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::debug!("Connection lost: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/abort_service.rs b/vxi11/src/server/vxi11/abort_service.rs
index a33283e..15eb95a 100644
--- a/vxi11/src/server/vxi11/abort_service.rs
+++ b/vxi11/src/server/vxi11/abort_service.rs
@@ -42,7 +42,13 @@ where
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::debug!("Connection lost: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index f6fc5a1..0c0a87c 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -80,7 +80,13 @@ where
             .handle_errors(Duration::from_millis(100))
             .backpressure(10);
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    log::debug!("Connection lost: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
             let s = Arc::new(VxiCoreSession {
                 peer,
-- 
2.43.0


From 2d13aa3781c33b4fd6914dbcd91c22c285cb4b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 34/38] fix: end the telnet session when the client disconnects

---
 telnet/src/server/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 4454de7..afda7e6 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -70,7 +70,7 @@ impl Server {
         mut stream: IO,
         shared_lock: Arc<SpinMutex<SharedLock>>,
         device: Arc<Mutex<DEV>>,
-        _peer: SA,
+        peer: SA,
     ) -> io::Result<()>
     where
         DEV: Device + Send,
@@ -98,6 +98,10 @@ impl Server {
 
             // Read a line from stream.
             let n = stream.read(&mut buf).await?;
+            if n == 0 {
+                log::info!("{:?} disconnected", peer);
+                break Ok(());
+            }
 
             let events = instance.receive(&buf[..n]);
             for event in events {
-- 
2.43.0


From 4663c940954f8fed7a55d376b739d37521f2c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 35/38] fix: strip only a carriage return from the end of a
 telnet line

---
 telnet/src/server/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index afda7e6..0de52e1 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -126,7 +126,9 @@ impl Server {
 
                             if b == b'\n' {
                                 // Remove \r
-                                cmd.pop();
+                                if cmd.last() == Some(&b'\r') {
+                                    cmd.pop();
+                                }
                                 // Lock device and execute
                                 let resp = {
                                     let mut device = handle.async_lock().await.unwrap();
-- 
2.43.0


From b649870bfa509e65746c57995d4d5d72959b55f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 36/38] fix: escape IAC in what telnet echoes

---
 telnet/src/server/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 0de52e1..4f781a2 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -121,7 +121,7 @@ impl Server {
                         for b in data {
                             // Echo back if enabled
                             if instance.options.get_option(options::ECHO).local_state {
-                                stream.write_all(&[b]).await?;
+                                stream.write_all(&Parser::escape_iac(vec![b])).await?;
                             }
 
                             if b == b'\n' {
-- 
2.43.0


From 3f86f90a38cf424be010f7b48304a60ffba97bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 37/38] fix: do not execute a command cut short by the
 disconnect of a raw socket client

---
 raw/src/server/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index c8146a4..65a2233 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -151,6 +151,12 @@ impl Server {
 
             log::trace!("{:?} read {} bytes", peer, cmd.len());
 
+            // Disconnected in the middle of a command
+            if cmd.last() != Some(&self.0.read_termination) {
+                log::info!("{:?} disconnected, discarding incomplete command", peer);
+                break;
+            }
+
             let resp = {
                 let mut device = handle.async_lock().await.unwrap();
                 cmd.pop(); // Remove read_termination
-- 
2.43.0


From f0bcbcb4f035c937b7d09261aa4474ffc3bcf2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 38/38] fix: handle telnet commands split over reads, escaped
 data and erase commands

---
 telnet/src/server/mod.rs | 136 +++++++++++++++++++++++++++------------
 1 file changed, 94 insertions(+), 42 deletions(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 4f781a2..596ea1a 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -12,7 +12,10 @@ use async_std::net::{TcpListener, ToSocketAddrs};
 use async_listen::ListenExt;
 
 use libtelnet_rs::events::TelnetEvents;
-use libtelnet_rs::{telnet::op_option as options, Parser};
+use libtelnet_rs::{
+    telnet::{op_command as commands, op_option as options},
+    Parser,
+};
 
 use lxi_device::lock::SpinMutex;
 use lxi_device::{
@@ -84,6 +87,8 @@ impl Server {
         instance.options.support_local(options::SGA);
         instance.options.support_local(options::BINARY);
 
+        let mut commands = Commands::default();
+
         let mut buf = [0u8; 128];
         let mut cmd = Vec::with_capacity(self.0.read_buffer);
 
@@ -103,60 +108,107 @@ impl Server {
                 break Ok(());
             }
 
-            let events = instance.receive(&buf[..n]);
-            for event in events {
-                match event {
-                    TelnetEvents::IAC(iac) => match iac.command {
-                        247 /* EC */ => {
-                            cmd.pop();
-                        },
-                        248 /* EL */ => {
-                            cmd.clear();
+            for byte in &buf[..n] {
+                let events = commands.receive(&mut instance, *byte);
+                for event in events {
+                    match event {
+                        TelnetEvents::IAC(iac) => match iac.command {
+                            247 /* EC */ => {
+                                cmd.pop();
+                            },
+                            248 /* EL */ => {
+                                cmd.clear();
+                            },
+                            _cmd => {}
                         },
-                        _cmd => {}
-                    },
-                    TelnetEvents::Negotiation(_neg) => {}
-                    TelnetEvents::Subnegotiation(_sub) => {}
-                    TelnetEvents::DataReceive(data) => {
-                        for b in data {
-                            // Echo back if enabled
-                            if instance.options.get_option(options::ECHO).local_state {
-                                stream.write_all(&Parser::escape_iac(vec![b])).await?;
-                            }
-
-                            if b == b'\n' {
-                                // Remove \r
-                                if cmd.last() == Some(&b'\r') {
-                                    cmd.pop();
+                        TelnetEvents::Negotiation(_neg) => {}
+                        TelnetEvents::Subnegotiation(_sub) => {}
+                        TelnetEvents::DataReceive(data) => {
+                            for b in data {
+                                // Echo back if enabled
+                                if instance.options.get_option(options::ECHO).local_state {
+                                    stream.write_all(&Parser::escape_iac(vec![b])).await?;
                                 }
-                                // Lock device and execute
-                                let resp = {
-                                    let mut device = handle.async_lock().await.unwrap();
-                                    device.execute(&cmd)
-                                };
-                                cmd.clear();
 
-                                // Send back response if any
-                                if let Some(data) = resp {
-                                    let to_send = Parser::escape_iac(data);
-                                    stream.write_all(&to_send).await?;
-                                    stream.write_all(b"\r\n").await?;
+                                if b == b'\n' {
+                                    // Remove \r
+                                    if cmd.last() == Some(&b'\r') {
+                                        cmd.pop();
+                                    }
+                                    // Lock device and execute
+                                    let resp = {
+                                        let mut device = handle.async_lock().await.unwrap();
+                                        device.execute(&cmd)
+                                    };
+                                    cmd.clear();
+
+                                    // Send back response if any
+                                    if let Some(data) = resp {
+                                        let to_send = Parser::escape_iac(data);
+                                        stream.write_all(&to_send).await?;
+                                        stream.write_all(b"\r\n").await?;
+                                    }
+                                } else {
+                                    cmd.push(b);
                                 }
-                            } else {
-                                cmd.push(b);
                             }
                         }
+                        TelnetEvents::DataSend(data) => {
+                            stream.write_all(&data).await?;
+                        }
+                        TelnetEvents::DecompressImmediate(_data) => unreachable!(),
                     }
-                    TelnetEvents::DataSend(data) => {
-                        stream.write_all(&data).await?;
-                    }
-                    TelnetEvents::DecompressImmediate(_data) => unreachable!(),
                 }
             }
         }
     }
 }
 
+/// Separates data from telnet commands
+///
+/// [Parser::receive] expects commands to be complete and neither knows about erase commands nor
+/// about escaped data, so it is only used for negotiations.
+#[derive(Default)]
+enum Commands {
+    /// Not in a command
+    #[default]
+    Data,
+    Command,
+    Negotiation(u8),
+    Subnegotiation,
+    SubnegotiationCommand,
+}
+
+impl Commands {
+    fn receive(&mut self, parser: &mut Parser, byte: u8) -> Vec<TelnetEvents> {
+        let mut events = vec![];
+        *self = match (&self, byte) {
+            (Self::Data, commands::IAC) => Self::Command,
+            (Self::Data, data) | (Self::Command, data @ commands::IAC) => {
+                events.push(TelnetEvents::build_receive(vec![data].into()));
+                Self::Data
+            }
+            (Self::Command, commands::WILL | commands::WONT | commands::DO | commands::DONT) => {
+                Self::Negotiation(byte)
+            }
+            (Self::Command, commands::SB) => Self::Subnegotiation,
+            (Self::Command, command) => {
+                events.push(TelnetEvents::build_iac(command));
+                Self::Data
+            }
+            (Self::Negotiation(command), option) => {
+                events = parser.receive(&[commands::IAC, *command, option]);
+                Self::Data
+            }
+            (Self::Subnegotiation, commands::IAC) => Self::SubnegotiationCommand,
+            (Self::SubnegotiationCommand, commands::SE) => Self::Data,
+            // No option with parameters is supported
+            (Self::Subnegotiation | Self::SubnegotiationCommand, _) => Self::Subnegotiation,
+        };
+        events
+    }
+}
+
 /// Socket server configuration builder
 ///
 #[cfg_attr(feature = "serde", derive(Deserializer, Serializer))]
-- 
2.43.0

