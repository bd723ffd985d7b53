From cf7be68b0f46ea41aed758974bbe510e0d6fecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 1/8] fix: number nested Rc/Arc identically in serializer and
 deserializer

---
 src/builtins.rs |  6 ++++--
 src/serde.rs    | 44 +++++++++++++++++++++++++++++++++-----------
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 026655f..3723365 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -180,8 +180,9 @@ unsafe impl<T: 'static + Object> NonTrivialObject for Rc<T> {
         let id = d.deserialize::<usize>()?;
         match std::num::NonZeroUsize::new(id) {
             None => {
+                let id = d.reserve_cyclic();
                 let rc = Self::new(d.deserialize()?);
-                d.learn_cyclic(rc.clone());
+                d.fill_cyclic(id, rc.clone());
                 Ok(rc)
             }
             Some(id) => Ok(d.get_cyclic::<Rc<T>>(id).clone()),
@@ -205,8 +206,9 @@ unsafe impl<T: 'static + Object> NonTrivialObject for Arc<T> {
         let id = d.deserialize::<usize>()?;
         match std::num::NonZeroUsize::new(id) {
             None => {
+                let id = d.reserve_cyclic();
                 let rc = Self::new(d.deserialize()?);
-                d.learn_cyclic(rc.clone());
+                d.fill_cyclic(id, rc.clone());
                 Ok(rc)
             }
             Some(id) => Ok(d.get_cyclic::<Arc<T>>(id).clone()),
diff --git a/src/serde.rs b/src/serde.rs
index 516fd33..753cb33 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -117,7 +117,7 @@ pub struct Deserializer {
     data: Vec<u8>,
     pub(crate) handles: std::vec::IntoIter<OwnedHandle>,
     pos: usize,
-    cyclics: Vec<Box<dyn Any>>,
+    cyclics: Vec<Option<Box<dyn Any>>>,
 }
 
 impl Deserializer {
@@ -186,13 +186,33 @@ impl Deserializer {
     }
 
     /// Store a reference to a newly built potentially cyclic object.
+    ///
+    /// If the contents of the object are deserialized before the object itself can be built, use
+    /// [`Deserializer::reserve_cyclic`] and [`Deserializer::fill_cyclic`] instead.
     pub fn learn_cyclic<T: 'static>(&mut self, obj: T) {
-        self.cyclics.push(Box::new(obj));
+        let id = self.reserve_cyclic();
+        self.fill_cyclic(id, obj);
+    }
+
+    /// Allocate an ID for a potentially cyclic object that is about to be built.
+    ///
+    /// The serializer numbers objects before their contents are serialized, so this must be called
+    /// before the contents are deserialized.
+    pub fn reserve_cyclic(&mut self) -> NonZeroUsize {
+        self.cyclics.push(None);
+        NonZeroUsize::new(self.cyclics.len()).expect("Too many cyclic objects")
+    }
+
+    /// Store a reference to a newly built potentially cyclic object under a reserved ID.
+    pub fn fill_cyclic<T: 'static>(&mut self, id: NonZeroUsize, obj: T) {
+        self.cyclics[id.get() - 1] = Some(Box::new(obj));
     }
 
     /// Get a reference to an object built earlier.
     pub fn get_cyclic<T: 'static>(&self, id: NonZeroUsize) -> &T {
         self.cyclics[id.get() - 1]
+            .as_ref()
+            .expect("The cyclic object is not built yet")
             .downcast_ref()
             .expect("The cyclic object is of unexpected type")
     }
@@ -280,18 +300,20 @@ impl fmt::Debug for Deserializer {
 ///         let id = d.deserialize::<usize>()?;
 ///         match std::num::NonZeroUsize::new(id) {
 ///             None => {
-///                 // If 0 is stored, this is the first time we see this object -- decode its
-///                 // contents
+///                 // If 0 is stored, this is the first time we see this object -- allocate an ID
+///                 // for it and decode its contents. Note that you don't specify the ID:
+///                 // reserve_cyclic infers it automatically. To make sure numeration is consistent
+///                 // with the serializer, call reserve_cyclic in the same order as the serializer
+///                 // calls learn_cyclic, that is, before the contents are decoded. For instance,
+///                 // when encoding a set, make sure that data is serialized in the same order as
+///                 // it is deserialized. This should already be the case unless you serialize data
+///                 // in a very bizarre way.
+///                 let id = d.reserve_cyclic();
 ///                 let rc = Rc::<T>::new(d.deserialize()?);
-///                 // Tell the deserializer about this object. Note that you don't specify the ID:
-///                 // learn_cyclic infers it automatically. To make sure numeration is consistent
-///                 // with the serializer, call learn_cyclic in the same order in both. For
-///                 // instance, when encoding a set, make sure that data is serialized in the same
-///                 // order as it is deserialized. This should already be the case unless you
-///                 // serialize data in a very bizarre way. Also, notice that learn_cyclic does not
+///                 // Tell the deserializer about this object. Notice that fill_cyclic does not
 ///                 // have to store the exact object you are deserializing in: in this case, we
 ///                 // store the Rc itself, not CustomRc.
-///                 d.learn_cyclic(rc.clone());
+///                 d.fill_cyclic(id, rc.clone());
 ///                 Ok(Self(rc))
 ///             }
 ///             Some(id) => {
-- 
2.43.0


From fdf2f0e52e35b18cf6151190ef2a30f06c6470f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 2/8] fix: keep numbering cyclic objects across
 serialize_temporary

---
 src/serde.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 753cb33..1759dc8 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -22,6 +22,8 @@ pub struct Serializer<'fd> {
     data: Vec<u8>,
     handles: Vec<BorrowedHandle<'fd>>,
     cyclic_ids: HashMap<*const c_void, NonZeroUsize>,
+    // Differs from `cyclic_ids.len()` if temporary objects contained cyclic objects
+    cyclic_count: usize,
 }
 
 impl<'fd> Serializer<'fd> {
@@ -31,6 +33,7 @@ impl<'fd> Serializer<'fd> {
             data: Vec::new(),
             handles: Vec::new(),
             cyclic_ids: HashMap::new(),
+            cyclic_count: 0,
         }
     }
 
@@ -55,7 +58,11 @@ impl<'fd> Serializer<'fd> {
     /// Panics if the object contains file handles.
     pub fn serialize_temporary<T: Object>(&mut self, data: T) {
         let mut s1 = Serializer::new();
+        // The deserializer reads the temporary from the same stream, so IDs must not restart. Addresses
+        // are not shared because they may be reused after the temporary is dropped.
+        s1.cyclic_count = self.cyclic_count;
         s1.serialize(&data);
+        self.cyclic_count = s1.cyclic_count;
         assert!(
             s1.handles.is_empty(),
             "serialize_temporary invoked with an object containing file handles"
@@ -75,11 +82,13 @@ impl<'fd> Serializer<'fd> {
 
     /// Check if an object has already been serialized in this session and return its index.
     pub fn learn_cyclic(&mut self, ptr: *const c_void) -> Option<NonZeroUsize> {
-        let len_before = self.cyclic_ids.len();
         match self.cyclic_ids.entry(ptr) {
             hash_map::Entry::Occupied(occupied) => Some(*occupied.get()),
             hash_map::Entry::Vacant(vacant) => {
-                vacant.insert(NonZeroUsize::new(len_before + 1).expect("Too many cyclic objects"));
+                self.cyclic_count += 1;
+                vacant.insert(
+                    NonZeroUsize::new(self.cyclic_count).expect("Too many cyclic objects"),
+                );
                 None
             }
         }
-- 
2.43.0


From 1267f6974aef4ca5baec710c55d14ae830269167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 3/8] fix: reap the child in join even if receiving its result
 fails

---
 src/asynchronous.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 9eadaed..7dc2231 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -521,10 +521,13 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
     /// it exits via [`std::process::exit`] or alike instead of returning a value, unless the return
     /// type is `()`. In that case, `Ok(())` is returned.
     pub async fn join(mut self) -> Result<T> {
-        let mut value = self.output_rx.recv().await?;
+        // Don't return early on error: the process has to be waited for anyway
+        let mut value = self.output_rx.recv().await;
+        // Don't let the process block on sending the rest of a message that is not going to be read
+        drop(self.output_rx);
         if let Some(void) = imp::if_void::<T>() {
             // The value should be None at this moment
-            value = Some(void);
+            value = value.map(|_| Some(void));
         }
         let mut guard = self.may_kill.lock().expect("Kill mutex is poisoned");
         *guard = false;
@@ -537,7 +540,7 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
             )?
             .unwrap();
             if status.exit_status() == Some(0) {
-                value.ok_or_else(|| {
+                value?.ok_or_else(|| {
                     Error::new(
                         ErrorKind::Other,
                         "The subprocess terminated without returning a value",
@@ -573,7 +576,7 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
                 .ok()?;
             }
             if code == 0 {
-                value.ok_or_else(|| {
+                value?.ok_or_else(|| {
                     Error::new(
                         ErrorKind::Other,
                         "The subprocess terminated without returning a value",
-- 
2.43.0


From 425c99da10c03ae135c1cb7e634894a585a40093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 4/8] fix: report file descriptors lost during reception

---
 src/platform/unix/internals.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 6ed9670..53e7ab5 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -121,6 +121,7 @@ pub(crate) struct SingleObjectReceiver<'a, T: Object> {
     value: MaybeUninit<T>,
     fds: Vec<OwnedFd>,
     flags: RecvFlags,
+    fds_lost: bool,
     terminated: bool,
     marker: PhantomData<fn() -> T>,
 }
@@ -140,6 +141,7 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
             } else {
                 RecvFlags::DONTWAIT
             },
+            fds_lost: false,
             terminated: false,
             marker: PhantomData,
         }
@@ -208,6 +210,11 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 ));
             }
 
+            // rustix does not define this flag
+            if message.flags.bits() & libc::MSG_CTRUNC as u32 != 0 {
+                self.fds_lost = true;
+            }
+
             self.data_pos += message.bytes - 1;
             if marker[0] != 1 {
                 continue;
@@ -215,6 +222,14 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
 
             self.terminated = true;
 
+            if self.fds_lost {
+                // The limit on open files has most likely been reached
+                return Err(Error::new(
+                    ErrorKind::Other,
+                    "Some file descriptors could not be received",
+                ));
+            }
+
             if implements!(T: PlainOldData) {
                 return Ok(Some(unsafe { self.value.assume_init_read() }));
             }
-- 
2.43.0


From cb953e20803e16a72c7ba01ba98d3095ad5ab82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 5/8] fix: retry system calls interrupted by signals

---
 src/asynchronous.rs            | 10 ++++++----
 src/platform/unix/internals.rs | 35 +++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 7dc2231..f3f2b09 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -534,10 +534,12 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
         // This is synchronous, but should be really fast
         #[cfg(unix)]
         {
-            let status = rustix::process::waitpid(
-                Some(self.proc_handle),
-                rustix::process::WaitOptions::empty(),
-            )?
+            let status = rustix::io::retry_on_intr(|| {
+                rustix::process::waitpid(
+                    Some(self.proc_handle),
+                    rustix::process::WaitOptions::empty(),
+                )
+            })?
             .unwrap();
             if status.exit_status() == Some(0) {
                 value?.ok_or_else(|| {
diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 53e7ab5..98728e8 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -1,6 +1,7 @@
 use crate::{imp::implements, pod::PlainOldData, Deserializer, Object, Serializer};
 use rustix::{
     cmsg_space,
+    io::retry_on_intr,
     net::{
         self, recvmsg, sendmsg, AddressFamily, RecvAncillaryBuffer, RecvAncillaryMessage,
         RecvFlags, SendAncillaryBuffer, SendAncillaryMessage, SendFlags, SocketFlags, SocketType,
@@ -86,15 +87,17 @@ impl<'a> SingleObjectSender<'a> {
                 &self.fds[self.fds_pos..fds_end],
             )));
 
-            let n_written = sendmsg(
-                self.socket_fd,
-                &[
-                    IoSlice::new(&[is_last as u8]),
-                    IoSlice::new(&self.data()[self.data_pos..buffer_end]),
-                ],
-                &mut cmsg_buffer,
-                self.flags,
-            )?;
+            let n_written = retry_on_intr(|| {
+                sendmsg(
+                    self.socket_fd,
+                    &[
+                        IoSlice::new(&[is_last as u8]),
+                        IoSlice::new(&self.data()[self.data_pos..buffer_end]),
+                    ],
+                    &mut cmsg_buffer,
+                    self.flags,
+                )
+            })?;
 
             self.data_pos += n_written - 1;
             self.fds_pos = fds_end;
@@ -178,12 +181,14 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 IoSliceMut::new(&mut data[self.data_pos..]),
             ];
 
-            let message = recvmsg(
-                self.socket_fd,
-                &mut iovecs,
-                &mut cmsg_buffer,
-                self.flags | RecvFlags::CMSG_CLOEXEC,
-            )?;
+            let message = retry_on_intr(|| {
+                recvmsg(
+                    self.socket_fd,
+                    &mut iovecs,
+                    &mut cmsg_buffer,
+                    self.flags | RecvFlags::CMSG_CLOEXEC,
+                )
+            })?;
 
             for cmsg in cmsg_buffer.drain() {
                 let RecvAncillaryMessage::ScmRights(rights) = cmsg else {
-- 
2.43.0


From 2b40b05aff0cc25ecd7abbe71fa16416722f906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 6/8] fix: support enum fields named 's' in derive(Object)

---
 crossmist-derive/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index 6e88a70..9cb083e 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -426,9 +426,15 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                         let (refs, sers): (Vec<_>, Vec<_>) = fields
                             .named
                             .iter()
-                            .map(|field| {
-                                let ident = &field.ident;
-                                (quote! { ref #ident }, quote! { s.serialize(#ident); })
+                            .enumerate()
+                            .map(|(i, field)| {
+                                // Binding fields by name might shadow the serializer
+                                let field = &field.ident;
+                                let ident = format_ident!("a{}", i);
+                                (
+                                    quote! { #field: ref #ident },
+                                    quote! { s.serialize(#ident); },
+                                )
                             })
                             .unzip();
                         quote! {
-- 
2.43.0


From 7d9535bbd2597d9f3918ae23a9697c7b5e7e1b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:21 +0000
Subject: [PATCH 7/8] fix: support variants named 'Ok' in scope of
 derive(Object)

---
 crossmist-derive/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index 9cb083e..66759fd 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -406,6 +406,8 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                         #(#serialize_fields)*
                     }
                     unsafe fn deserialize_self_non_trivial(d: &mut ::crossmist::Deserializer) -> ::std::io::Result<Self> {
+                        #[allow(unused_imports)]
+                        use ::std::result::Result::Ok;
                         #deserialize_fields
                     }
                 }
@@ -513,6 +515,8 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                         }
                     }
                     unsafe fn deserialize_self_non_trivial(d: &mut ::crossmist::Deserializer) -> ::std::io::Result<Self> {
+                        #[allow(unused_imports)]
+                        use ::std::result::Result::Ok;
                         match d.deserialize::<usize>()? {
                             #(#deserialize_variants,)*
                             _ => panic!("Unexpected enum variant"),
-- 
2.43.0


From b076e5588cee1113c188004adde6441bab2f5877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:43 +0000
Subject: [PATCH 8/8] fix: reap the process when its startup fails halfway

---
 src/asynchronous.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index f3f2b09..442644e 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -653,7 +653,18 @@ pub(crate) async unsafe fn spawn<Stream: AsyncStream, T: Object>(
     #[cfg(unix)]
     {
         process_handle = subprocess::_spawn_child(child, &handles)?;
-        local.send(&(s.into_vec(), raw_handles)).await?;
+        if let Err(e) = local.send(&(s.into_vec(), raw_handles)).await {
+            // Nobody is going to join this process, so wait for it here. It either has failed to
+            // start or stops as soon as it notices that the entry isn't going to arrive.
+            drop(local);
+            let _ = rustix::io::retry_on_intr(|| {
+                rustix::process::waitpid(
+                    Some(process_handle),
+                    rustix::process::WaitOptions::empty(),
+                )
+            });
+            return Err(e);
+        }
         receiver = Receiver::from_stream(local.fd);
     }
 
-- 
2.43.0

