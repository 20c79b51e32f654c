From 1f806c8fc5ab4db27262bb4e2860969681e21b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 01/27] fix: call Actor::on_message for every message, so that
 overriding it takes effect

---
 src/actor/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 2bd8e69..de9eef8 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -112,7 +112,7 @@ where
             return ControlFlow::Continue(());
         }
 
-        let res = AssertUnwindSafe(message.handle_dyn(&mut self.state, actor_ref, reply))
+        let res = AssertUnwindSafe(self.state.on_message(message, actor_ref, reply))
             .catch_unwind()
             .await;
         match res {
-- 
2.43.0


From e1d68ea658be8b63232b4dced14d5833bae373c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 02/27] fix: PreparedActor::run marks the running actor as the
 current one

---
 src/actor/spawn.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index f468020..528c0c9 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -365,13 +365,17 @@ impl<A: Actor> PreparedActor<A> {
     /// # });
     /// ```
     pub async fn run(self, actor: A) -> (A, ActorStopReason) {
-        run_actor_lifecycle::<A, ActorBehaviour<A>>(
-            actor,
-            self.actor_ref,
-            self.mailbox_rx,
-            self.abort_registration,
-        )
-        .await
+        CURRENT_ACTOR_ID
+            .scope(
+                self.actor_ref.id(),
+                run_actor_lifecycle::<A, ActorBehaviour<A>>(
+                    actor,
+                    self.actor_ref,
+                    self.mailbox_rx,
+                    self.abort_registration,
+                ),
+            )
+            .await
     }
 
     /// Spawns the actor in a new background tokio task, returning the `JoinHandle`.
@@ -380,14 +384,14 @@ impl<A: Actor> PreparedActor<A> {
     pub fn spawn(self, actor: A) -> JoinHandle<(A, ActorStopReason)> {
         #[cfg(not(all(tokio_unstable, feature = "tracing")))]
         {
-            tokio::spawn(CURRENT_ACTOR_ID.scope(self.actor_ref.id(), self.run(actor)))
+            tokio::spawn(self.run(actor))
         }
 
         #[cfg(all(tokio_unstable, feature = "tracing"))]
         {
             tokio::task::Builder::new()
                 .name(A::name())
-                .spawn(CURRENT_ACTOR_ID.scope(self.actor_ref.id(), self.run(actor)))
+                .spawn(self.run(actor))
                 .unwrap()
         }
     }
@@ -403,10 +407,7 @@ impl<A: Actor> PreparedActor<A> {
 
         std::thread::Builder::new()
             .name(A::name().to_string())
-            .spawn({
-                let actor_ref = self.actor_ref.clone();
-                move || handle.block_on(CURRENT_ACTOR_ID.scope(actor_ref.id(), self.run(actor)))
-            })
+            .spawn(move || handle.block_on(self.run(actor)))
             .unwrap()
     }
 }
-- 
2.43.0


From c911beb7a0161f81181ad48f442020e05269859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 03/27] fix: deprecated ActorRef::wait_for_stop waits for
 shutdown

---
 src/actor/actor_ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 6dc7ee4..3a4ceb4 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -349,7 +349,7 @@ where
         note = "wait_for_stop has been renamed to wait_for_shutdown"
     )]
     pub async fn wait_for_stop(&self) {
-        self.wait_for_startup().await
+        self.wait_for_shutdown().await
     }
 
     /// Waits for the actor to finish shutdown, returning the shutdown result with a clone of the error.
-- 
2.43.0


From 76aeb420aed9b40ea05ffbfa9731cdca81678d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 04/27] fix: Recipient::downgrade returns a weak recipient
 instead of panicking

---
 src/actor/actor_ref.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 3a4ceb4..667f2df 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -1333,7 +1333,7 @@ impl<M: Send + 'static> WeakRecipient<M> {
     }
 }
 
-impl<A: Actor> Clone for WeakRecipient<A> {
+impl<M: Send + 'static> Clone for WeakRecipient<M> {
     fn clone(&self) -> Self {
         WeakRecipient {
             handler: dyn_clone::clone_box(&*self.handler),
@@ -1341,7 +1341,7 @@ impl<A: Actor> Clone for WeakRecipient<A> {
     }
 }
 
-impl<A: Actor> fmt::Debug for WeakRecipient<A> {
+impl<M: Send + 'static> fmt::Debug for WeakRecipient<M> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut d = f.debug_struct("WeakRecipient");
         d.field("id", &self.handler.id());
@@ -1412,7 +1412,9 @@ where
 
     #[inline]
     fn downgrade(&self) -> WeakRecipient<M> {
-        todo!()
+        WeakRecipient {
+            handler: Box::new(self.downgrade()),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 47c100305ae88176940b17acdc720ca1075ce0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 05/27] fix: forwarding, enqueueing or stopping an actor that
 is not running returns an error instead of panicking

---
 src/actor/actor_ref.rs |  5 ++++-
 src/error.rs           | 20 ++++++++++++++++++
 src/mailbox.rs         | 17 +++++++++++++++-
 src/request/ask.rs     | 46 +++++++++++++++++++++++++++++-------------
 4 files changed, 72 insertions(+), 16 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 667f2df..9d93be0 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -208,7 +208,10 @@ where
     /// before it shuts down. Any new messages sent after the stop signal will be ignored.
     #[inline]
     pub async fn stop_gracefully(&self) -> Result<(), SendError> {
-        Ok(self.mailbox_sender.send(Signal::Stop).await?)
+        self.mailbox_sender
+            .send(Signal::Stop)
+            .await
+            .map_err(|_| SendError::ActorNotRunning(()))
     }
 
     /// Kills the actor immediately.
diff --git a/src/error.rs b/src/error.rs
index b929257..902ef1a 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -176,6 +176,26 @@ impl<M, E> SendError<M, E> {
     }
 }
 
+impl<S, E> SendError<S, E> {
+    pub(crate) fn from_send(err: mpsc::error::SendError<S>) -> Self {
+        SendError::ActorNotRunning(err.0)
+    }
+
+    pub(crate) fn from_try_send(err: mpsc::error::TrySendError<S>) -> Self {
+        match err {
+            mpsc::error::TrySendError::Full(signal) => SendError::MailboxFull(signal),
+            mpsc::error::TrySendError::Closed(signal) => SendError::ActorNotRunning(signal),
+        }
+    }
+
+    pub(crate) fn from_send_timeout(err: mpsc::error::SendTimeoutError<S>) -> Self {
+        match err {
+            mpsc::error::SendTimeoutError::Timeout(signal) => SendError::Timeout(Some(signal)),
+            mpsc::error::SendTimeoutError::Closed(signal) => SendError::ActorNotRunning(signal),
+        }
+    }
+}
+
 impl<M, E> SendError<M, SendError<M, E>> {
     /// Flattens a nested SendError.
     pub fn flatten(self) -> SendError<M, E> {
diff --git a/src/mailbox.rs b/src/mailbox.rs
index 73b5084..0d43fa9 100644
--- a/src/mailbox.rs
+++ b/src/mailbox.rs
@@ -15,7 +15,7 @@ use crate::{
     actor::{ActorID, ActorRef},
     error::{ActorStopReason, SendError},
     message::BoxMessage,
-    reply::BoxReplySender,
+    reply::{BoxReplySender, ReplySender},
     Actor,
 };
 
@@ -463,6 +463,21 @@ impl<A: Actor> Signal<A> {
             _ => None,
         }
     }
+
+    /// Takes a forwarded message which could not be delivered apart again.
+    pub(crate) fn into_forwarded<M, R>(self) -> (M, ReplySender<R>)
+    where
+        M: 'static,
+    {
+        match self {
+            Signal::Message {
+                message,
+                reply: Some(tx),
+                ..
+            } => (*message.as_any().downcast().unwrap(), ReplySender::new(tx)),
+            _ => unreachable!("only messages with a reply sender are forwarded"),
+        }
+    }
 }
 
 #[doc(hidden)]
diff --git a/src/request/ask.rs b/src/request/ask.rs
index fc3c652..6804da0 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -200,10 +200,14 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(|err| SendError::from_send_timeout(err).map_msg(|_| ()))?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal)
+                            .await
+                            .map_err(|err| SendError::from_send(err).map_msg(|_| ()))?;
                     }
                 }
 
@@ -220,7 +224,8 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::from_send(err).map_msg(|_| ()))?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -267,16 +272,21 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout).await.map_err(|err| {
+                            SendError::from_send_timeout(err).map_msg(Signal::into_forwarded)
+                        })?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal).await.map_err(|err| {
+                            SendError::from_send(err).map_msg(Signal::into_forwarded)
+                        })?;
                     }
                 }
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::from_send(err).map_msg(Signal::into_forwarded))?;
                 Ok(())
             }
         }
@@ -307,11 +317,13 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal)
+                    .map_err(|err| SendError::from_try_send(err).map_msg(Signal::into_forwarded))?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::from_send(err).map_msg(Signal::into_forwarded))?;
                 Ok(())
             }
         }
@@ -408,7 +420,8 @@ where
 
         let fut = match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal)
+                    .map_err(|err| SendError::from_try_send(err).map_msg(|_| ()))?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -423,7 +436,8 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::from_send(err).map_msg(|_| ()))?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -499,11 +513,13 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal)
+                    .map_err(|err| SendError::from_send(err).map_msg(Signal::into_forwarded))?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::from_send(err).map_msg(Signal::into_forwarded))?;
                 Ok(())
             }
         }
@@ -553,7 +569,8 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal)
+                    .map_err(|err| SendError::from_send(err).map_msg(|_| ()))?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
@@ -562,7 +579,8 @@ where
                 Ok(BlockingPendingReply { f })
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::from_send(err).map_msg(|_| ()))?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
-- 
2.43.0


From 17e1f81db7950f5697df3dcd17c95b840ea59563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 06/27] fix: ActorID::from_bytes reports a missing sequence id
 instead of panicking

---
 src/actor/id.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 26f3fff..c627488 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -137,9 +137,10 @@ impl ActorID {
     pub fn from_bytes(bytes: &[u8]) -> Result<Self, ActorIDFromBytesError> {
         // Extract the ID
         let sequence_id = u64::from_le_bytes(
-            bytes[0..8]
-                .try_into()
-                .map_err(|_| ActorIDFromBytesError::MissingSequenceID)?,
+            bytes
+                .get(0..8)
+                .and_then(|bytes| bytes.try_into().ok())
+                .ok_or(ActorIDFromBytesError::MissingSequenceID)?,
         );
 
         // Extract the peer id
-- 
2.43.0


From 88e5478b60cd117d25be10eacc1bfa4bf264e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 07/27] fix: linking takes the two link locks in a fixed order,
 so that concurrent links cannot deadlock

---
 src/actor/actor_ref.rs | 64 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 9d93be0..efc76ad 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -9,7 +9,7 @@ use std::{
 use dyn_clone::DynClone;
 use futures::{future::BoxFuture, stream::AbortHandle, FutureExt, Stream, StreamExt, TryFutureExt};
 use tokio::{
-    sync::{Mutex, Semaphore},
+    sync::{Mutex, MutexGuard, Semaphore},
     task::JoinHandle,
     task_local,
 };
@@ -519,8 +519,11 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = Links::lock_both(
+            (self.id, &self.links),
+            (sibbling_ref.id, &sibbling_ref.links),
+        )
+        .await;
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -558,8 +561,10 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = Links::blocking_lock_both(
+            (self.id, &self.links),
+            (sibbling_ref.id, &sibbling_ref.links),
+        );
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -642,8 +647,11 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = Links::lock_both(
+            (self.id, &self.links),
+            (sibbling_ref.id, &sibbling_ref.links),
+        )
+        .await;
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -680,8 +688,10 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = Links::blocking_lock_both(
+            (self.id, &self.links),
+            (sibbling_ref.id, &sibbling_ref.links),
+        );
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -1359,6 +1369,42 @@ impl<M: Send + 'static> fmt::Debug for WeakRecipient<M> {
 #[allow(missing_debug_implementations)]
 pub(crate) struct Links(Arc<Mutex<HashMap<ActorID, Link>>>);
 
+type LinksGuard<'a> = MutexGuard<'a, HashMap<ActorID, Link>>;
+
+impl Links {
+    /// Locks the links of two actors, always in the order of the actors' sequence ids,
+    /// so that two actors linking (or unlinking) with each other cannot deadlock.
+    async fn lock_both<'a>(
+        (a_id, a): (ActorID, &'a Links),
+        (b_id, b): (ActorID, &'a Links),
+    ) -> (LinksGuard<'a>, LinksGuard<'a>) {
+        if a_id.sequence_id() < b_id.sequence_id() {
+            let a = a.lock().await;
+            let b = b.lock().await;
+            (a, b)
+        } else {
+            let b = b.lock().await;
+            let a = a.lock().await;
+            (a, b)
+        }
+    }
+
+    fn blocking_lock_both<'a>(
+        (a_id, a): (ActorID, &'a Links),
+        (b_id, b): (ActorID, &'a Links),
+    ) -> (LinksGuard<'a>, LinksGuard<'a>) {
+        if a_id.sequence_id() < b_id.sequence_id() {
+            let a = a.blocking_lock();
+            let b = b.blocking_lock();
+            (a, b)
+        } else {
+            let b = b.blocking_lock();
+            let a = a.blocking_lock();
+            (a, b)
+        }
+    }
+}
+
 impl ops::Deref for Links {
     type Target = Mutex<HashMap<ActorID, Link>>;
 
-- 
2.43.0


From 763912b7fc09111798ccfd3af997f9cb877a401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 08/27] fix: wait_for_startup completes when on_start has
 finished, even if the startup signal is never processed

---
 src/actor/spawn.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 528c0c9..c7ac3d2 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -458,14 +458,17 @@ where
         startup_finished = true;
     }
 
-    let (actor_ref, links, startup_semaphore) = {
+    actor_ref
+        .startup_semaphore
+        .add_permits(Semaphore::MAX_PERMITS);
+
+    let (actor_ref, links) = {
         // Downgrade actor ref
         let weak_actor_ref = actor_ref.downgrade();
-        (weak_actor_ref, actor_ref.links, actor_ref.startup_semaphore)
+        (weak_actor_ref, actor_ref.links)
     };
 
     if let Err(err) = start_res {
-        startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
         let reason = ActorStopReason::Panicked(err);
         let mut state = S::new_from_actor(actor, actor_ref.clone());
         let reason = state
@@ -502,12 +505,7 @@ where
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
     let reason = Abortable::new(
-        abortable_actor_loop(
-            &mut state,
-            &mut mailbox_rx,
-            startup_semaphore,
-            startup_finished,
-        ),
+        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
         abort_registration,
     )
     .await
@@ -594,7 +592,6 @@ where
 async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_semaphore: Arc<Semaphore>,
     startup_finished: bool,
 ) -> ActorStopReason
 where
@@ -607,7 +604,7 @@ where
         }
     }
     loop {
-        let reason = recv_mailbox_loop(state, mailbox_rx, &startup_semaphore).await;
+        let reason = recv_mailbox_loop(state, mailbox_rx).await;
         if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
             return reason;
         }
@@ -617,7 +614,6 @@ where
 async fn recv_mailbox_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_semaphore: &Semaphore,
 ) -> ActorStopReason
 where
     A: Actor,
@@ -626,7 +622,6 @@ where
     loop {
         match state.next(mailbox_rx).await {
             Some(Signal::StartupFinished) => {
-                startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
                 if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
                     return reason;
                 }
-- 
2.43.0


From 9f42223fe55905058c4a1507c31ce708e2e7c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 09/27] fix: an actor whose on_start fails notifies its links
 like any other dying actor

---
 src/actor/spawn.rs | 56 +++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index c7ac3d2..b5d05d2 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -468,48 +468,24 @@ where
         (weak_actor_ref, actor_ref.links)
     };
 
-    if let Err(err) = start_res {
-        let reason = ActorStopReason::Panicked(err);
-        let mut state = S::new_from_actor(actor, actor_ref.clone());
-        let reason = state
-            .on_shutdown(reason.clone())
-            .await
-            .break_value()
-            .unwrap_or(reason);
-        let mut actor = state.shutdown().await;
-        let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
-        match on_stop_res {
-            Ok(()) => {
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(None)
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-            Err(err) => {
-                let err = PanicError::new(Box::new(err));
-                invoke_actor_error_hook(&err);
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(Some(err))
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-        }
-        log_actor_stop_reason(id, name, &reason);
-        return (actor, reason);
-    }
-
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
-    let reason = Abortable::new(
-        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
-        abort_registration,
-    )
-    .await
-    .unwrap_or(ActorStopReason::Killed);
+    let reason = match start_res {
+        Ok(()) => Abortable::new(
+            abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
+            abort_registration,
+        )
+        .await
+        .unwrap_or(ActorStopReason::Killed),
+        Err(err) => {
+            let reason = ActorStopReason::Panicked(err);
+            state
+                .on_shutdown(reason.clone())
+                .await
+                .break_value()
+                .unwrap_or(reason)
+        }
+    };
 
     let mut actor = state.shutdown().await;
 
-- 
2.43.0


From dbe5238e331fdcc14e07733deed9365c0d535ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 10/27] fix: a failing message among those buffered during
 startup no longer discards the rest of them or the stop request

---
 src/actor/kind.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index de9eef8..4ccc693 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -1,4 +1,4 @@
-use std::{collections::VecDeque, mem, ops::ControlFlow, panic::AssertUnwindSafe};
+use std::{collections::VecDeque, ops::ControlFlow, panic::AssertUnwindSafe};
 
 use futures::{Future, FutureExt};
 
@@ -70,26 +70,18 @@ where
     }
 
     async fn next(&mut self, mailbox_rx: &mut MailboxReceiver<A>) -> Option<Signal<A>> {
+        if self.finished_startup {
+            // Messages buffered during startup come before anything still in the mailbox
+            if let Some(signal) = self.startup_buffer.pop_front() {
+                return Some(signal);
+            }
+        }
         self.state.next(self.actor_ref.clone(), mailbox_rx).await
     }
 
     async fn handle_startup_finished(&mut self) -> ControlFlow<ActorStopReason> {
+        // The buffered messages are now returned from `next`, one by one
         self.finished_startup = true;
-        for signal in mem::take(&mut self.startup_buffer).drain(..) {
-            match signal {
-                Signal::Message {
-                    message,
-                    actor_ref,
-                    reply,
-                    sent_within_actor,
-                } => {
-                    self.handle_message(message, actor_ref, reply, sent_within_actor)
-                        .await?;
-                }
-                _ => unreachable!(),
-            }
-        }
-
         ControlFlow::Continue(())
     }
 
@@ -151,9 +143,13 @@ where
 
     #[inline]
     async fn handle_stop(&mut self) -> ControlFlow<ActorStopReason> {
-        match self.handle_startup_finished().await {
-            ControlFlow::Continue(_) => ControlFlow::Break(ActorStopReason::Normal),
-            ControlFlow::Break(reason) => ControlFlow::Break(reason),
+        self.finished_startup = true;
+        if self.startup_buffer.is_empty() {
+            ControlFlow::Break(ActorStopReason::Normal)
+        } else {
+            // Stop once the messages which were buffered during startup are processed
+            self.startup_buffer.push_back(Signal::Stop);
+            ControlFlow::Continue(())
         }
     }
 
-- 
2.43.0


From fd9f4e107a5f1250c21cbc14a91a65ed1f24f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 11/27] fix: a running actor no longer keeps itself alive, so
 that it stops when the last reference is dropped

---
 src/actor/spawn.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index b5d05d2..b96cdff 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -463,9 +463,11 @@ where
         .add_permits(Semaphore::MAX_PERMITS);
 
     let (actor_ref, links) = {
-        // Downgrade actor ref
+        // Downgrade actor ref, so that the actor doesn't keep itself alive
         let weak_actor_ref = actor_ref.downgrade();
-        (weak_actor_ref, actor_ref.links)
+        let links = actor_ref.links.clone();
+        drop(actor_ref);
+        (weak_actor_ref, links)
     };
 
     let mut state = S::new_from_actor(actor, actor_ref.clone());
-- 
2.43.0


From e364ec3d722282fa76e9e9fab5743642b6924a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:28 +0000
Subject: [PATCH 12/27] fix: a stopping actor keeps emptying its mailbox while
 notifying links, so that two dying actors cannot wait for each other

---
 src/actor/spawn.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index b96cdff..874d988 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -539,7 +539,19 @@ where
     let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
     log_actor_stop_reason(id, name, &reason);
 
-    while let Some(()) = link_notification_futures.next().await {}
+    // A sibbling dying at the same time waits for space in this mailbox to notify this actor, so whatever is still
+    // arriving is discarded while notifying, otherwise two actors with full mailboxes would wait for each other forever.
+    loop {
+        tokio::select! {
+            biased;
+            notified = link_notification_futures.next() => {
+                if notified.is_none() {
+                    break;
+                }
+            }
+            Some(_) = mailbox_rx.recv() => {}
+        }
+    }
     #[cfg(feature = "remote")]
     remote::REMOTE_REGISTRY.lock().await.remove(&id);
 
-- 
2.43.0


From 3e4cc420bd6f512f91c86427ec19108a89fc6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:21 +0000
Subject: [PATCH 13/27] fix: an asker no longer panics when a message forwarded
 more than once is answered with an error

---
 src/reply.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/reply.rs b/src/reply.rs
index 75d8d10..cc56d27 100644
--- a/src/reply.rs
+++ b/src/reply.rs
@@ -292,18 +292,11 @@ where
         *ok.downcast().unwrap()
     }
 
-    /// The error is either from the inner `R`, or our outer `SendError`.
+    /// The error is either our outer `SendError`, or from the inner `R`, which may itself be a forwarded reply.
     /// We'll try both.
     fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
-        err.try_downcast::<N, R::Error>()
-            .map(|err| err.map_err(SendError::HandlerError))
-            .unwrap_or_else(|err| {
-                err.downcast::<M, SendError<M, R::Error>>().map_msg(|_| {
-                    unreachable!(
-                        "forwarded reply is only an error if it failed to forward the message"
-                    )
-                })
-            })
+        err.try_downcast::<N, Self::Error>()
+            .unwrap_or_else(|err| R::downcast_err::<N>(err).map_err(SendError::HandlerError))
     }
 }
 
-- 
2.43.0


From a3df23a020cd4bbe349afd92d2e765b7ef682794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 14/27] fix: a local actor id keeps its hash when the swarm is
 bootstrapped, so links and maps keyed by it stay intact

---
 src/actor/id.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index c627488..3f59fe4 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -233,7 +233,11 @@ impl PeerIdKind {
 #[cfg(feature = "remote")]
 impl PartialEq for PeerIdKind {
     fn eq(&self, other: &Self) -> bool {
-        self.peer_id() == other.peer_id()
+        match (self, other) {
+            // Equal no matter if the swarm is being bootstrapped meanwhile
+            (PeerIdKind::Local, PeerIdKind::Local) => true,
+            _ => self.peer_id() == other.peer_id(),
+        }
     }
 }
 
@@ -243,8 +247,13 @@ impl Eq for PeerIdKind {}
 #[cfg(feature = "remote")]
 impl Hash for PeerIdKind {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        if let Some(peer_id) = self.peer_id() {
-            state.write(&peer_id.to_bytes());
+        // The local peer must hash the same before and after the swarm is bootstrapped,
+        // as local ids are already used as keys before then.
+        match self {
+            PeerIdKind::PeerId(peer_id) if Some(peer_id) != PeerIdKind::Local.peer_id() => {
+                state.write(&peer_id.to_bytes());
+            }
+            _ => {}
         }
     }
 }
-- 
2.43.0


From 0ed3b96cb0a7be643e62f776521742aed5e7e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 15/27] fix: an invalid registration record from another peer
 no longer panics the swarm task or a lookup

---
 src/remote/swarm.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 9715833..8491090 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -330,14 +330,13 @@ impl ActorSwarm {
         async move {
             match reply_rx.await {
                 Ok(kad::PeerRecord { record, .. }) => {
-                    if record.value.is_empty() {
-                        return Ok(None);
-                    }
-
-                    let ActorRegistration {
+                    let Some(ActorRegistration {
                         actor_id,
                         remote_id,
-                    } = ActorRegistration::from_bytes(&record.value);
+                    }) = ActorRegistration::from_bytes(&record.value)
+                    else {
+                        return Ok(None);
+                    };
                     if A::REMOTE_ID != remote_id {
                         return Err(RegistryError::BadActorType);
                     }
@@ -575,7 +574,10 @@ impl ActorSwarmHandler {
                 let registration = swarm
                     .behaviour_mut()
                     .kademlia_get_record_local(&key)
-                    .map(|record| ActorRegistration::from_bytes(&record.value).into_owned());
+                    .and_then(|record| {
+                        ActorRegistration::from_bytes(&record.value)
+                            .map(ActorRegistration::into_owned)
+                    });
                 let _ = reply.send(registration);
             }
             SwarmCommand::Register { record, reply } => {
@@ -1214,11 +1216,13 @@ impl<'a> ActorRegistration<'a> {
         bytes
     }
 
-    fn from_bytes(bytes: &'a [u8]) -> Self {
-        let peer_id_bytes_len = u8::from_le_bytes(bytes[..1].try_into().unwrap()) as usize;
-        let actor_id = ActorID::from_bytes(&bytes[1..1 + 8 + peer_id_bytes_len]).unwrap();
-        let remote_id = std::str::from_utf8(&bytes[1 + 8 + peer_id_bytes_len..]).unwrap();
-        ActorRegistration::new(actor_id, Cow::Borrowed(remote_id))
+    /// Records come from other peers and might not hold a valid registration, in which case `None` is returned.
+    fn from_bytes(bytes: &'a [u8]) -> Option<Self> {
+        let (&peer_id_bytes_len, bytes) = bytes.split_first()?;
+        let actor_id_bytes_len = 8 + peer_id_bytes_len as usize;
+        let actor_id = ActorID::from_bytes(bytes.get(..actor_id_bytes_len)?).ok()?;
+        let remote_id = std::str::from_utf8(bytes.get(actor_id_bytes_len..)?).ok()?;
+        Some(ActorRegistration::new(actor_id, Cow::Borrowed(remote_id)))
     }
 
     fn into_owned(self) -> ActorRegistration<'static> {
-- 
2.43.0


From 372bceebacad37a62b6f5674954a0d091bb0bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 16/27] fix: unregistering a name while no peer is connected
 removes its record

---
 src/remote/swarm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 8491090..4089975 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -598,7 +598,7 @@ impl ActorSwarmHandler {
             }
             SwarmCommand::Unregister { key, reply } => {
                 if swarm.network_info().num_peers() == 0 {
-                    swarm.behaviour_mut().kademlia_remove_record(&key);
+                    swarm.behaviour_mut().kademlia_remove_record_local(&key);
                     let _ = reply.send(Ok(kad::PutRecordOk { key }));
                 } else {
                     let record = kad::Record::new(key.clone(), vec![]);
-- 
2.43.0


From 60ddd47a8aa863916810066e7fa3465cfcd8723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 17/27] fix: a full record store fails the registration instead
 of panicking the swarm task

---
 src/remote/swarm.rs | 48 +++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 4089975..0976832 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -1,5 +1,5 @@
 use core::task;
-use std::{borrow::Cow, collections::HashMap, io, pin, time::Duration};
+use std::{borrow::Cow, collections::HashMap, io, num::NonZeroUsize, pin, time::Duration};
 
 use futures::{ready, stream::FuturesUnordered, Future, FutureExt, StreamExt};
 use libp2p::{
@@ -583,17 +583,24 @@ impl ActorSwarmHandler {
             SwarmCommand::Register { record, reply } => {
                 if swarm.network_info().num_peers() == 0 {
                     let key = record.key.clone();
-                    swarm
-                        .behaviour_mut()
-                        .kademlia_put_record_local(record)
-                        .unwrap();
-                    let _ = reply.send(Ok(kad::PutRecordOk { key }));
+                    let res = swarm.behaviour_mut().kademlia_put_record_local(record);
+                    let _ = reply.send(match res {
+                        Ok(()) => Ok(kad::PutRecordOk { key }),
+                        Err(_) => Err(put_record_rejected(key)),
+                    });
                 } else {
-                    let query_id = swarm
+                    let key = record.key.clone();
+                    match swarm
                         .behaviour_mut()
                         .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
-                    self.put_queries.insert(query_id, reply);
+                    {
+                        Ok(query_id) => {
+                            self.put_queries.insert(query_id, reply);
+                        }
+                        Err(_) => {
+                            let _ = reply.send(Err(put_record_rejected(key)));
+                        }
+                    }
                 }
             }
             SwarmCommand::Unregister { key, reply } => {
@@ -602,12 +609,18 @@ impl ActorSwarmHandler {
                     let _ = reply.send(Ok(kad::PutRecordOk { key }));
                 } else {
                     let record = kad::Record::new(key.clone(), vec![]);
-                    let query_id = swarm
+                    let res = swarm
                         .behaviour_mut()
-                        .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
+                        .kademlia_put_record(record, kad::Quorum::One);
                     swarm.behaviour_mut().kademlia_remove_record(&key);
-                    self.put_queries.insert(query_id, reply);
+                    match res {
+                        Ok(query_id) => {
+                            self.put_queries.insert(query_id, reply);
+                        }
+                        Err(_) => {
+                            let _ = reply.send(Err(put_record_rejected(key)));
+                        }
+                    }
                 }
             }
             SwarmCommand::Ask {
@@ -998,6 +1011,15 @@ impl ActorSwarmHandler {
     }
 }
 
+/// The local store has no room for a record, so that not a single peer stores it.
+fn put_record_rejected(key: kad::RecordKey) -> kad::PutRecordError {
+    kad::PutRecordError::QuorumFailed {
+        key,
+        success: vec![],
+        quorum: NonZeroUsize::MIN,
+    }
+}
+
 #[derive(Clone, Debug)]
 pub(crate) struct SwarmSender(mpsc::UnboundedSender<SwarmCommand>);
 
-- 
2.43.0


From 8c2690690a071a8a38ac08cf550dbcc7b36d40c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 18/27] fix: requests are dispatched by the node the actor runs
 on, not by whether any peer is connected

---
 src/remote/swarm.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 0976832..7869743 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -634,7 +634,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if peer_id == *swarm.local_peer_id() {
                     tokio::spawn(async move {
                         let result = remote::ask(
                             actor_id,
@@ -672,7 +672,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if peer_id == *swarm.local_peer_id() {
                     tokio::spawn(async move {
                         let result = remote::tell(
                             actor_id,
@@ -711,7 +711,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if is_local(swarm, &sibbling_id) {
                     tokio::spawn(async move {
                         let result = remote::link(
                             sibbling_id,
@@ -741,7 +741,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if is_local(swarm, &sibbling_id) {
                     tokio::spawn(async move {
                         let result =
                             remote::unlink(sibbling_id, sibbling_remote_id, actor_id).await;
@@ -765,7 +765,7 @@ impl ActorSwarmHandler {
                 stop_reason,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if is_local(swarm, &notified_actor_id) {
                     tokio::spawn(async move {
                         let result = remote::signal_link_died(
                             dead_actor_id,
@@ -1011,6 +1011,13 @@ impl ActorSwarmHandler {
     }
 }
 
+/// Whether the actor runs on this node, which cannot be dialed by itself.
+fn is_local<B: SwarmBehaviour>(swarm: &Swarm<B>, actor_id: &ActorID) -> bool {
+    actor_id
+        .peer_id()
+        .map_or(true, |peer_id| peer_id == swarm.local_peer_id())
+}
+
 /// The local store has no room for a record, so that not a single peer stores it.
 fn put_record_rejected(key: kad::RecordKey) -> kad::PutRecordError {
     kad::PutRecordError::QuorumFailed {
-- 
2.43.0


From 79d08598db85ac820beb44ab8f372fc79ce2e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 19/27] fix: actors linked with a peer are told it disconnected
 only once its last connection closed

---
 src/remote/swarm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 7869743..e8eeb99 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -803,6 +803,11 @@ impl ActorSwarmHandler {
         event: ActorSwarmEvent,
     ) {
         match event {
+            ActorSwarmEvent::ConnectionClosed {
+                num_established, ..
+            } if num_established > 0 => {
+                // Still connected to the peer through another connection
+            }
             ActorSwarmEvent::ConnectionClosed { peer_id, .. } => {
                 tokio::spawn(async move {
                     let mut futures = FuturesUnordered::new();
-- 
2.43.0


From cda3cfd12554b3e344f2f1c028b862c8f6773f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 20/27] fix: a pool worker gets the capacity of its actor's
 mailbox, not what is left of it (zero panicked)

---
 actors/src/pool.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index d53def0..9949d56 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -106,7 +106,7 @@ where
                     actor_ref: factory(),
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -135,7 +135,7 @@ where
             FutureExt::map(factory(), |actor_ref| {
                 let worker = Worker { actor_ref };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -202,7 +202,7 @@ where
             Factory::Sync(f) => {
                 let worker = Worker { actor_ref: f() };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -212,7 +212,7 @@ where
                     actor_ref: f().await,
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-- 
2.43.0


From dcd6243ae21681d1ca8e90fdf3b3226a5f037374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 21/27] fix: an error answered by a pool worker reaches the
 asker instead of panicking it

---
 actors/src/pool.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 9949d56..f63929b 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -41,6 +41,7 @@
 //! ```
 
 use std::{
+    any::Any,
     fmt,
     ops::ControlFlow,
     sync::{Arc, Weak},
@@ -50,7 +51,11 @@ use futures::{
     Future, FutureExt, TryFutureExt,
     future::{BoxFuture, join_all},
 };
-use kameo::{actor::spawn_with_mailbox, error::Infallible, prelude::*};
+use kameo::{
+    actor::spawn_with_mailbox,
+    error::{BoxSendError, Infallible},
+    prelude::*,
+};
 
 enum Factory<A: Actor> {
     Sync(Box<dyn FnMut() -> ActorRef<A> + Send + Sync + 'static>),
@@ -295,6 +300,27 @@ where
     fn into_value(self) -> Self::Value {
         unimplemented!("a WorkerReply cannot be converted to a value and is only a marker type")
     }
+
+    /// The handler error is the `SendError` a worker answered with, which is about the message that was dispatched.
+    fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
+        let undispatched = |msg: M| {
+            let msg: Box<dyn Any> = Box::new(Dispatch(msg));
+            msg.downcast::<N>().ok().map(|msg| *msg)
+        };
+        err.downcast::<N, SendError<M, Self::Error>>()
+            .map_err(|err| match err {
+                SendError::ActorNotRunning(msg) => {
+                    undispatched(msg).map_or(SendError::ActorStopped, SendError::ActorNotRunning)
+                }
+                SendError::ActorStopped => SendError::ActorStopped,
+                SendError::MailboxFull(msg) => {
+                    undispatched(msg).map_or(SendError::ActorStopped, SendError::MailboxFull)
+                }
+                SendError::HandlerError(err) => SendError::HandlerError(err),
+                SendError::Timeout(msg) => SendError::Timeout(msg.and_then(undispatched)),
+            })
+            .flatten()
+    }
 }
 
 /// A message to be handled by a worker in an actor pool.
-- 
2.43.0


From 9cc97748533006e200c31732b9821207ca34c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 22/27] fix: a pool worker whose actor is gone stops, so that
 the pool replaces it

---
 actors/src/pool.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index f63929b..e7d094b 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -258,9 +258,13 @@ where
             msg,
             counter: _counter,
         }: WorkerMsgWrapper<M>,
-        _ctx: &mut Context<Self, Self::Reply>,
+        ctx: &mut Context<Self, Self::Reply>,
     ) -> Self::Reply {
-        self.actor_ref.ask(msg).await
+        let res = self.actor_ref.ask(msg).await;
+        if !self.actor_ref.is_alive() {
+            ctx.actor_ref().kill(); // The pool replaces a worker which died
+        }
+        res
     }
 }
 
-- 
2.43.0


From 2330f81a2c69259ef3cc84ff68c5e39c2fd998d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 23/27] fix: a dispatch passes over pool workers which are not
 running while others are

---
 actors/src/pool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index e7d094b..9850a26 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -161,7 +161,7 @@ where
     fn next_worker(&self) -> (&ActorRef<Worker<A>>, Weak<()>) {
         self.workers
             .iter()
-            .min_by_key(|(_, load)| Arc::weak_count(load))
+            .min_by_key(|(worker, load)| (!worker.is_alive(), Arc::weak_count(load)))
             .map(|(actor_ref, counter)| (actor_ref, Arc::downgrade(counter)))
             .expect("ActorPool should have at least one worker")
     }
-- 
2.43.0


From f9b67bee250c0585947bd37d1d319df7be1b5368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 24/27] fix: a dispatch that finds no running pool worker is
 answered with its message, and does not stop the pool

---
 actors/src/pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 9850a26..ab20bb8 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -387,7 +387,13 @@ where
             }
         }
 
-        WorkerReply::Err(SendError::ActorNotRunning(msg))
+        match reply_sender {
+            Some(tx) => {
+                tx.send(Err(SendError::ActorNotRunning(msg)));
+                WorkerReply::Forwarded
+            }
+            None => WorkerReply::Err(SendError::ActorNotRunning(msg)),
+        }
     }
 }
 
-- 
2.43.0


From afe13a83be0fa3db42d122642c909983e27ceb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 25/27] fix: messages macro lists a type parameter once when
 several arguments use it

A method like fn put(&mut self, a: A, b: B, other: A) made a message struct
Put<A, B, A>, which does not compile: dedup() only removes neighbours.
---
 macros/src/messages.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 5a7de82..8ab7ab2 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -169,7 +169,13 @@ impl Messages {
                                 generics.extend(contains_generic_in_param(ty, &impl_item_generics));
                             }
 
-                            generics.dedup();
+                            // keep the first of each: a parameter may be used by several arguments
+                            let generics = generics.into_iter().fold(Vec::new(), |mut unique, param| {
+                                if !unique.contains(&param) {
+                                    unique.push(param);
+                                }
+                                unique
+                            });
                             let generics = if generics.is_empty() {
                                 impl_item_fn.sig.generics.clone()
                             } else {
-- 
2.43.0


From 3ffdb82cb0ac5385a42ffb9a3e79679e9ad27cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 26/27] fix: messages macro no longer gives a message the type
 parameters of the reply

A type parameter that only the return type uses made a message struct with an
unused parameter (or, without arguments, one with no parameter that was then
given one), which does not compile. The reply type is part of the impl, not of
the message.
---
 macros/src/messages.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 8ab7ab2..1636c19 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -165,10 +165,6 @@ impl Messages {
                                     generics.extend(contains_generic_in_param(&ty.ty, &impl_item_generics));
                                 }
                             }
-                            if let ReturnType::Type(_, ty) = &impl_item_fn.sig.output {
-                                generics.extend(contains_generic_in_param(ty, &impl_item_generics));
-                            }
-
                             // keep the first of each: a parameter may be used by several arguments
                             let generics = generics.into_iter().fold(Vec::new(), |mut unique, param| {
                                 if !unique.contains(&param) {
-- 
2.43.0


From 116212244f00260a47f4d59cde45cf8c9b9efca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 27/27] fix: messages macro finds type parameters inside the
 arguments of a type

An argument like Vec<T> or Option<T> with T of the impl block made a message
struct without T, which does not compile.
---
 macros/src/messages.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 1636c19..37afd4b 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -6,8 +6,8 @@ use syn::{
     parse_quote, parse_quote_spanned,
     punctuated::Punctuated,
     spanned::Spanned,
-    Attribute, Field, FnArg, GenericParam, Generics, Ident, ImplItem, ItemImpl, Meta, ReturnType,
-    Signature, Token, Type, Visibility,
+    Attribute, Field, FnArg, GenericArgument, GenericParam, Generics, Ident, ImplItem, ItemImpl,
+    Meta, PathArguments, ReturnType, Signature, Token, Type, Visibility,
 };
 
 pub struct Messages {
@@ -475,7 +475,19 @@ fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<Generi
                 }
             }
 
-            vec![]
+            path.path
+                .segments
+                .iter()
+                .filter_map(|segment| match &segment.arguments {
+                    PathArguments::AngleBracketed(args) => Some(&args.args),
+                    _ => None,
+                })
+                .flatten()
+                .flat_map(|arg| match arg {
+                    GenericArgument::Type(ty) => contains_generic_in_param(ty, generics),
+                    _ => vec![],
+                })
+                .collect()
         }
         Type::Ptr(ptr) => contains_generic_in_param(&ptr.elem, generics),
         Type::Reference(reference) => {
-- 
2.43.0

