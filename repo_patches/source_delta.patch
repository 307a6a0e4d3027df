From 3f2eba768657bbeab8f47b269bb73e97b6768af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:38 +0000
Subject: [PATCH 01/10] fix: count a consumed response as freed capacity in the
 acyclic sender

wait_until_available took a response off the channel without decrementing
send_receive_delta, so waiting before enqueueing used up two responses per
item and blocked forever.
---
 src/channel/sender/bounded.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/channel/sender/bounded.rs b/src/channel/sender/bounded.rs
index fb39409..249cf72 100644
--- a/src/channel/sender/bounded.rs
+++ b/src/channel/sender/bounded.rs
@@ -35,6 +35,7 @@ impl<T> BoundedProvider for BoundedAcyclicSender<T> {
         match self.bound.resp.recv() {
             Ok(time) => {
                 manager.advance(time);
+                self.bound.send_receive_delta -= 1;
                 Ok(())
             }
             Err(_) => Err(EnqueueError::Closed),
-- 
2.43.0


From 8e5fa651c5c95b3492775293fa6911defe249631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:58 +0000
Subject: [PATCH 02/10] fix: advance to an already peeked element in the
 acyclic peek_next

When peek had already cached the next element, peek_next returned it without
advancing the local clock, unlike the cyclic flavor and the uncached path.
---
 src/channel/receiver/acyclic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/channel/receiver/acyclic.rs b/src/channel/receiver/acyclic.rs
index 577e4cd..2f826db 100644
--- a/src/channel/receiver/acyclic.rs
+++ b/src/channel/receiver/acyclic.rs
@@ -10,7 +10,10 @@ pub(super) trait AcyclicReceiver<T: Clone>: ReceiverCommon<T> {
         match &self.data().head {
             Some(PeekResult::Closed) => return Err(DequeueError::Closed),
             None | Some(PeekResult::Nothing(_)) => {}
-            Some(PeekResult::Something(data)) => return Ok(data.clone()),
+            Some(PeekResult::Something(data)) => {
+                manager.advance(data.time);
+                return Ok(data.clone());
+            }
         }
 
         self.data().head = match self.data().underlying.recv() {
-- 
2.43.0


From 3808476809752694e143395c6b4e66241bb9e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:02 +0000
Subject: [PATCH 03/10] fix: report Closed instead of advancing to infinite
 time in the cyclic sender

A full cyclic sender whose receiver had reached infinite time remembered to
check back at infinity, so the sending context's own clock became infinite
and its other channels looked closed to their receivers.
---
 src/channel/sender/bounded.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/channel/sender/bounded.rs b/src/channel/sender/bounded.rs
index 249cf72..71584a2 100644
--- a/src/channel/sender/bounded.rs
+++ b/src/channel/sender/bounded.rs
@@ -140,9 +140,12 @@ impl<T> BoundedProvider for BoundedCyclicSender<T> {
             // Forces the resp channel to synchronize w.r.t. the signal.
 
             if !self.update_srd() {
-                self.next_available = Some(SendOptions::CheckBackAt(
-                    new_time + self.data.spec.response_latency,
-                ));
+                self.next_available = Some(if new_time.is_infinite() {
+                    // A receiver that has finished will never respond again.
+                    SendOptions::Never
+                } else {
+                    SendOptions::CheckBackAt(new_time + self.data.spec.response_latency)
+                });
             }
         }
     }
-- 
2.43.0


From 71ca029819e923ff59b3aa3af548e4c461b801fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:38 +0000
Subject: [PATCH 04/10] verif hook: DRAM constructors for harnesses behind
 cfg(dam_verif)

---
 src/templates/dram.rs | 51 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 8cc57b4..0e8e046 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -289,6 +289,57 @@ impl<IType: IndexLike, T: DAMType, AT: DAMType> Context for DRAM<IType, T, AT> {
     }
 }
 
+/// Constructors for verification harnesses outside of the crate, only built with `--cfg dam_verif`.
+#[cfg(dam_verif)]
+mod verif_hooks {
+    use super::*;
+
+    impl DRAMConfig {
+        #[allow(missing_docs)]
+        pub fn verif_new(
+            num_simultaneous_requests: usize,
+            bandwidth_in_bits: usize,
+            latency: Time,
+            capacity: usize,
+        ) -> Self {
+            Self {
+                num_simultaneous_requests,
+                bandwidth_in_bits,
+                latency,
+                capacity,
+            }
+        }
+    }
+
+    impl<IT: DAMType, DT: DAMType> DRAMReadBundle<IT, DT> {
+        #[allow(missing_docs)]
+        pub fn verif_new(addr: Receiver<IT>, req_size: Receiver<IT>, data: Sender<DT>) -> Self {
+            Self {
+                addr,
+                req_size,
+                data,
+            }
+        }
+    }
+
+    impl<IT: DAMType, DT: DAMType, AT: DAMType> DRAMWriteBundle<IT, DT, AT> {
+        #[allow(missing_docs)]
+        pub fn verif_new(
+            addr: Receiver<IT>,
+            request_size: Receiver<IT>,
+            data: Receiver<DT>,
+            ack: Sender<AT>,
+        ) -> Self {
+            Self {
+                addr,
+                request_size,
+                data,
+                ack,
+            }
+        }
+    }
+}
+
 #[cfg(test)]
 pub mod tests {
 
-- 
2.43.0


From 452a28b76c536c9be2a61383549ee590a3429051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:16 +0000
Subject: [PATCH 05/10] fix: a datastore read before the first write must not
 return a later value

---
 src/templates/datastore.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/templates/datastore.rs b/src/templates/datastore.rs
index 3c221e7..8a2254d 100644
--- a/src/templates/datastore.rs
+++ b/src/templates/datastore.rs
@@ -76,16 +76,15 @@ impl<T: DAMType> Datastore<T> {
         // next_pos holds the location of the first element after the read time.
         let next_pos = reader.iter().position(|elem| elem.time > time);
         match next_pos {
-            Some(0) | None => match reader.last() {
-                None => {
-                    if self.behavior.use_default_value {
-                        T::default()
-                    } else {
-                        panic!("Attempting to read a value before anything was written!")
-                    }
+            None if !reader.is_empty() => reader.last().unwrap().data.clone(),
+            Some(0) | None => {
+                // Nothing was written up to the read time.
+                if self.behavior.use_default_value {
+                    T::default()
+                } else {
+                    panic!("Attempting to read a value before anything was written!")
                 }
-                Some(last_val) => last_val.data.clone(),
-            },
+            }
 
             Some(x) => reader.get(x - 1).unwrap().data.clone(),
         }
-- 
2.43.0


From fa5bcc69621593a8566281b5b16dd623c6b0eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:16 +0000
Subject: [PATCH 06/10] fix: accept trace entries at time 0

---
 src/utility_contexts/trace_context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility_contexts/trace_context.rs b/src/utility_contexts/trace_context.rs
index 318a30e..2a11daa 100644
--- a/src/utility_contexts/trace_context.rs
+++ b/src/utility_contexts/trace_context.rs
@@ -27,7 +27,10 @@ where
     fn run_falliable(&mut self) -> anyhow::Result<()> {
         if let Some(func) = self.iterator.take() {
             for (data, time) in (func)() {
-                self.time.advance(time.into() - 1);
+                let time: Time = time.into();
+                if time > Time::new(0) {
+                    self.time.advance(time - 1);
+                }
                 self.output
                     .enqueue(&self.time, ChannelElement::new(self.time.tick() + 1, data))?;
                 // Don't need an incr_cycles in case the generator wants to emit multiple values on the same cycle.
-- 
2.43.0


From 3d3e6a253a8fdf1bb239e6df6c0915d10b59ac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:16 +0000
Subject: [PATCH 07/10] fix: EventAll is ready only once all of its events are

---
 src/channel/utils.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/channel/utils.rs b/src/channel/utils.rs
index 53fb445..b2f9763 100644
--- a/src/channel/utils.rs
+++ b/src/channel/utils.rs
@@ -24,6 +24,16 @@ impl EventTime {
             EventTime::Closed => Time::infinite(),
         }
     }
+
+    /// The event of both self and other having happened.
+    fn both(self, other: Self) -> Self {
+        match (self, other) {
+            (EventTime::Ready(a), EventTime::Ready(b)) => EventTime::Ready(std::cmp::max(a, b)),
+            (EventTime::Closed, _) | (_, EventTime::Closed) => EventTime::Closed,
+            // At least one isn't ready, so we only know that it won't happen before the later of the two.
+            (a, b) => EventTime::Nothing(std::cmp::max(a.key(), b.key()) - 1),
+        }
+    }
 }
 
 impl Ord for EventTime {
@@ -73,7 +83,9 @@ where
 {
     fn next_event(self) -> EventTime {
         let events = self.under.map(|thing| thing.next_event());
-        events.max().unwrap_or(EventTime::Closed)
+        events
+            .reduce(EventTime::both)
+            .unwrap_or(EventTime::Closed)
     }
 }
 
-- 
2.43.0


From 4c521fb96f34d5762dc6630f135bebe1daaf292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:16 +0000
Subject: [PATCH 08/10] fix: PMU and DRAM requests are ready only once all of
 their parts are

---
 src/templates/dram.rs | 12 +++++-------
 src/templates/pmu.rs  |  7 ++++---
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 0e8e046..59b21d4 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -3,7 +3,7 @@ use std::collections::VecDeque;
 
 use crate::{
     channel::{
-        utils::{EventTime, Peekable},
+        utils::{EventCollection, EventTime, Peekable},
         ChannelElement, Receiver, Sender,
     },
     context::Context,
@@ -34,9 +34,8 @@ pub struct DRAMReadBundle<IT: Clone, DT: Clone> {
 impl<IT: DAMType, DT: Clone> Peekable for &DRAMReadBundle<IT, DT> {
     fn next_event(self) -> crate::channel::utils::EventTime {
         [self.addr.next_event(), self.req_size.next_event()]
-            .into_iter()
-            .max()
-            .unwrap()
+            .all_events()
+            .next_event()
     }
 }
 
@@ -55,9 +54,8 @@ impl<IT: DAMType, DT: DAMType, AT: Clone> Peekable for &DRAMWriteBundle<IT, DT,
             self.data.next_event(),
             self.request_size.next_event(),
         ]
-        .into_iter()
-        .max()
-        .unwrap()
+        .all_events()
+        .next_event()
     }
 }
 
diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index c7776c1..53c8367 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -2,14 +2,13 @@
 //! Unlike the original PMU, this does not support processing within the pipeline, and so all values must be pre-computed before being sent here.
 
 use std::{
-    cmp::max,
     collections::{HashMap, HashSet},
     sync::Arc,
 };
 
 use crate::{
     channel::{
-        utils::{EventTime, Peekable},
+        utils::{EventCollection, EventTime, Peekable},
         ChannelID,
     },
     context::{self, Context, ContextSummary, ExplicitConnections, ProxyContext},
@@ -282,7 +281,9 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for WritePipeline<T, IT, AT
                 .writers
                 .iter_mut()
                 .map(|writer: &mut PMUWriteBundle<T, IT, AT>| {
-                    max(writer.addr.next_event(), writer.data.next_event())
+                    [writer.addr.next_event(), writer.data.next_event()]
+                        .all_events()
+                        .next_event()
                 })
                 .collect();
             let next_event = next_events
-- 
2.43.0


From 844aac9b4d16685c520ebb9131b44760d1bb3507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:59 +0000
Subject: [PATCH 09/10] fix: report all channels of a PMU to flavor inference

---
 src/templates/pmu.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index 53c8367..06b25de 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -9,7 +9,6 @@ use std::{
 use crate::{
     channel::{
         utils::{EventCollection, EventTime, Peekable},
-        ChannelID,
     },
     context::{self, Context, ContextSummary, ExplicitConnections, ProxyContext},
     datastructures::{Identifiable, Identifier, Time, VerboseIdentifier},
@@ -74,18 +73,21 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
     }
 
     fn edge_connections(&self) -> Option<ExplicitConnections> {
-        let mut result =
-            HashMap::<Identifier, Vec<(HashSet<ChannelID>, HashSet<ChannelID>)>>::new();
-        for bundle in &self.reader.readers {
-            let srcs = [bundle.addr.id()];
-            let dsts = [bundle.resp.id()];
-            result.insert(self.reader.id(), vec![(srcs.into(), dsts.into())]);
-        }
-        for bundle in &self.writer.writers {
-            let srcs = [bundle.addr.id(), bundle.data.id()];
-            let dsts = [bundle.ack.id()];
-            result.insert(self.writer.id(), vec![(srcs.into(), dsts.into())]);
-        }
+        // Each pipeline looks at all of its inputs to pick the next request, and the reader also follows the writer.
+        let writers = &self.writer.writers;
+        let readers = &self.reader.readers;
+        let write_srcs: HashSet<_> = writers
+            .iter()
+            .flat_map(|bundle| [bundle.addr.id(), bundle.data.id()])
+            .collect();
+        let acks: HashSet<_> = writers.iter().map(|bundle| bundle.ack.id()).collect();
+        let mut read_srcs = write_srcs.clone();
+        read_srcs.extend(readers.iter().map(|bundle| bundle.addr.id()));
+        let resps: HashSet<_> = readers.iter().map(|bundle| bundle.resp.id()).collect();
+
+        let mut result = ExplicitConnections::new();
+        result.insert(self.reader.id(), vec![(read_srcs, resps)]);
+        result.insert(self.writer.id(), vec![(write_srcs, acks)]);
         Some(result)
     }
 
-- 
2.43.0


From b76d97cb1833cd01d8e144a40d9e42afd0b046f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:59 +0000
Subject: [PATCH 10/10] fix: apply the DRAM bandwidth to writes

---
 src/templates/dram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 59b21d4..7e80df8 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -213,9 +213,9 @@ impl<IType: IndexLike, T: DAMType, AT: DAMType> Context for DRAM<IType, T, AT> {
                         );
 
                         // The bandwidth-constrained transfer time
+                        let write_size: usize = write_buffer.iter().map(|x| x.dam_size()).sum();
                         let transfer_time =
-                            u64::try_from(write_buffer.iter().map(|x| x.dam_size()).sum::<usize>())
-                                .unwrap();
+                            u64::try_from(write_size / self.config.bandwidth_in_bits).unwrap();
                         // This is when the write "actually happened"
                         let write_time = transfer_start_time + transfer_time;
                         write_buffer
-- 
2.43.0

