From 57eb7b32084a322a6a610a70ebfe6f75aee74d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 01/27] fix: deliver a file listed several times in a row each
 time

---
 src/synthpix/scheduler/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index f01748e..56665e8 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -189,6 +189,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 return sample
             except FileEndedError as e:
                 self.index += 1
+                self._slice_idx = 0  # The next entry may be this same file again
                 continue  # Skip to the next file
 
         raise StopIteration
-- 
2.43.0


From 883d31a5589e79c1e01cdf24a3268e1fa1f882ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 02/27] fix: keep episode order when the wrapped scheduler
 shuffles on reset

---
 src/synthpix/scheduler/episodic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index ebd1929..8a58d30 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -285,6 +285,7 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
             f"{len(interleaved)} files"
         )
 
-        # Inject new order and reset cursors without reshuffling internally
-        self.scheduler.file_list = interleaved
+        # Reset cursors first: the reset may reshuffle the current file list,
+        # and must not reorder the episodes
         self.scheduler.reset()
+        self.scheduler.file_list = interleaved
-- 
2.43.0


From bd61f6327422cfda80a7b084792230b7ace492e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 03/27] fix: discover leaf directories in a reproducible order

---
 src/synthpix/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/utils.py b/src/synthpix/utils.py
index 9ea50a9..4be259e 100644
--- a/src/synthpix/utils.py
+++ b/src/synthpix/utils.py
@@ -463,7 +463,7 @@ def discover_leaf_dirs(
     dir_paths = {os.path.normpath(os.path.dirname(p)) for p in paths}  # dedupe upfront
     leaves: list[str] = []
 
-    for d in dir_paths:
+    for d in sorted(dir_paths):  # set order depends on the hash seed
         try:
             with os.scandir(d) as it:
                 # Early-exit on the first subdirectory
-- 
2.43.0


From 58a6c38d954662b142dd680811d6b36178dc763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 04/27] fix: pass the configured random key on to the file
 schedulers

---
 src/synthpix/scheduler/hdf5.py  | 1 +
 src/synthpix/scheduler/mat.py   | 1 +
 src/synthpix/scheduler/numpy.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 98be557..1b6a1f1 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -116,4 +116,5 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             file_list=config.get("file_list", []),
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
+            key=config.get("key", None),
         )
diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 95c6a70..633557d 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -226,4 +226,5 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             loop=config.get("loop", False),
             include_images=config.get("include_images", False),
             output_shape=tuple(config.get("output_shape", (256, 256))),
+            key=config.get("key", None),
         )
diff --git a/src/synthpix/scheduler/numpy.py b/src/synthpix/scheduler/numpy.py
index 8ef5336..67e5be8 100644
--- a/src/synthpix/scheduler/numpy.py
+++ b/src/synthpix/scheduler/numpy.py
@@ -140,4 +140,5 @@ class NumpyFlowFieldScheduler(BaseFlowFieldScheduler):
             randomize=config.get("randomize", False),
             loop=config.get("loop", True),
             include_images=config.get("include_images", False),
+            key=config.get("key", None),
         )
-- 
2.43.0


From 9d4e47e0c06913250f71e3a50c97b9c183446013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 05/27] fix: build wrapped schedulers for the number of flow
 fields per batch

---
 src/synthpix/make.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index e804a1c..ee574c3 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -183,12 +183,17 @@ def make(
     # Initialize the base scheduler
     scheduler = scheduler_class.from_config(kwargs)
 
+    # The synthetic sampler requests flow_fields_per_batch flow fields at a time
+    scheduler_batch_size = (
+        batch_size if include_images else dataset_config["flow_fields_per_batch"]
+    )
+
     # If episode_length is specified, use EpisodicFlowFieldScheduler
     if episode_length > 0:
         key, epi_key = jax.random.split(key)
         scheduler = EpisodicFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             episode_length=episode_length,
             key=epi_key,
         )
@@ -197,7 +202,7 @@ def make(
     if buffer_size > 0:
         scheduler = PrefetchingFlowFieldScheduler(
             scheduler=scheduler,
-            batch_size=batch_size,
+            batch_size=scheduler_batch_size,
             buffer_size=buffer_size,
         )
 
-- 
2.43.0


From 65ae41c5bbdfedd754b6d7f78d2884441e0b404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 06/27] fix: resize MATLAB images to (height, width), not its
 transpose

---
 src/synthpix/scheduler/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/mat.py b/src/synthpix/scheduler/mat.py
index 633557d..264f106 100644
--- a/src/synthpix/scheduler/mat.py
+++ b/src/synthpix/scheduler/mat.py
@@ -146,8 +146,9 @@ class MATFlowFieldScheduler(BaseFlowFieldScheduler):
             for key in ("I0", "I1"):
                 img = data[key]
                 if img.shape[:2] != self.output_shape:
+                    # PIL resize expects (width, height)
                     data[key] = np.asarray(
-                        Image.fromarray(img).resize(self.output_shape)
+                        Image.fromarray(img).resize(self.output_shape[::-1])
                     )
 
         flow = data["V"]
-- 
2.43.0


From 76764bdf7d565cc64419d4e49fb9a99452d44f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 07/27] fix: pad partial batches of colour images

---
 src/synthpix/scheduler/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 56665e8..1538a4f 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -269,14 +269,14 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             if images1 is not None:
                 images1 = np.pad(
                     images1,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images1.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
             if images2 is not None:
                 images2 = np.pad(
                     images2,
-                    ((0, pad_size), (0, 0), (0, 0)),
+                    ((0, pad_size),) + ((0, 0),) * (images2.ndim - 1),
                     mode="constant",
                     constant_values=0,
                 )
-- 
2.43.0


From fbe871744824abb3e148503d62fcf934da61fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 08/27] fix: accept directories in the HDF5 scheduler's file
 list

---
 src/synthpix/scheduler/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/hdf5.py b/src/synthpix/scheduler/hdf5.py
index 1b6a1f1..6f8173c 100644
--- a/src/synthpix/scheduler/hdf5.py
+++ b/src/synthpix/scheduler/hdf5.py
@@ -37,7 +37,7 @@ class HDF5FlowFieldScheduler(BaseFlowFieldScheduler):
             key: Random key for reproducibility.
         """
         super().__init__(file_list, randomize, loop, key)
-        if not all(file_path.endswith(".h5") for file_path in file_list):
+        if not all(file_path.endswith(".h5") for file_path in self.file_list):
             raise ValueError("All files must be HDF5 files with .h5 extension.")
 
     def load_file(self, file_path: str) -> SchedulerData:
-- 
2.43.0


From a325ad153db8bd90cd175b1757db03128d43e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 09/27] fix: signal exhaustion instead of looping forever over
 unreadable files

---
 src/synthpix/scheduler/base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index 1538a4f..cbf9f5f 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -162,7 +162,13 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
         Raises:
             StopIteration: If no more data and loop is False.
         """
+        # Files passed over since the last sample: the rest of this pass and all of
+        # the next one without any sample means that there is nothing to deliver
+        skipped = 0
         while self.index < len(self.file_list) or self.loop:
+            if skipped >= 2 * len(self.file_list):
+                raise StopIteration
+
             # Handle loop around
             if self.index >= len(self.file_list):
                 self.reset()
@@ -181,6 +187,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 except Exception as e:
                     logger.error(f"Error loading file {path}: {e}")
                     self.index += 1
+                    skipped += 1
                     continue  # Skip to the next file
 
             try:
@@ -190,6 +197,7 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             except FileEndedError as e:
                 self.index += 1
                 self._slice_idx = 0  # The next entry may be this same file again
+                skipped += 1
                 continue  # Skip to the next file
 
         raise StopIteration
@@ -219,10 +227,8 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
             except StopIteration:
                 break
         if len(batch) == 0:
-            if not self.loop:
-                raise StopIteration
-            self.reset()
-        if len(batch) < batch_size and not self.loop:
+            raise StopIteration
+        if len(batch) < batch_size:
             mask = np.zeros((batch_size,), dtype=bool)
             mask[: len(batch)] = True
 
-- 
2.43.0


From 07d57b234e5c65e613770617ff80c2a715225843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 10/27] fix: skip samples whose companion images cannot be read

---
 src/synthpix/scheduler/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/synthpix/scheduler/base.py b/src/synthpix/scheduler/base.py
index cbf9f5f..86ecc4f 100644
--- a/src/synthpix/scheduler/base.py
+++ b/src/synthpix/scheduler/base.py
@@ -199,6 +199,12 @@ class BaseFlowFieldScheduler(ABC, SchedulerProtocol):
                 self._slice_idx = 0  # The next entry may be this same file again
                 skipped += 1
                 continue  # Skip to the next file
+            except Exception as e:
+                logger.error(f"Error reading a sample of file {path}: {e}")
+                self.index += 1
+                self._slice_idx = 0
+                skipped += 1
+                continue  # Skip to the next file
 
         raise StopIteration
 
-- 
2.43.0


From a74667b1c3453a14a3548f2f79712e24eac606d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 11/27] fix: build episodes only from the listed files

---
 src/synthpix/scheduler/episodic.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/synthpix/scheduler/episodic.py b/src/synthpix/scheduler/episodic.py
index 8a58d30..5698df2 100644
--- a/src/synthpix/scheduler/episodic.py
+++ b/src/synthpix/scheduler/episodic.py
@@ -1,6 +1,5 @@
 """EpisodicFlowFieldScheduler to organize flow fields in episodes."""
 
-import glob
 import os
 
 from typing_extensions import Self
@@ -233,8 +232,13 @@ class EpisodicFlowFieldScheduler(EpisodicSchedulerProtocol):
                 for each possible episode start position.
         """
         # Extract the leaf directories from the file list
-        leaf_dirs = discover_leaf_dirs(self.file_list)
-        dir2files = {d: sorted(glob.glob(os.path.join(d, "*.mat"))) for d in leaf_dirs}
+        dir2files: dict[str, list[str]] = {
+            d: [] for d in discover_leaf_dirs(self.file_list)
+        }
+        for file in sorted({os.path.normpath(f) for f in self.file_list}):
+            directory = os.path.normpath(os.path.dirname(file))
+            if directory in dir2files and file.endswith(".mat"):
+                dir2files[directory].append(file)
 
         # Sanity-check: all directories must contain enough frames
         for d, files in dir2files.items():
-- 
2.43.0


From 3e2bd5adadb7ae85408c492145a7397ac3c0652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 12/27] fix: never drop a prefetched batch to signal the end of
 the stream

---
 src/synthpix/scheduler/prefetch.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 6da4e22..8e95f75 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -161,20 +161,10 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 try:
                     self._queue.put(None, block=True, timeout=eos_timeout)
                 except queue.Full:
-                    # If the queue is full for <eos_timeout>, I remove one item
-                    # before I can put the end‑of‑stream signal.
-
-                    # Acquire the mutex to ensure atomicity
-                    with self._queue.mutex:
-                        if self._queue.queue:
-                            # Remove one item from the queue to free up a slot
-                            self._queue.queue.popleft()
-
-                        # Write the EOS sentinel atomically
-                        self._queue.queue.append(None)
-
-                        # Notify the consumer that the end-of-stream signal is available
-                        self._queue.not_empty.notify_all()
+                    # The consumer is slow. Never drop a batch to make room for the
+                    # end‑of‑stream signal: the consumer will drain the queue and
+                    # stop when nothing else arrives.
+                    logger.debug("Queue full, end-of-stream signal not queued.")
 
                 logger.info("No more data to fetch, stopping prefetching thread.")
                 self._stop_event.set()
-- 
2.43.0


From d410ad02ebc7acc5e9063d962bfaf322c7de7cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 13/27] fix: stop the prefetching thread even if it waits for a
 free slot

---
 src/synthpix/scheduler/prefetch.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index 8e95f75..e7f1911 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -170,10 +170,14 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 self._stop_event.set()
                 return
 
-            # This will block until there is free space in the queue:
-            # no busy‑waiting needed.
-            # Exception cannot be raised here, would be dead code.
-            self._queue.put(batch, block=True)
+            # Wait until there is free space in the queue, but do not outlive a stop
+            # request: shutdown() may have refilled the slot it freed.
+            while not self._stop_event.is_set():
+                try:
+                    self._queue.put(batch, block=True, timeout=0.1)
+                    break
+                except queue.Full:
+                    continue
 
     def reset(self) -> None:
         """Resets the prefetching scheduler and underlying scheduler."""
-- 
2.43.0


From 55ea31f7b18ed54ea627e8cb0fa9c7545d737519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 14/27] fix: discard the rest of an abandoned episode even if
 it loads slowly

---
 src/synthpix/scheduler/prefetch.py | 32 ++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index e7f1911..c65db2e 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -61,6 +61,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
 
         self._started = False
         self._t = 0
+        self._stale = 0  # batches of abandoned episodes still to be discarded
 
         if not isinstance(startup_timeout, (int, float)) or startup_timeout <= 0:
             raise ValueError("startup_timeout must be a positive number.")
@@ -103,13 +104,20 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                     "Use next_episode() to continue."
                 )
         try:
-            if self.startup:
-                batch = self._queue.get(block=True, timeout=self.startup_timeout)
-            else:
-                batch = self._queue.get(block=True, timeout=self.steady_state_timeout)
-
-            if self.startup:
-                self.startup = False
+            while True:
+                if self.startup:
+                    batch = self._queue.get(block=True, timeout=self.startup_timeout)
+                else:
+                    batch = self._queue.get(
+                        block=True, timeout=self.steady_state_timeout
+                    )
+
+                if self.startup:
+                    self.startup = False
+
+                if self._stale == 0 or batch is None:
+                    break
+                self._stale -= 1  # left over from an abandoned episode
 
             self._t += 1
             if batch is None:
@@ -204,6 +212,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
         # Reinitialize the scheduler and start the thread
         self.scheduler.reset()
         self._t = 0
+        self._stale = 0
         self._started = False
         self._stop_event.clear()
         self._queue = queue.Queue(maxsize=self.buffer_size)
@@ -280,10 +289,10 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             return
 
         if self._started and self.steps_remaining() > 0:
-            to_discard = self.steps_remaining()
-            discarded = 0
+            # What cannot be discarded in time is discarded by get_batch()
+            self._stale += self.steps_remaining()
             deadline = time.time() + join_timeout
-            while discarded < to_discard:
+            while self._stale > 0:
                 remaining_time = deadline - time.time()
                 if remaining_time <= 0:
                     break
@@ -292,8 +301,9 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 except queue.Empty:
                     continue
                 if item is None:  # End-of-stream signal
+                    self._stale = 0
                     break
-                discarded += 1
+                self._stale -= 1
         else:
             self._start_worker()
 
-- 
2.43.0


From 29c8a5a1b23727a99582ac9f64c9eddcae2abd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 15/27] fix: report a failure of the prefetching thread to the
 consumer

---
 src/synthpix/scheduler/prefetch.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/scheduler/prefetch.py b/src/synthpix/scheduler/prefetch.py
index c65db2e..eca1602 100644
--- a/src/synthpix/scheduler/prefetch.py
+++ b/src/synthpix/scheduler/prefetch.py
@@ -115,7 +115,7 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 if self.startup:
                     self.startup = False
 
-                if self._stale == 0 or batch is None:
+                if self._stale == 0 or batch is None or isinstance(batch, Exception):
                     break
                 self._stale -= 1  # left over from an abandoned episode
 
@@ -123,6 +123,8 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
             if batch is None:
                 logger.info("End of stream reached, stopping iteration.")
                 raise StopIteration
+            if isinstance(batch, Exception):
+                raise batch
             return batch
         except queue.Empty:
             logger.info("Unable to get data.")
@@ -177,6 +179,10 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 logger.info("No more data to fetch, stopping prefetching thread.")
                 self._stop_event.set()
                 return
+            except Exception as e:
+                # Hand the failure over to the consumer in place of a batch
+                logger.error(f"Error prefetching a batch: {e}")
+                batch = e
 
             # Wait until there is free space in the queue, but do not outlive a stop
             # request: shutdown() may have refilled the slot it freed.
@@ -187,6 +193,9 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 except queue.Full:
                     continue
 
+            if isinstance(batch, Exception):
+                return
+
     def reset(self) -> None:
         """Resets the prefetching scheduler and underlying scheduler."""
         # Set the stop event to stop the current thread
@@ -303,6 +312,8 @@ class PrefetchingFlowFieldScheduler(PrefetchedSchedulerProtocol):
                 if item is None:  # End-of-stream signal
                     self._stale = 0
                     break
+                if isinstance(item, Exception):
+                    raise item
                 self._stale -= 1
         else:
             self._start_worker()
-- 
2.43.0


From 81d08a154730c25eb1e264621d1a1aa03db40216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 16/27] fix: one batch per flow batch also for prefetched
 episodes

---
 src/synthpix/sampler/synthetic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index fd4da6a..39ec72e 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -160,10 +160,12 @@ class SyntheticImageSampler(Sampler):
         if not isinstance(batches_per_flow_batch, int) or batches_per_flow_batch <= 0:
             raise ValueError("batches_per_flow_batch must be a positive integer.")
         self.batches_per_flow_batch = batches_per_flow_batch
+        # The episodic scheduler may be wrapped by the prefetching one
+        inner_scheduler = getattr(self.scheduler, "scheduler", None)
         if (
             isinstance(self.scheduler, EpisodicFlowFieldScheduler)
-            and batches_per_flow_batch != 1
-        ):
+            or isinstance(inner_scheduler, EpisodicFlowFieldScheduler)
+        ) and batches_per_flow_batch != 1:
             self.batches_per_flow_batch = 1
             logger.warning("Using batches_per_flow_batch = 1 for episodic setting.")
 
-- 
2.43.0


From c5c0f8437578c033eec7a9f2be1f201ea39f5a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 17/27] fix: never crop images smaller than requested because
 of rounding

---
 src/synthpix/sampler/synthetic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 39ec72e..229f8e9 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -349,10 +349,11 @@ class SyntheticImageSampler(Sampler):
             int((img_offset[1] - position_bounds_offset[1]) * resolution),
         )
 
-        # Calculate the position bounds in pixels
+        # Calculate the position bounds in pixels. They contain the image: do not
+        # lose its last row or column to the truncation.
         self.position_bounds = (
-            int(position_bounds[0] * resolution),
-            int(position_bounds[1] * resolution),
+            max(int(position_bounds[0] * resolution), self.img_offset[0] + image_shape[0]),
+            max(int(position_bounds[1] * resolution), self.img_offset[1] + image_shape[1]),
         )
 
         # Update generation specification with adjusted parameters
-- 
2.43.0


From 28978afe93d9797fff9e7f4a9f8ae3d519b6d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 18/27] fix: sample analytic flow fields as flow(t, x, y) at a
 scalar time

---
 src/synthpix/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/utils.py b/src/synthpix/utils.py
index 4be259e..b50c799 100644
--- a/src/synthpix/utils.py
+++ b/src/synthpix/utils.py
@@ -191,8 +191,9 @@ def generate_array_flow_field(
     cols = jnp.arange(W)
 
     # vmap over both axes, and apply the flow function at time t=1
+    # The flow function takes (t, x, y): x runs along columns and y along rows
     arr = jax.vmap(
-        lambda i: jax.vmap(lambda j: jnp.array(flow_f(jnp.ones(1), i, j)))(cols)
+        lambda i: jax.vmap(lambda j: jnp.array(flow_f(jnp.ones(()), j, i)))(cols)
     )(rows)
 
     return arr
-- 
2.43.0


From 623271b6421fe562ea9dae0cada702885f2d0ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 19/27] fix: reject NaN time steps and noise deviations

---
 src/synthpix/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/types.py b/src/synthpix/types.py
index 14184b4..4d416e9 100644
--- a/src/synthpix/types.py
+++ b/src/synthpix/types.py
@@ -300,10 +300,10 @@ class ImageGenerationSpecification:
             raise ValueError("noise_gaussian_mean must be a non-negative number.")
         if (
             not isinstance(self.noise_gaussian_std, (int, float))
-            or self.noise_gaussian_std < 0
+            or not self.noise_gaussian_std >= 0
         ):
             raise ValueError("noise_gaussian_std must be a non-negative number.")
-        if not isinstance(self.dt, (int, float)) or self.dt <= 0:
+        if not isinstance(self.dt, (int, float)) or not self.dt > 0:
             raise ValueError("dt must be a positive number.")
 
     def update(self, **kwargs) -> Self:
-- 
2.43.0


From 0aca87980d097605ea39b6d625a3d6173980ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 20/27] fix: rewrite configuration files as valid YAML for
 every value

---
 src/synthpix/sanity.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 244d50d..3e90762 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -9,6 +9,7 @@ import h5py
 import jax.numpy as jnp
 import numpy as np
 from goggles import get_logger
+from ruamel.yaml import YAML
 from tqdm import tqdm
 
 from .sampler import SyntheticImageSampler
@@ -50,16 +51,15 @@ def update_config_file(config_path: str, updated_values: dict) -> None:
     for key, value in updated_values.items():
         config_data[key] = convert_to_standard_type(value)
 
-    # Handle file_list separately
-    file_list = config_data.pop("file_list", [])
+    # Write the file list last
+    if "file_list" in config_data:
+        config_data.move_to_end("file_list")
 
-    with open(config_path, "w") as file:
-        for key, value in config_data.items():
-            file.write(f"{key}: {value}\n")
-        if file_list and isinstance(file_list, list):
-            file.write("file_list:\n")
-            for item in file_list:
-                file.write(f"  - {str(item)}\n")
+    yaml = YAML(typ="safe", pure=True)
+    yaml.default_flow_style = False
+    yaml.sort_base_mapping_type_on_output = False
+    with open(config_path, "w", encoding="utf-8") as file:
+        yaml.dump(dict(config_data), file)
 
 
 def calculate_min_and_max_speeds(file_list: list[str]) -> dict[str, float]:
-- 
2.43.0


From 32238e63f6cb965f16d3bddea2064d154f163595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 21/27] fix: move particles by the announced velocity also on
 coarse flow grids

---
 src/synthpix/sampler/synthetic.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 229f8e9..eb9aef7 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -356,6 +356,15 @@ class SyntheticImageSampler(Sampler):
             max(int(position_bounds[1] * resolution), self.img_offset[1] + image_shape[1]),
         )
 
+        # The flow field adapter samples the position bounds with a whole number of
+        # grid steps: the particles move on that grid, not on the original one
+        bounds_res_y, bounds_res_x = (
+            max(1, int(bounds / resolution * res)) * resolution / bounds
+            for bounds, res in zip(
+                self.position_bounds, (self.flow_field_res_y, self.flow_field_res_x)
+            )
+        )
+
         # Update generation specification with adjusted parameters
         generation_specification = generation_specification.update(
             batch_size=self.batch_size // self.ndevices,
@@ -398,8 +407,8 @@ class SyntheticImageSampler(Sampler):
             flow_field=flow,
             parameters=generation_specification,
             position_bounds=self.position_bounds,
-            flow_field_res_x=self.flow_field_res_x,
-            flow_field_res_y=self.flow_field_res_y,
+            flow_field_res_x=bounds_res_x,
+            flow_field_res_y=bounds_res_y,
             mask=self.mask_images,
             histogram=self.histogram,
         )
-- 
2.43.0


From 80ad35ed45c5e165ee2edaf89c623c5d11ae83aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 22/27] fix: name flow_fields_per_batch when it is invalid,
 also with wrappers

---
 src/synthpix/make.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index ee574c3..3b48bfc 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -187,6 +187,8 @@ def make(
     scheduler_batch_size = (
         batch_size if include_images else dataset_config["flow_fields_per_batch"]
     )
+    if not isinstance(scheduler_batch_size, int) or scheduler_batch_size <= 0:
+        raise ValueError("flow_fields_per_batch must be a positive integer.")
 
     # If episode_length is specified, use EpisodicFlowFieldScheduler
     if episode_length > 0:
-- 
2.43.0


From 8d055e71a093a115359313c9a1ddb331dc9f05f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 23/27] fix: accept any number of flow fields per batch on
 several devices

---
 src/synthpix/sampler/synthetic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index eb9aef7..7791144 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -490,6 +490,13 @@ class SyntheticImageSampler(Sampler):
             # While instead self.mask_images refers to the static mask provided at initialization
             self._files_scheduler = scheduler_batch.files
 
+            # Each device needs the same number of flow fields: if they cannot be
+            # divided, give each entry of the batch its own (cyclic) copy
+            if len(self._current_flows) % self.ndevices != 0:
+                self._current_flows = self._current_flows[
+                    np.arange(self.batch_size) % len(self._current_flows)
+                ]
+
             # Shard the flow fields across devices
             self._current_flows = jnp.array(self._current_flows, device=self.sharding)
             # Creating the output flow field
-- 
2.43.0


From 554a1e562162464a6a8bd8415da4358289ff8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 24/27] fix: name batches_per_flow_batch when it is ill-typed
 in episodic configurations

---
 src/synthpix/make.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/synthpix/make.py b/src/synthpix/make.py
index 3b48bfc..8d62d41 100644
--- a/src/synthpix/make.py
+++ b/src/synthpix/make.py
@@ -217,6 +217,8 @@ def make(
                 "config must contain the 'batches_per_flow_batch' key when"
                 " generating synthetic images."
             )
+        if not isinstance(batches_per_flow_batch, int) or batches_per_flow_batch <= 0:
+            raise ValueError("batches_per_flow_batch must be a positive integer.")
         # If episode_length is specified, use EpisodicFlowFieldScheduler
         if episode_length > 0 and batches_per_flow_batch > 1:
             # NOTE: batches_per_flow_batch is used below by the synthetic sampler
-- 
2.43.0


From 36b8f58b5aacedaa043a40f2543976b03791bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 25/27] fix: check the completed configuration after computing
 missing speeds

---
 src/synthpix/sanity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/synthpix/sanity.py b/src/synthpix/sanity.py
index 3e90762..becf6ba 100644
--- a/src/synthpix/sanity.py
+++ b/src/synthpix/sanity.py
@@ -227,6 +227,7 @@ def main() -> None:  # pragma: no cover
 
     # 1. Check min/max speeds and offer to fix
     missing_speeds_panel(config_path)
+    config = load_configuration(config_path)  # the speeds may have been added
 
     # 2. Try to instantiate the scheduler with the config
     scheduler = None
-- 
2.43.0


From 06ea5e56045be9f397537df8b440f7df36c2cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 26/27] fix: do not deliver the previous flow fields again
 after the scheduler ran out or failed

---
 src/synthpix/sampler/synthetic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/sampler/synthetic.py b/src/synthpix/sampler/synthetic.py
index 7791144..afc8330 100644
--- a/src/synthpix/sampler/synthetic.py
+++ b/src/synthpix/sampler/synthetic.py
@@ -478,8 +478,10 @@ class SyntheticImageSampler(Sampler):
             self._current_flows is None
             or self._batches_generated >= self.batches_per_flow_batch
         ):
-            # Reset the batch counter
+            # Reset the batch counter. No flow fields are in hand until the next ones
+            # arrive: if the scheduler has none left, the previous ones are not reused
             self._batches_generated = 0
+            self._current_flows = None
 
             scheduler_batch = self.scheduler.get_batch(self.flow_fields_per_batch)
             self._current_flows = scheduler_batch.flow_fields
-- 
2.43.0


From 82bb7ddc3a9c4dfc2ba7e3341fb02ddfccd395e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 27/27] fix: forward warp keeps the brightness of integer
 images

---
 src/synthpix/apply.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synthpix/apply.py b/src/synthpix/apply.py
index 91f2144..5192684 100644
--- a/src/synthpix/apply.py
+++ b/src/synthpix/apply.py
@@ -37,7 +37,8 @@ def apply_flow_to_image_forward(
     x_d = x_grid + u * dt
     y_d = y_grid + v * dt
 
-    new_image = jnp.zeros_like(image)
+    # The deposited fractions of a pixel do not fit the integers of a stored image
+    new_image = jnp.zeros((H, W), jnp.result_type(image, jnp.float32))
 
     def deposit_pixel(new_image, x_src, y_src, val):
         x0 = jnp.floor(x_src).astype(int)
-- 
2.43.0

