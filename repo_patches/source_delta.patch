From fc455d358c89bdc60cf26806736b54f84122793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 01/79] fix: receive_latest must not discard a message that
 arrives meanwhile

---
 klang/connections.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/klang/connections.py b/klang/connections.py
index 9cfb7d3..245f05a 100644
--- a/klang/connections.py
+++ b/klang/connections.py
@@ -339,11 +339,12 @@ class _MessageQueue:
 
     def receive_latest(self):
         """Return latest received messages (if any). Discard the rest."""
-        if not self.queue:
-            return None
+        # Do not pop() and clear(), a message arriving from another thread in
+        # between would get lost.
+        latestMsg = None
+        for latestMsg in self.receive():
+            pass
 
-        latestMsg = self.queue.pop()
-        self.queue.clear()
         return latestMsg
 
 
-- 
2.43.0


From f988d605dd76f4910db438a184daaa6993b983fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 02/79] fix: restore the patching when computing inside
 temporarily_unpatch fails

---
 klang/composite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index b7fdbee..ee3d97d 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -43,10 +43,11 @@ def temporarily_unpatch(block):
     for src, dst in connections:
         src.disconnect(dst)
 
-    yield block
-
-    for src, dst in connections:
-        src.connect(dst)
+    try:
+        yield block
+    finally:
+        for src, dst in connections:
+            src.connect(dst)
 
 
 class Composite(Block):
-- 
2.43.0


From 30b6b6d85ec008d0357eae35c29cdfdc3edb9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 03/79] fix: a composite is not part of its own inside when
 ordering it

---
 klang/composite.py |  7 +------
 klang/execution.py | 21 +++++++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/klang/composite.py b/klang/composite.py
index ee3d97d..ff15b8b 100644
--- a/klang/composite.py
+++ b/klang/composite.py
@@ -71,12 +71,7 @@ class Composite(Block):
             blocks = introspect(self)
 
         with temporarily_unpatch(self):
-            execOrder = determine_execution_order(blocks)
-
-        while self in execOrder:
-            execOrder.remove(self)
-
-        self.execOrder = execOrder
+            self.execOrder = determine_execution_order(blocks, exclude=(self,))
 
     def update(self):
         """Execute internal composite blocks."""
diff --git a/klang/execution.py b/klang/execution.py
index 6e7d16a..c72250d 100644
--- a/klang/execution.py
+++ b/klang/execution.py
@@ -5,7 +5,7 @@ from klang.block import input_neighbors, output_neighbors
 from klang.graph import graph_matrix, topological_sorting
 
 
-def traverse_network(blocks):
+def traverse_network(blocks, exclude=()):
     """Traverse block network and collect vertices and edges. Vertices are
     returned as a list, not as a set, for preserving sequence order / better
     edge case handling.
@@ -13,6 +13,9 @@ def traverse_network(blocks):
     Args:
         blocks (iterable): Starting blocks for graph traversal.
 
+    Kwargs:
+        exclude (iterable): Blocks which are not part of the network.
+
     Returns:
         tuple: Network vertices and edges.
     """
@@ -21,23 +24,25 @@ def traverse_network(blocks):
     queue = collections.deque(blocks)
     while queue:
         block = queue.popleft()
-        if block not in vertices:
+        if block not in vertices and block not in exclude:
             vertices.append(block)
             for successor in output_neighbors(block):
-                edges.add((block, successor))
-                queue.append(successor)
+                if successor not in exclude:
+                    edges.add((block, successor))
+                    queue.append(successor)
 
             for predecessor in input_neighbors(block):
-                edges.add((predecessor, block))
-                queue.append(predecessor)
+                if predecessor not in exclude:
+                    edges.add((predecessor, block))
+                    queue.append(predecessor)
 
     return vertices, edges
 
 
-def determine_execution_order(blocks):
+def determine_execution_order(blocks, exclude=()):
     """Get appropriate execution order for block network."""
     blocks = list(blocks)
-    vertices, edges = traverse_network(blocks)
+    vertices, edges = traverse_network(blocks, exclude)
     if not edges:
         return vertices
 
-- 
2.43.0


From 42261a646cc4147918e638c9f608e636ac02c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 04/79] fix: progress bar of length one divided by zero (one
 buffer bounce)

---
 klang/progress_bar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/progress_bar.py b/klang/progress_bar.py
index 6c204ff..9850489 100644
--- a/klang/progress_bar.py
+++ b/klang/progress_bar.py
@@ -28,7 +28,7 @@ class ProgressBar:
 
     def render(self, i) -> str:
         """Render progress bar."""
-        progress = max(0, min(1, i / (self.length - 1)))
+        progress = max(0, min(1, i / max(1, self.length - 1)))
 
         # ETA
         now = self.clock()
-- 
2.43.0


From 4e932f874876fb0d36500907a3e2e40f4aa1ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 05/79] fix: offline bounce of exactly N buffers lost the last
 one to float rounding

---
 klang/audio/klanggeber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 05ccd10..d7120fd 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -258,7 +258,8 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
             msg = 'Offline mode and duration set to INF. You will never get anything.'
             logger.warning(msg)
 
-        nCycles = int(duration * SAMPLING_RATE // BUFFER_SIZE)
+        # Rounding: Duration of N buffers has to yield N cycles, not N - 1
+        nCycles = int(round(duration * SAMPLING_RATE, 3) // BUFFER_SIZE)
         for _ in ProgressBar.range(nCycles, prefix='Bouncing'):
             stream_callback(None, BUFFER_SIZE, None, 0)
 
-- 
2.43.0


From 81494d69d07d7c67930f910ceb2a24cbe3199e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 06/79] fix: fade-out has to start inside of the buffer it
 falls into

---
 klang/audio/klanggeber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index d7120fd..58731e3 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -240,7 +240,7 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
             silence = get_silence((frame_count, dac.nChannels), D_TYPE)
             return silence, pyaudio.paAbort
 
-        if playTime >= fadeOutStart:
+        if fadeout > 0 and playTime + INTERVAL > fadeOutStart:
             outData *= fade_out_envelope(playTime)
 
         if filepath:
-- 
2.43.0


From 7076542901873754b2bc7cf2f3b570e2c812ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 07/79] fix: writing an all silent WAV file failed

---
 klang/audio/wavfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index 0b5a614..5361113 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -57,7 +57,10 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
     audio = np.asarray(audio)
 
     # Scale to full Wertebereich of target bit depth.
-    samples = (normalize_values(audio) * np.iinfo(dtype).max).astype(dtype)
+    if np.any(audio):
+        audio = normalize_values(audio)
+
+    samples = (audio * np.iinfo(dtype).max).astype(dtype)
     m, n = samples.shape
     assert m > n
     scipy.io.wavfile.write(filepath, samplingRate, samples)
-- 
2.43.0


From 78446837edb7f39d9f2e51bf2e0343e103f745a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 08/79] fix: Delay mixed in its own overwritten ring buffer
 instead of the delayed signal

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 7023a79..ae7d445 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -169,7 +169,7 @@ class Delay(Block):
             nChannels, _ = new.shape
             new = new.sum(axis=0) / nChannels
 
-        old = self.ring.peek()
+        old = self.ring.peek().copy()
         self.ring.extend(new + self.feedback * old)
         self.output.set_value(blend(new, old, self.drywet))
 
-- 
2.43.0


From 67fc195f5871b37be28d3e0ba7815a79a5c1b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 09/79] fix: validate delay time in seconds also for note
 values

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index ae7d445..1c802c0 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -146,12 +146,12 @@ class Delay(Block):
             feedback (float): Amount of feedback.
             drywet (float): Mixture between dry and effected signal.
         """
+        time = compute_duration(time)
         self.validate_delay_time(time)
         super().__init__(nInputs=1, nOutputs=1)
         self.feedback = feedback
         self.drywet = drywet
 
-        time = compute_duration(time)
         length = int(time * SAMPLING_RATE)
         capacity = int(self.MAX_TIME * SAMPLING_RATE)
 
-- 
2.43.0


From dcd932a78a13245ddbce6a36d1f99a346d368632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 10/79] fix: delay times in whole samples came out one sample
 short

---
 klang/audio/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 1c802c0..c93d9bb 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -152,7 +152,7 @@ class Delay(Block):
         self.feedback = feedback
         self.drywet = drywet
 
-        length = int(time * SAMPLING_RATE)
+        length = round(time * SAMPLING_RATE)
         capacity = int(self.MAX_TIME * SAMPLING_RATE)
 
         self.ring = RingBuffer(length, capacity)
-- 
2.43.0


From 87a0666cac97698db37b965320b38fb3bfef2336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 11/79] fix: delay times shorter than a buffer

---
 klang/audio/effects.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index c93d9bb..f7d4c4c 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -163,14 +163,23 @@ class Delay(Block):
             msg = fmt % (time, self.MAX_TIME)
             raise ValueError(msg)
 
+        if time * SAMPLING_RATE < 1:
+            raise ValueError('Delay time %.3g sec to short!' % time)
+
     def update(self):
         new = self.input.get_value()
         if new.ndim != MONO:
             nChannels, _ = new.shape
             new = new.sum(axis=0) / nChannels
 
-        old = self.ring.peek().copy()
-        self.ring.extend(new + self.feedback * old)
+        # Delay time can be shorter than the buffer
+        old = np.empty(len(new))
+        step = min(self.ring.length, self.ring.bufferSize)
+        for start in range(0, len(new), step):
+            chunk = slice(start, start + step)
+            old[chunk] = self.ring.peek(len(new[chunk]))
+            self.ring.extend(new[chunk] + self.feedback * old[chunk])
+
         self.output.set_value(blend(new, old, self.drywet))
 
 
-- 
2.43.0


From e2879aba0605897c7486c1b72417308ca6d619a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 12/79] fix: comb filters misread strided samples

---
 klang/audio/_filters.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 3430019..3daa800 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -198,8 +198,14 @@ parse_input_array(PyObject *args)
         return NULL;
     }
 
-    inArray = PyArray_FROM_OT(inArray, NPY_DOUBLE);
+    // Strided samples get copied
+    inArray = PyArray_FROM_OTF(inArray, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+    if (!inArray) {
+        return NULL;
+    }
+
     if (PyArray_NDIM(inArray) != 1) {
+        Py_DECREF(inArray);
         PyErr_SetString(PyExc_ValueError, "samples have to be ndim 1!");
         return NULL;
     }
-- 
2.43.0


From b775afb57b40262b65fe531d497c8739d8632dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 13/79] fix: comb filters leaked their (converted) input
 samples

---
 klang/audio/_filters.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 3daa800..19c4629 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -246,6 +246,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -256,6 +257,7 @@ ForwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -272,6 +274,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -282,6 +285,7 @@ BackwardCombFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, y[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
@@ -298,6 +302,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
     npy_intp *dims = PyArray_DIMS(inArray);
     PyArrayObject *outArray = init_output_array(nd, dims);
     if (!outArray) {
+        Py_DECREF(inArray);
         return NULL;
     }
 
@@ -308,6 +313,7 @@ EchoFilter_filter(RingBufferFilterObject *self, PyObject *args)
         RingBuffer_append(self->ringBuffer, self->alpha * y[i] + x[i]);
     }
 
+    Py_DECREF(inArray);
     return PyArray_Return(outArray);
 }
 
-- 
2.43.0


From d2a4f45a09655855d81dae4504c5d742f99ceec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 14/79] fix: comb filter of length zero crashed the interpreter

---
 klang/audio/_filters.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klang/audio/_filters.c b/klang/audio/_filters.c
index 19c4629..6234ab0 100644
--- a/klang/audio/_filters.c
+++ b/klang/audio/_filters.c
@@ -121,6 +121,11 @@ RingBufferFilter_new(PyTypeObject *type, PyObject *args, PyObject *kwargs)
         return NULL;
     }
 
+    if (length < 1) {
+        PyErr_SetString(PyExc_ValueError, "length has to be positive!");
+        return NULL;
+    }
+
     RingBufferFilterObject *self;
     self = (RingBufferFilterObject *) type->tp_alloc(type, 0);
     if (!self) {
-- 
2.43.0


From 791c0e6af23ce3c6fae3943ebe57a8ef4526d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 15/79] fix: Python envelope left the [0, 1] interval

---
 klang/audio/envelope.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index 89d8502..b4e8e6a 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -134,7 +134,8 @@ def calculate_transfer_function(duration, overshoot=DEFAULT_OVERSHOOT):
     Returns:
         tuple: Transfer function coefficients.
     """
-    coeff = calculate_coefficient(duration, overshoot)
+    # Discretized exponential curve (stable for any duration)
+    coeff = 1. - math.exp(-calculate_coefficient(duration, overshoot))
     numerator = (coeff, )
     denominator = (1., coeff - 1.)
     return numerator, denominator
@@ -173,8 +174,8 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
             sample buffer from another sample generator.
 
     Yields:
-        tuple: Samples array and last filter state (or target value if there was
-        no crossover).
+        tuple: Samples array and next level (or target value if there was no
+        crossover).
     """
     rate = SAMPLING_RATE * duration
     nSamples = int(time_needed(start, target, rate, overshoot))  # rate -> samples
@@ -182,7 +183,8 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
     # Arguments for lfilter
     tf = calculate_transfer_function(rate, overshoot)
     targetArr = full(BUFFER_SIZE, target + sign(target - start) * overshoot)
-    zi = [start]
+    offset = tf[0][0] * targetArr[0]
+    zi = [start - offset]  # First sample is start
 
     # Prepend samples to first output
     if prepend is not None:
@@ -194,7 +196,7 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
             yield samples, target
             return
 
-        yield samples, zi[0]
+        yield samples, zi[0] + offset
         nSamples -= available
 
     assert nSamples >= 0
@@ -202,11 +204,11 @@ def curve_samples(start, target, duration, overshoot=DEFAULT_OVERSHOOT, prepend=
     fullCycles, remainder = divmod(nSamples, BUFFER_SIZE)
     for _ in range(fullCycles):
         samples, zi = lfilter(*tf, targetArr, zi=zi)
-        yield samples, zi[0]
+        yield samples, zi[0] + offset
 
     if remainder > 0:
         samples, zi = lfilter(*tf, targetArr[:remainder], zi=zi)
-        yield samples, zi[0]
+        yield samples, target
     else:
         yield SENTINEL_ARRAY, target
 
-- 
2.43.0


From 6ce0cbf5bc900f84b1dafc69384a3afa63eea37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 16/79] fix: Python envelope dropped the last samples of every
 stage

---
 klang/audio/envelope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/klang/audio/envelope.py b/klang/audio/envelope.py
index b4e8e6a..bfc5bf6 100644
--- a/klang/audio/envelope.py
+++ b/klang/audio/envelope.py
@@ -373,10 +373,10 @@ class Envelope:
         else:
             return self.stage
 
-    def go_to_next_stage(self):
+    def go_to_next_stage(self, prepend=None):
         """Advance to next envelope stage."""
         nextStage = self.determine_next_stage()
-        self.switch_stage(nextStage)
+        self.switch_stage(nextStage, prepend)
 
     def sample(self, bufferSize=UNUSED):
         """Get next BUFFER_SIZE envelope samples.
@@ -389,7 +389,7 @@ class Envelope:
         """
         samples, self.value = next(self.sampleGenerator)
         while generator_finished(samples):
-            self.go_to_next_stage()
+            self.go_to_next_stage(prepend=samples)
             samples, self.value = next(self.sampleGenerator)
 
         return samples
-- 
2.43.0


From cfcbecab9ba5137719e4c1ceac94704ced6c8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 17/79] fix: monophonic synthesizer retriggered its voice
 although the sounding note did not change

---
 klang/audio/synthesizer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index b688f77..5b5f8b2 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -166,10 +166,17 @@ class MonophonicSynthesizer(Synthesizer):
         super().__init__()
         self.voice = voice
         self.noteScheduler = NoteScheduler(policy)
+        self.currentNote = None
 
     def process_note(self, note):
-        note = self.noteScheduler.get_next_note(note)
-        self.voice.input.push(note)
+        nextNote = self.noteScheduler.get_next_note(note)
+        newNote = nextNote.on and nextNote is note
+        wasOn = self.currentNote is not None and self.currentNote.on
+        if nextNote is self.currentNote and not newNote or nextNote.off and not wasOn:
+            return  # Nothing changed for the voice
+
+        self.currentNote = nextNote
+        self.voice.input.push(nextNote)
 
     def update(self):
         super().update()
-- 
2.43.0


From fa5a71230e37663a16c04c36dac35acd09a18c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 18/79] fix: note-off in the same buffer as its note-on never
 reached the voice

---
 klang/audio/synthesizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index 5b5f8b2..c826376 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -203,16 +203,19 @@ class PolyphonicSynthesizer(Synthesizer):
         super().__init__()
         self.voices = duplicate_voice(voice, self.MAX_VOICES)
         self.freeVoice = itertools.cycle(self.voices)
+        self.heldPitches = {}  # Voice -> pitch of the note it is holding
 
     def process_note(self, note):
         if note.on:
             #print('Play new note', note)
             voice = next(self.freeVoice)
+            self.heldPitches[voice] = note.pitch
             voice.input.push(note)
         else:
             #print('Kill old note', note)
             for voice in self.voices:
-                if voice.currentPitch == note.pitch:
+                if self.heldPitches.get(voice) == note.pitch:
+                    del self.heldPitches[voice]
                     voice.input.push(note)
 
     def update(self):
-- 
2.43.0


From 66ea44daa703ee4530de4af1d3b4faaaa911b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 19/79] fix: polyphonic synthesizer took voices from held notes
 while others were free

---
 klang/audio/synthesizer.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index c826376..7fcb2b4 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -205,10 +205,21 @@ class PolyphonicSynthesizer(Synthesizer):
         self.freeVoice = itertools.cycle(self.voices)
         self.heldPitches = {}  # Voice -> pitch of the note it is holding
 
+    def get_free_voice(self):
+        """Get next voice which does not hold a note. If there is none steal the
+        next one in line.
+        """
+        for _ in self.voices:
+            voice = next(self.freeVoice)
+            if voice not in self.heldPitches:
+                return voice
+
+        return next(self.freeVoice)
+
     def process_note(self, note):
         if note.on:
             #print('Play new note', note)
-            voice = next(self.freeVoice)
+            voice = self.get_free_voice()
             self.heldPitches[voice] = note.pitch
             voice.input.push(note)
         else:
-- 
2.43.0


From 2d15e86e97cdeaf4d88db658b157f0650b80b868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:22 +0000
Subject: [PATCH 20/79] fix: arpeggiator without held notes repeated its last
 note-off for ever

---
 klang/arpeggiator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/arpeggiator.py b/klang/arpeggiator.py
index 2900ba0..6ce0ac2 100644
--- a/klang/arpeggiator.py
+++ b/klang/arpeggiator.py
@@ -185,6 +185,7 @@ class Arpeggiator(Composite):
             if self.prevNote:
                 noteOff = self.prevNote.silence()
                 self.output.send(noteOff)
+                self.prevNote = None
 
             if self.arpeggio:
                 note = next(self.arpeggio)
-- 
2.43.0


From 7e3a654c16d82ccaa7182d169887b36f39c3e1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 21/79] fix: sequences of a single step never played after
 their first cycle

---
 klang/sequencer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index b3334b8..557ef44 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -111,15 +111,20 @@ class PizzaSlicer(Block):
         self.outputs = [MessageOutput(owner=self)]
         self.nSlices = nSlices
         self.currentIdx = -1
+        self.currentPhase = 0.
 
     def increment(self):
         """Increment current index by one."""
         self.currentIdx = (self.currentIdx + 1) % self.nSlices
 
     def update(self):
-        phase = self.input.value
-        idx = pizza_slice_number(phase, self.nSlices)
-        missing = (idx - self.currentIdx) % self.nSlices
+        phase = self.input.value % TAU
+        idx = min(pizza_slice_number(phase, self.nSlices), self.nSlices - 1)
+        missing = idx - self.currentIdx
+        if phase < self.currentPhase:  # New cycle
+            missing += self.nSlices
+
+        self.currentPhase = phase
         for _ in range(missing):
             self.increment()
             self.output.send(self.currentIdx)
-- 
2.43.0


From 21d21b4e9c316d82831282f89a580b8996e44aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 22/79] fix: a phase moving backwards made the sequence play
 nearly a whole cycle at once

---
 klang/sequencer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index 557ef44..5a66602 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -120,6 +120,11 @@ class PizzaSlicer(Block):
     def update(self):
         phase = self.input.value % TAU
         idx = min(pizza_slice_number(phase, self.nSlices), self.nSlices - 1)
+        if (phase - self.currentPhase) % TAU > .5 * TAU:
+            # Phase went backwards (e.g. when a micro rhythm gets applied or
+            # removed). Those steps have already been played.
+            return
+
         missing = idx - self.currentIdx
         if phase < self.currentPhase:  # New cycle
             missing += self.nSlices
-- 
2.43.0


From b2ab8256114e6e367f458da4a87158d27f536dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 23/79] fix: freshly applied micro rhythm fed a stale phase
 into the sequence

---
 klang/sequencer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index 5a66602..75ef778 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -225,6 +225,7 @@ class Sequence(Composite):
         """Patch microRhythm to sequence."""
         self.disconnect_phase_insert()
         self.phaseOut | microRhythm | self.phaseIn
+        microRhythm.update()  # No stale phase at its output
         self.sequencer.update_internal_exec_order()
 
     def reset_micro_rhythm(self):
-- 
2.43.0


From 9a27bb99f3329099a7683f40f6561b6ca9525148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 24/79] fix: micro rhythm jumped by a beat when rounding right
 at a beat

---
 klang/music/rhythm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/klang/music/rhythm.py b/klang/music/rhythm.py
index 00b6fc4..4db0513 100644
--- a/klang/music/rhythm.py
+++ b/klang/music/rhythm.py
@@ -99,9 +99,8 @@ def format_notes(notes):
 
 def harmonize(func, phase, n):
     """Extend micro rhythm to full circle TAU."""
-    values = func(n * phase % TAU)
-    offset = int(n * phase / TAU) * TAU
-    return (values + offset) / n
+    number, remainder = divmod(n * phase, TAU)
+    return (func(remainder) + number * TAU) / n
 
 
 def phrase(func, phase, phrasing, n):
-- 
2.43.0


From ba74d3a5eabb7703fdae7d7a4850ec51217c7888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 25/79] fix: audio engine failed when it has fewer input than
 output channels

---
 klang/audio/klanggeber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 58731e3..6f56063 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -223,7 +223,7 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
         if in_data:
             # TODO: Make me, test me
             raw = np.frombuffer(in_data, dtype=D_TYPE)
-            samples = raw.reshape((frame_count, adc.nChannels))
+            samples = raw.reshape((frame_count, -1))
             adc.inject_samples(samples)
 
         # Trigger global block execution / propagate audio stream callback
-- 
2.43.0


From f881e989272e49e2d4d63c84098e235adfab2479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:09 +0000
Subject: [PATCH 26/79] fix: failed addition left a dangling channel in the
 mixer

---
 klang/audio/mixer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klang/audio/mixer.py b/klang/audio/mixer.py
index fcbbdb5..16e6496 100644
--- a/klang/audio/mixer.py
+++ b/klang/audio/mixer.py
@@ -2,7 +2,7 @@
 from klang.audio.helpers import MONO_SILENCE, STEREO_SILENCE
 from klang.audio.panning import CENTER, panning_amplitudes
 from klang.block import fetch_output, Block
-from klang.connections import Input
+from klang.connections import Input, validate_connection
 
 
 __all__ = ['Mixer', 'StereoMixer']
@@ -52,8 +52,9 @@ class Mixer(Block):
         """Inplace add a new block.output or output to the mixer. Return mixer
         for concatenation.
         """
-        self.add_new_channel()
         output = fetch_output(other)
+        validate_connection(output, Input())  # Before adding a new channel
+        self.add_new_channel()
         output.connect(self.inputs[-1])
         return self
 
-- 
2.43.0


From c6b95f5895592c13c89a5ee4373c9fefe4bdd505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:09 +0000
Subject: [PATCH 27/79] fix: mixers which were given the same list shared their
 gains / pannings

---
 klang/audio/mixer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/audio/mixer.py b/klang/audio/mixer.py
index 16e6496..7798ad4 100644
--- a/klang/audio/mixer.py
+++ b/klang/audio/mixer.py
@@ -30,7 +30,7 @@ class Mixer(Block):
 
         assert len(gains) == nInputs
         super().__init__(nInputs=nInputs, nOutputs=1)
-        self.gains = gains
+        self.gains = list(gains)
 
     def add_new_channel(self, gain=DEFAULT_GAIN):
         """Add a new input channel to the mixer."""
@@ -86,7 +86,7 @@ class StereoMixer(Mixer):
         super().__init__(nInputs, gains=gains)
         self.mode = mode
         self.panLaw = panLaw
-        self.pannings = pannings
+        self.pannings = list(pannings)
 
     def add_new_channel(self, gain=DEFAULT_GAIN, panning=CENTER):
         # pylint: disable=arguments-differ
-- 
2.43.0


From c21b127375a1c4fa2fc2cfd69449accf74fe4221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 28/79] fix: full scale float32 samples wrapped around when
 converted to 32 bit integers

---
 klang/audio/wavfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index 5361113..3590c7a 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -28,7 +28,7 @@ def convert_samples_to_int(samples, dtype=np.int16):
         raise ValueError('Already int samples!')
 
     maxValue = np.iinfo(dtype).max
-    return (maxValue * samples).astype(dtype)
+    return (maxValue * samples.astype(float)).astype(dtype)
 
 
 def load_wave(filepath):
@@ -60,7 +60,7 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
     if np.any(audio):
         audio = normalize_values(audio)
 
-    samples = (audio * np.iinfo(dtype).max).astype(dtype)
+    samples = (audio.astype(float) * np.iinfo(dtype).max).astype(dtype)
     m, n = samples.shape
     assert m > n
     scipy.io.wavfile.write(filepath, samplingRate, samples)
-- 
2.43.0


From ce55c20100c9461f0bc1efbd8d30092a3c9d5a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 29/79] fix: looping samples jumped, played backwards or got
 stuck when wrapping around

---
 klang/audio/sampling.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index fd0ee98..0d08d9b 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -267,22 +267,16 @@ class Sample:
         """Sample callback. Get some new samples for resampler."""
         start = self.currentIndex
         stop = start + nFrames
-        reachedEnd = (stop >= self.stop)
-        if reachedEnd:
-            if self.loop:
-                stop = (stop % self.stop) + self.start
-            else:
-                # Block for future uses
-                stop = self.stop
-
-        self.currentIndex = stop
-        if start <= stop:
-            return self.data[start:stop]
-
-        return np.concatenate([
-            self.data[self.start:stop],
-            self.data[start:self.stop],
-        ])
+        if self.loop:
+            # Wrap frame indices around inside of [self.start, self.stop)
+            length = self.stop - self.start
+            indices = np.arange(start - self.start, stop - self.start) % length
+            self.currentIndex = self.start + (stop - self.start) % length
+            return self.data[self.start + indices]
+
+        # Block for future uses
+        self.currentIndex = min(stop, self.stop)
+        return self.data[start:self.currentIndex]
 
     def read(self, nFrames=BUFFER_SIZE):
         """Get next samples."""
-- 
2.43.0


From d25979aee14c0627ac26000eb690a89bc3a7b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 30/79] fix: audio file blocks played multi channel files with
 time axis first

---
 klang/audio/sampling.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 0d08d9b..0988b68 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -310,7 +310,7 @@ class AudioFile(Block):
         self.sample = Sample(rate, data, *args, **kwargs)
         self.playing = False
         shape = (self.sample.nChannels, BUFFER_SIZE)
-        self.silence = get_silence(shape)
+        self.silence = get_silence(shape).squeeze()
         self.mute_outputs()
 
     @property
@@ -350,8 +350,7 @@ class AudioFile(Block):
 
         data = self.sample.read(BUFFER_SIZE)
         self.playing = self.sample.playing
-        samples = extend_with_silence(data.T)
-        samples = (samples.T).squeeze()
+        samples = extend_with_silence(data.T).squeeze()
         self.output.set_value(samples)
 
     def __str__(self):
-- 
2.43.0


From 3f421691decdd5fae7476c59b726d6738cf03188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 31/79] fix: resampled audio files lost the end of the file

---
 klang/audio/sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sampling.py b/klang/audio/sampling.py
index 0988b68..bc5bd14 100644
--- a/klang/audio/sampling.py
+++ b/klang/audio/sampling.py
@@ -349,7 +349,8 @@ class AudioFile(Block):
             return self.mute_outputs()
 
         data = self.sample.read(BUFFER_SIZE)
-        self.playing = self.sample.playing
+        # Resampler may still hold back frames after the sample has run out
+        self.playing = self.sample.playing or len(data) == BUFFER_SIZE
         samples = extend_with_silence(data.T).squeeze()
         self.output.set_value(samples)
 
-- 
2.43.0


From 467c09bdaf3d2d24d2f4060d9db5f516e0821842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 32/79] fix: phase of chirps jumped at the first buffer after
 their end

---
 klang/audio/oscillators.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 912ec3c..4191aca 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -20,22 +20,15 @@ def chirp_phase(t, freqStart, tEnd, freqEnd, method='linear', vertex_zero=True):
     scipy.signal.waveforms._chirp_phase with constant frequency extension for
     t >= tEnd.
     """
-    if (tEnd <= t[0]) or (freqStart == freqEnd):
+    if (tEnd <= 0) or (freqStart == freqEnd):
         # Only constant frequency
         return TAU * freqEnd * t
 
-    phase = _chirp_phase(t, f0=freqStart, t1=tEnd, f1=freqEnd, method=method,
-                         vertex_zero=vertex_zero)
-    if t[-1] < tEnd:
-        # Only chirping
-        return phase
-
-    # Mixture between chirp and constant frequency
-    constFreq = (t >= tEnd)
-    mid = constFreq.argmax()
-    phaseOffset = phase[mid] - TAU * freqEnd * t[mid]
-    phase[mid:] = TAU * freqEnd * t[mid:] + phaseOffset
-    return phase
+    # Chirp up to tEnd and constant frequency from there on
+    chirping = np.minimum(t, tEnd)
+    phase = _chirp_phase(chirping, f0=freqStart, t1=tEnd, f1=freqEnd,
+                         method=method, vertex_zero=vertex_zero)
+    return phase + TAU * freqEnd * (t - chirping)
 
 
 def sample_phase(frequency, startPhase=0.):
-- 
2.43.0


From bad684e03c712f8ad1714f53480f100486d271d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 33/79] fix: copies of FM oscillators lost the phase of their
 modulator

---
 klang/audio/oscillators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index 4191aca..e78576a 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -1,4 +1,6 @@
 """Oscillator audio blocks."""
+import copy
+
 import numpy as np
 from scipy.signal.waveforms import _chirp_phase
 
@@ -218,13 +220,15 @@ class FmOscillator(Oscillator):
         self.output.set_value(samples)
 
     def __deepcopy__(self, memo):
-        return type(self)(
+        other = type(self)(
             frequency=self.frequency.value,
             intensity=self.intensity,
             modFrequency=self.modulator.frequency.value,
             wave_func=self.wave_func,
             startPhase=self.currentPhase,
         )
+        other.modulator = copy.deepcopy(self.modulator, memo)
+        return other
 
 
 class PwmOscillator(Phasor):
-- 
2.43.0


From 4ced5bef538cff14e29f39c376c1639567efb740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 34/79] fix: random wave function failed for scalar phases
 (LFOs)

---
 klang/audio/waves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/audio/waves.py b/klang/audio/waves.py
index bcbc65f..fa817e8 100644
--- a/klang/audio/waves.py
+++ b/klang/audio/waves.py
@@ -41,7 +41,7 @@ def triangle(phase):
 
 def random(phase):
     """Uniform random wave function."""
-    return 2. * np.random.random(size=phase.shape) - 1.
+    return 2. * np.random.random(size=np.shape(phase)) - 1.
 
 
 WAVE_FUNCTIONS = {
-- 
2.43.0


From f13e00004b5503e3a46d0d6953196a7b918a3c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:00 +0000
Subject: [PATCH 35/79] fix: audio clock calculated with its input connection
 instead of the frequency

---
 klang/audio/sync.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/sync.py b/klang/audio/sync.py
index ca6c27b..3ea1c7f 100644
--- a/klang/audio/sync.py
+++ b/klang/audio/sync.py
@@ -3,6 +3,7 @@ from klang.audio.helpers import get_silence, get_time
 from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.constants import TAU
+from klang.music.tempo import compute_rate
 
 
 class Clock(Block):
@@ -33,7 +34,8 @@ class Clock(Block):
     def update(self):
         t = get_time(BUFFER_SIZE)
         currentPhase = self.phasor.currentPhase
-        phase = (TAU * self.frequency * t + currentPhase) % TAU
+        freq = compute_rate(self.frequency.value)
+        phase = (TAU * freq * t + currentPhase) % TAU
         if self.edge == 'rising':
             active = (phase < self.duty)
         else:
-- 
2.43.0


From 6351e994752472cde488656cdf145540ba2a0cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 36/79] fix: datagrams of more than 1024 bytes (e.g. a full
 audio buffer) were truncated

---
 klang/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index dc361d1..8d4ab48 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -11,7 +11,7 @@ from klang.connections import MessageOutput, MessageInput
 from klang.messages import Note
 
 
-NETWORK_BUFFER_SIZE = 1024
+NETWORK_BUFFER_SIZE = 65536
 """int: Network buffer size for receiving datagram messages."""
 
 LOGGER = logging.getLogger(__name__)
-- 
2.43.0


From 9886ee9e8b6900ba2d70c161f69a4bb5a95dc635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 37/79] fix: arrays which are not C contiguous could not be
 sent over the network

---
 klang/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index 8d4ab48..108f145 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -70,7 +70,7 @@ def array_to_dict(arr):
     """Convert numpy array to JSON compatible dictionary using base 64
     encoding.
     """
-    raw = base64.b64encode(arr.data)
+    raw = base64.b64encode(arr.tobytes())
     return {
         'type': 'ndarray',
         'dtype': str(arr.dtype),
-- 
2.43.0


From e65de03c8e780e40e8afd54e3a8b887cdbbabd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 38/79] fix: empty datagram blocked the ones behind it until
 the next update

---
 klang/network.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 108f145..48da31c 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -54,14 +54,13 @@ def receive_all_from(sock, bufsize=NETWORK_BUFFER_SIZE):
     try:
         # This would be a use case for the Walrus Operator but we want support
         # for <3.8
-        data = sock.recv(bufsize)
-        while data:
+        while True:
+            data = sock.recv(bufsize)
             if len(data) == bufsize:
                 fmt = 'Full input buffer (%d bytes)! Overflow?'
                 LOGGER.warning(fmt, bufsize)
 
             yield data
-            data = sock.recv(bufsize)
     except BlockingIOError:
         return
 
-- 
2.43.0


From 6c9f7080d8ddf9442c681938a09f0902b9b94931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 39/79] fix: malformed datagrams made network blocks fail or
 drop messages

---
 klang/network.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 48da31c..3e70442 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -145,16 +145,23 @@ class JsonCourier:
         """Yields all JSON decoded objects."""
         for data in receive_all_from(self.sock):
             #print('Received:', data)
-            string = data.decode()
+            try:
+                string = data.decode().strip()
+            except UnicodeDecodeError as err:
+                self.logger.error(err, exc_info=True)
+                continue
+
             while string:
+                # Object hooks can fail in various ways for malformed objects
                 try:
                     obj, stop = self.decoder.raw_decode(string)
-                    yield obj
-                    string = string[stop:]
-                except json.JSONDecodeError as err:
+                except Exception as err:  # pylint: disable=broad-except
                     self.logger.error(err, exc_info=True)
                     break
 
+                yield obj
+                string = string[stop:].lstrip()
+
     def send_object(self, obj):
         """Send object to address as JSON."""
         string = self.encoder.encode(obj)
-- 
2.43.0


From a88500a168c7caeaa934c2ca2d83979b48d4eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 40/79] fix: notes and arrays inside of lists and dictionaries
 could not be sent

---
 klang/network.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/klang/network.py b/klang/network.py
index 3e70442..2035223 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -107,15 +107,24 @@ class KlangJSONEncoder(json.JSONEncoder):
         to override encode() method. See https://bugs.python.org/issue30343.
     """
 
-    def encode(self, o):
+    def convert(self, o):
+        """Convert Klang objects to JSON compatible ones (recursively)."""
         if isinstance(o, Note):
-            return o.to_json()
+            return o.to_dict()
 
         if isinstance(o, np.ndarray):
-            dct = array_to_dict(o)
-            return super().encode(dct)
+            return array_to_dict(o)
+
+        if isinstance(o, dict):
+            return {key: self.convert(value) for key, value in o.items()}
+
+        if isinstance(o, (list, tuple)):
+            return [self.convert(value) for value in o]
 
-        return super().encode(o)
+        return o
+
+    def encode(self, o):
+        return super().encode(self.convert(o))
 
 
 class JsonCourier:
-- 
2.43.0


From 5a08b3001d40c8d95f131a88c3fbdaff76148e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 41/79] fix: constructing a note removed the type from the
 caller's dictionary

---
 klang/messages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klang/messages.py b/klang/messages.py
index 196508d..7d5f3d5 100644
--- a/klang/messages.py
+++ b/klang/messages.py
@@ -37,11 +37,12 @@ class Note(collections.namedtuple('Note', 'pitch velocity frequency')):
     @classmethod
     def from_dict(cls, dct):
         """Construct Note from dct."""
-        if dct.pop('type') != cls.__name__:
+        kwargs = dict(dct)
+        if kwargs.pop('type') != cls.__name__:
             fmt = 'Can not construct Note from dict %s'
             raise ValueError(fmt % dct)
 
-        return cls(**dct)
+        return cls(**kwargs)
 
     @classmethod
     def from_json(cls, string):
-- 
2.43.0


From 731ac3be0455d64bf5617baf78dfc973dd16fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 42/79] fix: notes with NumPy numbers could not be converted to
 JSON

---
 klang/messages.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/messages.py b/klang/messages.py
index 7d5f3d5..7c4dc31 100644
--- a/klang/messages.py
+++ b/klang/messages.py
@@ -73,7 +73,8 @@ class Note(collections.namedtuple('Note', 'pitch velocity frequency')):
 
     def to_json(self):
         """Serialize as JSON string."""
-        return json.dumps(self.to_dict())
+        # NumPy numbers (but np.float64) are not serializable by default
+        return json.dumps(self.to_dict(), default=lambda number: number.item())
 
     def __str__(self):
         return 'Note(pitch=%d, velocity=%.1f, frequency=%.1f Hz)' % self
-- 
2.43.0


From ce266df556de93e1a938e55e253d74fd20adfc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 43/79] fix: NumPy numbers could not be sent over the network

---
 klang/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klang/network.py b/klang/network.py
index 2035223..457671f 100644
--- a/klang/network.py
+++ b/klang/network.py
@@ -110,7 +110,7 @@ class KlangJSONEncoder(json.JSONEncoder):
     def convert(self, o):
         """Convert Klang objects to JSON compatible ones (recursively)."""
         if isinstance(o, Note):
-            return o.to_dict()
+            return self.convert(o.to_dict())
 
         if isinstance(o, np.ndarray):
             return array_to_dict(o)
@@ -121,6 +121,9 @@ class KlangJSONEncoder(json.JSONEncoder):
         if isinstance(o, (list, tuple)):
             return [self.convert(value) for value in o]
 
+        if isinstance(o, np.generic):
+            return o.item()
+
         return o
 
     def encode(self, o):
-- 
2.43.0


From dc34f899cb244f555226c657360fc8499c7fdd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 44/79] fix: notes could be created with an undefined (NaN)
 frequency

---
 klang/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/messages.py b/klang/messages.py
index 7c4dc31..67ec49f 100644
--- a/klang/messages.py
+++ b/klang/messages.py
@@ -29,7 +29,7 @@ class Note(collections.namedtuple('Note', 'pitch velocity frequency')):
             raise ValueError('Invalid velocity %s!' % velocity)
         if frequency is None:
             frequency = temperament.pitch_2_frequency(pitch)
-        if frequency < 0:
+        if not frequency >= 0:
             raise ValueError('Invalid frequency %s!' % frequency)
 
         return super().__new__(cls, pitch, velocity, frequency)
-- 
2.43.0


From 2c636768b76d0a7b6689ce1870fbb2aea13f769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 45/79] fix: very quiet notes turned into MIDI note-offs

---
 klang/midi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klang/midi.py b/klang/midi.py
index df26b93..65eb095 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -38,6 +38,9 @@ def note_to_midi_message(note, channel=0):
         statusByte = MIDI_NOTE_OFF + channel
 
     velocity = int(note.velocity * 127)
+    if note.on:
+        velocity = max(velocity, 1)  # Zero velocity would read as note-off
+
     return [statusByte, note.pitch, velocity]
 
 
-- 
2.43.0


From 9dad1de0a345b20acb2ffe24a257b7a01e2a4f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 46/79] fix: MIDI output ignored its channel

---
 klang/midi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/midi.py b/klang/midi.py
index 65eb095..159da6e 100644
--- a/klang/midi.py
+++ b/klang/midi.py
@@ -56,7 +56,7 @@ class MidiOut(Block):
 
     def update(self):
         for note in self.input.receive():
-            msg = note_to_midi_message(note)
+            msg = note_to_midi_message(note, self.channel)
             self.midiout.send_message(msg)
 
     def __del__(self):
-- 
2.43.0


From fb7e8b2c5e6e39bea5efc27d78fa89198aa80eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:35 +0000
Subject: [PATCH 47/79] fix: notes got stuck when changing the octave of the
 keyboard while holding them

---
 klang/keyboard.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 5334f94..991ed42 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -109,13 +109,22 @@ class MusicalKeyboard(Keyboard):
         self.octave = REF_OCTAVE
         self.velocity = 1.
         self.temperament = defaultTemperament
+        self.heldNotes = {}
 
     def play_note(self, char, noteOn=True):
         """Play music note (note-on and note-off)."""
+        if not noteOn and char in self.heldNotes:
+            # Octave and tuning could be different by now
+            note = self.heldNotes.pop(char).silence()
+            return self.output.send(note)
+
         pitch = self.CHAR_2_BASE_PITCH[char] + self.octave * DODE
         frequency = self.temperament.pitch_2_frequency(pitch)
         velocity = self.velocity if noteOn else self.SILENT
         note = Note(pitch, velocity=velocity, frequency=frequency)
+        if noteOn:
+            self.heldNotes[char] = note
+
         self.output.send(note)
 
     def change_octave(self, char):
-- 
2.43.0


From 87f8c84876fdb543099d0f2fd12b85c34c7a7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:35 +0000
Subject: [PATCH 48/79] fix: KeyError when switching the tuning of the keyboard

---
 klang/keyboard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 991ed42..867e8a5 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -157,8 +157,8 @@ class MusicalKeyboard(Keyboard):
         except ValueError:
             return
 
-        if 0 <= nr < len(TEMPERAMENTS):
-            self.temperament = TEMPERAMENTS[nr]
+        if 0 <= nr < len(self.TEMPERAMENTS):
+            self.temperament = self.TEMPERAMENTS[nr]
             print('Switched to %s' % self.temperament)
 
     def bypass_other_keys(self, key):
-- 
2.43.0


From 86e1193aa95f97b83e4867d2a9b81674027a87b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:35 +0000
Subject: [PATCH 49/79] fix: keyboard octaves could be changed to invalid
 pitches

---
 klang/keyboard.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 867e8a5..a478fd2 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -81,6 +81,9 @@ class MusicalKeyboard(Keyboard):
     }
     """dict: QWERTZ keyboard character (str) -> Pitch number."""
 
+    MAX_OCTAVE = (127 - max(CHAR_2_BASE_PITCH.values())) // DODE
+    """int: Highest octave with only valid pitches."""
+
     SILENT = 0.
     """float: Silent velocity value."""
 
@@ -136,6 +139,7 @@ class MusicalKeyboard(Keyboard):
             fmt = 'One octave up to %d'
             self.octave += 1
 
+        self.octave = clip(self.octave, 0, self.MAX_OCTAVE)
         print(fmt % self.octave)
 
     def change_velocity(self, char):
-- 
2.43.0


From 3a8f8f586ac63af87cd0b155db1893c9dc4ed9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:35 +0000
Subject: [PATCH 50/79] fix: releasing control keys of the keyboard leaked to
 the secondary output

---
 klang/keyboard.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index a478fd2..9d00fbf 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -81,6 +81,9 @@ class MusicalKeyboard(Keyboard):
     }
     """dict: QWERTZ keyboard character (str) -> Pitch number."""
 
+    CONTROL_CHARS = {'y', 'x', 'c', 'v', *string.digits}
+    """set: Characters for changing octave, velocity and temperament."""
+
     MAX_OCTAVE = (127 - max(CHAR_2_BASE_PITCH.values())) // DODE
     """int: Highest octave with only valid pitches."""
 
@@ -179,15 +182,17 @@ class MusicalKeyboard(Keyboard):
         if char in self.CHAR_2_BASE_PITCH:
             return self.play_note(char, noteOn=key.pressed)
 
-        if key.pressed:
+        if char in self.CONTROL_CHARS:
+            if not key.pressed:
+                return
+
             if char in {'y', 'x'}:
                 return self.change_octave(char)
 
             if char in {'c', 'v'}:
                 return self.change_velocity(char)
 
-            if char in set(string.digits):
-                return self.change_temperament(char)
+            return self.change_temperament(char)
 
         if self.others:
             return self.bypass_other_keys(key)
-- 
2.43.0


From 6680454bb7c6a70bed1f1f555b25a4253d2d0360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 51/79] fix: malformed note names were accepted (C4xyz) or led
 to a KeyError (Cb#4)

---
 klang/music/pitch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/music/pitch.py b/klang/music/pitch.py
index 59080c3..b315c61 100644
--- a/klang/music/pitch.py
+++ b/klang/music/pitch.py
@@ -20,7 +20,7 @@ PITCH_NAMES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
 CIRCLE_OF_FIFTHS = (7 * PITCH_CLASSES) % DODE
 """array: Pitches of the circle of fifths."""
 
-SCIENTIFIC_PITCH_NOTATION_RE = re.compile(r'([CDEFGAB])([#b]{0,2})([-0123456789]+)')
+SCIENTIFIC_PITCH_NOTATION_RE = re.compile(r'([CDEFGAB])(#{0,2}|b{0,2})([-0123456789]+)')
 """re.pattern: Regex pattern for scientific note name."""
 
 ACCIDENTAL_SHIFTS = {
@@ -46,7 +46,7 @@ def note_name_2_pitch(noteName: str) -> int:
         >>> note_name_2_pitch('G##4')
         69
     """
-    match = SCIENTIFIC_PITCH_NOTATION_RE.match(noteName.title())
+    match = SCIENTIFIC_PITCH_NOTATION_RE.fullmatch(noteName.title())
     if not match:
         raise ValueError('Can not parse note %r' % noteName)
 
-- 
2.43.0


From ddeffa7c6e4afbbb2447d19cf7f9d4869c3c0624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 52/79] fix: scales of pitches without the root or with
 repeated pitch classes

---
 klang/music/scales.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/music/scales.py b/klang/music/scales.py
index 100f3b1..852c1f4 100644
--- a/klang/music/scales.py
+++ b/klang/music/scales.py
@@ -48,8 +48,8 @@ def scale_2_pitches(scale: Sequence[int]) -> np.ndarray:
 
 def pitches_2_scale(pitches: Sequence[int]) -> np.ndarray:
     """Convert pitches to intervals scale representation."""
-    pitches = np.sort(np.mod(pitches, DODE))
-    return np.diff(pitches, append=DODE)
+    pitches = np.unique(np.mod(pitches, DODE))
+    return np.diff(pitches, append=pitches[:1] + DODE)
 
 
 assert np.all(
-- 
2.43.0


From cfed41a286252f0e947a45ea1aa7732bcfb558f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 53/79] fix: wrong code for scales with repeated pitches
 (vietnamese scale of harmonics)

---
 klang/music/scales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/scales.py b/klang/music/scales.py
index 852c1f4..db51ed6 100644
--- a/klang/music/scales.py
+++ b/klang/music/scales.py
@@ -60,7 +60,7 @@ assert np.all(
 def scale_2_code(scale: Sequence[int]) -> int:
     """Get binary scale code for scale."""
     pitches = scale_2_pitches(scale)
-    return MASK[pitches].sum()
+    return np.bitwise_or.reduce(MASK[pitches])  # Pitches could be repeated
 
 
 def code_2_scale(code: int) -> np.ndarray:
-- 
2.43.0


From 774a5cf5ee86a14d72df55b21091fe9dd52488f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 54/79] fix: random temperament could tune two pitches alike

---
 klang/music/tunings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/tunings.py b/klang/music/tunings.py
index 2f72fd8..4159207 100644
--- a/klang/music/tunings.py
+++ b/klang/music/tunings.py
@@ -92,7 +92,7 @@ def _init_temperaments():
     justIntonation = [
         1, 16/15, 9/8, 6/5, 5/4, 4/3, 45/32, 3/2, 8/5, 5/3, 9/5, 15/8,
     ]
-    rnd = np.sort(np.random.randint(0, CENT_PER_OCTAVE, size=12))
+    rnd = np.sort(np.random.choice(CENT_PER_OCTAVE, size=DODE, replace=False))
     temperaments = {
         'Equal': EQUAL_TEMPERAMENT,
         'Young': Temperament(ratio_2_cent(youngRatios), name='Young'),
-- 
2.43.0


From 221d5bf9e5a07f48b4e7dab919c8bcb3edb6ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:23 +0000
Subject: [PATCH 55/79] fix: micro rhythm divided by zero for beats longer than
 a whole note

---
 klang/music/rhythm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/rhythm.py b/klang/music/rhythm.py
index 4db0513..3e68af1 100644
--- a/klang/music/rhythm.py
+++ b/klang/music/rhythm.py
@@ -151,7 +151,7 @@ class MicroRhyhtm(Block):
             n (int): Harmonics multiplier. How many times to apply micro rhythm
                 on the interval [0, TAU).
             """
-        n = n or 1 // self.beatValue
+        n = n or max(1, 1 // self.beatValue)
         return phrase(self.interpolator, phase, self.phrasing.value, n)
 
     def update(self):
-- 
2.43.0


From d1aa90d5716fc5eff339aede6ecaafe1b8b0d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:23 +0000
Subject: [PATCH 56/79] fix: micro rhythm blended phases of different cycles

---
 klang/music/rhythm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/rhythm.py b/klang/music/rhythm.py
index 3e68af1..2b88234 100644
--- a/klang/music/rhythm.py
+++ b/klang/music/rhythm.py
@@ -106,7 +106,7 @@ def harmonize(func, phase, n):
 def phrase(func, phase, phrasing, n):
     """Evaluate micro rhythm phase for some phrasing."""
     straight = phase % TAU
-    groove = harmonize(func, phase, n)
+    groove = harmonize(func, straight, n)
     return blend(
         straight,
         groove,
-- 
2.43.0


From 9797ea24524b2e8aae2acf61c3a6c9032eedc15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:23 +0000
Subject: [PATCH 57/79] fix: audio combiner overwrote the buffers it had
 already output

---
 klang/audio/effects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index f7d4c4c..db94c0d 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -211,9 +211,12 @@ class AudioCombiner(Block):
         self.output.set_value(silence)
 
     def update(self):
-        for input_, buf in zip(self.inputs, self.output.value):
+        samples = np.empty_like(self.output.value)
+        for input_, buf in zip(self.inputs, samples):
             buf[:] = input_.value
 
+        self.output.set_value(samples)
+
 
 class StereoDelay(Composite):
 
-- 
2.43.0


From b9412c8a0459ccd66272eedddc1f41d42773e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:23 +0000
Subject: [PATCH 58/79] fix: tremolo overshot when its smoothness or duty cycle
 changed

---
 klang/audio/effects.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index db94c0d..5bb0843 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -83,7 +83,7 @@ class Tremolo(Composite):
         smoothness: Value input for envelope shape.
         dutyCycle: dutyCycle relays to lfo.
         lfo: Pulse width modulation lfo.
-        zi: Low pass filter state.
+        zi: Last low pass filter output.
     """
 
     def __init__(self, rate: TimeOrNoteValue = 3., depth: float = .8,
@@ -122,10 +122,11 @@ class Tremolo(Composite):
 
         # Calculate AM-envelope
         decay = max(1e-6, smoothness * min(dutyCycle, 1. - dutyCycle))
-        coeffs = low_pass_coefficients(1. / decay)
+        b, a = low_pass_coefficients(1. / decay)
         self.lfo.update()
         pwm = self.lfo.output.value
-        filteredPwm, self.zi = scipy.signal.lfilter(*coeffs, pwm, zi=self.zi)
+        filteredPwm, _ = scipy.signal.lfilter(b, a, pwm, zi=-a[1] * self.zi)
+        self.zi = filteredPwm[-1:]
         env = (1. - depth) + depth * (.5 + .5 * filteredPwm)
 
         # Apply
-- 
2.43.0


From 7bb77d7a75729913bca75b3fab4426db21a5836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 59/79] fix: dotted quarter notes were written hollow, dotted
 half notes without stem

---
 klang/music/note_formatting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/klang/music/note_formatting.py b/klang/music/note_formatting.py
index c27c0c2..4bddc1e 100644
--- a/klang/music/note_formatting.py
+++ b/klang/music/note_formatting.py
@@ -14,7 +14,7 @@ from klang.music.note_values import (
     DOUBLE_DOTTED_THIRTY_SECOND_NOTE, TRIPLE_DOTTED_THIRTY_SECOND_NOTE,
     SIXTY_FOURTH_NOTE, DOTTED_SIXTY_FOURTH_NOTE,
     DOUBLE_DOTTED_SIXTY_FOURTH_NOTE, TRIPLE_DOTTED_SIXTY_FOURTH_NOTE, HALF_NOTE,
-    Tuplet
+    WHOLE_NOTE, Tuplet
 )
 
 
@@ -126,7 +126,7 @@ def hstack(*texts, sep=''):
 def note_head(note):
     """Get note head."""
     return '%s%s' % (
-        WHITE_CIRCLE if note > QUARTER_NOTE else BLACK_CIRCLE,
+        WHITE_CIRCLE if note >= HALF_NOTE else BLACK_CIRCLE,
         DOT if note.numerator == 3 else ' '
     )
 
@@ -135,7 +135,7 @@ def note_beam(note, beamDirection=BEAM_START):
     """Get top part of note stem with beam."""
     nBeams = BEAM_NUMBER[note]
     if nBeams == 0:
-        if note > HALF_NOTE:
+        if note >= WHOLE_NOTE:
             return '  '
 
         return STEM
@@ -171,7 +171,7 @@ def format_note(note, beamDirection=BEAM_START):
     Returns:
         str: Note string.
     """
-    stem = STEM if note <= HALF_NOTE else '  '
+    stem = STEM if note < WHOLE_NOTE else '  '
     return '\n'.join([
         note_beam(note, beamDirection),
         stem,
-- 
2.43.0


From 7733e0f04898809b91e417f8627988e6ba4d3995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 60/79] fix: kick drum sounded before its first note

---
 klang/audio/synthesizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index 7fcb2b4..8f540cf 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -13,7 +13,7 @@ from klang.audio.waves import sample_wave
 from klang.block import Block
 from klang.config import BUFFER_SIZE
 from klang.connections import MessageInput
-from klang.constants import PI
+from klang.constants import INF, PI
 
 
 __all__ = ['MonophonicSynthesizer', 'PolyphonicSynthesizer', 'HiHat', 'Kick']
@@ -289,7 +289,7 @@ class Kick(Block):
         self.pitchDecay = pitchDecay
 
         self.inputs = [MessageInput(self)]
-        self.currentTime = 0.
+        self.currentTime = INF  # Long decayed
         self.currentPhase = 0.
 
     def update(self):
-- 
2.43.0


From 8451c4779146283575d263973705e874d8e6c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 61/79] fix: sequencer did not count channels added later

---
 klang/sequencer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index 75ef778..052330b 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -293,7 +293,7 @@ class Sequencer(Composite):
     @property
     def nChannels(self) -> int:
         """Number of channels."""
-        return len(self.pattern)
+        return len(self.sequences)
 
     def apply_micro_rhythm(self, microRhythm, channel):
         """Apply micro rhythm to all or one specific sequence(s)."""
-- 
2.43.0


From 6926905db6195cf53a5df260c7866d8bdb139fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 62/79] fix: long chains of blocks exceeded the recursion limit

---
 klang/graph.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/klang/graph.py b/klang/graph.py
index 8a9a658..8aac756 100644
--- a/klang/graph.py
+++ b/klang/graph.py
@@ -106,20 +106,28 @@ def find_back_edges(graph):
         src.remove(node)
         dst.add(node)
 
-    def dfs(parent):
-        """Depth first search graph traversal."""
-        move_node(parent, white, gray)
-        for child in get_successors(graph, parent):
-            if child in black:
-                continue
-
-            if child in gray:
-                backEdges.append((parent, child))
-                continue
-
-            dfs(child)
-
-        move_node(parent, gray, black)
+    def dfs(root):
+        """Depth first search graph traversal. Not recursive, long chains of
+        nodes would exceed the recursion limit.
+        """
+        move_node(root, white, gray)
+        stack = [(root, iter(get_successors(graph, root)))]
+        while stack:
+            parent, children = stack[-1]
+            for child in children:
+                if child in black:
+                    continue
+
+                if child in gray:
+                    backEdges.append((parent, child))
+                    continue
+
+                move_node(child, white, gray)
+                stack.append((child, iter(get_successors(graph, child))))
+                break
+            else:  # If no break
+                move_node(parent, gray, black)
+                stack.pop()
 
     while white:
         node = next(iter(white))  # white.pop() would remove item from set!
-- 
2.43.0


From a3fab678e309a3ff4aca46edfaa5fdb8ec391e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 63/79] fix: chords with notes above the octave were an octave
 too high

---
 klang/music/data/chords.csv | 28 ++++++++++++++--------------
 klang/scraping.py           |  3 ++-
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/klang/music/data/chords.csv b/klang/music/data/chords.csv
index 955788f..2d03b06 100644
--- a/klang/music/data/chords.csv
+++ b/klang/music/data/chords.csv
@@ -1,52 +1,52 @@
 augmented chord,0,4,8
-augmented eleventh chord,0,4,7,10,14,30
+augmented eleventh chord,0,4,7,10,14,18
 augmented major seventh chord,0,4,8,11
 augmented seventh chord,0,4,8,10
-augmented sixth chord,0,6,100,16,30,124,40,55,58
+augmented sixth chord,0,6,10
 diminished chord,0,3,6
 diminished major seventh chord,0,3,6,11
 diminished seventh chord,0,3,6,9
 dominant,0,4,7
-dominant eleventh chord,0,4,7,10,14,29
+dominant eleventh chord,0,4,7,10,14,17
 dominant minor ninth,0,4,7,10,13
 dominant ninth,0,4,7,10,14
 dominant parallel,0,3,7
 dominant seventh chord,0,4,7,10
 dominant seventh flat five chord,0,4,6,10
 dominant seventh sharp nine,0,4,7,10,15
-dominant thirteenth chord,0,4,7,10,14,29,33
+dominant thirteenth chord,0,4,7,10,14,17,21
 dream chord,0,5,6,7
-elektra chord,0,7,9,13,28
-farben chord,0,8,11,16,33
+elektra chord,0,7,9,13,16
+farben chord,0,8,11,16,21
 half-diminished seventh chord,0,3,6,10
 harmonic seventh chord,0,4,7,10
 hendrix chord,0,4,7,10,15
 leading-tone triad,0,3,6
 lydian chord,0,4,7,11,18
-magic chord,0,1,5,6,10,12,27,29
+magic chord,0,1,5,6,10,12,15,17
 major chord,0,4,7
-major eleventh chord,0,4,7,11,14,29
+major eleventh chord,0,4,7,11,14,17
 major ninth chord,0,4,7,11,14
 major seventh chord,0,4,7,11
 major seventh sharp eleventh chord,0,4,8,11,18
 major sixth chord,0,4,7,9
 major sixth ninth chord,0,4,7,9,14
-major thirteenth chord,0,4,7,11,14,30,33
+major thirteenth chord,0,4,7,11,14,18,21
 mediant,0,3,7
 minor chord,0,3,7
-minor eleventh chord,0,3,7,10,14,29
+minor eleventh chord,0,3,7,10,14,17
 minor major seventh chord,0,3,7,11
 minor ninth chord,0,3,7,10,14
 minor seventh chord,0,3,7,10
 minor sixth chord,0,3,7,9
 minor sixth ninth chord,0,3,7,9,14
-minor thirteenth chord,0,3,7,10,14,29,33
+minor thirteenth chord,0,3,7,10,14,17,21
 mu chord,0,2,4,7
-mystic chord,0,6,10,16,33,38
+mystic chord,0,6,10,16,21,26
 neapolitan chord,1,5,8
 ninth augmented fifth chord,0,4,8,10,14
 ninth flat fifth chord,0,4,6,10,14
-northern lights chord,1,2,8,12,27,30,31,34,35,40,55
+northern lights chord,1,2,8,12,15,18,19,22,23,28,31
 ode-to-napoleon hexachord,0,1,4,5,8,9
 p5,0,7
 petrushka chord,0,1,4,6,7,10
@@ -57,7 +57,7 @@ secondary leading-tone chord,0,3,6
 secondary supertonic chord,0,3,7
 seven six chord,0,4,7,9,10
 seventh suspension four chord,0,5,7,10
-so what chord,0,5,10,15,31
+so what chord,0,5,10,15,19
 subdominant,0,4,7
 subdominant parallel,0,3,7
 submediant,0,3,7
diff --git a/klang/scraping.py b/klang/scraping.py
index 90205c3..6c8a2c0 100644
--- a/klang/scraping.py
+++ b/klang/scraping.py
@@ -115,8 +115,9 @@ def pitch_classes_2_chord(pitchClasses):
         pitch = base + int(pc)
         if pitch < prev:
             base += SEMITONES_PER_OCTAVE
+            pitch += SEMITONES_PER_OCTAVE
 
-        chord.append(base + pitch)
+        chord.append(pitch)
         prev = pitch
 
     return np.array(chord)
-- 
2.43.0


From 1683ec9fe205752b0c754a02c7f4941d7edcfbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 64/79] fix: pitch of the kick jumped at every buffer boundary

---
 klang/audio/synthesizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/klang/audio/synthesizer.py b/klang/audio/synthesizer.py
index 8f540cf..b8599be 100644
--- a/klang/audio/synthesizer.py
+++ b/klang/audio/synthesizer.py
@@ -9,7 +9,8 @@ import numpy as np
 
 from klang.audio.envelopes import D
 from klang.audio.helpers import DT, MONO_SILENCE, T
-from klang.audio.waves import sample_wave
+from klang.audio.oscillators import sample_phase
+from klang.audio.waves import sine
 from klang.block import Block
 from klang.config import BUFFER_SIZE
 from klang.connections import MessageInput
@@ -300,5 +301,5 @@ class Kick(Block):
 
         frequency, _ = sample_pitch_decay(self.frequency, self.pitchDecay, self.intensity, self.currentTime)
         env, self.currentTime = sample_exponential_decay(self.decay, self.currentTime)
-        signal, self.currentPhase = sample_wave(frequency, startPhase=self.currentPhase)
-        self.output.set_value(env * signal)
+        phase, self.currentPhase = sample_phase(frequency, startPhase=self.currentPhase)
+        self.output.set_value(env * sine(phase))
-- 
2.43.0


From 6aad85279724af44b1d0a02bb274d0d91f14d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 65/79] fix: keyboards could not be shown as a string

---
 klang/keyboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/keyboard.py b/klang/keyboard.py
index 9d00fbf..71b3ecc 100644
--- a/klang/keyboard.py
+++ b/klang/keyboard.py
@@ -59,7 +59,7 @@ class Keyboard(Block):
     def __str__(self):
         return '%s(%s)' % (
             self.__class__.__name__,
-            'running' if self.keyWorker.isAlive() else 'not running'
+            'running' if self.keyWorker.is_alive() else 'not running'
         )
 
 
-- 
2.43.0


From ae1dd90c03588d70cd5513f6abd7e9c582567dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 66/79] fix: oscillators with varying frequency could not be
 shown as a string

---
 klang/audio/oscillators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/audio/oscillators.py b/klang/audio/oscillators.py
index e78576a..2c2b898 100644
--- a/klang/audio/oscillators.py
+++ b/klang/audio/oscillators.py
@@ -94,7 +94,8 @@ class Phasor(Block):
         self.output.set_value(self.sample())
 
     def __str__(self):
-        return '%s(%.1f Hz)' % (type(self).__name__, self.frequency.value)
+        freq = np.mean(compute_rate(self.frequency.value))
+        return '%s(%.1f Hz)' % (type(self).__name__, freq)
 
     def __deepcopy__(self, memo):
         return type(self)(
-- 
2.43.0


From 6a307d8fba1a66fce2f4bc279bcac8c0ce3ae6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 67/79] fix: filters could not be shown as a string

---
 klang/audio/effects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/klang/audio/effects.py b/klang/audio/effects.py
index 5bb0843..2fbe476 100644
--- a/klang/audio/effects.py
+++ b/klang/audio/effects.py
@@ -287,9 +287,9 @@ class FilterCoefficients:
         return self.coefficients[i.clip(0, length-1)]
 
     def __str__(self):
-        infos = [self.coefficients.design_func.__name__]
-        infos.extend('%s' % arg for arg in self.coefficients.args)
-        infos.extend('%s=%s' % keyvalue for keyvalue in self.coefficients.kwargs.items())
+        infos = [self.design_func.__name__]
+        infos.extend('%s' % arg for arg in self.args)
+        infos.extend('%s=%s' % keyvalue for keyvalue in self.kwargs.items())
         return '%s(%s)' % (type(self).__name__, ', '.join(infos))
 
 
-- 
2.43.0


From 3e9c110db6db99e4fb61a384ae9ee816779680b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 68/79] fix: refused micro rhythm (already in use) silenced the
 sequence

---
 klang/sequencer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/klang/sequencer.py b/klang/sequencer.py
index 052330b..bb8e0e8 100644
--- a/klang/sequencer.py
+++ b/klang/sequencer.py
@@ -10,7 +10,9 @@ import numpy as np
 from klang.audio.oscillators import Phasor
 from klang.block import Block
 from klang.composite import Composite
-from klang.connections import MessageInput, MessageOutput, MessageRelay, Relay
+from klang.connections import (
+    InputAlreadyConnected, MessageInput, MessageOutput, MessageRelay, Relay
+)
 from klang.constants import TAU
 from klang.messages import Note
 from klang.music.note_values import QUARTER_NOTE, SIXTEENTH_NOTE
@@ -223,6 +225,11 @@ class Sequence(Composite):
 
     def apply_micro_rhythm(self, microRhythm: MicroRhyhtm):
         """Patch microRhythm to sequence."""
+        src = microRhythm.input.incomingConnection
+        if src not in (None, self.phaseOut):
+            msg = '%s is already connected to another output!' % microRhythm.input
+            raise InputAlreadyConnected(msg)
+
         self.disconnect_phase_insert()
         self.phaseOut | microRhythm | self.phaseIn
         microRhythm.update()  # No stale phase at its output
-- 
2.43.0


From 4d31c4f57bea6bfc8cab0b86bb5094eb3ffa2ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 69/79] fix: modifying panning amplitudes changed them for
 everybody (cached array)

---
 klang/audio/panning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klang/audio/panning.py b/klang/audio/panning.py
index a4b1981..c70f890 100644
--- a/klang/audio/panning.py
+++ b/klang/audio/panning.py
@@ -75,10 +75,12 @@ def panning_amplitudes(panLevel, mode='constant_power', panLaw=None):
             centerValue = np.sqrt(.5 * np.cos(TAU / 8))
             alpha = pan_law_exponent(panLaw, centerValue)
 
-    return np.array([
+    amplitudes = np.array([
         [left ** alpha],
         [right ** alpha],
     ])
+    amplitudes.setflags(write=False)  # Cached
+    return amplitudes
 
 
 def pan_signal(signal, panLevel, mode='constant_power', panLaw=None):
-- 
2.43.0


From 5c3560901a43be3985e17aeee17f0d0c32584d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 70/79] fix: one dimensional (mono) audio could not be written
 to a WAV file

---
 klang/audio/wavfile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index 3590c7a..3d43ddf 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -5,6 +5,7 @@ import numpy as np
 import scipy.io.wavfile
 
 from klang.config import SAMPLING_RATE
+from klang.constants import MONO
 from klang.math import normalize_values
 
 
@@ -61,6 +62,9 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
         audio = normalize_values(audio)
 
     samples = (audio.astype(float) * np.iinfo(dtype).max).astype(dtype)
+    if samples.ndim == MONO:
+        samples = samples.reshape((-1, 1))
+
     m, n = samples.shape
     assert m > n
     scipy.io.wavfile.write(filepath, samplingRate, samples)
-- 
2.43.0


From 2bfbf5fbcabf9438e9cc17914ed861b36101b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 71/79] fix: normalizing integer audio containing the smallest
 integer overflowed

---
 klang/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/math.py b/klang/math.py
index db5d354..b303af8 100644
--- a/klang/math.py
+++ b/klang/math.py
@@ -13,7 +13,8 @@ def wrap(phase):
 
 def normalize_values(array):
     """Normalize array values to [-1., 1.]."""
-    maxAmplitude = np.abs(array).max()
+    # Float since there is no absolute value for the smallest integer
+    maxAmplitude = np.abs(array, dtype=float).max()
     if maxAmplitude == 0:
         # TODO(atheler): Or just return array?
         raise ValueError('Zero amplitude! Can not normalize!')
-- 
2.43.0


From 96bfb741f953e39be8e2a9adb1a3a0c000a00f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 72/79] fix: third and later alternatives of scraped chords and
 scales accumulated the numbers of the previous ones

---
 klang/scraping.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/klang/scraping.py b/klang/scraping.py
index 6c8a2c0..3b4fc2a 100644
--- a/klang/scraping.py
+++ b/klang/scraping.py
@@ -90,10 +90,8 @@ def spawn_jobs(name, data, nameSeps=[' / ', ' or '], dataSeps=[' / ', ' or ', 'o
     """Detect synonym jobs. E.g. if there is a "a or b" in the name / data entry."""
     for nam in multi_seperator_pack(name, nameSeps):
         for i, dat in enumerate(multi_seperator_pack(data, dataSeps)):
-            if i > 0:
-                nam += ' %d' % i
-
-            yield nam.strip(), dat
+            suffix = ' %d' % i if i > 0 else ''
+            yield (nam + suffix).strip(), dat
 
 
 def pitch_classes_2_chord(pitchClasses):
-- 
2.43.0


From 5c3225e5ee4ab87e4849268822e06919af1c6214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 73/79] fix: note-offs were late when the duration of a
 NoteLengthener got shortened

---
 klang/note_effects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/klang/note_effects.py b/klang/note_effects.py
index e7b9c80..d2910a1 100644
--- a/klang/note_effects.py
+++ b/klang/note_effects.py
@@ -42,8 +42,10 @@ class NoteLengthener(Block, ClockMixin):
 
         for note in self.input.receive():
             if note.on:
-                entry = (now + self.duration, note)
-                self.activeNotes.append(entry)
+                # Duration could have changed in the meantime
+                end = now + self.duration
+                position = sum(other <= end for other, _ in self.activeNotes)
+                self.activeNotes.insert(position, (end, note))
                 self.output.send(note)
 
 
-- 
2.43.0


From 5cc4f8ee8b68d4eac3e6deede125267b842f5f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 74/79] fix: MaxNotes forgot sounding notes when its limit got
 raised

---
 klang/note_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/note_effects.py b/klang/note_effects.py
index d2910a1..2a7ce5f 100644
--- a/klang/note_effects.py
+++ b/klang/note_effects.py
@@ -60,7 +60,7 @@ class MaxNotes(Block):
         self.inputs = [MessageInput(owner=self)]
         self.outputs = [MessageOutput(owner=self)]
         self.nNotes = nNotes
-        self.activeNotes = collections.deque([], maxlen=nNotes + 1)
+        self.activeNotes = collections.deque()
 
     def update(self):
         for newNote in self.input.receive():
-- 
2.43.0


From 75e0d0a4722d6f1eb944dbfeb39c34ad7e5c0687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 75/79] fix: engine could not be started from a composite
 without internal blocks (no audio)

---
 klang/klang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/klang.py b/klang/klang.py
index cf2c6f4..ab69b97 100644
--- a/klang/klang.py
+++ b/klang/klang.py
@@ -33,7 +33,7 @@ def validate_global_execution_order(execOrder, logger):
     """
     flattenedExecOrder = unravel(execOrder)
     counter = collections.Counter(flattenedExecOrder)
-    hasDuplicates = max(counter.values()) > 1
+    hasDuplicates = max(counter.values(), default=0) > 1
     if hasDuplicates:
         fmt = (
             'Found duplicates in flattened execOrder! Following blocks will '
-- 
2.43.0


From 5f8d54b2e06af24503c54436f5f4b9aac2e858e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:13 +0000
Subject: [PATCH 76/79] fix: no playback on systems without an audio input
 device

---
 klang/audio/klanggeber.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index 6f56063..c963a4c 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -69,13 +69,16 @@ def validate_sound_card_channels(pa, adc, dac):
         adc (Adc): Audio input block.
         dac (dac): Audio output block.
     """
-    inputDeviceInfo = pa.get_default_input_device_info()
-    if adc.nChannels > inputDeviceInfo['maxInputChannels']:
-        raise ValueError('Not enough sound card inputs!')
-
-    outputDeviceInfo = pa.get_default_output_device_info()
-    if dac.nChannels > outputDeviceInfo['maxOutputChannels']:
-        raise ValueError('Not enough sound card outputs!')
+    # Systems without a device raise an OSError. Only ask for the needed ones
+    if adc.nChannels > 0:
+        inputDeviceInfo = pa.get_default_input_device_info()
+        if adc.nChannels > inputDeviceInfo['maxInputChannels']:
+            raise ValueError('Not enough sound card inputs!')
+
+    if dac.nChannels > 0:
+        outputDeviceInfo = pa.get_default_output_device_info()
+        if dac.nChannels > outputDeviceInfo['maxOutputChannels']:
+            raise ValueError('Not enough sound card outputs!')
 
 
 def pack_signals(signals):
-- 
2.43.0


From fc2b24d1c413b9fbd3a5a66eb3c009d0900d7aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:13 +0000
Subject: [PATCH 77/79] fix: live runs of several whole buffers were one buffer
 too long

---
 klang/audio/klanggeber.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index c963a4c..e7a9179 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -250,7 +250,8 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
             capturedFrames.append(outData)
 
         playTime += INTERVAL
-        if playTime >= duration:
+        # Rounding: Duration of N buffers has to yield N cycles, not N + 1
+        if round((duration - playTime) * SAMPLING_RATE, 3) <= 0:
             return outData, pyaudio.paComplete
 
         return outData, pyaudio.paContinue
-- 
2.43.0


From e553ebcbbb684c8c5a78e9de40ee609a1e6c8550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:13 +0000
Subject: [PATCH 78/79] fix: recordings without a single buffer crashed

---
 klang/audio/klanggeber.py | 3 ++-
 klang/audio/wavfile.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/klang/audio/klanggeber.py b/klang/audio/klanggeber.py
index e7a9179..62d2dae 100644
--- a/klang/audio/klanggeber.py
+++ b/klang/audio/klanggeber.py
@@ -301,5 +301,6 @@ def run_audio_engine(adc: Adc, dac: Dac, execute_all_blocks: Callable, duration:
 
     if filepath:
         logger.info('Writing audio dump to WAV file %r', filepath)
-        samples = np.concatenate(capturedFrames)
+        nothing = np.empty((0, dac.nChannels), dtype=D_TYPE)
+        samples = np.concatenate([nothing, *capturedFrames])
         write_wave(samples, filepath)
diff --git a/klang/audio/wavfile.py b/klang/audio/wavfile.py
index 3d43ddf..3b07ffe 100644
--- a/klang/audio/wavfile.py
+++ b/klang/audio/wavfile.py
@@ -66,5 +66,5 @@ def write_wave(audio, filepath, samplingRate=SAMPLING_RATE, dtype=np.int16):
         samples = samples.reshape((-1, 1))
 
     m, n = samples.shape
-    assert m > n
+    assert m > n or m == 0
     scipy.io.wavfile.write(filepath, samplingRate, samples)
-- 
2.43.0


From 17d90fa0beede5241413569941b57b80c0f02b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 79/79] fix: micro rhythms with varying phrasing could not be
 shown as a string

---
 klang/music/rhythm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klang/music/rhythm.py b/klang/music/rhythm.py
index 2b88234..e6edbfc 100644
--- a/klang/music/rhythm.py
+++ b/klang/music/rhythm.py
@@ -165,7 +165,7 @@ class MicroRhyhtm(Block):
 
         infos.extend([
             format_notes(self.notes),
-            'phrasing: %.1f' % self.phrasing.value,
+            'phrasing: %.1f' % np.mean(self.phrasing.value),
             'beatValue: %s' % self.beatValue,
         ])
         return '%s(notes: %s)' % (type(self).__name__, ', '.join(infos))
-- 
2.43.0

