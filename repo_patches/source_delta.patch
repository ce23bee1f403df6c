From 7c78c52128cfdfdb76f3511ac1262533589f4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:20 +0000
Subject: [PATCH 01/44] fix: sum identical-channel signals with the right
 speaker layout

The shortcut for summing up-mixed mono signals collapsed both operands to
mono. That is only valid for mono and stereo layouts: two identical stereo
channels feeding a 5.1 input ended up in the center channel instead of left
and right.
---
 src/render/quantum.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/render/quantum.rs b/src/render/quantum.rs
index 2b25c5a..4edc268 100644
--- a/src/render/quantum.rs
+++ b/src/render/quantum.rs
@@ -546,8 +546,11 @@ impl AudioRenderQuantum {
             ChannelCountMode::ClampedMax => max_channels.min(count),
         };
 
-        // fast path if both buffers are upmixed mono signals
+        // fast path if both buffers are upmixed mono signals, this is only valid for mono and stereo
+        // because mixing a mono signal to any other layout does not address all speakers
         if interpretation == ChannelInterpretation::Speakers
+            && max_channels <= 2
+            && new_channels <= 2
             && self.all_channels_identical()
             && other.all_channels_identical()
         {
-- 
2.43.0


From 86b1a93d88abc1a1e5a80d53ba0b7cc0acfda725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:43 +0000
Subject: [PATCH 02/44] fix: do not replay old blocks of a delay line after its
 writer was dropped

When a DelayNode's handle and sources were gone, the writer half was
removed and the reader kept reading the ring buffer for one more turn.
For delays shorter than maxDelayTime this replayed stale audio.
The reader now clears the slots the writer would have overwritten.
---
 src/node/delay.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/node/delay.rs b/src/node/delay.rs
index 1697f7b..cce4338 100644
--- a/src/node/delay.rs
+++ b/src/node/delay.rs
@@ -525,6 +525,8 @@ impl AudioProcessor for DelayReader {
         // We must perform the checks (buffer size and up/down mix) on both Writer
         // and Reader as the order of processing between them is not guaranteed.
         self.check_ring_buffer_size(output);
+        // Once the Writer is gone nobody overwrites the old blocks anymore
+        self.clear_block_of_dropped_writer();
 
         let ring_buffer = self.ring_buffer.borrow();
 
@@ -684,6 +686,21 @@ impl AudioProcessor for DelayReader {
 }
 
 impl DelayReader {
+    // When the writer has been decommissioned, its input is silence from then on. Make sure
+    // that what it has written one turn of the ring buffer ago is not played back again.
+    #[inline(always)]
+    fn clear_block_of_dropped_writer(&self) {
+        let writer_dropped = self.last_written_index_checked.is_some()
+            || matches!(self.last_written_index.get(), Some(index) if index != self.index);
+
+        if writer_dropped {
+            let block = &mut self.ring_buffer_mut()[self.index];
+            let number_of_channels = block.number_of_channels();
+            block.make_silent();
+            block.set_number_of_channels(number_of_channels);
+        }
+    }
+
     #[inline(always)]
     fn get_playback_infos(
         delay: f64,
-- 
2.43.0


From 342023e0f525f448cd70e9c79b3165d82c934e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:25 +0000
Subject: [PATCH 03/44] fix: keep the sub-sample start position across a render
 quantum boundary

A source scheduled between the last frame of a quantum and the first
frame of the next one was treated as scheduled in the past and snapped
to the frame. Oscillators then began with the wrong phase and buffer
sources at the wrong position.
---
 src/node/audio_buffer_source.rs | 5 ++++-
 src/node/oscillator.rs          | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index a5565ac..e7e40b6 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -513,7 +513,10 @@ impl AudioProcessor for AudioBufferSourceRenderer {
         // If 0 is passed in for this value or if the value is less than
         // currentTime, then the sound will start playing immediately
         // cf. https://webaudio.github.io/web-audio-api/#dom-audioscheduledsourcenode-start-when-when
-        if !self.render_state.started && self.start_time < block_time {
+        //
+        // A start time between the last frame of the previous block and the first frame of this
+        // block is not in the past, the position of the first sample is adjusted accordingly
+        if !self.render_state.started && self.start_time <= block_time - dt {
             self.start_time = block_time;
         }
 
diff --git a/src/node/oscillator.rs b/src/node/oscillator.rs
index 8fe3649..7e0a37e 100644
--- a/src/node/oscillator.rs
+++ b/src/node/oscillator.rs
@@ -416,7 +416,10 @@ impl AudioProcessor for OscillatorRenderer {
         // [spec] If 0 is passed in for this value or if the value is less than
         // currentTime, then the sound will start playing immediately
         // cf. https://webaudio.github.io/web-audio-api/#dom-audioscheduledsourcenode-start-when-when
-        if !self.started && self.start_time < current_time {
+        //
+        // A start time between the last frame of the previous block and the first frame of this
+        // block is not in the past, the phase of the first sample is adjusted accordingly
+        if !self.started && self.start_time <= current_time - dt {
             self.start_time = current_time;
         }
 
-- 
2.43.0


From 6d1787e03c18db0fef7bd98040c6147832864cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:22 +0000
Subject: [PATCH 04/44] fix: wrap to the loop start when interpolating past the
 end of a looped buffer

Playing a looped buffer backwards indexed one past the end of the buffer
and panicked on the render thread. For buffers with a sample rate other
than the context's, the wrapped sample was taken from the wrong index.
---
 src/node/audio_buffer_source.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index e7e40b6..b5a20d3 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -778,24 +778,14 @@ impl AudioProcessor for AudioBufferSourceRenderer {
                                         // End of buffer
                                         None => {
                                             if is_looping {
-                                                if playback_rate >= 0. {
-                                                    let start_playhead =
-                                                        actual_loop_start * sample_rate;
-                                                    let start_index = if start_playhead.floor()
-                                                        == start_playhead
-                                                    {
-                                                        start_playhead as usize
-                                                    } else {
-                                                        start_playhead as usize + 1
-                                                    };
-
-                                                    buffer_channel[start_index] as f64
-                                                } else {
-                                                    let end_playhead =
-                                                        actual_loop_end * sample_rate;
-                                                    let end_index = end_playhead as usize;
-                                                    buffer_channel[end_index] as f64
-                                                }
+                                                // The end of the loop is followed by its start,
+                                                // regardless of the playback direction
+                                                let start_playhead =
+                                                    actual_loop_start * buffer.sample_rate() as f64;
+                                                let start_index = start_playhead.ceil() as usize;
+                                                buffer_channel
+                                                    .get(start_index)
+                                                    .map_or(prev_sample, |val| *val as f64)
                                             } else {
                                                 // Handle 2 edge cases:
                                                 // 1. We are in a case where buffer time is below buffer
-- 
2.43.0


From 4431f976195e845ec0672680444b79fa72a80c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:49 +0000
Subject: [PATCH 05/44] fix: hold the param value until a target approach or
 value curve starts

When another event was processed in the same block, a SetTarget or
SetValueCurve event starting in a later block was evaluated before its
start time, which extrapolates the curve backwards. A ramp following a
SetTarget event that had not started yet began too early as well.
---
 src/param.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/param.rs b/src/param.rs
index 296dcb9..c0b0596 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -1285,6 +1285,12 @@ impl AudioParamProcessor {
     // cf. `SNAP_TO_TARGET`
     fn compute_set_target_automation(&mut self, infos: &BlockInfos) -> bool {
         let event = self.event_timeline.peek().unwrap();
+
+        if event.time > infos.next_block_time {
+            self.hold_until_next_block(infos);
+            return true;
+        }
+
         let mut end_time = infos.next_block_time;
         let mut ended = false;
 
@@ -1307,7 +1313,7 @@ impl AudioParamProcessor {
                     // 𝑇0 is the current context time, and 𝑉0 is
                     // the current SetTarget automation value at time 𝑇0.
                     // In both cases, the automation curve is continuous.
-                    end_time = infos.block_time;
+                    end_time = infos.block_time.max(event.time);
                     ended = true;
                 }
                 _ => {
@@ -1425,8 +1431,23 @@ impl AudioParamProcessor {
         false
     }
 
+    // The next event starts after this block: keep the current value until then
+    fn hold_until_next_block(&mut self, infos: &BlockInfos) {
+        if infos.is_a_rate {
+            for _ in self.buffer.len()..infos.count {
+                self.buffer.push(self.intrinsic_value);
+            }
+        }
+    }
+
     fn compute_set_value_curve_automation(&mut self, infos: &BlockInfos) -> bool {
         let event = self.event_timeline.peek().unwrap();
+
+        if event.time > infos.next_block_time {
+            self.hold_until_next_block(infos);
+            return true;
+        }
+
         let start_time = event.time;
         let duration = event.duration.unwrap();
         let values = event.values.as_ref().unwrap();
-- 
2.43.0


From a9b9051fce2948c1f256dc90aeb96bea76b2b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:52 +0000
Subject: [PATCH 06/44] fix: hold the value of a target approach or curve that
 is followed by another event

cancel_and_hold_at_time only looked at the running SetTarget or
SetValueCurve event when nothing was scheduled after it, otherwise the
automation went on after the hold time.
---
 src/param.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index c0b0596..0818fd9 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -892,19 +892,25 @@ impl AudioParamProcessor {
                 }
             }
 
-            // If 𝐸2 exists:
-            if let Some(matched) = e2 {
-                // If 𝐸2 is a linear or exponential ramp,
+            // If 𝐸2 is a linear or exponential ramp (that does not wait for a
+            // setValueCurve to finish)
+            let within_curve = e1.as_ref().is_some_and(|e1| {
+                e1.event_type == AudioParamEventType::SetValueCurveAtTime
+                    && event.time <= e1.time + e1.duration.unwrap()
+            });
+            let e2_ramp = e2.filter(|e2| {
+                !within_curve
+                    && (e2.event_type == AudioParamEventType::LinearRampToValueAtTime
+                        || e2.event_type == AudioParamEventType::ExponentialRampToValueAtTime)
+            });
+
+            if let Some(matched) = e2_ramp {
                 // Effectively rewrite 𝐸2 to be the same kind of ramp ending
                 // at time 𝑡𝑐 with an end value that would be the value of the
                 // original ramp at time 𝑡𝑐.
                 // @note - this is done during the actual computation of the
                 //  ramp using the cancel_time
-                if matched.event_type == AudioParamEventType::LinearRampToValueAtTime
-                    || matched.event_type == AudioParamEventType::ExponentialRampToValueAtTime
-                {
-                    matched.cancel_time = Some(event.time);
-                }
+                matched.cancel_time = Some(event.time);
             } else if let Some(matched) = e1 {
                 if matched.event_type == AudioParamEventType::SetTargetAtTime {
                     // Implicitly insert a setValueAtTime event at time 𝑡𝑐 with
-- 
2.43.0


From cdb82dc52a2fbf264cf18e21e3803f9510e6b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:23 +0000
Subject: [PATCH 07/44] fix: insert the implicit start of a param ramp that
 precedes all queued events

Scheduling a ramp or a target approach before already queued events of a
param without past events panicked on the render thread.
---
 src/param.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 0818fd9..98c6946 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -1002,13 +1002,18 @@ impl AudioParamProcessor {
             self.intrinsic_value = event.value;
         }
 
-        // If no event in the timeline and event_type is `LinearRampToValueAtTime`
+        let no_preceding_event = self.last_event.is_none()
+            && self
+                .event_timeline
+                .iter()
+                .all(|queued| queued.time > event.time);
+
+        // If no preceding event in the timeline and event_type is `LinearRampToValueAtTime`
         // or `ExponentialRampToValue` at time, we must insert a `SetValueAtTime`
         // with intrinsic value and calling time.
         // cf. https://www.w3.org/TR/webaudio/#dom-audioparam-linearramptovalueattime
         // cf. https://www.w3.org/TR/webaudio/#dom-audioparam-exponentialramptovalueattime
-        if self.event_timeline.is_empty()
-            && self.last_event.is_none()
+        if no_preceding_event
             && (event.event_type == AudioParamEventType::LinearRampToValueAtTime
                 || event.event_type == AudioParamEventType::ExponentialRampToValueAtTime)
         {
@@ -1030,7 +1035,7 @@ impl AudioParamProcessor {
         // for SetTarget, this behavior is not per se specified, but it allows
         // to make sure we have a stable start_value available without having
         // to store it elsewhere.
-        if self.event_timeline.is_empty()
+        if (self.event_timeline.is_empty() || no_preceding_event)
             && event.event_type == AudioParamEventType::SetTargetAtTime
         {
             let set_value_event = AudioParamEvent {
-- 
2.43.0


From f27a4db33c3e6d60c9924d403e03c15d700d0d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:02 +0000
Subject: [PATCH 08/44] fix: sample k-rate params at the first frame of the
 block

An event at exactly the start time of a block only affected a k-rate
param one block later. A ramp without duration, evaluated at its only
point in time, now yields its end value instead of NaN.
---
 src/param.rs | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 98c6946..5d1281e 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -70,7 +70,12 @@ fn compute_linear_ramp_sample(
     diff: f32, // end_value - start_value
     time: f64,
 ) -> f32 {
-    let phase = (time - start_time) / duration;
+    // a ramp without duration jumps to its end value
+    let phase = if duration == 0. {
+        1.
+    } else {
+        (time - start_time) / duration
+    };
     diff.mul_add(phase as f32, start_value)
 }
 
@@ -83,7 +88,12 @@ fn compute_exponential_ramp_sample(
     ratio: f32, // end_value / start_value
     time: f64,
 ) -> f32 {
-    let phase = (time - start_time) / duration;
+    // a ramp without duration jumps to its end value
+    let phase = if duration == 0. {
+        1.
+    } else {
+        (time - start_time) / duration
+    };
     start_value * ratio.powf(phase as f32)
 }
 
@@ -1572,6 +1582,18 @@ impl AudioParamProcessor {
             }
         };
 
+        // The value of a k-rate param is the one at the very first frame of the block: apply
+        // the events due at (or before) that time
+        if !is_a_rate && !is_constant_block {
+            self.process_timeline(&BlockInfos {
+                block_time,
+                dt,
+                count: 0,
+                is_a_rate,
+                next_block_time: block_time,
+            });
+        }
+
         if !is_a_rate || is_constant_block {
             self.buffer.push(self.intrinsic_value);
             // nothing to compute in timeline, for both k-rate and a-rate
@@ -1589,35 +1611,39 @@ impl AudioParamProcessor {
             next_block_time,
         };
 
+        self.process_timeline(&block_infos);
+    }
+
+    fn process_timeline(&mut self, block_infos: &BlockInfos) {
         loop {
             let next_event_type = self.event_timeline.peek().map(|e| e.event_type);
 
             let exit_loop = match next_event_type {
                 None => {
-                    if is_a_rate {
+                    if block_infos.is_a_rate {
                         // we use `count` rather then `buffer.remaining_capacity`
                         // to correctly handle unit tests where `count` is lower than
                         // RENDER_QUANTUM_SIZE
-                        for _ in self.buffer.len()..count {
+                        for _ in self.buffer.len()..block_infos.count {
                             self.buffer.push(self.intrinsic_value);
                         }
                     }
                     true
                 }
                 Some(AudioParamEventType::SetValue) | Some(AudioParamEventType::SetValueAtTime) => {
-                    self.compute_set_value_automation(&block_infos)
+                    self.compute_set_value_automation(block_infos)
                 }
                 Some(AudioParamEventType::LinearRampToValueAtTime) => {
-                    self.compute_linear_ramp_automation(&block_infos)
+                    self.compute_linear_ramp_automation(block_infos)
                 }
                 Some(AudioParamEventType::ExponentialRampToValueAtTime) => {
-                    self.compute_exponential_ramp_automation(&block_infos)
+                    self.compute_exponential_ramp_automation(block_infos)
                 }
                 Some(AudioParamEventType::SetTargetAtTime) => {
-                    self.compute_set_target_automation(&block_infos)
+                    self.compute_set_target_automation(block_infos)
                 }
                 Some(AudioParamEventType::SetValueCurveAtTime) => {
-                    self.compute_set_value_curve_automation(&block_infos)
+                    self.compute_set_value_curve_automation(block_infos)
                 }
                 _ => panic!(
                     "AudioParamEvent {:?} should not appear in AudioParamEventTimeline",
-- 
2.43.0


From efd59e181bc050a237a71ec064933b91c70cec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:14 +0000
Subject: [PATCH 09/44] fix: render all nodes when a node is added after the
 graph was changed

Adding a node to a graph with a void ordering left an ordering with only
that node, all other nodes were not rendered until the next connection
change.
---
 src/render/graph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index 6364f34..c7c348e 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -263,7 +263,11 @@ impl Graph {
 
         // add to ordered list (some nodes should be processed even if not connected)
         // if the node is connected later the ordered list will be recomputed
-        self.ordered.push(index);
+        //
+        // a void ordering must stay void, it will be recomputed with all nodes before rendering
+        if !self.ordered.is_empty() {
+            self.ordered.push(index);
+        }
     }
 
     pub fn add_edge(&mut self, source: (AudioNodeId, usize), dest: (AudioNodeId, usize)) {
-- 
2.43.0


From b031e72c49ab9c6974eb989ddd523d9dc27df481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:10 +0000
Subject: [PATCH 10/44] fix: ignore repeated connections between the same
 output and input

Connecting twice added a second edge to the audio graph, so the signal was
summed twice. The specification ignores multiple connections with the same
termini.
---
 src/context/concrete_base.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index cba7aa9..72d4144 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -441,11 +441,18 @@ impl ConcreteBaseAudioContext {
 
     /// Connects the output of the `from` audio node to the input of the `to` audio node
     pub(crate) fn connect(&self, from: AudioNodeId, to: AudioNodeId, output: usize, input: usize) {
-        self.inner
+        let is_new = self
+            .inner
             .connections
             .lock()
             .unwrap()
             .insert((from, output, to, input));
+
+        // There can only be one connection between a given output and a given input
+        if !is_new {
+            return;
+        }
+
         let message = ControlMessage::ConnectNode {
             from,
             to,
-- 
2.43.0


From 595eef4b466a058ef10e9ede39bdc4135e62e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:49 +0000
Subject: [PATCH 11/44] fix: disconnect nodes from a destination whose handle
 was dropped

Dropping the control handle of a node erased its incoming connections from
the administration, while the node keeps playing. A later disconnect() of
the source had no effect on it.
---
 src/context/concrete_base.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/context/concrete_base.rs b/src/context/concrete_base.rs
index 72d4144..266a7bc 100644
--- a/src/context/concrete_base.rs
+++ b/src/context/concrete_base.rs
@@ -238,6 +238,14 @@ impl ConcreteBaseAudioContext {
     ) -> T {
         // create a unique id for this node
         let id = self.inner.audio_node_id_provider.get();
+
+        // the id may be recycled, clear the connections administration for the previous node
+        self.inner
+            .connections
+            .lock()
+            .unwrap()
+            .retain(|&(_from, _output, to, _input)| to != id);
+
         let registration = AudioContextRegistration {
             id,
             context: self.clone(),
@@ -338,12 +346,13 @@ impl ConcreteBaseAudioContext {
         let message = ControlMessage::ControlHandleDropped { id };
         self.send_control_msg(message);
 
-        // Clear the connection administration for this node, the node id may be recycled later
+        // Clear the outgoing connections administration for this node. Its incoming connections
+        // can still be disconnected from the other end, until the node id is recycled.
         self.inner
             .connections
             .lock()
             .unwrap()
-            .retain(|&(from, _output, to, _input)| from != id && to != id);
+            .retain(|&(from, _output, _to, _input)| from != id);
     }
 
     /// Inform render thread that this node can act as a cycle breaker
-- 
2.43.0


From f4fcd5a400a2c9bc09fc72bfe02676969387e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:21 +0000
Subject: [PATCH 12/44] fix: mute all nodes of intertwined cycles

The traversal that detects cycles skips nodes it has already finished, so a
node that closes a second cycle through such a node was still rendered. It
was also not considered for breaking the cycle.
---
 src/render/graph.rs | 52 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index c7c348e..e76b3ba 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -405,6 +405,33 @@ impl Graph {
         false
     }
 
+    /// Check if a node is part of a cycle: if it can be reached from its own outputs
+    fn is_in_cycle(
+        &self,
+        node_id: AudioNodeId,
+        visited: &mut Vec<AudioNodeId>,
+        pending: &mut Vec<AudioNodeId>,
+    ) -> bool {
+        visited.clear();
+        pending.clear();
+        pending.push(node_id);
+
+        while let Some(current_id) = pending.pop() {
+            let current = self.nodes.get_unchecked(current_id).borrow();
+            for edge in current.outgoing_edges.iter() {
+                if edge.other_id == node_id {
+                    return true;
+                }
+                if !visited.contains(&edge.other_id) {
+                    visited.push(edge.other_id);
+                    pending.push(edge.other_id);
+                }
+            }
+        }
+
+        false
+    }
+
     /// Determine the order of the audio nodes for rendering
     ///
     /// By inspecting the audio node connections, we can determine which nodes should render before
@@ -471,6 +498,31 @@ impl Graph {
                 continue;
             }
 
+            // The depth first traversal finds at least one node of every cycle, but not all of
+            // the nodes of intertwined cycles. Complete the list.
+            if !in_cycle.is_empty() {
+                for node_id in self.nodes.keys() {
+                    if !in_cycle.contains(&node_id)
+                        && self.is_in_cycle(node_id, &mut marked, &mut marked_temp)
+                    {
+                        if self.nodes.get_unchecked(node_id).borrow().cycle_breaker {
+                            cycle_breakers.push(node_id);
+                            break;
+                        }
+                        in_cycle.push(node_id);
+                    }
+                }
+
+                if let Some(&node_id) = cycle_breakers.first() {
+                    self.nodes
+                        .get_unchecked_mut(node_id)
+                        .outgoing_edges
+                        .clear();
+
+                    continue;
+                }
+            }
+
             break;
         }
 
-- 
2.43.0


From 5d3f5d756cfbfa9c5b96fc945d25a2931cd26c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:57 +0000
Subject: [PATCH 13/44] fix: discard the input of nodes that are muted in a
 cycle

Muted nodes are not rendered, so their inputs were never reset and kept
accumulating signal. The sum was played in one burst once the cycle was
broken.
---
 src/render/graph.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index e76b3ba..1e5d52b 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -642,6 +642,18 @@ impl Graph {
             }
         }
 
+        // Nodes in a cycle are muted, discard the input they received in this render quantum
+        self.in_cycle.iter().for_each(|index| {
+            let mut node = self.nodes.get_unchecked(*index).borrow_mut();
+            node.inputs
+                .iter_mut()
+                .for_each(AudioRenderQuantum::make_silent);
+            node.outputs
+                .iter_mut()
+                .for_each(AudioRenderQuantum::make_silent);
+            node.has_inputs_connected = false;
+        });
+
         // Return the output buffer of destination node
         &self.nodes.get_unchecked_mut(AudioNodeId(0)).outputs[0]
     }
-- 
2.43.0


From f2a7b9e5f8272af56eb5703513951bd85ec0fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:53 +0000
Subject: [PATCH 14/44] fix: keep a node whose processor panicked until its
 handle is dropped

The node was removed and its id recycled while the control handle was still
alive. Messages of that handle then crashed the renderer or ended up at an
unrelated new node.
---
 src/render/graph.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/render/graph.rs b/src/render/graph.rs
index 1e5d52b..853354b 100644
--- a/src/render/graph.rs
+++ b/src/render/graph.rs
@@ -120,6 +120,21 @@ impl Node {
     }
 }
 
+/// Stand-in for an audio processor that has panicked
+struct FailedProcessor;
+
+impl AudioProcessor for FailedProcessor {
+    fn process(
+        &mut self,
+        _inputs: &[AudioRenderQuantum],
+        _outputs: &mut [AudioRenderQuantum],
+        _params: AudioParamValues<'_>,
+        _scope: &AudioWorkletGlobalScope,
+    ) -> bool {
+        false
+    }
+}
+
 /// The audio graph
 pub(crate) struct Graph {
     /// Processing Nodes
@@ -560,18 +575,25 @@ impl Graph {
             // let the current node process (catch any panics that may occur)
             let params = AudioParamValues::from(&self.nodes);
             scope.node_id.set(*index);
-            let (success, tail_time) = {
+            let tail_time = {
                 // We are abusing AssertUnwindSafe here, we cannot guarantee it upholds.
                 // This may lead to logic bugs later on, but it is the best that we can do.
                 // The alternative is to crash and reboot the render thread.
                 let catch_me = AssertUnwindSafe(|| node.process(params, scope));
 
                 match panic::catch_unwind(catch_me) {
-                    Ok(tail_time) => (true, tail_time),
+                    Ok(tail_time) => tail_time,
                     Err(e) => {
+                        // Mute the node, but keep it around for its control handle: messages can
+                        // still be sent to it, so its id must not be recycled.
                         node.outgoing_edges.clear();
+                        node.processor.before_drop(scope);
+                        node.processor = Box::new(FailedProcessor);
+                        node.outputs
+                            .iter_mut()
+                            .for_each(AudioRenderQuantum::make_silent);
                         scope.report_error(e);
-                        (false, false)
+                        false
                     }
                 }
             };
@@ -590,7 +612,7 @@ impl Graph {
                     output_node.inputs[edge.other_index].add(signal, channel_config);
                 });
 
-            let can_free = !success || node.can_free(tail_time);
+            let can_free = node.can_free(tail_time);
 
             // Node is not dropped.
             if !can_free {
-- 
2.43.0


From d4fced9857529dc0e92dc1c1b5186c81d15591fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:40 +0000
Subject: [PATCH 15/44] fix: accept an empty wave shaper curve without
 panicking

---
 src/node/waveshaper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/waveshaper.rs b/src/node/waveshaper.rs
index 92c1a13..2b21d3e 100644
--- a/src/node/waveshaper.rs
+++ b/src/node/waveshaper.rs
@@ -497,7 +497,9 @@ impl AudioProcessor for WaveShaperRenderer {
 
             // We can propagate silent input only if the center of the curve is zero
             self.can_propagate_silence = if let Some(curve) = &self.curve {
-                if curve.len() % 2 == 1 {
+                if curve.is_empty() {
+                    true
+                } else if curve.len() % 2 == 1 {
                     curve[curve.len() / 2].abs() < 1e-9
                 } else {
                     let a = curve[curve.len() / 2 - 1];
-- 
2.43.0


From a4305f52660e6c7a0c5c21cd6d85d997378e0467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:56 +0000
Subject: [PATCH 16/44] fix: keep a wave shaper alive while its curve yields a
 DC offset

---
 src/node/waveshaper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/waveshaper.rs b/src/node/waveshaper.rs
index 2b21d3e..31c55c4 100644
--- a/src/node/waveshaper.rs
+++ b/src/node/waveshaper.rs
@@ -483,7 +483,9 @@ impl AudioProcessor for WaveShaperRenderer {
         }
 
         // @tbc - rubato::FftFixedInOut doesn't seem to introduce any latency
-        false
+        //
+        // a curve with a non-zero center yields output even when there is no input
+        !self.can_propagate_silence
     }
 
     fn onmessage(&mut self, msg: &mut dyn Any) {
-- 
2.43.0


From d6b687e6c10a193ee541e44bb4299d1f9c5eac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:20 +0000
Subject: [PATCH 17/44] fix: handle degenerate distances in the panner distance
 models

---
 src/node/panner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/node/panner.rs b/src/node/panner.rs
index 3cc7f0f..072739a 100644
--- a/src/node/panner.rs
+++ b/src/node/panner.rs
@@ -964,8 +964,14 @@ impl PannerRenderer {
                 let d2ref = ref_distance.min(max_distance);
                 let d2max = ref_distance.max(max_distance);
                 let d_clamped = distance.clamp(d2ref, d2max);
-                1. - rolloff_factor * (d_clamped - d2ref) / (d2max - d2ref)
+                if d2ref == d2max {
+                    1. - rolloff_factor
+                } else {
+                    1. - rolloff_factor * (d_clamped - d2ref) / (d2max - d2ref)
+                }
             }
+            // the inverse and exponential model yield zero for a reference distance of zero
+            _ if ref_distance == 0. => 0.,
             DistanceModelType::Inverse => {
                 let rolloff_factor = self.rolloff_factor.max(0.);
                 if distance > 0. {
-- 
2.43.0


From 110bcf7d42ebcf559e5147eca429ba94a3d24255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:35 +0000
Subject: [PATCH 18/44] fix: apply panner position and orientation at a-rate

---
 src/node/panner.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/node/panner.rs b/src/node/panner.rs
index 072739a..b0a05f8 100644
--- a/src/node/panner.rs
+++ b/src/node/panner.rs
@@ -831,7 +831,13 @@ impl AudioProcessor for PannerRenderer {
             // EqualPower panning
 
             // Optimize for static Panner & Listener
-            let single_valued = listener_position_x.len() == 1
+            let single_valued = source_position_x.len() == 1
+                && source_position_y.len() == 1
+                && source_position_z.len() == 1
+                && source_orientation_x.len() == 1
+                && source_orientation_y.len() == 1
+                && source_orientation_z.len() == 1
+                && listener_position_x.len() == 1
                 && listener_position_y.len() == 1
                 && listener_position_z.len() == 1
                 && listener_forward_x.len() == 1
-- 
2.43.0


From 77de497e1c8e9b81a9e4b4e4f210b2178c846b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:51 +0000
Subject: [PATCH 19/44] fix: render the full HRTF tail after every sound

---
 src/node/panner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/panner.rs b/src/node/panner.rs
index b0a05f8..fb8408a 100644
--- a/src/node/panner.rs
+++ b/src/node/panner.rs
@@ -708,6 +708,8 @@ impl AudioProcessor for PannerRenderer {
             }
 
             self.tail_time_counter += RENDER_QUANTUM_SIZE;
+        } else {
+            self.tail_time_counter = 0;
         }
 
         // for borrow reasons, take the hrtf_state out of self
-- 
2.43.0


From 67e702ccb096ee040c56d644873d63c0f28facd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:06 +0000
Subject: [PATCH 20/44] fix: do not attenuate sounds on the edge of the inner
 panner cone

---
 src/node/panner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/panner.rs b/src/node/panner.rs
index fb8408a..1477d3f 100644
--- a/src/node/panner.rs
+++ b/src/node/panner.rs
@@ -948,7 +948,7 @@ impl PannerRenderer {
             let abs_angle =
                 crate::spatial::angle(source_position, source_orientation, listener_position);
 
-            if abs_angle < abs_inner_angle {
+            if abs_angle <= abs_inner_angle {
                 1. // No attenuation
             } else if abs_angle >= abs_outer_angle {
                 cone_outer_gain // Max attenuation
-- 
2.43.0


From e3aab32067e04fa557dab08e99dd0de8fc2f0bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:22 +0000
Subject: [PATCH 21/44] fix: avoid NaN azimuth, elevation and cone angles due
 to rounding

---
 src/spatial.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spatial.rs b/src/spatial.rs
index 10e3449..eab643d 100644
--- a/src/spatial.rs
+++ b/src/spatial.rs
@@ -233,7 +233,7 @@ pub fn azimuth_and_elevation(
     let up = vec3_cross(listener_right_norm, listener_forward_norm);
 
     // Determine elevation first
-    let mut elevation = 90. - 180. * vec3_dot(source_listener, up).acos() / PI;
+    let mut elevation = 90. - 180. * vec3_dot(source_listener, up).clamp(-1., 1.).acos() / PI;
     if elevation > 90. {
         elevation = 180. - elevation;
     } else if elevation < -90. {
@@ -250,7 +250,8 @@ pub fn azimuth_and_elevation(
     }
     let projected_source = vec3_normalized(projected_source);
 
-    let mut azimuth = 180. * vec3_dot(projected_source, listener_right_norm).acos() / PI;
+    let right_projection = vec3_dot(projected_source, listener_right_norm);
+    let mut azimuth = 180. * right_projection.clamp(-1., 1.).acos() / PI;
 
     // Source in front or behind the listener.
     let front_back = vec3_dot(projected_source, listener_forward_norm);
@@ -294,7 +295,8 @@ pub fn angle(
     // Calculate the source-listener vector.
     let source_listener = vec3_normalized(relative_pos);
 
-    let angle = 180. * vec3_dot(source_listener, normalized_source_orientation).acos() / PI;
+    let cos_angle = vec3_dot(source_listener, normalized_source_orientation);
+    let angle = 180. * cos_angle.clamp(-1., 1.).acos() / PI;
     angle.abs()
 }
 
-- 
2.43.0


From d3c70b01497da71308df2696ce2d06b07a0e4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:55:21 +0000
Subject: [PATCH 22/44] fix: honour the duration of a looping buffer source on
 the fast track

---
 src/node/audio_buffer_source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/audio_buffer_source.rs b/src/node/audio_buffer_source.rs
index b5a20d3..b430990 100644
--- a/src/node/audio_buffer_source.rs
+++ b/src/node/audio_buffer_source.rs
@@ -548,7 +548,7 @@ impl AudioProcessor for AudioBufferSourceRenderer {
         // If some user defined end of rendering, i.e. explicit stop_time or duration,
         // is within this render quantum force slow track as well. It might imply
         // resampling e.g. if stop_time is between 2 samples
-        if buffer_time + block_duration > self.duration
+        if self.render_state.buffer_time_elapsed + block_duration > self.duration
             || block_time + block_duration > self.stop_time
         {
             self.render_state.is_aligned = false;
-- 
2.43.0


From d3635597b91001be5eed71ae21281174e14e22f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:53 +0000
Subject: [PATCH 23/44] fix: keep the oscillator phase below a full period for
 tiny negative frequencies

---
 src/node/oscillator.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/node/oscillator.rs b/src/node/oscillator.rs
index 7e0a37e..8cf9403 100644
--- a/src/node/oscillator.rs
+++ b/src/node/oscillator.rs
@@ -666,7 +666,13 @@ impl OscillatorRenderer {
         if phase >= 1. {
             phase - 1.
         } else if phase < 0. {
-            phase + 1.
+            // tiny negative phases are rounded up to a full period
+            let phase = phase + 1.;
+            if phase < 1. {
+                phase
+            } else {
+                0.
+            }
         } else {
             phase
         }
@@ -674,7 +680,13 @@ impl OscillatorRenderer {
 
     #[inline]
     fn unroll_phase_unbounded(phase: f64) -> f64 {
-        phase.rem_euclid(1.)
+        // tiny negative phases are rounded up to a full period
+        let phase = phase.rem_euclid(1.);
+        if phase < 1. {
+            phase
+        } else {
+            0.
+        }
     }
 }
 
-- 
2.43.0


From 0a47826ca5f76ecd0f55f70bdef04f62755488eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:12 +0000
Subject: [PATCH 24/44] fix: reject custom oscillators without a periodic wave

---
 src/node/oscillator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/oscillator.rs b/src/node/oscillator.rs
index 8cf9403..4b06021 100644
--- a/src/node/oscillator.rs
+++ b/src/node/oscillator.rs
@@ -216,6 +216,11 @@ impl OscillatorNode {
             periodic_wave,
         } = options;
 
+        assert!(
+            type_ != OscillatorType::Custom || periodic_wave.is_some(),
+            "InvalidStateError: Custom type cannot be set without a periodic wave",
+        );
+
         let mut node = context.base().register(move |registration| {
             let sample_rate = context.sample_rate();
             let nyquist = sample_rate / 2.;
-- 
2.43.0


From 90e44319a5c46926a61ae0387b2cbc46a82f4121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:34 +0000
Subject: [PATCH 25/44] fix: suspend offline rendering at the exact render
 quantum despite rounding of its time

---
 src/context/offline.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/context/offline.rs b/src/context/offline.rs
index 6cc9c0e..511c4c8 100644
--- a/src/context/offline.rs
+++ b/src/context/offline.rs
@@ -247,7 +247,15 @@ impl OfflineAudioContext {
             suspend_time < self.length as f64 / self.sample_rate() as f64,
             "InvalidStateError: suspendTime cannot be greater than or equal to the total render duration"
         );
-        (suspend_time * self.base.sample_rate() as f64 / RENDER_QUANTUM_SIZE as f64).ceil() as usize
+        let frame = suspend_time * self.base.sample_rate() as f64;
+        // undo the rounding of times that denote an exact frame
+        let nearest = frame.round();
+        let frame = if (frame - nearest).abs() < 1e-6 {
+            nearest
+        } else {
+            frame
+        };
+        (frame / RENDER_QUANTUM_SIZE as f64).ceil() as usize
     }
 
     /// Schedules a suspension of the time progression in the audio context at the specified time
-- 
2.43.0


From e57814ebb6c37e0a292ff0c10bc4228a8c35ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:52 +0000
Subject: [PATCH 26/44] fix: reject offline suspend times in the last render
 quantum, which never fire

---
 src/context/offline.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/context/offline.rs b/src/context/offline.rs
index 511c4c8..8fb134a 100644
--- a/src/context/offline.rs
+++ b/src/context/offline.rs
@@ -255,7 +255,12 @@ impl OfflineAudioContext {
         } else {
             frame
         };
-        (frame / RENDER_QUANTUM_SIZE as f64).ceil() as usize
+        let quantum = (frame / RENDER_QUANTUM_SIZE as f64).ceil() as usize;
+        assert!(
+            quantum < self.length.div_ceil(RENDER_QUANTUM_SIZE),
+            "InvalidStateError: suspendTime cannot be greater than or equal to the total render duration"
+        );
+        quantum
     }
 
     /// Schedules a suspension of the time progression in the audio context at the specified time
-- 
2.43.0


From 8a6320ba5b7a381c985bd8ec3d84c0df6da7afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:09 +0000
Subject: [PATCH 27/44] fix: keep the right channel of a mono impulse response
 when stereo input ends

---
 src/node/convolver.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/node/convolver.rs b/src/node/convolver.rs
index 23d4482..7d66eb8 100644
--- a/src/node/convolver.rs
+++ b/src/node/convolver.rs
@@ -225,6 +225,7 @@ impl ConvolverNode {
                 impulse_length: 0,
                 impulse_number_of_channels: 0,
                 tail_count: 0,
+                stereo_tail: 0,
             };
 
             let node = Self {
@@ -338,6 +339,8 @@ struct ConvolverRenderer {
     impulse_length: usize,
     impulse_number_of_channels: usize,
     tail_count: usize,
+    // frames left of the response to stereo input, for mono impulse responses
+    stereo_tail: usize,
 }
 
 impl AudioProcessor for ConvolverRenderer {
@@ -377,11 +380,22 @@ impl AudioProcessor for ConvolverRenderer {
         // https://webaudio.github.io/web-audio-api/#Convolution-channel-configurations
         match (input.number_of_channels(), self.impulse_number_of_channels) {
             (1, 1) => {
-                output.set_number_of_channels(1);
+                // always run both convolvers: the right channel may still have to render the tail
+                // of stereo input, and must know the past when the input turns stereo
+                output.set_number_of_channels(2);
 
                 let i = &input.channel_data(0)[..];
-                let o = &mut output.channel_data_mut(0)[..];
-                let _ = convolvers[0].process(i, o);
+
+                let o_left = &mut output.channel_data_mut(0)[..];
+                let _ = convolvers[0].process(i, o_left);
+
+                let o_right = &mut output.channel_data_mut(1)[..];
+                let _ = convolvers[1].process(i, o_right);
+
+                if self.stereo_tail == 0 {
+                    output.set_number_of_channels(1);
+                }
+                self.stereo_tail = self.stereo_tail.saturating_sub(RENDER_QUANTUM_SIZE);
             }
             (1, 2) => {
                 output.set_number_of_channels(2);
@@ -395,6 +409,7 @@ impl AudioProcessor for ConvolverRenderer {
                 let _ = convolvers[1].process(i, o_right);
             }
             (2, 1) => {
+                self.stereo_tail = self.impulse_length;
                 output.set_number_of_channels(2);
 
                 let i_left = &input.channel_data(0)[..];
@@ -500,6 +515,7 @@ impl AudioProcessor for ConvolverRenderer {
             std::mem::swap(&mut self.convolvers, convolvers);
             self.impulse_length = *impulse_length;
             self.impulse_number_of_channels = *impulse_number_of_channels;
+            self.stereo_tail = 0;
 
             return;
         }
-- 
2.43.0


From ad611c82a7eaf1593fa87a7028aaf97b4fccf65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:26 +0000
Subject: [PATCH 28/44] fix: keep the compressor alive until its delay line is
 empty

---
 src/node/dynamics_compressor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/node/dynamics_compressor.rs b/src/node/dynamics_compressor.rs
index a9466de..cd52c20 100644
--- a/src/node/dynamics_compressor.rs
+++ b/src/node/dynamics_compressor.rs
@@ -460,11 +460,11 @@ impl AudioProcessor for DynamicsCompressorRenderer {
 
         *output = delayed.clone();
 
-        // if delayed signal is silent, there is no compression to apply
-        // thus we can consider the node has reach is tail time. (TBC)
+        // if delayed signal is silent, there is no compression to apply. The node has reached its
+        // tail time when there is nothing left in the delay line.
         if output.is_silent() {
             output.make_silent(); // truncate to 1 channel if needed
-            return false;
+            return self.ring_buffer.iter().any(|block| !block.is_silent());
         }
 
         output.channels_mut().iter_mut().for_each(|channel| {
-- 
2.43.0


From d537d55d07e349e2e256dd2834d9b852bef2a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:43 +0000
Subject: [PATCH 29/44] fix: apply the knee to the make-up gain of the
 compressor

---
 src/node/dynamics_compressor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/node/dynamics_compressor.rs b/src/node/dynamics_compressor.rs
index cd52c20..d371b0e 100644
--- a/src/node/dynamics_compressor.rs
+++ b/src/node/dynamics_compressor.rs
@@ -384,7 +384,13 @@ impl AudioProcessor for DynamicsCompressorRenderer {
         // - Return the result of taking the 0.6 power of full range makeup gain.
         // @note: this should be confirmed / simplified, maybe could do all this in dB
         // seems coherent with chrome implementation
-        let full_range_gain = threshold + (-threshold / ratio);
+        let full_range_gain = if 0. <= threshold - half_knee {
+            0.
+        } else if 0. <= threshold + half_knee {
+            (half_knee - threshold).powi(2) * knee_partial
+        } else {
+            threshold - threshold / ratio
+        };
         let full_range_makeup = 1. / db_to_lin(full_range_gain);
         let makeup_gain = lin_to_db(full_range_makeup.powf(0.6));
 
-- 
2.43.0


From 62c703d0124cf6b8fd97b83fff3e1821ee5afa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:01 +0000
Subject: [PATCH 30/44] fix: stop rendering between chunks of a callback when
 suspended or recycled

---
 src/render/thread.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/render/thread.rs b/src/render/thread.rs
index c684954..9114643 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -485,6 +485,12 @@ impl RenderThread {
         let chunk_size = RENDER_QUANTUM_SIZE * self.number_of_channels;
 
         for data in output_buffer.chunks_mut(chunk_size) {
+            // suspended, closed or shut down after the previous chunk
+            if self.suspended || self.graph.is_none() {
+                data.fill(S::from_sample_(0.));
+                continue;
+            }
+
             // update time
             let current_frame = self
                 .frames_played
-- 
2.43.0


From 3c26934a6471ff7c7cec03b6caaee9464244d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:39 +0000
Subject: [PATCH 31/44] fix: respect event handlers being replaced or cleared
 while they run

---
 src/events.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/events.rs b/src/events.rs
index 069e9f3..6946b1b 100644
--- a/src/events.rs
+++ b/src/events.rs
@@ -19,7 +19,7 @@ pub struct Event {
     pub type_: &'static str,
 }
 
-#[derive(Hash, Eq, PartialEq, Debug)]
+#[derive(Hash, Eq, PartialEq, Debug, Clone, Copy)]
 pub(crate) enum EventType {
     Ended(AudioNodeId),
     SinkChange,
@@ -169,6 +169,8 @@ impl EventDispatch {
 pub(crate) enum EventHandler {
     Once(Box<dyn FnOnce(EventPayload) + Send + 'static>),
     Multiple(Box<dyn FnMut(EventPayload) + Send + 'static>),
+    /// Takes the place of a `Multiple` handler while it runs
+    Running,
 }
 
 #[derive(Clone)]
@@ -205,6 +207,9 @@ impl EventLoop {
 
         let mut event_handler_lock = self.event_handlers.lock().unwrap();
         let callback_option = event_handler_lock.remove(&event.type_);
+        if matches!(callback_option, Some(EventHandler::Multiple(_))) {
+            event_handler_lock.insert(event.type_, EventHandler::Running);
+        }
         drop(event_handler_lock); // release Mutex while running callback
 
         if let Some(callback) = callback_option {
@@ -212,11 +217,14 @@ impl EventLoop {
                 EventHandler::Once(f) => (f)(event.payload),
                 EventHandler::Multiple(mut f) => {
                     (f)(event.payload);
-                    self.event_handlers
-                        .lock()
-                        .unwrap()
-                        .insert(event.type_, EventHandler::Multiple(f));
+                    // put it back, unless it has been replaced or cleared in the meantime
+                    if let Some(handler @ EventHandler::Running) =
+                        self.event_handlers.lock().unwrap().get_mut(&event.type_)
+                    {
+                        *handler = EventHandler::Multiple(f);
+                    }
                 }
+                EventHandler::Running => (),
             };
         }
 
-- 
2.43.0


From 883ea55ba5c5d430c01a8adbb2e6c908f907d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:56 +0000
Subject: [PATCH 32/44] fix: reject script processor buffer sizes that are no
 power of two

---
 src/node/script_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/script_processor.rs b/src/node/script_processor.rs
index 7667118..11bcb2a 100644
--- a/src/node/script_processor.rs
+++ b/src/node/script_processor.rs
@@ -84,7 +84,7 @@ impl ScriptProcessorNode {
         let buffer_size = if buffer_size == 0 { 256 } else { buffer_size };
 
         assert!(
-            (buffer_size / 256).is_power_of_two() && buffer_size <= 16384,
+            buffer_size.is_power_of_two() && (256..=16384).contains(&buffer_size),
             "IndexSizeError - bufferSize must be 0 or one of: 256, 512, 1024, 2048, 4096, 8192, 16384",
         );
 
-- 
2.43.0


From 62b7583c15b71298bdf30572136bc4543e07345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:13 +0000
Subject: [PATCH 33/44] fix: run script processors without output channels

---
 src/node/script_processor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/script_processor.rs b/src/node/script_processor.rs
index 11bcb2a..d3e51f5 100644
--- a/src/node/script_processor.rs
+++ b/src/node/script_processor.rs
@@ -104,7 +104,8 @@ impl ScriptProcessorNode {
                 output_buffer: Vec::with_capacity(number_of_quanta),
                 next_output_buffer: Vec::with_capacity(number_of_quanta),
                 buffer_size,
-                number_of_output_channels,
+                // an output of zero channels is rendered as mono silence
+                number_of_output_channels: number_of_output_channels.max(1),
             };
 
             let upmix_input_channels = if number_of_input_channels == 0 {
-- 
2.43.0


From 6b5490a67427c0ce215654e092bb1e1db8af77c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:30 +0000
Subject: [PATCH 34/44] fix: report the time the script processor output is
 actually played

---
 src/node/script_processor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/node/script_processor.rs b/src/node/script_processor.rs
index d3e51f5..4c28d7e 100644
--- a/src/node/script_processor.rs
+++ b/src/node/script_processor.rs
@@ -239,8 +239,9 @@ impl AudioProcessor for ScriptProcessorRenderer {
             let output_buffer = AudioBuffer::from(output_samples, scope.sample_rate);
 
             // emit event to control thread
-            let playback_time =
-                scope.current_time + self.buffer_size as f64 / scope.sample_rate as f64;
+            // after this render quantum and the output buffer that is lined up already
+            let frames_ahead = RENDER_QUANTUM_SIZE + self.buffer_size;
+            let playback_time = scope.current_time + frames_ahead as f64 / scope.sample_rate as f64;
             scope.send_audio_processing_event(input_buffer, output_buffer, playback_time);
 
             // clear existing input buffer
-- 
2.43.0


From aaef3ad71f994bb1c582da2ff293bc2834a8ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:45 +0000
Subject: [PATCH 35/44] fix: resample to a single frame without NaN

---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 60561b1..ad552e8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -334,7 +334,7 @@ impl AudioBuffer {
         resampled.resize_with(num_channels, || Vec::<f32>::with_capacity(target_length));
 
         for i in 0..target_length {
-            let position = i as f64 / (target_length - 1) as f64; // [0., 1.]
+            let position = i as f64 / (target_length - 1).max(1) as f64; // [0., 1.]
             let playhead = position * (source_length - 1) as f64;
             let playhead_floored = playhead.floor();
             let prev_index = playhead_floored as usize;
-- 
2.43.0


From 789c979bf2e81ab0374489514db120db0fbb7434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:01 +0000
Subject: [PATCH 36/44] fix: leave excess elements of byte time domain data
 unmodified

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index f68d7d4..ff494ac 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -265,7 +265,7 @@ impl Analyser {
 
     pub fn get_byte_time_domain_data(&self, dst: &mut [u8]) {
         let fft_size = self.fft_size();
-        let mut tmp = vec![0.; dst.len()];
+        let mut tmp = vec![0.; dst.len().min(fft_size)];
         self.ring_buffer.read(&mut tmp, fft_size);
 
         dst.iter_mut().zip(tmp.iter()).for_each(|(o, i)| {
-- 
2.43.0


From 5081676783124a3a716c75479682fabd07460dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:17 +0000
Subject: [PATCH 37/44] fix: compute frequency data anew when the fft size
 changes within a render quantum

---
 src/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index ff494ac..2091de9 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -216,6 +216,7 @@ impl Analyser {
         if current_fft_size != fft_size {
             // reset last fft buffer
             self.last_fft_output.iter_mut().for_each(|v| *v = 0.);
+            self.last_fft_time = f64::NEG_INFINITY;
             // generate blackman window
             self.blackman.clear();
             generate_blackman(fft_size).for_each(|v| self.blackman.push(v));
-- 
2.43.0


From d752b4205f7a94d589fe134aee25950ef0b78ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:44 +0000
Subject: [PATCH 38/44] fix: hold the start value when an exponential ramp
 across zero is cancelled

---
 src/param.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/param.rs b/src/param.rs
index 5d1281e..1ffe953 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -1219,10 +1219,12 @@ impl AudioParamProcessor {
         // > event then for 𝑡≥𝑇1, 𝑣(𝑡)=𝑉1.
         // this should thus behave as a SetValue
         if start_value == 0. || start_value * end_value < 0. {
+            // when cancelled before its end, the ramp holds its start value
+            let held = end_time < event.time;
             let event = AudioParamEvent {
                 event_type: AudioParamEventType::SetValueAtTime,
                 time: end_time,
-                value: end_value,
+                value: if held { start_value } else { end_value },
                 time_constant: None,
                 cancel_time: None,
                 duration: None,
-- 
2.43.0


From 65b8b59f50b7ed7b90a741c83ec306d075568c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:24 +0000
Subject: [PATCH 39/44] fix: dispatch statechange only when the state of the
 context changes

---
 src/render/thread.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/render/thread.rs b/src/render/thread.rs
index 9114643..37d14b3 100644
--- a/src/render/thread.rs
+++ b/src/render/thread.rs
@@ -538,10 +538,12 @@ impl RenderThread {
     }
 
     fn set_state(&self, state: AudioContextState) {
-        self.state.store(state as u8, Ordering::Relaxed);
-        self.event_sender
-            .try_send(EventDispatch::state_change(state))
-            .ok();
+        let previous = self.state.swap(state as u8, Ordering::Relaxed);
+        if previous != state as u8 {
+            self.event_sender
+                .try_send(EventDispatch::state_change(state))
+                .ok();
+        }
     }
 }
 
-- 
2.43.0


From a48e6d362eb677e7872f0150226df57e786b3345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:38 +0000
Subject: [PATCH 40/44] fix: reject non-finite values in setValueCurveAtTime

---
 src/param.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/param.rs b/src/param.rs
index 1ffe953..878db29 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -613,6 +613,7 @@ impl AudioParam {
     ///
     /// Will panic if:
     /// - `value` length is less than 2
+    /// - any of the values is non-finite
     /// - `start_time` is negative
     /// - `duration` is negative or equal to zero
     pub fn set_value_curve_at_time(&self, values: &[f32], start_time: f64, duration: f64) -> &Self {
@@ -626,6 +627,7 @@ impl AudioParam {
         duration: f64,
     ) -> AudioParamEvent {
         assert_sequence_length(values);
+        values.iter().copied().for_each(assert_is_finite);
         assert_valid_time_value(start_time);
         assert_strictly_positive(duration);
 
-- 
2.43.0


From cb1888595daa24e572985ac99714e78421a71d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:53 +0000
Subject: [PATCH 41/44] fix: order events after a ramp held by
 cancelAndHoldAtTime by the time of the hold

---
 src/param.rs | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 878db29..f8d4e07 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -176,7 +176,9 @@ pub(crate) struct AudioParamEvent {
     value: f32,
     time: f64,
     time_constant: Option<f64>, // populated by `SetTargetAtTime` events
-    cancel_time: Option<f64>,   // populated by `CancelAndHoldAtTime` events
+    // populated by `CancelAndHoldAtTime` events: the time of the hold, or for ramps
+    // (whose `time` becomes the time of the hold) the end time they were declared with
+    cancel_time: Option<f64>,
     duration: Option<f64>,      // populated by `SetValueCurveAtTime` events
     values: Option<Box<[f32]>>, // populated by `SetValueCurveAtTime` events
 }
@@ -922,7 +924,8 @@ impl AudioParamProcessor {
                 // original ramp at time 𝑡𝑐.
                 // @note - this is done during the actual computation of the
                 //  ramp using the cancel_time
-                matched.cancel_time = Some(event.time);
+                matched.cancel_time.get_or_insert(matched.time);
+                matched.time = event.time;
             } else if let Some(matched) = e1 {
                 if matched.event_type == AudioParamEventType::SetTargetAtTime {
                     // Implicitly insert a setValueAtTime event at time 𝑡𝑐 with
@@ -949,15 +952,8 @@ impl AudioParamProcessor {
             }
 
             // [spec] Remove all events with time greater than 𝑡𝑐.
-            self.event_timeline.retain(|queued| {
-                let mut time = queued.time;
-                // if the event has a `cancel_time` we use it instead of `time`
-                if let Some(cancel_time) = queued.cancel_time {
-                    time = cancel_time;
-                }
-
-                time <= event.time
-            });
+            self.event_timeline
+                .retain(|queued| queued.time <= event.time);
             return; // cancel_and_hold events are not inserted timeline
         }
 
@@ -1122,13 +1118,9 @@ impl AudioParamProcessor {
         let last_event = self.last_event.as_ref().unwrap();
 
         let start_time = last_event.time;
-        let mut end_time = event.time;
-        // compute duration before clapping `end_time` to`cancel_time`, to keep
-        // declared slope of the ramp consistent
-        let duration = end_time - start_time;
-        if let Some(cancel_time) = event.cancel_time {
-            end_time = cancel_time;
-        }
+        let end_time = event.time;
+        // a held ramp keeps its declared slope
+        let duration = event.cancel_time.unwrap_or(end_time) - start_time;
 
         let start_value = last_event.value;
         let end_value = event.value;
@@ -1201,13 +1193,9 @@ impl AudioParamProcessor {
         let last_event = self.last_event.as_ref().unwrap();
 
         let start_time = last_event.time;
-        let mut end_time = event.time;
-        // compute duration before clapping `end_time` to `cancel_time`, to keep
-        // declared slope of the ramp consistent
-        let duration = end_time - start_time;
-        if let Some(cancel_time) = event.cancel_time {
-            end_time = cancel_time;
-        }
+        let end_time = event.time;
+        // a held ramp keeps its declared slope
+        let duration = event.cancel_time.unwrap_or(end_time) - start_time;
 
         let start_value = last_event.value;
         let end_value = event.value;
@@ -1222,7 +1210,7 @@ impl AudioParamProcessor {
         // this should thus behave as a SetValue
         if start_value == 0. || start_value * end_value < 0. {
             // when cancelled before its end, the ramp holds its start value
-            let held = end_time < event.time;
+            let held = event.cancel_time.is_some_and(|time| end_time < time);
             let event = AudioParamEvent {
                 event_type: AudioParamEventType::SetValueAtTime,
                 time: end_time,
-- 
2.43.0


From 9402c86d2bd014a6cc2a86c366b3cd949f8c7d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:01:19 +0000
Subject: [PATCH 42/44] fix: start a ramp after a held setTargetAtTime at the
 time of the hold

---
 src/param.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index f8d4e07..1d6c4bf 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -1313,7 +1313,10 @@ impl AudioParamProcessor {
         if let Some(next_event) = some_next_event {
             match next_event.event_type {
                 AudioParamEventType::LinearRampToValueAtTime
-                | AudioParamEventType::ExponentialRampToValueAtTime => {
+                | AudioParamEventType::ExponentialRampToValueAtTime
+                    // a ramp that ends after a hold starts from there
+                    if !event.cancel_time.is_some_and(|t| t <= next_event.time) =>
+                {
                     // [spec] If the preceding event is a SetTarget
                     // event, 𝑇0 and 𝑉0 are chosen from the current
                     // time and value of SetTarget automation. That
@@ -1342,7 +1345,7 @@ impl AudioParamProcessor {
 
         // handle CancelAndHoldAtTime
         if let Some(cancel_time) = event.cancel_time {
-            if cancel_time < infos.next_block_time {
+            if cancel_time < end_time {
                 end_time = cancel_time;
                 ended = true;
             }
-- 
2.43.0


From 660b4296016ad118d302ea6f1328c9b3a655e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:01:19 +0000
Subject: [PATCH 43/44] fix: let curves and target approaches end at the first
 hold

---
 src/param.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 1d6c4bf..46afb2a 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -183,6 +183,14 @@ pub(crate) struct AudioParamEvent {
     values: Option<Box<[f32]>>, // populated by `SetValueCurveAtTime` events
 }
 
+impl AudioParamEvent {
+    // End of a `SetValueCurveAtTime` event
+    fn curve_end_time(&self) -> f64 {
+        self.cancel_time
+            .unwrap_or(self.time + self.duration.unwrap())
+    }
+}
+
 // Event queue that contains `AudioParamEvent`s, most of the time, events must be
 // ordered (using stable sort), some operation may break this ordering (e.g. `push`)
 // in which cases `sort` must be called explicitly.
@@ -910,7 +918,7 @@ impl AudioParamProcessor {
             // setValueCurve to finish)
             let within_curve = e1.as_ref().is_some_and(|e1| {
                 e1.event_type == AudioParamEventType::SetValueCurveAtTime
-                    && event.time <= e1.time + e1.duration.unwrap()
+                    && event.time <= e1.curve_end_time()
             });
             let e2_ramp = e2.filter(|e2| {
                 !within_curve
@@ -931,7 +939,8 @@ impl AudioParamProcessor {
                     // Implicitly insert a setValueAtTime event at time 𝑡𝑐 with
                     // the value that the setTarget would
                     // @note - same strategy as for ramps
-                    matched.cancel_time = Some(event.time);
+                    let held = matched.cancel_time.unwrap_or(event.time);
+                    matched.cancel_time = Some(held.min(event.time));
                 } else if matched.event_type == AudioParamEventType::SetValueCurveAtTime {
                     // If 𝐸1 is a setValueCurve with a start time of 𝑡3 and a duration of 𝑑
                     // If 𝑡𝑐 <= 𝑡3 + 𝑑 :
@@ -942,10 +951,7 @@ impl AudioParamProcessor {
                     // one computed using a different duration. (That would cause
                     // sampling of the value curve in a slightly different way,
                     // producing different results.)
-                    let start_time = matched.time;
-                    let duration = matched.duration.unwrap();
-
-                    if event.time <= start_time + duration {
+                    if event.time <= matched.curve_end_time() {
                         matched.cancel_time = Some(event.time);
                     }
                 }
@@ -994,7 +1000,7 @@ impl AudioParamProcessor {
             for queued in self.event_timeline.iter() {
                 if queued.event_type == AudioParamEventType::SetValueCurveAtTime {
                     let start_time = queued.time;
-                    let end_time = start_time + queued.duration.unwrap();
+                    let end_time = queued.curve_end_time();
 
                     assert!(
                         event.time <= start_time || event.time >= end_time,
-- 
2.43.0


From 56d94f4ab5b63dfc4d07390bf1f0fda1fb6a02c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:07:10 +0000
Subject: [PATCH 44/44] fix: apply events at the first frame of a k-rate
 quantum also while another automation is running

---
 src/param.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/param.rs b/src/param.rs
index 46afb2a..ddecac5 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -691,6 +691,18 @@ struct BlockInfos {
     next_block_time: f64,
 }
 
+impl BlockInfos {
+    // An automation ending exactly with the block is left to the next one, unless the
+    // events due at the very first frame of a k-rate block are applied (`count` is 0)
+    fn is_left_to_next_block(&self, end_time: f64) -> bool {
+        if self.count == 0 {
+            end_time > self.next_block_time
+        } else {
+            end_time >= self.next_block_time
+        }
+    }
+}
+
 #[derive(Debug)]
 pub(crate) struct AudioParamProcessor {
     default_value: f32, // immutable
@@ -1159,7 +1171,7 @@ impl AudioParamProcessor {
         // compute value for `next_block_time` so that `param.value()`
         // stays coherent, also allows to properly fill k-rate
         // within next block too
-        if end_time >= infos.next_block_time {
+        if infos.is_left_to_next_block(end_time) {
             let value = compute_linear_ramp_sample(
                 start_time,
                 duration,
@@ -1263,7 +1275,7 @@ impl AudioParamProcessor {
         // compute value for `next_block_time` so that `param.value()`
         // stays coherent, also allows to properly fill k-rate
         // within next block too
-        if end_time >= infos.next_block_time {
+        if infos.is_left_to_next_block(end_time) {
             let value = compute_exponential_ramp_sample(
                 start_time,
                 duration,
@@ -1341,7 +1353,7 @@ impl AudioParamProcessor {
                 _ => {
                     // For all other events, the SetTarget
                     // event ends at the time of the next event.
-                    if next_event.time < infos.next_block_time {
+                    if !infos.is_left_to_next_block(next_event.time) {
                         end_time = next_event.time;
                         ended = true;
                     }
@@ -1510,7 +1522,7 @@ impl AudioParamProcessor {
         }
 
         // event will continue in next tick
-        if end_time >= infos.next_block_time {
+        if infos.is_left_to_next_block(end_time) {
             // compute value for `next_block_time` so that `param.value()`
             // stays coherent (see. comment in `AudioParam`)
             // allows to properly fill k-rate within next block too
-- 
2.43.0

