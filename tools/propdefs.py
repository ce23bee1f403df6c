TECH = "contract-based deductive verification: pre/postconditions on the real functions, VCs generated from /repo's current source by exhaustive symbolic path enumeration over reals (floats rewritten mechanically on every run), discharged by a polynomial normaliser and Z3 (cvc5 as second opinion)"


def P(id, title, statement, over, text, why, files_, mech, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
             anchors={"files": files_, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None},
             technique=TECH)
    d.update(kw)
    return d


PROPS = [
    P("P01", "Channel up- and down-mixing follows the Web Audio mixing rules",
      "Whenever a signal with N channels is brought to M channels, every output sample is the Web Audio mixing matrix applied to the input sample: the fixed mono/stereo/quad/5.1 matrices under the 'speakers' interpretation, and copying the first min(N, M) channels and filling the rest with silence under 'discrete' or when no speaker matrix exists. The number of channels a node input gets is given by its channel count mode: the largest connected count for max, that capped by channelCount for clamped-max, exactly channelCount for explicit. Mixing never changes samples seen by any other consumer of the same signal.",
      ["inputs", "configurations"], "all sample values, all channel counts 1..=32 for discrete and all pairs of counts, both interpretations, all three count modes, shared or unshared channel buffers",
      "tests sample a few layouts with constant channels; the matrices have 64+ layout pairs and buffers are shared copy-on-write so aliasing depends on history",
      ["src/render/quantum.rs", "src/node/audio_node.rs"],
      [("AudioRenderQuantum::mix", "src/render/quantum.rs"), ("AudioRenderQuantumChannel copy-on-write", "src/render/quantum.rs")],
      files=["render/quantum.rs"], contracts=["mix", "mix_aliased"], assumptions=[],
      bounds="speaker layouts: all pairs of 1..=8 channels; discrete: counts 1..=8 (the code treats every count above 6 alike)",
      level_note="all sample values symbolic over a full 128-frame quantum; layouts enumerated"),
    P("P02", "A node input is the sum of everything connected to it",
      "For every node input, the signal a node processes is the sample-wise sum over all connected outputs, each first mixed to the input's computed number of channels. The result does not depend on the order in which the connections were made, on signals being silent, or on signals sharing the same memory, and summing never modifies the outputs being summed. Silence stays silent: an input that nothing feeds reads as zeros.",
      ["inputs", "configurations", "histories"], "all sample values, all combinations of up to three summands with any layout, silent / mono-upmixed / distinct operands, all count modes and interpretations",
      "the sum uses shortcuts for silence, identical channels and shared buffers that depend on operand history; tests cover a few constant-valued combinations",
      ["src/render/quantum.rs", "src/render/graph.rs"],
      [("AudioRenderQuantum::add", "src/render/quantum.rs"), ("AudioRenderQuantumChannel::add", "src/render/quantum.rs"), ("Graph::render fan-in", "src/render/graph.rs")],
      files=["render/quantum.rs"], contracts=["add", "add_three"], assumptions=[],
      bounds="layouts of two summands: all pairs of 1..=6 channels; three summands: mono/stereo/quad/5.1",
      level_note="all sample values symbolic over a full 128-frame quantum; layouts enumerated"),
    P("P03", "The audio graph renders connections in dependency order, cycles muted",
      "In every render quantum each node sees, within that same quantum, the sum of what its connected predecessors emit, whatever the order in which nodes were created and connected. connect() and the five disconnect() forms add and remove exactly the addressed output-to-input connections, from the next quantum on; connecting the same output and input again changes nothing. Nodes created at any time are rendered. Nodes that are part of a cycle without a DelayNode are muted, all other nodes play as if the muted ones were silent, and once the cycle is broken its nodes play their current input again.",
      ["configurations", "histories", "inputs"], "every acyclic graph of four nodes in every creation order, every graph of four nodes with up to nine edges including self loops and intertwined cycles, edits between quanta, all emitted values",
      "orderings, cycle sets and edits are a combinatorial space; tests use a handful of fixed graphs",
      ["src/render/graph.rs", "src/context/concrete_base.rs"],
      [("Graph::order_nodes / visit", "src/render/graph.rs"), ("Graph::render", "src/render/graph.rs"), ("Graph::add_edge / remove_edge / add_node", "src/render/graph.rs"), ("ConcreteBaseAudioContext::connect / disconnect", "src/context/concrete_base.rs")],
      files=["render/graph.rs", "lib__graph.rs"], contracts=["graph_step", "graph_step_edit", "graph_step_cyclic", "graph_step_breaker", "graph_dag", "graph_edit", "graph_cycle", "graph_cycle_broken", "graph_ports", "graph_connect_twice"], histories=["graph_step", "graph_step_edit", "graph_step_cyclic", "graph_step_breaker"], level="other", assumptions=["deps", "sequential"],
      bounds="graphs of at most four nodes (three with cycles); histories: five quanta, edits at one quantum boundary",
      level_note="bounded in the size of the graph: one call of Graph::render from any state between two quanta (silent inputs, any old outputs, ordering void or any valid one), and any one edit of such a state, gives the specified values and such a state again: composes over any number of quanta and edits, for every graph of at most four nodes (three with cycles), all values symbolic; the public connect/disconnect forms and breaking a cycle are bounded histories; one thread"),
    P("P04", "Nodes live exactly as long as they can still be heard",
      "Dropping the control handle of a node never changes what is heard: the node keeps processing and stays connected while it has connected inputs, produces output of its own (sources play to their last frame) or still has a tail, and a source can still be disconnected from it. A node with a live handle is rendered in every quantum. A finished node without handle is released. A processor that panics is taken out of the graph silently: all other nodes play on, and using or dropping the handle of the failed node affects no other node, also not nodes created later.",
      ["histories", "faults"], "which handles are dropped and when, tail lengths, source lengths around quantum boundaries, quantum in which a processor panics, what is done with its handle afterwards; all signal values",
      "depends on the history of drops, connections and panics; tests check a few drop sequences and no panic followed by more messages",
      ["src/render/graph.rs", "src/context/concrete_base.rs", "src/context/mod.rs"],
      [("Node::can_free", "src/render/graph.rs"), ("Graph::render decommissioning", "src/render/graph.rs"), ("ConcreteBaseAudioContext::mark_node_dropped", "src/context/concrete_base.rs")],
      files=["render/graph.rs", "lib__graph.rs"], contracts=["graph_step_free", "graph_step_panic", "graph_dropped_handles", "graph_tail", "graph_source_end", "graph_late_source", "graph_panic"], histories=["graph_step_free", "graph_step_panic"], level="other", assumptions=["deps", "sequential"],
      bounds="one node with at most one input, output and parameter; histories: five to seven quanta, at most four nodes",
      level_note="bounded in the size of the graph: one call of Graph::render on a node with or without handle, input, output, tail, side effects, or panicking: whether it is heard, released, handed back and taken out of the graph; what comes of it over several quanta through the public API is a bounded history of up to 7 quanta; all signal values symbolic; one thread"),
    P("P05", "AudioParam automation follows the specified formulas at every frame",
      "At every sample frame t, an a-rate AudioParam has the value the Web Audio automation formulas prescribe for the events scheduled on it: constant before the first event, set value from its time on, linear and exponential interpolation between the previous event's value and time and the ramp's, exponential approach towards a target from its start, linear interpolation through a value curve over its duration, and the end value held after the last event. Exponential ramps between values of different sign, or from zero, hold the start value until the end time. A k-rate AudioParam has, for a whole quantum, the value of the formula at the first frame of that quantum.",
      ["inputs", "configurations"], "all sequences of up to three events of all kinds, event times anywhere in the quantum including between frames, on frames, in earlier or later quanta, all values, time constants, curve points",
      "tests check isolated sequences on frame-aligned times; boundary frames and event combinations are a product space",
      ["src/param.rs"],
      [("AudioParamProcessor::compute_buffer", "src/param.rs"), ("compute_linear_ramp_sample", "src/param.rs"), ("compute_exponential_ramp_sample", "src/param.rs"), ("compute_set_target_sample", "src/param.rs"), ("compute_set_value_curve_sample", "src/param.rs")],
      files=["param.rs", "lib__automation.rs"], contracts=["param_step_idle", "param_step", "param_step_two", "param_step_cut", "automation_sequences", "automation_times", "automation_exp_signs", "automation_target_end", "automation_krate"], histories=["param_step", "param_step_two", "param_step_cut"], level="other", assumptions=["deps", "sequential", "transcend"],
      bounds="function contracts: timelines of up to two pending events, event times in enumerated cells relative to the quantum; histories: up to three events within three to four quanta; frames less than half a frame before an event are not judged",
      level_note="bounded in the number and placement of events: one call of compute_buffer from the state that stands for a timeline gives its values and a state that stands for the same timeline afterwards, at any block time, for all values and up to two pending events (composes over any number of quanta); sequences of three events are bounded histories; exp/pow uninterpreted with algebraic axioms"),
    P("P06", "An AudioParam's computed value is automation plus inputs, clamped",
      "The value a node sees for a parameter is, per frame, the automation value plus the sum of all signals connected to the parameter, clamped to the parameter's [minValue, maxValue]; NaN becomes the default value. A k-rate parameter takes the first frame for the whole quantum. Several connected signals add up. AudioParam.value reads back the clamped intrinsic value set last, or the one reached by the automation in the last rendered quantum, and setting it takes effect like setValueAtTime(now).",
      ["inputs", "configurations"], "all input signal values, all intrinsic values inside and outside the nominal range, both rates, up to two connected signals",
      "clamping and mixing apply per frame to arbitrary signals; tests use one or two constants",
      ["src/param.rs"],
      [("AudioParamProcessor::mix_to_output", "src/param.rs"), ("AudioParam::set_value / value", "src/param.rs")],
      files=["param.rs", "lib__param.rs"], contracts=["param_mix", "param_nan", "param_input", "param_automation_input", "param_fan_in", "param_readback", "param_nominal"], assumptions=["deps", "sequential"],
      bounds="histories of up to four quanta, mono input signals",
      level_note="one call of process for all sample and parameter values (at one frame both inside and outside of the range); fan-in, read back and set are bounded histories of up to 4 quanta"),
    P("P07", "Editing a parameter timeline gives the timeline the calls describe",
      "The order in which automation calls are made does not matter when their times differ; events with the same time keep the call order. cancelScheduledValues(t) removes every event with time >= t and nothing else, cancelAndHoldAtTime(t) keeps the value curve up to t and holds the value it has at t until the next event scheduled afterwards, which starts from there; holding again at a later time changes nothing. Automation called while rendering, between quanta, takes effect as scheduled, with the value reached so far as the starting point, and past automation is not replayed. Target approaches and curves that are followed by other events hold their end value.",
      ["histories", "inputs"], "call orders of up to three events, cancel times before, on and after every event, calls made between quanta, all values",
      "the result depends on the history of calls and on which events were already dropped by the renderer",
      ["src/param.rs"],
      [("AudioParamEventTimeline", "src/param.rs"), ("AudioParamProcessor::handle_incoming_event", "src/param.rs")],
      files=["param.rs", "lib__automation.rs"], contracts=["param_insert", "param_cancel", "param_hold", "timeline_order", "timeline_cancel", "timeline_hold", "timeline_hold_then", "timeline_live", "timeline_live_edit"], histories=["param_insert", "param_cancel", "param_hold"], level="other", assumptions=["deps", "sequential", "transcend"],
      bounds="up to four events within four quanta; cancelling inside a running value curve is not judged",
      level_note="bounded in the number of events: one incoming event against every timeline of two pending events of any kind, at any block time and for all values; histories of up to four events and 4 quanta are bounded"),
    P("P08", "Scheduled sources sound exactly from start time to stop time",
      "A scheduled source (ConstantSourceNode, OscillatorNode, AudioBufferSourceNode) outputs silence at every frame before its start time and from its stop time on, and its signal at every frame in between, frame accurately, wherever the times fall relative to quanta and frames. A start time between two frames does not shift the phase of the signal: it is the signal of a source started exactly then. A start in the past starts at once. Without start() nothing is heard, a stop before the start gives silence.",
      ["inputs", "schedules"], "start and stop times anywhere in three quanta including between frames, late calls from a suspended context, all signal values",
      "boundary frames depend on sub-sample times and quantum boundaries; tests use a few aligned times",
      ["src/node/constant_source.rs", "src/node/oscillator.rs", "src/node/audio_buffer_source.rs", "src/node/scheduled_source.rs"],
      [("ConstantSourceRenderer::process", "src/node/constant_source.rs"), ("OscillatorRenderer::process", "src/node/oscillator.rs"), ("AudioBufferSourceRenderer::process", "src/node/audio_buffer_source.rs")],
      files=["node/constant_source.rs", "node/oscillator.rs", "node/audio_buffer_source.rs", "lib__scheduled.rs"], contracts=["constant_step", "constant_drop", "osc_begin", "osc_end", "buffer_step_begin", "buffer_step_idle", "scheduled_start", "scheduled_stop", "scheduled_never", "scheduled_late"], assumptions=["deps", "sequential", "transcend"],
      bounds="three to four quanta; times on an eighth-of-frame cell or inside one",
      level_note="one call of process of each of the three renderers for any start and stop time relative to the quantum (all positions in time symbolic inside enumerated cells), state carried over checked; API contracts are bounded histories of up to 4 quanta"),
    P("P09", "AudioBufferSourceNode plays the buffer content it is told to",
      "The output at frame t is the buffer at the playhead position, which starts at the offset given to start() and advances by playbackRate * 2^(detune/1200) * buffer rate / context rate per frame: the exact sample on integer positions, linear interpolation between neighbouring samples otherwise. With a duration or at the buffer end the source stops; with loop on, the playhead wraps between loopStart and loopEnd in both directions. The ended event is sent exactly once, in the quantum after which nothing is left to play. Playback is not affected by quantum boundaries.",
      ["inputs", "configurations"], "all buffer contents, 1-2 channels, lengths around a quantum, offsets, durations, loop points, positive and negative rates, rate changes, buffers of another sample rate, sub-frame start times",
      "every combination of offset, duration, loop points, rate and start time takes another path through the fast and slow track",
      ["src/node/audio_buffer_source.rs"],
      [("AudioBufferSourceRenderer::process", "src/node/audio_buffer_source.rs")],
      files=["node/audio_buffer_source.rs", "lib__buffer_source.rs"], contracts=["buffer_step", "buffer_step_end", "buffer_step_copy", "buffer_step_begin", "buffer_step_idle", "buffer_messages", "buffer_plain", "buffer_offset", "buffer_start", "buffer_loop", "buffer_loop_points", "buffer_resample", "buffer_rate_change"], assumptions=["deps", "sequential"],
      bounds="up to four quanta, buffers up to 300 frames, rates from a fixed list of exactly representable ones",
      level_note="one call of process from an arbitrary playhead (inductive step over quanta: output, playhead, played time, loop and end state) for all sample values, positions / times symbolic inside enumerated eighth-of-frame cells, rates and loop regions from lists; API contracts are bounded histories of up to 4 quanta"),
    P("P10", "DelayNode outputs its input delayed by the requested time",
      "Each output channel at frame t is the input channel at t - delayTime * sampleRate, with linear interpolation between neighbouring frames, silence before the first input, per-frame delayTime values honoured, delayTime clamped to [0, maxDelayTime] and to at least one quantum inside a cycle. After the input ends the delayed tail is played completely and once. Changing channel counts do not drop or move samples.",
      ["inputs", "configurations", "histories"], "all input samples, delay times constant and per frame, zero / sub-frame / quantum-multiple / maximum delays, layouts changing between quanta, feedback loop",
      "the ring buffer position, block index and interpolation depend on history and on the exact delay",
      ["src/node/delay.rs"],
      [("DelayWriter::process", "src/node/delay.rs"), ("DelayReader::process", "src/node/delay.rs")],
      files=["node/delay.rs", "lib__delay.rs"], contracts=["delay_read", "delay_read_arate", "delay_read_end", "delay_write", "delay_fresh", "delay_const", "delay_arate", "delay_tail", "delay_layout", "delay_loop"], assumptions=["deps", "sequential", "normal"],
      bounds="up to six quanta, maximum delay up to three quanta",
      level_note="one call of the reader and of the writer from an arbitrary ring content and position (inductive step over quanta), all samples symbolic, delays symbolic inside enumerated cells; API contracts are bounded histories of up to 6 quanta"),
    P("P11", "GainNode and ConstantSourceNode compute their sample-wise formula",
      "GainNode outputs, for every channel and frame, input times the gain parameter's value at that frame, with the channel count of its input; unity, zero, constant and per-frame gains give the same result as the formula. ConstantSourceNode outputs its offset parameter's value at every frame while playing.",
      ["inputs"], "all input samples, 1-2 channels, all gain and offset values and per-frame gain signals",
      "shortcuts for gains of zero, one and constant gains depend on values; tests use few constants",
      ["src/node/gain.rs", "src/node/constant_source.rs"],
      [("GainRenderer::process", "src/node/gain.rs"), ("ConstantSourceRenderer::process", "src/node/constant_source.rs")],
      files=["node/gain.rs", "node/constant_source.rs", "lib__gain.rs"], contracts=["gain_step", "gain_step_arate", "constant_step", "gain_const", "gain_arate", "gain_gaps", "constant_source"], assumptions=["deps", "sequential"],
      bounds="two to three quanta, one or two channels",
      level_note="one call of process for all samples and parameter values (the renderers keep no other state than start / stop); API contracts are bounded histories of up to 3 quanta"),
    P("P12", "StereoPannerNode applies the equal-power panning law",
      "For mono input the output channels are input * cos(x*pi/2) and input * sin(x*pi/2) with x = (pan+1)/2; for stereo input, with x = pan+1 (pan <= 0) or pan, L' = L + R*cos(x*pi/2), R' = R*sin(x*pi/2) for pan <= 0 and L' = L*cos(x*pi/2), R' = R + L*sin(x*pi/2) for pan > 0, at every frame with that frame's pan value clamped to [-1, 1]. The output is always stereo.",
      ["inputs"], "all input samples, mono and stereo, all pan values, constant and per frame",
      "tests check a few pan positions",
      ["src/node/stereo_panner.rs"],
      [("StereoPannerRenderer::process", "src/node/stereo_panner.rs"), ("get_stereo_gains", "src/node/stereo_panner.rs")],
      files=["node/stereo_panner.rs", "lib__stereo_panner.rs"], contracts=["stereo_gains", "stereo_panner_step", "stereo_panner_step_arate", "stereo_panner_const", "stereo_panner_arate", "stereo_panner_gaps"], assumptions=["deps", "sequential", "transcend"],
      bounds="one to two quanta",
      level_note="one call of process for all samples and pan values (the renderer has no state); sin/cos table entries compared within 1e-3; API contracts are bounded histories"),
    P("P13", "BiquadFilterNode computes the specified second-order filter",
      "For every channel and frame the output is y = b0 x + b1 x1 + b2 x2 - a1 y1 - a2 y2 over the last two inputs and outputs of that channel, with the coefficients the Web Audio specification gives for the filter type and that frame's computed frequency * 2^(detune/1200) (clamped to [0, Nyquist]), Q and gain - including the limits at frequency 0 and Nyquist and at Q 0. The history of a channel survives quantum boundaries, silent input, parameter changes and other channels coming or going; when the input turns silent the filter rings on with all its channels until its history is zero and is silent from then on.",
      ["inputs", "histories", "configurations"], "all input samples and all filter histories over a full quantum, all eight types, all coefficients (frequency, Q, gain) in the coefficient contracts, constant and per-frame parameters, channel counts changing between quanta",
      "filter state is unbounded history; tests compare a few frequencies with reference renderings",
      ["src/node/biquad_filter.rs"],
      [("calculate_coefs", "src/node/biquad_filter.rs"), ("BiquadFilterRenderer::process", "src/node/biquad_filter.rs"), ("get_computed_freq", "src/node/biquad_filter.rs")],
      files=["node/biquad_filter.rs", "lib__filters.rs"], contracts=["biquad_coefs", "biquad_coefs_limits", "biquad_detune", "biquad_process", "biquad_process_arate", "biquad_process_tail", "biquad_process_channels", "biquad_api", "biquad_api_arate", "filter_gaps"], assumptions=["deps", "transcend", "normal"],
      bounds="process: every input and history of one quantum, parameter sets from a list (one value of one frame free for a-rate); coefficients: all parameter values; 1-3 channels",
      level_note="one call of process from an arbitrary history with arbitrary samples (inductive step over quanta), coefficients for all parameter values; sin/cos/pow uninterpreted; two API contracts are bounded histories"),
    P("P14", "IIRFilterNode computes the difference equation of its coefficients",
      "For every channel and frame, sum_k a_k y[n-k] = sum_k b_k x[n-k] with the feedforward coefficients b and feedback coefficients a given at construction (any lengths from 1 to 20, any non-zero a_0), from silence before the first input. The history of a channel survives quantum boundaries, silent input and other channels coming or going; when the input turns silent the filter rings on with all its channels until its history is zero and is silent from then on.",
      ["inputs", "histories", "configurations"], "all input samples and all past inputs and outputs over a full quantum, coefficient lists of different lengths, channel counts changing between quanta",
      "filter state is unbounded history; tests compare with reference renderings of few coefficient sets",
      ["src/node/iir_filter.rs"],
      [("IirFilterRenderer::new", "src/node/iir_filter.rs"), ("IirFilterRenderer::process / filter", "src/node/iir_filter.rs")],
      files=["node/iir_filter.rs", "lib__filters.rs"], contracts=["iir_new", "iir_process", "iir_process_tail", "iir_process_channels", "iir_api", "filter_gaps"], assumptions=["deps", "normal"],
      bounds="coefficient lists of up to four entries with enumerated values (symbolic in iir_new); every input and history of one quantum; 1-3 channels",
      level_note="one call of process from an arbitrary past with arbitrary samples, the state invariant re-established (inductive step over quanta); two API contracts are bounded histories"),
    P("P15", "WaveShaperNode applies its curve to every sample",
      "Without oversampling every output sample is the curve at v = (N-1)/2 * (x+1): linear interpolation between the curve points around v, the first point for x <= -1 and the last for x >= 1, with the input's channel count; without a curve the input passes unchanged, also when oversampling is requested (an empty curve gives silence). A curve that maps 0 to something else gives that offset also while the input is silent or has ended, as long as the node exists. With 2x / 4x oversampling the curve is applied to the up-sampled signal.",
      ["inputs", "configurations", "histories"], "all samples inside and outside [-1, 1], curves of length 1-5 with arbitrary points, silent / sounding quanta in any order, handles dropped or kept",
      "boundary values and the silence shortcut depend on curve and history; tests use few curves and inputs",
      ["src/node/waveshaper.rs"],
      [("apply_curve", "src/node/waveshaper.rs"), ("WaveShaperRenderer::process", "src/node/waveshaper.rs")],
      files=["node/waveshaper.rs", "lib__shaper.rs"], contracts=["shaper_curve", "shaper_process", "shaper_silence", "shaper_oversample", "shaper_api", "shaper_offset", "shaper_none"], assumptions=["deps", "sequential"],
      bounds="curves of up to five points; one sample of a block free at a time, all curve points free; oversampling: which samples are shaped, the resampler (rubato) itself is outside",
      level_note="apply_curve and process for arbitrary curve points and samples; API contracts are bounded histories of up to six quanta"),
    P("P16", "PannerNode places sound by distance, cone and direction",
      "For the equalpower model every output frame is the input frame times distance gain times cone gain, panned by the azimuth of the source, all computed from the values the positions and orientations of source and listener have at that very frame. Distance gains follow the linear, inverse and exponential formulas including equal, swapped and zero reference and maximum distances; the cone gain is 1 inside the inner angle (edges included), coneOuterGain outside the outer angle and linear in between; the azimuth is the angle to the listener's forward direction in the listener's horizontal plane, and 0 for degenerate directions. Left and right gains are the equal-power law with sources behind folded to the front; stereo input keeps both channels. No finite placement yields NaN. With the HRTF model a sound is followed by the full length of the head response, every time.",
      ["inputs", "configurations", "histories"], "all samples; positions and directions symbolic per coordinate, all distance-model parameters, all cone angles, each of the 15 coordinates moving per frame, sound and silence in any order",
      "three-dimensional geometry with many degenerate cases; tests check few positions",
      ["src/node/panner.rs", "src/spatial.rs"],
      [("PannerRenderer::process", "src/node/panner.rs"), ("dist_gain / cone_gain", "src/node/panner.rs"), ("azimuth_and_elevation / angle / distance", "src/spatial.rs"), ("AudioListener parameters", "src/spatial.rs")],
      files=["node/panner.rs", "spatial.rs", "lib__panner.rs"], contracts=["panner_distance", "panner_cone", "panner_gains", "panner_process", "panner_silence", "panner_hrtf_tail", "panner_messages", "spatial_distance", "spatial_azimuth", "spatial_azimuth_places", "spatial_angle", "panner_api", "panner_api_moving", "panner_api_listener", "panner_api_gaps", "panner_api_hrtf"], assumptions=["deps", "sequential", "transcend", "vecmath", "hrtf"],
      bounds="geometry: one coordinate free at a time over fixed frames of reference; process: enumerated placements with one coordinate moving, all samples free",
      level_note="gain, geometry and process contracts on the real functions for symbolic values; acos/sqrt axiomatised; API contracts are bounded histories; HRTF filtering itself is outside (its length and activation are checked)"),
    P("P17", "Channel splitter and merger route channels one to one",
      "ChannelSplitterNode output k is a mono signal equal to channel k of the input, silent for channels the input does not have. ChannelMergerNode channel k is the mono mix of its input k, silent when nothing is connected. Splitting and merging again gives back the original channels.",
      ["inputs", "configurations"], "all sample values, input layouts 1..=6 channels, subsets of connected inputs",
      "tests cover two channels with constants",
      ["src/node/channel_splitter.rs", "src/node/channel_merger.rs"],
      [("ChannelSplitterRenderer::process", "src/node/channel_splitter.rs"), ("ChannelMergerRenderer::process", "src/node/channel_merger.rs")],
      files=["node/channel_splitter.rs", "node/channel_merger.rs", "lib__channels.rs"], contracts=["splitter_step", "merger_step", "splitter", "merger", "split_merge", "routing_gaps"], assumptions=["deps", "sequential"],
      bounds="two quanta, up to six channels",
      level_note="one call of process for all samples and every layout (the renderers have no state); API contracts are bounded histories of 2 quanta"),
    P("P18", "AudioBuffer copies exactly the addressed frames and clones are independent",
      "copyFromChannel and copyToChannel transfer exactly max(0, min(length - offset, array length)) frames, for any offset including ones past the end, and leave every other frame, channel and array element as it was. Length, channel count, sample rate and duration are those given at construction; a new buffer is silent. A clone is an independent copy: writing to one, in whatever way, is never seen through another, and a node keeps playing the content its buffer had when it was set. Extending and splitting keep all frames in order. Resampling keeps the first and last frame, interpolates linearly in between and never yields NaN.",
      ["inputs", "configurations", "histories"], "all sample values, lengths 0..130 against offsets before, at and far past the end, up to three channels, sequences of writes to the original and two clones",
      "offsets and lengths form a product space with overflow corners; sharing of channel memory between clones depends on the history of writes",
      ["src/buffer.rs", "src/node/audio_buffer_source.rs"],
      [("AudioBuffer::copy_from_channel_with_offset", "src/buffer.rs"), ("AudioBuffer::copy_to_channel_with_offset", "src/buffer.rs"), ("ChannelData copy-on-write", "src/buffer.rs"), ("AudioBuffer::resample / extend / split_off", "src/buffer.rs"), ("AudioBufferSourceNode::set_buffer", "src/node/audio_buffer_source.rs")],
      files=["buffer.rs", "lib__buffer.rs"], contracts=["buffer_copy_from", "buffer_copy_to", "buffer_clone", "buffer_new", "buffer_join", "buffer_convert", "buffer_acquired", "buffer_copies", "buffer_rendered"], assumptions=["deps", "sequential"],
      bounds="lengths, offsets and rates from lists that contain every relation between them; all samples symbolic",
      level_note="function contracts on AudioBuffer for all sample values, sizes enumerated; three API contracts are bounded histories"),
    P("P19", "OfflineAudioContext renders exactly its length and suspends exactly on time",
      "Rendering gives exactly `length` frames of exactly the context's channels: the first frames of the endless signal at the destination, however the length relates to the quantum. A suspension at time t runs once, before the first quantum that starts at or after t is rendered, with current time equal to the start of that quantum; changes made there are heard from that quantum on and no frame is lost or repeated. Changes made by event handlers are heard from the quantum after the event. Suspensions that cannot happen (negative, at or past the end, two on the same quantum) are rejected. Rendering a second time is rejected. The state is running while rendering, suspended during a suspension and closed afterwards; statechange is sent for changes only, ended events before the result is complete, complete once with the result.",
      ["inputs", "schedules", "configurations"], "lengths around multiples of the quantum, suspend times anywhere incl. between frames and at sample rates with inexact quantum times, up to three suspensions in any order, sync and async interface, all signal values",
      "the quantum of a suspension depends on rounding of time to quanta; tests use a few frame-aligned times at one rate",
      ["src/context/offline.rs", "src/render/thread.rs"],
      [("OfflineAudioContext::start_rendering / start_rendering_sync", "src/context/offline.rs"), ("OfflineAudioContext::suspend / suspend_sync / resume", "src/context/offline.rs"), ("RenderThread::render_audiobuffer / render_audiobuffer_sync / render_offline_quantum", "src/render/thread.rs")],
      files=["lib__offline.rs"], contracts=["offline_length", "offline_suspend", "offline_suspend_rate", "offline_suspend_many", "offline_async", "offline_async_many", "offline_handler", "offline_events"], assumptions=["deps", "sequential"],
      bounds="up to four quanta, up to three suspensions, async interface polled on one thread",
      level_note="bounded: up to 4 quanta; all signal values and the suspend time inside enumerated cells symbolic"),
    P("P20", "The device callback gets the rendered signal without gaps or repeats",
      "Whatever buffer sizes an audio device asks for, the concatenated buffers are the consecutive frames of the rendered graph, interleaved, none lost, repeated or reordered; device channels the graph does not provide are silent. current_time is the number of quanta rendered so far. A control message takes effect at the next quantum boundary. While suspended, closed or without a graph the rest of every buffer is silent and time stands still; after resuming the signal continues exactly where it stopped. The state follows and statechange is sent once per change.",
      ["schedules", "histories", "configurations"], "every position within a quantum and every buffer size up to 300, device channels 1..6, control messages before any callback and in the middle of one, all signal values",
      "the leftover of a quantum makes the output depend on all earlier buffer sizes; tests do not drive the callback with changing sizes",
      ["src/render/thread.rs", "src/message.rs"],
      [("RenderThread::render_inner", "src/render/thread.rs"), ("RenderThread::handle_control_message", "src/render/thread.rs"), ("RenderThread::set_state", "src/render/thread.rs")],
      files=["render/thread.rs", "render/thread__channels.rs"], contracts=["callback_step", "callback_sizes", "callback_channels", "callback_messages", "callback_within"], histories=["callback_sizes", "callback_messages", "callback_within"], assumptions=["deps", "sequential"],
      bounds="buffers of up to 300 frames; messages: three callbacks with sizes from a list",
      level_note="callback_step: one call from every position within a quantum, every size up to 300, all samples symbolic (inductive over callbacks); message contracts are histories of three callbacks; f32 device samples, one thread"),
    P("P21", "OscillatorNode plays its waveform with continuous phase",
      "While playing, frame n is the waveform at the phase that started at 0 and advanced by frequency * 2^(detune/1200) / sampleRate per frame with that frame's parameter values, in either direction, across quantum boundaries, without drift and always inside one period: sine, triangle, square and sawtooth (rising phases of the latter two smoothed within one frame of their steps only) or the periodic wave. Frames whose frequency is at or beyond Nyquist are silent while the phase moves on. Changing type or wave while playing takes the new shape at the phase reached. The ended event is sent once.",
      ["inputs", "histories", "configurations"], "all phases, per-frame frequency and detune, all types, negative, zero and out-of-range frequencies, type and wave changes while playing",
      "the phase accumulates over an unbounded history; tests compare single blocks at fixed frequencies",
      ["src/node/oscillator.rs", "src/periodic_wave.rs"],
      [("OscillatorRenderer::process / generate_sample", "src/node/oscillator.rs"), ("OscillatorRenderer::generate_* / poly_blep / unroll_phase", "src/node/oscillator.rs"), ("get_computed_freq", "src/node/oscillator.rs")],
      files=["node/oscillator.rs", "node/oscillator__parts.rs", "periodic_wave.rs", "lib__oscillator.rs"], contracts=["osc_step", "osc_step_arate", "osc_begin", "osc_end", "osc_messages", "osc_waveform", "osc_table", "osc_frequency", "osc_api", "osc_api_arate", "osc_api_change"], assumptions=["deps", "transcend"],
      bounds="frequencies in one quantum from a list, one per-frame frequency free; octave detunes (the factor 2^(detune/1200) for all detunes in osc_frequency)",
      level_note="one call of process from an arbitrary phase (inductive step over quanta) and the waveform functions for all phases and increments; API contracts are bounded histories of 3 quanta"),
    P("P22", "PeriodicWave is the Fourier series of its coefficients",
      "A periodic wave is the sum over all given harmonics k >= 1 of real[k] cos(2 pi k x) + imag[k] sin(2 pi k x), the constant term ignored, missing arrays read as zeros and no arrays at all giving a sine. With normalization the same shape is scaled to a maximum absolute value of 1, whatever the scale of the coefficients, all-zero coefficients giving silence; without it the coefficients apply as they are.",
      ["inputs"], "all coefficient values, up to six harmonics, with and without normalization",
      "tests check single harmonics",
      ["src/periodic_wave.rs"],
      [("PeriodicWave::new", "src/periodic_wave.rs"), ("PeriodicWave::generate_wavetable / normalize", "src/periodic_wave.rs")],
      files=["periodic_wave.rs", "lib__oscillator.rs"], contracts=["wave_table", "wave_normalize", "wave_new", "osc_api_wave", "osc_api_normalized"], assumptions=["deps", "transcend"],
      bounds="two to six coefficients; normalization: tables of up to four entries symbolic, rendered waves enumerated",
      level_note="table and normalization functions for all coefficient values; API contracts are bounded histories"),
    P("P23", "ConvolverNode outputs the linear convolution with its impulse response",
      "Frame n of the output is sum_k h[k] x[n-k] over the whole input so far: a mono response applied to each input channel, a stereo response left to left and right to right, a four channel response as the 2x2 matrix LL, LR, RL, RR; the scale is that of the buffer, normalized to equal power by the specified formula unless disabled. Silence, gaps and changes between mono and stereo input neither cut nor shift the response: it is played to its end, after the input has ended and the handle is dropped, and only then is the node silent. Without a response the input passes unchanged. A new response applies from the next quantum on, the buffer's content as it was when set.",
      ["inputs", "histories", "configurations"], "all signal and response values, 1, 2 and 4 channel responses shorter and longer than a quantum, mono, stereo and silent quanta in any order, normalization on and off, buffers replaced while playing",
      "the output depends on the whole past of the input and of its layout; tests convolve one constant block",
      ["src/node/convolver.rs"],
      [("ConvolverRenderer::process", "src/node/convolver.rs"), ("normalize_buffer", "src/node/convolver.rs"), ("ConvolverNode::set_buffer / set_normalize", "src/node/convolver.rs")],
      files=["node/convolver.rs", "lib__convolver.rs"], contracts=["convolver_step", "convolver_tail", "convolver_none", "convolver_scale", "convolver_api", "convolver_api_gaps", "convolver_api_normalize", "convolver_api_replace"], histories=["convolver_tail"], assumptions=["deps", "fft", "transcend"],
      bounds="responses of up to 300 frames; convolver_step follows one quantum of arbitrary past; API contracts up to five quanta",
      level_note="process after an arbitrary past quantum for all samples, on top of the assumed contract of the fft-convolver dependency (direct convolution); tail and API contracts are bounded histories"),
    P("P24", "DynamicsCompressorNode applies its curve, envelope and look-ahead delay",
      "The output is the input delayed by 6 ms rounded up to whole quanta, times one gain for all channels: the make-up gain (0.6 of the gain that brings full scale back to full scale) minus the envelope, both in dB. The envelope follows the difference between the level of the loudest channel and the compression curve (linear below threshold - knee/2, quadratic knee, slope 1/ratio above) with the attack time constant while rising and the release time constant while falling, continuing across quanta. reduction is the gain of the last frame. With ratio 1 the node only delays. The delayed signal is played to its end before the node is released.",
      ["inputs", "histories", "configurations"], "all sample values around and beyond the knee, envelope states of any size, four parameter settings incl. no knee and ratio 1, mono and stereo input, gaps, automation while playing",
      "gain depends on the whole past through the envelope; tests only check construction and the delay",
      ["src/node/dynamics_compressor.rs"],
      [("DynamicsCompressorRenderer::process", "src/node/dynamics_compressor.rs"), ("db_to_lin / lin_to_db", "src/node/dynamics_compressor.rs")],
      files=["node/dynamics_compressor.rs", "lib__compressor.rs"], contracts=["compressor_curve", "compressor_detector", "compressor_delay", "compressor_tail", "compressor_units", "compressor_api", "compressor_api_linear", "compressor_api_automated"], histories=["compressor_delay", "compressor_tail"], assumptions=["deps", "transcend", "normal"],
      bounds="one free sample at a time, parameter settings from a list of four; delay and API contracts up to six quanta",
      level_note="process from an arbitrary envelope value and for an arbitrary level of one frame (inductive over frames); the other frames of the block concrete; API contracts are bounded histories"),
    P("P25", "AnalyserNode reports the latest signal, its spectrum and passes input through",
      "The node's output is its input, channels included. Time domain data are the last fftSize frames up to and including the last rendered quantum, down-mixed to mono, in order, silent quanta counting as silence; byte data are 128(1+x) clipped to 0..255 and rounded down. Frequency data are 20 log10 of the magnitudes of the Blackman-windowed transform of those frames divided by fftSize, smoothed with the previous result by smoothingTimeConstant, once per render quantum however often they are read, for the current fftSize; byte data scale minDecibels..maxDecibels to 0..255 with clipping. Array elements beyond the data are left alone. fftSize, smoothing and decibel range accept exactly the specified values, rejected ones change nothing.",
      ["inputs", "histories", "configurations"], "all sample values, every write position of the ring buffer, all fft sizes for time data, small ones for spectra, arrays shorter and longer than the data, repeated reads within and across quanta, size changes in between",
      "the window slides over a ring buffer of unbounded history and smoothing depends on when data was read; tests look at single reads",
      ["src/analysis.rs", "src/node/analyser.rs"],
      [("AnalyserRingBuffer::write / read", "src/analysis.rs"), ("Analyser::get_*_data / compute_fft", "src/analysis.rs"), ("AnalyserRenderer::process", "src/node/analyser.rs")],
      files=["analysis.rs", "node/analyser.rs", "lib__analyser.rs"], contracts=["analyser_ring", "analyser_time", "analyser_spectrum", "analyser_bytes", "analyser_same_quantum", "analyser_sizes", "analyser_window", "analyser_settings", "analyser_step", "analyser_api_time", "analyser_api_frequency", "analyser_api_settings"], assumptions=["deps", "realfft", "transcend", "normal"],
      bounds="spectra: fft size 32 to 128, one free sample; bytes of a spectrum for levels given in dB",
      level_note="ring buffer from every write position, reads and spectra for all values, on top of the assumed contract of realfft (discrete Fourier transform); API contracts are bounded histories of three quanta"),
    P("P26", "ScriptProcessorNode exchanges every buffer exactly once and in order",
      "The input is cut into consecutive buffers of bufferSize frames, mixed to the input channels; each gives one audioprocess event, in order, with a silent output buffer of the output channels and the time at which its output will be played. What the handler leaves in that output buffer is played once, two buffers after the input began, in order, and silence where no reply came in time. Handlers set, replaced or cleared take effect with the next event. Buffer sizes and channel counts other than the specified ones are rejected.",
      ["inputs", "schedules", "configurations"], "all sample values, buffer sizes 256 and 512, channel combinations incl. zero inputs or outputs, replies missing or late, handlers changed while running",
      "needs several buffers of history and the order of events and replies; tests run one buffer with constant signals",
      ["src/node/script_processor.rs", "src/events.rs"],
      [("ScriptProcessorRenderer::process / onmessage", "src/node/script_processor.rs"), ("AudioProcessingEvent drop", "src/events.rs"), ("ScriptProcessorNode::set_onaudioprocess", "src/node/script_processor.rs")],
      files=["node/script_processor.rs", "lib__script.rs"], contracts=["script_step", "script_late", "script_api", "script_api_handlers", "script_api_arguments"], histories=["script_step", "script_late"], assumptions=["deps", "sequential"],
      bounds="up to six buffers of 256 or 512 frames", level="other",
      level_note="bounded: histories of up to six buffers; all samples symbolic"),
    P("P27", "Audio worklets get exactly their inputs, parameters and messages",
      "A worklet's processor is constructed once on the render thread with its options, and called once per quantum with all inputs in order, each with the channels its connections give (a silent channel when unconnected), output buffers of the configured channel counts (for one input and output without configuration: as many as the input), each declared parameter under its name with its automation values, initial values from parameterData, and the frame, time and sample rate of the quantum. What it writes is the node's output; its return value decides about its lifetime. Messages sent through the port arrive in order, before the next quantum and before the first process call, those posted by the processor reach the handler of that node only. A panic silences that node only and gives one error event. Invalid options are rejected.",
      ["inputs", "configurations", "schedules"], "all sample and parameter values, 0 to 2 inputs and outputs, dynamic and fixed output channels, messages before and while rendering, panics in any quantum",
      "user code relies on the layout of nested slices built with raw pointers from changing channel counts; tests use one layout",
      ["src/worklet.rs", "src/message_port.rs", "src/render/processor.rs"],
      [("AudioWorkletRenderer::process", "src/worklet.rs"), ("AudioWorkletNode::new", "src/worklet.rs"), ("MessagePort", "src/message_port.rs"), ("AudioWorkletGlobalScope", "src/render/processor.rs")],
      files=["worklet.rs", "lib__worklet.rs"], contracts=["worklet_step", "worklet_params", "worklet_messages", "worklet_api", "worklet_api_params", "worklet_api_port", "worklet_api_panic", "worklet_api_arguments"], histories=["worklet_messages"], assumptions=["deps", "sequential"],
      bounds="up to two inputs, outputs and parameters, up to three channels",
      level_note="calls of process for all values and every small layout; API contracts are bounded histories of up to four quanta"),
    P("P28", "Invalid arguments are rejected by the call and change nothing",
      "Every call accepts exactly the arguments the Web Audio specification allows: channel counts 1 to 32, at least one frame, sample rates from 3000 to 768000 Hz; finite non-negative times, offsets, durations and time constants; finite automation values, non-zero targets of exponential ramps, value curves of at least two finite points and positive duration; automation rates that are not fixed; channel counts, modes and interpretations within each node's constraints, in constructors and setters alike; existing input and output ports and connections within one context; start before stop and once, one buffer or curve per node; the ranges of delay, IIR, panner, convolver, splitter, merger and wave options. Anything else panics in the calling thread, and after a rejected call the node, its attributes, its parameters and the rendered output are as if the call had not been made.",
      ["inputs", "configurations"], "all values of each numeric argument incl. NaN and infinities, borders of every range, all node types, calls out of order",
      "dozens of independent range checks on a product of nodes and setters, and atomicity of rejection needs the state afterwards; tests check single values that panic",
      ["src/lib.rs", "src/param.rs", "src/node/audio_node.rs", "src/context/base.rs", "src/node"],
      [("assert_valid_*", "src/lib.rs"), ("AudioParam methods", "src/param.rs"), ("AudioNode::connect* / disconnect* / set_channel_*", "src/node/audio_node.rs"), ("constructors and setters", "src/node")],
      files=["lib__arguments.rs"], contracts=["args_context", "args_rate", "args_times", "args_order", "args_param_value", "args_param_time", "args_curve", "args_curve_overlap", "args_rate_constraint", "args_channels", "args_mode", "args_channels_new", "args_delay", "args_iir", "args_panner", "args_analyser", "args_convolver", "args_ports", "args_wave", "args_connect", "args_disconnect", "args_foreign"],
      functions=["args_context", "args_rate", "args_rate_constraint", "args_channels", "args_mode", "args_channels_new", "args_delay", "args_iir", "args_panner", "args_convolver", "args_ports", "args_wave"], assumptions=["deps", "sequential"],
      bounds="numeric arguments symbolic over an interval that contains the borders, plus NaN and infinities; counts from lists that contain the borders; output compared for one or two quanta",
      level_note="function contracts on constructors and setters for all values of the numeric arguments, sizes and counts enumerated around the borders; the contracts that render afterwards are bounded to two quanta. One known finding (KF2)"),
    P("P29", "getFrequencyResponse is the response of the filter that is rendered",
      "For every requested frequency f in [0, Nyquist] the reported magnitude and phase are |H| and arg H at e^(j 2 pi f / sampleRate) of the transfer function whose difference equation the BiquadFilterNode (with the current frequency, detune, Q and gain values) or IIRFilterNode applies to its input. Frequencies outside of [0, Nyquist] and only those give NaN for magnitude and phase, each entry independent of the others.",
      ["inputs", "configurations"], "eight filter types with parameter lists, coefficient lists of different lengths, frequencies inside, on and outside the borders",
      "the response is computed by code separate from the filter; tests compare a few magnitudes",
      ["src/node/biquad_filter.rs", "src/node/iir_filter.rs"],
      [("BiquadFilterNode::get_frequency_response", "src/node/biquad_filter.rs"), ("IIRFilterNode::get_frequency_response", "src/node/iir_filter.rs")],
      files=["lib__filters.rs"], contracts=["biquad_response", "iir_response", "response_range"], assumptions=["deps", "transcend"],
      bounds="enumerated filters, six frequencies each; frequencies outside the range symbolic",
      level_note="bounded: enumerated parameter sets and frequencies evaluated within 1e-3; only the range contract is symbolic"),
    P("P30", "Events reach exactly the handler in effect, once and in order",
      "Every event is handled once, in the order sent, by the handler registered for its type and node when its turn comes, and by no other; without one it is dropped. Setting a handler replaces the previous one, clearing removes it, a one-time handler runs at most once; all of this holds for calls made before, between and inside handlers, a handler replacing or clearing itself included. Events of one node or type never reach another's handler. Handling ends with the event that closes the context. Each scheduled source gives one ended event; state changes of a context one statechange event each.",
      ["histories", "schedules"], "up to three events with set, replace and clear calls between and inside handlers, all event types, two nodes, one-time and persistent handlers, suspensions while rendering",
      "depends on the order of calls and events, including calls made by a running handler; tests set one handler and wait for it",
      ["src/events.rs", "src/context/concrete_base.rs"],
      [("EventLoop::handle_event / handle_pending_events", "src/events.rs"), ("EventLoop::set_handler / clear_handler", "src/events.rs")],
      files=["events.rs", "lib__events.rs"], contracts=["event_history", "event_kinds", "event_close", "events_ended", "events_state", "events_handlers"], histories=["event_history"], assumptions=["deps", "sequential"],
      bounds="three events with one call before each and one action inside handlers",
      level_note="event_kinds and event_close: one event against every handler table of the enumerated size; histories of three events; one thread"),
    P("P31", "Control and render thread agree under every interleaving",
      "Whatever the interleaving of calls made on several control threads with the render thread, every message is applied once, messages of one thread in order, node ids are recycled only when no message can refer to them any more, and no thread blocks another for ever.",
      ["schedules"], "all interleavings of control threads, render thread and event thread",
      "interleavings cannot be enumerated by running tests",
      ["src/context/concrete_base.rs", "src/render/thread.rs", "src/render/node_collection.rs"],
      [("ConcreteBaseAudioContext message channel", "src/context/concrete_base.rs"), ("RenderThread message handling", "src/render/thread.rs"), ("NodeCollection id reuse", "src/render/node_collection.rs")],
      na="needs a concurrency model (interleavings of real threads, atomics, channels of crossbeam and the lock-free queue llq). The VC generator executes one thread at a time, no verifier for concurrent Rust is installed, and a contract stating the outcome for one fixed order would decide a different property; the sequential part is decided by P03, P04, P19 and P20."),
    P("P32", "Decoded audio has the content and sample rate of the encoded file",
      "decodeAudioData gives the frames and channels of the encoded stream, resampled to the context's rate, for every container and codec supported, and an error for anything else.",
      ["inputs"], "all files of the supported formats, truncated and corrupt ones",
      "the space of files is unbounded",
      ["src/decoding.rs"],
      [("MediaDecoder", "src/decoding.rs")],
      na="the behaviour is that of the symphonia decoders; this repository only moves the decoded planes into an AudioBuffer. Contracts on the glue would assume the decoders and say nothing a user relies on; the resampling is under contract in P18."),
    P("P33", "Media streams carry every frame once and in order",
      "A track asks its provider for each buffer once, when the first consumer needs it; every consumer sees buffers in order and none twice, one that is late or joins later continuing with the latest. Errors take their place in the sequence, and after the provider's end or close the track is ended for all consumers. A source node plays the frames of the buffers back to back, resampled to the context's rate where theirs differs, whatever their lengths, padded with silence after the last one, with the channels of the stream. A stream destination offers each rendered quantum, in full, once; a quantum not read before the next one is replaced by it.",
      ["inputs", "histories", "configurations"], "all sample values, buffers of 1 to 400 frames against the quantum, remainders of any size up to two outputs, mono and stereo, errors and ends anywhere, two or three consumers in any order",
      "chunk sizes and remainders form a product space; tests feed one buffer size",
      ["src/media_streams/mod.rs", "src/resampling.rs", "src/node/mod.rs", "src/node/media_stream_source.rs", "src/node/media_stream_track_source.rs", "src/node/media_stream_destination.rs"],
      [("MediaStreamTrackIter::next", "src/media_streams/mod.rs"), ("Resampler::next", "src/resampling.rs"), ("MediaStreamRenderer::process", "src/node/mod.rs"), ("DestinationRenderer::process", "src/node/media_stream_destination.rs")],
      files=["media_streams/mod.rs", "resampling.rs", "node/mod.rs", "node/media_stream_destination.rs", "lib__media.rs"], contracts=["track_order", "track_shared", "resampler_step", "resampler_rate", "resampler_error", "stream_step", "stream_destination", "media_source", "media_shared", "media_destination"], histories=["track_order", "track_shared", "resampler_rate", "resampler_error", "stream_destination"], assumptions=["deps", "sequential"],
      bounds="resampler: outputs of 5 frames, up to three input buffers of up to 12 frames; tracks: three buffers; API contracts four quanta",
      level_note="one call of Resampler::next from every remainder (nothing lost, inductive over calls) and of the stream renderer for all samples; the others are bounded histories; streams of a constant channel count, one thread"),
    P("P34", "Load and underrun statistics describe exactly the callbacks they cover",
      "The counters behind render capacity and playback statistics are the sums over all callbacks: number, time spent, time available, callbacks that took longer than available, by how much, and uninterrupted sequences of such callbacks. Latency statistics are number, sum, minimum and maximum of the valid latencies since the last reset, which keeps the latest. The event made of two successive snapshots covers the callbacks between them only: average load is time spent over time available, the peak is that of the period, the underrun ratio that of its callbacks, rounded to hundredths, the ratio upwards.",
      ["inputs", "histories"], "sequences of up to four callbacks with durations around the budget, latencies incl. invalid ones with resets between, all time stamps and peaks",
      "sequences of late callbacks and differences between snapshots depend on history; tests check two sequences",
      ["src/stats.rs", "src/capacity.rs"],
      [("AudioStats::record_render_callback / record_latency_seconds / reset_latency", "src/stats.rs"), ("render_capacity_event", "src/capacity.rs")],
      files=["stats.rs", "stats__parts.rs", "capacity.rs"], contracts=["stats_step", "stats_callbacks", "stats_latency", "stats_peak", "capacity_event", "capacity_rounding"], histories=["stats_step", "stats_callbacks", "stats_latency", "stats_peak", "capacity_event"], assumptions=["deps", "sequential"],
      bounds="durations and latencies from lists around the limits, histories of up to five callbacks", level="other",
      level_note="bounded: integer inputs enumerated around the limits; only time stamps, peaks and rounding are symbolic. The reporting thread that takes the snapshots is not under contract"),
    P("P35", "Media elements and the recorder carry every frame once",
      "Every frame of a media file reaches its source node once and in order, and a recording contains every frame of the recorded stream.",
      ["histories", "schedules"], "all files and schedules of producer and consumer threads",
      "needs the timing of two threads",
      ["src/media_element.rs", "src/media_recorder", "src/node/media_element_source.rs"],
      [("RTSStream::next", "src/media_element.rs"), ("MediaRecorder::start", "src/media_recorder/mod.rs")],
      na="reading files (creek) and recording run on their own threads; frames go through bounded channels that drop data by design when the other side is late, and the wav encoder (hound) takes machine floats that the symbolic rewriting cannot pass. Which frames survive is a matter of scheduling, outside of sequential contracts; the streams between them are decided by P33."),
    P("P36", "Nodes are created with the given options or the specified defaults",
      "Every node made by a create method or constructor has the number of inputs and outputs, the channel configuration and the parameters (default, range, automation rate) of the specification. Options given to a constructor are what the getters return and are in effect from the first frame; options not given have their defaults. A setter changes the attribute it names and no other.",
      ["inputs", "configurations"], "all node types, all values of every numeric option within its range, all channel configurations a node accepts",
      "about a hundred options and attributes times their values; tests look at a few values of some nodes",
      ["src/node", "src/context/base.rs", "src/param.rs", "src/spatial.rs"],
      [("constructors and option defaults", "src/node/*.rs"), ("BaseAudioContext::create_*", "src/context/base.rs"), ("AudioNode::set_channel_*", "src/node/audio_node.rs")],
      files=["lib__options.rs"], contracts=["options_defaults", "options_params", "options_channels", "options_attributes", "options_in_effect"], functions=["options_defaults", "options_params", "options_channels", "options_attributes"], assumptions=["deps", "sequential"],
      bounds="one option symbolic at a time; channel counts 1, 2, 7, 32; one quantum rendered",
      level_note="constructors and setters are called directly with all values of an option (one call, no history); only options_in_effect is a rendering"),
]

NA = []
