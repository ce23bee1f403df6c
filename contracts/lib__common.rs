// Helpers shared by the contract modules (always compiled in).
use crate::context::AudioNodeId;
use crate::node::{ChannelConfigInner, ChannelCountMode, ChannelInterpretation};
use crate::render::{Alloc, AudioRenderQuantum, AudioRenderQuantumChannel, AudioWorkletGlobalScope};
use crate::RENDER_QUANTUM_SIZE;
use symrt::*;

pub(crate) const N: usize = RENDER_QUANTUM_SIZE;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![]
}

/// a block of arbitrary samples in [-1, 1]
pub(crate) fn any_block(name: &str) -> Vec<f32> {
    (0..N).map(|i| any(&format!("{}[{}]", name, i), -1, 1)).collect()
}

/// a block with arbitrary samples at a few positions only (cheaper where frames are independent)
pub(crate) fn sparse_block(name: &str, at: &[usize]) -> Vec<f32> {
    (0..N)
        .map(|i| if at.contains(&i) { any(&format!("{}[{}]", name, i), -1, 1) } else { 0.125 })
        .collect()
}

/// channel holding the given samples
pub(crate) fn channel(alloc: &Alloc, data: &[f32]) -> AudioRenderQuantumChannel {
    let mut c = alloc.silence();
    c.copy_from_slice(data);
    c
}

pub(crate) fn quantum(alloc: &Alloc, chans: Vec<AudioRenderQuantumChannel>) -> AudioRenderQuantum {
    let mut it = chans.into_iter();
    let mut q = AudioRenderQuantum::from(it.next().unwrap());
    for (i, c) in it.enumerate() {
        q.set_number_of_channels(i + 2);
        *q.channel_data_mut(i + 1) = c;
    }
    q
}

/// block with `ch` channels of arbitrary samples
pub(crate) fn any_quantum(alloc: &Alloc, name: &str, ch: usize) -> (AudioRenderQuantum, Vec<Vec<f32>>) {
    let data: Vec<Vec<f32>> = (0..ch).map(|c| any_block(&format!("{}{}", name, c))).collect();
    let q = quantum(alloc, data.iter().map(|d| channel(alloc, d)).collect());
    (q, data)
}

pub(crate) fn values(q: &AudioRenderQuantum) -> Vec<Vec<f32>> {
    q.channels().iter().map(|c| c.iter().cloned().collect()).collect()
}

/// frame-wise equality of two multi-channel blocks
pub(crate) fn check_block(name: &str, got: &[Vec<f32>], want: &[Vec<f32>]) {
    check(&format!("{}: channel count", name), got.len() == want.len());
    for (g, w) in got.iter().zip(want) {
        check(&format!("{}: frame count", name), g.len() == w.len());
        for (a, b) in g.iter().zip(w) {
            check_eq(&format!("{}: every frame", name), *a, *b);
        }
    }
}

pub(crate) fn config(count: usize, mode: ChannelCountMode, interp: ChannelInterpretation) -> ChannelConfigInner {
    ChannelConfigInner { count, count_mode: mode, interpretation: interp }
}

pub(crate) fn pick_mode() -> ChannelCountMode {
    match pick("mode", 0, 2) {
        0 => ChannelCountMode::Max,
        1 => ChannelCountMode::ClampedMax,
        _ => ChannelCountMode::Explicit,
    }
}

pub(crate) fn pick_interp() -> ChannelInterpretation {
    if pick_bool("speakers") {
        ChannelInterpretation::Speakers
    } else {
        ChannelInterpretation::Discrete
    }
}

/// W3C Web Audio, section "Channel up-mixing and down-mixing", one frame
pub(crate) fn spec_mix(x: &[f32], n: usize, interp: ChannelInterpretation) -> Vec<f32> {
    let m = x.len();
    if m == n {
        return x.to_vec();
    }
    let h = 0.5f32.sqrt();
    let sp = interp == ChannelInterpretation::Speakers;
    match (m, n) {
        (1, 2) if sp => vec![x[0], x[0]],
        (1, 4) if sp => vec![x[0], x[0], 0., 0.],
        (1, 6) if sp => vec![0., 0., x[0], 0., 0., 0.],
        (2, 4) if sp => vec![x[0], x[1], 0., 0.],
        (2, 6) if sp => vec![x[0], x[1], 0., 0., 0., 0.],
        (4, 6) if sp => vec![x[0], x[1], 0., 0., x[2], x[3]],
        // not in the W3C table, documented by the implementation as an extension
        (4, 5) if sp => vec![x[0], x[1], 0., x[2], x[3]],
        (2, 1) if sp => vec![0.5 * (x[0] + x[1])],
        (4, 1) if sp => vec![0.25 * (x[0] + x[1] + x[2] + x[3])],
        (6, 1) if sp => vec![h * (x[0] + x[1]) + x[2] + 0.5 * (x[4] + x[5])],
        (4, 2) if sp => vec![0.5 * (x[0] + x[2]), 0.5 * (x[1] + x[3])],
        (6, 2) if sp => vec![x[0] + h * (x[2] + x[4]), x[1] + h * (x[2] + x[5])],
        (6, 4) if sp => vec![x[0] + h * x[2], x[1] + h * x[2], x[4], x[5]],
        _ => (0..n).map(|i| if i < m { x[i] } else { 0. }).collect(),
    }
}

pub(crate) fn spec_mix_block(x: &[Vec<f32>], n: usize, interp: ChannelInterpretation) -> Vec<Vec<f32>> {
    let mut out = vec![vec![]; n];
    for i in 0..x[0].len() {
        let f: Vec<f32> = x.iter().map(|c| c[i]).collect();
        for (o, v) in out.iter_mut().zip(spec_mix(&f, n, interp)) {
            o.push(v);
        }
    }
    out
}

pub(crate) fn sum_block(a: &[Vec<f32>], b: &[Vec<f32>]) -> Vec<Vec<f32>> {
    a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| *p + *q).collect()).collect()
}

pub(crate) fn scope(frame: u64, sample_rate: f32) -> (AudioWorkletGlobalScope, crossbeam_channel::Receiver<crate::events::EventDispatch>) {
    let (s, r) = crossbeam_channel::unbounded();
    let scope = AudioWorkletGlobalScope {
        current_frame: frame,
        current_time: frame as f64 / sample_rate as f64,
        sample_rate,
        node_id: std::cell::Cell::new(AudioNodeId(42)),
        event_sender: s,
    };
    (scope, r)
}

// ------------------------------------------------------------------ public API level

use crate::context::{BaseAudioContext, OfflineAudioContext};
use crate::node::{AudioNode, AudioScheduledSourceNode};

/// a power of two: frame times are exact in binary arithmetic
pub(crate) const SR: f32 = 32768.;

/// offline context
pub(crate) fn ctx(channels: usize, frames: usize) -> OfflineAudioContext {
    OfflineAudioContext::new(channels, frames, SR)
}

pub(crate) fn render(mut c: OfflineAudioContext) -> Vec<Vec<f32>> {
    let b = c.start_rendering_sync();
    (0..b.number_of_channels()).map(|i| b.get_channel_data(i).to_vec()).collect()
}

/// arbitrary multi-channel signal of `frames` frames
/// arbitrary positive samples: a sum of them is never zero
pub(crate) fn pos_signal(name: &str, ch: usize, frames: usize) -> Vec<Vec<f32>> {
    (0..ch)
        .map(|c| (0..frames).map(|i| any(&format!("{}{}[{}]", name, c, i), 0.01, 1)).collect())
        .collect()
}

pub(crate) fn any_signal(name: &str, ch: usize, frames: usize) -> Vec<Vec<f32>> {
    (0..ch)
        .map(|c| (0..frames).map(|i| any(&format!("{}{}[{}]", name, c, i), -1, 1)).collect())
        .collect()
}

// ---- test bench: a node that emits given blocks and a node that records what it is fed

use crate::context::AudioContextRegistration;
use crate::node::{AudioNodeOptions, ChannelConfig};
use crate::render::{AudioParamValues, AudioProcessor};
use std::sync::{Arc, Mutex};

/// one quantum of a multi-channel signal, no channels = silence
pub(crate) type Block = Vec<Vec<f32>>;

pub(crate) struct Bench {
    registration: AudioContextRegistration,
    channel_config: ChannelConfig,
    inputs: usize,
    outputs: usize,
}

impl AudioNode for Bench {
    fn registration(&self) -> &AudioContextRegistration {
        &self.registration
    }
    fn channel_config(&self) -> &ChannelConfig {
        &self.channel_config
    }
    fn number_of_inputs(&self) -> usize {
        self.inputs
    }
    fn number_of_outputs(&self) -> usize {
        self.outputs
    }
}

struct Feeder {
    blocks: Vec<Block>,
    at: usize,
}

impl AudioProcessor for Feeder {
    fn process(&mut self, _i: &[AudioRenderQuantum], outputs: &mut [AudioRenderQuantum], _p: AudioParamValues<'_>, _s: &AudioWorkletGlobalScope) -> bool {
        let o = &mut outputs[0];
        if self.at >= self.blocks.len() || self.blocks[self.at].is_empty() {
            o.make_silent();
        } else {
            let b = &self.blocks[self.at];
            o.set_number_of_channels(b.len());
            for (i, c) in b.iter().enumerate() {
                o.channel_data_mut(i).copy_from_slice(c);
            }
        }
        self.at += 1;
        self.at < self.blocks.len()
    }
}

/// node that emits the given quanta, one after the other, then silence
pub(crate) fn feed(c: &impl BaseAudioContext, blocks: Vec<Block>) -> Bench {
    c.base().register(move |registration| {
        let n = Bench { registration, channel_config: AudioNodeOptions::default().into(), inputs: 0, outputs: 1 };
        (n, Box::new(Feeder { blocks, at: 0 }))
    })
}

/// like `feed`, for a signal of any length cut into quanta
pub(crate) fn feed_signal(c: &impl BaseAudioContext, x: &[Vec<f32>]) -> Bench {
    feed(c, cut(x))
}

pub(crate) fn cut(x: &[Vec<f32>]) -> Vec<Block> {
    let n = x[0].len();
    (0..n.div_ceil(N))
        .map(|q| {
            x.iter()
                .map(|c| (q * N..(q + 1) * N).map(|i| if i < n { c[i] } else { 0. }).collect())
                .collect()
        })
        .collect()
}

/// what a recording node was fed: per quantum, per input
pub(crate) type Tape = Arc<Mutex<Vec<Vec<Block>>>>;

struct Recorder {
    tape: Tape,
}

impl AudioProcessor for Recorder {
    fn process(&mut self, inputs: &[AudioRenderQuantum], outputs: &mut [AudioRenderQuantum], _p: AudioParamValues<'_>, _s: &AudioWorkletGlobalScope) -> bool {
        self.tape.lock().unwrap().push(inputs.iter().map(values).collect());
        outputs[0].make_silent();
        true
    }
    fn has_side_effects(&self) -> bool {
        true
    }
}

/// node that records its inputs exactly as it gets them
pub(crate) fn record(c: &impl BaseAudioContext, inputs: usize) -> (Bench, Tape) {
    record_with(c, inputs, AudioNodeOptions { channel_count: 2, channel_count_mode: ChannelCountMode::Max, channel_interpretation: ChannelInterpretation::Discrete })
}

pub(crate) fn record_with(c: &impl BaseAudioContext, inputs: usize, o: AudioNodeOptions) -> (Bench, Tape) {
    let tape: Tape = Arc::new(Mutex::new(vec![]));
    let t = Arc::clone(&tape);
    let n = c.base().register(move |registration| {
        let n = Bench { registration, channel_config: o.into(), inputs, outputs: 1 };
        (n, Box::new(Recorder { tape: t }))
    });
    (n, tape)
}

/// the recorded signal of one input, `ch` channels (mono silence is widened)
pub(crate) fn played(tape: &Tape, input: usize, ch: usize) -> Vec<Vec<f32>> {
    let t = tape.lock().unwrap();
    let mut out = vec![vec![]; ch];
    for q in t.iter() {
        let b = &q[input];
        let silent = b.iter().all(|c| c.iter().all(|v| is_zero(*v)));
        check("recorded: channel count", b.len() == ch || (silent && b.len() == 1));
        for (i, o) in out.iter_mut().enumerate() {
            if i < b.len() {
                o.extend_from_slice(&b[i]);
            } else {
                o.extend_from_slice(&vec![0.; N]);
            }
        }
    }
    out
}

/// the channel count of every recorded quantum
pub(crate) fn counts(tape: &Tape, input: usize) -> Vec<usize> {
    tape.lock().unwrap().iter().map(|q| q[input].len()).collect()
}

/// run a graph for `quanta` render quanta
pub(crate) fn run(mut c: OfflineAudioContext) {
    let _ = c.start_rendering_sync();
}

/// a source node that plays the given signal from frame 0
pub(crate) fn player(c: &OfflineAudioContext, x: &[Vec<f32>]) -> crate::node::AudioBufferSourceNode {
    let mut src = c.create_buffer_source();
    src.set_buffer(crate::AudioBuffer::from(x.to_vec(), SR));
    src.start();
    src
}

/// arbitrary value at frame `at`, a fixed wiggle inside [lo, hi] elsewhere
pub(crate) fn one_free(name: &str, frames: usize, at: usize, lo: f32, hi: f32) -> Vec<f32> {
    (0..frames)
        .map(|i| {
            if i == at {
                any(name, lo, hi)
            } else {
                lo + (hi - lo) * (((i * 37 + 11) % 64) as f32) / 64.
            }
        })
        .collect()
}

/// drive a parameter with a signal (its own value set to 0)
pub(crate) fn drive(c: &impl BaseAudioContext, param: &crate::AudioParam, x: &[f32]) -> Bench {
    let f = feed_signal(c, &[x.to_vec()]);
    f.connect(param);
    f
}

/// a few frames of interest: the borders of the first two quanta and one in between
pub(crate) fn pick_frame() -> usize {
    [0, 1, 64, 127, 128, 200][pick("frame", 0, 5) as usize]
}

/// signal with arbitrary samples at the borders of the quanta and a few in between
pub(crate) fn some_signal(name: &str, ch: usize, frames: usize) -> Vec<Vec<f32>> {
    (0..ch)
        .map(|c| {
            (0..frames)
                .map(|i| {
                    if [0, 1, 50, 126, 127].contains(&(i % N)) {
                        any(&format!("{}{}[{}]", name, c, i), -1, 1)
                    } else {
                        0.25 + c as f32 * 0.0625
                    }
                })
                .collect()
        })
        .collect()
}

/// Any time in frames. The implementation snaps times which are almost, but not exactly, on a
/// frame; those are left out. (all positions are multiples of 1/8 frame away from it)
pub(crate) fn any_time(name: &str, ranges: &[(i64, i64)]) -> f64 {
    let r = ranges[pick(&format!("{}_range", name), 0, ranges.len() as i64 - 1) as usize];
    let k = pick(&format!("{}_eighth", name), 8 * r.0, 8 * r.1 - 1);
    let q = k as f64 / 8.;
    if pick_bool(&format!("{}_exact", name)) {
        q
    } else {
        let d: f64 = any(name, 0.001, 0.124);
        q + d
    }
}

struct Prober {
    id: crate::context::AudioParamId,
    tape: Arc<Mutex<Vec<Vec<f32>>>>,
}

impl AudioProcessor for Prober {
    fn process(&mut self, _i: &[AudioRenderQuantum], outputs: &mut [AudioRenderQuantum], p: AudioParamValues<'_>, _s: &AudioWorkletGlobalScope) -> bool {
        let v = p.get(&self.id).to_vec();
        check("param: one value or one per frame", v.len() == 1 || v.len() == N);
        self.tape.lock().unwrap().push(if v.len() == 1 { vec![v[0]; N] } else { v });
        outputs[0].make_silent();
        true
    }
    fn has_side_effects(&self) -> bool {
        true
    }
}

/// node with a parameter whose computed values are recorded for every quantum
pub(crate) fn probe(c: &impl BaseAudioContext, d: crate::AudioParamDescriptor) -> (Bench, crate::AudioParam, Arc<Mutex<Vec<Vec<f32>>>>) {
    let tape = Arc::new(Mutex::new(vec![]));
    let t = Arc::clone(&tape);
    let mut param = None;
    let n = c.base().register(|registration| {
        let (p, id) = c.create_audio_param(d, &registration);
        param = Some(p);
        let n = Bench { registration, channel_config: AudioNodeOptions::default().into(), inputs: 1, outputs: 1 };
        (n, Box::new(Prober { id, tape: t }))
    });
    (n, param.unwrap(), tape)
}

/// node with the given processor
pub(crate) fn bench(c: &impl BaseAudioContext, o: AudioNodeOptions, inputs: usize, outputs: usize, p: Box<dyn AudioProcessor>) -> Bench {
    c.base().register(move |registration| (Bench { registration, channel_config: o.into(), inputs, outputs }, p))
}

/// W3C "Filters characteristics": [b0, b1, b2, a1, a2] / a0 at the sample rate SR
pub(crate) fn spec_biquad(t: crate::node::BiquadFilterType, f0: f64, gain: f64, q: f64) -> [f64; 5] {
    use crate::node::BiquadFilterType::*;
    let a = 10f64.powf(gain / 40.);
    let w0 = 2. * std::f64::consts::PI * f0 / SR as f64;
    let (s, c) = (w0.sin(), w0.cos());
    let aq = s / (2. * q);
    let adb = s / (2. * 10f64.powf(q / 20.));
    let as_ = s / 2. * 2f64.sqrt();
    let r = 2. * as_ * a.sqrt();
    let (b0, b1, b2, a0, a1, a2) = match t {
        Lowpass => ((1. - c) / 2., 1. - c, (1. - c) / 2., 1. + adb, -2. * c, 1. - adb),
        Highpass => ((1. + c) / 2., -(1. + c), (1. + c) / 2., 1. + adb, -2. * c, 1. - adb),
        Bandpass => (aq, 0., -aq, 1. + aq, -2. * c, 1. - aq),
        Notch => (1., -2. * c, 1., 1. + aq, -2. * c, 1. - aq),
        Allpass => (1. - aq, -2. * c, 1. + aq, 1. + aq, -2. * c, 1. - aq),
        Peaking => (1. + aq * a, -2. * c, 1. - aq * a, 1. + aq / a, -2. * c, 1. - aq / a),
        Lowshelf => (
            a * ((a + 1.) - (a - 1.) * c + r),
            2. * a * ((a - 1.) - (a + 1.) * c),
            a * ((a + 1.) - (a - 1.) * c - r),
            (a + 1.) + (a - 1.) * c + r,
            -2. * ((a - 1.) + (a + 1.) * c),
            (a + 1.) + (a - 1.) * c - r,
        ),
        Highshelf => (
            a * ((a + 1.) + (a - 1.) * c + r),
            -2. * a * ((a - 1.) + (a + 1.) * c),
            a * ((a + 1.) + (a - 1.) * c - r),
            (a + 1.) - (a - 1.) * c + r,
            2. * ((a - 1.) - (a + 1.) * c),
            (a + 1.) - (a - 1.) * c - r,
        ),
    };
    [b0 / a0, b1 / a0, b2 / a0, a1 / a0, a2 / a0]
}

// ---- W3C "Spatialization / Panning"

pub(crate) type V3 = [f32; 3];

fn dot(a: V3, b: V3) -> f32 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn minus(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn unit(a: V3) -> V3 {
    let k = 1. / dot(a, a).sqrt();
    [a[0] * k, a[1] * k, a[2] * k]
}
fn acos_deg(x: f32) -> f32 {
    180. * x.max(-1.).min(1.).acos() / std::f32::consts::PI
}

/// azimuth of the source as the listener sees it, degrees, -180..=180, positive = right
pub(crate) fn spec_azimuth(source: V3, listener: V3, forward: V3, up: V3) -> f32 {
    let sl = minus(source, listener);
    if dot(sl, sl) < 1e-30 {
        return 0.;
    }
    let sl = unit(sl);
    let right = cross(forward, up);
    if dot(right, right) == 0. {
        return 0.;
    }
    let (right, forward) = (unit(right), unit(forward));
    let up = cross(right, forward);
    let k = dot(sl, up);
    let p = minus(sl, [up[0] * k, up[1] * k, up[2] * k]);
    if dot(p, p) == 0. {
        return 0.;
    }
    let p = unit(p);
    let mut az = acos_deg(dot(p, right));
    if dot(p, forward) < 0. {
        az = 360. - az;
    }
    if az <= 270. {
        90. - az
    } else {
        450. - az
    }
}

pub(crate) struct Cone {
    pub inner: f64,
    pub outer: f64,
    pub gain: f64,
}

pub(crate) fn spec_cone(source: V3, orientation: V3, listener: V3, k: &Cone) -> f32 {
    if dot(orientation, orientation) == 0. || k.inner.abs() >= 360. && k.outer.abs() >= 360. {
        return 1.;
    }
    let sl = minus(source, listener);
    let angle = if dot(sl, sl) < 1e-30 { 0. } else { acos_deg(dot(unit(sl), unit(orientation))) };
    let (inner, outer, gain) = (k.inner.abs() as f32 / 2., k.outer.abs() as f32 / 2., k.gain as f32);
    if angle <= inner {
        1.
    } else if angle >= outer {
        gain
    } else {
        let x = (angle - inner) / (outer - inner);
        (1. - x) + gain * x
    }
}

pub(crate) struct Dist {
    pub model: crate::node::DistanceModelType,
    pub reference: f64,
    pub max: f64,
    pub rolloff: f64,
}

pub(crate) fn spec_distance(d: f64, k: &Dist) -> f64 {
    use crate::node::DistanceModelType::*;
    match k.model {
        Linear => {
            let (lo, hi) = if k.reference < k.max { (k.reference, k.max) } else { (k.max, k.reference) };
            let f = if k.rolloff > 1. { 1. } else { k.rolloff };
            if lo == hi {
                1. - f
            } else if d <= lo {
                1.
            } else if d >= hi {
                1. - f
            } else {
                1. - f * (d - lo) / (hi - lo)
            }
        }
        _ if k.reference == 0. => 0.,
        Inverse => {
            if d <= k.reference {
                1.
            } else {
                k.reference / (k.reference + k.rolloff * (d - k.reference))
            }
        }
        Exponential => {
            if d <= k.reference {
                1.
            } else {
                (d / k.reference).powf(-k.rolloff)
            }
        }
    }
}

pub(crate) fn spec_dist_gain(source: V3, listener: V3, k: &Dist) -> f32 {
    let d = minus(source, listener);
    spec_distance(dot(d, d).sqrt() as f64, k) as f32
}

/// equal power panning of one frame
pub(crate) fn spec_equal_power(azimuth: f32, gain: f32, x: &[f32]) -> [f32; 2] {
    let az = if azimuth < -90. {
        -180. - azimuth
    } else if azimuth > 90. {
        180. - azimuth
    } else {
        azimuth
    };
    let h = std::f32::consts::PI / 2.;
    if x.len() == 1 {
        let k = (az + 90.) / 180.;
        [x[0] * (k * h).cos() * gain, x[0] * (k * h).sin() * gain]
    } else if az <= 0. {
        let k = (az + 90.) / 90.;
        [(x[0] + x[1] * (k * h).cos()) * gain, x[1] * (k * h).sin() * gain]
    } else {
        let k = az / 90.;
        [x[0] * (k * h).cos() * gain, (x[1] + x[0] * (k * h).sin()) * gain]
    }
}

/// what an AudioBufferSourceNode plays (times in frames, i.e. seconds * buffer sample rate)
#[derive(Clone)]
pub(crate) struct Play {
    pub start: f64,
    pub stop: Option<f64>,
    pub offset: f64,
    pub duration: Option<f64>,
    pub looped: Option<(f64, f64)>,
    /// buffer frames per context frame
    pub ratio: f64,
}

#[derive(Clone)]
pub(crate) struct Playhead {
    pub begun: bool,
    pub entered: bool,
    pub pos: f64,
    pub elapsed: f64,
    pub off: f64,
}

impl Playhead {
    pub fn new(p: &Play) -> Self {
        Playhead { begun: false, entered: false, pos: 0., elapsed: 0., off: p.offset }
    }

    /// playback algorithm of the Web Audio specification for the context frames from..to, rate given per frame
    pub fn frames(&mut self, buf: &[f32], p: &Play, rate: impl Fn(usize) -> f64, from: usize, to: usize) -> Vec<f32> {
        let len = buf.len() as f64;
        let mut out = vec![];
        for i in from..to {
            let t = i as f64;
            let r = rate(i) * p.ratio;
            if t < p.start || (p.stop.is_some() && t >= p.stop.unwrap()) {
                out.push(0.);
                continue;
            }
            if p.duration.is_some() && self.elapsed >= p.duration.unwrap() {
                out.push(0.);
                continue;
            }
            if !self.begun {
                self.begun = true;
                let delta = t - p.start;
                let mut off = self.off + delta * r;
                if off < 0. {
                    off = 0.;
                }
                if off > len {
                    off = len;
                }
                if let Some((ls, le)) = p.looped {
                    if r >= 0. && off > le {
                        off = le;
                    }
                    if r < 0. && off < ls {
                        off = ls;
                    }
                }
                self.off = off;
                self.pos = off;
                self.elapsed = if delta * r < 0. { -(delta * r) } else { delta * r };
            }
            if let Some((ls, le)) = p.looped {
                if !self.entered {
                    if self.off < le && self.pos >= ls {
                        self.entered = true;
                    }
                    if self.off >= le && self.pos < le {
                        self.entered = true;
                    }
                }
                if self.entered {
                    while self.pos >= le {
                        self.pos -= le - ls;
                    }
                    while self.pos < ls {
                        self.pos += le - ls;
                    }
                }
            }
            out.push(if self.pos >= 0. && self.pos < len { spec_sample(buf, p, self.pos) } else { 0. });
            self.pos += r;
            self.elapsed += if r < 0. { -r } else { r };
        }
        out
    }
}

/// linear interpolation; past the last frame: the first frame of the loop, or the line through
/// the last two frames
pub(crate) fn spec_sample(buf: &[f32], p: &Play, pos: f64) -> f32 {
    let f = pos.floor();
    let k = (pos - f) as f32;
    let j = f as usize;
    let next = if j + 1 < buf.len() {
        buf[j + 1]
    } else if let Some((ls, _)) = p.looped {
        let first = ls.ceil() as usize;
        if first < buf.len() {
            buf[first]
        } else {
            buf[j]
        }
    } else if j == 0 {
        0.
    } else {
        2. * buf[j] - buf[j - 1]
    };
    (1. - k) * buf[j] + k * next
}
