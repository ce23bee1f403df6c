use crate::context::{BaseAudioContext, OfflineAudioContext};
use crate::node::*;
use crate::param::{AudioParam, AutomationRate};
use crate::vc_lib__common::*;
use crate::{AudioBuffer, PeriodicWaveOptions};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "options_defaults", target: "BaseAudioContext::create_*: ports, channels and parameters", body: defaults },
        Contract { name: "options_params", target: "node constructors: initial parameter values", body: params },
        Contract { name: "options_channels", target: "node constructors and setters: channel configuration", body: channels },
        Contract { name: "options_attributes", target: "node constructors and setters: attributes", body: attributes },
        Contract { name: "options_in_effect", target: "node constructors: options are in effect from the first frame", body: in_effect },
    ]
}

const RATE: f32 = 32768.;

fn new_context() -> OfflineAudioContext {
    OfflineAudioContext::new(1, N, RATE)
}

// default, least and largest value, automation rate
fn param(p: &AudioParam, default: f32, min: f32, max: f32, rate: AutomationRate) {
    check_eq("options: default value", p.default_value(), default);
    check_eq("options: least value", p.min_value(), min);
    check_eq("options: largest value", p.max_value(), max);
    check("options: automation rate", p.automation_rate() == rate);
    check_eq("options: value is the default", p.value(), default);
}

fn ports(n: &dyn AudioNode, inputs: usize, outputs: usize, count: usize, mode: ChannelCountMode, meaning: ChannelInterpretation) {
    check("options: inputs", n.number_of_inputs() == inputs);
    check("options: outputs", n.number_of_outputs() == outputs);
    check("options: channel count", n.channel_count() == count);
    check("options: channel count mode", n.channel_count_mode() == mode);
    check("options: channel interpretation", n.channel_interpretation() == meaning);
}

fn defaults() {
    use AutomationRate::{A, K};
    use ChannelCountMode::{ClampedMax, Explicit, Max};
    use ChannelInterpretation::{Discrete, Speakers};
    let c = new_context();
    let (lo, hi) = (f32::MIN, f32::MAX);
    match pick("node", 0, 18) {
        0 => {
            let n = c.create_analyser();
            ports(&n, 1, 1, 2, Max, Speakers);
            check("options: analyser", n.fft_size() == 2048 && n.frequency_bin_count() == 1024);
            check_eq("options: smoothing", n.smoothing_time_constant(), 0.8);
            check_eq("options: decibels", n.min_decibels(), -100.);
            check_eq("options: decibels", n.max_decibels(), -30.);
        }
        1 => {
            let n = c.create_biquad_filter();
            ports(&n, 1, 1, 2, Max, Speakers);
            check("options: type", n.type_() == BiquadFilterType::Lowpass);
            param(n.frequency(), 350., 0., RATE / 2., A);
            param(n.detune(), 0., -153600., 153600., A);
            param(n.q(), 1., lo, hi, A);
            check_eq("options: default value", n.gain().default_value(), 0.);
            check("options: automation rate", n.gain().automation_rate() == A);
        }
        2 => {
            let n = c.create_buffer_source();
            ports(&n, 0, 1, 2, Max, Speakers);
            param(n.playback_rate(), 1., lo, hi, K);
            param(n.detune(), 0., lo, hi, K);
            check("options: no buffer, no loop", n.buffer().is_none() && !n.loop_());
            check_eq("options: loop", n.loop_start(), 0.);
            check_eq("options: loop", n.loop_end(), 0.);
            check_eq("options: position", n.position(), 0.);
        }
        3 => {
            let n = c.create_constant_source();
            ports(&n, 0, 1, 2, Max, Speakers);
            param(n.offset(), 1., lo, hi, A);
        }
        4 => {
            let n = c.create_convolver();
            ports(&n, 1, 1, 2, ClampedMax, Speakers);
            check("options: convolver", n.normalize() && n.buffer().is_none());
        }
        5 => {
            let k = pick("count", 1, 7) as usize;
            ports(&c.create_channel_merger(k), k, 1, 1, Explicit, Speakers);
            check("options: six", ChannelMergerNode::new(&c, ChannelMergerOptions::default()).number_of_inputs() == 6);
        }
        6 => {
            let k = pick("count", 1, 7) as usize;
            ports(&c.create_channel_splitter(k), 1, k, k, Explicit, Discrete);
            ports(&ChannelSplitterNode::new(&c, ChannelSplitterOptions::default()), 1, 6, 6, Explicit, Discrete);
        }
        7 => {
            let n = c.create_delay(2.);
            ports(&n, 1, 1, 2, Max, Speakers);
            param(n.delay_time(), 0., 0., 2., A);
            check_eq("options: one second", DelayNode::new(&c, DelayOptions::default()).delay_time().max_value(), 1.);
        }
        8 => {
            let n = c.create_dynamics_compressor();
            ports(&n, 1, 1, 2, ClampedMax, Speakers);
            param(n.threshold(), -24., -100., 0., K);
            param(n.knee(), 30., 0., 40., K);
            param(n.ratio(), 12., 1., 20., K);
            param(n.attack(), 0.003, 0., 1., K);
            param(n.release(), 0.25, 0., 1., K);
            check_eq("options: no reduction yet", n.reduction(), 0.);
        }
        9 => {
            let n = c.create_gain();
            ports(&n, 1, 1, 2, Max, Speakers);
            param(n.gain(), 1., lo, hi, A);
        }
        10 => ports(&c.create_iir_filter(vec![1.], vec![1., 0.5]), 1, 1, 2, Max, Speakers),
        11 => {
            let n = c.create_oscillator();
            ports(&n, 0, 1, 2, Max, Speakers);
            check("options: type", n.type_() == OscillatorType::Sine);
            param(n.frequency(), 440., -RATE / 2., RATE / 2., A);
            param(n.detune(), 0., -153600., 153600., A);
        }
        12 => {
            let n = c.create_panner();
            ports(&n, 1, 1, 2, ClampedMax, Speakers);
            for (i, p) in [n.position_x(), n.position_y(), n.position_z(), n.orientation_x(), n.orientation_y(), n.orientation_z()].into_iter().enumerate() {
                param(p, if i == 3 { 1. } else { 0. }, lo, hi, A);
            }
            check("options: models", n.panning_model() == PanningModelType::EqualPower && n.distance_model() == DistanceModelType::Inverse);
            check_eq("options: panner", n.ref_distance(), 1.);
            check_eq("options: panner", n.max_distance(), 10000.);
            check_eq("options: panner", n.rolloff_factor(), 1.);
            check_eq("options: panner", n.cone_inner_angle(), 360.);
            check_eq("options: panner", n.cone_outer_angle(), 360.);
            check_eq("options: panner", n.cone_outer_gain(), 0.);
        }
        13 => {
            let i = pick("input channels", 0, 3) as usize;
            let n = c.create_script_processor([0, 256, 4096][pick("size", 0, 2) as usize], i, 2);
            ports(&n, 1, 1, i.max(1), Explicit, Speakers);
            check("options: size", [256, 4096].contains(&n.buffer_size()));
        }
        14 => {
            let n = c.create_stereo_panner();
            ports(&n, 1, 1, 2, ClampedMax, Speakers);
            param(n.pan(), 0., -1., 1., A);
        }
        15 => {
            let n = c.create_wave_shaper();
            ports(&n, 1, 1, 2, Max, Speakers);
            check("options: no curve", n.curve().is_none() && n.oversample() == OverSampleType::None);
        }
        16 => {
            let k = [1, 2, 5][pick("channels", 0, 2) as usize];
            let c = OfflineAudioContext::new(k, N, RATE);
            ports(&c.destination(), 1, 1, k, Explicit, Speakers);
            check("options: rate", c.sample_rate() == RATE && c.length() == N);
            check_eq("options: time", c.current_time(), 0.);
        }
        17 => {
            let o: crate::worklet::AudioWorkletNodeOptions<()> = Default::default();
            check("options: worklet", o.number_of_inputs == 1 && o.number_of_outputs == 1 && o.output_channel_count.is_empty() && o.parameter_data.is_empty());
            let n = MediaStreamAudioDestinationNode::new(&c, AudioNodeOptions::default());
            ports(&n, 1, 0, 2, Max, Speakers);
            let t = n.stream().get_tracks();
            check("options: one track", t.len() == 1);
            ports(&MediaStreamAudioSourceNode::new(&c, MediaStreamAudioSourceOptions { media_stream: n.stream() }), 0, 1, 2, Max, Speakers);
            ports(&MediaStreamTrackAudioSourceNode::new(&c, MediaStreamTrackAudioSourceOptions { media_stream_track: &t[0] }), 0, 1, 2, Max, Speakers);
        }
        _ => {
            let l = c.listener();
            for p in [l.position_x(), l.position_y(), l.position_z(), l.forward_x(), l.forward_y(), l.up_x(), l.up_z()] {
                param(p, 0., lo, hi, A);
            }
            param(l.forward_z(), -1., lo, hi, A);
            param(l.up_y(), 1., lo, hi, A);
        }
    }
}

fn given(p: &AudioParam, v: f32) {
    check_eq("options: initial value", p.value(), v);
}

fn params() {
    let c = new_context();
    let which = pick("param", 0, 4);
    // one of them is given
    let v = |i: i64, default: f32, lo: i32, hi: i32| -> f32 {
        if i == which {
            any("v", lo, hi)
        } else {
            default
        }
    };
    match pick("node", 0, 8) {
        0 => {
            let (a, b, d, e) = (v(0, 1., -10, 10), v(1, 0., -100, 100), v(2, 350., 0, 16000), v(3, 0., -40, 40));
            let n = BiquadFilterNode::new(&c, BiquadFilterOptions { q: a, detune: b, frequency: d, gain: e, ..BiquadFilterOptions::default() });
            given(n.q(), a);
            given(n.detune(), b);
            given(n.frequency(), d);
            given(n.gain(), e);
        }
        1 => {
            let (a, b) = (v(0, 0., -100, 100), v(1, 1., -3, 3));
            let n = AudioBufferSourceNode::new(&c, AudioBufferSourceOptions { detune: a, playback_rate: b, ..AudioBufferSourceOptions::default() });
            given(n.detune(), a);
            given(n.playback_rate(), b);
        }
        2 => {
            let a = v(0, 1., -3, 3);
            given(ConstantSourceNode::new(&c, ConstantSourceOptions { offset: a }).offset(), a);
        }
        3 => {
            let a = v(0, 0., 0, 1);
            let n = DelayNode::new(&c, DelayOptions { delay_time: a as f64, ..DelayOptions::default() });
            given(n.delay_time(), a);
        }
        4 => {
            let (a, b, d, e, f) = (v(0, 0.003, 0, 1), v(1, 30., 0, 40), v(2, 12., 1, 20), v(3, 0.25, 0, 1), v(4, -24., -100, 0));
            let o = DynamicsCompressorOptions { attack: a, knee: b, ratio: d, release: e, threshold: f, ..DynamicsCompressorOptions::default() };
            let n = DynamicsCompressorNode::new(&c, o);
            given(n.attack(), a);
            given(n.knee(), b);
            given(n.ratio(), d);
            given(n.release(), e);
            given(n.threshold(), f);
        }
        5 => {
            let a = v(0, 1., -3, 3);
            given(GainNode::new(&c, GainOptions { gain: a, ..GainOptions::default() }).gain(), a);
        }
        6 => {
            let (a, b) = (v(0, 440., -16000, 16000), v(1, 0., -100, 100));
            let n = OscillatorNode::new(&c, OscillatorOptions { frequency: a, detune: b, ..OscillatorOptions::default() });
            given(n.frequency(), a);
            given(n.detune(), b);
        }
        7 => {
            let (a, b, d, e, f) = (v(0, 0., -9, 9), v(1, 0., -9, 9), v(2, 0., -9, 9), v(3, 1., -9, 9), v(4, 0., -9, 9));
            let g = v(pick("last", 0, 1) * which, 0., -9, 9);
            let o = PannerOptions { position_x: a, position_y: b, position_z: d, orientation_x: e, orientation_y: f, orientation_z: g, ..PannerOptions::default() };
            let n = PannerNode::new(&c, o);
            given(n.position_x(), a);
            given(n.position_y(), b);
            given(n.position_z(), d);
            given(n.orientation_x(), e);
            given(n.orientation_y(), f);
            given(n.orientation_z(), g);
        }
        _ => {
            let a = v(0, 0., -1, 1);
            given(StereoPannerNode::new(&c, StereoPannerOptions { pan: a, ..StereoPannerOptions::default() }).pan(), a);
        }
    }
}

const MODES: [ChannelCountMode; 3] = [ChannelCountMode::Max, ChannelCountMode::ClampedMax, ChannelCountMode::Explicit];
const MEANINGS: [ChannelInterpretation; 2] = [ChannelInterpretation::Speakers, ChannelInterpretation::Discrete];

fn channels() {
    let c = new_context();
    let mode = MODES[pick("mode", 0, 2) as usize];
    let meaning = MEANINGS[pick("meaning", 0, 1) as usize];
    let kind = pick("node", 0, 10);
    let narrow = kind >= 7;
    let count = if narrow { 1 + pick("count", 0, 1) as usize } else { [1, 2, 7, 32][pick("count", 0, 3) as usize] };
    if narrow {
        // two channels at most, never max
        assume(mode != ChannelCountMode::Max);
    }
    let o = || AudioNodeOptions { channel_count: count, channel_count_mode: mode, channel_interpretation: meaning };
    let n: Box<dyn AudioNode> = match kind {
        0 => Box::new(AnalyserNode::new(&c, AnalyserOptions { audio_node_options: o(), ..AnalyserOptions::default() })),
        1 => Box::new(BiquadFilterNode::new(&c, BiquadFilterOptions { audio_node_options: o(), ..BiquadFilterOptions::default() })),
        2 => Box::new(DelayNode::new(&c, DelayOptions { audio_node_options: o(), ..DelayOptions::default() })),
        3 => Box::new(GainNode::new(&c, GainOptions { audio_node_options: o(), ..GainOptions::default() })),
        4 => Box::new(IIRFilterNode::new(&c, IIRFilterOptions { audio_node_options: o(), feedforward: vec![1.], feedback: vec![1.] })),
        5 => Box::new(OscillatorNode::new(&c, OscillatorOptions { audio_node_options: o(), ..OscillatorOptions::default() })),
        6 => Box::new(WaveShaperNode::new(&c, WaveShaperOptions { audio_node_options: o(), ..WaveShaperOptions::default() })),
        7 => Box::new(ConvolverNode::new(&c, ConvolverOptions { audio_node_options: o(), ..ConvolverOptions::default() })),
        8 => Box::new(DynamicsCompressorNode::new(&c, DynamicsCompressorOptions { audio_node_options: o(), ..DynamicsCompressorOptions::default() })),
        9 => Box::new(PannerNode::new(&c, PannerOptions { audio_node_options: o(), ..PannerOptions::default() })),
        _ => Box::new(StereoPannerNode::new(&c, StereoPannerOptions { audio_node_options: o(), ..StereoPannerOptions::default() })),
    };
    let is = |count: usize, mode: ChannelCountMode, meaning: ChannelInterpretation| {
        check("options: channel count", n.channel_count() == count);
        check("options: channel count mode", n.channel_count_mode() == mode);
        check("options: channel interpretation", n.channel_interpretation() == meaning);
    };
    is(count, mode, meaning);
    // setters change what they say
    match pick("set", 0, 2) {
        0 => {
            let k = 3 - count.min(2);
            n.set_channel_count(k);
            is(k, mode, meaning);
        }
        1 => {
            let m = if mode == ChannelCountMode::Explicit { ChannelCountMode::ClampedMax } else { ChannelCountMode::Explicit };
            n.set_channel_count_mode(m);
            is(count, m, meaning);
        }
        _ => {
            let m = if meaning == ChannelInterpretation::Discrete { ChannelInterpretation::Speakers } else { ChannelInterpretation::Discrete };
            n.set_channel_interpretation(m);
            is(count, mode, m);
        }
    }
}

fn attributes() {
    let c = new_context();
    let by_setter = pick_bool("by setter");
    match pick("node", 0, 4) {
        0 => {
            let which = pick("which", 0, 5);
            let v: f64 = if which == 5 { any("v", 0, 1) } else { any("v", 1, 300) };
            let mut want = [1., 10000., 1., 360., 360., 0.];
            want[which as usize] = v;
            let o = PannerOptions::default();
            let n = if by_setter {
                let mut n = PannerNode::new(&c, o);
                match which {
                    0 => n.set_ref_distance(v),
                    1 => n.set_max_distance(v),
                    2 => n.set_rolloff_factor(v),
                    3 => n.set_cone_inner_angle(v),
                    4 => n.set_cone_outer_angle(v),
                    _ => n.set_cone_outer_gain(v),
                }
                n
            } else {
                let [a, b, d, e, f, g] = want;
                PannerNode::new(&c, PannerOptions { ref_distance: a, max_distance: b, rolloff_factor: d, cone_inner_angle: e, cone_outer_angle: f, cone_outer_gain: g, ..o })
            };
            let got = [n.ref_distance(), n.max_distance(), n.rolloff_factor(), n.cone_inner_angle(), n.cone_outer_angle(), n.cone_outer_gain()];
            for i in 0..6 {
                check_eq("options: panner", got[i], want[i]);
            }
        }
        1 => {
            let (a, b): (f64, f64) = (any("start", 0, 2), any("end", 0, 2));
            let buffer = AudioBuffer::from(vec![vec![0.25, 0.5]], RATE);
            let n = if by_setter {
                let mut n = c.create_buffer_source();
                n.set_loop(true);
                n.set_loop_start(a);
                n.set_loop_end(b);
                n.set_buffer(buffer);
                n
            } else {
                AudioBufferSourceNode::new(&c, AudioBufferSourceOptions { loop_: true, loop_start: a, loop_end: b, buffer: Some(buffer), ..AudioBufferSourceOptions::default() })
            };
            check("options: loop", n.loop_());
            check_eq("options: loop start", n.loop_start(), a);
            check_eq("options: loop end", n.loop_end(), b);
            check("options: buffer", n.buffer().map_or(0, |b| b.length()) == 2);
        }
        2 => {
            let (a, lo, hi): (f64, f64, f64) = (any("smoothing", 0, 1), any("min", -200, -50), any("max", -49, 0));
            let size = [32, 1024, 32768][pick("size", 0, 2) as usize];
            let n = if by_setter {
                let mut n = c.create_analyser();
                n.set_fft_size(size);
                n.set_smoothing_time_constant(a);
                n.set_min_decibels(lo);
                n.set_max_decibels(hi);
                n
            } else {
                AnalyserNode::new(&c, AnalyserOptions { fft_size: size, smoothing_time_constant: a, min_decibels: lo, max_decibels: hi, ..AnalyserOptions::default() })
            };
            check("options: size", n.fft_size() == size && n.frequency_bin_count() == size / 2);
            check_eq("options: smoothing", n.smoothing_time_constant(), a);
            check_eq("options: min", n.min_decibels(), lo);
            check_eq("options: max", n.max_decibels(), hi);
        }
        3 => {
            let v: f32 = any("v", -1, 1);
            let over = [OverSampleType::None, OverSampleType::X2, OverSampleType::X4][pick("oversample", 0, 2) as usize];
            let n = if by_setter {
                let mut n = c.create_wave_shaper();
                n.set_curve(vec![v, 0., 1.]);
                n.set_oversample(over);
                n
            } else {
                WaveShaperNode::new(&c, WaveShaperOptions { curve: Some(vec![v, 0., 1.]), oversample: over, ..WaveShaperOptions::default() })
            };
            check("options: oversample", n.oversample() == over);
            check("options: curve", n.curve().map_or(0, |x| x.len()) == 3);
            check_eq("options: curve", n.curve().unwrap()[0], v);
        }
        _ => {
            let k = pick("type", 0, 7) as usize;
            use BiquadFilterType::*;
            let t = [Lowpass, Highpass, Bandpass, Notch, Allpass, Peaking, Lowshelf, Highshelf][k];
            let o = [OscillatorType::Sine, OscillatorType::Square, OscillatorType::Sawtooth, OscillatorType::Triangle][k % 4];
            let (b, n) = if by_setter {
                let (mut b, mut n) = (c.create_biquad_filter(), c.create_oscillator());
                b.set_type(t);
                n.set_type(o);
                (b, n)
            } else {
                (
                    BiquadFilterNode::new(&c, BiquadFilterOptions { type_: t, ..BiquadFilterOptions::default() }),
                    OscillatorNode::new(&c, OscillatorOptions { type_: o, ..OscillatorOptions::default() }),
                )
            };
            check("options: type", b.type_() == t && n.type_() == o);
            let wave = c.create_periodic_wave(PeriodicWaveOptions::default());
            let w = OscillatorNode::new(&c, OscillatorOptions { type_: o, periodic_wave: Some(wave), ..OscillatorOptions::default() });
            check("options: a wave makes it custom", w.type_() == OscillatorType::Custom);
        }
    }
}

// the first frame already has the value that was given
fn in_effect() {
    let mut c = new_context();
    let mut src = ConstantSourceNode::new(&c, ConstantSourceOptions { offset: 1. });
    let v: f32 = any("v", -2, 2);
    match pick("node", 0, 2) {
        0 => {
            let mut s = ConstantSourceNode::new(&c, ConstantSourceOptions { offset: v });
            s.connect(&c.destination());
            s.start();
        }
        1 => {
            let g = GainNode::new(&c, GainOptions { gain: v, ..GainOptions::default() });
            src.connect(&g);
            g.connect(&c.destination());
        }
        _ => {
            // mixed down to one channel or not
            let count = 1 + pick("count", 0, 1) as usize;
            let o = AudioNodeOptions { channel_count: count, channel_count_mode: ChannelCountMode::Explicit, channel_interpretation: ChannelInterpretation::Discrete };
            let g = GainNode::new(&c, GainOptions { gain: v, audio_node_options: o });
            let m = c.create_channel_merger(2);
            src.connect_from_output_to_input(&m, 0, 1);
            m.connect(&g);
            let s = c.create_channel_splitter(2);
            g.connect(&s);
            s.connect_from_output_to_input(&c.destination(), 1, 0);
            src.start();
            let b = c.start_rendering_sync();
            for i in [0, N - 1] {
                check_eq("options: channels from the first frame", b.get_channel_data(0)[i], if count == 2 { v } else { 0. });
            }
            return;
        }
    }
    src.start();
    let b = c.start_rendering_sync();
    for i in [0, N - 1] {
        check_eq("options: value from the first frame", b.get_channel_data(0)[i], v);
    }
}
