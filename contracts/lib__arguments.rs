use crate::context::{BaseAudioContext, OfflineAudioContext};
use crate::node::*;
use crate::param::{AudioParam, AutomationRate};
use crate::vc_lib__common::*;
use crate::{PeriodicWave, PeriodicWaveOptions};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "args_context", target: "OfflineAudioContext::new, create_buffer arguments", body: context },
        Contract { name: "args_rate", target: "sample rates accepted by contexts and buffers", body: rate },
        Contract { name: "args_times", target: "AudioScheduledSourceNode::start_at, stop_at arguments", body: times },
        Contract { name: "args_order", target: "start / stop / set_buffer called out of order", body: order },
        Contract { name: "args_param_value", target: "AudioParam automation values", body: param_value },
        Contract { name: "args_param_time", target: "AudioParam automation times", body: param_time },
        Contract { name: "args_curve", target: "AudioParam::set_value_curve_at_time arguments", body: curve },
        Contract { name: "args_curve_overlap", target: "automation events overlapping a value curve", body: curve_overlap },
        Contract { name: "args_rate_constraint", target: "AudioParam::set_automation_rate", body: rate_constraint },
        Contract { name: "args_channels", target: "AudioNode::set_channel_count", body: channels },
        Contract { name: "args_mode", target: "AudioNode::set_channel_count_mode, set_channel_interpretation", body: mode },
        Contract { name: "args_channels_new", target: "channel options of node constructors", body: channels_new },
        Contract { name: "args_delay", target: "DelayNode max_delay_time", body: delay },
        Contract { name: "args_iir", target: "IIRFilterNode coefficients, frequency response arrays", body: iir },
        Contract { name: "args_panner", target: "PannerNode attributes", body: panner },
        Contract { name: "args_analyser", target: "AnalyserNode attributes", body: analyser },
        Contract { name: "args_convolver", target: "ConvolverNode::set_buffer", body: convolver },
        Contract { name: "args_ports", target: "create_channel_splitter, create_channel_merger counts", body: ports },
        Contract { name: "args_wave", target: "PeriodicWave and OscillatorNode types", body: wave },
        Contract { name: "args_connect", target: "AudioNode::connect_from_output_to_input", body: connect },
        Contract { name: "args_disconnect", target: "AudioNode::disconnect*", body: disconnect },
        Contract { name: "args_foreign", target: "nodes of different contexts", body: foreign },
    ]
}

const COUNTS: [usize; 6] = [0, 1, 2, 3, 32, 33];
const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];

fn context() {
    let n = COUNTS[pick("channels", 0, 5) as usize];
    let len = pick("length", 0, 2) as usize;
    let ok = n > 0 && n <= 32 && len > 0;
    let r = catch(|| OfflineAudioContext::new(n, len, SR));
    check("arguments: contexts with 1 to 32 channels and at least one frame only", r.is_ok() == ok);
    if let Ok(c) = r {
        check("arguments: context as asked for", c.length() == len && c.destination().channel_count() == n);
    }
    let c = ctx(1, N);
    let r = catch(|| c.create_buffer(n, len, SR));
    check("arguments: buffers with 1 to 32 channels and at least one frame only", r.is_ok() == ok);
    if let Ok(b) = r {
        check("arguments: buffer as asked for", b.number_of_channels() == n && b.length() == len);
    }
}

fn rate() {
    let r: f32 = any("rate", -1000, 1000000);
    let ok = r >= 3000. && r <= 768000.;
    match pick("where", 0, 2) {
        0 => {
            let c = catch(|| OfflineAudioContext::new(1, 1, r));
            check("arguments: sample rate of a context", c.is_ok() == ok);
            if let Ok(c) = c {
                check_eq("arguments: sample rate kept", c.sample_rate(), r);
            }
        }
        1 => {
            let c = ctx(1, N);
            let b = catch(|| c.create_buffer(1, 1, r));
            check("arguments: sample rate of a buffer", b.is_ok() == ok);
        }
        _ => {
            let b = catch(|| crate::AudioBuffer::from(vec![vec![0.; 1]], r));
            check("arguments: sample rate of a buffer", b.is_ok() == ok);
        }
    }
}

// a rejected time has no effect: the source can still be started, and plays as if never called
fn times() {
    let mut c = ctx(1, 2 * N);
    let k = pick("case", 0, 5);
    let t: f64 = match k {
        0 => any("t", -10, -0.001),
        1 | 2 | 3 => BAD[k as usize - 1],
        4 => 0.,
        _ => (N as f32 / SR) as f64,
    };
    let ok = k >= 4;
    let from = if k == 5 { N } else { 0 };
    match pick("node", 0, 2) {
        0 => {
            let mut s = c.create_constant_source();
            s.connect(&c.destination());
            let r = catch(|| s.start_at(t));
            check("arguments: start time", r.is_ok() == ok);
            if !ok {
                check("arguments: still not started", catch(|| s.stop_at(1.)).is_err());
                s.start_at(0.);
            }
            check("arguments: stop time", catch(|| s.stop_at(t)).is_ok() == ok);
            if ok {
                s.stop_at(1.);
            }
            let y = render(c);
            for i in 0..2 * N {
                check_eq("arguments: plays as if not called", y[0][i], if i >= from { 1. } else { 0. });
            }
        }
        1 => {
            let mut s = c.create_buffer_source();
            let mut b = c.create_buffer(1, 4 * N, SR);
            b.copy_to_channel(&[1.; 4 * N], 0);
            s.set_buffer(b);
            s.connect(&c.destination());
            let r = match pick("argument", 0, 2) {
                0 => catch(|| s.start_at_with_offset_and_duration(t, 0., 1.)),
                1 => catch(|| s.start_at_with_offset(0., t)),
                _ => catch(|| s.start_at_with_offset_and_duration(0., 0., t)),
            };
            check("arguments: start time, offset, duration", r.is_ok() == ok);
            if !ok {
                s.start_at(0.);
                check("arguments: stop time", catch(|| s.stop_at(t)).is_err());
                let y = render(c);
                for i in 0..2 * N {
                    check_eq("arguments: plays as if not called", y[0][i], 1.);
                }
            }
        }
        _ => {
            let mut s = c.create_oscillator();
            let r = catch(|| s.start_at(t));
            check("arguments: start time", r.is_ok() == ok);
            if !ok {
                s.start_at(0.);
            }
            check("arguments: stop time", catch(|| s.stop_at(t)).is_ok() == ok);
            check("arguments: suspend time", catch(|| c.suspend_sync(t, |_| ())).is_ok() == ok);
        }
    }
}

fn order() {
    let c = ctx(1, N);
    fn source(mut s: impl AudioScheduledSourceNode) {
        check("arguments: no stop before start", catch(|| s.stop()).is_err() && catch(|| s.stop_at(1.)).is_err());
        if pick_bool("start now") {
            s.start();
        } else {
            s.start_at(0.25);
        }
        check("arguments: no second start", catch(|| s.start()).is_err() && catch(|| s.start_at(1.)).is_err());
        s.stop_at(1.);
        check("arguments: stop may be called again", catch(|| s.stop_at(2.)).is_ok());
        check("arguments: no start after stop", catch(|| s.start()).is_err());
    }
    match pick("node", 0, 3) {
        0 => source(c.create_constant_source()),
        1 => source(c.create_oscillator()),
        2 => source(c.create_buffer_source()),
        _ => {
            let mut s = c.create_buffer_source();
            let mut b = c.create_buffer(1, 2 * N, SR);
            b.copy_to_channel(&[1.; 2 * N], 0);
            s.set_buffer(b);
            let r = catch(|| s.set_buffer(c.create_buffer(1, N, SR)));
            check("arguments: only one buffer", r.is_err());
            check("arguments: buffer kept", s.buffer().map(|b| b.length()) == Some(2 * N));
            s.connect(&c.destination());
            s.start();
            check("arguments: no second start with offset", catch(|| s.start_at_with_offset(0., 0.)).is_err() && catch(|| s.start_at_with_offset_and_duration(0., 0., 0.)).is_err());
            let mut w = c.create_wave_shaper();
            w.set_curve(vec![0.; 3]);
            check("arguments: only one curve", catch(|| w.set_curve(vec![1.; 2])).is_err() && w.curve().map(|c| c.len()) == Some(3));
            let y = render(c);
            for i in 0..N {
                check_eq("arguments: first buffer plays", y[0][i], 1.);
            }
        }
    }
}

const METHODS: i64 = 5;

fn call(p: &AudioParam, method: i64, v: f32, t: f64) -> bool {
    catch(|| {
        match method {
            0 => p.set_value(v),
            1 => p.set_value_at_time(v, t),
            2 => p.linear_ramp_to_value_at_time(v, t),
            3 => p.exponential_ramp_to_value_at_time(v, t),
            4 => p.set_target_at_time(v, t, 0.1),
            _ => p.set_value_curve_at_time(&[0., v], t, 0.1),
        };
    })
    .is_ok()
}

fn untouched(c: OfflineAudioContext, p: &AudioParam) {
    check_eq("arguments: value kept", p.value(), 3.);
    let y = render(c);
    for i in 0..N {
        check_eq("arguments: rejected automation has no effect", y[0][i], 3.);
    }
}

fn player3(c: &OfflineAudioContext) -> ConstantSourceNode {
    let mut s = ConstantSourceNode::new(c, ConstantSourceOptions { offset: 3. });
    s.connect(&c.destination());
    s.start();
    s
}

fn param_value() {
    let c = ctx(1, N);
    let s = player3(&c);
    let method = pick("method", 0, METHODS);
    let k = pick("value", 0, 4);
    let v: f64 = match k {
        0 | 1 | 2 => BAD[k as usize],
        3 => 0.,
        _ => any("v", -10, 10),
    };
    let zero = v == 0.;
    let ok = k > 2 && (method != 3 || !zero);
    check("arguments: finite values, non-zero exponential targets", call(s.offset(), method, v as f32, 0.) == ok);
    if !ok {
        untouched(c, s.offset());
    }
}

fn param_time() {
    let c = ctx(1, N);
    let s = player3(&c);
    let p = s.offset();
    let method = pick("method", 1, METHODS + 3);
    let k = pick("time", 0, 4);
    let t: f64 = match k {
        0 | 1 | 2 => BAD[k as usize],
        3 => 0.,
        _ => any("t", -10, 10),
    };
    let ok = k > 2 && t >= 0.;
    let r = match method {
        6 => catch(|| drop(p.set_target_at_time(1., 0., t))).is_ok(),
        7 => catch(|| drop(p.cancel_scheduled_values(t))).is_ok(),
        8 => catch(|| drop(p.cancel_and_hold_at_time(t))).is_ok(),
        m => call(p, m, 1., t),
    };
    check("arguments: times and time constants finite and not negative", r == ok);
    if !ok {
        untouched(c, p);
    }
}

fn curve() {
    let c = ctx(1, N);
    let s = player3(&c);
    let p = s.offset();
    let (ok, r) = match pick("case", 0, 3) {
        0 => {
            let n = pick("points", 0, 3) as usize;
            (n >= 2, catch(|| drop(p.set_value_curve_at_time(&vec![1.; n], 0., 1.))).is_ok())
        }
        1 => {
            let d: f64 = any("duration", -1, 1);
            (d > 0., catch(|| drop(p.set_value_curve_at_time(&[1., 2.], 0., d))).is_ok())
        }
        2 => {
            let d = BAD[pick("duration", 0, 2) as usize];
            (false, catch(|| drop(p.set_value_curve_at_time(&[1., 2.], 0., d))).is_ok())
        }
        _ => {
            let mut v = [1f32; 3];
            v[pick("position", 0, 2) as usize] = BAD[pick("value", 0, 2) as usize] as f32;
            (false, catch(|| drop(p.set_value_curve_at_time(&v, 0., 1.))).is_ok())
        }
    };
    check("arguments: value curves", r == ok);
    if !ok {
        untouched(c, p);
    }
}

// the call must reject it, or rendering must survive it
fn curve_overlap() {
    let c = ctx(1, 2 * N);
    let s = player3(&c);
    let p = s.offset();
    let q = N as f64 / SR as f64;
    let case = pick("case", 0, 4);
    let r = catch(|| match case {
        0 => drop(p.set_value_at_time(1., q).set_value_curve_at_time(&[1., 2.], q / 2., q)),
        1 => drop(p.set_value_curve_at_time(&[1., 2.], q / 2., q).set_value_at_time(1., q)),
        2 => drop(p.set_value_at_time(1., q).set_value_curve_at_time(&[1., 2.], q, q)),
        3 => drop(p.set_value_curve_at_time(&[1., 2.], 0., q).set_value_at_time(1., q)),
        _ => drop(p.set_value_curve_at_time(&[1., 2.], 0., q).set_value_curve_at_time(&[1., 2.], q, q)),
    });
    let rendered = catch(|| render(c)).is_ok();
    check("arguments: overlapping automation does not stop the rendering", r.is_err() || rendered);
}

fn rate_constraint() {
    let c = ctx(1, N);
    let osc = c.create_oscillator();
    let comp = c.create_dynamics_compressor();
    let src = c.create_buffer_source();
    let gain = c.create_gain();
    let (p, fixed): (&AudioParam, bool) = match pick("param", 0, 9) {
        0 => (osc.frequency(), false),
        1 => (osc.detune(), false),
        2 => (gain.gain(), false),
        3 => (comp.threshold(), true),
        4 => (comp.knee(), true),
        5 => (comp.ratio(), true),
        6 => (comp.attack(), true),
        7 => (comp.release(), true),
        8 => (src.playback_rate(), true),
        _ => (src.detune(), true),
    };
    check("arguments: default automation rate", p.automation_rate() == if fixed { AutomationRate::K } else { AutomationRate::A });
    let r = if pick_bool("a-rate") { AutomationRate::A } else { AutomationRate::K };
    let ok = !fixed || r == AutomationRate::K;
    check("arguments: fixed automation rates", catch(|| p.set_automation_rate(r)).is_ok() == ok);
    check("arguments: automation rate", p.automation_rate() == if ok { r } else { AutomationRate::K });
}

// (kind, most channels, modes allowed)
#[derive(Clone, Copy, PartialEq)]
enum Rule {
    Free,
    // one or two channels, never `Max`
    Stereo,
    // a fixed number of channels, always `Explicit`
    Fixed(usize),
    // as `Fixed`, and always `Discrete`
    Discrete(usize),
}

const NODES: i64 = 15;

fn node(c: &OfflineAudioContext, k: i64) -> (Box<dyn AudioNode>, Rule) {
    match k {
        0 => (Box::new(c.create_gain()), Rule::Free),
        1 => (Box::new(c.create_delay(1.)), Rule::Free),
        2 => (Box::new(c.create_biquad_filter()), Rule::Free),
        3 => (Box::new(c.create_iir_filter(vec![1.], vec![1.])), Rule::Free),
        4 => (Box::new(c.create_wave_shaper()), Rule::Free),
        5 => (Box::new(c.create_analyser()), Rule::Free),
        6 => (Box::new(c.create_constant_source()), Rule::Free),
        7 => (Box::new(c.create_oscillator()), Rule::Free),
        8 => (Box::new(c.create_buffer_source()), Rule::Free),
        9 => (Box::new(c.create_stereo_panner()), Rule::Stereo),
        10 => (Box::new(c.create_panner()), Rule::Stereo),
        11 => (Box::new(c.create_convolver()), Rule::Stereo),
        12 => (Box::new(c.create_dynamics_compressor()), Rule::Stereo),
        13 => (Box::new(c.create_channel_merger(3)), Rule::Fixed(1)),
        14 => (Box::new(c.create_channel_splitter(3)), Rule::Discrete(3)),
        _ => (Box::new(c.destination()), Rule::Fixed(2)),
    }
}

fn channels() {
    let c = ctx(2, N);
    let (node, rule) = node(&c, pick("node", 0, NODES));
    let n = COUNTS[pick("count", 0, 5) as usize];
    let before = node.channel_count();
    let ok = n > 0
        && n <= match rule {
            Rule::Free => 32,
            Rule::Stereo => 2,
            Rule::Fixed(f) | Rule::Discrete(f) => f,
        }
        && match rule {
            Rule::Fixed(f) | Rule::Discrete(f) => n == f,
            _ => true,
        };
    check("arguments: channel counts the node supports", catch(|| node.set_channel_count(n)).is_ok() == ok);
    check("arguments: channel count", node.channel_count() == if ok { n } else { before });
}

fn mode() {
    let c = ctx(2, N);
    let (node, rule) = node(&c, pick("node", 0, NODES));
    let m = [ChannelCountMode::Max, ChannelCountMode::ClampedMax, ChannelCountMode::Explicit][pick("mode", 0, 2) as usize];
    let i = [ChannelInterpretation::Speakers, ChannelInterpretation::Discrete][pick("interpretation", 0, 1) as usize];
    let (m0, i0) = (node.channel_count_mode(), node.channel_interpretation());
    let ok = match rule {
        Rule::Free => true,
        Rule::Stereo => m != ChannelCountMode::Max,
        _ => m == ChannelCountMode::Explicit,
    };
    check("arguments: count modes the node supports", catch(|| node.set_channel_count_mode(m)).is_ok() == ok);
    check("arguments: count mode", node.channel_count_mode() == if ok { m } else { m0 });
    let ok = !matches!(rule, Rule::Discrete(_)) || i == ChannelInterpretation::Discrete;
    check("arguments: interpretations the node supports", catch(|| node.set_channel_interpretation(i)).is_ok() == ok);
    check("arguments: interpretation", node.channel_interpretation() == if ok { i } else { i0 });
}

fn channels_new() {
    let c = ctx(2, N);
    let n = COUNTS[pick("count", 0, 5) as usize];
    let m = [ChannelCountMode::Max, ChannelCountMode::ClampedMax, ChannelCountMode::Explicit][pick("mode", 0, 2) as usize];
    let o = AudioNodeOptions { channel_count: n, channel_count_mode: m, channel_interpretation: ChannelInterpretation::Discrete };
    let o2 = o.clone();
    let which = pick("node", 0, 8);
    let r = catch(|| -> Box<dyn AudioNode> {
        match which {
            0 => Box::new(GainNode::new(&c, GainOptions { audio_node_options: o, ..Default::default() })),
            1 => Box::new(DelayNode::new(&c, DelayOptions { audio_node_options: o, ..Default::default() })),
            2 => Box::new(BiquadFilterNode::new(&c, BiquadFilterOptions { audio_node_options: o, ..Default::default() })),
            3 => Box::new(WaveShaperNode::new(&c, WaveShaperOptions { audio_node_options: o, ..Default::default() })),
            4 => Box::new(StereoPannerNode::new(&c, StereoPannerOptions { audio_node_options: o, ..Default::default() })),
            5 => Box::new(PannerNode::new(&c, PannerOptions { audio_node_options: o, ..Default::default() })),
            6 => Box::new(ConvolverNode::new(&c, ConvolverOptions { audio_node_options: o, ..Default::default() })),
            7 => Box::new(DynamicsCompressorNode::new(&c, DynamicsCompressorOptions { audio_node_options: o, ..Default::default() })),
            _ => Box::new(ChannelMergerNode::new(&c, ChannelMergerOptions { audio_node_options: o, number_of_inputs: 2 })),
        }
    });
    let ok = match which {
        0..=3 => n > 0 && n <= 32,
        8 => n == 1 && m == ChannelCountMode::Explicit,
        _ => n > 0 && n <= 2 && m != ChannelCountMode::Max,
    };
    check("arguments: channel options of a new node", r.is_ok() == ok);
    if let Ok(node) = r {
        check(
            "arguments: channel options kept",
            node.channel_count() == o2.channel_count && node.channel_count_mode() == m && node.channel_interpretation() == ChannelInterpretation::Discrete,
        );
    }
}

fn delay() {
    let c = ctx(1, N);
    let k = pick("case", 0, 3);
    let d: f64 = match k {
        0 => any("max", -1, 200),
        _ => BAD[k as usize - 1],
    };
    if k == 0 {
        // the ring buffer is allocated for the maximum
        assume(d <= 0. || (d > 0.001 && d < 0.002) || d >= 180.);
    }
    let ok = k == 0 && d > 0. && d < 180.;
    check("arguments: maximum delay", catch(|| c.create_delay(d)).is_ok() == ok);
}

fn iir() {
    let c = ctx(1, N);
    match pick("case", 0, 2) {
        0 => {
            let n = [0, 1, 2, 20, 21][pick("feedforward", 0, 4) as usize];
            let m = [0, 1, 2, 20, 21][pick("feedback", 0, 4) as usize];
            let ok = n > 0 && n <= 20 && m > 0 && m <= 20;
            check("arguments: number of coefficients", catch(|| c.create_iir_filter(vec![1.; n], vec![1.; m])).is_ok() == ok);
        }
        1 => {
            let mut b = vec![0.; 3];
            let mut a = vec![1.; 3];
            let k = pick("non-zero", 0, 3) as usize;
            if k < 3 {
                b[k] = 1.;
            }
            let z = pick("zero", 0, 3) as usize;
            if z < 3 {
                a[z] = 0.;
            }
            check("arguments: usable coefficients", catch(|| c.create_iir_filter(b, a)).is_ok() == (k < 3 && z != 0));
        }
        _ => {
            let f = vec![100.; 1 + pick("frequencies", 0, 2) as usize];
            let mut m = vec![0.; 1 + pick("magnitudes", 0, 2) as usize];
            let mut p = vec![0.; 1 + pick("phases", 0, 2) as usize];
            let ok = f.len() == m.len() && m.len() == p.len();
            let r = if pick_bool("biquad") {
                let n = c.create_biquad_filter();
                catch(|| n.get_frequency_response(&f, &mut m, &mut p))
            } else {
                let n = c.create_iir_filter(vec![1.], vec![1., 0.5]);
                catch(|| n.get_frequency_response(&f, &mut m, &mut p))
            };
            check("arguments: frequency response arrays of equal length", r.is_ok() == ok);
        }
    }
}

fn panner() {
    let c = ctx(2, N);
    let v: f64 = any("v", -2, 2);
    let which = pick("attribute", 0, 3);
    let ok = match which {
        0 | 1 => v >= 0.,
        2 => v > 0.,
        _ => v >= 0. && v <= 1.,
    };
    let r = if pick_bool("new") {
        let mut o = PannerOptions::default();
        match which {
            0 => o.ref_distance = v,
            1 => o.rolloff_factor = v,
            2 => o.max_distance = v,
            _ => o.cone_outer_gain = v,
        }
        catch(|| PannerNode::new(&c, o))
    } else {
        let mut p = c.create_panner();
        let before = [p.ref_distance(), p.rolloff_factor(), p.max_distance(), p.cone_outer_gain()];
        let r = catch(|| match which {
            0 => p.set_ref_distance(v),
            1 => p.set_rolloff_factor(v),
            2 => p.set_max_distance(v),
            _ => p.set_cone_outer_gain(v),
        });
        let after = [p.ref_distance(), p.rolloff_factor(), p.max_distance(), p.cone_outer_gain()];
        for i in 0..4 {
            check_eq("arguments: panner attribute", after[i], if ok && i as i64 == which { v } else { before[i] });
        }
        r.map(|_| p)
    };
    check("arguments: range of panner attributes", r.is_ok() == ok);
}

fn analyser() {
    let c = ctx(1, N);
    let which = pick("attribute", 0, 3);
    let v: f64 = if which == 0 { any("v", -1, 2) } else { any("v", -150, 0) };
    let size = [0, 16, 31, 32, 48, 32768, 65536][if which == 3 { pick("size", 0, 6) as usize } else { 3 }];
    let ok = match which {
        0 => v >= 0. && v <= 1.,
        1 => v < -30.,
        2 => v > -100.,
        _ => size == 32 || size == 32768,
    };
    let (mut smoothing, mut lo, mut hi, mut n): (f64, f64, f64, usize) = (0.8, -100., -30., 2048);
    if ok {
        match which {
            0 => smoothing = v,
            1 => lo = v,
            2 => hi = v,
            _ => n = size,
        }
    }
    if pick_bool("new") {
        let mut o = AnalyserOptions::default();
        match which {
            0 => o.smoothing_time_constant = v,
            1 => o.min_decibels = v,
            2 => o.max_decibels = v,
            _ => o.fft_size = size,
        }
        check("arguments: range of analyser options", catch(|| AnalyserNode::new(&c, o)).is_ok() == ok);
        return;
    }
    let mut a = c.create_analyser();
    let r = catch(|| match which {
        0 => a.set_smoothing_time_constant(v),
        1 => a.set_min_decibels(v),
        2 => a.set_max_decibels(v),
        _ => a.set_fft_size(size),
    });
    check("arguments: range of analyser attributes", r.is_ok() == ok);
    check_eq("arguments: analyser smoothing", a.smoothing_time_constant(), smoothing);
    check_eq("arguments: analyser decibels", a.min_decibels(), lo);
    check_eq("arguments: analyser decibels", a.max_decibels(), hi);
    check("arguments: analyser size", a.fft_size() == n);
}

fn convolver() {
    let c = ctx(2, N);
    let n = [1, 2, 3, 4, 5, 6][pick("channels", 0, 5) as usize];
    let same = pick_bool("same rate");
    let rate = if same { SR } else { SR / 2. };
    let ok = same && [1, 2, 4].contains(&n);
    let mut node = c.create_convolver();
    let b = c.create_buffer(n, 2, rate);
    check("arguments: impulse responses the convolver supports", catch(|| node.set_buffer(b)).is_ok() == ok);
    check("arguments: impulse response", node.buffer().is_some() == ok);
}

fn ports() {
    let c = ctx(1, N);
    let n = COUNTS[pick("count", 0, 5) as usize];
    let ok = n > 0 && n <= 32;
    let s = catch(|| c.create_channel_splitter(n));
    let m = catch(|| c.create_channel_merger(n));
    check("arguments: 1 to 32 ports", s.is_ok() == ok && m.is_ok() == ok);
    if let (Ok(s), Ok(m)) = (s, m) {
        check("arguments: ports as asked for", s.number_of_outputs() == n && s.number_of_inputs() == 1 && m.number_of_inputs() == n && m.number_of_outputs() == 1);
    }
}

fn wave() {
    let c = ctx(1, N);
    match pick("case", 0, 2) {
        0 => {
            let n = pick("real", -1, 3);
            let m = pick("imag", -1, 3);
            let ok = match (n, m) {
                (-1, -1) => true,
                (-1, k) | (k, -1) => k >= 2,
                (a, b) => a == b && a >= 2,
            };
            let array = |n: i64| if n < 0 { None } else { Some(vec![0.5; n as usize]) };
            let r = catch(|| PeriodicWave::new(&c, PeriodicWaveOptions { real: array(n), imag: array(m), disable_normalization: true }));
            check("arguments: lengths of the coefficients", r.is_ok() == ok);
        }
        1 => {
            let r = catch(|| OscillatorNode::new(&c, OscillatorOptions { type_: OscillatorType::Custom, ..Default::default() }));
            check("arguments: custom type needs a wave", r.is_err());
        }
        _ => {
            let mut o = c.create_oscillator();
            check("arguments: custom type cannot be set", catch(|| o.set_type(OscillatorType::Custom)).is_err());
            check("arguments: type kept", o.type_() == OscillatorType::Sine);
            o.set_type(OscillatorType::Square);
            check("arguments: type set", o.type_() == OscillatorType::Square);
            o.set_periodic_wave(PeriodicWave::new(&c, PeriodicWaveOptions::default()));
            check("arguments: custom type", o.type_() == OscillatorType::Custom);
            o.set_type(OscillatorType::Square);
            check("arguments: custom wave wins", o.type_() == OscillatorType::Custom);
        }
    }
}

fn connect() {
    let c = ctx(3, N);
    let s = c.create_channel_splitter(2);
    let m = c.create_channel_merger(3);
    let x = any_signal("x", 2, N);
    let src = feed_signal(&c, &x);
    src.connect(&s);
    m.connect(&c.destination());
    let o = pick("output", 0, 3) as usize;
    let i = pick("input", 0, 4) as usize;
    let ok = o < 2 && i < 3;
    check("arguments: existing ports only", catch(|| drop(s.connect_from_output_to_input(&m, o, i))).is_ok() == ok);
    let y = render(c);
    for j in 0..3 {
        for k in 0..N {
            check_eq("arguments: rejected connection has no effect", y[j][k], if ok && i == j { x[o][k] } else { 0. });
        }
    }
}

fn disconnect() {
    let c = ctx(2, N);
    let x = any_signal("x", 2, N);
    let src = feed_signal(&c, &x);
    let s = c.create_channel_splitter(2);
    let m = c.create_channel_merger(2);
    let g = c.create_gain();
    src.connect(&s);
    s.connect_from_output_to_input(&m, 0, 0);
    s.connect_from_output_to_input(&m, 1, 1);
    m.connect(&c.destination());
    let r = match pick("call", 0, 5) {
        0 => catch(|| s.disconnect_output(2)),
        1 => catch(|| s.disconnect_dest(&g)),
        2 => catch(|| s.disconnect_dest_from_output(&m, 2)),
        3 => catch(|| s.disconnect_dest_from_output_to_input(&m, 0, 1)),
        4 => catch(|| s.disconnect_dest_from_output_to_input(&m, 0, 2)),
        _ => catch(|| s.disconnect_dest_from_output(&g, 0)),
    };
    check("arguments: existing connections only", r.is_err());
    let y = render(c);
    for j in 0..2 {
        for k in 0..N {
            check_eq("arguments: rejected disconnection has no effect", y[j][k], x[j][k]);
        }
    }
}

fn foreign() {
    let (a, b) = (ctx(1, N), ctx(1, N));
    let s = player3(&a);
    let g = b.create_gain();
    let r = match pick("call", 0, 4) {
        0 => catch(|| drop(s.connect(&g))),
        1 => catch(|| drop(s.connect(g.gain()))),
        2 => catch(|| drop(g.connect(&a.destination()))),
        3 => catch(|| s.disconnect_dest(&b.destination())),
        _ => catch(|| s.disconnect_dest_from_output(&g, 0)),
    };
    check("arguments: same context only", r.is_err());
    g.connect(&b.destination());
    let (y, z) = (render(a), render(b));
    for i in 0..N {
        check_eq("arguments: contexts undisturbed", y[0][i], 3.);
        check_eq("arguments: contexts undisturbed", z[0][i], 0.);
    }
}
