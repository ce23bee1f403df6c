use crate::node::{AudioNode, BiquadFilterNode, BiquadFilterOptions, BiquadFilterType, IIRFilterNode, IIRFilterOptions};
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "biquad_api", target: "BiquadFilterNode in a rendering", body: biquad_api },
        Contract { name: "biquad_api_arate", target: "BiquadFilterNode with moving parameters", body: biquad_api_arate },
        Contract { name: "filter_gaps", target: "BiquadFilterNode / IIRFilterNode: gaps and layout changes", body: filter_gaps },
        Contract { name: "biquad_response", target: "BiquadFilterNode::get_frequency_response", body: biquad_response },
        Contract { name: "iir_api", target: "IIRFilterNode in a rendering", body: iir_api },
        Contract { name: "iir_response", target: "IIRFilterNode::get_frequency_response", body: iir_response },
        Contract { name: "response_range", target: "get_frequency_response outside of [0, Nyquist]", body: response_range },
    ]
}

const TYPES: [BiquadFilterType; 8] = [
    BiquadFilterType::Lowpass,
    BiquadFilterType::Highpass,
    BiquadFilterType::Bandpass,
    BiquadFilterType::Notch,
    BiquadFilterType::Allpass,
    BiquadFilterType::Peaking,
    BiquadFilterType::Lowshelf,
    BiquadFilterType::Highshelf,
];

fn check_played(tape: &Tape, ch: usize, want: &[Vec<f32>]) {
    for (g, w) in played(tape, 0, ch).iter().zip(want) {
        for (a, b) in g.iter().zip(w) {
            check_close("filtered: every frame", *a, *b, 1e-4);
        }
    }
}

// two quanta of sound, then the tail; the type may be changed after the node was built
fn biquad_api() {
    let t = pick("type", 0, 7) as usize;
    let changed = pick_bool("changed");
    let ch = pick("channels", 1, 2) as usize;
    let c = ctx(1, 3 * N);
    let x = any_signal("x", ch, 2 * N);
    let src = feed_signal(&c, &x);
    let mut o = BiquadFilterOptions::default();
    o.type_ = if changed { TYPES[(t + 1) % 8] } else { TYPES[t] };
    o.frequency = 1900.5;
    o.detune = -1200.;
    o.q = 2.5;
    o.gain = 7.;
    let mut n = BiquadFilterNode::new(&c, o);
    if changed {
        n.set_type(TYPES[t]);
    }
    check("type reads back", n.type_() == TYPES[t]);
    let (rec, tape) = record(&c, 1);
    src.connect(&n);
    n.connect(&rec);
    run(c);
    let [b0, b1, b2, a1, a2] = spec_biquad(TYPES[t], 950.25, 7., 2.5);
    let want: Vec<Vec<f32>> = x
        .iter()
        .map(|x| {
            let mut s = [0f64; 4];
            (0..3 * N)
                .map(|i| {
                    let x: f64 = if i < x.len() { x[i] as f64 } else { 0. };
                    let y = b0 * x + b1 * s[0] + b2 * s[1] - a1 * s[2] - a2 * s[3];
                    s = [x, s[0], y, s[2]];
                    y as f32
                })
                .collect()
        })
        .collect();
    check_played(&tape, ch, &want);
}

// every frame is filtered with the coefficients of that frame
fn biquad_api_arate() {
    let t = TYPES[pick("type", 0, 7) as usize];
    let which = pick("parameter", 0, 3) as usize;
    let c = ctx(1, 2 * N);
    let x = any_signal("x", 1, 2 * N);
    let src = feed_signal(&c, &x);
    let mut o = BiquadFilterOptions::default();
    o.type_ = t;
    o.frequency = 1900.5;
    o.detune = -1200.;
    o.q = 2.5;
    o.gain = 7.;
    let n = BiquadFilterNode::new(&c, o);
    let p = [n.frequency(), n.detune(), n.q(), n.gain()][which];
    let m: Vec<f32> = (0..2 * N).map(|i| i as f32 * [8., 4., 0.0625, -0.0625][which]).collect();
    let feeder = drive(&c, p, &m);
    let (rec, tape) = record(&c, 1);
    src.connect(&n);
    n.connect(&rec);
    run(c);
    let mut s = [0f64; 4];
    let want: Vec<f32> = (0..2 * N)
        .map(|i| {
            let mut v: [f32; 4] = [1900.5, -1200., 2.5, 7.];
            v[which] += m[i];
            let [b0, b1, b2, a1, a2] = spec_biquad(t, (v[0] * (v[1] / 1200.).exp2()) as f64, v[3] as f64, v[2] as f64);
            let x = x[0][i] as f64;
            let y = b0 * x + b1 * s[0] + b2 * s[1] - a1 * s[2] - a2 * s[3];
            s = [x, s[0], y, s[2]];
            y as f32
        })
        .collect();
    check_played(&tape, 1, &[want]);
}

// silence between sounds, and sounds with another number of channels
fn filter_gaps() {
    let biquad = pick_bool("biquad");
    let c = ctx(1, 5 * N);
    let (u, w) = (any_block("u"), any_block("w"));
    let mut blocks: Vec<Block> = vec![vec![u.clone()]];
    for i in 1..4 {
        blocks.push(match pick(&format!("block{}", i), 0, 2) {
            0 => vec![],
            1 => vec![u.clone()],
            _ => vec![u.clone(), w.clone()],
        });
    }
    let src = feed(&c, blocks.clone());
    let (rec, tape) = record(&c, 1);
    let b = [0.5, 0.25, -0.5];
    let a = [1., 0.75, 0.25];
    let k = if biquad {
        let mut o = BiquadFilterOptions::default();
        o.frequency = 950.25;
        o.q = 2.5;
        let n = BiquadFilterNode::new(&c, o);
        src.connect(&n);
        n.connect(&rec);
        spec_biquad(BiquadFilterType::Lowpass, 950.25, 0., 2.5)
    } else {
        let n = IIRFilterNode::new(&c, IIRFilterOptions { audio_node_options: Default::default(), feedforward: b.to_vec(), feedback: a.to_vec() });
        src.connect(&n);
        n.connect(&rec);
        [b[0], b[1], b[2], a[1], a[2]]
    };
    run(c);
    // the left channel is never interrupted; silence is a channel of zeros
    let mut s = [0f64; 4];
    let got: Vec<Block> = tape.lock().unwrap().iter().map(|q| q[0].clone()).collect();
    for i in 0..5 * N {
        let x: f64 = match blocks.get(i / N).and_then(|q| q.first()) {
            Some(ch) => ch[i % N] as f64,
            None => 0.,
        };
        let [b0, b1, b2, a1, a2] = k;
        let y = b0 * x + b1 * s[0] + b2 * s[1] - a1 * s[2] - a2 * s[3];
        s = [x, s[0], y, s[2]];
        check_close("gaps: left channel", got[i / N][0][i % N] as f64, y, 1e-4);
    }
}

fn iir_api() {
    let ch = pick("channels", 1, 2) as usize;
    let (b, a) = match pick("coefficients", 0, 3) {
        0 => (vec![0.5], vec![2.]),
        1 => (vec![0.5, -0.25, 0.75], vec![4.]),
        2 => (vec![3.], vec![2., 0.5, -0.25]),
        _ => (vec![0.5, 0.25, -0.5], vec![-2., 0.75, 0.5]),
    };
    let c = ctx(1, 3 * N);
    let x = any_signal("x", ch, 2 * N);
    let src = feed_signal(&c, &x);
    let n = IIRFilterNode::new(&c, IIRFilterOptions { audio_node_options: Default::default(), feedforward: b.clone(), feedback: a.clone() });
    let (rec, tape) = record(&c, 1);
    src.connect(&n);
    n.connect(&rec);
    run(c);
    let want: Vec<Vec<f32>> = x
        .iter()
        .map(|x| {
            let mut y: Vec<f64> = vec![];
            for i in 0..3 * N {
                let mut v = 0.;
                for (k, b) in b.iter().enumerate() {
                    if k <= i && i - k < x.len() {
                        v += *b * x[i - k] as f64;
                    }
                }
                for (k, a) in a.iter().enumerate().skip(1) {
                    if k <= i {
                        v -= *a * y[i - k];
                    }
                }
                y.push(v / a[0]);
            }
            y.iter().map(|v| *v as f32).collect()
        })
        .collect();
    check_played(&tape, ch, &want);
}

/// H(z) at z = e^(jw), as (re, im)
fn transfer(b: &[f64], a: &[f64], w: f64) -> (f64, f64) {
    let sum = |c: &[f64]| {
        let mut s: (f64, f64) = (0., 0.);
        for (k, c) in c.iter().enumerate() {
            s.0 += *c * (k as f64 * w).cos();
            s.1 -= *c * (k as f64 * w).sin();
        }
        s
    };
    let (n, d) = (sum(b), sum(a));
    let q = d.0 * d.0 + d.1 * d.1;
    ((n.0 * d.0 + n.1 * d.1) / q, (n.1 * d.0 - n.0 * d.1) / q)
}

fn check_response(mag: &[f32], phase: &[f32], f: &[f32], b: &[f64], a: &[f64]) {
    for i in 0..f.len() {
        let w = 2. * std::f64::consts::PI * f[i] as f64 / SR as f64;
        let (re, im) = transfer(b, a, w);
        let (m, p) = (mag[i] as f64, phase[i] as f64);
        check_close("response: |H|^2", m * m, re * re + im * im, 1e-3);
        check("response: magnitude is not negative", m >= 0.);
        check_close("response: phase", p.cos() * m, re, 1e-3);
        check_close("response: phase (sine)", p.sin() * m, im, 1e-3);
    }
}

const FREQS: [f32; 6] = [0., 10., 777.5, 4096., 12000., 16384.];

// the response is that of the difference equation the node computes
fn biquad_response() {
    let t = TYPES[pick("type", 0, 7) as usize];
    let c = ctx(1, N);
    let mut o = BiquadFilterOptions::default();
    o.type_ = t;
    o.frequency = [300., 1900.5, 9000.][pick("frequency", 0, 2) as usize];
    o.detune = [0., 700., -1200.][pick("detune", 0, 2) as usize];
    o.q = [0.5, 2.5][pick("q", 0, 1) as usize];
    o.gain = [-9., 7.][pick("gain", 0, 1) as usize];
    let f0 = (o.frequency * (o.detune / 1200.).exp2()) as f64;
    let [b0, b1, b2, a1, a2] = spec_biquad(t, f0, o.gain as f64, o.q as f64);
    let n = BiquadFilterNode::new(&c, o);
    let (mut m, mut p) = ([9.; 6], [9.; 6]);
    n.get_frequency_response(&FREQS, &mut m, &mut p);
    check_response(&m, &p, &FREQS, &[b0, b1, b2], &[1., a1, a2]);
}

fn iir_response() {
    let c = ctx(1, N);
    let (b, a) = match pick("coefficients", 0, 4) {
        0 => (vec![0.5], vec![2.]),
        1 => (vec![0.5, -0.25, 0.75], vec![4.]),
        2 => (vec![3.], vec![2., 0.5, -0.25]),
        3 => (vec![0.5, 0.25, -0.5, 0.125], vec![-2., 0.75, 0.5]),
        _ => (vec![-1., 0.25], vec![1., 0.125, 0.25, 0.0625]),
    };
    let n = IIRFilterNode::new(&c, IIRFilterOptions { audio_node_options: Default::default(), feedforward: b.clone(), feedback: a.clone() });
    let (mut m, mut p) = ([9.; 6], [9.; 6]);
    n.get_frequency_response(&FREQS, &mut m, &mut p);
    check_response(&m, &p, &FREQS, &b, &a);
}

// NaN exactly outside of [0, Nyquist], element by element
fn response_range() {
    let c = ctx(1, N);
    let f: [f32; 3] = [
        [0., 16384., 5.][pick("in", 0, 2) as usize],
        match pick("out", 0, 1) {
            0 => any("below", -100000., -0.001),
            _ => any("above", 16384.001, 100000.),
        },
        100.,
    ];
    let (mut m, mut p) = ([9.; 3], [9.; 3]);
    if pick_bool("biquad") {
        let n = BiquadFilterNode::new(&c, Default::default());
        n.get_frequency_response(&f, &mut m, &mut p);
    } else {
        let n = IIRFilterNode::new(&c, IIRFilterOptions { audio_node_options: Default::default(), feedforward: vec![1.], feedback: vec![1., 0.5] });
        n.get_frequency_response(&f, &mut m, &mut p);
    }
    check("outside: NaN", m[1].is_nan() && p[1].is_nan());
    check("inside: a number", !m[0].is_nan() && !p[0].is_nan() && !m[2].is_nan() && !p[2].is_nan());
}
