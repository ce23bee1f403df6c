use crate::context::{BaseAudioContext, OfflineAudioContext};
use crate::node::{AudioNode, DynamicsCompressorNode, DynamicsCompressorOptions};
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "compressor_api", target: "DynamicsCompressorNode, loud then soft then silent", body: api },
        Contract { name: "compressor_api_linear", target: "DynamicsCompressorNode with ratio 1", body: linear },
        Contract { name: "compressor_api_automated", target: "DynamicsCompressorNode, parameters changed while playing", body: automated },
    ]
}

#[derive(Clone, Copy)]
struct Setting {
    attack: f32,
    knee: f32,
    ratio: f32,
    release: f32,
    threshold: f32,
}

fn settings(n: usize) -> Setting {
    let s = |attack, knee, ratio, release, threshold| Setting { attack, knee, ratio, release, threshold };
    [
        s(0.003, 30., 12., 0.25, -24.),
        s(0.003, 0., 12., 0.25, -24.),
        s(0.0625, 10., 2., 0.125, -50.),
        s(0.003, 40., 20., 0.5, -20.),
        s(0.003, 5., 4., 0.25, -2.),
    ][n]
}

fn options(s: Setting) -> DynamicsCompressorOptions {
    DynamicsCompressorOptions { attack: s.attack, knee: s.knee, ratio: s.ratio, release: s.release, threshold: s.threshold, ..Default::default() }
}

// level in dB -> level in dB
fn shaped(s: Setting, x: f32) -> f32 {
    if x <= s.threshold {
        x
    } else if x <= s.threshold + s.knee {
        x + (1. / s.ratio - 1.) * (x - s.threshold) * (x - s.threshold) / (2. * s.knee)
    } else {
        let t = s.threshold + s.knee / 2.;
        t + (x - t) / s.ratio
    }
}

fn db(v: f32) -> f32 {
    if v == 0. {
        -1000.
    } else {
        20. * v.log10()
    }
}

fn follow(s: Setting, rate: f32, prev: f32, level: f32) -> f32 {
    let x = db(level);
    let a = x - shaped(s, x);
    let tau = if a > prev { s.attack } else { s.release };
    let k = (-1. / (tau * rate)).exp();
    k * prev + (1. - k) * a
}

/// gain in dB at every frame
fn gains(s: Setting, rate: f32, x: &[Vec<f32>], frames: usize) -> Vec<f32> {
    let mut d = 0.;
    let mut out = vec![];
    for i in 0..frames {
        let mut level: f32 = 0.;
        for c in x {
            if i < c.len() && c[i].abs() > level {
                level = c[i].abs();
            }
        }
        d = follow(s, rate, d, level);
        out.push(-0.6 * shaped(s, 0.) - d);
    }
    out
}

fn api() {
    let s = settings(pick("setting", 0, 4) as usize);
    let (rate, delay) = [(32768., 2), (8192., 1), (65536., 4)][pick("rate", 0, 2) as usize];
    let ch = pick("channels", 1, 2) as usize;
    let loud: f32 = [0.5, 1.5, 0.01][pick("level", 0, 2) as usize];
    let at = [3, 2 * N - 1][pick("frame", 0, 1) as usize];
    let mut x: Vec<Vec<f32>> = (0..ch).map(|j| (0..2 * N).map(|i| if i == at && j == ch - 1 { -0.75 } else if i < N { loud } else { 0.0625 }).collect()).collect();
    if ch == 2 {
        // softer than the other channel
        x[0][at] = any("v", -0.6, 0.6);
    }
    let frames = (3 + delay) * N;
    let c = OfflineAudioContext::new(2, frames, rate);
    let node = DynamicsCompressorNode::new(&c, options(s));
    let src = feed_signal(&c, &x);
    src.connect(&node);
    node.connect(&c.destination());
    let kept = if pick_bool("dropped") { None } else { Some(node) };
    let y = render(c);
    let g = gains(s, rate, &x, frames);
    for j in 0..2 {
        let src = &x[j.min(ch - 1)];
        for i in 0..frames {
            let from = delay * N;
            if i < from || i >= from + src.len() {
                check_eq("compressor: silent before and after", y[j][i], 0.);
                continue;
            }
            let want = src[i - from];
            if i != at + from && i % 16 != 0 {
                continue;
            }
            check_within("compressor: delayed input times gain", y[j][i], want * 10f32.powf(g[i] / 20.), 0.0005);
        }
    }
    if let Some(node) = kept {
        check_within("compressor: reduction of the last frame", node.reduction(), g[frames - 1], 0.005);
    }
}

// nothing to reduce: the delayed input
fn linear() {
    let ch = pick("channels", 1, 2) as usize;
    let at = pick_frame();
    let s = Setting { attack: 0.003, knee: [0., 30.][pick("knee", 0, 1) as usize], ratio: 1., release: 0.25, threshold: [0., -24.][pick("threshold", 0, 1) as usize] };
    let c = ctx(2, 5 * N);
    let node = DynamicsCompressorNode::new(&c, options(s));
    let x: Vec<Vec<f32>> = (0..ch).map(|j| one_free(&format!("x{}", j), 2 * N, at, -0.75, 0.75)).collect();
    let src = feed_signal(&c, &x);
    src.connect(&node);
    node.connect(&c.destination());
    let y = render(c);
    for j in 0..2 {
        for i in 0..5 * N {
            let want = if i >= 2 * N && i < 4 * N { x[j.min(ch - 1)][i - 2 * N] } else { 0. };
            check_within("compressor: ratio 1 only delays", y[j][i], want, 0.0001);
        }
    }
}

fn automated() {
    let a = settings(0);
    let mut b = a;
    let what = pick("parameter", 0, 4);
    match what {
        0 => b.attack = 0.5,
        1 => b.knee = 5.,
        2 => b.ratio = 3.,
        3 => b.release = 0.0625,
        _ => b.threshold = -40.,
    }
    let level: f32 = [0.5, 0.03125][pick("level", 0, 1) as usize];
    let c = ctx(1, 4 * N);
    let node = DynamicsCompressorNode::new(&c, options(a));
    let x = vec![(0..4 * N).map(|i| if i < 64 { 0.5 } else { level }).collect::<Vec<f32>>()];
    let src = feed_signal(&c, &x);
    src.connect(&node);
    node.connect(&c.destination());
    let t = (2 * N) as f64 / SR as f64;
    match what {
        0 => node.attack().set_value_at_time(b.attack, t),
        1 => node.knee().set_value_at_time(b.knee, t),
        2 => node.ratio().set_value_at_time(b.ratio, t),
        3 => node.release().set_value_at_time(b.release, t),
        _ => node.threshold().set_value_at_time(b.threshold, t),
    };
    let y = render(c);
    let mut d = 0.;
    for i in 0..4 * N {
        let s = if i < 2 * N { a } else { b };
        d = follow(s, SR, d, x[0][i]);
        if i >= 2 * N {
            check_within("compressor: uses the current parameters", y[0][i], x[0][i - 2 * N] * 10f32.powf((-0.6 * shaped(s, 0.) - d) / 20.), 0.0005);
        }
    }
}
