use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "compressor_curve", target: "DynamicsCompressorRenderer::process, level of one frame", body: curve },
        Contract { name: "compressor_detector", target: "DynamicsCompressorRenderer::process from any detector value", body: detector },
        Contract { name: "compressor_delay", target: "DynamicsCompressorRenderer::process, look-ahead delay and layouts", body: delay },
        Contract { name: "compressor_tail", target: "DynamicsCompressorRenderer::process, end of the delay line", body: tail },
        Contract { name: "compressor_units", target: "db_to_lin / lin_to_db", body: units },
    ]
}

/// quanta of delay: the smallest number that covers 6 ms
const RING: usize = 3;

fn renderer(prev: f32) -> DynamicsCompressorRenderer {
    let mut ring_buffer = Vec::with_capacity(RING);
    ring_buffer.clear();
    DynamicsCompressorRenderer {
        attack: id(0),
        knee: id(1),
        ratio: id(2),
        release: id(3),
        threshold: id(4),
        reduction: Arc::new(AtomicF32::new(0.)),
        ring_buffer,
        ring_index: 0,
        prev_detector_value: prev,
    }
}

#[derive(Clone, Copy)]
pub(super) struct Setting {
    attack: f32,
    knee: f32,
    ratio: f32,
    release: f32,
    threshold: f32,
}

fn settings(n: usize) -> Setting {
    let s = |attack, knee, ratio, release, threshold| Setting { attack, knee, ratio, release, threshold };
    [
        s(0.003, 30., 12., 0.25, -24.),
        s(0.003, 0., 12., 0.25, -24.),
        s(0.0625, 10., 2., 0.125, -50.),
        s(0.003, 40., 20., 0.5, -20.),
        s(0.003, 5., 4., 0.25, 0.),
        s(0.003, 0., 4., 0.25, 0.),
        s(0.003, 30., 1., 0.25, -24.),
        s(1., 40., 20., 1., -100.),
    ][n]
}

fn call(s: Setting) -> Call {
    let mut c = Call::new(1);
    for (n, v) in [s.attack, s.knee, s.ratio, s.release, s.threshold].into_iter().enumerate() {
        c.param(n, &[v]);
    }
    c
}

/// compression curve in dB: unchanged up to the threshold, slope 1/ratio above the knee, smooth in between
fn shaped(s: Setting, x: f32) -> f32 {
    if x <= s.threshold {
        x
    } else if x <= s.threshold + s.knee {
        x + (1. / s.ratio - 1.) * (x - s.threshold) * (x - s.threshold) / (2. * s.knee)
    } else {
        let t = s.threshold + s.knee / 2.;
        t + (x - t) / s.ratio
    }
}

fn db(v: f32) -> f32 {
    if v == 0. {
        -1000.
    } else {
        20. * v.log10()
    }
}

fn lin(v: f32) -> f32 {
    10f32.powf(v / 20.)
}

/// detector value after a frame with the given level
fn follow(s: Setting, prev: f32, level: f32) -> f32 {
    let x = db(level);
    let a = x - shaped(s, x);
    let tau = if a > prev { s.attack } else { s.release };
    let k = (-1. / (tau * SR)).exp();
    k * prev + (1. - k) * a
}

fn makeup(s: Setting) -> f32 {
    -0.6 * shaped(s, 0.)
}

/// run two quanta first so that the block of ones is read by the next call
fn primed(r: &mut DynamicsCompressorRenderer, c: &mut Call, prev: f32) {
    c.process(r, &[vec![vec![1.; N]]]);
    c.process(r, &[vec![vec![0.5; N]]]);
    r.prev_detector_value = prev;
}

fn curve() {
    let n = pick("setting", 0, 7) as usize;
    let s = settings(n);
    // the frames after it only decay (see compressor_detector)
    let at = [127, 126, 100][pick("frame", 0, if n == 0 { 2 } else { 0 }) as usize];
    let v: f32 = match pick("level", 0, if n == 0 { 3 } else { 2 }) {
        0 => any("v", 0.00000001, 0.05),
        1 => any("v", 0.05, 0.9),
        2 => any("v", 0.9, 4),
        _ => {
            let v: f32 = any("v", 0.001, 1);
            -v
        }
    };
    let other = pick("other channel", 0, if at == 127 { 2 } else { 0 });
    let mut r = renderer(0.);
    let mut c = call(s);
    primed(&mut r, &mut c, 0.);
    let mut x = vec![0.; N];
    x[at] = v;
    let mut b = vec![x.clone()];
    let mut level = v.abs();
    if other > 0 {
        let mut y: Vec<f32> = vec![0.; N];
        y[at] = if other == 1 { 0.25 } else { -2. };
        if y[at].abs() > level {
            level = y[at].abs();
        }
        b.insert(0, y);
    }
    c.process(&mut r, &[b]);
    let got = c.output(0);
    let mut d = 0.;
    for i in 0..N {
        d = follow(s, d, if i == at { level } else { 0. });
        let g = makeup(s) - d;
        if i <= at + 1 || i == N - 1 {
            check_within("compressor: gain", db(got[0][i]), g, 0.001);
        }
        if i == N - 1 {
            check_within("compressor: reduction", r.reduction.load(Ordering::Relaxed), g, 0.001);
        }
    }
    check_within("compressor: detector goes on", r.prev_detector_value, d, 0.001);
}

fn detector() {
    let s = settings([0, 1, 2, 7][pick("setting", 0, 3) as usize]);
    let p: f32 = any("detector", 0.0625, 60);
    let level = [0.5, 0., 1.][pick("level", 0, 2) as usize];
    let switch = [0, 64][pick("switch", 0, 1) as usize];
    let mut r = renderer(0.);
    let mut c = call(s);
    primed(&mut r, &mut c, p);
    let x: Vec<f32> = (0..N).map(|i| if i < switch { level } else { level / 4. }).collect();
    let mut want = vec![];
    let mut d = p;
    for i in 0..N {
        if i == 0 || i == switch {
            // not where attack and release give the same value
            let a = db(x[i]) - shaped(s, db(x[i]));
            if a > d {
                assume(a > d + 0.0625);
            } else {
                assume(a < d - 0.0625);
            }
        }
        d = follow(s, d, x[i]);
        want.push(d);
    }
    c.process(&mut r, &[vec![x]]);
    let got = c.output(0);
    for i in 0..N {
        check_within("compressor: envelope", db(got[0][i]), makeup(s) - want[i], 0.001);
    }
    check_within("compressor: detector goes on", r.prev_detector_value, d, 0.001);
}

// nothing to compress: the input, two quanta later, with its channels
fn delay() {
    let s = Setting { attack: 0.003, knee: 0., ratio: 1., release: 0.25, threshold: 0. };
    let mut r = renderer(0.);
    let mut c = call(s);
    let mut blocks: Vec<Block> = vec![];
    for k in 0..5 {
        let n = pick("channels", 0, 2) as usize;
        let at = [0, 127, 50, 3, 99][k];
        let b: Block = (0..n).map(|j| if k == 2 { one_free(&format!("x{}", j), N, at, 0.25, 0.75) } else { (0..N).map(|i| (k * 300 + i + j * 64) as f32 / 2048.).collect() }).collect();
        let go_on = c.process(&mut r, &[b.clone()]);
        blocks.push(b);
        let got = c.output(0);
        let want = if k >= 2 { blocks[k - 2].clone() } else { vec![] };
        if want.is_empty() {
            check_block("compressor: silence", &got, &[vec![0.; N]]);
        } else {
            check("compressor: channels of the delayed block", got.len() == want.len());
            for j in 0..want.len() {
                for i in 0..N {
                    check_within("compressor: delayed by 6 ms, rounded up to quanta", got[j][i], want[j][i], 0.0001);
                }
            }
        }
        let rest = blocks.iter().rev().take(3).any(|b| !b.is_empty());
        check("compressor: kept while there is something to play", go_on || !rest);
    }
}

fn tail() {
    let s = settings([0, 2, 5][pick("setting", 0, 2) as usize]);
    let mut r = renderer(0.);
    let mut c = call(s);
    let v: f32 = any("v", 0.1, 0.2);
    let mut x = vec![0.; N];
    let at = 127;
    x[at] = v;
    check("compressor: goes on", c.process(&mut r, &[vec![x]]));
    check("compressor: goes on", c.process(&mut r, &[vec![]]));
    check("compressor: nothing yet", c.outputs[0].is_silent());
    c.process(&mut r, &[vec![]]);
    let mut d = 0.;
    for i in 0..3 * N {
        d = follow(s, d, if i == at { v } else { 0. });
        if i == 2 * N + at {
            check_within("compressor: tail is played", c.output(0)[0][at], v * lin(makeup(s) - d), 0.0001);
        }
    }
    let mut over = false;
    for _ in 0..3 {
        let go_on = c.process(&mut r, &[vec![]]);
        check("compressor: silent afterwards", c.outputs[0].is_silent());
        check("compressor: stays over", !over || !go_on);
        over = !go_on;
    }
    check("compressor: over", over);
}

fn units() {
    let v: f32 = any("v", 0.001, 2);
    check_eq("decibel", lin_to_db(v), 20. * v.log10());
    check_eq("decibel of silence", lin_to_db(0.), -1000.);
    check_eq("linear", db_to_lin(v), 10f32.powf(v / 20.));
    check_within("unity", db_to_lin(0.), 1., 0.00001);
}
