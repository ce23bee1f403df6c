use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "biquad_coefs", target: "node::biquad_filter::calculate_coefs", body: biquad_coefs },
        Contract { name: "biquad_coefs_limits", target: "node::biquad_filter::calculate_coefs (frequency 0 / Nyquist, Q 0)", body: biquad_coefs_limits },
        Contract { name: "biquad_detune", target: "node::biquad_filter::get_computed_freq", body: biquad_detune },
        Contract { name: "biquad_process", target: "BiquadFilterRenderer::process", body: biquad_process },
        Contract { name: "biquad_process_arate", target: "BiquadFilterRenderer::process (a-rate parameters)", body: biquad_process_arate },
        Contract { name: "biquad_process_tail", target: "BiquadFilterRenderer::process (silent input)", body: biquad_process_tail },
        Contract { name: "biquad_process_channels", target: "BiquadFilterRenderer::process (change of channel count)", body: biquad_process_channels },
    ]
}

const TYPES: [BiquadFilterType; 8] = [
    BiquadFilterType::Lowpass,
    BiquadFilterType::Highpass,
    BiquadFilterType::Bandpass,
    BiquadFilterType::Notch,
    BiquadFilterType::Allpass,
    BiquadFilterType::Peaking,
    BiquadFilterType::Lowshelf,
    BiquadFilterType::Highshelf,
];

// requires 0 < f < Nyquist, Q > 0
// ensures  the coefficients are those of the W3C filter characteristics table
fn biquad_coefs() {
    let t = TYPES[pick("type", 0, 7) as usize];
    let f: f64 = any("f", 1., 16383.);
    let q: f64 = any("q", 0.001, 100.);
    let g: f64 = any("gain", -40., 40.);
    let c = calculate_coefs(t, SR as f64, f, g, q);
    let w = spec_biquad(t, f, g, q);
    for (n, (x, y)) in [c.b0, c.b1, c.b2, c.a1, c.a2].iter().zip(w).enumerate() {
        check_eq(["b0 / a0", "b1 / a0", "b2 / a0", "a1 / a0", "a2 / a0"][n], *x, y);
    }
}

// ensures the coefficients at the ends are the limits of the transfer function
fn biquad_coefs_limits() {
    let t = TYPES[pick("type", 0, 7) as usize];
    let g: f64 = any("gain", -40., 40.);
    let case = pick("case", 0, 4);
    let q: f64 = if case < 4 { any("q", 0.001, 100.) } else { 0. };
    let f: f64 = match case {
        0 => 0.,
        1 => SR as f64 / 2.,
        2 => any("above", 16384.001, 100000.),
        3 => any("below", -100000., -0.001),
        _ => any("f", 1., 16383.),
    };
    use BiquadFilterType::*;
    let limited = case < 4 || matches!(t, Bandpass | Notch | Allpass | Peaking);
    if !limited {
        return;
    }
    let aa = 10f64.powf(g / 40.) * 10f64.powf(g / 40.);
    let low = case == 0 || case == 3;
    let k: f64 = match (t, case) {
        (Bandpass, 4) => 1.,
        (Notch, 4) => 0.,
        (Allpass, 4) => -1.,
        (Peaking, 4) => aa,
        (Lowpass, _) => if low { 0. } else { 1. },
        (Highpass, _) => if low { 1. } else { 0. },
        (Bandpass, _) => 0.,
        (Notch, _) | (Allpass, _) | (Peaking, _) => 1.,
        (Lowshelf, _) => if low { 1. } else { aa },
        (Highshelf, _) => if low { aa } else { 1. },
    };
    let c = calculate_coefs(t, SR as f64, f, g, q);
    // constant gain k
    check_eq("limit: b0", c.b0, k);
    check_eq("limit: b1 = b0 (a1 / a0)", c.b1, k * c.a1);
    check_eq("limit: b2 = b0 (a2 / a0)", c.b2, k * c.a2);
}

fn biquad_detune() {
    let f: f32 = any("f", 0., 16384.);
    let d: f32 = any("detune", -4800., 4800.);
    let want = if d == 0. { f } else { f * (d / 1200.).exp2() };
    check_eq("f0 = frequency * 2^(detune / 1200)", get_computed_freq(f, d), want);
}

fn renderer(t: BiquadFilterType, xy: &[[f64; 4]]) -> BiquadFilterRenderer {
    BiquadFilterRenderer { q: id(0), detune: id(1), frequency: id(2), gain: id(3), type_: t, xy: xy.iter().copied().collect() }
}

fn any_state(ch: usize) -> Vec<[f64; 4]> {
    (0..ch)
        .map(|c| [any(&format!("x1_{}", c), 0.01, 1.), any(&format!("x2_{}", c), 0.01, 1.), any(&format!("y1_{}", c), 0.01, 1.), any(&format!("y2_{}", c), 0.01, 1.)])
        .collect()
}

/// y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2]; state as in the renderer
fn filter(x: &[f32], s: &mut [f64; 4], c: impl Fn(usize) -> [f64; 5]) -> Vec<f32> {
    x.iter()
        .enumerate()
        .map(|(i, v)| {
            let [b0, b1, b2, a1, a2] = c(i);
            let x = *v as f64;
            let y = b0 * x + b1 * s[0] + b2 * s[1] - a1 * s[2] - a2 * s[3];
            *s = [x, s[0], y, s[2]];
            y as f32
        })
        .collect()
}

fn check_out(name: &str, got: &[Vec<f32>], want: &[Vec<f32>]) {
    check(&format!("{}: channel count", name), got.len() == want.len());
    for (g, w) in got.iter().zip(want) {
        for (a, b) in g.iter().zip(w) {
            check_close(&format!("{}: every frame", name), *a, *b, 1e-4);
        }
    }
}

// any state, any input, fixed parameters: two quanta
fn biquad_process() {
    let t = TYPES[pick("type", 0, 7) as usize];
    let ch = pick("channels", 1, 2) as usize;
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 2) as usize);
    let (f, d, q, g) = (1900.5f32, -1200f32, 2.5f32, 7f32);
    c.param(0, &[q]);
    c.param(1, &[d]);
    c.param(2, &[f]);
    c.param(3, &[g]);
    let mut st = any_state(ch);
    let mut r = renderer(t, &st);
    let k = spec_biquad(t, 950.25, g as f64, q as f64);
    for n in 0..2 {
        let x: Block = (0..ch).map(|i| any_block(&format!("x{}_{}", n, i))).collect();
        let go_on = c.process(&mut r, &[x.clone()]);
        check("keeps processing", go_on);
        let want: Vec<Vec<f32>> = (0..ch).map(|i| filter(&x[i], &mut st[i], |_| k)).collect();
        check_out("filtered", &c.output(0), &want);
    }
}

// one parameter varies within the quantum: every frame uses its own coefficients
fn biquad_process_arate() {
    let t = TYPES[pick("type", 0, 7) as usize];
    let which = pick("parameter", 0, 4) as usize;
    let at = [0, 1, 60, 127][pick("frame", 0, 3) as usize];
    let mut c = Call::new(1);
    let mut p = [vec![2.5f32], vec![-1200f32], vec![1900.5f32], vec![7f32]];
    let range = [(0.5, 8.), (100., 1100.), (500., 5000.), (-10., 10.)];
    for i in 0..4 {
        if i == which || which == 4 {
            let (lo, hi) = range[i];
            p[i] = one_free(["q", "detune", "frequency", "gain"][i], N, if i == which { at } else { N }, lo, hi);
        }
        c.param(i, &p[i]);
    }
    let mut st = [[0.25f64, 0.5, 0.75, 0.125]];
    let mut r = renderer(t, &st);
    let x = one_free("x", N, at, -1., 1.);
    c.process(&mut r, &[vec![x.clone()]]);
    let v = |i: usize, n: usize| if p[i].len() == 1 { p[i][0] } else { p[i][n] };
    let want = filter(&x, &mut st[0], |n| spec_biquad(t, (v(2, n) * (v(1, n) / 1200.).exp2()) as f64, v(3, n) as f64, v(0, n) as f64));
    // the frames after depend on the free frame through the feedback: checked a few frames on
    let got = c.output(0);
    check("filtered: channel count", got.len() == 1);
    for n in 0..(at + 4).min(N) {
        check_close("a-rate: every frame", got[0][n], want[n], 1e-4);
    }
}

// silent input: the filter rings on with all its channels; a clean state is silence and ends
fn biquad_process_tail() {
    let t = TYPES[pick("type", 0, 7) as usize];
    let ch = pick("channels", 1, 2) as usize;
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 2) as usize);
    let (f, q, g) = (950.25f32, 2.5f32, 7f32);
    c.param(0, &[q]);
    c.param(1, &[0.]);
    c.param(2, &[f]);
    c.param(3, &[g]);
    let k = spec_biquad(t, f as f64, g as f64, q as f64);
    let clean = pick("clean", 0, 1) == 1;
    let mut st = vec![[0f64; 4]; ch];
    if !clean {
        // one value of the history in one channel is left
        st[pick("channel", 0, ch as i64 - 1) as usize][pick("value", 0, 3) as usize] = any("left", 0.01, 1.);
    }
    let mut r = renderer(t, &st);
    let go_on = c.process(&mut r, &[vec![]]);
    let got = c.output(0);
    if clean {
        check("clean state: ends", !go_on);
        check("clean state: silent", c.outputs[0].is_silent() && got.len() == 1);
    } else {
        check("tail: keeps processing", go_on);
        let want: Vec<Vec<f32>> = (0..ch).map(|i| filter(&[0.; N], &mut st[i], |_| k)).collect();
        check_out("tail", &got, &want);
    }
}

// a channel keeps its history when others come or go
fn biquad_process_channels() {
    let (m, n) = (pick("before", 0, 3) as usize, pick("now", 1, 3) as usize);
    let t = BiquadFilterType::Lowpass;
    let mut c = Call::new(1);
    c.param(0, &[2.5]);
    c.param(1, &[0.]);
    c.param(2, &[950.25]);
    c.param(3, &[7.]);
    let k = spec_biquad(t, 950.25, 7., 2.5);
    let mut st = any_state(m);
    let mut r = renderer(t, &st);
    let x: Block = (0..n).map(|i| any_block(&format!("x{}", i))).collect();
    c.process(&mut r, &[x.clone()]);
    st.resize(n, [0f64; 4]);
    let want: Vec<Vec<f32>> = (0..n).map(|i| filter(&x[i], &mut st[i], |_| k)).collect();
    check_out("filtered", &c.output(0), &want);
}
