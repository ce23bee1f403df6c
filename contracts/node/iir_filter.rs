use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "iir_new", target: "IirFilterRenderer::new", body: iir_new },
        Contract { name: "iir_process", target: "IirFilterRenderer::process", body: iir_process },
        Contract { name: "iir_process_tail", target: "IirFilterRenderer::process (silent input)", body: iir_process_tail },
        Contract { name: "iir_process_channels", target: "IirFilterRenderer::process (change of channel count)", body: iir_process_channels },
    ]
}

const LENS: [usize; 5] = [1, 2, 3, 5, 20];

// ensures coefficients divided by a0 and padded with zeros, clean state
fn iir_new() {
    let nb = LENS[pick("feedforward", 0, 4) as usize];
    let na = LENS[pick("feedback", 0, 4) as usize];
    let b: Vec<f64> = (0..nb).map(|i| any(&format!("b{}", i), 0.1, 2.)).collect();
    let a: Vec<f64> = (0..na).map(|i| any(&format!("a{}", i), 0.1, 2.)).collect();
    let r = IirFilterRenderer::new(b.clone(), a.clone());
    check("length", r.norm_coeffs.len() == nb.max(na));
    for (i, (x, y)) in r.norm_coeffs.iter().enumerate() {
        check_eq("b[i] / a0", *x, if i < nb { b[i] / a[0] } else { 0. });
        check_eq("a[i] / a0", *y, if i < na { a[i] / a[0] } else { 0. });
    }
    check("clean state", r.states.iter().all(|s| s.iter().all(|v| is_zero(*v))));
}

fn coefs() -> (Vec<f64>, Vec<f64>) {
    let nb = LENS[pick("feedforward", 0, 4) as usize];
    let na = LENS[pick("feedback", 0, 4) as usize];
    let b = (0..nb).map(|i| 0.75 - ((i * 5) % 7) as f64 / 4.).collect();
    let mut a: Vec<f64> = (0..na).map(|i| 0.125 - ((i * 3) % 5) as f64 / 64.).collect();
    a[0] = 2.;
    (b, a)
}

/// past samples, latest first
struct Past {
    x: Vec<f64>,
    y: Vec<f64>,
}

impl Past {
    fn any(name: &str, n: usize) -> Self {
        Past {
            x: (0..n).map(|i| any(&format!("{}_x{}", name, i), 0.01, 1.)).collect(),
            y: (0..n).map(|i| any(&format!("{}_y{}", name, i), 0.01, 1.)).collect(),
        }
    }
    fn zero(n: usize) -> Self {
        Past { x: vec![0.; n], y: vec![0.; n] }
    }
    /// a0 y[n] = sum b_k x[n-k] - sum a_k y[n-k]
    fn step(&mut self, x: f64, b: &[f64], a: &[f64]) -> f64 {
        self.x.insert(0, x);
        let mut y = 0.;
        for (k, b) in b.iter().enumerate() {
            y += *b * self.x[k];
        }
        for (k, a) in a.iter().enumerate().skip(1) {
            y -= *a * self.y[k - 1];
        }
        y /= a[0];
        self.y.insert(0, y);
        self.x.pop();
        self.y.pop();
        y
    }
    /// coupling invariant: what the renderer remembers of the past
    fn state(&self, b: &[f64], a: &[f64]) -> [f64; MAX_IIR_COEFFS_LEN] {
        let mut s = [0.; MAX_IIR_COEFFS_LEN];
        for i in 0..b.len().max(a.len()) - 1 {
            for k in i + 1..b.len() {
                s[i] += b[k] / a[0] * self.x[k - i - 1];
            }
            for k in i + 1..a.len() {
                s[i] -= a[k] / a[0] * self.y[k - i - 1];
            }
        }
        s
    }
}

fn check_out(name: &str, got: &[Vec<f32>], want: &[Vec<f32>]) {
    check(&format!("{}: channel count", name), got.len() == want.len());
    for (g, w) in got.iter().zip(want) {
        for (a, b) in g.iter().zip(w) {
            check_close(&format!("{}: every frame", name), *a, *b, 1e-4);
        }
    }
}

fn check_states(r: &IirFilterRenderer, past: &[Past], b: &[f64], a: &[f64]) {
    check("invariant: one state per channel", r.states.len() == past.len());
    for (s, p) in r.states.iter().zip(past) {
        for (x, y) in s.iter().zip(p.state(b, a)) {
            check_close("invariant: state is a function of the past", *x, y, 1e-4);
        }
    }
}

// any past, any input: difference equation holds and the invariant is re-established
fn iir_process() {
    let (b, a) = coefs();
    let ch = pick("channels", 1, 2) as usize;
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 2) as usize);
    let mut past: Vec<Past> = (0..ch).map(|i| Past::any(&format!("p{}", i), 20)).collect();
    let mut r = IirFilterRenderer::new(b.clone(), a.clone());
    r.states = past.iter().map(|p| p.state(&b, &a)).collect();
    let x: Block = (0..ch).map(|i| any_block(&format!("x{}", i))).collect();
    check("keeps processing", c.process(&mut r, &[x.clone()]));
    let want: Vec<Vec<f32>> = (0..ch).map(|i| x[i].iter().map(|v| past[i].step(*v as f64, &b, &a) as f32).collect()).collect();
    check_out("filtered", &c.output(0), &want);
    check_states(&r, &past, &b, &a);
}

fn iir_process_tail() {
    let (b, a) = coefs();
    let n = b.len().max(a.len());
    let ch = pick("channels", 1, 2) as usize;
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 2) as usize);
    let clean = pick_bool("clean") || n == 1;
    let mut past: Vec<Past> = (0..ch).map(|_| Past::zero(20)).collect();
    if !clean {
        let p = &mut past[pick("channel", 0, ch as i64 - 1) as usize];
        p.x[0] = any("left_x", 0.01, 1.);
        p.y[0] = any("left_y", 0.01, 1.);
    }
    let mut r = IirFilterRenderer::new(b.clone(), a.clone());
    r.states = past.iter().map(|p| p.state(&b, &a)).collect();
    let go_on = c.process(&mut r, &[vec![]]);
    let got = c.output(0);
    if clean {
        check("clean state: ends", !go_on);
        check("clean state: silent", c.outputs[0].is_silent() && got.len() == 1);
    } else {
        check("tail: keeps processing", go_on);
        let want: Vec<Vec<f32>> = past.iter_mut().map(|p| (0..N).map(|_| p.step(0., &b, &a) as f32).collect()).collect();
        check_out("tail", &got, &want);
        check_states(&r, &past, &b, &a);
    }
}

fn iir_process_channels() {
    let (m, n) = (pick("before", 1, 3) as usize, pick("now", 1, 3) as usize);
    let (b, a) = (vec![0.5, 0.25, -0.75], vec![2., 0.25, 0.125]);
    let mut c = Call::new(1);
    let mut past: Vec<Past> = (0..m).map(|i| Past::any(&format!("p{}", i), 20)).collect();
    let mut r = IirFilterRenderer::new(b.clone(), a.clone());
    r.states = past.iter().map(|p| p.state(&b, &a)).collect();
    let x: Block = (0..n).map(|i| any_block(&format!("x{}", i))).collect();
    c.process(&mut r, &[x.clone()]);
    past.truncate(n);
    while past.len() < n {
        past.push(Past::zero(20));
    }
    let want: Vec<Vec<f32>> = (0..n).map(|i| x[i].iter().map(|v| past[i].step(*v as f64, &b, &a) as f32).collect()).collect();
    check_out("filtered", &c.output(0), &want);
    check_states(&r, &past, &b, &a);
}
