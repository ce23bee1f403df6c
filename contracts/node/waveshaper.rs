use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "shaper_curve", target: "node::waveshaper::apply_curve", body: shaper_curve },
        Contract { name: "shaper_process", target: "WaveShaperRenderer::process", body: shaper_process },
        Contract { name: "shaper_silence", target: "WaveShaperRenderer::process (silent input)", body: shaper_silence },
        Contract { name: "shaper_oversample", target: "WaveShaperRenderer::process (oversampling)", body: shaper_oversample },
    ]
}

/// W3C: v = (N - 1) / 2 * (x + 1), linear interpolation, ends clamped
fn spec_shape(curve: &[f32], x: f32) -> f32 {
    let n = curve.len();
    if n == 0 {
        return 0.;
    }
    let v = (n as f32 - 1.) / 2. * (x + 1.);
    if v < 0. {
        return curve[0];
    }
    for k in 0..n - 1 {
        if v < k as f32 + 1. {
            let f = v - k as f32;
            return (1. - f) * curve[k] + f * curve[k + 1];
        }
    }
    curve[n - 1]
}

fn any_curve(n: usize) -> Vec<f32> {
    (0..n).map(|i| any(&format!("curve{}", i), -1., 1.)).collect()
}

fn shaper_curve() {
    let n = [0, 1, 2, 3, 4, 5, 8, 33][pick("length", 0, 7) as usize];
    let curve = any_curve(n);
    let x: f32 = any("x", -3., 3.);
    check_eq("shaped", apply_curve(&curve, x), spec_shape(&curve, x));
}

fn renderer(curve: Option<Vec<f32>>, oversample: OverSampleType) -> WaveShaperRenderer {
    let mut r = WaveShaperRenderer::new(RendererConfig { oversample, sample_rate: SR as usize });
    if curve.is_some() {
        let mut msg: Box<dyn Any> = Box::new(curve);
        r.onmessage(&mut *msg);
    }
    r
}

fn pick_oversample() -> OverSampleType {
    [OverSampleType::None, OverSampleType::X2, OverSampleType::X4][pick("oversample", 0, 2) as usize]
}

// every frame and channel on its own, no memory; no curve = the input
fn shaper_process() {
    let ch = pick("channels", 1, 3) as usize;
    let kind = pick("curve", 0, 3);
    let oversample = if kind == 0 { pick_oversample() } else { OverSampleType::None };
    let curve = match kind {
        0 => None,
        1 => Some(any_curve(3)),
        2 => Some(any_curve(4)),
        _ => Some(vec![]),
    };
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 2) as usize);
    let mut r = renderer(curve.clone(), oversample);
    let free = (pick("free_quantum", 0, 1) as usize, pick("free_channel", 0, ch as i64 - 1) as usize, [0, 63, 127][pick("free_frame", 0, 2) as usize]);
    for q in 0..2 {
        let x: Block = (0..ch)
            .map(|i| (0..N).map(|n| if (q, i, n) == free { any("x", -1.5, 1.5) } else { 0.75 - ((n + i) % 9) as f32 / 6. }).collect())
            .collect();
        c.process(&mut r, &[x.clone()]);
        let want: Vec<Vec<f32>> = match &curve {
            None => x.clone(),
            Some(k) => x.iter().map(|c| c.iter().map(|v| spec_shape(k, *v)).collect()).collect(),
        };
        check_block("shaped", &c.output(0), &want);
    }
}

// no input: what the curve yields for zero
fn shaper_silence() {
    let n = pick("length", 0, 6) as usize;
    let zero = pick_bool("zero_center");
    let mut curve = any_curve(n);
    if zero && n > 0 {
        curve[n / 2] = if n % 2 == 1 { 0. } else { -curve[n / 2 - 1] };
    }
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 2) as usize);
    let mut r = renderer(Some(curve.clone()), OverSampleType::None);
    let go_on = c.process(&mut r, &[vec![]]);
    let dc = spec_shape(&curve, 0.);
    let got = c.output(0);
    if dc.abs() < 1e-9 {
        check("no offset: ends", !go_on);
        check("no offset: silent", c.outputs[0].is_silent() && got.len() == 1);
    } else {
        check("offset: keeps processing", go_on);
        check_block("offset", &got, &[vec![dc; N]]);
    }
}

// up, shape, down: each channel with a resampler of its own, running on from quantum to quantum
fn shaper_oversample() {
    let ch = pick("channels", 1, 3) as usize;
    let k = [2, 4][pick("oversample", 0, 1) as usize];
    let curve = vec![-0.5, 0.25, 0.75];
    let sr = SR as usize;
    let mut up = FftFixedInOut::<f32>::new(sr, sr * k, N, ch).unwrap();
    let mut down = FftFixedInOut::<f32>::new(sr * k, sr, N * k, ch).unwrap();
    let mut c = Call::new(1);
    let mut r = renderer(Some(curve.clone()), if k == 2 { OverSampleType::X2 } else { OverSampleType::X4 });
    if pick_bool("switched") {
        r.oversample = if k == 2 { OverSampleType::X4 } else { OverSampleType::X2 };
        let mut msg: Box<dyn Any> = Box::new(if k == 2 { OverSampleType::X2 } else { OverSampleType::X4 });
        r.onmessage(&mut *msg);
    }
    for q in 0..3 {
        let x: Block = (0..ch).map(|i| (0..N).map(|n| if n == 5 { any(&format!("x{}_{}", q, i), 0.1, 0.9) } else { 0.5 - ((n * 7 + i * 3 + q * 5) % 13) as f32 / 13. }).collect()).collect();
        c.process(&mut r, &[x.clone()]);
        let mut y = up.process(&x, None).unwrap();
        for c in y.iter_mut() {
            for v in c.iter_mut() {
                *v = spec_shape(&curve, *v);
            }
        }
        check_block("oversampled", &c.output(0), &down.process(&y, None).unwrap());
    }
}
