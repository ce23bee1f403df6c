use crate::context::{BaseAudioContext, OfflineAudioContext};
use crate::node::{AnalyserNode, AnalyserOptions, AudioNode};
use crate::vc_lib__common::*;
use std::sync::{Arc, Mutex};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "analyser_api_time", target: "AnalyserNode waveform after rendering", body: time },
        Contract { name: "analyser_api_frequency", target: "AnalyserNode spectrum while rendering", body: frequency },
        Contract { name: "analyser_api_settings", target: "AnalyserNode options and setters", body: settings },
    ]
}

fn options(n: usize) -> AnalyserOptions {
    AnalyserOptions { fft_size: n, smoothing_time_constant: 0.5, ..Default::default() }
}

fn time() {
    let n = [32, 128, 256, 1024][pick("size", 0, 3) as usize];
    let ch = pick("channels", 1, 2) as usize;
    let quanta = pick("quanta", 1, 3) as usize;
    let frames = quanta * N;
    let c = ctx(2, frames);
    let mut node = AnalyserNode::new(&c, options(n));
    let x: Vec<Vec<f32>> = any_signal("x", ch, frames);
    let src = feed_signal(&c, &x);
    src.connect(&node);
    // pulled even if not connected any further
    let through = pick_bool("connected");
    if through {
        node.connect(&c.destination());
    }
    let y = render(c);
    let mut got = vec![9.; n + 3];
    node.get_float_time_domain_data(&mut got);
    for i in 0..n {
        let back = n - i;
        let want = if back > frames {
            0.
        } else if ch == 1 {
            x[0][frames - back]
        } else {
            0.5 * (x[0][frames - back] + x[1][frames - back])
        };
        check_eq("analyser: last frames, mono", got[i], want);
    }
    check("analyser: excess elements untouched", got[n] == 9. && got[n + 2] == 9.);
    if through {
        for j in 0..2 {
            for i in 0..frames {
                check_eq("analyser: passes its input", y[j][i], x[j.min(ch - 1)][i]);
            }
        }
    }
}

fn magnitude(x: &[f32], k: usize) -> f32 {
    let n = x.len();
    let (mut re, mut im) = (0., 0.);
    for (i, v) in x.iter().enumerate() {
        let p = 2. * std::f32::consts::PI * i as f32 / n as f32;
        let w = *v * (0.42 - 0.5 * p.cos() + 0.08 * (2. * p).cos());
        let t = 2. * std::f32::consts::PI * ((i * k) % n) as f32 / n as f32;
        re += w * t.cos();
        im -= w * t.sin();
    }
    (re * re + im * im).sqrt() / n as f32
}

// read at the start of the second and of the third quantum, twice each
fn frequency() {
    let n = 32;
    let at = [N - 16, N - 3][pick("sample", 0, 1) as usize];
    let mut x: Vec<f32> = (0..2 * N).map(|i| ((i * i) % 13) as f32 / 16. - 0.25).collect();
    x[at] = any("v", 1, 2);
    let mut c: OfflineAudioContext = ctx(1, 3 * N);
    let node = AnalyserNode::new(&c, options(n));
    let src = feed_signal(&c, &[x.clone()]);
    src.connect(&node);
    let node = Arc::new(Mutex::new(node));
    let log: Arc<Mutex<Vec<Vec<f32>>>> = Default::default();
    for q in [1, 2] {
        let (node, log) = (Arc::clone(&node), Arc::clone(&log));
        let cb = move |_: &mut OfflineAudioContext| {
            for _ in 0..2 {
                let mut d = vec![0.; n / 2];
                node.lock().unwrap().get_float_frequency_data(&mut d);
                log.lock().unwrap().push(d);
            }
        };
        c.suspend_sync((q * N) as f64 / SR as f64, cb);
    }
    let _ = render(c);
    let log = log.lock().unwrap();
    check("analyser: read four times", log.len() == 4);
    for k in [0, 1, 7, 15] {
        let a = 0.5 * magnitude(&x[N - n..N], k);
        let b = 0.5 * a + 0.5 * magnitude(&x[2 * N - n..], k);
        for (i, want) in [a, a, b, b].into_iter().enumerate() {
            check_within("analyser: smoothed spectrum in decibel", log[i][k], 20. * want.log10(), 0.001);
        }
    }
}

fn settings() {
    let c = ctx(1, N);
    let n = [0, 16, 32, 100, 32768, 65536][pick("size", 0, 5) as usize];
    let tau = [-0.1, 0., 0.3, 1., 1.1][pick("smoothing", 0, 4) as usize];
    let (lo, hi): (f64, f64) = [(-100., -30.), (-30., -30.), (-10., -20.), (-20., -10.)][pick("range", 0, 3) as usize];
    let (n_ok, tau_ok, db_ok) = (n == 32 || n == 32768, tau >= 0. && tau <= 1., lo < hi);
    let r = catch(|| AnalyserNode::new(&c, AnalyserOptions { fft_size: n, smoothing_time_constant: tau, min_decibels: lo, max_decibels: hi, ..Default::default() }));
    check("analyser: valid options only", r.is_ok() == (n_ok && tau_ok && db_ok));
    if let Ok(a) = r {
        check("analyser: options", a.fft_size() == n && a.frequency_bin_count() == n / 2 && a.smoothing_time_constant() == tau && a.min_decibels() == lo && a.max_decibels() == hi);
    }
    let mut a = AnalyserNode::new(&c, AnalyserOptions::default());
    check("analyser: set size", catch(|| a.set_fft_size(n)).is_ok() == n_ok && a.fft_size() == if n_ok { n } else { 2048 });
    check("analyser: set smoothing", catch(|| a.set_smoothing_time_constant(tau)).is_ok() == tau_ok && a.smoothing_time_constant() == if tau_ok { tau } else { 0.8 });
    check("analyser: set minimum", catch(|| a.set_min_decibels(lo)).is_ok() == (lo < -30.) && a.min_decibels() == if lo < -30. { lo } else { -100. });
    let below = a.min_decibels() < hi;
    check("analyser: set maximum", catch(|| a.set_max_decibels(hi)).is_ok() == below && a.max_decibels() == if below { hi } else { -30. });
}
