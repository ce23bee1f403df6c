use crate::context::BaseAudioContext;
use crate::node::{AudioNode, AudioScheduledSourceNode, OscillatorType};
use crate::periodic_wave::{PeriodicWave, PeriodicWaveOptions};
use crate::vc_lib__common::*;
use std::f64::consts::PI;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "osc_api", target: "OscillatorNode types, frequency, detune", body: api },
        Contract { name: "osc_api_arate", target: "OscillatorNode frequency driven by a signal", body: arate },
        Contract { name: "osc_api_wave", target: "OscillatorNode::set_periodic_wave / BaseAudioContext::create_periodic_wave", body: wave },
        Contract { name: "osc_api_change", target: "OscillatorNode type / wave changed while playing", body: change },
        Contract { name: "osc_api_normalized", target: "PeriodicWave normalization as heard", body: normalized },
    ]
}

fn wrap(p: f64) -> f64 {
    p - p.floor()
}

/// ideal waveform and whether the phase is at least `away` from its steps
fn ideal(t: OscillatorType, p: f64, away: f64) -> Option<f64> {
    let near = |q: f64| wrap(p - q + 0.5) > 0.5 - away && wrap(p - q + 0.5) < 0.5 + away;
    match t {
        OscillatorType::Sine => Some((2. * PI * p).sin()),
        OscillatorType::Triangle => Some(if p < 0.25 { 4. * p } else if p < 0.75 { 2. - 4. * p } else { 4. * p - 4. }),
        OscillatorType::Square => {
            if near(0.) || near(0.5) {
                None
            } else {
                Some(if p < 0.5 { 1. } else { -1. })
            }
        }
        OscillatorType::Sawtooth => {
            if near(0.5) {
                None
            } else {
                Some(if p < 0.5 { 2. * p } else { 2. * p - 2. })
            }
        }
        OscillatorType::Custom => unreachable!(),
    }
}

const TYPES: [OscillatorType; 4] = [OscillatorType::Sine, OscillatorType::Square, OscillatorType::Sawtooth, OscillatorType::Triangle];

fn api() {
    let t = TYPES[pick("type", 0, 3) as usize];
    let f = [SR / 64., -SR / 64., SR / 1024., 0., SR * 0.1875, SR / 2., -SR / 2.][pick("frequency", 0, 6) as usize];
    let octave = pick("octave", -1, 1);
    let c = ctx(1, 3 * N);
    let mut o = c.create_oscillator();
    o.set_type(t);
    check("oscillator: type", o.type_() == t);
    o.frequency().set_value(f);
    o.detune().set_value(1200. * octave as f32);
    o.start();
    o.connect(&c.destination());
    let y = render(c);
    let hz = f as f64 * [0.5, 1., 2.][(octave + 1) as usize];
    let dt = hz / SR as f64;
    let mute = dt.abs() >= 0.5;
    for i in 0..3 * N {
        if mute {
            check_eq("oscillator: silent from Nyquist on", y[0][i], 0.);
        } else if let Some(v) = ideal(t, wrap(i as f64 * dt), dt.abs() + 0.000001) {
            check_within("oscillator: its waveform", y[0][i], v as f32, 0.0001);
        } else {
            check_le("oscillator: within its range", y[0][i].abs(), 1.0001);
        }
    }
}

// the phase is the running sum of the frequencies
fn arate() {
    let at = [0, 1, 127, 128][pick("frame", 0, 3) as usize];
    let c = ctx(1, 2 * N);
    let mut f: Vec<f32> = (0..2 * N).map(|i| if i % 7 == 0 { -SR / 32. } else { SR / 64. }).collect();
    f[at] = any("frequency", 1, SR / 8.);
    let mut o = c.create_oscillator();
    o.set_type(OscillatorType::Triangle);
    o.frequency().set_value(0.);
    let d = drive(&c, o.frequency(), &f);
    o.start();
    o.connect(&c.destination());
    let y = render(c);
    let mut p = 0.;
    for i in 0..2 * N {
        check_eq("oscillator: phase follows the frequency", y[0][i], ideal(OscillatorType::Triangle, p, 0.).unwrap() as f32);
        p = wrap(p + f[i] as f64 / SR as f64);
    }
    drop(d);
}

fn series(re: &[f32], im: &[f32], p: f64) -> f32 {
    let mut y = 0.;
    for k in 1..re.len() {
        let a = 2. * PI * p * k as f64;
        y += re[k] * a.cos() as f32 + im[k] * a.sin() as f32;
    }
    y
}

fn wave() {
    let c = ctx(1, 2 * N);
    let n = pick("coefficients", 2, 4) as usize;
    let f = [SR / 64., -SR / 32., SR / 1024.][pick("frequency", 0, 2) as usize];
    let re: Vec<f32> = (0..n).map(|i| any(&format!("re{}", i), -1, 1)).collect();
    let im: Vec<f32> = (0..n).map(|i| any(&format!("im{}", i), -1, 1)).collect();
    let zero = vec![0.; n];
    let (a, b) = match pick("given", 0, 2) {
        0 => (Some(re.clone()), Some(im.clone())),
        1 => (Some(re.clone()), None),
        _ => (None, Some(im.clone())),
    };
    let (wr, wi) = (a.clone().unwrap_or(zero.clone()), b.clone().unwrap_or(zero));
    let w = c.create_periodic_wave(PeriodicWaveOptions { real: a, imag: b, disable_normalization: true });
    let mut o = c.create_oscillator();
    o.set_periodic_wave(w);
    check("oscillator: custom", o.type_() == OscillatorType::Custom);
    o.frequency().set_value(f);
    o.start();
    o.connect(&c.destination());
    let y = render(c);
    for i in (0..2 * N).step_by(5) {
        check_within("oscillator: sum of its harmonics", y[0][i], series(&wr, &wi, wrap(i as f64 * f as f64 / SR as f64)), 0.001);
    }
}

// changed between two quanta: the new shape at the phase reached
fn change() {
    let mut c = ctx(1, 3 * N);
    let dt = 3. / 1024.;
    let t = TYPES[pick("type", 0, 3) as usize];
    let mut o = c.create_oscillator();
    o.set_type(t);
    o.frequency().set_value(SR * 3. / 1024.);
    o.start();
    o.connect(&c.destination());
    let to = pick("to", 0, 4);
    let v: f32 = any("v", -1, 1);
    c.suspend_sync(N as f64 / SR as f64, move |c| {
        if to < 4 {
            o.set_type(TYPES[to as usize]);
        } else {
            o.set_periodic_wave(PeriodicWave::new(c, PeriodicWaveOptions { real: Some(vec![0., v]), imag: None, disable_normalization: true }));
        }
    });
    let y = render(c);
    for i in 0..3 * N {
        let p = wrap(i as f64 * dt);
        if i >= N && to == 4 {
            check_within("oscillator: new wave", y[0][i], v * (2. * PI * p).cos() as f32, 0.001);
        } else if let Some(w) = ideal(if i < N { t } else { TYPES[to as usize] }, p, dt + 0.000001) {
            check_within("oscillator: new type", y[0][i], w as f32, 0.0001);
        }
    }
}

// peak 1, shape kept, however the coefficients are scaled
fn normalized() {
    let k = [0.001, 0.5, 1., 30.][pick("scale", 0, 3) as usize];
    let (re, im) = [(vec![0., 0.25, 0.], vec![0., 0., 0.5]), (vec![0., 1., 1.], vec![0., -0.25, 0.]), (vec![5., 0., 0.], vec![0., -1., 0.])][pick("wave", 0, 2) as usize].clone();
    let off = pick_bool("disabled");
    let (re, im): (Vec<f32>, Vec<f32>) = (re.iter().map(|v| v * k).collect(), im.iter().map(|v| v * k).collect());
    let c = ctx(1, 8 * N);
    let w = c.create_periodic_wave(PeriodicWaveOptions { real: Some(re.clone()), imag: Some(im.clone()), disable_normalization: off });
    let mut o = c.create_oscillator();
    o.set_periodic_wave(w);
    o.frequency().set_value(SR / 1024.);
    o.start();
    o.connect(&c.destination());
    let y = render(c);
    let want: Vec<f32> = (0..1024).map(|i| series(&re, &im, i as f64 / 1024.)).collect();
    let mut peak = 0f32;
    for v in &want {
        peak = peak.max(v.abs());
    }
    for i in 0..1024 {
        check_within("oscillator: normalized", y[0][i], if off { want[i] } else { want[i] / peak }, 0.001 * (1. + if off { peak } else { 0. }));
    }
}
