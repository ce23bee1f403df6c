use super::vc_oscillator::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "osc_waveform", target: "OscillatorRenderer::generate_waveform_sample (triangle, square, sawtooth)", body: waveform },
        Contract { name: "osc_table", target: "OscillatorRenderer::generate_waveform_sample (sine, custom)", body: table },
        Contract { name: "osc_frequency", target: "oscillator::get_computed_freq", body: frequency },
    ]
}

fn waveform() {
    let t = shape();
    let p: f64 = any("phase", 0, 0.999999);
    let dt: f64 = match pick("rate", 0, 2) {
        0 => any("increment", 0.001, 0.499),
        1 => any("increment", -0.499, -0.001),
        _ => 0.,
    };
    let mut r = renderer(t, p);
    let got = r.generate_waveform_sample(dt);
    check_eq("waveform", got, spec_wave(t, p, dt) as f32);
    check_eq("waveform: phase is not moved", r.phase, p);
    check_le("waveform: at most 1", got, 1.);
    check_le("waveform: at least -1", -1., got);
}

fn sine(k: usize) -> f32 {
    (k as f32 * 2. * PI / 2048.).sin()
}

fn table() {
    if pick_bool("custom") {
        // linear interpolation in a table of any length
        let n = pick("length", 1, 5) as usize;
        let w: Vec<f32> = (0..n).map(|i| any(&format!("table{}", i), -1., 1.)).collect();
        let mut r = renderer(OscillatorType::Custom, any("phase", 0, 0.999999));
        r.periodic_wave = Some(PeriodicWave::vc_from(w.clone()));
        let at = r.phase * n as f64;
        let k = at.floor();
        let (i, k) = (k as usize, (at - k) as f32);
        check_eq("custom waveform", r.generate_waveform_sample(0.01), w[i] * (1. - k) + w[(i + 1) % n] * k);
    } else {
        // sin(2 pi phase): exact on the 2048 phases of the table, chord in between (error < 2e-6)
        let i = pick("cell", 0, 2047) as usize;
        let k: f64 = any("within", 0, 0.999);
        let mut r = renderer(OscillatorType::Sine, (i as f64 + k) / 2048.);
        let want = sine(i) * (1. - k as f32) + sine((i + 1) % 2048) * k as f32;
        check_within("sine waveform", r.generate_waveform_sample(0.01), want, 0.000003);
    }
}

fn frequency() {
    let f: f32 = any("frequency", -16384, 16384);
    let cents: f32 = any("detune", -2400, 2400);
    check_eq("computed frequency", get_computed_freq(f, cents), f as f64 * (cents as f64 / 1200.).exp2());
    check_eq("computed frequency: octave", get_computed_freq(f, 1200.), f as f64 * 2.);
    check_eq("computed frequency: not detuned", get_computed_freq(f, 0.), f as f64);
}
