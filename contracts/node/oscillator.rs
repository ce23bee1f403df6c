// uses PeriodicWave::vc_from of vc_periodic_wave
use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "osc_step", target: "OscillatorRenderer::process from any phase", body: step },
        Contract { name: "osc_step_arate", target: "OscillatorRenderer::process, one frequency / detune per frame", body: step_arate },
        Contract { name: "osc_begin", target: "OscillatorRenderer::process, quantum of the start", body: begin },
        Contract { name: "osc_end", target: "OscillatorRenderer::process, stop time and ended event", body: end },
        Contract { name: "osc_messages", target: "OscillatorRenderer::onmessage, before_drop", body: messages },
    ]
}

pub(super) fn renderer(type_: OscillatorType, phase: f64) -> OscillatorRenderer {
    OscillatorRenderer {
        type_,
        frequency: id(0),
        detune: id(1),
        phase,
        start_time: 0.,
        stop_time: f64::MAX,
        started: true,
        periodic_wave: None,
        ended_triggered: false,
        sine_table: precomputed_sine_table(),
    }
}

/// the smoothing polynomial of a step of height 2, two frames wide; only for rising phases
fn smooth(t: f64, dt: f64) -> f64 {
    if dt <= 0. {
        return 0.;
    }
    if t < dt {
        -(1. - t / dt) * (1. - t / dt)
    } else if t > 1. - dt {
        let u = 1. + (t - 1.) / dt;
        u * u
    } else {
        0.
    }
}

pub(super) fn wrap(p: f64) -> f64 {
    p - p.floor()
}

pub(super) fn spec_wave(type_: OscillatorType, p: f64, dt: f64) -> f64 {
    match type_ {
        OscillatorType::Triangle => {
            if p < 0.25 {
                4. * p
            } else if p < 0.75 {
                2. - 4. * p
            } else {
                4. * p - 4.
            }
        }
        OscillatorType::Square => {
            let ideal = if p < 0.5 { 1. } else { -1. };
            ideal + smooth(p, dt) - smooth(wrap(p + 0.5), dt)
        }
        OscillatorType::Sawtooth => {
            let ideal = if p < 0.5 { 2. * p } else { 2. * p - 2. };
            ideal - smooth(wrap(p + 0.5), dt)
        }
        _ => unreachable!(),
    }
}

pub(super) fn shape() -> OscillatorType {
    [OscillatorType::Triangle, OscillatorType::Square, OscillatorType::Sawtooth][pick("type", 0, 2) as usize]
}

fn step() {
    let t = shape();
    // in frames per period
    let f = [SR / 64., -SR / 64., SR * 0.1875, -SR * 0.34375, SR / 1024., 0., SR * 0.4375, SR / 2., -SR / 2.][pick("frequency", 0, 8) as usize];
    let octave = pick("octave", -1, 1);
    assume(octave == 0 || f == SR / 64. || f == -SR * 0.34375);
    let p: f64 = any("phase", 0, 0.999999);
    let mut r = renderer(t, p);
    let mut c = Call::new(1);
    c.stale((octave + 1) as usize);
    c.frame = 1280;
    c.param(0, &[f]);
    c.param(1, &[1200. * octave as f32]);
    check("oscillator: goes on", c.process(&mut r, &[]));
    let hz = f * [0.5, 1., 2.][(octave + 1) as usize];
    let mute = hz >= SR / 2. || hz <= -SR / 2.;
    let dt = hz as f64 / SR as f64;
    let got = c.output(0);
    check("oscillator: mono", got.len() == 1);
    for i in 0..N {
        if mute {
            check_eq("oscillator: silent from Nyquist on", got[0][i], 0.);
        } else {
            check_eq("oscillator: every frame", got[0][i], spec_wave(t, wrap(p + i as f64 * dt), dt) as f32);
        }
    }
    check_eq("oscillator: phase goes on", r.phase, wrap(p + N as f64 * dt));
    check("oscillator: no event", c.events.is_empty());
}

fn step_arate() {
    let at = [0, 1, 77, 127][pick("frame", 0, 3) as usize];
    let muted = pick("muted", -1, 2);
    let p = 0.3125;
    let mut r = renderer(OscillatorType::Triangle, p);
    let mut c = Call::new(1);
    c.stale(1);
    c.frame = 1280;
    let mut f: Vec<f32> = (0..N).map(|i| if i % 7 == 0 { -SR / 32. } else { SR / 64. }).collect();
    let mut cents = vec![0.; N];
    let detuned = pick_bool("detuned");
    f[at] = any("frequency", 1, SR / 4.);
    if muted >= 0 {
        // out of range for some frames: the phase moves on
        for i in 60..70 {
            f[i] = [SR * 0.5, SR * -0.75, SR * 2.625][muted as usize];
        }
    }
    if detuned {
        for i in 0..N {
            cents[i] = if i % 3 == 0 { 1200. } else { -1200. };
        }
    }
    if pick_bool("scalar_detune") && !detuned {
        c.param(1, &[0.]);
    } else {
        c.param(1, &cents);
    }
    c.param(0, &f);
    check("oscillator: goes on", c.process(&mut r, &[]));
    let got = c.output(0);
    let mut p = p;
    for i in 0..N {
        let hz = f[i] * if !detuned { 1. } else if i % 3 == 0 { 2. } else { 0.5 };
        let mute = hz >= SR / 2. || hz <= -SR / 2.;
        let want = if mute { 0. } else { spec_wave(OscillatorType::Triangle, p, 0.) };
        check_eq("oscillator: every frame", got[0][i], want as f32);
        p = wrap(p + hz as f64 / SR as f64);
    }
    check_eq("oscillator: phase goes on", r.phase, p);
}

fn begin() {
    let f = [64., 1000., -1000.][pick("frequency", 0, 2) as usize];
    let mut r = renderer(OscillatorType::Triangle, 0.);
    r.started = false;
    let mut c = Call::new(1);
    c.stale(1);
    c.frame = 1280;
    let start = match pick("start", 0, 4) {
        0 => any("earlier", 0, 1279),
        1 => any_time("start", &[(1279, 1282)]),
        2 => any_time("start", &[(1350, 1351)]),
        3 => any_time("start", &[(1406, 1408)]),
        _ => any("later", 1408, 2000),
    };
    r.start_time = start / SR as f64;
    if pick_bool("arate") {
        c.param(0, &vec![f; N]);
    } else {
        c.param(0, &[f]);
    }
    c.param(1, &[0.]);
    check("oscillator: goes on", c.process(&mut r, &[]));
    let got = c.output(0);
    let dt = f as f64 / SR as f64;
    // in the past: starts now; since the last frame: in phase with its start time
    let from = if start <= 1279. { 1280. } else { start };
    for i in 0..N {
        let t = 1280. + i as f64;
        let want = if t < from { 0. } else { spec_wave(OscillatorType::Triangle, wrap((t - from) * dt), dt) };
        check_eq("oscillator: from its start time", got[0][i], want as f32);
    }
    if start < 1408. {
        check("oscillator: started", r.started || start > 1407.);
        check_eq("oscillator: phase goes on", r.phase, if r.started { wrap((1408. - from) * dt) } else { 0. });
    } else {
        check("oscillator: waits", !r.started && is_zero(r.phase));
    }
}

fn end() {
    let mut r = renderer(OscillatorType::Triangle, 0.125);
    let mut c = Call::new(1);
    c.stale(1);
    c.frame = 1280;
    let stop = match pick("stop", 0, 4) {
        0 => any("earlier", 0, 1279),
        1 => any_time("stop", &[(1279, 1282)]),
        2 => any_time("stop", &[(1350, 1351)]),
        3 => any_time("stop", &[(1406, 1410)]),
        _ => any("later", 1410, 2000),
    };
    r.stop_time = stop / SR as f64;
    r.ended_triggered = pick_bool("ended before");
    let sent = r.ended_triggered;
    let state = pick("state", 0, 2);
    if state > 0 {
        // not started yet, or never
        r.started = false;
        r.phase = 0.;
        r.start_time = if state == 1 { 2500. / SR as f64 } else { f64::MAX };
    }
    if pick_bool("arate") {
        c.param(0, &vec![64.; N]);
    } else {
        c.param(0, &[64.]);
    }
    c.param(1, &[0.]);
    let go_on = c.process(&mut r, &[]);
    let got = c.output(0);
    for i in 0..N {
        let t = 1280. + i as f64;
        let on = state == 0 && t < stop;
        let want = if on { spec_wave(OscillatorType::Triangle, wrap(0.125 + i as f64 * 64. / SR as f64), 0.) } else { 0. };
        check_eq("oscillator: up to its stop time", got[0][i], want as f32);
    }
    let over = stop <= 1408.;
    check("oscillator: ended exactly once, when it is over", c.events.len() == (over && !sent) as usize && r.ended_triggered == (over || sent));
    if over {
        check("oscillator: over", !go_on);
    } else if state < 2 {
        check("oscillator: kept while it plays or waits", go_on);
    }
}

fn messages() {
    let p: f64 = any("phase", 0, 0.999999);
    let mut r = renderer(OscillatorType::Sine, p);
    r.start_time = f64::MAX;
    let (a, b): (f64, f64) = (any("start", 0, 2), any("stop", 0, 2));
    let (started, stopped) = (pick_bool("started"), pick_bool("stopped"));
    let sent = pick_bool("ended before");
    r.ended_triggered = sent;
    if started {
        r.onmessage(&mut Schedule::Start(a));
        check_eq("oscillator: start message", r.start_time, a);
    }
    check("oscillator: start only", r.stop_time == f64::MAX);
    if stopped {
        r.onmessage(&mut Schedule::Stop(b));
        check_eq("oscillator: stop message", r.stop_time, b);
    }
    let mut t = shape();
    let kind = t;
    r.onmessage(&mut t);
    check("oscillator: type message", r.type_ == kind);
    for len in [3, 5] {
        let mut w = PeriodicWave::vc_from(vec![0.5; len]);
        r.onmessage(&mut w);
        check("oscillator: wave message", r.type_ == OscillatorType::Custom && r.periodic_wave.as_ref().unwrap().as_slice().len() == len);
    }
    check_eq("oscillator: phase is kept", r.phase, p);
    let (s, e) = scope(SR as u64, SR);
    r.before_drop(&s);
    let begun = (started && a <= 1.) || (stopped && b <= 1.);
    check("oscillator: ended at the end of the graph", e.try_iter().count() == (begun && !sent) as usize);
    r.before_drop(&s);
    check("oscillator: only once", e.try_iter().count() == 0);
}
