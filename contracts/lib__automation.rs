use crate::context::*;
use crate::vc_lib__common::*;
use crate::{AudioParam, AudioParamDescriptor, AutomationRate};
use std::sync::{Arc, Mutex};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "automation_sequences", target: "AudioParamProcessor::compute_buffer, all sequences of three events", body: sequences },
        Contract { name: "automation_times", target: "AudioParamProcessor::compute_*_automation, any event time", body: times },
        Contract { name: "automation_exp_signs", target: "AudioParamProcessor::compute_exponential_ramp_automation, zero and opposite signs", body: exp_signs },
        Contract { name: "automation_target_end", target: "AudioParamProcessor::compute_set_target_automation, end of the approach", body: target_end },
        Contract { name: "automation_krate", target: "AudioParamProcessor::compute_buffer, k-rate", body: krate },
        Contract { name: "timeline_order", target: "AudioParamProcessor::handle_incoming_event, insertion order", body: order },
        Contract { name: "timeline_cancel", target: "AudioParamProcessor::handle_incoming_event, CancelScheduledValues", body: cancel },
        Contract { name: "timeline_hold", target: "AudioParamProcessor::handle_incoming_event, CancelAndHoldAtTime", body: hold },
        Contract { name: "timeline_hold_then", target: "AudioParamProcessor::handle_incoming_event, after CancelAndHoldAtTime", body: hold_then },
        Contract { name: "timeline_live", target: "AudioParamProcessor::handle_incoming_event between quanta", body: live },
        Contract { name: "timeline_live_edit", target: "AudioParamProcessor::handle_incoming_event, cancel / hold / set_value between quanta", body: live_edit },
    ]
}

#[derive(Clone)]
pub(crate) enum Ev {
    Set(f32, f64),
    Lin(f32, f64),
    Exp(f32, f64),
    /// value, start, time constant
    Target(f32, f64, f64),
    /// values, start, duration
    Curve(Vec<f32>, f64, f64),
}

impl Ev {
    pub(crate) fn time(&self) -> f64 {
        match self {
            Ev::Set(_, t) | Ev::Lin(_, t) | Ev::Exp(_, t) | Ev::Target(_, t, _) | Ev::Curve(_, t, _) => *t,
        }
    }
    pub(crate) fn is_ramp(&self) -> bool {
        matches!(self, Ev::Lin(..) | Ev::Exp(..))
    }
}

/// schedule an event (times in frames)
fn send(p: &AudioParam, e: &Ev) {
    let sr = SR as f64;
    match e {
        Ev::Set(v, t) => p.set_value_at_time(*v, *t / sr),
        Ev::Lin(v, t) => p.linear_ramp_to_value_at_time(*v, *t / sr),
        Ev::Exp(v, t) => p.exponential_ramp_to_value_at_time(*v, *t / sr),
        Ev::Target(v, t, c) => p.set_target_at_time(*v, *t / sr, *c / sr),
        Ev::Curve(v, t, d) => p.set_value_curve_at_time(v, *t / sr, *d / sr),
    };
}

/// where an automation stands once an event has begun (or, for a ramp, ended)
#[derive(Clone)]
enum Seg {
    Const(f32),
    Target(f32, f32, f64, f64),
    Curve(Vec<f32>, f64, f64),
}

impl Seg {
    fn at(&self, t: f64) -> f32 {
        match self {
            Seg::Const(v) => *v,
            Seg::Target(v0, v1, t0, tau) => *v1 + (*v0 - *v1) * ((-((t - *t0) / *tau)).exp() as f32),
            Seg::Curve(v, t0, d) => {
                if t - *t0 >= *d {
                    v[v.len() - 1]
                } else {
                    let x = (v.len() - 1) as f64 * (t - *t0) / *d;
                    let k = x.floor();
                    let f = (x - k) as f32;
                    v[k as usize] * (1. - f) + v[k as usize + 1] * f
                }
            }
        }
    }
}

/// value of a parameter at time `t` (frames) by the formulas of the Web Audio specification:
/// `evs` sorted by time, nothing is scheduled before frame `t0` where the value is `v0`
pub(crate) fn value_at(v0: f32, t0: f64, evs: &[Ev], t: f64) -> f32 {
    let mut seg = Seg::Const(v0);
    // time and value an immediately following ramp starts from
    let mut from = (t0, v0);
    let mut i = 0;
    while i < evs.len() {
        let e = &evs[i];
        if e.is_ramp() {
            let (s, a) = from;
            if t < e.time() {
                if t < s {
                    return seg.at(t);
                }
                let ph = (t - s) / (e.time() - s);
                return match e {
                    Ev::Lin(b, _) => a + (*b - a) * ph as f32,
                    Ev::Exp(b, _) => {
                        if a == 0. || a * *b < 0. {
                            a
                        } else {
                            a * (*b / a).powf(ph as f32)
                        }
                    }
                    _ => unreachable!(),
                };
            }
            let b = match e {
                Ev::Lin(b, _) | Ev::Exp(b, _) => *b,
                _ => unreachable!(),
            };
            seg = Seg::Const(b);
            from = (e.time(), b);
        } else {
            if t < e.time() {
                return seg.at(t);
            }
            match e {
                Ev::Set(v, s) => {
                    seg = Seg::Const(*v);
                    from = (*s, *v);
                }
                Ev::Target(v, s, tau) => {
                    let before = seg.at(*s);
                    // a ramp that follows replaces the target approach
                    if i + 1 < evs.len() && evs[i + 1].is_ramp() {
                        seg = Seg::Const(before);
                    } else {
                        seg = Seg::Target(before, *v, *s, *tau);
                    }
                    from = (*s, before);
                }
                Ev::Curve(v, s, d) => {
                    seg = Seg::Curve(v.clone(), *s, *d);
                    from = (*s + *d, v[v.len() - 1]);
                }
                _ => unreachable!(),
            }
        }
        i += 1;
    }
    seg.at(t)
}

/// events take effect at the frame nearest to their time: frames up to half a frame before it are
/// not judged
fn judged(evs: &[Ev], n: usize) -> bool {
    let n = n as f64;
    evs.iter().all(|e| {
        let near = |b: f64| n < b && b - n < 0.51;
        let end = match e {
            Ev::Curve(_, t, d) => near(*t + *d),
            _ => false,
        };
        !near(e.time()) && !end
    })
}

fn desc(v: f32, rate: AutomationRate) -> AudioParamDescriptor {
    AudioParamDescriptor { name: "p".into(), automation_rate: rate, default_value: v, min_value: -10., max_value: 10. }
}

fn judge(name: &str, tape: &Arc<Mutex<Vec<Vec<f32>>>>, quanta: usize, v0: f32, evs: &[Ev]) {
    let t = tape.lock().unwrap();
    check(&format!("{}: quanta", name), t.len() == quanta);
    for (q, b) in t.iter().enumerate() {
        for i in 0..N {
            let n = q * N + i;
            if judged(evs, n) {
                check_close(&format!("{}: every frame", name), b[i], value_at(v0, 0., evs, n as f64), 1e-4);
            }
        }
    }
}

pub(crate) fn low(name: &str) -> f32 {
    any(name, 0.125, 0.25)
}
pub(crate) fn high(name: &str) -> f32 {
    any(name, 0.5, 1)
}

/// one event of any type at time `t`, lasting at most `d` frames
pub(crate) fn any_event(name: &str, kind: i64, even: bool, t: f64, d: f64) -> Ev {
    let v = if even { low(name) } else { high(name) };
    match kind {
        0 => Ev::Set(v, t),
        1 => Ev::Lin(v, t),
        2 => Ev::Exp(v, t),
        3 => Ev::Target(v, t, 50.),
        _ => {
            let w = if even { low(&format!("{}'", name)) } else { high(&format!("{}'", name)) };
            Ev::Curve(vec![w, 0.375, v], t, d)
        }
    }
}

/// every sequence of three events
fn sequences() {
    let v0 = low("v0");
    let t = [[20., 150., 300.], [64.5, 128., 256.], [5., 7., 300.]][pick("times", 0, 2) as usize];
    let evs: Vec<Ev> = (0..3)
        .map(|i| any_event(&format!("e{}", i), pick("kind", 0, 4), i % 2 == 1, t[i], if i == 2 || t[i + 1] - t[i] > 40. { 40. } else { t[i + 1] - t[i] }))
        .collect();
    let c = ctx(1, 3 * N);
    let (_n, p, tape) = probe(&c, desc(v0, AutomationRate::A));
    for e in &evs {
        send(&p, e);
    }
    run(c);
    judge("automation", &tape, 3, v0, &evs);
}

/// any time of one event
fn times() {
    let v0 = low("v0");
    let t = any_time("time", &[(3, 6), (125, 131), (255, 258)]);
    let kind = pick("kind", 0, 4);
    let e = any_event("e", kind, false, t, [10., 128., 200.][pick("duration", 0, 2) as usize]);
    let mut evs = vec![Ev::Set(low("s"), 1.)];
    if pick_bool("set first") {
        evs.push(e);
    } else {
        evs = vec![e];
    }
    if pick_bool("set after") {
        evs.push(Ev::Set(low("l"), 500.));
    }
    let c = ctx(1, 4 * N);
    let (_n, p, tape) = probe(&c, desc(v0, AutomationRate::A));
    for e in &evs {
        send(&p, e);
    }
    run(c);
    judge("automation time", &tape, 4, v0, &evs);
}

/// an exponential ramp from zero or across zero holds, then jumps
fn exp_signs() {
    let kind = pick("start", 0, 2);
    let a: f32 = if kind == 0 {
        0.
    } else if kind == 1 {
        any("a", -1, -0.1)
    } else {
        any("a", 0.1, 1)
    };
    let b: f32 = if pick_bool("positive") { any("b", 0.1, 1) } else { any("b", -1, -0.1) };
    let at = [10., 128., 200.][pick("start frame", 0, 2) as usize];
    let evs = [Ev::Set(a, at), Ev::Exp(b, 300.)];
    let c = ctx(1, 3 * N);
    let (_n, p, tape) = probe(&c, desc(0.5, AutomationRate::A));
    for e in &evs {
        send(&p, e);
    }
    run(c);
    judge("exponential ramp signs", &tape, 3, 0.5, &evs);
}

/// a target approach stays at the target
fn target_end() {
    let a: f32 = any("a", -1, 1);
    let b: f32 = any("b", -1, 1);
    let evs = [Ev::Set(a, 0.), Ev::Target(b, [0., 10., 130.][pick("start", 0, 2) as usize], [0., 0.5, 3.][pick("tau", 0, 2) as usize])];
    let c = ctx(1, 4 * N);
    let (_n, p, tape) = probe(&c, desc(0.5, AutomationRate::A));
    for e in &evs {
        send(&p, e);
    }
    run(c);
    let evs = match &evs[1] {
        Ev::Target(v, t, tau) if *tau == 0. => vec![evs[0].clone(), Ev::Set(*v, *t)],
        _ => evs.to_vec(),
    };
    judge("target approach", &tape, 4, 0.5, &evs);
}

/// k-rate: the value at the first frame of the quantum, for the whole quantum
fn krate() {
    let v0 = low("v0");
    let t = any_time("time", &[(0, 2), (127, 130), (255, 258)]);
    let kind = pick("kind", 0, 4);
    let e = any_event("e", kind, false, t, [10., 200.][pick("duration", 0, 1) as usize]);
    let mut evs = vec![Ev::Set(low("s"), 0.)];
    if pick_bool("set first") {
        evs.push(e);
    } else {
        evs = vec![e];
    }
    let c = ctx(1, 4 * N);
    let switched = pick_bool("switched");
    let (_n, p, tape) = probe(&c, desc(v0, if switched { AutomationRate::A } else { AutomationRate::K }));
    if switched {
        p.set_automation_rate(AutomationRate::K);
    }
    for e in &evs {
        send(&p, e);
    }
    run(c);
    let tp = tape.lock().unwrap();
    check("k-rate: quanta", tp.len() == 4);
    for (q, b) in tp.iter().enumerate() {
        for i in 0..N {
            check_close("k-rate: one value per quantum", b[i], b[0], 0.);
        }
        if judged(&evs, q * N) {
            check_close("k-rate: value at the first frame", b[0], value_at(v0, 0., &evs, (q * N) as f64), 1e-4);
        }
    }
}

fn three() -> Vec<Ev> {
    let t = [[20., 150., 300.], [64., 128., 256.]][pick("times", 0, 1) as usize];
    (0..3).map(|i| any_event(&format!("e{}", i), pick("kind", 0, 4), i % 2 == 1, t[i], 40.)).collect()
}

/// the order in which events are scheduled does not matter (other than for equal times)
fn order() {
    let v0 = low("v0");
    let evs = three();
    let perm = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][pick("order", 0, 5) as usize];
    let c = ctx(1, 3 * N);
    let (_n, p, tape) = probe(&c, desc(v0, AutomationRate::A));
    for k in perm {
        send(&p, &evs[k]);
    }
    run(c);
    judge("scheduling order", &tape, 3, v0, &evs);
}

/// cancel_scheduled_values removes the events from the given time on
fn cancel() {
    let v0 = low("v0");
    let evs = three();
    let at = [0., 20., 100., 150., 200., 300., 301.][pick("cancel", 0, 6) as usize];
    // a curve that is running at this time is left alone
    for e in &evs {
        if let Ev::Curve(_, t, d) = e {
            assume(at <= *t || at > *t + *d);
        }
    }
    let c = ctx(1, 3 * N);
    let (_n, p, tape) = probe(&c, desc(v0, AutomationRate::A));
    for e in &evs {
        send(&p, e);
    }
    p.cancel_scheduled_values(at / SR as f64);
    run(c);
    let kept: Vec<Ev> = evs.iter().filter(|e| e.time() < at).cloned().collect();
    judge("cancelled", &tape, 3, v0, &kept);
}

/// cancel_and_hold_at_time keeps the course up to the given time and its value from there on
fn hold() {
    let v0 = low("v0");
    let evs = three();
    let at = [10., 20., 45., 100., 150., 170., 200., 256., 300., 320.][pick("hold", 0, 9) as usize];
    let c = ctx(1, 3 * N);
    let (_n, p, tape) = probe(&c, desc(v0, AutomationRate::A));
    for e in &evs {
        send(&p, e);
    }
    p.cancel_and_hold_at_time(at / SR as f64);
    run(c);
    // a target approach directly followed by a ramp: the ramp is what is held
    let t = tape.lock().unwrap();
    check("hold: quanta", t.len() == 3);
    for (q, b) in t.iter().enumerate() {
        for i in 0..N {
            let n = (q * N + i) as f64;
            if judged(&evs, q * N + i) {
                let m = if n < at { n } else { at };
                check_close("hold: every frame", b[i], value_at(v0, 0., &evs, m), 1e-4);
            }
        }
    }
}

/// calls after cancel_and_hold_at_time: the value is held until the next event, a later hold
/// changes nothing
fn hold_then() {
    let v0 = low("v0");
    let kind = pick("kind", 1, 4);
    let evs = [Ev::Set(low("s"), 10.), any_event("e", kind, false, if kind < 3 { 300. } else { 30. }, 250.)];
    let at = [100., 128., 150.5, 200.][pick("hold", 0, 3) as usize];
    let what = pick("then", 0, 6);
    let next = [180., 270., 310.][pick("next", 0, 2) as usize];
    let mut cut = at;
    let mut after = vec![];
    let live = pick_bool("live");
    assume(!live || at >= 128.);
    if what < 5 {
        assume(next > at);
        after.push(any_event("f", what, true, next, 20.));
    } else if what == 5 {
        assume(next > at);
    } else {
        // an earlier one takes its place
        assume(next == 180. && at > 180.);
        cut = next;
    }
    let mut c = ctx(1, 3 * N);
    let (_n, p, tape) = probe(&c, desc(v0, AutomationRate::A));
    for e in &evs {
        send(&p, e);
    }
    let a = after.clone();
    let edit = move || {
        p.cancel_and_hold_at_time(at / SR as f64);
        if what >= 5 {
            p.cancel_and_hold_at_time(next / SR as f64);
        }
        for f in &a {
            send(&p, f);
        }
    };
    if live {
        c.suspend_sync(128. / SR as f64, move |_| edit());
    } else {
        edit();
    }
    run(c);
    let held = value_at(v0, 0., &evs, cut);
    let t = tape.lock().unwrap();
    check("after a hold: quanta", t.len() == 3);
    for (q, b) in t.iter().enumerate() {
        for i in 0..N {
            let n = q * N + i;
            if !judged(&evs, n) || !judged(&after, n) || (n as f64) < cut && cut - (n as f64) < 0.51 {
                continue;
            }
            let n = n as f64;
            let want = if n < cut { value_at(v0, 0., &evs, n) } else { value_at(held, cut, &after, n) };
            check_close("after a hold: every frame", b[i], want, 1e-4);
        }
    }
}

/// events scheduled while rendering, for a later time
fn live() {
    let v0 = low("v0");
    let first = any_event("e0", [0, 3, 4][pick("kind", 0, 2) as usize], false, 40., 20.);
    let second = any_event("e1", [0, 1, 2, 3, 4][pick("kind", 0, 4) as usize], true, 300., 40.);
    // a ramp that follows a running target approach starts at the time of the call
    let mut c = ctx(1, 3 * N);
    let (_n, p, tape) = probe(&c, desc(v0, AutomationRate::A));
    send(&p, &first);
    let s2 = second.clone();
    c.suspend_sync(128. / SR as f64, move |_| send(&p, &s2));
    run(c);
    let t = tape.lock().unwrap();
    check("live: quanta", t.len() == 3);
    let evs = [first.clone(), second.clone()];
    for (q, b) in t.iter().enumerate() {
        for i in 0..N {
            let n = q * N + i;
            if !judged(&evs, n) {
                continue;
            }
            let n = n as f64;
            let one = [first.clone()];
            let want = if n < 128. {
                value_at(v0, 0., &one, n)
            } else if let (Ev::Target(..), true) = (&first, second.is_ramp()) {
                value_at(value_at(v0, 0., &one, 128.), 128., &[second.clone()], n)
            } else {
                value_at(v0, 0., &evs, n)
            };
            check_close("live: every frame", b[i], want, 1e-4);
        }
    }
}

/// set_value, cancel and hold while an automation is running
fn live_edit() {
    let v0 = low("v0");
    let end = [200., 256., 300., 400.][pick("end", 0, 3) as usize];
    let ramp = if pick_bool("exponential") { Ev::Exp(high("r"), end) } else { Ev::Lin(high("r"), end) };
    let evs = [Ev::Set(low("s"), 20.), ramp.clone()];
    let mut c = ctx(1, 4 * N);
    let (_n, p, tape) = probe(&c, desc(v0, AutomationRate::A));
    for e in &evs {
        send(&p, e);
    }
    let what = pick("edit", 0, 2);
    let x: f32 = any("x", 0.25, 0.5);
    let at = [128., 150., 250.][pick("at", 0, 2) as usize];
    c.suspend_sync(128. / SR as f64, move |_| {
        match what {
            0 => p.set_value(x),
            1 => p.cancel_scheduled_values(at / SR as f64),
            _ => p.cancel_and_hold_at_time(at / SR as f64),
        };
    });
    run(c);
    let t = tape.lock().unwrap();
    check("live edit: quanta", t.len() == 4);
    for (q, b) in t.iter().enumerate() {
        for i in 0..N {
            let n = q * N + i;
            if !judged(&evs, n) {
                continue;
            }
            let n = n as f64;
            let want = if n < 128. {
                value_at(v0, 0., &evs, n)
            } else if what == 0 {
                value_at(x, 128., &[ramp.clone()], n)
            } else if what == 1 && at <= end {
                // the value from before the ramp is restored
                value_at(v0, 0., &[evs[0].clone()], n)
            } else if what == 2 && n >= at {
                value_at(v0, 0., &evs, at)
            } else {
                value_at(v0, 0., &evs, n)
            };
            check_close("live edit: every frame", b[i], want, 1e-4);
        }
    }
}
