use crate::context::*;
use crate::node::AudioNode;
use crate::vc_lib__common::*;
use crate::{AudioParamDescriptor, AutomationRate};
use std::sync::{Arc, Mutex};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "param_input", target: "AudioParamProcessor::mix_to_output, intrinsic value + inputs, clamped", body: input },
        Contract { name: "param_automation_input", target: "AudioParamProcessor::mix_to_output, automation + inputs, clamped", body: automation_input },
        Contract { name: "param_fan_in", target: "Graph::render, several connections to a param", body: fan_in },
        Contract { name: "param_readback", target: "AudioParam::value, AudioParamProcessor::compute_buffer", body: readback },
        Contract { name: "param_nominal", target: "AudioParam::set_value, value, min_value, max_value, default_value", body: nominal },
    ]
}

fn clamp(v: f32, lo: f32, hi: f32) -> f32 {
    if v < lo {
        lo
    } else if v > hi {
        hi
    } else {
        v
    }
}

fn rate() -> AutomationRate {
    if pick_bool("k-rate") {
        AutomationRate::K
    } else {
        AutomationRate::A
    }
}

/// computed value = clamp(own value + input), k-rate: of the first frame
fn input() {
    let r = rate();
    let ch = 1;
    let (lo, hi) = [(-1., 1.), (0., 0.5), (-0.25, 10.)][pick("range", 0, 2) as usize];
    let own: f32 = any("own", -1, 1);
    let free = [0, 1, 64, 127][pick("frame", 0, 3) as usize];
    let x: Vec<Vec<f32>> = (0..ch).map(|k| (0..2 * N).map(|i| if i % N == free { any(&format!("x{}[{}]", k, i), -1, 1) } else { 0.125 }).collect()).collect();
    let c = ctx(1, 2 * N);
    let (_n, p, tape) = probe(&c, AudioParamDescriptor { name: "p".into(), automation_rate: r, default_value: 0.25, min_value: lo, max_value: hi });
    p.set_value(own);
    let f = feed_signal(&c, &x);
    f.connect(&p);
    run(c);
    let t = tape.lock().unwrap();
    check("param: quanta", t.len() == 2);
    for (q, b) in t.iter().enumerate() {
        for i in 0..N {
            let at = q * N + if r == AutomationRate::K { 0 } else { i };
            if i != free && i != 0 && i != 5 && i % N != 126 {
                continue;
            }
            let m = x[0][at];
            check_close("param: clamp(value + input)", b[i], clamp(own + m, lo, hi), 1e-5);
        }
    }
}

/// the same with a running automation, plus the range at every frame
fn automation_input() {
    let r = rate();
    let a: f32 = any("a", -1, 1);
    let b: f32 = any("b", -1, 1);
    let x: f32 = any("x", -1, 1);
    let frame = [0, 1, 77, 127][pick("frame", 0, 3) as usize];
    let c = ctx(1, 2 * N);
    let (_n, p, tape) = probe(&c, AudioParamDescriptor { name: "p".into(), automation_rate: r, default_value: 0.25, min_value: -0.5, max_value: 0.75 });
    p.set_value_at_time(a, 0.).linear_ramp_to_value_at_time(b, 256. / SR as f64);
    let connected = pick_bool("connected");
    let f = feed(&c, vec![vec![vec![x; N]], vec![vec![x; N]]]);
    if connected {
        f.connect(&p);
    }
    run(c);
    let t = tape.lock().unwrap();
    check("param automation: quanta", t.len() == 2);
    for (q, v) in t.iter().enumerate() {
        let n = if r == AutomationRate::K { q * N } else { q * N + frame };
        let auto = a + (b - a) * (n as f32 / 256.);
        let want = if connected { auto + x } else { auto };
        check_close("param automation: clamp(value + input)", v[frame], clamp(want, -0.5, 0.75), 1e-5);
    }
}

/// several outputs connected to one param are summed, a disconnected one does not count
fn fan_in() {
    let r = rate();
    let v: f32 = any("v", 0, 1);
    let x: Vec<f32> = (0..3).map(|i| any(&format!("x{}", i), 0.125, 1)).collect();
    let mut c = ctx(1, 2 * N);
    let (_n, p, tape) = probe(&c, AudioParamDescriptor { name: "p".into(), automation_rate: r, default_value: 0.25, min_value: -10., max_value: 10. });
    p.set_value(v);
    let n = pick("sources", 0, 3) as usize;
    let fs: Vec<Bench> = x.iter().map(|x| feed(&c, vec![vec![vec![*x; N]], vec![vec![*x; N]]])).collect();
    for f in fs.iter().take(n) {
        f.connect(&p);
    }
    let cut = n > 0 && pick_bool("disconnect");
    if cut {
        c.suspend_sync(128. / SR as f64, move |_| fs[0].disconnect());
    }
    run(c);
    let t = tape.lock().unwrap();
    check("param fan-in: quanta", t.len() == 2);
    for (q, b) in t.iter().enumerate() {
        let mut want = v;
        for (k, x) in x.iter().enumerate().take(n) {
            if !(cut && q == 1 && k == 0) {
                want += *x;
            }
        }
        for i in 0..N {
            check_close("param fan-in: value + sum of the inputs", b[i], want, 1e-5);
        }
    }
}

/// value() follows the automation, inputs do not show
fn readback() {
    let r = rate();
    let a: f32 = any("a", 0, 1);
    let b: f32 = any("b", 0, 1);
    let x: f32 = any("x", 0.125, 1);
    let mut c = ctx(1, 3 * N);
    let (_n, p, _tape) = probe(&c, AudioParamDescriptor { name: "p".into(), automation_rate: r, default_value: 0.25, min_value: -0.5, max_value: 0.75 });
    let sr = SR as f64;
    p.set_value(a).linear_ramp_to_value_at_time(b, 256. / sr);
    check_close("readback: set_value is visible at once", p.value(), clamp(a, -0.5, 0.75), 0.);
    let f = feed(&c, vec![vec![vec![x; N]]; 3]);
    f.connect(&p);
    let seen = Arc::new(Mutex::new(vec![]));
    let q = p.clone();
    for k in 1..3 {
        let (s, p) = (Arc::clone(&seen), p.clone());
        c.suspend_sync(k as f64 * 128. / sr, move |_| s.lock().unwrap().push(p.value()));
    }
    run(c);
    let s = seen.lock().unwrap();
    check("readback: two reads", s.len() == 2);
    // the value at the start of the last rendered quantum
    check_close("readback: first quantum", s[0], clamp(a, -0.5, 0.75), 1e-5);
    check_close("readback: second quantum", s[1], clamp(0.5 * (a + b), -0.5, 0.75), 1e-5);
    check_close("readback: third quantum", q.value(), clamp(b, -0.5, 0.75), 1e-5);
}

/// the value of a param is always within its nominal range
fn nominal() {
    let lo = [-1., 0., 0.25][pick("min", 0, 2) as usize];
    let hi = [0.25, 1., 10.][pick("max", 0, 2) as usize];
    let v: f32 = any("v", -20, 20);
    let c = ctx(1, N);
    let (_n, p, tape) = probe(&c, AudioParamDescriptor { name: "p".into(), automation_rate: rate(), default_value: 0.25, min_value: lo, max_value: hi });
    check("nominal: attributes", p.default_value() == 0.25 && p.min_value() == lo && p.max_value() == hi);
    check_close("nominal: initial value", p.value(), 0.25, 0.);
    let set = pick_bool("set");
    if set {
        p.set_value(v);
        check_close("nominal: set value", p.value(), clamp(v, lo, hi), 0.);
    }
    run(c);
    let t = tape.lock().unwrap();
    for b in t[0].iter() {
        check_close("nominal: rendered value", *b, if set { clamp(v, lo, hi) } else { 0.25 }, 0.);
    }
}
