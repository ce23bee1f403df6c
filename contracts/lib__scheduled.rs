use crate::context::*;
use crate::node::*;
use crate::vc_lib__common::*;
use std::sync::{Arc, Mutex};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "scheduled_start", target: "ConstantSourceRenderer / AudioBufferSourceRenderer / OscillatorRenderer::process: any start time", body: any_start },
        Contract { name: "scheduled_stop", target: "ConstantSourceRenderer / AudioBufferSourceRenderer / OscillatorRenderer::process: any stop time", body: any_stop },
        Contract { name: "scheduled_never", target: "scheduled sources that are never started", body: never },
        Contract { name: "scheduled_late", target: "scheduled sources started in the past (from a suspend callback)", body: late },
    ]
}

const Q: usize = 4;

/// quantum after which each `ended` event was seen
type Ended = Arc<Mutex<Vec<usize>>>;

enum Src {
    C(ConstantSourceNode),
    B(AudioBufferSourceNode),
    O(OscillatorNode),
}

/// a source whose signal is `v` (constant, buffer of v) or a triangle wave that is never 0 here
fn source(c: &OfflineAudioContext, kind: i64, v: f32, r: &Bench) -> Src {
    match kind {
        0 => {
            let s = c.create_constant_source();
            s.offset().set_value(v);
            s.connect(r);
            Src::C(s)
        }
        1 => {
            let mut b = c.create_buffer(1, 2000, SR);
            b.copy_to_channel(&vec![v; 2000], 0);
            let mut s = c.create_buffer_source();
            s.set_buffer(b);
            s.connect(r);
            Src::B(s)
        }
        _ => {
            let mut s = c.create_oscillator();
            s.set_type(OscillatorType::Triangle);
            s.frequency().set_value(8.);
            s.connect(r);
            Src::O(s)
        }
    }
}

impl Src {
    fn start_at(&mut self, t: f64) {
        match self {
            Src::C(s) => s.start_at(t),
            Src::B(s) => AudioScheduledSourceNode::start_at(s, t),
            Src::O(s) => s.start_at(t),
        }
    }
    fn stop_at(&mut self, t: f64) {
        match self {
            Src::C(s) => s.stop_at(t),
            Src::B(s) => AudioScheduledSourceNode::stop_at(s, t),
            Src::O(s) => s.stop_at(t),
        }
    }
    fn watch(&self, tape: &Tape) -> Ended {
        let e: Ended = Arc::new(Mutex::new(vec![]));
        let (e2, t2) = (Arc::clone(&e), Arc::clone(tape));
        let f = move |_| e2.lock().unwrap().push(t2.lock().unwrap().len());
        match self {
            Src::C(s) => s.set_onended(f),
            Src::B(s) => s.set_onended(f),
            Src::O(s) => s.set_onended(f),
        }
        e
    }
}

/// frame i is inside [start, stop): the signal, else exactly 0
fn judge(kind: i64, tape: &Tape, ended: &Ended, v: f32, start: f64, stop: Option<f64>, quanta: usize) {
    let out = played(tape, 0, 1);
    check("scheduled: rendered length", out[0].len() == quanta * N);
    for i in 0..quanta * N {
        let t = i as f64;
        let on = t >= start && (stop.is_none() || t < stop.unwrap());
        if kind < 2 {
            check_eq("scheduled: silent outside, signal inside [start, stop)", out[0][i], if on { v } else { 0. });
        } else {
            // triangle of 8 Hz: rises from 0 by 32/32768 per frame of distance to the start
            let p = (t - start) * 32. / SR as f64;
            check_close("scheduled: silent outside, signal inside [start, stop)", out[0][i], if on { p as f32 } else { 0. }, 1e-3);
        }
    }
    let e = ended.lock().unwrap();
    let total = (quanta * N) as f64;
    match stop {
        Some(s) if s <= total => {
            check("scheduled: ended fires exactly once", e.len() == 1);
            if e.len() == 1 {
                check("scheduled: ended not before the stop time", (e[0] * N) as f64 >= s);
                check("scheduled: ended within a quantum of the stop time", e[0] <= 1 || ((e[0] - 2) * N) as f64 <= s);
            }
        }
        _ => {
            // torn down with the graph
            let begun = start <= total;
            check("scheduled: ended at most once", e.len() <= 1);
            check("scheduled: no ended event before it is over", e.iter().all(|q| *q == quanta));
            if !begun {
                check("scheduled: no ended event if it never began", e.is_empty());
            }
        }
    }
}

fn any_start() {
    let kind = pick("kind", 0, 2);
    let c = ctx(1, Q * N);
    let v: f32 = any("value", 0.01, 1);
    let (r, tape) = record(&c, 1);
    let mut s = source(&c, kind, v, &r);
    let start: f64 = any("start_frame", 0, (Q * N + 20) as f64);
    let stop = [None, Some(100.), Some(128.), Some(300.5)][pick("stop", 0, 3) as usize];
    let e = s.watch(&tape);
    s.start_at(start / SR as f64);
    if let Some(x) = stop {
        let x: f64 = x;
        s.stop_at(x / SR as f64);
    }
    run(c);
    judge(kind, &tape, &e, v, start, stop, Q);
}

fn any_stop() {
    let kind = pick("kind", 0, 2);
    let c = ctx(1, Q * N);
    let v: f32 = any("value", 0.01, 1);
    let (r, tape) = record(&c, 1);
    let mut s = source(&c, kind, v, &r);
    let start: f64 = [0., 64.5, 128., 200.25][pick("start", 0, 3) as usize];
    let stop: f64 = any("stop_frame", 0, (Q * N + 20) as f64);
    let e = s.watch(&tape);
    s.start_at(start / SR as f64);
    s.stop_at(stop / SR as f64);
    run(c);
    judge(kind, &tape, &e, v, start, Some(stop), Q);
}

fn never() {
    let kind = pick("kind", 0, 2);
    let c = ctx(1, 2 * N);
    let (r, tape) = record(&c, 1);
    let s = source(&c, kind, 0.5, &r);
    let e = s.watch(&tape);
    run(c);
    let out = played(&tape, 0, 1);
    for i in 0..2 * N {
        check_eq("not started: silent", out[0][i], 0.);
    }
    check("not started: no ended event", e.lock().unwrap().is_empty());
}

/// a start time in the past means now
fn late() {
    let kind = pick("kind", 0, 2);
    let mut c = ctx(1, Q * N);
    let v: f32 = any("value", 0.01, 1);
    let (r, tape) = record(&c, 1);
    let s = Arc::new(Mutex::new(source(&c, kind, v, &r)));
    let e = s.lock().unwrap().watch(&tape);
    let start: f64 = any("start_frame", 0, 200);
    let stop: f64 = [150., 256., 300.][pick("stop", 0, 2) as usize];
    let s2 = Arc::clone(&s);
    c.suspend_sync(N as f64 / SR as f64, move |_| {
        let mut s = s2.lock().unwrap();
        s.start_at(start / SR as f64);
        s.stop_at(stop / SR as f64);
    });
    run(c);
    // less than a frame ago: the position between the two frames is kept
    let begin = if start <= (N - 1) as f64 { N as f64 } else { start };
    judge(kind, &tape, &e, v, begin, Some(stop), Q);
}
