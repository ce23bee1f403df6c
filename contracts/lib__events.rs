use crate::context::{BaseAudioContext, OfflineAudioContext};
use crate::node::{AudioNode, AudioScheduledSourceNode};
use crate::vc_lib__common::*;
use crate::worklet::*;
use std::sync::{Arc, Mutex};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "events_ended", target: "AudioScheduledSourceNode::set_onended, clear_onended", body: ended },
        Contract { name: "events_state", target: "BaseAudioContext::set_onstatechange around suspensions", body: state },
        Contract { name: "events_handlers", target: "set_on* / clear_on* of one context, side by side", body: handlers },
    ]
}

type Log = Arc<Mutex<Vec<(i64, &'static str)>>>;

// two sources; handlers replaced, cleared or dropped before and while rendering
fn ended() {
    let mut c: OfflineAudioContext = ctx(1, 5 * N);
    let log: Log = Default::default();
    let mut sources = vec![];
    let stops = [1, 3];
    for n in 0..2 {
        let mut src = c.create_constant_source();
        src.connect(&c.destination());
        src.start();
        src.stop_at((stops[n] * N) as f64 / SR as f64);
        let l = Arc::clone(&log);
        let id = n as i64;
        src.set_onended(move |e| l.lock().unwrap().push((id, e.type_)));
        sources.push(src);
    }
    let l = Arc::clone(&log);
    let mut want: Vec<(i64, &str)> = vec![(0, "ended"), (1, "ended")];
    let what = pick("second source", 0, 4);
    let second = sources.pop().unwrap();
    match what {
        1 => {
            second.set_onended(move |e| l.lock().unwrap().push((7, e.type_)));
            want[1].0 = 7;
        }
        2 => {
            second.clear_onended();
            want.pop();
        }
        // the event comes with the handle gone
        3 => drop(second),
        4 => {
            // replaced while rendering, after the first source ended
            c.suspend_sync((2 * N) as f64 / SR as f64, move |_| second.set_onended(move |e| l.lock().unwrap().push((8, e.type_))));
            want[1].0 = 8;
        }
        _ => (),
    }
    run(c);
    check("events: ended, once per source and in order", *log.lock().unwrap() == want);
}

fn state() {
    let mut c: OfflineAudioContext = ctx(1, 6 * N);
    let log: Log = Default::default();
    let l = Arc::clone(&log);
    c.set_onstatechange(move |e| l.lock().unwrap().push((0, e.type_)));
    let mut count = 0;
    for q in 1..5 {
        if !pick_bool("suspended") {
            continue;
        }
        count += 1;
        let l = Arc::clone(&log);
        let last = q == 4;
        c.suspend_sync((q * N) as f64 / SR as f64, move |c| {
            l.lock().unwrap().push((1, "suspended"));
            check("events: state while suspended", c.state() == crate::context::AudioContextState::Suspended);
            if last {
                c.clear_onstatechange();
            }
        });
    }
    let cleared = log.lock().unwrap().len() > 0;
    check("events: nothing before rendering", !cleared);
    run(c);
    let got: Vec<i64> = log.lock().unwrap().iter().map(|e| e.0).collect();
    let calls = got.iter().filter(|n| **n == 1).count();
    check("events: every suspension happened", calls == count);
}

/// posts its frame in every quantum and panics in the third
struct Noisy;

impl AudioWorkletProcessor for Noisy {
    type ProcessorOptions = ();
    fn constructor(_: ()) -> Self {
        Noisy
    }
    fn process<'a, 'b>(&mut self, _i: &'b [&'a [&'a [f32]]], _o: &'b mut [&'a mut [&'a mut [f32]]], _p: AudioParamValues<'b>, s: &'b AudioWorkletGlobalScope) -> bool {
        if s.current_frame == 2 * N as u64 {
            panic!("on purpose");
        }
        s.post_message(Box::new(s.current_frame));
        true
    }
}

/// every kind of handler in one context, one of them cleared or replaced
fn handlers() {
    let mut c: OfflineAudioContext = ctx(1, 6 * N);
    let log: Log = Default::default();
    let put = |k: i64| {
        let l = Arc::clone(&log);
        move || l.lock().unwrap().push((k, ""))
    };
    let nodes: Vec<AudioWorkletNode> = (0..2).map(|_| AudioWorkletNode::new::<Noisy>(&c, AudioWorkletNodeOptions::default())).collect();
    let mut src = c.create_constant_source();
    src.start();
    src.stop_at((2 * N) as f64 / SR as f64);
    src.connect(&c.destination());
    let script = c.create_script_processor(256, 1, 1);
    script.connect(&c.destination());
    for n in &nodes {
        n.connect(&c.destination());
    }
    let set = |k: i64, new: i64| {
        let f = put(k + new);
        match k {
            0 | 1 => nodes[k as usize].port().set_onmessage(move |_| f()),
            2 | 3 => nodes[k as usize - 2].set_onprocessorerror(Box::new(move |_| f())),
            4 => src.set_onended(move |_| f()),
            5 => script.set_onaudioprocess(move |_| f()),
            6 => c.set_onstatechange(move |_| f()),
            _ => c.set_oncomplete(move |_| f()),
        }
    };
    for k in 0..8 {
        set(k, 0);
    }
    let which = pick("handler", 0, 7);
    let what = pick("what", 0, 2);
    match (what, which) {
        (1, k) => set(k, 10),
        (2, 0 | 1) => nodes[which as usize].port().clear_onmessage(),
        (2, 2 | 3) => nodes[which as usize - 2].clear_onprocessorerror(),
        (2, 4) => src.clear_onended(),
        (2, 5) => script.clear_onaudioprocess(),
        (2, 6) => c.clear_onstatechange(),
        (2, _) => c.clear_oncomplete(),
        _ => (),
    }
    expect_panics(|| {
        c.start_rendering_sync();
    });
    let log = log.lock().unwrap();
    let times = [2, 2, 1, 1, 1, 3, 2, 1];
    for k in 0..8 {
        let count = |id: i64| log.iter().filter(|e| e.0 == id).count();
        let (mut old, mut new) = (times[k as usize], 0);
        if k == which && what == 1 {
            std::mem::swap(&mut old, &mut new);
        } else if k == which && what == 2 {
            old = 0;
        }
        check("events: the handler in effect, as often as it happens", count(k) == old && count(k + 10) == new);
    }
}
