use crate::context::{AudioContextState, BaseAudioContext, OfflineAudioContext};
use crate::node::{AudioNode, AudioScheduledSourceNode, ChannelInterpretation};
use crate::vc_lib__common::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "offline_length", target: "OfflineAudioContext::start_rendering_sync, length and channels of the result", body: length },
        Contract { name: "offline_suspend", target: "OfflineAudioContext::suspend_sync, any time", body: suspend },
        Contract { name: "offline_suspend_rate", target: "OfflineAudioContext::suspend_sync, exact quanta at usual sample rates", body: suspend_rate },
        Contract { name: "offline_suspend_many", target: "OfflineAudioContext::suspend_sync, several suspends in any order", body: suspend_many },
        Contract { name: "offline_async", target: "OfflineAudioContext::start_rendering / suspend / resume", body: async_ },
        Contract { name: "offline_async_many", target: "OfflineAudioContext::suspend, several in any order", body: async_many },
        Contract { name: "offline_handler", target: "graph changed by an event handler while rendering", body: handler },
        Contract { name: "offline_events", target: "OfflineAudioContext state, statechange, complete and ended events", body: events },
    ]
}

// exactly `length` frames of what the destination plays, independent of the length asked for
fn length() {
    let len = [1, 2, 127, 128, 129, 255, 256, 300][pick("length", 0, 7) as usize];
    let ch = pick("channels", 1, 3) as usize;
    let source = pick("source", 0, 2) as usize;
    let x = any_signal("x", source.max(1), 3 * N);
    let mut c = ctx(ch, len);
    let src = feed_signal(&c, &x);
    if source > 0 {
        src.connect(&c.destination());
    }
    let kept = pick_bool("handle is kept");
    if !kept {
        drop(src);
    }
    check("offline: length", c.length() == len);
    let b = c.start_rendering_sync();
    check("offline: frames of the result", b.length() == len);
    check("offline: channels of the result", b.number_of_channels() == ch);
    check_eq("offline: sample rate of the result", b.sample_rate(), SR);
    let want = if source == 0 { vec![vec![0.; 3 * N]; ch] } else { spec_mix_block(&x, ch, ChannelInterpretation::Speakers) };
    for k in 0..ch {
        let got = b.get_channel_data(k);
        for i in 0..len {
            check_eq("offline: every frame", got[i], want[k][i]);
        }
    }
    check("offline: time has advanced by whole quanta", c.current_time() == (len.div_ceil(N) * N) as f64 / SR as f64);
    check("offline: closed", c.state() == AudioContextState::Closed);
    check("offline: renders only once", catch(move || c.start_rendering_sync().length()).is_err());
}

// rendering pauses before the first quantum at or after the given time
fn suspend() {
    let len = [400, 384, 129][pick("length", 0, 2) as usize];
    let t = any_time("time", &[(0, 2), (60, 61), (126, 130), (254, 258), (383, 386), (399, 401)]);
    let q = (t / N as f64).ceil() as usize;
    let v: f32 = any("value", -1, 1);
    let mut c = ctx(1, len);
    let calls = Arc::new(AtomicUsize::new(0));
    let n = Arc::clone(&calls);
    let r = catch(|| {
        c.suspend_sync(t / SR as f64, move |c| {
            n.fetch_add(1, Ordering::SeqCst);
            check("suspend: at the next quantum", c.current_time() == (q * N) as f64 / SR as f64);
            check("suspend: state", c.state() == AudioContextState::Suspended);
            let mut s = c.create_constant_source();
            s.offset().set_value(v);
            s.connect(&c.destination());
            s.start();
            check("suspend: not twice in a rendering", catch(|| c.suspend_sync(0.01, |_| ())).is_err());
        })
    });
    let valid = q * N < len;
    check("suspend: times that are never reached are rejected, no other", r.is_ok() == valid);
    let b = c.start_rendering_sync();
    check("suspend: exactly once", calls.load(Ordering::SeqCst) == valid as usize);
    for (i, g) in b.get_channel_data(0).iter().enumerate() {
        check_eq("suspend: changes are heard from that quantum on", *g, if valid && i >= q * N { v } else { 0. });
    }
    check("suspend: negative times", catch(|| ctx(1, 300).suspend_sync(-0.001, |_| ())).is_err());
}

// q * 128 / sampleRate in any rounding is quantum q, not the next one
fn suspend_rate() {
    let rate = [44100., 48000., 22050., 96000., 11025.][pick("rate", 0, 4) as usize];
    let q = pick("quantum", 0, 40) as usize;
    let len = 41 * N;
    let seen = Arc::new(Mutex::new(vec![]));
    let mut c = OfflineAudioContext::new(1, len, rate);
    let s = Arc::clone(&seen);
    let t = match pick("way", 0, 2) {
        0 => (q * N) as f64 / rate as f64,
        1 => q as f64 * (N as f64 / rate as f64),
        _ => (0..q).fold(0., |t, _| t + N as f64 / rate as f64),
    };
    c.suspend_sync(t, move |c| s.lock().unwrap().push(c.current_time()));
    let _ = c.start_rendering_sync();
    let seen = seen.lock().unwrap();
    check("suspend: once", seen.len() == 1);
    check_within("suspend: at the very quantum asked for", seen[0] * rate as f64, (q * N) as f64, 0.01);
}

fn suspend_many() {
    let mut c = ctx(1, 5 * N);
    let log = Arc::new(Mutex::new(vec![]));
    let mut want: Vec<usize> = vec![];
    for k in 0..3 {
        let q = pick("quantum", 0, 4) as usize;
        let t = (q * N) as f64 - if q > 0 { 17. * k as f64 } else { 0. };
        let l = Arc::clone(&log);
        let r = catch(|| {
            c.suspend_sync(t / SR as f64, move |c| {
                check("suspends: at their quantum", c.current_time() == (q * N) as f64 / SR as f64);
                l.lock().unwrap().push(q);
            })
        });
        check("suspends: the same quantum is rejected, nothing else", r.is_err() == want.contains(&q));
        if r.is_ok() {
            want.push(q);
        }
        if want.len() < k + 1 {
            // the mutex of the context is poisoned by its own panic
            return;
        }
    }
    want.sort();
    let b = c.start_rendering_sync();
    check("suspends: each once, in order of time", *log.lock().unwrap() == want);
    check("suspends: full length", b.length() == 5 * N);
}

type Task = Pin<Box<dyn Future<Output = ()>>>;

/// runs all tasks to their end, in turns
fn block_on(mut tasks: Vec<Task>) -> bool {
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..200 {
        tasks.retain_mut(|t| t.as_mut().poll(&mut cx) == Poll::Pending);
        if tasks.is_empty() {
            return true;
        }
    }
    false
}

// the asynchronous interface renders the same
fn async_() {
    let len = [300, 512][pick("length", 0, 1) as usize];
    let x = any_signal("x", 1, 4 * N);
    let v: f32 = any("value", -1, 1);
    let q = pick("quantum", -1, 2);
    let early = pick_bool("suspend is asked for first");
    let c = Arc::new(ctx(1, len));
    let src = feed_signal(&*c, &x);
    src.connect(&c.destination());
    let mut tasks: Vec<Task> = vec![];
    if q >= 0 {
        let c2 = Arc::clone(&c);
        tasks.push(Box::pin(async move {
            c2.suspend(((q as usize * N) as f64 - if q > 0 { 3.5 } else { 0. }) / SR as f64).await;
            check("async: suspended", c2.state() == AudioContextState::Suspended);
            check("async: at the next quantum", c2.current_time() == (q as usize * N) as f64 / SR as f64);
            let mut s = c2.create_constant_source();
            s.offset().set_value(v);
            s.connect(&c2.destination());
            s.start();
            c2.resume().await;
            check("async: not suspended any more", c2.state() != AudioContextState::Suspended);
        }));
    }
    let result = Arc::new(Mutex::new(None));
    let (c3, r) = (Arc::clone(&c), Arc::clone(&result));
    let render: Task = Box::pin(async move {
        let b = c3.start_rendering().await;
        *r.lock().unwrap() = Some(b);
    });
    if early || q < 0 {
        tasks.push(render);
    } else {
        // suspend must be called before rendering starts: poll it once
        let mut cx = Context::from_waker(Waker::noop());
        let pending = tasks[0].as_mut().poll(&mut cx) == Poll::Pending;
        check("async: waits", pending);
        tasks.insert(0, render);
    }
    check("async: comes to its end", block_on(tasks));
    let b = result.lock().unwrap().take().unwrap();
    check("async: frames of the result", b.length() == len);
    for (i, g) in b.get_channel_data(0).iter().enumerate() {
        let extra = if q >= 0 && i >= q as usize * N { v } else { 0. };
        check_eq("async: every frame", *g, x[0][i] + extra);
    }
    check("async: closed", c.state() == AudioContextState::Closed);
}

// every suspension happens, each at its time, in whatever order they were asked for
fn async_many() {
    let x = any_signal("x", 1, 5 * N);
    let order = [[0, 1, 3], [0, 3, 1], [1, 0, 3], [3, 1, 0], [1, 3, 0], [3, 0, 1], [1, 2, 3], [3, 2, 1], [2, 3, 4]][pick("order", 0, 8) as usize];
    let c = Arc::new(ctx(1, 5 * N));
    let src = feed_signal(&*c, &x);
    src.connect(&c.destination());
    let mut tasks: Vec<Task> = vec![];
    let log = Arc::new(Mutex::new(vec![]));
    for q in order {
        let (c2, log) = (Arc::clone(&c), Arc::clone(&log));
        tasks.push(Box::pin(async move {
            c2.suspend((q * N) as f64 / SR as f64).await;
            check("async: each at its quantum", c2.current_time() == (q * N) as f64 / SR as f64);
            let mut s = c2.create_constant_source();
            s.offset().set_value(0.25);
            s.connect(&c2.destination());
            s.start();
            log.lock().unwrap().push(q);
            c2.resume().await;
        }));
    }
    let result = Arc::new(Mutex::new(None));
    let (c3, r) = (Arc::clone(&c), Arc::clone(&result));
    tasks.push(Box::pin(async move {
        let b = c3.start_rendering().await;
        *r.lock().unwrap() = Some(b);
    }));
    check("async: comes to its end", block_on(tasks));
    let mut sorted = order.to_vec();
    sorted.sort();
    check("async: each once, in order of time", *log.lock().unwrap() == sorted);
    let b = result.lock().unwrap().take().unwrap();
    for (i, g) in b.get_channel_data(0).iter().enumerate() {
        let n = order.iter().filter(|q| i >= **q * N).count();
        check_eq("async: every frame", *g, x[0][i] + 0.25 * n as f32);
    }
}

// what the handler of an event does is heard from the next quantum on
fn handler() {
    let end = pick("end", 1, 3) as usize;
    let v: f32 = any("value", -1, 1);
    let x = any_signal("x", 1, 5 * N);
    let c = Arc::new(Mutex::new(None));
    let mut k = ctx(1, 5 * N);
    let src = feed_signal(&k, &x);
    src.connect(&k.destination());
    let extra = feed(&k, vec![vec![vec![v; N]]; 5]);
    let dest = k.destination();
    let mut s = k.create_constant_source();
    s.offset().set_value(0.);
    s.start();
    s.stop_at((end * N - 5) as f64 / SR as f64);
    let sync = pick_bool("sync");
    s.set_onended(move |_| {
        extra.connect(&dest);
    });
    s.connect(&k.destination());
    let b = if sync {
        k.start_rendering_sync()
    } else {
        let r = Arc::clone(&c);
        check("handler: comes to its end", block_on(vec![Box::pin(async move {
            let b = k.start_rendering().await;
            *r.lock().unwrap() = Some(b);
        })]));
        c.lock().unwrap().take().unwrap()
    };
    for (i, g) in b.get_channel_data(0).iter().enumerate() {
        check_eq("handler: from the next quantum on", *g, x[0][i] + if i >= end * N { v } else { 0. });
    }
}

// one statechange per change of state; complete once, with the result, at the very end
fn events() {
    let mut c = ctx(1, 3 * N);
    let log: Arc<Mutex<Vec<(&str, usize)>>> = Arc::new(Mutex::new(vec![]));
    let suspended = pick("suspend", -1, 2);
    if suspended >= 0 {
        let l = Arc::clone(&log);
        c.suspend_sync((suspended as usize * N) as f64 / SR as f64, move |_| l.lock().unwrap().push(("suspended", suspended as usize)));
    }
    let l = Arc::clone(&log);
    c.set_onstatechange(move |_| l.lock().unwrap().push(("state", 0)));
    let l = Arc::clone(&log);
    let x = any_signal("x", 1, N);
    let mut src = player(&c, &x);
    src.connect(&c.destination());
    src.set_onended(move |_| l.lock().unwrap().push(("ended", 0)));
    let completed = Arc::new(Mutex::new(None));
    let (l, r) = (Arc::clone(&log), Arc::clone(&completed));
    let clear = pick_bool("clear");
    c.set_oncomplete(move |e| {
        l.lock().unwrap().push(("complete", 0));
        *r.lock().unwrap() = Some(e.rendered_buffer);
    });
    if clear {
        c.clear_oncomplete();
    }
    let kept = pick_bool("source handle is kept");
    let src = if kept { Some(src) } else { None };
    let b = c.start_rendering_sync();
    drop(src);
    let log = log.lock().unwrap();
    let count = |n: &str| log.iter().filter(|e| e.0 == n).count();
    check("events: one statechange per change of state", count("state") == if suspended >= 0 { 4 } else { 2 });
    check("events: source ended once", count("ended") == 1);
    check("events: complete once", count("complete") == !clear as usize);
    if !clear {
        check("events: complete is the last", log.last().unwrap().0 == "complete");
        let e = completed.lock().unwrap().take().unwrap();
        check("events: the result is handed over", e.length() == b.length());
        for (p, q) in e.get_channel_data(0).iter().zip(b.get_channel_data(0)) {
            check_eq("events: the result is handed over", *p, *q);
        }
    }
}
