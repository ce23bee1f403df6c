use crate::context::*;
use crate::node::*;
use crate::vc_lib__common::*;
use std::sync::{Arc, Mutex};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "buffer_plain", target: "AudioBufferSourceRenderer::process, fast track", body: plain },
        Contract { name: "buffer_offset", target: "AudioBufferSourceRenderer::process, any offset / duration / rate", body: offset },
        Contract { name: "buffer_start", target: "AudioBufferSourceRenderer::process, any start time", body: start },
        Contract { name: "buffer_loop", target: "AudioBufferSourceRenderer::process, looping", body: looping },
        Contract { name: "buffer_loop_points", target: "AudioBufferSourceRenderer::process, any loop points", body: loop_points },
        Contract { name: "buffer_resample", target: "AudioBufferSourceRenderer::process, buffer of another sample rate", body: resample },
        Contract { name: "buffer_rate_change", target: "AudioBufferSourceRenderer::process, rate and detune changes between quanta", body: rate_change },
    ]
}

struct Rig {
    c: OfflineAudioContext,
    src: AudioBufferSourceNode,
    tape: Tape,
    ended: Arc<Mutex<Vec<usize>>>,
    _r: Bench,
}

fn rig(buf: &[Vec<f32>], rate: f32, quanta: usize) -> Rig {
    let c = ctx(1, quanta * N);
    let mut b = c.create_buffer(buf.len(), buf[0].len(), rate);
    for (k, x) in buf.iter().enumerate() {
        b.copy_to_channel(x, k);
    }
    let mut src = c.create_buffer_source();
    src.set_buffer(b);
    let (r, tape) = record(&c, 1);
    src.connect(&r);
    let ended = Arc::new(Mutex::new(vec![]));
    let (e2, t2) = (Arc::clone(&ended), Arc::clone(&tape));
    src.set_onended(move |_| e2.lock().unwrap().push(t2.lock().unwrap().len()));
    Rig { c, src, tape, ended, _r: r }
}

fn judge(name: &str, tape: &Tape, buf: &[Vec<f32>], p: &Play, rate: impl Fn(usize) -> f64, n: usize) {
    let out = played(tape, 0, buf.len());
    for (k, x) in buf.iter().enumerate() {
        let want = Playhead::new(p).frames(x, p, &rate, 0, n);
        check(&format!("{}: length", name), out[k].len() == n);
        for i in 0..n {
            check_close(&format!("{}: every frame", name), out[k][i], want[i], 1e-3);
        }
    }
}

/// aligned playback at normal speed copies the buffer, looped or not, for any buffer length
fn plain() {
    let len = [1, 2, 100, 127, 128, 129, 256, 300][pick("length", 0, 7) as usize];
    let ch = pick("channels", 1, 2) as usize;
    let looped = pick_bool("loop");
    let at = [0., 128., 200.][pick("start", 0, 2) as usize];
    let buf = any_signal("b", ch, len);
    let n = 5 * N;
    let mut g = rig(&buf, SR, 5);
    g.src.set_loop(looped);
    g.src.start_at(at / SR as f64);
    run(g.c);
    let p = Play { start: at, stop: None, offset: 0., duration: None, looped: if looped { Some((0., len as f64)) } else { None }, ratio: 1. };
    judge("buffer", &g.tape, &buf, &p, |_| 1., n);
    let e = g.ended.lock().unwrap();
    check("buffer: ended once", e.len() == 1);
    if e.len() == 1 {
        if looped {
            check("buffer: a loop does not end", e[0] == 5);
        } else {
            let end = at as usize + len;
            check("buffer: ended after the last frame", e[0] * N >= end);
            check("buffer: ended within two quanta", e[0] * N <= end + 2 * N);
        }
    }
}

fn pick_rate() -> f64 {
    [1., 0.5, 2., 1.5, -1., 0., -0.5][pick("rate", 0, 6) as usize]
}

/// any offset, with and without duration
fn offset() {
    let len = 60;
    let buf = any_signal("b", 1, len);
    let rate = pick_rate();
    let at = [0., 3.25][pick("start", 0, 1) as usize];
    let which = pick("free", 0, 1);
    let offset: f64 = if which == 0 { any_time("offset", &[(0, 5), (57, 62)]) } else { [0., 7.5, 59.][pick("offset", 0, 2) as usize] };
    let duration: Option<f64> = if which == 1 {
        Some(any_time("duration", &[(0, 8), (56, 64)]))
    } else {
        [None, Some(10.), Some(20.25)][pick("duration", 0, 2) as usize]
    };
    let mut g = rig(&buf, SR, 2);
    g.src.playback_rate().set_value(rate as f32);
    let sr = SR as f64;
    match duration {
        Some(d) => g.src.start_at_with_offset_and_duration(at / sr, offset / sr, d / sr),
        None => g.src.start_at_with_offset(at / sr, offset / sr),
    }
    run(g.c);
    let p = Play { start: at, stop: None, offset, duration, looped: None, ratio: 1. };
    judge("buffer offset", &g.tape, &buf, &p, |_| rate, 2 * N);
    check("buffer offset: ended at most once", g.ended.lock().unwrap().len() <= 1);
}

/// any start time: the signal keeps its position between two frames
fn start() {
    let len = 40;
    let buf = any_signal("b", 1, len);
    let rate = [1., 0.5, 1.5][pick("rate", 0, 2) as usize];
    let at: f64 = any_time("start", &[(110, 132)]);
    let stop = [None, Some(130.5)][pick("stop", 0, 1) as usize];
    let mut g = rig(&buf, SR, 2);
    g.src.playback_rate().set_value(rate as f32);
    g.src.start_at(at / SR as f64);
    if let Some(s) = stop {
        let s: f64 = s;
        g.src.stop_at(s / SR as f64);
    }
    run(g.c);
    let p = Play { start: at, stop, offset: 0., duration: None, looped: None, ratio: 1. };
    judge("buffer start", &g.tape, &buf, &p, |_| rate, 2 * N);
}

/// loops over the whole buffer or a part of it, from any offset
fn looping() {
    let len = 24;
    let buf = any_signal("b", 1, len);
    let rate = [1., 0.5, 1.5, -1., -0.5][pick("rate", 0, 4) as usize];
    let (ls, le) = [(0., 24.), (4., 16.), (0., 7.), (5.5, 20.25), (10., 24.)][pick("loop", 0, 4) as usize];
    let offset: f64 = any_time("offset", &[(0, 26)]);
    let mut g = rig(&buf, SR, 1);
    let sr = SR as f64;
    g.src.set_loop(true);
    g.src.set_loop_start(ls / sr);
    g.src.set_loop_end(le / sr);
    g.src.playback_rate().set_value(rate as f32);
    g.src.start_at_with_offset(0., offset / sr);
    run(g.c);
    let p = Play { start: 0., stop: None, offset, duration: None, looped: Some((ls, le)), ratio: 1. };
    judge("buffer loop", &g.tape, &buf, &p, |_| rate, N);
}

/// any loop points (out of range or reversed ones fall back to the whole buffer)
fn loop_points() {
    let len = 12;
    let buf = any_signal("b", 1, len);
    let rate = [1., -1.][pick("rate", 0, 1) as usize];
    let free = pick("free", 0, 1);
    let ls: f64 = if free == 0 { any_time("loop_start", &[(-1, 14)]) } else { [0., 3., 11.5][pick("ls", 0, 2) as usize] };
    let le: f64 = if free == 1 { any_time("loop_end", &[(-1, 14)]) } else { [0., 6., 12.][pick("le", 0, 2) as usize] };
    let l = len as f64;
    let s = if ls < 0. {
        0.
    } else if ls > l {
        l
    } else {
        ls
    };
    let e = if le <= 0. || le > l { l } else { le };
    assume(e - s > 0.75 || s >= e);
    let lp = if s < e { (s, e) } else { (0., l) };
    let mut g = rig(&buf, SR, 1);
    let sr = SR as f64;
    g.src.set_loop(true);
    g.src.set_loop_start(ls / sr);
    g.src.set_loop_end(le / sr);
    g.src.playback_rate().set_value(rate as f32);
    let stop = 30.;
    g.src.start_at_with_offset(0., 2. / sr);
    g.src.stop_at(stop / sr);
    run(g.c);
    let p = Play { start: 0., stop: Some(stop), offset: 2., duration: None, looped: Some(lp), ratio: 1. };
    judge("buffer loop points", &g.tape, &buf, &p, |_| rate, N);
}

/// a buffer of another sample rate is resampled
fn resample() {
    let ratio = [2., 0.5, 0.25][pick("ratio", 0, 2) as usize];
    let len = 30;
    let buf = any_signal("b", 1, len);
    let looped = pick_bool("loop");
    let rate = [1., 0.5][pick("rate", 0, 1) as usize];
    let bsr = SR as f64 * ratio;
    let mut g = rig(&buf, bsr as f32, 1);
    let (ls, le) = [(0., 30.), (8., 30.)][pick("points", 0, 1) as usize];
    g.src.set_loop(looped);
    g.src.set_loop_start(ls / bsr);
    g.src.set_loop_end(le / bsr);
    g.src.playback_rate().set_value(rate as f32);
    let offset: f64 = any_time("offset", &[(0, 10)]);
    g.src.start_at_with_offset(0., offset / bsr);
    run(g.c);
    let p = Play { start: 0., stop: None, offset, duration: None, looped: if looped { Some((ls, le)) } else { None }, ratio };
    judge("buffer resample", &g.tape, &buf, &p, |_| rate, N);
}

/// rate * 2^(detune / 1200), sampled once per quantum
fn rate_change() {
    let len = 300;
    let buf = any_signal("b", 1, len);
    let r = [(1., 0.5), (1., 1.), (0.5, 1.), (2., 0.25)][pick("rates", 0, 3) as usize];
    let d = [(0., 0.), (0., 1200.), (-1200., 0.)][pick("detunes", 0, 2) as usize];
    let mut g = rig(&buf, SR, 3);
    let t1 = N as f64 / SR as f64;
    g.src.playback_rate().set_value(r.0 as f32).set_value_at_time(r.1 as f32, t1);
    g.src.detune().set_value(d.0 as f32).set_value_at_time(d.1 as f32, t1);
    g.src.start();
    run(g.c);
    let p = Play { start: 0., stop: None, offset: 0., duration: None, looped: None, ratio: 1. };
    let oct = |x: f64| if x == 1200. { 2. } else if x == -1200. { 0.5 } else { 1. };
    judge("buffer rate change", &g.tape, &buf, &p, |i| if i < N { r.0 * oct(d.0) } else { r.1 * oct(d.1) }, 3 * N);
}
