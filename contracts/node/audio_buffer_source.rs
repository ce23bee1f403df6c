use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "buffer_step", target: "AudioBufferSourceRenderer::process from any playhead", body: buffer_step },
        Contract { name: "buffer_step_end", target: "AudioBufferSourceRenderer::process around stop time and duration", body: buffer_step_end },
        Contract { name: "buffer_step_copy", target: "AudioBufferSourceRenderer::process, fast track from any playhead", body: buffer_step_copy },
        Contract { name: "buffer_step_begin", target: "AudioBufferSourceRenderer::process, quantum of the start", body: buffer_step_begin },
        Contract { name: "buffer_step_idle", target: "AudioBufferSourceRenderer::process, nothing to play", body: buffer_step_idle },
        Contract { name: "buffer_messages", target: "AudioBufferSourceRenderer::onmessage / clamp_loop_boundaries", body: buffer_messages },
    ]
}

fn buffer(x: &[Vec<f32>], rate: f64) -> AudioBuffer {
    AudioBuffer::from(x.to_vec(), rate as f32)
}

/// renderer playing `p`, with the playhead `h` (frames at the buffer's sample rate)
fn renderer(x: &[Vec<f32>], p: &Play, h: &Playhead, aligned: bool) -> AudioBufferSourceRenderer {
    let sr = SR as f64;
    let bsr = sr * p.ratio;
    let len = x[0].len() as f64;
    let (ls, le) = p.looped.unwrap_or((0., len));
    AudioBufferSourceRenderer {
        start_time: p.start / sr,
        stop_time: p.stop.map_or(f64::MAX, |s| s / sr),
        offset: h.off / bsr,
        duration: p.duration.map_or(f64::MAX, |d| d / bsr),
        buffer: Some(buffer(x, bsr)),
        detune: id(0),
        playback_rate: id(1),
        loop_state: LoopState { is_looping: p.looped.is_some(), start: ls / bsr, end: le / bsr },
        render_state: AudioBufferRendererState {
            buffer_time: Arc::new(AtomicF64::new(h.pos / bsr)),
            started: h.begun,
            entered_loop: h.entered,
            buffer_time_elapsed: h.elapsed / bsr,
            is_aligned: aligned,
            ended: false,
        },
    }
}

/// one call: the frames, the playhead afterwards, and whether this was the end
fn step(x: &[Vec<f32>], p: &Play, h: &Playhead, aligned: bool, frame: usize, rate: f64) {
    let mut c = Call::new(1);
    c.stale(2);
    c.frame = frame as u64;
    c.param(0, &[0.]);
    c.param(1, &[rate as f32]);
    let mut r = renderer(x, p, h, aligned);
    let go_on = c.process(&mut r, &[]);
    let got = c.output(0);
    let bsr = SR as f64 * p.ratio;
    let len = x[0].len() as f64;
    let mut after = h.clone();
    let quiet = p.start >= (frame + N) as f64;
    if quiet {
        check("before the start: silence", c.outputs[0].is_silent());
    } else {
        check("channels of the buffer", got.len() == x.len());
        for (k, x) in x.iter().enumerate() {
            after = h.clone();
            let want = after.frames(x, p, |_| rate, frame, frame + N);
            for i in 0..N {
                check_close("every frame", got[k][i], want[i], 1e-3);
            }
        }
    }
    let end = (frame + N) as f64;
    let r0 = rate * p.ratio;
    let over = p.stop.map_or(false, |s| end >= s)
        || p.duration.map_or(false, |d| after.elapsed >= d)
        || !quiet && p.looped.is_none() && (r0 > 0. && after.pos >= len || r0 < 0. && after.pos < 0.);
    check("ended: exactly when nothing is left to play", r.render_state.ended == over);
    check("ended: one event at the end, none before", c.events.len() == over as usize);
    check("keeps processing", go_on || over);
    if !over {
        // a playhead at the end of the loop is one at its start
        let mut pos = r.render_state.buffer_time.load(Ordering::Relaxed) * bsr;
        if let (Some((ls, le)), true) = (p.looped, aligned) {
            while pos >= le {
                pos -= le - ls;
            }
            while after.pos >= le {
                after.pos -= le - ls;
            }
        }
        check_close("playhead afterwards", pos, after.pos, 1e-3);
        check_close("played so far afterwards", r.render_state.buffer_time_elapsed * bsr, after.elapsed, 1e-3);
        check("started", r.render_state.started == after.begun);
        if let (Some((ls, le)), false) = (p.looped, quiet) {
            // the flag may be set at the next frame as well
            let soon = after.entered || after.off < le && after.pos >= ls || after.off >= le && after.pos < le;
            check("in the loop", !r.render_state.entered_loop || soon);
            check("stays in the loop", r.render_state.is_aligned || r.render_state.entered_loop || !after.entered);
        }
    } else {
        // and then silence
        check("after the end: over", !c.process(&mut r, &[]));
        check("after the end: silent", c.outputs[0].is_silent());
        check("after the end: no event", c.events.len() == 1);
    }
}

fn pick_rate() -> f64 {
    [1., 0.5, 2., 1.5, -1., -0.5, 0.][pick("rate", 0, 6) as usize]
}

// any position inside and around the buffer, any loop, playing for any time
fn buffer_step() {
    let ratio = [1., 0.5][pick("ratio", 0, 1) as usize];
    let (len, ranges) = [(24, [(-1, 2), (4, 6), (15, 17), (22, 25)]), (130, [(-1, 1), (63, 64), (126, 128), (129, 131)])][pick("length", 0, 1) as usize];
    let l = len as f64;
    let looped = [None, Some((0., l)), Some((4., 16.)), Some((5.5, 20.25))][pick("loop", 0, 3) as usize];
    let rate = pick_rate();
    let pos: f64 = any_time("pos", &ranges);
    let entered = looped.is_some() && pick_bool("entered");
    let off = if looped.is_some() { [0., 18.][pick("off", 0, 1) as usize] } else { 0. };
    let p = Play { start: 3., stop: None, offset: off, duration: None, looped, ratio };
    let h = Playhead { begun: true, entered, pos, elapsed: 77.5, off };
    let x = any_signal("b", 1, len);
    step(&x, &p, &h, false, 5 * N, rate);
}

// duration and stop time: all times within the quantum
fn buffer_step_end() {
    let len = 300;
    let x = any_signal("b", 1, len);
    let ratio = [1., 0.5][pick("ratio", 0, 1) as usize];
    let rate = [1., 0.5, -1.][pick("rate", 0, 2) as usize];
    let looped = [None, Some((0., 300.)), Some((40., 60.))][pick("loop", 0, 2) as usize];
    let frame = 5 * N;
    let (mut stop, mut duration) = (None, None);
    if pick_bool("by_duration") {
        let d: f64 = any_time("left", &[(-1, 1), (31, 33), (62, 65), (126, 130)]);
        duration = Some(400. + d);
    } else {
        let s: f64 = any_time("stop", &[(-1, 1), (62, 65), (126, 130)]);
        stop = Some(frame as f64 + s);
    }
    let p = Play { start: 3., stop, offset: 0., duration, looped, ratio };
    let h = Playhead { begun: true, entered: looped.is_some(), pos: 50., elapsed: 400., off: 0. };
    step(&x, &p, &h, false, frame, rate);
}

// the fast track copies: from any frame of the buffer, after any number of loops
fn buffer_step_copy() {
    let ch = pick("channels", 1, 2) as usize;
    let len = [1, 2, 100, 128, 129, 300][pick("length", 0, 5) as usize];
    let x = any_signal("b", ch, len);
    let at = [0, 1, len / 2, len - 1, len - 128.min(len), 150, 172, 173][pick("at", 0, 7) as usize];
    if at >= len {
        return;
    }
    let looped = if pick_bool("loop") { Some((0., len as f64)) } else { None };
    let rounds = if looped.is_some() { pick("rounds", 0, 2) as usize } else { 0 };
    let elapsed = (at + rounds * len) as f64;
    let duration = [None, Some(elapsed + 1.), Some(elapsed + 64.5), Some(elapsed + 127.), Some(elapsed + 128.), Some(elapsed + 129.), Some(elapsed + 5000.)][pick("duration", 0, 6) as usize];
    let frame = 5 * N;
    let stop = [None, Some(frame as f64 + 0.5), Some(frame as f64 + 127.), Some(frame as f64 + 128.), Some(frame as f64 + 129.)][pick("stop", 0, 4) as usize];
    // the rate may change: no longer a copy from then on
    let rate = [1., 0.5, -1.][pick("rate", 0, 2) as usize];
    let h = Playhead { begun: true, entered: false, pos: at as f64, elapsed, off: 0. };
    let p = Play { start: 0., stop, offset: 0., duration, looped, ratio: 1. };
    step(&x, &p, &h, true, frame, rate);
}

// the quantum in which it starts; a start in the past is now
fn buffer_step_begin() {
    let x = any_signal("b", 1, 24);
    let rate = [1., 0.5, 2., -1.][pick("rate", 0, 3) as usize];
    let ratio = [1., 0.5][pick("ratio", 0, 1) as usize];
    let frame = [0, 7 * N][pick("frame", 0, 1) as usize];
    let offset = [0., 7.5, 23., 30.][pick("offset", 0, 3) as usize];
    let looped = [None, Some((0., 24.)), Some((4., 16.))][pick("loop", 0, 2) as usize];
    let s: f64 = any_time("start", &[(-1, 2), (60, 61), (126, 130)]);
    assume(s > -1.);
    let mut p = Play { start: frame as f64 + s, stop: None, offset, duration: None, looped, ratio };
    let h = Playhead::new(&p);
    let whole = pick_bool("long_ago");
    if whole {
        // started late: plays from the start of this quantum
        let mut c = Call::new(1);
        c.frame = frame as u64;
        c.param(0, &[0.]);
        c.param(1, &[rate as f32]);
        p.start = frame as f64 - 1. - s.abs() * 4.;
        let mut r = renderer(&x, &p, &h, false);
        c.process(&mut r, &[]);
        p.start = frame as f64;
        let want = Playhead::new(&p).frames(&x[0], &p, |_| rate, frame, frame + N);
        let got = c.output(0);
        for i in 0..N {
            check_close("late start: every frame", got[0][i], want[i], 1e-3);
        }
    } else {
        step(&x, &p, &h, false, frame, rate);
    }
}

fn buffer_step_idle() {
    let mut c = Call::new(1);
    c.stale(2);
    c.frame = 640;
    c.param(0, &[0.]);
    c.param(1, &[1.]);
    let p = Play { start: 0., stop: None, offset: 0., duration: None, looped: None, ratio: 1. };
    let mut r = renderer(&[vec![0.5; 100]], &p, &Playhead::new(&p), false);
    let no_buffer = pick_bool("no_buffer");
    if no_buffer {
        r.buffer = None;
    }
    let at: f64 = any_time("start", &[(639, 641), (766, 770)]);
    let never = pick_bool("never");
    r.start_time = if never { f64::MAX } else { at / SR as f64 };
    let stop = pick("stop", 0, 2);
    r.stop_time = [f64::MAX, 700. / SR as f64, 768. / SR as f64][stop as usize];
    if !no_buffer && !never {
        assume(at >= 768.);
    }
    let go_on = c.process(&mut r, &[]);
    check("idle: silent", c.outputs[0].is_silent() && c.output(0).len() == 1);
    let over = no_buffer && !never || stop > 0;
    check("idle: ended if it will never play", r.render_state.ended == over && c.events.len() == over as usize);
    check("idle: kept if it will still play", go_on == (!over && !never));
}

fn buffer_messages() {
    let mut r = AudioBufferSourceRenderer {
        start_time: f64::MAX,
        stop_time: f64::MAX,
        offset: 0.,
        duration: f64::MAX,
        buffer: None,
        detune: id(0),
        playback_rate: id(1),
        loop_state: LoopState { is_looping: false, start: 0., end: 0. },
        render_state: AudioBufferRendererState::default(),
    };
    let (ls, le): (f64, f64) = (any("loop_start", -2., 3.), any("loop_end", -2., 3.));
    let first = pick_bool("buffer_first");
    let mut b: Box<dyn Any> = Box::new(buffer(&[vec![0.5; 32768]], SR as f64));
    if first {
        r.onmessage(&mut *b);
    }
    let order = pick_bool("order");
    for i in 0..2 {
        let mut m: Box<dyn Any> = Box::new(if (i == 0) == order { ControlMessage::LoopStart(ls) } else { ControlMessage::LoopEnd(le) });
        r.onmessage(&mut *m);
    }
    if !first {
        r.onmessage(&mut *b);
    }
    check_eq("loop start inside of the buffer", r.loop_state.start, if ls < 0. { 0. } else if ls > 1. { 1. } else { ls });
    check_eq("loop end inside of the buffer", r.loop_state.end, if le <= 0. || le > 1. { 1. } else { le });
    check("not looping unless asked", !r.loop_state.is_looping && r.start_time == f64::MAX && r.stop_time == f64::MAX);
    let (s, o, d): (f64, f64, f64) = (any("start", 0., 1.), any("offset", 0., 1.), any("duration", 0., 1.));
    let mut m: Box<dyn Any> = Box::new(ControlMessage::StartWithOffsetAndDuration(s, o, d));
    r.onmessage(&mut *m);
    let mut m: Box<dyn Any> = Box::new(ControlMessage::Loop(true));
    r.onmessage(&mut *m);
    check_eq("start", r.start_time, s);
    check_eq("offset", r.offset, o);
    check_eq("duration", r.duration, d);
    check("loop", r.loop_state.is_looping && r.stop_time == f64::MAX);
    let mut m: Box<dyn Any> = Box::new(ControlMessage::Stop(s));
    r.onmessage(&mut *m);
    check_eq("stop", r.stop_time, s);
    check_eq("start is kept", r.start_time, s);
}
