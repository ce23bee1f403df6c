use crate::context::vc_mod__thread::{thread, thread_and_events};
use crate::context::{BaseAudioContext, ConcreteBaseAudioContext};
use crate::message::OneshotNotify;
use crate::node::AudioNode;
use crate::render::{AudioParamValues, AudioProcessor};
use crate::vc_lib__common::{any_signal, bench, ctx, feed, feed_signal, N, SR};
use std::sync::atomic::AtomicUsize;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "callback_sizes", target: "RenderThread::render / render_inner, any buffer sizes", body: sizes },
        Contract { name: "callback_step", target: "RenderThread::render_inner from every position within a quantum, every size up to 300", body: step },
        Contract { name: "callback_messages", target: "RenderThread::render_inner / handle_control_messages between callbacks", body: messages },
        Contract { name: "callback_within", target: "RenderThread::render_inner, messages that arrive while a callback is rendered", body: within },
    ]
}

const SIZES: [usize; 9] = [1, 2, 64, 127, 128, 129, 192, 256, 300];

fn size(k: usize) -> usize {
    SIZES[pick(&format!("frames{}", k), 0, 8) as usize]
}

/// a callback for `frames` frames; the buffer is dirty
pub(super) fn callback(t: &mut RenderThread, frames: usize, channels: usize) -> Vec<Vec<f32>> {
    let mut b: Vec<f32> = vec![7.; frames * channels];
    t.render(&mut b[..]);
    (0..channels).map(|c| (0..frames).map(|i| b[i * channels + c]).collect()).collect()
}

// the concatenated buffers are the rendered signal, no frame lost or doubled
fn sizes() {
    let ch = pick("channels", 1, 2) as usize;
    let c = ctx(ch, N);
    let x = any_signal("x", ch, 8 * N);
    let src = feed_signal(&c, &x);
    src.connect(&c.destination());
    let mut t = thread(&c);
    let mut at = 0;
    for k in 0..3 {
        let n = size(k);
        let got = callback(&mut t, n, ch);
        for j in 0..ch {
            for i in 0..n {
                check_eq("callback: consecutive frames", got[j][i], x[j][at + i]);
            }
        }
        at += n;
        check("callback: time is that of the quanta rendered", c.current_time() == (at.div_ceil(N) * N) as f64 / SR as f64);
    }
}

// one callback from every position within a quantum: the state it leaves is again of that kind, so
// this covers every sequence of buffer sizes (of at most 300 frames each)
fn step() {
    let c = ctx(1, N);
    let x = any_signal("x", 1, 4 * N).remove(0);
    let src = feed_signal(&c, &[x.clone()]);
    src.connect(&c.destination());
    let mut t = thread(&c);
    let k = pick("position", 1, N as i64) as usize;
    callback(&mut t, k, 1);
    let n = pick("frames", 1, 300) as usize;
    let got = callback(&mut t, n, 1).remove(0);
    for i in 0..n {
        check_eq("callback step: consecutive frames", got[i], x[k + i]);
    }
    check("callback step: time", c.current_time() == ((k + n).div_ceil(N) * N) as f64 / SR as f64);
    let next = callback(&mut t, 1, 1).remove(0);
    if k + n < 4 * N {
        check_eq("callback step: the next frame is the next one played", next[0], x[k + n]);
    }
}

fn notify() -> OneshotNotify {
    OneshotNotify::Sync(crossbeam_channel::unbounded().0)
}

/// reference: what is left of a quantum is played first, then whole quanta
struct Spec {
    x: Vec<f32>,
    v: f32,
    next: usize,
    left: Vec<f32>,
    on: bool,
    plus: bool,
}

impl Spec {
    /// the next `n` frames; `at` is called at every boundary between quanta
    fn play(&mut self, n: usize, mut at: impl FnMut(&mut Self)) -> Vec<f32> {
        let mut out = vec![];
        while out.len() < n {
            if self.left.is_empty() {
                at(self);
                if self.on {
                    let d = if self.plus { self.v } else { 0. };
                    self.left = self.x[self.next * N..(self.next + 1) * N].iter().map(|x| *x + d).collect();
                    self.next += 1;
                } else {
                    self.left = vec![];
                    out.resize(n, 0.);
                    break;
                }
            }
            out.push(self.left.remove(0));
        }
        // when the last quantum is complete its boundary is seen before the callback returns
        at(self);
        out
    }
}

fn same(name: &str, got: &[f32], want: &[f32]) {
    check(&format!("{}: frames", name), got.len() == want.len());
    for i in 0..want.len() {
        check_eq(name, got[i], want[i]);
    }
}

// suspended: silence and no time passes; resumed: goes on where it was; changes of the graph are
// heard from the next quantum on
fn messages() {
    let c = ctx(1, N);
    let x = any_signal("x", 1, 10 * N).remove(0);
    let v: f32 = any("value", -1, 1);
    let src = feed_signal(&c, &[x.clone()]);
    src.connect(&c.destination());
    let (mut t, events) = thread_and_events(&c);
    let changes = Arc::new(AtomicUsize::new(0));
    let count = Arc::clone(&changes);
    c.set_onstatechange(move |_| {
        count.fetch_add(1, Ordering::Relaxed);
    });
    let extra = feed(&c, vec![vec![vec![v; N]]; 10]);
    let pattern = [[60, 128, 200], [1, 68, 300], [128, 256, 100], [300, 28, 129]][pick("sizes", 0, 3) as usize];
    let mut s = Spec { x, v, next: 0, left: vec![], on: true, plus: false };
    let mut expected = 1;
    let mut running = true;
    let mut pending = vec![];
    for n in pattern {
        match pick("message", 0, 4) {
            1 => {
                pending.push(1);
                c.base().send_control_msg(ControlMessage::Suspend { notify: notify() });
            }
            2 => {
                pending.push(2);
                c.base().send_control_msg(ControlMessage::Resume { notify: notify() });
            }
            3 => {
                pending.push(3);
                extra.connect(&c.destination());
            }
            4 => {
                pending.extend([1, 2]);
                c.base().send_control_msg(ControlMessage::Suspend { notify: notify() });
                c.base().send_control_msg(ControlMessage::Resume { notify: notify() });
            }
            _ => (),
        }
        let got = callback(&mut t, n, 1).remove(0);
        // a callback that only plays what is left of a quantum does not look at messages
        let only_left = s.left.len() >= n;
        let want = s.play(n, |s| {
            if only_left {
                return;
            }
            for m in pending.drain(..) {
                match m {
                    1 => {
                        expected += usize::from(running);
                        running = false;
                        s.on = false;
                    }
                    2 => {
                        expected += usize::from(!running);
                        running = true;
                        s.on = true;
                    }
                    _ => s.plus = true,
                }
            }
        });
        same("callback: suspended, resumed, connected", &got, &want);
        check("callback: time passes only while running", c.current_time() == (s.next * N) as f64 / SR as f64);
        check("callback: state", c.state() == if running { AudioContextState::Running } else { AudioContextState::Suspended });
        events.handle_pending_events();
        check("callback: one event per change of state", changes.load(Ordering::Relaxed) == expected);
    }
}

/// sends a message while its second quantum is processed
struct Sender {
    base: ConcreteBaseAudioContext,
    what: i64,
    graphs: crossbeam_channel::Sender<Graph>,
    at: usize,
}

impl AudioProcessor for Sender {
    fn process(&mut self, _i: &[AudioRenderQuantum], o: &mut [AudioRenderQuantum], _p: AudioParamValues<'_>, _s: &AudioWorkletGlobalScope) -> bool {
        o[0].make_silent();
        self.at += 1;
        if self.at == 2 {
            match self.what {
                0 => self.base.send_control_msg(ControlMessage::Suspend { notify: notify() }),
                1 => self.base.send_control_msg(ControlMessage::Close { notify: notify() }),
                2 => self.base.send_control_msg(ControlMessage::CloseAndRecycle { sender: self.graphs.clone() }),
                _ => {
                    self.base.send_control_msg(ControlMessage::Suspend { notify: notify() });
                    self.base.send_control_msg(ControlMessage::Resume { notify: notify() });
                }
            }
        }
        true
    }
    fn has_side_effects(&self) -> bool {
        true
    }
}

// a message that arrives while a quantum is rendered takes effect at its end
fn within() {
    let c = ctx(1, N);
    let x = any_signal("x", 1, 10 * N).remove(0);
    let src = feed_signal(&c, &[x.clone()]);
    src.connect(&c.destination());
    let what = pick("what", 0, 3);
    let (graphs, recycled) = crossbeam_channel::unbounded();
    let base = c.base().clone();
    let bench = bench(&c, Default::default(), 1, 1, Box::new(Sender { base, what, graphs, at: 0 }));
    let mut t = thread(&c);
    let pattern = [[60, 128, 200], [1, 68, 300], [128, 256, 100], [300, 28, 129], [200, 56, 300]][pick("sizes", 0, 4) as usize];
    let resumed = pick_bool("resumed before the last callback");
    assume(!resumed || what == 0);
    let mut s = Spec { x, v: 0., next: 0, left: vec![], on: true, plus: false };
    let mut stopped = false;
    for (k, n) in pattern.into_iter().enumerate() {
        let mut go = false;
        if k == 2 && resumed {
            c.base().send_control_msg(ControlMessage::Resume { notify: notify() });
            go = true;
        }
        let got = callback(&mut t, n, 1).remove(0);
        let only_left = s.left.len() >= n;
        let want = s.play(n, |s| {
            if only_left {
                return;
            }
            if s.next >= 2 && what < 3 && !stopped {
                stopped = true;
                s.on = false;
            }
            if go {
                go = false;
                s.on = true;
            }
        });
        same("callback: rest of the buffer", &got, &want);
        check("callback: time stops with the quantum", c.current_time() == (s.next * N) as f64 / SR as f64);
    }
    check("callback: graph handed over", (recycled.try_recv().is_ok()) == (what == 2 && s.next >= 2));
    drop(bench);
}
