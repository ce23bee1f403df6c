use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__automation::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "param_step_idle", target: "AudioParamProcessor::compute_buffer, no events", body: idle },
        Contract { name: "param_step", target: "AudioParamProcessor::compute_buffer, one pending event", body: one },
        Contract { name: "param_step_two", target: "AudioParamProcessor::compute_buffer, two pending events", body: two },
        Contract { name: "param_step_cut", target: "AudioParamProcessor::compute_buffer, event to be held", body: cut },
        Contract { name: "param_insert", target: "AudioParamProcessor::handle_incoming_event, new event", body: insert },
        Contract { name: "param_cancel", target: "AudioParamProcessor::handle_incoming_event, CancelScheduledValues", body: cancel },
        Contract { name: "param_hold", target: "AudioParamProcessor::handle_incoming_event, CancelAndHoldAtTime", body: hold },
        Contract { name: "param_mix", target: "AudioParamProcessor::process, value + input, clamped", body: mix },
        Contract { name: "param_nan", target: "AudioParamProcessor::mix_to_output, NaN", body: nan },
    ]
}

fn event(e: &Ev, t: f64, cut: Option<f64>) -> AudioParamEvent {
    let sr = SR as f64;
    let (event_type, value, time_constant, duration, values) = match e {
        Ev::Set(v, _) => (AudioParamEventType::SetValueAtTime, *v, None, None, None),
        Ev::Lin(v, _) => (AudioParamEventType::LinearRampToValueAtTime, *v, None, None, None),
        Ev::Exp(v, _) => (AudioParamEventType::ExponentialRampToValueAtTime, *v, None, None, None),
        Ev::Target(v, _, c) => (AudioParamEventType::SetTargetAtTime, *v, Some(*c / sr), None, None),
        Ev::Curve(v, _, d) => (AudioParamEventType::SetValueCurveAtTime, 0., None, Some(*d / sr), Some(v.clone().into_boxed_slice())),
    };
    // a held ramp is filed under the time of the hold
    let (time, cancel) = match cut {
        Some(c) if e.is_ramp() => (c, Some(e.time())),
        _ => (e.time(), cut),
    };
    AudioParamEvent { event_type, value, time: (t + time) / sr, time_constant, cancel_time: cancel.map(|c| (t + c) / sr), duration, values }
}

/// the event of the queue, times in frames after `t`
fn read(e: &AudioParamEvent, t: f64) -> Ev {
    let sr = SR as f64;
    let held_ramp = matches!(e.event_type, AudioParamEventType::LinearRampToValueAtTime | AudioParamEventType::ExponentialRampToValueAtTime) && e.cancel_time.is_some();
    let at = if held_ramp { e.cancel_time.unwrap() } else { e.time } * sr - t;
    match e.event_type {
        AudioParamEventType::SetValue | AudioParamEventType::SetValueAtTime => Ev::Set(e.value, at),
        AudioParamEventType::LinearRampToValueAtTime => Ev::Lin(e.value, at),
        AudioParamEventType::ExponentialRampToValueAtTime => Ev::Exp(e.value, at),
        AudioParamEventType::SetTargetAtTime => Ev::Target(e.value, at, e.time_constant.unwrap() * sr),
        AudioParamEventType::SetValueCurveAtTime => Ev::Curve(e.values.as_ref().unwrap().to_vec(), at, e.duration.unwrap() * sr),
        _ => panic!("event in the queue"),
    }
}

/// the value as a function of time, in frames since the begin of the quantum: the event before
/// `from` has given `v0`; event number n is held at `cut` = (n, time)
#[derive(Clone)]
struct Timeline {
    v0: f32,
    from: f64,
    evs: Vec<Ev>,
    cut: Option<(usize, f64)>,
}

impl Timeline {
    fn at(&self, t: f64) -> f32 {
        match self.cut {
            None => value_at(self.v0, self.from, &self.evs, t),
            Some((n, c)) => {
                let held = value_at(self.v0, self.from, &self.evs[..n + 1], c);
                if t < c {
                    value_at(self.v0, self.from, &self.evs[..n + 1], t)
                } else {
                    value_at(held, c, &self.evs[n + 1..], t)
                }
            }
        }
    }
    /// events take effect at the frame nearest to their time: frames up to half a frame before
    /// are not judged
    fn judged(&self, n: f64) -> bool {
        let near = |b: f64| n < b && b - n < 0.51;
        self.evs.iter().all(|e| {
            let end = match e {
                Ev::Curve(_, t, d) => near(*t + *d),
                _ => false,
            };
            !near(e.time()) && !end
        }) && !self.cut.map_or(false, |(_, c)| near(c))
    }
}

/// the event is applied only with the quantum that begins at its time
fn late(i: usize, e: &Ev, n: f64) -> bool {
    (i > 0 || !e.is_ramp()) && e.time() == n
}

/// the state that stands for `l` at time `t`, and its current value
fn state(l: &Timeline, t: f64, rate: AutomationRate) -> (AudioParamProcessor, f32) {
    let mut timeline = AudioParamEventTimeline::new();
    for (i, e) in l.evs.iter().enumerate() {
        timeline.push(event(e, t, match l.cut {
            Some((n, c)) if n == i => Some(c),
            _ => None,
        }));
    }
    timeline.sort();
    // an event at the very begin has not been applied yet
    let now = match l.evs.iter().enumerate().position(|(i, e)| late(i, e, 0.)) {
        Some(k) => value_at(l.v0, l.from, &l.evs[..k], 0.),
        None => l.at(0.),
    };
    let p = AudioParamProcessor {
        default_value: 0.,
        min_value: -10.,
        max_value: 10.,
        intrinsic_value: now,
        automation_rate: rate,
        current_value: Arc::new(AtomicF32::new(0.)),
        event_timeline: timeline,
        last_event: Some(event(&Ev::Set(l.v0, l.from), t, None)),
        buffer: ArrayVec::new(),
    };
    (p, now)
}

/// what the state stands for
fn meaning(p: &AudioParamProcessor, t: f64) -> Timeline {
    let sr = SR as f64;
    let last = p.last_event.as_ref().unwrap();
    let held = p.event_timeline.inner.iter().position(|e| e.cancel_time.is_some());
    Timeline {
        v0: last.value,
        from: last.time * sr - t,
        evs: p.event_timeline.inner.iter().map(|e| read(e, t)).collect(),
        cut: held.map(|n| {
            let e = &p.event_timeline.inner[n];
            (n, if read(e, t).is_ramp() { e.time } else { e.cancel_time.unwrap() } * sr - t)
        }),
    }
}

/// one quantum from the state that stands for `l`: its values, and the state afterwards stands for
/// the same function from the next quantum on
fn step(l: &Timeline, t: f64) {
    let sr = SR as f64;
    let rate = any_rate();
    let (mut p, now) = state(l, t, rate);
    let shown = Arc::clone(&p.current_value);
    p.compute_buffer(t / sr, 1. / sr, N);
    check_close("step: value shown is the one at the begin", shown.load(Ordering::Acquire), now, 1e-4);
    let b = p.buffer.clone();
    if rate == AutomationRate::K {
        check("step: one value", b.len() == 1);
        if l.judged(0.) {
            check_close("step: value at the begin", b[0], l.at(0.), 1e-4);
        }
    } else {
        check("step: one value or one per frame", b.len() == 1 || b.len() == N);
        for i in 0..N {
            if l.judged(i as f64) {
                check_close("step: every frame", b[i % b.len()], l.at(i as f64), 1e-4);
            }
        }
    }
    let n = N as f64;
    let due = p.event_timeline.inner.iter().enumerate().any(|(i, e)| late(i, &read(e, t), n));
    if l.judged(n) && !due {
        check_close("state: step: value the next quantum begins with", p.intrinsic_value, l.at(n), 1e-4);
    }
    let later = meaning(&p, t);
    check("state: step: no event is left behind", later.evs.len() <= l.evs.len());
    for f in [0., 1., 60., 200., 1000.] {
        if l.judged(n + f) {
            check_close("state: step: the rest of the timeline", later.at(n + f), l.at(n + f), 1e-4);
        }
    }
}

/// two events, the first one possibly under way
fn timeline() -> Timeline {
    let (k, m) = (pick("kind", 0, 4), pick("second", 0, 4));
    let at = [[-50.5, 90.], [20., 90.], [64., 200.]][pick("times", 0, 2) as usize];
    assume(at[0] >= 0. || k == 4 || (k == 3 && (m == 0 || m >= 3)));
    Timeline { v0: low("v0"), from: -130., evs: vec![any_event("e", k, false, at[0], 70.), any_event("f", m, true, at[1], 50.)], cut: None }
}

fn same(name: &str, e: &AudioParamEvent, want: &Ev, t: f64) {
    let kind = |e: &Ev| match e {
        Ev::Set(v, t) => (0, vec![*v], vec![*t]),
        Ev::Lin(v, t) => (1, vec![*v], vec![*t]),
        Ev::Exp(v, t) => (2, vec![*v], vec![*t]),
        Ev::Target(v, t, c) => (3, vec![*v], vec![*t, *c]),
        Ev::Curve(v, t, d) => (4, v.clone(), vec![*t, *d]),
    };
    let (a, b) = (kind(&read(e, t)), kind(want));
    check(name, a.0 == b.0 && a.1.len() == b.1.len() && e.cancel_time.is_none());
    for (x, y) in a.1.iter().zip(&b.1) {
        check_eq(name, *x, *y);
    }
    for (x, y) in a.2.iter().zip(&b.2) {
        check_close(name, *x, *y, 1e-4);
    }
}

/// a new event takes its place by time, after those of the same time; nothing else changes
fn insert() {
    let t = begin();
    let l = timeline();
    let at = [0., 60., 64., 90., 150., 200., 300.][pick("at", 0, 6) as usize];
    let f = any_event("new", pick("new kind", 0, 4), true, at, 10.);
    for e in &l.evs {
        if let Ev::Curve(_, s, d) = e {
            assume(at <= *s || at >= *s + *d);
        }
        if let Ev::Curve(..) = f {
            assume(e.time() <= at || e.time() >= at + 10.);
        }
    }
    let (mut p, now) = state(&l, t, any_rate());
    p.handle_incoming_event(event(&f, t, None));
    check_eq("state: insert: current value", p.intrinsic_value, now);
    check_eq("state: insert: start of what is running", p.last_event.as_ref().unwrap().value, l.v0);
    let mut want = l.evs.clone();
    let n = want.iter().take_while(|e| e.time() <= at).count();
    want.insert(n, f);
    check("state: insert: one more event", p.event_timeline.inner.len() == 3);
    for (e, w) in p.event_timeline.inner.iter().zip(&want) {
        same("state: insert: events in order", e, w, t);
    }
}

/// events from the given time on are removed; a running ramp gives back the value it started from
fn cancel() {
    let t = begin();
    let l = timeline();
    let at = [0., 20., 60., 64., 90., 100., 200., 300.][pick("at", 0, 7) as usize];
    let (mut p, now) = state(&l, t, any_rate());
    p.handle_incoming_event(AudioParamEvent { event_type: AudioParamEventType::CancelScheduledValues, value: 0., time: (t + at) / SR as f64, time_constant: None, cancel_time: None, duration: None, values: None });
    let want: Vec<&Ev> = l.evs.iter().filter(|e| e.time() < at).collect();
    let restored = l.evs[0].is_ramp() && l.evs[0].time() >= at;
    check_eq("state: cancel: current value", p.intrinsic_value, if restored { l.v0 } else { now });
    check("state: cancel: events before that time are left", p.event_timeline.inner.len() == want.len());
    for (e, w) in p.event_timeline.inner.iter().zip(&want) {
        same("state: cancel: events before that time are left", e, w, t);
    }
}

/// the value as before up to the given time, from then on the one it has there
fn hold() {
    let t = begin();
    let l = timeline();
    let at = any_time("at", &[(0, 1), (19, 21), (70, 71), (89, 91), (139, 141), (300, 301)]);
    let (mut p, now) = state(&l, t, any_rate());
    p.handle_incoming_event(AudioParamEvent { event_type: AudioParamEventType::CancelAndHoldAtTime, value: 0., time: (t + at) / SR as f64, time_constant: None, cancel_time: None, duration: None, values: None });
    check_eq("state: hold: current value", p.intrinsic_value, now);
    let got = meaning(&p, t);
    check_eq("state: hold: start of what is running", got.v0, l.v0);
    for f in [0., 1., 30., 65., 80., 100., 135., 145., 1000.] {
        check_close("state: hold: value at any time", got.at(f), l.at(if f < at { f } else { at }), 1e-4);
    }
}

fn any_rate() -> AutomationRate {
    if pick_bool("k-rate") {
        AutomationRate::K
    } else {
        AutomationRate::A
    }
}

const FROM: u64 = 1280;

/// a parameter with range [-1, 1] that goes from a to b from one quantum before `FROM` to two after
fn between(rate: AutomationRate, a: f32, b: Option<f32>) -> AudioParamProcessor {
    let t = FROM as f64;
    let mut timeline = AudioParamEventTimeline::new();
    let mut now = a;
    if let Some(b) = b {
        timeline.push(event(&Ev::Lin(b, 256.), t, None));
        now = (2. * a + b) / 3.;
    }
    timeline.sort();
    AudioParamProcessor {
        default_value: 0.75,
        min_value: -1.,
        max_value: 1.,
        intrinsic_value: now,
        automation_rate: rate,
        current_value: Arc::new(AtomicF32::new(0.)),
        event_timeline: timeline,
        last_event: Some(event(&Ev::Set(a, -128.), t, None)),
        buffer: ArrayVec::new(),
    }
}

fn mix() {
    let rate = any_rate();
    // inside, above or below the range, other than at one frame where anything is possible
    let (lo, hi) = [(-0.5, 0.5), (2., 3.), (-3., -2.)][pick("region", 0, 2) as usize];
    let a: f32 = any("a", lo, hi);
    let b: Option<f32> = if pick_bool("ramp") { Some(any("b", lo, hi)) } else { None };
    let mut c = Call::new(1);
    c.frame = FROM;
    c.stale(pick("stale", 0, 1) as usize);
    let free = [0, 1, 64, 127][pick("frame", 0, 3) as usize];
    let x: Block = if pick_bool("silent") { vec![] } else { vec![(0..N).map(|i| if i == free { any("y", -5, 5) } else { any(&format!("x[{}]", i), -0.25, 0.25) }).collect()] };
    let mut p = between(rate, a, b);
    check("mix: goes on", c.process(&mut p, &[x.clone()]));
    let one = c.outputs[0].single_valued();
    let got = c.output(0);
    check("mix: mono", got.len() == 1);
    for i in 0..N {
        let k = if rate == AutomationRate::K { 0 } else { i };
        let mut v = b.map_or(a, |b| a + (b - a) * (128. + k as f32) / 384.);
        if !x.is_empty() {
            v += x[0][k];
        }
        let want = if v < -1. {
            -1.
        } else if v > 1. {
            1.
        } else {
            v
        };
        check_close("mix: clamp(value + input)", got[0][if one { 0 } else { i }], want, 1e-5);
    }
}

/// NaN becomes the default value, at that frame only
fn nan() {
    let rate = any_rate();
    let a: f32 = any("a", -0.25, 0.25);
    let b: Option<f32> = if pick_bool("ramp") { Some(a) } else { None };
    let at = [0, 1, 64, 127][pick("frame", 0, 3) as usize];
    let x: Vec<f32> = (0..N).map(|i| if i == at { f32::NAN } else { any(&format!("x[{}]", i), 0.125, 0.25) }).collect();
    let c = Call::new(0);
    let input = c.block(&vec![x.clone()]);
    let mut out = c.block(&vec![vec![0.; N]]);
    let mut p = between(rate, a, b);
    p.compute_intrinsic_values(FROM as f64 / SR as f64, 1. / SR as f64, N);
    p.mix_to_output(&input, &mut out);
    let one = out.single_valued();
    for i in 0..N {
        let k = if rate == AutomationRate::K { 0 } else { i };
        let got = out.channel_data(0)[if one { 0 } else { i }];
        check_close("nan: default value", got, if k == at { 0.75 } else { a + x[k] }, 1e-5);
    }
}

fn begin() -> f64 {
    any("t", 1000, 100000)
}

fn idle() {
    let t = begin();
    let l = Timeline { v0: low("v0"), from: -(pick("since", 0, 1) as f64) * 300.5, evs: vec![], cut: None };
    step(&l, t);
}

const BORDERS: &[(i64, i64)] = &[(0, 2), (63, 64), (126, 130), (300, 301)];

/// an event that is under way (a ramp always is), or still to come
fn pending(kind: i64) -> Vec<Ev> {
    if kind >= 3 && pick_bool("started") {
        let since = -([0.25, 100., 190.][pick("since", 0, 2) as usize]);
        vec![any_event("e", kind, true, since, 200.)]
    } else {
        vec![any_event("e", kind, true, any_time("time", BORDERS), [10., 200.][pick("duration", 0, 1) as usize])]
    }
}

fn one() {
    let t = begin();
    let evs = pending(pick("kind", 0, 4));
    let l = Timeline { v0: low("v0"), from: -([0.25, 130.][pick("from", 0, 1) as usize]), evs, cut: None };
    step(&l, t);
}

fn two() {
    let t = begin();
    let at = [[20., 64.], [0., 128.], [100., 200.], [130., 140.], [0., 0.], [-50., 90.5], [-100., 128.], [-100., 0.]][pick("times", 0, 7) as usize];
    let (k, m) = (pick("kind", 0, 4), pick("second", 0, 4));
    // ramps and set values are over at their time; a ramp replaces a target approach at once
    assume(at[0] >= 0. || k == 4 || (k == 3 && (m == 0 || m >= 3)));
    // (ramps without a start time between are left to the bounded histories)
    assume(at[0] < at[1] || (k != 4 && m != 1 && m != 2));
    let d = if at[1] - at[0] > 140. { 140. } else { at[1] - at[0] };
    let evs = vec![any_event("e", k, false, at[0], d), any_event("f", m, true, at[1], 50.)];
    let l = Timeline { v0: low("v0"), from: -130., evs, cut: None };
    step(&l, t);
}

fn cut() {
    let t = begin();
    let k = pick("kind", 1, 4);
    let e = any_event("e", k, false, if k < 3 { 150. } else { -50.5 }, 200.);
    let c = any_time("cut", &[(0, 1), (127, 129), (140, 141)]);
    let mut evs = vec![e];
    match pick("followed by", 0, 5) {
        0 => (),
        m => evs.push(any_event("f", m - 1, true, [149., 400.][pick("next", 0, 1) as usize], 50.)),
    }
    let l = Timeline { v0: low("v0"), from: -130., evs, cut: Some((0, c)) };
    step(&l, t);
}
