use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![Contract { name: "stats_step", target: "AudioStats::record_render_callback on top of given counters", body: step }]
}

const BUDGET: u64 = 2_000_000;
const TIMES: [u64; 5] = [0, 1_500_000, BUDGET, BUDGET + 1, 5_000_000];

// on top of the counters of earlier callbacks
fn step() {
    let s = AudioStats::new();
    let old = [7, 11_000_000, 13_000_000, 3, 900, 2];
    s.inner.callback_count.store(old[0], Ordering::Relaxed);
    s.inner.render_duration_ns_total.store(old[1], Ordering::Relaxed);
    s.inner.callback_budget_ns_total.store(old[2], Ordering::Relaxed);
    s.inner.underrun_count.store(old[3], Ordering::Relaxed);
    s.inner.underrun_duration_ns_total.store(old[4], Ordering::Relaxed);
    s.inner.underrun_events_total.store(old[5], Ordering::Relaxed);
    let late = pick_bool("late before");
    s.inner.previous_underrun.store(late, Ordering::Relaxed);
    let t = TIMES[pick("duration", 0, 4) as usize];
    let b = [0, 1, BUDGET][pick("budget", 0, 2) as usize];
    s.record_render_callback(t, b);
    let n = s.snapshot();
    let over = t > b;
    check("stats: callbacks", n.callback_count == old[0] + 1);
    check("stats: time spent", n.render_duration_ns_total == old[1] + t);
    check("stats: time available", n.callback_budget_ns_total == old[2] + b);
    check("stats: callbacks that took too long", n.underrun_count == old[3] + over as u64);
    check("stats: time they took too long", n.underrun_duration_ns_total == old[4] + if over { t - b } else { 0 });
    check("stats: uninterrupted sequences of them", n.underrun_events_total == old[5] + (over && !late) as u64);
    check("stats: sequence goes on", s.inner.previous_underrun.load(Ordering::Relaxed) == over);
}
