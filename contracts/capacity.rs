use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "capacity_event", target: "render_capacity_event", body: event },
        Contract { name: "capacity_rounding", target: "AudioRenderCapacityEvent::new", body: rounding },
    ]
}

const BUDGET: u64 = 4_000_000;

// what happened between the two snapshots, and nothing before
fn event() {
    let stats = AudioStats::new();
    for _ in 0..pick("callbacks before", 0, 2) {
        stats.record_render_callback([1_000_000, 9_000_000][pick("earlier duration", 0, 1) as usize], BUDGET);
    }
    let previous = stats.snapshot();
    let n = pick("callbacks", 0, 3);
    let (mut spent, mut late) = (0, 0);
    for _ in 0..n {
        let t = [1_000_000, BUDGET, 10_000_000][pick("duration", 0, 2) as usize];
        stats.record_render_callback(t, BUDGET);
        spent += t;
        late += (t > BUDGET) as i64;
    }
    let t: f64 = any("timestamp", 0, 100);
    let p: f64 = any("peak", 0, 4);
    let e = render_capacity_event(t, previous, stats.snapshot(), p);
    check_eq("capacity: start of the period", e.timestamp, t);
    let load = if n == 0 { 0. } else { spent as f64 / (n as u64 * BUDGET) as f64 };
    check_within("capacity: average load", e.average_load, load, 0.005001);
    check_within("capacity: peak load", e.peak_load, p, 0.005001);
    let ratio = if n == 0 { 0. } else { late as f64 / n as f64 };
    check_le("capacity: underrun ratio", ratio, e.underrun_ratio + 0.000001);
    check_le("capacity: underrun ratio is rounded up", e.underrun_ratio, ratio + 0.010001);
    check("capacity: no underruns, no ratio", late > 0 || e.underrun_ratio == 0.);
}

// multiples of 1/100: loads to the nearest, ratios never too small
fn rounding() {
    let (a, p, u): (f64, f64, f64) = match pick("which", 0, 2) {
        0 => (any("average", 0, 2), 0., 0.),
        1 => (0., any("peak", 0, 2), 0.),
        _ => (0., 0., any("ratio", 0, 1)),
    };
    let e = AudioRenderCapacityEvent::new(1., a, p, u);
    check_within("capacity: nearest", e.average_load, a, 0.005001);
    check_within("capacity: nearest", e.peak_load, p, 0.005001);
    check_le("capacity: at least", u, e.underrun_ratio + 0.000001);
    check_le("capacity: next", e.underrun_ratio, u + 0.010001);
    for v in [e.average_load, e.peak_load, e.underrun_ratio] {
        check_within("capacity: two digits", v * 100., (v * 100.).round(), 0.0001);
    }
}
