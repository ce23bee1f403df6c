use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "stats_callbacks", target: "AudioStats, sequences of callbacks", body: callbacks },
        Contract { name: "stats_latency", target: "AudioStats::record_latency_seconds, reset_latency", body: latency },
        Contract { name: "stats_peak", target: "AudioStats::take_peak_load", body: peak },
    ]
}

const BUDGET: u64 = 2_000_000;
const TIMES: [u64; 5] = [0, 1_500_000, BUDGET, BUDGET + 1, 5_000_000];

fn callbacks() {
    let s = AudioStats::new();
    let clone = s.clone();
    let (mut spent, mut late, mut runs, mut excess, mut before) = (0, 0, 0, 0, false);
    for n in 1..=4 {
        let t = TIMES[pick("duration", 0, 4) as usize];
        clone.record_render_callback(t, BUDGET);
        spent += t;
        let over = t > BUDGET;
        if over {
            late += 1;
            excess += t - BUDGET;
            if !before {
                runs += 1;
            }
        }
        before = over;
        let x = s.snapshot();
        check("stats: totals", x.callback_count == n && x.render_duration_ns_total == spent && x.callback_budget_ns_total == n * BUDGET);
        check("stats: underruns", x.underrun_count == late && x.underrun_events_total == runs && x.underrun_duration_ns_total == excess);
        check_within("stats: underrun seconds", x.underrun_duration_seconds(), excess as f64 / 1000000000., 0.000000001);
    }
}

fn latency() {
    let s = AudioStats::new();
    let start = s.snapshot();
    check("stats: no latency yet", start.latency_count == 0 && start.latency_sum_ns == 0 && start.latency_min_ns == 0 && start.latency_max_ns == 0);
    check_eq("stats: no average yet", start.average_latency_seconds(), 0.);
    let values = [0.001, 0.004, 0., 0.25, -1., f64::NAN, f64::INFINITY];
    let mut kept: Vec<f64> = vec![];
    let mut last: f64 = 0.;
    for _ in 0..3 {
        let k = pick("latency", 0, 7) as usize;
        if k == 7 {
            s.reset_latency();
            kept = vec![last];
            continue;
        }
        s.record_latency_seconds(values[k]);
        if k < 4 {
            kept.push(values[k]);
            last = values[k];
        }
    }
    let x = s.snapshot();
    check("stats: latencies that make sense", x.latency_count == kept.len() as u64);
    let mut sum: f64 = 0.;
    let (mut lo, mut hi): (f64, f64) = (if kept.is_empty() { 0. } else { 1. }, 0.);
    for v in &kept {
        sum += *v;
        if *v < lo {
            lo = *v;
        }
        if *v > hi {
            hi = *v;
        }
    }
    check_within("stats: average latency", x.average_latency_seconds(), if kept.is_empty() { 0. } else { sum / kept.len() as f64 }, 0.00000001);
    check_within("stats: smallest latency", x.minimum_latency_seconds(), lo, 0.00000001);
    check_within("stats: largest latency", x.maximum_latency_seconds(), hi, 0.00000001);
}

fn peak() {
    let s = AudioStats::new();
    let mut most: f64 = 0.;
    for _ in 0..2 {
        let t = TIMES[pick("duration", 0, 4) as usize];
        let b = [0, BUDGET][pick("budget", 0, 1) as usize];
        s.record_render_callback(t, b);
        let load = if b == 0 { 0. } else { t as f64 / b as f64 };
        if load > most {
            most = load;
        }
    }
    check_within("stats: peak load", s.take_peak_load(), most, 0.000001);
    check_eq("stats: peak starts anew", s.take_peak_load(), 0.);
}
