use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "constant_step", target: "ConstantSourceRenderer::process, one quantum", body: step },
        Contract { name: "constant_drop", target: "ConstantSourceRenderer::onmessage, before_drop", body: drop_ },
    ]
}

/// some time before, in or after the quantum that begins at frame 1280, or never
fn some_time(name: &str, all: bool) -> f64 {
    if !all {
        return [0., 1280., 1290., 1331.5, 1408., 1500., f64::MAX][pick(name, 0, 6) as usize];
    }
    match pick(name, 0, 5) {
        0 => f64::MAX,
        1 => any(&format!("{}_before", name), 0, 1279.9),
        2 => any_time(name, &[(1279, 1282)]),
        3 => any_time(name, &[(1330, 1332)]),
        4 => any_time(name, &[(1406, 1409)]),
        _ => any(&format!("{}_after", name), 1409.1, 2000),
    }
}

// from any schedule, at any point of time: offset inside [start, stop), zero outside
fn step() {
    let which = pick_bool("which");
    let start = some_time("start", which);
    let stop = some_time("stop", !which);
    let sent = pick_bool("ended before");
    let never = f64::MAX;
    let secs = |t: f64, is: bool| if is { f64::MAX } else { t / SR as f64 };
    let (s_never, e_never) = (start == never, stop == never);
    let mut r = ConstantSourceRenderer { offset: id(0), start_time: secs(start, s_never), stop_time: secs(stop, e_never), ended_triggered: sent };
    let mut c = Call::new(1);
    c.stale(which as usize + 1);
    c.frame = 1280;
    let v = if pick_bool("arate") { any_block("offset") } else { vec![any("offset", -1, 1)] };
    c.param(0, &v);
    let go_on = c.process(&mut r, &[]);
    let got = c.output(0);
    check("constant: mono", got.len() == 1);
    for i in 0..N {
        let t = 1280. + i as f64;
        let on = t >= start && t < stop;
        check_eq("constant: offset inside [start, stop), zero outside", got[0][i], if on { v[i % v.len()] } else { 0. });
    }
    let over = stop <= 1408.;
    check("constant: ended exactly once, when it is over", c.events.len() == (over && !sent) as usize && r.ended_triggered == (over || sent));
    if over {
        check("constant: over", !go_on);
    } else if !s_never {
        check("constant: kept while it plays or waits", go_on);
    }
    check("constant: schedule kept", r.start_time == secs(start, s_never) && r.stop_time == secs(stop, e_never));
}

fn drop_() {
    let mut r = ConstantSourceRenderer { offset: id(0), start_time: f64::MAX, stop_time: f64::MAX, ended_triggered: pick_bool("ended before") };
    let sent = r.ended_triggered;
    let (a, b): (f64, f64) = (any("start", 0, 2), any("stop", 0, 2));
    let (started, stopped) = (pick_bool("started"), pick_bool("stopped"));
    if started {
        r.onmessage(&mut Schedule::Start(a));
        check_eq("constant: start message", r.start_time, a);
    }
    check("constant: start only", r.stop_time == f64::MAX);
    if stopped {
        r.onmessage(&mut Schedule::Stop(b));
        check_eq("constant: stop message", r.stop_time, b);
    }
    let (s, e) = scope(SR as u64, SR);
    r.before_drop(&s);
    let begun = (started && a <= 1.) || (stopped && b <= 1.);
    check("constant: ended at the end of the graph", e.try_iter().count() == (begun && !sent) as usize);
    r.before_drop(&s);
    check("constant: only once", e.try_iter().count() == 0);
}
