use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "stereo_gains", target: "stereo_panner::get_stereo_gains", body: gains },
        Contract { name: "stereo_panner_step", target: "StereoPannerRenderer::process", body: step },
        Contract { name: "stereo_panner_step_arate", target: "StereoPannerRenderer::process (one pan per frame)", body: arate },
    ]
}

// equal power, ends exactly silent / passed through
fn gains() {
    let x: f32 = any("x", 0, 1);
    let g = get_stereo_gains(x);
    check_eq("gains: left", g[0], (x * std::f32::consts::PI / 2.).cos());
    check_eq("gains: right", g[1], (x * std::f32::consts::PI / 2.).sin());
    let ends = get_stereo_gains(if pick_bool("right") { 1. } else { 0. });
    check_eq("gains: ends", ends[0] * ends[1], 0.);
}

fn judge(c: &Call, x: &Block, pan: impl Fn(usize) -> f32) {
    let got = c.output(0);
    if x.is_empty() {
        for ch in &got {
            for v in ch {
                check_eq("stereo panner: silence", *v, 0.);
            }
        }
        return;
    }
    check("stereo panner: output is stereo", got.len() == 2);
    for i in 0..N {
        let f: Vec<f32> = x.iter().map(|c| c[i]).collect();
        let want = law(&f, pan(i));
        check_eq("stereo panner: left", got[0][i], want[0]);
        check_eq("stereo panner: right", got[1][i], want[1]);
    }
}

fn input() -> Block {
    let ch = pick("channels", 0, 2);
    (0..ch).map(|k| any_block(&format!("x{}", k))).collect()
}

fn step() {
    let mut r = StereoPannerRenderer::new(id(0));
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 2) as usize);
    let x = input();
    let pan: f32 = any("pan", -1, 1);
    c.param(0, &[pan]);
    check("stereo panner: no tail", !c.process(&mut r, &[x.clone()]));
    judge(&c, &x, |_| pan);
}

fn arate() {
    let mut r = StereoPannerRenderer::new(id(0));
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 2) as usize);
    let x = input();
    let at = pick("frame", 0, N as i64 - 1) as usize;
    let pan = one_free("pan", N, at, -1., 1.);
    c.param(0, &pan);
    check("stereo panner: no tail", !c.process(&mut r, &[x.clone()]));
    judge(&c, &x, |i| pan[i]);
}

/// the equal-power law of the Web Audio specification, one frame
fn law(x: &[f32], pan: f32) -> [f32; 2] {
    let gains = |x: f32| ((x * std::f32::consts::PI / 2.).cos(), (x * std::f32::consts::PI / 2.).sin());
    if x.len() == 1 {
        let (l, r) = gains((pan + 1.) / 2.);
        [x[0] * l, x[0] * r]
    } else if pan <= 0. {
        let (l, r) = gains(pan + 1.);
        [x[0] + x[1] * l, x[1] * r]
    } else {
        let (l, r) = gains(pan);
        [x[0] * l, x[1] + x[0] * r]
    }
}
