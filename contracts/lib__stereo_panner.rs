use crate::context::*;
use crate::node::*;
use crate::vc_lib__common::*;
use std::f32::consts::PI;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "stereo_panner_const", target: "StereoPannerRenderer::process, constant pan", body: constant },
        Contract { name: "stereo_panner_gaps", target: "StereoPannerRenderer::process, input coming and going", body: gaps },
        Contract { name: "stereo_panner_arate", target: "StereoPannerRenderer::process, a-rate pan", body: arate },
    ]
}

/// the equal-power law of the Web Audio specification, one frame
pub(crate) fn law(x: &[f32], pan: f32) -> [f32; 2] {
    let pan = if pan < -1. {
        -1.
    } else if pan > 1. {
        1.
    } else {
        pan
    };
    let gains = |x: f32| ((x * PI / 2.).cos(), (x * PI / 2.).sin());
    if x.len() == 1 {
        let (l, r) = gains((pan + 1.) / 2.);
        [x[0] * l, x[0] * r]
    } else if pan <= 0. {
        let (l, r) = gains(pan + 1.);
        [x[0] + x[1] * l, x[1] * r]
    } else {
        let (l, r) = gains(pan);
        [x[0] * l, x[1] + x[0] * r]
    }
}

fn constant() {
    let ch = pick("channels", 1, 2) as usize;
    let c = ctx(1, 2 * N);
    let x = any_signal("x", ch, 2 * N);
    let pan: f32 = any("pan", -2, 2);
    let src = feed_signal(&c, &x);
    let node = c.create_stereo_panner();
    node.pan().set_value(pan);
    src.connect(&node);
    let (r, tape) = record(&c, 1);
    node.connect(&r);
    run(c);
    check("stereo panner: output is stereo", counts(&tape, 0) == vec![2, 2]);
    let out = played(&tape, 0, 2);
    for i in 0..2 * N {
        let f: Vec<f32> = x.iter().map(|c| c[i]).collect();
        let want = law(&f, pan);
        check_eq("stereo panner: left", out[0][i], want[0]);
        check_eq("stereo panner: right", out[1][i], want[1]);
    }
}

fn arate() {
    let ch = pick("channels", 1, 2) as usize;
    let c = ctx(1, 2 * N);
    let at = pick_frame();
    let x = any_signal("x", ch, 2 * N);
    let pan = one_free("pan", 2 * N, at, -1.5, 1.5);
    let src = feed_signal(&c, &x);
    let node = c.create_stereo_panner();
    let _d = drive(&c, node.pan(), &pan);
    src.connect(&node);
    let (r, tape) = record(&c, 1);
    node.connect(&r);
    run(c);
    let out = played(&tape, 0, 2);
    for i in 0..2 * N {
        let f: Vec<f32> = x.iter().map(|c| c[i]).collect();
        let want = law(&f, pan[i]);
        check_eq("stereo panner a-rate: left", out[0][i], want[0]);
        check_eq("stereo panner a-rate: right", out[1][i], want[1]);
    }
}

/// input that starts, pauses and changes its layout from quantum to quantum
fn gaps() {
    let layouts: Vec<usize> = (0..3).map(|q| pick(&format!("quantum {}", q), 0, 2) as usize).collect();
    let pan: f32 = if pick_bool("right") { any("pan", 0.1, 0.9) } else { any("pan", -0.9, -0.1) };
    let c = ctx(1, 3 * N);
    let b: Vec<Block> = (0..3).map(|q| if layouts[q] == 0 { vec![] } else { any_signal(&format!("x{}", q), layouts[q], N) }).collect();
    let f = feed(&c, b.clone());
    let node = c.create_stereo_panner();
    node.pan().set_value(pan);
    f.connect(&node);
    let (r, tape) = record(&c, 1);
    node.connect(&r);
    run(c);
    let tape = tape.lock().unwrap();
    for q in 0..3 {
        let out = &tape[q][0];
        for i in 0..N {
            if layouts[q] == 0 {
                check_eq("stereo panner with gaps: silence", out[0][i], 0.);
                check_eq("stereo panner with gaps: silence", out[out.len() - 1][i], 0.);
            } else {
                let f: Vec<f32> = b[q].iter().map(|c| c[i]).collect();
                let want = law(&f, pan);
                check_eq("stereo panner with gaps: left", out[0][i], want[0]);
                check_eq("stereo panner with gaps: right", out[1][i], want[1]);
            }
        }
    }
}
