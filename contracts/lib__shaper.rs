use crate::node::{AudioNode, OverSampleType, WaveShaperNode, WaveShaperOptions};
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "shaper_api", target: "WaveShaperNode in a rendering", body: shaper_api },
        Contract { name: "shaper_offset", target: "WaveShaperNode with a curve that yields an offset", body: shaper_offset },
        Contract { name: "shaper_none", target: "WaveShaperNode without curve", body: shaper_none },
    ]
}

fn shape(curve: &[f32], x: f32) -> f32 {
    let n = curve.len();
    let v = (n as f32 - 1.) / 2. * (x + 1.);
    if v < 0. {
        return curve[0];
    }
    for k in 0..n - 1 {
        if v < k as f32 + 1. {
            let f = v - k as f32;
            return (1. - f) * curve[k] + f * curve[k + 1];
        }
    }
    curve[n - 1]
}

fn build(c: &crate::context::OfflineAudioContext, curve: Vec<f32>) -> WaveShaperNode {
    if pick_bool("set_curve") {
        let mut n = WaveShaperNode::new(c, Default::default());
        n.set_curve(curve);
        n
    } else {
        WaveShaperNode::new(c, WaveShaperOptions { curve: Some(curve), ..Default::default() })
    }
}

fn shaper_api() {
    let ch = pick("channels", 1, 2) as usize;
    let len = pick("length", 1, 5) as usize;
    let curve: Vec<f32> = (0..len).map(|i| any(&format!("curve{}", i), -1., 1.)).collect();
    let at = pick_frame();
    let c = ctx(1, 2 * N);
    let x: Vec<Vec<f32>> = (0..ch).map(|i| if i == 0 { one_free("x", 2 * N, at, -1.5, 1.5) } else { one_free("z", 2 * N, 2 * N, -1., 1.) }).collect();
    let src = feed_signal(&c, &x);
    let n = build(&c, curve.clone());
    let (rec, tape) = record(&c, 1);
    src.connect(&n);
    n.connect(&rec);
    run(c);
    let want: Vec<Vec<f32>> = x.iter().map(|c| c.iter().map(|v| shape(&curve, *v)).collect()).collect();
    check_block("shaped", &played(&tape, 0, ch), &want);
}

// an offset is heard before, between and after the sound, also when all handles are gone
fn shaper_offset() {
    let curve: Vec<f32> = match pick("curve", 0, 2) {
        0 => vec![any("c0", -1., 1.), any("c1", 0.1, 1.), any("c2", -1., 1.)],
        1 => vec![any("c0", 0.1, 1.), any("c1", 0.1, 1.)],
        _ => vec![any("c", 0.1, 1.)],
    };
    let b: Vec<f32> = one_free("x", N, 7, -1., 1.);
    let mut blocks: Vec<Block> = vec![];
    for i in 0..4 {
        blocks.push(if pick_bool("sound") { vec![b.clone()] } else { vec![] });
    }
    let c = ctx(1, 6 * N);
    let src = feed(&c, blocks.clone());
    let n = build(&c, curve.clone());
    let (rec, tape) = record(&c, 1);
    src.connect(&n);
    n.connect(&rec);
    if pick_bool("dropped") {
        drop(n);
        drop(src);
        run(c);
    } else {
        run(c);
        drop(n);
    }
    let want: Vec<f32> = (0..6 * N)
        .map(|i| {
            let x = if i / N < 4 && !blocks[i / N].is_empty() { b[i % N] } else { 0. };
            shape(&curve, x)
        })
        .collect();
    check_block("offset", &played(&tape, 0, 1), &[want]);
}

fn shaper_none() {
    let ch = pick("channels", 1, 3) as usize;
    let c = ctx(1, 2 * N);
    let x = any_signal("x", ch, 2 * N);
    let src = feed_signal(&c, &x);
    let mut n = WaveShaperNode::new(&c, Default::default());
    n.set_oversample([OverSampleType::None, OverSampleType::X2, OverSampleType::X4][pick("oversample", 0, 2) as usize]);
    let (rec, tape) = record(&c, 1);
    src.connect(&n);
    n.connect(&rec);
    run(c);
    check_block("unchanged", &played(&tape, 0, ch), &x);
}
