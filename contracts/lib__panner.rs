use crate::context::BaseAudioContext;
use crate::node::{AudioNode, PannerNode, PannerOptions, PanningModelType};
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "panner_api", target: "PannerNode in a rendering", body: panner_api },
        Contract { name: "panner_api_moving", target: "PannerNode, moving source or listener", body: panner_api_moving },
        Contract { name: "panner_api_listener", target: "AudioListener: all parameters", body: panner_api_listener },
        Contract { name: "panner_api_gaps", target: "PannerNode: silence and sound alternating", body: panner_api_gaps },
        Contract { name: "panner_api_hrtf", target: "PannerNode: HRTF tail in a rendering", body: panner_api_hrtf },
    ]
}

const S: V3 = [1.5, 2., -3.];
const O: V3 = [0.5, 1., -0.25];

fn model(i: i64) -> crate::node::DistanceModelType {
    use crate::node::DistanceModelType::*;
    [Linear, Inverse, Exponential][i as usize]
}

fn place(s: V3, o: V3, l: V3, f: V3, u: V3, k: &Dist, cone: &Cone, x: &[f32]) -> [f32; 2] {
    let g = spec_dist_gain(s, l, k) * spec_cone(s, o, l, cone);
    spec_equal_power(spec_azimuth(s, l, f, u), g, x)
}

fn check_frames(name: &str, got: &[Vec<f32>], want: &[Vec<f32>]) {
    check_eq(&format!("{}: channels", name), got.len() as f32, want.len() as f32);
    for (g, w) in got.iter().zip(want) {
        for (g, w) in g.iter().zip(w) {
            check_close(name, *g, *w, 1e-3);
        }
    }
}

fn panner_api() {
    let ch = pick("channels", 1, 2) as usize;
    let m = pick("model", 0, 2);
    let k = Dist { model: model(m), reference: 0.5, max: 8., rolloff: 0.75 };
    let cone = Cone { inner: 30., outer: 200., gain: 0.25 };
    let s = [S, [0., 0., 0.], [0., 0., 3.], [-20., 0.5, 1.]][pick("place", 0, 3) as usize];
    let c = ctx(1, 2 * N);
    let x = any_signal("x", ch, 2 * N);
    let src = feed_signal(&c, &x);
    let n = if pick_bool("setters") {
        let mut n = PannerNode::new(&c, Default::default());
        n.set_distance_model(k.model);
        n.set_ref_distance(k.reference);
        n.set_max_distance(k.max);
        n.set_rolloff_factor(k.rolloff);
        n.set_cone_inner_angle(cone.inner);
        n.set_cone_outer_angle(cone.outer);
        n.set_cone_outer_gain(cone.gain);
        n.set_position(s[0], s[1], s[2]);
        n.set_orientation(O[0], O[1], O[2]);
        n
    } else {
        PannerNode::new(&c, PannerOptions {
            position_x: s[0],
            position_y: s[1],
            position_z: s[2],
            orientation_x: O[0],
            orientation_y: O[1],
            orientation_z: O[2],
            distance_model: k.model,
            ref_distance: k.reference,
            max_distance: k.max,
            rolloff_factor: k.rolloff,
            cone_inner_angle: cone.inner,
            cone_outer_angle: cone.outer,
            cone_outer_gain: cone.gain,
            ..Default::default()
        })
    };
    check_eq("reads back: reference", n.ref_distance(), k.reference);
    check_eq("reads back: max", n.max_distance(), k.max);
    check_eq("reads back: rolloff", n.rolloff_factor(), k.rolloff);
    check_eq("reads back: inner", n.cone_inner_angle(), cone.inner);
    check_eq("reads back: outer", n.cone_outer_angle(), cone.outer);
    check_eq("reads back: gain", n.cone_outer_gain(), cone.gain);
    check("reads back: model", n.distance_model() == k.model);
    let (rec, tape) = record(&c, 1);
    src.connect(&n);
    n.connect(&rec);
    run(c);
    let mut want = vec![vec![], vec![]];
    for i in 0..2 * N {
        let fr: Vec<f32> = x.iter().map(|c| c[i]).collect();
        let y = place(s, O, [0.; 3], [0., 0., -1.], [0., 1., 0.], &k, &cone, &fr);
        want[0].push(y[0]);
        want[1].push(y[1]);
    }
    check_frames("panned", &played(&tape, 0, 2), &want);
}

fn default_dist() -> Dist {
    Dist { model: crate::node::DistanceModelType::Inverse, reference: 1., max: 10000., rolloff: 1. }
}

// one coordinate moves, its value differs in every frame
fn panner_api_moving() {
    let which = pick("moving", 0, 8) as usize;
    let cone = Cone { inner: 20., outer: 250., gain: 0.5 };
    let k = default_dist();
    let c = ctx(1, 2 * N);
    let x = any_signal("x", 1, 2 * N);
    let src = feed_signal(&c, &x);
    let n = PannerNode::new(&c, PannerOptions {
        position_x: S[0],
        position_y: S[1],
        position_z: S[2],
        orientation_x: O[0],
        orientation_y: O[1],
        orientation_z: O[2],
        cone_inner_angle: cone.inner,
        cone_outer_angle: cone.outer,
        cone_outer_gain: cone.gain,
        ..Default::default()
    });
    let l = c.listener();
    let p = [
        n.position_x(),
        n.position_y(),
        n.position_z(),
        n.orientation_x(),
        n.orientation_y(),
        n.orientation_z(),
        l.position_x(),
        l.position_y(),
        l.position_z(),
    ][which];
    let m: Vec<f32> = (0..2 * N).map(|i| (i as f32 - 100.) / 32.).collect();
    let feeder = drive(&c, p, &m);
    let (rec, tape) = record(&c, 1);
    src.connect(&n);
    n.connect(&rec);
    run(c);
    let mut want = vec![vec![], vec![]];
    for i in 0..2 * N {
        let mut v = [S[0], S[1], S[2], O[0], O[1], O[2], 0., 0., 0.];
        v[which] += m[i];
        let y = place([v[0], v[1], v[2]], [v[3], v[4], v[5]], [v[6], v[7], v[8]], [0., 0., -1.], [0., 1., 0.], &k, &cone, &[x[0][i]]);
        want[0].push(y[0]);
        want[1].push(y[1]);
    }
    check_frames("moving", &played(&tape, 0, 2), &want);
}

fn panner_api_listener() {
    let c = ctx(1, N);
    let x = any_signal("x", 1, N);
    let src = feed_signal(&c, &x);
    let n = PannerNode::new(&c, PannerOptions { position_x: S[0], position_y: S[1], position_z: S[2], ..Default::default() });
    let v: [f32; 9] = [0.25, -0.5, 0.75, 0.2, -0.1, -1., 0.1, 1., 0.05];
    let l = c.listener();
    let p = [
        l.position_x(),
        l.position_y(),
        l.position_z(),
        l.forward_x(),
        l.forward_y(),
        l.forward_z(),
        l.up_x(),
        l.up_y(),
        l.up_z(),
    ];
    // all of them, or all but one
    let keep = pick("keep", -1, 8);
    let mut w: [f32; 9] = [0., 0., 0., 0., 0., -1., 0., 1., 0.];
    for i in 0..9 {
        if keep != i as i64 {
            p[i].set_value(v[i]);
            w[i] = v[i];
        }
    }
    let (rec, tape) = record(&c, 1);
    src.connect(&n);
    n.connect(&rec);
    run(c);
    let mut want = vec![vec![], vec![]];
    let cone = Cone { inner: 360., outer: 360., gain: 0. };
    for i in 0..N {
        let y = place(S, [1., 0., 0.], [w[0], w[1], w[2]], [w[3], w[4], w[5]], [w[6], w[7], w[8]], &default_dist(), &cone, &[x[0][i]]);
        want[0].push(y[0]);
        want[1].push(y[1]);
    }
    check_frames("listener", &played(&tape, 0, 2), &want);
}

fn panner_api_gaps() {
    let c = ctx(1, 5 * N);
    let b = any_block("x");
    let mut blocks: Vec<Block> = vec![];
    for i in 0..5 {
        blocks.push(match pick(&format!("block{}", i), 0, 2) {
            0 => vec![],
            1 => vec![b.clone()],
            _ => vec![b.clone(), b.iter().rev().cloned().collect()],
        });
    }
    let src = feed(&c, blocks.clone());
    let n = PannerNode::new(&c, PannerOptions { position_x: S[0], position_y: S[1], position_z: S[2], ..Default::default() });
    let (rec, tape) = record(&c, 1);
    src.connect(&n);
    n.connect(&rec);
    run(c);
    let mut want = vec![vec![], vec![]];
    let cone = Cone { inner: 360., outer: 360., gain: 0. };
    for i in 0..5 * N {
        let q = &blocks[i / N];
        let fr: Vec<f32> = if q.is_empty() { vec![0.] } else { q.iter().map(|c| c[i % N]).collect() };
        let y = place(S, [1., 0., 0.], [0.; 3], [0., 0., -1.], [0., 1., 0.], &default_dist(), &cone, &fr);
        want[0].push(y[0]);
        want[1].push(y[1]);
    }
    check_frames("gaps", &played(&tape, 0, 2), &want);
}

// a sound long after the first one has the same tail
fn panner_api_hrtf() {
    let again = pick("again", 3, 9) as usize;
    let mut blocks: Vec<Block> = vec![vec![]; again + 1];
    blocks[0] = vec![vec![0.5; N]];
    blocks[again] = vec![vec![0.5; N]];
    let c = ctx(1, 18 * N);
    let src = feed(&c, blocks);
    let n = PannerNode::new(&c, PannerOptions { panning_model: PanningModelType::HRTF, position_x: 1., ..Default::default() });
    let (rec, tape) = record(&c, 1);
    src.connect(&n);
    n.connect(&rec);
    run(c);
    let seen = counts(&tape, 0);
    let tail = |from: usize| (from..seen.len()).take_while(|i| seen[*i] == 2).count();
    let full = tail(again);
    check("stereo while sounding", seen[0] == 2 && seen[again] == 2);
    check("has a tail", full > 1);
    check("first tail is as long", tail(0) == full || (tail(0) == again + full));
}
