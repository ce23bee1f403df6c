use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "panner_distance", target: "PannerRenderer::dist_gain", body: panner_distance },
        Contract { name: "panner_cone", target: "PannerRenderer::cone_gain", body: panner_cone },
        Contract { name: "panner_gains", target: "node::panner::apply_mono_to_stereo_gain / apply_stereo_to_stereo_gain", body: panner_gains },
        Contract { name: "panner_process", target: "PannerRenderer::process (equal power)", body: panner_process },
        Contract { name: "panner_silence", target: "PannerRenderer::process (silent input)", body: panner_silence },
        Contract { name: "panner_hrtf_tail", target: "PannerRenderer::process (HRTF tail)", body: panner_hrtf_tail },
        Contract { name: "panner_messages", target: "PannerRenderer::onmessage", body: panner_messages },
    ]
}

fn renderer() -> PannerRenderer {
    PannerRenderer {
        position_x: id(0),
        position_y: id(1),
        position_z: id(2),
        orientation_x: id(3),
        orientation_y: id(4),
        orientation_z: id(5),
        distance_model: DistanceModelType::Inverse,
        ref_distance: 1.,
        max_distance: 10000.,
        rolloff_factor: 1.,
        cone_inner_angle: 360.,
        cone_outer_angle: 360.,
        cone_outer_gain: 0.,
        hrtf_state: None,
        tail_time_counter: 0,
    }
}

fn pick_model() -> DistanceModelType {
    [DistanceModelType::Linear, DistanceModelType::Inverse, DistanceModelType::Exponential][pick("model", 0, 2) as usize]
}

fn set_dist(r: &mut PannerRenderer, k: &Dist) {
    r.distance_model = k.model;
    r.ref_distance = k.reference;
    r.max_distance = k.max;
    r.rolloff_factor = k.rolloff;
}

fn set_cone(r: &mut PannerRenderer, k: &Cone) {
    r.cone_inner_angle = k.inner;
    r.cone_outer_angle = k.outer;
    r.cone_outer_gain = k.gain;
}

// W3C distance models, for any distance, reference, maximum and rolloff, limits included
fn panner_distance() {
    let case = pick("case", 0, 2);
    let reference: f64 = if case == 1 { 0. } else { any("ref", 0.01, 100.) };
    let max: f64 = if case == 2 { reference } else { any("max", 0.01, 1000.) };
    let k = Dist { model: pick_model(), reference, max, rolloff: any("rolloff", 0., 3.) };
    let mut r = renderer();
    set_dist(&mut r, &k);
    let l = [1., -2., 0.5];
    let s: [f32; 3] = if pick_bool("same_place") { l } else { [any("x", 2., 100.), 0.5, 3.] };
    check_close("distance gain", r.dist_gain(s, l), spec_dist_gain(s, l, &k), 1e-3);
}

fn panner_cone() {
    let k = match pick("cone", 0, 6) {
        0 => Cone { inner: 360., outer: 360., gain: 0.25 },
        1 => Cone { inner: 60., outer: 120., gain: 0.25 },
        2 => Cone { inner: -60., outer: -120., gain: 0.25 },
        3 => Cone { inner: 120., outer: 60., gain: 0.25 },
        4 => Cone { inner: 0., outer: 0., gain: 0.25 },
        5 => Cone { inner: 360., outer: 120., gain: 0.25 },
        _ => Cone { inner: any("inner", 1., 359.), outer: any("outer", 1., 359.), gain: any("gain", 0., 1.) },
    };
    let mut r = renderer();
    set_cone(&mut r, &k);
    let o: [f32; 3] = [[1., 0., 0.], [0., -2., 0.], [0.5, 1., -1.], [0., 0., 0.]][pick("orientation", 0, 3) as usize];
    let l = [1., -2., 0.5];
    let s: [f32; 3] = match pick("place", 0, 2) {
        0 => l,
        1 => [2.5, 1., 3.],
        _ => [any("x", -10., 10.), 1., 3.],
    };
    check_close("cone gain", r.cone_gain(s, o, l), spec_cone(s, o, l, &k), 1e-3);
}

fn panner_gains() {
    let az: f32 = any("azimuth", -180., 180.);
    let (d, g): (f32, f32) = (any("dist", 0., 1.), any("cone", 0., 1.));
    let p = SpatialParams { dist_gain: d, cone_gain: g, azimuth: az, elevation: 0. };
    let (mut l, mut r): (f32, f32) = (0.5, 0.5);
    if pick_bool("mono") {
        let x: f32 = any("x", -1., 1.);
        l = x;
        r = x;
        apply_mono_to_stereo_gain(p, &mut l, &mut r);
        let w = spec_equal_power(az, d * g, &[x]);
        check_eq("left", l, w[0]);
        check_eq("right", r, w[1]);
    } else {
        let (a, b): (f32, f32) = (any("a", -1., 1.), any("b", -1., 1.));
        apply_stereo_to_stereo_gain(p, a, b, &mut l, &mut r);
        let w = spec_equal_power(az, d * g, &[a, b]);
        check_eq("left", l, w[0]);
        check_eq("right", r, w[1]);
    }
}

const LISTENER: [f32; 9] = [0.25, -0.5, 0.75, 0.2, -0.1, -1., 0.1, 1., 0.05];
const SOURCE: [f32; 6] = [1.5, 2., -3., 0.5, 1., -0.25];

// every frame uses the values of all fifteen parameters at that frame
fn panner_process() {
    let ch = pick("channels", 1, 2) as usize;
    let vary = pick("varying", -1, 14);
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 2) as usize);
    let k = Dist { model: pick_model(), reference: 0.5, max: 8., rolloff: 0.75 };
    let cone = Cone { inner: 30., outer: 200., gain: 0.25 };
    let mut r = renderer();
    set_dist(&mut r, &k);
    set_cone(&mut r, &cone);
    let mut v: Vec<Vec<f32>> = SOURCE.iter().chain(&LISTENER).map(|x| vec![*x]).collect();
    if vary >= 0 {
        let b = v[vary as usize][0];
        v[vary as usize] = (0..N).map(|i| b + (i as f32 - 40.) / 16.).collect();
    }
    for (i, v) in v.iter().enumerate() {
        if i < 6 {
            c.param(i, v);
        } else {
            c.listener_param(i - 6, v);
        }
    }
    let x: Block = (0..ch).map(|i| any_block(&format!("x{}", i))).collect();
    c.process(&mut r, &[x.clone()]);
    let mut want = vec![vec![], vec![]];
    for n in 0..N {
        let at = |i: usize| if v[i].len() == 1 { v[i][0] } else { v[i][n] };
        let v3 = |i: usize| [at(i), at(i + 1), at(i + 2)];
        let (s, o, l, f, u) = (v3(0), v3(3), v3(6), v3(9), v3(12));
        let g = spec_dist_gain(s, l, &k) * spec_cone(s, o, l, &cone);
        let fr: Vec<f32> = x.iter().map(|c| c[n]).collect();
        let y = spec_equal_power(spec_azimuth(s, l, f, u), g, &fr);
        want[0].push(y[0]);
        want[1].push(y[1]);
    }
    let got = c.output(0);
    check("panned: stereo", got.len() == 2);
    for i in 0..2 {
        for (g, w) in got[i].iter().zip(&want[i]) {
            check_close("panned: every frame", *g, *w, 1e-3);
        }
    }
}

fn params(c: &mut Call) {
    for (i, v) in SOURCE.iter().enumerate() {
        c.param(i, &[*v]);
    }
    for (i, v) in LISTENER.iter().enumerate() {
        c.listener_param(i, &[*v]);
    }
}

fn panner_silence() {
    let mut c = Call::new(1);
    params(&mut c);
    let mut r = renderer();
    c.stale(pick("stale", 0, 2) as usize);
    if pick_bool("after_sound") {
        c.process(&mut r, &[vec![any_block("x")]]);
    }
    check("equal power: ends", !c.process(&mut r, &[vec![]]));
    check("equal power: silent", c.outputs[0].is_silent() && c.output(0).len() == 1);
}

// after every sound the response is rendered to its end, then the panner is silent
fn panner_hrtf_tail() {
    let mut c = Call::new(1);
    params(&mut c);
    let mut r = renderer();
    let (p, len) = load_hrtf_processor(SR as u32);
    r.hrtf_state = Some(HrtfState::new(p, len));
    for _ in 0..3 {
        for q in 0..pick("sound", 1, 2) {
            check("sound: keeps processing", c.process(&mut r, &[vec![vec![0.5; N]]]));
        }
        let quanta = len.div_ceil(N);
        let gap = pick("gap", 0, 1) == 1;
        for _ in 0..if gap { 1 } else { quanta } {
            check("tail: keeps processing", c.process(&mut r, &[vec![]]));
            check("tail: stereo", c.output(0).len() == 2);
        }
        if !gap {
            check("after the tail: ends", !c.process(&mut r, &[vec![]]));
            check("after the tail: silent", c.outputs[0].is_silent());
        }
    }
}

fn panner_messages() {
    let mut r = renderer();
    let v: f64 = any("value", 0., 1.);
    let which = pick("message", 0, 6);
    let mut m: Box<dyn Any> = Box::new(match which {
        0 => ControlMessage::DistanceModel(DistanceModelType::Linear),
        1 => ControlMessage::RefDistance(v),
        2 => ControlMessage::MaxDistance(v),
        3 => ControlMessage::RollOffFactor(v),
        4 => ControlMessage::ConeInnerAngle(v),
        5 => ControlMessage::ConeOuterAngle(v),
        _ => ControlMessage::ConeOuterGain(v),
    });
    r.onmessage(&mut *m);
    check("distance model", (r.distance_model == DistanceModelType::Linear) == (which == 0));
    let is = |k: i64, old: f64| if which == k { v } else { old };
    check_eq("ref distance", r.ref_distance, is(1, 1.));
    check_eq("max distance", r.max_distance, is(2, 10000.));
    check_eq("rolloff", r.rolloff_factor, is(3, 1.));
    check_eq("inner angle", r.cone_inner_angle, is(4, 360.));
    check_eq("outer angle", r.cone_outer_angle, is(5, 360.));
    check_eq("outer gain", r.cone_outer_gain, is(6, 0.));
}
