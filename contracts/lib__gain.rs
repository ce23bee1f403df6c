use crate::context::*;
use crate::node::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "gain_const", target: "GainRenderer::process, constant gain", body: gain_const },
        Contract { name: "gain_arate", target: "GainRenderer::process, a-rate gain", body: gain_arate },
        Contract { name: "gain_gaps", target: "GainRenderer::process, input coming and going, gain changing", body: gaps },
        Contract { name: "constant_source", target: "ConstantSourceRenderer::process, no schedule boundary", body: constant_source },
    ]
}

/// out[c][i] == in[c][i] * gain for every channel count, every gain, every sample
fn gain_const() {
    let ch = [1, 2, 6][pick("channels", 0, 2) as usize];
    let c = ctx(1, 2 * N);
    let x = some_signal("x", ch, 2 * N);
    let g: f32 = any("gain", -1000, 1000);
    let src = feed_signal(&c, &x);
    let node = c.create_gain();
    if pick_bool("by_option") {
        let o = GainOptions { gain: g, ..GainOptions::default() };
        let node = GainNode::new(&c, o);
        src.connect(&node);
        let (r, tape) = record(&c, 1);
        node.connect(&r);
        run(c);
        judge(&tape, &x, ch, |_| g, "gain");
    } else {
        node.gain().set_value(g);
        src.connect(&node);
        let (r, tape) = record(&c, 1);
        node.connect(&r);
        run(c);
        judge(&tape, &x, ch, |_| g, "gain");
    }
}

fn judge(tape: &Tape, x: &[Vec<f32>], ch: usize, g: impl Fn(usize) -> f32, name: &str) {
    let out = played(tape, 0, ch);
    for (o, x) in out.iter().zip(x) {
        check(&format!("{}: length", name), o.len() == x.len());
        for (i, (o, x)) in o.iter().zip(x).enumerate() {
            // gains within 1e-6 of 0 or 1 count as 0 or 1
            check_within(&format!("{}: every frame", name), *o, *x * g(i), 0.00000101);
        }
    }
}

/// gain following an audio-rate signal: out[c][i] == in[c][i] * (value + modulation[i])
fn gain_arate() {
    let ch = pick("channels", 1, 2) as usize;
    let c = ctx(1, 2 * N);
    let x = any_signal("x", ch, 2 * N);
    let m = any_signal("m", 1, 2 * N);
    let base: f32 = any("base", -4, 4);
    let src = feed_signal(&c, &x);
    let node = c.create_gain();
    node.gain().set_value(base);
    let md = feed_signal(&c, &m);
    md.connect(node.gain());
    src.connect(&node);
    let (r, tape) = record(&c, 1);
    node.connect(&r);
    run(c);
    judge(&tape, &x, ch, |i| base + m[0][i], "gain a-rate");
}

/// mono, every frame is the offset
fn constant_source() {
    let c = ctx(1, 3 * N);
    let v: f32 = any("offset", -1000, 1000);
    let mut node = c.create_constant_source();
    node.offset().set_value(v);
    let m = any_signal("m", 1, 3 * N);
    let md = feed_signal(&c, &m);
    let modulated = pick_bool("modulated");
    if modulated {
        md.connect(node.offset());
    }
    let (r, tape) = record(&c, 1);
    node.connect(&r);
    node.start();
    run(c);
    check("constant source: mono", counts(&tape, 0) == vec![1, 1, 1]);
    let out = played(&tape, 0, 1);
    for i in 0..3 * N {
        check_eq("constant source: every frame", out[0][i], if modulated { v + m[0][i] } else { v });
    }
}

/// input that starts, pauses and changes its layout while the gain changes from quantum to quantum
fn gaps() {
    let layouts: Vec<usize> = (0..3).map(|q| pick(&format!("quantum {}", q), 0, 2) as usize).collect();
    let gains: Vec<f32> = (0..3).map(|q| [0., 1., -1., any("gain", 0.25, 0.75)][pick(&format!("gain {}", q), 0, 3) as usize]).collect();
    let c = ctx(1, 3 * N);
    let b: Vec<Block> = (0..3).map(|q| if layouts[q] == 0 { vec![] } else { any_signal(&format!("x{}", q), layouts[q], N) }).collect();
    let f = feed(&c, b.clone());
    let node = c.create_gain();
    node.gain().set_value(gains[0]);
    node.gain().set_value_at_time(gains[1], 128. / SR as f64);
    node.gain().set_value_at_time(gains[2], 256. / SR as f64);
    f.connect(&node);
    let (r, tape) = record(&c, 1);
    node.connect(&r);
    run(c);
    let tape = tape.lock().unwrap();
    for q in 0..3 {
        let out = &tape[q][0];
        for (k, ch) in out.iter().enumerate() {
            for i in 0..N {
                let want = if layouts[q] == 0 { 0. } else { b[q][if k < layouts[q] { k } else { 0 }][i] * gains[q] };
                check_within("gain with gaps: every frame", ch[i], want, 0.00000101);
            }
        }
        check("gain with gaps: channels of the input", out.len() == layouts[q].max(1) || out.len() == 1);
        if out.len() == 1 && layouts[q] == 2 {
            // only a muted signal may lose its layout
            check_within("gain with gaps: layout", gains[q], 0., 0.00000101);
        }
    }
}
