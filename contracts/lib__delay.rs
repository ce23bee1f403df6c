use crate::context::*;
use crate::node::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "delay_const", target: "DelayWriter/DelayReader::process, get_playback_infos", body: constant },
        Contract { name: "delay_arate", target: "DelayReader::process, a-rate delay", body: arate },
        Contract { name: "delay_tail", target: "DelayReader::process tail time, Graph::render lifecycle", body: tail },
        Contract { name: "delay_layout", target: "DelayWriter::check_ring_buffer_up_down_mix", body: layout },
        Contract { name: "delay_loop", target: "DelayReader::process in a cycle, Graph ordering", body: feedback },
    ]
}

/// value of the signal at real-valued frame position i - d (linear interpolation, 0 outside)
fn at(x: &[f32], i: usize, d: f32) -> f32 {
    let p = i as f32 - d;
    let f = p.floor();
    let k = p - f;
    let f = f as i64;
    let g = |j: i64| -> f32 {
        if j < 0 || j >= x.len() as i64 {
            0.
        } else {
            x[j as usize]
        }
    };
    (1. - k) * g(f) + k * g(f + 1)
}

const Q: usize = 5;

/// out[c][i] == in[c][i - delay] for every delay in [0, max]
fn constant() {
    // maximum delay in frames: shorter than, equal to and longer than a quantum
    let (max, ch) = [(20, 2), (128, 1), (260, 1)][pick("max", 0, 2) as usize];
    let c = ctx(1, Q * N);
    let x = pos_signal("x", ch, Q * N);
    let d: f32 = any("delay_frames", 0, max);
    let src = feed_signal(&c, &x);
    let node = c.create_delay(max as f64 / SR as f64);
    node.delay_time().set_value(d / SR);
    src.connect(&node);
    let (r, tape) = record(&c, 1);
    node.connect(&r);
    run(c);
    let out = played(&tape, 0, ch);
    for k in 0..ch {
        for i in 0..Q * N {
            check_eq("delay: every frame", out[k][i], at(&x[k], i, d));
        }
    }
}

/// the delay at each frame is the value of the parameter at that frame
fn arate() {
    let c = ctx(1, Q * N);
    let x = pos_signal("x", 1, Q * N);
    let f = [0, 130, 300, 511][pick("frame", 0, 3) as usize];
    let mut d: Vec<f32> = (0..Q * N).map(|i| ((i * 29 + 3) % 200) as f32 + ((i % 4) as f32) * 0.25).collect();
    d[f] = any("delay_frames", 0, 200);
    let src = feed_signal(&c, &x);
    let node = c.create_delay(200. / SR as f64);
    let secs: Vec<f32> = d.iter().map(|v| *v / SR).collect();
    let _d = drive(&c, node.delay_time(), &secs);
    src.connect(&node);
    let (r, tape) = record(&c, 1);
    node.connect(&r);
    run(c);
    let out = played(&tape, 0, 1);
    for i in 0..Q * N {
        let v: f32 = if d[i] > 200. { 200. } else { d[i] };
        check_close("delay a-rate: every frame", out[0][i], at(&x[0], i, v), 1e-2);
    }
}

/// the whole signal comes out even when the source is over and every handle has been dropped
fn tail() {
    let max = [64, 200, 300][pick("max", 0, 2) as usize];
    let total = 8;
    let c = ctx(1, total * N);
    let len = pick("source quanta", 1, 3) as usize;
    let x = pos_signal("x", 1, len * N);
    let d = [0., 1., 33.5, 64., 128., 199.25, 256., 300.][pick("delay", 0, 7) as usize] as f32;
    assume(d <= max as f32);
    let src = feed_signal(&c, &x);
    let node = c.create_delay(max as f64 / SR as f64);
    node.delay_time().set_value(d / SR);
    src.connect(&node);
    let (r, tape) = record(&c, 1);
    node.connect(&r);
    if pick_bool("drop_source") {
        drop(src);
    } else {
        std::mem::forget(src);
    }
    if pick_bool("drop_delay") {
        drop(node);
    } else {
        std::mem::forget(node);
    }
    run(c);
    let out = played(&tape, 0, 1);
    for i in 0..total * N {
        check_close("delay tail: every frame", out[0][i], at(&x[0], i, d), 1e-2);
    }
    drop(r);
}

/// a change of the input layout remixes what is still in the delay line
fn layout() {
    let c = ctx(1, 4 * N);
    let n0 = [1, 2, 6][pick("first", 0, 2) as usize];
    let n1 = [1, 2, 4][pick("second", 0, 2) as usize];
    assume(n0 != n1);
    let a = pos_signal("a", n0, N);
    let b = pos_signal("b", n1, 3 * N);
    let mut blocks = cut(&a);
    blocks.extend(cut(&b));
    let d = [30., 128., 200.][pick("delay", 0, 2) as usize] as f32;
    let src = feed(&c, blocks);
    let node = c.create_delay(300. / SR as f64);
    node.delay_time().set_value(d / SR);
    src.connect(&node);
    let (r, tape) = record(&c, 1);
    node.connect(&r);
    run(c);
    let a1 = spec_mix_block(&a, n1, ChannelInterpretation::Speakers);
    let line: Vec<Vec<f32>> = (0..n1).map(|k| a1[k].iter().chain(b[k].iter()).cloned().collect()).collect();
    let t = tape.lock().unwrap();
    for q in 1..4 {
        let blk = &t[q][0];
        let silent = blk.len() == 1 && (q * N + N) as f32 <= d;
        check("delay layout: output follows the input's layout", blk.len() == n1 || silent);
        for k in 0..blk.len() {
            for i in 0..N {
                check_close("delay layout: every frame", blk[k][i], at(&line[k], q * N + i, d), 1e-2);
            }
        }
    }
}

/// in a loop the delay is at least one quantum: y[i] == x[i] + g * y[i - max(d, 128)]
fn feedback() {
    let c = ctx(1, Q * N);
    let x = pos_signal("x", 1, Q * N);
    let g: f32 = [0.5, 0.75, 2.][pick("gain", 0, 2) as usize];
    let d = [0., 64., 128., 200., 256.][pick("delay", 0, 4) as usize] as f32;
    let src = feed_signal(&c, &x);
    let node = c.create_delay(300. / SR as f64);
    node.delay_time().set_value(d / SR);
    let gain = c.create_gain();
    gain.gain().set_value(g);
    let mix = c.create_gain();
    src.connect(&mix);
    mix.connect(&node);
    node.connect(&gain);
    gain.connect(&mix);
    let (r, tape) = record(&c, 1);
    mix.connect(&r);
    run(c);
    let out = played(&tape, 0, 1);
    let eff = if d < N as f32 { N as f32 } else { d };
    let mut y: Vec<f32> = vec![];
    for i in 0..Q * N {
        let back = at(&y, i, eff);
        y.push(x[0][i] + g * back);
    }
    for i in 0..Q * N {
        check_close("delay in a loop: every frame", out[0][i], y[i], 1e-2);
    }
}
