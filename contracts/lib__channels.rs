use crate::context::*;
use crate::node::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "splitter", target: "ChannelSplitterRenderer::process", body: splitter },
        Contract { name: "merger", target: "ChannelMergerRenderer::process", body: merger },
        Contract { name: "routing_gaps", target: "ChannelSplitterRenderer::process, ChannelMergerRenderer::process, inputs coming and going", body: gaps },
        Contract { name: "split_merge", target: "ChannelSplitterRenderer::process, ChannelMergerRenderer::process, Graph::render", body: split_merge },
    ]
}

/// output k is channel k of the input, or silence if there is no such channel
fn splitter() {
    let ch = pick("channels", 0, 6) as usize;
    let outs = pick("outputs", 1, 6) as usize;
    let c = ctx(1, 2 * N);
    let x = any_signal("x", ch.max(1), 2 * N);
    let src = if ch == 0 { feed(&c, vec![]) } else { feed_signal(&c, &x) };
    let node = c.create_channel_splitter(outs);
    src.connect(&node);
    let (r, tape) = record(&c, outs);
    for o in 0..outs {
        node.connect_from_output_to_input(&r, o, o);
    }
    run(c);
    for o in 0..outs {
        check("splitter: outputs are mono", counts(&tape, o) == vec![1, 1]);
        let out = played(&tape, o, 1);
        for i in 0..2 * N {
            let want: f32 = if o < ch { x[o][i] } else { 0. };
            check_eq("splitter: every frame", out[0][i], want);
        }
    }
}

/// channel k of the output is input k mixed down to mono; silence if nothing is connected
fn merger() {
    let ins = pick("inputs", 1, 4) as usize;
    let c = ctx(1, 2 * N);
    let node = c.create_channel_merger(ins);
    let mut want: Vec<Vec<f32>> = vec![];
    let mut keep = vec![];
    let mut any_active = false;
    for k in 0..ins {
        // 0: not connected, 1: mono, 2: stereo, 3: a silent source
        let kind = pick("kind", 0, 3);
        let x = any_signal(&format!("x{}", k), 2, 2 * N);
        match kind {
            1 => {
                let s = feed_signal(&c, &x[..1]);
                s.connect_from_output_to_input(&node, 0, k);
                keep.push(s);
                want.push(x[0].clone());
                any_active = true;
            }
            2 => {
                let s = feed_signal(&c, &x);
                s.connect_from_output_to_input(&node, 0, k);
                keep.push(s);
                want.push((0..2 * N).map(|i| 0.5 * (x[0][i] + x[1][i])).collect());
                any_active = true;
            }
            k2 => {
                if k2 == 3 {
                    let s = feed(&c, vec![]);
                    s.connect_from_output_to_input(&node, 0, k);
                    keep.push(s);
                }
                want.push(vec![0.; 2 * N]);
            }
        }
    }
    let (r, tape) = record(&c, 1);
    node.connect(&r);
    run(c);
    let n = if any_active { ins } else { 1 };
    check("merger: channel count", counts(&tape, 0) == vec![n, n]);
    let out = played(&tape, 0, n);
    for k in 0..n {
        for i in 0..2 * N {
            check_eq("merger: every frame", out[k][i], want[k][i]);
        }
    }
}

/// splitting and merging in a permuted order permutes the channels
fn split_merge() {
    let ch = 4;
    let c = ctx(1, N);
    let x = any_signal("x", ch, N);
    let src = feed_signal(&c, &x);
    let s = c.create_channel_splitter(ch);
    let m = c.create_channel_merger(ch);
    src.connect(&s);
    let map: Vec<usize> = (0..ch).map(|_| pick("to", 0, ch as i64 - 1) as usize).collect();
    for (from, to) in map.iter().enumerate() {
        s.connect_from_output_to_input(&m, from, *to);
    }
    let (r, tape) = record(&c, 1);
    m.connect(&r);
    run(c);
    let out = played(&tape, 0, ch);
    for k in 0..ch {
        for i in 0..N {
            let mut want: f32 = 0.;
            for (from, to) in map.iter().enumerate() {
                if *to == k {
                    want += x[from][i];
                }
            }
            check_eq("split-merge: every frame", out[k][i], want);
        }
    }
}

/// inputs that start, pause and change their layout from quantum to quantum
fn gaps() {
    let layouts: Vec<Vec<usize>> = (0..2).map(|k| (0..3).map(|q| pick(&format!("input {} quantum {}", k, q), 0, 2) as usize).collect()).collect();
    let c = ctx(1, 3 * N);
    let m = c.create_channel_merger(2);
    let s = c.create_channel_splitter(2);
    let mut keep = vec![];
    let mut blocks = vec![];
    for k in 0..2 {
        let b: Vec<Block> = (0..3).map(|q| if layouts[k][q] == 0 { vec![] } else { any_signal(&format!("x{}{}", k, q), layouts[k][q], N) }).collect();
        let f = feed(&c, b.clone());
        f.connect_from_output_to_input(&m, 0, k);
        if k == 0 {
            f.connect(&s);
        }
        keep.push(f);
        blocks.push(b);
    }
    let (r, tape) = record(&c, 3);
    m.connect_from_output_to_input(&r, 0, 0);
    s.connect_from_output_to_input(&r, 0, 1);
    s.connect_from_output_to_input(&r, 1, 2);
    run(c);
    let tape = tape.lock().unwrap();
    for q in 0..3 {
        let at = |b: &Block, ch: usize, i: usize| -> f32 { if ch < b.len() { b[ch][i] } else { 0. } };
        let mono = |b: &Block, i: usize| -> f32 {
            match b.len() {
                0 => 0.,
                1 => b[0][i],
                _ => 0.5 * (b[0][i] + b[1][i]),
            }
        };
        let out = &tape[q][0];
        let active = blocks.iter().any(|b| !b[q].is_empty());
        check("merger with gaps: channel count", out.len() == if active { 2 } else { 1 });
        for k in 0..2 {
            for i in 0..N {
                if active {
                    check_eq("merger with gaps: every frame", out[k][i], mono(&blocks[k][q], i));
                } else {
                    check_eq("merger with gaps: silence", out[0][i], 0.);
                }
                check_eq("splitter with gaps: every frame", tape[q][1 + k][0][i], at(&blocks[0][q], k, i));
            }
        }
    }
}
