use crate::context::BaseAudioContext;
use crate::node::{AudioNode, ConvolverNode, ConvolverOptions};
use crate::vc_lib__common::*;
use crate::AudioBuffer;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "convolver_api", target: "ConvolverNode with 1, 2 and 4 channel responses", body: api },
        Contract { name: "convolver_api_gaps", target: "ConvolverNode, sound and silence in changing layouts", body: gaps },
        Contract { name: "convolver_api_normalize", target: "ConvolverNode normalization", body: normalize },
        Contract { name: "convolver_api_replace", target: "ConvolverNode::set_buffer while playing", body: replace },
    ]
}

fn at(x: &[f32], h: &[f32], n: usize) -> f32 {
    let mut y = 0.;
    for k in 0..h.len().min(n + 1) {
        if is_zero(h[k]) {
            continue;
        }
        y += x[n - k] * h[k];
    }
    y
}

fn spec(x: &[Vec<f32>], h: &[Vec<f32>], n: usize) -> [f32; 2] {
    match h.len() {
        1 => [at(&x[0], &h[0], n), at(&x[1], &h[0], n)],
        2 => [at(&x[0], &h[0], n), at(&x[1], &h[1], n)],
        _ => [at(&x[0], &h[0], n) + at(&x[1], &h[2], n), at(&x[0], &h[1], n) + at(&x[1], &h[3], n)],
    }
}

fn taps(ch: usize, len: usize) -> Vec<Vec<f32>> {
    (0..ch).map(|c| (0..len).map(|i| if i == 0 || i == len - 1 { any(&format!("h{}[{}]", c, i), 0.1, 1) } else { 0. }).collect()).collect()
}

// input of one or two channels, the node released right away: the response is played completely
fn api() {
    let ch = [1, 2, 4][pick("impulse channels", 0, 2) as usize];
    let len = [1, 2, 128, 129, 200][pick("impulse length", 0, 4) as usize];
    let input = pick("channels", 1, 2) as usize;
    let h = taps(ch, len);
    let x = any_signal("x", input, N);
    let c = ctx(2, 4 * N);
    let node = ConvolverNode::new(&c, ConvolverOptions { buffer: Some(AudioBuffer::from(h.clone(), SR)), disable_normalization: true, ..Default::default() });
    let src = feed_signal(&c, &x);
    src.connect(&node);
    node.connect(&c.destination());
    if pick_bool("dropped") {
        drop(node);
        drop(src);
    }
    let y = render(c);
    let mut full: Vec<Vec<f32>> = (0..2).map(|k| x[k.min(input - 1)].clone()).collect();
    for f in &mut full {
        f.resize(4 * N, 0.);
    }
    for i in 0..4 * N {
        let want = spec(&full, &h, i);
        for k in 0..2 {
            check_eq("convolver: linear convolution", y[k][i], want[k]);
        }
    }
}

fn gaps() {
    let ch = [1, 2, 4][pick("impulse channels", 0, 2) as usize];
    let h = taps(ch, 150);
    let c = ctx(2, 6 * N);
    let mut blocks = vec![];
    let mut full = vec![vec![], vec![]];
    for q in 0..4 {
        let n = pick(&format!("layout{}", q), 0, 2) as usize;
        let b: Block = (0..n).map(|k| some_signal(&format!("x{}{}", q, k), 1, N).remove(0)).collect();
        for k in 0..2 {
            full[k].extend(if n == 0 { vec![0.; N] } else { b[k.min(n - 1)].clone() });
        }
        blocks.push(b);
    }
    for f in &mut full {
        f.resize(6 * N, 0.);
    }
    let mut node = ConvolverNode::new(&c, ConvolverOptions { disable_normalization: true, ..Default::default() });
    node.set_buffer(AudioBuffer::from(h.clone(), SR));
    let src = feed(&c, blocks);
    src.connect(&node);
    node.connect(&c.destination());
    let y = render(c);
    for i in 0..6 * N {
        let want = spec(&full, &h, i);
        for k in 0..2 {
            check_eq("convolver: past survives gaps", y[k][i], want[k]);
        }
    }
}

fn normalize() {
    let ch = [1, 2, 4][pick("impulse channels", 0, 2) as usize];
    let h: Vec<Vec<f32>> = (0..ch).map(|c| vec![0.5, 0.25 * (c + 1) as f32, -0.125]).collect();
    let on = pick_bool("normalize");
    let twice = pick_bool("changed afterwards");
    let x = any_signal("x", 1, N);
    let c = ctx(2, 2 * N);
    let mut node = c.create_convolver();
    check("convolver: normalizes by default", node.normalize());
    node.set_normalize(on);
    node.set_buffer(AudioBuffer::from(h.clone(), SR));
    if twice {
        // only for the next buffer
        node.set_normalize(!on);
    }
    check("convolver: attribute", node.normalize() == (on != twice));
    let src = feed_signal(&c, &x);
    src.connect(&node);
    node.connect(&c.destination());
    let y = render(c);
    let mut power = 0f32;
    for v in h.iter().flatten() {
        power += v * v;
    }
    let power = (power / (3 * ch) as f32).sqrt();
    let k = if on { 0.00125 / power * 44100. / SR * if ch == 4 { 0.5 } else { 1. } } else { 1. };
    let mut full = vec![x[0].clone(), x[0].clone()];
    for f in &mut full {
        f.resize(2 * N, 0.);
    }
    for i in 0..2 * N {
        let want = spec(&full, &h, i);
        for j in 0..2 {
            check_within("convolver: scaled to equal power", y[j][i], want[j] * k, 0.00001);
        }
    }
}

// the new response from the next quantum on; the buffer is copied when it is set
fn replace() {
    let x = any_signal("x", 1, 3 * N);
    let (a, b): (f32, f32) = (any("a", -1, 1), any("b", -1, 1));
    let mut c = ctx(1, 3 * N);
    let mut node = c.create_convolver();
    node.set_normalize(false);
    let mut first = AudioBuffer::from(vec![vec![a, 0.5]], SR);
    let none = pick_bool("none at first");
    if !none {
        node.set_buffer(first.clone());
        first.get_channel_data_mut(0)[0] = 9.;
    }
    let src = feed_signal(&c, &x);
    src.connect(&node);
    node.connect(&c.destination());
    c.suspend_sync(N as f64 / SR as f64, move |_| node.set_buffer(AudioBuffer::from(vec![vec![b]], SR)));
    let y = render(c);
    for i in 0..3 * N {
        let want = if i >= N {
            x[0][i] * b
        } else if none {
            x[0][i]
        } else {
            at(&x[0], &[a, 0.5], i)
        };
        check_eq("convolver: response replaced", y[0][i], want);
    }
}
