use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "convolver_step", target: "ConvolverRenderer::process from any past", body: step },
        Contract { name: "convolver_tail", target: "ConvolverRenderer::process, silence after sound", body: tail },
        Contract { name: "convolver_none", target: "ConvolverRenderer::process without impulse response, onmessage", body: none },
        Contract { name: "convolver_scale", target: "normalize_buffer", body: scale },
    ]
}

fn convolver(h: &[f32]) -> FFTConvolver<f32> {
    let mut c = FFTConvolver::<f32>::default();
    c.init(1024, h).unwrap();
    c
}

/// as built by the constructor, then given an impulse response by message
fn renderer(h: &[Vec<f32>]) -> ConvolverRenderer {
    let mut r = ConvolverRenderer { convolvers: None, impulse_length: 0, impulse_number_of_channels: 0, tail_count: 0, stereo_tail: 0 };
    r.onmessage(&mut message(h));
    r
}

fn message(h: &[Vec<f32>]) -> ConvolverInfosMessage {
    let n = h.len().max(2);
    ConvolverInfosMessage {
        convolvers: Some((0..n).map(|i| convolver(&h[i.min(h.len() - 1)])).collect()),
        impulse_length: h[0].len(),
        impulse_number_of_channels: h.len(),
    }
}

/// impulse response with arbitrary first, second and last value
fn response(ch: usize, len: usize) -> Vec<Vec<f32>> {
    (0..ch).map(|c| (0..len).map(|i| if i < 2 || i == len - 1 { any(&format!("h{}[{}]", c, i), -1, 1) } else { 0. }).collect()).collect()
}

fn at(x: &[f32], h: &[f32], n: usize) -> f32 {
    let mut y = 0.;
    for k in 0..h.len() {
        if (k < 2 || k == h.len() - 1) && k <= n {
            y += x[n - k] * h[k];
        }
    }
    y
}

/// left and right output at frame n for the left and right input up to n
fn spec(x: &[Vec<f32>; 2], h: &[Vec<f32>], n: usize) -> [f32; 2] {
    match h.len() {
        1 => [at(&x[0], &h[0], n), at(&x[1], &h[0], n)],
        2 => [at(&x[0], &h[0], n), at(&x[1], &h[1], n)],
        _ => [at(&x[0], &h[0], n) + at(&x[1], &h[2], n), at(&x[0], &h[1], n) + at(&x[1], &h[3], n)],
    }
}

/// append a quantum of `ch` channels to the input
fn hear(x: &mut [Vec<f32>; 2], name: &str, ch: usize) -> Block {
    let b: Block = (0..ch).map(|c| any_block(&format!("{}{}", name, c))).collect();
    for c in 0..2 {
        match ch {
            0 => x[c].extend(vec![0.; N]),
            1 => x[c].extend(&b[0]),
            _ => x[c].extend(&b[c]),
        }
    }
    b
}

fn judge(c: &Call, x: &[Vec<f32>; 2], h: &[Vec<f32>], stereo: bool) {
    let got = c.output(0);
    check("convolver: mono or stereo", got.len() == 1 || got.len() == 2);
    let wide = stereo || h.len() > 1;
    check("convolver: channels", got.len() == if wide { 2 } else { 1 });
    for i in 0..N {
        let want = spec(x, h, x[0].len() - N + i);
        for k in 0..2 {
            check_eq("convolver: every frame", got[k.min(got.len() - 1)][i], want[k]);
        }
    }
}

// after a first quantum of arbitrary content: every state of the past with up to 128 frames
fn step() {
    let ch = [1, 2, 4][pick("impulse channels", 0, 2) as usize];
    let len = [1, 2, 50, 128, 129][pick("impulse length", 0, 4) as usize];
    let h = response(ch, len);
    let mut r = renderer(&h);
    let mut x = [vec![], vec![]];
    let before = pick("before", 1, 2) as usize;
    let now = pick("now", 1, 2) as usize;
    let mut c = Call::new(1);
    c.process(&mut r, &[hear(&mut x, "before", before)]);
    c.stale([0, 2][before - 1]);
    let b = hear(&mut x, "now", now);
    check("convolver: goes on", c.process(&mut r, &[b]));
    judge(&c, &x, &h, now == 2 || before == 2);
}

// the response is played to its end, then the node is silent
fn tail() {
    let ch = [1, 2, 4][pick("impulse channels", 0, 2) as usize];
    let len = [1, 2, 128, 129, 130, 257][pick("impulse length", 0, 5) as usize];
    let h = response(ch, len);
    let mut r = renderer(&h);
    let mut x = [vec![], vec![]];
    let mut c = Call::new(1);
    let sound = pick("sound", 1, 2) as usize;
    let b = hear(&mut x, "x", sound);
    c.process(&mut r, &[b]);
    let again = pick("sound again after", 1, 4) as usize;
    let mut done = false;
    for k in 0..5 {
        if k == again {
            let b = hear(&mut x, "y", 1);
            check("convolver: goes on", c.process(&mut r, &[b]));
            done = false;
        } else {
            let b = hear(&mut x, "", 0);
            let go_on = c.process(&mut r, &[b]);
            check("convolver: stays over", !done || !go_on);
            done = !go_on;
        }
        let n = x[0].len();
        let got = c.output(0);
        for i in 0..N {
            let want = spec(&x, &h, n - N + i);
            for j in 0..2 {
                check_eq("convolver: tail", got[j.min(got.len() - 1)][i], want[j]);
            }
        }
        if k < again {
            let since = N * (k + 1);
            check("convolver: not over before the end of the response", !done || since + 1 >= len);
            check("convolver: over at some time", done || since < len + 2 * N);
        }
    }
}

// passes the input through; a response takes effect with the next quantum, with an empty past
fn none() {
    let mut r = ConvolverRenderer { convolvers: None, impulse_length: 0, impulse_number_of_channels: 0, tail_count: 0, stereo_tail: 0 };
    let mut c = Call::new(1);
    let ch = pick("channels", 0, 2) as usize;
    c.stale(ch);
    let mut x = [vec![], vec![]];
    let b = hear(&mut x, "x", ch);
    let go_on = c.process(&mut r, &[b.clone()]);
    if ch == 0 {
        check("convolver: nothing", !go_on && c.outputs[0].is_silent());
    } else {
        check_block("convolver: input unchanged", &c.output(0), &b);
    }
    for (k, h) in [response(1, 3), vec![vec![0.5, 0.25]; 2]].iter().enumerate() {
        r.onmessage(&mut message(h));
        x = [vec![], vec![]];
        let n = if ch == 0 { 0 } else { 1 + (k + ch) % 2 };
        let b = hear(&mut x, &format!("y{}", k), n);
        c.process(&mut r, &[b]);
        let got = c.output(0);
        for i in 0..N {
            let want = spec(&x, h, i);
            for j in 0..2 {
                check_eq("convolver: new response", got[j.min(got.len() - 1)][i], want[j]);
            }
        }
    }
}

// https://webaudio.github.io/web-audio-api/#dom-convolvernode-normalize
fn scale() {
    let ch = [1, 2, 4][pick("channels", 0, 2) as usize];
    let len = pick("length", 1, 3) as usize;
    let rate = [22050., 44100., 88200.][pick("rate", 0, 2) as usize];
    let x: Vec<Vec<f32>> = (0..ch).map(|c| (0..len).map(|i| any(&format!("x{}[{}]", c, i), -1, 1)).collect()).collect();
    let got = normalize_buffer(&AudioBuffer::from(x.clone(), rate));
    let mut power = 0.;
    for c in &x {
        for v in c {
            power += *v * *v;
        }
    }
    let power: f32 = (power / (ch * len) as f32).sqrt();
    let power = if power < 0.000125 { 0.000125 } else { power };
    let k = 0.00125 * 44100. / rate * if ch == 4 { 0.5 } else { 1. };
    check_eq("convolver: scale", got * power, k);
}
