use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "mix", target: "AudioRenderQuantum::mix", body: mix },
        Contract { name: "mix_aliased", target: "AudioRenderQuantum::mix (shared channel storage)", body: mix_aliased },
        Contract { name: "add", target: "AudioRenderQuantum::add", body: add },
        Contract { name: "add_three", target: "AudioRenderQuantum::add (fan-in of three)", body: add_three },
    ]
}

const COUNTS: [usize; 8] = [1, 2, 3, 4, 5, 6, 7, 32];

fn pick_count(name: &str) -> usize {
    COUNTS[pick(name, 0, COUNTS.len() as i64 - 1) as usize]
}

fn check_silence_intact(alloc: &Alloc) {
    let z = alloc.silence();
    check("frame: shared silence stays zero", z.iter().all(|v| *v == 0.));
    check("frame: silence is silent", z.is_silent());
}

// requires 1 <= channels <= 32
// ensures  every frame is the W3C up/down mix of the old frame, for every sample value
// ensures  clones made before are untouched, silence is untouched
fn mix() {
    let alloc = Alloc::with_capacity(2);
    let (m, n) = (pick_count("from"), pick_count("to"));
    let interp = pick_interp();
    let (mut q, x) = any_quantum(&alloc, "x", m);
    let keep = q.clone();
    q.mix(n, interp);
    check_block("mix", &values(&q), &spec_mix_block(&x, n, interp));
    check_block("frame: older clone", &values(&keep), &x);
    check_silence_intact(&alloc);
}

// the same for channels that share storage with each other or with the silence buffer
fn mix_aliased() {
    let alloc = Alloc::with_capacity(2);
    let (m, n) = (pick("from", 1, 6) as usize, pick("to", 1, 6) as usize);
    let interp = pick_interp();
    let a = any_block("a");
    let b = any_block("b");
    let (ca, cb) = (channel(&alloc, &a), channel(&alloc, &b));
    let zero = vec![0.; N];
    let mut x = vec![];
    let mut chans = vec![];
    for i in 0..m {
        // every assignment of {a, b, silence} to the first three channels, then a repeating pattern
        let k = if i < 3 { pick("alias", 0, 2) } else { (i % 3) as i64 };
        match k {
            0 => {
                x.push(a.clone());
                chans.push(ca.clone());
            }
            1 => {
                x.push(b.clone());
                chans.push(cb.clone());
            }
            _ => {
                x.push(zero.clone());
                chans.push(alloc.silence());
            }
        }
    }
    let mut q = quantum(&alloc, chans);
    q.mix(n, interp);
    check_block("mix", &values(&q), &spec_mix_block(&x, n, interp));
    check_block("frame: other holder", &[ca.to_vec(), cb.to_vec()], &[a, b]);
    check_silence_intact(&alloc);
}

fn computed(mode: ChannelCountMode, count: usize, max: usize) -> usize {
    match mode {
        ChannelCountMode::Max => max,
        ChannelCountMode::ClampedMax => max.min(count),
        ChannelCountMode::Explicit => count,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Fresh,
    Same,
    Silent,
}

fn operand(alloc: &Alloc, name: &str, m: usize, k: Kind) -> (AudioRenderQuantum, Vec<Vec<f32>>) {
    match k {
        Kind::Fresh => any_quantum(alloc, name, m),
        Kind::Same => {
            let d = any_block(name);
            let c = channel(alloc, &d);
            (quantum(alloc, vec![c; m]), vec![d; m])
        }
        Kind::Silent => (quantum(alloc, vec![alloc.silence(); m]), vec![vec![0.; N]; m]),
    }
}

fn pick_kind(name: &str) -> Kind {
    match pick(name, 0, 2) {
        0 => Kind::Fresh,
        1 => Kind::Same,
        _ => Kind::Silent,
    }
}

// ensures self' = mix(self) + mix(other), channel count per the channel count mode
fn add() {
    let alloc = Alloc::with_capacity(2);
    let (m1, m2) = (pick("self", 1, 6) as usize, pick("other", 1, 6) as usize);
    let mode = pick_mode();
    let count = pick("count", 1, 6) as usize;
    if mode == ChannelCountMode::Max {
        assume(count == 1);
    }
    let interp = pick_interp();
    let (mut a, xa) = operand(&alloc, "a", m1, pick_kind("self kind"));
    let (b, xb) = operand(&alloc, "b", m2, pick_kind("other kind"));
    a.add(&b, &config(count, mode, interp));
    let n = computed(mode, count, m1.max(m2));
    let want = sum_block(&spec_mix_block(&xa, n, interp), &spec_mix_block(&xb, n, interp));
    check_block("sum", &values(&a), &want);
    check_block("frame: summand", &values(&b), &xb);
    check_silence_intact(&alloc);
}

// a node input that receives three connections in one quantum (starts from mono silence)
fn add_three() {
    let alloc = Alloc::with_capacity(2);
    let m: Vec<usize> = (0..3).map(|_| [1, 2, 4, 6][pick("channels", 0, 3) as usize]).collect();
    let mode = pick_mode();
    let count = pick("count", 1, 6) as usize;
    if mode == ChannelCountMode::Max {
        assume(count == 1);
    }
    let interp = pick_interp();
    let cfg = config(count, mode, interp);
    let mut acc = AudioRenderQuantum::from(alloc.silence());
    let mut xs = vec![];
    for (i, m) in m.iter().enumerate() {
        let (q, x) = any_quantum(&alloc, &format!("s{}", i), *m);
        acc.add(&q, &cfg);
        xs.push(x);
    }
    let n = computed(mode, count, *m.iter().max().unwrap());
    let mut want = spec_mix_block(&xs[0], n, interp);
    for x in &xs[1..] {
        want = sum_block(&want, &spec_mix_block(x, n, interp));
    }
    check_block("fan-in", &values(&acc), &want);
}
