use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "gain_step", target: "GainRenderer::process", body: step },
        Contract { name: "gain_step_arate", target: "GainRenderer::process (one gain per frame)", body: arate },
    ]
}

fn judge(c: &Call, x: &Block, g: impl Fn(usize) -> f32, muted: bool) {
    let got = c.output(0);
    if x.is_empty() || (muted && got.len() == 1) {
        check("gain: silence is mono", got.len() == 1);
        for i in 0..N {
            check_within("gain: silence", got[0][i], 0., 0.00000101);
        }
        return;
    }
    check("gain: channels of the input", got.len() == x.len());
    for (y, x) in got.iter().zip(x) {
        for i in 0..N {
            // gains within 1e-6 of 0 or 1 count as 0 or 1
            check_within("gain: every frame", y[i], x[i] * g(i), 0.00000101);
        }
    }
}

fn input(name: &str) -> Block {
    let ch = [0, 1, 2, 3, 6][pick("channels", 0, 4) as usize];
    (0..ch).map(|k| any_block(&format!("{}{}", name, k))).collect()
}

fn step() {
    let mut r = GainRenderer { gain: id(0) };
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 2) as usize);
    let x = input("x");
    let g: f32 = any("gain", -100, 100);
    c.param(0, &[g]);
    check("gain: no tail", !c.process(&mut r, &[x.clone()]));
    let muted = g.abs() < 0.00000101;
    judge(&c, &x, |_| g, muted);
}

fn arate() {
    let mut r = GainRenderer { gain: id(0) };
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 2) as usize);
    let x = input("x");
    let g: Vec<f32> = (0..N).map(|i| any(&format!("gain[{}]", i), -100, 100)).collect();
    c.param(0, &g);
    check("gain: no tail", !c.process(&mut r, &[x.clone()]));
    judge(&c, &x, |i| g[i], false);
}
