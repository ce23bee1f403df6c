use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![Contract { name: "merger_step", target: "ChannelMergerRenderer::process", body: step }]
}

// channel k = input k; a single silent channel when no input is active
fn step() {
    let ins = [1, 2, 3, 6, 32][pick("inputs", 0, 4) as usize];
    let mut r = ChannelMergerRenderer {};
    let mut c = Call::new(1);
    c.stale(ins % 3);
    // every subset of up to three active inputs
    let a = pick("first", -1, ins as i64 - 1);
    let b = pick("second", -1, a);
    let d = if ins < 32 { pick("third", -1, b) } else { b };
    let x: Vec<Block> = (0..ins).map(|k| if [a, b, d].contains(&(k as i64)) { vec![any_block(&format!("x{}", k))] } else { vec![] }).collect();
    check("merger: no tail", !c.process(&mut r, &x));
    if a < 0 {
        check("merger: nothing active", c.outputs[0].is_silent() && c.output(0).len() == 1);
    } else {
        let want: Block = x.iter().map(|b| if b.is_empty() { vec![0.; N] } else { b[0].clone() }).collect();
        check_block("merger", &c.output(0), &want);
    }
}
