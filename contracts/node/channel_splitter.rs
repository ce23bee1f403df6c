use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![Contract { name: "splitter_step", target: "ChannelSplitterRenderer::process", body: step }]
}

// output k = channel k, silence beyond; nothing else is kept or modified
fn step() {
    let outs = [1, 2, 5, 6, 8, 32][pick("outputs", 0, 5) as usize];
    let ch = pick("channels", 0, 8) as usize;
    let mut r = ChannelSplitterRenderer { number_of_outputs: outs };
    let mut c = Call::new(outs);
    c.stale(pick("stale", 0, 2) as usize);
    let x: Block = (0..ch).map(|k| any_block(&format!("x{}", k))).collect();
    check("splitter: no tail", !c.process(&mut r, &[x.clone()]));
    for k in 0..outs {
        let want = if k < ch { x[k].clone() } else { vec![0.; N] };
        check_block("splitter", &c.output(k), &[want]);
        check("splitter: missing channels are silent", k < ch || c.outputs[k].is_silent());
    }
}
