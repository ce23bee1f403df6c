use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![Contract { name: "analyser_step", target: "AnalyserRenderer::process", body: step }]
}

// passes the input through; the mono mix of every block goes into the ring buffer, silence too
fn step() {
    let a = crate::analysis::Analyser::new();
    let mut r = AnalyserRenderer { ring_buffer: a.get_ring_buffer_clone() };
    let mut c = Call::new(1);
    let mut want: Vec<f32> = vec![];
    for k in 0..3 {
        let ch = [0, 1, 2, 4, 6][pick("channels", 0, if k == 1 { 4 } else { 2 }) as usize];
        let x: Block = (0..ch).map(|j| any_block(&format!("x{}_{}", k, j))).collect();
        let go_on = c.process(&mut r, &[x.clone()]);
        check("analyser: no tail", !go_on);
        let full = if ch == 0 { vec![vec![0.; N]] } else { x };
        check_block("analyser: passes its input", &c.output(0), &full);
        want.extend(spec_mix_block(&full, 1, ChannelInterpretation::Speakers)[0].iter().cloned());
    }
    let mut got = vec![0.; 3 * N];
    a.get_float_time_domain_data(&mut got);
    for i in 0..3 * N {
        check_eq("analyser: mono mix of all frames", got[i], want[i]);
    }
}
