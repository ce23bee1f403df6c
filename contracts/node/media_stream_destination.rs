use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![Contract { name: "stream_destination", target: "DestinationRenderer::process, AudioDestinationNodeStream::next", body: step }]
}

// every quantum can be read once; one that was not read in time is replaced by the next
fn step() {
    let (send, recv) = crossbeam_channel::bounded(1);
    let mut it = AudioDestinationNodeStream { receiver: recv.clone() };
    let mut r = DestinationRenderer { send, recv };
    let mut c = Call::new(0);
    for q in 0..3 {
        let ch = pick("channels", 0, 2) as usize;
        let b: Block = (0..ch).map(|k| one_free(&format!("x{}_{}", q, k), N, 17 * q, -1., 1.)).collect();
        let full = if ch == 0 { vec![vec![0.; N]] } else { b.clone() };
        check("stream destination: no tail", !c.process(&mut r, &[b]));
        if pick_bool("read") {
            match it.next() {
                Some(Ok(got)) => {
                    check("stream destination: shape", got.number_of_channels() == full.len() && got.length() == N && got.sample_rate() == SR);
                    let got: Block = (0..got.number_of_channels()).map(|k| got.get_channel_data(k).to_vec()).collect();
                    check_block("stream destination: the latest quantum", &got, &full);
                }
                _ => check("stream destination: available", false),
            }
            check("stream destination: once", it.receiver.is_empty());
        }
    }
    drop(r);
}
