use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use crate::AudioBuffer;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![Contract { name: "stream_step", target: "MediaStreamRenderer::process", body: step }]
}

fn step() {
    let ch = pick("channels", 1, 3) as usize;
    let what = pick("what", 0, 2);
    let b: Block = (0..ch).map(|c| any_block(&format!("b{}", c))).collect();
    let item: Option<crate::FallibleBuffer> = match what {
        0 => Some(Ok(AudioBuffer::from(b.clone(), SR))),
        1 => Some(Err("broken".into())),
        _ => None,
    };
    let mut r = MediaStreamRenderer::new(item.into_iter());
    let mut c = Call::new(1);
    c.stale(pick("old output channels", 0, 2) as usize);
    let go_on = c.process(&mut r, &[]);
    check("stream: goes on until its end", go_on == (what == 0));
    if what == 0 {
        check_block("stream: the next buffer", &c.output(0), &b);
        check("stream: ends", !c.process(&mut r, &[]));
        check("stream: silent after its end", c.outputs[0].is_silent());
    } else {
        check("stream: silent without a buffer", c.outputs[0].is_silent());
        check("stream: stays over", !c.process(&mut r, &[]));
    }
}
