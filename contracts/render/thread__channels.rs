use super::vc_thread::callback;
use crate::context::vc_mod__thread::thread;
use crate::node::AudioNode;
use crate::context::BaseAudioContext;
use crate::vc_lib__common::{any_signal, ctx, feed_signal, N};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "callback_channels", target: "RenderThread::render_inner, device with more channels", body: channels },
    ]
}

// the channels the graph does not provide are silent
fn channels() {
    let ch = pick("channels", 1, 3) as usize;
    let device = pick("device", 1, 6) as usize;
    assume(device >= ch);
    let c = ctx(ch, N);
    let sound = pick_bool("sound");
    let x = any_signal("x", ch, 3 * N);
    let src = feed_signal(&c, &x);
    if sound {
        src.connect(&c.destination());
    }
    let mut t = thread(&c);
    t.number_of_channels = device;
    let mut at = 0;
    for k in 0..2 {
        let n = [100, 156][k];
        let got = callback(&mut t, n, device);
        for j in 0..device {
            for i in 0..n {
                check_eq("callback: channels of the graph, then silence", got[j][i], if sound && j < ch { x[j][at + i] } else { 0. });
            }
        }
        at += n;
    }
}
