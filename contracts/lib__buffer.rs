use crate::context::BaseAudioContext;
use crate::node::{AudioNode, AudioScheduledSourceNode};
use crate::vc_lib__common::*;
use crate::{AudioBuffer, AudioBufferOptions};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "buffer_acquired", target: "AudioBuffer handed to AudioBufferSourceNode, then modified", body: acquired },
        Contract { name: "buffer_copies", target: "AudioBuffer clone / copy_to_channel / copy_from_channel / get_channel_data_mut", body: copies },
        Contract { name: "buffer_rendered", target: "AudioBuffer rendered offline, played again", body: rendered },
    ]
}

// what is played is the content the buffer had when it was handed over
fn acquired() {
    let ch = pick("channels", 1, 2) as usize;
    let x = any_signal("x", ch, N + 10);
    let v: f32 = any("v", -1, 1);
    let mut b = AudioBuffer::from(x.clone(), SR);
    let mut c = ctx(ch, 2 * N);
    let mut src = c.create_buffer_source();
    let late = pick_bool("modified while playing");
    src.set_buffer(b.clone());
    src.start();
    src.connect(&c.destination());
    let how = pick("how", 0, 1);
    let mut change = move || match how {
        0 => b.copy_to_channel_with_offset(&[v; 5], ch - 1, N + 3),
        _ => {
            for y in b.get_channel_data_mut(ch - 1) {
                *y = v;
            }
        }
    };
    if late {
        c.suspend_sync(N as f64 / SR as f64, move |_| change());
    } else {
        change();
    }
    let y = c.start_rendering_sync();
    for k in 0..ch {
        for i in 0..2 * N {
            check_eq("acquired content", y.get_channel_data(k)[i], if i < N + 10 { x[k][i] } else { 0. });
        }
        let held = src.buffer().unwrap();
        for i in 0..N + 10 {
            check_eq("acquired content: as seen at the node", held.get_channel_data(k)[i], x[k][i]);
        }
    }
}

fn copies() {
    let mut a = AudioBuffer::new(AudioBufferOptions { number_of_channels: 2, length: 4, sample_rate: SR });
    let x = any_signal("x", 2, 4);
    for k in 0..2 {
        a.copy_to_channel(&x[k], k);
    }
    let mut b = a.clone();
    let v: f32 = any("v", -1, 1);
    let (k, at, n) = (pick("channel", 0, 1) as usize, pick("offset", 0, 5) as usize, pick("length", 0, 5) as usize);
    if pick_bool("copy") {
        b.copy_to_channel_with_offset(&vec![v; n], k, at);
    } else {
        for i in at..(at + n).min(4) {
            b.get_channel_data_mut(k)[i] = v;
        }
    }
    for c in 0..2 {
        let mut d = vec![0.5; 3];
        b.copy_from_channel_with_offset(&mut d, c, 2);
        for i in 0..4 {
            let w = if c == k && i >= at && i < at + n { v } else { x[c][i] };
            check_eq("buffer: original", a.get_channel_data(c)[i], x[c][i]);
            check_eq("buffer: modified copy", b.get_channel_data(c)[i], w);
            if i >= 2 {
                check_eq("buffer: copied out", d[i - 2], w);
            }
        }
        check_eq("buffer: copied out, rest", d[2], 0.5);
    }
}

// a rendering played back again is the same signal
fn rendered() {
    let len = [1, 127, 128, 200][pick("length", 0, 3) as usize];
    let x = any_signal("x", 1, 200);
    let mut c = ctx(1, len);
    let s = feed_signal(&c, &x);
    s.connect(&c.destination());
    let b = c.start_rendering_sync();
    let mut d = ctx(1, 200);
    let mut src = d.create_buffer_source();
    src.set_buffer(b);
    src.start();
    src.connect(&d.destination());
    let y = d.start_rendering_sync();
    for i in 0..200 {
        check_eq("played again", y.get_channel_data(0)[i], if i < len { x[0][i] } else { 0. });
    }
}
