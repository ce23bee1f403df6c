use crate::context::BaseAudioContext;
use crate::node::{AudioNode, ChannelCountMode};
use crate::vc_lib__common::*;
use std::sync::{Arc, Mutex};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "script_api", target: "ScriptProcessorNode in an offline context", body: api },
        Contract { name: "script_api_handlers", target: "ScriptProcessorNode::set_onaudioprocess, clear_onaudioprocess", body: handlers },
        Contract { name: "script_api_arguments", target: "create_script_processor arguments", body: arguments },
    ]
}

// out = in of the same event, two buffers later
fn api() {
    let size = [256, 512][pick("size", 0, 1) as usize];
    let (ci, co) = [(1, 1), (2, 2), (1, 2), (0, 1), (1, 0), (3, 2)][pick("channels", 0, 5) as usize];
    let frames = 4 * size;
    let c = ctx(2, frames);
    let node = c.create_script_processor(size, ci, co);
    let mut x = any_signal("x", ci.max(1), frames);
    if pick_bool("silent first channel") {
        x[0] = vec![0.; frames];
    }
    let src = feed_signal(&c, &x);
    src.connect(&node);
    node.connect(&c.destination());
    let seen: Arc<Mutex<Vec<(usize, usize, usize, f64)>>> = Default::default();
    let log = Arc::clone(&seen);
    node.set_onaudioprocess(move |mut e| {
        log.lock().unwrap().push((e.input_buffer.number_of_channels(), e.output_buffer.number_of_channels(), e.input_buffer.length(), e.playback_time));
        for j in 0..e.output_buffer.number_of_channels() {
            let d: Vec<f32> = e.input_buffer.get_channel_data(j.min(e.input_buffer.number_of_channels() - 1)).to_vec();
            e.output_buffer.get_channel_data_mut(j).copy_from_slice(&d);
        }
    });
    let y = render(c);
    let seen = seen.lock().unwrap();
    check("script: one event per buffer", seen.len() == 4);
    for (n, s) in seen.iter().enumerate() {
        check("script: channels of the buffers", s.0 == ci.max(1) && s.1 == co.max(1) && s.2 == size);
        check_within("script: playback time", s.3, ((n + 2) * size) as f64 / SR as f64, 0.000001);
    }
    for j in 0..2 {
        for i in 0..frames {
            let k = if co == 2 { j.min(ci - 1) } else { 0 };
            let want = if i < 2 * size { 0. } else { x[k][i - 2 * size] };
            check_eq("script: handler output, two buffers later", y[j][i], want);
        }
    }
}

// handler set, replaced or cleared while another event is handled
fn handlers() {
    let size = 256;
    let c = ctx(1, 6 * size);
    let node = Arc::new(c.create_script_processor(size, 0, 1));
    node.connect(&c.destination());
    let v: f32 = any("v", 0.1, 1);
    let w: f32 = any("w", 2, 3);
    let what = pick("during the second event", 0, 2);
    let count = Arc::new(Mutex::new(0));
    let n2 = Arc::clone(&node);
    node.set_onaudioprocess(move |mut e| {
        let mut count = count.lock().unwrap();
        *count += 1;
        e.output_buffer.get_channel_data_mut(0).fill(v);
        if *count == 2 {
            match what {
                0 => n2.clear_onaudioprocess(),
                1 => n2.set_onaudioprocess(move |mut e| e.output_buffer.get_channel_data_mut(0).fill(w)),
                _ => (),
            }
        }
    });
    let y = render(c);
    for i in 0..6 * size {
        let want = match i / size {
            0 | 1 => 0.,
            2 | 3 => v,
            _ => match what {
                0 => 0.,
                1 => w,
                _ => v,
            },
        };
        check_eq("script: handler in effect", y[0][i], want);
    }
}

fn arguments() {
    let c = ctx(1, N);
    let size = [0, 1, 128, 255, 256, 384, 512, 16384, 32768][pick("size", 0, 8) as usize];
    let (i, o) = [(0, 0), (0, 1), (1, 0), (32, 32), (33, 1), (1, 33), (0, 33)][pick("channels", 0, 6) as usize];
    let ok = [0, 256, 512, 16384].contains(&size) && i + o > 0 && i <= 32 && o <= 32;
    let r = catch(|| c.create_script_processor(size, i, o));
    check("script: valid arguments only", r.is_ok() == ok);
    if let Ok(node) = r {
        check("script: buffer size", node.buffer_size() == if size == 0 { 256 } else { size });
        check("script: fixed channel count", catch(|| node.set_channel_count(i.max(1) + 1)).is_err() && catch(|| node.set_channel_count(i.max(1))).is_ok());
        check("script: fixed count mode", catch(|| node.set_channel_count_mode(ChannelCountMode::Max)).is_err() && catch(|| node.set_channel_count_mode(ChannelCountMode::Explicit)).is_ok());
        check("script: one input and output", node.number_of_inputs() == 1 && node.number_of_outputs() == 1);
    }
}
