use crate::events::vc_events__bench::*;
use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "script_step", target: "ScriptProcessorRenderer::process, onmessage", body: step },
        Contract { name: "script_late", target: "ScriptProcessorRenderer, missing and late replies", body: late },
    ]
}

fn renderer(size: usize, outputs: usize) -> ScriptProcessorRenderer {
    let n = size / N;
    ScriptProcessorRenderer {
        input_buffer: Vec::with_capacity(n),
        output_buffer: Vec::with_capacity(n),
        next_output_buffer: Vec::with_capacity(n),
        buffer_size: size,
        number_of_output_channels: outputs,
    }
}

fn samples(name: &str, ch: usize, len: usize, sparse: bool) -> Vec<Vec<f32>> {
    (0..ch)
        .map(|j| {
            (0..len)
                .map(|i| if sparse && i % 97 != 5 { ((i + j) % 64) as f32 / 64. } else { any(&format!("{}{}_{}", name, j, i), -1, 1) })
                .collect()
        })
        .collect()
}

// every full buffer is one event; its reply is played one buffer after the event's quantum
fn step() {
    let (size, events) = [(256, 4), (512, 3), (2048, 2), (16384, 2)][pick("size", 0, 3) as usize];
    let (inputs, outputs) = [(1, 1), (2, 2), (1, 2), (2, 1)][pick("channels", 0, if size == 256 { 3 } else { 1 }) as usize];
    let start = [0, 5][pick("start", 0, 1) as usize] * N as u64;
    let quanta = size / N;
    let total = (events + 2) * quanta;
    let delay = if size == 256 { pick("reply after quanta", 0, 1) as usize } else { 0 };
    let mut r = renderer(size, outputs);
    let mut c = Call::new(1);
    let sparse = size > 512;
    let x = samples("x", inputs, total * N, sparse);
    let mut replies: Vec<(usize, Vec<Vec<f32>>)> = vec![];
    let mut pending: Vec<(usize, Vec<Vec<f32>>)> = vec![];
    for q in 0..total {
        c.frame = start + (q * N) as u64;
        while !pending.is_empty() && pending[0].0 <= q {
            let (_, y) = pending.remove(0);
            let mut b = AudioBuffer::from(y, SR);
            let msg: &mut dyn Any = &mut b;
            r.onmessage(msg);
        }
        let block: Block = x.iter().map(|v| v[q * N..(q + 1) * N].to_vec()).collect();
        c.process(&mut r, &[block]);
        // output
        let got = c.output(0);
        let mut want = None;
        for (n, (_, y)) in replies.iter().enumerate() {
            let from = (n + 2) * quanta;
            if q >= from && q < from + quanta {
                want = Some(y.iter().map(|v| v[(q - from) * N..(q - from + 1) * N].to_vec()).collect::<Vec<_>>());
            }
        }
        match want {
            Some(w) => check_block("script: reply is played in order", &got, &w),
            None => {
                for v in &got {
                    for i in 0..N {
                        check_eq("script: silent before the first reply", v[i], 0.);
                    }
                }
            }
        }
        // event
        let full = (q + 1) % quanta == 0;
        let e = c.events.pop();
        check("script: one event per full buffer", e.is_some() == full);
        if let Some(e) = e {
            let e = processing(e);
            check("script: no second event", c.events.is_empty());
            let n = replies.len();
            check("script: input channels", e.input_buffer.number_of_channels() == inputs && e.input_buffer.length() == size && e.input_buffer.sample_rate() == SR);
            for j in 0..inputs {
                let d = e.input_buffer.get_channel_data(j);
                for i in 0..size {
                    check_eq("script: input of the event", d[i], x[j][n * size + i]);
                }
            }
            check("script: output shape", e.output_buffer.number_of_channels() == outputs && e.output_buffer.length() == size && e.output_buffer.sample_rate() == SR);
            for j in 0..outputs {
                check("script: output is silent first", e.output_buffer.get_channel_data(j).iter().all(|v| *v == 0.));
            }
            let playback = start + ((n + 2) * size) as u64;
            check_within("script: playback time", e.playback_time, playback as f64 / SR as f64, 0.000001);
            let y = samples(&format!("y{}_", n), outputs, size, sparse);
            replies.push((q, y.clone()));
            pending.push((q + 1 + delay, y));
        }
    }
    check("script: number of events", replies.len() == events + 2);
}

// without a reply in time the output is silent, a later reply is not lost
fn late() {
    let size = 256;
    let skip = pick("event without reply", 0, 2) as usize;
    let mut r = renderer(size, 1);
    let mut c = Call::new(1);
    let mut n = 0;
    let mut reply: Option<AudioBuffer> = None;
    let mut want: Vec<Vec<f32>> = vec![vec![0.; size]; 2];
    for q in 0..10 {
        if let Some(mut b) = reply.take() {
            let msg: &mut dyn Any = &mut b;
            r.onmessage(msg);
        }
        c.process(&mut r, &[vec![vec![0.25; N]]]);
        let got = c.output(0);
        for i in 0..N {
            check_eq("script: only what was replied for this buffer", got[0][i], want[q / 2][(q % 2) * N + i]);
        }
        if c.events.pop().is_some() {
            if n == skip {
                want.push(vec![0.; size]);
            } else {
                let y = samples(&format!("y{}", n), 1, size, false);
                reply = Some(AudioBuffer::from(y.clone(), SR));
                want.push(y[0].clone());
            }
            n += 1;
        }
    }
    check("script: events go on", n == 5);
    // messages of another type are ignored
    let msg: &mut dyn Any = &mut 5_u8;
    r.onmessage(msg);
}
