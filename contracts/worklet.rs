use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "worklet_step", target: "AudioWorkletRenderer::process", body: step },
        Contract { name: "worklet_params", target: "worklet::AudioParamValues::get, keys", body: params },
        Contract { name: "worklet_messages", target: "AudioWorkletRenderer::onmessage, construction", body: messages },
    ]
}

/// every output channel gets: its output and channel number, plus the first sample of all input channels
struct Sum {
    made_with: usize,
    calls: usize,
    shapes: Vec<usize>,
    said: Vec<u8>,
}

impl AudioWorkletProcessor for Sum {
    type ProcessorOptions = usize;
    fn constructor(opts: usize) -> Self {
        Sum { made_with: opts, calls: 0, shapes: vec![], said: vec![] }
    }
    fn process<'a, 'b>(&mut self, inputs: &'b [&'a [&'a [f32]]], outputs: &'b mut [&'a mut [&'a mut [f32]]], params: AudioParamValues<'b>, _s: &'b AudioWorkletGlobalScope) -> bool {
        self.calls += 1;
        self.shapes = inputs.iter().map(|i| i.len()).chain(outputs.iter().map(|o| o.len())).collect();
        let gain = if params.keys().count() > 0 { params.get("gain")[0] } else { 1. };
        for (o, out) in outputs.iter_mut().enumerate() {
            for (j, ch) in out.iter_mut().enumerate() {
                for i in 0..ch.len() {
                    let mut v = (o * 100 + j * 10) as f32;
                    for (n, input) in inputs.iter().enumerate() {
                        for (k, c) in input.iter().enumerate() {
                            v += (n * 4 + k + 1) as f32 * c[i] * gain;
                        }
                    }
                    ch[i] = v;
                }
            }
        }
        self.calls % 2 == 1
    }
    fn onmessage(&mut self, msg: &mut dyn Any) {
        if let Some(v) = msg.downcast_ref::<u8>() {
            self.said.push(*v);
        }
    }
}

fn renderer(inputs: usize, outputs: usize, count: Vec<usize>) -> AudioWorkletRenderer<Sum> {
    AudioWorkletRenderer {
        processor: Processor::new(9),
        audio_param_map: HashMap::new(),
        inputs_flat: Vec::with_capacity(inputs * MAX_CHANNELS),
        inputs_grouped: Vec::with_capacity(inputs),
        outputs_flat: Vec::with_capacity(if count.is_empty() { MAX_CHANNELS } else { count.iter().sum() }),
        outputs_grouped: Vec::with_capacity(outputs),
        output_channel_count: count,
    }
}

fn step() {
    let (inputs, outputs) = [(1, 1), (0, 1), (1, 0), (2, 1), (1, 2), (2, 2), (0, 2), (2, 0)][pick("ports", 0, 7) as usize];
    let dynamic = inputs == 1 && outputs == 1 && pick_bool("output follows input");
    let count: Vec<usize> = if dynamic { vec![] } else { (0..outputs).map(|_| pick("output channels", 1, 3) as usize).collect() };
    let mut r = renderer(inputs, outputs, count.clone());
    let mut c = Call::new(outputs);
    for call in 0..2 {
        let x: Vec<Block> = (0..inputs)
            .map(|n| {
                let ch = if call == 0 { pick("channels", 0, 2) as usize } else { n + 1 };
                (0..ch).map(|k| one_free(&format!("x{}_{}_{}", call, n, k), N, 50 * call + 20, -1., 1.)).collect()
            })
            .collect();
        if call == 0 {
            c.stale(pick("old output channels", 0, 2) as usize);
        }
        let go_on = c.process(&mut r, &x);
        check("worklet: its return value", go_on == (call == 0));
        let full: Vec<Block> = x.iter().map(|b| if b.is_empty() { vec![vec![0.; N]] } else { b.clone() }).collect();
        let shape: Vec<usize> = if dynamic { vec![full[0].len()] } else { count.clone() };
        for o in 0..outputs {
            let got = c.output(o);
            check("worklet: output channels", got.len() == shape[o]);
            for j in 0..got.len() {
                for i in 0..N {
                    let mut want = (o * 100 + j * 10) as f32;
                    for n in 0..inputs {
                        for k in 0..full[n].len() {
                            want += (n * 4 + k + 1) as f32 * full[n][k][i];
                        }
                    }
                    check_eq("worklet: computed from its inputs", got[j][i], want);
                }
            }
        }
        match &r.processor {
            Processor::Init(p) => {
                let expect: Vec<usize> = full.iter().map(|b| b.len()).chain(shape.iter().cloned()).collect();
                check("worklet: shape of inputs and outputs", p.shapes == expect);
                check("worklet: constructed once, with its options", p.made_with == 9 && p.calls == call + 1);
            }
            _ => check("worklet: constructed", false),
        }
        check("worklet: no references are kept", r.inputs_flat.is_empty() && r.inputs_grouped.is_empty() && r.outputs_flat.is_empty() && r.outputs_grouped.is_empty());
    }
}

struct Read(Vec<String>);

impl AudioWorkletProcessor for Read {
    type ProcessorOptions = ();
    fn constructor(_: ()) -> Self {
        Read(vec![])
    }
    fn process<'a, 'b>(&mut self, _i: &'b [&'a [&'a [f32]]], outputs: &'b mut [&'a mut [&'a mut [f32]]], params: AudioParamValues<'b>, _s: &'b AudioWorkletGlobalScope) -> bool {
        self.0 = params.keys().map(|k| k.to_string()).collect();
        self.0.sort();
        for (j, name) in ["a", "b"].iter().enumerate() {
            let v = params.get(name);
            for i in 0..N {
                outputs[0][j][i] = if v.len() == 1 { v[0] } else { v[i] };
            }
        }
        false
    }
}

fn params() {
    let mut c = Call::new(1);
    let mut want: Vec<Vec<f32>> = vec![];
    for n in 0..2 {
        let v: Vec<f32> = if pick_bool("single value") { vec![any(&format!("p{}", n), -1, 1)] } else { any_block(&format!("p{}", n)) };
        c.param(n, &v);
        want.push((0..N).map(|i| v[i.min(v.len() - 1)]).collect());
    }
    let mut map = HashMap::new();
    let swap = pick_bool("ids swapped") as usize;
    map.insert("a".to_string(), id(swap));
    map.insert("b".to_string(), id(1 - swap));
    let mut r: AudioWorkletRenderer<Read> = AudioWorkletRenderer {
        processor: Processor::new(()),
        audio_param_map: map,
        output_channel_count: vec![2],
        inputs_flat: vec![],
        inputs_grouped: vec![],
        outputs_flat: vec![],
        outputs_grouped: vec![],
    };
    c.process(&mut r, &[]);
    let got = c.output(0);
    for i in 0..N {
        check_eq("worklet: parameter by its name", got[0][i], want[swap][i]);
        check_eq("worklet: parameter by its name", got[1][i], want[1 - swap][i]);
    }
    match &r.processor {
        Processor::Init(p) => check("worklet: parameter names", p.0 == ["a", "b"]),
        _ => check("worklet: constructed", false),
    }
}

fn messages() {
    let mut r = renderer(1, 1, vec![]);
    let mut c = Call::new(1);
    let before = pick("messages before the first quantum", 0, 2);
    for n in 0..before {
        let msg: &mut dyn Any = &mut (n as u8);
        r.onmessage(msg);
    }
    c.process(&mut r, &[vec![]]);
    let msg: &mut dyn Any = &mut 77_u8;
    r.onmessage(msg);
    check("worklet: has side effects", r.has_side_effects());
    match &r.processor {
        Processor::Init(p) => {
            let mut want: Vec<u8> = (0..before as u8).collect();
            want.push(77);
            check("worklet: messages in order", p.said == want);
            check("worklet: one processor", p.calls == 1 && p.made_with == 9);
        }
        _ => check("worklet: constructed", false),
    }
}
