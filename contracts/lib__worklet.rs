use crate::context::BaseAudioContext;
use crate::node::{AudioNode, AudioNodeOptions, ChannelCountMode, ChannelInterpretation};
use crate::param::{AudioParamDescriptor, AutomationRate};
use crate::vc_lib__common::*;
use crate::worklet::*;
use std::any::Any;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "worklet_api", target: "AudioWorkletNode in an offline context", body: api },
        Contract { name: "worklet_api_params", target: "AudioWorkletNode::parameters, parameter_data", body: params },
        Contract { name: "worklet_api_port", target: "AudioWorkletNode::port, AudioWorkletGlobalScope", body: port },
        Contract { name: "worklet_api_panic", target: "a worklet processor that panics", body: panics },
        Contract { name: "worklet_api_arguments", target: "AudioWorkletNode::new arguments", body: arguments },
    ]
}

fn options<C>(inputs: usize, outputs: usize, count: &[usize], opts: C) -> AudioWorkletNodeOptions<C> {
    AudioWorkletNodeOptions {
        number_of_inputs: inputs,
        number_of_outputs: outputs,
        output_channel_count: count.to_vec(),
        parameter_data: HashMap::new(),
        processor_options: opts,
        audio_node_options: AudioNodeOptions::default(),
    }
}

type Log = Arc<Mutex<Vec<(Vec<usize>, Vec<usize>)>>>;

/// output channel j of output o: the sum of all input samples of the frame, times 2^(o + j)
struct Sum(Log);

impl AudioWorkletProcessor for Sum {
    type ProcessorOptions = Log;
    fn constructor(log: Log) -> Self {
        Sum(log)
    }
    fn process<'a, 'b>(&mut self, inputs: &'b [&'a [&'a [f32]]], outputs: &'b mut [&'a mut [&'a mut [f32]]], _p: AudioParamValues<'b>, _s: &'b AudioWorkletGlobalScope) -> bool {
        self.0.lock().unwrap().push((inputs.iter().map(|i| i.len()).collect(), outputs.iter().map(|i| i.len()).collect()));
        for (o, out) in outputs.iter_mut().enumerate() {
            for (j, ch) in out.iter_mut().enumerate() {
                for i in 0..ch.len() {
                    let mut v = 0.;
                    for input in inputs {
                        for c in input.iter() {
                            v += c[i];
                        }
                    }
                    ch[i] = v * [1., 2., 4.][o + j];
                }
            }
        }
        false
    }
}

fn api() {
    let c = ctx(2, 2 * N);
    let (inputs, outputs) = [(1, 1), (2, 1), (1, 2), (2, 2)][pick("ports", 0, 3) as usize];
    let explicit = pick_bool("output channels given");
    let count: Vec<usize> = if explicit { (0..outputs).map(|o| 2 - o).collect() } else { vec![] };
    let log: Log = Default::default();
    let node = AudioWorkletNode::new::<Sum>(&c, options(inputs, outputs, &count, Arc::clone(&log)));
    check("worklet: ports", node.number_of_inputs() == inputs && node.number_of_outputs() == outputs);
    let channels = pick("channels", 1, 2) as usize;
    let x = any_signal("x", channels, 2 * N);
    let src = feed_signal(&c, &x);
    let last = inputs - 1;
    src.connect_from_output_to_input(&node, 0, last);
    let tap = outputs - 1;
    node.connect_from_output_to_input(&c.destination(), tap, 0);
    let y = render(c);
    let shape: Vec<usize> = if explicit {
        count
    } else if inputs == 1 && outputs == 1 {
        vec![channels]
    } else {
        vec![1; outputs]
    };
    let log = log.lock().unwrap();
    check("worklet: called once per quantum", log.len() == 2);
    for (i, o) in log.iter() {
        check("worklet: input channels", i.len() == inputs && i[last] == channels && (0..last).all(|k| i[k] == 1));
        check("worklet: output channels", *o == shape);
    }
    for j in 0..2 {
        for i in 0..2 * N {
            let mut sum = x[0][i];
            for k in 1..channels {
                sum += x[k][i];
            }
            let n = if shape[tap] == 2 { j } else { 0 };
            check_eq("worklet: output of the processor", y[j][i], sum * [1., 2., 4.][tap + n]);
        }
    }
}

struct Params;

impl AudioWorkletProcessor for Params {
    type ProcessorOptions = ();
    fn constructor(_: ()) -> Self {
        Params
    }
    fn parameter_descriptors() -> Vec<AudioParamDescriptor> {
        let p = |name: &str, rate, v| AudioParamDescriptor { name: name.to_string(), min_value: -10., max_value: 10., default_value: v, automation_rate: rate };
        vec![p("a", AutomationRate::A, 1.), p("k", AutomationRate::K, 2.)]
    }
    fn process<'a, 'b>(&mut self, _i: &'b [&'a [&'a [f32]]], outputs: &'b mut [&'a mut [&'a mut [f32]]], params: AudioParamValues<'b>, _s: &'b AudioWorkletGlobalScope) -> bool {
        for (j, name) in ["a", "k"].iter().enumerate() {
            let v = params.get(name);
            for i in 0..N {
                outputs[0][j][i] = v[i.min(v.len() - 1)];
            }
        }
        true
    }
}

fn params() {
    let c = ctx(2, 3 * N);
    let mut o = options(0, 1, &[2], ());
    // literal zero besides: `is_normal` holds for every symbolic value
    let v: f64 = if pick_bool("zero") { 0. } else { any("v", -12, 12) };
    let (mut a, mut k): (f32, f32) = (1., 2.);
    let clamped = if v < -10. {
        -10.
    } else if v > 10. {
        10.
    } else {
        v as f32
    };
    match pick("initial value of", 0, 3) {
        0 => {
            o.parameter_data.insert("a".to_string(), v);
            a = clamped;
        }
        1 => {
            o.parameter_data.insert("k".to_string(), v);
            k = clamped;
        }
        2 => {
            o.parameter_data.insert("other".to_string(), v);
        }
        _ => (),
    }
    let node = AudioWorkletNode::new::<Params>(&c, o);
    node.connect(&c.destination());
    let p = node.parameters();
    check("worklet: parameter names", p.len() == 2 && p.contains_key("a") && p.contains_key("k"));
    check("worklet: parameter rates", p["a"].automation_rate() == AutomationRate::A && p["k"].automation_rate() == AutomationRate::K);
    check_eq("worklet: initial value", p["a"].value(), a);
    check_eq("worklet: initial value", p["k"].value(), k);
    let at = N + 40;
    let name = ["a", "k"][pick("automated", 0, 1) as usize];
    p[name].set_value_at_time(5., at as f64 / SR as f64);
    let y = render(c);
    for i in 0..3 * N {
        check_eq("worklet: a-rate parameter", y[0][i], if name == "a" && i >= at { 5. } else { a });
        check_eq("worklet: k-rate parameter", y[1][i], if name == "k" && i >= 2 * N { 5. } else { k });
    }
}

/// plays the last value it was sent; answers with the clock it sees
struct Port {
    value: f32,
    heard: Vec<f32>,
}

impl AudioWorkletProcessor for Port {
    type ProcessorOptions = f32;
    fn constructor(value: f32) -> Self {
        Port { value, heard: vec![] }
    }
    fn process<'a, 'b>(&mut self, _i: &'b [&'a [&'a [f32]]], outputs: &'b mut [&'a mut [&'a mut [f32]]], _p: AudioParamValues<'b>, s: &'b AudioWorkletGlobalScope) -> bool {
        outputs[0][0].fill(self.value);
        for v in self.heard.drain(..) {
            s.post_message(Box::new((v, s.current_frame, s.current_time, s.sample_rate)));
        }
        true
    }
    fn onmessage(&mut self, msg: &mut dyn Any) {
        if let Some(v) = msg.downcast_ref::<f32>() {
            self.value = *v;
            self.heard.push(*v);
        }
    }
}

fn port() {
    let mut c = ctx(1, 4 * N);
    let first: f32 = any("first", 1, 2);
    let v: f32 = any("v", 3, 4);
    let w: f32 = any("w", 5, 6);
    let node = Arc::new(AudioWorkletNode::new::<Port>(&c, options(0, 1, &[1], first)));
    let other = AudioWorkletNode::new::<Port>(&c, options(0, 1, &[1], 0.));
    node.connect(&c.destination());
    other.connect(&c.destination());
    let seen: Arc<Mutex<Vec<(f32, u64, f64, f32)>>> = Default::default();
    let log = Arc::clone(&seen);
    node.port().set_onmessage(move |m| log.lock().unwrap().push(*m.downcast::<(f32, u64, f64, f32)>().unwrap()));
    other.port().set_onmessage(|_| check("worklet: messages of its own processor only", false));
    let early = pick_bool("before rendering");
    if early {
        node.port().post_message(v);
        node.port().post_message(w);
    }
    let at = pick("later message in quantum", 1, 3) as usize;
    let clear = pick_bool("handler cleared");
    let n2 = Arc::clone(&node);
    c.suspend_sync((at * N) as f64 / SR as f64, move |_| {
        n2.port().post_message(v);
        if clear {
            n2.port().clear_onmessage();
        }
    });
    let y = render(c);
    for i in 0..4 * N {
        let want = if i >= at * N {
            v
        } else if early {
            w
        } else {
            first
        };
        check_eq("worklet: message in effect", y[0][i], want);
    }
    let mut want = vec![];
    if early {
        want.push((v, 0));
        want.push((w, 0));
    }
    if !clear {
        want.push((v, at * N));
    }
    let seen = seen.lock().unwrap();
    check("worklet: every message arrives once", seen.len() == want.len());
    for (s, (v, frame)) in seen.iter().zip(want) {
        check_eq("worklet: messages in order", s.0, v);
        check("worklet: current frame", s.1 == frame as u64);
        check_within("worklet: current time", s.2, frame as f64 / SR as f64, 0.000001);
        check_eq("worklet: sample rate", s.3, SR);
    }
}

struct Panics(usize);

impl AudioWorkletProcessor for Panics {
    type ProcessorOptions = usize;
    fn constructor(n: usize) -> Self {
        Panics(n)
    }
    fn process<'a, 'b>(&mut self, inputs: &'b [&'a [&'a [f32]]], outputs: &'b mut [&'a mut [&'a mut [f32]]], _p: AudioParamValues<'b>, _s: &'b AudioWorkletGlobalScope) -> bool {
        outputs[0][0].copy_from_slice(inputs[0][0]);
        if self.0 == 0 {
            panic!("on purpose");
        }
        self.0 -= 1;
        true
    }
}

fn panics() {
    let c = ctx(2, 4 * N);
    let after = pick("quanta before the panic", 0, 3) as usize;
    let node = AudioWorkletNode::new::<Panics>(&c, options(1, 1, &[1], after));
    let x = any_signal("x", 1, 4 * N);
    let src = feed_signal(&c, &x);
    let merger = c.create_channel_merger(2);
    src.connect(&node);
    node.connect_from_output_to_input(&merger, 0, 0);
    src.connect_from_output_to_input(&merger, 0, 1);
    merger.connect(&c.destination());
    let errors: Arc<Mutex<Vec<String>>> = Default::default();
    let log = Arc::clone(&errors);
    node.set_onprocessorerror(Box::new(move |e| log.lock().unwrap().push(e.message)));
    let y = expect_panics(|| render(c));
    for i in 0..4 * N {
        check_eq("worklet: silent once it panicked", y[0][i], if i < after * N { x[0][i] } else { 0. });
        check_eq("worklet: other nodes go on", y[1][i], x[0][i]);
    }
    let errors = errors.lock().unwrap();
    check("worklet: one error event", errors.len() == 1 && errors[0] == "on purpose");
}

fn arguments() {
    let c = ctx(1, N);
    let (inputs, outputs) = (pick("inputs", 0, 2) as usize, pick("outputs", 0, 2) as usize);
    let given = pick("channel counts given", 0, 2) as usize;
    let n = [0, 1, 32, 33][pick("channels", 0, 3) as usize];
    let ok = inputs + outputs > 0 && (given == 0 || given == outputs && n > 0 && n <= 32);
    let r = catch(|| AudioWorkletNode::new::<Port>(&c, options(inputs, outputs, &vec![n; given], 0.)));
    check("worklet: valid arguments only", r.is_ok() == ok);
    if let Ok(node) = r {
        check("worklet: ports as asked for", node.number_of_inputs() == inputs && node.number_of_outputs() == outputs);
        check(
            "worklet: default channel options",
            node.channel_count() == 2 && node.channel_count_mode() == ChannelCountMode::Max && node.channel_interpretation() == ChannelInterpretation::Speakers,
        );
        check("worklet: no parameters", node.parameters().is_empty());
    }
}
