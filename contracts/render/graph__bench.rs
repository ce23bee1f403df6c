// Calls the `process` method of a processor outside of a graph: arbitrary inputs, arbitrary old
// content of the output buffers, parameter values as given.
use crate::context::vc_mod__bench::param_id;
use crate::context::AudioParamId;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![]
}

struct Nothing;

impl AudioProcessor for Nothing {
    fn process(&mut self, _i: &[AudioRenderQuantum], _o: &mut [AudioRenderQuantum], _p: AudioParamValues<'_>, _s: &AudioWorkletGlobalScope) -> bool {
        true
    }
}

pub(crate) struct Call {
    pub alloc: Alloc,
    nodes: NodeCollection,
    pub frame: u64,
    pub inputs: Vec<AudioRenderQuantum>,
    pub outputs: Vec<AudioRenderQuantum>,
    pub events: Vec<crate::events::EventDispatch>,
}

/// parameter number n
pub(crate) fn id(n: usize) -> AudioParamId {
    param_id(20 + n as u64)
}

impl Call {
    pub fn new(outputs: usize) -> Self {
        let alloc = Alloc::with_capacity(8);
        let outputs = (0..outputs).map(|_| AudioRenderQuantum::from(alloc.silence())).collect();
        Call { alloc, nodes: NodeCollection::new(), frame: 0, inputs: vec![], outputs, events: vec![] }
    }

    /// values of parameter n for the next call: one, or one per frame
    pub fn param(&mut self, n: usize, v: &[f32]) {
        self.param_at(20 + n as u64, v)
    }

    /// the same for the listener parameters
    pub fn listener_param(&mut self, n: usize, v: &[f32]) {
        self.param_at(2 + n as u64, v)
    }

    fn param_at(&mut self, n: u64, v: &[f32]) {
        let mut q = AudioRenderQuantum::from(self.alloc.silence());
        if v.len() == 1 {
            q.channel_data_mut(0)[0] = v[0];
            q.set_single_valued(true);
        } else {
            q.channel_data_mut(0).copy_from_slice(v);
        }
        self.nodes.insert(
            crate::context::AudioNodeId(n),
            RefCell::new(Node {
                reclaim_id: None,
                processor: Box::new(Nothing),
                inputs: vec![],
                outputs: vec![q],
                channel_config: config(1, ChannelCountMode::Explicit, ChannelInterpretation::Speakers),
                outgoing_edges: smallvec![],
                control_handle_dropped: false,
                has_inputs_connected: false,
                cycle_breaker: false,
            }),
        );
    }

    /// block for an input or an output, no channels = silence
    pub fn block(&self, b: &Block) -> AudioRenderQuantum {
        if b.is_empty() {
            AudioRenderQuantum::from(self.alloc.silence())
        } else {
            quantum(&self.alloc, b.iter().map(|c| channel(&self.alloc, c)).collect())
        }
    }

    /// leave something in the output buffers, as an earlier call may have done
    pub fn stale(&mut self, ch: usize) {
        for i in 0..self.outputs.len() {
            self.outputs[i] = if ch == 0 { AudioRenderQuantum::from(self.alloc.silence()) } else { any_quantum(&self.alloc, "stale", ch).0 };
        }
    }

    pub fn process(&mut self, p: &mut dyn AudioProcessor, inputs: &[Block]) -> bool {
        self.inputs = inputs.iter().map(|b| self.block(b)).collect();
        let (s, r) = scope(self.frame, SR);
        let go_on = p.process(&self.inputs, &mut self.outputs, AudioParamValues::from(&self.nodes), &s);
        self.frame += N as u64;
        self.events.extend(r.try_iter());
        for (q, b) in self.inputs.iter().zip(inputs) {
            if !b.is_empty() {
                check_block("frame: inputs are not modified", &values(q), b);
            }
        }
        check("frame: silence stays silent", self.alloc.silence().iter().all(|v| is_zero(*v)));
        go_on
    }

    pub fn output(&self, i: usize) -> Vec<Vec<f32>> {
        values(&self.outputs[i])
    }
}
