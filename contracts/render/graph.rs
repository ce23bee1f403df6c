// One render quantum of a graph in an arbitrary state between two quanta: inputs are silent,
// outputs hold anything, the ordering is void or one that is valid for the connections.
use crate::vc_lib__common::*;
use crate::vc_lib__graph::*;
use std::sync::{Arc, Mutex};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "graph_step", target: "Graph::render, one quantum from any state of an acyclic graph", body: step },
        Contract { name: "graph_step_edit", target: "Graph::add_node / add_edge / remove_edge, then one quantum", body: step_edit },
        Contract { name: "graph_step_cyclic", target: "Graph::order_nodes / render, any graph of three nodes", body: step_cyclic },
        Contract { name: "graph_step_breaker", target: "Graph::order_nodes, cycles with cycle breakers", body: step_breaker },
        Contract { name: "graph_step_free", target: "Node::can_free / Graph::render, end of life of a node", body: step_free },
        Contract { name: "graph_step_panic", target: "Graph::render, one quantum in which a processor panics", body: step_panic },
    ]
}

struct Bench {
    graph: Graph,
    logs: Vec<Log>,
    reclaimed: llq::Consumer<AudioNodeId>,
}

fn aid(i: usize) -> AudioNodeId {
    AudioNodeId(i as u64)
}

fn mono() -> ChannelConfigInner {
    config(1, ChannelCountMode::Explicit, ChannelInterpretation::Speakers)
}

impl Bench {
    fn new() -> Self {
        let (producer, reclaimed) = llq::Queue::new().split();
        Bench { graph: Graph::new(producer), logs: vec![], reclaimed }
    }

    fn add(&mut self, id: usize, processor: Box<dyn AudioProcessor>) {
        self.graph.add_node(aid(id), llq::Node::new(aid(id)), processor, 1, 1, mono());
    }

    fn relay(&mut self, id: usize, own: f32) {
        let log: Log = Arc::new(Mutex::new(vec![]));
        self.add(id, Box::new(Relay { own, log: Arc::clone(&log) }));
        self.logs.push(log);
    }

    fn edge(&mut self, a: usize, b: usize) {
        self.graph.add_edge((aid(a), 0), (aid(b), 0));
    }

    /// leave something in the output of a node, as an earlier quantum may have done
    fn stale(&mut self, id: usize) {
        let old: f32 = any(&format!("old{}", id), -1, 1);
        let mut q = AudioRenderQuantum::from(self.graph.alloc.silence());
        for v in q.channel_data_mut(0).iter_mut() {
            *v = old;
        }
        self.graph.nodes.get_unchecked_mut(aid(id)).outputs[0] = q;
    }

    fn render(&mut self) -> Vec<Vec<f32>> {
        let (s, _r) = scope(0, SR);
        values(self.graph.render(&s))
    }

    fn output(&mut self, id: usize) -> f32 {
        let q = &self.graph.nodes.get_unchecked_mut(aid(id)).outputs[0];
        check("step: mono output", q.number_of_channels() == 1);
        q.channel_data(0)[N - 1]
    }

    /// ids and edges of the graph, in any order
    fn edges(&mut self) -> Vec<(usize, usize)> {
        let mut r = vec![];
        for (id, n) in self.graph.nodes.iter_mut() {
            for e in n.get_mut().outgoing_edges.iter() {
                r.push((id.0 as usize, e.other_id.0 as usize));
            }
        }
        r.sort();
        r
    }

    fn ids(&self) -> Vec<usize> {
        self.graph.nodes.keys().map(|k| k.0 as usize).collect()
    }

    /// the state is one from which the next quantum is rendered right
    fn check_state(&mut self, name: &str) {
        let name = format!("state: {}", name);
        let ids = self.ids();
        let edges = self.edges();
        for id in &ids {
            let n = self.graph.nodes.get_unchecked_mut(aid(*id));
            let silent = n.inputs.iter().all(|q| q.is_silent());
            let unset = !n.has_inputs_connected;
            check(&format!("{}: inputs are reset", name), silent && unset);
        }
        let ordered: Vec<usize> = self.graph.ordered.iter().map(|k| k.0 as usize).collect();
        let void = ordered.is_empty();
        for i in &ids {
            let n = ordered.iter().filter(|o| *o == i).count();
            let muted = reaches(&edges, *i, *i);
            check(&format!("{}: every node that is not on a cycle is ordered once", name), void || n == if muted { 0 } else { 1 });
        }
        check(&format!("{}: only nodes are ordered", name), ordered.iter().all(|o| ids.contains(o)));
        let pos = |i: usize| ordered.iter().position(|o| *o == i);
        for (a, b) in &edges {
            check(&format!("{}: sources are ordered before destinations", name), pos(*a).is_none() || pos(*b).is_none() || pos(*a) < pos(*b));
        }
    }
}

const ALL: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];

fn pick_edges(all: &[(usize, usize)]) -> Vec<(usize, usize)> {
    all.iter().filter(|e| pick_bool(&format!("{}->{}", e.0, e.1))).cloned().collect()
}

/// an acyclic graph of four relays between two quanta; node k has id perm[k]
fn state(v: &[f32], perm: [usize; 4], edges: &[(usize, usize)], order: Option<[usize; 4]>) -> Bench {
    let mut b = Bench::new();
    for k in 0..4 {
        b.relay(perm[k], v[k]);
    }
    for (x, y) in edges {
        b.edge(perm[*x], perm[*y]);
    }
    for k in 0..4 {
        b.stale(perm[k]);
    }
    b.graph.ordered.clear();
    if let Some(o) = order {
        b.graph.ordered.extend(o.iter().map(|k| aid(perm[*k])));
    }
    b
}

fn pick_order(edges: &[(usize, usize)]) -> [usize; 4] {
    let valid: Vec<[usize; 4]> = PERMS.iter().filter(|o| edges.iter().all(|(a, b)| o.iter().position(|k| k == a) < o.iter().position(|k| k == b))).cloned().collect();
    valid[pick("ordering", 0, valid.len() as i64 - 1) as usize]
}

/// this quantum, and the one after it for what is left behind
fn judge(b: &mut Bench, v: &[f32], perm: &[usize], edges: &[(usize, usize)]) {
    for q in 0..2 {
        judge_one(b, v, perm, edges, q);
    }
}

fn judge_one(b: &mut Bench, v: &[f32], perm: &[usize], edges: &[(usize, usize)], q: usize) {
    let before = b.edges();
    let out = b.render();
    for k in 0..v.len() {
        let want = eval(v, edges, k);
        let l = b.logs[k].lock().unwrap().clone();
        check("step: every node is rendered once", l.len() == q + 1);
        check_close("step: own value plus predecessors", l[q][0], want, 1e-5);
        let o = b.output(perm[k]);
        check_close("state: step: output buffer", o, want, 1e-5);
        if perm[k] == 0 {
            check("step: one output channel", out.len() == 1);
            check_close("step: the output of the destination is returned", out[0][0], want, 1e-5);
        }
    }
    check("state: step: connections stay", b.edges() == before);
    b.check_state("step");
}

fn step() {
    let v: Vec<f32> = (0..4).map(own).collect();
    let edges = pick_edges(&ALL);
    let void = pick_bool("ordering void");
    let (perm, order) = if void { (PERMS[pick("ids", 0, 23) as usize], None) } else { ([0, 1, 2, 3], Some(pick_order(&edges))) };
    let mut b = state(&v, perm, &edges, order);
    judge(&mut b, &v, &perm, &edges);
}

/// one edit after any state; edits keep states renderable
fn step_edit() {
    let mut v: Vec<f32> = (0..4).map(own).collect();
    let mut edges = pick_edges(&ALL);
    let reversed = pick_bool("ids reversed");
    let perm = if reversed { [3, 2, 1, 0] } else { [0, 1, 2, 3] };
    let order = if pick_bool("ordering void") { None } else { Some(pick_order(&edges)) };
    let mut b = state(&v, perm, &edges, order);
    let mut perm = perm.to_vec();
    let e = ALL[pick("edge", 0, 5) as usize];
    let have = edges.contains(&e);
    if have {
        b.graph.remove_edge((aid(perm[e.0]), 0), (aid(perm[e.1]), 0));
        edges.retain(|x| *x != e);
    } else if e == (0, 1) || pick_bool("connect") {
        b.edge(perm[e.0], perm[e.1]);
        edges.push(e);
    } else {
        let x = own(4);
        b.relay(4, x);
        v.push(x);
        perm.push(4);
    }
    b.check_state("edit");
    judge(&mut b, &v, &perm, &edges);
}

fn step_cyclic() {
    let v: Vec<f32> = (0..3).map(own).collect();
    let all = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2)];
    let edges = pick_edges(&all);
    let mut b = Bench::new();
    for k in 0..3 {
        b.relay(k, v[k]);
    }
    for (x, y) in &edges {
        b.edge(*x, *y);
    }
    let muted: Vec<bool> = (0..3).map(|i| reaches(&edges, i, i)).collect();
    let live: Vec<(usize, usize)> = edges.iter().filter(|e| !muted[e.0] && !muted[e.1]).cloned().collect();
    for q in 0..2 {
        for k in 0..3 {
            // muted nodes are silent once they have been found
            if q == 0 || !muted[k] {
                b.stale(k);
            }
        }
        b.render();
        for k in 0..3 {
            let l = b.logs[k].lock().unwrap().clone();
            let o = b.output(k);
            if muted[k] {
                check("cyclic: nodes on a cycle are not rendered", l.is_empty());
                check("state: cyclic: nodes on a cycle are silent", is_zero(o));
            } else {
                check("cyclic: other nodes are rendered", l.len() == q + 1);
                check_close("cyclic: other nodes play", l[q][0], eval(&v, &live, k), 1e-5);
            }
        }
        check("state: cyclic: connections stay", b.edges() == edges);
        b.check_state("cyclic");
    }
}

/// a cycle breaker on a cycle loses its outgoing connections (they are made up for by the delay
/// lines), everything else stays; no node is muted if every cycle has a breaker
fn step_breaker() {
    let v: Vec<f32> = (0..3).map(own).collect();
    let all = [(0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1)];
    let edges = pick_edges(&all);
    let breaker: Vec<bool> = (0..3).map(|k| k > 0 && pick_bool(&format!("breaker {}", k))).collect();
    let mut b = Bench::new();
    for k in 0..3 {
        b.relay(k, v[k]);
        if breaker[k] {
            b.graph.mark_cycle_breaker(aid(k));
        }
    }
    for (x, y) in &edges {
        b.edge(*x, *y);
    }
    b.render();
    let after = b.edges();
    for k in 0..3 {
        let was: Vec<_> = edges.iter().filter(|e| e.0 == k).collect();
        let is: Vec<_> = after.iter().filter(|e| e.0 == k).collect();
        let broken = breaker[k] && reaches(&edges, k, k) && is.is_empty();
        check("breaker: only cycle breakers on a cycle are cut", was == is || broken);
        check("breaker: no breaker is left on a cycle", !(breaker[k] && reaches(&after, k, k)));
    }
    let muted: Vec<bool> = (0..3).map(|i| reaches(&after, i, i)).collect();
    let live: Vec<(usize, usize)> = after.iter().filter(|e| !muted[e.0] && !muted[e.1]).cloned().collect();
    for k in 0..3 {
        let l = b.logs[k].lock().unwrap().clone();
        if muted[k] {
            check("breaker: cycles without breaker are muted", l.is_empty());
        } else {
            check("breaker: other nodes are rendered", l.len() == 1);
            check_close("breaker: other nodes play", l[0][0], eval(&v, &live, k), 1e-5);
        }
    }
    b.check_state("breaker");
}

/// emits its value, with a tail and side effects as told
struct Mortal {
    own: f32,
    tail: bool,
    effects: bool,
    fails: bool,
    dropped: Arc<Mutex<usize>>,
}

impl AudioProcessor for Mortal {
    fn process(&mut self, inputs: &[AudioRenderQuantum], outputs: &mut [AudioRenderQuantum], _p: AudioParamValues<'_>, _s: &AudioWorkletGlobalScope) -> bool {
        let x = inputs[0].channel_data(0)[0];
        outputs[0].set_number_of_channels(1);
        for v in outputs[0].channel_data_mut(0).iter_mut() {
            *v = x + self.own;
        }
        if self.fails {
            panic!("mortal");
        }
        self.tail
    }
    fn has_side_effects(&self) -> bool {
        self.effects
    }
    fn before_drop(&mut self, _s: &AudioWorkletGlobalScope) {
        *self.dropped.lock().unwrap() += 1;
    }
}

/// 1 -> 2 -> 0, and a parameter 3 of node 2; node 2 is the one that may go
struct Line {
    b: Bench,
    v: Vec<f32>,
    fed: bool,
    heard: bool,
    dropped: Arc<Mutex<usize>>,
}

fn line(fails: bool, tail: bool, effects: bool) -> Line {
    let v: Vec<f32> = (0..4).map(own).collect();
    let fed = pick_bool("has an input");
    let heard = pick_bool("has an output");
    let dropped = Arc::new(Mutex::new(0));
    let mut b = Bench::new();
    for k in 0..4 {
        if k == 2 {
            b.add(2, Box::new(Mortal { own: v[2], tail, effects, fails, dropped: Arc::clone(&dropped) }));
            b.logs.push(Arc::new(Mutex::new(vec![])));
        } else {
            b.relay(k, v[k]);
        }
    }
    b.graph.add_edge((aid(3), 0), (aid(2), usize::MAX));
    if fed {
        b.edge(1, 2);
    }
    if heard {
        b.edge(2, 0);
    }
    for k in 0..4 {
        b.stale(k);
    }
    if pick_bool("ordered before") {
        b.graph.order_nodes();
    }
    Line { b, v, fed, heard, dropped }
}

fn step_free() {
    let tail = pick_bool("tail");
    let effects = pick_bool("side effects");
    let mut l = line(false, tail, effects);
    let gone = pick_bool("handle dropped");
    if gone {
        l.b.graph.mark_control_handle_dropped(aid(2));
    }
    let out = l.b.render();
    let mut want = l.v[0];
    if l.heard {
        want += l.v[2] + if l.fed { l.v[1] } else { 0. };
    }
    check_close("free: heard in this quantum", out[0][0], want, 1e-5);
    let alive = l.b.ids().contains(&2);
    if !gone {
        check("free: nodes with a handle stay", alive);
    }
    if l.fed && (l.heard || effects) {
        check("free: nodes with inputs that have an effect stay", alive);
    }
    if l.heard && tail {
        check("free: nodes with a tail stay", alive);
    }
    if gone && !l.fed && !tail {
        check("free: finished nodes go", !alive);
    }
    let reclaimed: Vec<u64> = std::iter::from_fn(|| l.b.reclaimed.pop().map(|n| n.0)).collect();
    check("free: the id is handed back when the node goes", reclaimed == if alive { vec![] } else { vec![2] });
    check("free: before_drop is called when the node goes", *l.dropped.lock().unwrap() == if alive { 0 } else { 1 });
    let mut edges = vec![];
    if alive && l.fed {
        edges.push((1, 2));
    }
    if alive && l.heard {
        edges.push((2, 0));
    }
    if alive {
        edges.push((3, 2));
    }
    check("state: free: connections of the others stay", l.b.edges() == edges);
    check("free: the others stay", l.b.ids().iter().filter(|i| **i != 2).count() == 3);
    l.b.check_state("free");
    // and the graph plays on
    let out = l.b.render();
    check_close("free: next quantum", out[0][0], if alive { want } else { l.v[0] }, 1e-5);
}

fn step_panic() {
    let mut l = line(true, true, pick_bool("side effects"));
    let gone = pick_bool("handle dropped");
    if gone {
        l.b.graph.mark_control_handle_dropped(aid(2));
    }
    let (s, r) = scope(0, SR);
    let out = expect_panics(|| values(l.b.graph.render(&s)));
    check_close("panic step: the failed node is not heard", out[0][0], l.v[0], 1e-5);
    check("panic step: one error is reported", r.try_iter().count() == 1);
    check("panic step: before_drop is called", *l.dropped.lock().unwrap() == 1);
    let alive = l.b.ids().contains(&2);
    let reclaimed: Vec<u64> = std::iter::from_fn(|| l.b.reclaimed.pop().map(|n| n.0)).collect();
    check("panic step: a node with a handle keeps its id", gone || alive);
    check("panic step: the id is handed back when the node goes", reclaimed == if alive { vec![] } else { vec![2] });
    check("panic step: the others are rendered", [0, 1, 3].iter().all(|k| l.b.logs[*k].lock().unwrap().len() == 1));
    l.b.check_state("panic step");
    let out = values(l.b.graph.render(&s));
    check_close("panic step: next quantum", out[0][0], l.v[0], 1e-5);
    check("panic step: no further error", r.try_iter().count() == 0);
}
