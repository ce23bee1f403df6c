use crate::context::*;
use crate::node::*;
use crate::render::{AudioParamValues, AudioProcessor, AudioRenderQuantum, AudioWorkletGlobalScope};
use crate::vc_lib__common::*;
use std::sync::{Arc, Mutex};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "graph_dag", target: "Graph::order_nodes / render, every acyclic graph of four nodes", body: dag },
        Contract { name: "graph_edit", target: "Graph::add_edge / remove_edge / add_node between quanta", body: edit },
        Contract { name: "graph_cycle", target: "Graph::order_nodes, every graph of three nodes", body: cycle },
        Contract { name: "graph_cycle_broken", target: "Graph::render after a cycle is broken", body: cycle_broken },
        Contract { name: "graph_ports", target: "ConcreteBaseAudioContext::connect / disconnect by output and input", body: ports },
        Contract { name: "graph_connect_twice", target: "ConcreteBaseAudioContext::connect", body: connect_twice },
        Contract { name: "graph_dropped_handles", target: "Graph::render lifecycle, dropped control handles", body: dropped_handles },
        Contract { name: "graph_tail", target: "Graph::can_free, nodes with a tail", body: tail },
        Contract { name: "graph_late_source", target: "Graph::render lifecycle, inputs that are connected but silent for a while", body: late_source },
        Contract { name: "graph_panic", target: "Graph::render, panicking processor", body: panicking },
        Contract { name: "graph_source_end", target: "Graph::render, source dropped after its last quantum", body: source_end },
    ]
}

pub(crate) type Log = Arc<Mutex<Vec<Vec<f32>>>>;

/// adds its own value to the mono mix of each input; output k comes from input k
pub(crate) struct Relay {
    pub own: f32,
    pub log: Log,
}

impl AudioProcessor for Relay {
    fn process(&mut self, inputs: &[AudioRenderQuantum], outputs: &mut [AudioRenderQuantum], _p: AudioParamValues<'_>, _s: &AudioWorkletGlobalScope) -> bool {
        let mut l = vec![];
        for (i, o) in inputs.iter().zip(outputs.iter_mut()) {
            check("relay: mono", i.number_of_channels() == 1);
            let x = i.channel_data(0).to_vec();
            check_close("relay: constant block", x[0], x[N - 1], 0.);
            o.set_number_of_channels(1);
            let y = x[0] + self.own;
            for v in o.channel_data_mut(0).iter_mut() {
                *v = y;
            }
            l.push(y);
        }
        self.log.lock().unwrap().push(l);
        true
    }
    fn has_side_effects(&self) -> bool {
        true
    }
}

struct R {
    node: Bench,
    pub log: Log,
}

fn relay(c: &impl BaseAudioContext, own: f32, ports: usize) -> R {
    let log: Log = Arc::new(Mutex::new(vec![]));
    let l = Arc::clone(&log);
    let o = AudioNodeOptions { channel_count: 1, channel_count_mode: ChannelCountMode::Explicit, channel_interpretation: ChannelInterpretation::Speakers };
    R { node: bench(c, o, ports, ports, Box::new(Relay { own, log: l })), log }
}

pub(crate) fn own(i: usize) -> f32 {
    any(&format!("own{}", i), 0.125, 1)
}

/// the value of every node of an acyclic graph
pub(crate) fn eval(own: &[f32], edges: &[(usize, usize)], i: usize) -> f32 {
    let mut v = own[i];
    for (a, b) in edges {
        if *b == i {
            v += eval(own, edges, *a);
        }
    }
    v
}

pub(crate) const PERMS: [[usize; 4]; 24] = [
    [0, 1, 2, 3], [0, 1, 3, 2], [0, 2, 1, 3], [0, 2, 3, 1], [0, 3, 1, 2], [0, 3, 2, 1],
    [1, 0, 2, 3], [1, 0, 3, 2], [1, 2, 0, 3], [1, 2, 3, 0], [1, 3, 0, 2], [1, 3, 2, 0],
    [2, 0, 1, 3], [2, 0, 3, 1], [2, 1, 0, 3], [2, 1, 3, 0], [2, 3, 0, 1], [2, 3, 1, 0],
    [3, 0, 1, 2], [3, 0, 2, 1], [3, 1, 0, 2], [3, 1, 2, 0], [3, 2, 0, 1], [3, 2, 1, 0],
];

/// every node sees, in the same quantum, the sum of what its predecessors emit
fn dag() {
    let v: Vec<f32> = (0..4).map(own).collect();
    // position in creation order of the nodes 0..4, edges go from lower to higher nodes
    let perm = PERMS[pick("creation order", 0, 23) as usize];
    let all = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
    let edges: Vec<(usize, usize)> = all.iter().filter(|e| pick_bool(&format!("{}->{}", e.0, e.1))).cloned().collect();
    let reverse = pick_bool("connected in reverse");
    let c = ctx(1, 2 * N);
    let mut slot: Vec<Option<R>> = vec![None, None, None, None];
    for k in perm {
        slot[k] = Some(relay(&c, v[k], 1));
    }
    let r: Vec<R> = slot.into_iter().map(|s| s.unwrap()).collect();
    let mut es = edges.clone();
    if reverse {
        es.reverse();
    }
    for (a, b) in &es {
        r[*a].node.connect(&r[*b].node);
    }
    run(c);
    for i in 0..4 {
        let want = eval(&v, &edges, i);
        let l = r[i].log.lock().unwrap();
        check("dag: every node is rendered every quantum", l.len() == 2);
        for q in l.iter() {
            check_close("dag: own value plus predecessors", q[0], want, 1e-5);
        }
    }
}

/// connections made and removed, and nodes created, between quanta
fn edit() {
    let v: Vec<f32> = (0..4).map(own).collect();
    let start = [vec![(0, 1), (1, 2)], vec![(0, 1), (0, 2), (1, 2)], vec![(1, 2)], vec![(2, 1), (1, 0)]][pick("start", 0, 3) as usize].clone();
    let cut = pick("cut", 0, 2) as usize;
    let all = [(0, 1), (0, 2), (1, 2), (2, 1), (1, 0), (2, 0)];
    let add = all[pick("add", 0, 5) as usize];
    let fresh = pick_bool("new node");
    let mut c = ctx(1, 3 * N);
    let r: Vec<R> = (0..3).map(|i| relay(&c, v[i], 1)).collect();
    for (a, b) in &start {
        r[*a].node.connect(&r[*b].node);
    }
    let mut after = start.clone();
    if cut < after.len() {
        after.remove(cut);
    }
    if !after.contains(&add) {
        after.push(add);
    }
    // acyclic only
    let cyc = |e: &[(usize, usize)]| (0..3).any(|i| reaches(e, i, i));
    assume(!cyc(&after));
    let removed: Vec<(usize, usize)> = if cut < start.len() { vec![start[cut]] } else { vec![] };
    let logs: Vec<Log> = r.iter().map(|x| Arc::clone(&x.log)).collect();
    let new_log: Arc<Mutex<Vec<R>>> = Arc::new(Mutex::new(vec![]));
    let (nl, v3, st) = (Arc::clone(&new_log), v[3], start.clone());
    let keep: Arc<Mutex<Vec<R>>> = Arc::new(Mutex::new(vec![]));
    let k2 = Arc::clone(&keep);
    c.suspend_sync(128. / SR as f64, move |c| {
        for (a, b) in &removed {
            r[*a].node.disconnect_dest(&r[*b].node);
        }
        if !st.contains(&add) || removed.contains(&add) {
            r[add.0].node.connect(&r[add.1].node);
        }
        if fresh {
            nl.lock().unwrap().push(relay(c, v3, 1));
        }
        k2.lock().unwrap().extend(r);
    });
    run(c);
    for i in 0..3 {
        let l = logs[i].lock().unwrap();
        check("edit: every node is rendered every quantum", l.len() == 3);
        check_close("edit: before", l[0][0], eval(&v, &start, i), 1e-5);
        check_close("edit: after", l[1][0], eval(&v, &after, i), 1e-5);
        check_close("edit: later", l[2][0], eval(&v, &after, i), 1e-5);
    }
    if fresh {
        let n = new_log.lock().unwrap();
        let l = n[0].log.lock().unwrap();
        check("edit: new node is rendered", l.len() == 2);
    }
}

pub(crate) fn reaches(edges: &[(usize, usize)], a: usize, b: usize) -> bool {
    let mut seen = vec![false; 4];
    let mut todo = vec![a];
    while let Some(x) = todo.pop() {
        for (s, t) in edges {
            if *s == x {
                if *t == b {
                    return true;
                }
                if !seen[*t] {
                    seen[*t] = true;
                    todo.push(*t);
                }
            }
        }
    }
    false
}

/// nodes on a cycle without a delay are muted, all others play what they get from unmuted nodes
fn cycle() {
    let v: Vec<f32> = (0..4).map(own).collect();
    let all = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1), (3, 0), (0, 0), (2, 3)];
    let edges: Vec<(usize, usize)> = all.iter().filter(|e| pick_bool(&format!("{}->{}", e.0, e.1))).cloned().collect();
    let c = ctx(1, 2 * N);
    let r: Vec<R> = (0..4).map(|i| relay(&c, v[i], 1)).collect();
    for (a, b) in &edges {
        r[*a].node.connect(&r[*b].node);
    }
    run(c);
    let muted: Vec<bool> = (0..4).map(|i| reaches(&edges, i, i)).collect();
    let live: Vec<(usize, usize)> = edges.iter().filter(|e| !muted[e.0] && !muted[e.1]).cloned().collect();
    for i in 0..4 {
        let l = r[i].log.lock().unwrap();
        if muted[i] {
            check("cycle: nodes on a cycle are muted", l.is_empty());
        } else {
            check("cycle: other nodes are rendered", l.len() == 2);
            for q in l.iter() {
                check_close("cycle: other nodes play", q[0], eval(&v, &live, i), 1e-5);
            }
        }
    }
}

/// once a cycle is broken its nodes play again, from their current input only
fn cycle_broken() {
    let v: Vec<f32> = (0..4).map(own).collect();
    let mut c = ctx(1, 5 * N);
    let r: Vec<R> = (0..4).map(|i| relay(&c, v[i], 1)).collect();
    // 3 -> 0 -> 1 -> 0, 1 -> 2
    for (a, b) in [(3, 0), (0, 1), (1, 0), (1, 2)] {
        r[a].node.connect(&r[b].node);
    }
    let at = pick("broken", 1, 3) as usize;
    let logs: Vec<Log> = r.iter().map(|x| Arc::clone(&x.log)).collect();
    let keep: Arc<Mutex<Vec<R>>> = Arc::new(Mutex::new(vec![]));
    let k2 = Arc::clone(&keep);
    c.suspend_sync(at as f64 * 128. / SR as f64, move |_| {
        r[1].node.disconnect_dest(&r[0].node);
        k2.lock().unwrap().extend(r);
    });
    run(c);
    let edges = [(3, 0), (0, 1), (1, 2)];
    for i in 0..3 {
        let l = logs[i].lock().unwrap();
        if i < 2 {
            check("cycle broken: muted before", l.len() == 5 - at);
        }
        for q in l.iter().rev().take(5 - at) {
            check_close("cycle broken: plays its current input", q[0], eval(&v, &edges, i), 1e-5);
        }
    }
}

/// connect and disconnect address exactly the given output and input
fn ports() {
    let v: Vec<f32> = (0..2).map(own).collect();
    let all = [(0, 0), (0, 1), (1, 0), (1, 1)];
    let on: Vec<(usize, usize)> = all.iter().filter(|e| pick_bool(&format!("{}:{}", e.0, e.1))).cloned().collect();
    let mut c = ctx(1, 2 * N);
    let a = relay(&c, v[0], 2);
    let b = relay(&c, v[1], 2);
    let d = relay(&c, v[1], 2);
    // input 0 of the first node gets a different signal than its input 1
    let f = feed(&c, vec![vec![vec![0.5; N]]; 2]);
    f.connect(&a.node);
    for (o, i) in &on {
        a.node.connect_from_output_to_input(&b.node, *o, *i);
        a.node.connect_from_output_to_input(&d.node, *o, *i);
    }
    let how = pick("disconnect", 0, 4);
    let port = pick("port", 0, 1) as usize;
    let gone: Vec<(usize, usize)> = on
        .iter()
        .filter(|e| match how {
            0 | 1 => true,
            2 | 3 => e.0 == port,
            _ => e.0 == port && e.1 == 0,
        })
        .cloned()
        .collect();
    let both = how == 0 || how == 2;
    if !both {
        // removing something that is not connected is an error
        assume(!gone.is_empty());
    }
    let (lb, ld) = (Arc::clone(&b.log), Arc::clone(&d.log));
    let keep: Arc<Mutex<Vec<R>>> = Arc::new(Mutex::new(vec![]));
    let k2 = Arc::clone(&keep);
    c.suspend_sync(128. / SR as f64, move |_| {
        match how {
            0 => a.node.disconnect(),
            1 => a.node.disconnect_dest(&b.node),
            2 => a.node.disconnect_output(port),
            3 => a.node.disconnect_dest_from_output(&b.node, port),
            _ => a.node.disconnect_dest_from_output_to_input(&b.node, port, 0),
        }
        k2.lock().unwrap().extend([a, b, d]);
    });
    run(c);
    let emit = [v[0] + 0.5, v[0]];
    for (which, l) in [(0, lb), (1, ld)] {
        let l = l.lock().unwrap();
        check("ports: rendered", l.len() == 2);
        for q in 0..2 {
            for i in 0..2 {
                let mut want = v[1];
                for e in &on {
                    let cut = q == 1 && (which == 0 || both) && gone.contains(e);
                    if e.1 == i && !cut {
                        want += emit[e.0];
                    }
                }
                check_close("ports: exactly the given connections", l[q][i], want, 1e-5);
            }
        }
    }
}

/// there is at most one connection between an output and an input
fn connect_twice() {
    let v: Vec<f32> = (0..2).map(own).collect();
    let times = pick("times", 1, 3);
    let mut c = ctx(1, 2 * N);
    let a = relay(&c, v[0], 1);
    let b = relay(&c, v[1], 1);
    for _ in 0..times {
        a.node.connect(&b.node);
    }
    let l = Arc::clone(&b.log);
    let keep: Arc<Mutex<Vec<R>>> = Arc::new(Mutex::new(vec![]));
    let k2 = Arc::clone(&keep);
    c.suspend_sync(128. / SR as f64, move |_| {
        a.node.disconnect_dest(&b.node);
        k2.lock().unwrap().extend([a, b]);
    });
    run(c);
    let l = l.lock().unwrap();
    check_close("connected twice: heard once", l[0][0], v[0] + v[1], 1e-5);
    check_close("connected twice: disconnected at once", l[1][0], v[1], 1e-5);
}

/// nodes whose control handle is gone keep playing and stay connected
fn dropped_handles() {
    let x: f32 = any("x", 0.125, 1);
    let mut c = ctx(1, 5 * N);
    let src = c.create_constant_source();
    src.offset().set_value(x);
    let g1 = c.create_gain();
    let g2 = c.create_gain();
    g1.gain().set_value(0.5);
    let (r, tape) = record(&c, 1);
    src.connect(&g1);
    g1.connect(&g2);
    g2.connect(&r);
    let mut src = src;
    src.start();
    let first = pick("drop", 0, 3);
    let mut keep: Vec<GainNode> = vec![];
    match first {
        0 => drop((g1, g2)),
        1 => {
            drop(g1);
            keep.push(g2);
        }
        2 => {
            drop(g2);
            keep.push(g1);
        }
        _ => keep.extend([g1, g2]),
    }
    let how = pick("then", 0, 2);
    let held = Arc::new(Mutex::new(None));
    let h2 = Arc::clone(&held);
    c.suspend_sync(2. * 128. / SR as f64, move |_| {
        match how {
            0 => src.disconnect(),
            1 => src.stop(),
            _ => (),
        }
        if how == 2 {
            drop(src);
        } else {
            *h2.lock().unwrap() = Some(src);
        }
    });
    run(c);
    let out = played(&tape, 0, 1);
    for q in 0..5 {
        let want = if q < 2 || how == 2 { 0.5 * x } else { 0. };
        for i in 0..N {
            check_close("dropped handles: every frame", out[0][q * N + i], want, 1e-5);
        }
    }
    drop(keep);
    drop(r);
}

/// emits a fixed number of quanta after its input ended
struct Echo {
    left: usize,
    heard: bool,
    pub log: Log,
}

impl AudioProcessor for Echo {
    fn process(&mut self, inputs: &[AudioRenderQuantum], outputs: &mut [AudioRenderQuantum], _p: AudioParamValues<'_>, _s: &AudioWorkletGlobalScope) -> bool {
        let silent = inputs[0].is_silent();
        let o = &mut outputs[0];
        self.log.lock().unwrap().push(vec![]);
        if !silent {
            self.heard = true;
            o.set_number_of_channels(1);
            o.channel_data_mut(0).copy_from_slice(inputs[0].channel_data(0));
            return true;
        }
        if self.heard && self.left > 0 {
            self.left -= 1;
            o.set_number_of_channels(1);
            for v in o.channel_data_mut(0).iter_mut() {
                *v = 0.25;
            }
        } else {
            o.make_silent();
        }
        !self.heard || self.left > 0
    }
}

/// a node without handle and inputs is kept until its tail is over
fn tail() {
    let n = pick("tail", 0, 3) as usize;
    let x: f32 = any("x", 0.125, 1);
    let c = ctx(1, 7 * N);
    let log: Log = Arc::new(Mutex::new(vec![]));
    let e = bench(&c, AudioNodeOptions::default(), 1, 1, Box::new(Echo { left: n, heard: false, log: Arc::clone(&log) }));
    let f = feed(&c, vec![vec![vec![x; N]]; 2]);
    let (r, tape) = record(&c, 1);
    f.connect(&e);
    e.connect(&r);
    let dropped = pick_bool("handles dropped");
    let mut keep = vec![];
    if dropped {
        drop((e, f));
    } else {
        keep.extend([e, f]);
    }
    run(c);
    let out = played(&tape, 0, 1);
    for q in 0..7 {
        let want = if q < 2 {
            x
        } else if q < 2 + n {
            0.25
        } else {
            0.
        };
        for i in 0..N {
            check_close("tail: every frame", out[0][q * N + i], want, 0.);
        }
    }
    if !dropped {
        check("tail: a node with a handle is always rendered", log.lock().unwrap().len() == 7);
    } else {
        check("tail: a finished node without handle is released", log.lock().unwrap().len() <= 2 + n + 2);
    }
    drop(keep);
    drop(r);
}

/// a source without handle plays to its end, its last quantum included
fn source_end() {
    let len = [1, 127, 128, 129, 200, 256, 300][pick("frames", 0, 6) as usize];
    let x = any_signal("x", 1, len);
    let c = ctx(1, 5 * N);
    let src = player(&c, &x);
    let (r, tape) = record(&c, 1);
    if pick_bool("through a gain") {
        let g = c.create_gain();
        src.connect(&g);
        g.connect(&r);
    } else {
        src.connect(&r);
    }
    drop(src);
    run(c);
    let out = played(&tape, 0, 1);
    for i in 0..5 * N {
        check_close("source end: every frame", out[0][i], if i < len { x[0][i] } else { 0. }, 1e-5);
    }
    drop(r);
}

struct Bomb {
    at: usize,
    n: usize,
}

impl AudioProcessor for Bomb {
    fn process(&mut self, _i: &[AudioRenderQuantum], outputs: &mut [AudioRenderQuantum], _p: AudioParamValues<'_>, _s: &AudioWorkletGlobalScope) -> bool {
        self.n += 1;
        if self.n > self.at {
            panic!("bomb");
        }
        outputs[0].make_silent();
        true
    }
}

/// a processor that panics is taken out, everything else plays on and its handle stays inert
fn panicking() {
    let x: f32 = any("x", 0.125, 1);
    let at = pick("panics in quantum", 0, 2) as usize;
    let what = pick("then", 0, 3);
    let mut c = ctx(1, 5 * N);
    let (r, tape) = record(&c, 1);
    let f = feed(&c, vec![vec![vec![x; N]]; 5]);
    let g = c.create_gain();
    let b = bench(&c, AudioNodeOptions::default(), 1, 1, Box::new(Bomb { at, n: 0 }));
    f.connect(&g);
    f.connect(&b);
    b.connect(&g);
    g.connect(&r);
    let keep: Arc<Mutex<Vec<Bench>>> = Arc::new(Mutex::new(vec![]));
    let k2 = Arc::clone(&keep);
    c.suspend_sync(3. * 128. / SR as f64, move |c| {
        match what {
            0 => {
                // a new node, fed and heard in addition to the gain, is not affected by the old handle
                let n = feed(c, vec![vec![vec![0.25; N]]; 2]);
                n.connect(&g);
                drop(b);
                k2.lock().unwrap().push(n);
            }
            1 => b.disconnect(),
            2 => {
                f.disconnect_dest(&b);
            }
            _ => {
                let n = feed(c, vec![vec![vec![0.25; N]]; 2]);
                n.connect(&g);
                b.disconnect();
                b.set_channel_count(1);
                k2.lock().unwrap().extend([b, n]);
            }
        }
        k2.lock().unwrap().push(f);
        drop(g);
    });
    expect_panics(|| run(c));
    let out = played(&tape, 0, 1);
    for q in 0..5 {
        let want = if q >= 3 && (what == 0 || what == 3) { x + 0.25 } else { x };
        for i in 0..N {
            check_close("panic: all other nodes play on", out[0][q * N + i], want, 1e-5);
        }
    }
    drop(r);
}

/// a node without handle waits for the sources connected to any of its inputs
fn late_source() {
    let x: f32 = any("x", 0.125, 1);
    let late = pick("first quantum", 0, 3) as usize;
    let c = ctx(1, 5 * N);
    let mut blocks: Vec<Block> = vec![vec![]; late];
    blocks.extend(vec![vec![vec![x; N]]; 5 - late]);
    let f = feed(&c, blocks);
    let (r, tape) = record(&c, 1);
    let kind = pick("node", 0, 3);
    let mut want = x;
    match kind {
        0 => {
            let g = c.create_gain();
            f.connect(&g);
            g.connect(&r);
        }
        1 => {
            // only the second input is connected
            let m = c.create_channel_merger(2);
            f.connect_from_output_to_input(&m, 0, 1);
            let s = c.create_channel_splitter(2);
            m.connect(&s);
            s.connect_from_output_to_input(&r, 1, 0);
        }
        2 => {
            let g = c.create_gain();
            let h = c.create_gain();
            h.gain().set_value(0.5);
            want = 0.5 * x;
            f.connect(&g);
            g.connect(&h);
            h.connect(&r);
        }
        _ => {
            // modulates a parameter of a node that plays on its own
            let mut k = c.create_constant_source();
            k.offset().set_value(0.);
            k.start();
            f.connect(k.offset());
            k.connect(&r);
        }
    }
    let mut keep = vec![];
    if pick_bool("source kept") {
        keep.push(f);
    } else {
        drop(f);
    }
    run(c);
    let out = played(&tape, 0, 1);
    for q in 0..5 {
        for i in 0..N {
            check_close("late source: every frame", out[0][q * N + i], if q < late { 0. } else { want }, 1e-5);
        }
    }
    drop(keep);
    drop(r);
}
