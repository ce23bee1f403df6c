use crate::render::graph::vc_graph__bench::*;
use crate::vc_lib__common::*;
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "delay_read", target: "DelayReader::process from any delay line", body: read },
        Contract { name: "delay_read_arate", target: "DelayReader::process, one delay per frame", body: read_arate },
        Contract { name: "delay_read_end", target: "DelayReader::process after the writer has gone", body: read_end },
        Contract { name: "delay_write", target: "DelayWriter::process / check_ring_buffer_up_down_mix / drop", body: write },
        Contract { name: "delay_fresh", target: "RingBufferChecker::check_ring_buffer_size", body: fresh },
    ]
}

type Ring = Rc<RefCell<Vec<AudioRenderQuantum>>>;

/// delay line of `size` quanta with arbitrary content
fn ring(c: &Call, size: usize, ch: usize) -> (Ring, Vec<Block>) {
    let b: Vec<Block> = (0..size).map(|k| pos_signal(&format!("ring{}_", k), ch, N)).collect();
    let mut v = Vec::with_capacity(size);
    for x in &b {
        v.push(c.block(x));
    }
    check("delay: ring size", v.capacity() == size);
    (Rc::new(RefCell::new(v)), b)
}

fn reader(r: &Ring, index: usize) -> DelayReader {
    DelayReader {
        delay_time: id(0),
        ring_buffer: Rc::clone(r),
        index,
        latest_frame_written: Rc::new(Cell::new(u64::MAX)),
        in_cycle: false,
        last_written_index: Rc::new(Cell::new(None)),
        last_written_index_checked: None,
    }
}

/// sample of the delay line, p frames after the begin of the block the reader is at
fn line(b: &[Block], index: usize, ch: usize, p: i64) -> f32 {
    let size = b.len() as i64;
    let q = (index as i64 + p.div_euclid(N as i64)).rem_euclid(size);
    b[q as usize][ch][p.rem_euclid(N as i64) as usize]
}

fn delayed(b: &[Block], index: usize, ch: usize, i: usize, d: f32) -> f32 {
    let p = i as f32 - d;
    let f = p.floor();
    let k = p - f;
    let f = f as i64;
    // the next frame only counts between two frames
    if is_zero(k) {
        return line(b, index, ch, f);
    }
    (1. - k) * line(b, index, ch, f) + k * line(b, index, ch, f + 1)
}

fn judge(c: &Call, b: &[Block], index: usize, d: impl Fn(usize) -> f32) {
    let got = c.output(0);
    check("delay: channels of the line", got.len() == b[0].len());
    for ch in 0..b[0].len() {
        for i in 0..N {
            check_eq("delay: every frame", got[ch][i], delayed(b, index, ch, i, d(i)));
        }
    }
}

fn read() {
    let size = pick("quanta", 2, 3) as usize;
    let ch = if size == 2 { pick("channels", 1, 2) as usize } else { 1 };
    let index = pick("index", 0, size as i64 - 1) as usize;
    let mut c = Call::new(1);
    c.stale(index * 2);
    c.frame = 1280;
    let (r, b) = ring(&c, size, ch);
    let mut p = reader(&r, index);
    // rendered before the writer: in a cycle, from now on
    let (late, before) = [(false, false), (true, false), (false, true)][pick("cycle", 0, if ch == 1 { 2 } else { 0 }) as usize];
    p.in_cycle = before;
    p.latest_frame_written.set(if late { 1152 } else { 1280 });
    let d: f32 = any("delay_frames", 0, ((size - 1) * N) as f64);
    c.param(0, &[d / SR]);
    check("delay: goes on", c.process(&mut p, &[vec![]]));
    let cycle = late || before;
    check("delay: cycle is remembered", p.in_cycle == cycle);
    check("delay: moves to the next block", p.index == (index + 1) % size);
    let d = if cycle && d < N as f32 { N as f32 } else { d };
    judge(&c, &b, index, |_| d);
    check("delay: line is not modified", r.borrow().iter().zip(&b).all(|(q, b)| values(q).len() == b.len()));
}

fn read_arate() {
    let (size, ch) = (3, 1);
    let index = pick("index", 0, size as i64 - 1) as usize;
    let mut c = Call::new(1);
    c.frame = 1280;
    let (r, b) = ring(&c, size, ch);
    let mut p = reader(&r, index);
    p.in_cycle = index == 1;
    p.latest_frame_written.set(1280);
    let cycle = p.in_cycle;
    let f = [[0, 63], [127, 1], [64, 126]][index][pick("frame", 0, 1) as usize];
    let mut d: Vec<f32> = (0..N).map(|i| ((i * 61 + 3) % 257) as f32 - ((i % 4) as f32) * 0.25).map(|v| if v < 0. { 0. } else { v }).collect();
    d[f] = any("delay_frames", 0, 256);
    c.param(0, &d.iter().map(|v| *v / SR).collect::<Vec<f32>>());
    check("delay: goes on", c.process(&mut p, &[vec![]]));
    judge(&c, &b, index, |i| if cycle && d[i] < N as f32 { N as f32 } else { d[i] });
}

// the block after the last one written is silence, one turn later the line is empty
fn read_end() {
    let size = pick("quanta", 2, 4) as usize;
    let index = pick("index", 0, size as i64 - 1) as usize;
    let last = pick("last", 0, size as i64 - 1) as usize;
    let seen = pick_bool("seen");
    let mut c = Call::new(1);
    c.frame = 1280;
    let (r, mut b) = ring(&c, size, pick("channels", 1, 2) as usize);
    let mut p = reader(&r, index);
    p.in_cycle = true;
    p.last_written_index.set(Some(last));
    p.last_written_index_checked = if seen { Some(last) } else { None };
    if seen || last != index {
        b[index] = vec![vec![0.; N]; b[0].len()];
    }
    let k = [128, 129, 192, 256, 300, 384][pick("delay", 0, 5) as usize];
    assume(k <= (size - 1) * N);
    c.param(0, &[k as f32 / SR]);
    let go_on = c.process(&mut p, &[vec![]]);
    check("delay: ends when the whole line has been read", go_on == !(seen && last == index));
    if go_on {
        check("delay: end is seen", p.last_written_index_checked == Some(last));
        check("delay: moves to the next block", p.index == (index + 1) % size);
    }
    let got = c.output(0);
    for ch in 0..b[0].len() {
        for i in 0..N {
            let want = delayed(&b, index, ch, i, k as f32);
            if ch < got.len() {
                check_eq("delay: tail, every frame", got[ch][i], want);
            } else {
                check_eq("delay: tail, missing channels are silent", want, 0.);
            }
        }
    }
    let left = r.borrow();
    for k in 0..size {
        check_block("delay: what is left in the line", &values(&left[k]), &b[k]);
    }
}

fn write() {
    let size = pick("quanta", 1, 3) as usize;
    let index = pick("index", 0, size as i64 - 1) as usize;
    let ch = [1, 2, 4, 6][pick("channels", 0, 3) as usize];
    let new = [0, 1, 2, 4, 6][pick("input", 0, 4) as usize];
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 1) as usize * 2);
    c.frame = 1280;
    let (r, b) = ring(&c, size, ch);
    let (frame, last) = (Rc::new(Cell::new(u64::MAX)), Rc::new(Cell::new(None)));
    let mut w = DelayWriter { ring_buffer: Rc::clone(&r), index, latest_frame_written: Rc::clone(&frame), last_written_index: Rc::clone(&last) };
    let x: Block = (0..new).map(|k| any_block(&format!("x{}", k))).collect();
    check("delay: no tail of the writer", !c.process(&mut w, &[x.clone()]));
    check("delay: writer outputs nothing", c.outputs[0].is_silent());
    check("delay: frame is recorded", frame.get() == 1280);
    check("delay: moves to the next block", w.index == (index + 1) % size);
    let got = r.borrow().iter().map(values).collect::<Vec<_>>();
    check("delay: line keeps its size", got.len() == size);
    for k in 0..size {
        let want = if k != index {
            spec_mix_block(&b[k], new.max(1), ChannelInterpretation::Speakers)
        } else if new == 0 {
            vec![vec![0.; N]]
        } else {
            x.clone()
        };
        check_block("delay: line", &got[k], &want);
    }
    check("delay: writer is there", last.get().is_none());
    drop(w);
    check("delay: last block", last.get() == Some(index));
}

fn fresh() {
    let size = pick("quanta", 2, 4) as usize;
    let mut c = Call::new(1);
    c.stale(pick("stale", 0, 1) as usize * 2);
    c.frame = 128;
    let r: Ring = Rc::new(RefCell::new(Vec::with_capacity(size)));
    let mut p = reader(&r, 0);
    let d = [0., 1., 128., 200.][pick("delay", 0, 3) as usize];
    assume(d <= ((size - 1) * N) as f64);
    c.param(0, &[d as f32 / SR]);
    if pick_bool("writer_first") {
        p.latest_frame_written.set(128);
        let mut w = DelayWriter { ring_buffer: Rc::clone(&r), index: 0, latest_frame_written: Rc::clone(&p.latest_frame_written), last_written_index: Rc::new(Cell::new(None)) };
        let x: Block = vec![pos_signal("x", 1, N)[0].clone()];
        c.process(&mut w, &[x.clone()]);
        c.frame = 128;
        c.process(&mut p, &[vec![]]);
        let b: Vec<Block> = (0..size).map(|k| if k == 0 { x.clone() } else { vec![vec![0.; N]] }).collect();
        let got = c.output(0);
        for i in 0..N {
            check_eq("delay: first quantum", got[0][i], delayed(&b, 0, 0, i, d as f32));
        }
    } else {
        c.process(&mut p, &[vec![]]);
        check("delay: nothing yet", c.output(0).iter().all(|c| c.iter().all(|v| is_zero(*v))));
    }
    check("delay: line of silence", r.borrow().len() == size);
}
