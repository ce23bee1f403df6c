use crate::context::AudioNodeId as Id;
use std::sync::{Arc, Mutex};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "event_history", target: "EventLoop::handle_pending_events, set_handler, clear_handler", body: history },
        Contract { name: "event_kinds", target: "EventLoop::handle_event, event types", body: kinds },
        Contract { name: "event_close", target: "EventLoop::handle_event, closing", body: close },
    ]
}

type Log = Arc<Mutex<Vec<(i64, usize)>>>;

fn event(kind: usize) -> EventDispatch {
    match kind {
        0 => EventDispatch::ended(Id(20)),
        1 => EventDispatch::ended(Id(21)),
        2 => EventDispatch::message(Id(20), Box::new(5_u8)),
        3 => EventDispatch::sink_change(),
        4 => EventDispatch::state_change(AudioContextState::Suspended),
        _ => EventDispatch::complete(AudioBuffer::from(vec![vec![0.; 1]], 8000.)),
    }
}

fn kind(n: usize) -> EventType {
    match n {
        0 => EventType::Ended(Id(20)),
        1 => EventType::Ended(Id(21)),
        2 => EventType::Message(Id(20)),
        3 => EventType::SinkChange,
        4 => EventType::StateChange,
        _ => EventType::Complete,
    }
}

/// a handler with a name; in its first run it does something with the handler of its event
fn handler(ev: &EventLoop, log: &Log, name: i64, once: bool, action: i64) -> EventHandler {
    let (ev, log) = (ev.clone(), Arc::clone(log));
    let mut runs = 0;
    let mut f = move |_: EventPayload| {
        log.lock().unwrap().push((name, runs));
        runs += 1;
        if runs == 1 {
            match action {
                1 => ev.clear_handler(kind(0)),
                2 => ev.set_handler(kind(0), handler(&ev, &log, name + 10, false, 0)),
                3 => ev.set_handler(kind(0), handler(&ev, &log, name + 10, true, 0)),
                4 => ev.set_handler(kind(1), handler(&ev, &log, name + 20, false, 0)),
                _ => (),
            }
        }
    };
    if once {
        EventHandler::Once(Box::new(f))
    } else {
        EventHandler::Multiple(Box::new(move |p| f(p)))
    }
}

// events and calls between them, against the handler table they describe
fn history() {
    let (s, r) = crossbeam_channel::unbounded();
    let ev = EventLoop::new(r);
    let log: Log = Default::default();
    let mut want: Vec<(i64, usize)> = vec![];
    // name, once, runs, action
    let mut table: [Option<(i64, bool, usize, i64)>; 2] = [None, None];
    let first = pick("first handler", 0, 2);
    let action = if first > 0 { pick("action", 0, 4) } else { 0 };
    if first > 0 {
        ev.set_handler(kind(0), handler(&ev, &log, 1, first == 2, action));
        table[0] = Some((1, first == 2, 0, action));
    }
    for step in 0..3 {
        match pick("between", 0, 3) {
            1 => {
                ev.clear_handler(kind(0));
                table[0] = None;
            }
            2 => {
                ev.set_handler(kind(0), handler(&ev, &log, 100 + step, false, 0));
                table[0] = Some((100 + step, false, 0, 0));
            }
            3 => {
                ev.set_handler(kind(0), handler(&ev, &log, 200 + step, true, 0));
                table[0] = Some((200 + step, true, 0, 0));
            }
            _ => (),
        }
        let n = pick("events", 0, 2) as usize;
        for k in [vec![0], vec![0, 1], vec![1, 0, 0]][n].iter().cloned() {
            s.send(event(k)).unwrap();
            if let Some((name, once, runs, action)) = table[k] {
                want.push((name, runs));
                if once {
                    table[k] = None;
                } else {
                    table[k] = Some((name, once, runs + 1, action));
                }
                if runs == 0 {
                    match action {
                        1 => table[0] = None,
                        2 => table[0] = Some((name + 10, false, 0, 0)),
                        3 => table[0] = Some((name + 10, true, 0, 0)),
                        4 => table[1] = Some((name + 20, false, 0, 0)),
                        _ => (),
                    }
                }
            }
        }
        check("events: pending ones are handled", ev.handle_pending_events());
        check("events: handled by the handlers in effect, in order", *log.lock().unwrap() == want);
        check("events: only once", !ev.handle_pending_events() && *log.lock().unwrap() == want);
    }
}

// every event reaches the handler of its type and node, and no other
fn kinds() {
    let (s, r) = crossbeam_channel::unbounded();
    let ev = EventLoop::new(r);
    let log: Log = Default::default();
    let a = pick("type", 0, 5) as usize;
    let b = pick("second type", 0, 5) as usize;
    let without = pick("no handler for", 0, 6) as usize;
    for n in 0..6 {
        if n != without {
            ev.set_handler(kind(n), handler(&ev, &log, n as i64, false, 0));
        }
    }
    for k in [a, b, a] {
        s.send(event(k)).unwrap();
    }
    ev.handle_pending_events();
    let mut want = vec![];
    for (i, k) in [a, b, a].into_iter().enumerate() {
        if k != without {
            want.push((k as i64, if a == b { i } else { (i == 2) as usize }));
        }
    }
    check("events: by type and node", *log.lock().unwrap() == want);
}

fn close() {
    let (s, r) = crossbeam_channel::unbounded();
    drop(s);
    let ev = EventLoop::new(r);
    let log: Log = Default::default();
    ev.set_handler(kind(4), handler(&ev, &log, 4, false, 0));
    let state = [AudioContextState::Suspended, AudioContextState::Running, AudioContextState::Closed][pick("state", 0, 2) as usize];
    let r = ev.handle_event(EventDispatch::state_change(state));
    check("events: ends with the context", r.is_break() == (state == AudioContextState::Closed));
    check("events: the last one is handled too", *log.lock().unwrap() == vec![(4, 0)]);
    check("events: others go on", ev.handle_event(EventDispatch::ended(Id(20))).is_continue());
}
