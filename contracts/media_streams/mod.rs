use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "track_order", target: "MediaStreamTrackIter::next, one consumer", body: order },
        Contract { name: "track_shared", target: "MediaStreamTrackIter::next, several consumers", body: shared },
    ]
}

fn buffer(v: f32) -> AudioBuffer {
    AudioBuffer::from(vec![vec![v]], 32768.)
}

// the provider is asked once per buffer, and not before the buffer is needed
fn order() {
    let n = pick("buffers", 0, 3) as usize;
    let bad = pick("error at", 0, 3) as usize;
    let x: Vec<f32> = (0..n).map(|i| any(&format!("x{}", i), -1, 1)).collect();
    let asked = Arc::new(AtomicU64::new(0));
    let count = Arc::clone(&asked);
    let values = x.clone();
    let provider = (0..n).map(move |i| {
        count.fetch_add(1, Ordering::Relaxed);
        if i == bad {
            Err("broken".into())
        } else {
            Ok(buffer(values[i]))
        }
    });
    let track = MediaStreamTrack::from_iter(provider);
    let stream = MediaStream::from_tracks(vec![track.clone()]);
    let mut it = stream.get_tracks()[0].iter();
    let close = pick("closed after", 0, 4) as usize;
    for i in 0..n + 2 {
        if i == close {
            track.close();
        }
        check("track: live until its end was met", track.ready_state() == if i > n.min(close) { MediaStreamTrackState::Ended } else { MediaStreamTrackState::Live });
        check("track: asked for what was needed", asked.load(Ordering::Relaxed) as usize == i.min(n).min(close));
        match it.next() {
            Some(Ok(b)) => {
                check("track: buffers of the provider", i < n && i < close && i != bad && b.number_of_channels() == 1 && b.length() == 1);
                check_eq("track: in order", b.get_channel_data(0)[0], x[i.min(n - 1)]);
            }
            Some(Err(e)) => check("track: errors in their place", i == bad && i < close && e.to_string() == "broken"),
            None => check("track: over", i >= n || i >= close),
        }
    }
}

// consumers that are late continue with the latest buffer; nobody gets one twice or out of order
fn shared() {
    let x: Vec<f32> = (0..3).map(|i| any(&format!("x{}", i), -1, 1)).collect();
    let values: Vec<FallibleBuffer> = x.iter().map(|v| Ok(buffer(*v))).collect();
    let track = MediaStreamTrack::from_iter(values);
    let mut its: Vec<Box<dyn Iterator<Item = FallibleBuffer>>> = vec![Box::new(track.iter()), Box::new(track.clone().iter())];
    let mut seen = vec![0, 0];
    let mut latest = 0;
    let mut ended = false;
    for _ in 0..6 {
        let k = pick("consumer", 0, 2) as usize;
        if k == 2 {
            // another one joins with the buffer being played
            if its.len() < 3 {
                its.push(Box::new(track.iter()));
                seen.push(0);
            }
            continue;
        }
        let k = its.len() - 1 - k.min(its.len() - 1);
        let got = its[k].next();
        if !ended && seen[k] == latest {
            if latest == 3 {
                ended = true;
            } else {
                latest += 1;
            }
        }
        match got {
            Some(Ok(b)) => {
                check("track: live", !ended);
                check_eq("track: the latest buffer", b.get_channel_data(0)[0], x[latest.max(1) - 1]);
                seen[k] = latest;
            }
            Some(Err(_)) => check("track: no errors", false),
            None => check("track: over for all consumers", ended),
        }
    }
}
