use crate::context::{BaseAudioContext, OfflineAudioContext};
use crate::media_streams::{MediaStream, MediaStreamTrack, MediaStreamTrackState};
use crate::node::*;
use crate::vc_lib__common::*;
use crate::{AudioBuffer, FallibleBuffer};
use std::sync::{Arc, Mutex};
use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "media_source", target: "MediaStreamAudioSourceNode, MediaStreamTrackAudioSourceNode", body: source },
        Contract { name: "media_shared", target: "two source nodes of one stream", body: shared },
        Contract { name: "media_destination", target: "MediaStreamAudioDestinationNode::stream", body: destination },
    ]
}

// buffers of any length back to back, silence afterwards
fn source() {
    let c = ctx(2, 4 * N);
    let ch = pick("channels", 1, 2) as usize;
    let len = [1, 50, 127, 128, 129, 200, 300, 400][pick("length", 0, 7) as usize];
    let other = [64, 128, 131][pick("length of the second", 0, 2) as usize];
    let x = any_signal("x", ch, len);
    let y = any_signal("y", ch, other);
    let buffers: Vec<FallibleBuffer> = vec![Ok(AudioBuffer::from(x.clone(), SR)), Ok(AudioBuffer::from(y.clone(), SR))];
    let track = MediaStreamTrack::from_iter(buffers);
    if pick_bool("track node") {
        track_node(&c, &track).connect(&c.destination());
    } else {
        MediaStreamAudioSourceNode::new(&c, MediaStreamAudioSourceOptions { media_stream: &MediaStream::from_tracks(vec![track.clone()]) }).connect(&c.destination());
    }
    check("media: not played yet", track.ready_state() == MediaStreamTrackState::Live);
    let z = render(c);
    for j in 0..2 {
        let k = j.min(ch - 1);
        for i in 0..4 * N {
            let want = if i < len {
                x[k][i]
            } else if i < len + other {
                y[k][i - len]
            } else {
                0.
            };
            check_eq("media: every frame once", z[j][i], want);
        }
    }
    check("media: ended", (track.ready_state() == MediaStreamTrackState::Ended) == (len + other < 4 * N));
}

fn shared() {
    let c = ctx(2, 3 * N);
    let x = any_signal("x", 1, 2 * N);
    let buffers: Vec<FallibleBuffer> = (0..2).map(|q| Ok(AudioBuffer::from(vec![x[0][q * N..(q + 1) * N].to_vec()], SR))).collect();
    let track = MediaStreamTrack::from_iter(buffers);
    let merger = c.create_channel_merger(2);
    merger.connect(&c.destination());
    track_node(&c, &track).connect_from_output_to_input(&merger, 0, 0);
    track_node(&c, &track).connect_from_output_to_input(&merger, 0, 1);
    let y = render(c);
    for j in 0..2 {
        for i in 0..3 * N {
            check_eq("media: both hear the stream", y[j][i], if i < 2 * N { x[0][i] } else { 0. });
        }
    }
}

fn destination() {
    let mut c = ctx(1, 4 * N);
    let ch = pick("channels", 1, 2) as usize;
    let x = any_signal("x", ch, 4 * N);
    let src = feed_signal(&c, &x);
    let dest = MediaStreamAudioDestinationNode::new(&c, Default::default());
    src.connect(&dest);
    check("media: no outputs", dest.number_of_outputs() == 0 && dest.number_of_inputs() == 1);
    let got: Arc<Mutex<Vec<AudioBuffer>>> = Default::default();
    let skip = pick("first read after quantum", 1, 3) as usize;
    for q in skip..4 {
        let log = Arc::clone(&got);
        let stream = dest.stream().clone();
        // the iterator of the track starts where the stream is
        c.suspend_sync((q * N) as f64 / SR as f64, move |_| {
            let mut it = stream.get_tracks()[0].iter();
            if let Some(Ok(b)) = it.next() {
                log.lock().unwrap().push(b);
            }
            if log.lock().unwrap().len() > 1 {
                if let Some(Ok(b)) = it.next() {
                    log.lock().unwrap().pop();
                    log.lock().unwrap().push(b);
                }
            }
        });
    }
    run(c);
    let got = got.lock().unwrap();
    check("media: one buffer per read", got.len() == 4 - skip);
    for (n, b) in got.iter().enumerate() {
        let q = skip + n - 1;
        check("media: shape", b.number_of_channels() == ch && b.length() == N && b.sample_rate() == SR);
        for k in 0..ch {
            for i in 0..N {
                check_eq("media: the latest quantum", b.get_channel_data(k)[i], x[k][q * N + i]);
            }
        }
    }
}

fn track_node(c: &OfflineAudioContext, track: &MediaStreamTrack) -> MediaStreamTrackAudioSourceNode {
    MediaStreamTrackAudioSourceNode::new(c, MediaStreamTrackAudioSourceOptions { media_stream_track: track })
}
