use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "buffer_copy_from", target: "AudioBuffer::copy_from_channel / copy_from_channel_with_offset", body: copy_from },
        Contract { name: "buffer_copy_to", target: "AudioBuffer::copy_to_channel / copy_to_channel_with_offset", body: copy_to },
        Contract { name: "buffer_clone", target: "AudioBuffer clones, get_channel_data_mut", body: clone },
        Contract { name: "buffer_new", target: "AudioBuffer::new / from", body: new },
        Contract { name: "buffer_join", target: "AudioBuffer::extend / split_off", body: join },
        Contract { name: "buffer_convert", target: "AudioBuffer::resample", body: resample },
    ]
}

fn some(name: &str, ch: usize, len: usize) -> Vec<Vec<f32>> {
    (0..ch).map(|c| (0..len).map(|i| any(&format!("{}{}[{}]", name, c, i), -2, 2)).collect()).collect()
}

fn same(name: &str, got: &AudioBuffer, want: &[Vec<f32>], rate: f32) {
    check(&format!("{}: channels", name), got.number_of_channels() == want.len());
    check(&format!("{}: length", name), got.length() == want[0].len());
    check_eq(&format!("{}: sample rate", name), got.sample_rate(), rate);
    check_eq(&format!("{}: duration", name), got.duration() * rate as f64, want[0].len() as f64);
    for (c, w) in want.iter().enumerate() {
        let g = got.get_channel_data(c);
        check(&format!("{}: length of every channel", name), g.len() == w.len());
        for (a, b) in g.iter().zip(w) {
            check_eq(&format!("{}: every frame", name), *a, *b);
        }
    }
}

fn len(name: &str) -> usize {
    [0, 1, 2, 3, 5, 130][pick(name, 0, 5) as usize]
}

// max(0, min(Nb - k, Nf)) frames are copied, nothing else is modified
fn copy_from() {
    let ch = pick("channels", 1, 3) as usize;
    let n = [1, 2, 4, 129][pick("length", 0, 3) as usize];
    let x = some("x", ch, n);
    let b = AudioBuffer::from(x.clone(), 48000.);
    let which = pick("channel", 0, ch as i64 - 1) as usize;
    let d = len("destination");
    let offset = [0, 1, 2, 3, 4, 5, 128, 129, 130, usize::MAX][pick("offset", 0, 9) as usize];
    let old = some("old", 1, d).remove(0);
    let mut dst = old.clone();
    if offset == 0 && pick_bool("no offset") {
        b.copy_from_channel(&mut dst, which);
    } else {
        b.copy_from_channel_with_offset(&mut dst, which, offset);
    }
    for i in 0..d {
        let want = if offset < n && i < n - offset { x[which][offset + i] } else { old[i] };
        check_eq("copy from channel", dst[i], want);
    }
    same("copy from channel: buffer is not modified", &b, &x, 48000.);
}

fn copy_to() {
    let ch = pick("channels", 1, 3) as usize;
    let n = [1, 2, 4, 129][pick("length", 0, 3) as usize];
    let x = some("x", ch, n);
    let mut b = AudioBuffer::from(x.clone(), 48000.);
    let which = pick("channel", 0, ch as i64 - 1) as usize;
    let s = len("source");
    let offset = [0, 1, 2, 3, 4, 5, 128, 129, 130, usize::MAX][pick("offset", 0, 9) as usize];
    let src = some("src", 1, s).remove(0);
    if offset == 0 && pick_bool("no offset") {
        b.copy_to_channel(&src, which);
    } else {
        b.copy_to_channel_with_offset(&src, which, offset);
    }
    let mut want = x.clone();
    for i in 0..n {
        if i >= offset && i - offset < s {
            want[which][i] = src[i - offset];
        }
    }
    same("copy to channel", &b, &want, 48000.);
}

// a clone is a copy: whatever happens to one is not seen by the other
fn clone() {
    let ch = pick("channels", 1, 2) as usize;
    let x = some("x", ch, 3);
    let (mut a, mut want_a) = (AudioBuffer::from(x.clone(), 44100.), x.clone());
    if pick_bool("all zero") {
        a = AudioBuffer::new(AudioBufferOptions { number_of_channels: ch, length: 3, sample_rate: 44100. });
        want_a = vec![vec![0.; 3]; ch];
    }
    let (mut b, mut want_b) = (a.clone(), want_a.clone());
    let kept = b.clone();
    let want_kept = want_a.clone();
    for step in 0..2 {
        let first = pick_bool("first");
        let (buf, want) = if first { (&mut a, &mut want_a) } else { (&mut b, &mut want_b) };
        let c = if ch == 1 { 0 } else { pick("channel", 0, 1) as usize };
        let v: f32 = any(&format!("v{}", step), -2, 2);
        match pick("write", 0, 2) {
            0 => buf.copy_to_channel_with_offset(&[v], c, 1),
            1 => buf.get_channel_data_mut(c)[1] = v,
            _ => buf.channels_mut()[c].as_mut_slice()[1] = v,
        }
        want[c][1] = v;
    }
    same("clone: original", &a, &want_a, 44100.);
    same("clone: copy", &b, &want_b, 44100.);
    same("clone: untouched copy", &kept, &want_kept, 44100.);
}

fn new() {
    let ch = [0, 1, 2, 32, 33][pick("channels", 0, 4) as usize];
    let n = [0, 1, 200][pick("length", 0, 2) as usize];
    let rate = [2999., 3000., 44100., 768000., 768001.][pick("rate", 0, 4) as usize];
    let ok = ch >= 1 && ch <= 32 && rate >= 3000. && rate <= 768000.;
    let r = catch(|| AudioBuffer::new(AudioBufferOptions { number_of_channels: ch, length: n, sample_rate: rate }));
    check("new: rejects what the specification rejects, nothing else", r.is_ok() == (ok && n > 0));
    if let Ok(b) = r {
        same("new: silence", &b, &vec![vec![0.; n]; ch], rate);
    }
    let x = some("x", ch, n);
    let r = catch(|| AudioBuffer::from(x.clone(), rate));
    check("from: rejects what the specification rejects, nothing else", r.is_ok() == ok);
    if let Ok(b) = r {
        same("from", &b, &x, rate);
        let mut y = x.clone();
        y[ch - 1].push(0.5);
        check("from: channels of different length", catch(|| AudioBuffer::from(y, rate)).is_ok() == (ch == 1));
        let mut d = [0.; 1];
        check("copy: channel out of range", catch(|| b.copy_from_channel(&mut d, ch)).is_err());
        check("get: channel out of range", catch(|| b.get_channel_data(ch).len()).is_err());
    }
}

fn join() {
    let ch = pick("channels", 1, 2) as usize;
    let (n, m) = (len("first"), len("second"));
    let (x, y) = (some("x", ch, n), some("y", ch, m));
    let mut a = AudioBuffer::from(x.clone(), 48000.);
    let b = AudioBuffer::from(y.clone(), 48000.);
    let before = a.clone();
    a.extend(&b);
    let xy: Vec<Vec<f32>> = x.iter().zip(&y).map(|(p, q)| p.iter().chain(q).cloned().collect()).collect();
    same("extend", &a, &xy, 48000.);
    same("extend: the other is not modified", &b, &y, 48000.);
    same("extend: clones are not modified", &before, &x, 48000.);
    let at = pick("at", 0, 6).min((n + m) as i64) as usize;
    let tail = a.split_off(at);
    same("split off: head", &a, &xy.iter().map(|c| c[..at].to_vec()).collect::<Vec<_>>(), 48000.);
    same("split off: tail", &tail, &xy.iter().map(|c| c[at..].to_vec()).collect::<Vec<_>>(), 48000.);
}

// linear interpolation, the first and the last frame are kept
fn resample() {
    let ch = pick("channels", 1, 2) as usize;
    let n = [0, 1, 2, 3, 7][pick("length", 0, 4) as usize];
    let x = some("x", ch, n);
    let rate = [8000., 16000., 24000., 48000., 48000.05, 96000., 48048.][pick("rate", 0, 6) as usize];
    let mut b = AudioBuffer::from(x.clone(), 48000.);
    let before = b.clone();
    b.resample(rate);
    same("resample: clones are not modified", &before, &x, 48000.);
    let m = if rate == 48048. { n + (n > 0) as usize } else if rate > 48000. && rate < 49000. { n } else { (n * (rate as usize / 8000)).div_ceil(6) };
    let mut want = vec![vec![]; ch];
    for c in 0..ch {
        for i in 0..m {
            if m == n {
                want[c].push(x[c][i]);
                continue;
            }
            let last = if m > 1 { m - 1 } else { 1 };
            // i / (m - 1) of the way from the first to the last frame
            let (p, r) = (i * (n - 1) / last, (i * (n - 1)) % last);
            let k = r as f32 / last as f32;
            want[c].push(if r == 0 { x[c][p] } else { x[c][p] * (1. - k) + x[c][p + 1] * k });
        }
    }
    same("resample", &b, &want, rate);
}
