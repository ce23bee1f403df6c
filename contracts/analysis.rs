use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "analyser_ring", target: "AnalyserRingBuffer::write, read at every write position", body: ring },
        Contract { name: "analyser_time", target: "Analyser::get_float_time_domain_data, get_byte_time_domain_data", body: time },
        Contract { name: "analyser_spectrum", target: "Analyser::compute_fft, get_float_frequency_data", body: spectrum },
        Contract { name: "analyser_bytes", target: "Analyser::get_byte_frequency_data", body: bytes },
        Contract { name: "analyser_same_quantum", target: "Analyser frequency data within one render quantum", body: same_quantum },
        Contract { name: "analyser_sizes", target: "Analyser::set_fft_size", body: sizes },
        Contract { name: "analyser_window", target: "generate_blackman", body: window },
        Contract { name: "analyser_settings", target: "Analyser setters", body: settings },
    ]
}

const Q: usize = RENDER_QUANTUM_SIZE;

// the ring buffer holds the last samples written: x(p) at ring position p, the block on top of it
fn ring() {
    let at = pick("position", 0, (RING_BUFFER_SIZE / Q) as i64 - 1) as usize * Q;
    let r = AnalyserRingBuffer::new();
    for (p, v) in r.buffer.iter().enumerate() {
        v.store(p as f32, Ordering::Relaxed);
    }
    r.write_index.store(at, Ordering::SeqCst);
    let b: Vec<f32> = (0..Q).map(|i| any(&format!("x{}", i), -1, 1)).collect();
    r.write(&b);
    let len = [1, 32, 128, 129, 2048, 32768][if at % 4096 == 0 { pick("length", 0, 5) as usize } else { [3, 5][pick("length", 0, 1) as usize] }];
    let mut got = vec![7.; len + 2];
    r.read(&mut got, len);
    for i in 0..len {
        let back = len - i;
        let want = if back <= Q { b[Q - back] } else { ((at + RING_BUFFER_SIZE + Q - back) % RING_BUFFER_SIZE) as f32 };
        check_eq("analyser: the most recent frames in order", got[i], want);
    }
    check("analyser: no more than asked for", got[len] == 7. && got[len + 1] == 7.);
    let mut few = vec![7.; 5];
    r.read(&mut few, len);
    let n = len.min(5);
    for i in 0..n {
        check_eq("analyser: short array", few[i], b[Q - n + i]);
    }
}

fn played(a: &Analyser, blocks: &[Vec<f32>]) {
    let r = a.get_ring_buffer_clone();
    for b in blocks {
        r.write(b);
    }
}

fn time() {
    let size = [32, 128, 256][pick("size", 0, 2) as usize];
    let len = [0, 5, 32, 128, 200, 300][pick("length", 0, 5) as usize];
    let mut a = Analyser::new();
    a.set_fft_size(size);
    let x: Vec<f32> = (0..3 * Q).map(|i| (i as f32 - 200.) / 256.).collect();
    let mut x = x;
    let at = [2 * Q + 3, 3 * Q - 1][pick("frame", 0, 1) as usize];
    x[at] = match pick("range", 0, 3) {
        0 => any("v", -0.03, 0.03),
        1 => any("v", -4, -0.98),
        2 => any("v", 0.97, 4),
        _ => any("v", 0.5, 0.51),
    };
    played(&a, &x.chunks(Q).map(|c| c.to_vec()).collect::<Vec<_>>());
    let n = size.min(len);
    let mut f = vec![9.; len];
    a.get_float_time_domain_data(&mut f);
    let mut b = vec![77; len];
    a.get_byte_time_domain_data(&mut b);
    for i in 0..len {
        if i >= n {
            check("analyser: excess elements untouched", f[i] == 9. && b[i] == 77);
            continue;
        }
        let v = x[3 * Q - n + i];
        check_eq("analyser: waveform", f[i], v);
        let s = 128. * (1. + v);
        let got = b[i] as f32;
        if s < 0. {
            check("analyser: byte waveform clipped", b[i] == 0);
        } else if s >= 255. {
            check("analyser: byte waveform clipped", b[i] == 255);
        } else {
            check_le("analyser: byte waveform is rounded down", got, s);
            check_le("analyser: byte waveform by less than one", s - 1., got);
        }
    }
}

/// |X[k]| / n of the windowed block
fn magnitude(x: &[f32], k: usize) -> f32 {
    let n = x.len();
    let (mut re, mut im) = (0., 0.);
    for (i, v) in x.iter().enumerate() {
        let p = 2. * PI * i as f32 / n as f32;
        let w = *v * (0.42 - 0.5 * p.cos() + 0.08 * (2. * p).cos());
        let t = 2. * PI * ((i * k) % n) as f32 / n as f32;
        re += w * t.cos();
        im -= w * t.sin();
    }
    (re * re + im * im).sqrt() / n as f32
}

fn block(v: f32, at: usize) -> Vec<f32> {
    (0..Q).map(|i| if i == at { v } else { ((i * i + 3 * i) % 17) as f32 / 32. - 0.25 }).collect()
}

// one free sample in the last fft size frames, free previous value
fn spectrum() {
    let n = 32;
    let at = Q - [1, 17, 20, 32, 33][pick("sample", 0, 4) as usize];
    let tau = [0., 0.8, 0.5, 1.][pick("smoothing", 0, 3) as usize];
    let mut a = Analyser::new();
    a.set_fft_size(n);
    a.set_smoothing_time_constant(tau);
    let v: f32 = any("v", 1, 2);
    let x = block(v, at);
    played(&a, &[block(0.5, 0), x.clone()]);
    let last: f32 = any("last", 0.001, 1);
    for k in 0..n / 2 {
        a.last_fft_output[k] = last;
    }
    let len = [3, 16, 20][pick("length", 0, 2) as usize];
    let mut got = vec![1234.; len];
    a.get_float_frequency_data(&mut got, 1.);
    for k in 0..len {
        if k >= n / 2 {
            check("analyser: excess elements untouched", got[k] == 1234.);
            continue;
        }
        let m = magnitude(&x[Q - n..], k);
        let want = tau as f32 * last + (1. - tau as f32) * m;
        check_within("analyser: smoothed magnitude", a.last_fft_output[k], want, 0.00001);
        check_eq("analyser: decibel", got[k], 20. * a.last_fft_output[k].log10());
    }
}

fn bytes() {
    let n = 32;
    let (min, max) = [(-100., -30.), (-20., 0.), (-60.5, -10.25)][pick("range", 0, 2) as usize];
    let mut a = Analyser::new();
    a.set_fft_size(n);
    a.set_decibels(min, max);
    // already computed in this render quantum
    a.last_fft_time = 1.;
    let d: f32 = match pick("level", 0, 3) {
        0 => any("d", -120, -99),
        1 => any("d", -40, -39),
        2 => any("d", -15, -14),
        _ => any("d", -0.5, 20),
    };
    let v: f32 = 10f32.powf(d / 20.);
    let len = [1, 16, 20][pick("length", 0, 2) as usize];
    for k in 0..n / 2 {
        a.last_fft_output[k] = if k == 0 { v } else { k as f32 / 64. };
    }
    let mut got = vec![77; len];
    a.get_byte_frequency_data(&mut got, 1.);
    for k in 0..len {
        if k >= n / 2 {
            check("analyser: excess elements untouched", got[k] == 77);
            continue;
        }
        let db = 20. * a.last_fft_output[k].log10();
        let s = 255. * (db - min as f32) / (max - min) as f32;
        let b = got[k] as f32;
        if s <= 0. {
            check("analyser: below the range", got[k] == 0);
        } else if s >= 255.001 {
            check("analyser: above the range", got[k] == 255);
        } else {
            check_le("analyser: scaled and rounded down", b, s + 0.001);
            check_le("analyser: scaled by less than one", s - 1.001, b);
        }
    }
}

fn same_quantum() {
    let first = pick_bool("bytes first");
    let second = pick_bool("bytes then");
    let mut a = Analyser::new();
    a.set_fft_size(32);
    a.set_smoothing_time_constant(0.5);
    let v: f32 = if first || second { 1.5 } else { any("v", 1, 2) };
    let x = block(v, Q - 20);
    played(&a, &[x.clone()]);
    let read = |a: &mut Analyser, bytes: bool, t: f64| {
        if bytes {
            a.get_byte_frequency_data(&mut [0; 16], t);
        } else {
            a.get_float_frequency_data(&mut [0.; 16], t);
        }
    };
    read(&mut a, first, 0.25);
    let before = a.last_fft_output[3];
    check_within("analyser: first data", before, 0.5 * magnitude(&x[Q - 32..], 3), 0.00001);
    // not smoothed again within the quantum, even if there is more input
    if pick_bool("more input") {
        played(&a, &[block(0.75, 127)]);
    }
    read(&mut a, second, 0.25);
    check_eq("analyser: once per render quantum", a.last_fft_output[3], before);
    let y = block(0.125, 100);
    played(&a, &[y.clone()]);
    read(&mut a, second, [0.5, 0.][pick("time", 0, 1) as usize]);
    check_within("analyser: next render quantum", a.last_fft_output[3], 0.5 * before + 0.5 * magnitude(&y[Q - 32..], 3), 0.00001);
}

fn sizes() {
    let (n, m) = ([32, 64, 256, 2048][pick("from", 0, 3) as usize], [32, 64, 128, 512][pick("to", 0, 3) as usize]);
    let mut a = Analyser::new();
    a.set_fft_size(n);
    a.set_smoothing_time_constant(0.5);
    let x: Vec<f32> = (0..2048).map(|i| ((i * 7) % 31) as f32 / 16. - 1.).collect();
    played(&a, &x.chunks(Q).map(|c| c.to_vec()).collect::<Vec<_>>());
    a.get_float_frequency_data(&mut vec![0.; n / 2], 0.25);
    a.set_fft_size(m);
    check("analyser: bins", a.frequency_bin_count() == m / 2 && a.fft_size() == m);
    let mut got = vec![0.; m / 2];
    let same = pick_bool("same quantum");
    a.get_float_frequency_data(&mut got, if same { 0.25 } else { 0.5 });
    let factor = if n != m || same { 0.5 } else { 0.75 };
    for k in [0, 1, 5, m / 2 - 1] {
        check_within("analyser: computed for the new size", a.last_fft_output[k], factor * magnitude(&x[2048 - m..], k), 0.0001);
        check_within("analyser: reported for the new size", got[k], 20. * a.last_fft_output[k].log10(), 0.001);
    }
}

fn window() {
    let n = [32, 64, 2048][pick("size", 0, 2) as usize];
    let w: Vec<f32> = generate_blackman(n).collect();
    check("analyser: window length", w.len() == n);
    for i in 0..n {
        let p = 2. * PI * i as f32 / n as f32;
        check_within("analyser: blackman window", w[i], 0.42 - 0.5 * p.cos() + 0.08 * (2. * p).cos(), 0.00001);
    }
}

fn settings() {
    let mut a = Analyser::new();
    check("analyser: defaults", a.fft_size() == 2048 && a.frequency_bin_count() == 1024 && a.smoothing_time_constant() == 0.8 && a.min_decibels() == -100. && a.max_decibels() == -30.);
    let n = [0, 1, 16, 31, 32, 33, 48, 1024, 4096, 32768, 65536][pick("size", 0, 10) as usize];
    let ok = n == 32 || n == 1024 || n == 4096 || n == 32768;
    check("analyser: size is a power of two from 32 to 32768", catch(|| a.set_fft_size(n)).is_ok() == ok);
    check("analyser: size", a.fft_size() == if ok { n } else { 2048 });
    let tau: f64 = any("tau", -1, 2);
    let valid = tau >= 0. && tau <= 1.;
    check("analyser: smoothing in 0 to 1", catch(|| a.set_smoothing_time_constant(tau)).is_ok() == valid);
    check_eq("analyser: smoothing", a.smoothing_time_constant(), if valid { tau } else { 0.8 });
    let lo: f64 = any("min", -150, 0);
    let hi: f64 = any("max", -150, 0);
    let valid = lo < hi;
    check("analyser: min below max", catch(|| a.set_decibels(lo, hi)).is_ok() == valid);
    check_eq("analyser: min", a.min_decibels(), if valid { lo } else { -100. });
    check_eq("analyser: max", a.max_decibels(), if valid { hi } else { -30. });
}
