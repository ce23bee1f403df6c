use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "wave_table", target: "PeriodicWave::generate_wavetable", body: table },
        Contract { name: "wave_normalize", target: "PeriodicWave::normalize", body: normalize },
        Contract { name: "wave_new", target: "PeriodicWave::new", body: new },
    ]
}

impl PeriodicWave {
    pub(crate) fn vc_from(t: Vec<f32>) -> Self {
        PeriodicWave { wavetable: Arc::new(t) }
    }
}

fn coefs(name: &str, n: usize) -> Vec<f32> {
    (0..n).map(|i| any(&format!("{}{}", name, i), -1., 1.)).collect()
}

/// sum over the harmonics, the constant term left out
fn series(re: &[f32], im: &[f32], i: usize, size: usize) -> f32 {
    let mut y = 0.;
    for k in 1..re.len() {
        let a = 2. * PI * i as f32 / size as f32 * k as f32;
        y += re[k] * a.cos() + im[k] * a.sin();
    }
    y
}

fn table() {
    let n = pick("coefficients", 2, 6) as usize;
    let size = [1, 4, 64, 100][pick("size", 0, 3) as usize];
    let (re, im) = (coefs("re", n), coefs("im", n));
    let t = PeriodicWave::generate_wavetable(&re, &im, false, size);
    check("wave: table size", t.len() == size);
    for i in 0..size {
        check_within("wave: series", t[i], series(&re, &im, i, size), 0.00001);
    }
}

// the greatest absolute value becomes 1, the shape is kept; nothing to do for zeros
fn normalize() {
    let n = pick("size", 1, 4) as usize;
    let x = coefs("x", n);
    let mut y = x.clone();
    PeriodicWave::normalize(&mut y);
    let mut m = 0.;
    for v in &x {
        if v.abs() > m {
            m = v.abs();
        }
    }
    for (a, b) in x.iter().zip(&y) {
        check_eq("wave: shape is kept", *b * m, if m > 0. { *a } else { 0. });
        check_le("wave: at most 1", b.abs(), 1.);
    }
    if m > 0. {
        check("wave: peak is 1", y.iter().any(|v| v.abs() >= 0.999999));
    }
}

fn new() {
    let c = crate::vc_lib__common::ctx(1, 128);
    let (re, im) = (coefs("re", 3), coefs("im", 3));
    let (real, imag) = match pick("given", 0, 3) {
        0 => (Some(re.clone()), Some(im.clone())),
        1 => (Some(re.clone()), None),
        2 => (None, Some(im.clone())),
        _ => (None, None),
    };
    let zero = vec![0.; 3];
    let (r2, i2) = match (&real, &imag) {
        (None, None) => (zero.clone(), vec![0., 1., 0.]),
        _ => (real.clone().unwrap_or(zero.clone()), imag.clone().unwrap_or(zero)),
    };
    let w = PeriodicWave::new(&c, PeriodicWaveOptions { real, imag, disable_normalization: true });
    let t = w.as_slice();
    let size = t.len();
    check("wave: at least 8192 points", size >= 8192);
    for i in (0..size).step_by(61) {
        check_within("wave: series", t[i], series(&r2, &i2, i, size), 0.0001);
    }
}
