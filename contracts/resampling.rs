use symrt::*;

pub(crate) fn contracts() -> Vec<Contract> {
    vec![
        Contract { name: "resampler_step", target: "Resampler::next from any remainder", body: step },
        Contract { name: "resampler_rate", target: "Resampler::next with other sample rates", body: rate },
        Contract { name: "resampler_error", target: "Resampler::next, errors", body: error },
    ]
}

type Item = Result<AudioBuffer, Box<dyn Error + Send + Sync>>;

const LEN: usize = 5;
const RATE: f32 = 32768.;

fn buffer(name: &str, ch: usize, len: usize, rate: f32) -> AudioBuffer {
    AudioBuffer::from((0..ch).map(|c| (0..len).map(|i| any(&format!("{}{}[{}]", name, c, i), -1, 1)).collect()).collect(), rate)
}

fn append(all: &mut Vec<Vec<f32>>, b: &AudioBuffer) {
    for (c, d) in all.iter_mut().enumerate() {
        d.extend_from_slice(b.get_channel_data(c));
    }
}

// result ++ remainder ++ rest of the input = remainder before ++ input
fn step() {
    let ch = pick("channels", 1, 2) as usize;
    let held = pick("remainder", 0, 2 * LEN as i64 + 1) as usize;
    let mut all = vec![vec![]; ch];
    let remainder = if held > 0 { Some(buffer("r", ch, held, RATE)) } else { None };
    if let Some(b) = &remainder {
        append(&mut all, b);
    }
    let n = pick("buffers", 0, 3) as usize;
    let mut input: Vec<Item> = vec![];
    for i in 0..n {
        let len = [1, 2, 5, 7, 12][pick("length", 0, 4) as usize];
        let b = buffer(&format!("b{}", i), ch, len, RATE);
        append(&mut all, &b);
        input.push(Ok(b));
    }
    let mut r = Resampler { sample_rate: RATE, sample_len: LEN, input: input.into_iter(), buffer: remainder };
    let got = r.next();
    check("resampler: ends with its input", got.is_none() == (held == 0 && n == 0));
    let got = match got {
        Some(Ok(b)) => b,
        Some(Err(_)) => return check("resampler: no errors", false),
        None => return,
    };
    check("resampler: shape", got.length() == LEN && got.number_of_channels() == ch && got.sample_rate() == RATE);
    let mut rest: Vec<Vec<f32>> = vec![vec![]; ch];
    if let Some(b) = r.buffer.take() {
        check("resampler: remainder is not empty", b.length() > 0);
        append(&mut rest, &b);
    }
    for b in r.input {
        append(&mut rest, &b.unwrap());
    }
    let total = all[0].len();
    for c in 0..ch {
        for i in 0..LEN {
            check_eq("resampler: next frames, then silence", got.get_channel_data(c)[i], if i < total { all[c][i] } else { 0. });
        }
        check("resampler: nothing lost", rest[c].len() == total.max(LEN) - LEN);
        for (i, v) in rest[c].iter().enumerate() {
            check_eq("resampler: the rest in order", *v, all[c][LEN + i]);
        }
    }
}

// as if every buffer had been resampled before
fn rate() {
    let ch = pick("channels", 1, 2) as usize;
    let mut input: Vec<Item> = vec![];
    let mut all = vec![vec![]; ch];
    for i in 0..pick("buffers", 1, 2) as usize {
        let len = [1, 4, 9][pick("length", 0, 2) as usize];
        let rate = [RATE, RATE / 2., RATE * 2., RATE * 0.75][pick("rate", 0, 3) as usize];
        let mut b = buffer(&format!("b{}", i), ch, len, rate);
        input.push(Ok(b.clone()));
        b.resample(RATE);
        append(&mut all, &b);
    }
    let mut at = 0;
    let r = Resampler::new(RATE, LEN, input.into_iter());
    for b in r {
        let b = b.unwrap();
        check("resampler: shape", b.length() == LEN && b.number_of_channels() == ch && b.sample_rate() == RATE);
        for c in 0..ch {
            for i in 0..LEN {
                check_eq("resampler: resampled frames in order", b.get_channel_data(c)[i], if at + i < all[c].len() { all[c][at + i] } else { 0. });
            }
        }
        at += LEN;
    }
    check("resampler: all frames", at >= all[0].len() && at < all[0].len() + LEN);
}

fn error() {
    let at = pick("error at", 0, 2) as usize;
    let len = [2, 5][pick("length", 0, 1) as usize];
    let input: Vec<Item> = (0..3).map(|i| if i == at { Err("broken".into()) } else { Ok(buffer(&format!("b{}", i), 1, len, RATE)) }).collect();
    let mut r = Resampler::new(RATE, LEN, input.into_iter());
    let before = if len == LEN { at } else { 0 };
    for i in 0..before {
        match r.next() {
            Some(Ok(b)) => check("resampler: before the error", b.length() == LEN && i < at),
            _ => check("resampler: complete before the error", false),
        }
    }
    check("resampler: the error is reported", matches!(r.next(), Some(Err(_))));
    let rest = r.map(|b| b.map(|b| b.length() == LEN).unwrap_or(false)).all(|ok| ok);
    check("resampler: goes on afterwards", rest);
}
