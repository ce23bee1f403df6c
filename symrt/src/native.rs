//! Native mode: the unmodified crate, machine floats. Inputs come from a counterexample
//! (replay) or from a seeded generator.
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Failure {
    pub name: String,
    pub detail: String,
}

#[derive(Default)]
struct St {
    given: Option<HashMap<String, f64>>,
    used: HashMap<String, u32>,
    log: Vec<(String, f64)>,
    rng: u64,
    fails: Vec<Failure>,
    checks: u64,
    dead: bool,
    last_panic: Option<String>,
    stray: Option<String>,
    depth: u32,
}

thread_local! {
    static S: RefCell<St> = RefCell::new(St::default());
}

struct Skip;

pub trait Real: Copy {
    fn of(x: f64) -> Self;
}
impl Real for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
}
impl Real for f64 {
    fn of(x: f64) -> f64 {
        x
    }
}

fn next(s: &mut St) -> u64 {
    s.rng = s.rng.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = s.rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn key(s: &mut St, name: &str) -> String {
    let k = s.used.entry(name.to_string()).or_insert(0);
    *k += 1;
    if *k == 1 {
        name.to_string()
    } else {
        format!("{}#{}", name, k)
    }
}

fn value(name: &str, lo: f64, hi: f64) -> f64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let k = key(&mut s, name);
        let v = match &s.given {
            Some(g) => g.get(&k).cloned().unwrap_or(lo + (hi - lo) * 0.37).clamp(lo, hi),
            None => {
                let (l, h) = (lo.max(-1e6), hi.min(1e6));
                let r = next(&mut s);
                let u = (next(&mut s) >> 11) as f64 / (1u64 << 53) as f64;
                match r % 8 {
                    0 => l,
                    1 => h,
                    // dyadic grid: representable, hits equalities
                    2 | 3 => (l + (h - l) * ((u * 8.).round() / 8.)).clamp(l, h),
                    _ => l + (h - l) * u,
                }
            }
        };
        s.log.push((k, v));
        v
    })
}

pub fn any<T: Real>(name: &str, lo: impl Into<f64>, hi: impl Into<f64>) -> T {
    T::of(value(name, lo.into(), hi.into()))
}

pub fn pick(name: &str, lo: i64, hi: i64) -> i64 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let k = key(&mut s, &format!("pick:{}", name));
        let v = match &s.given {
            Some(g) => (g.get(&k).cloned().unwrap_or(lo as f64) as i64).clamp(lo, hi),
            None => lo + (next(&mut s) % ((hi - lo + 1) as u64)) as i64,
        };
        s.log.push((k, v as f64));
        v
    })
}

pub fn pick_bool(name: &str) -> bool {
    pick(name, 0, 1) == 1
}

pub fn is_zero(x: impl Into<f64>) -> bool {
    x.into() == 0.
}

pub fn assume(b: bool) {
    if !b {
        S.with(|s| s.borrow_mut().dead = true);
        std::panic::panic_any(Skip)
    }
}

pub fn check(name: &str, b: bool) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.checks += 1;
        if !b {
            s.fails.push(Failure { name: name.into(), detail: "evaluates to false".into() });
        }
    })
}

pub fn check_eq(name: &str, a: impl Into<f64>, b: impl Into<f64>) {
    check_close(name, a, b, 1e-4)
}

pub fn check_close(name: &str, a: impl Into<f64>, b: impl Into<f64>, tol: f64) {
    let (a, b) = (a.into(), b.into());
    let ok = a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * (1. + a.abs().max(b.abs()));
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.checks += 1;
        if !ok {
            s.fails.push(Failure { name: name.into(), detail: format!("{:?} expected {:?}", a, b) });
        }
    })
}

pub fn check_within(name: &str, a: impl Into<f64>, b: impl Into<f64>, eps: impl Into<f64>) {
    let (a, b, eps) = (a.into(), b.into(), eps.into());
    let tol = eps + 1e-4 * (1. + a.abs().max(b.abs()));
    check_close(name, a, b, tol / (1. + a.abs().max(b.abs())))
}

pub fn check_le(name: &str, a: impl Into<f64>, b: impl Into<f64>) {
    let (a, b) = (a.into(), b.into());
    let ok = a <= b + 1e-4 * (1. + a.abs().max(b.abs()));
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.checks += 1;
        if !ok {
            s.fails.push(Failure { name: name.into(), detail: format!("{:?} expected <= {:?}", a, b) });
        }
    })
}

fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    S.with(|s| s.borrow_mut().depth += 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    S.with(|s| s.borrow_mut().depth -= 1);
    if S.with(|s| s.borrow().dead) {
        std::panic::panic_any(Skip)
    }
    r.map_err(payload)
}

pub fn expect_panics<R>(f: impl FnOnce() -> R) -> R {
    S.with(|s| s.borrow_mut().depth += 1);
    let r = f();
    S.with(|s| s.borrow_mut().depth -= 1);
    r
}

fn msg_of(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn label(_name: &str, _v: impl std::fmt::Debug) {}

pub const NATIVE: bool = true;

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        S.with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                if s.depth == 0 && !s.dead && s.stray.is_none() && info.payload().downcast_ref::<Skip>().is_none() {
                    s.stray = Some(format!("{} at {}", msg_of(info.payload()), loc));
                }
                s.last_panic = Some(loc);
            }
        });
    }));
}

pub struct Run {
    pub checks: u64,
    pub skipped: bool,
    pub fails: Vec<Failure>,
    pub inputs: Vec<(String, f64)>,
}

pub fn run_once(c: crate::Contract, given: Option<HashMap<String, f64>>, seed: u64) -> Run {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            S.with(|s| *s.borrow_mut() = St { given, rng: seed, ..Default::default() });
            let r = std::panic::catch_unwind(c.body);
            S.with(|s| {
                let mut s = s.borrow_mut();
                if let Err(e) = r {
                    if !s.dead {
                        let d = format!("{} ({})", payload(e), s.last_panic.clone().unwrap_or_default());
                        s.fails.push(Failure { name: "no-panic".into(), detail: d });
                    }
                } else if let Some(d) = s.stray.clone() {
                    s.fails.push(Failure { name: "no-panic".into(), detail: format!("swallowed panic: {}", d) });
                }
                Run {
                    checks: s.checks,
                    skipped: s.dead,
                    fails: if s.dead { vec![] } else { s.fails.clone() },
                    inputs: s.log.clone(),
                }
            })
        })
        .unwrap()
        .join()
        .unwrap()
}
