use symrt::Sym;
pub fn abs(a: Sym, b: Sym, t: Sym) -> bool {
    (a - b).abs() <= t
}
pub fn abs_all(a: &[Sym], b: &[Sym], t: Sym) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (*x - *y).abs() <= t)
}
#[macro_export]
macro_rules! float_eq {
    ($a:expr, $b:expr, abs <= $t:expr) => { $crate::abs($a, $b, $t) };
    ($a:expr, $b:expr, abs_all <= $t:expr) => { $crate::abs_all($a, $b, $t) };
}
#[macro_export]
macro_rules! float_ne {
    ($($t:tt)*) => { !$crate::float_eq!($($t)*) };
}
