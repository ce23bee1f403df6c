//! idealised: over the reals "almost equal" is equality
use symrt::{lit, Sym};
pub fn equal(a: Sym, b: Sym) -> bool {
    if a.is_concrete() && b.is_concrete() {
        let (x, y) = (a.concrete().unwrap(), b.concrete().unwrap());
        if x == y {
            return true;
        }
        return (x - y).abs() <= 1.4901161193847656e-8 * x.abs().max(y.abs());
    }
    a == b
}
pub fn zero(a: Sym) -> bool {
    if let Some(x) = a.concrete() {
        return x.abs() <= 1.4901161193847656e-8;
    }
    a == lit(0.)
}
