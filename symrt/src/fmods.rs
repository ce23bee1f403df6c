//! constants of the float types, as seen by the verified code
pub mod f32 {
    use crate::{lit, Sym};
    pub const MAX: Sym = lit(core::primitive::f32::MAX as core::primitive::f64);
    pub const MIN: Sym = lit(core::primitive::f32::MIN as core::primitive::f64);
    pub const EPSILON: Sym = lit(core::primitive::f32::EPSILON as core::primitive::f64);
    pub const MIN_POSITIVE: Sym = lit(core::primitive::f32::MIN_POSITIVE as core::primitive::f64);
    pub const INFINITY: Sym = lit(core::primitive::f64::INFINITY);
    pub const NEG_INFINITY: Sym = lit(core::primitive::f64::NEG_INFINITY);
    pub const NAN: Sym = lit(core::primitive::f64::NAN);
    pub mod consts {
        pub use crate::consts::*;
    }
}
pub mod f64 {
    use crate::{lit, Sym};
    pub const MAX: Sym = lit(core::primitive::f64::MAX);
    pub const MIN: Sym = lit(core::primitive::f64::MIN);
    pub const EPSILON: Sym = lit(core::primitive::f64::EPSILON);
    pub const MIN_POSITIVE: Sym = lit(core::primitive::f64::MIN_POSITIVE);
    pub const INFINITY: Sym = lit(core::primitive::f64::INFINITY);
    pub const NEG_INFINITY: Sym = lit(core::primitive::f64::NEG_INFINITY);
    pub const NAN: Sym = lit(core::primitive::f64::NAN);
    pub mod consts {
        pub use crate::consts::*;
    }
}
pub mod consts {
    use crate::{lit, Sym};
    macro_rules! c { ($($n:ident),*) => { $( pub const $n: Sym = lit(std::f64::consts::$n); )* } }
    c!(PI, TAU, E, SQRT_2, FRAC_1_SQRT_2, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, FRAC_1_PI, FRAC_2_PI, FRAC_2_SQRT_PI, LN_2, LN_10, LOG2_E, LOG10_E, LOG2_10, LOG10_2);
}

