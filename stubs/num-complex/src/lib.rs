//! complex numbers over Sym (same definitions as num-complex 0.4)
use std::ops::*;
use symrt::Sym;
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Complex<T> {
    pub re: T,
    pub im: T,
}
impl<T> Complex<T> {
    pub const fn new(re: T, im: T) -> Self {
        Complex { re, im }
    }
}
impl Complex<Sym> {
    pub fn from_polar(r: Sym, t: Sym) -> Self {
        Self::new(r * t.cos(), r * t.sin())
    }
    pub fn norm(self) -> Sym {
        self.re.hypot(self.im)
    }
    pub fn norm_sqr(&self) -> Sym {
        self.re * self.re + self.im * self.im
    }
    pub fn arg(self) -> Sym {
        self.im.atan2(self.re)
    }
    pub fn to_polar(self) -> (Sym, Sym) {
        (self.norm(), self.arg())
    }
    pub fn conj(&self) -> Self {
        Self::new(self.re, -self.im)
    }
}
type C = Complex<Sym>;
impl Add for C {
    type Output = C;
    fn add(self, o: C) -> C {
        C::new(self.re + o.re, self.im + o.im)
    }
}
impl Sub for C {
    type Output = C;
    fn sub(self, o: C) -> C {
        C::new(self.re - o.re, self.im - o.im)
    }
}
impl Mul for C {
    type Output = C;
    fn mul(self, o: C) -> C {
        C::new(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    }
}
impl Div for C {
    type Output = C;
    fn div(self, o: C) -> C {
        let n = o.norm_sqr();
        C::new((self.re * o.re + self.im * o.im) / n, (self.im * o.re - self.re * o.im) / n)
    }
}
impl AddAssign for C {
    fn add_assign(&mut self, o: C) {
        *self = *self + o
    }
}
impl MulAssign for C {
    fn mul_assign(&mut self, o: C) {
        *self = *self * o
    }
}
impl Add<Sym> for C {
    type Output = C;
    fn add(self, o: Sym) -> C {
        C::new(self.re + o, self.im)
    }
}
impl Mul<Sym> for C {
    type Output = C;
    fn mul(self, o: Sym) -> C {
        C::new(self.re * o, self.im * o)
    }
}
impl Div<Sym> for C {
    type Output = C;
    fn div(self, o: Sym) -> C {
        C::new(self.re / o, self.im / o)
    }
}
impl Add<C> for Sym {
    type Output = C;
    fn add(self, o: C) -> C {
        C::new(self + o.re, o.im)
    }
}
impl Mul<C> for Sym {
    type Output = C;
    fn mul(self, o: C) -> C {
        C::new(self * o.re, self * o.im)
    }
}
