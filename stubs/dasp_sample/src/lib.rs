use symrt::Sym;
pub trait FromSample<S> {
    fn from_sample_(s: S) -> Self;
}
impl FromSample<Sym> for Sym {
    fn from_sample_(s: Sym) -> Sym {
        s
    }
}
pub trait ToSample<S> {
    fn to_sample_(self) -> S;
}
impl<T, U: FromSample<T>> ToSample<U> for T {
    fn to_sample_(self) -> U {
        U::from_sample_(self)
    }
}
