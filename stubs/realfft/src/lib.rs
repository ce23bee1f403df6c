//! assumed contract of realfft: the discrete Fourier transform by its definition
pub use num_complex;
use num_complex::Complex;
use std::sync::Arc;
use symrt::{lit, Sym};
#[derive(Debug)]
pub struct FftError;
impl std::fmt::Display for FftError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "FftError")
    }
}
impl std::error::Error for FftError {}
pub struct RealFftPlanner<T>(std::marker::PhantomData<T>);
impl<T> RealFftPlanner<T> {
    pub fn new() -> Self {
        RealFftPlanner(std::marker::PhantomData)
    }
}
impl<T> Default for RealFftPlanner<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl RealFftPlanner<Sym> {
    pub fn plan_fft_forward(&mut self, n: usize) -> Arc<dyn RealToComplex<Sym>> {
        Arc::new(F(n))
    }
}
pub trait RealToComplex<T>: Send + Sync {
    fn process(&self, i: &mut [T], o: &mut [Complex<T>]) -> Result<(), FftError>;
    fn process_with_scratch(&self, i: &mut [T], o: &mut [Complex<T>], s: &mut [Complex<T>]) -> Result<(), FftError>;
    fn get_scratch_len(&self) -> usize;
    fn make_input_vec(&self) -> Vec<T>;
    fn make_output_vec(&self) -> Vec<Complex<T>>;
    fn make_scratch_vec(&self) -> Vec<Complex<T>>;
    fn len(&self) -> usize;
}
struct F(usize);
impl RealToComplex<Sym> for F {
    fn process(&self, i: &mut [Sym], o: &mut [Complex<Sym>]) -> Result<(), FftError> {
        if i.len() != self.0 || o.len() != self.0 / 2 + 1 {
            return Err(FftError);
        }
        let n = self.0;
        for (k, b) in o.iter_mut().enumerate() {
            let (mut re, mut im) = (lit(0.), lit(0.));
            for (j, x) in i.iter().enumerate() {
                if x.concrete() == Some(0.) {
                    continue;
                }
                let w = 2. * std::f64::consts::PI * ((j * k) % n) as f64 / n as f64;
                re += *x * lit(w.cos());
                im -= *x * lit(w.sin());
            }
            *b = Complex::new(re, im);
        }
        Ok(())
    }
    fn process_with_scratch(&self, i: &mut [Sym], o: &mut [Complex<Sym>], _: &mut [Complex<Sym>]) -> Result<(), FftError> {
        self.process(i, o)
    }
    fn get_scratch_len(&self) -> usize {
        self.0
    }
    fn make_input_vec(&self) -> Vec<Sym> {
        vec![lit(0.); self.0]
    }
    fn make_output_vec(&self) -> Vec<Complex<Sym>> {
        vec![Complex::default(); self.0 / 2 + 1]
    }
    fn make_scratch_vec(&self) -> Vec<Complex<Sym>> {
        vec![Complex::default(); self.0]
    }
    fn len(&self) -> usize {
        self.0
    }
}
