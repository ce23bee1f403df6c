//! assumed contract of fft-convolver: `process` computes the running linear convolution of
//! everything it was given with the impulse response passed to `init`
use std::marker::PhantomData;
use symrt::{lit, Sym};
#[derive(Debug, Clone)]
pub struct FFTConvolverError;
#[derive(Clone, Debug)]
pub struct FFTConvolver<T> {
    ir: Vec<Sym>,
    hist: Vec<Sym>, // most recent first
    _p: PhantomData<T>,
}
impl<T> Default for FFTConvolver<T> {
    fn default() -> Self {
        FFTConvolver { ir: vec![], hist: vec![], _p: PhantomData }
    }
}
impl FFTConvolver<Sym> {
    pub fn init(&mut self, block_size: usize, ir: &[Sym]) -> Result<(), FFTConvolverError> {
        if block_size == 0 {
            return Err(FFTConvolverError);
        }
        self.ir = ir.to_vec();
        // trailing zeros of the response do not matter
        while self.ir.len() > 1 && self.ir.last().unwrap().concrete() == Some(0.) {
            self.ir.pop();
        }
        self.hist = vec![lit(0.); self.ir.len()];
        Ok(())
    }
    pub fn process(&mut self, input: &[Sym], output: &mut [Sym]) -> Result<(), FFTConvolverError> {
        if self.ir.is_empty() {
            output.iter_mut().for_each(|o| *o = lit(0.));
            return Ok(());
        }
        for (i, o) in input.iter().zip(output.iter_mut()) {
            self.hist.insert(0, *i);
            self.hist.truncate(self.ir.len());
            *o = self.hist.iter().zip(&self.ir).map(|(x, h)| *x * *h).sum();
        }
        Ok(())
    }
    pub fn reset(&mut self) {
        self.hist.iter_mut().for_each(|x| *x = lit(0.));
    }
}
