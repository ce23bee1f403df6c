//! stand-in for rubato's FftFixedInOut: sample-and-hold up, decimation down (only the wiring
//! around the resampler is verified, not the filter)
use symrt::{lit, Sym};
#[derive(Debug)]
pub struct ResampleError;
#[derive(Debug)]
pub struct ResamplerConstructionError;
pub struct FftFixedInOut<T> {
    num: usize,
    den: usize,
    chunk_in: usize,
    chunk_out: usize,
    channels: usize,
    _p: std::marker::PhantomData<T>,
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
impl FftFixedInOut<Sym> {
    pub fn new(fs_in: usize, fs_out: usize, chunk: usize, ch: usize) -> Result<Self, ResamplerConstructionError> {
        if fs_in == 0 || fs_out == 0 {
            return Err(ResamplerConstructionError);
        }
        let g = gcd(fs_in, fs_out);
        let (num, den) = (fs_out / g, fs_in / g);
        let k = (chunk + den - 1) / den;
        Ok(FftFixedInOut { num, den, chunk_in: k * den, chunk_out: k * num, channels: ch, _p: std::marker::PhantomData })
    }
}
pub trait Resampler<T> {
    fn process_into_buffer<Vin: AsRef<[T]>, Vout: AsMut<[T]>>(
        &mut self,
        i: &[Vin],
        o: &mut [Vout],
        m: Option<&[bool]>,
    ) -> Result<(usize, usize), ResampleError>;
    fn process<V: AsRef<[T]>>(&mut self, i: &[V], m: Option<&[bool]>) -> Result<Vec<Vec<T>>, ResampleError>;
    fn output_buffer_allocate(&self, filled: bool) -> Vec<Vec<T>>;
    fn input_frames_next(&self) -> usize;
    fn output_frames_next(&self) -> usize;
    fn output_frames_max(&self) -> usize;
    fn input_frames_max(&self) -> usize;
    fn nbr_channels(&self) -> usize;
    fn output_delay(&self) -> usize;
    fn reset(&mut self);
}
impl Resampler<Sym> for FftFixedInOut<Sym> {
    fn process_into_buffer<Vin: AsRef<[Sym]>, Vout: AsMut<[Sym]>>(
        &mut self,
        i: &[Vin],
        o: &mut [Vout],
        _m: Option<&[bool]>,
    ) -> Result<(usize, usize), ResampleError> {
        if i.len() != self.channels || o.len() != self.channels {
            return Err(ResampleError);
        }
        for (i, o) in i.iter().zip(o.iter_mut()) {
            let (i, o) = (i.as_ref(), o.as_mut());
            if i.len() < self.chunk_in || o.len() < self.chunk_out {
                return Err(ResampleError);
            }
            for k in 0..self.chunk_out {
                o[k] = i[k * self.den / self.num];
            }
        }
        Ok((self.chunk_in, self.chunk_out))
    }
    fn process<V: AsRef<[Sym]>>(&mut self, i: &[V], m: Option<&[bool]>) -> Result<Vec<Vec<Sym>>, ResampleError> {
        let mut o = self.output_buffer_allocate(true);
        self.process_into_buffer(i, &mut o, m)?;
        Ok(o)
    }
    fn output_buffer_allocate(&self, _f: bool) -> Vec<Vec<Sym>> {
        vec![vec![lit(0.); self.chunk_out]; self.channels]
    }
    fn input_frames_next(&self) -> usize {
        self.chunk_in
    }
    fn output_frames_next(&self) -> usize {
        self.chunk_out
    }
    fn output_frames_max(&self) -> usize {
        self.chunk_out
    }
    fn input_frames_max(&self) -> usize {
        self.chunk_in
    }
    fn nbr_channels(&self) -> usize {
        self.channels
    }
    fn output_delay(&self) -> usize {
        0
    }
    fn reset(&mut self) {}
}
