//! stand-in for the hrtf crate: the source scaled by the interpolated distance gain on both ears
use symrt::{lit, Sym};
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Vec3 {
    pub x: Sym,
    pub y: Sym,
    pub z: Sym,
}
impl Vec3 {
    pub const fn new(x: Sym, y: Sym, z: Sym) -> Self {
        Vec3 { x, y, z }
    }
}
#[derive(Debug)]
pub struct HrtfError;
#[derive(Clone, Debug)]
pub struct HrirSphere;
impl HrirSphere {
    pub fn new<R: std::io::Read>(_r: R, _rate: u32) -> Result<Self, HrtfError> {
        Ok(HrirSphere)
    }
    pub fn len(&self) -> usize {
        512
    }
}
#[derive(Clone, Debug)]
pub struct HrtfProcessor;
pub struct HrtfContext<'a, 'b, 'c, 'd> {
    pub source: &'a [Sym],
    pub output: &'b mut [(Sym, Sym)],
    pub new_sample_vector: Vec3,
    pub prev_sample_vector: Vec3,
    pub prev_left_samples: &'c mut Vec<Sym>,
    pub prev_right_samples: &'d mut Vec<Sym>,
    pub new_distance_gain: Sym,
    pub prev_distance_gain: Sym,
}
impl HrtfProcessor {
    pub fn new(_s: HrirSphere, _a: usize, _b: usize) -> Self {
        HrtfProcessor
    }
    pub fn process_samples(&mut self, c: HrtfContext<'_, '_, '_, '_>) {
        let n = c.source.len();
        for (i, (s, o)) in c.source.iter().zip(c.output.iter_mut()).enumerate() {
            let k = lit(i as f64 / n as f64);
            let g = c.prev_distance_gain + (c.new_distance_gain - c.prev_distance_gain) * k;
            o.0 += *s * g;
            o.1 += *s * g;
        }
    }
}
