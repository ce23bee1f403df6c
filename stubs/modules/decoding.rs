//! decoders are outside the extraction
use crate::buffer::AudioBuffer;
pub(crate) fn decode_media_data<R: std::io::Read + Send + Sync + 'static>(
    _input: R,
    _target_sample_rate: symrt::Sym,
) -> Result<AudioBuffer, Box<dyn std::error::Error + Send + Sync>> {
    Err("decoding is outside the extraction".into())
}
