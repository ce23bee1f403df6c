//! disk streams are outside the extraction
use crate::AudioBuffer;
use std::error::Error;
pub(crate) struct RTSStream;
impl Iterator for RTSStream {
    type Item = Result<AudioBuffer, Box<dyn Error + Send + Sync>>;
    fn next(&mut self) -> Option<Self::Item> {
        None
    }
}
#[derive(Debug)]
pub struct MediaElement;
impl MediaElement {
    pub(crate) fn take_stream(&mut self) -> Option<RTSStream> {
        None
    }
}
