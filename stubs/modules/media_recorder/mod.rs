//! the WAV encoder is outside the extraction
