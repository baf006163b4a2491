//! base64 0.10 is not in the offline cache: the same functions on top of 0.22.
use real::Engine;
pub use real::DecodeError;

pub fn encode<T: ?Sized + AsRef<[u8]>>(input: &T) -> String {
    real::engine::general_purpose::STANDARD.encode(input.as_ref())
}

pub fn decode<T: ?Sized + AsRef<[u8]>>(input: &T) -> Result<Vec<u8>, DecodeError> {
    real::engine::general_purpose::STANDARD.decode(input.as_ref())
}
