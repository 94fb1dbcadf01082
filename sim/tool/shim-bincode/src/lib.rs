//! The interface of bincode 2, which is not available offline, over bincode 1.
pub mod config {
    pub struct Standard;
    pub fn standard() -> Standard {
        Standard
    }
}

pub mod error {
    pub type EncodeError = bincode1::Error;
    pub type DecodeError = bincode1::Error;
}

pub mod serde {
    use serde_::{de::DeserializeOwned, Serialize};

    pub fn encode_to_vec<T: Serialize>(value: T, _: super::config::Standard) -> Result<Vec<u8>, bincode1::Error> {
        bincode1::serialize(&value)
    }

    pub fn decode_from_slice<T: DeserializeOwned>(slice: &[u8], _: super::config::Standard) -> Result<(T, usize), bincode1::Error> {
        Ok((bincode1::deserialize(slice)?, slice.len()))
    }
}
