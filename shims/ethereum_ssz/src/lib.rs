//! Stand-in for ethereum_ssz: the two traits, implemented by hand where needed.
use alloy_primitives::B256;

#[derive(Debug, PartialEq, Clone)]
pub enum DecodeError {
    InvalidByteLength { len: usize, expected: usize },
    OffsetIntoFixedPortion(usize),
    OffsetSkipsVariableBytes(usize),
    OutOfBoundsByte { i: usize },
    BytesInvalid(String),
    UnionSelectorInvalid(u8),
}

pub trait Encode {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_fixed_len() -> usize {
        4
    }
    fn ssz_append(&self, buf: &mut Vec<u8>);
    fn ssz_bytes_len(&self) -> usize {
        self.as_ssz_bytes().len()
    }
    fn as_ssz_bytes(&self) -> Vec<u8> {
        let mut buf = Vec::new();
        self.ssz_append(&mut buf);
        buf
    }
}

pub trait Decode: Sized {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_fixed_len() -> usize {
        4
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>;
}

impl Encode for u64 {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        8
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend(self.to_le_bytes())
    }
}
impl Decode for u64 {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        8
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Ok(u64::from_le_bytes(fixed(bytes)?))
    }
}
impl Encode for B256 {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        32
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend(self.0)
    }
}
impl Decode for B256 {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        32
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        Ok(B256::from(fixed::<32>(bytes)?))
    }
}

/// `bytes` as an array.
pub fn fixed<const N: usize>(bytes: &[u8]) -> Result<[u8; N], DecodeError> {
    bytes.try_into().map_err(|_| DecodeError::InvalidByteLength { len: bytes.len(), expected: N })
}
