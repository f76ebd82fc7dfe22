//! Stand-in for alloy-sol-types: ABI coding of static structs, with `sol!` for struct definitions.
//! As in alloy, decoding takes the leading words and does not look at what follows them.
use alloy_primitives::{Address, B256, U256};

#[derive(Debug, Clone, PartialEq)]
pub enum Error {
    Overrun,
    TypeCheckFail,
    Other(String),
}
impl Error {
    pub fn custom(s: impl Into<std::borrow::Cow<'static, str>>) -> Self {
        Error::Other(s.into().into_owned())
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::Overrun => f.write_str("buffer overrun while deserializing"),
            Error::TypeCheckFail => f.write_str("type check failed"),
            Error::Other(s) => f.write_str(s),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

/// One static ABI value.
pub trait AbiStatic: Sized {
    const WORDS: usize;
    fn put(&self, out: &mut Vec<u8>);
    fn take(words: &[[u8; 32]]) -> Self;
}

macro_rules! uint {
    ($($t:ty)*) => { $(
        impl AbiStatic for $t {
            const WORDS: usize = 1;
            fn put(&self, out: &mut Vec<u8>) {
                let b = self.to_be_bytes();
                out.extend(std::iter::repeat(0u8).take(32 - b.len()));
                out.extend(b);
            }
            fn take(w: &[[u8; 32]]) -> Self {
                const N: usize = std::mem::size_of::<$t>();
                <$t>::from_be_bytes(w[0][32 - N..].try_into().unwrap())
            }
        }
    )* };
}
uint!(u8 u16 u32 u64 u128);

impl AbiStatic for bool {
    const WORDS: usize = 1;
    fn put(&self, out: &mut Vec<u8>) {
        (*self as u8).put(out)
    }
    fn take(w: &[[u8; 32]]) -> Self {
        w[0] != [0; 32]
    }
}
impl AbiStatic for B256 {
    const WORDS: usize = 1;
    fn put(&self, out: &mut Vec<u8>) {
        out.extend(self.0)
    }
    fn take(w: &[[u8; 32]]) -> Self {
        B256::from(w[0])
    }
}
impl AbiStatic for U256 {
    const WORDS: usize = 1;
    fn put(&self, out: &mut Vec<u8>) {
        out.extend(self.to_be_bytes::<32>())
    }
    fn take(w: &[[u8; 32]]) -> Self {
        U256::from_be_bytes(w[0])
    }
}
impl AbiStatic for Address {
    const WORDS: usize = 1;
    fn put(&self, out: &mut Vec<u8>) {
        out.extend([0; 12]);
        out.extend(self.0)
    }
    fn take(w: &[[u8; 32]]) -> Self {
        Address::from_slice(&w[0][12..])
    }
}

pub trait SolValue: AbiStatic {
    fn abi_encode(&self) -> Vec<u8> {
        let mut out = Vec::new();
        self.put(&mut out);
        out
    }
    fn abi_encode_params(&self) -> Vec<u8> {
        self.abi_encode()
    }
    fn abi_encode_sequence(&self) -> Vec<u8> {
        self.abi_encode()
    }
    fn abi_encoded_size(&self) -> usize {
        Self::WORDS * 32
    }
    fn abi_decode(data: &[u8]) -> Result<Self> {
        let words: Vec<[u8; 32]> = data.chunks_exact(32).map(|c| c.try_into().unwrap()).collect();
        if words.len() < Self::WORDS {
            return Err(Error::Overrun);
        }
        Ok(Self::take(&words))
    }
    fn abi_decode_params(data: &[u8]) -> Result<Self> {
        <Self as SolValue>::abi_decode(data)
    }
    /// Also refuses non-canonical words.
    fn abi_decode_validate(data: &[u8]) -> Result<Self> {
        let v = <Self as SolValue>::abi_decode(data)?;
        if v.abi_encode() != data[..Self::WORDS * 32] {
            return Err(Error::TypeCheckFail);
        }
        Ok(v)
    }
}
impl<T: AbiStatic> SolValue for T {}

pub trait SolType {
    type RustType;
    const ENCODED_SIZE: Option<usize>;
    fn abi_encoded_size(value: &Self::RustType) -> usize;
    fn abi_encode(value: &Self::RustType) -> Vec<u8>;
    fn abi_decode(data: &[u8]) -> Result<Self::RustType>;
    fn abi_decode_validate(data: &[u8]) -> Result<Self::RustType>;
}
impl<T: AbiStatic> SolType for T {
    type RustType = T;
    const ENCODED_SIZE: Option<usize> = Some(T::WORDS * 32);
    fn abi_encoded_size(value: &T) -> usize {
        SolValue::abi_encoded_size(value)
    }
    fn abi_encode(value: &T) -> Vec<u8> {
        SolValue::abi_encode(value)
    }
    fn abi_decode(data: &[u8]) -> Result<T> {
        <T as SolValue>::abi_decode(data)
    }
    fn abi_decode_validate(data: &[u8]) -> Result<T> {
        <T as SolValue>::abi_decode_validate(data)
    }
}

#[doc(hidden)]
pub mod private {
    pub use alloy_primitives::{Address, B256, U256};
}

#[doc(hidden)]
#[macro_export]
macro_rules! __sol_ty {
    (uint8) => { u8 };
    (uint16) => { u16 };
    (uint32) => { u32 };
    (uint64) => { u64 };
    (uint128) => { u128 };
    (uint256) => { $crate::private::U256 };
    (bytes32) => { $crate::private::B256 };
    (address) => { $crate::private::Address };
    (bool) => { bool };
    ($other:ident) => { $other };
}

#[macro_export]
macro_rules! sol {
    ($( $(#[$m:meta])* struct $name:ident { $( $(#[$fm:meta])* $ty:ident $field:ident ; )* } )*) => { $(
        #[allow(non_snake_case, missing_docs)]
        #[derive(Clone)]
        $(#[$m])*
        pub struct $name {
            $( $(#[$fm])* pub $field: $crate::__sol_ty!($ty), )*
        }
        impl $crate::AbiStatic for $name {
            const WORDS: usize = 0 $( + <$crate::__sol_ty!($ty) as $crate::AbiStatic>::WORDS )*;
            fn put(&self, out: &mut ::std::vec::Vec<u8>) {
                $( $crate::AbiStatic::put(&self.$field, out); )*
            }
            #[allow(unused_assignments, unused_mut)]
            fn take(words: &[[u8; 32]]) -> Self {
                let mut at = 0;
                $(
                    let $field = <$crate::__sol_ty!($ty) as $crate::AbiStatic>::take(&words[at..]);
                    at += <$crate::__sol_ty!($ty) as $crate::AbiStatic>::WORDS;
                )*
                Self { $( $field ),* }
            }
        }
    )* };
}
