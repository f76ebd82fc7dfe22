//! Stand-in for lighthouse's bls: a toy aggregate signature scheme with the algebra of BLS (signatures
//! of one message add up; aggregating the same key twice counts it twice), built from SHA-256. Secret
//! keys can be computed from nothing but themselves, so within the checks a signature cannot be
//! obtained for a (key, message) pair that nobody signed, except by computing it on purpose.
use alloy_primitives::B256;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use sha2::{Digest, Sha256};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};

pub type Hash256 = B256;

pub const PUBLIC_KEY_BYTES_LEN: usize = 48;
pub const PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN: usize = 96;
pub const SIGNATURE_BYTES_LEN: usize = 96;
pub const SIGNATURE_UNCOMPRESSED_BYTES_LEN: usize = 192;
pub const SECRET_KEY_BYTES_LEN: usize = 32;
pub const INFINITY_SIGNATURE: [u8; SIGNATURE_BYTES_LEN] = {
    let mut s = [0; SIGNATURE_BYTES_LEN];
    s[0] = 0xc0;
    s
};

#[derive(Clone, Debug, PartialEq)]
pub enum Error {
    InvalidByteLength { got: usize, expected: usize },
    InvalidInfinityPublicKey,
    InvalidPoint,
}

fn hash(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

fn expand<const N: usize>(tag: &[u8], data: &[u8]) -> [u8; N] {
    let mut out = [0; N];
    for (i, c) in out.chunks_mut(32).enumerate() {
        let h = hash(&[tag, &[i as u8], data]);
        let n = c.len();
        c.copy_from_slice(&h[..n]);
    }
    out
}

#[derive(Clone, PartialEq, Eq)]
pub struct PublicKey([u8; 48]);

impl PublicKey {
    /// The compressed form: the first bit is set, the two after it clear.
    pub fn serialize(&self) -> [u8; PUBLIC_KEY_BYTES_LEN] {
        self.0
    }
    pub fn serialize_uncompressed(&self) -> [u8; PUBLIC_KEY_UNCOMPRESSED_BYTES_LEN] {
        let mut out = [0; 96];
        out[..48].copy_from_slice(&self.0);
        out[0] &= 0x1f;
        let y: [u8; 48] = expand(b"y", &self.0);
        out[48..].copy_from_slice(&y);
        out
    }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        let b: [u8; 48] = bytes
            .try_into()
            .map_err(|_| Error::InvalidByteLength { got: bytes.len(), expected: 48 })?;
        if b[0] & 0xc0 == 0xc0 {
            return Err(Error::InvalidInfinityPublicKey);
        }
        if b[0] & 0xe0 != 0x80 {
            return Err(Error::InvalidPoint);
        }
        Ok(Self(b))
    }
    pub fn deserialize_uncompressed(bytes: &[u8]) -> Result<Self, Error> {
        let b: [u8; 96] = bytes
            .try_into()
            .map_err(|_| Error::InvalidByteLength { got: bytes.len(), expected: 96 })?;
        let mut x: [u8; 48] = b[..48].try_into().unwrap();
        x[0] |= 0x80;
        let pk = Self::deserialize(&x)?;
        if pk.serialize_uncompressed() != b {
            return Err(Error::InvalidPoint);
        }
        Ok(pk)
    }
    pub fn compress(&self) -> PublicKeyBytes {
        PublicKeyBytes(self.0)
    }
    pub fn as_hex_string(&self) -> String {
        format!("0x{}", hex::encode(self.0))
    }
}
impl std::fmt::Debug for PublicKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.as_hex_string())
    }
}
impl std::fmt::Display for PublicKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.as_hex_string())
    }
}
#[allow(clippy::derived_hash_with_manual_eq)]
impl Hash for PublicKey {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.0.hash(state)
    }
}
impl Serialize for PublicKey {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.as_hex_string())
    }
}
impl<'de> Deserialize<'de> for PublicKey {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let b = hex::decode(s.trim_start_matches("0x")).map_err(serde::de::Error::custom)?;
        Self::deserialize(&b).map_err(|e| serde::de::Error::custom(format!("{e:?}")))
    }
}
impl From<&PublicKeyBytes> for Result<PublicKey, Error> {
    fn from(b: &PublicKeyBytes) -> Self {
        PublicKey::deserialize(&b.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct PublicKeyBytes([u8; 48]);
impl PublicKeyBytes {
    pub fn empty() -> Self {
        Self([0; 48])
    }
    pub fn serialize(&self) -> [u8; 48] {
        self.0
    }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        Ok(Self(bytes.try_into().map_err(|_| Error::InvalidByteLength { got: bytes.len(), expected: 48 })?))
    }
    pub fn decompress(&self) -> Result<PublicKey, Error> {
        PublicKey::deserialize(&self.0)
    }
    pub fn as_serialized(&self) -> &[u8] {
        &self.0
    }
}
impl From<PublicKey> for PublicKeyBytes {
    fn from(p: PublicKey) -> Self {
        Self(p.0)
    }
}
impl From<&PublicKey> for PublicKeyBytes {
    fn from(p: &PublicKey) -> Self {
        Self(p.0)
    }
}

#[derive(Clone)]
pub struct SecretKey([u8; 32]);
impl SecretKey {
    /// A fresh key (a counter: the checks are deterministic).
    pub fn random() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        Self(hash(&[b"random", &N.fetch_add(1, Ordering::Relaxed).to_le_bytes()]))
    }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        Ok(Self(bytes.try_into().map_err(|_| Error::InvalidByteLength { got: bytes.len(), expected: 32 })?))
    }
    pub fn public_key(&self) -> PublicKey {
        let mut b: [u8; 48] = expand(b"pk", &self.0);
        b[0] = 0x80 | (b[0] & 0x1f);
        PublicKey(b)
    }
    pub fn sign(&self, msg: Hash256) -> Signature {
        Signature(contribution(&self.public_key(), &msg))
    }
}

#[derive(Clone)]
pub struct Keypair {
    pub sk: SecretKey,
    pub pk: PublicKey,
}
impl Keypair {
    pub fn random() -> Self {
        let sk = SecretKey::random();
        Self { pk: sk.public_key(), sk }
    }
}

fn contribution(pk: &PublicKey, msg: &Hash256) -> [u8; 96] {
    let mut data = pk.0.to_vec();
    data.extend(msg.0);
    let mut out: [u8; 96] = expand(b"sig", &data);
    out[0] &= 0x3f;
    out
}

/// The group operation: addition modulo 2^64 in each of the 12 words; the first word (big-endian
/// position of the flags) modulo 2^62.
fn add(a: &[u8; 96], b: &[u8; 96]) -> [u8; 96] {
    let mut out = [0; 96];
    for i in 0..12 {
        let r = i * 8..i * 8 + 8;
        let x = u64::from_be_bytes(a[r.clone()].try_into().unwrap());
        let y = u64::from_be_bytes(b[r.clone()].try_into().unwrap());
        let mut s = x.wrapping_add(y);
        if i == 0 {
            s &= (1 << 62) - 1;
        }
        out[r].copy_from_slice(&s.to_be_bytes());
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Signature([u8; 96]);
impl Signature {
    pub fn empty() -> Self {
        Self([0; 96])
    }
    pub fn serialize(&self) -> [u8; 96] {
        self.0
    }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        Ok(Self(bytes.try_into().map_err(|_| Error::InvalidByteLength { got: bytes.len(), expected: 96 })?))
    }
    pub fn verify(&self, pk: &PublicKey, msg: Hash256) -> bool {
        self.0 == contribution(pk, &msg)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct AggregateSignature([u8; 96]);
impl AggregateSignature {
    pub fn infinity() -> Self {
        Self(INFINITY_SIGNATURE)
    }
    pub fn empty() -> Self {
        Self([0; 96])
    }
    pub fn is_infinity(&self) -> bool {
        self.0 == INFINITY_SIGNATURE
    }
    pub fn is_empty(&self) -> bool {
        self.0 == [0; 96]
    }
    fn point(&self) -> [u8; 96] {
        if self.is_infinity() { [0; 96] } else { self.0 }
    }
    pub fn add_assign(&mut self, other: &Signature) {
        self.0 = add(&self.point(), &other.0);
    }
    pub fn add_assign_aggregate(&mut self, other: &Self) {
        self.0 = add(&self.point(), &other.point());
    }
    pub fn serialize(&self) -> [u8; 96] {
        self.0
    }
    pub fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
        Ok(Self(bytes.try_into().map_err(|_| Error::InvalidByteLength { got: bytes.len(), expected: 96 })?))
    }
    pub fn fast_aggregate_verify(&self, msg: Hash256, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() || self.is_empty() {
            return false;
        }
        let sum = pubkeys.iter().fold([0; 96], |acc, pk| add(&acc, &contribution(pk, &msg)));
        sum == self.point()
    }
    /// As in the Altair specification, the infinity signature by nobody is valid.
    pub fn eth_fast_aggregate_verify(&self, msg: Hash256, pubkeys: &[&PublicKey]) -> bool {
        if pubkeys.is_empty() && self.is_infinity() { true } else { self.fast_aggregate_verify(msg, pubkeys) }
    }
    pub fn aggregate_verify(&self, msgs: &[Hash256], pubkeys: &[&PublicKey]) -> bool {
        if msgs.is_empty() || msgs.len() != pubkeys.len() || self.is_empty() {
            return false;
        }
        let sum = pubkeys.iter().zip(msgs).fold([0; 96], |acc, (pk, m)| add(&acc, &contribution(pk, m)));
        sum == self.point()
    }
}
impl From<&Signature> for AggregateSignature {
    fn from(s: &Signature) -> Self {
        Self(s.0)
    }
}

macro_rules! fixed_ssz {
    ($($t:ident $n:expr;)*) => { $(
        impl ssz::Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $n }
            fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend(self.serialize()) }
        }
        impl ssz::Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $n }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
                Self::deserialize(bytes).map_err(|e| ssz::DecodeError::BytesInvalid(format!("{e:?}")))
            }
        }
    )* };
}
fixed_ssz! { PublicKey 48; PublicKeyBytes 48; Signature 96; AggregateSignature 96; }
