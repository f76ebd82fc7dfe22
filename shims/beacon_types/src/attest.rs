use crate::{AggregateSignature, Checkpoint, Error, EthSpec, Hash256, Reader, SignedRoot, Slot, Unsigned, merkle};
use serde::{Deserialize, Serialize};
use ssz::{Decode, DecodeError, Encode};
use std::marker::PhantomData;
use tree_hash::{PackedEncoding, TreeHash, TreeHashType};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Hash, Serialize, Deserialize)]
pub struct AttestationData {
    pub slot: Slot,
    pub index: u64,
    pub beacon_block_root: Hash256,
    pub source: Checkpoint,
    pub target: Checkpoint,
}
impl SignedRoot for AttestationData {}
impl TreeHash for AttestationData {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Container
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!("a container is never packed")
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!("a container is never packed")
    }
    fn tree_hash_root(&self) -> Hash256 {
        merkle(&[
            self.slot.tree_hash_root(),
            self.index.tree_hash_root(),
            self.beacon_block_root,
            self.source.tree_hash_root(),
            self.target.tree_hash_root(),
        ])
    }
}
impl Encode for AttestationData {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        128
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        self.slot.ssz_append(buf);
        self.index.ssz_append(buf);
        self.beacon_block_root.ssz_append(buf);
        self.source.ssz_append(buf);
        self.target.ssz_append(buf);
    }
}
impl Decode for AttestationData {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        128
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        if bytes.len() != 128 {
            return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: 128 });
        }
        let mut r = Reader::new(bytes, 128)?;
        Ok(Self {
            slot: r.next()?,
            index: r.next()?,
            beacon_block_root: r.next()?,
            source: r.next()?,
            target: r.next()?,
        })
    }
}

fn pack(bits: &[bool], delimiter: bool) -> Vec<u8> {
    let n = bits.len() + usize::from(delimiter);
    let mut out = vec![0u8; n.div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        out[i / 8] |= u8::from(*b) << (i % 8);
    }
    if delimiter {
        out[bits.len() / 8] |= 1 << (bits.len() % 8);
    }
    out
}

macro_rules! bitfield {
    ($t:ident) => {
        impl<N: Unsigned> $t<N> {
            pub fn get(&self, i: usize) -> Result<bool, Error> {
                self.bits.get(i).copied().ok_or(Error::OutOfBounds)
            }
            pub fn set(&mut self, i: usize, value: bool) -> Result<(), Error> {
                *self.bits.get_mut(i).ok_or(Error::OutOfBounds)? = value;
                Ok(())
            }
            pub fn len(&self) -> usize {
                self.bits.len()
            }
            pub fn is_empty(&self) -> bool {
                self.bits.is_empty()
            }
            pub fn is_zero(&self) -> bool {
                self.bits.iter().all(|b| !b)
            }
            pub fn num_set_bits(&self) -> usize {
                self.bits.iter().filter(|b| **b).count()
            }
            pub fn highest_set_bit(&self) -> Option<usize> {
                self.bits.iter().rposition(|b| *b)
            }
            pub fn iter(&self) -> impl Iterator<Item = bool> + '_ {
                self.bits.iter().copied()
            }
            fn zip_with(&self, other: &Self, f: impl Fn(bool, bool) -> bool) -> Self {
                let at = |b: &Vec<bool>, i: usize| b.get(i).copied().unwrap_or(false);
                let n = self.bits.len().max(other.bits.len());
                Self { bits: (0..n).map(|i| f(at(&self.bits, i), at(&other.bits, i))).collect(), _n: PhantomData }
            }
            pub fn union(&self, other: &Self) -> Self {
                self.zip_with(other, |a, b| a || b)
            }
            pub fn difference(&self, other: &Self) -> Self {
                self.zip_with(other, |a, b| a && !b)
            }
            pub fn is_subset(&self, other: &Self) -> bool {
                self.difference(other).is_zero()
            }
            pub fn as_slice(&self) -> Vec<u8> {
                pack(&self.bits, false)
            }
        }
    };
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct BitList<N> {
    bits: Vec<bool>,
    #[serde(skip)]
    _n: PhantomData<N>,
}
bitfield!(BitList);
impl<N: Unsigned> BitList<N> {
    pub fn with_capacity(len: usize) -> Result<Self, Error> {
        if len > N::to_usize() {
            return Err(Error::OutOfBounds);
        }
        Ok(Self { bits: vec![false; len], _n: PhantomData })
    }
    pub fn max_len() -> usize {
        N::to_usize()
    }
    pub fn into_bytes(self) -> Vec<u8> {
        pack(&self.bits, true)
    }
    pub fn from_bytes(bytes: &[u8]) -> Result<Self, Error> {
        let last = *bytes.last().ok_or(Error::InvalidBitfield)?;
        if last == 0 {
            return Err(Error::InvalidBitfield);
        }
        let len = bytes.len() * 8 - 1 - last.leading_zeros() as usize;
        if len > N::to_usize() {
            return Err(Error::OutOfBounds);
        }
        let bits = (0..len).map(|i| bytes[i / 8] >> (i % 8) & 1 == 1).collect();
        Ok(Self { bits, _n: PhantomData })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct BitVector<N> {
    bits: Vec<bool>,
    #[serde(skip)]
    _n: PhantomData<N>,
}
bitfield!(BitVector);
impl<N: Unsigned> BitVector<N> {
    pub fn new() -> Self {
        Self { bits: vec![false; N::to_usize()], _n: PhantomData }
    }
    pub fn into_bytes(self) -> Vec<u8> {
        pack(&self.bits, false)
    }
    pub fn from_bytes(bytes: &[u8]) -> Result<Self, Error> {
        let len = N::to_usize();
        if bytes.len() != len.div_ceil(8) || (len..bytes.len() * 8).any(|i| bytes[i / 8] >> (i % 8) & 1 == 1) {
            return Err(Error::InvalidBitfield);
        }
        let bits = (0..len).map(|i| bytes[i / 8] >> (i % 8) & 1 == 1).collect();
        Ok(Self { bits, _n: PhantomData })
    }
}
impl<N: Unsigned> Default for BitVector<N> {
    fn default() -> Self {
        Self::new()
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct AttestationBase<E: EthSpec> {
    pub aggregation_bits: BitList<E::MaxValidatorsPerCommittee>,
    pub data: AttestationData,
    #[serde(skip, default = "AggregateSignature::infinity")]
    pub signature: AggregateSignature,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct AttestationElectra<E: EthSpec> {
    pub aggregation_bits: BitList<E::MaxValidatorsPerSlot>,
    pub data: AttestationData,
    #[serde(skip, default = "AggregateSignature::infinity")]
    pub signature: AggregateSignature,
    pub committee_bits: BitVector<E::MaxCommitteesPerSlot>,
}
impl<E: EthSpec> AttestationElectra<E> {
    pub fn signers_disjoint_from(&self, other: &Self) -> bool {
        self.aggregation_bits.iter().zip(other.aggregation_bits.iter()).all(|(a, b)| !(a && b))
    }
    pub fn aggregate(&mut self, other: &Self) {
        self.aggregation_bits = self.aggregation_bits.union(&other.aggregation_bits);
        self.signature.add_assign_aggregate(&other.signature);
    }
    pub fn committee_index(&self) -> Option<u64> {
        self.get_committee_indices().first().cloned()
    }
    pub fn get_committee_indices(&self) -> Vec<u64> {
        self.committee_bits
            .iter()
            .enumerate()
            .filter_map(|(index, bit)| if bit { Some(index as u64) } else { None })
            .collect()
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(bound = "")]
pub enum Attestation<E: EthSpec> {
    Base(AttestationBase<E>),
    Electra(AttestationElectra<E>),
}
impl<E: EthSpec> Attestation<E> {
    pub fn data(&self) -> &AttestationData {
        match self {
            Self::Base(a) => &a.data,
            Self::Electra(a) => &a.data,
        }
    }
    pub fn data_mut(&mut self) -> &mut AttestationData {
        match self {
            Self::Base(a) => &mut a.data,
            Self::Electra(a) => &mut a.data,
        }
    }
    pub fn signature(&self) -> &AggregateSignature {
        match self {
            Self::Base(a) => &a.signature,
            Self::Electra(a) => &a.signature,
        }
    }
    pub fn signature_mut(&mut self) -> &mut AggregateSignature {
        match self {
            Self::Base(a) => &mut a.signature,
            Self::Electra(a) => &mut a.signature,
        }
    }
    pub fn is_aggregation_bits_zero(&self) -> bool {
        self.num_set_aggregation_bits() == 0
    }
    pub fn num_set_aggregation_bits(&self) -> usize {
        match self {
            Self::Base(a) => a.aggregation_bits.num_set_bits(),
            Self::Electra(a) => a.aggregation_bits.num_set_bits(),
        }
    }
    pub fn get_aggregation_bit(&self, index: usize) -> Result<bool, Error> {
        match self {
            Self::Base(a) => a.aggregation_bits.get(index),
            Self::Electra(a) => a.aggregation_bits.get(index),
        }
    }
    pub fn get_committee_indices_map(&self) -> std::collections::HashSet<u64> {
        match self {
            Self::Base(a) => std::iter::once(a.data.index).collect(),
            Self::Electra(a) => a.get_committee_indices().into_iter().collect(),
        }
    }
    pub fn committee_index(&self) -> Option<u64> {
        match self {
            Self::Base(a) => Some(a.data.index),
            Self::Electra(a) => a.committee_index(),
        }
    }
    pub fn as_electra_mut(&mut self) -> Result<&mut AttestationElectra<E>, Error> {
        match self {
            Self::Electra(a) => Ok(a),
            Self::Base(_) => Err(Error::IncorrectStateVariant),
        }
    }
    pub fn as_electra(&self) -> Result<&AttestationElectra<E>, Error> {
        match self {
            Self::Electra(a) => Ok(a),
            Self::Base(_) => Err(Error::IncorrectStateVariant),
        }
    }
    pub fn as_base(&self) -> Result<&AttestationBase<E>, Error> {
        match self {
            Self::Base(a) => Ok(a),
            Self::Electra(_) => Err(Error::IncorrectStateVariant),
        }
    }
    pub fn to_ref(&self) -> AttestationRef<'_, E> {
        match self {
            Self::Base(a) => AttestationRef::Base(a),
            Self::Electra(a) => AttestationRef::Electra(a),
        }
    }
}

#[derive(Debug, Clone, Copy)]
pub enum AttestationRef<'a, E: EthSpec> {
    Base(&'a AttestationBase<E>),
    Electra(&'a AttestationElectra<E>),
}
impl<'a, E: EthSpec> AttestationRef<'a, E> {
    pub fn data(self) -> &'a AttestationData {
        match self {
            Self::Base(a) => &a.data,
            Self::Electra(a) => &a.data,
        }
    }
    pub fn signature(self) -> &'a AggregateSignature {
        match self {
            Self::Base(a) => &a.signature,
            Self::Electra(a) => &a.signature,
        }
    }
    pub fn clone_as_attestation(self) -> Attestation<E> {
        match self {
            Self::Base(a) => Attestation::Base(a.clone()),
            Self::Electra(a) => Attestation::Electra(a.clone()),
        }
    }
}

fn offset_err(got: usize, expected: usize) -> DecodeError {
    if got < expected { DecodeError::OffsetIntoFixedPortion(got) } else { DecodeError::OffsetSkipsVariableBytes(got) }
}
fn bits_err(e: Error) -> DecodeError {
    DecodeError::BytesInvalid(format!("{e:?}"))
}

impl<E: EthSpec> Encode for AttestationBase<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend(228u32.to_le_bytes());
        self.data.ssz_append(buf);
        self.signature.ssz_append(buf);
        buf.extend(self.aggregation_bits.clone().into_bytes());
    }
}
impl<E: EthSpec> Decode for AttestationBase<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        let mut r = Reader::new(bytes, 228)?;
        let offset = u32::from_le_bytes(r.raw(4).try_into().unwrap()) as usize;
        if offset != 228 {
            return Err(offset_err(offset, 228));
        }
        Ok(Self {
            data: r.next()?,
            signature: r.next()?,
            aggregation_bits: BitList::from_bytes(&bytes[228..]).map_err(bits_err)?,
        })
    }
}

impl<E: EthSpec> Encode for AttestationElectra<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        let committee = self.committee_bits.clone().into_bytes();
        buf.extend(((4 + 128 + 96 + committee.len()) as u32).to_le_bytes());
        self.data.ssz_append(buf);
        self.signature.ssz_append(buf);
        buf.extend(committee);
        buf.extend(self.aggregation_bits.clone().into_bytes());
    }
}
impl<E: EthSpec> Decode for AttestationElectra<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        let n = E::MaxCommitteesPerSlot::to_usize().div_ceil(8);
        let fixed = 4 + 128 + 96 + n;
        let mut r = Reader::new(bytes, fixed)?;
        let offset = u32::from_le_bytes(r.raw(4).try_into().unwrap()) as usize;
        if offset != fixed {
            return Err(offset_err(offset, fixed));
        }
        Ok(Self {
            data: r.next()?,
            signature: r.next()?,
            committee_bits: BitVector::from_bytes(r.raw(n)).map_err(bits_err)?,
            aggregation_bits: BitList::from_bytes(&bytes[fixed..]).map_err(bits_err)?,
        })
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum AttestationOnDisk<E: EthSpec> {
    Base(AttestationBase<E>),
    Electra(AttestationElectra<E>),
}
impl<E: EthSpec> AttestationOnDisk<E> {
    pub fn to_ref(&self) -> AttestationRefOnDisk<'_, E> {
        match self {
            Self::Base(a) => AttestationRefOnDisk::Base(a),
            Self::Electra(a) => AttestationRefOnDisk::Electra(a),
        }
    }
}
#[derive(Debug, Clone)]
pub enum AttestationRefOnDisk<'a, E: EthSpec> {
    Base(&'a AttestationBase<E>),
    Electra(&'a AttestationElectra<E>),
}
impl<E: EthSpec> From<Attestation<E>> for AttestationOnDisk<E> {
    fn from(a: Attestation<E>) -> Self {
        match a {
            Attestation::Base(a) => Self::Base(a),
            Attestation::Electra(a) => Self::Electra(a),
        }
    }
}
impl<E: EthSpec> From<AttestationOnDisk<E>> for Attestation<E> {
    fn from(a: AttestationOnDisk<E>) -> Self {
        match a {
            AttestationOnDisk::Base(a) => Self::Base(a),
            AttestationOnDisk::Electra(a) => Self::Electra(a),
        }
    }
}
impl<'a, E: EthSpec> From<AttestationRef<'a, E>> for AttestationRefOnDisk<'a, E> {
    fn from(a: AttestationRef<'a, E>) -> Self {
        match a {
            AttestationRef::Base(a) => Self::Base(a),
            AttestationRef::Electra(a) => Self::Electra(a),
        }
    }
}
impl<'a, E: EthSpec> From<AttestationRefOnDisk<'a, E>> for AttestationRef<'a, E> {
    fn from(a: AttestationRefOnDisk<'a, E>) -> Self {
        match a {
            AttestationRefOnDisk::Base(a) => Self::Base(a),
            AttestationRefOnDisk::Electra(a) => Self::Electra(a),
        }
    }
}
impl<E: EthSpec> Encode for AttestationRefOnDisk<'_, E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        match self {
            Self::Base(a) => {
                buf.push(0);
                a.ssz_append(buf);
            }
            Self::Electra(a) => {
                buf.push(1);
                a.ssz_append(buf);
            }
        }
    }
}
impl<E: EthSpec> Encode for AttestationOnDisk<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        self.to_ref().ssz_append(buf)
    }
}
impl<E: EthSpec> Decode for AttestationOnDisk<E> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> {
        match bytes.split_first() {
            None => Err(DecodeError::OutOfBoundsByte { i: 0 }),
            Some((0, rest)) => AttestationBase::from_ssz_bytes(rest).map(Self::Base),
            Some((1, rest)) => AttestationElectra::from_ssz_bytes(rest).map(Self::Electra),
            Some((s, _)) => Err(DecodeError::UnionSelectorInvalid(*s)),
        }
    }
}
