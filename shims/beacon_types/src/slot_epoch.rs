use safe_arith::{ArithError, SafeArith};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Rem, Sub, SubAssign};
use std::str::FromStr;

macro_rules! wrapped_u64 {
    ($t:ident) => {
        #[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $t(u64);

        impl $t {
            pub const fn new(v: u64) -> Self {
                Self(v)
            }
            pub fn max_value() -> Self {
                Self(u64::MAX)
            }
            pub const fn as_u64(self) -> u64 {
                self.0
            }
            pub const fn as_usize(self) -> usize {
                self.0 as usize
            }
            pub fn saturating_add<T: Into<$t>>(&self, other: T) -> Self {
                Self(self.0.saturating_add(other.into().0))
            }
            pub fn saturating_sub<T: Into<$t>>(&self, other: T) -> Self {
                Self(self.0.saturating_sub(other.into().0))
            }
            pub fn saturating_mul(&self, other: u64) -> Self {
                Self(self.0.saturating_mul(other))
            }
            pub fn saturating_div(&self, other: u64) -> Option<Self> {
                self.0.checked_div(other).map(Self)
            }
            pub fn is_power_of_two(&self) -> bool {
                self.0.is_power_of_two()
            }
        }

        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}({})", stringify!($t), self.0)
            }
        }
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.0)
            }
        }
        impl FromStr for $t {
            type Err = std::num::ParseIntError;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                u64::from_str(s).map(Self)
            }
        }
        impl From<u64> for $t {
            fn from(v: u64) -> Self {
                Self(v)
            }
        }
        impl From<$t> for u64 {
            fn from(v: $t) -> u64 {
                v.0
            }
        }
        impl PartialEq<u64> for $t {
            fn eq(&self, o: &u64) -> bool {
                self.0 == *o
            }
        }
        impl PartialOrd<u64> for $t {
            fn partial_cmp(&self, o: &u64) -> Option<std::cmp::Ordering> {
                self.0.partial_cmp(o)
            }
        }

        // the `legacy-arith` operators saturate
        impl Add for $t {
            type Output = $t;
            fn add(self, o: $t) -> $t {
                Self(self.0.saturating_add(o.0))
            }
        }
        impl Sub for $t {
            type Output = $t;
            fn sub(self, o: $t) -> $t {
                Self(self.0.saturating_sub(o.0))
            }
        }
        impl Mul for $t {
            type Output = $t;
            fn mul(self, o: $t) -> $t {
                Self(self.0.saturating_mul(o.0))
            }
        }
        impl Div for $t {
            type Output = $t;
            fn div(self, o: $t) -> $t {
                Self(self.0.checked_div(o.0).unwrap_or(0))
            }
        }
        impl Rem for $t {
            type Output = $t;
            fn rem(self, o: $t) -> $t {
                Self(self.0 % o.0)
            }
        }
        impl Add<u64> for $t {
            type Output = $t;
            fn add(self, o: u64) -> $t {
                self + Self(o)
            }
        }
        impl Sub<u64> for $t {
            type Output = $t;
            fn sub(self, o: u64) -> $t {
                self - Self(o)
            }
        }
        impl Mul<u64> for $t {
            type Output = $t;
            fn mul(self, o: u64) -> $t {
                self * Self(o)
            }
        }
        impl Div<u64> for $t {
            type Output = $t;
            fn div(self, o: u64) -> $t {
                self / Self(o)
            }
        }
        impl Rem<u64> for $t {
            type Output = $t;
            fn rem(self, o: u64) -> $t {
                self % Self(o)
            }
        }
        impl AddAssign for $t {
            fn add_assign(&mut self, o: $t) {
                *self = *self + o
            }
        }
        impl SubAssign for $t {
            fn sub_assign(&mut self, o: $t) {
                *self = *self - o
            }
        }
        impl AddAssign<u64> for $t {
            fn add_assign(&mut self, o: u64) {
                *self = *self + o
            }
        }
        impl SubAssign<u64> for $t {
            fn sub_assign(&mut self, o: u64) {
                *self = *self - o
            }
        }
        impl MulAssign<u64> for $t {
            fn mul_assign(&mut self, o: u64) {
                *self = *self * o
            }
        }
        impl DivAssign<u64> for $t {
            fn div_assign(&mut self, o: u64) {
                *self = *self / o
            }
        }

        impl SafeArith for $t {
            const ZERO: Self = Self(0);
            const ONE: Self = Self(1);
            fn safe_add(&self, o: Self) -> Result<Self, ArithError> {
                self.0.safe_add(o.0).map(Self)
            }
            fn safe_sub(&self, o: Self) -> Result<Self, ArithError> {
                self.0.safe_sub(o.0).map(Self)
            }
            fn safe_mul(&self, o: Self) -> Result<Self, ArithError> {
                self.0.safe_mul(o.0).map(Self)
            }
            fn safe_div(&self, o: Self) -> Result<Self, ArithError> {
                self.0.safe_div(o.0).map(Self)
            }
            fn safe_rem(&self, o: Self) -> Result<Self, ArithError> {
                self.0.safe_rem(o.0).map(Self)
            }
            fn safe_shl(&self, o: u32) -> Result<Self, ArithError> {
                self.0.safe_shl(o).map(Self)
            }
            fn safe_shr(&self, o: u32) -> Result<Self, ArithError> {
                self.0.safe_shr(o).map(Self)
            }
        }
        impl SafeArith<u64> for $t {
            const ZERO: Self = Self(0);
            const ONE: Self = Self(1);
            fn safe_add(&self, o: u64) -> Result<Self, ArithError> {
                self.0.safe_add(o).map(Self)
            }
            fn safe_sub(&self, o: u64) -> Result<Self, ArithError> {
                self.0.safe_sub(o).map(Self)
            }
            fn safe_mul(&self, o: u64) -> Result<Self, ArithError> {
                self.0.safe_mul(o).map(Self)
            }
            fn safe_div(&self, o: u64) -> Result<Self, ArithError> {
                self.0.safe_div(o).map(Self)
            }
            fn safe_rem(&self, o: u64) -> Result<Self, ArithError> {
                self.0.safe_rem(o).map(Self)
            }
            fn safe_shl(&self, o: u32) -> Result<Self, ArithError> {
                self.0.safe_shl(o).map(Self)
            }
            fn safe_shr(&self, o: u32) -> Result<Self, ArithError> {
                self.0.safe_shr(o).map(Self)
            }
        }

        // lighthouse encodes these as quoted integers
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_str(&self.0.to_string())
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                String::deserialize(d)?.parse().map(Self).map_err(serde::de::Error::custom)
            }
        }

        impl ssz::Encode for $t {
            fn is_ssz_fixed_len() -> bool {
                true
            }
            fn ssz_fixed_len() -> usize {
                8
            }
            fn ssz_append(&self, buf: &mut Vec<u8>) {
                self.0.ssz_append(buf)
            }
        }
        impl ssz::Decode for $t {
            fn is_ssz_fixed_len() -> bool {
                true
            }
            fn ssz_fixed_len() -> usize {
                8
            }
            fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, ssz::DecodeError> {
                u64::from_ssz_bytes(bytes).map(Self)
            }
        }
        impl tree_hash::TreeHash for $t {
            fn tree_hash_type() -> tree_hash::TreeHashType {
                tree_hash::TreeHashType::Basic
            }
            fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding {
                self.0.tree_hash_packed_encoding()
            }
            fn tree_hash_packing_factor() -> usize {
                4
            }
            fn tree_hash_root(&self) -> tree_hash::Hash256 {
                self.0.tree_hash_root()
            }
        }
    };
}

wrapped_u64!(Slot);
wrapped_u64!(Epoch);

impl Slot {
    pub fn epoch(self, slots_per_epoch: u64) -> Epoch {
        Epoch::new(self.0) / Epoch::new(slots_per_epoch)
    }
}

impl Epoch {
    /// Position of `slot` in the epoch, if it belongs to it.
    pub fn position(self, slot: Slot, slots_per_epoch: u64) -> Option<usize> {
        let start = self.start_slot(slots_per_epoch);
        (slot >= start && slot < start.saturating_add(slots_per_epoch)).then(|| (slot - start).as_usize())
    }
    pub fn start_slot(self, slots_per_epoch: u64) -> Slot {
        Slot::new(self.0.saturating_mul(slots_per_epoch))
    }
    pub fn end_slot(self, slots_per_epoch: u64) -> Slot {
        Slot::new(self.0.saturating_mul(slots_per_epoch).saturating_add(slots_per_epoch.saturating_sub(1)))
    }
    pub fn slot_iter(&self, slots_per_epoch: u64) -> impl Iterator<Item = Slot> {
        let start = self.start_slot(slots_per_epoch).as_u64();
        (start..start + slots_per_epoch).map(Slot::new)
    }
}
