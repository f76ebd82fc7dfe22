//! Stand-in for lighthouse's safe_arith (cannot be fetched here).
pub mod iter;
pub use iter::SafeArithIter;

#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub enum ArithError {
    Overflow,
    DivisionByZero,
}

impl std::fmt::Display for ArithError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ArithError {}

pub type Result<T> = std::result::Result<T, ArithError>;

macro_rules! assign_method {
    ($name:ident, $op:ident) => {
        #[inline]
        fn $name(&mut self, other: Rhs) -> Result<()> {
            *self = self.$op(other)?;
            Ok(())
        }
    };
}

pub trait SafeArith<Rhs = Self>: Sized + Copy {
    const ZERO: Self;
    const ONE: Self;

    fn safe_add(&self, other: Rhs) -> Result<Self>;
    fn safe_sub(&self, other: Rhs) -> Result<Self>;
    fn safe_mul(&self, other: Rhs) -> Result<Self>;
    fn safe_div(&self, other: Rhs) -> Result<Self>;
    fn safe_rem(&self, other: Rhs) -> Result<Self>;
    fn safe_shl(&self, other: u32) -> Result<Self>;
    fn safe_shr(&self, other: u32) -> Result<Self>;

    assign_method!(safe_add_assign, safe_add);
    assign_method!(safe_sub_assign, safe_sub);
    assign_method!(safe_mul_assign, safe_mul);
    assign_method!(safe_div_assign, safe_div);
    assign_method!(safe_rem_assign, safe_rem);
}

macro_rules! impl_int {
    ($($t:ty)*) => { $(
        impl SafeArith for $t {
            const ZERO: Self = 0;
            const ONE: Self = 1;
            #[inline]
            fn safe_add(&self, o: Self) -> Result<Self> { self.checked_add(o).ok_or(ArithError::Overflow) }
            #[inline]
            fn safe_sub(&self, o: Self) -> Result<Self> { self.checked_sub(o).ok_or(ArithError::Overflow) }
            #[inline]
            fn safe_mul(&self, o: Self) -> Result<Self> { self.checked_mul(o).ok_or(ArithError::Overflow) }
            #[inline]
            fn safe_div(&self, o: Self) -> Result<Self> { self.checked_div(o).ok_or(ArithError::DivisionByZero) }
            #[inline]
            fn safe_rem(&self, o: Self) -> Result<Self> { self.checked_rem(o).ok_or(ArithError::DivisionByZero) }
            #[inline]
            fn safe_shl(&self, o: u32) -> Result<Self> { self.checked_shl(o).ok_or(ArithError::Overflow) }
            #[inline]
            fn safe_shr(&self, o: u32) -> Result<Self> { self.checked_shr(o).ok_or(ArithError::Overflow) }
        }
    )* };
}
impl_int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
