//! Offline stand-in for the `ff` crate (the 0.14 pre-release fork that the repository names by git
//! URL is not available in this sandbox). Trait surface as used by the repository; semantics as
//! documented by `ff`.
#![no_std]
#![allow(clippy::all)]
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use rand_core::Rng;
pub use rand_core;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub trait Field:
    Sized
    + Eq
    + Copy
    + Clone
    + Default
    + Send
    + Sync
    + fmt::Debug
    + 'static
    + ConditionallySelectable
    + ConstantTimeEq
    + Neg<Output = Self>
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Sum
    + Product
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + for<'a> Sum<&'a Self>
    + for<'a> Product<&'a Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + for<'a> MulAssign<&'a Self>
{
    const ZERO: Self;
    const ONE: Self;

    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self;
    fn is_zero(&self) -> Choice {
        self.ct_eq(&Self::ZERO)
    }
    fn is_zero_vartime(&self) -> bool {
        self.is_zero().into()
    }
    fn square(&self) -> Self;
    fn cube(&self) -> Self {
        self.square() * self
    }
    fn double(&self) -> Self;
    fn invert(&self) -> CtOption<Self>;
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self);
    fn sqrt_alt(&self) -> (Choice, Self) {
        Self::sqrt_ratio(self, &Self::ONE)
    }
    fn sqrt(&self) -> CtOption<Self> {
        let (is_square, res) = Self::sqrt_ratio(self, &Self::ONE);
        CtOption::new(res, is_square)
    }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        self.pow_vartime(exp)
    }
    fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        let mut started = false;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                if started {
                    res = res.square();
                }
                if ((*e >> i) & 1) == 1 {
                    started = true;
                    res.mul_assign(self);
                }
            }
        }
        res
    }
}

pub trait PrimeField: Field + From<u64> {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;
    fn from_u128(v: u128) -> Self {
        let lo = Self::from(v as u64);
        let hi = Self::from((v >> 64) as u64);
        let mut s = hi;
        for _ in 0..64 {
            s = s.double();
        }
        s + lo
    }
    fn from_repr(repr: Self::Repr) -> CtOption<Self>;
    fn from_repr_vartime(repr: Self::Repr) -> Option<Self> {
        Self::from_repr(repr).into()
    }
    fn to_repr(&self) -> Self::Repr;
    fn is_odd(&self) -> Choice;
    fn is_even(&self) -> Choice {
        !self.is_odd()
    }
    const MODULUS: &'static str;
    const NUM_BITS: u32;
    const CAPACITY: u32;
    const TWO_INV: Self;
    const MULTIPLICATIVE_GENERATOR: Self;
    const S: u32;
    const ROOT_OF_UNITY: Self;
    const ROOT_OF_UNITY_INV: Self;
    const DELTA: Self;
}

pub trait FromUniformBytes<const N: usize>: PrimeField {
    fn from_uniform_bytes(bytes: &[u8; N]) -> Self;
}

pub trait WithSmallOrderMulGroup<const N: u8>: PrimeField {
    const ZETA: Self;
}

/// Batch inversion; zero elements stay zero.
pub struct BatchInverter {}
impl BatchInverter {
    pub fn invert_with_external_scratch<F: Field>(elements: &mut [F], scratch: &mut [F]) -> F {
        assert_eq!(elements.len(), scratch.len());
        let mut acc = F::ONE;
        for (e, s) in elements.iter().zip(scratch.iter_mut()) {
            *s = acc;
            if !e.is_zero_vartime() {
                acc *= e;
            }
        }
        acc = acc.invert().unwrap();
        let all = acc;
        for (e, s) in elements.iter_mut().zip(scratch.iter()).rev() {
            if !e.is_zero_vartime() {
                let tmp = acc * &*e;
                *e = acc * s;
                acc = tmp;
            }
        }
        all
    }
}

/// Implements the operator traits of `Field` for a `Copy` type `$t` from inherent
/// `f_add`, `f_sub`, `f_mul`, `f_neg`.
#[macro_export]
macro_rules! impl_field_ops {
    ($t:ty) => {
        impl ::core::ops::Neg for $t {
            type Output = $t;
            #[inline]
            fn neg(self) -> $t {
                self.f_neg()
            }
        }
        impl<'a> ::core::ops::Neg for &'a $t {
            type Output = $t;
            #[inline]
            fn neg(self) -> $t {
                self.f_neg()
            }
        }
        $crate::impl_binop!($t, Add, add, AddAssign, add_assign, f_add);
        $crate::impl_binop!($t, Sub, sub, SubAssign, sub_assign, f_sub);
        $crate::impl_binop!($t, Mul, mul, MulAssign, mul_assign, f_mul);
        impl ::core::iter::Sum for $t {
            fn sum<I: Iterator<Item = $t>>(iter: I) -> $t {
                iter.fold(<$t as $crate::Field>::ZERO, |a, b| a + b)
            }
        }
        impl<'a> ::core::iter::Sum<&'a $t> for $t {
            fn sum<I: Iterator<Item = &'a $t>>(iter: I) -> $t {
                iter.fold(<$t as $crate::Field>::ZERO, |a, b| a + b)
            }
        }
        impl ::core::iter::Product for $t {
            fn product<I: Iterator<Item = $t>>(iter: I) -> $t {
                iter.fold(<$t as $crate::Field>::ONE, |a, b| a * b)
            }
        }
        impl<'a> ::core::iter::Product<&'a $t> for $t {
            fn product<I: Iterator<Item = &'a $t>>(iter: I) -> $t {
                iter.fold(<$t as $crate::Field>::ONE, |a, b| a * b)
            }
        }
    };
}
#[macro_export]
macro_rules! impl_binop {
    ($t:ty, $Op:ident, $op:ident, $OpA:ident, $opa:ident, $f:ident) => {
        impl ::core::ops::$Op for $t {
            type Output = $t;
            #[inline]
            fn $op(self, o: $t) -> $t {
                self.$f(&o)
            }
        }
        impl<'a> ::core::ops::$Op<&'a $t> for $t {
            type Output = $t;
            #[inline]
            fn $op(self, o: &'a $t) -> $t {
                self.$f(o)
            }
        }
        impl<'a> ::core::ops::$Op<$t> for &'a $t {
            type Output = $t;
            #[inline]
            fn $op(self, o: $t) -> $t {
                self.$f(&o)
            }
        }
        impl<'a, 'b> ::core::ops::$Op<&'b $t> for &'a $t {
            type Output = $t;
            #[inline]
            fn $op(self, o: &'b $t) -> $t {
                self.$f(o)
            }
        }
        impl ::core::ops::$OpA for $t {
            #[inline]
            fn $opa(&mut self, o: $t) {
                *self = (*self).$f(&o)
            }
        }
        impl<'a> ::core::ops::$OpA<&'a $t> for $t {
            #[inline]
            fn $opa(&mut self, o: &'a $t) {
                *self = (*self).$f(o)
            }
        }
    };
}
