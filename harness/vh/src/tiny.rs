//! Small prime fields with the full `ff` interface, and small short-Weierstrass curves over them.

pub const fn powm(mut b: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    b %= m;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % m;
        }
        b = b * b % m;
        e >>= 1;
    }
    r
}
pub const fn two_adicity(p: u64) -> u32 {
    (p - 1).trailing_zeros()
}
pub const fn bits(p: u64) -> u32 {
    64 - p.leading_zeros()
}

#[macro_export]
macro_rules! tiny_field {
    ($F:ident, $p:expr, $gen:expr, $m:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        pub struct $F(pub u32);
        impl $F {
            pub const P: u64 = $p;
            pub const fn new(v: u64) -> Self {
                $F((v % $p) as u32)
            }
            pub fn v(self) -> u32 {
                self.0
            }
            fn f_add(&self, o: &Self) -> Self {
                Self::new(self.0 as u64 + o.0 as u64)
            }
            fn f_sub(&self, o: &Self) -> Self {
                Self::new(self.0 as u64 + $p - o.0 as u64)
            }
            fn f_mul(&self, o: &Self) -> Self {
                Self::new(self.0 as u64 * o.0 as u64)
            }
            fn f_neg(&self) -> Self {
                Self::new($p - self.0 as u64)
            }
        }
        ff::impl_field_ops!($F);
        impl core::fmt::Debug for $F {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                write!(f, "{}", self.0)
            }
        }
        impl From<u64> for $F {
            fn from(v: u64) -> Self {
                Self::new(v)
            }
        }
        impl From<$F> for $crate::J {
            fn from(v: $F) -> $crate::J {
                $crate::J::N(v.0 as i64)
            }
        }
        impl From<bool> for $F {
            fn from(v: bool) -> Self {
                $F(v as u32)
            }
        }
        impl subtle::ConstantTimeEq for $F {
            fn ct_eq(&self, o: &Self) -> subtle::Choice {
                subtle::Choice::from((self.0 == o.0) as u8)
            }
        }
        impl subtle::ConditionallySelectable for $F {
            fn conditional_select(a: &Self, b: &Self, c: subtle::Choice) -> Self {
                if c.into() { *b } else { *a }
            }
        }
        impl ff::Field for $F {
            const ZERO: Self = $F(0);
            const ONE: Self = $F(1);
            fn random<R: rand::Rng + ?Sized>(rng: &mut R) -> Self {
                Self::new(rng.next_u64() >> 8)
            }
            fn square(&self) -> Self {
                self.f_mul(self)
            }
            fn double(&self) -> Self {
                self.f_add(self)
            }
            fn invert(&self) -> subtle::CtOption<Self> {
                subtle::CtOption::new(
                    Self::new($crate::tiny::powm(self.0 as u64, $p - 2, $p)),
                    subtle::Choice::from((self.0 != 0) as u8),
                )
            }
            fn sqrt_ratio(num: &Self, div: &Self) -> (subtle::Choice, Self) {
                use subtle::Choice;
                if num.0 == 0 {
                    return (Choice::from(1), $F(0));
                }
                if div.0 == 0 {
                    return (Choice::from(0), $F(0));
                }
                let a = *num * div.invert().unwrap();
                let root = |a: u64| (0..$p as u64).find(|x| x * x % $p == a);
                match root(a.0 as u64) {
                    Some(x) => (Choice::from(1), Self::new(x)),
                    None => {
                        let b = a * <Self as ff::PrimeField>::ROOT_OF_UNITY;
                        (Choice::from(0), Self::new(root(b.0 as u64).unwrap()))
                    }
                }
            }
        }
        impl ff::PrimeField for $F {
            type Repr = [u8; 8];
            fn from_repr(r: [u8; 8]) -> subtle::CtOption<Self> {
                let v = u64::from_le_bytes(r);
                subtle::CtOption::new(Self::new(v), subtle::Choice::from((v < $p) as u8))
            }
            fn to_repr(&self) -> [u8; 8] {
                (self.0 as u64).to_le_bytes()
            }
            fn is_odd(&self) -> subtle::Choice {
                subtle::Choice::from((self.0 & 1) as u8)
            }
            const MODULUS: &'static str = $m;
            const NUM_BITS: u32 = $crate::tiny::bits($p);
            const CAPACITY: u32 = $crate::tiny::bits($p) - 1;
            const TWO_INV: Self = Self::new(($p + 1) / 2);
            const MULTIPLICATIVE_GENERATOR: Self = $F($gen);
            const S: u32 = $crate::tiny::two_adicity($p);
            const ROOT_OF_UNITY: Self =
                Self::new($crate::tiny::powm($gen, ($p - 1) >> $crate::tiny::two_adicity($p), $p));
            const ROOT_OF_UNITY_INV: Self = Self::new($crate::tiny::powm(
                $crate::tiny::powm($gen, ($p - 1) >> $crate::tiny::two_adicity($p), $p),
                $p - 2,
                $p,
            ));
            const DELTA: Self = Self::new($crate::tiny::powm($gen, 1 << $crate::tiny::two_adicity($p), $p));
        }
        impl ff::FromUniformBytes<64> for $F {
            fn from_uniform_bytes(b: &[u8; 64]) -> Self {
                let mut acc = 0u64;
                for x in b.iter().rev() {
                    acc = (acc * 256 + *x as u64) % $p;
                }
                Self::new(acc)
            }
        }
        impl ff::WithSmallOrderMulGroup<3> for $F {
            const ZETA: Self = Self::new($crate::tiny::powm($gen, ($p - 1) / 3, $p));
        }
    };
}

tiny_field!(F7, 7, 3, "0x7");
tiny_field!(F13, 13, 2, "0xd");
tiny_field!(F97, 97, 5, "0x61");
tiny_field!(F12289, 12289, 11, "0x3001");
tiny_field!(F79, 79, 3, "0x4f");
use ff::rand_core;
use pasta_curves::{Fp, Fq};
pasta_curves::curve!(E13, E13A, F13, F7, "e13", 7u64, (F13(7), F13(5)));
// A cycle: #E97 = 79 and #E79 = 97.
pasta_curves::curve!(E97, E97A, F97, F79, "e97", 5u64, (F97(1), F97(43)));
pasta_curves::curve!(E79, E79A, F79, F97, "e79", 3u64, (F79(1), F79(2)));
// The same points with 255-bit scalars (the scalar field is only read bit by bit).
pasta_curves::curve!(E97W, E97WA, F97, Fp, "e97w", 5u64, (F97(1), F97(43)));
pasta_curves::curve!(E79W, E79WA, F79, Fq, "e79w", 3u64, (F79(1), F79(2)));
