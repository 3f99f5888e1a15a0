#[inline(always)]
pub(crate) const fn mac(a: u64, b: u64, c: u64, carry: u64) -> (u64, u64) {
    let r = a as u128 + (b as u128) * (c as u128) + carry as u128;
    (r as u64, (r >> 64) as u64)
}
#[inline(always)]
pub(crate) const fn adc(a: u64, b: u64, carry: u64) -> (u64, u64) {
    let r = a as u128 + b as u128 + carry as u128;
    (r as u64, (r >> 64) as u64)
}
#[inline(always)]
pub(crate) const fn sbb(a: u64, b: u64, borrow: u64) -> (u64, u64) {
    let r = (a as u128).wrapping_sub(b as u128 + (borrow >> 63) as u128);
    (r as u64, (r >> 64) as u64)
}

macro_rules! pasta_field {
    ($F:ident, $modstr:expr, $M:expr, $INV:expr, $R2:expr, $R3:expr, $ROOT:expr, $ROOTINV:expr, $TWOINV:expr, $DELTA:expr, $ZETA:expr, $TM1D2:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub struct $F(pub(crate) [u64; 4]);
        impl $F {
            const M: [u64; 4] = $M;
            const INV: u64 = $INV;
            const R2: $F = $F($R2);
            const R3: $F = $F($R3);
            pub const fn from_raw(v: [u64; 4]) -> Self {
                $F(v).cmul(&Self::R2)
            }
            pub const fn zero() -> Self {
                $F([0; 4])
            }
            pub const fn one() -> Self {
                Self::from_raw([1, 0, 0, 0])
            }
            #[inline(always)]
            const fn sub_mod(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
                use crate::field::{adc, sbb};
                let (d0, br) = sbb(a[0], b[0], 0);
                let (d1, br) = sbb(a[1], b[1], br);
                let (d2, br) = sbb(a[2], b[2], br);
                let (d3, br) = sbb(a[3], b[3], br);
                let (d0, c) = adc(d0, Self::M[0] & br, 0);
                let (d1, c) = adc(d1, Self::M[1] & br, c);
                let (d2, c) = adc(d2, Self::M[2] & br, c);
                let (d3, _) = adc(d3, Self::M[3] & br, c);
                [d0, d1, d2, d3]
            }
            #[inline(always)]
            const fn cmul(&self, o: &Self) -> Self {
                use crate::field::{adc, mac};
                let a = &self.0;
                let b = &o.0;
                let mut t = [0u64; 8];
                let mut i = 0;
                while i < 4 {
                    let mut c = 0;
                    let mut j = 0;
                    while j < 4 {
                        let (v, c2) = mac(t[i + j], a[i], b[j], c);
                        t[i + j] = v;
                        c = c2;
                        j += 1;
                    }
                    t[i + 4] = c;
                    i += 1;
                }
                let mut carry2 = 0;
                let mut i = 0;
                while i < 4 {
                    let k = t[i].wrapping_mul(Self::INV);
                    let mut c = 0;
                    let mut j = 0;
                    while j < 4 {
                        let (v, c2) = mac(t[i + j], k, Self::M[j], c);
                        t[i + j] = v;
                        c = c2;
                        j += 1;
                    }
                    let (v, c2) = adc(t[i + 4], c, carry2);
                    t[i + 4] = v;
                    carry2 = c2;
                    i += 1;
                }
                $F(Self::sub_mod([t[4], t[5], t[6], t[7]], Self::M))
            }
            #[inline(always)]
            fn f_mul(&self, o: &Self) -> Self {
                self.cmul(o)
            }
            #[inline(always)]
            fn f_add(&self, o: &Self) -> Self {
                use crate::field::adc;
                let (d0, c) = adc(self.0[0], o.0[0], 0);
                let (d1, c) = adc(self.0[1], o.0[1], c);
                let (d2, c) = adc(self.0[2], o.0[2], c);
                let (d3, _) = adc(self.0[3], o.0[3], c);
                $F(Self::sub_mod([d0, d1, d2, d3], Self::M))
            }
            #[inline(always)]
            fn f_sub(&self, o: &Self) -> Self {
                $F(Self::sub_mod(self.0, o.0))
            }
            #[inline(always)]
            fn f_neg(&self) -> Self {
                $F(Self::sub_mod([0; 4], self.0))
            }
            pub fn neg(&self) -> Self {
                self.f_neg()
            }
            fn canonical(&self) -> [u64; 4] {
                self.cmul(&$F([1, 0, 0, 0])).0
            }
        }
        ff::impl_field_ops!($F);
        impl Default for $F {
            fn default() -> Self {
                $F([0; 4])
            }
        }
        impl core::fmt::Debug for $F {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                let c = self.canonical();
                write!(f, "0x{:016x}{:016x}{:016x}{:016x}", c[3], c[2], c[1], c[0])
            }
        }
        impl From<u64> for $F {
            fn from(v: u64) -> Self {
                $F([v, 0, 0, 0]) * Self::R2
            }
        }
        impl From<bool> for $F {
            fn from(v: bool) -> Self {
                Self::from(v as u64)
            }
        }
        impl Ord for $F {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                let a = self.canonical();
                let b = o.canonical();
                a.iter().rev().cmp(b.iter().rev())
            }
        }
        impl PartialOrd for $F {
            fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl core::hash::Hash for $F {
            fn hash<H: core::hash::Hasher>(&self, s: &mut H) {
                self.0.hash(s)
            }
        }
        impl subtle::ConstantTimeEq for $F {
            fn ct_eq(&self, o: &Self) -> subtle::Choice {
                subtle::Choice::from((self.0 == o.0) as u8)
            }
        }
        impl subtle::ConditionallySelectable for $F {
            fn conditional_select(a: &Self, b: &Self, c: subtle::Choice) -> Self {
                if c.into() { *b } else { *a }
            }
        }
        impl ff::Field for $F {
            const ZERO: Self = $F([0; 4]);
            const ONE: Self = Self::from_raw([1, 0, 0, 0]);
            fn random<R: rand_core::Rng + ?Sized>(rng: &mut R) -> Self {
                let mut b = [0u8; 64];
                rng.fill_bytes(&mut b);
                <Self as ff::FromUniformBytes<64>>::from_uniform_bytes(&b)
            }
            #[inline]
            fn square(&self) -> Self {
                self.cmul(self)
            }
            #[inline]
            fn double(&self) -> Self {
                self.f_add(self)
            }
            fn invert(&self) -> subtle::CtOption<Self> {
                let mut e = Self::M;
                e[0] -= 2;
                let r = self.pow_vartime(e);
                subtle::CtOption::new(r, !self.is_zero())
            }
            fn sqrt_ratio(num: &Self, div: &Self) -> (subtle::Choice, Self) {
                use subtle::Choice;
                if num.is_zero_vartime() {
                    return (Choice::from(1), Self::ZERO);
                }
                if div.is_zero_vartime() {
                    return (Choice::from(0), Self::ZERO);
                }
                let root = <Self as ff::PrimeField>::ROOT_OF_UNITY;
                let a = *num * div.invert().unwrap();
                // Tonelli-Shanks
                let go = |a: Self| -> Option<Self> {
                    let w = a.pow_vartime($TM1D2);
                    let mut v = <Self as ff::PrimeField>::S;
                    let mut x = a * w;
                    let mut b = x * w;
                    let mut z = root;
                    while b != Self::ONE {
                        let mut k = 0;
                        let mut b2k = b;
                        while b2k != Self::ONE {
                            b2k = b2k.square();
                            k += 1;
                            if k >= v {
                                return None;
                            }
                        }
                        let mut w = z;
                        for _ in 0..(v - k - 1) {
                            w = w.square();
                        }
                        z = w.square();
                        b *= z;
                        x *= w;
                        v = k;
                    }
                    Some(x)
                };
                match go(a) {
                    Some(x) => (Choice::from(1), x),
                    None => (Choice::from(0), go(a * root).expect("root * non-square is square")),
                }
            }
        }
        impl ff::PrimeField for $F {
            type Repr = [u8; 32];
            fn from_repr(r: [u8; 32]) -> subtle::CtOption<Self> {
                let mut v = [0u64; 4];
                for i in 0..4 {
                    let mut t = [0u8; 8];
                    t.copy_from_slice(&r[8 * i..8 * i + 8]);
                    v[i] = u64::from_le_bytes(t);
                }
                let lt = v.iter().rev().lt(Self::M.iter().rev());
                subtle::CtOption::new(if lt { $F(v) * Self::R2 } else { Self::zero() }, subtle::Choice::from(lt as u8))
            }
            fn to_repr(&self) -> [u8; 32] {
                let c = self.canonical();
                let mut r = [0u8; 32];
                for i in 0..4 {
                    r[8 * i..8 * i + 8].copy_from_slice(&c[i].to_le_bytes());
                }
                r
            }
            fn is_odd(&self) -> subtle::Choice {
                subtle::Choice::from((self.canonical()[0] & 1) as u8)
            }
            const MODULUS: &'static str = $modstr;
            const NUM_BITS: u32 = 255;
            const CAPACITY: u32 = 254;
            const TWO_INV: Self = Self::from_raw($TWOINV);
            const MULTIPLICATIVE_GENERATOR: Self = Self::from_raw([5, 0, 0, 0]);
            const S: u32 = 32;
            const ROOT_OF_UNITY: Self = Self::from_raw($ROOT);
            const ROOT_OF_UNITY_INV: Self = Self::from_raw($ROOTINV);
            const DELTA: Self = Self::from_raw($DELTA);
        }
        impl ff::FromUniformBytes<64> for $F {
            fn from_uniform_bytes(b: &[u8; 64]) -> Self {
                let mut v = [0u64; 8];
                for i in 0..8 {
                    let mut t = [0u8; 8];
                    t.copy_from_slice(&b[8 * i..8 * i + 8]);
                    v[i] = u64::from_le_bytes(t);
                }
                $F([v[0], v[1], v[2], v[3]]) * Self::R2 + $F([v[4], v[5], v[6], v[7]]) * Self::R3
            }
        }
        impl ff::WithSmallOrderMulGroup<3> for $F {
            const ZETA: Self = Self::from_raw($ZETA);
        }
    };
}
