#[macro_export]
macro_rules! curve {
    ($P:ident, $A:ident, $B:ident, $S:ident, $id:expr, $b:expr, $gen:expr) => {
        /// Jacobian point.
        #[derive(Clone, Copy, Debug)]
        pub struct $P {
            x: $B,
            y: $B,
            z: $B,
        }
        /// Affine point; the identity is `inf`.
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $A {
            x: $B,
            y: $B,
            inf: bool,
        }
        const _: () = {
            use ff::{Field, PrimeField, WithSmallOrderMulGroup};
            use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
            use group::{Curve, Group};
            use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
            use $crate::arithmetic::{Coordinates, CurveAffine, CurveExt};
            impl Default for $P {
                fn default() -> Self {
                    Self::identity()
                }
            }
            impl Default for $A {
                fn default() -> Self {
                    <$A as PrimeCurveAffine>::identity()
                }
            }
            impl PartialEq for $P {
                fn eq(&self, o: &Self) -> bool {
                    let (i, j) = (self.z.is_zero_vartime(), o.z.is_zero_vartime());
                    if i || j {
                        return i == j;
                    }
                    let z1 = self.z.square();
                    let z2 = o.z.square();
                    self.x * z2 == o.x * z1 && self.y * z2 * o.z == o.y * z1 * self.z
                }
            }
            impl core::cmp::Eq for $P {}
            impl $P {
                fn padd(&self, o: &$P) -> $P {
                    if self.z.is_zero_vartime() {
                        return *o;
                    }
                    if o.z.is_zero_vartime() {
                        return *self;
                    }
                    let z1z1 = self.z.square();
                    let z2z2 = o.z.square();
                    let u1 = self.x * z2z2;
                    let u2 = o.x * z1z1;
                    let s1 = self.y * z2z2 * o.z;
                    let s2 = o.y * z1z1 * self.z;
                    if u1 == u2 {
                        if s1 == s2 {
                            return self.pdouble();
                        }
                        return Self::identity();
                    }
                    let h = u2 - u1;
                    let hh = h.square();
                    let hhh = hh * h;
                    let r = s2 - s1;
                    let v = u1 * hh;
                    let x = r.square() - hhh - v.double();
                    let y = r * (v - x) - s1 * hhh;
                    let z = self.z * o.z * h;
                    $P { x, y, z }
                }
                fn madd(&self, o: &$A) -> $P {
                    if o.inf {
                        return *self;
                    }
                    if self.z.is_zero_vartime() {
                        return o.to_curve();
                    }
                    let z1z1 = self.z.square();
                    let u2 = o.x * z1z1;
                    let s2 = o.y * z1z1 * self.z;
                    if self.x == u2 {
                        if self.y == s2 {
                            return self.pdouble();
                        }
                        return Self::identity();
                    }
                    let h = u2 - self.x;
                    let hh = h.square();
                    let hhh = hh * h;
                    let r = s2 - self.y;
                    let v = self.x * hh;
                    let x = r.square() - hhh - v.double();
                    let y = r * (v - x) - self.y * hhh;
                    let z = self.z * h;
                    $P { x, y, z }
                }
                fn pdouble(&self) -> $P {
                    if self.z.is_zero_vartime() || self.y.is_zero_vartime() {
                        return Self::identity();
                    }
                    let a = self.x.square();
                    let b = self.y.square();
                    let c = b.square();
                    let d = ((self.x + b).square() - a - c).double();
                    let e = a.double() + a;
                    let f = e.square();
                    let z = (self.z * self.y).double();
                    let x = f - d.double();
                    let y = e * (d - x) - c.double().double().double();
                    $P { x, y, z }
                }
                fn pmul(&self, s: &$S) -> $P {
                    let mut acc = Self::identity();
                    // 4-bit windows
                    let mut table = [Self::identity(); 16];
                    for i in 1..16 {
                        table[i] = table[i - 1].padd(self);
                    }
                    for byte in s.to_repr().as_ref().iter().rev() {
                        for nib in [byte >> 4, byte & 15] {
                            for _ in 0..4 {
                                acc = acc.pdouble();
                            }
                            acc = acc.padd(&table[nib as usize]);
                        }
                    }
                    acc
                }
                fn pneg(&self) -> $P {
                    $P { x: self.x, y: -self.y, z: self.z }
                }
            }
            impl ConstantTimeEq for $P {
                fn ct_eq(&self, o: &Self) -> Choice {
                    Choice::from((self == o) as u8)
                }
            }
            impl ConstantTimeEq for $A {
                fn ct_eq(&self, o: &Self) -> Choice {
                    Choice::from((self == o) as u8)
                }
            }
            impl ConditionallySelectable for $P {
                fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                    if c.into() { *b } else { *a }
                }
            }
            impl ConditionallySelectable for $A {
                fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                    if c.into() { *b } else { *a }
                }
            }
            impl core::ops::Neg for $P {
                type Output = $P;
                fn neg(self) -> $P {
                    self.pneg()
                }
            }
            impl core::ops::Neg for &$P {
                type Output = $P;
                fn neg(self) -> $P {
                    self.pneg()
                }
            }
            impl core::ops::Neg for $A {
                type Output = $A;
                fn neg(self) -> $A {
                    $A { x: self.x, y: -self.y, inf: self.inf }
                }
            }
            $crate::curve_ops!($P, $P, $P, padd, pneg);
            $crate::curve_ops!($P, $A, $P, madd, neg);
            impl core::ops::Add<$A> for $A {
                type Output = $P;
                fn add(self, o: $A) -> $P {
                    self.to_curve().madd(&o)
                }
            }
            impl core::ops::Sub<$A> for $A {
                type Output = $P;
                fn sub(self, o: $A) -> $P {
                    self.to_curve().madd(&-o)
                }
            }
            impl core::ops::Mul<$S> for $P {
                type Output = $P;
                fn mul(self, s: $S) -> $P {
                    self.pmul(&s)
                }
            }
            impl<'r> core::ops::Mul<&'r $S> for $P {
                type Output = $P;
                fn mul(self, s: &'r $S) -> $P {
                    self.pmul(s)
                }
            }
            impl core::ops::MulAssign<$S> for $P {
                fn mul_assign(&mut self, s: $S) {
                    *self = self.pmul(&s)
                }
            }
            impl<'r> core::ops::MulAssign<&'r $S> for $P {
                fn mul_assign(&mut self, s: &'r $S) {
                    *self = self.pmul(s)
                }
            }
            impl core::ops::Mul<$S> for $A {
                type Output = $P;
                fn mul(self, s: $S) -> $P {
                    self.to_curve().pmul(&s)
                }
            }
            impl<'r> core::ops::Mul<&'r $S> for $A {
                type Output = $P;
                fn mul(self, s: &'r $S) -> $P {
                    self.to_curve().pmul(s)
                }
            }
            impl<'r, 's> core::ops::Mul<&'r $S> for &'s $A {
                type Output = $P;
                fn mul(self, s: &'r $S) -> $P {
                    self.to_curve().pmul(s)
                }
            }
            impl<'r, 's> core::ops::Mul<&'r $S> for &'s $P {
                type Output = $P;
                fn mul(self, s: &'r $S) -> $P {
                    self.pmul(s)
                }
            }
            impl core::iter::Sum for $P {
                fn sum<I: Iterator<Item = $P>>(i: I) -> $P {
                    i.fold(Self::identity(), |a, b| a + b)
                }
            }
            impl<'a> core::iter::Sum<&'a $P> for $P {
                fn sum<I: Iterator<Item = &'a $P>>(i: I) -> $P {
                    i.fold(Self::identity(), |a, b| a + b)
                }
            }
            impl From<$A> for $P {
                fn from(a: $A) -> $P {
                    a.to_curve()
                }
            }
            impl From<$P> for $A {
                fn from(p: $P) -> $A {
                    p.to_affine()
                }
            }
            impl Group for $P {
                type Scalar = $S;
                fn random<R: rand_core::Rng + ?Sized>(rng: &mut R) -> Self {
                    Self::generator() * $S::random(rng)
                }
                fn identity() -> Self {
                    $P { x: $B::ZERO, y: $B::ONE, z: $B::ZERO }
                }
                fn generator() -> Self {
                    let (x, y): ($B, $B) = $gen;
                    $P { x, y, z: $B::ONE }
                }
                fn is_identity(&self) -> Choice {
                    self.z.is_zero()
                }
                fn double(&self) -> Self {
                    self.pdouble()
                }
            }
            impl Curve for $P {
                type AffineRepr = $A;
                fn batch_normalize(p: &[Self], q: &mut [$A]) {
                    assert_eq!(p.len(), q.len());
                    let mut acc = $B::ONE;
                    let mut pre = alloc::vec::Vec::with_capacity(p.len());
                    for p in p {
                        pre.push(acc);
                        if !p.z.is_zero_vartime() {
                            acc *= p.z;
                        }
                    }
                    let mut inv = acc.invert().unwrap();
                    for i in (0..p.len()).rev() {
                        if p[i].z.is_zero_vartime() {
                            q[i] = <$A as PrimeCurveAffine>::identity();
                        } else {
                            let zi = inv * pre[i];
                            inv *= p[i].z;
                            let zi2 = zi.square();
                            q[i] = $A { x: p[i].x * zi2, y: p[i].y * zi2 * zi, inf: false };
                        }
                    }
                }
                fn to_affine(&self) -> $A {
                    if self.z.is_zero_vartime() {
                        return <$A as PrimeCurveAffine>::identity();
                    }
                    let zi = self.z.invert().unwrap();
                    let zi2 = zi.square();
                    $A { x: self.x * zi2, y: self.y * zi2 * zi, inf: false }
                }
            }
            impl PrimeGroup for $P {}
            impl PrimeCurve for $P {
                type Affine = $A;
            }
            impl PrimeCurveAffine for $A {
                type Scalar = $S;
                type Curve = $P;
                fn identity() -> Self {
                    $A { x: $B::ZERO, y: $B::ZERO, inf: true }
                }
                fn generator() -> Self {
                    let (x, y): ($B, $B) = $gen;
                    $A { x, y, inf: false }
                }
                fn is_identity(&self) -> Choice {
                    Choice::from(self.inf as u8)
                }
                fn to_curve(&self) -> $P {
                    if self.inf {
                        $P::identity()
                    } else {
                        $P { x: self.x, y: self.y, z: $B::ONE }
                    }
                }
            }
            impl CurveExt for $P {
                type ScalarExt = $S;
                type Base = $B;
                type AffineExt = $A;
                const CURVE_ID: &'static str = $id;
                fn endo(&self) -> Self {
                    $P { x: self.x * <$B as WithSmallOrderMulGroup<3>>::ZETA, y: self.y, z: self.z }
                }
                fn jacobian_coordinates(&self) -> ($B, $B, $B) {
                    (self.x, self.y, self.z)
                }
                fn hash_to_curve<'a>(domain: &'a str) -> alloc::boxed::Box<dyn Fn(&[u8]) -> Self + 'a> {
                    alloc::boxed::Box::new(move |msg| {
                        let mut ctr = 0u32;
                        loop {
                            let mut st = blake2b_simd::Params::new().personal(b"shim_h2c").to_state();
                            st.update($id.as_bytes());
                            st.update(&[0]);
                            st.update(domain.as_bytes());
                            st.update(&[0]);
                            st.update(&ctr.to_le_bytes());
                            st.update(msg);
                            let x = <$B as ff::FromUniformBytes<64>>::from_uniform_bytes(st.finalize().as_array());
                            let y2 = x.square() * x + <$P as CurveExt>::b();
                            if let Some(y) = Option::<$B>::from(y2.sqrt()) {
                                return $P { x, y, z: $B::ONE };
                            }
                            ctr += 1;
                        }
                    })
                }
                fn is_on_curve(&self) -> Choice {
                    <$A as CurveAffine>::is_on_curve(&self.to_affine())
                }
                fn a() -> $B {
                    $B::ZERO
                }
                fn b() -> $B {
                    $B::from($b)
                }
                fn new_jacobian(x: $B, y: $B, z: $B) -> CtOption<Self> {
                    let p = $P { x, y, z };
                    CtOption::new(p, <$P as CurveExt>::is_on_curve(&p))
                }
            }
            impl CurveAffine for $A {
                type ScalarExt = $S;
                type Base = $B;
                type CurveExt = $P;
                fn coordinates(&self) -> CtOption<Coordinates<Self>> {
                    CtOption::new(Coordinates::new_unchecked(self.x, self.y), Choice::from(!self.inf as u8))
                }
                fn from_xy(x: $B, y: $B) -> CtOption<Self> {
                    let p = $A { x, y, inf: false };
                    CtOption::new(p, <$A as CurveAffine>::is_on_curve(&p))
                }
                fn is_on_curve(&self) -> Choice {
                    (self.y.square() - self.x.square() * self.x).ct_eq(&<$A as CurveAffine>::b())
                        | Choice::from(self.inf as u8)
                }
                fn a() -> $B {
                    $B::ZERO
                }
                fn b() -> $B {
                    $B::from($b)
                }
            }
        };
    };
}
#[macro_export]
macro_rules! curve_ops {
    ($P:ident, $O:ident, $Out:ident, $add:ident, $neg:ident) => {
        impl core::ops::Add<$O> for $P {
            type Output = $Out;
            fn add(self, o: $O) -> $Out {
                self.$add(&o)
            }
        }
        impl<'a> core::ops::Add<&'a $O> for $P {
            type Output = $Out;
            fn add(self, o: &'a $O) -> $Out {
                self.$add(o)
            }
        }
        impl core::ops::Sub<$O> for $P {
            type Output = $Out;
            fn sub(self, o: $O) -> $Out {
                self.$add(&core::ops::Neg::neg(o))
            }
        }
        impl<'a> core::ops::Sub<&'a $O> for $P {
            type Output = $Out;
            fn sub(self, o: &'a $O) -> $Out {
                self.$add(&core::ops::Neg::neg(*o))
            }
        }
        impl core::ops::AddAssign<$O> for $P {
            fn add_assign(&mut self, o: $O) {
                *self = self.$add(&o)
            }
        }
        impl<'a> core::ops::AddAssign<&'a $O> for $P {
            fn add_assign(&mut self, o: &'a $O) {
                *self = self.$add(o)
            }
        }
        impl core::ops::SubAssign<$O> for $P {
            fn sub_assign(&mut self, o: $O) {
                *self = self.$add(&core::ops::Neg::neg(o))
            }
        }
        impl<'a> core::ops::SubAssign<&'a $O> for $P {
            fn sub_assign(&mut self, o: &'a $O) {
                *self = self.$add(&core::ops::Neg::neg(*o))
            }
        }
    };
}
