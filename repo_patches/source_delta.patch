From 21a62cd510377e6a84a846ebbcfc07edf041d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 01/10] fix: do not hold the virtual table borrow while an
 enforce_zero closure runs in s(X, y)

LinearExpression::extend takes owned wires, which it drops inside the closure;
dropping (or cloning) a virtual wire there borrowed the table again and
panicked, although every other driver accepts the same circuit.
---
 crates/ragu_circuits/src/s/sy.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/ragu_circuits/src/s/sy.rs b/crates/ragu_circuits/src/s/sy.rs
index 380fd5e..2b80559 100644
--- a/crates/ragu_circuits/src/s/sy.rs
+++ b/crates/ragu_circuits/src/s/sy.rs
@@ -71,7 +71,7 @@ use ragu_core::{
 };
 
 use alloc::{vec, vec::Vec};
-use core::cell::{RefCell, RefMut};
+use core::cell::RefCell;
 
 use crate::{
     DriverScope,
@@ -450,21 +450,21 @@ impl<'table, 'sy, F: Field, R: Rank> LinearExpression<Wire<'table, 'sy, F, R>, F
 ///
 /// # Tuple Fields
 ///
-/// - `.0` — Mutable borrow of the [`VirtualTable`] for value distribution,
-///   held for the duration of the linear combination to avoid repeated
-///   [`RefCell::borrow_mut`] calls.
+/// - `.0` — Reference to the [`VirtualTable`] for value distribution, borrowed
+///   only while a term is added: the linear combination's closure may itself
+///   clone or drop wires (as [`LinearExpression::extend`] does).
 /// - `.1` — The $y^j$ coefficient for this constraint (from `current_y`).
 ///
 /// [`Driver::enforce_zero`]: ragu_core::drivers::Driver::enforce_zero
 struct TermEnforcer<'table, 'sy, F: Field, R: Rank>(
-    RefMut<'table, VirtualTable<'sy, F, R>>,
+    &'table RefCell<VirtualTable<'sy, F, R>>,
     Coeff<F>,
 );
 impl<'table, 'sy, F: Field, R: Rank> LinearExpression<Wire<'table, 'sy, F, R>, F>
     for TermEnforcer<'table, 'sy, F, R>
 {
-    fn add_term(mut self, wire: &Wire<'table, 'sy, F, R>, coeff: Coeff<F>) -> Self {
-        self.0.add(wire.index, coeff * self.1);
+    fn add_term(self, wire: &Wire<'table, 'sy, F, R>, coeff: Coeff<F>) -> Self {
+        self.0.borrow_mut().add(wire.index, coeff * self.1);
         self
     }
 
@@ -592,7 +592,7 @@ impl<'table, 'sy, F: Field, R: Rank> Driver<'table> for Evaluator<'table, 'sy, '
         self.scope.constraints += 1;
 
         lc(TermEnforcer(
-            self.virtual_table.borrow_mut(),
+            self.virtual_table,
             Coeff::Arbitrary(self.scope.current_y),
         ));
 
-- 
2.43.0


From 6e23009117227d0ddff1f2508aa3a8b3335f82fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:50 +0000
Subject: [PATCH 02/10] fix: refuse bonding circuits whose outputs reference
 the ONE wire

Outputs become linear constraints of the bonding polynomial, but the validator
never looked at them.
---
 crates/ragu_circuits/src/staging/bonding.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/ragu_circuits/src/staging/bonding.rs b/crates/ragu_circuits/src/staging/bonding.rs
index 7d7968b..9f12077 100644
--- a/crates/ragu_circuits/src/staging/bonding.rs
+++ b/crates/ragu_circuits/src/staging/bonding.rs
@@ -25,8 +25,9 @@ use ragu_core::{
     drivers::{Driver, DriverTypes, LinearExpression},
     maybe::Empty,
 };
+use ragu_primitives::{Element, GadgetExt as _};
 
-use alloc::boxed::Box;
+use alloc::{boxed::Box, vec::Vec};
 
 use crate::{
     BondingObject, Circuit, CircuitObject, SegmentRecord,
@@ -65,7 +66,15 @@ where
     {
         // Validate: run synthesis with a driver that rejects mul/gate and ONE usage.
         let mut validator = BondingValidator::<F>::new();
-        self.witness(&mut validator, Empty)?;
+        let output = self.witness(&mut validator, Empty)?.into_output();
+
+        // Public outputs become linear constraints, too.
+        let mut outputs: Vec<Element<'_, BondingValidator<F>>> = Vec::new();
+        output.write(&mut validator, &mut outputs)?;
+        if outputs.iter().any(|o| *o.wire() == BondingWire::One) {
+            validator.record("bonding circuits must not reference the ONE wire");
+        }
+
         if let Some(msg) = validator.error {
             return Err(ragu_core::Error::InvalidWitness(msg.into()));
         }
-- 
2.43.0


From fd9a944164b4a91c8faba5a3cb55741ac1b44bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:21 +0000
Subject: [PATCH 03/10] verif: cfg(ragu_verif) access to internal items of
 ragu_pcd

---
 crates/ragu_pcd/src/lib.rs   |   4 +
 crates/ragu_pcd/src/verif.rs | 267 +++++++++++++++++++++++++++++++++++
 2 files changed, 271 insertions(+)
 create mode 100644 crates/ragu_pcd/src/verif.rs

diff --git a/crates/ragu_pcd/src/lib.rs b/crates/ragu_pcd/src/lib.rs
index df42d56..c3b5b3e 100644
--- a/crates/ragu_pcd/src/lib.rs
+++ b/crates/ragu_pcd/src/lib.rs
@@ -11,9 +11,11 @@
 //! - [`Proof`] / [`Pcd`] — the proof and proof-carrying-data structures.
 
 #![no_std]
+#![allow(unexpected_cfgs)]
 #![allow(clippy::type_complexity, clippy::too_many_arguments)]
 #![deny(rustdoc::broken_intra_doc_links)]
 #![deny(missing_docs)]
+#![cfg_attr(ragu_verif, allow(missing_docs))]
 #![doc(html_favicon_url = "https://tachyon.z.cash/assets/ragu/v1/favicon-32x32.png")]
 #![doc(html_logo_url = "https://tachyon.z.cash/assets/ragu/v1/rustdoc-128x128.png")]
 
@@ -29,6 +31,8 @@ pub mod header;
 mod internal;
 mod proof;
 pub mod step;
+#[cfg(ragu_verif)]
+pub mod verif;
 mod verify;
 
 use ragu_arithmetic::Cycle;
diff --git a/crates/ragu_pcd/src/verif.rs b/crates/ragu_pcd/src/verif.rs
new file mode 100644
index 0000000..6bd554c
--- /dev/null
+++ b/crates/ragu_pcd/src/verif.rs
@@ -0,0 +1,267 @@
+//! Access to internal items for external verification harnesses.
+//!
+//! This module only exists when the crate is compiled with `--cfg ragu_verif`.
+
+use alloc::{string::String, vec::Vec};
+
+use ff::PrimeField;
+use ragu_arithmetic::Cycle;
+use ragu_circuits::{
+    Circuit,
+    polynomials::{Rank, sparse},
+    registry::CircuitIndex,
+};
+use ragu_core::{
+    Result,
+    drivers::{Driver, DriverValue},
+    maybe::Maybe,
+};
+use ragu_primitives::Element;
+
+use crate::{
+    Application, Pcd, Proof,
+    header::{Header, Suffix},
+    internal::native::RevdotParameters,
+    proof::{Bridge, RxTriple},
+    step::{Encoded, Index, Step, internal::adapter::Adapter},
+};
+
+pub use crate::internal::{fold_revdot, transcript};
+pub type NativeNumGroups = <RevdotParameters as fold_revdot::Parameters>::NumGroups;
+pub type NativeGroupSize = <RevdotParameters as fold_revdot::Parameters>::GroupSize;
+pub const NUM_INTERNAL: usize =
+    crate::internal::native::NUM_INTERNAL_CIRCUITS + crate::step::NUM_INTERNAL_STEPS;
+
+pub fn suffix_value(suffix: &Suffix) -> u64 {
+    suffix.get()
+}
+
+pub fn circuit_index(index: &Index, num_application_steps: usize) -> Result<CircuitIndex> {
+    index.circuit_index(num_application_steps)
+}
+
+pub fn encoded_write<'dr, D: Driver<'dr, F: PrimeField>, H: Header<D::F>, const N: usize>(
+    encoded: Encoded<'dr, D, H, N>,
+    dr: &mut D,
+    buf: &mut Vec<Element<'dr, D>>,
+) -> Result<()> {
+    encoded.write(dr, buf)
+}
+
+pub fn encoded_uniform<'dr, D: Driver<'dr, F: PrimeField>, H: Header<D::F>, const N: usize>(
+    dr: &mut D,
+    witness: DriverValue<D, H::Data>,
+) -> Result<Encoded<'dr, D, H, N>> {
+    Encoded::new_uniform(dr, witness)
+}
+
+/// Runs a step as the circuit it is registered as: its public outputs, the headers it reports for
+/// its inputs, and the data it carries on.
+pub fn adapter<'dr, 'source: 'dr, D, C, S, R, const N: usize>(
+    dr: &mut D,
+    step: S,
+    witness: DriverValue<
+        D,
+        (
+            <S::Left as Header<C::CircuitField>>::Data,
+            <S::Right as Header<C::CircuitField>>::Data,
+            S::Witness<'source>,
+        ),
+    >,
+) -> Result<(
+    Vec<Element<'dr, D>>,
+    DriverValue<
+        D,
+        (
+            Vec<C::CircuitField>,
+            Vec<C::CircuitField>,
+            <S::Output as Header<C::CircuitField>>::Data,
+        ),
+    >,
+)>
+where
+    D: Driver<'dr, F = C::CircuitField>,
+    C: Cycle,
+    S: Step<C> + 'dr,
+    R: Rank,
+{
+    let adapter = Adapter::<C, S, R, N>::new(step);
+    let (output, aux) = adapter.witness(dr, witness)?.into_parts();
+    let aux = aux.map(|((left, right), data, _)| (left.into_inner(), right.into_inner(), data));
+    Ok((output.into_inner(), aux))
+}
+
+pub fn trivial_proof<C: Cycle, R: Rank, const N: usize>(
+    app: &Application<'_, C, R, N>,
+) -> Proof<C, R> {
+    app.trivial_proof()
+}
+
+pub fn into_parts<C: Cycle, R: Rank, H: Header<C::CircuitField>>(
+    pcd: Pcd<C, R, H>,
+) -> (Proof<C, R>, H::Data) {
+    pcd.into_parts()
+}
+
+/// A component of a proof.
+pub enum Slot<'a, C: Cycle, R: Rank> {
+    CircuitId(&'a mut CircuitIndex),
+    Header(&'a mut Vec<C::CircuitField>),
+    Challenge(&'a mut C::CircuitField),
+    Scalar(&'a mut C::CircuitField),
+    Native(&'a mut sparse::Polynomial<C::CircuitField, R>),
+    Nested(&'a mut sparse::Polynomial<C::ScalarField, R>),
+    HostPoint(&'a mut C::HostCurve),
+    NestedPoint(&'a mut C::NestedCurve),
+}
+
+/// Every component of the proof, by name.
+pub fn components<C: Cycle, R: Rank>(proof: &mut Proof<C, R>) -> Vec<(String, Slot<'_, C, R>)> {
+    use Slot::*;
+
+    let mut out: Vec<(String, Slot<'_, C, R>)> = Vec::new();
+    macro_rules! put {
+        ($name:expr, $slot:expr) => {
+            out.push((String::from($name), $slot))
+        };
+    }
+    macro_rules! triple {
+        ($name:expr, $triple:expr) => {{
+            let RxTriple { rx, commitment } = $triple;
+            put!(concat!($name, ".rx"), Native(rx));
+            put!(concat!($name, ".commitment"), HostPoint(commitment));
+        }};
+    }
+    macro_rules! bridge {
+        ($name:expr, $bridge:expr) => {{
+            let Bridge { rx, commitment } = $bridge;
+            put!(concat!($name, ".bridge.rx"), Nested(rx));
+            put!(
+                concat!($name, ".bridge.commitment"),
+                NestedPoint(commitment)
+            );
+        }};
+    }
+
+    let Proof {
+        application,
+        preamble,
+        s_prime,
+        inner_error,
+        outer_error,
+        ab,
+        query,
+        f,
+        eval,
+        p,
+        challenges,
+        circuits,
+    } = proof;
+
+    put!(
+        "application.circuit_id",
+        CircuitId(&mut application.circuit_id)
+    );
+    put!(
+        "application.left_header",
+        Header(&mut application.left_header)
+    );
+    put!(
+        "application.right_header",
+        Header(&mut application.right_header)
+    );
+    triple!("application", &mut application.rx_triple);
+
+    triple!("preamble", &mut preamble.native);
+    bridge!("preamble", &mut preamble.bridge);
+
+    let native = &mut s_prime.native;
+    put!(
+        "s_prime.registry_wx0.rx",
+        Native(&mut native.registry_wx0_poly)
+    );
+    put!(
+        "s_prime.registry_wx0.commitment",
+        HostPoint(&mut native.registry_wx0_commitment)
+    );
+    put!(
+        "s_prime.registry_wx1.rx",
+        Native(&mut native.registry_wx1_poly)
+    );
+    put!(
+        "s_prime.registry_wx1.commitment",
+        HostPoint(&mut native.registry_wx1_commitment)
+    );
+    bridge!("s_prime", &mut s_prime.bridge);
+
+    let native = &mut inner_error.native;
+    put!(
+        "inner_error.registry_wy.rx",
+        Native(&mut native.registry_wy_poly)
+    );
+    put!(
+        "inner_error.registry_wy.commitment",
+        HostPoint(&mut native.registry_wy_commitment)
+    );
+    triple!("inner_error", &mut native.rx_triple);
+    bridge!("inner_error", &mut inner_error.bridge);
+
+    triple!("outer_error", &mut outer_error.native);
+    bridge!("outer_error", &mut outer_error.bridge);
+
+    let native = &mut ab.native;
+    put!("ab.a.rx", Native(&mut native.a_poly));
+    put!("ab.a.commitment", HostPoint(&mut native.a_commitment));
+    put!("ab.b.rx", Native(&mut native.b_poly));
+    put!("ab.b.commitment", HostPoint(&mut native.b_commitment));
+    put!("ab.c", Scalar(&mut native.c));
+    bridge!("ab", &mut ab.bridge);
+
+    let native = &mut query.native;
+    put!("query.registry_xy.rx", Native(&mut native.registry_xy_poly));
+    put!(
+        "query.registry_xy.commitment",
+        HostPoint(&mut native.registry_xy_commitment)
+    );
+    triple!("query", &mut native.rx_triple);
+    bridge!("query", &mut query.bridge);
+
+    put!("f.poly.rx", Native(&mut f.native.poly));
+    put!("f.poly.commitment", HostPoint(&mut f.native.commitment));
+    bridge!("f", &mut f.bridge);
+
+    triple!("eval", &mut eval.native);
+    bridge!("eval", &mut eval.bridge);
+
+    put!("p.poly.rx", Native(&mut p.native.poly));
+    put!("p.poly.commitment", HostPoint(&mut p.native.commitment));
+    put!("p.v", Scalar(&mut p.native.v));
+    for (i, rx) in p.nested.step_rxs.iter_mut().enumerate() {
+        put!(alloc::format!("p.nested.step.{i}.rx"), Nested(rx));
+    }
+    put!(
+        "p.nested.endoscalar.rx",
+        Nested(&mut p.nested.endoscalar_rx)
+    );
+    put!("p.nested.points.rx", Nested(&mut p.nested.points_rx));
+
+    put!("challenges.w", Challenge(&mut challenges.w));
+    put!("challenges.y", Challenge(&mut challenges.y));
+    put!("challenges.z", Challenge(&mut challenges.z));
+    put!("challenges.mu", Challenge(&mut challenges.mu));
+    put!("challenges.nu", Challenge(&mut challenges.nu));
+    put!("challenges.mu_prime", Challenge(&mut challenges.mu_prime));
+    put!("challenges.nu_prime", Challenge(&mut challenges.nu_prime));
+    put!("challenges.x", Challenge(&mut challenges.x));
+    put!("challenges.alpha", Challenge(&mut challenges.alpha));
+    put!("challenges.u", Challenge(&mut challenges.u));
+    put!("challenges.pre_beta", Challenge(&mut challenges.pre_beta));
+
+    triple!("circuits.hashes_1", &mut circuits.hashes_1);
+    triple!("circuits.hashes_2", &mut circuits.hashes_2);
+    triple!("circuits.inner_collapse", &mut circuits.inner_collapse);
+    triple!("circuits.outer_collapse", &mut circuits.outer_collapse);
+    triple!("circuits.compute_v", &mut circuits.compute_v);
+
+    out
+}
-- 
2.43.0


From 78e7363a35e9d01069aa2a11c928a4bc55ebb622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:05 +0000
Subject: [PATCH 04/10] verif: export the claim orchestration of ragu_pcd

---
 crates/ragu_pcd/src/verif.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ragu_pcd/src/verif.rs b/crates/ragu_pcd/src/verif.rs
index 6bd554c..6cecc50 100644
--- a/crates/ragu_pcd/src/verif.rs
+++ b/crates/ragu_pcd/src/verif.rs
@@ -26,7 +26,12 @@ use crate::{
     step::{Encoded, Index, Step, internal::adapter::Adapter},
 };
 
-pub use crate::internal::{fold_revdot, transcript};
+pub use crate::internal::{
+    claims, fold_revdot,
+    native::{self, claims as native_claims},
+    nested::{self, claims as nested_claims},
+    transcript,
+};
 pub type NativeNumGroups = <RevdotParameters as fold_revdot::Parameters>::NumGroups;
 pub type NativeGroupSize = <RevdotParameters as fold_revdot::Parameters>::GroupSize;
 pub const NUM_INTERNAL: usize =
-- 
2.43.0


From 2c1070c4761b0adead912401ddb8b22165793fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:24 +0000
Subject: [PATCH 05/10] verif: the registry of an application and the
 rerandomization circuit

---
 crates/ragu_pcd/src/verif.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/ragu_pcd/src/verif.rs b/crates/ragu_pcd/src/verif.rs
index 6cecc50..64a158e 100644
--- a/crates/ragu_pcd/src/verif.rs
+++ b/crates/ragu_pcd/src/verif.rs
@@ -9,7 +9,7 @@ use ragu_arithmetic::Cycle;
 use ragu_circuits::{
     Circuit,
     polynomials::{Rank, sparse},
-    registry::CircuitIndex,
+    registry::{CircuitIndex, Registry},
 };
 use ragu_core::{
     Result,
@@ -270,3 +270,26 @@ pub fn components<C: Cycle, R: Rank>(proof: &mut Proof<C, R>) -> Vec<(String, Sl
 
     out
 }
+
+/// The circuits of an application.
+pub fn registry<'a, 'params, C: Cycle, R: Rank, const N: usize>(
+    app: &'a Application<'params, C, R, N>,
+) -> &'a Registry<'params, C::CircuitField, R> {
+    &app.native_registry
+}
+
+/// Runs the internal rerandomization step for one header type as a circuit.
+pub fn rerandomize_adapter<'dr, D, C, H, R, const N: usize>(
+    dr: &mut D,
+    data: DriverValue<D, H::Data>,
+) -> Result<Vec<Element<'dr, D>>>
+where
+    D: Driver<'dr, F = C::CircuitField>,
+    C: Cycle,
+    H: Header<C::CircuitField>,
+    R: Rank,
+{
+    let step = crate::step::internal::rerandomize::Rerandomize::<H>::new();
+    let witness = data.map(|data| (data, (), ()));
+    adapter::<D, C, _, R, N>(dr, step, witness).map(|(output, _)| output)
+}
-- 
2.43.0


From cfa9c125c7066bf241aa0a74eac202c36112c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:47 +0000
Subject: [PATCH 06/10] fix: refuse header suffixes that wrap around to
 internal ones

---
 crates/ragu_pcd/src/header.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/ragu_pcd/src/header.rs b/crates/ragu_pcd/src/header.rs
index 50a5fe0..7ede76e 100644
--- a/crates/ragu_pcd/src/header.rs
+++ b/crates/ragu_pcd/src/header.rs
@@ -38,7 +38,17 @@ pub struct Suffix {
 
 impl Suffix {
     /// Creates a new application-defined [`Header`] suffix.
+    ///
+    /// # Panics
+    ///
+    /// Panics if `value` is so large that the suffix would wrap around to one
+    /// that is reserved for internal headers.
     pub const fn new(value: usize) -> Self {
+        assert!(
+            value <= usize::MAX - NUM_INTERNAL_SUFFIXES as usize,
+            "application header suffix is too large"
+        );
+
         Suffix {
             suffix: HeaderSuffix::Application(value),
         }
-- 
2.43.0


From d42f1d9f88b5195d5e12a46f6b3f70dfdeb0eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:17 +0000
Subject: [PATCH 07/10] fix: reserve the trivial header's suffix for the
 trivial header

---
 crates/ragu_pcd/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ragu_pcd/src/lib.rs b/crates/ragu_pcd/src/lib.rs
index c3b5b3e..4a005a1 100644
--- a/crates/ragu_pcd/src/lib.rs
+++ b/crates/ragu_pcd/src/lib.rs
@@ -80,7 +80,11 @@ impl<'params, C: Cycle, R: Rank, const HEADER_SIZE: usize>
             native_registry: RegistryBuilder::new(),
             nested_registry: RegistryBuilder::new(),
             num_application_steps: 0,
-            header_map: BTreeMap::new(),
+            // The trivial header is part of every application.
+            header_map: BTreeMap::from([(
+                <() as Header<C::CircuitField>>::SUFFIX,
+                TypeId::of::<()>(),
+            )]),
             _marker: PhantomData,
         }
     }
-- 
2.43.0


From d3a77c59e1638378056131cad5c29549f8014998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:44 +0000
Subject: [PATCH 08/10] verif: the circuit of a single step

---
 crates/ragu_pcd/src/verif.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/ragu_pcd/src/verif.rs b/crates/ragu_pcd/src/verif.rs
index 64a158e..ff9fc73 100644
--- a/crates/ragu_pcd/src/verif.rs
+++ b/crates/ragu_pcd/src/verif.rs
@@ -9,7 +9,7 @@ use ragu_arithmetic::Cycle;
 use ragu_circuits::{
     Circuit,
     polynomials::{Rank, sparse},
-    registry::{CircuitIndex, Registry},
+    registry::{CircuitIndex, Registry, RegistryBuilder},
 };
 use ragu_core::{
     Result,
@@ -293,3 +293,17 @@ where
     let witness = data.map(|data| (data, (), ()));
     adapter::<D, C, _, R, N>(dr, step, witness).map(|(output, _)| output)
 }
+
+/// A registry that holds nothing but the circuit of one step.
+pub fn lone_step<'params, C, S, R, const N: usize>(
+    step: S,
+) -> Result<Registry<'params, C::CircuitField, R>>
+where
+    C: Cycle,
+    S: Step<C> + 'params,
+    R: Rank,
+{
+    RegistryBuilder::new()
+        .register_circuit(Adapter::<C, S, R, N>::new(step))?
+        .finalize()
+}
-- 
2.43.0


From 7d8aed7418873e95c91e6bd142e912b8d8065193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:04 +0000
Subject: [PATCH 09/10] fix: reject proofs whose commitments do not open to
 their polynomials

---
 crates/ragu_pcd/src/proof/mod.rs | 49 ++++++++++++++++++++++++++++++++
 crates/ragu_pcd/src/verify.rs    | 17 ++++-------
 2 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/crates/ragu_pcd/src/proof/mod.rs b/crates/ragu_pcd/src/proof/mod.rs
index d47d40d..64a6c7b 100644
--- a/crates/ragu_pcd/src/proof/mod.rs
+++ b/crates/ragu_pcd/src/proof/mod.rs
@@ -146,6 +146,55 @@ impl<C: Cycle, R: Rank> Proof<C, R> {
             RxComponent::Rx(idx) => &self[idx].rx,
         }
     }
+
+    /// Returns whether every commitment in the proof is a commitment to the
+    /// polynomial it accompanies.
+    pub(crate) fn commitments_open(&self, params: &C::Params) -> bool {
+        let host_generators = C::host_generators(params);
+        let nested_generators = C::nested_generators(params);
+
+        let host = RxIndex::ALL
+            .iter()
+            .map(|&idx| (&self[idx].rx, &self[idx].commitment))
+            .chain([
+                (
+                    &self.s_prime.native.registry_wx0_poly,
+                    &self.s_prime.native.registry_wx0_commitment,
+                ),
+                (
+                    &self.s_prime.native.registry_wx1_poly,
+                    &self.s_prime.native.registry_wx1_commitment,
+                ),
+                (
+                    &self.inner_error.native.registry_wy_poly,
+                    &self.inner_error.native.registry_wy_commitment,
+                ),
+                (&self.ab.native.a_poly, &self.ab.native.a_commitment),
+                (&self.ab.native.b_poly, &self.ab.native.b_commitment),
+                (
+                    &self.query.native.registry_xy_poly,
+                    &self.query.native.registry_xy_commitment,
+                ),
+                (&self.f.native.poly, &self.f.native.commitment),
+                (&self.p.native.poly, &self.p.native.commitment),
+            ])
+            .all(|(poly, commitment)| poly.commit_to_affine(host_generators) == *commitment);
+
+        let nested = [
+            &self.preamble.bridge,
+            &self.s_prime.bridge,
+            &self.inner_error.bridge,
+            &self.outer_error.bridge,
+            &self.ab.bridge,
+            &self.query.bridge,
+            &self.f.bridge,
+            &self.eval.bridge,
+        ]
+        .into_iter()
+        .all(|bridge| bridge.rx.commit_to_affine(nested_generators) == bridge.commitment);
+
+        host && nested
+    }
 }
 
 impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> crate::Application<'_, C, R, HEADER_SIZE> {
diff --git a/crates/ragu_pcd/src/verify.rs b/crates/ragu_pcd/src/verify.rs
index 1ecce71..d60a118 100644
--- a/crates/ragu_pcd/src/verify.rs
+++ b/crates/ragu_pcd/src/verify.rs
@@ -109,15 +109,6 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         let p_eval_claim =
             pcd.proof().p.native.poly.eval(pcd.proof().challenges.u) == pcd.proof().p.native.v;
 
-        // Check P commitment corresponds to polynomial.
-        let p_commitment_claim = pcd
-            .proof()
-            .p
-            .native
-            .poly
-            .commit_to_affine(C::host_generators(self.params))
-            == pcd.proof().p.native.commitment;
-
         // Check registry_xy polynomial evaluation at the sampled w.
         // registry_xy_poly is m(W, x, y) - the registry evaluated at current x, y, free in W.
         let registry_xy_claim = {
@@ -132,11 +123,15 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         // - registry_wx0/wx1: need child proof x challenges (x₀, x₁) which "disappear" in preamble
         // - registry_wy: interstitial value that will be elided later
 
+        // Check every commitment (including P) corresponds to its polynomial. It
+        // is the commitments that the next step binds itself to, so a proof in
+        // which one of them is corrupted can't be fused any further. This is the
+        // most expensive check, so it is only made if the others pass.
         Ok(native_revdot_claims
             && nested_revdot_claims
             && p_eval_claim
-            && p_commitment_claim
-            && registry_xy_claim)
+            && registry_xy_claim
+            && pcd.proof().commitments_open(self.params))
     }
 }
 
-- 
2.43.0


From 9ecf5667699a1b4bdf49ad81c9726de453eb5fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:08 +0000
Subject: [PATCH 10/10] verif: let a forger put its values in place of the
 prover's

---
 crates/ragu_pcd/src/fuse/_02_preamble.rs    |   2 +
 crates/ragu_pcd/src/fuse/_03_s_prime.rs     |   2 +
 crates/ragu_pcd/src/fuse/_04_inner_error.rs |   5 +
 crates/ragu_pcd/src/fuse/_05_outer_error.rs |   2 +
 crates/ragu_pcd/src/fuse/_06_ab.rs          |   2 +
 crates/ragu_pcd/src/fuse/_07_query.rs       |   6 +
 crates/ragu_pcd/src/fuse/_08_f.rs           |   2 +
 crates/ragu_pcd/src/fuse/_09_eval.rs        |   2 +
 crates/ragu_pcd/src/fuse/mod.rs             |  34 +++
 crates/ragu_pcd/src/verif.rs                | 311 +++++++++++++++++++-
 10 files changed, 367 insertions(+), 1 deletion(-)

diff --git a/crates/ragu_pcd/src/fuse/_02_preamble.rs b/crates/ragu_pcd/src/fuse/_02_preamble.rs
index 1fcf838..c051611 100644
--- a/crates/ragu_pcd/src/fuse/_02_preamble.rs
+++ b/crates/ragu_pcd/src/fuse/_02_preamble.rs
@@ -60,6 +60,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             &application.left_header,
             &application.right_header,
         )?;
+        #[cfg(ragu_verif)]
+        let preamble_witness = crate::verif::forge::<C, R, _>(preamble_witness);
 
         let rx = native::stages::preamble::Stage::<C, R, HEADER_SIZE>::rx(
             C::CircuitField::random(&mut *rng),
diff --git a/crates/ragu_pcd/src/fuse/_03_s_prime.rs b/crates/ragu_pcd/src/fuse/_03_s_prime.rs
index 5c2773a..7d83645 100644
--- a/crates/ragu_pcd/src/fuse/_03_s_prime.rs
+++ b/crates/ragu_pcd/src/fuse/_03_s_prime.rs
@@ -20,6 +20,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         right: &Proof<C, R>,
     ) -> Result<proof::SPrime<C, R>> {
         let native = self.compute_native_s_prime(native_registry, left, right)?;
+        #[cfg(ragu_verif)]
+        let native = crate::verif::forge::<C, R, _>(native);
 
         let bridge = proof::Bridge::commit(
             self.params,
diff --git a/crates/ragu_pcd/src/fuse/_04_inner_error.rs b/crates/ragu_pcd/src/fuse/_04_inner_error.rs
index 473a9a2..50671e8 100644
--- a/crates/ragu_pcd/src/fuse/_04_inner_error.rs
+++ b/crates/ragu_pcd/src/fuse/_04_inner_error.rs
@@ -89,6 +89,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
                     &builder.a, &builder.b,
                 ),
             };
+        #[cfg(ragu_verif)]
+        let inner_error_witness = crate::verif::forge::<C, R, _>(inner_error_witness);
         let native_rx =
             native::stages::inner_error::Stage::<C, R, HEADER_SIZE, native::RevdotParameters>::rx(
                 C::CircuitField::random(&mut *rng),
@@ -96,6 +98,9 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             )?;
 
         let registry_wy_poly = native_registry.y(y);
+        #[cfg(ragu_verif)]
+        let registry_wy_poly =
+            crate::verif::forge_poly::<C, R>("inner_error.registry_wy.rx", registry_wy_poly);
 
         let host_gen = C::host_generators(self.params);
         let [registry_wy_commitment, native_commitment] = ragu_arithmetic::batch_to_affine([
diff --git a/crates/ragu_pcd/src/fuse/_05_outer_error.rs b/crates/ragu_pcd/src/fuse/_05_outer_error.rs
index cceabe0..1ce893f 100644
--- a/crates/ragu_pcd/src/fuse/_05_outer_error.rs
+++ b/crates/ragu_pcd/src/fuse/_05_outer_error.rs
@@ -149,6 +149,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
                 ky,
                 sponge_state_elements,
             };
+        #[cfg(ragu_verif)]
+        let outer_error_witness = crate::verif::forge::<C, R, _>(outer_error_witness);
         let native = self.compute_native_outer_error(rng, &outer_error_witness)?;
 
         let bridge = proof::Bridge::commit(
diff --git a/crates/ragu_pcd/src/fuse/_06_ab.rs b/crates/ragu_pcd/src/fuse/_06_ab.rs
index 8bed5fd..6aeb3f8 100644
--- a/crates/ragu_pcd/src/fuse/_06_ab.rs
+++ b/crates/ragu_pcd/src/fuse/_06_ab.rs
@@ -63,6 +63,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         D: Driver<'dr, F = C::CircuitField>,
     {
         let native = self.compute_native_ab(a, b, source, mu_prime, nu_prime)?;
+        #[cfg(ragu_verif)]
+        let native = crate::verif::forge::<C, R, _>(native);
 
         let bridge = proof::Bridge::commit(
             self.params,
diff --git a/crates/ragu_pcd/src/fuse/_07_query.rs b/crates/ragu_pcd/src/fuse/_07_query.rs
index d8e339f..79c06a6 100644
--- a/crates/ragu_pcd/src/fuse/_07_query.rs
+++ b/crates/ragu_pcd/src/fuse/_07_query.rs
@@ -79,6 +79,9 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         let xz = x * *z.value().take();
 
         let registry_xy_poly = self.native_registry.xy(x, y);
+        #[cfg(ragu_verif)]
+        let registry_xy_poly =
+            crate::verif::forge_poly::<C, R>("query.registry_xy.rx", registry_xy_poly);
 
         let query_witness = native::stages::query::Witness {
             // TODO: these can all be evaluated at the same time; in fact,
@@ -105,6 +108,9 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             ),
         };
 
+        #[cfg(ragu_verif)]
+        let query_witness = crate::verif::forge::<C, R, _>(query_witness);
+
         let rx = native::stages::query::Stage::<C, R, HEADER_SIZE>::rx(
             C::CircuitField::random(&mut *rng),
             &query_witness,
diff --git a/crates/ragu_pcd/src/fuse/_08_f.rs b/crates/ragu_pcd/src/fuse/_08_f.rs
index dff37e1..9e3ad39 100644
--- a/crates/ragu_pcd/src/fuse/_08_f.rs
+++ b/crates/ragu_pcd/src/fuse/_08_f.rs
@@ -59,6 +59,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             left,
             right,
         )?;
+        #[cfg(ragu_verif)]
+        let native = crate::verif::forge::<C, R, _>(native);
 
         let bridge = proof::Bridge::commit(
             self.params,
diff --git a/crates/ragu_pcd/src/fuse/_09_eval.rs b/crates/ragu_pcd/src/fuse/_09_eval.rs
index e877b8c..917e655 100644
--- a/crates/ragu_pcd/src/fuse/_09_eval.rs
+++ b/crates/ragu_pcd/src/fuse/_09_eval.rs
@@ -92,6 +92,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
                 registry_xy: query.native.registry_xy_poly.eval(u),
             },
         };
+        #[cfg(ragu_verif)]
+        let eval_witness = crate::verif::forge::<C, R, _>(eval_witness);
         let rx = native::stages::eval::Stage::<C, R, HEADER_SIZE>::rx(
             C::CircuitField::random(&mut *rng),
             &eval_witness,
diff --git a/crates/ragu_pcd/src/fuse/mod.rs b/crates/ragu_pcd/src/fuse/mod.rs
index 499a5fd..758b5e3 100644
--- a/crates/ragu_pcd/src/fuse/mod.rs
+++ b/crates/ragu_pcd/src/fuse/mod.rs
@@ -58,6 +58,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
     ) -> Result<(Pcd<C, R, S::Output>, S::Aux<'source>)> {
         let (left, right, application, application_data, application_aux) =
             self.compute_application_proof(rng, step, witness, left, right)?;
+        #[cfg(ragu_verif)]
+        let application = crate::verif::forge::<C, R, _>(application);
 
         let mut dr = Emulator::execute();
         let mut transcript = Transcript::new(&mut dr, C::circuit_poseidon(self.params), RAGU_TAG)?;
@@ -67,13 +69,19 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         let preamble_commitment = Point::constant(&mut dr, preamble.bridge.commitment)?;
         preamble_commitment.write(&mut dr, &mut transcript)?;
         let w = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_verif)]
+        let w = crate::verif::forge_challenge::<C, R, _>(&mut dr, "w", w);
         let native_registry = self.native_registry.at(*w.value().take());
 
         let s_prime = self.compute_s_prime(rng, &native_registry, &left, &right)?;
         let s_prime_commitment = Point::constant(&mut dr, s_prime.bridge.commitment)?;
         s_prime_commitment.write(&mut dr, &mut transcript)?;
         let y = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_verif)]
+        let y = crate::verif::forge_challenge::<C, R, _>(&mut dr, "y", y);
         let z = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_verif)]
+        let z = crate::verif::forge_challenge::<C, R, _>(&mut dr, "z", z);
 
         let source = FuseProofSource {
             left: &left,
@@ -97,7 +105,11 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             .collect_fixed()?;
 
         let mu = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_verif)]
+        let mu = crate::verif::forge_challenge::<C, R, _>(&mut dr, "mu", mu);
         let nu = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_verif)]
+        let nu = crate::verif::forge_challenge::<C, R, _>(&mut dr, "nu", nu);
 
         let (outer_error, outer_error_witness, a, b) = self.outer_error_terms(
             rng,
@@ -112,18 +124,26 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         let outer_error_commitment = Point::constant(&mut dr, outer_error.bridge.commitment)?;
         outer_error_commitment.write(&mut dr, &mut transcript)?;
         let mu_prime = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_verif)]
+        let mu_prime = crate::verif::forge_challenge::<C, R, _>(&mut dr, "mu_prime", mu_prime);
         let nu_prime = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_verif)]
+        let nu_prime = crate::verif::forge_challenge::<C, R, _>(&mut dr, "nu_prime", nu_prime);
 
         let ab = self.compute_ab(rng, a, b, &source, &mu_prime, &nu_prime)?;
         let ab_commitment = Point::constant(&mut dr, ab.bridge.commitment)?;
         ab_commitment.write(&mut dr, &mut transcript)?;
         let x = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_verif)]
+        let x = crate::verif::forge_challenge::<C, R, _>(&mut dr, "x", x);
 
         let (query, query_witness) =
             self.compute_query(rng, &w, &x, &y, &z, &inner_error, &left, &right)?;
         let query_commitment = Point::constant(&mut dr, query.bridge.commitment)?;
         query_commitment.write(&mut dr, &mut transcript)?;
         let alpha = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_verif)]
+        let alpha = crate::verif::forge_challenge::<C, R, _>(&mut dr, "alpha", alpha);
 
         let f = self.compute_f(
             rng,
@@ -142,12 +162,16 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         let f_commitment = Point::constant(&mut dr, f.bridge.commitment)?;
         f_commitment.write(&mut dr, &mut transcript)?;
         let u = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_verif)]
+        let u = crate::verif::forge_challenge::<C, R, _>(&mut dr, "u", u);
 
         let (eval, eval_witness) =
             self.compute_eval(rng, &u, &left, &right, &s_prime, &inner_error, &ab, &query)?;
         let eval_commitment = Point::constant(&mut dr, eval.bridge.commitment)?;
         eval_commitment.write(&mut dr, &mut transcript)?;
         let pre_beta = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_verif)]
+        let pre_beta = crate::verif::forge_challenge::<C, R, _>(&mut dr, "pre_beta", pre_beta);
 
         let p = self.compute_p(
             rng,
@@ -161,6 +185,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             &query,
             &f,
         )?;
+        #[cfg(ragu_verif)]
+        let p = crate::verif::forge::<C, R, _>(p);
 
         let challenges = proof::Challenges::new(
             &w, &y, &z, &mu, &nu, &mu_prime, &nu_prime, &x, &alpha, &u, &pre_beta,
@@ -200,6 +226,14 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             circuits,
         };
 
+        #[cfg(ragu_verif)]
+        crate::verif::witnesses::<C>(
+            outer_error_witness,
+            inner_error_witness,
+            query_witness,
+            eval_witness,
+        );
+
         Ok((proof.carry(application_data), application_aux))
     }
 }
diff --git a/crates/ragu_pcd/src/verif.rs b/crates/ragu_pcd/src/verif.rs
index ff9fc73..12b7d13 100644
--- a/crates/ragu_pcd/src/verif.rs
+++ b/crates/ragu_pcd/src/verif.rs
@@ -2,7 +2,10 @@
 //!
 //! This module only exists when the crate is compiled with `--cfg ragu_verif`.
 
-use alloc::{string::String, vec::Vec};
+extern crate std;
+
+use alloc::{boxed::Box, string::String, vec::Vec};
+use core::{any::Any, cell::RefCell};
 
 use ff::PrimeField;
 use ragu_arithmetic::Cycle;
@@ -307,3 +310,309 @@ where
         .register_circuit(Adapter::<C, S, R, N>::new(step))?
         .finalize()
 }
+
+std::thread_local! {
+    static PROVER: RefCell<Option<Box<dyn Any>>> = const { RefCell::new(None) };
+    static WITNESSES: RefCell<Option<Box<dyn Any>>> = const { RefCell::new(None) };
+}
+
+/// Called with every value that the prover comes up with, by name, before it is used.
+pub type Forger<C, R> = Box<dyn FnMut(&str, Slot<'_, C, R>)>;
+
+/// Puts the forger in charge of the values of the proofs made by this thread.
+pub fn set_forger<C: Cycle, R: Rank>(forger: Option<Forger<C, R>>) {
+    PROVER.with(|p| *p.borrow_mut() = forger.map(|f| Box::new(f) as Box<dyn Any>));
+}
+
+/// The witnesses of the stages of the last proof that this thread has made.
+pub struct Witnesses<C: Cycle> {
+    pub outer_error: native::stages::outer_error::Witness<C, RevdotParameters>,
+    pub inner_error: native::stages::inner_error::Witness<C, RevdotParameters>,
+    pub query: native::stages::query::Witness<C>,
+    pub eval: native::stages::eval::Witness<C::CircuitField>,
+}
+
+pub fn take_witnesses<C: Cycle>() -> Option<Witnesses<C>> {
+    WITNESSES
+        .with(|w| w.borrow_mut().take())
+        .and_then(|w| w.downcast().ok())
+        .map(|w| *w)
+}
+
+pub(crate) fn witnesses<C: Cycle>(
+    outer_error: native::stages::outer_error::Witness<C, RevdotParameters>,
+    inner_error: native::stages::inner_error::Witness<C, RevdotParameters>,
+    query: native::stages::query::Witness<C>,
+    eval: native::stages::eval::Witness<C::CircuitField>,
+) {
+    let all = Witnesses {
+        outer_error,
+        inner_error,
+        query,
+        eval,
+    };
+    WITNESSES.with(|w| *w.borrow_mut() = Some(Box::new(all)));
+}
+
+fn with_forger<C: Cycle, R: Rank>(run: impl FnOnce(&mut dyn FnMut(&str, Slot<'_, C, R>))) {
+    PROVER.with(|p| {
+        if let Some(any) = p.borrow_mut().as_mut() {
+            if let Some(forger) = any.downcast_mut::<Forger<C, R>>() {
+                run(&mut **forger);
+            }
+        }
+    });
+}
+
+pub(crate) fn forge<C: Cycle, R: Rank, T: Forge<C, R>>(mut value: T) -> T {
+    with_forger::<C, R>(|f| value.each(f));
+    value
+}
+
+pub(crate) fn forge_poly<C: Cycle, R: Rank>(
+    name: &str,
+    mut poly: sparse::Polynomial<C::CircuitField, R>,
+) -> sparse::Polynomial<C::CircuitField, R> {
+    with_forger::<C, R>(|f| f(name, Slot::Native(&mut poly)));
+    poly
+}
+
+pub(crate) fn forge_challenge<'dr, C, R, D>(
+    dr: &mut D,
+    name: &str,
+    value: Element<'dr, D>,
+) -> Element<'dr, D>
+where
+    C: Cycle,
+    R: Rank,
+    D: Driver<'dr, F = C::CircuitField>,
+{
+    let mut forged = *value.value().take();
+    with_forger::<C, R>(|f| {
+        f(
+            &alloc::format!("challenges.{name}"),
+            Slot::Challenge(&mut forged),
+        )
+    });
+    if forged == *value.value().take() {
+        value
+    } else {
+        Element::constant(dr, forged)
+    }
+}
+
+/// Something that the prover comes up with.
+pub trait Forge<C: Cycle, R: Rank> {
+    fn each(&mut self, f: &mut dyn FnMut(&str, Slot<'_, C, R>));
+}
+
+impl<C: Cycle, R: Rank> Forge<C, R> for crate::proof::Application<C, R> {
+    fn each(&mut self, f: &mut dyn FnMut(&str, Slot<'_, C, R>)) {
+        f(
+            "application.circuit_id",
+            Slot::CircuitId(&mut self.circuit_id),
+        );
+        f(
+            "application.left_header",
+            Slot::Header(&mut self.left_header),
+        );
+        f(
+            "application.right_header",
+            Slot::Header(&mut self.right_header),
+        );
+        f("application.rx", Slot::Native(&mut self.rx_triple.rx));
+        f(
+            "application.commitment",
+            Slot::HostPoint(&mut self.rx_triple.commitment),
+        );
+    }
+}
+
+impl<C: Cycle, R: Rank, const N: usize> Forge<C, R>
+    for native::stages::preamble::Witness<'_, C, R, N>
+{
+    fn each(&mut self, f: &mut dyn FnMut(&str, Slot<'_, C, R>)) {
+        for (side, child) in [("left", &mut self.left), ("right", &mut self.right)] {
+            for (i, v) in child.output_header.iter_mut().enumerate() {
+                f(
+                    &alloc::format!("preamble.{side}.output_header.{i}"),
+                    Slot::Scalar(v),
+                );
+            }
+        }
+    }
+}
+
+impl<C: Cycle, R: Rank> Forge<C, R> for crate::proof::NativeSPrime<C, R> {
+    fn each(&mut self, f: &mut dyn FnMut(&str, Slot<'_, C, R>)) {
+        f(
+            "s_prime.registry_wx0.rx",
+            Slot::Native(&mut self.registry_wx0_poly),
+        );
+        f(
+            "s_prime.registry_wx0.commitment",
+            Slot::HostPoint(&mut self.registry_wx0_commitment),
+        );
+        f(
+            "s_prime.registry_wx1.rx",
+            Slot::Native(&mut self.registry_wx1_poly),
+        );
+        f(
+            "s_prime.registry_wx1.commitment",
+            Slot::HostPoint(&mut self.registry_wx1_commitment),
+        );
+    }
+}
+
+impl<C: Cycle, R: Rank> Forge<C, R>
+    for native::stages::inner_error::Witness<C, RevdotParameters>
+{
+    fn each(&mut self, f: &mut dyn FnMut(&str, Slot<'_, C, R>)) {
+        for (i, group) in self.error_terms.iter_mut().enumerate() {
+            for (j, v) in group.iter_mut().enumerate() {
+                f(
+                    &alloc::format!("inner_error.error.{i}.{j}"),
+                    Slot::Scalar(v),
+                );
+            }
+        }
+    }
+}
+
+impl<C: Cycle, R: Rank> Forge<C, R>
+    for native::stages::outer_error::Witness<C, RevdotParameters>
+{
+    fn each(&mut self, f: &mut dyn FnMut(&str, Slot<'_, C, R>)) {
+        for (name, values) in [
+            ("error", &mut self.error_terms[..]),
+            ("collapsed", &mut self.collapsed[..]),
+            ("sponge", &mut self.sponge_state_elements[..]),
+        ] {
+            for (i, v) in values.iter_mut().enumerate() {
+                f(&alloc::format!("outer_error.{name}.{i}"), Slot::Scalar(v));
+            }
+        }
+        for (side, ky) in [("left", &mut self.ky.left), ("right", &mut self.ky.right)] {
+            for (name, v) in [
+                ("application", &mut ky.application),
+                ("unified", &mut ky.unified),
+                ("unified_bridge", &mut ky.unified_bridge),
+            ] {
+                f(
+                    &alloc::format!("outer_error.{side}.{name}"),
+                    Slot::Scalar(v),
+                );
+            }
+        }
+    }
+}
+
+impl<C: Cycle, R: Rank> Forge<C, R> for crate::proof::NativeAB<C, R> {
+    fn each(&mut self, f: &mut dyn FnMut(&str, Slot<'_, C, R>)) {
+        f("ab.a.rx", Slot::Native(&mut self.a_poly));
+        f("ab.a.commitment", Slot::HostPoint(&mut self.a_commitment));
+        f("ab.b.rx", Slot::Native(&mut self.b_poly));
+        f("ab.b.commitment", Slot::HostPoint(&mut self.b_commitment));
+        f("ab.c", Slot::Scalar(&mut self.c));
+    }
+}
+
+/// The values that a stage holds of every polynomial of a child.
+fn each_rx<C: Cycle, R: Rank>(
+    prefix: &str,
+    values: &mut native::RxValues<C::CircuitField>,
+    f: &mut dyn FnMut(&str, Slot<'_, C, R>),
+) {
+    *values = native::RxValues::from_fn(|id| {
+        let mut v = *values.get(id);
+        f(&alloc::format!("{prefix}.rx.{id:?}"), Slot::Scalar(&mut v));
+        v
+    });
+}
+
+impl<C: Cycle, R: Rank> Forge<C, R> for native::stages::query::Witness<C> {
+    fn each(&mut self, f: &mut dyn FnMut(&str, Slot<'_, C, R>)) {
+        let fixed = &self.fixed_registry;
+        self.fixed_registry = native::InternalCircuitValues::from_fn(|id| {
+            let mut v = *fixed.get(id);
+            f(
+                &alloc::format!("query.fixed_registry.{id:?}"),
+                Slot::Scalar(&mut v),
+            );
+            v
+        });
+        f("query.registry_wxy", Slot::Scalar(&mut self.registry_wxy));
+        for (side, child) in [("left", &mut self.left), ("right", &mut self.right)] {
+            each_rx(&alloc::format!("query.{side}"), &mut child.rx, f);
+            for (name, v) in [
+                ("a_poly", &mut child.a_poly_at_xz),
+                ("b_poly", &mut child.b_poly_at_x),
+                (
+                    "child_registry_xy",
+                    &mut child.child_registry_xy_at_current_w,
+                ),
+                (
+                    "registry_circuit_id",
+                    &mut child.current_registry_xy_at_child_circuit_id,
+                ),
+                ("registry_wy", &mut child.current_registry_wy_at_child_x),
+            ] {
+                f(&alloc::format!("query.{side}.{name}"), Slot::Scalar(v));
+            }
+        }
+    }
+}
+
+impl<C: Cycle, R: Rank> Forge<C, R> for crate::proof::NativeF<C, R> {
+    fn each(&mut self, f: &mut dyn FnMut(&str, Slot<'_, C, R>)) {
+        f("f.poly.rx", Slot::Native(&mut self.poly));
+        f("f.poly.commitment", Slot::HostPoint(&mut self.commitment));
+    }
+}
+
+impl<C: Cycle, R: Rank> Forge<C, R> for native::stages::eval::Witness<C::CircuitField> {
+    fn each(&mut self, f: &mut dyn FnMut(&str, Slot<'_, C, R>)) {
+        for (side, child) in [("left", &mut self.left), ("right", &mut self.right)] {
+            each_rx(&alloc::format!("eval.{side}"), &mut child.rx, f);
+            for (name, v) in [
+                ("a_poly", &mut child.a_poly),
+                ("b_poly", &mut child.b_poly),
+                ("registry_xy", &mut child.registry_xy_poly),
+                ("p_poly", &mut child.p_poly),
+            ] {
+                f(&alloc::format!("eval.{side}.{name}"), Slot::Scalar(v));
+            }
+        }
+        for (name, v) in [
+            ("registry_wx0", &mut self.current.registry_wx0),
+            ("registry_wx1", &mut self.current.registry_wx1),
+            ("registry_wy", &mut self.current.registry_wy),
+            ("a_poly", &mut self.current.a_poly),
+            ("b_poly", &mut self.current.b_poly),
+            ("registry_xy", &mut self.current.registry_xy),
+        ] {
+            f(&alloc::format!("eval.{name}"), Slot::Scalar(v));
+        }
+    }
+}
+
+impl<C: Cycle, R: Rank> Forge<C, R> for crate::proof::P<C, R> {
+    fn each(&mut self, f: &mut dyn FnMut(&str, Slot<'_, C, R>)) {
+        f("p.poly.rx", Slot::Native(&mut self.native.poly));
+        f(
+            "p.poly.commitment",
+            Slot::HostPoint(&mut self.native.commitment),
+        );
+        f("p.v", Slot::Scalar(&mut self.native.v));
+    }
+}
+
+/// The circuits of the protocol that a step's proof is made of, for their witnesses.
+pub fn params<'params, C: Cycle, R: Rank, const N: usize>(
+    app: &Application<'params, C, R, N>,
+) -> (&'params C::Params, u32) {
+    (
+        app.params,
+        native::total_circuit_counts(app.num_application_steps).1,
+    )
+}
-- 
2.43.0

