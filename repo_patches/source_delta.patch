From 9bf904112b370237d9c4f15c147506058130b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:18 +0000
Subject: [PATCH 01/41] fix: PackedField::get_checked must not read out of
 bounds before reporting the error

---
 crates/field/src/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index 0c57301..de1a79d 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -83,7 +83,7 @@ pub trait PackedField:
 	#[inline]
 	fn get_checked(&self, i: usize) -> Result<Self::Scalar, Error> {
 		(i < Self::WIDTH)
-			.then_some(unsafe { self.get_unchecked(i) })
+			.then(|| unsafe { self.get_unchecked(i) })
 			.ok_or(Error::IndexOutOfRange {
 				index: i,
 				max: Self::WIDTH,
-- 
2.43.0


From 2c710e84c91a9ef99253f37a14f272372509027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:18 +0000
Subject: [PATCH 02/41] fix: copy_packed_from_scalars_slice wrote the remainder
 to the wrong packed element

---
 crates/field/src/packed.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/field/src/packed.rs b/crates/field/src/packed.rs
index de1a79d..39041c1 100644
--- a/crates/field/src/packed.rs
+++ b/crates/field/src/packed.rs
@@ -462,8 +462,7 @@ pub fn copy_packed_from_scalars_slice<P: PackedField>(src: &[P::Scalar], dst: &m
 			}
 
 			if !remainder.is_empty() {
-				let offset = (src.len() >> P::LOG_WIDTH) << P::LOG_WIDTH;
-				let packed = &mut packed[offset];
+				let packed = &mut packed[src.len() >> P::LOG_WIDTH];
 				for (i, scalar) in remainder.iter().enumerate() {
 					// Safety: `i` is guaranteed to be less than `P::WIDTH`
 					unsafe { packed.set_unchecked(i, *scalar) };
-- 
2.43.0


From 6722f728cae41ede9f91e76d94484b56f2e8dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:18 +0000
Subject: [PATCH 03/41] fix: unzip of byte-sliced packed fields with blocks
 smaller than a column

---
 .../byte_sliced/packed_byte_sliced.rs         | 31 ++++++++-----------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index fbe6f7d..0a2e7f4 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -804,15 +804,11 @@ macro_rules! define_byte_sliced_3d_1b {
 			#[inline]
 			fn unzip(self, other: Self, log_block_len: usize) -> (Self, Self) {
 				if log_block_len < 3 {
-					let mut result1 = Self::default();
-					let mut result2 = Self::default();
-
-					for i in 0..Self::HEIGHT_BYTES {
-						(result1.data[i], result2.data[i]) =
-							self.data[i].unzip(other.data[i], log_block_len);
-					}
-
-					(result1, result2)
+					// Neighbouring bytes are stored in different rows, so the rows can't be unzipped
+					// independently. Unzipping is a composition of interleavings.
+					(log_block_len..Self::LOG_WIDTH)
+						.rev()
+						.fold((self, other), |(a, b), i| a.interleave(b, i))
 				} else {
 					type Packed8b =
 						PackedType<<$packed_storage as WithUnderlier>::Underlier, AESTowerField8b>;
@@ -957,15 +953,14 @@ fn unzip_byte_sliced<P: PackedField, const N: usize, const SCALAR_BYTES: usize>(
 		for block_offset in (0..half).step_by(block_size) {
 			let target_offset = block_offset * 2;
 
-			result1[block_offset..block_offset + block_size]
-				.copy_from_slice(&lhs[target_offset..target_offset + block_size]);
-			result1[half + target_offset..half + target_offset + block_size]
-				.copy_from_slice(&rhs[target_offset..target_offset + block_size]);
-
-			result2[block_offset..block_offset + block_size]
-				.copy_from_slice(&lhs[target_offset + block_size..target_offset + 2 * block_size]);
-			result2[half + target_offset..half + target_offset + block_size]
-				.copy_from_slice(&rhs[target_offset + block_size..target_offset + 2 * block_size]);
+			// Two neighbouring columns of the source rows end up in the same column of the result:
+			// the even one in the lower half of the rows, the odd one in the upper half.
+			for i in 0..block_size {
+				let (even, odd) = (target_offset + i, target_offset + block_size + i);
+				let (low, high) = (block_offset + i, half + block_offset + i);
+				(result1[low], result1[high]) = lhs[even].unzip(rhs[even], 0);
+				(result2[low], result2[high]) = lhs[odd].unzip(rhs[odd], 0);
+			}
 		}
 	} else {
 		for i in 0..N {
-- 
2.43.0


From 995741f3f71d8c1c21cc73033a7af976d0be5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:18 +0000
Subject: [PATCH 04/41] fix: is_aes_tower reported every tower field as an AES
 tower field

---
 crates/field/src/aes_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/aes_field.rs b/crates/field/src/aes_field.rs
index 972b0e1..48610be 100644
--- a/crates/field/src/aes_field.rs
+++ b/crates/field/src/aes_field.rs
@@ -103,7 +103,7 @@ impl TowerField for AESTowerField8b {
 /// Returns true if `F`` is AES tower field.
 #[inline(always)]
 pub fn is_aes_tower<F: TowerField>() -> bool {
-	TypeId::of::<F>() == TypeId::of::<F>()
+	TypeId::of::<F>() == TypeId::of::<AESTowerField8b>()
 		|| TypeId::of::<F>() == TypeId::of::<AESTowerField16b>()
 		|| TypeId::of::<F>() == TypeId::of::<AESTowerField32b>()
 		|| TypeId::of::<F>() == TypeId::of::<AESTowerField64b>()
-- 
2.43.0


From e904a273687828176b305dc8f0ff0d899aaaca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:18 +0000
Subject: [PATCH 05/41] fix: checked arithmetic of SmallU rejected valid
 results and subtracted the operands in reverse

---
 crates/field/src/underlier/small_uint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/field/src/underlier/small_uint.rs b/crates/field/src/underlier/small_uint.rs
index fe2607f..bfaa656 100644
--- a/crates/field/src/underlier/small_uint.rs
+++ b/crates/field/src/underlier/small_uint.rs
@@ -62,13 +62,13 @@ impl<const N: usize> SmallU<N> {
 	pub fn checked_add(self, rhs: Self) -> Option<Self> {
 		self.val()
 			.checked_add(rhs.val())
-			.and_then(|value| (value < Self::ONES.0).then_some(Self(value)))
+			.and_then(|value| (value <= Self::ONES.0).then_some(Self(value)))
 	}
 
 	pub fn checked_sub(self, rhs: Self) -> Option<Self> {
 		let a = self.val();
 		let b = rhs.val();
-		(b > a).then_some(Self(b - a))
+		a.checked_sub(b).map(Self)
 	}
 }
 
-- 
2.43.0


From d3c37694e02dde454ad3feb6fed5808cca3093d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:01 +0000
Subject: [PATCH 06/41] fix: byte count of byte-sliced 1-bit packed fields was
 eight times too large

Byte iteration over these types read out of bounds.
---
 .../field/src/arch/portable/byte_sliced/packed_byte_sliced.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
index 0a2e7f4..3349973 100644
--- a/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
+++ b/crates/field/src/arch/portable/byte_sliced/packed_byte_sliced.rs
@@ -631,7 +631,7 @@ macro_rules! define_byte_sliced_3d_1b {
 
 		impl $name {
 			pub const BYTES: usize =
-				<$storage_tower_level as TowerLevel>::WIDTH * <$packed_storage>::WIDTH;
+				<$storage_tower_level as TowerLevel>::WIDTH * <$packed_storage>::WIDTH / 8;
 
 			pub const HEIGHT_BYTES: usize = <$storage_tower_level as TowerLevel>::WIDTH;
 			const LOG_HEIGHT: usize = checked_log_2(Self::HEIGHT_BYTES);
-- 
2.43.0


From e01cb3051b9627f25087f313403230561f7c5196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:04 +0000
Subject: [PATCH 07/41] fix: zero_pad dropped values when the input is smaller
 than the output packing width

---
 crates/math/src/fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math/src/fold.rs b/crates/math/src/fold.rs
index 83ac592..6e7c098 100644
--- a/crates/math/src/fold.rs
+++ b/crates/math/src/fold.rs
@@ -57,7 +57,7 @@ where
 	for (outer_index, packed_result_eval) in out.iter_mut().enumerate() {
 		// Index of the Scalar at the start of the current Packed element in `out`.
 		let outer_word_start = outer_index << PE::LOG_WIDTH;
-		for inner_index in 0..min(PE::WIDTH, 1 << log_evals_size) {
+		for inner_index in 0..min(PE::WIDTH, 1 << log_new_vals) {
 			// Index of the current Scalar in `out`.
 			let outer_scalar_index = outer_word_start + inner_index;
 			// Column index, within the reshaped `evals`, where we start the dot-product with the
-- 
2.43.0


From 0bccbd35928ad6fbba35bfab3b967709c44c022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:04 +0000
Subject: [PATCH 08/41] fix: 1-bit folds wrote out of bounds or misread rows
 when given more evaluations than needed

---
 crates/math/src/fold.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/math/src/fold.rs b/crates/math/src/fold.rs
index 6e7c098..2a15c20 100644
--- a/crates/math/src/fold.rs
+++ b/crates/math/src/fold.rs
@@ -500,6 +500,9 @@ where
 		return false;
 	}
 
+	// Ignore any values beyond the multilinear: `out` has no room for them.
+	let evals = &evals[..1 << (log_evals_size - P::LOG_WIDTH)];
+
 	// We pass log_query_size_ as a generic parameter because that allows a compiler producing
 	// more efficient code in the tight loops inside the functions.
 	match log_query_size {
@@ -756,6 +759,9 @@ where
 		return false;
 	}
 
+	// Ignore any values beyond the multilinear: the row layout is derived from the data length.
+	let evals = &evals[..1 << (log_evals_size - P::LOG_WIDTH)];
+
 	let log_row_size = log_evals_size - log_query_size;
 	if log_row_size < 3 {
 		return false;
-- 
2.43.0


From 9af3f93327f1fb550e13d452f906851cfecd84e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:15 +0000
Subject: [PATCH 09/41] fix: BinarySubspace::get_checked rejected valid indices
 of subspaces of dimension 64 or more

---
 crates/math/src/binary_subspace.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/binary_subspace.rs b/crates/math/src/binary_subspace.rs
index ced6e4b..7e19faf 100644
--- a/crates/math/src/binary_subspace.rs
+++ b/crates/math/src/binary_subspace.rs
@@ -88,7 +88,8 @@ impl<F: BinaryField> BinarySubspace<F> {
 	}
 
 	pub fn get_checked(&self, index: usize) -> Result<F, Error> {
-		if index >= 1 << self.basis.len() {
+		// A subspace of dimension `usize::BITS` or more contains an element for every `usize` index.
+		if self.basis.len() < usize::BITS as usize && index >= 1 << self.basis.len() {
 			bail!(Error::ArgumentRangeError {
 				arg: "index".to_string(),
 				range: 0..1 << self.basis.len(),
-- 
2.43.0


From eee7a3030a4a9b7a137153ae99d64996e5357e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:33 +0000
Subject: [PATCH 10/41] fix: constant folding of nested powers overflowed the
 exponent and changed the polynomial

---
 crates/math/src/arith_expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/math/src/arith_expr.rs b/crates/math/src/arith_expr.rs
index c6b72b0..d53f192 100644
--- a/crates/math/src/arith_expr.rs
+++ b/crates/math/src/arith_expr.rs
@@ -586,7 +586,10 @@ impl<F: Field> ArithCircuit<F> {
 						*curr_step = ArithCircuitStep::Const(PackedField::pow(value, *exp));
 					}
 					ArithCircuitStep::Pow(base_inner, exp_inner) => {
-						*curr_step = ArithCircuitStep::Pow(base_inner, *exp * exp_inner);
+						// Nested powers whose combined exponent does not fit are left as they are.
+						if let Some(exp) = exp.checked_mul(exp_inner) {
+							*curr_step = ArithCircuitStep::Pow(base_inner, exp);
+						}
 					}
 					_ => {}
 				},
-- 
2.43.0


From 58a66076b6514f3523af22334175eff71ef3962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:52 +0000
Subject: [PATCH 11/41] fix: Powers::multilinear_extension repeated powers in
 packed tables of more than 2^10 elements

---
 crates/core/src/transparent/powers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/transparent/powers.rs b/crates/core/src/transparent/powers.rs
index f1183b9..4a8956e 100644
--- a/crates/core/src/transparent/powers.rs
+++ b/crates/core/src/transparent/powers.rs
@@ -42,7 +42,7 @@ impl<F: TowerField> Powers<F> {
 			.par_chunks_mut(1 << CHUNK_LOG_SIZE)
 			.enumerate()
 			.for_each(|(chunk_index, chunk)| {
-				let start_power = (chunk_index as u64) << CHUNK_LOG_SIZE;
+				let start_power = (chunk_index as u64) << (CHUNK_LOG_SIZE + P::LOG_WIDTH);
 				let powers = successors(Some(self.base.pow_vartime([start_power])), |&power| {
 					Some(power * self.base)
 				})
-- 
2.43.0


From e334b3c8c073c81624acf8f86ccd29c5262cf821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 12/41] fix: serialized MultilinearExtensionTransparent was
 read back as a different polynomial

---
 .../src/transparent/multilinear_extension.rs  | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/crates/core/src/transparent/multilinear_extension.rs b/crates/core/src/transparent/multilinear_extension.rs
index bd71863..9e88fed 100644
--- a/crates/core/src/transparent/multilinear_extension.rs
+++ b/crates/core/src/transparent/multilinear_extension.rs
@@ -44,12 +44,10 @@ where
 		write_buf: impl bytes::BufMut,
 		mode: SerializationMode,
 	) -> Result<(), SerializationError> {
-		let elems = PE::iter_slice(
-			self.data
-				.packed_evals()
-				.expect("Evals should always be available here"),
-		)
-		.collect::<Vec<_>>();
+		let elems = (0..1usize << self.data.n_vars())
+			.map(|i| self.data.evaluate_on_hypercube(i))
+			.collect::<Result<Vec<_>, _>>()
+			.expect("Indices are always within the hypercube");
 		SerializeBytes::serialize(&elems, write_buf, mode)
 	}
 }
@@ -62,22 +60,28 @@ inventory::submit! {
 			type F = BinaryField128b;
 			type P = PackedType<U, F>;
 			let hypercube_evals = Vec::<F>::deserialize(&mut *buf, mode)?;
+			if !hypercube_evals.len().is_power_of_two() {
+				return Err(SerializationError::InvalidConstruction {
+					name: "MultilinearExtensionTransparent",
+				});
+			}
+			let n_vars = hypercube_evals.len().ilog2() as usize;
 			let result: Box<dyn MultivariatePoly<F>> = if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField1b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField1b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField2b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField2b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField4b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField4b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField8b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField8b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField16b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField16b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField32b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField32b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else if let Some(packed_evals) = try_pack_slice(&hypercube_evals) {
-				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField64b>, P, _>::from_values(packed_evals).unwrap())
+				Box::new(MultilinearExtensionTransparent::<PackedType<U, BinaryField64b>, P, _>::from_values_and_mu(packed_evals, n_vars).unwrap())
 			} else {
-				Box::new(MultilinearExtensionTransparent::<P, P, _>::from_values(pack_slice(&hypercube_evals)).unwrap())
+				Box::new(MultilinearExtensionTransparent::<P, P, _>::from_values_and_mu(pack_slice(&hypercube_evals), n_vars).unwrap())
 			};
 			Ok(result)
 		}
-- 
2.43.0


From 1f7385c2c00eb50d2cf10bec6999ca423ff44bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:42 +0000
Subject: [PATCH 13/41] fix: compiled circuits read a stale slot for a shared
 odd power

---
 crates/fast_compute/src/arith_circuit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index a66f74f..479942e 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -106,9 +106,6 @@ fn convert_circuit_steps<F: Field>(
 				let highest_bit = exp.ilog2();
 
 				for i in (0..highest_bit).rev() {
-					if i == 0 {
-						node_to_step.register(original_step, result.len());
-					}
 					result.push(CircuitStep::Square(acc));
 					acc = CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1));
 
@@ -117,6 +114,9 @@ fn convert_circuit_steps<F: Field>(
 						acc = CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1));
 					}
 				}
+				if highest_bit > 0 {
+					node_to_step.register(original_step, result.len() - 1);
+				}
 
 				acc
 			}
-- 
2.43.0


From 1b4f80f981f83f953d2de19d257d89636b11ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:23 +0000
Subject: [PATCH 14/41] fix: compiled circuits overwrote the slot of a term
 still in use when fusing an addition with a product

---
 crates/fast_compute/src/arith_circuit.rs | 36 +++++++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index 479942e..2e1a863 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -17,6 +17,9 @@ fn convert_circuit_steps<F: Field>(
 	struct StepsMapping {
 		original_to_converted: Vec<Option<usize>>,
 		converted_to_original: Vec<Option<usize>>,
+		/// Slots that are arguments of the steps which are not emitted yet. Such a slot must not be
+		/// updated in place.
+		pending: Vec<usize>,
 	}
 
 	impl StepsMapping {
@@ -25,6 +28,21 @@ fn convert_circuit_steps<F: Field>(
 				original_to_converted: vec![None; original_size],
 				// The size of this vector isn't known at the start, but that's a reasonable guess
 				converted_to_original: vec![None; original_size],
+				pending: Vec::new(),
+			}
+		}
+
+		/// Mark the slot of the argument (if any) as used by a step to be emitted later.
+		fn push_pending<F: Field>(&mut self, arg: CircuitStepArgument<F>) {
+			if let CircuitStepArgument::Expr(CircuitNode::Slot(slot)) = arg {
+				self.pending.push(slot);
+			}
+		}
+
+		/// Undo `push_pending` for the same argument.
+		fn pop_pending<F: Field>(&mut self, arg: CircuitStepArgument<F>) {
+			if let CircuitStepArgument::Expr(CircuitNode::Slot(_)) = arg {
+				self.pending.pop();
 			}
 		}
 
@@ -66,15 +84,21 @@ fn convert_circuit_steps<F: Field>(
 			ArithCircuitStep::Const(constant) => CircuitStepArgument::Const(*constant),
 			ArithCircuitStep::Var(var) => CircuitStepArgument::Expr(CircuitNode::Var(*var)),
 			ArithCircuitStep::Add(left, right) => {
-				let left = convert_step(*left, original_steps, result, node_to_step);
+				let left_arg = convert_step(*left, original_steps, result, node_to_step);
 
-				if let CircuitStepArgument::Expr(CircuitNode::Slot(left)) = left {
-					if let ArithCircuitStep::Mul(mleft, mright) = &original_steps[*right] {
+				if let CircuitStepArgument::Expr(CircuitNode::Slot(left)) = left_arg {
+					if node_to_step.pending.contains(&left) {
+						// The value of `left` is still needed, it can't be updated in place.
+					} else if let ArithCircuitStep::Mul(mleft, mright) = &original_steps[*right] {
 						// Only handling e1 + (e2 * e3), not (e1 * e2) + e3, as latter was not
 						// observed in practice (the former can be enforced by rewriting
 						// expression)
+						node_to_step.push_pending(left_arg);
 						let mleft = convert_step(*mleft, original_steps, result, node_to_step);
+						node_to_step.push_pending(mleft);
 						let mright = convert_step(*mright, original_steps, result, node_to_step);
+						node_to_step.pop_pending(mleft);
+						node_to_step.pop_pending(left_arg);
 
 						// Since we'we changed the value of `left` to a new value, we need to clear
 						// the cache for it
@@ -86,15 +110,19 @@ fn convert_circuit_steps<F: Field>(
 					}
 				}
 
+				node_to_step.push_pending(left_arg);
 				let right = convert_step(*right, original_steps, result, node_to_step);
+				node_to_step.pop_pending(left_arg);
 
 				node_to_step.register(original_step, result.len());
-				result.push(CircuitStep::Add(left, right));
+				result.push(CircuitStep::Add(left_arg, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
 			ArithCircuitStep::Mul(left, right) => {
 				let left = convert_step(*left, original_steps, result, node_to_step);
+				node_to_step.push_pending(left);
 				let right = convert_step(*right, original_steps, result, node_to_step);
+				node_to_step.pop_pending(left);
 
 				node_to_step.register(original_step, result.len());
 				result.push(CircuitStep::Mul(left, right));
-- 
2.43.0


From ae3c6629d12fe0d6e1d7059a65edc347745b1304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:23 +0000
Subject: [PATCH 15/41] fix: compiling a circuit with a zeroth power panicked

---
 crates/fast_compute/src/arith_circuit.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/fast_compute/src/arith_circuit.rs b/crates/fast_compute/src/arith_circuit.rs
index 2e1a863..853b90f 100644
--- a/crates/fast_compute/src/arith_circuit.rs
+++ b/crates/fast_compute/src/arith_circuit.rs
@@ -128,6 +128,7 @@ fn convert_circuit_steps<F: Field>(
 				result.push(CircuitStep::Mul(left, right));
 				CircuitStepArgument::Expr(CircuitNode::Slot(result.len() - 1))
 			}
+			ArithCircuitStep::Pow(_, 0) => CircuitStepArgument::Const(F::ONE),
 			ArithCircuitStep::Pow(base, exp) => {
 				let mut acc = convert_step(*base, original_steps, result, node_to_step);
 				let base_expr = acc;
@@ -551,16 +552,10 @@ fn apply_binary_op<F: Field, P: PackedField<Scalar: ExtensionField<F>>>(
 		(CircuitStepArgument::Const(left), CircuitStepArgument::Const(right)) => {
 			let left = P::broadcast((*left).into());
 			let right = P::broadcast((*right).into());
-			let mut result = MaybeUninit::uninit();
-			op(left, right, &mut result);
 			for j in 0..row_len {
-				// Safety:
-				// - `current` has length equal to `row_len`
-				// - `result` is initialized by `op`
+				// Safety: `current` has length equal to `row_len`
 				unsafe {
-					current_evals
-						.get_unchecked_mut(j)
-						.write(result.assume_init());
+					op(left, right, current_evals.get_unchecked_mut(j));
 				}
 			}
 		}
-- 
2.43.0


From 0a8b7f3516609ac55ce92a72be7a14dea8dfd68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:10 +0000
Subject: [PATCH 16/41] fix: OracleId serialization silently truncated large
 indices

---
 crates/core/src/oracle/oracle_id.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/core/src/oracle/oracle_id.rs b/crates/core/src/oracle/oracle_id.rs
index d2d0c7e..dcfbbbe 100644
--- a/crates/core/src/oracle/oracle_id.rs
+++ b/crates/core/src/oracle/oracle_id.rs
@@ -38,8 +38,7 @@ impl SerializeBytes for OracleId {
 		write_buf: impl bytes::BufMut,
 		mode: SerializationMode,
 	) -> Result<(), SerializationError> {
-		let index: u32 = self.0 as u32;
-		u32::serialize(&index, write_buf, mode)
+		usize::serialize(&self.0, write_buf, mode)
 	}
 }
 impl DeserializeBytes for OracleId {
-- 
2.43.0


From 16c77635b3882aeb13e685cb1661b2e15d707411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 17/41] fix: a type-erased ArithCircuit could not be
 deserialized

---
 crates/core/src/polynomial/multivariate.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/polynomial/multivariate.rs b/crates/core/src/polynomial/multivariate.rs
index 99cf19d..045a5e7 100644
--- a/crates/core/src/polynomial/multivariate.rs
+++ b/crates/core/src/polynomial/multivariate.rs
@@ -3,11 +3,12 @@
 use std::{borrow::Borrow, fmt::Debug, iter::repeat_with, marker::PhantomData, sync::Arc};
 
 use auto_impl::auto_impl;
-use binius_field::{Field, PackedField, TowerField};
+use binius_field::{BinaryField128b, Field, PackedField, TowerField};
+use binius_macros::erased_serialize_bytes;
 use binius_math::{
 	ArithCircuit, CompositionPoly, MLEDirectAdapter, MultilinearPoly, MultilinearQueryRef,
 };
-use binius_utils::{SerializationError, SerializationMode, SerializeBytes as _, bail};
+use binius_utils::{DeserializeBytes, SerializationError, SerializationMode, bail};
 use bytes::BufMut;
 use itertools::Itertools;
 use rand::{SeedableRng, rngs::StdRng};
@@ -77,6 +78,14 @@ impl<P: PackedField> CompositionPoly<P> for IdentityCompositionPoly {
 	}
 }
 
+inventory::submit! {
+	<dyn MultivariatePoly<BinaryField128b>>::register_deserializer(
+		"ArithCircuit",
+		|buf, mode| Ok(Box::new(ArithCircuit::<BinaryField128b>::deserialize(&mut *buf, mode)?))
+	)
+}
+
+#[erased_serialize_bytes]
 impl<F: TowerField> MultivariatePoly<F> for ArithCircuit<F> {
 	fn n_vars(&self) -> usize {
 		self.n_vars()
@@ -93,14 +102,6 @@ impl<F: TowerField> MultivariatePoly<F> for ArithCircuit<F> {
 	fn binary_tower_level(&self) -> usize {
 		self.binary_tower_level()
 	}
-
-	fn erased_serialize(
-		&self,
-		write_buf: &mut dyn BufMut,
-		mode: SerializationMode,
-	) -> Result<(), SerializationError> {
-		self.serialize(write_buf, mode)
-	}
 }
 
 /// An adapter that constructs a [`CompositionPoly`] for a field from a [`CompositionPoly`] for a
-- 
2.43.0


From 8ac24fc3f184ead47203c7e47e4b31f0285eb121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:55 +0000
Subject: [PATCH 18/41] fix: Merkle proof_size left out one digest per query
 and underflowed at the leaf layer

---
 crates/core/src/merkle_tree/scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/merkle_tree/scheme.rs b/crates/core/src/merkle_tree/scheme.rs
index cbd04c1..c1f1fc3 100644
--- a/crates/core/src/merkle_tree/scheme.rs
+++ b/crates/core/src/merkle_tree/scheme.rs
@@ -60,7 +60,7 @@ where
 			bail!(Error::IncorrectLayerDepth)
 		}
 
-		Ok(((log_len - layer_depth - 1) * n_queries + (1 << layer_depth))
+		Ok(((log_len - layer_depth) * n_queries + (1 << layer_depth))
 			* <H as Digest>::output_size())
 	}
 
-- 
2.43.0


From 762a20b21f9d2f9f34e73634ec5390898752b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:11 +0000
Subject: [PATCH 19/41] fix: sampling a challenge from a field of at most 8
 bits panicked when the hash output was used up

---
 crates/utils/src/serialization.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/utils/src/serialization.rs b/crates/utils/src/serialization.rs
index 5350b3d..997008d 100644
--- a/crates/utils/src/serialization.rs
+++ b/crates/utils/src/serialization.rs
@@ -212,7 +212,11 @@ impl DeserializeBytes for u8 {
 		Self: Sized,
 	{
 		assert_enough_data_for(&read_buf, std::mem::size_of::<Self>())?;
-		Ok(read_buf.get_u8())
+		// Like the wider integers, do not rely on the current chunk being non-empty: buffers that are
+		// filled lazily, such as the Fiat-Shamir samplers, may only provide data when copied from.
+		let mut bytes = [0u8; 1];
+		read_buf.copy_to_slice(&mut bytes);
+		Ok(bytes[0])
 	}
 }
 
-- 
2.43.0


From 310a85c762637d7ff6a1ccc191e55e2e805d2248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 20/41] fix: WideAdd: constrain the initial carry and read the
 carry-in column row by row

Without a carry-in column, cin[0] was a committed column that nothing
constrained, so a prover could add one. With a carry-in column, whose rows
stack 32 bits, the packed column was read as if it had one bit per row.
---
 crates/m3/src/gadgets/add.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/crates/m3/src/gadgets/add.rs b/crates/m3/src/gadgets/add.rs
index 63e3aa4..f72049f 100644
--- a/crates/m3/src/gadgets/add.rs
+++ b/crates/m3/src/gadgets/add.rs
@@ -1,11 +1,11 @@
 // Copyright 2025 Irreducible Inc.
 
-use std::{array, marker::PhantomData, ops::Deref};
+use std::{array, marker::PhantomData};
 
 use binius_core::oracle::ShiftVariant;
 use binius_field::{
 	Field, PackedExtension, PackedField, PackedFieldIndexable, PackedSubfield, TowerField,
-	packed::set_packed_slice,
+	packed::{get_packed_slice, set_packed_slice},
 };
 use itertools::izip;
 
@@ -282,7 +282,7 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 				flags
 					.carry_in_bit
 					.map(|carry_col| table.add_selected("cin[0]", carry_col, 0))
-					.unwrap_or_else(|| table.add_committed("cin[0]"))
+					.unwrap_or_else(|| table.add_constant("cin[0]", [B1::ZERO]))
 			}
 		});
 		let zout = if flags.commit_zout {
@@ -333,15 +333,14 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideAdd<UX, BIT_LENGTH>
 		let mut zout = array_util::try_map(self.z_out, |bit| index.get_mut(bit))?;
 		let mut final_carry_out = index.get_mut(self.final_carry_out)?;
 
-		let mut carry_in = if self.flags.carry_in_bit.is_none() {
-			let initial_carry = PackedSubfield::<P, B1>::default();
-			vec![initial_carry; cin[0].len()]
-		} else {
-			index
-				.get(self.flags.carry_in_bit.expect("carry_in_bit is not None"))?
-				.deref()
-				.to_vec()
-		};
+		let mut carry_in = vec![PackedSubfield::<P, B1>::default(); cin[0].len()];
+		if let Some(carry_in_bit) = self.flags.carry_in_bit {
+			// Each row of the carry-in column stacks 32 bits, of which only the 0th is the carry.
+			let carry_in_bits = index.get(carry_in_bit)?;
+			for i in 0..index.size() {
+				set_packed_slice(&mut carry_in, i, get_packed_slice(&carry_in_bits, i * 32));
+			}
+		}
 		for bit in 0..BIT_LENGTH {
 			for (x_in_packed, y_in_packed, c_in_packed, zout_packed, carry_in) in izip!(
 				x_in[bit].iter(),
-- 
2.43.0


From 3732bc5e9fd8481433c7ac7cbe7bf2cd21730e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 21/41] fix: WideSub: constrain the borrows and fill the
 borrow-in of every row

The borrow columns were committed without any constraint, so every output was
accepted; and the selected borrow-in column was read instead of filled.
---
 crates/m3/src/gadgets/sub.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/crates/m3/src/gadgets/sub.rs b/crates/m3/src/gadgets/sub.rs
index 4c4158c..9ec358d 100644
--- a/crates/m3/src/gadgets/sub.rs
+++ b/crates/m3/src/gadgets/sub.rs
@@ -4,7 +4,8 @@ use std::{array, marker::PhantomData};
 
 use binius_core::oracle::ShiftVariant;
 use binius_field::{
-	Field, PackedExtension, PackedField, PackedFieldIndexable, packed::set_packed_slice,
+	Field, PackedExtension, PackedField, PackedFieldIndexable,
+	packed::{get_packed_slice, set_packed_slice},
 };
 use itertools::izip;
 
@@ -197,6 +198,13 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 			}
 		});
 
+		for bit in 0..BIT_LENGTH {
+			table.assert_zero(
+				format!("borrow[{bit}]"),
+				yin[bit] * bin[bit] + (xin[bit] + B1::ONE) * (bin[bit] + yin[bit]) - bout[bit],
+			);
+		}
+
 		let final_borrow = flags.expose_final_borrow.then(|| bout[BIT_LENGTH - 1]);
 
 		let zout = if flags.commit_zout {
@@ -236,22 +244,15 @@ impl<UX: UnsignedAddPrimitives, const BIT_LENGTH: usize> WideSub<UX, BIT_LENGTH>
 		type PB1<P> = <P as PackedExtension<B1>>::PackedSubfield;
 
 		let one = PB1::<P>::one();
-		let mut b_in = self
-			.flags
-			.borrow_in_bit
-			.map(|_| {
-				index
-					.get(self.bin)
-					.expect("witness index for borrow_in must be set before")
-					.to_vec()
-			})
-			.unwrap_or_else(|| {
-				let mut b_in = index
-					.get_mut(self.bin)
-					.expect("witness index for constant not set");
-				b_in.fill(PB1::<P>::zero());
-				vec![PB1::<P>::zero(); xin[0].len()]
-			});
+		let mut b_in = vec![PB1::<P>::zero(); xin[0].len()];
+		if let Some(borrow_in_bit) = self.flags.borrow_in_bit {
+			// Each row of the borrow-in column stacks 32 bits, of which only the 0th is the borrow.
+			let borrow_in_bits = index.get(borrow_in_bit)?;
+			for i in 0..index.size() {
+				set_packed_slice(&mut b_in, i, get_packed_slice(&borrow_in_bits, i * 32));
+			}
+		}
+		index.get_mut(self.bin)?.copy_from_slice(&b_in);
 		for (x_bit, y_bit, mut b_out_bit, mut zout_bit) in
 			izip!(xin.into_iter(), yin.into_iter(), bout.into_iter(), zout.into_iter())
 		{
-- 
2.43.0


From 816b9e7398ddc70a78e695e9ca3530bfcf134c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:15 +0000
Subject: [PATCH 22/41] fix: DivSS32: accept a zero remainder of a negative
 dividend

---
 crates/m3/src/gadgets/div.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/m3/src/gadgets/div.rs b/crates/m3/src/gadgets/div.rs
index 407955b..bc259e9 100644
--- a/crates/m3/src/gadgets/div.rs
+++ b/crates/m3/src/gadgets/div.rs
@@ -6,7 +6,7 @@ use binius_field::{Field, PackedExtension, PackedField, packed::set_packed_slice
 use itertools::izip;
 
 use crate::{
-	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment},
+	builder::{B1, B32, B64, B128, Col, TableBuilder, TableWitnessSegment, upcast_expr},
 	gadgets::{
 		add::{U32AddFlags, WideAdd},
 		mul::{MulSS32, MulUU32, SignConverter, UnsignedMulPrimitives},
@@ -229,9 +229,6 @@ impl DivSS32 {
 		let out_div_bits = table.add_committed_multiple("out_div_bits");
 		let out_rem_bits = table.add_committed_multiple("out_rem_bits");
 
-		// Check sign(p) == sign(r)
-		table.assert_zero("sign_dividend_eq_sign_rem", p_in_bits[31] - out_rem_bits[31]);
-
 		let sign_extend_q: [_; 64] =
 			array::from_fn(|i| if i < 32 { q_in_bits[i] } else { q_in_bits[31] });
 		let sign_extend_rem = array::from_fn(|i| {
@@ -245,6 +242,12 @@ impl DivSS32 {
 		let out_div = table.add_computed("out_div", pack_fp(out_div_bits));
 		let out_rem = table.add_computed("out_rem", pack_fp(out_rem_bits));
 
+		// Check sign(p) == sign(r), unless r is zero
+		table.assert_zero(
+			"sign_dividend_eq_sign_rem",
+			upcast_expr(p_in_bits[31] - out_rem_bits[31]) * out_rem,
+		);
+
 		let mul_inner = MulSS32::with_input(table, q_in_bits, out_div_bits);
 
 		// Check q is non-zero
-- 
2.43.0


From 42aee9b882ffeb5d42439fb56e8998fb691ec907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 23/41] fix: validate_witness: compare every value of a
 zero-padded oracle

---
 crates/core/src/constraint_system/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/constraint_system/validate.rs b/crates/core/src/constraint_system/validate.rs
index b1644cf..75fa1d7 100644
--- a/crates/core/src/constraint_system/validate.rs
+++ b/crates/core/src/constraint_system/validate.rs
@@ -259,7 +259,7 @@ where
 			let start_index = padded.start_index();
 			let nonzero_index = padded.nonzero_index();
 			let padded_poly = unpadded_poly.zero_pad(n_pad_vars, start_index, nonzero_index)?;
-			for i in 0..1 << n_pad_vars {
+			for i in 0..1 << n_vars {
 				check_eval(
 					oracle_label,
 					i,
-- 
2.43.0


From 0c685197d3a69634f62c03026210982b9b630468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 24/41] fix: ZeroPadded: reject a block index equal to the
 number of blocks

---
 crates/core/src/oracle/multilinear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/oracle/multilinear.rs b/crates/core/src/oracle/multilinear.rs
index 720f035..1e01506 100644
--- a/crates/core/src/oracle/multilinear.rs
+++ b/crates/core/src/oracle/multilinear.rs
@@ -760,7 +760,7 @@ impl ZeroPadded {
 			});
 		}
 
-		if nonzero_index > 1 << n_pad_vars {
+		if nonzero_index >= 1 << n_pad_vars {
 			bail!(Error::InvalidNonzeroIndex {
 				expected: 1 << n_pad_vars,
 			});
-- 
2.43.0


From e8d1b93c16b51637713ae564dc45f88b48f84445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 25/41] fix: projected_last_vars: project the last variables of
 the inner oracle

---
 crates/core/src/oracle/symbolic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/oracle/symbolic.rs b/crates/core/src/oracle/symbolic.rs
index 04993cb..56ffd99 100644
--- a/crates/core/src/oracle/symbolic.rs
+++ b/crates/core/src/oracle/symbolic.rs
@@ -269,7 +269,7 @@ fn instantiate_oracle_variant<F: TowerField>(
 		} => {
 			let start_index = match variant {
 				ProjectionVariant::Offset(offset) => *offset,
-				ProjectionVariant::Last => n_vars - values.len(),
+				ProjectionVariant::Last => mos.n_vars(*id) - values.len(),
 			};
 			let projected = Projected::new(mos, *id, values.clone(), start_index)?;
 			Sized::Projected(projected)
-- 
2.43.0


From 7fae6e23c0d34a77b2f701eea9d69ae2a78f749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 26/41] fix: projected_last_vars: report too many values
 instead of underflowing

---
 crates/core/src/oracle/multilinear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/oracle/multilinear.rs b/crates/core/src/oracle/multilinear.rs
index 1e01506..4a480f0 100644
--- a/crates/core/src/oracle/multilinear.rs
+++ b/crates/core/src/oracle/multilinear.rs
@@ -209,7 +209,6 @@ impl<F: TowerField> MultilinearOracleSetAddition<'_, F> {
 		ensure!(self.mut_ref.is_valid_oracle_id(inner_id), Error::InvalidOracleId(inner_id));
 
 		let inner_n_vars = self.mut_ref.n_vars(inner_id);
-		let start_index = inner_n_vars - values.len();
 		let values_len = values.len();
 		if values_len > inner_n_vars {
 			bail!(Error::InvalidProjection {
@@ -217,6 +216,7 @@ impl<F: TowerField> MultilinearOracleSetAddition<'_, F> {
 				values_len,
 			});
 		}
+		let start_index = inner_n_vars - values_len;
 
 		// TODO: This is wrong, should be F::TOWER_LEVEL
 		let tower_level = self.mut_ref.tower_level(inner_id);
-- 
2.43.0


From 57de1cf57b979dd6f6b66232289c5da32455a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 27/41] fix: get_as: refuse a column of another table

---
 crates/m3/src/builder/witness.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/m3/src/builder/witness.rs b/crates/m3/src/builder/witness.rs
index 573287a..ea38aa5 100644
--- a/crates/m3/src/builder/witness.rs
+++ b/crates/m3/src/builder/witness.rs
@@ -1021,6 +1021,13 @@ impl<'a, F: TowerField, P: PackedField<Scalar = F>> TableWitnessSegment<'a, P> {
 		P: PackedExtension<FSub> + PackedFieldIndexable,
 		F: ExtensionField<FSub> + Pod,
 	{
+		if col.table_id != self.table.id() {
+			return Err(Error::TableMismatch {
+				column_table_id: col.table_id,
+				witness_table_id: self.table.id(),
+			});
+		}
+
 		let col = self
 			.get_col_data(col.id())
 			.ok_or_else(|| Error::MissingColumn(col.id()))?;
-- 
2.43.0


From d4de65c6fa6d6be61d25f7b921185ae9e2e7ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:22 +0000
Subject: [PATCH 28/41] fix: ParallelMultidigestImpl: accept a number of items
 that is no multiple of N

---
 crates/hash/src/multi_digest.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/hash/src/multi_digest.rs b/crates/hash/src/multi_digest.rs
index b37726f..0073ad7 100644
--- a/crates/hash/src/multi_digest.rs
+++ b/crates/hash/src/multi_digest.rs
@@ -123,11 +123,14 @@ impl<D: MultiDigest<N, Digest: Send> + Send + Sync, const N: usize> ParallelDige
 			buffers,
 			|buffers, (data, out_chunk)| {
 				let mut hasher = self.0.clone();
+				let n_items = data.len();
 				for (buf, chunk) in buffers.iter_mut().zip(data.into_iter()) {
 					buf.clear();
 					chunk.serialize(buf);
 				}
-				let data = array::from_fn(|i| buffers[i].as_ref());
+				// The last chunk may have fewer than N items. All inputs of the hasher must be of the
+				// same length, so repeat the last item.
+				let data = array::from_fn(|i| buffers[i.min(n_items - 1)].as_ref());
 				hasher.update(data);
 
 				if out_chunk.len() == N {
-- 
2.43.0


From b37121ff46f8b42bf167e3ec3c1ab57acf305eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 29/41] fix: fold_interleaved: fold cosets smaller than a
 packed element

---
 crates/ntt/src/fri.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/ntt/src/fri.rs b/crates/ntt/src/fri.rs
index 58e0888..606ca9f 100644
--- a/crates/ntt/src/fri.rs
+++ b/crates/ntt/src/fri.rs
@@ -41,6 +41,21 @@ pub fn fold_interleaved_allocated<F, FS, NTT, P>(
 	assert!(challenges.len() >= log_batch_size);
 	assert_eq!(out.len(), 1 << (log_len - (challenges.len() - log_batch_size)));
 
+	// The chunks and the interleaved batches must consist of whole packed elements.
+	if challenges.len() < P::LOG_WIDTH || (log_batch_size > 0 && log_batch_size < P::LOG_WIDTH) {
+		let codeword = P::iter_slice(codeword)
+			.take(1 << (log_len + log_batch_size))
+			.collect::<Vec<_>>();
+		return fold_interleaved_allocated::<F, FS, NTT, F>(
+			ntt,
+			&codeword,
+			challenges,
+			log_len,
+			log_batch_size,
+			out,
+		);
+	}
+
 	let (interleave_challenges, fold_challenges) = challenges.split_at(log_batch_size);
 	let tensor = MultilinearQuery::expand(interleave_challenges);
 
-- 
2.43.0


From e477db81e363f5433cbeaafd9d395800e7a9bd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 30/41] fix: FastCpuLayer: fri_fold into short outputs, and
 from the input for every packing

---
 crates/fast_compute/src/layer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index bac9a44..b651e0e 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -478,6 +478,7 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		FSub: binius_field::BinaryField,
 		T::B128: binius_field::ExtensionField<FSub>,
 	{
+		let out_len = data_out.len();
 		unpack_if_possible_mut(
 			data_out.as_slice_mut(),
 			|out| {
@@ -487,7 +488,7 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 					challenges,
 					log_len,
 					log_batch_size,
-					out,
+					&mut out[..out_len],
 				);
 			},
 			|packed| {
-- 
2.43.0


From db7029dc149306842eac6518fc892e3629927b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 31/41] fix: CpuLayer: tensor_expand overwrites the rest of the
 buffer

---
 crates/compute/src/cpu/layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index 52e3992..1e49872 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -295,7 +295,7 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 			for (x_i, y_i) in std::iter::zip(lhs, rhs) {
 				let prod = *x_i * r_i;
 				*x_i -= prod;
-				*y_i += prod;
+				*y_i = prod;
 			}
 		}
 		Ok(())
-- 
2.43.0


From 89604c13650f484689fa7fe8e406e6300d61c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 32/41] fix: CpuLayer: map_kernels reports the error of a
 kernel

---
 crates/compute/src/cpu/layer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index 1e49872..db1ad5b 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -198,8 +198,7 @@ impl<F: TowerTop> ComputeLayerExecutor<F> for CpuLayerExecutor<F> {
 		) -> Result<(), Error>,
 		mem_maps: Vec<KernelMemMap<'_, F, Self::DevMem>>,
 	) -> Result<(), Error> {
-		self.process_kernels_chunks(map, mem_maps)?.for_each(drop);
-		Ok(())
+		self.process_kernels_chunks(map, mem_maps)?.collect()
 	}
 
 	fn inner_product<'a>(
-- 
2.43.0


From c2dc8ad868bbd60ba7cf6a59dcb1baf5af45d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 33/41] fix: compute layers: zero the local buffers of every
 kernel

---
 crates/compute/src/cpu/layer.rs  | 2 ++
 crates/fast_compute/src/layer.rs | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/compute/src/cpu/layer.rs b/crates/compute/src/cpu/layer.rs
index db1ad5b..18caaf6 100644
--- a/crates/compute/src/cpu/layer.rs
+++ b/crates/compute/src/cpu/layer.rs
@@ -119,6 +119,8 @@ impl<F: TowerTop> CpuLayerExecutor<F> {
 					let buffer = local_buffer_alloc.alloc(1 << log_chunk_size).expect(
 						"precondition: allocator must have enough space for all local buffers",
 					);
+					// The memory may have been used by the previous kernel.
+					buffer.fill(F::ZERO);
 					KernelBuffer::Mut(buffer)
 				}
 			})
diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index b651e0e..720ef09 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -280,9 +280,11 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> FastCpuExecutor<'a, T, P> {
 							KernelMemMap::Chunked { data, .. } => KernelBuffer::Ref(data),
 							KernelMemMap::ChunkedMut { data, .. } => KernelBuffer::Mut(data),
 							KernelMemMap::Local { log_size } => {
-								let data = allocator
+								let mut data = allocator
 									.alloc(1 << log_size)
 									.expect("buffer must be large enough");
+								// The memory may have been used by another kernel.
+								data.as_slice_mut().fill(P::zero());
 
 								KernelBuffer::Mut(data)
 							}
-- 
2.43.0


From fa85ffe6801f7c92e04e31b5bb3304ca0dde4eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 34/41] fix: FastCpuLayer: compute_composite on slices shorter
 or narrower than a chunk

---
 crates/fast_compute/src/layer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 720ef09..f0766b9 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -573,9 +573,9 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 
 		let log_chunks = get_log_max_threads() + 1;
 
-		let chunk_size = (output.len() >> log_chunks).max(1);
-
-		let packed_row_len = checked_int_div(inputs.row_len(), P::WIDTH);
+		// Slices shorter than `P::WIDTH` occupy a single packed element.
+		let packed_row_len = output.as_slice().len();
+		let chunk_size = (packed_row_len >> log_chunks).max(1);
 
 		let rows_batch = unsafe { RowsBatchRef::new_unchecked(&rows, packed_row_len) };
 
@@ -585,7 +585,7 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 			.enumerate()
 			.for_each(|(chunk_idx, output_chunk)| {
 				let offset = chunk_idx * chunk_size;
-				let rows = rows_batch.columns_subrange(offset..offset + chunk_size);
+				let rows = rows_batch.columns_subrange(offset..offset + output_chunk.len());
 
 				composition
 					.batch_evaluate(&rows, output_chunk)
-- 
2.43.0


From 66caf9abe42072c57b25705ca653433dcf94b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 35/41] fix: FastCpuLayer: tensor_expand checks the length of
 the data

---
 crates/fast_compute/src/layer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index f0766b9..0ad0762 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -342,6 +342,10 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		coordinates: &[T::B128],
 		data: &mut <Self::DevMem as ComputeMemory<T::B128>>::FSliceMut<'_>,
 	) -> Result<(), Error> {
+		if data.len() != 1 << (log_n + coordinates.len()) {
+			return Err(Error::InputValidation(format!("invalid data length: {}", data.len())));
+		}
+
 		tensor_prod_eq_ind(log_n, data.as_slice_mut(), coordinates)
 			.map_err(|_| Error::InputValidation("tensor dimensions are invalid".to_string()))
 	}
-- 
2.43.0


From 6376c7f53895b95d2f50515c907dd545e14a0f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 36/41] fix: FastCpuLayer: inner_product of slices shorter than
 a packed element

---
 crates/fast_compute/src/layer.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 0ad0762..62cdefb 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -28,7 +28,7 @@ use binius_field::{
 	tower_levels::TowerLevel16,
 	underlier::{NumCast, UnderlierWithBitOps, WithUnderlier},
 	unpack_if_possible, unpack_if_possible_mut,
-	util::inner_product_par,
+	util::{inner_product_par, inner_product_unchecked},
 };
 use binius_math::{ArithCircuit, CompositionPoly, RowsBatchRef, tensor_prod_eq_ind};
 use binius_maybe_rayon::{
@@ -323,14 +323,27 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 		fn inner_product_par_impl<FSub: Field, P: PackedExtension<FSub>>(
 			a_in: &[P],
 			b_in: &[P],
+			len: usize,
 		) -> P::Scalar {
-			inner_product_par(b_in, PackedExtension::cast_bases(a_in))
+			let a_in = PackedExtension::cast_bases(a_in);
+			if len < P::WIDTH {
+				// The values of a packed element past the length of the slice are unspecified.
+				return inner_product_unchecked(
+					PackedField::iter_slice(b_in).take(len),
+					PackedField::iter_slice(a_in),
+				);
+			}
+			inner_product_par(b_in, a_in)
 		}
 
 		let result = each_tower_subfield!(
 			a_in.tower_level,
 			T,
-			inner_product_par_impl::<_, P>(a_in.slice.as_slice(), b_in.as_slice())
+			inner_product_par_impl::<_, P>(
+				a_in.slice.as_slice(),
+				b_in.as_slice(),
+				b_in.len()
+			)
 		);
 
 		Ok(result)
-- 
2.43.0


From 2e86940377a5075c17d10b9a21b95094bd3f3532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 37/41] fix: FastCpuLayer: fri_fold reads the input for
 packings without scalar layout

---
 crates/fast_compute/src/layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/fast_compute/src/layer.rs b/crates/fast_compute/src/layer.rs
index 62cdefb..121cd68 100644
--- a/crates/fast_compute/src/layer.rs
+++ b/crates/fast_compute/src/layer.rs
@@ -515,7 +515,7 @@ impl<'a, T: TowerFamily, P: PackedTop<T>> ComputeLayerExecutor<T::B128>
 					zeroed_vec(1 << (log_len - (challenges.len() - log_batch_size)));
 				fold_interleaved_allocated(
 					ntt,
-					packed,
+					data_in.as_slice(),
 					challenges,
 					log_len,
 					log_batch_size,
-- 
2.43.0


From 01dc4649930762d5ab21885dcaa2bba227384836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:54 +0000
Subject: [PATCH 38/41] fix: TowerBasis multilinear extension smaller than a
 packed element

---
 crates/core/src/transparent/tower_basis.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/transparent/tower_basis.rs b/crates/core/src/transparent/tower_basis.rs
index 8228fc3..e175853 100644
--- a/crates/core/src/transparent/tower_basis.rs
+++ b/crates/core/src/transparent/tower_basis.rs
@@ -54,11 +54,12 @@ impl<F: TowerField> TowerBasis<F> {
 	pub fn multilinear_extension<P: PackedField<Scalar = F>>(
 		&self,
 	) -> Result<MultilinearExtension<P>, Error> {
-		let n_values = (1 << self.k) / P::WIDTH;
+		let n_values = 1usize << self.k.saturating_sub(P::LOG_WIDTH);
+		let n_scalars = P::WIDTH.min(1 << self.k);
 		let values = (0..n_values)
 			.map(|i| {
 				let mut packed_value = P::default();
-				for j in 0..P::WIDTH {
+				for j in 0..n_scalars {
 					let basis_idx = i * P::WIDTH + j;
 					let value = TowerField::basis(self.iota, basis_idx)?;
 					packed_value.set(j, value);
@@ -67,7 +68,7 @@ impl<F: TowerField> TowerBasis<F> {
 			})
 			.collect::<Result<Vec<_>, Error>>()?;
 
-		Ok(MultilinearExtension::from_values(values)?)
+		Ok(MultilinearExtension::new(self.k, values)?)
 	}
 }
 
-- 
2.43.0


From 49f79ad2f221a4b9646500153822303a8847105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:55 +0000
Subject: [PATCH 39/41] fix: evalcheck verifier: a duplicate-claim index out of
 range is an error

---
 crates/core/src/protocols/evalcheck/verify.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/protocols/evalcheck/verify.rs b/crates/core/src/protocols/evalcheck/verify.rs
index 93d8cb9..f6454ab 100644
--- a/crates/core/src/protocols/evalcheck/verify.rs
+++ b/crates/core/src/protocols/evalcheck/verify.rs
@@ -327,14 +327,13 @@ impl<'a, F: TowerField> EvalcheckVerifier<'a, F> {
 		let subproof = deserialize_evalcheck_proof(&mut transcript.message())?;
 		match subproof {
 			EvalcheckHint::DuplicateClaim(index) => {
-				let index = index as usize;
-				if self.round_claims[index].id != oracle_id
-					|| self.round_claims[index].eval_point != eval_point
-				{
-					return Err(VerificationError::DuplicateClaimMismatch.into());
-				}
+				let claim = self
+					.round_claims
+					.get(index as usize)
+					.filter(|claim| claim.id == oracle_id && claim.eval_point == eval_point)
+					.ok_or(VerificationError::DuplicateClaimMismatch)?;
 
-				Ok(self.round_claims[index].eval)
+				Ok(claim.eval)
 			}
 			EvalcheckHint::NewClaim => {
 				let eval = transcript.message().read_scalar()?;
-- 
2.43.0


From 0522e214faaf156a1af6cad8851065dcb013e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:07 +0000
Subject: [PATCH 40/41] fix: gkr_exp powers of a static base for exponents of
 more than 64 bits

---
 crates/core/src/protocols/gkr_exp/provers.rs   | 3 ++-
 crates/core/src/protocols/gkr_exp/verifiers.rs | 8 +++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/protocols/gkr_exp/provers.rs b/crates/core/src/protocols/gkr_exp/provers.rs
index 8cba625..2815699 100644
--- a/crates/core/src/protocols/gkr_exp/provers.rs
+++ b/crates/core/src/protocols/gkr_exp/provers.rs
@@ -143,7 +143,8 @@ where
 			_ => unreachable!("witness must contain static base"),
 		};
 
-		let base_power_static = base.pow(1 << internal_layer_index);
+		let base_power_static =
+			(0..internal_layer_index).fold(base, |power, _| PackedField::square(power));
 
 		let composition = IndexComposition::new(
 			composite_claims_n_multilinears,
diff --git a/crates/core/src/protocols/gkr_exp/verifiers.rs b/crates/core/src/protocols/gkr_exp/verifiers.rs
index 58ee08f..b3d9fa6 100644
--- a/crates/core/src/protocols/gkr_exp/verifiers.rs
+++ b/crates/core/src/protocols/gkr_exp/verifiers.rs
@@ -130,11 +130,9 @@ where
 		} else {
 			let internal_layer_index = self.exponent_bit_width() - 1 - layer_no;
 
-			let base_power_static = self
-				.0
-				.static_base
-				.expect("static_base exist")
-				.pow(1 << internal_layer_index);
+			let static_base = self.0.static_base.expect("static_base exist");
+			let base_power_static =
+				(0..internal_layer_index).fold(static_base, |power, _| PackedField::square(power));
 
 			let this_layer_input_index = multilinears_index;
 			let exponent_bit_index = multilinears_index + 1;
-- 
2.43.0


From 2a0269cebbf31249b25b06bac5185b48cf1eb745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 41/41] fix: row batches restricted to a subrange of columns
 ignored the offset in iter and map

---
 crates/math/src/rows_batch.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/math/src/rows_batch.rs b/crates/math/src/rows_batch.rs
index dbc312e..fed3f3f 100644
--- a/crates/math/src/rows_batch.rs
+++ b/crates/math/src/rows_batch.rs
@@ -112,7 +112,7 @@ impl<'a, T> RowsBatchRef<'a, T> {
 
 	#[inline]
 	pub fn iter(&self) -> impl Iterator<Item = &'a [T]> + '_ {
-		self.rows.as_ref().iter().copied()
+		(0..self.n_rows()).map(|index| self.row(index))
 	}
 
 	#[inline(always)]
@@ -137,7 +137,7 @@ impl<'a, T> RowsBatchRef<'a, T> {
 
 	/// Returns a new `RowsBatch` with the specified rows selected by the given indices.
 	pub fn map(&self, indices: impl AsRef<[usize]>) -> RowsBatch<'a, T> {
-		let rows = indices.as_ref().iter().map(|&i| self.rows[i]).collect();
+		let rows = indices.as_ref().iter().map(|&i| self.row(i)).collect();
 
 		RowsBatch {
 			rows,
-- 
2.43.0

