From 86375808ec2f9f8645ea7c2b90149c095d90a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 1/7] fix: row_vector panicked on every matrix of more than one
 row

Its return type claimed as many elements as the whole matrix, so the
construction of the row failed its own size check.
---
 poseidon-parameters/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 45a0517..6584988 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -146,7 +146,7 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize>
     Matrix<N_ROWS, N_COLS, N_ELEMENTS>
 {
     /// Get row vector at a specified row index
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_COLS> {
         let mut row_elements = [Fq::default(); N_COLS];
         for j in 0..N_COLS {
             row_elements[j] = self.get_element(i, j);
@@ -322,7 +322,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> Mul<Fq> for SquareMatrix<N_RO
 
 impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrix<N_ROWS, N_ELEMENTS> {
     /// Get row vector at a specified row index.
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ROWS> {
         self.0.row_vector(i)
     }
 
-- 
2.43.0


From 17ff31b8bfa55a36ed5e6ee632fe29bf50802cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 2/7] fix: inverse of the 1x1 zero matrix is an error, not a
 panic

---
 poseidon-parameters/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 6584988..9388214 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -214,7 +214,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrixOperations
             let elements = [self
                 .get_element(0, 0)
                 .inverse()
-                .expect("inverse of single element must exist for 1x1 matrix")];
+                .ok_or(PoseidonParameterError::NoMatrixInverse)?];
             return Ok(Self::new(&elements));
         }
 
-- 
2.43.0


From 71b2f03ab54a9dd30feb27ada017b528fa45b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 3/7] fix: hashing constants in-circuit panicked

Summing circuit variables of which none is allocated panics inside
ark-r1cs-std; add them up one by one instead.
---
 poseidon-permutation/src/r1cs.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/poseidon-permutation/src/r1cs.rs b/poseidon-permutation/src/r1cs.rs
index 71b3a59..cc94e0d 100644
--- a/poseidon-permutation/src/r1cs.rs
+++ b/poseidon-permutation/src/r1cs.rs
@@ -165,16 +165,14 @@ impl<
              .0
             .iter_rows()
             .map(|row| {
-                let temp_vec: Vec<FpVar<Fq>> = row
-                    .iter()
+                // `FpVar`'s `Sum` panics when every summand is a constant.
+                row.iter()
                     .zip(&self.state_words)
                     .map(|(x, y)| {
                         FpVar::<Fq>::new_constant(self.cs.clone(), x).expect("can create constant")
                             * y
                     })
-                    .collect();
-                let result = temp_vec.iter().sum();
-                result
+                    .fold(FpVar::<Fq>::zero(), |acc, term| acc + term)
             })
             .collect();
     }
-- 
2.43.0


From b34e05e056df81470300afee4426ab395009fa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 4/7] fix: the inverse S-box panicked on a zero state word

The S-box x^(p-2) maps zero to zero.
---
 poseidon-permutation/src/permutation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/poseidon-permutation/src/permutation.rs b/poseidon-permutation/src/permutation.rs
index a3c1c70..2b76826 100644
--- a/poseidon-permutation/src/permutation.rs
+++ b/poseidon-permutation/src/permutation.rs
@@ -219,7 +219,9 @@ impl<
     fn partial_sub_words(&mut self) {
         match self.parameters.alpha {
             Alpha::Exponent(exp) => self.state_words[0] = (self.state_words[0]).power([exp as u64]),
-            Alpha::Inverse => self.state_words[0] = Fq::from(1u64) / self.state_words[0],
+            Alpha::Inverse => {
+                self.state_words[0] = self.state_words[0].inverse().unwrap_or(Fq::from(0u64))
+            }
         }
     }
 
@@ -233,7 +235,7 @@ impl<
             }
             Alpha::Inverse => {
                 for i in 0..STATE_SIZE {
-                    self.state_words[i] = Fq::from(1u64) / self.state_words[i];
+                    self.state_words[i] = self.state_words[i].inverse().unwrap_or(Fq::from(0u64));
                 }
             }
         }
-- 
2.43.0


From a863619ca2d3b6c0f5b77ccd4b67a5d6abe46f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 5/7] fix: every MdsMatrix constructor refuses contradictory
 dimensions

`MatrixOperations::new` checked the type-level sizes against each other;
`from_elements` and `new_from_known` did not.
---
 poseidon-parameters/src/mds_matrix.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/mds_matrix.rs b/poseidon-parameters/src/mds_matrix.rs
index b7bb3c2..3cbc22d 100644
--- a/poseidon-parameters/src/mds_matrix.rs
+++ b/poseidon-parameters/src/mds_matrix.rs
@@ -73,7 +73,7 @@ impl<
     /// using the random subsampling method described in the original
     /// paper.
     pub fn from_elements(elements: &[Fq]) -> Self {
-        Self(SquareMatrix::new(elements))
+        Self::new(elements)
     }
 
     pub fn transpose(&self) -> Self {
@@ -133,6 +133,9 @@ impl<
     /// using the random subsampling method described in the original
     /// paper.
     pub const fn new_from_known(elements: [Fq; NUM_ELEMENTS]) -> Self {
+        assert!(STATE_SIZE == STATE_SIZE_MINUS_1 + 1);
+        assert!(STATE_SIZE * STATE_SIZE == NUM_ELEMENTS);
+        assert!(STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1 == NUM_ELEMENTS_STATE_SIZE_MINUS_1_2);
         Self(SquareMatrix::new_from_known(elements))
     }
 }
-- 
2.43.0


From 06ed0270a8ed3b7c843ce3a50c456ac8e3e6eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:41 +0000
Subject: [PATCH 6/7] fix: reading or writing a column outside a matrix touched
 another row

---
 poseidon-parameters/src/matrix.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 9388214..11fc2ae 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -65,10 +65,12 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize> MatrixOp
     }
 
     fn get_element(&self, i: usize, j: usize) -> Fq {
+        assert!(i < N_ROWS && j < N_COLS, "matrix index out of range");
         self.elements[i * N_COLS + j]
     }
 
     fn set_element(&mut self, i: usize, j: usize, val: Fq) {
+        assert!(i < N_ROWS && j < N_COLS, "matrix index out of range");
         self.elements[i * N_COLS + j] = val
     }
 
-- 
2.43.0


From d99f0cf69d352a971b4eb286918086cf928a24a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:10 +0000
Subject: [PATCH 7/7] fix: a matrix whose declared shape overflows was accepted
 in release builds

Rows times columns wrapped without overflow checks, so that for instance
Matrix::<{2^63 + 1}, 2, 2> could be built from two elements.  Refuse a
product that is not representable, as in debug builds.
---
 poseidon-parameters/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 11fc2ae..0cd03dc 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -34,7 +34,7 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize>
 
     /// Create a new matrix from a slice of elements.
     pub const fn new_from_known(elements: [Fq; N_ELEMENTS]) -> Self {
-        if N_ELEMENTS != N_ROWS * N_COLS {
+        if !matches!(N_ROWS.checked_mul(N_COLS), Some(n) if n == N_ELEMENTS) {
             panic!("Matrix has an insufficient number of elements")
         }
 
@@ -49,7 +49,7 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize> MatrixOp
         // Note: We use a third const generic to denote the number of elements in the
         // matrix here due to `generic_const_exprs` being an unstable Rust feature at
         // the time of writing.
-        if N_ELEMENTS != N_ROWS * N_COLS {
+        if !matches!(N_ROWS.checked_mul(N_COLS), Some(n) if n == N_ELEMENTS) {
             panic!("Matrix has an insufficient number of elements")
         }
 
-- 
2.43.0

