From 212dfbff72def635ae988479d2bfc11dcfe38b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:32 +0000
Subject: [PATCH 01/80] fix: inplace_row_swap swapped columns instead of rows

---
 gmatlib/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 455146a..bf129a9 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -252,9 +252,9 @@ where T: Element<T>
         let mut storage: T;
         for i in 0..self.cols
         {
-            storage       = self[(i, r1)];
-            self[(i, r1)] = self[(i, r2)];
-            self[(i, r2)] = storage;
+            storage       = self[(r1, i)];
+            self[(r1, i)] = self[(r2, i)];
+            self[(r2, i)] = storage;
         } 
     }
 
-- 
2.43.0


From e3b1b33246d03177887cc206861304186c8c12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:32 +0000
Subject: [PATCH 02/80] fix: check bounds when mutably indexing a matrix

---
 gmatlib/src/trait_impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmatlib/src/trait_impls.rs b/gmatlib/src/trait_impls.rs
index d5999b4..9f11a11 100644
--- a/gmatlib/src/trait_impls.rs
+++ b/gmatlib/src/trait_impls.rs
@@ -805,6 +805,10 @@ where T: Element<T>
     #[inline]
     fn index_mut(&mut self, index: (usize, usize)) -> &mut T 
     {
+        if index.0 >= self.rows || index.1 >= self.cols 
+        {
+            panic!("index out of bounds: the matrix has {} rows and {} cols but the index was [({}, {})]", self.rows, self.cols, index.0, index.1)
+        }
         &mut (self.vals[index.0 * self.cols + index.1])
     }
 }
-- 
2.43.0


From 7d219920cbfdf90b230eab228b20ef7a0508f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:32 +0000
Subject: [PATCH 03/80] fix: return an error for a matrix from a vec with zero
 columns

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index bf129a9..cd14e6f 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -114,7 +114,7 @@ where T: Element<T>
     /// ```
     pub fn from_vec(cols: usize, vec: Vec<T>) -> Result<Matrix<T>>
     {
-        if vec.len() % cols != 0
+        if cols == 0 || vec.len() % cols != 0
         {
             return Err(MatrixFromVecError.into())
         }
-- 
2.43.0


From 2f49a2bad3e35bd398de0708a926e9ac10ce787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 04/80] fix: pivot rows when inverting matrices larger than 4x4

Invertible matrices were rejected (or inverted with large errors) whenever
a diagonal entry became zero during elimination.
---
 gmatlib/src/lib.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index cd14e6f..ba4ead7 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -17,7 +17,7 @@ use error::*;
 use num_traits::Num;
 
 /// A helper trait to constrain the type of the elements of a `Matrix<T>`.
-pub trait Element<T>: Num + Copy + Debug + Display + AddAssign + MulAssign + SubAssign + Neg<Output = T> {}
+pub trait Element<T>: Num + PartialOrd + Copy + Debug + Display + AddAssign + MulAssign + SubAssign + Neg<Output = T> {}
 
 impl Element<f32> for f32 {}
 impl Element<f64> for f64 {}
@@ -686,6 +686,25 @@ where T: Element<T>
 
         for j in 0..n
         {
+            // Pivot on the row with the largest remaining magnitude in this column
+            let magnitude = |x: T| if x < T::zero() { -x } else { x };
+            let mut pivot = j;
+            for i in j+1..n
+            {
+                if magnitude(self[(i, j)]) > magnitude(self[(pivot, j)])
+                {
+                    pivot = i;
+                }
+            }
+
+            if self[(pivot, j)] == T::zero()
+            {
+                return Err(MatrixInversionError::ZeroDuringInversion.into())
+            }
+
+            self.inplace_row_swap(j, pivot);
+            inv.inplace_row_swap(j, pivot);
+
             for i in 0..n
             {
                 if i == j
@@ -694,10 +713,6 @@ where T: Element<T>
                 }
                 else
                 {
-                    if self[(j, j)] == T::zero()
-                    {
-                        return Err(MatrixInversionError::ZeroDuringInversion.into())
-                    }
                     let scalar = self[(i, j)] / self[(j, j)];
                     self.inplace_scaled_row_add(i, j, -scalar);
                     inv.inplace_scaled_row_add(i, j, -scalar);
-- 
2.43.0


From 99b9f4af83ee6d37d66c0424fc535cc9f4f73b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:53 +0000
Subject: [PATCH 05/80] fix: do not free caller-owned matrices when an FFI call
 fails

Taking ownership with Box::from_raw freed the operands whenever the call
panicked or returned an error before reaching mem::forget.
---
 gmatlib/src/ffi.rs | 67 ++++++++++++++--------------------------------
 1 file changed, 20 insertions(+), 47 deletions(-)

diff --git a/gmatlib/src/ffi.rs b/gmatlib/src/ffi.rs
index 16ed4e1..c4afe88 100644
--- a/gmatlib/src/ffi.rs
+++ b/gmatlib/src/ffi.rs
@@ -1,5 +1,4 @@
 use std::ffi::{c_double, c_uint, c_void};
-use std::mem;
 use std::panic::catch_unwind;
 use std::ptr::null_mut;
 use crate::{Matrix, MatrixInversionError};
@@ -39,10 +38,8 @@ pub extern "C" fn new_double_identity_matrix(n: c_uint) -> *mut c_void
 pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_swap(r1 as usize, r2 as usize);
-        
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -56,10 +53,8 @@ pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) ->
 pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_scale(row as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -73,10 +68,8 @@ pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_dou
 pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scale(scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -90,10 +83,8 @@ pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_add(r1 as usize, r2 as usize);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -107,10 +98,8 @@ pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c
 pub extern "C" fn inplace_scaled_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scaled_row_add(r1 as usize, r2 as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -126,19 +115,16 @@ pub extern "C" fn multiply_matrix(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mu
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *const Matrix<c_double>),
+            &*(ptr_b as *const Matrix<c_double>),
         )};
     
-        let ab = match a.multiply_matrix(&b) 
+        let ab = match a.multiply_matrix(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
 
@@ -155,19 +141,16 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *const Matrix<c_double>),
+            &*(ptr_b as *const Matrix<c_double>),
         )};
     
-        let ab = match a.augment_with(&b) 
+        let ab = match a.augment_with(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
     
@@ -182,9 +165,8 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
 pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c2: c_uint) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let b = Box::new(a.subset(r1 as usize, c1 as usize, r2 as usize, c2 as usize));
-        mem::forget(a); // Prevent drop that would deallocate matrix data.
         Box::into_raw(b) as *mut c_void
     });
 
@@ -199,15 +181,13 @@ pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c
 pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let trace = match a.trace()
         {
             Ok(t) => t,
             Err(_) => c_double::NAN
         };
 
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
-
         trace
     });
 
@@ -222,9 +202,8 @@ pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let b = Box::new(a.transpose());
-        mem::forget(a);
 
         Box::into_raw(b) as *mut c_void
     });
@@ -240,7 +219,7 @@ pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         let status = match a.try_inplace_invert()
         {
             Ok(_)  => c_uint::MAX,
@@ -255,8 +234,6 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
                 }
             }
         };
-    
-        mem::forget(a);
         status
     });
     
@@ -267,10 +244,8 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint, value: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a[(i as usize, j as usize)] = value;
-
-        mem::forget(a);
     });
 
     match res
@@ -284,9 +259,8 @@ pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint
 pub extern "C" fn index_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let value = a[(i as usize, j as usize)];
-        mem::forget(a);
         value
     });
 
@@ -305,11 +279,10 @@ pub extern "C" fn clone_double_matrix(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
         // Get the actual matrix instance
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
 
-        // Use clone to allocate a new instance and mem::forget it AND the old instance
-        let b = a.clone();
-        mem::forget(a);
+        // Use clone to allocate a new instance, leaving the old one with its owner
+        let b = Box::new(a.clone());
     
         Box::into_raw(b) as *mut c_void
     });
-- 
2.43.0


From d2dbfac51a7a89122351f7f098321a1b86aad4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:53 +0000
Subject: [PATCH 06/80] fix: clamp the initial value of a variable to its
 domain

---
 geqslib/src/variable.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/variable.rs b/geqslib/src/variable.rs
index ca08bf9..3f492be 100644
--- a/geqslib/src/variable.rs
+++ b/geqslib/src/variable.rs
@@ -13,12 +13,15 @@ impl Variable
     pub fn new<T>(value: T, min: T, max: T) -> Variable
     where T: Into<f64> + Copy
     {
-        Variable
+        let mut var = Variable
         {
             value: value.into(),
             min: min.into(),
             max: max.into(),
-        }
+        };
+
+        var.set(value); // the initial value must be in the domain, too
+        var
     }
 
     /// Sets the value of the variable, clamping its 
-- 
2.43.0


From 82d6a65bed96a1cc85d39a94fa9ad04f38e71289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:53 +0000
Subject: [PATCH 07/80] fix: newton_raphson accepted any large negative step as
 converged

---
 geqslib/src/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 195bbae..8655159 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -48,7 +48,7 @@ where anyhow::Error: From<E>
     let delta = y / y_prime;
 
     // Check if we are sufficiently close to the solution:
-    if y.abs() <= margin && delta <= margin // ...in both the y AND x directions...
+    if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
     {
         return Ok(guess); // ...if so, exit early
     }
-- 
2.43.0


From 35e4a7dab0583bf90b7452e3e4e760fb2cebfe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:53 +0000
Subject: [PATCH 08/80] fix: compare the magnitude of the system vector to the
 margin, not its square

---
 geqslib/src/newton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 8655159..5f9737d 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -165,7 +165,8 @@ where
     }
     let error = y.iter()
         .map(|v| v.powi(2))
-        .sum::<f64>();
+        .sum::<f64>()
+        .sqrt();
 
     // Calculate change vector and its magnitude
     let deltas = jacobian * Matrix::from_col_vec(y);
-- 
2.43.0


From f7a50a1b125d48355ce050a0533a76b24c4c14f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:53 +0000
Subject: [PATCH 09/80] fix: treat an empty system as solved instead of
 panicking

---
 geqslib/src/newton.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 5f9737d..06a812d 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -123,6 +123,12 @@ where
         return Err(NewtonRaphsonSolverError::ImproperlyConstrainedSystem.into());
     }
 
+    // A system with nothing left to solve for is already solved
+    if n == 0
+    {
+        return Ok(guess);
+    }
+
     // Build jacobian w/ F(X) values... we will mutate them to F'(X) later
     let mut elements = vec![];
     for func in &f 
-- 
2.43.0


From 5ef8941128acfa551a2d3e5a8ec13e8f1100e099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:15 +0000
Subject: [PATCH 10/80] fix: treat tabs and other whitespace as token
 separators in expressions

---
 geqslib/src/shunting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index ddcb1c5..a76ddfe 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -127,7 +127,7 @@ fn tokenize_with_context(tok: &str, context: &ContextHashMap) -> anyhow::Result<
 fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>> 
 {
     let punctuated = punctuate(expr);
-    let words = punctuated.split(' ').filter(|c| !c.is_empty());
+    let words = punctuated.split_whitespace();
 
     let mut stack: Vec<&str> = Vec::new();
     let mut queue: Vec<Token> = Vec::new();
-- 
2.43.0


From cee9ac08bd979063fe199d696a4932543a8f319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:15 +0000
Subject: [PATCH 11/80] fix: apply functions to their parenthesized arguments
 only

'sin(x) + 1' was evaluated as 'sin(x + 1)'.
---
 geqslib/src/shunting.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index a76ddfe..13ed03e 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -174,6 +174,15 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                         return Err(ShuntingYardError::UnclosedParenthesis.into())
                     }
                 }
+
+                // A function applies to its parenthesized arguments only
+                if let Some(Token::Func(_, _)) = stack.last().and_then(|op| context.get(*op))
+                {
+                    if let Some(op) = stack.pop()
+                    {
+                        queue.push(tokenize_with_context(op, context)?);
+                    }
+                }
                 unary_minus = false;
             },
 
-- 
2.43.0


From 7d76d8cfa0d88fc80dafd93d338cf3e970ad3f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 12/80] fix: reject malformed expressions instead of evaluating
 them

Unmatched closing parentheses, missing operands, misplaced commas and wrong
argument counts could all produce a value.
---
 geqslib/src/shunting.rs | 64 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 13ed03e..8f2c71c 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -131,13 +131,26 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
 
     let mut stack: Vec<&str> = Vec::new();
     let mut queue: Vec<Token> = Vec::new();
-    let mut unary_minus = true; // Indicator for whether the next '-' token is a unary operator
+    let mut arg_counts: Vec<usize> = Vec::new(); // Number of arguments found in each open parenthesis
+    let mut unary_minus = true; // Indicator for whether an operand is expected, making the next '-' token a unary operator
+    let mut prev = "";
 
     for word in words 
     {
         match word 
         {
             "," => {
+                if unary_minus
+                {
+                    return Err(ShuntingYardError::ExpectedArg.into());
+                }
+
+                match arg_counts.last_mut()
+                {
+                    Some(count) => *count += 1,
+                    None => return Err(ShuntingYardError::LeftoverToken.into()),
+                }
+
                 while let Some(op) = stack.pop() 
                 {
                     if op != "(" 
@@ -154,35 +167,49 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
             },
 
             "(" => {
+                if !unary_minus
+                {
+                    return Err(ShuntingYardError::LeftoverToken.into());
+                }
+
                 stack.push(word);
+                arg_counts.push(1);
                 unary_minus = true;
             },
 
             ")" => {
+                let args = match arg_counts.pop()
+                {
+                    Some(_) if prev == "(" => 0,
+                    Some(_) if unary_minus => return Err(ShuntingYardError::ExpectedArg.into()),
+                    Some(count) => count,
+                    None => return Err(ShuntingYardError::UnclosedParenthesis.into()),
+                };
+
                 while let Some(op) = stack.pop() 
                 {
-                    if op != "(" 
-                    {
-                        queue.push(tokenize_with_context(op, context)?);
-                    } 
-                    else if op == "(" 
+                    if op == "(" 
                     {
                         break;
                     } 
-                    else 
-                    {
-                        return Err(ShuntingYardError::UnclosedParenthesis.into())
-                    }
+                    queue.push(tokenize_with_context(op, context)?);
                 }
 
                 // A function applies to its parenthesized arguments only
-                if let Some(Token::Func(_, _)) = stack.last().and_then(|op| context.get(*op))
+                let mut expected_args = 1;
+                if let Some(Token::Func(n, _)) = stack.last().and_then(|op| context.get(*op))
                 {
+                    expected_args = *n;
                     if let Some(op) = stack.pop()
                     {
                         queue.push(tokenize_with_context(op, context)?);
                     }
                 }
+
+                if args != expected_args
+                {
+                    return Err(ShuntingYardError::ExpectedArg.into());
+                }
                 unary_minus = false;
             },
 
@@ -196,6 +223,10 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                     stack.push("*");
                     unary_minus = true;
                 } 
+                else if unary_minus
+                {
+                    return Err(ShuntingYardError::ExpectedArg.into());
+                }
                 else 
                 {
                     while let Some(o2) = stack.pop() 
@@ -216,6 +247,10 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
             },
 
             other => {
+                if !unary_minus
+                {
+                    return Err(ShuntingYardError::LeftoverToken.into());
+                }
 
                 if let Ok(num) = other.parse::<f64>() 
                 {
@@ -248,6 +283,13 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                 }
             },
         }   
+        prev = word;
+    }
+
+    // The last operator or function was missing its operand
+    if unary_minus && !prev.is_empty()
+    {
+        return Err(ShuntingYardError::ExpectedArg.into());
     }
     
     while let Some(tok) = stack.pop() 
-- 
2.43.0


From 99384c814199513dbf3713cc6e3af8beb45718db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 13/80] fix: reject equations with a missing or malformed side

---
 geqslib/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 5e58539..bb4d686 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -35,6 +35,12 @@ pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -
         _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
     }
     
+    // Each side must be a well-formed expression on its own
+    for side in &sides
+    {
+        let _ = compile_to_fn(side, ctx)?;
+    }
+
     compile_to_fn(&format!("{} - ({})", sides[0], sides[1]), ctx)
 }
 
@@ -61,6 +67,12 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         ctx.add_var_with_domain_to_ctx(&var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
+    // Each side must be a well-formed expression on its own
+    for side in &sides
+    {
+        let _ = compile_to_fn_of_hashmap(side, ctx)?;
+    }
+
     compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx)
 }
 
-- 
2.43.0


From b1fc163d688ea47349d2d7f2bd455e250f47f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 14/80] fix: do not add variables to a system whose equation
 failed to compile

---
 geqslib/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index bb4d686..784d20b 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -62,18 +62,23 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         .collect();
 
     // Add a default guess value of 1 for all unspecified vars
+    let mut new_ctx = ctx.clone();
     for var in unknowns
     {
-        ctx.add_var_with_domain_to_ctx(&var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
+        new_ctx.add_var_with_domain_to_ctx(&var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
     // Each side must be a well-formed expression on its own
     for side in &sides
     {
-        let _ = compile_to_fn_of_hashmap(side, ctx)?;
+        let _ = compile_to_fn_of_hashmap(side, &new_ctx)?;
     }
 
-    compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx)
+    let func = compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), &new_ctx)?;
+
+    // Only keep the new vars if the equation could be compiled
+    *ctx = new_ctx;
+    Ok(func)
 }
 
 /// Solves an equation given as a string for the SINGLE
-- 
2.43.0


From 0a79f5661f3f010983db4ad90821f929f64a738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 15/80] fix: solve_equation_with_context ignored the caller's
 guess

---
 geqslib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 784d20b..4c60c0e 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -119,7 +119,7 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let f = compile_equation_to_fn(equation, ctx)?;
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, 1.0, margin, limit)?))
+    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From 0902b06b944c45946149ee184827034d38575854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 16/80] fix: keep solved roots on their domain and unsolved
 variables unknown

---
 geqslib/src/lib.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 4c60c0e..5a0ecb9 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -22,6 +22,7 @@ use errors::EquationSolverError;
 use newton::newton_raphson;
 use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
 use system::get_equation_unknowns;
+use variable::Variable;
 
 /// An internal function for formatting a single-unknown equation to an expression prior to tokenization 
 pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -> anyhow::Result<impl Fn(f64) -> anyhow::Result<f64>>
@@ -117,9 +118,25 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     }
     
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
-    let f = compile_equation_to_fn(equation, ctx)?;
+    let res = compile_equation_to_fn(equation, ctx)
+        .and_then(|f| newton_raphson(f, guess, margin, limit));
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
+    match res
+    {
+        Ok(root) => 
+        {
+            // The root must exist on the variable's domain
+            let soln = f64::from(Variable::new(root, min, max));
+            ctx.add_var_with_domain_to_ctx(unknowns[0], soln, min, max);
+            Ok((unknowns[0].to_owned(), soln))
+        },
+        Err(e) => 
+        {
+            // Leave the variable unknown so that the caller can try again
+            ctx.remove(unknowns[0]);
+            Err(e)
+        },
+    }
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From f10c415004132962409641905368fa5f53d9ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 17/80] fix: solve systems for their own variables only

Known variables in the context were treated as additional unknowns.
---
 geqslib/src/system.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 1e41440..b9dee3d 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -337,11 +337,11 @@ impl System
     pub fn solve(self, margin: f64, limit: usize) -> anyhow::Result<HashMap<String, f64>>
     {
         let mut guess = HashMap::new();
-        for (key, var) in self.context
+        for key in &self.system_vars
         {
-            match var
+            match self.context.get(key)
             {
-                Token::Var(x) => guess.insert(key, (*x.borrow()).into()),
+                Some(Token::Var(x)) => guess.insert(key.to_owned(), (*x.borrow()).into()),
                 _ => continue,
             };
         }
-- 
2.43.0


From 19747df13a3924be7b79e23eaa52f9fce11f7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:48 +0000
Subject: [PATCH 18/80] fix: keep system solutions on the domains of their
 variables

---
 geqslib/src/system.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index b9dee3d..830f510 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -353,7 +353,18 @@ impl System
             limit
         )?;
 
-        Ok(res.clone())
+        // The solution must exist on each variable's domain
+        let mut soln = HashMap::new();
+        for (key, val) in res
+        {
+            if let Some(Token::Var(x)) = self.context.get(key)
+            {
+                x.borrow_mut().set(*val);
+                soln.insert(key.to_owned(), f64::from(*x.borrow()));
+            }
+        }
+
+        Ok(soln)
     }
 }
 
-- 
2.43.0


From f0bd54b9b9384d0b848a3244a8b6b1e9b25bf680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 19/80] fix: solve systems whose later equations introduce new
 variables

Earlier equations failed to look up variables added after them.
---
 geqslib/src/system.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 830f510..de88456 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -346,8 +346,24 @@ impl System
             };
         }
 
+        // Equations share the variables of the system's context, but each one only looks 
+        // up those that were known when it was added. Set them all here instead.
+        let ctx = &self.context;
+        let equations = self.system_equations.iter()
+            .map(|eqn| move |x: &HashMap<String, f64>| {
+                for (key, val) in x
+                {
+                    if let Some(Token::Var(var)) = ctx.get(key)
+                    {
+                        var.borrow_mut().set(*val);
+                    }
+                }
+                eqn(&HashMap::new())
+            })
+            .collect();
+
         let res = multivariate_newton_raphson(
-            self.system_equations, 
+            equations, 
             &mut guess,
             margin, 
             limit
-- 
2.43.0


From 623b64e4864b05a5d045ddf5ef55e196a3b97354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 20/80] fix: do not free the caller's context when solving an
 equation over FFI

---
 geqslib/src/ffi.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index 40e3d88..c8d0b03 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -1,6 +1,6 @@
 use std::ffi::{c_char, c_int, c_void, c_double, c_uint, CStr, CString};
 use std::panic::catch_unwind;
-use std::ptr::{null, copy_nonoverlapping};
+use std::ptr::null;
 
 use crate::shunting::{ContextHashMap, new_context, ContextLike};
 use crate::solve_equation_with_context;
@@ -57,8 +57,7 @@ pub extern "C" fn solve_equation(equation: *const c_char, context: *const c_void
     let res = catch_unwind(|| {
         let equation_str = unsafe { new_owned_string(equation) };
 
-        let mut ctx = ContextHashMap::new();
-        unsafe { copy_nonoverlapping(context as *const ContextHashMap, &mut ctx, 1) };
+        let mut ctx = unsafe { (*(context as *const ContextHashMap)).clone() };
 
         let (var, val) = match solve_equation_with_context(&equation_str, &mut ctx, guess, min, max, margin, limit as usize)
         {
-- 
2.43.0


From 099e777740c442ad93a5d756a596fe20cd2ecc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 21/80] fix: report failure to specify a variable that is not
 in the system

---
 geqslib/src/ffi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index c8d0b03..ce27570 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -192,14 +192,14 @@ pub extern "C" fn specify_variable(p_system: *mut c_void, var: *const c_char, gu
         unsafe
         {    
             let var_str = new_owned_string(var);
-            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max);
+            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max)
         }
     });
 
     match res
     {
-        Ok(_) => 1,
-        Err(_) => -1,
+        Ok(true) => 1,
+        Ok(false) | Err(_) => -1,
     }
 }
 
-- 
2.43.0


From 6889501f97d52da21c742daa4de90b5fb415c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 22/80] fix: look at every equation for one with a single
 unknown

---
 nexsys/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index dfcd9a8..ba5fd73 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -24,7 +24,7 @@ fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHas
         let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
         if unknowns.len() != 1
         {
-            return Ok(false);
+            continue;
         }
 
         let var_info: [f64; 3];
-- 
2.43.0


From a7cbd12cf6c2591d24abb87edc3b9ed968aef130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 23/80] fix: treat solved values as known so that chained
 equations can be solved

---
 nexsys/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index ba5fd73..9303357 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -38,7 +38,7 @@ fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHas
         }
 
         let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
-        ctx.add_var_with_domain_to_ctx(&soln.0, soln.1, var_info[1], var_info[2]);
+        ctx.add_const_to_ctx(&soln.0, soln.1);
         *log_step = format!(
             "Var: {:#?} \nEquation: {}", 
             soln.0, equation
-- 
2.43.0


From 43d38a0d6eb40d810b1711396564fc815a704b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:27 +0000
Subject: [PATCH 24/80] fix: find coupled equations regardless of the order
 they are listed in

---
 nexsys/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index 9303357..20e7fc7 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -56,7 +56,9 @@ fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut Contex
         let mut builder = SystemBuilder::new(equation, ctx.clone())?;
         let mut eqn_strings = vec![equation.to_owned()];
 
-        for (j, equation) in eqn_pool.iter().enumerate()
+        // Equations that were skipped at first may become useful as others are added, so 
+        // keep going around the pool (each pass that matters adds at least one equation)
+        for (j, equation) in eqn_pool.iter().enumerate().cycle().take(eqn_pool.len() * eqn_pool.len())
         {
             // Skip the current equation we're building a system with 
             // OR an equation that we've already added to the system
-- 
2.43.0


From 8c29e32f0314bab26b954fe00116a52aa4bd54c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:27 +0000
Subject: [PATCH 25/80] fix: remove each comment where it is found instead of
 everywhere its text occurs

---
 nexsys/src/parsing/mod.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index a8087d9..114fd9d 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -74,14 +74,7 @@ pub fn comments(text: &str) -> String
     {
         static ref RE: Regex = nexsys_regex(r"//[^\n]*");
     }
-    let mut output = text.to_string();
-
-    for f in RE.find_iter(text).map(|i| i.as_str()) 
-    {
-        output = output.replace(f, "");
-    }
-
-    output
+    RE.replace_all(text, "").into_owned()
 }
 
 /// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
-- 
2.43.0


From d8aa6f13006737270da7c6e9ec61e2bb15d53bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:27 +0000
Subject: [PATCH 26/80] fix: recognize constants with digits in their names

---
 nexsys/src/parsing/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 114fd9d..4707787 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -107,7 +107,7 @@ pub fn consts(text: &str) -> anyhow::Result<String>
 {
     lazy_static! 
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_][a-z0-9_]*");
         static ref CONSTS: HashMap<String, f64> = const_data();
     }
 
-- 
2.43.0


From 818508f973d47023c0cd65ef98f8d9ea7c4ff702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:27 +0000
Subject: [PATCH 27/80] fix: replacing a constant corrupted constants whose
 names start with its name

---
 nexsys/src/parsing/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 4707787..9d9c1d7 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -111,19 +111,23 @@ pub fn consts(text: &str) -> anyhow::Result<String>
         static ref CONSTS: HashMap<String, f64> = const_data();
     }
 
-    let mut output = text.to_string();
+    let mut output = String::new();
+    let mut end = 0;
 
-    for m in RE.find_iter(text).map(|i| i.as_str()) 
+    for m in RE.find_iter(text)
     {
-        if let Some(c) = CONSTS.get(&m.to_string()) 
+        if let Some(c) = CONSTS.get(m.as_str()) 
         {
-            output = output.replace(m, &c.to_string());
+            output += &text[end..m.start()];
+            output += &c.to_string();
+            end = m.end();
         } 
         else 
         {
             return Err(ConstFormatError.into())
         }
     }
+    output += &text[end..];
     Ok(output)
 }
 
-- 
2.43.0


From a648e847301ecbda56a654a044505635d0e8b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:27 +0000
Subject: [PATCH 28/80] fix: keep the sign of negative constants with their
 value

---
 nexsys/src/parsing/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 9d9c1d7..15e1801 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -119,7 +119,7 @@ pub fn consts(text: &str) -> anyhow::Result<String>
         if let Some(c) = CONSTS.get(m.as_str()) 
         {
             output += &text[end..m.start()];
-            output += &c.to_string();
+            output += &(if *c < 0.0 { format!("({c})") } else { c.to_string() });
             end = m.end();
         } 
         else 
-- 
2.43.0


From 522eba589e5ab3c512d46088d38af85ecfe1dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 29/80] fix: cubic lengths were converted as if they were
 squared

---
 nexsys/src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index ddbc04e..b09636b 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -61,7 +61,7 @@ fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> Hash
     let mut temp = HashMap::new();
     
     for i in &data[&"LENGTH".to_string()] {
-        temp.insert( format!("{}^3", i.0), *i.1 * *i.1);    
+        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
     }
 
     if let Some(d) = data.get_mut("VOLUME") {
-- 
2.43.0


From 50e530ee831d7a44592cad29362efa8403337fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 30/80] fix: evaluate the whole right-hand side of a const
 declaration

---
 nexsys/src/parsing/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 15e1801..8f63bc8 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -135,7 +135,7 @@ pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)
 {
     lazy_static!
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *([^\n]+)");
     }
     let mut res = (text.to_owned(), HashMap::new());
     let const_vals = RE.captures_iter(text);
-- 
2.43.0


From ffb304f25d493ceb9c59ea7f7867067a155f3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 31/80] fix: do not panic on a space between the sign and
 digits of a declared number

---
 nexsys/src/parsing/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 8f63bc8..b3961ab 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -21,6 +21,12 @@ fn nexsys_regex(pattern: &str) -> Regex
     ).unwrap()
 }
 
+/// Parses a number matching the nexsys-legal number pattern, which allows a space after the sign.
+fn parse_num(num: &str) -> Result<f64, std::num::ParseFloatError>
+{
+    num.replace(' ', "").parse()
+}
+
 /// Identifies and returns guess values found in a Nexsys-legal string.
 pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
 {
@@ -36,7 +42,7 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
         res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
         res.1.insert(
             g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
+            parse_num(g.get(1).unwrap().as_str())
                 .expect("failed to parse number in guess declaration")
         );
     }
@@ -58,9 +64,9 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
         res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
         res.1.insert(
             d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
+            [parse_num(d.get(2).unwrap().as_str())
                 .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
+            parse_num(d.get(3).unwrap().as_str())
                 .expect("failed to parse second number in domain declaration")]
         );
     }
-- 
2.43.0


From 75095e985d0b6495c71ffbc1ba81872a8f2b57ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 32/80] fix: declarations with numbers such as 1e3 and .5 were
 ignored

---
 nexsys/src/parsing/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index b3961ab..4903976 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -10,7 +10,7 @@ use crate::{units::{convert, const_data}, errors::ConstFormatError};
 pub use conditionals::*;
 
 const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:e[+-]?[0-9]+)?";
 
 /// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
 fn nexsys_regex(pattern: &str) -> Regex
-- 
2.43.0


From 6bc0f1696a5904fa3f3daa976c96667f63e12731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 33/80] fix: report declarations that cannot be understood
 instead of ignoring them

---
 nexsys/src/errors.rs      |  7 +++++++
 nexsys/src/parsing/mod.rs | 12 +++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/errors.rs b/nexsys/src/errors.rs
index dabfc49..cfc45b3 100644
--- a/nexsys/src/errors.rs
+++ b/nexsys/src/errors.rs
@@ -82,6 +82,13 @@ impl_err!(
     ConditionFormatError::Comparator,           "invalid comparison operator. valid operators are: <, >, <=, >=, ==, !="
 );
 
+#[derive(Debug)]
+pub struct DeclarationFormatError;
+impl_err!(
+    DeclarationFormatError,
+    "keep, guess, or const declaration failed to compile"
+);
+
 #[derive(Debug)]
 pub struct ConversionFormatError;
 impl_err!(
diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 4903976..2239420 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -5,7 +5,7 @@ use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
 use lazy_static::lazy_static;
 use regex::Regex;
 use std::collections::HashMap;
-use crate::{units::{convert, const_data}, errors::ConstFormatError};
+use crate::{units::{convert, const_data}, errors::{ConstFormatError, DeclarationFormatError}};
 
 pub use conditionals::*;
 
@@ -212,6 +212,16 @@ pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<Stri
         }
     }
 
+    // Anything that still looks like a declaration could not be understood
+    lazy_static!
+    {
+        static ref DECLARATION: Regex = nexsys_regex(r"(?im)^\s*(keep|guess|const) +[a-z0-9.-]");
+    }
+    if DECLARATION.is_match(&nil)
+    {
+        return Err(DeclarationFormatError.into());
+    }
+
     // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
     nil = conditionals(&nil)?;
 
-- 
2.43.0


From e67fe7c6a5f74f71338012c3704db09850fb6e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 34/80] fix: recognize if blocks whose lines end in spaces or
 CRLF

---
 nexsys/src/parsing/conditionals.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 95fd7ba..a1963f0 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -14,7 +14,7 @@ macro_rules! contains_any {
 pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 
     let mut args = cndl.replace("if ",  "if(")  // make start of function call
-    .replace([' ', '\n'], "")   // strip whitespace
+    .replace(char::is_whitespace, "")   // strip whitespace
     .replace(':',   ",")        // delimit arguments
     .replace("else", "")        // (ditto)
     .replace("end", ")");       // close function call
@@ -60,11 +60,11 @@ pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 pub fn conditionals(text: &str) -> anyhow::Result<String> {
     lazy_static!{
         static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
+r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:[ \t\r]*$
 ^.*$
-^[ \t]*else:$
+^[ \t]*else:[ \t\r]*$
 ^.*$
-^[ \t]*end"#
+^[ \t]*end\b"#
         );
     }
     let mut output = text.to_string();
-- 
2.43.0


From 778a69e3cf724be9a66ffb0ac330ce0f146a2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 35/80] fix: keep names containing if, else or end intact in if
 blocks

---
 nexsys/src/parsing/conditionals.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index a1963f0..bc6331e 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -13,11 +13,17 @@ macro_rules! contains_any {
 /// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
 pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 
-    let mut args = cndl.replace("if ",  "if(")  // make start of function call
+    lazy_static!{
+        static ref IF:   Regex = nexsys_regex(r"\bif ");
+        static ref ELSE: Regex = nexsys_regex(r"\belse\b");
+        static ref END:  Regex = nexsys_regex(r"\bend\b");
+    }
+
+    let mut args = IF.replace_all(cndl, "if(").into_owned();    // make start of function call
+    args = ELSE.replace_all(&args, "").into_owned();
+    args = END.replace_all(&args, ")").into_owned()             // close function call
     .replace(char::is_whitespace, "")   // strip whitespace
-    .replace(':',   ",")        // delimit arguments
-    .replace("else", "")        // (ditto)
-    .replace("end", ")");       // close function call
+    .replace(':',   ",");       // delimit arguments
 
     //if(a<b,a-b=1,b-a=1)
     // println!("SUBBED TOKENS: {}", args);
-- 
2.43.0


From 5455ef6bff655aa027de281c45230701eb1e3145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 36/80] fix: reject malformed if blocks instead of solving
 their equations unconditionally

---
 nexsys/src/parsing/conditionals.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index bc6331e..5be963f 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -72,6 +72,7 @@ r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:[ \t\r]*$
 ^.*$
 ^[ \t]*end\b"#
         );
+        static ref UNMATCHED: Regex = nexsys_regex(r"(?m)^[ \t]*(if [^\n]*:|else:|end)[ \t\r]*$");
     }
     let mut output = text.to_string();
     
@@ -112,6 +113,11 @@ r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:[ \t\r]*$
 
         if cdls.is_empty() { break } // keep going until there are no if statement matches left
     }
+
+    // Without this, the equations of a malformed block would be solved unconditionally
+    if UNMATCHED.is_match(&output) {
+        return Err(ConditionFormatError::ConditionalSyntax.into())
+    }
     
     Ok(output)
 }
-- 
2.43.0


From 99dd8f0df2b8d3b8c7c12a7b9d4b3f0a5d56ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 37/80] fix: accept the documented --output-file option

---
 nexsys/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 62f9350..f017db4 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -67,7 +67,7 @@ OPTIONS:
             
             println!("\n{preprocess}\n");
         }
-        if args[i] == *"--to-file" || args[i] == *"-o" {
+        if args[i] == *"--to-file" || args[i] == *"--output-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
             output_file = true;
         }
-- 
2.43.0


From a8dc7901690689d9662e60401d0abac2c17694b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 38/80] fix: do not overwrite an input file that is not named
 .nxs with its results

---
 nexsys/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index f017db4..bef2ba3 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -92,7 +92,9 @@ OPTIONS:
     );
 
     if output_file {
-        match write(args[1].replace(".nxs", ".txt"), output) {
+        // Never write over the input, whatever its extension
+        let path = format!("{}.txt", args[1].strip_suffix(".nxs").unwrap_or(&args[1]));
+        match write(path, output) {
             Ok(_) => process::exit(0),
             Err(_) => {
                 println!("[nxc].....ERR: nxc could not write to the output file");
-- 
2.43.0


From 1cec2a532176cfe1c364961eeaa30555a7079e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 39/80] fix: report a missing option value instead of panicking

---
 nexsys/src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index bef2ba3..c4bb494 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -35,24 +35,24 @@ OPTIONS:
 
     for i in 0..args.len() {
         if args[i] == *"--margin" || args[i] == *"-tol" {
-            match args[i+1].parse::<f64>() {
-                Ok(o) => {
+            match args.get(i+1).map(|a| a.parse::<f64>()) {
+                Some(Ok(o)) => {
                     println!("[nxc].....margin set to {o}");
                     margin = o;
                 },
-                Err(_) => {
+                _ => {
                     println!("[nxc].....ERR: margin is not a valid float value");
                     process::exit(1);
                 }
             }
         }
         if args[i] == *"--max-iterations" || args[i] == *"-max" {
-            match args[i+1].parse::<usize>() {
-                Ok(o) => {
+            match args.get(i+1).map(|a| a.parse::<usize>()) {
+                Some(Ok(o)) => {
                     println!("[nxc].....iteration limit set to: {o}");
                     limit = o;
                 },
-                Err(_) => {
+                _ => {
                     println!("[nxc].....ERR: iteration limit is not a valid integer value");
                     process::exit(1);
                 }
-- 
2.43.0


From 5a2dcc335ad7d36d9fc64e41cd87141b629876d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 40/80] fix: print the code that is actually solved in verbose
 mode

---
 nexsys/src/main.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index c4bb494..1d6e374 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -1,6 +1,7 @@
-use std::{env, process};
+use std::{collections::HashMap, env, process};
 use std::fs::{read_to_string, write};
-use nexsys::{solve_with_preprocessors, parsing::{conditionals, conversions, consts}};
+use geqslib::shunting::new_context;
+use nexsys::{solve_with_preprocessors, parsing::compile};
 
 fn main() {
     let args: Vec<String> = env::args().collect();
@@ -61,11 +62,14 @@ OPTIONS:
         if args[i] == *"--verbose" || args[i] == *"-v" {
             println!("[nxc].....Printing compiled code...");
 
-            let mut preprocess = conversions(&system).unwrap();
-            preprocess = consts(&preprocess).unwrap();
-            preprocess = conditionals(&preprocess).unwrap();
-            
-            println!("\n{preprocess}\n");
+            match compile(&system, &mut new_context(), &mut HashMap::new()) {
+                Ok(preprocess) => println!("\n{preprocess}\n"),
+                Err(e) => {
+                    println!("[nxc].....ERR: nxc could not compile the system");
+                    println!("[nxc].....{e}");
+                    process::exit(1);
+                }
+            }
         }
         if args[i] == *"--to-file" || args[i] == *"--output-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
-- 
2.43.0


From 68faf4a9c0efc9378c5fdd2390ba38c992b684d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 41/80] fix: separate the values in solutions returned over FFI

---
 nexsys/src/ffi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/ffi.rs b/nexsys/src/ffi.rs
index f34680f..ad30eae 100644
--- a/nexsys/src/ffi.rs
+++ b/nexsys/src/ffi.rs
@@ -96,7 +96,7 @@ pub unsafe extern "C" fn solve_with_preprocessors(system: *const c_char, margin:
                 let steps_str = log.join("\n");
                 let soln_str = soln.iter()
                     .fold(String::new(), |mut acc, (x, y)| {
-                        acc.push_str(&format!("{} {:#?}", x, y));
+                        acc.push_str(&format!("{}: {:#?}, ", x, y));
                         acc
                     });
                 CString::new(format!("{{ log: {:#?}, \nsoln: {:#?} }}", steps_str, soln_str))
-- 
2.43.0


From 845e38fbee6d5ce9914a71d940593f0bca734997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 42/80] fix: potential sources raised the input node when
 driven by their output

---
 neapolitan/src/dc_circuits.rs   | 2 +-
 neapolitan/src/heat_transfer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index 25c65a5..d31ad85 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -54,7 +54,7 @@ pub fn voltage_source(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![voltage[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index c7a811a..91fe3bf 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -115,7 +115,7 @@ pub fn temperature_delta(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
-- 
2.43.0


From 2ad724e51b165b8f03f94f6649f40fa2104010b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 43/80] fix: flux of a potential source that drives its input
 node had the wrong sign

---
 neapolitan/src/flux_formulas.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neapolitan/src/flux_formulas.rs b/neapolitan/src/flux_formulas.rs
index 3ac3fe8..e0b06dc 100644
--- a/neapolitan/src/flux_formulas.rs
+++ b/neapolitan/src/flux_formulas.rs
@@ -55,7 +55,11 @@ pub fn observe_flux(
     let mut discrepancy = sub_ref.try_borrow()?
         .get_flux_discrepancy()?;
 
-    discrepancy.inplace_scale(-1.0);
+    // The flux enters the output node, but leaves the input node
+    if drives_output
+    {
+        discrepancy.inplace_scale(-1.0);
+    }
 
     Ok(discrepancy)
 }
-- 
2.43.0


From e10a2b0dfdefa88965f648c92d501ed276efadd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 44/80] fix: solve with up-to-date potentials at nodes driven
 by an element

---
 neapolitan/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 222c295..0968607 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -286,6 +286,7 @@ impl NodalAnalysisStudyBuilder
                 };
 
                 let local_nodes = nodes.to_vec();
+                let local_elements = elements.to_vec();
 
                 guess.insert(idx, 1.0);
                 partials.push(move |x: &HashMap<ComponentIndex, f64>| {
@@ -296,6 +297,12 @@ impl NodalAnalysisStudyBuilder
                             .potential[(component as usize, 0)] = val;
                     }
 
+                    // Let elements that drive a node update its potential first
+                    for elem in &local_elements
+                    {
+                        elem.get_flux()?;
+                    }
+
                     let flux_discrepancy = local_nodes[node_idx]
                         .try_borrow()?
                         .get_flux_discrepancy()?;
-- 
2.43.0


From c7af05c75ef24c43939b09e493762753500a7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 45/80] fix: report results with up-to-date potentials at
 driven nodes

---
 neapolitan/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 0968607..069b20a 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -321,6 +321,12 @@ impl NodalAnalysisStudyBuilder
             node.potential[(idx.component as usize, 0)] = *component;
         }
 
+        // Update driven nodes before any flux that depends on them is read
+        for elem in &elements
+        {
+            elem.get_flux()?;
+        }
+
         // Step 6 - gather results
         let mut result = NodalAnalysisStudyResult 
         { 
-- 
2.43.0


From 0562591acc20a610a11aa5ccde51c416f583f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 46/80] fix: return an error for unknown model and element
 types instead of panicking

---
 neapolitan/src/errors.rs |  4 ++++
 neapolitan/src/lib.rs    | 23 ++++++++++++++---------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index 6e6f2dd..2ad2373 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -41,4 +41,8 @@ pub enum NodalAnalysisModellingError
     NodeDoesNotExist,
     #[error("could not find desired model type in the given or default configurators")]
     ModelTypeNotFound,
+    #[error("could not find desired element type in the configuration of the model type")]
+    ElementTypeNotFound,
+    #[error("the potential of a node did not have the dimension of the model type")]
+    WrongPotentialDimension,
 }
\ No newline at end of file
diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 069b20a..fc12315 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -183,16 +183,21 @@ impl NodalAnalysisStudyBuilder
         }
     }
 
-    fn get_element_constructor(&self, elem: &str) -> ElementConstructor
+    fn get_configurator(&self) -> anyhow::Result<&NodalAnalysisStudyConfigurator>
     {
-        let configurator = &self.configurator[&self.model.model_type];
-        configurator.elements[elem]
+        let configurator = self.configurator.get(&self.model.model_type);
+        Ok(configurator.ok_or(NodalAnalysisModellingError::ModelTypeNotFound)?)
     }
 
-    fn get_dimension(&self) -> usize
+    fn get_element_constructor(&self, elem: &str) -> anyhow::Result<ElementConstructor>
     {
-        let configurator = &self.configurator[&self.model.model_type];
-        configurator.dimension
+        let constructor = self.get_configurator()?.elements.get(elem);
+        Ok(*constructor.ok_or(NodalAnalysisModellingError::ElementTypeNotFound)?)
+    }
+
+    fn get_dimension(&self) -> anyhow::Result<usize>
+    {
+        Ok(self.get_configurator()?.dimension)
     }
 
     pub fn add_nodes(mut self, n: usize) -> NodalAnalysisStudyBuilder
@@ -232,7 +237,7 @@ impl NodalAnalysisStudyBuilder
 
     pub fn run_study(self, margin: f64, limit: usize) -> anyhow::Result<NodalAnalysisStudyResult>
     {
-        let n = self.get_dimension();
+        let n = self.get_dimension()?;
         let mut nodes = vec![];
         let mut elements = vec![];
 
@@ -264,7 +269,7 @@ impl NodalAnalysisStudyBuilder
         for element_data in &self.model.elements
         {
             let NodalAnalysisElement { element_type, input, output, gain } = element_data;
-            let constructor = self.get_element_constructor(element_type);
+            let constructor = self.get_element_constructor(element_type)?;
             elements.push(constructor(
                 Rc::downgrade(&nodes[*input]), 
                 Rc::downgrade(&nodes[*output]), 
@@ -277,7 +282,7 @@ impl NodalAnalysisStudyBuilder
         let mut guess = HashMap::new();
         for (node_idx, _) in nodes.iter().enumerate().filter(|(_, x)| !x.borrow().is_locked)
         {
-            for comp_idx in 0..self.get_dimension()
+            for comp_idx in 0..n
             {
                 let idx = ComponentIndex 
                 { 
-- 
2.43.0


From 7e52f8e7469a8d8d2523cc64ef8fc972c0781fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 47/80] fix: return an error for models that refer to missing
 nodes instead of panicking

---
 neapolitan/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index fc12315..0de3e6f 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -259,7 +259,9 @@ impl NodalAnalysisStudyBuilder
         // Step 2 - set nodal metadata if it is given
         for (&i, node_data) in &self.model.configuration
         {
-            let mut node = nodes[i].borrow_mut();
+            let mut node = nodes.get(i)
+                .ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?
+                .borrow_mut();
             node.potential = Matrix::from_col_vec(node_data.potential.to_vec());
             node.is_locked = node_data.is_locked;
             node._metadata = node_data.metadata.clone();
@@ -270,9 +272,11 @@ impl NodalAnalysisStudyBuilder
         {
             let NodalAnalysisElement { element_type, input, output, gain } = element_data;
             let constructor = self.get_element_constructor(element_type)?;
+            let input_node = nodes.get(*input).ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?;
+            let output_node = nodes.get(*output).ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?;
             elements.push(constructor(
-                Rc::downgrade(&nodes[*input]), 
-                Rc::downgrade(&nodes[*output]), 
+                Rc::downgrade(input_node), 
+                Rc::downgrade(output_node), 
                 gain.to_vec(),
             )?);
         }
-- 
2.43.0


From 04716b90ac309e624b23070af2262f6b239d3d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 48/80] fix: return an error for node potentials of the wrong
 dimension instead of panicking

---
 neapolitan/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 0de3e6f..123e761 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -262,6 +262,10 @@ impl NodalAnalysisStudyBuilder
             let mut node = nodes.get(i)
                 .ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?
                 .borrow_mut();
+            if node_data.potential.len() != n
+            {
+                return Err(NodalAnalysisModellingError::WrongPotentialDimension.into());
+            }
             node.potential = Matrix::from_col_vec(node_data.potential.to_vec());
             node.is_locked = node_data.is_locked;
             node._metadata = node_data.metadata.clone();
-- 
2.43.0


From fb4fa1679a0b8e9ada05229c047f4ef805276f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 49/80] fix: return an error for gains of the wrong size
 instead of panicking

---
 neapolitan/src/dc_circuits.rs   | 25 +++++++++++++++++++++----
 neapolitan/src/errors.rs        |  4 ++++
 neapolitan/src/heat_transfer.rs | 20 ++++++++++++++++----
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index d31ad85..d64af2c 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -3,10 +3,10 @@ use std::rc::{Rc, Weak};
 use std::cell::RefCell;
 
 // 3rd party modules
-use gmatlib::{col_vec, Matrix};
+use gmatlib::Matrix;
 
 // Local modules
-use crate::errors::ElementCreationError;
+use crate::errors::{ElementCreationError, ElementGainError};
 use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
 use crate::{GenericElement, GenericNode};
 
@@ -21,6 +21,11 @@ pub fn resistor(
     resistance: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if resistance.is_empty()
+    {
+        return Err(ElementGainError.into());
+    }
+
     GenericElement::try_new(
         vec![1.0 / resistance[0]],  // Conductance (gain) is reciprocal of resistance in ohms
         input_node, output_node,    // Input and output_node nodes
@@ -36,6 +41,12 @@ pub fn voltage_source(
     voltage: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    // The voltage must have as many components as the potentials it relates
+    if voltage.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(ElementGainError.into());
+    }
+
     // Abort if we cannot remove a DOF from the problem
     if is_locked(&output_node)? && is_locked(&input_node)?
     {
@@ -49,12 +60,12 @@ pub fn voltage_source(
     if drives_output
     {
         lock_node(&output_node)?;
-        set_node_potential(&output_node, (get_node_potential(&input_node)? + col_vec![voltage[0]]).into())?;
+        set_node_potential(&output_node, (get_node_potential(&input_node)? + Matrix::from_col_vec(voltage.clone())).into())?;
     }
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - Matrix::from_col_vec(voltage.clone())).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
@@ -79,6 +90,12 @@ pub fn current_source(
     current: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    // The current must have as many components as the potentials of its nodes
+    if current.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(ElementGainError.into());
+    }
+
     GenericElement::try_new(
         current,
         input_node, output_node,
diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index 2ad2373..e875c3d 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -5,6 +5,10 @@ use thiserror::Error;
 #[error("the element could not be created because both its input and output nodes were already locked.")]
 pub struct ElementCreationError;
 
+#[derive(Debug, Error)]
+#[error("the element could not be created because its gain did not have the right number of values.")]
+pub struct ElementGainError;
+
 #[derive(Debug, Error)]
 pub enum EquationGenerationError
 {
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index 91fe3bf..e0b1165 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -3,10 +3,10 @@ use std::rc::{Rc, Weak};
 use std::cell::RefCell;
 
 // 3rd party modules
-use gmatlib::{col_vec, Matrix};
+use gmatlib::Matrix;
 use thiserror::Error;
 
-use crate::errors::ElementCreationError;
+use crate::errors::{ElementCreationError, ElementGainError};
 // Local modules
 use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
 use crate::{GenericElement, GenericNode};
@@ -97,6 +97,12 @@ pub fn temperature_delta(
     temp_delta: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    // The difference must have as many components as the temperatures it relates
+    if temp_delta.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(ElementGainError.into());
+    }
+
     // Abort if we cannot remove a DOF from the problem
     if is_locked(&output_node)? && is_locked(&input_node)?
     {
@@ -110,12 +116,12 @@ pub fn temperature_delta(
     if drives_output
     {
         lock_node(&output_node)?;
-        set_node_potential(&output_node, (get_node_potential(&input_node)? + col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&output_node, (get_node_potential(&input_node)? + Matrix::from_col_vec(temp_delta.clone())).into())?;
     }
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - Matrix::from_col_vec(temp_delta.clone())).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
@@ -140,6 +146,12 @@ pub fn heat_flux(
     flux: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    // The flux must have as many components as the temperatures of its nodes
+    if flux.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(ElementGainError.into());
+    }
+
     GenericElement::try_new(
         flux, 
         input_node, output_node, 
-- 
2.43.0


From db0d3471285edb1f1e2899015367fc05a80e1eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 50/80] fix: NodalAnalysisModel could not be parsed from any
 string

---
 neapolitan/src/modelling/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/modelling/mod.rs b/neapolitan/src/modelling/mod.rs
index 42fce1f..ebcde84 100644
--- a/neapolitan/src/modelling/mod.rs
+++ b/neapolitan/src/modelling/mod.rs
@@ -5,7 +5,7 @@ pub mod node;
 use std::{collections::HashMap, str::FromStr, usize};
 
 /// 3rd party modules
-use serde::de::{Deserialize, IntoDeserializer, value};
+use serde::de::{value, Error};
 
 /// Local modules
 pub use element::GenericElement;
@@ -55,6 +55,6 @@ impl FromStr for NodalAnalysisModel
 
     fn from_str(s: &str) -> Result<Self, Self::Err> 
     {
-        Self::deserialize(s.into_deserializer())
+        serde_json::from_str(s).map_err(value::Error::custom)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 2ddc161c56b51100d0510058b5d367e8950ce528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 51/80] fix: do not overwrite a model file that is not named
 .json with its solution

---
 neapolitan/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index ff50a91..8896809 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -105,7 +105,7 @@ fn main()
         }
     };
 
-    let solution_file = args[1].replace(".json", ".soln.json");
+    let solution_file = format!("{}.soln.json", args[1].strip_suffix(".json").unwrap_or(&args[1])); // never overwrite the model
     match write(solution_file, solution_json) 
     {
         Ok(_) => process::exit(0),
-- 
2.43.0


From 441e41b362b32070840e395ed01be4ab8b527430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 52/80] fix: report missing arguments instead of panicking

---
 neapolitan/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index 8896809..ccd1ba4 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -10,6 +10,12 @@ fn main()
     let mut precision: Option<f64> = None;
     let mut iteration_limit: Option<usize> = None;
 
+    if args.len() < 2
+    {
+        println!("[neapolitan].....ERR: no model file was given!");
+        process::exit(1);
+    }
+
     let model_json = match read_to_string(&args[1]) 
     {
         Ok(o) => o,
@@ -29,7 +35,7 @@ fn main()
         if arg == "--precision" ||
            arg == "-p"
         {
-            precision = match args[i + 1].parse()
+            precision = match args.get(i + 1).map_or("", |x| x).parse()
             {
                 Ok(o) => 
                 {
@@ -50,7 +56,7 @@ fn main()
         else if arg == "--iterations" ||
                 arg == "-i"
         {
-            iteration_limit = match args[i + 1].parse()
+            iteration_limit = match args.get(i + 1).map_or("", |x| x).parse()
             {
                 Ok(o) => 
                 {
-- 
2.43.0


From b4b661b755d0bb4edc0c6fd84fbcf83386afa06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 53/80] fix: the sample circuit used a model type that no
 longer exists

---
 neapolitan/neapolitan_json/circuit.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neapolitan/neapolitan_json/circuit.json b/neapolitan/neapolitan_json/circuit.json
index f7bdf24..60ccb66 100644
--- a/neapolitan/neapolitan_json/circuit.json
+++ b/neapolitan/neapolitan_json/circuit.json
@@ -1,6 +1,6 @@
 {
   "$schema": "./neapolitan_model_schema.json",
-  "model_type": "ssdc_circuit",
+  "model_type": "dc_circuit",
   "nodes": 4,
   "configuration": {
     "0": {
-- 
2.43.0


From 8722ca0849d9466e1e0eee9f85ba17e9048b6211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 54/80] fix: error message named the gains of a conductor in
 the wrong order

---
 neapolitan/src/heat_transfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index e0b1165..57116ac 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -12,7 +12,7 @@ use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node
 use crate::{GenericElement, GenericNode};
 
 #[derive(Debug, Error)]
-#[error("you must specify a conductivity coefficient 'k' and a length (in that order), or calculate the ratio youself to create a conductor element")]
+#[error("you must specify a length and a conductivity coefficient 'k' (in that order), or calculate the ratio youself to create a conductor element")]
 pub struct ConductorCreationError;
 
 #[derive(Debug, Error)]
-- 
2.43.0


From 103704ba64ae3c869e02938de6a018e75f644cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 55/80] fix: subset returned an empty matrix for backwards
 indices in release builds

---
 gmatlib/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index ba4ead7..025ab82 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -478,6 +478,9 @@ where T: Element<T>
     /// ```
     pub fn subset(&self, r1: usize, c1: usize, r2: usize, c2: usize) -> Matrix<T>
     {
+        // Overflow is not checked in release builds, so this cannot rely on the subtraction to panic
+        assert!(r1 <= r2 && c1 <= c2, "{}", MatrixSubsetError);
+
         let mut b = Matrix::new(r2 - r1 + 1, c2 - c1 + 1);
 
         for i in r1..r2+1
-- 
2.43.0


From e49d050d31ab81ef90bd1a705669b33040633aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 56/80] fix: leave the matrix intact when the inversion of a
 matrix larger than 4x4 fails

---
 gmatlib/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 025ab82..88f210a 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -686,6 +686,7 @@ where T: Element<T>
         // assertion that rows == cols has already happened prior to function call
         let n = self.rows;
         let mut inv: Matrix<T> = Matrix::new_identity(n);
+        let original = self.clone();
 
         for j in 0..n
         {
@@ -702,6 +703,7 @@ where T: Element<T>
 
             if self[(pivot, j)] == T::zero()
             {
+                *self = original; // a failed inversion must not leave a half-reduced matrix behind
                 return Err(MatrixInversionError::ZeroDuringInversion.into())
             }
 
-- 
2.43.0


From db81cf1e1970649a4895615c7ccd8811e0c13a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 57/80] fix: subset allocated for, or returned, ranges far
 outside the matrix

---
 gmatlib/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 88f210a..30a0e2e 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -478,8 +478,8 @@ where T: Element<T>
     /// ```
     pub fn subset(&self, r1: usize, c1: usize, r2: usize, c2: usize) -> Matrix<T>
     {
-        // Overflow is not checked in release builds, so this cannot rely on the subtraction to panic
-        assert!(r1 <= r2 && c1 <= c2, "{}", MatrixSubsetError);
+        // Overflow is not checked in release builds, so this cannot rely on the arithmetic to panic
+        assert!(r1 <= r2 && c1 <= c2 && r2 < self.rows && c2 < self.cols, "{}", MatrixSubsetError);
 
         let mut b = Matrix::new(r2 - r1 + 1, c2 - c1 + 1);
 
-- 
2.43.0


From dc387a73248d9bc0b640eaab586061ab2622fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 58/80] fix: the inverse of a 3x3 matrix was transposed

---
 gmatlib/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 30a0e2e..62f38be 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -596,13 +596,13 @@ where T: Element<T>
     fn try_inplace_invert_3(&mut self) -> Result<()>
     {
         let a11 = self[(0, 0)];
-        let a12 = self[(1, 0)];
-        let a13 = self[(2, 0)];
-        let a21 = self[(0, 1)];
+        let a12 = self[(0, 1)];
+        let a13 = self[(0, 2)];
+        let a21 = self[(1, 0)];
         let a22 = self[(1, 1)];
-        let a23 = self[(2, 1)];
-        let a31 = self[(0, 2)];
-        let a32 = self[(1, 2)];
+        let a23 = self[(1, 2)];
+        let a31 = self[(2, 0)];
+        let a32 = self[(2, 1)];
         let a33 = self[(2, 2)];
 
         let det  = a11*a22*a33 + a21*a32*a13 + a31*a12*a23 
-- 
2.43.0


From a5d387da0985fa257627741f3e019aa429ac0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 59/80] fix: the determinant of a 4x4 matrix had a wrong term

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 62f38be..2846ee3 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -649,7 +649,7 @@ where T: Element<T>
         let det  = a11*a22*a33*a44 + a11*a23*a34*a42 + a11*a24*a32*a43 +
                    a12*a21*a34*a43 + a12*a23*a31*a44 + a12*a24*a33*a41 + 
                    a13*a21*a32*a44 + a13*a22*a34*a41 + a13*a24*a31*a42 + 
-                   a14*a21*a33*a42 + a14*a22*a34*a43 + a14*a23*a32*a41 -
+                   a14*a21*a33*a42 + a14*a22*a31*a43 + a14*a23*a32*a41 -
                    a11*a22*a34*a43 - a11*a23*a32*a44 - a11*a24*a33*a42 -
                    a12*a21*a33*a44 - a12*a23*a34*a41 - a12*a24*a31*a43 -
                    a13*a21*a34*a42 - a13*a22*a31*a44 - a13*a24*a32*a41 -
-- 
2.43.0


From 721e5f454011930d566f89656cf5dbce79aaf70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 60/80] fix: reject equations with an empty left side

---
 geqslib/src/shunting.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 8f2c71c..1f85e90 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -286,8 +286,8 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
         prev = word;
     }
 
-    // The last operator or function was missing its operand
-    if unary_minus && !prev.is_empty()
+    // The expression was empty, or its last operator or function was missing its operand
+    if unary_minus
     {
         return Err(ShuntingYardError::ExpectedArg.into());
     }
-- 
2.43.0


From 5adbe5240527e9539e3ecd2cb0033cb54770974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 61/80] fix: solve equations in contexts that hold other known
 variables

---
 geqslib/src/lib.rs | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 5a0ecb9..7d11e86 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -20,31 +20,10 @@ use std::collections::{HashMap, HashSet};
 use context::ContextLike;
 use errors::EquationSolverError;
 use newton::newton_raphson;
-use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
+use shunting::{ContextHashMap, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
 use system::get_equation_unknowns;
 use variable::Variable;
 
-/// An internal function for formatting a single-unknown equation to an expression prior to tokenization 
-pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -> anyhow::Result<impl Fn(f64) -> anyhow::Result<f64>>
-{
-    // Ensure that we're solving just one equation
-    let sides: Vec<&str> = equation.split('=').collect();
-    match sides.len()
-    {
-        1 => return Err(EquationSolverError::FoundExpression.into()),
-        2 => (),
-        _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
-    }
-    
-    // Each side must be a well-formed expression on its own
-    for side in &sides
-    {
-        let _ = compile_to_fn(side, ctx)?;
-    }
-
-    compile_to_fn(&format!("{} - ({})", sides[0], sides[1]), ctx)
-}
-
 /// An internal function for formatting an equation to an expression prior to tokenization 
 pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut ContextHashMap) -> anyhow::Result<impl Fn(&HashMap<String, f64>) -> anyhow::Result<f64>>
 {
@@ -117,9 +96,13 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
         return Err(EquationSolverError::SingleUnknownNotFound.into());
     }
     
+    // The context may hold other variables whose values are known, so only set the unknown
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
-    let res = compile_equation_to_fn(equation, ctx)
-        .and_then(|f| newton_raphson(f, guess, margin, limit));
+    let res = compile_equation_to_fn_of_hashmap(equation, ctx)
+        .and_then(|f| newton_raphson(
+            |x| f(&HashMap::from([(unknowns[0].to_owned(), x)])),
+            guess, margin, limit
+        ));
 
     match res
     {
-- 
2.43.0


From c4ae6c611c7ef597bde060c5169b1b3e50ef8ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 62/80] fix: the size of the bushel was mistyped

---
 nexsys/src/units/units.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/units/units.json b/nexsys/src/units/units.json
index 07cc519..9afc3b4 100644
--- a/nexsys/src/units/units.json
+++ b/nexsys/src/units/units.json
@@ -124,7 +124,7 @@
         "gallon": 0.0037854118,
         "l": 0.001,
         "L": 0.001,
-        "Bu": 0.03523007016688,
+        "Bu": 0.03523907016688,
         "ml": 1e-06,
         "milliliter": 1e-06,
         "\u00c2\u00b5l": 1e-09,
-- 
2.43.0


From aff8b04dd0953a30e60626e92537df92d6edd197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:21 +0000
Subject: [PATCH 63/80] fix: start solving single equations from within the
 domain of the unknown

---
 geqslib/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 7d11e86..847f73b 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -96,6 +96,9 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
         return Err(EquationSolverError::SingleUnknownNotFound.into());
     }
     
+    // The function is flat outside of the domain, so never start there
+    let guess = f64::from(Variable::new(guess, min, max));
+
     // The context may hold other variables whose values are known, so only set the unknown
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let res = compile_equation_to_fn_of_hashmap(equation, ctx)
-- 
2.43.0


From bc7194cc9b48a2c68efeca0027f8b19839ee1225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 64/80] fix: guess variables that are kept on a domain without
 1 within that domain

---
 nexsys/src/parsing/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 2239420..e6d1d19 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -194,7 +194,10 @@ pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<Stri
         }
         else 
         {
-            declared.insert(var, [1.0, bounds[0], bounds[1]]);
+            // There is no slope to follow at or outside of the bounds
+            let inside = bounds[0] <= 1.0 && 1.0 < bounds[1];
+            let guess = if inside { 1.0 } else { (bounds[0] + bounds[1]) / 2.0 };
+            declared.insert(var, [guess, bounds[0], bounds[1]]);
         }
     }
 
-- 
2.43.0


From e3e4491c2cbbb5eeb9a7e76a6bc6537c4b8e8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:24 +0000
Subject: [PATCH 65/80] fix: reject malformed equations and conditions in if
 blocks

---
 nexsys/src/parsing/conditionals.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 5be963f..d90cdb6 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -72,6 +72,7 @@ r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:[ \t\r]*$
 ^.*$
 ^[ \t]*end\b"#
         );
+        static ref ADJACENT: Regex = nexsys_regex(r"(?i)[a-z0-9_.][ \t]+[a-z0-9_.]");
         static ref UNMATCHED: Regex = nexsys_regex(r"(?m)^[ \t]*(if [^\n]*:|else:|end)[ \t\r]*$");
     }
     let mut output = text.to_string();
@@ -91,9 +92,18 @@ r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:[ \t\r]*$
     
             // println!("{rows:#?}");
     
+            // Names that are merely adjacent must not become a single name as whitespace is stripped
+            let condition = rows[0].trim_start().strip_prefix("if ").unwrap_or(&rows[0]);
+            if [condition, &rows[1], &rows[3]].iter().any(|i| ADJACENT.is_match(i)) {
+                return Err(ConditionFormatError::ConditionalSyntax.into())
+            }
+
             for r in [1,3] {
                 if rows[r].contains('=') {
                     let terms = rows[r].split('=').collect::<Vec<&str>>();
+                    if terms.len() != 2 || terms.iter().any(|i| i.trim().is_empty()) {
+                        return Err(ConditionFormatError::ConditionalSyntax.into())
+                    }
                     if terms[1].replace(' ',"") == 0.to_string() {
                         rows[r] = terms[0].to_string();
                     } else {
-- 
2.43.0


From a29bca94616ecc6138f1e7b6ee95f895a45dc27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 66/80] fix: reading the potential of a node failed while the
 node was being read

---
 neapolitan/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 123e761..498af23 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -413,7 +413,7 @@ pub fn get_node_potential(node_ref: &Weak<RefCell<GenericNode>>) -> anyhow::Resu
 {
     if let Some(node) = node_ref.upgrade()
     {
-        Ok(node.try_borrow_mut()?.potential.clone())
+        Ok(node.try_borrow()?.potential.clone())
     }
     else
     {
-- 
2.43.0


From 8dbc2bf9ffa527fc45e4b122ccc26c43507b9d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:13 +0000
Subject: [PATCH 67/80] fix: names such as inf and nan were taken for numbers

---
 geqslib/src/shunting.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 1f85e90..6f9e7d1 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -252,7 +252,9 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                     return Err(ShuntingYardError::LeftoverToken.into());
                 }
 
-                if let Ok(num) = other.parse::<f64>() 
+                // Numbers begin with a digit or a point. "inf" and "nan" would parse, too, but are names
+                let is_name = other.starts_with(char::is_alphabetic);
+                if let (false, Ok(num)) = (is_name, other.parse::<f64>())
                 {
                     queue.push(Token::Num(num));
                     unary_minus = false;
-- 
2.43.0


From 1507c0712094a10c51a5a20d8b85423481006aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:24 +0000
Subject: [PATCH 68/80] fix: numbers such as 1e5 could not be used in equations
 and compiled expressions

---
 geqslib/src/shunting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 6f9e7d1..6e72a1c 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -30,7 +30,7 @@ pub fn get_legal_variables_iter(text: &str) -> impl Iterator<Item = &str>
 {
     lazy_static! 
     {
-        static ref RE: Regex = Regex::new(r"(?i)[a-z][a-z0-9_]*").unwrap();
+        static ref RE: Regex = Regex::new(r"(?i)\b[a-z][a-z0-9_]*").unwrap(); // not the exponent of "1e5"
     }
     RE.find_iter(text).map(|i| i.as_str())
 }
-- 
2.43.0


From eb40e7001b009a135ac62996519fa49e6865c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 69/80] fix: report matrix sizes whose number of elements
 overflows

---
 gmatlib/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 2846ee3..ca287ae 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -59,7 +59,8 @@ where T: Element<T>
         { 
             rows, 
             cols, 
-            vals: Vec::with_capacity(rows * cols),
+            // Overflow is not checked in release builds, but would leave less values than indices
+            vals: Vec::with_capacity(rows.checked_mul(cols).expect("capacity overflow")),
         };
         
         for _ in 0..a.vals.capacity()
-- 
2.43.0


From 091aee288ebf038f31fa20a52e1f09bf5056b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 70/80] fix: root finding ran out of stack for large iteration
 limits

---
 geqslib/src/newton.rs | 59 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 06a812d..0956322 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -5,6 +5,16 @@ use crate::errors::NewtonRaphsonSolverError;
 
 const _DX_: f64 = 0.001; 
 
+/// The outcome of a single iteration of the newton-raphson method.
+enum Step<T>
+{
+    /// The guess is sufficiently close to the solution.
+    Solved,
+
+    /// The guess must be improved further, starting from this value.
+    Next(T),
+}
+
 /// A basic implementation of the 1-D newton-raphson method.
 /// This function allows the caller to choose an initial guess value,
 /// a margin of error, and a maximum number of iterations prior to 
@@ -43,6 +53,24 @@ where anyhow::Error: From<E>
         return Err(NewtonRaphsonSolverError::ReachedIterationLimit.into());
     }
 
+    // Iterations are not nested, so that no limit can exhaust the stack
+    let mut next_guess = guess;
+    for _ in 0..limit
+    {
+        match newton_raphson_step(&f, next_guess, margin)?
+        {
+            Step::Solved => return Ok(next_guess),
+            Step::Next(x) => next_guess = x,
+        }
+    }
+
+    Err(NewtonRaphsonSolverError::ReachedIterationLimit.into())
+}
+
+/// Performs a single iteration of the 1-D newton-raphson method.
+fn newton_raphson_step<E>(f: &impl Fn(f64) -> Result<f64, E>, guess: f64, margin: f64) -> anyhow::Result<Step<f64>>
+where anyhow::Error: From<E>
+{
     let y = f(guess)?;
     let y_prime = (f(guess + _DX_)? - y) / _DX_;
     let delta = y / y_prime;
@@ -50,13 +78,13 @@ where anyhow::Error: From<E>
     // Check if we are sufficiently close to the solution:
     if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
     {
-        return Ok(guess); // ...if so, exit early
+        return Ok(Step::Solved); // ...if so, exit early
     }
 
     // ...if not, calculate next iteration
     let next_guess = guess - delta;
 
-    newton_raphson(f, next_guess, margin, limit - 1)
+    Ok(Step::Next(next_guess))
 }
 
 /// A basic implementation of the Newton-Raphson method for multivariate
@@ -129,9 +157,30 @@ where
         return Ok(guess);
     }
 
+    // Iterations are not nested, so that no limit can exhaust the stack
+    for _ in 0..limit
+    {
+        if let Step::Solved = multivariate_newton_raphson_step(&f, guess, margin)?
+        {
+            return Ok(guess);
+        }
+    }
+
+    Err(NewtonRaphsonSolverError::ReachedIterationLimit.into())
+}
+
+/// Performs a single iteration of the multivariate newton-raphson method,
+/// improving `guess` unless it is already sufficiently close to the solution.
+fn multivariate_newton_raphson_step<K, E>(f: &[impl Fn(&HashMap<K, f64>) -> Result<f64, E>], guess: &mut HashMap<K, f64>, margin: f64) -> anyhow::Result<Step<()>>
+where 
+    K: Clone + Eq + Hash,
+    anyhow::Error: From<E>,
+{
+    let n = f.len();
+
     // Build jacobian w/ F(X) values... we will mutate them to F'(X) later
     let mut elements = vec![];
-    for func in &f 
+    for func in f 
     {
         let row = &mut vec![func(guess)?; n];
         elements.append(row);
@@ -183,7 +232,7 @@ where
 
     if error <= margin && change <= margin
     {
-        return Ok(guess);
+        return Ok(Step::Solved);
     }
 
     // Build next guess vector
@@ -196,5 +245,5 @@ where
     }
 
     // COMPUTER, ENHANCE!
-    multivariate_newton_raphson(f, guess, margin, limit - 1)
+    Ok(Step::Next(()))
 }
\ No newline at end of file
-- 
2.43.0


From f7b669071f5246023c51b49413a80c14dee75a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 71/80] fix: if blocks with keywords in other spellings were
 solved unconditionally

---
 nexsys/src/parsing/conditionals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index d90cdb6..cf4e562 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -73,7 +73,7 @@ r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:[ \t\r]*$
 ^[ \t]*end\b"#
         );
         static ref ADJACENT: Regex = nexsys_regex(r"(?i)[a-z0-9_.][ \t]+[a-z0-9_.]");
-        static ref UNMATCHED: Regex = nexsys_regex(r"(?m)^[ \t]*(if [^\n]*:|else:|end)[ \t\r]*$");
+        static ref UNMATCHED: Regex = nexsys_regex(r"(?im)^[ \t]*(if [^\n]*(:|[<>]|[!=]=)[^\n]*|(else|end)[ \t]*(if)?[ \t]*:?)[ \t\r]*$");
     }
     let mut output = text.to_string();
     
-- 
2.43.0


From 659a68f7d023ee023d7b5bb85f8231c039fd00db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 72/80] fix: inverses that the elements of a matrix cannot hold
 were returned as garbage

---
 gmatlib/src/error.rs |  4 +++-
 gmatlib/src/ffi.rs   |  1 +
 gmatlib/src/lib.rs   | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/gmatlib/src/error.rs b/gmatlib/src/error.rs
index 28fd7d9..a1099a5 100644
--- a/gmatlib/src/error.rs
+++ b/gmatlib/src/error.rs
@@ -35,7 +35,8 @@ pub enum MatrixInversionError
 {
     DeterminantWasZero,
     SingularValueWasZero,
-    ZeroDuringInversion
+    ZeroDuringInversion,
+    NotRepresentable
 }
 impl Display for MatrixInversionError
 {
@@ -46,6 +47,7 @@ impl Display for MatrixInversionError
             MatrixInversionError::DeterminantWasZero   => write!(f, "calculated a determinant of 0 while trying to invert matrix."),
             MatrixInversionError::SingularValueWasZero => write!(f, "matrix was zero matrix of size 1 x 1 and cannot be inverted."),
             MatrixInversionError::ZeroDuringInversion  => write!(f, "found a 0 value during the nxn matrix inversion process."),
+            MatrixInversionError::NotRepresentable     => write!(f, "the elements of the inverse are not representable by the type of the matrix elements."),
         }
     }
 }
diff --git a/gmatlib/src/ffi.rs b/gmatlib/src/ffi.rs
index c4afe88..3611beb 100644
--- a/gmatlib/src/ffi.rs
+++ b/gmatlib/src/ffi.rs
@@ -230,6 +230,7 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
                     Ok(MatrixInversionError::DeterminantWasZero)    => 0,
                     Ok(MatrixInversionError::SingularValueWasZero)  => 1,
                     Ok(MatrixInversionError::ZeroDuringInversion)   => 2,
+                    Ok(MatrixInversionError::NotRepresentable)      => 4,
                     Err(_) => 3,
                 }
             }
diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index ca287ae..db4203a 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -726,6 +726,13 @@ where T: Element<T>
             }
         }
 
+        // Integer division may have left a zero behind where no fraction would have
+        if (0..n).any(|i| self[(i, i)] == T::zero())
+        {
+            *self = original;
+            return Err(MatrixInversionError::ZeroDuringInversion.into())
+        }
+
         for i in 0..n
         {
             let scalar: T = T::one() / self[(i, i)];
@@ -769,6 +776,8 @@ where T: Element<T>
             return Err(Error::new(MatrixInversionError::SingularValueWasZero))
         }
 
+        let original = self.clone();
+
         match self.rows {
             1 => self.vals[0] = T::one() / self.vals[0],
             2 => self.try_inplace_invert_2()?,
@@ -777,9 +786,34 @@ where T: Element<T>
             _ => self.try_inplace_invert_n()?,
         };
 
+        // The type of the elements may be unable to hold the inverse
+        if !self.is_inverse_of(&original)?
+        {
+            *self = original;
+            return Err(MatrixInversionError::NotRepresentable.into())
+        }
+
         Ok(())
     }
 
+    /// Checks that an inverse was not lost to the limits of the type of its elements, i.e. that 
+    /// there were no values too large for a float, or fractions that an integer can not hold. 
+    fn is_inverse_of(&self, original: &Matrix<T>) -> Result<bool>
+    {
+        let finite = |x: &T| *x - *x == T::zero();
+        let is_integer = T::one() / (T::one() + T::one()) == T::zero();
+
+        if is_integer
+        {
+            return Ok(original.multiply_matrix(self)? == Matrix::new_identity(self.rows))
+        }
+
+        // An inverse without values in some row is the result of an intermediate value that was too large
+        let no_zero_row = (0..self.rows).all(|i| (0..self.cols).any(|j| self[(i, j)] != T::zero()));
+        
+        Ok(no_zero_row && self.vals.iter().all(finite))
+    }
+
 }
 
 /// Creates a new row vector `Matrix<T>`
-- 
2.43.0


From 51a99a934a622420f6abd59258811ad496bc195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 73/80] fix: the C++ class of gmatlib.h did not compile, shared
 handles between copies and passed wrong pointers

---
 gmatlib/gmatlib.h | 115 ++++++++++++++++++++++++++--------------------
 1 file changed, 64 insertions(+), 51 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 60e5ed1..890ce66 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -5,7 +5,9 @@
 #ifdef __cplusplus
 #include <exception>
 #include <sstream>
-#include <tuple>
+#include <stdexcept>
+#include <string>
+#include <utility>
 
 // uses
 using std::pair;
@@ -39,6 +41,8 @@ namespace _ngffi_
             ZeroDuringInversion,
             /// @brief indicates that one of any other number of internal gmatlib errors occurred. 
             UnknownGmatlibError,
+            /// @brief indicates that the elements of the inverse matrix cannot be represented by the type of the matrix' elements
+            NotRepresentable,
             
             /// @brief this should be the last value and should have the maximum value a 32-bit integer can have. This value indicates that the process inverted the matrix successfully
             Ok = UINT_MAX,
@@ -68,18 +72,18 @@ namespace _ngffi_
         /// @return a boolean integer value indicating success (0 on failure) 
         unsigned inplace_scale(void *ptr, double scalar);
 
-        /// @brief adds the row r1 to the row r2 in an element-wise manner
+        /// @brief adds the row r2 to the row r1 in an element-wise manner
         /// @param ptr a raw pointer to the matrix to mutate
-        /// @param r1 the row to add without mutating
-        /// @param r2 the row to mutably add to
+        /// @param r1 the row to mutably add to
+        /// @param r2 the row to add without mutating
         /// @return a boolean integer value indicating success (0 on failure)
         unsigned inplace_row_add(void *ptr, unsigned r1, unsigned r2);
 
-        /// @brief adds the row r1 to the row r2 in an element-wise manner AFTER scaling row r1 by a given value
+        /// @brief adds the row r2 to the row r1 in an element-wise manner AFTER scaling row r2 by a given value
         /// @param ptr a raw pointer to the matrix to mutate
-        /// @param r1 the row to add without mutating
-        /// @param r2 the row to mutably add to
-        /// @param scalar the quantity to scale row r1 by
+        /// @param r1 the row to mutably add to
+        /// @param r2 the row to add without mutating
+        /// @param scalar the quantity to scale row r2 by
         /// @return a boolean integer value indicating success (0 on failure)
         unsigned inplace_scaled_row_add(void *ptr, unsigned r1, unsigned r2, double scalar);
 
@@ -169,6 +173,10 @@ namespace ngineer
             cols(cols),
             ptr(ptr)
         {
+            if (ptr == nullptr)
+            {
+                throw runtime_error { "failed to allocate a matrix.\n" };
+            }
         }
 
     public:
@@ -176,16 +184,32 @@ namespace ngineer
         /// @param rows the number of rows that the matrix should have
         /// @param cols the number of columns that the matrix should have
         Matrix(unsigned rows, unsigned cols): 
-            rows(rows), 
-            cols(cols), 
-            ptr(_ngffi_::new_double_matrix(rows, cols))
+            Matrix(rows, cols, _ngffi_::new_double_matrix(rows, cols))
+        {
+        }
+
+        /// @brief creates a copy of the given matrix that owns its elements
+        /// @param other the matrix to copy
+        Matrix(const Matrix &other):
+            Matrix(other.rows, other.cols, _ngffi_::clone_double_matrix(other.ptr))
+        {
+        }
+
+        /// @brief replaces this matrix with a copy of the given one
+        /// @param other the matrix to copy
+        /// @return a reference to this matrix
+        inline Matrix &operator=(Matrix other) noexcept
         {
+            std::swap(rows, other.rows);
+            std::swap(cols, other.cols);
+            std::swap(ptr, other.ptr);
+            return *this;
         }
 
         /// @brief creates a new identity matrix with the specified edge length
         /// @param n the number of rows/columns that the matrix should have
         /// @return a new identity matrix
-        inline const static Matrix Identity(unsigned n) noexcept
+        inline static Matrix Identity(unsigned n)
         {   
             return Matrix { n, n, _ngffi_::new_double_identity_matrix(n) };
         }
@@ -205,11 +229,9 @@ namespace ngineer
             unsigned result = _ngffi_::inplace_row_scale(ptr, row, scalar);
             if (!result)
             {
-                string errorText;
                 stringstream ss;
                 ss << "failed to scale row " << row << " by " << scalar << ".\n";
-                ss >> errorText;
-                throw runtime_error { errorText };
+                throw runtime_error { ss.str() };
             }
         }
 
@@ -220,60 +242,52 @@ namespace ngineer
             unsigned result = _ngffi_::inplace_scale(ptr, scalar);
             if (!result)
             {
-                string errorText;
                 stringstream ss;
                 ss << "failed to scale matrix by " << scalar << ".\n";
-                ss >> errorText;
-                throw runtime_error { errorText };
+                throw runtime_error { ss.str() };
             }
         }
 
-        /// @brief adds the row `r1` to row `r2` in an element-wise fashion
-        /// @param r1 the row to add to another row
-        /// @param r2 the row to mutate by the addition operation
+        /// @brief adds the row `r2` to row `r1` in an element-wise fashion
+        /// @param r1 the row to mutate by the addition operation
+        /// @param r2 the row to add to another row
         inline void inplace_row_add(unsigned r1, unsigned r2)
         {
             unsigned result = _ngffi_::inplace_row_add(ptr, r1, r2);
             if (!result)
             {
-                string errorText;
                 stringstream ss;
-                ss << "failed to add row " << r1 << " to row " << r2 << ".\n";
-                ss >> errorText;
-                throw runtime_error { errorText };
+                ss << "failed to add row " << r2 << " to row " << r1 << ".\n";
+                throw runtime_error { ss.str() };
             }
         }
 
-        /// @brief scales the row `r1` by `scalar` before adding it to row `r2` in an element-wise fashion
-        /// @param r1 the row to scale and add
-        /// @param r2 the row to mutate by the scaled addition operation
+        /// @brief scales the row `r2` by `scalar` before adding it to row `r1` in an element-wise fashion
+        /// @param r1 the row to mutate by the scaled addition operation
+        /// @param r2 the row to scale and add
         /// @param scalar the value to scaled 
         inline void inplace_scaled_row_add(unsigned r1, unsigned r2, double scalar)
         {
             unsigned result = _ngffi_::inplace_scaled_row_add(ptr, r1, r2, scalar);
             if (!result)
             {
-                string errorText;
                 stringstream ss;
-                ss << "failed to add row " << r1 << " scaled by " << scalar << " to row " << r2 << ".\n";
-                ss >> errorText;
-                throw runtime_error { errorText };
+                ss << "failed to add row " << r2 << " scaled by " << scalar << " to row " << r1 << ".\n";
+                throw runtime_error { ss.str() };
             }
         }
 
         /// @brief returns the matrix product between two matrices
         /// @param rhs the right-hand operand matrix
         /// @return the matrix product of `this` matrix and `rhs`
-        inline Matrix operator*(const Matrix rhs) const
+        inline Matrix operator*(const Matrix &rhs) const
         {
-            void* matrixProduct = _ngffi_::multiply_matrix(ptr, const_cast<Matrix *>(&rhs));
+            void* matrixProduct = _ngffi_::multiply_matrix(ptr, rhs.ptr);
             if (matrixProduct == nullptr)
             {
-                string errorText;
                 stringstream ss;
                 ss << "failed to multiply matrix: " << this << " by matrix: " << &rhs << ".\n";
-                ss >> errorText;
-                throw runtime_error { errorText };
+                throw runtime_error { ss.str() };
             }
             return Matrix { rows, rhs.cols, matrixProduct };
         }
@@ -281,16 +295,14 @@ namespace ngineer
         /// @brief returns the augment of the two given matrices if their number of rows are equal
         /// @param rhs the right-hand operand matrix
         /// @return a new matrix produced by appending the rows of the right-hand matrix to the rows of the left 
-        inline Matrix operator|(const Matrix rhs) const
+        inline Matrix operator|(const Matrix &rhs) const
         {
-            void *augmentMatrix = _ngffi_::augment_with(ptr, const_cast<Matrix *>(&rhs));
+            void *augmentMatrix = _ngffi_::augment_with(ptr, rhs.ptr);
             if (augmentMatrix == nullptr)
             {
-                string errorText;
                 stringstream ss;
                 ss << "failed to augment matrix: " << this << " with matrix: " << &rhs << ".\n";
-                ss >> errorText;
-                throw runtime_error { errorText };
+                throw runtime_error { ss.str() };
             }
             return Matrix { rows, cols + rhs.cols, augmentMatrix };
         }
@@ -328,7 +340,7 @@ namespace ngineer
                 ss << "failed to slice matrix: "  ".\n";
             }
 
-            ss >> errorText;
+            errorText = ss.str();
 
             if (!errorText.empty())
             {
@@ -347,16 +359,16 @@ namespace ngineer
 
         /// @brief produces a copy of the matrix containing the same elements but transposed 
         /// @return the transpose of the given matrix as a new matrix object
-        inline Matrix transpose() const noexcept
+        inline Matrix transpose() const
         {
             void *transposed = _ngffi_::transpose(ptr);
-            return Matrix { cols, rows, ptr };
+            return Matrix { cols, rows, transposed };
         }
 
         /// @brief inverts the given matrix by mutating its values through gaussian elimination
         inline void inplace_invert()
         {
-            constexpr char *ERROR_MESSAGE_PREFIX = "failed to invert matrix because ";
+            constexpr const char *ERROR_MESSAGE_PREFIX = "failed to invert matrix because ";
             unsigned result = _ngffi_::try_inplace_invert(ptr);
             string errorText;
             stringstream ss;
@@ -375,6 +387,9 @@ namespace ngineer
             case _ngffi_::MatrixInversionError::UnknownGmatlibError:
                 errorText = "an internal gmatlib-defined error occurred.\n";
                 break;
+            case _ngffi_::MatrixInversionError::NotRepresentable:
+                errorText = "the elements of the inverse could not be represented.\n";
+                break;
             case _ngffi_::MatrixInversionError::Ok:
                 return; // ABORT CONTROL FLOW! INVERSION WAS SUCCESSFUL!
                 break;
@@ -383,9 +398,7 @@ namespace ngineer
                 break;
             }
             ss << ERROR_MESSAGE_PREFIX << errorText;
-            errorText.clear(); // TODO: is this necessary?
-            ss >> errorText;
-            throw runtime_error { errorText };
+            throw runtime_error { ss.str() };
         }
 
         /// @brief mutates the value at the given index in the matrix to a desired value.
@@ -400,7 +413,7 @@ namespace ngineer
         /// @brief returns a copy of the value at the given index in the matrix
         /// @param indices the row and column of the element to get
         /// @return the `double` value located at that index
-        inline const double operator[](pair<unsigned, unsigned> indices)
+        inline double operator[](pair<unsigned, unsigned> indices) const
         {
             return _ngffi_::index_double_matrix(ptr, indices.first, indices.second);
         }
@@ -411,7 +424,7 @@ namespace ngineer
         /// @param out the stringstream to format this matrix in
         /// @param o the matrix to append to the stringstream with the stream operator `<<`
         /// @return a reference to the given stringstream
-        inline friend stringstream& operator<<(stringstream &out, Matrix &const o)
+        inline friend stringstream& operator<<(stringstream &out, const Matrix &o)
         {
             unsigned numElems = o.rows * o.cols;
 
-- 
2.43.0


From f07b4a0927840bf2f1234152ad085133de26c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 74/80] fix: the C++ classes of geqslib.h did not compile and
 freed handles that were used up or shared

---
 geqslib/geqslib.h | 115 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 101 insertions(+), 14 deletions(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index c05f199..b04d2b1 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -4,7 +4,9 @@
 // includes
 #include <exception>
 #include <sstream>
+#include <stdexcept>
 #include <string>
+#include <utility>
 
 // uses
 using std::runtime_error;
@@ -30,6 +32,8 @@ namespace _ngffi_
             NotConstrained  =  0,
             /// @brief the system is properly constrained
             Constrained     =  1,
+            /// @brief the system would have been over-constrained, so the equation was not added
+            OverConstrained =  2,
         };
 
         /// @brief
@@ -135,6 +139,8 @@ namespace ngineer
 {
     using _ngffi_::SystemBuilderConstraintStatus;
 
+    class ConstrainedSystem;
+
     class ContextHashMap
     {
         // Allow SystemBuilder to access raw data
@@ -153,6 +159,15 @@ namespace ngineer
             ptr = _ngffi_::new_default_context_hash_map();
         }
 
+        // The memory behind `ptr` has one owner
+        ContextHashMap(const ContextHashMap &) = delete;
+        ContextHashMap &operator=(const ContextHashMap &) = delete;
+
+        ContextHashMap(ContextHashMap &&other) noexcept: ptr(other.ptr)
+        {
+            other.ptr = nullptr;
+        }
+
         inline static ContextHashMap newEmpty() noexcept
         {
             return ContextHashMap { _ngffi_::new_context_hash_map() };
@@ -165,25 +180,48 @@ namespace ngineer
 
         ~ContextHashMap()
         {
-            _ngffi_::free_context_hash_map(ptr);
+            if (ptr != nullptr)
+            {
+                _ngffi_::free_context_hash_map(ptr);
+            }
         }
     }; // class ContextHashMap
 
     class SystemBuilder
     {
     private:
+        /// @brief the builder, or `nullptr` once the system has been built
         void *ptr;
 
     public:
-        SystemBuilder(string equation, ContextHashMap context)
+        SystemBuilder(string equation, const ContextHashMap &context)
         {
             ptr = const_cast<void *>(
                 _ngffi_::new_system_builder(
                     equation.c_str(), context.ptr));
+
+            if (ptr == nullptr)
+            {
+                throw runtime_error { "failed to start a system with the equation: " + equation };
+            }
+        }
+
+        // The memory behind `ptr` has one owner
+        SystemBuilder(const SystemBuilder &) = delete;
+        SystemBuilder &operator=(const SystemBuilder &) = delete;
+
+        SystemBuilder(SystemBuilder &&other) noexcept: ptr(other.ptr)
+        {
+            other.ptr = nullptr;
         }
 
         inline SystemBuilderConstraintStatus try_constrain_with(string equation)
         {
+            if (ptr == nullptr)
+            {
+                return SystemBuilderConstraintStatus::ConstraintError;
+            }
+
             SystemBuilderConstraintStatus result;
             result = static_cast<SystemBuilderConstraintStatus>(
                 _ngffi_::try_constrain_with(ptr, equation.c_str()));
@@ -198,28 +236,31 @@ namespace ngineer
 
         inline SystemBuilderConstraintStatus is_fully_constrained() const noexcept
         {
+            if (ptr == nullptr)
+            {
+                return SystemBuilderConstraintStatus::ConstraintError;
+            }
             return static_cast<SystemBuilderConstraintStatus>(
                 _ngffi_::is_fully_constrained(ptr));
         }
 
-        inline ConstrainedSystem build_system()
-        {
-            const void *result = _ngffi_::build_system(ptr);
-            if (result == nullptr)
-            {
-                // TODO: throw exception
-            }
-            return ConstrainedSystem { result };
-        }
+        /// @brief builds the system, which uses up this builder whether or not it succeeds
+        inline ConstrainedSystem build_system();
 
         inline void show_system_builder() const noexcept
         {
-            _ngffi_::debug_system_builder(ptr);
+            if (ptr != nullptr)
+            {
+                _ngffi_::debug_system_builder(ptr);
+            }
         }
 
         ~SystemBuilder()
         {
-            _ngffi_::free_system_builder(ptr);
+            if (ptr != nullptr)
+            {
+                _ngffi_::free_system_builder(ptr);
+            }
         }
     }; // class SystemBuilder
 
@@ -236,16 +277,62 @@ namespace ngineer
         }
 
     public:
+        // The memory behind `ptr` has one owner
+        ConstrainedSystem(const ConstrainedSystem &) = delete;
+        ConstrainedSystem &operator=(const ConstrainedSystem &) = delete;
+
+        ConstrainedSystem(ConstrainedSystem &&other) noexcept: ptr(other.ptr)
+        {
+            other.ptr = nullptr;
+        }
+
+        /// @return `1` on success or `-1` on failure
         inline int specify_variable(string var, double guess, double min, double max)
         {
+            if (ptr == nullptr)
+            {
+                return -1;
+            }
             return _ngffi_::specify_variable(ptr, var.c_str(), guess, min, max);
         }
 
+        /// @brief solves the system, which is used up by this 
+        /// @return the solution, to be freed with `free_solution_string`, or `nullptr` on failure
         inline const char *solve_system(double margin, unsigned limit)
         {
-            return _ngffi_::solve_system(ptr, margin, limit);
+            if (ptr == nullptr)
+            {
+                return nullptr;
+            }
+            void *system = ptr;
+            ptr = nullptr;
+            return _ngffi_::solve_system(system, margin, limit);
+        }
+
+        ~ConstrainedSystem()
+        {
+            if (ptr != nullptr)
+            {
+                _ngffi_::free_system(ptr);
+            }
         }
     }; // class ConstrainedSystem
+
+    inline ConstrainedSystem SystemBuilder::build_system()
+    {
+        const void *result = nullptr;
+        if (ptr != nullptr)
+        {
+            void *builder = ptr;
+            ptr = nullptr;
+            result = _ngffi_::build_system(builder);
+        }
+        if (result == nullptr)
+        {
+            throw runtime_error { "failed to build the system." };
+        }
+        return ConstrainedSystem { result };
+    }
 } // namespace ngineer
 #endif // __cplusplus
 #endif // _GEQSLIB_H_
\ No newline at end of file
-- 
2.43.0


From 08fa5a8cd95b28d3f5e9dca74d4cf1f2930ec704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 75/80] fix: build tags as elements, so that adding one keeps
 the callbacks of everything that is already in its parent

---
 ngineer_js/src/tagbuilder.ts    | 34 ++++++++++++++++-----------------
 ngineer_js/target/tagbuilder.js | 27 +++++++++++---------------
 2 files changed, 27 insertions(+), 34 deletions(-)

diff --git a/ngineer_js/src/tagbuilder.ts b/ngineer_js/src/tagbuilder.ts
index dad3f53..6764f4b 100644
--- a/ngineer_js/src/tagbuilder.ts
+++ b/ngineer_js/src/tagbuilder.ts
@@ -93,9 +93,7 @@ export class TagBuilder
 {
     tagType:        HtmlTagKind;
     tagClass:       string;
-    tagClassText:   string;
     tagId:          string;
-    tagIdText:      string;
     tagContent:     string;
     tagCallbacks:   TagCallbacks;
 
@@ -107,9 +105,7 @@ export class TagBuilder
     {
         this.tagType = tagType;
         this.tagClass = '';
-        this.tagClassText = '';
         this.tagId = '';
-        this.tagIdText = '';
         this.tagContent = '';
         this.tagCallbacks = {
             onclick: null,
@@ -124,14 +120,12 @@ export class TagBuilder
     setTagClass(tagClass: string): TagBuilder
     {
         this.tagClass = tagClass;
-        this.tagClassText = `class='${tagClass}'`;
         return this;
     }
 
     setTagId(id: string)
     {
         this.tagId = id;
-        this.tagIdText = `id='${id}'`;
         return this;
     }
 
@@ -158,7 +152,6 @@ export class TagBuilder
     buildInto(parentTag: DynTag, append?: boolean): DynTag
     {
         const children: TagGetter[] = [];
-        let preview = `<${this.tagType} ${this.tagIdText}${this.tagClassText}>${this.tagContent}</${this.tagType}>`;
         let getter = () => {
             let maybeElem = document.getElementById(this.tagId);
             if (maybeElem === null)
@@ -178,23 +171,28 @@ export class TagBuilder
             return maybeElem;
         };
 
+        const parent = parentTag.getter();
+
         UNIQUE_ELEMENT_IDS.add(this.tagId);
 
-        if (append)
+        // Build the element itself rather than its HTML: adding HTML to that of 
+        // the parent would re-instantiate everything that is already in there, 
+        // without its callbacks.
+        const element = document.createElement(this.tagType);
+        element.id = this.tagId;
+        if (this.tagClass !== '')
         {
-            const el = parentTag.getter();
-            console.info(`refreshed element and children for: ${el.id}`);
-            el.innerHTML += preview;
-            parentTag.children.push(getter);
-            for (let childGetter of parentTag.children)
-            { 
-                childGetter(); // Re-initialize old tags
-            }
+            element.className = this.tagClass;
         }
-        else
+        element.innerHTML = this.tagContent;
+
+        if (!append)
         {
-            parentTag.getter().innerHTML = preview;
+            parent.innerHTML = '';
+            parentTag.children.length = 0;
         }
+        parent.appendChild(element);
+        parentTag.children.push(getter);
 
         // Run once to initialize element properties
         getter();
diff --git a/ngineer_js/target/tagbuilder.js b/ngineer_js/target/tagbuilder.js
index 8b1b48a..497f523 100644
--- a/ngineer_js/target/tagbuilder.js
+++ b/ngineer_js/target/tagbuilder.js
@@ -23,9 +23,7 @@ var TagBuilder = (function () {
     function TagBuilder(tagType) {
         this.tagType = tagType;
         this.tagClass = '';
-        this.tagClassText = '';
         this.tagId = '';
-        this.tagIdText = '';
         this.tagContent = '';
         this.tagCallbacks = {
             onclick: null,
@@ -38,12 +36,10 @@ var TagBuilder = (function () {
     }
     TagBuilder.prototype.setTagClass = function (tagClass) {
         this.tagClass = tagClass;
-        this.tagClassText = "class='".concat(tagClass, "'");
         return this;
     };
     TagBuilder.prototype.setTagId = function (id) {
         this.tagId = id;
-        this.tagIdText = "id='".concat(id, "'");
         return this;
     };
     TagBuilder.prototype.setTagContent = function (content) {
@@ -57,7 +53,6 @@ var TagBuilder = (function () {
     TagBuilder.prototype.buildInto = function (parentTag, append) {
         var _this = this;
         var children = [];
-        var preview = "<".concat(this.tagType, " ").concat(this.tagIdText).concat(this.tagClassText, ">").concat(this.tagContent, "</").concat(this.tagType, ">");
         var getter = function () {
             var maybeElem = document.getElementById(_this.tagId);
             if (maybeElem === null) {
@@ -73,20 +68,20 @@ var TagBuilder = (function () {
             }
             return maybeElem;
         };
+        var parent = parentTag.getter();
         UNIQUE_ELEMENT_IDS.add(this.tagId);
-        if (append) {
-            var el = parentTag.getter();
-            console.info("refreshed element and children for: ".concat(el.id));
-            el.innerHTML += preview;
-            parentTag.children.push(getter);
-            for (var _i = 0, _a = parentTag.children; _i < _a.length; _i++) {
-                var childGetter = _a[_i];
-                childGetter();
-            }
+        var element = document.createElement(this.tagType);
+        element.id = this.tagId;
+        if (this.tagClass !== '') {
+            element.className = this.tagClass;
         }
-        else {
-            parentTag.getter().innerHTML = preview;
+        element.innerHTML = this.tagContent;
+        if (!append) {
+            parent.innerHTML = '';
+            parentTag.children.length = 0;
         }
+        parent.appendChild(element);
+        parentTag.children.push(getter);
         getter();
         return { getter: getter, children: children };
     };
-- 
2.43.0


From e64524333d53f2517e8d2dd712b4504dec73cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 76/80] fix: keep the content and the callbacks of both side
 panels, also when the heading of the shown one is clicked

---
 ngineer_js/src/panelManager.ts    | 30 +++++++++++++++++++-----------
 ngineer_js/target/panelManager.js | 25 +++++++++++++++----------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/ngineer_js/src/panelManager.ts b/ngineer_js/src/panelManager.ts
index 6ae7290..4a4bd21 100644
--- a/ngineer_js/src/panelManager.ts
+++ b/ngineer_js/src/panelManager.ts
@@ -5,16 +5,21 @@ export const SCREEN_PANEL_MANAGER: string[] = [];
 
 export const LEFT_PANEL_MANAGER = 
 {
-    filesTabState: '', // This is the default tab. It's text is determined by the hard-coded html value.
-    modelTabState: 'view a file to see modelling tools',
+    modelTabShown: false,
+
+    // The nodes of the tab that is not shown, which keep their callbacks while they are off the page.
+    filesTabState: [] as Node[], // This is the default tab. It's text is determined by the hard-coded html value.
+    modelTabState: [document.createTextNode('view a file to see modelling tools')] as Node[],
 
     focusModelTab(): void
     {
-        let lr = LEFT_RIBBON.getter();
-        
-        LEFT_PANEL_MANAGER.filesTabState = lr.innerHTML;
-        lr.innerHTML = LEFT_PANEL_MANAGER.modelTabState;
-        LEFT_RIBBON.getter();
+        if (!LEFT_PANEL_MANAGER.modelTabShown)
+        {
+            let lr = LEFT_RIBBON.getter();
+            LEFT_PANEL_MANAGER.filesTabState = Array.from(lr.childNodes);
+            lr.replaceChildren(...LEFT_PANEL_MANAGER.modelTabState);
+            LEFT_PANEL_MANAGER.modelTabShown = true;
+        }
 
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
@@ -24,10 +29,13 @@ export const LEFT_PANEL_MANAGER =
 
     focusFilesTab(): void
     {
-        let lr = LEFT_RIBBON.getter();
-        LEFT_PANEL_MANAGER.modelTabState = lr.innerHTML;
-        lr.innerHTML = LEFT_PANEL_MANAGER.filesTabState;
-        LEFT_RIBBON.getter();
+        if (LEFT_PANEL_MANAGER.modelTabShown)
+        {
+            let lr = LEFT_RIBBON.getter();
+            LEFT_PANEL_MANAGER.modelTabState = Array.from(lr.childNodes);
+            lr.replaceChildren(...LEFT_PANEL_MANAGER.filesTabState);
+            LEFT_PANEL_MANAGER.modelTabShown = false;
+        }
 
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
diff --git a/ngineer_js/target/panelManager.js b/ngineer_js/target/panelManager.js
index e4d265f..437cf2b 100644
--- a/ngineer_js/target/panelManager.js
+++ b/ngineer_js/target/panelManager.js
@@ -2,22 +2,27 @@ import { CommonBGColors, FILES_TAB, LEFT_RIBBON, MODEL_TAB } from "./common.js";
 import { DebugRibbon } from "./debugRibbon.js";
 export var SCREEN_PANEL_MANAGER = [];
 export var LEFT_PANEL_MANAGER = {
-    filesTabState: '',
-    modelTabState: 'view a file to see modelling tools',
+    modelTabShown: false,
+    filesTabState: [],
+    modelTabState: [document.createTextNode('view a file to see modelling tools')],
     focusModelTab: function () {
-        var lr = LEFT_RIBBON.getter();
-        LEFT_PANEL_MANAGER.filesTabState = lr.innerHTML;
-        lr.innerHTML = LEFT_PANEL_MANAGER.modelTabState;
-        LEFT_RIBBON.getter();
+        if (!LEFT_PANEL_MANAGER.modelTabShown) {
+            var lr = LEFT_RIBBON.getter();
+            LEFT_PANEL_MANAGER.filesTabState = Array.from(lr.childNodes);
+            lr.replaceChildren.apply(lr, LEFT_PANEL_MANAGER.modelTabState);
+            LEFT_PANEL_MANAGER.modelTabShown = true;
+        }
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
         DebugRibbon.print("now showing modelling tab.");
     },
     focusFilesTab: function () {
-        var lr = LEFT_RIBBON.getter();
-        LEFT_PANEL_MANAGER.modelTabState = lr.innerHTML;
-        lr.innerHTML = LEFT_PANEL_MANAGER.filesTabState;
-        LEFT_RIBBON.getter();
+        if (LEFT_PANEL_MANAGER.modelTabShown) {
+            var lr = LEFT_RIBBON.getter();
+            LEFT_PANEL_MANAGER.modelTabState = Array.from(lr.childNodes);
+            lr.replaceChildren.apply(lr, LEFT_PANEL_MANAGER.filesTabState);
+            LEFT_PANEL_MANAGER.modelTabShown = false;
+        }
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
         DebugRibbon.print("now showing the filetree tab.");
-- 
2.43.0


From 75efefbe900dfe2dc3921790a7d97b7ee81e4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 77/80] fix: close the tab whose button was clicked, and show
 file names as they are

---
 ngineer_js/src/leftRibbonMenu.ts    | 29 ++++++++++++++++++++---------
 ngineer_js/target/leftRibbonMenu.js | 22 ++++++++++++++--------
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/ngineer_js/src/leftRibbonMenu.ts b/ngineer_js/src/leftRibbonMenu.ts
index d1b110c..3c9353c 100644
--- a/ngineer_js/src/leftRibbonMenu.ts
+++ b/ngineer_js/src/leftRibbonMenu.ts
@@ -1,6 +1,18 @@
 import { dropTagFromApplication, DynTag, generateUniqueElementId, TagBuilder, TagGetter } from './tagbuilder.js'
 import { CommonTagClasses, LEFT_RIBBON, PROJ_TABS_BAR, TOP_BAR } from './common.js'
 
+/**
+ * @param text the text to be shown as it is
+ * @returns the HTML for `text`
+ */
+function escapeHtml(text: string): string
+{
+    return text
+        .replace(/&/g, '&amp;')
+        .replace(/</g, '&lt;')
+        .replace(/>/g, '&gt;');
+}
+
 export function createLeftRibbonMenuFileItem(filename: string): DynTag
 {
     const uniqueId = generateUniqueElementId();
@@ -8,7 +20,7 @@ export function createLeftRibbonMenuFileItem(filename: string): DynTag
     return new TagBuilder('div')
         .setTagId(uniqueId)
         .setTagClass(CommonTagClasses.LeftRibbonMenuFileItem)
-        .setTagContent(filename)
+        .setTagContent(escapeHtml(filename))
         .setTagCallback('onclick', onclickHandler)
         .buildInto(LEFT_RIBBON, true);
 }
@@ -18,14 +30,13 @@ export function generateFocusCallback(filename: string, elementId?: string): (e:
 {
     const onclickFocusHandler = () => console.log(`clicked the ${filename} tab!`);
 
-    const newChildIndex = PROJ_TABS_BAR.children.length;
-
     const onclickCloseHandler = () => {
-        const ptb = PROJ_TABS_BAR.getter();
-        const tagToRemove = ptb.children[newChildIndex];
-        console.log('chugya');
-        ptb.removeChild(tagToRemove);
-        dropTagFromApplication(tagToRemove.id);
+        const tagToRemove = document.getElementById(filename + '-tab');
+        tagToRemove.remove();
+        for (let suffix of ['-tab', '-filename-tag', '-close-button'])
+        {
+            dropTagFromApplication(filename + suffix);
+        }
     }
 
     return (event: Event) => {
@@ -42,7 +53,7 @@ export function generateFocusCallback(filename: string, elementId?: string): (e:
             const _filenameTag = new TagBuilder('span')
                 .setTagId(filename+ '-filename-tag')
                 .setTagClass(CommonTagClasses.FilenameTag)
-                .setTagContent(filename)
+                .setTagContent(escapeHtml(filename))
                 .buildInto(tab, false);
             const _closeButton = new TagBuilder('span')
                 .setTagId(filename + '-close-button')
diff --git a/ngineer_js/target/leftRibbonMenu.js b/ngineer_js/target/leftRibbonMenu.js
index 80197e0..f1371f5 100644
--- a/ngineer_js/target/leftRibbonMenu.js
+++ b/ngineer_js/target/leftRibbonMenu.js
@@ -1,24 +1,30 @@
 import { dropTagFromApplication, generateUniqueElementId, TagBuilder } from './tagbuilder.js';
 import { CommonTagClasses, LEFT_RIBBON, PROJ_TABS_BAR } from './common.js';
+function escapeHtml(text) {
+    return text
+        .replace(/&/g, '&amp;')
+        .replace(/</g, '&lt;')
+        .replace(/>/g, '&gt;');
+}
 export function createLeftRibbonMenuFileItem(filename) {
     var uniqueId = generateUniqueElementId();
     var onclickHandler = generateFocusCallback(filename, uniqueId);
     return new TagBuilder('div')
         .setTagId(uniqueId)
         .setTagClass(CommonTagClasses.LeftRibbonMenuFileItem)
-        .setTagContent(filename)
+        .setTagContent(escapeHtml(filename))
         .setTagCallback('onclick', onclickHandler)
         .buildInto(LEFT_RIBBON, true);
 }
 export function generateFocusCallback(filename, elementId) {
     var onclickFocusHandler = function () { return console.log("clicked the ".concat(filename, " tab!")); };
-    var newChildIndex = PROJ_TABS_BAR.children.length;
     var onclickCloseHandler = function () {
-        var ptb = PROJ_TABS_BAR.getter();
-        var tagToRemove = ptb.children[newChildIndex];
-        console.log('chugya');
-        ptb.removeChild(tagToRemove);
-        dropTagFromApplication(tagToRemove.id);
+        var tagToRemove = document.getElementById(filename + '-tab');
+        tagToRemove.remove();
+        for (var _i = 0, _a = ['-tab', '-filename-tag', '-close-button']; _i < _a.length; _i++) {
+            var suffix = _a[_i];
+            dropTagFromApplication(filename + suffix);
+        }
     };
     return function (event) {
         var tabElement = document.getElementById(filename + '-tab');
@@ -31,7 +37,7 @@ export function generateFocusCallback(filename, elementId) {
             var _filenameTag = new TagBuilder('span')
                 .setTagId(filename + '-filename-tag')
                 .setTagClass(CommonTagClasses.FilenameTag)
-                .setTagContent(filename)
+                .setTagContent(escapeHtml(filename))
                 .buildInto(tab, false);
             var _closeButton = new TagBuilder('span')
                 .setTagId(filename + '-close-button')
-- 
2.43.0


From f6650f921233d2a76fe971890bc127679e8dd27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:30 +0000
Subject: [PATCH 78/80] fix: refuse names in conditional blocks that are
 separated by any white space

---
 nexsys/src/parsing/conditionals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index cf4e562..f368326 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -72,7 +72,7 @@ r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:[ \t\r]*$
 ^.*$
 ^[ \t]*end\b"#
         );
-        static ref ADJACENT: Regex = nexsys_regex(r"(?i)[a-z0-9_.][ \t]+[a-z0-9_.]");
+        static ref ADJACENT: Regex = nexsys_regex(r"(?i)[a-z0-9_.]\s+[a-z0-9_.]");
         static ref UNMATCHED: Regex = nexsys_regex(r"(?im)^[ \t]*(if [^\n]*(:|[<>]|[!=]=)[^\n]*|(else|end)[ \t]*(if)?[ \t]*:?)[ \t\r]*$");
     }
     let mut output = text.to_string();
-- 
2.43.0


From af4bb432510933ffa8f708d0f05054b8cf1c58c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 79/80] fix: report declarations with other white space or
 signs than expected instead of ignoring them

---
 nexsys/src/parsing/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index e6d1d19..59be1c4 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -218,7 +218,7 @@ pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<Stri
     // Anything that still looks like a declaration could not be understood
     lazy_static!
     {
-        static ref DECLARATION: Regex = nexsys_regex(r"(?im)^\s*(keep|guess|const) +[a-z0-9.-]");
+        static ref DECLARATION: Regex = nexsys_regex(r"(?im)^\s*(keep|guess|const)( +[a-z0-9.-]|\b[^=\n]*$)");
     }
     if DECLARATION.is_match(&nil)
     {
-- 
2.43.0


From d3dfff428107a366d73195f2c1290b5392242833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:46 +0000
Subject: [PATCH 80/80] fix: keep constants and conversion factors apart from
 numbers and names beside them

---
 nexsys/src/parsing/mod.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 59be1c4..b57d243 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -73,6 +73,22 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
     res
 }
 
+/// Appends the `value` that stands in front of `rest`, keeping it apart from any numbers and names beside it.
+/// Otherwise they would become a single number or name.
+fn push_value(output: &mut String, value: &str, rest: &str)
+{
+    let sticks = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.';
+    if output.ends_with(sticks)
+    {
+        output.push(' ');
+    }
+    *output += value;
+    if rest.starts_with(sticks)
+    {
+        output.push(' ');
+    }
+}
+
 /// Identifies and removes comments found in a Nexsys-legal string.
 pub fn comments(text: &str) -> String 
 {
@@ -90,20 +106,20 @@ pub fn conversions(text: &str) -> anyhow::Result<String> {
         static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
     }
 
-    let mut output = text.to_string();
-
-    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
+    let mut output = String::new();
+    let mut end = 0;
 
-    for m in res 
+    for m in RE.find_iter(text)
     {
-        let pre = m.replace(['[', ']'], "");
+        let pre = m.as_str().replace(['[', ']'], "");
         
         let args: Vec<&str> = pre.split("->").collect();
         
-        output = output.replace(m, 
-            &format!("{}", convert(args[0], args[1])? )
-        );
+        output += &text[end..m.start()];
+        push_value(&mut output, &convert(args[0], args[1])?.to_string(), &text[m.end()..]);
+        end = m.end();
     }
+    output += &text[end..];
 
     Ok(output)
 }
@@ -125,7 +141,7 @@ pub fn consts(text: &str) -> anyhow::Result<String>
         if let Some(c) = CONSTS.get(m.as_str()) 
         {
             output += &text[end..m.start()];
-            output += &(if *c < 0.0 { format!("({c})") } else { c.to_string() });
+            push_value(&mut output, &(if *c < 0.0 { format!("({c})") } else { c.to_string() }), &text[m.end()..]);
             end = m.end();
         } 
         else 
-- 
2.43.0

