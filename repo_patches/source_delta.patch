From 21ec2e8134d9b934fcd10146146be5144c0c7e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 01/30] fix: a function call ends at its closing parenthesis

'sin(0) + 1' was evaluated as sin(0 + 1): the function stayed on the operator
stack until the end of the expression.
---
 geqslib/src/shunting.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index ddcb1c5..92121f0 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -174,6 +174,13 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                         return Err(ShuntingYardError::UnclosedParenthesis.into())
                     }
                 }
+
+                // a function applies to the parenthesized arguments that were just closed and nothing after them
+                if let Some(Token::Func(args, func)) = stack.last().and_then(|op| context.get(*op))
+                {
+                    queue.push(Token::Func(*args, *func));
+                    stack.pop();
+                }
                 unary_minus = false;
             },
 
-- 
2.43.0


From 6d94260ac571f7de89ed8b2574fa0829733355ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 02/30] fix: accept a root only if the Newton step is small and
 the residual norm is within the margin

The step of the one-dimensional finder was compared without its sign, the
multivariate finder compared the square of the residual norm, both accepted
points at which the slope was infinite, and a system without unknowns panicked.
---
 geqslib/src/newton.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 195bbae..be1a852 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -48,7 +48,7 @@ where anyhow::Error: From<E>
     let delta = y / y_prime;
 
     // Check if we are sufficiently close to the solution:
-    if y.abs() <= margin && delta <= margin // ...in both the y AND x directions...
+    if y.abs() <= margin && delta.abs() <= margin && y_prime.is_finite() // ...in both the y AND x directions...
     {
         return Ok(guess); // ...if so, exit early
     }
@@ -123,6 +123,12 @@ where
         return Err(NewtonRaphsonSolverError::ImproperlyConstrainedSystem.into());
     }
 
+    // A system without unknowns is already solved
+    if n == 0
+    {
+        return Ok(guess);
+    }
+
     // Build jacobian w/ F(X) values... we will mutate them to F'(X) later
     let mut elements = vec![];
     for func in &f 
@@ -155,6 +161,9 @@ where
         } 
     }
 
+    // An infinite or undefined slope says nothing about how far away the root is
+    let is_finite = jacobian.iter().all(|slope| slope.is_finite());
+
     jacobian.try_inplace_invert()?;
 
     // Calculate current error
@@ -165,7 +174,8 @@ where
     }
     let error = y.iter()
         .map(|v| v.powi(2))
-        .sum::<f64>();
+        .sum::<f64>()
+        .sqrt();
 
     // Calculate change vector and its magnitude
     let deltas = jacobian * Matrix::from_col_vec(y);
@@ -174,7 +184,7 @@ where
         .sum::<f64>()
         .sqrt();
 
-    if error <= margin && change <= margin
+    if error <= margin && change <= margin && is_finite
     {
         return Ok(guess);
     }
-- 
2.43.0


From 5135f4afabc59ffc102e32a28b3bcb108a7e6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 03/30] fix: inplace_row_swap swaps rows instead of columns

---
 gmatlib/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 455146a..bf129a9 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -252,9 +252,9 @@ where T: Element<T>
         let mut storage: T;
         for i in 0..self.cols
         {
-            storage       = self[(i, r1)];
-            self[(i, r1)] = self[(i, r2)];
-            self[(i, r2)] = storage;
+            storage       = self[(r1, i)];
+            self[(r1, i)] = self[(r2, i)];
+            self[(r2, i)] = storage;
         } 
     }
 
-- 
2.43.0


From a91aa9789ffc62e1f65e1c51ba20fec5783e06d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 04/30] fix: writing to a matrix element outside the matrix is
 rejected

An out-of-range column silently wrote to an element of a following row.
---
 gmatlib/src/trait_impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmatlib/src/trait_impls.rs b/gmatlib/src/trait_impls.rs
index d5999b4..9f11a11 100644
--- a/gmatlib/src/trait_impls.rs
+++ b/gmatlib/src/trait_impls.rs
@@ -805,6 +805,10 @@ where T: Element<T>
     #[inline]
     fn index_mut(&mut self, index: (usize, usize)) -> &mut T 
     {
+        if index.0 >= self.rows || index.1 >= self.cols 
+        {
+            panic!("index out of bounds: the matrix has {} rows and {} cols but the index was [({}, {})]", self.rows, self.cols, index.0, index.1)
+        }
         &mut (self.vals[index.0 * self.cols + index.1])
     }
 }
-- 
2.43.0


From 863e1ffd279dd792f47944a571ef931d87912e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 05/30] fix: invert matrices of five or more rows with row
 pivoting

Without pivoting, regular matrices with a zero on the diagonal were reported
singular and small diagonal elements destroyed the accuracy of the inverse.
---
 gmatlib/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index bf129a9..fbe8ecd 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -17,7 +17,7 @@ use error::*;
 use num_traits::Num;
 
 /// A helper trait to constrain the type of the elements of a `Matrix<T>`.
-pub trait Element<T>: Num + Copy + Debug + Display + AddAssign + MulAssign + SubAssign + Neg<Output = T> {}
+pub trait Element<T>: Num + Copy + Debug + Display + AddAssign + MulAssign + SubAssign + Neg<Output = T> + PartialOrd {}
 
 impl Element<f32> for f32 {}
 impl Element<f64> for f64 {}
@@ -686,6 +686,19 @@ where T: Element<T>
 
         for j in 0..n
         {
+            // Use the remaining row with the largest element in this column as the pivot row
+            let magnitude = |x: T| if x < T::zero() { -x } else { x };
+            let mut pivot = j;
+            for i in j+1..n
+            {
+                if magnitude(self[(i, j)]) > magnitude(self[(pivot, j)])
+                {
+                    pivot = i;
+                }
+            }
+            self.inplace_row_swap(j, pivot);
+            inv.inplace_row_swap(j, pivot);
+
             for i in 0..n
             {
                 if i == j
-- 
2.43.0


From fd0d1c99ca6085df46214d66db89dec5ecd98846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 06/30] fix: a failing matrix call no longer frees the caller's
 matrix

---
 gmatlib/src/ffi.rs | 67 ++++++++++++++--------------------------------
 1 file changed, 20 insertions(+), 47 deletions(-)

diff --git a/gmatlib/src/ffi.rs b/gmatlib/src/ffi.rs
index 16ed4e1..25a2bb0 100644
--- a/gmatlib/src/ffi.rs
+++ b/gmatlib/src/ffi.rs
@@ -1,5 +1,4 @@
 use std::ffi::{c_double, c_uint, c_void};
-use std::mem;
 use std::panic::catch_unwind;
 use std::ptr::null_mut;
 use crate::{Matrix, MatrixInversionError};
@@ -39,10 +38,8 @@ pub extern "C" fn new_double_identity_matrix(n: c_uint) -> *mut c_void
 pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_swap(r1 as usize, r2 as usize);
-        
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -56,10 +53,8 @@ pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) ->
 pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_scale(row as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -73,10 +68,8 @@ pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_dou
 pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scale(scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -90,10 +83,8 @@ pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_add(r1 as usize, r2 as usize);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -107,10 +98,8 @@ pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c
 pub extern "C" fn inplace_scaled_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scaled_row_add(r1 as usize, r2 as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -126,19 +115,16 @@ pub extern "C" fn multiply_matrix(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mu
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *const Matrix<c_double>),
+            &*(ptr_b as *const Matrix<c_double>),
         )};
     
-        let ab = match a.multiply_matrix(&b) 
+        let ab = match a.multiply_matrix(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
 
@@ -155,19 +141,16 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *const Matrix<c_double>),
+            &*(ptr_b as *const Matrix<c_double>),
         )};
     
-        let ab = match a.augment_with(&b) 
+        let ab = match a.augment_with(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
     
@@ -182,9 +165,8 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
 pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c2: c_uint) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let b = Box::new(a.subset(r1 as usize, c1 as usize, r2 as usize, c2 as usize));
-        mem::forget(a); // Prevent drop that would deallocate matrix data.
         Box::into_raw(b) as *mut c_void
     });
 
@@ -199,15 +181,13 @@ pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c
 pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let trace = match a.trace()
         {
             Ok(t) => t,
             Err(_) => c_double::NAN
         };
 
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
-
         trace
     });
 
@@ -222,9 +202,8 @@ pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let b = Box::new(a.transpose());
-        mem::forget(a);
 
         Box::into_raw(b) as *mut c_void
     });
@@ -240,7 +219,7 @@ pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         let status = match a.try_inplace_invert()
         {
             Ok(_)  => c_uint::MAX,
@@ -255,8 +234,6 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
                 }
             }
         };
-    
-        mem::forget(a);
         status
     });
     
@@ -267,10 +244,8 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint, value: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a[(i as usize, j as usize)] = value;
-
-        mem::forget(a);
     });
 
     match res
@@ -284,9 +259,8 @@ pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint
 pub extern "C" fn index_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let value = a[(i as usize, j as usize)];
-        mem::forget(a);
         value
     });
 
@@ -305,11 +279,10 @@ pub extern "C" fn clone_double_matrix(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
         // Get the actual matrix instance
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
 
-        // Use clone to allocate a new instance and mem::forget it AND the old instance
-        let b = a.clone();
-        mem::forget(a);
+        // Use clone to allocate a new instance
+        let b = Box::new(a.clone());
     
         Box::into_raw(b) as *mut c_void
     });
-- 
2.43.0


From 8a379478273d16caac6ffc6d85f819af095ff4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 07/30] fix: a variable solved from one equation is a known
 value for the remaining system

---
 nexsys/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index dfcd9a8..5c53f9d 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -38,7 +38,7 @@ fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHas
         }
 
         let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
-        ctx.add_var_with_domain_to_ctx(&soln.0, soln.1, var_info[1], var_info[2]);
+        ctx.add_const_to_ctx(&soln.0, soln.1); // a solved variable is known from here on
         *log_step = format!(
             "Var: {:#?} \nEquation: {}", 
             soln.0, equation
-- 
2.43.0


From 96640ec7e817c6236533a480f737192308a11b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 08/30] fix: rejected equations leave a SystemBuilder unchanged
 and systems solve with every variable known

---
 geqslib/src/system.rs | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 1e41440..7327f4c 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -30,7 +30,7 @@ pub struct SystemBuilder
 {
     context: ContextHashMap,
     system_vars: Vec<String>,
-    system_equations: Vec<BoxedFnOfHashMapToResultF64>,
+    system_equations: Vec<String>,
 }
 impl SystemBuilder
 {
@@ -52,13 +52,14 @@ impl SystemBuilder
             .map(|x| x.to_owned())
             .collect();
 
-        let starting_eqn = Box::new(compile_equation_to_fn_of_hashmap(equation, &mut ctx)?);
+        // Ensure that the equation compiles and add its unknowns to the context
+        let _compiled = compile_equation_to_fn_of_hashmap(equation, &mut ctx)?;
 
         Ok(SystemBuilder
         {
             context: ctx,
             system_vars,
-            system_equations: vec![starting_eqn],
+            system_equations: vec![equation.to_owned()],
         })
     }
 
@@ -136,9 +137,11 @@ impl SystemBuilder
         }        
 
         // Add the equation to the system, updating the context with any newly-added variables
-        self.system_equations.push(
-            Box::new(compile_equation_to_fn_of_hashmap(equation, &mut self.context)?) 
-        );
+        // (an equation that fails to compile must not leave its variables behind)
+        let mut context = self.context.clone();
+        let _compiled = compile_equation_to_fn_of_hashmap(equation, &mut context)?;
+        self.context = context;
+        self.system_equations.push(equation.to_owned());
 
         // Add possible newly-found variable to the system
         if let Some(new_var) = unknowns.pop()
@@ -227,14 +230,23 @@ impl SystemBuilder
 
     /// Consumes `self` in order to produce a `System` object, representing 
     /// a constrained system of equations.
-    pub fn build_system(self) -> Option<System>
+    pub fn build_system(mut self) -> Option<System>
     {
         if self.is_fully_constrained()
         {
+            // Compile the equations now that every variable in the system is known
+            let mut system_equations: Vec<BoxedFnOfHashMapToResultF64> = vec![];
+            for equation in &self.system_equations
+            {
+                system_equations.push(
+                    Box::new(compile_equation_to_fn_of_hashmap(equation, &mut self.context).ok()?)
+                );
+            }
+
             return Some(System {
                 context: self.context,
                 system_vars: self.system_vars,
-                system_equations: self.system_equations,
+                system_equations,
             });
         }
         
@@ -337,9 +349,9 @@ impl System
     pub fn solve(self, margin: f64, limit: usize) -> anyhow::Result<HashMap<String, f64>>
     {
         let mut guess = HashMap::new();
-        for (key, var) in self.context
+        for key in self.system_vars
         {
-            match var
+            match &self.context[&key]
             {
                 Token::Var(x) => guess.insert(key, (*x.borrow()).into()),
                 _ => continue,
@@ -353,6 +365,16 @@ impl System
             limit
         )?;
 
+        // The residuals were evaluated with each variable held inside of its domain
+        for (key, value) in res.iter_mut()
+        {
+            if let Token::Var(x) = &self.context[key]
+            {
+                x.borrow_mut().set(*value);
+                *value = (*x.borrow()).into();
+            }
+        }
+
         Ok(res.clone())
     }
 }
-- 
2.43.0


From 034cf57257f28073117acac10fd362f7991b0361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 09/30] fix: equation solving starts at the given guess,
 answers inside the domain, and leaves no trace of a failed unknown

---
 geqslib/src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 5e58539..16f3868 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -22,6 +22,7 @@ use errors::EquationSolverError;
 use newton::newton_raphson;
 use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
 use system::get_equation_unknowns;
+use variable::Variable;
 
 /// An internal function for formatting a single-unknown equation to an expression prior to tokenization 
 pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -> anyhow::Result<impl Fn(f64) -> anyhow::Result<f64>>
@@ -100,9 +101,23 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     }
     
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
-    let f = compile_equation_to_fn(equation, ctx)?;
+    let soln = compile_equation_to_fn(equation, ctx)
+        .and_then(|f| newton_raphson(f, guess, margin, limit));
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, 1.0, margin, limit)?))
+    match soln
+    {
+        Ok(root) => {
+            // The equation was evaluated with the unknown held inside of its domain
+            let mut var = Variable::new(guess, min, max);
+            var.set(root);
+            Ok((unknowns[0].to_owned(), var.into()))
+        },
+        Err(e) => {
+            // An unknown that was not found remains unknown
+            ctx.remove(unknowns[0]);
+            Err(e)
+        }
+    }
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From 3d27c88301cce1a97353942e7b44c4f1d65fb3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 10/30] fix: solve_equation works on its own copy of the
 context and specify_variable reports unknown variables

---
 geqslib/src/ffi.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index 40e3d88..cfa4067 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -1,6 +1,6 @@
 use std::ffi::{c_char, c_int, c_void, c_double, c_uint, CStr, CString};
 use std::panic::catch_unwind;
-use std::ptr::{null, copy_nonoverlapping};
+use std::ptr::null;
 
 use crate::shunting::{ContextHashMap, new_context, ContextLike};
 use crate::solve_equation_with_context;
@@ -57,8 +57,7 @@ pub extern "C" fn solve_equation(equation: *const c_char, context: *const c_void
     let res = catch_unwind(|| {
         let equation_str = unsafe { new_owned_string(equation) };
 
-        let mut ctx = ContextHashMap::new();
-        unsafe { copy_nonoverlapping(context as *const ContextHashMap, &mut ctx, 1) };
+        let mut ctx = unsafe { (*(context as *const ContextHashMap)).clone() };
 
         let (var, val) = match solve_equation_with_context(&equation_str, &mut ctx, guess, min, max, margin, limit as usize)
         {
@@ -193,14 +192,14 @@ pub extern "C" fn specify_variable(p_system: *mut c_void, var: *const c_char, gu
         unsafe
         {    
             let var_str = new_owned_string(var);
-            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max);
+            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max)
         }
     });
 
     match res
     {
-        Ok(_) => 1,
-        Err(_) => -1,
+        Ok(true) => 1,
+        _ => -1,
     }
 }
 
-- 
2.43.0


From 1c8081a7f5c57375d8044eb6d0e9121965021ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 11/30] fix: cubic length units are cubes

---
 nexsys/src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index ddbc04e..b09636b 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -61,7 +61,7 @@ fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> Hash
     let mut temp = HashMap::new();
     
     for i in &data[&"LENGTH".to_string()] {
-        temp.insert( format!("{}^3", i.0), *i.1 * *i.1);    
+        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
     }
 
     if let Some(d) = data.get_mut("VOLUME") {
-- 
2.43.0


From 29283f98c0c3b4f0168a435bcfd71bb889791757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 12/30] fix: solve_with_preprocessors separates the values in
 its solution string

---
 nexsys/src/ffi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/ffi.rs b/nexsys/src/ffi.rs
index f34680f..ad30eae 100644
--- a/nexsys/src/ffi.rs
+++ b/nexsys/src/ffi.rs
@@ -96,7 +96,7 @@ pub unsafe extern "C" fn solve_with_preprocessors(system: *const c_char, margin:
                 let steps_str = log.join("\n");
                 let soln_str = soln.iter()
                     .fold(String::new(), |mut acc, (x, y)| {
-                        acc.push_str(&format!("{} {:#?}", x, y));
+                        acc.push_str(&format!("{}: {:#?}, ", x, y));
                         acc
                     });
                 CString::new(format!("{{ log: {:#?}, \nsoln: {:#?} }}", steps_str, soln_str))
-- 
2.43.0


From 59e175ef5a18a8f42fbdcd5e757dbe48d6795d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 13/30] fix: look through the equation pool again after a
 subsystem grows

---
 nexsys/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index 5c53f9d..82e1835 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -56,7 +56,8 @@ fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut Contex
         let mut builder = SystemBuilder::new(equation, ctx.clone())?;
         let mut eqn_strings = vec![equation.to_owned()];
 
-        for (j, equation) in eqn_pool.iter().enumerate()
+        // An equation that does not help yet may do so once others are added, so go around the pool repeatedly
+        for (j, equation) in eqn_pool.iter().enumerate().cycle().take(eqn_pool.len().pow(2))
         {
             // Skip the current equation we're building a system with 
             // OR an equation that we've already added to the system
-- 
2.43.0


From 61ec02ad67a42d9e4aed1f0b0e0a66a3bc707ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 14/30] fix: comments and signed numbers in declarations are
 parsed whole

---
 nexsys/src/parsing/mod.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index a8087d9..9848336 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -36,7 +36,7 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
         res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
         res.1.insert(
             g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
+            g.get(1).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse number in guess declaration")
         );
     }
@@ -58,9 +58,9 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
         res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
         res.1.insert(
             d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
+            [d.get(2).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
+            d.get(3).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse second number in domain declaration")]
         );
     }
@@ -74,14 +74,7 @@ pub fn comments(text: &str) -> String
     {
         static ref RE: Regex = nexsys_regex(r"//[^\n]*");
     }
-    let mut output = text.to_string();
-
-    for f in RE.find_iter(text).map(|i| i.as_str()) 
-    {
-        output = output.replace(f, "");
-    }
-
-    output
+    RE.replace_all(text, "").to_string()
 }
 
 /// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
-- 
2.43.0


From 523b03635d344ffc9ef31a04dc30cc02b5df5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 15/30] fix: a built-in constant is replaced by its whole name

---
 nexsys/src/parsing/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 9848336..d1c8a21 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -107,23 +107,27 @@ pub fn consts(text: &str) -> anyhow::Result<String>
 {
     lazy_static! 
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_][a-z0-9_]*");
         static ref CONSTS: HashMap<String, f64> = const_data();
     }
 
-    let mut output = text.to_string();
+    let mut output = String::new();
+    let mut end = 0;
 
-    for m in RE.find_iter(text).map(|i| i.as_str()) 
+    for m in RE.find_iter(text)
     {
-        if let Some(c) = CONSTS.get(&m.to_string()) 
+        if let Some(c) = CONSTS.get(m.as_str()) 
         {
-            output = output.replace(m, &c.to_string());
+            output += &text[end..m.start()];
+            output += &c.to_string();
+            end = m.end();
         } 
         else 
         {
             return Err(ConstFormatError.into())
         }
     }
+    output += &text[end..];
     Ok(output)
 }
 
-- 
2.43.0


From e335728c2c26f1fdd61e0746311d0bb0e59a54d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 16/30] fix: conditionals survive names containing keywords and
 blanks after a colon

---
 nexsys/src/parsing/conditionals.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 95fd7ba..4622151 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -13,11 +13,20 @@ macro_rules! contains_any {
 /// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
 pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 
-    let mut args = cndl.replace("if ",  "if(")  // make start of function call
-    .replace([' ', '\n'], "")   // strip whitespace
-    .replace(':',   ",")        // delimit arguments
-    .replace("else", "")        // (ditto)
-    .replace("end", ")");       // close function call
+    // Keywords only count on their own lines since names may contain them
+    let mut args = cndl.split('\n')
+    .map(|row| match row.trim()
+    {
+        "else:" => ",".to_owned(),  // delimit arguments
+        "end"   => ")".to_owned(),  // close function call
+        row => match row.strip_prefix("if ")
+        {
+            Some(predicate) => format!("if({}", predicate.replace(':', ",")), // make start of function call
+            None => row.to_owned(),
+        }
+    })
+    .collect::<String>()
+    .replace(' ', "");  // strip whitespace
 
     //if(a<b,a-b=1,b-a=1)
     // println!("SUBBED TOKENS: {}", args);
@@ -60,9 +69,9 @@ pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 pub fn conditionals(text: &str) -> anyhow::Result<String> {
     lazy_static!{
         static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
+r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:[ \t]*$
 ^.*$
-^[ \t]*else:$
+^[ \t]*else:[ \t]*$
 ^.*$
 ^[ \t]*end"#
         );
-- 
2.43.0


From a800f8c992588bc205ce13e072102489d9c1630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 17/30] fix: sources driving their input node subtract their
 potential and carry the flux leaving it

---
 neapolitan/src/dc_circuits.rs   | 2 +-
 neapolitan/src/flux_formulas.rs | 6 +++++-
 neapolitan/src/heat_transfer.rs | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index 25c65a5..d31ad85 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -54,7 +54,7 @@ pub fn voltage_source(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![voltage[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
diff --git a/neapolitan/src/flux_formulas.rs b/neapolitan/src/flux_formulas.rs
index 3ac3fe8..0c2437b 100644
--- a/neapolitan/src/flux_formulas.rs
+++ b/neapolitan/src/flux_formulas.rs
@@ -55,7 +55,11 @@ pub fn observe_flux(
     let mut discrepancy = sub_ref.try_borrow()?
         .get_flux_discrepancy()?;
 
-    discrepancy.inplace_scale(-1.0);
+    // What the output node lacks flows in, what the input node has too much of flows out
+    if drives_output
+    {
+        discrepancy.inplace_scale(-1.0);
+    }
 
     Ok(discrepancy)
 }
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index c7a811a..91fe3bf 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -115,7 +115,7 @@ pub fn temperature_delta(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
-- 
2.43.0


From 1dca0df825ba1276910d3f7d86b60dd283ae0483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 18/30] fix: driven potentials follow the nodes they depend on
 in every evaluation and result

---
 neapolitan/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 222c295..3825caa 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -286,6 +286,7 @@ impl NodalAnalysisStudyBuilder
                 };
 
                 let local_nodes = nodes.to_vec();
+                let local_elements = elements.to_vec();
 
                 guess.insert(idx, 1.0);
                 partials.push(move |x: &HashMap<ComponentIndex, f64>| {
@@ -296,6 +297,12 @@ impl NodalAnalysisStudyBuilder
                             .potential[(component as usize, 0)] = val;
                     }
 
+                    // Bring driven potentials up to date before any flux depends on them
+                    for elem in &local_elements
+                    {
+                        elem.get_flux()?;
+                    }
+
                     let flux_discrepancy = local_nodes[node_idx]
                         .try_borrow()?
                         .get_flux_discrepancy()?;
@@ -314,6 +321,11 @@ impl NodalAnalysisStudyBuilder
             node.potential[(idx.component as usize, 0)] = *component;
         }
 
+        for elem in &elements
+        {
+            elem.get_flux()?;
+        }
+
         // Step 6 - gather results
         let mut result = NodalAnalysisStudyResult 
         { 
-- 
2.43.0


From a84497002d5002f0b2ac5e3306d1d6b5c27a63d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 19/30] fix: the solvers never write their results over the
 input file and nxc accepts --output-file

---
 neapolitan/src/main.rs | 2 +-
 nexsys/src/main.rs     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index ff50a91..a1c5583 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -105,7 +105,7 @@ fn main()
         }
     };
 
-    let solution_file = args[1].replace(".json", ".soln.json");
+    let solution_file = format!("{}.soln.json", args[1].strip_suffix(".json").unwrap_or(&args[1]));
     match write(solution_file, solution_json) 
     {
         Ok(_) => process::exit(0),
diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 62f9350..b0a865c 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -67,7 +67,7 @@ OPTIONS:
             
             println!("\n{preprocess}\n");
         }
-        if args[i] == *"--to-file" || args[i] == *"-o" {
+        if args[i] == *"--output-file" || args[i] == *"--to-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
             output_file = true;
         }
@@ -92,7 +92,7 @@ OPTIONS:
     );
 
     if output_file {
-        match write(args[1].replace(".nxs", ".txt"), output) {
+        match write(format!("{}.txt", args[1].strip_suffix(".nxs").unwrap_or(&args[1])), output) {
             Ok(_) => process::exit(0),
             Err(_) => {
                 println!("[nxc].....ERR: nxc could not write to the output file");
-- 
2.43.0


From 6082059fcdfdcfab663ff8f516e6d986e21f315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 20/30] fix: a saved model can be read back from its text

---
 neapolitan/src/modelling/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/modelling/mod.rs b/neapolitan/src/modelling/mod.rs
index 42fce1f..ebcde84 100644
--- a/neapolitan/src/modelling/mod.rs
+++ b/neapolitan/src/modelling/mod.rs
@@ -5,7 +5,7 @@ pub mod node;
 use std::{collections::HashMap, str::FromStr, usize};
 
 /// 3rd party modules
-use serde::de::{Deserialize, IntoDeserializer, value};
+use serde::de::{value, Error};
 
 /// Local modules
 pub use element::GenericElement;
@@ -55,6 +55,6 @@ impl FromStr for NodalAnalysisModel
 
     fn from_str(s: &str) -> Result<Self, Self::Err> 
     {
-        Self::deserialize(s.into_deserializer())
+        serde_json::from_str(s).map_err(value::Error::custom)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 6df6eea4b6c2f8d3449c644fc0ff1df65b89a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 21/30] fix: switching panels and closing tabs keep the right
 content, handlers and tabs

---
 ngineer_js/src/leftRibbonMenu.ts    |  9 ++++++---
 ngineer_js/src/panelManager.ts      | 16 ++++++++++++++++
 ngineer_js/src/tagbuilder.ts        |  4 ++++
 ngineer_js/target/leftRibbonMenu.js |  9 ++++++---
 ngineer_js/target/panelManager.js   | 13 +++++++++++++
 ngineer_js/target/tagbuilder.js     |  4 ++++
 6 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/ngineer_js/src/leftRibbonMenu.ts b/ngineer_js/src/leftRibbonMenu.ts
index d1b110c..34575b8 100644
--- a/ngineer_js/src/leftRibbonMenu.ts
+++ b/ngineer_js/src/leftRibbonMenu.ts
@@ -18,14 +18,17 @@ export function generateFocusCallback(filename: string, elementId?: string): (e:
 {
     const onclickFocusHandler = () => console.log(`clicked the ${filename} tab!`);
 
-    const newChildIndex = PROJ_TABS_BAR.children.length;
+    let tab: DynTag | null = null;
 
     const onclickCloseHandler = () => {
         const ptb = PROJ_TABS_BAR.getter();
-        const tagToRemove = ptb.children[newChildIndex];
+        const tagToRemove = tab.getter();
         console.log('chugya');
         ptb.removeChild(tagToRemove);
+        PROJ_TABS_BAR.children.splice(PROJ_TABS_BAR.children.indexOf(tab.getter), 1);
         dropTagFromApplication(tagToRemove.id);
+        dropTagFromApplication(filename + '-filename-tag');
+        dropTagFromApplication(filename + '-close-button');
     }
 
     return (event: Event) => {
@@ -34,7 +37,7 @@ export function generateFocusCallback(filename: string, elementId?: string): (e:
         if (tabElement === null)
         {
             // If the tab doesn't exist, make one:
-            const tab = new TagBuilder('span')
+            tab = new TagBuilder('span')
                 .setTagId(filename + '-tab')
                 .setTagClass(CommonTagClasses.TopRibbonMenuFileItem)
                 .setTagCallback('onmouseup', onclickFocusHandler)
diff --git a/ngineer_js/src/panelManager.ts b/ngineer_js/src/panelManager.ts
index 6ae7290..8f34007 100644
--- a/ngineer_js/src/panelManager.ts
+++ b/ngineer_js/src/panelManager.ts
@@ -7,11 +7,17 @@ export const LEFT_PANEL_MANAGER =
 {
     filesTabState: '', // This is the default tab. It's text is determined by the hard-coded html value.
     modelTabState: 'view a file to see modelling tools',
+    isModelTabFocused: false,
 
     focusModelTab(): void
     {
         let lr = LEFT_RIBBON.getter();
+        if (LEFT_PANEL_MANAGER.isModelTabFocused)
+        {
+            return; // The content on screen already belongs to this tab
+        }
         
+        LEFT_PANEL_MANAGER.isModelTabFocused = true;
         LEFT_PANEL_MANAGER.filesTabState = lr.innerHTML;
         lr.innerHTML = LEFT_PANEL_MANAGER.modelTabState;
         LEFT_RIBBON.getter();
@@ -25,9 +31,19 @@ export const LEFT_PANEL_MANAGER =
     focusFilesTab(): void
     {
         let lr = LEFT_RIBBON.getter();
+        if (!LEFT_PANEL_MANAGER.isModelTabFocused)
+        {
+            return; // The content on screen already belongs to this tab
+        }
+
+        LEFT_PANEL_MANAGER.isModelTabFocused = false;
         LEFT_PANEL_MANAGER.modelTabState = lr.innerHTML;
         lr.innerHTML = LEFT_PANEL_MANAGER.filesTabState;
         LEFT_RIBBON.getter();
+        for (let childGetter of LEFT_RIBBON.children)
+        {
+            childGetter(); // Re-initialize the restored file items
+        }
 
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
diff --git a/ngineer_js/src/tagbuilder.ts b/ngineer_js/src/tagbuilder.ts
index dad3f53..4990ab4 100644
--- a/ngineer_js/src/tagbuilder.ts
+++ b/ngineer_js/src/tagbuilder.ts
@@ -174,6 +174,10 @@ export class TagBuilder
                     let cb = callback as keyof TagCallbacks;
                     maybeElem[cb] = this.tagCallbacks[cb];
                 }
+                for (let childGetter of children)
+                {
+                    childGetter(); // Children are re-created along with this tag
+                }
             }
             return maybeElem;
         };
diff --git a/ngineer_js/target/leftRibbonMenu.js b/ngineer_js/target/leftRibbonMenu.js
index 80197e0..f9f6ac9 100644
--- a/ngineer_js/target/leftRibbonMenu.js
+++ b/ngineer_js/target/leftRibbonMenu.js
@@ -12,18 +12,21 @@ export function createLeftRibbonMenuFileItem(filename) {
 }
 export function generateFocusCallback(filename, elementId) {
     var onclickFocusHandler = function () { return console.log("clicked the ".concat(filename, " tab!")); };
-    var newChildIndex = PROJ_TABS_BAR.children.length;
+    var tab = null;
     var onclickCloseHandler = function () {
         var ptb = PROJ_TABS_BAR.getter();
-        var tagToRemove = ptb.children[newChildIndex];
+        var tagToRemove = tab.getter();
         console.log('chugya');
         ptb.removeChild(tagToRemove);
+        PROJ_TABS_BAR.children.splice(PROJ_TABS_BAR.children.indexOf(tab.getter), 1);
         dropTagFromApplication(tagToRemove.id);
+        dropTagFromApplication(filename + '-filename-tag');
+        dropTagFromApplication(filename + '-close-button');
     };
     return function (event) {
         var tabElement = document.getElementById(filename + '-tab');
         if (tabElement === null) {
-            var tab = new TagBuilder('span')
+            tab = new TagBuilder('span')
                 .setTagId(filename + '-tab')
                 .setTagClass(CommonTagClasses.TopRibbonMenuFileItem)
                 .setTagCallback('onmouseup', onclickFocusHandler)
diff --git a/ngineer_js/target/panelManager.js b/ngineer_js/target/panelManager.js
index e4d265f..9dcb0c9 100644
--- a/ngineer_js/target/panelManager.js
+++ b/ngineer_js/target/panelManager.js
@@ -4,8 +4,13 @@ export var SCREEN_PANEL_MANAGER = [];
 export var LEFT_PANEL_MANAGER = {
     filesTabState: '',
     modelTabState: 'view a file to see modelling tools',
+    isModelTabFocused: false,
     focusModelTab: function () {
         var lr = LEFT_RIBBON.getter();
+        if (LEFT_PANEL_MANAGER.isModelTabFocused) {
+            return;
+        }
+        LEFT_PANEL_MANAGER.isModelTabFocused = true;
         LEFT_PANEL_MANAGER.filesTabState = lr.innerHTML;
         lr.innerHTML = LEFT_PANEL_MANAGER.modelTabState;
         LEFT_RIBBON.getter();
@@ -15,9 +20,17 @@ export var LEFT_PANEL_MANAGER = {
     },
     focusFilesTab: function () {
         var lr = LEFT_RIBBON.getter();
+        if (!LEFT_PANEL_MANAGER.isModelTabFocused) {
+            return;
+        }
+        LEFT_PANEL_MANAGER.isModelTabFocused = false;
         LEFT_PANEL_MANAGER.modelTabState = lr.innerHTML;
         lr.innerHTML = LEFT_PANEL_MANAGER.filesTabState;
         LEFT_RIBBON.getter();
+        for (var _i = 0, _a = LEFT_RIBBON.children; _i < _a.length; _i++) {
+            var childGetter = _a[_i];
+            childGetter();
+        }
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
         DebugRibbon.print("now showing the filetree tab.");
diff --git a/ngineer_js/target/tagbuilder.js b/ngineer_js/target/tagbuilder.js
index 8b1b48a..9d17d26 100644
--- a/ngineer_js/target/tagbuilder.js
+++ b/ngineer_js/target/tagbuilder.js
@@ -70,6 +70,10 @@ var TagBuilder = (function () {
                     var cb = callback;
                     maybeElem[cb] = _this.tagCallbacks[cb];
                 }
+                for (var _i = 0, children_1 = children; _i < children_1.length; _i++) {
+                    var childGetter = children_1[_i];
+                    childGetter();
+                }
             }
             return maybeElem;
         };
-- 
2.43.0


From 7f6fb1bc3b1f5e7c202a6d630b1a857c648d0483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 22/30] fix: the inverse of a 3x3 matrix is not transposed

---
 gmatlib/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index fbe8ecd..e58e2b7 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -593,13 +593,13 @@ where T: Element<T>
     fn try_inplace_invert_3(&mut self) -> Result<()>
     {
         let a11 = self[(0, 0)];
-        let a12 = self[(1, 0)];
-        let a13 = self[(2, 0)];
-        let a21 = self[(0, 1)];
+        let a12 = self[(0, 1)];
+        let a13 = self[(0, 2)];
+        let a21 = self[(1, 0)];
         let a22 = self[(1, 1)];
-        let a23 = self[(2, 1)];
-        let a31 = self[(0, 2)];
-        let a32 = self[(1, 2)];
+        let a23 = self[(1, 2)];
+        let a31 = self[(2, 0)];
+        let a32 = self[(2, 1)];
         let a33 = self[(2, 2)];
 
         let det  = a11*a22*a33 + a21*a32*a13 + a31*a12*a23 
-- 
2.43.0


From bb538354302f590e6ea706a0496596619ac6c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 23/30] fix: complete the determinant of a 4x4 matrix

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index e58e2b7..0fb8c7e 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -646,7 +646,7 @@ where T: Element<T>
         let det  = a11*a22*a33*a44 + a11*a23*a34*a42 + a11*a24*a32*a43 +
                    a12*a21*a34*a43 + a12*a23*a31*a44 + a12*a24*a33*a41 + 
                    a13*a21*a32*a44 + a13*a22*a34*a41 + a13*a24*a31*a42 + 
-                   a14*a21*a33*a42 + a14*a22*a34*a43 + a14*a23*a32*a41 -
+                   a14*a21*a33*a42 + a14*a22*a31*a43 + a14*a23*a32*a41 -
                    a11*a22*a34*a43 - a11*a23*a32*a44 - a11*a24*a33*a42 -
                    a12*a21*a33*a44 - a12*a23*a34*a41 - a12*a24*a31*a43 -
                    a13*a21*a34*a42 - a13*a22*a31*a44 - a13*a24*a32*a41 -
-- 
2.43.0


From f97c87f974f2c7dc95f58384d90758a8e16c58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 24/30] fix: malformed equations and expressions do not compile

---
 geqslib/src/lib.rs      |  4 ++--
 geqslib/src/shunting.rs | 42 ++++++++++++++++++++++++++++++-----------
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 16f3868..f98242e 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -36,7 +36,7 @@ pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -
         _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
     }
     
-    compile_to_fn(&format!("{} - ({})", sides[0], sides[1]), ctx)
+    compile_to_fn(&format!("({}) - ({})", sides[0], sides[1]), ctx)
 }
 
 /// An internal function for formatting an equation to an expression prior to tokenization 
@@ -62,7 +62,7 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         ctx.add_var_with_domain_to_ctx(&var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
-    compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx)
+    compile_to_fn_of_hashmap(&format!("({}) - ({})", sides[0], sides[1]), ctx)
 }
 
 /// Solves an equation given as a string for the SINGLE
diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 92121f0..4d4bd49 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -159,19 +159,13 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
             },
 
             ")" => {
-                while let Some(op) = stack.pop() 
+                loop
                 {
-                    if op != "(" 
-                    {
-                        queue.push(tokenize_with_context(op, context)?);
-                    } 
-                    else if op == "(" 
-                    {
-                        break;
-                    } 
-                    else 
+                    match stack.pop()
                     {
-                        return Err(ShuntingYardError::UnclosedParenthesis.into())
+                        Some("(") => break,
+                        Some(op) => queue.push(tokenize_with_context(op, context)?),
+                        None => return Err(ShuntingYardError::UnclosedParenthesis.into()),
                     }
                 }
 
@@ -308,6 +302,7 @@ pub fn compile_to_fn_of_hashmap(expr: &str, context: &ContextHashMap) -> anyhow:
     }
 
     let rpn = rpnify(expr, context)?;
+    check_arguments(&rpn)?;
 
     // Clone the Rc's to a lookup table for closure function
     let arg_lookup_table = context.clone();
@@ -381,6 +376,7 @@ pub fn compile_to_fn(expr: &str, context: &ContextHashMap) -> anyhow::Result<imp
     {
         let var: Rc<RefCell<Variable>> = Rc::clone(r);
         let rpn = rpnify(expr, context)?;
+        check_arguments(&rpn)?;
     
         Ok(move |x: f64| {
             (*var.borrow_mut()).set(x);
@@ -393,6 +389,30 @@ pub fn compile_to_fn(expr: &str, context: &ContextHashMap) -> anyhow::Result<imp
     }
 }
 
+/// Checks that every operator and function in a postfix token stack finds its arguments and 
+/// that exactly one value is left over after evaluating it.
+fn check_arguments(expr: &[Token]) -> anyhow::Result<()>
+{
+    let mut depth: usize = 0;
+    for token in expr
+    {
+        let args = match token
+        {
+            Token::Num(_) | Token::Var(_) => 0,
+            Token::Func(args, _) => *args,
+            _ => 2,
+        };
+        depth = depth.checked_sub(args).ok_or(ShuntingYardError::ExpectedArg)? + 1;
+    }
+
+    match depth
+    {
+        1 => Ok(()),
+        0 => Err(ShuntingYardError::NoTokens.into()),
+        _ => Err(ShuntingYardError::LeftoverToken.into()),
+    }
+}
+
 /// Evaluates a postfix token stack, returning an f64 value on success.
 fn eval_rpn_expression(expr: &Vec<Token>) -> anyhow::Result<f64> 
 {    
-- 
2.43.0


From 86a4e3a46e854fa69b75d317d440407a7a942264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:25 +0000
Subject: [PATCH 25/30] fix: a flux formula cannot read the potentials of its
 nodes

get_node_potential asked for a mutable borrow although it only reads, which
fails while a study holds its own borrow of the node to balance it.
---
 neapolitan/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 3825caa..4120a96 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -399,7 +399,7 @@ pub fn get_node_potential(node_ref: &Weak<RefCell<GenericNode>>) -> anyhow::Resu
 {
     if let Some(node) = node_ref.upgrade()
     {
-        Ok(node.try_borrow_mut()?.potential.clone())
+        Ok(node.try_borrow()?.potential.clone())
     }
     else
     {
-- 
2.43.0


From 202d7e4076bc06bb09666bbcfc9453de0c9445b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 26/30] fix: nxc --verbose stops on programs whose comments
 look like code

---
 nexsys/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index b0a865c..d8146e7 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -1,6 +1,6 @@
 use std::{env, process};
 use std::fs::{read_to_string, write};
-use nexsys::{solve_with_preprocessors, parsing::{conditionals, conversions, consts}};
+use nexsys::{solve_with_preprocessors, parsing::{comments, conditionals, conversions, consts}};
 
 fn main() {
     let args: Vec<String> = env::args().collect();
@@ -61,7 +61,7 @@ OPTIONS:
         if args[i] == *"--verbose" || args[i] == *"-v" {
             println!("[nxc].....Printing compiled code...");
 
-            let mut preprocess = conversions(&system).unwrap();
+            let mut preprocess = conversions(&comments(&system)).unwrap();
             preprocess = consts(&preprocess).unwrap();
             preprocess = conditionals(&preprocess).unwrap();
             
-- 
2.43.0


From bf9ae8f5c25a535efb3b64e5c8fbea3119046cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 27/30] fix: file names that look like markup or like the
 page's own ids get their own tab

---
 ngineer_js/src/leftRibbonMenu.ts    | 21 ++++++++++++---------
 ngineer_js/src/tagbuilder.ts        | 16 +++++++++++++++-
 ngineer_js/target/leftRibbonMenu.js | 19 ++++++++++---------
 ngineer_js/target/tagbuilder.js     | 10 +++++++++-
 4 files changed, 46 insertions(+), 20 deletions(-)

diff --git a/ngineer_js/src/leftRibbonMenu.ts b/ngineer_js/src/leftRibbonMenu.ts
index 34575b8..a7f92e6 100644
--- a/ngineer_js/src/leftRibbonMenu.ts
+++ b/ngineer_js/src/leftRibbonMenu.ts
@@ -1,4 +1,4 @@
-import { dropTagFromApplication, DynTag, generateUniqueElementId, TagBuilder, TagGetter } from './tagbuilder.js'
+import { dropTagFromApplication, DynTag, escapeHtml, generateUniqueElementId, TagBuilder, TagGetter } from './tagbuilder.js'
 import { CommonTagClasses, LEFT_RIBBON, PROJ_TABS_BAR, TOP_BAR } from './common.js'
 
 export function createLeftRibbonMenuFileItem(filename: string): DynTag
@@ -8,7 +8,7 @@ export function createLeftRibbonMenuFileItem(filename: string): DynTag
     return new TagBuilder('div')
         .setTagId(uniqueId)
         .setTagClass(CommonTagClasses.LeftRibbonMenuFileItem)
-        .setTagContent(filename)
+        .setTagContent(escapeHtml(filename))
         .setTagCallback('onclick', onclickHandler)
         .buildInto(LEFT_RIBBON, true);
 }
@@ -18,6 +18,9 @@ export function generateFocusCallback(filename: string, elementId?: string): (e:
 {
     const onclickFocusHandler = () => console.log(`clicked the ${filename} tab!`);
 
+    // The prefix keeps these ids apart from the ones in the HTML file (e.g. 'files-tab')
+    const fileId = 'file-' + filename;
+
     let tab: DynTag | null = null;
 
     const onclickCloseHandler = () => {
@@ -27,28 +30,28 @@ export function generateFocusCallback(filename: string, elementId?: string): (e:
         ptb.removeChild(tagToRemove);
         PROJ_TABS_BAR.children.splice(PROJ_TABS_BAR.children.indexOf(tab.getter), 1);
         dropTagFromApplication(tagToRemove.id);
-        dropTagFromApplication(filename + '-filename-tag');
-        dropTagFromApplication(filename + '-close-button');
+        dropTagFromApplication(fileId + '-filename-tag');
+        dropTagFromApplication(fileId + '-close-button');
     }
 
     return (event: Event) => {
-        const tabElement = document.getElementById(filename + '-tab');
+        const tabElement = document.getElementById(fileId + '-tab');
 
         if (tabElement === null)
         {
             // If the tab doesn't exist, make one:
             tab = new TagBuilder('span')
-                .setTagId(filename + '-tab')
+                .setTagId(fileId + '-tab')
                 .setTagClass(CommonTagClasses.TopRibbonMenuFileItem)
                 .setTagCallback('onmouseup', onclickFocusHandler)
                 .buildInto(PROJ_TABS_BAR, true);
             const _filenameTag = new TagBuilder('span')
-                .setTagId(filename+ '-filename-tag')
+                .setTagId(fileId + '-filename-tag')
                 .setTagClass(CommonTagClasses.FilenameTag)
-                .setTagContent(filename)
+                .setTagContent(escapeHtml(filename))
                 .buildInto(tab, false);
             const _closeButton = new TagBuilder('span')
-                .setTagId(filename + '-close-button')
+                .setTagId(fileId + '-close-button')
                 .setTagClass(CommonTagClasses.CloseButton)
                 .setTagCallback('onmousedown', onclickCloseHandler)
                 .setTagContent('X')
diff --git a/ngineer_js/src/tagbuilder.ts b/ngineer_js/src/tagbuilder.ts
index 4990ab4..994b535 100644
--- a/ngineer_js/src/tagbuilder.ts
+++ b/ngineer_js/src/tagbuilder.ts
@@ -86,6 +86,20 @@ export interface DynTag
     children: TagGetter[],
 }
 
+/**
+ * Replaces the characters that have a meaning in HTML, so that arbitrary
+ * text (e.g. a filename) can be used as the content or the id of a tag.
+ */
+export function escapeHtml(text: string): string
+{
+    return text
+        .replace(/&/g, '&amp;')
+        .replace(/</g, '&lt;')
+        .replace(/>/g, '&gt;')
+        .replace(/"/g, '&quot;')
+        .replace(/'/g, '&#39;');
+}
+
 /**
  * 
  */
@@ -131,7 +145,7 @@ export class TagBuilder
     setTagId(id: string)
     {
         this.tagId = id;
-        this.tagIdText = `id='${id}'`;
+        this.tagIdText = `id='${escapeHtml(id)}'`;
         return this;
     }
 
diff --git a/ngineer_js/target/leftRibbonMenu.js b/ngineer_js/target/leftRibbonMenu.js
index f9f6ac9..14f21d9 100644
--- a/ngineer_js/target/leftRibbonMenu.js
+++ b/ngineer_js/target/leftRibbonMenu.js
@@ -1,4 +1,4 @@
-import { dropTagFromApplication, generateUniqueElementId, TagBuilder } from './tagbuilder.js';
+import { dropTagFromApplication, escapeHtml, generateUniqueElementId, TagBuilder } from './tagbuilder.js';
 import { CommonTagClasses, LEFT_RIBBON, PROJ_TABS_BAR } from './common.js';
 export function createLeftRibbonMenuFileItem(filename) {
     var uniqueId = generateUniqueElementId();
@@ -6,12 +6,13 @@ export function createLeftRibbonMenuFileItem(filename) {
     return new TagBuilder('div')
         .setTagId(uniqueId)
         .setTagClass(CommonTagClasses.LeftRibbonMenuFileItem)
-        .setTagContent(filename)
+        .setTagContent(escapeHtml(filename))
         .setTagCallback('onclick', onclickHandler)
         .buildInto(LEFT_RIBBON, true);
 }
 export function generateFocusCallback(filename, elementId) {
     var onclickFocusHandler = function () { return console.log("clicked the ".concat(filename, " tab!")); };
+    var fileId = 'file-' + filename;
     var tab = null;
     var onclickCloseHandler = function () {
         var ptb = PROJ_TABS_BAR.getter();
@@ -20,24 +21,24 @@ export function generateFocusCallback(filename, elementId) {
         ptb.removeChild(tagToRemove);
         PROJ_TABS_BAR.children.splice(PROJ_TABS_BAR.children.indexOf(tab.getter), 1);
         dropTagFromApplication(tagToRemove.id);
-        dropTagFromApplication(filename + '-filename-tag');
-        dropTagFromApplication(filename + '-close-button');
+        dropTagFromApplication(fileId + '-filename-tag');
+        dropTagFromApplication(fileId + '-close-button');
     };
     return function (event) {
-        var tabElement = document.getElementById(filename + '-tab');
+        var tabElement = document.getElementById(fileId + '-tab');
         if (tabElement === null) {
             tab = new TagBuilder('span')
-                .setTagId(filename + '-tab')
+                .setTagId(fileId + '-tab')
                 .setTagClass(CommonTagClasses.TopRibbonMenuFileItem)
                 .setTagCallback('onmouseup', onclickFocusHandler)
                 .buildInto(PROJ_TABS_BAR, true);
             var _filenameTag = new TagBuilder('span')
-                .setTagId(filename + '-filename-tag')
+                .setTagId(fileId + '-filename-tag')
                 .setTagClass(CommonTagClasses.FilenameTag)
-                .setTagContent(filename)
+                .setTagContent(escapeHtml(filename))
                 .buildInto(tab, false);
             var _closeButton = new TagBuilder('span')
-                .setTagId(filename + '-close-button')
+                .setTagId(fileId + '-close-button')
                 .setTagClass(CommonTagClasses.CloseButton)
                 .setTagCallback('onmousedown', onclickCloseHandler)
                 .setTagContent('X')
diff --git a/ngineer_js/target/tagbuilder.js b/ngineer_js/target/tagbuilder.js
index 9d17d26..f8fce09 100644
--- a/ngineer_js/target/tagbuilder.js
+++ b/ngineer_js/target/tagbuilder.js
@@ -19,6 +19,14 @@ var TagGetterError = (function () {
 var UNIQUE_ELEMENT_IDS = new Set();
 var LastGeneratedHtmlIdNumber = 0;
 ;
+export function escapeHtml(text) {
+    return text
+        .replace(/&/g, '&amp;')
+        .replace(/</g, '&lt;')
+        .replace(/>/g, '&gt;')
+        .replace(/"/g, '&quot;')
+        .replace(/'/g, '&#39;');
+}
 var TagBuilder = (function () {
     function TagBuilder(tagType) {
         this.tagType = tagType;
@@ -43,7 +51,7 @@ var TagBuilder = (function () {
     };
     TagBuilder.prototype.setTagId = function (id) {
         this.tagId = id;
-        this.tagIdText = "id='".concat(id, "'");
+        this.tagIdText = "id='".concat(escapeHtml(id), "'");
         return this;
     };
     TagBuilder.prototype.setTagContent = function (content) {
-- 
2.43.0


From 3a07a779a26dbea7957ae46e0c3568c657cbfa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 28/30] fix: names like inf and nan mean the variable or
 constant of that name, not the number

---
 geqslib/src/shunting.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 4d4bd49..06e59bb 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -209,7 +209,8 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
 
             other => {
 
-                if let Ok(num) = other.parse::<f64>() 
+                // "inf" and "nan" are numbers only as long as they are not the name of something
+                if let (Ok(num), false) = (other.parse::<f64>(), context.contains_key(other))
                 {
                     queue.push(Token::Num(num));
                     unary_minus = false;
-- 
2.43.0


From fd0bb5eae712744b03aa1923c1732b0f6aeb1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 29/30] fix: declarations that are not understood are refused
 instead of skipped or cut short

---
 nexsys/src/errors.rs      |  7 +++++++
 nexsys/src/parsing/mod.rs | 27 ++++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/errors.rs b/nexsys/src/errors.rs
index dabfc49..a1cd4e9 100644
--- a/nexsys/src/errors.rs
+++ b/nexsys/src/errors.rs
@@ -96,6 +96,13 @@ impl_err!(
     "constant failed to compile"
 );
 
+#[derive(Debug)]
+pub struct DeclarationFormatError;
+impl_err!(
+    DeclarationFormatError,
+    "guess, domain or constant declaration failed to compile"
+);
+
 #[derive(Debug)]
 pub struct UnitConversionError;
 impl_err!(
diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index d1c8a21..a0a12b4 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -5,7 +5,7 @@ use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
 use lazy_static::lazy_static;
 use regex::Regex;
 use std::collections::HashMap;
-use crate::{units::{convert, const_data}, errors::ConstFormatError};
+use crate::{units::{convert, const_data}, errors::{ConstFormatError, DeclarationFormatError}};
 
 pub use conditionals::*;
 
@@ -142,6 +142,14 @@ pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)
 
     for c in const_vals
     {
+        // the number must not be the beginning of something longer, e.g. `1/3` or `6.02e23`
+        let rest = &text[c.get(0).unwrap().end()..];
+        if rest.starts_with(|ch: char| ch.is_alphanumeric() || "_.".contains(ch))
+            || rest.trim_start_matches(' ').starts_with(['+', '-', '*', '/', '^', '('])
+        {
+            return Err(DeclarationFormatError.into());
+        }
+
         res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
         res.1.insert(
             c.get(1).unwrap().as_str().to_owned(), 
@@ -151,6 +159,20 @@ pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)
     Ok(res)
 }
 
+/// Returns an error if the text still contains a guess, domain or constant declaration.
+fn check_declarations(text: &str) -> anyhow::Result<()>
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)\b(?:guess +[-+.0-9][^\n=]*\bfor +@V|keep +@V +on *\[|const +@V *=)");
+    }
+    if RE.is_match(text)
+    {
+        return Err(DeclarationFormatError.into());
+    }
+    Ok(())
+}
+
 /// Wraps most functions in `nexsys::parsing`, returning either an error that 
 /// prevents the code from being solvable or the intermediate language representation
 /// of the `.nxs`-formatted code.
@@ -206,6 +228,9 @@ pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<Stri
         }
     }
 
+    // A declaration that is still there was not understood and must not be skipped
+    check_declarations(&nil)?;
+
     // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
     nil = conditionals(&nil)?;
 
-- 
2.43.0


From 8ec5b6acb8d98d43efcfd78ef8814bcebbacba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 30/30] fix: a guess declaration no longer takes the beginning
 of another one with it

---
 nexsys/src/parsing/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index a0a12b4..4f2c329 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -28,12 +28,11 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
     {
         static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
     }
-    let mut res = (text.to_owned(), HashMap::new());
+    let mut res = (RE.replace_all(text, "").to_string(), HashMap::new());
     let guesses = RE.captures_iter(text);
 
     for g in guesses 
     {
-        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
         res.1.insert(
             g.get(2).unwrap().as_str().to_owned(), 
             g.get(1).unwrap().as_str().replace(' ', "").parse()
-- 
2.43.0

