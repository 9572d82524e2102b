From 5b27c300c8b2e4d413c6d3a57c638ac498e0171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 01/18] fix: power_iu answered a^0 = 0 and a^1 = 1

---
 projects/sm-algorithm/src/basic/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 4f12eab..74364d9 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -3,7 +3,6 @@ use crate::{
     Result,
 };
 use num::{
-    bigint::Sign,
     integer::{gcd, ExtendedGcd},
     traits::Pow,
     BigInt, BigUint, Integer, One, ToPrimitive, Zero,
@@ -13,14 +12,14 @@ pub fn power_iu(a: &BigInt, b: &BigUint) -> Result<BigInt> {
     if a.is_zero() && b.is_zero() {
         return Err(Indeterminate);
     }
-    else if a.is_zero() || b.is_zero() {
+    else if a.is_zero() {
         return Ok(BigInt::zero());
     }
-    else if a.is_one() {
+    else if a.is_one() || b.is_zero() {
         return Ok(BigInt::one());
     }
     else if b.is_one() {
-        return Ok(BigInt::from_biguint(Sign::Plus, b.clone()));
+        return Ok(a.clone());
     }
     match b.to_u32() {
         None => Err(OverFlow),
-- 
2.43.0


From 38a52242c5d8a52728185326d8f10d57b619cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 02/18] fix: modulo_division scaled the Bezout coefficient of
 the modulus

---
 projects/sm-algorithm/src/basic/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 74364d9..7001b95 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -69,8 +69,8 @@ fn test_modulo_inverse() {
 /// division in modulo
 /// $bx \equiv a \pmod{m}$
 pub fn modulo_division(a: &BigInt, b: &BigInt, m: &BigInt) -> Option<BigInt> {
-    let ExtendedGcd { gcd, x: _, y, .. } = b.extended_gcd(m);
-    if (a % &gcd).is_zero() { Some(a / &gcd * y) } else { None }
+    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(m);
+    if (a % &gcd).is_zero() { Some(a / &gcd * x) } else { None }
 }
 
 #[test]
-- 
2.43.0


From 3c9a5148a1c37992ab0da533f23d0064cd6fa799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 03/18] fix: chinese_remainder panicked on the empty system

---
 projects/sm-algorithm/src/basic/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 7001b95..19abe9d 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -95,7 +95,7 @@ pub fn chinese_remainder(u: &[BigInt], m: &[BigInt]) -> Option<BigInt> {
         let t = v.iter().zip(m.iter()).rev().fold(BigInt::zero(), |t, (v_j, m_j)| m_j * t + v_j % m_i);
         v.push((u_i - t) * c_i % m_i);
     }
-    let mut ret = v.pop().unwrap();
+    let mut ret = v.pop().unwrap_or_else(BigInt::zero);
     for (v_i, m_i) in v.iter().zip(m.iter()).rev() {
         ret = ret * m_i + v_i;
     }
-- 
2.43.0


From cbaec2fe70e6b727e94169c8e176b41b6b1baaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 04/18] fix: factorial_i reported overflow for very negative
 integers

---
 projects/sm-algorithm/src/gamma/factorial.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/sm-algorithm/src/gamma/factorial.rs b/projects/sm-algorithm/src/gamma/factorial.rs
index 64b37ae..68b7892 100644
--- a/projects/sm-algorithm/src/gamma/factorial.rs
+++ b/projects/sm-algorithm/src/gamma/factorial.rs
@@ -1,5 +1,5 @@
 use crate::Result;
-use num::{BigInt, ToPrimitive};
+use num::{BigInt, Signed, ToPrimitive};
 // ```wl
 // TemplateApply[
 // "cache.insert(`1`,BigInt::from(`2`));\n",
@@ -29,6 +29,7 @@ pub fn factorial_i(n: &BigInt) -> Result<BigInt> {
                 Ok(BigInt::from(factorial_fold_u(s as usize)))
             }
         }
+        None if n.is_negative() => Err(ComplexInfinity),
         None => Err(OverFlow),
     }
 }
-- 
2.43.0


From 0bd351f726b14d2c06ec7a050f629febfb6b12fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 05/18] fix: fibonacci_i hung or panicked on negative indices

---
 projects/sm-algorithm/src/linear/fibonacci.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/linear/fibonacci.rs b/projects/sm-algorithm/src/linear/fibonacci.rs
index 84d6206..e38c806 100644
--- a/projects/sm-algorithm/src/linear/fibonacci.rs
+++ b/projects/sm-algorithm/src/linear/fibonacci.rs
@@ -5,8 +5,8 @@ use std::collections::BTreeMap;
 pub fn fibonacci_i(n: &BigInt) -> Result<BigInt> {
     match n.to_isize() {
         Some(s) => {
-            let u = fibonacci_fast_u(s as usize);
-            if s < 0 && s.is_even() { Ok(BigInt::from(-u)) } else { Ok(BigInt::from(u)) }
+            let u = fibonacci_fast_u(s.unsigned_abs());
+            if s < 0 && s.is_even() { Ok(-BigInt::from(u)) } else { Ok(BigInt::from(u)) }
         }
         None => Err(OverFlow),
     }
-- 
2.43.0


From 8ecb8714dcf7537d55fd4649b07799309c4617fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 06/18] fix: prime_sum_u64 panicked on 0

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index 28cf76a..a05ba0b 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -12,6 +12,7 @@ use std::{collections::BTreeMap, str::FromStr};
 
 #[rustfmt::skip]
 pub fn prime_sum_u64(n: u64) -> u64 {
+    if n == 0 { return 0; }
     let r = n.sqrt() as u64;
     assert!(r * r <= n && (r + 1).pow(2) > n);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
-- 
2.43.0


From 94ab108e9b4360dd2ede1f3160342deffd404e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 07/18] fix: prime sums overflowed 64 bits for n >= 2^32

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index a05ba0b..437f0b6 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -8,23 +8,27 @@ use crate::{
 };
 use itertools::Itertools;
 use num::{integer::Roots, BigInt, Signed, ToPrimitive};
-use std::{collections::BTreeMap, str::FromStr};
+use std::{collections::BTreeMap, convert::TryFrom, str::FromStr};
 
-#[rustfmt::skip]
 pub fn prime_sum_u64(n: u64) -> u64 {
+    u64::try_from(prime_sum_u128(n)).expect("prime sum does not fit in 64 bits")
+}
+
+#[rustfmt::skip]
+fn prime_sum_u128(n: u64) -> u128 {
     if n == 0 { return 0; }
     let r = n.sqrt() as u64;
-    assert!(r * r <= n && (r + 1).pow(2) > n);
+    assert!(r * r <= n && n - r * r <= 2 * r);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
     v.extend((0..*v.last().unwrap()).rev());
-    let mut s: BTreeMap<u64, u64> = v.iter().copied().map(|i| (i, ((i + 1) * i / 2).wrapping_sub(1))).collect();
+    let mut s: BTreeMap<u64, u128> = v.iter().copied().map(|i| (i, ((i as u128 + 1) * i as u128 / 2).wrapping_sub(1))).collect();
     for p in 2..=r {
         if s[&p] > s[&(p - 1)] {
             // p is prime
             let (sp, p2) = (s[&(p - 1)], p * p);
             for &ve in &v {
                 if ve < p2 { break; }
-                *s.get_mut(&ve).unwrap() -= p * (s[&(ve / p)] - sp);
+                *s.get_mut(&ve).unwrap() -= p as u128 * (s[&(ve / p)] - sp);
             }
         }
     }
@@ -79,7 +83,7 @@ pub fn prime_sum_i(n: &BigInt) -> Result<BigInt> {
     }
     return match n.to_u64() {
         None => Err(Unimplemented),
-        Some(s) => Ok(BigInt::from(prime_sum_u64(s))),
+        Some(s) => Ok(BigInt::from(prime_sum_u128(s))),
     };
 }
 
-- 
2.43.0


From fbfbfe7f36bf63f32edf9d0a1367c5332ec04ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:27 +0000
Subject: [PATCH 08/18] fix: integer sums were never evaluated

The parser maps the infix operator + to the function add, but the evaluator only knew plus.
---
 projects/sm-ast/src/evaluate/forward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 0d508b1..252078e 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -61,7 +61,7 @@ fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
         "length" => internal::length(&args[0])?,
         "factorial" => internal::factorial(&args[0])?,
         "fibonacci" => internal::fibonacci(&args[0])?,
-        "plus" => evaluate_additive(&args, ctx)?,
+        "add" | "plus" => evaluate_additive(&args, ctx)?,
         "times" => evaluate_multiplicative(&args, ctx)?,
         "power" => evaluate_power(&args, ctx)?,
         _ => {
-- 
2.43.0


From 728d6fb2a489b03ac5cec27d6494301223147323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:27 +0000
Subject: [PATCH 09/18] fix: power with a negative or huge exponent returned
 its base

---
 projects/sm-ast/src/evaluate/forward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 252078e..9548a6c 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -94,7 +94,7 @@ fn evaluate_multiplicative(vec: &[AST], _: &mut Context) -> S {
 fn evaluate_power(vec: &[AST], _: &mut Context) -> S {
     let out = match vec {
         [AST::Integer(lhs), AST::Integer(rhs)] => match rhs.to_u64() {
-            None => AST::Integer(lhs.clone()),
+            None => return Err(SMError::Overflow),
             Some(s) => AST::Integer(lhs.pow(s)),
         },
         _ => {
-- 
2.43.0


From 1ef1d021a2f026a4ffd35e848e7b86aff972314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:27 +0000
Subject: [PATCH 10/18] fix: length of a string counted bytes, not characters

---
 projects/sm-ast/src/internal/list_like.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index d367693..fecf1cf 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -18,7 +18,7 @@ pub fn head(expr: &AST) -> AST {
 
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
-        AST::String(s) => Ok(AST::integer(s.len())),
+        AST::String(s) => Ok(AST::integer(s.chars().count())),
         _ => unimplemented!(),
     }
 }
-- 
2.43.0


From f3134f2e653eb5522369c91e1104165de0e90613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:05 +0000
Subject: [PATCH 11/18] fix: built-ins crashed on missing arguments and
 unsupported operands

---
 projects/sm-ast/src/evaluate/forward.rs       | 16 ++++++++++------
 projects/sm-ast/src/internal/elementary.rs    |  6 +++---
 projects/sm-ast/src/internal/list_like.rs     |  8 ++++----
 projects/sm-ast/src/internal/number_theory.rs |  4 ++--
 4 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 9548a6c..e91293c 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -10,7 +10,7 @@ impl AST {
     pub fn forward(&self, ctx: &mut Context) -> S {
         let out = match self {
             AST::EmptyStatement | AST::Boolean(..) | AST::Integer(..) | AST::Decimal(..) | AST::Symbol(..) | AST::String(..) => self.clone(),
-            AST::Program(_) => unimplemented!(),
+            AST::Program(_) => return Err(SMError::Unimplemented(unimplemented_function!())),
             AST::Function(s, p) => match p.len() {
                 0 => AST::Symbol(s.clone()),
                 1 => evaluate_function(s, p[0].clone(), ctx)?,
@@ -56,11 +56,11 @@ impl AST {
 fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
     let args = p.arguments;
     let out = match f.name.as_str() {
-        "first" => internal::first(&args[0])?,
-        "last" => internal::last(&args[0])?,
-        "length" => internal::length(&args[0])?,
-        "factorial" => internal::factorial(&args[0])?,
-        "fibonacci" => internal::fibonacci(&args[0])?,
+        "first" => internal::first(argument(&args)?)?,
+        "last" => internal::last(argument(&args)?)?,
+        "length" => internal::length(argument(&args)?)?,
+        "factorial" => internal::factorial(argument(&args)?)?,
+        "fibonacci" => internal::fibonacci(argument(&args)?)?,
         "add" | "plus" => evaluate_additive(&args, ctx)?,
         "times" => evaluate_multiplicative(&args, ctx)?,
         "power" => evaluate_power(&args, ctx)?,
@@ -71,6 +71,10 @@ fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
     Ok(out)
 }
 
+fn argument(args: &[AST]) -> SMResult<&AST> {
+    args.first().ok_or_else(|| SMError::EmptyContainer(String::from("Can't call a function without arguments")))
+}
+
 fn evaluate_additive(vec: &[AST], _: &mut Context) -> S {
     let out = match vec {
         [AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(lhs + rhs),
diff --git a/projects/sm-ast/src/internal/elementary.rs b/projects/sm-ast/src/internal/elementary.rs
index 6ef050b..d0b5bc1 100644
--- a/projects/sm-ast/src/internal/elementary.rs
+++ b/projects/sm-ast/src/internal/elementary.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::{factorial_i, fibonacci_i};
 
 pub fn sqrt(expr: &AST) -> SMResult<AST> {
@@ -64,7 +64,7 @@ pub fn factorial(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(factorial_i(n)?)),
         AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -72,7 +72,7 @@ pub fn fibonacci(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(fibonacci_i(n)?)),
         AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index fecf1cf..c6923b7 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -1,4 +1,4 @@
-use crate::{error::SMError::EmptyContainer, SMResult, AST};
+use crate::{error::SMError::EmptyContainer, SMError, SMResult, AST};
 
 pub fn head(expr: &AST) -> AST {
     match expr {
@@ -19,7 +19,7 @@ pub fn head(expr: &AST) -> AST {
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::String(s) => Ok(AST::integer(s.chars().count())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -29,7 +29,7 @@ pub fn first(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `first` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -39,7 +39,7 @@ pub fn last(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `last` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
diff --git a/projects/sm-ast/src/internal/number_theory.rs b/projects/sm-ast/src/internal/number_theory.rs
index 3518111..c8872d7 100644
--- a/projects/sm-ast/src/internal/number_theory.rs
+++ b/projects/sm-ast/src/internal/number_theory.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::prime_sum_i;
 
 pub fn floor(expr: &AST) -> SMResult<AST> {
@@ -41,6 +41,6 @@ pub fn prime_sum(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(prime_sum_i(n)?)),
         AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
-- 
2.43.0


From a0cf6f839f6c7c086a87ffd35909927fa509e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:05 +0000
Subject: [PATCH 12/18] fix: last and the evaluation of an empty statement
 crashed a session

---
 projects/sm-ast/src/ast/traits.rs      | 2 +-
 projects/sm-ast/src/evaluate/traits.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 92a523f..608fa04 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -13,7 +13,7 @@ use std::{
 impl Display for AST {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            AST::EmptyStatement => unimplemented!(),
+            AST::EmptyStatement => write!(f, ""),
             AST::Program(_) => unimplemented!(),
             AST::Function(s, ps) => {
                 match &s.kind {
diff --git a/projects/sm-ast/src/evaluate/traits.rs b/projects/sm-ast/src/evaluate/traits.rs
index e50dba7..d6855f2 100644
--- a/projects/sm-ast/src/evaluate/traits.rs
+++ b/projects/sm-ast/src/evaluate/traits.rs
@@ -1,4 +1,4 @@
-use crate::{parser::ParserSettings, Runner, SMResult, AST};
+use crate::{parser::ParserSettings, Runner, SMError, SMResult, AST};
 
 impl Default for Runner {
     fn default() -> Self {
@@ -29,7 +29,7 @@ impl Runner {
     }
 
     pub fn last(&self) -> SMResult<AST> {
-        let o = self.ctx.outputs.get(&self.ctx.index).unwrap();
+        let o = self.ctx.outputs.get(&self.ctx.index).ok_or_else(|| SMError::EmptyContainer(String::from("There is no last output")))?;
         Ok(o.clone())
     }
 }
-- 
2.43.0


From a15c4bc81909f79ffebbef68b5e7880db693a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 13/18] fix: printing dropped parentheses that change an
 expression's meaning

---
 projects/sm-ast/src/ast/traits.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 608fa04..3f054ad 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -4,7 +4,7 @@ use crate::{
 };
 use bigdecimal::BigDecimal;
 use itertools::Itertools;
-use num::{BigInt, One, Zero};
+use num::{BigInt, One, Signed, Zero};
 use std::{
     fmt,
     fmt::{Display, Formatter},
@@ -21,14 +21,18 @@ impl Display for AST {
                     SymbolKind::Alias => unimplemented!(),
                     SymbolKind::Prefix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{0}{1}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            return if arg.precedence() < 255 { write!(f, "{0}({1})", o, arg) } else { write!(f, "{0}{1}", o, arg) };
                         }
                     }
                     SymbolKind::Infix(o, p) => {
                         if is_multiary(ps) {
                             let mut v = vec![];
-                            for arg in &ps[0].arguments {
-                                if arg.precedence() < *p { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
+                            // between operators of one precedence only `^` groups to the right
+                            let free = if o.as_ref() == "^" { ps[0].arguments.len() - 1 } else { 0 };
+                            for (i, arg) in ps[0].arguments.iter().enumerate() {
+                                let bare = arg.precedence() > *p || (arg.precedence() == *p && i == free);
+                                if bare { v.push(format!("{}", arg)) } else { v.push(format!("({})", arg)) }
                             }
                             // let j = if o.as_ref() == "*" { v.join(" ") } else { v.join(&format!(" {} ", o)) };
                             return write!(f, "{0}", v.join(o));
@@ -36,7 +40,14 @@ impl Display for AST {
                     }
                     SymbolKind::Suffix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{1}{0}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            let bare = match arg {
+                                AST::Function(..) => false,
+                                AST::Integer(n) => !n.is_negative(),
+                                AST::Decimal(n) => !n.is_negative(),
+                                _ => true,
+                            };
+                            return if bare { write!(f, "{1}{0}", o, arg) } else { write!(f, "({1}){0}", o, arg) };
                         }
                     }
                 }
-- 
2.43.0


From 6edad899959e0bca70e49d14f69b9d2abb46b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 14/18] fix: 0x_1 and other based integers with an underscore
 after the base no longer crash the parser

---
 projects/sm-ast/src/parser/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index df9e5df..dfb2e0c 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -363,8 +363,8 @@ impl ParserSettings {
             'b' | 'B' => 2,
             _ => unreachable!(),
         };
-        // It is impossible to get `from_str_radix` errors due to the constraints of the parser
-        let i = BigInt::from_str_radix(&s[2..s.len()], base).unwrap();
+        // `from_str_radix` skips the underscores between the digits, but accepts none in front of them
+        let i = BigInt::from_str_radix(s[2..s.len()].trim_start_matches('_'), base).unwrap();
         return AST::Integer(i);
     }
 
-- 
2.43.0


From 3a535f95443c5c24eab0a8e6a9ef2f20ebdd0da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 15/18] fix: a numbered slot sequence (##1) keeps its number
 and no longer crashes the parser

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index dfb2e0c..6f62972 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -344,7 +344,7 @@ impl ParserSettings {
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::SYMBOL => slot.push(AST::string(pair.as_str())),
-                Rule::Integer => {
+                Rule::Integer | Rule::Positive => {
                     let i = BigInt::from_str(pair.as_str()).unwrap();
                     slot.push(AST::integer(i))
                 }
-- 
2.43.0


From f75fa71e0f1190a7b58ace5ef12082849e520cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:03 +0000
Subject: [PATCH 16/18] fix: decimals such as 0.05 and 1.007 are one number
 (the grammar split them after the first zero and the tree builder crashed)

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8fc32f0..6f77739 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -146,7 +146,7 @@ Step = {expr}
 /*====================================================================================================================*/
 //!#D19A66: Integer|Decimal|Byte
 Number  = _{Byte|Decimal|Integer}
-Decimal = ${Integer ~ Dot ~ Integer}
+Decimal = ${Integer ~ Dot ~ ASCII_DIGIT+}
 Integer = @{"0"|Positive}
 Byte    = ${
     ^"0b" ~ (Underline? ~ ASCII_BIN_DIGIT)+
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index b3de4f1..aaca773 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -500,7 +500,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Decimal(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::Integer(state)))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::ASCII_DIGIT(state)).and_then(|state| state.repeat(|state| self::ASCII_DIGIT(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 12c76ba625efb69d7e179a6b9a0793c0ce429232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:03 +0000
Subject: [PATCH 17/18] fix: products such as 1.5 x, 0x10 x and 2 f(x) no
 longer crash the parser

---
 projects/sm-ast/src/parser/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 6f62972..52c0da1 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -178,6 +178,9 @@ impl ParserSettings {
                 Rule::Integer => {
                     stack.push(self.parse_integer(pair));
                 }
+                Rule::Decimal => stack.push(self.parse_decimal(pair)),
+                Rule::Byte => stack.push(self.parse_byte(pair)),
+                Rule::apply_call => stack.push(self.parse_apply_call(pair)),
                 _ => debug_cases!(pair),
             };
         }
-- 
2.43.0


From 8fae88c55184c659016e8d23bc178ff59136a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 18/18] fix: block comments between elements and operands no
 longer crash the tree builder

---
 projects/sm-ast/src/parser/parse.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 52c0da1..0526b03 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -34,7 +34,7 @@ impl ParserSettings {
                 Rule::expression => {
                     return Ok(self.parse_expression(pair).0);
                 }
-                Rule::COMMENT => continue,
+                Rule::COMMENT | Rule::MultiLineComment => continue,
                 _ => debug_cases!(pair),
             };
         }
@@ -50,6 +50,7 @@ impl ParserSettings {
                     base = self.parse_expr(pair);
                 }
                 Rule::eos => eos = true,
+                Rule::MultiLineComment => continue,
                 _ => debug_cases!(pair),
             };
         }
@@ -60,7 +61,7 @@ impl ParserSettings {
     fn parse_expr(&self, pairs: Pair<Rule>) -> AST {
         let position = self.get_position(pairs.as_span());
         CLIMBER.climb(
-            pairs.into_inner(),
+            pairs.into_inner().filter(|pair| pair.as_rule() != Rule::MultiLineComment),
             |pair: Pair<Rule>| match pair.as_rule() {
                 Rule::expr => self.parse_expr(pair),
                 Rule::term => self.parse_term(pair),
@@ -195,7 +196,7 @@ impl ParserSettings {
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::WHITESPACE => continue,
-                Rule::Comma => continue,
+                Rule::Comma | Rule::MultiLineComment => continue,
                 Rule::apply_kv => {
                     let (k, v) = self.parse_apply_kv(pair);
                     match k {
@@ -215,7 +216,7 @@ impl ParserSettings {
         let (mut key, mut value) = (AST::EmptyStatement, AST::EmptyStatement);
         for pair in pairs.into_inner() {
             match pair.as_rule() {
-                Rule::Colon => continue,
+                Rule::Colon | Rule::MultiLineComment => continue,
                 Rule::SYMBOL => key = AST::symbol(pair.as_str()),
                 Rule::expr => value = self.parse_expr(pair),
                 _ => unreachable!(),
@@ -228,7 +229,7 @@ impl ParserSettings {
         let mut slices = vec![];
         for pair in pairs.into_inner() {
             match pair.as_rule() {
-                Rule::Comma => continue,
+                Rule::Comma | Rule::MultiLineComment => continue,
                 Rule::index => slices.push(self.parse_index(pair)),
                 _ => unreachable!(),
             };
@@ -243,7 +244,7 @@ impl ParserSettings {
         let mut step = AST::integer(1);
         for pair in pairs.into_inner() {
             match pair.as_rule() {
-                Rule::Colon => continue,
+                Rule::Colon | Rule::MultiLineComment => continue,
                 Rule::Start => {
                     let e = pair.into_inner().nth(0).unwrap();
                     start = self.parse_expr(e)
@@ -286,7 +287,7 @@ impl ParserSettings {
         let mut v = vec![];
         for pair in pairs.into_inner() {
             match pair.as_rule() {
-                Rule::Comma => continue,
+                Rule::Comma | Rule::MultiLineComment => continue,
                 Rule::expr => v.push(self.parse_expr(pair)),
                 _ => debug_cases!(pair),
             };
-- 
2.43.0

