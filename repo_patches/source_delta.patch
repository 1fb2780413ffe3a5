From a33ff2efdb5400edf9cd991466c3aebda9fbbe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 01/37] fix: power_iu returned 0 for a^0 and the exponent for
 a^1

---
 projects/sm-algorithm/src/basic/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 4f12eab..74364d9 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -3,7 +3,6 @@ use crate::{
     Result,
 };
 use num::{
-    bigint::Sign,
     integer::{gcd, ExtendedGcd},
     traits::Pow,
     BigInt, BigUint, Integer, One, ToPrimitive, Zero,
@@ -13,14 +12,14 @@ pub fn power_iu(a: &BigInt, b: &BigUint) -> Result<BigInt> {
     if a.is_zero() && b.is_zero() {
         return Err(Indeterminate);
     }
-    else if a.is_zero() || b.is_zero() {
+    else if a.is_zero() {
         return Ok(BigInt::zero());
     }
-    else if a.is_one() {
+    else if a.is_one() || b.is_zero() {
         return Ok(BigInt::one());
     }
     else if b.is_one() {
-        return Ok(BigInt::from_biguint(Sign::Plus, b.clone()));
+        return Ok(a.clone());
     }
     match b.to_u32() {
         None => Err(OverFlow),
-- 
2.43.0


From af71d6c589d0e6d39adec698c5c6944cad751300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 02/37] fix: modulo_division used the Bezout coefficient of the
 modulus instead of the divisor

---
 projects/sm-algorithm/src/basic/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 74364d9..7001b95 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -69,8 +69,8 @@ fn test_modulo_inverse() {
 /// division in modulo
 /// $bx \equiv a \pmod{m}$
 pub fn modulo_division(a: &BigInt, b: &BigInt, m: &BigInt) -> Option<BigInt> {
-    let ExtendedGcd { gcd, x: _, y, .. } = b.extended_gcd(m);
-    if (a % &gcd).is_zero() { Some(a / &gcd * y) } else { None }
+    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(m);
+    if (a % &gcd).is_zero() { Some(a / &gcd * x) } else { None }
 }
 
 #[test]
-- 
2.43.0


From 321d5bdc38232b19e970f48a3c99b329a35eb477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 03/37] fix: chinese_remainder panicked on an empty system

---
 projects/sm-algorithm/src/basic/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-algorithm/src/basic/mod.rs b/projects/sm-algorithm/src/basic/mod.rs
index 7001b95..19abe9d 100644
--- a/projects/sm-algorithm/src/basic/mod.rs
+++ b/projects/sm-algorithm/src/basic/mod.rs
@@ -95,7 +95,7 @@ pub fn chinese_remainder(u: &[BigInt], m: &[BigInt]) -> Option<BigInt> {
         let t = v.iter().zip(m.iter()).rev().fold(BigInt::zero(), |t, (v_j, m_j)| m_j * t + v_j % m_i);
         v.push((u_i - t) * c_i % m_i);
     }
-    let mut ret = v.pop().unwrap();
+    let mut ret = v.pop().unwrap_or_else(BigInt::zero);
     for (v_i, m_i) in v.iter().zip(m.iter()).rev() {
         ret = ret * m_i + v_i;
     }
-- 
2.43.0


From ef809ca333f8e3bf5510244926a3778128a45243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 04/37] fix: fibonacci_i of a negative index computed F(2^64-n)
 instead of (-1)^(n+1) F(n)

---
 projects/sm-algorithm/src/linear/fibonacci.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/linear/fibonacci.rs b/projects/sm-algorithm/src/linear/fibonacci.rs
index 84d6206..067d0a9 100644
--- a/projects/sm-algorithm/src/linear/fibonacci.rs
+++ b/projects/sm-algorithm/src/linear/fibonacci.rs
@@ -5,8 +5,8 @@ use std::collections::BTreeMap;
 pub fn fibonacci_i(n: &BigInt) -> Result<BigInt> {
     match n.to_isize() {
         Some(s) => {
-            let u = fibonacci_fast_u(s as usize);
-            if s < 0 && s.is_even() { Ok(BigInt::from(-u)) } else { Ok(BigInt::from(u)) }
+            let u = BigInt::from(fibonacci_fast_u(s.unsigned_abs()));
+            if s < 0 && s.is_even() { Ok(-u) } else { Ok(u) }
         }
         None => Err(OverFlow),
     }
-- 
2.43.0


From e3ac02685b5b86db441d3c6be39a2bf0a33411df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 05/37] fix: factorial_i reported overflow for negative
 integers beyond the machine word

---
 projects/sm-algorithm/src/gamma/factorial.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/sm-algorithm/src/gamma/factorial.rs b/projects/sm-algorithm/src/gamma/factorial.rs
index 64b37ae..68b7892 100644
--- a/projects/sm-algorithm/src/gamma/factorial.rs
+++ b/projects/sm-algorithm/src/gamma/factorial.rs
@@ -1,5 +1,5 @@
 use crate::Result;
-use num::{BigInt, ToPrimitive};
+use num::{BigInt, Signed, ToPrimitive};
 // ```wl
 // TemplateApply[
 // "cache.insert(`1`,BigInt::from(`2`));\n",
@@ -29,6 +29,7 @@ pub fn factorial_i(n: &BigInt) -> Result<BigInt> {
                 Ok(BigInt::from(factorial_fold_u(s as usize)))
             }
         }
+        None if n.is_negative() => Err(ComplexInfinity),
         None => Err(OverFlow),
     }
 }
-- 
2.43.0


From 035aef7fab9e400669c80f492f87f8eb59e3803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 06/37] fix: prime_sum_u64 and prime_sum_i panicked at 0

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index 28cf76a..62d2635 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -15,8 +15,8 @@ pub fn prime_sum_u64(n: u64) -> u64 {
     let r = n.sqrt() as u64;
     assert!(r * r <= n && (r + 1).pow(2) > n);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
-    v.extend((0..*v.last().unwrap()).rev());
-    let mut s: BTreeMap<u64, u64> = v.iter().copied().map(|i| (i, ((i + 1) * i / 2).wrapping_sub(1))).collect();
+    v.extend((0..v.last().copied().unwrap_or(1)).rev());
+    let mut s: BTreeMap<u64, u64> = v.iter().copied().map(|i| (i, ((i + 1) * i / 2).saturating_sub(1))).collect();
     for p in 2..=r {
         if s[&p] > s[&(p - 1)] {
             // p is prime
-- 
2.43.0


From b19a4ddce0d086e541aaabb0379998092289f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 07/37] fix: prime_sum overflowed 64 bits in its intermediate
 sums from n = 2^32 on

---
 projects/sm-algorithm/src/prime/prime_sum.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/projects/sm-algorithm/src/prime/prime_sum.rs b/projects/sm-algorithm/src/prime/prime_sum.rs
index 62d2635..b40fb38 100644
--- a/projects/sm-algorithm/src/prime/prime_sum.rs
+++ b/projects/sm-algorithm/src/prime/prime_sum.rs
@@ -12,18 +12,24 @@ use std::{collections::BTreeMap, str::FromStr};
 
 #[rustfmt::skip]
 pub fn prime_sum_u64(n: u64) -> u64 {
+    prime_sum_u128(n).to_u64().expect("the sum of the primes does not fit in 64 bits")
+}
+
+// intermediate sums reach n * (n + 1) / 2, which needs more than 64 bits from n = 2^32 on
+#[rustfmt::skip]
+fn prime_sum_u128(n: u64) -> u128 {
     let r = n.sqrt() as u64;
     assert!(r * r <= n && (r + 1).pow(2) > n);
     let mut v = (1..=r).map(|i| n / i).collect_vec();
     v.extend((0..v.last().copied().unwrap_or(1)).rev());
-    let mut s: BTreeMap<u64, u64> = v.iter().copied().map(|i| (i, ((i + 1) * i / 2).saturating_sub(1))).collect();
+    let mut s: BTreeMap<u64, u128> = v.iter().copied().map(|i| (i, ((i as u128 + 1) * i as u128 / 2).saturating_sub(1))).collect();
     for p in 2..=r {
         if s[&p] > s[&(p - 1)] {
             // p is prime
             let (sp, p2) = (s[&(p - 1)], p * p);
             for &ve in &v {
                 if ve < p2 { break; }
-                *s.get_mut(&ve).unwrap() -= p * (s[&(ve / p)] - sp);
+                *s.get_mut(&ve).unwrap() -= p as u128 * (s[&(ve / p)] - sp);
             }
         }
     }
@@ -78,7 +84,7 @@ pub fn prime_sum_i(n: &BigInt) -> Result<BigInt> {
     }
     return match n.to_u64() {
         None => Err(Unimplemented),
-        Some(s) => Ok(BigInt::from(prime_sum_u64(s))),
+        Some(s) => Ok(BigInt::from(prime_sum_u128(s))),
     };
 }
 
-- 
2.43.0


From 044834707da56dbf274115980b7054d79a42b8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 08/37] fix: decimal literals with leading zeros after the dot
 were cut short (1.05 read as 1.0 5)

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8fc32f0..6f77739 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -146,7 +146,7 @@ Step = {expr}
 /*====================================================================================================================*/
 //!#D19A66: Integer|Decimal|Byte
 Number  = _{Byte|Decimal|Integer}
-Decimal = ${Integer ~ Dot ~ Integer}
+Decimal = ${Integer ~ Dot ~ ASCII_DIGIT+}
 Integer = @{"0"|Positive}
 Byte    = ${
     ^"0b" ~ (Underline? ~ ASCII_BIN_DIGIT)+
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index b3de4f1..aaca773 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -500,7 +500,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Decimal(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::Integer(state)))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::Decimal, |state| state.sequence(|state| self::Integer(state).and_then(|state| self::Dot(state)).and_then(|state| self::ASCII_DIGIT(state)).and_then(|state| state.repeat(|state| self::ASCII_DIGIT(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From f445664c6002a902d63f6ff9236e3920c5139647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 09/37] fix: the null literal named a namespace
 std::constant:Null instead of the symbol Null

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index df9e5df..414eca1 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -382,7 +382,7 @@ impl ParserSettings {
 
     fn parse_special(&self, pairs: Pair<Rule>) -> AST {
         match pairs.as_str() {
-            "null" => AST::symbol("std::constant:Null"),
+            "null" => AST::symbol("std::constant::Null"),
             "true" => AST::Boolean(true),
             "false" => AST::Boolean(false),
             _ => unreachable!(),
-- 
2.43.0


From b5b8562e0b49a7992b1b8288f51e728fdddf73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 10/37] fix: byte literals with digit separators panicked

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 414eca1..fb7683c 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -364,7 +364,7 @@ impl ParserSettings {
             _ => unreachable!(),
         };
         // It is impossible to get `from_str_radix` errors due to the constraints of the parser
-        let i = BigInt::from_str_radix(&s[2..s.len()], base).unwrap();
+        let i = BigInt::from_str_radix(&s[2..].replace("_", ""), base).unwrap();
         return AST::Integer(i);
     }
 
-- 
2.43.0


From 7663dbda271fcf030bf7373ed1a571a8e3fdc880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 11/37] fix: numbered sequence slots (##2) panicked

---
 projects/sm-ast/src/parser/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index fb7683c..b38d397 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -344,7 +344,7 @@ impl ParserSettings {
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::SYMBOL => slot.push(AST::string(pair.as_str())),
-                Rule::Integer => {
+                Rule::Integer | Rule::Positive => {
                     let i = BigInt::from_str(pair.as_str()).unwrap();
                     slot.push(AST::integer(i))
                 }
-- 
2.43.0


From a75be430be9f6bdb0343cca6f210539921ee0334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 12/37] fix: juxtaposed calls, decimals and byte literals
 panicked

---
 projects/sm-ast/src/parser/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index b38d397..a450bde 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -178,6 +178,9 @@ impl ParserSettings {
                 Rule::Integer => {
                     stack.push(self.parse_integer(pair));
                 }
+                Rule::Decimal => stack.push(self.parse_decimal(pair)),
+                Rule::Byte => stack.push(self.parse_byte(pair)),
+                Rule::apply_call => stack.push(self.parse_apply_call(pair)),
                 _ => debug_cases!(pair),
             };
         }
-- 
2.43.0


From ae69063cce1c7b213d2cd84eeb5ebb42b939cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 13/37] fix: unsupported constructs panicked in the parser
 instead of being reported as errors

---
 projects/sm-ast/src/error/mod.rs    |   5 +-
 projects/sm-ast/src/parser/ops.rs   |  21 +++--
 projects/sm-ast/src/parser/parse.rs | 136 ++++++++++++++--------------
 3 files changed, 81 insertions(+), 81 deletions(-)

diff --git a/projects/sm-ast/src/error/mod.rs b/projects/sm-ast/src/error/mod.rs
index d0efd9b..c2be21c 100644
--- a/projects/sm-ast/src/error/mod.rs
+++ b/projects/sm-ast/src/error/mod.rs
@@ -30,9 +30,6 @@ macro_rules! unimplemented_function {
 #[macro_export]
 macro_rules! debug_cases {
     ($i:ident) => {{
-        println!("Rule::{:?}=>continue,", $i.as_rule());
-        println!("Span: {:?}", $i.as_span());
-        println!("Text: {}", $i.as_str());
-        unreachable!();
+        return Err($crate::SMError::Unimplemented(format!("Unimplemented Rule: {:?} at {:?}", $i.as_rule(), $i.as_str())));
     }};
 }
diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 51dda46..b51b822 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -1,33 +1,36 @@
-use crate::ast::{Symbol, SymbolKind};
+use crate::{
+    ast::{Symbol, SymbolKind},
+    SMError, SMResult,
+};
 
-pub fn prefix_map(text: &str) -> Symbol {
+pub fn prefix_map(text: &str) -> SMResult<Symbol> {
     let n = match text {
         "+" => "plus",
         "-" => "minus",
         "*" => "unpack",
         "!" => "not",
-        _ => unreachable!(),
+        _ => return Err(SMError::Unimplemented(unimplemented_function!())),
     };
-    Symbol {
+    Ok(Symbol {
         name_space: vec![String::from("std"), String::from("prefix")],
         name: String::from(n),
         kind: SymbolKind::Prefix(Box::from(text)),
         attributes: 0,
-    }
+    })
 }
 
-pub fn suffix_map(text: &str) -> Symbol {
+pub fn suffix_map(text: &str) -> SMResult<Symbol> {
     let n = match text {
         "!" => "factorial",
         "!!" => "factorial2",
-        _ => unreachable!(),
+        _ => return Err(SMError::Unimplemented(unimplemented_function!())),
     };
-    Symbol {
+    Ok(Symbol {
         name_space: vec![String::from("std"), String::from("suffix")],
         name: String::from(n),
         kind: SymbolKind::Suffix(Box::from(text)),
         attributes: 0,
-    }
+    })
 }
 
 pub fn infix_map(text: &str) -> Symbol {
diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index a450bde..64f7c6b 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -1,7 +1,7 @@
 use crate::{
     ast::{Expression, Parameter, Position, Symbol},
     parser::{infix_map, prefix_map, suffix_map, ParserSettings, CLIMBER},
-    SMResult, ToWolfram, AST,
+    SMError, SMResult, ToWolfram, AST,
 };
 use bigdecimal::BigDecimal;
 use num::{BigInt, Num};
@@ -32,32 +32,32 @@ impl ParserSettings {
             match pair.as_rule() {
                 Rule::EOI => continue,
                 Rule::expression => {
-                    return Ok(self.parse_expression(pair).0);
+                    return Ok(self.parse_expression(pair)?.0);
                 }
-                Rule::COMMENT => continue,
+                Rule::COMMENT | Rule::emptyStatement => continue,
                 _ => debug_cases!(pair),
             };
         }
         return Ok(AST::EmptyStatement);
     }
 
-    fn parse_expression(&self, pairs: Pair<Rule>) -> (AST, bool) {
+    fn parse_expression(&self, pairs: Pair<Rule>) -> SMResult<(AST, bool)> {
         let mut eos = false;
         let mut base = AST::EmptyStatement;
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::expr => {
-                    base = self.parse_expr(pair);
+                    base = self.parse_expr(pair)?;
                 }
                 Rule::eos => eos = true,
                 _ => debug_cases!(pair),
             };
         }
-        return (base, eos);
+        return Ok((base, eos));
     }
 
     #[rustfmt::skip]
-    fn parse_expr(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_expr(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let position = self.get_position(pairs.as_span());
         CLIMBER.climb(
             pairs.into_inner(),
@@ -66,28 +66,28 @@ impl ParserSettings {
                 Rule::term => self.parse_term(pair),
                 _ => debug_cases!(pair),
             },
-            |lhs: AST, op: Pair<Rule>, rhs: AST| match op.as_rule() {
-                Rule::Dot => self.parse_dot_call(lhs, rhs, &position),
+            |lhs: SMResult<AST>, op: Pair<Rule>, rhs: SMResult<AST>| match op.as_rule() {
+                Rule::Dot => self.parse_dot_call(lhs?, rhs?, &position),
                 _ => {
                     let p = Parameter {
-                        arguments: vec![lhs, rhs],
+                        arguments: vec![lhs?, rhs?],
                         options: Default::default(),
                         position: position.clone(),
                     };
-                    AST::Function(infix_map(op.as_str()), vec![p])
+                    Ok(AST::Function(infix_map(op.as_str()), vec![p]))
                 }
             },
         )
     }
 
-    fn parse_term(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_term(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let mut base = AST::EmptyStatement;
         let mut prefix = vec![];
         let mut ps = vec![];
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::node => {
-                    base = self.parse_node(pair);
+                    base = self.parse_node(pair)?;
                 }
                 Rule::Prefix => {
                     ps.push(self.get_position(pair.as_span()));
@@ -96,12 +96,12 @@ impl ParserSettings {
                 Rule::Suffix => {
                     let position = self.get_position(pair.as_span());
                     let p = Parameter { arguments: vec![base], options: Default::default(), position };
-                    base = AST::Function(suffix_map(pair.as_str()), vec![p])
+                    base = AST::Function(suffix_map(pair.as_str())?, vec![p])
                 }
                 Rule::slice => {
                     let position = self.get_position(pair.as_span());
                     let mut new = vec![base];
-                    new.extend_from_slice(&self.parse_slice(pair));
+                    new.extend_from_slice(&self.parse_slice(pair)?);
                     let s = Symbol::from("std::core::Index");
                     let p = Parameter { arguments: new, options: Default::default(), position };
                     base = AST::Function(s, vec![p])
@@ -111,12 +111,12 @@ impl ParserSettings {
         }
         for (a, b) in prefix.iter().rev().zip(ps.iter().rev()) {
             let p = Parameter { arguments: vec![base], options: Default::default(), position: b.clone() };
-            base = AST::Function(prefix_map(a), vec![p])
+            base = AST::Function(prefix_map(a)?, vec![p])
         }
-        return base;
+        return Ok(base);
     }
 
-    fn parse_node(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_node(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let pair = pairs.clone().into_inner().nth(0).unwrap();
         match pair.as_rule() {
             Rule::expr => self.parse_expr(pair),
@@ -127,46 +127,46 @@ impl ParserSettings {
         }
     }
 
-    fn parse_dot_call(&self, lhs: AST, rhs: AST, position: &Position) -> AST {
+    fn parse_dot_call(&self, lhs: AST, rhs: AST, position: &Position) -> SMResult<AST> {
         return match rhs {
             AST::Symbol(rs) => {
                 // TODO: dot call resolve
                 // let s = Symbol::from("std::infix::dot_call");
                 // let p1 = Parameter { arguments: vec![AST::string(rs.name)], options: Default::default(), position: position.clone() };
                 let p2 = Parameter { arguments: vec![lhs], options: Default::default(), position: position.clone() };
-                AST::Function(rs, vec![p2])
+                Ok(AST::Function(rs, vec![p2]))
             }
             AST::Function(rs, mut p) => {
                 let old = &mut p[0].arguments;
                 let mut new = vec![lhs];
                 new.extend_from_slice(&old);
                 *old = new;
-                AST::Function(rs, p)
+                Ok(AST::Function(rs, p))
             }
             AST::Integer(i) => {
                 let s = Symbol::from("std::core::index");
                 let p = Parameter { arguments: vec![lhs, AST::integer(i)], options: Default::default(), position: position.clone() };
-                AST::Function(s, vec![p])
+                Ok(AST::Function(s, vec![p]))
             }
-            _ => unreachable!(),
+            _ => Err(SMError::Unimplemented(unimplemented_function!())),
         };
     }
 
-    fn parse_apply_call(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_apply_call(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let mut pairs = pairs.into_inner();
         let head = Symbol::from(pairs.next().unwrap().as_str());
         let mut stack = vec![];
         for pair in pairs {
             match pair.as_rule() {
                 // Rule::Symbol => unreachable!(),
-                Rule::apply => stack.push(self.parse_apply(pair)),
+                Rule::apply => stack.push(self.parse_apply(pair)?),
                 _ => debug_cases!(pair),
             };
         }
-        return AST::Function(head, stack);
+        return Ok(AST::Function(head, stack));
     }
 
-    fn parse_space_call(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_space_call(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let position = self.get_position(pairs.as_span());
         let mut stack = vec![];
         for pair in pairs.into_inner() {
@@ -176,19 +176,19 @@ impl ParserSettings {
                     stack.push(AST::symbol(pair.as_str()));
                 }
                 Rule::Integer => {
-                    stack.push(self.parse_integer(pair));
+                    stack.push(self.parse_integer(pair)?);
                 }
-                Rule::Decimal => stack.push(self.parse_decimal(pair)),
-                Rule::Byte => stack.push(self.parse_byte(pair)),
-                Rule::apply_call => stack.push(self.parse_apply_call(pair)),
+                Rule::Decimal => stack.push(self.parse_decimal(pair)?),
+                Rule::Byte => stack.push(self.parse_byte(pair)?),
+                Rule::apply_call => stack.push(self.parse_apply_call(pair)?),
                 _ => debug_cases!(pair),
             };
         }
         let p = Parameter { arguments: stack, options: Default::default(), position };
-        return AST::Function(infix_map("*"), vec![p]);
+        return Ok(AST::Function(infix_map("*"), vec![p]));
     }
 
-    fn parse_apply(&self, pairs: Pair<Rule>) -> Parameter {
+    fn parse_apply(&self, pairs: Pair<Rule>) -> SMResult<Parameter> {
         let position = self.get_position(pairs.as_span());
         let mut args = vec![];
         let mut kws = BTreeMap::new();
@@ -197,7 +197,7 @@ impl ParserSettings {
                 Rule::WHITESPACE => continue,
                 Rule::Comma => continue,
                 Rule::apply_kv => {
-                    let (k, v) = self.parse_apply_kv(pair);
+                    let (k, v) = self.parse_apply_kv(pair)?;
                     match k {
                         AST::EmptyStatement => args.push(v),
                         _ => {
@@ -208,35 +208,35 @@ impl ParserSettings {
                 _ => unreachable!(),
             };
         }
-        return Parameter { arguments: args, options: kws, position };
+        return Ok(Parameter { arguments: args, options: kws, position });
     }
 
-    fn parse_apply_kv(&self, pairs: Pair<Rule>) -> (AST, AST) {
+    fn parse_apply_kv(&self, pairs: Pair<Rule>) -> SMResult<(AST, AST)> {
         let (mut key, mut value) = (AST::EmptyStatement, AST::EmptyStatement);
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::Colon => continue,
                 Rule::SYMBOL => key = AST::symbol(pair.as_str()),
-                Rule::expr => value = self.parse_expr(pair),
+                Rule::expr => value = self.parse_expr(pair)?,
                 _ => unreachable!(),
             };
         }
-        return (key, value);
+        return Ok((key, value));
     }
 
-    fn parse_slice(&self, pairs: Pair<Rule>) -> Vec<AST> {
+    fn parse_slice(&self, pairs: Pair<Rule>) -> SMResult<Vec<AST>> {
         let mut slices = vec![];
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::Comma => continue,
-                Rule::index => slices.push(self.parse_index(pair)),
+                Rule::index => slices.push(self.parse_index(pair)?),
                 _ => unreachable!(),
             };
         }
-        return slices;
+        return Ok(slices);
     }
 
-    fn parse_index(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_index(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let position = self.get_position(pairs.as_span());
         let mut start = AST::integer(1);
         let mut end = AST::symbol("std::core::All");
@@ -246,15 +246,15 @@ impl ParserSettings {
                 Rule::Colon => continue,
                 Rule::Start => {
                     let e = pair.into_inner().nth(0).unwrap();
-                    start = self.parse_expr(e)
+                    start = self.parse_expr(e)?
                 }
                 Rule::End => {
                     let e = pair.into_inner().nth(0).unwrap();
-                    end = self.parse_expr(e)
+                    end = self.parse_expr(e)?
                 }
                 Rule::Step => {
                     let e = pair.into_inner().nth(0).unwrap();
-                    step = self.parse_expr(e);
+                    step = self.parse_expr(e)?;
                 }
                 Rule::expr => return self.parse_expr(pair),
                 _ => unreachable!(),
@@ -262,14 +262,14 @@ impl ParserSettings {
         }
         let s = Symbol::from("std::core::Span");
         let p = Parameter { arguments: vec![start, end, step], options: Default::default(), position };
-        return AST::Function(s, vec![p]);
+        return Ok(AST::Function(s, vec![p]));
     }
 
-    fn parse_data(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_data(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let pair = pairs.clone().into_inner().nth(0).unwrap();
         match pair.as_rule() {
             Rule::list => self.parse_list(pair),
-            Rule::Symbol => AST::symbol(pair.as_str()),
+            Rule::Symbol => Ok(AST::symbol(pair.as_str())),
             Rule::String => self.parse_string(pair),
             Rule::Decimal => self.parse_decimal(pair),
             Rule::Integer => self.parse_integer(pair),
@@ -281,22 +281,22 @@ impl ParserSettings {
         }
     }
 
-    fn parse_list(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_list(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let position = self.get_position(pairs.as_span());
         let mut v = vec![];
         for pair in pairs.into_inner() {
             match pair.as_rule() {
                 Rule::Comma => continue,
-                Rule::expr => v.push(self.parse_expr(pair)),
+                Rule::expr => v.push(self.parse_expr(pair)?),
                 _ => debug_cases!(pair),
             };
         }
         let s = Symbol::from("std::containers::List");
         let p = Parameter { arguments: v, options: Default::default(), position };
-        return AST::Function(s, vec![p]);
+        return Ok(AST::Function(s, vec![p]));
     }
 
-    fn parse_string(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_string(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let (mut s, mut h) = ("", "");
         for pair in pairs.into_inner() {
             match pair.as_rule() {
@@ -318,12 +318,12 @@ impl ParserSettings {
             };
         }
         match h {
-            "" => AST::string(s),
-            _ => AST::string(s),
+            "" => Ok(AST::string(s)),
+            _ => Ok(AST::string(s)),
         }
     }
 
-    fn parse_in_out(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_in_out(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let position = self.get_position(pairs.as_span());
         let mut head = vec![];
         let mut n = vec![];
@@ -337,10 +337,10 @@ impl ParserSettings {
             _ => unreachable!(),
         };
         let p = Parameter { arguments: vec![AST::integer(input)], options: Default::default(), position };
-        AST::Function(s, vec![p])
+        Ok(AST::Function(s, vec![p]))
     }
 
-    fn parse_slot(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_slot(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let position = self.get_position(pairs.as_span());
         let mut slot = vec![];
         let s = if pairs.as_str().starts_with("##") { Symbol::from("std::core::slot_sequence") } else { Symbol::from("std::core::slot") };
@@ -355,10 +355,10 @@ impl ParserSettings {
             };
         }
         let p = Parameter { arguments: slot, options: Default::default(), position };
-        AST::Function(s, vec![p])
+        Ok(AST::Function(s, vec![p]))
     }
 
-    fn parse_byte(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_byte(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let s = pairs.as_str();
         let base = match s.chars().nth(1).unwrap() {
             'x' | 'X' => 16,
@@ -368,26 +368,26 @@ impl ParserSettings {
         };
         // It is impossible to get `from_str_radix` errors due to the constraints of the parser
         let i = BigInt::from_str_radix(&s[2..].replace("_", ""), base).unwrap();
-        return AST::Integer(i);
+        return Ok(AST::Integer(i));
     }
 
-    fn parse_integer(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_integer(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         // It is impossible to get `from_str_radix` errors due to the constraints of the parser
         let i = BigInt::from_str_radix(pairs.as_str(), 10).unwrap();
-        return AST::Integer(i);
+        return Ok(AST::Integer(i));
     }
 
-    fn parse_decimal(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_decimal(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         // It is impossible to get `from_str_radix` errors due to the constraints of the parser
         let i = BigDecimal::from_str_radix(pairs.as_str(), 10).unwrap();
-        return AST::Decimal(i);
+        return Ok(AST::Decimal(i));
     }
 
-    fn parse_special(&self, pairs: Pair<Rule>) -> AST {
+    fn parse_special(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         match pairs.as_str() {
-            "null" => AST::symbol("std::constant::Null"),
-            "true" => AST::Boolean(true),
-            "false" => AST::Boolean(false),
+            "null" => Ok(AST::symbol("std::constant::Null")),
+            "true" => Ok(AST::Boolean(true)),
+            "false" => Ok(AST::Boolean(false)),
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From d7dd50a160565c1621e8d439475013d0a82b5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 14/37] fix: block comments inside expressions panicked

---
 projects/sm-ast/src/parser/parse.rs | 43 ++++++++++++++++-------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 64f7c6b..176c9a0 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -14,6 +14,11 @@ use std::{
     str::FromStr,
 };
 
+/// Inner pairs of a construct, without the block comments written between them
+fn inner_pairs(pair: Pair<Rule>) -> impl Iterator<Item = Pair<Rule>> {
+    pair.into_inner().filter(|p| p.as_rule() != Rule::MultiLineComment)
+}
+
 impl ParserSettings {
     pub fn parse_file(&self, path_from: &str, path_to: &str) -> SMResult<()> {
         let r = read_to_string(path_from)?;
@@ -34,7 +39,7 @@ impl ParserSettings {
                 Rule::expression => {
                     return Ok(self.parse_expression(pair)?.0);
                 }
-                Rule::COMMENT | Rule::emptyStatement => continue,
+                Rule::COMMENT | Rule::MultiLineComment | Rule::emptyStatement => continue,
                 _ => debug_cases!(pair),
             };
         }
@@ -44,7 +49,7 @@ impl ParserSettings {
     fn parse_expression(&self, pairs: Pair<Rule>) -> SMResult<(AST, bool)> {
         let mut eos = false;
         let mut base = AST::EmptyStatement;
-        for pair in pairs.into_inner() {
+        for pair in inner_pairs(pairs) {
             match pair.as_rule() {
                 Rule::expr => {
                     base = self.parse_expr(pair)?;
@@ -60,7 +65,7 @@ impl ParserSettings {
     fn parse_expr(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let position = self.get_position(pairs.as_span());
         CLIMBER.climb(
-            pairs.into_inner(),
+            inner_pairs(pairs),
             |pair: Pair<Rule>| match pair.as_rule() {
                 Rule::expr => self.parse_expr(pair),
                 Rule::term => self.parse_term(pair),
@@ -84,7 +89,7 @@ impl ParserSettings {
         let mut base = AST::EmptyStatement;
         let mut prefix = vec![];
         let mut ps = vec![];
-        for pair in pairs.into_inner() {
+        for pair in inner_pairs(pairs) {
             match pair.as_rule() {
                 Rule::node => {
                     base = self.parse_node(pair)?;
@@ -117,7 +122,7 @@ impl ParserSettings {
     }
 
     fn parse_node(&self, pairs: Pair<Rule>) -> SMResult<AST> {
-        let pair = pairs.clone().into_inner().nth(0).unwrap();
+        let pair = inner_pairs(pairs).nth(0).unwrap();
         match pair.as_rule() {
             Rule::expr => self.parse_expr(pair),
             Rule::data => self.parse_data(pair),
@@ -153,7 +158,7 @@ impl ParserSettings {
     }
 
     fn parse_apply_call(&self, pairs: Pair<Rule>) -> SMResult<AST> {
-        let mut pairs = pairs.into_inner();
+        let mut pairs = inner_pairs(pairs);
         let head = Symbol::from(pairs.next().unwrap().as_str());
         let mut stack = vec![];
         for pair in pairs {
@@ -169,7 +174,7 @@ impl ParserSettings {
     fn parse_space_call(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let position = self.get_position(pairs.as_span());
         let mut stack = vec![];
-        for pair in pairs.into_inner() {
+        for pair in inner_pairs(pairs) {
             match pair.as_rule() {
                 Rule::WHITESPACE => continue,
                 Rule::Symbol => {
@@ -192,7 +197,7 @@ impl ParserSettings {
         let position = self.get_position(pairs.as_span());
         let mut args = vec![];
         let mut kws = BTreeMap::new();
-        for pair in pairs.into_inner() {
+        for pair in inner_pairs(pairs) {
             match pair.as_rule() {
                 Rule::WHITESPACE => continue,
                 Rule::Comma => continue,
@@ -213,7 +218,7 @@ impl ParserSettings {
 
     fn parse_apply_kv(&self, pairs: Pair<Rule>) -> SMResult<(AST, AST)> {
         let (mut key, mut value) = (AST::EmptyStatement, AST::EmptyStatement);
-        for pair in pairs.into_inner() {
+        for pair in inner_pairs(pairs) {
             match pair.as_rule() {
                 Rule::Colon => continue,
                 Rule::SYMBOL => key = AST::symbol(pair.as_str()),
@@ -226,7 +231,7 @@ impl ParserSettings {
 
     fn parse_slice(&self, pairs: Pair<Rule>) -> SMResult<Vec<AST>> {
         let mut slices = vec![];
-        for pair in pairs.into_inner() {
+        for pair in inner_pairs(pairs) {
             match pair.as_rule() {
                 Rule::Comma => continue,
                 Rule::index => slices.push(self.parse_index(pair)?),
@@ -241,19 +246,19 @@ impl ParserSettings {
         let mut start = AST::integer(1);
         let mut end = AST::symbol("std::core::All");
         let mut step = AST::integer(1);
-        for pair in pairs.into_inner() {
+        for pair in inner_pairs(pairs) {
             match pair.as_rule() {
                 Rule::Colon => continue,
                 Rule::Start => {
-                    let e = pair.into_inner().nth(0).unwrap();
+                    let e = inner_pairs(pair).nth(0).unwrap();
                     start = self.parse_expr(e)?
                 }
                 Rule::End => {
-                    let e = pair.into_inner().nth(0).unwrap();
+                    let e = inner_pairs(pair).nth(0).unwrap();
                     end = self.parse_expr(e)?
                 }
                 Rule::Step => {
-                    let e = pair.into_inner().nth(0).unwrap();
+                    let e = inner_pairs(pair).nth(0).unwrap();
                     step = self.parse_expr(e)?;
                 }
                 Rule::expr => return self.parse_expr(pair),
@@ -266,7 +271,7 @@ impl ParserSettings {
     }
 
     fn parse_data(&self, pairs: Pair<Rule>) -> SMResult<AST> {
-        let pair = pairs.clone().into_inner().nth(0).unwrap();
+        let pair = inner_pairs(pairs).nth(0).unwrap();
         match pair.as_rule() {
             Rule::list => self.parse_list(pair),
             Rule::Symbol => Ok(AST::symbol(pair.as_str())),
@@ -284,7 +289,7 @@ impl ParserSettings {
     fn parse_list(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let position = self.get_position(pairs.as_span());
         let mut v = vec![];
-        for pair in pairs.into_inner() {
+        for pair in inner_pairs(pairs) {
             match pair.as_rule() {
                 Rule::Comma => continue,
                 Rule::expr => v.push(self.parse_expr(pair)?),
@@ -298,7 +303,7 @@ impl ParserSettings {
 
     fn parse_string(&self, pairs: Pair<Rule>) -> SMResult<AST> {
         let (mut s, mut h) = ("", "");
-        for pair in pairs.into_inner() {
+        for pair in inner_pairs(pairs) {
             match pair.as_rule() {
                 Rule::SYMBOL => h = pair.as_str(),
                 Rule::StringNormal => {
@@ -306,7 +311,7 @@ impl ParserSettings {
                     s = &h[1..h.len() - 1]
                 }
                 Rule::StringBlock => {
-                    for inner in pair.into_inner() {
+                    for inner in inner_pairs(pair) {
                         match inner.as_rule() {
                             Rule::Quotation => continue,
                             Rule::StringText => s = inner.as_str(),
@@ -344,7 +349,7 @@ impl ParserSettings {
         let position = self.get_position(pairs.as_span());
         let mut slot = vec![];
         let s = if pairs.as_str().starts_with("##") { Symbol::from("std::core::slot_sequence") } else { Symbol::from("std::core::slot") };
-        for pair in pairs.into_inner() {
+        for pair in inner_pairs(pairs) {
             match pair.as_rule() {
                 Rule::SYMBOL => slot.push(AST::string(pair.as_str())),
                 Rule::Integer | Rule::Positive => {
-- 
2.43.0


From 11b96ec468a6d68164945880d58ae5bb9f168a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 15/37] =?UTF-8?q?fix:=20=3D=20>=20%=20=E2=8B=85=20?=
 =?UTF-8?q?=E2=8A=97=20=E2=8A=99=20silently=20dropped=20the=20rest=20of=20?=
 =?UTF-8?q?the=20expression?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/parser/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/mod.rs b/projects/sm-ast/src/parser/mod.rs
index 67a130a..04631e0 100644
--- a/projects/sm-ast/src/parser/mod.rs
+++ b/projects/sm-ast/src/parser/mod.rs
@@ -12,14 +12,22 @@ pub struct ParserSettings {
 
 /// Determines the associativity and priority of operators
 /// use Precedence in Mathematica
-pub const OPERATORS: &[(Rule, u32, Assoc); 7] = &[
+pub const OPERATORS: &[(Rule, u32, Assoc); 13] = &[
+    // set: a = b
+    (Rule::Set, 40, Assoc::Right),
+    // greater: a > b
+    (Rule::Grater, 290, Assoc::Left),
     // plus : a + b
     // minus: a - b
     (Rule::Plus, 310, Assoc::Left),
     (Rule::Minus, 310, Assoc::Left),
     //
     (Rule::Multiply, 400, Assoc::Left),
+    (Rule::Modulo, 400, Assoc::Left),
+    (Rule::CenterDot, 410, Assoc::Left),
+    (Rule::Kronecker, 420, Assoc::Left),
     (Rule::Divide, 470, Assoc::Left),
+    (Rule::TensorProduct, 520, Assoc::Left),
     //
     (Rule::Power, 590, Assoc::Right),
     // @
-- 
2.43.0


From 58a8d63c08efb80a54714a9e46027553e9144969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 16/37] =?UTF-8?q?fix:=20=C3=97=20and=20=C3=B7=20were=20not?=
 =?UTF-8?q?=20the=20multiplication=20and=20division=20operators?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/parser/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index b51b822..56e234a 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -37,8 +37,8 @@ pub fn infix_map(text: &str) -> Symbol {
     let (n, p) = match text {
         "+" => ("add", 80),
         "-" => ("subtract", 80),
-        "*" => ("times", 140),
-        "/" => ("divide", 140),
+        "*" | "×" => ("times", 140),
+        "/" | "÷" => ("divide", 140),
         "//" => ("quotient", 140),
         "^" => ("power", 150),
         _ => (text, 170),
-- 
2.43.0


From ec612113adbd35d3f448e087795673f3072d8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 17/37] =?UTF-8?q?fix:=20the=20prefix=20operator=20=C2=AC?=
 =?UTF-8?q?=20was=20not=20recognised?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 projects/sm-ast/src/parser/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index 56e234a..be00dc5 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -8,7 +8,7 @@ pub fn prefix_map(text: &str) -> SMResult<Symbol> {
         "+" => "plus",
         "-" => "minus",
         "*" => "unpack",
-        "!" => "not",
+        "!" | "¬" => "not",
         _ => return Err(SMError::Unimplemented(unimplemented_function!())),
     };
     Ok(Symbol {
-- 
2.43.0


From 344e47b197e3a9898f1c24a23610ddc6fea500e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 18/37] fix: a.b! and a.b[1] passed the receiver to the postfix
 operation instead of the member

---
 projects/sm-ast/src/parser/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 176c9a0..4bc6674 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -141,6 +141,12 @@ impl ParserSettings {
                 let p2 = Parameter { arguments: vec![lhs], options: Default::default(), position: position.clone() };
                 Ok(AST::Function(rs, vec![p2]))
             }
+            // `a.b!` and `a.b[1]` apply to the member call `a.b`
+            AST::Function(rs, mut p) if (rs.is_suffix() || rs.to_string() == "std::core::Index") && !p[0].arguments.is_empty() => {
+                let member = p[0].arguments.remove(0);
+                p[0].arguments.insert(0, self.parse_dot_call(lhs, member, position)?);
+                Ok(AST::Function(rs, p))
+            }
             AST::Function(rs, mut p) => {
                 let old = &mut p[0].arguments;
                 let mut new = vec![lhs];
-- 
2.43.0


From 82c95a671774f0406ffe92587f1261c6d38449e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 19/37] fix: sums could not be evaluated because infix + is
 named add, not plus

---
 projects/sm-ast/src/evaluate/forward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 0d508b1..252078e 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -61,7 +61,7 @@ fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
         "length" => internal::length(&args[0])?,
         "factorial" => internal::factorial(&args[0])?,
         "fibonacci" => internal::fibonacci(&args[0])?,
-        "plus" => evaluate_additive(&args, ctx)?,
+        "add" | "plus" => evaluate_additive(&args, ctx)?,
         "times" => evaluate_multiplicative(&args, ctx)?,
         "power" => evaluate_power(&args, ctx)?,
         _ => {
-- 
2.43.0


From 0783c90a7af7828eeec3ececf72c3df1df410d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 20/37] fix: a negative or oversized exponent evaluated to the
 base

---
 projects/sm-ast/src/evaluate/forward.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 252078e..2823138 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -2,7 +2,7 @@ use crate::{
     ast::{Parameter, Symbol},
     internal, Context, SMError, SMResult, AST,
 };
-use num::{traits::Pow, ToPrimitive};
+use sm_algorithm::power_iu;
 
 type S = SMResult<AST>;
 
@@ -93,9 +93,9 @@ fn evaluate_multiplicative(vec: &[AST], _: &mut Context) -> S {
 
 fn evaluate_power(vec: &[AST], _: &mut Context) -> S {
     let out = match vec {
-        [AST::Integer(lhs), AST::Integer(rhs)] => match rhs.to_u64() {
-            None => AST::Integer(lhs.clone()),
-            Some(s) => AST::Integer(lhs.pow(s)),
+        [AST::Integer(lhs), AST::Integer(rhs)] => match rhs.to_biguint() {
+            None => return Err(SMError::Unimplemented(unimplemented_function!())),
+            Some(s) => AST::Integer(power_iu(lhs, &s)?),
         },
         _ => {
             return Err(SMError::Unimplemented(unimplemented_function!()));
-- 
2.43.0


From 496ad83815a061e1c1d8822b8c1a106c31b3e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 21/37] fix: factorial, fibonacci and prime_sum returned a
 decimal argument as the result and panicked on others

---
 projects/sm-ast/src/internal/elementary.rs    | 8 +++-----
 projects/sm-ast/src/internal/number_theory.rs | 5 ++---
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/projects/sm-ast/src/internal/elementary.rs b/projects/sm-ast/src/internal/elementary.rs
index 6ef050b..9712d36 100644
--- a/projects/sm-ast/src/internal/elementary.rs
+++ b/projects/sm-ast/src/internal/elementary.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::{factorial_i, fibonacci_i};
 
 pub fn sqrt(expr: &AST) -> SMResult<AST> {
@@ -63,16 +63,14 @@ pub fn log10(expr: &AST) -> SMResult<AST> {
 pub fn factorial(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(factorial_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
 pub fn fibonacci(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(fibonacci_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
diff --git a/projects/sm-ast/src/internal/number_theory.rs b/projects/sm-ast/src/internal/number_theory.rs
index 3518111..acd8dec 100644
--- a/projects/sm-ast/src/internal/number_theory.rs
+++ b/projects/sm-ast/src/internal/number_theory.rs
@@ -1,4 +1,4 @@
-use crate::{SMResult, AST};
+use crate::{SMError, SMResult, AST};
 use sm_algorithm::prime_sum_i;
 
 pub fn floor(expr: &AST) -> SMResult<AST> {
@@ -40,7 +40,6 @@ pub fn factor_integer(expr: &AST) -> SMResult<AST> {
 pub fn prime_sum(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::Integer(n) => Ok(AST::Integer(prime_sum_i(n)?)),
-        AST::Decimal(n) => Ok(AST::Decimal(n.clone())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
-- 
2.43.0


From 62c18f467fca43c20b59270bb0446143552d0351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 22/37] fix: first, last and length panicked on non-strings

---
 projects/sm-ast/src/internal/list_like.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index d367693..1e65ec5 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -1,4 +1,4 @@
-use crate::{error::SMError::EmptyContainer, SMResult, AST};
+use crate::{error::SMError::EmptyContainer, SMError, SMResult, AST};
 
 pub fn head(expr: &AST) -> AST {
     match expr {
@@ -19,7 +19,7 @@ pub fn head(expr: &AST) -> AST {
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
         AST::String(s) => Ok(AST::integer(s.len())),
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -29,7 +29,7 @@ pub fn first(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `first` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
@@ -39,7 +39,7 @@ pub fn last(expr: &AST) -> SMResult<AST> {
             None => Err(EmptyContainer(String::from("Can't call `last` on empty string"))),
             Some(s) => Ok(AST::string(s)),
         },
-        _ => unimplemented!(),
+        _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
 
-- 
2.43.0


From 45059dc4a57ea40412948b77ea974abb913ea82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 23/37] fix: length of a string counted bytes instead of
 characters

---
 projects/sm-ast/src/internal/list_like.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/internal/list_like.rs b/projects/sm-ast/src/internal/list_like.rs
index 1e65ec5..c6923b7 100644
--- a/projects/sm-ast/src/internal/list_like.rs
+++ b/projects/sm-ast/src/internal/list_like.rs
@@ -18,7 +18,7 @@ pub fn head(expr: &AST) -> AST {
 
 pub fn length(expr: &AST) -> SMResult<AST> {
     match expr {
-        AST::String(s) => Ok(AST::integer(s.len())),
+        AST::String(s) => Ok(AST::integer(s.chars().count())),
         _ => Err(SMError::Unimplemented(unimplemented_function!())),
     }
 }
-- 
2.43.0


From 3b5d625bd82803db4f3be40da296bc957f22c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 24/37] fix: calls without arguments panicked in the evaluator

---
 projects/sm-ast/src/evaluate/forward.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/forward.rs b/projects/sm-ast/src/evaluate/forward.rs
index 2823138..02c2eb5 100644
--- a/projects/sm-ast/src/evaluate/forward.rs
+++ b/projects/sm-ast/src/evaluate/forward.rs
@@ -10,7 +10,7 @@ impl AST {
     pub fn forward(&self, ctx: &mut Context) -> S {
         let out = match self {
             AST::EmptyStatement | AST::Boolean(..) | AST::Integer(..) | AST::Decimal(..) | AST::Symbol(..) | AST::String(..) => self.clone(),
-            AST::Program(_) => unimplemented!(),
+            AST::Program(_) => return Err(SMError::Unimplemented(unimplemented_function!())),
             AST::Function(s, p) => match p.len() {
                 0 => AST::Symbol(s.clone()),
                 1 => evaluate_function(s, p[0].clone(), ctx)?,
@@ -56,11 +56,11 @@ impl AST {
 fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
     let args = p.arguments;
     let out = match f.name.as_str() {
-        "first" => internal::first(&args[0])?,
-        "last" => internal::last(&args[0])?,
-        "length" => internal::length(&args[0])?,
-        "factorial" => internal::factorial(&args[0])?,
-        "fibonacci" => internal::fibonacci(&args[0])?,
+        "first" => internal::first(first_argument(&args)?)?,
+        "last" => internal::last(first_argument(&args)?)?,
+        "length" => internal::length(first_argument(&args)?)?,
+        "factorial" => internal::factorial(first_argument(&args)?)?,
+        "fibonacci" => internal::fibonacci(first_argument(&args)?)?,
         "add" | "plus" => evaluate_additive(&args, ctx)?,
         "times" => evaluate_multiplicative(&args, ctx)?,
         "power" => evaluate_power(&args, ctx)?,
@@ -71,6 +71,10 @@ fn evaluate_function(f: &Symbol, p: Parameter, ctx: &mut Context) -> S {
     Ok(out)
 }
 
+fn first_argument(args: &[AST]) -> SMResult<&AST> {
+    args.first().ok_or_else(|| SMError::Unimplemented(unimplemented_function!()))
+}
+
 fn evaluate_additive(vec: &[AST], _: &mut Context) -> S {
     let out = match vec {
         [AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(lhs + rhs),
-- 
2.43.0


From ba727ba32314a55cb94a294055486c869d3e9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 25/37] fix: asking for the last result panicked after a failed
 input

---
 projects/sm-ast/src/evaluate/traits.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/sm-ast/src/evaluate/traits.rs b/projects/sm-ast/src/evaluate/traits.rs
index e50dba7..5296119 100644
--- a/projects/sm-ast/src/evaluate/traits.rs
+++ b/projects/sm-ast/src/evaluate/traits.rs
@@ -1,4 +1,4 @@
-use crate::{parser::ParserSettings, Runner, SMResult, AST};
+use crate::{parser::ParserSettings, Runner, SMError, SMResult, AST};
 
 impl Default for Runner {
     fn default() -> Self {
@@ -29,7 +29,9 @@ impl Runner {
     }
 
     pub fn last(&self) -> SMResult<AST> {
-        let o = self.ctx.outputs.get(&self.ctx.index).unwrap();
-        Ok(o.clone())
+        match self.ctx.outputs.get(&self.ctx.index) {
+            Some(o) => Ok(o.clone()),
+            None => Err(SMError::EmptyContainer(String::from("The last input has no output"))),
+        }
     }
 }
-- 
2.43.0


From 85903da660b4f4f3a6f91787adb5cd5455a34e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 26/37] fix: printing a call, an empty statement or an oddly
 built operator panicked or printed nothing

---
 projects/sm-ast/src/ast/traits.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 92a523f..cbf9aed 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -13,12 +13,15 @@ use std::{
 impl Display for AST {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         match self {
-            AST::EmptyStatement => unimplemented!(),
-            AST::Program(_) => unimplemented!(),
+            AST::EmptyStatement => write!(f, ""),
+            AST::Program(v) => write!(f, "{}", v.iter().join("; ")),
             AST::Function(s, ps) => {
                 match &s.kind {
-                    SymbolKind::Normal => unimplemented!(),
-                    SymbolKind::Alias => unimplemented!(),
+                    SymbolKind::Normal | SymbolKind::Alias => {
+                        if s.to_string() == "std::containers::List" && ps.len() == 1 && ps[0].options.is_empty() {
+                            return write!(f, "[{}]", ps[0].arguments.iter().join(", "));
+                        }
+                    }
                     SymbolKind::Prefix(o) => {
                         if is_unary(ps) {
                             return write!(f, "{0}{1}", o, ps[0].arguments[0]);
@@ -40,7 +43,7 @@ impl Display for AST {
                         }
                     }
                 }
-                write!(f, "")
+                write!(f, "{}{}", s, ps.iter().join(""))
             }
             #[rustfmt::skip]
             AST::Boolean(b) => if *b { write!(f, "true") } else { write!(f, "false") },
@@ -58,6 +61,14 @@ impl Display for Symbol {
     }
 }
 
+impl Display for Parameter {
+    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
+        let args = self.arguments.iter().map(|e| e.to_string());
+        let options = self.options.iter().map(|(k, v)| format!("{}: {}", k, v));
+        write!(f, "({})", args.chain(options).join(", "))
+    }
+}
+
 impl Display for Position {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         write!(f, "{}", self.file)
-- 
2.43.0


From af3d176a6892d4fb9867f0527a6535bfe68b7367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 27/37] fix: printed expressions lost parentheses and read back
 as different expressions

---
 projects/sm-ast/src/ast/traits.rs | 29 ++++++++++++++++++++++++-----
 projects/sm-ast/src/parser/ops.rs |  8 +++++++-
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index cbf9aed..6f14832 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -4,7 +4,7 @@ use crate::{
 };
 use bigdecimal::BigDecimal;
 use itertools::Itertools;
-use num::{BigInt, One, Zero};
+use num::{BigInt, One, Signed, Zero};
 use std::{
     fmt,
     fmt::{Display, Formatter},
@@ -24,14 +24,17 @@ impl Display for AST {
                     }
                     SymbolKind::Prefix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{0}{1}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            return if arg.precedence() < 255 { write!(f, "{}({})", o, arg) } else { write!(f, "{}{}", o, arg) };
                         }
                     }
                     SymbolKind::Infix(o, p) => {
                         if is_multiary(ps) {
                             let mut v = vec![];
-                            for arg in &ps[0].arguments {
-                                if arg.precedence() < *p { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
+                            for (i, arg) in ps[0].arguments.iter().enumerate() {
+                                // the operand on the side the operator does not group to needs parentheses at equal precedence
+                                let grouped = arg.precedence() == *p && (i == 0) == s.is_right_associative();
+                                if arg.precedence() < *p || grouped { v.push(format!("({})", arg)) } else { v.push(format!("{}", arg)) }
                             }
                             // let j = if o.as_ref() == "*" { v.join(" ") } else { v.join(&format!(" {} ", o)) };
                             return write!(f, "{0}", v.join(o));
@@ -39,7 +42,8 @@ impl Display for AST {
                     }
                     SymbolKind::Suffix(o) => {
                         if is_unary(ps) {
-                            return write!(f, "{1}{0}", o, ps[0].arguments[0]);
+                            let arg = &ps[0].arguments[0];
+                            return if arg.precedence() < 255 || arg.is_signed_or_affixed() { write!(f, "({}){}", arg, o) } else { write!(f, "{}{}", arg, o) };
                         }
                     }
                 }
@@ -124,6 +128,15 @@ impl AST {
         }
         return 255;
     }
+    /// a negative number or a prefix / suffix operation, which an appended suffix operator would bind into
+    pub(crate) fn is_signed_or_affixed(&self) -> bool {
+        match self {
+            AST::Integer(i) => i.is_negative(),
+            AST::Decimal(n) => n.is_negative(),
+            AST::Function(s, ..) => s.is_prefix() || s.is_suffix(),
+            _ => false,
+        }
+    }
 }
 
 #[allow(dead_code)]
@@ -185,6 +198,12 @@ impl AST {
 
 #[allow(dead_code)]
 impl Symbol {
+    pub(crate) fn is_right_associative(&self) -> bool {
+        match &self.kind {
+            SymbolKind::Infix(o, _) => o.as_ref() == "^" || o.as_ref() == "=",
+            _ => false,
+        }
+    }
     pub(crate) fn is_prefix(&self) -> bool {
         match self.kind {
             SymbolKind::Prefix(..) => true,
diff --git a/projects/sm-ast/src/parser/ops.rs b/projects/sm-ast/src/parser/ops.rs
index be00dc5..63e3c0e 100644
--- a/projects/sm-ast/src/parser/ops.rs
+++ b/projects/sm-ast/src/parser/ops.rs
@@ -35,11 +35,17 @@ pub fn suffix_map(text: &str) -> SMResult<Symbol> {
 
 pub fn infix_map(text: &str) -> Symbol {
     let (n, p) = match text {
+        "=" => (text, 10),
+        ">" => (text, 70),
         "+" => ("add", 80),
         "-" => ("subtract", 80),
         "*" | "×" => ("times", 140),
-        "/" | "÷" => ("divide", 140),
+        "/" | "÷" => ("divide", 145),
         "//" => ("quotient", 140),
+        "%" => (text, 140),
+        "⋅" => (text, 141),
+        "⊗" => (text, 142),
+        "⊙" => (text, 148),
         "^" => ("power", 150),
         _ => (text, 170),
     };
-- 
2.43.0


From 291a63b1a0c564f244645ac4c2766a6832d50f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 28/37] fix: TeX output dropped operands and printed operator
 names, and panicked on prefix, suffix and empty lists

---
 projects/sm-ast/src/ast/mod.rs          |  1 +
 projects/sm-ast/src/traits/tex/mod.rs   | 26 ++++++++++++-------------
 projects/sm-ast/src/traits/tex/utils.rs | 16 +++++++--------
 3 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/projects/sm-ast/src/ast/mod.rs b/projects/sm-ast/src/ast/mod.rs
index 10219a9..a0d94f9 100644
--- a/projects/sm-ast/src/ast/mod.rs
+++ b/projects/sm-ast/src/ast/mod.rs
@@ -3,6 +3,7 @@ use num::BigInt;
 use std::collections::BTreeMap;
 
 mod traits;
+pub(crate) use traits::is_multiary;
 
 #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
 pub enum AST {
diff --git a/projects/sm-ast/src/traits/tex/mod.rs b/projects/sm-ast/src/traits/tex/mod.rs
index d7278b6..474e8d2 100644
--- a/projects/sm-ast/src/traits/tex/mod.rs
+++ b/projects/sm-ast/src/traits/tex/mod.rs
@@ -1,6 +1,9 @@
 mod utils;
 
-use crate::{ast::Parameter, ToTex, AST};
+use crate::{
+    ast::{is_multiary, Parameter, SymbolKind},
+    ToTex, AST,
+};
 use itertools::Itertools;
 use utils::{infix_tex, omit_brackets_function};
 
@@ -14,27 +17,26 @@ impl ToTex for AST {
     fn to_tex(&self) -> String {
         match (*self).clone() {
             AST::EmptyStatement => format!(""),
-            AST::Program(_) => unimplemented!(),
+            AST::Program(v) => v.iter().map(AST::to_tex).collect_vec().join("; "),
             AST::Integer(i) => format!("{}", i),
             AST::Decimal(f) => format!("{}", f),
             AST::Symbol(s) => format!("{}", s.name),
             AST::String(s) => format!(r"\\text{{{}}}", s),
             AST::Function(s, p) => {
-                match s.name_space.iter().map(|e| e.as_str()).collect_vec().as_slice() {
-                    ["std", "prefix"] => unimplemented!(),
-                    ["std", "infix"] => return infix_tex(&s, &p[0]),
-                    ["std", "suffix"] => unimplemented!(),
+                match s.kind {
+                    SymbolKind::Prefix(..) | SymbolKind::Suffix(..) => return format!("{}", self),
+                    SymbolKind::Infix(ref o, _) if is_multiary(&p) => return infix_tex(&s, o, &p[0]),
                     _ => (),
                 }
                 match s.name.as_ref() {
-                    "sin" | "cos" | "tan" | "cot" | "sec" | "csc" | "arcsin" | "arccos" | "arctan" => {
+                    "sin" | "cos" | "tan" | "cot" | "sec" | "csc" | "arcsin" | "arccos" | "arctan" if p.len() == 1 => {
                         format!(r"\\{}{}", s, omit_brackets_function(&p[0]))
                     }
-                    "arccot" | "arcsec" | "arccsc" | "arcsinh" | "arccosh" | "arctanh" | "arccoth" | "arcsech" | "arccsch" => {
+                    "arccot" | "arcsec" | "arccsc" | "arcsinh" | "arccosh" | "arctanh" | "arccoth" | "arcsech" | "arccsch" if p.len() == 1 => {
                         format!(r"\\operatorname{{{}}}{}", s, omit_brackets_function(&p[0]))
                     }
-                    "List" => {
-                        let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap();
+                    "List" if p.len() == 1 => {
+                        let max = p[0].arguments.iter().map(|e| e.height()).max().unwrap_or(1);
                         let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();
                         if max > 1 { format!(r"\\left\\{{{}\\right\\}}", e.join(", ")) } else { format!(r"\\{{{}\\}}", e.join(", ")) }
                     }
@@ -71,9 +73,7 @@ impl BoxArea for AST {
             AST::EmptyStatement => 0,
             AST::Program(_) => 1,
             AST::Function(s, p) => match s.name_space.iter().map(|e| e.as_str()).collect_vec().as_slice() {
-                ["std", "prefix"] => unimplemented!(),
-                ["std", "infix"] => p[0].arguments.len(),
-                ["std", "suffix"] => unimplemented!(),
+                ["std", "infix"] => p.iter().map(Parameter::width).sum(),
                 _ => 1,
             },
             _ => 1,
diff --git a/projects/sm-ast/src/traits/tex/utils.rs b/projects/sm-ast/src/traits/tex/utils.rs
index 44f1474..c77dcfe 100644
--- a/projects/sm-ast/src/traits/tex/utils.rs
+++ b/projects/sm-ast/src/traits/tex/utils.rs
@@ -5,15 +5,13 @@ use crate::{
 };
 use itertools::Itertools;
 
-pub(crate) fn infix_tex(s: &Symbol, p: &Parameter) -> String {
-    let lhs = &p.arguments[0];
-    let rhs = &p.arguments[1];
-    let ops = match s.name.as_str() {
-        "add" => "+",
-        "times" => return format!("{} {}", lhs, rhs),
-        _ => &s.name,
-    };
-    format!("{} {} {}", lhs, ops, rhs)
+pub(crate) fn infix_tex(s: &Symbol, op: &str, p: &Parameter) -> String {
+    let terms = &p.arguments;
+    match s.name.as_str() {
+        "times" => terms.iter().join(" "),
+        "power" => format!("{}{}", terms.iter().join("^{"), "}".repeat(terms.len() - 1)),
+        _ => terms.iter().join(&format!(" {} ", op)),
+    }
 }
 
 pub(crate) fn omit_brackets_function(p: &Parameter) -> String {
-- 
2.43.0


From 6606dfb64e0f94defcd0edc0d2d2dacce7ab8911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 29/37] fix: identifiers starting with null, true or false were
 read as the literal, dropping the rest

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 6f77739..e9be1b8 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -168,7 +168,7 @@ SYMBOL = @{
 }
 /*====================================================================================================================*/
 ///#D19A66
-Special  = @{"null"|"true"|"false"}
+Special  = @{("null"|"true"|"false") ~ !XID_CONTINUE}
 Slot     = ${"##" ~ Positive?|"#" ~ (SYMBOL|Integer)?}
 REPL     = @{"¶" ~ Positive|"¶"+| "⁋" ~ Positive|"⁋"+}
 Positive = @{ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index aaca773..271cef9 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -545,7 +545,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Special(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Special, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("null").or_else(|state| state.match_string("true")).or_else(|state| state.match_string("false"))))
+                    state.rule(Rule::Special, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("null").or_else(|state| state.match_string("true")).or_else(|state| state.match_string("false")).and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 92b12daa866206810bef5c28ebaf14ce4214ea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 30/37] fix: identifiers starting with a statement keyword
 (letter, passage) were read as statements

---
 projects/sm-parser/simple-math.pest | 27 +++++++++------
 projects/sm-parser/src/sm_parser.rs | 53 ++++++++++++++++++++++++-----
 2 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index e9be1b8..8a0cd75 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -20,8 +20,8 @@ block_or_stmt = _{block|Set ~ statement}
 /*====================================================================================================================*/
 //FIXME: 修复 nested using
 importStatement = {
-    "using" ~ Dot* ~ use_alias
-  | "using" ~ Dot* ~ use_module_select
+    Using ~ Dot* ~ use_alias
+  | Using ~ Dot* ~ use_module_select
 }
 use_alias = !{String ~ As ~ SYMBOL|SYMBOL ~ (ModuleSplit ~ SYMBOL)* ~As~SYMBOL}
 use_module_select = !{SYMBOL ~ (ModuleSplit ~ SYMBOL)* ~(ModuleSplit ~ (module_block|Star))?}
@@ -52,22 +52,27 @@ re_control = {
 }
 
 //!#C678DD: Return|Yield|Break|Pass
-Return = @{"return"}
+Return = @{"return" ~ !XID_CONTINUE}
 Yield = @{"yield"}
-Break = @{"break"}
-Pass = @{"pass"}
+Break = @{"break" ~ !XID_CONTINUE}
+Pass = @{"pass" ~ !XID_CONTINUE}
+Using = @{"using" ~ !XID_CONTINUE}
+Class = @{"class" ~ !XID_CONTINUE}
+Trait = @{"trait" ~ !XID_CONTINUE}
+Let = @{"let" ~ !XID_CONTINUE}
+Def = @{"def" ~ !XID_CONTINUE}
 /*====================================================================================================================*/
 ///#C678DD
 Type = @{"type"}
 /*====================================================================================================================*/
-classStatement = {"class" ~ assign_pair ~ short_block?}
-traitStatement = {"trait" ~ assign_pair ~ short_block?}
+classStatement = {Class ~ assign_pair ~ short_block?}
+traitStatement = {Trait ~ assign_pair ~ short_block?}
 
 short_block = {"{" ~ short_statement* ~ "}"}
 short_statement = {
     emptyStatement
-  | "def"? ~ define_terms ~ eos?
-  | "let"? ~ assign_terms ~ eos?
+  | Def? ~ define_terms ~ eos?
+  | Let? ~ assign_terms ~ eos?
   | short_annotation ~ eos?
 }
 short_annotation = {annotation_call+~short_statement}
@@ -78,7 +83,7 @@ extendStatement = {
 with_trait = {"with" ~ Symbol}
 //!#C678DD: Extend|With
 /*====================================================================================================================*/
-assignStatement = {"let" ~ assign_terms}
+assignStatement = {Let ~ assign_terms}
 assign_terms = _{
     "(" ~ assign_name ~ ")" ~ type_hint? ~ block_or_stmt?
   | assign_name ~ type_hint? ~ block_or_stmt?
@@ -86,7 +91,7 @@ assign_terms = _{
 assign_name = _{assign_pair ~ (Comma ~ assign_pair)* ~ Comma?}
 assign_pair = {Symbol}
 /*====================================================================================================================*/
-defineStatement = {"def" ~ define_terms}
+defineStatement = {Def ~ define_terms}
 define_terms = _{ 
     assign_pair ~ define_parameter ~ type_hint? ~ block_or_stmt?
 }
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 271cef9..4b198ed 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -26,6 +26,11 @@ pub enum Rule {
     Yield,
     Break,
     Pass,
+    Def,
+    Let,
+    Trait,
+    Class,
+    Using,
     Type,
     classStatement,
     traitStatement,
@@ -200,7 +205,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn importStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::importStatement, |state| state.sequence(|state| state.match_string("using").and_then(|state| super::hidden::skip(state)).and_then(|state| state.sequence(|state| state.optional(|state| self::Dot(state).and_then(|state| state.repeat(|state| state.sequence(|state| super::hidden::skip(state).and_then(|state| self::Dot(state)))))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| self::use_alias(state)).or_else(|state| state.restore_on_err(|state| self::use_module_select(state))))))
+                    state.rule(Rule::importStatement, |state| state.sequence(|state| self::Using(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.sequence(|state| state.optional(|state| self::Dot(state).and_then(|state| state.repeat(|state| state.sequence(|state| super::hidden::skip(state).and_then(|state| self::Dot(state)))))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| self::use_alias(state)).or_else(|state| state.restore_on_err(|state| self::use_module_select(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -265,7 +270,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Return(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Return, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("return")))
+                    state.rule(Rule::Return, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("return").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -275,12 +280,37 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Break(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Break, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("break")))
+                    state.rule(Rule::Break, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("break").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn Pass(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Pass, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.match_string("pass")))
+                    state.rule(Rule::Pass, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("pass").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn Using(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Using, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("using").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn Class(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Class, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("class").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn Trait(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Trait, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("trait").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn Let(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Let, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("let").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn Def(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Def, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("def").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -290,12 +320,12 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn classStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::classStatement, |state| state.sequence(|state| state.match_string("class").and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_pair(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::short_block(state))))))
+                    state.rule(Rule::classStatement, |state| state.sequence(|state| self::Class(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_pair(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::short_block(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn traitStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::traitStatement, |state| state.sequence(|state| state.match_string("trait").and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_pair(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::short_block(state))))))
+                    state.rule(Rule::traitStatement, |state| state.sequence(|state| self::Trait(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_pair(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::short_block(state))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -305,7 +335,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn short_statement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::short_statement, |state| self::emptyStatement(state).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.optional(|state| state.match_string("def")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::define_terms(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.optional(|state| state.match_string("let")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_terms(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::short_annotation(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))))
+                    state.rule(Rule::short_statement, |state| self::emptyStatement(state).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.optional(|state| self::Def(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::define_terms(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.optional(|state| self::Let(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_terms(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::short_annotation(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -325,7 +355,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn assignStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::assignStatement, |state| state.sequence(|state| state.match_string("let").and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_terms(state))))
+                    state.rule(Rule::assignStatement, |state| state.sequence(|state| self::Let(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::assign_terms(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -345,7 +375,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn defineStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::defineStatement, |state| state.sequence(|state| state.match_string("def").and_then(|state| super::hidden::skip(state)).and_then(|state| self::define_terms(state))))
+                    state.rule(Rule::defineStatement, |state| state.sequence(|state| self::Def(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::define_terms(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -1009,6 +1039,11 @@ impl ::pest::Parser<Rule> for SMParser {
             Rule::Yield => rules::Yield(state),
             Rule::Break => rules::Break(state),
             Rule::Pass => rules::Pass(state),
+            Rule::Def => rules::Def(state),
+            Rule::Let => rules::Let(state),
+            Rule::Trait => rules::Trait(state),
+            Rule::Class => rules::Class(state),
+            Rule::Using => rules::Using(state),
             Rule::Type => rules::Type(state),
             Rule::classStatement => rules::classStatement(state),
             Rule::traitStatement => rules::traitStatement(state),
-- 
2.43.0


From d451528d0c7f1b1187477f75ae58745391b7b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 31/37] fix: spaces, line breaks and comments next to
 parentheses were rejected

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 8a0cd75..91c2872 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -119,7 +119,7 @@ function_module = {Dot ~ (SYMBOL ~ Dot)*}
 expression =  {expr~eos?}
 expr       = !{term ~ (Infix ~ term)*}
 term       = ${Prefix* ~ node ~ (Suffix|(!NEWLINE ~ WHITESPACE)* ~ slice)*}
-node       =  {"(" ~ expr ~ ")"|apply_call|derivative|space_call|data}
+node       =  {"(" ~ (WHITESPACE|COMMENT)* ~ expr ~ (WHITESPACE|COMMENT)* ~ ")"|apply_call|derivative|space_call|data}
 apply_call = ${Symbol ~ ((!NEWLINE ~ WHITESPACE)* ~ apply)+}
 derivative = ${Symbol ~ Derivative ~ (!NEWLINE ~ WHITESPACE)* ~ apply}
 space_call = ${(apply_call|Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 4b198ed..196e21a 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -440,7 +440,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn node(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state))))
+                    state.rule(Rule::node, |state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| state.repeat(|state| self::WHITESPACE(state).or_else(|state| self::COMMENT(state)))).and_then(|state| self::expr(state)).and_then(|state| state.repeat(|state| self::WHITESPACE(state).or_else(|state| self::COMMENT(state)))).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::apply_call(state))).or_else(|state| state.restore_on_err(|state| self::derivative(state))).or_else(|state| state.restore_on_err(|state| self::space_call(state))).or_else(|state| state.restore_on_err(|state| self::data(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From a44e12feb0493b3668eb71559631dea8d566e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 32/37] fix: a second block comment swallowed the text between
 the two

---
 projects/sm-parser/simple-math.pest | 2 +-
 projects/sm-parser/src/sm_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 91c2872..b712875 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -187,7 +187,7 @@ COMMENT = _{
   | "//!" ~ (!NEWLINE ~ ANY)* //fixme
   | "//*" ~ (!NEWLINE ~ ANY)* //warning
 }
-MultiLineComment = ${ "%%%" ~ (MultiLineComment | !"%%%" ~ ANY)* ~ "%%%"}
+MultiLineComment = ${ "%%%" ~ (!"%%%" ~ ANY)* ~ "%%%"}
 /*====================================================================================================================*/
 //!#56B6C2: Prefix|Infix|Postfix
 Prefix = @{
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 196e21a..ac0d4f1 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -605,7 +605,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn MultiLineComment(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::MultiLineComment, |state| state.sequence(|state| state.match_string("%%%").and_then(|state| state.repeat(|state| self::MultiLineComment(state).or_else(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| self::ANY(state)))))).and_then(|state| state.match_string("%%%")))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::MultiLineComment, |state| state.sequence(|state| state.match_string("%%%").and_then(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| state.match_string("%%%")).and_then(|state| self::ANY(state))))).and_then(|state| state.match_string("%%%")))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 7ffeb44ecb90dd6f10404a2fae5dfcd7d4148b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 33/37] fix: of several expressions all but the first were
 dropped

---
 projects/sm-ast/src/parser/parse.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 4bc6674..4d95a53 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -33,17 +33,20 @@ impl ParserSettings {
 
     pub fn parse(&self, text: &str) -> SMResult<AST> {
         let pairs = SMParser::parse(Rule::program, text)?;
+        let mut statements = vec![];
         for pair in pairs {
             match pair.as_rule() {
                 Rule::EOI => continue,
-                Rule::expression => {
-                    return Ok(self.parse_expression(pair)?.0);
-                }
+                Rule::expression => statements.push(self.parse_expression(pair)?.0),
                 Rule::COMMENT | Rule::MultiLineComment | Rule::emptyStatement => continue,
                 _ => debug_cases!(pair),
             };
         }
-        return Ok(AST::EmptyStatement);
+        match statements.len() {
+            0 => Ok(AST::EmptyStatement),
+            1 => Ok(statements.remove(0)),
+            _ => Ok(AST::Program(statements)),
+        }
     }
 
     fn parse_expression(&self, pairs: Pair<Rule>) -> SMResult<(AST, bool)> {
-- 
2.43.0


From a512efdc365b7f2871e7f5958ab2209fd1a02fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 34/37] fix: parsing nested indexes and calls took time
 exponential in the depth

'a[a[a[...' tripled the work with every level (a dozen levels never
finished), and unclosed 'f(f(f(...' and nested slices doubled it,
because alternatives of index and space_call started with the same
nested construct.
---
 projects/sm-ast/src/parser/parse.rs | 7 +++++--
 projects/sm-parser/simple-math.pest | 7 +++----
 projects/sm-parser/src/sm_parser.rs | 4 ++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/projects/sm-ast/src/parser/parse.rs b/projects/sm-ast/src/parser/parse.rs
index 4d95a53..0d68df2 100644
--- a/projects/sm-ast/src/parser/parse.rs
+++ b/projects/sm-ast/src/parser/parse.rs
@@ -255,9 +255,10 @@ impl ParserSettings {
         let mut start = AST::integer(1);
         let mut end = AST::symbol("std::core::All");
         let mut step = AST::integer(1);
+        let mut is_span = false;
         for pair in inner_pairs(pairs) {
             match pair.as_rule() {
-                Rule::Colon => continue,
+                Rule::Colon => is_span = true,
                 Rule::Start => {
                     let e = inner_pairs(pair).nth(0).unwrap();
                     start = self.parse_expr(e)?
@@ -270,10 +271,12 @@ impl ParserSettings {
                     let e = inner_pairs(pair).nth(0).unwrap();
                     step = self.parse_expr(e)?;
                 }
-                Rule::expr => return self.parse_expr(pair),
                 _ => unreachable!(),
             };
         }
+        if !is_span {
+            return Ok(start);
+        }
         let s = Symbol::from("std::core::Span");
         let p = Parameter { arguments: vec![start, end, step], options: Default::default(), position };
         return Ok(AST::Function(s, vec![p]));
diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index b712875..3840636 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -122,7 +122,7 @@ term       = ${Prefix* ~ node ~ (Suffix|(!NEWLINE ~ WHITESPACE)* ~ slice)*}
 node       =  {"(" ~ (WHITESPACE|COMMENT)* ~ expr ~ (WHITESPACE|COMMENT)* ~ ")"|apply_call|derivative|space_call|data}
 apply_call = ${Symbol ~ ((!NEWLINE ~ WHITESPACE)* ~ apply)+}
 derivative = ${Symbol ~ Derivative ~ (!NEWLINE ~ WHITESPACE)* ~ apply}
-space_call = ${(apply_call|Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
+space_call = ${(Number|Symbol) ~ ((!NEWLINE ~ WHITESPACE)* ~ (apply_call|Number|Symbol))+}
 /*====================================================================================================================*/
 //!#E06C75: type_hint|generic_type|parametric_types_pair
 type_expr = _{term~ (TypeInfix ~term)*}
@@ -141,9 +141,8 @@ slice = !{"[" ~ index ~ (Comma ~ index)* ~ Comma? ~ "]"}
 key_valid =!{Integer | SYMBOL | String}
 key_value =!{key_valid ~ Colon ~ expr}
 index ={
-    Start? ~ Colon ~ End? ~ Colon ~ Step?
-  | Start? ~ Colon ~ End?
-  | expr
+    Colon ~ End? ~ (Colon ~ Step?)?
+  | Start ~ (Colon ~ End? ~ (Colon ~ Step?)?)?
 }
 Start = {expr}
 End = {expr}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index ac0d4f1..dec4a60 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -455,7 +455,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn space_call(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::space_call, |state| state.sequence(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)).and_then(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))).and_then(|state| state.repeat(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)))))))))
+                    state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::space_call, |state| state.sequence(|state| self::Number(state).or_else(|state| self::Symbol(state)).and_then(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state))))).and_then(|state| state.repeat(|state| state.sequence(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::WHITESPACE(state)))).and_then(|state| state.restore_on_err(|state| self::apply_call(state)).or_else(|state| self::Number(state)).or_else(|state| self::Symbol(state)))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -505,7 +505,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn index(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::index, |state| state.sequence(|state| state.optional(|state| state.restore_on_err(|state| self::Start(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state))))).or_else(|state| state.sequence(|state| state.optional(|state| state.restore_on_err(|state| self::Start(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Colon(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))))).or_else(|state| state.restore_on_err(|state| self::expr(state))))
+                    state.rule(Rule::index, |state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state)))))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| self::Start(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::End(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.sequence(|state| self::Colon(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| self::Step(state))))))))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-- 
2.43.0


From 433ab423ef918166a13c61570bccca198bf61ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 35/37] fix: names qualified with the single-character
 separator were not split
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The grammar reads 'a∷b' like 'a::b', but the symbol was left unqualified
and named 'a∷b' as a whole.
---
 projects/sm-ast/src/ast/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/sm-ast/src/ast/traits.rs b/projects/sm-ast/src/ast/traits.rs
index 6f14832..82fe958 100644
--- a/projects/sm-ast/src/ast/traits.rs
+++ b/projects/sm-ast/src/ast/traits.rs
@@ -81,7 +81,7 @@ impl Display for Position {
 
 impl From<&str> for Symbol {
     fn from(s: &str) -> Self {
-        let mut ns = s.split("::").map(String::from).collect_vec();
+        let mut ns = s.split("::").flat_map(|e| e.split('∷')).map(String::from).collect_vec();
         let n = ns.pop().unwrap();
         Symbol { name_space: ns, name: n, kind: SymbolKind::Normal, attributes: 0 }
     }
-- 
2.43.0


From 7498e9c95a4da8fa0860a0d0cb1d3d40126fc523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 36/37] fix: a control statement opening with a keyword took
 time exponential in the nesting

---
 projects/sm-parser/simple-math.pest | 13 +++++++----
 projects/sm-parser/src/sm_parser.rs | 36 +++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 3840636..2c710ac 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -35,14 +35,14 @@ controlFlow = _{re_control|if_statement|for_statement}
 block = !{"{" ~ statement+ ~ "}"}
 /*====================================================================================================================*/
 if_statement = {
-    "if" ~ ("(" ~ expr ~ ")"|expr) ~ (
+    If ~ ("(" ~ expr ~ ")"|!Opening ~ expr) ~ (
         ("then" ~ block) ~ ("else" ~ block)? ~ ("otherwise" ~ block)?
     |  "{" ~ statement ~ (Comma ~ statement)? ~ (Comma ~ statement)? ~ Comma? ~ "}"
     )
 }
 /*====================================================================================================================*/
-for_statement = {"for" ~ for_in_loop}
-for_in_loop = {SYMBOL~"in"~expr~block}
+for_statement = {For ~ for_in_loop}
+for_in_loop = {SYMBOL~"in"~!Opening~expr~block}
 //!#C678DD: For|In
 /*====================================================================================================================*/
 re_control = {
@@ -61,6 +61,11 @@ Class = @{"class" ~ !XID_CONTINUE}
 Trait = @{"trait" ~ !XID_CONTINUE}
 Let = @{"let" ~ !XID_CONTINUE}
 Def = @{"def" ~ !XID_CONTINUE}
+If = @{"if" ~ !XID_CONTINUE}
+For = @{"for" ~ !XID_CONTINUE}
+Extends = @{"extends" ~ !XID_CONTINUE}
+// opens a statement with a block: neither a condition nor a sequence starts with it
+Opening = _{If|For|Class|Trait|Extends|Let|Def}
 /*====================================================================================================================*/
 ///#C678DD
 Type = @{"type"}
@@ -78,7 +83,7 @@ short_statement = {
 short_annotation = {annotation_call+~short_statement}
 /*====================================================================================================================*/
 extendStatement = {
-    "extends" ~ Symbol ~ with_trait? ~ short_block
+    Extends ~ Symbol ~ with_trait? ~ short_block
 }
 with_trait = {"with" ~ Symbol}
 //!#C678DD: Extend|With
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index dec4a60..9377243 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -26,6 +26,10 @@ pub enum Rule {
     Yield,
     Break,
     Pass,
+    If,
+    For,
+    Extends,
+    Opening,
     Def,
     Let,
     Trait,
@@ -250,17 +254,17 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn if_statement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::if_statement, |state| state.sequence(|state| state.match_string("if").and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::expr(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("then").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("else").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("otherwise").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)))))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("{").and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::Comma(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("}"))))))))
+                    state.rule(Rule::if_statement, |state| state.sequence(|state| self::If(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.lookahead(false, |state| self::Opening(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("then").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("else").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("otherwise").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)))))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("{").and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::Comma(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("}"))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn for_statement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::for_statement, |state| state.sequence(|state| state.match_string("for").and_then(|state| super::hidden::skip(state)).and_then(|state| self::for_in_loop(state))))
+                    state.rule(Rule::for_statement, |state| state.sequence(|state| self::For(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::for_in_loop(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn for_in_loop(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::for_in_loop, |state| state.sequence(|state| self::SYMBOL(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("in")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state))))
+                    state.rule(Rule::for_in_loop, |state| state.sequence(|state| self::SYMBOL(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("in")).and_then(|state| super::hidden::skip(state)).and_then(|state| state.lookahead(false, |state| self::Opening(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -289,6 +293,26 @@ impl ::pest::Parser<Rule> for SMParser {
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
+                pub fn If(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::If, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("if").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn For(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::For, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("for").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn Extends(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.rule(Rule::Extends, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("extends").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
+                pub fn Opening(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    self::If(state).or_else(|state| self::For(state)).or_else(|state| self::Class(state)).or_else(|state| self::Trait(state)).or_else(|state| self::Extends(state)).or_else(|state| self::Let(state)).or_else(|state| self::Def(state))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
                 pub fn Using(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
                     state.rule(Rule::Using, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("using").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
@@ -345,7 +369,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn extendStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::extendStatement, |state| state.sequence(|state| state.match_string("extends").and_then(|state| super::hidden::skip(state)).and_then(|state| self::Symbol(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::with_trait(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::short_block(state))))
+                    state.rule(Rule::extendStatement, |state| state.sequence(|state| self::Extends(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Symbol(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::with_trait(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::short_block(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -1039,6 +1063,10 @@ impl ::pest::Parser<Rule> for SMParser {
             Rule::Yield => rules::Yield(state),
             Rule::Break => rules::Break(state),
             Rule::Pass => rules::Pass(state),
+            Rule::If => rules::If(state),
+            Rule::For => rules::For(state),
+            Rule::Extends => rules::Extends(state),
+            Rule::Opening => rules::Opening(state),
             Rule::Def => rules::Def(state),
             Rule::Let => rules::Let(state),
             Rule::Trait => rules::Trait(state),
-- 
2.43.0


From cd37af81ec4de0e789e10cf1921a4d8d7a954ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 37/37] fix: control statements that are not closed took time
 exponential in the nesting

Replaces 7498e9c, which only covered conditions that open with a keyword.
---
 projects/sm-parser/simple-math.pest | 23 ++++++++-------
 projects/sm-parser/src/sm_parser.rs | 45 ++++++++---------------------
 2 files changed, 24 insertions(+), 44 deletions(-)

diff --git a/projects/sm-parser/simple-math.pest b/projects/sm-parser/simple-math.pest
index 2c710ac..3cf517c 100644
--- a/projects/sm-parser/simple-math.pest
+++ b/projects/sm-parser/simple-math.pest
@@ -33,16 +33,22 @@ As   = @{"as"}
 /*====================================================================================================================*/
 controlFlow = _{re_control|if_statement|for_statement}
 block = !{"{" ~ statement+ ~ "}"}
+// what opens like this is a control statement or nothing, never several expressions
+control_head = _{
+    "if" ~ ("(" ~ expr ~ ")"|expr) ~ ("then" ~ "{"|"{")
+  | "for" ~ SYMBOL ~ "in" ~ expr ~ "{"
+  | "extends" ~ Symbol ~ with_trait? ~ "{"
+}
 /*====================================================================================================================*/
 if_statement = {
-    If ~ ("(" ~ expr ~ ")"|!Opening ~ expr) ~ (
+    "if" ~ ("(" ~ expr ~ ")"|expr) ~ (
         ("then" ~ block) ~ ("else" ~ block)? ~ ("otherwise" ~ block)?
-    |  "{" ~ statement ~ (Comma ~ statement)? ~ (Comma ~ statement)? ~ Comma? ~ "}"
+    |  "{" ~ statement ~ (Comma ~ statement ~ (Comma ~ statement)?)? ~ Comma? ~ "}"
     )
 }
 /*====================================================================================================================*/
-for_statement = {For ~ for_in_loop}
-for_in_loop = {SYMBOL~"in"~!Opening~expr~block}
+for_statement = {"for" ~ for_in_loop}
+for_in_loop = {SYMBOL~"in"~expr~block}
 //!#C678DD: For|In
 /*====================================================================================================================*/
 re_control = {
@@ -61,11 +67,6 @@ Class = @{"class" ~ !XID_CONTINUE}
 Trait = @{"trait" ~ !XID_CONTINUE}
 Let = @{"let" ~ !XID_CONTINUE}
 Def = @{"def" ~ !XID_CONTINUE}
-If = @{"if" ~ !XID_CONTINUE}
-For = @{"for" ~ !XID_CONTINUE}
-Extends = @{"extends" ~ !XID_CONTINUE}
-// opens a statement with a block: neither a condition nor a sequence starts with it
-Opening = _{If|For|Class|Trait|Extends|Let|Def}
 /*====================================================================================================================*/
 ///#C678DD
 Type = @{"type"}
@@ -83,7 +84,7 @@ short_statement = {
 short_annotation = {annotation_call+~short_statement}
 /*====================================================================================================================*/
 extendStatement = {
-    Extends ~ Symbol ~ with_trait? ~ short_block
+    "extends" ~ Symbol ~ with_trait? ~ short_block
 }
 with_trait = {"with" ~ Symbol}
 //!#C678DD: Extend|With
@@ -121,7 +122,7 @@ apply_kv = {SYMBOL~ Colon ~ expr|expr}
 function_name = {SYMBOL}
 function_module = {Dot ~ (SYMBOL ~ Dot)*}
 /*====================================================================================================================*/
-expression =  {expr~eos?}
+expression =  {!control_head~expr~eos?}
 expr       = !{term ~ (Infix ~ term)*}
 term       = ${Prefix* ~ node ~ (Suffix|(!NEWLINE ~ WHITESPACE)* ~ slice)*}
 node       =  {"(" ~ (WHITESPACE|COMMENT)* ~ expr ~ (WHITESPACE|COMMENT)* ~ ")"|apply_call|derivative|space_call|data}
diff --git a/projects/sm-parser/src/sm_parser.rs b/projects/sm-parser/src/sm_parser.rs
index 9377243..8197e40 100644
--- a/projects/sm-parser/src/sm_parser.rs
+++ b/projects/sm-parser/src/sm_parser.rs
@@ -18,6 +18,7 @@ pub enum Rule {
     As,
     controlFlow,
     block,
+    control_head,
     if_statement,
     for_statement,
     for_in_loop,
@@ -26,10 +27,6 @@ pub enum Rule {
     Yield,
     Break,
     Pass,
-    If,
-    For,
-    Extends,
-    Opening,
     Def,
     Let,
     Trait,
@@ -253,18 +250,23 @@ impl ::pest::Parser<Rule> for SMParser {
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
+                pub fn control_head(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
+                    state.restore_on_err(|state| state.sequence(|state| state.match_string("if").and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::expr(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.sequence(|state| state.match_string("then").and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("{"))).or_else(|state| state.match_string("{"))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("for").and_then(|state| super::hidden::skip(state)).and_then(|state| self::SYMBOL(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("in")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("{"))))).or_else(|state| state.sequence(|state| state.match_string("extends").and_then(|state| super::hidden::skip(state)).and_then(|state| self::Symbol(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::with_trait(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("{"))))
+                }
+                #[inline]
+                #[allow(non_snake_case, unused_variables)]
                 pub fn if_statement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::if_statement, |state| state.sequence(|state| self::If(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.lookahead(false, |state| self::Opening(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("then").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("else").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("otherwise").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)))))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("{").and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::Comma(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("}"))))))))
+                    state.rule(Rule::if_statement, |state| state.sequence(|state| state.match_string("if").and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("(").and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string(")")))).or_else(|state| state.restore_on_err(|state| self::expr(state)))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("then").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("else").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("otherwise").and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state)))))))).or_else(|state| state.restore_on_err(|state| state.sequence(|state| state.match_string("{").and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.restore_on_err(|state| state.sequence(|state| self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::statement(state)))))))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::Comma(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("}"))))))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn for_statement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::for_statement, |state| state.sequence(|state| self::For(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::for_in_loop(state))))
+                    state.rule(Rule::for_statement, |state| state.sequence(|state| state.match_string("for").and_then(|state| super::hidden::skip(state)).and_then(|state| self::for_in_loop(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn for_in_loop(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::for_in_loop, |state| state.sequence(|state| self::SYMBOL(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("in")).and_then(|state| super::hidden::skip(state)).and_then(|state| state.lookahead(false, |state| self::Opening(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state))))
+                    state.rule(Rule::for_in_loop, |state| state.sequence(|state| self::SYMBOL(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.match_string("in")).and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::block(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -293,26 +295,6 @@ impl ::pest::Parser<Rule> for SMParser {
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
-                pub fn If(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::If, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("if").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
-                }
-                #[inline]
-                #[allow(non_snake_case, unused_variables)]
-                pub fn For(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::For, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("for").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
-                }
-                #[inline]
-                #[allow(non_snake_case, unused_variables)]
-                pub fn Extends(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::Extends, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("extends").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
-                }
-                #[inline]
-                #[allow(non_snake_case, unused_variables)]
-                pub fn Opening(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    self::If(state).or_else(|state| self::For(state)).or_else(|state| self::Class(state)).or_else(|state| self::Trait(state)).or_else(|state| self::Extends(state)).or_else(|state| self::Let(state)).or_else(|state| self::Def(state))
-                }
-                #[inline]
-                #[allow(non_snake_case, unused_variables)]
                 pub fn Using(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
                     state.rule(Rule::Using, |state| state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.match_string("using").and_then(|state| state.lookahead(false, |state| self::XID_CONTINUE(state))))))
                 }
@@ -369,7 +351,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn extendStatement(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::extendStatement, |state| state.sequence(|state| self::Extends(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::Symbol(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::with_trait(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::short_block(state))))
+                    state.rule(Rule::extendStatement, |state| state.sequence(|state| state.match_string("extends").and_then(|state| super::hidden::skip(state)).and_then(|state| self::Symbol(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::with_trait(state))).and_then(|state| super::hidden::skip(state)).and_then(|state| self::short_block(state))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -449,7 +431,7 @@ impl ::pest::Parser<Rule> for SMParser {
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
                 pub fn expression(state: Box<::pest::ParserState<Rule>>) -> ::pest::ParseResult<Box<::pest::ParserState<Rule>>> {
-                    state.rule(Rule::expression, |state| state.sequence(|state| self::expr(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))
+                    state.rule(Rule::expression, |state| state.sequence(|state| state.lookahead(false, |state| self::control_head(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| self::expr(state)).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::eos(state)))))
                 }
                 #[inline]
                 #[allow(non_snake_case, unused_variables)]
@@ -1055,6 +1037,7 @@ impl ::pest::Parser<Rule> for SMParser {
             Rule::As => rules::As(state),
             Rule::controlFlow => rules::controlFlow(state),
             Rule::block => rules::block(state),
+            Rule::control_head => rules::control_head(state),
             Rule::if_statement => rules::if_statement(state),
             Rule::for_statement => rules::for_statement(state),
             Rule::for_in_loop => rules::for_in_loop(state),
@@ -1063,10 +1046,6 @@ impl ::pest::Parser<Rule> for SMParser {
             Rule::Yield => rules::Yield(state),
             Rule::Break => rules::Break(state),
             Rule::Pass => rules::Pass(state),
-            Rule::If => rules::If(state),
-            Rule::For => rules::For(state),
-            Rule::Extends => rules::Extends(state),
-            Rule::Opening => rules::Opening(state),
             Rule::Def => rules::Def(state),
             Rule::Let => rules::Let(state),
             Rule::Trait => rules::Trait(state),
-- 
2.43.0

