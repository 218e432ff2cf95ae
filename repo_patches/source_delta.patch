From 0a72ea233fd318b9aeeec4dff936b19962131621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 01/87] fix: binary integer literals of 64 bits or more

---
 ruruby-parse/src/parser/lexer.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index bc4db3d..e18289d 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -695,8 +695,9 @@ impl<'a> Lexer<'a> {
 
     /// Read binary number.
     fn read_bin_number(&mut self) -> Result<Token, ParseErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='1') => ch as u64 - '0' as u64,
+        let start_pos = self.pos;
+        match self.peek() {
+            Some('0'..='1') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
@@ -705,13 +706,19 @@ impl<'a> Lexer<'a> {
         self.get()?;
         loop {
             match self.peek() {
-                Some(ch @ '0'..='1') => val = val * 2 + (ch as u64 - '0' as u64),
-                Some('_') => {}
+                Some('0'..='1') | Some('_') => {}
                 _ => break,
             }
             self.get()?;
         }
-        Ok(self.new_numlit(val as i64))
+        let s = &self.code[start_pos..self.pos];
+        match BigInt::parse_bytes(s.as_bytes(), 2) {
+            Some(b) => match b.to_i64() {
+                Some(i) => Ok(self.new_numlit(i)),
+                None => Ok(self.new_bignumlit(b)),
+            },
+            None => Err(Self::error_parse("Invalid binary number literal.", self.pos)),
+        }
     }
 
     /// Read string literal ("..", %Q{..}, %{..})
-- 
2.43.0


From 2e22d93f4350aa31c8fb03a3a006ecb07eb60f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 02/87] fix: Integer#div went through Float and lost precision

---
 ruruby/src/value/real.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ruruby/src/value/real.rs b/ruruby/src/value/real.rs
index f36f96a..36935ef 100644
--- a/ruruby/src/value/real.rs
+++ b/ruruby/src/value/real.rs
@@ -57,6 +57,10 @@ impl Real {
     }
 
     pub(crate) fn quotient(self, other: Self) -> Self {
+        match (&self, &other) {
+            (Real::Float(_), _) | (_, Real::Float(_)) => {}
+            _ => return self / other,
+        }
         let quo = (self.to_f64() / other.to_f64()).floor();
         match ToPrimitive::to_i64(&quo) {
             Some(i) => Real::Integer(i),
-- 
2.43.0


From 99f4e89b3151a3d0a8c10bfe016912d70d855296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 03/87] fix: Float#to_i and #floor saturated at 64 bits

---
 ruruby/src/builtin/float.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ruruby/src/builtin/float.rs b/ruruby/src/builtin/float.rs
index d050653..8bc2d36 100644
--- a/ruruby/src/builtin/float.rs
+++ b/ruruby/src/builtin/float.rs
@@ -1,4 +1,5 @@
 use crate::*;
+use num::{BigInt, FromPrimitive};
 
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let mut class = Module::class_under(BuiltinClass::numeric());
@@ -89,7 +90,7 @@ fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn floor(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let lhs = self_val.as_float().unwrap();
-    Ok(Value::integer(lhs.floor() as i64))
+    float_to_integer(lhs.floor())
 }
 
 /// abs -> Float
@@ -104,8 +105,16 @@ fn abs(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn toi(_: &mut VM, self_val: Value, _: &Args2) -> VMResult {
     //args.check_args_num( 1, 1)?;
-    let num = self_val.as_float().unwrap().trunc() as i64;
-    Ok(Value::integer(num))
+    let num = self_val.as_float().unwrap().trunc();
+    float_to_integer(num)
+}
+
+/// Convert `num` (which has no fractional part) to the exact Integer.
+fn float_to_integer(num: f64) -> VMResult {
+    match BigInt::from_f64(num) {
+        Some(n) => Ok(Value::bignum(n)),
+        None => Err(RubyError::math_domain("Out of domain.")),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3b44bd09f5e9c919b23e509200749b5423d34cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 04/87] fix: integer shifts, bit reference, xor/not of bignums,
 digits, float modulo

---
 ruruby/src/arith.rs           | 16 ++++-----
 ruruby/src/builtin/integer.rs | 62 +++++++++++++++++++++--------------
 2 files changed, 46 insertions(+), 32 deletions(-)

diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index f77d14d..1eb1ab9 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -75,12 +75,11 @@ pub(crate) fn rem_float(lhsf: f64, rhs: Value) -> VMResult {
 }
 
 pub(crate) fn rem_floorf64(self_: f64, other: f64) -> f64 {
-    if self_ > 0.0 && other < 0.0 {
-        ((self_ - 1.0) % other) + other + 1.0
-    } else if self_ < 0.0 && other > 0.0 {
-        ((self_ + 1.0) % other) + other - 1.0
+    let rem = self_ % other;
+    if rem != 0.0 && (rem < 0.0) != (other < 0.0) {
+        rem + other
     } else {
-        self_ % other
+        rem
     }
 }
 
@@ -251,7 +250,7 @@ fn shr_fixnum_sub(lhs: i64, rhs: i64) -> Value {
     if rhs < u32::MAX as i64 {
         match lhs.checked_shr(rhs as u32) {
             Some(i) => Value::integer(i),
-            None => Value::integer(0),
+            None => Value::integer(if lhs < 0 { -1 } else { 0 }),
         }
     } else {
         Value::bignum(lhs.to_bigint().unwrap() >> rhs)
@@ -262,8 +261,9 @@ fn shr_fixnum_sub(lhs: i64, rhs: i64) -> Value {
 fn shl_fixnum_sub(lhs: i64, rhs: i64) -> Value {
     if rhs < u32::MAX as i64 {
         match lhs.checked_shl(rhs as u32) {
-            Some(i) => Value::integer(i),
-            None => {
+            // no significant bit was shifted out.
+            Some(i) if (i >> rhs) == lhs => Value::integer(i),
+            _ => {
                 let n = lhs.to_bigint().unwrap() << rhs;
                 Value::bignum(n)
             }
diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index e2cf4b6..ed79707 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -2,7 +2,7 @@ use crate::*;
 use num::Integer;
 use num::{bigint::ToBigInt, BigInt, Signed, ToPrimitive, Zero};
 use std::convert::TryInto;
-use std::ops::{BitAnd, BitOr};
+use std::ops::{BitAnd, BitOr, BitXor};
 
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under(BuiltinClass::numeric());
@@ -26,6 +26,8 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "<<", shl);
     class.add_builtin_method_by_str(globals, "&", band);
     class.add_builtin_method_by_str(globals, "|", bor);
+    class.add_builtin_method_by_str(globals, "^", bxor);
+    class.add_builtin_method_by_str(globals, "~", bnot);
 
     class.add_builtin_method_by_str(globals, "abs", abs);
     class.add_builtin_method_by_str(globals, "floor", floor);
@@ -165,19 +167,20 @@ fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn index(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     if let Some(i) = self_val.as_fixnum() {
-        if vm[0].as_bignum().is_some() {
-            return Ok(Value::integer(0));
+        if let Some(n) = vm[0].as_bignum() {
+            return Ok(Value::integer((n.is_positive() && i < 0) as i64));
         }
         let index = vm[0].coerce_to_fixnum("Index")?;
-        let val = if index < 0 || 63 < index {
+        let val = if index < 0 {
             0
         } else {
-            (i >> index) & 1
+            // every bit above the most significant one is the sign bit.
+            (i >> index.min(63)) & 1
         };
         Ok(Value::integer(val))
     } else if let Some(i) = self_val.as_bignum() {
-        if vm[0].as_bignum().is_some() {
-            return Ok(Value::integer(0));
+        if let Some(n) = vm[0].as_bignum() {
+            return Ok(Value::integer((n.is_positive() && i.is_negative()) as i64));
         }
         let index = vm[0].coerce_to_fixnum("Index")?;
         let val = if index < 0 {
@@ -197,7 +200,7 @@ fn shr(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if let Some(lhs) = self_val.as_fixnum() {
         match rhs.as_fixnum() {
             Some(rhs) => arith::shr_fixnum(lhs, rhs),
-            None => shr_bignum(rhs),
+            None => shr_bignum(lhs < 0, rhs),
         }
     } else if let Some(lhs) = self_val.as_bignum() {
         match rhs.as_fixnum() {
@@ -208,18 +211,18 @@ fn shr(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                     Ok(Value::bignum(lhs << -rhs))
                 }
             }
-            None => shr_bignum(rhs),
+            None => shr_bignum(lhs.is_negative(), rhs),
         }
     } else {
         unreachable!()
     }
 }
 
-fn shr_bignum(rhs: Value) -> VMResult {
+fn shr_bignum(negative: bool, rhs: Value) -> VMResult {
     match rhs.as_bignum() {
         Some(rhs) => {
             if !rhs.is_negative() {
-                Ok(Value::integer(0))
+                Ok(Value::integer(if negative { -1 } else { 0 }))
             } else {
                 Err(RubyError::runtime("Shift width too big"))
             }
@@ -234,7 +237,7 @@ fn shl(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if let Some(lhs) = self_val.as_fixnum() {
         match rhs.as_fixnum() {
             Some(rhs) => arith::shl_fixnum(lhs, rhs),
-            None => shl_bignum(rhs),
+            None => shl_bignum(lhs < 0, rhs),
         }
     } else if let Some(lhs) = self_val.as_bignum() {
         match rhs.as_fixnum() {
@@ -245,18 +248,18 @@ fn shl(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                     Ok(Value::bignum(lhs >> -rhs))
                 }
             }
-            None => shl_bignum(rhs),
+            None => shl_bignum(lhs.is_negative(), rhs),
         }
     } else {
         unreachable!()
     }
 }
 
-fn shl_bignum(rhs: Value) -> VMResult {
+fn shl_bignum(negative: bool, rhs: Value) -> VMResult {
     match rhs.as_bignum() {
         Some(rhs) => {
             if rhs.is_negative() {
-                Ok(Value::integer(0))
+                Ok(Value::integer(if negative { -1 } else { 0 }))
             } else {
                 Err(RubyError::runtime("Shift width too big"))
             }
@@ -296,6 +299,18 @@ macro_rules! bit_ops {
 
 bit_ops!(band, bitand);
 bit_ops!(bor, bitor);
+bit_ops!(bxor, bitxor);
+
+fn bnot(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    if let Some(i) = self_val.as_fixnum() {
+        Ok(Value::integer(!i))
+    } else if let Some(n) = self_val.as_bignum() {
+        Ok(Value::bignum(!n))
+    } else {
+        unreachable!()
+    }
+}
 
 #[test]
 fn integer_bitwise_ops() {
@@ -812,25 +827,24 @@ fn digits(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     } else {
         match vm[0].coerce_to_fixnum("Arg")? {
             i if i < 0 => return Err(RubyError::argument("Negative radix.")),
-            0 => return Err(RubyError::argument("Invalid radix 0.")),
+            i @ 0..=1 => return Err(RubyError::argument(format!("Invalid radix {}.", i))),
             i => i,
         }
     };
     let mut ary = vec![];
-    let mut self_ = self_val.as_fixnum().unwrap();
-    if self_ < 0 {
+    let mut self_ = match self_val.as_fixnum() {
+        Some(i) => BigInt::from(i),
+        None => self_val.as_bignum().unwrap().clone(),
+    };
+    if self_.is_negative() {
         return Err(RubyError::math_domain("Out of domain."));
     }
     loop {
-        let r = self_ % base;
+        ary.push(Value::bignum(&self_ % base));
         self_ = self_ / base;
-        if r == 0 {
+        if self_.is_zero() {
             break;
         }
-        ary.push(Value::integer(r));
-    }
-    if ary.len() == 0 {
-        ary.push(Value::integer(0))
     }
     Ok(Value::array_from(ary))
 }
-- 
2.43.0


From 7490cdf95d81fe6bab62c12a5d91462008fd9063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 05/87] fix: == between packed and heap values ignored numeric
 value and user-defined ==

---
 ruruby/src/vm/executor/ops.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 8afa8e2..f362c98 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -243,7 +243,7 @@ impl VM {
         let lhs = self.stack_pop();
         let v = match lhs.unpack() {
             RV::Integer(lhs) => Value::integer(!lhs),
-            _ => return Err(VMError::undefined_method(IdentId::get_id("~"), lhs)),
+            _ => return self.invoke_send0(IdentId::get_id("~"), lhs),
         };
         Ok(VMResKind::Return(v))
     }
@@ -373,12 +373,22 @@ impl VM {
                 return Ok(rhsi as f64 == lhsf);
             }
         }
-        if rhs.is_packed_value() || lhs.is_packed_value() {
-            return Ok(lhs.id() == rhs.id());
-        }
         if lhs.id() == rhs.id() {
-            return Ok(true);
+            // NaN is not equal to itself.
+            return Ok(!matches!(lhs.as_float(), Some(f) if f.is_nan()));
         };
+        if rhs.is_packed_value() || lhs.is_packed_value() {
+            return match (lhs.to_real(), rhs.to_real()) {
+                (Some(lhs), Some(rhs)) => Ok(lhs == rhs),
+                (Some(_), None) => Ok(false),
+                _ if lhs.is_packed_value() => Ok(false),
+                // An object of user-defined class may have its own `==`.
+                _ => match lhs.rvalue().kind() {
+                    ObjKind::COMPLEX if rhs.to_complex().is_none() => Ok(false),
+                    _ => Ok(self.eval_send1(IdentId::_EQ, lhs, rhs)?.to_bool()),
+                },
+            };
+        }
         let (lhsr, rhsr) = (lhs.rvalue(), rhs.rvalue());
         match (lhsr.kind(), rhsr.kind()) {
             (ObjKind::BIGNUM, ObjKind::BIGNUM) => Ok(*lhsr.bignum() == *rhsr.bignum()),
@@ -425,10 +435,9 @@ impl VM {
                     rhs.rvalue()
                 )))
             }
-            (_, _) => match self.eval_send1(IdentId::_EQ, lhs, rhs) {
-                Ok(v) => Ok(v.to_bool()),
-                _ => Ok(false),
-            },
+            (ObjKind::BIGNUM | ObjKind::FLOAT, _) => Ok(false),
+            (ObjKind::COMPLEX, _) if rhs.to_complex().is_none() => Ok(false),
+            (_, _) => Ok(self.eval_send1(IdentId::_EQ, lhs, rhs)?.to_bool()),
         }
     }
 
-- 
2.43.0


From 6cfe44d8a281dd36479ddf8d76923beec96000c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 06/87] fix: case with Integer labels (duplicate labels, sparse
 labels, Float subject), sign bit of small negative Integer#[]

---
 ruruby/src/codegen.rs              | 20 ++++++++++++--------
 ruruby/src/vm/executor/ops.rs      | 11 ++++++++++-
 ruruby/src/vm/executor/opt_core.rs |  4 ++--
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index f6108ca..4fceed2 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -5,6 +5,9 @@ use ruruby_parse::{BlockInfo, Node};
 mod defined;
 mod send;
 
+/// Maximum distance of Integer labels in a jump table of case expression.
+const MAX_CASE_TABLE: i64 = 1024;
+
 /// Codegen State
 #[derive(Debug, Clone)]
 pub struct Codegen {
@@ -1164,7 +1167,7 @@ impl Codegen {
                         for branch in &when_ {
                             for elem in &branch.when {
                                 match elem.kind {
-                                    NodeKind::Integer(i) => {
+                                    NodeKind::Integer(i) if Value::is_i63(i) => {
                                         if i < opt_min {
                                             opt_min = i
                                         };
@@ -1172,9 +1175,7 @@ impl Codegen {
                                             opt_max = i
                                         };
                                     }
-                                    NodeKind::Bignum(_)
-                                    | NodeKind::Float(_)
-                                    | NodeKind::Symbol(_)
+                                    NodeKind::Symbol(_)
                                     | NodeKind::String(_)
                                     | NodeKind::Bool(_)
                                     | NodeKind::Nil => opt_flag2 = false,
@@ -1188,6 +1189,10 @@ impl Codegen {
                                 break;
                             }
                         }
+                        // A jump table is used only if labels are dense.
+                        if opt_max.saturating_sub(opt_min) >= MAX_CASE_TABLE {
+                            opt_flag2 = false;
+                        }
                         if opt_flag && opt_flag2 {
                             //eprintln!("{} {}", opt_min, opt_max);
                             let map_id = globals.case_dispatch2.new_entry();
@@ -1201,7 +1206,8 @@ impl Codegen {
                                         NodeKind::Integer(i) => *i,
                                         _ => unreachable!(),
                                     };
-                                    map.insert(i, disp);
+                                    // The first label wins.
+                                    map.entry(i).or_insert(disp);
                                 }
                                 self.gen(globals, iseq, *branch.body, use_value)?;
                                 end.push(iseq.gen_jmp());
@@ -1224,15 +1230,13 @@ impl Codegen {
                                 for elem in &branch.when {
                                     let k = match &elem.kind {
                                         NodeKind::Integer(i) => Value::integer(*i),
-                                        NodeKind::Bignum(n) => Value::bignum(n.clone()),
-                                        NodeKind::Float(f) => Value::float(*f),
                                         NodeKind::Symbol(sym) => Value::symbol(*sym),
                                         NodeKind::String(str) => Value::string(str),
                                         NodeKind::Bool(b) => Value::bool(*b),
                                         NodeKind::Nil => Value::nil(),
                                         _ => unreachable!(),
                                     };
-                                    map.insert(HashKey(k), disp);
+                                    map.entry(HashKey(k)).or_insert(disp);
                                 }
                                 self.gen(globals, iseq, *branch.body, use_value)?;
                                 end.push(iseq.gen_jmp());
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index f362c98..7ecec29 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -332,6 +332,15 @@ impl VM {
         Ok(RegexpInfo::find_one(self, &*re, &given)?.is_some())
     }
 
+    /// Convert a subject of case expression to the label which it matches.
+    /// Float which has an integral value matches the Integer label.
+    pub(super) fn case_label(val: Value) -> Value {
+        match val.as_float() {
+            Some(f) if f.fract() == 0.0 && f.abs() < (1i64 << 62) as f64 => Value::integer(f as i64),
+            _ => val,
+        }
+    }
+
     pub(crate) fn eval_teq(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
         match lhs.as_rvalue() {
             Some(oref) => match oref.kind() {
@@ -597,7 +606,7 @@ impl VM {
             },
             None => {
                 if let Some(i) = receiver.as_fixnum() {
-                    let val = if 63 < idx { 0 } else { (i >> idx) & 1 };
+                    let val = (i >> idx.min(63)) & 1;
                     return Ok(VMResKind::Return(Value::integer(val)));
                 }
             }
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index cad91fd..ad5ef60 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -454,7 +454,7 @@ impl VM {
                     Inst::JMP_F_LEI => jmp_cmp_i!(eval_lei),
 
                     Inst::OPT_CASE => {
-                        let val = self.stack_pop();
+                        let val = Self::case_label(self.stack_pop());
                         let entry = self.pc.read32();
                         let map = self.globals.case_dispatch.get_entry(entry);
                         let default = self.pc.read_disp();
@@ -465,7 +465,7 @@ impl VM {
                         self.pc += disp;
                     }
                     Inst::OPT_CASE2 => {
-                        let val = self.stack_pop();
+                        let val = Self::case_label(self.stack_pop());
                         let entry = self.pc.read32();
                         let default = self.pc.read_disp();
                         let disp = if let Some(i) = val.as_fixnum() {
-- 
2.43.0


From b38573d9c96139cc12d76b9af05d740b87c1c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 07/87] fix: negative zero was turned into positive zero,
 Float#div panicked on infinity

---
 ruruby/src/builtin/float.rs   |  5 ++++-
 ruruby/src/builtin/integer.rs |  5 ++++-
 ruruby/src/value/hash.rs      |  4 +++-
 ruruby/src/value/real.rs      | 10 ++++------
 ruruby/src/value/value.rs     |  2 +-
 5 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/ruruby/src/builtin/float.rs b/ruruby/src/builtin/float.rs
index 8bc2d36..20e19ed 100644
--- a/ruruby/src/builtin/float.rs
+++ b/ruruby/src/builtin/float.rs
@@ -68,7 +68,10 @@ fn quotient(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             if rhs.is_zero() {
                 return Err(RubyError::zero_div("Divided by zero."));
             }
-            Ok(lhs.quotient(rhs).into_val())
+            match lhs.quotient(rhs) {
+                Some(quo) => Ok(quo.into_val()),
+                None => Err(RubyError::math_domain("Out of domain.")),
+            }
         }
         None => Err(VMError::undefined_op("div", vm[0], self_val)),
     }
diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index ed79707..3a4e8e7 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -124,7 +124,10 @@ fn quotient(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             if rhs.is_zero() {
                 return Err(RubyError::zero_div("Divided by zero."));
             }
-            Ok(lhs.quotient(rhs).into_val())
+            match lhs.quotient(rhs) {
+                Some(quo) => Ok(quo.into_val()),
+                None => Err(RubyError::math_domain("Out of domain.")),
+            }
         }
         None => Err(VMError::cant_coerse(vm[0], "Numeric")),
     }
diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index 4ffff35..a8d6e25 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -65,6 +65,8 @@ impl Hash for HashKey {
             Some(lhs) => match lhs.kind() {
                 ObjKind::INVALID => panic!("Invalid rvalue. (maybe GC problem) {:?}", lhs),
                 ObjKind::BIGNUM => lhs.bignum().hash(state),
+                // -0.0 is the same key as 0.0.
+                ObjKind::FLOAT if lhs.float() == 0.0 => Value::float(0.0).hash(state),
                 ObjKind::FLOAT => lhs.float().to_bits().hash(state),
                 ObjKind::STRING => lhs.string().hash(state),
                 ObjKind::ARRAY => lhs.array().hash(state),
@@ -87,7 +89,7 @@ impl PartialEq for HashKey {
         match (self.as_rvalue(), other.as_rvalue()) {
             (None, None) => self.0.id() == other.0.id(),
             (Some(lhs), Some(rhs)) => lhs.eql(rhs),
-            _ => false,
+            _ => self.as_float() == Some(0.0) && other.as_float() == Some(0.0),
         }
     }
 }
diff --git a/ruruby/src/value/real.rs b/ruruby/src/value/real.rs
index 36935ef..9aa1b1e 100644
--- a/ruruby/src/value/real.rs
+++ b/ruruby/src/value/real.rs
@@ -56,16 +56,14 @@ impl Real {
         self.clone() * self
     }
 
-    pub(crate) fn quotient(self, other: Self) -> Self {
+    /// Return None if the quotient is infinite or not a number.
+    pub(crate) fn quotient(self, other: Self) -> Option<Self> {
         match (&self, &other) {
             (Real::Float(_), _) | (_, Real::Float(_)) => {}
-            _ => return self / other,
+            _ => return Some(self / other),
         }
         let quo = (self.to_f64() / other.to_f64()).floor();
-        match ToPrimitive::to_i64(&quo) {
-            Some(i) => Real::Integer(i),
-            None => Real::Bignum(FromPrimitive::from_f64(quo).unwrap()),
-        }
+        BigInt::from_f64(quo).map(Real::integer)
     }
 
     pub(crate) fn divide(self, other: Real) -> Real {
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 368eca1..39a2c90 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -1035,7 +1035,7 @@ impl Value {
     }
 
     pub fn float(num: f64) -> Self {
-        if num == 0.0 {
+        if num.to_bits() == 0 {
             return Value::from(ZERO);
         }
         let unum = f64::to_bits(num);
-- 
2.43.0


From 03fdbeb025150f0c2341f9c79b0f407e2cb1e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 08/87] fix: Float / 0 by method call raised ZeroDivisionError
 while the operator did not

---
 ruruby/src/builtin/numeric.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/numeric.rs b/ruruby/src/builtin/numeric.rs
index cafe312..b6679d4 100644
--- a/ruruby/src/builtin/numeric.rs
+++ b/ruruby/src/builtin/numeric.rs
@@ -100,8 +100,11 @@ fn div(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let arg0 = vm[0];
     match arg0.to_real() {
         Some(rhs) => {
-            if rhs.is_zero() {
-                return Err(RubyError::zero_div("Divided by zero."));
+            // Only the division of Integers fails. (Float conforms to IEEE 754)
+            match (&lhs, &rhs) {
+                (Real::Float(_), _) | (_, Real::Float(_)) => {}
+                _ if rhs.is_zero() => return Err(RubyError::zero_div("Divided by zero.")),
+                _ => {}
             }
             Ok((lhs / rhs).into_val())
         }
-- 
2.43.0


From 5ef979a424e2c6aea8b36d5d5ccf8b23f0eb153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 09/87] fix: 1.727233711018889e-77 was turned into 0.0

---
 ruruby/src/value/value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 39a2c90..9d294e5 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -1040,7 +1040,8 @@ impl Value {
         }
         let unum = f64::to_bits(num);
         let exp = ((unum >> 60) & 0b111) + 1;
-        if (exp & 0b0110) == 0b0100 {
+        // The packed form of 0x3000_0000_0000_0000 (1.727233711018889e-77) is used for 0.0.
+        if (exp & 0b0110) == 0b0100 && unum != 0x3000_0000_0000_0000 {
             Value::from((unum & FLOAT_MASK1 | FLOAT_MASK2).rotate_left(3))
         } else {
             RValue::new_float(num).pack()
-- 
2.43.0


From b199bb73a0ff35755c031d17342258222128ec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 10/87] fix: case/=== ignored Range, Proc and user-defined ===,
 p ignored user-defined inspect, == by explicit call was identity for
 containers

---
 ruruby/src/builtin/object.rs  | 28 ++++++++++++++++++++++++++--
 ruruby/src/builtin/procobj.rs |  1 +
 ruruby/src/builtin/range.rs   | 16 ++++++++++++++++
 ruruby/src/builtin/regexp.rs  |  6 ++++++
 ruruby/src/vm/executor.rs     |  1 -
 ruruby/src/vm/executor/ops.rs | 24 ++++++++++++++++--------
 6 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 5815b58..fa37476 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -11,8 +11,8 @@ pub(crate) fn init(globals: &mut Globals) {
     object.add_builtin_method_by_str(globals, "to_s", to_s);
     object.add_builtin_method_by_str(globals, "inspect", inspect);
     object.add_builtin_method_by_str(globals, "equal?", equal);
-    object.add_builtin_method_by_str(globals, "==", equal);
-    object.add_builtin_method_by_str(globals, "===", equal);
+    object.add_builtin_method_by_str(globals, "==", eq);
+    object.add_builtin_method_by_str(globals, "===", teq);
     object.add_builtin_method_by_str(globals, "=~", match_); // This method is deprecated from Ruby 2.6.
     object.add_builtin_method_by_str(globals, "<=>", cmp);
     object.add_builtin_method_by_str(globals, "eql?", eql);
@@ -180,6 +180,30 @@ fn equal(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::bool(self_val.id() == vm[0].id()))
 }
 
+/// Identity for ordinary objects, equality of contents for built-in containers.
+fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let arg0 = vm[0];
+    let b = match (self_val.as_rvalue(), arg0.as_rvalue()) {
+        (Some(lhs), Some(rhs)) if lhs.kind() == rhs.kind() => match lhs.kind() {
+            ObjKind::STRING
+            | ObjKind::ARRAY
+            | ObjKind::RANGE
+            | ObjKind::HASH
+            | ObjKind::REGEXP
+            | ObjKind::TIME => vm.eval_eq2(arg0, self_val)?,
+            _ => self_val.id() == arg0.id(),
+        },
+        _ => self_val.id() == arg0.id(),
+    };
+    Ok(Value::bool(b))
+}
+
+fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    Ok(Value::bool(vm.eval_eq2(vm[0], self_val)?))
+}
+
 fn send(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_min(1)?;
     let receiver = self_val;
diff --git a/ruruby/src/builtin/procobj.rs b/ruruby/src/builtin/procobj.rs
index 5d524c4..25795fb 100644
--- a/ruruby/src/builtin/procobj.rs
+++ b/ruruby/src/builtin/procobj.rs
@@ -39,6 +39,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "inspect", inspect);
     class.add_builtin_method_by_str(globals, "call", proc_call);
     class.add_builtin_method_by_str(globals, "[]", proc_call);
+    class.add_builtin_method_by_str(globals, "===", proc_call);
 
     class.add_builtin_class_method(globals, "new", proc_new);
     class.into()
diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index 83289b5..544cf01 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -51,6 +51,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "to_a", to_a);
     class.add_builtin_method_by_str(globals, "exclude_end?", exclude_end);
     class.add_builtin_method_by_str(globals, "include?", include);
+    class.add_builtin_method_by_str(globals, "===", teq);
 
     class.add_builtin_class_method(globals, "new", range_new);
     class.into()
@@ -279,6 +280,21 @@ fn include(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     }
 }
 
+fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let (range, val) = (self_val.as_range().unwrap(), vm[0]);
+    let (start, end, exclude) = (range.start, range.end, range.exclude);
+    match vm.eval_compare(val, start)?.as_fixnum() {
+        Some(ord) if ord <= 0 => {}
+        _ => return Ok(Value::false_val()),
+    };
+    let b = match vm.eval_compare(end, val)?.as_fixnum() {
+        Some(ord) => ord < 0 || (ord == 0 && !exclude),
+        None => false,
+    };
+    Ok(Value::bool(b))
+}
+
 #[cfg(test)]
 mod tests {
     use crate::tests::*;
diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index ed2156c..e2a549a 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -392,6 +392,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_class_method(globals, "quote", regexp_escape);
     class.add_builtin_class_method(globals, "last_match", regexp_last_match);
     class.add_builtin_method_by_str(globals, "=~", regexp_match);
+    class.add_builtin_method_by_str(globals, "===", regexp_teq);
     class.into()
 }
 
@@ -448,6 +449,11 @@ fn regexp_match(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     return Ok(res);
 }
 
+fn regexp_teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    Ok(Value::bool(vm.eval_teq(vm[0], self_val)?))
+}
+
 #[cfg(test)]
 mod test {
     use crate::tests::*;
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index ba546b4..281f046 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -775,7 +775,6 @@ impl VM {
                 ObjKind::RANGE => oref.range().inspect(self)?,
                 ObjKind::MODULE | ObjKind::CLASS => oref.module().inspect(),
                 ObjKind::REGEXP => format!("/{}/", oref.regexp().as_str().to_string()),
-                ObjKind::ORDINARY => oref.inspect()?,
                 ObjKind::HASH => oref.rhash().to_s(self)?,
                 ObjKind::COMPLEX => format!("{:?}", oref.complex()),
                 _ => {
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 7ecec29..099563a 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -308,11 +308,14 @@ impl VM {
         let (lhs, rhs) = self.stack_pop2();
         let b = match lhs.as_rvalue() {
             Some(oref) => match oref.kind() {
-                ObjKind::MODULE | ObjKind::CLASS => {
-                    return self.invoke_send1(IdentId::_TEQ, lhs, rhs);
-                }
                 ObjKind::REGEXP => self.teq_regexp(oref, rhs)?,
-                _ => self.eval_eq2(rhs, lhs)?,
+                ObjKind::STRING
+                | ObjKind::ARRAY
+                | ObjKind::HASH
+                | ObjKind::BIGNUM
+                | ObjKind::FLOAT
+                | ObjKind::COMPLEX => self.eval_eq2(rhs, lhs)?,
+                _ => return self.invoke_send1(IdentId::_TEQ, lhs, rhs),
             },
             None => self.eval_eq2(rhs, lhs)?,
         };
@@ -344,14 +347,19 @@ impl VM {
     pub(crate) fn eval_teq(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
         match lhs.as_rvalue() {
             Some(oref) => match oref.kind() {
-                ObjKind::MODULE | ObjKind::CLASS => {
+                ObjKind::REGEXP => self.teq_regexp(oref, rhs),
+                ObjKind::STRING
+                | ObjKind::ARRAY
+                | ObjKind::HASH
+                | ObjKind::BIGNUM
+                | ObjKind::FLOAT
+                | ObjKind::COMPLEX => self.eval_eq2(rhs, lhs),
+                _ => {
                     let v = self.eval_send1(IdentId::_TEQ, lhs, rhs)?;
                     Ok(v.to_bool())
                 }
-                ObjKind::REGEXP => self.teq_regexp(oref, rhs),
-                _ => self.eval_eq2(lhs, rhs),
             },
-            None => self.eval_eq2(lhs, rhs),
+            None => self.eval_eq2(rhs, lhs),
         }
     }
 
-- 
2.43.0


From 6cc09e92a448df089ebde8ac4e0e8cc3bf9d8456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 11/87] fix: break/return from blocks called by yield, return
 in lambda, ensure clauses on non-local exits, operands lost by rescue

---
 ruruby-common/src/code_context.rs  |  27 ++--
 ruruby-common/src/vm_inst.rs       |   3 +
 ruruby/src/builtin/kernel.rs       |   1 -
 ruruby/src/codegen.rs              | 218 +++++++++++++++++------------
 ruruby/src/codegen/defined.rs      |   2 +-
 ruruby/src/coroutine/stack.rs      |   2 +-
 ruruby/src/globals.rs              |   4 +
 ruruby/src/vm/executor.rs          | 131 +++++++++++++----
 ruruby/src/vm/executor/frame.rs    |  41 ++++--
 ruruby/src/vm/executor/method.rs   |   2 +-
 ruruby/src/vm/executor/opt_core.rs |  66 ++++-----
 11 files changed, 311 insertions(+), 186 deletions(-)

diff --git a/ruruby-common/src/code_context.rs b/ruruby-common/src/code_context.rs
index ac26b01..9748c65 100644
--- a/ruruby-common/src/code_context.rs
+++ b/ruruby-common/src/code_context.rs
@@ -23,13 +23,18 @@ pub struct ExceptionEntry {
     /// end position in ISeq.
     pub end: ISeqPos,
     pub dest: ISeqPos,
+    /// depth of begin-end.
+    pub depth: usize,
 }
 
 /// Type of each exception.
 #[derive(Debug, Clone, PartialEq)]
 pub enum ExceptionType {
-    /// When raised, exec stack is cleared.
+    /// When raised, exec stack is restored to the state on entering begin-end.
     Rescue,
+    /// When raised, exec stack is restored to the state on entering begin-end.
+    /// Non-local jumps are also handled.
+    Ensure,
     /// When raised, exec stack does not change.
     Continue,
 }
@@ -44,21 +49,19 @@ impl fmt::Debug for ExceptionEntry {
 }
 
 impl ExceptionEntry {
-    pub fn new_rescue(start: ISeqPos, end: ISeqPos, dest: ISeqPos) -> Self {
+    pub fn new(
+        ty: ExceptionType,
+        start: ISeqPos,
+        end: ISeqPos,
+        dest: ISeqPos,
+        depth: usize,
+    ) -> Self {
         Self {
-            ty: ExceptionType::Rescue,
-            start,
-            end,
-            dest,
-        }
-    }
-
-    pub fn new_continue(start: ISeqPos, end: ISeqPos, dest: ISeqPos) -> Self {
-        Self {
-            ty: ExceptionType::Continue,
+            ty,
             start,
             end,
             dest,
+            depth,
         }
     }
 
diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index 11ca7db..749a456 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -74,6 +74,7 @@ impl Inst {
     pub const THROW: u8 = 110;
     pub const OPT_CASE2: u8 = 111;
     pub const SUPER: u8 = 112;
+    pub const BEGIN: u8 = 113;
     
     pub const ADD: u8 = 120;
     pub const SUB: u8 = 121;
@@ -242,6 +243,7 @@ impl Inst {
             Inst::RESCUE => "RESCUE",
             Inst::THROW => "THROW",
             Inst::SUPER => "SUPER",
+            Inst::BEGIN => "BEGIN",
 
             _ => return format!("undefined {}", inst),
         };
@@ -339,6 +341,7 @@ impl Inst {
             | Inst::CREATE_HASH         // number of items: u32
             | Inst::YIELD               // number of items: u32
             | Inst::RESCUE              // number of items: u32
+            | Inst::BEGIN               // depth of begin-end: u32
             => 5,
 
             Inst::SUPER  => 8,
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 0d82b16..6c56726 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -253,7 +253,6 @@ fn loop_(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         match vm.eval_block0(&block) {
             Ok(_) => {}
             Err(err) => match &err.kind {
-                RubyErrorKind::BlockReturn => return Ok(vm.globals.val),
                 RubyErrorKind::RuntimeErr {
                     kind: RuntimeErrKind::StopIteration,
                     ..
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 4fceed2..bc95aac 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -120,26 +120,66 @@ impl Codegen {
         self.context_stack.last_mut().unwrap()
     }
 
-    fn push_jump_dest(&mut self, has_ensure: bool) {
+    fn push_jump_dest(&mut self, ensure: Option<Node>) {
         self.context_mut()
             .jump_dest
-            .push(LocalJumpDest::new(has_ensure));
+            .push(LocalJumpDest::new(ensure));
     }
 
     fn pop_jump_dest(&mut self) -> LocalJumpDest {
         self.context_mut().jump_dest.pop().unwrap()
     }
 
-    fn push_ex_rescue(&mut self, body_start: ISeqPos, body_end: ISeqPos, dest: ISeqPos) {
-        self.context_mut()
-            .exception_table
-            .push(ExceptionEntry::new_rescue(body_start, body_end, dest));
+    /// Register an exception handler `dest` of type `ty` for the codes in `body_start`..`body_end`,
+    /// excluding `holes` (the codes executed after leaving the begin-end by a jump).
+    fn push_exception_entry(
+        &mut self,
+        ty: ExceptionType,
+        body_start: ISeqPos,
+        body_end: ISeqPos,
+        holes: &[(ISeqPos, ISeqPos)],
+        dest: ISeqPos,
+    ) {
+        let depth = self.context().jump_dest.len();
+        let table = &mut self.context_mut().exception_table;
+        let mut start = body_start;
+        for (hole_start, hole_end) in holes {
+            if *hole_start >= body_end {
+                break;
+            }
+            table.push(ExceptionEntry::new(ty.clone(), start, *hole_start, dest, depth));
+            start = *hole_end;
+        }
+        if start < body_end {
+            table.push(ExceptionEntry::new(ty, start, body_end, dest, depth));
+        }
     }
 
-    fn push_ex_continue(&mut self, body_start: ISeqPos, body_end: ISeqPos, dest: ISeqPos) {
-        self.context_mut()
-            .exception_table
-            .push(ExceptionEntry::new_continue(body_start, body_end, dest));
+    /// Generate a jump (`gen_jump`) which leaves all begin-end's deeper than `depth` in the current context.
+    /// Ensure clauses of the begin-end's are executed in advance, from inner to outer.
+    fn gen_escape(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        depth: usize,
+        gen_jump: impl FnOnce(&mut Self, &mut ISeq),
+    ) -> Result<(), RubyError> {
+        let mut left = vec![];
+        while self.context().jump_dest.len() > depth {
+            let dest = self.pop_jump_dest();
+            let ensure = dest.ensure.clone();
+            left.push((dest, iseq.current()));
+            if let Some(ensure) = ensure {
+                self.gen(globals, iseq, ensure, false)?;
+            }
+        }
+        gen_jump(self, iseq);
+        let end = iseq.current();
+        while let Some((mut dest, start)) = left.pop() {
+            dest.holes.push((start, end));
+            self.context_mut().jump_dest.push(dest);
+        }
+        Ok(())
     }
 }
 
@@ -1009,7 +1049,8 @@ impl Codegen {
                 body,
                 cond_op,
             } => {
-                self.loop_stack.push(LoopInfo::new_loop());
+                let depth = self.context().jump_dest.len();
+                self.loop_stack.push(LoopInfo::new_loop(depth));
 
                 let loop_start = iseq.current();
                 let src = if cond_op {
@@ -1047,13 +1088,17 @@ impl Codegen {
                 ensure,
             } => {
                 let mut ensure_dest = vec![];
+                let mut dest = None;
+                let mut prev = None;
+                let ensure = ensure.map(|ensure| *ensure);
+                if ensure.is_some() || !rescue.is_empty() {
+                    iseq.push(Inst::BEGIN);
+                    iseq.push32(self.context().jump_dest.len() as u32);
+                }
+                self.push_jump_dest(ensure.clone());
                 let body_start = iseq.current();
-                self.push_jump_dest(ensure.is_some());
                 self.gen(globals, iseq, *body, use_value)?;
-                let jump_dest = self.pop_jump_dest();
                 let body_end = iseq.current();
-                let mut dest = None;
-                let mut prev = None;
 
                 if !rescue.is_empty() {
                     let else_dest = iseq.gen_jmp();
@@ -1097,16 +1142,8 @@ impl Codegen {
                     if let Some(prev) = prev {
                         iseq.write_disp_from_cur(prev);
                     }
-                    if let Some(box ensure) = ensure.clone() {
-                        self.gen(globals, iseq, ensure, false)?;
-                    }
                     self.save_loc(iseq, node.loc);
                     iseq.push(Inst::THROW);
-                    //iseq.gen_pop();
-                    //if use_value {
-                    //    iseq.gen_push_nil()
-                    //};
-                    //ensure_dest.push(iseq.gen_jmp());
                     iseq.write_disp_from_cur(else_dest);
                 }
                 // If no exception occured, execute else clause.
@@ -1116,41 +1153,38 @@ impl Codegen {
                     };
                     self.gen(globals, iseq, *else_, use_value)?
                 };
-                if !jump_dest.is_empty() {
-                    // Ensure clause for exception return path.
-                    let ensure_label = iseq.gen_jmp();
-                    for dest in &jump_dest.return_entries {
-                        iseq.write_disp_from_cur(*dest);
-                    }
-                    if !jump_dest.return_entries.is_empty() {
-                        if let Some(box ensure) = ensure.clone() {
-                            self.gen(globals, iseq, ensure, false)?;
-                        }
-                        self.save_loc(iseq, node.loc);
-                        iseq.gen_return();
-                    }
-                    for dest in &jump_dest.mreturn_entries {
-                        iseq.write_disp_from_cur(*dest);
-                    }
-                    if !jump_dest.mreturn_entries.is_empty() {
-                        if let Some(box ensure) = ensure.clone() {
-                            self.gen(globals, iseq, ensure, false)?;
-                        }
-                        self.save_loc(iseq, node.loc);
-                        iseq.gen_method_return();
-                    }
-                    iseq.write_disp_from_cur(ensure_label);
-                }
-                // Ensure clause for noraml return path.
+                let ensure_end = iseq.current();
+                let holes = self.pop_jump_dest().holes;
                 for src in ensure_dest {
                     iseq.write_disp_from_cur(src);
                 }
                 if let Some(dest) = dest {
-                    self.push_ex_rescue(body_start, body_end, dest);
+                    self.push_exception_entry(
+                        ExceptionType::Rescue,
+                        body_start,
+                        body_end,
+                        &holes,
+                        dest,
+                    );
                 }
-                // Ensure clause does not return value.
                 if let Some(ensure) = ensure {
-                    self.gen(globals, iseq, *ensure, false)?;
+                    // Ensure clause for normal path.
+                    // Ensure clause does not return value.
+                    self.gen(globals, iseq, ensure.clone(), false)?;
+                    let end = iseq.gen_jmp();
+                    // Ensure clause for exceptions and non-local jumps.
+                    let dest = iseq.current();
+                    self.gen(globals, iseq, ensure, false)?;
+                    self.save_loc(iseq, node.loc);
+                    iseq.push(Inst::THROW);
+                    iseq.write_disp_from_cur(end);
+                    self.push_exception_entry(
+                        ExceptionType::Ensure,
+                        body_start,
+                        ensure_end,
+                        &holes,
+                        dest,
+                    );
                 }
             }
             NodeKind::Case { cond, when_, else_ } => {
@@ -1501,23 +1535,14 @@ impl Codegen {
                 // Call ensure clauses.
                 // Note ensure clause does not return any value.
                 let is_block = self.context().kind == ContextKind::Block;
-                if let Some(ex) = self.context_mut().jump_dest.last_mut() {
-                    if ex.has_ensure {
-                        let dest = iseq.gen_jmp();
-                        if is_block {
-                            ex.mreturn_entries.push(dest)
-                        } else {
-                            ex.return_entries.push(dest)
-                        };
-                        return Ok(());
+                self.gen_escape(globals, iseq, 0, |codegen, iseq| {
+                    codegen.save_loc(iseq, node_loc);
+                    if is_block {
+                        iseq.gen_method_return();
+                    } else {
+                        iseq.gen_return();
                     }
-                }
-                self.save_loc(iseq, node.loc);
-                if is_block {
-                    iseq.gen_method_return();
-                } else {
-                    iseq.gen_return();
-                }
+                })?;
             }
             NodeKind::Break(val) => {
                 if self.loop_stack.last().unwrap().state == LoopState::Top {
@@ -1525,8 +1550,10 @@ impl Codegen {
                     match self.context().kind {
                         ContextKind::Block => {
                             self.gen(globals, iseq, *val, true)?;
-                            self.save_loc(iseq, node_loc);
-                            iseq.gen_break();
+                            self.gen_escape(globals, iseq, 0, |codegen, iseq| {
+                                codegen.save_loc(iseq, node_loc);
+                                iseq.gen_break();
+                            })?;
                         }
                         ContextKind::Method(_) | ContextKind::Class(_) => {
                             return Err(
@@ -1543,9 +1570,12 @@ impl Codegen {
                 } else {
                     //In the case of inner of loops
                     self.gen(globals, iseq, *val, true)?;
-                    let src = iseq.gen_jmp();
-                    let x = self.loop_stack.last_mut().unwrap();
-                    x.escape.push(EscapeInfo::new(src, EscapeKind::Break));
+                    let depth = self.loop_stack.last().unwrap().depth;
+                    self.gen_escape(globals, iseq, depth, |codegen, iseq| {
+                        let src = iseq.gen_jmp();
+                        let x = codegen.loop_stack.last_mut().unwrap();
+                        x.escape.push(EscapeInfo::new(src, EscapeKind::Break));
+                    })?;
                 }
             }
             NodeKind::Next(val) => {
@@ -1554,7 +1584,7 @@ impl Codegen {
                     match self.context_stack.last().unwrap().kind {
                         ContextKind::Block => {
                             self.gen(globals, iseq, *val, true)?;
-                            iseq.gen_return();
+                            self.gen_escape(globals, iseq, 0, |_, iseq| iseq.gen_return())?;
                         }
                         ContextKind::Method(_) | ContextKind::Class(_) => {
                             return Err(
@@ -1570,10 +1600,13 @@ impl Codegen {
                     }
                 } else {
                     //In the case of inner of loops
-                    self.gen(globals, iseq, *val, use_value)?;
-                    let src = iseq.gen_jmp();
-                    let x = self.loop_stack.last_mut().unwrap();
-                    x.escape.push(EscapeInfo::new(src, EscapeKind::Next));
+                    self.gen(globals, iseq, *val, false)?;
+                    let depth = self.loop_stack.last().unwrap().depth;
+                    self.gen_escape(globals, iseq, depth, |codegen, iseq| {
+                        let src = iseq.gen_jmp();
+                        let x = codegen.loop_stack.last_mut().unwrap();
+                        x.escape.push(EscapeInfo::new(src, EscapeKind::Next));
+                    })?;
                 }
             }
             NodeKind::Lambda(BlockInfo { params, body, lvar }) => {
@@ -1589,6 +1622,8 @@ impl Codegen {
                     node.loc,
                 )?;
                 self.loop_stack.pop().unwrap();
+                let mut lambda = globals.methods[method].as_iseq();
+                lambda.kind = ISeqKind::Method(None);
                 iseq.push(Inst::CREATE_PROC);
                 iseq.push32(method.into());
                 if !use_value {
@@ -1850,6 +1885,8 @@ impl Codegen {
 #[derive(Debug, Clone, PartialEq)]
 struct LoopInfo {
     state: LoopState,
+    /// The number of begin-end's surrounding the loop.
+    depth: usize,
     escape: Vec<EscapeInfo>,
 }
 
@@ -1857,13 +1894,15 @@ impl LoopInfo {
     fn new_top() -> Self {
         LoopInfo {
             state: LoopState::Top,
+            depth: 0,
             escape: vec![],
         }
     }
 
-    fn new_loop() -> Self {
+    fn new_loop(depth: usize) -> Self {
         LoopInfo {
             state: LoopState::Loop,
+            depth,
             escape: vec![],
         }
     }
@@ -1927,27 +1966,22 @@ impl Context {
     }
 }
 
-/// Local jump destination entry.
-/// i.e. return and method_return
+/// begin-end which a local jump (return, break, next) goes out of.
 #[derive(Debug, Clone, PartialEq)]
 struct LocalJumpDest {
-    has_ensure: bool,
-    return_entries: Vec<ISeqPos>,
-    mreturn_entries: Vec<ISeqPos>,
+    /// Ensure clause.
+    ensure: Option<Node>,
+    /// Codes in the begin-end, but executed outside of it.
+    holes: Vec<(ISeqPos, ISeqPos)>,
 }
 
 impl LocalJumpDest {
-    fn new(has_ensure: bool) -> Self {
+    fn new(ensure: Option<Node>) -> Self {
         LocalJumpDest {
-            has_ensure,
-            return_entries: vec![],
-            mreturn_entries: vec![],
+            ensure,
+            holes: vec![],
         }
     }
-
-    fn is_empty(&self) -> bool {
-        self.return_entries.is_empty() && self.mreturn_entries.is_empty()
-    }
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/codegen/defined.rs b/ruruby/src/codegen/defined.rs
index fcc50ee..07aebe1 100644
--- a/ruruby/src/codegen/defined.rs
+++ b/ruruby/src/codegen/defined.rs
@@ -16,7 +16,7 @@ impl Codegen {
         let end = iseq.gen_jmp();
         let pos = iseq.current();
         for ex in exceptions {
-            self.push_ex_continue(ex.0, ex.1, pos);
+            self.push_exception_entry(ExceptionType::Continue, ex.0, ex.1, &[], pos);
         }
         iseq.push(Inst::POP);
         nil_labels
diff --git a/ruruby/src/coroutine/stack.rs b/ruruby/src/coroutine/stack.rs
index f38b7b9..12cc0d7 100644
--- a/ruruby/src/coroutine/stack.rs
+++ b/ruruby/src/coroutine/stack.rs
@@ -106,7 +106,7 @@ extern "C" fn new_context(handle: FiberHandle) {
     eprintln!("<=== yield {:?} and terminate fiber.", res);
     let res = match res {
         Err(err) => match &err.kind {
-            RubyErrorKind::MethodReturn => Err(err.conv_localjump_err()),
+            RubyErrorKind::MethodReturn | RubyErrorKind::BlockReturn => Err(err.conv_localjump_err()),
             _ => Err(err),
         },
         res => res,
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 27e13a7..ba901bc 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -29,6 +29,8 @@ pub struct Globals {
     pub startup_flag: bool,
     /// register for error handling
     pub val: Value,
+    /// destination of the non-local jump (`break` or `return` in block) in progress
+    pub(crate) jump_dest: Option<EnvFrame>,
     pub fiber_result: VMResult,
     pub methods: MethodRepo,
     pub classes: Classes,
@@ -81,6 +83,7 @@ impl Globals {
             perf: Perf::new(),
             startup_flag: false,
             val: Value::nil(),
+            jump_dest: None,
             fiber_result: Ok(Value::nil()),
             methods: MethodRepo::new(),
             classes: Classes::dummy(),
@@ -455,6 +458,7 @@ impl Globals {
                 Inst::inst_name(iseq[pc]),
                 iseq.read32(pc + 1)
             ),
+            Inst::BEGIN => format!("BEGIN depth:{}", iseq.read32(pc + 1)),
             Inst::CONST_VAL => {
                 let id = iseq.read32(pc + 1);
                 format!("CONST_VAL {:?}", self.const_values.get(id as usize))
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 281f046..ef278eb 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -27,6 +27,8 @@ pub struct VM {
     // VM state
     stack: RubyStack,
     temp_stack: Vec<Value>,
+    /// begin-end's entered so far: (frame, depth of begin-end, sp on entering)
+    begin_stack: Vec<(ControlFrame, usize, StackPtr)>,
     /// program counter
     pc: ISeqPtr,
     /// local frame pointer
@@ -97,6 +99,7 @@ impl VM {
             globals,
             stack: RubyStack::new(),
             temp_stack: vec![],
+            begin_stack: vec![],
             pc: ISeqPtr::default(),
             lfp: LocalFrame::default(),
             cfp: ControlFrame::default(),
@@ -153,6 +156,7 @@ impl VM {
         let mut vm = VM {
             globals: self.globals,
             temp_stack: vec![],
+            begin_stack: vec![],
             stack: RubyStack::new(),
             pc: ISeqPtr::default(),
             lfp: LocalFrame::default(),
@@ -392,34 +396,20 @@ impl VM {
                     return Ok(val);
                 }
                 Err(mut err) => {
-                    match err.kind {
-                        RubyErrorKind::BlockReturn => {
-                            #[cfg(feature = "trace")]
-                            eprintln!("<+++ BlockReturn({:?})", self.globals.val);
-                            return Err(err);
-                        }
-                        RubyErrorKind::MethodReturn => {
-                            // In the case of MethodReturn, returned value is to be saved in vm.globals.val.
-                            loop {
-                                if invoke_count == 0 {
-                                    #[cfg(feature = "trace")]
-                                    eprintln!("<+++ MethodReturn({:?})", self.globals.val);
-                                    self.unwind_frame();
-                                    return Err(err);
-                                };
-                                self.unwind_frame();
-                                #[cfg(feature = "trace")]
-                                eprintln!("<--- MethodReturn({:?})", self.globals.val);
-                                invoke_count -= 1;
-                                if self.iseq.is_method() {
-                                    break;
-                                }
-                            }
-                            let val = self.globals.val;
-                            self.stack_push(val);
+                    if matches!(
+                        err.kind,
+                        RubyErrorKind::BlockReturn | RubyErrorKind::MethodReturn
+                    ) {
+                        if self.handle_jump(&err, &mut invoke_count) {
                             continue;
                         }
-                        _ => {}
+                        if self.is_jump_dest() {
+                            // Returned from 'call'ed method/lambda.
+                            self.unwind_frame();
+                            return Ok(self.globals.val);
+                        }
+                        self.unwind_frame();
+                        return Err(err);
                     }
                     // Handle Exception.
                     loop {
@@ -439,8 +429,10 @@ impl VM {
                             // Exception raised inside of begin-end with rescue clauses.
                             self.set_pc(entry.dest);
                             match entry.ty {
-                                ExceptionType::Rescue => self.clear_stack(),
-                                _ => {}
+                                ExceptionType::Rescue | ExceptionType::Ensure => {
+                                    self.restore_stack(entry.depth)
+                                }
+                                ExceptionType::Continue => {}
                             };
                             let val = self
                                 .globals
@@ -470,6 +462,89 @@ impl VM {
     }
 }
 
+impl VM {
+    /// Whether the current frame is the destination of the non-local jump in progress.
+    fn is_jump_dest(&self) -> bool {
+        self.cfp.is_jump_dest(&self.globals)
+    }
+
+    /// Unwind frames for the non-local jump, executing ensure clauses on the way.
+    ///
+    /// Return false if the jump gets out of the 'call'ed method/block.
+    /// In this case, the frame of the method/block is not unwound.
+    fn handle_jump(&mut self, err: &RubyError, invoke_count: &mut usize) -> bool {
+        let is_break = err.is_block_return();
+        let mut use_value = true;
+        loop {
+            let is_dest = self.is_jump_dest();
+            if is_dest && is_break {
+                if use_value {
+                    let val = self.globals.val;
+                    self.stack_push(val);
+                }
+                return true;
+            }
+            // Execute ensure clause.
+            let cur_pc = self.pc_offset();
+            let ensure = self
+                .iseq
+                .exception_table
+                .iter()
+                .find(|x| x.ty == ExceptionType::Ensure && x.include(cur_pc))
+                .map(|x| (x.dest, x.depth));
+            if let Some((dest, depth)) = ensure {
+                self.set_pc(dest);
+                self.restore_stack(depth);
+                let val = self.encode_jump(is_break);
+                self.stack_push(val);
+                return true;
+            }
+            if *invoke_count == 0 {
+                return false;
+            }
+            use_value = !self.discard_val();
+            self.unwind_frame();
+            *invoke_count -= 1;
+            if is_dest {
+                if use_value {
+                    let val = self.globals.val;
+                    self.stack_push(val);
+                }
+                return true;
+            }
+        }
+    }
+
+    /// Encode the non-local jump in progress as Value (Array) to resume after ensure clause.
+    fn encode_jump(&self, is_break: bool) -> Value {
+        Value::array_from(vec![
+            Value::bool(is_break),
+            EnvFrame::encode(self.globals.jump_dest),
+            self.globals.val,
+        ])
+    }
+
+    fn decode_throw(&mut self, val: Value) -> RubyError {
+        match val.as_array() {
+            // non-local jump
+            Some(jump) => {
+                self.globals.jump_dest = EnvFrame::decode(jump[1]);
+                self.globals.val = jump[2];
+                if jump[0].to_bool() {
+                    RubyError::block_return()
+                } else {
+                    RubyError::method_return()
+                }
+            }
+            // exception
+            None => {
+                self.globals.val = val;
+                RubyError::value()
+            }
+        }
+    }
+}
+
 impl VM {
     pub fn show_err(&self, err: &RubyError) {
         if err.is_exception() {
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index 0fa344d..b1cdc22 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -172,6 +172,14 @@ impl ControlFrame {
         Self::dec(v).map(|p| Self(p))
     }
 
+    /// Whether the frame is the destination of the non-local jump in progress.
+    pub(super) fn is_jump_dest(&self, globals: &Globals) -> bool {
+        match globals.jump_dest {
+            Some(dest) => self.is_ruby_func() && self.ep() == dest.ep(),
+            None => false,
+        }
+    }
+
     pub(super) fn get_prev_sp(&self) -> StackPtr {
         self.as_sp() - self.flag_len() - 2
     }
@@ -250,11 +258,11 @@ impl EnvFrame {
         Self(r as *const _ as *mut _)
     }
 
-    fn decode(v: Value) -> Option<Self> {
+    pub(super) fn decode(v: Value) -> Option<Self> {
         Self::dec(v).map(|p| Self(p))
     }
 
-    fn encode(opt: Option<Self>) -> Value {
+    pub(super) fn encode(opt: Option<Self>) -> Value {
         opt.unwrap_or_default().enc()
     }
 
@@ -666,14 +674,27 @@ impl VM {
         }
     }
 
-    pub(super) fn clear_stack(&mut self) {
-        self.stack.sp = self.cfp.as_sp()
-            + CONT_FRAME_LEN
-            + if self.is_ruby_func() {
-                RUBY_FRAME_LEN
-            } else {
-                0
-            };
+    /// Save sp on entering begin-end which is in `depth`-fold begin-end of the current frame.
+    pub(super) fn enter_begin(&mut self, depth: usize) {
+        // Discard the entries of terminated frames and exited begin-end's.
+        while let Some((cfp, d, _)) = self.begin_stack.last() {
+            if cfp.as_ptr() < self.cfp.as_ptr() || (*cfp == self.cfp && *d < depth) {
+                break;
+            }
+            self.begin_stack.pop();
+        }
+        self.begin_stack.push((self.cfp, depth, self.sp()));
+    }
+
+    /// Restore sp saved on entering begin-end.
+    pub(super) fn restore_stack(&mut self, depth: usize) {
+        let (_, _, sp) = self
+            .begin_stack
+            .iter()
+            .rev()
+            .find(|(cfp, d, _)| *cfp == self.cfp && *d == depth)
+            .unwrap();
+        self.stack.sp = *sp;
     }
 
     fn push_control_frame(&mut self, prev_cfp: ControlFrame, ep: EnvFrame, flag: u64) {
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index 3cb765a..5dcd762 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -561,7 +561,7 @@ impl VM {
         match res {
             Ok(val) => Ok(val),
             Err(err) => {
-                if err.is_block_return() {
+                if err.is_block_return() && cfp.is_jump_dest(&self.globals) {
                     let val = self.globals.val;
                     Ok(val)
                 } else {
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index ad5ef60..df4c69b 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -33,26 +33,7 @@ impl VM {
                                 self.stack_push(v);
                             }
                         }
-                        Err(err) => match err.kind {
-                            RubyErrorKind::BlockReturn => {}
-                            RubyErrorKind::MethodReturn if self.iseq.is_method() => {
-                                let val = self.globals.val;
-                                if *invoke_count == 0 {
-                                    return Ok(val);
-                                } else {
-                                    self.unwind_frame();
-                                    *invoke_count -= 1;
-                                    #[cfg(feature = "trace")]
-                                    eprintln!("<--- Ok({:?})", self.globals.val);
-                                    self.stack_push(val);
-                                    break;
-                                }
-                            }
-                            RubyErrorKind::MethodReturn => {
-                                return Err(err);
-                            }
-                            _ => return Err(err),
-                        },
+                        Err(err) => return Err(err),
                     }
                 };
             }
@@ -134,33 +115,34 @@ impl VM {
                     }
                     Inst::BREAK => {
                         // - `break`  in block or eval AND outer of loops.
-                        debug_assert!(
-                            self.kind() == ISeqKind::Block || self.kind() == ISeqKind::Other
-                        );
-                        self.globals.val = self.stack_pop();
-                        self.unwind_frame();
-                        if *invoke_count == 0 {
-                            let err = RubyError::block_return();
-                            return Err(err);
-                        } else {
-                            *invoke_count -= 1;
-                            #[cfg(feature = "trace")]
-                            eprintln!("<--- BlockReturn({:?})", self.globals.val);
-                            break;
+                        if self.iseq.is_method() {
+                            // `break` in lambda.
+                            self.globals.jump_dest = Some(self.cfp.ep());
+                            self.globals.val = self.stack_pop();
+                            return Err(RubyError::method_return());
                         }
+                        self.globals.jump_dest = self.cfp.ep().outer();
+                        self.globals.val = self.stack_pop();
+                        return Err(RubyError::block_return());
                     }
                     Inst::MRETURN => {
-                        // - `return` in block
-                        debug_assert!(self.kind() == ISeqKind::Block);
+                        // - `return` in block or lambda
+                        let mut ep = self.cfp.ep();
+                        while ep.iseq().is_block() {
+                            match ep.outer() {
+                                Some(outer) => ep = outer,
+                                None => break,
+                            }
+                        }
+                        self.globals.jump_dest = Some(ep);
                         self.globals.val = self.stack_pop();
-                        let err = RubyError::method_return();
-                        return Err(err);
+                        return Err(RubyError::method_return());
                     }
                     Inst::THROW => {
-                        // - raise error
-                        self.globals.val = self.stack_pop();
+                        // - raise error or resume non-local jump
+                        let val = self.stack_pop();
                         self.pc -= 1;
-                        return Err(RubyError::value());
+                        return Err(self.decode_throw(val));
                     }
                     Inst::PUSH_NIL => self.stack_push(Value::nil()),
                     Inst::PUSH_SELF => self.stack_push(self_val),
@@ -222,6 +204,10 @@ impl VM {
                         self.stack.sp -= len + 1;
                         self.stack_push(Value::bool(b));
                     }
+                    Inst::BEGIN => {
+                        let depth = self.pc.read32() as usize;
+                        self.enter_begin(depth);
+                    }
                     Inst::CONCAT_STRING => {
                         let num = self.pc.read32() as usize;
                         let res = (self.stack.sp - num)[0..num]
-- 
2.43.0


From 00344bf39f33092c96e833c80b916a153f5fb8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 12/87] fix: raise with a class and a message lost the class,
 Exception#initialize ignored

---
 ruruby/src/builtin/exception.rs | 58 +++++++++++++++++++--------------
 ruruby/src/builtin/kernel.rs    | 25 ++++++++++----
 ruruby/src/value/rvalue.rs      |  5 +++
 3 files changed, 57 insertions(+), 31 deletions(-)

diff --git a/ruruby/src/builtin/exception.rs b/ruruby/src/builtin/exception.rs
index c2eef0b..144bf1a 100644
--- a/ruruby/src/builtin/exception.rs
+++ b/ruruby/src/builtin/exception.rs
@@ -7,6 +7,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     exception.add_builtin_class_method(globals, "exception", exception_new);
     exception.add_builtin_class_method(globals, "allocate", exception_allocate);
 
+    exception.add_builtin_method_by_str(globals, "initialize", initialize);
     exception.add_builtin_method_by_str(globals, "inspect", inspect);
     exception.add_builtin_method_by_str(globals, "to_s", tos);
     builtin::module::set_attr_accessor(
@@ -73,17 +74,10 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
 // Class methods
 
 fn exception_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_range(0, 1)?;
     let self_val = self_val.into_module();
-    let new_instance = if args.len() == 0 {
-        let class_name = self_val.name();
-        Value::exception(self_val, RubyError::none(class_name))
-    } else {
-        let mut arg = vm[0];
-        let err = arg.expect_string("1st arg")?;
-        Value::exception(self_val, RubyError::none(err))
-    };
-    // Call initialize method if it exists.
+    let class_name = self_val.name();
+    let new_instance = Value::exception(self_val, RubyError::none(class_name));
+    // Call initialize method.
     vm.eval_initialize(self_val, new_instance, args)?;
     Ok(new_instance)
 }
@@ -97,28 +91,42 @@ fn exception_allocate(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 // Instance methods
 
-fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn initialize(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_range(0, 1)?;
+    if args.len() == 1 {
+        let arg = vm[0];
+        let message = arg.val_to_s(vm)?.into_owned();
+        *self_val.rvalue_mut().exception_mut() = RubyError::none(message);
+        self_val.set_var(IdentId::get_id("@message"), arg);
+    }
+    Ok(Value::nil())
+}
+
+/// Get the message of the exception as String.
+fn get_message(vm: &mut VM, self_val: Value) -> Result<String, RubyError> {
+    match self_val.get_var(IdentId::get_id("@message")) {
+        Some(message) => message.val_to_s(vm).map(|s| s.into_owned()),
+        None => match self_val.if_exception() {
+            Some(err) => Ok(err.message()),
+            None => unreachable!("Not a Exception."),
+        },
+    }
+}
+
+fn inspect(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let val = self_val;
-    let err = match val.if_exception() {
-        Some(err) => err,
-        _ => unreachable!("Not a Exception."),
-    };
+    let message = get_message(vm, self_val)?;
     Ok(Value::string(format!(
         "#<{}: {}>",
-        val.get_class_name(),
-        err.message()
+        self_val.get_class_name(),
+        message
     )))
 }
 
-fn tos(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn tos(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let val = self_val;
-    let err = match val.if_exception() {
-        Some(err) => err,
-        _ => unreachable!("Not a Exception."),
-    };
-    Ok(Value::string(err.message()))
+    let message = get_message(vm, self_val)?;
+    Ok(Value::string(message))
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 6c56726..c43d08a 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -217,13 +217,12 @@ fn raise(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         0 => Err(RubyError::none("")),
         1 => {
             let arg0 = vm[0];
-            if let Some(s) = arg0.as_string() {
-                Err(RubyError::none(s))
+            if arg0.as_string().is_some() {
+                let class = vm.globals.get_toplevel_constant("RuntimeError");
+                raise_exception(vm, class, &[arg0])
             } else if arg0.is_class() {
                 if arg0.is_exception_class() {
-                    let method = arg0.get_method_or_nomethod(&mut vm.globals, IdentId::NEW)?;
-                    vm.globals.val = vm.eval_method0(method, arg0)?;
-                    Err(RubyError::value())
+                    raise_exception(vm, arg0, &[])
                 } else {
                     Err(RubyError::typeerr("Exception class/object expected."))
                 }
@@ -234,10 +233,24 @@ fn raise(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
                 Err(RubyError::typeerr("Exception class/object expected."))
             }
         }
-        _ => Err(RubyError::none(vm[1].clone().expect_string("2nd arg")?)),
+        _ => {
+            let (arg0, arg1) = (vm[0], vm[1]);
+            if arg0.is_class() && arg0.is_exception_class() {
+                raise_exception(vm, arg0, &[arg1])
+            } else {
+                Err(RubyError::typeerr("Exception class/object expected."))
+            }
+        }
     }
 }
 
+/// Raise a new instance of the exception class `class`.
+fn raise_exception(vm: &mut VM, class: Value, args: &[Value]) -> VMResult {
+    let method = class.get_method_or_nomethod(&mut vm.globals, IdentId::NEW)?;
+    vm.globals.val = vm.eval_method(method, class, args, &Args2::new(args.len()))?;
+    Err(RubyError::value())
+}
+
 /// rand(max = 0) -> Integer | Float
 /// rand(range) -> Integer | Float | nil
 /// https://docs.ruby-lang.org/ja/latest/method/Kernel/m/rand.html
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 705b7c5..558207e 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -371,6 +371,11 @@ impl RValue {
         unsafe { &**self.kind.exception }
     }
 
+    #[inline(always)]
+    pub fn exception_mut(&mut self) -> &mut RubyError {
+        unsafe { &mut **self.kind.exception }
+    }
+
     #[inline(always)]
     pub fn binding(&self) -> EnvFrame {
         unsafe { self.kind.binding }
-- 
2.43.0


From efb685a34af71b75e90bac42e631073961e4987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:36 +0000
Subject: [PATCH 13/87] fix: super looped in hierarchies of three or more
 classes, lost block and rest arguments; prepended modules were ignored by the
 class itself

---
 ruruby/src/builtin/module.rs       |  2 +-
 ruruby/src/value/class.rs          | 45 +++++++++++++++++++++++----
 ruruby/src/vm/executor/frame.rs    |  5 +++
 ruruby/src/vm/executor/opt_core.rs | 49 +++++++++++++++++++++++-------
 4 files changed, 83 insertions(+), 18 deletions(-)

diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index 5179616..05a40fd 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -413,7 +413,7 @@ fn included_modules(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn ancestors(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let mut module = Some(self_val.into_module());
+    let mut module = Some(self_val.into_module().search_root());
     let mut ary = vec![];
     loop {
         match module {
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 7ed55b9..c98ba59 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -186,17 +186,30 @@ impl DefinedMethod {
 }
 
 impl Module {
-    /// Get method for a receiver which class is `self` and `method` (IdentId) without using method cache.
-    /// Returns `FnId` and its owner `Module`.
-    pub(crate) fn search_method(&self, method: IdentId) -> Option<DefinedMethod> {
-        let mut class = *self;
+    /// The first class/module to be searched for methods of a receiver which class is `self`.
+    pub(crate) fn search_root(&self) -> Module {
+        if self.has_prepend() {
+            self.upper().unwrap()
+        } else {
+            *self
+        }
+    }
+
+    /// Search `method` (IdentId) for a receiver which class is `self`, and
+    /// return the first method for which `f` returns true.
+    fn search_method_with(
+        &self,
+        method: IdentId,
+        mut f: impl FnMut(FnId) -> bool,
+    ) -> Option<DefinedMethod> {
+        let mut class = self.search_root();
         let mut singleton_flag = self.is_singleton();
         loop {
             match class.get_instance_method(method) {
-                Some(method) => {
+                Some(method) if f(method) => {
                     return Some(DefinedMethod::new(method, class));
                 }
-                None => match class.upper() {
+                _ => match class.upper() {
                     Some(superclass) => class = superclass,
                     None => {
                         if singleton_flag {
@@ -211,6 +224,26 @@ impl Module {
         }
     }
 
+    /// Get method for a receiver which class is `self` and `method` (IdentId) without using method cache.
+    /// Returns `FnId` and its owner `Module`.
+    pub(crate) fn search_method(&self, method: IdentId) -> Option<DefinedMethod> {
+        self.search_method_with(method, |_| true)
+    }
+
+    /// Get the method which `super` in `current` (a method named `method`) calls.
+    pub(crate) fn search_super_method(&self, method: IdentId, current: FnId) -> Option<FnId> {
+        let mut found = false;
+        self.search_method_with(method, |fid| {
+            let is_super = found;
+            if fid == current {
+                found = true;
+                return false;
+            }
+            is_super
+        })
+        .map(|m| m.fid())
+    }
+
     pub(crate) fn search_method_no_inherit(&self, method: IdentId) -> Option<FnId> {
         self.get_instance_method(method)
     }
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index b1cdc22..61417a8 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -483,6 +483,11 @@ impl VM {
         self.cur_mfp().block()
     }
 
+    /// Get local frame of the current method.
+    pub(super) fn method_lfp(&self) -> LocalFrame {
+        self.cur_mfp().ep().get_lfp()
+    }
+
     pub(super) fn get_method_iseq(&self) -> ISeqRef {
         self.cur_mfp().iseq()
     }
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index df4c69b..15cdb84 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -483,10 +483,10 @@ impl VM {
                     }
                     Inst::SUPER => {
                         let args_num = self.pc.read16() as usize;
-                        let _block = self.pc.read_method();
+                        let block = self.pc.read_method();
                         let flag = self.pc.read8() == 1;
                         //let self_value = self.self_value();
-                        dispatch!(self.vm_super(self_val, args_num, flag), true);
+                        dispatch!(self.vm_super(self_val, args_num, block, flag), true);
                     }
                     Inst::DEF_CLASS => {
                         let is_module = self.pc.read8() == 1;
@@ -735,6 +735,7 @@ impl VM {
         &mut self,
         self_value: Value,
         args_num: usize,
+        block: Option<FnId>,
         delegate_flag: bool,
     ) -> InvokeResult {
         // TODO: support keyword parameter, etc..
@@ -742,31 +743,57 @@ impl VM {
         if let ISeqKind::Method(Some(m_id)) = iseq.kind {
             let class = self.globals.get_class_for_method(self_value);
             let method = class
-                .superclass()
-                .map(|class| self.globals.methods.find_method(class, m_id))
-                .flatten()
+                .search_super_method(m_id, iseq.method)
                 .ok_or_else(|| {
                     RubyError::nomethod(format!(
                         "no superclass method `{:?}' for {:?}.",
                         m_id, self_value
                     ))
                 })?;
-            let args = if delegate_flag {
+            let mut args = if delegate_flag {
                 // When `super` has no arguments, use arguments which were passed to the current method.
-                let param_num = iseq.params.param_ident.len();
-                for i in 0..param_num as isize {
-                    self.stack_push(self.lfp[i]);
-                }
-                Args2::new(args_num + param_num)
+                self.push_method_args(iseq)
             } else {
                 self.pop_args_to_args(args_num)
             };
+            args.block = match block {
+                Some(block) => Some(Block::Block(block, self.cur_frame())),
+                None => self.get_method_block(),
+            };
             self.invoke_method(method, &args, true)
         } else {
             Err(RubyError::nomethod("super called outside of method"))
         }
     }
 
+    /// Push the current values of the parameters of the current method.
+    fn push_method_args(&mut self, iseq: ISeqRef) -> Args2 {
+        let params = &iseq.params;
+        let lfp = self.method_lfp();
+        let prev_sp = self.sp();
+        let mut i = 0;
+        for _ in 0..params.req + params.opt {
+            self.stack_push(lfp[i]);
+            i += 1;
+        }
+        if let Some(delegate) = params.delegate {
+            if let Some(ary) = lfp[delegate].as_array() {
+                self.stack.extend_from_slice(&**ary);
+            }
+        }
+        if params.rest == Some(true) {
+            if let Some(ary) = lfp[i].as_array() {
+                self.stack.extend_from_slice(&**ary);
+            }
+            i += 1;
+        }
+        for _ in 0..params.post {
+            self.stack_push(lfp[i]);
+            i += 1;
+        }
+        Args2::new((self.sp() - prev_sp) as usize)
+    }
+
     /// Invoke the block given to the method with `args`.
     fn vm_yield(&mut self, args: &Args2) -> InvokeResult {
         match &self.get_method_block() {
-- 
2.43.0


From ef6bed613c0600b1187db72126f4e9ce53dd75ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:20 +0000
Subject: [PATCH 14/87] fix: break/next out of a loop left operands of
 partially evaluated expressions on the stack

---
 ruruby-common/src/vm_inst.rs       |  3 +++
 ruruby/src/codegen.rs              | 19 ++++++++++++++++---
 ruruby/src/globals.rs              |  1 +
 ruruby/src/vm/executor/opt_core.rs |  6 ++++++
 4 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index 749a456..926d25c 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -75,6 +75,7 @@ impl Inst {
     pub const OPT_CASE2: u8 = 111;
     pub const SUPER: u8 = 112;
     pub const BEGIN: u8 = 113;
+    pub const UNWIND: u8 = 114;
     
     pub const ADD: u8 = 120;
     pub const SUB: u8 = 121;
@@ -244,6 +245,7 @@ impl Inst {
             Inst::THROW => "THROW",
             Inst::SUPER => "SUPER",
             Inst::BEGIN => "BEGIN",
+            Inst::UNWIND => "UNWIND",
 
             _ => return format!("undefined {}", inst),
         };
@@ -342,6 +344,7 @@ impl Inst {
             | Inst::YIELD               // number of items: u32
             | Inst::RESCUE              // number of items: u32
             | Inst::BEGIN               // depth of begin-end: u32
+            | Inst::UNWIND              // depth of begin-end: u32
             => 5,
 
             Inst::SUPER  => 8,
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index bc95aac..d94e661 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -130,6 +130,12 @@ impl Codegen {
         self.context_mut().jump_dest.pop().unwrap()
     }
 
+    /// Discard the operands pushed since entering the innermost loop, leaving the top of the stack.
+    fn gen_unwind(&mut self, iseq: &mut ISeq) {
+        iseq.push(Inst::UNWIND);
+        iseq.push32(self.context().jump_dest.len() as u32 - 1);
+    }
+
     /// Register an exception handler `dest` of type `ty` for the codes in `body_start`..`body_end`,
     /// excluding `holes` (the codes executed after leaving the begin-end by a jump).
     fn push_exception_entry(
@@ -1050,7 +1056,10 @@ impl Codegen {
                 cond_op,
             } => {
                 let depth = self.context().jump_dest.len();
-                self.loop_stack.push(LoopInfo::new_loop(depth));
+                iseq.push(Inst::BEGIN);
+                iseq.push32(depth as u32);
+                self.push_jump_dest(None);
+                self.loop_stack.push(LoopInfo::new_loop(depth + 1));
 
                 let loop_start = iseq.current();
                 let src = if cond_op {
@@ -1060,6 +1069,7 @@ impl Codegen {
                     iseq.gen_jmp_if_t()
                 };
                 self.gen(globals, iseq, *body, false)?;
+                self.pop_jump_dest();
                 iseq.gen_jmp_back(loop_start);
                 iseq.write_disp_from_cur(src);
 
@@ -1572,6 +1582,7 @@ impl Codegen {
                     self.gen(globals, iseq, *val, true)?;
                     let depth = self.loop_stack.last().unwrap().depth;
                     self.gen_escape(globals, iseq, depth, |codegen, iseq| {
+                        codegen.gen_unwind(iseq);
                         let src = iseq.gen_jmp();
                         let x = codegen.loop_stack.last_mut().unwrap();
                         x.escape.push(EscapeInfo::new(src, EscapeKind::Break));
@@ -1600,9 +1611,11 @@ impl Codegen {
                     }
                 } else {
                     //In the case of inner of loops
-                    self.gen(globals, iseq, *val, false)?;
+                    self.gen(globals, iseq, *val, true)?;
                     let depth = self.loop_stack.last().unwrap().depth;
                     self.gen_escape(globals, iseq, depth, |codegen, iseq| {
+                        codegen.gen_unwind(iseq);
+                        iseq.gen_pop();
                         let src = iseq.gen_jmp();
                         let x = codegen.loop_stack.last_mut().unwrap();
                         x.escape.push(EscapeInfo::new(src, EscapeKind::Next));
@@ -1885,7 +1898,7 @@ impl Codegen {
 #[derive(Debug, Clone, PartialEq)]
 struct LoopInfo {
     state: LoopState,
-    /// The number of begin-end's surrounding the loop.
+    /// The number of begin-end's and loops surrounding the body of the loop.
     depth: usize,
     escape: Vec<EscapeInfo>,
 }
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index ba901bc..f977141 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -459,6 +459,7 @@ impl Globals {
                 iseq.read32(pc + 1)
             ),
             Inst::BEGIN => format!("BEGIN depth:{}", iseq.read32(pc + 1)),
+            Inst::UNWIND => format!("UNWIND depth:{}", iseq.read32(pc + 1)),
             Inst::CONST_VAL => {
                 let id = iseq.read32(pc + 1);
                 format!("CONST_VAL {:?}", self.const_values.get(id as usize))
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 15cdb84..b4b3e72 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -208,6 +208,12 @@ impl VM {
                         let depth = self.pc.read32() as usize;
                         self.enter_begin(depth);
                     }
+                    Inst::UNWIND => {
+                        let depth = self.pc.read32() as usize;
+                        let val = self.stack_pop();
+                        self.restore_stack(depth);
+                        self.stack_push(val);
+                    }
                     Inst::CONCAT_STRING => {
                         let num = self.pc.read32() as usize;
                         let res = (self.stack.sp - num)[0..num]
-- 
2.43.0


From 04edde9efae6fd5ddb0c7a866998a0ebc75314a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:36 +0000
Subject: [PATCH 15/87] fix: break/next in ensure clause run by an escape bound
 to the wrong loop, exceptions rethrown after such an escape skipped outer
 clauses

---
 ruruby/src/codegen.rs              | 16 ++++++++++++----
 ruruby/src/vm/executor/opt_core.rs |  1 -
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index d94e661..5f4a759 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -121,9 +121,10 @@ impl Codegen {
     }
 
     fn push_jump_dest(&mut self, ensure: Option<Node>) {
+        let loops = self.loop_stack.len();
         self.context_mut()
             .jump_dest
-            .push(LocalJumpDest::new(ensure));
+            .push(LocalJumpDest::new(ensure, loops));
     }
 
     fn pop_jump_dest(&mut self) -> LocalJumpDest {
@@ -174,9 +175,13 @@ impl Codegen {
         while self.context().jump_dest.len() > depth {
             let dest = self.pop_jump_dest();
             let ensure = dest.ensure.clone();
+            let loops = dest.loops;
             left.push((dest, iseq.current()));
             if let Some(ensure) = ensure {
+                // break/next in the ensure clause is for the loops surrounding the begin-end.
+                let inner_loops = self.loop_stack.split_off(loops);
                 self.gen(globals, iseq, ensure, false)?;
+                self.loop_stack.extend(inner_loops);
             }
         }
         gen_jump(self, iseq);
@@ -1152,8 +1157,8 @@ impl Codegen {
                     if let Some(prev) = prev {
                         iseq.write_disp_from_cur(prev);
                     }
-                    self.save_loc(iseq, node.loc);
                     iseq.push(Inst::THROW);
+                    self.save_loc(iseq, node.loc);
                     iseq.write_disp_from_cur(else_dest);
                 }
                 // If no exception occured, execute else clause.
@@ -1185,8 +1190,8 @@ impl Codegen {
                     // Ensure clause for exceptions and non-local jumps.
                     let dest = iseq.current();
                     self.gen(globals, iseq, ensure, false)?;
-                    self.save_loc(iseq, node.loc);
                     iseq.push(Inst::THROW);
+                    self.save_loc(iseq, node.loc);
                     iseq.write_disp_from_cur(end);
                     self.push_exception_entry(
                         ExceptionType::Ensure,
@@ -1984,14 +1989,17 @@ impl Context {
 struct LocalJumpDest {
     /// Ensure clause.
     ensure: Option<Node>,
+    /// The number of loops surrounding the begin-end.
+    loops: usize,
     /// Codes in the begin-end, but executed outside of it.
     holes: Vec<(ISeqPos, ISeqPos)>,
 }
 
 impl LocalJumpDest {
-    fn new(ensure: Option<Node>) -> Self {
+    fn new(ensure: Option<Node>, loops: usize) -> Self {
         LocalJumpDest {
             ensure,
+            loops,
             holes: vec![],
         }
     }
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index b4b3e72..26c1d3a 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -141,7 +141,6 @@ impl VM {
                     Inst::THROW => {
                         // - raise error or resume non-local jump
                         let val = self.stack_pop();
-                        self.pc -= 1;
                         return Err(self.decode_throw(val));
                     }
                     Inst::PUSH_NIL => self.stack_push(Value::nil()),
-- 
2.43.0


From fd8a5f4f316daf6c844400606746b66ca86075eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:55 +0000
Subject: [PATCH 16/87] fix: Array#shift, concat(self), -, join, drop, min/max,
 transpose, index/delete, range access

---
 ruruby/src/builtin/array.rs | 128 +++++++++++++++++-------------------
 ruruby/src/value/array.rs   |  31 +++++----
 2 files changed, 78 insertions(+), 81 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 191865f..967ffc5 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -267,9 +267,7 @@ fn shift(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
     let mut ary = self_val.into_array();
     if array_flag {
-        if ary.len() < num {
-            return Ok(Value::array_empty().into());
-        }
+        let num = std::cmp::min(num, ary.len());
         let new = ArrayInfo::new_from_slice(&ary[num..]);
         let res = Value::array_from_slice(&ary[0..num]);
         *ary = new;
@@ -318,21 +316,8 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         let res = Value::array_from_with_class(v, vm.globals.get_class(self_val));
         Ok(res.into())
     } else if let Some(s) = vm[0].clone().as_string() {
-        match ary.len() {
-            0 => return Ok(Value::string("")),
-            1 => {
-                let res = ary[0].val_to_s(vm)?;
-                return Ok(Value::string(res));
-            }
-            _ => {
-                let mut res = ary[0].val_to_s(vm)?.to_string();
-                for i in 1..ary.len() {
-                    let elem = ary[i].val_to_s(vm)?;
-                    res = res + s + &elem;
-                }
-                return Ok(Value::string(res));
-            }
-        };
+        let res = ary_join(vm, self_val, s, &mut vec![])?;
+        return Ok(Value::string(res));
     } else {
         return Err(VMError::no_implicit_conv(vm[0], "Integer"));
     }
@@ -349,8 +334,9 @@ fn add(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn concat(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let lhs = &mut *self_val.into_array();
-    let rhs = &**vm[0].expect_array("Argument")?;
-    lhs.extend_from_slice(rhs);
+    // Argument may be self.
+    let rhs = vm[0].expect_array("Argument")?.to_vec();
+    lhs.extend_from_slice(&rhs);
     Ok(self_val)
 }
 
@@ -362,7 +348,7 @@ fn sub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     for lhs in lhs_v {
         let mut flag = true;
         for rhs in rhs_v {
-            if vm.eval_eq2(*lhs, *rhs)? {
+            if lhs.eql(rhs) {
                 flag = false;
                 break;
             }
@@ -620,17 +606,19 @@ fn transpose(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         .as_array()
         .ok_or_else(|| RubyError::argument("Each element of receiver must be an array."))?
         .len();
+    for v in aref {
+        let a = v
+            .as_array()
+            .ok_or_else(|| RubyError::argument("Each element of receiver must be an array."))?;
+        if a.len() != len {
+            return Err(RubyError::index("Element size differs."));
+        }
+    }
     let mut trans = vec![];
     for i in 0..len {
         let mut temp = vec![];
         for v in aref {
-            let a = &**v
-                .as_array()
-                .ok_or_else(|| RubyError::argument("Each element of receiver must be an array."))?;
-            if a.len() != len {
-                return Err(RubyError::index("Element size differs."));
-            }
-            temp.push(a[i]);
+            temp.push(v.into_array()[i]);
         }
         let ary = Value::array_from(temp).into();
         trans.push(ary);
@@ -639,34 +627,19 @@ fn transpose(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(res)
 }
 
-fn min(_: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
-    fn to_float(val: Value) -> Result<f64, RubyError> {
-        if let Some(i) = val.as_fixnum() {
-            Ok(i as f64)
-        } else if let Some(f) = val.as_flonum() {
-            Ok(f)
-        } else {
-            Err(RubyError::typeerr(
-                "Currently, each element must be Numeric.",
-            ))
-        }
-    }
-
+fn min(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
     let aref = self_val.into_array();
     if aref.len() == 0 {
         return Ok(Value::nil());
     }
-    let mut min_obj = aref[0];
-    let mut min = to_float(min_obj)?;
-    for elem in &**aref {
-        let elem_f = to_float(*elem)?;
-        if elem_f < min {
-            min_obj = *elem;
-            min = elem_f;
-        }
+    let mut min = aref[0];
+    for elem in aref[1..].to_vec() {
+        if vm.eval_compare(min, elem)?.to_ordering()? == std::cmp::Ordering::Less {
+            min = elem;
+        };
     }
-
-    return Ok(min_obj);
+    Ok(min)
 }
 
 fn max(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -676,9 +649,9 @@ fn max(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         return Ok(Value::nil());
     }
     let mut max = aref[0];
-    for elem in &**aref {
-        if vm.eval_gt2(max, *elem)? {
-            max = *elem;
+    for elem in aref[1..].to_vec() {
+        if vm.eval_compare(max, elem)?.to_ordering()? == std::cmp::Ordering::Greater {
+            max = elem;
         };
     }
     Ok(max)
@@ -864,26 +837,47 @@ fn join(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             None => return Err(RubyError::argument("Seperator must be String.")),
         }
     };
-    let aref = self_val.into_array();
+    let res = ary_join(vm, self_val, &sep, &mut vec![])?;
+    Ok(Value::string(res))
+}
+
+/// Join elements of `ary` and its nested arrays.
+fn ary_join(
+    vm: &mut VM,
+    ary: Value,
+    sep: &str,
+    outer: &mut Vec<Value>,
+) -> Result<String, RubyError> {
+    if outer.iter().any(|v| v.id() == ary.id()) {
+        return Err(RubyError::argument("Recursive array join."));
+    }
+    outer.push(ary);
+    let ary = ary.into_array();
     let mut res = String::new();
-    for elem in &**aref {
-        let s = elem.val_to_s(vm)?;
-        if res.is_empty() {
-            res = s.into_owned();
-        } else {
-            res = res + &sep + &s;
+    let mut i = 0;
+    while i < ary.len() {
+        if i != 0 {
+            res += sep;
         }
+        let elem = ary[i];
+        match elem.as_array() {
+            Some(_) => res += &ary_join(vm, elem, sep, outer)?,
+            None => res += &elem.val_to_s(vm)?,
+        }
+        i += 1;
     }
-    Ok(Value::string(res))
+    outer.pop();
+    Ok(res)
 }
 
 fn drop(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let aref = self_val.into_array();
-    let num = vm[0].coerce_to_fixnum("An argument must be Integer.")? as usize;
-    if num >= aref.len() {
-        return Err(RubyError::argument(format!("An argument too big. {}", num)));
+    let num = vm[0].coerce_to_fixnum("An argument must be Integer.")?;
+    if num < 0 {
+        return Err(RubyError::argument("Attempt to drop negative size."));
     };
+    let num = std::cmp::min(num as usize, aref.len());
     let ary = &aref[num..];
     Ok(Value::array_from(ary.to_vec()))
 }
@@ -1096,7 +1090,7 @@ fn find_index(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             eprintln!("Warning: given block not used.")
         };
         for (i, v) in ary.iter().enumerate() {
-            if v.eq(&vm[0]) {
+            if vm.eval_eq2(vm[0], *v)? {
                 return Ok(Value::integer(i as i64));
             };
         }
@@ -1217,7 +1211,7 @@ fn delete(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut aref = self_val.into_array();
     let mut removed = None;
     aref.retain(|x| {
-        if x.eq(&arg) {
+        if vm.eval_eq2(arg, *x)? {
             removed = Some(*x);
             Ok(false)
         } else {
diff --git a/ruruby/src/value/array.rs b/ruruby/src/value/array.rs
index c62cc5c..591a061 100644
--- a/ruruby/src/value/array.rs
+++ b/ruruby/src/value/array.rs
@@ -228,15 +228,18 @@ impl ArrayInfo {
         };
         let index = args[0].coerce_to_fixnum("Index")?;
         let self_len = self.len();
-        let index = self.get_array_index(index).unwrap_or(self_len);
         let len = args[1].coerce_to_fixnum("Index")?;
+        let index = match self.get_array_index(index) {
+            Ok(index) if index <= self_len => index,
+            _ => return Ok(Value::nil()),
+        };
         let val = if len < 0 {
             Value::nil()
-        } else if index >= self_len {
+        } else if index == self_len {
             Value::array_empty()
         } else {
             let len = len as usize;
-            let end = std::cmp::min(self_len, index + len);
+            let end = index + std::cmp::min(self_len - index, len);
             Value::array_from_slice(&self[index..end])
         };
         Ok(val)
@@ -254,7 +257,7 @@ impl ArrayInfo {
                 i if i < 0 => len + i,
                 i => i,
             };
-            let start = if len < i_start {
+            let start = if i_start < 0 || len < i_start {
                 return Ok(Value::nil());
             } else if len == i_start {
                 return Ok(Value::array_empty());
@@ -262,16 +265,13 @@ impl ArrayInfo {
                 i_start as usize
             };
             let i_end = range.end.coerce_to_fixnum("End of the range")?;
-            let end = if i_end >= 0 {
-                let end = i_end as usize + if range.exclude { 0 } else { 1 };
-                if self.len() < end {
-                    self.len()
-                } else {
-                    end
-                }
+            let i_end = if i_end >= 0 { i_end } else { len + i_end };
+            let i_end = if range.exclude {
+                i_end
             } else {
-                (len + i_end + if range.exclude { 0 } else { 1 }) as usize
+                i_end.saturating_add(1)
             };
+            let end = std::cmp::max(0, std::cmp::min(len, i_end)) as usize;
             if start >= end {
                 return Ok(Value::array_empty());
             }
@@ -319,8 +319,11 @@ impl ArrayInfo {
                 self.get_array_index(i)?
             };
             let last = {
-                let i = range.end.coerce_to_fixnum("End of the range")?;
-                self.get_array_index(i)? + if range.exclude { 0 } else { 1 }
+                let i = match range.end.coerce_to_fixnum("End of the range")? {
+                    i if i < 0 => self.len() as i64 + i,
+                    i => i,
+                } + if range.exclude { 0 } else { 1 };
+                std::cmp::max(0, i) as usize
             };
             if last < first {
                 self.set_elem2(first, 0, val)
-- 
2.43.0


From c760b78f80a67b09e9e7f1dccab8bde9251831b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:00 +0000
Subject: [PATCH 17/87] fix: Array methods kept iterating over a stale slice
 when the block modified the receiver

---
 ruruby/src/builtin/array.rs | 118 +++++++++++++++++++++---------------
 ruruby/src/value/array.rs   |  10 +++
 2 files changed, 80 insertions(+), 48 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 967ffc5..e0a7fa4 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -410,7 +410,11 @@ fn map_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut i = 0;
     let f = vm.eval_block_map1(block);
     while i < aref.len() {
-        aref[i] = f(vm, aref[i])?;
+        let res = f(vm, aref[i])?;
+        if i >= aref.len() {
+            break;
+        }
+        aref[i] = res;
         i += 1;
     }
 
@@ -422,15 +426,18 @@ fn flat_map(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     let param_num = block.to_iseq(&vm.globals).params.req;
     let aref = vm.self_value().into_array();
     let temp_len = vm.temp_len();
-    for elem in &**aref {
+    for elem in aref.live_iter() {
         let ary = if param_num == 0 {
             vm.eval_block0(&block)?
         } else if param_num == 1 {
-            vm.eval_block1(&block, *elem)?
+            vm.eval_block1(&block, elem)?
         } else {
             match elem.as_array() {
-                Some(ary) => vm.eval_block(&block, &ary[0..param_num])?,
-                None => vm.eval_block1(&block, *elem)?,
+                Some(ary) => {
+                    let len = std::cmp::min(param_num, ary.len());
+                    vm.eval_block(&block, &ary[0..len])?
+                },
+                None => vm.eval_block1(&block, elem)?,
             }
         };
 
@@ -503,11 +510,12 @@ fn partition(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut res_true = vec![];
     let mut res_false = vec![];
     let f = vm.eval_block_map1(block);
-    for i in &**aref {
-        if f(vm, *i)?.to_bool() {
-            res_true.push(*i);
+    for i in aref.live_iter() {
+        vm.temp_push(i);
+        if f(vm, i)?.to_bool() {
+            res_true.push(i);
         } else {
-            res_false.push(*i);
+            res_false.push(i);
         };
     }
     let ary = vec![
@@ -521,8 +529,8 @@ fn include(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let target = vm[0];
     let aref = self_val.into_array();
-    for item in aref.iter() {
-        if vm.eval_eq2(*item, target)? {
+    for item in aref.live_iter() {
+        if vm.eval_eq2(item, target)? {
             return Ok(Value::true_val());
         }
     }
@@ -699,10 +707,12 @@ fn uniq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let f = vm.eval_block_map1(block);
-            for elem in &**aref {
-                let res = f(vm, *elem)?;
+            for elem in aref.live_iter() {
+                let res = f(vm, elem)?;
+                vm.temp_push(elem);
+                vm.temp_push(res);
                 if h.insert(HashKey(res)) {
-                    v.push(*elem);
+                    v.push(elem);
                 };
             }
         }
@@ -738,11 +748,19 @@ fn uniq_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(block) => {
             let mut aref = self_val.into_array();
             let f = vm.eval_block_map1(block);
-            aref.retain(|x| {
-                let res = f(vm, *x)?;
+            let mut v = vec![];
+            for elem in aref.live_iter() {
+                let res = f(vm, elem)?;
+                vm.temp_push(elem);
                 vm.temp_push(res);
-                Ok(h.insert(HashKey(res)))
-            })?
+                if h.insert(HashKey(res)) {
+                    v.push(elem);
+                }
+            }
+            let deleted = v.len() != aref.len();
+            aref.clear();
+            aref.extend_from_slice(&v);
+            deleted
         }
     };
     if deleted {
@@ -939,6 +957,7 @@ fn sort(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     //use std::cmp::Ordering;
     args.check_args_num(0)?;
     let mut ary = self_val.expect_array("Receiver")?.to_vec();
+    vm.temp_extend_from_slice(&ary);
     match &args.block {
         None => {
             vm.sort_array(&mut ary)?;
@@ -963,10 +982,11 @@ fn sort_by(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut ary = vec![];
     {
         let f = vm.eval_block_map1(block);
-        for v in &**self_val.as_array().unwrap() {
-            let v1 = f(vm, *v)?;
+        for v in self_val.into_array().live_iter() {
+            let v1 = f(vm, v)?;
+            vm.temp_push(v);
             vm.temp_push(v1);
-            ary.push((*v, v1));
+            ary.push((v, v1));
         }
     }
     vm.sort_by(&mut ary, |vm, a, b| {
@@ -982,8 +1002,8 @@ fn any_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         if args.block.is_some() {
             eprintln!("warning: given block not used");
         }
-        for v in aref.iter() {
-            if vm.eval_teq(*v, vm[0])? {
+        for v in aref.live_iter() {
+            if vm.eval_teq(v, vm[0])? {
                 return Ok(Value::true_val());
             };
         }
@@ -993,7 +1013,7 @@ fn any_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
     match &args.block {
         None => {
-            for v in aref.iter() {
+            for v in aref.live_iter() {
                 if v.to_bool() {
                     return Ok(Value::true_val());
                 };
@@ -1001,8 +1021,8 @@ fn any_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let f = vm.eval_block_map1(block);
-            for v in aref.iter() {
-                if f(vm, *v)?.to_bool() {
+            for v in aref.live_iter() {
+                if f(vm, v)?.to_bool() {
                     return Ok(Value::true_val());
                 };
             }
@@ -1017,8 +1037,8 @@ fn all_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         if args.block.is_some() {
             eprintln!("warning: given block not used");
         }
-        for v in aref.iter() {
-            if !vm.eval_teq(*v, vm[0])? {
+        for v in aref.live_iter() {
+            if !vm.eval_teq(v, vm[0])? {
                 return Ok(Value::false_val());
             };
         }
@@ -1028,7 +1048,7 @@ fn all_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
     match &args.block {
         None => {
-            for v in aref.iter() {
+            for v in aref.live_iter() {
                 if !v.to_bool() {
                     return Ok(Value::false_val());
                 };
@@ -1036,8 +1056,8 @@ fn all_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => {
             let f = vm.eval_block_map1(block);
-            for v in aref.iter() {
-                if !f(vm, *v)?.to_bool() {
+            for v in aref.live_iter() {
+                if !f(vm, v)?.to_bool() {
                     return Ok(Value::false_val());
                 };
             }
@@ -1060,8 +1080,8 @@ fn count(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         1 => {
             let other = vm[0];
             let mut count = 0;
-            for elem in &**ary {
-                if vm.eval_eq2(*elem, other)? {
+            for elem in ary.live_iter() {
+                if vm.eval_eq2(elem, other)? {
                     count += 1;
                 }
             }
@@ -1076,8 +1096,8 @@ fn inject(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = args.expect_block()?;
     let ary = self_val.expect_array("").unwrap();
     let mut res = vm[0];
-    for elem in ary.iter() {
-        res = vm.eval_block2(block, res, *elem)?;
+    for elem in ary.live_iter() {
+        res = vm.eval_block2(block, res, elem)?;
     }
     Ok(res)
 }
@@ -1089,8 +1109,8 @@ fn find_index(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         if args.block.is_some() {
             eprintln!("Warning: given block not used.")
         };
-        for (i, v) in ary.iter().enumerate() {
-            if vm.eval_eq2(vm[0], *v)? {
+        for (i, v) in ary.live_iter().enumerate() {
+            if vm.eval_eq2(vm[0], v)? {
                 return Ok(Value::integer(i as i64));
             };
         }
@@ -1098,8 +1118,8 @@ fn find_index(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     };
     let block = to_enum_str!(vm, self_val, args, "find_index");
     let f = vm.eval_block_map1(block);
-    for (i, elem) in ary.iter().enumerate() {
-        if f(vm, *elem)?.to_bool() {
+    for (i, elem) in ary.live_iter().enumerate() {
+        if f(vm, elem)?.to_bool() {
             return Ok(Value::integer(i as i64));
         };
     }
@@ -1112,9 +1132,10 @@ fn reject(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = to_enum_str!(vm, self_val, args, "reject");
     let mut res = vec![];
     let f = vm.eval_block_map1(block);
-    for elem in ary.iter() {
-        if !f(vm, *elem)?.to_bool() {
-            res.push(*elem);
+    for elem in ary.live_iter() {
+        if !f(vm, elem)?.to_bool() {
+            vm.temp_push(elem);
+            res.push(elem);
         };
     }
     Ok(Value::array_from(res))
@@ -1126,9 +1147,10 @@ fn select(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = to_enum_str!(vm, self_val, args, "select");
     let mut res = vec![];
     let f = vm.eval_block_map1(block);
-    for elem in ary.iter() {
-        if f(vm, *elem)?.to_bool() {
-            res.push(*elem);
+    for elem in ary.live_iter() {
+        if f(vm, elem)?.to_bool() {
+            vm.temp_push(elem);
+            res.push(elem);
         };
     }
     Ok(Value::array_from(res))
@@ -1139,9 +1161,9 @@ fn find(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let ary = self_val.into_array();
     let block = to_enum_str!(vm, self_val, args, "find");
     let f = vm.eval_block_map1(block);
-    for elem in ary.iter() {
-        if f(vm, *elem)?.to_bool() {
-            return Ok(*elem);
+    for elem in ary.live_iter() {
+        if f(vm, elem)?.to_bool() {
+            return Ok(elem);
         };
     }
     Ok(Value::nil())
diff --git a/ruruby/src/value/array.rs b/ruruby/src/value/array.rs
index 591a061..769b5e5 100644
--- a/ruruby/src/value/array.rs
+++ b/ruruby/src/value/array.rs
@@ -59,6 +59,16 @@ impl GC<RValue> for Array {
 }
 
 impl Array {
+    /// Iterate over elements. `self` may be modified while iterating.
+    pub(crate) fn live_iter(self) -> impl Iterator<Item = Value> {
+        let mut i = 0;
+        std::iter::from_fn(move || {
+            let elem = if i < self.len() { Some(self[i]) } else { None };
+            i += 1;
+            elem
+        })
+    }
+
     #[inline(always)]
     pub(crate) fn new_unchecked(val: Value) -> Self {
         Array(val)
-- 
2.43.0


From 724ce660bd904956df50a2114aa7510f78ffdf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 18/87] fix: Array#flat_map destructured elements twice

---
 ruruby/src/builtin/array.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index e0a7fa4..17e445b 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -423,24 +423,11 @@ fn map_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn flat_map(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     let block = args.expect_block()?;
-    let param_num = block.to_iseq(&vm.globals).params.req;
     let aref = vm.self_value().into_array();
     let temp_len = vm.temp_len();
+    let f = vm.eval_block_map1(block);
     for elem in aref.live_iter() {
-        let ary = if param_num == 0 {
-            vm.eval_block0(&block)?
-        } else if param_num == 1 {
-            vm.eval_block1(&block, elem)?
-        } else {
-            match elem.as_array() {
-                Some(ary) => {
-                    let len = std::cmp::min(param_num, ary.len());
-                    vm.eval_block(&block, &ary[0..len])?
-                },
-                None => vm.eval_block1(&block, elem)?,
-            }
-        };
-
+        let ary = f(vm, elem)?;
         match ary.as_array() {
             Some(ary) => vm.temp_extend_from_slice(&**ary),
             None => vm.temp_push(ary),
-- 
2.43.0


From 3de4cec1f67222582490c09b3faee1ba13fdc81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:13 +0000
Subject: [PATCH 19/87] fix: Hash#delete changed the order, String keys were
 not copied, hash keys of Hash depended on order, each passed two values,
 iteration while modified

---
 ruruby/src/builtin/hash.rs | 30 ++++++++++------------
 ruruby/src/value/hash.rs   | 52 +++++++++++++++++++++++++++++++++-----
 ruruby/src/vm/executor.rs  |  2 +-
 3 files changed, 60 insertions(+), 24 deletions(-)

diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 33bba04..52e140d 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -111,11 +111,12 @@ fn default(_: &mut VM, _: Value, args: &Args2) -> VMResult {
 /// Enumerable#select { |item| .. } -> [object]
 /// https://docs.ruby-lang.org/ja/latest/method/Enumerable/i/select.html
 fn select(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    let hash = self_val.as_hash().unwrap();
     let method = args.expect_block()?;
     let mut res = FxIndexMap::default();
-    for (k, v) in hash.iter() {
+    for (k, v) in HashInfo::live_iter(vm, self_val) {
         if vm.eval_block2(&method, k, v)?.to_bool() {
+            vm.temp_push(k);
+            vm.temp_push(v);
             res.insert(HashKey(k), v);
         };
     }
@@ -126,11 +127,12 @@ fn select(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 /// Enumerable#reject { |item| .. } -> [object]
 /// https://docs.ruby-lang.org/ja/latest/method/Enumerable/i/reject.html
 fn reject(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    let hash = self_val.as_hash().unwrap();
     let method = args.expect_block()?;
     let mut res = FxIndexMap::default();
-    for (k, v) in hash.iter() {
+    for (k, v) in HashInfo::live_iter(vm, self_val) {
         if !vm.eval_block2(&method, k, v)?.to_bool() {
+            vm.temp_push(k);
+            vm.temp_push(v);
             res.insert(HashKey(k), v);
         };
     }
@@ -147,8 +149,7 @@ fn has_key(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn has_value(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let hash = self_val.as_hash().unwrap();
-    for v in hash.iter().map(|(_, v)| v) {
+    for (_, v) in HashInfo::live_iter(vm, self_val) {
         if vm.eval_eq2(vm[0], v)? {
             return Ok(Value::bool(true));
         }
@@ -177,11 +178,9 @@ fn values(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn each_value(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
     let block = args.expect_block()?;
     let f = vm.eval_block_map1(block);
-    for (_, v) in hash.iter() {
-        //vm.eval_block1(&block, v)?;
+    for (_, v) in HashInfo::live_iter(vm, self_val) {
         f(vm, v)?;
     }
 
@@ -190,11 +189,9 @@ fn each_value(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn each_key(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
     let block = args.expect_block()?;
     let f = vm.eval_block_map1(block);
-    for (k, _) in hash.iter() {
-        //vm.eval_block1(&block, k)?;
+    for (k, _) in HashInfo::live_iter(vm, self_val) {
         f(vm, k)?;
     }
 
@@ -205,10 +202,10 @@ fn each_key(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 /// https://docs.ruby-lang.org/ja/latest/method/Hash/i/each.html
 fn each(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
     let block = args.expect_block()?;
-    for (k, v) in hash.iter() {
-        vm.eval_block2(&block, k, v)?;
+    let f = vm.eval_block_map1(block);
+    for (k, v) in HashInfo::live_iter(vm, self_val) {
+        f(vm, Value::array_from(vec![k, v]))?;
     }
 
     Ok(self_val)
@@ -273,6 +270,7 @@ fn sort(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         let ary = vec![k, v];
         vec.push(Value::array_from(ary));
     }
+    vm.temp_extend_from_slice(&vec);
     vm.sort_array(&mut vec)?;
     Ok(Value::array_from(vec))
 }
@@ -282,7 +280,7 @@ fn invert(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let hash = self_val.as_hash().unwrap();
     let mut new_hash = FxIndexMap::default();
     for (k, v) in hash.iter() {
-        new_hash.insert(HashKey(v), k);
+        new_hash.insert(HashKey::new(v), k);
     }
     Ok(Value::hash_from_map(new_hash))
 }
diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index a8d6e25..a0208ec 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -10,20 +10,27 @@ pub enum HashInfo {
 
 impl Hash for HashInfo {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        // The result must not depend on the order of entries.
+        fn entry_hash(key: impl Hash, val: impl Hash) -> u64 {
+            let mut hasher = fxhash::FxHasher::default();
+            key.hash(&mut hasher);
+            val.hash(&mut hasher);
+            std::hash::Hasher::finish(&hasher)
+        }
+        let mut sum = 0u64;
         match self {
             HashInfo::Map(h) => {
                 for (key, val) in h.iter() {
-                    key.hash(state);
-                    val.hash(state);
+                    sum = sum.wrapping_add(entry_hash(key, HashKey(*val)));
                 }
             }
             HashInfo::IdentMap(h) => {
                 for (key, val) in h.iter() {
-                    key.hash(state);
-                    val.hash(state);
+                    sum = sum.wrapping_add(entry_hash(HashKey(key.0), HashKey(*val)));
                 }
             }
         }
+        sum.hash(state);
     }
 }
 
@@ -51,6 +58,16 @@ impl PartialEq for HashInfo {
 #[derive(Debug, Clone, Copy, Eq)]
 pub struct HashKey(pub Value);
 
+impl HashKey {
+    /// Create a key to be stored in a Hash. String keys are copied.
+    pub(crate) fn new(key: Value) -> Self {
+        match key.as_rvalue() {
+            Some(rval) if rval.kind() == ObjKind::STRING => HashKey(key.shallow_dup()),
+            _ => HashKey(key),
+        }
+    }
+}
+
 impl Deref for HashKey {
     type Target = Value;
     fn deref(&self) -> &Self::Target {
@@ -229,6 +246,27 @@ impl HashInfo {
         Iter::new(self)
     }
 
+    pub(crate) fn get_index(&self, i: usize) -> Option<(Value, Value)> {
+        match self {
+            HashInfo::Map(map) => map.get_index(i).map(|(k, v)| (k.0, *v)),
+            HashInfo::IdentMap(map) => map.get_index(i).map(|(k, v)| (k.0, *v)),
+        }
+    }
+
+    /// Iterate over the entries which exist now. `hash` may be modified while iterating:
+    /// entries removed in the meantime are skipped.
+    pub(crate) fn live_iter(vm: &mut VM, hash: Value) -> impl Iterator<Item = (Value, Value)> {
+        let keys = hash.as_hash().unwrap().keys();
+        vm.temp_extend_from_slice(&keys);
+        keys.into_iter().enumerate().filter_map(move |(i, key)| {
+            let hash = hash.as_hash().unwrap();
+            match hash.get_index(i) {
+                Some((k, v)) if k.id() == key.id() => Some((k, v)),
+                _ => hash.get(&key).map(|v| (key, *v)),
+            }
+        })
+    }
+
     pub(crate) fn get(&self, v: &Value) -> Option<&Value> {
         match self {
             HashInfo::Map(map) => map.get(&HashKey(*v)),
@@ -252,15 +290,15 @@ impl HashInfo {
 
     pub(crate) fn insert(&mut self, k: Value, v: Value) {
         match self {
-            HashInfo::Map(map) => map.insert(HashKey(k), v),
+            HashInfo::Map(map) => map.insert(HashKey::new(k), v),
             HashInfo::IdentMap(map) => map.insert(IdentKey(k), v),
         };
     }
 
     pub(crate) fn remove(&mut self, k: Value) -> Option<Value> {
         match self {
-            HashInfo::Map(map) => map.remove(&HashKey(k)),
-            HashInfo::IdentMap(map) => map.remove(&IdentKey(k)),
+            HashInfo::Map(map) => map.shift_remove(&HashKey(k)),
+            HashInfo::IdentMap(map) => map.shift_remove(&IdentKey(k)),
         }
     }
 
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index ef278eb..b4359a7 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -905,7 +905,7 @@ impl VM {
         for i in 0..arg_num {
             let key = p[(i * 2) as isize];
             let value = p[(i * 2 + 1) as isize];
-            hash.insert(HashKey(key), value);
+            hash.insert(HashKey::new(key), value);
         }
         self.stack.sp = p;
         hash
-- 
2.43.0


From 828f2a63caa8b4e00034130d28538eaf83330e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:34 +0000
Subject: [PATCH 20/87] fix: String equality depended on representation,
 substrings/index assignment/split/tr/count/to_i/chomp/slice!/inspect, empty
 regexp matches, back references in gsub

---
 ruruby/src/builtin/regexp.rs |  89 ++++---
 ruruby/src/builtin/string.rs | 491 +++++++++++++++++++++++------------
 ruruby/src/value/string.rs   |  34 ++-
 3 files changed, 396 insertions(+), 218 deletions(-)

diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index e2a549a..385143a 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -3,6 +3,7 @@ use crate::vm::*;
 use fancy_regex::{Captures, Error, Match, Regex};
 //#[macro_use]
 use crate::*;
+use super::string::next_char_pos;
 use std::rc::Rc;
 
 #[derive(Clone, Debug)]
@@ -142,12 +143,16 @@ impl RegexpInfo {
             let mut range = vec![];
             let mut i = 0;
             let f = vm.eval_block_map1(block);
-            loop {
+            while i <= given.len() {
                 let (start, end, matched_str) = match re.captures_from_pos(given, i) {
                     Ok(None) => break,
                     Ok(Some(captures)) => {
                         let m = captures.get(0).unwrap();
-                        i = m.end() + if m.start() == m.end() { 1 } else { 0 };
+                        i = if m.start() == m.end() {
+                            next_char_pos(given, m.end())
+                        } else {
+                            m.end()
+                        };
                         vm.get_captures(&captures, given);
                         (m.start(), m.end(), m.as_str())
                     }
@@ -194,7 +199,10 @@ impl RegexpInfo {
                 vm.get_captures(&captures, given);
                 let mut v = vec![];
                 for i in 0..captures.len() {
-                    v.push(Value::string(captures.get(i).unwrap().as_str()));
+                    v.push(match captures.get(i) {
+                        Some(m) => Value::string(m.as_str()),
+                        None => Value::nil(),
+                    });
                 }
                 Ok(Value::array_from(v))
             }
@@ -245,12 +253,16 @@ impl RegexpInfo {
         let mut ary = vec![];
         let mut idx = 0;
         let mut last_captures = None;
-        loop {
+        while idx <= given.len() {
             match re.captures_from_pos(given, idx) {
                 Ok(None) => break,
                 Ok(Some(captures)) => {
                     let m = captures.get(0).unwrap();
-                    idx = m.end();
+                    idx = if m.start() == m.end() {
+                        next_char_pos(given, m.end())
+                    } else {
+                        m.end()
+                    };
                     match captures.len() {
                         1 => {
                             let val = Value::string(&given[m.start()..m.end()]);
@@ -297,10 +309,7 @@ impl RegexpInfo {
         let mut range = vec![];
         let mut i = 0;
         let mut last_captures = None;
-        loop {
-            if i >= given.len() {
-                break;
-            }
+        while i <= given.len() {
             match self.captures_from_pos(given, i) {
                 Ok(None) => break,
                 Ok(Some(captures)) => {
@@ -308,19 +317,19 @@ impl RegexpInfo {
                     // the length of matched string can be 0.
                     // this is neccesary to avoid infinite loop.
                     i = if m.end() == m.start() {
-                        m.end() + 1
+                        next_char_pos(given, m.end())
                     } else {
                         m.end()
                     };
-                    range.push((m.start(), m.end()));
+                    range.push((m.start(), m.end(), expand_replacement(&captures, replace)));
                     last_captures = Some(captures);
                 }
                 Err(err) => return Err(RubyError::internal(format!("Capture failed. {:?}", err))),
             };
         }
         let mut res = given.to_string();
-        for (start, end) in range.iter().rev() {
-            res.replace_range(start..end, replace);
+        for (start, end, rep) in range.iter().rev() {
+            res.replace_range(start..end, rep);
         }
 
         match last_captures {
@@ -347,27 +356,7 @@ impl RegexpInfo {
                 let mut res = given.to_string();
                 let m = captures.get(0).unwrap();
                 vm.get_captures(&captures, given);
-                let mut rep = "".to_string();
-                let mut escape = false;
-                for ch in replace.chars() {
-                    if escape {
-                        match ch {
-                            '0'..='9' => {
-                                let i = ch as usize - '0' as usize;
-                                match captures.get(i) {
-                                    Some(m) => rep += m.as_str(),
-                                    None => {}
-                                };
-                            }
-                            _ => rep.push(ch),
-                        };
-                        escape = false;
-                    } else if ch != '\\' {
-                        rep.push(ch);
-                    } else {
-                        escape = true;
-                    }
-                }
+                let rep = expand_replacement(&captures, replace);
                 res.replace_range(m.start()..m.end(), &rep);
                 Ok((res, Some(captures)))
             }
@@ -376,6 +365,34 @@ impl RegexpInfo {
     }
 }
 
+/// Expand back references ("\\\\0", "\\\\1", ..) in a replacement string.
+fn expand_replacement(captures: &Captures, replace: &str) -> String {
+    let mut rep = "".to_string();
+    let mut chars = replace.chars();
+    while let Some(ch) = chars.next() {
+        if ch != '\\' {
+            rep.push(ch);
+            continue;
+        }
+        match chars.next() {
+            Some(ch @ '0'..='9') => {
+                let i = ch as usize - '0' as usize;
+                if let Some(m) = captures.get(i) {
+                    rep += m.as_str();
+                };
+            }
+            Some('&') => rep += captures.get(0).unwrap().as_str(),
+            Some('\\') => rep.push('\\'),
+            Some(ch) => {
+                rep.push('\\');
+                rep.push(ch);
+            }
+            None => rep.push('\\'),
+        }
+    }
+    rep
+}
+
 impl std::ops::Deref for RegexpInfo {
     type Target = Regex;
     fn deref(&self) -> &Regex {
@@ -442,8 +459,8 @@ fn regexp_match(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut args0 = vm[0];
     let regex = self_val.as_regexp().unwrap();
     let given = args0.expect_string("1st Arg")?;
-    let res = match RegexpInfo::find_one(vm, &regex, given).unwrap() {
-        Some(mat) => Value::integer(mat.start() as i64),
+    let res = match RegexpInfo::find_one(vm, &regex, given)? {
+        Some(mat) => Value::integer(given[..mat.start()].chars().count() as i64),
         None => Value::nil(),
     };
     return Ok(res);
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index dac6650..aa1adf2 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -117,6 +117,9 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         i => i as usize,
     };
 
+    if lhs.len().checked_mul(count).map_or(true, |len| len > isize::MAX as usize) {
+        return Err(RubyError::argument("Argument too big."));
+    }
     let res = match lhs {
         RString::Str(s) => Value::string(s.repeat(count)),
         RString::SmallStr(s) => Value::string(s.repeat(count)),
@@ -125,6 +128,16 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(res)
 }
 
+/// Get a substring of `len` characters from the `start`-th character.
+/// `char_len` is the number of characters in `s`.
+fn substr(s: &str, char_len: usize, start: i64, len: i64) -> Option<String> {
+    let start = if start < 0 { start + char_len as i64 } else { start };
+    if len < 0 || start < 0 || start > char_len as i64 {
+        return None;
+    }
+    Some(s.chars().skip(start as usize).take(len as usize).collect())
+}
+
 fn index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     fn conv_index(i: i64, len: usize) -> Option<usize> {
         if i >= 0 {
@@ -144,45 +157,38 @@ fn index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     let lhs = self_val.expect_string("Receiver")?;
     match vm[0].unpack() {
         RV::Integer(i) => {
-            let index = match conv_index(i, lhs.chars().count()) {
-                Some(i) => i,
-                None => return Ok(Value::nil()),
-            };
-            let len = if args.len() == 2 {
-                match vm[1].coerce_to_fixnum("1st arg")? {
-                    0 => return Ok(Value::string("")),
-                    i if i < 0 => return Ok(Value::nil()),
-                    i => i as usize,
-                }
-            } else {
-                1usize
-            };
-            let ch: String = lhs.chars().skip(index).take(len).collect();
-            if ch.len() != 0 {
-                Ok(Value::string(ch))
-            } else {
-                Ok(Value::nil())
+            let char_len = lhs.chars().count();
+            if args.len() == 2 {
+                let len = vm[1].coerce_to_fixnum("2nd arg")?;
+                return Ok(match substr(lhs, char_len, i, len) {
+                    Some(s) => Value::string(s),
+                    None => Value::nil(),
+                });
+            }
+            match conv_index(i, char_len) {
+                Some(i) => Ok(Value::string(lhs.chars().skip(i).take(1).collect::<String>())),
+                None => Ok(Value::nil()),
             }
         }
         RV::Object(oref) => match oref.kind() {
             ObjKind::RANGE => {
                 let info = &*oref.range();
                 let len = lhs.chars().count();
-                // TODO: exclude?
-                let (start, end) = match (info.start.as_fixnum(), info.end.as_fixnum()) {
+                match (info.start.as_fixnum(), info.end.as_fixnum()) {
                     (Some(start), Some(end)) => {
-                        match (conv_index(start, len), conv_index(end, len)) {
-                            (Some(start), Some(end)) if start > end => {
-                                return Ok(Value::string(""))
-                            }
-                            (Some(start), Some(end)) => (start, end),
-                            _ => return Ok(Value::nil()),
+                        let start = if start < 0 { start + len as i64 } else { start };
+                        let end = if end < 0 { end + len as i64 } else { end };
+                        let end = if info.exclude { end } else { end.saturating_add(1) };
+                        if start < 0 {
+                            return Ok(Value::nil());
+                        }
+                        match substr(lhs, len, start, std::cmp::max(0, end.saturating_sub(start))) {
+                            Some(s) => Ok(Value::string(s)),
+                            None => Ok(Value::nil()),
                         }
                     }
                     _ => return Err(RubyError::argument("Index must be Integer.")),
-                };
-                let s: String = lhs.chars().skip(start).take(end - start + 1).collect();
-                Ok(Value::string(s))
+                }
             }
             ObjKind::REGEXP => {
                 let info = &*oref.regexp();
@@ -223,29 +229,33 @@ fn index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 
 fn index_assign(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(2, 3)?;
-    let string = self_val.as_mut_rstring().unwrap();
-    let str_len = string.chars().count();
-    let start_pos = vm[0].coerce_to_fixnum("1st arg")? as usize;
+    let start = vm[0].coerce_to_fixnum("1st arg")?;
     let (len, mut subst_val) = match args.len() {
-        2 => (0, vm[1]),
-        3 => (vm[1].coerce_to_fixnum("2nd arg")? as usize - 1, vm[2]),
+        2 => (1, vm[1]),
+        3 => (vm[1].coerce_to_fixnum("2nd arg")?, vm[2]),
         _ => unreachable!(),
     };
-    if start_pos >= str_len {
+    let replace_with = subst_val.expect_string("Value")?.to_string();
+    let string = self_val.as_mut_rstring().unwrap();
+    string.as_string()?;
+    let str_len = string.chars().count() as i64;
+    if len < 0 {
+        return Err(RubyError::index(format!("Negative length {}", len)));
+    }
+    let start_pos = if start < 0 { start + str_len } else { start };
+    if start_pos < 0 || start_pos > str_len {
         return Err(RubyError::index(format!(
             "Index {:?} out of string.",
             vm[0]
         )));
     }
-    let (start, end) = (
-        string.char_indices().nth(start_pos).unwrap().0,
-        match string.char_indices().nth(start_pos + len + 1) {
-            Some((p, _)) => p,
-            None => string.len(),
-        },
-    );
-    string.replace_range(start..end, subst_val.expect_string("Value")?);
-    Ok(Value::nil())
+    let byte_pos = |pos: i64| match string.char_indices().nth(pos as usize) {
+        Some((p, _)) => p,
+        None => string.len(),
+    };
+    let (start, end) = (byte_pos(start_pos), byte_pos(start_pos.saturating_add(len)));
+    string.replace_range(start..end, &replace_with);
+    Ok(subst_val)
 }
 
 fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -261,7 +271,7 @@ fn concat(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let lhs = self_val.as_mut_rstring().unwrap();
     match vm[0].as_rstring() {
-        Some(rhs) => lhs.append(rhs),
+        Some(rhs) => lhs.append(&rhs.clone()),
         None => match vm[0].as_fixnum() {
             Some(i) => {
                 let rhs = RString::Bytes(vec![i as i8 as u8]);
@@ -338,13 +348,15 @@ fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             ch = expect_char(vm, &mut chars)?;
         }
         // Precision
-        let mut precision = 0usize;
+        let mut precision = None;
         if ch == '.' {
+            let mut p = 0usize;
             ch = expect_char(vm, &mut chars)?;
             while '0' <= ch && ch <= '9' {
-                precision = precision * 10 + ch as usize - '0' as usize;
+                p = p * 10 + ch as usize - '0' as usize;
                 ch = expect_char(vm, &mut chars)?;
             }
+            precision = Some(p);
         };
         if arguments.len() <= arg_no {
             return Err(RubyError::argument("Too few arguments"));
@@ -356,9 +368,9 @@ fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             'd' => {
                 let val = val.coerce_to_fixnum("Invalid value for placeholder of Integer.")?;
                 if zero_flag {
-                    format!("{:0w$.p$}", val, w = width, p = precision)
+                    format!("{:0w$}", val, w = width)
                 } else {
-                    format!("{:w$.p$}", val, w = width, p = precision)
+                    format!("{:w$}", val, w = width)
                 }
             }
             'b' => {
@@ -391,9 +403,9 @@ fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                     None => val.coerce_to_fixnum("Value for the placeholder")? as f64,
                 };
                 if zero_flag {
-                    format!("{:0w$.p$}", f, w = width, p = precision)
+                    format!("{:0w$.p$}", f, w = width, p = precision.unwrap_or(6))
                 } else {
-                    format!("{:w$.p$}", f, w = width, p = precision)
+                    format!("{:w$.p$}", f, w = width, p = precision.unwrap_or(6))
                 }
             }
             'c' => {
@@ -402,7 +414,7 @@ fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                     .ok_or_else(|| RubyError::argument("Invalid value for placeholder."))?;
                 format!("{}", ch)
             }
-            's' => val.expect_string("Value for placeholder")?.to_string(),
+            's' => format!("{:>w$}", val.expect_string("Value for placeholder")?, w = width),
             _ => {
                 return Err(RubyError::argument(format!(
                     "Invalid format character. {}",
@@ -447,110 +459,148 @@ fn to_sym(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 ///
 /// split(sep = $;, limit = 0) {|s| ... } -> self
 ///
-/// TODO: support nil and ' ' for sep.
+/// TODO: support nil for sep.
 ///
 /// https://docs.ruby-lang.org/ja/latest/method/String/i/split.html
 fn split(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
-    let mut string = self_val.expect_string("Receiver")?;
+    let string = &self_val.expect_string("Receiver")?.to_string();
     let arg0 = vm[0];
-    if let Some(sep) = arg0.as_string() {
-        let lim = if args.len() > 1 {
-            vm[1].coerce_to_fixnum("Second arg must be Integer.")?
-        } else {
-            0
-        };
-        if sep == " " {
-            string = string.trim_start_matches(|c: char| c.is_ascii_whitespace());
-        }
-        let v: Vec<Value> = if lim < 0 {
-            string.split(sep).map(|s| Value::string(s)).collect()
-        } else if lim == 0 {
-            /*if sep == " " {
-                string = string.trim_end_matches(|c: char| c.is_ascii_whitespace());
-            }*/
-            let mut vec: Vec<&str> = string.split(sep).collect();
-            while let Some(s) = vec.last() {
-                if s.is_empty() {
-                    vec.pop().unwrap();
-                } else {
-                    break;
-                }
-            }
-            vec.into_iter().map(|x| Value::string(x)).collect()
-        } else {
-            string
-                .splitn(lim as usize, sep)
-                .map(|x| Value::string(x))
-                .collect()
-        };
-        match &args.block {
-            Some(b) => {
-                let tmp = Value::array_from(v.clone());
-                vm.temp_push(tmp);
-                let iter = v.into_iter();
-                vm.eval_block_map1_iter(b, iter)?;
-                Ok(self_val)
+    let lim = if args.len() > 1 {
+        vm[1].coerce_to_fixnum("Second arg must be Integer.")?
+    } else {
+        0
+    };
+    let mut res = if let Some(sep) = arg0.as_string() {
+        split_by_string(string, sep, lim)
+    } else if let Some(re) = arg0.as_regexp() {
+        split_by_regexp(string, &re, lim)?
+    } else {
+        return Err(RubyError::argument("Ist arg must be an String or RegExp."));
+    };
+    // if lim == 0, remove all empty strings from a tail.
+    if lim == 0 {
+        while let Some(s) = res.last() {
+            if !s.is_empty() {
+                break;
             }
-            None => Ok(Value::array_from(v)),
+            res.pop();
         }
-    } else if let Some(re) = arg0.as_regexp() {
-        let lim = if args.len() > 1 {
-            vm[1].coerce_to_fixnum("Second arg must be Integer.")?
-        } else {
-            0
-        };
-        let all_cap = re.captures_iter(string);
-        let mut cursor = 0usize;
-        let mut res = vec![];
-        let mut count = 0;
-        'l: for c in all_cap {
-            let c = c.unwrap();
-            let mut iter = c.iter();
-            let m = iter.next().unwrap().unwrap();
-            count += 1;
-            if count == lim {
-                break 'l;
-            } else {
-                res.push(&string[cursor..m.start()]);
+    }
+    let v: Vec<Value> = res.into_iter().map(|s| Value::string(s)).collect();
+    match &args.block {
+        Some(b) => {
+            let tmp = Value::array_from(v.clone());
+            vm.temp_push(tmp);
+            let iter = v.into_iter();
+            vm.eval_block_map1_iter(b, iter)?;
+            Ok(self_val)
+        }
+        None => Ok(Value::array_from(v)),
+    }
+}
+
+fn split_by_string<'a>(string: &'a str, sep: &str, lim: i64) -> Vec<&'a str> {
+    let mut res = vec![];
+    if string.is_empty() {
+        return res;
+    }
+    if lim == 1 {
+        return vec![string];
+    }
+    let is_full = |res: &Vec<&str>| lim > 0 && res.len() as i64 + 1 >= lim;
+    if sep == " " {
+        // split by white spaces ignoring leading ones.
+        let is_space = |c: char| c.is_ascii_whitespace() || c == '\x0b';
+        let mut rest = string.trim_start_matches(is_space);
+        loop {
+            if rest.is_empty() {
+                if lim != 0 {
+                    res.push(rest);
+                }
+                return res;
             }
-            while let Some(m) = iter.next() {
-                count += 1;
-                if count == lim {
-                    cursor = m.unwrap().start();
-                    break 'l;
-                } else {
-                    res.push(m.unwrap().as_str())
+            match rest.find(is_space) {
+                Some(i) if !is_full(&res) => {
+                    res.push(&rest[..i]);
+                    rest = rest[i..].trim_start_matches(is_space);
+                }
+                _ => {
+                    res.push(rest);
+                    return res;
                 }
             }
-            cursor = m.end();
-        }
-        if cursor <= string.len() {
-            res.push(&string[cursor..]);
         }
-        // if lim == 0, remove all empty strings from a tail.
-        if lim == 0 {
-            while let Some(s) = res.last() {
-                if s.is_empty() {
-                    res.pop().unwrap();
-                } else {
-                    break;
-                }
+    } else if sep.is_empty() {
+        let mut rest = string;
+        while let Some(c) = rest.chars().next() {
+            if is_full(&res) {
+                break;
             }
+            let (head, tail) = rest.split_at(c.len_utf8());
+            res.push(head);
+            rest = tail;
         }
-        let iter = res.into_iter().map(|s| Value::string(s));
-        match &args.block {
-            Some(b) => {
-                vm.eval_block_map1_iter(b, iter)?;
-                Ok(self_val)
+        res.push(rest);
+        res
+    } else if lim > 0 {
+        string.splitn(lim as usize, sep).collect()
+    } else {
+        string.split(sep).collect()
+    }
+}
+
+fn split_by_regexp<'a>(
+    string: &'a str,
+    re: &RegexpInfo,
+    lim: i64,
+) -> Result<Vec<&'a str>, RubyError> {
+    let mut res = vec![];
+    if string.is_empty() {
+        return Ok(res);
+    }
+    let mut count = 1;
+    let mut beg = 0;
+    let mut start = 0;
+    let mut last_null = false;
+    while start <= string.len() && (lim <= 0 || count < lim) {
+        let captures = match re.captures_from_pos(string, start) {
+            Ok(Some(captures)) => captures,
+            Ok(None) => break,
+            Err(err) => return Err(RubyError::internal(format!("Capture failed. {:?}", err))),
+        };
+        let m = captures.get(0).unwrap();
+        if m.start() == start && m.end() == start {
+            if !last_null {
+                // search again from the next character.
+                start = next_char_pos(string, start);
+                last_null = true;
+                continue;
             }
-            None => {
-                let v = iter.collect();
-                Ok(Value::array_from(v))
+            res.push(&string[beg..start]);
+            beg = start;
+        } else {
+            res.push(&string[beg..m.start()]);
+            beg = m.end();
+            start = m.end();
+        }
+        last_null = false;
+        count += 1;
+        for i in 1..captures.len() {
+            if let Some(m) = captures.get(i) {
+                res.push(&string[m.start()..m.end()]);
             }
         }
-    } else {
-        Err(RubyError::argument("Ist arg must be an String or RegExp."))
+    }
+    res.push(&string[beg..]);
+    Ok(res)
+}
+
+/// Get a byte position of the character next to the one at `pos`.
+pub(crate) fn next_char_pos(string: &str, pos: usize) -> usize {
+    match string.get(pos..).and_then(|s| s.chars().next()) {
+        Some(c) => pos + c.len_utf8(),
+        None => pos + 1,
     }
 }
 
@@ -565,7 +615,7 @@ fn include_(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 
 fn sub(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
-    let given = self_val.expect_string("Receiver")?;
+    let given = &self_val.expect_string("Receiver")?.to_string();
     let res = if args.len() == 2 {
         let mut arg1 = vm[1];
         let replace = arg1.expect_string("2nd arg")?;
@@ -585,7 +635,8 @@ fn gsub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn gsub_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let (res, changed) = gsub_main(vm, self_val, args)?;
-    *self_val.rvalue_mut() = RValue::new_string(&res);
+    let mut receiver = self_val;
+    *receiver.as_mut_rstring().unwrap() = RString::from(&res);
     let res = if changed { self_val } else { Value::nil() };
     Ok(res)
 }
@@ -594,14 +645,14 @@ fn gsub_main(vm: &mut VM, mut self_val: Value, args: &Args2) -> Result<(String,
     match &args.block {
         None => {
             args.check_args_num(2)?;
-            let given = self_val.expect_string("Receiver")?;
+            let given = &self_val.expect_string("Receiver")?.to_string();
             let mut arg1 = vm[1];
             let replace = arg1.expect_string("2nd arg")?;
             RegexpInfo::replace_all(vm, vm[0], given, replace)
         }
         Some(block) => {
             args.check_args_num(1)?;
-            let given = self_val.expect_string("Receiver")?;
+            let given = &self_val.expect_string("Receiver")?.to_string();
             RegexpInfo::replace_all_block(vm, vm[0], given, block)
         }
     }
@@ -609,7 +660,7 @@ fn gsub_main(vm: &mut VM, mut self_val: Value, args: &Args2) -> Result<(String,
 
 fn scan(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let given = self_val.expect_string("Receiver")?;
+    let given = &self_val.expect_string("Receiver")?.to_string();
     let arg0 = vm[0];
     let vec = if let Some(s) = arg0.as_string() {
         let re = vm.regexp_from_escaped_string(s)?;
@@ -677,6 +728,13 @@ fn slice_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                     Some(i) => i,
                     None => return Ok(Value::nil()),
                 };
+                if len == 0 || start == target.chars().count() {
+                    return Ok(if start <= target.chars().count() {
+                        Value::string("")
+                    } else {
+                        Value::nil()
+                    });
+                }
                 let mut iter = target.char_indices().skip(start);
                 let mut take = iter.by_ref().take(len).peekable();
                 let start_pos = match take.peek().cloned() {
@@ -703,13 +761,16 @@ fn slice_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                 ObjKind::STRING => {
                     let rs = rval.string_mut();
                     args.check_args_num(1)?;
-                    let given = rs.as_string()?;
-                    *target = RString::from(&target.replacen(given, "", usize::MAX));
+                    let given = rs.as_string()?.to_string();
+                    if !target.as_string()?.contains(&given) {
+                        return Ok(Value::nil());
+                    }
+                    *target = RString::from(&target.replacen(&given, "", 1));
                     Ok(Value::string(given))
                 }
                 ObjKind::REGEXP => {
                     let regexp = &*rval.regexp();
-                    let given = target.as_string()?;
+                    let given = &target.as_string()?.to_string();
                     let (res, cap) = regexp.replace_once(vm, given, "")?;
                     let ret = match cap {
                         Some(cap) => Value::string(cap.get(0).unwrap().as_str()),
@@ -737,8 +798,8 @@ fn rmatch(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let given = self_val.expect_string("Receiver")?;
     if let Some(re) = vm[0].as_regexp() {
-        let res = match RegexpInfo::find_one(vm, &re, given).unwrap() {
-            Some(mat) => Value::integer(mat.start() as i64),
+        let res = match RegexpInfo::find_one(vm, &re, given)? {
+            Some(mat) => Value::integer(given[..mat.start()].chars().count() as i64),
             None => Value::nil(),
         };
         return Ok(res);
@@ -771,12 +832,76 @@ fn tr(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     let rec = self_val.expect_string("Receiver")?;
     let mut arg0 = vm[0];
     let mut arg1 = vm[1];
-    let from = arg0.expect_string("1st arg")?;
-    let to = arg1.expect_string("2nd arg")?;
-    let res = rec.replace(from, to);
+    let from = CharSet::new(arg0.expect_string("1st arg")?)?;
+    let to = CharSet::new_list(arg1.expect_string("2nd arg")?)?;
+    let res: String = rec
+        .chars()
+        .filter_map(|c| match from.position(c) {
+            None => Some(c),
+            Some(_) if from.negate => to.last().copied(),
+            Some(i) => to.get(i).or(to.last()).copied(),
+        })
+        .collect();
     Ok(Value::string(res))
 }
 
+/// A set of characters described by a String. e.g. "a-z", "^abc"
+struct CharSet {
+    negate: bool,
+    chars: Vec<char>,
+}
+
+impl CharSet {
+    fn new(s: &str) -> Result<Self, RubyError> {
+        match s.strip_prefix('^') {
+            Some(rest) if !rest.is_empty() => Ok(CharSet {
+                negate: true,
+                chars: CharSet::new_list(rest)?,
+            }),
+            _ => Ok(CharSet {
+                negate: false,
+                chars: CharSet::new_list(s)?,
+            }),
+        }
+    }
+
+    /// Expand ranges and escapes.
+    fn new_list(s: &str) -> Result<Vec<char>, RubyError> {
+        let mut res = vec![];
+        let mut iter = s.chars().peekable();
+        while let Some(c) = iter.next() {
+            let c = match c {
+                '\\' => iter.next().unwrap_or(c),
+                _ => c,
+            };
+            let mut ahead = iter.clone();
+            if let (Some('-'), Some(end)) = (ahead.next(), ahead.next()) {
+                if c > end {
+                    return Err(RubyError::argument(format!(
+                        "Invalid range \"{}-{}\" in string transliteration.",
+                        c, end
+                    )));
+                }
+                res.extend(c..=end);
+                iter = ahead;
+            } else {
+                res.push(c);
+            }
+        }
+        Ok(res)
+    }
+
+    /// If `c` is in the set, return the index of it.
+    fn position(&self, c: char) -> Option<usize> {
+        let pos = self.chars.iter().position(|x| *x == c);
+        match self.negate {
+            true if pos.is_some() => None,
+            true => Some(0),
+            false => pos,
+        }
+    }
+}
+
 fn size(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let rec = self_val.expect_string("Receiver")?;
@@ -800,8 +925,8 @@ fn bytes(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                 None => return Err(RubyError::argument("Receiver must be String.")),
             };
             let f = vm.eval_block_map1(block);
-            for b in rstr.as_bytes() {
-                let byte = Value::integer(*b as i64);
+            for b in rstr.as_bytes().to_vec() {
+                let byte = Value::integer(b as i64);
                 //vm.eval_block1(block, byte)?;
                 f(vm, byte)?;
             }
@@ -818,8 +943,8 @@ fn each_byte(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         None => return Err(RubyError::argument("Receiver must be String.")),
     };
     let f = vm.eval_block_map1(block);
-    for b in rstr.as_bytes() {
-        let byte = Value::integer(*b as i64);
+    for b in rstr.as_bytes().to_vec() {
+        let byte = Value::integer(b as i64);
         //vm.eval_block1(block, byte)?;
         f(vm, byte)?;
     }
@@ -839,7 +964,7 @@ fn chars(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 fn each_char(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let block = args.expect_block()?;
-    let chars = self_val.expect_string("Receiver")?;
+    let chars = self_val.expect_string("Receiver")?.to_string();
     let f = vm.eval_block_map1(block);
     for c in chars.chars() {
         let char = Value::string(c.to_string());
@@ -928,7 +1053,7 @@ fn chomp(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         arg.expect_string("1st arg")?.to_owned()
     };
     let self_ = self_val.expect_string("Receiver")?;
-    let res = self_.trim_end_matches(&rs).to_string();
+    let res = chomp_line(self_, &rs);
     Ok(Value::string(res))
 }
 
@@ -946,22 +1071,53 @@ fn chomp_(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         arg.expect_string("1st arg")?.to_owned()
     };
     let self_ = self_val.expect_string("Receiver")?;
-    let res = self_.trim_end_matches(&rs).to_string();
+    let res = chomp_line(self_, &rs).to_string();
+    if res.len() == self_.len() {
+        return Ok(Value::nil());
+    }
     *self_val.as_mut_rstring().unwrap() = RString::from(res);
     Ok(self_val)
 }
 
+/// Remove a record separator `rs` from the end of `s`.
+fn chomp_line<'a>(s: &'a str, rs: &str) -> &'a str {
+    match rs {
+        "\n" | "" => {
+            let mut s = s;
+            while let Some(stripped) = s.strip_suffix("\r\n").or(s.strip_suffix('\n')) {
+                s = stripped;
+            }
+            s
+        }
+        _ => s.strip_suffix(rs).unwrap_or(s),
+    }
+}
+
 fn toi(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let self_ = match self_val.expect_string("Receiver") {
         Ok(s) => s,
         Err(_) => return Ok(Value::integer(0)),
     };
-    let i: i64 = match self_.parse() {
-        Ok(i) => i,
-        Err(_) => 0,
+    let s = self_.trim_start_matches(|c: char| c.is_ascii_whitespace() || c == '\x0b');
+    let (sign, digits) = match s.strip_prefix('-') {
+        Some(digits) => ("-", digits),
+        None => ("", s.strip_prefix('+').unwrap_or(s)),
     };
-    Ok(Value::integer(i))
+    let mut num = sign.to_string();
+    let mut prev = '_';
+    for c in digits.chars() {
+        match c {
+            '0'..='9' => num.push(c),
+            '_' if prev != '_' => {}
+            _ => break,
+        }
+        prev = c;
+    }
+    match num.parse::<num::BigInt>() {
+        Ok(i) => Ok(Value::bignum(i)),
+        Err(_) => Ok(Value::integer(0)),
+    }
 }
 
 fn lt(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -1179,11 +1335,8 @@ fn count(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let mut arg0 = vm[0];
     let target = self_val.as_string().unwrap();
-    let mut c = 0;
-    let iter = arg0.expect_string("Args")?.chars();
-    for ch in iter {
-        c += target.rmatches(|x| ch == x).count();
-    }
+    let set = CharSet::new(arg0.expect_string("Args")?)?;
+    let c = target.chars().filter(|c| set.position(*c).is_some()).count();
     Ok(Value::integer(c as i64))
 }
 
diff --git a/ruruby/src/value/string.rs b/ruruby/src/value/string.rs
index 789dd5e..2aacc53 100644
--- a/ruruby/src/value/string.rs
+++ b/ruruby/src/value/string.rs
@@ -5,22 +5,37 @@ pub type SmallString = ArrayString<31>;
 
 const SMALL_STRING_CAPACITY: usize = 31;
 
-#[derive(Clone, PartialEq, Hash)]
+#[derive(Clone)]
 pub enum RString {
     Str(String),
     SmallStr(SmallString),
     Bytes(Vec<u8>),
 }
 
+// Strings with the same content are equal regardless of their representation.
+impl PartialEq for RString {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_bytes() == other.as_bytes()
+    }
+}
+
+impl std::hash::Hash for RString {
+    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        self.as_bytes().hash(state);
+    }
+}
+
 use std::fmt;
 impl fmt::Debug for RString {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         fn write(s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-            for ch in s.chars() {
+            let mut iter = s.chars().peekable();
+            while let Some(ch) = iter.next() {
                 match ch {
-                    c @ '\'' | c @ '"' | c @ '\\' => {
+                    c @ '"' | c @ '\\' => {
                         write!(f, "\\{}", c)?;
                     }
+                    '#' if matches!(iter.peek(), Some('{' | '$' | '@')) => write!(f, "\\#")?,
                     c if '\x00' <= c && c <= '\x06' => write!(f, "\\x{:02}", c as u32)?,
                     '\x07' => write!(f, "\\a")?,
                     '\x08' => write!(f, "\\b")?,
@@ -30,6 +45,9 @@ impl fmt::Debug for RString {
                     '\x0c' => write!(f, "\\f")?,
                     '\x0d' => write!(f, "\\r")?,
                     '\x1b' => write!(f, "\\e")?,
+                    c if '\x0e' <= c && c <= '\x1f' || c == '\x7f' => {
+                        write!(f, "\\x{:02X}", c as u32)?
+                    }
                     c => write!(f, "{}", c)?,
                 };
             }
@@ -280,13 +298,3 @@ impl RString {
         }
     }
 }
-
-/*impl std::hash::Hash for RString {
-    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        match self {
-            RString::Str(s) => s.hash(state),
-            RString::SmallStr(s) => s.hash(state),
-            RString::Bytes(b) => b.hash(state),
-        };
-    }
-}*/
-- 
2.43.0


From aabdf10ae8e66d909de711c9d3dcc66a25733f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:35 +0000
Subject: [PATCH 21/87] fix: String#to_s returned a copy

---
 ruruby/src/builtin/string.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index aa1adf2..c752dcd 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -80,8 +80,7 @@ fn string_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn to_s(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let self_ = self_val.as_rstring().unwrap();
-    Ok(Value::string(self_.to_s()))
+    Ok(self_val)
 }
 
 fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-- 
2.43.0


From 681cc2d47b38666b9aaabda1bd73d886701e7fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:29 +0000
Subject: [PATCH 22/87] fix: string patterns ending in a backslash and Z were
 taken for the \Z anchor

---
 ruruby/src/builtin/regexp.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index 385143a..22d8fca 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -26,17 +26,18 @@ impl RegexpInfo {
     }
 
     /// Create `RegexpInfo` from `reg_str`.
-    /// The first `\\Z\z` in `reg_str` is replaced by '\z' for compatibility issue
+    /// `\Z` at the end of `reg_str` is replaced by '\z' for compatibility issue
     /// between fancy_regex crate and Regexp class of Ruby.
     pub(crate) fn from_string(globals: &mut Globals, reg_str: &str) -> Result<Self, Error> {
-        let conv = Regex::new(r"\\Z\z").unwrap();
-        let reg_str = if let Some(mat) = conv.find(reg_str).unwrap() {
-            let mut s = reg_str.to_string();
-            s.replace_range(mat.range(), r"\z");
-            s
-        } else {
-            reg_str.to_string()
-        };
+        let mut reg_str = reg_str.to_string();
+        if let Some(head) = reg_str.strip_suffix('Z') {
+            let backslashes = head.len() - head.trim_end_matches('\\').len();
+            // An even number of backslashes is a sequence of escaped backslashes.
+            if backslashes % 2 == 1 {
+                reg_str.pop();
+                reg_str.push('z');
+            }
+        }
         match globals.regexp_cache.get(&reg_str) {
             Some(re) => Ok(RegexpInfo(re.clone())),
             None => {
-- 
2.43.0


From 145403be16ea831e31d1668a33efbf390ecc9db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:23 +0000
Subject: [PATCH 23/87] fix: Regexp: unsuccessful matches kept the last match,
 Regexp.new was not multi-line, embedding a regexp lost grouping and flags,
 scan with block, flag o, to_s returning a non-string panicked

---
 ruruby/src/builtin/object.rs |   2 +-
 ruruby/src/builtin/regexp.rs | 123 ++++++++++++++++++++++-------------
 ruruby/src/builtin/string.rs |  41 ++++++------
 ruruby/src/codegen.rs        |   2 +-
 ruruby/src/value/value.rs    |   5 +-
 ruruby/src/vm/executor.rs    |   9 ++-
 6 files changed, 114 insertions(+), 68 deletions(-)

diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index fa37476..5709f05 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -58,7 +58,7 @@ fn to_s(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         RV::Object(oref) => match oref.kind() {
             ObjKind::INVALID => unreachable!("Invalid rvalue. (maybe GC problem) {:?}", *oref),
             ObjKind::ORDINARY => oref.to_s(),
-            ObjKind::REGEXP => format!("({})", oref.regexp().as_str()),
+            ObjKind::REGEXP => oref.regexp().to_s(),
             _ => format!("{:?}", self_val),
         },
         _ => unreachable!(),
diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index 22d8fca..9a2ac61 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -54,6 +54,18 @@ impl RegexpInfo {
 // Utility methods
 
 impl RegexpInfo {
+    /// A string expression which can be embedded in another regular expression.
+    pub(crate) fn to_s(&self) -> String {
+        let (flags, body) = match self.as_str().strip_prefix("(?m").map(|s| s.split_once(')')) {
+            Some(Some((flags, body))) if flags.chars().all(|c| c.is_ascii_lowercase()) => {
+                (flags, body)
+            }
+            _ => ("", self.as_str()),
+        };
+        let off: String = "isx".chars().filter(|c| !flags.contains(*c)).collect();
+        format!("(?m{}-{}:{})", flags, off, body)
+    }
+
     /// Replaces the leftmost-first match with `replace`.
     pub(crate) fn replace_one(
         vm: &mut VM,
@@ -84,7 +96,10 @@ impl RegexpInfo {
             block: &Block,
         ) -> Result<(String, bool), RubyError> {
             let (start, end, matched_str) = match re.captures_from_pos(given, 0) {
-                Ok(None) => return Ok((given.to_string(), false)),
+                Ok(None) => {
+                    vm.clear_captures();
+                    return Ok((given.to_string(), false));
+                }
                 Ok(Some(captures)) => {
                     let m = captures.get(0).unwrap();
                     vm.get_captures(&captures, given);
@@ -167,6 +182,9 @@ impl RegexpInfo {
                 range.push((start, end, replace));
             }
 
+            if range.is_empty() {
+                vm.clear_captures();
+            }
             let mut res = given.to_string();
             for (start, end, replace) in range.iter().rev() {
                 res.replace_range(start..end, replace);
@@ -195,7 +213,10 @@ impl RegexpInfo {
             None => return Ok(Value::nil()),
         };
         match re.captures_from_pos(given, pos) {
-            Ok(None) => Ok(Value::nil()),
+            Ok(None) => {
+                vm.clear_captures();
+                Ok(Value::nil())
+            }
             Ok(Some(captures)) => {
                 vm.get_captures(&captures, given);
                 let mut v = vec![];
@@ -223,7 +244,10 @@ impl RegexpInfo {
             None => return Ok(Value::nil()),
         };
         match re.captures_from_pos(given, pos) {
-            Ok(None) => Ok(Value::nil()),
+            Ok(None) => {
+                vm.clear_captures();
+                Ok(Value::nil())
+            }
             Ok(Some(captures)) => {
                 vm.get_captures(&captures, given);
                 let matched = Value::string(captures.get(0).unwrap().as_str());
@@ -241,7 +265,10 @@ impl RegexpInfo {
         given: &'a str,
     ) -> Result<Option<Match<'a>>, RubyError> {
         match re.captures(given) {
-            Ok(None) => Ok(None),
+            Ok(None) => {
+                vm.clear_captures();
+                Ok(None)
+            }
             Ok(Some(captures)) => {
                 vm.get_captures(&captures, given);
                 Ok(captures.get(0))
@@ -250,47 +277,51 @@ impl RegexpInfo {
         }
     }
 
+    /// Find the next match for `given` at `*idx` or after, and advance `*idx` past it.
+    /// Returns matched string, or an array of groups if `re` has some groups.
+    pub(crate) fn find_next(
+        vm: &mut VM,
+        re: &Regex,
+        given: &str,
+        idx: &mut usize,
+    ) -> Result<Option<Value>, RubyError> {
+        if *idx > given.len() {
+            return Ok(None);
+        }
+        let captures = match re.captures_from_pos(given, *idx) {
+            Ok(None) => return Ok(None),
+            Ok(Some(captures)) => captures,
+            Err(err) => return Err(RubyError::internal(format!("Capture failed. {:?}", err))),
+        };
+        let m = captures.get(0).unwrap();
+        *idx = if m.start() == m.end() {
+            next_char_pos(given, m.end())
+        } else {
+            m.end()
+        };
+        vm.get_captures(&captures, given);
+        let val = match captures.len() {
+            1 => Value::string(m.as_str()),
+            len => Value::array_from(
+                (1..len)
+                    .map(|i| match captures.get(i) {
+                        Some(m) => Value::string(m.as_str()),
+                        None => Value::nil(),
+                    })
+                    .collect(),
+            ),
+        };
+        Ok(Some(val))
+    }
+
     pub(crate) fn find_all(vm: &mut VM, re: &Regex, given: &str) -> Result<Vec<Value>, RubyError> {
         let mut ary = vec![];
         let mut idx = 0;
-        let mut last_captures = None;
-        while idx <= given.len() {
-            match re.captures_from_pos(given, idx) {
-                Ok(None) => break,
-                Ok(Some(captures)) => {
-                    let m = captures.get(0).unwrap();
-                    idx = if m.start() == m.end() {
-                        next_char_pos(given, m.end())
-                    } else {
-                        m.end()
-                    };
-                    match captures.len() {
-                        1 => {
-                            let val = Value::string(&given[m.start()..m.end()]);
-                            ary.push(val);
-                        }
-                        len => {
-                            let mut vec = vec![];
-                            for i in 1..len {
-                                match captures.get(i) {
-                                    Some(m) => {
-                                        vec.push(Value::string(&given[m.start()..m.end()]));
-                                    }
-                                    None => vec.push(Value::nil()),
-                                }
-                            }
-                            let val = Value::array_from(vec);
-                            ary.push(val);
-                        }
-                    }
-                    last_captures = Some(captures);
-                }
-                Err(err) => return Err(RubyError::internal(format!("Capture failed. {:?}", err))),
-            };
+        while let Some(val) = Self::find_next(vm, re, given, &mut idx)? {
+            ary.push(val);
         }
-        match last_captures {
-            Some(c) => vm.get_captures(&c, given),
-            None => {}
+        if ary.is_empty() {
+            vm.clear_captures();
         }
         Ok(ary)
     }
@@ -335,7 +366,7 @@ impl RegexpInfo {
 
         match last_captures {
             Some(c) => vm.get_captures(&c, given),
-            None => {}
+            None => vm.clear_captures(),
         }
 
         Ok((res, range.len() != 0))
@@ -352,7 +383,10 @@ impl RegexpInfo {
         replace: &str,
     ) -> Result<(String, Option<Captures>), RubyError> {
         match self.captures(given) {
-            Ok(None) => Ok((given.to_string(), None)),
+            Ok(None) => {
+                vm.clear_captures();
+                Ok((given.to_string(), None))
+            }
             Ok(Some(captures)) => {
                 let mut res = given.to_string();
                 let m = captures.get(0).unwrap();
@@ -423,7 +457,8 @@ fn regexp_new(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let mut arg0 = vm[0];
     let string = arg0.expect_string("1st arg")?;
-    let val = Value::regexp_from(vm, string)?;
+    // `^` and `$` match at any line as well as those in literals.
+    let val = Value::regexp_from(vm, &format!("(?m){}", string))?;
     Ok(val)
 }
 
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index c752dcd..72fd687 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -197,7 +197,10 @@ fn index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
                     vm[1].coerce_to_fixnum("2nd arg")?
                 };
                 match info.captures(lhs) {
-                    Ok(None) => return Ok(Value::nil()),
+                    Ok(None) => {
+                        vm.clear_captures();
+                        return Ok(Value::nil());
+                    }
                     Ok(Some(captures)) => {
                         vm.get_captures(&captures, lhs);
                         let len = captures.len() as i64;
@@ -210,9 +213,10 @@ fn index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
                             }
                         } else {
                             match len + nth {
-                                i if i > 0 => {
-                                    Ok(Value::string(captures.get(i as usize).unwrap().as_str()))
-                                }
+                                i if i > 0 => match captures.get(i as usize) {
+                                    Some(m) => Ok(Value::string(m.as_str())),
+                                    None => Ok(Value::nil()),
+                                },
                                 _ => Ok(Value::nil()),
                             }
                         }
@@ -661,27 +665,24 @@ fn scan(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let given = &self_val.expect_string("Receiver")?.to_string();
     let arg0 = vm[0];
-    let vec = if let Some(s) = arg0.as_string() {
-        let re = vm.regexp_from_escaped_string(s)?;
-        RegexpInfo::find_all(vm, &re, given)?
-    } else if let Some(re) = vm[0].as_regexp() {
-        RegexpInfo::find_all(vm, &*re, given)?
+    let re = if let Some(s) = arg0.as_string() {
+        vm.regexp_from_escaped_string(s)?
+    } else if let Some(re) = arg0.as_regexp() {
+        re
     } else {
         return Err(RubyError::argument("1st arg must be RegExp or String."));
     };
     match &args.block {
-        None => Ok(Value::array_from(vec)),
+        None => Ok(Value::array_from(RegexpInfo::find_all(vm, &re, given)?)),
         Some(block) => {
-            vm.temp_extend_from_slice(&vec);
-            for arg in vec {
-                match arg.as_array() {
-                    Some(ary) => {
-                        vm.eval_block(block, &**ary)?;
-                    }
-                    None => {
-                        vm.eval_block1(block, arg)?;
-                    }
-                }
+            let mut idx = 0;
+            let mut found = false;
+            while let Some(val) = RegexpInfo::find_next(vm, &re, given, &mut idx)? {
+                found = true;
+                vm.eval_block1(block, val)?;
+            }
+            if !found {
+                vm.clear_captures();
             }
             Ok(self_val)
         }
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 5f4a759..40a2da1 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1879,7 +1879,7 @@ impl Codegen {
             'i' => string.insert_str(0, "(?mi)"),
             'm' => string.insert_str(0, "(?ms)"),
             'x' => string.insert_str(0, "(?mx)"),
-            'o' => string.insert_str(0, "(?mo)"),
+            'o' => string.insert_str(0, "(?m)"),
             '-' => string.insert_str(0, "(?m)"),
             _ => return Err(self.error_syntax("Illegal internal regexp expression.", loc)),
         };
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 9d294e5..05690fa 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -410,7 +410,10 @@ impl Value {
                 ObjKind::STRING => oref.string().to_s(),
                 _ => {
                     let val = vm.eval_send0(IdentId::TO_S, *self)?;
-                    Cow::from(val.as_string().unwrap().to_owned())
+                    match val.as_string() {
+                        Some(s) => Cow::from(s.to_owned()),
+                        None => Cow::from(oref.to_s()),
+                    }
                 }
             },
         };
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index b4359a7..88a781b 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -643,6 +643,13 @@ impl VM {
         }
     }
 
+    /// Forget the last match (after an unsuccessful one).
+    pub(crate) fn clear_captures(&mut self) {
+        self.sp_last_match = None;
+        self.sp_post_match = None;
+        self.sp_matches.clear();
+    }
+
     pub(crate) fn get_special_matches(&self, nth: usize) -> Value {
         match self.sp_matches.get(nth - 1) {
             None => Value::nil(),
@@ -818,7 +825,7 @@ impl VM {
             'i' => arg.insert_str(0, "(?mi)"),
             'm' => arg.insert_str(0, "(?ms)"),
             'x' => arg.insert_str(0, "(?mx)"),
-            'o' => arg.insert_str(0, "(?mo)"),
+            'o' => arg.insert_str(0, "(?m)"),
             '-' => arg.insert_str(0, "(?m)"),
             _ => return Err(RubyError::internal("Illegal internal regexp expression.")),
         };
-- 
2.43.0


From 38c423c44b91ae489f7d6c5877f80cf1dcf10045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:50 +0000
Subject: [PATCH 24/87] fix: is_a?/===/rescue ignored modules, method_missing
 lost block and keyword arguments, Object#dup copied singleton methods

---
 ruruby/src/builtin/module.rs     |  4 +---
 ruruby/src/builtin/object.rs     | 14 ++++++++++++-
 ruruby/src/globals.rs            | 15 ++++++--------
 ruruby/src/vm/executor.rs        | 34 ++++++++------------------------
 ruruby/src/vm/executor/method.rs |  3 ++-
 5 files changed, 30 insertions(+), 40 deletions(-)

diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index 05a40fd..9bf3941 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -80,9 +80,7 @@ fn module_constants(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
 /// https://docs.ruby-lang.org/ja/latest/method/Module/i/=3d=3d=3d.html
 fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let class = vm.globals.get_class(vm[0]);
-    let self_val = self_val.into_module();
-    Ok(Value::bool(class.include_module(self_val)))
+    Ok(Value::bool(vm.globals.kind_of(vm[0], self_val)))
 }
 
 /// ## instance method Module#<=>
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 5709f05..7789ebf 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -18,7 +18,7 @@ pub(crate) fn init(globals: &mut Globals) {
     object.add_builtin_method_by_str(globals, "eql?", eql);
     object.add_builtin_method_by_str(globals, "singleton_class", singleton_class);
     object.add_builtin_method_by_str(globals, "extend", extend);
-    object.add_builtin_method_by_str(globals, "clone", dup);
+    object.add_builtin_method_by_str(globals, "clone", clone);
     object.add_builtin_method_by_str(globals, "dup", dup);
     object.add_builtin_method_by_str(globals, "nil?", nil_);
     object.add_builtin_method_by_str(globals, "method", method);
@@ -89,9 +89,21 @@ fn extend(vm: &mut VM, self_val: Value, _: &Args2) -> VMResult {
     Ok(self_val)
 }
 
+fn clone(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    let val = self_val.shallow_dup();
+    Ok(val)
+}
+
 fn dup(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let val = self_val.shallow_dup();
+    if self_val.if_mod_class().is_none() {
+        if let Some(rvalue) = self_val.as_rvalue() {
+            // Singleton methods are not copied.
+            val.set_class(rvalue.real_class());
+        }
+    }
     Ok(val)
 }
 
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index f977141..1dc11a8 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -191,18 +191,15 @@ impl Globals {
         self.methods.find_method(rec_class, method_id)
     }
 
+    /// Check whether `class` (Class or Module) is in the ancestors of the class (or the singleton class) of `val`.
     pub(crate) fn kind_of(&self, val: Value, class: Value) -> bool {
-        let mut val = self.get_class(val);
-        loop {
-            if val.id() == class.id() {
-                return true;
+        match class.if_mod_class() {
+            Some(class) => {
+                self.get_class(val).include_module(class)
+                    || self.get_class_for_method(val).include_module(class)
             }
-            val = match val.upper() {
-                Some(val) => val,
-                None => break,
-            };
+            None => false,
         }
-        false
     }
 
     pub(crate) fn add_source_file(&mut self, file_path: &Path) -> Option<usize> {
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 88a781b..7ecdda3 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -711,33 +711,15 @@ impl VM {
 
 impl VM {
     fn eval_rescue(&self, val: Value, exceptions: &[Value]) -> bool {
-        let mut module = if val.is_class() {
-            Module::new(val)
-        } else {
-            self.globals.get_class(val)
+        let is_rescued = |class: &Value| match class.if_mod_class() {
+            Some(class) if val.is_class() => Module::new(val).include_module(class),
+            Some(_) => self.globals.kind_of(val, *class),
+            None => false,
         };
-        loop {
-            if !module.is_module()
-                && exceptions.iter().any(|x| {
-                    if let Some(ary) = x.as_splat() {
-                        ary.as_array()
-                            .unwrap()
-                            .iter()
-                            .any(|elem| elem.id() == module.id())
-                    } else {
-                        x.id() == module.id()
-                    }
-                })
-            {
-                return true;
-            };
-
-            match module.upper() {
-                Some(upper) => module = upper,
-                None => break,
-            }
-        }
-        false
+        exceptions.iter().any(|x| match x.as_splat() {
+            Some(ary) => ary.as_array().unwrap().iter().any(is_rescued),
+            None => is_rescued(x),
+        })
     }
 
     /// Generate new class object with `super_val` as a superclass.
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index 5dcd762..df73f4f 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -367,7 +367,8 @@ impl VM {
         {
             Some(method) => {
                 let len = args.len();
-                let new_args = Args2::new(len + 1);
+                let mut new_args = args.clone();
+                new_args.set_len(len + 1);
                 self.stack
                     .insert(self.sp() - len, Value::symbol(method_name));
                 self.invoke_method(method, &new_args, use_value)
-- 
2.43.0


From f3b04f46c0eabad6967003a4e2da39f1107b6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 25/87] fix: back references \2..\9 in regexp literals were
 taken for octal digits

---
 ruruby-parse/src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index e18289d..afbe8d7 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -926,7 +926,7 @@ impl<'a> Lexer<'a> {
                             // TODO: It is necessary to count capture groups
                             // to determine whether backref or octal digit.
                             // Current impl. may cause problems.
-                            if '1' >= ch && ch <= '9' && !self.peek_digit() {
+                            if '1' <= ch && ch <= '9' && !self.peek_digit() {
                                 s.push(ch);
                             } else if ('0'..='7').contains(&ch) {
                                 let hex = format!("x{:02x}", self.consume_tri_octal(ch).unwrap());
-- 
2.43.0


From b5d387c1319a4ce83c59477ebb5ce83a25ed45da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:03 +0000
Subject: [PATCH 26/87] fix: repeated include/prepend duplicated modules,
 include after prepend landed before the class, super ignored method_missing
 and failed in an aliased method redefined later, included_modules listed the
 class itself

---
 ruruby/src/builtin/module.rs       |   8 +-
 ruruby/src/value/class.rs          | 143 ++++++++++++++++++++---------
 ruruby/src/vm/executor/opt_core.rs |  24 +++--
 3 files changed, 120 insertions(+), 55 deletions(-)

diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index 9bf3941..4ffe43e 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -393,14 +393,16 @@ fn prepend(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
 
 fn included_modules(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let mut module = Some(self_val.into_module());
+    let self_mod = self_val.into_module();
+    let mut module = Some(self_mod);
     let mut ary = vec![];
     loop {
         match module {
             None => break,
             Some(m) => {
-                if m.is_included() {
-                    ary.push(m.origin().unwrap().into())
+                let origin = m.real_module();
+                if m.is_included() && origin.is_module() && origin.id() != self_mod.id() {
+                    ary.push(origin.into())
                 };
                 module = m.upper();
             }
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index c98ba59..db42221 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -233,15 +233,32 @@ impl Module {
     /// Get the method which `super` in `current` (a method named `method`) calls.
     pub(crate) fn search_super_method(&self, method: IdentId, current: FnId) -> Option<FnId> {
         let mut found = false;
-        self.search_method_with(method, |fid| {
-            let is_super = found;
-            if fid == current {
-                found = true;
-                return false;
+        let method_super = self
+            .search_method_with(method, |fid| {
+                let is_super = found;
+                if fid == current {
+                    found = true;
+                    return false;
+                }
+                is_super
+            })
+            .map(|m| m.fid());
+        if found {
+            return method_super;
+        }
+        // The method `current` was redefined after it was aliased.
+        let mut class = Some(self.search_root());
+        while let Some(c) = class {
+            if found {
+                if let Some(fid) = c.get_instance_method(method) {
+                    return Some(fid);
+                }
+            } else {
+                found = c.ext.method_table.values().any(|fid| *fid == current);
             }
-            is_super
-        })
-        .map(|m| m.fid())
+            class = c.upper();
+        }
+        None
     }
 
     pub(crate) fn search_method_no_inherit(&self, method: IdentId) -> Option<FnId> {
@@ -514,52 +531,92 @@ impl ClassInfo {
         globals.methods.inc_class_version();
     }
 
-    pub(crate) fn append_include_without_increment_version(&mut self, mut module: Module) {
-        let superclass = self.upper;
-        let mut imodule = module.generate_included();
-        self.upper = Some(imodule);
-        loop {
-            module = match module.upper() {
-                Some(module) => module,
-                None => break,
-            };
-            let mut prev = imodule;
-            imodule = module.generate_included();
-            prev.upper = Some(imodule);
+    pub(crate) fn append_include_without_increment_version(&mut self, module: Module) {
+        match self.origin_iclass() {
+            Some(mut dummy) => dummy.insert_modules(module, true),
+            None => self.insert_modules(module, true),
         }
-        imodule.upper = superclass;
     }
 
-    pub(crate) fn append_prepend(
-        &mut self,
-        globals: &mut Globals,
-        base: Module,
-        mut module: Module,
-    ) {
-        let superclass = self.upper;
-        let mut imodule = module.generate_included();
-        self.upper = Some(imodule);
-        loop {
-            module = match module.upper() {
-                Some(module) => module,
-                None => break,
-            };
-            let mut prev = imodule;
-            imodule = module.generate_included();
-            prev.upper = Some(imodule);
-        }
+    pub(crate) fn append_prepend(&mut self, globals: &mut Globals, base: Module, module: Module) {
         if !self.has_prepend() {
             let mut dummy = base.dup();
-            dummy.upper = superclass;
+            dummy.upper = self.upper;
             dummy.set_include(base);
-            imodule.upper = Some(dummy);
+            self.upper = Some(dummy);
             self.set_prepend();
-        } else {
-            imodule.upper = superclass;
         }
+        self.insert_modules(module, false);
         globals.methods.inc_class_version();
     }
 
+    /// The included class which stands for `self` in the ancestors, if some modules were prepended to `self`.
+    fn origin_iclass(&self) -> Option<Module> {
+        if !self.has_prepend() {
+            return None;
+        }
+        let mut m = self.upper?;
+        while m.is_included() {
+            if m.ext.id() == self.ext.id() {
+                return Some(m);
+            }
+            m = m.upper?;
+        }
+        None
+    }
+
+    /// Insert `module` and its ancestors next to `self`.
+    ///
+    /// A module which already exists in the ancestors is not inserted again.
+    /// If `is_include` is false, only the prepended modules are looked for.
+    fn insert_modules(&mut self, module: Module, is_include: bool) {
+        let mut pos: Option<Module> = None;
+        let mut module = Some(module.search_root());
+        while let Some(m) = module {
+            let id = m.real_module().id();
+            // Look for the module, and keep the order of the modules below the superclass.
+            let mut upper = self.upper;
+            let mut in_self = true;
+            let mut passed = pos.is_none();
+            let mut exists = false;
+            while let Some(p) = upper {
+                if !p.is_included() {
+                    if !is_include {
+                        break;
+                    }
+                    in_self = false;
+                } else if p.real_module().id() == id {
+                    if in_self && passed {
+                        pos = Some(p);
+                    }
+                    exists = true;
+                    break;
+                } else if !is_include && p.ext.id() == self.ext.id() {
+                    break;
+                }
+                if Some(p.id()) == pos.map(|m| m.id()) {
+                    passed = true;
+                }
+                upper = p.upper;
+            }
+            if !exists {
+                let mut imodule = m.generate_included();
+                match pos {
+                    Some(mut p) => {
+                        imodule.upper = p.upper;
+                        p.upper = Some(imodule);
+                    }
+                    None => {
+                        imodule.upper = self.upper;
+                        self.upper = Some(imodule);
+                    }
+                }
+                pos = Some(imodule);
+            }
+            module = m.upper();
+        }
+    }
+
     #[inline(always)]
     pub(crate) fn origin(&self) -> Option<Module> {
         self.ext.origin
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 26c1d3a..cdbc418 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -747,14 +747,7 @@ impl VM {
         let iseq = self.get_method_iseq();
         if let ISeqKind::Method(Some(m_id)) = iseq.kind {
             let class = self.globals.get_class_for_method(self_value);
-            let method = class
-                .search_super_method(m_id, iseq.method)
-                .ok_or_else(|| {
-                    RubyError::nomethod(format!(
-                        "no superclass method `{:?}' for {:?}.",
-                        m_id, self_value
-                    ))
-                })?;
+            let method = class.search_super_method(m_id, iseq.method);
             let mut args = if delegate_flag {
                 // When `super` has no arguments, use arguments which were passed to the current method.
                 self.push_method_args(iseq)
@@ -765,7 +758,20 @@ impl VM {
                 Some(block) => Some(Block::Block(block, self.cur_frame())),
                 None => self.get_method_block(),
             };
-            self.invoke_method(method, &args, true)
+            match method {
+                Some(method) => self.invoke_method(method, &args, true),
+                None if self
+                    .globals
+                    .find_method_from_receiver(self_value, IdentId::_METHOD_MISSING)
+                    .is_some() =>
+                {
+                    self.invoke_method_missing(m_id, &args, true)
+                }
+                None => Err(RubyError::nomethod(format!(
+                    "no superclass method `{:?}' for {:?}.",
+                    m_id, self_value
+                ))),
+            }
         } else {
             Err(RubyError::nomethod("super called outside of method"))
         }
-- 
2.43.0


From a46cc054b272c16c354ed2106b66fa381fc4f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:36 +0000
Subject: [PATCH 27/87] fix: objects with a singleton class responded to the
 methods of Class, send dropped keyword arguments and ignored method_missing

---
 ruruby/src/builtin/object.rs | 32 +++++++++++++++++++++++---------
 ruruby/src/value/class.rs    | 10 +---------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 7789ebf..913f53d 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -218,18 +218,32 @@ fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn send(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_min(1)?;
-    let receiver = self_val;
-    let method_id = match vm[0].as_symbol() {
+    let mut name = vm[0];
+    let method_id = match name.as_symbol() {
         Some(symbol) => symbol,
+        None if name.as_string().is_some() => IdentId::get_id(name.expect_string("1st arg")?),
         None => return Err(RubyError::argument("Must be a symbol.")),
     };
-    let fid = receiver.get_method_or_nomethod(&mut vm.globals, method_id)?;
-
-    let (mut src, mut len) = vm.args_range();
-    src += 1;
-    len -= 1;
-    let new_arg = Args2::new_with_block(len, args.block.clone());
-    vm.eval_method_range(fid, self_val, src, len, &new_arg)
+    let mut new_args = args.clone();
+    let rec_class = vm.globals.get_class_for_method(self_val);
+    match vm.globals.methods.find_method(rec_class, method_id) {
+        Some(fid) => {
+            let (src, len) = vm.args_range();
+            new_args.set_len(len - 1);
+            vm.eval_method_range(fid, self_val, src + 1, len - 1, &new_args)
+        }
+        None => match vm
+            .globals
+            .find_method_from_receiver(self_val, IdentId::_METHOD_MISSING)
+        {
+            Some(fid) => {
+                let mut slice = vm.args().to_vec();
+                slice[0] = Value::symbol(method_id);
+                vm.eval_method(fid, self_val, &slice, &new_args)
+            }
+            None => Err(VMError::undefined_method(method_id, self_val)),
+        },
+    }
 }
 
 fn to_enum(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index db42221..daef129 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -203,7 +203,6 @@ impl Module {
         mut f: impl FnMut(FnId) -> bool,
     ) -> Option<DefinedMethod> {
         let mut class = self.search_root();
-        let mut singleton_flag = self.is_singleton();
         loop {
             match class.get_instance_method(method) {
                 Some(method) if f(method) => {
@@ -211,14 +210,7 @@ impl Module {
                 }
                 _ => match class.upper() {
                     Some(superclass) => class = superclass,
-                    None => {
-                        if singleton_flag {
-                            singleton_flag = false;
-                            class = self.class();
-                        } else {
-                            return None;
-                        }
-                    }
+                    None => return None,
                 },
             };
         }
-- 
2.43.0


From 9d8bc245162b46f130bce87f86c1279ab7ed7a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:24 +0000
Subject: [PATCH 28/87] fix: marking deeply nested objects overflowed the
 native stack, GC.enable/disable returned the inverse of the former state

---
 ruruby/src/alloc.rs        | 23 ++++++++++++++++++++++-
 ruruby/src/builtin/gc.rs   |  4 ++--
 ruruby/src/value/rvalue.rs | 22 +++++++++++++---------
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/ruruby/src/alloc.rs b/ruruby/src/alloc.rs
index 90b6c93..c108317 100644
--- a/ruruby/src/alloc.rs
+++ b/ruruby/src/alloc.rs
@@ -42,9 +42,12 @@ pub trait GCRoot<T: GCBox>: GC<T> {
     fn startup_flag(&self) -> bool;
 }
 
-pub trait GCBox: PartialEq {
+pub trait GCBox: PartialEq + Sized {
     fn free(&mut self);
 
+    /// Mark objects which `self` refers to.
+    fn mark_children(&self, alloc: &mut Allocator<Self>);
+
     fn next(&self) -> Option<std::ptr::NonNull<Self>>;
 
     fn set_next_none(&mut self);
@@ -67,6 +70,8 @@ pub struct Allocator<T> {
     pages: Vec<PageRef<T>>,
     /// Counter of marked objects,
     mark_counter: usize,
+    /// Marked objects whose children are not yet marked.
+    mark_stack: Vec<*const T>,
     /// List of free objects.
     free: Option<std::ptr::NonNull<T>>,
     /// Deallocated pages.
@@ -92,6 +97,7 @@ impl<T: GCBox> Allocator<T> {
             current: ptr,
             pages: vec![],
             mark_counter: 0,
+            mark_stack: vec![],
             free: None,
             free_pages: vec![],
             count: 0,
@@ -190,6 +196,7 @@ impl<T: GCBox> Allocator<T> {
     pub fn gc_mark_only(&mut self, root: &impl GC<T>) {
         self.clear_mark();
         root.mark(self);
+        self.mark_pending();
         self.print_mark();
     }
 
@@ -223,6 +230,7 @@ impl<T: GCBox> Allocator<T> {
         }
         self.clear_mark();
         root.mark(self);
+        self.mark_pending();
         #[cfg(feature = "gc-debug")]
         if root.startup_flag() {
             eprintln!("marked: {}  ", self.mark_counter);
@@ -244,6 +252,19 @@ impl<T: GCBox> Allocator<T> {
         }
     }
 
+    /// Reserve `ptr`, which has just been marked, for marking its children.
+    ///
+    /// Children are not marked recursively, because references may be nested deeply.
+    pub fn gc_push_pending(&mut self, ptr: &T) {
+        self.mark_stack.push(ptr);
+    }
+
+    fn mark_pending(&mut self) {
+        while let Some(ptr) = self.mark_stack.pop() {
+            unsafe { (*ptr).mark_children(self) };
+        }
+    }
+
     /// Mark object.
     /// If object is already marked, return true.
     /// If not yet, mark it and return false.
diff --git a/ruruby/src/builtin/gc.rs b/ruruby/src/builtin/gc.rs
index eac7a29..5be3d95 100644
--- a/ruruby/src/builtin/gc.rs
+++ b/ruruby/src/builtin/gc.rs
@@ -24,7 +24,7 @@ fn enable(_: &mut VM, _: Value, args: &Args2) -> VMResult {
     let last_state = ALLOC.with(|m| {
         let enabled = m.borrow().gc_enabled;
         m.borrow_mut().gc_enabled = true;
-        enabled
+        !enabled
     });
     Ok(Value::bool(last_state))
 }
@@ -34,7 +34,7 @@ fn disable(_: &mut VM, _: Value, args: &Args2) -> VMResult {
     let last_state = ALLOC.with(|m| {
         let enabled = m.borrow().gc_enabled;
         m.borrow_mut().gc_enabled = false;
-        enabled
+        !enabled
     });
     Ok(Value::bool(last_state))
 }
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 558207e..9e4e6b6 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -455,6 +455,19 @@ impl GC<RValue> for RValue {
         if alloc.gc_check_and_mark(self) {
             return;
         }
+        alloc.gc_push_pending(self);
+    }
+}
+
+impl PartialEq for RValue {
+    #[inline(always)]
+    fn eq(&self, other: &Self) -> bool {
+        self.id() == other.id()
+    }
+}
+
+impl GCBox for RValue {
+    fn mark_children(&self, alloc: &mut Allocator<RValue>) {
         self.class.mark(alloc);
         match &self.var_table {
             Some(table) => table.values().for_each(|v| v.mark(alloc)),
@@ -494,16 +507,7 @@ impl GC<RValue> for RValue {
             _ => unreachable!("{:?}", self),
         }
     }
-}
-
-impl PartialEq for RValue {
-    #[inline(always)]
-    fn eq(&self, other: &Self) -> bool {
-        self.id() == other.id()
-    }
-}
 
-impl GCBox for RValue {
     fn free(&mut self) {
         unsafe {
             if let Some(k) = self.kind_or_none() {
-- 
2.43.0


From 6f4f059f0d8bb8f0791e4b80009df20f72c3fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 29/87] fix: restrictions on the enclosing expression leaked
 into nested statements: multiple assignment inside a begin or if used as a
 value was a SyntaxError

---
 ruruby-parse/src/parser/expression.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 59695f5..133086e 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -4,6 +4,25 @@ use super::*;
 
 impl<'a, A: LocalsContext> Parser<'a, A> {
     pub(super) fn parse_comp_stmt(&mut self) -> Result<Node, ParseErr> {
+        // The restrictions of the enclosing expression do not apply to the statements.
+        let old = (
+            self.suppress_acc_assign,
+            self.suppress_mul_assign,
+            self.suppress_do_block,
+        );
+        self.suppress_acc_assign = false;
+        self.suppress_mul_assign = false;
+        self.suppress_do_block = false;
+        let res = self.parse_stmts();
+        (
+            self.suppress_acc_assign,
+            self.suppress_mul_assign,
+            self.suppress_do_block,
+        ) = old;
+        res
+    }
+
+    fn parse_stmts(&mut self) -> Result<Node, ParseErr> {
         // COMP_STMT : (STMT (TERM STMT)*)? (TERM+)?
         self.peek()?;
         let loc = self.loc();
-- 
2.43.0


From b91f6030a30c0eeaaf327e8c1a1dfe637fda00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 30/87] fix: Range#first and #last panicked on ranges of other
 things than integers

---
 ruruby/src/builtin/range.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index 544cf01..911d96a 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -94,11 +94,11 @@ fn end(_vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn first(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 1)?;
     let range = self_val.as_range().unwrap();
-    let start = range.start.as_fixnum().unwrap();
-    let mut end = range.end.as_fixnum().unwrap() - if range.exclude { 1 } else { 0 };
     if args.len() == 0 {
         return Ok(range.start);
     };
+    let start = range.start.coerce_to_fixnum("Range")?;
+    let mut end = range.end.coerce_to_fixnum("Range")? - if range.exclude { 1 } else { 0 };
     let arg = vm[0].coerce_to_fixnum("Argument")?;
     if arg < 0 {
         return Err(RubyError::argument("Negative array size"));
@@ -116,11 +116,11 @@ fn first(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn last(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 1)?;
     let range = self_val.as_range().unwrap();
-    let mut start = range.start.as_fixnum().unwrap();
-    let end = range.end.as_fixnum().unwrap() - if range.exclude { 1 } else { 0 };
     if args.len() == 0 {
         return Ok(range.end);
     };
+    let mut start = range.start.coerce_to_fixnum("Range")?;
+    let end = range.end.coerce_to_fixnum("Range")? - if range.exclude { 1 } else { 0 };
     let arg = vm[0].coerce_to_fixnum("Argument")?;
     if arg < 0 {
         return Err(RubyError::argument("Negative array size"));
-- 
2.43.0


From cf725f26946cee06cfd773cad81070896d8f4e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 31/87] fix: operands of == were collected while an element's
 == method ran

---
 ruruby/src/vm/executor/ops.rs | 39 ++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 099563a..05d9d01 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -425,22 +425,47 @@ impl VM {
                 Ok(lhsr.string().as_bytes() == rhsr.string().as_bytes())
             }
             (ObjKind::ARRAY, ObjKind::ARRAY) => {
+                // The arrays must survive `==` methods called on the way.
+                let len = self.temp_len();
+                self.temp_extend_from_slice(&[lhs, rhs]);
                 let (lhs, rhs) = (&*lhsr.array(), &*rhsr.array());
                 if lhs.len() != rhs.len() {
+                    self.temp_pop_vec(len);
                     return Ok(false);
                 }
-                for (l, r) in lhs.iter().zip(rhs.iter()) {
-                    if !self.eval_eq2(*r, *l)? {
-                        return Ok(false);
+                let mut res = Ok(true);
+                for i in 0..lhs.len() {
+                    let (l, r) = match (lhs.get(i), rhs.get(i)) {
+                        (Some(l), Some(r)) => (*l, *r),
+                        _ => {
+                            res = Ok(false);
+                            break;
+                        }
+                    };
+                    res = self.eval_eq2(r, l);
+                    if !matches!(res, Ok(true)) {
+                        break;
                     }
                 }
-                Ok(true)
+                self.temp_pop_vec(len);
+                res
             }
             (ObjKind::RANGE, ObjKind::RANGE) => {
+                let (range1, range2) = (lhs, rhs);
                 let (lhs, rhs) = (&*lhsr.range(), &*rhsr.range());
-                Ok(rhs.exclude == lhs.exclude
-                    && self.eval_eq2(rhs.start, lhs.start)?
-                    && self.eval_eq2(rhs.end, lhs.end)?)
+                // The ranges must survive `==` methods called on the way.
+                let len = self.temp_len();
+                self.temp_extend_from_slice(&[range1, range2]);
+                let res = if rhs.exclude != lhs.exclude {
+                    Ok(false)
+                } else {
+                    match self.eval_eq2(rhs.start, lhs.start) {
+                        Ok(true) => self.eval_eq2(rhs.end, lhs.end),
+                        res => res,
+                    }
+                };
+                self.temp_pop_vec(len);
+                res
             }
             (ObjKind::HASH, ObjKind::HASH) => Ok(*lhsr.rhash() == *rhsr.rhash()),
             (ObjKind::REGEXP, ObjKind::REGEXP) => Ok(*lhsr.regexp() == *rhsr.regexp()),
-- 
2.43.0


From 704ce9c3e9218937708227a8ad58081bb0e5c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 32/87] fix: self and block of captured environments were not
 marked by the collector, a captured method frame kept a reference to the dead
 frame of its block, new locals of an eval'ed binding were not nil

---
 ruruby/src/vm/executor.rs       |  7 ++-----
 ruruby/src/vm/executor/frame.rs | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 7ecdda3..a442d08 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -79,11 +79,8 @@ impl GC<RValue> for VM {
             if f.is_ruby_func() {
                 let ep = f.ep();
                 if self.check_boundary(ep.as_ptr()).is_none() {
-                    ep.locals().iter().for_each(|v| {
-                        v.mark(alloc);
-                    });
-                }
-                if let Some(d) = ep.outer() {
+                    ep.mark(alloc)
+                } else if let Some(d) = ep.outer() {
                     d.mark(alloc)
                 }
             };
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index 61417a8..86c6fe6 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -244,8 +244,12 @@ impl ruruby_parse::parser::LocalsContext for EnvFrame {
 
 impl GC<RValue> for EnvFrame {
     fn mark(&self, alloc: &mut Allocator<RValue>) {
+        self.self_value().mark(alloc);
         self.locals().iter().for_each(|v| v.mark(alloc));
         if self.is_ruby_func() {
+            if let Some(block) = self.block() {
+                block.mark(alloc)
+            }
             if let Some(d) = self.outer() {
                 d.mark(alloc)
             }
@@ -290,6 +294,11 @@ impl EnvFrame {
         Block::decode(self[EV_BLK])
     }
 
+    fn set_block(mut self, proc: Value) {
+        debug_assert!(self.is_ruby_func());
+        self[EV_BLK] = proc;
+    }
+
     fn is_module_function(self) -> bool {
         debug_assert!(self.is_ruby_func());
         self.flag() & FLG_MOD_FUNC != 0
@@ -347,6 +356,7 @@ impl EnvFrame {
         }
         for _ in 0..new_len - local_len {
             new[0] = Value::nil();
+            new += 1;
         }
         self.set_local_len(new_len);
         self[EV_ISEQ] = Value::fixnum(iseq.encode());
@@ -811,6 +821,12 @@ impl VM {
         if self.cfp.as_ptr() == ep.as_ptr() {
             self.lfp = heap_ep.get_lfp();
         }
+        if let Some(block @ Block::Block(..)) = heap_ep.block() {
+            // the block may be called after the frames it refers to have gone.
+            let proc = self.create_proc(&block);
+            heap_ep.set_block(proc);
+            ep.set_block(proc);
+        }
         #[cfg(feature = "trace-func")]
         eprintln!("stack {:?} => heap {:?}", ep.as_ptr(), heap_ep.as_ptr());
         heap_ep
-- 
2.43.0


From eb8909bbdb56b2a53bc02ab515dcd01e05a8bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:11 +0000
Subject: [PATCH 33/87] fix: method caches survived the collection of their
 class and were applied to a new class at the same address, modules of the
 lexical scope, owners of method objects and targets of singleton classes were
 not marked

---
 ruruby/src/alloc.rs          | 13 ++++++++-----
 ruruby/src/globals.rs        |  1 +
 ruruby/src/globals/method.rs |  7 +++++++
 ruruby/src/value/class.rs    |  3 +++
 ruruby/src/vm/executor.rs    | 14 ++++++++++++--
 5 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/ruruby/src/alloc.rs b/ruruby/src/alloc.rs
index c108317..f317dd6 100644
--- a/ruruby/src/alloc.rs
+++ b/ruruby/src/alloc.rs
@@ -201,22 +201,24 @@ impl<T: GCBox> Allocator<T> {
     }
 
     #[inline(always)]
-    pub fn check_gc(&mut self, root: &impl GCRoot<T>) {
+    /// Execute GC if necessary. Return true if GC was executed.
+    pub fn check_gc(&mut self, root: &impl GCRoot<T>) -> bool {
         let malloced = MALLOC_AMOUNT.load(std::sync::atomic::Ordering::SeqCst);
         #[cfg(not(feature = "gc-stress"))]
         {
             if !self.is_allocated() && !(self.malloc_threshold < malloced) {
-                return;
+                return false;
             }
         }
         #[cfg(feature = "gc-debug")]
         dbg!(malloced);
-        self.gc(root);
+        self.gc(root)
     }
 
-    pub fn gc(&mut self, root: &impl GCRoot<T>) {
+    /// Execute GC unless disabled. Return true if GC was executed.
+    pub fn gc(&mut self, root: &impl GCRoot<T>) -> bool {
         if !self.gc_enabled {
-            return;
+            return false;
         }
         #[cfg(feature = "gc-debug")]
         if root.startup_flag() {
@@ -250,6 +252,7 @@ impl<T: GCBox> Allocator<T> {
         if root.startup_flag() {
             eprintln!("#### GC End");
         }
+        true
     }
 
     /// Reserve `ptr`, which has just been marked, for marking its children.
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 1dc11a8..48a0762 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -42,6 +42,7 @@ impl GC<RValue> for Globals {
     fn mark(&self, alloc: &mut Allocator<RValue>) {
         self.const_values.mark(alloc);
         self.main_object.mark(alloc);
+        self.methods.mark(alloc);
         self.global_var.values().for_each(|v| v.mark(alloc));
         for t in &self.case_dispatch.table {
             t.keys().for_each(|k| k.mark(alloc));
diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index 7de7f9a..f496504 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -29,6 +29,12 @@ impl std::ops::IndexMut<FnId> for MethodRepo {
     }
 }
 
+impl GC<RValue> for MethodRepo {
+    fn mark(&self, alloc: &mut Allocator<RValue>) {
+        self.table.iter().for_each(|info| info.mark(alloc));
+    }
+}
+
 impl MethodRepo {
     pub(crate) fn new() -> Self {
         Self {
@@ -621,5 +627,6 @@ impl GC<RValue> for MethodObjInfo {
         if let Some(rec) = self.receiver {
             rec.mark(alloc);
         }
+        self.owner.mark(alloc);
     }
 }
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index daef129..58b0f38 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -371,6 +371,9 @@ impl GC<RValue> for ClassInfo {
         if let Some(module) = &self.ext.origin {
             module.mark(alloc)
         };
+        if let Some(target) = &self.ext.singleton_for {
+            target.mark(alloc)
+        };
     }
 }
 
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index a442d08..24f8a56 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -354,12 +354,22 @@ impl VM {
                 return;
             }
         }
-        ALLOC.with(|m| m.borrow_mut().check_gc(&*self.globals));
+        if ALLOC.with(|m| m.borrow_mut().check_gc(&*self.globals)) {
+            self.invalidate_method_caches();
+        }
     }
 
     #[inline(always)]
     pub fn gc(&mut self) {
-        ALLOC.with(|m| m.borrow_mut().gc(&*self.globals));
+        if ALLOC.with(|m| m.borrow_mut().gc(&*self.globals)) {
+            self.invalidate_method_caches();
+        }
+    }
+
+    /// Method caches refer to classes by their address, which may be reused for another class
+    /// after GC.
+    fn invalidate_method_caches(&mut self) {
+        self.globals.methods.inc_class_version();
     }
 
     #[inline]
-- 
2.43.0


From 129cf4cd81d7883883bc428a1a0c2f1a298c3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:07 +0000
Subject: [PATCH 34/87] fix: the fiber driven by Enumerator#each/map/with_index
 was not marked by the collector, nor the receiver of an exhausted enumerator;
 inspect read its arguments from the wrong frame

---
 ruruby/src/builtin/enumerator.rs |  7 +++++--
 ruruby/src/coroutine.rs          |  3 ++-
 ruruby/src/vm/executor/fiber.rs  | 14 ++++++++++----
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/ruruby/src/builtin/enumerator.rs b/ruruby/src/builtin/enumerator.rs
index 46d2a43..d1da93d 100644
--- a/ruruby/src/builtin/enumerator.rs
+++ b/ruruby/src/builtin/enumerator.rs
@@ -55,9 +55,9 @@ fn inspect(vm: &mut VM, mut self_val: Value, _args: &Args2) -> VMResult {
     let arg_string = {
         match args.len() {
             0 => "".to_string(),
-            1 => format!(" {:?}", vm[0]),
+            1 => format!(" {:?}", args[0]),
             _ => {
-                let mut s = format!(" {:?}", vm[0]);
+                let mut s = format!(" {:?}", args[0]);
                 for i in 1..args.len() {
                     s = format!("{},{:?}", s, args[i]);
                 }
@@ -101,6 +101,7 @@ fn each(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         Some(block) => block,
     };
     let mut fiber = vm.dup_enum(eref);
+    let fiber = fiber.as_enumerator().unwrap();
     let f = vm.eval_block_map1(block);
     loop {
         let val = match fiber.resume(Value::nil()) {
@@ -131,6 +132,7 @@ fn map(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let eref = self_val.as_enumerator().unwrap();
     let mut info = vm.dup_enum(eref);
+    let info = info.as_enumerator().unwrap();
     let block = match &args.block {
         None => {
             // return Enumerator
@@ -159,6 +161,7 @@ fn with_index(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let eref = self_val.as_enumerator().unwrap();
     let mut info = vm.dup_enum(eref);
+    let info = info.as_enumerator().unwrap();
     let block = match &args.block {
         None => {
             // return Enumerator
diff --git a/ruruby/src/coroutine.rs b/ruruby/src/coroutine.rs
index d3e4008..37b7ece 100644
--- a/ruruby/src/coroutine.rs
+++ b/ruruby/src/coroutine.rs
@@ -70,11 +70,12 @@ impl Drop for FiberContext {
 
 impl GC<RValue> for FiberContext {
     fn mark(&self, alloc: &mut Allocator<RValue>) {
+        // The receiver and the arguments of an enumerator are used after its fiber is dead.
+        self.kind.mark(alloc);
         if self.state == FiberState::Dead {
             return;
         }
         self.vm.mark(alloc);
-        self.kind.mark(alloc);
     }
 }
 
diff --git a/ruruby/src/vm/executor/fiber.rs b/ruruby/src/vm/executor/fiber.rs
index 306a0ea..cd2239b 100644
--- a/ruruby/src/vm/executor/fiber.rs
+++ b/ruruby/src/vm/executor/fiber.rs
@@ -2,11 +2,17 @@ use crate::coroutine::*;
 use crate::*;
 
 impl VM {
-    pub(crate) fn dup_enum(&mut self, eref: &FiberContext) -> Box<FiberContext> {
-        match &eref.kind {
-            FiberKind::Enum(box info) => Box::new(self.create_enum_info(info.clone())),
+    /// Create a fresh enumerator from *eref*.
+    /// The new object is pushed on the temp stack, as its fiber must be kept alive
+    /// while the caller drives it.
+    pub(crate) fn dup_enum(&mut self, eref: &FiberContext) -> Value {
+        let fiber = match &eref.kind {
+            FiberKind::Enum(box info) => self.create_enum_info(info.clone()),
             _ => unreachable!(),
-        }
+        };
+        let val = Value::enumerator(fiber);
+        self.temp_push(val);
+        val
     }
 
     /// Create Enumerator object.
-- 
2.43.0


From 14043a16dd44667d6bf13db96bbf707b3bc1f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:43 +0000
Subject: [PATCH 35/87] fix: resuming a fiber that is already resumed crashed
 instead of raising FiberError

---
 ruruby/src/coroutine.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ruruby/src/coroutine.rs b/ruruby/src/coroutine.rs
index 37b7ece..43a9a80 100644
--- a/ruruby/src/coroutine.rs
+++ b/ruruby/src/coroutine.rs
@@ -59,6 +59,8 @@ pub struct FiberContext {
     pub state: FiberState,
     pub vm: VMRef,
     pub kind: FiberKind,
+    /// true while the fiber is running or waiting for a fiber it resumed.
+    resumed: bool,
 }
 
 impl Drop for FiberContext {
@@ -150,6 +152,7 @@ impl FiberContext {
             state: FiberState::Created,
             vm,
             kind,
+            resumed: false,
         }
     }
 
@@ -169,18 +172,25 @@ impl FiberContext {
     pub(crate) fn resume(&mut self, val: Value) -> VMResult {
         #[cfg(feature = "trace")]
         eprintln!("===> resume");
+        if self.resumed {
+            return Err(RubyError::fiber("Attempt to resume a resumed fiber."));
+        }
         let ptr = self as _;
         match self.state {
             FiberState::Dead => Err(RubyError::fiber("Dead fiber called.")),
             FiberState::Created => {
                 self.initialize();
                 self.vm.stack_push(val);
+                self.resumed = true;
                 asm::invoke_context(ptr);
+                self.resumed = false;
                 self.vm.globals.fiber_result.clone()
             }
             FiberState::Running => {
                 self.vm.stack_push(val);
+                self.resumed = true;
                 asm::switch_context(ptr);
+                self.resumed = false;
                 self.vm.globals.fiber_result.clone()
             }
         }
-- 
2.43.0


From 99fe14cc8be7f7cb468b91d4737f9ad27ebdc0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 36/87] fix: default values of block parameters swallowed the
 closing bar, an assignment in an argument list swallowed the following
 arguments

---
 ruruby-parse/src/parser.rs            | 19 ++++++++++++---
 ruruby-parse/src/parser/expression.rs | 33 +++++++++++++++++++++++----
 ruruby-parse/src/parser/literals.rs   |  1 +
 3 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index 4413d50..56626f6 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -31,6 +31,8 @@ pub struct Parser<'a, OuterContext: LocalsContext> {
     suppress_mul_assign: bool,
     /// this flag suppress parse do-end style block.
     suppress_do_block: bool,
+    /// this flag suppress `|` operator. (in default values of block parameters)
+    suppress_bitor: bool,
 }
 
 impl<'a, A: LocalsContext> Parser<'a, A> {
@@ -74,6 +76,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             suppress_acc_assign: false,
             suppress_mul_assign: false,
             suppress_do_block: false,
+            suppress_bitor: false,
         };
         let node = parser.parse_comp_stmt()?;
         let lvar = parser.context_stack.pop().unwrap().lvar;
@@ -467,6 +470,16 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         Ok(())
     }
 
+    /// Parse a default value of a formal parameter.
+    fn parse_default_value(&mut self, terminator: Option<Punct>) -> Result<Node, ParseErr> {
+        let old = (self.suppress_mul_assign, self.suppress_bitor);
+        self.suppress_mul_assign = true;
+        self.suppress_bitor = terminator == Some(Punct::BitOr);
+        let res = self.parse_arg();
+        (self.suppress_mul_assign, self.suppress_bitor) = old;
+        res
+    }
+
     /// Parse formal parameters.
     /// required, optional = defaule, *rest, post_required, kw: default, **rest_kw, &block
     fn parse_formal_params(
@@ -548,7 +561,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 let id = self.expect_ident()?;
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
-                    let default = self.parse_arg()?;
+                    let default = self.parse_default_value(terminator)?;
                     loc = loc.merge(self.prev_loc());
                     match state {
                         Kind::Required => state = Kind::Optional,
@@ -572,10 +585,10 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                             if next == TokenKind::Punct(term) {
                                 None
                             } else {
-                                Some(self.parse_arg()?)
+                                Some(self.parse_default_value(terminator)?)
                             }
                         } else {
-                            Some(self.parse_arg()?)
+                            Some(self.parse_default_value(terminator)?)
                         };
                     loc = loc.merge(self.prev_loc());
                     if state == Kind::KWRest {
diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 133086e..e294a2f 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -9,15 +9,18 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             self.suppress_acc_assign,
             self.suppress_mul_assign,
             self.suppress_do_block,
+            self.suppress_bitor,
         );
         self.suppress_acc_assign = false;
         self.suppress_mul_assign = false;
         self.suppress_do_block = false;
+        self.suppress_bitor = false;
         let res = self.parse_stmts();
         (
             self.suppress_acc_assign,
             self.suppress_mul_assign,
             self.suppress_do_block,
+            self.suppress_bitor,
         ) = old;
         res
     }
@@ -178,15 +181,18 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         term: impl Into<Option<Punct>>,
     ) -> Result<Vec<Node>, ParseErr> {
         let term = term.into();
-        let old = self.suppress_mul_assign;
+        let old = (self.suppress_mul_assign, self.suppress_bitor);
         // multiple assignment must be suppressed in parsing arg list.
         self.suppress_mul_assign = true;
+        if term.is_some() {
+            self.suppress_bitor = false;
+        }
 
         let mut args = vec![];
         loop {
             if let Some(term) = term {
                 if self.consume_punct(term)? {
-                    self.suppress_mul_assign = old;
+                    (self.suppress_mul_assign, self.suppress_bitor) = old;
                     return Ok(args);
                 }
             };
@@ -203,7 +209,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 break;
             }
         }
-        self.suppress_mul_assign = old;
+        (self.suppress_mul_assign, self.suppress_bitor) = old;
         if let Some(term) = term {
             self.expect_punct(term)?;
         };
@@ -350,7 +356,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     fn parse_arg_bitor(&mut self) -> Result<Node, ParseErr> {
         let mut lhs = self.parse_arg_bitand()?;
         loop {
-            if self.consume_punct_no_term(Punct::BitOr)? {
+            if !self.suppress_bitor && self.consume_punct_no_term(Punct::BitOr)? {
                 lhs = Node::new_binop(BinOp::BitOr, lhs, self.parse_arg_bitand()?);
             } else if self.consume_punct_no_term(Punct::BitXor)? {
                 lhs = Node::new_binop(BinOp::BitXor, lhs, self.parse_arg_bitand()?);
@@ -789,7 +795,12 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 Reserved::Begin => self.parse_begin(),
                 Reserved::Defined => {
                     if self.consume_punct_no_term(Punct::LParen)? {
-                        let node = self.parse_expr()?;
+                        let old = (self.suppress_mul_assign, self.suppress_bitor);
+                        self.suppress_mul_assign = false;
+                        self.suppress_bitor = false;
+                        let res = self.parse_expr();
+                        (self.suppress_mul_assign, self.suppress_bitor) = old;
+                        let node = res?;
                         self.expect_punct(Punct::RParen)?;
                         Ok(Node::new_defined(node))
                     } else {
@@ -841,6 +852,18 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     /// punct: punctuator for terminating arg list. Set None for unparenthesized argument list.
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, ParseErr> {
         let punct = punct.into();
+        let old = (self.suppress_mul_assign, self.suppress_bitor);
+        if punct.is_some() {
+            // rhs of an assignment in the list ends at a comma.
+            self.suppress_mul_assign = true;
+            self.suppress_bitor = false;
+        }
+        let res = self.parse_arglist_elems(punct);
+        (self.suppress_mul_assign, self.suppress_bitor) = old;
+        res
+    }
+
+    fn parse_arglist_elems(&mut self, punct: Option<Punct>) -> Result<ArgList, ParseErr> {
         let mut arglist = ArgList::default();
         loop {
             if let Some(punct) = punct {
diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 6ff5696..87bf91b 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -317,6 +317,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             suppress_acc_assign: false,
             suppress_mul_assign: false,
             suppress_do_block: false,
+            suppress_bitor: false,
         }
     }
 }
-- 
2.43.0


From 0d0b909eb85f974f3e77d578b7b5ebe8ac33e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:22 +0000
Subject: [PATCH 37/87] fix: parameters got wrong slots when a default value
 assigned a new variable, or keywords followed an anonymous rest parameter

---
 ruruby-common/src/lvar_collector.rs     | 21 +++++++++---
 ruruby-parse/src/parser.rs              | 44 +++++++++++++++++--------
 ruruby-parse/src/parser/flow_control.rs |  2 +-
 ruruby/src/codegen.rs                   |  7 +++-
 4 files changed, 55 insertions(+), 19 deletions(-)

diff --git a/ruruby-common/src/lvar_collector.rs b/ruruby-common/src/lvar_collector.rs
index 63d7b4f..9c6e9fb 100644
--- a/ruruby-common/src/lvar_collector.rs
+++ b/ruruby-common/src/lvar_collector.rs
@@ -89,6 +89,19 @@ impl LvarCollector {
         }
     }
 
+    /// Add a new parameter `val` at `pos` of the `LvarCollector`.
+    /// Parameters come first; variables in default values of parameters follow them.
+    /// Return None if `val` already exists.
+    pub fn insert_param(&mut self, val: IdentId, pos: usize) -> Option<LvarId> {
+        match self.table.get_lvarid(val) {
+            Some(_) => None,
+            None => {
+                self.table.0.insert(pos, val);
+                Some(LvarId::from(pos))
+            }
+        }
+    }
+
     /// Add a new variable `val` to the `LvarCollector`.
     /// Return None if `val` already exists.
     pub fn insert_new(&mut self, val: IdentId) -> Option<LvarId> {
@@ -103,16 +116,16 @@ impl LvarCollector {
 
     /// Add a new block parameter `val` to the `LvarCollector`.
     /// Return None if `val` already exists.
-    pub fn insert_block_param(&mut self, val: IdentId) -> Option<LvarId> {
-        let lvar = self.insert_new(val)?;
+    pub fn insert_block_param(&mut self, val: IdentId, pos: usize) -> Option<LvarId> {
+        let lvar = self.insert_param(val, pos)?;
         self.block = Some(lvar);
         Some(lvar)
     }
 
     /// Add a new keyword parameter `val` to the `LvarCollector`.
     /// Return None if `val` already exists.
-    pub fn insert_kwrest_param(&mut self, val: IdentId) -> Option<LvarId> {
-        let lvar = self.insert_new(val)?;
+    pub fn insert_kwrest_param(&mut self, val: IdentId, pos: usize) -> Option<LvarId> {
+        let lvar = self.insert_param(val, pos)?;
         self.kwrest = Some(lvar);
         Some(lvar)
     }
diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index 56626f6..327f392 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -133,8 +133,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
 
     /// Add the `id` as a new parameter in the current context.
     /// If a parameter with the same name already exists, return error.
-    fn new_param(&mut self, id: IdentId, loc: Loc) -> Result<LvarId, ParseErr> {
-        match self.context_mut().lvar.insert_new(id) {
+    fn new_param(&mut self, id: IdentId, pos: usize, loc: Loc) -> Result<LvarId, ParseErr> {
+        match self.context_mut().lvar.insert_param(id, pos) {
             Some(lvar) => Ok(lvar),
             None => Err(error_unexpected(loc, "Duplicated argument name.")),
         }
@@ -146,8 +146,13 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
 
     /// Add the `id` as a new parameter in the current context.
     /// If a parameter with the same name already exists, return error.
-    fn new_kwrest_param(&mut self, id: IdentId, loc: Loc) -> Result<(), ParseErr> {
-        if self.context_mut().lvar.insert_kwrest_param(id).is_none() {
+    fn new_kwrest_param(&mut self, id: IdentId, pos: usize, loc: Loc) -> Result<(), ParseErr> {
+        if self
+            .context_mut()
+            .lvar
+            .insert_kwrest_param(id, pos)
+            .is_none()
+        {
             return Err(error_unexpected(loc, "Duplicated argument name."));
         }
         Ok(())
@@ -155,8 +160,13 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
 
     /// Add the `id` as a new block parameter in the current context.
     /// If a parameter with the same name already exists, return error.
-    fn new_block_param(&mut self, id: IdentId, loc: Loc) -> Result<(), ParseErr> {
-        if self.context_mut().lvar.insert_block_param(id).is_none() {
+    fn new_block_param(&mut self, id: IdentId, pos: usize, loc: Loc) -> Result<(), ParseErr> {
+        if self
+            .context_mut()
+            .lvar
+            .insert_block_param(id, pos)
+            .is_none()
+        {
             return Err(error_unexpected(loc, "Duplicated argument name."));
         }
         Ok(())
@@ -499,6 +509,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         let terminator = terminator.into();
         let mut args = vec![];
         let mut state = Kind::Required;
+        // number of the parameters which have a local variable.
+        let mut pos = 0;
         if let Some(term) = terminator {
             if self.consume_punct(term)? {
                 return Ok(args);
@@ -522,7 +534,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 let id = self.expect_ident()?;
                 loc = loc.merge(self.prev_loc());
                 args.push(FormalParam::block(id, loc));
-                self.new_block_param(id, loc)?;
+                self.new_block_param(id, pos, loc)?;
                 break;
             } else if self.consume_punct(Punct::Mul)? {
                 // Splat(Rest) param
@@ -538,7 +550,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 match self.consume_ident()? {
                     Some(id) => {
                         args.push(FormalParam::rest(id, loc));
-                        self.new_param(id, self.prev_loc())?;
+                        self.new_param(id, pos, self.prev_loc())?;
+                        pos += 1;
                     }
                     None => args.push(FormalParam::rest_discard(loc)),
                 }
@@ -556,7 +569,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 }
 
                 args.push(FormalParam::kwrest(id, loc));
-                self.new_kwrest_param(id, self.prev_loc())?;
+                self.new_kwrest_param(id, pos, self.prev_loc())?;
+                pos += 1;
             } else {
                 let id = self.expect_ident()?;
                 if self.consume_punct(Punct::Assign)? {
@@ -574,7 +588,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                         }
                     };
                     args.push(FormalParam::optional(id, default, loc));
-                    self.new_param(id, loc)?;
+                    self.new_param(id, pos, loc)?;
+                    pos += 1;
                 } else if self.consume_punct_no_term(Punct::Colon)? {
                     // Keyword param
                     let next = self.peek_no_term()?.kind;
@@ -600,7 +615,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                         state = Kind::KeyWord;
                     };
                     args.push(FormalParam::keyword(id, default, loc));
-                    let lvar = self.new_param(id, loc)?;
+                    let lvar = self.new_param(id, pos, loc)?;
+                    pos += 1;
                     self.add_kw_param(lvar);
                 } else {
                     // Required param
@@ -608,11 +624,13 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                     match state {
                         Kind::Required => {
                             args.push(FormalParam::req_param(id, loc));
-                            self.new_param(id, loc)?;
+                            self.new_param(id, pos, loc)?;
+                            pos += 1;
                         }
                         Kind::PostReq | Kind::Optional | Kind::Rest => {
                             args.push(FormalParam::post(id, loc));
-                            self.new_param(id, loc)?;
+                            self.new_param(id, pos, loc)?;
+                            pos += 1;
                             state = Kind::PostReq;
                         }
                         _ => {
diff --git a/ruruby-parse/src/parser/flow_control.rs b/ruruby-parse/src/parser/flow_control.rs
index 78a2d92..deabab7 100644
--- a/ruruby-parse/src/parser/flow_control.rs
+++ b/ruruby-parse/src/parser/flow_control.rs
@@ -91,7 +91,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         let mut formal_params = vec![];
         for (i, _var) in vars.iter().enumerate() {
             let dummy_var = IdentId::get_id_from_string(format!("_{}", i));
-            self.new_param(dummy_var, loc)?;
+            self.new_param(dummy_var, i, loc)?;
             formal_params.push(FormalParam::req_param(dummy_var, loc));
         }
         let lvar = self.context_stack.pop().unwrap().lvar;
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 40a2da1..953ab11 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -218,7 +218,9 @@ impl Codegen {
 
         self.context_stack
             .push(Context::from(lvar_collector.table.clone(), kind));
-        for (lvar_id, param) in param_list.into_iter().enumerate() {
+        let mut lvar_id = 0usize;
+        for param in param_list.into_iter() {
+            let has_lvar = !matches!(param.kind, ParamKind::RestDiscard);
             match param.kind {
                 ParamKind::Param(id) => {
                     params.param_ident.push(id);
@@ -260,6 +262,9 @@ impl Codegen {
                     break;
                 }
             }
+            if has_lvar {
+                lvar_id += 1;
+            }
         }
 
         forvars.iter().enumerate().for_each(|(i, id)| {
-- 
2.43.0


From a765908c51bac8ef3d6d9ed2f566dc29717d7055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:55 +0000
Subject: [PATCH 38/87] fix: a missing required keyword argument was silently
 nil

---
 ruruby/src/codegen.rs                       | 7 +++++--
 ruruby/src/globals/method.rs                | 3 +++
 ruruby/src/vm/executor/frame/arg_handler.rs | 9 +++++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 953ab11..912ccb6 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -245,8 +245,11 @@ impl Codegen {
                 ParamKind::Keyword(id, default) => {
                     params.param_ident.push(id);
                     params.keyword.insert(id, lvar_id.into());
-                    if let Some(default) = default {
-                        self.gen_default_expr(globals, &mut iseq, id, *default)?
+                    match default {
+                        Some(default) => {
+                            self.gen_default_expr(globals, &mut iseq, id, *default)?
+                        }
+                        None => params.required_keyword.push((id, lvar_id.into())),
                     }
                 }
                 ParamKind::KWRest(id) => {
diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index f496504..11b970c 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -371,6 +371,8 @@ pub struct ISeqParams {
     pub post: usize,
     pub block: bool,
     pub keyword: FxHashMap<IdentId, LvarId>,
+    /// keyword parameters without a default value.
+    pub required_keyword: Vec<(IdentId, LvarId)>,
     pub kwrest: bool,
     /// A flag for argument delegation. e.g. f(...)
     pub delegate: Option<LvarId>,
@@ -532,6 +534,7 @@ impl ISeqInfo {
                 post: 0,
                 block: false,
                 keyword: FxHashMap::default(),
+                required_keyword: vec![],
                 kwrest: false,
                 delegate: None,
             },
diff --git a/ruruby/src/vm/executor/frame/arg_handler.rs b/ruruby/src/vm/executor/frame/arg_handler.rs
index e5c8532..c3e2782 100644
--- a/ruruby/src/vm/executor/frame/arg_handler.rs
+++ b/ruruby/src/vm/executor/frame/arg_handler.rs
@@ -36,7 +36,7 @@ impl VM {
         self.prepare_block_args(base, iseq);
         self.fill_positional_arguments(base, iseq);
         // Handling keyword arguments and a keyword rest paramter.
-        if params.kwrest || ordinary_kwarg {
+        if params.kwrest || !params.keyword.is_empty() {
             self.fill_keyword_arguments(base, iseq, args.kw_arg, ordinary_kwarg)?;
         };
         let local_len = (self.sp() - base) as usize;
@@ -88,7 +88,7 @@ impl VM {
         params.check_arity(positional_kwarg, args)?;
         self.fill_positional_arguments(base_ptr, iseq);
         // Handling keyword arguments and a keyword rest paramter.
-        if params.kwrest || ordinary_kwarg {
+        if params.kwrest || !params.keyword.is_empty() {
             self.fill_keyword_arguments(base_ptr, iseq, args.kw_arg, ordinary_kwarg)?;
         };
         let local_len = (self.sp() - base_ptr) as usize;
@@ -238,6 +238,11 @@ impl VM {
                 };
             }
         };
+        for (id, lvar) in &iseq.params.required_keyword {
+            if base[lvar.as_usize() as isize].is_uninitialized() {
+                return Err(RubyError::argument(format!("Missing keyword: {:?}.", id)));
+            }
+        }
         if let Some(id) = iseq.lvar.kwrest_param() {
             base[id.as_usize() as isize] = Value::hash_from_map(kwrest);
         }
-- 
2.43.0


From de363b805fb85bd72a39b82bbaaae621addf95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:39 +0000
Subject: [PATCH 39/87] fix: lambdas did not check the number of arguments and
 expanded arrays, blocks with optional/rest/post parameters misplaced missing,
 extra or array arguments

---
 ruruby/src/globals/method.rs                | 11 +++++++-
 ruruby/src/vm/executor/frame/arg_handler.rs | 31 +++++++++++++++++----
 ruruby/src/vm/executor/method.rs            |  8 +++---
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index 11b970c..1584f04 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -389,6 +389,15 @@ impl ISeqParams {
             && self.delegate.is_none()
     }
 
+    /// Whether a sole Array argument for the block is to be expanded.
+    fn expands_array(&self) -> bool {
+        let min = self.req + self.post;
+        if min == 1 && self.req == 1 && self.opt == 0 && self.rest.is_none() {
+            return false;
+        }
+        min > 0 || self.opt > 1
+    }
+
     pub(crate) fn check_arity(&self, additional_kw: bool, args: &Args2) -> Result<(), RubyError> {
         let min = self.req + self.post;
         let kw = if additional_kw { 1 } else { 0 };
@@ -498,7 +507,7 @@ impl ISeqInfo {
     ) -> Self {
         let lvars = lvar.len();
         let opt_flag = params.is_opt();
-        let mularg_flag = 1 < params.req + params.post;
+        let mularg_flag = params.expands_array();
         ISeqInfo {
             method,
             params,
diff --git a/ruruby/src/vm/executor/frame/arg_handler.rs b/ruruby/src/vm/executor/frame/arg_handler.rs
index c3e2782..296674c 100644
--- a/ruruby/src/vm/executor/frame/arg_handler.rs
+++ b/ruruby/src/vm/executor/frame/arg_handler.rs
@@ -13,7 +13,7 @@ impl VM {
         let base = self.sp() - args.len();
         let params = &iseq.params;
         let kw_flag = !args.kw_arg.is_nil();
-        let (_positional_kwarg, ordinary_kwarg) = if params.keyword.is_empty() && !params.kwrest {
+        let (positional_kwarg, ordinary_kwarg) = if params.keyword.is_empty() && !params.kwrest {
             // Note that Ruby 3.0 doesn’t behave differently when calling a method which doesn’t accept keyword
             // arguments with keyword arguments.
             // For instance, the following case is not going to be deprecated and will keep working in Ruby 3.0.
@@ -33,7 +33,20 @@ impl VM {
             (false, kw_flag)
         };
 
-        self.prepare_block_args(base, iseq);
+        if iseq.is_method() {
+            // lambda
+            params.check_arity(positional_kwarg, args)?;
+        } else {
+            self.prepare_block_args(base, iseq);
+            // Complement the missing arguments, and discard the extra ones.
+            let args_len = (self.sp() - base) as usize;
+            let min_len = params.req + params.post;
+            if args_len < min_len {
+                self.stack.resize_to(base + min_len);
+            } else if params.rest.is_none() && args_len > min_len + params.opt {
+                self.stack.sp = base + min_len + params.opt;
+            }
+        }
         self.fill_positional_arguments(base, iseq);
         // Handling keyword arguments and a keyword rest paramter.
         if params.kwrest || !params.keyword.is_empty() {
@@ -107,14 +120,21 @@ impl VM {
         args: &Args2,
         outer: EnvFrame,
         use_value: bool,
-    ) {
+    ) -> Result<(), RubyError> {
         // This is necessary to follow moving outer frame to heap during iteration.
         let outer = outer.ep();
         let base = self.sp() - args.len();
         let lvars = iseq.lvars;
-        self.prepare_block_args(base, iseq);
-        let args_len = (self.sp() - base) as usize;
         let req_len = iseq.params.req;
+        if iseq.is_method() {
+            // lambda
+            if args.len() != req_len {
+                return Err(RubyError::argument_wrong(args.len(), req_len));
+            }
+        } else {
+            self.prepare_block_args(base, iseq);
+        }
+        let args_len = (self.sp() - base) as usize;
         if req_len < args_len {
             self.stack.sp = base + req_len;
         }
@@ -131,6 +151,7 @@ impl VM {
             local_len,
             base.as_lfp(),
         );
+        Ok(())
     }
 
     pub(crate) fn push_method_frame_fast(
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index df73f4f..451102c 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -119,7 +119,7 @@ impl VM {
                     for v in iter {
                         self.stack_push(self_value);
                         self.stack_push(v);
-                        self.push_block_frame_fast(iseq, &args, outer, false);
+                        self.push_block_frame_fast(iseq, &args, outer, false)?;
                         self.run_loop()?;
                     }
                 } else {
@@ -174,7 +174,7 @@ impl VM {
                     for v in iter {
                         self.stack_push(self_value);
                         self.stack_push(v);
-                        self.push_block_frame_fast(iseq, &args, outer, false);
+                        self.push_block_frame_fast(iseq, &args, outer, false)?;
                         let res = self.run_loop()?;
                         self.temp_push(res);
                     }
@@ -233,7 +233,7 @@ impl VM {
                     Box::new(move |vm: &mut VM, v: Value| -> VMResult {
                         vm.stack_push(self_value);
                         vm.stack_push(v);
-                        vm.push_block_frame_fast(iseq, &args, outer, false);
+                        vm.push_block_frame_fast(iseq, &args, outer, false)?;
                         vm.run_loop()
                     })
                 } else {
@@ -475,7 +475,7 @@ impl VM {
             RubyFunc { iseq } => {
                 let iseq = iseq.clone();
                 if iseq.opt_flag {
-                    self.push_block_frame_fast(iseq, args, outer, true);
+                    self.push_block_frame_fast(iseq, args, outer, true)?;
                 } else {
                     self.push_block_frame_slow(iseq, args, outer, true)?;
                 }
-- 
2.43.0


From 57480b96ef7ce5fc1fa27a7c8f78887c0c7952a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:43 +0000
Subject: [PATCH 40/87] fix: splats of nil, hashes, empty or non-integer ranges
 were not expanded, keyword arguments of simple methods and blocks were
 dropped

---
 ruruby/src/builtin/range.rs        |  4 +--
 ruruby/src/vm/executor.rs          |  2 +-
 ruruby/src/vm/executor/method.rs   | 10 +++----
 ruruby/src/vm/executor/opt_core.rs | 47 ++++++++++++++++++++++++++++--
 4 files changed, 52 insertions(+), 11 deletions(-)

diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index 911d96a..8eb35e9 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -228,10 +228,10 @@ fn to_a(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                 .collect();
             Ok(Value::array_from(v))
         } else {
-            unimplemented!()
+            Err(RubyError::typeerr("Can not iterate the range."))
         }
     } else {
-        unimplemented!()
+        Err(RubyError::typeerr("Can not iterate the range."))
     }
 }
 
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 24f8a56..bd647d8 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -940,7 +940,7 @@ impl VM {
                             let start = r.start.coerce_to_fixnum("Expect Integer.").unwrap();
                             let end = r.end.coerce_to_fixnum("Expect Integer.").unwrap()
                                 + if r.exclude { 0 } else { 1 };
-                            if end >= start {
+                            if end > start {
                                 let ary_len = (end - start) as usize;
                                 self.stack.grow(ary_len - 1);
                                 RubyStack::stack_copy_within(p, 1..(prev_sp - p) as usize, ary_len);
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index 451102c..748d374 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -115,7 +115,7 @@ impl VM {
             }
             RubyFunc { iseq } => {
                 let iseq = *iseq;
-                if iseq.opt_flag {
+                if iseq.opt_flag && args.kw_arg.is_nil() {
                     for v in iter {
                         self.stack_push(self_value);
                         self.stack_push(v);
@@ -170,7 +170,7 @@ impl VM {
             }
             RubyFunc { iseq } => {
                 let iseq = *iseq;
-                if iseq.opt_flag {
+                if iseq.opt_flag && args.kw_arg.is_nil() {
                     for v in iter {
                         self.stack_push(self_value);
                         self.stack_push(v);
@@ -229,7 +229,7 @@ impl VM {
             }
             RubyFunc { iseq } => {
                 let iseq = *iseq;
-                if iseq.opt_flag {
+                if iseq.opt_flag && args.kw_arg.is_nil() {
                     Box::new(move |vm: &mut VM, v: Value| -> VMResult {
                         vm.stack_push(self_value);
                         vm.stack_push(v);
@@ -474,7 +474,7 @@ impl VM {
             }
             RubyFunc { iseq } => {
                 let iseq = iseq.clone();
-                if iseq.opt_flag {
+                if iseq.opt_flag && args.kw_arg.is_nil() {
                     self.push_block_frame_fast(iseq, args, outer, true)?;
                 } else {
                     self.push_block_frame_slow(iseq, args, outer, true)?;
@@ -509,7 +509,7 @@ impl VM {
             }
             RubyFunc { iseq } => {
                 let iseq = iseq.clone();
-                if iseq.opt_flag {
+                if iseq.opt_flag && args.kw_arg.is_nil() {
                     return self.push_method_frame_fast(iseq, args, use_value);
                 } else {
                     return self.push_method_frame_slow(iseq, args, use_value);
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index cdbc418..bb69396 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -373,9 +373,11 @@ impl VM {
                         dispatch!(self.invoke_get_index_imm(receiver, idx), true);
                     }
                     Inst::SPLAT => {
-                        let val = self.stack_pop();
-                        let res = Value::splat(val);
-                        self.stack_push(res);
+                        // keep the operand on the stack while it is converted.
+                        let val = (self.sp() - 1)[0];
+                        let ary = self.splat_to_array(val)?;
+                        self.stack_pop();
+                        self.stack_push(Value::splat(ary));
                     }
                     Inst::CONST_VAL => {
                         let id = self.pc.read_usize();
@@ -595,6 +597,41 @@ impl VM {
 
 // helper functions for run_context_main.
 impl VM {
+    /// Convert the operand of `*` to an Array. (a Range of Integers is expanded later.)
+    fn splat_to_array(&mut self, val: Value) -> VMResult {
+        if val.is_nil() {
+            return Ok(Value::array_empty());
+        }
+        if let Some(rvalue) = val.as_rvalue() {
+            match rvalue.kind() {
+                ObjKind::ARRAY => return Ok(val),
+                ObjKind::RANGE => {
+                    let range = rvalue.range();
+                    if range.start.as_fixnum().is_some() && range.end.as_fixnum().is_some() {
+                        return Ok(val);
+                    }
+                }
+                ObjKind::HASH => {
+                    let pairs = rvalue
+                        .rhash()
+                        .iter()
+                        .map(|(k, v)| Value::array_from(vec![k, v]))
+                        .collect();
+                    return Ok(Value::array_from(pairs));
+                }
+                _ => {}
+            }
+            let to_a = IdentId::get_id("to_a");
+            if self.globals.find_method_from_receiver(val, to_a).is_some() {
+                let ary = self.eval_send0(to_a, val)?;
+                if ary.as_array().is_some() {
+                    return Ok(ary);
+                }
+            }
+        }
+        Ok(val)
+    }
+
     /// Merge keyword args and hash splat args.
     fn handle_hash_args(&mut self, flag: ArgFlag) -> VMResult {
         if !flag.has_hash_arg() && !flag.has_hash_splat() {
@@ -618,6 +655,10 @@ impl VM {
                     }
                 }
             }
+            if hash.len() == 0 {
+                // `**{}` passes nothing.
+                return Ok(Value::nil());
+            }
             Ok(kw)
         }
     }
-- 
2.43.0


From 375df9d34eb0ff18099be847c35543188232ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:54 +0000
Subject: [PATCH 41/87] fix: super dropped keyword arguments and crashed on a
 block argument, argument delegation dropped keywords and block, arguments of
 a safe navigation call were evaluated and compared with nil

---
 ruruby-common/src/vm_inst.rs                |  4 +-
 ruruby/src/codegen.rs                       | 25 +++---
 ruruby/src/codegen/send.rs                  | 63 +++++++++-----
 ruruby/src/globals.rs                       |  3 +-
 ruruby/src/globals/method.rs                | 14 +++
 ruruby/src/vm/executor/frame.rs             | 30 +++++--
 ruruby/src/vm/executor/frame/arg_handler.rs | 16 +++-
 ruruby/src/vm/executor/opt_core.rs          | 94 ++++++++++++++++-----
 8 files changed, 179 insertions(+), 70 deletions(-)

diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index 926d25c..49c6aec 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -347,8 +347,8 @@ impl Inst {
             | Inst::UNWIND              // depth of begin-end: u32
             => 5,
 
-            Inst::SUPER  => 8,
-            // number of args: u16 / block: u32 / flag: u8
+            Inst::SUPER  => 9,
+            // number of args: u16 / block: u32 / no_args: u8 / flag: u8
 
             Inst::PUSH_VAL              // value: Value
             | Inst::SET_DYNLOCAL
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 912ccb6..98025c1 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -261,7 +261,7 @@ impl Codegen {
                     params.block = true;
                 }
                 ParamKind::Delegate => {
-                    params.delegate = Some(LvarId::from(params.req));
+                    params.delegate = Some(LvarId::from(lvar_id));
                     break;
                 }
             }
@@ -1445,18 +1445,11 @@ impl Codegen {
                 iseq.gen_push_self();
                 match arglist {
                     None => {
-                        self.emit_super(iseq, 0, None, true);
+                        self.emit_super(iseq, 0, ArgFlag::default(), None, true);
                     }
                     Some(arglist) => {
-                        let len = arglist.args.len();
-                        for arg in arglist.args {
-                            self.gen(globals, iseq, arg, true)?;
-                        }
-                        let (block, flag) = self.get_block(globals, iseq, arglist.block)?;
-                        if flag {
-                            unreachable!("Block param is not supported for super.")
-                        }
-                        self.emit_super(iseq, len, block, false);
+                        let (len, flag, block) = self.gen_arglist(globals, iseq, arglist)?;
+                        self.emit_super(iseq, len, flag, block, false);
                     }
                 }
 
@@ -1694,11 +1687,19 @@ impl Codegen {
         self.save_cur_loc(iseq);
     }
 
-    fn emit_super(&mut self, iseq: &mut ISeq, arg_num: usize, block: Option<FnId>, no_arg: bool) {
+    fn emit_super(
+        &mut self,
+        iseq: &mut ISeq,
+        arg_num: usize,
+        flag: ArgFlag,
+        block: Option<FnId>,
+        no_arg: bool,
+    ) {
         iseq.push(Inst::SUPER);
         iseq.push16(arg_num as u32 as u16);
         iseq.push_method(block);
         iseq.push8(if no_arg { 1 } else { 0 });
+        iseq.push_argflag(flag);
         self.save_cur_loc(iseq);
     }
 
diff --git a/ruruby/src/codegen/send.rs b/ruruby/src/codegen/send.rs
index 34bf5eb..42daea0 100644
--- a/ruruby/src/codegen/send.rs
+++ b/ruruby/src/codegen/send.rs
@@ -30,7 +30,44 @@ impl Codegen {
         } else {
             self.gen(globals, iseq, receiver.clone(), true)?;
         }
-        //let loc = self.loc;
+        // With `&.`, neither evaluate arguments nor call the method if the receiver is nil.
+        let nil_case = if safe_nav {
+            iseq.gen_dup(1);
+            iseq.gen_push_nil();
+            iseq.gen_sinkn(1);
+            iseq.push(Inst::NE);
+            Some(iseq.gen_jmp_if_f())
+        } else {
+            None
+        };
+        let (args_num, flag, block_ref) = self.gen_arglist(globals, iseq, arglist)?;
+        // If the method call without block nor keyword/block/splat/double splat arguments, gen OPT_SEND.
+        if flag == ArgFlag::default() {
+            let use_value = use_value || safe_nav;
+            self.emit_opt_send(globals, iseq, method, args_num, block_ref, use_value, loc);
+            if !safe_nav {
+                return Ok(());
+            }
+        } else {
+            self.emit_send(globals, iseq, method, args_num, flag, block_ref, loc);
+        }
+        if let Some(src) = nil_case {
+            iseq.write_disp_from_cur(src);
+        }
+        if !use_value {
+            iseq.gen_pop()
+        };
+        Ok(())
+    }
+
+    /// Push arguments on the stack.
+    /// Return the number of positional arguments, flags, and a block literal.
+    pub(crate) fn gen_arglist(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        arglist: ArgList,
+    ) -> Result<(usize, ArgFlag, Option<FnId>), RubyError> {
         let delegate_flag = arglist.delegate;
         let hash_len = arglist.hash_splat.len();
         // push positional args.
@@ -54,28 +91,8 @@ impl Codegen {
             iseq.gen_create_array(hash_len);
         }
         let (block_ref, block_flag) = self.get_block(globals, iseq, arglist.block)?;
-        // If the method call without block nor keyword/block/splat/double splat arguments, gen OPT_SEND.
-        if !block_flag && !kw_flag && !splat_flag && hash_len == 0 && !delegate_flag {
-            if safe_nav {
-                iseq.gen_dup(1);
-                iseq.gen_push_nil();
-                iseq.push(Inst::NE);
-                let src = iseq.gen_jmp_if_f();
-                self.emit_opt_send(globals, iseq, method, args_num, block_ref, use_value, loc);
-                iseq.write_disp_from_cur(src);
-            } else {
-                self.emit_opt_send(globals, iseq, method, args_num, block_ref, use_value, loc);
-            }
-        } else {
-            let flag = ArgFlag::new(kw_flag, block_flag, delegate_flag, hash_len > 0, splat_flag);
-            self.emit_send(globals, iseq, method, args_num, flag, block_ref, loc);
-
-            if !use_value {
-                iseq.gen_pop()
-            };
-        }
-
-        Ok(())
+        let flag = ArgFlag::new(kw_flag, block_flag, delegate_flag, hash_len > 0, splat_flag);
+        Ok((args_num, flag, block_ref))
     }
 
     pub(crate) fn gen_send_with_splat(
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 48a0762..f88c6ea 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -431,7 +431,7 @@ impl Globals {
                 )
             }
             Inst::SUPER => format!(
-                "{} args:{} block:{} {}",
+                "{} args:{} block:{} {} {:?}",
                 Inst::inst_name(iseq[pc]),
                 iseq.read16(pc + 1),
                 iseq.read_block(pc + 3),
@@ -440,6 +440,7 @@ impl Globals {
                 } else {
                     ""
                 },
+                iseq.read_argflag(pc + 8),
             ),
 
             Inst::CREATE_ARRAY
diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index 1584f04..cdcdeb2 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -248,6 +248,20 @@ impl MethodInfo {
             unimplemented!("Methodref is illegal.")
         }
     }
+
+    /// Whether keyword arguments can be passed to the method.
+    pub(crate) fn accepts_keyword(&self) -> bool {
+        match self {
+            MethodInfo::RubyFunc { iseq } => {
+                let params = &iseq.params;
+                !params.keyword.is_empty()
+                    || params.kwrest
+                    || params.rest.is_some()
+                    || params.delegate.is_some()
+            }
+            _ => false,
+        }
+    }
 }
 
 ///---------------------------------------------------------------------------------------------------
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index 86c6fe6..6164c96 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -453,13 +453,29 @@ impl VM {
         self.cfp.ep().mfp()
     }
 
-    pub(super) fn cur_delegate(&self) -> Option<Value> {
-        let lvar_id = self.cur_mfp().iseq().params.delegate?;
-        let delegate = self.lfp[lvar_id];
-        if delegate.is_nil() {
-            None
-        } else {
-            Some(delegate)
+    /// Push the positional arguments to be delegated by `...` on the stack.
+    /// Return the number of them and the keyword arguments (Hash or nil).
+    pub(super) fn push_delegate(&mut self) -> (usize, Value) {
+        let ary = match self.cur_mfp().iseq().params.delegate {
+            Some(id) => self.method_lfp()[id].as_array(),
+            None => None,
+        };
+        match ary {
+            Some(ary) => {
+                self.stack.extend_from_slice(&ary[1..]);
+                let kw = match ary[0].as_hash() {
+                    Some(hash) => {
+                        let mut map = FxIndexMap::default();
+                        hash.iter().for_each(|(k, v)| {
+                            map.insert(HashKey(k), v);
+                        });
+                        Value::hash_from_map(map)
+                    }
+                    None => Value::nil(),
+                };
+                (ary.len() - 1, kw)
+            }
+            None => (0, Value::nil()),
         }
     }
 
diff --git a/ruruby/src/vm/executor/frame/arg_handler.rs b/ruruby/src/vm/executor/frame/arg_handler.rs
index 296674c..9b12b67 100644
--- a/ruruby/src/vm/executor/frame/arg_handler.rs
+++ b/ruruby/src/vm/executor/frame/arg_handler.rs
@@ -79,7 +79,10 @@ impl VM {
         let base_ptr = self.sp() - args.len();
         let params = &iseq.params;
         let kw_flag = !args.kw_arg.is_nil();
-        let (positional_kwarg, ordinary_kwarg) = if params.keyword.is_empty() && !params.kwrest {
+        let (positional_kwarg, ordinary_kwarg) = if params.keyword.is_empty()
+            && !params.kwrest
+            && params.delegate.is_none()
+        {
             // Note that Ruby 3.0 doesn’t behave differently when calling a method which doesn’t accept keyword
             // arguments with keyword arguments.
             // For instance, the following case is not going to be deprecated and will keep working in Ruby 3.0.
@@ -100,6 +103,13 @@ impl VM {
         };
         params.check_arity(positional_kwarg, args)?;
         self.fill_positional_arguments(base_ptr, iseq);
+        if let (Some(delegate), true) = (params.delegate, kw_flag) {
+            let slot = &mut (base_ptr + delegate.as_usize())[0];
+            match slot.as_array() {
+                Some(mut ary) => ary[0] = args.kw_arg,
+                None => *slot = Value::array_from(vec![args.kw_arg]),
+            }
+        }
         // Handling keyword arguments and a keyword rest paramter.
         if params.kwrest || !params.keyword.is_empty() {
             self.fill_keyword_arguments(base_ptr, iseq, args.kw_arg, ordinary_kwarg)?;
@@ -196,7 +206,9 @@ impl VM {
 
         if optreq_len < no_post_len {
             if let Some(delegate) = params.delegate {
-                let v = base[optreq_len..no_post_len].to_vec();
+                // the first element is for keyword arguments.
+                let mut v = vec![Value::nil()];
+                v.extend_from_slice(&base[optreq_len..no_post_len]);
                 base[delegate.as_usize() as isize] = Value::array_from(v);
             }
             if rest_len == 1 {
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index bb69396..3374ff7 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -491,9 +491,13 @@ impl VM {
                     Inst::SUPER => {
                         let args_num = self.pc.read16() as usize;
                         let block = self.pc.read_method();
-                        let flag = self.pc.read8() == 1;
+                        let no_args = self.pc.read8() == 1;
+                        let flag = self.pc.read_argflag();
                         //let self_value = self.self_value();
-                        dispatch!(self.vm_super(self_val, args_num, block, flag), true);
+                        dispatch!(
+                            self.vm_super(self_val, args_num, block, no_args, flag),
+                            true
+                        );
                     }
                     Inst::DEF_CLASS => {
                         let is_module = self.pc.read8() == 1;
@@ -741,21 +745,36 @@ impl VM {
         let block = self.handle_block_arg(block, flag)?;
         let keyword = self.handle_hash_args(flag)?;
         let receiver = (self.sp() - args_num - 1)[0];
+        let args = self.prepare_args(args_num, flag, keyword, block);
+        self.send(method_name, receiver, &args, use_value, cache_id)
+    }
+
+    /// Expand splat arguments and arguments to be delegated on the stack.
+    fn prepare_args(
+        &mut self,
+        args_num: usize,
+        flag: ArgFlag,
+        keyword: Value,
+        block: Option<Block>,
+    ) -> Args2 {
         let mut args = if flag.has_splat() {
             self.pop_args_to_args(args_num)
         } else {
             Args2::new(args_num)
         };
+        args.block = block;
+        args.kw_arg = keyword;
         if flag.has_delegate() {
-            if let Some(v) = self.cur_delegate() {
-                let ary = &**v.as_array().expect("Delegate arg must be Array or nil.");
-                args.append(ary);
-                self.stack.extend_from_slice(ary);
+            let (len, kw) = self.push_delegate();
+            args.set_len(args.len() + len);
+            if keyword.is_nil() {
+                args.kw_arg = kw;
+            }
+            if args.block.is_none() {
+                args.block = self.get_method_block();
             }
         }
-        args.block = block;
-        args.kw_arg = keyword;
-        self.send(method_name, receiver, &args, use_value, cache_id)
+        args
     }
 
     fn send(
@@ -782,23 +801,33 @@ impl VM {
         self_value: Value,
         args_num: usize,
         block: Option<FnId>,
-        delegate_flag: bool,
+        no_args: bool,
+        flag: ArgFlag,
     ) -> InvokeResult {
-        // TODO: support keyword parameter, etc..
         let iseq = self.get_method_iseq();
         if let ISeqKind::Method(Some(m_id)) = iseq.kind {
             let class = self.globals.get_class_for_method(self_value);
             let method = class.search_super_method(m_id, iseq.method);
-            let mut args = if delegate_flag {
-                // When `super` has no arguments, use arguments which were passed to the current method.
-                self.push_method_args(iseq)
-            } else {
-                self.pop_args_to_args(args_num)
-            };
-            args.block = match block {
+            let block = match block {
                 Some(block) => Some(Block::Block(block, self.cur_frame())),
+                None if flag.has_block_arg() => self.handle_block_arg(0, flag)?,
                 None => self.get_method_block(),
             };
+            let mut args = if no_args {
+                // When `super` has no arguments, use arguments which were passed to the current method.
+                let mut args = self.push_method_args(iseq);
+                args.block = block;
+                args
+            } else {
+                let keyword = self.handle_hash_args(flag)?;
+                self.prepare_args(args_num, flag, keyword, block)
+            };
+            if let Some(method) = method {
+                // keyword arguments are ignored if the super method does not accept them.
+                if !self.globals.methods[method].accepts_keyword() {
+                    args.kw_arg = Value::nil();
+                }
+            }
             match method {
                 Some(method) => self.invoke_method(method, &args, true),
                 None if self
@@ -828,10 +857,9 @@ impl VM {
             self.stack_push(lfp[i]);
             i += 1;
         }
-        if let Some(delegate) = params.delegate {
-            if let Some(ary) = lfp[delegate].as_array() {
-                self.stack.extend_from_slice(&**ary);
-            }
+        let mut keyword = Value::nil();
+        if params.delegate.is_some() {
+            keyword = self.push_delegate().1;
         }
         if params.rest == Some(true) {
             if let Some(ary) = lfp[i].as_array() {
@@ -843,7 +871,27 @@ impl VM {
             self.stack_push(lfp[i]);
             i += 1;
         }
-        Args2::new((self.sp() - prev_sp) as usize)
+        if !params.keyword.is_empty() || params.kwrest {
+            let mut map = FxIndexMap::default();
+            for id in &params.param_ident {
+                if let Some(lvar) = params.keyword.get(id) {
+                    map.insert(HashKey(Value::symbol(*id)), lfp[*lvar]);
+                }
+            }
+            if let Some(lvar) = iseq.lvar.kwrest_param() {
+                if let Some(hash) = lfp[lvar].as_hash() {
+                    hash.iter().for_each(|(k, v)| {
+                        map.insert(HashKey(k), v);
+                    });
+                }
+            }
+            if !map.is_empty() {
+                keyword = Value::hash_from_map(map);
+            }
+        }
+        let mut args = Args2::new((self.sp() - prev_sp) as usize);
+        args.kw_arg = keyword;
+        args
     }
 
     /// Invoke the block given to the method with `args`.
-- 
2.43.0


From cd9de8777d3302bb6131f235ca799ca90dc749ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 42/87] fix: procs from symbols rejected extra arguments and
 crashed on errors, a lambda literal given as a block argument was treated as
 a block literal

---
 ruruby-parse/src/parser/expression.rs |  5 ++++-
 ruruby/src/codegen.rs                 | 10 +++++++---
 ruruby/src/globals/method.rs          | 13 ++++++++-----
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index e294a2f..9adea31 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -884,7 +884,10 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 arglist.hash_splat.push(self.parse_arg()?);
             } else if self.consume_punct(Punct::BitAnd)? {
                 // block argument
-                arglist.block = Some(Box::new(self.parse_arg()?));
+                let node = self.parse_arg()?;
+                let loc = node.loc();
+                // distinguish `&->(){}` from a block literal.
+                arglist.block = Some(Box::new(Node::new_comp_stmt(vec![node], loc)));
             } else {
                 let node = self.parse_arg()?;
                 let loc = node.loc();
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 98025c1..0f9e8da 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -56,12 +56,16 @@ impl Codegen {
         let mut iseq_sourcemap = vec![];
         iseq.push(Inst::GET_LOCAL);
         iseq.push32(0);
-        iseq_sourcemap.push((iseq.current(), Loc(0, 0)));
-        iseq.push(Inst::OPT_SEND);
+        iseq.push(Inst::GET_LOCAL);
+        iseq.push32(1);
+        iseq.push(Inst::SPLAT);
+        iseq.push(Inst::SEND);
         iseq.push32(method.into());
-        iseq.push16(0);
+        iseq.push16(1);
+        iseq.push_argflag(ArgFlag::splat());
         iseq.push_method(None);
         iseq.push32(globals.methods.add_inline_cache_entry());
+        iseq_sourcemap.push((iseq.current(), Loc(0, 0)));
         iseq.gen_return();
 
         let info = MethodInfo::RubyFunc {
diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index cdcdeb2..b6de7ca 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -545,15 +545,18 @@ impl ISeqInfo {
         iseq_sourcemap: Vec<(ISeqPos, Loc)>,
         source_info: SourceInfoRef,
     ) -> Self {
+        // |x, *args|
         let id = IdentId::get_id("x");
-        let lvar = LvarCollector::from(id);
+        let rest = IdentId::get_id("args");
+        let mut lvar = LvarCollector::from(id);
+        lvar.insert(rest);
         ISeqInfo {
             method,
             params: ISeqParams {
-                param_ident: vec![id],
+                param_ident: vec![id, rest],
                 req: 1,
                 opt: 0,
-                rest: None,
+                rest: Some(true),
                 post: 0,
                 block: false,
                 keyword: FxHashMap::default(),
@@ -563,9 +566,9 @@ impl ISeqInfo {
             },
             iseq,
             lvar,
-            lvars: 1,
+            lvars: 2,
             exception_table: vec![],
-            opt_flag: true,
+            opt_flag: false,
             mularg_flag: false,
             class_defined: vec![],
             iseq_sourcemap,
-- 
2.43.0


From a163933e3aaabc53889c5badd154a54dd2baf7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:51 +0000
Subject: [PATCH 43/87] fix: keyword arguments of yield were dropped, keys
 other than symbols in ** crashed

---
 ruruby-common/src/vm_inst.rs                |  4 +++-
 ruruby/src/codegen.rs                       | 10 ++++------
 ruruby/src/vm/executor/frame/arg_handler.rs |  7 +++++--
 ruruby/src/vm/executor/opt_core.rs          |  5 ++++-
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index 49c6aec..2a33262 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -341,12 +341,14 @@ impl Inst {
             | Inst::CREATE_PROC         // block: u32
             | Inst::DEF_SCLASS          // block: u32
             | Inst::CREATE_HASH         // number of items: u32
-            | Inst::YIELD               // number of items: u32
             | Inst::RESCUE              // number of items: u32
             | Inst::BEGIN               // depth of begin-end: u32
             | Inst::UNWIND              // depth of begin-end: u32
             => 5,
 
+            Inst::YIELD => 6,
+            // number of args: u32 / flag: u8
+
             Inst::SUPER  => 9,
             // number of args: u16 / block: u32 / no_args: u8 / flag: u8
 
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 0f9e8da..d8a0db2 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1436,11 +1436,8 @@ impl Codegen {
                 globals, iseq, *receiver, method, arglist, safe_nav, use_value, node_loc,
             )?,
             NodeKind::Yield(arglist) => {
-                let len = arglist.args.len();
-                for arg in arglist.args {
-                    self.gen(globals, iseq, arg, true)?;
-                }
-                self.emit_yield(iseq, len);
+                let (len, flag, _) = self.gen_arglist(globals, iseq, arglist)?;
+                self.emit_yield(iseq, len, flag);
                 if !use_value {
                     iseq.gen_pop();
                 };
@@ -1685,9 +1682,10 @@ impl Codegen {
         self.save_loc(iseq, loc);
     }
 
-    fn emit_yield(&mut self, iseq: &mut ISeq, args_num: usize) {
+    fn emit_yield(&mut self, iseq: &mut ISeq, args_num: usize, flag: ArgFlag) {
         iseq.push(Inst::YIELD);
         iseq.push32(args_num as u32);
+        iseq.push_argflag(flag);
         self.save_cur_loc(iseq);
     }
 
diff --git a/ruruby/src/vm/executor/frame/arg_handler.rs b/ruruby/src/vm/executor/frame/arg_handler.rs
index 9b12b67..df82ed9 100644
--- a/ruruby/src/vm/executor/frame/arg_handler.rs
+++ b/ruruby/src/vm/executor/frame/arg_handler.rs
@@ -258,8 +258,11 @@ impl VM {
         if ordinary_kwarg {
             let keyword = kw_arg.as_hash().unwrap();
             for (k, v) in keyword.iter() {
-                let id = k.as_symbol().unwrap();
-                match iseq.params.keyword.get(&id) {
+                let lvar = match k.as_symbol() {
+                    Some(id) => iseq.params.keyword.get(&id),
+                    None => None,
+                };
+                match lvar {
                     Some(lvar) => base[lvar.as_usize() as isize] = v,
                     None => {
                         if iseq.params.kwrest {
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 3374ff7..c8a40cb 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -485,7 +485,10 @@ impl VM {
                     Inst::OPT_SEND_N => dispatch!(self.vm_fast_send(false), false),
                     Inst::YIELD => {
                         let args_num = self.pc.read32() as usize;
-                        let args = self.pop_args_to_args(args_num);
+                        let flag = self.pc.read_argflag();
+                        let block = self.handle_block_arg(0, flag)?;
+                        let keyword = self.handle_hash_args(flag)?;
+                        let args = self.prepare_args(args_num, flag, keyword, block);
                         dispatch!(self.vm_yield(&args), true);
                     }
                     Inst::SUPER => {
-- 
2.43.0


From 16b77155de9e4aefcbf9832d243833b300a12228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:43 +0000
Subject: [PATCH 44/87] fix: the variable of an operator assignment was not
 visible in its right hand side

---
 ruruby-parse/src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 9adea31..7870b80 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -481,8 +481,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         match op {
             BinOp::LOr | BinOp::LAnd => {
                 self.get()?;
-                let rhs = self.parse_arg()?;
                 self.check_lhs(&lhs)?;
+                let rhs = self.parse_arg()?;
                 if let NodeKind::Ident(id) = lhs.kind {
                     lhs = Node::new_lvar(id, lhs.loc());
                 };
@@ -492,8 +492,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             }
             _ => {
                 self.get()?;
-                let rhs = self.parse_arg()?;
                 self.check_lhs(&lhs)?;
+                let rhs = self.parse_arg()?;
                 Ok(Node::new_assign_op(op, lhs, rhs))
             }
         }
-- 
2.43.0


From 8567a667008dfbabe0051cdcdf379f63c3d03104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:40 +0000
Subject: [PATCH 45/87] fix: a parameter was undefined or uninitialized in its
 own default expression

---
 ruruby-parse/src/parser.rs | 5 +++--
 ruruby/src/codegen.rs      | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index 327f392..41832d2 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -575,6 +575,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 let id = self.expect_ident()?;
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
+                    // The parameter is visible (and nil) in its own default expression.
+                    self.new_param(id, pos, loc.merge(self.prev_loc()))?;
                     let default = self.parse_default_value(terminator)?;
                     loc = loc.merge(self.prev_loc());
                     match state {
@@ -588,10 +590,10 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                         }
                     };
                     args.push(FormalParam::optional(id, default, loc));
-                    self.new_param(id, pos, loc)?;
                     pos += 1;
                 } else if self.consume_punct_no_term(Punct::Colon)? {
                     // Keyword param
+                    let lvar = self.new_param(id, pos, loc.merge(self.prev_loc()))?;
                     let next = self.peek_no_term()?.kind;
                     let default =
                         if next == TokenKind::Punct(Punct::Comma) || next == TokenKind::LineTerm {
@@ -615,7 +617,6 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                         state = Kind::KeyWord;
                     };
                     args.push(FormalParam::keyword(id, default, loc));
-                    let lvar = self.new_param(id, pos, loc)?;
                     pos += 1;
                     self.add_kw_param(lvar);
                 } else {
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index d8a0db2..9555817 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -602,6 +602,9 @@ impl Codegen {
     ) -> Result<(), RubyError> {
         self.emit_check_local(iseq, id)?;
         let src1 = iseq.gen_jmp_if_f();
+        // The parameter itself is nil in its default expression.
+        iseq.gen_push_nil();
+        self.emit_set_local(iseq, id);
         self.gen(globals, iseq, default, true)?;
         self.emit_set_local(iseq, id);
         iseq.write_disp_from_cur(src1);
-- 
2.43.0


From 702f700ed4f9b871848fd4e97d7cd7143e45f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:44 +0000
Subject: [PATCH 46/87] fix: receivers and indices of operator assignments were
 evaluated twice, ||= of undefined constants and class variables raised,
 multiple assignment ran from right to left, rescue modifiers applied to the
 whole assignment

---
 ruruby-common/src/vm_inst.rs          |   3 +
 ruruby-parse/src/node.rs              |   2 +
 ruruby-parse/src/parser/expression.rs |  43 +++++-
 ruruby/src/codegen.rs                 | 209 +++++++++++++++++++++++---
 ruruby/src/codegen/defined.rs         |   7 +
 ruruby/src/codegen/send.rs            |  15 +-
 ruruby/src/globals.rs                 |   1 +
 ruruby/src/vm/executor/opt_core.rs    |   5 +
 8 files changed, 255 insertions(+), 30 deletions(-)

diff --git a/ruruby-common/src/vm_inst.rs b/ruruby-common/src/vm_inst.rs
index 2a33262..25d4a4c 100644
--- a/ruruby-common/src/vm_inst.rs
+++ b/ruruby-common/src/vm_inst.rs
@@ -42,6 +42,7 @@ impl Inst {
     pub const CHECK_IVAR: u8 = 53;
     pub const CHECK_GVAR: u8 = 54;
     pub const CHECK_METHOD: u8 = 55;
+    pub const CHECK_CVAR: u8 = 56;
 
     pub const SEND: u8 = 60;
     pub const OPT_SEND: u8 = 66;
@@ -204,6 +205,7 @@ impl Inst {
             Inst::CHECK_SCOPE => "CHECK_SCOPE",
             Inst::CHECK_IVAR => "CHECK_IVAR",
             Inst::CHECK_GVAR => "CHECK_GVAR",
+            Inst::CHECK_CVAR => "CHECK_CVAR",
             Inst::CHECK_METHOD => "CHECK_METHOD",
 
             Inst::SEND => "SEND",
@@ -308,6 +310,7 @@ impl Inst {
             | Inst::SET_SVAR            // id: u32
             | Inst::GET_CVAR            // IdentId: u32
             | Inst::SET_CVAR            // IdentId: u32
+            | Inst::CHECK_CVAR          // IdentId: u32
             | Inst::GET_IDX_I           // immediate: u32
             | Inst::SET_IDX_I           // immediate: u32
             | Inst::CREATE_ARRAY        // number of items: u32
diff --git a/ruruby-parse/src/node.rs b/ruruby-parse/src/node.rs
index 81fa241..406228c 100644
--- a/ruruby-parse/src/node.rs
+++ b/ruruby-parse/src/node.rs
@@ -28,6 +28,8 @@ pub enum NodeKind {
     RegExp(Vec<Node>, bool),       // Vec<STRING>, is_constant_expr
 
     LocalVar(IdentId),
+    /// The value on the top of the stack. (used only in code generation)
+    StackTop,
     Ident(IdentId),
     InstanceVar(IdentId),
     GlobalVar(IdentId),
diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 7870b80..60d9da6 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -166,13 +166,28 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     /// Parse rhs of multiple assignment.
     /// If Parser.mul_assign_rhs is true, only a single assignment is allowed.
     fn parse_mul_assign_rhs_if_allowed(&mut self) -> Result<Vec<Node>, ParseErr> {
-        if self.suppress_mul_assign {
-            let node = vec![self.parse_arg()?];
-            Ok(node)
+        let mrhs = if self.suppress_mul_assign {
+            vec![self.parse_arg()?]
         } else {
-            let mrhs = self.parse_mul_assign_rhs(None)?;
-            Ok(mrhs)
+            self.parse_mul_assign_rhs(None)?
+        };
+        self.parse_rescued_rhs(mrhs)
+    }
+
+    /// Parse `rescue ARG` which follows the right hand side of an assignment.
+    fn parse_rescued_rhs(&mut self, mut mrhs: Vec<Node>) -> Result<Vec<Node>, ParseErr> {
+        if !self.consume_reserved_no_skip_line_term(Reserved::Rescue)? {
+            return Ok(mrhs);
         }
+        let rescue = self.parse_arg()?;
+        let body = if mrhs.len() == 1 && !mrhs[0].is_splat() {
+            mrhs.remove(0)
+        } else {
+            let loc = mrhs.iter().fold(mrhs[0].loc(), |l, n| l.merge(n.loc()));
+            Node::new_array(mrhs, loc)
+        };
+        let node = Node::new_begin(body, vec![RescueEntry::new_postfix(rescue)], None, None);
+        Ok(vec![node])
     }
 
     /// Parse rhs of multiple assignment. cf: a,b,*c,d
@@ -238,6 +253,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         if self.consume_punct_no_term(Punct::Assign)? {
             self.check_lhs(&lhs)?;
             let mrhs = self.parse_mul_assign_rhs(None)?;
+            let mrhs = self.parse_rescued_rhs(mrhs)?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
             // <lhs> <assign_op> <arg>
@@ -478,11 +494,19 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     /// Parse assign-op.
     /// <lhs> <assign_op> <arg>
     fn parse_assign_op(&mut self, mut lhs: Node, op: BinOp) -> Result<Node, ParseErr> {
+        let once = match lhs.kind {
+            NodeKind::Send { .. } | NodeKind::Index { .. } => true,
+            NodeKind::Const { .. } | NodeKind::Scope(..) | NodeKind::ClassVar(_) => {
+                op == BinOp::LOr
+            }
+            _ => false,
+        };
         match op {
-            BinOp::LOr | BinOp::LAnd => {
+            BinOp::LOr | BinOp::LAnd if !once => {
                 self.get()?;
                 self.check_lhs(&lhs)?;
                 let rhs = self.parse_arg()?;
+                let rhs = self.parse_rescued_rhs(vec![rhs])?.remove(0);
                 if let NodeKind::Ident(id) = lhs.kind {
                     lhs = Node::new_lvar(id, lhs.loc());
                 };
@@ -494,6 +518,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 self.get()?;
                 self.check_lhs(&lhs)?;
                 let rhs = self.parse_arg()?;
+                let rhs = self.parse_rescued_rhs(vec![rhs])?.remove(0);
                 Ok(Node::new_assign_op(op, lhs, rhs))
             }
         }
@@ -1072,6 +1097,12 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                         | Reserved::And
                         | Reserved::Or
                         | Reserved::Then
+                        | Reserved::Else
+                        | Reserved::Elsif
+                        | Reserved::When
+                        | Reserved::In
+                        | Reserved::Rescue
+                        | Reserved::Ensure
                         | Reserved::End
                 ),
                 _ => true,
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 9555817..3bff59e 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -418,6 +418,39 @@ impl Codegen {
         Ok(())
     }
 
+    /// stack: val1 .. valn
+    ///
+    /// The assignments are performed from left to right.
+    fn gen_assign_multi(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        mlhs: Vec<Node>,
+    ) -> Result<(), RubyError> {
+        let len = mlhs.len();
+        let lvars: std::collections::HashSet<_> = mlhs
+            .iter()
+            .filter_map(|n| match n.kind {
+                NodeKind::Ident(id) | NodeKind::LocalVar(id) => Some(id),
+                _ => None,
+            })
+            .collect();
+        if lvars.len() == len {
+            // the order is not observable.
+            for lhs in mlhs.into_iter().rev() {
+                self.gen_assign(globals, iseq, lhs)?;
+            }
+        } else {
+            for (i, lhs) in mlhs.into_iter().enumerate() {
+                if i + 1 < len {
+                    iseq.gen_topn(len - i - 1);
+                }
+                self.gen_assign(globals, iseq, lhs)?;
+            }
+        }
+        Ok(())
+    }
+
     fn gen_assign_val(
         &mut self,
         globals: &mut Globals,
@@ -473,12 +506,31 @@ impl Codegen {
                 iseq.gen_set_const(id);
             }
             NodeKind::Send {
-                receiver, method, ..
+                receiver,
+                method,
+                safe_nav,
+                ..
             } => {
                 let assign_id = IdentId::get_id_from_string(format!("{:?}=", method));
                 self.gen(globals, iseq, *receiver, true)?;
-                self.gen(globals, iseq, rhs, true)?;
-                self.emit_opt_send(globals, iseq, assign_id, 1, None, use_value, lhs_loc);
+                let nil_case = if safe_nav {
+                    Some(self.gen_jmp_if_nil(iseq))
+                } else {
+                    None
+                };
+                self.gen_assign_val(globals, iseq, rhs, use_value)?;
+                if use_value {
+                    iseq.gen_sinkn(2);
+                }
+                self.emit_opt_send(globals, iseq, assign_id, 1, None, false, lhs_loc);
+                if let Some(nil_case) = nil_case {
+                    let end = iseq.gen_jmp();
+                    iseq.write_disp_from_cur(nil_case);
+                    if !use_value {
+                        iseq.gen_pop();
+                    }
+                    iseq.write_disp_from_cur(end);
+                }
             }
             NodeKind::Index { base, index } => {
                 self.gen(globals, iseq, *base, true)?;
@@ -531,6 +583,105 @@ impl Codegen {
         Ok(())
     }
 
+    /// Generate `lhs` `op`= `rhs` for an attribute or an element.
+    ///
+    /// The receiver and the indices are evaluated only once.
+    fn gen_assign_op(
+        &mut self,
+        globals: &mut Globals,
+        iseq: &mut ISeq,
+        op: BinOp,
+        lhs: Node,
+        rhs: Node,
+        use_value: bool,
+    ) -> Result<(), RubyError> {
+        let loc = lhs.loc();
+        // 1. push the receiver and the indices, and get the current value.
+        let mut nil_case = None;
+        let (num, has_splat, getter, setter) = match lhs.kind {
+            NodeKind::Send {
+                receiver,
+                method,
+                safe_nav,
+                ..
+            } => {
+                let assign_id = IdentId::get_id_from_string(format!("{:?}=", method));
+                self.gen(globals, iseq, *receiver, true)?;
+                if safe_nav {
+                    nil_case = Some(self.gen_jmp_if_nil(iseq));
+                }
+                (0, false, method, assign_id)
+            }
+            NodeKind::Index { base, index } => {
+                let num = index.len();
+                self.gen(globals, iseq, *base, true)?;
+                let has_splat = self.gen_nodes_check_splat(globals, iseq, index)?;
+                (num, has_splat, IdentId::_INDEX, IdentId::_INDEX_ASSIGN)
+            }
+            _ => unreachable!(),
+        };
+        let is_elem = getter == IdentId::_INDEX && num == 1 && !has_splat;
+        iseq.gen_dup(num + 1);
+        if is_elem {
+            self.emit_get_array_elem(iseq, loc);
+        } else {
+            self.gen_send_with_splat(globals, iseq, getter, num, has_splat, true, loc);
+        }
+        // 2. calculate the new value.
+        let skip = match op {
+            BinOp::LAnd | BinOp::LOr => {
+                iseq.gen_dup(1);
+                let skip = if op == BinOp::LAnd {
+                    iseq.gen_jmp_if_f()
+                } else {
+                    iseq.gen_jmp_if_t()
+                };
+                iseq.gen_pop();
+                self.gen(globals, iseq, rhs, true)?;
+                Some(skip)
+            }
+            _ => {
+                let cur = Node::new(NodeKind::StackTop, loc);
+                self.gen(globals, iseq, Node::new_binop(op, cur, rhs), true)?;
+                None
+            }
+        };
+        // 3. assign it.
+        if use_value {
+            iseq.gen_dup(1);
+            iseq.gen_sinkn(num + 2);
+        }
+        if is_elem {
+            iseq.gen_set_array_elem();
+            self.save_loc(iseq, loc);
+        } else {
+            self.gen_send_with_splat(globals, iseq, setter, num + 1, has_splat, false, loc);
+        }
+        if let Some(skip) = skip {
+            // stack: receiver indices.. value
+            let end = iseq.gen_jmp();
+            iseq.write_disp_from_cur(skip);
+            if use_value {
+                iseq.gen_sinkn(num + 1);
+            } else {
+                iseq.gen_pop();
+            }
+            for _ in 0..num + 1 {
+                iseq.gen_pop();
+            }
+            iseq.write_disp_from_cur(end);
+        }
+        if let Some(nil_case) = nil_case {
+            let end = iseq.gen_jmp();
+            iseq.write_disp_from_cur(nil_case);
+            if !use_value {
+                iseq.gen_pop();
+            }
+            iseq.write_disp_from_cur(end);
+        }
+        Ok(())
+    }
+
     fn gen_comp_stmt(
         &mut self,
         globals: &mut Globals,
@@ -960,12 +1111,40 @@ impl Codegen {
                     iseq.gen_pop()
                 };
             }
-            NodeKind::AssignOp(op, box lhs, box rhs) => match (&op, &lhs.kind, &rhs.kind) {
+            NodeKind::AssignOp(op, box lhs, box rhs) => match lhs.kind {
+                NodeKind::Send { .. } | NodeKind::Index { .. } => {
+                    self.gen_assign_op(globals, iseq, op, lhs, rhs, use_value)?;
+                }
+                NodeKind::Const { .. } | NodeKind::Scope(..) | NodeKind::ClassVar(_)
+                    if op == BinOp::LOr =>
+                {
+                    // `lhs` may be undefined.
+                    let mut undef = vec![];
+                    self.check_defined(globals, &lhs, iseq, &mut undef, &mut vec![])?;
+                    self.gen(globals, iseq, lhs.clone(), true)?;
+                    if use_value {
+                        iseq.gen_dup(1);
+                    }
+                    let end = iseq.gen_jmp_if_t();
+                    if use_value {
+                        iseq.gen_pop();
+                    }
+                    for label in undef {
+                        iseq.write_disp_from_cur(label);
+                    }
+                    self.gen_assign2(globals, iseq, lhs, rhs, use_value)?;
+                    iseq.write_disp_from_cur(end);
+                }
                 _ => {
                     let rhs = Node::new_binop(op, lhs.clone(), rhs);
                     self.gen_assign2(globals, iseq, lhs, rhs, use_value)?;
                 }
             },
+            NodeKind::StackTop => {
+                if !use_value {
+                    iseq.gen_pop();
+                }
+            }
             NodeKind::UnOp(op, lhs) => {
                 self.gen(globals, iseq, *lhs, true)?;
                 match op {
@@ -1379,10 +1558,7 @@ impl Codegen {
                         iseq.gen_dup(1);
                     };
                     iseq.gen_take(lhs_len);
-
-                    for lhs in mlhs.into_iter().rev() {
-                        self.gen_assign(globals, iseq, lhs)?;
-                    }
+                    self.gen_assign_multi(globals, iseq, mlhs)?;
                 } else {
                     // no splat. mlhs.len != 1
                     let mrhs_len = mrhs.len();
@@ -1395,25 +1571,20 @@ impl Codegen {
                                 iseq.gen_push_nil();
                             }
                         }
-                        for lhs in mlhs.into_iter().rev() {
-                            self.gen_assign(globals, iseq, lhs)?;
-                        }
+                        self.gen_assign_multi(globals, iseq, mlhs)?;
                     } else {
-                        let len = std::cmp::max(mlhs.len(), mrhs.len());
                         for rhs in mrhs {
                             self.gen(globals, iseq, rhs, true)?;
                         }
-                        for _ in mrhs_len..len {
+                        iseq.gen_dup(mrhs_len);
+                        for _ in mrhs_len..lhs_len {
                             iseq.gen_push_nil();
                         }
-                        iseq.gen_dup(len);
-                        for _ in mlhs.len()..len {
+                        for _ in lhs_len..mrhs_len {
                             iseq.gen_pop();
                         }
-                        for lhs in mlhs.into_iter().rev() {
-                            self.gen_assign(globals, iseq, lhs)?;
-                        }
-                        iseq.gen_create_array(len);
+                        self.gen_assign_multi(globals, iseq, mlhs)?;
+                        iseq.gen_create_array(mrhs_len);
                     }
                 }
             }
diff --git a/ruruby/src/codegen/defined.rs b/ruruby/src/codegen/defined.rs
index 07aebe1..12dfe0f 100644
--- a/ruruby/src/codegen/defined.rs
+++ b/ruruby/src/codegen/defined.rs
@@ -73,6 +73,12 @@ impl Codegen {
                 nil_labels.push(iseq.gen_jmp_if_t());
                 Ok(())
             }
+            NodeKind::ClassVar(id) => {
+                iseq.push(Inst::CHECK_CVAR);
+                iseq.push32((*id).into());
+                nil_labels.push(iseq.gen_jmp_if_t());
+                Ok(())
+            }
             NodeKind::Const {
                 toplevel: false,
                 id,
@@ -184,6 +190,7 @@ fn defined_str(node: &Node) -> &'static str {
         NodeKind::ClassVar(..) => "class variable",
         NodeKind::Const { .. } | NodeKind::Scope(..) => "constant",
         NodeKind::InstanceVar(..) => "instance-variable",
+        NodeKind::ClassVar(..) => "class variable",
         NodeKind::MulAssign(mlhs, _) => {
             if mlhs.len() != 1 {
                 "assignment"
diff --git a/ruruby/src/codegen/send.rs b/ruruby/src/codegen/send.rs
index 42daea0..16c1e8f 100644
--- a/ruruby/src/codegen/send.rs
+++ b/ruruby/src/codegen/send.rs
@@ -32,11 +32,7 @@ impl Codegen {
         }
         // With `&.`, neither evaluate arguments nor call the method if the receiver is nil.
         let nil_case = if safe_nav {
-            iseq.gen_dup(1);
-            iseq.gen_push_nil();
-            iseq.gen_sinkn(1);
-            iseq.push(Inst::NE);
-            Some(iseq.gen_jmp_if_f())
+            Some(self.gen_jmp_if_nil(iseq))
         } else {
             None
         };
@@ -60,6 +56,15 @@ impl Codegen {
         Ok(())
     }
 
+    /// Jump if the value on the top of the stack is nil. The value is kept on the stack.
+    pub(crate) fn gen_jmp_if_nil(&mut self, iseq: &mut ISeq) -> ISeqPos {
+        iseq.gen_dup(1);
+        iseq.gen_push_nil();
+        iseq.gen_sinkn(1);
+        iseq.push(Inst::NE);
+        iseq.gen_jmp_if_f()
+    }
+
     /// Push arguments on the stack.
     /// Return the number of positional arguments, flags, and a block literal.
     pub(crate) fn gen_arglist(
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index f88c6ea..1d8214c 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -403,6 +403,7 @@ impl Globals {
             | Inst::CHECK_IVAR
             | Inst::GET_CVAR
             | Inst::SET_CVAR
+            | Inst::CHECK_CVAR
             | Inst::GET_GVAR
             | Inst::SET_GVAR
             | Inst::CHECK_GVAR => format!(
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index c8a40cb..9d56c63 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -355,6 +355,11 @@ impl VM {
                         let val = self.get_class_var(var_id)?;
                         self.stack_push(val);
                     }
+                    Inst::CHECK_CVAR => {
+                        let var_id = self.pc.read_id();
+                        let val = Value::bool(self.get_class_var(var_id).is_err());
+                        self.stack_push(val);
+                    }
                     Inst::SET_INDEX => {
                         dispatch!(self.invoke_set_index(), false);
                     }
-- 
2.43.0


From bf334a02917f1cb9ccac36f485cf3c91d237fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:22 +0000
Subject: [PATCH 47/87] fix: arguments evaluated after a splat changed its
 elements, targets of a multiple assignment were not visible in its right hand
 side

---
 ruruby-parse/src/parser/expression.rs | 2 +-
 ruruby/src/vm/executor/opt_core.rs    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 60d9da6..b088bc8 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -155,10 +155,10 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             return Err(error_unexpected(loc, "Expected '='."));
         }
 
-        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
         for lhs in &mlhs {
             self.check_lhs(lhs)?;
         }
+        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
 
         Ok(Node::new_mul_assign(mlhs, mrhs))
     }
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 9d56c63..8e02471 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -616,7 +616,8 @@ impl VM {
         }
         if let Some(rvalue) = val.as_rvalue() {
             match rvalue.kind() {
-                ObjKind::ARRAY => return Ok(val),
+                // Arguments evaluated later must not affect the elements.
+                ObjKind::ARRAY => return Ok(Value::array_from(rvalue.array().to_vec())),
                 ObjKind::RANGE => {
                     let range = rvalue.range();
                     if range.start.as_fixnum().is_some() && range.end.as_fixnum().is_some() {
-- 
2.43.0


From 3153886a6d24bd3d0736f3de0db168d753afe142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:00 +0000
Subject: [PATCH 48/87] fix: the parser panicked at unexpected ends of input,
 unary operators did not accept - operands, p !x and p ~x were rejected, #@x
 and #$x in strings, $10

---
 ruruby-parse/src/parser.rs            |  5 +++-
 ruruby-parse/src/parser/expression.rs | 31 ++++++++++++++++++-----
 ruruby-parse/src/parser/lexer.rs      | 36 +++++++++++++++++++++------
 ruruby-parse/src/parser/literals.rs   |  4 ++-
 4 files changed, 61 insertions(+), 15 deletions(-)

diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index 41832d2..d7d0ce3 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -231,7 +231,10 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     }
 
     fn loc(&mut self) -> Loc {
-        self.peek_no_term().unwrap().loc()
+        match self.peek_no_term() {
+            Ok(tok) => tok.loc(),
+            Err(err) => err.1,
+        }
     }
 
     fn prev_loc(&self) -> Loc {
diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index b088bc8..7ff9710 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -527,7 +527,12 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     fn parse_exponent(&mut self) -> Result<Node, ParseErr> {
         let lhs = self.parse_unary()?;
         if self.consume_punct_no_term(Punct::DMul)? {
-            let rhs = self.parse_exponent()?;
+            // a ** -b ** c : a ** (-(b ** c))
+            let rhs = if self.peek()?.kind == TokenKind::Punct(Punct::Minus) {
+                self.parse_unary_minus()?
+            } else {
+                self.parse_exponent()?
+            };
             Ok(Node::new_binop(BinOp::Exp, lhs, rhs))
         } else {
             Ok(lhs)
@@ -537,21 +542,30 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     fn parse_unary(&mut self) -> Result<Node, ParseErr> {
         if self.consume_punct(Punct::BitNot)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else if self.consume_punct(Punct::Not)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Not, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::Not, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else if self.consume_punct(Punct::Plus)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Pos, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::Pos, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else {
             self.parse_method_call()
         }
     }
 
+    /// Parse an operand of `~`, `!` and `+`.
+    fn parse_unary_operand(&mut self) -> Result<Node, ParseErr> {
+        if self.peek()?.kind == TokenKind::Punct(Punct::Minus) {
+            self.parse_unary_minus()
+        } else {
+            self.parse_unary()
+        }
+    }
+
     fn parse_method_call(&mut self) -> Result<Node, ParseErr> {
         if self.consume_reserved(Reserved::Yield)? {
             return self.parse_yield();
@@ -752,7 +766,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                     },
                     TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
                     TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
-                    _ => unreachable!(),
+                    _ => Err(error_unexpected(loc, "Unexpected unary minus.")),
                 },
                 Punct::LParen => {
                     let node = self.parse_comp_stmt()?;
@@ -1076,7 +1090,12 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             match tok.kind {
                 TokenKind::LineTerm => false,
                 TokenKind::Punct(p) => match p {
-                    Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow => true,
+                    Punct::LParen
+                    | Punct::LBracket
+                    | Punct::Scope
+                    | Punct::Arrow
+                    | Punct::Not
+                    | Punct::BitNot => true,
                     Punct::Colon
                     | Punct::Plus
                     | Punct::Minus
diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index afbe8d7..f7d4646 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -67,13 +67,35 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Check whether the character sequence after '#' starts an interpolation.
+    fn is_interpolation(&self) -> bool {
+        let mut chars = self.code[self.pos..].chars();
+        let is_ident = |ch: Option<char>| match ch {
+            Some(ch) => ch.is_alphabetic() || ch == '_' || !ch.is_ascii(),
+            None => false,
+        };
+        match chars.next() {
+            Some('{') => true,
+            Some('$') => {
+                let ch = chars.next();
+                is_ident(ch) || matches!(ch, Some(ch) if ch.is_ascii_digit() || "~*$?!@;,.=:<>&'+".contains(ch))
+            }
+            Some('@') => match chars.next() {
+                Some('@') => is_ident(chars.next()),
+                ch => is_ident(ch),
+            },
+            _ => false,
+        }
+    }
+
     fn error_unexpected(&self, pos: usize) -> ParseErr {
+        let ch = match self.code[pos..].chars().next() {
+            Some(ch) => ch,
+            None => return Self::error_eof(pos),
+        };
         let loc = Loc(pos, pos);
         ParseErr(
-            ParseErrKind::SyntaxError(format!(
-                "Unexpected char. {:?}",
-                self.code[pos..].chars().next().unwrap()
-            )),
+            ParseErrKind::SyntaxError(format!("Unexpected char. {:?}", ch)),
             loc,
         )
     }
@@ -414,7 +436,7 @@ impl<'a> Lexer<'a> {
             }
             let mut id = ch as u32 - '0' as u32;
             while let Some(ch) = self.consume_numeric() {
-                id += ch as u32 - '0' as u32;
+                id = id.saturating_mul(10).saturating_add(ch as u32 - '0' as u32);
             }
             Ok(self.new_special_var(id as usize + 100))
         } else {
@@ -792,7 +814,7 @@ impl<'a> Lexer<'a> {
                 }
                 '#' => match self.peek() {
                     // string interpolation
-                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
+                    Some(_) if self.is_interpolation() => {
                         return Ok(InterpolateState::NewInterpolation(s, level))
                     }
                     _ => s.push('#'),
@@ -938,7 +960,7 @@ impl<'a> Lexer<'a> {
                     };
                 }
                 '#' => match self.peek() {
-                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
+                    Some(_) if self.is_interpolation() => {
                         return Ok(InterpolateState::NewInterpolation(s, 0))
                     }
                     _ => s.push('#'),
diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 87bf91b..4babd86 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -299,7 +299,9 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             let node = match &tok.kind {
                 TokenKind::GlobalVar(s) => Node::new_global_var(s, loc),
                 TokenKind::InstanceVar(s) => Node::new_instance_var(s, loc),
-                _ => unreachable!("{:?}", tok),
+                TokenKind::ClassVar(s) => Node::new_class_var(s, loc),
+                TokenKind::SpecialVar(id) => Node::new_special_var(*id, loc),
+                _ => return Err(error_unexpected(loc, "Unexpected token in a string.")),
             };
             nodes.push(node);
         };
-- 
2.43.0


From 44d91b9b1f0e11c612fef7bf0fbf8240b5dd2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:00 +0000
Subject: [PATCH 49/87] fix: case without subject required all conditions of a
 when, string interpolation of bare variables panicked, case without when
 panicked

---
 ruruby/src/codegen.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 3bff59e..39af73a 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -866,12 +866,11 @@ impl Codegen {
                             iseq.push(Inst::TO_S);
                             c += 1;
                         }
-                        NodeKind::GlobalVar(id) => {
-                            iseq.gen_get_global_var(id);
+                        _ => {
+                            self.gen(globals, iseq, node, true)?;
                             iseq.push(Inst::TO_S);
                             c += 1;
                         }
-                        _ => unimplemented!("Illegal arguments in Nodekind::InterporatedString."),
                     }
                 }
                 iseq.gen_concat(c);
@@ -897,7 +896,8 @@ impl Codegen {
                                 iseq.push(Inst::TO_S);
                             }
                             _ => {
-                                unimplemented!("Illegal arguments in Nodekind::InterporatedString.")
+                                self.gen(globals, iseq, node, true)?;
+                                iseq.push(Inst::TO_S);
                             }
                         }
                     }
@@ -1402,7 +1402,7 @@ impl Codegen {
                     Some(cond) => {
                         self.gen(globals, iseq, *cond, true)?;
                         // This flag is set when when label of all branches are Integer.
-                        let mut opt_flag = true;
+                        let mut opt_flag = !when_.is_empty();
                         // This flag is set when when label of all branches are Integer, Symbol, or String.
                         let mut opt_flag2 = true;
                         let mut opt_min = i64::max_value();
@@ -1527,19 +1527,20 @@ impl Codegen {
                     }
                     None => {
                         for branch in when_ {
-                            let mut next = vec![];
+                            let mut body = vec![];
                             for elem in branch.when {
                                 let loc = elem.loc;
                                 self.gen(globals, iseq, elem, true)?;
                                 self.save_loc(iseq, loc);
-                                next.push(iseq.gen_jmp_if_f());
+                                body.push(iseq.gen_jmp_if_t());
                             }
-                            //next = Some(iseq.gen_jmp());
-                            self.gen(globals, iseq, *branch.body, use_value)?;
-                            end.push(iseq.gen_jmp());
-                            for dest in next {
+                            let next = iseq.gen_jmp();
+                            for dest in body {
                                 iseq.write_disp_from_cur(dest);
                             }
+                            self.gen(globals, iseq, *branch.body, use_value)?;
+                            end.push(iseq.gen_jmp());
+                            iseq.write_disp_from_cur(next);
                         }
                         self.gen(globals, iseq, *else_, use_value)?;
                         for dest in end {
-- 
2.43.0


From ca39ba217c4c5d55aa2fa7bc753f1c01f4a1d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:39 +0000
Subject: [PATCH 50/87] fix: values of user-defined comparison operators were
 converted to bool, user-defined != and == of the same object were ignored

---
 ruruby/src/vm/executor/ops.rs      | 83 +++++++++++++++++++-----------
 ruruby/src/vm/executor/opt_core.rs |  8 +--
 2 files changed, 58 insertions(+), 33 deletions(-)

diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 05d9d01..d12ff61 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -251,7 +251,7 @@ impl VM {
 
 macro_rules! eval_cmp {
     ($func_name:ident, $op:ident, $id:ident) => {
-        pub(super) fn $func_name(&mut self) -> Result<bool, RubyError> {
+        pub(super) fn $func_name(&mut self) -> VMResult {
             let (lhs, rhs) = self.stack.pop2();
             let res = eval_cmp2!(self, rhs, lhs, $op, IdentId::$id);
             res
@@ -263,41 +263,37 @@ macro_rules! eval_cmp2 {
     ($vm:ident, $rhs:expr, $lhs:expr, $op:ident, $id:expr) => {{
         if let Some(lhsi) = $lhs.as_fixnum() {
             if let Some(rhsi) = $rhs.as_fixnum() {
-                Ok(lhsi.$op(&rhsi))
+                Ok(Value::bool(lhsi.$op(&rhsi)))
             } else if let Some(rhsf) = $rhs.as_flonum() {
-                Ok((lhsi as f64).$op(&rhsf))
+                Ok(Value::bool((lhsi as f64).$op(&rhsf)))
             } else {
-                let v = $vm.eval_send1($id, $lhs, $rhs)?;
-                Ok(v.to_bool())
+                $vm.eval_send1($id, $lhs, $rhs)
             }
         } else if let Some(lhsf) = $lhs.as_flonum() {
             if let Some(rhsi) = $rhs.as_fixnum() {
-                Ok(lhsf.$op(&(rhsi as f64)))
+                Ok(Value::bool(lhsf.$op(&(rhsi as f64))))
             } else if let Some(rhsf) = $rhs.as_flonum() {
-                Ok(lhsf.$op(&rhsf))
+                Ok(Value::bool(lhsf.$op(&rhsf)))
             } else {
-                let v = $vm.eval_send1($id, $lhs, $rhs)?;
-                Ok(v.to_bool())
+                $vm.eval_send1($id, $lhs, $rhs)
             }
         } else {
-            let v = $vm.eval_send1($id, $lhs, $rhs)?;
-            Ok(v.to_bool())
+            $vm.eval_send1($id, $lhs, $rhs)
         }
     }};
 }
 
 macro_rules! eval_cmp_i {
     ($func_name:ident, $op:ident, $id:ident) => {
-        pub(super) fn $func_name(&mut self, lhs: Value, i: i32) -> Result<bool, RubyError> {
+        pub(super) fn $func_name(&mut self, lhs: Value, i: i32) -> VMResult {
             if let Some(lhsi) = lhs.as_fixnum() {
                 let i = i as i64;
-                Ok(lhsi.$op(&i))
+                Ok(Value::bool(lhsi.$op(&i)))
             } else if let Some(lhsf) = lhs.as_flonum() {
                 let i = i as f64;
-                Ok(lhsf.$op(&i))
+                Ok(Value::bool(lhsf.$op(&i)))
             } else {
-                let v = self.eval_send1(IdentId::$id, lhs, Value::fixnum(i as i64))?;
-                Ok(v.to_bool())
+                self.eval_send1(IdentId::$id, lhs, Value::fixnum(i as i64))
             }
         }
     };
@@ -483,13 +479,39 @@ impl VM {
         }
     }
 
-    pub(super) fn eval_eq(&mut self) -> Result<bool, RubyError> {
+    pub(super) fn eval_eq(&mut self) -> VMResult {
         let (lhs, rhs) = self.stack_pop2();
-        self.eval_eq2(rhs, lhs)
+        self.eval_eq_op(rhs, lhs)
     }
 
-    pub(super) fn eval_ne(&mut self) -> Result<bool, RubyError> {
-        Ok(!self.eval_eq()?)
+    pub(super) fn eval_ne(&mut self) -> VMResult {
+        let (lhs, rhs) = self.stack_pop2();
+        self.eval_ne_op(rhs, lhs)
+    }
+
+    /// Evaluate `lhs == rhs`.
+    fn eval_eq_op(&mut self, rhs: Value, lhs: Value) -> VMResult {
+        match lhs.as_rvalue() {
+            // The value of user-defined `==` is not necessarily a bool.
+            Some(oref) if oref.kind() == ObjKind::ORDINARY => {
+                self.eval_send1(IdentId::_EQ, lhs, rhs)
+            }
+            _ => Ok(Value::bool(self.eval_eq2(rhs, lhs)?)),
+        }
+    }
+
+    /// Evaluate `lhs != rhs`.
+    fn eval_ne_op(&mut self, rhs: Value, lhs: Value) -> VMResult {
+        match lhs.as_rvalue() {
+            Some(oref) if oref.kind() == ObjKind::ORDINARY => {
+                let class = self.globals.get_class_for_method(lhs);
+                if self.globals.methods.find_method(class, IdentId::_NEQ).is_some() {
+                    return self.eval_send1(IdentId::_NEQ, lhs, rhs);
+                }
+            }
+            _ => {}
+        }
+        Ok(Value::bool(!self.eval_eq_op(rhs, lhs)?.to_bool()))
     }
 
     eval_cmp!(eval_ge, ge, _GE);
@@ -498,10 +520,11 @@ impl VM {
     eval_cmp!(eval_lt, lt, _LT);
 
     pub(crate) fn eval_gt2(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
-        eval_cmp2!(self, rhs, lhs, gt, IdentId::_GT)
+        let v: VMResult = eval_cmp2!(self, rhs, lhs, gt, IdentId::_GT);
+        Ok(v?.to_bool())
     }
 
-    pub(super) fn eval_eqi(&mut self, lhs: Value, i: i32) -> Result<bool, RubyError> {
+    pub(super) fn eval_eqi(&mut self, lhs: Value, i: i32) -> VMResult {
         let res = if let Some(lhsi) = lhs.as_fixnum() {
             lhsi == i as i64
         } else if let Some(lhsf) = lhs.as_flonum() {
@@ -510,17 +533,19 @@ impl VM {
             match lhs.unpack() {
                 RV::Integer(lhs) => lhs == i as i64,
                 RV::Float(lhs) => lhs == i as f64,
-                _ => {
-                    let v = self.eval_send1(IdentId::_EQ, lhs, Value::integer(i as i64))?;
-                    return Ok(v.to_bool());
-                }
+                _ => return self.eval_send1(IdentId::_EQ, lhs, Value::integer(i as i64)),
             }
         };
 
-        Ok(res)
+        Ok(Value::bool(res))
     }
-    pub(super) fn eval_nei(&mut self, lhs: Value, i: i32) -> Result<bool, RubyError> {
-        Ok(!self.eval_eqi(lhs, i)?)
+    pub(super) fn eval_nei(&mut self, lhs: Value, i: i32) -> VMResult {
+        match lhs.as_rvalue() {
+            Some(oref) if oref.kind() == ObjKind::ORDINARY => {
+                self.eval_ne_op(Value::integer(i as i64), lhs)
+            }
+            _ => Ok(Value::bool(!self.eval_eqi(lhs, i)?.to_bool())),
+        }
     }
 
     eval_cmp_i!(eval_gei, ge, _GE);
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 8e02471..c0f03e4 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -41,7 +41,7 @@ impl VM {
             #[cfg(not(tarpaulin_include))]
             macro_rules! cmp {
                 ($eval:ident) => {{
-                    let val = Value::bool(self.$eval()?);
+                    let val = self.$eval()?;
                     self.stack_push(val);
                 }};
             }
@@ -51,7 +51,7 @@ impl VM {
                 ($eval:ident) => {{
                     let lhs = self.stack_pop();
                     let i = self.pc.read32() as i32;
-                    let v = Value::bool(self.$eval(lhs, i)?);
+                    let v = self.$eval(lhs, i)?;
                     self.stack_push(v);
                 }};
             }
@@ -59,7 +59,7 @@ impl VM {
             #[cfg(not(tarpaulin_include))]
             macro_rules! jmp_cmp {
                 ($eval:ident) => {{
-                    let b = self.$eval()?;
+                    let b = self.$eval()?.to_bool();
                     self.jmp_cond(b);
                 }};
             }
@@ -69,7 +69,7 @@ impl VM {
                 ($eval:ident) => {{
                     let lhs = self.stack_pop();
                     let i = self.pc.read32() as i32;
-                    let b = self.$eval(lhs, i)?;
+                    let b = self.$eval(lhs, i)?.to_bool();
                     self.jmp_cond(b);
                 }};
             }
-- 
2.43.0


From 97e579ed87da685bb672be603982c8495a1b9ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:04 +0000
Subject: [PATCH 51/87] fix: instances of subclasses of builtin classes had the
 builtin class, their operators were ignored by operator expressions,
 instances of subclasses of Struct classes panicked; ! != !~ [] []= were not
 methods, operators ** ^ ~ ! -@ could not be defined, Float#mod

---
 ruruby-parse/src/parser.rs         |  8 +++--
 ruruby-parse/src/parser/lexer.rs   |  6 ++++
 ruruby/src/builtin/enumerator.rs   |  3 +-
 ruruby/src/builtin/fiber.rs        |  3 +-
 ruruby/src/builtin/float.rs        | 14 +++++++-
 ruruby/src/builtin/hash.rs         | 20 ++++++++++-
 ruruby/src/builtin/object.rs       | 20 +++++++++++
 ruruby/src/builtin/procobj.rs      |  5 ++-
 ruruby/src/builtin/range.rs        |  6 ++--
 ruruby/src/builtin/regexp.rs       |  3 +-
 ruruby/src/builtin/structobj.rs    | 25 +++++++++-----
 ruruby/src/vm/executor/ops.rs      | 55 +++++++++++++++++++-----------
 ruruby/src/vm/executor/opt_core.rs |  2 +-
 13 files changed, 131 insertions(+), 39 deletions(-)

diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index d7d0ce3..f561db8 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -428,9 +428,13 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     /// Return IdentId of the operator.
     fn parse_op_definable(&mut self, punct: &Punct) -> Result<IdentId, ParseErr> {
         // TODO: must support
-        // ^
-        // **   ~   +@  -@   ` !  !~
+        // +@   `   !~
         match punct {
+            Punct::Minus if self.lexer.consume_at() => Ok(IdentId::get_id("-@")),
+            Punct::BitNot => Ok(IdentId::get_id("~")),
+            Punct::Not => Ok(IdentId::get_id("!")),
+            Punct::DMul => Ok(IdentId::_POW),
+            Punct::BitXor => Ok(IdentId::get_id("^")),
             Punct::Plus => Ok(IdentId::_ADD),
             Punct::Minus => Ok(IdentId::_SUB),
             Punct::Mul => Ok(IdentId::_MUL),
diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index f7d4646..014e7b7 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -611,6 +611,12 @@ impl<'a> Lexer<'a> {
     /// Check method name extension.
     /// Parse "xxxx=" as a valid mathod name.
     /// "xxxx!=" or "xxxx?=" is invalid.
+    /// Consume '@' which immediately follows an operator. (`-@`)
+    pub(crate) fn consume_at(&mut self) -> bool {
+        self.flush();
+        self.consume('@')
+    }
+
     pub(crate) fn read_method_ext(&mut self, s: &str) -> Result<IdentId, ParseErr> {
         self.flush();
         let id =
diff --git a/ruruby/src/builtin/enumerator.rs b/ruruby/src/builtin/enumerator.rs
index d1da93d..0604746 100644
--- a/ruruby/src/builtin/enumerator.rs
+++ b/ruruby/src/builtin/enumerator.rs
@@ -17,7 +17,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
 
 // Class methods
 
-fn enum_new(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
+fn enum_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_min(1)?;
     if args.block.is_some() {
         return Err(RubyError::argument("Block is not allowed."));
@@ -36,6 +36,7 @@ fn enum_new(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         (method, new_args)
     };
     let val = vm.create_enumerator(method, receiver, new_args)?;
+    val.set_class(self_val.into_module());
     Ok(val)
 }
 
diff --git a/ruruby/src/builtin/fiber.rs b/ruruby/src/builtin/fiber.rs
index d0fb522..84c2508 100644
--- a/ruruby/src/builtin/fiber.rs
+++ b/ruruby/src/builtin/fiber.rs
@@ -14,9 +14,10 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
 
 // Class methods
 
-fn new(vm: &mut VM, _self_val: Value, args: &Args2) -> VMResult {
+fn new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let val = Value::fiber(vm, args.expect_block()?);
+    val.set_class(self_val.into_module());
     Ok(val)
 }
 
diff --git a/ruruby/src/builtin/float.rs b/ruruby/src/builtin/float.rs
index 20e19ed..1263b5f 100644
--- a/ruruby/src/builtin/float.rs
+++ b/ruruby/src/builtin/float.rs
@@ -5,10 +5,12 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     let mut class = Module::class_under(BuiltinClass::numeric());
     BUILTINS.with(|m| m.borrow_mut().float = class.into());
     globals.set_toplevel_constant("Float", class);
+    class.add_builtin_method_by_str(globals, "+@", plus);
+    class.add_builtin_method_by_str(globals, "-@", minus);
     class.add_builtin_method_by_str(globals, "%", rem);
     class.add_builtin_method_by_str(globals, "div", quotient);
     class.add_builtin_method_by_str(globals, "**", exp);
-    class.add_builtin_method_by_str(globals, "mod", exp);
+    class.add_builtin_method_by_str(globals, "mod", rem);
     class.add_builtin_method_by_str(globals, "<=>", cmp);
     class.add_builtin_method_by_str(globals, "floor", floor);
     class.add_builtin_method_by_str(globals, "abs", abs);
@@ -54,6 +56,16 @@ fn infinite(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     })
 }
 
+fn plus(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    Ok(self_val)
+}
+
+fn minus(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    Ok(Value::float(-self_val.as_float().unwrap()))
+}
+
 fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let f = self_val.as_float().unwrap();
diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 52e140d..263ffc3 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -3,6 +3,8 @@ use crate::*;
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("Hash", class);
+    class.add_builtin_method_by_str(globals, "[]", get_elem);
+    class.add_builtin_method_by_str(globals, "[]=", set_elem);
     class.add_builtin_method_by_str(globals, "to_s", inspect);
     class.add_builtin_method_by_str(globals, "inspect", inspect);
     class.add_builtin_method_by_str(globals, "clear", clear);
@@ -43,15 +45,31 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
 
 // Class methods
 
-fn hash_new(_: &mut VM, _: Value, args: &Args2) -> VMResult {
+fn hash_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
+    let class = self_val.into_module();
     let map = FxIndexMap::default();
     let hash = Value::hash_from_map(map);
+    hash.set_class(class);
+    vm.eval_initialize(class, hash, args)?;
     Ok(hash)
 }
 
 // Instance methods
 
+fn get_elem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let hash = self_val.as_hash().unwrap();
+    Ok(hash.get(&vm[0]).cloned().unwrap_or_default())
+}
+
+fn set_elem(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(2)?;
+    let (key, val) = (vm[0], vm[1]);
+    self_val.as_mut_hash().unwrap().insert(key, val);
+    Ok(val)
+}
+
 fn inspect(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let hash = self_val.as_hash().unwrap();
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 913f53d..28951cf 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -13,6 +13,9 @@ pub(crate) fn init(globals: &mut Globals) {
     object.add_builtin_method_by_str(globals, "equal?", equal);
     object.add_builtin_method_by_str(globals, "==", eq);
     object.add_builtin_method_by_str(globals, "===", teq);
+    object.add_builtin_method_by_str(globals, "!=", ne);
+    object.add_builtin_method_by_str(globals, "!", not);
+    object.add_builtin_method_by_str(globals, "!~", not_match);
     object.add_builtin_method_by_str(globals, "=~", match_); // This method is deprecated from Ruby 2.6.
     object.add_builtin_method_by_str(globals, "<=>", cmp);
     object.add_builtin_method_by_str(globals, "eql?", eql);
@@ -330,6 +333,23 @@ fn respond_to(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::bool(b))
 }
 
+fn ne(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let b = vm.eval_eq_op(vm[0], self_val)?.to_bool();
+    Ok(Value::bool(!b))
+}
+
+fn not(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    Ok(Value::bool(!self_val.to_bool()))
+}
+
+fn not_match(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(1)?;
+    let res = vm.eval_send1(IdentId::get_id("=~"), self_val, vm[0])?;
+    Ok(Value::bool(!res.to_bool()))
+}
+
 fn match_(_: &mut VM, _: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     Ok(Value::nil())
diff --git a/ruruby/src/builtin/procobj.rs b/ruruby/src/builtin/procobj.rs
index 25795fb..06a4c75 100644
--- a/ruruby/src/builtin/procobj.rs
+++ b/ruruby/src/builtin/procobj.rs
@@ -47,9 +47,12 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
 
 // Class methods
 
-fn proc_new(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
+fn proc_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let block = args.expect_block()?;
     let procobj = vm.create_proc(block);
+    if let Block::Block(..) = block {
+        procobj.set_class(self_val.into_module());
+    }
     Ok(procobj)
 }
 
diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index 8eb35e9..a306d12 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -57,12 +57,14 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.into()
 }
 
-fn range_new(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
+fn range_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let len = args.len();
     args.check_args_range(2, 3)?;
     let (start, end) = (vm[0], vm[1]);
     let exclude_end = if len == 2 { false } else { vm[2].to_bool() };
-    vm.create_range(start, end, exclude_end)
+    let range = vm.create_range(start, end, exclude_end)?;
+    range.set_class(self_val.into_module());
+    Ok(range)
 }
 
 fn to_s(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index 9a2ac61..097ca5f 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -453,12 +453,13 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
 /// Regexp.new(string, option=nil, code=nil) -> Regexp
 /// Regexp.compile(string, option=nil, code=nil) -> Regexp
 /// https://docs.ruby-lang.org/ja/latest/method/Regexp/s/compile.html
-fn regexp_new(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
+fn regexp_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let mut arg0 = vm[0];
     let string = arg0.expect_string("1st arg")?;
     // `^` and `$` match at any line as well as those in literals.
     let val = Value::regexp_from(vm, &format!("(?m){}", string))?;
+    val.set_class(self_val.into_module());
     Ok(val)
 }
 
diff --git a/ruruby/src/builtin/structobj.rs b/ruruby/src/builtin/structobj.rs
index fb20d80..c63423d 100644
--- a/ruruby/src/builtin/structobj.rs
+++ b/ruruby/src/builtin/structobj.rs
@@ -62,10 +62,23 @@ fn struct_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(class.into())
 }
 
+/// Get the member list of a struct object, which belongs to its class or one of the superclasses.
+fn get_members(vm: &VM, self_val: Value) -> Option<Value> {
+    let id = IdentId::get_id("/members");
+    let mut class = vm.globals.get_class(self_val);
+    loop {
+        match class.get_var(id) {
+            Some(members) => return Some(members),
+            None => class = class.superclass()?,
+        }
+    }
+}
+
 fn initialize(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    let class = vm.globals.get_class(self_val);
-    let name = class.get_var(IdentId::get_id("/members")).unwrap();
-    let members = name.into_array();
+    let members = match get_members(vm, self_val) {
+        Some(members) => members.into_array(),
+        None => return Err(RubyError::internal("No /members.")),
+    };
     if members.len() < args.len() {
         return Err(RubyError::argument("Struct size differs."));
     };
@@ -84,11 +97,7 @@ fn inspect(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
         Some(name) => inspect += &name,
         None => {}
     };
-    let name = match vm
-        .globals
-        .get_class(self_val)
-        .get_var(IdentId::get_id("/members"))
-    {
+    let name = match get_members(vm, self_val) {
         Some(name) => name,
         None => return Err(RubyError::internal("No /members.")),
     };
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index d12ff61..069e75e 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -170,11 +170,12 @@ impl VM {
                 return Ok(VMResKind::Return(val));
             }
         }
-        if let Some(mut ainfo) = lhs.as_array() {
-            ainfo.push(rhs);
-            Ok(VMResKind::Return(lhs))
-        } else {
-            self.invoke_send1(IdentId::_SHL, lhs, rhs)
+        match lhs.as_array() {
+            Some(mut ainfo) if is_instance(lhs.rvalue(), BuiltinClass::array()) => {
+                ainfo.push(rhs);
+                Ok(VMResKind::Return(lhs))
+            }
+            _ => self.invoke_send1(IdentId::_SHL, lhs, rhs),
         }
     }
 
@@ -249,6 +250,13 @@ impl VM {
     }
 }
 
+/// Check whether *oref* is a direct instance of *class*.
+/// Subclasses and singleton classes may have their own operators.
+#[inline(always)]
+fn is_instance(oref: &RValue, class: Module) -> bool {
+    oref.class().id() == class.id()
+}
+
 macro_rules! eval_cmp {
     ($func_name:ident, $op:ident, $id:ident) => {
         pub(super) fn $func_name(&mut self) -> VMResult {
@@ -490,7 +498,7 @@ impl VM {
     }
 
     /// Evaluate `lhs == rhs`.
-    fn eval_eq_op(&mut self, rhs: Value, lhs: Value) -> VMResult {
+    pub(crate) fn eval_eq_op(&mut self, rhs: Value, lhs: Value) -> VMResult {
         match lhs.as_rvalue() {
             // The value of user-defined `==` is not necessarily a bool.
             Some(oref) if oref.kind() == ObjKind::ORDINARY => {
@@ -500,18 +508,25 @@ impl VM {
         }
     }
 
+    /// Evaluate `!lhs`.
+    pub(super) fn eval_not(&mut self, lhs: Value) -> VMResult {
+        match lhs.as_rvalue() {
+            // An object of user-defined class may have its own `!`.
+            Some(oref) if oref.kind() == ObjKind::ORDINARY => {
+                self.eval_send0(IdentId::get_id("!"), lhs)
+            }
+            _ => Ok(Value::bool(!lhs.to_bool())),
+        }
+    }
+
     /// Evaluate `lhs != rhs`.
     fn eval_ne_op(&mut self, rhs: Value, lhs: Value) -> VMResult {
         match lhs.as_rvalue() {
             Some(oref) if oref.kind() == ObjKind::ORDINARY => {
-                let class = self.globals.get_class_for_method(lhs);
-                if self.globals.methods.find_method(class, IdentId::_NEQ).is_some() {
-                    return self.eval_send1(IdentId::_NEQ, lhs, rhs);
-                }
+                self.eval_send1(IdentId::_NEQ, lhs, rhs)
             }
-            _ => {}
+            _ => Ok(Value::bool(!self.eval_eq2(rhs, lhs)?)),
         }
-        Ok(Value::bool(!self.eval_eq_op(rhs, lhs)?.to_bool()))
     }
 
     eval_cmp!(eval_ge, ge, _GE);
@@ -575,11 +590,11 @@ impl VM {
         match receiver.as_mut_rvalue() {
             Some(oref) => {
                 match oref.kind() {
-                    ObjKind::ARRAY => {
+                    ObjKind::ARRAY if is_instance(oref, BuiltinClass::array()) => {
                         oref.array_mut().set_elem1(idx, val)?;
                         return Ok(VMResKind::Return(val));
                     }
-                    ObjKind::HASH => {
+                    ObjKind::HASH if is_instance(oref, BuiltinClass::hash()) => {
                         oref.rhash_mut().insert(idx, val);
                         return Ok(VMResKind::Return(val));
                     }
@@ -597,11 +612,11 @@ impl VM {
         match receiver.as_mut_rvalue() {
             Some(oref) => {
                 match oref.kind() {
-                    ObjKind::ARRAY => {
+                    ObjKind::ARRAY if is_instance(oref, BuiltinClass::array()) => {
                         oref.array_mut().set_elem_imm(idx as usize, val);
                         return Ok(VMResKind::Return(val));
                     }
-                    ObjKind::HASH => {
+                    ObjKind::HASH if is_instance(oref, BuiltinClass::hash()) => {
                         oref.rhash_mut().insert(Value::fixnum(idx as i64), val);
                         return Ok(VMResKind::Return(val));
                     }
@@ -622,11 +637,11 @@ impl VM {
     pub(super) fn invoke_get_index(&mut self, receiver: Value, idx: Value) -> InvokeResult {
         if let Some(oref) = receiver.as_rvalue() {
             match oref.kind() {
-                ObjKind::ARRAY => {
+                ObjKind::ARRAY if is_instance(oref, BuiltinClass::array()) => {
                     let val = oref.array().get_elem1(idx)?;
                     return Ok(VMResKind::Return(val));
                 }
-                ObjKind::HASH => {
+                ObjKind::HASH if is_instance(oref, BuiltinClass::hash()) => {
                     let val = oref.rhash().get(&idx).cloned().unwrap_or_default();
                     return Ok(VMResKind::Return(val));
                 }
@@ -639,11 +654,11 @@ impl VM {
     pub(super) fn invoke_get_index_imm(&mut self, receiver: Value, idx: u32) -> InvokeResult {
         match receiver.as_rvalue() {
             Some(oref) => match oref.kind() {
-                ObjKind::ARRAY => {
+                ObjKind::ARRAY if is_instance(oref, BuiltinClass::array()) => {
                     let val = oref.array().get_elem_imm(idx as usize);
                     return Ok(VMResKind::Return(val));
                 }
-                ObjKind::HASH => {
+                ObjKind::HASH if is_instance(oref, BuiltinClass::hash()) => {
                     let val = oref
                         .rhash()
                         .get(&Value::fixnum(idx as i64))
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index c0f03e4..59ec603 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -192,7 +192,7 @@ impl VM {
                     }
                     Inst::NOT => {
                         let lhs = self.stack_pop();
-                        let val = Value::bool(!lhs.to_bool());
+                        let val = self.eval_not(lhs)?;
                         self.stack_push(val);
                     }
                     Inst::RESCUE => {
-- 
2.43.0


From 09bf1f4a747cd7bfe2eae2e417afc66e7895799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:35 +0000
Subject: [PATCH 52/87] fix: yield was not an operand, precedence of <=>,
 symbols before == and =~, ranges evaluated their end first, singleton methods
 of undefined variables, locations in non-ASCII sources, identifiers before
 trailing spaces at the end of input

---
 ruruby-common/src/source_info.rs      | 104 +++++++++++---------------
 ruruby-parse/src/parser/define.rs     |   7 +-
 ruruby-parse/src/parser/expression.rs |  71 ++++++++++++------
 ruruby-parse/src/parser/lexer.rs      |   9 ++-
 ruruby/src/codegen.rs                 |   2 +-
 ruruby/src/vm/executor/opt_core.rs    |   2 +-
 6 files changed, 107 insertions(+), 88 deletions(-)

diff --git a/ruruby-common/src/source_info.rs b/ruruby-common/src/source_info.rs
index 3719e5e..e19fa15 100644
--- a/ruruby-common/src/source_info.rs
+++ b/ruruby-common/src/source_info.rs
@@ -62,28 +62,39 @@ impl SourceInfo {
         eprint!("{}", self.get_location(loc));
     }
 
-    fn get_next_char(&self, pos: usize) -> Option<char> {
-        self.code[pos..].chars().next()
+    /// The smallest character boundary which is not less than `pos`.
+    fn boundary(&self, pos: usize) -> usize {
+        let mut pos = std::cmp::min(pos, self.code.len());
+        while !self.code.is_char_boundary(pos) {
+            pos += 1;
+        }
+        pos
+    }
+
+    /// Get the part of source code from `start` up to (but not including) `end`.
+    fn get_slice(&self, start: usize, end: usize) -> &str {
+        let (start, end) = (self.boundary(start), self.boundary(end));
+        if start < end {
+            &self.code[start..end]
+        } else {
+            ""
+        }
     }
 
     pub fn get_lines(&self, loc: &Loc) -> Vec<Line> {
         let mut line_top = 0;
+        let mut line_no = 1;
         let code_len = self.code.len();
-        let mut lines: Vec<_> = self
-            .code
-            .char_indices()
-            .filter(|(_, ch)| *ch == '\n')
-            .map(|(pos, _)| pos)
-            .enumerate()
-            .map(|(idx, pos)| {
-                let top = line_top;
-                line_top = pos + 1;
-                Line::new(idx + 1, top, pos)
-            })
-            .filter(|line| line.end >= loc.0 && line.top <= loc.1)
-            .collect();
+        let mut lines = vec![];
+        for (pos, _) in self.code.match_indices('\n') {
+            if pos >= loc.0 && line_top <= loc.1 {
+                lines.push(Line::new(line_no, line_top, pos));
+            }
+            line_top = pos + 1;
+            line_no += 1;
+        }
         if line_top < code_len && (code_len - 1) >= loc.0 && line_top <= loc.1 {
-            lines.push(Line::new(lines.len() + 1, line_top, code_len - 1));
+            lines.push(Line::new(line_no, line_top, code_len - 1));
         }
         lines
     }
@@ -94,52 +105,27 @@ impl SourceInfo {
             return "(internal)".to_string();
         }
         let mut res_string = String::new();
-        let lines = self.get_lines(loc);
-        let mut found = false;
-        for line in &lines {
-            if !found {
+        let mut lines = self.get_lines(loc);
+        if lines.is_empty() {
+            // The location is the end of the source code.
+            res_string += "NOT FOUND\n";
+            lines = self.get_lines(&Loc(self.code.len() - 1, self.code.len() - 1));
+        }
+        for (i, line) in lines.iter().enumerate() {
+            if i == 0 {
                 res_string += &format!("{}:{}\n", self.path.to_string_lossy(), line.no);
-                found = true;
             };
-
-            let start = line.top;
-            let mut end = line.end;
-            if self.get_next_char(end) == Some('\n') && end > 0 {
-                end -= 1
-            }
-            res_string += &self.code[start..=end];
+            let text = self.get_slice(line.top, line.end + 1);
+            let line_end = line.top + text.trim_end_matches('\n').len();
+            res_string += self.get_slice(line.top, line_end);
             res_string.push('\n');
-            use std::cmp::*;
-            let lead = if loc.0 <= line.top {
-                0
-            } else {
-                console::measure_text_width(&self.code[start..loc.0])
-            };
-            let range_start = max(loc.0, line.top);
-            let range_end = min(loc.1, line.end);
-            let length = console::measure_text_width(&self.code[range_start..=range_end]);
-            res_string += &" ".repeat(lead);
-            res_string += &"^".repeat(length);
-            res_string += "\n";
-        }
-
-        if !found {
-            res_string += "NOT FOUND\n";
-            let line = match lines.last() {
-                Some(line) => (line.no + 1, line.end + 1, loc.1),
-                None => (1, 0, loc.1),
-            };
-            let lead = console::measure_text_width(&self.code[line.1..loc.0]);
-            let length = console::measure_text_width(&self.code[loc.0..loc.1]);
-            let is_cr = loc.1 >= self.code.len() || self.get_next_char(loc.1) == Some('\n');
-            res_string += &format!("{}:{}\n", self.path.to_string_lossy(), line.0);
-            res_string += if !is_cr {
-                &self.code[line.1..=loc.1]
-            } else {
-                &self.code[line.1..loc.1]
-            };
-            res_string += &" ".repeat(lead);
-            res_string += &"^".repeat(length + 1);
+            let lead = self.get_slice(line.top, std::cmp::min(loc.0, line_end));
+            let range = self.get_slice(
+                std::cmp::max(loc.0, line.top),
+                std::cmp::min(loc.1 + 1, line_end),
+            );
+            res_string += &" ".repeat(console::measure_text_width(lead));
+            res_string += &"^".repeat(std::cmp::max(console::measure_text_width(range), 1));
             res_string += "\n";
         }
         res_string
diff --git a/ruruby-parse/src/parser/define.rs b/ruruby-parse/src/parser/define.rs
index 907e298..d95bfeb 100644
--- a/ruruby-parse/src/parser/define.rs
+++ b/ruruby-parse/src/parser/define.rs
@@ -43,8 +43,13 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                     || self.consume_punct_no_term(Punct::Scope)?
                 {
                     let id = IdentId::get_id(s);
+                    let singleton = if self.is_local_var(id) {
+                        Node::new_lvar(id, loc)
+                    } else {
+                        Node::new_identifier(s, loc)
+                    };
                     (
-                        Some(Node::new_lvar(id, loc)),
+                        Some(singleton),
                         self.lexer.read_method_name(true)?.0,
                     )
                 } else {
diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 7ff9710..4171875 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -196,18 +196,27 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         term: impl Into<Option<Punct>>,
     ) -> Result<Vec<Node>, ParseErr> {
         let term = term.into();
-        let old = (self.suppress_mul_assign, self.suppress_bitor);
+        let old = (
+            self.suppress_mul_assign,
+            self.suppress_bitor,
+            self.suppress_do_block,
+        );
         // multiple assignment must be suppressed in parsing arg list.
         self.suppress_mul_assign = true;
         if term.is_some() {
             self.suppress_bitor = false;
+            self.suppress_do_block = false;
         }
 
         let mut args = vec![];
         loop {
             if let Some(term) = term {
                 if self.consume_punct(term)? {
-                    (self.suppress_mul_assign, self.suppress_bitor) = old;
+                    (
+            self.suppress_mul_assign,
+            self.suppress_bitor,
+            self.suppress_do_block,
+        ) = old;
                     return Ok(args);
                 }
             };
@@ -224,7 +233,11 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                 break;
             }
         }
-        (self.suppress_mul_assign, self.suppress_bitor) = old;
+        (
+            self.suppress_mul_assign,
+            self.suppress_bitor,
+            self.suppress_do_block,
+        ) = old;
         if let Some(term) = term {
             self.expect_punct(term)?;
         };
@@ -328,6 +341,9 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         } else if self.consume_punct_no_term(Punct::TEq)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::TEq, lhs, rhs))
+        } else if self.consume_punct_no_term(Punct::Cmp)? {
+            let rhs = self.parse_arg_comp()?;
+            Ok(Node::new_binop(BinOp::Cmp, lhs, rhs))
         } else if self.consume_punct_no_term(Punct::Match)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Match, lhs, rhs))
@@ -359,9 +375,6 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             } else if self.consume_punct_no_term(Punct::Lt)? {
                 let rhs = self.parse_arg_bitor()?;
                 lhs = Node::new_binop(BinOp::Lt, lhs, rhs);
-            } else if self.consume_punct_no_term(Punct::Cmp)? {
-                let rhs = self.parse_arg_bitor()?;
-                lhs = Node::new_binop(BinOp::Cmp, lhs, rhs);
             } else {
                 break;
             }
@@ -567,13 +580,14 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     }
 
     fn parse_method_call(&mut self) -> Result<Node, ParseErr> {
-        if self.consume_reserved(Reserved::Yield)? {
-            return self.parse_yield();
-        }
         // 一次式メソッド呼び出し
         // スコープ付き定数参照 :: 一次式 [行終端子禁止][空白類禁止] "::" 定数識別子
         //      ｜"::" 定数識別子
-        let mut node = self.parse_primary(false)?;
+        let mut node = if self.consume_reserved(Reserved::Yield)? {
+            self.parse_yield()?
+        } else {
+            self.parse_primary(false)?
+        };
         loop {
             node = if self.consume_punct(Punct::Dot)? {
                 self.parse_primary_method(node, false)?
@@ -600,19 +614,13 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
 
     fn parse_yield(&mut self) -> Result<Node, ParseErr> {
         let loc = self.prev_loc();
-        let tok = self.peek_no_term()?;
-        // TODO: This is not correct.
-        if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
-            || tok.check_stmt_end()
-        {
-            return Ok(Node::new_yield(ArgList::default(), loc));
-        };
-        let args = if self.consume_punct(Punct::LParen)? {
+        let args = if self.lexer.trailing_lparen() {
+            self.consume_punct(Punct::LParen)?;
             self.parse_arglist(Punct::RParen)?
-        } else {
+        } else if self.is_command() {
             self.parse_arglist(None)?
+        } else {
+            ArgList::default()
         };
         Ok(Node::new_yield(args, loc))
     }
@@ -891,14 +899,23 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     /// punct: punctuator for terminating arg list. Set None for unparenthesized argument list.
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, ParseErr> {
         let punct = punct.into();
-        let old = (self.suppress_mul_assign, self.suppress_bitor);
+        let old = (
+            self.suppress_mul_assign,
+            self.suppress_bitor,
+            self.suppress_do_block,
+        );
         if punct.is_some() {
             // rhs of an assignment in the list ends at a comma.
             self.suppress_mul_assign = true;
             self.suppress_bitor = false;
+            self.suppress_do_block = false;
         }
         let res = self.parse_arglist_elems(punct);
-        (self.suppress_mul_assign, self.suppress_bitor) = old;
+        (
+            self.suppress_mul_assign,
+            self.suppress_bitor,
+            self.suppress_do_block,
+        ) = old;
         res
     }
 
@@ -935,6 +952,12 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                     let mut kvp = vec![(node, value)];
                     if self.consume_punct(Punct::Comma)? {
                         loop {
+                            if let Some(punct) = punct {
+                                if self.consume_punct(punct)? {
+                                    arglist.args.push(Node::new_hash(kvp, loc));
+                                    return Ok(arglist);
+                                }
+                            }
                             let key = self.parse_arg()?;
                             self.expect_punct(Punct::FatArrow)?;
                             let value = self.parse_arg()?;
@@ -1088,7 +1111,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         };
         if self.lexer.trailing_space() {
             match tok.kind {
-                TokenKind::LineTerm => false,
+                TokenKind::LineTerm | TokenKind::Eof => false,
                 TokenKind::Punct(p) => match p {
                     Punct::LParen
                     | Punct::LBracket
diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 014e7b7..fd28635 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -535,7 +535,9 @@ impl<'a> Lexer<'a> {
                 Some(ch)
                     if (ch == '!' && self.peek2() != Some('='))
                         || ch == '?'
-                        || (allow_assign_like && ch == '=' && self.peek2() != Some('>')) =>
+                        || (allow_assign_like
+                            && ch == '='
+                            && !matches!(self.peek2(), Some('>' | '=' | '~'))) =>
                 {
                     self.get().unwrap();
                 }
@@ -620,7 +622,10 @@ impl<'a> Lexer<'a> {
     pub(crate) fn read_method_ext(&mut self, s: &str) -> Result<IdentId, ParseErr> {
         self.flush();
         let id =
-            if !(s.ends_with(&['!', '?'][..])) && self.peek2() != Some('>') && self.consume('=') {
+            if !(s.ends_with(&['!', '?'][..]))
+                && !matches!(self.peek2(), Some('>' | '=' | '~'))
+                && self.consume('=')
+            {
                 IdentId::get_id(&format!("{}=", s))
             } else {
                 IdentId::get_id(s)
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 39af73a..99383a1 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -928,8 +928,8 @@ impl Codegen {
                     }
                 } else {
                     iseq.gen_val(Value::bool(exclude_end));
-                    self.gen(globals, iseq, *end, true)?;
                     self.gen(globals, iseq, *start, true)?;
+                    self.gen(globals, iseq, *end, true)?;
                     iseq.push(Inst::CREATE_RANGE);
                     self.save_loc(iseq, node_loc);
                     if !use_value {
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 59ec603..8f1fed2 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -390,8 +390,8 @@ impl VM {
                         self.stack_push(val);
                     }
                     Inst::CREATE_RANGE => {
-                        let start = self.stack_pop();
                         let end = self.stack_pop();
+                        let start = self.stack_pop();
                         let exclude_end = self.stack_pop().to_bool();
                         let range = self.create_range(start, end, exclude_end)?;
                         self.stack_push(range);
-- 
2.43.0


From 434814e5a3c0482a5f814615c34f3528d73cb1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:30 +0000
Subject: [PATCH 53/87] fix: user-defined ==, !=, === and ! of subclasses of
 builtin classes were ignored by operator expressions, comparisons without a
 method in conditions panicked, !~ used ! of the result, operators of Complex
 and Float panicked for other operands, huge indices panicked

---
 ruruby-parse/src/parser/expression.rs |  7 ++-
 ruruby/src/arith.rs                   |  2 +-
 ruruby/src/builtin/complex.rs         | 17 +++++--
 ruruby/src/builtin/numeric.rs         | 25 ++++++----
 ruruby/src/builtin/object.rs          |  9 +++-
 ruruby/src/builtin/regexp.rs          |  2 +-
 ruruby/src/codegen.rs                 |  5 +-
 ruruby/src/value/array.rs             | 13 +++++
 ruruby/src/vm/executor/ops.rs         | 68 ++++++++++++++++++++++-----
 9 files changed, 117 insertions(+), 31 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 4171875..9e0a3b9 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -350,8 +350,11 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         } else if self.consume_punct_no_term(Punct::Unmatch)? {
             let rhs = self.parse_arg_comp()?;
             let loc = lhs.loc().merge(rhs.loc());
-            let node = Node::new_binop(BinOp::Match, lhs, rhs);
-            Ok(Node::new_unop(UnOp::Not, node, loc))
+            // `!~` is a method.
+            let id = IdentId::get_id("!~");
+            let mut arglist = ArgList::default();
+            arglist.args.push(rhs);
+            Ok(Node::new_send(lhs, id, arglist, false, loc))
         } else {
             Ok(lhs)
         }
diff --git a/ruruby/src/arith.rs b/ruruby/src/arith.rs
index 1eb1ab9..6ddb1e8 100644
--- a/ruruby/src/arith.rs
+++ b/ruruby/src/arith.rs
@@ -69,7 +69,7 @@ pub(crate) fn rem_float(lhsf: f64, rhs: Value) -> VMResult {
         }
         Value::float(rem_floorf64(lhsf, rhs.to_f64().unwrap()))
     } else {
-        unreachable!()
+        return Err(VMError::cant_coerse(rhs, "Float"));
     };
     Ok(val)
 }
diff --git a/ruruby/src/builtin/complex.rs b/ruruby/src/builtin/complex.rs
index 61c28e4..842e265 100644
--- a/ruruby/src/builtin/complex.rs
+++ b/ruruby/src/builtin/complex.rs
@@ -8,6 +8,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "*", mul);
     class.add_builtin_method_by_str(globals, "/", div);
     class.add_builtin_method_by_str(globals, "==", eq);
+    class.add_builtin_method_by_str(globals, "!=", ne);
     class.add_builtin_method_by_str(globals, "abs2", abs2);
     class.add_builtin_method_by_str(globals, "abs", abs);
     class.add_builtin_method_by_str(globals, "rect", rect);
@@ -76,6 +77,10 @@ fn div(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         None => return Err(RubyError::typeerr("Not a real.")),
     };
     let abs2 = r2.clone().exp2() + i2.clone().exp2();
+    // Only the division of Integers fails. (Float conforms to IEEE 754)
+    if matches!(abs2, Real::Integer(0)) {
+        return Err(RubyError::zero_div("Divided by zero."));
+    }
     let r = (r2.clone() * r1.clone() + i2.clone() * i1.clone()) / abs2.clone();
     let i = (r2 * i1 - r1 * i2) / abs2;
     Ok(Value::complex(r.into_val(), i.into_val()))
@@ -84,14 +89,18 @@ fn div(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let (r1, i1) = self_val.to_complex().unwrap();
-    let (r2, i2) = match vm[0].to_complex() {
-        Some(t) => t,
-        None => return Err(RubyError::typeerr("Not a real.")),
+    let b = match vm[0].to_complex() {
+        Some((r2, i2)) => r1 == r2 && i1 == i2,
+        None => false,
     };
-    let b = r1 == r2 && i1 == i2;
     Ok(Value::bool(b))
 }
 
+fn ne(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    let b = eq(vm, self_val, args)?.to_bool();
+    Ok(Value::bool(!b))
+}
+
 fn abs2(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let (r, i) = self_val.to_complex().unwrap();
diff --git a/ruruby/src/builtin/numeric.rs b/ruruby/src/builtin/numeric.rs
index b6679d4..f7f08f3 100644
--- a/ruruby/src/builtin/numeric.rs
+++ b/ruruby/src/builtin/numeric.rs
@@ -124,11 +124,20 @@ fn div(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 }
 
 macro_rules! define_cmp {
-    ($op:ident) => {
+    ($op:ident, $name:expr) => {
         fn $op(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             args.check_args_num(1)?;
             let arg0 = vm[0];
-            let lhs = self_val.to_real().unwrap();
+            let lhs = match self_val.to_real() {
+                Some(lhs) => lhs,
+                // Complex numbers have no order.
+                None => {
+                    return Err(VMError::undefined_method(
+                        IdentId::get_id($name),
+                        self_val,
+                    ))
+                }
+            };
             match arg0.to_real() {
                 Some(rhs) => return Ok(Value::bool(lhs.$op(&rhs))),
                 _ => {
@@ -143,12 +152,12 @@ macro_rules! define_cmp {
     };
 }
 
-define_cmp!(ge);
-define_cmp!(gt);
-define_cmp!(le);
-define_cmp!(lt);
-define_cmp!(eq);
-define_cmp!(ne);
+define_cmp!(ge, ">=");
+define_cmp!(gt, ">");
+define_cmp!(le, "<=");
+define_cmp!(lt, "<");
+define_cmp!(eq, "==");
+define_cmp!(ne, "!=");
 
 #[cfg(test)]
 mod tests {
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 28951cf..63cb421 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -206,7 +206,7 @@ fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
             | ObjKind::RANGE
             | ObjKind::HASH
             | ObjKind::REGEXP
-            | ObjKind::TIME => vm.eval_eq2(arg0, self_val)?,
+            | ObjKind::TIME => vm.eval_eq_builtin(arg0, self_val)?,
             _ => self_val.id() == arg0.id(),
         },
         _ => self_val.id() == arg0.id(),
@@ -216,7 +216,12 @@ fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    Ok(Value::bool(vm.eval_eq2(vm[0], self_val)?))
+    let b = match self_val.as_rvalue() {
+        // String has its own `===`.
+        Some(oref) if oref.kind() == ObjKind::STRING => vm.eval_eq_builtin(vm[0], self_val)?,
+        _ => vm.eval_eq2(vm[0], self_val)?,
+    };
+    Ok(Value::bool(b))
 }
 
 fn send(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index 097ca5f..ea5536a 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -505,7 +505,7 @@ fn regexp_match(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn regexp_teq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    Ok(Value::bool(vm.eval_teq(vm[0], self_val)?))
+    Ok(Value::bool(vm.teq_regexp(self_val.rvalue(), vm[0])?))
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 99383a1..4824433 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -786,8 +786,9 @@ impl Codegen {
                     };
                     iseq.push(inst);
                     iseq.push32(i as u32);
-                    iseq.push32(0);
+                    // The comparison is evaluated before the displacement is read.
                     self.save_loc(iseq, cond.loc);
+                    iseq.push32(0);
                 } else {
                     self.gen(globals, iseq, *rhs, true)?;
                     let inst = match op {
@@ -800,8 +801,8 @@ impl Codegen {
                         _ => unreachable!(),
                     };
                     iseq.push(inst);
-                    iseq.push32(0);
                     self.save_loc(iseq, cond.loc);
+                    iseq.push32(0);
                 }
                 iseq.current()
             }
diff --git a/ruruby/src/value/array.rs b/ruruby/src/value/array.rs
index 769b5e5..7b2d030 100644
--- a/ruruby/src/value/array.rs
+++ b/ruruby/src/value/array.rs
@@ -140,6 +140,16 @@ impl std::ops::DerefMut for ArrayInfo {
     }
 }
 
+/// The size of an array must be within this limit.
+const ARRAY_MAX_SIZE: usize = isize::MAX as usize / 16;
+
+fn check_array_size(index: usize) -> Result<(), RubyError> {
+    if index >= ARRAY_MAX_SIZE {
+        return Err(RubyError::index(format!("Index {} too big.", index)));
+    }
+    Ok(())
+}
+
 impl ArrayInfo {
     #[inline(always)]
     pub fn new(vec: Vec<Value>) -> Self {
@@ -306,6 +316,7 @@ impl ArrayInfo {
         } else {
             let index = args[0].coerce_to_fixnum("Index")?;
             let index = self.get_array_index(index)?;
+            check_array_size(index)?;
             let length = args[1].coerce_to_fixnum("Length")?;
             if length < 0 {
                 return Err(RubyError::index(format!("Negative length. {}", length)));
@@ -317,6 +328,7 @@ impl ArrayInfo {
     pub(crate) fn set_elem1(&mut self, idx: Value, val: Value) -> VMResult {
         if let Some(index) = idx.as_fixnum() {
             if index >= 0 {
+                check_array_size(index as usize)?;
                 self.set_elem_imm(index as usize, val);
             } else {
                 let index = self.get_array_index(index)?;
@@ -328,6 +340,7 @@ impl ArrayInfo {
                 let i = range.start.coerce_to_fixnum("Start of the range")?;
                 self.get_array_index(i)?
             };
+            check_array_size(first)?;
             let last = {
                 let i = match range.end.coerce_to_fixnum("End of the range")? {
                     i if i < 0 => self.len() as i64 + i,
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 069e75e..16dbf8e 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -310,11 +310,14 @@ macro_rules! eval_cmp_i {
 impl VM {
     pub(super) fn invoke_teq(&mut self) -> InvokeResult {
         let (lhs, rhs) = self.stack_pop2();
+        if self.has_own_op(lhs, IdentId::_TEQ) {
+            return self.invoke_send1(IdentId::_TEQ, lhs, rhs);
+        }
         let b = match lhs.as_rvalue() {
             Some(oref) => match oref.kind() {
                 ObjKind::REGEXP => self.teq_regexp(oref, rhs)?,
-                ObjKind::STRING
-                | ObjKind::ARRAY
+                ObjKind::STRING => self.eval_eq_builtin(rhs, lhs)?,
+                ObjKind::ARRAY
                 | ObjKind::HASH
                 | ObjKind::BIGNUM
                 | ObjKind::FLOAT
@@ -326,7 +329,7 @@ impl VM {
         Ok(VMResKind::Return(Value::bool(b)))
     }
 
-    fn teq_regexp(&mut self, oref: &RValue, rhs: Value) -> Result<bool, RubyError> {
+    pub(crate) fn teq_regexp(&mut self, oref: &RValue, rhs: Value) -> Result<bool, RubyError> {
         let re = &*oref.regexp();
         let given = match rhs.unpack() {
             RV::Symbol(sym) => sym.get_name(),
@@ -349,11 +352,15 @@ impl VM {
     }
 
     pub(crate) fn eval_teq(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
+        if self.has_own_op(lhs, IdentId::_TEQ) {
+            let v = self.eval_send1(IdentId::_TEQ, lhs, rhs)?;
+            return Ok(v.to_bool());
+        }
         match lhs.as_rvalue() {
             Some(oref) => match oref.kind() {
                 ObjKind::REGEXP => self.teq_regexp(oref, rhs),
-                ObjKind::STRING
-                | ObjKind::ARRAY
+                ObjKind::STRING => self.eval_eq_builtin(rhs, lhs),
+                ObjKind::ARRAY
                 | ObjKind::HASH
                 | ObjKind::BIGNUM
                 | ObjKind::FLOAT
@@ -367,6 +374,34 @@ impl VM {
         }
     }
 
+    /// Whether `id` of *val*, which is an instance of a class derived from a builtin class,
+    /// is a user-defined method.
+    fn has_own_op(&mut self, val: Value, id: IdentId) -> bool {
+        let oref = match val.as_rvalue() {
+            Some(oref) => oref,
+            None => return false,
+        };
+        let builtin = match oref.kind() {
+            ObjKind::ORDINARY | ObjKind::BIGNUM | ObjKind::FLOAT | ObjKind::COMPLEX => {
+                return false
+            }
+            ObjKind::STRING => Some(BuiltinClass::string()),
+            ObjKind::ARRAY => Some(BuiltinClass::array()),
+            ObjKind::HASH => Some(BuiltinClass::hash()),
+            ObjKind::RANGE => Some(BuiltinClass::range()),
+            ObjKind::REGEXP => Some(BuiltinClass::regexp()),
+            ObjKind::INVALID => return false,
+            _ => None,
+        };
+        match builtin {
+            Some(class) if is_instance(oref, class) => false,
+            _ => match self.globals.methods.find_method(oref.class(), id) {
+                Some(fid) => matches!(self.globals.methods[fid], MethodInfo::RubyFunc { .. }),
+                None => false,
+            },
+        }
+    }
+
     /// Equality of Value.
     ///
     /// This kind of equality is used for `==` method (or operator) of Ruby.
@@ -377,6 +412,14 @@ impl VM {
     ///
     /// ex. 3.0 == 3.
     pub(crate) fn eval_eq2(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
+        if lhs.id() != rhs.id() && self.has_own_op(lhs, IdentId::_EQ) {
+            return Ok(self.eval_send1(IdentId::_EQ, lhs, rhs)?.to_bool());
+        }
+        self.eval_eq_builtin(rhs, lhs)
+    }
+
+    /// Equality of Value, ignoring user-defined `==` of *lhs*.
+    pub(crate) fn eval_eq_builtin(&mut self, rhs: Value, lhs: Value) -> Result<bool, RubyError> {
         if let Some(lhsi) = lhs.as_fixnum() {
             if let Some(rhsi) = rhs.as_fixnum() {
                 return Ok(lhsi == rhsi);
@@ -504,7 +547,8 @@ impl VM {
             Some(oref) if oref.kind() == ObjKind::ORDINARY => {
                 self.eval_send1(IdentId::_EQ, lhs, rhs)
             }
-            _ => Ok(Value::bool(self.eval_eq2(rhs, lhs)?)),
+            _ if self.has_own_op(lhs, IdentId::_EQ) => self.eval_send1(IdentId::_EQ, lhs, rhs),
+            _ => Ok(Value::bool(self.eval_eq_builtin(rhs, lhs)?)),
         }
     }
 
@@ -515,6 +559,9 @@ impl VM {
             Some(oref) if oref.kind() == ObjKind::ORDINARY => {
                 self.eval_send0(IdentId::get_id("!"), lhs)
             }
+            _ if self.has_own_op(lhs, IdentId::get_id("!")) => {
+                self.eval_send0(IdentId::get_id("!"), lhs)
+            }
             _ => Ok(Value::bool(!lhs.to_bool())),
         }
     }
@@ -525,7 +572,8 @@ impl VM {
             Some(oref) if oref.kind() == ObjKind::ORDINARY => {
                 self.eval_send1(IdentId::_NEQ, lhs, rhs)
             }
-            _ => Ok(Value::bool(!self.eval_eq2(rhs, lhs)?)),
+            _ if self.has_own_op(lhs, IdentId::_NEQ) => self.eval_send1(IdentId::_NEQ, lhs, rhs),
+            _ => Ok(Value::bool(!self.eval_eq_op(rhs, lhs)?.to_bool())),
         }
     }
 
@@ -556,10 +604,8 @@ impl VM {
     }
     pub(super) fn eval_nei(&mut self, lhs: Value, i: i32) -> VMResult {
         match lhs.as_rvalue() {
-            Some(oref) if oref.kind() == ObjKind::ORDINARY => {
-                self.eval_ne_op(Value::integer(i as i64), lhs)
-            }
-            _ => Ok(Value::bool(!self.eval_eqi(lhs, i)?.to_bool())),
+            Some(_) => self.eval_ne_op(Value::integer(i as i64), lhs),
+            None => Ok(Value::bool(!self.eval_eqi(lhs, i)?.to_bool())),
         }
     }
 
-- 
2.43.0


From 42826ad17a5113269b0c9dc848355ab297716287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:06 +0000
Subject: [PATCH 54/87] fix: tokens after an invalid literal were read from the
 middle of it, calls with arguments and names ending with ? or ! were accepted
 as targets of assignments

---
 ruruby-parse/src/parser/expression.rs | 12 ++++++++++++
 ruruby-parse/src/parser/lexer.rs      | 17 ++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 9e0a3b9..50d58b1 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -1091,6 +1091,18 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
 
     /// Check whether `lhs` is a local variable or not.
     fn check_lhs(&mut self, lhs: &Node) -> Result<(), ParseErr> {
+        // Only a variable or an attribute can be assigned.
+        let is_valid = |id: &IdentId| !id.get_name().ends_with(['?', '!']);
+        let valid = match &lhs.kind {
+            NodeKind::Ident(id) => is_valid(id),
+            NodeKind::Send {
+                method, arglist, ..
+            } => *arglist == ArgList::default() && is_valid(method),
+            _ => true,
+        };
+        if !valid {
+            return Err(error_unexpected(lhs.loc(), "Invalid assignment target."));
+        }
         if let NodeKind::Ident(id) = lhs.kind {
             self.add_local_var_if_new(id);
         } else if let NodeKind::Const { .. } = lhs.kind {
diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index fd28635..5d60df9 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -154,8 +154,10 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let tok = self.read_token()?;
+        let res = self.read_token();
+        // The state must be restored even if an error occured.
         self.restore_state(save);
+        let tok = res?;
         self.buf = Some(tok.clone());
         Ok(tok)
     }
@@ -165,14 +167,15 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let mut tok;
-        loop {
-            tok = self.read_token()?;
-            if tok.is_eof() || !tok.is_line_term() {
-                break;
+        let res = loop {
+            match self.read_token() {
+                Ok(tok) if !tok.is_eof() && tok.is_line_term() => {}
+                res => break res,
             }
-        }
+        };
+        // The state must be restored even if an error occured.
         self.restore_state(save);
+        let tok = res?;
         self.buf_skip_lt = Some(tok.clone());
         Ok(tok)
     }
-- 
2.43.0


From 4743cf73cc28061d705760daae7ed7fe2e05c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:20 +0000
Subject: [PATCH 55/87] fix: all classes of a rescue list were evaluated before
 matching, === of classes and modules was not called by rescue, non-modules in
 rescue lists did not raise TypeError

---
 ruruby/src/codegen.rs              | 19 +++++++++++-----
 ruruby/src/vm/executor.rs          | 36 +++++++++++++++++++++---------
 ruruby/src/vm/executor/opt_core.rs |  4 ++--
 3 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/ruruby/src/codegen.rs b/ruruby/src/codegen.rs
index 4824433..4f24334 100644
--- a/ruruby/src/codegen.rs
+++ b/ruruby/src/codegen.rs
@@ -1325,21 +1325,30 @@ impl Codegen {
                         if let Some(prev) = prev {
                             iseq.write_disp_from_cur(prev);
                         }
-                        iseq.gen_dup(1);
+                        // The first matching class ends the evaluation of the list.
+                        let mut matched = vec![];
                         if !exception_list.is_empty() {
-                            let len = exception_list.len();
                             for ex in exception_list {
+                                let loc = ex.loc;
+                                iseq.gen_dup(1);
                                 self.gen(globals, iseq, ex, true)?;
+                                iseq.push(Inst::RESCUE);
+                                iseq.push32(1);
+                                self.save_loc(iseq, loc);
+                                matched.push(iseq.gen_jmp_if_t());
                             }
-                            iseq.push(Inst::RESCUE);
-                            iseq.push32(len as u32);
                         } else {
                             // When no error_type were given, use "StandardError".
+                            iseq.gen_dup(1);
                             self.emit_get_const_top(iseq, IdentId::get_id("StandardError"));
                             iseq.push(Inst::RESCUE);
                             iseq.push32(1);
+                            matched.push(iseq.gen_jmp_if_t());
+                        }
+                        prev = Some(iseq.gen_jmp());
+                        for src in matched {
+                            iseq.write_disp_from_cur(src);
                         }
-                        prev = Some(iseq.gen_jmp_if_f());
                         // assign the error value.
                         match assign {
                             Some(assign) => self.gen_assign(globals, iseq, *assign)?,
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index bd647d8..e5073bc 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -717,16 +717,32 @@ impl VM {
 }
 
 impl VM {
-    fn eval_rescue(&self, val: Value, exceptions: &[Value]) -> bool {
-        let is_rescued = |class: &Value| match class.if_mod_class() {
-            Some(class) if val.is_class() => Module::new(val).include_module(class),
-            Some(_) => self.globals.kind_of(val, *class),
-            None => false,
-        };
-        exceptions.iter().any(|x| match x.as_splat() {
-            Some(ary) => ary.as_array().unwrap().iter().any(is_rescued),
-            None => is_rescued(x),
-        })
+    fn eval_rescue(&mut self, val: Value, exceptions: &[Value]) -> Result<bool, RubyError> {
+        for x in exceptions {
+            let list = match x.as_splat() {
+                Some(ary) => ary.as_array().unwrap().to_vec(),
+                None => vec![*x],
+            };
+            for class in list {
+                let module = match class.if_mod_class() {
+                    Some(module) => module,
+                    None => {
+                        return Err(RubyError::typeerr(
+                            "class or module required for rescue clause",
+                        ))
+                    }
+                };
+                let is_rescued = if val.is_class() {
+                    Module::new(val).include_module(module)
+                } else {
+                    self.eval_teq(val, class)?
+                };
+                if is_rescued {
+                    return Ok(true);
+                }
+            }
+        }
+        Ok(false)
     }
 
     /// Generate new class object with `super_val` as a superclass.
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 8f1fed2..4dc026d 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -198,8 +198,8 @@ impl VM {
                     Inst::RESCUE => {
                         let len = self.pc.read32() as usize;
                         let val = (self.stack.sp - len - 1)[0];
-                        let ex = &(self.stack.sp - len)[0..len];
-                        let b = self.eval_rescue(val, ex);
+                        let ex = (self.stack.sp - len)[0..len].to_vec();
+                        let b = self.eval_rescue(val, &ex)?;
                         self.stack.sp -= len + 1;
                         self.stack_push(Value::bool(b));
                     }
-- 
2.43.0


From 79c1fb782a0135060a23924277640c990cdd6814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:20 +0000
Subject: [PATCH 56/87] fix: StopIteration was not an IndexError and LoadError
 not a ScriptError

---
 ruruby/src/builtin/exception.rs | 6 +++---
 ruruby/src/startup/startup.rb   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ruruby/src/builtin/exception.rs b/ruruby/src/builtin/exception.rs
index 144bf1a..c3b1642 100644
--- a/ruruby/src/builtin/exception.rs
+++ b/ruruby/src/builtin/exception.rs
@@ -27,8 +27,8 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     let err = Module::class_under(standard_error);
     globals.set_toplevel_constant("ArgumentError", err);
 
-    let err = Module::class_under(standard_error);
-    globals.set_toplevel_constant("IndexError", err);
+    let index_error = Module::class_under(standard_error);
+    globals.set_toplevel_constant("IndexError", index_error);
 
     let err = Module::class_under(standard_error);
     globals.set_toplevel_constant("RegexpError", err);
@@ -47,7 +47,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     let err = Module::class_under(standard_error);
     globals.set_toplevel_constant("ZeroDivisionError", err);
 
-    let err = Module::class_under(standard_error);
+    let err = Module::class_under(index_error);
     globals.set_toplevel_constant("StopIteration", err);
 
     let err = Module::class_under(standard_error);
diff --git a/ruruby/src/startup/startup.rb b/ruruby/src/startup/startup.rb
index 849736c..081a2bd 100644
--- a/ruruby/src/startup/startup.rb
+++ b/ruruby/src/startup/startup.rb
@@ -87,7 +87,7 @@ class FloatDomainError < RangeError
 end
 class ZeroDivisionError < StandardError
 end
-class LoadError < StandardError
+class LoadError < ScriptError
 end
 class NameError < StandardError
 end
-- 
2.43.0


From eac310c267bc501746f89972b7dec7b8de944afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:09 +0000
Subject: [PATCH 57/87] fix: rescue accepted neither then without a class nor
 elements and attributes as its variable

---
 ruruby-parse/src/parser/expression.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ruruby-parse/src/parser/expression.rs b/ruruby-parse/src/parser/expression.rs
index 50d58b1..9978288 100644
--- a/ruruby-parse/src/parser/expression.rs
+++ b/ruruby-parse/src/parser/expression.rs
@@ -1021,12 +1021,14 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             };
             let mut assign = None;
             let mut exception = vec![];
-            if !self.consume_term()? {
+            if self.consume_term()? || self.peek_no_term()?.kind == TokenKind::Reserved(Reserved::Then) {
+                self.consume_reserved(Reserved::Then)?;
+            } else {
                 if !self.peek_punct_no_term(Punct::FatArrow) {
                     exception = self.parse_mul_assign_rhs(None)?;
                 };
                 if self.consume_punct_no_term(Punct::FatArrow)? {
-                    let lhs = self.parse_primary(true)?;
+                    let lhs = self.parse_method_call()?;
                     self.check_lhs(&lhs)?;
                     assign = Some(lhs);
                 }
-- 
2.43.0


From 5e7812eaf6028528ee49e7ed7642facd99a66992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:10 +0000
Subject: [PATCH 58/87] fix: constants and class variables were looked up by
 the class of self instead of the lexical scope, scoped constants were not
 inherited, constant caches survived include and prepend

---
 ruruby/src/value/class.rs           |  2 ++
 ruruby/src/vm/executor.rs           | 49 +++++++++++++----------------
 ruruby/src/vm/executor/constants.rs | 41 ++++++++++++++----------
 3 files changed, 49 insertions(+), 43 deletions(-)

diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 58b0f38..07ed9bb 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -524,6 +524,7 @@ impl ClassInfo {
     pub(crate) fn append_include(&mut self, globals: &mut Globals, module: Module) {
         self.append_include_without_increment_version(module);
         globals.methods.inc_class_version();
+        globals.const_version += 1;
     }
 
     pub(crate) fn append_include_without_increment_version(&mut self, module: Module) {
@@ -543,6 +544,7 @@ impl ClassInfo {
         }
         self.insert_modules(module, false);
         globals.methods.inc_class_version();
+        globals.const_version += 1;
     }
 
     /// The included class which stands for `self` in the ancestors, if some modules were prepended to `self`.
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index e5073bc..75d5f07 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -567,22 +567,11 @@ impl VM {
 
     /// Get class list in the current context.
     ///
-    /// At first, this method searches the class list of outer context,
-    /// and adds a class given as an argument `new_class` on the top of the list.
-    /// return None in top-level.
+    /// This method adds a class given as an argument `new_module` to the list of the classes
+    /// which lexically enclose the current context.
     fn get_class_defined(&self, new_module: impl Into<Module>) -> Vec<Module> {
-        let mut cfp = Some(self.cfp);
-        let mut v = vec![new_module.into()];
-        while let Some(f) = cfp {
-            if f.is_ruby_func() {
-                let iseq = f.ep().iseq();
-                if iseq.is_classdef() {
-                    v.push(Module::new(f.self_value()));
-                }
-            }
-            cfp = f.prev();
-        }
-        v.reverse();
+        let mut v = self.get_method_iseq().class_defined.clone();
+        v.push(new_module.into());
         v
     }
 }
@@ -667,15 +656,25 @@ impl VM {
 
 // Handling class variables.
 impl VM {
-    fn set_class_var(&self, id: IdentId, val: Value) -> Result<(), RubyError> {
-        if self.self_value().id() == self.globals.main_object.id() {
-            return Err(RubyError::runtime("class varable access from toplevel."));
+    /// Get the innermost class in the current context, which class variables belong to.
+    fn class_var_base(&self) -> Result<Module, RubyError> {
+        match self
+            .get_method_iseq()
+            .class_defined
+            .iter()
+            .rev()
+            .find(|m| !m.is_singleton())
+        {
+            Some(m) => Ok(*m),
+            None => Err(RubyError::runtime("class varable access from toplevel.")),
         }
-        let self_val = self.self_value();
-        let org_class = self.globals.get_class_if_object(self_val);
+    }
+
+    fn set_class_var(&self, id: IdentId, val: Value) -> Result<(), RubyError> {
+        let mut org_class = self.class_var_base()?;
         let mut class = org_class;
         loop {
-            if class.set_var_if_exists(id, val) {
+            if class.real_module().set_var_if_exists(id, val) {
                 return Ok(());
             } else {
                 match class.upper() {
@@ -690,13 +689,9 @@ impl VM {
     }
 
     fn get_class_var(&self, id: IdentId) -> VMResult {
-        if self.self_value().id() == self.globals.main_object.id() {
-            return Err(RubyError::runtime("class varable access from toplevel."));
-        }
-        let self_val = self.self_value();
-        let mut class = self.globals.get_class_if_object(self_val);
+        let mut class = self.class_var_base()?;
         loop {
-            match class.get_var(id) {
+            match class.real_module().get_var(id) {
                 Some(val) => {
                     return Ok(val);
                 }
diff --git a/ruruby/src/vm/executor/constants.rs b/ruruby/src/vm/executor/constants.rs
index de74462..acb3269 100644
--- a/ruruby/src/vm/executor/constants.rs
+++ b/ruruby/src/vm/executor/constants.rs
@@ -7,21 +7,19 @@ impl VM {
     /// Search class inheritance chain of `class` for a constant `id`, returning the value.
     /// Returns name error if the constant was not defined.
     pub(crate) fn get_super_const(&mut self, mut class: Module, id: IdentId) -> VMResult {
-        let is_module = class.is_module();
+        let mut is_module = class.is_module();
         let object = self.globals.classes.object;
         loop {
             match self.get_mut_const(class, id)? {
                 Some(val) => return Ok(val),
                 None => match class.upper() {
                     Some(upper) => class = upper,
-                    None => {
-                        if is_module {
-                            if let Some(v) = self.get_mut_const(object, id)? {
-                                return Ok(v);
-                            }
-                        }
-                        return Err(RubyError::uninitialized_constant(id));
+                    None if is_module => {
+                        // Search Object too, if a module was given.
+                        class = object;
+                        is_module = false;
                     }
+                    None => return Err(RubyError::uninitialized_constant(id)),
                 },
             }
         }
@@ -42,27 +40,38 @@ impl VM {
 }
 
 impl VM {
-    /// Search lexical class stack and then, search class inheritance chain for a constant `id`,
-    /// returning the value.
+    /// Search lexical class stack and then, search class inheritance chain of the innermost class
+    /// for a constant `id`, returning the value.
     /// Returns error if the constant was not defined, or autoload failed.
     pub(super) fn find_const(&mut self, id: IdentId) -> VMResult {
         match self.get_lexical_const(id)? {
             Some(v) => Ok(v),
             None => {
-                let self_val = self.self_value();
-                let class = self.globals.get_class(self_val);
+                let class = match self.get_method_iseq().class_defined.last() {
+                    Some(class) => *class,
+                    None => self.globals.classes.object,
+                };
                 self.get_super_const(class, id)
             }
         }
     }
 
-    /// Search constant table of `parent` for a constant `id`.
+    /// Search class inheritance chain of `parent`, except for Object and its ancestors, for a constant `id`.
     /// If the constant was found, returns the value.
     /// Returns error if the constant was not defined or an autoload failed.
     pub(super) fn get_scope(&mut self, parent: Module, id: IdentId) -> VMResult {
-        match self.get_mut_const(parent, id)? {
-            Some(val) => Ok(val),
-            None => Err(RubyError::uninitialized_constant(id)),
+        let object = self.globals.classes.object;
+        let mut class = parent;
+        loop {
+            if let Some(val) = self.get_mut_const(class, id)? {
+                return Ok(val);
+            }
+            match class.upper() {
+                Some(upper) if upper.id() != object.id() || parent.id() == object.id() => {
+                    class = upper
+                }
+                _ => return Err(RubyError::uninitialized_constant(id)),
+            }
         }
     }
 
-- 
2.43.0


From 6970054e9bafef59bb7d1b7fdcf4ac3f1ed0050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:55 +0000
Subject: [PATCH 59/87] fix: instance variables were listed in an arbitrary
 order

---
 ruruby/src/globals.rs      | 2 +-
 ruruby/src/value/rvalue.rs | 2 +-
 ruruby/src/vm/executor.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 1d8214c..660d85d 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -70,7 +70,7 @@ impl Globals {
         let main_object = Value::ordinary_object(object);
         let mut globals = Globals {
             const_values: ConstantValues::new(),
-            global_var: FxHashMap::default(),
+            global_var: FxIndexMap::default(),
             const_cache: ConstCache::new(),
             main_fiber: None,
             instant: std::time::Instant::now(),
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index 9e4e6b6..f1c04b6 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -849,7 +849,7 @@ impl RValue {
         match &mut self.var_table {
             Some(table) => table.insert(id, val),
             None => {
-                let mut table = FxHashMap::default();
+                let mut table = FxIndexMap::default();
                 let v = table.insert(id, val);
                 self.var_table = Some(Box::new(table));
                 v
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 75d5f07..91fc7d2 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -16,7 +16,7 @@ mod ops;
 mod opt_core;
 pub mod repl;
 
-pub type ValueTable = FxHashMap<IdentId, Value>;
+pub type ValueTable = FxIndexMap<IdentId, Value>;
 pub type VMResult = Result<Value, RubyError>;
 pub type InvokeResult = Result<VMResKind, RubyError>;
 
-- 
2.43.0


From 5404660ed456e5cb4f21d3eea6b50c4844085d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:14 +0000
Subject: [PATCH 60/87] fix: builtin methods raise exceptions for unexpected
 receivers and arguments instead of panicking

Undefined allocators, instance variables of immediates, comparison of
incomparable objects, bignum iteration, UnboundMethod#bind to an unrelated
receiver.
---
 ruruby/src/builtin/binding.rs        |  1 +
 ruruby/src/builtin/class.rs          | 14 ++++
 ruruby/src/builtin/comparable.rs     | 61 +++++++----------
 ruruby/src/builtin/complex.rs        |  2 +
 ruruby/src/builtin/float.rs          |  2 +
 ruruby/src/builtin/integer.rs        | 97 ++++++++++++++++++++++++++--
 ruruby/src/builtin/method.rs         |  2 +
 ruruby/src/builtin/module.rs         | 24 +++----
 ruruby/src/builtin/numeric.rs        | 20 ++++--
 ruruby/src/builtin/procobj.rs        |  1 +
 ruruby/src/builtin/range.rs          |  1 +
 ruruby/src/builtin/regexp.rs         |  1 +
 ruruby/src/builtin/symbol.rs         |  2 +
 ruruby/src/builtin/time.rs           |  2 +
 ruruby/src/builtin/unbound_method.rs | 20 +++++-
 ruruby/src/globals/method.rs         | 17 ++---
 16 files changed, 195 insertions(+), 72 deletions(-)

diff --git a/ruruby/src/builtin/binding.rs b/ruruby/src/builtin/binding.rs
index a3a7591..a78c3c8 100644
--- a/ruruby/src/builtin/binding.rs
+++ b/ruruby/src/builtin/binding.rs
@@ -5,6 +5,7 @@ use crate::*;
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("Binding", class);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     class.add_builtin_class_method(globals, "new", binding_new);
     class.add_builtin_method_by_str(globals, "eval", eval);
     class.add_builtin_method_by_str(globals, "irb", irb);
diff --git a/ruruby/src/builtin/class.rs b/ruruby/src/builtin/class.rs
index fc5e82c..b754736 100644
--- a/ruruby/src/builtin/class.rs
+++ b/ruruby/src/builtin/class.rs
@@ -3,6 +3,7 @@ use crate::*;
 pub(crate) fn init(globals: &mut Globals) {
     let class = BuiltinClass::class();
     globals.set_toplevel_constant("Class", class);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     class.add_builtin_class_method(globals, "new", class_new);
     class.add_builtin_method_by_str(globals, "new", new);
     class.add_builtin_method_by_str(globals, "allocate", allocate);
@@ -53,6 +54,19 @@ fn allocate(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(new_instance)
 }
 
+/// `new` of the classes which instances are made only by literals and methods.
+pub(crate) fn undef_new(_: &mut VM, self_val: Value, _: &Args2) -> VMResult {
+    Err(VMError::undefined_method(IdentId::NEW, self_val))
+}
+
+/// `allocate` of the classes which instances can not exist without initialization.
+pub(crate) fn undef_allocate(_: &mut VM, self_val: Value, _: &Args2) -> VMResult {
+    Err(RubyError::typeerr(format!(
+        "Allocator undefined for {}",
+        self_val.into_module().name()
+    )))
+}
+
 /// Get super class of `self`.
 fn superclass(_: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
     let self_val = self_val.into_module();
diff --git a/ruruby/src/builtin/comparable.rs b/ruruby/src/builtin/comparable.rs
index f69dff2..0e06822 100644
--- a/ruruby/src/builtin/comparable.rs
+++ b/ruruby/src/builtin/comparable.rs
@@ -2,6 +2,7 @@
 /// Comparable module
 ///
 use crate::*;
+use num::Signed;
 
 pub(crate) fn init(globals: &mut Globals) -> Module {
     let class = Module::module();
@@ -27,56 +28,38 @@ fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::bool(b))
 }
 
-fn le(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+/// Compare by `<=>`.
+fn compare(vm: &mut VM, self_val: Value, args: &Args2) -> Result<i64, RubyError> {
     args.check_args_num(1)?;
+    let other = vm[0];
     let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            i if i <= 0 => true,
-            _ => false,
-        },
-        None => false,
-    };
-    Ok(Value::bool(b))
+    if let Some(i) = res.as_fixnum() {
+        Ok(i)
+    } else if let Some(b) = res.as_bignum() {
+        Ok(if b.is_negative() { -1 } else { 1 })
+    } else {
+        Err(RubyError::argument(format!(
+            "Comparison of {} with {} failed.",
+            self_val.get_class_name(),
+            other.get_class_name()
+        )))
+    }
+}
+
+fn le(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    Ok(Value::bool(compare(vm, self_val, args)? <= 0))
 }
 
 fn lt(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(1)?;
-    let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            i if i < 0 => true,
-            _ => false,
-        },
-        None => unreachable!(),
-    };
-    Ok(Value::bool(b))
+    Ok(Value::bool(compare(vm, self_val, args)? < 0))
 }
 
 fn ge(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(1)?;
-    let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            i if i >= 0 => true,
-            _ => false,
-        },
-        None => false,
-    };
-    Ok(Value::bool(b))
+    Ok(Value::bool(compare(vm, self_val, args)? >= 0))
 }
 
 fn gt(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(1)?;
-    let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            i if i > 0 => true,
-            _ => false,
-        },
-        None => unreachable!(),
-    };
-    Ok(Value::bool(b))
+    Ok(Value::bool(compare(vm, self_val, args)? > 0))
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/builtin/complex.rs b/ruruby/src/builtin/complex.rs
index 842e265..1466a45 100644
--- a/ruruby/src/builtin/complex.rs
+++ b/ruruby/src/builtin/complex.rs
@@ -3,6 +3,8 @@ use crate::*;
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under(BuiltinClass::numeric());
     globals.set_toplevel_constant("Complex", class);
+    class.add_builtin_class_method(globals, "new", builtin::class::undef_new);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     class.add_builtin_method_by_str(globals, "+", add);
     class.add_builtin_method_by_str(globals, "-", sub);
     class.add_builtin_method_by_str(globals, "*", mul);
diff --git a/ruruby/src/builtin/float.rs b/ruruby/src/builtin/float.rs
index 1263b5f..5b25c62 100644
--- a/ruruby/src/builtin/float.rs
+++ b/ruruby/src/builtin/float.rs
@@ -5,6 +5,8 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     let mut class = Module::class_under(BuiltinClass::numeric());
     BUILTINS.with(|m| m.borrow_mut().float = class.into());
     globals.set_toplevel_constant("Float", class);
+    class.add_builtin_class_method(globals, "new", builtin::class::undef_new);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     class.add_builtin_method_by_str(globals, "+@", plus);
     class.add_builtin_method_by_str(globals, "-@", minus);
     class.add_builtin_method_by_str(globals, "%", rem);
diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 3a4e8e7..27c9232 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -8,6 +8,8 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under(BuiltinClass::numeric());
     BUILTINS.with(|m| m.borrow_mut().integer = class.into());
     globals.set_toplevel_constant("Integer", class);
+    class.add_builtin_class_method(globals, "new", builtin::class::undef_new);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     globals.set_toplevel_constant("Fixnum", class);
     globals.set_toplevel_constant("Bignum", class);
     class.add_builtin_method_by_str(globals, "%", rem);
@@ -386,10 +388,14 @@ fn upto(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    let num = self_val.as_fixnum().unwrap();
+    if is_bignum(&[self_val, vm[0]]) {
+        let iter = BigStep::new(self_val, vm[0], Value::fixnum(1))?;
+        return vm.eval_block_each1_iter(block, iter, self_val);
+    }
+    let num = self_val.coerce_to_fixnum("Receiver")?;
     let max = vm[0].coerce_to_fixnum("Arg")?;
     if num <= max {
-        let iter = (num..max + 1).map(|i| Value::integer(i));
+        let iter = (num..=max).map(|i| Value::integer(i));
         vm.eval_block_each1_iter(block, iter, self_val)
         //Ok(self_val)
     } else {
@@ -410,10 +416,14 @@ fn downto(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    let num = self_val.as_fixnum().unwrap();
+    if is_bignum(&[self_val, vm[0]]) {
+        let iter = BigStep::new(self_val, vm[0], Value::fixnum(-1))?;
+        return vm.eval_block_each1_iter(block, iter, self_val);
+    }
+    let num = self_val.coerce_to_fixnum("Receiver")?;
     let min = vm[0].coerce_to_fixnum("Arg")?;
     if num >= min {
-        let iter = (min..num + 1).rev().map(|i| Value::integer(i));
+        let iter = (min..=num).rev().map(|i| Value::integer(i));
         //Ok(self_val)
         vm.eval_block_each1_iter(block, iter, self_val)
     } else {
@@ -421,12 +431,62 @@ fn downto(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     }
 }
 
+fn is_bignum(values: &[Value]) -> bool {
+    values.iter().any(|v| v.as_bignum().is_some())
+}
+
+/// Steps of integers of which some do not fit in a fixnum.
+struct BigStep {
+    cur: BigInt,
+    limit: BigInt,
+    step: BigInt,
+}
+
+impl BigStep {
+    fn new(cur: Value, limit: Value, step: Value) -> Result<Self, RubyError> {
+        let to_bigint = |v: Value| match v.as_bignum() {
+            Some(b) => Ok(b.clone()),
+            None => v.coerce_to_fixnum("Arg").map(BigInt::from),
+        };
+        let step = to_bigint(step)?;
+        if step.is_zero() {
+            return Err(RubyError::argument("Step can not be 0."));
+        }
+        Ok(Self {
+            cur: to_bigint(cur)?,
+            limit: to_bigint(limit)?,
+            step,
+        })
+    }
+}
+
+impl Iterator for BigStep {
+    type Item = Value;
+    fn next(&mut self) -> Option<Self::Item> {
+        if (self.step.is_positive() && self.cur > self.limit)
+            || (self.step.is_negative() && self.cur < self.limit)
+        {
+            None
+        } else {
+            let v = Value::bignum(self.cur.clone());
+            self.cur += &self.step;
+            Some(v)
+        }
+    }
+}
+
 struct PosStep {
     cur: i64,
     limit: i64,
     step: i64, // must be > 0
 }
 
+impl PosStep {
+    fn end(&self) -> (i64, i64) {
+        (1, 0)
+    }
+}
+
 impl Iterator for PosStep {
     type Item = Value;
     fn next(&mut self) -> Option<Self::Item> {
@@ -434,7 +494,11 @@ impl Iterator for PosStep {
             None
         } else {
             let v = Value::integer(self.cur);
-            self.cur += self.step;
+            match self.cur.checked_add(self.step) {
+                Some(next) => self.cur = next,
+                // The next one is beyond any limit.
+                None => (self.cur, self.limit) = self.end(),
+            }
             Some(v)
         }
     }
@@ -446,6 +510,12 @@ struct NegStep {
     step: i64, // must be < 0
 }
 
+impl NegStep {
+    fn end(&self) -> (i64, i64) {
+        (0, 1)
+    }
+}
+
 impl Iterator for NegStep {
     type Item = Value;
     fn next(&mut self) -> Option<Self::Item> {
@@ -453,7 +523,11 @@ impl Iterator for NegStep {
             None
         } else {
             let v = Value::integer(self.cur);
-            self.cur += self.step;
+            match self.cur.checked_add(self.step) {
+                Some(next) => self.cur = next,
+                // The next one is beyond any limit.
+                None => (self.cur, self.limit) = self.end(),
+            }
             Some(v)
         }
     }
@@ -469,7 +543,16 @@ fn step(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    let cur = self_val.as_fixnum().unwrap();
+    let step = if args.len() == 2 {
+        vm[1]
+    } else {
+        Value::fixnum(1)
+    };
+    if is_bignum(&[self_val, vm[0], step]) {
+        let iter = BigStep::new(self_val, vm[0], step)?;
+        return vm.eval_block_each1_iter(block, iter, self_val);
+    }
+    let cur = self_val.coerce_to_fixnum("Receiver")?;
     let limit = vm[0].coerce_to_fixnum("Limit")?;
     let step = if args.len() == 2 {
         let step = vm[1].coerce_to_fixnum("Step")?;
diff --git a/ruruby/src/builtin/method.rs b/ruruby/src/builtin/method.rs
index 95938a1..984ad97 100644
--- a/ruruby/src/builtin/method.rs
+++ b/ruruby/src/builtin/method.rs
@@ -3,6 +3,8 @@ use crate::*;
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("Method", class);
+    class.add_builtin_class_method(globals, "new", builtin::class::undef_new);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     class.add_builtin_method_by_str(globals, "call", call);
     class.add_builtin_method_by_str(globals, "[]", call);
     class.add_builtin_method_by_str(globals, "unbind", unbind);
diff --git a/ruruby/src/builtin/module.rs b/ruruby/src/builtin/module.rs
index 4ffe43e..42ad90b 100644
--- a/ruruby/src/builtin/module.rs
+++ b/ruruby/src/builtin/module.rs
@@ -3,6 +3,7 @@ use crate::*;
 pub(crate) fn init(globals: &mut Globals) {
     let class = BuiltinClass::module();
     globals.set_toplevel_constant("Module", class);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     class.add_builtin_class_method(globals, "new", module_new);
     class.add_builtin_class_method(globals, "constants", module_constants);
 
@@ -199,18 +200,17 @@ fn autoload(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 }
 
 fn class_variables(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(1)?;
-    let inherit = vm[0].to_bool();
-    assert_eq!(inherit, false);
-    let receiver = self_val.rvalue();
-    let res = match receiver.var_table() {
-        Some(table) => table
-            .keys()
-            .filter(|x| x.is_class_var())
-            .map(|x| Value::symbol(*x))
-            .collect(),
-        None => vec![],
-    };
+    args.check_args_range(0, 1)?;
+    let inherit = args.len() == 0 || vm[0].to_bool();
+    let mut names = indexmap::IndexSet::new();
+    let mut module = Some(self_val.into_module());
+    while let Some(m) = module {
+        if let Some(table) = Into::<Value>::into(m.real_module()).rvalue().var_table() {
+            names.extend(table.keys().filter(|x| x.is_class_var()).cloned());
+        }
+        module = if inherit { m.upper() } else { None };
+    }
+    let res = names.into_iter().map(|id| Value::symbol(id)).collect();
     Ok(Value::array_from(res))
 }
 
diff --git a/ruruby/src/builtin/numeric.rs b/ruruby/src/builtin/numeric.rs
index f7f08f3..29f56e8 100644
--- a/ruruby/src/builtin/numeric.rs
+++ b/ruruby/src/builtin/numeric.rs
@@ -19,6 +19,14 @@ pub(crate) fn init(globals: &mut Globals) -> Module {
     class
 }
 
+/// Get `self_val` as a real number.
+/// An instance of Numeric or of its subclass defined by a program is not.
+fn expect_real(self_val: Value, name: &str) -> Result<Real, RubyError> {
+    self_val
+        .to_real()
+        .ok_or_else(|| VMError::undefined_method(IdentId::get_id(name), self_val))
+}
+
 // Instance methods
 fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
@@ -37,7 +45,7 @@ fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
                     format!("({:?}{:?}i)", r, i)
                 }
             }
-            None => unreachable!(),
+            None => self_val.rvalue().inspect()?,
         },
     };
     Ok(Value::string(s))
@@ -45,7 +53,7 @@ fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn add(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs = self_val.to_real().unwrap();
+    let lhs = expect_real(self_val, "+")?;
     let arg0 = vm[0];
     match arg0.to_real() {
         Some(rhs) => Ok((lhs + rhs).into_val()),
@@ -62,7 +70,7 @@ fn add(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn sub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs = self_val.to_real().unwrap();
+    let lhs = expect_real(self_val, "-")?;
     let arg0 = vm[0];
     match arg0.to_real() {
         Some(rhs) => Ok((lhs - rhs).into_val()),
@@ -79,7 +87,7 @@ fn sub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs = self_val.to_real().unwrap();
+    let lhs = expect_real(self_val, "*")?;
     let arg0 = vm[0];
     match arg0.to_real() {
         Some(rhs) => Ok((lhs * rhs).into_val()),
@@ -96,7 +104,7 @@ fn mul(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn div(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
-    let lhs = self_val.to_real().unwrap();
+    let lhs = expect_real(self_val, "/")?;
     let arg0 = vm[0];
     match arg0.to_real() {
         Some(rhs) => {
@@ -130,6 +138,8 @@ macro_rules! define_cmp {
             let arg0 = vm[0];
             let lhs = match self_val.to_real() {
                 Some(lhs) => lhs,
+                None if $name == "==" => return Ok(Value::bool(self_val.id() == arg0.id())),
+                None if $name == "!=" => return Ok(Value::bool(self_val.id() != arg0.id())),
                 // Complex numbers have no order.
                 None => {
                     return Err(VMError::undefined_method(
diff --git a/ruruby/src/builtin/procobj.rs b/ruruby/src/builtin/procobj.rs
index 06a4c75..0432cb7 100644
--- a/ruruby/src/builtin/procobj.rs
+++ b/ruruby/src/builtin/procobj.rs
@@ -35,6 +35,7 @@ impl PartialEq for ProcInfo {
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("Proc", class);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     class.add_builtin_method_by_str(globals, "to_s", inspect);
     class.add_builtin_method_by_str(globals, "inspect", inspect);
     class.add_builtin_method_by_str(globals, "call", proc_call);
diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index a306d12..5ec7a44 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -38,6 +38,7 @@ impl RangeInfo {
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("Range", class);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     class.add_builtin_method_by_str(globals, "to_s", to_s);
     class.add_builtin_method_by_str(globals, "inspect", inspect);
     class.add_builtin_method_by_str(globals, "map", map);
diff --git a/ruruby/src/builtin/regexp.rs b/ruruby/src/builtin/regexp.rs
index ea5536a..d662012 100644
--- a/ruruby/src/builtin/regexp.rs
+++ b/ruruby/src/builtin/regexp.rs
@@ -438,6 +438,7 @@ impl std::ops::Deref for RegexpInfo {
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("Regexp", class);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     class.add_builtin_class_method(globals, "new", regexp_new);
     class.add_builtin_class_method(globals, "compile", regexp_new);
     class.add_builtin_class_method(globals, "escape", regexp_escape);
diff --git a/ruruby/src/builtin/symbol.rs b/ruruby/src/builtin/symbol.rs
index 0548b48..58e6812 100644
--- a/ruruby/src/builtin/symbol.rs
+++ b/ruruby/src/builtin/symbol.rs
@@ -3,6 +3,8 @@ use crate::*;
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let symbol_class = Module::class_under_object();
     globals.set_toplevel_constant("Symbol", symbol_class);
+    symbol_class.add_builtin_class_method(globals, "new", builtin::class::undef_new);
+    symbol_class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     symbol_class.add_builtin_method_by_str(globals, "to_sym", to_sym);
     symbol_class.add_builtin_method_by_str(globals, "intern", to_sym);
     symbol_class.add_builtin_method_by_str(globals, "to_s", tos);
diff --git a/ruruby/src/builtin/time.rs b/ruruby/src/builtin/time.rs
index b37a988..b281650 100644
--- a/ruruby/src/builtin/time.rs
+++ b/ruruby/src/builtin/time.rs
@@ -51,6 +51,8 @@ impl std::ops::Add<Duration> for TimeInfo {
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("Time", class);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
+    class.add_builtin_class_method(globals, "new", time_now);
     class.add_builtin_class_method(globals, "now", time_now);
     class.add_builtin_class_method(globals, "utc", time_utc);
     class.add_builtin_class_method(globals, "gm", time_utc);
diff --git a/ruruby/src/builtin/unbound_method.rs b/ruruby/src/builtin/unbound_method.rs
index 375c0d7..c43365d 100644
--- a/ruruby/src/builtin/unbound_method.rs
+++ b/ruruby/src/builtin/unbound_method.rs
@@ -3,6 +3,8 @@ use crate::*;
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("UnboundMethod", class);
+    class.add_builtin_class_method(globals, "new", builtin::class::undef_new);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     class.add_builtin_method_by_str(globals, "bind", bind);
     class.add_builtin_method_by_str(globals, "bind_call", bind_call);
     class.add_builtin_method_by_str(globals, "clone", clone);
@@ -11,9 +13,23 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.into()
 }
 
+/// A method of a class can be bound only to its instances.
+fn check_receiver(vm: &VM, owner: Module, receiver: Value) -> Result<(), RubyError> {
+    let owner = owner.real_module();
+    if owner.is_module() || vm.globals.kind_of(receiver, owner.into()) {
+        Ok(())
+    } else {
+        Err(RubyError::typeerr(format!(
+            "bind argument must be an instance of {}",
+            owner.name()
+        )))
+    }
+}
+
 pub(crate) fn bind(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let method = self_val.as_unbound_method().unwrap();
+    check_receiver(vm, method.owner, vm[0])?;
     let res = Value::method(method.name, vm[0], method.method, method.owner);
     Ok(res)
 }
@@ -24,7 +40,9 @@ pub(crate) fn bind_call(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult
     let (mut src, mut len) = vm.args_range();
     src += 1;
     len -= 1;
-    let args = Args2::new(len);
+    check_receiver(vm, method.owner, vm[0])?;
+    let mut args = args.clone();
+    args.set_len(len);
     let res = vm.eval_method_range(method.method, vm[0], src, len, &args)?;
     Ok(res)
 }
diff --git a/ruruby/src/globals/method.rs b/ruruby/src/globals/method.rs
index b6de7ca..0006972 100644
--- a/ruruby/src/globals/method.rs
+++ b/ruruby/src/globals/method.rs
@@ -597,15 +597,16 @@ impl ISeqInfo {
     }
 
     pub fn get_loc(&self, pc: ISeqPos) -> Loc {
-        match self.iseq_sourcemap.iter().find(|x| x.0 == pc) {
+        // Not all instructions have an entry: use that of the nearest one which follows.
+        match self
+            .iseq_sourcemap
+            .iter()
+            .filter(|x| x.0.into_usize() >= pc.into_usize())
+            .min_by_key(|x| x.0.into_usize())
+            .or(self.iseq_sourcemap.last())
+        {
             Some((_, loc)) => *loc,
-            None => {
-                panic!(
-                    "Bad sourcemap. pc={} {:?}",
-                    pc.into_usize(),
-                    self.iseq_sourcemap
-                );
-            }
+            None => Loc(0, 0),
         }
     }
 }
-- 
2.43.0


From 1c299428097f8827de80a54d6460fa9e4c3dbb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:14 +0000
Subject: [PATCH 61/87] fix: raise SystemStackError instead of overflowing the
 stacks, and cope with recursive objects

The stack of VM (8192 values) was overrun by deep recursion or large splats,
and the machine stack by nested blocks and builtin methods.
Also: Symbol blocks, binary strings, copies of fibers and enumerators, FrozenError.
---
 ruruby-common/src/error.rs                  | 15 +++++
 ruruby/src/builtin/array.rs                 | 52 ++++++++--------
 ruruby/src/builtin/enumerator.rs            |  1 +
 ruruby/src/builtin/exception.rs             |  3 +
 ruruby/src/builtin/fiber.rs                 |  1 +
 ruruby/src/builtin/hash.rs                  | 10 ++-
 ruruby/src/builtin/kernel.rs                | 14 +++--
 ruruby/src/builtin/object.rs                | 50 ++++++++++++---
 ruruby/src/builtin/string.rs                | 49 +++++++++------
 ruruby/src/builtin/structobj.rs             | 22 ++++---
 ruruby/src/coroutine.rs                     |  2 +
 ruruby/src/coroutine/stack.rs               | 51 ++++++++++++++++
 ruruby/src/globals.rs                       |  8 +++
 ruruby/src/value/hash.rs                    | 18 ++++--
 ruruby/src/value/rvalue.rs                  | 37 +++++++----
 ruruby/src/value/value.rs                   | 61 ++++++++++++++++--
 ruruby/src/vm/executor.rs                   | 68 ++++++++++++++++++---
 ruruby/src/vm/executor/frame.rs             |  7 ++-
 ruruby/src/vm/executor/frame/arg_handler.rs | 12 +++-
 ruruby/src/vm/executor/frame/ruby_stack.rs  | 35 ++++++++---
 ruruby/src/vm/executor/method.rs            | 29 ++++++---
 ruruby/src/vm/executor/ops.rs               |  8 +++
 ruruby/src/vm/executor/opt_core.rs          | 33 +++++-----
 23 files changed, 454 insertions(+), 132 deletions(-)

diff --git a/ruruby-common/src/error.rs b/ruruby-common/src/error.rs
index 50e2006..0134df4 100644
--- a/ruruby-common/src/error.rs
+++ b/ruruby-common/src/error.rs
@@ -69,6 +69,8 @@ pub enum RuntimeErrKind {
     Range,
     ZeroDivision,
     DomainError,
+    Frozen,
+    SystemStack,
 }
 
 impl std::fmt::Debug for RuntimeErrKind {
@@ -88,6 +90,8 @@ impl std::fmt::Debug for RuntimeErrKind {
             Self::Range => write!(f, "RangeError"),
             Self::ZeroDivision => write!(f, "ZeroDivisionError"),
             Self::DomainError => write!(f, "Math::DomainError"),
+            Self::Frozen => write!(f, "FrozenError"),
+            Self::SystemStack => write!(f, "SystemStackError"),
         }
     }
 }
@@ -255,6 +259,17 @@ impl RubyError {
         RubyError::new_runtime_err(RuntimeErrKind::Range, msg.into())
     }
 
+    pub fn system_stack() -> RubyError {
+        RubyError::new_runtime_err(
+            RuntimeErrKind::SystemStack,
+            "stack level too deep".to_string(),
+        )
+    }
+
+    pub fn frozen(msg: impl Into<String>) -> RubyError {
+        RubyError::new_runtime_err(RuntimeErrKind::Frozen, msg.into())
+    }
+
     pub fn zero_div(msg: impl Into<String>) -> RubyError {
         RubyError::new_runtime_err(RuntimeErrKind::ZeroDivision, msg.into())
     }
diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 17e445b..0303804 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -136,24 +136,20 @@ fn array_elem(vm: &mut VM, self_val: Value, _: &Args2) -> VMResult {
 // Instance methods
 
 fn inspect(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
-    fn checked_inspect(vm: &mut VM, self_val: Value, elem: Value) -> Result<String, RubyError> {
-        if elem.id() == self_val.id() {
-            Ok("[...]".to_string())
-        } else {
-            vm.val_inspect(elem)
-        }
-    }
     let ary = self_val.into_array();
-    let s = match ary.len() {
-        0 => "[]".to_string(),
-        len => {
-            let mut result = checked_inspect(vm, self_val, ary[0])?;
-            for i in 1..len {
-                result = format!("{}, {}", result, checked_inspect(vm, self_val, ary[i])?);
+    let s = vm.inspect_guard(self_val, "[...]", |vm| {
+        let mut result = "[".to_string();
+        let mut i = 0;
+        while i < ary.len() {
+            if i != 0 {
+                result += ", ";
             }
-            format! {"[{}]", result}
+            result += &vm.val_inspect(ary[i])?;
+            i += 1;
         }
-    };
+        result += "]";
+        Ok(result)
+    })?;
     Ok(Value::string(s))
 }
 
@@ -922,17 +918,21 @@ fn zip(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn grep(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let aref = self_val.into_array();
-    let ary = match &args.block {
-        None => aref
-            .iter()
-            .filter_map(|x| match vm.eval_teq(*x, vm[0]) {
-                Ok(true) => Some(*x),
-                _ => None,
-            })
-            .collect(),
-        _ => unimplemented!(),
-    };
-    Ok(Value::array_from(ary))
+    let pattern = vm[0];
+    let len = vm.temp_len();
+    let mut i = 0;
+    while i < aref.len() {
+        let elem = aref[i];
+        if vm.eval_teq(elem, pattern)? {
+            let res = match &args.block {
+                None => elem,
+                Some(block) => vm.eval_block1(block, elem)?,
+            };
+            vm.temp_push(res);
+        }
+        i += 1;
+    }
+    Ok(Value::array_from(vm.temp_pop_vec(len)))
 }
 
 /// ## instance method Array#sort
diff --git a/ruruby/src/builtin/enumerator.rs b/ruruby/src/builtin/enumerator.rs
index 0604746..1a8bca7 100644
--- a/ruruby/src/builtin/enumerator.rs
+++ b/ruruby/src/builtin/enumerator.rs
@@ -4,6 +4,7 @@ use crate::*;
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("Enumerator", class);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     class.add_builtin_method_by_str(globals, "next", next);
     class.add_builtin_method_by_str(globals, "each", each);
     class.add_builtin_method_by_str(globals, "map", map);
diff --git a/ruruby/src/builtin/exception.rs b/ruruby/src/builtin/exception.rs
index c3b1642..e178454 100644
--- a/ruruby/src/builtin/exception.rs
+++ b/ruruby/src/builtin/exception.rs
@@ -68,6 +68,9 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     let err = Module::class_under(exception);
     globals.set_toplevel_constant("SystemExit", err);
 
+    let err = Module::class_under(exception);
+    globals.set_toplevel_constant("SystemStackError", err);
+
     exception.into()
 }
 
diff --git a/ruruby/src/builtin/fiber.rs b/ruruby/src/builtin/fiber.rs
index 84c2508..eae14f5 100644
--- a/ruruby/src/builtin/fiber.rs
+++ b/ruruby/src/builtin/fiber.rs
@@ -4,6 +4,7 @@ use crate::*;
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("Fiber", class);
+    class.add_builtin_class_method(globals, "allocate", builtin::class::undef_allocate);
     class.add_builtin_method_by_str(globals, "inspect", inspect);
     class.add_builtin_method_by_str(globals, "resume", resume);
 
diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index 263ffc3..e5d8f42 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -40,11 +40,19 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "invert", invert);
 
     class.add_builtin_class_method(globals, "new", hash_new);
+    class.add_builtin_class_method(globals, "allocate", hash_allocate);
     class.into()
 }
 
 // Class methods
 
+fn hash_allocate(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    let hash = Value::hash_from_map(FxIndexMap::default());
+    hash.set_class(self_val.into_module());
+    Ok(hash)
+}
+
 fn hash_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let class = self_val.into_module();
@@ -73,7 +81,7 @@ fn set_elem(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 fn inspect(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let hash = self_val.as_hash().unwrap();
-    let s = hash.to_s(vm)?;
+    let s = vm.inspect_guard(self_val, "{...}", |vm| hash.to_s(vm))?;
     Ok(Value::string(s))
 }
 
diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index c43d08a..223b587 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -41,9 +41,15 @@ fn puts(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         match val.as_array() {
             None => println!("{}", val.val_to_s(vm)?),
             Some(aref) => {
-                for val in &**aref {
-                    flatten(vm, val.clone())?;
-                }
+                let s = vm.inspect_guard(val, "[...]\n", |vm| {
+                    let mut i = 0;
+                    while i < aref.len() {
+                        flatten(vm, aref[i])?;
+                        i += 1;
+                    }
+                    Ok(String::new())
+                })?;
+                print!("{}", s);
             }
         }
         Ok(())
@@ -217,7 +223,7 @@ fn raise(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
         0 => Err(RubyError::none("")),
         1 => {
             let arg0 = vm[0];
-            if arg0.as_string().is_some() {
+            if arg0.as_rstring().is_some() {
                 let class = vm.globals.get_toplevel_constant("RuntimeError");
                 raise_exception(vm, class, &[arg0])
             } else if arg0.is_class() {
diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 63cb421..8b180f3 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -92,15 +92,28 @@ fn extend(vm: &mut VM, self_val: Value, _: &Args2) -> VMResult {
     Ok(self_val)
 }
 
-fn clone(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+/// Fibers can not be copied, and a copy of an enumerator is started from the beginning.
+fn copy(vm: &mut VM, mut self_val: Value) -> VMResult {
+    match self_val.as_rvalue().map(|rval| rval.kind()) {
+        Some(ObjKind::FIBER) => Err(RubyError::typeerr("Allocator undefined for Fiber")),
+        Some(ObjKind::ENUMERATOR) => {
+            let class = self_val.rvalue().class();
+            let val = vm.dup_enum(self_val.as_enumerator().unwrap());
+            val.set_class(class);
+            Ok(val)
+        }
+        _ => Ok(self_val.shallow_dup()),
+    }
+}
+
+fn clone(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let val = self_val.shallow_dup();
-    Ok(val)
+    copy(vm, self_val)
 }
 
-fn dup(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn dup(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let val = self_val.shallow_dup();
+    let val = copy(vm, self_val)?;
     if self_val.if_mod_class().is_none() {
         if let Some(rvalue) = self_val.as_rvalue() {
             // Singleton methods are not copied.
@@ -143,11 +156,29 @@ fn method(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(val)
 }
 
+fn check_ivar_name(id: IdentId) -> Result<(), RubyError> {
+    let name = id.get_name();
+    let mut chars = name.chars();
+    let is_ivar = chars.next() == Some('@')
+        && chars.next().map_or(false, |c| c == '_' || c.is_alphabetic())
+        && chars.all(|c| c == '_' || c.is_alphanumeric());
+    if is_ivar {
+        Ok(())
+    } else {
+        Err(RubyError::name(format!(
+            "'{}' is not allowed as an instance variable name",
+            name
+        )))
+    }
+}
+
 fn instance_variable_set(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(2)?;
     let name = vm[0];
     let val = vm[1];
     let var_id = name.expect_symbol_or_string("1st arg")?;
+    check_ivar_name(var_id)?;
+    self_val.check_frozen()?;
     self_val.set_var(var_id, val);
     Ok(val)
 }
@@ -156,9 +187,9 @@ fn instance_variable_get(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult
     args.check_args_num(1)?;
     let name = vm[0];
     let var_id = name.expect_symbol_or_string("1st arg")?;
-    let self_obj = self_val.rvalue();
-    let val = match self_obj.get_var(var_id) {
-        Some(val) => val,
+    check_ivar_name(var_id)?;
+    let val = match self_val.as_rvalue() {
+        Some(obj) => obj.get_var(var_id).unwrap_or(Value::nil()),
         None => Value::nil(),
     };
     Ok(val)
@@ -166,8 +197,7 @@ fn instance_variable_get(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult
 
 fn instance_variables(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let receiver = self_val.rvalue();
-    let res = match receiver.var_table() {
+    let res = match self_val.as_rvalue().and_then(|obj| obj.var_table()) {
         Some(table) => table
             .keys()
             .filter(|x| x.starts_with("@"))
diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 72fd687..7ae389a 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -5,6 +5,7 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
     globals.set_toplevel_constant("String", class);
     class.add_builtin_class_method(globals, "new", string_new);
+    class.add_builtin_class_method(globals, "allocate", string_allocate);
     class.add_builtin_method_by_str(globals, "to_s", to_s);
     class.add_builtin_method_by_str(globals, "inspect", inspect);
     class.add_builtin_method_by_str(globals, "dump", dump);
@@ -63,6 +64,13 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.into()
 }
 
+fn string_allocate(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+    args.check_args_num(0)?;
+    let string = Value::string("");
+    string.set_class(self_val.into_module());
+    Ok(string)
+}
+
 fn string_new(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let self_val = self_val.into_module();
     args.check_args_range(0, 1)?;
@@ -303,7 +311,7 @@ macro_rules! next_char {
     };
 }
 
-fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn rem(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let arguments = match vm[0].as_array() {
         Some(ary) => ary.to_vec(),
@@ -311,7 +319,7 @@ fn rem(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     };
     let mut arg_no = 0;
     let mut format_str = vec![];
-    let mut chars = self_val.as_string().unwrap().chars();
+    let mut chars = self_val.expect_string("Receiver")?.chars();
     let mut ch = match chars.next() {
         Some(ch) => ch,
         None => {
@@ -703,6 +711,7 @@ fn slice_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let mut self_val2 = self_val;
     args.check_args_range(1, 2)?;
     let target = self_val2.as_mut_rstring().unwrap();
+    target.as_string()?;
     let arg0 = vm[0];
     match arg0.unpack() {
         RV::Integer(i) => {
@@ -1010,9 +1019,9 @@ fn replace(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
 
 /// String#strip
 /// https://docs.ruby-lang.org/ja/latest/method/String/i/strip.html
-fn strip(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn strip(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let self_ = self_val.as_string().unwrap();
+    let self_ = self_val.expect_string("Receiver")?;
     let trim1: &[char] = &[' ', '\n', '\t', '\x0d', '\x0c', '\x0b'];
     let trim2: &[char] = &[' ', '\n', '\t', '\x0d', '\x0c', '\x0b', '\x00'];
     let res = self_.trim_end_matches(trim2).trim_start_matches(trim1);
@@ -1021,9 +1030,9 @@ fn strip(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 /// String#lstrip
 /// https://docs.ruby-lang.org/ja/latest/method/String/i/lstrip.html
-fn lstrip(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn lstrip(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let string = self_val.as_string().unwrap();
+    let string = self_val.expect_string("Receiver")?;
     let trim: &[char] = &[' ', '\n', '\t', '\x0d', '\x0c', '\x0b'];
     let res = string.trim_start_matches(trim);
     Ok(Value::string(res))
@@ -1031,9 +1040,9 @@ fn lstrip(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 /// String#rstrip
 /// https://docs.ruby-lang.org/ja/latest/method/String/i/rstrip.html
-fn rstrip(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn rstrip(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let string = self_val.as_string().unwrap();
+    let string = self_val.expect_string("Receiver")?;
     let trim: &[char] = &[' ', '\n', '\t', '\x0d', '\x0c', '\x0b', '\x00'];
     let res = string.trim_end_matches(trim);
     Ok(Value::string(res))
@@ -1175,7 +1184,7 @@ fn gen_pad(padding: &str, len: usize) -> String {
     format!("{}{}", pad_repeat, pad_end)
 }
 
-fn center(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn center(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
     let padding = if args.len() == 2 {
         let mut arg = vm[1];
@@ -1186,7 +1195,7 @@ fn center(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if padding.len() == 0 {
         return Err(RubyError::argument("Zero width padding."));
     };
-    let lhs = self_val.as_string().unwrap();
+    let lhs = self_val.expect_string("Receiver")?;
     let width = vm[0].coerce_to_fixnum("1st arg")?;
     let str_len = lhs.chars().count();
     if width <= 0 || width as usize <= str_len {
@@ -1202,7 +1211,7 @@ fn center(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     )));
 }
 
-fn ljust(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn ljust(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
     let padding = if args.len() == 2 {
         let mut arg = vm[1];
@@ -1213,7 +1222,7 @@ fn ljust(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if padding.len() == 0 {
         return Err(RubyError::argument("Zero width padding."));
     };
-    let lhs = self_val.as_string().unwrap();
+    let lhs = self_val.expect_string("Receiver")?;
     let width = vm[0].coerce_to_fixnum("1st arg")?;
     let str_len = lhs.chars().count();
     if width <= 0 || width as usize <= str_len {
@@ -1223,7 +1232,7 @@ fn ljust(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::string(format!("{}{}", lhs, gen_pad(&padding, tail))))
 }
 
-fn rjust(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn rjust(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(1, 2)?;
     let padding = if args.len() == 2 {
         let mut arg = vm[1];
@@ -1234,7 +1243,7 @@ fn rjust(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if padding.len() == 0 {
         return Err(RubyError::argument("Zero width padding."));
     };
-    let lhs = self_val.as_string().unwrap();
+    let lhs = self_val.expect_string("Receiver")?;
     let width = vm[0].coerce_to_fixnum("1st arg")?;
     let str_len = lhs.chars().count();
     if width <= 0 || width as usize <= str_len {
@@ -1246,9 +1255,9 @@ fn rjust(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 /// https://docs.ruby-lang.org/ja/latest/class/String.html#I_NEXT
 /// https://github.com/ruby/ruby/blob/11b8bb99e6722253974c73d96ed653f97495e1c5/string.c#L4273
-fn next(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn next(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let self_val = self_val.as_string().unwrap();
+    let self_val = self_val.expect_string("Receiver")?;
     let val = Value::string(str_next(self_val));
     Ok(val)
 }
@@ -1331,18 +1340,18 @@ fn str_next(self_: &str) -> String {
     buf.iter().rev().collect::<String>()
 }
 
-fn count(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn count(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let mut arg0 = vm[0];
-    let target = self_val.as_string().unwrap();
+    let target = self_val.expect_string("Receiver")?;
     let set = CharSet::new(arg0.expect_string("Args")?)?;
     let c = target.chars().filter(|c| set.position(*c).is_some()).count();
     Ok(Value::integer(c as i64))
 }
 
-fn ord(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn ord(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let ch = match self_val.as_string().unwrap().chars().next() {
+    let ch = match self_val.expect_string("Receiver")?.chars().next() {
         Some(ch) => ch,
         None => return Err(RubyError::argument("Empty string.")),
     };
diff --git a/ruruby/src/builtin/structobj.rs b/ruruby/src/builtin/structobj.rs
index c63423d..472239a 100644
--- a/ruruby/src/builtin/structobj.rs
+++ b/ruruby/src/builtin/structobj.rs
@@ -112,15 +112,19 @@ fn inspect(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
         }
     };
 
-    for x in &**members {
-        let id = x.as_symbol().unwrap().add_prefix("@");
-        let val = match self_val.get_var(id) {
-            Some(v) => Cow::from(vm.val_inspect(v)?),
-            None => Cow::from("nil"),
-        };
-        inspect = format!("{} {:?}={}", inspect, id, val);
-    }
-    inspect += ">";
+    let rec = format!("{}:...>", inspect);
+    let inspect = vm.inspect_guard(self_val, &rec, |vm| {
+        for x in &**members {
+            let id = x.as_symbol().unwrap().add_prefix("@");
+            let val = match self_val.get_var(id) {
+                Some(v) => Cow::from(vm.val_inspect(v)?),
+                None => Cow::from("nil"),
+            };
+            inspect = format!("{} {:?}={}", inspect, id, val);
+        }
+        inspect += ">";
+        Ok(inspect)
+    })?;
 
     Ok(Value::string(inspect))
 }
diff --git a/ruruby/src/coroutine.rs b/ruruby/src/coroutine.rs
index 43a9a80..598af52 100644
--- a/ruruby/src/coroutine.rs
+++ b/ruruby/src/coroutine.rs
@@ -12,6 +12,7 @@ mod asm;
 #[path = "coroutine/asm_x64.rs"]
 mod asm;
 mod stack;
+pub(crate) use stack::machine_stack_limit;
 use stack::*;
 
 #[derive(PartialEq, Eq, Debug)]
@@ -139,6 +140,7 @@ impl FiberContext {
         let ptr = self as *const _;
         self.stack = Stack::allocate();
         self.rsp = self.stack.init(ptr);
+        self.vm.set_stack_limit(self.stack.limit());
         self.state = FiberState::Running;
     }
 }
diff --git a/ruruby/src/coroutine/stack.rs b/ruruby/src/coroutine/stack.rs
index 12cc0d7..3873e6f 100644
--- a/ruruby/src/coroutine/stack.rs
+++ b/ruruby/src/coroutine/stack.rs
@@ -28,6 +28,52 @@ pub struct Stack(*mut u8);
 unsafe impl Sync for Stack {}
 unsafe impl Send for Stack {}
 
+/// Room to be left in the machine stack of the main VM.
+const STACK_MARGIN: usize = 1024 * 256;
+/// Room to be left in the machine stack of a fiber.
+const FIBER_STACK_MARGIN: usize = 1024 * 128;
+
+///
+/// Get the lower limit of the stack pointer for the current thread.
+///
+#[cfg(target_os = "linux")]
+pub(crate) fn machine_stack_limit() -> usize {
+    use std::os::raw::{c_int, c_ulong, c_void};
+    /// Large enough for `pthread_attr_t` of any platforms.
+    type Attr = [u64; 16];
+    extern "C" {
+        fn pthread_self() -> c_ulong;
+        fn pthread_getattr_np(thread: c_ulong, attr: *mut Attr) -> c_int;
+        fn pthread_attr_getstack(
+            attr: *const Attr,
+            addr: *mut *mut c_void,
+            size: *mut usize,
+        ) -> c_int;
+        fn pthread_attr_destroy(attr: *mut Attr) -> c_int;
+    }
+    let mut attr: Attr = [0; 16];
+    let mut addr = std::ptr::null_mut();
+    let mut size = 0usize;
+    unsafe {
+        if pthread_getattr_np(pthread_self(), &mut attr) != 0 {
+            return 0;
+        }
+        let res = pthread_attr_getstack(&attr, &mut addr, &mut size);
+        pthread_attr_destroy(&mut attr);
+        if res != 0 {
+            return 0;
+        }
+    }
+    addr as usize + STACK_MARGIN
+}
+
+#[cfg(not(target_os = "linux"))]
+pub(crate) fn machine_stack_limit() -> usize {
+    // Assume that at least 1MiB is available.
+    let marker = 0u8;
+    (&marker as *const u8 as usize).saturating_sub(1024 * 1024 - STACK_MARGIN)
+}
+
 impl Stack {
     pub(crate) fn default() -> Self {
         Self(std::ptr::null_mut())
@@ -51,6 +97,11 @@ impl Stack {
         })
     }
 
+    /// Get the lower limit of the stack pointer.
+    pub(crate) fn limit(&self) -> usize {
+        self.0 as usize + FIBER_STACK_MARGIN
+    }
+
     ///
     /// Deallocate `Stack`.
     ///
diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index 660d85d..bb54042 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -256,6 +256,14 @@ impl Globals {
                         .into_module();
                     Value::exception(err_class, err)
                 }
+                RuntimeErrKind::SystemStack => {
+                    let err_class = self.get_toplevel_constant("SystemStackError").into_module();
+                    Value::exception(err_class, err)
+                }
+                RuntimeErrKind::Frozen => {
+                    let err_class = self.get_toplevel_constant("FrozenError").into_module();
+                    Value::exception(err_class, err)
+                }
                 RuntimeErrKind::Range => {
                     let err_class = self.get_toplevel_constant("RangeError").into_module();
                     Value::exception(err_class, err)
diff --git a/ruruby/src/value/hash.rs b/ruruby/src/value/hash.rs
index a0208ec..e0e1c8f 100644
--- a/ruruby/src/value/hash.rs
+++ b/ruruby/src/value/hash.rs
@@ -86,9 +86,9 @@ impl Hash for HashKey {
                 ObjKind::FLOAT if lhs.float() == 0.0 => Value::float(0.0).hash(state),
                 ObjKind::FLOAT => lhs.float().to_bits().hash(state),
                 ObjKind::STRING => lhs.string().hash(state),
-                ObjKind::ARRAY => lhs.array().hash(state),
+                ObjKind::ARRAY => hash_guard(self.0.id(), || lhs.array().hash(state)),
                 ObjKind::RANGE => lhs.range().hash(state),
-                ObjKind::HASH => lhs.rhash().hash(state),
+                ObjKind::HASH => hash_guard(self.0.id(), || lhs.rhash().hash(state)),
                 ObjKind::METHOD => lhs.method().hash(state),
                 _ => self.0.hash(state),
             },
@@ -105,7 +105,12 @@ impl PartialEq for HashKey {
         }
         match (self.as_rvalue(), other.as_rvalue()) {
             (None, None) => self.0.id() == other.0.id(),
-            (Some(lhs), Some(rhs)) => lhs.eql(rhs),
+            (Some(lhs), Some(rhs)) => match (lhs.kind(), rhs.kind()) {
+                (ObjKind::ARRAY, ObjKind::ARRAY) | (ObjKind::HASH, ObjKind::HASH) => {
+                    compare_guard(&self.0, &other.0, || lhs.eql(rhs))
+                }
+                _ => lhs.eql(rhs),
+            },
             _ => self.as_float() == Some(0.0) && other.as_float() == Some(0.0),
         }
     }
@@ -329,7 +334,12 @@ impl HashInfo {
             _ => {
                 let mut result = "".to_string();
                 let mut first = true;
-                for (k, v) in self.iter() {
+                let pairs: Vec<(Value, Value)> = self.iter().collect();
+                for (k, v) in &pairs {
+                    vm.temp_push(*k);
+                    vm.temp_push(*v);
+                }
+                for (k, v) in pairs {
                     let k_inspect = vm.val_inspect(k)?;
                     let v_inspect = vm.val_inspect(v)?;
                     result = if first {
diff --git a/ruruby/src/value/rvalue.rs b/ruruby/src/value/rvalue.rs
index f1c04b6..a152b07 100644
--- a/ruruby/src/value/rvalue.rs
+++ b/ruruby/src/value/rvalue.rs
@@ -1,3 +1,4 @@
+use std::cell::RefCell;
 use crate::coroutine::*;
 use crate::*;
 use num::BigInt;
@@ -79,6 +80,27 @@ impl std::fmt::Debug for RValue {
     }
 }
 
+thread_local!(
+    /// Arrays and hashes being hashed.
+    static HASHING: RefCell<Vec<u64>> = RefCell::new(vec![]);
+);
+
+/// Hash an array or a hash by `f`, ignoring references to those being hashed.
+pub(crate) fn hash_guard(id: u64, f: impl FnOnce()) {
+    let recursive = HASHING.with(|h| {
+        let mut h = h.borrow_mut();
+        let recursive = h.contains(&id);
+        if !recursive {
+            h.push(id);
+        }
+        recursive
+    });
+    if !recursive {
+        f();
+        HASHING.with(|h| h.borrow_mut().pop());
+    }
+}
+
 impl std::hash::Hash for RValue {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         match self.kind() {
@@ -87,9 +109,9 @@ impl std::hash::Hash for RValue {
             ObjKind::FLOAT => self.float().to_bits().hash(state),
             ObjKind::COMPLEX => self.complex().hash(state),
             ObjKind::STRING => self.string().hash(state),
-            ObjKind::ARRAY => self.array().hash(state),
+            ObjKind::ARRAY => hash_guard(self.id(), || self.array().hash(state)),
             ObjKind::RANGE => self.range().hash(state),
-            ObjKind::HASH => self.rhash().hash(state),
+            ObjKind::HASH => hash_guard(self.id(), || self.rhash().hash(state)),
             ObjKind::METHOD | ObjKind::UNBOUND_METHOD => self.method().hash(state),
             _ => self.id().hash(state),
         }
@@ -428,16 +450,7 @@ impl RValue {
                 if lhs.len() != rhs.len() {
                     return false;
                 }
-                lhs.iter().zip(rhs.iter()).all(|(a1, a2)| {
-                    // Support self-containing arrays.
-                    if self.id() == a1.id() && other.id() == a2.id() {
-                        true
-                    } else if self.id() == a1.id() || other.id() == a2.id() {
-                        false
-                    } else {
-                        a1.eql(a2)
-                    }
-                })
+                lhs.iter().zip(rhs.iter()).all(|(a1, a2)| a1.eql(a2))
             }
             (ObjKind::RANGE, ObjKind::RANGE) => self.range().eql(&other.range()),
             (ObjKind::HASH, ObjKind::HASH) => *self.rhash() == *other.rhash(),
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index 05690fa..ec3e1f5 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -1,3 +1,4 @@
+use std::cell::RefCell;
 use num::bigint::{Sign, ToBigInt};
 use num::{BigInt, ToPrimitive};
 
@@ -65,6 +66,31 @@ impl std::hash::Hash for Value {
     }
 }
 
+thread_local!(
+    /// Pairs of arrays or hashes being compared.
+    static COMPARING: RefCell<Vec<(u64, u64)>> = RefCell::new(vec![]);
+);
+
+/// Compare `lhs` and `rhs` by `f`.
+/// Recursive arrays and hashes are equal unless some difference is found.
+pub(crate) fn compare_guard(lhs: &Value, rhs: &Value, f: impl FnOnce() -> bool) -> bool {
+    let pair = (lhs.id(), rhs.id());
+    let recursive = COMPARING.with(|c| {
+        let mut c = c.borrow_mut();
+        let recursive = c.contains(&pair);
+        if !recursive {
+            c.push(pair);
+        }
+        recursive
+    });
+    if recursive {
+        return true;
+    }
+    let res = f();
+    COMPARING.with(|c| c.borrow_mut().pop());
+    res
+}
+
 impl PartialEq for Value {
     /// Equality of value.
     ///
@@ -103,12 +129,16 @@ impl PartialEq for Value {
             (ObjKind::STRING, ObjKind::STRING) => {
                 lhs.string().as_bytes() == rhs.string().as_bytes()
             }
-            (ObjKind::ARRAY, ObjKind::ARRAY) => **lhs.array() == **rhs.array(),
+            (ObjKind::ARRAY, ObjKind::ARRAY) => {
+                compare_guard(self, other, || **lhs.array() == **rhs.array())
+            }
             (ObjKind::RANGE, ObjKind::RANGE) => {
                 let (lhs, rhs) = (&*lhs.range(), &*rhs.range());
                 lhs.exclude == rhs.exclude && lhs.start == rhs.start && rhs.end == lhs.end
             }
-            (ObjKind::HASH, ObjKind::HASH) => *lhs.rhash() == *rhs.rhash(),
+            (ObjKind::HASH, ObjKind::HASH) => {
+                compare_guard(self, other, || *lhs.rhash() == *rhs.rhash())
+            }
             (ObjKind::REGEXP, ObjKind::REGEXP) => *lhs.regexp() == *rhs.regexp(),
             (ObjKind::TIME, ObjKind::TIME) => *lhs.time() == *rhs.time(),
             (ObjKind::PROC, ObjKind::PROC) => *lhs.proc() == *rhs.proc(),
@@ -484,7 +514,27 @@ impl Value {
 
     #[inline(always)]
     pub(crate) fn get_var(&self, id: IdentId) -> Option<Value> {
-        self.rvalue().get_var(id)
+        self.as_rvalue()?.get_var(id)
+    }
+
+    /// Instance variables of numbers, symbols, nil, true and false can not be set.
+    pub(crate) fn check_frozen(&self) -> Result<(), RubyError> {
+        let frozen = match self.as_rvalue() {
+            Some(obj) => match obj.kind() {
+                ObjKind::BIGNUM | ObjKind::FLOAT | ObjKind::COMPLEX => true,
+                _ => false,
+            },
+            None => true,
+        };
+        if frozen {
+            Err(RubyError::frozen(format!(
+                "can't modify frozen {}: {:?}",
+                self.get_class_name(),
+                self
+            )))
+        } else {
+            Ok(())
+        }
     }
 
     #[inline(always)]
@@ -650,7 +700,10 @@ impl Value {
     pub(crate) fn as_string(&self) -> Option<&str> {
         match self.as_rvalue() {
             Some(oref) => match oref.kind() {
-                ObjKind::STRING => Some(oref.string().as_str()),
+                ObjKind::STRING => match &*oref.string() {
+                    RString::Bytes(bytes) => std::str::from_utf8(bytes).ok(),
+                    s => Some(s.as_str()),
+                },
                 _ => None,
             },
             None => None,
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index 91fc7d2..ef4f015 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -42,6 +42,12 @@ pub struct VM {
     sp_post_match: Option<String>,   // $'        : Regexp.post_match
     sp_matches: Vec<Option<String>>, // $1 ... $n : Regexp.last_match(n)
     pub gc_count: usize,
+    /// Objects being converted by inspect.
+    inspecting: Vec<u64>,
+    /// Pairs of objects being compared by ==.
+    comparing: Vec<(u64, u64)>,
+    /// Lower limit of the machine stack pointer.
+    stack_limit: usize,
 }
 
 pub type VMRef = Ref<VM>;
@@ -106,6 +112,9 @@ impl VM {
             sp_post_match: None,
             sp_matches: vec![],
             gc_count: 0,
+            inspecting: vec![],
+            comparing: vec![],
+            stack_limit: crate::coroutine::machine_stack_limit(),
         };
         let mut vm = VMRef::new(vm);
         globals.main_fiber = Some(vm);
@@ -154,7 +163,7 @@ impl VM {
             globals: self.globals,
             temp_stack: vec![],
             begin_stack: vec![],
-            stack: RubyStack::new(),
+            stack: RubyStack::new_fiber(),
             pc: ISeqPtr::default(),
             lfp: LocalFrame::default(),
             cfp: ControlFrame::default(),
@@ -164,6 +173,9 @@ impl VM {
             sp_post_match: None,
             sp_matches: vec![],
             gc_count: 0,
+            inspecting: vec![],
+            comparing: vec![],
+            stack_limit: 0,
         };
         vm.init_frame();
         vm
@@ -214,9 +226,25 @@ impl VM {
         self.stack.check_boundary(p)
     }
 
-    pub(crate) fn stack_push_args(&mut self, args: &Args) -> Args2 {
+    /// Raise SystemStackError if *len* values can not be pushed on the stack, or the machine stack
+    /// is about to be exhausted.
+    #[inline(always)]
+    pub(crate) fn check_stack(&self, len: usize) -> Result<(), RubyError> {
+        let marker = 0u8;
+        if !self.stack.has_room(len) || (&marker as *const u8 as usize) < self.stack_limit {
+            return Err(RubyError::system_stack());
+        }
+        Ok(())
+    }
+
+    pub(crate) fn set_stack_limit(&mut self, limit: usize) {
+        self.stack_limit = limit;
+    }
+
+    pub(crate) fn stack_push_args(&mut self, args: &Args) -> Result<Args2, RubyError> {
+        self.check_stack(args.len())?;
         self.stack.extend_from_slice(args);
-        Args2::from(args)
+        Ok(Args2::from(args))
     }
 
     // handling arguments
@@ -387,6 +415,10 @@ impl VM {
     ///
     /// Be aware that this fn does not restore vm.iseq and vm.pc.
     pub(crate) fn run_loop(&mut self) -> VMResult {
+        if let Err(err) = self.check_stack(0) {
+            self.unwind_frame();
+            return Err(err);
+        }
         let mut invoke_count = 0usize;
         debug_assert!(self.is_ruby_func());
         loop {
@@ -836,6 +868,24 @@ impl VM {
 // API's for handling values.
 
 impl VM {
+    /// Inspect `val` by `f`, or return `rec` if `val` is already being inspected.
+    pub(crate) fn inspect_guard(
+        &mut self,
+        val: Value,
+        rec: &str,
+        f: impl FnOnce(&mut VM) -> Result<String, RubyError>,
+    ) -> Result<String, RubyError> {
+        let id = val.id();
+        if self.inspecting.contains(&id) {
+            return Ok(rec.to_string());
+        }
+        self.check_stack(0)?;
+        self.inspecting.push(id);
+        let res = f(self);
+        self.inspecting.pop();
+        res
+    }
+
     pub(crate) fn val_inspect(&mut self, val: Value) -> Result<String, RubyError> {
         let s = match val.unpack() {
             RV::Uninitialized => "[Uninitialized]".to_string(),
@@ -857,7 +907,9 @@ impl VM {
                 ObjKind::RANGE => oref.range().inspect(self)?,
                 ObjKind::MODULE | ObjKind::CLASS => oref.module().inspect(),
                 ObjKind::REGEXP => format!("/{}/", oref.regexp().as_str().to_string()),
-                ObjKind::HASH => oref.rhash().to_s(self)?,
+                ObjKind::HASH => {
+                    self.inspect_guard(val, "{...}", |vm| oref.rhash().to_s(vm))?
+                }
                 ObjKind::COMPLEX => format!("{:?}", oref.complex()),
                 _ => {
                     let id = IdentId::get_id("inspect");
@@ -920,7 +972,7 @@ impl VM {
 
     /// Pop values and store them in new `Args`. `args_num` specifies the number of values to be popped.
     /// If there is some Array or Range with splat operator, break up the value and store each of them.
-    fn pop_args_to_args(&mut self, arg_num: usize) -> Args2 {
+    fn pop_args_to_args(&mut self, arg_num: usize) -> Result<Args2, RubyError> {
         let arg_start = self.stack.sp - arg_num;
         let mut p = arg_start;
         while p < self.stack.sp {
@@ -939,6 +991,7 @@ impl VM {
                             if ary_len == 0 {
                                 self.stack.remove(p);
                             } else {
+                                self.check_stack(ary_len)?;
                                 self.stack.grow(ary_len - 1);
                                 RubyStack::stack_copy_within(p, 1..(prev_sp - p) as usize, ary_len);
                                 p[0..ary_len].copy_from_slice(&a[..]);
@@ -953,6 +1006,7 @@ impl VM {
                                 + if r.exclude { 0 } else { 1 };
                             if end > start {
                                 let ary_len = (end - start) as usize;
+                                self.check_stack(ary_len)?;
                                 self.stack.grow(ary_len - 1);
                                 RubyStack::stack_copy_within(p, 1..(prev_sp - p) as usize, ary_len);
                                 for (idx, val) in (start..end).enumerate() {
@@ -973,7 +1027,7 @@ impl VM {
             };
         }
         let len = (self.stack.sp - arg_start) as usize;
-        Args2::new(len)
+        Ok(Args2::new(len))
     }
 
     fn pop_args_to_array(&mut self, arg_num: usize) -> Value {
@@ -1049,7 +1103,7 @@ impl VM {
                 Ok(Value::procobj(self, self_val, *method, outer))
             }
             Block::Proc(proc) => Ok(*proc),
-            _ => unimplemented!(),
+            Block::Sym(_) => Ok(self.create_proc(block)),
         }
     }
 
diff --git a/ruruby/src/vm/executor/frame.rs b/ruruby/src/vm/executor/frame.rs
index 6164c96..16da9d5 100644
--- a/ruruby/src/vm/executor/frame.rs
+++ b/ruruby/src/vm/executor/frame.rs
@@ -455,13 +455,14 @@ impl VM {
 
     /// Push the positional arguments to be delegated by `...` on the stack.
     /// Return the number of them and the keyword arguments (Hash or nil).
-    pub(super) fn push_delegate(&mut self) -> (usize, Value) {
+    pub(super) fn push_delegate(&mut self) -> Result<(usize, Value), RubyError> {
         let ary = match self.cur_mfp().iseq().params.delegate {
             Some(id) => self.method_lfp()[id].as_array(),
             None => None,
         };
         match ary {
             Some(ary) => {
+                self.check_stack(ary.len())?;
                 self.stack.extend_from_slice(&ary[1..]);
                 let kw = match ary[0].as_hash() {
                     Some(hash) => {
@@ -473,9 +474,9 @@ impl VM {
                     }
                     None => Value::nil(),
                 };
-                (ary.len() - 1, kw)
+                Ok((ary.len() - 1, kw))
             }
-            None => (0, Value::nil()),
+            None => Ok((0, Value::nil())),
         }
     }
 
diff --git a/ruruby/src/vm/executor/frame/arg_handler.rs b/ruruby/src/vm/executor/frame/arg_handler.rs
index df82ed9..64e3771 100644
--- a/ruruby/src/vm/executor/frame/arg_handler.rs
+++ b/ruruby/src/vm/executor/frame/arg_handler.rs
@@ -8,6 +8,7 @@ impl VM {
         outer: EnvFrame,
         use_value: bool,
     ) -> Result<(), RubyError> {
+        self.check_stack(iseq.lvars)?;
         // This is necessary to follow moving outer frame to heap during iteration.
         let outer = outer.ep();
         let base = self.sp() - args.len();
@@ -37,7 +38,7 @@ impl VM {
             // lambda
             params.check_arity(positional_kwarg, args)?;
         } else {
-            self.prepare_block_args(base, iseq);
+            self.prepare_block_args(base, iseq)?;
             // Complement the missing arguments, and discard the extra ones.
             let args_len = (self.sp() - base) as usize;
             let min_len = params.req + params.post;
@@ -76,6 +77,7 @@ impl VM {
         args: &Args2,
         use_value: bool,
     ) -> InvokeResult {
+        self.check_stack(iseq.lvars)?;
         let base_ptr = self.sp() - args.len();
         let params = &iseq.params;
         let kw_flag = !args.kw_arg.is_nil();
@@ -131,6 +133,7 @@ impl VM {
         outer: EnvFrame,
         use_value: bool,
     ) -> Result<(), RubyError> {
+        self.check_stack(iseq.lvars)?;
         // This is necessary to follow moving outer frame to heap during iteration.
         let outer = outer.ep();
         let base = self.sp() - args.len();
@@ -142,7 +145,7 @@ impl VM {
                 return Err(RubyError::argument_wrong(args.len(), req_len));
             }
         } else {
-            self.prepare_block_args(base, iseq);
+            self.prepare_block_args(base, iseq)?;
         }
         let args_len = (self.sp() - base) as usize;
         if req_len < args_len {
@@ -170,6 +173,7 @@ impl VM {
         args: &Args2,
         use_value: bool,
     ) -> InvokeResult {
+        self.check_stack(iseq.lvars)?;
         let min = iseq.params.req;
         let len = args.len();
         if len != min {
@@ -183,15 +187,17 @@ impl VM {
 }
 
 impl VM {
-    fn prepare_block_args(&mut self, base: StackPtr, iseq: ISeqRef) {
+    fn prepare_block_args(&mut self, base: StackPtr, iseq: ISeqRef) -> Result<(), RubyError> {
         // if a single Array argument is given for the block requiring multiple formal parameters,
         // the arguments must be expanded.
         if self.sp() - base == 1 && iseq.mularg_flag {
             if let Some(ary) = base[0].as_array() {
+                self.check_stack(ary.len())?;
                 self.stack.pop();
                 self.stack.extend_from_slice(&**ary);
             }
         }
+        Ok(())
     }
 
     fn fill_positional_arguments(&mut self, mut base: StackPtr, iseq: ISeqRef) {
diff --git a/ruruby/src/vm/executor/frame/ruby_stack.rs b/ruruby/src/vm/executor/frame/ruby_stack.rs
index 599966c..bbb838f 100644
--- a/ruruby/src/vm/executor/frame/ruby_stack.rs
+++ b/ruruby/src/vm/executor/frame/ruby_stack.rs
@@ -3,7 +3,12 @@ use crate::{ControlFrame, LocalFrame, Value, CF};
 use std::ops::{Index, IndexMut};
 use std::pin::Pin;
 
-pub(super) const VM_STACK_SIZE: usize = 8192;
+/// Size of the stack of the main VM.
+const VM_STACK_SIZE: usize = 128 * 1024;
+/// Size of the stack of a fiber.
+const FIBER_STACK_SIZE: usize = 32 * 1024;
+/// Room for the temporary values used in a frame.
+const STACK_MARGIN: usize = 4096;
 
 ///
 /// Ruruby exection stack.
@@ -11,7 +16,8 @@ pub(super) const VM_STACK_SIZE: usize = 8192;
 /// Ruruby stack is implemented as a fixed and pinned heap array of `Value`s.
 /// You can do operations like push, pop, or extend, as if it was a Vec.
 ///
-/// Stack size is VM_STACK_SIZE(currently, 8192 `Value`s).
+/// Stack size is VM_STACK_SIZE(currently, 128k `Value`s) for the main VM, and FIBER_STACK_SIZE
+/// for a fiber.
 #[derive(Clone)]
 pub(crate) struct RubyStack {
     /// Stack pointer.
@@ -29,7 +35,16 @@ impl std::fmt::Debug for RubyStack {
 impl RubyStack {
     /// Allocate new `RubyStack`.
     pub(crate) fn new() -> Self {
-        let mut inner = unsafe { Box::new_uninit_slice(VM_STACK_SIZE).assume_init() };
+        Self::with_size(VM_STACK_SIZE)
+    }
+
+    /// Allocate new `RubyStack` for a fiber.
+    pub(crate) fn new_fiber() -> Self {
+        Self::with_size(FIBER_STACK_SIZE)
+    }
+
+    fn with_size(size: usize) -> Self {
+        let mut inner = unsafe { Box::new_uninit_slice(size).assume_init() };
         let sp = StackPtr::from(inner.as_mut_ptr());
         Self {
             sp,
@@ -44,7 +59,7 @@ impl RubyStack {
     pub(crate) fn check_boundary(&self, p: *mut Value) -> Option<usize> {
         let ptr = self.buf.as_ptr() as *mut Value;
         unsafe {
-            if ptr <= p && p < ptr.add(VM_STACK_SIZE) {
+            if ptr <= p && p < ptr.add(self.buf.len()) {
                 Some(p.offset_from(ptr as *const _) as usize)
             } else {
                 None
@@ -61,11 +76,17 @@ impl RubyStack {
         len as usize
     }
 
+    /// Check whether there is room for *len* values and the temporary values of a frame.
+    #[inline(always)]
+    pub(crate) fn has_room(&self, len: usize) -> bool {
+        self.len() + len + STACK_MARGIN <= self.buf.len()
+    }
+
     /// Resize the stack so that len is equal to new_len.
     /// If new_len is greater than len, the stack is extended by the difference, with each additional slot filled with Nil.
     /// If new_len is less than len, the stack is simply truncated.
     pub(crate) fn resize_to(&mut self, new_sp: StackPtr) {
-        debug_assert!(new_sp <= self.sp + VM_STACK_SIZE);
+        debug_assert!(new_sp <= self.bottom() + self.buf.len());
         if new_sp > self.sp {
             let mut p = self.sp;
             for _ in 0..(new_sp - self.sp) as usize {
@@ -78,7 +99,7 @@ impl RubyStack {
 
     #[inline(always)]
     pub(crate) fn grow(&mut self, offset: usize) {
-        debug_assert!(self.len() + offset <= VM_STACK_SIZE);
+        debug_assert!(self.len() + offset <= self.buf.len());
         for _ in 0..offset {
             self.sp[0] = Value::nil();
             self.sp += 1;
@@ -100,7 +121,7 @@ impl RubyStack {
 
     #[inline(always)]
     pub(crate) fn push(&mut self, val: Value) {
-        debug_assert!(self.len() != VM_STACK_SIZE);
+        debug_assert!(self.len() != self.buf.len());
         self.sp[0] = val;
         self.sp += 1;
     }
diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index 748d374..769ee8d 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -12,7 +12,7 @@ impl VM {
         args: &Args,
     ) -> VMResult {
         self.stack_push(receiver);
-        let args = self.stack_push_args(args);
+        let args = self.stack_push_args(args)?;
         self.invoke_send(method_name, receiver, &args, true)?
             .handle(self)
     }
@@ -32,6 +32,7 @@ impl VM {
 
     /// Evaluate the block with self_val of outer context, and given `args`.
     pub(crate) fn eval_block(&mut self, block: &Block, slice: &[Value]) -> VMResult {
+        self.check_stack(slice.len())?;
         match block {
             Block::Block(method, outer) => {
                 let outer = self.cfp_from_frame(*outer).ep();
@@ -79,7 +80,7 @@ impl VM {
     ) -> VMResult {
         let self_val = self_val.into();
         self.stack_push(self_val);
-        let args = self.stack_push_args(args);
+        let args = self.stack_push_args(args)?;
         self.invoke_block(method, outer, &args)?.handle(self)
     }
 
@@ -99,7 +100,12 @@ impl VM {
                 let pinfo = proc.as_proc().unwrap();
                 (pinfo.method, pinfo.outer, pinfo.self_val)
             }
-            _ => unimplemented!(),
+            Block::Sym(sym) => {
+                for v in iter {
+                    self.eval_send0(*sym, v)?;
+                }
+                return Ok(default);
+            }
         };
 
         use MethodInfo::*;
@@ -152,7 +158,14 @@ impl VM {
                 let pinfo = proc.as_proc().unwrap();
                 (pinfo.method, pinfo.outer, pinfo.self_val)
             }
-            _ => unimplemented!(),
+            Block::Sym(sym) => {
+                let len = self.temp_len();
+                for v in iter {
+                    let res = self.eval_send0(*sym, v)?;
+                    self.temp_push(res);
+                }
+                return Ok(Value::array_from(self.temp_pop_vec(len)));
+            }
         };
 
         use MethodInfo::*;
@@ -261,11 +274,11 @@ impl VM {
             Block::Block(method, outer) => {
                 let outer = self.cfp_from_frame(*outer).ep();
                 self.stack_push(self_value);
-                let args = self.stack_push_args(args);
+                let args = self.stack_push_args(args)?;
                 self.invoke_block(*method, outer, &args)?.handle(self)
             }
             Block::Proc(proc) => self.eval_proc(*proc, self_value, &args),
-            _ => unimplemented!(),
+            Block::Sym(_) => self.eval_block(block, args),
         }
     }
 
@@ -293,6 +306,7 @@ impl VM {
     ) -> VMResult {
         let self_val = self_val.into();
         self.stack_push(self_val);
+        self.check_stack(len)?;
         self.stack.extend_from_within_ptr(src, len);
         self.invoke_method(method, args, true)?.handle(self)
     }
@@ -334,7 +348,7 @@ impl VM {
         args: &Args,
     ) -> VMResult {
         self.stack_push(Value::nil());
-        let args = self.stack_push_args(&args);
+        let args = self.stack_push_args(&args)?;
         self.invoke_proc(proc, self_value, &args)?.handle(self)
     }
 
@@ -546,6 +560,7 @@ impl VM {
         let iseq = self.iseq;
         let pc = self.pc;
         let cfp = self.cfp;
+        self.check_stack(0)?;
         self.save_next_pc();
         self.push_native_frame(args.len());
 
diff --git a/ruruby/src/vm/executor/ops.rs b/ruruby/src/vm/executor/ops.rs
index 16dbf8e..38fbfe6 100644
--- a/ruruby/src/vm/executor/ops.rs
+++ b/ruruby/src/vm/executor/ops.rs
@@ -472,6 +472,12 @@ impl VM {
                 Ok(lhsr.string().as_bytes() == rhsr.string().as_bytes())
             }
             (ObjKind::ARRAY, ObjKind::ARRAY) => {
+                // Recursive arrays are equal unless some difference is found.
+                let pair = (lhs.id(), rhs.id());
+                if self.comparing.contains(&pair) {
+                    return Ok(true);
+                }
+                self.check_stack(0)?;
                 // The arrays must survive `==` methods called on the way.
                 let len = self.temp_len();
                 self.temp_extend_from_slice(&[lhs, rhs]);
@@ -480,6 +486,7 @@ impl VM {
                     self.temp_pop_vec(len);
                     return Ok(false);
                 }
+                self.comparing.push(pair);
                 let mut res = Ok(true);
                 for i in 0..lhs.len() {
                     let (l, r) = match (lhs.get(i), rhs.get(i)) {
@@ -494,6 +501,7 @@ impl VM {
                         break;
                     }
                 }
+                self.comparing.pop();
                 self.temp_pop_vec(len);
                 res
             }
diff --git a/ruruby/src/vm/executor/opt_core.rs b/ruruby/src/vm/executor/opt_core.rs
index 4dc026d..c83bc7b 100644
--- a/ruruby/src/vm/executor/opt_core.rs
+++ b/ruruby/src/vm/executor/opt_core.rs
@@ -215,12 +215,13 @@ impl VM {
                     }
                     Inst::CONCAT_STRING => {
                         let num = self.pc.read32() as usize;
-                        let res = (self.stack.sp - num)[0..num]
-                            .iter()
-                            .fold(String::new(), |acc, x| acc + x.as_string().unwrap());
+                        let mut res = RString::from("");
+                        for x in &(self.stack.sp - num)[0..num] {
+                            res.append(x.as_rstring().unwrap());
+                        }
                         self.stack.sp -= num;
 
-                        let val = Value::string(res);
+                        let val = Value::string_from_rstring(res);
                         self.stack_push(val);
                     }
                     Inst::SET_LOCAL => {
@@ -308,6 +309,7 @@ impl VM {
                     Inst::SET_IVAR => {
                         let var_id = self.pc.read_id();
                         let new_val = self.stack_pop();
+                        self_val.check_frozen()?;
                         self_val.set_var(var_id, new_val);
                     }
                     Inst::GET_IVAR => {
@@ -493,7 +495,7 @@ impl VM {
                         let flag = self.pc.read_argflag();
                         let block = self.handle_block_arg(0, flag)?;
                         let keyword = self.handle_hash_args(flag)?;
-                        let args = self.prepare_args(args_num, flag, keyword, block);
+                        let args = self.prepare_args(args_num, flag, keyword, block)?;
                         dispatch!(self.vm_yield(&args), true);
                     }
                     Inst::SUPER => {
@@ -754,7 +756,7 @@ impl VM {
         let block = self.handle_block_arg(block, flag)?;
         let keyword = self.handle_hash_args(flag)?;
         let receiver = (self.sp() - args_num - 1)[0];
-        let args = self.prepare_args(args_num, flag, keyword, block);
+        let args = self.prepare_args(args_num, flag, keyword, block)?;
         self.send(method_name, receiver, &args, use_value, cache_id)
     }
 
@@ -765,16 +767,16 @@ impl VM {
         flag: ArgFlag,
         keyword: Value,
         block: Option<Block>,
-    ) -> Args2 {
+    ) -> Result<Args2, RubyError> {
         let mut args = if flag.has_splat() {
-            self.pop_args_to_args(args_num)
+            self.pop_args_to_args(args_num)?
         } else {
             Args2::new(args_num)
         };
         args.block = block;
         args.kw_arg = keyword;
         if flag.has_delegate() {
-            let (len, kw) = self.push_delegate();
+            let (len, kw) = self.push_delegate()?;
             args.set_len(args.len() + len);
             if keyword.is_nil() {
                 args.kw_arg = kw;
@@ -783,7 +785,7 @@ impl VM {
                 args.block = self.get_method_block();
             }
         }
-        args
+        Ok(args)
     }
 
     fn send(
@@ -824,12 +826,12 @@ impl VM {
             };
             let mut args = if no_args {
                 // When `super` has no arguments, use arguments which were passed to the current method.
-                let mut args = self.push_method_args(iseq);
+                let mut args = self.push_method_args(iseq)?;
                 args.block = block;
                 args
             } else {
                 let keyword = self.handle_hash_args(flag)?;
-                self.prepare_args(args_num, flag, keyword, block)
+                self.prepare_args(args_num, flag, keyword, block)?
             };
             if let Some(method) = method {
                 // keyword arguments are ignored if the super method does not accept them.
@@ -857,7 +859,7 @@ impl VM {
     }
 
     /// Push the current values of the parameters of the current method.
-    fn push_method_args(&mut self, iseq: ISeqRef) -> Args2 {
+    fn push_method_args(&mut self, iseq: ISeqRef) -> Result<Args2, RubyError> {
         let params = &iseq.params;
         let lfp = self.method_lfp();
         let prev_sp = self.sp();
@@ -868,10 +870,11 @@ impl VM {
         }
         let mut keyword = Value::nil();
         if params.delegate.is_some() {
-            keyword = self.push_delegate().1;
+            keyword = self.push_delegate()?.1;
         }
         if params.rest == Some(true) {
             if let Some(ary) = lfp[i].as_array() {
+                self.check_stack(ary.len())?;
                 self.stack.extend_from_slice(&**ary);
             }
             i += 1;
@@ -900,7 +903,7 @@ impl VM {
         }
         let mut args = Args2::new((self.sp() - prev_sp) as usize);
         args.kw_arg = keyword;
-        args
+        Ok(args)
     }
 
     /// Invoke the block given to the method with `args`.
-- 
2.43.0


From 15c3df42fdc61ffebadf5d19631af0c549904415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:50 +0000
Subject: [PATCH 62/87] fix: String#codepoints panicked for a binary string

---
 ruruby/src/builtin/string.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 7ae389a..81e7090 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -1368,12 +1368,11 @@ fn empty(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     Ok(Value::bool(len == 0))
 }
 
-fn codepoints(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
+fn codepoints(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     args.expect_no_block()?;
     let res = self_val
-        .as_string()
-        .unwrap()
+        .expect_string("Receiver")?
         .chars()
         .map(|c| Value::integer(c as u32 as i64))
         .collect();
-- 
2.43.0


From ab56407cbb56b51e3b3d10b6df6946d5ab4e025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:16 +0000
Subject: [PATCH 63/87] fix: Time arithmetic and Time.gm panicked or wrapped
 around for values out of range

---
 ruruby/src/builtin/time.rs | 63 ++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/ruruby/src/builtin/time.rs b/ruruby/src/builtin/time.rs
index b281650..2786aab 100644
--- a/ruruby/src/builtin/time.rs
+++ b/ruruby/src/builtin/time.rs
@@ -1,4 +1,5 @@
 use crate::*;
+use std::convert::TryFrom;
 use chrono::{DateTime, Datelike, Duration, FixedOffset, NaiveDate, Utc};
 
 #[derive(Clone, Debug, PartialEq)]
@@ -28,23 +29,27 @@ impl std::ops::Sub<Self> for TimeInfo {
     }
 }
 
-impl std::ops::Sub<Duration> for TimeInfo {
-    type Output = Self;
-    fn sub(self, rhs: Duration) -> Self::Output {
-        match self {
-            TimeInfo::Local(t) => Self::Local(t - rhs),
-            TimeInfo::UTC(t) => Self::UTC(t - rhs),
-        }
+impl TimeInfo {
+    /// Returns the time `offset` after (before, if negative) `self`.
+    fn offset(self, offset: Option<Duration>) -> Result<Self, RubyError> {
+        let time = offset.and_then(|offset| match self {
+            TimeInfo::Local(t) => t.checked_add_signed(offset).map(TimeInfo::Local),
+            TimeInfo::UTC(t) => t.checked_add_signed(offset).map(TimeInfo::UTC),
+        });
+        time.ok_or_else(|| RubyError::range("Time is out of range."))
     }
-}
 
-impl std::ops::Add<Duration> for TimeInfo {
-    type Output = Self;
-    fn add(self, rhs: Duration) -> Self::Output {
-        match self {
-            TimeInfo::Local(t) => Self::Local(t + rhs),
-            TimeInfo::UTC(t) => Self::UTC(t + rhs),
-        }
+    fn offset_secs(self, secs: i64) -> Result<Self, RubyError> {
+        // the limit is that of Duration.
+        let limit = i64::MAX / 1000;
+        let offset = (-limit..=limit).contains(&secs).then(|| Duration::seconds(secs));
+        self.offset(offset)
+    }
+
+    fn offset_float(self, secs: f64) -> Result<Self, RubyError> {
+        let nanos = secs * 1000.0 * 1000.0 * 1000.0;
+        let offset = (nanos.abs() < i64::MAX as f64).then(|| Duration::nanoseconds(nanos as i64));
+        self.offset(offset)
     }
 }
 
@@ -83,7 +88,7 @@ fn time_now(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 /// Time.utc(year, mon = 1, day = 1, hour = 0, min = 0, sec = 0, usec = 0) -> time
 /// https://docs.ruby-lang.org/ja/latest/method/Time/s/gm.html
 fn time_utc(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_range(1, 8)?;
+    args.check_args_range(1, 7)?;
     let (y, m, d, h, min, sec, usec) = match args.len() {
         1 => (vm[0].coerce_to_fixnum("Args")?, 1, 1, 0, 0, 0, 0),
         2 => (
@@ -142,10 +147,13 @@ fn time_utc(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         ),
         _ => unreachable!(),
     };
-    let native_dt = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32)
-        .ok_or_else(|| RubyError::argument("Out of range."))?
-        .and_hms_micro_opt(h as u32, min as u32, sec as u32, usec as u32)
-        .ok_or_else(|| RubyError::argument("Out of range."))?;
+    let out_of_range = || RubyError::argument("Out of range.");
+    let to_u32 = |i: i64| u32::try_from(i).map_err(|_| out_of_range());
+    let year = i32::try_from(y).map_err(|_| out_of_range())?;
+    let native_dt = NaiveDate::from_ymd_opt(year, to_u32(m)?, to_u32(d)?)
+        .ok_or_else(out_of_range)?
+        .and_hms_micro_opt(to_u32(h)?, to_u32(min)?, to_u32(sec)?, to_u32(usec)?)
+        .ok_or_else(out_of_range)?;
     let time = TimeInfo::UTC(DateTime::<Utc>::from_naive_utc_and_offset(native_dt, Utc));
     Ok(Value::time(Module::new(self_val), time))
 }
@@ -191,18 +199,20 @@ fn sub(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let arg0 = vm[0];
     match arg0.unpack() {
         RV::Integer(i) => {
-            let res = time - Duration::seconds(i);
+            let res = time.offset_secs(i.saturating_neg())?;
             Ok(Value::time(vm.globals.get_class(self_val), res))
         }
         RV::Float(f) => {
-            let offset = (f * 1000.0 * 1000.0 * 1000.0) as i64;
-            let res = time - Duration::nanoseconds(offset);
+            let res = time.offset_float(-f)?;
             Ok(Value::time(vm.globals.get_class(self_val), res))
         }
         RV::Object(rv) => match rv.kind() {
             ObjKind::TIME => {
                 let res = time - rv.time().clone();
-                let offset = (res.num_nanoseconds().unwrap() as f64) / 1000.0 / 1000.0 / 1000.0;
+                let offset = match res.num_nanoseconds() {
+                    Some(nanos) => (nanos as f64) / 1000.0 / 1000.0 / 1000.0,
+                    None => (res.num_milliseconds() as f64) / 1000.0,
+                };
                 Ok(Value::float(offset))
             }
             _ => return Err(VMError::undefined_op("-", arg0, self_val)),
@@ -225,12 +235,11 @@ fn add(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let arg0 = vm[0];
     match arg0.unpack() {
         RV::Integer(i) => {
-            let res = time + Duration::seconds(i);
+            let res = time.offset_secs(i)?;
             Ok(Value::time(vm.globals.get_class(self_val), res))
         }
         RV::Float(f) => {
-            let offset = (f * 1000.0 * 1000.0 * 1000.0) as i64;
-            let res = time + Duration::nanoseconds(offset);
+            let res = time.offset_float(f)?;
             Ok(Value::time(vm.globals.get_class(self_val), res))
         }
         _ => return Err(VMError::undefined_op("+", arg0, self_val)),
-- 
2.43.0


From 9a291bca1202ef8056d8b811e38aa7ee25546ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:33 +0000
Subject: [PATCH 64/87] fix: Array#bsearch panicked when its block shrinks the
 array

---
 ruruby/src/builtin/array.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 0303804..07eeaf6 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -1160,13 +1160,15 @@ fn binary_search(vm: &mut VM, ary: Array, block: &Block) -> Result<Option<usize>
     if ary.len() == 0 {
         return Ok(None);
     };
+    // the block can shrink the array.
+    let elem = |i: usize| ary.get(i).copied().unwrap_or_default();
     let mut i_min = 0;
     let mut i_max = ary.len() - 1;
     let f = vm.eval_block_map1(block);
-    if f(vm, ary[0])?.expect_bool_nil_num()? {
+    if f(vm, elem(0))?.expect_bool_nil_num()? {
         return Ok(Some(0));
     };
-    if !f(vm, ary[i_max])?.expect_bool_nil_num()? {
+    if !f(vm, elem(i_max))?.expect_bool_nil_num()? {
         return Ok(None);
     };
 
@@ -1175,7 +1177,7 @@ fn binary_search(vm: &mut VM, ary: Array, block: &Block) -> Result<Option<usize>
         if i_mid == i_min {
             return Ok(Some(i_max));
         };
-        if f(vm, ary[i_mid])?.expect_bool_nil_num()? {
+        if f(vm, elem(i_mid))?.expect_bool_nil_num()? {
             i_max = i_mid;
         } else {
             i_min = i_mid;
@@ -1193,7 +1195,7 @@ fn bsearch(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let ary = self_val.into_array();
     let block = to_enum_str!(vm, self_val, args, "bsearch");
     match binary_search(vm, ary, block)? {
-        Some(i) => Ok(ary[i]),
+        Some(i) => Ok(ary.get(i).copied().unwrap_or_default()),
         None => Ok(Value::nil()),
     }
 }
-- 
2.43.0


From 83fadda01469d40e102ab5cf6b1eb807a598dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:00 +0000
Subject: [PATCH 65/87] fix: Array#flatten overflowed the stack for deep or
 recursive elements

---
 ruruby/src/builtin/array.rs | 53 +++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 07eeaf6..88f83be 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -1245,9 +1245,7 @@ fn flatten(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
     };
     let mut res = vec![];
-    for v in &**self_val.into_array() {
-        ary_flatten(*v, &mut res, level, self_val)?;
-    }
+    ary_flatten(self_val.into_array(), &mut res, level)?;
     Ok(Value::array_from(res))
 }
 
@@ -1264,44 +1262,43 @@ fn flatten_(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
     };
     let mut res = vec![];
-    let mut flag = false;
-    for v in self_val.into_array().iter() {
-        flag |= ary_flatten(*v, &mut res, level, self_val)?;
-    }
+    let flag = ary_flatten(self_val.into_array(), &mut res, level)?;
     *self_val.into_array() = ArrayInfo::new(res);
     Ok(if flag { self_val } else { Value::nil() })
 }
 
+/// Pushes the flattened elements of `ary` to `res`.
+/// Returns true if some of them was an array.
 fn ary_flatten(
-    val: Value,
+    ary: Array,
     res: &mut Vec<Value>,
     level: Option<usize>,
-    origin: Value,
 ) -> Result<bool, RubyError> {
     let mut flag = false;
-    match level {
-        None => match val.as_array() {
-            Some(ainfo) => {
-                if val.id() == origin.id() {
+    // the arrays being flattened, and the positions in them.
+    let mut stack = vec![(ary, 0)];
+    let mut active = std::collections::HashSet::new();
+    active.insert(ary.id());
+    while let Some((ary, pos)) = stack.last_mut() {
+        let val = match ary.get(*pos) {
+            Some(val) => *val,
+            None => {
+                active.remove(&ary.id());
+                stack.pop();
+                continue;
+            }
+        };
+        *pos += 1;
+        match val.as_array() {
+            Some(inner) if level.map_or(true, |level| stack.len() <= level) => {
+                if !active.insert(val.id()) && level.is_none() {
                     return Err(RubyError::argument("Tried to flatten recursive array."));
                 };
                 flag = true;
-                for v in &**ainfo {
-                    ary_flatten(*v, res, None, origin)?;
-                }
+                stack.push((inner, 0));
             }
-            None => res.push(val),
-        },
-        Some(0) => res.push(val),
-        Some(level) => match val.as_array() {
-            Some(ainfo) => {
-                flag = true;
-                for v in &**ainfo {
-                    ary_flatten(*v, res, Some(level - 1), origin)?;
-                }
-            }
-            None => res.push(val),
-        },
+            _ => res.push(val),
+        };
     }
     Ok(flag)
 }
-- 
2.43.0


From db5387eede80806cdb16b9acdf85de5ede62db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:00 +0000
Subject: [PATCH 66/87] fix: iteration of a Range with a Float end stopped
 early or overflowed

---
 ruruby/src/builtin/range.rs | 71 +++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index 5ec7a44..0be5213 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -16,6 +16,21 @@ impl RangeInfo {
         }
     }
 
+    /// Returns the integers in the range as (first one, limit).
+    fn integers(&self) -> Result<std::ops::Range<i64>, RubyError> {
+        let start = match self.start.unpack() {
+            RV::Integer(i) => i,
+            RV::Float(_) => return Err(RubyError::typeerr("Can't iterate from Float.")),
+            _ => return Err(VMError::cant_coerse(self.start, "Fixnum")),
+        };
+        let end = match self.end.unpack() {
+            RV::Float(f) if self.exclude => f.ceil() as i64,
+            RV::Float(f) => (f.floor() as i64).saturating_add(1),
+            _ => self.end.coerce_to_fixnum("End")? + if self.exclude { 0 } else { 1 },
+        };
+        Ok(start..end)
+    }
+
     pub(crate) fn eql(&self, other: &Self) -> bool {
         self.start.eql(&other.start) && self.end.eql(&other.end) && self.exclude == other.exclude
     }
@@ -100,19 +115,13 @@ fn first(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if args.len() == 0 {
         return Ok(range.start);
     };
-    let start = range.start.coerce_to_fixnum("Range")?;
-    let mut end = range.end.coerce_to_fixnum("Range")? - if range.exclude { 1 } else { 0 };
+    let std::ops::Range { start, end } = range.integers()?;
     let arg = vm[0].coerce_to_fixnum("Argument")?;
     if arg < 0 {
         return Err(RubyError::argument("Negative array size"));
     };
-    let mut v = vec![];
-    if start + arg - 1 < end {
-        end = start + arg - 1;
-    };
-    for i in start..=end {
-        v.push(Value::integer(i));
-    }
+    let end = std::cmp::min(end, start.saturating_add(arg));
+    let v = (start..end).map(|i| Value::integer(i)).collect();
     Ok(Value::array_from(v))
 }
 
@@ -122,19 +131,13 @@ fn last(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if args.len() == 0 {
         return Ok(range.end);
     };
-    let mut start = range.start.coerce_to_fixnum("Range")?;
-    let end = range.end.coerce_to_fixnum("Range")? - if range.exclude { 1 } else { 0 };
+    let std::ops::Range { start, end } = range.integers()?;
     let arg = vm[0].coerce_to_fixnum("Argument")?;
     if arg < 0 {
         return Err(RubyError::argument("Negative array size"));
     };
-    let mut v = vec![];
-    if end - arg + 1 > start {
-        start = end - arg + 1;
-    };
-    for i in start..=end {
-        v.push(Value::integer(i));
-    }
+    let start = std::cmp::max(start, end.saturating_sub(arg));
+    let v = (start..end).map(|i| Value::integer(i)).collect();
     Ok(Value::array_from(v))
 }
 
@@ -142,9 +145,8 @@ fn map(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
-    let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
-    let res = vm.eval_block_map1_iter(block, (start..end).map(|i| Value::integer(i)))?;
+    let iter = range.integers()?;
+    let res = vm.eval_block_map1_iter(block, iter.map(|i| Value::integer(i)))?;
     Ok(res)
 }
 
@@ -152,11 +154,10 @@ fn flat_map(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
-    let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
+    let iter = range.integers()?;
     let len = vm.temp_len();
     let f = vm.eval_block_map1(block);
-    for i in start..end {
+    for i in iter {
         let val = f(vm, Value::integer(i))?;
         match val.as_array() {
             Some(aref) => {
@@ -181,21 +182,17 @@ fn each(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
-
-    let iter = (start..end).map(|i| Value::integer(i));
-    vm.eval_block_each1_iter(block, iter, self_val)
+    let iter = range.integers()?;
+    vm.eval_block_each1_iter(block, iter.map(|i| Value::integer(i)), self_val)
 }
 
 fn all(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
-    let start = range.start.coerce_to_fixnum("Start")?;
-    let end = range.end.coerce_to_fixnum("End")? + if range.exclude { 0 } else { 1 };
+    let iter = range.integers()?;
     let f = vm.eval_block_map1(block);
-    for i in start..end {
+    for i in iter {
         let res = f(vm, Value::integer(i))?;
         if !res.to_bool() {
             return Ok(Value::false_val());
@@ -206,16 +203,14 @@ fn all(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn to_a(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
+    let range = self_val.as_range().unwrap();
     let RangeInfo {
         start,
         end,
         exclude,
-    } = *self_val.as_range().unwrap();
-    if let Some(start) = start.as_fixnum() {
-        let end = end.coerce_to_fixnum("Range.end")?;
-        let v = if exclude { start..end } else { start..end + 1 }
-            .map(|i| Value::integer(i))
-            .collect();
+    } = *range;
+    if start.as_fixnum().is_some() {
+        let v = range.integers()?.map(|i| Value::integer(i)).collect();
         Ok(Value::array_from(v))
     } else if let Some(start) = start.as_string() {
         let mut end = end;
-- 
2.43.0


From 38cb72dd0bf5772b0951a03c052057ab06069ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:40 +0000
Subject: [PATCH 67/87] fix: a hash literal whose key begins with an identifier
 followed by an operator was parsed wrongly

---
 ruruby-parse/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruruby-parse/src/parser.rs b/ruruby-parse/src/parser.rs
index f561db8..75c5ae4 100644
--- a/ruruby-parse/src/parser.rs
+++ b/ruruby-parse/src/parser.rs
@@ -90,6 +90,8 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
 
     fn restore_state(&mut self, state: (usize, usize)) {
         self.lexer.restore_state(state);
+        // Discard the tokens peeked after the state was saved.
+        self.lexer.flush();
     }
 
     fn context_mut(&mut self) -> &mut ParseContext {
-- 
2.43.0


From 1daafaa03b254e9e2d47a67bda290e13c459a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:52 +0000
Subject: [PATCH 68/87] fix: Array#include? asked the argument instead of the
 elements whether they are equal

---
 ruruby/src/builtin/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 88f83be..3c5ebf6 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -513,7 +513,7 @@ fn include(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let target = vm[0];
     let aref = self_val.into_array();
     for item in aref.live_iter() {
-        if vm.eval_eq2(item, target)? {
+        if vm.eval_eq2(target, item)? {
             return Ok(Value::true_val());
         }
     }
-- 
2.43.0


From 03b956855dcae43aea3a4f86ba0255b05f0abc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:02 +0000
Subject: [PATCH 69/87] fix: an assignment in a hash literal swallowed the
 following elements

---
 ruruby-parse/src/parser/literals.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 4babd86..905963b 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -162,6 +162,25 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     }
 
     pub(super) fn parse_hash_literal(&mut self) -> Result<Node, ParseErr> {
+        let old = (
+            self.suppress_mul_assign,
+            self.suppress_bitor,
+            self.suppress_do_block,
+        );
+        // rhs of an assignment in the literal ends at a comma.
+        self.suppress_mul_assign = true;
+        self.suppress_bitor = false;
+        self.suppress_do_block = false;
+        let res = self.parse_hash_elems();
+        (
+            self.suppress_mul_assign,
+            self.suppress_bitor,
+            self.suppress_do_block,
+        ) = old;
+        res
+    }
+
+    fn parse_hash_elems(&mut self) -> Result<Node, ParseErr> {
         let mut kvp = vec![];
         let loc = self.prev_loc();
         loop {
-- 
2.43.0


From 8b63168f4e3c23e6e299fb7c3ed01fd6b929e826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:52 +0000
Subject: [PATCH 70/87] fix: iterate Ranges with bignum bounds; Range#include?
 with bignum or nil bounds

---
 ruruby/src/builtin/range.rs | 126 +++++++++++++++++++++++++-----------
 1 file changed, 90 insertions(+), 36 deletions(-)

diff --git a/ruruby/src/builtin/range.rs b/ruruby/src/builtin/range.rs
index 0be5213..fc1e644 100644
--- a/ruruby/src/builtin/range.rs
+++ b/ruruby/src/builtin/range.rs
@@ -1,4 +1,57 @@
 use crate::*;
+use num::{BigInt, FromPrimitive};
+
+/// The integers in a range.
+enum Integers {
+    Fix(std::ops::Range<i64>),
+    Big(std::ops::Range<BigInt>),
+}
+
+impl Integers {
+    fn first(self, len: i64) -> Self {
+        match self {
+            Self::Fix(r) => Self::Fix(r.start..r.end.min(r.start.saturating_add(len))),
+            Self::Big(r) => {
+                let end = (&r.start + len).min(r.end);
+                Self::Big(r.start..end)
+            }
+        }
+    }
+
+    fn last(self, len: i64) -> Self {
+        match self {
+            Self::Fix(r) => Self::Fix(r.start.max(r.end.saturating_sub(len))..r.end),
+            Self::Big(r) => {
+                let start = (&r.end - len).max(r.start);
+                Self::Big(start..r.end)
+            }
+        }
+    }
+}
+
+impl Iterator for Integers {
+    type Item = Value;
+    fn next(&mut self) -> Option<Self::Item> {
+        match self {
+            Self::Fix(r) => r.next().map(|i| Value::integer(i)),
+            Self::Big(r) => {
+                if r.start >= r.end {
+                    return None;
+                }
+                let v = Value::bignum(r.start.clone());
+                r.start += 1;
+                Some(v)
+            }
+        }
+    }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        match self {
+            Self::Fix(r) => r.size_hint(),
+            Self::Big(_) => (0, None),
+        }
+    }
+}
 
 #[derive(Debug, Clone, Hash)]
 pub struct RangeInfo {
@@ -16,8 +69,27 @@ impl RangeInfo {
         }
     }
 
-    /// Returns the integers in the range as (first one, limit).
-    fn integers(&self) -> Result<std::ops::Range<i64>, RubyError> {
+    /// Returns the integers in the range.
+    fn integers(&self) -> Result<Integers, RubyError> {
+        if self.start.as_bignum().is_some()
+            || (self.end.as_bignum().is_some() && self.start.as_fixnum().is_some())
+        {
+            let to_bigint = |v: Value| match v.to_real() {
+                Some(Real::Bignum(b)) => Some(b),
+                Some(Real::Integer(i)) => Some(BigInt::from(i)),
+                _ => None,
+            };
+            let start = to_bigint(self.start).unwrap();
+            let end = match self.end.as_float() {
+                Some(f) if self.exclude => BigInt::from_f64(f.ceil()),
+                Some(f) => BigInt::from_f64(f.floor()).map(|i| i + 1),
+                None => to_bigint(self.end).map(|i| if self.exclude { i } else { i + 1 }),
+            };
+            return match end {
+                Some(end) => Ok(Integers::Big(start..end)),
+                None => Err(RubyError::typeerr("Can not iterate the range.")),
+            };
+        }
         let start = match self.start.unpack() {
             RV::Integer(i) => i,
             RV::Float(_) => return Err(RubyError::typeerr("Can't iterate from Float.")),
@@ -28,7 +100,7 @@ impl RangeInfo {
             RV::Float(f) => (f.floor() as i64).saturating_add(1),
             _ => self.end.coerce_to_fixnum("End")? + if self.exclude { 0 } else { 1 },
         };
-        Ok(start..end)
+        Ok(Integers::Fix(start..end))
     }
 
     pub(crate) fn eql(&self, other: &Self) -> bool {
@@ -115,14 +187,12 @@ fn first(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if args.len() == 0 {
         return Ok(range.start);
     };
-    let std::ops::Range { start, end } = range.integers()?;
+    let iter = range.integers()?;
     let arg = vm[0].coerce_to_fixnum("Argument")?;
     if arg < 0 {
         return Err(RubyError::argument("Negative array size"));
     };
-    let end = std::cmp::min(end, start.saturating_add(arg));
-    let v = (start..end).map(|i| Value::integer(i)).collect();
-    Ok(Value::array_from(v))
+    Ok(Value::array_from(iter.first(arg).collect()))
 }
 
 fn last(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -131,14 +201,12 @@ fn last(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     if args.len() == 0 {
         return Ok(range.end);
     };
-    let std::ops::Range { start, end } = range.integers()?;
+    let iter = range.integers()?;
     let arg = vm[0].coerce_to_fixnum("Argument")?;
     if arg < 0 {
         return Err(RubyError::argument("Negative array size"));
     };
-    let start = std::cmp::max(start, end.saturating_sub(arg));
-    let v = (start..end).map(|i| Value::integer(i)).collect();
-    Ok(Value::array_from(v))
+    Ok(Value::array_from(iter.last(arg).collect()))
 }
 
 fn map(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -146,7 +214,7 @@ fn map(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let range = self_val.as_range().unwrap();
     let block = args.expect_block()?;
     let iter = range.integers()?;
-    let res = vm.eval_block_map1_iter(block, iter.map(|i| Value::integer(i)))?;
+    let res = vm.eval_block_map1_iter(block, iter)?;
     Ok(res)
 }
 
@@ -158,7 +226,7 @@ fn flat_map(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let len = vm.temp_len();
     let f = vm.eval_block_map1(block);
     for i in iter {
-        let val = f(vm, Value::integer(i))?;
+        let val = f(vm, i)?;
         match val.as_array() {
             Some(aref) => {
                 vm.temp_extend_from_slice(&**aref);
@@ -183,7 +251,7 @@ fn each(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(block) => block,
     };
     let iter = range.integers()?;
-    vm.eval_block_each1_iter(block, iter.map(|i| Value::integer(i)), self_val)
+    vm.eval_block_each1_iter(block, iter, self_val)
 }
 
 fn all(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
@@ -193,7 +261,7 @@ fn all(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     let iter = range.integers()?;
     let f = vm.eval_block_map1(block);
     for i in iter {
-        let res = f(vm, Value::integer(i))?;
+        let res = f(vm, i)?;
         if !res.to_bool() {
             return Ok(Value::false_val());
         }
@@ -209,9 +277,8 @@ fn to_a(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         end,
         exclude,
     } = *range;
-    if start.as_fixnum().is_some() {
-        let v = range.integers()?.map(|i| Value::integer(i)).collect();
-        Ok(Value::array_from(v))
+    if start.as_fixnum().is_some() || start.as_bignum().is_some() {
+        Ok(Value::array_from(range.integers()?.collect()))
     } else if let Some(start) = start.as_string() {
         let mut end = end;
         let end = end.expect_string("Range.end")?;
@@ -242,25 +309,12 @@ fn exclude_end(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 fn include(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let range = self_val.as_range().unwrap();
-    match range.start.unpack() {
-        RV::Integer(start) => {
-            let start = Real::Integer(start);
-            let end = range.end.to_real().unwrap();
-            let val = match vm[0].to_real() {
-                Some(real) => real,
-                None => return Ok(Value::false_val()),
-            };
-            let b = val.included(&start, &end, range.exclude);
-            Ok(Value::bool(b))
-        }
-        RV::Float(start) => {
-            let start = Real::Float(start);
-            let end = range.end.to_real().unwrap();
-            let val = match vm[0].to_real() {
-                Some(real) => real,
-                None => return Ok(Value::false_val()),
+    match (range.start.to_real(), range.end.to_real()) {
+        (Some(start), Some(end)) => {
+            let b = match vm[0].to_real() {
+                Some(val) => val.included(&start, &end, range.exclude),
+                None => false,
             };
-            let b = val.included(&start, &end, range.exclude);
             Ok(Value::bool(b))
         }
         _ => {
-- 
2.43.0


From 3665a71e2a1a8ef244d70fa7bab8fde66a51d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:52 +0000
Subject: [PATCH 71/87] fix: Integer#upto, #downto and #step with Float
 arguments

---
 ruruby/src/builtin/integer.rs | 90 ++++++++++++++++++++++++++++++++---
 1 file changed, 83 insertions(+), 7 deletions(-)

diff --git a/ruruby/src/builtin/integer.rs b/ruruby/src/builtin/integer.rs
index 27c9232..f4b604f 100644
--- a/ruruby/src/builtin/integer.rs
+++ b/ruruby/src/builtin/integer.rs
@@ -1,6 +1,6 @@
 use crate::*;
 use num::Integer;
-use num::{bigint::ToBigInt, BigInt, Signed, ToPrimitive, Zero};
+use num::{bigint::ToBigInt, BigInt, FromPrimitive, Signed, ToPrimitive, Zero};
 use std::convert::TryInto;
 use std::ops::{BitAnd, BitOr, BitXor};
 
@@ -388,12 +388,13 @@ fn upto(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    if is_bignum(&[self_val, vm[0]]) {
-        let iter = BigStep::new(self_val, vm[0], Value::fixnum(1))?;
+    let limit = int_limit(vm[0], f64::floor);
+    if is_bignum(&[self_val, limit]) {
+        let iter = BigStep::new(self_val, limit, Value::fixnum(1))?;
         return vm.eval_block_each1_iter(block, iter, self_val);
     }
     let num = self_val.coerce_to_fixnum("Receiver")?;
-    let max = vm[0].coerce_to_fixnum("Arg")?;
+    let max = limit.coerce_to_fixnum("Arg")?;
     if num <= max {
         let iter = (num..=max).map(|i| Value::integer(i));
         vm.eval_block_each1_iter(block, iter, self_val)
@@ -416,12 +417,13 @@ fn downto(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         }
         Some(block) => block,
     };
-    if is_bignum(&[self_val, vm[0]]) {
-        let iter = BigStep::new(self_val, vm[0], Value::fixnum(-1))?;
+    let limit = int_limit(vm[0], f64::ceil);
+    if is_bignum(&[self_val, limit]) {
+        let iter = BigStep::new(self_val, limit, Value::fixnum(-1))?;
         return vm.eval_block_each1_iter(block, iter, self_val);
     }
     let num = self_val.coerce_to_fixnum("Receiver")?;
-    let min = vm[0].coerce_to_fixnum("Arg")?;
+    let min = limit.coerce_to_fixnum("Arg")?;
     if num >= min {
         let iter = (min..=num).rev().map(|i| Value::integer(i));
         //Ok(self_val)
@@ -431,6 +433,14 @@ fn downto(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     }
 }
 
+/// Convert a limit of an iteration to Integer if it is a finite Float.
+fn int_limit(limit: Value, round: fn(f64) -> f64) -> Value {
+    match limit.as_float().and_then(|f| BigInt::from_f64(round(f))) {
+        Some(i) => Value::bignum(i),
+        None => limit,
+    }
+}
+
 fn is_bignum(values: &[Value]) -> bool {
     values.iter().any(|v| v.as_bignum().is_some())
 }
@@ -475,6 +485,64 @@ impl Iterator for BigStep {
     }
 }
 
+/// Steps of floats.
+///
+/// The values are calculated by multiplication in order not to accumulate errors.
+struct FloatStep {
+    start: f64,
+    limit: f64,
+    step: f64,
+    idx: f64,
+    len: f64,
+}
+
+impl FloatStep {
+    fn new(start: f64, limit: f64, step: f64) -> Result<Self, RubyError> {
+        if step == 0.0 {
+            return Err(RubyError::argument("Step can not be 0."));
+        }
+        let n = (limit - start) / step;
+        let err =
+            (start.abs() + limit.abs() + (limit - start).abs()) / step.abs() * f64::EPSILON;
+        let len = if step.is_infinite() {
+            if (step > 0.0 && start <= limit) || (step < 0.0 && start >= limit) {
+                1.0
+            } else {
+                0.0
+            }
+        } else if n < 0.0 {
+            0.0
+        } else {
+            (n + err.min(0.5)).floor() + 1.0
+        };
+        Ok(Self {
+            start,
+            limit,
+            step,
+            idx: 0.0,
+            len,
+        })
+    }
+}
+
+impl Iterator for FloatStep {
+    type Item = Value;
+    fn next(&mut self) -> Option<Self::Item> {
+        if !(self.idx < self.len) {
+            return None;
+        }
+        let mut f = self.start;
+        if self.idx != 0.0 {
+            f += self.idx * self.step;
+        }
+        if (self.step > 0.0 && f > self.limit) || (self.step < 0.0 && f < self.limit) {
+            f = self.limit;
+        }
+        self.idx += 1.0;
+        Some(Value::float(f))
+    }
+}
+
 struct PosStep {
     cur: i64,
     limit: i64,
@@ -548,6 +616,14 @@ fn step(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     } else {
         Value::fixnum(1)
     };
+    if vm[0].as_float().is_some() || step.as_float().is_some() {
+        let to_float = |v: Value| match v.to_real() {
+            Some(r) => Ok(r.to_f64()),
+            None => Err(VMError::cant_coerse(v, "Float")),
+        };
+        let iter = FloatStep::new(to_float(self_val)?, to_float(vm[0])?, to_float(step)?)?;
+        return vm.eval_block_each1_iter(block, iter, self_val);
+    }
     if is_bignum(&[self_val, vm[0], step]) {
         let iter = BigStep::new(self_val, vm[0], step)?;
         return vm.eval_block_each1_iter(block, iter, self_val);
-- 
2.43.0


From 6777d644c42fd696e674fc48a78d79899e701702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:52 +0000
Subject: [PATCH 72/87] fix: Comparable and sorting accept a Float result of
 <=>

---
 ruruby/src/builtin/comparable.rs | 33 +++++++++++++-------------------
 ruruby/src/value/value.rs        |  2 ++
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/ruruby/src/builtin/comparable.rs b/ruruby/src/builtin/comparable.rs
index 0e06822..b6337ec 100644
--- a/ruruby/src/builtin/comparable.rs
+++ b/ruruby/src/builtin/comparable.rs
@@ -2,7 +2,7 @@
 /// Comparable module
 ///
 use crate::*;
-use num::Signed;
+use std::cmp::Ordering;
 
 pub(crate) fn init(globals: &mut Globals) -> Module {
     let class = Module::module();
@@ -18,48 +18,41 @@ pub(crate) fn init(globals: &mut Globals) -> Module {
 fn eq(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(1)?;
     let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    let b = match res.as_fixnum() {
-        Some(cmp) => match cmp {
-            0 => true,
-            _ => false,
-        },
-        None => false,
+    let b = match res.to_ordering() {
+        Ok(ord) => ord.is_eq(),
+        Err(_) => false,
     };
     Ok(Value::bool(b))
 }
 
 /// Compare by `<=>`.
-fn compare(vm: &mut VM, self_val: Value, args: &Args2) -> Result<i64, RubyError> {
+fn compare(vm: &mut VM, self_val: Value, args: &Args2) -> Result<Ordering, RubyError> {
     args.check_args_num(1)?;
     let other = vm[0];
     let res = vm.eval_send(IdentId::_CMP, self_val, &args.into(vm))?;
-    if let Some(i) = res.as_fixnum() {
-        Ok(i)
-    } else if let Some(b) = res.as_bignum() {
-        Ok(if b.is_negative() { -1 } else { 1 })
-    } else {
-        Err(RubyError::argument(format!(
+    res.to_ordering().map_err(|_| {
+        RubyError::argument(format!(
             "Comparison of {} with {} failed.",
             self_val.get_class_name(),
             other.get_class_name()
-        )))
-    }
+        ))
+    })
 }
 
 fn le(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    Ok(Value::bool(compare(vm, self_val, args)? <= 0))
+    Ok(Value::bool(compare(vm, self_val, args)?.is_le()))
 }
 
 fn lt(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    Ok(Value::bool(compare(vm, self_val, args)? < 0))
+    Ok(Value::bool(compare(vm, self_val, args)?.is_lt()))
 }
 
 fn ge(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    Ok(Value::bool(compare(vm, self_val, args)? >= 0))
+    Ok(Value::bool(compare(vm, self_val, args)?.is_ge()))
 }
 
 fn gt(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    Ok(Value::bool(compare(vm, self_val, args)? > 0))
+    Ok(Value::bool(compare(vm, self_val, args)?.is_gt()))
 }
 
 #[cfg(test)]
diff --git a/ruruby/src/value/value.rs b/ruruby/src/value/value.rs
index ec3e1f5..8fdb25f 100644
--- a/ruruby/src/value/value.rs
+++ b/ruruby/src/value/value.rs
@@ -1232,6 +1232,8 @@ impl Value {
                 Sign::Minus => Ok(Ordering::Less),
                 _ => Ok(Ordering::Equal),
             }
+        } else if let Some(f) = self.as_float() {
+            Ok(f.partial_cmp(&0.0).unwrap_or(Ordering::Equal))
         } else {
             Err(RubyError::argument("Ordering value must be Integer."))
         }
-- 
2.43.0


From ee7fbf4ba999bf42f2f0574149e8c5613f1d8108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:52 +0000
Subject: [PATCH 73/87] fix: keep the block of a native method alive during GC

---
 ruruby/src/vm/executor/method.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index 769ee8d..be65c52 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -565,6 +565,12 @@ impl VM {
         self.push_native_frame(args.len());
 
         let temp_len = self.temp_len();
+        // The block (and the keyword arguments) are not on the ruby stack.
+        // Keep them alive while the native method is running.
+        if let Some(Block::Proc(proc)) = &args.block {
+            self.temp_push(*proc);
+        }
+        self.temp_push(args.kw_arg);
         let res = func(self, self.self_value(), args);
         self.temp_stack.truncate(temp_len);
 
-- 
2.43.0


From b629cfe2a3cd8733123288754e4dfb40722edc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:52 +0000
Subject: [PATCH 74/87] fix: Array#<=> returns the result of <=> of the
 elements and survives their mutation

---
 ruruby/src/builtin/array.rs | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 3c5ebf6..e7673c8 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -204,29 +204,16 @@ fn cmp(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         Some(aref) => aref,
         None => return Ok(Value::nil()),
     };
-    if lhs.len() >= rhs.len() {
-        for (i, rhs_v) in rhs.iter().enumerate() {
-            match vm.eval_compare(*rhs_v, lhs[i])?.as_fixnum() {
-                Some(0) => {}
-                Some(ord) => return Ok(Value::fixnum(ord)),
-                None => return Ok(Value::nil()),
-            }
-        }
-        if lhs.len() == rhs.len() {
-            Ok(Value::fixnum(0))
-        } else {
-            Ok(Value::fixnum(1))
-        }
-    } else {
-        for (i, lhs_v) in lhs.iter().enumerate() {
-            match vm.eval_compare(rhs[i], *lhs_v)?.as_fixnum() {
-                Some(0) => {}
-                Some(ord) => return Ok(Value::fixnum(ord)),
-                None => return Ok(Value::nil()),
-            }
+    // <=> of the elements may change the arrays.
+    let mut i = 0;
+    while i < lhs.len() && i < rhs.len() {
+        let ord = vm.eval_compare(rhs[i], lhs[i])?;
+        if ord.as_fixnum() != Some(0) {
+            return Ok(ord);
         }
-        Ok(Value::fixnum(-1))
+        i += 1;
     }
+    Ok(Value::integer(lhs.len().cmp(&rhs.len()) as i64))
 }
 
 fn push(vm: &mut VM, self_val: Value, _args: &Args2) -> VMResult {
-- 
2.43.0


From 1ada9d4f27b31c36ea175561b3883f72eb81d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:52 +0000
Subject: [PATCH 75/87] fix: keep the elements alive during Array#min and
 Array#max

---
 ruruby/src/builtin/array.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index e7673c8..01bd497 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -612,7 +612,9 @@ fn min(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         return Ok(Value::nil());
     }
     let mut min = aref[0];
-    for elem in aref[1..].to_vec() {
+    let ary = aref.to_vec();
+    vm.temp_extend_from_slice(&ary);
+    for elem in ary.into_iter().skip(1) {
         if vm.eval_compare(min, elem)?.to_ordering()? == std::cmp::Ordering::Less {
             min = elem;
         };
@@ -627,7 +629,9 @@ fn max(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
         return Ok(Value::nil());
     }
     let mut max = aref[0];
-    for elem in aref[1..].to_vec() {
+    let ary = aref.to_vec();
+    vm.temp_extend_from_slice(&ary);
+    for elem in ary.into_iter().skip(1) {
         if vm.eval_compare(max, elem)?.to_ordering()? == std::cmp::Ordering::Greater {
             max = elem;
         };
-- 
2.43.0


From 0a7da8355ad86eb63e02436030ffa4ee3654f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:09 +0000
Subject: [PATCH 76/87] fix: quote symbols in inspect which can not be written
 as they are

---
 ruruby/src/builtin/symbol.rs |  2 +-
 ruruby/src/vm/executor.rs    | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/symbol.rs b/ruruby/src/builtin/symbol.rs
index 58e6812..01185d1 100644
--- a/ruruby/src/builtin/symbol.rs
+++ b/ruruby/src/builtin/symbol.rs
@@ -37,7 +37,7 @@ fn to_proc(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
 
 fn inspect(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    let s = format!(":{:?}", self_val.as_symbol().unwrap());
+    let s = symbol_inspect(self_val.as_symbol().unwrap());
     Ok(Value::string(s))
 }
 
diff --git a/ruruby/src/vm/executor.rs b/ruruby/src/vm/executor.rs
index ef4f015..d23e33f 100644
--- a/ruruby/src/vm/executor.rs
+++ b/ruruby/src/vm/executor.rs
@@ -900,7 +900,7 @@ impl VM {
                     f.to_string()
                 }
             }
-            RV::Symbol(sym) => format!(":{:?}", sym),
+            RV::Symbol(sym) => symbol_inspect(sym),
             RV::Object(oref) => match oref.kind() {
                 ObjKind::INVALID => "[Invalid]".to_string(),
                 ObjKind::STRING => oref.string().inspect(),
@@ -1150,3 +1150,33 @@ impl VM {
         RegexpInfo::from_string(&mut self.globals, string).map_err(VMError::regexp)
     }
 }
+
+/// Inspect `sym`. Symbols which can not be written as they are get quoted.
+pub(crate) fn symbol_inspect(sym: IdentId) -> String {
+    let name = sym.get_name();
+    let is_ident = |s: &str| {
+        let mut chars = s.chars();
+        match chars.next() {
+            Some(c) if c.is_ascii_alphabetic() || c == '_' || !c.is_ascii() => {
+                chars.all(|c| c.is_ascii_alphanumeric() || c == '_' || !c.is_ascii())
+            }
+            _ => false,
+        }
+    };
+    let is_operator = matches!(
+        name.as_str(),
+        "+" | "-" | "*" | "/" | "%" | "**" | "+@" | "-@" | "~" | "!" | "==" | "!=" | "===" | "=~"
+            | "!~" | "<=>" | "<" | "<=" | ">" | ">=" | "<<" | ">>" | "&" | "|" | "^" | "[]"
+            | "[]=" | "`"
+    );
+    let plain = is_operator
+        || is_ident(name.strip_suffix(&['?', '!', '='][..]).unwrap_or(&name))
+        || ["@@", "@", "$"]
+            .iter()
+            .any(|prefix| name.strip_prefix(prefix).map_or(false, is_ident));
+    if plain {
+        format!(":{}", name)
+    } else {
+        format!(":{}", RString::from(name).inspect())
+    }
+}
-- 
2.43.0


From 3a9bdd3b3732e4d2a9b2f95592ec72f01b300b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:09 +0000
Subject: [PATCH 77/87] fix: String#<< with an Integer appends the code point

---
 ruruby/src/builtin/string.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ruruby/src/builtin/string.rs b/ruruby/src/builtin/string.rs
index 81e7090..6e7e249 100644
--- a/ruruby/src/builtin/string.rs
+++ b/ruruby/src/builtin/string.rs
@@ -1,5 +1,6 @@
 use crate::vm::*;
 use crate::*;
+use std::convert::TryFrom;
 
 pub(crate) fn init(globals: &mut Globals) -> Value {
     let class = Module::class_under_object();
@@ -285,8 +286,18 @@ fn concat(vm: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
         Some(rhs) => lhs.append(&rhs.clone()),
         None => match vm[0].as_fixnum() {
             Some(i) => {
-                let rhs = RString::Bytes(vec![i as i8 as u8]);
-                lhs.append(&rhs);
+                let rhs = match lhs {
+                    // code point
+                    RString::Str(_) | RString::SmallStr(_) => {
+                        let ch = u32::try_from(i).ok().and_then(char::from_u32);
+                        ch.map(|ch| RString::Str(ch.to_string()))
+                    }
+                    RString::Bytes(_) => u8::try_from(i).ok().map(|b| RString::Bytes(vec![b])),
+                };
+                match rhs {
+                    Some(rhs) => lhs.append(&rhs),
+                    None => return Err(RubyError::range(format!("{} out of char range.", i))),
+                }
             }
             None => return Err(RubyError::argument("Arg must be String or Integer.")),
         },
-- 
2.43.0


From 5a034548ab2c392f833fd1feab04863437c1cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:09 +0000
Subject: [PATCH 78/87] fix: brackets and adjacent strings after an
 interpolation

---
 ruruby-parse/src/parser/literals.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 905963b..ea54681 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -35,16 +35,24 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
     pub(super) fn parse_interporated_string_literal(
         &mut self,
         s: &str,
-        delimiter: Option<char>,
-        level: usize,
+        mut delimiter: Option<char>,
+        mut level: usize,
     ) -> Result<Node, ParseErr> {
         let start_loc = self.prev_loc();
         let mut nodes = vec![Node::new_string(s.to_string(), start_loc)];
         loop {
             self.parse_template(&mut nodes)?;
+            // Brackets can be nested also after an interpolation.
+            let open = match delimiter {
+                Some(')') => Some('('),
+                Some('}') => Some('{'),
+                Some(']') => Some('['),
+                Some('>') => Some('<'),
+                _ => None,
+            };
             let tok = self
                 .lexer
-                .read_string_literal_double(None, delimiter, level)?;
+                .read_string_literal_double(open, delimiter, level)?;
             let mut loc = tok.loc();
             match tok.kind {
                 TokenKind::StringLit(mut s) => {
@@ -55,10 +63,12 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                                 s += &next_s;
                                 loc = loc.merge(t.loc);
                             }
-                            TokenKind::OpenString(next_s, _, _) => {
+                            TokenKind::OpenString(next_s, next_delimiter, next_level) => {
                                 let t = self.get()?;
                                 s += &next_s;
                                 loc = loc.merge(t.loc);
+                                delimiter = next_delimiter;
+                                level = next_level;
                                 break;
                             }
                             _ => {
@@ -72,8 +82,9 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
                     }
                     nodes.push(Node::new_string(s.clone(), loc));
                 }
-                TokenKind::OpenString(s, _, _) => {
+                TokenKind::OpenString(s, _, next_level) => {
                     nodes.push(Node::new_string(s.clone(), loc));
+                    level = next_level;
                 }
                 _ => unreachable!("{:?}", tok),
             }
-- 
2.43.0


From 9e9d05293e0938acbd40df94483f28d336542d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:16 +0000
Subject: [PATCH 79/87] fix: escapes in single-quoted strings, %q, %w and %i

---
 ruruby-parse/src/parser/lexer.rs    | 59 +++++++++++++++++++++++------
 ruruby-parse/src/parser/literals.rs | 43 ++++++++++++++++-----
 2 files changed, 81 insertions(+), 21 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 5d60df9..0d33d59 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -845,11 +845,14 @@ impl<'a> Lexer<'a> {
     }
 
     /// Read string literal '..' or %q{..}
+    ///
+    /// Only a backslash and the delimiters can be escaped.
+    /// If `keep_escape` is true, a backslash before other than the delimiters is kept as it is.
     fn read_string_literal_single(
         &mut self,
         open: Option<char>,
         term: char,
-        escape_backslash: bool,
+        keep_escape: bool,
     ) -> Result<String, ParseErr> {
         let mut s = "".to_string();
         let mut level = 0;
@@ -868,18 +871,14 @@ impl<'a> Lexer<'a> {
                     }
                 }
                 '\\' => {
-                    // continuation line
-                    if self.consume_newline() {
-                        continue;
-                    };
                     let c = self.get()?;
-                    if c == '\'' {
-                        s.push('\'');
-                    } else if c == '\\' {
+                    if c == '\\' {
                         s.push('\\');
-                        if escape_backslash {
+                        if keep_escape {
                             s.push('\\');
                         }
+                    } else if c == term || open == Some(c) {
+                        s.push(c);
                     } else {
                         s.push('\\');
                         s.push(c);
@@ -890,6 +889,44 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Read regular expression %r{..}
+    fn read_regexp_literal_percent(
+        &mut self,
+        open: Option<char>,
+        term: char,
+    ) -> Result<String, ParseErr> {
+        let mut s = "".to_string();
+        let mut level = 0;
+        loop {
+            match self.get()? {
+                c if open == Some(c) => {
+                    s.push(c);
+                    level += 1;
+                }
+                c if c == term => {
+                    if level == 0 {
+                        return Ok(s);
+                    } else {
+                        s.push(c);
+                        level -= 1;
+                    }
+                }
+                '\\' => {
+                    // continuation line
+                    if self.consume_newline() {
+                        continue;
+                    };
+                    let c = self.get()?;
+                    if c != '\'' {
+                        s.push('\\');
+                    }
+                    s.push(c);
+                }
+                c => s.push(c),
+            }
+        }
+    }
+
     /// Read char literal.
     pub(crate) fn read_char_literal(&mut self) -> Result<char, ParseErr> {
         let c = self.get()?;
@@ -1020,11 +1057,11 @@ impl<'a> Lexer<'a> {
             }
             Some('Q') | None => Ok(self.read_string_literal_double(open, Some(term), 0)?),
             Some('r') => {
-                let s = self.read_string_literal_single(open, term, true)?;
+                let s = self.read_regexp_literal_percent(open, term)?;
                 Ok(self.new_percent('r', s))
             }
             Some(kind) => {
-                let s = self.read_string_literal_single(open, term, false)?;
+                let s = self.read_string_literal_single(open, term, true)?;
                 Ok(self.new_percent(kind, s))
             }
         }
diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index ea54681..3bd2089 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -1,6 +1,33 @@
 use super::lexer::ParseMode;
 use super::*;
 
+/// Split the content of %w or %i into words.
+/// A whitespace is a part of a word if it follows a backslash.
+fn split_words(content: &str) -> Vec<String> {
+    let mut words = vec![];
+    let mut word: Option<String> = None;
+    let mut chars = content.chars();
+    while let Some(c) = chars.next() {
+        if c.is_ascii_whitespace() || c == '\x0b' {
+            words.extend(word.take());
+            continue;
+        }
+        let word = word.get_or_insert_with(String::new);
+        match c {
+            '\\' => match chars.next() {
+                Some(c) if c == '\\' || c.is_ascii_whitespace() || c == '\x0b' => word.push(c),
+                c => {
+                    word.push('\\');
+                    word.extend(c);
+                }
+            },
+            c => word.push(c),
+        }
+    }
+    words.extend(word);
+    words
+}
+
 // Parse
 impl<'a, A: LocalsContext> Parser<'a, A> {
     /// Parse char literals.
@@ -96,21 +123,17 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
         let loc = tok.loc;
         if let TokenKind::PercentNotation(kind, content) = tok.kind {
             match kind {
-                // TODO: backslash-space must be valid in %w and %i.
-                // e.g. "foo\ bar" => "foo bar"
                 'w' => {
-                    let ary = content
-                        .split(|c| c == ' ' || c == '\n')
-                        .filter(|x| x != &"")
-                        .map(|x| Node::new_string(x.to_string(), loc))
+                    let ary = split_words(&content)
+                        .into_iter()
+                        .map(|x| Node::new_string(x, loc))
                         .collect();
                     Ok(Node::new_array(ary, tok.loc))
                 }
                 'i' => {
-                    let ary = content
-                        .split(|c| c == ' ' || c == '\n')
-                        .filter(|x| x != &"")
-                        .map(|x| Node::new_symbol(IdentId::get_id(x), loc))
+                    let ary = split_words(&content)
+                        .into_iter()
+                        .map(|x| Node::new_symbol(IdentId::get_id(&x), loc))
                         .collect();
                     Ok(Node::new_array(ary, tok.loc))
                 }
-- 
2.43.0


From 16ca4f8182a255052f73dee0a7e5e1f91fbd56c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:16 +0000
Subject: [PATCH 80/87] fix: symbols of global variables and non-ASCII names

---
 ruruby-parse/src/parser/lexer.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index 0d33d59..e413c9e 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -532,7 +532,7 @@ impl<'a> Lexer<'a> {
         while self.consume_whitespace() || self.consume_newline() {}
         self.token_start_pos = self.pos;
         let ch = self.get()?;
-        if ch.is_ascii_alphabetic() || ch == '_' {
+        if ch.is_ascii_alphabetic() || ch == '_' || !ch.is_ascii() {
             self.consume_ident();
             match self.peek() {
                 Some(ch)
@@ -599,7 +599,19 @@ impl<'a> Lexer<'a> {
                 self.consume('@');
                 self.consume('@');
                 let ch = self.get()?;
-                if !ch.is_ascii_alphabetic() && ch != '_' {
+                if !ch.is_ascii_alphabetic() && ch != '_' && ch.is_ascii() {
+                    return Err(self.error_unexpected(self.pos - ch.len_utf8()));
+                }
+                self.consume_ident();
+                Ok(Some((
+                    IdentId::get_id(self.current_slice()),
+                    Loc(self.token_start_pos, self.pos),
+                )))
+            }
+            '$' => {
+                self.get()?;
+                let ch = self.get()?;
+                if !ch.is_ascii_alphabetic() && ch != '_' && ch.is_ascii() {
                     return Err(self.error_unexpected(self.pos - ch.len_utf8()));
                 }
                 self.consume_ident();
@@ -1236,7 +1248,9 @@ impl<'a> Lexer<'a> {
         let start = self.pos;
         loop {
             match self.peek() {
-                Some(ch) if ch.is_ascii_alphanumeric() || ch == '_' => self.get().unwrap(),
+                Some(ch) if ch.is_ascii_alphanumeric() || ch == '_' || !ch.is_ascii() => {
+                    self.get().unwrap()
+                }
                 _ => break,
             };
         }
-- 
2.43.0


From d691597bcedadcdcabb7dbefc9ddca95751c6e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:16 +0000
Subject: [PATCH 81/87] fix: remove the common indentation of <<~ here
 documents

---
 ruruby-parse/src/parser/lexer.rs    | 72 +++++++++++++++++++++++++++--
 ruruby-parse/src/parser/literals.rs |  7 ++-
 2 files changed, 73 insertions(+), 6 deletions(-)

diff --git a/ruruby-parse/src/parser/lexer.rs b/ruruby-parse/src/parser/lexer.rs
index e413c9e..2235464 100644
--- a/ruruby-parse/src/parser/lexer.rs
+++ b/ruruby-parse/src/parser/lexer.rs
@@ -16,6 +16,8 @@ pub struct Lexer<'a> {
     token_start_pos: usize,
     pos: usize,
     heredoc_pos: usize,
+    /// Width of the indentation to be removed from each line. (<<~)
+    indent: usize,
     buf: Option<Token>,
     buf_skip_lt: Option<Token>,
     pub code: &'a str,
@@ -44,23 +46,76 @@ enum InterpolateState {
     NewInterpolation(String, usize), // (string, paren_level)
 }
 
+/// The length in bytes of the indentation of `line` up to `width` columns.
+/// A tab is not divided.
+fn indent_len(line: &str, width: usize) -> usize {
+    let mut col = 0;
+    for (i, c) in line.bytes().enumerate() {
+        col = match c {
+            b' ' => col + 1,
+            b'\t' => (col / 8 + 1) * 8,
+            _ => return i,
+        };
+        if col > width {
+            return i;
+        }
+    }
+    line.len()
+}
+
+/// The width of the least indentation of the lines that are not blank.
+fn common_indent(text: &str) -> usize {
+    text.lines()
+        .filter(|line| !line.trim_start_matches(&[' ', '\t'][..]).is_empty())
+        .map(|line| {
+            line.bytes()
+                .take_while(|c| matches!(c, b' ' | b'\t'))
+                .fold(0, |col, c| match c {
+                    b' ' => col + 1,
+                    _ => (col / 8 + 1) * 8,
+                })
+        })
+        .min()
+        .unwrap_or(0)
+}
+
+/// Remove the indentation of each line up to `width` columns.
+pub(crate) fn remove_indent(text: &str, width: usize) -> String {
+    text.split_inclusive('\n')
+        .map(|line| &line[indent_len(line, width)..])
+        .collect()
+}
+
 impl<'a> Lexer<'a> {
     pub(crate) fn new(code: &'a str) -> Self {
         Lexer {
             token_start_pos: 0,
             pos: 0,
             heredoc_pos: 0,
+            indent: 0,
             buf: None,
             buf_skip_lt: None,
             code,
         }
     }
 
+    /// Set the width of the indentation to be removed, and skip that of the first line.
+    pub(crate) fn set_indent(&mut self, indent: usize) {
+        self.indent = indent;
+        self.skip_indent();
+    }
+
+    /// Skip the indentation at the beginning of a line.
+    fn skip_indent(&mut self) {
+        self.pos += indent_len(&self.code[self.pos..], self.indent);
+    }
+
     pub(crate) fn new_with_range(&self, pos: usize, end: usize) -> Self {
         Lexer {
             token_start_pos: pos,
             pos,
             heredoc_pos: 0,
+            indent: 0,
             buf: None,
             buf_skip_lt: None,
             code: &self.code[..end],
@@ -849,7 +904,10 @@ impl<'a> Lexer<'a> {
                     if self.heredoc_pos > self.pos {
                         self.pos = self.heredoc_pos;
                     }
-                    s.push('\n')
+                    s.push('\n');
+                    if term.is_none() {
+                        self.skip_indent();
+                    }
                 }
                 c => s.push(c),
             }
@@ -1121,12 +1179,14 @@ impl<'a> Lexer<'a> {
         Ok(ch)
     }
 
-    pub(crate) fn read_heredocument(&mut self) -> Result<(ParseMode, usize, usize), ParseErr> {
+    /// Returns the mode, the start and end position, and the width of indentation to be removed.
+    pub(crate) fn read_heredocument(
+        &mut self,
+    ) -> Result<(ParseMode, usize, usize, usize), ParseErr> {
         #[derive(Clone, PartialEq)]
         enum TermMode {
             Normal,
             AllowIndent,
-            // TODO currently, not supported.
             Squiggly,
         }
 
@@ -1198,7 +1258,11 @@ impl<'a> Lexer<'a> {
         }
         self.heredoc_pos = self.pos;
         self.restore_state(save);
-        Ok((parse_mode, heredoc_start, heredoc_end))
+        let indent = match term_mode {
+            TermMode::Squiggly => common_indent(&self.code[heredoc_start..heredoc_end]),
+            _ => 0,
+        };
+        Ok((parse_mode, heredoc_start, heredoc_end, indent))
     }
 }
 
diff --git a/ruruby-parse/src/parser/literals.rs b/ruruby-parse/src/parser/literals.rs
index 3bd2089..0f6a292 100644
--- a/ruruby-parse/src/parser/literals.rs
+++ b/ruruby-parse/src/parser/literals.rs
@@ -158,13 +158,15 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             let loc = self.prev_loc();
             return Err(error_unexpected(loc, "Unexpectd <<."));
         }
-        let (mode, start, end) = self.lexer.read_heredocument()?;
+        let (mode, start, end, indent) = self.lexer.read_heredocument()?;
         let node = match mode {
             ParseMode::Single => {
-                Node::new_string(self.lexer.code[start..end].to_string(), Loc(start, end))
+                let s = lexer::remove_indent(&self.lexer.code[start..end], indent);
+                Node::new_string(s, Loc(start, end))
             }
             ParseMode::Double => {
                 let mut parser = self.new_with_range(start, end);
+                parser.lexer.set_indent(indent);
                 let tok = parser.lexer.read_string_literal_double(None, None, 0)?;
                 let loc = tok.loc();
                 match tok.kind {
@@ -177,6 +179,7 @@ impl<'a, A: LocalsContext> Parser<'a, A> {
             }
             ParseMode::Command => {
                 let mut parser = self.new_with_range(start, end);
+                parser.lexer.set_indent(indent);
                 let tok = parser.lexer.read_command_literal(None, None, 0)?;
                 let loc = tok.loc();
                 match tok.kind {
-- 
2.43.0


From 1ed837c92fd20a9801250062db56d705143e95df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:34 +0000
Subject: [PATCH 82/87] fix: keep the class and the instance variables in
 copies of arrays and hashes

---
 ruruby/src/builtin/array.rs | 8 --------
 ruruby/src/builtin/hash.rs  | 8 --------
 2 files changed, 16 deletions(-)

diff --git a/ruruby/src/builtin/array.rs b/ruruby/src/builtin/array.rs
index 01bd497..0c4af78 100644
--- a/ruruby/src/builtin/array.rs
+++ b/ruruby/src/builtin/array.rs
@@ -56,8 +56,6 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "max", max);
     class.add_builtin_method_by_str(globals, "first", first);
     class.add_builtin_method_by_str(globals, "last", last);
-    class.add_builtin_method_by_str(globals, "dup", dup);
-    class.add_builtin_method_by_str(globals, "clone", dup);
     class.add_builtin_method_by_str(globals, "pack", pack);
     class.add_builtin_method_by_str(globals, "join", join);
     class.add_builtin_method_by_str(globals, "drop", drop);
@@ -799,12 +797,6 @@ fn last(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     }
 }
 
-fn dup(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(0)?;
-    let aref = self_val.into_array();
-    Ok(Value::array_from(aref.to_vec()))
-}
-
 fn pack(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_range(0, 1)?;
     let aref = self_val.into_array();
diff --git a/ruruby/src/builtin/hash.rs b/ruruby/src/builtin/hash.rs
index e5d8f42..5d6a85b 100644
--- a/ruruby/src/builtin/hash.rs
+++ b/ruruby/src/builtin/hash.rs
@@ -8,8 +8,6 @@ pub(crate) fn init(globals: &mut Globals) -> Value {
     class.add_builtin_method_by_str(globals, "to_s", inspect);
     class.add_builtin_method_by_str(globals, "inspect", inspect);
     class.add_builtin_method_by_str(globals, "clear", clear);
-    class.add_builtin_method_by_str(globals, "clone", clone);
-    class.add_builtin_method_by_str(globals, "dup", clone);
     class.add_builtin_method_by_str(globals, "compact", compact);
     class.add_builtin_method_by_str(globals, "delete", delete);
     class.add_builtin_method_by_str(globals, "empty?", empty);
@@ -92,12 +90,6 @@ fn clear(_: &mut VM, mut self_val: Value, args: &Args2) -> VMResult {
     Ok(self_val)
 }
 
-fn clone(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
-    args.check_args_num(0)?;
-    let hash = self_val.as_hash().unwrap();
-    Ok(Value::hash_from(hash.clone()))
-}
-
 fn compact(_: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
     let mut hash = self_val.expect_hash("Receiver")?.clone();
-- 
2.43.0


From f28333812fe2fc3eb3dfdcf98fa0eab32a19ef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:34 +0000
Subject: [PATCH 83/87] fix: copy the methods of the singleton class by clone,
 and of a class by dup and clone

---
 ruruby/src/builtin/object.rs | 25 ++++++++++++++++++++++++-
 ruruby/src/value/class.rs    | 22 ++++++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/builtin/object.rs b/ruruby/src/builtin/object.rs
index 8b180f3..991f1a4 100644
--- a/ruruby/src/builtin/object.rs
+++ b/ruruby/src/builtin/object.rs
@@ -102,13 +102,36 @@ fn copy(vm: &mut VM, mut self_val: Value) -> VMResult {
             val.set_class(class);
             Ok(val)
         }
+        Some(ObjKind::CLASS) | Some(ObjKind::MODULE) => {
+            let mut val = self_val.shallow_dup();
+            if let Some(rvalue) = val.as_mut_rvalue() {
+                let cinfo = rvalue.module().copy();
+                *rvalue.module_mut() = cinfo;
+            }
+            Ok(copy_singleton_class(val))
+        }
         _ => Ok(self_val.shallow_dup()),
     }
 }
 
+/// Let `val` have its own copy of the singleton class.
+fn copy_singleton_class(val: Value) -> Value {
+    if let Some(rvalue) = val.as_rvalue() {
+        let class = rvalue.class();
+        if class.is_singleton() {
+            val.set_class(class.copy_singleton(val));
+        }
+    }
+    val
+}
+
 fn clone(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
     args.check_args_num(0)?;
-    copy(vm, self_val)
+    let val = copy(vm, self_val)?;
+    if self_val.if_mod_class().is_some() {
+        return Ok(val);
+    }
+    Ok(copy_singleton_class(val))
 }
 
 fn dup(vm: &mut VM, self_val: Value, args: &Args2) -> VMResult {
diff --git a/ruruby/src/value/class.rs b/ruruby/src/value/class.rs
index 07ed9bb..77e4112 100644
--- a/ruruby/src/value/class.rs
+++ b/ruruby/src/value/class.rs
@@ -344,6 +344,17 @@ impl Module {
         Module::new(RValue::new_class(ClassInfo::singleton_from(superclass, target)).pack())
     }
 
+    /// Create a copy of the singleton class `self` for `target`.
+    pub(crate) fn copy_singleton(&self, target: Value) -> Module {
+        if self.has_prepend() {
+            return *self;
+        }
+        let mut cinfo = self.copy();
+        cinfo.ext.singleton_for = Some(target);
+        let class = self.get().rvalue().class();
+        Module::new(RValue::new_class_with_class(class, cinfo).pack())
+    }
+
     pub(crate) fn module() -> Module {
         Module::new(RValue::new_module(ClassInfo::module_from(None)).pack())
     }
@@ -402,6 +413,17 @@ impl ClassInfo {
         Self::new(true, superclass, ClassExt::new())
     }
 
+    /// Create a nameless copy, which has its own methods and constants.
+    pub(crate) fn copy(&self) -> Self {
+        let mut cinfo = self.clone();
+        // The methods of a prepended module are searched for in the included class of the original.
+        if !self.has_prepend() {
+            cinfo.ext = ClassRef::new((*self.ext).clone());
+            cinfo.ext.name = None;
+        }
+        cinfo
+    }
+
     pub(crate) fn singleton_from(
         superclass: impl Into<Option<Module>>,
         target: impl Into<Value>,
-- 
2.43.0


From c7afb4cc7627c8135ccf4d5708d0cb57285220e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:06 +0000
Subject: [PATCH 84/87] fix: do not replace a part of the file name of require
 by the extension

---
 ruruby/src/builtin/kernel.rs     |  2 +-
 ruruby/src/vm/executor/loader.rs | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index 223b587..ec4e6bf 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -152,7 +152,7 @@ fn require_relative(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
             path.push(p);
         }
     }
-    path.set_extension("rb");
+    let path = VM::rb_file(&path);
     Ok(Value::bool(vm.load_exec(&path, false)?))
 }
 
diff --git a/ruruby/src/vm/executor/loader.rs b/ruruby/src/vm/executor/loader.rs
index 1475d56..e994c46 100644
--- a/ruruby/src/vm/executor/loader.rs
+++ b/ruruby/src/vm/executor/loader.rs
@@ -17,12 +17,24 @@ impl VM {
         }
     }
 
+    /// Returns `path` with the extension ".rb", which can be omitted.
+    pub(crate) fn rb_file(path: &Path) -> PathBuf {
+        match path.extension() {
+            Some(ext) if ext == "rb" => path.to_owned(),
+            _ => {
+                let mut path = path.as_os_str().to_owned();
+                path.push(".rb");
+                path.into()
+            }
+        }
+    }
+
     pub(crate) fn require(&mut self, file_name: &str) -> Result<bool, RubyError> {
         let mut path = PathBuf::from(file_name);
         if path.is_absolute() {
-            path.set_extension("rb");
-            if path.exists() {
-                return self.load_exec(&path, false);
+            let rb_path = Self::rb_file(&path);
+            if rb_path.exists() {
+                return self.load_exec(&rb_path, false);
             }
             path.set_extension("so");
             if path.exists() {
@@ -38,9 +50,9 @@ impl VM {
         for path in ainfo.iter_mut() {
             let mut base_path = PathBuf::from(path.expect_string("LOAD_PATH($:)")?);
             base_path.push(file_name);
-            base_path.set_extension("rb");
-            if base_path.exists() {
-                return self.load_exec(&base_path, false);
+            let rb_path = Self::rb_file(&base_path);
+            if rb_path.exists() {
+                return self.load_exec(&rb_path, false);
             }
             base_path.set_extension("so");
             if base_path.exists() {
-- 
2.43.0


From f00a7a19453471a8f743692a99ae52d77e494d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:54 +0000
Subject: [PATCH 85/87] fix: a file which was loaded or failed can be required,
 and require_relative raises LoadError

---
 ruruby/src/globals.rs            |  4 ++++
 ruruby/src/vm/executor/loader.rs | 37 +++++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/ruruby/src/globals.rs b/ruruby/src/globals.rs
index bb54042..97a35b8 100644
--- a/ruruby/src/globals.rs
+++ b/ruruby/src/globals.rs
@@ -213,6 +213,10 @@ impl Globals {
         }
     }
 
+    pub(crate) fn remove_source_file(&mut self, file_path: &Path) {
+        self.source_files.retain(|path| path != file_path);
+    }
+
     pub(crate) fn from_exception(&self, err: &RubyError) -> Option<Value> {
         let err = err.clone();
         let val = match &err.kind {
diff --git a/ruruby/src/vm/executor/loader.rs b/ruruby/src/vm/executor/loader.rs
index e994c46..bc4ee16 100644
--- a/ruruby/src/vm/executor/loader.rs
+++ b/ruruby/src/vm/executor/loader.rs
@@ -5,16 +5,18 @@ use std::path::{Path, PathBuf};
 
 impl VM {
     pub fn load_file(&mut self, absolute_path: &Path) -> Result<String, RubyError> {
-        match load_file(absolute_path) {
-            Ok(program) => {
-                self.globals.add_source_file(absolute_path);
-                Ok(program)
-            }
-            Err(err) => Err(RubyError::load(format!(
+        let program = Self::read_program(absolute_path)?;
+        self.globals.add_source_file(absolute_path);
+        Ok(program)
+    }
+
+    fn read_program(absolute_path: &Path) -> Result<String, RubyError> {
+        load_file(absolute_path).map_err(|err| {
+            RubyError::load(format!(
                 "Cannot open file. '{:?}'\n{}",
                 absolute_path, err
-            ))),
-        }
+            ))
+        })
     }
 
     /// Returns `path` with the extension ".rb", which can be omitted.
@@ -77,15 +79,24 @@ impl VM {
             Ok(path) => path,
             Err(ioerr) => {
                 let msg = format!("File not found. {:?}\n{}", path, ioerr);
-                return Err(RubyError::runtime(msg));
+                return Err(RubyError::load(msg));
             }
         };
-        let res = self.globals.add_source_file(&absolute_path);
-        if !allow_repeat && res.is_none() {
+        if allow_repeat {
+            let program = Self::read_program(&absolute_path)?;
+            self.run(absolute_path, program)?;
+            return Ok(true);
+        }
+        if self.globals.add_source_file(&absolute_path).is_none() {
             return Ok(false);
         }
-        let program = self.load_file(&absolute_path)?;
-        self.run(absolute_path, program)?;
+        let res = Self::read_program(&absolute_path)
+            .and_then(|program| self.run(absolute_path.clone(), program));
+        if let Err(err) = res {
+            // The file can be required again.
+            self.globals.remove_source_file(&absolute_path);
+            return Err(err);
+        }
         Ok(true)
     }
 }
-- 
2.43.0


From 31a9cbf6f170f11b0922593152d9b948f746f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:14 +0000
Subject: [PATCH 86/87] fix: puts does not add a newline to a string which ends
 with one

---
 ruruby/src/builtin/kernel.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ruruby/src/builtin/kernel.rs b/ruruby/src/builtin/kernel.rs
index ec4e6bf..11cdbff 100644
--- a/ruruby/src/builtin/kernel.rs
+++ b/ruruby/src/builtin/kernel.rs
@@ -39,7 +39,14 @@ pub(crate) fn init(globals: &mut Globals) -> Module {
 fn puts(vm: &mut VM, _: Value, args: &Args2) -> VMResult {
     fn flatten(vm: &mut VM, val: Value) -> Result<(), RubyError> {
         match val.as_array() {
-            None => println!("{}", val.val_to_s(vm)?),
+            None => {
+                let s = val.val_to_s(vm)?;
+                if s.ends_with('\n') {
+                    print!("{}", s);
+                } else {
+                    println!("{}", s);
+                }
+            }
             Some(aref) => {
                 let s = vm.inspect_guard(val, "[...]\n", |vm| {
                     let mut i = 0;
-- 
2.43.0


From 956c27ef9620dcaa329d7d27b51f7c8d909c0506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:43 +0000
Subject: [PATCH 87/87] fix: an attribute writer called for an Integer raises
 FrozenError

---
 ruruby/src/vm/executor/method.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ruruby/src/vm/executor/method.rs b/ruruby/src/vm/executor/method.rs
index be65c52..2fb544d 100644
--- a/ruruby/src/vm/executor/method.rs
+++ b/ruruby/src/vm/executor/method.rs
@@ -608,12 +608,10 @@ impl VM {
         args.check_args_num(1)?;
         let val = self.stack_pop();
         let mut self_val = self.stack_pop();
-        match self_val.as_mut_rvalue() {
-            Some(oref) => {
-                oref.set_var(id, val);
-                Ok(val)
-            }
-            None => unreachable!("AttrReader must be used only for class instance."),
+        self_val.check_frozen()?;
+        if let Some(oref) = self_val.as_mut_rvalue() {
+            oref.set_var(id, val);
         }
+        Ok(val)
     }
 }
-- 
2.43.0

