From 0d2530f927b69b0bb022e9f565e28b515fef57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 001/101] fix: base32 decoding accepts exactly the well-formed
 texts

With a destination larger than needed a padded text was rejected, and without room for
another group trailing text (AB==CDEF, a truncated group) was silently ignored.
---
 lib/std/encoding/base32.c3 | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/std/encoding/base32.c3 b/lib/std/encoding/base32.c3
index efc346d..56dc1a9 100644
--- a/lib/std/encoding/base32.c3
+++ b/lib/std/encoding/base32.c3
@@ -93,7 +93,7 @@ fn char[]? decode_buffer(char[] src, char[] dst, char padding = DEFAULT_PAD, Bas
 	usz dn = decode_len(src.len, padding);
 	usz n;
 	char[8] buf;
-	while (src.len > 0 && dst.len > 0)
+	while (src.len > 0)
 	{
 		usz i @noinit;
 		// load 8 bytes into buffer
@@ -104,12 +104,20 @@ fn char[]? decode_buffer(char[] src, char[] dst, char padding = DEFAULT_PAD, Bas
 				if (padding > 0) return encoding::INVALID_PADDING?;
 				break;
 			}
-			if (src[0] == padding) break;
+			if (padding > 0 && src[0] == padding) break;
 			buf[i] = alphabet.reverse[src[0]];
 			if (buf[i] == INVALID) return encoding::INVALID_CHARACTER?;
 			src = src[1..];
 		}
 
+		if (padding > 0 && i < 8)
+		{
+			// only padding may follow, and it must fill the last group exactly
+			if (src.len != 8 - i) return encoding::INVALID_PADDING?;
+			foreach (c : src) if (c != padding) return encoding::INVALID_PADDING?;
+			src = src[:0];
+		}
+
 		// extract 5-bytes from the buffer which contains 8 x 5 bit chunks
 		switch (i)
 		{
@@ -152,7 +160,7 @@ fn char[]? decode_buffer(char[] src, char[] dst, char padding = DEFAULT_PAD, Bas
 			default:
 				return encoding::INVALID_CHARACTER?;
 		}
-		if (dst.len < 5) break;
+		if (src.len == 0) break;
 		dst = dst[5..];
 	}
 	return dst_ptr[:n];
-- 
2.43.0


From f8c756e8f51eea583f735860179ac4110ef53c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 002/101] fix: vector /, % and >> follow the element type

Unsigned element types used signed division, remainder and shift, and % on
floating point vectors emitted an integer remainder, which LLVM cannot select.
---
 src/compiler/llvm_codegen_expr.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 9a688ca..1c531ec 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -4012,6 +4012,7 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 	Type *rhs_type = rhs.type;
 	Type *vector_type = lhs_type->type_kind == TYPE_VECTOR ? lhs_type->array.base : NULL;
 	bool is_float = type_is_float(lhs_type) || (vector_type && type_is_float(vector_type));
+	bool is_unsigned = type_is_unsigned(vector_type ? vector_type : lhs_type);
 	LLVMValueRef val = NULL;
 	LLVMValueRef lhs_value = lhs.value;
 	LLVMValueRef rhs_value = rhs.value;
@@ -4087,25 +4088,25 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 				val = LLVMBuildFDiv(c->builder, lhs_value, rhs_value, "fdiv");
 				break;
 			}
-			val = type_is_unsigned(lhs_type)
+			val = is_unsigned
 				  ? LLVMBuildUDiv(c->builder, lhs_value, rhs_value, "udiv")
 				  : LLVMBuildSDiv(c->builder, lhs_value, rhs_value, "sdiv");
 			break;
 		case BINARYOP_MOD:
 			llvm_emit_trap_zero(c, rhs_type, rhs_value, "% by zero.", expr->span);
-			if (type_is_float(lhs_type))
+			if (is_float)
 			{
 				val = LLVMBuildFRem(c->builder, lhs_value, rhs_value, "fmod");
 				break;
 			}
-			val = type_is_unsigned(lhs_type)
+			val = is_unsigned
 				  ? LLVMBuildURem(c->builder, lhs_value, rhs_value, "umod")
 				  : LLVMBuildSRem(c->builder, lhs_value, rhs_value, "smod");
 			break;
 		case BINARYOP_SHR:
 			rhs_value = llvm_zext_trunc(c, rhs_value, LLVMTypeOf(lhs_value));
 			llvm_emit_trap_invalid_shift(c, rhs_value, lhs_type, "Shift amount out of range (was %s).", expr->span);
-			val = type_is_unsigned(lhs_type)
+			val = is_unsigned
 				  ? LLVMBuildLShr(c->builder, lhs_value, rhs_value, "lshr")
 				  : LLVMBuildAShr(c->builder, lhs_value, rhs_value, "ashr");
 			val = LLVMBuildFreeze(c->builder, val, "");
-- 
2.43.0


From e79f052b0d828dbc9f986feaa5d11604d0c0ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 003/101] fix: 128-bit shift helpers: arithmetic right shift
 and shifts of 64 or more

__ashrti3 shifted in zeros and __ashlti3 lost the value when shifting by 64 or more.
---
 lib/std/math/runtime/i128.c3 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/std/math/runtime/i128.c3 b/lib/std/math/runtime/i128.c3
index 3086b69..e963a5c 100644
--- a/lib/std/math/runtime/i128.c3
+++ b/lib/std/math/runtime/i128.c3
@@ -236,14 +236,14 @@ fn int128 __ashrti3(int128 a, uint b) @extern("__ashrti3") @weak @nostrip
 	result.all = a;
 	if (b >= 64)
 	{
-		result.low = result.high >> (b - 64);
-		result.high = result.high >> 63;
+		result.low = (ulong)((long)result.high >> (b - 64));
+		result.high = (ulong)((long)result.high >> 63);
 	}
 	else
 	{
 		if (b == 0) return a;
 		result.low = result.high << (64 - b) | (result.low >> b);
-		result.high  = result.high >> b;
+		result.high  = (ulong)((long)result.high >> b);
 	}
 	return result.all;
 }
@@ -254,8 +254,8 @@ fn int128 __ashlti3(int128 a, uint b) @extern("__ashlti3") @weak @nostrip
 	result.all = a;
 	if (b >= 64)
 	{
-		result.low = 0;
 		result.high = result.low << (b - 64);
+		result.low = 0;
 	}
 	else
 	{
-- 
2.43.0


From fbe8fe1ebea4fafbb33017422027e234342d7582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 004/101] fix: fallback roundeven only treats halfway cases
 specially

---
 lib/std/math/runtime/math_supplemental.c3 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/std/math/runtime/math_supplemental.c3 b/lib/std/math/runtime/math_supplemental.c3
index 4093256..a5dafbe 100644
--- a/lib/std/math/runtime/math_supplemental.c3
+++ b/lib/std/math/runtime/math_supplemental.c3
@@ -2,13 +2,15 @@ module std::math::math_rt;
 
 fn float __roundevenf(float f) @extern("roundevenf") @weak @nostrip
 {
-	// Slow implementation
+	// Slow implementation: only halfway cases differ from round
+	if (math::abs(f - math::trunc(f)) != 0.5f) return math::round(f);
 	return math::round(f / 2) * 2;
 }
 
 fn double __roundeven(double d) @extern("roundeven") @weak @nostrip
 {
-	// Slow implementation
+	// Slow implementation: only halfway cases differ from round
+	if (math::abs(d - math::trunc(d)) != 0.5) return math::round(d);
 	return math::round(d / 2) * 2;
 }
 
-- 
2.43.0


From a6172c81d747b00b8bda8cd544b22d1005657bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 005/101] fix: gcd is never negative, lcm does not overflow
 when its result fits

lcm(0, 0) no longer divides by zero.
---
 lib/std/math/math.c3 | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/std/math/math.c3 b/lib/std/math/math.c3
index 734a536..167d82a 100644
--- a/lib/std/math/math.c3
+++ b/lib/std/math/math.c3
@@ -1191,8 +1191,8 @@ macro ulong[<*>] ulong[<*>].muldiv(self, mul, div) => mul_div_helper(self, mul,
 *>
 macro _gcd(a, b) @private
 {
-	if (a == 0) return b;
-	if (b == 0) return a;
+	if (a == 0) return abs(b);
+	if (b == 0) return abs(a);
 
 	var $Type = $typeof(a);
 	$Type r, aa, ab;
@@ -1219,7 +1219,11 @@ macro lcm(...)
 		$if $defined(result.lcm):
 			result = result.lcm($vaarg[$i]);
 		$else
-			result = (abs($vaarg[$i]) * abs(result)) / (_gcd($vaarg[$i], result));
+			{
+				$typeof($vaarg[$i]) value = $vaarg[$i];
+				if (value == 0 || result == 0) return ($typeof(result))0;
+				result = abs(value) / _gcd(value, result) * abs(result);
+			}
 		$endif
 	$endfor
 	return result;
-- 
2.43.0


From 8eac2eff3093edd5192510869be8df649f0ad032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 006/101] fix: sat_mul works instead of naming a builtin that
 does not exist

---
 lib/std/math/math.c3 | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/lib/std/math/math.c3 b/lib/std/math/math.c3
index 167d82a..9e0fd1d 100644
--- a/lib/std/math/math.c3
+++ b/lib/std/math/math.c3
@@ -840,7 +840,7 @@ macro uint128 uint128[<*>].dot(uint128[<*>] x, uint128[<*>] y) => (x * y).sum();
 
 macro char char.sat_add(char x, char y) => $$sat_add(x, y);
 macro char char.sat_sub(char x, char y) => $$sat_sub(x, y);
-macro char char.sat_mul(char x, char y) => $$sat_mul(x, y);
+macro char char.sat_mul(char x, char y) => sat_mul_helper(x, y);
 macro char char.sat_shl(char x, char y) => $$sat_shl(x, y);
 macro char? char.overflow_add(char x, char y) => overflow_add_helper(x, y);
 macro char? char.overflow_sub(char x, char y) => overflow_sub_helper(x, y);
@@ -849,7 +849,7 @@ macro char? char.overflow_mul(char x, char y) => overflow_mul_helper(x, y);
 
 macro ichar ichar.sat_add(ichar x, ichar y) => $$sat_add(x, y);
 macro ichar ichar.sat_sub(ichar x, ichar y) => $$sat_sub(x, y);
-macro ichar ichar.sat_mul(ichar x, ichar y) => $$sat_mul(x, y);
+macro ichar ichar.sat_mul(ichar x, ichar y) => sat_mul_helper(x, y);
 macro ichar ichar.sat_shl(ichar x, ichar y) => $$sat_shl(x, y);
 macro ichar? ichar.overflow_add(ichar x, ichar y) => overflow_add_helper(x, y);
 macro ichar? ichar.overflow_sub(ichar x, ichar y) => overflow_sub_helper(x, y);
@@ -857,7 +857,7 @@ macro ichar? ichar.overflow_mul(ichar x, ichar y) => overflow_mul_helper(x, y);
 
 macro ushort ushort.sat_add(ushort x, ushort y) => $$sat_add(x, y);
 macro ushort ushort.sat_sub(ushort x, ushort y) => $$sat_sub(x, y);
-macro ushort ushort.sat_mul(ushort x, ushort y) => $$sat_mul(x, y);
+macro ushort ushort.sat_mul(ushort x, ushort y) => sat_mul_helper(x, y);
 macro ushort ushort.sat_shl(ushort x, ushort y) => $$sat_shl(x, y);
 macro ushort? ushort.overflow_add(ushort x, ushort y) => overflow_add_helper(x, y);
 macro ushort? ushort.overflow_sub(ushort x, ushort y) => overflow_sub_helper(x, y);
@@ -865,7 +865,7 @@ macro ushort? ushort.overflow_mul(ushort x, ushort y) => overflow_mul_helper(x,
 
 macro short short.sat_add(short x, short y) => $$sat_add(x, y);
 macro short short.sat_sub(short x, short y) => $$sat_sub(x, y);
-macro short short.sat_mul(short x, short y) => $$sat_mul(x, y);
+macro short short.sat_mul(short x, short y) => sat_mul_helper(x, y);
 macro short short.sat_shl(short x, short y) => $$sat_shl(x, y);
 macro short? short.overflow_add(short x, short y) => overflow_add_helper(x, y);
 macro short? short.overflow_sub(short x, short y) => overflow_sub_helper(x, y);
@@ -873,7 +873,7 @@ macro short? short.overflow_mul(short x, short y) => overflow_mul_helper(x, y);
 
 macro uint uint.sat_add(uint x, uint y) => $$sat_add(x, y);
 macro uint uint.sat_sub(uint x, uint y) => $$sat_sub(x, y);
-macro uint uint.sat_mul(uint x, uint y) => $$sat_mul(x, y);
+macro uint uint.sat_mul(uint x, uint y) => sat_mul_helper(x, y);
 macro uint uint.sat_shl(uint x, uint y) => $$sat_shl(x, y);
 macro uint? uint.overflow_add(uint x, uint y) => overflow_add_helper(x, y);
 macro uint? uint.overflow_sub(uint x, uint y) => overflow_sub_helper(x, y);
@@ -881,7 +881,7 @@ macro uint? uint.overflow_mul(uint x, uint y) => overflow_mul_helper(x, y);
 
 macro int int.sat_add(int x, int y) => $$sat_add(x, y);
 macro int int.sat_sub(int x, int y) => $$sat_sub(x, y);
-macro int int.sat_mul(int x, int y) => $$sat_mul(x, y);
+macro int int.sat_mul(int x, int y) => sat_mul_helper(x, y);
 macro int int.sat_shl(int x, int y) => $$sat_shl(x, y);
 macro int? int.overflow_add(int x, int y) => overflow_add_helper(x, y);
 macro int? int.overflow_sub(int x, int y) => overflow_sub_helper(x, y);
@@ -889,7 +889,7 @@ macro int? int.overflow_mul(int x, int y) => overflow_mul_helper(x, y);
 
 macro ulong ulong.sat_add(ulong x, ulong y) => $$sat_add(x, y);
 macro ulong ulong.sat_sub(ulong x, ulong y) => $$sat_sub(x, y);
-macro ulong ulong.sat_mul(ulong x, ulong y) => $$sat_mul(x, y);
+macro ulong ulong.sat_mul(ulong x, ulong y) => sat_mul_helper(x, y);
 macro ulong ulong.sat_shl(ulong x, ulong y) => $$sat_shl(x, y);
 macro ulong? ulong.overflow_add(ulong x, ulong y) => overflow_add_helper(x, y);
 macro ulong? ulong.overflow_sub(ulong x, ulong y) => overflow_sub_helper(x, y);
@@ -897,7 +897,7 @@ macro ulong? ulong.overflow_mul(ulong x, ulong y) => overflow_mul_helper(x, y);
 
 macro long long.sat_add(long x, long y) => $$sat_add(x, y);
 macro long long.sat_sub(long x, long y) => $$sat_sub(x, y);
-macro long long.sat_mul(long x, long y) => $$sat_mul(x, y);
+macro long long.sat_mul(long x, long y) => sat_mul_helper(x, y);
 macro long long.sat_shl(long x, long y) => $$sat_shl(x, y);
 macro long? long.overflow_add(long x, long y) => overflow_add_helper(x, y);
 macro long? long.overflow_sub(long x, long y) => overflow_sub_helper(x, y);
@@ -905,7 +905,7 @@ macro long? long.overflow_mul(long x, long y) => overflow_mul_helper(x, y);
 
 macro uint128 uint128.sat_add(uint128 x, uint128 y) => $$sat_add(x, y);
 macro uint128 uint128.sat_sub(uint128 x, uint128 y) => $$sat_sub(x, y);
-macro uint128 uint128.sat_mul(uint128 x, uint128 y) => $$sat_mul(x, y);
+macro uint128 uint128.sat_mul(uint128 x, uint128 y) => sat_mul_helper(x, y);
 macro uint128 uint128.sat_shl(uint128 x, uint128 y) => $$sat_shl(x, y);
 macro uint128? uint128.overflow_add(uint128 x, uint128 y) => overflow_add_helper(x, y);
 macro uint128? uint128.overflow_sub(uint128 x, uint128 y) => overflow_sub_helper(x, y);
@@ -913,7 +913,7 @@ macro uint128? uint128.overflow_mul(uint128 x, uint128 y) => overflow_mul_helper
 
 macro int128 int128.sat_add(int128 x, int128 y) => $$sat_add(x, y);
 macro int128 int128.sat_sub(int128 x, int128 y) => $$sat_sub(x, y);
-macro int128 int128.sat_mul(int128 x, int128 y) => $$sat_mul(x, y);
+macro int128 int128.sat_mul(int128 x, int128 y) => sat_mul_helper(x, y);
 macro int128 int128.sat_shl(int128 x, int128 y) => $$sat_shl(x, y);
 macro int128? int128.overflow_add(int128 x, int128 y) => overflow_add_helper(x, y);
 macro int128? int128.overflow_sub(int128 x, int128 y) => overflow_sub_helper(x, y);
@@ -1099,6 +1099,14 @@ macro overflow_sub_helper(x, y) @local
 	return res;
 }
 
+macro sat_mul_helper(x, y) @local
+{
+	$typeof(x) res @noinit;
+	if (!$$overflow_mul(x, y, &res)) return res;
+	if ((x < 0) != (y < 0)) return $typeof(x).min;
+	return $typeof(x).max;
+}
+
 macro overflow_mul_helper(x, y) @local
 {
 	$typeof(x) res @noinit;
-- 
2.43.0


From e80c5a1f279b3b66952e4e12ba255c1dcf92ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 007/101] fix: $$abs of an unsigned value is the value

It treated the operand as signed, so that math::abs(255 as char) was 1 and gcd of large unsigned values was wrong.
---
 src/compiler/llvm_codegen_builtins.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_builtins.c b/src/compiler/llvm_codegen_builtins.c
index 6e78317..14eba51 100644
--- a/src/compiler/llvm_codegen_builtins.c
+++ b/src/compiler/llvm_codegen_builtins.c
@@ -493,7 +493,13 @@ void llvm_emit_abs_builtin(GenContext *c, BEValue *be_value, Expr *expr)
 	Expr **args = expr->call_expr.arguments;
 	LLVMValueRef arg_slots[2];
 	llvm_emit_intrinsic_args(c, args, arg_slots, 1);
-	unsigned intrinsic = llvm_intrinsic_by_type(args[0]->type, intrinsic_id.abs, intrinsic_id.abs, intrinsic_id.fabs);
+	unsigned intrinsic = llvm_intrinsic_by_type(args[0]->type, intrinsic_id.abs, 0, intrinsic_id.fabs);
+	if (!intrinsic)
+	{
+		// An unsigned value is its own absolute value
+		llvm_value_set(be_value, arg_slots[0], expr->type);
+		return;
+	}
 	LLVMTypeRef call_type[1] = { LLVMTypeOf(arg_slots[0]) };
 	LLVMValueRef result;
 	if (intrinsic == intrinsic_id.abs)
-- 
2.43.0


From a9cabc2b1528f9005beddef08eddf397a7c616dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 008/101] fix: converting the least int128 to a float in the
 runtime helper

---
 lib/std/math/runtime/i128.c3 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/math/runtime/i128.c3 b/lib/std/math/runtime/i128.c3
index e963a5c..2836704 100644
--- a/lib/std/math/runtime/i128.c3
+++ b/lib/std/math/runtime/i128.c3
@@ -346,7 +346,7 @@ macro float_from_i128($Type, a) @private
 			case MANT_DIG + 2:
 				break;
 			default:
-				a = (a >> (sd - (MANT_DIG + 2)))
+				a = (int128)((uint128)a >> (sd - (MANT_DIG + 2)))
 					| (uint128)((a & ((uint128)(-1) >> ((128 + MANT_DIG + 2) - sd))) != 0);
 		}
 		a |= (uint128)((a & 4) != 0);
-- 
2.43.0


From 9ad0e03b3d3f9e04b99b750582524ba7c7d3f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:54 +0000
Subject: [PATCH 009/101] fix: BigInt.less_or_equal names its parameter

---
 lib/std/math/bigint.c3 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/math/bigint.c3 b/lib/std/math/bigint.c3
index a08e5d4..aa36be7 100644
--- a/lib/std/math/bigint.c3
+++ b/lib/std/math/bigint.c3
@@ -496,7 +496,7 @@ macro bool BigInt.greater_or_equal(&self, BigInt other)
 	return self.greater_than(other) || self.equals(other);
 }
 
-macro bool BigInt.less_or_equal(&self, BigInt)
+macro bool BigInt.less_or_equal(&self, BigInt other)
 {
 	return self.less_than(other) || self.equals(other);
 }
-- 
2.43.0


From d2d792d01a1c9a6336a577334ea86d911a250b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 010/101] fix: BigInt shifts keep the bits that leave a word,
 shr changes its operand

---
 lib/std/math/bigint.c3 | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/std/math/bigint.c3 b/lib/std/math/bigint.c3
index aa36be7..62e9eb6 100644
--- a/lib/std/math/bigint.c3
+++ b/lib/std/math/bigint.c3
@@ -440,8 +440,16 @@ fn BigInt BigInt.shr(self, int shift) @operator(>>)
 	return self;
 }
 
-fn void BigInt.shr_this(self, int shift) @operator(>>=)
+fn void BigInt.shr_this(&self, int shift) @operator(>>=)
 {
+	if (self.is_negative())
+	{
+		// Shift the complement so that the sign is kept.
+		self.bit_negate_this();
+		self.len = shift_right(&self.data, self.len, shift);
+		self.bit_negate_this();
+		return;
+	}
 	self.len = shift_right(&self.data, self.len, shift);
 }
 
@@ -820,7 +828,7 @@ fn void BigInt.bit_xor_this(&self, BigInt bi2)
 
 fn void BigInt.shl_this(&self, int shift) @operator(<<=)
 {
-	self.len = shift_left(&self.data, self.len, shift);
+	self.len = shift_left(&self.data, MAX_LEN, shift);
 }
 
 fn BigInt BigInt.gcd(&self, BigInt other)
-- 
2.43.0


From 228c05b994ed43ea41bc130dcacbb8993a9150e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 011/101] fix: BigInt division by more than one word

---
 lib/std/math/bigint.c3 | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/std/math/bigint.c3 b/lib/std/math/bigint.c3
index 62e9eb6..a4516a4 100644
--- a/lib/std/math/bigint.c3
+++ b/lib/std/math/bigint.c3
@@ -357,6 +357,7 @@ fn void BigInt.div_this(&self, BigInt other) @operator(/=)
 	if (self.less_than(other))
 	{
 		*self = ZERO;
+		return;
 	}
 
 	BigInt quotient = ZERO;
@@ -978,7 +979,7 @@ fn void BigInt.multi_byte_divide(&self, BigInt* other, BigInt* quotient, BigInt*
 
 	r[:self.len] = self.data[:self.len];
 
-	remainder_len = shift_left(&r, remainder_len, shift);
+	shift_left(&r, remainder_len, shift);
 
 	BigInt bi2 = other.shl(shift);
 
@@ -1002,21 +1003,22 @@ fn void BigInt.multi_byte_divide(&self, BigInt* other, BigInt* quotient, BigInt*
 		{
 			done = true;
 
-			if (q_hat == 0x10000000 || (q_hat * second_divisor_byte) > (r_hat << 32 + r[pos - 2]))
+			if (q_hat == 0x1_0000_0000 || (q_hat * second_divisor_byte) > (r_hat << 32 + r[pos - 2]))
 			{
 				q_hat--;
 				r_hat += first_divisor_byte;
 
-				if (r_hat < 0x10000000) done = false;
+				if (r_hat < 0x1_0000_0000) done = false;
 			}
 		}
 
 		for (int h = 0; h < divisor_len; h++)
 		{
-			dividend_part[h] = r[pos - h];
+			dividend_part[divisor_len - 1 - h] = r[pos - h];
 		}
 
 		BigInt kk = { dividend_part, divisor_len };
+		kk.reduce_len();
 		BigInt ss = bi2.mult(from_int(q_hat));
 
 		while (ss.greater_than(kk))
@@ -1058,7 +1060,7 @@ fn void BigInt.multi_byte_divide(&self, BigInt* other, BigInt* quotient, BigInt*
 
 	remainder.data[:remainder.len] = r[:remainder.len];
 
-	remainder.data[y..] = 0;
+	remainder.data[remainder.len..] = 0;
 }
 
 fn int shift_left(uint* data, int len, int shift_val) @inline
-- 
2.43.0


From eab5efb89955f847de70b8998a0629a5e343eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 012/101] fix: Barrett reduction of values shorter than the
 modulus

---
 lib/std/math/bigint.c3 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/std/math/bigint.c3 b/lib/std/math/bigint.c3
index a4516a4..bfdf32f 100644
--- a/lib/std/math/bigint.c3
+++ b/lib/std/math/bigint.c3
@@ -652,13 +652,14 @@ fn BigInt barrett_reduction(BigInt x, BigInt n, BigInt constant)
 
 	BigInt q1  = ZERO;
 	// q1 = x / b^(k-1)
-	q1.len = x.len - k_minus_one;
-	if (q1.len == 0)
+	int q1_len = x.len - k_minus_one;
+	if (q1_len <= 0)
 	{
 		q1.len = 1;
 	}
 	else
 	{
+		q1.len = q1_len;
 		q1.data[:q1.len] = x.data[k_minus_one:q1.len];
 	}
 
@@ -667,8 +668,7 @@ fn BigInt barrett_reduction(BigInt x, BigInt n, BigInt constant)
 
 	// q3 = q2 / b^(k+1)
 	int length = q2.len - k_plus_one;
-	assert(length >= 0);
-	if (length)
+	if (length > 0)
 	{
 		q3.data[:length] = q2.data[k_plus_one:length];
 		q3.len = length;
-- 
2.43.0


From 3a54261e7023449f60dfb26f72eab98ecd8e57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 013/101] fix: BigInt sqrt(0) is a normal zero

---
 lib/std/math/bigint.c3 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/std/math/bigint.c3 b/lib/std/math/bigint.c3
index bfdf32f..ee63ffc 100644
--- a/lib/std/math/bigint.c3
+++ b/lib/std/math/bigint.c3
@@ -770,6 +770,7 @@ fn BigInt BigInt.sqrt(&self)
 		}
 		mask = 0x80000000;
 	}
+	result.reduce_len();
 	return result;
 }
 
-- 
2.43.0


From 9d84032eb93cd3f6fea72b3e716c60f347de4d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 014/101] fix: BigInt accepts -0

---
 lib/std/math/bigint.c3 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/std/math/bigint.c3 b/lib/std/math/bigint.c3
index ee63ffc..aef7e25 100644
--- a/lib/std/math/bigint.c3
+++ b/lib/std/math/bigint.c3
@@ -114,7 +114,7 @@ fn BigInt*? BigInt.init_string_radix(&self, String value, int radix)
 	}
 	switch
 	{
-		case limit && !self.is_negative():
+		case limit && !self.is_negative() && !self.is_zero():
 			return string::INTEGER_OVERFLOW?;
 		case !limit && self.is_negative():
 			return string::INTEGER_OVERFLOW?;
-- 
2.43.0


From 1f51f1e359922f684bc919da8fe3406b683c6587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 015/101] fix: constant % with a negative operand has the sign
 of the dividend

---
 src/compiler/bigint.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/bigint.c b/src/compiler/bigint.c
index 82efb18..0004d32 100644
--- a/src/compiler/bigint.c
+++ b/src/compiler/bigint.c
@@ -544,7 +544,8 @@ Int128 i128_srem(Int128 op1, Int128 op2)
 	if (topbit1) op1 = i128_neg(op1);
 	if (topbit2) op2 = i128_neg(op2);
 	Int128 res = i128_urem(op1, op2);
-	if (topbit2 ^ topbit1)
+	// The remainder has the sign of the dividend.
+	if (topbit1)
 	{
 		return i128_neg(res);
 	}
-- 
2.43.0


From 256d35d0ed5d365b1eb2c6ca66cd47ec68394c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:53 +0000
Subject: [PATCH 016/101] fix: converting constant integers to floats:
 int128.min keeps its sign, one rounding only

---
 src/compiler/bigint.c            | 31 +++++++++++++++++++------------
 src/compiler/compiler_internal.h |  2 +-
 src/compiler/sema_casts.c        |  2 +-
 3 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/compiler/bigint.c b/src/compiler/bigint.c
index 0004d32..6d009a9 100644
--- a/src/compiler/bigint.c
+++ b/src/compiler/bigint.c
@@ -484,18 +484,26 @@ UNUSED int i128_msb(const Int128 *op)
 	return (int)(127 - i128_clz(op));
 }
 
+// Keep the given number of significant bits (at most 64), with the bits that are dropped folded into the last one,
+// so that a later rounding to fewer bits is the only one.
+static Real i128_to_float_keep_bits(Int128 op, uint32_t bits)
+{
+	if (!op.high && !(op.low >> (bits - 1))) return (Real)op.low;
+	int32_t excess = 128 - (int32_t)i128_clz(&op) - (int32_t)bits;
+	Int128 top = i128_lshr64(op, (uint64_t)excess);
+	Int128 rest = i128_shl64(op, (uint64_t)(128 - excess));
+	return (Real)ldexp((double)(top.low | (rest.high || rest.low ? 1 : 0)), excess);
+}
+
 Real i128_to_float(Int128 op)
 {
-	return (Real)op.low + (Real)ldexp((double)op.high, 64);
+	return i128_to_float_keep_bits(op, 64);
 }
 
 Real i128_to_float_signed(Int128 op)
 {
-	if ((int64_t)op.high < 0 && (op.high != INT128_MIN.high || op.low != INT128_MIN.low))
-	{
-		return -i128_to_float_signed(i128_neg(op));
-	}
-	return (Real)op.low + (Real)ldexp((double)op.high, 64);
+	if ((int64_t)op.high < 0) return -i128_to_float(i128_neg(op));
+	return i128_to_float(op);
 }
 
 void i128_udivrem(Int128 op1, Int128 op2, Int128 *div, Int128 *rem)
@@ -883,13 +891,12 @@ Int int_shl64(Int op, uint64_t op2)
 	return (Int){ i128_extend(i128_shl64(op.i, op2), op.type), op.type };
 }
 
-Real int_to_real(Int op)
+Real int_to_real(Int op, TypeKind kind)
 {
-	if (type_kind_is_signed(op.type))
-	{
-		return i128_to_float_signed(op.i);
-	}
-	return i128_to_float(op.i);
+	// Anything narrower than a double is rounded again later.
+	uint32_t bits = kind == TYPE_F64 || kind == TYPE_F128 ? 64 : 50;
+	if (int_is_neg(op)) return -i128_to_float_keep_bits(i128_neg(op.i), bits);
+	return i128_to_float_keep_bits(op.i, bits);
 }
 
 bool int_is_neg(Int op)
diff --git a/src/compiler/compiler_internal.h b/src/compiler/compiler_internal.h
index 5cc4186..ffbbb3f 100644
--- a/src/compiler/compiler_internal.h
+++ b/src/compiler/compiler_internal.h
@@ -2040,7 +2040,7 @@ Int int_not(Int op);
 bool int_is_neg(Int op);
 Int int_shr64(Int op, uint64_t);
 Int int_shl64(Int op, uint64_t);
-Real int_to_real(Int op);
+Real int_to_real(Int op, TypeKind kind);
 Int int_from_real(Real d, TypeKind type);
 char *int_to_str(Int i, int radix, bool use_prefix);
 bool i128_can_convert_from_double(double x);
diff --git a/src/compiler/sema_casts.c b/src/compiler/sema_casts.c
index 76136ba..8577354 100644
--- a/src/compiler/sema_casts.c
+++ b/src/compiler/sema_casts.c
@@ -1717,7 +1717,7 @@ static void cast_int_to_float(Expr *expr, Type *type)
 		return;
 	}
 
-	Real f = int_to_real(expr->const_expr.ixx);
+	Real f = int_to_real(expr->const_expr.ixx, type_flatten(type)->type_kind);
 	expr_rewrite_const_float(expr, type, f);
 }
 
-- 
2.43.0


From 1bca4b9c9ab58d68985903f214d5a9d7cccd758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:53 +0000
Subject: [PATCH 017/101] fix: constant float arithmetic rounds to its type

---
 src/compiler/float.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/compiler/float.c b/src/compiler/float.c
index 269e342..3745a88 100644
--- a/src/compiler/float.c
+++ b/src/compiler/float.c
@@ -61,34 +61,49 @@ UNUSED static int min_exponent(TypeKind kind)
 }
 
 
+// Every operation rounds to its own type, as it does at runtime.
+static Float float_round(Float op)
+{
+	switch (op.type)
+	{
+		case TYPE_F16:
+		case TYPE_BF16:
+		case TYPE_F32:
+			op.f = (float)op.f;
+			return op;
+		default:
+			return op;
+	}
+}
+
 Float float_add(Float op1, Float op2)
 {
 	ASSERT(op1.type == op2.type);
-	return (Float){ op1.f + op2.f, op1.type };
+	return float_round((Float){ op1.f + op2.f, op1.type });
 }
 
 Float float_sub(Float op1, Float op2)
 {
 	ASSERT(op1.type == op2.type);
-	return (Float){ op1.f - op2.f, op1.type };
+	return float_round((Float){ op1.f - op2.f, op1.type });
 }
 
 Float float_mul(Float op1, Float op2)
 {
 	ASSERT(op1.type == op2.type);
-	return (Float){ op1.f * op2.f, op1.type };
+	return float_round((Float){ op1.f * op2.f, op1.type });
 }
 
 Float float_div(Float op1, Float op2)
 {
 	ASSERT(op1.type == op2.type);
-	return (Float){ op1.f / op2.f, op1.type };
+	return float_round((Float){ op1.f / op2.f, op1.type });
 }
 
 Float float_rem(Float op1, Float op2)
 {
 	ASSERT(op1.type == op2.type);
-	return (Float){fmod(op1.f, op2.f), op1.type };
+	return float_round((Float){fmod(op1.f, op2.f), op1.type });
 }
 
 Float float_neg(Float op)
-- 
2.43.0


From e984e1239f039b490a35b0ac9604823b683027a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:40 +0000
Subject: [PATCH 018/101] fix: slicing a sparse constant array keeps elements
 at their place in the slice

---
 src/compiler/sema_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index b145923..280844e 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3841,7 +3841,9 @@ static inline void sema_slice_initializer(Expr *expr, Expr *subscripted, Range *
 					vec_erase_at(initializer->init_array.elements, i);
 					elements--;
 					i--;
+					continue;
 				}
+				element->init_array_value.index = index - range->start_index;
 			}
 			if (vec_size(initializer->init_array.elements) == 0)
 			{
-- 
2.43.0


From 0f081523ef0e9d32efd1445e13a95e5d5178f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:40 +0000
Subject: [PATCH 019/101] fix: slicing a constant string keeps embedded zero
 bytes

---
 src/compiler/sema_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 280844e..9004017 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3899,6 +3899,8 @@ static inline bool sema_expr_analyse_slice(SemaContext *context, Expr *expr, Che
 			{
 				const char *data = str_copy(subscripted->const_expr.bytes.ptr + range->start_index, range->len_index);
 				expr_rewrite_const_string(expr, data);
+				// The string may contain zero bytes.
+				expr->const_expr.bytes.len = range->len_index;
 				return true;
 			}
 			case CONST_BYTES:
-- 
2.43.0


From 5bab8218a1433983d794952fd88ea6854709d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:40 +0000
Subject: [PATCH 020/101] fix: slicing a compile time list does not change the
 list

---
 src/compiler/sema_expr.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 9004017..366570c 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3924,10 +3924,17 @@ static inline bool sema_expr_analyse_slice(SemaContext *context, Expr *expr, Che
 			}
 			case CONST_UNTYPED_LIST:
 				ASSERT(!type_is_arraylike(subscripted->type));
-				vec_erase_front(subscripted->const_expr.untyped_list, range->start_index);
-				vec_resize(subscripted->const_expr.untyped_list, range->len_index);
+			{
+				// The list may be shared with the sliced constant.
+				Expr **sliced = NULL;
+				for (ArrayIndex i = 0; i < range->len_index; i++)
+				{
+					vec_add(sliced, subscripted->const_expr.untyped_list[range->start_index + i]);
+				}
 				expr_replace(expr, subscripted);
+				expr->const_expr.untyped_list = sliced;
 				return true;
+			}
 			case CONST_INITIALIZER:
 				sema_slice_initializer(expr, subscripted, range);
 				return true;
-- 
2.43.0


From 0569af2ecaaee7b481e46884d4062cb0e191db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 021/101] fix: a loop whose condition is constant false does
 not run its body

---
 src/compiler/llvm_codegen_stmt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index 1ba7052..7265836 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -518,6 +518,13 @@ void llvm_emit_for_stmt(GenContext *c, Ast *ast)
 	Expr *cond = cond_id ? exprptr(cond_id) : NULL;
 	LoopType loop = loop_type_for_cond(cond, skip_first);
 
+	// A loop with a false condition checked up front never runs.
+	if (loop == LOOP_NONE && !skip_first)
+	{
+		DEBUG_POP_LEXICAL_SCOPE(c);
+		return;
+	}
+
 	// This is the starting block to loop back to, and may either be cond, body or inc
 	LLVMBasicBlockRef loop_start_block = body_block ? body_block : inc_block;
 
-- 
2.43.0


From 411cdecb0cdd7666cd8af00109c08af374ca7f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:01 +0000
Subject: [PATCH 022/101] fix: code after an if with a constant condition is
 live when the if is left by a labelled break

---
 src/compiler/sema_stmts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 0f66871..8b929fe 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -1844,11 +1844,11 @@ END:
 	{
 		context->active_scope.jump_end = true;
 	}
-	else if (then_jump && result == COND_TRUE)
+	else if (then_jump && result == COND_TRUE && !statement->flow.has_break)
 	{
 		context->active_scope.jump_end = true;
 	}
-	else if (else_jump && result == COND_FALSE)
+	else if (else_jump && result == COND_FALSE && !statement->flow.has_break)
 	{
 		context->active_scope.jump_end = true;
 	}
-- 
2.43.0


From 7679412c7812e5a479dedd00aeb359232be5a0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:54 +0000
Subject: [PATCH 023/101] fix: a defer that is never reached is not emitted

---
 src/compiler/sema_stmts.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 8b929fe..391805e 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -3017,6 +3017,7 @@ bool sema_analyse_statement(SemaContext *context, Ast *statement)
 {
 	if (statement->ast_kind == AST_POISONED) return false;
 	bool dead_code = context->active_scope.jump_end;
+	AstId defer_last = context->active_scope.defer_last;
 	unsigned returns = vec_size(context->returns);
 	if (!sema_analyse_statement_inner(context, statement)) return ast_poison(statement);
 	if (dead_code)
@@ -3035,6 +3036,7 @@ bool sema_analyse_statement(SemaContext *context, Ast *statement)
 			// Remove it
 		}
 		vec_resize(context->returns, returns);
+		context->active_scope.defer_last = defer_last;
 		statement->ast_kind = AST_NOP_STMT;
 	}
 	return true;
-- 
2.43.0


From 8025a1cf1592afcf63ba7844276b52ddc3b70998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 024/101] fix: code after an unreachable nested scope is
 unreachable too

---
 src/compiler/sema_stmts.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 391805e..e960775 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -3037,6 +3037,8 @@ bool sema_analyse_statement(SemaContext *context, Ast *statement)
 		}
 		vec_resize(context->returns, returns);
 		context->active_scope.defer_last = defer_last;
+		// What follows is just as dead, even if the statement was a scope of its own.
+		context->active_scope.jump_end = true;
 		statement->ast_kind = AST_NOP_STMT;
 	}
 	return true;
-- 
2.43.0


From 945d506d964d721afa84836d83a14ac74053285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:11 +0000
Subject: [PATCH 025/101] fix: ?? with a left side that cannot fail does not
 emit a broken phi

---
 src/compiler/llvm_codegen_expr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 1c531ec..546511c 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -3759,6 +3759,14 @@ static void llvm_emit_else(GenContext *c, BEValue *be_value, Expr *expr)
 	// for example happen on "{| defer foo(); return Foo.ERR?; |} ?? 123"
 	if (success_end_block) llvm_emit_br(c, phi_block);
 
+	// If the value can't fail, then the else is never reached.
+	if (success_end_block && llvm_basic_block_is_unused(else_block))
+	{
+		llvm_emit_block(c, phi_block);
+		*be_value = real_value;
+		return;
+	}
+
 	// Emit else
 	llvm_emit_block(c, else_block);
 
-- 
2.43.0


From e09449c43f4299ceb95b55ffd24a6b4b431ea3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:29 +0000
Subject: [PATCH 026/101] fix: catching an optional which folds to a plain
 variable

---
 src/compiler/sema_stmts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index e960775..0b69e5c 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -347,7 +347,8 @@ static void sema_unwrappable_from_catch_in_else(SemaContext *c, Expr *cond)
 
 		Decl *decl = expr->ident_expr;
 		if (decl->decl_kind != DECL_VAR) continue;
-		ASSERT(decl->type->type_kind == TYPE_OPTIONAL && "The variable should always be optional at this point.");
+		// A folded ternary, like "true ? x : FOO?", leaves a variable which isn't an optional.
+		if (decl->type->type_kind != TYPE_OPTIONAL) continue;
 
 		// Note that we could possibly have "if (catch x, x)" and in this case we'd
 		// unwrap twice, but that isn't really a problem.
-- 
2.43.0


From e0ac9960dadb35eedc2807dc74054ca1e589f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:30 +0000
Subject: [PATCH 027/101] fix: values from unreachable blocks are not used when
 merging optional, ternary and logical expressions

---
 src/compiler/llvm_codegen_expr.c | 82 +++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 33 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 546511c..5bccbed 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2948,6 +2948,20 @@ static void llvm_emit_slice_assign(GenContext *c, BEValue *be_value, Expr *expr)
 
 }
 
+/**
+ * Jump to the next block from the current block, if the current block can be reached.
+ *
+ * @return the block that was jumped from, or NULL if there was no jump because the current block is dead. Values
+ * from such a dead block are no longer usable.
+ */
+static LLVMBasicBlockRef llvm_emit_br_if_in_use(GenContext *c, LLVMBasicBlockRef next_block)
+{
+	LLVMBasicBlockRef block = llvm_get_current_block_if_in_use(c);
+	if (!block || !llvm_emit_check_block_branch(c)) return NULL;
+	llvm_emit_br(c, next_block);
+	return block;
+}
+
 static void llvm_emit_logical_and_or(GenContext *c, BEValue *be_value, Expr *expr, BinaryOp op)
 {
 	// Generate left-hand condition and conditional branch
@@ -2984,12 +2998,7 @@ static void llvm_emit_logical_and_or(GenContext *c, BEValue *be_value, Expr *exp
 	llvm_emit_expr(c, &rhs_value, exprptr(expr->binary_expr.right));
 	llvm_value_rvalue(c, &rhs_value);
 
-	LLVMBasicBlockRef rhs_end_block = llvm_get_current_block_if_in_use(c);
-
-	if (rhs_end_block)
-	{
-		llvm_emit_br(c, phi_block);
-	}
+	LLVMBasicBlockRef rhs_end_block = llvm_emit_br_if_in_use(c, phi_block);
 
 	// Generate phi
 	llvm_emit_block(c, phi_block);
@@ -3730,6 +3739,12 @@ void llvm_emit_comp(GenContext *c, BEValue *result, BEValue *lhs, BEValue *rhs,
 	TODO // When updated, also update tilde_codegen_expr
 }
 
+static void llvm_value_set_undef(GenContext *c, BEValue *value, Type *type)
+{
+	type = type_lowering(type);
+	llvm_value_set(value, type == type_void ? NULL : llvm_get_undef(c, type), type);
+}
+
 static void llvm_emit_else(GenContext *c, BEValue *be_value, Expr *expr)
 {
 	LLVMBasicBlockRef else_block = llvm_basic_block_new(c, "else_block");
@@ -3753,19 +3768,9 @@ static void llvm_emit_else(GenContext *c, BEValue *be_value, Expr *expr)
 	POP_CATCH();
 
 	// Emit success and jump to phi.
-	LLVMBasicBlockRef success_end_block = llvm_get_current_block_if_in_use(c);
-
 	// Only jump to phi if we didn't have an immediate jump. That would
 	// for example happen on "{| defer foo(); return Foo.ERR?; |} ?? 123"
-	if (success_end_block) llvm_emit_br(c, phi_block);
-
-	// If the value can't fail, then the else is never reached.
-	if (success_end_block && llvm_basic_block_is_unused(else_block))
-	{
-		llvm_emit_block(c, phi_block);
-		*be_value = real_value;
-		return;
-	}
+	LLVMBasicBlockRef success_end_block = llvm_emit_br_if_in_use(c, phi_block);
 
 	// Emit else
 	llvm_emit_block(c, else_block);
@@ -3788,7 +3793,7 @@ static void llvm_emit_else(GenContext *c, BEValue *be_value, Expr *expr)
 		}
 	}
 
-	LLVMBasicBlockRef else_block_exit = llvm_get_current_block_if_in_use(c);
+	LLVMBasicBlockRef else_block_exit = llvm_emit_br_if_in_use(c, phi_block);
 
 	// While the value may not be an optional, we may get a jump
 	// from this construction: foo() ?? (bar()?)
@@ -3796,11 +3801,16 @@ static void llvm_emit_else(GenContext *c, BEValue *be_value, Expr *expr)
 	if (!else_block_exit)
 	{
 		llvm_emit_block(c, phi_block);
-		*be_value = real_value;
+		if (success_end_block)
+		{
+			*be_value = real_value;
+			return;
+		}
+		// Neither side yields a value.
+		llvm_value_set_undef(c, be_value, expr->type);
 		return;
 	}
 
-	llvm_emit_br(c, phi_block);
 	llvm_emit_block(c, phi_block);
 
 	// Was there never a success, if so the result is the be_value.
@@ -4230,22 +4240,24 @@ void llvm_emit_try_assign_try_catch(GenContext *c, bool is_try, BEValue *be_valu
 	// 8. Restore the error stack.
 	POP_CATCH();
 
-	// 9. Store the success block.
-	LLVMBasicBlockRef success_block = c->current_block;
+	// 9. Store the success block and jump to the phi
+	LLVMBasicBlockRef success_block = llvm_emit_br_if_in_use(c, phi_catch);
 
-	// 10. Jump to the phi
-	llvm_emit_br(c, phi_catch);
-
-	// 11. Emit the catch and jump.
+	// 10. Emit the catch and jump.
 	llvm_emit_block(c, catch_block);
-	llvm_emit_br(c, phi_catch);
+	catch_block = llvm_emit_br_if_in_use(c, phi_catch);
 
-	// 12. Emit the phi
+	// 11. Emit the phi
 	llvm_emit_block(c, phi_catch);
 
-	// 13. Use a phi to pick true / false.
+	// 12. Use a phi to pick true / false, unless only one of them is possible.
 	LLVMValueRef from_try = LLVMConstInt(c->bool_type, is_try ? 1 : 0, false);
 	LLVMValueRef from_catch = LLVMConstInt(c->bool_type, is_try ? 0 : 1, false);
+	if (!success_block || !catch_block)
+	{
+		llvm_value_set(be_value, success_block ? from_try : from_catch, type_bool);
+		return;
+	}
 	llvm_new_phi(c, be_value, "val", type_bool, from_try, success_block, from_catch, catch_block);
 }
 
@@ -4519,12 +4531,11 @@ void gencontext_emit_ternary_expr(GenContext *c, BEValue *value, Expr *expr)
 	llvm_emit_expr(c, &lhs, then_expr);
 	llvm_value_rvalue(c, &lhs);
 	LLVMValueRef lhs_value = lhs.value;
-	LLVMBasicBlockRef lhs_exit = llvm_get_current_block_if_in_use(c);
 	if (lhs.type == type_bool && LLVMTypeOf(lhs_value) != c->bool_type)
 	{
 		llvm_emit_trunc_bool(c, lhs_value);
 	}
-	if (lhs_exit) llvm_emit_br(c, phi_block);
+	LLVMBasicBlockRef lhs_exit = llvm_emit_br_if_in_use(c, phi_block);
 
 	llvm_emit_block(c, rhs_block);
 	BEValue rhs;
@@ -4536,13 +4547,18 @@ void gencontext_emit_ternary_expr(GenContext *c, BEValue *value, Expr *expr)
 		llvm_emit_trunc_bool(c, rhs_value);
 	}
 
-	LLVMBasicBlockRef rhs_exit = llvm_get_current_block_if_in_use(c);
-	if (rhs_exit) llvm_emit_br(c, phi_block);
+	LLVMBasicBlockRef rhs_exit = llvm_emit_br_if_in_use(c, phi_block);
 
 	// Generate phi
 	llvm_emit_block(c, phi_block);
 	if (!rhs_exit)
 	{
+		if (!lhs_exit)
+		{
+			// Neither side yields a value.
+			llvm_value_set_undef(c, value, expr->type);
+			return;
+		}
 		if (!lhs_value) lhs_value = LLVMGetUndef(llvm_get_type(c, expr->type));
 		llvm_value_set(value, lhs_value, expr->type);
 		return;
-- 
2.43.0


From 6a86049d9847ac701e2142278fa4a21a64707a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 028/101] fix: a try chain with a constant true condition may
 still fail

---
 src/compiler/sema_stmts.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 0b69e5c..b342fbd 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -924,6 +924,8 @@ static inline bool sema_analyse_try_unwrap_chain(SemaContext *context, Expr *exp
 		if (!sema_analyse_cond_expr(context, chain_element, result)) return false;
 		if (old_is_fail) *result = COND_FALSE;
 	}
+	// Any 'try' in the chain may fail, so the chain is never always true.
+	if (*result == COND_TRUE) *result = COND_MISSING;
 	expr->type = type_bool;
 	expr->resolve_status = RESOLVE_DONE;
 	return true;
-- 
2.43.0


From 328c8560fd22e03a8680950aba46ed87ddf51aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:12 +0000
Subject: [PATCH 029/101] fix: PriorityQueue.remove_at keeps the heap order

---
 lib/std/collections/priorityqueue.c3 | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/std/collections/priorityqueue.c3 b/lib/std/collections/priorityqueue.c3
index 253a050..cc6324b 100644
--- a/lib/std/collections/priorityqueue.c3
+++ b/lib/std/collections/priorityqueue.c3
@@ -77,7 +77,14 @@ fn void PrivatePriorityQueue.remove_at(&self, usz index)
 		self.pop()!!;
 		return;
 	}
-	self.heap.remove_at(index);
+	// Move the element to the root, which keeps the heap order of the others, then pop it.
+	while (index > 0)
+	{
+		usz parent = (index - 1) / 2;
+		self.heap.swap(index, parent);
+		index = parent;
+	}
+	self.pop()!!;
 }
 <*
  @require self != null
-- 
2.43.0


From 8175af3074c20e6e40a26529b49988d221f38a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:12 +0000
Subject: [PATCH 030/101] fix: reading a wrapped RingBuffer

---
 lib/std/collections/ringbuffer.c3 | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/lib/std/collections/ringbuffer.c3 b/lib/std/collections/ringbuffer.c3
index 51c9bb5..292dee7 100644
--- a/lib/std/collections/ringbuffer.c3
+++ b/lib/std/collections/ringbuffer.c3
@@ -84,18 +84,11 @@ fn usz RingBuffer.read(&self, usz index, Element[] buffer)
 		buffer[:n] = self.buf[index:n];
 		return n;
 	}
-	if (buffer.len <= self.buf.len - index)
-	{
-		usz n = buffer.len;
-		buffer[:n] = self.buf[self.head + index:n];
-		return n;
-	}
-	usz n1 = self.buf.len - index;
+	usz n1 = min(end - index, buffer.len);
 	buffer[:n1] = self.buf[self.head + index:n1];
 	buffer = buffer[n1..];
-	index -= n1;
-	usz n2 = min(self.head - index, buffer.len);
-	buffer[:n2] = self.buf[index:n2];
+	usz n2 = min(self.head, buffer.len);
+	buffer[:n2] = self.buf[:n2];
 	return n1 + n2;
 }
 
-- 
2.43.0


From 38203f622afaf3d82f04c25cb67d6f44e2b6a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:12 +0000
Subject: [PATCH 031/101] fix: popping from a full RingBuffer removes the
 element

---
 lib/std/collections/ringbuffer.c3 | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/std/collections/ringbuffer.c3 b/lib/std/collections/ringbuffer.c3
index 292dee7..b23d8be 100644
--- a/lib/std/collections/ringbuffer.c3
+++ b/lib/std/collections/ringbuffer.c3
@@ -53,8 +53,13 @@ fn Element? RingBuffer.pop(&self)
 			self.written--;
 			return self.buf[self.written];
 		default:
-			self.head = (self.head - 1) % self.buf.len;
-			return self.buf[self.head];
+			// Move the oldest element to the start, as it is when the buffer isn't full.
+			reverse(&self.buf, 0, self.head);
+			reverse(&self.buf, self.head, self.buf.len);
+			reverse(&self.buf, 0, self.buf.len);
+			self.head = 0;
+			self.written--;
+			return self.buf[self.written];
 	}
 }
 
@@ -105,4 +110,14 @@ fn void RingBuffer.write(&self, Element[] buffer)
 		self.buf[self.head] = c;
 		self.head = (self.head + 1) % self.buf.len;
 	}
-}
\ No newline at end of file
+}
+
+macro reverse(buf, usz start, usz end) @local
+{
+	while (start + 1 < end)
+	{
+		@swap((*buf)[start], (*buf)[end - 1]);
+		start++;
+		end--;
+	}
+}
-- 
2.43.0


From b7f7bfd3715db8b57dc3440f5074421c54d5ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:03 +0000
Subject: [PATCH 032/101] fix: AnyList insert_at, set, add_all,
 pop_first_retained, copy_pop_first and remove_at handle their elements

---
 lib/std/collections/anylist.c3 | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/std/collections/anylist.c3 b/lib/std/collections/anylist.c3
index e929e07..1d733a5 100644
--- a/lib/std/collections/anylist.c3
+++ b/lib/std/collections/anylist.c3
@@ -167,8 +167,9 @@ macro AnyList.pop_first(&self, $Type)
 fn any? AnyList.pop_first_retained(&self)
 {
 	if (!self.size) return NO_MORE_ELEMENT?;
-	defer self.remove_at(0);
-	return self.entries[0];
+	any value = self.entries[0];
+	if (--self.size) self.entries[0 .. self.size - 1] = self.entries[1 .. self.size];
+	return value;
 }
 
 
@@ -182,7 +183,6 @@ fn any? AnyList.pop_first_retained(&self)
 fn any? AnyList.copy_pop_first(&self, Allocator allocator)
 {
 	if (!self.size) return NO_MORE_ELEMENT?;
-	defer self.free_element(self.entries[self.size]);
 	defer self.remove_at(0);
 	return allocator::clone_any(allocator, self.entries[0]);
 }
@@ -203,8 +203,8 @@ fn any? AnyList.tcopy_pop_first(&self) => self.copy_pop_first(tmem);
 *>
 fn void AnyList.remove_at(&self, usz index)
 {
-	if (!--self.size || index == self.size) return;
 	self.free_element(self.entries[index]);
+	if (!--self.size || index == self.size) return;
 	self.entries[index .. self.size - 1] = self.entries[index + 1 .. self.size];
 }
 
@@ -216,7 +216,7 @@ fn void AnyList.remove_at(&self, usz index)
 fn void AnyList.add_all(&self, AnyList* other_list)
 {
 	if (!other_list.size) return;
-	self.reserve(other_list.size);
+	self.ensure_capacity(other_list.size);
 	foreach (value : other_list)
 	{
 		self.entries[self.size++] = allocator::clone_any(self.allocator, value);
@@ -271,8 +271,7 @@ macro void AnyList.insert_at(&self, usz index, type)
 		self.push(type);
 		return;
 	}
-	any value = allocator::copy(self.allocator, type);
-	self._insert_at(self, index, value);
+	self._insert_at(index, allocator::clone(self.allocator, type));
 }
 
 <*
@@ -515,7 +514,7 @@ macro void AnyList.set(&self, usz index, value)
 		return;
 	}
 	self.free_element(self.entries[index]);
-	self.entries[index] = allocator::copy(self.allocator, value);
+	self.entries[index] = allocator::clone(self.allocator, value);
 }
 
 // -- private
-- 
2.43.0


From 4eebaf5d242e9709581a2b4fd55bb7063078f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:28 +0000
Subject: [PATCH 033/101] fix: LinkedList.remove_first_match and
 remove_last_match compare with equals

---
 lib/std/collections/linkedlist.c3 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/std/collections/linkedlist.c3 b/lib/std/collections/linkedlist.c3
index b27c45c..3da5c20 100644
--- a/lib/std/collections/linkedlist.c3
+++ b/lib/std/collections/linkedlist.c3
@@ -267,7 +267,7 @@ fn bool LinkedList.remove_first_match(&self, Type t) @if(ELEMENT_IS_EQUATABLE)
 {
 	for (Node* node = self._first; node != null; node = node.next)
 	{
-		if (node.value == t)
+		if (equals(node.value, t))
 		{
 			self.unlink(node);
 			return true;
@@ -280,7 +280,7 @@ fn bool LinkedList.remove_last_match(&self, Type t)  @if(ELEMENT_IS_EQUATABLE)
 {
 	for (Node* node = self._last; node != null; node = node.prev)
 	{
-		if (node.value == t)
+		if (equals(node.value, t))
 		{
 			self.unlink(node);
 			return true;
-- 
2.43.0


From da5607d56bf29487f94cbcae0e633384e1d04631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:23 +0000
Subject: [PATCH 034/101] fix: Range lengths that do not fit the type

---
 lib/std/collections/range.c3 | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/std/collections/range.c3 b/lib/std/collections/range.c3
index a5f48f1..6a2b918 100644
--- a/lib/std/collections/range.c3
+++ b/lib/std/collections/range.c3
@@ -13,7 +13,12 @@ struct Range (Printable)
 fn usz Range.len(&self) @operator(len)
 {
 	if (self.end < self.start) return 0;
-	return (usz)(self.end - self.start) + 1;
+	$if Type.kindof == SIGNED_INT:
+		// The difference might not fit the type.
+		return (usz)self.end - (usz)self.start + 1;
+	$else
+		return (usz)(self.end - self.start) + 1;
+	$endif
 }
 
 fn bool Range.contains(&self, Type value) @inline
@@ -43,7 +48,12 @@ struct ExclusiveRange (Printable)
 fn usz ExclusiveRange.len(&self) @operator(len)
 {
 	if (self.end < self.start) return 0;
-	return (usz)(self.end - self.start);
+	$if Type.kindof == SIGNED_INT:
+		// The difference might not fit the type.
+		return (usz)self.end - (usz)self.start;
+	$else
+		return (usz)(self.end - self.start);
+	$endif
 }
 
 fn bool ExclusiveRange.contains(&self, Type value) @inline
-- 
2.43.0


From bdd151df2e9108285ffece98b86887976911b96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:41 +0000
Subject: [PATCH 035/101] fix: AnyList predicates are given the elements, not
 pointers to them

---
 lib/std/collections/anylist.c3 | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/std/collections/anylist.c3 b/lib/std/collections/anylist.c3
index 1d733a5..aae60d4 100644
--- a/lib/std/collections/anylist.c3
+++ b/lib/std/collections/anylist.c3
@@ -557,9 +557,9 @@ macro usz AnyList._remove_using_test(&self, AnyTest filter, bool $invert, ctx) @
 	{
 		// Find last index of item to be deleted.
 		$if $invert:
-			while (i > 0 && !filter(&self.entries[i - 1], ctx)) i--;
+			while (i > 0 && !filter(self.entries[i - 1], ctx)) i--;
 		$else
-			while (i > 0 && filter(&self.entries[i - 1], ctx)) i--;
+			while (i > 0 && filter(self.entries[i - 1], ctx)) i--;
 		$endif
 		// Remove the items from this index up to the one not to be deleted.
 		usz n = self.size - k;
@@ -568,9 +568,9 @@ macro usz AnyList._remove_using_test(&self, AnyTest filter, bool $invert, ctx) @
 		self.size -= k - i;
 		// Find last index of item not to be deleted.
 		$if $invert:
-			while (i > 0 && filter(&self.entries[i - 1], ctx)) i--;
+			while (i > 0 && filter(self.entries[i - 1], ctx)) i--;
 		$else
-			while (i > 0 && !filter(&self.entries[i - 1], ctx)) i--;
+			while (i > 0 && !filter(self.entries[i - 1], ctx)) i--;
 		$endif
 	}
 	return size - self.size;
@@ -583,9 +583,9 @@ macro usz AnyList._remove_if(&self, AnyPredicate filter, bool $invert) @local
 	{
 		// Find last index of item to be deleted.
 		$if $invert:
-			while (i > 0 && !filter(&self.entries[i - 1])) i--;
+			while (i > 0 && !filter(self.entries[i - 1])) i--;
 		$else
-			while (i > 0 && filter(&self.entries[i - 1])) i--;
+			while (i > 0 && filter(self.entries[i - 1])) i--;
 		$endif
 		// Remove the items from this index up to the one not to be deleted.
 		usz n = self.size - k;
@@ -594,9 +594,9 @@ macro usz AnyList._remove_if(&self, AnyPredicate filter, bool $invert) @local
 		self.size -= k - i;
 		// Find last index of item not to be deleted.
 		$if $invert:
-			while (i > 0 && filter(&self.entries[i - 1])) i--;
+			while (i > 0 && filter(self.entries[i - 1])) i--;
 		$else
-			while (i > 0 && !filter(&self.entries[i - 1])) i--;
+			while (i > 0 && !filter(self.entries[i - 1])) i--;
 		$endif
 	}
 	return size - self.size;
-- 
2.43.0


From c56987fb858566368ef3740ce18a3d3542df9ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:28 +0000
Subject: [PATCH 036/101] fix: ElasticArray.push_front_try fails on a full
 array instead of requiring that it is not

---
 lib/std/collections/elastic_array.c3 | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/std/collections/elastic_array.c3 b/lib/std/collections/elastic_array.c3
index 297dd04..6506ead 100644
--- a/lib/std/collections/elastic_array.c3
+++ b/lib/std/collections/elastic_array.c3
@@ -196,9 +196,6 @@ fn void ElasticArray.push_front(&self, Type type) @inline
 	self.insert_at(0, type);
 }
 
-<*
- @require self.size < MAX_SIZE : `List would exceed max size`
-*>
 fn void? ElasticArray.push_front_try(&self, Type type) @inline
 {
 	return self.insert_at_try(0, type);
-- 
2.43.0


From 24685c820b1f6a035e76bffbc49721f1477e310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:44 +0000
Subject: [PATCH 037/101] fix: $offsetof and $alignof of members of anonymous
 structs

---
 src/compiler/sema_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 366570c..2ef4e0d 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -8921,7 +8921,7 @@ static inline bool sema_expr_analyse_ct_alignof(SemaContext *context, Expr *expr
 											NULL)) return false;
 		if (member)
 		{
-			align = type_min_alignment(member->offset, align);
+			align = type_min_alignment(decl_find_member_offset(type_flatten(type)->decl, member), align);
 		}
 		else
 		{
@@ -9913,7 +9913,7 @@ static inline bool sema_expr_analyse_ct_offsetof(SemaContext *context, Expr *exp
 											NULL)) return false;
 		if (member)
 		{
-			offset += member->offset;
+			offset += decl_find_member_offset(type_flatten(type)->decl, member);
 		}
 		else
 		{
-- 
2.43.0


From f62f3391f5d5e8a1f673f30b34139d0293f84430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:08 +0000
Subject: [PATCH 038/101] fix: packed structs pack nested struct declarations
 as they do named struct types

---
 src/compiler/sema_decls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index 24f7582..71c9f1f 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -553,7 +553,8 @@ static bool sema_analyse_struct_members(SemaContext *context, Decl *decl)
 		// If packed, then the alignment is 1
 		AlignSize member_alignment = is_packed ? 1 : member_type_alignment;
 		// If a member has an assigned alignment, then we use that one, even if it is packed.
-		if (member->alignment)
+		// For a nested type the alignment is the one of the type, which packing overrides.
+		if (member->alignment && (!is_packed || member->decl_kind == DECL_VAR))
 		{
 			member_alignment = member->alignment;
 			// Update total alignment if we have a member that has bigger alignment.
-- 
2.43.0


From 94a34a5d1160e53a42c2aaaeefc471869172fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:08 +0000
Subject: [PATCH 039/101] fix: unaligned structs with padding at the end do not
 trip an assert

---
 src/compiler/sema_decls.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index 71c9f1f..798ed65 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -641,7 +641,6 @@ static bool sema_analyse_struct_members(SemaContext *context, Decl *decl)
 	}
 	if (is_unaligned && size > offset)
 	{
-		ASSERT(!decl->strukt.padding);
 		decl->strukt.padding = (AlignSize)(size - offset);
 	}
 
-- 
2.43.0


From cc6e02da4ba25c5c03e0b5bab60c931a22af1f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:22 +0000
Subject: [PATCH 040/101] fix: the padding of structs with packed struct or
 union members

---
 src/compiler/sema_decls.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index 798ed65..c5b74c4 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -447,6 +447,14 @@ RETRY:;
 		case TYPE_STRUCT:
 		case TYPE_UNION:
 		{
+			// This is the alignment of the generated type, which is 1 if that is packed,
+			// and for unions it is the one of the member representing it.
+			if (type->decl->is_packed) return 1;
+			if (type->type_kind == TYPE_UNION && vec_size(type->decl->strukt.members))
+			{
+				type = type->decl->strukt.members[type->decl->strukt.union_rep]->type;
+				goto RETRY;
+			}
 			AlignSize max = 0;
 			FOREACH(Decl *, member, type->decl->strukt.members)
 			{
-- 
2.43.0


From 43cbb211f14470f7ecbf20fe6bc7ef208eee9fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:42 +0000
Subject: [PATCH 041/101] fix: constants of structs and unions with packed
 unions keep the layout of the type

---
 src/compiler/llvm_codegen.c | 67 ++++++++++++++++++++++++++++++++++---
 1 file changed, 63 insertions(+), 4 deletions(-)

diff --git a/src/compiler/llvm_codegen.c b/src/compiler/llvm_codegen.c
index 0eb9458..9c52ef1 100644
--- a/src/compiler/llvm_codegen.c
+++ b/src/compiler/llvm_codegen.c
@@ -229,6 +229,49 @@ static LLVMValueRef llvm_emit_const_array_padding(LLVMTypeRef element_type, Inde
 	return llvm_get_zero_raw(LLVMArrayType(element_type, (unsigned)diff));
 }
 
+// A constant with another type than that of the array element might lack padding at the end.
+static LLVMValueRef llvm_emit_const_modified_element(GenContext *c, LLVMValueRef value, Type *type)
+{
+	ByteSize size = llvm_abi_size(c, LLVMTypeOf(value));
+	ByteSize expected_size = type_size(type);
+	if (size >= expected_size) return value;
+	LLVMValueRef values[2] = { value, llvm_emit_const_padding(c, expected_size - size) };
+	return llvm_get_packed_struct(c, values, 2);
+}
+
+// Check that the members of a constant, which has another type than that of the struct, are where they should be.
+static bool llvm_const_struct_has_layout(GenContext *c, LLVMValueRef value, Decl *decl, LLVMValueRef *values, unsigned count)
+{
+	LLVMTypeRef type = LLVMTypeOf(value);
+	unsigned entries = LLVMCountStructElementTypes(type);
+	unsigned entry = 0;
+	for (unsigned i = 0; i < count; i++)
+	{
+		// The padding comes as entries in between.
+		while (entry < entries && LLVMGetAggregateElement(value, entry) != values[i]) entry++;
+		if (entry == entries) return false;
+		if (LLVMOffsetOfElement(c->target_data, type, entry) != decl->strukt.members[i]->offset) return false;
+		entry++;
+	}
+	return decl->has_variable_array || llvm_abi_size(c, type) <= decl->strukt.size;
+}
+
+// Emit a struct constant where all padding is explicit.
+static LLVMValueRef llvm_emit_packed_const_struct(GenContext *c, Decl *decl, LLVMValueRef *values, unsigned count)
+{
+	LLVMValueRef *entries = NULL;
+	ByteSize offset = 0;
+	for (unsigned i = 0; i < count; i++)
+	{
+		ByteSize member_offset = decl->strukt.members[i]->offset;
+		if (member_offset > offset) vec_add(entries, llvm_emit_const_padding(c, member_offset - offset));
+		vec_add(entries, values[i]);
+		offset = member_offset + llvm_abi_size(c, LLVMTypeOf(values[i]));
+	}
+	if (decl->strukt.size > offset) vec_add(entries, llvm_emit_const_padding(c, decl->strukt.size - offset));
+	return llvm_get_unnamed_struct(c, entries, true);
+}
+
 LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_init)
 {
 	ASSERT(const_init->type == type_flatten(const_init->type));
@@ -253,7 +296,11 @@ LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_
 			for (ArrayIndex i = 0; i < (ArrayIndex)size; i++)
 			{
 				LLVMValueRef element = llvm_emit_const_initializer(c, elements[i]);
-				if (element_type_llvm != LLVMTypeOf(element)) was_modified = true;
+				if (element_type_llvm != LLVMTypeOf(element))
+				{
+					was_modified = true;
+					element = llvm_emit_const_modified_element(c, element, element_type);
+				}
 				vec_add(parts, element);
 			}
 			if (array_type->type_kind == TYPE_VECTOR)
@@ -297,7 +344,11 @@ LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_
 					vec_add(parts, llvm_emit_const_array_padding(element_type_llvm, diff, &was_modified));
 				}
 				LLVMValueRef value = llvm_emit_const_initializer(c, element->init_array_value.element);
-				if (LLVMTypeOf(value) != element_type_llvm) was_modified = true;
+				if (LLVMTypeOf(value) != element_type_llvm)
+				{
+					was_modified = true;
+					value = llvm_emit_const_modified_element(c, value, element_type);
+				}
 				vec_add(parts, value);
 				current_index = element_index + 1;
 			}
@@ -350,7 +401,10 @@ LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_
 			if (first_type != result_type)
 			{
 				// Yes, so the type needs to be modified.
-				return llvm_get_struct(c, values, value_count);
+				LLVMValueRef modified = llvm_get_struct(c, values, value_count);
+				if (llvm_abi_size(c, LLVMTypeOf(modified)) == union_size) return modified;
+				// The member's alignment would make it bigger than the union.
+				return llvm_get_packed_struct(c, values, value_count);
 			}
 
 			return llvm_get_struct_named(union_type_llvm, values, value_count);
@@ -367,6 +421,7 @@ LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_
 			uint32_t count = vec_size(members);
 			if (decl->decl_kind == DECL_UNION && count) count = 1;
 			LLVMValueRef *entries = NULL;
+			LLVMValueRef *values = NULL;
 			bool was_modified = false;
 			ByteSize prev_size = 0;
 			for (ArrayIndex i = 0; i < count; i++)
@@ -401,6 +456,7 @@ LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_
 				}
 				prev_size = llvm_abi_size(c, element_type);
 				vec_add(entries, element);
+				vec_add(values, element);
 			}
 			if (decl->strukt.padding)
 			{
@@ -408,7 +464,10 @@ LLVMValueRef llvm_emit_const_initializer(GenContext *c, ConstInitializer *const_
 			}
 			if (was_modified)
 			{
-				return llvm_get_unnamed_struct(c, entries, decl->is_packed);
+				LLVMValueRef modified = llvm_get_unnamed_struct(c, entries, decl->is_packed);
+				if (llvm_const_struct_has_layout(c, modified, decl, values, count)) return modified;
+				// The alignments of the values do not give the right offsets, so place them explicitly.
+				return llvm_emit_packed_const_struct(c, decl, values, count);
 			}
 			return llvm_get_struct_of_type(c, const_init->type, entries, vec_size(entries));
 		}
-- 
2.43.0


From 1bfc48a1e9e8e641942872a5c31651280adb25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:02 +0000
Subject: [PATCH 042/101] fix: unions of types with lower alignment than their
 generated type

---
 src/compiler/sema_decls.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index c5b74c4..57f31b0 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -32,6 +32,7 @@ static inline const char *method_name_by_decl(Decl *method_like);
 static bool sema_analyse_struct_union(SemaContext *context, Decl *decl, bool *erase_decl);
 static bool sema_analyse_bitstruct(SemaContext *context, Decl *decl, bool *erase_decl);
 static bool sema_analyse_union_members(SemaContext *context, Decl *decl);
+AlignSize sema_get_max_natural_alignment(Type *type);
 static bool sema_analyse_struct_members(SemaContext *context, Decl *decl);
 static inline bool sema_analyse_struct_member(SemaContext *context, Decl *parent, Decl *decl, bool *erase_decl);
 static inline bool sema_check_struct_holes(SemaContext *context, Decl *decl, Decl *member);
@@ -385,6 +386,8 @@ static bool sema_analyse_union_members(SemaContext *context, Decl *decl)
 	// "Representative" type is the one with the maximum alignment.
 	ASSERT(max_alignment_element >= 0);
 	decl->strukt.union_rep = max_alignment_element;
+	// It might in turn be a type whose alignment is lower than that of its generated type.
+	if (sema_get_max_natural_alignment(members[max_alignment_element]->type) > decl->alignment) decl->is_packed = true;
 
 	// All members share the same alignment
 	FOREACH(Decl *, member, members)
-- 
2.43.0


From 1657c3046e01d887439c10dbe51547b1753cdc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:35 +0000
Subject: [PATCH 043/101] fix: x64 struct arguments whose second eightbyte has
 low alignment crashed the compiler

---
 src/compiler/abi/c_abi_x64.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compiler/abi/c_abi_x64.c b/src/compiler/abi/c_abi_x64.c
index 744c3d7..c73a929 100644
--- a/src/compiler/abi/c_abi_x64.c
+++ b/src/compiler/abi/c_abi_x64.c
@@ -659,6 +659,13 @@ static ABIArgInfo *x64_get_argument_pair_return(AbiType low_type, AbiType high_t
 {
 	TypeSize low_size = abi_type_size(low_type);
 	unsigned hi_start = aligned_offset(low_size, abi_type_abi_alignment(high_type));
+	if (hi_start != 8)
+	{
+		// Padding due to explicit alignment: widen the low part, so that the high part starts at its eightbyte.
+		bool is_float = abi_type_is_type(low_type) && type_is_float(low_type.type);
+		low_type = abi_type_get(is_float ? type_double : type_ulong);
+		hi_start = 8;
+	}
 	ASSERT(hi_start == 8 && "Expected aligned with C-style structs.");
 	return abi_arg_new_direct_pair(low_type, high_type);
 }
-- 
2.43.0


From 0b52d94d903cfe5b9b456fd5f1fa7fcb5be1ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:35 +0000
Subject: [PATCH 044/101] fix: x64 float classes of union members and of
 typedef'd floats in arguments

---
 src/compiler/abi/c_abi_x64.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/compiler/abi/c_abi_x64.c b/src/compiler/abi/c_abi_x64.c
index c73a929..673a57e 100644
--- a/src/compiler/abi/c_abi_x64.c
+++ b/src/compiler/abi/c_abi_x64.c
@@ -490,10 +490,26 @@ bool x64_contains_float_at_offset(Type *type, unsigned offset)
 
 static Type *x64_get_fp_type_at_offset(Type *type, unsigned ir_offset)
 {
+	type = type_lowering(type);
 	if (!ir_offset && type_is_float(type)) return type;
-	if (type->type_kind == TYPE_STRUCT || type->type_kind == TYPE_UNION)
+	if (type->type_kind == TYPE_UNION)
+	{
+		// The members all share the storage: use the widest type found there.
+		Type *widest = NULL;
+		FOREACH(Decl *, member, type->decl->strukt.members)
+		{
+			if (ir_offset >= type_size(member->type)) continue;
+			// A vector fills the eightbyte.
+			if (type_lowering(member->type)->type_kind == TYPE_VECTOR) return NULL;
+			Type *fp_type = x64_get_fp_type_at_offset(member->type, ir_offset);
+			if (fp_type && (!widest || type_size(fp_type) > type_size(widest))) widest = fp_type;
+		}
+		return widest;
+	}
+	if (type->type_kind == TYPE_STRUCT)
 	{
 		Decl *element = x64_get_member_at_offset(type->decl, ir_offset);
+		if (!element) return NULL;
 		return x64_get_fp_type_at_offset(element->type, ir_offset - element->offset);
 	}
 	if (type->type_kind == TYPE_ARRAY)
@@ -508,10 +524,12 @@ static Type *x64_get_fp_type_at_offset(Type *type, unsigned ir_offset)
 static Type *x64_get_sse_type_at_offset(Type *type, unsigned ir_offset, Type *source_type, unsigned source_offset)
 {
 	Type *float_type = x64_get_fp_type_at_offset(type, ir_offset);
+	ByteSize source_size = type_size(source_type) - source_offset;
+	// In the padding of a union, do not reach past the end of the source.
+	if (!float_type && source_size == 4) return type_float;
 	if (!float_type || float_type == type_double) return type_double;
 
 	ByteSize size = type_size(float_type);
-	ByteSize source_size = type_size(source_type) - source_offset;
 
 	Type *float_type2 = NULL;
 	if (source_size > size)
-- 
2.43.0


From a8e8ed02d0b17a2be0db61ed1443e1df916a21e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 045/101] fix: stores to bitstruct array members inside a byte
 past the first clobbered the rest of the byte

---
 src/compiler/llvm_codegen_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 5bccbed..1d86366 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -1079,7 +1079,7 @@ static inline void llvm_emit_update_bitstruct_array(GenContext *c,
 			if (i == end_byte && end_mod != 7)
 			{
 				res = llvm_emit_and_raw(c, res, llvm_const_low_bitmask(c, c->byte_type, 8, end_mod + 1));
-				mask = llvm_emit_or_raw(c, mask, llvm_const_high_bitmask(c, c->byte_type, 8, 7 - (int)end_bit));
+				mask = llvm_emit_or_raw(c, mask, llvm_const_high_bitmask(c, c->byte_type, 8, 7 - end_mod));
 			}
 			// Load the current value.
 			LLVMValueRef current = llvm_load(c, c->byte_type, byte_ptr, alignment, "");
-- 
2.43.0


From 6e89234044a65694e68038375e234597a4ccdf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 046/101] fix: @bigendian bitstructs of a single byte crashed
 the compiler

---
 src/compiler/llvm_codegen_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 1d86366..c729c28 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -872,7 +872,7 @@ static LLVMValueRef llvm_emit_bswap(GenContext *c, LLVMValueRef value)
 		return LLVMConstBswap(value);
 	}
 	LLVMTypeRef type = LLVMTypeOf(value);
-	ASSERT(type != c->byte_type);
+	if (type == c->byte_type) return value;
 	return llvm_emit_call_intrinsic(c, intrinsic_id.bswap, &type, 1, &value, 1);
 }
 
-- 
2.43.0


From 280cfc523546590c33605478437730c1d3a09855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 047/101] fix: assignments to members of anonymous bitstructs
 with array backing

---
 src/compiler/llvm_codegen_expr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index c729c28..77bf054 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -1177,10 +1177,10 @@ static inline void llvm_emit_bitassign_expr(GenContext *c, BEValue *be_value, Ex
 		llvm_emit_expr(c, be_value, exprptr(expr->binary_expr.right));
 	}
 
-	Type *parent_type = type_flatten(parent_expr->type);
-	if (type_lowering(parent_type)->type_kind == TYPE_ARRAY)
+	// An anonymous bitstruct has the enclosing type as the parent, so use the found declaration.
+	if (type_lowering(parent_decl->type)->type_kind == TYPE_ARRAY)
 	{
-		llvm_emit_bitassign_array(c, llvm_load_value_store(c, be_value), parent, parent_type->decl, member);
+		llvm_emit_bitassign_array(c, llvm_load_value_store(c, be_value), parent, parent_decl, member);
 		return;
 	}
 
-- 
2.43.0


From df7a7f8bc30b6801ed963822de549266523394df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:29 +0000
Subject: [PATCH 048/101] fix: @bigendian bitstruct array members of 24, 40, 48
 or 56 bits, and those without whole bytes, crashed the compiler

---
 src/compiler/llvm_codegen_expr.c | 2 +-
 src/compiler/sema_decls.c        | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 77bf054..78a41fb 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -906,7 +906,7 @@ static inline void llvm_extract_bool_bit_from_array(GenContext *c, BEValue *be_v
 static inline LLVMValueRef llvm_bswap_non_integral(GenContext *c, LLVMValueRef value, unsigned bitsize)
 {
 	if (bitsize <= 8) return value;
-	ASSERT(is_power_of_two(bitsize));
+	ASSERT(bitsize % 8 == 0);
 	LLVMValueRef shifted = llvm_emit_shl_fixed(c, value, (int)llvm_bitsize(c, LLVMTypeOf(value)) - (int)bitsize);
 	return llvm_emit_bswap(c, shifted);
 }
diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index 57f31b0..927ce9f 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -886,6 +886,14 @@ static inline bool sema_analyse_bitstruct_member(SemaContext *context, Decl *par
 		return false;
 	}
 
+	// Byte swapped members in arrays consist of whole bytes if they have more than one.
+	bool byte_swap = compiler.platform.big_endian ? parent->strukt.little_endian : parent->strukt.big_endian;
+	if (byte_swap && bits_available > 8 && bits_available % 8 != 0 && type_flatten(parent->strukt.container_type->type)->type_kind == TYPE_ARRAY)
+	{
+		SEMA_ERROR(member, "With this byte order, members with more than 8 bits must use whole bytes, but this has %d bits.", (int)bits_available);
+		return false;
+	}
+
 	// Store the bits.
 	member->var.start_bit = start_bit;
 	member->var.end_bit = end_bit;
-- 
2.43.0


From 0ecb27666b05907efd6d153efc917271d2d7a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:14 +0000
Subject: [PATCH 049/101] fix: decrementing 128-bit bitstruct members added
 2^64 - 1

---
 src/compiler/llvm_codegen_expr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 78a41fb..22220ab 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2187,7 +2187,10 @@ static inline void llvm_emit_pre_post_inc_dec_bitstruct(GenContext *c, BEValue *
 	BEValue value = parent;
 	llvm_extract_bitvalue(c, &value, parent_decl, member);
 	LLVMValueRef value_start = llvm_load_value_store(c, &value);
-	LLVMValueRef result = llvm_emit_add_int(c, value.type, value_start, llvm_const_int(c, value.type, diff), lhs->span);
+	LLVMValueRef one = llvm_const_int(c, value.type, 1);
+	LLVMValueRef result = diff > 0
+		? llvm_emit_add_int(c, value.type, value_start, one, lhs->span)
+		: llvm_emit_sub_int(c, value.type, value_start, one, lhs->span);
 
 	llvm_value_set(be_value, pre ? result : value_start, value.type);
 
-- 
2.43.0


From 0d8e6836aea1df7184e1a16bc77c75adf0c707de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:00 +0000
Subject: [PATCH 050/101] fix: vector element indexing had no bounds check, and
 assigning to v[^n] set v[n]

---
 src/compiler/llvm_codegen_expr.c | 49 ++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 22220ab..85b0f05 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -670,6 +670,29 @@ static inline void llvm_emit_subscript_addr_with_base(GenContext *c, BEValue *re
 	}
 }
 
+/**
+ * Emit the index of a vector element, resolving [^n] and checking the bounds in safe mode.
+ */
+static LLVMValueRef llvm_emit_vector_index(GenContext *c, BEValue *index, Expr *subscript, Type *vec)
+{
+	Expr *index_expr = exprptr(subscript->subscript_expr.index.expr);
+	llvm_emit_expr(c, index, index_expr);
+	llvm_value_rvalue(c, index);
+	LLVMValueRef len = llvm_const_int(c, index->type, vec->array.len);
+	if (subscript->subscript_expr.index.start_from_end)
+	{
+		// In safe mode this may wrap, which the bounds check discovers.
+		index->value = safe_mode_enabled()
+			? LLVMBuildSub(c->builder, len, index->value, "")
+			: LLVMBuildNUWSub(c->builder, len, index->value, "");
+	}
+	if (safe_mode_enabled() && !LLVMIsConstant(index->value) && !llvm_is_global_eval(c))
+	{
+		llvm_emit_array_bounds_check(c, index, len, index_expr->span);
+	}
+	return index->value;
+}
+
 static inline void llvm_emit_vector_subscript(GenContext *c, BEValue *value, Expr *expr)
 {
 	llvm_emit_exprid(c, value, expr->subscript_expr.expr);
@@ -678,13 +701,7 @@ static inline void llvm_emit_vector_subscript(GenContext *c, BEValue *value, Exp
 	ASSERT(vec->type_kind == TYPE_VECTOR);
 	Type *element = vec->array.base;
 	LLVMValueRef vector = value->value;
-	llvm_emit_exprid(c, value, expr->subscript_expr.index.expr);
-	llvm_value_rvalue(c, value);
-	LLVMValueRef index = value->value;
-	if (expr->subscript_expr.index.start_from_end)
-	{
-		index = LLVMBuildNUWSub(c->builder, llvm_const_int(c, value->type, vec->array.len), index, "");
-	}
+	LLVMValueRef index = llvm_emit_vector_index(c, value, expr, vec);
 	llvm_value_set(value, LLVMBuildExtractElement(c->builder, vector, index, ""), element);
 }
 
@@ -737,7 +754,11 @@ static inline void llvm_emit_subscript_addr(GenContext *c, BEValue *value, Expr
 	if (start_from_end)
 	{
 		ASSERT(needs_len);
-		index.value = LLVMBuildNUWSub(c->builder, llvm_zext_trunc(c, len.value, llvm_get_type(c, index.type)), index.value, "");
+		LLVMValueRef from_end = llvm_zext_trunc(c, len.value, llvm_get_type(c, index.type));
+		// In safe mode this may wrap, which the bounds check discovers.
+		index.value = safe_mode_enabled()
+			? LLVMBuildSub(c->builder, from_end, index.value, "")
+			: LLVMBuildNUWSub(c->builder, from_end, index.value, "");
 	}
 	if (needs_len && safe_mode_enabled() && !llvm_is_global_eval(c))
 	{
@@ -2228,14 +2249,7 @@ static inline void llvm_emit_pre_post_inc_dec_vector(GenContext *c, BEValue *val
 	LLVMValueRef vector = value->value;
 
 	// Now let's get the subscript and store it in value
-	bool start_from_end = expr->subscript_expr.index.start_from_end;
-	llvm_emit_exprid(c, value, expr->subscript_expr.index.expr);
-	llvm_value_rvalue(c, value);
-	LLVMValueRef index = value->value;
-	if (start_from_end)
-	{
-		index = LLVMBuildNUWSub(c->builder, llvm_const_int(c, value->type, vec->array.len), index, "");
-	}
+	LLVMValueRef index = llvm_emit_vector_index(c, value, expr, vec);
 
 	// We're now done, we can extract the current value:
 	BEValue current_res;
@@ -4419,8 +4433,7 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 	}
 	// Emit the index
 	BEValue index;
-	llvm_emit_exprid(c, &index, left->subscript_expr.index.expr);
-	LLVMValueRef index_val = llvm_load_value_store(c, &index);
+	LLVMValueRef index_val = llvm_emit_vector_index(c, &index, left, type_lowering(addr.type));
 	if (binary_op > BINARYOP_ASSIGN)
 	{
 		BinaryOp base_op = binaryop_assign_base_op(binary_op);
-- 
2.43.0


From b5db9de6aa25ba845b3922738d2da279a75f2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:12 +0000
Subject: [PATCH 051/101] fix: assigning to a vector element or swizzle lost
 changes the right hand side made to the vector

---
 src/compiler/llvm_codegen_expr.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 85b0f05..29fe279 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -4400,9 +4400,11 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 	llvm_value_addr(c, &addr);
 
 	LLVMValueRef vector_value = llvm_load_value_store(c, &addr);
+	// The index and the right hand side may change the vector, in which case it must be loaded again.
+	bool reload = type_lowering(addr.type)->array.len > 1
+		&& (!exprid_is_pure(expr->binary_expr.right) || (!is_swizzle && !exprid_is_pure(left->subscript_expr.index.expr)));
 	if (is_swizzle)
 	{
-		if (addr.type->array.base == type_bool) vector_value = llvm_emit_trunc_bool(c, vector_value);
 		if (binary_op > BINARYOP_ASSIGN)
 		{
 			BEValue lhs;
@@ -4417,6 +4419,8 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 			llvm_emit_expr(c, be_value, exprptr(expr->binary_expr.right));
 		}
 		llvm_value_rvalue(c, be_value);
+		if (reload) vector_value = llvm_load_value_store(c, &addr);
+		if (addr.type->array.base == type_bool) vector_value = llvm_emit_trunc_bool(c, vector_value);
 		const char *sw_ptr = left->swizzle_expr.swizzle;
 		unsigned vec_len = be_value->type->array.len;
 		LLVMValueRef result = be_value->value;
@@ -4439,6 +4443,7 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 		BinaryOp base_op = binaryop_assign_base_op(binary_op);
 		ASSERT(base_op != BINARYOP_ERROR);
 		BEValue lhs;
+		if (reload) vector_value = llvm_load_value_store(c, &addr);
 		llvm_value_set(&lhs, LLVMBuildExtractElement(c->builder, vector_value, index_val, "elem"), expr->type);
 		llvm_emit_binary(c, be_value, expr, &lhs, base_op);
 	}
@@ -4447,7 +4452,9 @@ static void llvm_emit_vector_assign_expr(GenContext *c, BEValue *be_value, Expr
 		llvm_emit_expr(c, be_value, exprptr(expr->binary_expr.right));
 	}
 
-	LLVMValueRef new_value = LLVMBuildInsertElement(c->builder, vector_value, llvm_load_value_store(c, be_value),
+	LLVMValueRef element = llvm_load_value_store(c, be_value);
+	if (reload) vector_value = llvm_load_value_store(c, &addr);
+	LLVMValueRef new_value = LLVMBuildInsertElement(c->builder, vector_value, element,
 	                                                index_val, "elemset");
 	llvm_store_raw(c, &addr, new_value);
 
-- 
2.43.0


From bb4ffcf85aa2395b97596f457813856e62c450a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:36 +0000
Subject: [PATCH 052/101] fix: slicing with a negative or wrapping length was
 not caught in safe mode

---
 src/compiler/llvm_codegen_expr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 29fe279..6ae7191 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2723,9 +2723,15 @@ static void llvm_emit_slice_values(GenContext *c, Expr *slice, BEValue *parent_r
 		{
 			if (is_len_range)
 			{
+				BEValue excess;
+				if (range.range_type == RANGE_DYNAMIC)
+				{
+					// A negative length, or one which made the end wrap around.
+					llvm_emit_int_comp(c, &excess, &start_index, &end_index, BINARYOP_GT);
+					llvm_emit_panic_if_true(c, &excess, "Negative size", slice->span, "Negative size (start %d is less than end %d)", &start_index, &end_index);
+				}
 				if (len.value)
 				{
-					BEValue excess;
 					llvm_emit_int_comp(c, &excess, &len, &end_index, BINARYOP_LT);
 					BEValue actual_end_index = end_index;
 					actual_end_index.value = llvm_emit_sub_int(c, end_index.type, end_index.value, llvm_const_int(c, type_isz, 1), slice->span);
-- 
2.43.0


From ddb3b0ca182fac5a1eb7dd0e65fdea4a4dfe7611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:59 +0000
Subject: [PATCH 053/101] fix: shift amounts wider than the shifted value were
 truncated before the safe mode check

---
 src/compiler/llvm_codegen_expr.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index 6ae7191..a790ba7 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2533,7 +2533,7 @@ static void llvm_emit_trap_zero(GenContext *c, Type *type, LLVMValueRef value, c
 }
 
 
-static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type *type, const char *error, SourceSpan loc)
+static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type *type, unsigned type_bit_size, const char *error, SourceSpan loc)
 {
 	if (!safe_mode_enabled()) return;
 	BEValue val;
@@ -2542,7 +2542,6 @@ static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type
 	if (type_flat_is_vector(type))
 	{
 		Type *vec_base = type->array.base;
-		unsigned type_bit_size = type_size(vec_base) * 8;
 		LLVMTypeRef llvm_type = llvm_get_type(c, type);
 		LLVMValueRef max = llvm_const_int(c, vec_base, type_bit_size);
 		if (type_is_unsigned(vec_base))
@@ -2564,7 +2563,6 @@ static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type
 	}
 	else
 	{
-		unsigned type_bit_size = type_size(type) * 8;
 		LLVMValueRef max = llvm_const_int(c, type, type_bit_size);
 		if (type_is_unsigned(type))
 		{
@@ -2580,6 +2578,24 @@ static void llvm_emit_trap_invalid_shift(GenContext *c, LLVMValueRef value, Type
 	}
 }
 
+/**
+ * Check the shift amount in safe mode and convert it to the type of the shifted value.
+ */
+static LLVMValueRef llvm_emit_shift_amount(GenContext *c, LLVMValueRef amount, Type *amount_type, Type *type, LLVMTypeRef llvm_type, SourceSpan loc)
+{
+	static const char *error = "Shift amount out of range (was %s).";
+	type = type_flatten(type);
+	amount_type = type_flatten(amount_type);
+	unsigned bits = type_size(type_flat_is_vector(type) ? type->array.base : type) * 8;
+	unsigned amount_bits = type_size(type_flat_is_vector(amount_type) ? amount_type->array.base : amount_type) * 8;
+	// Check wider amounts before they are truncated.
+	bool check_first = amount_bits > bits;
+	if (check_first) llvm_emit_trap_invalid_shift(c, amount, amount_type, bits, error, loc);
+	amount = llvm_zext_trunc(c, amount, llvm_type);
+	if (!check_first) llvm_emit_trap_invalid_shift(c, amount, type, bits, error, loc);
+	return amount;
+}
+
 static void llvm_emit_slice_values(GenContext *c, Expr *slice, BEValue *parent_ref, BEValue *start_ref, BEValue *end_ref, bool *is_exclusive)
 {
 	ASSERT(slice->expr_kind == EXPR_SLICE);
@@ -4145,16 +4161,14 @@ void llvm_emit_binary(GenContext *c, BEValue *be_value, Expr *expr, BEValue *lhs
 				  : LLVMBuildSRem(c->builder, lhs_value, rhs_value, "smod");
 			break;
 		case BINARYOP_SHR:
-			rhs_value = llvm_zext_trunc(c, rhs_value, LLVMTypeOf(lhs_value));
-			llvm_emit_trap_invalid_shift(c, rhs_value, lhs_type, "Shift amount out of range (was %s).", expr->span);
+			rhs_value = llvm_emit_shift_amount(c, rhs_value, rhs_type, lhs_type, LLVMTypeOf(lhs_value), expr->span);
 			val = is_unsigned
 				  ? LLVMBuildLShr(c->builder, lhs_value, rhs_value, "lshr")
 				  : LLVMBuildAShr(c->builder, lhs_value, rhs_value, "ashr");
 			val = LLVMBuildFreeze(c->builder, val, "");
 			break;
 		case BINARYOP_SHL:
-			rhs_value = llvm_zext_trunc(c, rhs_value, LLVMTypeOf(lhs_value));
-			llvm_emit_trap_invalid_shift(c, rhs_value, lhs_type, "Shift amount out of range (was %s).", expr->span);
+			rhs_value = llvm_emit_shift_amount(c, rhs_value, rhs_type, lhs_type, LLVMTypeOf(lhs_value), expr->span);
 			val = LLVMBuildShl(c->builder, lhs_value, rhs_value, "shl");
 			val = LLVMBuildFreeze(c->builder, val, "");
 			break;
-- 
2.43.0


From 99c8842343921447772d9902f0d877feff40f640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:43 +0000
Subject: [PATCH 054/101] fix: initializing bool vectors with run time values
 gave broken LLVM IR

---
 src/compiler/llvm_codegen_expr.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index a790ba7..ac20fcc 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -1541,8 +1541,8 @@ static inline void llvm_emit_initialize_reference_vector(GenContext *c, BEValue
 	FOREACH_IDX(i, Expr *, element, elements)
 	{
 		llvm_emit_expr(c, &element_val, element);
-		llvm_value_rvalue(c, &element_val);
-		vector_val = LLVMBuildInsertElement(c->builder, vector_val, element_val.value, llvm_const_int(c, type_usz, i), "");
+		LLVMValueRef val = llvm_load_value_store(c, &element_val);
+		vector_val = LLVMBuildInsertElement(c->builder, vector_val, val, llvm_const_int(c, type_usz, i), "");
 	}
 	llvm_store_raw(c, ref, vector_val);
 }
@@ -6262,8 +6262,8 @@ static inline void llvm_emit_vector_initializer_list(GenContext *c, BEValue *val
 		FOREACH_IDX(i, Expr *, element, elements)
 		{
 			llvm_emit_expr(c, &val, element);
-			llvm_value_rvalue(c, &val);
-			vec_value = llvm_update_vector(c, vec_value, val.value, (ArrayIndex)i);
+			LLVMValueRef element_val = llvm_load_value_store(c, &val);
+			vec_value = llvm_update_vector(c, vec_value, element_val, (ArrayIndex)i);
 		}
 	}
 	else
@@ -6276,18 +6276,18 @@ static inline void llvm_emit_vector_initializer_list(GenContext *c, BEValue *val
 			ASSERT(vec_size(designator->designator_expr.path) == 1);
 			DesignatorElement *element = designator->designator_expr.path[0];
 			llvm_emit_expr(c, &val, designator->designator_expr.value);
-			llvm_value_rvalue(c, &val);
+			LLVMValueRef element_val = llvm_load_value_store(c, &val);
 			switch (element->kind)
 			{
 				case DESIGNATOR_ARRAY:
 				{
-					vec_value = llvm_update_vector(c, vec_value, val.value, element->index);
+					vec_value = llvm_update_vector(c, vec_value, element_val, element->index);
 					break;
 				}
 				case DESIGNATOR_RANGE:
 					for (ArrayIndex idx = element->index; idx <= element->index_end; idx++)
 					{
-						vec_value = llvm_update_vector(c, vec_value, val.value, idx);
+						vec_value = llvm_update_vector(c, vec_value, element_val, idx);
 					}
 					break;
 				case DESIGNATOR_FIELD:
-- 
2.43.0


From ead524d332012992299b013f144a80a05b90e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:56 +0000
Subject: [PATCH 055/101] fix: converting a bool vector to an array gave broken
 LLVM IR

---
 src/compiler/llvm_codegen_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index ac20fcc..d4b07e3 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -6969,11 +6969,13 @@ static inline void llvm_emit_vector_to_array(GenContext *c, BEValue *value, Expr
 {
 	llvm_emit_expr(c, value, expr->inner_expr);
 	llvm_value_rvalue(c, value);
+	bool is_bool = value->kind == BE_BOOLVECTOR;
 	Type *to_type = type_lowering(expr->type);
 	LLVMValueRef array = llvm_get_undef(c, to_type);
 	for (unsigned i = 0; i < to_type->array.len; i++)
 	{
 		LLVMValueRef element = llvm_emit_extract_value(c, value->value, i);
+		if (is_bool) element = LLVMBuildZExt(c->builder, element, c->byte_type, "");
 		array = llvm_emit_insert_value(c, array, element, i);
 	}
 	llvm_value_set(value, array, to_type);
-- 
2.43.0


From a0a51836121922a4d8cc1fd34fd85ef689970e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:37 +0000
Subject: [PATCH 056/101] fix: writing to a swizzle or slice of a vector
 parameter was lost

---
 src/compiler/sema_expr.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 2ef4e0d..8fef46f 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -780,6 +780,12 @@ bool sema_expr_check_assign(SemaContext *context, Expr *expr, bool *failed_ref)
 		goto CHECK_INNER;
 	}
 	if (expr->expr_kind == EXPR_BITACCESS || expr->expr_kind == EXPR_ACCESS_RESOLVED) expr = expr->access_resolved_expr.parent;
+	if (expr->expr_kind == EXPR_SWIZZLE)
+	{
+		inner = exprptr(expr->swizzle_expr.parent);
+		if (inner->expr_kind == EXPR_IDENTIFIER) inner->ident_expr->var.is_written = true;
+		return true;
+	}
 	if (expr->expr_kind == EXPR_IDENTIFIER)
 	{
 		expr->ident_expr->var.is_written = true;
@@ -3871,6 +3877,11 @@ static inline bool sema_expr_analyse_slice(SemaContext *context, Expr *expr, Che
 	bool optional = IS_OPTIONAL(subscripted);
 	Type *type = type_flatten(subscripted->type);
 	Type *original_type = type_no_optional(subscripted->type);
+	// Slicing a vector aliases it, so it must have an address.
+	if (type->type_kind == TYPE_VECTOR && subscripted->expr_kind == EXPR_IDENTIFIER)
+	{
+		subscripted->ident_expr->var.is_addr = true;
+	}
 	RangeEnv env;
 	switch (type->type_kind)
 	{
-- 
2.43.0


From 1a6e10a343dd00fb93d9eb1be57bc797c98214e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:17 +0000
Subject: [PATCH 057/101] fix: incrementing a vector element with wrapping was
 undefined behaviour

---
 src/compiler/llvm_codegen_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index d4b07e3..a24c266 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2256,7 +2256,7 @@ static inline void llvm_emit_pre_post_inc_dec_vector(GenContext *c, BEValue *val
 	llvm_value_set(&current_res, LLVMBuildExtractElement(c->builder, vector, index, ""), element);
 
 	// Calculate the new value.
-	LLVMValueRef new_value = llvm_emit_inc_dec_value(c, expr->span, &current_res, diff, false);
+	LLVMValueRef new_value = llvm_emit_inc_dec_value(c, expr->span, &current_res, diff, true);
 
 	// We update the vector value.
 	vector = LLVMBuildInsertElement(c->builder, vector, new_value, index, "");
-- 
2.43.0


From ff6c92ec55eb52b0ed93795dcc79ffb6d1bcfad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:08 +0000
Subject: [PATCH 058/101] fix: case ranges overlapping an earlier case were not
 reported

---
 src/compiler/sema_stmts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index b342fbd..c011a37 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2270,7 +2270,8 @@ static inline bool sema_check_value_case(SemaContext *context, Type *switch_type
 		if (!sema_cast_const(other_expr)) continue;
 		ExprConst *other_const = &other_expr->const_expr;
 		ExprConst *other_to_const = other->case_stmt.to_expr ? &exprptr(other->case_stmt.to_expr)->const_expr : other_const;
-		if (expr_const_in_range(const_expr, other_const, other_to_const))
+		if (expr_const_in_range(const_expr, other_const, other_to_const)
+			|| expr_const_in_range(other_const, const_expr, to_const_expr))
 		{
 			SEMA_ERROR(case_stmt, "The same case value appears more than once.");
 			SEMA_NOTE(other, "Here is the previous use of that value.");
-- 
2.43.0


From fe2ceb3212c95fc5f9d51cbac1aa4a08d66d1ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:08 +0000
Subject: [PATCH 059/101] fix: a case range ending in a run time value tripped
 an assertion

---
 src/compiler/sema_stmts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index c011a37..475e77d 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2207,7 +2207,7 @@ static inline bool sema_check_value_case(SemaContext *context, Type *switch_type
 		*if_chained = true;
 		return true;
 	}
-	if (is_range && (!first_is_const || !(expr_is_const_int(expr) || expr_is_const_enum(expr))))
+	if (is_range && (!first_is_const || !sema_cast_const(to_expr) || !(expr_is_const_int(expr) || expr_is_const_enum(expr))))
 	{
 		sema_error_at(context, extend_span_with_token(expr->span, to_expr->span), "Ranges must be constant integers.");
 		return false;
-- 
2.43.0


From 608568cc69b95c4c49fda79e8e57cedd7a41aec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:48 +0000
Subject: [PATCH 060/101] fix: constant strings differing after a zero byte
 compared as equal

---
 src/compiler/number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/number.c b/src/compiler/number.c
index 3cc1530..4ed5fa8 100644
--- a/src/compiler/number.c
+++ b/src/compiler/number.c
@@ -161,7 +161,7 @@ bool expr_const_compare(const ExprConst *left, const ExprConst *right, BinaryOp
 				is_eq = true;
 				goto RETURN;
 			}
-			is_eq = !strncmp(left->bytes.ptr, right->bytes.ptr, left->bytes.len);
+			is_eq = !memcmp(left->bytes.ptr, right->bytes.ptr, left->bytes.len);
 			goto RETURN;
 		case CONST_TYPEID:
 			is_eq = left->typeid == right->typeid;
-- 
2.43.0


From 1aaeecfdb0dad4f9be43b7e4176cd0483d25e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:59 +0000
Subject: [PATCH 061/101] fix: an empty default in a string, fault, type or
 @jump switch did not fall through

---
 src/compiler/llvm_codegen_stmt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index 7265836..14242e4 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -751,7 +751,8 @@ static void llvm_emit_switch_body_if_chain(GenContext *c,
 	}
 	else
 	{
-		llvm_emit_br(c, exit_block);
+		// An empty default falls through to the following case.
+		llvm_emit_br(c, default_case ? default_case->case_stmt.backend_block : exit_block);
 	}
 	llvm_emit_block(c, exit_block);
 	return;
@@ -838,8 +839,9 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 		Ast *case_ast = cases[i];
 		if (case_ast->ast_kind == AST_DEFAULT_STMT)
 		{
-			if (!case_ast->case_stmt.body) continue;
+			// An empty default falls through to the following case.
 			default_block = case_ast->case_stmt.backend_block;
+			if (!case_ast->case_stmt.body) continue;
 			default_index = i;
 			continue;
 		}
-- 
2.43.0


From 8d8ba30de8c3717a3108ca22066983d573a87ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:51 +0000
Subject: [PATCH 062/101] fix: run time case values counted as handled enum
 values

---
 src/compiler/sema_stmts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 475e77d..854cc5c 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2201,12 +2201,12 @@ static inline bool sema_check_value_case(SemaContext *context, Type *switch_type
 
 	bool is_range = to_expr != NULL;
 	bool first_is_const = sema_cast_const(expr);
-	(*actual_cases_ref)++;
 	if (!is_range && !first_is_const)
 	{
 		*if_chained = true;
 		return true;
 	}
+	(*actual_cases_ref)++;
 	if (is_range && (!first_is_const || !sema_cast_const(to_expr) || !(expr_is_const_int(expr) || expr_is_const_enum(expr))))
 	{
 		sema_error_at(context, extend_span_with_token(expr->span, to_expr->span), "Ranges must be constant integers.");
-- 
2.43.0


From e1e5b53d903cb452eeb3a3191e38898e01543bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:51 +0000
Subject: [PATCH 063/101] fix: @jump switches spanning more than half the range
 of ichar or short were miscompiled

---
 src/compiler/llvm_codegen_stmt.c | 15 +++++++++++----
 src/compiler/sema_stmts.c        |  7 ++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index 14242e4..7c7b5dc 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -786,7 +786,13 @@ static LLVMValueRef llvm_emit_switch_jump_stmt(GenContext *c,
 	llvm_emit_block(c, switch_block);
 	AlignSize align;
 	LLVMTypeRef type = LLVMArrayType(c->ptr_type, count);
-	LLVMValueRef index = llvm_emit_array_gep_raw_index(c, jump_table, type, switch_value, llvm_abi_alignment(c, type), &align);
+	BEValue jump_index = *switch_value;
+	if (type_size(jump_index.type) <= 2)
+	{
+		// The index may be negative when interpreted as a signed value.
+		llvm_value_set(&jump_index, llvm_zext_trunc(c, jump_index.value, llvm_get_type(c, type_usz)), type_usz);
+	}
+	LLVMValueRef index = llvm_emit_array_gep_raw_index(c, jump_table, type, &jump_index, llvm_abi_alignment(c, type), &align);
 	LLVMValueRef addr = llvm_load(c, c->ptr_type, index, align, "target");
 	LLVMValueRef instr = LLVMBuildIndirectBr(c->builder, addr, case_count);
 	c->current_block = NULL;
@@ -865,7 +871,8 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 	}
 	switch_ast->switch_stmt.codegen.jump.default_index = default_index;
 	switch_ast->switch_stmt.codegen.jump.min_index = min_index;
-	max = int_sub(max, min);
+	// The distances may not fit the type itself.
+	max.i = i128_sub(max.i, min.i);
 	ASSERT(max.i.low <= 0xFFFF);
 	uint64_t count = switch_ast->switch_stmt.codegen.jump.count = max.i.low + 1;
 	ASSERT(!max.i.high && "Should never exceed 64 bytes");
@@ -900,8 +907,8 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 		{
 			Int value, to_value;
 			llvm_set_jump_table_values(case_stmt->case_stmt.expr, case_stmt->case_stmt.to_expr, &value, &to_value);
-			value = int_sub(value, min);
-			to_value = int_sub(to_value, min);
+			value.i = i128_sub(value.i, min.i);
+			to_value.i = i128_sub(to_value.i, min.i);
 			uint64_t from_val = value.i.low;
 			uint64_t to_val = to_value.i.low;
 			for (uint64_t j = from_val; j <= to_val; j++)
diff --git a/src/compiler/sema_stmts.c b/src/compiler/sema_stmts.c
index 854cc5c..d238780 100644
--- a/src/compiler/sema_stmts.c
+++ b/src/compiler/sema_stmts.c
@@ -2423,9 +2423,10 @@ static bool sema_analyse_switch_body(SemaContext *context, Ast *statement, Sourc
 		max_ranged = false;
 		if (low.type != TYPE_POISONED)
 		{
-			Int range = int_sub(high, low);
-			Int max = { .i.low = compiler.build.switchjump_max_size, .type = range.type };
-			if (int_comp(range, max, BINARYOP_GE))
+			// The distance may not fit the type itself, so compare it as an unsigned value.
+			Int128 range = i128_sub(high.i, low.i);
+			Int128 max = { .low = compiler.build.switchjump_max_size };
+			if (i128_ucomp(range, max) != CMP_LT)
 			{
 				RETURN_SEMA_ERROR(statement, "The switch cannot use a jump table size of the table would exceed "
 				                             "the maximum allowed (%u), please remove '@jump'.", compiler.build.switchjump_max_size);
-- 
2.43.0


From fa6e60c9def21990a52e2b596f8741738887290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:51 +0000
Subject: [PATCH 064/101] fix: @jump switches with an empty last case were
 miscompiled

---
 src/compiler/llvm_codegen_stmt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index 7c7b5dc..1416268 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -934,6 +934,8 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 		found = true;
 		LLVMAddDestination(instr, default_block);
 	}
+	// An empty last case jumps to the exit.
+	if (VECLAST(cases)->ast_kind == AST_CASE_STMT && !VECLAST(cases)->case_stmt.body) LLVMAddDestination(instr, exit_block);
 	LLVMSetInitializer(jmptable, LLVMConstArray(c->ptr_type, refs, count));
 	llvm_emit_block(c, exit_block);
 }
@@ -1157,7 +1159,7 @@ void gencontext_emit_next_stmt(GenContext *context, Ast *ast)
 			if (!case_ast->case_stmt.body) continue;
 			LLVMAddDestination(instr, case_ast->case_stmt.backend_block);
 		}
-		if (default_index < 0) LLVMAddDestination(instr, exit_block);
+		if (default_index < 0 || !VECLAST(cases)->case_stmt.body) LLVMAddDestination(instr, exit_block);
 
 		return;
 	}
-- 
2.43.0


From 0f8c198c45f3803a1feba225b8a5243f2e0794af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:18 +0000
Subject: [PATCH 065/101] fix: nextcase to an empty default in a @jump switch
 left the switch

---
 src/compiler/llvm_codegen_stmt.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index 1416268..e2df10e 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -847,7 +847,6 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 		{
 			// An empty default falls through to the following case.
 			default_block = case_ast->case_stmt.backend_block;
-			if (!case_ast->case_stmt.body) continue;
 			default_index = i;
 			continue;
 		}
-- 
2.43.0


From 2295fa1cc38502e3a680b191e19cfde2264d41e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:22 +0000
Subject: [PATCH 066/101] fix: an empty case before the default of a @jump
 switch was miscompiled

---
 src/compiler/llvm_codegen_stmt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/llvm_codegen_stmt.c b/src/compiler/llvm_codegen_stmt.c
index e2df10e..7d36d33 100644
--- a/src/compiler/llvm_codegen_stmt.c
+++ b/src/compiler/llvm_codegen_stmt.c
@@ -915,7 +915,11 @@ static void llvm_emit_switch_jump_table(GenContext *c,
 				refs[j] = LLVMBlockAddress(c->cur_func.ref, block);
 			}
 			// No fallthrough
-			if (!case_stmt->case_stmt.body) continue;
+			if (!case_stmt->case_stmt.body)
+			{
+				if (block == default_block) LLVMAddDestination(instr, block);
+				continue;
+			}
 			LLVMAddDestination(instr, block);
 		}
 		if (!case_stmt->case_stmt.body) continue;
-- 
2.43.0


From 737d556cd1318a811428cb32ed7bc1f22cbe6bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:09 +0000
Subject: [PATCH 067/101] fix: the end of a bitstruct range was not analysed

---
 src/compiler/sema_decls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index 927ce9f..5668630 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -836,7 +836,7 @@ static inline bool sema_analyse_bitstruct_member(SemaContext *context, Decl *par
 		if (end)
 		{
 			// Analyse the end
-			if (!sema_analyse_expr(context, start)) return false;
+			if (!sema_analyse_expr(context, end)) return false;
 			if (!sema_cast_const(end) || !type_is_integer(end->type) || int_is_neg(end->const_expr.ixx))
 			{
 				SEMA_ERROR(end, "This must be a constant non-negative integer value.");
-- 
2.43.0


From 49c8d94ca3ef0d2c655a36e6eef414b875ea089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:57 +0000
Subject: [PATCH 068/101] fix: call arguments were read after later arguments
 had changed them

---
 src/compiler/llvm_codegen_expr.c | 157 +++++++++++++++++++++++++++++--
 1 file changed, 151 insertions(+), 6 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index a24c266..d17aad2 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -2238,18 +2238,22 @@ static inline void llvm_emit_pre_post_inc_dec_vector(GenContext *c, BEValue *val
 	// First grab the address
 	BEValue addr;
 	llvm_emit_exprid(c, &addr, expr->subscript_expr.expr);
-	*value = addr;
 	llvm_value_addr(c, &addr);
 
-	// But we also want the value (of the full vector)
-	llvm_value_rvalue(c, value);
-	Type *vec = value->type;
+	// And then the value (of the full vector)
+	Type *vec = type_lowering(addr.type);
 	ASSERT(vec->type_kind == TYPE_VECTOR);
 	Type *element = vec->array.base;
-	LLVMValueRef vector = value->value;
 
-	// Now let's get the subscript and store it in value
+	// If the subscript might change the vector then it must be evaluated before the vector is read.
+	BEValue vec_value = addr;
+	bool index_is_pure = exprid_is_pure(expr->subscript_expr.index.expr);
+	if (index_is_pure) llvm_value_rvalue(c, &vec_value);
+
+	// Let's get the subscript and store it in value
 	LLVMValueRef index = llvm_emit_vector_index(c, value, expr, vec);
+	if (!index_is_pure) llvm_value_rvalue(c, &vec_value);
+	LLVMValueRef vector = vec_value.value;
 
 	// We're now done, we can extract the current value:
 	BEValue current_res;
@@ -5790,6 +5794,145 @@ INLINE void llvm_emit_vasplat_expr(GenContext *c, BEValue *value_ref, Expr *vasp
 	}
 
 }
+/**
+ * If this is an lvalue which is (inside of) a variable, then return that variable.
+ */
+static Decl *expr_find_lvalue_variable(Expr *expr)
+{
+	while (true)
+	{
+		switch (expr->expr_kind)
+		{
+			case EXPR_IDENTIFIER:
+				return expr->ident_expr->decl_kind == DECL_VAR ? expr->ident_expr : NULL;
+			case EXPR_ACCESS_RESOLVED:
+			case EXPR_BITACCESS:
+				expr = expr->access_resolved_expr.parent;
+				continue;
+			case EXPR_SUBSCRIPT:
+				expr = exprptr(expr->subscript_expr.expr);
+				continue;
+			case EXPR_RVALUE:
+			case EXPR_RECAST:
+			case EXPR_ADDR_CONVERSION:
+				expr = expr->inner_expr;
+				continue;
+			default:
+				return NULL;
+		}
+	}
+}
+
+/**
+ * Is this a local variable which can't be reached through a pointer?
+ */
+static bool decl_is_unescaped_local(Decl *decl)
+{
+	if (decl->var.kind != VARDECL_LOCAL && decl->var.kind != VARDECL_PARAM) return false;
+	if (decl->var.is_static || decl->var.is_addr) return false;
+	Type *type = type_lowering(decl->type);
+	// Arrays may be reached using slices.
+	return type->type_kind == TYPE_SLICE || type->type_kind == TYPE_ANY || !type_is_abi_aggregate(type);
+}
+
+static bool expr_may_change_lvalue(Expr *expr, bool unescaped_local);
+
+static bool expr_list_may_change_lvalue(Expr **exprs, bool unescaped_local)
+{
+	FOREACH(Expr *, expr, exprs)
+	{
+		if (expr_may_change_lvalue(expr, unescaped_local)) return true;
+	}
+	return false;
+}
+
+static bool expr_stmts_may_change_lvalue(AstId current, bool unescaped_local)
+{
+	while (current)
+	{
+		Ast *stmt = ast_next(&current);
+		switch (stmt->ast_kind)
+		{
+			case AST_NOP_STMT:
+				break;
+			case AST_COMPOUND_STMT:
+				if (expr_stmts_may_change_lvalue(stmt->compound_stmt.first_stmt, unescaped_local)) return true;
+				break;
+			case AST_ASSERT_STMT:
+				if (expr_may_change_lvalue(exprptr(stmt->assert_stmt.expr), unescaped_local)) return true;
+				break;
+			case AST_BLOCK_EXIT_STMT:
+				if (stmt->return_stmt.cleanup || stmt->return_stmt.cleanup_fail) return true;
+				if (expr_may_change_lvalue(stmt->return_stmt.expr, unescaped_local)) return true;
+				break;
+			default:
+				return true;
+		}
+	}
+	return false;
+}
+
+/**
+ * May evaluating this expression change the value of some lvalue? Conservatively assumes that
+ * it is the case, with the exception of calls, which are unable to change unescaped locals.
+ */
+static bool expr_may_change_lvalue(Expr *expr, bool unescaped_local)
+{
+	if (!expr || expr_is_pure(expr)) return false;
+	switch (expr->expr_kind)
+	{
+		case EXPR_INITIALIZER_LIST:
+			return expr_list_may_change_lvalue(expr->initializer_list, unescaped_local);
+		case EXPR_CALL:
+			if (!unescaped_local) return true;
+			if (expr->call_expr.is_pointer_call && expr_may_change_lvalue(exprptr(expr->call_expr.function), true)) return true;
+			if (expr_list_may_change_lvalue(expr->call_expr.arguments, true)) return true;
+			if (expr->call_expr.va_is_splat) return expr_may_change_lvalue(expr->call_expr.vasplat, true);
+			return expr_list_may_change_lvalue(expr->call_expr.varargs, true);
+		case EXPR_MACRO_BLOCK:
+		{
+			// Look inside of macros which only consist of returning an expression.
+			FOREACH(Decl *, param, expr->macro_block.params)
+			{
+				if (!param || param->var.kind != VARDECL_PARAM) continue;
+				if (expr_may_change_lvalue(param->var.init_expr, unescaped_local)) return true;
+			}
+			return expr_stmts_may_change_lvalue(expr->macro_block.first_stmt, unescaped_local);
+		}
+		default:
+			return true;
+	}
+}
+
+/**
+ * An argument which is an lvalue may still be just an address when the other arguments are emitted. If any of those
+ * may change it, then the value has to be read before they are evaluated, since evaluation is left to right.
+ */
+static void llvm_emit_arg_read(GenContext *c, BEValue *value, Expr *arg, Expr **args, ArraySize index, ArraySize count, Expr **varargs)
+{
+	if (!llvm_value_is_addr(value)) return;
+	bool is_aggregate = type_is_abi_aggregate(value->type);
+	Decl *variable = expr_find_lvalue_variable(arg);
+	// Aggregates which are not variables are mostly temporaries.
+	if (is_aggregate && !variable) return;
+	bool unescaped_local = variable && decl_is_unescaped_local(variable);
+	bool may_change = expr_list_may_change_lvalue(varargs, unescaped_local);
+	for (ArraySize i = index + 1; i < count && !may_change; i++)
+	{
+		may_change = expr_may_change_lvalue(args[i], unescaped_local);
+	}
+	if (!may_change) return;
+	if (!is_aggregate)
+	{
+		llvm_value_rvalue(c, value);
+		return;
+	}
+	BEValue temp;
+	llvm_value_set_address_abi_aligned(&temp, llvm_emit_alloca_aligned(c, value->type, "argtemp"), value->type);
+	llvm_store(c, &temp, value);
+	*value = temp;
+}
+
 static void llvm_emit_call_expr(GenContext *c, BEValue *result_value, Expr *expr, BEValue *target)
 {
 	if (expr->call_expr.is_builtin)
@@ -5881,6 +6024,7 @@ static void llvm_emit_call_expr(GenContext *c, BEValue *result_value, Expr *expr
 		{
 			llvm_emit_expr(c, value_ref, arg);
 			llvm_value_fold_optional(c, value_ref);
+			llvm_emit_arg_read(c, value_ref, arg, args, i, arg_count, varargs);
 			continue;
 		}
 		Type *param = prototype->param_types[i];
@@ -5905,6 +6049,7 @@ static void llvm_emit_call_expr(GenContext *c, BEValue *result_value, Expr *expr
 			BEValue *value_ref = &values[arg_count + i];
 			llvm_emit_expr(c, value_ref, vararg);
 			llvm_value_fold_optional(c, value_ref);
+			llvm_emit_arg_read(c, value_ref, vararg, varargs, i, vec_size(varargs), NULL);
 		}
 	}
 
-- 
2.43.0


From ed58a27f82d14f1e74c34cc780f0c024d52dda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:49 +0000
Subject: [PATCH 069/101] fix: designated constant initializers lost or shared
 earlier parts

---
 src/compiler/sema_initializers.c | 110 +++++++++++++++++++++----------
 1 file changed, 77 insertions(+), 33 deletions(-)

diff --git a/src/compiler/sema_initializers.c b/src/compiler/sema_initializers.c
index 6c9ea40..d36e0af 100644
--- a/src/compiler/sema_initializers.c
+++ b/src/compiler/sema_initializers.c
@@ -12,29 +12,29 @@ static bool sema_expr_analyse_designated_initializer(SemaContext *context, Type
 													 Expr *initializer);
 static inline void sema_not_enough_elements_error(SemaContext *context, Expr *initializer, int element);
 static inline bool sema_expr_analyse_initializer(SemaContext *context, Type *assigned_type, Type *flattened, Expr *expr);
-static void sema_create_const_initializer_from_designated_init(ConstInitializer *const_init, Expr *initializer);
+static bool sema_create_const_initializer_from_designated_init(ConstInitializer *const_init, Expr *initializer);
 static Decl *sema_resolve_element_for_name(SemaContext *context, Decl **decls, DesignatorElement ***elements_ref, unsigned *index, bool is_substruct);
 static Type *sema_expr_analyse_designator(SemaContext *context, Type *current, Expr *expr, ArrayIndex *max_index, Decl **member_ptr);
 INLINE bool sema_initializer_list_is_empty(Expr *value);
 static Type *sema_find_type_of_element(SemaContext *context, Type *type, DesignatorElement ***elements_ref, unsigned *curr_index, bool *is_constant, bool *did_report_error, ArrayIndex *max_index, Decl **member_ptr);
 static ArrayIndex sema_analyse_designator_index(SemaContext *context, Expr *index);
-static void sema_update_const_initializer_with_designator(ConstInitializer *const_init,
+static bool sema_update_const_initializer_with_designator(ConstInitializer *const_init,
 														  DesignatorElement **curr,
 														  DesignatorElement **end,
 														  Expr *value);
-static inline void sema_update_const_initializer_with_designator_struct(ConstInitializer *const_init,
+static inline bool sema_update_const_initializer_with_designator_struct(ConstInitializer *const_init,
 																		DesignatorElement **curr,
 																		DesignatorElement **end,
 																		Expr *value);
-static inline void sema_update_const_initializer_with_designator_union(ConstInitializer *const_init,
+static inline bool sema_update_const_initializer_with_designator_union(ConstInitializer *const_init,
 																	   DesignatorElement **curr,
 																	   DesignatorElement **end,
 																	   Expr *value);
-static inline void sema_update_const_initializer_with_designator_array(ConstInitializer *const_init,
+static inline bool sema_update_const_initializer_with_designator_array(ConstInitializer *const_init,
 																	   DesignatorElement **curr,
 																	   DesignatorElement **end,
 																	   Expr *value);
-static inline void sema_update_const_initializer_with_designator(
+static inline bool sema_update_const_initializer_with_designator(
 		ConstInitializer *const_init,
 		DesignatorElement **curr,
 		DesignatorElement **end,
@@ -546,7 +546,10 @@ static bool sema_expr_analyse_designated_initializer(SemaContext *context, Type
 	if (expr_is_runtime_const(initializer))
 	{
 		ConstInitializer *const_init = MALLOCS(ConstInitializer);
-		sema_create_const_initializer_from_designated_init(const_init, initializer);
+		if (!sema_create_const_initializer_from_designated_init(const_init, initializer))
+		{
+			RETURN_SEMA_ERROR(initializer, "This initializer updates part of a constant which cannot be modified.");
+		}
 		expr_rewrite_const_initializer(initializer, initializer->type, const_init);
 	}
 	return true;
@@ -623,7 +626,7 @@ static inline bool sema_expr_analyse_initializer(SemaContext *context, Type *ass
 /**
  * Create a const initializer.
  */
-static void sema_create_const_initializer_from_designated_init(ConstInitializer *const_init, Expr *initializer)
+static bool sema_create_const_initializer_from_designated_init(ConstInitializer *const_init, Expr *initializer)
 {
 	// Flatten the type since the external type might be typedef or a distinct type.
 	const_init_rewrite_to_zero(const_init, type_flatten(initializer->type));
@@ -634,8 +637,9 @@ static void sema_create_const_initializer_from_designated_init(ConstInitializer
 		DesignatorElement **path = expr->designator_expr.path;
 		Expr *value = expr->designator_expr.value;
 		ASSERT(value);
-		sema_update_const_initializer_with_designator(const_init, path, path + vec_size(path), value);
+		if (!sema_update_const_initializer_with_designator(const_init, path, path + vec_size(path), value)) return false;
 	}
+	return true;
 }
 
 void sema_invert_bitstruct_const_initializer(ConstInitializer *initializer)
@@ -881,6 +885,15 @@ void const_init_rewrite_to_value(ConstInitializer *const_init, Expr *value)
 	const_init->kind = CONST_INIT_VALUE;
 }
 
+/**
+ * Later designators may update this element again, e.g. { [1..2] = { .a = 1 }, [1].a = 2 },
+ * so it may not share anything with the value.
+ */
+static inline void const_init_rewrite_to_value_copy(ConstInitializer *const_init, Expr *value)
+{
+	const_init_rewrite_to_value(const_init, copy_expr_single(value));
+}
+
 bool const_init_is_zero(ConstInitializer *init)
 {
 	RETRY:
@@ -932,7 +945,7 @@ ConstInitializer *const_init_new_value(Expr *value)
 /**
  * Update a struct element, e.g. { .a = 1 } or { .a[12] = { .b } }
  */
-static inline void sema_update_const_initializer_with_designator_struct(ConstInitializer *const_init,
+static inline bool sema_update_const_initializer_with_designator_struct(ConstInitializer *const_init,
 																		DesignatorElement **curr,
 																		DesignatorElement **end,
 																		Expr *value)
@@ -943,12 +956,11 @@ static inline void sema_update_const_initializer_with_designator_struct(ConstIni
 	DesignatorElement **next_element = curr + 1;
 	bool is_last_path_element = next_element == end;
 
-	// Optimize in case this is a zero, e.g. [12].b = {}
-	if (is_last_path_element && sema_initializer_list_is_empty(value))
+	// Optimize in case this is a zero, e.g. [12].b = {} and everything else is zero as well.
+	if (is_last_path_element && const_init->kind == CONST_INIT_ZERO && sema_initializer_list_is_empty(value))
 	{
-		const_init->kind = CONST_INIT_ZERO;
 		ASSERT(type_flatten(value->type)->type_kind != TYPE_SLICE);
-		return;
+		return true;
 	}
 	Decl **elements = const_init->type->decl->strukt.members;
 
@@ -966,6 +978,9 @@ static inline void sema_update_const_initializer_with_designator_struct(ConstIni
 		const_init->kind = CONST_INIT_STRUCT;
 	}
 
+	// The struct may come from a constant which can't be taken apart.
+	if (const_init->kind == CONST_INIT_VALUE) return false;
+
 	// We should always have expanded the struct at this point.
 	ASSERT(const_init->kind == CONST_INIT_STRUCT);
 
@@ -975,12 +990,12 @@ static inline void sema_update_const_initializer_with_designator_struct(ConstIni
 	// If this isn't the last element, we recurse.
 	if (!is_last_path_element)
 	{
-		sema_update_const_initializer_with_designator(sub_element, next_element, end, value);
-		return;
+		return sema_update_const_initializer_with_designator(sub_element, next_element, end, value);
 	}
 
 	// Otherwise we update the value in that particular element.
-	const_init_rewrite_to_value(sub_element, value);
+	const_init_rewrite_to_value_copy(sub_element, value);
+	return true;
 }
 
 /**
@@ -991,7 +1006,7 @@ static inline void sema_update_const_initializer_with_designator_struct(ConstIni
  * an overlap. In essence we're implicitly clearing the memory when we assign to .a, meaning
  * we are allowed to completely overwrite the "memory" of .b
  */
-static inline void sema_update_const_initializer_with_designator_union(ConstInitializer *const_init,
+static inline bool sema_update_const_initializer_with_designator_union(ConstInitializer *const_init,
 																	   DesignatorElement **curr,
 																	   DesignatorElement **end,
 																	   Expr *value)
@@ -1008,9 +1023,12 @@ static inline void sema_update_const_initializer_with_designator_union(ConstInit
 	if (is_at_last_path_element && sema_initializer_list_is_empty(value))
 	{
 		const_init->kind = CONST_INIT_ZERO;
-		return;
+		return true;
 	}
 
+	// The union may come from a constant which can't be taken apart.
+	if (const_init->kind == CONST_INIT_VALUE) return false;
+
 	// If we currently have a zero, then we create a sub element that is zero.
 	if (const_init->kind == CONST_INIT_ZERO)
 	{
@@ -1035,12 +1053,12 @@ static inline void sema_update_const_initializer_with_designator_union(ConstInit
 	// If we're not at the last element in the path, descend further.
 	if (!is_at_last_path_element)
 	{
-		sema_update_const_initializer_with_designator(sub_element, next_element, end, value);
-		return;
+		return sema_update_const_initializer_with_designator(sub_element, next_element, end, value);
 	}
 
 	// Otherwise just set the current type.
-	const_init_rewrite_to_value(sub_element, value);
+	const_init_rewrite_to_value_copy(sub_element, value);
+	return true;
 }
 
 static inline ConstInitializer *sema_update_const_initializer_at_index(ConstInitializer *const_init, Type *element_type,
@@ -1118,10 +1136,33 @@ void const_init_rewrite_array_at(ConstInitializer *const_init, Expr *value, Arra
 	const_init_rewrite_to_value(inner_value, value);
 }
 
+/**
+ * Turn an array which is a string or bytes into an array where the elements may be updated.
+ */
+static inline bool const_init_expand_bytes(ConstInitializer *const_init)
+{
+	Expr *value = const_init->init_value;
+	if (const_init->type->type_kind != TYPE_ARRAY) return false;
+	if (!expr_is_const_bytes(value) && !expr_is_const_string(value)) return false;
+	Type *element_type = const_init->type->array.base;
+	ArraySize len = const_init->type->array.len;
+	ArraySize value_len = value->const_expr.bytes.len;
+	const char *ptr = value->const_expr.bytes.ptr;
+	ConstInitializer **elements = NULL;
+	for (ArraySize i = 0; i < len; i++)
+	{
+		unsigned char c = i < value_len ? (unsigned char)ptr[i] : 0;
+		vec_add(elements, const_init_new_value(expr_new_const_int(value->span, element_type, c)));
+	}
+	const_init->kind = CONST_INIT_ARRAY_FULL;
+	const_init->init_array_full = elements;
+	return true;
+}
+
 /**
  * Update an array { [2] = 1 }
  */
-static inline void sema_update_const_initializer_with_designator_array(ConstInitializer *const_init,
+static inline bool sema_update_const_initializer_with_designator_array(ConstInitializer *const_init,
 																	   DesignatorElement **curr,
 																	   DesignatorElement **end,
 																	   Expr *value)
@@ -1138,6 +1179,9 @@ static inline void sema_update_const_initializer_with_designator_array(ConstInit
 		const_init->init_array.elements = NULL;
 	}
 
+	// The array may be a constant, in particular a string or bytes.
+	if (const_init->kind == CONST_INIT_VALUE && !const_init_expand_bytes(const_init)) return false;
+
 	Type *element_type = type_flatten(const_init->type->array.base);
 	DesignatorElement **next_element = curr + 1;
 	bool is_last_path_element = next_element == end;
@@ -1148,19 +1192,22 @@ static inline void sema_update_const_initializer_with_designator_array(ConstInit
 
 	for (ArrayIndex index = low_index; index <= high_index; index++)
 	{
-		ConstInitializer *inner_value = sema_update_const_initializer_at_index(const_init, element_type, index, &insert_index);
+		ConstInitializer *inner_value = const_init->kind == CONST_INIT_ARRAY_FULL
+				? const_init->init_array_full[index]
+				: sema_update_const_initializer_at_index(const_init, element_type, index, &insert_index);
 
 		// Update
 		if (!is_last_path_element)
 		{
-			sema_update_const_initializer_with_designator(inner_value, next_element, end, value);
+			if (!sema_update_const_initializer_with_designator(inner_value, next_element, end, value)) return false;
 			continue;
 		}
-		const_init_rewrite_to_value(inner_value, value);
+		const_init_rewrite_to_value_copy(inner_value, value);
 	}
+	return true;
 }
 
-static inline void sema_update_const_initializer_with_designator(
+static inline bool sema_update_const_initializer_with_designator(
 		ConstInitializer *const_init,
 		DesignatorElement **curr,
 		DesignatorElement **end,
@@ -1170,15 +1217,12 @@ static inline void sema_update_const_initializer_with_designator(
 	{
 		case TYPE_STRUCT:
 		case TYPE_BITSTRUCT:
-			sema_update_const_initializer_with_designator_struct(const_init, curr, end, value);
-			return;
+			return sema_update_const_initializer_with_designator_struct(const_init, curr, end, value);
 		case TYPE_UNION:
-			sema_update_const_initializer_with_designator_union(const_init, curr, end, value);
-			return;
+			return sema_update_const_initializer_with_designator_union(const_init, curr, end, value);
 		case TYPE_ARRAY:
 		case TYPE_VECTOR:
-			sema_update_const_initializer_with_designator_array(const_init, curr, end, value);
-			return;
+			return sema_update_const_initializer_with_designator_array(const_init, curr, end, value);
 		default:
 			UNREACHABLE
 	}
-- 
2.43.0


From 12cc443712ba1b602a4b19c38387813abb987664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:49 +0000
Subject: [PATCH 070/101] fix: a ternary lost the parts of a union which
 overlap padding

---
 src/compiler/llvm_codegen_expr.c | 59 +++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index d17aad2..e9741b6 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -4541,6 +4541,43 @@ static void llvm_emit_binary_expr(GenContext *c, BEValue *be_value, Expr *expr)
 }
 
 
+/**
+ * The LLVM type of a union only represents one of its members, so loading it as a value may lose the others,
+ * if they overlap with its padding.
+ */
+static bool type_contains_union(Type *type)
+{
+	type = type_flatten(type);
+	switch (type->type_kind)
+	{
+		case TYPE_UNION:
+			return true;
+		case TYPE_ARRAY:
+			return type_contains_union(type->array.base);
+		case TYPE_STRUCT:
+		{
+			FOREACH(Decl *, member, type->decl->strukt.members)
+			{
+				if (type_contains_union(member->type)) return true;
+			}
+			return false;
+		}
+		default:
+			return false;
+	}
+}
+
+static void llvm_emit_ternary_branch(GenContext *c, BEValue *value, Expr *expr, BEValue *target)
+{
+	llvm_emit_expr(c, value, expr);
+	if (target && value->type != type_void && c->current_block)
+	{
+		llvm_store(c, target, value);
+		return;
+	}
+	llvm_value_rvalue(c, value);
+}
+
 void gencontext_emit_ternary_expr(GenContext *c, BEValue *value, Expr *expr)
 {
 	ASSERT(expr->ternary_expr.then_expr);
@@ -4553,7 +4590,16 @@ void gencontext_emit_ternary_expr(GenContext *c, BEValue *value, Expr *expr)
 	Expr *else_expr = exprptr(expr->ternary_expr.else_expr);
 	Expr *then_expr = exprptr(expr->ternary_expr.then_expr);
 
-	if (!IS_OPTIONAL(expr) && expr_is_const(else_expr)
+	// Unions can't be passed as values.
+	BEValue temp;
+	BEValue *target = NULL;
+	if (type_contains_union(expr->type))
+	{
+		llvm_value_set_address_abi_aligned(&temp, llvm_emit_alloca_aligned(c, expr->type, "ternary"), type_lowering(expr->type));
+		target = &temp;
+	}
+
+	if (!target && !IS_OPTIONAL(expr) && expr_is_const(else_expr)
 		&& expr_is_const(then_expr))
 	{
 		BEValue left;
@@ -4575,8 +4621,7 @@ void gencontext_emit_ternary_expr(GenContext *c, BEValue *value, Expr *expr)
 	llvm_emit_cond_br(c, value, lhs_block, rhs_block);
 	llvm_emit_block(c, lhs_block);
 	BEValue lhs;
-	llvm_emit_expr(c, &lhs, then_expr);
-	llvm_value_rvalue(c, &lhs);
+	llvm_emit_ternary_branch(c, &lhs, then_expr, target);
 	LLVMValueRef lhs_value = lhs.value;
 	if (lhs.type == type_bool && LLVMTypeOf(lhs_value) != c->bool_type)
 	{
@@ -4586,8 +4631,7 @@ void gencontext_emit_ternary_expr(GenContext *c, BEValue *value, Expr *expr)
 
 	llvm_emit_block(c, rhs_block);
 	BEValue rhs;
-	llvm_emit_expr(c, &rhs, else_expr);
-	llvm_value_rvalue(c, &rhs);
+	llvm_emit_ternary_branch(c, &rhs, else_expr, target);
 	LLVMValueRef rhs_value = rhs.value;
 	if (rhs.type == type_bool && LLVMTypeOf(rhs_value) != c->bool_type)
 	{
@@ -4598,6 +4642,11 @@ void gencontext_emit_ternary_expr(GenContext *c, BEValue *value, Expr *expr)
 
 	// Generate phi
 	llvm_emit_block(c, phi_block);
+	if (target && (lhs_exit || rhs_exit))
+	{
+		*value = temp;
+		return;
+	}
 	if (!rhs_exit)
 	{
 		if (!lhs_exit)
-- 
2.43.0


From 4b1f52705410b341a5d827c729516af83ee5e2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:16 +0000
Subject: [PATCH 071/101] fix: large unions with a 3 element vector tripped an
 assertion in the x64 ABI

---
 src/compiler/abi/c_abi_x64.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/abi/c_abi_x64.c b/src/compiler/abi/c_abi_x64.c
index 673a57e..cc0a876 100644
--- a/src/compiler/abi/c_abi_x64.c
+++ b/src/compiler/abi/c_abi_x64.c
@@ -218,6 +218,8 @@ void x64_classify_post_merge(ByteSize size, X64Class *lo_class, X64Class *hi_cla
 
 	DEFAULT_TO_MEMORY:
 	*lo_class = CLASS_MEMORY;
+	// The memory class doesn't need an upper part, and it would not be valid after MEMORY.
+	if (*hi_class == CLASS_SSEUP) *hi_class = CLASS_SSE;
 }
 
 void x64_classify_struct_union(Type *type, ByteSize offset_base, X64Class *current, X64Class *lo_class, X64Class *hi_class, NamedArgument named_arg)
-- 
2.43.0


From e5d019a132834b8ba4748fc1c26b115248e2af51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:16 +0000
Subject: [PATCH 072/101] fix: some decimal literals above 128 bits were
 accepted and truncated

---
 src/compiler/parse_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index d8ce055..251bbd2 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1506,6 +1506,8 @@ Expr *parse_integer(ParseContext *c, Expr *left)
 						break;
 				}
 				uint64_t old_top = i.high;
+				// Anything above UINT128_MAX / 10 will overflow.
+				if (i.high > 0x1999999999999999ULL || (i.high == 0x1999999999999999ULL && i.low > 0x9999999999999999ULL)) wrapped = true;
 				i = i128_mult64(i, 10);
 				i = i128_add64(i, (uint64_t)(ch - '0'));
 				if (!wrapped && old_top > i.high) wrapped = true;
-- 
2.43.0


From 735c5d69c384b96c370ed064618b241140c0fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:16 +0000
Subject: [PATCH 073/101] fix: base64 literals following other byte literals
 were not decoded

---
 src/compiler/parse_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index 251bbd2..69a3bdf 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1694,7 +1694,7 @@ static Expr *parse_bytes_expr(ParseContext *c, Expr *left)
 		{
 			const char *base64data = c->data.lex_start + 4;
 			const char *end = base64data + c->data.lex_len - 1 - 4;
-			parse_base64(new_data + len, new_data + next_len, base64data, end);
+			parse_base64(new_data + len, new_data + new_len, base64data, end);
 		}
 		else
 		{
-- 
2.43.0


From 6941373061753ce99d8ccf2652ab83515cc3d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:48 +0000
Subject: [PATCH 074/101] fix: an unterminated character literal was reported
 on the next line

---
 src/compiler/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer.c b/src/compiler/lexer.c
index 8c62fdd..a0b303a 100644
--- a/src/compiler/lexer.c
+++ b/src/compiler/lexer.c
@@ -740,7 +740,7 @@ static inline bool scan_char(Lexer *lexer)
 		signed char escape = ' ';
 		if (c == '\n')
 		{
-			return add_error_token_at_current(lexer, "A line break is not allowed in a character literal.");
+			return add_error_token_at_start(lexer, "A line break is not allowed in a character literal.");
 		}
 		if (c == '\\')
 		{
-- 
2.43.0


From 0c0b645310097da96675ace8e1299d4c1959ff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:48 +0000
Subject: [PATCH 075/101] fix: hex float literals with the prefix 0X were read
 as zero

---
 src/compiler/parse_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index 69a3bdf..830e0d3 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1772,7 +1772,7 @@ static Expr *parse_double(ParseContext *c, Expr *left)
 	char *err;
 	Expr *number = EXPR_NEW_TOKEN(EXPR_CONST);
 	const char *original = symstr(c);
-	bool is_hex = original[0] == '0' && original[1] == 'x';
+	bool is_hex = original[0] == '0' && (original[1] | 32) == 'x';
 	// This is set to try to print in a similar manner as the input.
 	number->const_expr.is_hex = is_hex;
 	Float f = is_hex ? float_from_hex(original, &err) : float_from_string(original, &err);
-- 
2.43.0


From 9653c25cf658d1d6040160926e7ecb882e78e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:48 +0000
Subject: [PATCH 076/101] fix: float literals with a suffix were not rounded to
 their type

---
 src/compiler/compiler_internal.h | 19 ++---------------
 src/compiler/float.c             | 36 ++++++++++++++++++++++----------
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/compiler/compiler_internal.h b/src/compiler/compiler_internal.h
index ffbbb3f..65e3012 100644
--- a/src/compiler/compiler_internal.h
+++ b/src/compiler/compiler_internal.h
@@ -2015,6 +2015,7 @@ Float float_neg(Float op);
 Float float_rem(Float op1, Float op2);
 Float float_from_string(const char *string, char **error);
 Float float_from_hex(const char *string, char **error);
+Float float_round(Float op);
 Int128 i128_from_double_unsigned(double x);
 bool int_ucomp(Int op1, uint64_t op2, BinaryOp op);
 bool int_icomp(Int op1, int64_t op2, BinaryOp op);
@@ -3881,24 +3882,8 @@ INLINE void expr_rewrite_const_float(Expr *expr, Type *type, Real d)
 	expr->expr_kind = EXPR_CONST;
 	expr->type = type;
 	TypeKind kind = type_flatten(type)->type_kind;
-	Real real;
-	switch (kind)
-	{
-		case TYPE_F16:
-		case TYPE_BF16:
-		case TYPE_F32:
-			real = (float)d;
-			break;
-		case TYPE_F64:
-			real = (double)d;
-			break;
-		default:
-			REMINDER("Handling of float type may not be accurate");
-			real = d;
-			break;
-	}
 	expr->const_expr = (ExprConst) {
-			.fxx = (Float){ real, kind },
+			.fxx = float_round((Float){ d, kind }),
 			.const_kind = CONST_FLOAT,
 		};
 	expr->resolve_status = RESOLVE_DONE;
diff --git a/src/compiler/float.c b/src/compiler/float.c
index 3745a88..83ff31a 100644
--- a/src/compiler/float.c
+++ b/src/compiler/float.c
@@ -1,7 +1,6 @@
 #include "compiler_internal.h"
 
 #include <math.h>
-#include <errno.h>
 
 UNUSED static int precision_bits(TypeKind kind)
 {
@@ -61,13 +60,28 @@ UNUSED static int min_exponent(TypeKind kind)
 }
 
 
+// Round to the given number of significant bits, with subnormals below 2^min_exp.
+static double round_to_precision(double d, int bits, int min_exp)
+{
+	if (d == 0 || !isfinite(d)) return d;
+	int exp = ilogb(d);
+	if (exp < min_exp) exp = min_exp;
+	int scale = exp - bits + 1;
+	return ldexp(nearbyint(ldexp(d, -scale)), scale);
+}
+
 // Every operation rounds to its own type, as it does at runtime.
-static Float float_round(Float op)
+Float float_round(Float op)
 {
 	switch (op.type)
 	{
 		case TYPE_F16:
+			op.f = round_to_precision(op.f, 11, -14);
+			if (fabs(op.f) > 65504.0) op.f = copysign(INFINITY, op.f);
+			return op;
 		case TYPE_BF16:
+			op.f = (float)round_to_precision(op.f, 8, -126);
+			return op;
 		case TYPE_F32:
 			op.f = (float)op.f;
 			return op;
@@ -123,7 +137,7 @@ TypeKind float_suffix(char c, const char **index_ref, char** error_ref)
 		(*index_ref) += 4;
 		return TYPE_BF16;
 	}
-	if (c == 'f')
+	if (c == 'f' || c == 'F')
 	{
 		int i = 0;
 		while ((c = *((*index_ref)++)) && (c >= '0' && c <= '9'))
@@ -198,9 +212,9 @@ Float float_from_string(const char *string, char **error)
 
 	const char *str = scratch_buffer_to_string();
 	char *end = NULL;
-	errno = 0;
-	double d = strtod(str, &end);
-	if (d == HUGE_VAL && errno == ERANGE)
+	double d = kind == TYPE_F32 ? strtof(str, &end) : strtod(str, &end);
+	Float result = float_round((Float){ d, kind });
+	if (isinf(result.f))
 	{
 		if (error) *error = err_float_out_of_range;
 		return (Float){ .type = TYPE_POISONED };
@@ -211,7 +225,7 @@ Float float_from_string(const char *string, char **error)
 		if (error) *error = err_float_format_invalid;
 		return (Float){ .type = TYPE_POISONED };
 	}
-	return (Float){ d, kind };
+	return result;
 }
 
 /**
@@ -260,9 +274,9 @@ Float float_from_hex(const char *string, char **error)
 
 	const char *str = scratch_buffer_to_string();
 	char *end = NULL;
-	errno = 0;
-	double d = strtod(str, &end);
-	if (d == HUGE_VAL && errno == ERANGE)
+	double d = kind == TYPE_F32 ? strtof(str, &end) : strtod(str, &end);
+	Float result = float_round((Float){ d, kind });
+	if (isinf(result.f))
 	{
 		if (error) *error = err_float_out_of_range;
 		return (Float){ .type = TYPE_POISONED };
@@ -272,5 +286,5 @@ Float float_from_hex(const char *string, char **error)
 		if (error) *error = err_float_format_invalid;
 		return (Float){ .type = TYPE_POISONED };
 	}
-	return (Float){ d, kind };
+	return result;
 }
\ No newline at end of file
-- 
2.43.0


From d5f60e311bb20595cc68205109d809a1fd2553fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:25 +0000
Subject: [PATCH 077/101] fix: constant ranges past the end of an array were
 accepted

---
 src/compiler/sema_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 8fef46f..e906e39 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3770,9 +3770,9 @@ INLINE bool sema_expr_analyse_range_internal(SemaContext *context, Range *range,
 				}
 				break;
 			case RANGE_CONST_RANGE:
-				if (range->len_index > len)
+				if (range->start_index + range->len_index > len)
 				{
-					RETURN_SEMA_ERROR(end ? end : start, "End index out of bounds, was %d, exceeding max index %d.", range->len_index - 1, len - 1);
+					RETURN_SEMA_ERROR(end ? end : start, "End index out of bounds, was %d, exceeding max index %d.", range->start_index + range->len_index - 1, len - 1);
 				}
 				break;
 			default:
-- 
2.43.0


From 5a20fed1f0ead1f348f2929bbd30ab17161c2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:25 +0000
Subject: [PATCH 078/101] fix: a range start out of range was reported at a
 missing range end

---
 src/compiler/sema_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index e906e39..4119d69 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3708,13 +3708,13 @@ INLINE bool sema_expr_analyse_range_internal(SemaContext *context, Range *range,
 		// Only ArrayIndex sized
 		if (!int_fits(start->const_expr.ixx, TYPE_I64))
 		{
-			RETURN_SEMA_ERROR(end, "The index cannot be stored in a 64-signed integer, which isn't supported.");
+			RETURN_SEMA_ERROR(start, "The index cannot be stored in a 64-signed integer, which isn't supported.");
 		}
 		// Only ArrayIndex sized
 		int64_t start_index = int_to_i64(start->const_expr.ixx);
 		if (range->start_from_end)
 		{
-			if (start_index < 0) RETURN_SEMA_ERROR(end, "Negative numbers are not allowed when indexing from the end.");
+			if (start_index < 0) RETURN_SEMA_ERROR(start, "Negative numbers are not allowed when indexing from the end.");
 			// Something like  ^1 .. 4 with an unknown length.
 			if (len < 0) return true;
 			// Otherwise we fold the "from end"
-- 
2.43.0


From e69ea38c3e1fad190ab5758341daf220146b9a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:29 +0000
Subject: [PATCH 079/101] fix: elements of constant arrays and vectors could be
 assigned to

---
 src/compiler/sema_expr.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 4119d69..7228264 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -479,6 +479,30 @@ CondResult sema_check_comp_time_bool(SemaContext *context, Expr *expr)
 }
 
 
+// Elements of an array or a vector are a part of it, so a constant's elements can't be assigned to either.
+static bool sema_binary_is_element_lvalue(SemaContext *context, Expr *top_expr, Expr *expr, bool *failed_ref)
+{
+	if (!expr->type) return true;
+	switch (type_flatten(expr->type)->type_kind)
+	{
+		case TYPE_ARRAY:
+		case TYPE_VECTOR:
+			break;
+		default:
+			return true;
+	}
+	switch (expr->expr_kind)
+	{
+		case EXPR_CONST:
+		case EXPR_IDENTIFIER:
+		case EXPR_ACCESS_RESOLVED:
+		case EXPR_SUBSCRIPT:
+			return sema_binary_is_expr_lvalue(context, top_expr, expr, failed_ref);
+		default:
+			return true;
+	}
+}
+
 static bool sema_binary_is_expr_lvalue(SemaContext *context, Expr *top_expr, Expr *expr, bool *failed_ref)
 {
 	if (expr->expr_kind == EXPR_CT_SUBSCRIPT) return true;
@@ -552,7 +576,11 @@ static bool sema_binary_is_expr_lvalue(SemaContext *context, Expr *top_expr, Exp
 			if (!sema_binary_is_expr_lvalue(context, top_expr, expr->access_resolved_expr.parent, failed_ref)) return false;
 			goto CHECK_OPTIONAL;
 		case EXPR_SUBSCRIPT:
+			if (!sema_binary_is_element_lvalue(context, top_expr, exprptr(expr->subscript_expr.expr), failed_ref)) return false;
+			goto CHECK_OPTIONAL;
 		case EXPR_SLICE:
+			if (!sema_binary_is_element_lvalue(context, top_expr, exprptr(expr->slice_expr.expr), failed_ref)) return false;
+			goto CHECK_OPTIONAL;
 		case EXPR_SUBSCRIPT_ASSIGN:
 			goto CHECK_OPTIONAL;
 		case EXPR_CONST:
-- 
2.43.0


From 93fa0a421fa43ee5e2433273a46e885997256807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:57 +0000
Subject: [PATCH 080/101] fix: a misplaced inline member was reported at the
 member before it

---
 src/compiler/parse_global.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parse_global.c b/src/compiler/parse_global.c
index 85baf8b..b443aac 100644
--- a/src/compiler/parse_global.c
+++ b/src/compiler/parse_global.c
@@ -1739,7 +1739,7 @@ static bool parse_struct_body(ParseContext *c, Decl *parent)
 			}
 			if (index > 0)
 			{
-				RETURN_PRINT_ERROR_LAST("Only the first element may be 'inline', did you order your fields wrong?");
+				RETURN_PRINT_ERROR_HERE("Only the first element may be 'inline', did you order your fields wrong?");
 			}
 			parent->is_substruct = true;
 			was_inline = true;
-- 
2.43.0


From 515ab0312d4679d1d7584036f48db7592e5e9944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:29 +0000
Subject: [PATCH 081/101] fix: some parse errors crashed the compiler

---
 src/compiler/parse_expr.c   | 2 +-
 src/compiler/parse_global.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index 830e0d3..0f6204a 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -426,7 +426,7 @@ static Expr *parse_lambda(ParseContext *c, Expr *left)
 	Decl **decls = NULL;
 	Variadic variadic = VARIADIC_NONE;
 	int vararg_index = -1;
-	if (!parse_parameters(c, &decls, &variadic, &vararg_index, PARAM_PARSE_LAMBDA)) return false;
+	if (!parse_parameters(c, &decls, &variadic, &vararg_index, PARAM_PARSE_LAMBDA)) return poisoned_expr;
 	CONSUME_OR_RET(TOKEN_RPAREN, poisoned_expr);
 	Signature *sig = &func->func_decl.signature;
 	sig->vararg_index = vararg_index < 0 ? vec_size(decls) : vararg_index;
diff --git a/src/compiler/parse_global.c b/src/compiler/parse_global.c
index b443aac..5f5cf0b 100644
--- a/src/compiler/parse_global.c
+++ b/src/compiler/parse_global.c
@@ -886,7 +886,7 @@ Decl *parse_const_declaration(ParseContext *c, bool is_global, bool is_extern)
 	// Differentiate between global and local attributes, global have visibility
 	if (is_global)
 	{
-		if (!parse_attributes_for_global(c, decl)) return false;
+		if (!parse_attributes_for_global(c, decl)) return poisoned_decl;
 	}
 	else
 	{
@@ -924,7 +924,7 @@ Decl *parse_var_decl(ParseContext *c)
 			if (!tok_is(c, TOKEN_EQ))
 			{
 				PRINT_ERROR_HERE("'var' must always have an initial value, or the type cannot be inferred.");
-				return false;
+				return poisoned_decl;
 			}
 			advance_and_verify(c, TOKEN_EQ);
 			ASSIGN_EXPR_OR_RET(decl->var.init_expr, parse_expr(c), poisoned_decl);
@@ -2555,7 +2555,7 @@ static inline Decl *parse_func_definition(ParseContext *c, AstId contracts, Func
 	if (!parse_func_macro_header(c, func)) return poisoned_decl;
 	if (func->name[0] == '@')
 	{
-		RETURN_PRINT_ERROR_AT(false, func, "Function names may not use '@'.");
+		RETURN_PRINT_ERROR_AT(poisoned_decl, func, "Function names may not use '@'.");
 	}
 	if (!parse_fn_parameter_list(c, &(func->func_decl.signature))) return poisoned_decl;
 	if (!parse_attributes_for_global(c, func)) return poisoned_decl;
-- 
2.43.0


From 0b757db3d32a713a4512c4c143e33146e3e8b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:29 +0000
Subject: [PATCH 082/101] fix: attrdef without a name tripped an assertion

---
 src/compiler/parse_global.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parse_global.c b/src/compiler/parse_global.c
index 5f5cf0b..67ad20d 100644
--- a/src/compiler/parse_global.c
+++ b/src/compiler/parse_global.c
@@ -2211,7 +2211,11 @@ static inline Decl *parse_attrdef(ParseContext *c)
 
 	Decl *decl = decl_new(DECL_ATTRIBUTE, symstr(c), c->span);
 
-	advance_and_verify(c, TOKEN_AT_TYPE_IDENT);
+	if (!try_consume(c, TOKEN_AT_TYPE_IDENT))
+	{
+		PRINT_ERROR_HERE("Expected an attribute name here, like '@MyAttribute'.");
+		return poisoned_decl;
+	}
 
 	if (try_consume(c, TOKEN_LPAREN))
 	{
-- 
2.43.0


From 7ea500ce9f0163a74c840c310cbb3fee44e64eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:29 +0000
Subject: [PATCH 083/101] fix: @extern on a module with another expression than
 a string tripped an assertion

---
 src/compiler/parse_global.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parse_global.c b/src/compiler/parse_global.c
index 67ad20d..bc1dd26 100644
--- a/src/compiler/parse_global.c
+++ b/src/compiler/parse_global.c
@@ -293,7 +293,7 @@ bool parse_module(ParseContext *c, AstId contracts)
 					                      vec_size(attr->exprs));
 				}
 				Expr *expr = attr->exprs[0];
-				if (!expr_is_const_string(expr)) RETURN_PRINT_ERROR_AT(false, expr, "Expected a constant string.");
+				if (expr->expr_kind != EXPR_CONST || !expr_is_const_string(expr)) RETURN_PRINT_ERROR_AT(false, expr, "Expected a constant string.");
 				if (c->unit->module->extname)
 				{
 					RETURN_PRINT_ERROR_AT(false, attr,
-- 
2.43.0


From 99866f02c1c6ac91c2648a65beee5974e0bd9645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:30 +0000
Subject: [PATCH 084/101] fix: an unknown asm attribute crashed the parser

---
 src/compiler/parse_stmt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parse_stmt.c b/src/compiler/parse_stmt.c
index 9882062..ac3d0b4 100644
--- a/src/compiler/parse_stmt.c
+++ b/src/compiler/parse_stmt.c
@@ -431,7 +431,7 @@ static inline Ast* parse_asm_block_stmt(ParseContext *c)
 		else
 		{
 			PRINT_ERROR_HERE("Only the '@pure' attribute is allowed.");
-			return false;
+			return poisoned_ast;
 		}
 		advance_and_verify(c, TOKEN_AT_IDENT);
 		if (!tok_is(c, TOKEN_LBRACE))
@@ -466,7 +466,7 @@ static inline Ast* parse_asm_block_stmt(ParseContext *c)
 		else
 		{
 			PRINT_ERROR_HERE("Only the '@pure' attribute is allowed.");
-			return false;
+			return poisoned_ast;
 		}
 		advance_and_verify(c, TOKEN_AT_IDENT);
 	}
-- 
2.43.0


From e2f552dc9ceca2ab533737069114e6741b0241fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:06 +0000
Subject: [PATCH 085/101] fix: comparing an integer vector to an unsigned value
 crashed the compiler

---
 src/compiler/sema_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 7228264..b7a3308 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -7485,8 +7485,8 @@ NEXT:
 	//    This happens when either side has a definite integer type
 	//    and those are either signed or unsigned.
 	//    If either side is compint, then this does not happen.
-	if ((type_is_unsigned(left_type) && type_is_signed(right_type))
-		|| (type_is_signed(left_type) && type_is_unsigned(right_type)))
+	if (type_is_integer(left_type) && type_is_integer(right_type)
+		&& type_is_signed(left_type) != type_is_signed(right_type))
 	{
 		// 2a. Resize so that both sides have the same bit width. This will always work.
 		cast_to_int_to_max_bit_size(left, right, left_type, right_type);
-- 
2.43.0


From eb97d17f6ec1d881a571f94f3fb39a6c6200da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:06 +0000
Subject: [PATCH 086/101] fix: a wide string builtin with a constant that is no
 string crashed the compiler

---
 src/compiler/sema_builtins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_builtins.c b/src/compiler/sema_builtins.c
index 9cb2b3a..9530573 100644
--- a/src/compiler/sema_builtins.c
+++ b/src/compiler/sema_builtins.c
@@ -425,7 +425,7 @@ bool sema_expr_analyse_str_wide(SemaContext *context, Expr *expr, BuiltinFunctio
 		zero_terminate = zero_term->const_expr.b;
 	}
 	if (!sema_analyse_expr(context, inner)) return false;
-	if (!sema_cast_const(inner) && !expr_is_const_string(inner))
+	if (!sema_cast_const(inner) || !expr_is_const_string(inner))
 	{
 		RETURN_SEMA_ERROR(inner, "You need a compile time constant string to convert to a wide string.");
 	}
-- 
2.43.0


From ff05ad9571ec7ff49c63ec2cfb10e7e018c680a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:07 +0000
Subject: [PATCH 087/101] fix: compile time variables of optional types tripped
 an assertion

---
 src/compiler/sema_decls.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index 5668630..bee9945 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -4346,6 +4346,11 @@ bool sema_analyse_var_decl_ct(SemaContext *context, Decl *decl)
 				if (!sema_resolve_type_info(context, type_info, RESOLVE_TYPE_ALLOW_INFER)) goto FAIL;
 				// Set the type of the declaration.
 				decl->type = type_info->type;
+				if (type_is_optional(decl->type))
+				{
+					SEMA_ERROR(type_info, "Compile time variables may not have an optional type.");
+					goto FAIL;
+				}
 				init = decl->var.init_expr;
 				// If there is no init, set it to zero.
 				if (!init)
-- 
2.43.0


From 530f42527200d977573c19da0c52221d4851d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:40 +0000
Subject: [PATCH 088/101] fix: subscripting a type method without call crashed
 the compiler

---
 src/compiler/sema_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index b7a3308..d7f1b59 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -3454,6 +3454,7 @@ static inline bool sema_expr_analyse_subscript(SemaContext *context, Expr *expr,
 	// Evaluate the expression to index.
 	Expr *subscripted = exprptr(expr->subscript_expr.expr);
 	if (!sema_analyse_expr_check(context, subscripted, CHECK_VALUE)) return false;
+	if (subscripted->expr_kind == EXPR_TYPECALL) return sema_cast_rvalue(context, subscripted, true);
 
 	// 2. Evaluate the index.
 	Expr *index = exprptr(expr->subscript_expr.index.expr);
@@ -3902,6 +3903,7 @@ static inline bool sema_expr_analyse_slice(SemaContext *context, Expr *expr, Che
 	ASSERT_SPAN(expr, expr->expr_kind == EXPR_SLICE);
 	Expr *subscripted = exprptr(expr->slice_expr.expr);
 	if (!sema_analyse_expr_check(context, subscripted, check)) return false;
+	if (subscripted->expr_kind == EXPR_TYPECALL) return sema_cast_rvalue(context, subscripted, true);
 	bool optional = IS_OPTIONAL(subscripted);
 	Type *type = type_flatten(subscripted->type);
 	Type *original_type = type_no_optional(subscripted->type);
-- 
2.43.0


From 21a9eb9bc2b6af59496b32fbdf841712ad7feae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:40 +0000
Subject: [PATCH 089/101] fix: a compile time identifier accessed on a type
 tripped an assertion

---
 src/compiler/sema_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index d7f1b59..849e816 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -4204,7 +4204,7 @@ static inline Decl *sema_check_for_type_method(SemaContext *context, Expr *expr,
 
 static inline bool sema_expr_analyse_type_access(SemaContext *context, Expr *expr, Type *parent_type, Expr *identifier, bool *missing_ref)
 {
-	ASSERT_SPAN(expr, identifier->expr_kind == EXPR_UNRESOLVED_IDENTIFIER);
+	if (identifier->expr_kind != EXPR_UNRESOLVED_IDENTIFIER) RETURN_SEMA_ERROR(identifier, "Expected an identifier here.");
 	Type *canonical = parent_type->canonical;
 	const char *name = identifier->unresolved_ident_expr.ident;
 	bool is_const = identifier->unresolved_ident_expr.is_const;
@@ -4294,7 +4294,7 @@ MISSING_REF:
 
 static inline bool sema_expr_analyse_member_access(SemaContext *context, Expr *expr, Expr *parent, Expr *identifier, bool *missing_ref)
 {
-	ASSERT_SPAN(expr, identifier->expr_kind == EXPR_UNRESOLVED_IDENTIFIER);
+	if (identifier->expr_kind != EXPR_UNRESOLVED_IDENTIFIER) RETURN_SEMA_ERROR(identifier, "Expected an identifier here.");
 
 	Decl *decl = parent->const_expr.member.decl;
 	const char *name = identifier->unresolved_ident_expr.ident;
-- 
2.43.0


From 494f588cf5cdd1aef689270a6a75fcd1ec56eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 090/101] fix: an array of flexible arrays tripped an assertion

---
 src/compiler/sema_types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/sema_types.c b/src/compiler/sema_types.c
index feb0b40..73dd450 100644
--- a/src/compiler/sema_types.c
+++ b/src/compiler/sema_types.c
@@ -173,7 +173,7 @@ static inline bool sema_check_array_type(SemaContext *context, TypeInfo *origina
 static inline bool sema_resolve_array_type(SemaContext *context, TypeInfo *type, ResolveTypeKind resolve_kind)
 {
 	// Check the underlying type
-	if (!sema_resolve_type(context, type->array.base, resolve_kind)) return type_info_poison(type);
+	if (!sema_resolve_type(context, type->array.base, resolve_kind & ~RESOLVE_TYPE_ALLOW_FLEXIBLE)) return type_info_poison(type);
 
 	ArraySize len;
 	TypeInfoKind kind = type->kind;
-- 
2.43.0


From 5dd2ae79b46d35f8384612747125c3ac36470dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:31 +0000
Subject: [PATCH 091/101] fix: assigning to an attrdef parameter crashed the
 compiler

---
 src/compiler/sema_expr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index 849e816..c425b9c 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -10520,6 +10520,11 @@ RETRY:
 			goto IDENT_CHECK;
 		case EXPR_UNRESOLVED_IDENTIFIER:
 			if (!sema_analyse_expr_dispatch(context, expr, CHECK_VALUE)) return false;
+			if (expr->expr_kind == EXPR_CONST)
+			{
+				if (failed_ref) goto FAILED_REF;
+				RETURN_SEMA_ERROR(expr, "You cannot assign to a constant expression.");
+			}
 			FALLTHROUGH;
 		case EXPR_IDENTIFIER:
 IDENT_CHECK:;
-- 
2.43.0


From ad61bf69b30691b5232b5295fb4cb5c836cea7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:31 +0000
Subject: [PATCH 092/101] fix: a vararg of type void tripped an assertion

---
 src/compiler/sema_decls.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index bee9945..b4679ea 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -1374,6 +1374,11 @@ static inline bool sema_analyse_signature(SemaContext *context, Signature *sig,
 					return decl_poison(param);
 				}
 			}
+			if (!type_is_valid_for_array(type_info->type))
+			{
+				SEMA_ERROR(type_info, "A vararg may not have the type %s.", type_quoted_error_string(type_info->type));
+				return decl_poison(param);
+			}
 			type_info->type = type_get_slice(type_info->type);
 		}
 
-- 
2.43.0


From ae42774aa39c2ecded8152f0c0ac6d3e74751786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:34 +0000
Subject: [PATCH 093/101] fix: designated bitstruct fields ignored the byte
 order

---
 src/compiler/llvm_codegen_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/llvm_codegen_expr.c b/src/compiler/llvm_codegen_expr.c
index e9741b6..d114289 100644
--- a/src/compiler/llvm_codegen_expr.c
+++ b/src/compiler/llvm_codegen_expr.c
@@ -1745,7 +1745,9 @@ static void llvm_emit_initialize_designated_element(GenContext *c, BEValue *ref,
 					break;
 				}
 				LLVMValueRef current_val = llvm_load_value(c, &value);
+				if (is_bitswap) current_val = llvm_emit_bswap(c, current_val);
 				current_val = llvm_emit_bitstruct_value_update(c, current_val, type_bit_size(underlying_type), bitstruct_type, member, val);
+				if (is_bitswap) current_val = llvm_emit_bswap(c, current_val);
 				llvm_store_raw(c, &value, current_val);
 				break;
 			}
-- 
2.43.0


From c941cb4beef44ecd0117a2ee5860962bdd10c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:49 +0000
Subject: [PATCH 094/101] fix: integer suffixes below 8 bits crashed the
 compiler

---
 src/compiler/parse_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parse_expr.c b/src/compiler/parse_expr.c
index 0f6204a..ed0304d 100644
--- a/src/compiler/parse_expr.c
+++ b/src/compiler/parse_expr.c
@@ -1526,7 +1526,7 @@ EXIT:
 	Type *type_base = NULL;
 	if (type_bits)
 	{
-		if (type_bits < 0 || !is_power_of_two((uint64_t)type_bits) || type_bits > 128)
+		if (type_bits < 8 || !is_power_of_two((uint64_t)type_bits) || type_bits > 128)
 		{
 			PRINT_ERROR_HERE("Integer type suffix should be i8, i16, i32, i64 or i128.");
 			return poisoned_expr;
-- 
2.43.0


From b918264bd419c7158067dddab5dfa9583210fed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:49 +0000
Subject: [PATCH 095/101] fix: naming an anonymous struct in an error crashed
 the compiler

---
 src/compiler/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/types.c b/src/compiler/types.c
index b01ec93..1678b05 100644
--- a/src/compiler/types.c
+++ b/src/compiler/types.c
@@ -262,7 +262,7 @@ const char *type_to_error_string(Type *type)
 			if (!suffix && !type_is_inner_type(type)) return type->name;
 			scratch_buffer_clear();
 			type_add_parent_to_scratch(decl);
-			scratch_buffer_append(decl->name);
+			scratch_buffer_append(decl->name ? decl->name : type->name);
 			if (suffix) scratch_buffer_append(suffix);
 			return scratch_buffer_copy();
 		}
-- 
2.43.0


From 1d1a3bde131b1230f34d2a98aa9949f369338f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:49 +0000
Subject: [PATCH 096/101] fix: generic parameters on a builtin alias tripped an
 assertion

---
 src/compiler/sema_types.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/compiler/sema_types.c b/src/compiler/sema_types.c
index 73dd450..a35e015 100644
--- a/src/compiler/sema_types.c
+++ b/src/compiler/sema_types.c
@@ -395,10 +395,7 @@ INLINE bool sema_resolve_generic_type(SemaContext *context, TypeInfo *type_info)
 	}
 	if (inner->resolve_status == RESOLVE_DONE)
 	{
-		if (!type_is_user_defined(inner->type))
-		{
-			RETURN_SEMA_ERROR(inner, "A user defined type was expected here, not %s.", type_quoted_error_string(inner->type));
-		}
+		RETURN_SEMA_ERROR(inner, "A user defined type was expected here, not %s.", type_quoted_error_string(inner->type));
 	}
 	ASSERT_SPAN(inner, inner->resolve_status == RESOLVE_NOT_DONE);
 
-- 
2.43.0


From 0cfda4b441b04971a8af966aae8f8d852a312dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:49 +0000
Subject: [PATCH 097/101] fix: an extern constant without a type tripped an
 assertion

---
 src/compiler/sema_decls.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/compiler/sema_decls.c b/src/compiler/sema_decls.c
index b4679ea..d0a725a 100755
--- a/src/compiler/sema_decls.c
+++ b/src/compiler/sema_decls.c
@@ -4440,9 +4440,12 @@ bool sema_analyse_var_decl(SemaContext *context, Decl *decl, bool local)
 	}
 
 	TypeInfo *type_info = vartype(decl);
-	// We expect a constant to actually be parsed correctly so that it has a value, so
-	// this should always be true.
-	ASSERT(type_info || decl->var.init_expr);
+	// Only an extern constant may lack a value, and then it must have a type.
+	if (!type_info && !decl->var.init_expr)
+	{
+		SEMA_ERROR(decl, "A constant without a value must have a type.");
+		return decl_poison(decl);
+	}
 
 	bool erase_decl = false;
 	if (!sema_analyse_attributes_for_var(context, decl, &erase_decl)) return decl_poison(decl);
-- 
2.43.0


From af9f3ad8dd6362b1720998ee25625096d7dd8cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:05 +0000
Subject: [PATCH 098/101] fix: a macro called in an expression argument could
 not modify its own compile time variables

---
 src/compiler/sema_expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/sema_expr.c b/src/compiler/sema_expr.c
index c425b9c..c297204 100644
--- a/src/compiler/sema_expr.c
+++ b/src/compiler/sema_expr.c
@@ -2289,6 +2289,7 @@ static inline bool sema_expr_setup_call_analysis(SemaContext *context, CalledDec
 	macro_context->compilation_unit = context->unit;
 	macro_context->macro_call_depth = context->macro_call_depth + 1;
 	macro_context->call_env = context->call_env;
+	macro_context->call_env.in_other = false;
 	macro_context->expected_block_type = rtype;
 	if (span_ref)
 	{
-- 
2.43.0


From 228adbd3a499ff78e25abdef00a71288fa9910b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:40 +0000
Subject: [PATCH 099/101] fix: a type with a third pointer level could not be
 followed by more modifiers

---
 src/compiler/parse_global.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/compiler/parse_global.c b/src/compiler/parse_global.c
index bc1dd26..9ed89d8 100644
--- a/src/compiler/parse_global.c
+++ b/src/compiler/parse_global.c
@@ -632,8 +632,7 @@ static inline TypeInfo *parse_type_with_base_maybe_generic(ParseContext *c, Type
 							ASSERT(type_info);
 							ptr_type->pointer = type_info;
 							type_info = ptr_type;
-							RANGE_EXTEND_PREV(type_info);
-							return type_info;
+							break;
 						}
 					}
 					if (type_info->resolve_status == RESOLVE_DONE)
-- 
2.43.0


From a4460c792e05adbedc0303161884a32cc2e744c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:34 +0000
Subject: [PATCH 100/101] fix: a struct with only an array of several elements
 was passed by value on wasm

---
 src/compiler/codegen_general.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler/codegen_general.c b/src/compiler/codegen_general.c
index 9163745..1a1e793 100644
--- a/src/compiler/codegen_general.c
+++ b/src/compiler/codegen_general.c
@@ -30,6 +30,9 @@ Type *type_abi_find_single_struct_element(Type *type)
 			field_type = field_type->array.base;
 		}
 
+		// An array with several elements is not a single element.
+		if (field_type->type_kind == TYPE_ARRAY) return NULL;
+
 		if (type_is_union_or_strukt(field_type))
 		{
 			field_type = type_abi_find_single_struct_element(field_type);
-- 
2.43.0


From 8ee54bf57970ac8c3f90f0ca8ac594466dcdc9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:34 +0000
Subject: [PATCH 101/101] fix: a struct of a bool and an integer was split into
 two registers on RISC-V with hardware floats

---
 src/compiler/abi/c_abi_riscv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/abi/c_abi_riscv.c b/src/compiler/abi/c_abi_riscv.c
index 02dc10c..12378e3 100644
--- a/src/compiler/abi/c_abi_riscv.c
+++ b/src/compiler/abi/c_abi_riscv.c
@@ -39,7 +39,7 @@ static bool riscv_detect_fpcc_struct_internal(Type *type, unsigned current_offse
 		if (is_float && (size > flen || size < 4)) return false;
 		// Can't be eligible if an integer type was already found (int+int pairs
 		// are not eligible).
-		if (is_int && abi_type_is_valid(*field1_ref) && abi_type_is_integer(*field1_ref)) return false;
+		if (is_int && abi_type_is_valid(*field1_ref) && !abi_type_is_float(*field1_ref)) return false;
 		if (!abi_type_is_valid(*field1_ref))
 		{
 			abi_type_set_type(field1_ref, type);
-- 
2.43.0

