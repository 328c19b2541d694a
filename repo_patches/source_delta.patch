From 4bff6cd149cb902a0c017281697fa2ff79e29d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:29 +0000
Subject: [PATCH 01/77] fix: keep unsigned int values sign-extended in
 registers

Loads, constants and casts zero-extended an unsigned int while every word
instruction and the calling convention sign-extend it, so conversions to
64-bit types, equality tests and calls mixed both forms.
---
 codegen.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index eabf11d..653521c 100644
--- a/codegen.c
+++ b/codegen.c
@@ -414,7 +414,9 @@ static void load(struct Type *ty)
 	else if (ty->size == sizeof(short))
 		println("\tlh%s a0, (a0)", suffix);
 	else if (ty->size == sizeof(int))
-		println("\tlw%s a0, (a0)", suffix);
+		// A 32-bit value, signed or not, is kept sign-extended in a
+		// register, as RISC-V word instructions and the ABI do.
+		println("\tlw a0, (a0)");
 	else
 		println("\tld a0, (a0)");
 }
@@ -509,7 +511,11 @@ static int getTypeId(struct Type *ty)
 // unsigned => shift right Logical
 #define TOU8   "\tslli a0, a0, 56\n\tsrli a0, a0, 56"
 #define TOU16  "\tslli a0, a0, 48\n\tsrli a0, a0, 48"
-#define TOU32  "\tslli a0, a0, 32\n\tsrli a0, a0, 32"
+// unsigned int is sign-extended in a register as well
+#define TOU32  TOI32
+
+// unsigned int => 64-bit integer
+#define U32I64 "\tslli a0, a0, 32\n\tsrli a0, a0, 32"
 
 #define I32F32  "\tfcvt.s.w fa0, a0"
 #define I32F64  "\tfcvt.d.w fa0, a0"
@@ -577,7 +583,7 @@ static const char *cast_matrix[CAST_MAX_TYPE][CAST_MAX_TYPE] = {
 
 	{  NULL,   NULL,    NULL,    NULL,    NULL,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u8
 	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u16
-	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u32
+	{  TOI8,   TOI16,   NULL,    U32I64,  TOU8,   TOU16,   NULL,    U32I64,  U32F32,  U32F64,  U32F128, },  // u32
 	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOU32,   NULL,    U64F32,  U64F64,  U64F128, },  // u64
 
 	{  F32I8,  F32I16,  F32I32,  F32I64,  F32U8,  F32U16,  F32U32,  F32U64,  NULL,    F32F64,  F32F128, },  // f32
@@ -1010,7 +1016,10 @@ static void gen_expr(struct Node *node)
 			return;
 
 		default:
-			println("\tli a0, %ld", node->val);
+			if (node->ty->size == sizeof(int))
+				println("\tli a0, %d", (int)node->val);
+			else
+				println("\tli a0, %ld", node->val);
 			return;
 		}
 
@@ -1056,7 +1065,8 @@ static void gen_expr(struct Node *node)
 			// Clear unused high bits of field member variables
 			println("\tslli a0, a0, %d", 64 - mem->bit_width - mem->bit_offset);
 			// Clear unused low bits of field member variables
-			if (mem->ty->is_unsigned)
+			if (mem->ty->is_unsigned &&
+			    !(mem->ty->size == sizeof(int) && mem->bit_width == 32))
 				println("\tsrli a0, a0, %d", 64 - mem->bit_width);
 			else
 				println("\tsrai a0, a0, %d", 64 - mem->bit_width);
-- 
2.43.0


From 658e88bf713a2307cf00179a5ec2d660d7dc4c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:29 +0000
Subject: [PATCH 02/77] fix: compare unsigned operands of <= and >= as unsigned

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 653521c..3a4dae4 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1571,7 +1571,7 @@ static void gen_expr(struct Node *node)
 			println("\tslt a0, a0, a1");
 		break;
 	case ND_LE:
-		if (node->ty->is_unsigned)
+		if (node->lhs->ty->is_unsigned)
 			println("\tsltu a0, a1, a0");
 		else
 			println("\tslt a0, a1, a0");
-- 
2.43.0


From f489c85d5a0bbc47baec52405b1a83d1312011eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 03/77] fix: apply the integer promotions to the operands of ~,
 << and >>

---
 type.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/type.c b/type.c
index ac61f5e..4be2510 100644
--- a/type.c
+++ b/type.c
@@ -373,7 +373,11 @@ void add_type(struct Node *node)
 		node->ty = node->lhs->ty;
 		break;
 
-	case ND_NEG: {
+	case ND_NEG:
+	case ND_BITNOT:
+	case ND_SHL:
+	case ND_SHR: {
+		// integer promotion
 		struct Type *ty = get_common_type(p_ty_int(), node->lhs->ty);
 		node->lhs = new_cast(node->lhs, ty);
 		node->ty = ty;
@@ -405,12 +409,6 @@ void add_type(struct Node *node)
 		node->ty = p_ty_int();
 		break;
 
-	case ND_BITNOT:
-	case ND_SHL:
-	case ND_SHR:
-		node->ty = node->lhs->ty;
-		break;
-
 	case ND_VAR:
 	case ND_VLA_PTR:
 		node->ty = node->var->ty;
-- 
2.43.0


From f96251703bb60b838e4a56e6e2fd9c86533b47ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 04/77] fix: promote the operand of unary plus

---
 parser/parser.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index ceb23a5..ae76d0a 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -761,9 +761,15 @@ static struct Node *labels;
 // 	 | postfix
 static struct Node *unary(struct Token **rest, struct Token *tok)
 {
-	if (equal(tok, "+"))
-		// ignore
-		return cast(rest, tok->next);
+	if (equal(tok, "+")) {
+		struct Node *node = cast(rest, tok->next);
+
+		// only the integer promotion remains to be done
+		add_type(node);
+		if (is_integer(node->ty) && node->ty->size < (int)sizeof(int))
+			node = new_cast(node, p_ty_int());
+		return node;
+	}
 
 	if (equal(tok, "-"))
 		// depth--
-- 
2.43.0


From 153c0f0c198b1c6bec9511f3acd39d3c25ca2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 05/77] fix: test a floating operand against zero when
 converting it to _Bool

---
 codegen.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 3a4dae4..64547a2 100644
--- a/codegen.c
+++ b/codegen.c
@@ -591,13 +591,16 @@ static const char *cast_matrix[CAST_MAX_TYPE][CAST_MAX_TYPE] = {
 	{  F128I8, F128I16, F128I32, F128I64, F128U8, F128U16, F128U32, F128U64, F128F32, F128F64, NULL,    },  // f128
 };
 
+static void cmp_zero(struct Type *ty);
+
 static void cast(struct Type *from, struct Type *to)
 {
 	if (to->kind == TY_VOID)
 		return;
 
 	if (to->kind == TY_BOOL) {
-		println("\tsnez a0, a0");
+		cmp_zero(from);
+		println("\tseqz a0, a0");
 		return;
 	}
 
-- 
2.43.0


From 186a4b77125623ec6f6321d8903d6b909028860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 06/77] fix: test the right operand of && by its own type

---
 codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 64547a2..1cc3bc8 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1195,7 +1195,7 @@ static void gen_expr(struct Node *node)
 		cmp_zero(node->lhs->ty);
 		println("\tbnez a0, .L.false.%d", c);
 		gen_expr(node->rhs);
-		cmp_zero(node->lhs->ty);
+		cmp_zero(node->rhs->ty);
 		println("\tbnez a0, .L.false.%d", c);
 		println("\tli a0, 1");
 		println("\tj .L.end.%d", c);
-- 
2.43.0


From 629dbbb2da2a768f5d9ae2dd17f041b169f4a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 07/77] fix: convert enumerated values as the 32-bit integers
 they are

---
 codegen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.c b/codegen.c
index 1cc3bc8..9d2a181 100644
--- a/codegen.c
+++ b/codegen.c
@@ -487,6 +487,7 @@ static int getTypeId(struct Type *ty)
 	case TY_SHORT:
 		return ty->is_unsigned ? U16 : I16;
 	case TY_INT:
+	case TY_ENUM:
 		return ty->is_unsigned ? U32 : I32;
 	case TY_LONG:
 		return ty->is_unsigned ? U64 : I64;
-- 
2.43.0


From 7579baf05aa6ccb6be752382e2bb3251558c26c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 08/77] fix: diagnose subtraction with an operand that is not
 arithmetic

---
 parser/parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index ae76d0a..8f01dfa 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -698,7 +698,7 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	add_type(rhs);
 
 	// num - num
-	if (is_numeric(lhs->ty) && is_numeric(lhs->ty))
+	if (is_numeric(lhs->ty) && is_numeric(rhs->ty))
 		return new_binary(ND_SUB, lhs, rhs, tok);
 
 	// ptr - ptr, which returns how many elements are between the two.
@@ -709,7 +709,7 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	}
 
 	// VLA - num
-	if (lhs->ty->base->kind == TY_VLA) {
+	if (lhs->ty->base && lhs->ty->base->kind == TY_VLA) {
 		rhs = new_binary(ND_MUL, rhs,
 				 new_var_node(lhs->ty->base->vla_size, tok),
 				 tok);
-- 
2.43.0


From 2f5d0db957f636f9f6cec381714a9c35f752ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:02 +0000
Subject: [PATCH 09/77] fix: sign-extend when converting unsigned char and
 short to their signed types

---
 codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 9d2a181..a31dce6 100644
--- a/codegen.c
+++ b/codegen.c
@@ -582,8 +582,8 @@ static const char *cast_matrix[CAST_MAX_TYPE][CAST_MAX_TYPE] = {
 	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   TOU16,   TOU32,   NULL,    I32F32,  I32F64,  I32F128, },  // i32
 	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOU32,   NULL,    I64F32,  I64F64,  I64F128, },  // i64
 
-	{  NULL,   NULL,    NULL,    NULL,    NULL,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u8
-	{  TOI8,   NULL,    NULL,    NULL,    TOU8,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u16
+	{  TOI8,   NULL,    NULL,    NULL,    NULL,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u8
+	{  TOI8,   TOI16,   NULL,    NULL,    TOU8,   NULL,    NULL,    NULL,    U32F32,  U32F64,  U32F128, },  // u16
 	{  TOI8,   TOI16,   NULL,    U32I64,  TOU8,   TOU16,   NULL,    U32I64,  U32F32,  U32F64,  U32F128, },  // u32
 	{  TOI8,   TOI16,   TOI32,   NULL,    TOU8,   TOU16,   TOU32,   NULL,    U64F32,  U64F64,  U64F128, },  // u64
 
-- 
2.43.0


From 1b544623def2ae5254ca862c8197cb07849a76cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:02 +0000
Subject: [PATCH 10/77] fix: diagnose addition of operands that are not
 arithmetic or pointers

---
 parser/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.c b/parser/parser.c
index 8f01dfa..13f62cc 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -679,6 +679,10 @@ struct Node *new_add(struct Node *lhs, struct Node *rhs, struct Token *tok)
 		rhs = tmp;
 	}
 
+	// neither operand is arithmetic or a pointer
+	if (!lhs->ty->base || !is_integer(rhs->ty))
+		error_tok(tok, "invalid operands");
+
 	// VLA + num
 	if (lhs->ty->base->kind == TY_VLA) {
 		rhs = new_binary(ND_MUL, rhs,
@@ -709,7 +713,7 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	}
 
 	// VLA - num
-	if (lhs->ty->base && lhs->ty->base->kind == TY_VLA) {
+	if (lhs->ty->base && lhs->ty->base->kind == TY_VLA && is_integer(rhs->ty)) {
 		rhs = new_binary(ND_MUL, rhs,
 				 new_var_node(lhs->ty->base->vla_size, tok),
 				 tok);
-- 
2.43.0


From a50b4df32b73cd2c3bdef0603b16d785da849d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:00 +0000
Subject: [PATCH 11/77] fix: preserve fs0-fs11 across calls

They were saved in ft0-ft11, which every callee may overwrite.
---
 codegen.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index a31dce6..d303f35 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1827,6 +1827,7 @@ static void assign_lvar_offsets(struct Obj *prog)
 		// |       ra       |
 		// |       fp       |				[callee]
 		// +----------------+ bottom (fp)
+		// |    fs0-fs11    |
 		// |   local vars   |
 		// +----------------+
 		int top = 16;
@@ -1886,7 +1887,8 @@ static void assign_lvar_offsets(struct Obj *prog)
 			fn->va_area->offset = top;
 		}
 
-		int bottom = 0;
+		// fs0-fs11 are saved right below fp
+		int bottom = 12 * sizeof(double);
 		// initialize var's offset
 		// Assign offsets to pass-by-register parameters and local variables.
 		for (struct Obj *var = fn->locals; var; var = var->next) {
@@ -2086,7 +2088,7 @@ static void emit_text(struct Obj *prog)
 
 		debug("save all fs0~fs11 registers");
 		for (int i = 0; i < 12; i++)
-			println("\tfsgnj.d ft%d, fs%d, fs%d", i, i, i);
+			println("\tfsd fs%d, %d(fp)", i, -8 * (i + 1));
 
 		debug("Prologue end");
 
@@ -2183,7 +2185,7 @@ static void emit_text(struct Obj *prog)
 
 		debug("restore all fs0~fs11 registers");
 		for (int i = 0; i < 12; i++)
-			println("\tfsgnj.d fs%d, ft%d, ft%d", i, i, i);
+			println("\tfld fs%d, %d(fp)", i, -8 * (i + 1));
 
 		// restore sp register
 		println("\tmv sp, fp");
-- 
2.43.0


From 73e1154be8dc2dc8a21e59a5893ab2857e55af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:55 +0000
Subject: [PATCH 12/77] fix: negate a long double where it is kept, in the fs
 registers

---
 codegen.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index d303f35..72563e1 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1040,10 +1040,8 @@ static void gen_expr(struct Node *node)
 			break;
 
 		case TY_LDOUBLE:
-			println("\tli t0, -1");
-			println("\tslli t0, t0, 63");
 			debug("negative the value of the long double stack top");
-			println("\txor a%d, a%d, t0", ld_sp + 1, ld_sp + 1);
+			println("\tfneg.d fs%d, fs%d", ld_sp - 1, ld_sp - 1);
 			return;
 
 		default:
-- 
2.43.0


From 510b356ffe46d8028809afacd0f4649e81ade414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:55 +0000
Subject: [PATCH 13/77] fix: pass long double operands in a0-a3 at any nesting
 depth

---
 codegen.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/codegen.c b/codegen.c
index 72563e1..33ccd4b 100644
--- a/codegen.c
+++ b/codegen.c
@@ -109,8 +109,9 @@ static int ld_sp;
 		ld_sp, __FILE__, __LINE__);	\
 } while (0)
 
-#define pop_ld() do {				\
-	__pop_ld();				\
+// pop the top of the long double stack into a<x> and a<x + 1>
+#define pop_ld(x) do {				\
+	__pop_ld(x);				\
 	ldsp_debug("pop_ld ld_sp %d at %s:%d\n",	\
 		ld_sp, __FILE__, __LINE__);	\
 } while (0)
@@ -125,13 +126,13 @@ static void __push_ld(void)
 		error("ld_sp can't be larger than 12");
 }
 
-static void __pop_ld(void)
+static void __pop_ld(int reg)
 {
 	if (ld_sp < 2)
 		error("ld_sp can't be less than 2");
 
-	println("\tfmv.x.d a%d, fs%d", ld_sp - 1, ld_sp - 1);
-	println("\tfmv.x.d a%d, fs%d", ld_sp - 2, ld_sp - 2);
+	println("\tfmv.x.d a%d, fs%d", reg + 1, ld_sp - 1);
+	println("\tfmv.x.d a%d, fs%d", reg, ld_sp - 2);
 	ld_sp -= 2;
 }
 
@@ -612,7 +613,7 @@ static void cast(struct Type *from, struct Type *to)
 		debug("cast t1 %d t2 %d", t1, t2);
 
 		if (t1 == F128)
-			pop_ld();
+			pop_ld(0);
 		println("%s", cast_matrix[t1][t2]);
 		if (t2 == F128)
 			push_ld();
@@ -635,7 +636,7 @@ static void cmp_zero(struct Type *ty)
 		break;
 
 	case TY_LDOUBLE:
-		pop_ld();
+		pop_ld(0);
 		println("\tli a2, 0");
 		println("\tli a3, 0");
 		println("\tcall __netf2@plt");
@@ -1469,8 +1470,8 @@ static void gen_expr(struct Node *node)
 		// Cautions:
 		// Save long double results in fsx registers,
 		// in case ax registers are corrupted.
-		pop_ld();
-		pop_ld();
+		pop_ld(2);
+		pop_ld(0);
 
 		switch (node->kind) {
 		case ND_ADD:
@@ -1787,7 +1788,7 @@ static void gen_stmt(struct Node *node)
 					copy_struct_mem();
 
 			} else if (ty->kind == TY_LDOUBLE) {
-				pop_ld();
+				pop_ld(0);
 			}
 		}
 		println("\tj return.%s", current_fn->name);
-- 
2.43.0


From 83c9a193a46c7cf9682e895023d1c3058b8a8080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:55 +0000
Subject: [PATCH 14/77] fix: keep the long double register stack balanced

The value of an assignment was popped although it may be used, unused
values were never popped, and both arms of ?: pushed one.
---
 codegen.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/codegen.c b/codegen.c
index 33ccd4b..4bfc8de 100644
--- a/codegen.c
+++ b/codegen.c
@@ -165,7 +165,6 @@ static void __store_ld(void)
 
 	println("\tfsd fs%d, 8(a1)", ld_sp - 1);
 	println("\tfsd fs%d, 0(a1)", ld_sp - 2);
-	ld_sp -= 2;
 }
 
 // Round up `n` to the nearest multiple of `align`. For instance,
@@ -184,6 +183,15 @@ static bool beyond_instruction_offset(int offset)
 static void gen_expr(struct Node *node);
 static void gen_stmt(struct Node *node);
 
+// Evaluate an expression whose value is not used.
+static void gen_discarded_expr(struct Node *node)
+{
+	int sp = ld_sp;
+
+	gen_expr(node);
+	ld_sp = sp;
+}
+
 __attribute__((unused))
 static void absolute_addressing(const char *symbol)
 {
@@ -329,7 +337,7 @@ static void gen_addr(struct Node *node)
 		break;
 
 	case ND_COMMA:
-		gen_expr(node->lhs);
+		gen_discarded_expr(node->lhs);
 		gen_addr(node->rhs);
 		break;
 
@@ -597,8 +605,11 @@ static void cmp_zero(struct Type *ty);
 
 static void cast(struct Type *from, struct Type *to)
 {
-	if (to->kind == TY_VOID)
+	if (to->kind == TY_VOID) {
+		if (from->kind == TY_LDOUBLE)
+			ld_sp -= 2;
 		return;
+	}
 
 	if (to->kind == TY_BOOL) {
 		cmp_zero(from);
@@ -1137,12 +1148,17 @@ static void gen_expr(struct Node *node)
 		return;
 
 	case ND_STMT_EXPR:
-		for (struct Node *n = node->body; n; n = n->next)
-			gen_stmt(n);
+		for (struct Node *n = node->body; n; n = n->next) {
+			// the last expression is the value
+			if (!n->next && n->kind == ND_EXPR_STMT)
+				gen_expr(n->lhs);
+			else
+				gen_stmt(n);
+		}
 		return;
 
 	case ND_COMMA:
-		gen_expr(node->lhs);
+		gen_discarded_expr(node->lhs);
 		gen_expr(node->rhs);
 		return;
 
@@ -1172,7 +1188,7 @@ static void gen_expr(struct Node *node)
 		gen_expr(node->cond);
 		cmp_zero(node->cond->ty);
 		println("\tbnez a0, .L.else.%d", c);
-		gen_expr(node->then);
+		gen_discarded_expr(node->then);
 		println("\tj .L.end.%d", c);
 		println(".L.else.%d:", c);
 		gen_expr(node->els);
@@ -1696,7 +1712,7 @@ static void gen_stmt(struct Node *node)
 		gen_stmt(node->then);
 		println("%s:", node->cont_label);
 		if (node->inc)
-			gen_expr(node->inc);
+			gen_discarded_expr(node->inc);
 		println("\tj begin.%d", c);
 
 		println("%s:", node->brk_label);
@@ -1795,7 +1811,7 @@ static void gen_stmt(struct Node *node)
 		return;
 
 	case ND_EXPR_STMT:
-		gen_expr(node->lhs);
+		gen_discarded_expr(node->lhs);
 		return;
 
 	case ND_ASM:
-- 
2.43.0


From 42502cf034cbaa5d6cf010e2d185005b1496b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:40 +0000
Subject: [PATCH 15/77] fix: keep the stack pointer 16-byte aligned

---
 codegen.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 4bfc8de..16a05b8 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1914,8 +1914,8 @@ static void assign_lvar_offsets(struct Obj *prog)
 			bottom = align_to(bottom, var->align);
 			var->offset = -bottom;
 		}
-		// initialize stack size
-		fn->stack_size = align_to(bottom, sizeof(long));
+		// initialize stack size, sp is always 16-byte aligned at calls
+		fn->stack_size = align_to(bottom, 16);
 	}
 }
 
@@ -2092,6 +2092,9 @@ static void emit_text(struct Obj *prog)
 			// are transmitted by registers.
 			if (va_gp < MAX_ARG_REGS) {
 				va_size = (MAX_ARG_REGS - va_gp) * sizeof(long);
+				// keep sp 16-byte aligned by padding below va_area
+				fn->va_area->offset += va_size % 16;
+				va_size = align_to(va_size, 16);
 				debug("va_area's size is %d", va_size);
 				println("\tadd sp, sp, -%d", va_size);
 			}
-- 
2.43.0


From d2617f13dea318eaf5f1e4bec0603323d3edb2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:34 +0000
Subject: [PATCH 16/77] fix: compare case labels in the type of the switch
 operand

---
 parser/parser.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 13f62cc..2e925d7 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1131,6 +1131,13 @@ static struct Node *asm_stmt(struct Token **rest, struct Token *tok)
 	return node;
 }
 
+// Convert a case label to the promoted type of the switch operand,
+// in which 32-bit values are kept sign-extended.
+static long case_value(struct Type *ty, long val)
+{
+	return ty->size == sizeof(long) ? val : (int)val;
+}
+
 // stmt = "return" expr? ";"
 // 	| "if" "(" expr ")" stmt ("else" stmt)?
 //	| "switch" "(" expr ")" stmt
@@ -1186,6 +1193,7 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 
 		tok = skip(tok->next, "(");
 		n->cond = expr(&tok, tok);
+		add_type(n->cond);
 		tok = skip(tok, ")");
 
 		struct Node *sw_prev = current_switch;
@@ -1207,13 +1215,15 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 			error_tok(tok, "stray case");
 
 		struct Node *n = new_node(ND_CASE, tok);
-		int begin = const_expr(&tok, tok->next);
-		int end;
+		struct Type *ty = current_switch->cond->ty;
+		long begin = case_value(ty, const_expr(&tok, tok->next));
+		long end;
 
 		if (equal(tok, "...")) {
 			// [GNU] Case ranges, e.g. "case 1 ... 5:"
-			end = const_expr(&tok, tok->next);
-			if (end < begin)
+			end = case_value(ty, const_expr(&tok, tok->next));
+			if (ty->is_unsigned && ty->size >= (int)sizeof(int) ?
+			   (unsigned long)end < (unsigned long)begin : end < begin)
 				error_tok(tok, "empty case range specified");
 		} else {
 			end = begin;
-- 
2.43.0


From 581b86ed9992b8267c168528bb7cb52ac915dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:55 +0000
Subject: [PATCH 17/77] fix: VLA pointer differences and sizes, alignment of
 static locals

---
 parser/declarator.c | 4 +++-
 parser/parser.c     | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 7c325b4..46f0d72 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -860,7 +860,7 @@ struct Node *compute_vla_size(struct Type *ty, struct Token *tok)
 	if (ty->base->kind == TY_VLA)
 		base_sz = new_var_node(ty->base->vla_size, tok);
 	else
-		base_sz = new_num(ty->base->size, tok);
+		base_sz = new_ulong(ty->base->size, tok);
 
 	ty->vla_size = new_lvar("", p_ty_ulong());
 	struct Node *expr = new_binary(ND_ASSIGN,
@@ -913,6 +913,8 @@ struct Node *declaration(struct Token **rest, struct Token *tok,
 			// static local variable
 			struct Obj *var = new_anon_gvar(ty);
 			push_scope(get_ident(ty->name))->var = var;
+			if (attr->align)
+				var->align = attr->align;
 
 			if (equal(tok, "="))
 				gvar_initializer(&tok, tok->next, var);
diff --git a/parser/parser.c b/parser/parser.c
index 2e925d7..6877ec0 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -709,6 +709,10 @@ static struct Node *new_sub(struct Node *lhs, struct Node *rhs, struct Token *to
 	if (lhs->ty->base && rhs->ty->base) {
 		struct Node *node = new_binary(ND_SUB, lhs, rhs, tok);
 		node->ty = p_ty_long();
+		if (lhs->ty->base->kind == TY_VLA) {
+			struct Node *size = new_var_node(lhs->ty->base->vla_size, tok);
+			return new_binary(ND_DIV, node, new_cast(size, p_ty_long()), tok);
+		}
 		return new_binary(ND_DIV, node, new_num(lhs->ty->base->size, tok), tok);
 	}
 
-- 
2.43.0


From 2fd1095c29e167324936b1b94136cac3f25296ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:00 +0000
Subject: [PATCH 18/77] fix: keep sp 16-byte aligned after alloca and VLA
 declarations

---
 codegen.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/codegen.c b/codegen.c
index 16a05b8..9a68905 100644
--- a/codegen.c
+++ b/codegen.c
@@ -945,8 +945,8 @@ static void builtin_alloca(void)
 	// ============================= alloca_bottom, t1
 	//      allocate t0 size
 	// ----------------------------- new alloca_bottom, return a0 as ptr
-	//
-	//             ....              memmove size t4 (t1 - t2)
+	//   (padding to 16 bytes)
+	//             ....              memmove size t4
 	//
 	// ============================= current sp, t2
 	//           - t0 size
@@ -954,17 +954,24 @@ static void builtin_alloca(void)
 
 	// t2 = current sp
 	println("\tmv t2, sp");
-	// t3 = new sp
-	println("\tsub sp, sp, t0");
-	println("\tmv t3, sp");
 
 	// Shift the temporary area
 	println("\tli t5, %d", current_fn->alloca_bottom->offset);
 	println("\tadd t5, t5, fp");
 	println("\tld t1, (t5)");
 
-	// t4 = old_sp - new_sp, size of local variables
-	println("\tsub t4, t1, t2");
+	// t4 = size of the temporary area, which starts 16-byte aligned
+	// below alloca_bottom
+	println("\tand t4, t1, -16");
+	println("\tsub t4, t4, t2");
+
+	// t0 = new alloca_bottom
+	println("\tsub t0, t1, t0");
+
+	// t3 = new sp
+	println("\tand t3, t0, -16");
+	println("\tsub t3, t3, t4");
+	println("\tmv sp, t3");
 
 	// memmove alloca-area from t2 to t3, size is t4
 	println("1:");
@@ -978,7 +985,7 @@ static void builtin_alloca(void)
 	println("2:");
 
 	// Move alloca_bottom pointer.
-	println("\tsub a0, t1, t0");
+	println("\tmv a0, t0");
 	println("\tsd a0, (t5)");
 }
 
-- 
2.43.0


From 614d078a9e0f055ff953c5f5519f5cf0241a402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:21 +0000
Subject: [PATCH 19/77] fix: yield the old value of A++ and A-- itself

---
 parser/parser.c | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 6877ec0..39f2b64 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -499,16 +499,45 @@ static struct Node *to_assign(struct Node *binary)
 	return new_binary(ND_COMMA, expr1, expr2, tok);
 }
 
-// Convert A++ to `(typeof A)((A += 1) - 1)`
+// Convert A++ to `tmp = &A, old = *tmp, *tmp = old + 1, old`,
+// and A.x++ to `tmp = &A, old = (*tmp).x, (*tmp).x = old + 1, old`.
+// If A is an atomic type, convert A++ to `(typeof A)((A += 1) - 1)`.
 static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend)
 {
 	add_type(node);
 
-	struct Node *node_add = new_add(node, new_num(addend, tok), tok);
-	struct Node *node_to_assign = to_assign(node_add);
-	struct Node *node_minus = new_add(node_to_assign, new_num(-addend, tok), tok);
+	if (node->ty->is_atomic) {
+		struct Node *node_add = new_add(node, new_num(addend, tok), tok);
+		struct Node *node_to_assign = to_assign(node_add);
+		struct Node *node_minus = new_add(node_to_assign, new_num(-addend, tok), tok);
 
-	return new_cast(node_minus, node->ty);
+		return new_cast(node_minus, node->ty);
+	}
+
+	struct Node *base = node->kind == ND_MEMBER ? node->lhs : node;
+	struct Obj *tmp = new_lvar("", pointer_to(base->ty));
+	struct Obj *old = new_lvar("", node->ty);
+	struct Node *lval[2];
+
+	for (int i = 0; i < 2; i++) {
+		lval[i] = new_unary(ND_DEREF, new_var_node(tmp, tok), tok);
+		if (node->kind == ND_MEMBER) {
+			lval[i] = new_unary(ND_MEMBER, lval[i], tok);
+			lval[i]->member = node->member;
+		}
+	}
+
+	struct Node *expr1 = new_binary(ND_ASSIGN, new_var_node(tmp, tok),
+				new_unary(ND_ADDR, base, tok), tok);
+	struct Node *expr2 = new_binary(ND_ASSIGN, new_var_node(old, tok), lval[0], tok);
+	struct Node *expr3 = new_binary(ND_ASSIGN, lval[1],
+				new_add(new_var_node(old, tok), new_num(addend, tok), tok),
+				tok);
+	struct Node *expr4 = new_cast(new_var_node(old, tok), node->ty);
+
+	return new_binary(ND_COMMA, expr1,
+			  new_binary(ND_COMMA, expr2,
+				     new_binary(ND_COMMA, expr3, expr4, tok), tok), tok);
 }
 
 // postfix = "(" type-name ")" "{" initializer-list "}"
-- 
2.43.0


From 5bfe67bc4388ce89087ab971ce11bdfd4ffc39da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:18 +0000
Subject: [PATCH 20/77] fix: bit-field promotion, _Bool and 64-bit bit-fields,
 value of an assignment

---
 codegen.c            | 35 ++++++++++++++++++++---------------
 parser/initializer.c |  2 +-
 parser/parser.c      |  3 ++-
 type.c               | 20 ++++++++++++++++++--
 type.h               |  2 ++
 5 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/codegen.c b/codegen.c
index 9a68905..a1817f2 100644
--- a/codegen.c
+++ b/codegen.c
@@ -934,6 +934,19 @@ static void copy_ret_buffer(struct Obj *var)
 	debug("copy_ret_buffer end");
 }
 
+// Extract the value of a bitfield which lies in a0 from bit `offset`.
+static void extract_bitfield(struct Member *mem, int offset)
+{
+	// Clear unused high bits of field member variables
+	println("\tslli a0, a0, %d", 64 - mem->bit_width - offset);
+	// Clear unused low bits of field member variables
+	if ((mem->ty->is_unsigned || mem->ty->kind == TY_BOOL) &&
+	    !(mem->ty->size == sizeof(int) && mem->bit_width == 32))
+		println("\tsrli a0, a0, %d", 64 - mem->bit_width);
+	else
+		println("\tsrai a0, a0, %d", 64 - mem->bit_width);
+}
+
 static void builtin_alloca(void)
 {
 	// move size to t0 reg
@@ -1081,17 +1094,8 @@ static void gen_expr(struct Node *node)
 		gen_addr(node);
 		load(node->ty);
 
-		struct Member *mem = node->member;
-		if (mem->is_bitfield) {
-			// Clear unused high bits of field member variables
-			println("\tslli a0, a0, %d", 64 - mem->bit_width - mem->bit_offset);
-			// Clear unused low bits of field member variables
-			if (mem->ty->is_unsigned &&
-			    !(mem->ty->size == sizeof(int) && mem->bit_width == 32))
-				println("\tsrli a0, a0, %d", 64 - mem->bit_width);
-			else
-				println("\tsrai a0, a0, %d", 64 - mem->bit_width);
-		}
+		if (node->member->is_bitfield)
+			extract_bitfield(node->member, node->member->bit_offset);
 		return;
 
 	case ND_DEREF:
@@ -1126,7 +1130,8 @@ static void gen_expr(struct Node *node)
 			debug("merge new value into bit_field");
 
 			println("\tmv t0, a0");
-			println("\tli t1, %ld", (1L << mem->bit_width) - 1);
+			long mask = bitfield_mask(mem);
+			println("\tli t1, %ld", mask);
 			println("\tand t0, t0, t1");
 
 			println("\tslli t0, t0, %d", mem->bit_offset);
@@ -1135,8 +1140,7 @@ static void gen_expr(struct Node *node)
 			println("\tld a0, (sp)");
 			load(mem->ty);
 
-			long mask = ((1L << mem->bit_width) - 1) << mem->bit_offset;
-			println("\tli t1, %ld", ~mask);
+			println("\tli t1, %ld", ~(mask << mem->bit_offset));
 
 			println("\tand a0, a0, t1");
 			println("\tor a0, a0, t0");
@@ -1144,8 +1148,9 @@ static void gen_expr(struct Node *node)
 
 			debug("merge new value into bit_field end");
 
-			// restore value of the bitfield
+			// the value of the assignment is that of the bitfield
 			println("\tmv a0, t2");
+			extract_bitfield(mem, 0);
 			debug("end ND_ASSIGN var");
 			return;
 		}
diff --git a/parser/initializer.c b/parser/initializer.c
index ddf1c6e..b3c72d7 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -670,7 +670,7 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 
 				uint64_t oldval = read_buf(loc, mem->ty->size);
 				uint64_t newval = eval(expr);
-				uint64_t mask = (1L << mem->bit_width) - 1;
+				uint64_t mask = bitfield_mask(mem);
 				uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
 
 				write_buf(loc, combined, mem->ty->size);
diff --git a/parser/parser.c b/parser/parser.c
index 39f2b64..741cf65 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -803,7 +803,8 @@ static struct Node *unary(struct Token **rest, struct Token *tok)
 
 		// only the integer promotion remains to be done
 		add_type(node);
-		if (is_integer(node->ty) && node->ty->size < (int)sizeof(int))
+		struct Type *ty = operand_type(node);
+		if (is_integer(ty) && (ty->size < (int)sizeof(int) || ty != node->ty))
 			node = new_cast(node, p_ty_int());
 		return node;
 	}
diff --git a/type.c b/type.c
index 4be2510..0383341 100644
--- a/type.c
+++ b/type.c
@@ -322,6 +322,22 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 	return ty1;
 }
 
+// Type of an operand for the integer promotions. A bit-field narrower
+// than int is promoted to int, whatever its declared type is.
+struct Type *operand_type(struct Node *node)
+{
+	if (node->kind == ND_MEMBER && node->member->is_bitfield &&
+	    node->member->bit_width < 32)
+		return p_ty_int();
+	return node->ty;
+}
+
+// Mask of the bits of a bit-field's value.
+long bitfield_mask(struct Member *mem)
+{
+	return mem->bit_width == 64 ? -1L : (1L << mem->bit_width) - 1;
+}
+
 // For many binary operators, we implicitly promote operands so that
 // both operands have the same type. Any integral type smaller than
 // int is always promoted to int. If the type of one operand is larger
@@ -331,7 +347,7 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 // This operation is called the "usual arithmetic conversion".
 static void usual_arith_conv(struct Node **lhs, struct Node **rhs)
 {
-	struct Type *ty = get_common_type((*lhs)->ty, (*rhs)->ty);
+	struct Type *ty = get_common_type(operand_type(*lhs), operand_type(*rhs));
 
 	*lhs = new_cast(*lhs, ty);
 	*rhs = new_cast(*rhs, ty);
@@ -378,7 +394,7 @@ void add_type(struct Node *node)
 	case ND_SHL:
 	case ND_SHR: {
 		// integer promotion
-		struct Type *ty = get_common_type(p_ty_int(), node->lhs->ty);
+		struct Type *ty = get_common_type(p_ty_int(), operand_type(node->lhs));
 		node->lhs = new_cast(node->lhs, ty);
 		node->ty = ty;
 		break;
diff --git a/type.h b/type.h
index 5c99573..bbb5d6c 100644
--- a/type.h
+++ b/type.h
@@ -66,5 +66,7 @@ struct Type *enum_type(void);
 struct Type *struct_type(void);
 
 void add_type(struct Node *node);
+struct Type *operand_type(struct Node *node);
+long bitfield_mask(struct Member *mem);
 
 #endif
-- 
2.43.0


From 6491afecac58e0851c24129bc09826eb653c06f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:23 +0000
Subject: [PATCH 21/77] fix: atomic operations on 1, 2 and 8 byte objects;
 atomic_fetch_* yield the old value

---
 codegen.c           | 188 ++++++++++++++++++++++++++++++++------------
 include/stdatomic.h |  32 +++++---
 parser/parser.c     |   2 +-
 type.c              |   4 +-
 4 files changed, 163 insertions(+), 63 deletions(-)

diff --git a/codegen.c b/codegen.c
index a1817f2..5fa885d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1002,6 +1002,141 @@ static void builtin_alloca(void)
 	println("\tsd a0, (t5)");
 }
 
+// Generate the value to be stored into an atomic object, as an integer in t3.
+static void gen_atomic_value(struct Node *node, struct Type *ty)
+{
+	if (!is_float_arg(ty) && !is_integer(ty) && ty->kind != TY_PTR)
+		error_tok(node->tok, "not supported atomic type");
+
+	gen_expr(node);
+	if (is_float_arg(ty))
+		println("\tfmv.x.%s t3, fa0", ty->kind == TY_FLOAT ? "w" : "d");
+	else
+		println("\tmv t3, a0");
+}
+
+// There are lr/sc instructions only for words and double words. A char or
+// short at t0 is accessed inside of the aligned word which contains it:
+// t5: address of the word, t6: shift amount, a1: mask of the object,
+// and the value in t3 is moved to its position in the word.
+static void gen_atomic_word(int sz)
+{
+	println("\tandi t5, t0, -4");
+	println("\tsub t6, t0, t5");
+	println("\tslli t6, t6, 3");
+	println("\tli a1, %d", (1 << (sz * 8)) - 1);
+	println("\tand t3, t3, a1");
+	println("\tsllw t3, t3, t6");
+	println("\tsllw a1, a1, t6");
+}
+
+static void gen_cas(struct Node *node)
+{
+	struct Type *ty = node->cas_addr->ty->base;
+	int c = count();
+	int sz = ty->size;
+
+	gen_expr(node->cas_addr);
+	push("a0");
+	gen_expr(node->cas_old);
+	push("a0");
+	// t3: C value
+	gen_atomic_value(node->cas_new, ty);
+	// t1: B addr
+	pop("t1");
+	// t0: A addr
+	pop("t0");
+
+	// lr(Load-Reserved):
+	// Load and Reserved control of the memory address.
+	//
+	// aq(acquisition):
+	// If the AQ bit is set, any memory operations in this
+	// hardware thread that occur after an atomic memory
+	// operation(AMO) will not occur before the AMO.
+	//
+	// sc(Store-Conditional):
+	// Writes a value from a register to a specified memory
+	// address, the write operation takes effect only if the
+	// memory address is still reserved by the processor.
+
+	// t2: B value, t4: A value
+	if (sz < (int)sizeof(int)) {
+		println("\tl%s t2, (t1)", sz == 1 ? "b" : "h");
+		gen_atomic_word(sz);
+		println("\tsllw t2, t2, t6");
+		println("\tand t2, t2, a1");
+
+		println(".L.cas_retry.%d:", c);
+		println("\tlr.w.aq a2, (t5)");
+		println("\tand t4, a2, a1");
+		println("\tbne t4, t2, .L.cas_return.%d", c);
+		println("\txor a2, a2, t4");
+		println("\tor a2, a2, t3");
+		println("\tsc.w.aq a0, a2, (t5)");
+		println("\tbnez a0, .L.cas_retry.%d", c);
+	} else {
+		const char *w = sz == sizeof(int) ? "w" : "d";
+
+		println("\tl%s t2, (t1)", w);
+
+		println(".L.cas_retry.%d:", c);
+		println("\tlr.%s.aq t4, (t0)", w);
+		println("\tbne t4, t2, .L.cas_return.%d", c);
+		println("\tsc.%s.aq a0, t3, (t0)", w);
+		println("\tbnez a0, .L.cas_retry.%d", c);
+	}
+
+	println(".L.cas_return.%d:", c);
+	// compare A value and B value
+	println("\tsub t2, t4, t2");
+	println("\tseqz a0, t2");
+	println("\tbeqz t2, .L.cas_end.%d", c);
+
+	// if not equals, write B addr with A value
+	if (sz < (int)sizeof(int)) {
+		println("\tsrlw t4, t4, t6");
+		println("\ts%s t4, (t1)", sz == 1 ? "b" : "h");
+	} else {
+		println("\ts%s t4, (t1)", sz == sizeof(int) ? "w" : "d");
+	}
+	println(".L.cas_end.%d:", c);
+}
+
+static void gen_exch(struct Node *node)
+{
+	struct Type *ty = node->ty;
+	int sz = ty->size;
+
+	gen_expr(node->lhs);
+	push("a0");
+	gen_atomic_value(node->rhs, ty);
+	pop("t0");
+
+	if (sz >= (int)sizeof(int)) {
+		println("\tamoswap.%s.aq a0, t3, (t0)", sz == sizeof(int) ? "w" : "d");
+		if (is_float_arg(ty))
+			println("\tfmv.%s.x fa0, a0", ty->kind == TY_FLOAT ? "w" : "d");
+		return;
+	}
+
+	int c = count();
+	gen_atomic_word(sz);
+	println(".L.exch_retry.%d:", c);
+	println("\tlr.w.aq a2, (t5)");
+	println("\tand a0, a2, a1");
+	println("\txor a2, a2, a0");
+	println("\tor a2, a2, t3");
+	println("\tsc.w.aq a3, a2, (t5)");
+	println("\tbnez a3, .L.exch_retry.%d", c);
+
+	// bring the old value back in its type
+	println("\tsrlw a0, a0, t6");
+	println("\tslli a0, a0, %d", 64 - sz * 8);
+	println("\t%s a0, a0, %d", ty->is_unsigned || ty->kind == TY_BOOL ? "srli" : "srai",
+		64 - sz * 8);
+}
+
 // Generate code for a given node.
 static void gen_expr(struct Node *node)
 {
@@ -1384,60 +1519,11 @@ static void gen_expr(struct Node *node)
 		return;
 
 	case ND_CAS:
-		// t0: A addr
-		gen_expr(node->cas_addr);
-		println("\tmv t0, a0");
-		// t1: B addr
-		gen_expr(node->cas_old);
-		println("\tmv t1, a0");
-		// t2: B value
-		load(node->cas_old->ty->base);
-		println("\tmv t2, a0");
-		// t3: C value
-		gen_expr(node->cas_new);
-		println("\tmv t3, a0");
-
-		c = count();
-		println(".L.cas_retry.%d:", c);
-
-		// lr(Load-Reserved):
-		// Load and Reserved control of the memory address.
-		//
-		// aq(acquisition):
-		// If the AQ bit is set, any memory operations in this
-		// hardware thread that occur after an atomic memory
-		// operation(AMO) will not occur before the AMO.
-
-		// t4: A value
-		println("\tlr.w.aq t4, (t0)");
-		println("\tbne t4, t2, .L.cas_return.%d", c);
-
-		// sc(Store-Conditional):
-		// Writes a value from a register to a specified memory
-		// address, the write operation takes effect only if the
-		// memory address is still reserved by the processor.
-		println("\tsc.w.aq a0, t3, (t0)");
-		println("\tbnez a0, .L.cas_retry.%d", c);
-
-		println(".L.cas_return.%d:", c);
-		// compare A value and B value
-		println("\tsubw t2, t4, t2");
-		println("\tseqz a0, t2");
-		println("\tbeqz t2, .L.cas_end.%d", c);
-
-		// if not equals, write B addr with A value
-		println("\tsw t4, (t1)");
-		println(".L.cas_end.%d:", c);
+		gen_cas(node);
 		return;
 
 	case ND_EXCH:
-		gen_expr(node->lhs);
-		push("a0");
-		gen_expr(node->rhs);
-		pop("a1");
-
-		size_t sz = node->lhs->ty->base->size;
-		println("amoswap.%s.aq a0, a0, (a1)", sz <= sizeof(int) ? "w" : "d");
+		gen_exch(node);
 		return;
 
 	default:
diff --git a/include/stdatomic.h b/include/stdatomic.h
index 22da14f..7af5cac 100644
--- a/include/stdatomic.h
+++ b/include/stdatomic.h
@@ -34,17 +34,29 @@ enum memory_order {
 #define atomic_load_explicit(addr, order) (*(addr))
 #define atomic_store_explicit(addr, val, order) (*(addr) = (val))
 
-#define atomic_fetch_add(obj, val) (*(obj) += (val))
-#define atomic_fetch_sub(obj, val) (*(obj) -= (val))
-#define atomic_fetch_or(obj, val) (*(obj) |= (val))
-#define atomic_fetch_xor(obj, val) (*(obj) ^= (val))
-#define atomic_fetch_and(obj, val) (*(obj) &= (val))
+// returns the value before the operation
+#define __atomic_fetch_op(obj, op, val)					\
+({									\
+	typeof(obj) __atomic_obj = (obj);				\
+	typeof(*__atomic_obj) __atomic_old = *__atomic_obj;		\
+	typeof(val) __atomic_val = (val);				\
+	while (!__builtin_compare_and_swap(__atomic_obj, &__atomic_old,	\
+					   __atomic_old op __atomic_val)) \
+		;							\
+	__atomic_old;							\
+})
 
-#define atomic_fetch_add_explicit(obj, val, order) (*(obj) += (val))
-#define atomic_fetch_sub_explicit(obj, val, order) (*(obj) -= (val))
-#define atomic_fetch_or_explicit(obj, val, order) (*(obj) |= (val))
-#define atomic_fetch_xor_explicit(obj, val, order) (*(obj) ^= (val))
-#define atomic_fetch_and_explicit(obj, val, order) (*(obj) &= (val))
+#define atomic_fetch_add(obj, val) __atomic_fetch_op(obj, +, val)
+#define atomic_fetch_sub(obj, val) __atomic_fetch_op(obj, -, val)
+#define atomic_fetch_or(obj, val) __atomic_fetch_op(obj, |, val)
+#define atomic_fetch_xor(obj, val) __atomic_fetch_op(obj, ^, val)
+#define atomic_fetch_and(obj, val) __atomic_fetch_op(obj, &, val)
+
+#define atomic_fetch_add_explicit(obj, val, order) __atomic_fetch_op(obj, +, val)
+#define atomic_fetch_sub_explicit(obj, val, order) __atomic_fetch_op(obj, -, val)
+#define atomic_fetch_or_explicit(obj, val, order) __atomic_fetch_op(obj, |, val)
+#define atomic_fetch_xor_explicit(obj, val, order) __atomic_fetch_op(obj, ^, val)
+#define atomic_fetch_and_explicit(obj, val, order) __atomic_fetch_op(obj, &, val)
 
 // __builtin_compare_and_swap(pa, pb, c_val)
 // if (*pa == *pb) then *pa = c_val, return true
diff --git a/parser/parser.c b/parser/parser.c
index 741cf65..1caebc5 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -374,7 +374,7 @@ static struct Node *to_assign(struct Node *binary)
 	struct Token *tok = binary->tok;
 
 	// Convert `A.x op= C` to `tmp = &A, (*tmp).x = (*tmp).x op C`.
-	if (binary->lhs->kind == ND_MEMBER) {
+	if (binary->lhs->kind == ND_MEMBER && !binary->lhs->ty->is_atomic) {
 		// var tmp
 		struct Obj *var = new_lvar("", pointer_to(binary->lhs->lhs->ty));
 
diff --git a/type.c b/type.c
index 0383341..d4a5d6a 100644
--- a/type.c
+++ b/type.c
@@ -496,13 +496,15 @@ void add_type(struct Node *node)
 		if (node->cas_old->ty->kind != TY_PTR)
 			error_tok(node->cas_old->tok, "pointer expected");
 
+		node->cas_new = new_cast(node->cas_new, node->cas_addr->ty->base);
 		node->ty = p_ty_bool();
 		break;
 
 	case ND_EXCH:
 		if (node->lhs->ty->kind != TY_PTR)
-			error_tok(node->cas_addr->tok, "pointer expected");
+			error_tok(node->lhs->tok, "pointer expected");
 
+		node->rhs = new_cast(node->rhs, node->lhs->ty->base);
 		node->ty = node->lhs->ty->base;
 		break;
 
-- 
2.43.0


From 71d623348469446756cbd57652c15986f8498901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:05 +0000
Subject: [PATCH 22/77] fix: pass and return arguments as the LP64D calling
 convention prescribes

---
 codegen.c        | 783 +++++++++++++++++++++--------------------------
 include/stdarg.h |  15 +-
 toycc.h          |  23 +-
 3 files changed, 381 insertions(+), 440 deletions(-)

diff --git a/codegen.c b/codegen.c
index 5fa885d..8c723aa 100644
--- a/codegen.c
+++ b/codegen.c
@@ -666,127 +666,143 @@ static void cmp_zero(struct Type *ty)
 // When structs or unions larger than 16 bytes, save the struct
 // in caller's stack, and transmit the pointer to callee by one
 // register.
-static void push_struct(struct Type *ty)
+// rd = rs + imm
+static void add_imm(const char *rd, const char *rs, int imm)
 {
-	int i;
-	int sz = align_to(ty->size, sizeof(long));
-	int n = sz / sizeof(long);
-
-	// transmission by registers
-	if (n <= 2) {
-		while (n--) {
-			println("\tld t0, %ld(a0)", n * sizeof(long));
-			push("t0");
-		}
-		return;
+	if (beyond_instruction_offset(imm)) {
+		println("\tli t2, %d", imm);
+		println("\tadd %s, %s, t2", rd, rs);
+	} else {
+		println("\taddi %s, %s, %d", rd, rs, imm);
 	}
+}
 
-	// transmission by stack pointer
-	println("\tadd t1, t1, %d", -sz);
+static void copy_bytes(const char *dst, const char *src, int size)
+{
+	for (int i = 0; i < size; i++) {
+		if (beyond_instruction_offset(i)) {
+			add_imm("t3", src, i);
+			println("\tlb t3, (t3)");
+			println("\tadd t2, %s, t2", dst);
+			println("\tsb t3, (t2)");
+		} else {
+			println("\tlb t3, %d(%s)", i, src);
+			println("\tsb t3, %d(%s)", i, dst);
+		}
+	}
+}
 
-	for (i = 0; i < n; i++) {
-		// push struct content into stack
-		println("\tld t0, %ld(a0)", i * sizeof(long));
-		println("\tsd t0, %ld(t1)", i * sizeof(long));
+// load the piece of the object at (base), base is neither t2 nor t3
+static void load_piece(const char *rd, const char *base, char cls, int off, int size)
+{
+	if (cls == 'f') {
+		println("\tfl%s %s, %d(%s)", size == sizeof(float) ? "w" : "d", rd, off, base);
+		return;
 	}
-	depth += n;
 
-	push("t1");
+	switch (size) {
+	case sizeof(char):
+		println("\tlb %s, %d(%s)", rd, off, base);
+		break;
+	case sizeof(short):
+		println("\tlh %s, %d(%s)", rd, off, base);
+		break;
+	case sizeof(int):
+		println("\tlw %s, %d(%s)", rd, off, base);
+		break;
+	case sizeof(long):
+		println("\tld %s, %d(%s)", rd, off, base);
+		break;
+	default:
+		// do not read beyond the object
+		println("\tli t2, 0");
+		for (int i = size - 1; i >= 0; i--) {
+			println("\tlbu t3, %d(%s)", off + i, base);
+			println("\tslli t2, t2, 8");
+			println("\tor t2, t2, t3");
+		}
+		println("\tmv %s, t2", rd);
+		break;
+	}
 }
 
-static void push_args2(struct Node *args, bool first_pass)
+// store the piece to off(fp)
+static void store_piece(const char *rs, char cls, int off, int size)
 {
-	if (!args)
-		return;
+	const char *base = "fp";
 
-	// in the right-to-left order
-	push_args2(args->next, first_pass);
+	if (beyond_instruction_offset(off) || beyond_instruction_offset(off + size)) {
+		add_imm("t2", "fp", off);
+		base = "t2";
+		off = 0;
+	}
 
-	if ((first_pass && !args->pass_by_stack) ||
-	   (!first_pass && args->pass_by_stack))
+	if (cls == 'f') {
+		println("\tfs%s %s, %d(%s)", size == sizeof(float) ? "w" : "d", rs, off, base);
 		return;
+	}
 
-	gen_expr(args);
-
-	switch (args->ty->kind) {
-	case TY_STRUCT:
-	case TY_UNION:
-		push_struct(args->ty);
+	switch (size) {
+	case sizeof(char):
+		println("\tsb %s, %d(%s)", rs, off, base);
 		break;
-
-	case TY_FLOAT:
-	case TY_DOUBLE:
-		push("fa0");
+	case sizeof(short):
+		println("\tsh %s, %d(%s)", rs, off, base);
 		break;
-
-	case TY_LDOUBLE:
-		println("\taddi sp, sp, -16");
-		println("\tfsd fs%d, 8(sp)", ld_sp - 1);
-		println("\tfsd fs%d, 0(sp)", ld_sp - 2);
-		depth += 2;
-		ld_sp -= 2;
-		ldsp_debug("pop_ld_stack ld_sp %d depth %d at %s:%d\n",
-			ld_sp, depth, __FILE__, __LINE__);
+	case sizeof(int):
+		println("\tsw %s, %d(%s)", rs, off, base);
+		break;
+	case sizeof(long):
+		println("\tsd %s, %d(%s)", rs, off, base);
 		break;
-
 	default:
-		push("a0");
+		for (int i = 0; i < size; i++) {
+			println("\tsb %s, %d(%s)", rs, off + i, base);
+			println("\tsrli %s, %s, 8", rs, rs);
+		}
 		break;
 	}
 }
 
-#define USED_GENERIC_REG 1
-#define USED_FLOAT_REG 2
-#define MIXED_REG 3
+// registers and stack slots taken by the arguments so far
+struct CallConv {
+	size_t g_arg;
+	size_t f_arg;
+	int stack;
+};
 
-static void check_struct_mixed(struct Type *ty, int *mixed, int *idx)
+// collect the scalar members of a struct, or return false if
+// the struct is not passed by float registers
+static bool flatten(struct Type *ty, int off, struct ArgLoc *loc)
 {
+	if (ty->kind == TY_UNION || ty->kind == TY_LDOUBLE)
+		return false;
+
 	if (ty->kind == TY_STRUCT) {
 		for (struct Member *mem = ty->members; mem; mem = mem->next)
-			check_struct_mixed(mem->ty, mixed, idx);
-		return;
+			if (!flatten(mem->ty, off + mem->offset, loc))
+				return false;
+		return true;
 	}
 
 	if (ty->kind == TY_ARRAY) {
 		for (int i = 0; i < ty->array_len; i++)
-			check_struct_mixed(ty->base, mixed, idx);
-		return;
+			if (!flatten(ty->base, off + i * ty->base->size, loc))
+				return false;
+		return true;
 	}
 
-	if (is_float_arg(ty)) {
-		*mixed |= USED_FLOAT_REG;
-		(*idx)++;
-		return;
-	}
+	if (loc->n == 2)
+		return false;
 
-	*mixed |= USED_GENERIC_REG;
-	(*idx)++;
+	loc->piece[loc->n].cls = is_float_arg(ty) ? 'f' : 'x';
+	loc->piece[loc->n].off = off;
+	loc->piece[loc->n].size = ty->size;
+	loc->n++;
+	return true;
 }
 
-static void check_struct_contain_float(struct Token *tok,
-				       struct Type *ty, size_t g_arg)
-{
-	int n = align_to(ty->size, sizeof(long)) / sizeof(long);
-	if (n > 2)
-		return;
-
-	int mixed = 0, idx = 0;
-	check_struct_mixed(ty, &mixed, &idx);
-	if (mixed != USED_GENERIC_REG && idx == 2) {
-		if (g_arg < MAX_ARG_REGS) {
-			// transmit by register
-			if ((g_arg + 1) == MAX_ARG_REGS && n == 1)
-				// pass as the last argument by generic register
-				return;
-
-			error_tok(tok, "Not support transmit struct arguments's float member by float register");
-		}
-	}
-}
-
-// Load function call arguments. Arguments are already evaluated and
-// stored to the stack as local variables. What we need to do in this
-// function is to load them to registers or push them to the stack.
+// Decide where a value of the type is passed.
 // https://github.com/riscv-non-isa/riscv-elf-psabi-doc/releases
 //
 // Here is what the spec says:
@@ -794,143 +810,230 @@ static void check_struct_contain_float(struct Token *tok,
 //
 // - Up to 8 arguments of floating-point type are passed using fa0-fa7.
 //
-// - Values are passed in floating-point registers whenever possible,
-//   whether or not the integer registers have been exhausted.
-//
-// - Variadic arguments are passed according to the integer calling
-//   convention.
+// - A struct of one or two floating-point members, or of one
+//   floating-point and one integer member, is passed member by member if
+//   there are registers left for all of them.
 //
-// - If all registers of an appropriate type are already used, push an
-//   argument to the stack in the right-to-left order.
-//   float -> integer -> stack
+// - Other structs of up to 16 bytes and long doubles take one or two
+//   integer registers, the rest goes to the stack.
+//   Larger structs are passed by reference.
 //
-// - Each argument passed on the stack takes 8 bytes, and the end of
-//   the argument area must be aligned to a 16 byte boundary.
+// - Variadic arguments are passed according to the integer calling
+//   convention, 16-byte aligned ones by an even-odd pair of registers.
 //
-// +---------------------------------------+
-// |       struct or union in stack        |
-// |---------------------------------------|<--- t1 <---+
-// |                  ...                  |            |
-// |      other args passed by stack       |            |
-// |                  ...                  |            |
-// |---------------------------------------|            |
-// | arg-pointers forwards struct or union |------------+
-// +---------------------------------------+ <--- sp
-static size_t push_args(struct Node *node)
+// - If all registers of an appropriate type are already used, an
+//   argument is passed by stack. float -> integer -> stack
+static struct ArgLoc *classify(struct CallConv *cc, struct Type *ty, bool variadic)
 {
-	size_t stack = 0, struct_stack = 0, g_arg = 0, f_arg = 0;
-	struct Type *cur_params = node->func_ty->params;
+	struct ArgLoc *loc = calloc(1, sizeof(struct ArgLoc));
+	int size = ty->size;
+	int align = ty->align;
 
-	// If the return type is a large struct/union, the caller passes
-	// a pointer to a buffer as if it were the first argument.
-	if (node->ret_buffer && node->ty->size > 2 * (int)sizeof(long))
-		g_arg++;
+	if (!variadic && (is_float_arg(ty) || ty->kind == TY_STRUCT) &&
+	    flatten(ty, 0, loc)) {
+		int f = 0, g = 0;
 
-	// Load as many arguments to the registers as possible.
-	for (struct Node *arg = node->args; arg; arg = arg->next) {
-		if (node->func_ty->is_variadic && cur_params == NULL) {
-			// this parameter is variadic
-			if (g_arg < MAX_ARG_REGS) {
-				g_arg++;
+		for (int i = 0; i < loc->n; i++)
+			if (loc->piece[i].cls == 'f')
+				f++;
+			else
+				g++;
 
-			} else {
-				arg->pass_by_stack = true;
-				stack++;
-			}
-			continue;
+		if (f && cc->f_arg + f <= MAX_ARG_REGS && cc->g_arg + g <= MAX_ARG_REGS) {
+			for (int i = 0; i < loc->n; i++)
+				loc->piece[i].idx = (loc->piece[i].cls == 'f') ?
+							cc->f_arg++ : cc->g_arg++;
+			return loc;
 		}
+	}
 
-		cur_params = cur_params->next;
+	if (is_struct_union(ty) && size > 2 * (int)sizeof(long)) {
+		loc->by_ref = true;
+		size = sizeof(long);
+		align = sizeof(long);
+	} else if (ty->kind == TY_ARRAY || ty->kind == TY_VLA || ty->kind == TY_FUNC) {
+		// converted to a pointer
+		size = sizeof(long);
+		align = sizeof(long);
+	}
 
-		if (is_struct_union(arg->ty)) {
-			check_struct_contain_float(arg->tok, arg->ty, g_arg);
-
-			int n = align_to(arg->ty->size, sizeof(long)) / sizeof(long);
-			if (n <= 2) {
-				// transmission struct by stack or register(s)
-				while (n--) {
-					if (g_arg < MAX_ARG_REGS)
-						g_arg++;
-					else
-						stack++;
-				}
-			} else {
-				// reserve stack space for the struct
-				struct_stack += n;
-				stack += n;
+	loc->n = align_to(size, sizeof(long)) / sizeof(long);
 
-				// push stack pointer
-				if (g_arg < MAX_ARG_REGS)
-					g_arg++;
-				else
-					stack++;
-			}
-			continue;
+	if (variadic && align > (int)sizeof(long) &&
+	    cc->g_arg < MAX_ARG_REGS && cc->g_arg % 2)
+		cc->g_arg++;
+
+	for (int i = 0; i < loc->n; i++) {
+		loc->piece[i].off = i * sizeof(long);
+		loc->piece[i].size = MIN((int)sizeof(long), size - loc->piece[i].off);
+
+		if (cc->g_arg < MAX_ARG_REGS) {
+			loc->piece[i].cls = 'x';
+			loc->piece[i].idx = cc->g_arg++;
+		} else {
+			if (!i && align > (int)sizeof(long))
+				cc->stack = align_to(cc->stack, 2);
+			loc->piece[i].cls = 's';
+			loc->piece[i].idx = cc->stack++;
 		}
+	}
+	return loc;
+}
+
+// Evaluate an argument, its stack pieces are stored to their slots
+// and the others are pushed.
+static void push_arg(struct Node *arg, int base)
+{
+	struct ArgLoc *loc = arg->loc;
+
+	gen_expr(arg);
+
+	if (loc->by_ref) {
+		add_imm("t1", "sp", (depth - base + loc->copy) * sizeof(long));
+		copy_bytes("t1", "a0", arg->ty->size);
+		// the address is taken when all arguments are evaluated
+		return;
+	}
 
-		if (is_float_arg(arg->ty) && (f_arg < MAX_ARG_REGS)) {
-			f_arg++;
+	for (int i = loc->n - 1; i >= 0; i--) {
+		const char *reg = "a0";
+
+		if (is_struct_union(arg->ty)) {
+			reg = (loc->piece[i].cls == 'f') ? "ft0" : "t0";
+			load_piece(reg, "a0", loc->piece[i].cls,
+				   loc->piece[i].off, loc->piece[i].size);
 
 		} else if (arg->ty->kind == TY_LDOUBLE) {
-			for (int i = 1; i <= 2; i++) {
-				if (g_arg < MAX_ARG_REGS)
-					g_arg++;
-				else
-					stack++;
-			}
+			println("\tfmv.x.d t0, fs%d", --ld_sp);
+			reg = "t0";
+
+		} else if (is_float_arg(arg->ty)) {
+			reg = "fa0";
+		}
 
-		} else if (g_arg < MAX_ARG_REGS) {
-			g_arg++;
+		if (loc->piece[i].cls == 's') {
+			int off = (depth - base + loc->piece[i].idx) * sizeof(long);
 
+			if (beyond_instruction_offset(off)) {
+				add_imm("t1", "sp", off);
+				println("\t%s %s, (t1)", reg[0] == 'f' ? "fsd" : "sd", reg);
+			} else {
+				println("\t%s %s, %d(sp)", reg[0] == 'f' ? "fsd" : "sd", reg, off);
+			}
 		} else {
-			arg->pass_by_stack = true;
-			stack++;
+			push(reg);
 		}
 	}
+}
 
-	if ((depth + stack) % 2 == 1) {
-		println("\taddi sp, sp, -8");
-		depth++;
-		stack++;
-	}
+static void push_arg_list(struct Node *arg, int base)
+{
+	if (!arg)
+		return;
 
-	// expand space for struct or union in stack
-	println("\tmv t1, sp");
-	println("\tadd sp, sp, -%ld", struct_stack * sizeof(long));
+	// in the right-to-left order
+	push_arg_list(arg->next, base);
+	push_arg(arg, base);
+}
 
-	// push stack arguments
-	push_args2(node->args, true);
-	// push register arguments
-	push_args2(node->args, false);
+// Evaluate the arguments of a function call, and return the number of
+// stack slots it takes.
+//
+// +---------------------------------------+
+// |   structs passed by reference         |
+// |---------------------------------------|
+// |   arguments passed by stack           |
+// |---------------------------------------| <--- sp at the call
+// |   arguments to be popped to registers |
+// +---------------------------------------+ <--- sp
+static int push_args(struct Node *node)
+{
+	struct CallConv cc = {};
+	struct Type *cur_params = node->func_ty->params;
 
 	// If the return type is a large struct/union, the caller passes
 	// a pointer to a buffer as if it were the first argument.
-	if (node->ret_buffer && node->ty->size > 2 * (int)sizeof(long)) {
-		println("\tadd a0, fp, %d", node->ret_buffer->offset);
-		push("a0");
+	if (node->ret_buffer && node->ty->size > 2 * (int)sizeof(long))
+		cc.g_arg++;
+
+	for (struct Node *arg = node->args; arg; arg = arg->next) {
+		arg->loc = classify(&cc, arg->ty,
+				    node->func_ty->is_variadic && !cur_params);
+		if (cur_params)
+			cur_params = cur_params->next;
 	}
 
+	int stack = cc.stack;
+
+	for (struct Node *arg = node->args; arg; arg = arg->next) {
+		if (arg->loc->by_ref) {
+			// keep the alignment the type may ask for
+			stack = align_to(stack, 2);
+			arg->loc->copy = stack;
+			stack += align_to(arg->ty->size, sizeof(long)) / sizeof(long);
+		}
+	}
+
+	// sp is 16-byte aligned at the call
+	if ((depth + stack) % 2)
+		stack++;
+
+	if (stack)
+		add_imm("sp", "sp", -stack * (int)sizeof(long));
+	depth += stack;
+
+	push_arg_list(node->args, depth);
 	return stack;
 }
 
-static void copy_ret_buffer(struct Obj *var)
+// Pop the arguments to the registers.
+static void pop_args(struct Node *node)
 {
-	struct Type *ty = var->ty;
-
-	debug("copy_ret_buffer size %d", ty->size);
+	for (struct Node *arg = node->args; arg; arg = arg->next) {
+		struct ArgLoc *loc = arg->loc;
 
-	for (int i = 0; i < MIN((int)sizeof(long), ty->size); i++) {
-		println("\tsb a0, %d(fp)", var->offset + i);
-		println("\tsrl a0, a0, 8");
+		for (int i = 0; i < loc->n && !loc->by_ref; i++) {
+			if (loc->piece[i].cls == 'x')
+				pop(argreg[loc->piece[i].idx]);
+			else if (loc->piece[i].cls == 'f')
+				pop(argflt[loc->piece[i].idx]);
+		}
 	}
 
-	if (ty->size > (int)sizeof(long)) {
-		for (int i = 8; i < MIN(16, ty->size); i++) {
-			println("\tsb a1, %d(fp)", var->offset + i);
-			println("\tsrl a1, a1, 8");
+	for (struct Node *arg = node->args; arg; arg = arg->next) {
+		struct ArgLoc *loc = arg->loc;
+
+		if (!loc->by_ref)
+			continue;
+
+		if (loc->piece[0].cls == 'x') {
+			add_imm(argreg[loc->piece[0].idx], "sp", loc->copy * sizeof(long));
+		} else {
+			add_imm("t1", "sp", loc->copy * sizeof(long));
+			add_imm("t3", "sp", loc->piece[0].idx * sizeof(long));
+			println("\tsd t1, (t3)");
 		}
 	}
 
+	// If the return type is a large struct/union, the caller passes
+	// a pointer to a buffer as if it were the first argument.
+	if (node->ret_buffer && node->ty->size > 2 * (int)sizeof(long))
+		add_imm("a0", "fp", node->ret_buffer->offset);
+}
+
+static void copy_ret_buffer(struct Obj *var)
+{
+	struct CallConv cc = {};
+	struct ArgLoc *loc = classify(&cc, var->ty, false);
+
+	debug("copy_ret_buffer size %d", var->ty->size);
+
+	for (int i = 0; i < loc->n; i++)
+		store_piece(loc->piece[i].cls == 'f' ? argflt[loc->piece[i].idx] :
+						       argreg[loc->piece[i].idx],
+			    loc->piece[i].cls, var->offset + loc->piece[i].off,
+			    loc->piece[i].size);
+
 	debug("copy_ret_buffer end");
 }
 
@@ -1400,72 +1503,7 @@ static void gen_expr(struct Node *node)
 		gen_expr(node->lhs);
 		println("\tmv t0, a0");
 
-		struct Type *cur_params = node->func_ty->params;
-		size_t g_arg = 0, f_arg = 0;
-
-		// If the return type is a large struct/union, the caller passes
-		// a pointer to a buffer as if it were the first argument.
-		if (node->ret_buffer && node->ty->size > (int)sizeof(long) * 2) {
-			debug("pop struct's pointer to a0");
-			pop(argreg[g_arg++]);
-		}
-
-		// then pop arguments from stack
-		for (struct Node *arg = node->args; arg; arg = arg->next) {
-			debug("%sarg %.*s",
-			      node->func_ty->is_variadic ? "variadic " : "",
-			      (int)arg->tok->len, arg->tok->loc);
-
-			// transfer args to variadic function with generic registers
-			if (node->func_ty->is_variadic && cur_params == NULL) {
-				if (g_arg < MAX_ARG_REGS) {
-					if (arg->ty->kind == TY_LDOUBLE) {
-						// In the context of variadic arguments,
-						// ld's first register must be even index,
-						// like a0, a2, a4, a6.
-						if (g_arg % 2 == 1)
-							g_arg++;
-
-						for (int i = 0; i < 2; i++) {
-							if (g_arg < MAX_ARG_REGS)
-								pop(argreg[g_arg++]);
-						}
-					} else {
-						pop(argreg[g_arg++]);
-					}
-
-				}
-				continue;
-			}
-
-			cur_params = cur_params->next;
-
-			if (is_struct_union(arg->ty)) {
-				int n = align_to(arg->ty->size, sizeof(long)) / sizeof(long);
-
-				// transmission by register(s) or stack
-				if (n <= 2) {
-					while (n--) {
-						if (g_arg >= MAX_ARG_REGS)
-							break;
-						pop(argreg[g_arg++]);
-					}
-					continue;
-				}
-			}
-
-			if (is_float_arg(arg->ty) && (f_arg < MAX_ARG_REGS))
-				pop(argflt[f_arg++]);
-
-			else if (arg->ty->kind == TY_LDOUBLE) {
-				for (int i = 0; i < 2; i++) {
-					if (g_arg < MAX_ARG_REGS)
-						pop(argreg[g_arg++]);
-				}
-
-			} else if (g_arg < MAX_ARG_REGS)
-				pop(argreg[g_arg++]);
-		}
+		pop_args(node);
 
 		// call function
 		println("\tjalr t0");
@@ -1474,7 +1512,7 @@ static void gen_expr(struct Node *node)
 			push_ld();
 
 		if (stack_args) {
-			println("\taddi sp, sp, %ld", stack_args * sizeof(long));
+			add_imm("sp", "sp", stack_args * sizeof(long));
 			depth -= stack_args;
 		}
 
@@ -1508,7 +1546,7 @@ static void gen_expr(struct Node *node)
 		if (node->ret_buffer && node->ty->size <= 2 * (int)sizeof(long)) {
 			copy_ret_buffer(node->ret_buffer);
 			debug("mv struct's pointer to a0");
-			println("\tadd a0, fp, %d", node->ret_buffer->offset);
+			add_imm("a0", "fp", node->ret_buffer->offset);
 		}
 
 		debug("end ND_FUNCALL");
@@ -1711,36 +1749,17 @@ static void gen_expr(struct Node *node)
 
 static void copy_struct_reg(void)
 {
-	int i, pos, sz;
-	struct Type *ty = current_fn->ty->return_ty;
+	struct CallConv cc = {};
+	struct ArgLoc *loc = classify(&cc, current_fn->ty->return_ty, false);
 
 	debug("copy_struct_reg");
 
 	println("\tmv t0, a0");
-	// load instruction(like lb, lh, lw) would clear invalid high bits
-	for (i = 0, pos = 0; pos < ty->size; i++, pos += sz) {
-		sz = MIN((int)sizeof(long), ty->size);
-
-		println("\tli a%d, 0", i);
-		switch (sz) {
-		case 1:
-			println("\tlb a%d, %d(t0)", i, pos);
-			break;
-
-		case 2:
-			println("\tlh a%d, %d(t0)", i, pos);
-			break;
-
-		case 3:
-		case 4:
-			println("\tlw a%d, %d(t0)", i, pos);
-			break;
-
-		default:
-			println("\tld a%d, %d(t0)", i, pos);
-			break;
-		}
-	}
+	for (int i = 0; i < loc->n; i++)
+		load_piece(loc->piece[i].cls == 'f' ? argflt[loc->piece[i].idx] :
+						      argreg[loc->piece[i].idx],
+			   "t0", loc->piece[i].cls, loc->piece[i].off,
+			   loc->piece[i].size);
 
 	debug("copy_struct_reg end");
 }
@@ -1753,12 +1772,9 @@ static void copy_struct_mem(void)
 	debug("copy_struct_mem");
 
 	debug("get struct's pointer passed by caller");
-	println("\tld a1, %d(fp)", var->offset);
-
-	for (int i = 0; i < ty->size; i++) {
-		println("\tlb t0, %d(a0)", i);
-		println("\tsb t0, %d(a1)", i);
-	}
+	add_imm("a1", "fp", var->offset);
+	println("\tld a1, (a1)");
+	copy_bytes("a1", "a0", ty->size);
 
 	debug("return struct's pointer by a0");
 	println("\tmv a0, a1");
@@ -1945,60 +1961,21 @@ static void assign_lvar_offsets(struct Obj *prog)
 		// +----------------+
 		int top = 16;
 
-		size_t g_arg = 0, f_arg = 0;
+		struct CallConv cc = {};
 		// initialize pass-by-stack parameters' offset
 		for (struct Obj *var = fn->params; var; var = var->next) {
-			if (is_struct_union(var->ty)) {
-				int sz = align_to(var->ty->size, sizeof(long));
-				int n = sz / sizeof(long);
-
-				if (n <= 2) {
-					if ((g_arg + n) <= MAX_ARG_REGS) {
-						g_arg += n;
-						continue;
-					} else if (g_arg + 1 == MAX_ARG_REGS) {
-						error_tok(var->ty->name_pos,
-							"Not support transmit struct parameter half by register and half by stack");
-					}
-				} else {
-					// Passed by caller stack, so just skip the register.
-					if (g_arg < MAX_ARG_REGS)
-						g_arg++;
-				}
-			} else if (is_float_arg(var->ty)) {
-				if (f_arg < MAX_ARG_REGS) {
-					f_arg++;
-					continue;
+			var->loc = classify(&cc, var->ty, false);
 
-				} else if (g_arg < MAX_ARG_REGS) {
-					g_arg++;
-					continue;
-				}
-			} else if (var->ty->kind == TY_LDOUBLE) {
-				if (g_arg + 2 <= MAX_ARG_REGS) {
-					g_arg += 2;
-					continue;
-				} else if (g_arg + 1 == MAX_ARG_REGS) {
-					error_tok(var->ty->name_pos, "Not support transmit half of long double by stack");
-				}
-			} else {
-				if (g_arg < MAX_ARG_REGS) {
-					g_arg++;
-					continue;
-				}
+			if (!var->loc->by_ref && var->loc->n &&
+			    var->loc->piece[0].cls == 's') {
+				var->offset = top + var->loc->piece[0].idx * sizeof(long);
+				debug("%s's parameter %s offset %d",
+					fn->name, var->name, var->offset);
 			}
-
-			top = align_to(top, sizeof(long));
-			var->offset = top;
-			debug("%s's parameter %s offset %d",
-				fn->name, var->name, var->offset);
-			top += var->ty->size;
 		}
 
-		if (fn->va_area) {
-			top = align_to(top, sizeof(long));
-			fn->va_area->offset = top;
-		}
+		if (fn->va_area)
+			fn->va_area->offset = top + cc.stack * sizeof(long);
 
 		// fs0-fs11 are saved right below fp
 		int bottom = 12 * sizeof(double);
@@ -2080,59 +2057,31 @@ static void emit_data(struct Obj *prog)
 	}
 }
 
-static void store_args(int r, int offset, int sz)
+// Save a parameter passed by registers or by reference into the stack
+static void store_param(struct Obj *var)
 {
-	const char *rs = "sp";
-
-	if (beyond_instruction_offset(offset)) {
-		println("\tli t0, %d", offset);
-		println("\tadd t0, sp, t0");
-		rs = "t0";
-		offset = 0;
-	}
-
-	switch (sz) {
-	case sizeof(char):
-		println("\tsb %s, %d(%s)", argreg[r], offset, rs);
-		break;
-
-	case sizeof(short):
-		println("\tsh %s, %d(%s)", argreg[r], offset, rs);
-		break;
-
-	case sizeof(int):
-		println("\tsw %s, %d(%s)", argreg[r], offset, rs);
-		break;
-
-	case sizeof(long):
-		println("\tsd %s, %d(%s)", argreg[r], offset, rs);
-		break;
-
-	default:
-		for (int i = 0; i < sz; i++) {
-			println("\tsb %s, %d(%s)", argreg[r], offset + i, rs);
-			println("\tsrli %s, %s, 8", argreg[r], argreg[r]);
+	struct ArgLoc *loc = var->loc;
+
+	for (int i = 0; i < loc->n; i++) {
+		char cls = loc->piece[i].cls;
+		const char *reg = "t1";
+
+		if (cls == 'x')
+			reg = argreg[loc->piece[i].idx];
+		else if (cls == 'f')
+			reg = argflt[loc->piece[i].idx];
+		else {
+			add_imm("t1", "fp", 16 + loc->piece[i].idx * sizeof(long));
+			println("\tld t1, (t1)");
 		}
-		break;
-	}
-}
-
-static void store_fltargs(size_t r, int offset, int sz)
-{
-	assert(r < MAX_ARG_REGS);
-
-	switch (sz) {
-	case sizeof(float):
-		println("\tfsw %s, %d(sp)", argflt[r], offset);
-		break;
 
-	case sizeof(double):
-		println("\tfsd %s, %d(sp)", argflt[r], offset);
-		break;
-
-	default:
-		unreachable();
-		break;
+		if (loc->by_ref) {
+			add_imm("t0", "fp", var->offset);
+			copy_bytes("t0", reg, var->ty->size);
+		} else {
+			store_piece(reg, cls, var->offset + loc->piece[i].off,
+				    loc->piece[i].size);
+		}
 	}
 }
 
@@ -2162,29 +2111,13 @@ static void emit_text(struct Obj *prog)
 
 		int va_size = 0;
 		if (fn->va_area) {
-			size_t va_gp = 0, va_fp = 0;
-
-			for (struct Obj *var = fn->params; var; var = var->next) {
-				// count all used registers by all type parameters
-				struct Type *ty = var->ty;
-
-				switch (ty->kind) {
-				case TY_STRUCT:
-				case TY_UNION:
-					error_tok(var->ty->name_pos,
-						 "Not support transmit struct or union parameter in variadic function");
-					break;
-
-				case TY_FLOAT:
-				case TY_DOUBLE:
-					va_fp < MAX_ARG_REGS ? va_fp++ : va_gp++;
-					break;
-
-				default:
-					va_gp++;
-					break;
-				}
-			}
+			size_t va_gp = 0;
+
+			// count all registers used by named parameters
+			for (struct Obj *var = fn->params; var; var = var->next)
+				for (int i = 0; i < var->loc->n; i++)
+					if (var->loc->piece[i].cls == 'x')
+						va_gp++;
 
 			// Expand the space only when variadic parameters
 			// are transmitted by registers.
@@ -2211,37 +2144,17 @@ static void emit_text(struct Obj *prog)
 		// Save passed-by-register arguments to the stack
 		debug("'%s' save args into stack", fn->name);
 
-		size_t g_arg = 0, f_arg = 0;
+		size_t g_arg = 0;
 		for (struct Obj *var = fn->params; var; var = var->next) {
-			// pass-by-stack parameters are already in stack now
-			if (var->offset > 0) {
-				if (g_arg < MAX_ARG_REGS) {
-					// Skip the argument register,
-					// only when struct's size > (2 * sizeof(long))
-					assert(is_struct_union(var->ty));
+			for (int i = 0; i < var->loc->n; i++)
+				if (var->loc->piece[i].cls == 'x')
 					g_arg++;
-				}
 
-			} else if (is_struct_union(var->ty)) {
-				store_args(g_arg++, var->offset,
-					   MIN(var->ty->size, (int)sizeof(long)));
-
-				if (var->ty->size > (int)sizeof(long))
-					store_args(g_arg++, var->offset + sizeof(long),
-							    var->ty->size - sizeof(long));
-
-			} else if (is_float_arg(var->ty) && (f_arg < MAX_ARG_REGS)) {
-				store_fltargs(f_arg++, var->offset, var->ty->size);
-
-			} else if (var->ty->kind == TY_LDOUBLE) {
-				if ((g_arg + 1) < MAX_ARG_REGS) {
-					store_args(g_arg++, var->offset, 8);
-					store_args(g_arg++, var->offset + 8, 8);
-				}
+			// pass-by-stack parameters are already in stack now
+			if (var->offset > 0)
+				continue;
 
-			} else if (g_arg < MAX_ARG_REGS) {
-				store_args(g_arg++, var->offset, var->ty->size);
-			}
+			store_param(var);
 		}
 
 		// Save arg registers if function is variadic
@@ -2254,7 +2167,7 @@ static void emit_text(struct Obj *prog)
 			debug("va_area->offset %d", fn->va_area->offset);
 
 			while (g_arg < MAX_ARG_REGS) {
-				store_args(g_arg++, off, sizeof(long));
+				store_piece(argreg[g_arg++], 'x', off, sizeof(long));
 				off += sizeof(long);
 			}
 
diff --git a/include/stdarg.h b/include/stdarg.h
index b68385e..77e2e44 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -10,10 +10,17 @@ do {				\
 
 #define va_end(ap)
 
-#define va_arg(ap, type)		\
-({					\
-	ap += sizeof(long);		\
-	*(type *)(ap - sizeof(long));	\
+// 16-byte aligned types are aligned in the argument area too, and structs
+// larger than 16 bytes are passed by reference.
+#define va_arg(ap, type)							\
+({										\
+	if (_Alignof(type) > sizeof(long) && sizeof(type) <= 2 * sizeof(long))	\
+		ap = (void *)(((unsigned long)ap + 15) & ~15UL);		\
+	ap += (sizeof(type) > 2 * sizeof(long)) ? sizeof(long) :		\
+	      (sizeof(type) + sizeof(long) - 1) / sizeof(long) * sizeof(long);	\
+	*(type *)((sizeof(type) > 2 * sizeof(long)) ?				\
+		  *(void **)(ap - sizeof(long)) :				\
+		  ap - (sizeof(type) + sizeof(long) - 1) / sizeof(long) * sizeof(long)); \
 })
 
 #define __GNUC_VA_LIST 1
diff --git a/toycc.h b/toycc.h
index 8bf53b8..0e0d245 100644
--- a/toycc.h
+++ b/toycc.h
@@ -194,6 +194,24 @@ enum NodeKind {
 };
 
 // AST node
+// Where the ABI places one argument, parameter or result
+struct ArgLoc {
+	// a struct larger than two registers is passed by reference
+	bool by_ref;
+	// place of its copy among the stack slots of the call
+	int copy;
+	// number of pieces
+	int n;
+	struct {
+		// x: integer register, f: float register, s: stack slot
+		char cls;
+		int idx;
+		// part of the object
+		int off;
+		int size;
+	} piece[2];
+};
+
 struct Node {
 	enum NodeKind kind;
 	struct Node *next;
@@ -224,7 +242,7 @@ struct Node {
 	// function call
 	struct Type *func_ty;
 	struct Node *args;
-	bool pass_by_stack;
+	struct ArgLoc *loc;
 	struct Obj *ret_buffer;
 
 	// Goto or labeled statement, or labels-as-values
@@ -295,6 +313,9 @@ struct Obj {
 	const char *init_data;
 	struct Relocation *rel;
 
+	// parameter
+	struct ArgLoc *loc;
+
 	// function
 	bool is_inline;
 	struct Obj *params;
-- 
2.43.0


From d234ce39c59ed18e824bcbe6128b725d280c9cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:01 +0000
Subject: [PATCH 23/77] fix: emit long double constants as binary128, round
 float and double literals once

---
 codegen.c  |  5 ++---
 tokenize.c |  2 ++
 toycc.h    |  2 ++
 utils.c    | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index 8c723aa..5a3fdc9 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1253,7 +1253,6 @@ static void gen_expr(struct Node *node)
 
 		// Notion: With x86_64's cross-compiler toolchain,
 		// there is a loss of accuracy (128 to 80 bits) here.
-		long double ld;
 		uint64_t u64x2[2];
 	} u;
 
@@ -1282,9 +1281,9 @@ static void gen_expr(struct Node *node)
 			return;
 
 		case TY_LDOUBLE:
-			u.ld = node->fval;
+			write_ldouble(u.u64x2, node->fval);
 			println("\tli a0, 0x%016lx  # long double %Lf",
-				u.u64x2[0], u.ld);
+				u.u64x2[0], node->fval);
 			println("\tli a1, 0x%016lx", u.u64x2[1]);
 			push_ld();
 			return;
diff --git a/tokenize.c b/tokenize.c
index 8f8ea23..f26aae9 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -520,6 +520,7 @@ static void convert_pp_number(struct Token *tok)
 	struct Type *ty;
 	if (*end == 'f' || *end == 'F') {
 		ty = p_ty_float();
+		val = strtof(tok->loc, NULL);
 		end++;
 
 	} else if (*end == 'l' || *end == 'L') {
@@ -529,6 +530,7 @@ static void convert_pp_number(struct Token *tok)
 	} else {
 		// implicit in default
 		ty = p_ty_double();
+		val = strtod(tok->loc, NULL);
 	}
 
 	if (tok->loc + tok->len != end)
diff --git a/toycc.h b/toycc.h
index 0e0d245..674ad2e 100644
--- a/toycc.h
+++ b/toycc.h
@@ -333,6 +333,7 @@ struct Obj {
 
 struct Node *new_cast(struct Node *expr, struct Type *ty);
 int64_t const_expr(struct Token **rest, struct Token *tok);
+int64_t directive_expr(struct Token **rest, struct Token *tok);
 struct Obj *parser(struct Token *tok);
 
 // codegen.c
@@ -350,6 +351,7 @@ void __attribute__((noreturn))
 error_tok(struct Token *tok, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
 void warn_tok(struct Token *tok, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
 int llog2(int num);
+void write_ldouble(uint64_t *buf, long double val);
 
 // unicode.c
 int encode_utf8(char *buf, uint32_t c);
diff --git a/utils.c b/utils.c
index 4188b7b..9872578 100644
--- a/utils.c
+++ b/utils.c
@@ -95,3 +95,51 @@ struct Token *skip(struct Token *tok, const char *s)
 		error_tok(tok, "expected '%s'", s);
 	return tok->next;
 }
+
+// Write VAL as the long double of the target, IEEE 754 binary128,
+// whatever the long double of the host is.
+void write_ldouble(uint64_t *buf, long double val)
+{
+	bool neg = val < 0 || (val == 0 && 1 / val < 0);
+	uint64_t hi = 0;
+	uint64_t lo = 0;
+	uint64_t exp = 0;
+
+	if (neg)
+		val = -val;
+
+	if (val != val) {
+		exp = 0x7fff;
+		hi = 1UL << 47;
+
+	} else if (val != 0 && val / 2 == val) {
+		// infinity
+		exp = 0x7fff;
+
+	} else if (val != 0) {
+		exp = 0x3fff;
+
+		while (val >= 2) {
+			val /= 2;
+			exp++;
+		}
+		while (val < 1 && exp > 1) {
+			val *= 2;
+			exp--;
+		}
+
+		if (val < 1)
+			exp = 0;
+		else
+			val -= 1;
+
+		val *= 281474976710656.0L; // 2 ** 48
+		hi = val;
+		val -= hi;
+		val *= 18446744073709551616.0L; // 2 ** 64
+		lo = val;
+	}
+
+	buf[0] = lo;
+	buf[1] = hi | exp << 48 | (uint64_t)neg << 63;
+}
-- 
2.43.0


From fc515ef3c762b394fe729eebced70142526df9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:09 +0000
Subject: [PATCH 24/77] fix: evaluate constant expressions in the types of
 their operands

---
 parser/common.c           | 303 ++++++++++++++++++++++++++++----------
 parser/parser.c           |   7 +
 parser/parser.h           |   4 +-
 preprocessor/preprocess.c |  17 ++-
 4 files changed, 254 insertions(+), 77 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index 9f91de0..4c51c3e 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -22,6 +22,8 @@ static int64_t eval_rval(struct Node *node, const char ***label)
 		case ND_VAR:
 			if (node->var->is_local)
 				error_tok(node->tok, "not a compile-time constant");
+			if (!label)
+				error_tok(node->tok, "not a compile-time constant");
 
 			// return variable name
 			*label = &node->var->name;
@@ -40,43 +42,147 @@ static int64_t eval_rval(struct Node *node, const char ***label)
 	}
 }
 
-// Evaluate a given node as a constant expression.
-// A constant expression is either just a number or ptr+n
-// where ptr is a pointer to a global variable and
-// n is a positive/negative number.
-// The latter form is accepted only as an initialization
-// expression for a global variable.
-int64_t eval2(struct Node *node, const char ***label)
+// The operands of an #if directive have 64 bits whatever their type is.
+static bool is_directive;
+
+// The value of a constant of type TY
+static int64_t wrap(struct Type *ty, int64_t val)
 {
-	add_type(node);
+	if (is_directive || !is_integer(ty))
+		return val;
 
-	if (is_float(node->ty))
-		return eval_double(node);
+	switch (ty->size) {
+	case 1:
+		return ty->is_unsigned ? (uint8_t)val : (int8_t)val;
+	case 2:
+		return ty->is_unsigned ? (uint16_t)val : (int16_t)val;
+	case 4:
+		if (ty->is_unsigned)
+			return (uint32_t)val;
+		else
+			return (int32_t)val;
+	default:
+		return val;
+	}
+}
+
+static int64_t eval_div(struct Node *node)
+{
+	int64_t lhs = eval(node->lhs);
+	int64_t rhs = eval(node->rhs);
+
+	if (!rhs)
+		error_tok(node->tok, "division by zero");
+
+	if (node->ty->is_unsigned) {
+		if (node->kind == ND_DIV)
+			return (uint64_t)lhs / (uint64_t)rhs;
+		return (uint64_t)lhs % (uint64_t)rhs;
+	}
+
+	// the quotient of the least integer and -1 may overflow
+	if (rhs == -1)
+		return node->kind == ND_DIV ? (int64_t)(0 - (uint64_t)lhs) : 0;
+
+	return node->kind == ND_DIV ? lhs / rhs : lhs % rhs;
+}
+
+static int64_t eval_shift(struct Node *node)
+{
+	int64_t lhs = eval(node->lhs);
+	int bits = (is_directive || node->ty->size == 8) ? 64 : 32;
+	int count = eval(node->rhs) & (bits - 1);
+
+	if (node->kind == ND_SHL)
+		return (uint64_t)lhs << count;
+	if (node->ty->is_unsigned)
+		return (uint64_t)lhs >> count;
+	return lhs >> count;
+}
+
+static bool eval_compare(struct Node *node)
+{
+	add_type(node->lhs);
+	add_type(node->rhs);
+
+	if (is_float(node->lhs->ty) || is_float(node->rhs->ty)) {
+		long double lhs = eval_double(node->lhs);
+		long double rhs = eval_double(node->rhs);
+
+		switch (node->kind) {
+		case ND_EQ:
+			return lhs == rhs;
+		case ND_NE:
+			return lhs != rhs;
+		case ND_LT:
+			return lhs < rhs;
+		default:
+			return lhs <= rhs;
+		}
+	}
 
-	int64_t val;
+	int64_t lhs = eval(node->lhs);
+	int64_t rhs = eval(node->rhs);
 
+	switch (node->kind) {
+	case ND_EQ:
+		return lhs == rhs;
+	case ND_NE:
+		return lhs != rhs;
+	case ND_LT:
+		if (node->lhs->ty->is_unsigned)
+			return (uint64_t)lhs < (uint64_t)rhs;
+		return lhs < rhs;
+	default:
+		if (node->lhs->ty->is_unsigned)
+			return (uint64_t)lhs <= (uint64_t)rhs;
+		return lhs <= rhs;
+	}
+}
+
+static int64_t eval_cast(struct Node *node, const char ***label)
+{
+	add_type(node->lhs);
+
+	if (node->ty->kind == TY_BOOL) {
+		if (is_float(node->lhs->ty) || !label)
+			return eval_bool(node->lhs);
+
+		// the address of an object is not null
+		const char **addr = NULL;
+		int64_t val = eval2(node->lhs, &addr);
+		return addr || val;
+	}
+
+	if (is_float(node->lhs->ty)) {
+		long double val = eval_double(node->lhs);
+
+		if (node->ty->is_unsigned && node->ty->size == 8 && val > 0)
+			return (uint64_t)val;
+		return (int64_t)val;
+	}
+
+	return eval2(node->lhs, label);
+}
+
+static int64_t eval_node(struct Node *node, const char ***label)
+{
 	switch (node->kind) {
 	case ND_ADD:
-		return eval2(node->lhs, label) + eval(node->rhs);
+		return (uint64_t)eval2(node->lhs, label) + (uint64_t)eval(node->rhs);
 
 	case ND_SUB:
-		return eval2(node->lhs, label) - eval(node->rhs);
+		return (uint64_t)eval2(node->lhs, label) - (uint64_t)eval(node->rhs);
 
 	case ND_MUL:
-		return eval(node->lhs) * eval(node->rhs);
+		return (uint64_t)eval(node->lhs) * (uint64_t)eval(node->rhs);
 
 	case ND_DIV:
-		if (node->ty->is_unsigned)
-			return (uint64_t)eval(node->lhs) / eval(node->rhs);
-		return eval(node->lhs) / eval(node->rhs);
+	case ND_MOD:
+		return eval_div(node);
 
 	case ND_NEG:
-		return -eval(node->lhs);
-
-	case ND_MOD:
-		if (node->ty->is_unsigned)
-			return (uint64_t)eval(node->lhs) % eval(node->rhs);
-		return eval(node->lhs) % eval(node->rhs);
+		return 0 - (uint64_t)eval(node->lhs);
 
 	case ND_BITAND:
 		return eval(node->lhs) & eval(node->rhs);
@@ -88,73 +194,44 @@ int64_t eval2(struct Node *node, const char ***label)
 		return eval(node->lhs) ^ eval(node->rhs);
 
 	case ND_SHL:
-		return eval(node->lhs) << eval(node->rhs);
-
 	case ND_SHR:
-		if (node->ty->is_unsigned && node->ty->size == 8)
-			return (uint64_t)eval(node->lhs) >> eval(node->rhs);
-		return eval(node->lhs) >> eval(node->rhs);
+		return eval_shift(node);
 
 	case ND_EQ:
-		return eval(node->lhs) == eval(node->rhs);
-
 	case ND_NE:
-		return eval(node->lhs) != eval(node->rhs);
-
 	case ND_LT:
-		if (node->lhs->ty->is_unsigned)
-			return (uint64_t)eval(node->lhs) < (uint64_t)eval(node->rhs);
-		return eval(node->lhs) < eval(node->rhs);
-
 	case ND_LE:
-		if (node->lhs->ty->is_unsigned)
-			return (uint64_t)eval(node->lhs) <= (uint64_t)eval(node->rhs);
-		return eval(node->lhs) <= eval(node->rhs);
+		return eval_compare(node);
 
 	case ND_COND:
-		return eval(node->cond) ?
+		return eval_bool(node->cond) ?
 		       eval2(node->then, label) : eval2(node->els, label);
 
 	case ND_COMMA:
 		return eval2(node->rhs, label);
 
 	case ND_NOT:
-		return !eval(node->lhs);
+		return !eval_bool(node->lhs);
 
 	case ND_BITNOT:
 		return ~eval(node->lhs);
 
 	case ND_LOGAND:
-		return eval(node->lhs) && eval(node->rhs);
+		return eval_bool(node->lhs) && eval_bool(node->rhs);
 
 	case ND_LOGOR:
-		return eval(node->lhs) || eval(node->rhs);
+		return eval_bool(node->lhs) || eval_bool(node->rhs);
 
 	case ND_CAST:
-		val = eval2(node->lhs, label);
-
-		if (is_integer(node->ty)) {
-			switch (node->ty->size) {
-			case 1:
-				return node->ty->is_unsigned ? (uint8_t)val : (int8_t)val;
-			case 2:
-				return node->ty->is_unsigned ? (uint16_t)val : (int16_t)val;
-			case 4:
-				if (node->ty->is_unsigned)
-					return (uint32_t)val;
-				else
-					return (int32_t)val;
-			default:
-				break;
-			}
-		}
-		return val;
+		return eval_cast(node, label);
 
 	case ND_ADDR:
 		// return label
 		return eval_rval(node->lhs, label);
 
 	case ND_LABEL_VAL:
+		if (!label)
+			error_tok(node->tok, "not a compile-time constant");
 		*label = &node->unique_label;
 		return 0;
 
@@ -185,53 +262,129 @@ int64_t eval2(struct Node *node, const char ***label)
 	}
 }
 
+// Evaluate a given node as a constant expression.
+// A constant expression is either just a number or ptr+n
+// where ptr is a pointer to a global variable and
+// n is a positive/negative number.
+// The latter form is accepted only as an initialization
+// expression for a global variable.
+int64_t eval2(struct Node *node, const char ***label)
+{
+	add_type(node);
+
+	if (is_float(node->ty))
+		return eval_double(node);
+
+	int64_t val = eval_node(node, label);
+
+	if (label && *label)
+		return val;
+	return wrap(node->ty, val);
+}
+
 // Evaluate a given node as a constant expression.
 int64_t eval(struct Node *node)
 {
 	return eval2(node, NULL);
 }
 
-double eval_double(struct Node *node)
+// Evaluate a given node as a condition.
+bool eval_bool(struct Node *node)
+{
+	add_type(node);
+
+	if (is_float(node->ty))
+		return eval_double(node) != 0;
+	return eval(node) != 0;
+}
+
+// Evaluate the constant expression of an #if directive.
+int64_t eval_directive(struct Node *node)
+{
+	is_directive = true;
+	int64_t val = eval(node);
+	is_directive = false;
+	return val;
+}
+
+static long double round_to(struct Type *ty, long double val)
+{
+	if (ty->kind == TY_FLOAT)
+		return (float)val;
+	if (ty->kind == TY_DOUBLE)
+		return (double)val;
+	return val;
+}
+
+// Calculate in the type of the node, so that the result is rounded once.
+static long double eval_arith(struct Node *node)
+{
+	long double lhs = eval_double(node->lhs);
+	long double rhs = eval_double(node->rhs);
+
+	if (node->ty->kind == TY_LDOUBLE) {
+		switch (node->kind) {
+		case ND_ADD:
+			return lhs + rhs;
+		case ND_SUB:
+			return lhs - rhs;
+		case ND_MUL:
+			return lhs * rhs;
+		default:
+			return lhs / rhs;
+		}
+	}
+
+	double l = lhs;
+	double r = rhs;
+
+	// The result of one operation on floats, calculated as a double,
+	// may be rounded again without a loss.
+	switch (node->kind) {
+	case ND_ADD:
+		return round_to(node->ty, l + r);
+	case ND_SUB:
+		return round_to(node->ty, l - r);
+	case ND_MUL:
+		return round_to(node->ty, l * r);
+	default:
+		return round_to(node->ty, l / r);
+	}
+}
+
+long double eval_double(struct Node *node)
 {
 	add_type(node);
 
 	if (is_integer(node->ty)) {
 		if (node->ty->is_unsigned)
-			return (unsigned long)eval(node);
+			return (uint64_t)eval(node);
 
 		return eval(node);
 	}
 
 	switch (node->kind) {
 	case ND_ADD:
-		return eval_double(node->lhs) + eval_double(node->rhs);
-
 	case ND_SUB:
-		return eval_double(node->lhs) - eval_double(node->rhs);
-
 	case ND_MUL:
-		return eval_double(node->lhs) * eval_double(node->rhs);
-
 	case ND_DIV:
-		return eval_double(node->lhs) / eval_double(node->rhs);
+		return eval_arith(node);
 
 	case ND_NEG:
 		return -eval_double(node->lhs);
 
 	case ND_COND:
-		return eval_double(node->cond) ?
+		return eval_bool(node->cond) ?
 			eval_double(node->then) : eval_double(node->els);
 
 	case ND_COMMA:
 		return eval_double(node->rhs);
 
 	case ND_CAST:
-		if (is_float(node->lhs->ty))
-			return eval_double(node->lhs);
-		return eval(node->lhs);
+		return round_to(node->ty, eval_double(node->lhs));
 
 	case ND_NUM:
-		return node->fval;
+		return round_to(node->ty, node->fval);
 
 	default:
 		break;
diff --git a/parser/parser.c b/parser/parser.c
index 1caebc5..64507ef 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1057,6 +1057,13 @@ int64_t const_expr(struct Token **rest, struct Token *tok)
 	return eval(n);
 }
 
+// The constant expression of an #if directive
+int64_t directive_expr(struct Token **rest, struct Token *tok)
+{
+	struct Node *n = conditional(rest, tok);
+	return eval_directive(n);
+}
+
 // assign    = conditional (assign-op assign)?
 // assign-op = "=" | "+=" | "-=" | "*=" | "/=" | "%="
 //	     | "&=" | "|=" | "^=" | "<<=" | ">>="
diff --git a/parser/parser.h b/parser/parser.h
index 5463b7a..33bc24f 100644
--- a/parser/parser.h
+++ b/parser/parser.h
@@ -8,7 +8,9 @@ bool consume_end(struct Token **rest, struct Token *tok);
 
 int64_t eval(struct Node *node);
 int64_t eval2(struct Node *node, const char ***label);
-double eval_double(struct Node *node);
+bool eval_bool(struct Node *node);
+int64_t eval_directive(struct Node *node);
+long double eval_double(struct Node *node);
 
 struct Node *new_node(enum NodeKind kind, struct Token *tok);
 struct Node *new_num(int64_t val, struct Token *tok);
diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index ebad4a3..03df164 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -169,6 +169,15 @@ static struct Token *read_const_expr(struct Token **rest,
 	return head.next;
 }
 
+// Whether a number in an #if directive has an unsigned type
+static bool is_unsigned_num(struct Token *tok)
+{
+	if (!isdigit(*tok->loc) || (tok->ty->is_unsigned && tok->ty->size == 8))
+		return tok->ty->is_unsigned;
+
+	return memchr(tok->loc, 'u', tok->len) || memchr(tok->loc, 'U', tok->len);
+}
+
 static struct Token *preprocess2(struct Token *tok);
 // Read and evaluate a constant expression.
 static long eval_const_expr(struct Token **rest, struct Token *tok)
@@ -197,8 +206,14 @@ static long eval_const_expr(struct Token **rest, struct Token *tok)
 	// Convert pp-numbers to regular numbers
 	convert_pp_tokens(expr);
 
+	// All integers have the types intmax_t and uintmax_t
+	for (struct Token *t = expr; t->kind != TK_EOF; t = t->next) {
+		if (t->kind == TK_NUM && is_integer(t->ty))
+			t->ty = is_unsigned_num(t) ? p_ty_ulong() : p_ty_long();
+	}
+
 	struct Token *rest2;
-	long val = const_expr(&rest2, expr);
+	long val = directive_expr(&rest2, expr);
 
 	if (rest2->kind != TK_EOF)
 		error_tok(rest2, "extra token");
-- 
2.43.0


From 41820a10f003b82e00b58659d15792373be05bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:09 +0000
Subject: [PATCH 25/77] fix: alignment of packed structs and unnamed bit-fields

---
 parser/declarator.c | 16 +++++++++++-----
 parser/parser.c     |  4 ++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 46f0d72..5ab2336 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -206,13 +206,16 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 				bits += mem->bit_width;
 			}
 		} else {
-			if (!ty->is_packed)
-				bits = align_to(bits, mem->align * 8);
+			// a member starts at a byte, even behind a bit-field
+			bits = align_to(bits, ty->is_packed ? 8 : mem->align * 8);
 			mem->offset = bits / 8;
 			bits += mem->ty->size * 8;
 		}
 
-		// align of struct is max among each member's alignment
+		// align of struct is max among each member's alignment,
+		// unnamed bit-fields do not count
+		if (mem->is_bitfield && !mem->name)
+			continue;
 		if (!ty->is_packed && ty->align < mem->align)
 			ty->align = mem->align;
 	}
@@ -234,7 +237,9 @@ static struct Type *union_decl(struct Token **rest, struct Token *tok)
 	// are already initialized to 0.
 	// We need to compute the alignment and the size though.
 	for (struct Member *mem = ty->members; mem; mem = mem->next) {
-		if (ty->align < mem->align)
+		if (mem->is_bitfield && !mem->name)
+			continue;
+		if (!ty->is_packed && ty->align < mem->align)
 			ty->align = mem->align;
 		if (ty->size < mem->ty->size)
 			ty->size = mem->ty->size;
@@ -726,6 +731,7 @@ static bool is_const_expr(struct Node *node)
 	case ND_SUB:
 	case ND_MUL:
 	case ND_DIV:
+	case ND_MOD:
 	case ND_BITAND:
 	case ND_BITOR:
 	case ND_BITXOR:
@@ -743,7 +749,7 @@ static bool is_const_expr(struct Node *node)
 		if (!is_const_expr(node->cond))
 			return false;
 
-		return is_const_expr(eval(node->cond) ? node->then : node->els);
+		return is_const_expr(eval_bool(node->cond) ? node->then : node->els);
 
 	case ND_COMMA:
 		return is_const_expr(node->rhs);
diff --git a/parser/parser.c b/parser/parser.c
index 64507ef..de0a2ca 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -314,6 +314,10 @@ struct Member *get_struct_member(struct Type *ty, struct Token *tok)
 			continue;
 		}
 
+		// Unnamed bit-field
+		if (!mem->name)
+			continue;
+
 		// Regular struct member
 		if (mem->name->len == tok->len &&
 		   !strncmp(mem->name->loc, tok->loc, tok->len))
-- 
2.43.0


From e86e7df0de4b4926ff6c5bd99a40fb0e4d06b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:09 +0000
Subject: [PATCH 26/77] fix: union, bit-field, _Bool and long double
 initializers

---
 parser/initializer.c | 145 ++++++++++++++++++++++++++++++-------------
 1 file changed, 102 insertions(+), 43 deletions(-)

diff --git a/parser/initializer.c b/parser/initializer.c
index b3c72d7..da45337 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -150,8 +150,8 @@ static struct Member *struct_designator(struct Token **rest,
 		error_tok(tok, "expected a field designator");
 
 	for (struct Member *mem = ty->members; mem; mem = mem->next) {
-		// Anonymous struct member
-		if (mem->ty->kind == TY_STRUCT && !mem->name) {
+		// Anonymous struct or union member
+		if (is_struct_union(mem->ty) && !mem->name) {
 			// search the member's children
 			if (get_struct_member(mem->ty, tok)) {
 				*rest = start;
@@ -161,6 +161,10 @@ static struct Member *struct_designator(struct Token **rest,
 			continue;
 		}
 
+		// Unnamed bit-field
+		if (!mem->name)
+			continue;
+
 		// Regular struct member
 		if (mem->name->len == tok->len &&
 		   !strncmp(mem->name->loc, tok->loc, tok->len)) {
@@ -335,6 +339,14 @@ static void array_initializer2(struct Token **rest, struct Token *tok,
 	*rest = tok;
 }
 
+// Unnamed bit-fields are not initialized.
+static struct Member *skip_unnamed(struct Member *mem)
+{
+	while (mem && mem->is_bitfield && !mem->name)
+		mem = mem->next;
+	return mem;
+}
+
 // struct-initializer1 = "{" initializer ("," initializer)* ","? "}"
 static void struct_initializer1(struct Token **rest, struct Token *tok,
 				struct Initializer *init)
@@ -356,6 +368,7 @@ static void struct_initializer1(struct Token **rest, struct Token *tok,
 			continue;
 		}
 
+		mem = skip_unnamed(mem);
 		if (mem) {
 			initializer2(&tok, tok, init->children[mem->idx]);
 			mem = mem->next;
@@ -372,7 +385,7 @@ static void struct_initializer2(struct Token **rest, struct Token *tok,
 {
 	bool first = true;
 
-	for (; mem && !is_end(tok); mem = mem->next) {
+	for (mem = skip_unnamed(mem); mem && !is_end(tok); mem = skip_unnamed(mem->next)) {
 		struct Token *start = tok;
 
 		if (!first)
@@ -398,30 +411,31 @@ static void struct_initializer2(struct Token **rest, struct Token *tok,
 static void union_initializer(struct Token **rest, struct Token *tok,
 			      struct Initializer *init)
 {
-	bool parentheses = equal(tok, "{");
-
-	if (parentheses && equal(tok->next, ".")) {
-		struct Member *mem = struct_designator(&tok, tok->next, init->ty);
-		init->mem = mem;
+	// set initializer's first member in default
+	init->mem = skip_unnamed(init->ty->members);
 
-		designation(&tok, tok, init->children[mem->idx]);
-		*rest = skip(tok, "}");
+	if (!equal(tok, "{")) {
+		initializer2(rest, tok, init->children[init->mem->idx]);
 		return;
 	}
 
-	// set initializer's first member in default
-	init->mem = init->ty->members;
-
-	if (parentheses)
-		tok = tok->next;
+	tok = tok->next;
+	bool first = true;
 
-	initializer2(&tok, tok, init->children[0]);
+	while (!consume_end(rest, tok)) {
+		if (!first)
+			tok = skip(tok, ",");
 
-	if (parentheses) {
-		consume(&tok, tok, ",");
-		*rest = skip(tok, "}");
-	} else {
-		*rest = tok;
+		if (equal(tok, ".")) {
+			init->mem = struct_designator(&tok, tok, init->ty);
+			designation(&tok, tok, init->children[init->mem->idx]);
+		} else if (first && init->mem) {
+			initializer2(&tok, tok, init->children[init->mem->idx]);
+		} else {
+			// ignore excess elements
+			tok = skip_excess_element(tok);
+		}
+		first = false;
 	}
 }
 
@@ -436,6 +450,14 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		return;
 	}
 
+	// A string literal for an array can be surrounded by braces.
+	if (init->ty->kind == TY_ARRAY && is_integer(init->ty->base) &&
+	    equal(tok, "{") && tok->next->kind == TK_STR && is_end(tok->next->next)) {
+		string_initializer(&tok, tok->next, init);
+		consume_end(rest, tok);
+		return;
+	}
+
 	if (init->ty->kind == TY_ARRAY) {
 		if (equal(tok, "{"))
 			array_initializer1(rest, tok, init);
@@ -465,6 +487,16 @@ static void initializer2(struct Token **rest, struct Token *tok,
 	}
 
 	if (init->ty->kind == TY_UNION) {
+		if (!equal(tok, "{")) {
+			// A union can be initialized with another union, too.
+			struct Node *expr = assign(rest, tok);
+			add_type(expr);
+			if (expr->ty->kind == TY_UNION) {
+				init->expr = expr;
+				return;
+			}
+		}
+
 		union_initializer(rest, tok, init);
 		return;
 	}
@@ -574,7 +606,7 @@ static struct Node *create_lvar_init(struct Initializer *init, struct Type *ty,
 		return node;
 	}
 
-	if (ty->kind == TY_UNION) {
+	if (ty->kind == TY_UNION && !init->expr) {
 		// set initializer's first member in default
 		struct Member *mem = init->mem ? init->mem : ty->members;
 		struct InitDesg desg2 = { desg, 0, mem, NULL };
@@ -646,6 +678,33 @@ static uint64_t read_buf(const char *buf, int sz)
 	unreachable();
 }
 
+static struct Relocation *write_gvar_data(struct Relocation *cur,
+					  struct Initializer *init,
+					  struct Type *ty, char *buf,
+					  int offset);
+
+static struct Relocation *write_gvar_member(struct Relocation *cur,
+					    struct Initializer *init,
+					    struct Member *mem, char *buf,
+					    int offset)
+{
+	if (!mem->is_bitfield)
+		return write_gvar_data(cur, init, mem->ty, buf, offset + mem->offset);
+
+	if (!init->expr)
+		return cur;
+
+	char *loc = buf + offset + mem->offset;
+
+	uint64_t oldval = read_buf(loc, mem->ty->size);
+	uint64_t newval = eval(new_cast(init->expr, mem->ty));
+	uint64_t mask = bitfield_mask(mem);
+	uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
+
+	write_buf(loc, combined, mem->ty->size);
+	return cur;
+}
+
 static struct Relocation *write_gvar_data(struct Relocation *cur,
 					  struct Initializer *init,
 					  struct Type *ty, char *buf,
@@ -661,23 +720,8 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 
 	if (ty->kind == TY_STRUCT) {
 		for (struct Member *mem = ty->members; mem; mem = mem->next) {
-			if (mem->is_bitfield) {
-				struct Node *expr = init->children[mem->idx]->expr;
-				if (!expr)
-					break;
-
-				char *loc = buf + offset + mem->offset;
-
-				uint64_t oldval = read_buf(loc, mem->ty->size);
-				uint64_t newval = eval(expr);
-				uint64_t mask = bitfield_mask(mem);
-				uint64_t combined = oldval | ((newval & mask) << mem->bit_offset);
-
-				write_buf(loc, combined, mem->ty->size);
-			} else {
-				cur = write_gvar_data(cur, init->children[mem->idx],
-						mem->ty, buf, offset + mem->offset);
-			}
+			cur = write_gvar_member(cur, init->children[mem->idx],
+						mem, buf, offset);
 		}
 		return cur;
 	}
@@ -686,8 +730,8 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		// no handle and just leave it to caller
 		if (!init->mem)
 			return cur;
-		return write_gvar_data(cur, init->children[init->mem->idx],
-					init->mem->ty, buf, offset);
+		return write_gvar_member(cur, init->children[init->mem->idx],
+					init->mem, buf, offset);
 	}
 
 	if (!init->expr)
@@ -703,14 +747,29 @@ static struct Relocation *write_gvar_data(struct Relocation *cur,
 		return cur;
 	}
 
+	if (ty->kind == TY_LDOUBLE) {
+		write_ldouble((uint64_t *)(buf + offset), eval_double(init->expr));
+		return cur;
+	}
+
 	const char **label = NULL;
-	uint64_t val = eval2(init->expr, &label);
+	struct Node *expr = init->expr;
+
+	// convert to the type of the object
+	add_type(expr);
+	if (is_float(expr->ty) || ty->kind == TY_BOOL)
+		expr = new_cast(expr, ty);
+
+	uint64_t val = eval2(expr, &label);
 
 	if (!label) {
 		write_buf(buf + offset, val, ty->size);
 		return cur;
 	}
 
+	if (ty->size != 8)
+		error_tok(expr->tok, "not a compile-time constant");
+
 	struct Relocation *rel = calloc(1, sizeof(struct Relocation));
 	rel->offset = offset;
 	rel->label = label;
@@ -729,7 +788,7 @@ void gvar_initializer(struct Token **rest, struct Token *tok,
 {
 	struct Initializer *init = initializer(rest, tok, var->ty, &var->ty);
 	struct Relocation head = {};
-	char *buf = malloc(var->ty->size);
+	char *buf = calloc(1, var->ty->size);
 
 	write_gvar_data(&head, init, var->ty, buf, 0);
 	var->init_data = buf;
-- 
2.43.0


From d388ced44a979db8d5bd23f0860844ed70ea8965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:21 +0000
Subject: [PATCH 27/77] fix: conditional operator on small aggregates, null
 pointers and void pointers

---
 type.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index d4a5d6a..c0accd8 100644
--- a/type.c
+++ b/type.c
@@ -353,6 +353,35 @@ static void usual_arith_conv(struct Node **lhs, struct Node **rhs)
 	*rhs = new_cast(*rhs, ty);
 }
 
+static bool is_null_pointer(struct Node *node)
+{
+	if (node->kind == ND_CAST && node->ty->base &&
+	    node->ty->base->kind == TY_VOID)
+		node = node->lhs;
+
+	return node->kind == ND_NUM && is_integer(node->ty) && node->val == 0;
+}
+
+// Conversions of the second and the third operand of ?:. Pointers to
+// different types become the type of the one that is not a null pointer
+// constant, or a pointer to void.
+static void cond_conv(struct Node **then, struct Node **els)
+{
+	struct Type *ty1 = (*then)->ty;
+	struct Type *ty2 = (*els)->ty;
+
+	if (ty1->base && ty2->base &&
+	    (is_null_pointer(*then) ||
+	     (ty2->base->kind == TY_VOID && !is_null_pointer(*els)))) {
+		struct Type *ty = pointer_to(ty2->base);
+
+		*then = new_cast(*then, ty);
+		*els = new_cast(*els, ty);
+		return;
+	}
+
+	usual_arith_conv(then, els);
+}
 
 void add_type(struct Node *node)
 {
@@ -433,8 +462,10 @@ void add_type(struct Node *node)
 	case ND_COND:
 		if (node->then->ty->kind == TY_VOID || node->els->ty->kind == TY_VOID) {
 			node->ty = p_ty_void();
+		} else if (is_struct_union(node->then->ty)) {
+			node->ty = node->then->ty;
 		} else {
-			usual_arith_conv(&node->then, &node->els);
+			cond_conv(&node->then, &node->els);
 			node->ty = node->then->ty;
 		}
 		break;
-- 
2.43.0


From 07be971c72f4822ff26bc1e55e3d3ff4b92b86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:59 +0000
Subject: [PATCH 28/77] fix: address thread-local variables relative to tp at
 any offset

---
 codegen.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codegen.c b/codegen.c
index 5a3fdc9..56c7d04 100644
--- a/codegen.c
+++ b/codegen.c
@@ -279,9 +279,10 @@ static void gen_addr(struct Node *node)
 		// Thread-local variable
 		if (node->var->is_tls) {
 			// HI20
-			println("\tauipc a0, %%tprel_hi(%s)", node->var->name);
+			println("\tlui a0, %%tprel_hi(%s)", node->var->name);
+			println("\tadd a0, a0, tp, %%tprel_add(%s)", node->var->name);
 			// LO12
-			println("\tadd a0, a0, %%tprel_lo(%s)", node->var->name);
+			println("\taddi a0, a0, %%tprel_lo(%s)", node->var->name);
 			return;
 		}
 
-- 
2.43.0


From 0dc1ec7d1a3498e48f143a3c1de9f96bf58f877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:59 +0000
Subject: [PATCH 29/77] fix: accept postfix operators after a compound literal

---
 parser/parser.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index de0a2ca..5ecd07c 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -556,6 +556,8 @@ static struct Node *new_inc_dec(struct Node *node, struct Token *tok, int addend
 //              | "--"
 static struct Node *postfix(struct Token **rest, struct Token *tok)
 {
+	struct Node *node;
+
 	if (equal(tok, "(") && is_typename(tok->next)) {
 		// Compound literal
 		struct Token *start = tok;
@@ -565,19 +567,19 @@ static struct Node *postfix(struct Token **rest, struct Token *tok)
 		if (is_global_scope()) {
 			// never enter scope, so allocate global var
 			struct Obj *var = new_anon_gvar(ty);
-			gvar_initializer(rest, tok, var);
-			return new_var_node(var, start);
+			gvar_initializer(&tok, tok, var);
+			node = new_var_node(var, start);
+		} else {
+			struct Obj *var = new_lvar("", ty);
+			struct Node *lhs = lvar_initializer(&tok, tok, var);
+			// refer to var self under dereference case
+			struct Node *rhs = new_var_node(var, start);
+			node = new_binary(ND_COMMA, lhs, rhs, start);
 		}
-
-		struct Obj *var = new_lvar("", ty);
-		struct Node *lhs = lvar_initializer(rest, tok, var);
-		// refer to var self under dereference case
-		struct Node *rhs = new_var_node(var, tok);
-		return new_binary(ND_COMMA, lhs, rhs, start);
+	} else {
+		node = primary(&tok, tok);
 	}
 
-	struct Node *node = primary(&tok, tok);
-
 	while (1) {
 		if (equal(tok, "(")) {
 			node = funcall(&tok, tok->next, node);
-- 
2.43.0


From d05f2511e3888497cd43f61eddd80d60d7c33f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:59 +0000
Subject: [PATCH 30/77] fix: excess, overriding and string initializers,
 addresses of array elements

---
 parser/common.c      |  7 +++++
 parser/initializer.c | 71 +++++++++++++++++++++++++++++++++++++-------
 2 files changed, 68 insertions(+), 10 deletions(-)

diff --git a/parser/common.c b/parser/common.c
index 4c51c3e..52da369 100644
--- a/parser/common.c
+++ b/parser/common.c
@@ -225,6 +225,13 @@ static int64_t eval_node(struct Node *node, const char ***label)
 	case ND_CAST:
 		return eval_cast(node, label);
 
+	case ND_DEREF:
+		if (node->ty->kind != TY_ARRAY)
+			error_tok(node->tok, "not a compile-time constant");
+
+		// return address
+		return eval2(node->lhs, label);
+
 	case ND_ADDR:
 		// return label
 		return eval_rval(node->lhs, label);
diff --git a/parser/initializer.c b/parser/initializer.c
index da45337..8c1fcd5 100644
--- a/parser/initializer.c
+++ b/parser/initializer.c
@@ -45,11 +45,39 @@ static struct Initializer *new_initializer(struct Type *ty, bool is_flexible)
 	return init;
 }
 
+// An initializer for a member of a union overrides what has been given
+// to its other members.
+static void reset_initializer(struct Initializer *init)
+{
+	init->expr = NULL;
+	init->mem = NULL;
+
+	if (!init->children)
+		return;
+
+	if (init->ty->kind == TY_ARRAY) {
+		for (int i = 0; i < init->ty->array_len; i++)
+			reset_initializer(init->children[i]);
+		return;
+	}
+
+	for (struct Member *mem = init->ty->members; mem; mem = mem->next)
+		reset_initializer(init->children[mem->idx]);
+}
+
 static struct Token *skip_excess_element(struct Token *tok)
 {
 	if (equal(tok, "{")) {
-		tok = skip_excess_element(tok->next);
-		return skip(tok, "}");
+		bool first = true;
+
+		tok = tok->next;
+		while (!consume_end(&tok, tok)) {
+			if (!first)
+				tok = skip(tok, ",");
+			first = false;
+			tok = skip_excess_element(tok);
+		}
+		return tok;
 	}
 
 	assign(&tok, tok);
@@ -122,7 +150,7 @@ static void array_designator(struct Token **rest, struct Token *tok,
 			     struct Type *ty, int *begin, int *end)
 {
 	*begin = const_expr(&tok, tok->next);
-	if (*begin >= ty->array_len)
+	if (*begin < 0 || *begin >= ty->array_len)
 		error_tok(tok, "array designator index exceeds array bounds");
 
 	if (equal(tok, "...")) {
@@ -205,8 +233,8 @@ static void designation(struct Token **rest, struct Token *tok, struct Initializ
 	if (equal(tok, ".") && init->ty->kind == TY_STRUCT) {
 		struct Member *mem = struct_designator(&tok, tok, init->ty);
 
-		designation(&tok, tok, init->children[mem->idx]);
 		init->expr = NULL;
+		designation(&tok, tok, init->children[mem->idx]);
 
 		// init following member
 		struct_initializer2(rest, tok, init, mem->next);
@@ -215,6 +243,9 @@ static void designation(struct Token **rest, struct Token *tok, struct Initializ
 
 	if (equal(tok, ".") && init->ty->kind == TY_UNION) {
 		struct Member *mem = struct_designator(&tok, tok, init->ty);
+		if (init->mem != mem)
+			reset_initializer(init);
+		init->expr = NULL;
 		init->mem = mem;
 
 		designation(rest, tok, init->children[mem->idx]);
@@ -383,7 +414,7 @@ static void struct_initializer1(struct Token **rest, struct Token *tok,
 static void struct_initializer2(struct Token **rest, struct Token *tok,
 				struct Initializer *init, struct Member *mem)
 {
-	bool first = true;
+	bool first = mem == init->ty->members;
 
 	for (mem = skip_unnamed(mem); mem && !is_end(tok); mem = skip_unnamed(mem->next)) {
 		struct Token *start = tok;
@@ -427,7 +458,10 @@ static void union_initializer(struct Token **rest, struct Token *tok,
 			tok = skip(tok, ",");
 
 		if (equal(tok, ".")) {
-			init->mem = struct_designator(&tok, tok, init->ty);
+			struct Member *mem = struct_designator(&tok, tok, init->ty);
+			if (init->mem != mem)
+				reset_initializer(init);
+			init->mem = mem;
 			designation(&tok, tok, init->children[init->mem->idx]);
 		} else if (first && init->mem) {
 			initializer2(&tok, tok, init->children[init->mem->idx]);
@@ -439,20 +473,33 @@ static void union_initializer(struct Token **rest, struct Token *tok,
 	}
 }
 
+// Whether a string literal initializes the array TY
+static bool is_string_initializer(struct Token *tok, struct Type *ty)
+{
+	return tok->kind == TK_STR && ty->kind == TY_ARRAY &&
+		is_integer(ty->base) && ty->base->size == tok->ty->base->size &&
+		(equal(tok->next, ",") || equal(tok->next, ";") ||
+		 equal(tok->next, "}") || equal(tok->next, ")"));
+}
+
 // initializer = string-initializer | array-initializer |
 //		 struct_initializer | union-initializer |
 //		 assign
 static void initializer2(struct Token **rest, struct Token *tok,
 			 struct Initializer *init)
 {
-	if (init->ty->kind == TY_ARRAY && tok->kind == TK_STR) {
+	if (is_string_initializer(tok, init->ty)) {
 		string_initializer(rest, tok, init);
 		return;
 	}
 
+	// override the expression an earlier initializer gave
+	if (equal(tok, "{"))
+		init->expr = NULL;
+
 	// A string literal for an array can be surrounded by braces.
-	if (init->ty->kind == TY_ARRAY && is_integer(init->ty->base) &&
-	    equal(tok, "{") && tok->next->kind == TK_STR && is_end(tok->next->next)) {
+	if (equal(tok, "{") && is_string_initializer(tok->next, init->ty) &&
+	    is_end(tok->next->next)) {
 		string_initializer(&tok, tok->next, init);
 		consume_end(rest, tok);
 		return;
@@ -505,8 +552,12 @@ static void initializer2(struct Token **rest, struct Token *tok,
 		// An initializer for a scalar variable can be surrounded by
 		// braces.
 		// E.g. `int x = {3};`. Handle that case.
+		if (consume_end(rest, tok->next))
+			return;
+
 		initializer2(&tok, tok->next, init);
-		*rest = skip(tok, "}");
+		if (!consume_end(rest, tok))
+			error_tok(tok, "expected '}'");
 		return;
 	}
 
-- 
2.43.0


From 2f593cf507bea6aac00527c135272d6162a3646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:20 +0000
Subject: [PATCH 31/77] fix: look past deleted hash table entries before
 inserting a key

---
 hashmap.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hashmap.c b/hashmap.c
index 4947695..ed6d836 100644
--- a/hashmap.c
+++ b/hashmap.c
@@ -92,6 +92,7 @@ static struct HashEntry *get_or_insert_entry(struct HashMap *map, const char *ke
 	}
 
 	uint64_t hash = fnv_hash(key, keylen);
+	struct HashEntry *deleted = NULL;
 
 	for (int i = 0; i < map->capacity; i++) {
 		struct HashEntry *ent = &map->buckets[(hash + i) % map->capacity];
@@ -99,13 +100,18 @@ static struct HashEntry *get_or_insert_entry(struct HashMap *map, const char *ke
 		if (match(ent, key, keylen))
 			return ent;
 
-		if (ent->key == TOMBSTONE) {
-			ent->key = key;
-			ent->keylen = keylen;
-			return ent;
-		}
+		// The key may still follow a deleted entry, so that
+		// entry is reused only once the key is known to be absent.
+		if (ent->key == TOMBSTONE && !deleted)
+			deleted = ent;
 
 		if (ent->key == NULL) {
+			if (deleted) {
+				deleted->key = key;
+				deleted->keylen = keylen;
+				return deleted;
+			}
+
 			ent->key = key;
 			ent->keylen = keylen;
 			map->used++;
-- 
2.43.0


From ef98a0b7bcef1062a65bad13d5e1c7c110343018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:30 +0000
Subject: [PATCH 32/77] fix: reject malformed numeric constants (09, 0x1.8,
 0x0x1, 0b0b1)

---
 tokenize.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index f26aae9..c392740 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -425,10 +425,15 @@ static bool convert_pp_int(struct Token *tok)
 	if (!strncasecmp(p, "0x", 2) && isxdigit(p[2])) {
 		p += 2;
 		base = 16;
+		// strtoul would skip a second prefix
+		if (!strncasecmp(p, "0x", 2))
+			return false;
 	} else if (!strncasecmp(p, "0b", 2) &&
 		  (p[2] == '0' || p[2] == '1')) {
 		p += 2;
 		base = 2;
+		if (!strncasecmp(p, "0b", 2))
+			return false;
 	} else if (*p == '0') {
 		base = 8;
 	}
@@ -517,6 +522,16 @@ static void convert_pp_number(struct Token *tok)
 	char *end;
 	long double val = strtold(tok->loc, &end);
 
+	// A decimal one has a period, an exponent or (as an extension)
+	// just the suffix f, a hexadecimal one always has an exponent.
+	bool hex = !strncasecmp(tok->loc, "0x", 2);
+	bool is_float = !hex && (*end == 'f' || *end == 'F');
+	for (const char *p = tok->loc; p < end; p++)
+		if (strchr(hex ? "pP" : ".eE", *p))
+			is_float = true;
+	if (!is_float)
+		error_tok(tok, "invalid numeric constant");
+
 	struct Type *ty;
 	if (*end == 'f' || *end == 'F') {
 		ty = p_ty_float();
@@ -617,7 +632,7 @@ struct Token *tokenize(struct File *file)
 					strchr("eEpP", p[0]) &&
 					strchr("+-", p[1]))
 					p += 2;
-				else if (isalnum(*p) || *p == '.')
+				else if (isalnum(*p) || *p == '_' || *p == '.')
 					p++;
 				else
 					break;
-- 
2.43.0


From bd2c4369d6822d6278c5c7887cd9f305139152d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:44 +0000
Subject: [PATCH 33/77] fix: end a character constant at its closing quote, not
 at an escaped or later one

---
 tokenize.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index c392740..45c6659 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -395,7 +395,7 @@ static struct Token *read_char_literal(const char *start,
 					struct Type *ty)
 {
 	const char *p = quote + 1;
-	if (*p == '\0')
+	if (*p == '\n' || *p == '\0')
 		error_at(start, "unclosed char literal");
 
 	int c;
@@ -404,9 +404,16 @@ static struct Token *read_char_literal(const char *start,
 	else
 		c = decode_utf8(&p, p);
 
-	const char *end = strchr(p, '\'');
-	if (!end)
-		error_at(p, "unclosed char literal");
+	// Find a closing single-quote.
+	const char *end = p;
+	for (; *end != '\''; end++) {
+		if (*end == '\\')
+			// skip next char
+			end++;
+
+		if (*end == '\n' || *end == '\0')
+			error_at(start, "unclosed char literal");
+	}
 
 	// skip '\''
 	struct Token *tok = new_token(TK_NUM, start, end + 1);
-- 
2.43.0


From 71f16372890be29865c01e2ddd80e03038d35512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:41 +0000
Subject: [PATCH 34/77] fix: take a directive's operands from its own line,
 skip what follows them

#ifdef, #ifndef, #undef, #define and #include used tokens of the next
line when their own had none (reading past the end of the file), and
extra tokens after a directive were not skipped but processed as text.
---
 preprocessor/preprocess.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 03df164..5124f18 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -67,7 +67,7 @@ static struct Token *skip_line(struct Token *tok)
 		return tok;
 
 	warn_tok(tok, "extra token");
-	while (tok->at_bol)
+	while (!tok->at_bol)
 		tok = tok->next;
 	return tok;
 }
@@ -104,6 +104,7 @@ static struct Token *new_eof(struct Token *tok)
 	struct Token *t = copy_token(tok);
 	t->kind = TK_EOF;
 	t->len = 0;
+	t->at_bol = true;
 	return t;
 }
 
@@ -824,7 +825,7 @@ static struct MacroParam *read_macro_params(struct Token **rest,
 
 static void read_macro_definition(struct Token **rest, struct Token *tok)
 {
-	if (tok->kind != TK_IDENT)
+	if (tok->kind != TK_IDENT || tok->at_bol)
 		error_tok(tok, "macro name must be an identifier");
 
 	const char *name = strndup(tok->loc, tok->len);
@@ -849,6 +850,9 @@ static void read_macro_definition(struct Token **rest, struct Token *tok)
 static const char *read_include_filename(struct Token **rest, struct Token *tok,
 					 bool *is_dquote)
 {
+	if (tok->at_bol)
+		error_tok(tok, "expected a filename");
+
 	// Pattern 1: #include "foo.h"
 	if (tok->kind == TK_STR) {
 		// A double-quoted filename for #include is a special kind of
@@ -1085,7 +1089,7 @@ static struct Token *preprocess2(struct Token *tok)
 
 		if (equal(tok, "undef")) {
 			tok = tok->next;
-			if (tok->kind != TK_IDENT)
+			if (tok->kind != TK_IDENT || tok->at_bol)
 				error_tok(tok, "macro name must be an identifier");
 
 			undef_macro(strndup(tok->loc, tok->len));
@@ -1104,6 +1108,9 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "ifdef")) {
+			if (tok->next->kind != TK_IDENT || tok->next->at_bol)
+				error_tok(start, "macro name must be an identifier");
+
 			bool defined = find_macro(tok->next);
 
 			push_cond_incl(tok, defined);
@@ -1115,6 +1122,9 @@ static struct Token *preprocess2(struct Token *tok)
 		}
 
 		if (equal(tok, "ifndef")) {
+			if (tok->next->kind != TK_IDENT || tok->next->at_bol)
+				error_tok(start, "macro name must be an identifier");
+
 			bool defined = find_macro(tok->next);
 
 			push_cond_incl(tok, !defined);
-- 
2.43.0


From f6ab4b31532f30eee51045a835bd5e778462146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:41 +0000
Subject: [PATCH 35/77] fix: do not read past the end of the string a token is
 compared with

---
 utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.c b/utils.c
index 9872578..4578378 100644
--- a/utils.c
+++ b/utils.c
@@ -13,7 +13,7 @@ void warn_tok(struct Token *tok, const char *fmt, ...)
 
 bool equal(struct Token *tok, const char *op)
 {
-	return !memcmp(tok->loc, op, tok->len) && !op[tok->len];
+	return tok->len == strlen(op) && !memcmp(tok->loc, op, tok->len);
 }
 
 void __attribute__((noreturn))
-- 
2.43.0


From da59de33a02b1743cb1b894d20a8ca4ba00e3776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 36/77] fix: an empty macro expansion does not move the
 beginning of a line

A macro with an empty expansion at the end of a line made the directive
on the next line plain text, one at the beginning of a line turned a
following "#" into a directive, and so did a "#" that came out of a
macro.
---
 preprocessor/preprocess.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 5124f18..886d343 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -54,9 +54,10 @@ static struct CondIncl *cond_incl;
 static struct HashMap pragma_once;
 static int include_next_idx;
 
+// A "#" that results from macro expansion does not introduce a directive.
 static bool is_hash(struct Token *tok)
 {
-	return tok->at_bol && equal(tok, "#");
+	return tok->at_bol && !tok->origin && equal(tok, "#");
 }
 
 // Some preprocessor directives such as #include allow extraneous
@@ -694,6 +695,22 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args)
 	return head.next;
 }
 
+// Put the expansion of a macro before the rest of the tokens.
+static struct Token *replace_macro(struct Token *body, struct Token *macro,
+				   struct Token *rest)
+{
+	if (body->kind == TK_EOF) {
+		// The next token may well begin a line (or not) on its own.
+		rest->has_space |= macro->has_space;
+		return rest;
+	}
+
+	struct Token *tok = append(body, rest);
+	tok->at_bol = macro->at_bol;
+	tok->has_space = macro->has_space;
+	return tok;
+}
+
 // If tok is a macro, expand it and return true.
 // Otherwise, do nothing and return false.
 static bool expand_macro(struct Token **rest, struct Token *tok)
@@ -724,10 +741,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 		for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
 			t->origin = tok;
 
-		*rest = append(body, tok->next);
-		(*rest)->at_bol = tok->at_bol;
-		(*rest)->has_space = tok->has_space;
-
+		*rest = replace_macro(body, tok, tok->next);
 		return true;
 	}
 
@@ -759,10 +773,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
 		t->origin = macro_token;
 
-	*rest = append(body, tok->next);
-	(*rest)->at_bol = macro_token->at_bol;
-	(*rest)->has_space = macro_token->has_space;
-
+	*rest = replace_macro(body, macro_token, tok->next);
 	return true;
 }
 
-- 
2.43.0


From c917bc4af12cc7786ad8bd3dfb8a30f9708cb75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 37/77] fix: expand a copy of a macro argument

Expansion links the tokens it is given anew, so a later #param or
param## in the same replacement list saw the expanded argument.
---
 preprocessor/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 886d343..b163746 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -670,7 +670,7 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args)
 		// before they are substituted into a macro body.
 		if (arg) {
 			// expand the macro
-			struct Token *t = preprocess2(arg->tok);
+			struct Token *t = preprocess2(append(arg->tok, new_eof(tok)));
 			t->at_bol = tok->at_bol;
 			t->has_space = tok->has_space;
 
-- 
2.43.0


From 7ffbf19b16e60c98a7f2ca4be88db6b9c77788cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 38/77] fix: keep the white space before pasted, stringized and
 built-in tokens

Stringizing lost the space before such a token, and a newline between
the tokens of an argument.
---
 preprocessor/preprocess.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index b163746..cea2421 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -380,6 +380,8 @@ static struct MacroArg *read_macro_arg_one(struct Token **rest,
 
 		cur->next = copy_token(tok);
 		cur = cur->next;
+		// a newline within the arguments is white space
+		cur->has_space |= cur->at_bol;
 
 		tok = tok->next;
 	}
@@ -520,7 +522,11 @@ static struct Token *stringize(struct Token *hash, struct Token *arg)
 	// source location for error reporting function, so we use a macro
 	// name token as a template.
 	const char *s = join_tokens(arg, NULL);
-	return new_str_token(s, hash);
+	struct Token *tok = new_str_token(s, hash);
+
+	tok->at_bol = hash->at_bol;
+	tok->has_space = hash->has_space;
+	return tok;
 }
 
 // Concatenate two tokens to create a new token.
@@ -536,6 +542,8 @@ static struct Token *paste(struct Token *lhs, struct Token *rhs)
 	if (tok->next->kind != TK_EOF)
 		error_tok(lhs, "pasting forms '%s', an invalid token", buf);
 
+	tok->at_bol = lhs->at_bol;
+	tok->has_space = lhs->has_space;
 	return tok;
 }
 
@@ -729,6 +737,8 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	if (m->handler) {
 		*rest = m->handler(tok);
 		(*rest)->next = tok->next;
+		(*rest)->at_bol = tok->at_bol;
+		(*rest)->has_space = tok->has_space;
 		return true;
 	}
 
-- 
2.43.0


From 82be7e17426ae037b25aa04c97194b008d682b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 39/77] fix: substitute the parameters within __VA_OPT__

and decide by the expanded variable arguments, whatever their name.
---
 preprocessor/preprocess.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index cea2421..0d52a57 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -551,9 +551,10 @@ static struct Token *paste(struct Token *lhs, struct Token *rhs)
 static bool has_varargs(struct MacroArg *args)
 {
 	for (struct MacroArg *ap = args; ap; ap = ap->next) {
-		if (!strcmp(ap->name, "__VA_ARGS__")) {
-			// check the first argument
-			return ap->tok->kind != TK_EOF;
+		if (ap->is_va_args) {
+			// check the first token of the expanded argument
+			struct Token *tok = append(ap->tok, new_eof(ap->tok));
+			return preprocess2(tok)->kind != TK_EOF;
 		}
 	}
 	return false;
@@ -666,7 +667,7 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args)
 			// check macro's arguments for __VA_ARGS__
 			if (has_varargs(args))
 				// expand and insert into token list
-				for (struct Token *t = arg_x->tok; t->kind != TK_EOF; t = t->next)
+				for (struct Token *t = subst(arg_x->tok, args); t->kind != TK_EOF; t = t->next)
 					cur = cur->next = t;
 
 			tok = skip(tok, ")");
-- 
2.43.0


From 19296151634fe73e240f7db5b5f83339dfba5e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 40/77] fix: an empty operand of ## is pasted with nothing

x a##b##c with empty a and b pasted c to x (or was rejected).
---
 preprocessor/preprocess.c | 48 +++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 0d52a57..cb23a2c 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -532,6 +532,13 @@ static struct Token *stringize(struct Token *hash, struct Token *arg)
 // Concatenate two tokens to create a new token.
 static struct Token *paste(struct Token *lhs, struct Token *rhs)
 {
+	if (lhs->len == 0) {
+		struct Token *tok = copy_token(rhs);
+		tok->at_bol = lhs->at_bol;
+		tok->has_space = lhs->has_space;
+		return tok;
+	}
+
 	// Paste the two tokens.
 	const char *buf = format("%.*s%.*s",
 				(int)lhs->len, lhs->loc,
@@ -547,6 +554,17 @@ static struct Token *paste(struct Token *lhs, struct Token *rhs)
 	return tok;
 }
 
+// An empty operand of ## is represented by a token without text.
+static struct Token *new_placemarker(struct Token *tmpl)
+{
+	struct Token *tok = copy_token(tmpl);
+
+	tok->kind = TK_PUNCT;
+	tok->loc = "";
+	tok->len = 0;
+	return tok;
+}
+
 // check macro's arguments for __VA_ARGS__
 static bool has_varargs(struct MacroArg *args)
 {
@@ -633,25 +651,17 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args)
 		struct MacroArg *arg = find_arg(args, tok);
 
 		if (arg && equal(tok->next, "##")) {
-			struct Token *rhs = tok->next->next;
-
-			// arg is null, directly link rhs' tokens
-			if (arg->tok->kind == TK_EOF) {
-				struct MacroArg *arg2 = find_arg(args, rhs);
-				if (arg2) {
-					for (struct Token *t = arg2->tok; t->kind != TK_EOF; t = t->next)
-						cur = cur->next = copy_token(t);
-				} else {
-					cur = cur->next = copy_token(rhs);
-				}
-
-				tok = rhs->next;
-				continue;
-			}
+			struct Token *last = cur;
 
 			for (struct Token *t = arg->tok; t->kind != TK_EOF; t = t->next)
 				cur = cur->next = copy_token(t);
 
+			if (cur == last)
+				cur = cur->next = new_placemarker(tok);
+
+			last->next->at_bol = tok->at_bol;
+			last->next->has_space = tok->has_space;
+
 			tok = tok->next;
 			// Just link the arg's tokens,
 			// leave the rest job to forward code
@@ -701,6 +711,14 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args)
 	}
 
 	cur->next = tok;
+
+	// remove the placemarkers
+	for (cur = &head; cur->next;) {
+		if (cur->next->kind != TK_EOF && cur->next->len == 0)
+			cur->next = cur->next->next;
+		else
+			cur = cur->next;
+	}
 	return head.next;
 }
 
-- 
2.43.0


From 36870b8db131212e219c743120b1eca26bc0078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 41/77] fix: ## in object-like macros, and with a stringized
 operand

---
 preprocessor/preprocess.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index cb23a2c..f86c938 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -579,14 +579,16 @@ static bool has_varargs(struct MacroArg *args)
 }
 
 // Replace func-like macro parameters with given arguments.
-static struct Token *subst(struct Token *tok, struct MacroArg *args)
+// An object-like macro has no parameters, and no # operator.
+static struct Token *subst(struct Token *tok, struct MacroArg *args,
+			   bool is_objlike)
 {
 	struct Token head = {};
 	struct Token *cur = &head;
 
 	while (tok->kind != TK_EOF) {
 		// "#" followed by a parameter is replaced with stringized actuals.
-		if (equal(tok, "#")) {
+		if (equal(tok, "#") && !is_objlike) {
 			struct MacroArg *arg = find_arg(args, tok->next);
 			if (!arg)
 				error_tok(tok->next, "'#' is not followed by a macro parameter");
@@ -641,6 +643,15 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args)
 				continue;
 			}
 
+			// Handle a stringized operand
+			arg = equal(tok->next, "#") && !is_objlike ?
+			      find_arg(args, tok->next->next) : NULL;
+			if (arg) {
+				*cur = *paste(cur, stringize(tok->next, arg->tok));
+				tok = tok->next->next->next;
+				continue;
+			}
+
 			// Handle a non-macro token
 			*cur = *paste(cur, tok->next);
 			tok = tok->next->next;
@@ -670,14 +681,14 @@ static struct Token *subst(struct Token *tok, struct MacroArg *args)
 
 		// If __VA_ARG__ is empty, __VA_OPT__(x) is expanded to the
 		// empty token list. Otherwise, __VA_OPT__(x) is expanded to x.
-		if (equal(tok, "__VA_OPT__") && equal(tok->next, "(")) {
+		if (!is_objlike && equal(tok, "__VA_OPT__") && equal(tok->next, "(")) {
 			// read x argument
 			struct MacroArg *arg_x = read_macro_arg_one(&tok, tok->next->next, true);
 
 			// check macro's arguments for __VA_ARGS__
 			if (has_varargs(args))
 				// expand and insert into token list
-				for (struct Token *t = subst(arg_x->tok, args); t->kind != TK_EOF; t = t->next)
+				for (struct Token *t = subst(arg_x->tok, args, false); t->kind != TK_EOF; t = t->next)
 					cur = cur->next = t;
 
 			tok = skip(tok, ")");
@@ -765,7 +776,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	if (m->is_objlike) {
 		// add macro to the tok's hideset
 		struct Hideset *hs = hideset_union(tok->hideset, new_hideset(m->name));
-		struct Token *body = add_hideset(m->body, hs);
+		struct Token *body = add_hideset(subst(m->body, NULL, true), hs);
 
 		for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
 			t->origin = tok;
@@ -796,7 +807,7 @@ static bool expand_macro(struct Token **rest, struct Token *tok)
 	// add self into hide-set
 	hs = hideset_union(hs, new_hideset(m->name));
 
-	struct Token *body = subst(m->body, args);
+	struct Token *body = subst(m->body, args, false);
 	body = add_hideset(body, hs);
 
 	for (struct Token *t = body; t->kind != TK_EOF; t = t->next)
-- 
2.43.0


From 5eef2269f7b1803223d80a43dd44e51e8899b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 42/77] fix: -E does not join tokens that macro expansion put
 side by side

---
 main.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/main.c b/main.c
index 9d40ae3..48fac55 100644
--- a/main.c
+++ b/main.c
@@ -467,17 +467,18 @@ static void run_cc1(int argc, const char **argv,
 static void print_tokens(struct Token *tok)
 {
 	FILE *out = open_file(opt_o ? opt_o : "-");
-	bool first_line = true;
+	const char *end = NULL;
 
 	for (; tok->kind != TK_EOF; tok = tok->next) {
-		if (!first_line && tok->at_bol)
+		// Tokens that were not adjacent in the source must not
+		// be either in the output: they might form another one.
+		if (end && tok->at_bol)
 			fprintf(out, "\n");
-
-		if (tok->has_space && !tok->at_bol)
+		else if (end && (tok->has_space || tok->loc != end))
 			fprintf(out, " ");
-		fprintf(out, "%.*s", (int)tok->len, tok->loc);
 
-		first_line = false;
+		fprintf(out, "%.*s", (int)tok->len, tok->loc);
+		end = tok->loc + tok->len;
 	}
 	fprintf(out, "\n");
 }
-- 
2.43.0


From 142d6d31621bb72df68dc576f4cacb5d293919a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 43/77] fix: -E prints every one of adjacent string literals

---
 main.c                    | 2 ++
 preprocessor/preprocess.c | 3 +--
 toycc.h                   | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 48fac55..ffd44cd 100644
--- a/main.c
+++ b/main.c
@@ -607,6 +607,8 @@ static void cc1(void)
 		return;
 	}
 
+	join_adjacent_string_literals(tok);
+
 	struct Obj *prog = parser(tok);
 
 	// Open a temporary output buffer.
diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index f86c938..19ca11f 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1289,7 +1289,7 @@ static enum StringKind getStringKind(struct Token *tok)
 
 // Concatenate adjacent string literals into a single string literal
 // as per the C spec.
-static void join_adjacent_string_literals(struct Token *tok)
+void join_adjacent_string_literals(struct Token *tok)
 {
 	// First pass: If regular string literals are adjacent to wide
 	// string literals, regular string literals are converted to a wide
@@ -1383,7 +1383,6 @@ struct Token *preprocessor(struct Token *tok)
 	// are replaced with the pp-number 0, and then
 	// each preprocessing token is converted into a token.
 	convert_pp_tokens(tok);
-	join_adjacent_string_literals(tok);
 
 	for (struct Token *t = tok; t; t = t->next)
 		t->line_no += t->line_delta;
diff --git a/toycc.h b/toycc.h
index 674ad2e..6322d51 100644
--- a/toycc.h
+++ b/toycc.h
@@ -137,6 +137,7 @@ void init_macros(void);
 void define_macro(const char *name, const char *buf);
 void undef_macro(const char *name);
 struct Token *preprocessor(struct Token *tok);
+void join_adjacent_string_literals(struct Token *tok);
 bool file_exists(const char *path);
 const char *search_include_paths(const char *filename);
 
-- 
2.43.0


From 36ba31d2c39b0d3a7c9e6fea766fd0f0452ca08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 44/77] fix: recognise u8 when concatenating string literals

u8"a" u"b" was concatenated as if both were UTF-16, reading and writing
outside of the literals.
---
 preprocessor/preprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 19ca11f..74d64aa 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1270,7 +1270,7 @@ enum StringKind {
 
 static enum StringKind getStringKind(struct Token *tok)
 {
-	if (!strcmp(tok->loc, "u8"))
+	if (!strncmp(tok->loc, "u8", 2))
 		return STR_UTF8;
 
 	switch (tok->loc[0]) {
-- 
2.43.0


From d066db032be2a9dc83e33f57b0b248a411b286c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:39 +0000
Subject: [PATCH 45/77] fix: accept #line within a conditional group

---
 preprocessor/preprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 74d64aa..37c3542 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1061,7 +1061,8 @@ static const char *search_include_next(const char *filename)
 static void read_line_marker(struct Token **rest, struct Token *tok)
 {
 	struct Token *start = tok;
-	tok = preprocessor(copy_line(rest, tok));
+	tok = preprocess2(copy_line(rest, tok));
+	convert_pp_tokens(tok);
 
 	if (tok->kind != TK_NUM || tok->ty->kind != TY_INT)
 		error_tok(tok, "invalid line marker");
-- 
2.43.0


From 0ab86c4910fd965a0f4ecfa79be9150c852523bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:04 +0000
Subject: [PATCH 46/77] fix: -E prints preprocessing numbers that are no
 constants

such as 1B or the result of pasting 1 and x, as they are.
---
 main.c                    | 1 +
 preprocessor/preprocess.c | 9 ---------
 2 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/main.c b/main.c
index ffd44cd..4abf712 100644
--- a/main.c
+++ b/main.c
@@ -607,6 +607,7 @@ static void cc1(void)
 		return;
 	}
 
+	convert_pp_tokens(tok);
 	join_adjacent_string_literals(tok);
 
 	struct Obj *prog = parser(tok);
diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 37c3542..9293f43 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -1376,15 +1376,6 @@ struct Token *preprocessor(struct Token *tok)
 	if (cond_incl)
 		error_tok(cond_incl->tok, "unterminated conditional directive");
 
-	// pp-number:
-	// After all replacements due to macro expansion and
-	// the defined unary operator have been performed,
-	// all remaining identifiers (including those lexically
-	// identical to keywords, equals to undefined macro)
-	// are replaced with the pp-number 0, and then
-	// each preprocessing token is converted into a token.
-	convert_pp_tokens(tok);
-
 	for (struct Token *t = tok; t; t = t->next)
 		t->line_no += t->line_delta;
 
-- 
2.43.0


From 9cfa6876e00c6c68da4c626abd92d4c9b56bf4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:04 +0000
Subject: [PATCH 47/77] fix: an empty character constant is diagnosed instead
 of swallowing the next quote

---
 tokenize.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index 45c6659..7d1f1e1 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -397,6 +397,8 @@ static struct Token *read_char_literal(const char *start,
 	const char *p = quote + 1;
 	if (*p == '\n' || *p == '\0')
 		error_at(start, "unclosed char literal");
+	if (*p == '\'')
+		error_at(start, "empty character constant");
 
 	int c;
 	if (*p == '\\')
-- 
2.43.0


From d4856401f09087a7c081887dfe4bb0fe88aa44c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:50 +0000
Subject: [PATCH 48/77] fix: operands of enumerated type take part in
 arithmetic as int

---
 type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index c0accd8..c418478 100644
--- a/type.c
+++ b/type.c
@@ -307,9 +307,9 @@ static struct Type *get_common_type(struct Type *ty1, struct Type *ty2)
 	if (ty1->kind == TY_FLOAT || ty2->kind == TY_FLOAT)
 		return p_ty_float();
 
-	if (ty1->size < 4)
+	if (ty1->size < 4 || ty1->kind == TY_ENUM)
 		ty1 = p_ty_int();
-	if (ty2->size < 4)
+	if (ty2->size < 4 || ty2->kind == TY_ENUM)
 		ty2 = p_ty_int();
 
 	if (ty1->size != ty2->size)
-- 
2.43.0


From eec5a97a017ce8f2dd4203c42276d0bc2c9b146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:04 +0000
Subject: [PATCH 49/77] fix: an array type of unknown length is compatible with
 every length

---
 type.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index c418478..9e8a6f2 100644
--- a/type.c
+++ b/type.c
@@ -230,7 +230,8 @@ bool is_compatible(struct Type *t1, struct Type *t2)
 		if (!is_compatible(t1->base, t2->base))
 			return false;
 
-		return t1->array_len >= 0 && t2->array_len >= 0 &&
+		// an array of unknown length is compatible with any length
+		return t1->array_len < 0 || t2->array_len < 0 ||
 			t1->array_len == t2->array_len;
 
 	default:
-- 
2.43.0


From 676bb577563f33b31c34d238db024d7a9a5a6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:39 +0000
Subject: [PATCH 50/77] fix: unnamed parameters and type names of function type
 are accepted

---
 parser/declarator.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 5ab2336..1ae0b42 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -324,6 +324,15 @@ static struct Type *pointers(struct Token **rest, struct Token *tok,
 
 static struct Type *type_suffix(struct Token **rest, struct Token *tok,
 				struct Type *ty);
+
+// Where no name is required, a parenthesis followed by a type name or ")"
+// opens a parameter list.
+static bool is_param_list(struct Token *tok)
+{
+	return equal(tok, "(") &&
+		(equal(tok->next, ")") || is_typename(tok->next));
+}
+
 // abstract_declarator = pointers ("(" abstract-declarator ")")? type-suffix
 static struct Type *abstract_declarator(struct Token **rest, struct Token *tok, struct Type *ty)
 {
@@ -331,7 +340,7 @@ static struct Type *abstract_declarator(struct Token **rest, struct Token *tok,
 	ty = pointers(&tok, tok, ty);
 
 	// like "sizeof(char(*)[4])"
-	if (equal(tok, "(")) {
+	if (equal(tok, "(") && !is_param_list(tok)) {
 		struct Token *start = tok->next;
 		struct Type dummy = {};
 
@@ -692,7 +701,12 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 		}
 
 		struct Type *basety = declspec(&tok, tok, NULL);
-		struct Type *ty2 = declarator(&tok, tok, basety);
+		struct Type *ty2 = pointers(&tok, tok, basety);
+		// like "int (*)(int(char))", a parameter without a name
+		if (is_param_list(tok))
+			ty2 = type_suffix(&tok, tok, ty2);
+		else
+			ty2 = declarator(&tok, tok, ty2);
 
 		struct Token *name = ty2->name;
 
-- 
2.43.0


From df68f811612dfb84bf78156a0dda8ba530573668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:35 +0000
Subject: [PATCH 51/77] fix: 'struct T;' declares T in its own scope, and a tag
 of another kind is diagnosed

---
 parser/declarator.c | 14 ++++++++++----
 parser/scope.c      |  5 +++++
 parser/scope.h      |  1 +
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index 1ae0b42..e765026 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -115,7 +115,8 @@ static struct Token *attribute_list(struct Token *tok, struct Type *ty)
 }
 
 // struct-union-decl = attribute? ident? ("{" struct-members)?
-static struct Type *struct_union_decl(struct Token **rest, struct Token *tok)
+static struct Type *struct_union_decl(struct Token **rest, struct Token *tok,
+					enum TypeKind kind)
 {
 	struct Type *ty = struct_type();
 
@@ -134,7 +135,12 @@ static struct Type *struct_union_decl(struct Token **rest, struct Token *tok)
 	if (tag && !equal(tok, "{")) {
 		*rest = tok;
 
-		struct Type *ty2 = find_tag(tag);
+		// "struct T;" declares T in the current scope, even if
+		// an outer T is visible.
+		struct Type *ty2 = equal(tok, ";") ? find_tag_in_scope(tag) :
+						     find_tag(tag);
+		if (ty2 && ty2->kind != kind)
+			error_tok(tag, "defined as wrong kind of tag");
 		if (ty2)
 			return ty2;
 
@@ -173,7 +179,7 @@ static int align_down(int n, int align)
 // struct-decl = struct-union-decl
 static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 {
-	struct Type *ty = struct_union_decl(rest, tok);
+	struct Type *ty = struct_union_decl(rest, tok, TY_STRUCT);
 	ty->kind = TY_STRUCT;
 
 	if (ty->size < 0)
@@ -227,7 +233,7 @@ static struct Type *struct_decl(struct Token **rest, struct Token *tok)
 // union-decl = struct-union-decl
 static struct Type *union_decl(struct Token **rest, struct Token *tok)
 {
-	struct Type *ty = struct_union_decl(rest, tok);
+	struct Type *ty = struct_union_decl(rest, tok, TY_UNION);
 	ty->kind = TY_UNION;
 
 	if (ty->size < 0)
diff --git a/parser/scope.c b/parser/scope.c
index 26b2013..b3f3072 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -66,6 +66,11 @@ struct Type *find_tag(struct Token *tok)
 	return NULL;
 }
 
+struct Type *find_tag_in_scope(struct Token *tok)
+{
+	return hashmap_get2(&scope->tags, tok->loc, tok->len);
+}
+
 struct Obj *find_func(const char *name)
 {
 	struct Scope *sc = scope;
diff --git a/parser/scope.h b/parser/scope.h
index d0245f9..8c28368 100644
--- a/parser/scope.h
+++ b/parser/scope.h
@@ -32,6 +32,7 @@ void enter_scope(void);
 void leave_scope(void);
 
 struct Type *find_tag(struct Token *tok);
+struct Type *find_tag_in_scope(struct Token *tok);
 struct Obj *find_func(const char *name);
 
 void push_tag_scope(struct Token *tok, struct Type *ty);
-- 
2.43.0


From 46c87fb729c4f7192ea3eb9687c33ac1902f9cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:35 +0000
Subject: [PATCH 52/77] fix: sizeof an incomplete type is diagnosed

---
 parser/parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 5ecd07c..cffd466 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -182,6 +182,8 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 			return new_binary(ND_COMMA, lhs, rhs, tok);
 		}
 
+		if (ty->size < 0)
+			error_tok(start, "sizeof an incomplete type");
 		return new_ulong(ty->size, start);
 	}
 
@@ -195,6 +197,8 @@ static struct Node *primary(struct Token **rest, struct Token *tok)
 		if (node->ty->kind == TY_VLA)
 			return new_var_node(node->ty->vla_size, tok);
 
+		if (node->ty->size < 0)
+			error_tok(tok, "sizeof an incomplete type");
 		return new_ulong(node->ty->size, tok);
 	}
 
-- 
2.43.0


From 6b544e6d34db84b390ea31a8afcc9a9a45834185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:35 +0000
Subject: [PATCH 53/77] fix: duplicate labels are diagnosed

---
 parser/parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index cffd466..b887154 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1434,10 +1434,13 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 
 		node->label = strndup(tok->loc, tok->len);
 		node->unique_label = new_unique_name();
-		// skip ":"
-		node->lhs = stmt(rest, tok->next->next);
+		for (struct Node *y = labels; y; y = y->goto_next)
+			if (!strcmp(y->label, node->label))
+				error_tok(tok, "duplicate label");
 		node->goto_next = labels;
 		labels = node;
+		// skip ":"
+		node->lhs = stmt(rest, tok->next->next);
 		return node;
 	}
 
-- 
2.43.0


From 324ed09d3a471bcac23568e92cb09eae67349344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:18 +0000
Subject: [PATCH 54/77] fix: an include guard is recognised only if its
 conditional spans the whole file

---
 preprocessor/preprocess.c | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 9293f43..3449947 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -976,21 +976,12 @@ static const char *detect_include_guard(struct Token *tok)
 	    !equal(tok->next->next, macro))
 		return NULL;
 
-	// Read until the end of the file.
-	while (tok->kind != TK_EOF) {
-		if (!is_hash(tok)) {
-			tok = tok->next;
-			continue;
-		}
-
-		if (equal(tok->next, "endif") && tok->next->next->kind == TK_EOF)
-			return macro;
-
-		if (equal(tok, "if") || equal(tok, "ifdef") || equal(tok, "ifndef"))
-			tok = skip_cond_incl(tok->next);
-		else
-			tok = tok->next;
-	}
+	// The guard has to span the whole file: its conditional has no #else
+	// and nothing follows its #endif.
+	tok = skip_cond_incl(tok);
+	if (tok->kind != TK_EOF && equal(tok->next, "endif") &&
+	    tok->next->next->kind == TK_EOF)
+		return macro;
 	return NULL;
 }
 
-- 
2.43.0


From 80e82ff428b5c6ece5a16953edde00f4595f3502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:18 +0000
Subject: [PATCH 55/77] fix: #include_next continues after the directory of the
 file it appears in

---
 preprocessor/preprocess.c | 45 +++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 3449947..0a5a5f4 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -52,7 +52,8 @@ struct CondIncl {
 static struct HashMap macros;
 static struct CondIncl *cond_incl;
 static struct HashMap pragma_once;
-static int include_next_idx;
+// Index of the include path to continue from with #include_next, by file name.
+static struct HashMap include_next_idx;
 
 // A "#" that results from macro expansion does not introduce a directive.
 static bool is_hash(struct Token *tok)
@@ -1012,6 +1013,20 @@ static struct Token *include_file(struct Token *tok, const char *path,
 	return append(tok_header, tok);
 }
 
+// Search a file from the include paths.
+static const char *search_include_from(const char *filename, long start)
+{
+	for (long i = start; i < get_include_paths()->len; i++) {
+		const char *path = format("%s/%s", get_include_paths()->data[i], filename);
+		if (!file_exists(path))
+			continue;
+
+		hashmap_put(&include_next_idx, path, (void *)(i + 1));
+		return path;
+	}
+	return NULL;
+}
+
 const char *search_include_paths(const char *filename)
 {
 	if (filename[0] == '/')
@@ -1023,29 +1038,17 @@ const char *search_include_paths(const char *filename)
 	if (cached)
 		return cached;
 
-	// Search a file from the include paths.
-	for (int i = 0; i < get_include_paths()->len; i++) {
-		const char *path = format("%s/%s", get_include_paths()->data[i], filename);
-		if (!file_exists(path))
-			continue;
-
+	const char *path = search_include_from(filename, 0);
+	if (path)
 		hashmap_put(&cache, filename, (void *)path);
-		include_next_idx = i + 1;
-		return path;
-	}
-	return NULL;
+	return path;
 }
 
-static const char *search_include_next(const char *filename)
+// Continue after the include path in which the current file was found.
+static const char *search_include_next(const char *filename, struct File *file)
 {
-	for (; include_next_idx < get_include_paths()->len; include_next_idx++) {
-		const char *path = format("%s/%s",
-					   get_include_paths()->data[include_next_idx],
-					   filename);
-		if (file_exists(path))
-			return path;
-	}
-	return NULL;
+	return search_include_from(filename,
+			(long)hashmap_get(&include_next_idx, file->name));
 }
 
 // Read #line arguments
@@ -1119,7 +1122,7 @@ static struct Token *preprocess2(struct Token *tok)
 		if (equal(tok, "include_next")) {
 			bool ignore;
 			const char *filename = read_include_filename(&tok, tok->next, &ignore);
-			const char *path = search_include_next(filename);
+			const char *path = search_include_next(filename, start->file);
 
 			tok = include_file(tok, path ? path : filename, start->next->next);
 			continue;
-- 
2.43.0


From 4a3446ef36317e2c43238ac65cfcc990149cc913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:22 +0000
Subject: [PATCH 56/77] fix: -I directories are searched before the standard
 ones

---
 main.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/main.c b/main.c
index 4abf712..146337c 100644
--- a/main.c
+++ b/main.c
@@ -150,6 +150,24 @@ static const char *quote_makefile(const char *s)
 	return (const char *)buf;
 }
 
+static void add_default_include_paths(const char *argv0)
+{
+	// We expect that toycc-specific include files
+	// are installed to ./include relative to argv[0].
+	strarray_push(&std_include_paths,
+		      format("%s/include", dirname(strdup(argv0))));
+
+	// Add standard include paths.
+	strarray_push(&std_include_paths, "/usr/local/include");
+	strarray_push(&std_include_paths, "/usr/riscv64-linux-gnu/include");
+	strarray_push(&std_include_paths, "/usr/include/riscv64-linux-gnu");
+	strarray_push(&std_include_paths, "/usr/include");
+
+	// The copy in std_include_paths is kept for -MMD option.
+	for (int i = 0; i < std_include_paths.len; i++)
+		strarray_push(&include_paths, std_include_paths.data[i]);
+}
+
 static void parse_args(int argc, const char **argv)
 {
 	int i;
@@ -389,6 +407,9 @@ static void parse_args(int argc, const char **argv)
 		strarray_push(&input_paths, argv[i]);
 	}
 
+	// The standard directories are searched after the -I ones.
+	add_default_include_paths(argv[0]);
+
 	for (int i = 0; i < idirafter.len; i++)
 		strarray_push(&include_paths, idirafter.data[i]);
 
@@ -782,24 +803,6 @@ static void run_linker(struct StringArray *inputs, const char *output)
 	run_subprocess(arr.data);
 }
 
-static void add_default_include_paths(const char *argv0)
-{
-	// We expect that toycc-specific include files
-	// are installed to ./include relative to argv[0].
-	strarray_push(&include_paths,
-		      format("%s/include", dirname(strdup(argv0))));
-
-	// Add standard include paths.
-	strarray_push(&include_paths, "/usr/local/include");
-	strarray_push(&include_paths, "/usr/riscv64-linux-gnu/include");
-	strarray_push(&include_paths, "/usr/include/riscv64-linux-gnu");
-	strarray_push(&include_paths, "/usr/include");
-
-	// Keep a copy of the standard include paths for -MMD option.
-	for (int i = 0; i < include_paths.len; i++)
-		strarray_push(&std_include_paths, include_paths.data[i]);
-}
-
 static enum FileType get_file_type(const char *filename)
 {
 	if (opt_x != FILE_NONE)
@@ -830,7 +833,6 @@ int main(int argc, const char **argv)
 
 	atexit(cleanup);
 	init_macros();
-	add_default_include_paths(argv[0]);
 	parse_args(argc, argv);
 
 	if (opt_cc1) {
-- 
2.43.0


From d05b189e80bd534d3faa0b3aeefc8faa6d15b5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:22 +0000
Subject: [PATCH 57/77] fix: -idirafter takes its argument as the directory

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 146337c..5c46e7d 100644
--- a/main.c
+++ b/main.c
@@ -348,7 +348,7 @@ static void parse_args(int argc, const char **argv)
 		}
 
 		if (!strcmp(argv[i], "-idirafter")) {
-			strarray_push(&idirafter, argv[i++]);
+			strarray_push(&idirafter, argv[++i]);
 			continue;
 		}
 
-- 
2.43.0


From ecb1f45494d1776526afbca31ffed07d1f7d5c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:52 +0000
Subject: [PATCH 58/77] fix: objects without initialiser have the symbol size
 of their type

---
 codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.c b/codegen.c
index 56c7d04..058e67e 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2051,6 +2051,8 @@ static void emit_data(struct Obj *prog)
 		else
 			println(".bss");
 
+		println(".type %s, @object", var->name);
+		println(".size %s, %d", var->name, var->ty->size);
 		println(".align %d", llog2(var->align));
 		println("%s:", var->name);
 		println("\t.zero %d", var->ty->size);
-- 
2.43.0


From 323e1c7b4dbc949728a781e499e91803b37e5a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:12 +0000
Subject: [PATCH 59/77] fix: one of several tentative definitions is kept

---
 parser/scope.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/parser/scope.c b/parser/scope.c
index b3f3072..41b4ef0 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -173,12 +173,27 @@ void scan_globals(void)
 			continue;
 		}
 
-		// Find another definition of the same identifier.
+		// Find another definition of the same identifier that replaces
+		// this one: one with an initializer, one that completes the
+		// type, or else the next one in the list.
 		struct Obj *var2 = globals;
-		for (; var2; var2 = var2->next)
-			if (var != var2 && var2->is_definition &&
-			   !strcmp(var->name, var2->name))
+		bool follows = false;
+		for (; var2; var2 = var2->next) {
+			if (var == var2) {
+				follows = true;
+				continue;
+			}
+			if (!var2->is_definition || strcmp(var->name, var2->name))
+				continue;
+			if (!var2->is_tentative)
 				break;
+			if ((var->ty->size < 0) != (var2->ty->size < 0)) {
+				if (var->ty->size < 0)
+					break;
+			} else if (follows) {
+				break;
+			}
+		}
 
 		// If there's another definition, the tentative definition
 		// is redundant
-- 
2.43.0


From dc217f097586448225e5f13552874efe7115edff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:12 +0000
Subject: [PATCH 60/77] fix: an extern declaration with an initializer is a
 definition

---
 parser/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.c b/parser/parser.c
index b887154..6876b0d 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1601,7 +1601,7 @@ static struct Token *global_variable(struct Token *tok, struct Type *basety,
 
 		struct Obj *var = new_gvar(get_ident(ty->name), ty);
 
-		var->is_definition = !attr->is_extern;
+		var->is_definition = !attr->is_extern || equal(tok, "=");
 		var->is_static = attr->is_static;
 		var->is_tls = attr->is_tls;
 
-- 
2.43.0


From f25a0b9cad63df6ea7ecf9b2e7d3fca53e15af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:55 +0000
Subject: [PATCH 61/77] fix: extern after static keeps internal linkage

---
 parser/parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 6876b0d..89e9d57 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1599,12 +1599,19 @@ static struct Token *global_variable(struct Token *tok, struct Type *basety,
 		if (!ty->name)
 			error_tok(ty->name_pos, "variable name omitted");
 
+		struct VarScope *prev = find_var(ty->name);
 		struct Obj *var = new_gvar(get_ident(ty->name), ty);
 
 		var->is_definition = !attr->is_extern || equal(tok, "=");
 		var->is_static = attr->is_static;
 		var->is_tls = attr->is_tls;
 
+		// An extern declaration takes over the linkage of a
+		// visible prior declaration.
+		if (attr->is_extern && prev && prev->var &&
+		    !strcmp(prev->var->name, var->name))
+			var->is_static = !prev->var->is_local && prev->var->is_static;
+
 		if (attr->align)
 			var->align = attr->align;
 
-- 
2.43.0


From deb854cedac71180e5545a0dfce52b2cfe10ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:21 +0000
Subject: [PATCH 62/77] fix: a tentative array definition that is never
 completed has one element

---
 parser/scope.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/scope.c b/parser/scope.c
index 41b4ef0..ad48e6c 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -197,8 +197,12 @@ void scan_globals(void)
 
 		// If there's another definition, the tentative definition
 		// is redundant
-		if (!var2)
+		if (!var2) {
+			// "int x[];" that is never completed has one element.
+			if (var->ty->kind == TY_ARRAY && var->ty->size < 0)
+				var->ty = array_of(var->ty->base, 1);
 			cur = cur->next = var;
+		}
 
 		// pass var definition
 	}
-- 
2.43.0


From e8acdea86070a7009ac99b325ae7908e7ca3425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:22 +0000
Subject: [PATCH 63/77] fix: a declaration whose typedef name is a function
 type declares a function

---
 parser/parser.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.c b/parser/parser.c
index 89e9d57..0896219 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1450,12 +1450,12 @@ static struct Node *stmt(struct Token **rest, struct Token *tok)
 	return expr_stmt(rest, tok);
 }
 
-static bool is_function(struct Token *tok)
+static bool is_function(struct Token *tok, struct Type *basety)
 {
 	if (equal(tok, ";"))
 		return false;
 
-	struct Type dummy = {};
+	struct Type dummy = *basety;
 	struct Type *ty = declarator(&tok, tok, &dummy);
 
 	return ty->kind == TY_FUNC;
@@ -1644,7 +1644,7 @@ static struct Node *compound_stmt(struct Token **rest, struct Token *tok)
 				continue;
 			}
 
-			if (is_function(tok)) {
+			if (is_function(tok, basety)) {
 				tok = function(tok, basety, &attr);
 				continue;
 			}
@@ -1686,7 +1686,7 @@ struct Obj *parser(struct Token *tok)
 			continue;
 		}
 
-		if (is_function(tok)) {
+		if (is_function(tok, basety)) {
 			// function
 			tok = function(tok, basety, &attr);
 		} else {
-- 
2.43.0


From 8708f3c89ed59036a52bc133f868504acce5a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:23 +0000
Subject: [PATCH 64/77] fix: an inline function also declared without inline is
 defined externally

---
 parser/parser.c | 5 +++++
 toycc.h         | 1 +
 2 files changed, 6 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 0896219..22b44c0 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1531,12 +1531,17 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 
 		fn->is_definition = fn->is_definition || equal(tok, "{");
 
+		// A declaration without inline, or with extern, makes
+		// an inline definition an external one.
+		if (fn->is_inline_def && (!attr->is_inline || attr->is_extern))
+			fn->is_inline_def = fn->is_static = false;
 	} else {
 		fn = new_gvar(name_str, ty);
 		fn->is_function = true;
 		fn->is_definition = equal(tok, "{");
 		fn->is_static = attr->is_static || (attr->is_inline && !attr->is_extern);
 		fn->is_inline = attr->is_inline;
+		fn->is_inline_def = fn->is_static && !attr->is_static;
 	}
 	fn->is_root = !(fn->is_static && fn->is_inline);
 
diff --git a/toycc.h b/toycc.h
index 6322d51..6e78014 100644
--- a/toycc.h
+++ b/toycc.h
@@ -319,6 +319,7 @@ struct Obj {
 
 	// function
 	bool is_inline;
+	bool is_inline_def;	// inline, neither static nor extern
 	struct Obj *params;
 	struct Node *body;
 	struct Obj *locals;
-- 
2.43.0


From 3f6531abce5e354ddf7fd4796eb8717c91dae0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:23 +0000
Subject: [PATCH 65/77] fix: a static inline function used in an initializer is
 emitted

---
 parser/parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.c b/parser/parser.c
index 22b44c0..584fe79 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1704,6 +1704,14 @@ struct Obj *parser(struct Token *tok)
 		if (var->is_root)
 			mark_live(var);
 
+	// A function whose address initializes an object is live, too.
+	for (struct Obj *var = ret_globals(); var; var = var->next)
+		for (struct Relocation *rel = var->rel; rel; rel = rel->next) {
+			struct Obj *fn = find_func(*rel->label);
+			if (fn)
+				mark_live(fn);
+		}
+
 	// Remove redundant tentative definitions.
 	scan_globals();
 
-- 
2.43.0


From 3e30a636379b0f72ff7d4d253995356f1fa44cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:03 +0000
Subject: [PATCH 66/77] fix: a tentative definition of a type completed later
 has its alignment

---
 parser/scope.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/scope.c b/parser/scope.c
index ad48e6c..c3463c3 100644
--- a/parser/scope.c
+++ b/parser/scope.c
@@ -201,6 +201,9 @@ void scan_globals(void)
 			// "int x[];" that is never completed has one element.
 			if (var->ty->kind == TY_ARRAY && var->ty->size < 0)
 				var->ty = array_of(var->ty->base, 1);
+			// The type may have been completed afterwards.
+			if (var->align < var->ty->align)
+				var->align = var->ty->align;
 			cur = cur->next = var;
 		}
 
-- 
2.43.0


From 29a9477087727b5733e76216b024fd8289dc5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:03 +0000
Subject: [PATCH 67/77] fix: a function may be declared among other declarators

---
 parser/parser.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/parser.c b/parser/parser.c
index 584fe79..8990a0c 100644
--- a/parser/parser.c
+++ b/parser/parser.c
@@ -1510,8 +1510,11 @@ static void mark_live(struct Obj *var)
 	}
 }
 
+static struct Token *global_variable(struct Token *tok, struct Type *basety,
+				     struct VarAttr *attr);
+
 static struct Token *function(struct Token *tok, struct Type *basety,
-			      const struct VarAttr *attr)
+			      struct VarAttr *attr)
 {
 	struct Type *ty = declarator(&tok, tok, basety);
 	if (!ty->name)
@@ -1548,6 +1551,11 @@ static struct Token *function(struct Token *tok, struct Type *basety,
 	// if it's declaration, return
 	if (consume(&tok, tok, ";"))
 		return tok;
+	if (consume(&tok, tok, ",")) {
+		if (is_function(tok, basety))
+			return function(tok, basety, attr);
+		return global_variable(tok, basety, attr);
+	}
 	// else it's definition, continue
 
 	current_fn = fn;
@@ -1600,6 +1608,9 @@ static struct Token *global_variable(struct Token *tok, struct Type *basety,
 			tok = skip(tok, ",");
 		first = false;
 
+		if (is_function(tok, basety))
+			return function(tok, basety, attr);
+
 		struct Type *ty = declarator(&tok, tok, basety);
 		if (!ty->name)
 			error_tok(ty->name_pos, "variable name omitted");
-- 
2.43.0


From fb5636fb2578465aa84cdd5002918b05536a2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:01 +0000
Subject: [PATCH 68/77] fix: a missing argument of -D, -U, -L or -MQ is
 diagnosed

---
 main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main.c b/main.c
index 5c46e7d..960780e 100644
--- a/main.c
+++ b/main.c
@@ -82,7 +82,13 @@ static bool take_arg(const char *arg)
 		"-x",
 		"-MF",
 		"-MT",
+		"-MQ",
 		"-Xlinker",
+		"-D",
+		"-U",
+		"-L",
+		"-cc1-input",
+		"-cc1-output",
 	};
 
 	for (size_t i = 0; i < ARRAY_SIZE(x); i++)
-- 
2.43.0


From df7b7f044800e649bfc72ed3d40ac1b07fa1c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:02 +0000
Subject: [PATCH 69/77] fix: '-I dir' with a space adds the directory

---
 main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.c b/main.c
index 960780e..203ba62 100644
--- a/main.c
+++ b/main.c
@@ -236,6 +236,11 @@ static void parse_args(int argc, const char **argv)
 			continue;
 		}
 
+		if (!strcmp(argv[i], "-I")) {
+			strarray_push(&include_paths, argv[++i]);
+			continue;
+		}
+
 		if (!strncmp(argv[i], "-I", 2)) {
 			strarray_push(&include_paths, argv[i] + 2);
 			continue;
-- 
2.43.0


From 5d996b6d0719e7ccb71a707ed1ea64ba351ab7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:02 +0000
Subject: [PATCH 70/77] fix: the linker does not run with -c, -S, -E or -M

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 203ba62..625eb19 100644
--- a/main.c
+++ b/main.c
@@ -932,7 +932,7 @@ int main(int argc, const char **argv)
 		strarray_push(&ld_args, tmp2);
 	}
 
-	if (ld_args.len)
+	if (ld_args.len && !(opt_c || opt_S || opt_E || opt_M))
 		run_linker(&ld_args, opt_o ? opt_o : "a.out");
 
 	return 0;
-- 
2.43.0


From 0a3c75ecfae7d85a6678b337f3b1b346fd8222f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:02 +0000
Subject: [PATCH 71/77] fix: dependencies are quoted for make

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 625eb19..8bcd21f 100644
--- a/main.c
+++ b/main.c
@@ -585,7 +585,7 @@ static void print_dependencies(void)
 	for (int i = 0; files[i]; i++) {
 		if (opt_MMD && in_std_include_path(files[i]->name))
 			continue;
-		fprintf(out, " \\\n\t%s", files[i]->name);
+		fprintf(out, " \\\n\t%s", quote_makefile(files[i]->name));
 	}
 	fprintf(out, "\n");
 
-- 
2.43.0


From df9fe453746f9d671684bdca4b0c03abc99c9143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:20 +0000
Subject: [PATCH 72/77] fix: an assembly file is linked unless -c is given

---
 main.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 8bcd21f..3f8ff96 100644
--- a/main.c
+++ b/main.c
@@ -893,9 +893,20 @@ int main(int argc, const char **argv)
 
 		// handle .s
 		if (type == FILE_ASM) {
-			if (!opt_S)
-				// .s -> .o
+			if (opt_S || opt_M)
+				continue;
+
+			// .s -> .o
+			if (opt_c) {
 				assemble(input, output);
+				continue;
+			}
+
+			// assemble and link
+			const char *tmp = create_tmpfile();
+
+			assemble(input, tmp);
+			strarray_push(&ld_args, tmp);
 			continue;
 		}
 
-- 
2.43.0


From f7e0feecc27e2d37275c7f692122a4099b6051c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:30 +0000
Subject: [PATCH 73/77] fix: definition with an unnamed array or function
 parameter crashed

---
 parser/declarator.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/declarator.c b/parser/declarator.c
index e765026..ab3503d 100644
--- a/parser/declarator.c
+++ b/parser/declarator.c
@@ -709,12 +709,17 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 		struct Type *basety = declspec(&tok, tok, NULL);
 		struct Type *ty2 = pointers(&tok, tok, basety);
 		// like "int (*)(int(char))", a parameter without a name
-		if (is_param_list(tok))
+		if (is_param_list(tok)) {
+			struct Token *name_pos = tok;
+
 			ty2 = type_suffix(&tok, tok, ty2);
-		else
+			ty2->name_pos = name_pos;
+		} else {
 			ty2 = declarator(&tok, tok, ty2);
+		}
 
 		struct Token *name = ty2->name;
+		struct Token *name_pos = ty2->name_pos;
 
 		if (ty2->kind == TY_ARRAY) {
 			// "array of T" is converted to "pointer to T" only
@@ -722,12 +727,14 @@ static struct Type *func_params(struct Token **rest, struct Token *tok, struct T
 			// For example, *argv[] is converted to **argv by this.
 			ty2 = pointer_to(ty2->base);
 			ty2->name = name;
+			ty2->name_pos = name_pos;
 
 		} else if (ty2->kind == TY_FUNC) {
 			// Likewise, a function is converted to a pointer to
 			// a function only in the parameter context.
 			ty2 = pointer_to(ty2);
 			ty2->name = name;
+			ty2->name_pos = name_pos;
 		}
 
 		cur->next = copy_type(ty2);
-- 
2.43.0


From 8702e7e3b7ba21281a75e7a21d7aae2914f143fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:47 +0000
Subject: [PATCH 74/77] fix: '#include NAME' where NAME is no macro recursed
 without end

---
 preprocessor/preprocess.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 0a5a5f4..56c6831 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -940,6 +940,8 @@ static const char *read_include_filename(struct Token **rest, struct Token *tok,
 	// a single string token or a sequence of "<" ... ">".
 	if (tok->kind == TK_IDENT) {
 		struct Token *tok2 = preprocess2(copy_line(rest, tok));
+		if (tok2->kind == TK_IDENT)
+			error_tok(tok, "expected a filename");
 		return read_include_filename(&tok2, tok2, is_dquote);
 	}
 
-- 
2.43.0


From f654b0a1b1faf23fffb8b92132fa6056bf652111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:17 +0000
Subject: [PATCH 75/77] fix: pasting '/' and '/' read past the pasted text

---
 preprocessor/preprocess.c | 2 +-
 tokenize.c                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessor/preprocess.c b/preprocessor/preprocess.c
index 56c6831..43e3efd 100644
--- a/preprocessor/preprocess.c
+++ b/preprocessor/preprocess.c
@@ -547,7 +547,7 @@ static struct Token *paste(struct Token *lhs, struct Token *rhs)
 
 	// Tokenize the resulting string.
 	struct Token *tok = tokenize(new_file(lhs->file->name, lhs->file->file_no, buf));
-	if (tok->next->kind != TK_EOF)
+	if (tok->kind == TK_EOF || tok->next->kind != TK_EOF)
 		error_tok(lhs, "pasting forms '%s', an invalid token", buf);
 
 	tok->at_bol = lhs->at_bol;
diff --git a/tokenize.c b/tokenize.c
index 7d1f1e1..b918c13 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -590,7 +590,7 @@ struct Token *tokenize(struct File *file)
 		// Skip line comments
 		if (startwith(p, "//")) {
 			p += 2;
-			while (*p != '\n')
+			while (*p && *p != '\n')
 				p++;
 
 			has_space = true;
-- 
2.43.0


From d73bd362955abc188c8b5e382c6f060964598412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:17 +0000
Subject: [PATCH 76/77] fix: a directive ended by a NUL byte ran past the end
 of the file

---
 tokenize.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenize.c b/tokenize.c
index b918c13..c95060e 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -747,6 +747,8 @@ struct Token *tokenize(struct File *file)
 		error_at(p, "invalid token");
 	}
 	cur->next = new_token(TK_EOF, p, p);
+	// The end of the file ends a directive, too.
+	cur->next->at_bol = true;
 
 	add_line_number(head.next);
 	return head.next;
-- 
2.43.0


From 6c4896207e895c4240456ca6d9e8783a4643e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:07 +0000
Subject: [PATCH 77/77] fix: a statement expression that ends in no expression
 had no type and crashed

---
 type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/type.c b/type.c
index 9e8a6f2..3cdd188 100644
--- a/type.c
+++ b/type.c
@@ -507,6 +507,8 @@ void add_type(struct Node *node)
 
 			if (stmt->kind == ND_EXPR_STMT)
 				node->ty = stmt->lhs->ty;
+			else
+				node->ty = p_ty_void();
 
 		} else {
 			error_tok(node->tok,
-- 
2.43.0

