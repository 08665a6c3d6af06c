From 680f4a8d3494d0893fb40311ec4b441e79c5825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:56 +0000
Subject: [PATCH 01/50] fix: do not evacuate live registers to the frame
 pointer

CALLEE_SAVED_REG_IDS contained %rbp, so a call with two live registers
overwrote the frame pointer and every later local access went wrong.
---
 src/x64/register.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64/register.c b/src/x64/register.c
index de17f15..b187388 100644
--- a/src/x64/register.c
+++ b/src/x64/register.c
@@ -10,7 +10,7 @@ int CALLER_SAVED_REG_IDS[8] = {CX_REG_ID, DX_REG_ID, SI_REG_ID,  DI_REG_ID,
                                R8_REG_ID, R9_REG_ID, R10_REG_ID, R11_REG_ID};
 
 int NUM_CALLEE_SAVED_REGS = 5;
-int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, BP_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID};
+int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID, R15_REG_ID};
 
 char* PC_NAME = "%rip";
 
-- 
2.43.0


From 62dc55f89b03ff5f24b54cad9d2b49a5d524c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:09 +0000
Subject: [PATCH 02/50] fix: zero-extend the comparison result from the
 register that holds it

The setcc result is in the destination register, but it was widened from
the first source register, so x++ == y yielded x.
---
 src/x64gen/bitinst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64gen/bitinst.c b/src/x64gen/bitinst.c
index 17d3632..792f401 100644
--- a/src/x64gen/bitinst.c
+++ b/src/x64gen/bitinst.c
@@ -111,7 +111,7 @@ Vector* gen_setcmp_common_x64code(X64gen* x64gen, X64InstType type) {
     vector_push(codes, new_inst_x64(type, NULL, dst));
 
     X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
-    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, fst_src_id);
+    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, dst_id);
     append_mov_code(codes, dst_mov_src, dst_mov_dst, 1);
 
     liveseqs_next(x64gen->liveseqs);
-- 
2.43.0


From 769a17b946ef629129395cb8522e07d9cdd168e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:43 +0000
Subject: [PATCH 03/50] fix: give a shift the type of its promoted left operand

The usual arithmetic conversions were applied to both operands, so the
type of the shift count changed the type of the result.
---
 src/resolver/expression.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index c54ba79..0bc7ec4 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -677,9 +677,13 @@ ResolverReturn* resolve_shift_expr(Resolver* resolver) {
     rhs_srt = convert_to_ptr_if_array(rhs_srt);
     rhs_srt = convert_to_ptr_if_function(rhs_srt);
 
-    Pair* srt_pair = new_pair(&t_srt, &t_srt);
-    pair_set(srt_pair, lhs_srt, rhs_srt);
-    pair_assign((void**)&lhs_srt, (void**)&rhs_srt, perform_usual_arithmetic_conversion(srt_pair));
+    // the type of the result is that of the promoted left operand
+    lhs_srt = perform_integer_promotion(lhs_srt);
+    rhs_srt = perform_integer_promotion(rhs_srt);
+    if (dtype_isinteger(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype) &&
+        !dtype_equals(lhs_srt->dtype, rhs_srt->dtype)) {
+        rhs_srt = new_dtyped_srt(SRT_CAST_EXPR, dtype_copy(lhs_srt->dtype), 1, rhs_srt);
+    }
 
     switch (ast->type) {
         case AST_LSHIFT_EXPR:
-- 
2.43.0


From 6ab8fabfc359c8dda2bbde29e2f1df4751e1a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:09 +0000
Subject: [PATCH 04/50] fix: shift unsigned operands right logically

---
 src/x64/inst.c         | 9 +++++----
 src/x64/inst.h         | 1 +
 src/x64gen/shrotinst.c | 6 ++++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/x64/inst.c b/src/x64/inst.c
index 974e08e..f9c4367 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -11,10 +11,10 @@
 
 char* x64_inst_formats[] = {"mov%c",  "movs%c%c", "movz%c%c", "movabs%c", "lea%c",  "c%ct%c", "c%ctd",  "cqto",
                             "push%c", "pop%c",    "add%c",    "sub%c",    "imul%c", "div%c",  "idiv%c", "neg%c",
-                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "cmp%c",  "sete",
-                            "setne",  "seta",     "setae",    "setb",     "setbe",  "setg",   "setge",  "setl",
-                            "setle",  "jmp",      "je",       "jne",      "ja",     "jae",    "jb",     "jbe",
-                            "jg",     "jge",      "jl",       "jle",      "call",   "ret"};
+                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "shr%c",  "cmp%c",
+                            "sete",   "setne",    "seta",     "setae",    "setb",   "setbe",  "setg",   "setge",
+                            "setl",   "setle",    "jmp",      "je",       "jne",    "ja",     "jae",    "jb",
+                            "jbe",    "jg",       "jge",      "jl",       "jle",    "call",   "ret"};
 
 X64Inst* new_x64inst(X64InstType type, X64Ope* src, X64Ope* dst) {
     X64Inst* x64inst = malloc(sizeof(X64Inst));
@@ -108,6 +108,7 @@ char* x64instcode_tostring(X64Inst* x64inst) {
         case X64_INST_XORX:
         case X64_INST_SALX:
         case X64_INST_SARX:
+        case X64_INST_SHRX:
         case X64_INST_CMPX: {
             // TODO: fix to prevent buffer overflow
             char* instcode_str = malloc(50 * sizeof(char));
diff --git a/src/x64/inst.h b/src/x64/inst.h
index 3109fe0..8d26e39 100644
--- a/src/x64/inst.h
+++ b/src/x64/inst.h
@@ -33,6 +33,7 @@ typedef enum X64InstType {
     // shift/rotate instructions
     X64_INST_SALX,
     X64_INST_SARX,
+    X64_INST_SHRX,
 
     // bit/byte instructions
     X64_INST_CMPX,
diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 23d40d5..960340e 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -12,6 +12,12 @@ Vector* gen_sal_x64code(X64gen* x64gen) {
 }
 
 Vector* gen_sar_x64code(X64gen* x64gen) {
+    Immc* immc = vector_at(x64gen->immcs, x64gen->index);
+    ImmcOpe* immc_fst_src = immc->inst->fst_src;
+
+    if (immc_fst_src->reg->is_unsigned) {
+        return gen_shrot_common_x64code(x64gen, X64_INST_SHRX);
+    }
     return gen_shrot_common_x64code(x64gen, X64_INST_SARX);
 }
 
-- 
2.43.0


From 5fbaf38880ed469d6114e17d8b8eff63ba8d5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:11 +0000
Subject: [PATCH 05/50] fix: support shift counts which are not constants

---
 src/x64gen/shrotinst.c | 45 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 960340e..e068e89 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -31,6 +31,7 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
     ImmcOpe* immc_snd_src = immc->inst->snd_src;
 
     int fst_src_id = CALLER_SAVED_REG_IDS[immc_fst_src->reg->reg_id];
+    int dst_id = CALLER_SAVED_REG_IDS[immc_dst->reg->reg_id];
 
     X64Suffix fst_src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_fst_src->suffix));
     X64Suffix snd_src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_snd_src->suffix));
@@ -48,6 +49,49 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
+        case IMMC_OPERAND_REG: {
+            // a shift count which is not a constant has to be stored in CL register
+            int snd_src_id = CALLER_SAVED_REG_IDS[immc_snd_src->reg->reg_id];
+            int cx_needs_evacuation = 0;
+            if (snd_src_id != CX_REG_ID && dst_id != CX_REG_ID) {
+                Set* alive_regs_set = create_alive_regs_set(x64gen->liveseqs);
+                int* cx_reg_id_ref = new_integer(CX_REG_ID);
+                cx_needs_evacuation = set_contains(alive_regs_set, cx_reg_id_ref);
+                free(cx_reg_id_ref);
+                delete_set(alive_regs_set);
+            }
+
+            X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
+            X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
+            int fst_src_is_unsigned = immc_fst_src->reg->is_unsigned;
+            append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
+
+            int evacuation_id = CALLEE_SAVED_REG_IDS[0];
+            if (cx_needs_evacuation) {
+                X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, evacuation_id);
+                X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, CX_REG_ID);
+                append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+                if (x64gen->evacuation_count < 1) {
+                    x64gen->evacuation_count = 1;
+                }
+            }
+
+            X64Ope* snd_src_mov_dst = new_reg_x64ope(X64_SUFFIX_QUAD, CX_REG_ID);
+            X64Ope* snd_src_mov_src = new_reg_x64ope(X64_SUFFIX_QUAD, snd_src_id);
+            append_mov_code(codes, snd_src_mov_src, snd_src_mov_dst, 0);
+
+            X64Ope* fst_src = new_reg_x64ope(suffix, AX_REG_ID);
+            X64Ope* snd_src = new_reg_x64ope(X64_SUFFIX_BYTE, CX_REG_ID);
+            vector_push(codes, new_inst_x64(type, snd_src, fst_src));
+
+            if (cx_needs_evacuation) {
+                X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, CX_REG_ID);
+                X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, evacuation_id);
+                append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+            }
+            fst_src_id = AX_REG_ID;
+            break;
+        }
         default:
             fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
                             "unreachable statement (in gen_shrot_common_x64code)\n");
@@ -55,7 +99,6 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
     }
 
     X64Suffix dst_suffix = x64suffix_get(immcsuffix_tonbytes(immc_dst->suffix));
-    int dst_id = CALLER_SAVED_REG_IDS[immc_dst->reg->reg_id];
 
     X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
     X64Ope* dst_mov_src = new_reg_x64ope(suffix, fst_src_id);
-- 
2.43.0


From 30ba4774169ab1b82334825780de75eee0c60bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:32 +0000
Subject: [PATCH 06/50] fix: diagnose expressions that need more registers than
 available

---
 src/regalloc/regalloc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/regalloc/regalloc.c b/src/regalloc/regalloc.c
index 4e2ca62..e715ccd 100644
--- a/src/regalloc/regalloc.c
+++ b/src/regalloc/regalloc.c
@@ -6,6 +6,7 @@
 #include "../map/map.h"
 #include "./basicblock.h"
 
+#include <stdio.h>
 #include <stdlib.h>
 
 Vector* dequeue_external_immcs(RegAlloc* regalloc);
@@ -423,6 +424,10 @@ void update_liveseqs(Vector* liveseqs, Vector* livenesses, Vector* allocations)
     for (int virtual_reg_id = 0; virtual_reg_id < num_virtual_regs; virtual_reg_id++) {
         Liveness* liveness = vector_at(livenesses, virtual_reg_id);
         int* real_reg_id_ref = vector_at(allocations, virtual_reg_id);
+        if (*real_reg_id_ref == -1) {
+            fprintf(stderr, "\x1b[1;31merror\x1b[0m: too complex expression to allocate registers\n");
+            exit(1);
+        }
         Liveseq* liveseq = vector_at(liveseqs, *real_reg_id_ref);
         vector_push(liveseq->livenesses, liveness_copy(liveness));
     }
-- 
2.43.0


From b4cdcc55c445baa65b655592cbc981919680ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:32 +0000
Subject: [PATCH 07/50] fix: keep more than five values alive across a call

---
 src/x64gen/ctrlinst.c | 25 ++++++++++++++++---------
 src/x64gen/x64gen.c   | 22 ++++++++++++++++------
 src/x64gen/x64gen.h   |  1 +
 3 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 222550b..79e9151 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 
 Vector* gen_jcmp_common_x64code(X64gen* x64gen, X64InstType type);
+X64Ope* new_evacuation_x64ope(X64gen* x64gen, int evacuation_index);
 
 Vector* gen_jmp_x64code(X64gen* x64gen) {
     Vector* codes = new_vector(&t_x64);
@@ -138,18 +139,16 @@ Vector* gen_call_x64code(X64gen* x64gen) {
 
     Set* alive_reg_induces_set = create_alive_reg_induces_set(x64gen->liveseqs);
     int evacuation_count = 0;
-    // TODO: consider case that evacuation_count is greater than NUM_CALLEE_SAVED_REG
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
-        if (*caller_ref == immc->inst->dst->reg->reg_id) {
+        if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
-        int callee_id = CALLEE_SAVED_REG_IDS[evacuation_count];
-        X64Ope* callee = new_reg_x64ope(X64_SUFFIX_QUAD, callee_id);
+        X64Ope* callee = new_evacuation_x64ope(x64gen, evacuation_count);
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
         X64Ope* caller = new_reg_x64ope(X64_SUFFIX_QUAD, caller_id);
-        append_mov_code(codes, caller, callee, 0);
+        vector_push(codes, new_inst_x64(X64_INST_MOVX, caller, callee));
         evacuation_count++;
     }
 
@@ -198,14 +197,13 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
-        if (*caller_ref == immc->inst->dst->reg->reg_id) {
+        if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
         X64Ope* caller = new_reg_x64ope(X64_SUFFIX_QUAD, caller_id);
-        int callee_id = CALLEE_SAVED_REG_IDS[evacuation_count];
-        X64Ope* callee = new_reg_x64ope(X64_SUFFIX_QUAD, callee_id);
-        append_mov_code(codes, callee, caller, 0);
+        X64Ope* callee = new_evacuation_x64ope(x64gen, evacuation_count);
+        vector_push(codes, new_inst_x64(X64_INST_MOVX, callee, caller));
         evacuation_count++;
     }
     if (x64gen->evacuation_count < evacuation_count) {
@@ -227,6 +225,14 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     return codes;
 }
 
+X64Ope* new_evacuation_x64ope(X64gen* x64gen, int evacuation_index) {
+    if (evacuation_index < NUM_CALLEE_SAVED_REGS) {
+        return new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[evacuation_index]);
+    }
+    // all callee-saved registers are used, evacuate to the memory below the pushed callee-saved registers
+    return new_mem_x64ope(x64gen->frame_size + (evacuation_index + 1) * 8);
+}
+
 Vector* gen_enter_x64code(X64gen* x64gen) {
     Vector* codes = new_vector(&t_x64);
     Immc* immc = vector_at(x64gen->immcs, x64gen->index);
@@ -234,6 +240,7 @@ Vector* gen_enter_x64code(X64gen* x64gen) {
 
     ImmcOpe* immc_src = immc->inst->fst_src;
     int aligned_memory_size = min_multiple_of(immc_src->iliteral->signed_value, 16);
+    x64gen->frame_size = aligned_memory_size;
 
     X64Ope* bp = NULL;
     X64Ope* sp = NULL;
diff --git a/src/x64gen/x64gen.c b/src/x64gen/x64gen.c
index 47c9542..f29967a 100644
--- a/src/x64gen/x64gen.c
+++ b/src/x64gen/x64gen.c
@@ -18,6 +18,7 @@ X64gen* new_x64gen(Vector* immcs, Vector* liveseqs) {
     x64gen->liveseqs = liveseqs;
     x64gen->index = 0;
     x64gen->evacuation_count = 0;
+    x64gen->frame_size = 0;
     return x64gen;
 }
 
@@ -92,22 +93,31 @@ Vector* gen_function_x64code(X64gen* x64gen) {
     }
 
     int evacuation_count = x64gen->evacuation_count;
-    for (int i = 0; i < evacuation_count; i++) {
+    int num_pushed_regs = evacuation_count;
+    if (num_pushed_regs > NUM_CALLEE_SAVED_REGS) {
+        num_pushed_regs = NUM_CALLEE_SAVED_REGS;
+    }
+    int evacuation_memory_size = (evacuation_count - num_pushed_regs) * 8;
+    if (evacuation_count % 2 == 1) {
+        evacuation_memory_size += 8;
+    }
+
+    for (int i = 0; i < num_pushed_regs; i++) {
         X64Ope* src = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[i]);
         vector_push(head_codes, new_inst_x64(X64_INST_PUSHX, src, NULL));
     }
-    if (evacuation_count % 2 == 1) {
-        X64Ope* src = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, 8);
+    if (evacuation_memory_size > 0) {
+        X64Ope* src = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, evacuation_memory_size);
         X64Ope* dst = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(head_codes, new_inst_x64(X64_INST_SUBX, src, dst));
     }
 
-    if (evacuation_count % 2 == 1) {
-        X64Ope* src = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, 8);
+    if (evacuation_memory_size > 0) {
+        X64Ope* src = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, evacuation_memory_size);
         X64Ope* dst = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(tail_codes, new_inst_x64(X64_INST_ADDX, src, dst));
     }
-    for (int i = evacuation_count - 1; i >= 0; i--) {
+    for (int i = num_pushed_regs - 1; i >= 0; i--) {
         X64Ope* dst = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[i]);
         vector_push(tail_codes, new_inst_x64(X64_INST_POPX, NULL, dst));
     }
diff --git a/src/x64gen/x64gen.h b/src/x64gen/x64gen.h
index 2efe4bc..a8268f7 100644
--- a/src/x64gen/x64gen.h
+++ b/src/x64gen/x64gen.h
@@ -9,6 +9,7 @@ typedef struct X64gen {
     Vector* liveseqs;
     int index;
     int evacuation_count;
+    int frame_size;
 } X64gen;
 
 X64gen* new_x64gen(Vector* immcs, Vector* liveseqs);
-- 
2.43.0


From ed308d204873aca6816d82baae12177fa6e787dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:32 +0000
Subject: [PATCH 08/50] fix: do not clobber a live register when dividing by a
 constant

---
 src/x64gen/arithinst.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/x64gen/arithinst.c b/src/x64gen/arithinst.c
index 7181bc3..fb7408c 100644
--- a/src/x64gen/arithinst.c
+++ b/src/x64gen/arithinst.c
@@ -168,6 +168,14 @@ Vector* gen_divisional_common_x64code(X64gen* x64gen, X64RegisterId result_reg_i
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
             snd_src_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 2];
+            Set* alive_regs_set = create_alive_regs_set(x64gen->liveseqs);
+            if (set_contains(alive_regs_set, &snd_src_id)) {
+                snd_src_id = CALLEE_SAVED_REG_IDS[1];
+                if (x64gen->evacuation_count < 2) {
+                    x64gen->evacuation_count = 2;
+                }
+            }
+            delete_set(alive_regs_set);
 
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
-- 
2.43.0


From 7fe45df485f0e1b3d2d08c8c5b0da08498357d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:03 +0000
Subject: [PATCH 09/50] fix: apply every conversion of a cast chain

---
 src/immcgen/util.c | 61 +++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index e9ce2b6..9fa0315 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -107,38 +107,32 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     Srt* srt = immcgen->srt;
     Srt* child_srt = vector_at(srt->children, index);
 
-    DType* cast_dtype = NULL;
-    if (child_srt->type == SRT_CAST_EXPR) {
-        cast_dtype = child_srt->dtype;
-    }
-    while (child_srt->type == SRT_CAST_EXPR) {
-        immcgen->srt = child_srt;
-        index = 0;
-        child_srt = vector_at(child_srt->children, index);
-    }
-
     if (child_srt->type == SRT_ILITERAL_EXPR) {
-        immcgen->srt = srt;
-        DType* iliteral_dtype = cast_dtype == NULL ? child_srt->dtype : cast_dtype;
-        IntegerLiteral* iliteral = create_dtyped_iliteral(iliteral_dtype, child_srt->iliteral);
-        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(iliteral_dtype));
+        IntegerLiteral* iliteral = create_dtyped_iliteral(child_srt->dtype, child_srt->iliteral);
+        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(child_srt->dtype));
         return new_int_immcope(suffix, iliteral);
     }
 
-    append_child_immcode(immcgen, codes, index);
-    immcgen->srt = srt;
-
-    if (cast_dtype == NULL) {
+    if (child_srt->type != SRT_CAST_EXPR) {
+        append_child_immcode(immcgen, codes, index);
         ImmcRegister* reg = immcreg_copy(immcgen->expr_reg);
         return new_reg_immcope(immcgen->expr_reg_suffix, reg);
     }
 
-    ImmcRegister* src_reg = immcreg_copy(immcgen->expr_reg);
-    ImmcOpe* src = new_reg_immcope(immcgen->expr_reg_suffix, src_reg);
+    immcgen->srt = child_srt;
+    ImmcOpe* src = gen_child_int_immcope(immcgen, codes, 0);
+    immcgen->srt = srt;
 
+    DType* cast_dtype = child_srt->dtype;
     int cast_is_unsigned = dtype_isunsignedinteger(cast_dtype);
     ImmcSuffix cast_suffix = immcsuffix_get(dtype_nbytes(cast_dtype));
 
+    if (src->type == IMMC_OPERAND_INT) {
+        IntegerLiteral* iliteral = create_dtyped_iliteral(cast_dtype, src->iliteral);
+        delete_immcope(src);
+        return new_int_immcope(cast_suffix, iliteral);
+    }
+
     immcgen->next_reg_id++;
     ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, cast_is_unsigned);
     ImmcOpe* dst = new_reg_immcope(cast_suffix, dst_reg);
@@ -181,7 +175,7 @@ ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index) {
     }
 
     append_child_immcode(immcgen, codes, index);
-    return new_ptr_immcope(immcgen->next_reg_id);
+    return new_ptr_immcope(immcgen->expr_reg->reg_id);
 }
 
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
@@ -193,15 +187,22 @@ ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
 
 IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral) {
     int rank = dtype_scalar_rank(dtype);
+    int nbytes = dtype_nbytes(dtype);
+    unsigned long long value =
+        iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
 
     if (dtype_isunsignedinteger(dtype)) {
-        unsigned long long value =
-            iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
-        IntegerLiteralType type = iliteral_type_get(rank, 1);
-        return new_unsigned_iliteral(type, value);
-    } else {
-        long long value = iliteral_isunsigned(iliteral) ? (long long)iliteral->unsigned_value : iliteral->signed_value;
-        IntegerLiteralType type = iliteral_type_get(rank, 0);
-        return new_signed_iliteral(type, value);
+        if (nbytes == 4) {
+            value = (unsigned int)value;
+        }
+        return new_unsigned_iliteral(iliteral_type_get(rank, 1), value);
     }
-}
\ No newline at end of file
+
+    long long signed_value = (long long)value;
+    if (nbytes == 1) {
+        signed_value = (signed char)value;
+    } else if (nbytes == 4) {
+        signed_value = (int)value;
+    }
+    return new_signed_iliteral(iliteral_type_get(rank, 0), signed_value);
+}
-- 
2.43.0


From c1cc2cb2259c4c52f1799f59b5f631f1f11171d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:30 +0000
Subject: [PATCH 10/50] fix: generate code for casts in every operand position

---
 src/immcgen/expression.c | 18 ++++++++++++++++++
 src/immcgen/expression.h |  1 +
 src/immcgen/immcgen.c    |  3 +++
 3 files changed, 22 insertions(+)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 7e63e31..daab24f 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -347,6 +347,24 @@ Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+Vector* gen_cast_expr_immcode(Immcgen* immcgen) {
+    Vector* codes = new_vector(&t_immc);
+    Srt* srt = immcgen->srt;
+
+    if (srt->dtype->type == DTYPE_VOID) {
+        append_child_immcode(immcgen, codes, 0);
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
+    ImmcOpe* src = gen_child_reg_immcope(immcgen, codes, 0);
+    ImmcOpe* dst = create_dest_reg_immcope(immcgen);
+    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
+
+    update_non_void_expr_register(immcgen, dst);
+    return codes;
+}
+
 Vector* gen_unary_expr_immcode(Immcgen* immcgen) {
     Vector* codes = NULL;
     Srt* srt = immcgen->srt;
diff --git a/src/immcgen/expression.h b/src/immcgen/expression.h
index 29d4d84..ea5618a 100644
--- a/src/immcgen/expression.h
+++ b/src/immcgen/expression.h
@@ -15,6 +15,7 @@ Vector* gen_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen);
 Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen);
+Vector* gen_cast_expr_immcode(Immcgen* immcgen);
 Vector* gen_unary_expr_immcode(Immcgen* immcgen);
 Vector* gen_postfix_expr_immcode(Immcgen* immcgen);
 Vector* gen_primary_expr_immcode(Immcgen* immcgen);
diff --git a/src/immcgen/immcgen.c b/src/immcgen/immcgen.c
index 42c1bdf..7272f05 100644
--- a/src/immcgen/immcgen.c
+++ b/src/immcgen/immcgen.c
@@ -145,6 +145,9 @@ Vector* immcgen_generate_immcode(Immcgen* immcgen) {
         case SRT_MOD_EXPR:
             codes = gen_multiplicative_expr_immcode(immcgen);
             break;
+        case SRT_CAST_EXPR:
+            codes = gen_cast_expr_immcode(immcgen);
+            break;
         case SRT_PREDEC_EXPR:
         case SRT_PREINC_EXPR:
         case SRT_ADDR_EXPR:
-- 
2.43.0


From b0b8ce2b3d5ec0ce8b65085e7a894bf6a8399725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:18 +0000
Subject: [PATCH 11/50] fix: load constants wider than a 32-bit immediate into
 a register

---
 src/immcgen/util.c    | 24 ++++++++++++++++++++++--
 src/x64gen/datainst.c |  6 ++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index 9fa0315..c8b01a3 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -2,11 +2,13 @@
 #include "../error/errint.h"
 #include "../immc/immc.h"
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
 
 void append_child_jmp_cond_immcode(Immcgen* immcgen, Vector* codes, int index, ImmcOpe* label, int jmp_true);
 ErrorableInt* get_cjmp_inst_type(Srt* srt, int index, int jmp_true);
+ImmcOpe* create_int_immcope(Immcgen* immcgen, Vector* codes, ImmcSuffix suffix, IntegerLiteral* iliteral);
 
 void append_children_immcode(Immcgen* immcgen, Vector* codes) {
     Srt* srt = immcgen->srt;
@@ -110,7 +112,7 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     if (child_srt->type == SRT_ILITERAL_EXPR) {
         IntegerLiteral* iliteral = create_dtyped_iliteral(child_srt->dtype, child_srt->iliteral);
         ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(child_srt->dtype));
-        return new_int_immcope(suffix, iliteral);
+        return create_int_immcope(immcgen, codes, suffix, iliteral);
     }
 
     if (child_srt->type != SRT_CAST_EXPR) {
@@ -130,7 +132,7 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     if (src->type == IMMC_OPERAND_INT) {
         IntegerLiteral* iliteral = create_dtyped_iliteral(cast_dtype, src->iliteral);
         delete_immcope(src);
-        return new_int_immcope(cast_suffix, iliteral);
+        return create_int_immcope(immcgen, codes, cast_suffix, iliteral);
     }
 
     immcgen->next_reg_id++;
@@ -141,6 +143,24 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     return immcope_copy(dst);
 }
 
+ImmcOpe* create_int_immcope(Immcgen* immcgen, Vector* codes, ImmcSuffix suffix, IntegerLiteral* iliteral) {
+    int is_unsigned = iliteral_isunsigned(iliteral);
+    int is_immediate = is_unsigned
+                           ? iliteral->unsigned_value <= INT_MAX
+                           : INT_MIN <= iliteral->signed_value && iliteral->signed_value <= INT_MAX;
+
+    ImmcOpe* src = new_int_immcope(suffix, iliteral);
+    if (is_immediate || immcsuffix_tonbytes(suffix) < 8) {
+        return src;
+    }
+
+    // only load instruction can have an immediate value wider than 32 bits
+    immcgen->next_reg_id++;
+    ImmcOpe* dst = new_reg_immcope(suffix, new_immcreg(immcgen->next_reg_id, is_unsigned));
+    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
+    return immcope_copy(dst);
+}
+
 ImmcOpe* gen_child_reg_immcope(Immcgen* immcgen, Vector* codes, int index) {
     ImmcOpe* src = gen_child_int_immcope(immcgen, codes, index);
     if (src->type == IMMC_OPERAND_REG) {
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index db844d8..d6604d2 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -272,6 +272,12 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
     switch (immc_src->type) {
         case IMMC_OPERAND_INT: {
             X64Ope* src = new_int_x64ope(X64_SUFFIX_QUAD, iliteral_copy(immc_src->iliteral));
+            if (iliteral_isunsigned(src->iliteral) && src->iliteral->unsigned_value > INT_MAX) {
+                // an immediate value of pushq is sign-extended from 32 bits
+                int value = (int)src->iliteral->unsigned_value;
+                delete_x64ope(src);
+                src = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, value);
+            }
             vector_push(codes, new_inst_x64(X64_INST_PUSHX, src, NULL));
             break;
         }
-- 
2.43.0


From 92b1eba2081cc1b8797c897cb086f5678f8f8f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:20 +0000
Subject: [PATCH 12/50] fix: diagnose unterminated character constants and
 string literals

---
 src/lexer/reader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 4b6600e..52a5808 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -118,6 +118,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
         case '\n':
             err = new_error("newline appeared in character constant");
             break;
+        case EOF:
+            err = new_error("character constant is not terminated");
+            break;
         case '\'':
             err = new_error("character constant is empty");
             break;
@@ -139,6 +142,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in character constant");
                 break;
+            case EOF:
+                err = new_error("character constant is not terminated");
+                break;
             default:
                 break;
         }
@@ -176,6 +182,9 @@ LexerReturnItem* read_string_literal(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in string literal");
                 break;
+            case EOF:
+                err = new_error("string literal is not terminated");
+                break;
             default:
                 break;
         }
-- 
2.43.0


From 1c85ef6da8e16c1463aa77273709e9c87512e9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:19 +0000
Subject: [PATCH 13/50] fix: handle bytes above 0x7f in literals

---
 src/lexer/reader.c        | 2 +-
 src/lexer/util.c          | 3 ++-
 src/literal/sliteral.c    | 2 +-
 src/resolver/expression.c | 3 ++-
 src/x64gen/datainst.c     | 4 ++--
 5 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 52a5808..52aeda9 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -408,7 +408,7 @@ ErrorableInt* read_hexadecimal_escape_seqence(Lexer* lexer) {
         if (hexdigit_ref == NULL) {
             break;
         }
-        value = value * 0x10 + *hexdigit_ref;
+        value = (value * 0x10 + *hexdigit_ref) & 0xff;
         lexer->content_index++;
     }
 
diff --git a/src/lexer/util.c b/src/lexer/util.c
index 3922573..f4091c5 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -204,7 +204,8 @@ int get_content_top(Lexer* lexer) {
     if (lexer->content_index >= lexer->content_size) {
         return EOF;
     }
-    return lexer->content[lexer->content_index];
+    // distinguish the byte 0xff from EOF
+    return (unsigned char)lexer->content[lexer->content_index];
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
diff --git a/src/literal/sliteral.c b/src/literal/sliteral.c
index a204574..b874b6e 100644
--- a/src/literal/sliteral.c
+++ b/src/literal/sliteral.c
@@ -102,7 +102,7 @@ char* sliteral_display_string(StringLiteral* sliteral) {
                 len += 2;
                 break;
             default:
-                sprintf(display_string + len, "\\%03o", c);
+                sprintf(display_string + len, "\\%03o", (unsigned char)c);
                 len += 4;
                 break;
         }
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 0bc7ec4..48178cb 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1659,7 +1659,8 @@ ResolverReturn* resolve_character_expr(Resolver* resolver) {
     Ast* ast = resolver->ast;
 
     DType* dtype = new_integer_dtype(DTYPE_INT);
-    IntegerLiteral* iliteral = iliteral_copy(ast->iliteral);
+    // char has the same range of values as signed char
+    IntegerLiteral* iliteral = new_signed_iliteral(ast->iliteral->type, (signed char)ast->iliteral->signed_value);
     srt = new_iliteral_srt(dtype, iliteral);
     return new_resolverret(srt);
 }
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index d6604d2..284cd7b 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -112,7 +112,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     while (index_offset + unit_size <= immc_src->sliteral->size) {
         unsigned long long unit_value = 0ull;
         for (int i = 0; i < unit_size; i++) {
-            unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+            unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
             unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
         }
 
@@ -154,7 +154,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     X64Suffix suffix = x64suffix_get(boundary_rest_bytes);
     unsigned long long unit_value = 0ull;
     for (int i = 0; i < num_rest_bytes; i++) {
-        unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+        unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
         unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
     }
 
-- 
2.43.0


From 1a130700152ce1db9e53b5ccf86ff1d564d2d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:21 +0000
Subject: [PATCH 14/50] fix: do not compute a negative hash for a non-ASCII
 string

---
 src/common/type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/type.c b/src/common/type.c
index 4be65e2..eb5abb9 100644
--- a/src/common/type.c
+++ b/src/common/type.c
@@ -64,7 +64,7 @@ int hash_string(char* str) {
     int a = 151, b = 587;
     int hash = 0;
 
-    char* str_ptr = str;
+    unsigned char* str_ptr = (unsigned char*)str;
     while (*str_ptr != '\0') {
         hash = (*str_ptr * a + hash) % b;
         str_ptr++;
-- 
2.43.0


From 708097f8f4c2f9590f8d462e63cab3b7af12874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:40 +0000
Subject: [PATCH 15/50] fix: do not duplicate a map key that lies behind a
 removed cell

---
 src/map/map.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/map/map.c b/src/map/map.c
index 0e6b81f..940ca5b 100644
--- a/src/map/map.c
+++ b/src/map/map.c
@@ -81,14 +81,31 @@ void* map_get_with_default(Map* map, void* key, void* default_value) {
 }
 
 void map_add(Map* map, void* key, void* value) {
-    int hash = map->t_key->hash_object(key) % map->capacity;
-    MapCell* cell = map->container[hash];
+    int original_hash = map->t_key->hash_object(key) % map->capacity;
+    MapCell* cell = map->container[original_hash];
 
-    while (cell != NULL && !cell->deleted) {
-        if (map->t_key->compare_object(cell->key, key) == 0) {
+    int hash = original_hash;
+    int deleted_hash = -1;
+    int found = 0;
+    while (cell != NULL) {
+        if (!cell->deleted && map->t_key->compare_object(cell->key, key) == 0) {
+            found = 1;
             break;
         }
+        if (cell->deleted && deleted_hash == -1) {
+            deleted_hash = hash;
+        }
         hash = (hash + 1) % map->capacity;
+        if (hash == original_hash) {
+            break;
+        }
+
+        cell = map->container[hash];
+    }
+
+    // reuse a deleted cell only if the key does not exist behind it
+    if (!found && deleted_hash != -1) {
+        hash = deleted_hash;
         cell = map->container[hash];
     }
 
@@ -96,7 +113,9 @@ void map_add(Map* map, void* key, void* value) {
         delete_mapcell(cell, map->t_key->delete_object, map->t_value->delete_object);
     }
     map->container[hash] = new_mapcell(key, value);
-    map->size++;
+    if (!found) {
+        map->size++;
+    }
 
     int std_capacity = 2 * (map->size + 1) - 1;
     if (std_capacity >= map->capacity) {
-- 
2.43.0


From 9c3613e48d02e1f964a364d9a6bb0f092b399a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:08 +0000
Subject: [PATCH 16/50] fix: choose the type of an integer constant by its
 value

---
 src/lexer/util.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lexer/util.c b/src/lexer/util.c
index f4091c5..42e26c6 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -1,6 +1,7 @@
 #include "./util.h"
 #include "../common/type.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -209,12 +210,24 @@ int get_content_top(Lexer* lexer) {
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
+    unsigned long long unsigned_value = strtoull(value, NULL, base);
+
+    // promote a type until it can represent the value
+    if (type == INTEGER_INT && unsigned_value > INT_MAX) {
+        type = (base != 10 && unsigned_value <= UINT_MAX) ? INTEGER_UNSIGNED_INT : INTEGER_LONG;
+    } else if (type == INTEGER_UNSIGNED_INT && unsigned_value > UINT_MAX) {
+        type = INTEGER_UNSIGNED_LONG;
+    }
+    if (type == INTEGER_LONG && unsigned_value > LONG_MAX) {
+        type = INTEGER_UNSIGNED_LONG;
+    } else if (type == INTEGER_LONGLONG && unsigned_value > LLONG_MAX) {
+        type = INTEGER_UNSIGNED_LONGLONG;
+    }
+
     if (iliteral_type_isunsigned(type)) {
-        unsigned long long unsigned_value = strtoull(value, NULL, base);
         return new_unsigned_iliteral(type, unsigned_value);
     } else {
-        long long signed_value = strtoll(value, NULL, base);
-        return new_signed_iliteral(type, signed_value);
+        return new_signed_iliteral(type, (long long)unsigned_value);
     }
 }
 
-- 
2.43.0


From 7927ed00f582d0f6d6dcd92a203dab7a902a0d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:04 +0000
Subject: [PATCH 17/50] fix: compare with case labels wider than 32 bits

---
 src/x64gen/ctrlinst.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 79e9151..10bfb53 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -3,6 +3,7 @@
 #include "../immc/immc.h"
 #include "./util.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -95,6 +96,13 @@ Vector* gen_jcmp_common_x64code(X64gen* x64gen, X64InstType type) {
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
             X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            long long value = snd_src->iliteral->signed_value;
+            if (!iliteral_isunsigned(snd_src->iliteral) && (value < INT_MIN || value > INT_MAX)) {
+                // an immediate value of cmpq is sign-extended from 32 bits
+                X64Ope* ax_dst = new_reg_x64ope(suffix, AX_REG_ID);
+                vector_push(codes, new_inst_x64(X64_INST_MOVX, snd_src, ax_dst));
+                snd_src = new_reg_x64ope(suffix, AX_REG_ID);
+            }
             vector_push(codes, new_inst_x64(X64_INST_CMPX, snd_src, fst_src));
             break;
         }
-- 
2.43.0


From 406d1b8db385e7244134f089a2bbfe5388bbbf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:44 +0000
Subject: [PATCH 18/50] fix: size output buffers by their content

---
 src/error/error.c |  8 +++++---
 src/x64/data.c    | 25 ++++++++++---------------
 src/x64/inst.c    | 26 ++++++++++++++++++--------
 src/x64/label.c   |  6 +++---
 src/x64/ope.c     |  9 ++++++---
 5 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/src/error/error.c b/src/error/error.c
index 36faa7b..7d98623 100644
--- a/src/error/error.c
+++ b/src/error/error.c
@@ -13,13 +13,15 @@ BaseType t_error = {
 Error* new_error(char* format, ...) {
     Error* err = malloc(sizeof(Error));
 
-    // TODO: fix to prevent buffer overflow
-    char* message = malloc(200 * sizeof(char));
     va_list arg;
     va_start(arg, format);
+    int message_length = vsnprintf(NULL, 0, format, arg);
+    va_end(arg);
+
+    char* message = malloc((message_length + 1) * sizeof(char));
+    va_start(arg, format);
     vsprintf(message, format, arg);
     va_end(arg);
-    message = realloc(message, (strlen(message) + 1) * sizeof(char));
 
     err->message = message;
 
diff --git a/src/x64/data.c b/src/x64/data.c
index 22b322d..5b182ed 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -45,44 +45,39 @@ X64Data* x64data_copy(X64Data* x64data) {
 }
 
 char* x64data_tostring(X64Data* x64data) {
-    // TODO: fix to prevent buffer overflow
-    char* data_str = malloc(200 * sizeof(char));
+    char* directive = NULL;
     char* display_str = NULL;
 
     switch (x64data->type) {
         case X64_DATA_BYTE:
+            directive = ".byte";
             display_str = iliteral_display_string(x64data->iliteral);
-            sprintf(data_str, "\t.byte\t%s\n", display_str);
-            free(display_str);
             break;
         case X64_DATA_WORD:
+            directive = ".word";
             display_str = iliteral_display_string(x64data->iliteral);
-            sprintf(data_str, "\t.word\t%s\n", display_str);
-            free(display_str);
             break;
         case X64_DATA_LONG:
+            directive = ".long";
             display_str = iliteral_display_string(x64data->iliteral);
-            sprintf(data_str, "\t.long\t%s\n", display_str);
-            free(display_str);
             break;
         case X64_DATA_QUAD:
+            directive = ".quad";
             display_str = iliteral_display_string(x64data->iliteral);
-            sprintf(data_str, "\t.quad\t%s\n", display_str);
-            free(display_str);
             break;
         case X64_DATA_ZERO:
+            directive = ".zero";
             display_str = iliteral_display_string(x64data->iliteral);
-            sprintf(data_str, "\t.zero\t%s\n", display_str);
-            free(display_str);
             break;
         case X64_DATA_STR:
+            directive = ".ascii";
             display_str = sliteral_display_string(x64data->sliteral);
-            sprintf(data_str, "\t.ascii\t%s\n", display_str);
-            free(display_str);
             break;
     }
 
-    data_str = realloc(data_str, (strlen(data_str) + 1) * sizeof(char));
+    char* data_str = malloc((strlen(directive) + strlen(display_str) + 4) * sizeof(char));
+    sprintf(data_str, "\t%s\t%s\n", directive, display_str);
+    free(display_str);
     return data_str;
 }
 
diff --git a/src/x64/inst.c b/src/x64/inst.c
index f9c4367..4442ee0 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -41,26 +41,36 @@ X64Inst* x64inst_copy(X64Inst* x64inst) {
 char* x64inst_tostring(X64Inst* x64inst) {
     char* x64instcode_tostring(X64Inst * x64inst);
 
-    // TODO: fix to prevent buffer overflow
-    char* code_str = malloc(200 * sizeof(char));
-    memset(code_str, 0, 200 * sizeof(char));
-
     char* instcode_string = x64instcode_tostring(x64inst);
+    char* src_string = NULL;
+    char* dst_string = NULL;
+    size_t code_capacity = strlen(instcode_string) + 10;
+
+    if (x64inst->src != NULL && x64inst->src->type != X64_OPERAND_SUFFIX) {
+        src_string = x64ope_tostring(x64inst->src);
+        code_capacity += strlen(src_string);
+    }
+    if (x64inst->dst != NULL && x64inst->dst->type != X64_OPERAND_SUFFIX) {
+        dst_string = x64ope_tostring(x64inst->dst);
+        code_capacity += strlen(dst_string);
+    }
+
+    char* code_str = malloc(code_capacity * sizeof(char));
+    memset(code_str, 0, code_capacity * sizeof(char));
+
     strcat(code_str, "\t");
     strcat(code_str, instcode_string);
     free(instcode_string);
 
     int operand_appears = 0;
-    if (x64inst->src != NULL && x64inst->src->type != X64_OPERAND_SUFFIX) {
-        char* src_string = x64ope_tostring(x64inst->src);
+    if (src_string != NULL) {
         strcat(code_str, "\t");
         strcat(code_str, src_string);
         free(src_string);
         operand_appears = 1;
     }
 
-    if (x64inst->dst != NULL && x64inst->dst->type != X64_OPERAND_SUFFIX) {
-        char* dst_string = x64ope_tostring(x64inst->dst);
+    if (dst_string != NULL) {
         strcat(code_str, operand_appears ? ", " : "\t");
         strcat(code_str, dst_string);
         free(dst_string);
diff --git a/src/x64/label.c b/src/x64/label.c
index f275040..8ad664f 100644
--- a/src/x64/label.c
+++ b/src/x64/label.c
@@ -25,9 +25,9 @@ X64Label* x64label_copy(X64Label* x64label) {
 }
 
 char* x64label_tostring(X64Label* x64label) {
-    // TODO: fix to prevent buffer overflow
-    char* label_str = malloc(200 * sizeof(char));
-    memset(label_str, 0, 200 * sizeof(char));
+    size_t label_capacity = 2 * strlen(x64label->name) + 50;
+    char* label_str = malloc(label_capacity * sizeof(char));
+    memset(label_str, 0, label_capacity * sizeof(char));
 
     switch (x64label->type) {
         case X64_LABEL_FUNCTION:
diff --git a/src/x64/ope.c b/src/x64/ope.c
index ede4d99..b949356 100644
--- a/src/x64/ope.c
+++ b/src/x64/ope.c
@@ -103,12 +103,15 @@ X64Ope* x64ope_copy(X64Ope* x64ope) {
 }
 
 char* x64ope_tostring(X64Ope* x64ope) {
-    // TODO: fix to prevent buffer overflow
-    char* ope_str = malloc(50 * sizeof(char));
+    size_t ope_capacity = 50;
+    if (x64ope->label_name != NULL) {
+        ope_capacity += strlen(x64ope->label_name);
+    }
+    char* ope_str = malloc(ope_capacity * sizeof(char));
 
     switch (x64ope->type) {
         case X64_OPERAND_SUFFIX:
-            memset(ope_str, 0, 50 * sizeof(char));
+            memset(ope_str, 0, ope_capacity * sizeof(char));
             break;
         case X64_OPERAND_REG:
             sprintf(ope_str, "%s", reg_name(x64ope->reg_id, x64ope->suffix));
-- 
2.43.0


From b900b724bfb19c0dd5a3468f38a9cd2ff2228d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:15 +0000
Subject: [PATCH 19/50] fix: emit alert characters in a form the assembler
 knows

---
 src/x64/data.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/x64/data.c b/src/x64/data.c
index 5b182ed..5fe5eef 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -9,6 +9,7 @@
 #include <string.h>
 
 X64Data* new_base_x64data(X64DataType type);
+char* assembler_display_string(StringLiteral* sliteral);
 
 X64Data* new_int_x64data(X64DataType type, IntegerLiteral* iliteral) {
     X64Data* x64data = new_base_x64data(type);
@@ -71,7 +72,7 @@ char* x64data_tostring(X64Data* x64data) {
             break;
         case X64_DATA_STR:
             directive = ".ascii";
-            display_str = sliteral_display_string(x64data->sliteral);
+            display_str = assembler_display_string(x64data->sliteral);
             break;
     }
 
@@ -81,6 +82,31 @@ char* x64data_tostring(X64Data* x64data) {
     return data_str;
 }
 
+char* assembler_display_string(StringLiteral* sliteral) {
+    char* display_str = sliteral_display_string(sliteral);
+    char* assembler_str = malloc((2 * strlen(display_str) + 1) * sizeof(char));
+
+    int len = 0;
+    for (char* c = display_str; *c != '\0'; c++) {
+        if (*c != '\\') {
+            assembler_str[len++] = *c;
+            continue;
+        }
+        c++;
+        if (*c == 'a') {
+            // assembler does not know alert escape sequence
+            len += sprintf(assembler_str + len, "\\%03o", '\a');
+        } else {
+            assembler_str[len++] = '\\';
+            assembler_str[len++] = *c;
+        }
+    }
+    assembler_str[len] = '\0';
+
+    free(display_str);
+    return assembler_str;
+}
+
 void delete_x64data(X64Data* x64data) {
     if (x64data->iliteral != NULL) {
         delete_iliteral(x64data->iliteral);
-- 
2.43.0


From a1d3f79b4309570a899dac244d1484baca2fc05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:16 +0000
Subject: [PATCH 20/50] fix: keep the stack aligned for calls nested in
 arguments

---
 src/x64gen/ctrlinst.c | 17 +++++++++++------
 src/x64gen/datainst.c |  1 +
 src/x64gen/x64gen.c   |  3 +++
 src/x64gen/x64gen.h   |  2 ++
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 10bfb53..ed9cea5 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -178,6 +178,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (int i = 0; i < num_args && i < NUM_ARG_REGS; i++) {
         X64Ope* arg = new_reg_x64ope(X64_SUFFIX_QUAD, ARG_REG_IDS[i]);
         vector_push(codes, new_inst_x64(X64_INST_POPX, NULL, arg));
+        x64gen->stack_depth--;
     }
 
     X64Ope* ret = new_reg_x64ope(X64_SUFFIX_QUAD, AX_REG_ID);
@@ -298,10 +299,14 @@ Vector* gen_prep_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS && num_args % 2 == 1) {
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+    vector_push(x64gen->call_stack_depths, new_integer(x64gen->stack_depth));
+    if ((x64gen->stack_depth + num_mem_args) % 2 == 1) {
+        // keep stack aligned even if arguments of outer calls have already been pushed
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, 8);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_SUBX, imm, sp));
+        x64gen->stack_depth++;
     }
 
     liveseqs_next(x64gen->liveseqs);
@@ -310,14 +315,14 @@ Vector* gen_prep_x64code(X64gen* x64gen) {
 
 Vector* gen_clean_x64code(X64gen* x64gen) {
     Vector* codes = new_vector(&t_x64);
-    Immc* immc = vector_at(x64gen->immcs, x64gen->index);
     x64gen->index++;
 
-    ImmcOpe* immc_src = immc->inst->fst_src;
+    int* call_stack_depth_ref = vector_pop(x64gen->call_stack_depths);
+    int mem_param_offset = (x64gen->stack_depth - *call_stack_depth_ref) * 8;
+    x64gen->stack_depth = *call_stack_depth_ref;
+    free(call_stack_depth_ref);
 
-    int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS) {
-        int mem_param_offset = ((num_args - NUM_ARG_REGS + 1) / 2) * 16;
+    if (mem_param_offset > 0) {
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, mem_param_offset);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_ADDX, imm, sp));
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 284cd7b..236a943 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -291,6 +291,7 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
                             "unreachable statement (in gen_starg_x64code)\n");
             exit(1);
     }
+    x64gen->stack_depth++;
 
     liveseqs_next(x64gen->liveseqs);
     return codes;
diff --git a/src/x64gen/x64gen.c b/src/x64gen/x64gen.c
index f29967a..2017c09 100644
--- a/src/x64gen/x64gen.c
+++ b/src/x64gen/x64gen.c
@@ -19,6 +19,8 @@ X64gen* new_x64gen(Vector* immcs, Vector* liveseqs) {
     x64gen->index = 0;
     x64gen->evacuation_count = 0;
     x64gen->frame_size = 0;
+    x64gen->stack_depth = 0;
+    x64gen->call_stack_depths = new_vector(&t_integer);
     return x64gen;
 }
 
@@ -170,5 +172,6 @@ Vector* gen_variable_x64code(X64gen* x64gen) {
 void delete_x64gen(X64gen* x64gen) {
     delete_vector(x64gen->immcs);
     delete_vector(x64gen->liveseqs);
+    delete_vector(x64gen->call_stack_depths);
     free(x64gen);
 }
diff --git a/src/x64gen/x64gen.h b/src/x64gen/x64gen.h
index a8268f7..2e08d5b 100644
--- a/src/x64gen/x64gen.h
+++ b/src/x64gen/x64gen.h
@@ -10,6 +10,8 @@ typedef struct X64gen {
     int index;
     int evacuation_count;
     int frame_size;
+    int stack_depth;
+    Vector* call_stack_depths;
 } X64gen;
 
 X64gen* new_x64gen(Vector* immcs, Vector* liveseqs);
-- 
2.43.0


From 4309016c46851a0d2dbd2d7228421aeedb7c04f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:37 +0000
Subject: [PATCH 21/50] fix: zero-fill members of every integer type

---
 src/resolver/declaration.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index c2b5219..c9b4826 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1070,6 +1070,12 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
     switch (dtype->type) {
         case DTYPE_CHAR:
         case DTYPE_INT:
+        case DTYPE_UNSIGNED_INT:
+        case DTYPE_LONG:
+        case DTYPE_UNSIGNED_LONG:
+        case DTYPE_LONGLONG:
+        case DTYPE_UNSIGNED_LONGLONG:
+        case DTYPE_ENUM:
         case DTYPE_POINTER:
             // resolve_zero_scalar_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_scalar_initializer(resolver));
-- 
2.43.0


From e1cfc75eea9a52f55e2abbed238eceead8c8b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:38 +0000
Subject: [PATCH 22/50] fix: advance past the padding of a struct when
 initializing a local array of structs

---
 src/immcgen/declaration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 67535f2..5954fd3 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -243,6 +243,7 @@ Vector* gen_local_struct_initializer_immcode(Immcgen* immcgen) {
         immcgen->initialized_offset = offset - member->memory_offset;
         append_child_immcode(immcgen, codes, i);
     }
+    immcgen->initialized_offset = offset - dtype_nbytes(dtype);
 
     return codes;
 }
-- 
2.43.0


From 947f358b5af67ffb7299ef21a3aa7de177393078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:05 +0000
Subject: [PATCH 23/50] fix: index pointers with char operands

---
 src/immcgen/expression.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index daab24f..69023d5 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -268,6 +268,14 @@ Vector* gen_pointer_additive_expr_immcode(Immcgen* immcgen) {
 
     ImmcOpe* fst_src = gen_child_reg_immcope(immcgen, codes, 0);
     ImmcOpe* snd_src = gen_child_reg_immcope(immcgen, codes, 1);
+    if (snd_src->suffix == IMMC_SUFFIX_BYTE) {
+        // offset in bytes does not fit in the index type
+        immcgen->next_reg_id++;
+        ImmcRegister* index_reg = new_signed_immcreg(immcgen->next_reg_id);
+        ImmcOpe* index_dst = new_reg_immcope(IMMC_SUFFIX_LONG, index_reg);
+        vector_push(codes, new_inst_immc(IMMC_INST_LOAD, index_dst, snd_src, NULL));
+        snd_src = immcope_copy(index_dst);
+    }
     ImmcOpe* dst = create_dest_reg_immcope(immcgen);
 
     Srt* lhs_srt = vector_at(srt->children, 0);
-- 
2.43.0


From 30ddef9372080c022ce27f459aa8c03c69d36ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:30 +0000
Subject: [PATCH 24/50] fix: do not write behind a string initializer in an
 aggregate

---
 src/immcgen/declaration.c | 38 +++++++++++++++++++++++++++++++++++---
 src/immcgen/immcgen.c     |  1 +
 src/immcgen/immcgen.h     |  1 +
 3 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 5954fd3..2a41b27 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -1,5 +1,6 @@
 #include "./declaration.h"
 #include "../common/type.h"
+#include "../common/util.h"
 #include "../dtype/dtype.h"
 #include "../immc/immc.h"
 #include "../immc/util.h"
@@ -7,6 +8,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 Vector* gen_decl_list_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
@@ -88,7 +90,10 @@ Vector* gen_local_init_decl_immcode(Immcgen* immcgen) {
 
     immcgen->initialized_dtype = decl_symbol->dtype;
     immcgen->initialized_offset = decl_symbol->memory_offset;
+    immcgen->initialized_end_offset =
+        decl_symbol->memory_offset - min_multiple_of(dtype_nbytes(decl_symbol->dtype), 4);
     append_child_immcode(immcgen, codes, 1);
+    immcgen->initialized_end_offset = -1;
     immcgen->initialized_offset = -1;
     immcgen->initialized_dtype = NULL;
 
@@ -178,18 +183,45 @@ Vector* gen_global_string_initializer_immcode(Immcgen* immcgen) {
 }
 
 Vector* gen_local_string_initializer_immcode(Immcgen* immcgen) {
+    int string_padding_nbytes(int size);
+
     Vector* codes = new_vector(&t_immc);
     Srt* srt = vector_at(immcgen->srt->children, 0);
 
-    ImmcOpe* dst = new_mem_immcope(immcgen->initialized_offset);
-    ImmcOpe* src = new_str_immcope(sliteral_copy(srt->sliteral));
+    StringLiteral* sliteral = srt->sliteral;
+    int end_offset = immcgen->initialized_offset - sliteral->size;
+
+    int index = 0;
+    while (index < sliteral->size) {
+        int chunk_size = sliteral->size - index;
+        while (string_padding_nbytes(chunk_size) > end_offset - immcgen->initialized_end_offset) {
+            // padding of the last unit would overwrite memory behind the initialized object
+            chunk_size--;
+        }
+
+        ImmcOpe* dst = new_mem_immcope(immcgen->initialized_offset - index);
+        char* chunk = malloc(chunk_size * sizeof(char));
+        memcpy(chunk, sliteral->value + index, chunk_size * sizeof(char));
+        ImmcOpe* src = new_str_immcope(new_sliteral(chunk, chunk_size));
+        vector_push(codes, new_inst_immc(IMMC_INST_STR, dst, src, NULL));
 
-    vector_push(codes, new_inst_immc(IMMC_INST_STR, dst, src, NULL));
+        index += chunk_size;
+    }
     immcgen->initialized_offset -= dtype_nbytes(immcgen->initialized_dtype);
 
     return codes;
 }
 
+int string_padding_nbytes(int size) {
+    // string is stored in units of 8 bytes and the rest is stored in a unit of 1, 2, 4 or 8 bytes
+    int num_rest_bytes = size % 8;
+    int unit_nbytes = 1;
+    while (unit_nbytes < num_rest_bytes) {
+        unit_nbytes *= 2;
+    }
+    return num_rest_bytes == 0 ? 0 : unit_nbytes - num_rest_bytes;
+}
+
 Vector* gen_struct_initializer_immcode(Immcgen* immcgen) {
     Vector* gen_global_struct_initializer_immcode(Immcgen * immcgen);
     Vector* gen_local_struct_initializer_immcode(Immcgen * immcgen);
diff --git a/src/immcgen/immcgen.c b/src/immcgen/immcgen.c
index 7272f05..3e4c629 100644
--- a/src/immcgen/immcgen.c
+++ b/src/immcgen/immcgen.c
@@ -17,6 +17,7 @@ Immcgen* new_immcgen(Srt* srt) {
     immcgen->next_reg_id = -1;
     immcgen->initialized_dtype = NULL;
     immcgen->initialized_offset = -1;
+    immcgen->initialized_end_offset = -1;
     immcgen->continue_label_id = -1;
     immcgen->break_label_id = -1;
     immcgen->return_label_id = -1;
diff --git a/src/immcgen/immcgen.h b/src/immcgen/immcgen.h
index 935f91b..345127f 100644
--- a/src/immcgen/immcgen.h
+++ b/src/immcgen/immcgen.h
@@ -16,6 +16,7 @@ typedef struct Immcgen {
     int next_reg_id;
     DType* initialized_dtype;
     int initialized_offset;
+    int initialized_end_offset;
     int continue_label_id;
     int break_label_id;
     int return_label_id;
-- 
2.43.0


From f102a3549cc049453ad1c93be44ba7d35c8d061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:46 +0000
Subject: [PATCH 25/50] fix: divide the difference of pointers as a signed
 value

---
 src/immcgen/expression.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 69023d5..d32a231 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -318,6 +318,9 @@ Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen) {
     ImmcOpe* div_fst_src = immcope_copy(dst);
     ImmcOpe* div_snd_src = new_signed_int_immcope(div_fst_src->suffix, INTEGER_INT, nbytes);
     ImmcOpe* div_dst = immcope_copy(dst);
+    // difference of addresses may be negative
+    div_fst_src->reg->is_unsigned = 0;
+    div_dst->reg->is_unsigned = 0;
 
     vector_push(codes, new_inst_immc(IMMC_INST_SUB, dst, fst_src, snd_src));
 
-- 
2.43.0


From 20710c8a0a191df9494d7705379437a896b08589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:23 +0000
Subject: [PATCH 26/50] fix: diagnose tags and typedef names of the wrong kind

---
 src/resolver/declaration.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index c9b4826..fc81b63 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -226,6 +226,13 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     if (members == NULL) {
         DType* unnamed_dtype = tagtable_search(resolver->tag_table, struct_name);
         int nbytes = 0, alignment = 0;
+        if (unnamed_dtype != NULL && unnamed_dtype->type != DTYPE_STRUCT) {
+            errs = new_vector(&t_error);
+            err = new_error("tag '%s' is not a struct", struct_name);
+            vector_push(errs, err);
+            free(struct_name);
+            return new_resolverret_dtype_errors(errs);
+        }
         if (unnamed_dtype != NULL) {
             nbytes = unnamed_dtype->dstruct->nbytes;
             alignment = unnamed_dtype->dstruct->alignment;
@@ -567,9 +574,17 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
 
 ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
     DType* dtype = NULL;
+    Vector* errs = NULL;
+    Error* err = NULL;
 
     Ast* ast = resolver->ast;
     Symbol* symbol = symboltable_search(resolver->symbol_table, ast->ident_name);
+    if (symbol == NULL || symbol->dtype->type != DTYPE_TYPEDEF) {
+        errs = new_vector(&t_error);
+        err = new_error("typedef-name '%s' is used before declared", ast->ident_name);
+        vector_push(errs, err);
+        return new_resolverret_dtype_errors(errs);
+    }
 
     dtype = dtype_copy(symbol->dtype->dtypedef->defined_dtype);
     if (!dtype_isincomplete(dtype)) {
@@ -578,6 +593,8 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
 
     DType* complete_dtype = NULL;
     switch (dtype->type) {
+        case DTYPE_VOID:
+            break;
         case DTYPE_STRUCT:
             complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
             if (complete_dtype == NULL)
-- 
2.43.0


From 18b976db39cf6208f0f63b7db672d4fe9d235656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:33 +0000
Subject: [PATCH 27/50] fix: accept typedefs of functions returning void

---
 src/resolver/declaration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index fc81b63..d13edd7 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -839,7 +839,7 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                 }
 
                 if (socket_dtype != NULL && socket_dtype->type == DTYPE_FUNCTION && dtype_isincomplete(plug_dtype) &&
-                    resolver->specifier_dtype->type != DTYPE_VOID) {
+                    plug_dtype->type != DTYPE_VOID) {
                     errs = new_vector(&t_error);
                     err = new_error("function returning incomplete type other than void is invalid");
                     vector_push(errs, err);
-- 
2.43.0


From 92b1b85bc434928716975e39838a681a41025272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:52 +0000
Subject: [PATCH 28/50] fix: convert arrays and functions to pointers before a
 cast

---
 src/resolver/expression.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 48178cb..22ffae7 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -965,6 +965,9 @@ ResolverReturn* resolve_cast_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    child_srt = convert_to_ptr_if_array(child_srt);
+    child_srt = convert_to_ptr_if_function(child_srt);
+
     if (dtype->type != DTYPE_VOID && (!dtype_isscalar(dtype) || !dtype_isscalar(child_srt->dtype))) {
         errs = new_vector(&t_error);
         err = new_error("cast should be from an any type to void or from a scalar type to scalar type");
-- 
2.43.0


From f32a5baa8a19dcb06e457441fc2513bc14592c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:27 +0000
Subject: [PATCH 29/50] fix: diagnose unsupported initializers of global
 objects

---
 src/immcgen/declaration.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 2a41b27..500c47b 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -299,6 +299,11 @@ Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
     while (srt->type == SRT_CAST_EXPR) {
         srt = vector_at(srt->children, 0);
     }
+    if (srt->type != SRT_ILITERAL_EXPR) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: "
+                        "only integer constant is supported as initializer of global object\n");
+        exit(1);
+    }
 
     IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, srt->iliteral);
     int initialized_size = dtype_nbytes(immcgen->initialized_dtype);
-- 
2.43.0


From fde31026984e23a14e90dfea1cac27c7ce93c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:12 +0000
Subject: [PATCH 30/50] fix: report failures to open or write files

---
 src/freader/freader.c |  6 +++++-
 src/main.c            | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index 83b86a5..15c0066 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -21,7 +21,11 @@ FileReaderReturn* freader_read(FileReader* freader) {
 
     rewind(freader->file_ptr);
 
-    file_content = malloc(file_size + 1);
+    file_content = malloc((size_t)file_size + 1);
+    if (file_content == NULL) {
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
     file_size = fread(file_content, sizeof(char), file_size, freader->file_ptr);
     file_content[file_size] = '\0';
 
diff --git a/src/main.c b/src/main.c
index c6ae2ec..176b391 100644
--- a/src/main.c
+++ b/src/main.c
@@ -102,7 +102,13 @@ int main(int argc, char* argv[]) {
     char* dst_filename = new_string(argv[1]);
     dst_filename[src_filename_len - 1] = 's';
     FILE* dst = fopen(dst_filename, "w");
-    free(dst_filename);
+
+    if (dst == NULL) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: fail to open output file\n", dst_filename);
+        free(dst_filename);
+        delete_vector(x64codes);
+        return 1;
+    }
 
     int x64codes_len = vector_size(x64codes);
     for (int i = 0; i < x64codes_len; i++) {
@@ -110,9 +116,15 @@ int main(int argc, char* argv[]) {
         fprintf(dst, "%s", x64_str);
         free(x64_str);
     }
-    fclose(dst);
-
     delete_vector(x64codes);
 
+    int write_failed = ferror(dst);
+    if (fclose(dst) != 0 || write_failed) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: fail to write output file\n", dst_filename);
+        free(dst_filename);
+        return 1;
+    }
+    free(dst_filename);
+
     return 0;
 }
-- 
2.43.0


From ae07504b774da42d7c375b571aa203b51d134fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:45 +0000
Subject: [PATCH 31/50] fix: do not parse nested expressions exponentially
 often

---
 src/parser/expression.c | 64 ++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 5dbb1ad..512cabd 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -17,6 +17,9 @@ ParserReturn* parse_constant_expr(Parser* parser) {
 }
 
 ParserReturn* parse_assignment_expr(Parser* parser) {
+    int is_assignment_operator(CToken * ctoken);
+    int is_unary_expr(Parser * parser, int index);
+
     Vector* stack = new_vector(&t_ast);
     Ast* ast = NULL;
     Error* err = NULL;
@@ -25,15 +28,18 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
     while (!terminated) {
         int index = parser->index;
 
-        parserret_assign(&ast, &err, parse_unary_expr(parser));
+        parserret_assign(&ast, &err, parse_conditional_expr(parser));
         if (err != NULL) {
-            parser->index = index;
-            delete_error(err);
-            err = NULL;
-            break;
+            delete_vector(stack);
+            return new_parserret_error(err);
         }
 
         CToken* ctoken = vector_at(parser->ctokens, parser->index);
+        if (is_assignment_operator(ctoken) && !is_unary_expr(parser, index)) {
+            // left hand side of assignment should be unary expression
+            break;
+        }
+
         switch (ctoken->type) {
             case CTOKEN_EQUAL:
                 parser->index++;
@@ -80,22 +86,11 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
                 vector_push(stack, new_ast(AST_OR_ASSIGN_EXPR, 1, ast));
                 break;
             default:
-                parser->index = index;
-                delete_ast(ast);
                 terminated = 1;
                 break;
         }
     }
 
-    parserret_assign(&ast, &err, parse_conditional_expr(parser));
-    if (err != NULL) {
-        delete_vector(stack);
-        return new_parserret_error(err);
-    }
-
-    vector_push(stack, ast);
-
-    ast = vector_pop(stack);
     while (vector_size(stack) > 0) {
         Ast* next_ast = vector_pop(stack);
         vector_push(next_ast->children, ast);
@@ -106,6 +101,43 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
     return new_parserret(ast);
 }
 
+int is_assignment_operator(CToken* ctoken) {
+    switch (ctoken->type) {
+        case CTOKEN_EQUAL:
+        case CTOKEN_ASTERISK_EQUAL:
+        case CTOKEN_SLASH_EQUAL:
+        case CTOKEN_PERCENT_EQUAL:
+        case CTOKEN_PLUS_EQUAL:
+        case CTOKEN_MINUS_EQUAL:
+        case CTOKEN_LESS_LESS_EQUAL:
+        case CTOKEN_GREATER_GREATER_EQUAL:
+        case CTOKEN_AND_EQUAL:
+        case CTOKEN_CARET_EQUAL:
+        case CTOKEN_VBAR_EQUAL:
+            return 1;
+        default:
+            return 0;
+    }
+}
+
+int is_unary_expr(Parser* parser, int index) {
+    Ast* ast = NULL;
+    Error* err = NULL;
+
+    int end_index = parser->index;
+    parser->index = index;
+    parserret_assign(&ast, &err, parse_unary_expr(parser));
+    int unary_end_index = parser->index;
+    parser->index = end_index;
+
+    if (err != NULL) {
+        delete_error(err);
+        return 0;
+    }
+    delete_ast(ast);
+    return unary_end_index == end_index;
+}
+
 ParserReturn* parse_conditional_expr(Parser* parser) {
     Ast* ast = NULL;
     Ast* child_ast = NULL;
-- 
2.43.0


From d123b61add6ba6957d76587a74667bd2c38635de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:05 +0000
Subject: [PATCH 32/50] fix: do not parse nested assignments exponentially
 often

---
 src/parser/expression.c | 20 +++++---------------
 src/parser/parser.c     |  2 ++
 src/parser/parser.h     |  2 ++
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 512cabd..eba6a99 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -121,21 +121,7 @@ int is_assignment_operator(CToken* ctoken) {
 }
 
 int is_unary_expr(Parser* parser, int index) {
-    Ast* ast = NULL;
-    Error* err = NULL;
-
-    int end_index = parser->index;
-    parser->index = index;
-    parserret_assign(&ast, &err, parse_unary_expr(parser));
-    int unary_end_index = parser->index;
-    parser->index = end_index;
-
-    if (err != NULL) {
-        delete_error(err);
-        return 0;
-    }
-    delete_ast(ast);
-    return unary_end_index == end_index;
+    return parser->unary_begin_index == index && parser->unary_end_index == parser->index;
 }
 
 ParserReturn* parse_conditional_expr(Parser* parser) {
@@ -598,6 +584,7 @@ ParserReturn* parse_unary_expr(Parser* parser) {
     Ast* ast = NULL;
     Error* err = NULL;
 
+    int index = parser->index;
     CToken* ctoken = vector_at(parser->ctokens, parser->index);
     switch (ctoken->type) {
         case CTOKEN_PLUS_PLUS:
@@ -623,6 +610,9 @@ ParserReturn* parse_unary_expr(Parser* parser) {
     if (err != NULL) {
         return new_parserret_error(err);
     }
+
+    parser->unary_begin_index = index;
+    parser->unary_end_index = parser->index;
     return new_parserret(ast);
 }
 
diff --git a/src/parser/parser.c b/src/parser/parser.c
index d5d33b4..0b19bdd 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -8,6 +8,8 @@ Parser* new_parser(Vector* ctokens) {
     Parser* parser = malloc(sizeof(Parser));
     parser->ctokens = ctokens;
     parser->index = 0;
+    parser->unary_begin_index = -1;
+    parser->unary_end_index = -1;
     parser->typedef_names_set = new_set(&t_hashable_string);
     parser->typedef_flag = 0;
     return parser;
diff --git a/src/parser/parser.h b/src/parser/parser.h
index cf60cef..5dd20e2 100644
--- a/src/parser/parser.h
+++ b/src/parser/parser.h
@@ -8,6 +8,8 @@
 typedef struct Parser {
     Vector* ctokens;
     int index;
+    int unary_begin_index;
+    int unary_end_index;
     Set* typedef_names_set;
     int typedef_flag;
 } Parser;
-- 
2.43.0


From 2298593268508fa70aa75fe93851e7c9c0837c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:56 +0000
Subject: [PATCH 33/50] fix: clear the upper half of a register when narrowing
 it to 32 bits

---
 src/x64gen/util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index 1cb285c..6d42730 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -25,7 +25,9 @@ void append_mov_code(Vector* codes, X64Ope* src, X64Ope* dst, int is_unsigned) {
 }
 
 void append_mov_code_simple(Vector* codes, X64Ope* src, X64Ope* dst) {
-    if (src->reg_id == dst->reg_id) {
+    // narrowing to 32 bits has to clear the upper half, which a later zero-extension relies on
+    int clears_upper = src->suffix == X64_SUFFIX_QUAD && dst->suffix == X64_SUFFIX_LONG;
+    if (src->reg_id == dst->reg_id && !clears_upper) {
         delete_x64ope(src);
         delete_x64ope(dst);
         return;
-- 
2.43.0


From d693fe29bbc3c337f6f2b859437428a4a77e5009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:41 +0000
Subject: [PATCH 34/50] fix: zero-extend an unsigned int into another register

---
 src/x64gen/util.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index 6d42730..b7a6104 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -46,6 +46,8 @@ void append_mov_code_unsigned(Vector* codes, X64Ope* src, X64Ope* dst) {
         delete_x64ope(dst);
         return;
     }
+    // a 32-bit move clears the upper half of its destination
+    dst->suffix = src->suffix;
     vector_push(codes, new_inst_x64(X64_INST_MOVX, src, dst));
 }
 
-- 
2.43.0


From 047fa677dea2b2362fcf34ee7e576fbd4789ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:47 +0000
Subject: [PATCH 35/50] fix: diagnose integer constants that no type can
 represent

---
 src/lexer/reader.c | 18 ++++++++++++------
 src/lexer/util.c   |  5 +++++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 52aeda9..1532a8c 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -68,9 +68,11 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
         IntegerLiteralType suffix = read_integer_suffix(lexer);
 
         IntegerLiteral* iliteral = create_iliteral(value, 0x10, suffix);
-        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         free(value);
-        return new_lexerret_item(ctoken);
+        if (iliteral == NULL) {
+            return new_lexerret_item_error(new_error("integer constant is too large"));
+        }
+        return new_lexerret_item(new_iliteral_ctoken(CTOKEN_INT, iliteral));
     }
 
     lexer->content_index -= 2;
@@ -84,9 +86,11 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
         IntegerLiteralType suffix = read_integer_suffix(lexer);
 
         IntegerLiteral* iliteral = create_iliteral(value, 010, suffix);
-        CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
         free(value);
-        return new_lexerret_item(ctoken);
+        if (iliteral == NULL) {
+            return new_lexerret_item_error(new_error("integer constant is too large"));
+        }
+        return new_lexerret_item(new_iliteral_ctoken(CTOKEN_INT, iliteral));
     }
 
     ErrorableString* errstr = read_integer_constant_digits(lexer, lexer->digit_map);
@@ -97,9 +101,11 @@ LexerReturnItem* read_integer_constant(Lexer* lexer) {
     IntegerLiteralType suffix = read_integer_suffix(lexer);
 
     IntegerLiteral* iliteral = create_iliteral(value, 10, suffix);
-    CToken* ctoken = new_iliteral_ctoken(CTOKEN_INT, iliteral);
     free(value);
-    return new_lexerret_item(ctoken);
+    if (iliteral == NULL) {
+        return new_lexerret_item_error(new_error("integer constant is too large"));
+    }
+    return new_lexerret_item(new_iliteral_ctoken(CTOKEN_INT, iliteral));
 }
 
 LexerReturnItem* read_character_constant(Lexer* lexer) {
diff --git a/src/lexer/util.c b/src/lexer/util.c
index 42e26c6..6f4db0e 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -1,6 +1,7 @@
 #include "./util.h"
 #include "../common/type.h"
 
+#include <errno.h>
 #include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -210,7 +211,11 @@ int get_content_top(Lexer* lexer) {
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
+    errno = 0;
     unsigned long long unsigned_value = strtoull(value, NULL, base);
+    if (errno == ERANGE) {
+        return NULL;
+    }
 
     // promote a type until it can represent the value
     if (type == INTEGER_INT && unsigned_value > INT_MAX) {
-- 
2.43.0


From e673926f33c19ff5c5dbdce9e1702a40d1ac24b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:44 +0000
Subject: [PATCH 36/50] fix: diagnose an enum specifier that names a struct tag

---
 src/resolver/declaration.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index d13edd7..9183576 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -455,6 +455,14 @@ ResolverDTypeReturn* resolve_enum_specifier(Resolver* resolver) {
     }
 
     if (members == NULL) {
+        DType* tag_dtype = tagtable_search(resolver->tag_table, enum_name);
+        if (tag_dtype != NULL && tag_dtype->type != DTYPE_ENUM) {
+            errs = new_vector(&t_error);
+            err = new_error("tag '%s' is not an enum", enum_name);
+            vector_push(errs, err);
+            free(enum_name);
+            return new_resolverret_dtype_errors(errs);
+        }
         free(enum_name);
         dtype = new_integer_dtype(DTYPE_INT);
         return new_resolverret_dtype(dtype);
-- 
2.43.0


From 58ca285322ba8e0f065f394cf1b561d11bdac176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:44 +0000
Subject: [PATCH 37/50] fix: do not export the labels of string literals

---
 src/x64gen/label.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/label.c b/src/x64gen/label.c
index f9c31bd..002726b 100644
--- a/src/x64gen/label.c
+++ b/src/x64gen/label.c
@@ -26,7 +26,8 @@ Vector* gen_label_x64code(X64gen* x64gen) {
     X64Visibility visibility = X64_VIS_NONE;
     switch (immc->label->visibility) {
         case IMMC_VIS_GLOBAL:
-            visibility = X64_VIS_GLOBAL;
+            // labels which the compiler made up itself (e.g. '.SL0') are private to the translation unit
+            visibility = immc->label->name[0] == '.' ? X64_VIS_NONE : X64_VIS_GLOBAL;
             break;
         case IMMC_VIS_LOCAL:
             visibility = X64_VIS_LOCAL;
-- 
2.43.0


From af365fc219194b92bc22644f61e960ccd1e8d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:20 +0000
Subject: [PATCH 38/50] fix: accept the address of a structure member

---
 src/resolver/expression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 22ffae7..684bef5 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1050,6 +1050,7 @@ ResolverReturn* resolve_address_expr(Resolver* resolver) {
     }
 
     if (child_srt->dtype->type != DTYPE_FUNCTION && child_srt->type != SRT_INDIR_EXPR &&
+        child_srt->type != SRT_TOMEMBER_EXPR &&
         (child_srt->type != SRT_IDENT_EXPR || !dtype_isobject(child_srt->dtype))) {
         errs = new_vector(&t_error);
         err = new_error("operand of unary & is neither a function designator, "
-- 
2.43.0


From 7773d2f2c498a8437dc188c44dedb894472f1464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 39/50] fix: keep structure tags of different scopes apart

---
 src/resolver/declaration.c | 23 +++++++++++++++++++++--
 src/tagtab/tagtab.c        | 23 +++++++++++++++++++++++
 src/tagtab/tagtab.h        |  2 ++
 3 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 9183576..58c1ffe 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -201,12 +201,22 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     char* struct_name = NULL;
     child_ast = vector_at(ast->children, 0);
     if (child_ast != NULL && child_ast->type == AST_STRUCT_NAME) {
-        struct_name = new_string(child_ast->ident_name);
+        struct_name = tagtable_visible_name(resolver->tag_table, child_ast->ident_name);
     }
 
     Vector* members = NULL;
+    int hides_outer_tag = 0;
     child_ast = vector_at(ast->children, struct_name != NULL ? 1 : 0);
     if (child_ast != NULL && child_ast->type == AST_STRUCT_DECL_LIST) {
+        if (struct_name != NULL && tagtable_search(resolver->tag_table, struct_name) != NULL &&
+            tagtable_can_define(resolver->tag_table, struct_name)) {
+            hides_outer_tag = 1;
+            char* outer_name = struct_name;
+            struct_name = tagtable_hiding_name(outer_name);
+            free(outer_name);
+            map_add(resolver->tag_table->map, new_string(struct_name),
+                    new_named_struct_dtype(new_string(struct_name), 0, 0));
+        }
         resolver->ast = child_ast;
         resolverret_dstructmembers_assign(&members, &errs, resolve_struct_decl_list(resolver));
         resolver->ast = ast;
@@ -241,6 +251,9 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
         return new_resolverret_dtype(dtype);
     }
 
+    if (hides_outer_tag) {
+        map_remove(resolver->tag_table->map, struct_name);
+    }
     if (!tagtable_can_define(resolver->tag_table, struct_name)) {
         errs = new_vector(&t_error);
         err = new_error("tag '%s' is already declared", struct_name);
@@ -431,7 +444,7 @@ ResolverDTypeReturn* resolve_enum_specifier(Resolver* resolver) {
     char* enum_name = NULL;
     child_ast = vector_at(ast->children, 0);
     if (child_ast != NULL && child_ast->type == AST_ENUM_NAME) {
-        enum_name = new_string(child_ast->ident_name);
+        enum_name = tagtable_visible_name(resolver->tag_table, child_ast->ident_name);
     }
 
     Vector* members = NULL;
@@ -468,6 +481,12 @@ ResolverDTypeReturn* resolve_enum_specifier(Resolver* resolver) {
         return new_resolverret_dtype(dtype);
     }
 
+    if (tagtable_search(resolver->tag_table, enum_name) != NULL &&
+        tagtable_can_define(resolver->tag_table, enum_name)) {
+        char* outer_name = enum_name;
+        enum_name = tagtable_hiding_name(outer_name);
+        free(outer_name);
+    }
     if (!tagtable_can_define(resolver->tag_table, enum_name)) {
         errs = new_vector(&t_error);
         err = new_error("tag '%s' is already declared", enum_name);
diff --git a/src/tagtab/tagtab.c b/src/tagtab/tagtab.c
index 746fdb7..7e1ccf5 100644
--- a/src/tagtab/tagtab.c
+++ b/src/tagtab/tagtab.c
@@ -1,6 +1,8 @@
 #include "./tagtab.h"
+#include "../common/type.h"
 
 #include <stdlib.h>
+#include <string.h>
 
 TagTable* new_tagtable(void) {
     TagTable* table = malloc(sizeof(TagTable));
@@ -35,6 +37,27 @@ DType* tagtable_search(TagTable* table, char* name) {
     return dtype;
 }
 
+// The name of the innermost visible tag: tags which hide a tag of an outer scope are named name#, name## and so on.
+char* tagtable_visible_name(TagTable* table, char* name) {
+    char* visible_name = new_string(name);
+    char* hiding_name = tagtable_hiding_name(visible_name);
+    while (tagtable_search(table, hiding_name) != NULL) {
+        free(visible_name);
+        visible_name = hiding_name;
+        hiding_name = tagtable_hiding_name(visible_name);
+    }
+    free(hiding_name);
+    return visible_name;
+}
+
+char* tagtable_hiding_name(char* name) {
+    size_t length = strlen(name);
+    char* hiding_name = malloc(sizeof(char) * (length + 2));
+    memcpy(hiding_name, name, length);
+    memcpy(hiding_name + length, "#", 2);
+    return hiding_name;
+}
+
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members) {
     if (!tagtable_can_define(table, name)) {
         return NULL;
diff --git a/src/tagtab/tagtab.h b/src/tagtab/tagtab.h
index 33085da..e620c56 100644
--- a/src/tagtab/tagtab.h
+++ b/src/tagtab/tagtab.h
@@ -17,6 +17,8 @@ int tagtable_can_define(TagTable* table, char* name);
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members);
 DType* tagtable_define_enum(TagTable* table, char* name, Vector* members);
 DType* tagtable_search(TagTable* table, char* name);
+char* tagtable_visible_name(TagTable* table, char* name);
+char* tagtable_hiding_name(char* name);
 TagTable* tagtable_enter_scope(TagTable* table);
 TagTable* tagtable_exit_scope(TagTable* table);
 void delete_tagtable(TagTable* table);
-- 
2.43.0


From 18ef1f8b42fd93b1bb19c2ccbd1b96fabfc58de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:00 +0000
Subject: [PATCH 40/50] fix: complete the pointed-to structure when a pointer
 is used

---
 src/resolver/expression.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 684bef5..2f6e349 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -100,6 +100,19 @@ ResolverReturn* resolve_expr(Resolver* resolver) {
     if (errs != NULL) {
         return new_resolverret_errors(errs);
     }
+
+    // a pointer may have been declared before the struct it points to was completed
+    DType* dtype = srt->dtype;
+    while (dtype->type == DTYPE_POINTER || dtype->type == DTYPE_ARRAY) {
+        dtype = dtype->type == DTYPE_POINTER ? dtype->dpointer->to_dtype : dtype->darray->of_dtype;
+    }
+    if (dtype->type == DTYPE_STRUCT && dtype->dstruct->name != NULL && dtype_isincomplete(dtype)) {
+        DType* complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+        if (complete_dtype != NULL && complete_dtype->type == DTYPE_STRUCT) {
+            dtype->dstruct->nbytes = complete_dtype->dstruct->nbytes;
+            dtype->dstruct->alignment = complete_dtype->dstruct->alignment;
+        }
+    }
     return new_resolverret(srt);
 }
 
-- 
2.43.0


From 61a447375a3bf481625d7a0d4fcaee06ba415674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:39 +0000
Subject: [PATCH 41/50] fix: diagnose the use of a pointer to a structure whose
 tag now names an enum

---
 src/resolver/declaration.c | 8 ++------
 src/resolver/expression.c  | 3 ++-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 58c1ffe..ee99e33 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -624,15 +624,11 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
             break;
         case DTYPE_STRUCT:
             complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
-            if (complete_dtype == NULL)
-                break;
-
-            if (complete_dtype->type == DTYPE_STRUCT) {
+            if (complete_dtype != NULL && complete_dtype->type == DTYPE_STRUCT) {
                 dtype->dstruct->nbytes = complete_dtype->dstruct->nbytes;
                 dtype->dstruct->alignment = complete_dtype->dstruct->alignment;
-                break;
             }
-            // fall through
+            break;
         default:
             fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
                             "unreachable statement (in resolve_typedef_name_specifier)\n");
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index 2f6e349..fd9310b 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1431,10 +1431,11 @@ ResolverReturn* resolve_member_like_expr(Resolver* resolver) {
         resolver->expr_dtype = tagtable_search(resolver->tag_table, resolver->expr_dtype->dstruct->name);
     }
 
-    if (resolver->expr_dtype == NULL) {
+    if (resolver->expr_dtype == NULL || resolver->expr_dtype->type != DTYPE_STRUCT) {
         errs = new_vector(&t_error);
         err = new_error("struct '%s' is incomplete", lhs_srt->dtype->dpointer->to_dtype->dstruct->name);
         vector_push(errs, err);
+        resolver->expr_dtype = original_member_dtype;
         delete_srt(lhs_srt);
         return new_resolverret_errors(errs);
     }
-- 
2.43.0


From c2f313f5c265f6a4bd170012aad373178bee491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 42/50] fix: diagnose a null character in the source file

---
 src/freader/freader.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index 15c0066..03ac2a4 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -1,6 +1,7 @@
 #include "./freader.h"
 
 #include <stdlib.h>
+#include <string.h>
 
 FileReader* new_freader(FILE* file_ptr) {
     FileReader* freader = malloc(sizeof(FileReader));
@@ -29,6 +30,12 @@ FileReaderReturn* freader_read(FileReader* freader) {
     file_size = fread(file_content, sizeof(char), file_size, freader->file_ptr);
     file_content[file_size] = '\0';
 
+    if (memchr(file_content, '\0', file_size) != NULL) {
+        free(file_content);
+        err = new_error("null character in source file");
+        return new_freaderret_error(err);
+    }
+
     file_content = realloc(file_content, file_size + 1);
     return new_freaderret(file_content);
 }
-- 
2.43.0


From e5d1c2f60cf5210b60adca26e11a7f6a112cfac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:32 +0000
Subject: [PATCH 43/50] fix: apply every conversion of a constant that
 initializes a global object

---
 src/immcgen/declaration.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 500c47b..f1ea1f8 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -292,20 +292,21 @@ Vector* gen_scalar_initializer_immcode(Immcgen* immcgen) {
 }
 
 Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
+    IntegerLiteral* create_constant_iliteral(Srt * srt);
+
     Vector* codes = new_vector(&t_immc);
 
     Srt* srt = vector_at(immcgen->srt->children, 0);
     // TODO: support expression for global initializer
-    while (srt->type == SRT_CAST_EXPR) {
-        srt = vector_at(srt->children, 0);
-    }
-    if (srt->type != SRT_ILITERAL_EXPR) {
+    IntegerLiteral* constant = create_constant_iliteral(srt);
+    if (constant == NULL) {
         fprintf(stderr, "\x1b[1;31merror\x1b[0m: "
                         "only integer constant is supported as initializer of global object\n");
         exit(1);
     }
 
-    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, srt->iliteral);
+    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, constant);
+    delete_iliteral(constant);
     int initialized_size = dtype_nbytes(immcgen->initialized_dtype);
     switch (initialized_size) {
         case 1:
@@ -329,6 +330,24 @@ Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+// apply every conversion of a cast chain, return NULL if operand is not an integer constant
+IntegerLiteral* create_constant_iliteral(Srt* srt) {
+    if (srt->type == SRT_ILITERAL_EXPR) {
+        return iliteral_copy(srt->iliteral);
+    }
+    if (srt->type != SRT_CAST_EXPR) {
+        return NULL;
+    }
+
+    IntegerLiteral* operand = create_constant_iliteral(vector_at(srt->children, 0));
+    if (operand == NULL) {
+        return NULL;
+    }
+    IntegerLiteral* iliteral = create_dtyped_iliteral(srt->dtype, operand);
+    delete_iliteral(operand);
+    return iliteral;
+}
+
 Vector* gen_local_scalar_initializer_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
 
-- 
2.43.0


From 4e6b935f022d840a634cbac2efd61a7d898c3f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:50 +0000
Subject: [PATCH 44/50] fix: diagnose enumeration constants that int cannot
 represent

---
 src/resolver/declaration.c | 18 +++++++++++++++++-
 src/resolver/resolver.h    |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index ee99e33..17efaa3 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -7,6 +7,7 @@
 #include "./expression.h"
 #include "./utils.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -556,6 +557,13 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
     }
 
     if (vector_size(ast->children) == 1) {
+        if (resolver->default_enum_value > INT_MAX) {
+            errs = new_vector(&t_error);
+            err = new_error("value of enumeration constant '%s' is not representable as int", child_ast->ident_name);
+            vector_push(errs, err);
+            return new_resolverret_denummember_errors(errs);
+        }
+
         char* member_name = new_string(child_ast->ident_name);
         DType* member_dtype = new_integer_dtype(DTYPE_INT);
         IntegerLiteral* member_iliteral = new_signed_iliteral(INTEGER_INT, resolver->default_enum_value);
@@ -585,6 +593,14 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
         return new_resolverret_denummember_errors(errs);
     }
 
+    if (enum_const_srt->iliteral->signed_value > INT_MAX) {
+        errs = new_vector(&t_error);
+        err = new_error("value of enumeration constant '%s' is not representable as int", child_ast->ident_name);
+        vector_push(errs, err);
+        delete_srt(enum_const_srt);
+        return new_resolverret_denummember_errors(errs);
+    }
+
     int enum_value = enum_const_srt->iliteral->signed_value;
     delete_srt(enum_const_srt);
 
@@ -594,7 +610,7 @@ ResolverReturnDEnumMember* resolve_enumerator(Resolver* resolver) {
     symboltable_define_integer(resolver->symbol_table, member_name, member_dtype, member_iliteral);
 
     member = new_denummember(new_string(child_ast->ident_name), enum_value);
-    resolver->default_enum_value = enum_value + 1;
+    resolver->default_enum_value = enum_value + 1ll;
 
     return new_resolverret_denummember(member);
 }
diff --git a/src/resolver/resolver.h b/src/resolver/resolver.h
index 7d6867d..0ed5c8d 100644
--- a/src/resolver/resolver.h
+++ b/src/resolver/resolver.h
@@ -18,7 +18,7 @@ typedef struct Resolver {
     int switch_default_exists;
     DType* return_dtype;
     DType* specifier_dtype;
-    int default_enum_value;
+    long long default_enum_value;
     DType* initialized_dtype;
     int initialized_offset;
     int is_nested_initializing;
-- 
2.43.0


From cc76e9cd077b170c4de8f1a273d0e8cda8ce55eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:52 +0000
Subject: [PATCH 45/50] fix: diagnose objects whose size int cannot represent

---
 src/resolver/declaration.c | 73 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 72 insertions(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 17efaa3..7ea0901 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -11,6 +11,9 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+// stack frame including its alignment has to be addressable with int
+#define MAX_FRAME_NBYTES (INT_MAX - 64)
+
 ResolverReturn* resolve_decl(Resolver* resolver) {
     Srt* srt = NULL;
     Vector* errs = NULL;
@@ -275,6 +278,8 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
 }
 
 ResolverReturnDStructMembers* resolve_struct_decl_list(Resolver* resolver) {
+    int struct_is_too_large(Vector * members);
+
     Vector* members = new_vector(&t_dstructmember);
     Vector* errs = NULL;
     Error* err = NULL;
@@ -307,6 +312,12 @@ ResolverReturnDStructMembers* resolve_struct_decl_list(Resolver* resolver) {
 
     resolver->ast = ast;
 
+    if (errs == NULL && struct_is_too_large(members)) {
+        errs = new_vector(&t_error);
+        err = new_error("struct is too large");
+        vector_push(errs, err);
+    }
+
     if (errs != NULL) {
         delete_vector(members);
         return new_resolverret_dstructmembers_errors(errs);
@@ -399,6 +410,17 @@ ResolverReturnDStructMembers* resolve_struct_declarator_list(Resolver* resolver)
     return new_resolverret_dstructmembers(members);
 }
 
+int struct_is_too_large(Vector* members) {
+    long long nbytes = 0;
+    int num_members = vector_size(members);
+    for (int i = 0; i < num_members; i++) {
+        DStructMember* member = vector_at(members, i);
+        // the last term is the most padding a member can need
+        nbytes += (long long)dtype_nbytes(member->dtype) + dtype_alignment(member->dtype);
+    }
+    return nbytes > INT_MAX - 16;
+}
+
 ResolverReturnDStructMember* resolve_struct_declarator(Resolver* resolver) {
     DStructMember* member = NULL;
     Srt* srt = NULL;
@@ -733,9 +755,18 @@ ResolverReturn* resolve_init_declarator(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    int is_memory = resolver->symbol_table->outer_scope != NULL && dtype_isobject(child_srt->dtype);
+    if (is_memory && dtype_nbytes(child_srt->dtype) > MAX_FRAME_NBYTES - resolver->symbol_table->memory_nbytes) {
+        errs = new_vector(&t_error);
+        err = new_error("local variables are too large");
+        vector_push(errs, err);
+        delete_srt(srt);
+        return new_resolverret_errors(errs);
+    }
+
     char* symbol_name = new_string(child_srt->ident_name);
     DType* symbol_dtype = dtype_copy(child_srt->dtype);
-    if (resolver->symbol_table->outer_scope == NULL || !dtype_isobject(symbol_dtype)) {
+    if (!is_memory) {
         symboltable_define_label(resolver->symbol_table, symbol_name, symbol_dtype);
     } else {
         symboltable_define_memory(resolver->symbol_table, symbol_name, symbol_dtype);
@@ -767,6 +798,8 @@ ResolverReturn* resolve_init_declarator(Resolver* resolver) {
 }
 
 ResolverReturn* resolve_declarator(Resolver* resolver) {
+    long long declared_nbytes(DType * dtype, DType * base_dtype);
+
     Srt* srt = NULL;
     DType* dtype = NULL;
     Vector* errs = NULL;
@@ -814,6 +847,14 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     break;
                 }
 
+                if (array_size_srt->iliteral->signed_value > INT_MAX) {
+                    errs = new_vector(&t_error);
+                    err = new_error("array is too large");
+                    vector_push(errs, err);
+                    delete_srt(array_size_srt);
+                    break;
+                }
+
                 if (array_size_srt->iliteral->signed_value <= 0) {
                     errs = new_vector(&t_error);
                     err = new_error("array size should be a positive integer");
@@ -885,6 +926,13 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     break;
                 }
 
+                if (dtype != NULL && declared_nbytes(dtype, plug_dtype) < 0) {
+                    errs = new_vector(&t_error);
+                    err = new_error("array is too large");
+                    vector_push(errs, err);
+                    break;
+                }
+
                 if (ast_ptr->type == AST_IDENT_DECLOR) {
                     srt = new_identifier_srt(SRT_IDENT_DECL, dtype, new_string(ast_ptr->ident_name));
                 } else {
@@ -909,6 +957,29 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
     return new_resolverret(srt);
 }
 
+// size of a type whose innermost socket is filled with base_dtype, return -1 if an array in the type is too large
+long long declared_nbytes(DType* dtype, DType* base_dtype) {
+    if (dtype == NULL) {
+        return dtype_nbytes(base_dtype);
+    }
+
+    switch (dtype->type) {
+        case DTYPE_POINTER:
+            return declared_nbytes(dtype->dpointer->to_dtype, base_dtype) < 0 ? -1 : dtype_nbytes(dtype);
+        case DTYPE_FUNCTION:
+            return declared_nbytes(dtype->dfunction->return_dtype, base_dtype) < 0 ? -1 : 0;
+        case DTYPE_ARRAY: {
+            long long element_nbytes = declared_nbytes(dtype->darray->of_dtype, base_dtype);
+            if (element_nbytes < 0 || element_nbytes * dtype->darray->size > INT_MAX) {
+                return -1;
+            }
+            return element_nbytes * dtype->darray->size;
+        }
+        default:
+            return dtype_nbytes(dtype);
+    }
+}
+
 ResolverReturnDParams* resolve_parameter_list(Resolver* resolver) {
     Vector* dparams = new_vector(&t_dparam);
     Vector* errs = NULL;
-- 
2.43.0


From f70b0d13dd0b325e4bde157c23347b3e7c7626fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:05 +0000
Subject: [PATCH 46/50] fix: tell unnamed structures with the same members
 apart

---
 src/dtype/struct.c         | 6 ++++++
 src/dtype/struct.h         | 1 +
 src/resolver/declaration.c | 2 ++
 src/resolver/resolver.c    | 1 +
 src/resolver/resolver.h    | 1 +
 5 files changed, 11 insertions(+)

diff --git a/src/dtype/struct.c b/src/dtype/struct.c
index 00db858..ffdb22c 100644
--- a/src/dtype/struct.c
+++ b/src/dtype/struct.c
@@ -20,6 +20,7 @@ DStruct* new_named_dstruct(char* name, int nbytes, int alignment) {
     dstruct->members = NULL;
     dstruct->nbytes = nbytes;
     dstruct->alignment = alignment;
+    dstruct->unnamed_id = 0;
     return dstruct;
 }
 
@@ -29,6 +30,7 @@ DStruct* new_unnamed_dstruct(Vector* members) {
     dstruct->members = members;
     dstruct->nbytes = 0;
     dstruct->alignment = 0;
+    dstruct->unnamed_id = 0;
 
     int num_members = vector_size(members);
     for (int i = 0; i < num_members; i++) {
@@ -59,6 +61,7 @@ DStruct* dstruct_copy(DStruct* dstruct) {
     }
     copied_dstruct->nbytes = dstruct->nbytes;
     copied_dstruct->alignment = dstruct->alignment;
+    copied_dstruct->unnamed_id = dstruct->unnamed_id;
     return copied_dstruct;
 }
 
@@ -84,6 +87,9 @@ int dstruct_equals(DStruct* dstruct, DStruct* other) {
         return strcmp(dstruct->name, other->name) == 0;
     }
     // unnamed struct
+    if (dstruct->unnamed_id > 0 && other->unnamed_id > 0) {
+        return dstruct->unnamed_id == other->unnamed_id;
+    }
     if (vector_size(dstruct->members) != vector_size(other->members)) {
         return 0;
     }
diff --git a/src/dtype/struct.h b/src/dtype/struct.h
index 75aca6d..ec60134 100644
--- a/src/dtype/struct.h
+++ b/src/dtype/struct.h
@@ -22,6 +22,7 @@ struct DStruct {
     Vector* members;
     int nbytes;
     int alignment;
+    int unnamed_id; // positive: identity of an unnamed struct declared in source code
 };
 
 struct DStructMember {
diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 7ea0901..7cf7684 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -234,6 +234,8 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
 
     if (struct_name == NULL) {
         dtype = new_unnamed_struct_dtype(members);
+        resolver->unnamed_struct_id++;
+        dtype->dstruct->unnamed_id = resolver->unnamed_struct_id;
         return new_resolverret_dtype(dtype);
     }
 
diff --git a/src/resolver/resolver.c b/src/resolver/resolver.c
index 3a8d2f6..b80d0f5 100644
--- a/src/resolver/resolver.c
+++ b/src/resolver/resolver.c
@@ -20,6 +20,7 @@ Resolver* new_resolver(Ast* ast) {
     resolver->initialized_offset = -1;
     resolver->is_nested_initializing = 0;
     resolver->sliteral_id = -1;
+    resolver->unnamed_struct_id = 0;
     resolver->expr_dtype = NULL;
     return resolver;
 }
diff --git a/src/resolver/resolver.h b/src/resolver/resolver.h
index 0ed5c8d..f22d036 100644
--- a/src/resolver/resolver.h
+++ b/src/resolver/resolver.h
@@ -23,6 +23,7 @@ typedef struct Resolver {
     int initialized_offset;
     int is_nested_initializing;
     int sliteral_id;
+    int unnamed_struct_id;
     DType* expr_dtype;
 } Resolver;
 
-- 
2.43.0


From f57fc92995ab6eaa1c82029a820632eafbca907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:04 +0000
Subject: [PATCH 47/50] fix: refuse a program nested too deeply instead of
 exhausting the stack

---
 src/parser/declaration.c | 34 ++++++++++++++++++++++++++++++++++
 src/parser/expression.c  | 29 ++++++++++++++++++++++++++++-
 src/parser/parser.c      |  1 +
 src/parser/parser.h      |  1 +
 src/parser/statement.c   |  6 ++++++
 src/parser/util.c        | 21 +++++++++++++++++++++
 src/parser/util.h        |  2 ++
 7 files changed, 93 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 946dd36..b174b79 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -227,6 +227,12 @@ ParserReturn* parse_type_specifier(Parser* parser) {
 }
 
 ParserReturn* parse_struct_specifier(Parser* parser) {
+    ParserReturn* parse_nested_struct_specifier(Parser * parser);
+
+    return parse_nested(parser, 2, parse_nested_struct_specifier);
+}
+
+ParserReturn* parse_nested_struct_specifier(Parser* parser) {
     Ast* ast = new_ast(AST_TYPE_STRUCT, 0);
     Ast* child_ast = NULL;
     Error* err = NULL;
@@ -523,10 +529,22 @@ ParserReturn* parse_init_declarator(Parser* parser) {
 }
 
 ParserReturn* parse_declarator(Parser* parser) {
+    ParserReturn* parse_nested_declarator(Parser * parser);
+
+    return parse_nested(parser, 2, parse_nested_declarator);
+}
+
+ParserReturn* parse_nested_declarator(Parser* parser) {
     return parse_declarator_common(parser, 0);
 }
 
 ParserReturn* parse_abstract_declarator(Parser* parser) {
+    ParserReturn* parse_nested_abstract_declarator(Parser * parser);
+
+    return parse_nested(parser, 2, parse_nested_abstract_declarator);
+}
+
+ParserReturn* parse_nested_abstract_declarator(Parser* parser) {
     return parse_declarator_common(parser, 1);
 }
 
@@ -604,6 +622,12 @@ ParserReturn* parse_pointer(Parser* parser) {
         }
         parser->index++;
         ast = new_ast(AST_PTR_DECLOR, 1, ast);
+
+        err = deepen_nesting(parser, 1);
+        if (err != NULL) {
+            delete_ast(ast);
+            return new_parserret_error(err);
+        }
     }
 
     return new_parserret(ast);
@@ -763,6 +787,10 @@ ParserReturn* parse_direct_declarator_common(Parser* parser, int abstract) {
                 }
                 return new_parserret(ast);
         }
+
+        if (err == NULL) {
+            err = deepen_nesting(parser, 1);
+        }
     }
 
     delete_ast(terminal_ast);
@@ -841,6 +869,12 @@ ParserReturn* parse_parameter_decl(Parser* parser) {
 }
 
 ParserReturn* parse_initializer(Parser* parser) {
+    ParserReturn* parse_nested_initializer(Parser * parser);
+
+    return parse_nested(parser, 1, parse_nested_initializer);
+}
+
+ParserReturn* parse_nested_initializer(Parser* parser) {
     Ast* ast = NULL;
     Error* err = NULL;
 
diff --git a/src/parser/expression.c b/src/parser/expression.c
index eba6a99..f0fe044 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -17,6 +17,12 @@ ParserReturn* parse_constant_expr(Parser* parser) {
 }
 
 ParserReturn* parse_assignment_expr(Parser* parser) {
+    ParserReturn* parse_assignment_operator_expr(Parser * parser);
+
+    return parse_nested(parser, 0, parse_assignment_operator_expr);
+}
+
+ParserReturn* parse_assignment_operator_expr(Parser* parser) {
     int is_assignment_operator(CToken * ctoken);
     int is_unary_expr(Parser * parser, int index);
 
@@ -28,7 +34,10 @@ ParserReturn* parse_assignment_expr(Parser* parser) {
     while (!terminated) {
         int index = parser->index;
 
-        parserret_assign(&ast, &err, parse_conditional_expr(parser));
+        err = deepen_nesting(parser, 1);
+        if (err == NULL) {
+            parserret_assign(&ast, &err, parse_conditional_expr(parser));
+        }
         if (err != NULL) {
             delete_vector(stack);
             return new_parserret_error(err);
@@ -125,6 +134,12 @@ int is_unary_expr(Parser* parser, int index) {
 }
 
 ParserReturn* parse_conditional_expr(Parser* parser) {
+    ParserReturn* parse_conditional_operator_expr(Parser * parser);
+
+    return parse_nested(parser, 4, parse_conditional_operator_expr);
+}
+
+ParserReturn* parse_conditional_operator_expr(Parser* parser) {
     Ast* ast = NULL;
     Ast* child_ast = NULL;
     Error* err = NULL;
@@ -553,6 +568,9 @@ ParserReturn* parse_cast_expr(Parser* parser) {
 
         vector_push(stack, new_ast(AST_CAST_EXPR, 1, child_ast));
         err = consume_ctoken(parser, CTOKEN_RPAREN);
+        if (err == NULL) {
+            err = deepen_nesting(parser, 1);
+        }
     }
 
     if (err != NULL) {
@@ -584,6 +602,11 @@ ParserReturn* parse_unary_expr(Parser* parser) {
     Ast* ast = NULL;
     Error* err = NULL;
 
+    err = deepen_nesting(parser, 1);
+    if (err != NULL) {
+        return new_parserret_error(err);
+    }
+
     int index = parser->index;
     CToken* ctoken = vector_at(parser->ctokens, parser->index);
     switch (ctoken->type) {
@@ -785,6 +808,10 @@ ParserReturn* parse_postfix_expr(Parser* parser) {
             default:
                 return new_parserret(ast);
         }
+
+        if (err == NULL) {
+            err = deepen_nesting(parser, 1);
+        }
     }
 
     delete_ast(ast);
diff --git a/src/parser/parser.c b/src/parser/parser.c
index 0b19bdd..cb325ea 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -12,6 +12,7 @@ Parser* new_parser(Vector* ctokens) {
     parser->unary_end_index = -1;
     parser->typedef_names_set = new_set(&t_hashable_string);
     parser->typedef_flag = 0;
+    parser->nesting = 0;
     return parser;
 }
 
diff --git a/src/parser/parser.h b/src/parser/parser.h
index 5dd20e2..75aed9e 100644
--- a/src/parser/parser.h
+++ b/src/parser/parser.h
@@ -12,6 +12,7 @@ typedef struct Parser {
     int unary_end_index;
     Set* typedef_names_set;
     int typedef_flag;
+    int nesting;
 } Parser;
 
 Parser* new_parser(Vector* ctokens);
diff --git a/src/parser/statement.c b/src/parser/statement.c
index facd004..cea0661 100644
--- a/src/parser/statement.c
+++ b/src/parser/statement.c
@@ -6,6 +6,12 @@
 #include <stdlib.h>
 
 ParserReturn* parse_stmt(Parser* parser) {
+    ParserReturn* parse_nested_stmt(Parser * parser);
+
+    return parse_nested(parser, 1, parse_nested_stmt);
+}
+
+ParserReturn* parse_nested_stmt(Parser* parser) {
     CToken* ctoken = vector_at(parser->ctokens, parser->index);
     switch (ctoken->type) {
         case CTOKEN_KEYWORD_CASE:
diff --git a/src/parser/util.c b/src/parser/util.c
index d62ed56..88bd4e7 100644
--- a/src/parser/util.c
+++ b/src/parser/util.c
@@ -3,6 +3,9 @@
 
 #include <stdlib.h>
 
+// Every phase recurses over what the parser nests, so the nesting is bounded by what fits in the stack.
+static const int MAX_NESTING = 10000;
+
 ErrorableInt* external_may_function_definition(Parser* parser) {
     Ast* ast = NULL;
     Error* err = NULL;
@@ -66,3 +69,21 @@ Error* consume_ctoken(Parser* parser, CTokenType ctoken_type) {
     }
     return new_error("token %s expected, but got %s", ctoken_types[ctoken_type], ctoken_types[ctoken->type]);
 }
+
+Error* deepen_nesting(Parser* parser, int cost) {
+    parser->nesting += cost;
+    if (parser->nesting > MAX_NESTING) {
+        return new_error("program is nested too deeply");
+    }
+    return NULL;
+}
+
+ParserReturn* parse_nested(Parser* parser, int cost, ParserReturn* (*parse)(Parser*)) {
+    int original_nesting = parser->nesting;
+
+    Error* err = deepen_nesting(parser, cost);
+    ParserReturn* parserret = err == NULL ? parse(parser) : new_parserret_error(err);
+
+    parser->nesting = original_nesting;
+    return parserret;
+}
diff --git a/src/parser/util.h b/src/parser/util.h
index 2c5184d..735d46e 100644
--- a/src/parser/util.h
+++ b/src/parser/util.h
@@ -10,5 +10,7 @@ int item_may_decl(Parser* parser);
 int ctoken_is_storage_class_specifier(CToken* ctoken);
 int ctoken_is_type_specifier(CToken* ctoken, Set* typedef_names_set);
 Error* consume_ctoken(Parser* parser, CTokenType ctoken_type);
+Error* deepen_nesting(Parser* parser, int cost);
+ParserReturn* parse_nested(Parser* parser, int cost, ParserReturn* (*parse)(Parser*));
 
 #endif
-- 
2.43.0


From 87fcfb309a89f7fc3f783cce64c37b6d482e14da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:23 +0000
Subject: [PATCH 48/50] fix: give selection and iteration statements and their
 bodies scopes of their own

---
 src/resolver/statement.c | 53 ++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/resolver/statement.c b/src/resolver/statement.c
index f8ddaa9..1342ac5 100644
--- a/src/resolver/statement.c
+++ b/src/resolver/statement.c
@@ -6,6 +6,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+ResolverReturn* resolve_block(Resolver* resolver, ResolverReturn* (*resolve)(Resolver*));
+
 ResolverReturn* resolve_stmt(Resolver* resolver) {
     Srt* srt = NULL;
     Vector* errs = NULL;
@@ -41,20 +43,16 @@ ResolverReturn* resolve_stmt(Resolver* resolver) {
             resolverret_assign(&srt, &errs, resolve_null_stmt());
             break;
         case AST_IF_STMT:
-            resolverret_assign(&srt, &errs, resolve_if_else_stmt(resolver));
+            resolverret_assign(&srt, &errs, resolve_block(resolver, resolve_if_else_stmt));
             break;
         case AST_SWITCH_STMT:
-            resolverret_assign(&srt, &errs, resolve_switch_stmt(resolver));
+            resolverret_assign(&srt, &errs, resolve_block(resolver, resolve_switch_stmt));
             break;
         case AST_WHILE_STMT:
-            resolverret_assign(&srt, &errs, resolve_while_stmt(resolver));
+            resolverret_assign(&srt, &errs, resolve_block(resolver, resolve_while_stmt));
             break;
         case AST_FOR_STMT:
-            resolver->symbol_table = symboltable_enter_scope(resolver->symbol_table);
-            resolver->tag_table = tagtable_enter_scope(resolver->tag_table);
-            resolverret_assign(&srt, &errs, resolve_for_stmt(resolver));
-            resolver->symbol_table = symboltable_exit_scope(resolver->symbol_table);
-            resolver->tag_table = tagtable_exit_scope(resolver->tag_table);
+            resolverret_assign(&srt, &errs, resolve_block(resolver, resolve_for_stmt));
             break;
         default:
             fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
@@ -68,6 +66,35 @@ ResolverReturn* resolve_stmt(Resolver* resolver) {
     return new_resolverret(srt);
 }
 
+ResolverReturn* resolve_block(Resolver* resolver, ResolverReturn* (*resolve)(Resolver*)) {
+    Srt* srt = new_srt(SRT_CMPD_STMT, 0);
+    Srt* child_srt = NULL;
+    Vector* errs = NULL;
+    Srt* scope_srt = resolver->scope_srt;
+
+    resolver->scope_srt = srt;
+    resolver->symbol_table = symboltable_enter_scope(resolver->symbol_table);
+    resolver->tag_table = tagtable_enter_scope(resolver->tag_table);
+    resolverret_assign(&child_srt, &errs, resolve(resolver));
+    resolver->tag_table = tagtable_exit_scope(resolver->tag_table);
+    resolver->symbol_table = symboltable_exit_scope(resolver->symbol_table);
+    resolver->scope_srt = scope_srt;
+
+    if (errs != NULL) {
+        delete_srt(srt);
+        return new_resolverret_errors(errs);
+    }
+
+    if (vector_size(srt->children) == 0) {
+        // no tag is declared in the block
+        delete_srt(srt);
+        return new_resolverret(child_srt);
+    }
+
+    vector_push(srt->children, child_srt);
+    return new_resolverret(srt);
+}
+
 ResolverReturn* resolve_case_stmt(Resolver* resolver) {
     Srt* srt = new_srt(SRT_CASE_STMT, 0);
     Srt* child_srt = NULL;
@@ -342,7 +369,7 @@ ResolverReturn* resolve_if_else_stmt(Resolver* resolver) {
     }
 
     resolver->ast = vector_at(ast->children, 1);
-    resolverret_assign(&child_srt, &errs, resolve_stmt(resolver));
+    resolverret_assign(&child_srt, &errs, resolve_block(resolver, resolve_stmt));
     resolver->ast = ast;
     if (errs != NULL) {
         delete_srt(srt);
@@ -355,7 +382,7 @@ ResolverReturn* resolve_if_else_stmt(Resolver* resolver) {
     }
 
     resolver->ast = vector_at(ast->children, 2);
-    resolverret_assign(&child_srt, &errs, resolve_stmt(resolver));
+    resolverret_assign(&child_srt, &errs, resolve_block(resolver, resolve_stmt));
     resolver->ast = ast;
     if (errs != NULL) {
         delete_srt(srt);
@@ -401,7 +428,7 @@ ResolverReturn* resolve_switch_stmt(Resolver* resolver) {
     resolver->switch_default_exists = 0;
 
     resolver->ast = vector_at(ast->children, 1);
-    resolverret_assign(&child_srt, &errs, resolve_stmt(resolver));
+    resolverret_assign(&child_srt, &errs, resolve_block(resolver, resolve_stmt));
     resolver->ast = ast;
 
     delete_vector(resolver->switch_cases);
@@ -448,7 +475,7 @@ ResolverReturn* resolve_while_stmt(Resolver* resolver) {
 
     resolver->inside_loop = 1;
     resolver->ast = vector_at(ast->children, 1);
-    resolverret_assign(&child_srt, &errs, resolve_stmt(resolver));
+    resolverret_assign(&child_srt, &errs, resolve_block(resolver, resolve_stmt));
     resolver->ast = ast;
     resolver->inside_loop = original_inside_loop;
 
@@ -535,7 +562,7 @@ ResolverReturn* resolve_for_stmt(Resolver* resolver) {
 
     resolver->inside_loop = 1;
     resolver->ast = vector_at(ast->children, 3);
-    resolverret_assign(&child_srt, &errs, resolve_stmt(resolver));
+    resolverret_assign(&child_srt, &errs, resolve_block(resolver, resolve_stmt));
     resolver->ast = ast;
     resolver->inside_loop = original_inside_loop;
 
-- 
2.43.0


From 08e62f5ea35d7e2eddad45803af95aa8989f598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:54 +0000
Subject: [PATCH 49/50] fix: let copies of an unnamed struct type share its
 members

---
 src/dtype/struct.c | 11 ++++++++---
 src/dtype/struct.h |  1 +
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dtype/struct.c b/src/dtype/struct.c
index ffdb22c..60752b7 100644
--- a/src/dtype/struct.c
+++ b/src/dtype/struct.c
@@ -18,6 +18,7 @@ DStruct* new_named_dstruct(char* name, int nbytes, int alignment) {
     DStruct* dstruct = malloc(sizeof(DStruct));
     dstruct->name = name;
     dstruct->members = NULL;
+    dstruct->num_members_owners = NULL;
     dstruct->nbytes = nbytes;
     dstruct->alignment = alignment;
     dstruct->unnamed_id = 0;
@@ -28,6 +29,8 @@ DStruct* new_unnamed_dstruct(Vector* members) {
     DStruct* dstruct = malloc(sizeof(DStruct));
     dstruct->name = NULL;
     dstruct->members = members;
+    dstruct->num_members_owners = malloc(sizeof(int));
+    *dstruct->num_members_owners = 1;
     dstruct->nbytes = 0;
     dstruct->alignment = 0;
     dstruct->unnamed_id = 0;
@@ -55,9 +58,10 @@ DStruct* dstruct_copy(DStruct* dstruct) {
     if (dstruct->name != NULL) {
         copied_dstruct->name = new_string(dstruct->name);
     }
-    copied_dstruct->members = NULL;
+    copied_dstruct->members = dstruct->members;
+    copied_dstruct->num_members_owners = dstruct->num_members_owners;
     if (dstruct->members != NULL) {
-        copied_dstruct->members = vector_copy(dstruct->members);
+        (*dstruct->num_members_owners)++;
     }
     copied_dstruct->nbytes = dstruct->nbytes;
     copied_dstruct->alignment = dstruct->alignment;
@@ -108,8 +112,9 @@ void delete_dstruct(DStruct* dstruct) {
     if (dstruct->name != NULL) {
         free(dstruct->name);
     }
-    if (dstruct->members != NULL) {
+    if (dstruct->members != NULL && --(*dstruct->num_members_owners) == 0) {
         delete_vector(dstruct->members);
+        free(dstruct->num_members_owners);
     }
     free(dstruct);
 }
diff --git a/src/dtype/struct.h b/src/dtype/struct.h
index ec60134..c7a40f4 100644
--- a/src/dtype/struct.h
+++ b/src/dtype/struct.h
@@ -20,6 +20,7 @@ typedef struct DStructMember DStructMember;
 struct DStruct {
     char* name;
     Vector* members;
+    int* num_members_owners; // copies of the struct share its members
     int nbytes;
     int alignment;
     int unnamed_id; // positive: identity of an unnamed struct declared in source code
-- 
2.43.0


From ab8cd516f1b61db68e2602cfc934d8c15c52f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:41 +0000
Subject: [PATCH 50/50] fix: align global objects as the ABI asks

---
 src/main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 176b391..1658519 100644
--- a/src/main.c
+++ b/src/main.c
@@ -112,7 +112,12 @@ int main(int argc, char* argv[]) {
 
     int x64codes_len = vector_size(x64codes);
     for (int i = 0; i < x64codes_len; i++) {
-        char* x64_str = x64_tostring(vector_at(x64codes, i));
+        X64* x64 = vector_at(x64codes, i);
+        if (x64->type == X64_LABEL && x64->label->type == X64_LABEL_VARIABLE) {
+            // code of other compilers relies on the ABI's alignment: 16 is that of an array of 16 bytes or more
+            fprintf(dst, "\t.data\n\t.balign 16\n");
+        }
+        char* x64_str = x64_tostring(x64);
         fprintf(dst, "%s", x64_str);
         free(x64_str);
     }
-- 
2.43.0

