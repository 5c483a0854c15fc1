From 3f9040afe5e70b1ae4fc37b70543f997cb89c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:34 +0000
Subject: [PATCH 01/46] fix: lower an indirect operand through the register
 holding its value

gen_child_ptr_immcope used the last register handed out instead of the one
the operand's value is in; they differ when the operand is e.g. a
post-increment or an assignment (*p++ read through the incremented pointer).
---
 src/immcgen/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index e9ce2b6..4e9a86a 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -181,7 +181,7 @@ ImmcOpe* gen_child_ptr_immcope(Immcgen* immcgen, Vector* codes, int index) {
     }
 
     append_child_immcode(immcgen, codes, index);
-    return new_ptr_immcope(immcgen->next_reg_id);
+    return new_ptr_immcope(immcgen->expr_reg->reg_id);
 }
 
 ImmcOpe* create_dest_reg_immcope(Immcgen* immcgen) {
-- 
2.43.0


From d0e01419aec5832957fee4014f88f8290106794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:58 +0000
Subject: [PATCH 02/46] fix: lower cast expressions that are not operands of
 another expression

A cast used as a statement, as the operand of * or & , or as an indirect
callee reached the default branch of immcgen_generate_immcode and aborted the
compilation with an internal error.
---
 src/immcgen/expression.c | 17 +++++++++++++++++
 src/immcgen/expression.h |  1 +
 src/immcgen/immcgen.c    |  3 +++
 3 files changed, 21 insertions(+)

diff --git a/src/immcgen/expression.c b/src/immcgen/expression.c
index 7e63e31..c1f8830 100644
--- a/src/immcgen/expression.c
+++ b/src/immcgen/expression.c
@@ -347,6 +347,23 @@ Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+Vector* gen_cast_expr_immcode(Immcgen* immcgen) {
+    Vector* codes = new_vector(&t_immc);
+
+    if (immcgen->srt->dtype->type == DTYPE_VOID) {
+        append_child_immcode(immcgen, codes, 0);
+        update_void_expr_register(immcgen);
+        return codes;
+    }
+
+    ImmcOpe* src = gen_child_reg_immcope(immcgen, codes, 0);
+    ImmcOpe* dst = create_dest_reg_immcope(immcgen);
+    vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
+
+    update_non_void_expr_register(immcgen, dst);
+    return codes;
+}
+
 Vector* gen_unary_expr_immcode(Immcgen* immcgen) {
     Vector* codes = NULL;
     Srt* srt = immcgen->srt;
diff --git a/src/immcgen/expression.h b/src/immcgen/expression.h
index 29d4d84..ea5618a 100644
--- a/src/immcgen/expression.h
+++ b/src/immcgen/expression.h
@@ -15,6 +15,7 @@ Vector* gen_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_additive_expr_immcode(Immcgen* immcgen);
 Vector* gen_pointer_diff_expr_immcode(Immcgen* immcgen);
 Vector* gen_multiplicative_expr_immcode(Immcgen* immcgen);
+Vector* gen_cast_expr_immcode(Immcgen* immcgen);
 Vector* gen_unary_expr_immcode(Immcgen* immcgen);
 Vector* gen_postfix_expr_immcode(Immcgen* immcgen);
 Vector* gen_primary_expr_immcode(Immcgen* immcgen);
diff --git a/src/immcgen/immcgen.c b/src/immcgen/immcgen.c
index 42c1bdf..7272f05 100644
--- a/src/immcgen/immcgen.c
+++ b/src/immcgen/immcgen.c
@@ -145,6 +145,9 @@ Vector* immcgen_generate_immcode(Immcgen* immcgen) {
         case SRT_MOD_EXPR:
             codes = gen_multiplicative_expr_immcode(immcgen);
             break;
+        case SRT_CAST_EXPR:
+            codes = gen_cast_expr_immcode(immcgen);
+            break;
         case SRT_PREDEC_EXPR:
         case SRT_PREINC_EXPR:
         case SRT_ADDR_EXPR:
-- 
2.43.0


From 95a448e1e18c2c8673248ac79f7d248e3e3525ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:45 +0000
Subject: [PATCH 03/46] fix: skip the tail padding of a local struct when
 initializing an array of structs

---
 src/immcgen/declaration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 67535f2..5954fd3 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -243,6 +243,7 @@ Vector* gen_local_struct_initializer_immcode(Immcgen* immcgen) {
         immcgen->initialized_offset = offset - member->memory_offset;
         append_child_immcode(immcgen, codes, i);
     }
+    immcgen->initialized_offset = offset - dtype_nbytes(dtype);
 
     return codes;
 }
-- 
2.43.0


From 497635931c380be0b03e2fdd731ce840826ba753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:18 +0000
Subject: [PATCH 04/46] fix: accept casts of arrays and functions to scalar
 types

---
 src/resolver/expression.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index c54ba79..b0a6d14 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -961,6 +961,9 @@ ResolverReturn* resolve_cast_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    child_srt = convert_to_ptr_if_array(child_srt);
+    child_srt = convert_to_ptr_if_function(child_srt);
+
     if (dtype->type != DTYPE_VOID && (!dtype_isscalar(dtype) || !dtype_isscalar(child_srt->dtype))) {
         errs = new_vector(&t_error);
         err = new_error("cast should be from an any type to void or from a scalar type to scalar type");
-- 
2.43.0


From b2b1e0c42d305b4225ff4846f1f976a94cb2017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:18 +0000
Subject: [PATCH 05/46] fix: accept the address of a structure member

---
 src/resolver/expression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index b0a6d14..dfa4789 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1046,6 +1046,7 @@ ResolverReturn* resolve_address_expr(Resolver* resolver) {
     }
 
     if (child_srt->dtype->type != DTYPE_FUNCTION && child_srt->type != SRT_INDIR_EXPR &&
+        child_srt->type != SRT_TOMEMBER_EXPR &&
         (child_srt->type != SRT_IDENT_EXPR || !dtype_isobject(child_srt->dtype))) {
         errs = new_vector(&t_error);
         err = new_error("operand of unary & is neither a function designator, "
-- 
2.43.0


From 7c14f29f84b903e0e155ecbde32e569df9d77007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 06/46] fix: accept the arrow operator on an array of
 structures

---
 src/resolver/expression.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index dfa4789..ab6811b 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1386,6 +1386,8 @@ ResolverReturn* resolve_member_like_expr(Resolver* resolver) {
         return new_resolverret_errors(errs);
     }
 
+    lhs_srt = convert_to_ptr_if_array(lhs_srt);
+
     if (ast->type == AST_MEMBER_EXPR && lhs_srt->dtype->type != DTYPE_STRUCT) {
         errs = new_vector(&t_error);
         err = new_error("dot-accessed object is not a struct");
-- 
2.43.0


From 367c6e2f478c14acc4a6e27575cc0619010ba7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:12 +0000
Subject: [PATCH 07/46] fix: reject arithmetic on pointers to types without a
 size

---
 src/dtype/dtype.c         |  4 ++++
 src/dtype/dtype.h         |  1 +
 src/resolver/expression.c | 10 +++++-----
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dtype/dtype.c b/src/dtype/dtype.c
index 1a89c42..851352a 100644
--- a/src/dtype/dtype.c
+++ b/src/dtype/dtype.c
@@ -313,6 +313,10 @@ int dtype_isobject(DType* dtype) {
            (dtype->type == DTYPE_STRUCT && dtype->dstruct->nbytes > 0) || dtype->type == DTYPE_ENUM;
 }
 
+int dtype_isobjectpointer(DType* dtype) {
+    return dtype->type == DTYPE_POINTER && dtype_isobject(dtype->dpointer->to_dtype);
+}
+
 int dtype_isincomplete(DType* dtype) {
     return dtype->type == DTYPE_VOID || (dtype->type == DTYPE_STRUCT && dtype->dstruct->nbytes <= 0);
 }
diff --git a/src/dtype/dtype.h b/src/dtype/dtype.h
index a25008d..1e43736 100644
--- a/src/dtype/dtype.h
+++ b/src/dtype/dtype.h
@@ -71,6 +71,7 @@ int dtype_isarithmetic(DType* dtype);
 int dtype_isscalar(DType* dtype);
 int dtype_isaggregate(DType* dtype);
 int dtype_isobject(DType* dtype);
+int dtype_isobjectpointer(DType* dtype);
 int dtype_isincomplete(DType* dtype);
 int dtype_alignment(DType* dtype);
 int dtype_nbytes(DType* dtype);
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index ab6811b..abba4f6 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -779,11 +779,11 @@ ResolverReturn* resolve_add_expr(Resolver* resolver) {
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_ADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
+    } else if (dtype_isobjectpointer(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (dtype_isinteger(lhs_srt->dtype) && rhs_srt->dtype->type == DTYPE_POINTER) {
+    } else if (dtype_isinteger(lhs_srt->dtype) && dtype_isobjectpointer(rhs_srt->dtype)) {
         dtype = dtype_copy(rhs_srt->dtype);
         srt = new_dtyped_srt(SRT_PADD_EXPR, dtype, 2, rhs_srt, lhs_srt);
         return new_resolverret(srt);
@@ -835,11 +835,11 @@ ResolverReturn* resolve_subtract_expr(Resolver* resolver) {
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_SUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (lhs_srt->dtype->type == DTYPE_POINTER && dtype_isinteger(rhs_srt->dtype)) {
+    } else if (dtype_isobjectpointer(lhs_srt->dtype) && dtype_isinteger(rhs_srt->dtype)) {
         dtype = dtype_copy(lhs_srt->dtype);
         srt = new_dtyped_srt(SRT_PSUB_EXPR, dtype, 2, lhs_srt, rhs_srt);
         return new_resolverret(srt);
-    } else if (lhs_srt->dtype->type == DTYPE_POINTER && rhs_srt->dtype->type == DTYPE_POINTER &&
+    } else if (dtype_isobjectpointer(lhs_srt->dtype) && dtype_isobjectpointer(rhs_srt->dtype) &&
                dtype_iscompatible(lhs_srt->dtype, rhs_srt->dtype)) {
         dtype = new_integer_dtype(DTYPE_UNSIGNED_LONGLONG);
         srt = new_dtyped_srt(SRT_PDIFF_EXPR, dtype, 2, lhs_srt, rhs_srt);
@@ -1462,7 +1462,7 @@ ResolverReturn* resolve_incdec_expr(Resolver* resolver, SrtType srt_type, char*
         return new_resolverret_errors(errs);
     }
 
-    if (!dtype_isinteger(srt->dtype) && srt->dtype->type != DTYPE_POINTER) {
+    if (!dtype_isinteger(srt->dtype) && !dtype_isobjectpointer(srt->dtype)) {
         errs = new_vector(&t_error);
         err = new_error("operand of %s should be either integer or pointer", op);
         vector_push(errs, err);
-- 
2.43.0


From 67fc31c0e47a2f669f067639f55cc6d0c3e29b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:46 +0000
Subject: [PATCH 08/46] fix: a typedef name for void is a valid type specifier

---
 src/resolver/declaration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index c2b5219..f4f1f99 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -578,6 +578,8 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
 
     DType* complete_dtype = NULL;
     switch (dtype->type) {
+        case DTYPE_VOID:
+            break;
         case DTYPE_STRUCT:
             complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
             if (complete_dtype == NULL)
-- 
2.43.0


From c0b14184a2ed0f0614db3a92cc274d7238fb39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:47 +0000
Subject: [PATCH 09/46] fix: a typedef may name a function returning void

---
 src/resolver/declaration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index f4f1f99..01eff26 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -824,7 +824,7 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                 }
 
                 if (socket_dtype != NULL && socket_dtype->type == DTYPE_FUNCTION && dtype_isincomplete(plug_dtype) &&
-                    resolver->specifier_dtype->type != DTYPE_VOID) {
+                    plug_dtype->type != DTYPE_VOID) {
                     errs = new_vector(&t_error);
                     err = new_error("function returning incomplete type other than void is invalid");
                     vector_push(errs, err);
-- 
2.43.0


From 76f6745903a4468205cbe55b11db1623342db4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:49 +0000
Subject: [PATCH 10/46] fix: typedef names of array and function types obey the
 declarator constraints

---
 src/resolver/declaration.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 01eff26..62596e3 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -816,6 +816,28 @@ ResolverReturn* resolve_declarator(Resolver* resolver) {
                     plug_dtype = plug_dtype->dtypedef->defined_dtype;
                 }
 
+                if (socket_dtype != NULL && socket_dtype->type == DTYPE_FUNCTION && plug_dtype->type == DTYPE_ARRAY) {
+                    errs = new_vector(&t_error);
+                    err = new_error("function returning an array is invalid");
+                    vector_push(errs, err);
+                    break;
+                }
+
+                if (socket_dtype != NULL && socket_dtype->type == DTYPE_ARRAY && plug_dtype->type == DTYPE_FUNCTION) {
+                    errs = new_vector(&t_error);
+                    err = new_error("array of functions is invalid");
+                    vector_push(errs, err);
+                    break;
+                }
+
+                if (socket_dtype != NULL && socket_dtype->type == DTYPE_FUNCTION &&
+                    plug_dtype->type == DTYPE_FUNCTION) {
+                    errs = new_vector(&t_error);
+                    err = new_error("function returning a function is invalid");
+                    vector_push(errs, err);
+                    break;
+                }
+
                 if (socket_dtype != NULL && socket_dtype->type == DTYPE_ARRAY && dtype_isincomplete(plug_dtype)) {
                     errs = new_vector(&t_error);
                     err = new_error("array of incomplete type is invalid");
-- 
2.43.0


From d84b57e05f8c3030e8b07849b597d3aa7af92284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:45 +0000
Subject: [PATCH 11/46] fix: using an enum tag as a struct tag is an error, not
 a crash

---
 src/resolver/declaration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 62596e3..7ad2dac 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -226,6 +226,13 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     if (members == NULL) {
         DType* unnamed_dtype = tagtable_search(resolver->tag_table, struct_name);
         int nbytes = 0, alignment = 0;
+        if (unnamed_dtype != NULL && unnamed_dtype->type != DTYPE_STRUCT) {
+            errs = new_vector(&t_error);
+            err = new_error("tag '%s' is not declared as a struct", struct_name);
+            vector_push(errs, err);
+            free(struct_name);
+            return new_resolverret_dtype_errors(errs);
+        }
         if (unnamed_dtype != NULL) {
             nbytes = unnamed_dtype->dstruct->nbytes;
             alignment = unnamed_dtype->dstruct->alignment;
-- 
2.43.0


From 651944a416f25a533d0751b5ecca1fefa15569fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:55 +0000
Subject: [PATCH 12/46] fix: using a struct tag as an enum tag is an error

---
 src/resolver/declaration.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index 7ad2dac..d483f8a 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -455,6 +455,14 @@ ResolverDTypeReturn* resolve_enum_specifier(Resolver* resolver) {
     }
 
     if (members == NULL) {
+        DType* enum_dtype = tagtable_search(resolver->tag_table, enum_name);
+        if (enum_dtype != NULL && enum_dtype->type != DTYPE_ENUM) {
+            errs = new_vector(&t_error);
+            err = new_error("tag '%s' is not declared as an enum", enum_name);
+            vector_push(errs, err);
+            free(enum_name);
+            return new_resolverret_dtype_errors(errs);
+        }
         free(enum_name);
         dtype = new_integer_dtype(DTYPE_INT);
         return new_resolverret_dtype(dtype);
-- 
2.43.0


From 21ce2c361a2b7aa468c88e5154fba21500a1eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:08 +0000
Subject: [PATCH 13/46] fix: zero-fill the remaining long and unsigned elements
 of an initializer list

---
 src/resolver/declaration.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index d483f8a..f823939 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1109,6 +1109,11 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
     switch (dtype->type) {
         case DTYPE_CHAR:
         case DTYPE_INT:
+        case DTYPE_UNSIGNED_INT:
+        case DTYPE_LONG:
+        case DTYPE_UNSIGNED_LONG:
+        case DTYPE_LONGLONG:
+        case DTYPE_UNSIGNED_LONGLONG:
         case DTYPE_POINTER:
             // resolve_zero_scalar_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_scalar_initializer(resolver));
-- 
2.43.0


From b567872e490d4b198b1268fdb7fcfa2ab9bf120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:40 +0000
Subject: [PATCH 14/46] fix: a string literal in a braced list initializes its
 whole character array

---
 src/resolver/declaration.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index f823939..b011781 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1220,7 +1220,11 @@ ResolverReturn* resolve_aggregate_initializer(Resolver* resolver) {
 
         resolver->initialized_dtype = dtype_aggregate_at(dtype, aggregate_index);
 
-        if (dtype_isaggregate(resolver->initialized_dtype) && child_ast->type != AST_INIT_LIST) {
+        DType* child_dtype = resolver->initialized_dtype;
+        int is_string = child_ast->type == AST_STRING_EXPR && child_dtype->type == DTYPE_ARRAY &&
+                        child_dtype->darray->of_dtype->type == DTYPE_CHAR;
+
+        if (dtype_isaggregate(child_dtype) && child_ast->type != AST_INIT_LIST && !is_string) {
             resolver->ast = ast;
             resolver->is_nested_initializing = 1;
             resolverret_assign(&child_srt, &child_errs, resolve_initializer(resolver));
-- 
2.43.0


From 8e44f815086c621ad15e5942c747516b42445d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:41 +0000
Subject: [PATCH 15/46] fix: keep the errors of an initializer list that is
 also too long

---
 src/resolver/declaration.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index b011781..dea9c42 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -1271,10 +1271,9 @@ ResolverReturn* resolve_aggregate_initializer(Resolver* resolver) {
 
     if (!resolver->is_nested_initializing && aggregate_index == aggregate_size &&
         resolver->initialized_offset < initializer_len) {
-        if (errs != NULL) {
-            delete_vector(errs);
+        if (errs == NULL) {
+            errs = new_vector(&t_error);
         }
-        errs = new_vector(&t_error);
         err = new_error("initializer list is too long");
         vector_push(errs, err);
     }
-- 
2.43.0


From 8b3fb7702850f008e5c6c2a69b22ba5fa42ea83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:42 +0000
Subject: [PATCH 16/46] fix: report a character constant or string literal that
 the end of the file cuts off

---
 src/lexer/reader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index 4b6600e..ee092f5 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -121,6 +121,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
         case '\'':
             err = new_error("character constant is empty");
             break;
+        case EOF:
+            err = new_error("unterminated character constant");
+            break;
         default:
             break;
     }
@@ -139,6 +142,9 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in character constant");
                 break;
+            case EOF:
+                err = new_error("unterminated character constant");
+                break;
             default:
                 break;
         }
@@ -176,6 +182,9 @@ LexerReturnItem* read_string_literal(Lexer* lexer) {
             case '\n':
                 err = new_error("newline appeared in string literal");
                 break;
+            case EOF:
+                err = new_error("unterminated string literal");
+                break;
             default:
                 break;
         }
-- 
2.43.0


From e38bf35985d2f5d1740802254e9ca2d0606f5f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 17/46] fix: do not take a byte of value 255 for the end of the
 file

---
 src/lexer/reader.c | 1 +
 src/lexer/util.c   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer/reader.c b/src/lexer/reader.c
index ee092f5..73c29f0 100644
--- a/src/lexer/reader.c
+++ b/src/lexer/reader.c
@@ -125,6 +125,7 @@ LexerReturnItem* read_character_constant(Lexer* lexer) {
             err = new_error("unterminated character constant");
             break;
         default:
+            c = (char)c;
             break;
     }
 
diff --git a/src/lexer/util.c b/src/lexer/util.c
index 3922573..7b0d9df 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -204,7 +204,7 @@ int get_content_top(Lexer* lexer) {
     if (lexer->content_index >= lexer->content_size) {
         return EOF;
     }
-    return lexer->content[lexer->content_index];
+    return (unsigned char)lexer->content[lexer->content_index];
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
-- 
2.43.0


From c0f568ff65555aab023f6637dc85ebad8e724237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 18/46] fix: keep the hash of a string with bytes above 127
 non-negative

---
 src/common/type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/type.c b/src/common/type.c
index 4be65e2..05f4fe2 100644
--- a/src/common/type.c
+++ b/src/common/type.c
@@ -66,7 +66,7 @@ int hash_string(char* str) {
 
     char* str_ptr = str;
     while (*str_ptr != '\0') {
-        hash = (*str_ptr * a + hash) % b;
+        hash = ((unsigned char)*str_ptr * a + hash) % b;
         str_ptr++;
     }
 
-- 
2.43.0


From d86c30a507c9c052f46b5878ad57ebb39006cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 19/46] fix: give an integer constant too large for its first
 type the next one that holds it

---
 src/lexer/util.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lexer/util.c b/src/lexer/util.c
index 7b0d9df..cb4b972 100644
--- a/src/lexer/util.c
+++ b/src/lexer/util.c
@@ -1,6 +1,7 @@
 #include "./util.h"
 #include "../common/type.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -208,8 +209,23 @@ int get_content_top(Lexer* lexer) {
 }
 
 IntegerLiteral* create_iliteral(char* value, int base, IntegerLiteralType type) {
+    unsigned long long unsigned_value = strtoull(value, NULL, base);
+    int allows_unsigned = base != 10;
+
+    if (type == INTEGER_INT && unsigned_value > INT_MAX) {
+        type = (allows_unsigned && unsigned_value <= UINT_MAX) ? INTEGER_UNSIGNED_INT : INTEGER_LONG;
+    }
+    if (type == INTEGER_UNSIGNED_INT && unsigned_value > UINT_MAX) {
+        type = INTEGER_UNSIGNED_LONG;
+    }
+    if (type == INTEGER_LONG && allows_unsigned && unsigned_value > LONG_MAX) {
+        type = INTEGER_UNSIGNED_LONG;
+    }
+    if (type == INTEGER_LONGLONG && allows_unsigned && unsigned_value > LLONG_MAX) {
+        type = INTEGER_UNSIGNED_LONGLONG;
+    }
+
     if (iliteral_type_isunsigned(type)) {
-        unsigned long long unsigned_value = strtoull(value, NULL, base);
         return new_unsigned_iliteral(type, unsigned_value);
     } else {
         long long signed_value = strtoll(value, NULL, base);
-- 
2.43.0


From f17e8100cffe3b70df487cca15d8ac645b3d6e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:55 +0000
Subject: [PATCH 20/46] fix: widen the comparison result from the register
 setcc wrote

---
 src/x64gen/bitinst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64gen/bitinst.c b/src/x64gen/bitinst.c
index 17d3632..792f401 100644
--- a/src/x64gen/bitinst.c
+++ b/src/x64gen/bitinst.c
@@ -111,7 +111,7 @@ Vector* gen_setcmp_common_x64code(X64gen* x64gen, X64InstType type) {
     vector_push(codes, new_inst_x64(type, NULL, dst));
 
     X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
-    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, fst_src_id);
+    X64Ope* dst_mov_src = new_reg_x64ope(X64_SUFFIX_BYTE, dst_id);
     append_mov_code(codes, dst_mov_src, dst_mov_dst, 1);
 
     liveseqs_next(x64gen->liveseqs);
-- 
2.43.0


From 8b94f797baded71c81f26d8529a9a61c5860417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:08 +0000
Subject: [PATCH 21/46] fix: do not keep live values in the frame pointer
 across a call

---
 src/x64/register.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64/register.c b/src/x64/register.c
index de17f15..b187388 100644
--- a/src/x64/register.c
+++ b/src/x64/register.c
@@ -10,7 +10,7 @@ int CALLER_SAVED_REG_IDS[8] = {CX_REG_ID, DX_REG_ID, SI_REG_ID,  DI_REG_ID,
                                R8_REG_ID, R9_REG_ID, R10_REG_ID, R11_REG_ID};
 
 int NUM_CALLEE_SAVED_REGS = 5;
-int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, BP_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID};
+int CALLEE_SAVED_REG_IDS[5] = {BX_REG_ID, R12_REG_ID, R13_REG_ID, R14_REG_ID, R15_REG_ID};
 
 char* PC_NAME = "%rip";
 
-- 
2.43.0


From 7138e34a9276c40ee6c86115b76dfd5f928035cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:10 +0000
Subject: [PATCH 22/46] fix: spell the word name of r13

---
 src/x64/register.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/x64/register.c b/src/x64/register.c
index b187388..5d57002 100644
--- a/src/x64/register.c
+++ b/src/x64/register.c
@@ -18,7 +18,7 @@ char* BREG_NAMES[16] = {"%al",  "%bl",  "%cl",   "%dl",   "%spl",  "%bpl",  "%si
                         "%r8b", "%r9b", "%r10b", "%r11b", "%r12b", "%r13b", "%r14b", "%r15b"};
 
 char* WREG_NAMES[16] = {"%ax",  "%bx",  "%cx",   "%dx",   "%sp",   "%bp",   "%si",   "%di",
-                        "%r8w", "%r9w", "%r10w", "%r11w", "%r12w", "%r13q", "%r14w", "%r15w"};
+                        "%r8w", "%r9w", "%r10w", "%r11w", "%r12w", "%r13w", "%r14w", "%r15w"};
 
 char* LREG_NAMES[16] = {"%eax", "%ebx", "%ecx",  "%edx",  "%esp",  "%ebp",  "%esi",  "%edi",
                         "%r8d", "%r9d", "%r10d", "%r11d", "%r12d", "%r13d", "%r14d", "%r15d"};
-- 
2.43.0


From 2c553a3f8eabfc880f314c6207b21f0e5721183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:53 +0000
Subject: [PATCH 23/46] fix: shift an unsigned value right without copying its
 top bit

---
 src/x64/inst.c         | 9 +++++----
 src/x64/inst.h         | 1 +
 src/x64gen/shrotinst.c | 6 ++++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/x64/inst.c b/src/x64/inst.c
index 974e08e..f9c4367 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -11,10 +11,10 @@
 
 char* x64_inst_formats[] = {"mov%c",  "movs%c%c", "movz%c%c", "movabs%c", "lea%c",  "c%ct%c", "c%ctd",  "cqto",
                             "push%c", "pop%c",    "add%c",    "sub%c",    "imul%c", "div%c",  "idiv%c", "neg%c",
-                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "cmp%c",  "sete",
-                            "setne",  "seta",     "setae",    "setb",     "setbe",  "setg",   "setge",  "setl",
-                            "setle",  "jmp",      "je",       "jne",      "ja",     "jae",    "jb",     "jbe",
-                            "jg",     "jge",      "jl",       "jle",      "call",   "ret"};
+                            "and%c",  "not%c",    "or%c",     "xor%c",    "sal%c",  "sar%c",  "shr%c",  "cmp%c",
+                            "sete",   "setne",    "seta",     "setae",    "setb",   "setbe",  "setg",   "setge",
+                            "setl",   "setle",    "jmp",      "je",       "jne",    "ja",     "jae",    "jb",
+                            "jbe",    "jg",       "jge",      "jl",       "jle",    "call",   "ret"};
 
 X64Inst* new_x64inst(X64InstType type, X64Ope* src, X64Ope* dst) {
     X64Inst* x64inst = malloc(sizeof(X64Inst));
@@ -108,6 +108,7 @@ char* x64instcode_tostring(X64Inst* x64inst) {
         case X64_INST_XORX:
         case X64_INST_SALX:
         case X64_INST_SARX:
+        case X64_INST_SHRX:
         case X64_INST_CMPX: {
             // TODO: fix to prevent buffer overflow
             char* instcode_str = malloc(50 * sizeof(char));
diff --git a/src/x64/inst.h b/src/x64/inst.h
index 3109fe0..8d26e39 100644
--- a/src/x64/inst.h
+++ b/src/x64/inst.h
@@ -33,6 +33,7 @@ typedef enum X64InstType {
     // shift/rotate instructions
     X64_INST_SALX,
     X64_INST_SARX,
+    X64_INST_SHRX,
 
     // bit/byte instructions
     X64_INST_CMPX,
diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 23d40d5..960340e 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -12,6 +12,12 @@ Vector* gen_sal_x64code(X64gen* x64gen) {
 }
 
 Vector* gen_sar_x64code(X64gen* x64gen) {
+    Immc* immc = vector_at(x64gen->immcs, x64gen->index);
+    ImmcOpe* immc_fst_src = immc->inst->fst_src;
+
+    if (immc_fst_src->reg->is_unsigned) {
+        return gen_shrot_common_x64code(x64gen, X64_INST_SHRX);
+    }
     return gen_shrot_common_x64code(x64gen, X64_INST_SARX);
 }
 
-- 
2.43.0


From 3438531c61f4301074ade008c77f89d1e0ff0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:51 +0000
Subject: [PATCH 24/46] fix: zero-extend an unsigned int into another register
 with a 32-bit mov

---
 src/x64gen/util.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index 1cb285c..4183728 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -44,6 +44,8 @@ void append_mov_code_unsigned(Vector* codes, X64Ope* src, X64Ope* dst) {
         delete_x64ope(dst);
         return;
     }
+    // a 32-bit mov clears the upper half of its destination
+    dst->suffix = src->suffix;
     vector_push(codes, new_inst_x64(X64_INST_MOVX, src, dst));
 }
 
-- 
2.43.0


From 6aba7a2177913b080b040dfc220f54932fc100f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:26 +0000
Subject: [PATCH 25/46] fix: clear the upper half of a value cut down to 32
 bits in place

---
 src/x64gen/util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index 4183728..be72ccb 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -25,7 +25,9 @@ void append_mov_code(Vector* codes, X64Ope* src, X64Ope* dst, int is_unsigned) {
 }
 
 void append_mov_code_simple(Vector* codes, X64Ope* src, X64Ope* dst) {
-    if (src->reg_id == dst->reg_id) {
+    // a value cut down to 32 bits must not keep its upper half: zero-extending it in place emits no code
+    int is_cut = src->suffix == X64_SUFFIX_QUAD && dst->suffix == X64_SUFFIX_LONG;
+    if (src->reg_id == dst->reg_id && !is_cut) {
         delete_x64ope(src);
         delete_x64ope(dst);
         return;
-- 
2.43.0


From f26267f4701ee1c698b978b9fbe4fde9b0d59b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:12 +0000
Subject: [PATCH 26/46] fix: keep the conversions between the outermost and the
 innermost of nested casts

---
 src/immcgen/util.c | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index 4e9a86a..24f1844 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -107,40 +107,33 @@ ImmcOpe* gen_child_int_immcope(Immcgen* immcgen, Vector* codes, int index) {
     Srt* srt = immcgen->srt;
     Srt* child_srt = vector_at(srt->children, index);
 
-    DType* cast_dtype = NULL;
-    if (child_srt->type == SRT_CAST_EXPR) {
-        cast_dtype = child_srt->dtype;
-    }
-    while (child_srt->type == SRT_CAST_EXPR) {
-        immcgen->srt = child_srt;
-        index = 0;
-        child_srt = vector_at(child_srt->children, index);
-    }
-
     if (child_srt->type == SRT_ILITERAL_EXPR) {
-        immcgen->srt = srt;
-        DType* iliteral_dtype = cast_dtype == NULL ? child_srt->dtype : cast_dtype;
-        IntegerLiteral* iliteral = create_dtyped_iliteral(iliteral_dtype, child_srt->iliteral);
-        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(iliteral_dtype));
+        IntegerLiteral* iliteral = create_dtyped_iliteral(child_srt->dtype, child_srt->iliteral);
+        ImmcSuffix suffix = immcsuffix_get(dtype_nbytes(child_srt->dtype));
         return new_int_immcope(suffix, iliteral);
     }
 
-    append_child_immcode(immcgen, codes, index);
-    immcgen->srt = srt;
-
-    if (cast_dtype == NULL) {
+    if (child_srt->type != SRT_CAST_EXPR) {
+        append_child_immcode(immcgen, codes, index);
         ImmcRegister* reg = immcreg_copy(immcgen->expr_reg);
         return new_reg_immcope(immcgen->expr_reg_suffix, reg);
     }
 
-    ImmcRegister* src_reg = immcreg_copy(immcgen->expr_reg);
-    ImmcOpe* src = new_reg_immcope(immcgen->expr_reg_suffix, src_reg);
-
-    int cast_is_unsigned = dtype_isunsignedinteger(cast_dtype);
+    DType* cast_dtype = child_srt->dtype;
     ImmcSuffix cast_suffix = immcsuffix_get(dtype_nbytes(cast_dtype));
 
+    immcgen->srt = child_srt;
+    ImmcOpe* src = gen_child_int_immcope(immcgen, codes, 0);
+    immcgen->srt = srt;
+
+    if (src->type == IMMC_OPERAND_INT) {
+        IntegerLiteral* iliteral = create_dtyped_iliteral(cast_dtype, src->iliteral);
+        delete_immcope(src);
+        return new_int_immcope(cast_suffix, iliteral);
+    }
+
     immcgen->next_reg_id++;
-    ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, cast_is_unsigned);
+    ImmcRegister* dst_reg = new_immcreg(immcgen->next_reg_id, dtype_isunsignedinteger(cast_dtype));
     ImmcOpe* dst = new_reg_immcope(cast_suffix, dst_reg);
 
     vector_push(codes, new_inst_immc(IMMC_INST_LOAD, dst, src, NULL));
-- 
2.43.0


From be1e719c99ceb2c00d007a2ac3deae14e2122f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:41 +0000
Subject: [PATCH 27/46] fix: reduce a converted constant to the width of its
 new type

---
 src/immcgen/util.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/immcgen/util.c b/src/immcgen/util.c
index 24f1844..2cb4b3f 100644
--- a/src/immcgen/util.c
+++ b/src/immcgen/util.c
@@ -191,10 +191,18 @@ IntegerLiteral* create_dtyped_iliteral(DType* dtype, IntegerLiteral* iliteral) {
         unsigned long long value =
             iliteral_isunsigned(iliteral) ? iliteral->unsigned_value : (unsigned long long)iliteral->signed_value;
         IntegerLiteralType type = iliteral_type_get(rank, 1);
+        if (dtype_nbytes(dtype) == 4) {
+            value = (unsigned int)value;
+        }
         return new_unsigned_iliteral(type, value);
     } else {
         long long value = iliteral_isunsigned(iliteral) ? (long long)iliteral->unsigned_value : iliteral->signed_value;
         IntegerLiteralType type = iliteral_type_get(rank, 0);
+        if (dtype_nbytes(dtype) == 1) {
+            value = (signed char)value;
+        } else if (dtype_nbytes(dtype) == 4) {
+            value = (int)value;
+        }
         return new_signed_iliteral(type, value);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 7f63f25cc8d806518e36c0989a17514ce8100538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:52 +0000
Subject: [PATCH 28/46] fix: convert a global initializer through every cast
 and reject what is not a constant

---
 src/immcgen/declaration.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/immcgen/declaration.c b/src/immcgen/declaration.c
index 5954fd3..42035cb 100644
--- a/src/immcgen/declaration.c
+++ b/src/immcgen/declaration.c
@@ -260,15 +260,14 @@ Vector* gen_scalar_initializer_immcode(Immcgen* immcgen) {
 }
 
 Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
+    IntegerLiteral* create_constant_iliteral(Srt * srt);
+
     Vector* codes = new_vector(&t_immc);
 
-    Srt* srt = vector_at(immcgen->srt->children, 0);
-    // TODO: support expression for global initializer
-    while (srt->type == SRT_CAST_EXPR) {
-        srt = vector_at(srt->children, 0);
-    }
+    IntegerLiteral* constant = create_constant_iliteral(vector_at(immcgen->srt->children, 0));
+    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, constant);
+    delete_iliteral(constant);
 
-    IntegerLiteral* iliteral = create_dtyped_iliteral(immcgen->initialized_dtype, srt->iliteral);
     int initialized_size = dtype_nbytes(immcgen->initialized_dtype);
     switch (initialized_size) {
         case 1:
@@ -292,6 +291,24 @@ Vector* gen_global_scalar_initializer_immcode(Immcgen* immcgen) {
     return codes;
 }
 
+IntegerLiteral* create_constant_iliteral(Srt* srt) {
+    switch (srt->type) {
+        case SRT_ILITERAL_EXPR:
+            return create_dtyped_iliteral(srt->dtype, srt->iliteral);
+        case SRT_CAST_EXPR: {
+            IntegerLiteral* constant = create_constant_iliteral(vector_at(srt->children, 0));
+            IntegerLiteral* iliteral = create_dtyped_iliteral(srt->dtype, constant);
+            delete_iliteral(constant);
+            return iliteral;
+        }
+        // TODO: support expression for global initializer
+        default:
+            fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
+                            "only an integer constant is supported as a global initializer\n");
+            exit(1);
+    }
+}
+
 Vector* gen_local_scalar_initializer_immcode(Immcgen* immcgen) {
     Vector* codes = new_vector(&t_immc);
 
-- 
2.43.0


From 3b8e2597eb73589a80795726dac4a1b27dd61083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:39 +0000
Subject: [PATCH 29/46] fix: bring a constant wider than 32 bits into a
 register before using it

---
 src/x64gen/arithinst.c | 10 ++++++++--
 src/x64gen/bitinst.c   |  2 +-
 src/x64gen/ctrlinst.c  |  2 +-
 src/x64gen/datainst.c  |  4 ++--
 src/x64gen/logicinst.c |  2 +-
 src/x64gen/util.c      | 19 +++++++++++++++++++
 src/x64gen/util.h      |  1 +
 7 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/x64gen/arithinst.c b/src/x64gen/arithinst.c
index 7181bc3..ffab8ae 100644
--- a/src/x64gen/arithinst.c
+++ b/src/x64gen/arithinst.c
@@ -40,7 +40,7 @@ Vector* gen_additive_subtractive_common_x64code(X64gen* x64gen, X64InstType type
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = append_imm_code(codes, suffix, immc_snd_src->iliteral);
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
@@ -96,12 +96,18 @@ Vector* gen_mul_x64code(X64gen* x64gen) {
 
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
+            X64Ope* snd_src = append_imm_code(codes, suffix, immc_snd_src->iliteral);
+            if (snd_src->type == X64_OPERAND_REG) {
+                X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
+                vector_push(codes, new_inst_x64(X64_INST_IMULX, fst_src, snd_src));
+                break;
+            }
+
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
             int fst_src_is_unsigned = immc_fst_src->reg->is_unsigned;
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
             X64Ope* fst_src = new_reg_x64ope(suffix, AX_REG_ID);
             vector_push(codes, new_inst_x64(X64_INST_IMULX, snd_src, fst_src));
             break;
diff --git a/src/x64gen/bitinst.c b/src/x64gen/bitinst.c
index 792f401..a805451 100644
--- a/src/x64gen/bitinst.c
+++ b/src/x64gen/bitinst.c
@@ -78,7 +78,7 @@ Vector* gen_setcmp_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = append_imm_code(codes, suffix, immc_snd_src->iliteral);
             vector_push(codes, new_inst_x64(X64_INST_CMPX, snd_src, fst_src));
             break;
         }
diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 222550b..670d65a 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -93,7 +93,7 @@ Vector* gen_jcmp_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = append_imm_code(codes, suffix, immc_snd_src->iliteral);
             vector_push(codes, new_inst_x64(X64_INST_CMPX, snd_src, fst_src));
             break;
         }
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index db844d8..ea6eb94 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -206,7 +206,7 @@ Vector* gen_store_x64code(X64gen* x64gen) {
     switch (immc_src->type) {
         case IMMC_OPERAND_INT: {
             X64Suffix src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_src->suffix));
-            src = new_int_x64ope(src_suffix, iliteral_copy(immc_src->iliteral));
+            src = append_imm_code(codes, src_suffix, immc_src->iliteral);
             break;
         }
         case IMMC_OPERAND_REG: {
@@ -271,7 +271,7 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
 
     switch (immc_src->type) {
         case IMMC_OPERAND_INT: {
-            X64Ope* src = new_int_x64ope(X64_SUFFIX_QUAD, iliteral_copy(immc_src->iliteral));
+            X64Ope* src = append_imm_code(codes, X64_SUFFIX_QUAD, immc_src->iliteral);
             vector_push(codes, new_inst_x64(X64_INST_PUSHX, src, NULL));
             break;
         }
diff --git a/src/x64gen/logicinst.c b/src/x64gen/logicinst.c
index e6e3995..7b2631b 100644
--- a/src/x64gen/logicinst.c
+++ b/src/x64gen/logicinst.c
@@ -95,7 +95,7 @@ Vector* gen_bitwise_binary_common_x64code(X64gen* x64gen, X64InstType type) {
             append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, fst_src_is_unsigned);
 
             X64Ope* fst_src = new_reg_x64ope(suffix, fst_src_id);
-            X64Ope* snd_src = new_int_x64ope(suffix, iliteral_copy(immc_snd_src->iliteral));
+            X64Ope* snd_src = append_imm_code(codes, suffix, immc_snd_src->iliteral);
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
diff --git a/src/x64gen/util.c b/src/x64gen/util.c
index be72ccb..d88cc2f 100644
--- a/src/x64gen/util.c
+++ b/src/x64gen/util.c
@@ -2,6 +2,7 @@
 #include "../liveseq/liveseq.h"
 #include "../x64/x64.h"
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -79,6 +80,24 @@ void append_mov_code_signed(Vector* codes, X64Ope* src, X64Ope* dst) {
     }
 }
 
+X64Ope* append_imm_code(Vector* codes, X64Suffix suffix, IntegerLiteral* iliteral) {
+    int fits_imm32 = 0;
+    if (iliteral_isunsigned(iliteral)) {
+        fits_imm32 = iliteral->unsigned_value <= INT_MAX;
+    } else {
+        fits_imm32 = INT_MIN <= iliteral->signed_value && iliteral->signed_value <= INT_MAX;
+    }
+
+    X64Ope* imm = new_int_x64ope(suffix, iliteral_copy(iliteral));
+    if (suffix != X64_SUFFIX_QUAD || fits_imm32) {
+        return imm;
+    }
+
+    // only movabs takes an immediate wider than 32 bits
+    vector_push(codes, new_inst_x64(X64_INST_MOVABSX, imm, new_reg_x64ope(suffix, AX_REG_ID)));
+    return new_reg_x64ope(suffix, AX_REG_ID);
+}
+
 void liveseqs_next(Vector* liveseqs) {
     int liveseqs_len = vector_size(liveseqs);
     for (int reg_id = 0; reg_id < liveseqs_len; reg_id++) {
diff --git a/src/x64gen/util.h b/src/x64gen/util.h
index 1c50e24..9ca262b 100644
--- a/src/x64gen/util.h
+++ b/src/x64gen/util.h
@@ -6,6 +6,7 @@
 #include "../x64/x64.h"
 
 void append_mov_code(Vector* codes, X64Ope* src, X64Ope* dst, int is_unsigned);
+X64Ope* append_imm_code(Vector* codes, X64Suffix suffix, IntegerLiteral* iliteral);
 void liveseqs_next(Vector* liveseqs);
 Set* create_alive_reg_induces_set(Vector* liveseqs);
 Set* create_alive_regs_set(Vector* liveseqs);
-- 
2.43.0


From 201940f48a35a8372892ed0d41f677f90297ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:40 +0000
Subject: [PATCH 30/46] fix: keep a live value out of the scratch register of a
 division by a constant

---
 src/x64gen/arithinst.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/arithinst.c b/src/x64gen/arithinst.c
index ffab8ae..f714c65 100644
--- a/src/x64gen/arithinst.c
+++ b/src/x64gen/arithinst.c
@@ -171,9 +171,23 @@ Vector* gen_divisional_common_x64code(X64gen* x64gen, X64RegisterId result_reg_i
     X64Suffix snd_src_suffix = x64suffix_get(immcsuffix_tonbytes(immc_snd_src->suffix));
     X64Suffix suffix = x64suffix_greater(fst_src_suffix, snd_src_suffix);
 
+    int tmp_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 2];
+    int tmp_needs_evacuation = 0;
+
     switch (immc_snd_src->type) {
         case IMMC_OPERAND_INT: {
-            snd_src_id = CALLER_SAVED_REG_IDS[NUM_CALLER_SAVED_REGS - 2];
+            snd_src_id = tmp_id;
+
+            if (dst_id != tmp_id) {
+                Set* alive_regs_set = create_alive_regs_set(x64gen->liveseqs);
+                tmp_needs_evacuation = set_contains(alive_regs_set, &tmp_id);
+                delete_set(alive_regs_set);
+            }
+            if (tmp_needs_evacuation) {
+                X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[1]);
+                X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, tmp_id);
+                append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+            }
 
             X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
             X64Ope* fst_src_mov_src = new_reg_x64ope(fst_src_suffix, fst_src_id);
@@ -262,6 +276,14 @@ Vector* gen_divisional_common_x64code(X64gen* x64gen, X64RegisterId result_reg_i
             x64gen->evacuation_count = 1;
         }
     }
+    if (tmp_needs_evacuation) {
+        X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, tmp_id);
+        X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[1]);
+        append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+        if (x64gen->evacuation_count < 2) {
+            x64gen->evacuation_count = 2;
+        }
+    }
 
     liveseqs_next(x64gen->liveseqs);
     return codes;
-- 
2.43.0


From c683c49c5a13e37b17a8f4c178608ba098f8ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:22 +0000
Subject: [PATCH 31/46] fix: support a shift count that is not a constant

---
 src/x64gen/shrotinst.c | 58 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/x64gen/shrotinst.c b/src/x64gen/shrotinst.c
index 960340e..50e6b1a 100644
--- a/src/x64gen/shrotinst.c
+++ b/src/x64gen/shrotinst.c
@@ -6,6 +6,7 @@
 #include <stdlib.h>
 
 Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type);
+Vector* gen_shrot_reg_x64code(X64gen* x64gen, Vector* codes, Immc* immc, X64InstType type);
 
 Vector* gen_sal_x64code(X64gen* x64gen) {
     return gen_shrot_common_x64code(x64gen, X64_INST_SALX);
@@ -48,6 +49,8 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
             vector_push(codes, new_inst_x64(type, snd_src, fst_src));
             break;
         }
+        case IMMC_OPERAND_REG:
+            return gen_shrot_reg_x64code(x64gen, codes, immc, type);
         default:
             fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: "
                             "unreachable statement (in gen_shrot_common_x64code)\n");
@@ -65,3 +68,58 @@ Vector* gen_shrot_common_x64code(X64gen* x64gen, X64InstType type) {
     liveseqs_next(x64gen->liveseqs);
     return codes;
 }
+
+Vector* gen_shrot_reg_x64code(X64gen* x64gen, Vector* codes, Immc* immc, X64InstType type) {
+    ImmcOpe* immc_dst = immc->inst->dst;
+    ImmcOpe* immc_fst_src = immc->inst->fst_src;
+    ImmcOpe* immc_snd_src = immc->inst->snd_src;
+
+    int dst_id = CALLER_SAVED_REG_IDS[immc_dst->reg->reg_id];
+    int fst_src_id = CALLER_SAVED_REG_IDS[immc_fst_src->reg->reg_id];
+    int snd_src_id = CALLER_SAVED_REG_IDS[immc_snd_src->reg->reg_id];
+
+    X64Suffix suffix = x64suffix_get(immcsuffix_tonbytes(immc_fst_src->suffix));
+
+    X64Ope* fst_src_mov_dst = new_reg_x64ope(suffix, AX_REG_ID);
+    X64Ope* fst_src_mov_src = new_reg_x64ope(suffix, fst_src_id);
+    append_mov_code(codes, fst_src_mov_src, fst_src_mov_dst, immc_fst_src->reg->is_unsigned);
+
+    // the count of a shift must be in CL
+    int cx_id = CX_REG_ID;
+    int cx_needs_evacuation = 0;
+    if (snd_src_id != cx_id && dst_id != cx_id) {
+        Set* alive_regs_set = create_alive_regs_set(x64gen->liveseqs);
+        cx_needs_evacuation = set_contains(alive_regs_set, &cx_id);
+        delete_set(alive_regs_set);
+    }
+    if (cx_needs_evacuation) {
+        X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[0]);
+        X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, cx_id);
+        append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+    }
+
+    X64Ope* count_mov_dst = new_reg_x64ope(X64_SUFFIX_LONG, cx_id);
+    X64Ope* count_mov_src = new_reg_x64ope(X64_SUFFIX_LONG, snd_src_id);
+    append_mov_code(codes, count_mov_src, count_mov_dst, 0);
+
+    X64Ope* fst_src = new_reg_x64ope(suffix, AX_REG_ID);
+    X64Ope* snd_src = new_reg_x64ope(X64_SUFFIX_BYTE, cx_id);
+    vector_push(codes, new_inst_x64(type, snd_src, fst_src));
+
+    if (cx_needs_evacuation) {
+        X64Ope* evacuation_dst = new_reg_x64ope(X64_SUFFIX_QUAD, cx_id);
+        X64Ope* evacuation_src = new_reg_x64ope(X64_SUFFIX_QUAD, CALLEE_SAVED_REG_IDS[0]);
+        append_mov_code(codes, evacuation_src, evacuation_dst, 0);
+        if (x64gen->evacuation_count < 1) {
+            x64gen->evacuation_count = 1;
+        }
+    }
+
+    X64Suffix dst_suffix = x64suffix_get(immcsuffix_tonbytes(immc_dst->suffix));
+    X64Ope* dst_mov_dst = new_reg_x64ope(dst_suffix, dst_id);
+    X64Ope* dst_mov_src = new_reg_x64ope(suffix, AX_REG_ID);
+    append_mov_code(codes, dst_mov_src, dst_mov_dst, immc_dst->reg->is_unsigned);
+
+    liveseqs_next(x64gen->liveseqs);
+    return codes;
+}
-- 
2.43.0


From 659781ea64573f26d6aa629d2c10c260c334e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 32/46] fix: do not look for the result register of a call that
 returns nothing

---
 src/x64gen/ctrlinst.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 670d65a..72f014f 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -142,7 +142,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
-        if (*caller_ref == immc->inst->dst->reg->reg_id) {
+        if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
         int callee_id = CALLEE_SAVED_REG_IDS[evacuation_count];
@@ -198,7 +198,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
-        if (*caller_ref == immc->inst->dst->reg->reg_id) {
+        if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
-- 
2.43.0


From ec83c3eb2c5559fcaab62cb4459febe8cb72be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:00 +0000
Subject: [PATCH 33/46] fix: stop when a function needs more registers than
 there are

---
 src/regalloc/regalloc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/regalloc/regalloc.c b/src/regalloc/regalloc.c
index 4e2ca62..2ff5aad 100644
--- a/src/regalloc/regalloc.c
+++ b/src/regalloc/regalloc.c
@@ -6,6 +6,7 @@
 #include "../map/map.h"
 #include "./basicblock.h"
 
+#include <stdio.h>
 #include <stdlib.h>
 
 Vector* dequeue_external_immcs(RegAlloc* regalloc);
@@ -423,6 +424,10 @@ void update_liveseqs(Vector* liveseqs, Vector* livenesses, Vector* allocations)
     for (int virtual_reg_id = 0; virtual_reg_id < num_virtual_regs; virtual_reg_id++) {
         Liveness* liveness = vector_at(livenesses, virtual_reg_id);
         int* real_reg_id_ref = vector_at(allocations, virtual_reg_id);
+        if (*real_reg_id_ref == -1) {
+            fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: too many values are in use at a time\n");
+            exit(1);
+        }
         Liveseq* liveseq = vector_at(liveseqs, *real_reg_id_ref);
         vector_push(liveseq->livenesses, liveness_copy(liveness));
     }
-- 
2.43.0


From 34f9cbdb1385f02a76345be9e37696f6c0642222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:00 +0000
Subject: [PATCH 34/46] fix: stop when a call needs more callee-saved registers
 than there are

---
 src/x64gen/ctrlinst.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 72f014f..7be12d7 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -138,13 +138,17 @@ Vector* gen_call_x64code(X64gen* x64gen) {
 
     Set* alive_reg_induces_set = create_alive_reg_induces_set(x64gen->liveseqs);
     int evacuation_count = 0;
-    // TODO: consider case that evacuation_count is greater than NUM_CALLEE_SAVED_REG
     for (SetIter* iter = set_iter_begin(alive_reg_induces_set); !set_iter_end(iter, alive_reg_induces_set);
          iter = set_iter_next(iter, alive_reg_induces_set)) {
         int* caller_ref = set_iter_item(iter, alive_reg_induces_set);
         if (immc_dst != NULL && *caller_ref == immc_dst->reg->reg_id) {
             continue;
         }
+        // TODO: consider case that evacuation_count is greater than NUM_CALLEE_SAVED_REG
+        if (evacuation_count >= NUM_CALLEE_SAVED_REGS) {
+            fprintf(stderr, "\x1b[1;31mfatal error\x1b[0m: too many values are in use across a function call\n");
+            exit(1);
+        }
         int callee_id = CALLEE_SAVED_REG_IDS[evacuation_count];
         X64Ope* callee = new_reg_x64ope(X64_SUFFIX_QUAD, callee_id);
         int caller_id = CALLER_SAVED_REG_IDS[*caller_ref];
-- 
2.43.0


From 9588fa8615dd86bb04c9976053a123a0d44f717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:33 +0000
Subject: [PATCH 35/46] fix: keep the bytes next to a string byte above 127 as
 they are

---
 src/x64gen/datainst.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index ea6eb94..74fc924 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -112,7 +112,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     while (index_offset + unit_size <= immc_src->sliteral->size) {
         unsigned long long unit_value = 0ull;
         for (int i = 0; i < unit_size; i++) {
-            unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+            unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
             unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
         }
 
@@ -154,7 +154,7 @@ Vector* gen_str_x64code(X64gen* x64gen) {
     X64Suffix suffix = x64suffix_get(boundary_rest_bytes);
     unsigned long long unit_value = 0ull;
     for (int i = 0; i < num_rest_bytes; i++) {
-        unsigned long long char_bits = immc_src->sliteral->value[index_offset + i];
+        unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
         unit_value = (char_bits << (i * CHAR_BIT)) | unit_value;
     }
 
-- 
2.43.0


From 35e4fb957df74e4de65b9d1824e3e369d34c5f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:11 +0000
Subject: [PATCH 36/46] fix: do not write past a string that does not start at
 a multiple of 4

---
 src/x64gen/datainst.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index 74fc924..d8c79ed 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -135,6 +135,18 @@ Vector* gen_str_x64code(X64gen* x64gen) {
         return codes;
     }
 
+    // local objects are padded to 4 bytes, so only a piece starting at a multiple of 4 may be longer than what is left
+    if (mem_offset % 4 != 0) {
+        for (int i = 0; i < num_rest_bytes; i++) {
+            unsigned long long char_bits = (unsigned char)immc_src->sliteral->value[index_offset + i];
+            X64Ope* dst = new_mem_x64ope(mem_offset - i);
+            X64Ope* src = new_unsigned_int_x64ope(X64_SUFFIX_BYTE, INTEGER_UNSIGNED_INT, char_bits);
+            vector_push(codes, new_inst_x64(X64_INST_MOVX, src, dst));
+        }
+        liveseqs_next(x64gen->liveseqs);
+        return codes;
+    }
+
     int boundary_rest_bytes = 0;
     IntegerLiteralType iliteral_type = INTEGER_UNSIGNED_INT;
     if (num_rest_bytes <= 1) {
-- 
2.43.0


From 96b200f0ec76f9e81613143dc477476ca61e08b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:06 +0000
Subject: [PATCH 37/46] fix: keep the stack aligned at a call inside the
 arguments of another call

---
 src/x64gen/ctrlinst.c | 17 ++++++++++-------
 src/x64gen/datainst.c |  1 +
 src/x64gen/x64gen.c   |  3 +++
 src/x64gen/x64gen.h   |  2 ++
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/x64gen/ctrlinst.c b/src/x64gen/ctrlinst.c
index 7be12d7..2fd9d54 100644
--- a/src/x64gen/ctrlinst.c
+++ b/src/x64gen/ctrlinst.c
@@ -175,6 +175,7 @@ Vector* gen_call_x64code(X64gen* x64gen) {
     for (int i = 0; i < num_args && i < NUM_ARG_REGS; i++) {
         X64Ope* arg = new_reg_x64ope(X64_SUFFIX_QUAD, ARG_REG_IDS[i]);
         vector_push(codes, new_inst_x64(X64_INST_POPX, NULL, arg));
+        x64gen->num_pushed--;
     }
 
     X64Ope* ret = new_reg_x64ope(X64_SUFFIX_QUAD, AX_REG_ID);
@@ -287,7 +288,10 @@ Vector* gen_prep_x64code(X64gen* x64gen) {
     ImmcOpe* immc_src = immc->inst->fst_src;
 
     int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS && num_args % 2 == 1) {
+    int num_mem_args = num_args > NUM_ARG_REGS ? num_args - NUM_ARG_REGS : 0;
+    vector_push(x64gen->prep_pushed, new_integer(x64gen->num_pushed));
+    if ((x64gen->num_pushed + num_mem_args) % 2 == 1) {
+        x64gen->num_pushed++;
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, 8);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_SUBX, imm, sp));
@@ -299,14 +303,13 @@ Vector* gen_prep_x64code(X64gen* x64gen) {
 
 Vector* gen_clean_x64code(X64gen* x64gen) {
     Vector* codes = new_vector(&t_x64);
-    Immc* immc = vector_at(x64gen->immcs, x64gen->index);
     x64gen->index++;
 
-    ImmcOpe* immc_src = immc->inst->fst_src;
-
-    int num_args = immc_src->iliteral->signed_value;
-    if (num_args > NUM_ARG_REGS) {
-        int mem_param_offset = ((num_args - NUM_ARG_REGS + 1) / 2) * 16;
+    int* num_pushed_ref = vector_pop(x64gen->prep_pushed);
+    int mem_param_offset = (x64gen->num_pushed - *num_pushed_ref) * 8;
+    x64gen->num_pushed = *num_pushed_ref;
+    free(num_pushed_ref);
+    if (mem_param_offset > 0) {
         X64Ope* imm = new_signed_int_x64ope(X64_SUFFIX_QUAD, INTEGER_INT, mem_param_offset);
         X64Ope* sp = new_reg_x64ope(X64_SUFFIX_QUAD, SP_REG_ID);
         vector_push(codes, new_inst_x64(X64_INST_ADDX, imm, sp));
diff --git a/src/x64gen/datainst.c b/src/x64gen/datainst.c
index d8c79ed..f704e03 100644
--- a/src/x64gen/datainst.c
+++ b/src/x64gen/datainst.c
@@ -298,6 +298,7 @@ Vector* gen_starg_x64code(X64gen* x64gen) {
             exit(1);
     }
 
+    x64gen->num_pushed++;
     liveseqs_next(x64gen->liveseqs);
     return codes;
 }
diff --git a/src/x64gen/x64gen.c b/src/x64gen/x64gen.c
index 47c9542..82f4879 100644
--- a/src/x64gen/x64gen.c
+++ b/src/x64gen/x64gen.c
@@ -18,6 +18,8 @@ X64gen* new_x64gen(Vector* immcs, Vector* liveseqs) {
     x64gen->liveseqs = liveseqs;
     x64gen->index = 0;
     x64gen->evacuation_count = 0;
+    x64gen->num_pushed = 0;
+    x64gen->prep_pushed = new_vector(&t_integer);
     return x64gen;
 }
 
@@ -160,5 +162,6 @@ Vector* gen_variable_x64code(X64gen* x64gen) {
 void delete_x64gen(X64gen* x64gen) {
     delete_vector(x64gen->immcs);
     delete_vector(x64gen->liveseqs);
+    delete_vector(x64gen->prep_pushed);
     free(x64gen);
 }
diff --git a/src/x64gen/x64gen.h b/src/x64gen/x64gen.h
index 2efe4bc..4c70465 100644
--- a/src/x64gen/x64gen.h
+++ b/src/x64gen/x64gen.h
@@ -9,6 +9,8 @@ typedef struct X64gen {
     Vector* liveseqs;
     int index;
     int evacuation_count;
+    int num_pushed;      // number of 8-byte slots which calls being prepared occupy on the stack
+    Vector* prep_pushed; // num_pushed before each call being prepared
 } X64gen;
 
 X64gen* new_x64gen(Vector* immcs, Vector* liveseqs);
-- 
2.43.0


From a5264c61175f5e2c10a11c28295603b12ec11cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 38/46] fix: treat jlt and jleq as jumps when splitting a
 function into basic blocks

---
 src/immc/immc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/immc/immc.c b/src/immc/immc.c
index 69f5786..e416180 100644
--- a/src/immc/immc.c
+++ b/src/immc/immc.c
@@ -73,7 +73,7 @@ Immc* immc_copy(Immc* immc) {
 }
 
 int immc_isjumpinst(Immc* immc) {
-    return immc->type == IMMC_INST && (IMMC_INST_JMP <= immc->inst->type && immc->inst->type <= IMMC_INST_JGEQ);
+    return immc->type == IMMC_INST && (IMMC_INST_JMP <= immc->inst->type && immc->inst->type <= IMMC_INST_JLEQ);
 }
 
 char* immc_tostring(Immc* immc) {
-- 
2.43.0


From 84054af416f4b6c00b7227a78e35182cef7caa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:04 +0000
Subject: [PATCH 39/46] fix: write string bytes above 127 as three octal digits

---
 src/literal/sliteral.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal/sliteral.c b/src/literal/sliteral.c
index a204574..5163074 100644
--- a/src/literal/sliteral.c
+++ b/src/literal/sliteral.c
@@ -48,7 +48,7 @@ char* sliteral_display_string(StringLiteral* sliteral) {
     len++;
 
     for (int i = 0; i < sliteral->size; i++) {
-        int c = sliteral->value[i];
+        int c = (unsigned char)sliteral->value[i];
         char* found = strchr(ascii, c);
         if (found != NULL && *found != '\0') {
             sprintf(display_string + len, "%c", c);
-- 
2.43.0


From 7b07a0a10d15b154e539ec11bab53a38f787bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:59 +0000
Subject: [PATCH 40/46] fix: write the alert character as an octal escape the
 assembler knows

The data directive buffer is sized by its contents as well.
---
 src/x64/data.c | 63 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/x64/data.c b/src/x64/data.c
index 22b322d..0bccba6 100644
--- a/src/x64/data.c
+++ b/src/x64/data.c
@@ -45,47 +45,78 @@ X64Data* x64data_copy(X64Data* x64data) {
 }
 
 char* x64data_tostring(X64Data* x64data) {
-    // TODO: fix to prevent buffer overflow
-    char* data_str = malloc(200 * sizeof(char));
+    char* create_directive_string(char* directive, char* value);
+    char* create_ascii_string(StringLiteral * sliteral);
+
+    char* data_str = NULL;
     char* display_str = NULL;
 
     switch (x64data->type) {
         case X64_DATA_BYTE:
             display_str = iliteral_display_string(x64data->iliteral);
-            sprintf(data_str, "\t.byte\t%s\n", display_str);
-            free(display_str);
+            data_str = create_directive_string(".byte", display_str);
             break;
         case X64_DATA_WORD:
             display_str = iliteral_display_string(x64data->iliteral);
-            sprintf(data_str, "\t.word\t%s\n", display_str);
-            free(display_str);
+            data_str = create_directive_string(".word", display_str);
             break;
         case X64_DATA_LONG:
             display_str = iliteral_display_string(x64data->iliteral);
-            sprintf(data_str, "\t.long\t%s\n", display_str);
-            free(display_str);
+            data_str = create_directive_string(".long", display_str);
             break;
         case X64_DATA_QUAD:
             display_str = iliteral_display_string(x64data->iliteral);
-            sprintf(data_str, "\t.quad\t%s\n", display_str);
-            free(display_str);
+            data_str = create_directive_string(".quad", display_str);
             break;
         case X64_DATA_ZERO:
             display_str = iliteral_display_string(x64data->iliteral);
-            sprintf(data_str, "\t.zero\t%s\n", display_str);
-            free(display_str);
+            data_str = create_directive_string(".zero", display_str);
             break;
         case X64_DATA_STR:
-            display_str = sliteral_display_string(x64data->sliteral);
-            sprintf(data_str, "\t.ascii\t%s\n", display_str);
-            free(display_str);
+            display_str = create_ascii_string(x64data->sliteral);
+            data_str = create_directive_string(".ascii", display_str);
             break;
     }
 
-    data_str = realloc(data_str, (strlen(data_str) + 1) * sizeof(char));
+    free(display_str);
     return data_str;
 }
 
+char* create_directive_string(char* directive, char* value) {
+    char* directive_str = malloc((strlen(directive) + strlen(value) + 4) * sizeof(char));
+    sprintf(directive_str, "\t%s\t%s\n", directive, value);
+    return directive_str;
+}
+
+char* create_ascii_string(StringLiteral* sliteral) {
+    // the assembler does not know the escape sequence \a
+    char* display_str = sliteral_display_string(sliteral);
+    int display_len = strlen(display_str);
+    char* ascii_str = malloc((2 * display_len + 1) * sizeof(char));
+    int len = 0;
+
+    for (int i = 0; i < display_len; i++) {
+        if (display_str[i] != '\\') {
+            ascii_str[len] = display_str[i];
+            len++;
+            continue;
+        }
+
+        i++;
+        if (display_str[i] == 'a') {
+            sprintf(ascii_str + len, "\\007");
+            len += 4;
+        } else {
+            sprintf(ascii_str + len, "\\%c", display_str[i]);
+            len += 2;
+        }
+    }
+
+    ascii_str[len] = '\0';
+    free(display_str);
+    return ascii_str;
+}
+
 void delete_x64data(X64Data* x64data) {
     if (x64data->iliteral != NULL) {
         delete_iliteral(x64data->iliteral);
-- 
2.43.0


From 94a065bbc44373abedebecaec57ae13a582eb6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:59 +0000
Subject: [PATCH 41/46] fix: size the assembly text buffers by their contents

---
 src/x64/inst.c  | 36 +++++++++++++++++++++---------------
 src/x64/label.c |  7 ++++---
 src/x64/ope.c   |  9 ++++++---
 3 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/x64/inst.c b/src/x64/inst.c
index f9c4367..469e70a 100644
--- a/src/x64/inst.c
+++ b/src/x64/inst.c
@@ -41,31 +41,37 @@ X64Inst* x64inst_copy(X64Inst* x64inst) {
 char* x64inst_tostring(X64Inst* x64inst) {
     char* x64instcode_tostring(X64Inst * x64inst);
 
-    // TODO: fix to prevent buffer overflow
-    char* code_str = malloc(200 * sizeof(char));
-    memset(code_str, 0, 200 * sizeof(char));
-
     char* instcode_string = x64instcode_tostring(x64inst);
+    char* src_string = NULL;
+    char* dst_string = NULL;
+    int code_str_size = strlen(instcode_string) + 10;
+
+    if (x64inst->src != NULL && x64inst->src->type != X64_OPERAND_SUFFIX) {
+        src_string = x64ope_tostring(x64inst->src);
+        code_str_size += strlen(src_string);
+    }
+    if (x64inst->dst != NULL && x64inst->dst->type != X64_OPERAND_SUFFIX) {
+        dst_string = x64ope_tostring(x64inst->dst);
+        code_str_size += strlen(dst_string);
+    }
+
+    char* code_str = malloc(code_str_size * sizeof(char));
+    memset(code_str, 0, code_str_size * sizeof(char));
+
     strcat(code_str, "\t");
     strcat(code_str, instcode_string);
     free(instcode_string);
 
-    int operand_appears = 0;
-    if (x64inst->src != NULL && x64inst->src->type != X64_OPERAND_SUFFIX) {
-        char* src_string = x64ope_tostring(x64inst->src);
+    if (src_string != NULL) {
         strcat(code_str, "\t");
         strcat(code_str, src_string);
-        free(src_string);
-        operand_appears = 1;
     }
-
-    if (x64inst->dst != NULL && x64inst->dst->type != X64_OPERAND_SUFFIX) {
-        char* dst_string = x64ope_tostring(x64inst->dst);
-        strcat(code_str, operand_appears ? ", " : "\t");
+    if (dst_string != NULL) {
+        strcat(code_str, src_string != NULL ? ", " : "\t");
         strcat(code_str, dst_string);
-        free(dst_string);
-        operand_appears = 1;
     }
+    free(src_string);
+    free(dst_string);
 
     strcat(code_str, "\n");
     code_str = realloc(code_str, (strlen(code_str) + 1) * sizeof(char));
diff --git a/src/x64/label.c b/src/x64/label.c
index f275040..0cb7db8 100644
--- a/src/x64/label.c
+++ b/src/x64/label.c
@@ -25,9 +25,10 @@ X64Label* x64label_copy(X64Label* x64label) {
 }
 
 char* x64label_tostring(X64Label* x64label) {
-    // TODO: fix to prevent buffer overflow
-    char* label_str = malloc(200 * sizeof(char));
-    memset(label_str, 0, 200 * sizeof(char));
+    // the name appears at most twice
+    int label_str_size = 2 * strlen(x64label->name) + 30;
+    char* label_str = malloc(label_str_size * sizeof(char));
+    memset(label_str, 0, label_str_size * sizeof(char));
 
     switch (x64label->type) {
         case X64_LABEL_FUNCTION:
diff --git a/src/x64/ope.c b/src/x64/ope.c
index ede4d99..c8b9340 100644
--- a/src/x64/ope.c
+++ b/src/x64/ope.c
@@ -103,12 +103,15 @@ X64Ope* x64ope_copy(X64Ope* x64ope) {
 }
 
 char* x64ope_tostring(X64Ope* x64ope) {
-    // TODO: fix to prevent buffer overflow
-    char* ope_str = malloc(50 * sizeof(char));
+    int ope_str_size = 50;
+    if (x64ope->label_name != NULL) {
+        ope_str_size += strlen(x64ope->label_name);
+    }
+    char* ope_str = malloc(ope_str_size * sizeof(char));
 
     switch (x64ope->type) {
         case X64_OPERAND_SUFFIX:
-            memset(ope_str, 0, 50 * sizeof(char));
+            memset(ope_str, 0, ope_str_size * sizeof(char));
             break;
         case X64_OPERAND_REG:
             sprintf(ope_str, "%s", reg_name(x64ope->reg_id, x64ope->suffix));
-- 
2.43.0


From e637d83485ec9cabfddafac8dbaeda2f3f668bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:11 +0000
Subject: [PATCH 42/46] fix: size an error message by its contents

---
 src/error/error.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/error/error.c b/src/error/error.c
index 36faa7b..958605a 100644
--- a/src/error/error.c
+++ b/src/error/error.c
@@ -13,13 +13,15 @@ BaseType t_error = {
 Error* new_error(char* format, ...) {
     Error* err = malloc(sizeof(Error));
 
-    // TODO: fix to prevent buffer overflow
-    char* message = malloc(200 * sizeof(char));
     va_list arg;
     va_start(arg, format);
+    int message_len = vsnprintf(NULL, 0, format, arg);
+    va_end(arg);
+
+    char* message = malloc((message_len + 1) * sizeof(char));
+    va_start(arg, format);
     vsprintf(message, format, arg);
     va_end(arg);
-    message = realloc(message, (strlen(message) + 1) * sizeof(char));
 
     err->message = message;
 
-- 
2.43.0


From e8f5a22f55dac1267c74f95a5f34baf88b6e7d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:01 +0000
Subject: [PATCH 43/46] fix: size the intermediate code text buffers by their
 contents

---
 src/immc/data.c  | 22 ++++++++--------------
 src/immc/inst.c  | 26 ++++++++++++++++++++------
 src/immc/label.c |  6 +++---
 src/immc/ope.c   | 20 +++++++++++++-------
 4 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/immc/data.c b/src/immc/data.c
index e657562..c44c8b6 100644
--- a/src/immc/data.c
+++ b/src/immc/data.c
@@ -46,43 +46,37 @@ ImmcData* immcdata_copy(ImmcData* immcdata) {
 }
 
 char* immcdata_tostring(ImmcData* immcdata) {
-    // TODO: fix to prevent buffer overflow
-    char* data_str = malloc(200 * sizeof(char));
     char* display_str = NULL;
+    if (immcdata->type == IMMC_DATA_STR) {
+        display_str = sliteral_display_string(immcdata->sliteral);
+    } else {
+        display_str = iliteral_display_string(immcdata->iliteral);
+    }
+
+    char* data_str = malloc((strlen(display_str) + 20) * sizeof(char));
 
     switch (immcdata->type) {
         case IMMC_DATA_BYTE:
-            display_str = iliteral_display_string(immcdata->iliteral);
             sprintf(data_str, "\tbyte\t%s\n", display_str);
-            free(display_str);
             break;
         case IMMC_DATA_WORD:
-            display_str = iliteral_display_string(immcdata->iliteral);
             sprintf(data_str, "\tword\t%s\n", display_str);
-            free(display_str);
             break;
         case IMMC_DATA_LONG:
-            display_str = iliteral_display_string(immcdata->iliteral);
             sprintf(data_str, "\tlong\t%s\n", display_str);
-            free(display_str);
             break;
         case IMMC_DATA_QUAD:
-            display_str = iliteral_display_string(immcdata->iliteral);
             sprintf(data_str, "\tquad\t%s\n", display_str);
-            free(display_str);
             break;
         case IMMC_DATA_ZERO:
-            display_str = iliteral_display_string(immcdata->iliteral);
             sprintf(data_str, "\tzero\t%s\n", display_str);
-            free(display_str);
             break;
         case IMMC_DATA_STR:
-            display_str = sliteral_display_string(immcdata->sliteral);
             sprintf(data_str, "\tstring\t%s\n", display_str);
-            free(display_str);
             break;
     }
 
+    free(display_str);
     data_str = realloc(data_str, (strlen(data_str) + 1) * sizeof(char));
     return data_str;
 }
diff --git a/src/immc/inst.c b/src/immc/inst.c
index 247419f..bdf2acc 100644
--- a/src/immc/inst.c
+++ b/src/immc/inst.c
@@ -40,16 +40,32 @@ ImmcInst* immcinst_copy(ImmcInst* immcinst) {
 }
 
 char* immcinst_tostring(ImmcInst* immcinst) {
-    // TODO: fix to prevent buffer overflow
-    char* code_str = malloc(200 * sizeof(char));
-    memset(code_str, 0, 200 * sizeof(char));
+    char* dst_string = NULL;
+    char* fst_src_string = NULL;
+    char* snd_src_string = NULL;
+    int code_str_size = strlen(immc_insts[immcinst->type]) + 10;
+
+    if (immcinst->dst != NULL) {
+        dst_string = immcope_tostring(immcinst->dst);
+        code_str_size += strlen(dst_string);
+    }
+    if (immcinst->fst_src != NULL) {
+        fst_src_string = immcope_tostring(immcinst->fst_src);
+        code_str_size += strlen(fst_src_string);
+    }
+    if (immcinst->snd_src != NULL) {
+        snd_src_string = immcope_tostring(immcinst->snd_src);
+        code_str_size += strlen(snd_src_string);
+    }
+
+    char* code_str = malloc(code_str_size * sizeof(char));
+    memset(code_str, 0, code_str_size * sizeof(char));
 
     strcat(code_str, "\t");
     strcat(code_str, immc_insts[immcinst->type]);
 
     int operand_appears = 0;
     if (immcinst->dst != NULL) {
-        char* dst_string = immcope_tostring(immcinst->dst);
         strcat(code_str, "\t");
         strcat(code_str, dst_string);
         free(dst_string);
@@ -57,7 +73,6 @@ char* immcinst_tostring(ImmcInst* immcinst) {
     }
 
     if (immcinst->fst_src != NULL) {
-        char* fst_src_string = immcope_tostring(immcinst->fst_src);
         strcat(code_str, operand_appears ? ", " : "\t");
         strcat(code_str, fst_src_string);
         free(fst_src_string);
@@ -65,7 +80,6 @@ char* immcinst_tostring(ImmcInst* immcinst) {
     }
 
     if (immcinst->snd_src != NULL) {
-        char* snd_src_string = immcope_tostring(immcinst->snd_src);
         strcat(code_str, operand_appears ? ", " : "\t");
         strcat(code_str, snd_src_string);
         free(snd_src_string);
diff --git a/src/immc/label.c b/src/immc/label.c
index 8e62b36..ade7f5c 100644
--- a/src/immc/label.c
+++ b/src/immc/label.c
@@ -39,9 +39,9 @@ ImmcLabel* immclabel_copy(ImmcLabel* immclabel) {
 }
 
 char* immclabel_tostring(ImmcLabel* immclabel) {
-    // TODO: fix to prevent buffer overflow
-    char* label_str = malloc(200 * sizeof(char));
-    memset(label_str, 0, 200 * sizeof(char));
+    int label_str_size = strlen(immclabel->name) + 30;
+    char* label_str = malloc(label_str_size * sizeof(char));
+    memset(label_str, 0, label_str_size * sizeof(char));
 
     switch (immclabel->visibility) {
         case IMMC_VIS_GLOBAL:
diff --git a/src/immc/ope.c b/src/immc/ope.c
index 56c4289..b9ebc7d 100644
--- a/src/immc/ope.c
+++ b/src/immc/ope.c
@@ -138,8 +138,16 @@ ImmcOpe* immcope_copy(ImmcOpe* immcope) {
 }
 
 char* immcope_tostring(ImmcOpe* immcope) {
-    // TODO: fix to prevent buffer overflow
-    char* ope_str = malloc(50 * sizeof(char));
+    int ope_str_size = 50;
+    char* sliteral_str = NULL;
+    if (immcope->label_name != NULL) {
+        ope_str_size += strlen(immcope->label_name);
+    }
+    if (immcope->sliteral != NULL) {
+        sliteral_str = sliteral_display_string(immcope->sliteral);
+        ope_str_size += strlen(sliteral_str);
+    }
+    char* ope_str = malloc(ope_str_size * sizeof(char));
 
     switch (immcope->type) {
         case IMMC_OPERAND_ARG: {
@@ -171,13 +179,11 @@ char* immcope_tostring(ImmcOpe* immcope) {
             free(display_str);
             break;
         }
-        case IMMC_OPERAND_STR: {
-            char* display_str = sliteral_display_string(immcope->sliteral);
-            sprintf(ope_str, "%s", display_str);
-            free(display_str);
+        case IMMC_OPERAND_STR:
+            sprintf(ope_str, "%s", sliteral_str);
             break;
-        }
     }
+    free(sliteral_str);
     ope_str = realloc(ope_str, (strlen(ope_str) + 1) * sizeof(char));
     return ope_str;
 }
-- 
2.43.0


From 134f98e11d69deda01ad9ee6132dce41a4d3140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:47 +0000
Subject: [PATCH 44/46] fix: report an input that cannot be read in full and an
 output that cannot be written

---
 src/freader/freader.c | 22 +++++++++++++++++++---
 src/main.c            | 22 +++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/freader/freader.c b/src/freader/freader.c
index 83b86a5..0932ee6 100644
--- a/src/freader/freader.c
+++ b/src/freader/freader.c
@@ -1,6 +1,7 @@
 #include "./freader.h"
 
 #include <stdlib.h>
+#include <string.h>
 
 FileReader* new_freader(FILE* file_ptr) {
     FileReader* freader = malloc(sizeof(FileReader));
@@ -21,11 +22,26 @@ FileReaderReturn* freader_read(FileReader* freader) {
 
     rewind(freader->file_ptr);
 
-    file_content = malloc(file_size + 1);
-    file_size = fread(file_content, sizeof(char), file_size, freader->file_ptr);
+    file_content = malloc((size_t)file_size + 1);
+    if (file_content == NULL) {
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
+
+    long read_size = fread(file_content, sizeof(char), file_size, freader->file_ptr);
+    if (read_size != file_size) {
+        free(file_content);
+        err = new_error("fail to read content of file");
+        return new_freaderret_error(err);
+    }
+
     file_content[file_size] = '\0';
+    if ((long)strlen(file_content) != file_size) {
+        free(file_content);
+        err = new_error("null character in content of file");
+        return new_freaderret_error(err);
+    }
 
-    file_content = realloc(file_content, file_size + 1);
     return new_freaderret(file_content);
 }
 
diff --git a/src/main.c b/src/main.c
index c6ae2ec..61104cf 100644
--- a/src/main.c
+++ b/src/main.c
@@ -102,7 +102,13 @@ int main(int argc, char* argv[]) {
     char* dst_filename = new_string(argv[1]);
     dst_filename[src_filename_len - 1] = 's';
     FILE* dst = fopen(dst_filename, "w");
-    free(dst_filename);
+
+    if (dst == NULL) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: cannot open file\n", dst_filename);
+        free(dst_filename);
+        delete_vector(x64codes);
+        return 1;
+    }
 
     int x64codes_len = vector_size(x64codes);
     for (int i = 0; i < x64codes_len; i++) {
@@ -110,9 +116,19 @@ int main(int argc, char* argv[]) {
         fprintf(dst, "%s", x64_str);
         free(x64_str);
     }
-    fclose(dst);
-
     delete_vector(x64codes);
 
+    int write_failed = ferror(dst);
+    if (fclose(dst) != 0) {
+        write_failed = 1;
+    }
+
+    if (write_failed) {
+        fprintf(stderr, "\x1b[1;31merror\x1b[0m: %s: fail to write file\n", dst_filename);
+        free(dst_filename);
+        return 1;
+    }
+
+    free(dst_filename);
     return 0;
 }
-- 
2.43.0


From 399bef7a9e47263b20ac2baf42d7c3a01399cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:43 +0000
Subject: [PATCH 45/46] fix: look for a key behind removed entries before
 adding it to a map

---
 src/map/map.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/map/map.c b/src/map/map.c
index 0e6b81f..954ee8c 100644
--- a/src/map/map.c
+++ b/src/map/map.c
@@ -81,21 +81,39 @@ void* map_get_with_default(Map* map, void* key, void* default_value) {
 }
 
 void map_add(Map* map, void* key, void* value) {
-    int hash = map->t_key->hash_object(key) % map->capacity;
-    MapCell* cell = map->container[hash];
+    int original_hash = map->t_key->hash_object(key) % map->capacity;
+    MapCell* cell = map->container[original_hash];
 
-    while (cell != NULL && !cell->deleted) {
-        if (map->t_key->compare_object(cell->key, key) == 0) {
+    int hash = original_hash;
+    int target_hash = -1;
+    int found = 0;
+    while (cell != NULL) {
+        if (cell->deleted) {
+            target_hash = target_hash < 0 ? hash : target_hash;
+        } else if (map->t_key->compare_object(cell->key, key) == 0) {
+            found = 1;
             break;
         }
         hash = (hash + 1) % map->capacity;
+        if (hash == original_hash) {
+            break;
+        }
+
         cell = map->container[hash];
     }
 
+    if (found || target_hash < 0) {
+        target_hash = hash;
+    }
+
+    cell = map->container[target_hash];
     if (cell != NULL) {
         delete_mapcell(cell, map->t_key->delete_object, map->t_value->delete_object);
     }
-    map->container[hash] = new_mapcell(key, value);
+    map->container[target_hash] = new_mapcell(key, value);
+    if (found) {
+        return;
+    }
     map->size++;
 
     int std_capacity = 2 * (map->size + 1) - 1;
-- 
2.43.0


From 8a18a240e89990a18c03bae5a5749c5cd157c1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:27 +0000
Subject: [PATCH 46/46] fix: keep structs that share a tag apart

A struct was identified by its tag alone, so in the scope of another struct
with the same tag (an inner block, or a for loop earlier in the same block)
members of the one were looked up in the other: wrong offsets, and pointers
to different structs were taken for compatible. A definition whose tag is
already in use gets an id of its own.
---
 src/resolver/declaration.c | 65 +++++++++++++++++++++++++++++++-------
 src/resolver/expression.c  |  2 +-
 src/tagtab/tagtab.c        | 21 ++++++++++++
 src/tagtab/tagtab.h        |  2 ++
 4 files changed, 78 insertions(+), 12 deletions(-)

diff --git a/src/resolver/declaration.c b/src/resolver/declaration.c
index dea9c42..61dc594 100644
--- a/src/resolver/declaration.c
+++ b/src/resolver/declaration.c
@@ -9,6 +9,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 ResolverReturn* resolve_decl(Resolver* resolver) {
     Srt* srt = NULL;
@@ -191,6 +192,8 @@ ResolverDTypeReturn* resolve_type_specifier_list(Resolver* resolver) {
 }
 
 ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
+    char* create_struct_id(Resolver * resolver, char* struct_name);
+
     DType* dtype = NULL;
     Vector* errs = NULL;
     Error* err = NULL;
@@ -205,16 +208,24 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
     }
 
     Vector* members = NULL;
+    char* struct_id = NULL;
+    DType* alias_dtype = NULL;
     child_ast = vector_at(ast->children, struct_name != NULL ? 1 : 0);
     if (child_ast != NULL && child_ast->type == AST_STRUCT_DECL_LIST) {
+        if (struct_name != NULL && tagtable_can_define(resolver->tag_table, struct_name)) {
+            struct_id = create_struct_id(resolver, struct_name);
+            if (strcmp(struct_id, struct_name) != 0) {
+                alias_dtype =
+                    tagtable_define_struct_alias(resolver->tag_table, new_string(struct_name), new_string(struct_id));
+            }
+        }
         resolver->ast = child_ast;
         resolverret_dstructmembers_assign(&members, &errs, resolve_struct_decl_list(resolver));
         resolver->ast = ast;
     }
     if (errs != NULL) {
-        if (struct_name != NULL) {
-            free(struct_name);
-        }
+        free(struct_name);
+        free(struct_id);
         return new_resolverret_dtype_errors(errs);
     }
 
@@ -237,29 +248,61 @@ ResolverDTypeReturn* resolve_struct_specifier(Resolver* resolver) {
             nbytes = unnamed_dtype->dstruct->nbytes;
             alignment = unnamed_dtype->dstruct->alignment;
         }
+        if (unnamed_dtype != NULL && unnamed_dtype->dstruct->name != NULL) {
+            free(struct_name);
+            struct_name = new_string(unnamed_dtype->dstruct->name);
+        }
         dtype = new_named_struct_dtype(struct_name, nbytes, alignment);
         return new_resolverret_dtype(dtype);
     }
 
-    if (!tagtable_can_define(resolver->tag_table, struct_name)) {
+    if (alias_dtype == NULL && !tagtable_can_define(resolver->tag_table, struct_name)) {
         errs = new_vector(&t_error);
         err = new_error("tag '%s' is already declared", struct_name);
         vector_push(errs, err);
         free(struct_name);
+        free(struct_id);
         delete_vector(members);
         return new_resolverret_dtype_errors(errs);
     }
 
-    tagtable_define_struct(resolver->tag_table, new_string(struct_name), members);
+    DType* unnamed_dtype = tagtable_define_struct(resolver->tag_table, new_string(struct_id), members);
+    if (alias_dtype != NULL) {
+        alias_dtype->dstruct->nbytes = unnamed_dtype->dstruct->nbytes;
+        alias_dtype->dstruct->alignment = unnamed_dtype->dstruct->alignment;
+    }
 
-    DType* unnamed_dtype = tagtable_search(resolver->tag_table, struct_name);
-    Srt* tag_decl_srt = new_identifier_srt(SRT_TAG_DECL, dtype_copy(unnamed_dtype), new_string(struct_name));
+    Srt* tag_decl_srt = new_identifier_srt(SRT_TAG_DECL, dtype_copy(unnamed_dtype), new_string(struct_id));
     vector_push(resolver->scope_srt->children, tag_decl_srt);
 
-    dtype = new_named_struct_dtype(struct_name, unnamed_dtype->dstruct->nbytes, unnamed_dtype->dstruct->alignment);
+    dtype = new_named_struct_dtype(struct_id, unnamed_dtype->dstruct->nbytes, unnamed_dtype->dstruct->alignment);
+    free(struct_name);
     return new_resolverret_dtype(dtype);
 }
 
+// id of struct being defined: its name, unless it is taken by another tag that can be seen from here
+char* create_struct_id(Resolver* resolver, char* struct_name) {
+    char* struct_id = new_string(struct_name);
+
+    for (int i = 1; 1; i++) {
+        int is_taken = tagtable_search(resolver->tag_table, struct_id) != NULL;
+
+        int num_children = vector_size(resolver->scope_srt->children);
+        for (int j = 0; j < num_children && !is_taken; j++) {
+            Srt* srt = vector_at(resolver->scope_srt->children, j);
+            is_taken = srt->type == SRT_TAG_DECL && strcmp(srt->ident_name, struct_id) == 0;
+        }
+
+        if (!is_taken) {
+            return struct_id;
+        }
+
+        free(struct_id);
+        struct_id = malloc((strlen(struct_name) + 13) * sizeof(char));
+        sprintf(struct_id, "%s.%d", struct_name, i);
+    }
+}
+
 ResolverReturnDStructMembers* resolve_struct_decl_list(Resolver* resolver) {
     Vector* members = new_vector(&t_dstructmember);
     Vector* errs = NULL;
@@ -596,7 +639,7 @@ ResolverDTypeReturn* resolve_typedef_name_specifier(Resolver* resolver) {
         case DTYPE_VOID:
             break;
         case DTYPE_STRUCT:
-            complete_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+            complete_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
             if (complete_dtype == NULL)
                 break;
 
@@ -1073,7 +1116,7 @@ ResolverReturn* resolve_initializer(Resolver* resolver) {
     } else if (dtype->type == DTYPE_ARRAY && dtype->darray->of_dtype->type == DTYPE_CHAR) {
         resolverret_assign(&srt, &errs, resolve_string_initializer(resolver));
     } else if (dtype->type == DTYPE_STRUCT && dtype->dstruct->members == NULL) {
-        resolver->initialized_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+        resolver->initialized_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
         resolverret_assign(&srt, &errs, resolve_aggregate_initializer(resolver));
     } else if (dtype->type == DTYPE_ARRAY || dtype->type == DTYPE_STRUCT) {
         resolverret_assign(&srt, &errs, resolve_aggregate_initializer(resolver));
@@ -1124,7 +1167,7 @@ ResolverReturn* resolve_zero_initializer(Resolver* resolver) {
             break;
         case DTYPE_STRUCT:
             if (dtype->dstruct->members == NULL) {
-                resolver->initialized_dtype = tagtable_search(resolver->tag_table, dtype->dstruct->name);
+                resolver->initialized_dtype = tagtable_search_struct(resolver->tag_table, dtype->dstruct->name);
             }
             // resolve_zero_aggregate_initializer does not return an error
             resolverret_assign(&srt, &errs, resolve_zero_aggregate_initializer(resolver));
diff --git a/src/resolver/expression.c b/src/resolver/expression.c
index abba4f6..a7dce33 100644
--- a/src/resolver/expression.c
+++ b/src/resolver/expression.c
@@ -1413,7 +1413,7 @@ ResolverReturn* resolve_member_like_expr(Resolver* resolver) {
     DType* original_member_dtype = resolver->expr_dtype;
     resolver->expr_dtype = lhs_srt->dtype->dpointer->to_dtype;
     if (resolver->expr_dtype->dstruct->members == NULL) {
-        resolver->expr_dtype = tagtable_search(resolver->tag_table, resolver->expr_dtype->dstruct->name);
+        resolver->expr_dtype = tagtable_search_struct(resolver->tag_table, resolver->expr_dtype->dstruct->name);
     }
 
     if (resolver->expr_dtype == NULL) {
diff --git a/src/tagtab/tagtab.c b/src/tagtab/tagtab.c
index 746fdb7..7758cd7 100644
--- a/src/tagtab/tagtab.c
+++ b/src/tagtab/tagtab.c
@@ -35,6 +35,27 @@ DType* tagtable_search(TagTable* table, char* name) {
     return dtype;
 }
 
+// finds members of struct by its id (distinct among structs in scope), which is not always the name written in source
+DType* tagtable_search_struct(TagTable* table, char* struct_id) {
+    for (; table != NULL; table = table->outer_scope) {
+        DType* dtype = map_get(table->map, struct_id);
+        if (dtype != NULL && dtype->type == DTYPE_STRUCT && dtype->dstruct->members != NULL) {
+            return dtype;
+        }
+    }
+    return NULL;
+}
+
+// lets name mean the struct whose members are defined, now or later, as struct_id
+DType* tagtable_define_struct_alias(TagTable* table, char* name, char* struct_id) {
+    if (!tagtable_can_define(table, name)) {
+        return NULL;
+    }
+    DType* dtype = new_named_struct_dtype(struct_id, 0, 0);
+    map_add(table->map, name, dtype);
+    return dtype;
+}
+
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members) {
     if (!tagtable_can_define(table, name)) {
         return NULL;
diff --git a/src/tagtab/tagtab.h b/src/tagtab/tagtab.h
index 33085da..defd070 100644
--- a/src/tagtab/tagtab.h
+++ b/src/tagtab/tagtab.h
@@ -16,7 +16,9 @@ TagTable* tagtable_copy(TagTable* table);
 int tagtable_can_define(TagTable* table, char* name);
 DType* tagtable_define_struct(TagTable* table, char* name, Vector* members);
 DType* tagtable_define_enum(TagTable* table, char* name, Vector* members);
+DType* tagtable_define_struct_alias(TagTable* table, char* name, char* struct_id);
 DType* tagtable_search(TagTable* table, char* name);
+DType* tagtable_search_struct(TagTable* table, char* struct_id);
 TagTable* tagtable_enter_scope(TagTable* table);
 TagTable* tagtable_exit_scope(TagTable* table);
 void delete_tagtable(TagTable* table);
-- 
2.43.0

