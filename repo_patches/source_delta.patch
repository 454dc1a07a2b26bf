From ee69efd0758bff663668d687d88e4ac6dc309b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:33 +0000
Subject: [PATCH 01/46] fix: type alias takes its name and type from the
 definition

An exported or explicitly typed alias was registered under the text of the
wrong token, with no type.
---
 skull/semantic/types.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 79a3343..bdf1cea 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -276,14 +276,15 @@ bool validate_stmt_type_alias(SemanticState *state, const AstNode *node) {
 		return false;
 	}
 
-	const Type *type = token_to_type(state, token->next->next);
-	char *alias = token_to_mbs_str(token);
+	const Token *name_token = node->var_def->name_tok;
+	const Type *type = token_to_type(state, node->token_end->next);
+	char *alias = token_to_mbs_str(name_token);
 
 	Symbol *symbol;
 	symbol = Calloc(1, sizeof *symbol);
 	*symbol = (Symbol){
 		.name = alias,
-		.location = token->location,
+		.location = name_token->location,
 		.expr_type = type,
 		.type = SYMBOL_ALIAS,
 	};
-- 
2.43.0


From 5793e4a746f423a9639b8e794918fa55af69f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:51 +0000
Subject: [PATCH 02/46] fix: restore the enclosing function after any function
 declaration

External declarations never restored it and a nested function lost it, so
later return statements were checked against the wrong return type.
---
 skull/semantic/func.c   | 5 ++---
 skull/semantic/shared.c | 1 -
 skull/semantic/shared.h | 1 -
 3 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 1a8f63d..089d99c 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -26,6 +26,7 @@ static bool post_validate_stmt_func_decl(SemanticState *, const AstNode *);
 
 bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	const unsigned while_loop_depth = state->while_loop_depth;
+	Symbol *const current_func = state->current_func;
 	state->while_loop_depth = 0;
 
 	const bool is_valid = (
@@ -35,6 +36,7 @@ bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	);
 
 	state->while_loop_depth = while_loop_depth;
+	state->current_func = current_func;
 
 	return is_valid;
 }
@@ -79,7 +81,6 @@ static bool validate_stmt_func_decl_(
 		mangle_name(symbol->name) :
 		symbol->name;
 
-	state->last_func = state->current_func;
 	state->current_func = symbol;
 
 	if (!scope_add_symbol(state, symbol)) {
@@ -127,8 +128,6 @@ static bool post_validate_stmt_func_decl(
 		return false;
 	}
 
-	state->current_func = state->last_func;
-
 	return true;
 }
 
diff --git a/skull/semantic/shared.c b/skull/semantic/shared.c
index 4981c8f..5fbc9b1 100644
--- a/skull/semantic/shared.c
+++ b/skull/semantic/shared.c
@@ -28,7 +28,6 @@ SemanticState *setup_semantic_state(void) {
 
 	state->main_func = symbol;
 	state->current_func = state->main_func;
-	state->last_func = NULL;
 
 	return state;
 }
diff --git a/skull/semantic/shared.h b/skull/semantic/shared.h
index b51269a..07de7e4 100644
--- a/skull/semantic/shared.h
+++ b/skull/semantic/shared.h
@@ -13,7 +13,6 @@ typedef struct {
 	Scope *scope;
 	Symbol *main_func;
 	Symbol *current_func;
-	Symbol *last_func;
 	unsigned while_loop_depth;
 	HashTable *dynamic_refs;
 } SemanticState;
-- 
2.43.0


From aadcc5fc41b0eb101d0799bab9917c2823e60776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:51 +0000
Subject: [PATCH 03/46] fix: reject returning a value from a nested block of a
 void function

Only return statements at the top level of the function body were checked, so
the program reached code generation and failed LLVM verification.
---
 skull/semantic/flow.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index 9c9220a..a312809 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -1,5 +1,6 @@
 #include <stdbool.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "skull/build_data.h"
 #include "skull/common/errors.h"
@@ -55,7 +56,15 @@ static bool is_valid_return_expr(SemanticState *state, const AstNode *node) {
 
 	const Type *return_type = state->current_func->func->return_type;
 
-	if (return_type != &TYPE_VOID && expr->type != return_type) {
+	if (return_type == &TYPE_VOID) {
+		FMT_ERROR(ERR_NO_VOID_RETURN, {
+			.real = strdup(state->current_func->name)
+		});
+
+		return false;
+	}
+
+	if (expr->type != return_type) {
 		FMT_ERROR(ERR_EXPECTED_SAME_TYPE,
 			{ .loc = &expr_token->location, .type = return_type },
 			{ .type = expr->type }
-- 
2.43.0


From dea13352c0c1cb2990f02449f425e667c5b18292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 04/46] fix: report redeclaring a namespace

The second declaration was rejected without printing any error.
---
 skull/semantic/symbol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/symbol.c b/skull/semantic/symbol.c
index b6c1a80..c23f3e7 100644
--- a/skull/semantic/symbol.c
+++ b/skull/semantic/symbol.c
@@ -20,7 +20,7 @@ static bool symbol_already_exists(SemanticState *state, Symbol *new_symbol) {
 	const Location *location = &new_symbol->location;
 	char *name = new_symbol->name;
 
-	if (type != new_symbol->type) {
+	if (type != new_symbol->type || type == SYMBOL_NAMESPACE) {
 		FMT_ERROR(
 			ERR_NO_REDEFINE_X_AS_Y,
 			{ .loc = location, .str = symbol_type_to_str(type) },
-- 
2.43.0


From 83e11222f4508dd71d6c6f11d2e2ec7f84796acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:49 +0000
Subject: [PATCH 05/46] fix: only resolve variables as variables

Looking up a function or namespace name as a variable read the wrong union
member.
---
 skull/semantic/scope.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index c0fb55f..387be27 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -89,6 +89,7 @@ Symbol *scope_find_var(SemanticState *state, const Token *const token) {
 	Symbol *const symbol = scope_find_name(state->scope, var_name);
 
 	if (!symbol ||
+		symbol->type != SYMBOL_VAR ||
 		!symbol->var ||
 		!symbol->var->is_defined
 	) {
-- 
2.43.0


From 0ce477a0d7ba9f65d0a0b91f0d9a430348ec9b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 06/46] fix: propagate unused-symbol errors from nested blocks

With --werror, a warning inside a block cancelled earlier warnings and never
failed the compilation itself.
---
 skull/semantic/unused.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/unused.c b/skull/semantic/unused.c
index 4caa413..e9bfd01 100644
--- a/skull/semantic/unused.c
+++ b/skull/semantic/unused.c
@@ -47,7 +47,7 @@ bool check_unused_symbols(const AstNode *node) {
 		}
 
 		else if (head->child) {
-			err &= check_unused_symbols(head->child);
+			if (!check_unused_symbols(head->child)) err = true;
 		}
 
 		head = head->next;
-- 
2.43.0


From 02d9f8ab35b277ad0446c2cda8725c694c86d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:38 +0000
Subject: [PATCH 07/46] fix: break and continue after a nested loop refer to
 the outer loop

---
 skull/codegen/llvm/flow.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index 0e3e352..c0741d0 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -105,6 +105,10 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 		"while_end"
 	);
 
+	// `break`/`continue` after a nested loop refer to the outer loop again
+	LLVMBasicBlockRef outer_while_cond = state->current_while_cond;
+	LLVMBasicBlockRef outer_while_end = state->current_while_end;
+
 	state->current_while_cond = while_cond;
 	state->current_while_end = while_end;
 
@@ -125,10 +129,8 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 	gen_control_code_block(node, while_cond, state);
 	LLVMPositionBuilderAtEnd(state->builder, while_end);
 
-	// shouldn't be needed since semantic layer checks that all break/continue
-	// statements are in a while loop, but it doesn't hurt to leave it in.
-	state->current_while_cond = NULL;
-	state->current_while_end = NULL;
+	state->current_while_cond = outer_while_cond;
+	state->current_while_end = outer_while_end;
 }
 
 /*
-- 
2.43.0


From c37b53c22b34b3a30661b693c1a25c86c7cc649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:42 +0000
Subject: [PATCH 08/46] fix: initialize mutable variables on every iteration of
 a loop

---
 skull/codegen/llvm/assign.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 1e31009..484cd23 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -80,7 +80,10 @@ static void setup_var_llvm(
 				LLVMConstNull(type_to_llvm_type(var->type, state))
 		);
 
-		if (is_const_literal) return;
+		// the initializer only runs once, in a loop we need to store again
+		if (is_const_literal && (var->is_const || !state->current_while_cond)) {
+			return;
+		}
 	}
 	else if (requires_alloca_decl(var)) {
 		var->ref = LLVMBuildAlloca(
-- 
2.43.0


From 82f97b76d7dcdb85a46fcfb06943a94560af3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:46 +0000
Subject: [PATCH 09/46] fix: dereference constant references and parameters
 once

---
 skull/codegen/llvm/expr.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index cd1908c..dd21ab6 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -115,12 +115,7 @@ static Expr gen_expr_deref(
 		.value = LLVMBuildLoad2(
 			state->builder,
 			type_to_llvm_type(var->type->inner, state),
-			LLVMBuildLoad2(
-				state->builder,
-				type_to_llvm_type(var->type, state),
-				var->ref,
-				""
-			),
+			gen_expr_identifier(expr->rhs, state).value,
 			""
 		),
 		.type = var->type->inner
-- 
2.43.0


From 10d62888c10bab55fc0567ab76622a09ccb490cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:49 +0000
Subject: [PATCH 10/46] fix: integer division does not have to be exact

---
 skull/codegen/llvm/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index dd21ab6..3e258ad 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -232,7 +232,7 @@ static Expr gen_expr_div(
 	const SkullStateLLVM *state
 ) {
 	return gen_expr_math_oper(
-		lhs, rhs, LLVMBuildExactSDiv, LLVMBuildFDiv, state
+		lhs, rhs, LLVMBuildSDiv, LLVMBuildFDiv, state
 	);
 }
 
-- 
2.43.0


From 4d15a1856764d1ebac9ace5db8b11aa322cec749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:23 +0000
Subject: [PATCH 11/46] fix: taking a reference to a local constant

---
 skull/codegen/llvm/expr.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 3e258ad..d1c42cd 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -33,7 +33,7 @@ static Operation gen_expr_add, gen_expr_sub, gen_expr_mult,
 static Expr gen_expr_const(const AstNodeExpr *, const SkullStateLLVM *);
 static Expr gen_expr_is_str(LLVMValueRef, LLVMValueRef, const SkullStateLLVM *);
 static Expr gen_expr_identifier(const AstNodeExpr *, const SkullStateLLVM *);
-static Expr gen_expr_ref(const AstNodeExpr *);
+static Expr gen_expr_ref(const AstNodeExpr *, const SkullStateLLVM *);
 static Expr gen_expr_deref(const AstNodeExpr *, const SkullStateLLVM *);
 static Operation *expr_type_to_func(ExprType);
 
@@ -58,7 +58,7 @@ Expr gen_expr(const AstNodeExpr *const expr, const SkullStateLLVM *state) {
 		case EXPR_FUNC:
 			return gen_expr_func_call(expr->lhs.func_call, state);
 		case EXPR_REF:
-			return gen_expr_ref(expr);
+			return gen_expr_ref(expr, state);
 		case EXPR_DEREF:
 			return gen_expr_deref(expr, state);
 		default: break;
@@ -318,9 +318,25 @@ static Expr gen_expr_pow(
 /*
 Return reference to an expression `expr`.
 */
-static Expr gen_expr_ref(const AstNodeExpr *expr) {
+static Expr gen_expr_ref(
+	const AstNodeExpr *expr,
+	const SkullStateLLVM *state
+) {
+	const Variable *var = expr->rhs->symbol->var;
+	LLVMValueRef ref = var->ref;
+
+	// local constants are values without an address, so give them one
+	if (!var->is_global && var->is_const) {
+		ref = LLVMBuildAlloca(
+			state->builder,
+			type_to_llvm_type(var->type, state),
+			""
+		);
+		LLVMBuildStore(state->builder, var->ref, ref);
+	}
+
 	return (Expr){
-		.value = expr->rhs->symbol->var->ref,
+		.value = ref,
 		.type = expr->rhs->symbol->var->type->inner
 	};
 }
-- 
2.43.0


From d9859e60a8849cf392c343e30dc7de95fb04f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:17 +0000
Subject: [PATCH 12/46] fix: compare references with is and isnt

---
 skull/codegen/llvm/expr.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index d1c42cd..7a910bb 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -337,7 +337,7 @@ static Expr gen_expr_ref(
 
 	return (Expr){
 		.value = ref,
-		.type = expr->rhs->symbol->var->type->inner
+		.type = expr->type
 	};
 }
 
@@ -389,7 +389,12 @@ static Expr gen_expr_is(
 ) {
 	const Type *type = lhs->type;
 
-	if (type == &TYPE_INT || type == &TYPE_RUNE || type == &TYPE_BOOL)
+	if (
+		type == &TYPE_INT ||
+		type == &TYPE_RUNE ||
+		type == &TYPE_BOOL ||
+		is_reference(type)
+	)
 		return (Expr){
 			.value = LLVMBuildICmp(
 				state->builder,
-- 
2.43.0


From fc952750136747cafd6e8677edd66fe7eceb3523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:21 +0000
Subject: [PATCH 13/46] fix: reject comparing the results of void functions

---
 skull/semantic/expr.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index d4f33e8..52d61d6 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -20,6 +20,7 @@ static bool is_div_by_zero(const AstNodeExpr *);
 static bool validate_const_expr(AstNodeExpr *);
 static bool validate_pow_expr(const AstNodeExpr *);
 static bool validate_bool_expr(const AstNodeExpr *);
+static bool validate_is_expr(const AstNodeExpr *);
 static bool validate_ref_expr(const AstNodeExpr *);
 static bool is_numeric(const AstNodeExpr *);
 static bool validate_shift_expr(const AstNodeExpr *);
@@ -111,6 +112,9 @@ static bool validate_expr_restrictions(AstNodeExpr *expr) {
 		case EXPR_OR:
 		case EXPR_XOR:
 			return validate_bool_expr(expr);
+		case EXPR_IS:
+		case EXPR_ISNT:
+			return validate_is_expr(expr);
 		case EXPR_REF:
 			return validate_ref_expr(expr);
 		case EXPR_DEREF:
@@ -265,6 +269,19 @@ static bool validate_bool_expr(const AstNodeExpr *expr) {
 	return true;
 }
 
+static bool validate_is_expr(const AstNodeExpr *expr) {
+	// void functions do not return anything that could be compared
+	if (expr->rhs->type == &TYPE_VOID) {
+		FMT_ERROR(ERR_INVALID_EXPR, {
+			.tok = find_expr_node_token(expr->rhs)
+		});
+
+		return false;
+	}
+
+	return true;
+}
+
 static bool validate_ref_expr(const AstNodeExpr *expr) {
 	if (expr->rhs->oper != EXPR_IDENTIFIER) {
 		FMT_ERROR(ERR_REF_IDENT_ONLY, {
-- 
2.43.0


From f894f17081732eaf12589fbba7b356a242b67e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:29 +0000
Subject: [PATCH 14/46] fix: reject parameters of type void

---
 skull/semantic/func.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 089d99c..80b0ff7 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -154,6 +154,13 @@ static bool validate_func_params(
 			return false;
 		}
 
+		if (function->param_types[i] == &TYPE_VOID) {
+			FMT_ERROR(ERR_UNEXPECTED_TOKEN, { .tok = params[i]->type_name });
+
+			restore_parent_scope(state);
+			return false;
+		}
+
 		Variable *const param_var = make_variable(
 			function->param_types[i],
 			node->func_proto->params[i]->param_name,
-- 
2.43.0


From bccc57cb3a80f11858671f613054827b84dcad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:29 +0000
Subject: [PATCH 15/46] fix: leaving a namespace block ends the enclosing block

---
 skull/codegen/llvm/core.c |  2 +-
 skull/codegen/llvm/flow.c | 10 ++++++----
 skull/codegen/llvm/flow.h |  2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/skull/codegen/llvm/core.c b/skull/codegen/llvm/core.c
index 5c92e05..b914d5a 100644
--- a/skull/codegen/llvm/core.c
+++ b/skull/codegen/llvm/core.c
@@ -53,7 +53,7 @@ static Expr gen_node(const AstNode **node, SkullStateLLVM *state) {
 			gen_stmt_noop(&(*node)->token->location, state); break;
 		case AST_NODE_BREAK: return gen_stmt_break(state);
 		case AST_NODE_CONTINUE: return gen_stmt_continue(state);
-		case AST_NODE_NAMESPACE: gen_control_namespace(*node, state); break;
+		case AST_NODE_NAMESPACE: return gen_control_namespace(*node, state);
 		case AST_NODE_IMPORT:
 		case AST_NODE_COMMENT:
 			break;
diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index c0741d0..1ad27fb 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -22,7 +22,7 @@ static void gen_control_if_(
 	SkullStateLLVM *
 );
 
-static void gen_control_code_block(
+static Expr gen_control_code_block(
 	const AstNode *,
 	LLVMBasicBlockRef,
 	SkullStateLLVM *
@@ -152,8 +152,8 @@ void gen_control_if(const AstNode **node, SkullStateLLVM *state) {
 /*
 Builds a namespace from `node`.
 */
-void gen_control_namespace(const AstNode *node, SkullStateLLVM *state) {
-	gen_control_code_block(node, NULL, state);
+Expr gen_control_namespace(const AstNode *node, SkullStateLLVM *state) {
+	return gen_control_code_block(node, NULL, state);
 }
 
 /*
@@ -263,7 +263,7 @@ Expr gen_stmt_continue(const SkullStateLLVM *state) {
 Parse `node` while in a new scope. Branch to `block` if no return occurred (and
 is not `NULL`).
 */
-static void gen_control_code_block(
+static Expr gen_control_code_block(
 	const AstNode *node,
 	LLVMBasicBlockRef block,
 	SkullStateLLVM *state
@@ -285,4 +285,6 @@ static void gen_control_code_block(
 	}
 
 	if (!returned.value && block) LLVMBuildBr(state->builder, block);
+
+	return returned;
 }
diff --git a/skull/codegen/llvm/flow.h b/skull/codegen/llvm/flow.h
index 134b8ff..b05889a 100644
--- a/skull/codegen/llvm/flow.h
+++ b/skull/codegen/llvm/flow.h
@@ -14,4 +14,4 @@ void gen_stmt_implicit_main_return(const Location *, const SkullStateLLVM *);
 void gen_stmt_noop(const Location *, const SkullStateLLVM *);
 void gen_control_while(const AstNode *, SkullStateLLVM *);
 void gen_control_if(const AstNode **, SkullStateLLVM *);
-void gen_control_namespace(const AstNode *, SkullStateLLVM *);
+Expr gen_control_namespace(const AstNode *, SkullStateLLVM *);
-- 
2.43.0


From 273d237332d1a67cb8001e0fd9b7f8f0921f4e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:54 +0000
Subject: [PATCH 16/46] fix: report C output that cannot be written

---
 skull/codegen/c/write.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 9ebfc4a..27d1de0 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -34,6 +34,8 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 
 	free(out_filename);
 
+	if (!f) return true;
+
 	print_headers(f);
 	print_builtins(f, state);
 	print_globals(f, state);
@@ -42,7 +44,9 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
-	return false;
+	if (f == stdout) return fflush(f);
+
+	return fclose(f);
 }
 
 static void print_headers(FILE *f) {
-- 
2.43.0


From 93c1eb6243a9a8f0d347eff5cc34bb6a758cb60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:59 +0000
Subject: [PATCH 17/46] fix: linker that dies from a signal fails the build

---
 skull/codegen/llvm/write.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 3d5367f..b078bba 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -219,14 +219,14 @@ static int sh(char *argv[]) {
 		execvp(argv[0], argv);
 		if (errno) {
 			perror("execvp");
-			return 1;
+			_exit(1);
 		}
 	}
 
 	int status = 0;
 	wait(&status);
 
-	return WEXITSTATUS(status);
+	return WIFEXITED(status) ? WEXITSTATUS(status) : 1;
 }
 
 static int shell(char *cmd) {
-- 
2.43.0


From 9e610693c7c0a0653b6e84c5a27a69ed1dc34b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:04 +0000
Subject: [PATCH 18/46] fix: unreadable source file fails the build

---
 skull/common/io.c | 3 ++-
 skull/real_main.c | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/skull/common/io.c b/skull/common/io.c
index d1af053..26692f0 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -35,11 +35,12 @@ char *file_to_string(FILE *fd) {
 	const size_t read = fread(str, 1, (size_t)len, fd);
 
 	if (!read) {
+		if (errno) perror("fread");
 		free(str);
 		return NULL;
 	}
 
-	str[len] = '\0';
+	str[read] = '\0';
 	return str;
 }
 
diff --git a/skull/real_main.c b/skull/real_main.c
index 0ff9345..8552240 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdbool.h>
 #include <stdio.h>
 
@@ -52,8 +53,8 @@ static int compile_file(char *filename) {
 
 	char *file_contents = file_to_string(f);
 	if (!file_contents) {
-		bool err = false;
-		FMT_WARN(err, WARN_FILE_EMPTY, {0});
+		bool err = errno;
+		if (!err) FMT_WARN(err, WARN_FILE_EMPTY, {0});
 
 		fclose(f);
 		return err;
-- 
2.43.0


From 6d33432ad64f0b1c906ce8635d4810ed576c751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:24 +0000
Subject: [PATCH 19/46] fix: parenthesized and tightly binding operands keep
 their grouping

---
 skull/parse/ast_node.c | 58 ++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index ad4c617..5178f56 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -34,7 +34,8 @@ static void parse_ast_sub_tree_(ParserCtx *);
 static bool parse_ast_node(ParserCtx *);
 static void next_token(ParserCtx *);
 static AstNodeExpr *parse_single_expr(ParserCtx *);
-static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *);
+static AstNodeExpr *parse_tight_expr(ParserCtx *, unsigned);
+static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *, unsigned);
 static unsigned oper_to_precedence(ExprType);
 static AstNodeExpr *parse_root_expr(ParserCtx *);
 static bool is_unary_oper(ExprType);
@@ -52,6 +53,9 @@ typedef enum {
 
 #define NOT_NULL(x) (x) && (x)
 
+// higher then anything that `oper_to_precedence` returns
+#define LOOSEST_PRECEDENCE 8
+
 #define AST_TOKEN_CMP2(tok, type1, type2) \
 	(NOT_NULL((tok)->type) == (type1) && \
 	NOT_NULL((tok)->next)->type == (type2))
@@ -659,37 +663,29 @@ Try and generate AST node for expression.
 Returns node if one was added, NULL otherwise.
 */
 static AstNodeExpr *parse_expression(ParserCtx *ctx) {
-	if (!ctx->token) return NULL;
+	return parse_tight_expr(ctx, LOOSEST_PRECEDENCE);
+}
 
-	AstNodeExpr *head = parse_single_expr(ctx);
-	if (ctx->err) return NULL;
+/*
+Parse expression made up of operators that bind tighter then `precedence`.
+*/
+static AstNodeExpr *parse_tight_expr(ParserCtx *ctx, unsigned precedence) {
+	if (!ctx->token) return NULL;
 
-	AstNodeExpr *current = head;
+	AstNodeExpr *expr = parse_single_expr(ctx);
 	AstNodeExpr *last = NULL;
 
-	while (last != current) {
-		last = current;
-
-		current = parse_expr_rhs(ctx, current);
-		if (ctx->err) {
-			free_expr_node(head);
-			return NULL;
-		}
-
-		const unsigned last_precedence = oper_to_precedence(last->oper);
-		const unsigned current_precedence = oper_to_precedence(current->oper);
-
-		if (last_precedence > current_precedence) {
-			current->lhs.expr = last->rhs;
-			last->rhs = current;
+	while (!ctx->err && last != expr) {
+		last = expr;
+		expr = parse_expr_rhs(ctx, expr, precedence);
+	}
 
-			AstNodeExpr *tmp = last;
-			last = current;
-			current = tmp;
-		}
+	if (ctx->err) {
+		free_expr_node(last);
+		return NULL;
 	}
 
-	return last ? last : current;
+	return expr;
 }
 
 static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
@@ -720,7 +716,7 @@ static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
 	AstNodeExpr *expr = Malloc(sizeof(AstNodeExpr));
 	*expr = (AstNodeExpr){
 		.oper = unary_oper,
-		.rhs = parse_root_expr(ctx)
+		.rhs = parse_tight_expr(ctx, oper_to_precedence(unary_oper))
 	};
 
 	return expr;
@@ -765,7 +761,11 @@ static AstNodeExpr *parse_root_expr(ParserCtx *ctx) {
 	return NULL;
 }
 
-static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
+static AstNodeExpr *parse_expr_rhs(
+	ParserCtx *ctx,
+	AstNodeExpr *expr,
+	unsigned precedence
+) {
 	if (!ctx->token) return expr;
 
 	const ExprType oper = token_type_to_binary_expr_type(ctx->token->type);
@@ -777,10 +777,12 @@ static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
 		return NULL;
 	}
 
+	if (oper_to_precedence(oper) >= precedence) return expr;
+
 	Token *oper_token = ctx->token;
 	next_token(ctx);
 
-	AstNodeExpr *rhs = parse_single_expr(ctx);
+	AstNodeExpr *rhs = parse_tight_expr(ctx, oper_to_precedence(oper));
 	if (!rhs) {
 		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = oper_token });
 
-- 
2.43.0


From a556907d7d8a4628ce2bc86c1abb719664d7a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:30 +0000
Subject: [PATCH 20/46] fix: reject unary operator without an operand

---
 skull/parse/ast_node.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 5178f56..83ef4f9 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -719,6 +719,14 @@ static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
 		.rhs = parse_tight_expr(ctx, oper_to_precedence(unary_oper))
 	};
 
+	if (!expr->rhs) {
+		if (!ctx->err) FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = last });
+
+		free_expr_node(expr);
+		ctx->err = true;
+		return NULL;
+	}
+
 	return expr;
 }
 
-- 
2.43.0


From 7faade97b01e925a0e466d8a9dcf625fb7d19adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:35 +0000
Subject: [PATCH 21/46] fix: statements cut off by the end of the file crashed
 the parser

---
 skull/parse/ast_node.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 83ef4f9..68f44b8 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -142,7 +142,9 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (ctx->err) return RESULT_ERROR;
 
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ? &ctx->token->location : &first->location
+		});
 		return RESULT_ERROR;
 	}
 
@@ -219,7 +221,9 @@ static ParserResult parse_var_assign(ParserCtx *ctx) {
 
 	AstNodeExpr *expr = parse_expression(ctx);
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ? &ctx->token->location : &last->location
+		});
 
 		return RESULT_ERROR;
 	}
@@ -276,7 +280,7 @@ static ParserResult parse_function_proto(ParserCtx *ctx) {
 
 	if (is_external || is_export) next_token(ctx);
 
-	if (!AST_TOKEN_CMP2(ctx->token,
+	if (!ctx->token || !AST_TOKEN_CMP2(ctx->token,
 		TOKEN_IDENTIFIER,
 		TOKEN_PAREN_OPEN)
 	) {
-- 
2.43.0


From ddeade34bf82c32f25379ed23d592fc5fc09c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:41 +0000
Subject: [PATCH 22/46] fix: explain statements cut off by the end of the file

---
 skull/parse/ast_node.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 68f44b8..69d1f3d 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -419,6 +419,7 @@ static Vector *parse_function_proto_params(ParserCtx *ctx) {
 
 static void parse_condition(ParserCtx *ctx, NodeType node_type) {
 	if (!ctx->token || !ctx->token->next) {
+		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = ctx->token });
 		ctx->err = true;
 		return;
 	}
@@ -429,7 +430,9 @@ static void parse_condition(ParserCtx *ctx, NodeType node_type) {
 	AstNodeExpr *expr = parse_expression(ctx);
 
 	if (!expr || ctx->err) {
-		FMT_ERROR(ERR_INVALID_EXPR, { .tok = ctx->token });
+		FMT_ERROR(ERR_INVALID_EXPR, {
+			.tok = ctx->token ? ctx->token : cond_node->token
+		});
 		ctx->err = true;
 
 		return;
@@ -457,6 +460,7 @@ static void parse_while(ParserCtx *ctx) {
 
 static void parse_namespace(ParserCtx *ctx) {
 	if (!ctx->token || !ctx->token->next) {
+		FMT_ERROR(ERR_UNEXPECTED_TOKEN, { .tok = ctx->token });
 		ctx->err = true;
 		return;
 	}
-- 
2.43.0


From 0fd928316643da6b9b1efd75cfff5a165ac9d2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:22 +0000
Subject: [PATCH 23/46] fix: file of nothing but spaces crashed the classifier

---
 skull/parse/classify.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skull/parse/classify.c b/skull/parse/classify.c
index 2760d52..5257fde 100644
--- a/skull/parse/classify.c
+++ b/skull/parse/classify.c
@@ -58,6 +58,12 @@ Classify the token `token`.
 static void classify_token(Token *const token) {
 	if (token->type) return;
 
+	// there is nothing but whitespace, same as an empty line
+	if (!token->begin) {
+		token->type = TOKEN_NEWLINE;
+		return;
+	}
+
 	const size_t len = token->len;
 
 	if (len == 1) {
-- 
2.43.0


From acfa2f640ada2877258ea6e2a03027dcec2e77e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:31 +0000
Subject: [PATCH 24/46] fix: typed definition without an equal sign swallowed a
 token

---
 skull/parse/ast_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 69d1f3d..48405b6 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -119,7 +119,7 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (is_explicit_type(ctx)) {
 		is_implicit = false;
 
-		if (!ctx->token) {
+		if (!ctx->token || ctx->token->type != TOKEN_OPER_EQUAL) {
 			FMT_ERROR(ERR_MISSING_ASSIGNMENT, { .loc = &name_token->location });
 			return RESULT_ERROR;
 		}
-- 
2.43.0


From 72f79058adac76bf2c1e11d6bece309027e05b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:48 +0000
Subject: [PATCH 25/46] fix: namespace needs a name and a block

---
 skull/parse/ast_node.c | 6 ++++++
 skull/semantic/flow.c  | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 48405b6..0e0ce78 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -465,6 +465,12 @@ static void parse_namespace(ParserCtx *ctx) {
 		return;
 	}
 
+	if (ctx->token->next->type != TOKEN_IDENTIFIER) {
+		FMT_ERROR(ERR_UNEXPECTED_TOKEN, { .tok = ctx->token->next });
+		ctx->err = true;
+		return;
+	}
+
 	Token *namespace_tok = ctx->token;
 	ctx->token = ctx->token->next->next;
 	push_ast_node(ctx, namespace_tok, AST_NODE_NAMESPACE);
diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index a312809..03035f6 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -164,6 +164,8 @@ bool validate_control_continue(SemanticState *state, const AstNode *node) {
 }
 
 bool validate_control_namespace(SemanticState *state, AstNode *node) {
+	if (is_missing_block(node, "namespace")) return false;
+
 	Symbol *symbol = Calloc(1, sizeof(Symbol));
 	*symbol = (Symbol){
 		.name = token_to_mbs_str(node->token->next),
-- 
2.43.0


From c48069f40258db178cc6ca90c3d83e6181004dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:26 +0000
Subject: [PATCH 26/46] fix: column of code after a quote on the same line

---
 skull/parse/token.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 99416f1..89a537b 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -213,7 +213,7 @@ static bool iter_quote(TokenizeCtx *ctx) {
 	if (!ctx->token->begin) token_add_info(ctx);
 
 	do {
-		ctx->code++;
+		chomp(ctx);
 
 		if (*ctx->code == '\n') {
 			next_line(ctx);
-- 
2.43.0


From 0461c930d23ac0bef2fcfd9021d384ad55f78292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:31 +0000
Subject: [PATCH 27/46] fix: block comment ending in several hashes never
 closed

---
 skull/parse/token.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 89a537b..a6df6be 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -152,13 +152,14 @@ static bool iter_comment(TokenizeCtx *ctx) {
 			break;
 		}
 		if (ctx->comment == BLOCK_COMMENT && *ctx->code == '#') {
-			chomp(ctx);
-
-			if (*ctx->code == '}') break;
+			if (ctx->code[1] == '}') {
+				chomp(ctx);
+				break;
+			}
 
-			if (*ctx->code == '\n') next_line(ctx);
+			if (ctx->code[1] == '{') {
+				chomp(ctx);
 
-			else if (*ctx->code == '{') {
 				Location location = (Location){
 					.line = ctx->line_num,
 					.column = ctx->column
-- 
2.43.0


From d13b48aa3877c1db43198e543e5df536dcbd3da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:58 +0000
Subject: [PATCH 28/46] fix: code touching a comment was swallowed by it

---
 skull/parse/token.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index a6df6be..5311975 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -141,7 +141,13 @@ Return `true` if errors occurred.
 static bool iter_comment(TokenizeCtx *ctx) {
 	if (!is_valid_comment_start(ctx)) return true;
 
-	if (!ctx->token->begin) token_add_info(ctx);
+	// code right before the comment is not a part of it
+	if (ctx->token->begin) {
+		ctx->token->len = (unsigned)(ctx->code - ctx->token->begin);
+		ctx->token = setup_next(ctx->token);
+	}
+
+	token_add_info(ctx);
 	chomp(ctx);
 
 	do {
@@ -178,6 +184,14 @@ static bool iter_comment(TokenizeCtx *ctx) {
 	}
 
 	ctx->token->type = TOKEN_COMMENT;
+
+	// code right after a block comment is not a part of it
+	if (ctx->comment == BLOCK_COMMENT) {
+		ctx->token->len = (unsigned)(ctx->code - ctx->token->begin) + 1;
+		ctx->last = ctx->token;
+		ctx->token = setup_next(ctx->token);
+	}
+
 	return false;
 }
 
-- 
2.43.0


From 3f490b829c61fc68ad6337a5deeea49fb75a1d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:54 +0000
Subject: [PATCH 29/46] fix: block without a statement became part of the next
 statement

---
 skull/parse/ast_node.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 0e0ce78..9b2630d 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -13,6 +13,7 @@ typedef struct {
 	AstNode *node;
 	AstNode *head;
 	Token *token;
+	const Token *stray_block;
 	unsigned indent_lvl;
 	bool err;
 } ParserCtx;
@@ -504,6 +505,16 @@ static AstNode *parse_ast_tree_(ParserCtx *ctx) {
 		return NULL;
 	}
 
+	if (ctx->stray_block) {
+		FMT_ERROR(ERR_UNEXPECTED_CODE_BLOCK, {
+			.loc = &ctx->stray_block->location
+		});
+
+		free_ast_tree(ctx->head);
+		ctx->err = true;
+		return NULL;
+	}
+
 	if (ctx->node->last && ctx->head != ctx->node) {
 		ctx->node->last->next = NULL;
 		ctx->node->last = NULL;
@@ -660,6 +671,8 @@ static void parse_ast_sub_tree_(ParserCtx *ctx) {
 		return;
 	}
 	if (!ctx->node->last) {
+		// there is no statement which this block could belong to
+		ctx->stray_block = child->token;
 		ctx->head->child = child;
 		child->parent = ctx->head;
 	}
-- 
2.43.0


From 0e44b176d04ce16f6d7d9552bf4d8d0318b8d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:31 +0000
Subject: [PATCH 30/46] fix: rune literals outside of ASCII were looked up past
 the end of the ctype table

iscntrl() takes a value of unsigned char or EOF. Given a larger code point it
read memory outside of its table, so that for example '\u0218' was (depending
on what happens to be there) rejected as a control character.
---
 skull/semantic/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index bdf1cea..0fd0865 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -97,7 +97,7 @@ Return "rune" converted from `token`.
 char32_t eval_rune(const Token *const token, bool *err) {
 	const char32_t *start = token->begin + 1;
 
-	if (iscntrl((int)*start)) {
+	if (*start < 0x80 && iscntrl((int)*start)) {
 		FMT_ERROR(ERR_NO_CONTROL_CHAR, { .loc = &token->location });
 
 		*err = true;
-- 
2.43.0


From 8f133348b5912b8ab9f81e82c686c101617ae7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:16 +0000
Subject: [PATCH 31/46] fix: keep variables of functions local in the C backend

---
 skull/codegen/c/assign.c | 2 +-
 skull/codegen/c/func.c   | 4 ++++
 skull/codegen/c/shared.h | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index fa78c32..a280bd7 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -39,7 +39,7 @@ CStmt gen_stmt_var_def_c(const AstNode *node, SkullStateC *state) {
 
 	char *type = skull_type_to_c_type(var->type);
 
-	if (state->indent_lvl == 1) {
+	if (state->indent_lvl == 1 && !state->in_function) {
 		CStmt stmt = gen_stmt_global_var(node, type, state);
 
 		free(type);
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index 4d2bb27..40bcda9 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -1,3 +1,4 @@
+#include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -88,9 +89,12 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 	}
 	else {
 		unsigned indent_lvl = state->indent_lvl;
+		bool in_function = state->in_function;
 		state->indent_lvl = 0;
+		state->in_function = true;
 		char *tree = gen_tree_c(node->child, state);
 		state->indent_lvl = indent_lvl;
+		state->in_function = in_function;
 
 		out = uvsnprintf(
 			func->is_export ?
diff --git a/skull/codegen/c/shared.h b/skull/codegen/c/shared.h
index e09d2ce..2a8c6bb 100644
--- a/skull/codegen/c/shared.h
+++ b/skull/codegen/c/shared.h
@@ -9,6 +9,7 @@ typedef struct {
 	_Bool called_float_pow;
 	_Bool called_strcmp;
 	unsigned indent_lvl;
+	_Bool in_function;
 } SkullStateC;
 
 SkullStateC *setup_c_state(SemanticState *);
-- 
2.43.0


From b18bf12be84646d728bc0a1ddd40768f0d3fe059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:26 +0000
Subject: [PATCH 32/46] fix: generate valid C for blocks without statements

---
 skull/codegen/c/core.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/core.c b/skull/codegen/c/core.c
index c31c1c2..77463c1 100644
--- a/skull/codegen/c/core.c
+++ b/skull/codegen/c/core.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <string.h>
 
 #include "skull/codegen/c/assign.h"
 #include "skull/codegen/c/debug.h"
@@ -42,7 +43,7 @@ CTree gen_tree_c(const AstNode *node, SkullStateC *state) {
 
 	state->indent_lvl--;
 
-	return generated;
+	return generated ? generated : strdup("");
 }
 
 static CStmt gen_node_c(const AstNode *node, SkullStateC *state) {
-- 
2.43.0


From 22095be3af388069a237b81822e11d48886dc197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:57 +0000
Subject: [PATCH 33/46] fix: escape string constants in the C backend

---
 skull/codegen/c/expr.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index d7532ac..eadbdcf 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -5,6 +5,7 @@
 #include <string.h>
 
 #include "skull/codegen/c/shared.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
@@ -14,6 +15,7 @@
 #include "skull/codegen/c/expr.h"
 
 static CExpr gen_expr_const_c(const AstNodeExpr *);
+static CExpr gen_str_literal_c(const char *);
 static CExpr gen_expr_binary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_unary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_func_call_c(const AstNodeFunctionCall *, SkullStateC *);
@@ -80,12 +82,39 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("0x%X", expr->value.rune);
 	}
 	if (expr->type == &TYPE_STR) {
-		return uvsnprintf("\"%s\"", expr->value.str);
+		return gen_str_literal_c(expr->value.str);
 	}
 
 	assert(false);
 }
 
+/*
+Return `str` as a C string literal, using octal escapes for characters which
+cannot appear in one as is.
+*/
+static CExpr gen_str_literal_c(const char *str) {
+	// in the worst case each character is escaped using 4 characters
+	char *out = Malloc((strlen(str) * 4) + 3);
+	char *at = out;
+
+	*at++ = '"';
+	for (; *str; str++) {
+		const unsigned char c = (unsigned char)*str;
+
+		if (c < ' ' || c == '"' || c == '\\' || c == 0x7F) {
+			*at++ = '\\';
+			*at++ = (char)('0' + (c >> 6));
+			*at++ = (char)('0' + ((c >> 3) & 7));
+			*at++ = (char)('0' + (c & 7));
+		}
+		else *at++ = *str;
+	}
+	*at++ = '"';
+	*at = '\0';
+
+	return out;
+}
+
 static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 	const char *fmt = NULL;
 
-- 
2.43.0


From 5101766215fdfbdf66e5c7aa901411e0a74f0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:03 +0000
Subject: [PATCH 34/46] fix: use fmod for float modulus in the C backend

---
 skull/codegen/c/expr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index eadbdcf..b030a4c 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -123,7 +123,12 @@ static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 		case EXPR_SUB: fmt = "(%s - %s)"; break;
 		case EXPR_MULT: fmt = "(%s * %s)"; break;
 		case EXPR_DIV: fmt = "(%s / %s)"; break;
-		case EXPR_MOD: fmt = "(%s %% %s)"; break;
+		case EXPR_MOD: {
+			fmt = expr->lhs.expr->type == &TYPE_FLOAT ?
+				"__builtin_fmod(%s, %s)" :
+				"(%s %% %s)";
+			break;
+		}
 		case EXPR_LSHIFT: fmt = "(%s << %s)"; break;
 		case EXPR_RSHIFT: fmt = "(%s >> %s)"; break;
 		case EXPR_IS: {
-- 
2.43.0


From 454265bcbd2246e03af3158be54c56a6a450b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:09 +0000
Subject: [PATCH 35/46] fix: generate valid C for NaN and Infinity

---
 skull/codegen/c/expr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index b030a4c..7d4f521 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -1,5 +1,6 @@
 #include <assert.h>
 #include <limits.h>
+#include <math.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -70,6 +71,14 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 	}
 	if (expr->type == &TYPE_FLOAT) {
 		if (!expr->value._int) return strdup("0.0");
+		if (isnan(expr->value._float)) return strdup("__builtin_nan(\"\")");
+		if (isinf(expr->value._float)) {
+			return strdup(
+				expr->value._float < 0 ?
+					"-__builtin_inf()" :
+					"__builtin_inf()"
+			);
+		}
 
 		// here we are using the hex representation of the float to guarantee
 		// that there is no loss in percision when stringifying.
-- 
2.43.0


From d408504c1bce57a1b926673505c02d75768560b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:16 +0000
Subject: [PATCH 36/46] fix: use format matching the type of line numbers

---
 skull/codegen/c/debug.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/c/debug.c b/skull/codegen/c/debug.c
index a55662a..4dba077 100644
--- a/skull/codegen/c/debug.c
+++ b/skull/codegen/c/debug.c
@@ -10,7 +10,7 @@ char *apply_debug_info(char *str, const AstNode *node) {
 
 	char *old = str;
 	str = uvsnprintf(
-		"#line %li \"%s\"\n%s",
+		"#line %u \"%s\"\n%s",
 		node->token->location.line,
 		BUILD_DATA.filename,
 		old
-- 
2.43.0


From 8bf3b2dece7e174f433105636d21ebb9728fe388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:00 +0000
Subject: [PATCH 37/46] fix: reading a mutable variable is not a constant
 expression

---
 skull/semantic/expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index 52d61d6..510f3b7 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -64,7 +64,9 @@ static bool validate_ident_expr(SemanticState *state, AstNodeExpr *expr) {
 
 	expr->symbol = symbol;
 	expr->type = var->type;
-	if (var->expr) expr->is_const_expr = var->expr->is_const_expr;
+	if (var->expr) {
+		expr->is_const_expr = var->is_const && var->expr->is_const_expr;
+	}
 
 	return true;
 }
-- 
2.43.0


From bdde5b5662b7c3af816ce7a492c62a687aec1c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:34 +0000
Subject: [PATCH 38/46] fix: float exponentiation called a pointer variable as
 a function

---
 skull/shim.ll | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/shim.ll b/skull/shim.ll
index 250f2a9..489c06f 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -1,4 +1,7 @@
-@_float_pow = dso_local global double (double, double)* @pow, align 8
+define dso_local double @_float_pow(double %0, double %1) {
+  %3 = call double @pow(double %0, double %1)
+  ret double %3
+}
 
 define dso_local zeroext i1 @_strcmp(i8* %0, i8* %1) {
   %3 = alloca i1, align 1
-- 
2.43.0


From c543da7c0b4837625e764b8b305b9074e7051cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:02 +0000
Subject: [PATCH 39/46] fix: raising an integer to the power of zero gave the
 base

---
 skull/codegen/c/write.c |  4 ++--
 skull/shim.ll           | 51 ++++++++++++++++++++---------------------
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 27d1de0..8a3df2a 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -119,7 +119,7 @@ static const char *_float_pow = \
 
 static const char *_int_pow = \
 "int64_t _int_pow(int64_t base, int64_t exp) {\n"
-"	int64_t result = base;\n"
-"	for (int64_t i = 1; i < exp; i++) result *= base;\n"
+"	int64_t result = 1;\n"
+"	for (int64_t i = 0; i < exp; i++) result *= base;\n"
 "	return result;\n"
 "}\n";
diff --git a/skull/shim.ll b/skull/shim.ll
index 489c06f..bed70da 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -84,33 +84,32 @@ define dso_local i64 @_int_pow(i64 %0, i64 %1) {
   %6 = alloca i64, align 8
   store i64 %0, i64* %3, align 8
   store i64 %1, i64* %4, align 8
-  %7 = load i64, i64* %3, align 8
-  store i64 %7, i64* %5, align 8
-  store i64 1, i64* %6, align 8
-  br label %8
-
-8:
-  %9 = load i64, i64* %6, align 8
-  %10 = load i64, i64* %4, align 8
-  %11 = icmp slt i64 %9, %10
-  br i1 %11, label %12, label %19
-
-12:
-  %13 = load i64, i64* %3, align 8
-  %14 = load i64, i64* %5, align 8
-  %15 = mul nsw i64 %14, %13
-  store i64 %15, i64* %5, align 8
-  br label %16
+  store i64 1, i64* %5, align 8
+  store i64 0, i64* %6, align 8
+  br label %7
 
-16:
-  %17 = load i64, i64* %6, align 8
-  %18 = add nsw i64 %17, 1
-  store i64 %18, i64* %6, align 8
-  br label %8, !llvm.loop !3
-
-19:
-  %20 = load i64, i64* %5, align 8
-  ret i64 %20
+7:
+  %8 = load i64, i64* %6, align 8
+  %9 = load i64, i64* %4, align 8
+  %10 = icmp slt i64 %8, %9
+  br i1 %10, label %11, label %18
+
+11:
+  %12 = load i64, i64* %3, align 8
+  %13 = load i64, i64* %5, align 8
+  %14 = mul nsw i64 %13, %12
+  store i64 %14, i64* %5, align 8
+  br label %15
+
+15:
+  %16 = load i64, i64* %6, align 8
+  %17 = add nsw i64 %16, 1
+  store i64 %17, i64* %6, align 8
+  br label %7, !llvm.loop !3
+
+18:
+  %19 = load i64, i64* %5, align 8
+  ret i64 %19
 }
 
 !1 = distinct !{!1, !2}
-- 
2.43.0


From a7a0e452ac8a71258d1573ce7d3aff91b0832149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:56 +0000
Subject: [PATCH 40/46] fix: only accept source files whose name ends in .sk

---
 skull/real_main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skull/real_main.c b/skull/real_main.c
index 8552240..ecd7011 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -40,11 +40,13 @@ int real_main(int argc, char *argv[]) {
 Output compiled version of `filename` (file type depends on backend).
 */
 static int compile_file(char *filename) {
-	if (!strrstr(filename, ".sk")) {
+	const char *ext = strrstr(filename, ".sk");
+
+	if (!ext || ext[3]) {
 		DIE("missing required \".sk\" extension, exiting");
 	}
 
-	if (strrstr(filename, ".sk") == filename || strrstr(filename, "/.sk")) {
+	if (ext == filename || ext[-1] == '/') {
 		DIE("\".sk\" is not a valid name, exiting");
 	}
 
-- 
2.43.0


From 046c1f5420802eb1bc00edabd542ba14d95ac33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:56 +0000
Subject: [PATCH 41/46] fix: do not compile the part of a file read before a
 read error

---
 skull/common/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/common/io.c b/skull/common/io.c
index 26692f0..2cab3ca 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -34,7 +34,7 @@ char *file_to_string(FILE *fd) {
 	char *str = Malloc((size_t)len + 1);
 	const size_t read = fread(str, 1, (size_t)len, fd);
 
-	if (!read) {
+	if (!read || ferror(fd)) {
 		if (errno) perror("fread");
 		free(str);
 		return NULL;
-- 
2.43.0


From e3371e64eddbaab2ab54e8e499104e28e869b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:56 +0000
Subject: [PATCH 42/46] fix: look for modules beside a file in the root
 directory

---
 skull/semantic/import.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skull/semantic/import.c b/skull/semantic/import.c
index d64c403..51d808f 100644
--- a/skull/semantic/import.c
+++ b/skull/semantic/import.c
@@ -60,8 +60,9 @@ static char *filename_for_module(char *module_name) {
 static char *current_file_dir(void) {
 	char *directory = strdup(BUILD_DATA.filename);
 	char *slash = strrchr(directory, '/');
-	if (slash && directory != slash) {
-		*slash = '\0';
+	if (slash) {
+		// keep the slash if the file is in the root directory
+		slash[slash == directory] = '\0';
 	}
 	else {
 		directory[0] = '.';
-- 
2.43.0


From 797e7360d50e74616f90d7a5570d0d9b7963c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:57 +0000
Subject: [PATCH 43/46] fix: give assignments their own debug location

---
 skull/codegen/llvm/assign.c | 30 +++++++++++++++++-------------
 skull/codegen/llvm/assign.h |  4 ++--
 skull/codegen/llvm/core.c   |  2 +-
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 484cd23..565cb00 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -17,7 +17,8 @@
 
 static void assign_value_to_var(
 	LLVMValueRef,
-	Symbol *,
+	Variable *,
+	const Location *,
 	const SkullStateLLVM *
 );
 static void setup_var_llvm(LLVMValueRef, Symbol *, const SkullStateLLVM *);
@@ -38,15 +39,19 @@ void gen_stmt_var_def(const AstNodeVarDef *var_def, SkullStateLLVM *state) {
 }
 
 /*
-Assign a to a variable from `var_assign`.
+Assign to a variable from `node`.
 */
-void gen_stmt_var_assign(
-	const AstNodeVarAssign *var_assign,
-	SkullStateLLVM *state
-) {
+void gen_stmt_var_assign(const AstNode *node, SkullStateLLVM *state) {
+	const AstNodeVarAssign *var_assign = node->var_assign;
+
 	LLVMValueRef value = gen_expr(var_assign->expr, state).value;
 
-	assign_value_to_var(value, var_assign->symbol, state);
+	assign_value_to_var(
+		value,
+		var_assign->symbol->var,
+		&node->token->location,
+		state
+	);
 }
 
 static void setup_var_llvm(
@@ -93,19 +98,18 @@ static void setup_var_llvm(
 		);
 	}
 
-	assign_value_to_var(value, symbol, state);
+	assign_value_to_var(value, var, &symbol->location, state);
 }
 
 /*
-Assign `value` to `symbol`.
+Assign `value` to `var`, in a statement at `location`.
 */
 static void assign_value_to_var(
 	LLVMValueRef value,
-	Symbol *symbol,
+	Variable *var,
+	const Location *location,
 	const SkullStateLLVM *state
 ) {
-	Variable *var = symbol->var;
-
 	if (var->is_const && (!var->is_global || LLVMIsConstant(value))) {
 		var->ref = value;
 	}
@@ -117,7 +121,7 @@ static void assign_value_to_var(
 			var->ref
 		);
 
-		add_llvm_debug_info(store, &symbol->location, state);
+		add_llvm_debug_info(store, location, state);
 	}
 }
 
diff --git a/skull/codegen/llvm/assign.h b/skull/codegen/llvm/assign.h
index 34079af..d658ae3 100644
--- a/skull/codegen/llvm/assign.h
+++ b/skull/codegen/llvm/assign.h
@@ -1,9 +1,9 @@
 #pragma once
 
-typedef struct AstNodeVarAssign AstNodeVarAssign;
+typedef struct AstNode AstNode;
 typedef struct AstNodeVarDef AstNodeVarDef;
 
 #include "skull/codegen/llvm/shared.h"
 
 void gen_stmt_var_def(const AstNodeVarDef *, SkullStateLLVM *);
-void gen_stmt_var_assign(const AstNodeVarAssign *, SkullStateLLVM *);
+void gen_stmt_var_assign(const AstNode *, SkullStateLLVM *);
diff --git a/skull/codegen/llvm/core.c b/skull/codegen/llvm/core.c
index b914d5a..82bded3 100644
--- a/skull/codegen/llvm/core.c
+++ b/skull/codegen/llvm/core.c
@@ -46,7 +46,7 @@ static Expr gen_node(const AstNode **node, SkullStateLLVM *state) {
 		case AST_NODE_VAR_DEF:
 			gen_stmt_var_def((*node)->var_def, state); break;
 		case AST_NODE_VAR_ASSIGN:
-			gen_stmt_var_assign((*node)->var_assign, state); break;
+			gen_stmt_var_assign(*node, state); break;
 		case AST_NODE_EXPR:
 			gen_expr_func_call((*node)->expr->lhs.func_call, state); break;
 		case AST_NODE_NOOP:
-- 
2.43.0


From 19fb7cbb4bbd81d1a4c62a33ce03372725d4d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 44/46] fix: describe local constants by value in debug
 information

---
 skull/codegen/llvm/debug.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/skull/codegen/llvm/debug.c b/skull/codegen/llvm/debug.c
index b8c1f2b..7237e84 100644
--- a/skull/codegen/llvm/debug.c
+++ b/skull/codegen/llvm/debug.c
@@ -279,14 +279,36 @@ static void add_llvm_local_var_def_debug_info(
 		8 // alignment
 	);
 
-	LLVMDIBuilderInsertDeclareRecordAtEnd(
-		DEBUG_INFO.builder,
-		symbol->var->ref,
-		di_var,
-		LLVMDIBuilderCreateExpression(DEBUG_INFO.builder, NULL, 0),
-		make_llvm_debug_location(&symbol->location, state),
-		LLVMGetInsertBlock(state->builder)
+	LLVMMetadataRef di_expr = LLVMDIBuilderCreateExpression(
+		DEBUG_INFO.builder, NULL, 0
+	);
+	LLVMMetadataRef di_location = make_llvm_debug_location(
+		&symbol->location,
+		state
 	);
+	LLVMBasicBlockRef block = LLVMGetInsertBlock(state->builder);
+
+	// local constants are values without an address
+	if (symbol->var->is_const) {
+		LLVMDIBuilderInsertDbgValueRecordAtEnd(
+			DEBUG_INFO.builder,
+			symbol->var->ref,
+			di_var,
+			di_expr,
+			di_location,
+			block
+		);
+	}
+	else {
+		LLVMDIBuilderInsertDeclareRecordAtEnd(
+			DEBUG_INFO.builder,
+			symbol->var->ref,
+			di_var,
+			di_expr,
+			di_location,
+			block
+		);
+	}
 }
 
 LLVMMetadataRef add_llvm_control_flow_debug_info(const Location *location) {
-- 
2.43.0


From a63d37141672abd7138cf644f4562e2071610bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:45 +0000
Subject: [PATCH 45/46] fix: generate position independent code, as the linker
 expects

---
 skull/codegen/llvm/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index b078bba..33e6674 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -269,7 +269,7 @@ static bool setup_llvm_target_machine(SkullStateLLVM *state) {
 		cpu,
 		features,
 		LLVMCodeGenLevelDefault,
-		LLVMRelocDefault,
+		LLVMRelocPIC,
 		LLVMCodeModelDefault
 	);
 
-- 
2.43.0


From e07808c0954556e15283901c6aeff0a61540c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 46/46] fix: allocate stack space in loops once per call
 instead of per iteration

---
 skull/codegen/llvm/assign.c |  6 +-----
 skull/codegen/llvm/expr.c   |  6 +-----
 skull/codegen/llvm/flow.c   |  6 +-----
 skull/codegen/llvm/types.c  | 30 ++++++++++++++++++++++++++++++
 skull/codegen/llvm/types.h  |  6 ++++++
 5 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 565cb00..e90652c 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -91,11 +91,7 @@ static void setup_var_llvm(
 		}
 	}
 	else if (requires_alloca_decl(var)) {
-		var->ref = LLVMBuildAlloca(
-			state->builder,
-			type_to_llvm_type(var->type, state),
-			var->linkage_name
-		);
+		var->ref = build_llvm_alloca(var->type, var->linkage_name, state);
 	}
 
 	assign_value_to_var(value, var, &symbol->location, state);
diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 7a910bb..aa10a5e 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -327,11 +327,7 @@ static Expr gen_expr_ref(
 
 	// local constants are values without an address, so give them one
 	if (!var->is_global && var->is_const) {
-		ref = LLVMBuildAlloca(
-			state->builder,
-			type_to_llvm_type(var->type, state),
-			""
-		);
+		ref = build_llvm_alloca(var->type, "", state);
 		LLVMBuildStore(state->builder, var->ref, ref);
 	}
 
diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index 1ad27fb..0206210 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -54,11 +54,7 @@ void gen_stmt_noop(const Location *location, const SkullStateLLVM *state) {
 	LLVMValueRef noop = LLVMBuildStore(
 		state->builder,
 		LLVM_INT(0),
-		LLVMBuildAlloca(
-			state->builder,
-			type_to_llvm_type(&TYPE_INT, state),
-			"noop"
-		)
+		build_llvm_alloca(&TYPE_INT, "noop", state)
 	);
 
 	add_llvm_debug_info(noop, location, state);
diff --git a/skull/codegen/llvm/types.c b/skull/codegen/llvm/types.c
index ac66683..71661a9 100644
--- a/skull/codegen/llvm/types.c
+++ b/skull/codegen/llvm/types.c
@@ -39,6 +39,36 @@ LLVMTypeRef type_to_llvm_type(const Type *type, const SkullStateLLVM *state) {
 	return NULL;
 }
 
+/*
+Allocate stack space for a value of `type`.
+
+The space is only released when the function returns, so for code that is in a
+loop it is allocated on entry to the function, instead of in every iteration.
+*/
+LLVMValueRef build_llvm_alloca(
+	const Type *type,
+	const char *name,
+	const SkullStateLLVM *state
+) {
+	LLVMTypeRef llvm_type = type_to_llvm_type(type, state);
+	LLVMBasicBlockRef block = LLVMGetInsertBlock(state->builder);
+	LLVMBasicBlockRef entry = LLVMGetEntryBasicBlock(
+		LLVMGetBasicBlockParent(block)
+	);
+
+	if (!state->current_while_cond || block == entry) {
+		return LLVMBuildAlloca(state->builder, llvm_type, name);
+	}
+
+	LLVMBuilderRef builder = LLVMCreateBuilderInContext(state->ctx);
+	LLVMPositionBuilder(builder, entry, LLVMGetFirstInstruction(entry));
+
+	LLVMValueRef ref = LLVMBuildAlloca(builder, llvm_type, name);
+	LLVMDisposeBuilder(builder);
+
+	return ref;
+}
+
 LLVMTypeRef type_to_llvm_func_type(
 	const Type *type,
 	LLVMTypeRef *param_types,
diff --git a/skull/codegen/llvm/types.h b/skull/codegen/llvm/types.h
index 29ccb73..d9aff6d 100644
--- a/skull/codegen/llvm/types.h
+++ b/skull/codegen/llvm/types.h
@@ -6,6 +6,12 @@
 
 LLVMTypeRef type_to_llvm_type(const Type *, const SkullStateLLVM *);
 
+LLVMValueRef build_llvm_alloca(
+	const Type *,
+	const char *,
+	const SkullStateLLVM *
+);
+
 LLVMTypeRef type_to_llvm_func_type(
 	const Type *,
 	LLVMTypeRef *,
-- 
2.43.0

