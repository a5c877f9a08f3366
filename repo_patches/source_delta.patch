From 1d712f15adbcc200c054f57588a3e60f00c709fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 01/40] fix: keep every unknown string of an event list

All strings the tree does not know share INVALID_STR, so removing duplicates
by id dropped all but one of them from a caller's event. Searching with the
same event after an expression mentioning a dropped string missed it.
---
 src/value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/value.c b/src/value.c
index a5bdd80..3913a47 100644
--- a/src/value.c
+++ b/src/value.c
@@ -432,7 +432,8 @@ void remove_duplicates_string_list(struct betree_string_list* list)
     }
     size_t r = 0;
     for (size_t i = 1; i < list->count; i++) {
-        if (list->strings[r].str != list->strings[i].str) {
+        // Unknown strings all share one id without being equal
+        if (list->strings[r].str != list->strings[i].str || list->strings[i].str == INVALID_STR) {
             list->strings[++ r] = list->strings[i]; // copy-in next unique number
         }
         else {
-- 
2.43.0


From bfe912d7c0b36bcf043b82521793d3bdbce60a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 02/40] fix: bound a negated conjunction like a disjunction

not (i = 5 and b) is also true when b is false, whatever i is. Its bounds
were computed as if both operands had to hold, which put the expression in a
sub-tree that events outside these bounds never visit.
---
 src/ast.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 22a5266..9d3b050 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1379,7 +1379,9 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                 default: abort();
             }
         case AST_TYPE_BOOL_EXPR:
-            switch(node->bool_expr.op) {
+            // The negation of a conjunction is the disjunction of the negations
+            switch(is_reversed && node->bool_expr.op == AST_BOOL_AND ? AST_BOOL_OR
+                                                                     : node->bool_expr.op) {
                 case AST_BOOL_LITERAL:
                     return;
                 case AST_BOOL_VARIABLE:
-- 
2.43.0


From bc1fe078d7e873126a56d5d87a1b739a8577b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 03/40] fix: swap the short-circuit rules of and/or below a
 negation

not (b or d) was reported as soon as d was undefined, even with b true, and
not (b and d) was not, because the operands were combined with the rules of
the operator itself instead of those of its dual.
---
 src/tree.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f9d4a2b..cd2cff3 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1472,8 +1472,16 @@ static enum short_circuit_e short_circuit_for_node(
             return short_circuit_for_attr_var(id, inverted, node->compare_expr.attr_var);
         case AST_TYPE_EQUALITY_EXPR:
             return short_circuit_for_attr_var(id, inverted, node->equality_expr.attr_var);
-        case AST_TYPE_BOOL_EXPR:
-            switch(node->bool_expr.op) {
+        case AST_TYPE_BOOL_EXPR: {
+            // Below a negation, a conjunction is a disjunction and the other way around
+            enum ast_bool_e op = node->bool_expr.op;
+            if(inverted && op == AST_BOOL_OR) {
+                op = AST_BOOL_AND;
+            }
+            else if(inverted && op == AST_BOOL_AND) {
+                op = AST_BOOL_OR;
+            }
+            switch(op) {
                 case AST_BOOL_LITERAL:
                     return SHORT_CIRCUIT_NONE;
                 case AST_BOOL_OR: {
@@ -1509,6 +1517,7 @@ static enum short_circuit_e short_circuit_for_node(
                 default:
                     abort();
             }
+        }
         case AST_TYPE_SET_EXPR:
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) {
                 return short_circuit_for_attr_var(
-- 
2.43.0


From 197ecedd5943a0e5e1d208be8ad3257f073c2704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 04/40] fix: do not short-circuit frequency caps on an
 undefined now

within_frequency_cap is true for an empty list of caps before now is looked
at, but a missing now made the search skip the expression as false.
---
 src/tree.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index cd2cff3..ee66f73 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1531,17 +1531,10 @@ static enum short_circuit_e short_circuit_for_node(
             return short_circuit_for_attr_var(id, inverted, node->list_expr.attr_var);
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-                case AST_SPECIAL_FREQUENCY: {
-                    enum short_circuit_e frequency = short_circuit_for_attr_var(id, inverted, node->special_expr.frequency.attr_var);
-                    enum short_circuit_e now = short_circuit_for_attr_var(id, inverted, node->special_expr.frequency.now);
-                    if(frequency == SHORT_CIRCUIT_FAIL || now == SHORT_CIRCUIT_FAIL) {
-                        return SHORT_CIRCUIT_FAIL;
-                    }
-                    if(frequency == SHORT_CIRCUIT_PASS && now == SHORT_CIRCUIT_PASS) {
-                        return SHORT_CIRCUIT_PASS;
-                    }
-                    return SHORT_CIRCUIT_NONE;
-                }
+                case AST_SPECIAL_FREQUENCY:
+                    // An undefined now does not decide: it does not matter without caps
+                    return short_circuit_for_attr_var(
+                        id, inverted, node->special_expr.frequency.attr_var);
                 case AST_SPECIAL_SEGMENT: {
                     enum short_circuit_e frequency = short_circuit_for_attr_var(id, inverted, node->special_expr.segment.attr_var);
                     enum short_circuit_e now = short_circuit_for_attr_var(id, inverted, node->special_expr.segment.now);
-- 
2.43.0


From 061e7545f2fa549af269c19158b6549eb5b52e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 05/40] fix: move the subscription itself, not one with the
 same id

Splitting a node removed the first subscription with the id from the old node,
so with an id inserted twice one subscription was lost and the other stored
(and freed) twice.
---
 src/tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index ee66f73..14b46e4 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -494,11 +494,11 @@ bool sub_has_attribute_str(struct config* config, const struct betree_sub* sub,
     return sub_has_attribute(sub, variable_id);
 }
 
-static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
+static bool remove_sub(const struct betree_sub* sub, struct lnode* lnode)
 {
     for(size_t i = 0; i < lnode->sub_count; i++) {
         const struct betree_sub* lnode_sub = lnode->subs[i];
-        if(sub == lnode_sub->id) {
+        if(sub == lnode_sub) {
             for(size_t j = i; j < lnode->sub_count - 1; j++) {
                 lnode->subs[j] = lnode->subs[j + 1];
             }
@@ -523,7 +523,7 @@ static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
 
 static void move(const struct betree_sub* sub, struct lnode* origin, struct lnode* destination)
 {
-    bool isFound = remove_sub(sub->id, origin);
+    bool isFound = remove_sub(sub, origin);
     if(!isFound) {
         fprintf(stderr, "Could not find sub %" PRIu64 "\n", sub->id);
         abort();
-- 
2.43.0


From 32b116f2972c0ec983515b7c5e1434fc85ae8c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 06/40] fix: let betree_exists refuse events lacking a required
 variable

betree_search refuses such events; betree_exists answered from whatever
expressions happen not to need the variable.
---
 src/betree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index acf6a28..e688ccd 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -570,6 +570,11 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
 static bool betree_exists_with_event_filled(const struct betree* betree, struct betree_event* event)
 {
     const struct betree_variable** variables = make_environment(betree->config->attr_domain_count, event);
+    if(validate_variables(betree->config, variables) == false) {
+        fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
+        return false;
+    }
     return betree_exists_with_preds(betree->config, variables, betree->cnode);
 }
 
-- 
2.43.0


From 5a9db97d7aa23fb0df771ad0d43f8706433c1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 07/40] fix: release memory when a search or an insertion is
 refused

A search with an event lacking a required variable leaked its table of
variables, an insertion lacking a constant leaked the expression.
---
 src/betree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index e688ccd..8329d82 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -491,6 +491,7 @@ bool betree_insert_with_constants(struct betree* tree,
     }
     if(!assign_constants(constant_count, constants, node)) {
         fprintf(stderr, "Can't assign constants %ld\n", id);
+        free_ast_node(node);
         return false;
     }
     assign_str_id(tree->config, node, false);
@@ -562,6 +563,7 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
         = make_environment(betree->config->attr_domain_count, event);
     if(validate_variables(betree->config, variables) == false) {
         fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
         return false;
     }
     return betree_search_with_preds(betree->config, variables, betree->cnode, report);
-- 
2.43.0


From 2cd3bb1469889cf169d5adc6010efef85a17a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 08/40] fix: split float domains of any width

Splitting a node of a float variable aborted for every width below 2 other
than 1, so a range such as 3 to 3.5 ended the process, and converted widths
beyond 2^64 to an integer to decide whether to split at all. Parts too narrow
for a step of 1, or where floats are too coarse for one, are left whole.
---
 src/tree.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 14b46e4..fd3f9a9 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -729,8 +729,8 @@ static bool splitable_attr_domain(
             if(feq(attr_domain->bound.fmin, -DBL_MAX) || feq(attr_domain->bound.fmax, DBL_MAX)) {
                 return false;
             }
-            return ((uint64_t)fabs(attr_domain->bound.fmax - attr_domain->bound.fmin))
-                < config->max_domain_for_split;
+            return fabs(attr_domain->bound.fmax - attr_domain->bound.fmin)
+                < (double)config->max_domain_for_split;
         case BETREE_BOOLEAN:
             return true;
         case BETREE_STRING:
@@ -835,6 +835,9 @@ static void space_partitioning(const struct config* config, struct cnode* cnode)
     update_cluster_capacity(config, lnode);
 }
 
+// From 2^53 on, not all integers have a float
+#define MAX_EXACT_FLOAT 9007199254740992.
+
 static bool is_atomic(const struct cdir* cdir)
 {
     switch(cdir->bound.value_type) {
@@ -842,7 +845,10 @@ static bool is_atomic(const struct cdir* cdir)
         case(BETREE_INTEGER_LIST):
             return cdir->bound.imin == cdir->bound.imax;
         case(BETREE_FLOAT): {
-            return feq(cdir->bound.fmin, cdir->bound.fmax);
+            // Floats are split in steps of 1, which needs room for one and the precision for it
+            double width = cdir->bound.fmax - cdir->bound.fmin;
+            return (width < 1 && fne(width, 1)) || fabs(cdir->bound.fmin) >= MAX_EXACT_FLOAT
+                || fabs(cdir->bound.fmax) >= MAX_EXACT_FLOAT;
         }
         case(BETREE_BOOLEAN): {
             return cdir->bound.bmin == cdir->bound.bmax;
@@ -934,15 +940,15 @@ static struct value_bounds split_value_bound(struct value_bound bound)
                 lbound.fmax = middle;
                 rbound.fmin = middle;
             }
-            else if(feq(fabs(end - start), 2)) {
-                double middle = start + 1;
-                lbound.fmax = middle;
-                rbound.fmin = middle;
-            }
             else if(feq(fabs(end - start), 1)) {
                 lbound.fmax = start;
                 rbound.fmin = end;
             }
+            else if(fabs(end - start) > 1) {
+                double middle = start + 1;
+                lbound.fmax = middle;
+                rbound.fmin = middle;
+            }
             else {
                 fprintf(stderr, "%s trying to split an unsplitable bound\n", __func__);
                 abort();
-- 
2.43.0


From 29f8bf7d99b257dec49132ee6fb3f06ccd794c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 09/40] fix: compute the width of integer domains without
 overflow

For a domain such as INT64_MIN + 1 to INT64_MAX - 1 the signed difference
wrapped around to a small number, so the domain was taken for a narrow one and
split, which never ended in narrower parts.
---
 src/tree.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index fd3f9a9..d3196e0 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -341,6 +341,13 @@ static size_t count_attr_in_cdir(betree_var_t variable_id, const struct cdir* cd
     return count;
 }
 
+static uint64_t integer_width(const struct value_bound* bound)
+{
+    // The difference may not fit in an int64_t
+    return bound->imax >= bound->imin ? (uint64_t)bound->imax - (uint64_t)bound->imin
+                                      : (uint64_t)bound->imin - (uint64_t)bound->imax;
+}
+
 static size_t domain_bound_diff(const struct attr_domain* attr_domain)
 {
     const struct value_bound* b = &attr_domain->bound;
@@ -353,7 +360,7 @@ static size_t domain_bound_diff(const struct attr_domain* attr_domain)
                 return SIZE_MAX;
             }
             else {
-                return (size_t)(llabs(b->imax - b->imin));
+                return integer_width(b);
             }
         case BETREE_FLOAT:
             if(feq(b->fmin, -DBL_MAX) && feq(b->fmax, DBL_MAX)) {
@@ -723,8 +730,7 @@ static bool splitable_attr_domain(
             if(attr_domain->bound.imin == INT64_MIN || attr_domain->bound.imax == INT64_MAX) {
                 return false;
             }
-            return ((uint64_t)llabs(attr_domain->bound.imax - attr_domain->bound.imin))
-                < config->max_domain_for_split;
+            return integer_width(&attr_domain->bound) < config->max_domain_for_split;
         case BETREE_FLOAT:
             if(feq(attr_domain->bound.fmin, -DBL_MAX) || feq(attr_domain->bound.fmax, DBL_MAX)) {
                 return false;
-- 
2.43.0


From 848e84fb908f218e16f3776003439aa824c07d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 10/40] fix: look for float values in every part they may
 compare equal in

f = 2.0 holds for values less than an epsilon away from 2.0, but an event with
such a value on the other side of a split point never reached the expression.
---
 src/tree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index d3196e0..94e6f1e 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -152,7 +152,9 @@ static bool is_event_enclosed(const struct betree_variable** preds, const struct
         case BETREE_INTEGER:
             return (open_left || cdir->bound.imin <= pred->value.integer_value) && (open_right || cdir->bound.imax >= pred->value.integer_value);
         case BETREE_FLOAT:
-            return (open_left || cdir->bound.fmin <= pred->value.float_value) && (open_right || cdir->bound.fmax >= pred->value.float_value);
+            // Equality of floats is up to an epsilon, and so must be looking for it
+            return (open_left || cdir->bound.fmin <= pred->value.float_value + __DBL_EPSILON__)
+                && (open_right || cdir->bound.fmax >= pred->value.float_value - __DBL_EPSILON__);
         case BETREE_STRING:
             return (cdir->bound.smin <= pred->value.string_value.str) && (open_right || cdir->bound.smax >= pred->value.string_value.str);
         case BETREE_INTEGER_ENUM:
-- 
2.43.0


From 553694a8b2f5cc13737bc4585ea8c5169c5109e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 11/40] fix: check the variables of special expressions, refuse
 sets without a variable

---
 src/ast.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 9d3b050..010bc2d 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2552,6 +2552,11 @@ bool is_list_type(enum betree_value_type_e type) {
     return type == BETREE_INTEGER_LIST || type == BETREE_STRING_LIST;
 }
 
+static bool is_variable_of_type(const struct config* config, struct attr_var attr_var, enum betree_value_type_e type)
+{
+    return config->attr_domains[attr_var.var]->bound.value_type == type;
+}
+
 bool all_exprs_valid(const struct config* config, const struct ast_node* node)
 {
     switch(node->type) {
@@ -2617,11 +2622,17 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
                 case AST_SPECIAL_FREQUENCY:
-                    return node->special_expr.frequency.type != FREQUENCY_TYPE_INVALID;
+                    return node->special_expr.frequency.type != FREQUENCY_TYPE_INVALID
+                        && is_variable_of_type(config, node->special_expr.frequency.attr_var, BETREE_FREQUENCY_CAPS)
+                        && is_variable_of_type(config, node->special_expr.frequency.now, BETREE_INTEGER);
                 case AST_SPECIAL_SEGMENT:
+                    return is_variable_of_type(config, node->special_expr.segment.attr_var, BETREE_SEGMENTS)
+                        && is_variable_of_type(config, node->special_expr.segment.now, BETREE_INTEGER);
                 case AST_SPECIAL_GEO:
+                    return is_variable_of_type(config, node->special_expr.geo.latitude_var, BETREE_FLOAT)
+                        && is_variable_of_type(config, node->special_expr.geo.longitude_var, BETREE_FLOAT);
                 case AST_SPECIAL_STRING:
-                    return true;
+                    return is_variable_of_type(config, node->special_expr.string.attr_var, BETREE_STRING);
                 default: abort();
             }
         default: abort();
@@ -2654,12 +2665,13 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
             else if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE) {
                 return is_variable_valid(node->set_expr.right_value.variable_value);
             }
-            fprintf(stderr, "Invalid set expr");
-            abort();
+            fprintf(stderr, "Invalid set expr\n");
             return false;
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-                case AST_SPECIAL_GEO: return true;
+                case AST_SPECIAL_GEO:
+                    return is_variable_valid(node->special_expr.geo.latitude_var)
+                        && is_variable_valid(node->special_expr.geo.longitude_var);
                 case AST_SPECIAL_STRING: return is_variable_valid(node->special_expr.string.attr_var);
                 case AST_SPECIAL_FREQUENCY:
                     return is_variable_valid(node->special_expr.frequency.attr_var)
-- 
2.43.0


From 0882b09cdfda9376a8f491ba4ede7e8761a65d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 12/40] fix: refuse ill-typed expressions on direct insertion

---
 src/ast.c    | 23 +++++++++++++++++------
 src/ast.h    |  1 +
 src/betree.c |  5 +++++
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 010bc2d..a923034 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2557,14 +2557,15 @@ static bool is_variable_of_type(const struct config* config, struct attr_var att
     return config->attr_domains[attr_var.var]->bound.value_type == type;
 }
 
-bool all_exprs_valid(const struct config* config, const struct ast_node* node)
+static bool expr_types_valid(const struct config* config, const struct ast_node* node, bool allow_required_null)
 {
     switch(node->type) {
         case AST_TYPE_IS_NULL_EXPR: {
             const struct attr_domain* attr_domain = config->attr_domains[node->is_null_expr.attr_var.var];
             enum betree_value_type_e var_type = attr_domain->bound.value_type;
-            return (node->is_null_expr.type == AST_IS_NULL && attr_domain->allow_undefined)
-                || (node->is_null_expr.type == AST_IS_NOT_NULL && attr_domain->allow_undefined)
+            bool may_be_null = attr_domain->allow_undefined || allow_required_null;
+            return (node->is_null_expr.type == AST_IS_NULL && may_be_null)
+                || (node->is_null_expr.type == AST_IS_NOT_NULL && may_be_null)
                 || (node->is_null_expr.type == AST_IS_EMPTY && is_list_type(var_type));
         }
         case AST_TYPE_COMPARE_EXPR: {
@@ -2597,10 +2598,10 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
                     return true;
                 case AST_BOOL_OR:
                 case AST_BOOL_AND:
-                    return all_exprs_valid(config, node->bool_expr.binary.lhs)
-                        && all_exprs_valid(config, node->bool_expr.binary.rhs);
+                    return expr_types_valid(config, node->bool_expr.binary.lhs, allow_required_null)
+                        && expr_types_valid(config, node->bool_expr.binary.rhs, allow_required_null);
                 case AST_BOOL_NOT:
-                    return all_exprs_valid(config, node->bool_expr.unary.expr);
+                    return expr_types_valid(config, node->bool_expr.unary.expr, allow_required_null);
                 default: abort();
             }
         }
@@ -2639,6 +2640,16 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
     }
 }
 
+bool all_exprs_valid(const struct config* config, const struct ast_node* node)
+{
+    return expr_types_valid(config, node, false);
+}
+
+bool all_expr_types_valid(const struct config* config, const struct ast_node* node)
+{
+    return expr_types_valid(config, node, true);
+}
+
 bool all_variables_in_config(const struct config* config, const struct ast_node* node)
 {
     switch(node->type) {
diff --git a/src/ast.h b/src/ast.h
index acda1a8..a5b947e 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -342,3 +342,4 @@ bool fast_eq_expr(const struct ast_node* a, const struct ast_node* b);
 bool all_variables_in_config(const struct config* config, const struct ast_node* node);
 bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node);
 bool all_exprs_valid(const struct config* config, const struct ast_node* node);
+bool all_expr_types_valid(const struct config* config, const struct ast_node* node);
diff --git a/src/betree.c b/src/betree.c
index 8329d82..6ac080e 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -498,6 +498,11 @@ bool betree_insert_with_constants(struct betree* tree,
     assign_ienum_id(tree->config, node, false);
     sort_lists(node);
     fix_float_with_no_fractions(tree->config, node);
+    if(!all_expr_types_valid(tree->config, node)) {
+        fprintf(stderr, "Invalid expression %ld\n", id);
+        free_ast_node(node);
+        return false;
+    }
     assign_pred_id(tree->config, node);
     struct betree_sub* sub = make_sub(tree->config, id, node);
     return insert_be_tree(tree->config, sub, tree->cnode, NULL);
-- 
2.43.0


From 8fd54381fe5cfb0b3c58b94043e9fda876285e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 13/40] fix: validate expressions before registering their
 strings and boundaries

---
 src/ast.c    |  3 ++-
 src/betree.c | 14 +++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index a923034..a5bcdc4 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2580,7 +2580,8 @@ static bool expr_types_valid(const struct config* config, const struct ast_node*
             return (var_type == BETREE_STRING && val_type == AST_EQUALITY_VALUE_STRING)
                 || (var_type == BETREE_FLOAT && val_type == AST_EQUALITY_VALUE_FLOAT)
                 || (var_type == BETREE_INTEGER && val_type == AST_EQUALITY_VALUE_INTEGER)
-                || (var_type == BETREE_INTEGER_ENUM && val_type == AST_EQUALITY_VALUE_INTEGER_ENUM);
+                || (var_type == BETREE_INTEGER_ENUM
+                    && (val_type == AST_EQUALITY_VALUE_INTEGER || val_type == AST_EQUALITY_VALUE_INTEGER_ENUM));
         }
         case AST_TYPE_LIST_EXPR: {
             enum betree_value_type_e var_type = config->attr_domains[node->list_expr.attr_var.var]->bound.value_type;
diff --git a/src/betree.c b/src/betree.c
index 6ac080e..05811bd 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -463,10 +463,18 @@ bool betree_change_boundaries(struct betree* tree, const char* expr)
         return false;
     }
     assign_variable_id(tree->config, node);
+    if(!all_variables_in_config(tree->config, node)) {
+        free_ast_node(node);
+        return false;
+    }
+    fix_float_with_no_fractions(tree->config, node);
+    if(!all_expr_types_valid(tree->config, node)) {
+        free_ast_node(node);
+        return false;
+    }
     assign_str_id(tree->config, node, true);
     assign_ienum_id(tree->config, node, true);
     sort_lists(node);
-    fix_float_with_no_fractions(tree->config, node);
     change_boundaries(tree->config, node);
     free_ast_node(node);
     return true;
@@ -521,8 +529,6 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
         free_ast_node(node);
         return NULL;
     }
-    assign_str_id(tree->config, node, true);
-    assign_ienum_id(tree->config, node, true);
     fix_float_with_no_fractions(tree->config, node);
     if(!all_exprs_valid(tree->config, node)) {
         fprintf(stderr, "Invalid expression found\n");
@@ -534,6 +540,8 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
         free_ast_node(node);
         return NULL;
     }
+    assign_str_id(tree->config, node, true);
+    assign_ienum_id(tree->config, node, true);
     sort_lists(node);
     change_boundaries(tree->config, node);
     assign_pred_id(tree->config, node);
-- 
2.43.0


From bd54dc75c2baf58c7d052525f68a6d0595479f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 14/40] fix: do not limit the number of frequency cap
 namespaces

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 0a9ec96..9a8a35e 100644
--- a/src/config.c
+++ b/src/config.c
@@ -194,7 +194,7 @@ void add_attr_domain_segments(struct config* config, const char* attr, bool allo
 
 void add_attr_domain_frequency(struct config* config, const char* attr, bool allow_undefined)
 {
-    struct value_bound bound = { .value_type = BETREE_FREQUENCY_CAPS };
+    struct value_bound bound = { .value_type = BETREE_FREQUENCY_CAPS, .smin = 0, .smax = SIZE_MAX - 1 };
     add_attr_domain(config, attr, bound, allow_undefined);
 }
 
-- 
2.43.0


From 35a128ac491a1be1698fb4369622193c576b0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 15/40] fix: count the distinct values of the whole expression
 against the capacity

---
 src/ast.c | 163 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 84 insertions(+), 79 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index a5bcdc4..600aa57 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2697,108 +2697,111 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
     }
 }
 
-static size_t get_attr_string_bound(const struct config* config, const char* attr)
-{
-    for(size_t i = 0; i < config->attr_domain_count; i++) {
-        if(strcmp(attr, config->attr_domains[i]->attr_var.attr) == 0) {
-            size_t count = config->attr_domains[i]->bound.smax;
-            if(count == SIZE_MAX) {
-                return count;
-            }
-            return count + 1;
-        }
-    }
-    return SIZE_MAX;
-}
+// The distinct values an expression would add to the variables with a limited number of values
+struct new_value {
+    betree_var_t var;
+    const char* string;
+    int64_t integer;
+};
+
+struct new_values {
+    size_t count;
+    struct new_value* values;
+};
 
-static struct string_map* get_string_map_for_attr(const struct config* config, const char* attr)
+static size_t used_values(const struct config* config, betree_var_t var)
 {
     for(size_t i = 0; i < config->string_map_count; i++) {
-        struct string_map* string_map = &config->string_maps[i];
-        if(strcmp(attr, string_map->attr_var.attr) == 0) {
-            return string_map;
+        if(config->string_maps[i].attr_var.var == var) {
+            return config->string_maps[i].string_value_count;
         }
     }
-    return NULL;
+    for(size_t i = 0; i < config->integer_map_count; i++) {
+        if(config->integer_maps[i].attr_var.var == var) {
+            return config->integer_maps[i].integer_value_count;
+        }
+    }
+    return 0;
 }
 
-static bool str_valid(const struct config* config, const char* attr, const char* string)
+// string is NULL for integer enums
+static bool value_fits(const struct config* config, struct new_values* added, struct attr_var attr_var, const char* string, int64_t integer)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    if(string_map != NULL) {
-        betree_str_t* str = map_get(&string_map->m, string);
-        if(str != NULL) {
+    const struct attr_domain* attr_domain = config->attr_domains[attr_var.var];
+    if(attr_domain->bound.smax == SIZE_MAX - 1) {
+        return true;
+    }
+    bool is_known = string != NULL
+        ? try_get_id_for_string(config, attr_var, string) != INVALID_STR
+        : try_get_id_for_ienum(config, attr_var, integer) != INVALID_IENUM;
+    if(is_known) {
+        return true;
+    }
+    size_t used = used_values(config, attr_var.var);
+    for(size_t i = 0; i < added->count; i++) {
+        const struct new_value* value = &added->values[i];
+        if(value->var != attr_var.var) {
+            continue;
+        }
+        if(string != NULL ? strcmp(value->string, string) == 0 : value->integer == integer) {
             return true;
         }
+        used++;
     }
-    bool within_bound = space_left > 0;
-    if(within_bound == false) {
-        fprintf(stderr,
-            "For attr '%s', string '%s' could not fit within the bound %zu\n",
-            attr,
-            string,
-            bound);
+    // smax is the highest id, so that no value at all is SIZE_MAX
+    size_t bound = attr_domain->bound.smax + 1;
+    if(used >= bound) {
+        fprintf(stderr, "For attr '%s', a value could not fit within the bound %zu\n", attr_var.attr, bound);
+        return false;
     }
-    return within_bound;
+    struct new_value* values = brealloc(added->values, sizeof(*values) * (added->count + 1));
+    if(values == NULL) {
+        fprintf(stderr, "%s brealloc failed\n", __func__);
+        abort();
+    }
+    added->values = values;
+    added->values[added->count].var = attr_var.var;
+    added->values[added->count].string = string;
+    added->values[added->count].integer = integer;
+    added->count++;
+    return true;
 }
 
-static bool strs_valid(
-    const struct config* config, const char* attr, const struct betree_string_list* strings)
+static bool strs_fit(const struct config* config, struct new_values* added, struct attr_var attr_var, const struct betree_string_list* strings)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    if(bound == SIZE_MAX) {
-        return true;
-    }
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    size_t found = 0;
-    if(string_map != NULL) {
-        for(size_t i = 0; i < strings->count; i++) {
-            const char* string = strings->strings[i].string;
-            betree_str_t* str = map_get(&string_map->m, string);
-            if(str != NULL) {
-                found++;
-            }
+    for(size_t i = 0; i < strings->count; i++) {
+        if(!value_fits(config, added, attr_var, strings->strings[i].string, 0)) {
+            return false;
         }
     }
-    size_t needed = strings->count - found;
-    bool within_bound = space_left >= needed;
-    if(within_bound == false) {
-        fprintf(stderr,
-            "For attr '%s', not all strings could not fit within the bound %zu\n",
-            attr,
-            bound);
-    }
-    return within_bound;
+    return true;
 }
 
-bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+static bool values_fit(const struct config* config, struct new_values* added, const struct ast_node* node)
 {
     switch(node->type) {
         case AST_TYPE_IS_NULL_EXPR:
         case AST_TYPE_COMPARE_EXPR:
             return true;
-        case AST_TYPE_EQUALITY_EXPR:
+        case AST_TYPE_EQUALITY_EXPR: {
+            struct attr_var attr_var = node->equality_expr.attr_var;
             if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_STRING) {
-                return str_valid(config,
-                    node->equality_expr.attr_var.attr,
-                    node->equality_expr.value.string_value.string);
+                return value_fits(config, added, attr_var, node->equality_expr.value.string_value.string, 0);
+            }
+            if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_INTEGER
+                && config->attr_domains[attr_var.var]->bound.value_type == BETREE_INTEGER_ENUM) {
+                return value_fits(config, added, attr_var, NULL, node->equality_expr.value.integer_value);
             }
             return true;
+        }
         case AST_TYPE_BOOL_EXPR:
             switch(node->bool_expr.op) {
                 case AST_BOOL_OR:
-                case AST_BOOL_AND: {
-                    bool lhs = all_bounded_strings_valid(config, node->bool_expr.binary.lhs);
-                    if(lhs == false) {
-                        return false;
-                    }
-                    return all_bounded_strings_valid(config, node->bool_expr.binary.rhs);
-                }
+                case AST_BOOL_AND:
+                    return values_fit(config, added, node->bool_expr.binary.lhs)
+                        && values_fit(config, added, node->bool_expr.binary.rhs);
                 case AST_BOOL_NOT:
-                    return all_bounded_strings_valid(config, node->bool_expr.unary.expr);
+                    return values_fit(config, added, node->bool_expr.unary.expr);
                 case AST_BOOL_VARIABLE:
                 case AST_BOOL_LITERAL:
                     return true;
@@ -2807,21 +2810,16 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
         case AST_TYPE_SET_EXPR:
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE
                 && node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) {
-                return strs_valid(config,
-                    node->set_expr.left_value.variable_value.attr,
-                    node->set_expr.right_value.string_list_value);
+                return strs_fit(config, added, node->set_expr.left_value.variable_value, node->set_expr.right_value.string_list_value);
             }
             if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE
                 && node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) {
-                return str_valid(config,
-                    node->set_expr.right_value.variable_value.attr,
-                    node->set_expr.left_value.string_value.string);
+                return value_fits(config, added, node->set_expr.right_value.variable_value, node->set_expr.left_value.string_value.string, 0);
             }
             return true;
         case AST_TYPE_LIST_EXPR:
             if(node->list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST) {
-                return strs_valid(
-                    config, node->list_expr.attr_var.attr, node->list_expr.value.string_list_value);
+                return strs_fit(config, added, node->list_expr.attr_var, node->list_expr.value.string_list_value);
             }
             return true;
         case AST_TYPE_SPECIAL_EXPR:
@@ -2830,3 +2828,10 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
     }
 }
 
+bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+{
+    struct new_values added = { .count = 0, .values = NULL };
+    bool result = values_fit(config, &added, node);
+    bfree(added.values);
+    return result;
+}
-- 
2.43.0


From 5e6859f1e54bc7e23b65b399cfee2c6c9b44641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 16/40] fix: split floats only where a split point lies inside
 the range

---
 src/tree.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 94e6f1e..2b2f7ae 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -843,8 +843,11 @@ static void space_partitioning(const struct config* config, struct cnode* cnode)
     update_cluster_capacity(config, lnode);
 }
 
-// From 2^53 on, not all integers have a float
-#define MAX_EXACT_FLOAT 9007199254740992.
+static double float_middle(double start, double end)
+{
+    double width = end - start;
+    return start + (width > 2 ? ceil(width / 2) : 1);
+}
 
 static bool is_atomic(const struct cdir* cdir)
 {
@@ -853,10 +856,10 @@ static bool is_atomic(const struct cdir* cdir)
         case(BETREE_INTEGER_LIST):
             return cdir->bound.imin == cdir->bound.imax;
         case(BETREE_FLOAT): {
-            // Floats are split in steps of 1, which needs room for one and the precision for it
-            double width = cdir->bound.fmax - cdir->bound.fmin;
-            return (width < 1 && fne(width, 1)) || fabs(cdir->bound.fmin) >= MAX_EXACT_FLOAT
-                || fabs(cdir->bound.fmax) >= MAX_EXACT_FLOAT;
+            // Floats are split in steps of 1, unless there is no room or no precision for it
+            double start = cdir->bound.fmin, end = cdir->bound.fmax;
+            double middle = float_middle(start, end);
+            return fne(end - start, 1) && (middle <= start || middle >= end);
         }
         case(BETREE_BOOLEAN): {
             return cdir->bound.bmin == cdir->bound.bmax;
@@ -943,24 +946,15 @@ static struct value_bounds split_value_bound(struct value_bound bound)
             double start = bound.fmin, end = bound.fmax;
             lbound.fmin = start;
             rbound.fmax = end;
-            if(fabs(end - start) > 2) {
-                double middle = start + ceil((end - start) / 2);
-                lbound.fmax = middle;
-                rbound.fmin = middle;
-            }
-            else if(feq(fabs(end - start), 1)) {
+            if(feq(end - start, 1)) {
                 lbound.fmax = start;
                 rbound.fmin = end;
             }
-            else if(fabs(end - start) > 1) {
-                double middle = start + 1;
+            else {
+                double middle = float_middle(start, end);
                 lbound.fmax = middle;
                 rbound.fmin = middle;
             }
-            else {
-                fprintf(stderr, "%s trying to split an unsplitable bound\n", __func__);
-                abort();
-            }
             break;
         }
         case(BETREE_BOOLEAN): {
-- 
2.43.0


From 14f64bcddc2e198d26b06a54f9e0847679431ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 17/40] fix: learn bounds at the limits of integers without
 overflow

---
 src/betree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/betree.c b/src/betree.c
index 05811bd..1451bf4 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -189,9 +189,9 @@ static struct value_bound compare_simple_bound(struct compare_value value, enum
         case AST_COMPARE_VALUE_INTEGER: {
             int64_t i = value.integer_value;
             switch(op) {
-                case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(i - 1);
+                case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(i == INT64_MIN ? i : i - 1);
                 case AST_COMPARE_LE: return inverted ? compare_simple_bound(value, AST_COMPARE_GT, false) : integer_bound(i);
-                case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(i + 1);
+                case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(i == INT64_MAX ? i : i + 1);
                 case AST_COMPARE_GE: return inverted ? compare_simple_bound(value, AST_COMPARE_LT, false) : integer_bound(i);
                 default: abort();
             }
-- 
2.43.0


From cd59bf3eb77eff4ea856e97334333cd85a0bfc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 18/40] fix: drop repeated values from the lists of an
 expression

---
 src/ast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 600aa57..8458871 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2492,10 +2492,10 @@ void sort_lists(struct ast_node* node)
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) {
                 switch(node->set_expr.right_value.value_type) {
                     case AST_SET_RIGHT_VALUE_INTEGER_LIST:
-                        sort_integer_list(node->set_expr.right_value.integer_list_value);
+                        sort_and_remove_duplicate_integer_list(node->set_expr.right_value.integer_list_value);
                         return;
                     case AST_SET_RIGHT_VALUE_STRING_LIST:
-                        sort_string_list(node->set_expr.right_value.string_list_value);
+                        sort_and_remove_duplicate_string_list(node->set_expr.right_value.string_list_value);
                         return;
                     case AST_SET_RIGHT_VALUE_VARIABLE:
                         return;
@@ -2509,10 +2509,10 @@ void sort_lists(struct ast_node* node)
         case AST_TYPE_LIST_EXPR:
             switch(node->list_expr.value.value_type) {
                 case AST_LIST_VALUE_INTEGER_LIST:
-                    sort_integer_list(node->list_expr.value.integer_list_value);
+                    sort_and_remove_duplicate_integer_list(node->list_expr.value.integer_list_value);
                     return;
                 case AST_LIST_VALUE_STRING_LIST:
-                    sort_string_list(node->list_expr.value.string_list_value);
+                    sort_and_remove_duplicate_string_list(node->list_expr.value.string_list_value);
                     return;
                 default: abort();
             }
-- 
2.43.0


From 1236f0664a3b3090461730a6ca7fb7888bfc7004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 19/40] fix: keep learned boundaries apart from unknown ones

---
 src/betree.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index 1451bf4..1387aa0 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -372,6 +372,24 @@ static bool get_simple_variable_bound(betree_var_t var, const struct ast_node* n
     return false;
 }
 
+// The limits of a type stand for an unknown boundary, a learned one stays inside them
+static int64_t learned_integer(int64_t value)
+{
+    if(value == INT64_MIN) {
+        return INT64_MIN + 1;
+    }
+    if(value == INT64_MAX) {
+        return INT64_MAX - 1;
+    }
+    return value;
+}
+
+static double learned_float(double value)
+{
+    const double limit = DBL_MAX * (1 - __DBL_EPSILON__);
+    return fmax(-limit, fmin(limit, value));
+}
+
 static void change_boundaries(struct config* config, const struct ast_node* node) 
 {
     // Use function to extract boundaries, THEN apply them to the config
@@ -392,6 +410,8 @@ static void change_boundaries(struct config* config, const struct ast_node* node
                 break;
             case BETREE_INTEGER:
             case BETREE_INTEGER_LIST:
+                bound.imin = learned_integer(bound.imin);
+                bound.imax = learned_integer(bound.imax);
                 if(attr_domain->bound.imin != INT64_MIN) {
                     attr_domain->bound.imin = bound.imin < attr_domain->bound.imin ? bound.imin : attr_domain->bound.imin;
                 }
@@ -406,6 +426,8 @@ static void change_boundaries(struct config* config, const struct ast_node* node
                 }
                 break;
             case BETREE_FLOAT:
+                bound.fmin = learned_float(bound.fmin);
+                bound.fmax = learned_float(bound.fmax);
                 if(fne(attr_domain->bound.fmin, -DBL_MAX)) {
                     attr_domain->bound.fmin = bound.fmin < attr_domain->bound.fmin ? bound.fmin : attr_domain->bound.fmin;
                 }
-- 
2.43.0


From 306f64ec6c831fdca9406659506fceaddf1bb254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 20/40] fix: do not truncate the seconds of segment predicates

---
 src/special.c | 4 ++--
 src/special.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/special.c b/src/special.c
index 5192ae6..3c930fd 100644
--- a/src/special.c
+++ b/src/special.c
@@ -40,7 +40,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
 }
 
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id < segment_id) {
@@ -55,7 +55,7 @@ bool segment_within(
 }
 
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id < segment_id) {
diff --git a/src/special.h b/src/special.h
index 688aa9c..e1fd560 100644
--- a/src/special.h
+++ b/src/special.h
@@ -14,9 +14,9 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     size_t length,
     int64_t now);
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now);
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now);
 bool geo_within_radius(double lat1, double lon1, double lat2, double lon2, double distance);
 bool contains(const char* value, const char* pattern);
 bool starts_with(const char* value, const char* pattern);
-- 
2.43.0


From e3f8a1e4443a8540df711343f5bc42e6b47d6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 21/40] fix: refuse expressions with unknown characters

---
 src/lexer.c | 2 +-
 src/lexer.l | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 9661314..23ff03e 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -1304,7 +1304,7 @@ SAVE_FLOAT; return TFLOAT;
 case 39:
 YY_RULE_SETUP
 #line 73 "src/lexer.l"
-printf("Unknown token! (%s)\n", yytext); yyterminate();
+printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
diff --git a/src/lexer.l b/src/lexer.l
index 60b5e95..fd5f3b3 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -70,7 +70,7 @@
 [a-zA-Z_][a-zA-Z0-9_-]*     SAVE_IDENTIFIER; return TIDENTIFIER;
 [0-9]+                      SAVE_INTEGER; return TINTEGER;
 [0-9]+\.[0-9]*              SAVE_FLOAT; return TFLOAT;
-.                           printf("Unknown token! (%s)\n", yytext); yyterminate();
+.                           printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
 
 %%
 
-- 
2.43.0


From 1b54cda22cf98d561ac9ba9cf7763770c0f43925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 22/40] fix: read not before a name that starts with in

---
 src/lexer.c | 265 ++++++++++++++++++++++++++--------------------------
 src/lexer.h |   2 +-
 src/lexer.l |   1 +
 3 files changed, 137 insertions(+), 131 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 23ff03e..bcdafee 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -561,8 +561,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 40
-#define YY_END_OF_BUFFER 41
+#define YY_NUM_RULES 41
+#define YY_END_OF_BUFFER 42
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -570,27 +570,27 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[175] =
+static const flex_int16_t yy_accept[176] =
     {   0,
-        0,    0,   41,   39,    1,    1,   39,   39,   39,   16,
-       17,   18,    9,   37,   14,   10,   12,   36,   36,   36,
-       36,   36,   36,   36,   36,   36,   36,   36,   36,   39,
-        0,   34,    0,   24,    0,   35,    0,   38,   37,   15,
-       11,   13,   36,   36,   36,   36,   36,   36,   36,   20,
-       36,   36,   36,   27,   36,   36,   36,   36,   26,   38,
-       36,   25,   36,   36,   36,   36,    0,   36,   28,   36,
-       36,   36,   36,   36,    0,   36,   36,   36,   36,    0,
-        0,   36,    0,    0,   36,   36,   32,   36,    0,   36,
-       36,   33,   36,    0,    0,    0,    0,    0,    0,   36,
-
-       36,   36,   23,   36,   36,   36,    0,    0,    0,    0,
-       19,   21,   36,   36,   36,   36,   36,   36,    0,    0,
-       30,   22,   36,   36,   36,    6,   36,   36,   31,    0,
-       36,   36,   36,    8,   36,    0,   36,   36,   36,   36,
-       36,    0,   36,   36,   36,   36,   36,   29,   36,   36,
-        7,   36,   36,   36,   36,   36,   36,   36,   36,   36,
-       36,    4,    3,   36,   36,   36,   36,   36,    5,   36,
-       36,   36,    2,    0
+        0,    0,   42,   40,    1,    1,   40,   40,   40,   16,
+       17,   18,    9,   38,   14,   10,   12,   37,   37,   37,
+       37,   37,   37,   37,   37,   37,   37,   37,   37,   40,
+        0,   35,    0,   25,    0,   36,    0,   39,   38,   15,
+       11,   13,   37,   37,   37,   37,   37,   37,   37,   21,
+       37,   37,   37,   28,   37,   37,   37,   37,   27,   39,
+       37,   26,   37,   37,   37,   37,    0,   37,   29,   37,
+       37,   37,   37,   37,    0,   37,   37,   37,   37,    0,
+        0,   37,    0,    0,   37,   37,   33,   37,    0,   37,
+       37,   34,   37,    0,    0,    0,    0,    0,    0,   37,
+
+       37,   37,   24,   37,   37,   37,    0,    0,    0,    0,
+       19,   22,   37,   37,   37,   37,   37,   37,    0,    0,
+       31,   23,   20,   37,   37,   37,    6,   37,   37,   32,
+        0,   37,   37,   37,    8,   37,    0,   37,   37,   37,
+       37,   37,    0,   37,   37,   37,   37,   37,   30,   37,
+       37,    7,   37,   37,   37,   37,   37,   37,   37,   37,
+       37,   37,    4,    3,   37,   37,   37,   37,   37,    5,
+       37,   37,   37,    2,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -634,53 +634,53 @@ static const YY_CHAR yy_meta[42] =
         1
     } ;
 
-static const flex_int16_t yy_base[178] =
+static const flex_int16_t yy_base[180] =
     {   0,
-        0,    0,  196,  197,  197,  197,   37,  189,   36,  197,
-      197,  197,  197,   32,   31,  197,  179,    0,   19,  161,
-      161,  171,  166,   20,  157,   18,   28,  153,  159,  145,
-       52,  197,  182,  197,   51,  197,  181,  170,   47,  197,
-      197,  197,    0,  153,  158,  149,  156,  149,  145,    0,
-      172,   30,  151,    0,  148,  153,  134,  134,  197,  157,
-      165,    0,  131,  131,  130,  146,   40,  140,  159,  158,
-      131,  125,  135,  131,  125,  136,  136,  130,  114,  122,
-       30,  147,  122,  117,  124,  110,    0,  118,  120,  116,
-      104,    0,  114,  108,  103,  110,  106,  106,  111,  104,
-
-       98,  102,  197,  101,  103,   93,   92,  124,   98,  101,
-      197,  197,   88,  105,  104,   86,   84,   93,   79,   87,
-      197,  197,   98,   77,   90,    0,   87,   85,  197,   74,
-       42,   83,   75,    0,   78,   79,   83,   78,   68,   80,
-       84,   73,   76,   63,   72,   64,   62,  197,   64,   68,
-        0,   56,   73,   57,   63,   66,   66,   64,   56,   55,
-       52,    0,    0,   57,   40,   37,   40,   56,    0,   52,
-       53,   39,    0,  197,   81,   83,   64
+        0,    0,  197,  198,  198,  198,   37,  190,   36,  198,
+      198,  198,  198,   32,   31,  198,  180,    0,   19,  162,
+      162,  172,  167,   20,  158,   18,   28,  154,  160,  146,
+       52,  198,  183,  198,   51,  198,  182,  171,   47,  198,
+      198,  198,    0,  154,  159,  150,  157,  150,  146,    0,
+      173,   30,  152,    0,  149,  154,  135,  135,  198,  158,
+      166,    0,  132,  132,  131,  147,   40,  141,  160,  159,
+      132,  126,  136,  132,  126,  137,  137,  131,  115,  123,
+       30,  148,  123,  118,  125,  111,    0,  119,  121,  117,
+      105,    0,  115,  109,  104,  111,  107,  107,  112,  105,
+
+       99,  103,  198,  102,  104,   94,   93,  125,   99,  102,
+        0,  198,   89,  106,  105,   87,   85,   94,   80,   88,
+      198,  198,    0,   99,   78,   91,    0,   88,   86,  198,
+       75,   42,   84,   76,    0,   79,   80,   84,   79,   69,
+       81,   85,   74,   77,   64,   73,   65,   63,  198,   65,
+       69,    0,   57,   74,   58,   64,   67,   67,   65,   57,
+       56,   58,    0,    0,   58,   41,   38,   41,   57,    0,
+       53,   54,   40,    0,  198,   81,   83,   70,   64
     } ;
 
-static const flex_int16_t yy_def[178] =
+static const flex_int16_t yy_def[180] =
     {   0,
-      174,    1,  174,  174,  174,  174,  175,  174,  176,  174,
-      174,  174,  174,  174,  174,  174,  174,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  174,
-      175,  174,  175,  174,  176,  174,  176,  174,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  174,  174,
-      177,  177,  177,  177,  177,  177,  174,  177,  177,  177,
-      177,  177,  177,  177,  174,  177,  177,  177,  177,  174,
-      174,  177,  174,  174,  177,  177,  177,  177,  174,  177,
-      177,  177,  177,  174,  174,  174,  174,  174,  174,  177,
-
-      177,  177,  174,  177,  177,  177,  174,  174,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  174,  174,
-      174,  174,  177,  177,  177,  177,  177,  177,  174,  174,
-      177,  177,  177,  177,  177,  174,  177,  177,  177,  177,
-      177,  174,  177,  177,  177,  177,  177,  174,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,  177,  177,  177,  177,  177,  177,  177,
-      177,  177,  177,    0,  174,  174,  174
+      175,    1,  175,  175,  175,  175,  176,  175,  177,  175,
+      175,  175,  175,  175,  175,  175,  175,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  175,
+      176,  175,  176,  175,  177,  175,  177,  175,  175,  175,
+      175,  175,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  175,  175,
+      178,  178,  178,  178,  178,  178,  175,  178,  178,  178,
+      178,  178,  178,  178,  175,  178,  178,  178,  178,  175,
+      175,  178,  175,  175,  178,  178,  178,  178,  175,  178,
+      178,  178,  178,  175,  175,  175,  175,  175,  175,  178,
+
+      178,  178,  175,  178,  178,  178,  175,  175,  175,  175,
+      179,  175,  178,  178,  178,  178,  178,  178,  175,  175,
+      175,  175,  179,  178,  178,  178,  178,  178,  178,  175,
+      175,  178,  178,  178,  178,  178,  175,  178,  178,  178,
+      178,  178,  175,  178,  178,  178,  178,  178,  175,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,  178,  178,  178,  178,  178,  178,
+      178,  178,  178,  178,    0,  175,  175,  175,  175
     } ;
 
-static const flex_int16_t yy_nxt[239] =
+static const flex_int16_t yy_nxt[240] =
     {   0,
         4,    5,    6,    5,    7,    8,    9,   10,   11,   12,
        13,    4,   14,   15,   16,   17,   18,    4,   18,   19,
@@ -688,29 +688,29 @@ static const flex_int16_t yy_nxt[239] =
        25,   26,   18,   18,   18,   27,   28,   18,   29,   18,
        30,   32,   36,   38,   39,   40,   41,   44,   53,   45,
        50,   55,   54,   37,   33,   51,   32,   36,   38,   39,
-       68,   95,  137,   80,   56,   43,   69,   96,   37,   33,
-       81,  173,  172,  171,  170,  169,  168,  167,  166,  165,
-      138,   31,   31,   35,   35,  164,  163,  162,  161,  160,
-      159,  158,  157,  156,  155,  154,  153,  152,  151,  150,
-
-      149,  148,  147,  146,  145,  144,  143,  142,  141,  140,
-      139,  136,  135,  134,  133,  132,  131,  130,  129,  128,
-      127,  126,  125,  124,  123,  122,  121,  120,  119,  118,
-      117,  116,  115,  114,  113,  112,  111,  110,  109,  108,
-      107,  106,  105,  104,  103,  102,  101,  100,   99,   98,
-       97,   94,   93,   92,   91,   90,   89,   88,   87,   86,
-       85,   84,   83,   82,   79,   78,   77,   76,   75,   60,
-       74,   73,   72,   71,   70,   67,   66,   65,   64,   63,
-       62,   61,   60,  174,  174,   59,   58,   57,   52,   49,
-       48,   47,   46,   42,   34,  174,    3,  174,  174,  174,
-
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174
+       68,   95,  138,   80,   56,  123,   69,   96,   37,   33,
+       81,   43,  174,  173,  172,  171,  170,  169,  168,  167,
+      139,   31,   31,   35,   35,  166,  165,  164,  163,  162,
+      161,  160,  159,  158,  157,  156,  155,  154,  153,  152,
+
+      151,  150,  149,  148,  147,  146,  145,  144,  143,  142,
+      141,  140,  137,  136,  135,  134,  133,  132,  131,  130,
+      129,  128,  127,  126,  125,  124,  122,  121,  120,  119,
+      118,  117,  116,  115,  114,  113,  112,  111,  110,  109,
+      108,  107,  106,  105,  104,  103,  102,  101,  100,   99,
+       98,   97,   94,   93,   92,   91,   90,   89,   88,   87,
+       86,   85,   84,   83,   82,   79,   78,   77,   76,   75,
+       60,   74,   73,   72,   71,   70,   67,   66,   65,   64,
+       63,   62,   61,   60,  175,  175,   59,   58,   57,   52,
+       49,   48,   47,   46,   42,   34,  175,    3,  175,  175,
+
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175
     } ;
 
-static const flex_int16_t yy_chk[239] =
+static const flex_int16_t yy_chk[240] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -718,26 +718,26 @@ static const flex_int16_t yy_chk[239] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    7,    9,   14,   14,   15,   15,   19,   26,   19,
        24,   27,   26,    9,    7,   24,   31,   35,   39,   39,
-       52,   81,  131,   67,   27,  177,   52,   81,   35,   31,
-       67,  172,  171,  170,  168,  167,  166,  165,  164,  161,
-      131,  175,  175,  176,  176,  160,  159,  158,  157,  156,
-      155,  154,  153,  152,  150,  149,  147,  146,  145,  144,
-
-      143,  142,  141,  140,  139,  138,  137,  136,  135,  133,
-      132,  130,  128,  127,  125,  124,  123,  120,  119,  118,
-      117,  116,  115,  114,  113,  110,  109,  108,  107,  106,
-      105,  104,  102,  101,  100,   99,   98,   97,   96,   95,
-       94,   93,   91,   90,   89,   88,   86,   85,   84,   83,
-       82,   80,   79,   78,   77,   76,   75,   74,   73,   72,
-       71,   70,   69,   68,   66,   65,   64,   63,   61,   60,
-       58,   57,   56,   55,   53,   51,   49,   48,   47,   46,
-       45,   44,   38,   37,   33,   30,   29,   28,   25,   23,
-       22,   21,   20,   17,    8,    3,  174,  174,  174,  174,
-
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174,  174,  174,
-      174,  174,  174,  174,  174,  174,  174,  174
+       52,   81,  132,   67,   27,  179,   52,   81,   35,   31,
+       67,  178,  173,  172,  171,  169,  168,  167,  166,  165,
+      132,  176,  176,  177,  177,  162,  161,  160,  159,  158,
+      157,  156,  155,  154,  153,  151,  150,  148,  147,  146,
+
+      145,  144,  143,  142,  141,  140,  139,  138,  137,  136,
+      134,  133,  131,  129,  128,  126,  125,  124,  120,  119,
+      118,  117,  116,  115,  114,  113,  110,  109,  108,  107,
+      106,  105,  104,  102,  101,  100,   99,   98,   97,   96,
+       95,   94,   93,   91,   90,   89,   88,   86,   85,   84,
+       83,   82,   80,   79,   78,   77,   76,   75,   74,   73,
+       72,   71,   70,   69,   68,   66,   65,   64,   63,   61,
+       60,   58,   57,   56,   55,   53,   51,   49,   48,   47,
+       46,   45,   44,   38,   37,   33,   30,   29,   28,   25,
+       23,   22,   21,   20,   17,    8,    3,  175,  175,  175,
+
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175,  175,
+      175,  175,  175,  175,  175,  175,  175,  175,  175
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -1078,13 +1078,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 175 )
+				if ( yy_current_state >= 176 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_base[yy_current_state] != 197 );
+		while ( yy_base[yy_current_state] != 198 );
 
 yy_find_action:
 		yy_act = yy_accept[yy_current_state];
@@ -1207,27 +1207,27 @@ return TOKEN(TNOTIN);
 case 20:
 YY_RULE_SETUP
 #line 54 "src/lexer.l"
-return TOKEN(TIN);
+yyless(3); return TOKEN(TNOT);
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
 #line 55 "src/lexer.l"
-return TOKEN(TONEOF);
+return TOKEN(TIN);
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
 #line 56 "src/lexer.l"
-return TOKEN(TNONEOF);
+return TOKEN(TONEOF);
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
 #line 57 "src/lexer.l"
-return TOKEN(TALLOF);
+return TOKEN(TNONEOF);
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
 #line 58 "src/lexer.l"
-return TOKEN(TAND);
+return TOKEN(TALLOF);
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
@@ -1237,7 +1237,7 @@ return TOKEN(TAND);
 case 26:
 YY_RULE_SETUP
 #line 60 "src/lexer.l"
-return TOKEN(TOR);
+return TOKEN(TAND);
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
@@ -1247,38 +1247,37 @@ return TOKEN(TOR);
 case 28:
 YY_RULE_SETUP
 #line 62 "src/lexer.l"
-return TOKEN(TNOT);
+return TOKEN(TOR);
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
 #line 63 "src/lexer.l"
-return TOKEN(TISNOTNULL);
+return TOKEN(TNOT);
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
 #line 64 "src/lexer.l"
-return TOKEN(TISNULL);
+return TOKEN(TISNOTNULL);
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
 #line 65 "src/lexer.l"
-return TOKEN(TISEMPTY);
+return TOKEN(TISNULL);
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
 #line 66 "src/lexer.l"
-return TOKEN(TTRUE);
+return TOKEN(TISEMPTY);
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
 #line 67 "src/lexer.l"
-return TOKEN(TFALSE);
+return TOKEN(TTRUE);
 	YY_BREAK
 case 34:
-/* rule 34 can match eol */
 YY_RULE_SETUP
 #line 68 "src/lexer.l"
-SAVE_STRING; return TSTRING;
+return TOKEN(TFALSE);
 	YY_BREAK
 case 35:
 /* rule 35 can match eol */
@@ -1287,31 +1286,37 @@ YY_RULE_SETUP
 SAVE_STRING; return TSTRING;
 	YY_BREAK
 case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
 #line 70 "src/lexer.l"
-SAVE_IDENTIFIER; return TIDENTIFIER;
+SAVE_STRING; return TSTRING;
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
 #line 71 "src/lexer.l"
-SAVE_INTEGER; return TINTEGER;
+SAVE_IDENTIFIER; return TIDENTIFIER;
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
 #line 72 "src/lexer.l"
-SAVE_FLOAT; return TFLOAT;
+SAVE_INTEGER; return TINTEGER;
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
 #line 73 "src/lexer.l"
-printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
+SAVE_FLOAT; return TFLOAT;
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 75 "src/lexer.l"
+#line 74 "src/lexer.l"
+printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0];
+	YY_BREAK
+case 41:
+YY_RULE_SETUP
+#line 76 "src/lexer.l"
 ECHO;
 	YY_BREAK
-#line 1315 "src/lexer.c"
+#line 1320 "src/lexer.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1610,7 +1615,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 175 )
+			if ( yy_current_state >= 176 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1639,11 +1644,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 175 )
+		if ( yy_current_state >= 176 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 174);
+	yy_is_jam = (yy_current_state == 175);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
@@ -2492,7 +2497,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 75 "src/lexer.l"
+#line 76 "src/lexer.l"
 
 
 #if defined(__clang__)
diff --git a/src/lexer.h b/src/lexer.h
index 6552436..d9f6143 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -712,7 +712,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 75 "src/lexer.l"
+#line 76 "src/lexer.l"
 
 
 #line 719 "src/lexer.h"
diff --git a/src/lexer.l b/src/lexer.l
index fd5f3b3..a4c0432 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -51,6 +51,7 @@
 ")"                         return TOKEN(TRPAREN);
 ","                         return TOKEN(TCOMMA);
 "not in"                    return TOKEN(TNOTIN);
+"not in"[a-zA-Z0-9_-]+      yyless(3); return TOKEN(TNOT);
 "in"                        return TOKEN(TIN);
 "one of"                    return TOKEN(TONEOF);
 "none of"                   return TOKEN(TNONEOF);
-- 
2.43.0


From 4bd99b3f7d37b501c16da9027824bcb6c90a4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 23/40] fix: convert whole numbers given for float variables in
 events

---
 src/tree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 2b2f7ae..bfd1efe 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1893,6 +1893,10 @@ void fill_event(const struct config* config, struct betree_event* event)
         }
         pred->attr_var.var = var;
         struct attr_domain* domain = config->attr_domains[var];
+        if(domain->bound.value_type == BETREE_FLOAT && pred->value.value_type == BETREE_INTEGER) {
+            // A float without a fraction is read as an integer
+            pred->value.float_value = (double)pred->value.integer_value;
+        }
         pred->value.value_type = domain->bound.value_type;
         switch(pred->value.value_type) {
             case BETREE_BOOLEAN:
-- 
2.43.0


From 19edb82ae453d2d0cb16633952db920fbaebfb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 24/40] fix: do not take a learned boundary for a declared
 capacity

---
 src/ast.c    | 8 +++-----
 src/config.c | 5 +++--
 src/config.h | 2 ++
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 8458871..62b47b3 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2728,7 +2728,7 @@ static size_t used_values(const struct config* config, betree_var_t var)
 static bool value_fits(const struct config* config, struct new_values* added, struct attr_var attr_var, const char* string, int64_t integer)
 {
     const struct attr_domain* attr_domain = config->attr_domains[attr_var.var];
-    if(attr_domain->bound.smax == SIZE_MAX - 1) {
+    if(attr_domain->capacity == SIZE_MAX) {
         return true;
     }
     bool is_known = string != NULL
@@ -2748,10 +2748,8 @@ static bool value_fits(const struct config* config, struct new_values* added, st
         }
         used++;
     }
-    // smax is the highest id, so that no value at all is SIZE_MAX
-    size_t bound = attr_domain->bound.smax + 1;
-    if(used >= bound) {
-        fprintf(stderr, "For attr '%s', a value could not fit within the bound %zu\n", attr_var.attr, bound);
+    if(used >= attr_domain->capacity) {
+        fprintf(stderr, "For attr '%s', a value could not fit within the bound %zu\n", attr_var.attr, attr_domain->capacity);
         return false;
     }
     struct new_value* values = brealloc(added->values, sizeof(*values) * (added->count + 1));
diff --git a/src/config.c b/src/config.c
index 9a8a35e..2aa7010 100644
--- a/src/config.c
+++ b/src/config.c
@@ -79,6 +79,7 @@ static struct attr_domain* make_attr_domain(
     attr_domain->attr_var.attr = bstrdup(attr);
     attr_domain->attr_var.var = variable_id;
     attr_domain->bound = bound;
+    attr_domain->capacity = bound.smax + 1;
     attr_domain->allow_undefined = allow_undefined;
     return attr_domain;
 }
@@ -337,7 +338,7 @@ betree_ienum_t get_id_for_ienum(struct config* config, struct attr_var attr_var,
     }
     const struct attr_domain* attr_domain
         = get_attr_domain((const struct attr_domain**)config->attr_domains, attr_var.var);
-    if(!always_assign && attr_domain->bound.smax + 1 == integer_map->integer_value_count) {
+    if(!always_assign && integer_map->integer_value_count >= attr_domain->capacity) {
         return INVALID_IENUM;
     }
     add_to_integer_map(integer_map, integer);
@@ -363,7 +364,7 @@ betree_str_t get_id_for_string(struct config* config, struct attr_var attr_var,
     }
     const struct attr_domain* attr_domain
         = get_attr_domain((const struct attr_domain**)config->attr_domains, attr_var.var);
-    if(!always_assign && attr_domain->bound.smax + 1 == string_map->string_value_count) {
+    if(!always_assign && string_map->string_value_count >= attr_domain->capacity) {
         return INVALID_STR;
     }
     add_to_string_map(string_map, string);
diff --git a/src/config.h b/src/config.h
index 229ee66..04588f5 100644
--- a/src/config.h
+++ b/src/config.h
@@ -11,6 +11,8 @@
 struct attr_domain {
     struct attr_var attr_var;
     struct value_bound bound;
+    // How many values a string or an integer enum was declared with, whatever bound was learned since
+    size_t capacity;
     bool allow_undefined;
 };
 
-- 
2.43.0


From a273b1ce5bcf79b9b0a3382eb0cbb0b315bab5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 25/40] fix: tell frequency predicates with different ids apart
 in eq_expr

---
 src/ast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 62b47b3..91433aa 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2384,7 +2384,7 @@ static bool eq_special_expr(struct ast_special_expr a, struct ast_special_expr b
     switch(a.type) {
         case AST_SPECIAL_FREQUENCY:
             return a.frequency.attr_var.var == b.frequency.attr_var.var
-                && a.frequency.length == b.frequency.length
+                && a.frequency.id == b.frequency.id && a.frequency.length == b.frequency.length
                 && a.frequency.ns.var == b.frequency.ns.var
                 && a.frequency.ns.str == b.frequency.ns.str && a.frequency.op == b.frequency.op
                 && a.frequency.type == b.frequency.type && a.frequency.value == b.frequency.value;
-- 
2.43.0


From c5258439e043bc70467af63e375c50d70d803c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 26/40] fix: tell is null, is not null and is empty apart in
 eq_expr

---
 src/ast.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast.c b/src/ast.c
index 91433aa..ff08c12 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2414,7 +2414,8 @@ bool eq_expr(const struct ast_node* a, const struct ast_node* b)
     }
     switch(a->type) {
         case AST_TYPE_IS_NULL_EXPR:
-            return a->is_null_expr.attr_var.var == b->is_null_expr.attr_var.var;
+            return a->is_null_expr.type == b->is_null_expr.type
+                && a->is_null_expr.attr_var.var == b->is_null_expr.attr_var.var;
         case AST_TYPE_COMPARE_EXPR: {
             return a->compare_expr.attr_var.var == b->compare_expr.attr_var.var
                 && a->compare_expr.op == b->compare_expr.op
-- 
2.43.0


From d8bafa0f40d7bd18e6d6609faeafa07ee88fcc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 27/40] fix: compare constants exactly in eq_expr

---
 src/ast.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index ff08c12..67a7088 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2242,7 +2242,7 @@ static bool eq_compare_value(struct compare_value a, struct compare_value b)
         case AST_COMPARE_VALUE_INTEGER:
             return a.integer_value == b.integer_value;
         case AST_COMPARE_VALUE_FLOAT:
-            return feq(a.float_value, b.float_value);
+            return a.float_value == b.float_value;
         default: abort();
     }
 }
@@ -2256,7 +2256,7 @@ static bool eq_equality_value(struct equality_value a, struct equality_value b)
         case AST_EQUALITY_VALUE_INTEGER:
             return a.integer_value == b.integer_value;
         case AST_EQUALITY_VALUE_FLOAT:
-            return feq(a.float_value, b.float_value);
+            return a.float_value == b.float_value;
         case AST_EQUALITY_VALUE_STRING:
             return a.string_value.var == b.string_value.var
                 && a.string_value.str == b.string_value.str;
@@ -2394,9 +2394,9 @@ static bool eq_special_expr(struct ast_special_expr a, struct ast_special_expr b
                 && a.segment.seconds == b.segment.seconds
                 && a.segment.segment_id == b.segment.segment_id;
         case AST_SPECIAL_GEO:
-            return a.geo.has_radius == b.geo.has_radius && feq(a.geo.latitude, b.geo.latitude)
-                && feq(a.geo.longitude, b.geo.longitude) && a.geo.op == b.geo.op
-                && feq(a.geo.radius, b.geo.radius);
+            return a.geo.has_radius == b.geo.has_radius && a.geo.latitude == b.geo.latitude
+                && a.geo.longitude == b.geo.longitude && a.geo.op == b.geo.op
+                && a.geo.radius == b.geo.radius;
         case AST_SPECIAL_STRING:
             return a.string.attr_var.var == b.string.attr_var.var && a.string.op == b.string.op
                 && strcmp(a.string.pattern, b.string.pattern) == 0;
-- 
2.43.0


From 5a17a8158345cbd92366dda69fb55b3475627bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 28/40] fix: copy every field of special expressions

---
 src/clone.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/clone.c b/src/clone.c
index 6213ebf..7fcdbac 100644
--- a/src/clone.c
+++ b/src/clone.c
@@ -217,7 +217,9 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
     switch(orig.type) {
         case AST_SPECIAL_FREQUENCY:
             clone->special_expr.frequency.attr_var = clone_attr_var(orig.frequency.attr_var);
+            clone->special_expr.frequency.id = orig.frequency.id;
             clone->special_expr.frequency.length = orig.frequency.length;
+            clone->special_expr.frequency.now = clone_attr_var(orig.frequency.now);
             clone->special_expr.frequency.ns = clone_string_value(orig.frequency.ns);
             clone->special_expr.frequency.op = orig.frequency.op;
             clone->special_expr.frequency.type = orig.frequency.type;
@@ -226,6 +228,7 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
         case AST_SPECIAL_SEGMENT:
             clone->special_expr.segment.attr_var = clone_attr_var(orig.segment.attr_var);
             clone->special_expr.segment.has_variable = orig.segment.has_variable;
+            clone->special_expr.segment.now = clone_attr_var(orig.segment.now);
             clone->special_expr.segment.op = orig.segment.op;
             clone->special_expr.segment.seconds = orig.segment.seconds;
             clone->special_expr.segment.segment_id = orig.segment.segment_id;
@@ -233,7 +236,9 @@ static struct ast_node* clone_special(betree_pred_t global_id, betree_pred_t mem
         case AST_SPECIAL_GEO:
             clone->special_expr.geo.has_radius = orig.geo.has_radius;
             clone->special_expr.geo.latitude = orig.geo.latitude;
+            clone->special_expr.geo.latitude_var = clone_attr_var(orig.geo.latitude_var);
             clone->special_expr.geo.longitude = orig.geo.longitude;
+            clone->special_expr.geo.longitude_var = clone_attr_var(orig.geo.longitude_var);
             clone->special_expr.geo.op = orig.geo.op;
             clone->special_expr.geo.radius = orig.geo.radius;
             break;
-- 
2.43.0


From 3475d9dcc81c4928aaaddfb2f3e94fe7fab2072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:41 +0000
Subject: [PATCH 29/40] fix: refuse duplicates in jsw_rbinsert without counting
 them

---
 src/jsw_rbtree.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jsw_rbtree.c b/src/jsw_rbtree.c
index d9fc229..48607ce 100644
--- a/src/jsw_rbtree.c
+++ b/src/jsw_rbtree.c
@@ -131,12 +131,16 @@ void* jsw_rbfind(struct jsw_rbtree* tree, void* data)
 
 int jsw_rbinsert(struct jsw_rbtree* tree, void* data)
 {
+    int inserted = 0;
+
     if(tree->root == NULL) {
         tree->root = new_node(tree, data);
 
         if(tree->root == NULL) {
             return 0;
 		}
+
+        inserted = 1;
     }
     else {
         struct jsw_rbnode head = {0}; 
@@ -155,6 +159,8 @@ int jsw_rbinsert(struct jsw_rbtree* tree, void* data)
                 if(q == NULL) {
                     return 0;
                 }
+
+                inserted = 1;
             }
             else if(is_red(q->link[0]) && is_red(q->link[1])) {
                 q->red = 1;
@@ -192,9 +198,9 @@ int jsw_rbinsert(struct jsw_rbtree* tree, void* data)
     }
 
     tree->root->red = 0;
-    tree->size++;
+    tree->size += inserted;
 
-    return 1;
+    return inserted;
 }
 
 int jsw_rberase(struct jsw_rbtree* tree, void* data)
-- 
2.43.0


From 487a847b200d977c18a351ae001e9704f1268c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 30/40] fix: let jsw_rberase report absent elements without
 counting them

---
 src/jsw_rbtree.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jsw_rbtree.c b/src/jsw_rbtree.c
index 48607ce..22ba4b8 100644
--- a/src/jsw_rbtree.c
+++ b/src/jsw_rbtree.c
@@ -205,6 +205,8 @@ int jsw_rbinsert(struct jsw_rbtree* tree, void* data)
 
 int jsw_rberase(struct jsw_rbtree* tree, void* data)
 {
+    int erased = 0;
+
     if(tree->root != NULL) {
         struct jsw_rbnode head = {0}; /* False tree root */
         struct jsw_rbnode *q, *p, *g; /* Helpers */
@@ -262,6 +264,7 @@ int jsw_rberase(struct jsw_rbtree* tree, void* data)
             f->data = q->data;
             p->link[p->link[1] == q] = q->link[q->link[0] == NULL];
             bfree(q);
+            erased = 1;
         }
 
         tree->root = head.link[1];
@@ -270,10 +273,10 @@ int jsw_rberase(struct jsw_rbtree* tree, void* data)
             tree->root->red = 0;
         }
 
-        tree->size--;
+        tree->size -= erased;
     }
 
-    return 1;
+    return erased;
 }
 
 size_t jsw_rbsize(struct jsw_rbtree* tree)
-- 
2.43.0


From 6720499f202b3203cc8f3538f75c8e7c48279659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 31/40] fix: release the symbols of a text that does not parse

---
 src/parser.c | 113 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 src/parser.y |  17 +++++++-
 2 files changed, 127 insertions(+), 3 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 6c74de6..a6a8804 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1188,7 +1188,112 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner, str
   YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YYUSE (yytype);
+  switch (yytype)
+    {
+          case 33: /* TSTRING  */
+      { bfree(((*yyvaluep).string)); }
+        break;
+
+          case 34: /* TIDENTIFIER  */
+      { bfree(((*yyvaluep).string)); }
+        break;
+
+          case 39: /* ident  */
+      { bfree(((*yyvaluep).string)); }
+        break;
+
+          case 42: /* string  */
+      { bfree((char*)((*yyvaluep).string_value).string); }
+        break;
+
+          case 43: /* integer_list_value  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+        break;
+
+          case 44: /* integer_list_loop  */
+      { free_integer_list(((*yyvaluep).integer_list_value)); }
+        break;
+
+          case 45: /* string_list_value  */
+      { free_string_list(((*yyvaluep).string_list_value)); }
+        break;
+
+          case 46: /* string_list_loop  */
+      { free_string_list(((*yyvaluep).string_list_value)); }
+        break;
+
+          case 47: /* expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+          case 48: /* is_null_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+          case 50: /* num_comp_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+          case 51: /* eq_value  */
+      { if(((*yyvaluep).equality_value).value_type == AST_EQUALITY_VALUE_STRING) { bfree((char*)((*yyvaluep).equality_value).string_value.string); } }
+        break;
+
+          case 52: /* eq_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+          case 53: /* variable_value  */
+      { free_attr_var(((*yyvaluep).variable_value)); }
+        break;
+
+          case 54: /* set_left_value  */
+      { if(((*yyvaluep).set_left_value).value_type == AST_SET_LEFT_VALUE_STRING) { bfree((char*)((*yyvaluep).set_left_value).string_value.string); } else if(((*yyvaluep).set_left_value).value_type == AST_SET_LEFT_VALUE_VARIABLE) { free_attr_var(((*yyvaluep).set_left_value).variable_value); } }
+        break;
+
+          case 55: /* set_right_value  */
+      { if(((*yyvaluep).set_right_value).value_type == AST_SET_RIGHT_VALUE_INTEGER_LIST) { free_integer_list(((*yyvaluep).set_right_value).integer_list_value); } else if(((*yyvaluep).set_right_value).value_type == AST_SET_RIGHT_VALUE_STRING_LIST) { free_string_list(((*yyvaluep).set_right_value).string_list_value); } else { free_attr_var(((*yyvaluep).set_right_value).variable_value); } }
+        break;
+
+          case 56: /* set_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+          case 57: /* list_value  */
+      { if(((*yyvaluep).list_value).value_type == AST_LIST_VALUE_INTEGER_LIST) { free_integer_list(((*yyvaluep).list_value).integer_list_value); } else { free_string_list(((*yyvaluep).list_value).string_list_value); } }
+        break;
+
+          case 58: /* list_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+          case 59: /* bool_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+          case 60: /* special_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+          case 61: /* s_frequency_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+          case 62: /* s_segment_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+          case 63: /* s_geo_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+          case 64: /* s_string_expr  */
+      { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -2143,14 +2248,18 @@ int parse(const char *text, struct ast_node **node)
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
-    int rc = xxparse(scanner, node);
+    struct ast_node* root = NULL;
+    int rc = xxparse(scanner, &root);
     xx_delete_buffer(buffer, scanner);
     xxlex_destroy(scanner);
     
     if(rc == 0) {
+        *node = root;
         return 0;
     }
     else {
+        // The whole text may have been reduced before the error was found
+        free_ast_node(root);
         return -1;
     }
 }
diff --git a/src/parser.y b/src/parser.y
index fc6cbc6..cd1fee7 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -89,6 +89,17 @@
 %left TAND 
 %precedence TNOT
 
+%destructor { bfree($$); } <string>
+%destructor { bfree((char*)$$.string); } <string_value>
+%destructor { free_integer_list($$); } <integer_list_value>
+%destructor { free_string_list($$); } <string_list_value>
+%destructor { if($$.value_type == AST_EQUALITY_VALUE_STRING) { bfree((char*)$$.string_value.string); } } <equality_value>
+%destructor { free_attr_var($$); } <variable_value>
+%destructor { if($$.value_type == AST_SET_LEFT_VALUE_STRING) { bfree((char*)$$.string_value.string); } else if($$.value_type == AST_SET_LEFT_VALUE_VARIABLE) { free_attr_var($$.variable_value); } } <set_left_value>
+%destructor { if($$.value_type == AST_SET_RIGHT_VALUE_INTEGER_LIST) { free_integer_list($$.integer_list_value); } else if($$.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) { free_string_list($$.string_list_value); } else { free_attr_var($$.variable_value); } } <set_right_value>
+%destructor { if($$.value_type == AST_LIST_VALUE_INTEGER_LIST) { free_integer_list($$.integer_list_value); } else { free_string_list($$.string_list_value); } } <list_value>
+%destructor { free_ast_node($$); } <node>
+
 %start program
 
 %%
@@ -242,14 +253,18 @@ int parse(const char *text, struct ast_node **node)
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
-    int rc = xxparse(scanner, node);
+    struct ast_node* root = NULL;
+    int rc = xxparse(scanner, &root);
     xx_delete_buffer(buffer, scanner);
     xxlex_destroy(scanner);
     
     if(rc == 0) {
+        *node = root;
         return 0;
     }
     else {
+        // The whole text may have been reduced before the error was found
+        free_ast_node(root);
         return -1;
     }
 }
-- 
2.43.0


From 768429a6184dcc5f4584d633f62df19a41262c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 32/40] fix: parse events into the caller's root, not a global
 one shared by all threads

---
 src/event_parser.c | 48 ++++++++++++++++++++++++----------------------
 src/event_parser.h |  2 +-
 src/event_parser.y | 12 ++++++------
 3 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/event_parser.c b/src/event_parser.c
index 84e3e00..523a882 100644
--- a/src/event_parser.c
+++ b/src/event_parser.c
@@ -84,9 +84,8 @@
     #include "event_parser.h"
     #include "tree.h"
     #include "value.h"
-    struct betree_event *root;
     extern int zzlex();
-    void zzerror(void *scanner, const char *s) { (void)scanner; printf("ERROR: %s\n", s); }
+    void zzerror(void *scanner, struct betree_event** root, const char *s) { (void)scanner; (void)root; printf("ERROR: %s\n", s); }
 #if defined(__GNUC__)
     #pragma GCC diagnostic push
     #pragma GCC diagnostic ignored "-Wswitch-default"
@@ -203,7 +202,7 @@ typedef union ZZSTYPE ZZSTYPE;
 
 
 
-int zzparse (void *scanner);
+int zzparse (void *scanner, struct betree_event** root);
 
 #endif /* !YY_ZZ_SRC_EVENT_PARSER_H_INCLUDED  */
 
@@ -743,7 +742,7 @@ static const yytype_int8 yyr2[] =
       }                                                           \
     else                                                          \
       {                                                           \
-        yyerror (scanner, YY_("syntax error: cannot back up")); \
+        yyerror (scanner, root, YY_("syntax error: cannot back up")); \
         YYERROR;                                                  \
       }                                                           \
   while (0)
@@ -780,7 +779,7 @@ do {                                                                      \
     {                                                                     \
       YYFPRINTF (stderr, "%s ", Title);                                   \
       yy_symbol_print (stderr,                                            \
-                  Type, Value, scanner); \
+                  Type, Value, scanner, root); \
       YYFPRINTF (stderr, "\n");                                           \
     }                                                                     \
 } while (0)
@@ -791,11 +790,12 @@ do {                                                                      \
 `-----------------------------------*/
 
 static void
-yy_symbol_value_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, void *scanner)
+yy_symbol_value_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, void *scanner, struct betree_event** root)
 {
   FILE *yyoutput = yyo;
   YYUSE (yyoutput);
   YYUSE (scanner);
+  YYUSE (root);
   if (!yyvaluep)
     return;
 # ifdef YYPRINT
@@ -907,12 +907,12 @@ yy_symbol_value_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, vo
 `---------------------------*/
 
 static void
-yy_symbol_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, void *scanner)
+yy_symbol_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, void *scanner, struct betree_event** root)
 {
   YYFPRINTF (yyo, "%s %s (",
              yytype < YYNTOKENS ? "token" : "nterm", yytname[yytype]);
 
-  yy_symbol_value_print (yyo, yytype, yyvaluep, scanner);
+  yy_symbol_value_print (yyo, yytype, yyvaluep, scanner, root);
   YYFPRINTF (yyo, ")");
 }
 
@@ -945,7 +945,7 @@ do {                                                            \
 `------------------------------------------------*/
 
 static void
-yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, int yyrule, void *scanner)
+yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, int yyrule, void *scanner, struct betree_event** root)
 {
   int yylno = yyrline[yyrule];
   int yynrhs = yyr2[yyrule];
@@ -959,7 +959,7 @@ yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, int yyrule, void *scanner)
       yy_symbol_print (stderr,
                        yystos[+yyssp[yyi + 1 - yynrhs]],
                        &yyvsp[(yyi + 1) - (yynrhs)]
-                                              , scanner);
+                                              , scanner, root);
       YYFPRINTF (stderr, "\n");
     }
 }
@@ -967,7 +967,7 @@ yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, int yyrule, void *scanner)
 # define YY_REDUCE_PRINT(Rule)          \
 do {                                    \
   if (yydebug)                          \
-    yy_reduce_print (yyssp, yyvsp, Rule, scanner); \
+    yy_reduce_print (yyssp, yyvsp, Rule, scanner, root); \
 } while (0)
 
 /* Nonzero means print parse trace.  It is left uninitialized so that
@@ -1235,10 +1235,11 @@ yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
 `-----------------------------------------------*/
 
 static void
-yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner)
+yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner, struct betree_event** root)
 {
   YYUSE (yyvaluep);
   YYUSE (scanner);
+  YYUSE (root);
   if (!yymsg)
     yymsg = "Deleting";
   YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
@@ -1256,7 +1257,7 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner)
 `----------*/
 
 int
-yyparse (void *scanner)
+yyparse (void *scanner, struct betree_event** root)
 {
 /* The lookahead symbol.  */
 int yychar;
@@ -1512,13 +1513,13 @@ yyreduce:
     {
   case 2:
 #line 94 "src/event_parser.y"
-                                                                { root = make_empty_event(); }
+                                                                { *root = make_empty_event(); }
 #line 1517 "src/event_parser.c"
     break;
 
   case 3:
 #line 95 "src/event_parser.y"
-                                                                { root = (yyvsp[-1].event); }
+                                                                { *root = (yyvsp[-1].event); }
 #line 1523 "src/event_parser.c"
     break;
 
@@ -1789,7 +1790,7 @@ yyerrlab:
     {
       ++yynerrs;
 #if ! YYERROR_VERBOSE
-      yyerror (scanner, YY_("syntax error"));
+      yyerror (scanner, root, YY_("syntax error"));
 #else
 # define YYSYNTAX_ERROR yysyntax_error (&yymsg_alloc, &yymsg, \
                                         yyssp, yytoken)
@@ -1816,7 +1817,7 @@ yyerrlab:
                 yymsgp = yymsg;
               }
           }
-        yyerror (scanner, yymsgp);
+        yyerror (scanner, root, yymsgp);
         if (yysyntax_error_status == 2)
           goto yyexhaustedlab;
       }
@@ -1840,7 +1841,7 @@ yyerrlab:
       else
         {
           yydestruct ("Error: discarding",
-                      yytoken, &yylval, scanner);
+                      yytoken, &yylval, scanner, root);
           yychar = YYEMPTY;
         }
     }
@@ -1894,7 +1895,7 @@ yyerrlab1:
 
 
       yydestruct ("Error: popping",
-                  yystos[yystate], yyvsp, scanner);
+                  yystos[yystate], yyvsp, scanner, root);
       YYPOPSTACK (1);
       yystate = *yyssp;
       YY_STACK_PRINT (yyss, yyssp);
@@ -1933,7 +1934,7 @@ yyabortlab:
 | yyexhaustedlab -- memory exhaustion comes here.  |
 `-------------------------------------------------*/
 yyexhaustedlab:
-  yyerror (scanner, YY_("memory exhausted"));
+  yyerror (scanner, root, YY_("memory exhausted"));
   yyresult = 2;
   /* Fall through.  */
 #endif
@@ -1949,7 +1950,7 @@ yyreturn:
          user semantic actions for why this is necessary.  */
       yytoken = YYTRANSLATE (yychar);
       yydestruct ("Cleanup: discarding lookahead",
-                  yytoken, &yylval, scanner);
+                  yytoken, &yylval, scanner, root);
     }
   /* Do not reclaim the symbols of the rule whose action triggered
      this YYABORT or YYACCEPT.  */
@@ -1958,7 +1959,7 @@ yyreturn:
   while (yyssp != yyss)
     {
       yydestruct ("Cleanup: popping",
-                  yystos[+*yyssp], yyvsp, scanner);
+                  yystos[+*yyssp], yyvsp, scanner, root);
       YYPOPSTACK (1);
     }
 #ifndef yyoverflow
@@ -1988,7 +1989,8 @@ int event_parse(const char *text, struct betree_event** event)
     yyscan_t scanner;
     zzlex_init(&scanner);
     YY_BUFFER_STATE buffer = zz_scan_string(text, scanner);
-    int rc = zzparse(scanner);
+    struct betree_event* root = NULL;
+    int rc = zzparse(scanner, &root);
     zz_delete_buffer(buffer, scanner);
     zzlex_destroy(scanner);
     
diff --git a/src/event_parser.h b/src/event_parser.h
index 44d01d2..9c32df7 100644
--- a/src/event_parser.h
+++ b/src/event_parser.h
@@ -108,6 +108,6 @@ typedef union ZZSTYPE ZZSTYPE;
 
 
 
-int zzparse (void *scanner);
+int zzparse (void *scanner, struct betree_event** root);
 
 #endif /* !YY_ZZ_SRC_EVENT_PARSER_H_INCLUDED  */
diff --git a/src/event_parser.y b/src/event_parser.y
index 5c1c2ef..4b572f7 100644
--- a/src/event_parser.y
+++ b/src/event_parser.y
@@ -9,9 +9,8 @@
     #include "event_parser.h"
     #include "tree.h"
     #include "value.h"
-    struct betree_event *root;
     extern int zzlex();
-    void zzerror(void *scanner, const char *s) { (void)scanner; printf("ERROR: %s\n", s); }
+    void zzerror(void *scanner, struct betree_event** root, const char *s) { (void)scanner; (void)root; printf("ERROR: %s\n", s); }
 #if defined(__GNUC__)
     #pragma GCC diagnostic push
     #pragma GCC diagnostic ignored "-Wswitch-default"
@@ -22,7 +21,7 @@
 // %debug
 %pure-parser
 %lex-param {void *scanner}
-%parse-param {void *scanner}
+%parse-param {void *scanner} {struct betree_event** root}
 %define api.prefix {zz}
 
 %{
@@ -91,8 +90,8 @@
 
 %%
 
-program             : EVENT_LCURLY EVENT_RCURLY                 { root = make_empty_event(); }
-                    | EVENT_LCURLY variable_loop EVENT_RCURLY   { root = $2; }
+program             : EVENT_LCURLY EVENT_RCURLY                 { *root = make_empty_event(); }
+                    | EVENT_LCURLY variable_loop EVENT_RCURLY   { *root = $2; }
 ;
 
 variable_loop       : variable                              { $$ = make_empty_event(); add_variable($1, $$); }
@@ -184,7 +183,8 @@ int event_parse(const char *text, struct betree_event** event)
     yyscan_t scanner;
     zzlex_init(&scanner);
     YY_BUFFER_STATE buffer = zz_scan_string(text, scanner);
-    int rc = zzparse(scanner);
+    struct betree_event* root = NULL;
+    int rc = zzparse(scanner, &root);
     zz_delete_buffer(buffer, scanner);
     zzlex_destroy(scanner);
     
-- 
2.43.0


From 5f2f311ee4b19b1ac20a51a3a216b7414419c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 33/40] fix: looking up a string during a search does not write
 to the shared map

---
 src/config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 2aa7010..db65bef 100644
--- a/src/config.c
+++ b/src/config.c
@@ -308,7 +308,8 @@ betree_str_t try_get_id_for_string(
     for(size_t i = 0; i < config->string_map_count; i++) {
         if(config->string_maps[i].attr_var.var == attr_var.var) {
             struct string_map* string_map = string_map = &config->string_maps[i];
-            betree_str_t* str = map_get(&string_map->m, string);
+            // Not map_get: it stores the result in the map, and the config is shared by all searches
+            const betree_str_t* str = map_get_(&string_map->m.base, string);
             if(str != NULL) {
                 return *str;
             }
-- 
2.43.0


From 0c2a3cfd63e9bbc126ed782651cc703b2ab9c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 34/40] fix: print is null, is not null and is empty as they
 are written

---
 src/printer.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/printer.c b/src/printer.c
index 7b3ae02..71901ac 100644
--- a/src/printer.c
+++ b/src/printer.c
@@ -192,11 +192,25 @@ char* ast_to_string(const struct ast_node* node)
 {
     char* expr;
     switch(node->type) {
-        case AST_TYPE_IS_NULL_EXPR:
-            if(basprintf(&expr, "?%s", node->is_null_expr.attr_var.attr) < 0) {
+        case AST_TYPE_IS_NULL_EXPR: {
+            const char* op;
+            switch(node->is_null_expr.type) {
+                case AST_IS_NULL:
+                    op = "is null";
+                    break;
+                case AST_IS_NOT_NULL:
+                    op = "is not null";
+                    break;
+                case AST_IS_EMPTY:
+                    op = "is empty";
+                    break;
+                default: abort();
+            }
+            if(basprintf(&expr, "%s %s", node->is_null_expr.attr_var.attr, op) < 0) {
                 abort();
             }
             return expr;
+        }
         case(AST_TYPE_SPECIAL_EXPR): {
             switch(node->special_expr.type) {
                 case AST_SPECIAL_FREQUENCY:
-- 
2.43.0


From 34172ec394ffafe1d77ddff042076a8c91dbbb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 35/40] fix: print floats so that they read back as the same
 value

---
 src/printer.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/printer.c b/src/printer.c
index 71901ac..b42275d 100644
--- a/src/printer.c
+++ b/src/printer.c
@@ -8,6 +8,21 @@
 #include "tree.h"
 #include "utils.h"
 
+// Two decimals when that is exact, as many as it takes to read the same value back otherwise
+static char* float_to_string(double value)
+{
+    for(int precision = 2;; precision++) {
+        char* string;
+        if(basprintf(&string, "%.*f", precision, value) < 0) {
+            abort();
+        }
+        if(strtod(string, NULL) == value || precision >= 1074) {
+            return string;
+        }
+        bfree(string);
+    }
+}
+
 static const char* compare_value_to_string(struct compare_value value)
 {
     char* expr;
@@ -18,9 +33,7 @@ static const char* compare_value_to_string(struct compare_value value)
             }
             break;
         case AST_COMPARE_VALUE_FLOAT:
-            if(basprintf(&expr, "%.2f", value.float_value) < 0) {
-                abort();
-            }
+            expr = float_to_string(value.float_value);
             break;
         default: abort();
     }
@@ -52,9 +65,7 @@ static const char* equality_value_to_string(struct equality_value value)
             }
             break;
         case AST_EQUALITY_VALUE_FLOAT:
-            if(basprintf(&expr, "%.2f", value.float_value) < 0) {
-                abort();
-            }
+            expr = float_to_string(value.float_value);
             break;
         case AST_EQUALITY_VALUE_STRING:
             if(basprintf(&expr, "\"%s\"", value.string_value.string) < 0) {
@@ -247,14 +258,16 @@ char* ast_to_string(const struct ast_node* node)
                     return expr;
                 }
                 case AST_SPECIAL_GEO: {
-                    if(basprintf(&expr,
-                           "geo_within_radius(%.2f, %.2f, %.2f)",
-                           node->special_expr.geo.latitude,
-                           node->special_expr.geo.longitude,
-                           node->special_expr.geo.radius)
+                    char* latitude = float_to_string(node->special_expr.geo.latitude);
+                    char* longitude = float_to_string(node->special_expr.geo.longitude);
+                    char* radius = float_to_string(node->special_expr.geo.radius);
+                    if(basprintf(&expr, "geo_within_radius(%s, %s, %s)", latitude, longitude, radius)
                         < 0) {
                         abort();
                     }
+                    bfree(latitude);
+                    bfree(longitude);
+                    bfree(radius);
                     return expr;
                 }
                 case AST_SPECIAL_STRING: {
-- 
2.43.0


From 6bcc7a8aac9bbfdd856ccdc731b36fd853383e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 36/40] fix: print strings that contain a double quote in
 single quotes

---
 src/printer.c | 23 ++++++++++++-----------
 src/value.c   | 27 +++++++++++++++++++++++----
 src/value.h   |  1 +
 3 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/printer.c b/src/printer.c
index b42275d..f13caa8 100644
--- a/src/printer.c
+++ b/src/printer.c
@@ -68,9 +68,7 @@ static const char* equality_value_to_string(struct equality_value value)
             expr = float_to_string(value.float_value);
             break;
         case AST_EQUALITY_VALUE_STRING:
-            if(basprintf(&expr, "\"%s\"", value.string_value.string) < 0) {
-                abort();
-            }
+            expr = quote_string(value.string_value.string);
             break;
         case AST_EQUALITY_VALUE_INTEGER_ENUM:
             if(basprintf(&expr, "%ld", value.integer_enum_value.integer) < 0) {
@@ -103,9 +101,7 @@ static const char* set_left_value_to_string(struct set_left_value value)
             }
             break;
         case AST_SET_LEFT_VALUE_STRING:
-            if(basprintf(&expr, "\"%s\"", value.string_value.string) < 0) {
-                abort();
-            }
+            expr = quote_string(value.string_value.string);
             break;
         case AST_SET_LEFT_VALUE_VARIABLE:
             if(basprintf(&expr, "%s", value.variable_value.attr) < 0) {
@@ -224,17 +220,20 @@ char* ast_to_string(const struct ast_node* node)
         }
         case(AST_TYPE_SPECIAL_EXPR): {
             switch(node->special_expr.type) {
-                case AST_SPECIAL_FREQUENCY:
+                case AST_SPECIAL_FREQUENCY: {
+                    char* ns = quote_string(node->special_expr.frequency.ns.string);
                     if(basprintf(&expr,
-                           "within_frequency_cap(\"%s\", \"%s\", %ld, %zu)",
+                           "within_frequency_cap(\"%s\", %s, %ld, %zu)",
                            frequency_type_to_string(node->special_expr.frequency.type),
-                           node->special_expr.frequency.ns.string,
+                           ns,
                            node->special_expr.frequency.value,
                            node->special_expr.frequency.length)
                         < 0) {
                         abort();
                     }
+                    bfree(ns);
                     return expr;
+                }
                 case AST_SPECIAL_SEGMENT: {
                     const char* op;
                     switch(node->special_expr.segment.op) {
@@ -284,14 +283,16 @@ char* ast_to_string(const struct ast_node* node)
                             break;
                         default: abort();
                     }
+                    char* pattern = quote_string(node->special_expr.string.pattern);
                     if(basprintf(&expr,
-                           "%s(%s, \"%s\")",
+                           "%s(%s, %s)",
                            op,
                            node->special_expr.string.attr_var.attr,
-                           node->special_expr.string.pattern)
+                           pattern)
                         < 0) {
                         abort();
                     }
+                    bfree(pattern);
                     return expr;
                 }
                 default: abort();
diff --git a/src/value.c b/src/value.c
index 3913a47..458740d 100644
--- a/src/value.c
+++ b/src/value.c
@@ -113,21 +113,40 @@ void add_string_list_value(struct string_value string, struct betree_string_list
     list->count++;
 }
 
+// Only a text written in single quotes contains a double quote that is not escaped
+char* quote_string(const char* text)
+{
+    char quote = '"';
+    for(const char* c = text; *c != '\0'; c++) {
+        if(*c == '\\' && c[1] != '\0') {
+            c++;
+        }
+        else if(*c == '"') {
+            quote = '\'';
+        }
+    }
+    char* string;
+    if(basprintf(&string, "%c%s%c", quote, text, quote) < 0) {
+        abort();
+    }
+    return string;
+}
+
 char* string_list_value_to_string(struct betree_string_list* list)
 {
     char* string = NULL;
     for(size_t i = 0; i < list->count; i++) {
         char* new_string;
+        char* quoted = quote_string(list->strings[i].string);
         if(i != 0) {
-            if(basprintf(&new_string, "%s, \"%s\"", string, list->strings[i].string) < 0) {
+            if(basprintf(&new_string, "%s, %s", string, quoted) < 0) {
                 abort();
             }
             bfree(string);
+            bfree(quoted);
         }
         else {
-            if(basprintf(&new_string, "\"%s\"", list->strings[i].string) < 0) {
-                abort();
-            }
+            new_string = quoted;
         }
         string = new_string;
     }
diff --git a/src/value.h b/src/value.h
index 4505b96..cc1340a 100644
--- a/src/value.h
+++ b/src/value.h
@@ -120,6 +120,7 @@ struct betree_frequency_caps* make_frequency_caps();
 void add_integer_list_value(int64_t integer, struct betree_integer_list* list);
 char* integer_list_value_to_string(struct betree_integer_list* list);
 void add_string_list_value(struct string_value string, struct betree_string_list* list);
+char* quote_string(const char* text);
 char* string_list_value_to_string(struct betree_string_list* list);
 void add_segment(struct betree_segment* segment, struct betree_segments* list);
 void add_frequency(struct betree_frequency_cap* frequency, struct betree_frequency_caps* list);
-- 
2.43.0


From 63801ed46cc96e42c1a24816e2538a7306823a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 37/40] fix: initialise the map of a string map when it is
 added

---
 src/config.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/config.c b/src/config.c
index db65bef..1e3ff87 100644
--- a/src/config.c
+++ b/src/config.c
@@ -251,6 +251,7 @@ static void add_string_map(struct attr_var attr_var, struct config* config)
     config->string_maps[config->string_map_count].attr_var.attr = bstrdup(attr_var.attr);
     config->string_maps[config->string_map_count].attr_var.var = attr_var.var;
     config->string_maps[config->string_map_count].string_value_count = 0;
+    map_init(&config->string_maps[config->string_map_count].m);
     config->string_map_count++;
 }
 
@@ -278,9 +279,6 @@ static void add_to_integer_map(struct integer_map* integer_map, int64_t integer)
 
 static void add_to_string_map(struct string_map* string_map, const char* string)
 {
-    if(string_map->string_value_count == 0) {
-        map_init(&string_map->m);
-    }
     map_set(&string_map->m, string, string_map->string_value_count);
     string_map->string_value_count++;
 }
-- 
2.43.0


From 17a5601b20c8b9a1d391ca494e4fa4d51a19c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 38/40] fix: allow variables to be declared after subscriptions
 were made

---
 src/tree.c | 26 +++++++++++++-------------
 src/tree.h |  2 ++
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index bfd1efe..31ac59d 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -45,11 +45,10 @@ static void add_sub_to_eval(struct betree_sub* sub, struct subs_to_eval* subs)
 
 enum short_circuit_e { SHORT_CIRCUIT_PASS, SHORT_CIRCUIT_FAIL, SHORT_CIRCUIT_NONE };
 
-static enum short_circuit_e try_short_circuit(size_t attr_domains_count,
+static enum short_circuit_e try_short_circuit(
     const struct short_circuit* short_circuit, const uint64_t* undefined)
 {
-    size_t count = attr_domains_count / 64 + 1;
-    for(size_t i = 0; i < count; i++) {
+    for(size_t i = 0; i < short_circuit->count; i++) {
         bool pass = short_circuit->pass[i] & undefined[i];
         if(pass) {
             return SHORT_CIRCUIT_PASS;
@@ -62,14 +61,13 @@ static enum short_circuit_e try_short_circuit(size_t attr_domains_count,
     return SHORT_CIRCUIT_NONE;
 }
 
-static bool match_sub(size_t attr_domains_count,
-    const struct betree_variable** preds,
+static bool match_sub(const struct betree_variable** preds,
     const struct betree_sub* sub,
     struct report* report,
     struct memoize* memoize,
     const uint64_t* undefined)
 {
-    enum short_circuit_e short_circuit = try_short_circuit(attr_domains_count, &sub->short_circuit, undefined);
+    enum short_circuit_e short_circuit = try_short_circuit(&sub->short_circuit, undefined);
     if(short_circuit != SHORT_CIRCUIT_NONE) {
         if(report != NULL) {
             report->shorted++;
@@ -194,7 +192,7 @@ bool sub_is_enclosed(const struct attr_domain** attr_domains, const struct betre
     if(cdir == NULL) {
         return false;
     }
-    if(test_bit(sub->attr_vars, cdir->attr_var.var) == true) {
+    if(sub_has_attribute(sub, cdir->attr_var.var)) {
         const struct attr_domain* attr_domain = get_attr_domain(attr_domains, cdir->attr_var.var);
         struct value_bound bound = get_variable_bound(attr_domain, sub->expr);
         switch(attr_domain->bound.value_type) {
@@ -431,7 +429,7 @@ bool insert_be_tree(
     if(cnode->pdir != NULL) {
         float max_score = -DBL_MAX;
         for(size_t i = 0; i < config->attr_domain_count; i++) {
-            if(test_bit(sub->attr_vars, i) == false) {
+            if(!sub_has_attribute(sub, i)) {
                 continue;
             }
             betree_var_t variable_id = i;
@@ -491,7 +489,8 @@ static bool is_overflowed(const struct lnode* lnode)
 
 bool sub_has_attribute(const struct betree_sub* sub, betree_var_t variable_id)
 {
-    return test_bit(sub->attr_vars, variable_id);
+    // The variable may be declared after the sub was made
+    return variable_id / 64 < sub->short_circuit.count && test_bit(sub->attr_vars, variable_id);
 }
 
 bool sub_has_attribute_str(struct config* config, const struct betree_sub* sub, const char* attr)
@@ -672,7 +671,7 @@ static size_t count_attr_in_lnode(betree_var_t variable_id, const struct lnode*
             fprintf(stderr, "%s, sub is NULL\n", __func__);
             continue;
         }
-        if(test_bit(sub->attr_vars, variable_id) == true) {
+        if(sub_has_attribute(sub, variable_id)) {
             count++;
         }
     }
@@ -765,7 +764,7 @@ static bool get_next_highest_score_unused_attr(
     for(size_t i = 0; i < lnode->sub_count; i++) {
         const struct betree_sub* sub = lnode->subs[i];
         for(size_t j = 0; j < config->attr_domain_count; j++) {
-            if(test_bit(sub->attr_vars, j) == false) {
+            if(!sub_has_attribute(sub, j)) {
                 continue;
             }
             betree_var_t current_variable_id = j;
@@ -1606,6 +1605,7 @@ struct betree_sub* make_sub(struct config* config, betree_sub_t id, struct ast_n
     sub->attr_vars = bcalloc(count * sizeof(*sub->attr_vars));
     sub->expr = expr;
     fill_pred(sub, sub->expr);
+    sub->short_circuit.count = count;
     sub->short_circuit.pass = bcalloc(count * sizeof(*sub->short_circuit.pass));
     sub->short_circuit.fail = bcalloc(count * sizeof(*sub->short_circuit.fail));
     fill_short_circuit(config, sub);
@@ -1769,7 +1769,7 @@ bool betree_search_with_preds(const struct config* config,
     for(size_t i = 0; i < subs.count; i++) {
         const struct betree_sub* sub = subs.subs[i];
         report->evaluated++;
-        if(match_sub(config->attr_domain_count, preds, sub, report, &memoize, undefined) == true) {
+        if(match_sub(preds, sub, report, &memoize, undefined) == true) {
             add_sub(sub->id, report);
         }
     }
@@ -1790,7 +1790,7 @@ bool betree_exists_with_preds(const struct config* config, const struct betree_v
     bool result = false;
     for(size_t i = 0; i < subs.count; i++) {
         const struct betree_sub* sub = subs.subs[i];
-        if(match_sub(config->attr_domain_count, preds, sub, NULL, &memoize, undefined) == true) {
+        if(match_sub(preds, sub, NULL, &memoize, undefined) == true) {
             result = true;
             break;
         }
diff --git a/src/tree.h b/src/tree.h
index dbc2fcb..259cd4f 100644
--- a/src/tree.h
+++ b/src/tree.h
@@ -15,6 +15,8 @@ struct betree_variable {
 };
 
 struct short_circuit {
+    // Number of words, variables can be declared later
+    size_t count;
     uint64_t* pass;
     uint64_t* fail;
 };
-- 
2.43.0


From 74ab276f3cff1ccef0c23598e8901152edf25cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 39/40] fix: ids and counts of frequency caps were truncated to
 32 bits

---
 src/ast.c     |  2 +-
 src/ast.h     |  2 +-
 src/betree.c  |  4 ++--
 src/betree.h  |  2 +-
 src/special.c |  4 ++--
 src/special.h |  4 ++--
 src/value.c   | 12 ++++++------
 src/value.h   | 12 ++++++------
 8 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 67a7088..63837be 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1948,7 +1948,7 @@ bool assign_constants(
                     if(success == false) {
                         return false;
                     }
-                    node->special_expr.frequency.id = (uint32_t)constant;
+                    node->special_expr.frequency.id = constant;
                     return true;
                 }
                 case AST_SPECIAL_SEGMENT:
diff --git a/src/ast.h b/src/ast.h
index a5b947e..6ea6276 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -188,7 +188,7 @@ struct ast_special_frequency {
     int64_t value;
     size_t length;
     struct attr_var now;
-    uint32_t id;
+    int64_t id;
 };
 
 enum ast_special_segment_e {
diff --git a/src/betree.c b/src/betree.c
index 1387aa0..09b457b 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -849,11 +849,11 @@ struct betree_frequency_caps* betree_make_frequency_caps(size_t count)
 }
 
 struct betree_frequency_cap* betree_make_frequency_cap(const char* stype,
-    uint32_t id,
+    int64_t id,
     const char* ns,
     bool timestamp_defined,
     int64_t timestamp,
-    uint32_t value)
+    int64_t value)
 {
     enum frequency_type_e type = get_type_from_string(stype);
     if(type == FREQUENCY_TYPE_INVALID) {
diff --git a/src/betree.h b/src/betree.h
index d8aed61..4b6bec9 100644
--- a/src/betree.h
+++ b/src/betree.h
@@ -65,7 +65,7 @@ struct betree_segment* betree_make_segment(int64_t id, int64_t timestamp);
 void betree_add_segment(struct betree_segments* segments, size_t index, struct betree_segment* segment);
 
 struct betree_frequency_caps* betree_make_frequency_caps(size_t count);
-struct betree_frequency_cap* betree_make_frequency_cap(const char* stype, uint32_t id, const char* ns, bool timestamp_defined, int64_t timestamp, uint32_t value);
+struct betree_frequency_cap* betree_make_frequency_cap(const char* stype, int64_t id, const char* ns, bool timestamp_defined, int64_t timestamp, int64_t value);
 void betree_add_frequency_cap(struct betree_frequency_caps* frequency_caps, size_t index, struct betree_frequency_cap* frequency_cap);
 
 struct betree_variable_definition {
diff --git a/src/special.c b/src/special.c
index 3c930fd..10f299b 100644
--- a/src/special.c
+++ b/src/special.c
@@ -10,9 +10,9 @@
 
 bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
-    uint32_t id,
+    int64_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now)
 {
diff --git a/src/special.h b/src/special.h
index e1fd560..0a1634c 100644
--- a/src/special.h
+++ b/src/special.h
@@ -8,9 +8,9 @@
 
 bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
-    uint32_t id,
+    int64_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now);
 bool segment_within(
diff --git a/src/value.c b/src/value.c
index 458740d..072c967 100644
--- a/src/value.c
+++ b/src/value.c
@@ -205,22 +205,22 @@ struct betree_segment* make_segment(int64_t id, int64_t timestamp)
 }
 
 struct betree_frequency_cap* make_frequency_cap(const char* stype,
-    uint32_t id,
+    int64_t id,
     struct string_value namespace,
     bool timestamp_defined,
     int64_t timestamp,
-    uint32_t value)
+    int64_t value)
 {
     enum frequency_type_e type = get_type_from_string(stype);
     return make_frequency_cap_with_type(type, id, namespace, timestamp_defined, timestamp, value);
 }
 
 struct betree_frequency_cap* make_frequency_cap_with_type(enum frequency_type_e type,
-    uint32_t id,
+    int64_t id,
     struct string_value namespace,
     bool timestamp_defined,
     int64_t timestamp,
-    uint32_t value)
+    int64_t value)
 {
     struct betree_frequency_cap* frequency_cap = bmalloc(sizeof(*frequency_cap));
     frequency_cap->type = type;
@@ -384,12 +384,12 @@ char* frequency_cap_to_string(struct betree_frequency_cap* cap)
     char* string = NULL;
     const char* type = frequency_type_to_string(cap->type);
     if(cap->timestamp_defined) {
-        if(basprintf(&string, "[[\"%s\", %u, \"%s\"], %u, %ld]", type, cap->id, cap->namespace.string, cap->value, cap->timestamp) < 0) {
+        if(basprintf(&string, "[[\"%s\", %ld, \"%s\"], %ld, %ld]", type, cap->id, cap->namespace.string, cap->value, cap->timestamp) < 0) {
             abort();
         }
     }
     else {
-        if(basprintf(&string, "[[\"%s\", %u, \"%s\"], %u, undefined]", type, cap->id, cap->namespace.string, cap->value) < 0) {
+        if(basprintf(&string, "[[\"%s\", %ld, \"%s\"], %ld, undefined]", type, cap->id, cap->namespace.string, cap->value) < 0) {
             abort();
         }
     }
diff --git a/src/value.h b/src/value.h
index cc1340a..959fb95 100644
--- a/src/value.h
+++ b/src/value.h
@@ -63,11 +63,11 @@ enum frequency_type_e {
 
 struct betree_frequency_cap {
     enum frequency_type_e type;
-    uint32_t id;
+    int64_t id;
     struct string_value namespace;
     bool timestamp_defined;
     int64_t timestamp;
-    uint32_t value;
+    int64_t value;
 };
 
 struct betree_frequency_caps {
@@ -126,17 +126,17 @@ void add_segment(struct betree_segment* segment, struct betree_segments* list);
 void add_frequency(struct betree_frequency_cap* frequency, struct betree_frequency_caps* list);
 struct betree_segment* make_segment(int64_t id, int64_t timestamp);
 struct betree_frequency_cap* make_frequency_cap(const char* stype,
-    uint32_t id,
+    int64_t id,
     struct string_value namespace,
     bool timestamp_defined,
     int64_t timestamp,
-    uint32_t value);
+    int64_t value);
 struct betree_frequency_cap* make_frequency_cap_with_type(enum frequency_type_e type,
-    uint32_t id,
+    int64_t id,
     struct string_value namespace,
     bool timestamp_defined,
     int64_t timestamp,
-    uint32_t value);
+    int64_t value);
 
 enum frequency_type_e get_type_from_string(const char* stype);
 char* segments_value_to_string(struct betree_segments* list);
-- 
2.43.0


From a5d4abbe495aaea4e6d903068c61623f111f1ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:03 +0000
Subject: [PATCH 40/40] fix: negative segment ids and cap lengths were printed
 as large positive numbers

---
 src/printer.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/printer.c b/src/printer.c
index f13caa8..81dbde1 100644
--- a/src/printer.c
+++ b/src/printer.c
@@ -223,11 +223,11 @@ char* ast_to_string(const struct ast_node* node)
                 case AST_SPECIAL_FREQUENCY: {
                     char* ns = quote_string(node->special_expr.frequency.ns.string);
                     if(basprintf(&expr,
-                           "within_frequency_cap(\"%s\", %s, %ld, %zu)",
+                           "within_frequency_cap(\"%s\", %s, %ld, %ld)",
                            frequency_type_to_string(node->special_expr.frequency.type),
                            ns,
                            node->special_expr.frequency.value,
-                           node->special_expr.frequency.length)
+                           (int64_t)node->special_expr.frequency.length)
                         < 0) {
                         abort();
                     }
@@ -246,10 +246,10 @@ char* ast_to_string(const struct ast_node* node)
                         default: abort();
                     }
                     if(basprintf(&expr,
-                           "%s(%s, %lu, %ld)",
+                           "%s(%s, %ld, %ld)",
                            op,
                            node->special_expr.segment.attr_var.attr,
-                           node->special_expr.segment.segment_id,
+                           (int64_t)node->special_expr.segment.segment_id,
                            node->special_expr.segment.seconds)
                         < 0) {
                         abort();
-- 
2.43.0

