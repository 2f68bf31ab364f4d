From 5510c40b70a36c0ad54da25f0181e8130d34670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 01/57] fix: apply the binary and/or rewrite rules to
 two-operand nodes only

---
 compiler/c2po/rewrite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/rewrite.py b/compiler/c2po/rewrite.py
index f672c7f..0512a87 100644
--- a/compiler/c2po/rewrite.py
+++ b/compiler/c2po/rewrite.py
@@ -129,8 +129,8 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                     lb = expr.interval.lb + opnd1.interval.lb
                     ub = expr.interval.ub + opnd1.interval.ub
                     new = cpt.TemporalOperator.Future(expr.loc, lb, ub, opnd2)
-        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-            # Assume binary for now
+        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND) and len(expr.children) == 2:
+            # Only binary for now
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
@@ -220,8 +220,8 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                         cpt.Operator.LogicalAnd(expr.loc, [lhs_lhs, rhs_lhs]),
                         lhs_rhs
                     )
-        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-            # Assume binary for now
+        elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR) and len(expr.children) == 2:
+            # Only binary for now
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
-- 
2.43.0


From fb1e83200f3065f21a2b622037a6360b225736a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 02/57] fix: visit the replacement of a replaced node in
 preorder traversals

---
 compiler/c2po/cpt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index d31da96..78dd4b3 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1660,12 +1660,15 @@ def preorder(
 
         yield expr
 
-        # if expr has been replaced since we just yielded it, need to traverse down the replacement node
-        cur = expr.replacement if expr.replacement else expr
+        # if expr has been replaced since we just yielded it, need to visit the replacement node (which may itself have to
+        # be replaced) and traverse down it
+        if expr.replacement:
+            stack.append(expr.replacement)
+            continue
 
-        visited.add(id(cur))
+        visited.add(id(expr))
 
-        for child in reversed(cur.children):
+        for child in reversed(expr.children):
             stack.append(child)
 
 def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expression]) -> Expression:
-- 
2.43.0


From a950384329598a743c546f7c49e24b07ad156abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 03/57] fix: replace equivalences in the Boolean normal form

---
 compiler/c2po/transform.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/compiler/c2po/transform.py b/compiler/c2po/transform.py
index 0dd4e06..36fa544 100644
--- a/compiler/c2po/transform.py
+++ b/compiler/c2po/transform.py
@@ -60,6 +60,29 @@ def to_bnf(program: cpt.Program, context: cpt.Context, options: dict[str, Any])
                     ],
                 )
             )
+        elif expr.operator is cpt.OperatorKind.LOGICAL_EQUIV:
+            lhs = expr.children[0]
+            rhs = expr.children[1]
+            # p <-> q = !(p && !q) && !(!p && q)
+            expr.replace(
+                cpt.Operator.LogicalAnd(
+                    expr.loc,
+                    [
+                        cpt.Operator.LogicalNegate(
+                            expr.loc,
+                            cpt.Operator.LogicalAnd(
+                                lhs.loc, [lhs, cpt.Operator.LogicalNegate(rhs.loc, rhs)]
+                            ),
+                        ),
+                        cpt.Operator.LogicalNegate(
+                            expr.loc,
+                            cpt.Operator.LogicalAnd(
+                                lhs.loc, [cpt.Operator.LogicalNegate(lhs.loc, lhs), rhs]
+                            ),
+                        ),
+                    ],
+                )
+            )
         elif expr.operator is cpt.OperatorKind.FUTURE:
             expr = cast(cpt.TemporalOperator, expr)
             operand = expr.children[0]
-- 
2.43.0


From b9b74cf126a79717e9ca262d987e7dc9b01e0cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 04/57] fix: let instructions with constant operands stop once
 the constant is consumed

---
 monitors/c/src/engines/mltl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 5b19179..e9a25b0 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -36,7 +36,8 @@ static r2u2_bool check_operand_data(r2u2_monitor_t* monitor, r2u2_mltl_instructi
             *result = set_verdict_false(monitor->time_stamp);
           }
         }
-        return true;
+        // A constant is always known, but there is nothing new to read once this instruction has consumed it
+        return get_verdict_time(*result) >= monitor->queue_arena.control_blocks[instr->memory_reference].next_time;
 
       case R2U2_FT_OP_ATOMIC:
         // Only load in atomics on first loop of time step
-- 
2.43.0


From bfdbbdae40ed6eb1a28d89fac375a9891e28fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 05/57] fix: forget Since/Triggered witnesses once both
 operands break them

The right operand's last (in)validating time stayed in force after a time
at which both operands were false (Since) or true (Triggered), and reading
both operands at one shared next_time let stale or skipped left operand
values decide later verdicts. Read the left operand from the first
unreported time on and the right operand from the first unread one.
---
 monitors/c/src/engines/mltl.c | 183 +++++++++++++---------------------
 1 file changed, 68 insertions(+), 115 deletions(-)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index e9a25b0..3437a1e 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -289,78 +289,55 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         break;
       }
 
+      // The left operand is needed from the first unreported time on, the right operand from the first unread one
+      r2u2_time start = get_verdict_truth(temp->previous) ? get_verdict_time(temp->previous) + 1 - temp->lower_bound : 0;
+      r2u2_time next = ctrl->next_time;
+      ctrl->next_time = start;
       op0_rdy = check_operand_data(monitor, instr, 0, &op0);
+      ctrl->next_time = next;
       op1_rdy = check_operand_data(monitor, instr, 1, &op1);
 
+      if (op1_rdy && get_verdict_time(op1) < start && monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+        // Reading past what has already been reported is progress, there may be more to read
+        monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+      }
+
       if (op1_rdy) {
         if (get_verdict_truth(op1)) {
-          R2U2_DEBUG_PRINT("\tRight Op True\n");
           temp->edge = set_verdict_true(op1);
           ctrl->next_time = get_verdict_time(op1) + 1;
-          if (get_verdict_time(op1) >=  sub_min_zero((get_verdict_time(temp->previous)), (temp->lower_bound))){
+          if (get_verdict_time(op1) >= start){
+            R2U2_DEBUG_PRINT("\tRight Op True\n");
             result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
-            // To handle startup behavior, the truth bit of the previous result
-            // storage is used to flag that an ouput has been produced, which can
-            // differentiate between a value of 0 for no output vs output produced.
-            // Note: Since only the timestamp of the previous result is ever checked,
-            // this overloading of the truth bit doesn't cause confict with other logic 
-            // and preserves startup behavior.
-            if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-            ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-              push_result(monitor, instr, result);
-              ctrl->next_time = get_verdict_time(op1) + 1;
-              temp->previous = result;
-              error_cond = R2U2_OK;
-              break;
-            }
+            push_result(monitor, instr, result);
+            temp->previous = set_verdict_true(result);
+            error_cond = R2U2_OK;
+            break;
           }
+        } else if (get_verdict_time(op1) < start) {
+          ctrl->next_time = get_verdict_time(op1) + 1;
         } else {
-          if (!(get_verdict_truth(temp->edge)) || (get_verdict_time(temp->edge)) <= sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) && (get_verdict_time(temp->previous)) >= temp->upper_bound){
-            ctrl->next_time = get_verdict_time(op1) + 1;
-            if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
-              result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
-              if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-              ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-                R2U2_DEBUG_PRINT("\tRight Op never true from [i-ub,i-lb]\n");
-                push_result(monitor, instr, result);
-                ctrl->next_time = get_verdict_time(op1) + 1;
-                temp->previous = set_verdict_true(result);
-                error_cond = R2U2_OK;
-                break;
-              }
-            }
+          if (op0_rdy && !(get_verdict_truth(op0))) {
+            R2U2_DEBUG_PRINT("\tBoth False\n");
+            temp->edge = set_verdict_false(temp->edge);
           }
-          if (op0_rdy && !(get_verdict_truth(op0))){
+          if (!(get_verdict_truth(temp->edge)) || get_verdict_time(temp->edge) + temp->upper_bound < start + temp->lower_bound) {
+            R2U2_DEBUG_PRINT("\tRight Op never true from [i-ub,i-lb]\n");
             ctrl->next_time = get_verdict_time(op1) + 1;
-            if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
-              result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
-              if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-              ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-                R2U2_DEBUG_PRINT("\tBoth False\n");
-                push_result(monitor, instr, result);
-                ctrl->next_time = get_verdict_time(op1) + 1;
-                temp->previous = set_verdict_true(result);
-                error_cond = R2U2_OK;
-                break;
-              }
-            }
+            result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
+            push_result(monitor, instr, result);
+            temp->previous = set_verdict_true(result);
+            error_cond = R2U2_OK;
+            break;
           }
         }
       }
-      if (op0_rdy && get_verdict_truth(op0) && \
-        get_verdict_time(op0) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound) && get_verdict_truth(temp->edge) && \
-        ((get_verdict_time(temp->edge)) > sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) || (get_verdict_time(temp->previous)) < temp->upper_bound)) {
-        result = set_verdict_true(min(get_verdict_time(op0) + temp->lower_bound, (get_verdict_time(temp->edge)) + temp->upper_bound));
-          if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-            ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-              R2U2_DEBUG_PRINT("\tLeft Op True Since Right Op True\n");
-              r2u2_time next = max(ctrl->next_time, sub_min_zero(get_verdict_time(result), temp->upper_bound) + 1);
-              push_result(monitor, instr, result);
-              ctrl->next_time = next;
-              temp->previous = result;
-              error_cond = R2U2_OK;
-              break;
-          }
+      if (op0_rdy && get_verdict_truth(op0) && get_verdict_truth(temp->edge) && \
+        get_verdict_time(temp->edge) + temp->upper_bound >= start + temp->lower_bound) {
+        R2U2_DEBUG_PRINT("\tLeft Op True Since Right Op True\n");
+        result = set_verdict_true(min(get_verdict_time(op0) + temp->lower_bound, get_verdict_time(temp->edge) + temp->upper_bound));
+        push_result(monitor, instr, result);
+        temp->previous = set_verdict_true(result);
       }
 
       error_cond = R2U2_OK;
@@ -379,79 +356,55 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         break;
       }
 
+      // The left operand is needed from the first unreported time on, the right operand from the first unread one
+      r2u2_time start = get_verdict_truth(temp->previous) ? get_verdict_time(temp->previous) + 1 - temp->lower_bound : 0;
+      r2u2_time next = ctrl->next_time;
+      ctrl->next_time = start;
       op0_rdy = check_operand_data(monitor, instr, 0, &op0);
+      ctrl->next_time = next;
       op1_rdy = check_operand_data(monitor, instr, 1, &op1);
 
+      if (op1_rdy && get_verdict_time(op1) < start && monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+        // Reading past what has already been reported is progress, there may be more to read
+        monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+      }
+
       if (op1_rdy) {
         if (!(get_verdict_truth(op1))) {
-          R2U2_DEBUG_PRINT("\tRight Op False\n");
           temp->edge = set_verdict_true(op1);
           ctrl->next_time = get_verdict_time(op1) + 1;
-          if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), (temp->lower_bound))){
+          if (get_verdict_time(op1) >= start){
+            R2U2_DEBUG_PRINT("\tRight Op False\n");
             result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
-            // To handle startup behavior, the truth bit of the previous result
-            // storage is used to flag that an ouput has been produced, which can
-            // differentiate between a value of 0 for no output vs output produced.
-            // Note: Since only the timestamp of the previous result is ever checked,
-            // this overloading of the truth bit doesn't cause confict with other logic 
-            // and preserves startup behavior.
-            if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-            ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-              push_result(monitor, instr, result);
-              ctrl->next_time = get_verdict_time(op1) + 1;
-              temp->previous = set_verdict_true(result);
-              error_cond = R2U2_OK;
-              break;
-            }
+            push_result(monitor, instr, result);
+            temp->previous = set_verdict_true(result);
+            error_cond = R2U2_OK;
+            break;
           }
+        } else if (get_verdict_time(op1) < start) {
+          ctrl->next_time = get_verdict_time(op1) + 1;
         } else {
-          if (!(get_verdict_truth(temp->edge)) || (get_verdict_time(temp->edge)) <= sub_min_zero((get_verdict_time(temp->previous)),temp->upper_bound) && (get_verdict_time(temp->previous)) >= temp->upper_bound){
-            ctrl->next_time = get_verdict_time(op1) + 1;
-            if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
-              result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
-              if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-              ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-                R2U2_DEBUG_PRINT("\tRight Op true from [i-ub,i-lb]\n");
-                push_result(monitor, instr, result);
-                ctrl->next_time = get_verdict_time(op1) + 1;
-                temp->previous = result;
-                error_cond = R2U2_OK;
-                break;
-              }
-            }
+          if (op0_rdy && get_verdict_truth(op0)) {
+            R2U2_DEBUG_PRINT("\tBoth True\n");
+            temp->edge = set_verdict_false(temp->edge);
           }
-          if (op0_rdy && get_verdict_truth(op0)){
+          if (!(get_verdict_truth(temp->edge)) || get_verdict_time(temp->edge) + temp->upper_bound < start + temp->lower_bound) {
+            R2U2_DEBUG_PRINT("\tRight Op true from [i-ub,i-lb]\n");
             ctrl->next_time = get_verdict_time(op1) + 1;
-            if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
-              result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
-              if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-              ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-                R2U2_DEBUG_PRINT("\tBoth True\n");
-                push_result(monitor, instr, result);
-                ctrl->next_time = get_verdict_time(op1) + 1;
-                temp->previous = result;
-                error_cond = R2U2_OK;
-                break;
-              }
-            }
+            result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
+            push_result(monitor, instr, result);
+            temp->previous = set_verdict_true(result);
+            error_cond = R2U2_OK;
+            break;
           }
         }
       }
-      if (op0_rdy && !(get_verdict_truth(op0)) && \
-        get_verdict_time(op0) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound) && get_verdict_truth(temp->edge) && \
-        ((get_verdict_time(temp->edge)) > sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) || (get_verdict_time(temp->previous)) < temp->upper_bound)) {
-        R2U2_DEBUG_PRINT("We are here!\n");
-        result = set_verdict_false(min(get_verdict_time(op0) + temp->lower_bound, (get_verdict_time(temp->edge)) + temp->upper_bound));
-        if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
-            ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
-              R2U2_DEBUG_PRINT("\tLeft Op False Since Right Op False\n");
-              r2u2_time next = max(ctrl->next_time, sub_min_zero(get_verdict_time(result), temp->upper_bound) + 1);
-              push_result(monitor, instr, result);
-              ctrl->next_time = next;
-              temp->previous = set_verdict_true(result);
-              error_cond = R2U2_OK;
-              break;
-            }
+      if (op0_rdy && !(get_verdict_truth(op0)) && get_verdict_truth(temp->edge) && \
+        get_verdict_time(temp->edge) + temp->upper_bound >= start + temp->lower_bound) {
+        R2U2_DEBUG_PRINT("\tLeft Op True Since Right Op False\n");
+        result = set_verdict_false(min(get_verdict_time(op0) + temp->lower_bound, get_verdict_time(temp->edge) + temp->upper_bound));
+        push_result(monitor, instr, result);
+        temp->previous = set_verdict_true(result);
       }
 
       error_cond = R2U2_OK;
-- 
2.43.0


From 333ba043bb396c7362f4da1d1cf99f6fccd399c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 06/57] fix: return a defined status from a step without
 instructions

---
 monitors/c/src/engines/engines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitors/c/src/engines/engines.c b/monitors/c/src/engines/engines.c
index ebbb6a6..e7ea35c 100644
--- a/monitors/c/src/engines/engines.c
+++ b/monitors/c/src/engines/engines.c
@@ -5,7 +5,7 @@
 #include "../internals/debug.h"
 
 r2u2_status_t r2u2_engine_step(r2u2_monitor_t* monitor) {
-    r2u2_status_t error_cond;
+    r2u2_status_t error_cond = R2U2_OK;
 
     // Operate over all BZ instructions first and only once on each step forward
     R2U2_DEBUG_PRINT("(BZ) %d.%zu\n",monitor->time_stamp, monitor->bz_program_count.curr_program_count);
-- 
2.43.0


From 15dcb65527ee467484fb530035a985df4385dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 07/57] fix: pack integer constants as signed and all other
 operands as unsigned

The format of an integer operand was chosen the wrong way round, so a
negative constant (x > -5 with --booleanizer) made struct.pack raise.
---
 compiler/c2po/assemble.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 5fd8629..d971dd0 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -839,7 +839,7 @@ def pack_bz_instruction(
         1,
         f"packing bz instruction: {instruction}\n\t"
         f"{format_strs[FieldType.ENGINE_TAG]:2} "
-        f"{format_strs[FieldType.BZ_OPERAND_FLOAT] if isinstance(instruction.operand1, float) else (format_strs[FieldType.BZ_OPERAND_ID] if (instruction.operator is BZOperator.ICONST) else format_strs[FieldType.BZ_OPERAND_INT])} "
+        f"{format_strs[FieldType.BZ_OPERAND_FLOAT] if isinstance(instruction.operand1, float) else (format_strs[FieldType.BZ_OPERAND_INT] if (instruction.operator is BZOperator.ICONST) else format_strs[FieldType.BZ_OPERAND_ID])} "
         f"{format_strs[FieldType.BZ_ID]:2} "
         f"{format_strs[FieldType.BZ_ID]:2} "
         f"{format_strs[FieldType.BZ_OPERATOR]:2} "
@@ -857,9 +857,9 @@ def pack_bz_instruction(
     format_str += (
         format_strs[FieldType.BZ_OPERAND_FLOAT]
         if isinstance(instruction.operand1, float)
-        else format_strs[FieldType.BZ_OPERAND_ID]
-        if instruction.operator is BZOperator.ICONST
         else format_strs[FieldType.BZ_OPERAND_INT]
+        if instruction.operator is BZOperator.ICONST
+        else format_strs[FieldType.BZ_OPERAND_ID]
     )
     format_str += (
         format_strs[FieldType.BZ_ID]
-- 
2.43.0


From 2fa82f5d56535e4a533d7e560e3c622e7dd60484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 08/57] fix: report a constant past-time formula instead of
 crashing

Future-time formulas that are constants are reported as unsupported;
the same formula under PTSPEC raised KeyError.
---
 compiler/c2po/assemble.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index d971dd0..2406ee8 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -557,6 +557,11 @@ def gen_pt_instruction(
     ptid = len(instructions)
 
     if isinstance(expr, cpt.Formula):
+        # Special case: if formula is a constant, report error
+        if isinstance(expr.get_expr(), cpt.Constant):
+            log.error(f"found constant formula '{expr}', this is not supported")
+            return None
+
         operand1_type, operand1_value = (
             TLOperandType.SUBFORMULA,
             instructions[expr.get_expr()].id,
-- 
2.43.0


From 739995eb2807292ac839a43c24551c27d24674db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 09/57] fix: count the last contract when the contract table is
 full

With R2U2_AUX_MAX_CONTRACTS equal to the number of contracts (what the
compiler's bounds files set) the last contract was never reported.
---
 monitors/c/src/internals/process_binary.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monitors/c/src/internals/process_binary.c b/monitors/c/src/internals/process_binary.c
index 77fbcbe..723a3c9 100644
--- a/monitors/c/src/internals/process_binary.c
+++ b/monitors/c/src/internals/process_binary.c
@@ -91,6 +91,7 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
               R2U2_DEBUG_PRINT("Mapping contract: %s\n", (aux_arena->contract_control_blocks)[aux_contract_num].spec_str);
             } else {
               // Done processing Formulas and ran out of space to save any more Contract information
+              aux_contract_num++;
               length = 0;
               break;
             }
-- 
2.43.0


From 4cb6cfdc50cde2ff91acae1efac2f6fd705231eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 10/57] fix: keep enumerations when copying a context and drop
 them when clearing it

push followed by pop lost the members of every enumeration, so desugar left
them in place; parsing a second program with the same enumeration failed.
---
 compiler/c2po/cpt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 78dd4b3..36e5b3f 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1498,6 +1498,7 @@ class Context:
         """
         self.definitions.clear()
         self.structs.clear()
+        self.enums.clear()
         self.signals.clear()
         self.variables.clear()
         self.specifications.clear()
@@ -1572,6 +1573,7 @@ class Context:
         new = Context()
         new.definitions = { k: v for k, v in self.definitions.items() }
         new.structs = { k: v for k, v in self.structs.items() }
+        new.enums = { k: v for k, v in self.enums.items() }
         new.signals = { k: v for k, v in self.signals.items() }
         new.variables = { k: v for k, v in self.variables.items() }
         new.specifications = { k: v for k, v in self.specifications.items() }
-- 
2.43.0


From 41fb2a7c2188fcdc70f8fface8aca2f57b21d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 11/57] fix: copy every option and statistic of a context

The paths of the R2U2 executables, its last output and three statistics
were lost when a state was pushed and popped.
---
 compiler/c2po/cpt.py   | 3 +++
 compiler/c2po/stats.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 36e5b3f..783f9ac 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1602,6 +1602,9 @@ class Context:
         new.map_filename = self.map_filename
         new.egglog_path = self.egglog_path
         new.smt_solver_path = self.smt_solver_path
+        new.r2u2_c_path = self.r2u2_c_path
+        new.r2u2_bin_path = self.r2u2_bin_path
+        new.r2u2_output = self.r2u2_output
         new.mission_time = self.mission_time
         new.enable_booleanizer = self.enable_booleanizer
         new.script_filename = self.script_filename
diff --git a/compiler/c2po/stats.py b/compiler/c2po/stats.py
index 472a63e..1aee6a5 100644
--- a/compiler/c2po/stats.py
+++ b/compiler/c2po/stats.py
@@ -128,6 +128,7 @@ class Stats:
             asm_num_instructions=self.asm_num_instructions,
             asm_num_bz_instructions=self.asm_num_bz_instructions,
             asm_num_tl_instructions=self.asm_num_tl_instructions,
+            asm_num_tl_temporal_instructions=self.asm_num_tl_temporal_instructions,
             asm_num_cg_instructions=self.asm_num_cg_instructions,
             asm_num_scq_instructions=self.asm_num_scq_instructions,
             asm_num_aliases=self.asm_num_aliases,
@@ -139,6 +140,7 @@ class Stats:
             smt_num_calls=self.smt_num_calls,
             eqsat_encoding_time=self.eqsat_encoding_time,
             eqsat_solver_time=self.eqsat_solver_time,
+            eqsat_solver_status=self.eqsat_solver_status,
             eqsat_equiv_result=self.eqsat_equiv_result,
             eqsat_equiv_encoding_time=self.eqsat_equiv_encoding_time,
             eqsat_equiv_solver_time=self.eqsat_equiv_solver_time,
@@ -152,4 +154,5 @@ class Stats:
             r2u2_min_runtime=self.r2u2_min_runtime,
             r2u2_max_runtime=self.r2u2_max_runtime,
             r2u2_status=self.r2u2_status,
+            sabre_total_bytes=self.sabre_total_bytes,
         )
-- 
2.43.0


From a1b531c871b29ecba831ea88e441ec41fef69217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 12/57] fix: register the expressions of a copied program in
 the copied context

The context of the original program was made to refer to the copy's
definitions and specifications, so that transforming the original after a
push also changed the state restored by pop.
---
 compiler/c2po/cpt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 783f9ac..fed027d 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1779,8 +1779,9 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
     return memo[id(start)]
 
 def deepcopy_program_with_context(program: Program, context: Context) -> tuple[Program, Context]:
-    new_program = program.deepcopy(context)
+    # Copying the program registers the copied expressions in the context it is given
     new_context = context.deepcopy()
+    new_program = program.deepcopy(new_context)
     return new_program, new_context
 
 def rename(
-- 
2.43.0


From 109b717b0ea24ad3600e698872b071b326f06a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 13/57] fix: copy the current specifications of a program

A program copied after its contracts had been replaced got the contracts
back, so that a popped state was no longer desugared.
---
 compiler/c2po/cpt.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index fed027d..6628ef3 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1425,6 +1425,25 @@ class Program(Node):
     def deepcopy(self, context: Context) -> Program:
         sections = [s.deepcopy(context) for s in self.sections]
         new = Program(self.loc, sections)
+
+        # The specification sets may no longer be those of the sections (for example, if a contract has been replaced)
+        copies = {
+            id(spec): new_spec
+            for section, new_section in zip(self.sections, sections)
+            if isinstance(section, SpecSection)
+            for spec, new_spec in zip(section.specs, cast(SpecSection, new_section).specs)
+        }
+        for spec_set, new_spec_set in (
+            (self.ft_spec_set, new.ft_spec_set),
+            (self.pt_spec_set, new.pt_spec_set),
+        ):
+            new_spec_set.children = [
+                copies[id(spec)] if id(spec) in copies else spec.deepcopy(context)
+                for spec in spec_set.get_specs()
+            ]
+            for spec in new_spec_set.children:
+                spec.parents.add(new_spec_set)
+
         new.total_scq_size = self.total_scq_size
         new.is_dummy = self.is_dummy
         new.is_well_typed = self.is_well_typed
-- 
2.43.0


From 9ca198bfc1825f509d9160f0a0069c4053098b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 14/57] fix: do not share the assembly between a context and
 its copy

Parsing another program clears the list in place, so the popped state was
no longer assembled.
---
 compiler/c2po/cpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 6628ef3..851fd5b 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1602,9 +1602,9 @@ class Context:
         new.bound_vars = { k: v for k, v in self.bound_vars.items() }
         new.signal_mapping = { k: v for k, v in self.signal_mapping.items() }
 
-        # Deepcopy is not needed for the assembly list
+        # Deepcopy is not needed for the instructions, but the list is cleared in place
         # TODO: Consider warning user? Or have a check that assembly matches the program?
-        new.assembly = self.assembly 
+        new.assembly = list(self.assembly)
 
         new.trace = self.trace
         new.binary = self.binary
-- 
2.43.0


From 3dc05737565e09089de719fd61814e27c8e99f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 15/57] fix: fail on an out-of-bounds array slice

The error was reported but the slice stayed in the program and the pass,
unlike for an out-of-bounds index, succeeded.
---
 compiler/c2po/desugar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index db73c9e..6365314 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -368,8 +368,7 @@ def resolve_array_accesses(program: cpt.Program, context: cpt.Context, options:
             array_type = cast(types.ArrayType, expr.get_array().type)
             if expr.get_indices()[0] >= array_type.size or expr.get_indices()[1] >= array_type.size:
                 log.error(f"Out-of-bounds array index ({expr})", expr.loc)
-                context.status = False
-                continue
+                return command.ReturnCode.ERROR
 
             array = expr.get_array()
 
-- 
2.43.0


From 0c6fb06a18e7fbd86b6bf2f97126feb02b632949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 16/57] fix: copy array slices

Pushing a program with an array slice, or a set aggregation over one,
raised NotImplementedError.
---
 compiler/c2po/cpt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 851fd5b..9df1bfa 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1736,6 +1736,8 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
             new = ArrayExpression(expr.loc, [memo[id(c)] for c in expr.children])
         elif isinstance(expr, ArrayIndex):
             new = ArrayIndex(expr.loc, memo[id(expr.children[0])], expr.index)
+        elif isinstance(expr, ArraySlice):
+            new = ArraySlice(expr.loc, memo[id(expr.children[0])], expr.start, expr.stop)
         elif isinstance(expr, Struct):
             new = Struct(expr.loc, expr.symbol, expr.members, [memo[id(c)] for c in expr.children])
         elif isinstance(expr, StructAccess):
-- 
2.43.0


From 1e4094e37471394e9f3b3517cdee49a6725cdb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 17/57] fix: unroll a comparison of arrays for inequality into
 a disjunction

The arrays {a, b} and {c, d} were taken to differ only if both a and c and b
and d differ.
---
 compiler/c2po/desugar.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index 6365314..4036ab5 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -403,7 +403,13 @@ def unroll_array_accesses(program: cpt.Program, context: cpt.Context, options: d
 
         if isinstance(expr.children[0], cpt.ArrayExpression) and isinstance(expr.children[1], cpt.ArrayExpression):
             if cpt.is_relational_operator(expr) and isinstance(expr, cpt.Operator): # Only relational operators supported for now
-                new = cpt.Operator.LogicalAnd(
+                # Arrays differ if any of their elements do, all other relations hold for every element
+                combine = (
+                    cpt.Operator.LogicalOr
+                    if expr.operator is cpt.OperatorKind.NOT_EQUAL
+                    else cpt.Operator.LogicalAnd
+                )
+                new = combine(
                     expr.loc,
                     [
                         cpt.Operator(expr.loc, expr.operator, [expr.children[0].children[x],expr.children[1].children[x]])
-- 
2.43.0


From b847c8c272dbd98b8d2200cd4b912b07d2cc2c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 18/57] fix: write the members of an enum as the parser reads
 them

---
 compiler/c2po/cpt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 9df1bfa..f4c466b 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1154,8 +1154,8 @@ class EnumDefinition(Node):
             self.members[var_def.symbol] = var_def.expr
 
     def __str__(self) -> str:
-        members_str_list = [str(s) + "," for s in self.var_defs]
-        return self.symbol + ": {" + " ".join(members_str_list) + "}"
+        members_str_list = [f"{d.symbol}: {d.expr}" for d in self.var_defs]
+        return self.symbol + ": {" + ", ".join(members_str_list) + "}"
     
     def deepcopy(self, context: Context) -> EnumDefinition:
         var_defs = [v.deepcopy(context) for v in self.var_defs]
-- 
2.43.0


From 7a4d2deb68e52b0655267a8bda1de8e2dee09fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 19/57] fix: write the number of a counting set aggregation

---
 compiler/c2po/cpt.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index f4c466b..567f0b3 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2048,7 +2048,11 @@ def to_infix_str(start: Expression) -> str:
                 s += f"{expr.symbol}({expr.bound_var} : "
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_set()))
-            elif seen == 1:
+            elif seen == 1 and expr.get_num() is not None:
+                s += ", "
+                stack.append((seen + 1, expr))
+                stack.append((0, expr.get_num()))
+            elif seen == len(expr.children) - 2:
                 s += ")("
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_expr()))
@@ -2171,7 +2175,11 @@ def to_prefix_str(start: Expression, with_internal_labels: bool = False) -> str:
                 s += f"({expr.symbol} ({expr.bound_var} : "
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_set()))
-            elif seen == 1:
+            elif seen == 1 and expr.get_num() is not None:
+                s = s[:-1] + ", "
+                stack.append((seen + 1, expr))
+                stack.append((0, expr.get_num()))
+            elif seen == len(expr.children) - 2:
                 s = s[:-1] + ") "
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_expr()))
-- 
2.43.0


From 3c39876bd46d95aaaaf25b8cba20b8dfccb9b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 20/57] fix: accept and write empty arrays and argument lists

---
 compiler/c2po/cpt.py        | 16 ++++++++++++----
 compiler/c2po/parse_c2po.py |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 567f0b3..9361524 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -2014,7 +2014,9 @@ def to_infix_str(start: Expression) -> str:
             else:
                 s += f".{expr.member}"
         elif isinstance(expr, ArrayExpression):
-            if seen == len(expr.children):
+            if len(expr.children) == 0:
+                s += "{}"
+            elif seen == len(expr.children):
                 s += "}"
             elif seen == 0:
                 s += "{"
@@ -2033,7 +2035,9 @@ def to_infix_str(start: Expression) -> str:
         elif isinstance(expr, (Struct, FunctionCall)) or is_operator(
             expr, OperatorKind.COUNT
         ):
-            if seen == len(expr.children):
+            if len(expr.children) == 0:
+                s += f"{expr.symbol}()"
+            elif seen == len(expr.children):
                 s += ")"
             elif seen == 0:
                 s += f"{expr.symbol}("
@@ -2140,7 +2144,9 @@ def to_prefix_str(start: Expression, with_internal_labels: bool = False) -> str:
             else:
                 s = s[:-1] + f".{expr.member} "
         elif isinstance(expr, ArrayExpression):
-            if seen == 0:
+            if len(expr.children) == 0:
+                s += "{} "
+            elif seen == 0:
                 s += "{"
                 stack.append((seen + 1, expr))
                 [stack.append((0, child)) for child in reversed(expr.children)]
@@ -2161,7 +2167,9 @@ def to_prefix_str(start: Expression, with_internal_labels: bool = False) -> str:
         elif isinstance(expr, (Struct, FunctionCall)) or is_operator(
             expr, OperatorKind.COUNT
         ):
-            if seen == len(expr.children):
+            if len(expr.children) == 0:
+                s += f"({expr.symbol}) "
+            elif seen == len(expr.children):
                 s = s[:-1] + ") "
             elif seen == 0:
                 s += f"({expr.symbol} "
diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index f8265f1..30a27d9 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -411,7 +411,7 @@ class C2POParser(sly.Parser):
     # Empty array expression
     @_("LBRACE RBRACE")
     def expr(self, p):
-        return cpt.ArrayExpression(ln, [])
+        return cpt.ArrayExpression(log.FileLocation(self.filename, p.lineno), [])
 
     # Parameterized set aggregation expression
     @_("KW_FOREXACTLY LPAREN SYMBOL COLON expr COMMA expr RPAREN LPAREN expr RPAREN")
-- 
2.43.0


From 2914dc8651724220487873e4c64c1a631acc62d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:37 +0000
Subject: [PATCH 21/57] fix: allow names that begin with 'prev'

---
 compiler/c2po/parse_c2po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index 30a27d9..14adbcd 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -56,7 +56,6 @@ class C2POLexer(sly.Lexer):
     # ARITH_PM    = r"\+/-|±"
 
     # Others
-    PREV = r'prev'
     CONTRACT_ASSIGN = r"=>"
     ASSIGN  = r":="
     SYMBOL  = r"[a-zA-Z_][a-zA-Z0-9_]*"
@@ -89,6 +88,7 @@ class C2POLexer(sly.Lexer):
     SYMBOL["pow"]  = ARITH_POW
     SYMBOL["sqrt"] = ARITH_SQRT
     SYMBOL["abs"]  = ARITH_ABS
+    SYMBOL["prev"] = PREV
     SYMBOL["xor"]  = LOG_XOR
     SYMBOL['G'] = TL_GLOBAL
     SYMBOL['F'] = TL_FUTURE
-- 
2.43.0


From 2e470caf0ba4be52c0b2bedf033e8f15d57760ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:37 +0000
Subject: [PATCH 22/57] fix: read decimal constants with an exponent, as they
 are written

---
 compiler/c2po/parse_c2po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index 14adbcd..efb6e09 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -22,7 +22,7 @@ class C2POLexer(sly.Lexer):
     ignore_newline = r"\n+"
 
     REL_NEQ = r"!=|≠" # longer tokens must come first
-    DECIMAL   = r"-?\d*\.\d+"
+    DECIMAL   = r"-?(?:\d*\.\d+(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)"
     NUMERAL     = r"-?[1-9][0-9]*|0"
 
     # Propositional logic ops/literals
-- 
2.43.0


From bbca931ef2e964d772b0156a068f3d4e5b347ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:37 +0000
Subject: [PATCH 23/57] fix: reject input with illegal characters

---
 compiler/c2po/parse_c2po.py  | 4 +++-
 compiler/c2po/parse_equiv.py | 4 +++-
 compiler/c2po/parse_mltl.py  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index efb6e09..7a3ee3b 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -105,12 +105,14 @@ class C2POLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     # Extra action for newlines
     def ignore_newline(self, t):
         self.lineno += t.value.count("\n")
 
     def error(self, t):
+        self.status = False
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, self.lineno))
         self.index += 1
 
@@ -703,7 +705,7 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     parser: C2POParser = C2POParser(options["filename"], context.mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not lexer.status or not parser.status:
         return None
 
     return cpt.Program(0, sections)
diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index a394c2f..ff9b949 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -79,8 +79,10 @@ class MLTLEquivLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     def error(self, t):
+        self.status = False
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, t.lineno))
         self.index += 1
 
@@ -325,7 +327,7 @@ def parse_equiv(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.P
     parser: MLTLEquivParser = MLTLEquivParser(options["filename"])
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not lexer.status or not parser.status:
         return None
 
     program, signal_mapping = output
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index 7f586c9..ae29873 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -53,8 +53,10 @@ class MLTLLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     def error(self, t):
+        self.status = False
         log.error(f"Illegal character '%s' {t.value[0]}", log.FileLocation(self.filename, t.lineno))
         self.index += 1
 
@@ -278,7 +280,7 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     parser: MLTLParser = MLTLParser(options["filename"], options["mission_time"])
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not lexer.status or not parser.status:
         return None
 
     program, signal_mapping = output
-- 
2.43.0


From e312ce547be3ff7eaf7553c67227965330247274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:37 +0000
Subject: [PATCH 24/57] fix: use the mission time that has been set in both
 input languages

---
 compiler/c2po/parse_c2po.py | 3 ++-
 compiler/c2po/parse_mltl.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index 7a3ee3b..fbc72f3 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -702,7 +702,8 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     context.set_spec_filename(options["filename"])
 
     lexer: C2POLexer = C2POLexer(options["filename"])
-    parser: C2POParser = C2POParser(options["filename"], context.mission_time)
+    mission_time = options["mission_time"] if options["mission_time"] > -1 else context.mission_time
+    parser: C2POParser = C2POParser(options["filename"], mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
     if not lexer.status or not parser.status:
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index ae29873..3557e75 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -277,7 +277,8 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     context.set_spec_filename(options["filename"])
 
     lexer: MLTLLexer = MLTLLexer(options["filename"])
-    parser: MLTLParser = MLTLParser(options["filename"], options["mission_time"])
+    mission_time = options["mission_time"] if options["mission_time"] > -1 else context.mission_time
+    parser: MLTLParser = MLTLParser(options["filename"], mission_time)
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
     if not lexer.status or not parser.status:
-- 
2.43.0


From 84bfb26fc20737c200bcf97d3681e3557639b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 25/57] fix: read square roots and absolute values as they are
 written

---
 compiler/c2po/parse_c2po.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index fbc72f3..2f26d60 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -481,13 +481,13 @@ class C2POParser(sly.Parser):
     def expr(self, p):
         return cpt.Operator.ArithmeticNegate(log.FileLocation(self.filename, p.lineno), p[1])
     
-    @_("ARITH_SQRT LPAREN expr RPAREN")
+    @_("ARITH_SQRT expr")
     def expr(self, p):
-        return cpt.Operator.ArithmeticSqrt(log.FileLocation(self.filename, p.lineno), p[2])
+        return cpt.Operator.ArithmeticSqrt(log.FileLocation(self.filename, p.lineno), p[1])
     
-    @_("ARITH_ABS LPAREN expr RPAREN")
+    @_("ARITH_ABS expr")
     def expr(self, p):
-        return cpt.Operator.ArithmeticAbs(log.FileLocation(self.filename, p.lineno), p[2])
+        return cpt.Operator.ArithmeticAbs(log.FileLocation(self.filename, p.lineno), p[1])
         
     @_("PREV LPAREN expr COMMA expr RPAREN")
     def expr(self, p):
-- 
2.43.0


From 017c84ec8dd0e05938b9c2213f6d5bd37428c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 26/57] fix: reject array indices that are equal to the size of
 the array

---
 compiler/c2po/type_check.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 3de92d9..0f57edf 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -155,10 +155,6 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
-            if (abs(expr.start) > array_type.size or abs(expr.stop) > array_type.size) and array_type.size > -1:
-                log.error(f"Out-of-bounds array index ({expr})", expr.loc)
-                return False
-
             if expr.start < 0:
                 expr.start = -expr.start
             if expr.stop < 0:
@@ -167,6 +163,10 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 log.error(f"Invalid array index ({expr}), {expr.start} is greater than {expr.stop}", expr.loc)
                 return False
 
+            if expr.stop >= array_type.size and array_type.size > -1:
+                log.error(f"Out-of-bounds array index ({expr})", expr.loc)
+                return False
+
             expr.type = types.ArrayType(
                 array_type.member_type, is_const=expr.get_array().type.is_const, size=expr.stop - expr.start + 1
             )
@@ -179,7 +179,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
-            if abs(expr.index) > array_type.size and array_type.size > -1:
+            if abs(expr.index) >= array_type.size and array_type.size > -1:
                 log.error(f"out-of-bounds array index ({expr})", expr.loc)
                 return False
 
-- 
2.43.0


From c3b69275490b795063801a984b66548dd0c2f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 27/57] fix: reject struct constructions with too few or too
 many members

---
 compiler/c2po/type_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 0f57edf..faf1420 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -230,7 +230,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             target_types = [m for m in context.structs[expr.symbol].values()]
             actual_types = [c.type for c in expr.children]
 
-            if any(
+            if len(target_types) != len(actual_types) or any(
                 [
                     target_type != actual_type
                     for target_type, actual_type in zip(target_types, actual_types)
-- 
2.43.0


From 59d56f38636562e1321ff33a4816893646a5b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 28/57] fix: reject remainders by the constant zero like
 divisions by it

---
 compiler/c2po/type_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index faf1420..69d7131 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -409,7 +409,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             if all([c.type.is_const for c in expr.children]):
                 new_type.is_const = True
 
-            if expr.operator is cpt.OperatorKind.ARITHMETIC_DIVIDE:
+            if expr.operator in {cpt.OperatorKind.ARITHMETIC_DIVIDE, cpt.OperatorKind.ARITHMETIC_MODULO}:
                 rhs = expr.children[1]
                 # TODO: disallow division by non-const expression entirely
                 if isinstance(rhs, cpt.Constant) and rhs.value == 0:
-- 
2.43.0


From 7b1e1643d811fec18b144d06df799618acdf6b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 29/57] fix: type inputs of struct type without hashing their
 type

---
 compiler/c2po/type_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 69d7131..719c3cb 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -62,7 +62,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             if (
                 not context.enable_booleanizer
                 and (types.is_enum_type(context.signals[expr.symbol]) 
-                    or context.signals[expr.symbol] in {types.IntType(), types.FloatType()})
+                    or isinstance(context.signals[expr.symbol], (types.IntType, types.FloatType)))
             ):
                 log.error(
                     f"non-bool type found '{expr.symbol}' ({context.signals[expr.symbol]})\n"
-- 
2.43.0


From be4e75d346b5bd74dac789428a476c72bafef673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 30/57] fix: report names that are declared in two sections

---
 compiler/c2po/type_check.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 719c3cb..5ede5e3 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -650,7 +650,7 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
             context.add_struct(struct.symbol, struct.members)
     elif isinstance(section, cpt.EnumSection):
         for enum in section.enum_defs:
-            if enum.symbol in context.get_symbols():
+            if enum.symbol in symbols or enum.symbol in context.get_symbols():
                 status = False
                 log.error(
                     f"Symbol '{enum.symbol}' already in use",
@@ -663,12 +663,13 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                         f"Enum member {member_name} must be a constant integer, found {member_expr.type}",
                         enum.loc,
                     )
-                if member_name in context.get_symbols() or member_name == enum.symbol:
+                if member_name in symbols or member_name in context.get_symbols() or member_name == enum.symbol:
                     status = False
                     log.error(
                         f"Symbol '{member_name}' already in use",
                         enum.loc,
                     )
+            symbols.add(enum.symbol)
             context.add_enum(enum.symbol, enum.members)
     elif isinstance(section, cpt.SpecSection):
         if isinstance(section, cpt.FutureTimeSpecSection):
@@ -702,8 +703,9 @@ def type_check(program: cpt.Program, context: cpt.Context, options: dict[str, An
         None if type checking fails, the context object otherwise.
     """
     status = True
+    symbols: set[str] = set()
     for section in program.sections:
-        is_good = type_check_section(section, set(), context, options)
+        is_good = type_check_section(section, symbols, context, options)
         status = status and is_good
 
     log.debug(1, f"type checking result: {status}")
-- 
2.43.0


From 5b257458ad2b2566fa8469460a04ee6908cd2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 31/57] fix: assemble boolean constants that the Booleanizer
 uses

---
 compiler/c2po/assemble.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 2406ee8..83904f3 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -755,11 +755,11 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip.
-        # TODO: Is there a case where a bool is used by the BZ engine? As in when this is ever not true for a bool?
+        # Otherwise the BZ engine uses it (for example, the initial value of a `prev`).
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
-        if expr.engine == types.R2U2Engine.BOOLEANIZER:
+        if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_ft_instruction = gen_ft_instruction(expr, ft_instructions)
@@ -789,11 +789,11 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip.
-        # TODO: Is there a case where a bool is used by the BZ engine? As in when this is ever not true for a bool?
+        # Otherwise the BZ engine uses it (for example, the initial value of a `prev`).
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
-        if expr.engine == types.R2U2Engine.BOOLEANIZER:
+        if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_pt_instruction = gen_pt_instruction(expr, pt_instructions, ft_scqs)
-- 
2.43.0


From 58e4c343e7cdb69ade3d9d161ccb6d3cac8f41d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 32/57] fix: read slices of any indices in map files, and only
 slices

---
 compiler/c2po/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 47f30e2..6564341 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -27,7 +27,7 @@ def parse_map_file(program: cpt.Program, context: cpt.Context, options: dict[str
             sid = int(strs[1])
             # Special case where multiple indices of array are mapped in at once
             # For example, 'arr[0..2]:0' gets expanded to 'arr[0]:0', 'arr[1]:1', and 'arr[2]:2'
-            if re.match(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d..\d*\]", id):
+            if re.match(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d+\.\.\d+\]", id):
                 indices = id[id.find("[")+1 : id.find("]")].split("..")
                 for i in range(int(indices[0]), int(indices[1])+1):
                     id = id[:id.find("[")] + "[" + str(i) + "]"
-- 
2.43.0


From 9c2b9279b1a5de334ca64295829c8df6dcb6324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 33/57] fix: report repeated and missing columns of a trace
 header without crashing

---
 compiler/c2po/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index eb7b941..7d58277 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -50,7 +50,7 @@ def parse_trace_file(
         if id in signal_mapping:
             log.warning(
                 f"signal '{id}' found multiple times in csv, using right-most value",
-                log.FileLocation(options['trace_filename'], 1)
+                log.FileLocation(options['filename'], 1)
             )
         signal_mapping[id] = cnt
         cnt += 1
@@ -60,7 +60,7 @@ def parse_trace_file(
     if len(missing) > 0:
         log.error(
             f"trace file does not contain all signals in the program: {', '.join(missing)}",
-            log.FileLocation(options['trace_filename'], 1),
+            log.FileLocation(options['filename'], 1),
         )
         return command.ReturnCode.ERROR
 
-- 
2.43.0


From ebf05923f17bbd0f6f9fc3a76c1db8d3ae7ed6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 34/57] fix: read traces whose first line is empty

---
 compiler/c2po/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index 7d58277..6531e6e 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -33,7 +33,7 @@ def parse_trace_file(
 
     cnt: int = 0
     signal_mapping: types.SignalMapping = {}
-    if lines[0][0] != "#":
+    if not lines[0].startswith("#"):
         # no header, so just set trace length
         context.trace_length = len(lines)
         return command.ReturnCode.SUCCESS
-- 
2.43.0


From 5e1f7666e8339fa2175fb35e908a55330ab1dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 35/57] fix: check the guards of guards at any depth

---
 compiler/c2po/command.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index 8d893e2..408a8b2 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -192,13 +192,16 @@ class Command:
         """
         # Recursively check all dependencies. No need for iterative approach because the dependency
         # graph is not very deep.
-        for guard in self.guards:
-            if not guard.predicate(program, context):
-                return guard
-            for dependency in GUARD_DEPENDENCIES[guard]:
-                if not dependency.predicate(program, context):
-                    return dependency
-        return None
+        def find_unmet(guards: list[CommandGuard]) -> Optional[CommandGuard]:
+            for guard in guards:
+                if not guard.predicate(program, context):
+                    return guard
+                unmet = find_unmet(GUARD_DEPENDENCIES[guard])
+                if unmet is not None:
+                    return unmet
+            return None
+
+        return find_unmet(self.guards)
 
     def parse_args(self, args: list[str]) -> dict[str, Any]:
         """
-- 
2.43.0


From f8100b447ff1e20839276cfde3440a5c7471af33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:55 +0000
Subject: [PATCH 36/57] fix: use the SMT solver that has been set

---
 compiler/c2po/eqsat.py |  2 +-
 compiler/c2po/sat.py   | 25 ++++++++++++++-----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 4ff23f2..1b33b3b 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -585,7 +585,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             theory,
             options["smt_max_time"],
             options["smt_max_memory"],
-            context.stats,
+            context,
         )
 
         if sat_result is sat.SatResult.UNSAT:
diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 7b559e2..38856b9 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -6,7 +6,7 @@ import pathlib
 import shutil
 import tempfile
 from typing import cast, Any, Optional
-from c2po import cpt, log, util, types, stats, command
+from c2po import cpt, log, util, types, command
 
 PREAMBLE = f"""(set-info :source |SMT encoding for satisfiability checking of Mission-time Linear Temporal Logic (MLTL) formulas.
 Encoded by C2PO v{log.VERSION}, see https://github.com/R2U2/r2u2/tree/develop/compiler.|)"""
@@ -28,8 +28,11 @@ class SMTTheory(enum.Enum):
     QF_UFLIA = "qf_uflia"
     QF_BV = "qf_bv"
 
-def find_smt_solver() -> Optional[str]:
-    """Finds the SMT solver in the PATH. Returns the path to the SMT solver if found, otherwise returns None."""
+def find_smt_solver(context: cpt.Context) -> Optional[str]:
+    """Finds the SMT solver by checking the context first, then the PATH. Returns the path to the SMT solver if found, otherwise returns None."""
+    if context.smt_solver_path is not None and util.check_executable(context.smt_solver_path):
+        return context.smt_solver_path
+
     for solver in ["z3", "cvc5", "yices-smt2", "mathsat", "bitwuzla"]:
         smt_solver_path = shutil.which(solver)
         if smt_solver_path is not None:
@@ -41,12 +44,12 @@ def run_smt_solver(
     theory: SMTTheory,
     max_time: int,
     max_memory: int,
-    stats: stats.Stats,
+    context: cpt.Context,
 ) -> SatResult:
     """Runs the SMT solver on the given SMT-LIB2 encoding string and returns the result."""
     log.debug(2, "running SMT solver.")
 
-    smt_solver_path = find_smt_solver()
+    smt_solver_path = find_smt_solver(context)
     if smt_solver_path is None:
         log.error("could not find SMT solver")
         return SatResult.FAILURE
@@ -152,9 +155,9 @@ def run_smt_solver(
         log.debug(2, "unknown")
         result = SatResult.UNKNOWN
 
-    stats.smt_solver_time += end_time - start_time
-    stats.smt_num_calls += 1
-    stats.smt_solver_result = result.value
+    context.stats.smt_solver_time += end_time - start_time
+    context.stats.smt_num_calls += 1
+    context.stats.smt_solver_result = result.value
 
     return result
 
@@ -1167,7 +1170,7 @@ def check_sat(program: cpt.Program, context: cpt.Context, options: dict[str, Any
             theory,
             options["smt_max_time"],
             options["smt_max_memory"],
-            context.stats,
+            context,
         )
         status = status and check_sat_result(result)
         spec_str_reference = cpt.get_spec_str_reference(spec)
@@ -1198,7 +1201,7 @@ def check_sat(program: cpt.Program, context: cpt.Context, options: dict[str, Any
         theory,
         options["smt_max_time"],
         options["smt_max_memory"],
-        context.stats,
+        context,
     )
     status = status and check_sat_result(result)
 
@@ -1406,7 +1409,7 @@ def check_equiv(program: cpt.Program, context: cpt.Context, options: dict[str, A
             theory,
             options["smt_max_time"],
             options["smt_max_memory"],
-            context.stats,
+            context,
         )
         status = status and check_sat_result(result)
         spec_str_reference = f"{cpt.get_spec_str_reference(spec1)} = {cpt.get_spec_str_reference(spec2)}"
-- 
2.43.0


From 744cbf0f8ec02322fac8f57b40428f75e1e3a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 37/57] fix: compile files whose names contain spaces

---
 compiler/c2po/main.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/compiler/c2po/main.py b/compiler/c2po/main.py
index 24434dc..5ece15d 100644
--- a/compiler/c2po/main.py
+++ b/compiler/c2po/main.py
@@ -295,17 +295,17 @@ def cli(
 
     spec_path = pathlib.Path(spec_filename)
     if spec_path.suffix == ".c2po":
-        script_lines.append(f"parse_c2po {spec_path}")
+        script_lines.append(f"parse_c2po {shlex.quote(str(spec_path))}")
     elif spec_path.suffix == ".mltl":
-        script_lines.append(f"parse_mltl {spec_path}")
+        script_lines.append(f"parse_mltl {shlex.quote(str(spec_path))}")
     else:
         log.error(f"invalid specification file: {spec_path}")
         return command.ReturnCode.FILE_NOT_FOUND
 
     if trace_filename:
-        script_lines.append(f"parse_trace {trace_filename}")
+        script_lines.append(f"parse_trace {shlex.quote(trace_filename)}")
     if map_filename:
-        script_lines.append(f"parse_map {map_filename}")
+        script_lines.append(f"parse_map {shlex.quote(map_filename)}")
 
     if only_parse:
         script_lines.append("exit")
@@ -350,14 +350,14 @@ def cli(
     script_lines.append("remove_extended_operators")
 
     if output_filename:
-        script_lines.append(f"assemble {'--aux' if enable_aux else '--no-aux'} {'--print' if not quiet else ''} {'--scq-constant ' + str(scq_constant) if scq_constant > 0 else ''} {output_filename}")
+        script_lines.append(f"assemble {'--aux' if enable_aux else '--no-aux'} {'--print' if not quiet else ''} {'--scq-constant ' + str(scq_constant) if scq_constant > 0 else ''} {shlex.quote(output_filename)}")
 
     if write_bounds_filename:
         bounds_path = pathlib.Path(write_bounds_filename)
         if bounds_path.suffix == ".h":
-            script_lines.append(f"write_bounds_c {bounds_path}")
+            script_lines.append(f"write_bounds_c {shlex.quote(str(bounds_path))}")
         elif bounds_path.suffix == ".toml":
-            script_lines.append(f"write_bounds_rust {bounds_path}")
+            script_lines.append(f"write_bounds_rust {shlex.quote(str(bounds_path))}")
         else:
             log.error(f"invalid bounds file: {bounds_path}")
             return command.ReturnCode.FILE_NOT_FOUND
-- 
2.43.0


From 956af83fc7722d833a328cfa88319a751a4b37c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:18 +0000
Subject: [PATCH 38/57] fix: run equality saturation with the tools that were
 named on the command line

---
 compiler/c2po/main.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/main.py b/compiler/c2po/main.py
index 5ece15d..f76f36e 100644
--- a/compiler/c2po/main.py
+++ b/compiler/c2po/main.py
@@ -316,7 +316,13 @@ def cli(
 
     script_lines.append("desugar")
     
+    if egglog_path:
+        script_lines.append(f"set_egglog_path {shlex.quote(egglog_path)}")
+    if smt_solver_path:
+        script_lines.append(f"set_smt_solver_path {shlex.quote(smt_solver_path)}")
+
     if enable_eqsat:
+        script_lines.append("compute_atomics")
         cmd = f"optimize_eqsat --egglog-max-time {eqsat_max_time} --egglog-max-memory {eqsat_max_memory} " \
                   f"--num-gurobi-threads {num_gurobi_threads} " \
                   f"--theory {smt_theory} --smt-max-time {smt_max_time} --smt-max-memory {smt_max_memory} " \
@@ -325,9 +331,7 @@ def cli(
                   f"--{'no-' if not enable_eqsat_associative else ''}associative " \
                   f"--{'no-' if not enable_eqsat_commutative else ''}commutative " \
                   f"--{'no-' if not enable_eqsat_multi_arity else ''}multi-arity " \
-                  f"--{'no-' if not enable_eqsat_temporal else ''}temporal" \
-                  f"{f'--egglog-bin {egglog_path}' if egglog_path else ''} " \
-                  f"{f'--smt-solver-path {smt_solver_path}' if smt_solver_path else ''}"
+                  f"--{'no-' if not enable_eqsat_temporal else ''}temporal"
         script_lines.append(cmd)
     elif enable_rewrite:
         script_lines.append("optimize_rewrites")
-- 
2.43.0


From 0d1a09e5206f7669090d204d33b09cb3208a3cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 39/57] fix: run the monitor that has been set

---
 compiler/c2po/r2u2.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/r2u2.py b/compiler/c2po/r2u2.py
index 5467640..d34dc92 100644
--- a/compiler/c2po/r2u2.py
+++ b/compiler/c2po/r2u2.py
@@ -5,13 +5,19 @@ import subprocess
 import statistics
 from c2po import cpt, log, util, command
 
-def find_r2u2_executable() -> Optional[pathlib.Path]:
+def find_r2u2_executable(context: cpt.Context) -> Optional[pathlib.Path]:
     """
-    Find the R2U2 executable by checking PATH first, then compiler/../monitors/c/build/r2u2.
+    Find the R2U2 executable by checking the paths set in the context first, then PATH, then compiler/../monitors/c/build/r2u2.
 
     Returns:
         The path to the R2U2 executable if found, otherwise returns None.
     """
+    if context.r2u2_bin_path is not None and util.check_executable(context.r2u2_bin_path):
+        return pathlib.Path(context.r2u2_bin_path).resolve()
+    if context.r2u2_c_path is not None:
+        r2u2_in_c_path = pathlib.Path(context.r2u2_c_path).resolve() / "build" / "r2u2"
+        if util.check_executable(str(r2u2_in_c_path)):
+            return r2u2_in_c_path
     r2u2_in_path = shutil.which("r2u2")
     if r2u2_in_path is not None and util.check_executable(r2u2_in_path):
         return pathlib.Path(r2u2_in_path)
@@ -49,7 +55,7 @@ def run_r2u2(program: cpt.Program, context: cpt.Context, options: dict[str, Any]
             context.stats.r2u2_status = "error"
             return command.ReturnCode.ERROR
     else:
-        r2u2_executable = find_r2u2_executable()
+        r2u2_executable = find_r2u2_executable(context)
         if r2u2_executable is None:
             log.error("could not find R2U2 executable")
             context.stats.r2u2_status = "error"
-- 
2.43.0


From 085344a720a7fdd098f3b27f9b3bc4ea574c1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:14 +0000
Subject: [PATCH 40/57] fix: print statistics of programs without formulas or
 starting with a contract

---
 compiler/c2po/command.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/command.py b/compiler/c2po/command.py
index 408a8b2..ee8c858 100644
--- a/compiler/c2po/command.py
+++ b/compiler/c2po/command.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 import argparse
 import enum
 import traceback
-from typing import Optional, Callable, Any, TypedDict, Union, NamedTuple, cast
+from typing import Optional, Callable, Any, TypedDict, Union, NamedTuple
 from c2po import log, cpt, util
 
 
@@ -658,7 +658,8 @@ def print_stats(program: cpt.Program, context: cpt.Context, options: dict[str, A
     `options` is a dictionary containing the following key:
         - `format`: The format string to use for the statistics
     """
-    context.stats.first_formula_string = str(cast(cpt.Formula, program.get_specs()[0]).get_expr())
+    formulas = [spec for spec in program.get_specs() if isinstance(spec, cpt.Formula)]
+    context.stats.first_formula_string = str(formulas[0].get_expr()) if formulas else ""
     context.stats.total_dag_size = program.get_dag_size(context)
     context.stats.num_temporal_operators = program.get_num_temporal_operators(context)
     print(context.stats.format(options["format"]), end="")
-- 
2.43.0


From cec0c6e2b93828faa750a596264a5745510f6ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:14 +0000
Subject: [PATCH 41/57] fix: count the names that are assembled

---
 compiler/c2po/assemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 83904f3..31c5caf 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1060,8 +1060,10 @@ def assemble(
         (aliases, binary_aliases) = pack_aliases(program, context, options)
         assembly += aliases
         binary += binary_aliases
+        context.stats.asm_num_aliases = len(aliases)
     else:
         binary += b"\x00"
+        context.stats.asm_num_aliases = 0
 
     binary += b"\x00"
 
-- 
2.43.0


From 862e35c8b08d170520168d61c2003dbdc702f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:14 +0000
Subject: [PATCH 42/57] fix: measure the encoding and solving time of
 equivalence checks

---
 compiler/c2po/eqsat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index 1b33b3b..f3d1970 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -571,7 +571,9 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
 
         # Otherwise, we check if the new expression is equivalent to the old expression
         theory = sat.SMTTheory(options["theory"])
+        start_time = util.get_rusage_time()
         eqsat_smt_encoding = sat.to_smt_equiv(old, new, context, theory, strict=False)
+        context.stats.eqsat_equiv_encoding_time += util.get_rusage_time() - start_time
         if eqsat_smt_encoding is None:
             log.error("failed to generate SMT encoding for equivalence", formula.loc)
             return command.ReturnCode.ERROR
@@ -580,6 +582,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             with open(options["equiv_smt_encoding_filename"], "w") as f:
                 f.write(eqsat_smt_encoding)
 
+        start_time = util.get_rusage_time()
         sat_result = sat.run_smt_solver(
             eqsat_smt_encoding,
             theory,
@@ -587,6 +590,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             options["smt_max_memory"],
             context,
         )
+        context.stats.eqsat_equiv_solver_time += util.get_rusage_time() - start_time
 
         if sat_result is sat.SatResult.UNSAT:
             log.debug(2, "equality saturation produced equivalent formula")
-- 
2.43.0


From 5018c6cdc43307a95259061102aa9ca7c59717ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:14 +0000
Subject: [PATCH 43/57] fix: fail to assemble when a name cannot be packed

---
 compiler/c2po/assemble.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 31c5caf..14b319c 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -978,7 +978,9 @@ def pack_instruction(
     return binary_len + binary
 
 
-def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> tuple[list[AliasInstruction], bytes]:
+def pack_aliases(
+    program: cpt.Program, context: cpt.Context, options: dict[str, Any]
+) -> Optional[tuple[list[AliasInstruction], bytes]]:
     """
     `options` is a dictionary of options for the assembly.
     - `aux`: Whether to include aux data (e.g., contract status and specification naming)
@@ -986,6 +988,8 @@ def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str,
     Returns a tuple of (list of AliasInstructions, bytes)
     - The list of AliasInstructions to be packed
     - The bytes of the packed AliasInstructions
+
+    Returns None if some name cannot be packed, in which case the error has been reported.
     """
     aliases: list[AliasInstruction] = []
     binary = bytes()
@@ -993,16 +997,16 @@ def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str,
     for spec in program.get_specs():
         if isinstance(spec, cpt.Contract):
             log.internal(f"contract found during assembly: {spec}")
-            return ([], bytes())
+            return None
         elif not isinstance(spec, cpt.Formula):
-            return ([], bytes())
+            return None
 
         if options["aux"] and len(spec.symbol) > 50:
             log.error(
                 f"specification identifier name '{spec.symbol}' is too long, please choose a shorter name (limit 50 characters)", 
                 spec.loc,
             )
-            return ([], bytes())
+            return None
 
         alias = AliasInstruction(AliasType.FORMULA, spec.symbol, [str(spec.formula_number)])
         aliases.append(alias)
@@ -1057,7 +1061,11 @@ def assemble(
     binary += b"\x00"
 
     if options["aux"]:
-        (aliases, binary_aliases) = pack_aliases(program, context, options)
+        packed = pack_aliases(program, context, options)
+        if packed is None:
+            return command.ReturnCode.ASSEMBLY_ERROR
+
+        (aliases, binary_aliases) = packed
         assembly += aliases
         binary += binary_aliases
         context.stats.asm_num_aliases = len(aliases)
-- 
2.43.0


From ae00e6bb188052b222f35abf0a06e1037e1a306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:00 +0000
Subject: [PATCH 44/57] fix: use a trace long enough for the formula in the
 QF_UFLIA encoding

---
 compiler/c2po/sat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 38856b9..e91c8b0 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -599,8 +599,8 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         smt_commands.append("(declare-fun len () Int)")
         smt_commands.append(f"(assert ({expr_map[start]} 0 len))")
     else:
-        # wpd proxy for cplen (okay since wpd >= cplen)
-        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd}))")
+        # wpd + 1 proxy for cplen (okay since wpd + 1 >= cplen)
+        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd + 1}))")
 
     smt_commands.append("(check-sat)")
 
-- 
2.43.0


From 340e71f301b61d150e9066d3362a1134bff6f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:01 +0000
Subject: [PATCH 45/57] fix: regard every operand in the computation length of
 n-ary operators

---
 compiler/c2po/sat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index e91c8b0..f964075 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -890,10 +890,10 @@ def to_uflia_smtlib2(
                 cplen = "1"
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
                 cplen = cplen_cache[expr.children[0]]
-            elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
-            elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+            elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND) or cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    cplen = smt_max_expr(cplen, cplen_cache[child])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_IMPLIES):
                 cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_EQUIV):
-- 
2.43.0


From 5b8541865cacbb242c7adb42b4237b4c1d60a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:01 +0000
Subject: [PATCH 46/57] fix: report UFLIA encodings of unsupported types as
 failed

---
 compiler/c2po/sat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index f964075..c899ccb 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -958,14 +958,14 @@ def to_uflia_smtlib2(
     for signal, typ in context.signals.items():
         if typ != types.BoolType() and typ != types.IntType():
             log.error(f"unsupported type '{typ}' ({signal})")
-            return ""
+            return None
         atomic_map[signal] = f"f_{signal}"
         smt_commands.append(f"(declare-fun f_{signal} (Int) {to_smt_type(typ)})")
 
     for variable, typ in context.variables.items():
         if typ != types.BoolType() and typ != types.IntType():
             log.error(f"unsupported type '{typ}' ({variable})")
-            return ""
+            return None
         atomic_map[variable] = f"p_{variable}"
         smt_commands.append(f"(declare-fun p_{variable} (Int) {to_smt_type(typ)})")
 
-- 
2.43.0


From ca20131399a92e05bda2386cfc63fb6c13a6f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:01 +0000
Subject: [PATCH 47/57] fix: encode F[0,0] and F[1,1] as false past the end of
 the trace

---
 compiler/c2po/sat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index c899ccb..29ea394 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -803,9 +803,9 @@ def to_uflia_smtlib2(
                 # Special case for F[0,0] phi and F[1,1] phi -- no need for quantifier
                 # This is necessary for performance reasons, many FRET formulas timeout without this optimization
                 if lb == "0" and ub == "0":
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == "1" and ub == "1":
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
                 result = f"(assert (<= {lb} {ub}))\n"
             else: 
@@ -814,9 +814,9 @@ def to_uflia_smtlib2(
                 ub = expr.interval.ub
 
                 if lb == 0 and ub == 0:
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == 1 and ub == 1:
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
             return result + f"({fun_signature} (and (> len (+ {lb} k)) (exists ((i Int)) (and (<= (+ {lb} k) i) (<= i (+ {ub} k)) ({expr_map[expr.children[0]]} i len)))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.UNTIL):
-- 
2.43.0


From a5b7e8cae9959e65ab79b5d76bd17750244a5a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:01 +0000
Subject: [PATCH 48/57] fix: divide integers in interval constraints

---
 compiler/c2po/sat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 29ea394..b400a6a 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -666,7 +666,7 @@ def to_uflia_smtlib2(
                 cache[expr] = f"(* {cache[expr.children[0]]} {cache[expr.children[1]]})"
             elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
                 is_nonlinear = True
-                cache[expr] = f"(/ {cache[expr.children[0]]} {cache[expr.children[1]]})"
+                cache[expr] = f"(div {cache[expr.children[0]]} {cache[expr.children[1]]})"
             elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
                 is_nonlinear = True
                 cache[expr] = f"(mod {cache[expr.children[0]]} {cache[expr.children[1]]})"
-- 
2.43.0


From bb4a1fb68b89401c033fd6764f4943fc1a49e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:01 +0000
Subject: [PATCH 49/57] fix: encode arithmetic negation in QF_UFLIA

---
 compiler/c2po/sat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index b400a6a..78226e4 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -472,7 +472,7 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
             smt_commands.append(
                 f"({fun_signature} (+ ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT):
+        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             smt_commands.append(
                 f"({fun_signature} (- ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-- 
2.43.0


From cb4b2cd251921faaf7ca1e8b025590ac19335b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:01 +0000
Subject: [PATCH 50/57] fix: refuse operators over unsupported types in
 QF_UFLIA

---
 compiler/c2po/sat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 78226e4..b361ee0 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -438,6 +438,7 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
     for expr in cpt.postorder(start, context):
         if expr.type != types.BoolType() and expr.type != types.IntType():
             log.error(f"unsupported type '{expr.type}' for expression {expr}")
+            expr_map[expr] = ""
             status = False
             continue
         
-- 
2.43.0


From 5542870a7f4ea70b94402748b3cd8d73d17a0b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:01 +0000
Subject: [PATCH 51/57] fix: keep the names of subformulas and signals apart in
 SMT encodings

---
 compiler/c2po/sat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index b361ee0..7ba8434 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -227,7 +227,7 @@ def to_qf_bv_smtlib2(start: cpt.Expression, context: cpt.Context, strict: bool)
             expr_map[expr] = expr_map[expr.children[0]]
             continue
 
-        expr_id = f"f_e{cnt}"
+        expr_id = f"e_{cnt}"
         cnt += 1
         expr_map[expr] = expr_id
 
@@ -449,7 +449,7 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
             expr_map[expr] = expr_map[expr.children[0]]
             continue
 
-        expr_id = f"f_e{cnt}"
+        expr_id = f"e_{cnt}"
         cnt += 1
         expr_map[expr] = expr_id
 
@@ -703,7 +703,7 @@ def to_uflia_smtlib2(
             expr_map[expr] = expr_map[expr_cache[str(expr)]]
             return ""
 
-        expr_id = f"f_e{cnt}"
+        expr_id = f"e_{cnt}"
         expr_map[expr] = expr_id
         expr_cache[str(expr)] = expr
 
-- 
2.43.0


From 934ba3f5619468ce26baf4e78ff611e972e93b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:01 +0000
Subject: [PATCH 52/57] fix: write negative constants as SMT-LIB terms

---
 compiler/c2po/sat.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 7ba8434..c9b6d89 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -171,6 +171,10 @@ def to_smt_type(t: types.Type) -> str:
         return "Real"
     return "NoType"
 
+def to_smt_int(value: int) -> str:
+    """Convert an integer to an SMT term."""
+    return str(value) if value >= 0 else f"(- {-value})"
+
 def to_qf_bv_smtlib2(start: cpt.Expression, context: cpt.Context, strict: bool) -> Optional[str]:
     """Encodes the given expression into an SMT encoding using the QF_BV theory and returns it. Returns None if the encoding fails."""
     log.debug(
@@ -462,7 +466,7 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         elif isinstance(expr, cpt.Constant) and types.is_bool_type(expr.type) and not expr.value:
             smt_commands.append(f"({fun_signature} false)")
         elif isinstance(expr, cpt.Constant):
-            smt_commands.append(f"({fun_signature} {expr.value})")
+            smt_commands.append(f"({fun_signature} {to_smt_int(expr.value)})")
         elif isinstance(expr, cpt.Signal) and types.is_bool_type(expr.type):
             smt_commands.append(
                 f"({fun_signature} (and (> len k) ({atomic_map[expr.symbol]} k)))"
@@ -645,7 +649,7 @@ def to_uflia_smtlib2(
                 cache[expr] = "M"
                 has_mission_time = True
             elif isinstance(expr, cpt.Constant):
-                cache[expr] = str(expr.value)
+                cache[expr] = to_smt_int(expr.value)
             elif cpt.is_operator(expr, cpt.OperatorKind.EQUAL):
                 cache[expr] = f"(= {cache[expr.children[0]]} {cache[expr.children[1]]})"
             elif cpt.is_operator(expr, cpt.OperatorKind.NOT_EQUAL):
@@ -716,7 +720,7 @@ def to_uflia_smtlib2(
         elif isinstance(expr, cpt.Constant) and types.is_bool_type(expr.type) and not expr.value:
             return f"({fun_signature} false)"
         elif isinstance(expr, cpt.Constant):
-            return f"({fun_signature} {expr.value})"
+            return f"({fun_signature} {to_smt_int(expr.value)})"
         elif isinstance(expr, (cpt.Signal, cpt.Variable)) and types.is_bool_type(expr.type):
             return f"({fun_signature} (and (> len k) ({atomic_map[expr.symbol]} k)))"
         elif isinstance(expr, (cpt.Signal, cpt.Variable)):
-- 
2.43.0


From b95006f823f7d04e3656facd6ff2bb82ced3bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:01 +0000
Subject: [PATCH 53/57] fix: answer unknown when an equivalence cannot be
 encoded

---
 compiler/c2po/sat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index c9b6d89..0f326f9 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -1406,6 +1406,7 @@ def check_equiv(program: cpt.Program, context: cpt.Context, options: dict[str, A
         equiv_smt = to_smt_equiv(expr1, expr2, context, theory, options["strict"])
         if equiv_smt is None:
             log.error("failed to generate SMT encoding for equivalence", spec1.loc)
+            equiv = equiv if equiv == EquivResult.NOT_EQUIV else EquivResult.UNKNOWN
             status = False
             continue
 
-- 
2.43.0


From 5d2e1ed60e8cd690a9e7041cc6b45539275042f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 54/57] fix: let multiplication bind tighter than addition in
 interval constraints

---
 compiler/c2po/parse_equiv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_equiv.py b/compiler/c2po/parse_equiv.py
index ff9b949..dde6e01 100644
--- a/compiler/c2po/parse_equiv.py
+++ b/compiler/c2po/parse_equiv.py
@@ -98,7 +98,8 @@ class MLTLEquivParser(sly.Parser):
         ("left", TL_UNTIL, TL_RELEASE),
         ("left", REL_EQ, REL_NEQ),
         ("left", REL_GT, REL_LT, REL_GTE, REL_LTE),
-        ("left", ARITH_ADD, ARITH_SUB, ARITH_MUL, ARITH_DIV),
+        ("left", ARITH_ADD, ARITH_SUB),
+        ("left", ARITH_MUL, ARITH_DIV),
         ("right", LOG_NEG, TL_GLOBAL, TL_FUTURE),
         ("right", LPAREN, MIN, MAX)
     )
-- 
2.43.0


From 9c181c22d35842208f2de93ac5d88a16eda2a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 55/57] fix: fail when the output of egglog has characters that
 cannot be read

---
 compiler/c2po/parse_egglog_output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_egglog_output.py b/compiler/c2po/parse_egglog_output.py
index 97068ec..7ed2070 100644
--- a/compiler/c2po/parse_egglog_output.py
+++ b/compiler/c2po/parse_egglog_output.py
@@ -53,8 +53,10 @@ class EgglogOutputLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     def error(self, t):
+        self.status = False
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, t.lineno))
         self.index += 1
 
@@ -172,7 +174,7 @@ def parse(egglog_output: str, context: cpt.Context, options: dict[str, Any]) ->
     parser: EgglogOutputParser = EgglogOutputParser("")
     output: cpt.Expression = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not lexer.status or not parser.status:
         return None
 
     exprs_in_use: set[cpt.Expression] = set()
-- 
2.43.0


From 6dc6289ced999d04bc18d58490b811388b0a5ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 56/57] fix: use the stored expression when egglog returns a
 single atomic

---
 compiler/c2po/parse_egglog_output.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/c2po/parse_egglog_output.py b/compiler/c2po/parse_egglog_output.py
index 7ed2070..d831154 100644
--- a/compiler/c2po/parse_egglog_output.py
+++ b/compiler/c2po/parse_egglog_output.py
@@ -189,6 +189,9 @@ def parse(egglog_output: str, context: cpt.Context, options: dict[str, Any]) ->
         aid = int(str(expr)[1:]) # atomics are of the form 'a<id>'
         new_expr = context.atomic_expr_map[aid]
         expr.replace(new_expr)
+        if expr is output:
+            output = new_expr
+            continue
 
         # Clear unused parents of atomic expression from the original expression
         to_remove = set()
-- 
2.43.0


From 46f5c1b0945bd465188dd5d4de716ffab233452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:25 +0000
Subject: [PATCH 57/57] fix: keep the result of the equivalence check apart
 from the status of egglog

---
 compiler/c2po/eqsat.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/eqsat.py b/compiler/c2po/eqsat.py
index f3d1970..3df4bf8 100644
--- a/compiler/c2po/eqsat.py
+++ b/compiler/c2po/eqsat.py
@@ -439,7 +439,7 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             return command.ReturnCode.ERROR
 
         old = formula.get_expr()
-        egglog_output, json_output, status, time = run_egglog(
+        egglog_output, json_output, egglog_status, time = run_egglog(
             egglog_encoding,
             options["egglog_max_time"],
             options["egglog_max_memory"],
@@ -447,12 +447,12 @@ def optimize_eqsat(program: cpt.Program, context: cpt.Context, options: dict[str
             options["extraction_method"] == "greedy", # Use experimental egglog if we are using greedy extraction
         )
         context.stats.eqsat_solver_time += time
-        context.stats.eqsat_solver_status = status
-        if status == "timeout":
+        context.stats.eqsat_solver_status = egglog_status
+        if egglog_status == "timeout":
             return command.ReturnCode.SUCCESS
-        elif status == "memout":
+        elif egglog_status == "memout":
             return command.ReturnCode.SUCCESS
-        elif status != "ok":
+        elif egglog_status != "ok":
             log.warning(f"eqsat failed for {formula.symbol}, skipping")
             continue
 
-- 
2.43.0

