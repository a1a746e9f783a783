From 1269237035df4872109a8e619ec4834ee92975db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 001/102] fix: release the evaluated arguments of a call when a
 later argument fails

---
 core/eval.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index 7bcbac5..94097d4 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -783,8 +783,11 @@ static obj_p eval_vary(obj_p fn, obj_p *args, i64_t len, i64_t id) {
 
     for (i = 0; i < len; i++) {
         x = eval_arg(args[i], is_aggr);
-        if (IS_ERR(x))
+        if (IS_ERR(x)) {
+            while (i-- > 0)
+                drop_obj(vm_stack_pop());
             return x;
+        }
         vm_stack_push(x);
     }
 
@@ -809,13 +812,13 @@ static obj_p eval_lambda(obj_p fn, obj_p *args, i64_t len, i64_t id) {
         return unwrap(err_limit(VM_STACK_SIZE), id);
 
     for (i = 0; i < len; i++) {
-        x = eval(args[i]);
-        if (IS_ERR(x))
-            return x;
         // Materialize lazy values (MAPGROUP/MAPFILTER) for lambda arguments
-        x = collect_lazy(x);
-        if (IS_ERR(x))
+        x = eval_arg(args[i], B8_FALSE);
+        if (IS_ERR(x)) {
+            while (i-- > 0)
+                drop_obj(vm_stack_pop());
             return x;
+        }
         vm_stack_push(x);
     }
 
-- 
2.43.0


From 71b91b8aeb591a96df58a9879e0bea2c8beeb148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 002/102] fix: a failing lambda releases its operands and pops
 its return frame once

---
 core/eval.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index 94097d4..fd96fc1 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -298,13 +298,15 @@ static inline obj_p unwrap(obj_p obj, i64_t id) {
 // Unwind return stack on error, adding trace frames for each caller
 static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
     ctx_t *rs;
+    i64_t base;
     while (vm->rp > 0) {
         rs = &vm->rs[vm->rp - 1];
         if (rs->ip == -1) {
-            // External call marker - stop unwinding
-            vm->rp--;
-            vm->fn = rs->fn;
-            vm->fp = rs->fp;
+            // External call marker - stop unwinding: call() pops the frame and its caller the
+            // arguments, so release only what was pushed above them
+            base = vm->fp + AS_LAMBDA(vm->fn)->args->len;
+            while (vm->sp > base)
+                drop_obj(vm->ps[--vm->sp]);
             break;
         }
         // Add caller's location to trace
-- 
2.43.0


From b4dbb76fc22f4d6929a8cfd467c461f1ab01cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 003/102] fix: raise keeps its message and try passes it to the
 handler without stray bytes

---
 core/eval.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index fd96fc1..adc56b1 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -912,14 +912,18 @@ obj_p ray_return(obj_p *x, i64_t n) {
 }
 
 obj_p ray_raise(obj_p obj) {
-    obj_p e;
+    c8_t msg[ERR_MSG_SIZE];
+    i64_t l;
 
     if (obj->type != TYPE_C8)
         return err_type(TYPE_C8, obj->type, 0, 0);
 
-    // Clone the message since error_obj takes ownership but caller drops the argument
-    e = err_user(NULL);
-    return e;
+    // The error context keeps its own, possibly truncated, null-terminated copy of the message
+    l = (obj->len < ERR_MSG_SIZE) ? obj->len : ERR_MSG_SIZE - 1;
+    memcpy(msg, AS_C8(obj), l);
+    msg[l] = '\0';
+
+    return err_user(msg);
 }
 
 obj_p ray_parse_str(i64_t fd, obj_p str, obj_p file) {
@@ -1027,7 +1031,7 @@ obj_p try_obj(obj_p obj, obj_p ctch) {
                     return err_arity(1, AS_LAMBDA(fn)->args->len, 0);
                 }
                 // Push error message as string for catch handler
-                vm_stack_push(str_fmt(-1, "%s", err_msg(res)));
+                vm_stack_push(vn_c8("%s", err_msg(res)));
                 drop_obj(res);
                 res = call(fn, 1);
                 drop_obj(vm_stack_pop());
-- 
2.43.0


From 71586a254e747a7f080e628475e05aa388b1c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 004/102] fix: casting to symbols uses exactly the formatted
 text

---
 core/rayforce.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index bba4d0f..3651be6 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2520,7 +2520,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_SYMBOL, -TYPE_TIMESTAMP):
         case MTYPE2(-TYPE_SYMBOL, -TYPE_GUID):
             v = obj_fmt(obj, B8_FALSE);
-            res = symbol(AS_C8(v), strlen(AS_C8(v)));
+            res = symbol(AS_C8(v), v->len);
             drop_obj(v);
             return res;
         case MTYPE2(-TYPE_SYMBOL, TYPE_C8):
@@ -2755,7 +2755,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             for (i = 0; i < l; i++) {
                 obj_p sym;
                 v = str_fmt(-1, "%lld", AS_I64(obj)[i]);
-                sym = symbol(AS_C8(v), v->len);
+                sym = symbol(AS_C8(v), strlen(AS_C8(v)));
                 AS_I64(res)[i] = sym->i64;
                 drop_obj(sym);
                 drop_obj(v);
-- 
2.43.0


From 6ed0d48fb8c6eed033be7a38d151a2a199646a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 005/102] fix: a lambda called with the wrong number of
 arguments from bytecode is an error

---
 core/cc.c   | 4 ++++
 core/eval.c | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/core/cc.c b/core/cc.c
index 460d1ed..0c5984f 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -287,6 +287,8 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
             break;
 
         case TYPE_LAMBDA:
+            if (n != AS_LAMBDA(car)->args->len)
+                return -1;
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALLF);
             break;
@@ -294,6 +296,8 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
         case -TYPE_SYMBOL:
             if (car->i64 == SYMBOL_SELF) {
                 // Self-recursive call
+                if (n != cc->args->len)
+                    return -1;
                 OP(cc, OP_CALLS);
             } else {
                 // Dynamic call - need to resolve symbol at runtime
diff --git a/core/eval.c b/core/eval.c
index adc56b1..397668f 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -580,6 +580,12 @@ OP_CALLD:
             push(r);
             break;
         case TYPE_LAMBDA:
+            if (UNLIKELY(n != AS_LAMBDA(x)->args->len)) {
+                r = err_length(AS_LAMBDA(x)->args->len, n, 0, 0, 0, 0);
+                drop_obj(x);
+                bc_error_add_loc(r, vm->fn, ip - 1);
+                return vm_error_unwind(vm, r);
+            }
             goto callf;
         default: {
             i8_t got = x->type;
-- 
2.43.0


From 698e67576e97b9d30651790f106db33178a1a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 006/102] fix: deep recursion gives a limit error instead of
 overrunning the program stack

---
 core/eval.c | 27 ++++++++++++++++++++-------
 core/iter.c | 36 ++++++++++++++++++++++++++++++++++++
 core/vary.c |  3 +++
 3 files changed, 59 insertions(+), 7 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index 397668f..eaa3afe 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -405,7 +405,10 @@ OP_JMPF:
     next();
 
 OP_LOADCONST:
-    push(clone_obj(consts[bc[ip++]]));
+    n = bc[ip++];
+    if (UNLIKELY(vm->sp >= VM_STACK_SIZE))
+        goto overflow;
+    push(clone_obj(consts[n]));
     next();
 
 OP_POP:
@@ -512,12 +515,9 @@ callf:
     next();
 
 OP_CALLS:
-    // Self-recursive call - check for stack overflow
-    if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
-        r = err_limit(VM_STACK_SIZE);
-        bc_error_add_loc(r, vm->fn, ip - 1);
-        return vm_error_unwind(vm, r);
-    }
+    // Self-recursive call - check for stack overflow (the result needs a slot as well)
+    if (UNLIKELY(vm->rp >= VM_STACK_SIZE || vm->sp >= VM_STACK_SIZE))
+        goto overflow;
     rs = &vm->rs[vm->rp++];
     rs->ip = ip;
     rs->fp = vm->fp;
@@ -602,6 +602,8 @@ OP_LOADENV:
     // - offset < nargs: load from stack (args passed on stack)
     // - offset >= nargs: load from lambda->env values (let-bound locals)
     n = bc[ip++];
+    if (UNLIKELY(vm->sp >= VM_STACK_SIZE))
+        goto overflow;
     {
         i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
         if (n < nargs) {
@@ -664,6 +666,11 @@ OP_STOREENV:
     }
     next();
 
+overflow:
+    r = err_limit(VM_STACK_SIZE);
+    bc_error_add_loc(r, vm->fn, ip - 1);
+    return vm_error_unwind(vm, r);
+
 #undef next
 #undef push
 #undef pop
@@ -689,6 +696,10 @@ obj_p call(obj_p fn, i64_t arity) {
             return res;
     }
 
+    // Native code recursing through lambdas shares the stacks with bytecode
+    if (UNLIKELY(vm->rp >= VM_STACK_SIZE))
+        return err_limit(VM_STACK_SIZE);
+
     // Push to return stack - this lets resolve() find parent scope
     // ip = -1 marks this as an external call (OP_RET will return to vm_eval top level)
     vm->rs[vm->rp].fn = saved_fn;
@@ -1036,6 +1047,8 @@ obj_p try_obj(obj_p obj, obj_p ctch) {
                     drop_obj(res);
                     return err_arity(1, AS_LAMBDA(fn)->args->len, 0);
                 }
+                if (!vm_stack_enough(1))
+                    return err_limit(VM_STACK_SIZE);
                 // Push error message as string for catch handler
                 vm_stack_push(vn_c8("%s", err_msg(res)));
                 drop_obj(res);
diff --git a/core/iter.c b/core/iter.c
index 2630c6f..5d9f44d 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -471,6 +471,9 @@ obj_p map_lambda_range(obj_p f, obj_p *lst, i64_t n, i64_t start, i64_t end) {
     if (l == 0)
         return NULL_OBJ;
 
+    if (!vm_stack_enough(n))
+        return err_limit(VM_STACK_SIZE);
+
     for (j = 0; j < n; j++)
         vm_stack_push(at_idx(lst[j], start));
 
@@ -513,6 +516,9 @@ obj_p map_lambda(obj_p f, obj_p *x, i64_t n) {
     if (n == 0 || l == 0 || l == NULL_I64)
         return NULL_OBJ;
 
+    if (!vm_stack_enough(n))
+        return err_limit(VM_STACK_SIZE);
+
     for (j = 0; j < n; j++)
         vm_stack_push(at_idx(x[j], 0));
 
@@ -593,6 +599,9 @@ obj_p ray_map(obj_p *x, i64_t n) {
     x++;
     n--;
 
+    if (!vm_stack_enough(n + 1))
+        return err_limit(VM_STACK_SIZE);
+
     switch (f->type) {
         case TYPE_UNARY:
             if (n != 1)
@@ -633,6 +642,9 @@ obj_p ray_pmap(obj_p *x, i64_t n) {
     x++;
     n--;
 
+    if (!vm_stack_enough(n + 1))
+        return err_limit(VM_STACK_SIZE);
+
     switch (f->type) {
         case TYPE_UNARY:
             if (n != 1)
@@ -673,6 +685,9 @@ obj_p ray_map_left(obj_p *x, i64_t n) {
     x++;
     n--;
 
+    if (!vm_stack_enough(n + 1))
+        return err_limit(VM_STACK_SIZE);
+
     switch (f->type) {
         case TYPE_UNARY:
             if (n != 1)
@@ -760,6 +775,9 @@ obj_p ray_map_right(obj_p *x, i64_t n) {
     x++;
     n--;
 
+    if (!vm_stack_enough(n + 1))
+        return err_limit(VM_STACK_SIZE);
+
     switch (f->type) {
         case TYPE_UNARY:
             if (n != 1)
@@ -847,6 +865,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
     x++;
     n--;
 
+    if (!vm_stack_enough(n + 1))
+        return err_limit(VM_STACK_SIZE);
+
     switch (f->type) {
         case TYPE_UNARY:
             if (n != 1)
@@ -1052,6 +1073,9 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
     x++;
     n--;
 
+    if (!vm_stack_enough(n + 1))
+        return err_limit(VM_STACK_SIZE);
+
     switch (f->type) {
         case TYPE_UNARY:
             if (n != 1)
@@ -1141,6 +1165,9 @@ obj_p ray_fold_right(obj_p *x, i64_t n) {
     x++;
     n--;
 
+    if (!vm_stack_enough(n + 1))
+        return err_limit(VM_STACK_SIZE);
+
     switch (f->type) {
         case TYPE_UNARY:
             if (n != 1)
@@ -1221,6 +1248,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
     x++;
     n--;
 
+    if (!vm_stack_enough(n + 1))
+        return err_limit(VM_STACK_SIZE);
+
     switch (f->type) {
         case TYPE_UNARY:
             if (n != 1)
@@ -1490,6 +1520,9 @@ obj_p ray_scan_left(obj_p *x, i64_t n) {
     x++;
     n--;
 
+    if (!vm_stack_enough(n + 1))
+        return err_limit(VM_STACK_SIZE);
+
     switch (f->type) {
         case TYPE_UNARY:
             if (n != 1)
@@ -1587,6 +1620,9 @@ obj_p ray_scan_right(obj_p *x, i64_t n) {
     x++;
     n--;
 
+    if (!vm_stack_enough(n + 1))
+        return err_limit(VM_STACK_SIZE);
+
     switch (f->type) {
         case TYPE_UNARY:
             if (n != 1)
diff --git a/core/vary.c b/core/vary.c
index ad17a64..378a7f1 100644
--- a/core/vary.c
+++ b/core/vary.c
@@ -78,6 +78,9 @@ obj_p ray_apply(obj_p *x, i64_t n) {
             if (n != AS_LAMBDA(f)->args->len)
                 return err_arity(AS_LAMBDA(f)->args->len, n, 0);
 
+            if (!vm_stack_enough(n))
+                return err_limit(VM_STACK_SIZE);
+
             for (i = 0; i < n; i++)
                 vm_stack_push(clone_obj(x[i]));
 
-- 
2.43.0


From 9effc92c072145eed33e1a0a2247c2d39cf6e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 007/102] fix: a running function survives rebinding of its
 name

---
 core/eval.c | 61 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index eaa3afe..c94d2c5 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -311,6 +311,7 @@ static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
         }
         // Add caller's location to trace
         bc_error_add_loc(err, rs->fn, rs->ip - 1);
+        drop_obj(vm->fn);
         vm->rp--;
         vm->fn = rs->fn;
         vm->fp = rs->fp;
@@ -376,6 +377,7 @@ OP_RET:
         r = pop();
         while (vm->sp > vm->fp)
             drop_obj(pop());
+        drop_obj(vm->fn);  // the frame holds its function
         vm->rp--;
         ip = rs->ip;
         vm->fp = rs->fp;
@@ -505,13 +507,12 @@ callf:
     rs->ip = ip;
     rs->fp = vm->fp;
     rs->fn = vm->fn;
-    // Switch to new function
+    // Switch to new function (the frame holds it: running it may rebind its name)
     vm->fp = vm->sp - AS_LAMBDA(x)->args->len;
     vm->fn = x;
     bc = AS_U8(AS_LAMBDA(x)->bc);
     consts = AS_LIST(AS_LAMBDA(x)->consts);
     ip = 0;
-    drop_obj(x);  // Safe because it's on the constants pool
     next();
 
 OP_CALLS:
@@ -523,6 +524,7 @@ OP_CALLS:
     rs->fp = vm->fp;
     rs->fn = vm->fn;
     vm->fp = vm->sp - AS_LAMBDA(vm->fn)->args->len;
+    clone_obj(vm->fn);  // the frame holds its function
     ip = 0;
     next();
 
@@ -707,13 +709,15 @@ obj_p call(obj_p fn, i64_t arity) {
     vm->rs[vm->rp].ip = -1;  // External call marker
     vm->rp++;
 
-    // Execute bytecode
+    // Execute bytecode, holding the function: running it may rebind its name
+    clone_obj(fn);
     res = vm_eval(fn);
 
     // Pop frame and restore context
     vm->rp--;
     vm->fn = saved_fn;
     vm->fp = saved_fp;
+    drop_obj(fn);
 
     return res;
 }
@@ -858,21 +862,8 @@ static inline obj_p eval_sym(obj_p sym) {
     return clone_obj(*val);
 }
 
-// Evaluate list (function call)
-static obj_p eval_list(obj_p obj) {
-    obj_p car, *val, *args;
-    i64_t len, id;
-
-    if (obj->len == 0)
-        return NULL_OBJ;
-
-    args = AS_LIST(obj);
-    car = args[0];
-    len = obj->len - 1;
-    args++;
-    id = (i64_t)obj;
-
-dispatch:
+// Evaluate call of a resolved function
+static obj_p eval_call(obj_p car, obj_p *args, i64_t len, i64_t id) {
     switch (car->type) {
         case TYPE_UNARY:
             if (len != 1)
@@ -890,18 +881,38 @@ dispatch:
         case TYPE_LAMBDA:
             return eval_lambda(car, args, len, id);
 
-        case -TYPE_SYMBOL:
-            val = resolve(car->i64);
-            if (val == NULL)
-                return unwrap(err_value(car->i64), id);
-            car = *val;
-            goto dispatch;
-
         default:
             return unwrap(err_type(TYPE_LAMBDA, car->type, 0, 0), id);  // not callable
     }
 }
 
+// Evaluate list (function call)
+static obj_p eval_list(obj_p obj) {
+    obj_p car, *val, res;
+    i64_t len, id;
+
+    if (obj->len == 0)
+        return NULL_OBJ;
+
+    car = AS_LIST(obj)[0];
+    len = obj->len - 1;
+    id = (i64_t)obj;
+
+    if (car->type != -TYPE_SYMBOL)
+        return eval_call(car, AS_LIST(obj) + 1, len, id);
+
+    val = resolve(car->i64);
+    if (val == NULL)
+        return unwrap(err_value(car->i64), id);
+
+    // Evaluating the arguments or the call itself may rebind the name: hold the function
+    car = clone_obj(*val);
+    res = eval_call(car, AS_LIST(obj) + 1, len, id);
+    drop_obj(car);
+
+    return res;
+}
+
 // Main eval dispatcher
 __attribute__((hot)) obj_p eval(obj_p obj) {
     switch (obj->type) {
-- 
2.43.0


From f9b6746aa1b7a48622c4b90ae2c59aa02bb61255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 008/102] fix: large lambdas compile with 16-bit operands
 instead of overrunning the bytecode buffer

---
 core/cc.c   | 76 +++++++++++++++++++++++++++++++++++++++--------------
 core/cc.h   |  5 ++++
 core/eval.c | 22 ++++++++++------
 3 files changed, 75 insertions(+), 28 deletions(-)

diff --git a/core/cc.c b/core/cc.c
index 0c5984f..6c9490f 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -81,18 +81,43 @@ span_t bc_dbg_get(obj_p dbg, i64_t ip) {
     return span;
 }
 
+// Emit one byte, growing the buffer as needed
+static nil_t cc_emit(cc_ctx_t *cc, u8_t op) {
+    if (cc->ip >= cc->bc->len)
+        resize_obj(&cc->bc, cc->bc->len * 2);
+
+    AS_U8(cc->bc)[cc->ip++] = op;
+}
+
+// Set the 2-byte operand at offset
+static nil_t cc_patch2(cc_ctx_t *cc, i64_t offset, i64_t val) {
+    if (val > BC_MAX_OPERAND)
+        cc->overflow = B8_TRUE;
+
+    AS_U8(cc->bc)[offset] = (u8_t)(val & 0xff);
+    AS_U8(cc->bc)[offset + 1] = (u8_t)((val >> 8) & 0xff);
+}
+
+// Emit a 2-byte operand
+static nil_t cc_emit2(cc_ctx_t *cc, i64_t val) {
+    cc_emit(cc, 0);
+    cc_emit(cc, 0);
+    cc_patch2(cc, cc->ip - 2, val);
+}
+
 // clang-format off
-#define OP(ctx, op) (AS_U8((ctx)->bc)[(ctx)->ip++] = (u8_t)(op))
+#define OP(ctx, op)  cc_emit(ctx, (u8_t)(op))
+#define OP2(ctx, op) cc_emit2(ctx, (op))
 #define CE(f)       { if ((f) == -1) return -1; }
 
 // Load constant from consts pool by offset (no name, pure value)
-#define LOADCONST(ctx, val) ({ OP(ctx, OP_LOADCONST); OP(ctx, (ctx)->consts->len); push_obj(&(ctx)->consts, (val)); })
+#define LOADCONST(ctx, val) ({ OP(ctx, OP_LOADCONST); OP2(ctx, (ctx)->consts->len); push_obj(&(ctx)->consts, (val)); })
 
 // Load from env by offset (args + let-bound locals, resolvable by name)
-#define LOADENV(ctx, offset) ({ OP(ctx, OP_LOADENV); OP(ctx, (offset)); })
+#define LOADENV(ctx, offset) ({ OP(ctx, OP_LOADENV); OP2(ctx, (offset)); })
 
 // Store to env by offset (for let bindings)
-#define STOREENV(ctx, offset) ({ OP(ctx, OP_STOREENV); OP(ctx, (offset)); })
+#define STOREENV(ctx, offset) ({ OP(ctx, OP_STOREENV); OP2(ctx, (offset)); })
 
 // Record debug info: map bytecode offset to span from AST node
 #define DBG(ctx, expr) do { \
@@ -161,7 +186,7 @@ static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     // jump if false to else branch
     OP(cc, OP_JMPF);
     j1 = cc->ip;
-    OP(cc, 0);
+    OP2(cc, 0);
 
     // compile then branch
     CE(cc_expr(cc, lst[1]));
@@ -169,10 +194,10 @@ static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     // jump over else branch
     OP(cc, OP_JMP);
     j2 = cc->ip;
-    OP(cc, 0);
+    OP2(cc, 0);
 
     // patch jmpf offset
-    AS_U8(cc->bc)[j1] = (u8_t)(cc->ip - j1 - 1);
+    cc_patch2(cc, j1, cc->ip - j1 - 2);
 
     // compile else branch (or null)
     if (n == 3) {
@@ -182,7 +207,7 @@ static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     }
 
     // patch jmp offset
-    AS_U8(cc->bc)[j2] = (u8_t)(cc->ip - j2 - 1);
+    cc_patch2(cc, j2, cc->ip - j2 - 2);
 
     return 0;
 }
@@ -226,7 +251,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
         DBG(cc, expr);
         LOADCONST(cc, clone_obj(car));
         OP(cc, OP_CALLN);
-        OP(cc, n);
+        OP2(cc, n);
         return 0;
     }
 
@@ -283,7 +308,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
         case TYPE_VARY:
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALLN);
-            OP(cc, n);
+            OP2(cc, n);
             break;
 
         case TYPE_LAMBDA:
@@ -303,7 +328,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
                 // Dynamic call - need to resolve symbol at runtime
                 CE(cc_expr(cc, car));
                 OP(cc, OP_CALLD);
-                OP(cc, n);
+                OP2(cc, n);
             }
             break;
 
@@ -311,7 +336,7 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
             // For other types, try to evaluate at runtime
             CE(cc_expr(cc, car));
             OP(cc, OP_CALLD);
-            OP(cc, n);
+            OP2(cc, n);
             break;
     }
 
@@ -389,6 +414,10 @@ static obj_p cc_fn(cc_ctx_t *cc, obj_p *lst, i64_t n) {
 end:
     OP(cc, OP_RET);
 
+    // Too big for the operands of the bytecode
+    if (cc->overflow)
+        return err_limit(BC_MAX_OPERAND);
+
     // Resize bytecode to actual size
     resize_obj(&cc->bc, cc->ip);
 
@@ -506,22 +535,27 @@ nil_t cc_dump(obj_p lambda) {
                 printf("RET\n");
                 break;
             case OP_JMP:
-                printf("JMP +%d\n", bc[++i]);
+                printf("JMP +%d\n", bc_operand(bc, i + 1));
+                i += 2;
                 break;
             case OP_JMPF:
-                printf("JMPF +%d\n", bc[++i]);
+                printf("JMPF +%d\n", bc_operand(bc, i + 1));
+                i += 2;
                 break;
             // Data operations
             case OP_LOADCONST:
-                fmt = obj_fmt(consts[bc[++i]], B8_FALSE);
-                printf("LOADCONST %lld (%.*s)\n", (i64_t)bc[i], (i32_t)fmt->len, AS_C8(fmt));
+                fmt = obj_fmt(consts[bc_operand(bc, i + 1)], B8_FALSE);
+                printf("LOADCONST %lld (%.*s)\n", (i64_t)bc_operand(bc, i + 1), (i32_t)fmt->len, AS_C8(fmt));
                 drop_obj(fmt);
+                i += 2;
                 break;
             case OP_LOADENV:
-                printf("LOADENV %d\n", bc[++i]);
+                printf("LOADENV %d\n", bc_operand(bc, i + 1));
+                i += 2;
                 break;
             case OP_STOREENV:
-                printf("STOREENV %d\n", bc[++i]);
+                printf("STOREENV %d\n", bc_operand(bc, i + 1));
+                i += 2;
                 break;
             case OP_POP:
                 printf("POP\n");
@@ -538,7 +572,8 @@ nil_t cc_dump(obj_p lambda) {
                 printf("CALL2\n");
                 break;
             case OP_CALLN:
-                printf("CALLN %d\n", bc[++i]);
+                printf("CALLN %d\n", bc_operand(bc, i + 1));
+                i += 2;
                 break;
             case OP_CALLF:
                 printf("CALLF\n");
@@ -547,7 +582,8 @@ nil_t cc_dump(obj_p lambda) {
                 printf("CALLS\n");
                 break;
             case OP_CALLD:
-                printf("CALLD %d\n", bc[++i]);
+                printf("CALLD %d\n", bc_operand(bc, i + 1));
+                i += 2;
                 break;
             default:
                 printf("??? %d\n", bc[i]);
diff --git a/core/cc.h b/core/cc.h
index 5d225a7..8398150 100644
--- a/core/cc.h
+++ b/core/cc.h
@@ -29,6 +29,10 @@
 #include "nfo.h"
 
 #define BC_SIZE 256
+#define BC_MAX_OPERAND 65535
+
+// Read the 2-byte operand at offset
+#define bc_operand(bc, offset) ((bc)[offset] | ((i32_t)(bc)[(offset) + 1] << 8))
 
 // Compiler context
 typedef struct cc_ctx_t {
@@ -44,6 +48,7 @@ typedef struct cc_ctx_t {
     obj_p env_names;  // env layout: SYMBOL vector mapping offset -> name
                       // at runtime: index i -> symbol name for resolve()
                       // args occupy slots 0..nargs-1, let-bindings follow
+    b8_t overflow;    // an operand does not fit the bytecode
 } cc_ctx_t;
 
 // Look up span for a bytecode offset
diff --git a/core/eval.c b/core/eval.c
index c94d2c5..83fb91d 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -394,12 +394,13 @@ OP_RET:
     return pop();
 
 OP_JMP:
-    n = bc[ip++];
-    ip += n;
+    n = bc_operand(bc, ip);
+    ip += n + 2;
     next();
 
 OP_JMPF:
-    n = bc[ip++];
+    n = bc_operand(bc, ip);
+    ip += 2;
     x = pop();
     if (!ops_as_b8(x))
         ip += n;
@@ -407,7 +408,8 @@ OP_JMPF:
     next();
 
 OP_LOADCONST:
-    n = bc[ip++];
+    n = bc_operand(bc, ip);
+    ip += 2;
     if (UNLIKELY(vm->sp >= VM_STACK_SIZE))
         goto overflow;
     push(clone_obj(consts[n]));
@@ -461,7 +463,8 @@ OP_CALL2:
     next();
 
 OP_CALLN:
-    n = bc[ip++];  // arity
+    n = bc_operand(bc, ip);  // arity
+    ip += 2;
     r = pop();     // function
     l = top(n);
     res = vary_call(r, l, n);
@@ -529,7 +532,8 @@ OP_CALLS:
     next();
 
 OP_CALLD:
-    n = bc[ip++];  // arity
+    n = bc_operand(bc, ip);  // arity
+    ip += 2;
     x = pop();     // function (dynamically resolved)
     switch (x->type) {
         case TYPE_UNARY:
@@ -603,7 +607,8 @@ OP_LOADENV:
     // Load from env by offset
     // - offset < nargs: load from stack (args passed on stack)
     // - offset >= nargs: load from lambda->env values (let-bound locals)
-    n = bc[ip++];
+    n = bc_operand(bc, ip);
+    ip += 2;
     if (UNLIKELY(vm->sp >= VM_STACK_SIZE))
         goto overflow;
     {
@@ -634,7 +639,8 @@ OP_LOADENV:
 OP_STOREENV:
     // Store to env by offset (for let bindings)
     // Value is on stack top, store to env->values[offset - nargs]
-    n = bc[ip++];
+    n = bc_operand(bc, ip);
+    ip += 2;
     {
         i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
         obj_p env = AS_LAMBDA(vm->fn)->env;
-- 
2.43.0


From b0c630fbe23b683e3ddc7580753ee3d3b0e5bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 009/102] fix: let-bound locals belong to one call of a lambda

---
 core/eval.c   | 44 ++++++++++++++++++++++++++++++++------------
 core/eval.h   | 10 ++++++----
 core/lambda.c |  1 -
 core/lambda.h |  5 -----
 4 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index 83fb91d..1731fb2 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -47,6 +47,7 @@ vm_p vm_create(i32_t id, struct pool_t *pool) {
     vm->fp = 0;
     vm->rp = 0;
     vm->fn = NULL_OBJ;
+    vm->env = NULL_OBJ;
     vm->id = id;
     vm->pool = pool;
     // Cold fields
@@ -95,8 +96,7 @@ nil_t vm_destroy(vm_p vm) {
 // Returns pointer to value slot, or NULL if not found
 // - offset < nargs: return stack pointer at fp_offset + offset
 // - offset >= nargs: return env->values pointer
-static obj_p *resolve_in_env(obj_p fn, i64_t sym, i64_t fp_offset) {
-    obj_p env;
+static obj_p *resolve_in_env(obj_p fn, obj_p env, i64_t sym, i64_t fp_offset) {
     i64_t i, n;
     vm_p vm = VM;
 
@@ -113,8 +113,7 @@ static obj_p *resolve_in_env(obj_p fn, i64_t sym, i64_t fp_offset) {
         }
     }
 
-    // Then check let-bound locals in env
-    env = AS_LAMBDA(fn)->env;
+    // Then check let-bound locals of this call
     if (env != NULL_OBJ && env->type == TYPE_DICT) {
         n = AS_LIST(env)[0]->len;
         for (i = 0; i < n; i++) {
@@ -143,14 +142,14 @@ obj_p *resolve(i64_t sym) {
         return &vm->fn;
 
     // Search in current lambda's env (args + let-bound locals)
-    result = resolve_in_env(fn, sym, vm->fp);
+    result = resolve_in_env(fn, vm->env, sym, vm->fp);
     if (result != NULL)
         return result;
 
     // Walk up return stack - check each parent lambda's env
     for (frame = vm->rp; frame > 0; frame--) {
         fn = vm->rs[frame - 1].fn;
-        result = resolve_in_env(fn, sym, vm->rs[frame - 1].fp);
+        result = resolve_in_env(fn, vm->rs[frame - 1].env, sym, vm->rs[frame - 1].fp);
         if (result != NULL)
             return result;
     }
@@ -179,9 +178,18 @@ obj_p amend(obj_p sym, obj_p val) {
     obj_p *env_slot;
     vm_p vm = VM;
 
-    // Add to current lambda's env, or globals if at top level
+    // Add to the locals of the current call, or globals if at top level
     if (vm->fn != NULL_OBJ) {
-        env_slot = &AS_LAMBDA(vm->fn)->env;
+        // An argument is rebound in its own slot
+        i64_t i, n = AS_LAMBDA(vm->fn)->args->len;
+        for (i = 0; i < n; i++) {
+            if (AS_SYMBOL(AS_LAMBDA(vm->fn)->args)[i] == sym->i64) {
+                drop_obj(vm->ps[vm->fp + i]);
+                vm->ps[vm->fp + i] = clone_obj(val);
+                return val;
+            }
+        }
+        env_slot = &vm->env;
         if (*env_slot != NULL_OBJ)
             set_obj(env_slot, sym, clone_obj(val));
         else {
@@ -312,8 +320,10 @@ static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
         // Add caller's location to trace
         bc_error_add_loc(err, rs->fn, rs->ip - 1);
         drop_obj(vm->fn);
+        drop_obj(vm->env);
         vm->rp--;
         vm->fn = rs->fn;
+        vm->env = rs->env;
         vm->fp = rs->fp;
     }
     return err;
@@ -377,11 +387,13 @@ OP_RET:
         r = pop();
         while (vm->sp > vm->fp)
             drop_obj(pop());
-        drop_obj(vm->fn);  // the frame holds its function
+        drop_obj(vm->fn);  // the frame holds its function and locals
+        drop_obj(vm->env);
         vm->rp--;
         ip = rs->ip;
         vm->fp = rs->fp;
         vm->fn = rs->fn;
+        vm->env = rs->env;
         bc = AS_U8(AS_LAMBDA(vm->fn)->bc);
         consts = AS_LIST(AS_LAMBDA(vm->fn)->consts);
         // Add caller's location to trace if error is propagating
@@ -510,6 +522,8 @@ callf:
     rs->ip = ip;
     rs->fp = vm->fp;
     rs->fn = vm->fn;
+    rs->env = vm->env;
+    vm->env = NULL_OBJ;
     // Switch to new function (the frame holds it: running it may rebind its name)
     vm->fp = vm->sp - AS_LAMBDA(x)->args->len;
     vm->fn = x;
@@ -526,6 +540,8 @@ OP_CALLS:
     rs->ip = ip;
     rs->fp = vm->fp;
     rs->fn = vm->fn;
+    rs->env = vm->env;
+    vm->env = NULL_OBJ;
     vm->fp = vm->sp - AS_LAMBDA(vm->fn)->args->len;
     clone_obj(vm->fn);  // the frame holds its function
     ip = 0;
@@ -619,7 +635,7 @@ OP_LOADENV:
             push(clone_obj(x));
         } else {
             // Let-bound locals in env values
-            obj_p env = AS_LAMBDA(vm->fn)->env;
+            obj_p env = vm->env;
             if (env != NULL_OBJ && env->type == TYPE_DICT) {
                 i64_t local_idx = n - nargs;
                 obj_p values = AS_LIST(env)[1];
@@ -643,7 +659,7 @@ OP_STOREENV:
     ip += 2;
     {
         i64_t nargs = AS_LAMBDA(vm->fn)->args->len;
-        obj_p env = AS_LAMBDA(vm->fn)->env;
+        obj_p env = vm->env;
         x = pop();  // value to store
 
         if (n < nargs) {
@@ -712,15 +728,19 @@ obj_p call(obj_p fn, i64_t arity) {
     // ip = -1 marks this as an external call (OP_RET will return to vm_eval top level)
     vm->rs[vm->rp].fn = saved_fn;
     vm->rs[vm->rp].fp = saved_fp;
+    vm->rs[vm->rp].env = vm->env;
     vm->rs[vm->rp].ip = -1;  // External call marker
     vm->rp++;
+    vm->env = NULL_OBJ;
 
     // Execute bytecode, holding the function: running it may rebind its name
     clone_obj(fn);
     res = vm_eval(fn);
 
-    // Pop frame and restore context
+    // Pop frame with its locals and restore context
+    drop_obj(vm->env);
     vm->rp--;
+    vm->env = vm->rs[vm->rp].env;
     vm->fn = saved_fn;
     vm->fp = saved_fp;
     drop_obj(fn);
diff --git a/core/eval.h b/core/eval.h
index 96307f6..cb82526 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -66,9 +66,10 @@ typedef enum op_type_t {
 struct pool_t;
 struct heap_t;
 
-// Return stack frame - compact for cache efficiency (16 bytes)
+// Return stack frame - compact for cache efficiency
 typedef struct ctx_t {
-    obj_p fn;  // function pointer (lambda->env has the environment)
+    obj_p fn;   // function pointer
+    obj_p env;  // let-bound locals of the call (DICT)
     i32_t fp;  // frame pointer (max VM_STACK_SIZE = 1024)
     i32_t ip;  // instruction pointer (max bytecode ~64KB)
 } ctx_t;
@@ -83,8 +84,9 @@ typedef struct vm_t {
     i32_t fp;  // frame pointer
     i32_t rp;  // return stack pointer
     i32_t id;  // VM id (thread index)
-    // Pointers (40 bytes)
-    obj_p fn;                       // current function (fn->env has local variables)
+    // Pointers
+    obj_p fn;                       // current function
+    obj_p env;                      // let-bound locals of the current call (DICT)
     struct heap_t *heap;            // heap pointer
     struct pool_t *pool;            // pool pointer
     struct query_ctx_t *query_ctx;  // query context stack (for table column resolution)
diff --git a/core/lambda.c b/core/lambda.c
index 02e2cdd..42ff155 100644
--- a/core/lambda.c
+++ b/core/lambda.c
@@ -45,7 +45,6 @@ obj_p lambda(obj_p args, obj_p body, obj_p nfo) {
     f->bc = NULL_OBJ;      // Bytecode (compiled on first call)
     f->consts = NULL_OBJ;  // Constants pool
     f->dbg = NULL_OBJ;     // Debug info (bytecode offset -> span)
-    f->env = NULL_OBJ;     // Local env for resolve() (args + let-bound locals)
 
     return obj;
 }
diff --git a/core/lambda.h b/core/lambda.h
index aa0577c..565ffc2 100644
--- a/core/lambda.h
+++ b/core/lambda.h
@@ -34,11 +34,6 @@ typedef struct lambda_f {
     obj_p bc;      // bytecode (U8 vector)
     obj_p consts;  // constants pool (LIST) - pure values, no names, accessed by offset
     obj_p dbg;     // debug info (maps bytecode offset -> span)
-    obj_p env;     // local environment DICT (symbols -> values):
-                   //   - At compile time: access by offset via OP_LOADENV/OP_STOREENV
-                   //   - At runtime: resolvable by name via resolve()
-                   //   - Contains: args (at start) + let-bound locals
-                   //   - Structure: (names: SYMBOL[], values: LIST) as DICT
 } *lambda_p;
 
 #define AS_LAMBDA(o) ((lambda_p)(AS_C8(o)))
-- 
2.43.0


From 5b129eadd37e5bb515f51bc3124f3b27ad836989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 010/102] fix: and/or inside a lambda evaluate their arguments
 once

---
 core/cc.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/cc.c b/core/cc.c
index 6c9490f..eca30c7 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -157,18 +157,16 @@ static b8_t is_cond_fn(obj_p car) {
 }
 
 // Check if vary function is a special form that needs unevaluated arguments
-// Excludes control-flow forms (if, and, or) which need special compilation
+// Excludes control-flow forms (if, do) which need special compilation
 // Note: try is TYPE_BINARY, handled by is_binary_special_form
 static b8_t is_vary_special_form(obj_p fn) {
     extern obj_p ray_cond(obj_p *, i64_t);
-    extern obj_p ray_and(obj_p *, i64_t);
-    extern obj_p ray_or(obj_p *, i64_t);
     extern obj_p ray_do(obj_p *, i64_t);
     if (fn->type != TYPE_VARY || !(fn->attrs & FN_SPECIAL_FORM))
         return B8_FALSE;
     // Exclude control-flow forms and do (which evaluates args normally)
     vary_f f = (vary_f)fn->i64;
-    return f != ray_cond && f != ray_and && f != ray_or && f != ray_do;
+    return f != ray_cond && f != ray_do;
 }
 
 // Compile if/cond expression
-- 
2.43.0


From a0208e91e8d5ec308a6c30b9f5858c4cbb0ea29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 011/102] fix: and/or do not modify the variables they combine,
 nor read past a scalar operand

---
 core/logic.c | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/core/logic.c b/core/logic.c
index 1bc3316..163798c 100644
--- a/core/logic.c
+++ b/core/logic.c
@@ -51,7 +51,7 @@ static obj_p and_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     }
 
     // else right is scalar
-    m = next_mask[0];
+    m = *(b8_t *)y;
     for (i = 0; i < n; i++)
         mask[i] = mask[i] && m;
 
@@ -78,13 +78,38 @@ static obj_p or_op_partial(raw_p x, raw_p y, raw_p z, raw_p k, raw_p l) {
     }
 
     // else right is scalar
-    m = next_mask[0];
+    m = *(b8_t *)y;
     for (i = 0; i < n; i++)
         mask[i] = mask[i] || m;
 
     return NULL_OBJ;
 }
 
+// Take ownership of an operand that is going to be modified in place: it may be the value of a variable
+static obj_p logic_own(obj_p x) {
+    i64_t i, l;
+    obj_p e, res;
+
+    if (x->type == TYPE_PARTEDB8) {
+        l = x->len;
+        res = LIST(l);
+        res->type = TYPE_PARTEDB8;
+        for (i = 0; i < l; i++) {
+            e = AS_LIST(x)[i];
+            AS_LIST(res)[i] = (e == NULL_OBJ) ? NULL_OBJ : copy_obj(e);
+        }
+    } else if (x->type == TYPE_B8 || x->type == -TYPE_B8) {
+        res = cow_obj(x);
+        if (res == x)
+            return res;
+    } else
+        return x;
+
+    drop_obj(x);
+
+    return res;
+}
+
 // Actual logic operation
 static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
     i64_t i, j, c, m, l, chunk;
@@ -100,6 +125,8 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
     if (IS_ERR(res) || n == 1)
         return res;
 
+    res = logic_own(res);
+
     // Process remaining expressions
     for (i = 1; i < n; i++) {
         next = eval(x[i]);
@@ -185,7 +212,7 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
 
             case MTYPE2(-TYPE_B8, TYPE_B8):
                 v = res;
-                res = next;
+                res = logic_own(next);
                 next = v;
                 goto va;
 
@@ -199,6 +226,8 @@ static obj_p logic_map(obj_p *x, i64_t n, lit_p op_name, logic_op_f op_func) {
                     return err_type(0, 0, 0, 0);
                 }
 
+                next = logic_own(next);
+
                 for (j = 0; j < l; j++) {
                     obj_p a = AS_LIST(res)[j];
                     obj_p b = AS_LIST(next)[j];
-- 
2.43.0


From f36a5d3c72887ecbd1d03a1c432e5b0ce50ac95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 012/102] fix: copies of date, time and guid values

---
 core/rayforce.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index 3651be6..f4dd6f3 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2968,11 +2968,15 @@ obj_p copy_obj(obj_p obj) {
             return timestamp(obj->i64);
         case -TYPE_F64:
             return f64(obj->f64);
+        case -TYPE_GUID:
+            return guid(AS_C8(obj));
         case TYPE_B8:
         case TYPE_U8:
         case TYPE_C8:
         case TYPE_I16:
         case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
-- 
2.43.0


From f0aee568b739c3fbe66b24958999830fd6b1f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 013/102] fix: iterators keep the stack balanced and release
 accumulators

---
 core/iter.c | 84 ++++++++++++++++++++++++-----------------------------
 1 file changed, 38 insertions(+), 46 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index 5d9f44d..83c50d9 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -419,7 +419,7 @@ obj_p map_binary(obj_p f, obj_p x, obj_p y) { return map_binary_fn((binary_f)f->
 
 obj_p map_vary_fn(vary_f fn, i64_t attrs, obj_p *x, i64_t n) {
     i64_t i, j, l;
-    obj_p v, res;
+    obj_p v, res = NULL_OBJ, *args;
 
     if (n == 0)
         return NULL_OBJ;
@@ -428,34 +428,34 @@ obj_p map_vary_fn(vary_f fn, i64_t attrs, obj_p *x, i64_t n) {
     if (l == NULL_I64)
         return err_arity(1, n, 0);
 
-    for (j = 0; j < n; j++)
-        vm_stack_push(at_idx(x[j], 0));
-
-    v = fn(x + n, n);
-
-    if (IS_ERR(v))
-        res = v;
-
-    res = v->type < 0 ? vector(v->type, l) : LIST(l);
+    if (l < 1)
+        return LIST(0);
 
-    ins_obj(&res, 0, v);
+    if (!vm_stack_enough(n))
+        return err_limit(VM_STACK_SIZE);
 
-    for (i = 1; i < l; i++) {
+    for (i = 0; i < l; i++) {
         for (j = 0; j < n; j++)
             vm_stack_push(at_idx(x[j], i));
 
-        v = (attrs & FN_ATOMIC) ? map_vary_fn(fn, attrs, x + n, n) : fn(x + n, n);
+        args = vm_stack_peek(n - 1);
+        v = (i > 0 && (attrs & FN_ATOMIC)) ? map_vary_fn(fn, attrs, args, n) : fn(args, n);
 
         // cleanup stack
         for (j = 0; j < n; j++)
             drop_obj(vm_stack_pop());
 
         if (IS_ERR(v)) {
-            res->len = i;
-            drop_obj(res);
+            if (i > 0) {
+                res->len = i;
+                drop_obj(res);
+            }
             return v;
         }
 
+        if (i == 0)
+            res = v->type < 0 ? vector(v->type, l) : LIST(l);
+
         ins_obj(&res, i, v);
     }
 
@@ -853,6 +853,13 @@ obj_p ray_map_right(obj_p *x, i64_t n) {
     }
 }
 
+// Apply to the accumulator, releasing it
+static obj_p fold_step(obj_p f, obj_p acc, obj_p x) {
+    obj_p res = binary_call(f, acc, x);
+    drop_obj(acc);
+    return res;
+}
+
 obj_p ray_fold(obj_p *x, i64_t n) {
     i64_t i, j, l;
     obj_p f, v, x1, x2;
@@ -904,7 +911,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 for (i = 1; i < l; i++) {
                     x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
                     x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    v = fold_step(f, v, x2);  // Use accumulated value as first argument
 
                     if (xt != TYPE_LIST)
                         drop_obj(x1);
@@ -931,7 +938,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
 
                 for (i = 1; i < l; i++) {
                     x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    v = binary_call(f, v, x1);  // Use accumulated value as first argument
+                    v = fold_step(f, v, x1);  // Use accumulated value as first argument
                     if (xt != TYPE_LIST)
                         drop_obj(x1);
 
@@ -955,7 +962,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
 
                 for (i = 1; i < l; i++) {
                     x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);  // Use accumulated value as first argument
+                    v = fold_step(f, v, x2);  // Use accumulated value as first argument
                     if (yt != TYPE_LIST)
                         drop_obj(x2);
 
@@ -992,6 +999,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 for (j = 0; j < n; j++)
                     vm_stack_push(at_idx(x[j], i));
 
+                drop_obj(v);
                 v = vary_call(f, x, n);
 
                 // cleanup stack
@@ -1008,7 +1016,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
             if (l == NULL_I64)
                 return err_arity(1, n, 0);
 
-            if (n != 1 && n != AS_LAMBDA(f)->args->len)
+            if (AS_LAMBDA(f)->args->len != (n == 1 ? 2 : n))
                 return err_arity(AS_LAMBDA(f)->args->len, n, 0);
 
             if (n == 1) {
@@ -1019,7 +1027,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 v = at_idx(x[0], 0);
 
                 for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
+                    vm_stack_push(v);
                     x2 = at_idx(x[0], i);
                     vm_stack_push(x2);
 
@@ -1041,7 +1049,7 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 v = at_idx(x[0], 0);
 
                 for (i = 1; i < l; i++) {
-                    vm_stack_push(clone_obj(v));
+                    vm_stack_push(v);
                     x2 = at_idx(x[1], i);
                     vm_stack_push(x2);
 
@@ -1082,32 +1090,17 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
                 return err_arity(1, n, 0);
             return unary_call(f, x[0]);
         case TYPE_BINARY:
-            if (n < 2)
-                return err_arity(1, n, 0);
+            if (n != 2)
+                return err_arity(2, n, 0);
 
             l = ops_count(x[0]);
-            if (l == 0)
-                return clone_obj(x[1]);
-
             v = clone_obj(x[1]);  // Use rightmost argument as initial value
             for (i = 0; i < l; i++) {
-                // Push current element from the leftmost argument first
                 x1 = at_idx(x[0], i);
-                vm_stack_push(x1);
-                // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
-                // Push all other arguments in between
-                for (j = 1; j < n - 1; j++) {
-                    vm_stack_push(clone_obj(x[j]));
-                }
-
-                v = call(f, n);
-
-                // Cleanup stack
-                for (j = 0; j < n; j++) {
-                    drop_obj(vm_stack_pop());
-                }
+                x2 = v;
+                v = binary_call(f, x1, x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1130,8 +1123,7 @@ obj_p ray_fold_left(obj_p *x, i64_t n) {
                 x1 = at_idx(x[0], i);
                 vm_stack_push(x1);
                 // Push result of previous iteration as second argument
-                x2 = clone_obj(v);
-                vm_stack_push(x2);
+                vm_stack_push(v);
                 // Push all other arguments in between
                 for (j = 1; j < n - 1; j++) {
                     vm_stack_push(clone_obj(x[j]));
@@ -1437,7 +1429,7 @@ obj_p ray_scan(obj_p *x, i64_t n) {
             if (l == NULL_I64)
                 return err_arity(1, n, 0);
 
-            if (n != 1 && n != AS_LAMBDA(f)->args->len)
+            if (AS_LAMBDA(f)->args->len != (n == 1 ? 2 : n))
                 return err_arity(AS_LAMBDA(f)->args->len, n, 0);
 
             if (n == 1) {
@@ -1681,7 +1673,7 @@ obj_p ray_scan_right(obj_p *x, i64_t n) {
                 x2 = clone_obj(v);
                 vm_stack_push(x2);
                 // Push all other arguments in between
-                for (j = 0; j < n - 1; j++) {
+                for (j = 1; j < n - 1; j++) {
                     vm_stack_push(clone_obj(x[j]));
                 }
 
-- 
2.43.0


From 4990483f63d43570d0f10282e3f3fd9a3f432453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 014/102] fix: within an atom returns its verdict

---
 core/items.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/items.c b/core/items.c
index b25ca46..0383d48 100644
--- a/core/items.c
+++ b/core/items.c
@@ -858,7 +858,7 @@ obj_p ray_within(obj_p x, obj_p y) {
                 min = AS_I64(y)[0];
                 max = AS_I64(y)[1];
 
-                return B8(x->i64 >= min && x->i64 <= max);
+                return b8(x->i64 >= min && x->i64 <= max);
 
             case MTYPE2(TYPE_I64, TYPE_I64):
                 l = x->len;
-- 
2.43.0


From ce632973bf7f0a638af3ee926e130d7ba7fab664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 015/102] fix: unify does not release its caller's list

---
 core/compose.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/compose.c b/core/compose.c
index 0c6f832..039ff82 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -1090,6 +1090,8 @@ obj_p ray_unify(obj_p x) {
     obj_p res;
 
     res = cow_obj(x);
+    if (res == x)
+        clone_obj(x);  // the argument belongs to the caller
     return unify_list(&res);
 }
 
-- 
2.43.0


From 721abb7907b1e8f0d51cc9c6a6f66fb1333a5c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 016/102] fix: med and dev release their intermediate results

---
 core/math.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/math.c b/core/math.c
index 09cbee2..2e2c210 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2527,7 +2527,9 @@ obj_p ray_avg(obj_p x) {
 
 // TODO: Refactoring with out sort and with parallel execution
 obj_p ray_med(obj_p x) {
-    i64_t l = ray_cnt(x)->i64;
+    obj_p cnt_obj = ray_cnt(x);
+    i64_t l = cnt_obj->i64;
+    drop_obj(cnt_obj);
     if (l == 0)
         return f64(NULL_F64);
 
@@ -2696,5 +2698,14 @@ obj_p ray_dev(obj_p x) {
             return err_type(TYPE_LIST, x->type, 0, 0);
     }
 
-    return f64(sqrt(ray_sq_sub(x, f64(favg))->f64 / (f64_t)l));
+    obj_p avg_obj = f64(favg);
+    obj_p sq_obj = ray_sq_sub(x, avg_obj);
+    drop_obj(avg_obj);
+    if (IS_ERR(sq_obj))
+        return sq_obj;
+
+    f64_t dev = sqrt(sq_obj->f64 / (f64_t)l);
+    drop_obj(sq_obj);
+
+    return f64(dev);
 }
-- 
2.43.0


From 4f0ff2af88b268ea7b2e8f6425f2149c0a83ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 017/102] fix: typed nulls for 16 and 32 bit integers, dates,
 times and guids

---
 core/rayforce.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index f4dd6f3..c9d1750 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -86,6 +86,16 @@ obj_p null(i8_t type) {
     switch (type) {
         case TYPE_B8:
             return b8(B8_FALSE);
+        case TYPE_U8:
+            return u8(0);
+        case TYPE_I16:
+            return i16(NULL_I16);
+        case TYPE_I32:
+            return i32(NULL_I32);
+        case TYPE_DATE:
+            return adate(NULL_I32);
+        case TYPE_TIME:
+            return atime(NULL_I32);
         case TYPE_I64:
             return i64(NULL_I64);
         case TYPE_F64:
@@ -96,6 +106,8 @@ obj_p null(i8_t type) {
             return symboli64(NULL_I64);
         case TYPE_TIMESTAMP:
             return timestamp(NULL_I64);
+        case TYPE_GUID:
+            return guid(NULL);
         default:
             return NULL_OBJ;
     }
@@ -121,6 +133,16 @@ obj_p nullv(i8_t type, i64_t len) {
         case TYPE_C8:
             memset(vec->raw, 0, len);
             break;
+        case TYPE_I16:
+            for (i = 0; i < len; i++)
+                AS_I16(vec)[i] = NULL_I16;
+            break;
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+            for (i = 0; i < len; i++)
+                AS_I32(vec)[i] = NULL_I32;
+            break;
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
-- 
2.43.0


From 5c113e01d4d0e4a4e63231c7cc6dd57e629050b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 018/102] fix: alter and upsert keep the ownership of the value
 they update

---
 core/update.c | 127 +++++++++++++++++++++++++++-----------------------
 1 file changed, 69 insertions(+), 58 deletions(-)

diff --git a/core/update.c b/core/update.c
index 4faccdd..69fe61c 100644
--- a/core/update.c
+++ b/core/update.c
@@ -209,29 +209,34 @@ obj_p *at_obj_ref(obj_p obj, obj_p idx) {
 
     switch (MTYPE2(obj->type, idx->type)) {
         case MTYPE2(TYPE_LIST, -TYPE_I64):
-            return &AS_LIST(obj)[idx->i64];
+            if (idx->i64 < 0 || idx->i64 >= obj->len)
+                return NULL;
+
+            p = &AS_LIST(obj)[idx->i64];
+            break;
         default:
-            if (obj->type == TYPE_DICT) {
-                j = find_obj_idx(AS_LIST(obj)[0], idx);
-                if (j == NULL_I64)
-                    return NULL;
-                else {
-                    if (AS_LIST(obj)[1]->type != TYPE_LIST)
-                        diverse_obj(AS_LIST(obj) + 1);
-
-                    p = AS_LIST(AS_LIST(obj)[1]) + j;
-                    v = cow_obj(*p);
-                    if (v != *p) {
-                        drop_obj(*p);
-                        *p = v;
-                    }
+            if (obj->type != TYPE_DICT)
+                return NULL;
 
-                    return p;
-                }
-            }
+            j = find_obj_idx(AS_LIST(obj)[0], idx);
+            if (j == NULL_I64)
+                return NULL;
+
+            if (AS_LIST(obj)[1]->type != TYPE_LIST)
+                diverse_obj(AS_LIST(obj) + 1);
+
+            p = AS_LIST(AS_LIST(obj)[1]) + j;
+            break;
+    }
 
-            return NULL;
+    // the element may be shared with another object
+    v = cow_obj(*p);
+    if (v != *p) {
+        drop_obj(*p);
+        *p = v;
     }
+
+    return p;
 }
 
 obj_p dot_obj(obj_p obj, obj_p idx) {
@@ -310,7 +315,7 @@ obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
 }
 
 obj_p ray_alter(obj_p *x, i64_t n) {
-    obj_p obj, res, *cur = NULL;
+    obj_p obj, orig, hold = NULL_OBJ, res, val, *cur = NULL;
 
     if (n < 3)
         return err_arity(3, n, 0);
@@ -322,37 +327,45 @@ obj_p ray_alter(obj_p *x, i64_t n) {
         cur = resolve(x[0]->i64);
         if (cur == NULL)
             return err_value(0);
-        obj = cow_obj(*cur);
-    } else {
-        obj = cow_obj(x[0]);
-    }
-
+        orig = *cur;
+        // A lambda may rebind the variable: work on a copy then
+        if (x[1]->type == TYPE_LAMBDA)
+            hold = clone_obj(orig);
+    } else
+        orig = x[0];
+
+    obj = cow_obj(orig);
     res = obj;
-    res = (n == 4) ? __alter(&res, x[1], x[2], x[3]) : __alter(&res, x[1], NULL_OBJ, x[2]);
-
-    if (IS_ERR(res)) {
-        if (x[0]->type != -TYPE_SYMBOL)
-            drop_obj(obj);
+    val = (n == 4) ? __alter(&res, x[1], x[2], x[3]) : __alter(&res, x[1], NULL_OBJ, x[2]);
+    drop_obj(hold);
 
-        return res;
+    if (IS_ERR(val)) {
+        if (obj != orig)
+            drop_obj(res);
+        return val;
     }
 
-    if (x[0]->type != -TYPE_SYMBOL)
+    if (cur == NULL) {
+        // Modified in place: it may have been reallocated, and it stays with the caller
+        if (obj == orig) {
+            x[0] = res;
+            clone_obj(res);
+        }
+
         return res;
+    }
 
-    // If the object was reallocated (e.g., by push_obj), update the reference
-    // Note: we don't drop *cur if obj == *cur originally, since they're the same object
-    // and res is already pointing to the (possibly reallocated) version
-    if (obj != *cur) {
-        // obj was a copy, so drop the original
+    if (obj != orig) {
+        cur = resolve(x[0]->i64);
+        if (cur == NULL) {
+            drop_obj(res);
+            return err_value(0);
+        }
         drop_obj(*cur);
-        *cur = res;
-    } else if (res != obj) {
-        // obj was not a copy (cow returned same object), but it got reallocated
-        // So just update the pointer without dropping
-        *cur = res;
     }
 
+    *cur = res;
+
     return clone_obj(x[0]);
 }
 
@@ -545,12 +558,12 @@ obj_p ray_insert(obj_p *x, i64_t n) {
 /*
  * update/inserts for tables
  */
-#define UPSERT_ERROR(r)    \
-    {                      \
-        if (lst_allocated) \
-            drop_obj(lst); \
-        drop_obj(obj);     \
-        return r;          \
+#define UPSERT_ERROR(r)                       \
+    {                                         \
+        res = r;                              \
+        if (lst_allocated)                    \
+            drop_obj(lst);                    \
+        UNCOW_OBJ(obj, val, original, res);   \
     }
 
 obj_p ray_upsert(obj_p *x, i64_t n) {
@@ -574,8 +587,8 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
         return obj;
 
     if (obj->type != TYPE_TABLE) {
-        drop_obj(obj);
-        return err_type(0, 0, 0, 0);
+        res = err_type(0, 0, 0, 0);
+        UNCOW_OBJ(obj, val, original, res);
     }
 
     p = AS_LIST(obj)[0]->len;
@@ -586,23 +599,21 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
     // Handle dict/table input: reorder columns to match table order
     if (lst->type == TYPE_DICT || lst->type == TYPE_TABLE) {
         if (lst->type == TYPE_DICT && AS_LIST(lst)[0]->type != TYPE_SYMBOL) {
-            drop_obj(obj);
-            return err_type(0, 0, 0, 0);
+            res = err_type(0, 0, 0, 0);
+            UNCOW_OBJ(obj, val, original, res);
         }
 
         // Check that input doesn't have more columns than table
         l = AS_LIST(lst)[0]->len;
         if (l > p) {
-            drop_obj(obj);
-            return err_length(0, 0, 0, 0, 0, 0);
+            res = err_length(0, 0, 0, 0, 0, 0);
+            UNCOW_OBJ(obj, val, original, res);
         }
 
         // Reorder columns to match table order (allows flexible column ordering)
         res = __reorder_columns(AS_LIST(obj)[0], AS_LIST(obj)[1], AS_LIST(lst)[0], AS_LIST(lst)[1]);
-        if (IS_ERR(res)) {
-            drop_obj(obj);
-            return res;
-        }
+        if (IS_ERR(res))
+            UNCOW_OBJ(obj, val, original, res);
 
         lst = res;
         lst_allocated = B8_TRUE;
-- 
2.43.0


From 350294c8ec2320f61497f50c9c6219a8a644a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 019/102] fix: an element of a byte vector is a byte

---
 core/rayforce.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index c9d1750..c7da739 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -787,12 +787,17 @@ obj_p at_idx(obj_p obj, i64_t idx) {
 
     switch (obj->type) {
         case TYPE_B8:
-        case TYPE_U8:
             if (idx < 0)
                 idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return b8(AS_B8(obj)[idx]);
             return b8(B8_FALSE);
+        case TYPE_U8:
+            if (idx < 0)
+                idx = obj->len + idx;
+            if (idx >= 0 && idx < (i64_t)obj->len)
+                return u8(AS_U8(obj)[idx]);
+            return u8(0);
         case TYPE_I16:
             if (idx < 0)
                 idx = obj->len + idx;
-- 
2.43.0


From 6594fcb991e10e290b3292249fa90a6d6248b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 020/102] fix: unmatched rows of a left join get the null of
 the column's type

---
 core/join.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/join.c b/core/join.c
index 81ed2e2..6ea502b 100644
--- a/core/join.c
+++ b/core/join.c
@@ -57,7 +57,7 @@ obj_p select_column(obj_p left_col, obj_p right_col, i64_t ids[], i64_t len) {
         if (idx != NULL_I64)
             v = at_idx(right_col, idx);
         else
-            v = at_idx(left_col, i);
+            v = is_null(left_col) ? null(type) : at_idx(left_col, i);
 
         ins_obj(&res, i, v);
     }
-- 
2.43.0


From b754dadde94b48573a98e47040bf11933bcf9cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 021/102] fix: a negative index into a guid vector counts from
 its end

---
 core/rayforce.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index c7da739..07e53a1 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -861,7 +861,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             return NULL_OBJ;
         case TYPE_GUID:
             if (idx < 0)
-                idx = obj->len + idx + 1;
+                idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)obj->len)
                 return guid(AS_GUID(obj)[idx]);
             return NULL_OBJ;
-- 
2.43.0


From a1c2499080f67527f9086c9c6c71ffdf403819b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 022/102] fix: round, floor and ceil of integer vectors return
 the vector

---
 core/math.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/math.c b/core/math.c
index 2e2c210..48181ba 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2241,6 +2241,16 @@ obj_p unop_map(raw_p op, obj_p x) {
         return unop(x);
     }
 
+    // Whole values are their own result
+    switch (x->type) {
+        case TYPE_I32:
+        case TYPE_I64:
+        case TYPE_DATE:
+        case TYPE_TIME:
+        case TYPE_TIMESTAMP:
+            return clone_obj(x);
+    }
+
     l = ops_count(x);
 
     pool = runtime_get()->pool;
-- 
2.43.0


From 011acd8f15b30016c1e71bb0ed1aad711883a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 023/102] fix: neg keeps nulls of 16 and 32 bit integer vectors

---
 core/order.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/order.c b/core/order.c
index ba35120..e9c3387 100644
--- a/core/order.c
+++ b/core/order.c
@@ -469,13 +469,13 @@ obj_p ray_neg(obj_p x) {
             l = x->len;
             res = I64(l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = -(i64_t)AS_I16(x)[i];
+                AS_I64(res)[i] = -i16_to_i64(AS_I16(x)[i]);
             return res;
         case TYPE_I32:
             l = x->len;
             res = I64(l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = -(i64_t)AS_I32(x)[i];
+                AS_I64(res)[i] = -i32_to_i64(AS_I32(x)[i]);
             return res;
         case TYPE_I64:
             l = x->len;
-- 
2.43.0


From 956d7906896a144ef0686e870d5d0a8c59ebc903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 024/102] fix: casts between numeric and temporal types keep
 nulls, booleans stay 0 or 1

---
 core/rayforce.c | 74 ++++++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 07e53a1..e45f14e 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2409,12 +2409,12 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I16, -TYPE_I32):
         case MTYPE2(-TYPE_I16, -TYPE_DATE):
         case MTYPE2(-TYPE_I16, -TYPE_TIME):
-            return i16(obj->i32);
+            return i16(i32_to_i16(obj->i32));
         case MTYPE2(-TYPE_I16, -TYPE_I64):
         case MTYPE2(-TYPE_I16, -TYPE_TIMESTAMP):
-            return i16(obj->i64);
+            return i16(i64_to_i16(obj->i64));
         case MTYPE2(-TYPE_I16, -TYPE_F64):
-            return i16((i16_t)obj->f64);
+            return i16(i32_to_i16(f64_to_i32(obj->f64)));
 
         // I32 atom conversions
         case MTYPE2(-TYPE_I32, -TYPE_B8):
@@ -2422,15 +2422,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I32, -TYPE_U8):
             return i32(obj->u8);
         case MTYPE2(-TYPE_I32, -TYPE_I16):
-            return i32(obj->i16);
+            return i32(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_I32, -TYPE_I64):
         case MTYPE2(-TYPE_I32, -TYPE_TIMESTAMP):
-            return i32(obj->i64);
+            return i32(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_I32, -TYPE_TIME):
         case MTYPE2(-TYPE_I32, -TYPE_DATE):
             return i32(obj->i32);
         case MTYPE2(-TYPE_I32, -TYPE_F64):
-            return i32((i32_t)obj->f64);
+            return i32(f64_to_i32(obj->f64));
 
         // I64 atom conversions
         case MTYPE2(-TYPE_I64, -TYPE_B8):
@@ -2438,15 +2438,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_I64, -TYPE_U8):
             return i64(obj->u8);
         case MTYPE2(-TYPE_I64, -TYPE_I16):
-            return i64(obj->i16);
+            return i64(i16_to_i64(obj->i16));
         case MTYPE2(-TYPE_I64, -TYPE_I32):
         case MTYPE2(-TYPE_I64, -TYPE_TIME):
         case MTYPE2(-TYPE_I64, -TYPE_DATE):
-            return i64(obj->i32);
+            return i64(i32_to_i64(obj->i32));
         case MTYPE2(-TYPE_I64, -TYPE_TIMESTAMP):
             return i64(obj->i64);
         case MTYPE2(-TYPE_I64, -TYPE_F64):
-            return i64((i64_t)obj->f64);
+            return i64(f64_to_i64(obj->f64));
 
         // F64 atom conversions
         case MTYPE2(-TYPE_F64, -TYPE_B8):
@@ -2454,14 +2454,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_F64, -TYPE_U8):
             return f64((f64_t)obj->u8);
         case MTYPE2(-TYPE_F64, -TYPE_I16):
-            return f64((f64_t)obj->i16);
+            return f64(i16_to_f64(obj->i16));
         case MTYPE2(-TYPE_F64, -TYPE_I32):
         case MTYPE2(-TYPE_F64, -TYPE_DATE):
         case MTYPE2(-TYPE_F64, -TYPE_TIME):
-            return f64((f64_t)obj->i32);
+            return f64(i32_to_f64(obj->i32));
         case MTYPE2(-TYPE_F64, -TYPE_I64):
         case MTYPE2(-TYPE_F64, -TYPE_TIMESTAMP):
-            return f64((f64_t)obj->i64);
+            return f64(i64_to_f64(obj->i64));
 
         // DATE atom conversions
         case MTYPE2(-TYPE_DATE, -TYPE_B8):
@@ -2469,15 +2469,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_DATE, -TYPE_U8):
             return adate(obj->u8);
         case MTYPE2(-TYPE_DATE, -TYPE_I16):
-            return adate(obj->i16);
+            return adate(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_DATE, -TYPE_I32):
         case MTYPE2(-TYPE_DATE, -TYPE_TIME):
             return adate(obj->i32);
         case MTYPE2(-TYPE_DATE, -TYPE_I64):
         case MTYPE2(-TYPE_DATE, -TYPE_TIMESTAMP):
-            return adate((i32_t)obj->i64);
+            return adate(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_DATE, -TYPE_F64):
-            return adate((i32_t)obj->f64);
+            return adate(f64_to_i32(obj->f64));
 
         // TIME atom conversions
         case MTYPE2(-TYPE_TIME, -TYPE_B8):
@@ -2485,15 +2485,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIME, -TYPE_U8):
             return atime(obj->u8);
         case MTYPE2(-TYPE_TIME, -TYPE_I16):
-            return atime(obj->i16);
+            return atime(i16_to_i32(obj->i16));
         case MTYPE2(-TYPE_TIME, -TYPE_I32):
         case MTYPE2(-TYPE_TIME, -TYPE_DATE):
             return atime(obj->i32);
         case MTYPE2(-TYPE_TIME, -TYPE_I64):
         case MTYPE2(-TYPE_TIME, -TYPE_TIMESTAMP):
-            return atime((i32_t)obj->i64);
+            return atime(i64_to_i32(obj->i64));
         case MTYPE2(-TYPE_TIME, -TYPE_F64):
-            return atime((i32_t)obj->f64);
+            return atime(f64_to_i32(obj->f64));
 
         // TIMESTAMP atom conversions
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_B8):
@@ -2501,15 +2501,15 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_U8):
             return timestamp((i64_t)obj->u8);
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I16):
-            return timestamp((i64_t)obj->i16);
+            return timestamp(i16_to_i64(obj->i16));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I32):
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_DATE):
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_TIME):
-            return timestamp((i64_t)obj->i32);
+            return timestamp(i32_to_i64(obj->i32));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I64):
             return timestamp(obj->i64);
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_F64):
-            return timestamp((i64_t)obj->f64);
+            return timestamp(f64_to_i64(obj->f64));
 
         // SYMBOL atom conversions
         case MTYPE2(-TYPE_SYMBOL, -TYPE_B8):
@@ -2588,7 +2588,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I16(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? AS_I16(obj)[i] != 0 : (u8_t)AS_I16(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_I32):
         case MTYPE2(TYPE_B8, TYPE_DATE):
@@ -2600,7 +2600,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I32(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? AS_I32(obj)[i] != 0 : (u8_t)AS_I32(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_I64):
         case MTYPE2(TYPE_B8, TYPE_TIMESTAMP):
@@ -2610,7 +2610,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_I64(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? AS_I64(obj)[i] != 0 : (u8_t)AS_I64(obj)[i];
             return res;
         case MTYPE2(TYPE_B8, TYPE_F64):
         case MTYPE2(TYPE_U8, TYPE_F64):
@@ -2618,7 +2618,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             res = U8(l);
             res->type = type;
             for (i = 0; i < l; i++)
-                AS_U8(res)[i] = (u8_t)AS_F64(obj)[i];
+                AS_U8(res)[i] = (type == TYPE_B8) ? AS_F64(obj)[i] != 0 : (u8_t)AS_F64(obj)[i];
             return res;
 
         // I16 vector conversions
@@ -2635,20 +2635,20 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_I32(obj)[i];
+                AS_I16(res)[i] = i32_to_i16(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_I16, TYPE_I64):
         case MTYPE2(TYPE_I16, TYPE_TIMESTAMP):
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_I64(obj)[i];
+                AS_I16(res)[i] = i64_to_i16(AS_I64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I16, TYPE_F64):
             l = obj->len;
             res = I16(l);
             for (i = 0; i < l; i++)
-                AS_I16(res)[i] = (i16_t)AS_F64(obj)[i];
+                AS_I16(res)[i] = i32_to_i16(f64_to_i32(AS_F64(obj)[i]));
             return res;
 
         // I32/DATE/TIME vector conversions (all use i32 storage)
@@ -2669,7 +2669,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_I16(obj)[i];
+                AS_I32(res)[i] = i16_to_i32(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_I32, TYPE_I64):
         case MTYPE2(TYPE_I32, TYPE_TIMESTAMP):
@@ -2680,7 +2680,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_I64(obj)[i];
+                AS_I32(res)[i] = i64_to_i32(AS_I64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I32, TYPE_DATE):
         case MTYPE2(TYPE_I32, TYPE_TIME):
@@ -2699,7 +2699,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I32(res)[i] = (i32_t)AS_F64(obj)[i];
+                AS_I32(res)[i] = f64_to_i32(AS_F64(obj)[i]);
             return res;
 
         // I64/TIMESTAMP vector conversions (all use i64 storage)
@@ -2717,7 +2717,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_I16(obj)[i];
+                AS_I64(res)[i] = i16_to_i64(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_I32):
         case MTYPE2(TYPE_I64, TYPE_DATE):
@@ -2728,14 +2728,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_I32(obj)[i];
+                AS_I64(res)[i] = i32_to_i64(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_F64):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_F64):
             l = obj->len;
             res = vector(type, l);
             for (i = 0; i < l; i++)
-                AS_I64(res)[i] = (i64_t)AS_F64(obj)[i];
+                AS_I64(res)[i] = f64_to_i64(AS_F64(obj)[i]);
             return res;
         case MTYPE2(TYPE_I64, TYPE_TIMESTAMP):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
@@ -2757,7 +2757,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I16(obj)[i];
+                AS_F64(res)[i] = i16_to_f64(AS_I16(obj)[i]);
             return res;
         case MTYPE2(TYPE_F64, TYPE_I32):
         case MTYPE2(TYPE_F64, TYPE_DATE):
@@ -2765,14 +2765,14 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I32(obj)[i];
+                AS_F64(res)[i] = i32_to_f64(AS_I32(obj)[i]);
             return res;
         case MTYPE2(TYPE_F64, TYPE_I64):
         case MTYPE2(TYPE_F64, TYPE_TIMESTAMP):
             l = obj->len;
             res = F64(l);
             for (i = 0; i < l; i++)
-                AS_F64(res)[i] = (f64_t)AS_I64(obj)[i];
+                AS_F64(res)[i] = i64_to_f64(AS_I64(obj)[i]);
             return res;
 
         // SYMBOL vector conversion from I64
-- 
2.43.0


From db79ec6e291463c82f2427d076c259b782b371c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 025/102] fix: avg and dev of i32 vectors whose sum exceeds i32

---
 core/math.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/core/math.c b/core/math.c
index 48181ba..97fa9dd 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2479,9 +2479,12 @@ obj_p ray_avg(obj_p x) {
             drop_obj(r);
             return res;
         case TYPE_I32:
-            l = ray_sum(x);
+            // an i32 sum may not fit into i32
+            r = cast_obj(TYPE_I64, x);
+            l = ray_sum(r);
+            drop_obj(r);
             r = ray_cnt(x);
-            res = f64(FDIVI64(i32_to_i64(l->i32), r->i64));
+            res = f64(FDIVI64(l->i64, r->i64));
             drop_obj(l);
             drop_obj(r);
             return res;
@@ -2538,7 +2541,7 @@ obj_p ray_avg(obj_p x) {
 // TODO: Refactoring with out sort and with parallel execution
 obj_p ray_med(obj_p x) {
     obj_p cnt_obj = ray_cnt(x);
-    i64_t l = cnt_obj->i64;
+    i64_t l = IS_ERR(cnt_obj) ? NULL_I64 : cnt_obj->i64;  // not countable: parted, mapped or a type error below
     drop_obj(cnt_obj);
     if (l == 0)
         return f64(NULL_F64);
@@ -2572,7 +2575,7 @@ obj_p ray_med(obj_p x) {
 
         case TYPE_I16:
             sort = ray_asc(x);
-            xi16sort = AS_I16(sort);
+            xi16sort = AS_I16(sort) + (x->len - l);  // nulls sort first
             med = (f64_t)((l % 2 == 0) ? (xi16sort[l / 2 - 1] + xi16sort[l / 2]) / 2.0 : xi16sort[l / 2]);
             drop_obj(sort);
             return f64(med);
@@ -2588,7 +2591,7 @@ obj_p ray_med(obj_p x) {
 
         case TYPE_I64:
             sort = ray_asc(x);
-            xisort = AS_I64(sort);
+            xisort = AS_I64(sort) + (x->len - l);  // nulls sort first
             med = (f64_t)((l % 2 == 0) ? (xisort[l / 2 - 1] + xisort[l / 2]) / 2.0 : xisort[l / 2]);
             drop_obj(sort);
 
@@ -2639,7 +2642,7 @@ obj_p ray_med(obj_p x) {
 
 obj_p ray_dev(obj_p x) {
     obj_p cnt_obj = ray_cnt(x);
-    i64_t l = cnt_obj->i64;
+    i64_t l = IS_ERR(cnt_obj) ? NULL_I64 : cnt_obj->i64;  // not countable: parted, mapped or a type error below
     drop_obj(cnt_obj);
 
     if (l == 0)
@@ -2653,24 +2656,39 @@ obj_p ray_dev(obj_p x) {
         case TYPE_U8:
         case TYPE_I16:
             sum_obj = ray_sum(x);
+            if (IS_ERR(sum_obj))
+                return sum_obj;
             favg = ((f64_t)sum_obj->i64) / (f64_t)l;
             drop_obj(sum_obj);
             break;
         case TYPE_I32:
+            // an i32 sum may not fit into i32
+            cnt_obj = cast_obj(TYPE_I64, x);
+            sum_obj = ray_sum(cnt_obj);
+            drop_obj(cnt_obj);
+            favg = ((f64_t)sum_obj->i64) / (f64_t)l;
+            drop_obj(sum_obj);
+            break;
         case TYPE_DATE:
         case TYPE_TIME:
             sum_obj = ray_sum(x);
+            if (IS_ERR(sum_obj))
+                return sum_obj;
             favg = ((f64_t)sum_obj->i32) / (f64_t)l;
             drop_obj(sum_obj);
             break;
         case TYPE_I64:
         case TYPE_TIMESTAMP:
             sum_obj = ray_sum(x);
+            if (IS_ERR(sum_obj))
+                return sum_obj;
             favg = ((f64_t)sum_obj->i64) / (f64_t)l;
             drop_obj(sum_obj);
             break;
         case TYPE_F64:
             sum_obj = ray_sum(x);
+            if (IS_ERR(sum_obj))
+                return sum_obj;
             favg = (sum_obj->f64) / (f64_t)l;
             drop_obj(sum_obj);
             break;
-- 
2.43.0


From 2d2ba364beb1419c3292621bce0ec3b1e6ee143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 026/102] fix: group of something that is not a vector or list
 is a type error

---
 core/compose.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/compose.c b/core/compose.c
index 039ff82..c2a6cf6 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -1072,6 +1072,8 @@ obj_p ray_group(obj_p x) {
     obj_p k, v, index;
 
     index = index_group(x, NULL_OBJ);
+    if (IS_ERR(index))
+        return index;
     v = aggr_row(x, index);
     k = aggr_first(x, index);
     drop_obj(index);
-- 
2.43.0


From 371724e78a6d55ed249a36b9a9b48b5b8a5b106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 027/102] fix: adding, subtracting and multiplying an i64
 vector and an i32 atom reads the atom as i32

---
 core/math.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/math.c b/core/math.c
index 97fa9dd..d6363e9 100644
--- a/core/math.c
+++ b/core/math.c
@@ -387,6 +387,7 @@ obj_p ray_add_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i64, timestamp, timestamp, ADDI64, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, ADDI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -702,6 +703,7 @@ obj_p ray_sub_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, i32, time, time, SUBI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, SUBI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
@@ -973,6 +975,7 @@ obj_p ray_mul_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_V_V(x, y, i32, time, time, time, MULI32, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
+            return __BINOP_V_A(x, y, i64, i32, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
             return __BINOP_V_A(x, y, i64, i64, i64, i64, MULI64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
-- 
2.43.0


From 75cf2b566d61e6703de7ca55513eecd51333ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 028/102] fix: an elementwise operation over an empty vector
 gives an empty result

---
 core/iter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index 83c50d9..c3b47cc 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -196,7 +196,7 @@ obj_p map_binary_left_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
             l = ops_count(x);
 
             if (l == 0)
-                return null(x->type);
+                return fn(x, y);
 
             a = at_idx(x, 0);
             item = map_binary_left_fn(fn, attrs, a, y);
@@ -251,7 +251,7 @@ obj_p map_binary_right_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
             l = ops_count(y);
 
             if (l == 0)
-                return null(y->type);
+                return fn(x, y);
 
             a = at_idx(y, 0);
             item = map_binary_right_fn(fn, attrs, x, a);
-- 
2.43.0


From 89e65243dc7d4f47373ed99fa39769d53959836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 029/102] fix: at checks every index of an index vector

---
 core/items.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/items.c b/core/items.c
index 0383d48..38fdf0b 100644
--- a/core/items.c
+++ b/core/items.c
@@ -95,10 +95,10 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = B8(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_B8(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)xl)
                     AS_B8(res)[i] = B8_FALSE;
                 else
-                    AS_B8(res)[i] = AS_B8(x)[(i32_t)AS_B8(y)[i]];
+                    AS_B8(res)[i] = AS_B8(x)[AS_I64(y)[i]];
             }
 
             return res;
@@ -243,10 +243,18 @@ obj_p ray_at(obj_p x, obj_p y) {
             res = SYMBOL(yl);
 
             for (i = 0; i < yl; i++) {
-                if (AS_I64(v)[i] >= (i64_t)xl) {
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= n) {
                     drop_obj(s);
                     drop_obj(res);
-                    return err_index(AS_I64(v)[i], xl, 0, 0);
+                    return err_index(AS_I64(y)[i], n, 0, 0);
+                }
+
+                if (AS_I64(v)[AS_I64(y)[i]] >= (i64_t)xl) {
+                    xl = AS_I64(v)[AS_I64(y)[i]];
+                    n = s->len;
+                    drop_obj(s);
+                    drop_obj(res);
+                    return err_index(xl, n, 0, 0);
                 }
 
                 AS_SYMBOL(res)[i] = AS_SYMBOL(s)[AS_I64(v)[AS_I64(y)[i]]];
-- 
2.43.0


From 0bc680698aa196afa7c0777c00c4ced4eb0df539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 030/102] fix: sorting a dict keyed by or valued with
 characters

---
 core/rayforce.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index e45f14e..2690556 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1381,6 +1381,7 @@ obj_p at_obj(obj_p obj, obj_p idx) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
         case MTYPE2(TYPE_F64, TYPE_I64):
         case MTYPE2(TYPE_GUID, TYPE_I64):
+        case MTYPE2(TYPE_C8, TYPE_I64):
         case MTYPE2(TYPE_LIST, TYPE_I64):
         case MTYPE2(TYPE_ENUM, TYPE_I64):
         case MTYPE2(TYPE_TABLE, TYPE_I64):
-- 
2.43.0


From 0caa53408c481240ccf4e0679885a4600f3a5054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 031/102] fix: div of values next to the smallest i64 is not
 null

---
 core/math.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/core/math.c b/core/math.c
index d6363e9..e4acb74 100644
--- a/core/math.c
+++ b/core/math.c
@@ -1374,9 +1374,9 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_I32, -TYPE_F64):
             return f64(FDIVF64(i32_to_f64(x->i32), y->f64));
         case MTYPE2(-TYPE_I32, TYPE_I32):
-            return __BINOP_A_V(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I32, TYPE_I64):
-            return __BINOP_A_V(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I32, TYPE_F64):
             return __BINOP_A_V(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
 
@@ -1387,11 +1387,11 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_I64, -TYPE_F64):
             return f64(FDIVI64(x->i64, y->f64));
         case MTYPE2(-TYPE_I64, TYPE_I32):
-            return __BINOP_A_V(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I64, TYPE_I64):
-            return __BINOP_A_V(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(-TYPE_I64, TYPE_F64):
-            return __BINOP_A_V(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_A_V(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(-TYPE_F64, -TYPE_I32):
             return f64(FDIVF64(x->f64, i32_to_f64(y->i32)));
@@ -1407,30 +1407,30 @@ obj_p ray_fdiv_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
             return __BINOP_A_V(x, y, f64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_I32, -TYPE_I32):
-            return __BINOP_V_A(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, -TYPE_I64):
-            return __BINOP_V_A(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, -TYPE_F64):
             return __BINOP_V_A(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_I32):
-            return __BINOP_V_V(x, y, i32, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i32, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_I64):
-            return __BINOP_V_V(x, y, i32, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i32, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I32, TYPE_F64):
             return __BINOP_V_V(x, y, i32, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_I64, -TYPE_I32):
-            return __BINOP_V_A(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_I64):
-            return __BINOP_V_A(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, -TYPE_F64):
-            return __BINOP_V_A(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_A(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_I32):
-            return __BINOP_V_V(x, y, i64, i32, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, i32, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_I64):
-            return __BINOP_V_V(x, y, i64, i64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, i64, f64, f64, FDIVF64, len, offset, out);
         case MTYPE2(TYPE_I64, TYPE_F64):
-            return __BINOP_V_V(x, y, i64, f64, f64, f64, FDIVI64, len, offset, out);
+            return __BINOP_V_V(x, y, i64, f64, f64, f64, FDIVF64, len, offset, out);
 
         case MTYPE2(TYPE_F64, -TYPE_I32):
             return __BINOP_V_A(x, y, f64, i32, f64, f64, FDIVF64, len, offset, out);
-- 
2.43.0


From dd49abef9ecd0797c29c2492de19e763f946c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 032/102] fix: dividing a time by an i64 uses all of its bits

---
 core/math.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/math.c b/core/math.c
index e4acb74..a5ed3b3 100644
--- a/core/math.c
+++ b/core/math.c
@@ -1221,13 +1221,13 @@ obj_p ray_div_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_TIME, -TYPE_I32):
             return atime(DIVI32(x->i32, y->i32));
         case MTYPE2(-TYPE_TIME, -TYPE_I64):
-            return atime(DIVI32(x->i32, i64_to_i32(y->i64)));
+            return atime(i64_to_i32(DIVI64(time_to_i64(x->i32), y->i64)));
         case MTYPE2(-TYPE_TIME, -TYPE_F64):
             return atime(f64_to_i32(DIVF64(i32_to_f64(x->i32), y->f64)));
         case MTYPE2(-TYPE_TIME, TYPE_I32):
             return __BINOP_A_V(x, y, time, i32, time, time, DIVI32, len, offset, out);
         case MTYPE2(-TYPE_TIME, TYPE_I64):
-            return __BINOP_A_V(x, y, time, i64, time, time, DIVI32, len, offset, out);
+            return __BINOP_A_V(x, y, time, i64, time, i64, DIVI64, len, offset, out);
         case MTYPE2(-TYPE_TIME, TYPE_F64):
             return __BINOP_A_V(x, y, time, f64, time, f64, DIVF64, len, offset, out);
         case MTYPE2(TYPE_TIME, -TYPE_I32):
@@ -1532,11 +1532,11 @@ obj_p ray_mod_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_TIME, -TYPE_I32):
             return atime(MODI32(x->i32, y->i32));
         case MTYPE2(-TYPE_TIME, -TYPE_I64):
-            return atime(MODI32(x->i32, i64_to_i32(y->i64)));
+            return atime(i64_to_i32(MODI64(time_to_i64(x->i32), y->i64)));
         case MTYPE2(-TYPE_TIME, TYPE_I32):
             return __BINOP_A_V(x, y, time, i32, time, time, MODI32, len, offset, out);
         case MTYPE2(-TYPE_TIME, TYPE_I64):
-            return __BINOP_A_V(x, y, time, i64, time, time, MODI32, len, offset, out);
+            return __BINOP_A_V(x, y, time, i64, time, i64, MODI64, len, offset, out);
         case MTYPE2(TYPE_TIME, -TYPE_I32):
             return __BINOP_V_A(x, y, time, i32, time, time, MODI32, len, offset, out);
         case MTYPE2(TYPE_TIME, -TYPE_I64):
-- 
2.43.0


From 0b1ad76610920a92e7aa1edbdafdf5f87154fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 033/102] fix: neg of a byte atom above 127

---
 core/order.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/order.c b/core/order.c
index e9c3387..3953b2c 100644
--- a/core/order.c
+++ b/core/order.c
@@ -449,7 +449,7 @@ obj_p ray_neg(obj_p x) {
     switch (x->type) {
         case -TYPE_B8:
         case -TYPE_U8:
-            return i64(-x->b8);
+            return i64(-(i64_t)x->u8);
         case -TYPE_I16:
             return i16(-x->i16);
         case -TYPE_I32:
-- 
2.43.0


From fbe852430fedada5a66377ace62f458de021dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 034/102] fix: xbar of null widths and of widths that overflow
 the intermediate

---
 core/math.c | 2 +-
 core/ops.h  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/math.c b/core/math.c
index a5ed3b3..f4e419e 100644
--- a/core/math.c
+++ b/core/math.c
@@ -1759,7 +1759,7 @@ obj_p ray_xbar_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p out) {
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_I64):
             return timestamp(XBARI64(x->i64, y->i64));
         case MTYPE2(-TYPE_TIMESTAMP, -TYPE_TIME):
-            return timestamp(XBARI32(x->i64, timestamp_to_i64(time_to_timestamp(y->i32))));
+            return timestamp(XBARI64(x->i64, timestamp_to_i64(time_to_timestamp(y->i32))));
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_I32):
             return __BINOP_A_V(x, y, i64, i32, timestamp, timestamp, XBARI64, len, offset, out);
         case MTYPE2(-TYPE_TIMESTAMP, TYPE_I64):
diff --git a/core/ops.h b/core/ops.h
index 73a3259..c224f24 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -191,9 +191,9 @@ extern struct obj_t __ERR_OBJ;
 #define FLOORF64(x) ((ISNANF64((x))) ? NULL_F64 : (((x) < 0.0 && (i64_t)(x) != (x)) ? (i64_t)(x) - 1.0 : (i64_t)(x)))
 #define CEILF64(x) ((ISNANF64((x))) ? NULL_F64 : (-FLOORF64(-(x))))
 #define XBARI32(x, y) \
-    (((y) == 0 || (x) == NULL_I32 || (y) == NULL_I32) ? NULL_I32 : (((x < 0) ? (x + 1 - y) : (x)) / (y) * (y)))
+    (((y) == 0 || (x) == NULL_I32 || (y) == NULL_I32) ? NULL_I32 : (EUCL_DIV((x), (y)) * (y)))
 #define XBARI64(x, y) \
-    (((y) == 0 || (x) == NULL_I64 || (y) == NULL_I64) ? NULL_I64 : (((x < 0) ? (x + 1 - y) : (x)) / (y) * (y)))
+    (((y) == 0 || (x) == NULL_I64 || (y) == NULL_I64) ? NULL_I64 : (EUCL_DIV((x), (y)) * (y)))
 #define XBARF64(x, y) (FLOORF64((x) / (y)) * (y))
 
 // Function types
-- 
2.43.0


From f0bd08abd874498b25fc360106c7340ea7828989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 035/102] fix: compare a date with a timestamp exactly

---
 core/cmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 029e0e2..77d3de9 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -241,7 +241,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 return __CMP_V_V(x, y, f64, f64, f64, op##F64, len, offset, res);              \
                                                                                                \
             case MTYPE2(-TYPE_DATE, -TYPE_TIMESTAMP):                                          \
-                return b8(op##F64(date_to_timestamp(x->i32), y->i64));                         \
+                return b8(op##I64(date_to_timestamp(x->i32), y->i64));                         \
             case MTYPE2(-TYPE_DATE, TYPE_TIMESTAMP):                                           \
                 return __CMP_A_V(x, y, date, timestamp, timestamp, op##I64, len, offset, res); \
             case MTYPE2(TYPE_DATE, -TYPE_TIMESTAMP):                                           \
@@ -249,7 +249,7 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
             case MTYPE2(TYPE_DATE, TYPE_TIMESTAMP):                                            \
                 return __CMP_V_V(x, y, date, timestamp, timestamp, op##I64, len, offset, res); \
             case MTYPE2(-TYPE_TIMESTAMP, -TYPE_DATE):                                          \
-                return b8(op##F64(x->i64, date_to_timestamp(y->i32)));                         \
+                return b8(op##I64(x->i64, date_to_timestamp(y->i32)));                         \
             case MTYPE2(-TYPE_TIMESTAMP, TYPE_DATE):                                           \
                 return __CMP_A_V(x, y, timestamp, date, timestamp, op##I64, len, offset, res); \
             case MTYPE2(TYPE_TIMESTAMP, -TYPE_DATE):                                           \
-- 
2.43.0


From 4d2cd3fe897456546cfd679df14ae5a102e17de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 036/102] fix: comparisons with enumerations honour the
 operator and operand order

---
 core/cmp.c | 111 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 71 insertions(+), 40 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 77d3de9..803c763 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -67,12 +67,39 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
         NULL_OBJ;                                                          \
     })
 
+// Symbols a vector of an enumeration refers to
+static obj_p enum_domain(obj_p x) {
+    obj_p k, sym;
+
+    k = ray_key(x);
+    sym = ray_get(k);
+    drop_obj(k);
+
+    if (!IS_ERR(sym) && sym->type != TYPE_SYMBOL) {
+        drop_obj(sym);
+        return err_type(0, 0, 0, 0);
+    }
+
+    return sym;
+}
+
+static inline i64_t enum_symbol(obj_p sym, i64_t i) {
+    return (i >= 0 && i < sym->len) ? AS_SYMBOL(sym)[i] : NULL_I64;
+}
+
+#define EQSYM EQI64
+#define NESYM NEI64
+#define LTSYM LTI64
+#define GTSYM GTI64
+#define LESYM LEI64
+#define GESYM GEI64
+
 #define __DECLARE_CMP_FN(op)                                                                   \
     obj_p ray_##op##_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p res) {           \
         i64_t i;                                                                               \
-        i64_t *xi, *ei, si;                                                                    \
+        i64_t *ei;                                                                             \
         b8_t *out;                                                                             \
-        obj_p k, sym, e;                                                                       \
+        obj_p sym;                                                                             \
                                                                                                \
         switch (MTYPE2(x->type, y->type)) {                                                    \
             case MTYPE2(-TYPE_B8, -TYPE_B8):                                                   \
@@ -258,53 +285,57 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 return __CMP_V_V(x, y, timestamp, date, timestamp, op##I64, len, offset, res); \
                                                                                                \
             case MTYPE2(TYPE_ENUM, -TYPE_SYMBOL):                                              \
-                k = ray_key(x);                                                                \
-                sym = ray_get(k);                                                              \
-                drop_obj(k);                                                                   \
+                sym = enum_domain(x);                                                          \
+                if (IS_ERR(sym))                                                               \
+                    return sym;                                                                \
                                                                                                \
-                e = ENUM_VAL(x);                                                               \
+                ei = AS_I64(ENUM_VAL(x)) + offset;                                             \
+                out = AS_B8(res) + offset;                                                     \
+                                                                                               \
+                for (i = 0; i < len; i++)                                                      \
+                    out[i] = op##SYM(enum_symbol(sym, ei[i]), y->i64);                         \
                                                                                                \
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
-                    drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
-                }                                                                              \
+                drop_obj(sym);                                                                 \
+                return NULL_OBJ;                                                               \
+            case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
+                sym = enum_domain(y);                                                          \
+                if (IS_ERR(sym))                                                               \
+                    return sym;                                                                \
                                                                                                \
-                xi = AS_I64(sym);                                                              \
-                ei = AS_I64(e) + offset;                                                       \
-                si = y->i64;                                                                   \
+                ei = AS_I64(ENUM_VAL(y)) + offset;                                             \
                 out = AS_B8(res) + offset;                                                     \
                                                                                                \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[ei[i]] == si;                                                  \
+                    out[i] = op##SYM(x->i64, enum_symbol(sym, ei[i]));                         \
                                                                                                \
                 drop_obj(sym);                                                                 \
-                return res;                                                                    \
-            case MTYPE2(-TYPE_SYMBOL, TYPE_ENUM):                                              \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_ENUM, TYPE_SYMBOL):                                               \
-                k = ray_key(y);                                                                \
-                sym = ray_get(k);                                                              \
-                drop_obj(k);                                                                   \
+                sym = enum_domain(x);                                                          \
+                if (IS_ERR(sym))                                                               \
+                    return sym;                                                                \
                                                                                                \
-                e = ENUM_VAL(y);                                                               \
+                ei = AS_I64(ENUM_VAL(x)) + offset;                                             \
+                out = AS_B8(res) + offset;                                                     \
+                                                                                               \
+                for (i = 0; i < len; i++)                                                      \
+                    out[i] = op##SYM(enum_symbol(sym, ei[i]), AS_I64(y)[offset + i]);          \
                                                                                                \
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {                                \
-                    drop_obj(sym);                                                             \
-                    return err_type(0, 0, 0, 0);                                       \
-                }                                                                              \
+                drop_obj(sym);                                                                 \
+                return NULL_OBJ;                                                               \
+            case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
+                sym = enum_domain(y);                                                          \
+                if (IS_ERR(sym))                                                               \
+                    return sym;                                                                \
                                                                                                \
-                xi = AS_I64(x);                                                                \
-                ei = AS_I64(e) + offset;                                                       \
-                si = sym->i64;                                                                 \
+                ei = AS_I64(ENUM_VAL(y)) + offset;                                             \
                 out = AS_B8(res) + offset;                                                     \
                                                                                                \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = xi[i] == ei[si];                                                  \
+                    out[i] = op##SYM(AS_I64(x)[offset + i], enum_symbol(sym, ei[i]));          \
                                                                                                \
                 drop_obj(sym);                                                                 \
-                return res;                                                                    \
-            case MTYPE2(TYPE_SYMBOL, TYPE_ENUM):                                               \
-                return ray_##op##_partial(y, x, len, offset, res);                             \
+                return NULL_OBJ;                                                               \
                                                                                                \
             case MTYPE2(-TYPE_GUID, -TYPE_GUID):                                               \
                 return b8(op##GUID(AS_GUID(x)[0], AS_GUID(y)[0]));                             \
@@ -312,17 +343,17 @@ typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
                     out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[i]);                           \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, -TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
                     out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[0]);                           \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, TYPE_GUID):                                                 \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
                     out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[i]);                           \
-                return res;                                                                    \
+                return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_ERR, TYPE_ERR):                                                   \
                 return b8(cmp_obj(x, y) == 0);                                                 \
             case MTYPE2(TYPE_NULL, TYPE_NULL):                                                 \
@@ -359,7 +390,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     } else if (y->type == TYPE_MAPCOMMON) {
         l = AS_LIST(y)[0]->len;
         res = B8(l);
-        v = cmp_fn(x, AS_LIST(y)[0], l, 0, NULL_OBJ);
+        v = cmp_fn(x, AS_LIST(y)[0], l, 0, res);
         if (IS_ERR(v)) {
             drop_obj(res);
             return v;
@@ -631,14 +662,14 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     }
 
     if (IS_VECTOR(x) && IS_VECTOR(y)) {
-        if (x->len != y->len)
+        if (ops_count(x) != ops_count(y))
             return err_length(0, 0, 0, 0, 0, 0);
 
-        l = x->len;
+        l = ops_count(x);
     } else if (IS_VECTOR(x))
-        l = x->len;
+        l = ops_count(x);
     else if (IS_VECTOR(y))
-        l = y->len;
+        l = ops_count(y);
     else {
         return cmp_fn(x, y, 1, 0, NULL_OBJ);
     }
-- 
2.43.0


From 7a6cbe9994110f4e921966eadaf7afd83d68b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 037/102] fix: compare symbols by name, as sorting does

---
 core/cmp.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 803c763..46db09d 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -29,6 +29,8 @@
 #include "items.h"
 #include "runtime.h"
 #include "pool.h"
+#include "string.h"
+#include "symbols.h"
 
 typedef obj_p (*ray_cmp_f)(obj_p, obj_p, i64_t, i64_t, obj_p);
 
@@ -87,12 +89,21 @@ static inline i64_t enum_symbol(obj_p sym, i64_t i) {
     return (i >= 0 && i < sym->len) ? AS_SYMBOL(sym)[i] : NULL_I64;
 }
 
-#define EQSYM EQI64
-#define NESYM NEI64
-#define LTSYM LTI64
-#define GTSYM GTI64
-#define LESYM LEI64
-#define GESYM GEI64
+// Symbols are ordered by name, the same way as they are sorted
+static inline i64_t symbol_cmp(i64_t x, i64_t y) {
+    return (x == y) ? 0 : str_cmp(str_from_symbol(x), symbol_strlen(x), str_from_symbol(y), symbol_strlen(y));
+}
+
+#define EQSYM(x, y) ((x) == (y))
+#define NESYM(x, y) ((x) != (y))
+#define LTSYM(x, y) (symbol_cmp((x), (y)) < 0)
+#define GTSYM(x, y) (symbol_cmp((x), (y)) > 0)
+#define LESYM(x, y) (symbol_cmp((x), (y)) <= 0)
+#define GESYM(x, y) (symbol_cmp((x), (y)) >= 0)
+#define sym_to_sym(x) (x)
+#define __BASE_sym_t i64_t
+#define __BASE_sym i64
+#define __AS_sym AS_I64
 
 #define __DECLARE_CMP_FN(op)                                                                   \
     obj_p ray_##op##_partial(obj_p x, obj_p y, i64_t len, i64_t offset, obj_p res) {           \
@@ -198,7 +209,6 @@ static inline i64_t enum_symbol(obj_p sym, i64_t i) {
             case MTYPE2(-TYPE_I64, -TYPE_I32):                                                 \
                 return b8(op##I64(x->i64, i32_to_i64(y->i32)));                                \
             case MTYPE2(-TYPE_I64, -TYPE_I64):                                                 \
-            case MTYPE2(-TYPE_SYMBOL, -TYPE_SYMBOL):                                           \
             case MTYPE2(-TYPE_TIMESTAMP, -TYPE_TIMESTAMP):                                     \
                 return b8(op##I64(x->i64, y->i64));                                            \
             case MTYPE2(-TYPE_I64, -TYPE_F64):                                                 \
@@ -208,7 +218,6 @@ static inline i64_t enum_symbol(obj_p sym, i64_t i) {
             case MTYPE2(-TYPE_I64, TYPE_I32):                                                  \
                 return __CMP_A_V(x, y, i64, i32, i64, op##I64, len, offset, res);              \
             case MTYPE2(-TYPE_I64, TYPE_I64):                                                  \
-            case MTYPE2(-TYPE_SYMBOL, TYPE_SYMBOL):                                            \
             case MTYPE2(-TYPE_TIMESTAMP, TYPE_TIMESTAMP):                                      \
                 return __CMP_A_V(x, y, i64, i64, i64, op##I64, len, offset, res);              \
             case MTYPE2(-TYPE_I64, TYPE_F64):                                                  \
@@ -218,7 +227,6 @@ static inline i64_t enum_symbol(obj_p sym, i64_t i) {
             case MTYPE2(TYPE_I64, -TYPE_I32):                                                  \
                 return __CMP_V_A(x, y, i64, i32, i64, op##I64, len, offset, res);              \
             case MTYPE2(TYPE_I64, -TYPE_I64):                                                  \
-            case MTYPE2(TYPE_SYMBOL, -TYPE_SYMBOL):                                            \
             case MTYPE2(TYPE_TIMESTAMP, -TYPE_TIMESTAMP):                                      \
                 return __CMP_V_A(x, y, i64, i64, i64, op##I64, len, offset, res);              \
             case MTYPE2(TYPE_I64, -TYPE_F64):                                                  \
@@ -228,7 +236,6 @@ static inline i64_t enum_symbol(obj_p sym, i64_t i) {
             case MTYPE2(TYPE_I64, TYPE_I32):                                                   \
                 return __CMP_V_V(x, y, i64, i32, i64, op##I64, len, offset, res);              \
             case MTYPE2(TYPE_I64, TYPE_I64):                                                   \
-            case MTYPE2(TYPE_SYMBOL, TYPE_SYMBOL):                                             \
             case MTYPE2(TYPE_TIMESTAMP, TYPE_TIMESTAMP):                                       \
                 return __CMP_V_V(x, y, i64, i64, i64, op##I64, len, offset, res);              \
             case MTYPE2(TYPE_I64, TYPE_F64):                                                   \
@@ -284,6 +291,14 @@ static inline i64_t enum_symbol(obj_p sym, i64_t i) {
             case MTYPE2(TYPE_TIMESTAMP, TYPE_DATE):                                            \
                 return __CMP_V_V(x, y, timestamp, date, timestamp, op##I64, len, offset, res); \
                                                                                                \
+            case MTYPE2(-TYPE_SYMBOL, -TYPE_SYMBOL):                                           \
+                return b8(op##SYM(x->i64, y->i64));                                            \
+            case MTYPE2(-TYPE_SYMBOL, TYPE_SYMBOL):                                            \
+                return __CMP_A_V(x, y, sym, sym, sym, op##SYM, len, offset, res);              \
+            case MTYPE2(TYPE_SYMBOL, -TYPE_SYMBOL):                                            \
+                return __CMP_V_A(x, y, sym, sym, sym, op##SYM, len, offset, res);              \
+            case MTYPE2(TYPE_SYMBOL, TYPE_SYMBOL):                                             \
+                return __CMP_V_V(x, y, sym, sym, sym, op##SYM, len, offset, res);              \
             case MTYPE2(TYPE_ENUM, -TYPE_SYMBOL):                                              \
                 sym = enum_domain(x);                                                          \
                 if (IS_ERR(sym))                                                               \
-- 
2.43.0


From db6334a7ebb625519d92772ea51ab4f99cb03138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 038/102] fix: compare every element of a mixed list by its own
 type

---
 core/cmp.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 46db09d..9d8a933 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -378,6 +378,28 @@ static inline i64_t symbol_cmp(i64_t x, i64_t y) {
         }                                                                                      \
     }
 
+// All the elements of a list are atoms of the given type (or nulls)
+static b8_t list_of_atoms(obj_p x, i8_t type) {
+    for (i64_t i = 0; i < x->len; i++) {
+        obj_p e = AS_LIST(x)[i];
+        if (e != NULL_OBJ && e->type != type)
+            return B8_FALSE;
+    }
+
+    return B8_TRUE;
+}
+
+static b8_t maplist_of_atoms(obj_p x, i8_t type) {
+    u8_t *buf = AS_U8(MAPLIST_KEY(x));
+    obj_p offsets = MAPLIST_VAL(x);
+
+    for (i64_t i = 0; i < offsets->len; i++)
+        if ((i8_t)buf[AS_I64(offsets)[i]] != type)
+            return B8_FALSE;
+
+    return B8_TRUE;
+}
+
 obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     pool_p pool = runtime_get()->pool;
     i64_t i, l, n;
@@ -435,7 +457,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
             i8_t elem_type = (i8_t)buf[0];
 
             // If MAPLIST contains i64 atoms, extract directly to typed vector
-            if (elem_type == -TYPE_I64 && y->type == -TYPE_I64) {
+            if (elem_type == -TYPE_I64 && y->type == -TYPE_I64 && maplist_of_atoms(x, elem_type)) {
                 obj_p vec = I64(l);
                 for (i = 0; i < l; i++) {
                     buf = AS_U8(key) + AS_I64(offsets)[i];
@@ -450,7 +472,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
                 return res;
             }
             // If MAPLIST contains f64 atoms, extract directly to typed vector
-            if (elem_type == -TYPE_F64 && y->type == -TYPE_F64) {
+            if (elem_type == -TYPE_F64 && y->type == -TYPE_F64 && maplist_of_atoms(x, elem_type)) {
                 obj_p vec = F64(l);
                 for (i = 0; i < l; i++) {
                     buf = AS_U8(key) + AS_I64(offsets)[i];
@@ -489,7 +511,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
             u8_t *buf = AS_U8(key) + AS_I64(offsets)[0];
             i8_t elem_type = (i8_t)buf[0];
 
-            if (elem_type == -TYPE_I64 && x->type == -TYPE_I64) {
+            if (elem_type == -TYPE_I64 && x->type == -TYPE_I64 && maplist_of_atoms(y, elem_type)) {
                 obj_p vec = I64(l);
                 for (i = 0; i < l; i++) {
                     buf = AS_U8(key) + AS_I64(offsets)[i];
@@ -503,7 +525,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
                 drop_obj(vec);
                 return res;
             }
-            if (elem_type == -TYPE_F64 && x->type == -TYPE_F64) {
+            if (elem_type == -TYPE_F64 && x->type == -TYPE_F64 && maplist_of_atoms(y, elem_type)) {
                 obj_p vec = F64(l);
                 for (i = 0; i < l; i++) {
                     buf = AS_U8(key) + AS_I64(offsets)[i];
@@ -539,7 +561,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
         l = x->len;
         obj_p first = AS_LIST(x)[0];
         // Check if first element is an atom of same base type as y (or both numeric)
-        if (first != NULL_OBJ && first->type < 0) {
+        if (first != NULL_OBJ && first->type < 0 && list_of_atoms(x, first->type)) {
             i8_t elem_type = -first->type;
             i8_t y_type = -y->type;
 
@@ -587,7 +609,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     } else if (y->type == TYPE_LIST && y->len > 0 && IS_ATOM(x) && x->type < 0) {
         l = y->len;
         obj_p first = AS_LIST(y)[0];
-        if (first != NULL_OBJ && first->type < 0) {
+        if (first != NULL_OBJ && first->type < 0 && list_of_atoms(y, first->type)) {
             i8_t elem_type = -first->type;
             i8_t x_type = -x->type;
 
-- 
2.43.0


From ac19ddc27fc9511710cfcae5f80d6e0cc5d5df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 039/102] fix: nil? recognises the null of every type

---
 core/rayforce.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 2690556..29f24b5 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2121,9 +2121,28 @@ obj_p remove_obj(obj_p* obj, obj_p idx) {
 }
 
 b8_t is_null(obj_p obj) {
-    return (obj->type == TYPE_NULL) || (obj->type == -TYPE_I64 && obj->i64 == NULL_I64) ||
-           (obj->type == -TYPE_SYMBOL && obj->i64 == NULL_I64) || (obj->type == -TYPE_F64 && obj->f64 == NULL_F64) ||
-           (obj->type == -TYPE_TIMESTAMP && obj->i64 == NULL_I64) || (obj->type == -TYPE_C8 && obj->c8 == '\0');
+    switch (obj->type) {
+        case TYPE_NULL:
+            return B8_TRUE;
+        case -TYPE_I16:
+            return obj->i16 == NULL_I16;
+        case -TYPE_I32:
+        case -TYPE_DATE:
+        case -TYPE_TIME:
+            return obj->i32 == NULL_I32;
+        case -TYPE_I64:
+        case -TYPE_SYMBOL:
+        case -TYPE_TIMESTAMP:
+            return obj->i64 == NULL_I64;
+        case -TYPE_F64:
+            return ISNANF64(obj->f64);
+        case -TYPE_GUID:
+            return memcmp(AS_GUID(obj)[0], NULL_GUID, sizeof(guid_t)) == 0;
+        case -TYPE_C8:
+            return obj->c8 == '\0';
+        default:
+            return B8_FALSE;
+    }
 }
 
 i64_t cmp_obj(obj_p a, obj_p b) {
-- 
2.43.0


From 028dff023915834ce3bad1644bb0ea5eb865efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 040/102] fix: compare every part of a guid vector in parallel

---
 core/cmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 9d8a933..7398f3c 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -357,17 +357,17 @@ static inline i64_t symbol_cmp(i64_t x, i64_t y) {
             case MTYPE2(-TYPE_GUID, TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[i]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[0], AS_GUID(y)[offset + i]);                  \
                 return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, -TYPE_GUID):                                                \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[0]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[0]);                  \
                 return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_GUID, TYPE_GUID):                                                 \
                 out = AS_B8(res) + offset;                                                     \
                 for (i = 0; i < len; i++)                                                      \
-                    out[i] = op##GUID(AS_GUID(x)[i], AS_GUID(y)[i]);                           \
+                    out[i] = op##GUID(AS_GUID(x)[offset + i], AS_GUID(y)[offset + i]);         \
                 return NULL_OBJ;                                                               \
             case MTYPE2(TYPE_ERR, TYPE_ERR):                                                   \
                 return b8(cmp_obj(x, y) == 0);                                                 \
-- 
2.43.0


From f20134c9bf6a07564f337c1ee95eb8b3c42be695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 041/102] fix: casting an unparsable string returned
 uninitialised memory

---
 core/date.c     | 3 +++
 core/io.c       | 2 ++
 core/rayforce.c | 8 ++++----
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/date.c b/core/date.c
index 5371770..5d20ab0 100644
--- a/core/date.c
+++ b/core/date.c
@@ -125,6 +125,9 @@ datestruct_t date_from_str(str_p src, i64_t len) {
 i32_t date_into_i32(datestruct_t dt) {
     i64_t leap, mdays, yy, mm, dd, ydays;
 
+    if (dt.null)
+        return NULL_I32;
+
     yy = (dt.year > 0) ? dt.year - 1 : 0;
     ydays = years_by_days(yy);
     leap = leap_year(dt.year);
diff --git a/core/io.c b/core/io.c
index 5f87b11..d733e40 100644
--- a/core/io.c
+++ b/core/io.c
@@ -398,6 +398,7 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_I32(out)[row] = NULL_I32;
                 break;
             }
+            AS_I32(out)[row] = NULL_I32;
             i32_from_str(start, end - start, &AS_I32(out)[row]);
             break;
         case TYPE_DATE:
@@ -434,6 +435,7 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_F64(out)[row] = NULL_F64;
                 break;
             }
+            AS_F64(out)[row] = NULL_F64;
             f64_from_str(start, end - start, &AS_F64(out)[row]);
             break;
         case TYPE_SYMBOL:
diff --git a/core/rayforce.c b/core/rayforce.c
index 29f24b5..46fb4f2 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2359,9 +2359,9 @@ i64_t find_raw(obj_p obj, raw_p val) {
 obj_p cast_obj(i8_t type, obj_p obj) {
     obj_p v, res;
     u8_t* g;
-    i32_t num_i32;
-    i64_t i, l, num_i64;
-    f64_t num_f64;
+    i32_t num_i32 = NULL_I32;  // an unparsable string becomes null
+    i64_t i, l, num_i64 = NULL_I64;
+    f64_t num_f64 = NULL_F64;
     lit_p str;
 
     // Do nothing if the type is the same
@@ -2581,7 +2581,7 @@ obj_p cast_obj(i8_t type, obj_p obj) {
             return u8((u8_t)num_i32);
         case MTYPE2(-TYPE_I16, TYPE_C8):
             i32_from_str(AS_C8(obj), obj->len, &num_i32);
-            return i16((i16_t)num_i32);
+            return i16(i32_to_i16(num_i32));
         case MTYPE2(-TYPE_I32, TYPE_C8):
             i32_from_str(AS_C8(obj), obj->len, &num_i32);
             return i32(num_i32);
-- 
2.43.0


From 13298769bcfc38707615b421ce1f669fdda86341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 042/102] fix: integer text beyond the 64-bit range was read as
 a wrapped value

---
 core/string.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/string.c b/core/string.c
index ad5895b..1f8b4ec 100644
--- a/core/string.c
+++ b/core/string.c
@@ -212,7 +212,7 @@ i64_t i32_from_str(lit_p str, i64_t len, i32_t *dst) {
 
 i64_t i64_from_str(lit_p src, i64_t len, i64_t *dst) {
     i64_t i, n, sign;
-    u64_t result, old;
+    u64_t result, digit, limit;
 
     result = 0;
     sign = 1;
@@ -253,11 +253,12 @@ i64_t i64_from_str(lit_p src, i64_t len, i64_t *dst) {
     }
 
     // Parse remaining digits with overflow check
+    limit = (sign < 0) ? (u64_t)1 << 63 : ((u64_t)1 << 63) - 1;
     while (n < len && IS_DIGIT(src[n])) {
-        old = result;
-        result = result * 10 + (src[n] - '0');
-        if (result < old)  // Overflow
+        digit = src[n] - '0';
+        if (result > (limit - digit) / 10)  // Overflow
             return 0;
+        result = result * 10 + digit;
         n++;
     }
 
@@ -265,7 +266,7 @@ i64_t i64_from_str(lit_p src, i64_t len, i64_t *dst) {
     if (n == 0)
         return 0;
 
-    *dst = (i64_t)result * sign;
+    *dst = (sign < 0) ? (i64_t)(0 - result) : (i64_t)result;
 
     return i + n;
 }
-- 
2.43.0


From d3b4310854c1a539583b7cb3b43745fdae04af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 043/102] fix: literal parsers read past the end of the source
 text

---
 core/parse.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/core/parse.c b/core/parse.c
index 4174519..7044c12 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -37,6 +37,7 @@
 #include "eval.h"
 #include "env.h"
 #include "lambda.h"
+#include "heap.h"
 
 struct obj_t __PARSE_ADVANCE_OBJECT = {.type = TYPE_NULL};
 
@@ -1248,7 +1249,7 @@ obj_p parse_do(parser_t *parser) {
     return lst != NULL_OBJ ? lst : car;
 }
 
-obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
+static obj_p parse_input(lit_p input, i64_t input_len, obj_p nfo) {
     obj_p res, err;
     span_t span;
 
@@ -1292,3 +1293,22 @@ obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
 
     return res;
 }
+
+obj_p parse(lit_p input, i64_t input_len, obj_p nfo) {
+    obj_p res;
+    str_p buf;
+
+    // the literal parsers look ahead until they meet a terminator, which the caller's text need not have
+    buf = (str_p)heap_alloc(input_len + 32);
+    if (buf == NULL)
+        return err_limit(input_len);
+
+    if (input_len > 0)
+        memcpy(buf, input, input_len);
+    memset(buf + input_len, 0, 32);
+
+    res = parse_input(buf, input_len, nfo);
+    heap_free(buf);
+
+    return res;
+}
-- 
2.43.0


From 8839ccc63651a4f554532f2acefbd1c1ae910c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 044/102] fix: casting a long symbol to a string cut it to its
 display form

---
 core/rayforce.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/rayforce.c b/core/rayforce.c
index 46fb4f2..e6e3941 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -2573,6 +2573,13 @@ obj_p cast_obj(i8_t type, obj_p obj) {
         case MTYPE2(-TYPE_SYMBOL, TYPE_C8):
             return symbol(AS_C8(obj), obj->len);
 
+        // Symbol to string conversion: the whole text, not its display form
+        case MTYPE2(TYPE_C8, -TYPE_SYMBOL):
+            if (obj->i64 == NULL_I64)
+                return obj_fmt(obj, B8_FALSE);
+            str = str_from_symbol(obj->i64);
+            return string_from_str(str, strlen(str));
+
         // String to atom conversions
         case MTYPE2(-TYPE_B8, TYPE_C8):
             return b8(obj->len > 0);
-- 
2.43.0


From cb4686c01bec76d8dc6fa15f338306ec95a10d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 045/102] fix: text cut at the display width kept only its
 first character

---
 core/format.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/format.c b/core/format.c
index 6870b0e..02e9250 100644
--- a/core/format.c
+++ b/core/format.c
@@ -175,8 +175,18 @@ i64_t str_vfmt_into(obj_p *dst, i64_t limit, lit_p fmt, va_list vargs) {
         }
 
         // n >= size, the buffer is too small, but we reached the limit
-        if (limit != NO_LIMIT && n >= limit)
+        if (limit != NO_LIMIT && n >= limit) {
+            // keep the first limit characters
+            if (is_null(resize_obj(dst, l + limit + 1))) {
+                heap_free(*dst);
+                PANIC("str_vfmt_into: OOM");
+            }
+            va_copy(args, vargs);
+            vsnprintf(AS_C8(*dst) + o, limit + 1, fmt, args);
+            va_end(args);
+            resize_obj(dst, l + limit);
             return limit;
+        }
 
         // Expand the buffer for the next iteration
         size = n + 1;  // +1 for the null terminator
-- 
2.43.0


From aa2e824f048b9aa68c5bb46439c4fe29a5ce3793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 046/102] fix: sorting symbols used their ids when close
 together, and crashed with a null among them

---
 core/sort.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/sort.c b/core/sort.c
index a202a20..8cd9231 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -811,13 +811,13 @@ static obj_p counting_sort_i64(obj_p vec, i64_t asc) {
             max_sym = data[i];
     }
 
-    i64_t range = max_sym - min_sym + 1;
-
     // Use counting sort only if range is reasonable
     // Don't use if too sparse (range > len) or exceeds maximum range
-    if (range > len || range > COUNTING_SORT_MAX_RANGE)
+    if ((u64_t)max_sym - (u64_t)min_sym >= (u64_t)len || (u64_t)max_sym - (u64_t)min_sym >= COUNTING_SORT_MAX_RANGE)
         return NULL;  // Fall back to other sorting
 
+    i64_t range = max_sym - min_sym + 1;
+
     // Allocate counting array
     i64_t* counts = (i64_t*)heap_alloc(range * sizeof(i64_t));
     if (!counts)
@@ -911,10 +911,10 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
     }
 
     // For larger arrays: try counting sort first for integer types
+    // (not symbols: their ids follow the order of interning, not of the names)
     switch (vec->type) {
         case TYPE_I64:
         case TYPE_TIME:
-        case TYPE_SYMBOL:
             res = counting_sort_i64(vec, asc);
             if (res)
                 return res;
-- 
2.43.0


From 1edc72b41e8ea806c9a251c8004cf56a094bd65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 047/102] fix: in-place changes keep a vector's stale sorted
 mark; backward reads of sorted vectors with repeats are not stable

---
 core/math.c     |  2 ++
 core/ops.h      |  7 +++++++
 core/order.c    |  6 ++----
 core/rayforce.c | 11 +++++++++++
 core/sort.c     |  5 +++--
 5 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/core/math.c b/core/math.c
index f4e419e..f433ef7 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2259,6 +2259,7 @@ obj_p unop_map(raw_p op, obj_p x) {
     pool = runtime_get()->pool;
     n = pool_split_by(pool, l, 0);
     out = (rc_obj(x) == 1) ? clone_obj(x) : vector(x->type, l);
+    UNMARK_CONTENT(out);
 
     if (n == 1) {
         v = ((obj_p(*)(obj_p, i64_t, i64_t, obj_p))op)(x, l, 0, out);
@@ -2323,6 +2324,7 @@ obj_p binop_map(raw_p op, obj_p x, obj_p y) {
     out = (rc_obj(x) == 1 && IS_VECTOR(x) && x->type == t)   ? clone_obj(x)
           : (rc_obj(y) == 1 && IS_VECTOR(y) && y->type == t) ? clone_obj(y)
                                                              : vector(t, l);
+    UNMARK_CONTENT(out);
 
     if (n == 1) {
         v = ((obj_p(*)(obj_p, obj_p, i64_t, i64_t, obj_p))op)(x, y, l, 0, out);
diff --git a/core/ops.h b/core/ops.h
index c224f24..3d81d56 100644
--- a/core/ops.h
+++ b/core/ops.h
@@ -52,6 +52,13 @@ extern struct obj_t __ERR_OBJ;
 #define ATTR_DISTINCT 1
 #define ATTR_ASC 2
 #define ATTR_DESC 4
+// Marks that describe the contents of a vector, so do not survive a change of it
+#define ATTR_CONTENT_MASK (ATTR_DISTINCT | ATTR_ASC | ATTR_DESC)
+#define UNMARK_CONTENT(o)                       \
+    do {                                        \
+        if ((o)->attrs & ATTR_CONTENT_MASK)     \
+            (o)->attrs &= ~ATTR_CONTENT_MASK;   \
+    } while (0)
 #define ATTR_QUOTED 8
 #define ATTR_PROTECTED 64
 
diff --git a/core/order.c b/core/order.c
index 3953b2c..7d499ab 100644
--- a/core/order.c
+++ b/core/order.c
@@ -147,7 +147,6 @@ obj_p ray_asc(obj_p x) {
             obj_p sorted_vals = at_obj(AS_LIST(x)[1], idx);
 
             res = dict(sorted_keys, sorted_vals);
-            res->attrs |= ATTR_ASC | distinct;
             drop_obj(idx);
             return res;
         }
@@ -233,7 +232,6 @@ obj_p ray_desc(obj_p x) {
             obj_p sorted_vals = at_obj(AS_LIST(x)[1], idx);
 
             res = dict(sorted_keys, sorted_vals);
-            res->attrs |= ATTR_DESC | distinct;
             drop_obj(idx);
             return res;
         }
@@ -527,7 +525,7 @@ obj_p ray_rank(obj_p x) {
         drop_obj(n);
         return res;
     }
-    if (x->attrs & ATTR_DESC) {
+    if ((x->attrs & ATTR_DESC) && (x->attrs & ATTR_DISTINCT)) {
         l = x->len;
         res = I64(l);
         if (IS_ERR(res))
@@ -629,7 +627,7 @@ obj_p ray_xrank(obj_p y, obj_p x) {
         pool_map(l, xrank_asc_worker, &ctx);
         return res;
     }
-    if (y->attrs & ATTR_DESC) {
+    if ((y->attrs & ATTR_DESC) && (y->attrs & ATTR_DISTINCT)) {
         xrank_asc_ctx_t ctx = {AS_I64(res), n_buckets, l};
         pool_map(l, xrank_desc_worker, &ctx);
         return res;
diff --git a/core/rayforce.c b/core/rayforce.c
index e6e3941..110c49a 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -426,11 +426,14 @@ obj_p push_raw(obj_p* obj, raw_p val) {
         memcpy(new_obj->raw, (*obj)->raw, off);
         new_obj->mmod = MMOD_INTERNAL;
         new_obj->type = (*obj)->type;
+        new_obj->attrs = 0;
+        new_obj->len = (*obj)->len;
         new_obj->rc = 1;
         drop_obj(*obj);
         *obj = new_obj;
     }
 
+    UNMARK_CONTENT(*obj);
     memcpy((*obj)->raw + off, val, size);
     (*obj)->len++;
 
@@ -524,6 +527,8 @@ obj_p append_list(obj_p* obj, obj_p vals) {
     i64_t i, c, l, size1, size2;
     obj_p res;
 
+    UNMARK_CONTENT(*obj);
+
     switch (MTYPE2((*obj)->type, vals->type)) {
         case MTYPE2(TYPE_B8, TYPE_B8):
             size1 = size_of(*obj) - sizeof(struct obj_t);
@@ -686,6 +691,7 @@ obj_p ins_raw(obj_p* obj, i64_t idx, raw_p val) {
     i32_t size;
 
     size = size_of_type((*obj)->type);
+    UNMARK_CONTENT(*obj);
     memcpy((*obj)->raw + idx * size, val, size);
 
     return *obj;
@@ -1430,6 +1436,8 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
         return err_index(idx, (*obj)->len, 0, 0);
     }
 
+    UNMARK_CONTENT(*obj);
+
     switch (MTYPE2((*obj)->type, val->type)) {
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_SYMBOL):
@@ -1464,6 +1472,9 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
 
 obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
     i64_t i;
+
+    UNMARK_CONTENT(*obj);
+
     switch (MTYPE2((*obj)->type, vals->type)) {
         case MTYPE2(TYPE_C8, -TYPE_C8):
             for (i = 0; i < len; i++)
diff --git a/core/sort.c b/core/sort.c
index 8cd9231..ebbde7a 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -442,7 +442,8 @@ obj_p ray_sort_asc(obj_p vec) {
         return indices;
     }
 
-    if (vec->attrs & ATTR_DESC) {
+    // equal elements keep their order, so only a vector without them may be read backwards
+    if ((vec->attrs & ATTR_DESC) && (vec->attrs & ATTR_DISTINCT)) {
         indices = I64(len);
         indices->attrs = ATTR_DESC | ATTR_DISTINCT;
         iota_ctx_t ctx = {AS_I64(indices), len};
@@ -703,7 +704,7 @@ obj_p ray_sort_desc(obj_p vec) {
         return indices;
     }
 
-    if (vec->attrs & ATTR_ASC) {
+    if ((vec->attrs & ATTR_ASC) && (vec->attrs & ATTR_DISTINCT)) {
         indices = I64(len);
         indices->attrs = ATTR_DESC | ATTR_DISTINCT;
         iota_ctx_t ctx = {AS_I64(indices), len};
-- 
2.43.0


From be004dc3c65a5e36baeeb30ebdc82a05309f49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 048/102] fix: remove, diverse and time joins released an
 argument they do not own; unsorted removal indexes moved bytes out of bounds

---
 core/compose.c  | 25 ++++++++++++++++++++-----
 core/join.c     |  4 ++--
 core/rayforce.c | 28 ++++++++++++++++++++++++++--
 3 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index c2a6cf6..0c9589d 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -823,17 +823,30 @@ obj_p ray_concat(obj_p x, obj_p y) {
 }
 
 obj_p ray_remove(obj_p x, obj_p y) {
-    obj_p r;
+    obj_p r, res;
+    i64_t i;
+
     switch (y->type) {
         case -TYPE_I32:
-            r = cow_obj(x);
-            return remove_idx(&r, y->i32);
+            i = y->i32;
+            break;
         case -TYPE_I64:
-            r = cow_obj(x);
-            return remove_idx(&r, y->i64);
+            i = y->i64;
+            break;
         default:
             return err_type(-TYPE_I64, y->type, 0, 0);
     }
+
+    // the argument belongs to the caller, so work on a copy of it
+    r = copy_obj(x);
+    if (IS_ERR(r))
+        return r;
+
+    res = remove_idx(&r, i);
+    if (IS_ERR(res))
+        drop_obj(r);
+
+    return res;
 }
 
 obj_p ray_distinct(obj_p x) {
@@ -1085,6 +1098,8 @@ obj_p ray_diverse(obj_p x) {
     obj_p res;
 
     res = cow_obj(x);
+    if (res == x)
+        clone_obj(x);  // the argument belongs to the caller
     return diverse_obj(&res);
 }
 
diff --git a/core/join.c b/core/join.c
index 6ea502b..4a64fe1 100644
--- a/core/join.c
+++ b/core/join.c
@@ -331,7 +331,7 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
         return err_type(expected, actual, 0, 0);
     }
 
-    keys = cow_obj(x[0]);
+    keys = copy_obj(x[0]);
     keys = remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[1], keys);
     rvals = at_obj(x[2], keys);
@@ -401,7 +401,7 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
         return err_type(expected, actual, 0, 0);
     }
 
-    keys = cow_obj(x[0]);
+    keys = copy_obj(x[0]);
     keys = remove_idx(&keys, keys->len - 1);
     lvals = at_obj(x[2], keys);
     rvals = at_obj(jtab, keys);
diff --git a/core/rayforce.c b/core/rayforce.c
index 110c49a..5e798df 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1991,9 +1991,10 @@ obj_p remove_idx(obj_p* obj, i64_t idx) {
 }
 
 obj_p remove_ids(obj_p* obj, i64_t ids[], i64_t len) {
-    i64_t i, j;
+    i64_t i, j, l;
+    obj_p mask, sorted, res;
 
-    if (len == 0 || (*obj)->len == 0 || len > (*obj)->len)
+    if (len == 0 || (*obj)->len == 0)
         return *obj;
 
     // Check ids are in range
@@ -2001,6 +2002,29 @@ obj_p remove_ids(obj_p* obj, i64_t ids[], i64_t len) {
         if (ids[i] < 0 || ids[i] >= (i64_t)(*obj)->len)
             return *obj;
 
+    // The removal below walks the ids from left to right, so they have to ascend
+    for (i = 1; i < len; i++) {
+        if (ids[i - 1] < ids[i])
+            continue;
+
+        l = (*obj)->len;
+        mask = B8(l);
+        memset(AS_B8(mask), 0, l);
+        for (i = 0; i < len; i++)
+            AS_B8(mask)[ids[i]] = B8_TRUE;
+
+        sorted = I64(l);
+        for (i = 0, j = 0; i < l; i++)
+            if (AS_B8(mask)[i])
+                AS_I64(sorted)[j++] = i;
+
+        drop_obj(mask);
+        res = remove_ids(obj, AS_I64(sorted), j);
+        drop_obj(sorted);
+
+        return res;
+    }
+
     switch ((*obj)->type) {
         case TYPE_U8:
         case TYPE_B8:
-- 
2.43.0


From fd7d9e6c3a9826f35a55b0e429d77d6bb3370d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 049/102] fix: sorting a vector of one symbol returned an
 uninitialised index

---
 core/sort.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/sort.c b/core/sort.c
index ebbde7a..47f4548 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -886,8 +886,12 @@ static obj_p optimized_sort(obj_p vec, i64_t asc) {
     obj_p res;
     i64_t len = vec->len;
 
-    if (len <= 1)
-        return I64(len);
+    if (len <= 1) {
+        res = I64(len);
+        if (len == 1)
+            AS_I64(res)[0] = 0;
+        return res;
+    }
 
     // Small arrays: use insertion sort
     if (len <= 32) {
-- 
2.43.0


From 38d502b9068b4cbebcd73b29c844ac98b806477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 050/102] fix: set operations on negative, wide, mixed and null
 values indexed out of bounds, overflowed or missed members

---
 core/hash.c     |  31 ++++++--
 core/index.c    | 195 +++++++++++++++++++++++++-----------------------
 core/rayforce.c |  41 ++++++----
 3 files changed, 151 insertions(+), 116 deletions(-)

diff --git a/core/hash.c b/core/hash.c
index 4a9d51e..d7fbf70 100644
--- a/core/hash.c
+++ b/core/hash.c
@@ -113,7 +113,7 @@ i64_t ht_oa_tab_next(obj_p *obj, i64_t key) {
         size = AS_LIST(*obj)[0]->len;
         keys = AS_I64(AS_LIST(*obj)[0]);
 
-        start = (i64_t)key % size;
+        start = (u64_t)key % (u64_t)size;
 
         for (i = start; i < size + start; i++) {
             idx = i % size;
@@ -156,7 +156,7 @@ i64_t ht_oa_tab_insert(obj_p *obj, i64_t key, i64_t val) {
         keys = AS_I64(AS_LIST(*obj)[0]);
         vals = AS_I64(AS_LIST(*obj)[1]);
 
-        start = (i64_t)key % size;
+        start = (u64_t)key % (u64_t)size;
 
         for (i = start; i < size + start; i++) {
             idx = i % size;
@@ -168,7 +168,7 @@ i64_t ht_oa_tab_insert(obj_p *obj, i64_t key, i64_t val) {
             }
 
             if (keys[idx] == key)
-                return vals[i];
+                return vals[idx];
         }
 
         ht_oa_rehash(obj, NULL, NULL);
@@ -211,7 +211,7 @@ i64_t ht_oa_tab_get(obj_p obj, i64_t key) {
     size = AS_LIST(obj)[0]->len;
     keys = AS_I64(AS_LIST(obj)[0]);
 
-    start = (i64_t)key % size;
+    start = (u64_t)key % (u64_t)size;
 
     for (i = start; i < size + start; i++) {
         idx = i % size;
@@ -250,6 +250,10 @@ u64_t hash_index_obj(obj_p obj) {
     u64_t hash, len, i;
 
     switch (obj->type) {
+        case -TYPE_B8:
+        case -TYPE_U8:
+        case -TYPE_C8:
+            return (u64_t)obj->u8;
         case -TYPE_I16:
             return (u64_t)obj->i16;
         case -TYPE_I32:
@@ -266,6 +270,22 @@ u64_t hash_index_obj(obj_p obj) {
             return hash_index_u64(*(u64_t *)AS_GUID(obj), *((u64_t *)AS_GUID(obj) + 1));
         case TYPE_C8:
             return str_hash(AS_C8(obj), obj->len);
+        case TYPE_B8:
+        case TYPE_U8:
+            len = obj->len;
+            for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
+                hash = hash_index_u64((u64_t)AS_U8(obj)[i], hash);
+            return hash;
+        case TYPE_GUID:
+            len = obj->len * 2;
+            for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
+                hash = hash_index_u64(((u64_t*)AS_GUID(obj))[i], hash);
+            return hash;
+        case TYPE_LIST:
+            len = obj->len;
+            for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
+                hash = hash_index_u64(hash_index_obj(AS_LIST(obj)[i]), hash);
+            return hash;
         case TYPE_I16:
             len = obj->len;
             for (i = 0, hash = 0xcbf29ce484222325ull; i < len; i++)
@@ -291,7 +311,8 @@ u64_t hash_index_obj(obj_p obj) {
                 hash = hash_index_u64((u64_t)AS_F64(obj)[i], hash);
             return hash;
         default:
-            PANIC("type: %d", obj->type);
+            // equal values of the remaining types share one hash: lookups compare them anyway
+            return (u64_t)obj->type;
     }
 }
 
diff --git a/core/index.c b/core/index.c
index 4d27587..d3df914 100644
--- a/core/index.c
+++ b/core/index.c
@@ -312,6 +312,13 @@ nil_t index_hash_obj(obj_p obj, i64_t out[], i64_t filter[], i64_t len, b8_t res
     index_hash_obj_partial(obj, out, filter, len, 0, resolve);
 }
 
+// Number of values between min and max, saturated when it does not fit
+static i64_t index_range(i64_t min, i64_t max) {
+    u64_t range = (u64_t)max - (u64_t)min;
+
+    return range >= (u64_t)INF_I64 ? INF_I64 : (i64_t)range + 1;
+}
+
 obj_p index_scope_partial_i32(i64_t len, i32_t *values, i64_t *indices, i64_t offset, i64_t *pmin, i64_t *pmax) {
     i32_t min, max;
     i64_t i, l;
@@ -370,7 +377,7 @@ index_scope_t index_scope_i32(i32_t values[], i64_t indices[], i64_t len) {
         }
     }
     timeit_tick("index scope");
-    return (index_scope_t){min, max, (i64_t)(max - min + 1)};
+    return (index_scope_t){min, max, index_range(min, max)};
 }
 
 obj_p index_scope_partial_i64(i64_t len, i64_t *values, i64_t *indices, i64_t offset, i64_t *pmin, i64_t *pmax) {
@@ -431,7 +438,7 @@ index_scope_t index_scope_i64(i64_t values[], i64_t indices[], i64_t len) {
         }
     }
     timeit_tick("index scope");
-    return (index_scope_t){min, max, (i64_t)(max - min + 1)};
+    return (index_scope_t){min, max, index_range(min, max)};
 }
 
 obj_p index_distinct_i8(i8_t values[], i64_t len) {
@@ -705,7 +712,7 @@ obj_p index_in_i8_i16(i8_t x[], i64_t xl, i16_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -716,8 +723,8 @@ obj_p index_in_i8_i16(i8_t x[], i64_t xl, i16_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++) {
-        val = y[i] - min;
-        if (val >= 0 && val < (i16_t)range)
+        val = y[i];
+        if (val >= 0 && val < range)
             s[val] = B8_TRUE;
     }
 
@@ -725,7 +732,7 @@ obj_p index_in_i8_i16(i8_t x[], i64_t xl, i16_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++)
-        r[i] = s[x[i] - min];
+        r[i] = s[(u8_t)x[i] - min];
 
     drop_obj(set);
 
@@ -738,7 +745,7 @@ obj_p index_in_i8_i32(i8_t x[], i64_t xl, i32_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -749,7 +756,7 @@ obj_p index_in_i8_i32(i8_t x[], i64_t xl, i32_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++) {
-        val = y[i] - min;
+        val = y[i];
         if (val >= 0 && val < (i32_t)range)
             s[val] = B8_TRUE;
     }
@@ -758,7 +765,7 @@ obj_p index_in_i8_i32(i8_t x[], i64_t xl, i32_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++)
-        r[i] = s[x[i] - min];
+        r[i] = s[(u8_t)x[i] - min];
 
     drop_obj(set);
 
@@ -771,7 +778,7 @@ obj_p index_in_i8_i64(i8_t x[], i64_t xl, i64_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -782,7 +789,7 @@ obj_p index_in_i8_i64(i8_t x[], i64_t xl, i64_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++) {
-        val = y[i] - min;
+        val = y[i];
         if (val >= 0 && val < (i64_t)range)
             s[val] = B8_TRUE;
     }
@@ -791,7 +798,7 @@ obj_p index_in_i8_i64(i8_t x[], i64_t xl, i64_t y[], i64_t yl) {
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++)
-        r[i] = s[x[i] - min];
+        r[i] = s[(u8_t)x[i] - min];
 
     drop_obj(set);
 
@@ -804,7 +811,7 @@ obj_p index_in_i16_i8(i16_t x[], i64_t xl, i8_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -815,13 +822,13 @@ obj_p index_in_i16_i8(i16_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        s[y[i] - min] = B8_TRUE;
+        s[(u8_t)y[i] - min] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++) {
-        val = x[i] - min;
+        val = x[i];
         if (val >= 0 && val < (i16_t)range)
             r[i] = s[val];
         else
@@ -865,7 +872,7 @@ obj_p index_in_i16_i16(i16_t x[], i64_t xl, i16_t y[], i64_t yl) {
 
 obj_p index_in_i16_i32(i16_t x[], i64_t xl, i32_t y[], i64_t yl) {
     i64_t i, range;
-    i32_t min, val;
+    i64_t min, val;
     i8_t *s, *r;
     obj_p set, vec;
 
@@ -884,7 +891,7 @@ obj_p index_in_i16_i32(i16_t x[], i64_t xl, i32_t y[], i64_t yl) {
             s[0] = B8_TRUE;
         else {
             val = y[i] - min;
-            if (val > 0 && val < (i32_t)range)
+            if (val > 0 && val < range)
                 s[val] = B8_TRUE;
         }
     }
@@ -921,9 +928,9 @@ obj_p index_in_i16_i64(i16_t x[], i64_t xl, i64_t y[], i64_t yl) {
         if (y[i] == NULL_I64)
             s[0] = B8_TRUE;
         else {
-            val = y[i] - min;
-            if (val > 0 && val < (i64_t)range)
-                s[val] = B8_TRUE;
+            val = y[i];
+            if (val > min && val < -min)
+                s[val - min] = B8_TRUE;
         }
     }
 
@@ -944,7 +951,7 @@ obj_p index_in_i32_i8(i32_t x[], i64_t xl, i8_t y[], i64_t yl) {
     i8_t min, *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -955,13 +962,13 @@ obj_p index_in_i32_i8(i32_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        val = y[i] - min;
+        s[(u8_t)y[i] - min] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++) {
-        val = x[i] - min;
+        val = x[i];
         if (val >= 0 && val < (i32_t)range)
             r[i] = s[val];
         else
@@ -975,7 +982,7 @@ obj_p index_in_i32_i8(i32_t x[], i64_t xl, i8_t y[], i64_t yl) {
 
 obj_p index_in_i32_i16(i32_t x[], i64_t xl, i16_t y[], i64_t yl) {
     i64_t i, range;
-    i32_t min, val;
+    i64_t min, val;
     i8_t *s, *r;
     obj_p set, vec;
 
@@ -1000,7 +1007,7 @@ obj_p index_in_i32_i16(i32_t x[], i64_t xl, i16_t y[], i64_t yl) {
             r[i] = s[0];
         else {
             val = x[i] - min;
-            if (val > 0 && val < (i32_t)range)
+            if (val > 0 && val < range)
                 r[i] = s[val];
             else
                 r[i] = B8_FALSE;
@@ -1030,12 +1037,12 @@ obj_p index_in_i32_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
     vec = B8(xl);
     r = AS_B8(vec);
 
-    if (min > max) {
+    if (yl == 0 || min > max) {
         memset(r, 0, xl);
         return vec;
     }
 
-    range = max - min + 1;
+    range = index_range(min, max);
 
     if (range <= MAX_RANGE) {
         set = B8(range);
@@ -1043,15 +1050,13 @@ obj_p index_in_i32_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
         memset(s, 0, range);
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
-            if (val >= 0 && val < (i64_t)range)
-                s[val] = B8_TRUE;
+            if (y[i] >= min && y[i] <= max)
+                s[y[i] - min] = B8_TRUE;
         }
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
-            if (val >= 0 && val < (i64_t)range)
-                r[i] = s[val];
+            if (x[i] >= min && x[i] <= max)
+                r[i] = s[x[i] - min];
             else
                 r[i] = B8_FALSE;
         }
@@ -1081,7 +1086,7 @@ obj_p index_in_i32_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
 
 obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
     i64_t i, range;
-    i64_t val, min, max;
+    i64_t min, max;
     obj_p vec, set;
     i8_t *s, *r;
 
@@ -1097,12 +1102,12 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
     vec = B8(xl);
     r = AS_B8(vec);
 
-    if (min > max) {
+    if (yl == 0 || min > max) {
         memset(r, 0, xl);
         return vec;
     }
 
-    range = max - min + 1;
+    range = index_range(min, max);
 
     if (range <= MAX_RANGE) {
         set = B8(range);
@@ -1110,15 +1115,13 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
         memset(s, 0, range);
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
-            if (val >= 0 && val < (i64_t)range)
-                s[val] = B8_TRUE;
+            if (y[i] >= min && y[i] <= max)
+                s[y[i] - min] = B8_TRUE;
         }
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
-            if (val >= 0 && val < (i64_t)range)
-                r[i] = s[val];
+            if (x[i] >= min && x[i] <= max)
+                r[i] = s[x[i] - min];
             else
                 r[i] = B8_FALSE;
         }
@@ -1152,7 +1155,7 @@ obj_p index_in_i64_i8(i64_t x[], i64_t xl, i8_t y[], i64_t yl) {
     b8_t *s, *r;
     obj_p set, vec;
 
-    min = -128;
+    min = 0;
     range = 256;
 
     if (xl == 0)
@@ -1163,13 +1166,13 @@ obj_p index_in_i64_i8(i64_t x[], i64_t xl, i8_t y[], i64_t yl) {
     memset(s, 0, range);
 
     for (i = 0; i < yl; i++)
-        s[y[i] - min] = B8_TRUE;
+        s[(u8_t)y[i] - min] = B8_TRUE;
 
     vec = B8(xl);
     r = AS_B8(vec);
 
     for (i = 0; i < xl; i++) {
-        val = x[i] - min;
+        val = x[i];
         if (val >= 0 && val < (i64_t)range)
             r[i] = s[val];
         else
@@ -1207,9 +1210,9 @@ obj_p index_in_i64_i16(i64_t x[], i64_t xl, i16_t y[], i64_t yl) {
         if (x[i] == NULL_I64)
             r[i] = s[0];
         else {
-            val = x[i] - min;
-            if (val > 0 && val < (i64_t)range)
-                r[i] = s[val];
+            val = x[i];
+            if (val > min && val < -min)
+                r[i] = s[val - min];
             else
                 r[i] = B8_FALSE;
         }
@@ -1222,7 +1225,7 @@ obj_p index_in_i64_i16(i64_t x[], i64_t xl, i16_t y[], i64_t yl) {
 
 obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
     i64_t i, range;
-    i64_t val, min, max;
+    i64_t min, max;
     obj_p vec, set;
     i8_t *s, *r;
 
@@ -1238,12 +1241,12 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
     vec = B8(xl);
     r = AS_B8(vec);
 
-    if (min > max) {
+    if (yl == 0 || min > max) {
         memset(r, 0, xl);
         return vec;
     }
 
-    range = max - min + 1;
+    range = index_range(min, max);
 
     if (range <= MAX_RANGE) {
         set = B8(range);
@@ -1251,15 +1254,13 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
         memset(s, 0, range);
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
-            if (val >= 0 && val < (i64_t)range)
-                s[val] = B8_TRUE;
+            if (y[i] >= min && y[i] <= max)
+                s[y[i] - min] = B8_TRUE;
         }
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
-            if (val >= 0 && val < (i64_t)range)
-                r[i] = s[val];
+            if (x[i] >= min && x[i] <= max)
+                r[i] = s[x[i] - min];
             else
                 r[i] = B8_FALSE;
         }
@@ -1290,7 +1291,7 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
 
 obj_p index_in_i64_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     i64_t i, range;
-    i64_t val, min, max;
+    i64_t min, max;
     obj_p vec, set;
     i8_t *s, *r;
     b8_t nl = B8_FALSE;
@@ -1307,14 +1308,12 @@ obj_p index_in_i64_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     vec = B8(xl);
     r = AS_B8(vec);
 
-    if (min > max) {
+    if (yl == 0 || min > max) {
         memset(r, 0, xl);
         return vec;
     }
 
-    // TODO: fix this
-    __int128 rng = (__int128)max - (__int128)min;
-    range = rng > (__int128)MAX_RANGE ? INF_I64 : (i64_t)rng + 1;
+    range = index_range(min, max);
 
     if (range <= MAX_RANGE) {
         set = B8(range);
@@ -1322,15 +1321,13 @@ obj_p index_in_i64_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
         memset(s, 0, range);
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
-            if (val >= 0 && val < (i64_t)range)
-                s[val] = B8_TRUE;
+            if (y[i] >= min && y[i] <= max)
+                s[y[i] - min] = B8_TRUE;
         }
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
-            if (val >= 0 && val < (i64_t)range)
-                r[i] = s[val];
+            if (x[i] >= min && x[i] <= max)
+                r[i] = s[x[i] - min];
             else
                 r[i] = B8_FALSE;
         }
@@ -1367,28 +1364,28 @@ obj_p index_in_guid_guid(guid_t x[], i64_t xl, guid_t y[], i64_t yl) {
     __index_find_ctx_t ctx;
 
     // calc hashes
-    hs = I64(xl);
-    ht = ht_oa_create(xl, -1);
+    hs = I64(MAXI64(xl, yl));
+    ht = ht_oa_create(MAXI64(xl, yl) * 2, -1);
 
     hashes = (i64_t *)AS_I64(hs);
 
-    for (i = 0; i < xl; i++)
-        hashes[i] = hash_index_u64(*(i64_t *)(x + i), *((i64_t *)(x + i) + 1));
+    for (i = 0; i < yl; i++)
+        hashes[i] = hash_index_u64(*(i64_t *)(y + i), *((i64_t *)(y + i) + 1));
 
-    ctx = (__index_find_ctx_t){.lobj = x, .robj = x, .hashes = hashes};
-    for (i = 0; i < xl; i++) {
+    ctx = (__index_find_ctx_t){.lobj = y, .robj = y, .hashes = hashes};
+    for (i = 0; i < yl; i++) {
         idx = ht_oa_tab_next_with(&ht, i, &__hash_get, &__hash_cmp_guid, &ctx);
         if (AS_I64(AS_LIST(ht)[0])[idx] == NULL_I64)
             AS_I64(AS_LIST(ht)[0])[idx] = i;
     }
 
-    for (i = 0; i < yl; i++)
-        hashes[i] = hash_index_u64(*(i64_t *)(y + i), *((i64_t *)(y + i) + 1));
+    for (i = 0; i < xl; i++)
+        hashes[i] = hash_index_u64(*(i64_t *)(x + i), *((i64_t *)(x + i) + 1));
 
-    res = B8(yl);
+    res = B8(xl);
 
-    ctx = (__index_find_ctx_t){.lobj = x, .robj = y, .hashes = hashes};
-    for (i = 0; i < yl; i++) {
+    ctx = (__index_find_ctx_t){.lobj = y, .robj = x, .hashes = hashes};
+    for (i = 0; i < xl; i++) {
         idx = ht_oa_tab_get_with(ht, i, &__hash_get, &__hash_cmp_guid, &ctx);
         AS_B8(res)[i] = idx != NULL_I64;
     }
@@ -1452,13 +1449,13 @@ obj_p index_find_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
     vec = I64(yl);
     r = AS_I64(vec);
 
-    if (min > max) {
+    if (yl == 0 || min > max) {
         for (i = 0; i < yl; i++)
             r[i] = NULL_I64;
         return vec;
     }
 
-    range = max - min + 1;
+    range = index_range(min, max);
 
     if (range <= MAX_RANGE) {
         dict = I64(range);
@@ -1468,14 +1465,12 @@ obj_p index_find_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
             d[i] = NULL_I64;
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
-            if (val >= 0 && val < (i64_t)range && d[val] == NULL_I64)
-                d[val] = (i64_t)i;
+            if (x[i] >= min && x[i] <= max && d[x[i] - min] == NULL_I64)
+                d[x[i] - min] = i;
         }
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
-            r[i] = (val < 0 || val >= (i64_t)range) ? NULL_I64 : d[val];
+            r[i] = (y[i] < min || y[i] > max) ? NULL_I64 : d[y[i] - min];
         }
 
         drop_obj(dict);
@@ -1484,7 +1479,7 @@ obj_p index_find_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
     }
 
     // otherwise, use a hash table
-    dict = ht_oa_create(xl, TYPE_I32);
+    dict = ht_oa_create(xl, TYPE_I64);
 
     for (i = 0; i < xl; i++) {
         val = ht_oa_tab_next(&dict, (i64_t)x[i]);
@@ -1506,7 +1501,7 @@ obj_p index_find_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
 
 obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     i64_t i, range;
-    i64_t min, max, val, *d, *r;
+    i64_t min, max, val, *d, *r, nl = NULL_I64;
     obj_p vec, dict;
 
     if (xl == 0)
@@ -1521,13 +1516,13 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     vec = I64(yl);
     r = AS_I64(vec);
 
-    if (min > max) {
+    if (yl == 0 || min > max) {
         for (i = 0; i < yl; i++)
             r[i] = NULL_I64;
         return vec;
     }
 
-    range = max - min + 1;
+    range = index_range(min, max);
 
     if (range <= MAX_RANGE) {
         dict = I64(range);
@@ -1537,14 +1532,12 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
             d[i] = NULL_I64;
 
         for (i = 0; i < xl; i++) {
-            val = x[i] - min;
-            if (val >= 0 && val < (i64_t)range && d[val] == NULL_I64)
-                d[val] = (i64_t)i;
+            if (x[i] >= min && x[i] <= max && d[x[i] - min] == NULL_I64)
+                d[x[i] - min] = i;
         }
 
         for (i = 0; i < yl; i++) {
-            val = y[i] - min;
-            r[i] = (val < 0 || val >= (i64_t)range) ? NULL_I64 : d[val];
+            r[i] = (y[i] < min || y[i] > max) ? NULL_I64 : d[y[i] - min];
         }
 
         drop_obj(dict);
@@ -1556,6 +1549,13 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     dict = ht_oa_create(xl, TYPE_I64);
 
     for (i = 0; i < xl; i++) {
+        // null marks the empty slots of the table, so it is kept aside
+        if (x[i] == NULL_I64) {
+            if (nl == NULL_I64)
+                nl = i;
+            continue;
+        }
+
         val = ht_oa_tab_next(&dict, x[i]);
         if (AS_I64(AS_LIST(dict)[0])[val] == NULL_I64) {
             AS_I64(AS_LIST(dict)[0])[val] = x[i];
@@ -1564,6 +1564,11 @@ obj_p index_find_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     }
 
     for (i = 0; i < yl; i++) {
+        if (y[i] == NULL_I64) {
+            r[i] = nl;
+            continue;
+        }
+
         val = ht_oa_tab_get(dict, y[i]);
         r[i] = val == NULL_I64 ? NULL_I64 : AS_I64(AS_LIST(dict)[1])[val];
     }
diff --git a/core/rayforce.c b/core/rayforce.c
index 5e798df..65b55d5 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1684,15 +1684,19 @@ i64_t find_obj_idx(obj_p obj, obj_p val) {
             return find_raw(obj, &val->i16);
         case MTYPE2(TYPE_I16, -TYPE_I32):
             vi32 = val->i32;
-            vi16 = (i16_t)vi32;
+            vi16 = (vi32 == NULL_I32) ? NULL_I16 : (i16_t)vi32;
+            if (vi32 != NULL_I32 && (vi16 != vi32 || vi16 == NULL_I16))
+                return NULL_I64;
             return find_raw(obj, &vi16);
         case MTYPE2(TYPE_I16, -TYPE_I64):
             vi64 = val->i64;
-            vi16 = (i16_t)vi64;
+            vi16 = (vi64 == NULL_I64) ? NULL_I16 : (i16_t)vi64;
+            if (vi64 != NULL_I64 && (vi16 != vi64 || vi16 == NULL_I16))
+                return NULL_I64;
             return find_raw(obj, &vi16);
         case MTYPE2(TYPE_I32, -TYPE_I16):
             vi16 = val->i16;
-            vi32 = (i32_t)vi16;
+            vi32 = (vi16 == NULL_I16) ? NULL_I32 : (i32_t)vi16;
             return find_raw(obj, &vi32);
         case MTYPE2(TYPE_I32, -TYPE_I32):
         case MTYPE2(TYPE_DATE, -TYPE_DATE):
@@ -1700,15 +1704,17 @@ i64_t find_obj_idx(obj_p obj, obj_p val) {
             return find_raw(obj, &val->i32);
         case MTYPE2(TYPE_I32, -TYPE_I64):
             vi64 = val->i64;
-            vi32 = (i32_t)vi64;
+            vi32 = (vi64 == NULL_I64) ? NULL_I32 : (i32_t)vi64;
+            if (vi64 != NULL_I64 && (vi32 != vi64 || vi32 == NULL_I32))
+                return NULL_I64;
             return find_raw(obj, &vi32);
         case MTYPE2(TYPE_I64, -TYPE_I16):
             vi16 = val->i16;
-            vi64 = (i64_t)vi16;
+            vi64 = (vi16 == NULL_I16) ? NULL_I64 : (i64_t)vi16;
             return find_raw(obj, &vi64);
         case MTYPE2(TYPE_I64, -TYPE_I32):
             vi32 = val->i32;
-            vi64 = (i64_t)vi32;
+            vi64 = (vi32 == NULL_I32) ? NULL_I64 : (i64_t)vi32;
             return find_raw(obj, &vi64);
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_SYMBOL):
@@ -2180,6 +2186,15 @@ b8_t is_null(obj_p obj) {
     }
 }
 
+// Order of floats: null first, values closer than the tolerance are equal
+static i64_t cmp_f64(f64_t x, f64_t y) {
+    if (ISNANF64(x) || ISNANF64(y))
+        return !ISNANF64(x) - !ISNANF64(y);
+    if (x == y || ABSF64(x - y) < 1e-16)
+        return 0;
+    return x < y ? -1 : 1;
+}
+
 i64_t cmp_obj(obj_p a, obj_p b) {
     i64_t i, l, d;
     obj_p obj_a, obj_b;
@@ -2243,10 +2258,7 @@ i64_t cmp_obj(obj_p a, obj_p b) {
             str_b = str_from_symbol(b->i64);
             return strcmp(str_a, str_b);
         case -TYPE_F64:
-            return (ISNANF64(a->f64) && ISNANF64(b->f64))   ? 0
-                   : (ISNANF64(a->f64) || ISNANF64(b->f64)) ? 1
-                   : (ABSF64(a->f64 - b->f64) < 1e-16)      ? 0
-                                                            : 1;
+            return cmp_f64(a->f64, b->f64);
         case -TYPE_GUID:
             return memcmp(AS_GUID(a), AS_GUID(b), sizeof(guid_t));
         case TYPE_B8:
@@ -2261,7 +2273,7 @@ i64_t cmp_obj(obj_p a, obj_p b) {
         case TYPE_I16:
             l = a->len < b->len ? a->len : b->len;
             for (i = 0; i < l; i++) {
-                d = (i64_t)(AS_I16(a)[i] - AS_I16(b)[i]);
+                d = (i64_t)AS_I16(a)[i] - (i64_t)AS_I16(b)[i];
                 if (d != 0)
                     return d;
             }
@@ -2272,7 +2284,7 @@ i64_t cmp_obj(obj_p a, obj_p b) {
         case TYPE_TIME:
             l = a->len < b->len ? a->len : b->len;
             for (i = 0; i < l; i++) {
-                d = (i64_t)(AS_I32(a)[i] - AS_I32(b)[i]);
+                d = (i64_t)AS_I32(a)[i] - (i64_t)AS_I32(b)[i];
                 if (d != 0)
                     return d;
             }
@@ -2302,10 +2314,7 @@ i64_t cmp_obj(obj_p a, obj_p b) {
         case TYPE_F64:
             l = a->len < b->len ? a->len : b->len;
             for (i = 0; i < l; i++) {
-                d = (ISNANF64(AS_F64(a)[i]) && ISNANF64(AS_F64(b)[i]))   ? 0
-                    : (ISNANF64(AS_F64(a)[i]) || ISNANF64(AS_F64(b)[i])) ? 1
-                    : (ABSF64(AS_F64(a)[i] - AS_F64(b)[i]) < 1e-16)      ? 0
-                                                                         : 1;
+                d = cmp_f64(AS_F64(a)[i], AS_F64(b)[i]);
                 if (d != 0)
                     return d;
             }
-- 
2.43.0


From 261c0c1281b232a603cc21716f492bbc0ecf9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 051/102] fix: grouping with null keys, empty selections, enum
 and i16 columns; group order no longer depends on threads; in could write to
 a released table

---
 core/index.c | 192 +++++++++++++++++++++++++--------------------------
 core/ops.c   |   6 +-
 2 files changed, 99 insertions(+), 99 deletions(-)

diff --git a/core/index.c b/core/index.c
index d3df914..fbcf39e 100644
--- a/core/index.c
+++ b/core/index.c
@@ -74,7 +74,7 @@ i64_t __index_list_cmp_row(i64_t row1, i64_t row2, raw_p seed) {
         rc = rcols[i];
         
         // Inline comparison for common i64 types (avoid ops_eq_idx call overhead)
-        switch (lc->type) {
+        switch (lc->type == rc->type ? lc->type : TYPE_NULL) {
             case TYPE_I64:
             case TYPE_SYMBOL:
             case TYPE_TIMESTAMP:
@@ -106,6 +106,7 @@ i64_t __index_list_cmp_row(i64_t row1, i64_t row2, raw_p seed) {
 
 obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len, i64_t offset, b8_t resolve) {
     u8_t *u8v;
+    i16_t *i16v;
     i32_t *i32v;
     guid_t *g64v;
     i64_t i, *u64v;
@@ -140,6 +141,15 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
                 for (i = offset; i < len + offset; i++)
                     out[i] = hash_index_u64((i64_t)u8v[i], out[i]);
             break;
+        case TYPE_I16:
+            i16v = AS_I16(obj);
+            if (filter)
+                for (i = offset; i < len + offset; i++)
+                    out[i] = hash_index_u64((i64_t)i16v[filter[i]], out[i]);
+            else
+                for (i = offset; i < len + offset; i++)
+                    out[i] = hash_index_u64((i64_t)i16v[i], out[i]);
+            break;
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -238,7 +248,8 @@ obj_p index_hash_obj_partial(obj_p obj, i64_t out[], i64_t filter[], i64_t len,
                 }
             break;
         default:
-            PANIC("type: %d", obj->type);
+            // values of the remaining types share one hash: rows are compared anyway
+            break;
     }
 
     return NULL_OBJ;
@@ -677,6 +688,13 @@ obj_p index_distinct_obj(obj_p values[], i64_t len) {
     return vec;
 }
 
+// The table may be replaced by the lookup, so its keys are taken after it
+static nil_t index_set_add(obj_p *set, i64_t key) {
+    i64_t idx = ht_oa_tab_next(set, key);
+
+    AS_I64(AS_LIST(*set)[0])[idx] = key;
+}
+
 obj_p index_in_i8_i8(i8_t x[], i64_t xl, i8_t y[], i64_t yl) {
     i64_t i, range;
     i8_t min, *s, *r;
@@ -1067,7 +1085,7 @@ obj_p index_in_i32_i32(i32_t x[], i64_t xl, i32_t y[], i64_t yl) {
     }
 
     // otherwise, use a hash table
-    set = ht_oa_create(xl, -1);
+    set = ht_oa_create(yl, -1);
 
     for (i = 0; i < yl; i++) {
         val = ht_oa_tab_next(&set, (i64_t)y[i]);
@@ -1132,13 +1150,13 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
     }
 
     // otherwise, use a hash table
-    set = ht_oa_create(xl, -1);
+    set = ht_oa_create(yl, -1);
 
     for (i = 0; i < yl; i++)
         if (y[i] == NULL_I64)
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, (i64_t)NULL_I32)] = (i64_t)NULL_I32;
+            index_set_add(&set, (i64_t)NULL_I32);
         else if (y[i] > (i64_t)NULL_I32 && y[i] <= (i64_t)INF_I32)
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, y[i])] = y[i];
+            index_set_add(&set, y[i]);
 
     for (i = 0; i < xl; i++)
         r[i] = ht_oa_tab_get(set, (i64_t)x[i]) != NULL_I64;
@@ -1271,10 +1289,10 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
     }
 
     // otherwise, use a hash table
-    set = ht_oa_create(xl, -1);
+    set = ht_oa_create(yl, -1);
 
     for (i = 0; i < yl; i++)
-        AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, (i64_t)y[i])] = (i64_t)y[i];
+        index_set_add(&set, y[i]);
 
     for (i = 0; i < xl; i++)
         if (x[i] == NULL_I64)
@@ -1338,13 +1356,13 @@ obj_p index_in_i64_i64(i64_t x[], i64_t xl, i64_t y[], i64_t yl) {
     }
 
     // otherwise, use a hash table
-    set = ht_oa_create(xl, -1);
+    set = ht_oa_create(yl, -1);
 
     for (i = 0; i < yl; i++)
         if (y[i] == NULL_I64)
             nl = B8_TRUE;
         else
-            AS_I64(AS_LIST(set)[0])[ht_oa_tab_next(&set, y[i])] = y[i];
+            index_set_add(&set, y[i]);
 
     for (i = 0; i < xl; i++)
         if (x[i] == NULL_I64)
@@ -1709,61 +1727,58 @@ typedef struct __group_chunk_ctx_t {
     i64_t *filter;
     i64_t *out;
     i64_t *local_groups;  // per-chunk group count
+    i64_t *local_nulls;   // per-chunk group of the null key
     hash_f hash;
     cmp_f cmp;
     obj_p *local_hts;   // per-chunk hash tables
     i64_t chunk_size;   // size of each chunk (for computing chunk index)
 } __group_chunk_ctx_t;
 
+// Group of the key n, a new one if it is not known yet. Null marks the empty slots of the table, so its group is kept aside
+static i64_t index_group_next(obj_p *ht, i64_t n, i64_t *null_group, i64_t *groups, hash_f hash, cmp_f cmp) {
+    i64_t idx, *k, *v;
+
+    if (n == NULL_I64) {
+        if (*null_group == NULL_I64)
+            *null_group = (*groups)++;
+
+        return *null_group;
+    }
+
+    idx = ht_oa_tab_next_with(ht, n, hash, cmp, NULL);
+    k = AS_I64(AS_LIST(*ht)[0]);
+    v = AS_I64(AS_LIST(*ht)[1]);
+
+    if (k[idx] == NULL_I64) {
+        k[idx] = n;
+        v[idx] = (*groups)++;
+    }
+
+    return v[idx];
+}
+
 // Phase 1: Each chunk builds its own local hash table and assigns local group IDs
 obj_p index_group_chunk_local(i64_t len, i64_t offset, __group_chunk_ctx_t *ctx) {
-    i64_t i, idx, n, groups;
-    i64_t *k, *v, *keys, *filter, *out;
+    i64_t i, n, groups, nulls;
+    i64_t *keys, *filter, *out;
     obj_p ht;
-    hash_f hash;
-    cmp_f cmp;
 
     keys = ctx->keys;
     filter = ctx->filter;
     out = ctx->out;
-    hash = ctx->hash;
-    cmp = ctx->cmp;
 
     ht = ht_oa_create(len, TYPE_I64);
     groups = 0;
+    nulls = NULL_I64;
 
-    if (filter) {
-        for (i = offset; i < offset + len; i++) {
-            n = keys[filter[i]];
-            idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
-            k = AS_I64(AS_LIST(ht)[0]);
-            v = AS_I64(AS_LIST(ht)[1]);
-
-            if (k[idx] == NULL_I64) {
-                k[idx] = n;
-                v[idx] = groups++;
-            }
-
-            out[i] = v[idx];
-        }
-    } else {
-        for (i = offset; i < offset + len; i++) {
-            n = keys[i];
-            idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
-            k = AS_I64(AS_LIST(ht)[0]);
-            v = AS_I64(AS_LIST(ht)[1]);
-
-            if (k[idx] == NULL_I64) {
-                k[idx] = n;
-                v[idx] = groups++;
-            }
-
-            out[i] = v[idx];
-        }
+    for (i = offset; i < offset + len; i++) {
+        n = filter ? keys[filter[i]] : keys[i];
+        out[i] = index_group_next(&ht, n, &nulls, &groups, ctx->hash, ctx->cmp);
     }
 
     i64_t chunk_idx = offset / ctx->chunk_size;
     ctx->local_groups[chunk_idx] = groups;
+    ctx->local_nulls[chunk_idx] = nulls;
     ctx->local_hts[chunk_idx] = ht;
 
     return NULL_OBJ;
@@ -1781,8 +1796,8 @@ obj_p index_group_chunk_remap(i64_t len, i64_t offset, i64_t *out, i64_t *remap)
 
 i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t len, hash_f hash, cmp_f cmp) {
     i64_t i, j, parts, groups, chunk, last_chunk;
-    i64_t idx, n, *k, *v, *remap;
-    i64_t offsets[32], local_groups[32];  // Support up to 32 chunks
+    i64_t n, nulls, *remap;
+    i64_t offsets[32], local_groups[32], local_nulls[32];  // Support up to 32 chunks
     obj_p local_hts[32];
     pool_p pool;
     obj_p ht, merged_ht, res;
@@ -1795,35 +1810,11 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
     // Single-threaded path
     if (parts == 1) {
         ht = ht_oa_create(len, TYPE_I64);
+        nulls = NULL_I64;
 
-        if (filter) {
-            for (i = 0; i < len; i++) {
-                n = keys[filter[i]];
-                idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
-                k = AS_I64(AS_LIST(ht)[0]);
-                v = AS_I64(AS_LIST(ht)[1]);
-
-                if (k[idx] == NULL_I64) {
-                    k[idx] = n;
-                    v[idx] = groups++;
-                }
-
-                out[i] = v[idx];
-            }
-        } else {
-            for (i = 0; i < len; i++) {
-                n = keys[i];
-                idx = ht_oa_tab_next_with(&ht, n, hash, cmp, NULL);
-                k = AS_I64(AS_LIST(ht)[0]);
-                v = AS_I64(AS_LIST(ht)[1]);
-
-                if (k[idx] == NULL_I64) {
-                    k[idx] = n;
-                    v[idx] = groups++;
-                }
-
-                out[i] = v[idx];
-            }
+        for (i = 0; i < len; i++) {
+            n = filter ? keys[filter[i]] : keys[i];
+            out[i] = index_group_next(&ht, n, &nulls, &groups, hash, cmp);
         }
 
         drop_obj(ht);
@@ -1843,6 +1834,7 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
     ctx.filter = filter;
     ctx.out = out;
     ctx.local_groups = local_groups;
+    ctx.local_nulls = local_nulls;
     ctx.hash = hash;
     ctx.cmp = cmp;
     ctx.local_hts = local_hts;
@@ -1851,6 +1843,7 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
     // Initialize
     for (i = 0; i < parts; i++) {
         local_groups[i] = 0;
+        local_nulls[i] = NULL_I64;
         local_hts[i] = NULL_OBJ;
         offsets[i] = i * chunk;
     }
@@ -1867,6 +1860,7 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
     // This is O(total_unique_keys) which is typically much smaller than O(n)
     merged_ht = ht_oa_create(len, TYPE_I64);
     groups = 0;
+    nulls = NULL_I64;
 
     // For each chunk, create a remap array and merge its unique keys
     for (i = 0; i < parts; i++) {
@@ -1881,24 +1875,17 @@ i64_t index_group_distribute(i64_t keys[], i64_t filter[], i64_t out[], i64_t le
         // Create remap array for this chunk's local IDs -> global IDs
         remap = (i64_t *)heap_alloc(local_groups[i] * sizeof(i64_t));
 
-        for (j = 0; j < ht_len; j++) {
-            if (ht_keys[j] != NULL_I64) {
-                i64_t local_id = ht_vals[j];
-                n = ht_keys[j];
-
-                // Check if this key exists in merged table
-                idx = ht_oa_tab_next_with(&merged_ht, n, hash, cmp, NULL);
-                k = AS_I64(AS_LIST(merged_ht)[0]);
-                v = AS_I64(AS_LIST(merged_ht)[1]);
+        // Collect the keys by their local IDs, then merge them in that order: chunk by chunk it is the order
+        // of their first appearance, whatever the number of chunks
+        for (j = 0; j < ht_len; j++)
+            if (ht_keys[j] != NULL_I64)
+                remap[ht_vals[j]] = ht_keys[j];
 
-                if (k[idx] == NULL_I64) {
-                    k[idx] = n;
-                    v[idx] = groups++;
-                }
+        if (local_nulls[i] != NULL_I64)
+            remap[local_nulls[i]] = NULL_I64;
 
-                remap[local_id] = v[idx];
-            }
-        }
+        for (j = 0; j < local_groups[i]; j++)
+            remap[j] = index_group_next(&merged_ht, remap[j], &nulls, &groups, hash, cmp);
 
         // Remap this chunk's output values
         i64_t chunk_start = offsets[i];
@@ -2330,6 +2317,9 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
     indices = is_null(filter) ? NULL : AS_I64(filter);
     len = indices ? filter->len : values[0]->len;
 
+    if (len == 0)
+        return NULL_OBJ;
+
     // First, check if columns types are suitable for perfect hashing
     for (i = 0; i < l; i++) {
         switch (values[i]->type) {
@@ -2361,9 +2351,11 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
             case TYPE_I64:
             case TYPE_SYMBOL:
             case TYPE_TIMESTAMP:
-            case TYPE_ENUM:
                 scopes[i] = index_scope_i64(AS_I64(values[i]), indices, len);
                 break;
+            case TYPE_ENUM:
+                scopes[i] = index_scope_i64(AS_I64(ENUM_VAL(values[i])), indices, len);
+                break;
             default:
                 __builtin_unreachable();
         }
@@ -2373,7 +2365,7 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
     // Use signed max to avoid overflow in scope.range (which is i64_t)
     for (i = 0, product = 1, scope = (index_scope_t){0, 0, 0}; i < l; i++) {
         // Check for overflow - product must stay within signed i64 range
-        if (product > (u64_t)LLONG_MAX / (u64_t)scopes[i].range) {
+        if (scopes[i].range == INF_I64 || product > (u64_t)LLONG_MAX / (u64_t)scopes[i].range) {
             heap_free(scopes);
             return NULL_OBJ;  // Overflow would occur
         }
@@ -2711,13 +2703,19 @@ obj_p index_group_list_radix(obj_p obj, obj_p filter, i64_t *hashes, i64_t len)
         xo[i] += group_offsets[hashes[i] & RADIX_MASK];
     }
     
-    // Compact first_ids from partitioned layout to sequential layout
+    // Renumber the groups in the order of their first appearance: the same as without threads
     obj_p firsts = I64(total_groups);
     i64_t *firsts_arr = AS_I64(firsts);
-    for (p = 0; p < RADIX_PARTITIONS; p++) {
-        memcpy(firsts_arr + group_offsets[p], 
-               first_ids + partition_first_base[p], 
-               partition_groups[p] * sizeof(i64_t));
+    i64_t *order = first_ids;  // Reuse array
+    i64_t groups = 0;
+    for (i = 0; i < total_groups; i++)
+        order[i] = NULL_I64;
+    for (i = 0; i < len; i++) {
+        if (order[xo[i]] == NULL_I64) {
+            order[xo[i]] = groups;
+            firsts_arr[groups++] = i;
+        }
+        xo[i] = order[xo[i]];
     }
     timeit_tick("radix remap");
 
diff --git a/core/ops.c b/core/ops.c
index a859406..fbabcc6 100644
--- a/core/ops.c
+++ b/core/ops.c
@@ -118,6 +118,8 @@ b8_t ops_eq_idx(obj_p a, i64_t ai, obj_p b, i64_t bi) {
         case MTYPE2(TYPE_B8, TYPE_B8):
         case MTYPE2(TYPE_C8, TYPE_C8):
             return AS_U8(a)[ai] == AS_U8(b)[bi];
+        case MTYPE2(TYPE_I16, TYPE_I16):
+            return AS_I16(a)[ai] == AS_I16(b)[bi];
         case MTYPE2(TYPE_I32, TYPE_I32):
         case MTYPE2(TYPE_DATE, TYPE_DATE):
         case MTYPE2(TYPE_TIME, TYPE_TIME):
@@ -129,7 +131,7 @@ b8_t ops_eq_idx(obj_p a, i64_t ai, obj_p b, i64_t bi) {
         case MTYPE2(TYPE_F64, -TYPE_F64):
             return AS_F64(a)[ai] == b->f64;
         case MTYPE2(TYPE_F64, TYPE_F64):
-            return AS_F64(a)[ai] == AS_F64(b)[bi];
+            return AS_F64(a)[ai] == AS_F64(b)[bi] || (ISNANF64(AS_F64(a)[ai]) && ISNANF64(AS_F64(b)[bi]));
         case MTYPE2(TYPE_GUID, -TYPE_GUID):
             return memcmp(AS_GUID(a) + ai, AS_GUID(b), sizeof(guid_t)) == 0;
         case MTYPE2(TYPE_GUID, TYPE_GUID):
@@ -162,7 +164,7 @@ b8_t ops_eq_idx(obj_p a, i64_t ai, obj_p b, i64_t bi) {
             drop_obj(rv);
             return eq;
         default:
-            PANIC("type: %d", a->type);
+            return B8_FALSE;  // values of different types are never equal
     }
 }
 
-- 
2.43.0


From a1274fbe77d909031ec3f5d01de3b79126749571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 052/102] fix: in between i32 and i64 vectors missed nulls

---
 core/index.c | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/core/index.c b/core/index.c
index fbcf39e..d838b59 100644
--- a/core/index.c
+++ b/core/index.c
@@ -1107,6 +1107,7 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
     i64_t min, max;
     obj_p vec, set;
     i8_t *s, *r;
+    b8_t nl = B8_FALSE;
 
     if (xl == 0)
         return B8(0);
@@ -1120,8 +1121,13 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
     vec = B8(xl);
     r = AS_B8(vec);
 
+    // nulls of the two types differ, so they are matched apart from the values
+    for (i = 0; i < yl && !nl; i++)
+        nl = y[i] == NULL_I64;
+
     if (yl == 0 || min > max) {
-        memset(r, 0, xl);
+        for (i = 0; i < xl; i++)
+            r[i] = nl && x[i] == NULL_I32;
         return vec;
     }
 
@@ -1133,12 +1139,14 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
         memset(s, 0, range);
 
         for (i = 0; i < yl; i++) {
-            if (y[i] >= min && y[i] <= max)
+            if (y[i] != NULL_I64 && y[i] >= min && y[i] <= max)
                 s[y[i] - min] = B8_TRUE;
         }
 
         for (i = 0; i < xl; i++) {
-            if (x[i] >= min && x[i] <= max)
+            if (x[i] == NULL_I32)
+                r[i] = nl;
+            else if (x[i] >= min && x[i] <= max)
                 r[i] = s[x[i] - min];
             else
                 r[i] = B8_FALSE;
@@ -1153,13 +1161,11 @@ obj_p index_in_i32_i64(i32_t x[], i64_t xl, i64_t y[], i64_t yl) {
     set = ht_oa_create(yl, -1);
 
     for (i = 0; i < yl; i++)
-        if (y[i] == NULL_I64)
-            index_set_add(&set, (i64_t)NULL_I32);
-        else if (y[i] > (i64_t)NULL_I32 && y[i] <= (i64_t)INF_I32)
-            index_set_add(&set, y[i]);
+        if (y[i] != NULL_I64)
+            index_set_add(&set, (i64_t)y[i]);
 
     for (i = 0; i < xl; i++)
-        r[i] = ht_oa_tab_get(set, (i64_t)x[i]) != NULL_I64;
+        r[i] = x[i] == NULL_I32 ? nl : ht_oa_tab_get(set, (i64_t)x[i]) != NULL_I64;
 
     drop_obj(set);
 
@@ -1246,6 +1252,7 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
     i64_t min, max;
     obj_p vec, set;
     i8_t *s, *r;
+    b8_t nl = B8_FALSE;
 
     if (xl == 0)
         return B8(0);
@@ -1259,8 +1266,13 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
     vec = B8(xl);
     r = AS_B8(vec);
 
+    // nulls of the two types differ, so they are matched apart from the values
+    for (i = 0; i < yl && !nl; i++)
+        nl = y[i] == NULL_I32;
+
     if (yl == 0 || min > max) {
-        memset(r, 0, xl);
+        for (i = 0; i < xl; i++)
+            r[i] = nl && x[i] == NULL_I64;
         return vec;
     }
 
@@ -1272,12 +1284,14 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
         memset(s, 0, range);
 
         for (i = 0; i < yl; i++) {
-            if (y[i] >= min && y[i] <= max)
+            if (y[i] != NULL_I32 && y[i] >= min && y[i] <= max)
                 s[y[i] - min] = B8_TRUE;
         }
 
         for (i = 0; i < xl; i++) {
-            if (x[i] >= min && x[i] <= max)
+            if (x[i] == NULL_I64)
+                r[i] = nl;
+            else if (x[i] >= min && x[i] <= max)
                 r[i] = s[x[i] - min];
             else
                 r[i] = B8_FALSE;
@@ -1292,15 +1306,11 @@ obj_p index_in_i64_i32(i64_t x[], i64_t xl, i32_t y[], i64_t yl) {
     set = ht_oa_create(yl, -1);
 
     for (i = 0; i < yl; i++)
-        index_set_add(&set, y[i]);
+        if (y[i] != NULL_I32)
+            index_set_add(&set, (i64_t)y[i]);
 
     for (i = 0; i < xl; i++)
-        if (x[i] == NULL_I64)
-            r[i] = ht_oa_tab_get(set, (i64_t)NULL_I32) != NULL_I64;
-        else if (x[i] > (i64_t)NULL_I32 && x[i] <= (i64_t)INF_I32)
-            r[i] = ht_oa_tab_get(set, x[i]) != NULL_I64;
-        else
-            r[i] = B8_FALSE;
+        r[i] = x[i] == NULL_I64 ? nl : ht_oa_tab_get(set, (i64_t)x[i]) != NULL_I64;
 
     drop_obj(set);
 
-- 
2.43.0


From fa46d0e7b49917639829707025db21abfb15b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:11 +0000
Subject: [PATCH 053/102] fix: aggregates by group skip nulls, last takes the
 last row, select without a dict keeps the query context

---
 core/aggr.c  | 193 +++++++++++++++++++++++++++++++++++++++------------
 core/query.c |   6 +-
 2 files changed, 153 insertions(+), 46 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index e876b48..77c4a9f 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -438,6 +438,48 @@ obj_p aggr_first_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p a
     }
 }
 
+// First row of each group
+obj_p aggr_first_row_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg5) {
+    i64_t len = (i64_t)arg1, offset = (i64_t)arg2;
+    obj_p val = (obj_p)arg3, index = (obj_p)arg4, res = (obj_p)arg5;
+
+    AGGR_ITER(
+        index, len, offset, val, res, u8, i64, $out[$y] = NULL_I64,
+        {
+            UNUSED($in);
+            if ($out[$y] == NULL_I64)
+                $out[$y] = $x;
+        },
+        $out[$y] = NULL_I64);
+    return res;
+}
+
+// Last row of each group
+obj_p aggr_last_row_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg5) {
+    i64_t len = (i64_t)arg1, offset = (i64_t)arg2;
+    obj_p val = (obj_p)arg3, index = (obj_p)arg4, res = (obj_p)arg5;
+
+    AGGR_ITER(
+        index, len, offset, val, res, u8, i64, $out[$y] = NULL_I64,
+        {
+            UNUSED($in);
+            $out[$y] = $x;
+        },
+        $out[$y] = NULL_I64);
+    return res;
+}
+
+// Whether the rows of each group are known by their number in the column
+static b8_t aggr_has_rows(obj_p val, obj_p index) {
+    switch (index_group_type(index)) {
+        case INDEX_TYPE_SHIFT:
+        case INDEX_TYPE_IDS:
+            return (val->type > TYPE_LIST && val->type <= TYPE_C8) || val->type == TYPE_LIST || val->type == TYPE_ENUM;
+        default:
+            return B8_FALSE;
+    }
+}
+
 obj_p aggr_first(obj_p val, obj_p index) {
     i64_t i, j, n, l;
     i64_t *xo, *xe, *first_ids, *filter_ids;
@@ -576,6 +618,17 @@ obj_p aggr_first(obj_p val, obj_p index) {
         }
     }
 
+    if (aggr_has_rows(val, index)) {
+        parts = aggr_map((raw_p)aggr_first_row_partial, val, TYPE_I64, index);
+        if (IS_ERR(parts))
+            return parts;
+        ek = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
+        drop_obj(parts);
+        res = at_ids(val, AS_I64(ek), n);
+        drop_obj(ek);
+        return res;
+    }
+
     // Slow path: iterate through all rows
     switch (val->type) {
         case TYPE_U8:
@@ -901,12 +954,23 @@ obj_p aggr_last(obj_p val, obj_p index) {
 
     n = index_group_count(index);
 
+    if (aggr_has_rows(val, index)) {
+        parts = aggr_map((raw_p)aggr_last_row_partial, val, TYPE_I64, index);
+        if (IS_ERR(parts))
+            return parts;
+        ek = AGGR_COLLECT(parts, n, i64, i64, if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
+        drop_obj(parts);
+        res = at_ids(val, AS_I64(ek), n);
+        drop_obj(ek);
+        return res;
+    }
+
     switch (val->type) {
         case TYPE_I16:
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i16, i16, if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i16, i16, if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
             res->type = val->type;
             drop_obj(parts);
             return res;
@@ -916,7 +980,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i32, i32, if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i32, i32, if ($in[$x] != NULL_I32) $out[$y] = $in[$x]);
             res->type = val->type;
             drop_obj(parts);
             return res;
@@ -927,7 +991,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, i64, i64, if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
             drop_obj(parts);
             if (val->type == TYPE_ENUM) {
                 ek = ray_key(val);
@@ -958,7 +1022,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
-            res = AGGR_COLLECT(parts, n, f64, f64, if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
+            res = AGGR_COLLECT(parts, n, f64, f64, if (!ISNANF64($in[$x])) $out[$y] = $in[$x]);
             drop_obj(parts);
             return res;
         case TYPE_GUID:
@@ -966,7 +1030,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             if (IS_ERR(parts))
                 return parts;
             res = AGGR_COLLECT(parts, n, guid, guid,
-                               if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
+                               if (memcmp($in[$x], NULL_GUID, sizeof(guid_t)) != 0)
                                    memcpy($out[$y], $in[$x], sizeof(guid_t)));
             drop_obj(parts);
             return res;
@@ -1054,22 +1118,22 @@ obj_p aggr_last(obj_p val, obj_p index) {
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i64, i64,
-                              if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
         case TYPE_PARTEDF64:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, f64, f64,
-                              if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
+                              if (!ISNANF64($in[$x])) $out[$y] = $in[$x]);
         case TYPE_PARTEDGUID:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, guid, guid,
-                              if (memcmp($out[$y], NULL_GUID, sizeof(guid_t)) == 0)
+                              if (memcmp($in[$x], NULL_GUID, sizeof(guid_t)) != 0)
                                   memcpy($out[$y], $in[$x], sizeof(guid_t)));
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDI32:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i32, i32,
-                              if ($out[$y] == NULL_I32) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I32) $out[$y] = $in[$x]);
         case TYPE_PARTEDI16:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i16, i16,
-                              if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
+                              if ($in[$x] != NULL_I16) $out[$y] = $in[$x]);
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -1081,21 +1145,21 @@ obj_p aggr_sum_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
 
     switch (val->type) {
         case TYPE_I16:
-            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = 0, $out[$y] = ADDI16($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = 0, if ($in[$x] != NULL_I16) $out[$y] = (i16_t)($out[$y] + $in[$x]),
                       $out[$y] = NULL_I16);
             return res;
         case TYPE_I64:
-            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = 0, $out[$y] = ADDI64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = 0, $out[$y] = FOLD_ADDI64($out[$y], $in[$x]),
                       $out[$y] = NULL_I64);
             return res;
         case TYPE_F64:
-            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = 0.0, $out[$y] = ADDF64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = 0.0, $out[$y] = FOLD_ADDF64($out[$y], $in[$x]),
                       $out[$y] = NULL_F64);
             return res;
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
-            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = 0, $out[$y] = ADDI32($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = 0, $out[$y] = FOLD_ADDI32($out[$y], $in[$x]),
                       $out[$y] = NULL_I32);
             return res;
         default:
@@ -1126,6 +1190,14 @@ obj_p aggr_sum(obj_p val, obj_p index) {
             res = AGGR_COLLECT(parts, n, i64, i64, $out[$y] = ADDI64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
+        case TYPE_I32:
+        case TYPE_TIME:
+            parts = aggr_map((raw_p)aggr_sum_partial, val, val->type, index);
+            if (IS_ERR(parts))
+                return parts;
+            res = AGGR_COLLECT(parts, n, i32, i32, $out[$y] = ADDI32($out[$y], $in[$x]));
+            drop_obj(parts);
+            return res;
         case TYPE_F64:
             parts = aggr_map((raw_p)aggr_sum_partial, val, val->type, index);
             if (IS_ERR(parts))
@@ -1167,6 +1239,7 @@ obj_p aggr_max_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
             AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = NULL_F64, $out[$y] = MAXF64($out[$y], $in[$x]),
                       $out[$y] = NULL_F64);
             return res;
+        case TYPE_I32:
         case TYPE_TIME:
         case TYPE_DATE:
             AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = NULL_I32, $out[$y] = MAXI32($out[$y], $in[$x]),
@@ -1208,6 +1281,7 @@ obj_p aggr_max(obj_p val, obj_p index) {
             res = AGGR_COLLECT(parts, n, f64, f64, $out[$y] = MAXF64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
+        case TYPE_I32:
         case TYPE_TIME:
         case TYPE_DATE:
             parts = aggr_map((raw_p)aggr_max_partial, val, val->type, index);
@@ -1238,24 +1312,26 @@ obj_p aggr_min_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
 
     switch (val->type) {
         case TYPE_I16:
-            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = INF_I16, $out[$y] = MINI16($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i16, i16, $out[$y] = NULL_I16, $out[$y] = MINI16($out[$y], $in[$x]),
                       $out[$y] = NULL_I16);
             return res;
         case TYPE_I64:
         case TYPE_TIMESTAMP:
-            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = INF_I64, $out[$y] = MINI64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i64, i64, $out[$y] = NULL_I64, $out[$y] = MINI64($out[$y], $in[$x]),
                       $out[$y] = NULL_I64);
             return res;
         case TYPE_F64:
-            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = INF_F64, $out[$y] = MINF64($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, f64, f64, $out[$y] = NULL_F64, $out[$y] = MINF64($out[$y], $in[$x]),
                       $out[$y] = NULL_F64);
             return res;
+        case TYPE_I32:
         case TYPE_TIME:
         case TYPE_DATE:
-            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = INF_I32, $out[$y] = MINI32($out[$y], $in[$x]),
+            AGGR_ITER(index, len, offset, val, res, i32, i32, $out[$y] = NULL_I32, $out[$y] = MINI32($out[$y], $in[$x]),
                       $out[$y] = NULL_I32);
             return res;
         default:
+            destroy_partial_result(res);
             return err_type(0, 0, 0, 0);
     }
 }
@@ -1290,6 +1366,7 @@ obj_p aggr_min(obj_p val, obj_p index) {
             res = AGGR_COLLECT(parts, n, f64, f64, $out[$y] = MINF64($out[$y], $in[$x]));
             drop_obj(parts);
             return res;
+        case TYPE_I32:
         case TYPE_TIME:
         case TYPE_DATE:
             parts = aggr_map((raw_p)aggr_min_partial, val, val->type, index);
@@ -1319,6 +1396,26 @@ obj_p aggr_count_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p a
     obj_p val = (obj_p)arg3, index = (obj_p)arg4, res = (obj_p)arg5;
     UNUSED(val);
     switch (val->type) {
+        case TYPE_B8:
+        case TYPE_U8:
+        case TYPE_C8:
+            AGGR_ITER(
+                index, len, offset, val, res, u8, i64, $out[$y] = 0,
+                {
+                    UNUSED($in);
+                    $out[$y]++;
+                },
+                $out[$y] = 0);
+            return res;
+        case TYPE_I16:
+            AGGR_ITER(
+                index, len, offset, val, res, i16, i64, $out[$y] = 0,
+                {
+                    UNUSED($in);
+                    $out[$y]++;
+                },
+                $out[$y] = 0);
+            return res;
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -2139,12 +2236,24 @@ obj_p aggr_med_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
     UNUSED(arg4);
 
     i64_t i, l;
-    i64_t *xisort;
-    f64_t *xfsort;
-    f64_t med;
+    i64_t mid, n;
     f64_t *fo = AS_F64(res);
     obj_p grp, sorted;
 
+// Nulls sort first: skip them
+#define AGGR_MED(T, type, isnull)                                                        \
+    ({                                                                                \
+        type##_t *$xs = AS_##T(sorted);                                                \
+        for (n = 0; n < l && isnull; n++)                                             \
+            ;                                                                         \
+        $xs += n;                                                                     \
+        n = l - n;                                                                    \
+        mid = n / 2;                                                                  \
+        (n == 0)       ? NULL_F64                                                     \
+        : (n % 2 == 0) ? ((f64_t)$xs[mid - 1] + (f64_t)$xs[mid]) / 2.0                \
+                       : (f64_t)$xs[mid];                                             \
+    })
+
     for (i = offset; i < offset + len; i++) {
         grp = AS_LIST(collected)[i];
         l = grp->len;
@@ -2154,37 +2263,33 @@ obj_p aggr_med_partial(raw_p arg1, raw_p arg2, raw_p arg3, raw_p arg4, raw_p arg
             continue;
         }
 
+        sorted = ray_asc(grp);
         switch (grp->type) {
+            case TYPE_U8:
+                fo[i] = AGGR_MED(U8, u8, 0);
+                break;
+            case TYPE_I16:
+                fo[i] = AGGR_MED(I16, i16, $xs[n] == NULL_I16);
+                break;
+            case TYPE_I32:
+            case TYPE_DATE:
+            case TYPE_TIME:
+                fo[i] = AGGR_MED(I32, i32, $xs[n] == NULL_I32);
+                break;
             case TYPE_I64:
-            case TYPE_TIMESTAMP: {
-                i64_t mid = l / 2;
-                sorted = ray_asc(grp);
-                xisort = AS_I64(sorted);
-                if (l % 2 == 0)
-                    med = ((f64_t)xisort[mid - 1] + (f64_t)xisort[mid]) / 2.0;
-                else
-                    med = (f64_t)xisort[mid];
-                drop_obj(sorted);
-                fo[i] = med;
+            case TYPE_TIMESTAMP:
+                fo[i] = AGGR_MED(I64, i64, $xs[n] == NULL_I64);
                 break;
-            }
-            case TYPE_F64: {
-                i64_t mid = l / 2;
-                sorted = ray_asc(grp);
-                xfsort = AS_F64(sorted);
-                if (l % 2 == 0)
-                    med = (xfsort[mid - 1] + xfsort[mid]) / 2.0;
-                else
-                    med = xfsort[mid];
-                drop_obj(sorted);
-                fo[i] = med;
+            case TYPE_F64:
+                fo[i] = AGGR_MED(F64, f64, ISNANF64($xs[n]));
                 break;
-            }
             default:
                 fo[i] = NULL_F64;
                 break;
         }
+        drop_obj(sorted);
     }
+#undef AGGR_MED
 
     return res;
 }
@@ -2203,7 +2308,7 @@ static obj_p aggr_map_med(obj_p collected, obj_p index) {
 
     res = F64(n);
 
-    if (l == 1) {
+    if (l <= 1) {
         argv[0] = (raw_p)n;
         argv[1] = (raw_p)0;
         argv[2] = collected;
diff --git a/core/query.c b/core/query.c
index 6a36c02..fc72a75 100644
--- a/core/query.c
+++ b/core/query.c
@@ -128,6 +128,7 @@ obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_
 
                     if (IS_ERR(v)) {
                         lst->len = i;
+                        drop_obj(lst);
                         drop_obj(res);
                         drop_obj(index);
                         if (!is_null(actual_ids)) drop_obj(actual_ids);
@@ -145,6 +146,7 @@ obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_
 
                     if (IS_ERR(v)) {
                         lst->len = i;
+                        drop_obj(lst);
                         drop_obj(res);
                         drop_obj(index);
                         return v;
@@ -608,14 +610,14 @@ obj_p ray_select(obj_p obj) {
     obj_p res;
     struct query_ctx_t ctx;
 
-    query_ctx_init(&ctx);
-
     if (obj->type != TYPE_DICT)
         return err_type(0, 0, 0, 0);
 
     if (AS_LIST(obj)[0]->type != TYPE_SYMBOL)
         return err_type(0, 0, 0, 0);
 
+    query_ctx_init(&ctx);
+
     timeit_span_start("select");
 
     // Fetch table - ctx.table is set, resolve() will find columns via query_ctx
-- 
2.43.0


From 008b79144465e979310116990ed77b63ee30e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 054/102] fix: select by several keys with where took the rows
 of another selection

---
 core/index.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/core/index.c b/core/index.c
index d838b59..35631c9 100644
--- a/core/index.c
+++ b/core/index.c
@@ -2318,8 +2318,6 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
 
     l = obj->len;
     i64_t multipliers[l];
-    UNUSED(v);  // May be unused in single-threaded path
-
     if (l == 0)
         return NULL_OBJ;
 
@@ -2425,6 +2423,23 @@ obj_p index_group_list_perfect(obj_p obj, obj_p filter) {
 
     heap_free(scopes);
     res = index_group_i64_scoped(ht, NULL_OBJ, scope);
+
+    // The combined keys are those of the filtered rows already: let the index know which rows they are
+    if (indices) {
+        i64_t *group_ids = index_group_ids(res);
+
+        if (index_group_type(res) == INDEX_TYPE_SHIFT) {
+            for (i = 0; i < len; i++)
+                xo[i] = group_ids[xo[i] - index_group_shift(res)];
+            v = index_group_build(INDEX_TYPE_IDS, index_group_count(res), clone_obj(ht), i64(NULL_I64), NULL_OBJ,
+                                  clone_obj(filter), clone_obj(index_group_meta(res)));
+            drop_obj(res);
+            res = v;
+        } else {
+            AS_LIST(res)[5] = clone_obj(filter);
+        }
+    }
+
     drop_obj(ht);
 
     return res;
-- 
2.43.0


From cd328d6ee63872d96491c80e60af377b29d57ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 055/102] fix: serialisation of i16 vectors, unserialisable
 elements and hostile bytes; journal replay; truncated column files

---
 core/binary.c |   7 +++-
 core/error.c  |   1 +
 core/io.c     |   8 +++-
 core/ipc.c    |   5 +++
 core/serde.c  | 107 ++++++++++++++++++++++++++++++++++++++++++--------
 core/unary.c  |  33 ++++++++++++++++
 6 files changed, 141 insertions(+), 20 deletions(-)

diff --git a/core/binary.c b/core/binary.c
index 41fa89f..5917b2b 100644
--- a/core/binary.c
+++ b/core/binary.c
@@ -177,7 +177,12 @@ obj_p binary_set(obj_p x, obj_p y) {
                     drop_obj(s);
 
                     l = y->len;
-                    size = size_obj(y) - sizeof(i8_t) - sizeof(i64_t);
+                    size = size_obj(y);
+                    if (size == 0) {
+                        drop_obj(col);
+                        return err_type(0, 0, 0, 0);
+                    }
+                    size -= sizeof(i8_t) + 1 + sizeof(i64_t);
                     buf = U8(size);
                     b = AS_U8(buf);
                     k = I64(l);
diff --git a/core/error.c b/core/error.c
index e58d0fe..26afef3 100644
--- a/core/error.c
+++ b/core/error.c
@@ -46,6 +46,7 @@ static i32_t get_errno(nil_t) {
 // ============================================================================
 
 obj_p err_raw(err_code_t code) {
+    memset(&VM->err, 0, sizeof(VM->err));
     VM->err.code = (u8_t)code;
     return ERR_OBJ;
 }
diff --git a/core/io.c b/core/io.c
index d733e40..48e47e9 100644
--- a/core/io.c
+++ b/core/io.c
@@ -244,7 +244,7 @@ obj_p ray_read(obj_p x) {
             sz = size;
 
             while (sz > 0) {
-                cur = map + sz;
+                cur = map + (size - sz);
                 val = de_raw(cur, &sz);
 
                 if (IS_ERR(val)) {
@@ -348,10 +348,14 @@ obj_p ray_write(obj_p x, obj_p y) {
     switch (x->type) {
         case -TYPE_I32:
             size = size_obj(y);
+            if (size == 0)
+                return err_type(0, 0, 0, 0);
             buf = U8(size);
             size = ser_raw(AS_U8(buf), y);
-            fs_fwrite(x->i32, AS_C8(buf), size);
+            size = fs_fwrite(x->i32, AS_C8(buf), size);
             drop_obj(buf);
+            if (size == -1)
+                return err_os();
             return NULL_OBJ;
         case -TYPE_I64:
             // send ipc msg
diff --git a/core/ipc.c b/core/ipc.c
index 2b21bb9..5c194e7 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -401,6 +401,11 @@ nil_t ipc_send_msg(poll_p poll, selector_p selector, obj_p msg, u8_t msgtype) {
 
     LOG_TRACE("Serializing message");
     size = size_obj(msg);
+    if (size == 0) {
+        // there is no form to send it in: the other side has to know about that anyway
+        msg = err_type(0, 0, 0, 0);
+        size = size_obj(msg);
+    }
     buf = poll_buf_create(ISIZEOF(struct ipc_header_t) + size);
 
     header = (ipc_header_t *)buf->data;
diff --git a/core/serde.c b/core/serde.c
index c5ef252..4007c7a 100644
--- a/core/serde.c
+++ b/core/serde.c
@@ -87,7 +87,7 @@ i64_t size_of(obj_p obj) {
  * Returns size (in bytes) that an obj occupy in memory via serialization
  */
 i64_t size_obj(obj_p obj) {
-    i64_t i, l, size;
+    i64_t i, l, size, sz;
 
     switch (obj->type) {
         case -TYPE_B8:
@@ -117,6 +117,8 @@ i64_t size_obj(obj_p obj) {
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(b8_t);
         case TYPE_U8:
             return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(u8_t);
+        case TYPE_I16:
+            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + obj->len * ISIZEOF(i16_t);
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -137,14 +139,23 @@ i64_t size_obj(obj_p obj) {
         case TYPE_LIST:
             l = obj->len;
             size = ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t);
-            for (i = 0; i < l; i++)
-                size += size_obj(AS_LIST(obj)[i]);
+            for (i = 0; i < l; i++) {
+                // an element that can not be serialized makes the whole unserializable
+                sz = size_obj(AS_LIST(obj)[i]);
+                if (sz == 0)
+                    return 0;
+                size += sz;
+            }
             return size;
         case TYPE_TABLE:
         case TYPE_DICT:
-            return ISIZEOF(i8_t) + 1 + size_obj(AS_LIST(obj)[0]) + size_obj(AS_LIST(obj)[1]);
+            size = size_obj(AS_LIST(obj)[0]);
+            sz = size_obj(AS_LIST(obj)[1]);
+            return (size == 0 || sz == 0) ? 0 : ISIZEOF(i8_t) + 1 + size + sz;
         case TYPE_LAMBDA:
-            return ISIZEOF(i8_t) + 1 + ISIZEOF(i64_t) + size_obj(AS_LAMBDA(obj)->args) + size_obj(AS_LAMBDA(obj)->body);
+            size = size_obj(AS_LAMBDA(obj)->args);
+            sz = size_obj(AS_LAMBDA(obj)->body);
+            return (size == 0 || sz == 0) ? 0 : ISIZEOF(i8_t) + 1 + size + sz;
         case TYPE_UNARY:
         case TYPE_BINARY:
         case TYPE_VARY:
@@ -362,13 +373,41 @@ obj_p ser_obj(obj_p obj) {
     return buf;
 }
 
-obj_p de_raw(u8_t *buf, i64_t *len) {
+// Nesting a message is allowed to have
+#define DE_MAX_DEPTH 4096
+
+// Parts of a dict or a table have to fit each other: everything else relies on that
+static b8_t de_valid_pair(i8_t type, obj_p k, obj_p v) {
+    i64_t i, l, n;
+    obj_p col;
+
+    if (type == TYPE_DICT)
+        return (IS_VECTOR(k) && (IS_VECTOR(v) || v->type == TYPE_TABLE) && ops_count(k) == ops_count(v));
+
+    if (k->type != TYPE_SYMBOL || v->type != TYPE_LIST || k->len != v->len)
+        return B8_FALSE;
+
+    l = v->len;
+    n = l > 0 ? ops_count(AS_LIST(v)[0]) : 0;
+    for (i = 0; i < l; i++) {
+        col = AS_LIST(v)[i];
+        if (!IS_VECTOR(col) || ops_count(col) != n)
+            return B8_FALSE;
+    }
+
+    return B8_TRUE;
+}
+
+static obj_p de_raw_depth(u8_t *buf, i64_t *len, i64_t depth) {
     i64_t i, l, c, id;
     obj_p obj, k, v;
     i8_t type;
 
-    if (*len == 0)
-        return NULL_OBJ;
+    if (depth > DE_MAX_DEPTH)
+        return err_limit(DE_MAX_DEPTH);
+
+    if (*len <= 0)
+        return (depth == 0 && *len == 0) ? NULL_OBJ : err_domain(0, 0);
 
     type = buf[0];
     buf++;
@@ -456,6 +495,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_B8:
         case TYPE_U8:
         case TYPE_C8:
+        case TYPE_I16:
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -465,7 +505,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
         case TYPE_SYMBOL:
         case TYPE_GUID:
         case TYPE_LIST:
-            if (*len < ISIZEOF(i64_t))
+            if (*len < ISIZEOF(i64_t) + 1)
                 return err_domain(0, 0);
 
             buf++;  // skip attrs
@@ -473,8 +513,8 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             buf += ISIZEOF(i64_t);
             (*len) -= ISIZEOF(i64_t) + 1;
 
-            // Check for unreasonable length values that might indicate corruption
-            if (l > 1000000000)  // 1 billion elements is likely a corrupted value
+            // Every element takes a byte at least: a length beyond that is a corrupted one
+            if (l < 0 || l > *len)
                 return err_domain(0, 0);
 
             // Continue with type-specific handling
@@ -501,6 +541,16 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                     buf += l * ISIZEOF(c8_t);
                     (*len) -= l * ISIZEOF(c8_t);
                     return obj;
+                case TYPE_I16:
+                    if (*len < l * ISIZEOF(i16_t))
+                        return err_domain(0, 0);
+                    obj = I16(l);
+                    if (IS_ERR(obj))
+                        return obj;
+                    memcpy(AS_I16(obj), buf, l * ISIZEOF(i16_t));
+                    buf += l * ISIZEOF(i16_t);
+                    (*len) -= l * ISIZEOF(i16_t);
+                    return obj;
                 case TYPE_I32:
                 case TYPE_TIME:
                 case TYPE_DATE:
@@ -574,7 +624,7 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
                         return obj;
                     c = *len;
                     for (i = 0; i < l; i++) {
-                        v = de_raw(buf + c - *len, len);
+                        v = de_raw_depth(buf + c - *len, len, depth + 1);
                         if (IS_ERR(v)) {
                             obj->len = i;
                             drop_obj(obj);
@@ -590,42 +640,58 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
 
         case TYPE_TABLE:
         case TYPE_DICT:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw(buf, len);
+            k = de_raw_depth(buf, len, depth + 1);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw(buf + c - *len, len);
+            v = de_raw_depth(buf + c - *len, len, depth + 1);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
                 return v;
             }
 
+            if (!de_valid_pair(type, k, v)) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             if (type == TYPE_TABLE)
                 return table(k, v);
             else
                 return dict(k, v);
 
         case TYPE_LAMBDA:
+            if (*len < 1)
+                return err_domain(0, 0);
             buf++;  // skip attrs
             (*len) -= 1;
             c = *len;
-            k = de_raw(buf, len);
+            k = de_raw_depth(buf, len, depth + 1);
 
             if (IS_ERR(k))
                 return k;
 
-            v = de_raw(buf + c - *len, len);
+            v = de_raw_depth(buf + c - *len, len, depth + 1);
 
             if (IS_ERR(v)) {
                 drop_obj(k);
                 return v;
             }
 
+            if (k != NULL_OBJ && k->type != TYPE_SYMBOL) {
+                drop_obj(k);
+                drop_obj(v);
+                return err_domain(0, 0);
+            }
+
             return lambda(k, v, NULL_OBJ);
 
         case TYPE_UNARY:
@@ -661,7 +727,9 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
             
             if (code == EC_USER) {
                 lit_p msg = (lit_p)buf;
-                i64_t msg_len = strlen(msg);
+                i64_t msg_len = str_len((str_p)buf, *len);
+                if (msg_len >= *len)
+                    return err_domain(0, 0);
                 buf += msg_len + 1;
                 (*len) -= msg_len + 1;
                 return err_user(msg);
@@ -678,11 +746,16 @@ obj_p de_raw(u8_t *buf, i64_t *len) {
     }
 }
 
+obj_p de_raw(u8_t *buf, i64_t *len) { return de_raw_depth(buf, len, 0); }
+
 obj_p de_obj(obj_p obj) {
     i64_t len;
     u8_t *buf;
     ipc_header_t *header;
 
+    if (obj->type != TYPE_U8)
+        return err_type(TYPE_U8, obj->type, 0, 0);
+
     len = obj->len;
     buf = AS_U8(obj);
 
diff --git a/core/unary.c b/core/unary.c
index 744c363..339cfb8 100644
--- a/core/unary.c
+++ b/core/unary.c
@@ -45,6 +45,32 @@ obj_p unary_call(obj_p f, obj_p x) {
     return fn(x);
 }
 
+// Whether a mapped file holds all of the object its header tells about
+static b8_t external_fits(obj_p obj, i64_t size) {
+    i64_t item;
+
+    size -= ISIZEOF(struct obj_t);
+
+    if (IS_EXTERNAL_COMPOUND(obj)) {
+        size -= RAY_PAGE_SIZE;
+        if (size < 0)
+            return B8_FALSE;
+
+        obj = (obj_p)((str_p)obj + RAY_PAGE_SIZE);
+        if (obj->type != TYPE_ENUM && obj->type != TYPE_MAPLIST)
+            return B8_FALSE;
+
+        item = ISIZEOF(i64_t);
+    } else {
+        if (obj->type <= TYPE_LIST || obj->type > TYPE_C8)
+            return B8_FALSE;
+
+        item = size_of_type(obj->type);
+    }
+
+    return obj->len >= 0 && obj->len <= size / item;
+}
+
 obj_p ray_get(obj_p x) {
     i64_t fd;
     obj_p res, col, keys, s, v, *sym, path, fdmap;
@@ -95,6 +121,11 @@ obj_p ray_get(obj_p x) {
                 fs_fclose(fd);
                 drop_obj(path);
                 return v;
+            } else if ((IS_EXTERNAL_COMPOUND(res) || IS_EXTERNAL_SIMPLE(res)) && !external_fits(res, size)) {
+                mmap_free(res, size);
+                fs_fclose(fd);
+                drop_obj(path);
+                return err_length(0, 0, 0, 0, 0, 0);
             } else if (IS_EXTERNAL_COMPOUND(res)) {
                 fdmap = fdmap_create();
                 fdmap_add_fd(&fdmap, res, fd, size);
@@ -105,6 +136,8 @@ obj_p ray_get(obj_p x) {
                 fdmap_add_fd(&fdmap, res, fd, size);
                 runtime_fdmap_push(runtime_get(), res, fdmap);
             } else {
+                mmap_free(res, size);
+                fs_fclose(fd);
                 res = err_type(0, 0, 0, 0);
                 drop_obj(path);
                 return res;
-- 
2.43.0


From df7f4b2c3dd4c80779cc5361872cb88dd950c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 056/102] fix: insert, upsert and update check their input
 first and leave shared parts alone; set and find for every type

---
 core/aggr.c     |   1 +
 core/items.c    |   4 +
 core/query.h    |   1 +
 core/rayforce.c | 109 ++++++-
 core/update.c   | 835 ++++++++++++++++++++----------------------------
 5 files changed, 455 insertions(+), 495 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 77c4a9f..7a1af25 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -3139,6 +3139,7 @@ obj_p aggr_collect(obj_p val, obj_p index) {
             AGGR_ITER(index, l, 0, val, res, b8, list, , push_raw($out + $y, $in + $x), );
             return res;
         case TYPE_U8:
+        case TYPE_C8:
             AGGR_ITER(index, l, 0, val, res, u8, list, , push_raw($out + $y, $in + $x), );
             return res;
         case TYPE_I16:
diff --git a/core/items.c b/core/items.c
index 38fdf0b..90e97e8 100644
--- a/core/items.c
+++ b/core/items.c
@@ -310,6 +310,10 @@ obj_p ray_at(obj_p x, obj_p y) {
 obj_p ray_find(obj_p x, obj_p y) {
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_B8, -TYPE_B8):
+        case MTYPE2(TYPE_U8, -TYPE_U8):
+        case MTYPE2(TYPE_I32, -TYPE_I32):
+        case MTYPE2(TYPE_DATE, -TYPE_DATE):
+        case MTYPE2(TYPE_TIME, -TYPE_TIME):
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_SYMBOL):
         case MTYPE2(TYPE_F64, -TYPE_F64):
diff --git a/core/query.h b/core/query.h
index 49cf1e5..f037886 100644
--- a/core/query.h
+++ b/core/query.h
@@ -43,6 +43,7 @@ nil_t query_ctx_init(query_ctx_p ctx);
 nil_t query_ctx_destroy(query_ctx_p ctx);
 
 obj_p get_fields(obj_p obj);
+obj_p get_gvals(obj_p obj);
 obj_p remap_filter(obj_p x, obj_p y);
 obj_p remap_group(obj_p *gvals, obj_p cols, obj_p gkeys, obj_p gcols, query_ctx_p ctx);
 obj_p ray_select(obj_p obj);
diff --git a/core/rayforce.c b/core/rayforce.c
index 65b55d5..89641e7 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -1439,6 +1439,21 @@ obj_p set_idx(obj_p* obj, i64_t idx, obj_p val) {
     UNMARK_CONTENT(*obj);
 
     switch (MTYPE2((*obj)->type, val->type)) {
+        case MTYPE2(TYPE_B8, -TYPE_B8):
+        case MTYPE2(TYPE_U8, -TYPE_U8):
+            AS_U8(*obj)[idx] = val->u8;
+            drop_obj(val);
+            return *obj;
+        case MTYPE2(TYPE_I16, -TYPE_I16):
+            AS_I16(*obj)[idx] = val->i16;
+            drop_obj(val);
+            return *obj;
+        case MTYPE2(TYPE_I32, -TYPE_I32):
+        case MTYPE2(TYPE_DATE, -TYPE_DATE):
+        case MTYPE2(TYPE_TIME, -TYPE_TIME):
+            AS_I32(*obj)[idx] = val->i32;
+            drop_obj(val);
+            return *obj;
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_SYMBOL):
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_TIMESTAMP):
@@ -1536,6 +1551,7 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
             drop_obj(vals);
             return *obj;
         case MTYPE2(TYPE_U8, TYPE_U8):
+        case MTYPE2(TYPE_B8, TYPE_B8):
             for (i = 0; i < len; i++)
                 AS_U8(*obj)[ids[i]] = AS_U8(vals)[i];
             drop_obj(vals);
@@ -1588,7 +1604,7 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
             return *obj;
         default:
             if ((*obj)->type == TYPE_LIST) {
-                if (IS_VECTOR(vals) && len != (*obj)->len) {
+                if (IS_VECTOR(vals) && len != vals->len && vals->len != (*obj)->len) {
                     for (i = 0; i < len; i++) {
                         drop_obj(AS_LIST(*obj)[ids[i]]);
                         AS_LIST(*obj)[ids[i]] = clone_obj(vals);
@@ -1605,7 +1621,11 @@ obj_p set_ids(obj_p* obj, i64_t ids[], i64_t len, obj_p vals) {
                 return *obj;
             }
 
-            return err_type((*obj)->type, vals->type, 0, 0);
+            {
+                i8_t got = vals->type;
+                drop_obj(vals);
+                return err_type((*obj)->type, got, 0, 0);
+            }
     }
 }
 
@@ -1633,6 +1653,24 @@ obj_p __expand(obj_p obj, i64_t len) {
 
             drop_obj(obj);
 
+            return res;
+        case -TYPE_I16:
+            res = I16(len);
+            for (i = 0; i < len; i++)
+                AS_I16(res)[i] = obj->i16;
+
+            drop_obj(obj);
+
+            return res;
+        case -TYPE_I32:
+        case -TYPE_DATE:
+        case -TYPE_TIME:
+            res = vector(obj->type, len);
+            for (i = 0; i < len; i++)
+                AS_I32(res)[i] = obj->i32;
+
+            drop_obj(obj);
+
             return res;
         case -TYPE_F64:
             res = F64(len);
@@ -1650,6 +1688,10 @@ obj_p __expand(obj_p obj, i64_t len) {
             drop_obj(obj);
 
             return res;
+        case TYPE_DICT:
+        case TYPE_TABLE:
+            drop_obj(obj);
+            return err_type(TYPE_LIST, TYPE_DICT, 0, 0);
         default:
             if (ops_count(obj) != len) {
                 i64_t got = ops_count(obj);
@@ -1770,10 +1812,24 @@ obj_p find_obj_ids(obj_p obj, obj_p val) {
     }
 }
 
+// Makes a part of a container safe to modify: it may be shared with another object
+static nil_t own_obj(obj_p* obj) {
+    obj_p v;
+
+    v = cow_obj(*obj);
+    if (v != *obj) {
+        drop_obj(*obj);
+        *obj = v;
+    }
+}
+
 obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
     i64_t i;
     obj_p ids, res;
 
+    own_obj(&AS_LIST(*obj)[0]);
+    own_obj(&AS_LIST(*obj)[1]);
+
     switch (idx->type) {
         case -TYPE_I64:
         case -TYPE_SYMBOL:
@@ -1800,15 +1856,26 @@ obj_p set_dict_obj(obj_p* obj, obj_p idx, obj_p val) {
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
+            if (IS_VECTOR(val) && idx->len != val->len) {
+                i64_t have = val->len;
+                drop_obj(val);
+                return err_length(idx->len, have, 0, 0, 0, 0);
+            }
+
             ids = find_obj_ids(AS_LIST(*obj)[0], idx);
-            if (IS_ERR(ids))
+            if (ids == NULL_OBJ)
+                ids = err_value(0);
+            if (IS_ERR(ids)) {
+                drop_obj(val);
                 return ids;
+            }
 
             res = set_ids(&AS_LIST(*obj)[1], AS_I64(ids), ids->len, val);
             drop_obj(ids);
 
-            return res;
+            return IS_ERR(res) ? res : *obj;
         default:
+            drop_obj(val);
             return err_type(TYPE_SYMBOL, idx->type, 0, 0);
     }
 
@@ -1822,6 +1889,12 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
 
     // dispatch:
     switch (MTYPE2((*obj)->type, idx->type)) {
+        case MTYPE2(TYPE_B8, -TYPE_I64):
+        case MTYPE2(TYPE_U8, -TYPE_I64):
+        case MTYPE2(TYPE_I16, -TYPE_I64):
+        case MTYPE2(TYPE_I32, -TYPE_I64):
+        case MTYPE2(TYPE_DATE, -TYPE_I64):
+        case MTYPE2(TYPE_TIME, -TYPE_I64):
         case MTYPE2(TYPE_I64, -TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, -TYPE_I64):
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_I64):
@@ -1834,6 +1907,12 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
                 return err_index(idx->i64, (*obj)->len, 0, 0);
             }
             return set_idx(obj, idx->i64, val);
+        case MTYPE2(TYPE_B8, TYPE_I64):
+        case MTYPE2(TYPE_U8, TYPE_I64):
+        case MTYPE2(TYPE_I16, TYPE_I64):
+        case MTYPE2(TYPE_I32, TYPE_I64):
+        case MTYPE2(TYPE_DATE, TYPE_I64):
+        case MTYPE2(TYPE_TIME, TYPE_I64):
         case MTYPE2(TYPE_I64, TYPE_I64):
         case MTYPE2(TYPE_SYMBOL, TYPE_I64):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
@@ -1860,6 +1939,8 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
             val = __expand(val, ops_count(*obj));
             if (IS_ERR(val))
                 return val;
+            own_obj(&AS_LIST(*obj)[0]);
+            own_obj(&AS_LIST(*obj)[1]);
             j = find_obj_idx(AS_LIST(*obj)[0], idx);
             if (j == NULL_I64) {
                 res = push_obj(&AS_LIST(*obj)[0], clone_obj(idx));
@@ -1908,6 +1989,9 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
             drop_obj(val);
             val = v;
 
+            own_obj(&AS_LIST(*obj)[0]);
+            own_obj(&AS_LIST(*obj)[1]);
+
             for (i = 0; i < l; i++) {
                 id = find_raw(AS_LIST(*obj)[0], &AS_SYMBOL(idx)[i]);
                 if (id == NULL_I64) {
@@ -1923,13 +2007,12 @@ obj_p set_obj(obj_p* obj, obj_p idx, obj_p val) {
             return *obj;
         default:
             if ((*obj)->type == TYPE_DICT) {
-                res = set_dict_obj(obj, idx, val);
-                if (IS_ERR(res)) {
-                    drop_obj(val);
-                    return res;
-                }
+                return set_dict_obj(obj, idx, val);
+            }
 
-                return res;
+            if (!IS_VECTOR(*obj) || (idx->type != -TYPE_I64 && idx->type != TYPE_I64) || (*obj)->type == TYPE_LIST) {
+                drop_obj(val);
+                return err_type((*obj)->type, idx->type, 0, 0);
             }
 
             // Diverse to a list then
@@ -2108,6 +2191,7 @@ obj_p remove_obj(obj_p* obj, obj_p idx) {
         case MTYPE2(TYPE_SYMBOL, -TYPE_I64):
         case MTYPE2(TYPE_TIMESTAMP, -TYPE_I64):
         case MTYPE2(TYPE_F64, -TYPE_I64):
+        case MTYPE2(TYPE_GUID, -TYPE_I64):
         case MTYPE2(TYPE_LIST, -TYPE_I64):
             return remove_idx(obj, idx->i64);
         case MTYPE2(TYPE_U8, TYPE_I64):
@@ -2121,6 +2205,7 @@ obj_p remove_obj(obj_p* obj, obj_p idx) {
         case MTYPE2(TYPE_SYMBOL, TYPE_I64):
         case MTYPE2(TYPE_TIMESTAMP, TYPE_I64):
         case MTYPE2(TYPE_F64, TYPE_I64):
+        case MTYPE2(TYPE_GUID, TYPE_I64):
         case MTYPE2(TYPE_LIST, TYPE_I64):
             return remove_ids(obj, AS_I64(idx), idx->len);
         case MTYPE2(TYPE_DICT, -TYPE_I64):
@@ -2130,6 +2215,8 @@ obj_p remove_obj(obj_p* obj, obj_p idx) {
             if (i == NULL_I64)
                 return *obj;
 
+            own_obj(&AS_LIST(*obj)[0]);
+            own_obj(&AS_LIST(*obj)[1]);
             v = remove_idx(&AS_LIST(*obj)[0], i);
 
             if (IS_ERR(v))
@@ -2146,6 +2233,8 @@ obj_p remove_obj(obj_p* obj, obj_p idx) {
                 if (j == NULL_I64)
                     return *obj;
 
+                own_obj(&AS_LIST(*obj)[0]);
+                own_obj(&AS_LIST(*obj)[1]);
                 v = remove_idx(&AS_LIST(*obj)[0], j);
                 if (IS_ERR(v))
                     return v;
diff --git a/core/update.c b/core/update.c
index 69fe61c..c949507 100644
--- a/core/update.c
+++ b/core/update.c
@@ -21,6 +21,7 @@
  *   SOFTWARE.
  */
 
+#include <string.h>
 #include "update.h"
 #include "runtime.h"
 #include "error.h"
@@ -47,6 +48,9 @@
     };
 
 obj_p __fetch(obj_p obj, obj_p **val, obj_p *original) {
+    i64_t i;
+    obj_p part;
+
     if (obj->type == -TYPE_SYMBOL) {
         *val = resolve(obj->i64);
         if (*val == NULL)
@@ -60,6 +64,17 @@ obj_p __fetch(obj_p obj, obj_p **val, obj_p *original) {
         obj = cow_obj(obj);
     }
 
+    // The names and the list of columns are modified in place, and may be shared too
+    if (obj->type == TYPE_TABLE) {
+        for (i = 0; i < 2; i++) {
+            part = cow_obj(AS_LIST(obj)[i]);
+            if (part != AS_LIST(obj)[i]) {
+                drop_obj(AS_LIST(obj)[i]);
+                AS_LIST(obj)[i] = part;
+            }
+        }
+    }
+
     return obj;
 }
 
@@ -133,74 +148,163 @@ i64_t __find_symbol_idx(obj_p symbols, i64_t sym) {
 }
 
 /*
- * Reorder input values to match the table's column order.
- * Handles both single records (list of atoms) and multiple records (list of vectors).
+ * Prepares the rows given to insert/upsert: a list with one value per column of the table,
+ * in the order of its columns and of their types. Columns which are not given are null.
  *
- * table_cols: symbol vector of table column names
- * table_vals: list of table column data (to get types for null values)
- * input_cols: symbol vector of input column names
- * input_vals: list of input values
+ * table: the table to modify
+ * input: list of values by position, or dict/table of them by column name
+ * rows: number of rows, or -1 if input is a single record (list of atoms)
  *
- * Returns: reordered list matching table column order, or error object
+ * Returns: list of values, or error object
  */
-obj_p __reorder_columns(obj_p table_cols, obj_p table_vals, obj_p input_cols, obj_p input_vals) {
-    i64_t i, j, tc, ic, rec_count;
-    i8_t col_type;
-    obj_p reordered;
-    i64_t *tcols, *icols;
-    b8_t is_single_record;
-
-    tc = table_cols->len;  // number of table columns
-    ic = input_cols->len;  // number of input columns
-    tcols = AS_I64(table_cols);
-    icols = AS_I64(input_cols);
-
-    // Check that all input columns exist in the table
-    for (i = 0; i < ic; i++) {
-        if (__find_symbol_idx(table_cols, icols[i]) == NULL_I64) {
-            return err_value(0);
+obj_p __input_rows(obj_p table, obj_p input, i64_t *rows) {
+    i64_t i, j, l, tc;
+    obj_p names, cols, vals, res, col, v, c;
+    b8_t single = B8_FALSE;
+
+    names = AS_LIST(table)[0];
+    cols = AS_LIST(table)[1];
+    tc = names->len;
+
+    // Place the given values by column
+    if (input->type == TYPE_DICT || input->type == TYPE_TABLE) {
+        if (AS_LIST(input)[0]->type != TYPE_SYMBOL)
+            return err_type(TYPE_SYMBOL, AS_LIST(input)[0]->type, 0, 0);
+        l = AS_LIST(input)[0]->len;
+        vals = AS_LIST(input)[1];
+        if (ops_count(vals) != l)
+            return err_length(l, ops_count(vals), 0, 0, 0, 0);
+    } else if (input->type == TYPE_LIST) {
+        l = input->len;
+        vals = input;
+    } else
+        return err_type(TYPE_LIST, input->type, 0, 0);
+
+    if (l == 0 || l > tc)
+        return err_length(tc, l, 0, 0, 0, 0);
+
+    res = LIST(tc);
+    for (i = 0; i < tc; i++)
+        AS_LIST(res)[i] = NULL;
+
+    for (i = 0; i < l; i++) {
+        j = (vals == input) ? i : __find_symbol_idx(names, AS_I64(AS_LIST(input)[0])[i]);
+        if (j == NULL_I64 || AS_LIST(res)[j] != NULL) {
+            col = err_value(0);
+            goto fail;
         }
-    }
 
-    // Determine if this is a single record or multiple records
-    is_single_record = IS_ATOM(AS_LIST(input_vals)[0]);
+        v = at_idx(vals, i);
 
-    if (is_single_record) {
-        // Single record: create a reordered list of atoms
-        reordered = LIST(tc);
+        // Enumerations are written as their symbols
+        if (v->type == TYPE_ENUM || v->type == TYPE_MAPLIST) {
+            c = ray_value(v);
+            drop_obj(v);
+            v = c;
+        }
 
-        for (i = 0; i < tc; i++) {
-            // Find this table column in the input
-            j = __find_symbol_idx(input_cols, tcols[i]);
+        AS_LIST(res)[j] = v;
+
+        if (IS_ATOM(v))
+            single = B8_TRUE;
+    }
 
-            if (j == NULL_I64) {
-                // Column not in input - use null with the correct type from table
-                col_type = AS_LIST(table_vals)[i]->type;
-                AS_LIST(reordered)[i] = null(col_type);
-            } else {
-                AS_LIST(reordered)[i] = clone_obj(AS_LIST(input_vals)[j]);
+    // Check and convert them
+    *rows = -1;
+    for (i = 0; i < tc; i++) {
+        v = AS_LIST(res)[i];
+        if (v == NULL)
+            continue;
+
+        col = AS_LIST(cols)[i];
+
+        if (!single) {
+            if (!IS_VECTOR(v)) {
+                col = err_type(col->type, v->type, 0, 0);
+                goto fail;
+            }
+            if (*rows == -1)
+                *rows = v->len;
+            if (*rows != v->len) {
+                col = err_length(*rows, v->len, 0, 0, 0, 0);
+                goto fail;
             }
         }
-    } else {
-        // Multiple records: create a reordered list of vectors
-        rec_count = AS_LIST(input_vals)[0]->len;
-        reordered = LIST(tc);
-
-        for (i = 0; i < tc; i++) {
-            // Find this table column in the input
-            j = __find_symbol_idx(input_cols, tcols[i]);
-
-            if (j == NULL_I64) {
-                // Column not in input - use null vector with the correct type
-                col_type = AS_LIST(table_vals)[i]->type;
-                AS_LIST(reordered)[i] = nullv(col_type, rec_count);
-            } else {
-                AS_LIST(reordered)[i] = clone_obj(AS_LIST(input_vals)[j]);
+
+        if (single && col->type == TYPE_LIST)
+            continue;
+
+        if (!__suitable_types(col, v) || (single && !IS_ATOM(v) && col->type != TYPE_MAPLIST)) {
+            col = err_type(col->type, v->type, 0, 0);
+            goto fail;
+        }
+
+        // Numbers of another type take the type of the column
+        if ((col->type == TYPE_I64 || col->type == TYPE_I32) && (v->type == TYPE_F64 || v->type == -TYPE_F64)) {
+            c = cast_obj(v->type < 0 ? -col->type : col->type, v);
+            if (IS_ERR(c)) {
+                col = c;
+                goto fail;
             }
+            drop_obj(v);
+            AS_LIST(res)[i] = c;
         }
     }
 
-    return reordered;
+    // Fill the missing ones
+    for (i = 0; i < tc; i++) {
+        if (AS_LIST(res)[i] != NULL)
+            continue;
+
+        j = AS_LIST(cols)[i]->type;
+        if (j == TYPE_ENUM)
+            j = TYPE_SYMBOL;
+        else if (j == TYPE_MAPLIST)
+            j = TYPE_LIST;
+
+        if (single)
+            v = null(j);
+        else if (j == TYPE_C8) {
+            v = C8(*rows);
+            memset(AS_C8(v), 0, *rows);
+        } else
+            v = nullv(j, *rows);
+
+        AS_LIST(res)[i] = v;
+    }
+
+    return res;
+
+fail:
+    for (i = 0; i < tc; i++)
+        if (AS_LIST(res)[i] != NULL)
+            drop_obj(AS_LIST(res)[i]);
+    res->len = 0;
+    drop_obj(res);
+
+    return col;
+}
+
+// Whether the input of __input_rows gives a value for the i-th column of the table
+b8_t __given(obj_p input, obj_p table, i64_t i) {
+    if (input->type == TYPE_LIST)
+        return i < input->len;
+
+    return __find_symbol_idx(AS_LIST(input)[0], AS_I64(AS_LIST(table)[0])[i]) != NULL_I64;
+}
+
+// Makes the i-th column of the table safe to modify
+obj_p *__own_column(obj_p table, i64_t i) {
+    obj_p col, *p;
+
+    p = AS_LIST(AS_LIST(table)[1]) + i;
+    col = cow_obj(*p);
+    if (col != *p) {
+        drop_obj(*p);
+        *p = col;
+    }
+
+    return p;
 }
 
 obj_p *at_obj_ref(obj_p obj, obj_p idx) {
@@ -417,17 +521,9 @@ obj_p ray_modify(obj_p *x, i64_t n) {
 /*
  * inserts for tables
  */
-#define INSERT_ERROR(r)                   \
-    {                                     \
-        if (lst_allocated)                \
-            drop_obj(lst);                \
-        UNCOW_OBJ(obj, val, original, r); \
-    }
-
 obj_p ray_insert(obj_p *x, i64_t n) {
     i64_t i, m, l;
-    obj_p lst, col, *val = NULL, obj, res, original;
-    b8_t need_drop, lst_allocated;
+    obj_p lst, *col, *val = NULL, obj, res, original;
 
     if (n != 2)
         return err_arity(2, n, 0);
@@ -443,134 +539,45 @@ obj_p ray_insert(obj_p *x, i64_t n) {
     }
 
     // Check integrity of the table with the new object
-    lst = x[1];
-    lst_allocated = B8_FALSE;
-
-    // Handle dict/table input: reorder columns to match table order
-    if (lst->type == TYPE_DICT || lst->type == TYPE_TABLE) {
-        if (lst->type == TYPE_DICT && AS_LIST(lst)[0]->type != TYPE_SYMBOL) {
-            res = err_type(0, 0, 0, 0);
-            UNCOW_OBJ(obj, val, original, res);
-        }
-
-        // Check that input doesn't have more columns than table
-        l = AS_LIST(lst)[0]->len;
-        if (l > AS_LIST(obj)[0]->len) {
-            res = err_length(0, 0, 0, 0, 0, 0);
-            UNCOW_OBJ(obj, val, original, res);
-        }
+    lst = __input_rows(obj, x[1], &m);
+    if (IS_ERR(lst))
+        UNCOW_OBJ(obj, val, original, lst);
 
-        // Reorder columns to match table order (allows flexible column ordering)
-        res = __reorder_columns(AS_LIST(obj)[0], AS_LIST(obj)[1], AS_LIST(lst)[0], AS_LIST(lst)[1]);
-        if (IS_ERR(res))
-            UNCOW_OBJ(obj, val, original, res);
-
-        lst = res;
-        lst_allocated = B8_TRUE;
+    if (m == 0) {
+        drop_obj(lst);
+        res = err_length(0, 0, 0, 0, 0, 0);
+        UNCOW_OBJ(obj, val, original, res);
     }
 
-    switch (lst->type) {
-        case TYPE_LIST:
-            l = lst->len;
-            // With column reordering, we might have fewer columns than the table
-            // but not more. The missing columns should be filled with nulls.
-            if (l > AS_LIST(obj)[0]->len) {
-                res = err_length(0, 0, 0, 0, 0, 0);
-                INSERT_ERROR(res);
-            }
-
-            // There is one record to be inserted
-            if (IS_ATOM(AS_LIST(lst)[0])) {
-                // Check all the elements of the list
-                for (i = 0; i < l; i++) {
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                        res = err_type(0, 0, 0, 0);
-                        INSERT_ERROR(res);
-                    }
-                }
-
-                // Insert the record now
-                for (i = 0; i < l; i++) {
-                    col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    need_drop = (col != AS_LIST(AS_LIST(obj)[1])[i]);
-                    res = push_obj(&col, clone_obj(AS_LIST(lst)[i]));
-                    if (IS_ERR(res)) {
-                        if (need_drop)
-                            drop_obj(col);
-                        INSERT_ERROR(res);
-                    }
-                    if (need_drop)
-                        drop_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    AS_LIST(AS_LIST(obj)[1])[i] = col;
-                }
-            } else {
-                // There are multiple records to be inserted
-                m = AS_LIST(lst)[0]->len;
-                if (m == 0) {
-                    res = err_length(0, 0, 0, 0, 0, 0);
-                    INSERT_ERROR(res);
-                }
-
-                // Check all the elements of the list
-                for (i = 0; i < l; i++) {
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                        res = err_type(0, 0, 0, 0);
-                        INSERT_ERROR(res);
-                    }
-
-                    if (AS_LIST(lst)[i]->len != m) {
-                        res = err_length(0, 0, 0, 0, 0, 0);
-                        INSERT_ERROR(res);
-                    }
-                }
-
-                // Insert all the records now
-                for (i = 0; i < l; i++) {
-                    col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    need_drop = (col != AS_LIST(AS_LIST(obj)[1])[i]);
-                    res = append_list(&col, AS_LIST(lst)[i]);
-                    if (IS_ERR(res)) {
-                        if (need_drop)
-                            drop_obj(col);
-                        INSERT_ERROR(res);
-                    }
-                    if (need_drop)
-                        drop_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-
-                    AS_LIST(AS_LIST(obj)[1])[i] = col;
-                }
-            }
-
-            break;
-
-        default:
-            res = err_type(0, 0, 0, 0);
-            INSERT_ERROR(res);
+    // Insert the rows now
+    l = lst->len;
+    for (i = 0; i < l; i++) {
+        col = __own_column(obj, i);
+        if (m < 0)
+            push_obj(col, clone_obj(AS_LIST(lst)[i]));
+        else
+            append_list(col, AS_LIST(lst)[i]);
     }
 
-    if (lst_allocated)
-        drop_obj(lst);
+    drop_obj(lst);
 
     return __commit(x[0], obj, val);
 }
-#undef INSERT_ERROR
 
 /*
  * update/inserts for tables
  */
-#define UPSERT_ERROR(r)                       \
-    {                                         \
-        res = r;                              \
-        if (lst_allocated)                    \
-            drop_obj(lst);                    \
-        UNCOW_OBJ(obj, val, original, res);   \
+#define UPSERT_ERROR(r)                     \
+    {                                       \
+        res = r;                            \
+        drop_obj(lst);                      \
+        UNCOW_OBJ(obj, val, original, res); \
     }
 
 obj_p ray_upsert(obj_p *x, i64_t n) {
-    i64_t i, j, m, p, l, ll, keys;
+    i64_t i, j, m, p, keys;
     i64_t row, *rows;
-    obj_p obj, k1, k2, idx, col, lst, *val = NULL, v, original, res;
-    b8_t lst_allocated;
+    obj_p obj, k1, k2, idx, *col, lst, *val = NULL, v, original, res;
 
     if (n != 3)
         return err_arity(3, n, 0);
@@ -593,362 +600,212 @@ obj_p ray_upsert(obj_p *x, i64_t n) {
 
     p = AS_LIST(obj)[0]->len;
 
-    lst = x[2];
-    lst_allocated = B8_FALSE;
+    lst = __input_rows(obj, x[2], &m);
+    if (IS_ERR(lst))
+        UNCOW_OBJ(obj, val, original, lst);
 
-    // Handle dict/table input: reorder columns to match table order
-    if (lst->type == TYPE_DICT || lst->type == TYPE_TABLE) {
-        if (lst->type == TYPE_DICT && AS_LIST(lst)[0]->type != TYPE_SYMBOL) {
-            res = err_type(0, 0, 0, 0);
-            UNCOW_OBJ(obj, val, original, res);
-        }
+    if (keys > p)
+        UPSERT_ERROR(err_domain(2, 0));
 
-        // Check that input doesn't have more columns than table
-        l = AS_LIST(lst)[0]->len;
-        if (l > p) {
-            res = err_length(0, 0, 0, 0, 0, 0);
-            UNCOW_OBJ(obj, val, original, res);
+    // Find the rows which have the given keys
+    if (keys == 1) {
+        k1 = at_idx(AS_LIST(obj)[1], 0);
+        if (k1->type == TYPE_ENUM || k1->type == TYPE_MAPLIST) {
+            v = ray_value(k1);
+            drop_obj(k1);
+            k1 = v;
         }
+        k2 = at_idx(lst, 0);
+        if (m < 0 && k1->type == TYPE_LIST)
+            k2 = vn_list(1, k2);
+    } else {
+        k1 = ray_take(AS_LIST(obj)[1], x[1]);
+        if (m < 0) {
+            // A record is a table of one row
+            k2 = LIST(keys);
+            for (i = 0; i < keys; i++) {
+                v = AS_LIST(lst)[i];
+                AS_LIST(k2)[i] = vector(IS_ATOM(v) && AS_LIST(k1)[i]->type != TYPE_LIST ? v->type : TYPE_LIST, 1);
+                ins_obj(&AS_LIST(k2)[i], 0, clone_obj(v));
+            }
+        } else
+            k2 = ray_take(lst, x[1]);
+    }
 
-        // Reorder columns to match table order (allows flexible column ordering)
-        res = __reorder_columns(AS_LIST(obj)[0], AS_LIST(obj)[1], AS_LIST(lst)[0], AS_LIST(lst)[1]);
-        if (IS_ERR(res))
-            UNCOW_OBJ(obj, val, original, res);
+    idx = index_upsert_obj(k2, k1, keys);
 
-        lst = res;
-        lst_allocated = B8_TRUE;
-    }
+    drop_obj(k1);
+    drop_obj(k2);
 
-    switch (lst->type) {
-        case TYPE_LIST:
-            l = ops_count(lst);
-
-            if (l == 0)
-                UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-
-            if (l > p)
-                UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-
-            // Check if this is a single record (atoms) or multiple records (vectors)
-            if (IS_ATOM(AS_LIST(lst)[0])) {
-                // Single record case - validate all elements are atoms or compatible
-                for (i = 0; i < l; i++) {
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                        UPSERT_ERROR(err_type(0, 0, 0, 0));
-                    }
-                }
-
-                // Build key for lookup
-                if (keys == 1) {
-                    k1 = at_idx(AS_LIST(obj)[1], 0);
-                    k2 = clone_obj(AS_LIST(lst)[0]);
-                } else {
-                    k1 = ray_take(AS_LIST(obj)[1], x[1]);
-                    k2 = ray_take(lst, x[1]);
-                }
-
-                idx = index_upsert_obj(k2, k1, x[1]->i64);
-
-                drop_obj(k1);
-                drop_obj(k2);
-
-                if (IS_ERR(idx))
-                    UPSERT_ERROR(idx);
-
-                row = AS_I64(idx)[0];
-                drop_obj(idx);
-
-                // Process each column
-                for (i = 0; i < p; i++) {
-                    col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    if (col != AS_LIST(AS_LIST(obj)[1])[i]) {
-                        drop_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                        AS_LIST(AS_LIST(obj)[1])[i] = col;
-                    }
-
-                    // Insert record
-                    if (row == NULL_I64) {
-                        v = (i < l) ? clone_obj(AS_LIST(lst)[i]) : null(AS_LIST(AS_LIST(obj)[1])[i]->type);
-                        push_obj(AS_LIST(AS_LIST(obj)[1]) + i, v);
-                    }
-                    // Update record (skip keys since they match, and only update provided columns)
-                    else if (i >= keys && i < l) {
-                        set_idx(AS_LIST(AS_LIST(obj)[1]) + i, row, clone_obj(AS_LIST(lst)[i]));
-                    }
-                }
-
-                if (lst_allocated)
-                    drop_obj(lst);
-                return __commit(x[0], obj, val);
-            }
+    if (IS_ERR(idx))
+        UPSERT_ERROR(idx);
+
+    rows = AS_I64(idx);
+
+    // Process each column
+    for (i = 0; i < p; i++) {
+        col = __own_column(obj, i);
+
+        // Single record
+        if (m < 0) {
+            v = clone_obj(AS_LIST(lst)[i]);
+            if (rows[0] == NULL_I64)
+                push_obj(col, v);
+            else if (i >= keys && __given(x[2], obj, i))
+                set_idx(col, rows[0], v);
+            else
+                drop_obj(v);
+            continue;
+        }
 
-            // Multiple records case - validate the list contains vectors
-            ll = AS_LIST(lst)[0]->len;
-            for (i = 0; i < l; i++) {
-                if (!IS_VECTOR(AS_LIST(lst)[i]))
-                    UPSERT_ERROR(err_type(0, 0, 0, 0));
+        for (j = 0; j < m; j++) {
+            row = rows[j];
 
-                if (AS_LIST(lst)[i]->len != ll)
-                    UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-            }
+            // Insert record
+            if (row == NULL_I64)
+                push_obj(col, at_idx(AS_LIST(lst)[i], j));
+            // Update record (we can skip the keys since they are matches, and only update provided columns)
+            else if (i >= keys && __given(x[2], obj, i))
+                set_idx(col, row, at_idx(AS_LIST(lst)[i], j));
+        }
+    }
 
-            if (keys == 1) {
-                k1 = at_idx(AS_LIST(obj)[1], 0);
-                k2 = at_idx(lst, 0);
-                m = ops_count(k2);
-            } else {
-                k1 = ray_take(AS_LIST(obj)[1], x[1]);
-                k2 = ray_take(lst, x[1]);
-                m = ops_count(AS_LIST(k2)[0]);
-            }
+    drop_obj(idx);
+    drop_obj(lst);
 
-            idx = index_upsert_obj(k2, k1, x[1]->i64);
+    return __commit(x[0], obj, val);
+}
+#undef UPSERT_ERROR
 
-            drop_obj(k1);
-            drop_obj(k2);
+// Type of the column which holds the values of an update
+i8_t __column_type(obj_p val, obj_p gids) {
+    i64_t i, l;
+    i8_t type;
+    obj_p v;
 
-            if (IS_ERR(idx))
-                UPSERT_ERROR(idx);
+    // One vector per group: they are the parts of the new column
+    if (gids != NULL_OBJ && val->type == TYPE_LIST) {
+        l = val->len;
+        type = TYPE_LIST;
+        for (i = 0; i < l; i++) {
+            v = AS_LIST(val)[i];
+            if (!IS_VECTOR(v) || v->type == TYPE_C8 || v->len != AS_LIST(gids)[i]->len)
+                return TYPE_LIST;
+            if (i > 0 && v->type != type)
+                return TYPE_LIST;
+            type = v->type;
+        }
 
-            // Check all the elements of the list
-            for (i = 0; i < l; i++) {
-                if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[i], AS_LIST(lst)[i])) {
-                    drop_obj(idx);
-                    UPSERT_ERROR(err_type(0, 0, 0, 0));
-                }
-
-                if (AS_LIST(lst)[i]->len != m) {
-                    drop_obj(idx);
-                    UPSERT_ERROR(err_length(0, 0, 0, 0, 0, 0));
-                }
-            }
+        return type;
+    }
 
-            rows = AS_I64(idx);
-
-            // Process each column
-            for (i = 0; i < p; i++) {
-                col = cow_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                if (col != AS_LIST(AS_LIST(obj)[1])[i]) {
-                    drop_obj(AS_LIST(AS_LIST(obj)[1])[i]);
-                    AS_LIST(AS_LIST(obj)[1])[i] = col;
-                }
-
-                for (j = 0; j < m; j++) {
-                    row = rows[j];
-
-                    // Insert record
-                    if (row == NULL_I64) {
-                        v = (i < l) ? at_idx(AS_LIST(lst)[i], j) : null(AS_LIST(AS_LIST(obj)[1])[i]->type);
-                        push_obj(AS_LIST(AS_LIST(obj)[1]) + i, v);
-                    }
-                    // Update record (we can skip the keys since they are matches, and only update provided columns)
-                    else if (i >= keys && i < l) {
-                        v = at_idx(AS_LIST(lst)[i], j);
-                        set_idx(AS_LIST(AS_LIST(obj)[1]) + i, row, v);
-                    }
-                }
-            }
+    return val->type;
+}
 
-            drop_obj(idx);
+// Checks if a value can be assigned to l rows of a column
+obj_p __check_value(obj_p col, obj_p val, i64_t l, i64_t full) {
+    if (!__suitable_types(col, val))
+        return err_type(col->type, val->type, 0, 0);
 
-            if (lst_allocated)
-                drop_obj(lst);
-            return __commit(x[0], obj, val);
+    // When using filters, allow:
+    // 1. Scalars (atoms) - will be applied to all filtered rows
+    // 2. Vectors matching filter length - one value per filtered row
+    // 3. Vectors matching full table length - will use first filter->len elements
+    if (!IS_ATOM(val) && col->type != TYPE_LIST && val->len != l && val->len != full)
+        return err_length(l, val->len, 0, 0, 0, 0);
 
-        default:
-            UPSERT_ERROR(err_type(0, 0, 0, 0));
-    }
+    return NULL_OBJ;
 }
-#undef UPSERT_ERROR
 
-obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p groupby) {
+// gids: row ids of each group, or null
+obj_p __update_table(obj_p tab, obj_p keys, obj_p vals, obj_p filters, obj_p gids) {
     i64_t i, l, m, n;
     i64_t j, *ids;
-    obj_p prm, obj, *val = NULL, gids, v, col, index, res, original;
+    obj_p prm, obj, *val = NULL, v, *col, res = NULL_OBJ, original;
 
     // No filters nor groupings
-    if (filters == NULL_OBJ && groupby == NULL_OBJ) {
+    if (filters == NULL_OBJ && gids == NULL_OBJ) {
         prm = vn_list(4, tab, env_get_internal_function_by_id(SYMBOL_SET), keys, vals);
         obj = ray_alter(AS_LIST(prm), prm->len);
         drop_obj(prm);
 
         return obj;
     }
-    // Groupings
-    else if (groupby != NULL_OBJ) {
-        obj = __fetch(tab, &val, &original);
-        if (IS_ERR(obj)) {
-            drop_obj(tab);
-            drop_obj(keys);
-            drop_obj(vals);
-            drop_obj(filters);
-            drop_obj(groupby);
-
-            return obj;
-        }
-
-        l = keys->len;
 
-        index = index_group(groupby, filters);
-        gids = aggr_row(groupby, index);
-        drop_obj(index);
-        drop_obj(groupby);
-        n = gids->len;
-
-        // Check each column
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
+    obj = __fetch(tab, &val, &original);
+    if (IS_ERR(obj)) {
+        res = obj;
+        goto cleanup;
+    }
 
-            // Add new column
-            if (j == NULL_I64) {
-                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
-                push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, ops_count(obj)));
-            }
-            // Check existing column
-            else {
-                for (m = 0; m < n; m++) {
-                    v = at_idx(AS_LIST(vals)[i], m);
-                    if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], v)) {
-                        res = err_type(0, 0, 0, 0);
-                        drop_obj(v);
-                        drop_obj(tab);
-                        drop_obj(keys);
-                        drop_obj(vals);
-                        drop_obj(filters);
-                        drop_obj(gids);
-                        UNCOW_OBJ(obj, val, original, res);
-                    }
-
-                    if (!__suitable_lengths(AS_LIST(AS_LIST(obj)[1])[j], obj)) {
-                        res = err_length(0, 0, 0, 0, 0, 0);
-                        drop_obj(v);
-                        drop_obj(tab);
-                        drop_obj(keys);
-                        drop_obj(vals);
-                        drop_obj(filters);
-                        drop_obj(gids);
-                        UNCOW_OBJ(obj, val, original, res);
-                    }
-
-                    drop_obj(v);
-                }
-            }
-        }
+    l = keys->len;
+    n = (gids == NULL_OBJ) ? 1 : gids->len;
 
-        // Cow each column
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
+    // Check each column
+    for (i = 0; i < l && !IS_ERR(res); i++) {
+        j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
+        v = AS_LIST(vals)[i];
 
-            col = cow_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-            if (col != AS_LIST(AS_LIST(obj)[1])[j]) {
-                drop_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-                AS_LIST(AS_LIST(obj)[1])[j] = col;
-            }
+        // One value for each group
+        if (gids != NULL_OBJ && !IS_ATOM(v) && ops_count(v) != n) {
+            res = err_length(n, ops_count(v), 0, 0, 0, 0);
+            break;
         }
 
-        // Update by groups
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
-
-            for (m = 0; m < n; m++) {
-                ids = AS_I64(AS_LIST(gids)[m]);
-                set_ids(AS_LIST(AS_LIST(obj)[1]) + j, ids, AS_LIST(gids)[m]->len, at_idx(AS_LIST(vals)[i], m));
-            }
+        prm = (j == NULL_I64) ? nullv(__column_type(v, gids), ops_count(obj)) : clone_obj(AS_LIST(AS_LIST(obj)[1])[j]);
+        for (m = 0; m < n && !IS_ERR(res); m++) {
+            v = (gids == NULL_OBJ) ? clone_obj(AS_LIST(vals)[i]) : at_idx(AS_LIST(vals)[i], m);
+            res = (gids == NULL_OBJ) ? __check_value(prm, v, filters->len, prm->len)
+                                     : __check_value(prm, v, AS_LIST(gids)[m]->len, AS_LIST(gids)[m]->len);
+            drop_obj(v);
         }
-
-        drop_obj(keys);
-        drop_obj(vals);
-        drop_obj(filters);
-        drop_obj(gids);
-
-        res = __commit(tab, obj, val);
-        drop_obj(tab);
-
-        return res;
+        drop_obj(prm);
     }
-    // Filters
-    else {
-        obj = __fetch(tab, &val, &original);
-        if (IS_ERR(obj)) {
-            drop_obj(tab);
-            drop_obj(keys);
-            drop_obj(vals);
-            drop_obj(filters);
-
-            return obj;
-        }
 
-        l = keys->len;
+    if (IS_ERR(res)) {
+        if (val == NULL ? obj != original : *val != obj)
+            drop_obj(obj);
+        goto cleanup;
+    }
 
-        // Check each column
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
+    // Update each column
+    for (i = 0; i < l; i++) {
+        j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
 
-            // Add new column
-            if (j == NULL_I64) {
-                push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
-                push_obj(AS_LIST(obj) + 1, nullv(AS_LIST(vals)[i]->type, ops_count(obj)));
-            }
-            // Check existing column
-            else {
-                if (!__suitable_types(AS_LIST(AS_LIST(obj)[1])[j], AS_LIST(vals)[i])) {
-                    res = err_type(0, 0, 0, 0);
-                    drop_obj(tab);
-                    drop_obj(keys);
-                    drop_obj(vals);
-                    drop_obj(filters);
-                    UNCOW_OBJ(obj, val, original, res);
-                }
-
-                // When using filters, allow:
-                // 1. Scalars (atoms) - will be applied to all filtered rows
-                // 2. Vectors matching filter length - one value per filtered row
-                // 3. Vectors matching full table length - will use first filter->len elements
-                i64_t vals_len = ops_count(AS_LIST(vals)[i]);
-                if (!IS_ATOM(AS_LIST(vals)[i]) && vals_len != filters->len &&
-                    vals_len != AS_LIST(AS_LIST(obj)[1])[j]->len) {
-                    res = err_length(0, 0, 0, 0, 0, 0);
-                    drop_obj(tab);
-                    drop_obj(keys);
-                    drop_obj(vals);
-                    drop_obj(filters);
-                    UNCOW_OBJ(obj, val, original, res);
-                }
-            }
+        // Add new column
+        if (j == NULL_I64) {
+            j = AS_LIST(obj)[0]->len;
+            push_obj(AS_LIST(obj) + 1, nullv(__column_type(AS_LIST(vals)[i], gids), ops_count(obj)));
+            push_raw(AS_LIST(obj), AS_SYMBOL(keys) + i);
         }
 
-        // Cow each column
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
+        col = __own_column(obj, j);
 
-            col = cow_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-            if (col != AS_LIST(AS_LIST(obj)[1])[j]) {
-                drop_obj(AS_LIST(AS_LIST(obj)[1])[j]);
-                AS_LIST(AS_LIST(obj)[1])[j] = col;
+        // Update by groups
+        if (gids != NULL_OBJ) {
+            for (m = 0; m < n; m++) {
+                ids = AS_I64(AS_LIST(gids)[m]);
+                set_ids(col, ids, AS_LIST(gids)[m]->len, at_idx(AS_LIST(vals)[i], m));
             }
-        }
-
-        ids = AS_I64(filters);
-
-        for (i = 0; i < l; i++) {
-            j = find_raw(AS_LIST(obj)[0], AS_I64(keys) + i);
-            set_ids(AS_LIST(AS_LIST(obj)[1]) + j, ids, filters->len, at_idx(vals, i));
-        }
+        } else
+            set_ids(col, AS_I64(filters), filters->len, at_idx(vals, i));
+    }
 
-        drop_obj(keys);
-        drop_obj(vals);
-        drop_obj(filters);
+    res = __commit(tab, obj, val);
 
-        res = __commit(tab, obj, val);
-        drop_obj(tab);
+cleanup:
+    drop_obj(tab);
+    drop_obj(keys);
+    drop_obj(vals);
+    drop_obj(filters);
+    drop_obj(gids);
 
-        return res;
-    }
+    return res;
 }
 
 obj_p ray_update(obj_p obj) {
     i64_t i, keyslen;
-    obj_p tabsym, keys = NULL_OBJ, vals = NULL_OBJ, filters = NULL_OBJ, bins = NULL_OBJ, groupby = NULL_OBJ, tab, sym,
+    obj_p tabsym, keys = NULL_OBJ, vals = NULL_OBJ, filters = NULL_OBJ, bins, groupby, gids = NULL_OBJ, tab, sym,
                   prm, val, res;
     struct query_ctx_t ctx;
 
@@ -1021,17 +878,25 @@ obj_p ray_update(obj_p obj) {
     // Apply groupping
     prm = at_sym(obj, "by", 2);
     if (prm != NULL_OBJ) {
-        groupby = eval(prm);
+        groupby = get_gvals(prm);
+        i = (prm->type == TYPE_DICT && ops_count(prm) > 1);
         drop_obj(prm);
 
         if (IS_ERR(groupby)) {
             res = groupby;
-            groupby = NULL_OBJ;
             goto cleanup;
         }
 
-        bins = index_group(groupby, filters);
+        bins = i ? index_group_list(groupby, filters) : index_group(groupby, filters);
+        if (IS_ERR(bins)) {
+            drop_obj(groupby);
+            res = bins;
+            goto cleanup;
+        }
+
         prm = group_map(tab, bins);
+        gids = aggr_row(groupby, bins);
+        drop_obj(groupby);
         drop_obj(bins);
 
         if (IS_ERR(prm)) {
@@ -1100,7 +965,7 @@ obj_p ray_update(obj_p obj) {
     query_ctx_destroy(&ctx);
 
     // This one will take care of dropping all the arguments
-    return __update_table(tabsym, keys, vals, filters, groupby);
+    return __update_table(tabsym, keys, vals, filters, gids);
 
 cleanup:
     if (ctx.table != tab && ctx.table != NULL_OBJ)
@@ -1112,6 +977,6 @@ cleanup:
     drop_obj(keys);
     drop_obj(vals);
     drop_obj(filters);
-    drop_obj(groupby);
+    drop_obj(gids);
     return res;
 }
-- 
2.43.0


From ee05561c4e1c1dbacbe3fef624dddcb79dc2a065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 057/102] fix: joins with empty tables, enum columns and bad
 keys; unsorted as-of rows; window joins over 64 bit times (C14, C15)

---
 core/aggr.c  |  35 +++++---
 core/index.c | 160 +++++++++++++++++++++++++++++----
 core/index.h |   4 +-
 core/join.c  | 247 ++++++++++++++++++++++++++++++++++-----------------
 core/join.h  |   1 +
 5 files changed, 333 insertions(+), 114 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 7a1af25..95a3a6a 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -35,6 +35,7 @@
 #include "index.h"
 #include "pool.h"
 #include "order.h"
+#include "join.h"
 
 i64_t indexr_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
     i64_t left, right, mid, idx;
@@ -339,9 +340,11 @@ static obj_p aggr_map_window(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
     out_len = group_count;
 
     n = pool_get_executors_count(pool);
+    if (n > group_count)
+        n = group_count;
     res = vector(outype, out_len);
 
-    if (n == 1) {
+    if (n <= 1) {
         argv[0] = (raw_p)group_len;
         argv[1] = (raw_p)0;
         argv[2] = val;
@@ -351,9 +354,6 @@ static obj_p aggr_map_window(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
         return vn_list(1, res);
     }
 
-    if (n > group_count)
-        n = group_count;
-
     pool_prepare(pool);
     l = group_len;
     chunk = l / n;
@@ -474,12 +474,21 @@ static b8_t aggr_has_rows(obj_p val, obj_p index) {
     switch (index_group_type(index)) {
         case INDEX_TYPE_SHIFT:
         case INDEX_TYPE_IDS:
+        case INDEX_TYPE_WINDOW:
             return (val->type > TYPE_LIST && val->type <= TYPE_C8) || val->type == TYPE_LIST || val->type == TYPE_ENUM;
         default:
             return B8_FALSE;
     }
 }
 
+// Values of the rows, null where a group has none
+static obj_p aggr_take_rows(obj_p val, obj_p index, obj_p ids) {
+    if (index_group_type(index) == INDEX_TYPE_WINDOW)
+        return select_column(NULL_OBJ, val, AS_I64(ids), ids->len);
+
+    return at_ids(val, AS_I64(ids), ids->len);
+}
+
 obj_p aggr_first(obj_p val, obj_p index) {
     i64_t i, j, n, l;
     i64_t *xo, *xe, *first_ids, *filter_ids;
@@ -624,7 +633,7 @@ obj_p aggr_first(obj_p val, obj_p index) {
             return parts;
         ek = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
         drop_obj(parts);
-        res = at_ids(val, AS_I64(ek), n);
+        res = aggr_take_rows(val, index, ek);
         drop_obj(ek);
         return res;
     }
@@ -960,7 +969,7 @@ obj_p aggr_last(obj_p val, obj_p index) {
             return parts;
         ek = AGGR_COLLECT(parts, n, i64, i64, if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
         drop_obj(parts);
-        res = at_ids(val, AS_I64(ek), n);
+        res = aggr_take_rows(val, index, ek);
         drop_obj(ek);
         return res;
     }
@@ -2060,9 +2069,11 @@ static obj_p aggr_map_avg_window(obj_p val, obj_p index) {
     out_len = group_count;
 
     n = pool_get_executors_count(pool);
+    if (n > group_count)
+        n = group_count;
     res = vn_list(2, F64(out_len), I64(out_len));
 
-    if (n == 1) {
+    if (n <= 1) {
         argv[0] = (raw_p)group_len;
         argv[1] = (raw_p)0;
         argv[2] = val;
@@ -2072,9 +2083,6 @@ static obj_p aggr_map_avg_window(obj_p val, obj_p index) {
         return vn_list(1, res);
     }
 
-    if (n > group_count)
-        n = group_count;
-
     pool_prepare(pool);
     l = group_len;
     chunk = l / n;
@@ -2919,9 +2927,11 @@ static obj_p aggr_map_dev_window(obj_p val, obj_p index) {
     out_len = group_count;
 
     n = pool_get_executors_count(pool);
+    if (n > group_count)
+        n = group_count;
     res = vn_list(3, F64(out_len), F64(out_len), I64(out_len));
 
-    if (n == 1) {
+    if (n <= 1) {
         argv[0] = (raw_p)group_len;
         argv[1] = (raw_p)0;
         argv[2] = val;
@@ -2931,9 +2941,6 @@ static obj_p aggr_map_dev_window(obj_p val, obj_p index) {
         return vn_list(1, res);
     }
 
-    if (n > group_count)
-        n = group_count;
-
     pool_prepare(pool);
     l = group_len;
     chunk = l / n;
diff --git a/core/index.c b/core/index.c
index 35631c9..d839d22 100644
--- a/core/index.c
+++ b/core/index.c
@@ -32,6 +32,7 @@
 #include "string.h"
 #include "pool.h"
 #include "def.h"
+#include "order.h"
 
 const i64_t MAX_RANGE = 1 << 20;
 
@@ -2911,19 +2912,48 @@ obj_p index_group_list(obj_p obj, obj_p filter) {
     #endif  // Old chunk-based approach
 }
 
-obj_p index_left_join_obj(obj_p lcols, obj_p rcols, i64_t len) {
-    i64_t i, ll, rl;
+// Types ray_find looks a vector of up in another one of the same type
+static b8_t index_find_type(i8_t type) {
+    switch (type) {
+        case TYPE_B8:
+        case TYPE_U8:
+        case TYPE_C8:
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+        case TYPE_I64:
+        case TYPE_SYMBOL:
+        case TYPE_TIMESTAMP:
+        case TYPE_GUID:
+            return B8_TRUE;
+        default:
+            return B8_FALSE;
+    }
+}
+
+obj_p index_left_join_obj(obj_p lcols, obj_p rcols) {
+    i64_t i, ll, rl, len;
     obj_p ht, ids, hashes;
     i64_t idx;
     __index_list_ctx_t ctx;
 
+    len = lcols->len;
+    ll = ops_count(AS_LIST(lcols)[0]);
+    rl = ops_count(AS_LIST(rcols)[0]);
+
+    // nothing to match
+    if (ll == 0 || rl == 0) {
+        ids = I64(ll);
+        for (i = 0; i < ll; i++)
+            AS_I64(ids)[i] = NULL_I64;
+        return ids;
+    }
+
     // one column join
-    if (len == 1)
-        return ray_find(rcols, lcols);
+    if (len == 1 && index_find_type(AS_LIST(lcols)[0]->type))
+        return ray_find(AS_LIST(rcols)[0], AS_LIST(lcols)[0]);
 
     // multiple columns join
-    ll = ops_count(AS_LIST(lcols)[0]);
-    rl = ops_count(AS_LIST(rcols)[0]);
     ht = ht_oa_create(rl, -1);
     hashes = I64(MAXI64(ll, rl));
 
@@ -2955,15 +2985,19 @@ obj_p index_left_join_obj(obj_p lcols, obj_p rcols, i64_t len) {
     return ids;
 }
 
-obj_p index_inner_join_obj(obj_p lcols, obj_p rcols, i64_t len) {
-    i64_t i, j, ll, rl;
+obj_p index_inner_join_obj(obj_p lcols, obj_p rcols) {
+    i64_t i, j, ll, rl, len;
     obj_p ht, lids, rids, find_res;
     i64_t idx;
     __index_list_ctx_t ctx;
 
-    if (len == 1) {
+    len = lcols->len;
+    ll = ops_count(AS_LIST(lcols)[0]);
+    rl = ops_count(AS_LIST(rcols)[0]);
+
+    if (len == 1 || ll == 0 || rl == 0) {
         // For single key: find matching indices from left in right
-        find_res = ray_find(rcols, lcols);
+        find_res = index_left_join_obj(lcols, rcols);
         if (IS_ERR(find_res))
             return find_res;
 
@@ -2991,8 +3025,6 @@ obj_p index_inner_join_obj(obj_p lcols, obj_p rcols, i64_t len) {
         return vn_list(2, lids, rids);
     }
 
-    ll = ops_count(AS_LIST(lcols)[0]);
-    rl = ops_count(AS_LIST(rcols)[0]);
     ht = ht_oa_create(rl, -1);
     rids = I64(MAXI64(ll, rl));
 
@@ -3220,12 +3252,23 @@ static obj_p __asof_ids_partial(__index_list_ctx_t *ctx, obj_p lxcol, obj_p rxco
 }
 
 obj_p index_asof_join_obj(obj_p lcols, obj_p lxcol, obj_p rcols, obj_p rxcol) {
-    i64_t i, ll, rl, n, chunk;
-    obj_p v, ht, ids, hashes;
+    i64_t i, j, ll, rl, n, chunk;
+    obj_p v, ht, ids, hashes, order;
     i64_t idx;
     __index_list_ctx_t ctx;
     pool_p pool;
 
+    switch (lxcol->type) {
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+        case TYPE_I64:
+        case TYPE_TIMESTAMP:
+            break;
+        default:
+            return err_type(TYPE_TIMESTAMP, lxcol->type, 0, 0);
+    }
+
     // asof-join requires at least 2 keys: grouping key(s) + temporal asof key
     // Single-key asof-join is not supported (needs time component)
     if (lcols->len == 0)
@@ -3233,13 +3276,20 @@ obj_p index_asof_join_obj(obj_p lcols, obj_p lxcol, obj_p rcols, obj_p rxcol) {
 
     ll = ops_count(AS_LIST(lcols)[0]);
     rl = ops_count(AS_LIST(rcols)[0]);
+
+    // Rows of a key are searched by time, so they are collected in the order of the time
+    order = ray_iasc(rxcol);
+    if (IS_ERR(order))
+        return order;
+
     ht = ht_oa_create(rl, TYPE_I64);
     hashes = I64(MAXI64(ll, rl));
 
     // Right hashes
     __index_list_precalc_hash(rcols, (i64_t *)AS_I64(hashes), rcols->len, rl, NULL, B8_TRUE);
     ctx = (__index_list_ctx_t){rcols, rcols, (i64_t *)AS_I64(hashes), NULL};
-    for (i = 0; i < rl; i++) {
+    for (j = 0; j < rl; j++) {
+        i = AS_I64(order)[j];
         idx = ht_oa_tab_next_with(&ht, i, &__index_list_hash_get, &__index_list_cmp_row, &ctx);
         if (AS_I64(AS_LIST(ht)[0])[idx] == NULL_I64) {
             AS_I64(AS_LIST(ht)[0])[idx] = i;
@@ -3251,6 +3301,7 @@ obj_p index_asof_join_obj(obj_p lcols, obj_p lxcol, obj_p rcols, obj_p rxcol) {
         }
     }
 
+    drop_obj(order);
     ids = I64(ll);
 
     // Left hashes
@@ -3312,6 +3363,57 @@ static obj_p __window_join_fill(__index_list_ctx_t *ctx, obj_p ht, i64_t len, i6
     return NULL_OBJ;
 }
 
+// Place of the value among the sorted ones: odd when it is one of them, even when it falls between
+static i32_t index_window_place(i64_t val, i64_t vals[], i64_t len) {
+    i64_t left, right, mid;
+
+    left = 0, right = len;
+    while (left < right) {
+        mid = left + (right - left) / 2;
+        if (vals[mid] < val)
+            left = mid + 1;
+        else
+            right = mid;
+    }
+
+    return (i32_t)(2 * left + ((left < len && vals[left] == val) ? 1 : 0));
+}
+
+// Windows are searched by 32 bit values, wider ones are replaced with their places
+static obj_p index_window_places(obj_p col, obj_p sorted) {
+    i64_t i, l;
+    obj_p res;
+
+    l = col->len;
+    res = I32(l);
+    for (i = 0; i < l; i++)
+        AS_I32(res)[i] = index_window_place(AS_I64(col)[i], AS_I64(sorted), sorted->len);
+
+    return res;
+}
+
+static b8_t index_window_bounds(obj_p windows, i8_t type, i64_t len) {
+    i64_t i;
+    i8_t t;
+
+    if (windows->type != TYPE_LIST || windows->len != 2)
+        return B8_FALSE;
+
+    for (i = 0; i < 2; i++) {
+        t = AS_LIST(windows)[i]->type;
+        if (type == TYPE_I64 || type == TYPE_TIMESTAMP) {
+            if (t != TYPE_I64 && t != TYPE_TIMESTAMP)
+                return B8_FALSE;
+        } else if (t != TYPE_I32 && t != TYPE_DATE && t != TYPE_TIME)
+            return B8_FALSE;
+
+        if (AS_LIST(windows)[i]->len != len)
+            return B8_FALSE;
+    }
+
+    return B8_TRUE;
+}
+
 obj_p index_window_join_obj(obj_p lcols, obj_p lxcol, obj_p rcols, obj_p rxcol, obj_p windows, obj_p ltab, obj_p rtab,
                             i64_t jtype) {
     i64_t i, ll, rl, n, chunk;
@@ -3322,6 +3424,21 @@ obj_p index_window_join_obj(obj_p lcols, obj_p lxcol, obj_p rcols, obj_p rxcol,
 
     ll = ops_count(ltab);
     rl = ops_count(rtab);
+
+    switch (lxcol->type) {
+        case TYPE_I32:
+        case TYPE_DATE:
+        case TYPE_TIME:
+        case TYPE_I64:
+        case TYPE_TIMESTAMP:
+            break;
+        default:
+            return err_type(TYPE_TIME, lxcol->type, 0, 0);
+    }
+
+    if (!index_window_bounds(windows, lxcol->type, ll))
+        return err_value(0);
+
     ht = ht_oa_create(rl, TYPE_I64);
     hashes = I64(MAXI64(ll, rl));
 
@@ -3370,6 +3487,17 @@ obj_p index_window_join_obj(obj_p lcols, obj_p lxcol, obj_p rcols, obj_p rxcol,
 
     drop_obj(ht);
 
-    return index_group_build(INDEX_TYPE_WINDOW, ll, clone_obj(lxcol), clone_obj(rxcol), clone_obj(windows), index,
+    if (rxcol->type == TYPE_I64 || rxcol->type == TYPE_TIMESTAMP) {
+        hashes = ray_asc(rxcol);
+        rxcol = index_window_places(rxcol, hashes);
+        windows = vn_list(2, index_window_places(AS_LIST(windows)[0], hashes),
+                          index_window_places(AS_LIST(windows)[1], hashes));
+        drop_obj(hashes);
+    } else {
+        rxcol = clone_obj(rxcol);
+        windows = clone_obj(windows);
+    }
+
+    return index_group_build(INDEX_TYPE_WINDOW, ll, clone_obj(lxcol), rxcol, windows, index,
                              i64(jtype));
 }
\ No newline at end of file
diff --git a/core/index.h b/core/index.h
index 731e0d0..f141c8b 100644
--- a/core/index.h
+++ b/core/index.h
@@ -94,8 +94,8 @@ obj_p index_find_guid(guid_t x[], i64_t xl, guid_t y[], i64_t yl);
 obj_p index_find_obj(obj_p x[], i64_t xl, obj_p y[], i64_t yl);
 obj_p index_group(obj_p val, obj_p filter);
 obj_p index_group_list(obj_p obj, obj_p filter);
-obj_p index_left_join_obj(obj_p lcols, obj_p rcols, i64_t len);
-obj_p index_inner_join_obj(obj_p lcols, obj_p rcols, i64_t len);
+obj_p index_left_join_obj(obj_p lcols, obj_p rcols);
+obj_p index_inner_join_obj(obj_p lcols, obj_p rcols);
 i64_t index_bin_u8(u8_t val, u8_t vals[], i64_t ids[], i64_t len);
 i64_t index_bin_i16(i16_t val, i16_t vals[], i64_t ids[], i64_t len);
 i64_t index_bin_i32(i32_t val, i32_t vals[], i64_t ids[], i64_t len);
diff --git a/core/join.c b/core/join.c
index 4a64fe1..6e17843 100644
--- a/core/join.c
+++ b/core/join.c
@@ -35,12 +35,92 @@
 #include "order.h"
 #include "query.h"
 
+// Columns of the table by name, as plain vectors (enums are resolved), always a list of them
+static obj_p join_columns(obj_p tab, obj_p syms) {
+    i64_t i, j, l, n;
+    obj_p v, res;
+
+    l = syms->len;
+    n = AS_LIST(tab)[0]->len;
+
+    for (i = 0; i < l; i++)
+        for (j = 0; j < i; j++)
+            if (AS_SYMBOL(syms)[i] == AS_SYMBOL(syms)[j])
+                return err_value(AS_SYMBOL(syms)[i]);
+
+    res = LIST(l);
+
+    for (i = 0; i < l; i++) {
+        for (j = 0; j < n; j++)
+            if (AS_SYMBOL(AS_LIST(tab)[0])[j] == AS_SYMBOL(syms)[i])
+                break;
+
+        v = (j == n) ? err_value(AS_SYMBOL(syms)[i]) : AS_LIST(AS_LIST(tab)[1])[j];
+
+        if (!IS_ERR(v))
+            v = (v->type >= TYPE_LIST && v->type < TYPE_ENUM) ? clone_obj(v) : ray_value(v);
+
+        if (IS_ERR(v)) {
+            res->len = i;
+            drop_obj(res);
+            return v;
+        }
+
+        AS_LIST(res)[i] = v;
+    }
+
+    return res;
+}
+
+// First n of the columns
+static obj_p join_keys(obj_p cols, i64_t n) {
+    i64_t i;
+    obj_p res;
+
+    res = LIST(n);
+    for (i = 0; i < n; i++)
+        AS_LIST(res)[i] = clone_obj(AS_LIST(cols)[i]);
+
+    return res;
+}
+
+// Key columns must be of the same types
+static obj_p join_check_keys(obj_p lcols, obj_p rcols) {
+    i64_t i, l;
+
+    l = lcols->len;
+    for (i = 0; i < l; i++)
+        if (AS_LIST(lcols)[i]->type != AS_LIST(rcols)[i]->type)
+            return err_type(AS_LIST(lcols)[i]->type, AS_LIST(rcols)[i]->type, 0, 0);
+
+    return NULL_OBJ;
+}
+
 obj_p select_column(obj_p left_col, obj_p right_col, i64_t ids[], i64_t len) {
     i64_t i;
     obj_p v, res;
     i64_t idx;
     i8_t type;
 
+    // enums (and other maps) are joined by value
+    if (!is_null(right_col) && !(right_col->type >= TYPE_LIST && right_col->type < TYPE_ENUM)) {
+        v = ray_value(right_col);
+        if (IS_ERR(v))
+            return v;
+        res = select_column(left_col, v, ids, len);
+        drop_obj(v);
+        return res;
+    }
+
+    if (!is_null(right_col) && !is_null(left_col) && !(left_col->type >= TYPE_LIST && left_col->type < TYPE_ENUM)) {
+        v = ray_value(left_col);
+        if (IS_ERR(v))
+            return v;
+        res = select_column(v, right_col, ids, len);
+        drop_obj(v);
+        return res;
+    }
+
     // there is no such column in the right table
     if (is_null(right_col))
         return clone_obj(left_col);
@@ -74,7 +154,8 @@ obj_p get_column(obj_p left_col, obj_p right_col, obj_p lids, obj_p rids) {
 
     type = is_null(left_col) ? right_col->type : left_col->type;
 
-    if (right_col->type != type)
+    if (right_col->type != type && !(type == TYPE_ENUM && right_col->type == TYPE_SYMBOL) &&
+        !(type == TYPE_SYMBOL && right_col->type == TYPE_ENUM))
         return err_type(type, right_col->type, 0, 0);
 
     return at_ids(right_col, AS_I64(rids), rids->len);
@@ -98,14 +179,9 @@ static obj_p __left_join_inner(obj_p ltab, obj_p rtab, obj_p ksyms, obj_p kcols,
 
     l = cols->len;
 
-    if (l == 0) {
-        drop_obj(cols);
-        return err_length(0, 0, 0, 0, 0, 0);
-    }
-
     // resulting columns
     vals = LIST(l);
-    len = ops_count(ltab);
+    len = idx->len;
 
     // process each column
     for (i = 0; i < l; i++) {
@@ -129,6 +205,7 @@ static obj_p __left_join_inner(obj_p ltab, obj_p rtab, obj_p ksyms, obj_p kcols,
         col = select_column(c1, c2, AS_I64(idx), len);
         if (IS_ERR(col)) {
             drop_obj(cols);
+            vals->len = i;
             drop_obj(vals);
             return col;
         }
@@ -139,18 +216,8 @@ static obj_p __left_join_inner(obj_p ltab, obj_p rtab, obj_p ksyms, obj_p kcols,
     rescols = ray_concat(ksyms, cols);
     drop_obj(cols);
 
-    // handle case when columns list is just one-element list
-    if (ksyms->len == 1) {
-        l = rescols->len;
-        resvals = vector(TYPE_LIST, l);
-        AS_LIST(resvals)[0] = clone_obj(kcols);
-        for (i = 1; i < l; i++)
-            AS_LIST(resvals)[i] = clone_obj(AS_LIST(vals)[i - 1]);
-        drop_obj(vals);
-    } else {
-        resvals = ray_concat(kcols, vals);
-        drop_obj(vals);
-    }
+    resvals = ray_concat(kcols, vals);
+    drop_obj(vals);
 
     return table(rescols, resvals);
 }
@@ -170,20 +237,22 @@ obj_p ray_left_join(obj_p *x, i64_t n) {
     if (x[2]->type != TYPE_TABLE)
         return err_type(TYPE_TABLE, x[2]->type, 0, 0);
 
-    if (ops_count(x[1]) == 0 || ops_count(x[2]) == 0)
-        return clone_obj(x[1]);
+    if (x[0]->len == 0)
+        return err_length(0, 0, 0, 0, 0, 0);
 
-    k1 = ray_at(x[1], x[0]);
+    k1 = join_columns(x[1], x[0]);
     if (IS_ERR(k1))
         return k1;
 
-    k2 = ray_at(x[2], x[0]);
+    k2 = join_columns(x[2], x[0]);
     if (IS_ERR(k2)) {
         drop_obj(k1);
         return k2;
     }
 
-    idx = index_left_join_obj(k1, k2, x[0]->len);
+    idx = join_check_keys(k1, k2);
+    if (!IS_ERR(idx))
+        idx = index_left_join_obj(k1, k2);
     drop_obj(k2);
 
     if (IS_ERR(idx)) {
@@ -213,20 +282,22 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
     if (x[2]->type != TYPE_TABLE)
         return err_type(TYPE_TABLE, x[2]->type, 0, 0);
 
-    if (ops_count(x[1]) == 0 || ops_count(x[2]) == 0)
-        return clone_obj(x[1]);
+    if (x[0]->len == 0)
+        return err_length(0, 0, 0, 0, 0, 0);
 
-    k1 = ray_at(x[1], x[0]);
+    k1 = join_columns(x[1], x[0]);
     if (IS_ERR(k1))
         return k1;
 
-    k2 = ray_at(x[2], x[0]);
+    k2 = join_columns(x[2], x[0]);
     if (IS_ERR(k2)) {
         drop_obj(k1);
         return k2;
     }
 
-    idx = index_inner_join_obj(k1, k2, x[0]->len);
+    idx = join_check_keys(k1, k2);
+    if (!IS_ERR(idx))
+        idx = index_inner_join_obj(k1, k2);
     drop_obj(k1);
     drop_obj(k2);
 
@@ -234,8 +305,10 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
         return idx;
 
     un = ray_union(AS_LIST(x[1])[0], AS_LIST(x[2])[0]);
-    if (IS_ERR(un))
+    if (IS_ERR(un)) {
+        drop_obj(idx);
         return un;
+    }
 
     // exclude columns that we are joining on
     cols = ray_except(un, x[0]);
@@ -246,12 +319,6 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
         return cols;
     }
 
-    if (cols->len == 0) {
-        drop_obj(idx);
-        drop_obj(cols);
-        return err_length(0, 0, 0, 0, 0, 0);
-    }
-
     col = ray_concat(x[0], cols);
     drop_obj(cols);
     cols = col;
@@ -284,6 +351,7 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
         if (IS_ERR(col)) {
             drop_obj(cols);
             drop_obj(idx);
+            vals->len = i;
             drop_obj(vals);
             return col;
         }
@@ -299,6 +367,7 @@ obj_p ray_inner_join(obj_p *x, i64_t n) {
 
 obj_p ray_asof_join(obj_p *x, i64_t n) {
     obj_p idx, v, ajkl, ajkr, keys, lvals, rvals, res;
+    i64_t l;
 
     if (n != 3)
         return err_arity(3, n, 0);
@@ -312,42 +381,43 @@ obj_p ray_asof_join(obj_p *x, i64_t n) {
     if (x[2]->type != TYPE_TABLE)
         return err_type(TYPE_TABLE, x[2]->type, 0, 0);
 
-    v = ray_last(x[0]);
-    ajkl = ray_at(x[1], v);
-    ajkr = ray_at(x[2], v);
-    drop_obj(v);
+    // at least one key to match and the column of the time
+    l = x[0]->len;
+    if (l < 2)
+        return err_length(2, l, 1, 0, 0, 0);
+
+    keys = join_columns(x[1], x[0]);
+    if (IS_ERR(keys))
+        return keys;
 
-    if (is_null(ajkl) || is_null(ajkr)) {
-        drop_obj(ajkl);
-        drop_obj(ajkr);
-        return err_value(0);
+    v = join_columns(x[2], x[0]);
+    if (IS_ERR(v)) {
+        drop_obj(keys);
+        return v;
     }
 
-    if (ajkl->type != ajkr->type) {
-        i8_t expected = ajkl->type;
-        i8_t actual = ajkr->type;
-        drop_obj(ajkl);
-        drop_obj(ajkr);
-        return err_type(expected, actual, 0, 0);
+    idx = join_check_keys(keys, v);
+    if (IS_ERR(idx)) {
+        drop_obj(keys);
+        drop_obj(v);
+        return idx;
     }
 
-    keys = copy_obj(x[0]);
-    keys = remove_idx(&keys, keys->len - 1);
-    lvals = at_obj(x[1], keys);
-    rvals = at_obj(x[2], keys);
+    ajkl = AS_LIST(keys)[l - 1];
+    ajkr = AS_LIST(v)[l - 1];
+    lvals = join_keys(keys, l - 1);
+    rvals = join_keys(v, l - 1);
 
     idx = index_asof_join_obj(lvals, ajkl, rvals, ajkr);
 
-    drop_obj(keys);
     drop_obj(lvals);
     drop_obj(rvals);
-    drop_obj(ajkl);
-    drop_obj(ajkr);
+    drop_obj(v);
 
-    if (IS_ERR(idx))
+    if (IS_ERR(idx)) {
+        drop_obj(keys);
         return idx;
-
-    keys = at_obj(x[1], x[0]);
+    }
 
     res = __left_join_inner(x[1], x[2], x[0], keys, idx);
     drop_obj(idx);
@@ -378,41 +448,54 @@ static obj_p __window_join(obj_p *x, i64_t n, i64_t tp) {
     if (x[4]->type != TYPE_DICT)
         return err_type(TYPE_DICT, x[4]->type, 0, 0);
 
+    if (x[0]->len == 0)
+        return err_length(0, 0, 0, 0, 0, 0);
+
+    if (AS_LIST(x[4])[0]->type != TYPE_SYMBOL)
+        return err_type(TYPE_SYMBOL, AS_LIST(x[4])[0]->type, 0, 0);
+
+    keys = join_columns(x[2], x[0]);
+    if (IS_ERR(keys))
+        return keys;
+
     jtab = ray_xasc(x[3], x[0]);
-    if (IS_ERR(jtab))
+    if (IS_ERR(jtab)) {
+        drop_obj(keys);
         return jtab;
+    }
 
-    v = ray_last(x[0]);
-    wjkl = ray_at(x[2], v);
-    wjkr = ray_at(jtab, v);
-    drop_obj(v);
-
-    if (is_null(wjkl) || is_null(wjkr)) {
-        drop_obj(wjkl);
-        drop_obj(wjkr);
-        return err_value(0);
+    v = join_columns(jtab, x[0]);
+    if (IS_ERR(v)) {
+        drop_obj(keys);
+        drop_obj(jtab);
+        return v;
     }
 
-    if (wjkl->type != wjkr->type) {
-        i8_t expected = wjkl->type;
-        i8_t actual = wjkr->type;
-        drop_obj(wjkl);
-        drop_obj(wjkr);
-        return err_type(expected, actual, 0, 0);
+    idx = join_check_keys(keys, v);
+    if (IS_ERR(idx)) {
+        drop_obj(keys);
+        drop_obj(v);
+        drop_obj(jtab);
+        return idx;
     }
 
-    keys = copy_obj(x[0]);
-    keys = remove_idx(&keys, keys->len - 1);
-    lvals = at_obj(x[2], keys);
-    rvals = at_obj(jtab, keys);
+    l = x[0]->len;
+    wjkl = AS_LIST(keys)[l - 1];
+    wjkr = AS_LIST(v)[l - 1];
+    lvals = join_keys(keys, l - 1);
+    rvals = join_keys(v, l - 1);
 
     idx = index_window_join_obj(lvals, wjkl, rvals, wjkr, x[1], x[2], jtab, tp);
 
     drop_obj(keys);
+    drop_obj(v);
     drop_obj(lvals);
     drop_obj(rvals);
-    drop_obj(wjkl);
-    drop_obj(wjkr);
+
+    if (IS_ERR(idx)) {
+        drop_obj(jtab);
+        return idx;
+    }
 
     rtab = group_map(jtab, idx);
 
diff --git a/core/join.h b/core/join.h
index c731db1..169c23c 100644
--- a/core/join.h
+++ b/core/join.h
@@ -26,6 +26,7 @@
 
 #include "rayforce.h"
 
+obj_p select_column(obj_p left_col, obj_p right_col, i64_t ids[], i64_t len);
 obj_p ray_left_join(obj_p *x, i64_t n);
 obj_p ray_inner_join(obj_p *x, i64_t n);
 obj_p ray_asof_join(obj_p *x, i64_t n);
-- 
2.43.0


From 05a0bf988fc64e66ec224eb540181f07e6f8558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 058/102] fix: fold and scan of a lambda with an initial value
 ignored the elements; reverse of I16 and GUID vectors (C16, C32)

---
 core/compose.c | 16 ++++++++++++++++
 core/iter.c    | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/core/compose.c b/core/compose.c
index 0c9589d..c3c6db4 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -156,6 +156,14 @@ obj_p ray_reverse(obj_p x) {
                 AS_C8(res)[l - i - 1] = AS_C8(x)[i];
             break;
 
+        case TYPE_I16:
+            l = x->len;
+            res = I16(l);
+
+            for (i = 0; i < l; i++)
+                AS_I16(res)[i] = AS_I16(x)[l - i - 1];
+            break;
+
         case TYPE_I32:
         case TYPE_DATE:
         case TYPE_TIME:
@@ -184,6 +192,14 @@ obj_p ray_reverse(obj_p x) {
                 AS_F64(res)[i] = AS_F64(x)[l - i - 1];
             break;
 
+        case TYPE_GUID:
+            l = x->len;
+            res = GUID(l);
+
+            for (i = 0; i < l; i++)
+                memcpy(AS_GUID(res)[i], AS_GUID(x)[l - i - 1], sizeof(guid_t));
+            break;
+
         case TYPE_LIST:
             l = x->len;
             res = vector(TYPE_LIST, l);
diff --git a/core/iter.c b/core/iter.c
index c3b47cc..507ccd9 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -1040,6 +1040,21 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                         return v;
                 }
 
+                return v;
+            } else if (n == 2 && !IS_VECTOR(x[0]) && IS_VECTOR(x[1])) {
+                // initial value and the elements
+                v = clone_obj(x[0]);
+                for (i = 0; i < l; i++) {
+                    vm_stack_push(v);
+                    x2 = at_idx(x[1], i);
+                    vm_stack_push(x2);
+                    v = call(f, 2);
+                    drop_obj(vm_stack_pop());
+                    drop_obj(vm_stack_pop());
+                    if (IS_ERR(v))
+                        return v;
+                }
+
                 return v;
             } else if (n == 2) {
                 l = ops_count(x[0]);
@@ -1462,6 +1477,26 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                     drop_obj(v);  // Drop the original result
                 }
 
+                return res;
+            } else if (n == 2 && !IS_VECTOR(x[0]) && IS_VECTOR(x[1])) {
+                // initial value and the elements
+                res = LIST(l);
+                for (i = 0; i < l; i++) {
+                    vm_stack_push(clone_obj(i ? AS_LIST(res)[i - 1] : x[0]));
+                    x2 = at_idx(x[1], i);
+                    vm_stack_push(x2);
+                    v = call(f, 2);
+                    drop_obj(vm_stack_pop());
+                    drop_obj(vm_stack_pop());
+                    if (IS_ERR(v)) {
+                        res->len = i;
+                        drop_obj(res);
+                        return v;
+                    }
+
+                    AS_LIST(res)[i] = v;
+                }
+
                 return res;
             } else if (n == 2) {
                 l = ops_count(x[0]);
-- 
2.43.0


From 7d19526df5a2930326d9dc86b17f0369a46c1bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 059/102] fix: take of empty collections, dictionary and enum
 concat, like backtracking, raze of enums, ragged tables, memory errors in at,
 split, take and guid (C32, C01, C02)

---
 core/compose.c  | 133 +++++++++++++++++----------
 core/items.c    | 236 ++++++++++++++++++++++++++++--------------------
 core/rayforce.c |  10 +-
 core/string.c   | 132 +++++++++++----------------
 4 files changed, 284 insertions(+), 227 deletions(-)

diff --git a/core/compose.c b/core/compose.c
index c3c6db4..b7edd1c 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -232,7 +232,7 @@ obj_p ray_dict(obj_p x, obj_p y) {
 
 obj_p ray_table(obj_p x, obj_p y) {
     b8_t synergy = B8_TRUE;
-    i64_t i, j, len, cl = 0;
+    i64_t i, j, len, cl = NULL_I64;
     obj_p lst, c, l = NULL_OBJ;
 
     if (x->type != TYPE_SYMBOL)
@@ -287,39 +287,49 @@ obj_p ray_table(obj_p x, obj_p y) {
             case TYPE_LIST:
             case TYPE_GUID:
                 j = AS_LIST(y)[i]->len;
-                if (cl != 0 && j != cl)
+                if (cl != NULL_I64 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
 
                 cl = j;
                 break;
             case TYPE_ENUM:
                 synergy = B8_FALSE;
                 j = AS_LIST(AS_LIST(y)[i])[1]->len;
-                if (cl != 0 && j != cl)
+                if (cl != NULL_I64 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
 
                 cl = j;
                 break;
             case TYPE_MAPCOMMON:
                 j = AS_LIST(AS_LIST(y)[i])[0]->len;
-                if (cl != 0 && j != cl)
+                if (cl != NULL_I64 && j != cl) {
+                    drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
+                }
                 break;
-            default:
-                return err_type(TYPE_LIST, AS_LIST(y)[i]->type, 0, 0);
+            default: {
+                i8_t actual = AS_LIST(y)[i]->type;
+                drop_obj(l);
+                return err_type(TYPE_LIST, actual, 0, 0);
+            }
         }
     }
 
     // there are no atoms, no lazytypes and all columns are of the same length
     if (synergy) {
+        lst = table(clone_obj(x), clone_obj(y));
         drop_obj(l);
-        return table(clone_obj(x), clone_obj(y));
+        return lst;
     }
 
     // otherwise we need to expand atoms to vectors
     lst = vector(TYPE_LIST, len);
 
-    if (cl == 0)
+    if (cl == NULL_I64)
         cl = 1;
 
     for (i = 0; i < len; i++) {
@@ -346,6 +356,14 @@ obj_p ray_table(obj_p x, obj_p y) {
             case TYPE_MAPCOMMON:
                 AS_LIST(lst)[i] = ray_value(AS_LIST(y)[i]);
                 break;
+            case TYPE_LAMBDA:
+            case TYPE_DICT:
+            case TYPE_TABLE:
+                c = LIST(cl);
+                for (j = 0; j < cl; j++)
+                    AS_LIST(c)[j] = clone_obj(AS_LIST(y)[i]);
+                AS_LIST(lst)[i] = c;
+                break;
             default:
                 AS_LIST(lst)[i] = clone_obj(AS_LIST(y)[i]);
         }
@@ -364,7 +382,13 @@ obj_p ray_guid(obj_p x) {
     switch (x->type) {
         case -TYPE_I64:
             count = x->i64;
+            if (count < 0)
+                return err_domain(0, 0);
+
             vec = GUID(count);
+            if (IS_ERR(vec))
+                return vec;
+
             g = AS_GUID(vec);
 
             for (i = 0; i < count; i++)
@@ -467,6 +491,8 @@ obj_p ray_rand(obj_p x, obj_p y) {
                 return err_domain(0, 0);
 
             vec = I64(count);
+            if (IS_ERR(vec))
+                return vec;
 
             rand_ctx_t ctx = {AS_I64(vec), y->i64, ops_rand_u64()};
             pool_map(count, rand_worker, &ctx);
@@ -480,7 +506,7 @@ obj_p ray_rand(obj_p x, obj_p y) {
 
 obj_p ray_concat(obj_p x, obj_p y) {
     i64_t i, xl, yl;
-    obj_p vec, kx, kxy, ix, iy, dx, dy;
+    obj_p vec, kx, kxy, iy, dy;
 
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(-TYPE_B8, -TYPE_B8):
@@ -739,40 +765,28 @@ obj_p ray_concat(obj_p x, obj_p y) {
             return vec;
 
         case MTYPE2(TYPE_DICT, TYPE_DICT):
-            kxy = ray_sect(AS_LIST(x)[0], AS_LIST(y)[0]);
-            dx = ray_except(AS_LIST(x)[0], kxy);
-            dy = ray_except(AS_LIST(y)[0], kxy);
-
-            vec = vector(TYPE_LIST, dx->len + kxy->len + dy->len);
-
-            // add items in x that are not in y
-            ix = ray_find(AS_LIST(x)[0], dx);
-            for (i = 0; i < (i64_t)dx->len; i++) {
-                AS_LIST(vec)[AS_I64(ix)[i]] = clone_obj(AS_LIST(AS_LIST(x)[1])[AS_I64(ix)[i]]);
-            }
-            drop_obj(ix);
-
-            // add items in x and y with the same key
-            ix = ray_find(AS_LIST(x)[0], kxy);
-            iy = ray_find(AS_LIST(y)[0], kxy);
-            for (i = 0; i < (i64_t)kxy->len; i++) {
-                AS_LIST(vec)[AS_I64(ix)[i]] = clone_obj(AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
-            }
-            drop_obj(ix);
-            drop_obj(iy);
-
-            // add items in y that are not in x
-            iy = ray_find(AS_LIST(y)[0], dy);
-            for (i = 0; i < (i64_t)dy->len; i++) {
-                AS_LIST(vec)[i + dx->len + kxy->len] = clone_obj(AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
+            // values of y replace those of x under the same key, the other keys of y follow
+            kxy = copy_obj(AS_LIST(x)[0]);
+            vec = copy_obj(AS_LIST(x)[1]);
+            yl = ops_count(AS_LIST(y)[0]);
+            for (i = 0; i < yl; i++) {
+                kx = at_idx(AS_LIST(y)[0], i);
+                xl = find_obj_idx(kxy, kx);
+                if (xl == NULL_I64) {
+                    dy = push_obj(&kxy, kx);
+                    if (!IS_ERR(dy))
+                        dy = push_obj(&vec, at_idx(AS_LIST(y)[1], i));
+                } else {
+                    drop_obj(kx);
+                    dy = set_idx(&vec, xl, at_idx(AS_LIST(y)[1], i));
+                }
+                if (IS_ERR(dy)) {
+                    drop_obj(kxy);
+                    drop_obj(vec);
+                    return dy;
+                }
             }
-            drop_obj(iy);
-
-            vec = dict(ray_concat(AS_LIST(x)[0], dy), vec);
-            drop_obj(kxy);
-            drop_obj(dx);
-            drop_obj(dy);
-            return vec;
+            return dict(kxy, vec);
 
         case MTYPE2(TYPE_TABLE, TYPE_TABLE):
             kx = ray_key(x);
@@ -794,12 +808,30 @@ obj_p ray_concat(obj_p x, obj_p y) {
                     return err_type(expected, actual, 1, (u8_t)(i + 1));  // arg 1, field i
                 }
             }
-            vec = vector(TYPE_LIST, kx->len);
-            for (i = 0; i < (i64_t)kx->len; i++) {
-                AS_LIST(vec)[i] = ray_concat(AS_LIST(AS_LIST(x)[1])[i], AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]]);
-            }
+            xl = kx->len;
             drop_obj(kx);
             drop_obj(kxy);
+            vec = vector(TYPE_LIST, xl);
+            for (i = 0; i < xl; i++) {
+                kx = AS_LIST(AS_LIST(x)[1])[i];
+                kxy = AS_LIST(AS_LIST(y)[1])[AS_I64(iy)[i]];
+                if (kx->type == TYPE_ENUM || kx->type == TYPE_MAPLIST) {
+                    kx = ray_value(kx);
+                    kxy = ray_value(kxy);
+                    dy = (IS_ERR(kx) || IS_ERR(kxy)) ? clone_obj(IS_ERR(kx) ? kx : kxy) : ray_concat(kx, kxy);
+                    drop_obj(kx);
+                    drop_obj(kxy);
+                } else
+                    dy = ray_concat(kx, kxy);
+
+                if (IS_ERR(dy)) {
+                    vec->len = i;
+                    drop_obj(vec);
+                    drop_obj(iy);
+                    return dy;
+                }
+                AS_LIST(vec)[i] = dy;
+            }
             drop_obj(iy);
             return table(clone_obj(AS_LIST(x)[0]), vec);
 
@@ -1145,7 +1177,7 @@ obj_p ray_raze(obj_p x) {
     v = AS_LIST(x);
 
     // Check if all parts are vectors of the same non-LIST type
-    all_same_vectors = (IS_VECTOR(v[0]) && v[0]->type != TYPE_LIST);
+    all_same_vectors = (IS_VECTOR(v[0]) && v[0]->type != TYPE_LIST && v[0]->type != TYPE_ENUM);
     type = v[0]->type;
     total = v[0]->len;
 
@@ -1175,7 +1207,7 @@ obj_p ray_raze(obj_p x) {
         if (v[i]->type == TYPE_LIST)
             total += v[i]->len;
         else if (IS_VECTOR(v[i]))
-            total += v[i]->len;
+            total += ops_count(v[i]);
         else
             total++;
     }
@@ -1187,7 +1219,7 @@ obj_p ray_raze(obj_p x) {
             for (j = 0; j < v[i]->len; j++)
                 AS_LIST(res)[off++] = clone_obj(AS_LIST(v[i])[j]);
         } else if (IS_VECTOR(v[i])) {
-            for (j = 0; j < v[i]->len; j++)
+            for (j = 0; j < ops_count(v[i]); j++)
                 AS_LIST(res)[off++] = at_idx(v[i], j);
         } else {
             AS_LIST(res)[off++] = clone_obj(v[i]);
@@ -1243,7 +1275,7 @@ obj_p ray_row(obj_p x) {
 #define CUT_VECTOR(x, xt, y, yt)                                                                       \
     ({                                                                                                 \
         i64_t $i, $j, $xl, $yl;                                                                        \
-        yt##_t $id, $last_id;                                                                          \
+        i64_t $id, $last_id;                                                                           \
         obj_p $v, $res;                                                                                \
         $xl = x->len;                                                                                  \
         $yl = y->len;                                                                                  \
@@ -1253,6 +1285,7 @@ obj_p ray_row(obj_p x) {
         $res = LIST($yl);                                                                              \
         $last_id = __AS_##yt(y)[0];                                                                    \
         if ($last_id < 0 || $last_id >= $xl) {                                                         \
+            $res->len = 0;                                                                             \
             drop_obj($res);                                                                            \
             return err_index($last_id, $xl, 0, 0);                                                           \
         }                                                                                              \
diff --git a/core/items.c b/core/items.c
index 90e97e8..78fbb1b 100644
--- a/core/items.c
+++ b/core/items.c
@@ -72,9 +72,8 @@ static inline obj_p at_vec_f64_by_i64(obj_p x, obj_p y) {
 }
 
 obj_p ray_at(obj_p x, obj_p y) {
-    i64_t i, j, yl, xl, n, size;
+    i64_t i, j, yl, xl, n;
     obj_p res, k, s, v, cols;
-    u8_t *buf;
 
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_B8, -TYPE_I64):
@@ -117,7 +116,7 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = GUID(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)xl)
                     memset(AS_GUID(res)[i], 0, sizeof(guid_t));
                 else
                     memcpy(AS_GUID(res)[i], AS_GUID(x)[AS_I64(y)[i]], sizeof(guid_t));
@@ -129,7 +128,7 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = C8(yl);
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)xl)
                     AS_C8(res)
                 [i] = ' ';
                 else AS_C8(res)[i] = AS_C8(x)[(i32_t)AS_I64(y)[i]];
@@ -141,7 +140,7 @@ obj_p ray_at(obj_p x, obj_p y) {
             xl = x->len;
             res = vector(TYPE_LIST, yl);
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)xl)
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)xl)
                     AS_LIST(res)
                 [i] = NULL_OBJ;
                 else AS_LIST(res)[i] = clone_obj(AS_LIST(x)[(i32_t)AS_I64(y)[i]]);
@@ -187,22 +186,25 @@ obj_p ray_at(obj_p x, obj_p y) {
 
             v = ENUM_VAL(x);
 
-            if (y->i64 >= (i64_t)v->len) {
+            // a negative index counts from the end
+            i = (y->i64 < 0) ? v->len + y->i64 : y->i64;
+
+            if (i < 0 || i >= (i64_t)v->len) {
                 drop_obj(s);
                 return err_index(y->i64, v->len, 0, 0);
             }
 
             if (!s || IS_ERR(s) || s->type != TYPE_SYMBOL) {
                 drop_obj(s);
-                return i64(AS_I64(v)[y->i64]);
+                return i64(AS_I64(v)[i]);
             }
 
-            if (AS_I64(v)[y->i64] >= (i64_t)s->len) {
+            if (AS_I64(v)[i] < 0 || AS_I64(v)[i] >= (i64_t)s->len) {
                 drop_obj(s);
-                return err_index(AS_I64(v)[y->i64], s->len, 0, 0);
+                return err_index(AS_I64(v)[i], s->len, 0, 0);
             }
 
-            res = at_idx(s, AS_I64(v)[y->i64]);
+            res = at_idx(s, AS_I64(v)[i]);
 
             drop_obj(s);
 
@@ -226,7 +228,7 @@ obj_p ray_at(obj_p x, obj_p y) {
                 res = I64(yl);
 
                 for (i = 0; i < yl; i++) {
-                    if (AS_I64(y)[i] >= (i64_t)n) {
+                    if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)n) {
                         drop_obj(s);
                         drop_obj(res);
                         return err_index(AS_I64(y)[i], n, 0, 0);
@@ -249,7 +251,7 @@ obj_p ray_at(obj_p x, obj_p y) {
                     return err_index(AS_I64(y)[i], n, 0, 0);
                 }
 
-                if (AS_I64(v)[AS_I64(y)[i]] >= (i64_t)xl) {
+                if (AS_I64(v)[AS_I64(y)[i]] < 0 || AS_I64(v)[AS_I64(y)[i]] >= (i64_t)xl) {
                     xl = AS_I64(v)[AS_I64(y)[i]];
                     n = s->len;
                     drop_obj(s);
@@ -265,39 +267,35 @@ obj_p ray_at(obj_p x, obj_p y) {
             return res;
 
         case MTYPE2(TYPE_MAPLIST, -TYPE_I64):
-            k = MAPLIST_KEY(x);
             v = MAPLIST_VAL(x);
 
-            xl = k->len;
-            yl = v->len;
-
-            if (y->i64 >= (i64_t)v->len)
+            if (y->i64 < 0 || y->i64 >= (i64_t)v->len)
                 return err_index(y->i64, v->len, 0, 0);
 
-            buf = AS_U8(k) + AS_I64(v)[y->i64];
-
-            return de_raw(buf, &xl);
+            return at_idx(x, y->i64);
 
         case MTYPE2(TYPE_MAPLIST, TYPE_I64):
-            k = MAPLIST_KEY(x);
             v = MAPLIST_VAL(x);
 
-            size = k->len;
-
             n = v->len;
             yl = y->len;
 
             res = vector(TYPE_LIST, yl);
 
             for (i = 0; i < yl; i++) {
-                if (AS_I64(y)[i] >= (i64_t)n) {
+                if (AS_I64(y)[i] < 0 || AS_I64(y)[i] >= (i64_t)n) {
                     res->len = i;
                     drop_obj(res);
                     return err_index(AS_I64(y)[i], n, 0, 0);
                 }
 
-                buf = AS_U8(k) + AS_I64(v)[AS_I64(y)[i]];
-                AS_LIST(res)[i] = de_raw(buf, &size);
+                k = at_idx(x, AS_I64(y)[i]);
+                if (IS_ERR(k)) {
+                    res->len = i;
+                    drop_obj(res);
+                    return k;
+                }
+                AS_LIST(res)[i] = k;
             }
 
             return res;
@@ -362,7 +360,7 @@ obj_p ray_find(obj_p x, obj_p y) {
 
 obj_p ray_filter(obj_p x, obj_p y) {
     i64_t i, j = 0, l;
-    obj_p res, vals;
+    obj_p res, vals, v;
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_B8, TYPE_B8):
             __FILTER(x, y, B8, , =, );
@@ -398,7 +396,13 @@ obj_p ray_filter(obj_p x, obj_p y) {
             l = vals->len;
             res = LIST(l);
             for (i = 0; i < l; i++) {
-                AS_LIST(res)[i] = ray_filter(AS_LIST(vals)[i], y);
+                v = ray_filter(AS_LIST(vals)[i], y);
+                if (IS_ERR(v)) {
+                    res->len = i;
+                    drop_obj(res);
+                    return v;
+                }
+                AS_LIST(res)[i] = v;
             }
             return table(clone_obj(AS_LIST(x)[0]), res);
 
@@ -408,9 +412,8 @@ obj_p ray_filter(obj_p x, obj_p y) {
 }
 
 obj_p ray_take(obj_p from, obj_p count) {
-    i64_t i, j, f, l, m, n, size, start;
+    i64_t i, j, f, l, m, n, start;
     obj_p k, s, v, res;
-    u8_t *buf;
     int is_range = 0;
 
     // Check if count is a 2-element vector [start amount] for range take
@@ -439,6 +442,10 @@ obj_p ray_take(obj_p from, obj_p count) {
             default:
                 return err_type(-TYPE_I64, count->type, 0, 0);
         }
+
+        // a null count has no absolute value
+        if (m < 0)
+            return err_length(0, 0, 0, 0, 0, 0);
     }
 
     switch (from->type) {
@@ -446,6 +453,8 @@ obj_p ray_take(obj_p from, obj_p count) {
         case TYPE_U8:
         case TYPE_C8:
             l = from->len;
+            if (l == 0)
+                m = 0;
             if (is_range) {
                 if (start < 0)
                     start = l + start;
@@ -453,14 +462,18 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_U8(res)[i] = AS_U8(from)[start + i];
             } else {
                 res = vector(from->type, m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                if (IS_ERR(res))
+                    return res;
+                for (i = 0, j = m ? (l - m % l) * f : 0; i < m; i++, j++)
                     AS_U8(res)[i] = AS_U8(from)[j % l];
             }
             return res;
@@ -469,12 +482,16 @@ obj_p ray_take(obj_p from, obj_p count) {
         case -TYPE_U8:
         case -TYPE_C8:
             res = vector(-from->type, m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 AS_U8(res)[i] = from->u8;
             return res;
 
         case TYPE_I16:
             l = from->len;
+            if (l == 0)
+                m = 0;
             if (is_range) {
                 if (start < 0)
                     start = l + start;
@@ -482,20 +499,26 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = I16(m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_I16(res)[i] = AS_I16(from)[start + i];
             } else {
                 res = I16(m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                if (IS_ERR(res))
+                    return res;
+                for (i = 0, j = m ? (l - m % l) * f : 0; i < m; i++, j++)
                     AS_I16(res)[i] = AS_I16(from)[j % l];
             }
             return res;
 
         case -TYPE_I16:
             res = vector(-from->type, m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 AS_I16(res)[i] = from->i16;
             return res;
@@ -504,6 +527,8 @@ obj_p ray_take(obj_p from, obj_p count) {
         case TYPE_DATE:
         case TYPE_TIME:
             l = from->len;
+            if (l == 0)
+                m = 0;
             if (is_range) {
                 if (start < 0)
                     start = l + start;
@@ -511,14 +536,18 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_I32(res)[i] = AS_I32(from)[start + i];
             } else {
                 res = vector(from->type, m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                if (IS_ERR(res))
+                    return res;
+                for (i = 0, j = m ? (l - m % l) * f : 0; i < m; i++, j++)
                     AS_I32(res)[i] = AS_I32(from)[j % l];
             }
             return res;
@@ -527,6 +556,8 @@ obj_p ray_take(obj_p from, obj_p count) {
         case -TYPE_DATE:
         case -TYPE_TIME:
             res = vector(-from->type, m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 AS_I32(res)[i] = from->i32;
             return res;
@@ -536,6 +567,8 @@ obj_p ray_take(obj_p from, obj_p count) {
         case TYPE_TIMESTAMP:
         case TYPE_F64:
             l = from->len;
+            if (l == 0)
+                m = 0;
             if (is_range) {
                 if (start < 0)
                     start = l + start;
@@ -543,14 +576,18 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = vector(from->type, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_I64(res)[i] = AS_I64(from)[start + i];
             } else {
                 res = vector(from->type, m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                if (IS_ERR(res))
+                    return res;
+                for (i = 0, j = m ? (l - m % l) * f : 0; i < m; i++, j++)
                     AS_I64(res)[i] = AS_I64(from)[j % l];
             }
             return res;
@@ -560,12 +597,16 @@ obj_p ray_take(obj_p from, obj_p count) {
         case -TYPE_TIMESTAMP:
         case -TYPE_F64:
             res = vector(-from->type, m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 AS_I64(res)[i] = from->i64;
             return res;
 
         case TYPE_GUID:
             l = from->len;
+            if (l == 0)
+                m = 0;
             if (is_range) {
                 if (start < 0)
                     start = l + start;
@@ -573,28 +614,38 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = GUID(m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     memcpy(AS_GUID(res)[i], AS_GUID(from)[start + i], sizeof(guid_t));
             } else {
                 res = GUID(m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                if (IS_ERR(res))
+                    return res;
+                for (i = 0, j = m ? (l - m % l) * f : 0; i < m; i++, j++)
                     memcpy(AS_GUID(res)[i], AS_GUID(from)[j % l], sizeof(guid_t));
             }
             return res;
 
         case -TYPE_GUID:
             res = GUID(m);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < m; i++)
                 memcpy(AS_GUID(res)[i], AS_GUID(from)[0], sizeof(guid_t));
             return res;
 
         case TYPE_DICT:
-            l = AS_LIST(from)[0]->len;
-            obj_p keys_res = vector(AS_LIST(from)[0]->type, 0);
-            obj_p vals_res = vector(AS_LIST(from)[1]->type, 0);
+            l = ops_count(AS_LIST(from)[0]);
+            if (l == 0)
+                m = 0;
+            k = AS_LIST(from)[0];
+            v = AS_LIST(from)[1];
+            obj_p keys_res = vector(k->type == TYPE_ENUM ? TYPE_SYMBOL : k->type, 0);
+            obj_p vals_res = vector(v->type == TYPE_ENUM ? TYPE_SYMBOL : v->type, 0);
             if (is_range) {
                 if (start < 0)
                     start = l + start;
@@ -602,25 +653,25 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 for (i = 0; i < m; i++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], start + i)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], start + i)));
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], start + i));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], start + i));
                 }
             } else {
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    push_obj(&keys_res, clone_obj(at_idx(AS_LIST(from)[0], j % l)));
-                    push_obj(&vals_res, clone_obj(at_idx(AS_LIST(from)[1], j % l)));
+                for (i = 0, j = m ? (l - m % l) * f : 0; i < m; i++, j++) {
+                    push_obj(&keys_res, at_idx(AS_LIST(from)[0], j % l));
+                    push_obj(&vals_res, at_idx(AS_LIST(from)[1], j % l));
                 }
             }
             return dict(keys_res, vals_res);
 
         case TYPE_ENUM:
-            k = ray_key(from);
-            s = ray_get(k);
             v = ENUM_VAL(from);
             l = v->len;
+            if (l == 0)
+                m = 0;
             if (is_range) {
                 if (start < 0)
                     start = l + start;
@@ -628,30 +679,36 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = I64(m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++) {
                     AS_I64(res)[i] = AS_I64(v)[start + i];
                 }
             } else {
                 res = I64(m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
+                if (IS_ERR(res))
+                    return res;
+                for (i = 0, j = m ? (l - m % l) * f : 0; i < m; i++, j++) {
                     AS_I64(res)[i] = AS_I64(v)[j % l];
                 }
             }
+            k = ray_key(from);
+            s = ray_get(k);
+            n = s->type;
             drop_obj(s);
-            if (s->type != TYPE_SYMBOL) {
+            if (n != TYPE_SYMBOL) {
                 drop_obj(k);
                 return res;
             } else
                 return enumerate(k, res);
 
         case TYPE_MAPLIST:
-            k = MAPLIST_KEY(from);
-            s = MAPLIST_VAL(from);
-            n = k->len;
-            l = s->len;
+            l = MAPLIST_VAL(from)->len;
+            if (l == 0)
+                m = 0;
             if (is_range) {
                 if (start < 0)
                     start = l + start;
@@ -659,52 +716,31 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
-            }
+                j = start;
+            } else
+                j = m ? (l - m % l) * f : 0;
+
             res = vector(TYPE_LIST, m);
-            size = m;
+            if (IS_ERR(res))
+                return res;
 
-            if (is_range) {
-                for (i = 0; i < m; i++) {
-                    j = start + i;
-                    if (AS_I64(s)[j] >= (i64_t)n) {
-                        buf = AS_U8(k) + AS_I64(s)[j];
-                        v = de_raw(buf, &size);
-                        if (IS_ERR(v)) {
-                            res->len = i;
-                            drop_obj(res);
-                            return v;
-                        }
-                        AS_LIST(res)[i] = v;
-                    } else {
-                        res->len = i;
-                        drop_obj(res);
-                        return err_index(AS_I64(s)[j], n, 0, 0);
-                    }
-                }
-            } else {
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++) {
-                    if (AS_I64(s)[j % l] >= (i64_t)n) {
-                        buf = AS_U8(k) + AS_I64(s)[j % l];
-                        v = de_raw(buf, &size);
-                        if (IS_ERR(v)) {
-                            res->len = i;
-                            drop_obj(res);
-                            return v;
-                        }
-                        AS_LIST(res)[i] = v;
-                    } else {
-                        res->len = i;
-                        drop_obj(res);
-                        return err_index(AS_I64(s)[j % l], n, 0, 0);
-                    }
+            for (i = 0; i < m; i++, j++) {
+                v = at_idx(from, j % l);
+                if (IS_ERR(v)) {
+                    res->len = i;
+                    drop_obj(res);
+                    return v;
                 }
+                AS_LIST(res)[i] = v;
             }
             return res;
 
         case TYPE_LIST:
             l = from->len;
+            if (l == 0)
+                m = 0;
             if (is_range) {
                 if (start < 0)
                     start = l + start;
@@ -712,14 +748,18 @@ obj_p ray_take(obj_p from, obj_p count) {
                     start = 0;
                 if (start > (i64_t)l)
                     start = l;
-                if (start + m > (i64_t)l)
+                if (m > (i64_t)l - start)
                     m = l - start;
                 res = vector(TYPE_LIST, m);
+                if (IS_ERR(res))
+                    return res;
                 for (i = 0; i < m; i++)
                     AS_LIST(res)[i] = clone_obj(AS_LIST(from)[start + i]);
             } else {
                 res = vector(TYPE_LIST, m);
-                for (i = 0, j = (l - m % l) * f; i < m; i++, j++)
+                if (IS_ERR(res))
+                    return res;
+                for (i = 0, j = m ? (l - m % l) * f : 0; i < m; i++, j++)
                     AS_LIST(res)[i] = clone_obj(AS_LIST(from)[j % l]);
             }
             return res;
@@ -727,6 +767,8 @@ obj_p ray_take(obj_p from, obj_p count) {
         case TYPE_TABLE:
             n = AS_LIST(from)[1]->len;
             res = vector(TYPE_LIST, n);
+            if (IS_ERR(res))
+                return res;
             for (i = 0; i < n; i++) {
                 v = ray_take(AS_LIST(AS_LIST(from)[1])[i], count);
 
diff --git a/core/rayforce.c b/core/rayforce.c
index 89641e7..f243dac 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -873,7 +873,7 @@ obj_p at_idx(obj_p obj, i64_t idx) {
             return NULL_OBJ;
         case TYPE_ENUM:
             if (idx < 0)
-                idx = obj->len + idx;
+                idx = ENUM_VAL(obj)->len + idx;
             if (idx >= 0 && idx < (i64_t)ENUM_VAL(obj)->len) {
                 k = ray_key(obj);
                 if (IS_ERR(k)) {
@@ -897,11 +897,15 @@ obj_p at_idx(obj_p obj, i64_t idx) {
         case TYPE_MAPLIST:
             k = MAPLIST_KEY(obj);
             v = MAPLIST_VAL(obj);
-            size = k->len;
             if (idx < 0)
                 idx = obj->len + idx;
             if (idx >= 0 && idx < (i64_t)v->len) {
-                buf = AS_U8(k) + AS_I64(v)[idx];
+                // the offsets come from a file
+                i = AS_I64(v)[idx];
+                if (i < 0 || i >= k->len)
+                    return err_index(i, k->len, 0, 0);
+                size = k->len - i;
+                buf = AS_U8(k) + i;
                 return de_raw(buf, &size);
             }
 
diff --git a/core/string.c b/core/string.c
index 1f8b4ec..81cf382 100644
--- a/core/string.c
+++ b/core/string.c
@@ -492,87 +492,65 @@ b8_t str_ends_with(str_p str, str_p pat) {
  * If this is not the case, a more sophisticated implementation may be required.
  */
 b8_t str_match(str_p str, i64_t str_len, str_p pat, i64_t pat_len) {
-    b8_t inv = B8_FALSE, match = B8_FALSE;
-    i64_t str_pos = 0, pat_pos = 0, s_pos;
-    i64_t last_star_pat_pos = NULL_I64;  // Track position of last '*' in pattern
-    i64_t last_star_str_pos = 0;         // Track corresponding string position
+    b8_t inv, match, ok;
+    i64_t str_pos = 0, pat_pos = 0, next;
+    i64_t last_star_pat_pos = NULL_I64;  // position after the last '*' in the pattern
+    i64_t last_star_str_pos = 0;         // string position it is tried to match from
 
     while (str_pos < str_len) {
-        if (pat_pos >= pat_len)
-            return B8_FALSE;
-
-        switch (pat[pat_pos]) {
-            case '*':
-                // Save the position of this star for backtracking
-                last_star_pat_pos = pat_pos;
-                last_star_str_pos = str_pos;
-
-                // Skip consecutive stars
-                while (pat_pos < pat_len && pat[pat_pos] == '*')
-                    pat_pos++;
-
-                if (pat_pos == pat_len)
-                    return B8_TRUE;
-
-                if (pat[pat_pos] != '[' && pat[pat_pos] != '?') {
-                    s_pos = str_pos;
-                    while (s_pos < str_len && str[s_pos] != pat[pat_pos])
-                        s_pos++;
-                    if (s_pos == str_len)
-                        return B8_FALSE;
-                    str_pos = s_pos;
-                }
-                break;
-
-            case '?':
-                str_pos++;
-                pat_pos++;
-                break;
-
-            case '[':
-                pat_pos++;
-                if (pat_pos >= pat_len)
-                    return B8_FALSE;
-                inv = (pat[pat_pos] == '^') ? B8_TRUE : B8_FALSE;
-                if (inv)
-                    pat_pos++;
-                match = B8_FALSE;
-                while (pat_pos < pat_len && pat[pat_pos] != ']') {
-                    if (str[str_pos] == pat[pat_pos])
-                        match = B8_TRUE;
-                    pat_pos++;
-                }
-                if (pat_pos == pat_len)
-                    return B8_FALSE;  // unmatched '['
-                if ((match && inv) || (!match && !inv)) {
-                    // Mismatch - backtrack to last '*' if possible
-                    if (last_star_pat_pos != NULL_I64) {
-                        pat_pos = last_star_pat_pos + 1;
-                        str_pos = ++last_star_str_pos;
-                    } else {
-                        return B8_FALSE;
-                    }
-                } else {
-                    str_pos++;
-                    pat_pos++;
-                }
-                break;
-
-            default:
-                if (str[str_pos] != pat[pat_pos]) {
-                    // Mismatch - backtrack to last '*' if possible
-                    if (last_star_pat_pos != NULL_I64) {
-                        pat_pos = last_star_pat_pos + 1;
-                        str_pos = ++last_star_str_pos;
-                    } else {
-                        return B8_FALSE;
+        ok = B8_FALSE;
+        next = pat_pos + 1;
+
+        if (pat_pos < pat_len) {
+            switch (pat[pat_pos]) {
+                case '*':
+                    // Skip consecutive stars
+                    while (pat_pos < pat_len && pat[pat_pos] == '*')
+                        pat_pos++;
+
+                    if (pat_pos == pat_len)
+                        return B8_TRUE;
+
+                    // Save the position of this star for backtracking
+                    last_star_pat_pos = pat_pos;
+                    last_star_str_pos = str_pos;
+                    continue;
+
+                case '?':
+                    ok = B8_TRUE;
+                    break;
+
+                case '[':
+                    inv = (next < pat_len && pat[next] == '^') ? B8_TRUE : B8_FALSE;
+                    if (inv)
+                        next++;
+                    match = B8_FALSE;
+                    while (next < pat_len && pat[next] != ']') {
+                        if (str[str_pos] == pat[next])
+                            match = B8_TRUE;
+                        next++;
                     }
-                } else {
-                    str_pos++;
-                    pat_pos++;
-                }
-                break;
+                    if (next >= pat_len)
+                        return B8_FALSE;  // unmatched '['
+                    next++;
+                    ok = (match != inv);
+                    break;
+
+                default:
+                    ok = (str[str_pos] == pat[pat_pos]);
+                    break;
+            }
         }
+
+        if (ok) {
+            str_pos++;
+            pat_pos = next;
+        } else if (last_star_pat_pos != NULL_I64) {
+            // Mismatch - let the last '*' take one more character
+            pat_pos = last_star_pat_pos;
+            str_pos = ++last_star_str_pos;
+        } else
+            return B8_FALSE;
     }
 
     // Check if remaining pattern consists only of '*'
-- 
2.43.0


From 2705a6debec3fb04d715058e8a75d085d69a7684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 060/102] fix: literals out of range are refused, deep nesting
 is an error, printed characters and strings read back

---
 core/format.c |  12 ++++-
 core/parse.c  | 130 +++++++++++++++++++++++++++++++++++------------
 core/parse.h  |   1 +
 core/string.c | 138 +++++++++++++++++++++++++-------------------------
 4 files changed, 177 insertions(+), 104 deletions(-)

diff --git a/core/format.c b/core/format.c
index 02e9250..79baf8e 100644
--- a/core/format.c
+++ b/core/format.c
@@ -294,7 +294,9 @@ i64_t c8_fmt_into(obj_p *dst, b8_t full, c8_t val) {
         case '\t':
             return full ? str_fmt_into(dst, 5, "'\\t'") : str_fmt_into(dst, 3, "\\t");
         case '\0':
-            return full ? str_fmt_into(dst, 3, "''") : str_fmt_into(dst, 2, " ");
+            return full ? str_fmt_into(dst, 7, "'\\000'") : str_fmt_into(dst, 2, " ");
+        case '\\':
+            return full ? str_fmt_into(dst, 5, "'\\\\'") : str_fmt_into(dst, 2, "\\");
         default:
             // Handle control characters (ASCII 1-31) with \xxx notation
             if (val > 0 && val < 32)
@@ -418,7 +420,13 @@ i64_t string_fmt_into(obj_p *dst, i64_t limit, b8_t full, obj_p obj) {
     s = AS_C8(obj);
 
     for (i = 0; i < l; i++) {
-        n += c8_fmt_into(dst, B8_FALSE, s[i]);
+        // what is quoted has to read back as the same string
+        if (full && s[i] == '\\')
+            n += str_fmt_into(dst, 3, "\\\\");
+        else if (full && s[i] == '\0')
+            n += str_fmt_into(dst, 5, "\\000");
+        else
+            n += c8_fmt_into(dst, B8_FALSE, s[i]);
         if (limit_reached(limit, n))
             break;
     }
diff --git a/core/parse.c b/core/parse.c
index 7044c12..57d0a7a 100644
--- a/core/parse.c
+++ b/core/parse.c
@@ -43,6 +43,9 @@ struct obj_t __PARSE_ADVANCE_OBJECT = {.type = TYPE_NULL};
 
 #define PARSE_ADVANCE (&__PARSE_ADVANCE_OBJECT)
 
+// Brackets nested deeper than that are rejected (the parser and the evaluator are recursive)
+#define PARSE_DEPTH_LIMIT 1024
+
 span_t span_start(parser_t *parser) {
     span_t s = {
         .start_line = (u16_t)parser->line,
@@ -259,6 +262,12 @@ obj_p parse_time(parser_t *parser) {
         }
     }
 
+    if (tm.mins > 59 || tm.secs > 59) {
+        span.end_column += current - parser->current - 1;
+        nfo_insert(parser->nfo, parser->count, span);
+        return parse_error(parser, parser->count++, EC_DOMAIN);
+    }
+
     shift(parser, current - parser->current);
     span_extend(parser, &span);
 
@@ -297,7 +306,7 @@ obj_p parse_timestamp(parser_t *parser) {
 
         current += 2;
 
-        if (ts.month > 12) {
+        if (ts.month < 1 || ts.month > 12) {
             span.start_column = current - parser->current - 2;
             span.end_column += current - parser->current - 1;
             nfo_insert(parser->nfo, parser->count, span);
@@ -318,14 +327,14 @@ obj_p parse_timestamp(parser_t *parser) {
 
         current += 2;
 
-        if (ts.day > 31) {
+        if (ts.day < 1 || ts.day > days_in_month(ts.year, ts.month)) {
             span.start_column = current - parser->current - 2;
             span.end_column += current - parser->current - 1;
             nfo_insert(parser->nfo, parser->count, span);
             return parse_error(parser, parser->count++, EC_DOMAIN);
         }
     } else
-        return NULL_OBJ;
+        return PARSE_ADVANCE;
 
     // just date passed
     if (*current != 'D') {
@@ -407,9 +416,14 @@ obj_p parse_timestamp(parser_t *parser) {
     current++;
 
     // parse nanos
-    nanos = strtoul(current, (char **)&end, 10);
-    if (end > parser->input + parser->input_len) {
-        end = parser->input + parser->input_len;
+    for (end = current, nanos = 0; is_digit(*end); end++) {
+        if (end - current == 9) {
+            span.end_column += end - parser->current;
+            nfo_insert(parser->nfo, parser->count, span);
+            return parse_error(parser, parser->count++, EC_DOMAIN);
+        }
+
+        nanos = nanos * 10 + (*end - '0');
     }
 
     if (end == current)
@@ -450,7 +464,7 @@ obj_p specify_number(parser_t *parser, const char *current, span_t span, obj_p n
 
     switch (*current++) {
         case 'x':
-            if (num->i64 > 255) {
+            if (num->i64 < 0 || num->i64 > 255) {
                 drop_obj(num);
                 span.end_column += (current - parser->current);
                 nfo_insert(parser->nfo, parser->count, span);
@@ -480,10 +494,15 @@ obj_p specify_number(parser_t *parser, const char *current, span_t span, obj_p n
             num->type = -TYPE_I32;
             break;
         case 'd':
-            num->type = -TYPE_DATE;
-            break;
         case 't':
-            num->type = -TYPE_TIME;
+            if (num->i64 < -2147483647 || num->i64 > 2147483647) {
+                drop_obj(num);
+                span.end_column += (current - parser->current);
+                nfo_insert(parser->nfo, parser->count, span);
+                return parse_error(parser, parser->count++, EC_DOMAIN);
+            }
+            num->i32 = (i32_t)num->i64;
+            num->type = *(current - 1) == 'd' ? -TYPE_DATE : -TYPE_TIME;
             break;
         case 'f':
             res = cast_obj(-TYPE_F64, num);
@@ -505,6 +524,18 @@ obj_p specify_number(parser_t *parser, const char *current, span_t span, obj_p n
     return num;
 }
 
+static b8_t is_exponent(lit_p current) {
+    if (*current != 'e' && *current != 'E')
+        return B8_FALSE;
+
+    current++;
+
+    if (*current == '-' || *current == '+')
+        current++;
+
+    return is_digit(*current);
+}
+
 obj_p parse_number(parser_t *parser) {
     u8_t num_u8;
     i64_t r, num_i64;
@@ -517,6 +548,11 @@ obj_p parse_number(parser_t *parser) {
 
     if (remaining >= 2 && *parser->current == '0' && (*(parser->current + 1) == 'x')) {
         r = u8_from_str(parser->current + 2, remaining - 2, &num_u8);
+        if (r == 0 || is_alphanum(*(parser->current + 2 + r))) {
+            span.end_column += r + 2;
+            nfo_insert(parser->nfo, parser->count, span);
+            return parse_error(parser, parser->count++, EC_DOMAIN);
+        }
         shift(parser, r + 2);
         span_extend(parser, &span);
         num = u8(num_u8);
@@ -525,8 +561,9 @@ obj_p parse_number(parser_t *parser) {
     }
 
     r = i64_from_str(parser->current, remaining, &num_i64);
-    // if we parsed a number, and the next character is not a dot, then we can specify the number
-    if (r > 0 && *(parser->current + r) != '.')
+    // if we parsed a number, and the next character is neither a dot nor an exponent, then we can specify the number
+    // (the least 64-bit integer stands for null, so it is left to f64 as all those out of range are)
+    if (r > 0 && num_i64 != NULL_I64 && *(parser->current + r) != '.' && !is_exponent(parser->current + r))
         return specify_number(parser, parser->current + r, span, i64(num_i64));
 
     // try f64 instead
@@ -544,10 +581,11 @@ obj_p parse_char(parser_t *parser) {
     str_p pos = parser->current + 1;  // skip '''
     obj_p res = NULL_OBJ;
     i64_t i, id;
+    i32_t oct;
     c8_t ch;
 
     // Handle empty quoted symbol (single quote)
-    if (before_eof(parser) || at_term(*pos)) {
+    if (before_eof(parser) || (at_term(*pos) && !(*pos != '\0' && pos[1] == '\'' && (at_term(pos[2]) || is_whitespace(pos[2]) || pos[2] == ';')))) {
         // Return a null symbol (0Ns)
         shift(parser, 1);  // Skip the opening quote
         span_extend(parser, &span);
@@ -580,7 +618,8 @@ obj_p parse_char(parser_t *parser) {
                 pos++;
                 break;
             case '\'':
-                ch = '\'';
+            case '"':
+                ch = *pos;
                 pos++;
                 break;
             case '0':
@@ -592,17 +631,18 @@ obj_p parse_char(parser_t *parser) {
             case '6':
             case '7':
                 // Parse octal escape sequence \xxx
-                ch = *pos - '0';
+                oct = *pos - '0';
                 pos++;
                 for (i = 0; i < 2; i++) {
-                    if (at_eof(parser) || !is_digit(*pos) || *pos > '7' || *pos < '0') {
+                    if (!is_digit(*pos) || *pos > '7' || oct > 037) {
                         span.end_column += (pos - parser->current);
                         nfo_insert(parser->nfo, parser->count, span);
                         return parse_error(parser, parser->count++, EC_DOMAIN);
                     }
-                    ch = (ch << 3) | (*pos - '0');
+                    oct = (oct << 3) | (*pos - '0');
                     pos++;
                 }
+                ch = (c8_t)oct;
                 break;
             default:
                 span.end_column += (pos - parser->current);
@@ -648,13 +688,15 @@ obj_p parse_char(parser_t *parser) {
 obj_p parse_string(parser_t *parser) {
     span_t span = span_start(parser);
     str_p pos = parser->current + 1;  // skip '"'
-    i32_t i, len = 0;
+    str_p end = (str_p)parser->input + parser->input_len;
+    i32_t i, octal_val;
+    i64_t len = 0;
     obj_p str, err;
-    c8_t lf = '\n', cr = '\r', tb = '\t', bs = '\\', octal_val;
+    c8_t lf = '\n', cr = '\r', tb = '\t', bs = '\\', oc;
 
     str = C8(0);
 
-    while (!at_eof(parser)) {
+    while (pos < end) {
         if (*pos == '\\') {
             switch (*++pos) {
                 case '\\':
@@ -685,8 +727,8 @@ obj_p parse_string(parser_t *parser) {
                 case '6':
                 case '7':
                     // Parse octal escape sequence \xxx
-                    for (i = 0; i < 3; i++) {
-                        if (at_eof(parser) || !is_digit(*pos) || *pos > '7' || *pos < '0') {
+                    for (i = 0, octal_val = 0; i < 3; i++) {
+                        if (!is_digit(*pos) || *pos > '7' || octal_val > 037) {
                             drop_obj(str);
                             span.end_column += (pos - parser->current);
                             nfo_insert(parser->nfo, parser->count, span);
@@ -696,7 +738,8 @@ obj_p parse_string(parser_t *parser) {
                         octal_val = (octal_val << 3) | (*pos - '0');
                         pos++;
                     }
-                    push_raw(&str, &octal_val);
+                    oc = (c8_t)octal_val;
+                    push_raw(&str, &oc);
                     break;
                 default:
                     drop_obj(str);
@@ -731,14 +774,23 @@ obj_p parse_string(parser_t *parser) {
     return str;
 }
 
+static b8_t is_keyword(parser_t *parser, lit_p name, i64_t len) {
+    i64_t remaining = parser->input_len - (parser->current - parser->input);
+
+    if (remaining < len || strncmp(parser->current, name, len) != 0)
+        return B8_FALSE;
+
+    // a longer name that only starts with the keyword is a symbol
+    return remaining == len || !(is_alphanum(parser->current[len]) || is_op(parser->current[len]));
+}
+
 obj_p parse_symbol(parser_t *parser) {
     str_p pos = parser->current;
     obj_p res = NULL_OBJ;
     span_t span = span_start(parser);
     i64_t id;
-    i64_t remaining = parser->input_len - (pos - parser->input);
 
-    if (remaining >= 4 && strncmp(pos, "true", 4) == 0) {
+    if (is_keyword(parser, "true", 4)) {
         shift(parser, 4);
         span_extend(parser, &span);
         res = b8(B8_TRUE);
@@ -746,7 +798,7 @@ obj_p parse_symbol(parser_t *parser) {
         return res;
     }
 
-    if (remaining >= 5 && strncmp(pos, "false", 5) == 0) {
+    if (is_keyword(parser, "false", 5)) {
         shift(parser, 5);
         span_extend(parser, &span);
         res = b8(B8_FALSE);
@@ -754,7 +806,7 @@ obj_p parse_symbol(parser_t *parser) {
         return res;
     }
 
-    if (remaining >= 4 && strncmp(pos, "null", 4) == 0) {
+    if (is_keyword(parser, "null", 4)) {
         shift(parser, 4);
         span_extend(parser, &span);
         res = NULL_OBJ;
@@ -1160,14 +1212,25 @@ obj_p parser_advance(parser_t *parser) {
         return tok;
     }
 
-    if (*parser->current == '[')
-        return parse_vector(parser);
+    if (*parser->current == '[' || *parser->current == '(' || *parser->current == '{') {
+        if (parser->depth >= PARSE_DEPTH_LIMIT) {
+            nfo_insert(parser->nfo, parser->count, span_start(parser));
+            return parse_error(parser, parser->count++, EC_LIMIT);
+        }
 
-    if (*parser->current == '(')
-        return parse_list(parser);
+        parser->depth++;
 
-    if (*parser->current == '{')
-        return parse_dict(parser);
+        if (*parser->current == '[')
+            tok = parse_vector(parser);
+        else if (*parser->current == '(')
+            tok = parse_list(parser);
+        else
+            tok = parse_dict(parser);
+
+        parser->depth--;
+
+        return tok;
+    }
 
     if (((*parser->current) == '-' && is_digit(*(parser->current + 1))) || is_digit(*parser->current)) {
         tok = parse_0Nx(parser);
@@ -1261,6 +1324,7 @@ static obj_p parse_input(lit_p input, i64_t input_len, obj_p nfo) {
         .input_len = input_len,
         .line = 0,
         .column = 0,
+        .depth = 0,
         .replace_symbols = B8_TRUE,
     };
 
diff --git a/core/parse.h b/core/parse.h
index 5c34bbb..7a0efb8 100644
--- a/core/parse.h
+++ b/core/parse.h
@@ -38,6 +38,7 @@ typedef struct parser_t {
     i64_t input_len;       // length of input string
     i64_t line;            // current line
     i64_t column;          // current column
+    i64_t depth;           // nesting of the current token
     b8_t replace_symbols;  // replace symbols if they are internal functions
 } parser_t;
 
diff --git a/core/string.c b/core/string.c
index 81cf382..10212f3 100644
--- a/core/string.c
+++ b/core/string.c
@@ -25,6 +25,7 @@
 #include "ops.h"
 #include "error.h"
 #include "format.h"
+#include "heap.h"
 
 #define IS_DIGIT(c) ((c) >= '0' && (c) <= '9')
 #define IS_SPACE(c) ((c) == ' ' || (c) == '\t' || (c) == '\n' || (c) == '\r')
@@ -272,10 +273,15 @@ i64_t i64_from_str(lit_p src, i64_t len, i64_t *dst) {
 }
 
 i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
-    i32_t sign, frac_digits, exp_sign, exp;
-    i64_t i, start, exp_start;
-    f64_t int_part, frac_part, multiplier, divisor, val;
-    u64_t int_val;
+    static const f64_t POW10[] = {1e0,  1e1,  1e2,  1e3,  1e4,  1e5,  1e6,  1e7,  1e8,  1e9,  1e10, 1e11,
+                                  1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
+    i32_t digits, exp_sign, exp, e;
+    i64_t i, begin, start, exp_start, frac_digits;
+    u64_t mant;
+    b8_t neg, any;
+    c8_t tmp[128];
+    str_p buf;
+    f64_t val;
 
     i = 0;
 
@@ -286,95 +292,89 @@ i64_t f64_from_str(lit_p str, i64_t len, f64_t *dst) {
     if (i >= len)
         return 0;
 
+    begin = i;
+
     // Sign
-    sign = 1;
+    neg = B8_FALSE;
     if (str[i] == '-') {
-        sign = -1;
+        neg = B8_TRUE;
         i++;
     }
 
-    // Integer part - use fast parsing for up to 15 digits (fits in f64 without precision loss)
-    int_val = 0;
+    mant = 0;
+    digits = 0;  // significant digits
+    frac_digits = 0;
+    any = B8_FALSE;
+
+    // Integer part
     start = i;
-    
-    // Fast path: parse 8 digits at a time (only for numbers that fit)
-    if (i + 8 <= len && is_8_digits((const u8_t *)(str + i))) {
-        int_val = parse_8_digits((const u8_t *)(str + i));
-        i += 8;
-        // Parse up to 7 more digits (total 15 for f64 precision)
-        while (i < len && IS_DIGIT(str[i]) && (i - start) < 15) {
-            int_val = int_val * 10 + (str[i++] - '0');
-        }
-        // If more digits remain, use f64 accumulation to handle overflow gracefully
-        int_part = (f64_t)int_val;
-        while (i < len && IS_DIGIT(str[i])) {
-            int_part = int_part * 10 + (str[i++] - '0');
-        }
-    } else {
-        // Scalar path - use f64 from start to handle any size
-        int_part = 0;
-        while (i < len && IS_DIGIT(str[i])) {
-            int_part = int_part * 10 + (str[i++] - '0');
-        }
+    for (; i < len && IS_DIGIT(str[i]); i++) {
+        if (digits > 0 || str[i] != '0')
+            digits++;
+        if (digits <= 18)
+            mant = mant * 10 + (str[i] - '0');
+        any = B8_TRUE;
     }
 
     // Fractional part
-    frac_part = 0;
-    frac_digits = 0;
     if (i < len && str[i] == '.') {
         i++;
-        while (i < len && IS_DIGIT(str[i])) {
-            frac_part = frac_part * 10 + (str[i++] - '0');
+        for (; i < len && IS_DIGIT(str[i]); i++) {
+            if (digits > 0 || str[i] != '0')
+                digits++;
+            if (digits <= 18)
+                mant = mant * 10 + (str[i] - '0');
             frac_digits++;
+            any = B8_TRUE;
         }
     }
 
-    // Combine integer and fractional
-    val = int_part;
-    if (frac_digits > 0) {
-        divisor = 1.0;
-        for (int j = 0; j < frac_digits; j++) {
-            divisor *= 10.0;
-        }
-        val += frac_part / divisor;
-    }
+    if (i == start)
+        return 0;  // No digits parsed
 
     // Exponent
+    exp = 0;
     if (i < len && (str[i] == 'e' || str[i] == 'E')) {
-        i++;
+        exp_start = i++;
         exp_sign = 1;
-        if (i < len && str[i] == '-') {
-            exp_sign = -1;
-            i++;
-        } else if (i < len && str[i] == '+') {
-            i++;
-        }
+        if (i < len && (str[i] == '-' || str[i] == '+'))
+            exp_sign = (str[i++] == '-') ? -1 : 1;
+
+        if (i < len && IS_DIGIT(str[i])) {
+            for (; i < len && IS_DIGIT(str[i]); i++)
+                if (exp < 100000)
+                    exp = exp * 10 + (str[i] - '0');
+            exp *= exp_sign;
+        } else
+            i = exp_start;  // Not an exponent
+    }
 
-        exp = 0;
-        exp_start = i;
+    // The mantissa and the power of ten are exact: one operation gives the nearest value
+    e = (frac_digits < 1000) ? exp - (i32_t)frac_digits : 1000;
+    if (digits <= 15 && e >= -22 && e <= 22) {
+        val = (f64_t)mant;
+        val = (e < 0) ? val / POW10[-e] : val * POW10[e];
+        *dst = neg ? -val : val;
+        return i;
+    }
 
-        while (i < len && IS_DIGIT(str[i])) {
-            exp = exp * 10 + (str[i++] - '0');
-        }
-        if (i > exp_start) {
-            multiplier = 1.0;
-            for (int j = 0; j < exp; j++) {
-                if (exp_sign > 0)
-                    multiplier *= 10.0;
-                else
-                    multiplier /= 10.0;
-            }
-            val *= multiplier;
-        } else {
-            // Invalid exponent; rewind if needed
-            i = exp_start - 1;
-        }
+    if (!any)
+        return 0;
+
+    // All the rest is left to the C library, which needs a terminated string
+    buf = tmp;
+    if (i - begin >= (i64_t)sizeof(tmp)) {
+        buf = (str_p)heap_alloc(i - begin + 1);
+        if (buf == NULL)
+            return 0;
     }
 
-    if (i == start)
-        return 0;  // No digits parsed
+    memcpy(buf, str + begin, i - begin);
+    buf[i - begin] = '\0';
+    *dst = strtod(buf, NULL);
 
-    *dst = sign * val;
+    if (buf != tmp)
+        heap_free(buf);
 
     return i;
 }
-- 
2.43.0


From 8f54b44d2a717fff29984d2f4f89614cfd66d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:55 +0000
Subject: [PATCH 061/102] fix: read-csv drops the last line without newline,
 loses quoted line ends and quotes, reads past missing fields and keeps
 parsing errors of threads; write-csv loses i16, enum, precision and quoting;
 impossible dates in text

---
 core/date.c      |   9 +-
 core/eval.c      |   3 +-
 core/fs.c        |  12 +-
 core/io.c        | 368 ++++++++++++++++++++++++++++-------------------
 core/io.h        |   2 +-
 core/sys.c       |  29 ++--
 core/temporal.c  |   5 +
 core/temporal.h  |   1 +
 core/time.c      |  10 +-
 core/timestamp.c |  20 +--
 10 files changed, 275 insertions(+), 184 deletions(-)

diff --git a/core/date.c b/core/date.c
index 5d20ab0..3837470 100644
--- a/core/date.c
+++ b/core/date.c
@@ -82,20 +82,21 @@ datestruct_t date_from_str(str_p src, i64_t len) {
 
         while (len > 0 && is_digit(*cur)) {
             digit = *cur - '0';
-            val = val * 10 + digit;
+            if (digit_count < 10)
+                val = val * 10 + digit;
             cur++;
             len--;
             digit_count++;
         }
 
-        if (digit_count == 0) {
+        if (digit_count == 0 || digit_count > 9) {
             dt.null = B8_TRUE;
             return dt;
         }
 
         switch (cnt) {
             case 0:
-                dt.year = (val >= 0) ? (u16_t)val : (dt.null = B8_TRUE, 0);
+                dt.year = (val >= 0 && val <= 9999) ? (u16_t)val : (dt.null = B8_TRUE, 0);
                 break;
             case 1:
                 dt.month = (val >= 1 && val <= 12) ? (u8_t)val : (dt.null = B8_TRUE, 0);
@@ -116,7 +117,7 @@ datestruct_t date_from_str(str_p src, i64_t len) {
         }
     }
 
-    if (cnt < 3)
+    if (cnt < 3 || !date_exists(dt.year, dt.month, dt.day))
         dt.null = B8_TRUE;
 
     return dt;
diff --git a/core/eval.c b/core/eval.c
index 1731fb2..a435956 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -1049,7 +1049,8 @@ obj_p ray_eval_str_line(obj_p str, obj_p file, i64_t line) {
     if (file != NULL && file != NULL_OBJ) {
         if (line > 0) {
             // Append line number to filename: "repl:42"
-            len = snprintf(buf, 64, "%.*s:%lld", (int)file->len, AS_C8(file), (long long)line);
+            // (of a long one, its beginning)
+            len = snprintf(buf, 64, "%.*s:%lld", (int)(file->len > 40 ? 40 : file->len), AS_C8(file), (long long)line);
             filename = string_from_str(buf, len);
         } else {
             filename = clone_obj(file);
diff --git a/core/fs.c b/core/fs.c
index 2536554..4f2cd34 100644
--- a/core/fs.c
+++ b/core/fs.c
@@ -232,7 +232,7 @@ i64_t fs_fread(i64_t fd, str_p buf, i64_t size) {
 }
 
 i64_t fs_fwrite(i64_t fd, str_p buf, i64_t size) {
-    i64_t bytesWritten, totalWritten = 0;
+    i64_t bytesWritten = 0, totalWritten = 0;
 
     while (totalWritten < size && (bytesWritten = write(fd, buf + totalWritten, size - totalWritten)) > 0)
         totalWritten += bytesWritten;
@@ -332,22 +332,24 @@ i64_t fs_fsize(i64_t fd) {
 }
 
 i64_t fs_fread(i64_t fd, str_p buf, i64_t size) {
-    i64_t c = 0;
+    i64_t c = 0, l = size;
 
-    while ((c = read(fd, buf, size - c)) > 0)
+    while (l > 0 && (c = read(fd, buf, l)) > 0) {
         buf += c;
+        l -= c;
+    }
 
     if (c == -1)
         return c;
 
     *buf = '\0';
 
-    return size;
+    return size - l;
 }
 
 i64_t fs_fwrite(i64_t fd, str_p buf, i64_t size) {
     i64_t c = 0, l = size;
-    while ((c = write(fd, buf, l)) > 0) {
+    while (l > 0 && (c = write(fd, buf, l)) > 0) {
         buf += c;
         l -= c;
     }
diff --git a/core/io.c b/core/io.c
index 48e47e9..5b8ed61 100644
--- a/core/io.c
+++ b/core/io.c
@@ -49,8 +49,10 @@ typedef u8_t v32u8 __attribute__((vector_size(32)));
 static i64_t *grow_offsets(i64_t *offsets, i64_t *capacity, i64_t line_count) {
     i64_t new_capacity = *capacity * 2;
     i64_t *new_offsets = (i64_t *)heap_mmap(new_capacity * sizeof(i64_t));
-    if (new_offsets == NULL)
+    if (new_offsets == NULL) {
+        heap_unmap(offsets, *capacity * sizeof(i64_t));
         return NULL;
+    }
     memcpy(new_offsets, offsets, line_count * sizeof(i64_t));
     heap_unmap(offsets, *capacity * sizeof(i64_t));
     *capacity = new_capacity;
@@ -58,13 +60,15 @@ static i64_t *grow_offsets(i64_t *offsets, i64_t *capacity, i64_t line_count) {
 }
 
 // Build line offset index in single pass with SIMD acceleration
-// Returns number of lines, allocates line_offsets_out array
-// line_offsets[i] = byte offset where line i starts (line 0 is first data line after header)
-i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out) {
+// A newline inside a quoted field does not end a line.
+// Returns number of lines (the last one may lack its newline), allocates line_offsets_out array
+// line_offsets[i] = byte offset where line i starts, line_offsets[lines] = size
+i64_t io_build_line_index(str_p buf, i64_t size, c8_t sep, i64_t **line_offsets_out, i64_t *capacity_out) {
     i64_t capacity;
     i64_t line_count = 0;
     i64_t *offsets;
     i64_t pos = 0;
+    b8_t quoted = B8_FALSE, field_start = B8_TRUE;
 
     // Estimate initial capacity based on average line length (~50 bytes typical for CSV)
     // Add 10% buffer to reduce reallocations
@@ -79,6 +83,36 @@ i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out) {
     // First line starts at offset 0
     offsets[line_count++] = 0;
 
+    // Quoted fields: every byte has to be looked at
+    if (memchr(buf, '"', size) != NULL) {
+        for (; pos < size; pos++) {
+            if (quoted) {
+                if (buf[pos] == '"') {
+                    if (pos + 1 < size && buf[pos + 1] == '"')
+                        pos++;
+                    else
+                        quoted = B8_FALSE;
+                }
+                continue;
+            }
+
+            if (buf[pos] == '\n') {
+                if (line_count >= capacity) {
+                    offsets = grow_offsets(offsets, &capacity, line_count);
+                    if (offsets == NULL)
+                        return -1;
+                }
+                offsets[line_count++] = pos + 1;
+                field_start = B8_TRUE;
+            } else if (buf[pos] == '"' && field_start) {
+                quoted = B8_TRUE;
+                field_start = B8_FALSE;
+            } else {
+                field_start = (buf[pos] == sep);
+            }
+        }
+    }
+
     // SIMD newline scanning - process 32 bytes at a time
     v32u8 newline_vec = (v32u8){'\n', '\n', '\n', '\n', '\n', '\n', '\n', '\n',
                                  '\n', '\n', '\n', '\n', '\n', '\n', '\n', '\n',
@@ -137,7 +171,18 @@ i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out) {
         pos++;
     }
 
+    // Last line without newline
+    if (offsets[line_count - 1] < size) {
+        if (line_count >= capacity) {
+            offsets = grow_offsets(offsets, &capacity, line_count);
+            if (offsets == NULL)
+                return -1;
+        }
+        offsets[line_count++] = size;
+    }
+
     *line_offsets_out = offsets;
+    *capacity_out = capacity;
     return line_count - 1;  // Number of actual lines (excluding the sentinel offset)
 }
 
@@ -378,7 +423,8 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_B8(out)[row] = 0;
                 break;
             }
-            b8_from_str(start, end - start, &num_b8);
+            if (end - start == 4)
+                b8_from_str(start, end - start, &num_b8);
             AS_B8(out)[row] = num_b8;
             break;
         case TYPE_U8:
@@ -387,23 +433,27 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 break;
             }
             i64_from_str(start, end - start, &num_i64);
-            AS_U8(out)[row] = (u8_t)num_i64;
+            AS_U8(out)[row] = (num_i64 < 0 || num_i64 > 255) ? 0 : (u8_t)num_i64;
             break;
         case TYPE_I16:
             if (start == NULL || end == NULL) {
                 AS_I16(out)[row] = NULL_I16;
                 break;
             }
-            i64_from_str(start, end - start, &num_i64);
-            AS_I16(out)[row] = (i16_t)num_i64;
+            if (i64_from_str(start, end - start, &num_i64) == 0 || num_i64 < -32767 || num_i64 > 32767)
+                AS_I16(out)[row] = NULL_I16;
+            else
+                AS_I16(out)[row] = (i16_t)num_i64;
             break;
         case TYPE_I32:
             if (start == NULL || end == NULL) {
                 AS_I32(out)[row] = NULL_I32;
                 break;
             }
-            AS_I32(out)[row] = NULL_I32;
-            i32_from_str(start, end - start, &AS_I32(out)[row]);
+            if (i64_from_str(start, end - start, &num_i64) == 0 || num_i64 < -2147483647 || num_i64 > 2147483647)
+                AS_I32(out)[row] = NULL_I32;
+            else
+                AS_I32(out)[row] = (i32_t)num_i64;
             break;
         case TYPE_DATE:
             if (start == NULL || end == NULL) {
@@ -424,8 +474,7 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
                 AS_I64(out)[row] = NULL_I64;
                 break;
             }
-            i64_from_str(start, end - start, &num_i64);
-            AS_I64(out)[row] = num_i64;
+            AS_I64(out)[row] = (i64_from_str(start, end - start, &num_i64) == 0) ? NULL_I64 : num_i64;
             break;
         case TYPE_TIMESTAMP:
             if (start == NULL || end == NULL) {
@@ -443,21 +492,12 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
             f64_from_str(start, end - start, &AS_F64(out)[row]);
             break;
         case TYPE_SYMBOL:
-            if (start == NULL || end == NULL) {
-                AS_SYMBOL(out)[row] = 0;
-                break;
-            }
-            n = end - start;
-            if ((n > 0) && (*(end - 1) == '\r'))
-                n--;
-
-            AS_SYMBOL(out)[row] = symbols_intern(start, n);
+            n = (start == NULL || end == NULL) ? 0 : end - start;
+            AS_SYMBOL(out)[row] = (n == 0) ? NULL_I64 : symbols_intern(start, n);
             break;
         case TYPE_C8:
-            n = end - start;
-            if ((n > 0) && (*(end - 1) == '\r'))
-                n--;
-            AS_LIST(out)[row] = string_from_str(start, n);
+            n = (start == NULL || end == NULL) ? 0 : end - start;
+            AS_LIST(out)[row] = string_from_str((n == 0) ? "" : start, n);
             break;
         case TYPE_GUID:
             if (start == NULL || end == NULL) {
@@ -477,37 +517,57 @@ obj_p parse_csv_field(i8_t type, str_p start, str_p end, i64_t row, obj_p out) {
 }
 
 obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row, obj_p cols, c8_t sep) {
-    i64_t i, len;
+    i64_t i, j, n, len;
     str_p prev, pos;
-    obj_p res;
-
-    for (i = 0, pos = start; i < cnt; i++) {
-        if (pos == NULL || end == NULL) {
-            res = parse_csv_field(types[i], NULL, NULL, row, AS_LIST(cols)[i]);
+    obj_p res, buf;
 
-            if (!is_null(res))
-                return res;
-
-            continue;
-        }
+    // the last of the fields ends with the line, not with its line ending
+    if (end > start && *(end - 1) == '\r')
+        end--;
 
+    for (i = 0, pos = start; i < cnt; i++) {
         len = end - pos;
         prev = pos;
 
         // quoted field?
         if (len > 0 && *prev == '"') {
             prev++;
-            pos = (str_p)memchr(prev, '"', len - 1);
 
-            if (pos == NULL)
+            // find the closing quote, a doubled one stands for itself
+            for (pos = prev, n = 0; pos < end; pos++) {
+                if (*pos != '"')
+                    continue;
+                if (pos + 1 == end || pos[1] != '"')
+                    break;
+                pos++;
+                n++;
+            }
+
+            if (pos >= end)
                 return err_length(0, 0, 0, 0, 0, 0);
 
-            res = parse_csv_field(types[i], prev, pos, row, AS_LIST(cols)[i]);
-            pos += 2;  // skip quote and comma
+            if (n == 0) {
+                res = parse_csv_field(types[i], prev, pos, row, AS_LIST(cols)[i]);
+            } else {
+                buf = C8(pos - prev - n);
+                for (j = 0; j < buf->len; j++) {
+                    AS_C8(buf)[j] = *prev;
+                    prev += (*prev == '"') ? 2 : 1;
+                }
+                res = parse_csv_field(types[i], AS_C8(buf), AS_C8(buf) + buf->len, row, AS_LIST(cols)[i]);
+                drop_obj(buf);
+            }
 
             if (!is_null(res))
                 return res;
 
+            pos++;  // skip quote
+
+            if (pos < end && *pos == sep)
+                pos++;  // skip separator
+            else if (pos < end || i < cnt - 1)
+                return err_length(0, 0, 0, 0, 0, 0);
+
             continue;
         }
 
@@ -532,46 +592,34 @@ obj_p parse_csv_line(i8_t types[], i64_t cnt, str_p start, str_p end, i64_t row,
         if (!is_null(res))
             return res;
 
-        pos++;
+        if (pos < end)
+            pos++;
     }
 
     return NULL_OBJ;
 }
 
-obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_t lines, i64_t start_line, obj_p cols,
-                      c8_t sep) {
-    i64_t i, j, k, l;
+obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t *line_offsets, i64_t lines, i64_t start_line,
+                      obj_p cols, c8_t sep) {
+    i64_t i;
     str_p line_end, prev;
     obj_p res = NULL_OBJ;
 
-    for (i = 0, prev = buf; i < lines; i++) {
+    for (i = start_line; i < start_line + lines; i++) {
+        prev = buf + line_offsets[i];
+        line_end = buf + line_offsets[i + 1];
+
         // Prefetch next cache lines for better memory access patterns
-        if (i + 1 < lines)
-            __builtin_prefetch(prev + 256, 0, 1);
-
-        line_end = (str_p)memchr(prev, '\n', buf + size - prev);
-        if (line_end == NULL) {
-            line_end = buf + size;  // Handle last line without newline
-            if (line_end > prev && *(line_end - 1) == '\r')
-                line_end--;  // Handle carriage return
-        }
+        __builtin_prefetch(prev + 256, 0, 1);
 
-        res = parse_csv_line(types, num_types, prev, line_end, start_line + i, cols, sep);
+        if (line_end > prev && *(line_end - 1) == '\n')
+            line_end--;  // Last line may have no newline
 
-        if (res != NULL_OBJ) {
-            l = cols->len;
-            for (j = 0; j < l; j++) {
-                // Need to free allocated objects in case of compound type
-                if (AS_LIST(cols)[j]->type == TYPE_LIST) {
-                    for (k = 0; k < i; k++) {
-                        drop_obj(AS_LIST(AS_LIST(cols)[j])[k]);
-                    }
-                }
-                return res;
-            }
-        }
+        res = parse_csv_line(types, num_types, prev, line_end, i, cols, sep);
 
-        prev = line_end + 1;  // Move past the newline
+        // what was parsed so far belongs to the columns
+        if (res != NULL_OBJ)
+            return res;
     }
 
     return NULL_OBJ;  // Success
@@ -579,15 +627,14 @@ obj_p parse_csv_range(i8_t types[], i64_t num_types, str_p buf, i64_t size, i64_
 
 obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t total_lines, i64_t *line_offsets,
                   obj_p cols, c8_t sep) {
-    obj_p err, res = NULL_OBJ;
-    i64_t i, l, batch_size, num_batches, lines_per_batch, start_line, end_line, lines_in_batch;
-    str_p batch_start, batch_end;
+    obj_p res = NULL_OBJ;
+    i64_t num_batches, lines_per_batch, start_line, end_line, lines_in_batch;
     pool_p pool = runtime_get()->pool;
 
     num_batches = pool_split_by(pool, total_lines, 0);
 
     if (num_batches == 1)
-        return parse_csv_range(types, num_types, buf, size, total_lines, 0, cols, sep);
+        return parse_csv_range(types, num_types, buf, line_offsets, total_lines, 0, cols, sep);
 
     pool_prepare(pool);
 
@@ -608,29 +655,14 @@ obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t tot
             end_line = total_lines;
         lines_in_batch = end_line - start_line;
 
-        // O(1) batch boundary lookup using line offset index
-        batch_start = buf + line_offsets[start_line];
-        batch_end = buf + line_offsets[end_line];  // end_line offset points to start of next batch
-
-        // Handle edge case for last batch
-        if (end_line >= total_lines)
-            batch_end = buf + size;
-
-        batch_size = batch_end - batch_start;
-        pool_add_task(pool, (raw_p)parse_csv_range, 8, types, num_types, batch_start, batch_size, lines_in_batch,
-                      start_line, cols, sep);
+        pool_add_task(pool, (raw_p)parse_csv_range, 8, types, num_types, buf, line_offsets, lines_in_batch, start_line,
+                      cols, sep);
     }
 
     res = pool_run(pool);
 
-    l = res->len;
-    for (i = 0; i < l; i++) {
-        if (IS_ERR(AS_LIST(res)[i])) {
-            err = clone_obj(AS_LIST(res)[i]);
-            drop_obj(res);
-            return err;
-        }
-    }
+    if (IS_ERR(res))
+        return res;
 
     drop_obj(res);
 
@@ -675,7 +707,7 @@ i64_t io_symbol_from_str_trimmed(str_p src, i64_t len) {
 
 obj_p ray_read_csv(obj_p *x, i64_t n) {
     i64_t fd, size;
-    i64_t i, l, len, lines, line_index_capacity;
+    i64_t i, l, len, lines, line_index_capacity = 0;
     i64_t *line_offsets = NULL;
     str_p buf, prev, pos, line;
     obj_p types, names, cols, path, res;
@@ -737,27 +769,26 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
             buf = (str_p)mmap_file(fd, NULL, size, 0);
 
             if (buf == NULL) {
+                res = err_os();
                 drop_obj(types);
                 fs_fclose(fd);
-                return err_os();
+                drop_obj(path);
+                return res;
             }
 
             // Build line offset index in single pass (replaces separate line counting + batch scanning)
-            lines = io_build_line_index(buf, size, &line_offsets);
+            lines = io_build_line_index(buf, size, sep, &line_offsets, &line_index_capacity);
 
             if (lines <= 0 || line_offsets == NULL) {
                 drop_obj(types);
                 fs_fclose(fd);
                 mmap_free(buf, size);
                 drop_obj(path);
+                if (line_offsets != NULL)
+                    heap_unmap(line_offsets, line_index_capacity * sizeof(i64_t));
                 return err_length(0, 0, 0, 0, 0, 0);
             }
 
-            // Calculate capacity for cleanup (next power of 2 >= lines+1)
-            line_index_capacity = 1024;
-            while (line_index_capacity < lines + 2)
-                line_index_capacity *= 2;
-
             // parse header (line 0)
             pos = buf + line_offsets[1];  // End of header line
             if (pos > buf && *(pos - 1) == '\n')
@@ -777,6 +808,7 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                         drop_obj(names);
                         fs_fclose(fd);
                         mmap_free(buf, size);
+                        drop_obj(path);
                         heap_unmap(line_offsets, line_index_capacity * sizeof(i64_t));
                         return err_length(0, 0, 0, 0, 0, 0);
                     }
@@ -785,6 +817,9 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
                     // truncate \r (if any)
                     if ((len > 0) && (pos[-1] == '\r'))
                         pos--;
+
+                    AS_SYMBOL(names)[i] = io_symbol_from_str_trimmed(prev, pos - prev);
+                    continue;
                 }
 
                 AS_SYMBOL(names)[i] = io_symbol_from_str_trimmed(prev, pos - prev);
@@ -817,9 +852,11 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
             // allocate columns
             cols = LIST(l);
             for (i = 0; i < l; i++) {
-                if (AS_C8(types)[i] == TYPE_C8)
+                if (AS_C8(types)[i] == TYPE_C8) {
                     AS_LIST(cols)[i] = LIST(lines);
-                else
+                    for (len = 0; len < lines; len++)
+                        AS_LIST(AS_LIST(cols)[i])[len] = NULL_OBJ;
+                } else
                     AS_LIST(cols)[i] = vector(AS_C8(types)[i], lines);
             }
 
@@ -835,10 +872,6 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
 
             if (!is_null(res)) {
                 drop_obj(names);
-                l = cols->len;
-                for (i = 0; i < l; i++)
-                    AS_LIST(cols)[i]->len = 0;
-
                 drop_obj(cols);
                 return res;
             }
@@ -849,16 +882,58 @@ obj_p ray_read_csv(obj_p *x, i64_t n) {
     }
 }
 
-static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
+static nil_t csv_append(obj_p *dst, lit_p s, i64_t n) {
+    i64_t l = (*dst)->len;
+
+    if (is_null(resize_obj(dst, l + n)))
+        PANIC("csv_append: OOM");
+
+    memcpy(AS_C8(*dst) + l, s, n);
+}
+
+// text with quotes around it, if it contains separator, quotes or line ends
+static i64_t csv_text_to_str(lit_p s, i64_t n, c8_t sep, obj_p *dst) {
+    i64_t i;
+    b8_t need_quote = B8_FALSE;
+
+    for (i = 0; i < n; i++) {
+        if (s[i] == sep || s[i] == '"' || s[i] == '\n' || s[i] == '\r') {
+            need_quote = B8_TRUE;
+            break;
+        }
+    }
+
+    if (!need_quote) {
+        csv_append(dst, s, n);
+        return n;
+    }
+
+    csv_append(dst, "\"", 1);
+    for (i = 0; i < n; i++) {
+        if (s[i] == '"')
+            csv_append(dst, "\"", 1);
+        csv_append(dst, s + i, 1);
+    }
+    csv_append(dst, "\"", 1);
+
+    return n;
+}
+
+static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst, c8_t sep) {
     i64_t n;
     str_p s;
     obj_p str_obj;
+    c8_t buf[32];
 
     switch (col->type) {
         case TYPE_B8:
             return AS_B8(col)[row] ? str_fmt_into(dst, -1, "true") : str_fmt_into(dst, -1, "false");
         case TYPE_U8:
             return str_fmt_into(dst, -1, "%u", AS_U8(col)[row]);
+        case TYPE_I16:
+            if (AS_I16(col)[row] == NULL_I16)
+                return 0;
+            return str_fmt_into(dst, -1, "%d", (i32_t)AS_I16(col)[row]);
         case TYPE_I32:
             if (AS_I32(col)[row] == NULL_I32)
                 return 0;
@@ -894,47 +969,33 @@ static i64_t csv_field_to_str(obj_p col, i64_t row, obj_p *dst) {
         case TYPE_F64:
             if (ISNANF64(AS_F64(col)[row]))
                 return 0;
-            return str_fmt_into(dst, -1, "%g", AS_F64(col)[row]);
+            // as short as possible, but without loss of precision
+            snprintf(buf, sizeof(buf), "%g", AS_F64(col)[row]);
+            if (strtod(buf, NULL) != AS_F64(col)[row])
+                snprintf(buf, sizeof(buf), "%.15g", AS_F64(col)[row]);
+            if (strtod(buf, NULL) != AS_F64(col)[row])
+                snprintf(buf, sizeof(buf), "%.17g", AS_F64(col)[row]);
+            return str_fmt_into(dst, -1, "%s", buf);
         case TYPE_SYMBOL:
             if (AS_SYMBOL(col)[row] == NULL_I64)
                 return 0;
             s = str_from_symbol(AS_SYMBOL(col)[row]);
-            return str_fmt_into(dst, -1, "%s", s);
+            return csv_text_to_str(s, strlen(s), sep, dst);
         case TYPE_C8:
-            // String type - output with quotes if it contains separator or quotes
-            s = AS_C8(col);
-            n = col->len;
-            return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
+            // Characters - one per row
+            return csv_text_to_str(AS_C8(col) + row, 1, sep, dst);
         case TYPE_LIST:
             // List of strings
             str_obj = AS_LIST(col)[row];
             if (str_obj == NULL_OBJ || str_obj->type == TYPE_NULL)
                 return 0;
+            if (str_obj->type == -TYPE_C8)
+                return csv_text_to_str(&str_obj->c8, 1, sep, dst);
+            if (str_obj->type != TYPE_C8)
+                return 0;
             s = AS_C8(str_obj);
             n = str_obj->len;
-            // Check if we need to quote (contains separator, newline, or quote)
-            {
-                i64_t i;
-                b8_t need_quote = B8_FALSE;
-                for (i = 0; i < n; i++) {
-                    if (s[i] == ',' || s[i] == '"' || s[i] == '\n' || s[i] == '\r') {
-                        need_quote = B8_TRUE;
-                        break;
-                    }
-                }
-                if (need_quote) {
-                    i64_t m = str_fmt_into(dst, -1, "\"");
-                    for (i = 0; i < n; i++) {
-                        if (s[i] == '"')
-                            m += str_fmt_into(dst, -1, "\"\"");
-                        else
-                            m += str_fmt_into(dst, -1, "%c", s[i]);
-                    }
-                    m += str_fmt_into(dst, -1, "\"");
-                    return m;
-                }
-            }
-            return str_fmt_into(dst, -1, "%.*s", (i32_t)n, s);
+            return csv_text_to_str(s, n, sep, dst);
         case TYPE_GUID:
             if (memcmp(AS_GUID(col)[row], NULL_GUID, sizeof(guid_t)) == 0)
                 return 0;
@@ -975,7 +1036,6 @@ obj_p ray_write_csv(obj_p *x, i64_t n) {
 
             table = x[1];
             names = AS_LIST(table)[0];
-            cols = AS_LIST(table)[1];
             l = names->len;
 
             if (l == 0)
@@ -995,6 +1055,24 @@ obj_p ray_write_csv(obj_p *x, i64_t n) {
 
             buf = NULL_OBJ;
 
+            // columns, which keep their values elsewhere (enumerations, parted ones, maps)
+            cols = LIST(l);
+            for (i = 0; i < l; i++) {
+                col = AS_LIST(AS_LIST(table)[1])[i];
+                AS_LIST(cols)[i] = (col->type > TYPE_C8 && col->type < TYPE_TABLE) ? ray_value(col) : clone_obj(col);
+            }
+
+            for (i = 0; i < l; i++) {
+                col = AS_LIST(cols)[i];
+                if (IS_ERR(col) || col->type < TYPE_LIST || col->type > TYPE_C8) {
+                    res = IS_ERR(col) ? clone_obj(col) : err_type(TYPE_LIST, col->type, 0, 0);
+                    drop_obj(cols);
+                    drop_obj(path);
+                    fs_fclose(fd);
+                    return res;
+                }
+            }
+
             // Write header row
             for (i = 0; i < l; i++) {
                 str_fmt_into(&buf, -1, "%s", str_from_symbol(AS_SYMBOL(names)[i]));
@@ -1006,29 +1084,25 @@ obj_p ray_write_csv(obj_p *x, i64_t n) {
             // Write data rows
             for (j = 0; j < rows; j++) {
                 for (i = 0; i < l; i++) {
-                    col = AS_LIST(cols)[i];
-                    csv_field_to_str(col, j, &buf);
+                    csv_field_to_str(AS_LIST(cols)[i], j, &buf, sep);
                     if (i < l - 1)
-                        str_fmt_into(&buf, -1, "%c", sep);
+                        csv_append(&buf, &sep, 1);
                 }
-                str_fmt_into(&buf, -1, "\n");
+                csv_append(&buf, "\n", 1);
             }
 
             // Write buffer to file
+            res = NULL_OBJ;
             c = fs_fwrite(fd, AS_C8(buf), buf->len);
-            if (c == -1) {
+            if (c == -1)
                 res = err_os();
-                drop_obj(buf);
-                drop_obj(path);
-                fs_fclose(fd);
-                return res;
-            }
 
             drop_obj(buf);
+            drop_obj(cols);
             drop_obj(path);
             fs_fclose(fd);
 
-            return NULL_OBJ;
+            return res;
         default:
             return err_arity(3, n, 0);
     }
diff --git a/core/io.h b/core/io.h
index 3ee9e67..21c3288 100644
--- a/core/io.h
+++ b/core/io.h
@@ -43,6 +43,6 @@ obj_p io_get_table_splayed(obj_p path, obj_p symfile);
 obj_p io_read_csv(i8_t *types, i64_t num_types, str_p buf, i64_t size, i64_t total_lines, i64_t *line_offsets,
                   obj_p cols, c8_t sep);
 i64_t io_symbol_from_str_trimmed(str_p src, i64_t len);
-i64_t io_build_line_index(str_p buf, i64_t size, i64_t **line_offsets_out);
+i64_t io_build_line_index(str_p buf, i64_t size, c8_t sep, i64_t **line_offsets_out, i64_t *capacity_out);
 
 #endif  // IO_H
diff --git a/core/sys.c b/core/sys.c
index 9024bb5..d558ca0 100644
--- a/core/sys.c
+++ b/core/sys.c
@@ -177,8 +177,7 @@ obj_p sys_set_fpr(i32_t argc, str_p argv[]) {
     if (argc != 1)
         return err_arity(1, argc, 0);
 
-    i64_from_str(argv[0], strlen(argv[0]), &fpr);
-    if (fpr < 0)
+    if (i64_from_str(argv[0], strlen(argv[0]), &fpr) == 0 || fpr < 0)
         return err_type(0, 0, 0, 0);
 
     res = format_set_fpr(fpr);
@@ -194,11 +193,7 @@ obj_p sys_set_display_width(i32_t argc, str_p argv[]) {
     if (argc != 1)
         return err_arity(1, argc, 0);
 
-    i64_from_str(argv[0], strlen(argv[0]), &width);
-    if (width < 0)
-        return err_type(0, 0, 0, 0);
-
-    if (width < 0)
+    if (i64_from_str(argv[0], strlen(argv[0]), &width) == 0 || width < 0)
         return err_type(0, 0, 0, 0);
 
     res = format_set_display_width(width);
@@ -214,8 +209,7 @@ obj_p sys_timeit(i32_t argc, str_p argv[]) {
     if (argc != 1)
         return err_arity(1, argc, 0);
 
-    i64_from_str(argv[0], strlen(argv[0]), &res);
-    if (res < 0)
+    if (i64_from_str(argv[0], strlen(argv[0]), &res) == 0 || res < 0)
         return err_type(0, 0, 0, 0);
 
     timeit_activate(res != 0);
@@ -258,8 +252,7 @@ obj_p sys_exit(i32_t argc, str_p argv[]) {
         code = 0;
     else {
         l = strlen(argv[0]);
-        i64_from_str(argv[0], l, &code);
-        if (code < 0)
+        if (i64_from_str(argv[0], l, &code) == 0 || code < 0)
             return err_type(0, 0, 0, 0);
     }
 
@@ -273,14 +266,17 @@ obj_p ray_internal_command(obj_p cmd) {
     c8_t *cmd_str, *current, cmd_buf[4096];
     i32_t i, cmd_len, remaining_len, argc;
 
-    current = AS_C8(cmd);
+    // Internal commands are short
+    if (cmd->len >= (i64_t)sizeof(cmd_buf))
+        return NULL_OBJ;
+
     cmd_len = cmd->len;
     remaining_len = cmd_len;
     argc = 0;
 
     // Make a copy of the command string
-    strncpy(cmd_buf, current, sizeof(cmd_buf) - 1);
-    cmd_buf[sizeof(cmd_buf) - 1] = '\0';
+    memcpy(cmd_buf, AS_C8(cmd), cmd_len);
+    cmd_buf[cmd_len] = '\0';
 
     cmd_str = cmd_buf;
     current = cmd_buf;  // Use the copy for parsing
@@ -377,6 +373,7 @@ obj_p ray_system(obj_p cmd) {
     c = str_fmt(-1, "%.*s 2>&1", (i32_t)cmd->len, (lit_p)AS_U8(cmd));
 
     fp = popen(AS_C8(c), "r");
+    drop_obj(c);
     if (fp == NULL)
         return err_os();
 
@@ -385,13 +382,11 @@ obj_p ray_system(obj_p cmd) {
     while (fgets(buf, sizeof(buf), fp) != NULL) {
         l = strlen(buf);
         if (l > 0 && buf[l - 1] == '\n')
-            buf[l - 1] = '\0';  // Remove the newline
-        l--;
+            l--;  // Remove the newline
 
         push_obj(&res, string_from_str(buf, l));
     }
 
-    drop_obj(c);
     status = pclose(fp);
 
     // Trim res list if it contains only one element
diff --git a/core/temporal.c b/core/temporal.c
index 958d3df..3c80d29 100644
--- a/core/temporal.c
+++ b/core/temporal.c
@@ -35,6 +35,11 @@ const u32_t MONTHDAYS_ABS[2][12] = {
 
 u8_t leap_year(u16_t year) { return (year % 4 == 0 && year % 100 != 0) || year % 400 == 0; }
 
+b8_t date_exists(i64_t year, i64_t month, i64_t day) {
+    return year >= 1 && year <= 9999 && month >= 1 && month <= 12 && day >= 1 &&
+           day <= MONTHDAYS_ABS[leap_year((u16_t)year)][month - 1];
+}
+
 i32_t years_by_days(u16_t yy) { return (yy * 365 + yy / 4 - yy / 100 + yy / 400); }
 
 u8_t days_in_month(u16_t year, u8_t month) {
diff --git a/core/temporal.h b/core/temporal.h
index 8ebdcac..c5cf682 100644
--- a/core/temporal.h
+++ b/core/temporal.h
@@ -43,6 +43,7 @@ extern const u32_t MONTHDAYS_FWD[2][13];
 extern const u32_t MONTHDAYS_ABS[2][12];
 
 u8_t leap_year(u16_t year);
+b8_t date_exists(i64_t year, i64_t month, i64_t day);
 i32_t years_by_days(u16_t yy);
 u8_t days_in_month(u16_t year, u8_t month);
 
diff --git a/core/time.c b/core/time.c
index 20914b9..7660914 100644
--- a/core/time.c
+++ b/core/time.c
@@ -58,12 +58,15 @@ timestruct_t time_from_str(str_p src, i64_t len) {
     timestruct_t ts = {.null = 0, .sign = 1, .hours = 0, .mins = 0, .secs = 0, .msecs = 0};
 
     for (i = 0; i < len; i++) {
-        if (src[i] == '-') {
+        if (src[i] == '-' && i == 0) {
             ts.sign = -1;
             continue;
         }
 
         if (src[i] == ':' || src[i] == '.') {
+            if (val > (cnt == 0 ? 255 : 59))
+                return (timestruct_t){.null = 1};
+
             switch (cnt) {
                 case 0:
                     ts.hours = (u8_t)val;
@@ -89,10 +92,15 @@ timestruct_t time_from_str(str_p src, i64_t len) {
 
         digit = src[i] - '0';
         val = val * 10 + digit;
+
+        if (val > 999)
+            return (timestruct_t){.null = 1};
     }
 
     switch (cnt) {
         case 2:
+            if (val > 59)
+                return (timestruct_t){.null = 1};
             ts.secs = (u8_t)val;
             break;
         case 3:
diff --git a/core/timestamp.c b/core/timestamp.c
index 6088640..249b70f 100644
--- a/core/timestamp.c
+++ b/core/timestamp.c
@@ -108,12 +108,11 @@ i64_t timestamp_into_i64(timestamp_t ts) {
     i64_t dss = date_into_days(dt);
     i64_t offs = timespan_into_nanos(sp);
 
-    if (dss < 0) {
-        offs = NSECS_IN_DAY - offs;
-        return ((dss + 1) * NSECS_IN_DAY - offs);
-    }
+    // does not fit (years out of 1707 .. 2292)
+    if (__builtin_mul_overflow(dss, (i64_t)NSECS_IN_DAY, &dss) || __builtin_add_overflow(dss, offs, &dss))
+        return NULL_I64;
 
-    return (dss * NSECS_IN_DAY + offs);
+    return dss;
 }
 
 // Parse ISO format timestamp: 2004-10-21 12:00:00+02:00 or 2004-10-21T12:00:00Z
@@ -191,6 +190,11 @@ static timestamp_t timestamp_from_str_iso(str_p src, i64_t len) {
     }
     ts.day = (u8_t)val;
 
+    if (!date_exists(ts.year, ts.month, ts.day)) {
+        ts.null = B8_TRUE;
+        return ts;
+    }
+
     // Optional time component
     if (len == 0)
         return ts;
@@ -406,7 +410,7 @@ timestamp_t timestamp_from_str(str_p src, i64_t len) {
         // Validate and assign values
         switch (cnt) {
             case 0:
-                ts.year = (val >= 0) ? (u16_t)val : (ts.null = B8_TRUE, 0);
+                ts.year = (val >= 0 && val <= 9999) ? (u16_t)val : (ts.null = B8_TRUE, 0);
                 break;
             case 1:
                 ts.month = (val >= 1 && val <= 12) ? (u8_t)val : (ts.null = B8_TRUE, 0);
@@ -424,7 +428,7 @@ timestamp_t timestamp_from_str(str_p src, i64_t len) {
                 ts.secs = (val >= 0 && val <= 59) ? (u8_t)val : (ts.null = B8_TRUE, 0);
                 break;
             case 6:
-                ts.nanos = (u32_t)val;
+                ts.nanos = (val <= 999999999) ? (u32_t)val : (ts.null = B8_TRUE, 0);
                 break;
         }
 
@@ -440,7 +444,7 @@ timestamp_t timestamp_from_str(str_p src, i64_t len) {
         }
     }
 
-    if (cnt < 3)
+    if (cnt < 3 || !date_exists(ts.year, ts.month, ts.day))
         ts.null = B8_TRUE;
 
     return ts;
-- 
2.43.0


From 38e69cf48db1deee0517473e200b184e12879c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 062/102] fix: parted and enumerated columns read back,
 filtered, compared and aggregated as their values

---
 core/aggr.c     | 504 ++++++++++++++++--------------------------------
 core/cmp.c      |  20 +-
 core/compose.c  |   9 +-
 core/filter.c   |   9 +
 core/io.c       |   5 +-
 core/items.c    |  28 ++-
 core/math.c     |   8 +-
 core/order.c    |  17 ++
 core/rayforce.c |  19 +-
 core/vary.c     |  20 +-
 10 files changed, 283 insertions(+), 356 deletions(-)

diff --git a/core/aggr.c b/core/aggr.c
index 95a3a6a..9ee62b3 100644
--- a/core/aggr.c
+++ b/core/aggr.c
@@ -36,6 +36,7 @@
 #include "pool.h"
 #include "order.h"
 #include "join.h"
+#include "compose.h"
 
 i64_t indexr_bin_i32_(i32_t val, i32_t vals[], i64_t offset, i64_t len) {
     i64_t left, right, mid, idx;
@@ -386,6 +387,70 @@ static obj_p aggr_map(raw_p aggr, obj_p val, i8_t outype, obj_p index) {
     }
 }
 
+// The rows of a partition that pass the filter, null if there are none
+static obj_p parted_rows(obj_p val, obj_p filter, i64_t i) {
+    obj_p f, part = AS_LIST(val)[i];
+
+    if (filter == NULL_OBJ || filter->type != TYPE_PARTEDI64)
+        return clone_obj(part);
+
+    f = AS_LIST(filter)[i];
+
+    if (f == NULL_OBJ || (f->type > 0 && f->len == 0))
+        return NULL_OBJ;
+
+    // i64(-1) stands for all of them
+    return (f->type < 0) ? clone_obj(part) : at_ids(part, AS_I64(f), f->len);
+}
+
+// First (or last) value of every partition that has rows, or of all of them together
+static obj_p aggr_parted_edge(obj_p val, obj_p index, b8_t last) {
+    i64_t i, k, l, n;
+    obj_p part, v, res, filter;
+
+    n = index_group_count(index);
+    filter = index_group_filter(index);
+    l = val->len;
+
+    switch (val->type) {
+        case TYPE_PARTEDLIST:
+            res = LIST(0);
+            break;
+        case TYPE_PARTEDENUM:
+            res = SYMBOL(0);
+            break;
+        default:
+            res = vector(val->type - TYPE_PARTEDLIST, 0);
+            break;
+    }
+
+    for (k = 0; k < l; k++) {
+        i = (last && n == 1) ? l - k - 1 : k;
+        part = parted_rows(val, filter, i);
+        if (part == NULL_OBJ)
+            continue;
+
+        if (IS_ERR(part)) {
+            drop_obj(res);
+            return part;
+        }
+
+        if (n == 1 && ops_count(part) == 0) {
+            drop_obj(part);
+            continue;
+        }
+
+        v = at_idx(part, last ? -1 : 0);
+        drop_obj(part);
+        push_obj(&res, v);
+
+        if (n == 1)
+            break;
+    }
+
+    return res;
+}
+
 nil_t destroy_partial_result(obj_p res) {
     res->len = 0;
     drop_obj(res);
@@ -494,6 +559,14 @@ obj_p aggr_first(obj_p val, obj_p index) {
     i64_t *xo, *xe, *first_ids, *filter_ids;
     obj_p parts, res, ek, filter, sym;
 
+    // Symbols of an enumeration
+    if (val->type == TYPE_ENUM) {
+        obj_p syms = ray_value(val);
+        res = IS_ERR(syms) ? clone_obj(syms) : aggr_first(syms, index);
+        drop_obj(syms);
+        return res;
+    }
+
     n = index_group_count(index);
 
     // Fast path: if first indices are precomputed, use them directly
@@ -563,38 +636,6 @@ obj_p aggr_first(obj_p val, obj_p index) {
                 res->type = val->type;
                 return res;
             }
-            case TYPE_ENUM: {
-                i64_t *in = AS_I64(val);
-                res = I64(n);
-                i64_t *out = AS_I64(res);
-                if (filter_ids) {
-                    for (i = 0; i < n; i++)
-                        out[i] = in[filter_ids[first_ids[i]]];
-                } else {
-                    for (i = 0; i < n; i++)
-                        out[i] = in[first_ids[i]];
-                }
-                // Convert enum indices to symbol values
-                ek = ray_key(val);
-                sym = ray_get(ek);
-                drop_obj(ek);
-                if (IS_ERR(sym)) {
-                    drop_obj(res);
-                    return sym;
-                }
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {
-                    drop_obj(sym);
-                    drop_obj(res);
-                    return err_type(0, 0, 0, 0);
-                }
-                xe = AS_SYMBOL(sym);
-                xo = AS_SYMBOL(res);
-                for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
-                drop_obj(sym);
-                res->type = TYPE_SYMBOL;
-                return res;
-            }
             case TYPE_F64: {
                 f64_t *in = AS_F64(val);
                 res = F64(n);
@@ -671,39 +712,12 @@ obj_p aggr_first(obj_p val, obj_p index) {
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
-        case TYPE_ENUM:
             parts = aggr_map((raw_p)aggr_first_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
             res = AGGR_COLLECT(parts, n, i64, i64, if ($out[$y] == NULL_I64) $out[$y] = $in[$x]);
             res->type = val->type;
             drop_obj(parts);
-
-            if (val->type == TYPE_ENUM) {
-                ek = ray_key(val);
-                sym = ray_get(ek);
-                drop_obj(ek);
-
-                if (IS_ERR(sym)) {
-                    drop_obj(res);
-                    return sym;
-                }
-
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {
-                    drop_obj(sym);
-                    drop_obj(res);
-                    return err_type(0, 0, 0, 0);
-                }
-
-                xe = AS_SYMBOL(sym);
-                xo = AS_SYMBOL(res);
-                for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
-
-                drop_obj(sym);
-                res->type = TYPE_SYMBOL;
-            }
-
             return res;
         case TYPE_F64:
             parts = aggr_map((raw_p)aggr_first_partial, val, val->type, index);
@@ -734,94 +748,12 @@ obj_p aggr_first(obj_p val, obj_p index) {
         //     drop_obj(parts);
         //     return res;
         case TYPE_PARTEDLIST:
-            filter = index_group_filter(index);
-            res = LIST(n);
-            if (filter == NULL_OBJ) {
-                // No filter - iterate over all partitions
-                for (i = 0; i < n; i++)
-                    AS_LIST(res)[i] = at_idx(AS_LIST(val)[i], 0);
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    obj_p fentry = AS_LIST(filter)[i];
-                    // Check for non-null AND non-empty filter entry
-                    if (fentry != NULL_OBJ) {
-                        if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            AS_LIST(res)[j++] = at_idx(AS_LIST(val)[i], 0);
-                        }
-                    }
-                }
-                res->len = j;
-            }
-            return res;
         case TYPE_PARTEDB8:
         case TYPE_PARTEDU8:
-            filter = index_group_filter(index);
-            if (n == 1) {
-                // Global first - return first element of first matching partition
-                res = vector(AS_LIST(val)[0]->type, 1);
-                l = val->len;
-                for (i = 0; i < l; i++) {
-                    obj_p fentry = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
-                    if (filter == NULL_OBJ ||
-                        (fentry != NULL_OBJ && ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0))) {
-                        AS_B8(res)[0] = AS_B8(AS_LIST(val)[i])[0];
-                        break;
-                    }
-                }
-                return res;
-            }
-            res = vector(AS_LIST(val)[0]->type, n);
-            if (filter == NULL_OBJ) {
-                // No filter - iterate over all partitions
-                for (i = 0; i < n; i++)
-                    AS_B8(res)[i] = AS_B8(AS_LIST(val)[i])[0];
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    obj_p fentry = AS_LIST(filter)[i];
-                    if (fentry != NULL_OBJ) {
-                        if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            AS_B8(res)[j++] = AS_B8(AS_LIST(val)[i])[0];
-                        }
-                    }
-                }
-            }
-            return res;
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
-            filter = index_group_filter(index);
-            if (n == 1) {
-                // Global first - return first element of first matching partition
-                res = vector(AS_LIST(val)[0]->type, 1);
-                l = val->len;
-                for (i = 0; i < l; i++) {
-                    if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        AS_I64(res)[0] = AS_I64(AS_LIST(val)[i])[0];
-                        break;
-                    }
-                }
-                return res;
-            }
-            res = vector(AS_LIST(val)[0]->type, n);
-            if (filter == NULL_OBJ) {
-                // No filter - one result per partition
-                l = val->len;
-                for (i = 0; i < l; i++)
-                    AS_I64(res)[i] = AS_I64(AS_LIST(val)[i])[0];
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    if (AS_LIST(filter)[i] != NULL_OBJ)
-                        AS_I64(res)[j++] = AS_I64(AS_LIST(val)[i])[0];
-                }
-                resize_obj(&res, j);
-            }
-
-            return res;
+        case TYPE_PARTEDENUM:
+            return aggr_parted_edge(val, index, B8_FALSE);
         case TYPE_PARTEDF64:
             return PARTED_MAP(n, val, index, (raw_p)aggr_first_partial, f64, f64,
                               if (ISNANF64($out[$y])) $out[$y] = $in[$x]);
@@ -837,71 +769,18 @@ obj_p aggr_first(obj_p val, obj_p index) {
         case TYPE_PARTEDI16:
             return PARTED_MAP(n, val, index, (raw_p)aggr_first_partial, i16, i16,
                               if ($out[$y] == NULL_I16) $out[$y] = $in[$x]);
-        case TYPE_PARTEDENUM:
-            filter = index_group_filter(index);
-            // Get the enum key from the first partition
-            ek = ray_key(AS_LIST(val)[0]);
-            if (IS_ERR(ek))
-                return ek;
-
-            if (n == 1) {
-                // Global first - return first element of first matching partition
-                parts = I64(1);
-                l = val->len;
-                for (i = 0; i < l; i++) {
-                    if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        AS_I64(parts)[0] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[0];
-                        break;
-                    }
-                }
-                res = enumerate(ek, parts);
-                return res;
-            }
-
-            // Create the values vector with size n (number of groups/matching partitions)
-            parts = I64(n);
-
-            if (filter == NULL_OBJ) {
-                // No filter - iterate over all partitions
-                l = val->len;
-                for (i = 0; i < l; i++)
-                    AS_I64(parts)[i] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[0];
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    if (AS_LIST(filter)[i] != NULL_OBJ)
-                        AS_I64(parts)[j++] = AS_I64(ENUM_VAL(AS_LIST(val)[i]))[0];
-                }
-                resize_obj(&parts, j);
-            }
-
-            res = enumerate(ek, parts);
-            return res;
         case TYPE_MAPCOMMON:
             filter = index_group_filter(index);
             if (filter == NULL_OBJ)
                 return clone_obj(AS_LIST(val)[0]);
 
-            if (n == 1) {
-                // Global first - return first matching value
-                res = vector(AS_LIST(val)[0]->type, 1);
-                l = filter->len;
-                for (i = 0; i < l; i++) {
-                    if (AS_LIST(filter)[i] != NULL_OBJ) {
-                        AS_DATE(res)[0] = AS_DATE(AS_LIST(val)[0])[i];
-                        break;
-                    }
-                }
-                return res;
-            }
-
-            res = vector(AS_LIST(val)[0]->type, n);
+            res = vector(AS_LIST(val)[0]->type, 0);
             l = filter->len;
 
-            for (i = 0, j = 0; i < l; i++) {
-                if (AS_LIST(filter)[i] != NULL_OBJ)
-                    AS_DATE(res)[j++] = AS_DATE(AS_LIST(val)[0])[i];
+            for (i = 0; i < l; i++) {
+                parts = AS_LIST(filter)[i];
+                if (parts != NULL_OBJ && (parts->type < 0 || parts->len > 0))
+                    push_obj(&res, at_idx(AS_LIST(val)[0], i));
             }
 
             return res;
@@ -961,6 +840,14 @@ obj_p aggr_last(obj_p val, obj_p index) {
     i64_t *xo, *xe;
     obj_p parts, res, ek, sym, filter;
 
+    // Symbols of an enumeration
+    if (val->type == TYPE_ENUM) {
+        obj_p syms = ray_value(val);
+        res = IS_ERR(syms) ? clone_obj(syms) : aggr_last(syms, index);
+        drop_obj(syms);
+        return res;
+    }
+
     n = index_group_count(index);
 
     if (aggr_has_rows(val, index)) {
@@ -996,36 +883,12 @@ obj_p aggr_last(obj_p val, obj_p index) {
         case TYPE_I64:
         case TYPE_SYMBOL:
         case TYPE_TIMESTAMP:
-        case TYPE_ENUM:
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
             if (IS_ERR(parts))
                 return parts;
             res = AGGR_COLLECT(parts, n, i64, i64, if ($in[$x] != NULL_I64) $out[$y] = $in[$x]);
+            res->type = val->type;
             drop_obj(parts);
-            if (val->type == TYPE_ENUM) {
-                ek = ray_key(val);
-                sym = ray_get(ek);
-                drop_obj(ek);
-
-                if (IS_ERR(sym)) {
-                    drop_obj(res);
-                    return sym;
-                }
-
-                if (is_null(sym) || sym->type != TYPE_SYMBOL) {
-                    drop_obj(sym);
-                    drop_obj(res);
-                    return err_type(0, 0, 0, 0);
-                }
-
-                xe = AS_SYMBOL(sym);
-                xo = AS_I64(res);
-                for (i = 0; i < n; i++)
-                    xo[i] = xe[xo[i]];
-
-                drop_obj(sym);
-            }
-
             return res;
         case TYPE_F64:
             parts = aggr_map((raw_p)aggr_last_partial, val, val->type, index);
@@ -1051,79 +914,10 @@ obj_p aggr_last(obj_p val, obj_p index) {
             drop_obj(parts);
             return res;
         case TYPE_PARTEDLIST:
-            filter = index_group_filter(index);
-            if (n == 1) {
-                // Global last - return last element of last matching partition
-                res = LIST(1);
-                l = val->len;
-                for (i = l - 1; i >= 0; i--) {
-                    obj_p fentry = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
-                    if (filter == NULL_OBJ ||
-                        (fentry != NULL_OBJ && ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0))) {
-                        AS_LIST(res)[0] = at_idx(AS_LIST(val)[i], -1);
-                        break;
-                    }
-                }
-                return res;
-            }
-            res = LIST(n);
-            if (filter == NULL_OBJ) {
-                // No filter - iterate over all partitions
-                for (i = 0; i < n; i++)
-                    AS_LIST(res)[i] = at_idx(AS_LIST(val)[i], -1);
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    obj_p fentry = AS_LIST(filter)[i];
-                    if (fentry != NULL_OBJ) {
-                        if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            AS_LIST(res)[j++] = at_idx(AS_LIST(val)[i], -1);
-                        }
-                    }
-                }
-                res->len = j;
-            }
-            return res;
         case TYPE_PARTEDB8:
         case TYPE_PARTEDU8:
-            filter = index_group_filter(index);
-            if (n == 1) {
-                // Global last - return last element of last matching partition
-                res = vector(AS_LIST(val)[0]->type, 1);
-                l = val->len;
-                for (i = l - 1; i >= 0; i--) {
-                    obj_p fentry = (filter == NULL_OBJ) ? NULL_OBJ : AS_LIST(filter)[i];
-                    if (filter == NULL_OBJ ||
-                        (fentry != NULL_OBJ && ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0))) {
-                        i64_t pl = AS_LIST(val)[i]->len;
-                        AS_B8(res)[0] = AS_B8(AS_LIST(val)[i])[pl - 1];
-                        break;
-                    }
-                }
-                return res;
-            }
-            res = vector(AS_LIST(val)[0]->type, n);
-            if (filter == NULL_OBJ) {
-                // No filter - iterate over all partitions
-                for (i = 0; i < n; i++) {
-                    l = AS_LIST(val)[i]->len;
-                    AS_B8(res)[i] = AS_B8(AS_LIST(val)[i])[l - 1];
-                }
-            } else {
-                // With filter - iterate all partitions, only take matching ones
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    obj_p fentry = AS_LIST(filter)[i];
-                    if (fentry != NULL_OBJ) {
-                        if ((fentry->type == -TYPE_I64 && fentry->i64 == -1) || fentry->len > 0) {
-                            i64_t pl = AS_LIST(val)[i]->len;
-                            AS_B8(res)[j++] = AS_B8(AS_LIST(val)[i])[pl - 1];
-                        }
-                    }
-                }
-            }
-            return res;
+        case TYPE_PARTEDENUM:
+            return aggr_parted_edge(val, index, B8_TRUE);
         case TYPE_PARTEDI64:
         case TYPE_PARTEDTIMESTAMP:
             return PARTED_MAP(n, val, index, (raw_p)aggr_last_partial, i64, i64,
@@ -1487,6 +1281,14 @@ obj_p aggr_count(obj_p val, obj_p index) {
     i64_t i, j, n, l;
     obj_p parts, res, filter;
 
+    // Symbols of an enumeration
+    if (val->type == TYPE_ENUM) {
+        obj_p syms = ray_value(val);
+        res = IS_ERR(syms) ? clone_obj(syms) : aggr_count(syms, index);
+        drop_obj(syms);
+        return res;
+    }
+
     n = index_group_count(index);
 
     switch (val->type) {
@@ -2174,7 +1976,7 @@ obj_p aggr_avg(obj_p val, obj_p index) {
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDTIMESTAMP: {
-            obj_p filter, pparts, ppart;
+            obj_p filter, rows, plain, pparts, ppart;
             f64_t total_sum;
             i64_t total_cnt;
 
@@ -2183,17 +1985,24 @@ obj_p aggr_avg(obj_p val, obj_p index) {
             res = F64(n);
             fo = AS_F64(res);
 
+            // The filter is applied here
+            plain = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ, NULL_OBJ,
+                            NULL_OBJ);
+
             if (n == 1) {
                 // Global aggregation (single result) - accumulate across all matching partitions
                 total_sum = 0.0;
                 total_cnt = 0;
                 for (i = 0; i < l; i++) {
                     // Skip partitions that don't match the filter
-                    if (filter != NULL_OBJ && AS_LIST(filter)[i] == NULL_OBJ)
+                    rows = parted_rows(val, filter, i);
+                    if (rows == NULL_OBJ)
                         continue;
 
-                    pparts = aggr_map_avg(AS_LIST(val)[i], index);
+                    pparts = IS_ERR(rows) ? clone_obj(rows) : aggr_map_avg(rows, plain);
+                    drop_obj(rows);
                     if (IS_ERR(pparts)) {
+                        drop_obj(plain);
                         drop_obj(res);
                         return pparts;
                     }
@@ -2208,9 +2017,12 @@ obj_p aggr_avg(obj_p val, obj_p index) {
             } else {
                 // Multiple groups - one result per matching partition
                 for (i = 0, j = 0; i < l; i++) {
-                    if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        pparts = aggr_map_avg(AS_LIST(val)[i], index);
+                    rows = parted_rows(val, filter, i);
+                    if (rows != NULL_OBJ) {
+                        pparts = IS_ERR(rows) ? clone_obj(rows) : aggr_map_avg(rows, plain);
+                        drop_obj(rows);
                         if (IS_ERR(pparts)) {
+                            drop_obj(plain);
                             drop_obj(res);
                             return pparts;
                         }
@@ -2229,6 +2041,7 @@ obj_p aggr_avg(obj_p val, obj_p index) {
                     }
                 }
             }
+            drop_obj(plain);
             return res;
         }
 
@@ -3047,7 +2860,7 @@ obj_p aggr_dev(obj_p val, obj_p index) {
         case TYPE_PARTEDDATE:
         case TYPE_PARTEDTIME:
         case TYPE_PARTEDTIMESTAMP: {
-            obj_p filter, pparts, ppart;
+            obj_p filter, rows, plain, pparts, ppart;
             f64_t total_sum, total_sumsq;
             i64_t total_cnt;
 
@@ -3056,6 +2869,10 @@ obj_p aggr_dev(obj_p val, obj_p index) {
             res = F64(n);
             fo = AS_F64(res);
 
+            // The filter is applied here
+            plain = vn_list(7, i64(INDEX_TYPE_PARTEDCOMMON), i64(1), NULL_OBJ, i64(NULL_I64), NULL_OBJ, NULL_OBJ,
+                            NULL_OBJ);
+
             if (n == 1) {
                 // Global aggregation (single result) - accumulate across all matching partitions
                 total_sum = 0.0;
@@ -3063,11 +2880,14 @@ obj_p aggr_dev(obj_p val, obj_p index) {
                 total_cnt = 0;
                 for (i = 0; i < l; i++) {
                     // Skip partitions that don't match the filter
-                    if (filter != NULL_OBJ && AS_LIST(filter)[i] == NULL_OBJ)
+                    rows = parted_rows(val, filter, i);
+                    if (rows == NULL_OBJ)
                         continue;
 
-                    pparts = aggr_map_dev(AS_LIST(val)[i], index);
+                    pparts = IS_ERR(rows) ? clone_obj(rows) : aggr_map_dev(rows, plain);
+                    drop_obj(rows);
                     if (IS_ERR(pparts)) {
+                        drop_obj(plain);
                         drop_obj(res);
                         return pparts;
                     }
@@ -3091,9 +2911,12 @@ obj_p aggr_dev(obj_p val, obj_p index) {
             } else {
                 // Multiple groups - one result per matching partition
                 for (i = 0, j = 0; i < l; i++) {
-                    if (filter == NULL_OBJ || AS_LIST(filter)[i] != NULL_OBJ) {
-                        pparts = aggr_map_dev(AS_LIST(val)[i], index);
+                    rows = parted_rows(val, filter, i);
+                    if (rows != NULL_OBJ) {
+                        pparts = IS_ERR(rows) ? clone_obj(rows) : aggr_map_dev(rows, plain);
+                        drop_obj(rows);
                         if (IS_ERR(pparts)) {
+                            drop_obj(plain);
                             drop_obj(res);
                             return pparts;
                         }
@@ -3122,6 +2945,7 @@ obj_p aggr_dev(obj_p val, obj_p index) {
                     }
                 }
             }
+            drop_obj(plain);
             return res;
         }
 
@@ -3131,9 +2955,17 @@ obj_p aggr_dev(obj_p val, obj_p index) {
 }
 
 obj_p aggr_collect(obj_p val, obj_p index) {
-    i64_t i, j, l, n;
+    i64_t i, l, n;
     obj_p k, v, res, filter;
 
+    // Symbols of an enumeration
+    if (val->type == TYPE_ENUM) {
+        obj_p syms = ray_value(val);
+        res = IS_ERR(syms) ? clone_obj(syms) : aggr_collect(syms, index);
+        drop_obj(syms);
+        return res;
+    }
+
     l = index_group_len(index);
     n = index_group_count(index);
 
@@ -3165,26 +2997,6 @@ obj_p aggr_collect(obj_p val, obj_p index) {
         case TYPE_F64:
             AGGR_ITER(index, l, 0, val, res, f64, list, , push_raw($out + $y, $in + $x), );
             return res;
-        case TYPE_ENUM:
-            k = ray_key(val);
-            if (IS_ERR(k))
-                return k;
-
-            v = ray_get(k);
-            drop_obj(k);
-
-            if (IS_ERR(v))
-                return v;
-
-            if (v->type != TYPE_SYMBOL) {
-                drop_obj(v);
-                drop_obj(res);
-                return err_type(0, 0, 0, 0);
-            }
-
-            AGGR_ITER(index, l, 0, val, res, i64, list, , push_raw($out + $y, AS_SYMBOL(v) + $in[$x]), );
-            drop_obj(v);
-            return res;
         case TYPE_GUID:
             AGGR_ITER(index, l, 0, val, res, guid, list, , push_raw($out + $y, $in + $x), );
             return res;
@@ -3207,20 +3019,32 @@ obj_p aggr_collect(obj_p val, obj_p index) {
             // Collect all values from matching partitions
             drop_obj(res);
             filter = index_group_filter(index);
-            res = LIST(n);
-            if (filter == NULL_OBJ) {
-                // No filter - each partition is a group
-                for (i = 0; i < (i64_t)val->len; i++)
-                    AS_LIST(res)[i] = ray_value(AS_LIST(val)[i]);
-            } else {
-                // With filter - only include matching partitions
-                l = filter->len;
-                for (i = 0, j = 0; i < l; i++) {
-                    if (AS_LIST(filter)[i] != NULL_OBJ)
-                        AS_LIST(res)[j++] = ray_value(AS_LIST(val)[i]);
+            res = LIST(0);
+            for (i = 0; i < (i64_t)val->len; i++) {
+                v = parted_rows(val, filter, i);
+                if (v == NULL_OBJ)
+                    continue;
+
+                k = IS_ERR(v) ? clone_obj(v) : ray_value(v);
+                drop_obj(v);
+                if (IS_ERR(k)) {
+                    drop_obj(res);
+                    return k;
                 }
-                res->len = j;
+
+                push_obj(&res, k);
             }
+
+            // One group takes them all
+            if (n == 1) {
+                v = ray_raze(res);
+                drop_obj(res);
+                if (IS_ERR(v))
+                    return v;
+                res = LIST(1);
+                AS_LIST(res)[0] = v;
+            }
+
             return res;
         default:
             drop_obj(res);
diff --git a/core/cmp.c b/core/cmp.c
index 7398f3c..7337565 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -656,11 +656,17 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
     // Handle parted types (TYPE_PARTEDLIST and derived)
     if (x->type >= TYPE_PARTEDLIST && x->type < TYPE_TABLE) {
         l = x->len;
+        b8_t both = y->type >= TYPE_PARTEDLIST && y->type < TYPE_TABLE;
+
+        // A partition is compared with an atom, a string or the same partition of another column
+        if (both ? (y->len != l) : (IS_VECTOR(y) && y->type != TYPE_C8))
+            return err_length(l, y->len, 0, 0, 0, 0);
+
         map = LIST(l);
         map->type = TYPE_PARTEDB8;
 
         for (i = 0; i < l; i++) {
-            v = cmp_map(op, AS_LIST(x)[i], y);
+            v = cmp_map(op, AS_LIST(x)[i], both ? AS_LIST(y)[i] : y);
             if (IS_ERR(v)) {
                 map->len = i;
                 drop_obj(map);
@@ -672,6 +678,10 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
         return map;
     } else if (y->type >= TYPE_PARTEDLIST && y->type < TYPE_TABLE) {
         l = y->len;
+
+        if (IS_VECTOR(x) && x->type != TYPE_C8)
+            return err_length(x->len, l, 0, 0, 0, 0);
+
         map = LIST(l);
         map->type = TYPE_PARTEDB8;
 
@@ -688,6 +698,14 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
         return map;
     }
 
+    // Enumerations may have different domains
+    if (x->type == TYPE_ENUM && y->type == TYPE_ENUM) {
+        v = ray_value(x);
+        res = IS_ERR(v) ? clone_obj(v) : cmp_map(op, v, y);
+        drop_obj(v);
+        return res;
+    }
+
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_C8, TYPE_C8):
         case MTYPE2(TYPE_C8, -TYPE_C8):
diff --git a/core/compose.c b/core/compose.c
index b7edd1c..423aa58 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -427,6 +427,7 @@ obj_p ray_enlist(obj_p *x, i64_t n) {
 }
 
 obj_p ray_enum(obj_p x, obj_p y) {
+    i64_t i;
     obj_p s, v;
 
     switch (MTYPE2(x->type, y->type)) {
@@ -441,7 +442,13 @@ obj_p ray_enum(obj_p x, obj_p y) {
                 return err_type(TYPE_SYMBOL, s ? s->type : 0, 0, 0);
             }
 
-            v = index_find_i64(AS_I64(s), s->len, AS_I64(y), y->len);
+            // nothing is found in an empty domain
+            if (s->len == 0) {
+                v = I64(y->len);
+                for (i = 0; i < y->len; i++)
+                    AS_I64(v)[i] = NULL_I64;
+            } else
+                v = index_find_i64(AS_I64(s), s->len, AS_I64(y), y->len);
             drop_obj(s);
 
             if (IS_ERR(v)) {
diff --git a/core/filter.c b/core/filter.c
index 5c88df3..47bf866 100644
--- a/core/filter.c
+++ b/core/filter.c
@@ -156,6 +156,15 @@ obj_p filter_collect(obj_p val, obj_p index) {
         }
 
         parts->len = n;
+
+        // Nothing matches: an empty column
+        if (n == 0) {
+            drop_obj(parts);
+            if (val->type == TYPE_PARTEDLIST)
+                return LIST(0);
+            return vector((val->type == TYPE_PARTEDENUM) ? TYPE_SYMBOL : val->type - TYPE_PARTEDLIST, 0);
+        }
+
         res = ray_raze(parts);
         drop_obj(parts);
         return res;
diff --git a/core/io.c b/core/io.c
index 5b8ed61..7a9a7da 100644
--- a/core/io.c
+++ b/core/io.c
@@ -1183,6 +1183,9 @@ obj_p distinct_syms(obj_p *x, i64_t n) {
     for (i = 0, h = 0; i < n; i++) {
         a = *(x + i);
         for (j = 0; j < l; j++) {
+            // the null symbol has no place in a symfile
+            if (AS_SYMBOL(a)[j] == NULL_I64)
+                continue;
             p = ht_oa_tab_next(&set, AS_SYMBOL(a)[j]);
             if (AS_SYMBOL(AS_LIST(set)[0])[p] == NULL_I64) {
                 AS_SYMBOL(AS_LIST(set)[0])[p] = AS_SYMBOL(a)[j];
@@ -1300,7 +1303,7 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
 
     sym = distinct_syms(AS_LIST(cols), cols->len);
 
-    if (sym->len > 0) {
+    if (cols->len > 0) {
         switch (symfile->type) {
             case TYPE_NULL:
                 s = cstring_from_str("sym", 3);
diff --git a/core/items.c b/core/items.c
index 78fbb1b..8b57ca6 100644
--- a/core/items.c
+++ b/core/items.c
@@ -880,6 +880,32 @@ obj_p ray_in(obj_p x, obj_p y) {
                 return res;
             }
 
+            if (x->type == TYPE_ENUM) {
+                obj_p v = ray_value(x);
+                vec = IS_ERR(v) ? clone_obj(v) : ray_in(v, y);
+                drop_obj(v);
+                return vec;
+            }
+
+            // Parted columns: every partition on its own
+            if (x->type > TYPE_PARTEDLIST && x->type < TYPE_TABLE) {
+                obj_p res = LIST(x->len);
+                res->type = TYPE_PARTEDB8;
+                for (i = 0; i < x->len; i++) {
+                    vec = ray_in(AS_LIST(x)[i], y);
+                    if (vec->type != TYPE_B8) {
+                        res->len = i;
+                        drop_obj(res);
+                        if (IS_ERR(vec))
+                            return vec;
+                        drop_obj(vec);
+                        return err_type(TYPE_B8, x->type, 0, 0);
+                    }
+                    AS_LIST(res)[i] = vec;
+                }
+                return res;
+            }
+
             if (x->type == TYPE_LIST) {
                 vec = LIST(x->len);
                 for (i = 0; i < (i64_t)x->len; i++)
@@ -1224,7 +1250,7 @@ obj_p ray_value(obj_p x) {
             res = SYMBOL(xl);
 
             for (i = 0; i < xl; i++) {
-                if (AS_I64(e)[i] < sl)
+                if (AS_I64(e)[i] >= 0 && AS_I64(e)[i] < sl)
                     AS_SYMBOL(res)[i] = AS_SYMBOL(sym)[AS_I64(e)[i]];
                 else
                     AS_SYMBOL(res)[i] = NULL_I64;
diff --git a/core/math.c b/core/math.c
index f433ef7..795b2e1 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2410,6 +2410,10 @@ obj_p ray_cnt(obj_p x) {
         return ray_cnt_partial(x, 1, 0);
     }
 
+    // mapped and parted ones have no elements of their own
+    if (x->type <= TYPE_LIST || x->type > TYPE_C8)
+        return ray_cnt_partial(x, ops_count(x), 0);
+
     l = ops_count(x);
     pool = runtime_get()->pool;
     n = pool_split_by(pool, l, 0);
@@ -2546,7 +2550,7 @@ obj_p ray_avg(obj_p x) {
 // TODO: Refactoring with out sort and with parallel execution
 obj_p ray_med(obj_p x) {
     obj_p cnt_obj = ray_cnt(x);
-    i64_t l = IS_ERR(cnt_obj) ? NULL_I64 : cnt_obj->i64;  // not countable: parted, mapped or a type error below
+    i64_t l = (cnt_obj->type == -TYPE_I64) ? cnt_obj->i64 : NULL_I64;  // not countable: parted, mapped or a type error below
     drop_obj(cnt_obj);
     if (l == 0)
         return f64(NULL_F64);
@@ -2647,7 +2651,7 @@ obj_p ray_med(obj_p x) {
 
 obj_p ray_dev(obj_p x) {
     obj_p cnt_obj = ray_cnt(x);
-    i64_t l = IS_ERR(cnt_obj) ? NULL_I64 : cnt_obj->i64;  // not countable: parted, mapped or a type error below
+    i64_t l = (cnt_obj->type == -TYPE_I64) ? cnt_obj->i64 : NULL_I64;  // not countable: parted, mapped or a type error below
     drop_obj(cnt_obj);
 
     if (l == 0)
diff --git a/core/order.c b/core/order.c
index 7d499ab..0d1cf16 100644
--- a/core/order.c
+++ b/core/order.c
@@ -435,6 +435,23 @@ obj_p ray_not(obj_p x) {
 
             return res;
 
+        case TYPE_PARTEDB8:
+            // Each partition is a vector, true for all of its rows, or null for none of them
+            l = x->len;
+            res = LIST(l);
+            res->type = TYPE_PARTEDB8;
+            for (i = 0; i < l; i++) {
+                obj_p e = AS_LIST(x)[i];
+                if (e == NULL_OBJ)
+                    AS_LIST(res)[i] = b8(B8_TRUE);
+                else if (e->type < 0)
+                    AS_LIST(res)[i] = e->b8 ? NULL_OBJ : b8(B8_TRUE);
+                else
+                    AS_LIST(res)[i] = ray_not(e);
+            }
+
+            return res;
+
         default:
             return err_type(0, 0, 0, 0);
     }
diff --git a/core/rayforce.c b/core/rayforce.c
index f243dac..df929b4 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -791,6 +791,13 @@ obj_p at_idx(obj_p obj, i64_t idx) {
     if (idx == NULL_I64)
         return null(obj->type);
 
+    // from the end of a parted column
+    if (idx < 0 && obj->type >= TYPE_PARTEDLIST && obj->type < TYPE_TABLE) {
+        idx += ops_count(obj);
+        if (idx < 0)
+            idx = ops_count(obj);
+    }
+
     switch (obj->type) {
         case TYPE_B8:
             if (idx < 0)
@@ -955,10 +962,11 @@ obj_p at_idx(obj_p obj, i64_t idx) {
                 m = AS_LIST(obj)[i]->len;
                 n += m;
                 if (idx < n)
-                    return b8(AS_U8(AS_LIST(obj)[i])[m - (n - idx)]);
+                    return (obj->type == TYPE_PARTEDU8) ? u8(AS_U8(AS_LIST(obj)[i])[m - (n - idx)])
+                                                        : b8(AS_B8(AS_LIST(obj)[i])[m - (n - idx)]);
             }
 
-            return b8(B8_FALSE);
+            return (obj->type == TYPE_PARTEDU8) ? u8(0) : b8(B8_FALSE);
 
         case TYPE_PARTEDI16:
             l = obj->len;
@@ -1212,8 +1220,11 @@ obj_p at_ids(obj_p obj, i64_t ids[], i64_t len) {
             }
 
             res = SYMBOL(len);
-            for (i = 0; i < len; i++)
-                AS_I64(res)[i] = AS_I64(v)[AS_I64(ENUM_VAL(obj))[ids[i]]];
+            for (i = 0; i < len; i++) {
+                // nulls have no place in the domain
+                n = (ids[i] >= 0 && ids[i] < ENUM_VAL(obj)->len) ? AS_I64(ENUM_VAL(obj))[ids[i]] : NULL_I64;
+                AS_I64(res)[i] = (n >= 0 && n < v->len) ? AS_I64(v)[n] : NULL_I64;
+            }
 
             drop_obj(v);
 
diff --git a/core/vary.c b/core/vary.c
index 378a7f1..d8af77d 100644
--- a/core/vary.c
+++ b/core/vary.c
@@ -188,7 +188,7 @@ obj_p ray_set_parted(obj_p *x, i64_t n) {
 obj_p ray_get_parted(obj_p *x, i64_t n) {
     i8_t type;
     i64_t i, j, l, wide;
-    obj_p path, dir, sym, dirs, gcol, ord, t1, t2, eq, fmaps, virtcol, v, keys, vals, res;
+    obj_p path, dir, sym, dirs, gcol, ord, t1, t2, fmaps, virtcol, v, keys, vals, res;
 
     switch (n) {
         case 2:
@@ -270,6 +270,18 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
 
             wide = AS_LIST(t1)[1]->len;
 
+            // There are no parted strings
+            for (i = 0; i < wide; i++) {
+                type = AS_LIST(AS_LIST(t1)[1])[i]->type;
+                if (type == TYPE_C8 || type == TYPE_SYMBOL) {
+                    drop_obj(gcol);
+                    drop_obj(res);
+                    drop_obj(t1);
+                    drop_obj(path);
+                    return err_type(TYPE_LIST, type, 0, 0);
+                }
+            }
+
             if (wide == 0) {
                 drop_obj(gcol);
                 drop_obj(res);
@@ -317,9 +329,7 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                 }
 
                 // Partitions must have the same column names
-                eq = ray_eq(AS_LIST(t1)[0], AS_LIST(t2)[0]);
-                if (!eq->b8) {
-                    drop_obj(eq);
+                if (cmp_obj(AS_LIST(t1)[0], AS_LIST(t2)[0]) != 0) {
                     drop_obj(gcol);
                     drop_obj(res);
                     drop_obj(t1);
@@ -329,8 +339,6 @@ obj_p ray_get_parted(obj_p *x, i64_t n) {
                     return err_type(0, 0, 0, 0);
                 }
 
-                drop_obj(eq);
-
                 // Partitions must have the same column types
                 for (j = 0; j < wide; j++) {
                     if (AS_LIST(AS_LIST(t1)[1])[j]->type != AS_LIST(AS_LIST(t2)[1])[j]->type) {
-- 
2.43.0


From a25373bee81a1bcb3cac6dc84ccfce23f604bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 063/102] fix: builtins refuse arguments they cannot work on
 instead of corrupting memory or leaking

---
 core/fs.c       |  2 +-
 core/items.c    | 60 ++++++++++++++++++++++++++++++++++++++++---------
 core/iter.c     |  6 +++++
 core/math.c     |  4 ++++
 core/order.c    | 41 +++++++++++++++++++++------------
 core/query.c    | 38 ++++++++++++++++++++++++++-----
 core/rayforce.c |  6 +++++
 core/sort.c     | 18 +++++++++++----
 core/string.c   |  7 ++++--
 core/update.c   | 13 +++++++++--
 10 files changed, 157 insertions(+), 38 deletions(-)

diff --git a/core/fs.c b/core/fs.c
index 4f2cd34..44669e9 100644
--- a/core/fs.c
+++ b/core/fs.c
@@ -301,7 +301,7 @@ i64_t fs_fopen(lit_p path, i64_t attrs) {
     tmp_path = AS_C8(s);
     p = tmp_path;
 
-    while ((slash = strchr(p + 1, '/')) != NULL) {
+    while (*p != '\0' && (slash = strchr(p + 1, '/')) != NULL) {
         *slash = '\0';
         fs_dcreate(tmp_path);
         *slash = '/';
diff --git a/core/items.c b/core/items.c
index 8b57ca6..23978d6 100644
--- a/core/items.c
+++ b/core/items.c
@@ -305,6 +305,27 @@ obj_p ray_at(obj_p x, obj_p y) {
     }
 }
 
+// Enums may be over different domains: their symbols are compared
+static obj_p find_enum(obj_p x, obj_p y) {
+    obj_p a, b, res;
+
+    a = ray_value(x);
+    if (IS_ERR(a))
+        return a;
+
+    b = ray_value(y);
+    if (IS_ERR(b)) {
+        drop_obj(a);
+        return b;
+    }
+
+    res = ray_find(a, b);
+    drop_obj(a);
+    drop_obj(b);
+
+    return res;
+}
+
 obj_p ray_find(obj_p x, obj_p y) {
     switch (MTYPE2(x->type, y->type)) {
         case MTYPE2(TYPE_B8, -TYPE_B8):
@@ -332,7 +353,7 @@ obj_p ray_find(obj_p x, obj_p y) {
         case MTYPE2(TYPE_TIMESTAMP, TYPE_TIMESTAMP):
             return index_find_i64(AS_I64(x), x->len, AS_I64(y), y->len);
         case MTYPE2(TYPE_ENUM, TYPE_ENUM):
-            return index_find_i64(AS_I64(ENUM_VAL(x)), x->len, AS_I64(ENUM_VAL(y)), y->len);
+            return find_enum(x, y);
         case MTYPE2(TYPE_F64, TYPE_F64):
             return index_find_i64((i64_t *)AS_F64(x), x->len, (i64_t *)AS_F64(y), y->len);
         case MTYPE2(TYPE_GUID, TYPE_GUID):
@@ -433,11 +454,11 @@ obj_p ray_take(obj_p from, obj_p count) {
                 break;
             case -TYPE_I16:
                 f = 0 > count->i16;
-                m = ABSI64((i64_t)count->i16);
+                m = (count->i16 == NULL_I16) ? NULL_I64 : ABSI64((i64_t)count->i16);
                 break;
             case -TYPE_I32:
                 f = 0 > count->i32;
-                m = ABSI64((i64_t)count->i32);
+                m = (count->i32 == NULL_I32) ? NULL_I64 : ABSI64((i64_t)count->i32);
                 break;
             default:
                 return err_type(-TYPE_I64, count->type, 0, 0);
@@ -644,6 +665,15 @@ obj_p ray_take(obj_p from, obj_p count) {
                 m = 0;
             k = AS_LIST(from)[0];
             v = AS_LIST(from)[1];
+
+            // the result has to fit in memory
+            if (!is_range && m > l) {
+                res = I64(m);
+                if (IS_ERR(res))
+                    return res;
+                drop_obj(res);
+            }
+
             obj_p keys_res = vector(k->type == TYPE_ENUM ? TYPE_SYMBOL : k->type, 0);
             obj_p vals_res = vector(v->type == TYPE_ENUM ? TYPE_SYMBOL : v->type, 0);
             if (is_range) {
@@ -908,18 +938,28 @@ obj_p ray_in(obj_p x, obj_p y) {
 
             if (x->type == TYPE_LIST) {
                 vec = LIST(x->len);
-                for (i = 0; i < (i64_t)x->len; i++)
-                    AS_LIST(vec)[i] = ray_in(AS_LIST(x)[i], y);
+                for (i = 0; i < (i64_t)x->len; i++) {
+                    obj_p v = ray_in(AS_LIST(x)[i], y);
+                    if (IS_ERR(v)) {
+                        vec->len = i;
+                        drop_obj(vec);
+                        return v;
+                    }
+                    AS_LIST(vec)[i] = v;
+                }
                 return vec;
             }
 
-            if (IS_VECTOR(x) || !IS_VECTOR(y))
+            if (IS_VECTOR(x) && ops_count(x) > 0)
                 return map_binary_left_fn(ray_in, 0, x, y);
 
-            if (!IS_VECTOR(x))
+            if (IS_VECTOR(x))
+                return B8(0);
+
+            if (IS_VECTOR(y))
                 return b8(find_obj_idx(y, x) != NULL_I64);
 
-            return err_type(TYPE_LIST, x->type, 0, 0);
+            return err_type(TYPE_LIST, y->type, 0, 0);
     }
 
     return NULL_OBJ;
@@ -1077,12 +1117,12 @@ obj_p ray_except(obj_p x, obj_p y) {
                         mask = ray_eq(AS_LIST(x)[i], y);
 
                         if (IS_ERR(mask)) {
-                            res->len = i;
+                            res->len = j;
                             drop_obj(res);
                             return mask;
                         }
 
-                        if (!mask->b8)
+                        if (mask->type != -TYPE_B8 || !mask->b8)
                             AS_LIST(res)[j++] = clone_obj(AS_LIST(x)[i]);
 
                         drop_obj(mask);
diff --git a/core/iter.c b/core/iter.c
index 507ccd9..775d02c 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -983,6 +983,9 @@ obj_p ray_fold(obj_p *x, i64_t n) {
             if (l == NULL_I64)
                 return err_arity(1, n, 0);
 
+            if (l == 0)
+                return NULL_OBJ;
+
             for (i = 0; i < n; i++)
                 vm_stack_push(at_idx(x[i], 0));
 
@@ -1402,6 +1405,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
             if (l == NULL_I64)
                 return err_arity(1, n, 0);
 
+            if (l == 0)
+                return LIST(0);
+
             for (i = 0; i < n; i++)
                 vm_stack_push(at_idx(x[i], 0));
 
diff --git a/core/math.c b/core/math.c
index 795b2e1..7a26f80 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2252,6 +2252,10 @@ obj_p unop_map(raw_p op, obj_p x) {
         case TYPE_TIME:
         case TYPE_TIMESTAMP:
             return clone_obj(x);
+        case TYPE_F64:
+            break;
+        default:
+            return err_type(TYPE_F64, x->type, 0, 0);
     }
 
     l = ops_count(x);
diff --git a/core/order.c b/core/order.c
index 0d1cf16..984e2ad 100644
--- a/core/order.c
+++ b/core/order.c
@@ -269,7 +269,7 @@ obj_p ray_xasc(obj_p x, obj_p y) {
                 return clone_obj(x);
             }
 
-            i64_t nrow = AS_LIST(AS_LIST(x)[1])[0]->len;
+            i64_t nrow = ops_count(x);
             obj_p idx = I64(nrow);
             i64_t* indices = AS_I64(idx);
             for (i64_t i = 0; i < nrow; i++)
@@ -357,7 +357,7 @@ obj_p ray_xdesc(obj_p x, obj_p y) {
                 return clone_obj(x);
             }
 
-            i64_t nrow = AS_LIST(AS_LIST(x)[1])[0]->len;
+            i64_t nrow = ops_count(x);
             obj_p idx = I64(nrow);
             i64_t* indices = AS_I64(idx);
             for (i64_t i = 0; i < nrow; i++)
@@ -536,13 +536,13 @@ obj_p ray_rank(obj_p x) {
     obj_p perm, res;
 
     // Fast path for sorted vectors
-    if (x->attrs & ATTR_ASC) {
+    if (IS_VECTOR(x) && (x->attrs & ATTR_ASC)) {
         obj_p n = i64(x->len);
         res = ray_til(n);
         drop_obj(n);
         return res;
     }
-    if ((x->attrs & ATTR_DESC) && (x->attrs & ATTR_DISTINCT)) {
+    if (IS_VECTOR(x) && (x->attrs & ATTR_DESC) && (x->attrs & ATTR_DISTINCT)) {
         l = x->len;
         res = I64(l);
         if (IS_ERR(res))
@@ -552,11 +552,14 @@ obj_p ray_rank(obj_p x) {
         return res;
     }
 
+    if (!IS_VECTOR(x))
+        return err_type(TYPE_LIST, x->type, 0, 0);
+
     perm = ray_iasc(x);
     if (IS_ERR(perm))
         return perm;
 
-    l = x->len;
+    l = perm->len;
     res = I64(l);
     if (IS_ERR(res)) {
         drop_obj(perm);
@@ -633,27 +636,37 @@ obj_p ray_xrank(obj_p y, obj_p x) {
     if (n_buckets <= 0)
         return err_domain(0, 0);
 
-    l = y->len;
-    res = I64(l);
-    if (IS_ERR(res))
-        return res;
-
     // Fast path for sorted vectors
-    if (y->attrs & ATTR_ASC) {
+    l = y->len;
+    if (IS_VECTOR(y) && (y->attrs & ATTR_ASC)) {
+        res = I64(l);
+        if (IS_ERR(res))
+            return res;
         xrank_asc_ctx_t ctx = {AS_I64(res), n_buckets, l};
         pool_map(l, xrank_asc_worker, &ctx);
         return res;
     }
-    if ((y->attrs & ATTR_DESC) && (y->attrs & ATTR_DISTINCT)) {
+    if (IS_VECTOR(y) && (y->attrs & ATTR_DESC) && (y->attrs & ATTR_DISTINCT)) {
+        res = I64(l);
+        if (IS_ERR(res))
+            return res;
         xrank_asc_ctx_t ctx = {AS_I64(res), n_buckets, l};
         pool_map(l, xrank_desc_worker, &ctx);
         return res;
     }
 
+    if (!IS_VECTOR(y))
+        return err_type(TYPE_LIST, y->type, 0, 0);
+
     perm = ray_iasc(y);
-    if (IS_ERR(perm)) {
-        drop_obj(res);
+    if (IS_ERR(perm))
         return perm;
+
+    l = perm->len;
+    res = I64(l);
+    if (IS_ERR(res)) {
+        drop_obj(perm);
+        return res;
     }
 
     xrank_ctx_t ctx = {AS_I64(perm), AS_I64(res), n_buckets, l};
diff --git a/core/query.c b/core/query.c
index fc72a75..d2dee77 100644
--- a/core/query.c
+++ b/core/query.c
@@ -201,6 +201,23 @@ obj_p get_gkeys(obj_p cols, obj_p obj) {
     }
 }
 
+// Keys to group by have a value for each row of the table
+static obj_p check_gvals(obj_p vals) {
+    i64_t n;
+
+    if (VM->query_ctx == NULL || !(IS_VECTOR(vals) || vals->type == TYPE_MAPLIST))
+        return vals;
+
+    n = ops_count(VM->query_ctx->table);
+    if (ops_count(vals) != n) {
+        n = ops_count(vals);
+        drop_obj(vals);
+        return err_length(ops_count(VM->query_ctx->table), n, 0, 0, 0, 0);
+    }
+
+    return vals;
+}
+
 obj_p get_gvals(obj_p obj) {
     i64_t i, l;
     obj_p vals, v, r, res;
@@ -217,13 +234,13 @@ obj_p get_gvals(obj_p obj) {
                 v = at_idx(vals, 0);
                 res = eval(v);
                 drop_obj(v);
-                return res;
+                return check_gvals(res);
             }
 
             res = LIST(l);
             for (i = 0; i < l; i++) {
                 v = at_idx(vals, i);
-                r = eval(v);
+                r = check_gvals(eval(v));
                 drop_obj(v);
 
                 if (IS_ERR(r)) {
@@ -238,7 +255,7 @@ obj_p get_gvals(obj_p obj) {
 
             return res;
         default:
-            return eval(obj);
+            return check_gvals(eval(obj));
     }
 }
 
@@ -275,8 +292,10 @@ obj_p select_fetch_table(obj_p obj, query_ctx_p ctx) {
 
     prm = at_sym(obj, "from", 4);
 
-    if (is_null(prm))
+    if (is_null(prm)) {
+        drop_obj(prm);
         return err_value(symbols_intern("from", 4));
+    }
 
     val = eval(prm);
     drop_obj(prm);
@@ -295,7 +314,9 @@ obj_p select_fetch_table(obj_p obj, query_ctx_p ctx) {
 
     prm = at_sym(obj, "take", 4);
 
-    if (!is_null(prm)) {
+    if (is_null(prm))
+        drop_obj(prm);
+    else {
         val = eval(prm);
         drop_obj(prm);
 
@@ -324,6 +345,13 @@ obj_p select_apply_filters(obj_p obj, query_ctx_p ctx) {
         if (IS_ERR(val))
             return val;
 
+        // A mask has a value for each row
+        if (IS_VECTOR(val) && ops_count(val) != ops_count(ctx->table)) {
+            fil = err_length(ops_count(ctx->table), ops_count(val), 0, 0, 0, 0);
+            drop_obj(val);
+            return fil;
+        }
+
         fil = ray_where(val);
         timeit_tick("find indices");
         drop_obj(val);
diff --git a/core/rayforce.c b/core/rayforce.c
index df929b4..656f730 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -256,6 +256,8 @@ obj_p timestamp(i64_t val) {
     return t;
 }
 
+#define MAX_VECTOR_LEN (1ll << 48)
+
 obj_p vector(i8_t type, i64_t len) {
     i8_t t;
     i64_t data_size;
@@ -270,6 +272,10 @@ obj_p vector(i8_t type, i64_t len) {
     else
         t = TYPE_LIST;
 
+    // no length of this kind fits in memory
+    if (len < 0 || len > MAX_VECTOR_LEN)
+        return err_limit(len);
+
     data_size = len * size_of_type(t);
     vec = (obj_p)heap_alloc(sizeof(struct obj_t) + data_size);
 
diff --git a/core/sort.c b/core/sort.c
index 47f4548..06972bd 100644
--- a/core/sort.c
+++ b/core/sort.c
@@ -429,7 +429,7 @@ obj_p ray_sort_asc_f64(obj_p vec) {
 
 obj_p ray_sort_asc(obj_p vec) {
     i64_t len = vec->len;
-    obj_p indices;
+    obj_p indices, idx, res;
 
     if (len == 0)
         return I64(0);
@@ -473,7 +473,12 @@ obj_p ray_sort_asc(obj_p vec) {
         case TYPE_LIST:
             return mergesort_generic_obj(vec, 1);
         case TYPE_DICT:
-            return at_obj(AS_LIST(vec)[0], ray_sort_asc(AS_LIST(vec)[1]));
+            idx = ray_sort_asc(AS_LIST(vec)[1]);
+            if (IS_ERR(idx))
+                return idx;
+            res = at_obj(AS_LIST(vec)[0], idx);
+            drop_obj(idx);
+            return res;
         default:
             return err_type(0, 0, 0, 0);
     }
@@ -691,7 +696,7 @@ obj_p ray_sort_desc_f64(obj_p vec) {
 
 obj_p ray_sort_desc(obj_p vec) {
     i64_t len = vec->len;
-    obj_p indices;
+    obj_p indices, idx, res;
 
     if (len == 0)
         return I64(0);
@@ -734,7 +739,12 @@ obj_p ray_sort_desc(obj_p vec) {
         case TYPE_LIST:
             return mergesort_generic_obj(vec, -1);
         case TYPE_DICT:
-            return at_obj(AS_LIST(vec)[0], ray_sort_desc(AS_LIST(vec)[1]));
+            idx = ray_sort_desc(AS_LIST(vec)[1]);
+            if (IS_ERR(idx))
+                return idx;
+            res = at_obj(AS_LIST(vec)[0], idx);
+            drop_obj(idx);
+            return res;
         default:
             return err_type(0, 0, 0, 0);
     }
diff --git a/core/string.c b/core/string.c
index 10212f3..843dd9b 100644
--- a/core/string.c
+++ b/core/string.c
@@ -88,8 +88,11 @@ obj_p string_from_str(lit_p str, i64_t len) {
 obj_p cstring_from_str(lit_p str, i64_t len) {
     obj_p s;
 
-    if (len <= 0)
-        return C8(0);
+    if (len <= 0) {
+        s = C8(1);
+        AS_C8(s)[0] = '\0';
+        return s;
+    }
 
     if (str[len - 1] == '\0') {
         s = C8(len);
diff --git a/core/update.c b/core/update.c
index c949507..6cab09f 100644
--- a/core/update.c
+++ b/core/update.c
@@ -699,7 +699,7 @@ i8_t __column_type(obj_p val, obj_p gids) {
         return type;
     }
 
-    return val->type;
+    return (IS_ATOM(val) || IS_VECTOR(val)) ? val->type : TYPE_LIST;
 }
 
 // Checks if a value can be assigned to l rows of a column
@@ -818,8 +818,10 @@ obj_p ray_update(obj_p obj) {
     // Retrive a table
     tabsym = at_sym(obj, "from", 4);
 
-    if (is_null(tabsym))
+    if (is_null(tabsym)) {
+        drop_obj(tabsym);
         return err_length(0, 0, 0, 0, 0, 0);
+    }
 
     tab = eval(tabsym);
     if (IS_ERR(tab)) {
@@ -866,6 +868,13 @@ obj_p ray_update(obj_p obj) {
             goto cleanup;
         }
 
+        // A mask has a value for each row
+        if (IS_VECTOR(val) && ops_count(val) != ops_count(tab)) {
+            res = err_length(ops_count(tab), ops_count(val), 0, 0, 0, 0);
+            drop_obj(val);
+            goto cleanup;
+        }
+
         filters = ray_where(val);
         drop_obj(val);
         if (IS_ERR(filters)) {
-- 
2.43.0


From f9d6115d731062245c88a16faca7a2808bee22ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:28 +0000
Subject: [PATCH 064/102] fix: printing a long enum, folding a big enum and
 binding the environment to a name no longer end the process

(println e) recursed for an enum of 20 or more values, (max e) on several
cores asked for the element size of an enum, and (set w (env)) put the
environment into itself.
---
 core/env.c    | 3 ++-
 core/format.c | 6 ++++++
 core/math.c   | 4 ++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/env.c b/core/env.c
index 4de496e..1d86426 100644
--- a/core/env.c
+++ b/core/env.c
@@ -91,7 +91,8 @@ i64_t SYMBOL_SYM;
 obj_p ray_env(obj_p *x, i64_t n) {
     UNUSED(x);
     UNUSED(n);
-    return clone_obj(runtime_get()->env.variables);
+    // A snapshot: the live dict binding itself would never end
+    return copy_obj(runtime_get()->env.variables);
 }
 
 obj_p ray_memstat(obj_p *x, i64_t n) {
diff --git a/core/format.c b/core/format.c
index 79baf8e..cd7e4ce 100644
--- a/core/format.c
+++ b/core/format.c
@@ -958,6 +958,12 @@ i64_t enum_fmt_into(obj_p *dst, i64_t indent, i64_t limit, obj_p obj) {
         idx = i64(TABLE_MAX_HEIGHT);
         e = ray_take(obj, idx);
         drop_obj(idx);
+        // Part of an enum is an enum again: its symbols are what is shown
+        if (e->type == TYPE_ENUM) {
+            idx = ray_value(e);
+            drop_obj(e);
+            e = idx;
+        }
     } else
         e = ray_value(obj);
 
diff --git a/core/math.c b/core/math.c
index 7a26f80..714e063 100644
--- a/core/math.c
+++ b/core/math.c
@@ -2200,6 +2200,10 @@ obj_p unop_fold(raw_p op, obj_p x) {
 
     l = ops_count(x);
 
+    // Only plain vectors are split into chunks
+    if (!IS_VECTOR(x) || x->type == TYPE_ENUM)
+        return ((obj_p(*)(obj_p, i64_t, i64_t))op)(x, l, 0);
+
     pool = runtime_get()->pool;
     n = pool_split_by(pool, l, 0);
 
-- 
2.43.0


From 49ab01e044c58d240c48a1a96ff0722859df0b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:59 +0000
Subject: [PATCH 065/102] fix: workers join each run once, nested pmap runs on
 its own thread, lambdas are compiled once, caught errors leave no locations

A worker that woke up late took tasks of the next run before it started,
or from a queue being replaced, and one that was not waiting yet missed
the shutdown. pmap inside pmap corrupted the queues. Workers compiled the
same lambda at the same time and kept the locations of their errors for
ever, as did every try.
---
 core/cc.c   | 25 ++++++++++++++++++++++++-
 core/cc.h   |  3 +++
 core/eval.c | 45 ++++++++++++++++++++++++++++++++-------------
 core/iter.c |  8 ++++----
 core/pool.c | 45 +++++++++++++++++++++++++++++++--------------
 core/pool.h |  3 +++
 6 files changed, 97 insertions(+), 32 deletions(-)

diff --git a/core/cc.c b/core/cc.c
index eca30c7..e35fb08 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -30,6 +30,7 @@
 #include "nfo.h"
 #include "env.h"
 #include "error.h"
+#include "atomic.h"
 
 // Add location info from compiler context when a compile error occurs
 static nil_t cc_error_add_loc(cc_ctx_t *cc) {
@@ -490,9 +491,10 @@ obj_p cc_compile(obj_p lambda) {
     }
 
     // Store compiled bytecode, constants, and debug info in lambda
-    fn->bc = cc.bc;
+    // (the bytecode last: other threads take it as the sign that the lambda is compiled)
     fn->consts = cc.consts;
     fn->dbg = cc.dbg;
+    __atomic_store_n(&fn->bc, cc.bc, __ATOMIC_RELEASE);
 
     // Don't pre-create env dict - let runtime handle it via amend()
     // env_names was just for compile-time offset lookups (args)
@@ -505,6 +507,27 @@ obj_p cc_compile(obj_p lambda) {
     return NULL_OBJ;  // Success
 }
 
+// Compile a lambda unless it is compiled: workers may call the same one at the same time
+obj_p cc_ensure(obj_p lambda) {
+    static i64_t lock = 0;
+    lambda_p fn = AS_LAMBDA(lambda);
+    obj_p res = NULL_OBJ;
+    i64_t rounds = 0;
+
+    if (LIKELY(__atomic_load_n(&fn->bc, __ATOMIC_ACQUIRE) != NULL_OBJ))
+        return NULL_OBJ;
+
+    while (__atomic_exchange_n(&lock, 1, __ATOMIC_ACQUIRE))
+        backoff_spin(&rounds);
+
+    if (fn->bc == NULL_OBJ)
+        res = cc_compile(lambda);
+
+    __atomic_store_n(&lock, 0, __ATOMIC_RELEASE);
+
+    return res;
+}
+
 // Dump bytecode for debugging
 nil_t cc_dump(obj_p lambda) {
     lambda_p fn = AS_LAMBDA(lambda);
diff --git a/core/cc.h b/core/cc.h
index 8398150..dea90a9 100644
--- a/core/cc.h
+++ b/core/cc.h
@@ -58,6 +58,9 @@ span_t bc_dbg_get(obj_p dbg, i64_t ip);
 // Takes a lambda object with args and body, fills in bc and consts
 obj_p cc_compile(obj_p lambda);
 
+// The same, unless the lambda is compiled already; safe to call from several threads
+obj_p cc_ensure(obj_p lambda);
+
 // Dump bytecode for debugging
 nil_t cc_dump(obj_p lambda);
 
diff --git a/core/eval.c b/core/eval.c
index a435956..bc37241 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -208,6 +208,23 @@ obj_p amend(obj_p sym, obj_p val) {
 // Error Handling
 // ============================================================================
 
+// Forget the locations of an error beyond the first n
+static nil_t error_trace_clear(i64_t n) {
+    vm_p vm = VM;
+
+    if (vm == NULL || vm->trace == NULL_OBJ || vm->trace->len <= n)
+        return;
+
+    if (n == 0) {
+        drop_obj(vm->trace);
+        vm->trace = NULL_OBJ;
+        return;
+    }
+
+    while (vm->trace->len > n)
+        drop_obj(AS_LIST(vm->trace)[--vm->trace->len]);
+}
+
 nil_t error_add_loc(obj_p err, i64_t id, ctx_t *ctx) {
     obj_p loc, nfo;
     span_t span;
@@ -502,13 +519,11 @@ OP_CALLF:
     }
 callf:
     // Compile if not already compiled
-    if (UNLIKELY(AS_LAMBDA(x)->bc == NULL_OBJ)) {
-        r = cc_compile(x);
-        if (UNLIKELY(IS_ERR(r))) {
-            drop_obj(x);
-            bc_error_add_loc(r, vm->fn, ip - 1);
-            return vm_error_unwind(vm, r);
-        }
+    r = cc_ensure(x);
+    if (UNLIKELY(IS_ERR(r))) {
+        drop_obj(x);
+        bc_error_add_loc(r, vm->fn, ip - 1);
+        return vm_error_unwind(vm, r);
     }
     // Check for stack overflow
     if (UNLIKELY(vm->rp >= VM_STACK_SIZE)) {
@@ -706,7 +721,6 @@ overflow:
 // ============================================================================
 
 obj_p call(obj_p fn, i64_t arity) {
-    lambda_p lam = AS_LAMBDA(fn);
     obj_p res;
     vm_p vm = VM;
     obj_p saved_fn = vm->fn;
@@ -714,11 +728,9 @@ obj_p call(obj_p fn, i64_t arity) {
     UNUSED(arity);
 
     // Compile on first call - bytecode is cached in the lambda for reuse
-    if (lam->bc == NULL_OBJ) {
-        res = cc_compile(fn);
-        if (IS_ERR(res))
-            return res;
-    }
+    res = cc_ensure(fn);
+    if (IS_ERR(res))
+        return res;
 
     // Native code recursing through lambdas shares the stacks with bytecode
     if (UNLIKELY(vm->rp >= VM_STACK_SIZE))
@@ -1001,6 +1013,9 @@ obj_p eval_str_w_attr(lit_p str, i64_t len, obj_p nfo_arg) {
     vm_p vm = VM;
     obj_p saved_nfo = vm ? vm->nfo : NULL_OBJ;
 
+    // Locations of an earlier error say nothing about this one
+    error_trace_clear(0);
+
     timeit_reset();
     timeit_span_start("top-level");
 
@@ -1070,6 +1085,7 @@ obj_p ray_eval_str_line(obj_p str, obj_p file, i64_t line) {
 
 obj_p try_obj(obj_p obj, obj_p ctch) {
     obj_p res;
+    i64_t depth = VM->trace == NULL_OBJ ? 0 : VM->trace->len;
 
     // Simple try - just evaluate and catch errors
     res = eval(obj);
@@ -1078,6 +1094,9 @@ obj_p try_obj(obj_p obj, obj_p ctch) {
         obj_p *pfn;
         obj_p fn = ctch;
 
+        // A caught error leaves no locations behind
+        error_trace_clear(depth);
+
         switch (fn->type) {
             case TYPE_LAMBDA:
             call_catch:
diff --git a/core/iter.c b/core/iter.c
index 775d02c..274d5cc 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -145,8 +145,8 @@ obj_p pmap_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
         return NULL_OBJ;
 
     pool = pool_get();
-    if (pool == NULL)
-        return map_unary_fn(fn, attrs, x);  // Fallback when pool not initialized
+    if (pool == NULL || rc_sync_get())
+        return map_unary_fn(fn, attrs, x);  // Fallback when pool not initialized or this is one of its tasks
     num_chunks = pool_get_executors_count(pool);
 
     // Limit chunks to number of elements
@@ -563,8 +563,8 @@ obj_p pmap_lambda(obj_p f, obj_p *x, i64_t n) {
         return NULL_OBJ;
 
     pool = pool_get();
-    if (pool == NULL)
-        return map_lambda(f, x, n);  // Fallback when pool not initialized
+    if (pool == NULL || rc_sync_get())
+        return map_lambda(f, x, n);  // Fallback when pool not initialized or this is one of its tasks
     num_chunks = pool_get_executors_count(pool);
 
     // Limit chunks to number of elements
diff --git a/core/pool.c b/core/pool.c
index 9450dcd..44db31d 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -168,7 +168,7 @@ obj_p pool_call_task_fn(raw_p fn, i64_t argc, raw_p argv[]) {
 raw_p executor_run(raw_p arg) {
     executor_t *executor = (executor_t *)arg;
     task_data_t data;
-    i64_t i, tasks_count;
+    i64_t i, tasks_count, run_id = 0;
     obj_p res;
     vm_p vm;
 
@@ -176,18 +176,24 @@ raw_p executor_run(raw_p arg) {
     vm = vm_create(executor->id, executor->pool);
     vm->rc_sync = 1;  // Enable atomic RC for worker threads
 
-    __atomic_store_n(&executor->heap, vm->heap, __ATOMIC_RELAXED);
-    __atomic_store_n(&executor->vm, vm, __ATOMIC_RELAXED);
+    __atomic_store_n(&executor->heap, vm->heap, __ATOMIC_RELEASE);
+    __atomic_store_n(&executor->vm, vm, __ATOMIC_RELEASE);
 
     for (;;) {
         mutex_lock(&executor->pool->mutex);
-        cond_wait(&executor->pool->run, &executor->pool->mutex);
+
+        // Join each run at most once, and none that is over (a signal may come before the wait)
+        while (executor->pool->state != RUN_STATE_STOPPED &&
+               (!executor->pool->running || executor->pool->run_id == run_id))
+            cond_wait(&executor->pool->run, &executor->pool->mutex);
 
         if (executor->pool->state == RUN_STATE_STOPPED) {
             mutex_unlock(&executor->pool->mutex);
             break;
         }
 
+        run_id = executor->pool->run_id;
+        executor->pool->active++;
         tasks_count = executor->pool->tasks_count;
         mutex_unlock(&executor->pool->mutex);
 
@@ -205,12 +211,15 @@ raw_p executor_run(raw_p arg) {
             mpmc_push(executor->pool->result_queue, data);
         }
 
-        if (i > 0) {
-            mutex_lock(&executor->pool->mutex);
-            executor->pool->done_count += i;
-            cond_signal(&executor->pool->done);
-            mutex_unlock(&executor->pool->mutex);
-        }
+        // Nobody will look at where this thread's errors came from
+        drop_obj(vm->trace);
+        vm->trace = NULL_OBJ;
+
+        mutex_lock(&executor->pool->mutex);
+        executor->pool->done_count += i;
+        executor->pool->active--;
+        cond_signal(&executor->pool->done);
+        mutex_unlock(&executor->pool->mutex);
     }
 
     vm_destroy(__VM);
@@ -231,6 +240,9 @@ pool_p pool_create(i64_t thread_count) {
     pool->task_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->result_queue = mpmc_create(DEFAULT_MPMC_SIZE);
     pool->state = RUN_STATE_RUNNING;
+    pool->run_id = 0;
+    pool->running = 0;
+    pool->active = 0;
     pool->mutex = mutex_create();
     pool->run = cond_create();
     pool->done = cond_create();
@@ -261,7 +273,7 @@ pool_p pool_create(i64_t thread_count) {
 
     // Wait for worker threads to initialize
     for (i = 1; i < thread_count; i++) {
-        while (__atomic_load_n(&pool->executors[i].vm, __ATOMIC_RELAXED) == NULL)
+        while (__atomic_load_n(&pool->executors[i].vm, __ATOMIC_ACQUIRE) == NULL)
             backoff_spin(&rounds);
     }
 
@@ -380,6 +392,8 @@ obj_p pool_run(pool_p pool) {
 
     tasks_count = pool->tasks_count;
     executors_count = pool->executors_count;
+    pool->run_id++;
+    pool->running = 1;
 
     // wake up needed executors
     if (executors_count < tasks_count) {
@@ -408,10 +422,12 @@ obj_p pool_run(pool_p pool) {
 
     pool->done_count += i;
 
-    // wait for all tasks to be done
-    while (pool->done_count < tasks_count)
+    // wait for all tasks to be done and all workers to have left the queues
+    while (pool->done_count < tasks_count || pool->active > 0)
         cond_wait(&pool->done, &pool->mutex);
 
+    pool->running = 0;
+
     // collect results
     res = LIST(tasks_count);
 
@@ -484,7 +500,8 @@ i64_t pool_split_by(pool_p pool, i64_t input_len, i64_t groups_len) {
 }
 
 i64_t pool_get_executors_count(pool_p pool) {
-    if (pool == NULL)
+    // A task of a running pool has no workers of its own
+    if (pool == NULL || rc_sync_get())
         return 1;
     else
         return pool->executors_count;
diff --git a/core/pool.h b/core/pool.h
index cac2f16..0555b8a 100644
--- a/core/pool.h
+++ b/core/pool.h
@@ -84,6 +84,9 @@ typedef struct pool_t {
     cond_t run;              // Condition variable for run VMs
     cond_t done;             // Condition variable for signal that VM is done
     run_state_t state;       // Pool's state
+    i64_t run_id;            // Number of the current run
+    i64_t running;           // Whether there is a run to join
+    i64_t active;            // Number of workers in the current run
     i64_t done_count;        // Number of done VMs
     i64_t executors_count;   // Number of executors
     i64_t tasks_count;       // Number of tasks
-- 
2.43.0


From f6ac4d9a03bdb842cce849e21202c7a82d322bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 066/102] fix: lambdas: wrong numbers of arguments fail when
 called, blocks are evaluated once, quoted symbols are plain, lazy columns are
 collected; set leaks nothing when writing fails

---
 core/binary.c |  7 ++++-
 core/cc.c     | 54 +++++++++++++++++++------------------
 core/eval.c   | 73 ++++++++++++++++++++++++++++++++++++++++-----------
 core/io.c     | 10 +++++--
 4 files changed, 100 insertions(+), 44 deletions(-)

diff --git a/core/binary.c b/core/binary.c
index 5917b2b..f0ca93c 100644
--- a/core/binary.c
+++ b/core/binary.c
@@ -210,8 +210,10 @@ obj_p binary_set(obj_p x, obj_p y) {
                     drop_obj(col);
                     drop_obj(buf);
 
-                    if (IS_ERR(res))
+                    if (IS_ERR(res)) {
+                        drop_obj(k);
                         return res;
+                    }
 
                     drop_obj(res);
 
@@ -222,6 +224,7 @@ obj_p binary_set(obj_p x, obj_p y) {
                     if (fd == -1) {
                         res = err_os();
                         drop_obj(path);
+                        drop_obj(k);
                         return res;
                     }
 
@@ -235,6 +238,7 @@ obj_p binary_set(obj_p x, obj_p y) {
                         res = err_os();
                         fs_fclose(fd);
                         drop_obj(path);
+                        drop_obj(k);
                         return res;
                     }
 
@@ -246,6 +250,7 @@ obj_p binary_set(obj_p x, obj_p y) {
                         res = err_os();
                         fs_fclose(fd);
                         drop_obj(path);
+                        drop_obj(k);
                         return res;
                     }
 
diff --git a/core/cc.c b/core/cc.c
index e35fb08..044152a 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -150,6 +150,7 @@ static i64_t cc_find_env(cc_ctx_t *cc, i64_t sym) {
 }
 
 static i64_t cc_expr(cc_ctx_t *cc, obj_p e);
+static i64_t cc_body(cc_ctx_t *cc, obj_p *lst, i64_t n);
 
 // Check if the function is a special form that needs control flow handling
 static b8_t is_cond_fn(obj_p car) {
@@ -157,6 +158,12 @@ static b8_t is_cond_fn(obj_p car) {
     return car->type == TYPE_VARY && (vary_f)car->i64 == ray_cond;
 }
 
+// Check if the function is a block, whose expressions are compiled in place
+static b8_t is_do_fn(obj_p car) {
+    extern obj_p ray_do(obj_p *, i64_t);
+    return car->type == TYPE_VARY && (vary_f)car->i64 == ray_do;
+}
+
 // Check if vary function is a special form that needs unevaluated arguments
 // Excludes control-flow forms (if, do) which need special compilation
 // Note: try is TYPE_BINARY, handled by is_binary_special_form
@@ -165,20 +172,15 @@ static b8_t is_vary_special_form(obj_p fn) {
     extern obj_p ray_do(obj_p *, i64_t);
     if (fn->type != TYPE_VARY || !(fn->attrs & FN_SPECIAL_FORM))
         return B8_FALSE;
-    // Exclude control-flow forms and do (which evaluates args normally)
+    // Exclude control-flow forms
     vary_f f = (vary_f)fn->i64;
     return f != ray_cond && f != ray_do;
 }
 
-// Compile if/cond expression
+// Compile if/cond expression of two or three arguments
 static i64_t cc_cond(cc_ctx_t *cc, obj_p *lst, i64_t n) {
     i64_t j1, j2;
 
-    if (n < 2 || n > 3) {
-        LOADCONST(cc, NULL_OBJ);
-        return 0;
-    }
-
     // compile condition
     CE(cc_expr(cc, lst[0]));
 
@@ -237,12 +239,17 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
     n--;
 
     // Handle special form 'cond'/'if'
-    if (is_cond_fn(car)) {
+    if (is_cond_fn(car) && (n == 2 || n == 3)) {
         return cc_cond(cc, lst, n);
     }
 
-    // Handle vary special forms that need unevaluated arguments (e.g. timeit)
-    if (is_vary_special_form(car)) {
+    // Handle blocks: the value of the last expression, which must not be evaluated again
+    if (is_do_fn(car) && n > 0)
+        return cc_body(cc, lst, n);
+
+    // Handle vary special forms that need unevaluated arguments (e.g. timeit),
+    // and conditionals whose number of arguments is an error
+    if (is_cond_fn(car) || is_vary_special_form(car)) {
         // Push all arguments as constants (no evaluation)
         for (i = 0; i < n; ++i) {
             CE(cc_const(cc, lst[i]));
@@ -288,18 +295,19 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
     // Record debug info before emitting call opcode
     DBG(cc, expr);
 
-    // Now emit call instruction based on function type
+    // Now emit call instruction based on function type.
+    // A wrong number of arguments is an error of the call when it is made: leave it to the runtime dispatch
     switch (car->type) {
         case TYPE_UNARY:
             if (n != 1)
-                return -1;
+                goto dynamic;
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALL1);
             break;
 
         case TYPE_BINARY:
             if (n != 2)
-                return -1;
+                goto dynamic;
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALL2);
             break;
@@ -312,26 +320,22 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
 
         case TYPE_LAMBDA:
             if (n != AS_LAMBDA(car)->args->len)
-                return -1;
+                goto dynamic;
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALLF);
             break;
 
         case -TYPE_SYMBOL:
-            if (car->i64 == SYMBOL_SELF) {
-                // Self-recursive call
-                if (n != cc->args->len)
-                    return -1;
+            // Self-recursive call
+            if (car->i64 == SYMBOL_SELF && n == cc->args->len) {
                 OP(cc, OP_CALLS);
-            } else {
-                // Dynamic call - need to resolve symbol at runtime
-                CE(cc_expr(cc, car));
-                OP(cc, OP_CALLD);
-                OP2(cc, n);
+                break;
             }
-            break;
+            // Dynamic call - need to resolve symbol at runtime
+            goto dynamic;
 
         default:
+        dynamic:
             // For other types, try to evaluate at runtime
             CE(cc_expr(cc, car));
             OP(cc, OP_CALLD);
@@ -350,7 +354,7 @@ static i64_t cc_expr(cc_ctx_t *cc, obj_p e) {
         case -TYPE_SYMBOL:
             // Quoted symbols are treated as literal constants (no resolve)
             if (e->attrs & ATTR_QUOTED) {
-                LOADCONST(cc, clone_obj(e));
+                LOADCONST(cc, symboli64(e->i64));
                 return 0;
             }
             // Check if it's in env (args + let-bound locals)
diff --git a/core/eval.c b/core/eval.c
index bc37241..152d31b 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -346,6 +346,46 @@ static inline obj_p vm_error_unwind(vm_p vm, obj_p err) {
     return err;
 }
 
+// ============================================================================
+// Lazy Values
+// ============================================================================
+
+// Collect lazy evaluation results (MAPGROUP/MAPFILTER)
+static inline obj_p collect_lazy(obj_p x) {
+    obj_p y;
+    if (x->type == TYPE_MAPGROUP) {
+        y = aggr_collect(AS_LIST(x)[0], AS_LIST(x)[1]);
+        drop_obj(x);
+        return y;
+    }
+    if (x->type == TYPE_MAPFILTER) {
+        y = filter_collect(AS_LIST(x)[0], AS_LIST(x)[1]);
+        drop_obj(x);
+        return y;
+    }
+    return x;
+}
+
+// Collect the arguments of a call made by bytecode, as the tree-walking evaluator does for its own
+static obj_p vm_collect_args(obj_p fn, obj_p *args, i64_t n) {
+    obj_p x;
+    i64_t i;
+
+    if (fn->attrs & FN_AGGR)
+        return NULL_OBJ;
+
+    for (i = 0; i < n; i++) {
+        x = collect_lazy(args[i]);
+        if (IS_ERR(x)) {
+            args[i] = NULL_OBJ;
+            return x;
+        }
+        args[i] = x;
+    }
+
+    return NULL_OBJ;
+}
+
 // ============================================================================
 // Bytecode Interpreter (Computed Goto)
 // ============================================================================
@@ -387,6 +427,15 @@ __attribute__((hot)) obj_p vm_eval(obj_p fn) {
 #define push(v) (vm->ps[vm->sp++] = (v))
 #define pop() (vm->ps[--vm->sp])
 #define top(n) (&vm->ps[vm->sp - (n)])
+// Only queries have lazy values
+#define collect_args(f, a, c)                                              \
+    if (UNLIKELY(vm->query_ctx != NULL)) {                                 \
+        r = vm_collect_args((f), (a), (c));                                \
+        if (UNLIKELY(IS_ERR(r))) {                                         \
+            bc_error_add_loc(r, vm->fn, ip - 1);                           \
+            return vm_error_unwind(vm, r);                                 \
+        }                                                                  \
+    }
 
     next();
 
@@ -463,6 +512,7 @@ OP_RESOLVE:
     next();
 
 OP_CALL1:
+    collect_args(*top(1), top(2), 1);
     // Function is on stack (pushed last by LOADCONST)
     y = pop();  // function (pushed last)
     x = pop();  // argument
@@ -477,6 +527,7 @@ OP_CALL1:
     next();
 
 OP_CALL2:
+    collect_args(*top(1), top(3), 2);
     r = pop();  // function (pushed last)
     y = pop();  // second argument
     x = pop();  // first argument
@@ -494,6 +545,7 @@ OP_CALL2:
 OP_CALLN:
     n = bc_operand(bc, ip);  // arity
     ip += 2;
+    collect_args(*top(1), top(n + 1), n);
     r = pop();     // function
     l = top(n);
     res = vary_call(r, l, n);
@@ -509,6 +561,8 @@ OP_CALLN:
     next();
 
 OP_CALLF:
+    n = (*top(1))->type == TYPE_LAMBDA ? AS_LAMBDA(*top(1))->args->len : 0;
+    collect_args(*top(1), top(n + 1), n);
     x = pop();  // lambda function
     if (UNLIKELY(x->type != TYPE_LAMBDA)) {
         i8_t got = x->type;
@@ -551,6 +605,7 @@ OP_CALLS:
     // Self-recursive call - check for stack overflow (the result needs a slot as well)
     if (UNLIKELY(vm->rp >= VM_STACK_SIZE || vm->sp >= VM_STACK_SIZE))
         goto overflow;
+    collect_args(vm->fn, top(AS_LAMBDA(vm->fn)->args->len), AS_LAMBDA(vm->fn)->args->len);
     rs = &vm->rs[vm->rp++];
     rs->ip = ip;
     rs->fp = vm->fp;
@@ -565,6 +620,7 @@ OP_CALLS:
 OP_CALLD:
     n = bc_operand(bc, ip);  // arity
     ip += 2;
+    collect_args(*top(1), top(n + 1), n);
     x = pop();     // function (dynamically resolved)
     switch (x->type) {
         case TYPE_UNARY:
@@ -714,6 +770,7 @@ overflow:
 #undef push
 #undef pop
 #undef top
+#undef collect_args
 }
 
 // ============================================================================
@@ -764,22 +821,6 @@ obj_p call(obj_p fn, i64_t arity) {
 // Recursive Tree-Walking Evaluator
 // ============================================================================
 
-// Collect lazy evaluation results (MAPGROUP/MAPFILTER)
-static inline obj_p collect_lazy(obj_p x) {
-    obj_p y;
-    if (x->type == TYPE_MAPGROUP) {
-        y = aggr_collect(AS_LIST(x)[0], AS_LIST(x)[1]);
-        drop_obj(x);
-        return y;
-    }
-    if (x->type == TYPE_MAPFILTER) {
-        y = filter_collect(AS_LIST(x)[0], AS_LIST(x)[1]);
-        drop_obj(x);
-        return y;
-    }
-    return x;
-}
-
 // Evaluate and collect (unless aggregation function)
 static inline obj_p eval_arg(obj_p arg, b8_t is_aggr) {
     obj_p x = eval(arg);
diff --git a/core/io.c b/core/io.c
index 7a9a7da..7611530 100644
--- a/core/io.c
+++ b/core/io.c
@@ -1334,8 +1334,11 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
                 return err_type(TYPE_C8, symfile->type, 0, 0);
         }
 
-        if (IS_ERR(res))
+        if (IS_ERR(res)) {
+            drop_obj(cols);
+            drop_obj(sym);
             return res;
+        }
 
         drop_obj(res);
 
@@ -1344,8 +1347,11 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
 
         drop_obj(s);
 
-        if (IS_ERR(res))
+        if (IS_ERR(res)) {
+            drop_obj(cols);
+            drop_obj(sym);
             return res;
+        }
 
         drop_obj(res);
     }
-- 
2.43.0


From d7673ec6dd25545abf41972451157a169c5cb3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:43 +0000
Subject: [PATCH 067/102] fix: lambdas: a call evaluates its function before
 its arguments, as outside lambdas

---
 core/cc.c   | 58 ++++++++++++++++++++++++++++++++---------------------
 core/eval.c |  8 ++++++--
 2 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/core/cc.c b/core/cc.c
index 044152a..62c5ee2 100644
--- a/core/cc.c
+++ b/core/cc.c
@@ -226,10 +226,29 @@ static b8_t is_binary_special_form(obj_p fn) { return fn->type == TYPE_BINARY &&
 // Check if a unary function is a special form (like quote)
 static b8_t is_unary_special_form(obj_p fn) { return fn->type == TYPE_UNARY && (fn->attrs & FN_SPECIAL_FORM); }
 
+// Check if what is called, or whether it takes the arguments, is known only at runtime
+static b8_t is_dynamic_call(cc_ctx_t *cc, obj_p car, i64_t n) {
+    switch (car->type) {
+        case TYPE_UNARY:
+            return n != 1;
+        case TYPE_BINARY:
+            return n != 2;
+        case TYPE_VARY:
+            return B8_FALSE;
+        case TYPE_LAMBDA:
+            return n != AS_LAMBDA(car)->args->len;
+        case -TYPE_SYMBOL:
+            return car->i64 != SYMBOL_SELF || n != cc->args->len;
+        default:
+            return B8_TRUE;
+    }
+}
+
 // Compile function call
 // expr is the original list expression (for debug info)
 static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
     obj_p car = lst[0];
+    b8_t dynamic;
     i64_t i;
 
     // Track current expression for error reporting
@@ -287,7 +306,13 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
         return 0;
     }
 
-    // Compile arguments first (left to right)
+    // A function known only when the call is made, or a wrong number of arguments (an error of the call when it is
+    // made), is left to the runtime dispatch: the function is evaluated first, then the arguments
+    dynamic = is_dynamic_call(cc, car, n);
+    if (dynamic)
+        CE(cc_expr(cc, car));
+
+    // Compile arguments (left to right)
     for (i = 0; i < n; ++i) {
         CE(cc_expr(cc, lst[i]));
     }
@@ -295,19 +320,20 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
     // Record debug info before emitting call opcode
     DBG(cc, expr);
 
-    // Now emit call instruction based on function type.
-    // A wrong number of arguments is an error of the call when it is made: leave it to the runtime dispatch
+    if (dynamic) {
+        OP(cc, OP_CALLD);
+        OP2(cc, n);
+        return 0;
+    }
+
+    // Now emit call instruction based on function type
     switch (car->type) {
         case TYPE_UNARY:
-            if (n != 1)
-                goto dynamic;
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALL1);
             break;
 
         case TYPE_BINARY:
-            if (n != 2)
-                goto dynamic;
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALL2);
             break;
@@ -319,27 +345,13 @@ static i64_t cc_call(cc_ctx_t *cc, obj_p expr, obj_p *lst, i64_t n) {
             break;
 
         case TYPE_LAMBDA:
-            if (n != AS_LAMBDA(car)->args->len)
-                goto dynamic;
             LOADCONST(cc, clone_obj(car));
             OP(cc, OP_CALLF);
             break;
 
-        case -TYPE_SYMBOL:
-            // Self-recursive call
-            if (car->i64 == SYMBOL_SELF && n == cc->args->len) {
-                OP(cc, OP_CALLS);
-                break;
-            }
-            // Dynamic call - need to resolve symbol at runtime
-            goto dynamic;
-
         default:
-        dynamic:
-            // For other types, try to evaluate at runtime
-            CE(cc_expr(cc, car));
-            OP(cc, OP_CALLD);
-            OP2(cc, n);
+            // Self-recursive call
+            OP(cc, OP_CALLS);
             break;
     }
 
diff --git a/core/eval.c b/core/eval.c
index 152d31b..a110e49 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -620,8 +620,12 @@ OP_CALLS:
 OP_CALLD:
     n = bc_operand(bc, ip);  // arity
     ip += 2;
-    collect_args(*top(1), top(n + 1), n);
-    x = pop();     // function (dynamically resolved)
+    collect_args(*top(n + 1), top(n), n);
+    l = top(n + 1);
+    x = *l;        // function (dynamically resolved, before the arguments)
+    for (i64_t i = 0; i < n; ++i)
+        l[i] = l[i + 1];
+    vm->sp--;
     switch (x->type) {
         case TYPE_UNARY:
             if (UNLIKELY(n != 1)) {
-- 
2.43.0


From 9f93e853fa0caa76fa4c725366ad2056eec5c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:27 +0000
Subject: [PATCH 068/102] fix: allocator: no merging of buddies across heaps
 during parallel runs, borrowed and shrunk blocks keep their bounds

---
 core/heap.c | 140 +++++++++++++++++++++++++++++++---------------------
 core/heap.h |   1 +
 core/pool.c |   2 +-
 3 files changed, 85 insertions(+), 58 deletions(-)

diff --git a/core/heap.c b/core/heap.c
index 4eb09e2..0ef3c63 100644
--- a/core/heap.c
+++ b/core/heap.c
@@ -117,6 +117,7 @@ nil_t heap_unmap(raw_p ptr, i64_t size) { mmap_free(ptr, size); }
 i64_t heap_gc(nil_t) { return 0; }
 nil_t heap_borrow(heap_p heap) { UNUSED(heap); }
 nil_t heap_merge(heap_p heap) { UNUSED(heap); }
+nil_t heap_reclaim(nil_t) {}
 memstat_t heap_memstat(nil_t) { return (memstat_t){0}; }
 
 #else
@@ -186,7 +187,8 @@ inline __attribute__((always_inline)) nil_t heap_insert_block(heap_p heap, block
 
     block->prev = NULL;
     block->next = heap->freelist[order];
-    block->used = 0;
+    // During a parallel run a buddy may belong to another thread's heap: a block may not be merged until the run is over
+    block->used = rc_sync_get();
     block->order = order;
 
     if (heap->freelist[order] != NULL)
@@ -222,6 +224,34 @@ inline __attribute__((always_inline)) nil_t heap_split_block(heap_p heap, block_
     }
 }
 
+// Return block to the freelist, merged with its free buddies
+static nil_t heap_coalesce_block(heap_p heap, block_p block, i64_t order) {
+    block_p buddy;
+
+    if (rc_sync_get())
+        return heap_insert_block(heap, block, order);
+
+    for (;; order++) {
+        // check if we are at the root block (no buddies left)
+        if (block->pool_order == order)
+            return heap_insert_block(heap, block, order);
+
+        // calculate buddy and prefetch its metadata
+        buddy = BUDDYOF(block, order);
+        __builtin_prefetch(buddy, 0, 1);  // read, low temporal locality
+
+        // buddy is used, or buddy is of different order, so we can't merge
+        if (buddy->used || buddy->order != order)
+            return heap_insert_block(heap, block, order);
+
+        // merge blocks: remove buddy from its freelist.
+        heap_remove_block(heap, buddy, order);
+
+        // check if buddy is lower address than block (means it is of higher order), if so, swap them
+        block = (buddy < block) ? buddy : block;
+    }
+}
+
 // Flush slab caches back to freelists for coalescing
 static nil_t heap_flush_slabs(heap_p heap) {
     i64_t i;
@@ -230,8 +260,7 @@ static nil_t heap_flush_slabs(heap_p heap) {
     for (i = 0; i < SLAB_ORDERS; i++) {
         while (heap->slabs[i].count > 0) {
             block = heap->slabs[i].stack[--heap->slabs[i].count];
-            // heap_insert_block will set used=0
-            heap_insert_block(heap, block, SLAB_ORDER_MIN + i);
+            heap_coalesce_block(heap, block, SLAB_ORDER_MIN + i);
         }
     }
 }
@@ -338,7 +367,7 @@ raw_p __attribute__((hot)) heap_alloc(i64_t size) {
 }
 
 __attribute__((hot)) nil_t heap_free(raw_p ptr) {
-    block_p block, buddy;
+    block_p block;
     i64_t fd, res;
     i64_t order;
     c8_t filename[64];
@@ -391,25 +420,7 @@ __attribute__((hot)) nil_t heap_free(raw_p ptr) {
         return;
     }
 
-    for (;; order++) {
-        // check if we are at the root block (no buddies left)
-        if (block->pool_order == order)
-            return heap_insert_block(heap, block, order);
-
-        // calculate buddy and prefetch its metadata
-        buddy = BUDDYOF(block, order);
-        __builtin_prefetch(buddy, 0, 1);  // read, low temporal locality
-
-        // buddy is used, or buddy is of different order, so we can't merge
-        if (buddy->used || buddy->order != order)
-            return heap_insert_block(heap, block, order);
-
-        // merge blocks: remove buddy from its freelist.
-        heap_remove_block(heap, buddy, order);
-
-        // check if buddy is lower address than block (means it is of higher order), if so, swap them
-        block = (buddy < block) ? buddy : block;
-    }
+    heap_coalesce_block(heap, block, order);
 }
 
 __attribute__((hot)) raw_p heap_realloc(raw_p ptr, i64_t new_size) {
@@ -430,6 +441,7 @@ __attribute__((hot)) raw_p heap_realloc(raw_p ptr, i64_t new_size) {
         return ptr;
 
     // grow or block is not in the same heap
+    old_size = (new_size < old_size - (i64_t)sizeof(struct obj_t)) ? new_size : old_size - (i64_t)sizeof(struct obj_t);
     if (order > block->order || (heap->id != 0 && block->heap_id != heap->id) || block->backed) {
         new_ptr = heap_alloc(new_size);
 
@@ -438,7 +450,7 @@ __attribute__((hot)) raw_p heap_realloc(raw_p ptr, i64_t new_size) {
             return NULL;
         }
 
-        memcpy(new_ptr, ptr, old_size - sizeof(struct obj_t));
+        memcpy(new_ptr, ptr, old_size);
         heap_free(ptr);
 
         return new_ptr;
@@ -493,21 +505,22 @@ nil_t heap_borrow(heap_p heap) {
     // Transfer half of slab cache entries to worker (improves small object alloc)
     for (i = 0; i < SLAB_ORDERS; i++) {
         half = h->slabs[i].count / 2;
-        for (j = 0; j < half; j++) {
+        for (j = 0; j < half && heap->slabs[i].count < SLAB_CACHE_SIZE; j++) {
             heap->slabs[i].stack[heap->slabs[i].count++] = h->slabs[i].stack[--h->slabs[i].count];
         }
     }
 
     // Borrow medium blocks (orders 20-24: 1MB-16MB) for common allocations
     for (i = 20; i < MAX_BLOCK_ORDER; i++) {
-        // Only borrow if source has 2+ blocks at this order
-        if (h->freelist[i] == NULL || h->freelist[i]->next == NULL)
+        // Only borrow if source has 2+ blocks at this order, and the heap none
+        if (heap->freelist[i] != NULL || h->freelist[i] == NULL || h->freelist[i]->next == NULL)
             continue;
 
         heap->freelist[i] = h->freelist[i];
         h->freelist[i] = h->freelist[i]->next;
         h->freelist[i]->prev = NULL;
 
+        heap->freelist[i]->used = 1;
         heap->freelist[i]->next = NULL;
         heap->freelist[i]->prev = NULL;
         heap->avail |= BSIZEOF(i);
@@ -515,69 +528,82 @@ nil_t heap_borrow(heap_p heap) {
 
     // Borrow large pool blocks (>=32MB) for big allocations
     for (i = MAX_BLOCK_ORDER; i <= MAX_POOL_ORDER; i++) {
-        // Only borrow if source has freelist[i] with >1 node and it's a full pool
-        if (h->freelist[i] == NULL || h->freelist[i]->next == NULL || h->freelist[i]->pool_order != i)
+        // Only borrow if source has freelist[i] with >1 node and it's a full pool, and the heap none
+        if (heap->freelist[i] != NULL || h->freelist[i] == NULL || h->freelist[i]->next == NULL ||
+            h->freelist[i]->pool_order != i)
             continue;
 
         heap->freelist[i] = h->freelist[i];
         h->freelist[i] = h->freelist[i]->next;
         h->freelist[i]->prev = NULL;
 
+        heap->freelist[i]->used = 1;
         heap->freelist[i]->next = NULL;
         heap->freelist[i]->prev = NULL;
         heap->avail |= BSIZEOF(i);
     }
 }
 
+// Keep a block that is free until all the heaps are merged: its buddies may still be in one of them
+static nil_t heap_defer_block(heap_p heap, block_p block) {
+    block->used = 1;
+    block->next = heap->foreign_blocks;
+    heap->foreign_blocks = block;
+}
+
 nil_t heap_merge(heap_p heap) {
     i64_t i;
-    block_p block, next, last;
+    block_p block, next;
     heap_p h = VM->heap;  // Cache heap pointer (destination heap)
 
-    // Transfer slab caches back to main heap (if room), else flush to freelist
+    // Transfer slab caches back to main heap (if room)
     for (i = 0; i < SLAB_ORDERS; i++) {
         // Transfer as many as fit into main's slab cache
         while (heap->slabs[i].count > 0 && h->slabs[i].count < SLAB_CACHE_SIZE) {
             h->slabs[i].stack[h->slabs[i].count++] = heap->slabs[i].stack[--heap->slabs[i].count];
         }
-        // Flush remaining to main heap's freelist
-        while (heap->slabs[i].count > 0) {
-            block = heap->slabs[i].stack[--heap->slabs[i].count];
-            heap_insert_block(h, block, SLAB_ORDER_MIN + i);
-        }
+        while (heap->slabs[i].count > 0)
+            heap_defer_block(h, heap->slabs[i].stack[--heap->slabs[i].count]);
     }
 
-    // Return foreign blocks via normal free path (includes coalescing)
-    block = heap->foreign_blocks;
-    while (block != NULL) {
+    // Return foreign blocks
+    for (block = heap->foreign_blocks; block != NULL; block = next) {
         next = block->next;
-        block->heap_id = h->id;
-        heap_free(BLOCK2RAW(block));
-        block = next;
+        heap_defer_block(h, block);
     }
     heap->foreign_blocks = NULL;
 
-    // Merge freelists: O(1) prepend by finding tail, linking to main head
+    // Return free blocks
     for (i = MIN_BLOCK_ORDER; i <= MAX_POOL_ORDER; i++) {
-        if (heap->freelist[i] == NULL)
-            continue;
+        for (block = heap->freelist[i]; block != NULL; block = next) {
+            next = block->next;
+            heap_defer_block(h, block);
+        }
+        heap->freelist[i] = NULL;
+    }
 
-        // Find tail of worker's freelist
-        last = heap->freelist[i];
-        while (last->next != NULL)
-            last = last->next;
+    heap->avail = 0;
+}
 
-        // Link: worker_tail -> main_head, main_head = worker_head
-        last->next = h->freelist[i];
-        if (h->freelist[i] != NULL)
-            h->freelist[i]->prev = last;
+nil_t heap_reclaim(nil_t) {
+    i64_t i;
+    block_p block, next;
+    heap_p h = VM->heap;
 
-        h->freelist[i] = heap->freelist[i];
-        heap->freelist[i] = NULL;
+    // Blocks freed or split off during the run are ahead of the ones that were free before it
+    for (i = MIN_BLOCK_ORDER; i <= MAX_POOL_ORDER; i++) {
+        while (h->freelist[i] != NULL && h->freelist[i]->used) {
+            block = h->freelist[i];
+            heap_remove_block(h, block, i);
+            heap_defer_block(h, block);
+        }
     }
 
-    h->avail |= heap->avail;
-    heap->avail = 0;
+    for (block = h->foreign_blocks; block != NULL; block = next) {
+        next = block->next;
+        heap_coalesce_block(h, block, block->order);
+    }
+    h->foreign_blocks = NULL;
 }
 
 memstat_t heap_memstat(nil_t) {
diff --git a/core/heap.h b/core/heap.h
index 52bae93..ac72950 100644
--- a/core/heap.h
+++ b/core/heap.h
@@ -101,6 +101,7 @@ nil_t heap_unmap(raw_p ptr, i64_t size);
 i64_t heap_gc(nil_t);
 nil_t heap_borrow(heap_p heap);
 nil_t heap_merge(heap_p heap);
+nil_t heap_reclaim(nil_t);  // After all the heaps are merged
 memstat_t heap_memstat(nil_t);
 nil_t heap_print_blocks(heap_p heap);
 
diff --git a/core/pool.c b/core/pool.c
index 44db31d..b6498d0 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -444,8 +444,8 @@ obj_p pool_run(pool_p pool) {
     for (i = 1; i < n; i++) {  // Skip executor[0] (main thread) - no self-merge
         heap_merge(pool->executors[i].heap);
     }
-
     rc_sync_set(0);
+    heap_reclaim();
 
     mutex_unlock(&pool->mutex);
 
-- 
2.43.0


From 9423289036b198040bd598a89049741ddf660ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:57 +0000
Subject: [PATCH 069/102] fix: whole-page chunks must not run past the end of
 the data with many workers

---
 core/pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/pool.c b/core/pool.c
index b6498d0..dfc260d 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -520,6 +520,10 @@ i64_t pool_chunk_aligned(i64_t total_len, i64_t num_workers, i64_t elem_size) {
     i64_t total_pages = (total_len + elems_per_page - 1) / elems_per_page;
     i64_t pages_per_chunk = (total_pages + num_workers - 1) / num_workers;
 
+    // Whole pages must not leave the last worker with nothing, or less
+    if (pages_per_chunk * elems_per_page * (num_workers - 1) >= total_len)
+        return total_len / num_workers;
+
     return pages_per_chunk * elems_per_page;
 }
 
-- 
2.43.0


From ba89974e4c1dd6f155b2ce30bbfb7409dcaa931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:43 +0000
Subject: [PATCH 070/102] fix: an error raised in a worker keeps its kind and
 message

---
 core/pool.c | 23 +++++++++++++++++------
 core/pool.h |  1 +
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/core/pool.c b/core/pool.c
index dfc260d..4b156d3 100644
--- a/core/pool.c
+++ b/core/pool.c
@@ -208,6 +208,8 @@ raw_p executor_run(raw_p arg) {
             // execute task
             res = pool_call_task_fn(data.fn, data.argc, data.argv);
             data.result = res;
+            if (IS_ERR(res))
+                data.err = vm->err;
             mpmc_push(executor->pool->result_queue, data);
         }
 
@@ -382,6 +384,8 @@ obj_p pool_run(pool_p pool) {
     i64_t i, n, tasks_count, executors_count;
     obj_p e, res;
     task_data_t data;
+    i64_t failed = -1;
+    err_t err;
 
     if (pool == NULL)
         PANIC("pool is NULL");
@@ -415,6 +419,8 @@ obj_p pool_run(pool_p pool) {
         // execute task
         res = pool_call_task_fn(data.fn, data.argc, data.argv);
         data.result = res;
+        if (IS_ERR(res))
+            data.err = VM->err;
         mpmc_push(pool->result_queue, data);
     }
 
@@ -436,6 +442,12 @@ obj_p pool_run(pool_p pool) {
         if (data.id < 0 || data.id >= (i64_t)tasks_count)
             PANIC("corrupted: %lld", data.id);
 
+        // The first failed task speaks for the run, whichever thread it ran on
+        if (IS_ERR(data.result) && (failed < 0 || data.id < failed)) {
+            failed = data.id;
+            err = data.err;
+        }
+
         ins_obj(&res, data.id, data.result);
     }
 
@@ -450,12 +462,11 @@ obj_p pool_run(pool_p pool) {
     mutex_unlock(&pool->mutex);
 
     // Check res for errors
-    for (i = 0; i < tasks_count; i++) {
-        if (IS_ERR(AS_LIST(res)[i])) {
-            e = clone_obj(AS_LIST(res)[i]);
-            drop_obj(res);
-            return e;
-        }
+    if (failed >= 0) {
+        VM->err = err;
+        e = clone_obj(AS_LIST(res)[failed]);
+        drop_obj(res);
+        return e;
     }
 
     return res;
diff --git a/core/pool.h b/core/pool.h
index 0555b8a..e5a0224 100644
--- a/core/pool.h
+++ b/core/pool.h
@@ -49,6 +49,7 @@ typedef struct {
     i64_t argc;
     raw_p argv[8];
     obj_p result;
+    err_t err;  // What the result says if it is an error
 } task_data_t;
 
 typedef struct cell_t {
-- 
2.43.0


From e3547d4da1e6bee2ba8f3d58d5a2255029bc67e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:53 +0000
Subject: [PATCH 071/102] fix: releasing a free-list slot twice put it on the
 free list twice

---
 core/freelist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/freelist.c b/core/freelist.c
index 17d7048..eaa1753 100644
--- a/core/freelist.c
+++ b/core/freelist.c
@@ -71,6 +71,10 @@ i64_t freelist_pop(freelist_p freelist, i64_t pos) {
     if (pos < 0 || pos >= freelist->data_pos)
         return NULL_I64;
 
+    // already released
+    if (freelist->data[pos] == NULL_I64)
+        return NULL_I64;
+
     if (freelist->free_pos == freelist->free_size) {
         freelist->free_size *= 2;
         freelist->free = (i64_t *)heap_realloc(freelist->free, freelist->free_size * sizeof(i64_t));
-- 
2.43.0


From 13e52f34524f8a627384d4ddbd99685f638082a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:03 +0000
Subject: [PATCH 072/102] fix: a third queued buffer of a connection replaced
 the second

---
 core/poll.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/poll.c b/core/poll.c
index 0e5d6cf..ea92c65 100644
--- a/core/poll.c
+++ b/core/poll.c
@@ -128,11 +128,14 @@ i64_t poll_rx_buf_reset(poll_p poll, selector_p selector) {
 }
 
 i64_t poll_send_buf(poll_p poll, selector_p selector, poll_buffer_p buf) {
+    poll_buffer_p *tail;
+
     // Attach the buffer to the end of the list
-    if (selector->tx.buf != NULL)
-        selector->tx.buf->next = buf;
-    else
-        selector->tx.buf = buf;
+    tail = &selector->tx.buf;
+    while (*tail != NULL)
+        tail = &(*tail)->next;
+
+    *tail = buf;
 
     return poll_send(poll, selector);
 }
-- 
2.43.0


From a226427a65afdefe9f279c9add582152ac63591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 073/102] fix: connection callbacks used a function pointer
 that setting .z.w invalidates

---
 core/ipc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ipc.c b/core/ipc.c
index 5c194e7..ea673a4 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -195,7 +195,7 @@ i64_t ipc_listen(poll_p poll, i64_t port) {
 nil_t ipc_call_usr_cb(poll_p poll, selector_p selector, lit_p sym, i64_t len) {
     UNUSED(poll);
     i64_t clbnm;
-    obj_p v, f, *clbfn;
+    obj_p v, f, fn, *clbfn;
 
     vm_stack_push(NULL_OBJ);  // null env
     clbnm = symbols_intern(sym, len);
@@ -204,10 +204,13 @@ nil_t ipc_call_usr_cb(poll_p poll, selector_p selector, lit_p sym, i64_t len) {
 
     // Call the callback if it's a lambda
     if (clbfn != NULL && (*clbfn)->type == TYPE_LAMBDA) {
+        // setting a variable moves the globals, and the callback may replace itself
+        fn = clone_obj(*clbfn);
         poll_set_usr_fd(selector->id);
         vm_stack_push(i64(selector->id));
-        v = call(*clbfn, 1);
+        v = call(fn, 1);
         drop_obj(vm_stack_pop());
+        drop_obj(fn);
         poll_set_usr_fd(0);
         if (IS_ERR(v)) {
             f = obj_fmt(v, B8_FALSE);
-- 
2.43.0


From c0ade57d0b035a1f027d02c4d6a40590041e5049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:20 +0000
Subject: [PATCH 074/102] fix: the write half of a read-write event was skipped
 when reading ran dry

---
 core/epoll.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index 1a92a36..fe1304f 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -335,9 +335,9 @@ i64_t poll_run(poll_p poll) {
 
             selector = (selector_p)ev.data.ptr;
 
-            // error or hang up
-            if ((ev.events & POLL_EVENT_ERROR) || (ev.events & POLL_EVENT_RDHUP)) {
-                LOG_DEBUG("Connection error or hangup for selector %lld, events: 0x%llx", selector->id, ev.events);
+            // error
+            if (ev.events & POLL_EVENT_ERROR) {
+                LOG_DEBUG("Connection error for selector %lld, events: 0x%llx", selector->id, ev.events);
                 poll_deregister(poll, selector->id);
                 continue;
             }
@@ -358,10 +358,9 @@ i64_t poll_run(poll_p poll) {
                             goto next_event;
                         }
 
-                        if (nbytes == 0) {
-                            // No more data to read (EAGAIN/EWOULDBLOCK), wait for next edge trigger
-                            goto next_event;
-                        }
+                        // No more data to read (EAGAIN/EWOULDBLOCK), wait for next edge trigger
+                        if (nbytes == 0)
+                            break;
                     }
 
                     poll_result = option_none();
-- 
2.43.0


From 31b8f0ca7480836f75a737f1606c190193cea4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 075/102] fix: messages sent just before the peer closes were
 dropped unread

---
 core/epoll.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/epoll.c b/core/epoll.c
index fe1304f..e33aa64 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -400,6 +400,12 @@ i64_t poll_run(poll_p poll) {
                 }
             }
 
+            // hang up: what had been sent before it is read by now
+            if (ev.events & (POLL_EVENT_HUP | POLL_EVENT_RDHUP)) {
+                LOG_DEBUG("Connection hangup for selector %lld, events: 0x%llx", selector->id, ev.events);
+                poll_deregister(poll, selector->id);
+            }
+
         next_event:;
         }
     }
-- 
2.43.0


From 5a4bf633d252fb27f01757a23f6378a9251247cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:01 +0000
Subject: [PATCH 076/102] fix: connections closed while one of their messages
 is evaluated were used after free

---
 core/epoll.c  | 23 ++++++++++++++++++++---
 core/ipc.c    | 12 +++++++++---
 core/kqueue.c |  4 +++-
 core/poll.c   | 25 +++++++++++++++++++++++++
 core/poll.h   |  7 +++++++
 5 files changed, 64 insertions(+), 7 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index e33aa64..7a7df6d 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -90,6 +90,8 @@ poll_p poll_create() {
     poll->fd = fd;
     poll->selectors = freelist_create(128);
     poll->timers = timers_create(16);
+    poll->busy = 0;
+    poll->released = NULL;
 
     LOG_DEBUG("Poll instance created");
 
@@ -200,7 +202,7 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
 
     LOG_DEBUG("Freeing selector");
 
-    heap_free(selector);
+    poll_selector_release(poll, selector);
 
     return 0;
 }
@@ -322,6 +324,8 @@ i64_t poll_run(poll_p poll) {
             return -1;
         }
 
+        poll_enter(poll);
+
         for (n = 0; n < nfds; n++) {
             LOG_TRACE("Event %lld: %lld", n, nfds);
             ev = events[n];
@@ -335,6 +339,10 @@ i64_t poll_run(poll_p poll) {
 
             selector = (selector_p)ev.data.ptr;
 
+            // closed by what has been processed meanwhile
+            if (selector->fd == -1)
+                continue;
+
             // error
             if (ev.events & POLL_EVENT_ERROR) {
                 LOG_DEBUG("Connection error for selector %lld, events: 0x%llx", selector->id, ev.events);
@@ -372,12 +380,19 @@ i64_t poll_run(poll_p poll) {
                         if (poll_result.value != NULL && selector->data_fn != NULL)
                             poll_result = selector->data_fn(poll, selector, poll_result.value);
 
+                        if (selector->fd == -1)
+                            goto next_event;
+
                         if (option_is_some(&poll_result))
                             continue;
                     }
 
-                    if (option_is_error(&poll_result))
-                        poll_deregister(poll, selector->id);
+                    if (option_is_error(&poll_result)) {
+                        drop_obj((obj_p)option_take(&poll_result));
+                        if (selector->fd != -1)
+                            poll_deregister(poll, selector->id);
+                        goto next_event;
+                    }
 
                     break;
                 }
@@ -408,6 +423,8 @@ i64_t poll_run(poll_p poll) {
 
         next_event:;
         }
+
+        poll_leave(poll);
     }
 
     return poll->code;
diff --git a/core/ipc.c b/core/ipc.c
index ea673a4..f7cd345 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -430,18 +430,24 @@ option_t ipc_on_data(poll_p poll, selector_p selector, raw_p data) {
 
     LOG_TRACE("Received data from connection %lld", selector->id);
 
-    ipc_ctx_p ctx;
+    u8_t msgtype;
     obj_p v, res;
 
-    ctx = (ipc_ctx_p)selector->data;
+    // evaluating the message may receive other ones or close the connection
+    msgtype = ((ipc_ctx_p)selector->data)->msgtype;
     res = (obj_p)data;
 
     poll_set_usr_fd(selector->id);
     v = ipc_process_msg(poll, selector, res);
     poll_set_usr_fd(0);
 
+    if (selector->fd == -1) {
+        drop_obj(v);
+        return option_none();
+    }
+
     // Send a response if the message is a synchronous request
-    if (ctx->msgtype == MSG_TYPE_SYNC)
+    if (msgtype == MSG_TYPE_SYNC)
         ipc_send_msg(poll, selector, v, MSG_TYPE_RESP);
 
     drop_obj(v);
diff --git a/core/kqueue.c b/core/kqueue.c
index bad04db..b9dea36 100644
--- a/core/kqueue.c
+++ b/core/kqueue.c
@@ -86,6 +86,8 @@ poll_p poll_create() {
     poll->code = NULL_I64;
     poll->selectors = freelist_create(128);
     poll->timers = timers_create(128);
+    poll->busy = 0;
+    poll->released = NULL;
 
     return poll;
 }
@@ -193,7 +195,7 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
 
     heap_free(selector->rx.buf);
     heap_free(selector->tx.buf);
-    heap_free(selector);
+    poll_selector_release(poll, selector);
 
     return 0;
 }
diff --git a/core/poll.c b/core/poll.c
index ea92c65..4fc1d08 100644
--- a/core/poll.c
+++ b/core/poll.c
@@ -72,6 +72,31 @@ nil_t poll_buf_destroy(poll_buffer_p buf) { heap_free(buf); }
 // Buffer management functions - Unix platforms use poll_buffer_p, Windows uses different buffer model
 #if !defined(OS_WINDOWS)
 
+// A selector may be deregistered (by a message that closes its own connection, say) while the event
+// loop or a wait for a response still refers to it, so it is freed only when nothing does.
+nil_t poll_enter(poll_p poll) { poll->busy++; }
+
+nil_t poll_leave(poll_p poll) {
+    selector_p selector;
+
+    if (--poll->busy > 0)
+        return;
+
+    while (poll->released != NULL) {
+        selector = poll->released;
+        poll->released = selector->next;
+        heap_free(selector);
+    }
+}
+
+nil_t poll_selector_release(poll_p poll, selector_p selector) {
+    poll_enter(poll);
+    selector->fd = -1;
+    selector->next = poll->released;
+    poll->released = selector;
+    poll_leave(poll);
+}
+
 i64_t poll_rx_buf_request(poll_p poll, selector_p selector, i64_t size) {
     UNUSED(poll);
 
diff --git a/core/poll.h b/core/poll.h
index f553692..736b8d6 100644
--- a/core/poll.h
+++ b/core/poll.h
@@ -209,6 +209,8 @@ typedef struct selector_t {
         poll_io_fn send_fn;     // to be called when the selector is ready to send
         poll_rdwr_fn write_fn;  // to be called when the selector is ready to send
     } tx;
+
+    struct selector_t *next;  // next released selector (fd is -1 then)
 } *selector_p;
 
 typedef struct poll_t {
@@ -216,6 +218,8 @@ typedef struct poll_t {
     i64_t code;            // exit code
     freelist_p selectors;  // freelist of selectors
     timers_p timers;       // timers heap
+    i64_t busy;            // nested uses of selectors: while there are any, none of them goes away
+    selector_p released;   // released selectors that are still to be freed
 } *poll_p;
 
 // Registry structure for new file descriptor registration
@@ -252,6 +256,9 @@ i64_t poll_deregister(poll_p poll, i64_t id);
 nil_t poll_destroy(poll_p poll);
 i64_t poll_run(poll_p poll);
 selector_p poll_get_selector(poll_p poll, i64_t id);
+nil_t poll_enter(poll_p poll);
+nil_t poll_leave(poll_p poll);
+nil_t poll_selector_release(poll_p poll, selector_p selector);
 poll_buffer_p poll_buf_create(i64_t size);
 nil_t poll_buf_destroy(poll_buffer_p buf);
 i64_t poll_rx_buf_request(poll_p poll, selector_p selector, i64_t size);
-- 
2.43.0


From c8ae13b169ae6040d99ba2c2865cc19fdaf4b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:08 +0000
Subject: [PATCH 077/102] fix: descriptors of closed connections were never
 closed

---
 core/epoll.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/epoll.c b/core/epoll.c
index 7a7df6d..d9b752f 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -189,6 +189,10 @@ i64_t poll_deregister(poll_p poll, i64_t id) {
 
     epoll_ctl(poll->fd, EPOLL_CTL_DEL, selector->fd, NULL);
 
+    // standard streams belong to the process
+    if (selector->type == SELECTOR_TYPE_SOCKET)
+        close(selector->fd);
+
     if (selector->rx.buf != NULL) {
         heap_free(selector->rx.buf);
         selector->rx.buf = NULL;
-- 
2.43.0


From e9c45e984281ea8e072b093460b3fbaca172ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:14 +0000
Subject: [PATCH 078/102] fix: message headers are checked, and buffers grow
 with what arrives

---
 core/ipc.c | 27 +++++++++++++++++++++++----
 core/ipc.h |  2 ++
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/core/ipc.c b/core/ipc.c
index f7cd345..b0a8a53 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -336,9 +336,15 @@ option_t ipc_read_header(poll_p poll, selector_p selector) {
     LOG_TRACE("Header read: {.prefix: 0x%08x, .version: %d, .flags: %d, .endian: %d, .msgtype: %d, .size: %lld}",
               header->prefix, header->version, header->flags, header->endian, header->msgtype, header->size);
 
-    // request the buffer for the entire message (including the header)
+    if (header->prefix != SERDE_PREFIX || msgsize <= 0 || msgsize > INT64_MAX - ISIZEOF(struct ipc_header_t)) {
+        LOG_ERROR("Malformed message header on connection %lld", selector->id);
+        return option_error(err_os());
+    }
+
+    // request the buffer for the message (including the header); that of a large one grows as it arrives
     LOG_DEBUG("Requesting buffer for message of size %lld", ISIZEOF(struct ipc_header_t) + msgsize);
-    poll_rx_buf_extend(poll, selector, msgsize);
+    if (poll_rx_buf_extend(poll, selector, msgsize < IPC_RX_STEP ? msgsize : IPC_RX_STEP) == -1)
+        return option_error(err_os());
 
     LOG_DEBUG("Switching to message reading mode");
     selector->rx.read_fn = ipc_read_msg;
@@ -350,19 +356,32 @@ option_t ipc_read_header(poll_p poll, selector_p selector) {
 option_t ipc_read_msg(poll_p poll, selector_p selector) {
     UNUSED(poll);
 
-    i64_t size;
+    i64_t size, rest, done;
     obj_p res;
     ipc_header_t *header;
 
     LOG_DEBUG("Reading message from connection %lld", selector->id);
     header = (ipc_header_t *)selector->rx.buf->data;
     size = header->size;
+    done = selector->rx.buf->offset;
+    rest = ISIZEOF(struct ipc_header_t) + size - done;
+
+    if (rest > 0) {
+        if (poll_rx_buf_extend(poll, selector, rest < done ? rest : done) == -1)
+            return option_error(err_os());
+
+        return option_some(NULL);
+    }
+
     LOG_DEBUG("Message size: %lld", size);
     res = de_raw(selector->rx.buf->data + ISIZEOF(struct ipc_header_t), &size);
     LOG_DEBUG("Message read");
 
     // Prepare for the next message
-    poll_rx_buf_request(poll, selector, ISIZEOF(struct ipc_header_t));
+    if (poll_rx_buf_request(poll, selector, ISIZEOF(struct ipc_header_t)) == -1) {
+        drop_obj(res);
+        return option_error(err_os());
+    }
     selector->rx.read_fn = ipc_read_header;
 
     return option_some(res);
diff --git a/core/ipc.h b/core/ipc.h
index 04bca0f..bbe8c16 100644
--- a/core/ipc.h
+++ b/core/ipc.h
@@ -32,6 +32,8 @@
 #define MSG_TYPE_SYNC 1
 #define MSG_TYPE_RESP 2
 
+#define IPC_RX_STEP (1 << 20)  // room given to a message before any of it has arrived
+
 typedef struct ipc_ctx_t {
     u8_t msgtype;
     obj_p name;
-- 
2.43.0


From e98cd15e5a6ba7a3ea17040d8cd312ac551a8ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:22 +0000
Subject: [PATCH 079/102] fix: .z.po ran before its connection could carry
 messages

---
 core/epoll.c |  5 +++++
 core/ipc.c   | 15 +++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index d9b752f..4027d70 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -380,6 +380,11 @@ i64_t poll_run(poll_p poll) {
                     if (selector->rx.read_fn != NULL)
                         poll_result = selector->rx.read_fn(poll, selector);
 
+                    if (selector->fd == -1) {
+                        drop_obj((obj_p)option_take(&poll_result));
+                        goto next_event;
+                    }
+
                     if (option_is_some(&poll_result)) {
                         if (poll_result.value != NULL && selector->data_fn != NULL)
                             poll_result = selector->data_fn(poll, selector, poll_result.value);
diff --git a/core/ipc.c b/core/ipc.c
index b0a8a53..7338a4a 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -289,7 +289,6 @@ option_t ipc_read_handshake(poll_p poll, selector_p selector) {
 
     if (selector->rx.buf == NULL) {
         LOG_DEBUG("No handshake buffer received, closing connection");
-        poll_deregister(poll, selector->id);
         return option_error(err_os());
     }
 
@@ -298,22 +297,26 @@ option_t ipc_read_handshake(poll_p poll, selector_p selector) {
 
         // send handshake response (single byte version)
         buf = poll_buf_create(1);
+        if (buf == NULL)
+            return option_error(err_os());
         buf->data[0] = RAYFORCE_VERSION;
         poll_send_buf(poll, selector, buf);
 
-        // Now we are ready for income messages and can call userspace callback (if any)
-        ipc_call_usr_cb(poll, selector, ".z.po", 5);
-
         selector->rx.read_fn = ipc_read_header;
         LOG_DEBUG("Handshake completed, switching to header reading mode");
 
-        poll_rx_buf_request(poll, selector, ISIZEOF(struct ipc_header_t));
+        if (poll_rx_buf_request(poll, selector, ISIZEOF(struct ipc_header_t)) == -1)
+            return option_error(err_os());
+
+        // Now we are ready for income messages and can call userspace callback (if any)
+        ipc_call_usr_cb(poll, selector, ".z.po", 5);
 
         return option_some(NULL);
     }
 
     // extend the buffer to the next 1 byte
-    poll_rx_buf_extend(poll, selector, 1);
+    if (poll_rx_buf_extend(poll, selector, 1) == -1)
+        return option_error(err_os());
 
     return option_some(NULL);
 }
-- 
2.43.0


From 561ad06a69026169e05a03ea32fecb725f080aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:29 +0000
Subject: [PATCH 080/102] fix: a failed accept leaked its socket and closed the
 listener

---
 core/ipc.c  | 4 +++-
 core/sock.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/ipc.c b/core/ipc.c
index 7338a4a..42e7d74 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -148,8 +148,10 @@ option_t ipc_listener_accept(poll_p poll, selector_p selector) {
 
         if (poll_register(poll, &registry) == -1) {
             LOG_ERROR("Failed to register new connection in poll registry");
+            drop_obj(ctx->name);
             heap_free(ctx);
-            return option_error(err_os());
+            sock_close(fd);
+            return option_none();
         }
 
         LOG_INFO("New connection registered successfully");
diff --git a/core/sock.c b/core/sock.c
index b6bf056..8ffee5d 100644
--- a/core/sock.c
+++ b/core/sock.c
@@ -388,8 +388,10 @@ i64_t sock_accept(i64_t fd) {
         LOG_ERROR("Failed to accept connection: %s", strerror(errno));
         return -1;
     }
-    if (sock_set_nonblocking(acc_fd, B8_TRUE) == -1)
+    if (sock_set_nonblocking(acc_fd, B8_TRUE) == -1) {
+        close(acc_fd);
         return -1;
+    }
 
     linger_opt.l_onoff = 1;   // Enable SO_LINGER
     linger_opt.l_linger = 0;  // Timeout in seconds (0 means terminate immediately)
-- 
2.43.0


From 46adb08a23c4e43c05efe3c74056d769a3742dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:38 +0000
Subject: [PATCH 081/102] fix: hopen leaked its socket on failure and its
 connections could not be written or pushed to

---
 core/ipc.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/core/ipc.c b/core/ipc.c
index 42e7d74..603380f 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -243,11 +243,11 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
     if (fd == -1)
         return -1;
 
-    if (sock_send(fd, buf, 2) == -1)
-        return -1;
-
-    if (sock_recv(fd, buf, 1) == -1)
+    // the socket is blocking: nothing transferred means that the timeout has expired
+    if (sock_send(fd, buf, 2) != 2 || sock_recv(fd, buf, 1) != 1) {
+        sock_close(fd);
         return -1;
+    }
 
     LOG_TRACE("Setting socket to non-blocking mode");
     sock_set_nonblocking(fd, B8_TRUE);
@@ -255,20 +255,29 @@ i64_t ipc_open(poll_p poll, sock_addr_t *addr, i64_t timeout) {
 
     ctx = (ipc_ctx_p)heap_alloc(sizeof(struct ipc_ctx_t));
     ctx->name = string_from_str("ipc", 4);
+    ctx->msgtype = MSG_TYPE_RESP;
 
     registry.fd = fd;
     registry.type = SELECTOR_TYPE_SOCKET;
-    registry.events = POLL_EVENT_READ | POLL_EVENT_ERROR | POLL_EVENT_HUP;
+    registry.events =
+        POLL_EVENT_READ | POLL_EVENT_WRITE | POLL_EVENT_ERROR | POLL_EVENT_HUP | POLL_EVENT_RDHUP | POLL_EVENT_EDGE;
     registry.recv_fn = sock_recv;
     registry.send_fn = sock_send;
     registry.read_fn = ipc_read_header;
     registry.close_fn = ipc_on_close;
     registry.error_fn = ipc_on_error;
+    registry.data_fn = ipc_on_data;
     registry.data = ctx;
 
     LOG_DEBUG("Registering connection in poll registry");
     id = poll_register(poll, &registry);
     LOG_DEBUG("Connection registered in poll registry with id %lld", id);
+    if (id == -1) {
+        drop_obj(ctx->name);
+        heap_free(ctx);
+        sock_close(fd);
+        return -1;
+    }
 
     // request rx buffer
     selector = poll_get_selector(poll, id);
-- 
2.43.0


From 86a399aa683747807a7fb28041d87417b07e0f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:46 +0000
Subject: [PATCH 082/102] fix: the timeout of hopen is in milliseconds and
 covers the greeting

---
 core/sock.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/sock.c b/core/sock.c
index 8ffee5d..ba6643d 100644
--- a/core/sock.c
+++ b/core/sock.c
@@ -343,11 +343,13 @@ i64_t sock_open(sock_addr_t *addr, i64_t timeout) {
         if (fd == -1)
             continue;
 
-        // Set timeout
-        tm.tv_sec = timeout;  // Timeout in seconds
-        tm.tv_usec = 0;       // Timeout in microseconds
-        if (setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tm, sizeof(tm)) < 0) {
+        // Set timeout (in milliseconds)
+        tm.tv_sec = timeout / 1000;
+        tm.tv_usec = (timeout % 1000) * 1000;
+        if (setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tm, sizeof(tm)) < 0 ||
+            setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tm, sizeof(tm)) < 0) {
             close(fd);
+            fd = -1;
             continue;
         }
 
@@ -356,6 +358,7 @@ i64_t sock_open(sock_addr_t *addr, i64_t timeout) {
         linger_opt.l_linger = 0;  // Timeout in seconds (0 means terminate immediately)
         if (setsockopt(fd, SOL_SOCKET, SO_LINGER, &linger_opt, sizeof(linger_opt))) {
             close(fd);
+            fd = -1;
             continue;
         }
 
-- 
2.43.0


From fe390a9039688a7eb1a6d204f40c4c4717a1811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:55 +0000
Subject: [PATCH 083/102] fix: closing a connection threw away data already
 sent

---
 core/sock.c | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/core/sock.c b/core/sock.c
index ba6643d..aaaad39 100644
--- a/core/sock.c
+++ b/core/sock.c
@@ -317,7 +317,6 @@ i64_t sock_set_nonblocking(i64_t fd, b8_t flag) {
 i64_t sock_open(sock_addr_t *addr, i64_t timeout) {
     i64_t fd = -1;
     struct addrinfo hints, *result, *rp;
-    struct linger linger_opt;
     struct timeval tm;
     char port_str[16];
 
@@ -353,15 +352,6 @@ i64_t sock_open(sock_addr_t *addr, i64_t timeout) {
             continue;
         }
 
-        // Set the behavior of a socket when it is closed using close()
-        linger_opt.l_onoff = 1;   // Enable SO_LINGER
-        linger_opt.l_linger = 0;  // Timeout in seconds (0 means terminate immediately)
-        if (setsockopt(fd, SOL_SOCKET, SO_LINGER, &linger_opt, sizeof(linger_opt))) {
-            close(fd);
-            fd = -1;
-            continue;
-        }
-
         // Try to connect
         if (connect(fd, rp->ai_addr, rp->ai_addrlen) != -1)
             break;  // Success
@@ -382,7 +372,6 @@ i64_t sock_open(sock_addr_t *addr, i64_t timeout) {
 
 i64_t sock_accept(i64_t fd) {
     struct sockaddr_in addr;
-    struct linger linger_opt;
     socklen_t len = sizeof(addr);
     i64_t acc_fd;
 
@@ -396,16 +385,6 @@ i64_t sock_accept(i64_t fd) {
         return -1;
     }
 
-    linger_opt.l_onoff = 1;   // Enable SO_LINGER
-    linger_opt.l_linger = 0;  // Timeout in seconds (0 means terminate immediately)
-
-    // Apply the linger option to the accepted socket
-    if (setsockopt(acc_fd, SOL_SOCKET, SO_LINGER, &linger_opt, sizeof(linger_opt)) < 0) {
-        LOG_ERROR("Failed to set SO_LINGER on accepted socket: %s", strerror(errno));
-        close(acc_fd);
-        return -1;
-    }
-
     LOG_DEBUG("Accepted new connection on fd %lld from %s:%d", acc_fd, inet_ntoa(addr.sin_addr), ntohs(addr.sin_port));
     return acc_fd;
 }
-- 
2.43.0


From b2e363a697e78ef6402f571be3dcbb4bec0d22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:04 +0000
Subject: [PATCH 084/102] fix: waiting for a response neither sent the rest of
 the request nor outlived three seconds

---
 core/epoll.c | 70 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 31 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index 4027d70..a390c08 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -25,6 +25,7 @@
 #include <errno.h>
 #include <signal.h>
 #include <sys/eventfd.h>
+#include <sys/poll.h>
 #include <fcntl.h>
 #include "poll.h"
 #include "heap.h"
@@ -439,49 +440,56 @@ i64_t poll_run(poll_p poll) {
     return poll->code;
 }
 
+static i32_t poll_fds(struct pollfd *fds, i64_t n) { return poll(fds, n, -1); }
+
 option_t poll_block_on(poll_p poll, selector_p selector) {
     option_t result;
-    fd_set readfds;
-    struct timeval timeout;
-    i64_t nbytes, ret;
+    struct pollfd fds[2];
+    i64_t nbytes;
 
     LOG_TRACE("Blocking on selector id: %lld, fd: %lld", selector->id, selector->fd);
 
-    // Perform the read operation
-    while (selector->rx.buf != NULL) {
-        // Setup select (must be done each iteration as select modifies these)
-        FD_ZERO(&readfds);
-        FD_SET(selector->fd, &readfds);
-        timeout.tv_sec = 3;
-        timeout.tv_usec = 0;
-
-        // Wait for the file descriptor to become readable
-        ret = select(selector->fd + 1, &readfds, NULL, NULL, &timeout);
-        if (ret == -1) {
-            LOG_ERROR("select failed");
+    while (selector->fd != -1 && selector->rx.buf != NULL) {
+        // a request that is not sent yet has to go on while its response is awaited
+        fds[0].fd = selector->fd;
+        fds[0].events = selector->tx.buf != NULL ? POLLIN | POLLOUT : POLLIN;
+        fds[1].fd = __EVENT_FD;
+        fds[1].events = POLLIN;
+
+        if (poll_fds(fds, 2) == -1) {
+            if (errno == EINTR)
+                continue;
+
+            LOG_ERROR("poll failed");
             return option_error(err_os());
         }
 
-        LOG_TRACE("select returned %lld", ret);
+        // interrupted: the response, if it ever comes, would be taken for the one to the next request
+        if (fds[1].revents != 0) {
+            poll_deregister(poll, selector->id);
+            return option_error(err_os());
+        }
 
-        if (ret == 0)
+        if ((fds[0].revents & POLLOUT) && selector->tx.buf != NULL && poll_send(poll, selector) == -1) {
+            poll_deregister(poll, selector->id);
             return option_error(err_os());
+        }
 
-        // In case we have a low level IO recv function, use it
-        if (selector->rx.buf != NULL && selector->rx.recv_fn != NULL) {
-            nbytes = poll_recv(poll, selector);
+        if ((fds[0].revents & ~POLLOUT) == 0)
+            continue;
 
-            if (nbytes == -1) {
-                poll_deregister(poll, selector->id);
-                return option_error(err_os());
-            }
+        nbytes = poll_recv(poll, selector);
 
-            if (nbytes == 0)
-                return option_none();
+        if (nbytes == -1) {
+            poll_deregister(poll, selector->id);
+            return option_error(err_os());
         }
 
-        if (selector->rx.read_fn != NULL)
-            result = selector->rx.read_fn(poll, selector);
+        // the rest has not arrived yet
+        if (nbytes == 0)
+            continue;
+
+        result = selector->rx.read_fn(poll, selector);
 
         if (option_is_error(&result)) {
             poll_deregister(poll, selector->id);
@@ -492,7 +500,7 @@ option_t poll_block_on(poll_p poll, selector_p selector) {
             return result;
     }
 
-    LOG_DEBUG("empty buffer");
+    LOG_DEBUG("connection closed");
 
-    return option_none();
-}
\ No newline at end of file
+    return option_error(err_os());
+}
-- 
2.43.0


From de03aa553a2b92d5add973e78566d570ae7b21e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:14 +0000
Subject: [PATCH 085/102] fix: messages received while waiting for a response
 were freed twice and not answered

---
 core/ipc.c | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/core/ipc.c b/core/ipc.c
index 603380f..6346840 100644
--- a/core/ipc.c
+++ b/core/ipc.c
@@ -530,44 +530,42 @@ obj_p ipc_send(poll_p poll, i64_t id, obj_p msg, u8_t msgtype) {
     selector_p selector;
     option_t result;
     obj_p res;
-    ipc_ctx_p ctx;
 
     LOG_DEBUG("Starting synchronous IPC send for id %lld", id);
 
     selector = poll_get_selector(poll, id);
-    if (selector == NULL) {
+    if (selector == NULL || selector->tx.send_fn == NULL) {
         LOG_ERROR("Invalid selector for fd %lld", id);
         return err_os();
     }
 
-    ctx = (ipc_ctx_p)selector->data;
+    poll_enter(poll);
     ipc_send_msg(poll, selector, msg, msgtype);
 
     res = NULL_OBJ;
 
     // wait for the response
-    if (msgtype == MSG_TYPE_SYNC) {
-        do {
-            LOG_DEBUG("Waiting for response from connection %lld", selector->id);
-            result = poll_block_on(poll, selector);
-            LOG_DEBUG("Response received from connection %lld RESULT: %s", selector->id,
-                      option_is_some(&result) ? "some" : "none");
-            if (option_is_some(&result) && result.value != NULL) {
-                res = option_take(&result);
-                // If the message is a response, break the loop
-                if (ctx->msgtype == MSG_TYPE_RESP)
-                    break;
-
-                // Process the request otherwise
-                res = ipc_process_msg(poll, selector, res);
-                drop_obj(res);
-            } else if (option_is_error(&result)) {
-                LOG_ERROR("Error occurred on connection %lld", selector->id);
-                return option_take(&result);
-            }
-        } while (option_is_none(&result));
+    while (msgtype == MSG_TYPE_SYNC) {
+        LOG_DEBUG("Waiting for response from connection %lld", selector->id);
+        result = poll_block_on(poll, selector);
+        res = (obj_p)option_take(&result);
+
+        if (option_is_error(&result)) {
+            LOG_ERROR("Error occurred on connection %lld", selector->id);
+            break;
+        }
+
+        // If the message is a response, break the loop
+        if (((ipc_ctx_p)selector->data)->msgtype == MSG_TYPE_RESP)
+            break;
+
+        // Process (and answer) the request otherwise
+        ipc_on_data(poll, selector, res);
+        res = NULL_OBJ;
     }
 
+    poll_leave(poll);
+
     return res;
 }
 
-- 
2.43.0


From a2f66957e5285fa116f1a101ac8d8079f0d58aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:52 +0000
Subject: [PATCH 086/102] fix: hclose dropped what was still queued for sending

---
 core/epoll.c |  5 +----
 core/io.c    |  3 +++
 core/poll.c  | 30 ++++++++++++++++++++++++++++++
 core/poll.h  |  2 ++
 4 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index a390c08..a89cf33 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -25,7 +25,6 @@
 #include <errno.h>
 #include <signal.h>
 #include <sys/eventfd.h>
-#include <sys/poll.h>
 #include <fcntl.h>
 #include "poll.h"
 #include "heap.h"
@@ -440,8 +439,6 @@ i64_t poll_run(poll_p poll) {
     return poll->code;
 }
 
-static i32_t poll_fds(struct pollfd *fds, i64_t n) { return poll(fds, n, -1); }
-
 option_t poll_block_on(poll_p poll, selector_p selector) {
     option_t result;
     struct pollfd fds[2];
@@ -456,7 +453,7 @@ option_t poll_block_on(poll_p poll, selector_p selector) {
         fds[1].fd = __EVENT_FD;
         fds[1].events = POLLIN;
 
-        if (poll_fds(fds, 2) == -1) {
+        if (poll_fds(fds, 2, -1) == -1) {
             if (errno == EINTR)
                 continue;
 
diff --git a/core/io.c b/core/io.c
index 7611530..3ea23b6 100644
--- a/core/io.c
+++ b/core/io.c
@@ -249,6 +249,9 @@ obj_p ray_hclose(obj_p x) {
             fs_fclose(x->i32);
             return NULL_OBJ;
         case -TYPE_I64:
+#if !defined(OS_WINDOWS) && !defined(OS_WASM)
+            poll_flush(runtime_get()->poll, x->i64);
+#endif
             poll_deregister(runtime_get()->poll, x->i64);
             return NULL_OBJ;
         default:
diff --git a/core/poll.c b/core/poll.c
index 4fc1d08..4dc33ce 100644
--- a/core/poll.c
+++ b/core/poll.c
@@ -25,6 +25,13 @@
 #include "binary.h"
 #include "log.h"
 
+#if !defined(OS_WINDOWS) && !defined(OS_WASM)
+#include <errno.h>
+#include <sys/poll.h>
+
+static i32_t poll_fds(struct pollfd *fds, i64_t n, i32_t timeout) { return poll(fds, n, timeout); }
+#endif
+
 #if defined(OS_WINDOWS)
 #include "iocp.c"
 #elif defined(OS_MACOS)
@@ -165,6 +172,29 @@ i64_t poll_send_buf(poll_p poll, selector_p selector, poll_buffer_p buf) {
     return poll_send(poll, selector);
 }
 
+// Before a connection is closed: send what is queued for it, as long as the peer takes it
+nil_t poll_flush(poll_p poll, i64_t id) {
+    selector_p selector;
+    struct pollfd fd;
+    i32_t n;
+
+    selector = poll_get_selector(poll, id);
+    if (selector == NULL)
+        return;
+
+    while (selector->tx.buf != NULL) {
+        fd.fd = selector->fd;
+        fd.events = POLLOUT;
+        n = poll_fds(&fd, 1, POLL_FLUSH_TIMEOUT);
+
+        if (n == -1 && errno == EINTR)
+            continue;
+
+        if (n <= 0 || poll_send(poll, selector) == -1)
+            break;
+    }
+}
+
 #endif  // !OS_WINDOWS
 
 nil_t poll_exit(poll_p poll, i64_t code) { poll->code = code; }
diff --git a/core/poll.h b/core/poll.h
index 736b8d6..7021e17 100644
--- a/core/poll.h
+++ b/core/poll.h
@@ -44,6 +44,7 @@ typedef struct repl_t *repl_p;
 #define MAX_EVENTS 1024
 #define BUF_SIZE 2048
 #define TX_QUEUE_SIZE 16
+#define POLL_FLUSH_TIMEOUT 1000  // milliseconds without progress before queued data is given up
 #define SELECTOR_ID_OFFSET 3  // shifts all selector ids by 2 to avoid 0, 1, 2 ids (stdin, stdout, stderr)
 
 // Forward declarations
@@ -266,6 +267,7 @@ i64_t poll_rx_buf_extend(poll_p poll, selector_p selector, i64_t size);
 i64_t poll_rx_buf_release(poll_p poll, selector_p selector);
 i64_t poll_rx_buf_reset(poll_p poll, selector_p selector);
 i64_t poll_send_buf(poll_p poll, selector_p selector, poll_buffer_p buf);
+nil_t poll_flush(poll_p poll, i64_t id);
 option_t poll_block_on(poll_p poll, selector_p selector);
 nil_t poll_exit(poll_p poll, i64_t code);
 nil_t poll_set_usr_fd(i64_t fd);
-- 
2.43.0


From 1f2591e066dd8f025150ad3d8149a34789b6175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:01 +0000
Subject: [PATCH 087/102] fix: a closed connection was read forever when errno
 still held EINTR

---
 core/epoll.c | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/core/epoll.c b/core/epoll.c
index a89cf33..66019a0 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -231,20 +231,13 @@ i64_t poll_recv(poll_p poll, selector_p selector) {
 
         LOG_TRACE("Received %lld bytes from selector %lld", size, selector->id);
 
-        if (size == -1) {
-            if (errno == EINTR)
-                continue;
-
+        // closed or failed (errno says nothing here: it may be that of an earlier call)
+        if (size == -1)
             return -1;
-        }
-
-        if (size == 0) {
-            // closed
-            if (errno != EAGAIN && errno != EWOULDBLOCK)
-                return -1;
 
+        // nothing more for now
+        if (size == 0)
             return 0;
-        }
 
         selector->rx.buf->offset += size;
     }
@@ -273,20 +266,13 @@ send_loop:
 
         LOG_TRACE("Sent %lld bytes to selector %lld", size, selector->id);
 
-        if (size == -1) {
-            if (errno == EINTR)
-                continue;
-
+        // closed or failed (errno says nothing here: it may be that of an earlier call)
+        if (size == -1)
             return -1;
-        }
-
-        if (size == 0) {
-            // closed
-            if (errno != EAGAIN && errno != EWOULDBLOCK)
-                return -1;
 
+        // nothing more for now
+        if (size == 0)
             return 0;
-        }
 
         selector->tx.buf->offset += size;
     }
-- 
2.43.0


From 4fcd5a624a6795516e014b8782d7e910288953a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:17 +0000
Subject: [PATCH 088/102] fix: a connection closed by its own .z.po had no
 message to drop

---
 core/epoll.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/epoll.c b/core/epoll.c
index 66019a0..1da5927 100644
--- a/core/epoll.c
+++ b/core/epoll.c
@@ -367,7 +367,8 @@ i64_t poll_run(poll_p poll) {
                         poll_result = selector->rx.read_fn(poll, selector);
 
                     if (selector->fd == -1) {
-                        drop_obj((obj_p)option_take(&poll_result));
+                        if (poll_result.value != NULL)
+                            drop_obj((obj_p)option_take(&poll_result));
                         goto next_event;
                     }
 
-- 
2.43.0


From 35e58871fc4217f05652c3e1de55d38ab902e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 089/102] fix: map, fold and scan of a builtin changed the
 vectors inside their arguments in place

---
 core/iter.c | 188 +++++++++++++++++++++++-----------------------------
 1 file changed, 84 insertions(+), 104 deletions(-)

diff --git a/core/iter.c b/core/iter.c
index 274d5cc..eef4a93 100644
--- a/core/iter.c
+++ b/core/iter.c
@@ -43,36 +43,14 @@ static obj_p concat_parts(obj_p parts) {
     return res;
 }
 
+// Functions may reuse an argument which nobody else refers to for their result:
+// the elements of a list are given to them as references of their own.
 obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
     i64_t i, l;
-    obj_p res, item, a, *v;
+    obj_p res, item, a;
 
     switch (x->type) {
         case TYPE_LIST:
-            l = ops_count(x);
-            if (l == 0)
-                return NULL_OBJ;
-
-            v = AS_LIST(x);
-            item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[0]) : fn(v[0]);
-
-            if (IS_ERR(item))
-                return item;
-
-            res = (item->type < 0) ? vector(item->type, l) : LIST(l);
-            ins_obj(&res, 0, item);
-
-            for (i = 1; i < l; i++) {
-                item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[i]) : fn(v[i]);
-                if (IS_ERR(item)) {
-                    res->len = i;
-                    drop_obj(res);
-                    return item;
-                }
-                ins_obj(&res, i, item);
-            }
-            return res;
-
         case TYPE_MAPLIST:
             l = ops_count(x);
             if (l == 0)
@@ -108,12 +86,14 @@ obj_p map_unary_fn(unary_f fn, i64_t attrs, obj_p x) {
 
 obj_p map_unary_range(unary_f fn, i64_t attrs, obj_p *v, i64_t start, i64_t end) {
     i64_t i, l = end - start;
-    obj_p res, item;
+    obj_p res, item, a;
 
     if (l == 0)
         return NULL_OBJ;
 
-    item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[start]) : fn(v[start]);
+    a = clone_obj(v[start]);
+    item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+    drop_obj(a);
     if (IS_ERR(item))
         return item;
 
@@ -121,7 +101,9 @@ obj_p map_unary_range(unary_f fn, i64_t attrs, obj_p *v, i64_t start, i64_t end)
     ins_obj(&res, 0, item);
 
     for (i = 1; i < l; i++) {
-        item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, v[start + i]) : fn(v[start + i]);
+        a = clone_obj(v[start + i]);
+        item = (attrs & FN_ATOMIC) ? map_unary_fn(fn, attrs, a) : fn(a);
+        drop_obj(a);
         if (IS_ERR(item)) {
             res->len = i;
             drop_obj(res);
@@ -227,7 +209,16 @@ obj_p map_binary_left_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
     }
 }
 
-obj_p map_binary_left(obj_p f, obj_p x, obj_p y) { return map_binary_left_fn((binary_f)f->i64, f->attrs, x, y); }
+obj_p map_binary_left(obj_p f, obj_p x, obj_p y) {
+    obj_p res;
+
+    // every call gets the same y
+    clone_obj(y);
+    res = map_binary_left_fn((binary_f)f->i64, f->attrs, x, y);
+    drop_obj(y);
+
+    return res;
+}
 
 obj_p map_binary_right_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
     i64_t i, l;
@@ -285,7 +276,16 @@ obj_p map_binary_right_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
     }
 }
 
-obj_p map_binary_right(obj_p f, obj_p x, obj_p y) { return map_binary_right_fn((binary_f)f->i64, f->attrs, x, y); }
+obj_p map_binary_right(obj_p f, obj_p x, obj_p y) {
+    obj_p res;
+
+    // every call gets the same x
+    clone_obj(x);
+    res = map_binary_right_fn((binary_f)f->i64, f->attrs, x, y);
+    drop_obj(x);
+
+    return res;
+}
 
 obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
     i64_t i, l;
@@ -307,14 +307,12 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         if (l == 0)
             return fn(x, y);
 
-        a = xt == TYPE_LIST ? AS_LIST(x)[0] : at_idx(x, 0);
-        b = yt == TYPE_LIST ? AS_LIST(y)[0] : at_idx(y, 0);
+        a = at_idx(x, 0);
+        b = at_idx(y, 0);
         item = map_binary_fn(fn, attrs, a, b);
 
-        if (xt != TYPE_LIST)
-            drop_obj(a);
-        if (yt != TYPE_LIST)
-            drop_obj(b);
+        drop_obj(a);
+        drop_obj(b);
 
         if (IS_ERR(item))
             return item;
@@ -324,14 +322,12 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            a = xt == TYPE_LIST ? AS_LIST(x)[i] : at_idx(x, i);
-            b = yt == TYPE_LIST ? AS_LIST(y)[i] : at_idx(y, i);
+            a = at_idx(x, i);
+            b = at_idx(y, i);
             item = map_binary_fn(fn, attrs, a, b);
 
-            if (xt != TYPE_LIST)
-                drop_obj(a);
-            if (yt != TYPE_LIST)
-                drop_obj(b);
+            drop_obj(a);
+            drop_obj(b);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -349,10 +345,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
             return fn(x, y);
         }
 
-        a = xt == TYPE_LIST ? AS_LIST(x)[0] : at_idx(x, 0);
+        a = at_idx(x, 0);
         item = map_binary_fn(fn, attrs, a, y);
-        if (xt != TYPE_LIST)
-            drop_obj(a);
+        drop_obj(a);
 
         if (IS_ERR(item))
             return item;
@@ -362,10 +357,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            a = xt == TYPE_LIST ? AS_LIST(x)[i] : at_idx(x, i);
+            a = at_idx(x, i);
             item = map_binary_fn(fn, attrs, a, y);
-            if (xt != TYPE_LIST)
-                drop_obj(a);
+            drop_obj(a);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -382,10 +376,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         if (l == 0)
             return fn(x, y);
 
-        b = yt == TYPE_LIST ? AS_LIST(y)[0] : at_idx(y, 0);
+        b = at_idx(y, 0);
         item = map_binary_fn(fn, attrs, x, b);
-        if (yt != TYPE_LIST)
-            drop_obj(b);
+        drop_obj(b);
 
         if (IS_ERR(item))
             return item;
@@ -395,10 +388,9 @@ obj_p map_binary_fn(binary_f fn, i64_t attrs, obj_p x, obj_p y) {
         ins_obj(&res, 0, item);
 
         for (i = 1; i < l; i++) {
-            b = yt == TYPE_LIST ? AS_LIST(y)[i] : at_idx(y, i);
+            b = at_idx(y, i);
             item = map_binary_fn(fn, attrs, x, b);
-            if (yt != TYPE_LIST)
-                drop_obj(b);
+            drop_obj(b);
 
             if (IS_ERR(item)) {
                 res->len = i;
@@ -896,27 +888,23 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x1 = at_idx(x[0], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x1, x2);
 
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x1 = at_idx(x[0], i);
+                    x2 = at_idx(x[1], i);
                     v = fold_step(f, v, x2);  // Use accumulated value as first argument
 
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x1);
+                    drop_obj(x2);
 
                     if (IS_ERR(v))
                         return v;
@@ -928,19 +916,17 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return clone_obj(x[1]);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
+                x1 = at_idx(x[0], 0);
                 v = binary_call(f, x1, x[1]);
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
+                drop_obj(x1);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
+                    x1 = at_idx(x[0], i);
                     v = fold_step(f, v, x1);  // Use accumulated value as first argument
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
+                    drop_obj(x1);
 
                     if (IS_ERR(v))
                         return v;
@@ -952,19 +938,17 @@ obj_p ray_fold(obj_p *x, i64_t n) {
                 if (l == 0)
                     return clone_obj(x[0]);
 
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x[0], x2);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
 
                 for (i = 1; i < l; i++) {
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x2 = at_idx(x[1], i);
                     v = fold_step(f, v, x2);  // Use accumulated value as first argument
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x2);
 
                     if (IS_ERR(v))
                         return v;
@@ -1282,14 +1266,12 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x1 = at_idx(x[0], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x1, x2);
 
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x1);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1298,14 +1280,12 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
+                    x1 = at_idx(x[0], i);
+                    x2 = at_idx(x[1], i);
                     v = binary_call(f, x1, x2);
 
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    drop_obj(x1);
+                    drop_obj(x2);
 
                     if (IS_ERR(v)) {
                         res->len = i;
@@ -1324,10 +1304,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x1 = xt == TYPE_LIST ? AS_LIST(x[0])[0] : at_idx(x[0], 0);
+                x1 = at_idx(x[0], 0);
                 v = binary_call(f, x1, x[1]);
-                if (xt != TYPE_LIST)
-                    drop_obj(x1);
+                drop_obj(x1);
 
                 if (IS_ERR(v))
                     return v;
@@ -1336,10 +1315,11 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x1 = xt == TYPE_LIST ? AS_LIST(x[0])[i] : at_idx(x[0], i);
-                    v = binary_call(f, x1, v);
-                    if (xt != TYPE_LIST)
-                        drop_obj(x1);
+                    x1 = at_idx(x[0], i);
+                    x2 = clone_obj(v);  // the result list refers to it
+                    v = binary_call(f, x1, x2);
+                    drop_obj(x1);
+                    drop_obj(x2);
 
                     if (IS_ERR(v)) {
                         res->len = i;
@@ -1358,10 +1338,9 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 if (l == 0)
                     return LIST(0);
 
-                x2 = yt == TYPE_LIST ? AS_LIST(x[1])[0] : at_idx(x[1], 0);
+                x2 = at_idx(x[1], 0);
                 v = binary_call(f, x[0], x2);
-                if (yt != TYPE_LIST)
-                    drop_obj(x2);
+                drop_obj(x2);
 
                 if (IS_ERR(v))
                     return v;
@@ -1370,10 +1349,11 @@ obj_p ray_scan(obj_p *x, i64_t n) {
                 ins_obj(&res, 0, v);
 
                 for (i = 1; i < l; i++) {
-                    x2 = yt == TYPE_LIST ? AS_LIST(x[1])[i] : at_idx(x[1], i);
-                    v = binary_call(f, v, x2);
-                    if (yt != TYPE_LIST)
-                        drop_obj(x2);
+                    x2 = at_idx(x[1], i);
+                    x1 = clone_obj(v);  // the result list refers to it
+                    v = binary_call(f, x1, x2);
+                    drop_obj(x1);
+                    drop_obj(x2);
 
                     if (IS_ERR(v)) {
                         res->len = i;
-- 
2.43.0


From 6061e05f65a3336a90a590c8d1d226c10c6da7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:29 +0000
Subject: [PATCH 090/102] fix: select by an expression holding a dict took its
 keys for the group columns

---
 core/query.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/query.c b/core/query.c
index d2dee77..3b3bb01 100644
--- a/core/query.c
+++ b/core/query.c
@@ -181,6 +181,9 @@ obj_p get_gkeys(obj_p cols, obj_p obj) {
         case TYPE_LIST:
             l = obj->len;
             for (i = 0; i < l; i++) {
+                // A dict within an expression is just its argument
+                if (AS_LIST(obj)[i]->type == TYPE_DICT)
+                    continue;
                 x = get_gkeys(cols, AS_LIST(obj)[i]);
                 if (x != NULL_OBJ)
                     return x;
-- 
2.43.0


From 1232cf4ead4e3f729deb3f967b0ad03c09f533fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:40 +0000
Subject: [PATCH 091/102] fix: alter and modify of nested values changed shared
 values, put errors into them or used freed ones

---
 core/rayforce.c |   7 ++
 core/update.c   | 176 ++++++++++++++++++++++--------------------------
 2 files changed, 87 insertions(+), 96 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 656f730..27cff4e 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -3207,6 +3207,13 @@ obj_p copy_obj(obj_p obj) {
             return table(copy_obj(AS_LIST(obj)[0]), copy_obj(AS_LIST(obj)[1]));
         case TYPE_DICT:
             return dict(copy_obj(AS_LIST(obj)[0]), copy_obj(AS_LIST(obj)[1]));
+        // have no parts to modify
+        case TYPE_NULL:
+        case TYPE_LAMBDA:
+        case TYPE_UNARY:
+        case TYPE_BINARY:
+        case TYPE_VARY:
+            return clone_obj(obj);
         default:
             return err_nyi(obj->type);
     }
diff --git a/core/update.c b/core/update.c
index 6cab09f..62e477f 100644
--- a/core/update.c
+++ b/core/update.c
@@ -293,23 +293,26 @@ b8_t __given(obj_p input, obj_p table, i64_t i) {
     return __find_symbol_idx(AS_LIST(input)[0], AS_I64(AS_LIST(table)[0])[i]) != NULL_I64;
 }
 
-// Makes the i-th column of the table safe to modify
-obj_p *__own_column(obj_p table, i64_t i) {
-    obj_p col, *p;
+// Makes a part of an object safe to modify
+obj_p *__own_obj(obj_p *p) {
+    obj_p obj;
 
-    p = AS_LIST(AS_LIST(table)[1]) + i;
-    col = cow_obj(*p);
-    if (col != *p) {
+    obj = cow_obj(*p);
+    if (obj != *p) {
         drop_obj(*p);
-        *p = col;
+        *p = obj;
     }
 
     return p;
 }
 
+// Makes the i-th column of the table safe to modify
+obj_p *__own_column(obj_p table, i64_t i) { return __own_obj(AS_LIST(AS_LIST(table)[1]) + i); }
+
+// The place of an element of a list, or of the values of a dict if they are a list
 obj_p *at_obj_ref(obj_p obj, obj_p idx) {
     i64_t j;
-    obj_p v, *p;
+    obj_p *p;
 
     switch (MTYPE2(obj->type, idx->type)) {
         case MTYPE2(TYPE_LIST, -TYPE_I64):
@@ -319,59 +322,21 @@ obj_p *at_obj_ref(obj_p obj, obj_p idx) {
             p = &AS_LIST(obj)[idx->i64];
             break;
         default:
-            if (obj->type != TYPE_DICT)
+            if (obj->type != TYPE_DICT || AS_LIST(obj)[1]->type != TYPE_LIST)
                 return NULL;
 
             j = find_obj_idx(AS_LIST(obj)[0], idx);
             if (j == NULL_I64)
                 return NULL;
 
-            if (AS_LIST(obj)[1]->type != TYPE_LIST)
-                diverse_obj(AS_LIST(obj) + 1);
-
-            p = AS_LIST(AS_LIST(obj)[1]) + j;
+            // the values may be shared with another object
+            p = __own_obj(AS_LIST(obj) + 1);
+            p = AS_LIST(*p) + j;
             break;
     }
 
     // the element may be shared with another object
-    v = cow_obj(*p);
-    if (v != *p) {
-        drop_obj(*p);
-        *p = v;
-    }
-
-    return p;
-}
-
-obj_p dot_obj(obj_p obj, obj_p idx) {
-    i64_t i, l;
-    obj_p *ref;
-
-    switch (idx->type) {
-        case TYPE_NULL:
-            return obj;
-        case TYPE_LIST:
-            l = idx->len;
-            if (l < 2)
-                return err_value(0);
-
-            l--;  // skip last element
-
-            for (i = 0; i < l; i++) {
-                obj = cow_obj(obj);
-                obj = dot_obj(obj, AS_LIST(idx)[i]);
-                if (obj == NULL)
-                    return err_value(0);
-            }
-
-            return obj;
-
-        default:
-            ref = at_obj_ref(cow_obj(obj), idx);
-            if (ref == NULL)
-                return err_value(0);
-            return *ref;
-    }
+    return __own_obj(p);
 }
 
 obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
@@ -386,6 +351,24 @@ obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
         if (idx->type == TYPE_NULL)
             return push_obj(obj, clone_obj(val));
 
+        // The elements of a vector are not objects: add to one of them, then put it back
+        if ((*obj)->type == TYPE_DICT && AS_LIST(*obj)[1]->type != TYPE_LIST) {
+            if (find_obj_idx(AS_LIST(*obj)[0], idx) == NULL_I64)
+                return err_value(0);
+
+            v = at_obj(*obj, idx);
+            if (IS_ERR(v))
+                return v;
+
+            res = push_obj(&v, clone_obj(val));
+            if (IS_ERR(res)) {
+                drop_obj(v);
+                return res;
+            }
+
+            return set_obj(obj, idx, v);
+        }
+
         p = at_obj_ref(*obj, idx);
         if (p == NULL)
             return err_value(0);
@@ -418,11 +401,38 @@ obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
     return set_obj(obj, idx, res);
 }
 
-obj_p ray_alter(obj_p *x, i64_t n) {
-    obj_p obj, orig, hold = NULL_OBJ, res, val, *cur = NULL;
+// Alters the element of obj at the given path, starting from its i-th step
+obj_p __modify(obj_p *obj, obj_p func, obj_p path, i64_t i, obj_p val) {
+    obj_p *ref;
 
-    if (n < 3)
-        return err_arity(3, n, 0);
+    if (path->type != TYPE_LIST)
+        return __alter(obj, func, path, val);
+
+    if (i >= path->len)
+        return __alter(obj, func, NULL_OBJ, val);
+
+    if (i == path->len - 1)
+        return __alter(obj, func, AS_LIST(path)[i], val);
+
+    ref = at_obj_ref(*obj, AS_LIST(path)[i]);
+    if (ref == NULL)
+        return err_value(0);
+
+    return __modify(ref, func, path, i + 1, val);
+}
+
+// Whether a call of the function can not run any other code
+b8_t __is_pure(obj_p func) {
+    if (func->type != TYPE_BINARY)
+        return B8_FALSE;
+
+    return (func->attrs & FN_ATOMIC) || func->i64 == (i64_t)ray_set || func->i64 == (i64_t)ray_let ||
+           func->i64 == (i64_t)ray_concat || func->i64 == (i64_t)ray_remove;
+}
+
+// deep: idx is a path of indices if it is a list
+obj_p __alter_at(obj_p *x, obj_p idx, obj_p arg, b8_t deep) {
+    obj_p obj, orig, hold = NULL_OBJ, res, val, *cur = NULL;
 
     if (x[1]->type < TYPE_LAMBDA || x[1]->type > TYPE_VARY)
         return err_type(0, 0, 0, 0);
@@ -432,15 +442,20 @@ obj_p ray_alter(obj_p *x, i64_t n) {
         if (cur == NULL)
             return err_value(0);
         orig = *cur;
-        // A lambda may rebind the variable: work on a copy then
-        if (x[1]->type == TYPE_LAMBDA)
+        // The function may rebind the variable: work on a copy then
+        if (!__is_pure(x[1]))
             hold = clone_obj(orig);
     } else
         orig = x[0];
 
     obj = cow_obj(orig);
+    if (IS_ERR(obj)) {
+        drop_obj(hold);
+        return (obj == orig) ? clone_obj(obj) : obj;
+    }
+
     res = obj;
-    val = (n == 4) ? __alter(&res, x[1], x[2], x[3]) : __alter(&res, x[1], NULL_OBJ, x[2]);
+    val = deep ? __modify(&res, x[1], idx, 0, arg) : __alter(&res, x[1], idx, arg);
     drop_obj(hold);
 
     if (IS_ERR(val)) {
@@ -473,49 +488,18 @@ obj_p ray_alter(obj_p *x, i64_t n) {
     return clone_obj(x[0]);
 }
 
-obj_p ray_modify(obj_p *x, i64_t n) {
-    obj_p obj, res, *cur, idx;
+obj_p ray_alter(obj_p *x, i64_t n) {
+    if (n < 3)
+        return err_arity(3, n, 0);
 
-    cur = NULL;
+    return (n == 4) ? __alter_at(x, x[2], x[3], B8_FALSE) : __alter_at(x, NULL_OBJ, x[2], B8_FALSE);
+}
 
+obj_p ray_modify(obj_p *x, i64_t n) {
     if (n < 4)
         return err_arity(4, n, 0);
 
-    if (x[1]->type < TYPE_LAMBDA || x[1]->type > TYPE_VARY)
-        return err_type(0, 0, 0, 0);
-
-    if (x[0]->type == -TYPE_SYMBOL) {
-        cur = resolve(x[0]->i64);
-        if (cur == NULL)
-            return err_value(0);
-        obj = cow_obj(*cur);
-    } else {
-        obj = cow_obj(x[0]);
-    }
-
-    res = dot_obj(obj, x[2]);
-    if (IS_ERR(res))
-        return res;
-
-    idx = ray_last(x[2]);
-    if (IS_ERR(idx))
-        return idx;
-
-    res = __alter(&res, x[1], idx, x[3]);
-    drop_obj(idx);
-
-    if (IS_ERR(res))
-        return res;
-
-    if (x[0]->type != -TYPE_SYMBOL)
-        return obj;
-
-    if (cur != NULL && (*cur) != obj) {
-        drop_obj(*cur);
-        *cur = obj;
-    }
-
-    return clone_obj(x[0]);
+    return __alter_at(x, x[2], x[3], B8_TRUE);
 }
 
 /*
-- 
2.43.0


From 24798f7329e3fc85c5194430f71ae2313e162d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:14 +0000
Subject: [PATCH 092/102] fix: alter without an index failed instead of
 applying to the whole value

---
 core/update.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/update.c b/core/update.c
index 62e477f..02ca55c 100644
--- a/core/update.c
+++ b/core/update.c
@@ -382,8 +382,8 @@ obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
     if (func->type == TYPE_BINARY && func->i64 == (i64_t)ray_remove)
         return remove_obj(obj, val);
 
-    // retrieve the object via indices
-    v = at_obj(*obj, idx);
+    // retrieve the object via indices, the whole of it if there are none
+    v = (idx->type == TYPE_NULL) ? clone_obj(*obj) : at_obj(*obj, idx);
 
     if (IS_ERR(v))
         return v;
@@ -398,6 +398,13 @@ obj_p __alter(obj_p *obj, obj_p func, obj_p idx, obj_p val) {
     if (IS_ERR(res))
         return res;
 
+    if (idx->type == TYPE_NULL) {
+        drop_obj(*obj);
+        *obj = res;
+
+        return res;
+    }
+
     return set_obj(obj, idx, res);
 }
 
-- 
2.43.0


From 994cba250a0e0bd6f917f2fb6ab5fa281e2f044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:54 +0000
Subject: [PATCH 093/102] fix: in-place operations by a name inside a query
 changed the column of that name, or the running function

---
 core/eval.c   | 43 +++++++++++++++++++++++++++++++++----------
 core/eval.h   |  2 ++
 core/update.c |  9 +++++----
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/core/eval.c b/core/eval.c
index a110e49..233a8f9 100644
--- a/core/eval.c
+++ b/core/eval.c
@@ -130,17 +130,13 @@ static obj_p *resolve_in_env(obj_p fn, obj_p env, i64_t sym, i64_t fp_offset) {
     return NULL;
 }
 
-obj_p *resolve(i64_t sym) {
-    i64_t j, frame;
+static obj_p *resolve_local(i64_t sym) {
+    i64_t frame;
     obj_p fn, *result;
-    i64_t i, n;
     vm_p vm = VM;
 
     fn = vm->fn;
 
-    if (sym == SYMBOL_SELF)
-        return &vm->fn;
-
     // Search in current lambda's env (args + let-bound locals)
     result = resolve_in_env(fn, vm->env, sym, vm->fp);
     if (result != NULL)
@@ -154,6 +150,31 @@ obj_p *resolve(i64_t sym) {
             return result;
     }
 
+    return NULL;
+}
+
+static obj_p *resolve_global(i64_t sym) {
+    i64_t j;
+
+    j = find_raw(AS_LIST(runtime_get()->env.variables)[0], &sym);
+    if (j == NULL_I64)
+        return NULL;
+
+    return &AS_LIST(AS_LIST(runtime_get()->env.variables)[1])[j];
+}
+
+obj_p *resolve(i64_t sym) {
+    i64_t i, n;
+    obj_p *result;
+    vm_p vm = VM;
+
+    if (sym == SYMBOL_SELF)
+        return &vm->fn;
+
+    result = resolve_local(sym);
+    if (result != NULL)
+        return result;
+
     // Search in query context stack (for table column access)
     for (query_ctx_p ctx = vm->query_ctx; ctx != NULL; ctx = ctx->parent) {
         if (ctx->table != NULL_OBJ) {
@@ -167,11 +188,13 @@ obj_p *resolve(i64_t sym) {
     }
 
     // Search in globals
-    j = find_raw(AS_LIST(runtime_get()->env.variables)[0], &sym);
-    if (j == NULL_I64)
-        return NULL;
+    return resolve_global(sym);
+}
 
-    return &AS_LIST(AS_LIST(runtime_get()->env.variables)[1])[j];
+obj_p *resolve_var(i64_t sym) {
+    obj_p *result = resolve_local(sym);
+
+    return (result != NULL) ? result : resolve_global(sym);
 }
 
 obj_p amend(obj_p sym, obj_p val) {
diff --git a/core/eval.h b/core/eval.h
index cb82526..3e29169 100644
--- a/core/eval.h
+++ b/core/eval.h
@@ -124,6 +124,8 @@ obj_p call(obj_p obj, i64_t arity);  // Call a compiled lambda
 
 // Symbol resolution
 obj_p *resolve(i64_t sym);
+// Variable which can be modified by its name: neither a column of the current query nor the running function
+obj_p *resolve_var(i64_t sym);
 obj_p amend(obj_p sym, obj_p val);
 
 // Special forms
diff --git a/core/update.c b/core/update.c
index 02ca55c..6a9005d 100644
--- a/core/update.c
+++ b/core/update.c
@@ -52,7 +52,7 @@ obj_p __fetch(obj_p obj, obj_p **val, obj_p *original) {
     obj_p part;
 
     if (obj->type == -TYPE_SYMBOL) {
-        *val = resolve(obj->i64);
+        *val = resolve_var(obj->i64);
         if (*val == NULL)
             return err_value(0);
 
@@ -445,7 +445,7 @@ obj_p __alter_at(obj_p *x, obj_p idx, obj_p arg, b8_t deep) {
         return err_type(0, 0, 0, 0);
 
     if (x[0]->type == -TYPE_SYMBOL) {
-        cur = resolve(x[0]->i64);
+        cur = resolve_var(x[0]->i64);
         if (cur == NULL)
             return err_value(0);
         orig = *cur;
@@ -482,7 +482,7 @@ obj_p __alter_at(obj_p *x, obj_p idx, obj_p arg, b8_t deep) {
     }
 
     if (obj != orig) {
-        cur = resolve(x[0]->i64);
+        cur = resolve_var(x[0]->i64);
         if (cur == NULL) {
             drop_obj(res);
             return err_value(0);
@@ -960,10 +960,11 @@ obj_p ray_update(obj_p obj) {
     if (ctx.table != tab)
         drop_obj(ctx.table);
     ctx.table = NULL_OBJ;
-    drop_obj(tab);
 
     query_ctx_destroy(&ctx);
 
+    drop_obj(tab);
+
     // This one will take care of dropping all the arguments
     return __update_table(tabsym, keys, vals, filters, gids);
 
-- 
2.43.0


From 734555dc959c34e23fd3ab14681c1ab0601afd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:03 +0000
Subject: [PATCH 094/102] fix: update applied row ids of the fetched table to
 another one when its expressions rebind the name

---
 core/update.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/update.c b/core/update.c
index 6a9005d..84fbf7c 100644
--- a/core/update.c
+++ b/core/update.c
@@ -797,7 +797,7 @@ cleanup:
 obj_p ray_update(obj_p obj) {
     i64_t i, keyslen;
     obj_p tabsym, keys = NULL_OBJ, vals = NULL_OBJ, filters = NULL_OBJ, bins, groupby, gids = NULL_OBJ, tab, sym,
-                  prm, val, res;
+                  prm, val, res, *slot;
     struct query_ctx_t ctx;
 
     if (obj->type != TYPE_DICT)
@@ -963,6 +963,15 @@ obj_p ray_update(obj_p obj) {
 
     query_ctx_destroy(&ctx);
 
+    // The expressions may have bound the name to another table: row ids and values are of this one
+    if (tabsym->type == -TYPE_SYMBOL) {
+        slot = resolve_var(tabsym->i64);
+        if (slot != NULL && *slot != tab) {
+            drop_obj(*slot);
+            *slot = clone_obj(tab);
+        }
+    }
+
     drop_obj(tab);
 
     // This one will take care of dropping all the arguments
-- 
2.43.0


From e6097a400da352bcef3d7697b207ae09f6bcea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:03 +0000
Subject: [PATCH 095/102] fix: modifying a shared function in place left a
 reference to it forever

---
 core/rayforce.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/rayforce.c b/core/rayforce.c
index 27cff4e..7238368 100644
--- a/core/rayforce.c
+++ b/core/rayforce.c
@@ -3240,8 +3240,18 @@ obj_p cow_obj(obj_p obj) {
     if (rc == 1)
         return obj;
 
-    // we don't own the reference, so we need to copy object
-    return copy_obj(obj);
+    switch (obj->type) {
+        // have no parts to modify, so there is nothing to copy
+        case TYPE_NULL:
+        case TYPE_LAMBDA:
+        case TYPE_UNARY:
+        case TYPE_BINARY:
+        case TYPE_VARY:
+            return obj;
+        default:
+            // we don't own the reference, so we need to copy object
+            return copy_obj(obj);
+    }
 }
 
 u32_t rc_obj(obj_p obj) {
-- 
2.43.0


From 59f6bd45116d0e5170df2f1051cff18d5e13c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:12 +0000
Subject: [PATCH 096/102] fix: damaged headers and key files of stored values
 are refused

---
 core/unary.c | 184 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 103 insertions(+), 81 deletions(-)

diff --git a/core/unary.c b/core/unary.c
index 339cfb8..7ad6dbe 100644
--- a/core/unary.c
+++ b/core/unary.c
@@ -71,11 +71,111 @@ static b8_t external_fits(obj_p obj, i64_t size) {
     return obj->len >= 0 && obj->len <= size / item;
 }
 
-obj_p ray_get(obj_p x) {
+// The part of a mapped header which only the running process knows (the mapping is private)
+static nil_t external_adopt(obj_p obj, u8_t mmod) {
+    obj->mmod = mmod;
+    obj->order = 0;
+    obj->attrs &= ATTR_CONTENT_MASK;
+    obj->rc = 0;
+}
+
+// Value kept in a file: vectors stay mapped, anything else is read. The keys of an anymap are a vector always.
+static obj_p get_file(obj_p x, b8_t keys_only) {
     i64_t fd;
-    obj_p res, col, keys, s, v, *sym, path, fdmap;
+    obj_p res, col, keys, s, v, path, fdmap;
     i64_t sz, size;
 
+    if (x->len == 0)
+        return err_type(0, 0, 0, 0);
+
+    path = cstring_from_obj(x);
+    fd = fs_fopen(AS_C8(path), ATTR_RDWR);
+
+    if (fd == -1) {
+        res = err_os();
+        drop_obj(path);
+        return res;
+    }
+
+    size = fs_fsize(fd);
+
+    if (size < ISIZEOF(struct obj_t)) {
+        res = err_type(0, 0, 0, 0);
+        drop_obj(path);
+        fs_fclose(fd);
+        return res;
+    }
+
+    res = (obj_p)mmap_file(fd, NULL, size, 0);
+
+    if (res == NULL) {
+        res = err_type(0, 0, 0, 0);
+        drop_obj(path);
+        fs_fclose(fd);
+        return res;
+    }
+
+    if (IS_EXTERNAL_SERIALIZED(res) && !keys_only) {
+        sz = size - ISIZEOF(struct obj_t);
+        v = (sz == 0) ? err_length(0, 0, 0, 0, 0, 0) : de_raw((u8_t *)res + ISIZEOF(struct obj_t), &sz);
+        mmap_free(res, size);
+        fs_fclose(fd);
+        drop_obj(path);
+        return v;
+    } else if ((IS_EXTERNAL_COMPOUND(res) || IS_EXTERNAL_SIMPLE(res)) && !external_fits(res, size)) {
+        mmap_free(res, size);
+        fs_fclose(fd);
+        drop_obj(path);
+        return err_length(0, 0, 0, 0, 0, 0);
+    } else if (IS_EXTERNAL_COMPOUND(res) && !keys_only) {
+        fdmap = fdmap_create();
+        fdmap_add_fd(&fdmap, res, fd, size);
+        res = (obj_p)((str_p)res + RAY_PAGE_SIZE);
+        ((str_p)res)[-1] = '\0';  // of the name of the domain
+        external_adopt(res, MMOD_EXTERNAL_COMPOUND);
+        runtime_fdmap_push(runtime_get(), res, fdmap);
+    } else if (IS_EXTERNAL_SIMPLE(res)) {
+        fdmap = fdmap_create();
+        fdmap_add_fd(&fdmap, res, fd, size);
+        external_adopt(res, MMOD_EXTERNAL_SIMPLE);
+        runtime_fdmap_push(runtime_get(), res, fdmap);
+    } else {
+        mmap_free(res, size);
+        fs_fclose(fd);
+        res = err_type(0, 0, 0, 0);
+        drop_obj(path);
+        return res;
+    }
+
+    drop_obj(path);
+
+    // anymap needs additional nested mapping of dependencies
+    if (res->type == TYPE_MAPLIST) {
+        s = cstring_from_str("#", 1);
+        col = ray_concat(x, s);
+        keys = get_file(col, B8_TRUE);
+        drop_obj(s);
+        drop_obj(col);
+
+        if (!IS_ERR(keys) && keys->type != TYPE_U8) {
+            drop_obj(keys);
+            keys = err_type(TYPE_U8, 0, 0, 0);
+        }
+
+        if (IS_ERR(keys)) {
+            runtime_fdmap_pop(runtime_get(), res);
+            return keys;
+        }
+
+        ((obj_p)((str_p)res - RAY_PAGE_SIZE))->obj = keys;
+    }
+
+    return clone_obj(res);  // increment ref count
+}
+
+obj_p ray_get(obj_p x) {
+    obj_p *sym;
+
     switch (x->type) {
         case -TYPE_SYMBOL:
             sym = resolve(x->i64);
@@ -84,85 +184,7 @@ obj_p ray_get(obj_p x) {
 
             return clone_obj(*sym);
         case TYPE_C8:
-            if (x->len == 0)
-                return err_type(0, 0, 0, 0);
-
-            path = cstring_from_obj(x);
-            fd = fs_fopen(AS_C8(path), ATTR_RDWR);
-
-            if (fd == -1) {
-                res = err_os();
-                drop_obj(path);
-                return res;
-            }
-
-            size = fs_fsize(fd);
-
-            if (size < ISIZEOF(struct obj_t)) {
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
-                fs_fclose(fd);
-                return res;
-            }
-
-            res = (obj_p)mmap_file(fd, NULL, size, 0);
-
-            if (res == NULL) {
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
-                fs_fclose(fd);
-                return res;
-            }
-
-            if (IS_EXTERNAL_SERIALIZED(res)) {
-                sz = size - ISIZEOF(struct obj_t);
-                v = de_raw((u8_t *)res + ISIZEOF(struct obj_t), &sz);
-                mmap_free(res, size);
-                fs_fclose(fd);
-                drop_obj(path);
-                return v;
-            } else if ((IS_EXTERNAL_COMPOUND(res) || IS_EXTERNAL_SIMPLE(res)) && !external_fits(res, size)) {
-                mmap_free(res, size);
-                fs_fclose(fd);
-                drop_obj(path);
-                return err_length(0, 0, 0, 0, 0, 0);
-            } else if (IS_EXTERNAL_COMPOUND(res)) {
-                fdmap = fdmap_create();
-                fdmap_add_fd(&fdmap, res, fd, size);
-                res = (obj_p)((str_p)res + RAY_PAGE_SIZE);
-                runtime_fdmap_push(runtime_get(), res, fdmap);
-            } else if (IS_EXTERNAL_SIMPLE(res)) {
-                fdmap = fdmap_create();
-                fdmap_add_fd(&fdmap, res, fd, size);
-                runtime_fdmap_push(runtime_get(), res, fdmap);
-            } else {
-                mmap_free(res, size);
-                fs_fclose(fd);
-                res = err_type(0, 0, 0, 0);
-                drop_obj(path);
-                return res;
-            }
-
-            drop_obj(path);
-
-            // anymap needs additional nested mapping of dependencies
-            if (res->type == TYPE_MAPLIST) {
-                s = cstring_from_str("#", 1);
-                col = ray_concat(x, s);
-                keys = ray_get(col);
-                drop_obj(s);
-                drop_obj(col);
-
-                if (keys->type != TYPE_U8) {
-                    drop_obj(keys);
-                    mmap_free(res, size);
-                    return err_type(0, 0, 0, 0);
-                }
-
-                ((obj_p)((str_p)res - RAY_PAGE_SIZE))->obj = keys;
-            }
-            return clone_obj(res);  // increment ref count
-
+            return get_file(x, B8_FALSE);
         default:
             return err_type(0, 0, 0, 0);
     }
-- 
2.43.0


From 9d016cdd768f2dc59fc8ab9403499fe540d3b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:27 +0000
Subject: [PATCH 097/102] fix: damaged offsets in mapped lists of stored values
 are refused

---
 core/cmp.c     | 19 +++++++++----------
 core/compose.c | 23 ++++++-----------------
 core/items.c   | 47 ++++++++++++++++++++---------------------------
 3 files changed, 35 insertions(+), 54 deletions(-)

diff --git a/core/cmp.c b/core/cmp.c
index 7337565..0d1378b 100644
--- a/core/cmp.c
+++ b/core/cmp.c
@@ -392,9 +392,11 @@ static b8_t list_of_atoms(obj_p x, i8_t type) {
 static b8_t maplist_of_atoms(obj_p x, i8_t type) {
     u8_t *buf = AS_U8(MAPLIST_KEY(x));
     obj_p offsets = MAPLIST_VAL(x);
+    // the offsets come from a file: a type and 8 bytes are to be read at each
+    i64_t last = MAPLIST_KEY(x)->len - 1 - ISIZEOF(i64_t);
 
     for (i64_t i = 0; i < offsets->len; i++)
-        if ((i8_t)buf[AS_I64(offsets)[i]] != type)
+        if (AS_I64(offsets)[i] < 0 || AS_I64(offsets)[i] > last || (i8_t)buf[AS_I64(offsets)[i]] != type)
             return B8_FALSE;
 
     return B8_TRUE;
@@ -451,13 +453,11 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
         obj_p offsets = MAPLIST_VAL(x);
         l = offsets->len;
 
-        // Check the type of the first element
         if (l > 0) {
-            u8_t *buf = AS_U8(key) + AS_I64(offsets)[0];
-            i8_t elem_type = (i8_t)buf[0];
+            u8_t *buf;
 
             // If MAPLIST contains i64 atoms, extract directly to typed vector
-            if (elem_type == -TYPE_I64 && y->type == -TYPE_I64 && maplist_of_atoms(x, elem_type)) {
+            if (y->type == -TYPE_I64 && maplist_of_atoms(x, -TYPE_I64)) {
                 obj_p vec = I64(l);
                 for (i = 0; i < l; i++) {
                     buf = AS_U8(key) + AS_I64(offsets)[i];
@@ -472,7 +472,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
                 return res;
             }
             // If MAPLIST contains f64 atoms, extract directly to typed vector
-            if (elem_type == -TYPE_F64 && y->type == -TYPE_F64 && maplist_of_atoms(x, elem_type)) {
+            if (y->type == -TYPE_F64 && maplist_of_atoms(x, -TYPE_F64)) {
                 obj_p vec = F64(l);
                 for (i = 0; i < l; i++) {
                     buf = AS_U8(key) + AS_I64(offsets)[i];
@@ -508,10 +508,9 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
         l = offsets->len;
 
         if (l > 0) {
-            u8_t *buf = AS_U8(key) + AS_I64(offsets)[0];
-            i8_t elem_type = (i8_t)buf[0];
+            u8_t *buf;
 
-            if (elem_type == -TYPE_I64 && x->type == -TYPE_I64 && maplist_of_atoms(y, elem_type)) {
+            if (x->type == -TYPE_I64 && maplist_of_atoms(y, -TYPE_I64)) {
                 obj_p vec = I64(l);
                 for (i = 0; i < l; i++) {
                     buf = AS_U8(key) + AS_I64(offsets)[i];
@@ -525,7 +524,7 @@ obj_p cmp_map(raw_p op, obj_p x, obj_p y) {
                 drop_obj(vec);
                 return res;
             }
-            if (elem_type == -TYPE_F64 && x->type == -TYPE_F64 && maplist_of_atoms(y, elem_type)) {
+            if (x->type == -TYPE_F64 && maplist_of_atoms(y, -TYPE_F64)) {
                 obj_p vec = F64(l);
                 for (i = 0; i < l; i++) {
                     buf = AS_U8(key) + AS_I64(offsets)[i];
diff --git a/core/compose.c b/core/compose.c
index 423aa58..b08d8d0 100644
--- a/core/compose.c
+++ b/core/compose.c
@@ -296,7 +296,7 @@ obj_p ray_table(obj_p x, obj_p y) {
                 break;
             case TYPE_ENUM:
                 synergy = B8_FALSE;
-                j = AS_LIST(AS_LIST(y)[i])[1]->len;
+                j = ops_count(AS_LIST(y)[i]);
                 if (cl != NULL_I64 && j != cl) {
                     drop_obj(l);
                     return err_length(0, 0, 0, 0, 0, 0);
@@ -941,22 +941,11 @@ obj_p ray_distinct(obj_p x) {
             res = enumerate(ray_key(x), res);
             return res;
         case TYPE_MAPLIST: {
-            // MAPLIST has key (mmaped symbol file) and value (byte offsets)
-            // Get distinct indices, then expand to actual values
-            obj_p val = MAPLIST_VAL(x);
-            obj_p key = MAPLIST_KEY(x);
-            i64_t sl = key->len;
-            l = val->len;
-            obj_p distinct_idx = index_distinct_i64(AS_I64(val), l);
-            i64_t dl = distinct_idx->len;
-            res = LIST(dl);
-            for (i64_t i = 0; i < dl; i++) {
-                i64_t offset = AS_I64(distinct_idx)[i];
-                u8_t *buf = AS_U8(key) + offset;
-                i64_t size = sl;
-                AS_LIST(res)[i] = de_raw(buf, &size);
-            }
-            drop_obj(distinct_idx);
+            obj_p val = ray_value(x);
+            if (IS_ERR(val))
+                return val;
+            res = ray_distinct(val);
+            drop_obj(val);
             return res;
         }
         case TYPE_MAPCOMMON:
diff --git a/core/items.c b/core/items.c
index 23978d6..d6a2c0a 100644
--- a/core/items.c
+++ b/core/items.c
@@ -1301,33 +1301,19 @@ obj_p ray_value(obj_p x) {
             return res;
 
         case TYPE_MAPLIST:
-            k = MAPLIST_KEY(x);
-            e = MAPLIST_VAL(x);
-
-            xl = e->len;
-            sl = k->len;
-
-            size = sl;
-
+            xl = MAPLIST_VAL(x)->len;
             res = vector(TYPE_LIST, xl);
 
             for (i = 0; i < xl; i++) {
-                if (AS_I64(e)[i] < sl) {
-                    buf = AS_U8(k) + AS_I64(e)[i];
-                    v = de_raw(buf, &size);
-
-                    if (IS_ERR(v)) {
-                        res->len = i;
-                        drop_obj(res);
-                        return v;
-                    }
+                v = at_idx(x, i);
 
-                    AS_LIST(res)[i] = v;
-                } else {
+                if (IS_ERR(v)) {
                     res->len = i;
                     drop_obj(res);
-                    return err_index(AS_I64(e)[i], sl, 0, 0);
+                    return v;
                 }
+
+                AS_LIST(res)[i] = v;
             }
 
             return res;
@@ -1345,16 +1331,18 @@ obj_p ray_value(obj_p x) {
             // WARNING: here is assumed that inside parted list there are only map lists
             for (i = 0; i < l; i++) {
                 n = ops_count(AS_LIST(x)[i]);
-                k = MAPLIST_KEY(AS_LIST(x)[i]);
-                v = MAPLIST_VAL(AS_LIST(x)[i]);
-                size = k->len;
 
                 for (j = 0; j < n; j++) {
-                    buf = AS_U8(k) + AS_I64(v)[j];
-                    objptr[j] = de_raw(buf, &size);
-                }
+                    v = at_idx(AS_LIST(x)[i], j);
+
+                    if (IS_ERR(v)) {
+                        res->len = objptr - AS_LIST(res);
+                        drop_obj(res);
+                        return v;
+                    }
 
-                objptr += n;
+                    *objptr++ = v;
+                }
             }
 
             return res;
@@ -1451,6 +1439,11 @@ obj_p ray_value(obj_p x) {
             for (i = 0; i < l; i++) {
                 v = ray_value(AS_LIST(x)[i]);
                 n = v->len;
+
+                // indices, there is no domain to resolve them
+                if (v->type != TYPE_SYMBOL)
+                    res->type = v->type;
+
                 memcpy(i64ptr, AS_I64(v), n * sizeof(i64_t));
                 drop_obj(v);
                 i64ptr += n;
-- 
2.43.0


From 05d63650ea0ba86355b05513bc20680fb15a2a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:43 +0000
Subject: [PATCH 098/102] fix: reading a file whose size is unknown allocated
 from an error code

---
 core/io.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/io.c b/core/io.c
index 3ea23b6..f32647c 100644
--- a/core/io.c
+++ b/core/io.c
@@ -334,6 +334,14 @@ obj_p ray_read(obj_p x) {
             }
 
             size = fs_fsize(fd);
+
+            if (size < 0) {
+                res = err_os();
+                drop_obj(s);
+                fs_fclose(fd);
+                return res;
+            }
+
             res = C8(size + 1);
             buf = AS_C8(res);
             c = fs_fread(fd, buf, size);
-- 
2.43.0


From 2cfb427073992c547ddd12bac405fbf3be3911cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:52 +0000
Subject: [PATCH 099/102] fix: a splayed table was loaded from columns of other
 kinds and different lengths

---
 core/io.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/core/io.c b/core/io.c
index f32647c..bc3de60 100644
--- a/core/io.c
+++ b/core/io.c
@@ -1453,6 +1453,24 @@ obj_p io_get_table_splayed(obj_p path, obj_p symfile) {
 
         if (val->type == TYPE_ENUM)
             syms_present = B8_TRUE;
+
+        // files of a table make up its columns only together
+        if (!(IS_VECTOR(val) || val->type == TYPE_ENUM || val->type == TYPE_MAPLIST)) {
+            i8_t actual = val->type;
+            vals->len = i + 1;
+            drop_obj(vals);
+            drop_obj(keys);
+
+            return err_type(TYPE_LIST, actual, 0, 0);
+        }
+
+        if (ops_count(val) != ops_count(AS_LIST(vals)[0])) {
+            vals->len = i + 1;
+            drop_obj(vals);
+            drop_obj(keys);
+
+            return err_length(0, 0, 0, 0, 0, 0);
+        }
     }
 
     // read symbol data (if any) if sym is not present in current env
-- 
2.43.0


From ff3c9da155d9e6b95758b9b021dfb3eeda7258be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:02 +0000
Subject: [PATCH 100/102] fix: an unreadable symbol file was replaced, and
 unreadable folders looked empty

---
 core/fs.c | 36 ++++++++++++++++++++++++++++++++++--
 core/fs.h |  2 ++
 core/io.c | 15 ++++++++++++++-
 3 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/core/fs.c b/core/fs.c
index 44669e9..df89fe6 100644
--- a/core/fs.c
+++ b/core/fs.c
@@ -271,13 +271,19 @@ obj_p fs_read_dir(lit_p path) {
     obj_p lst = LIST(0);
 
     if ((dir = opendir(path)) != NULL) {
-        while ((ent = readdir(dir)) != NULL) {
+        while (errno = 0, (ent = readdir(dir)) != NULL) {
             if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0)
                 continue;
 
             push_obj(&lst, string_from_str(ent->d_name, strlen(ent->d_name)));
         }
 
+        // a part of the entries is not to be taken for all of them
+        if (errno != 0) {
+            drop_obj(lst);
+            lst = err_os();
+        }
+
         closedir(dir);
     }
 
@@ -414,13 +420,19 @@ obj_p fs_read_dir(lit_p path) {
     obj_p lst = LIST(0);
 
     if ((dir = opendir(path)) != NULL) {
-        while ((ent = readdir(dir)) != NULL) {
+        while (errno = 0, (ent = readdir(dir)) != NULL) {
             if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0)
                 continue;
 
             push_obj(&lst, string_from_str(ent->d_name, strlen(ent->d_name)));
         }
 
+        // a part of the entries is not to be taken for all of them
+        if (errno != 0) {
+            drop_obj(lst);
+            lst = err_os();
+        }
+
         closedir(dir);
     }
 
@@ -445,6 +457,26 @@ i64_t fs_get_fname_by_fd(i64_t fd, c8_t buf[], i64_t len) {
 
 #endif
 
+b8_t fs_exists(lit_p path) {
+#if defined(OS_WINDOWS)
+    return GetFileAttributes(path) != INVALID_FILE_ATTRIBUTES;
+#else
+    return access(path, F_OK) == 0;
+#endif
+}
+
+// Opens a file for a new content. Values mapped from the old one must not change, so it is replaced, not rewritten.
+i64_t fs_fcreate(lit_p path) {
+#if !defined(OS_WINDOWS)
+    struct stat st;
+
+    if (lstat(path, &st) == 0 && S_ISREG(st.st_mode) && access(path, W_OK) == 0)
+        fs_fdelete(path);
+#endif
+
+    return fs_fopen(path, ATTR_WRONLY | ATTR_CREAT);
+}
+
 i64_t fs_filename(lit_p path, lit_p *name) {
     i64_t i, len;
     lit_p p;
diff --git a/core/fs.h b/core/fs.h
index 033f4c4..820e95d 100644
--- a/core/fs.h
+++ b/core/fs.h
@@ -48,7 +48,9 @@
 #include <fcntl.h>
 
 i64_t fs_fopen(lit_p path, i64_t attrs);
+i64_t fs_fcreate(lit_p path);
 i64_t fs_fdelete(lit_p path);
+b8_t fs_exists(lit_p path);
 i64_t fs_fsize(i64_t fd);
 i64_t fs_fread(i64_t fd, str_p buf, i64_t size);
 i64_t fs_fwrite(i64_t fd, str_p buf, i64_t size);
diff --git a/core/io.c b/core/io.c
index bc3de60..c89c592 100644
--- a/core/io.c
+++ b/core/io.c
@@ -1328,7 +1328,20 @@ obj_p io_set_table_splayed(obj_p path, obj_p table, obj_p symfile) {
                 // it with sym and enumerate symbol columns over the whole new sym file, preserving ids of the old
                 // ones
                 s = ray_get(symfile);
-                if (s->type == TYPE_SYMBOL) {
+                if (s->type != TYPE_SYMBOL) {
+                    // never replace a file which is there: ids of other tables are in it
+                    p = cstring_from_obj(symfile);
+                    i = fs_exists(AS_C8(p));
+                    drop_obj(p);
+
+                    if (i) {
+                        res = IS_ERR(s) ? clone_obj(s) : err_type(TYPE_SYMBOL, s->type, 0, 0);
+                        drop_obj(s);
+                        drop_obj(cols);
+                        drop_obj(sym);
+                        return res;
+                    }
+                } else {
                     // First retrieve distinct symbols from the new columns not present in current sym file
                     v = ray_except(sym, s);
                     drop_obj(sym);
-- 
2.43.0


From 426cf74ae4717525f808bd3bbbba95fa5c26edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:12 +0000
Subject: [PATCH 101/102] fix: values mapped from a file changed or faulted
 when the file was stored again

---
 core/binary.c | 8 ++++----
 core/io.c     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/binary.c b/core/binary.c
index f0ca93c..55bd9c7 100644
--- a/core/binary.c
+++ b/core/binary.c
@@ -74,7 +74,7 @@ obj_p binary_set(obj_p x, obj_p y) {
             switch (y->type) {
                 case TYPE_SYMBOL:
                     path = cstring_from_obj(x);
-                    fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
+                    fd = fs_fcreate(AS_C8(path));
 
                     if (fd == -1) {
                         res = err_os();
@@ -107,7 +107,7 @@ obj_p binary_set(obj_p x, obj_p y) {
                     return io_set_table(x, y);
                 case TYPE_ENUM:
                     path = cstring_from_obj(x);
-                    fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
+                    fd = fs_fcreate(AS_C8(path));
 
                     if (fd == -1) {
                         res = err_os();
@@ -219,7 +219,7 @@ obj_p binary_set(obj_p x, obj_p y) {
 
                     // save anymap
                     path = cstring_from_obj(x);
-                    fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
+                    fd = fs_fcreate(AS_C8(path));
 
                     if (fd == -1) {
                         res = err_os();
@@ -273,7 +273,7 @@ obj_p binary_set(obj_p x, obj_p y) {
                 default:
                     if (IS_VECTOR(y)) {
                         path = cstring_from_obj(x);
-                        fd = fs_fopen(AS_C8(path), ATTR_WRONLY | ATTR_CREAT);
+                        fd = fs_fcreate(AS_C8(path));
 
                         if (fd == -1) {
                             res = err_os();
diff --git a/core/io.c b/core/io.c
index c89c592..8909c01 100644
--- a/core/io.c
+++ b/core/io.c
@@ -1254,7 +1254,7 @@ obj_p io_set_table(obj_p path, obj_p table) {
 
     // Save as a blob (serialized)
     s = cstring_from_obj(path);
-    fd = fs_fopen(AS_C8(s), ATTR_WRONLY | ATTR_CREAT | ATTR_TRUNC);
+    fd = fs_fcreate(AS_C8(s));
 
     if (fd == -1) {
         res = err_os();
-- 
2.43.0


From b5f4a8cf0c660992162cc9a249bbe7b5d99b0174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:22 +0000
Subject: [PATCH 102/102] fix: joins on parted and mapped columns never ended
 or failed

---
 core/join.c | 64 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 5 deletions(-)

diff --git a/core/join.c b/core/join.c
index 6e17843..0d1c2fb 100644
--- a/core/join.c
+++ b/core/join.c
@@ -35,6 +35,40 @@
 #include "order.h"
 #include "query.h"
 
+#define JOIN_PLAIN(v) ((v)->type >= TYPE_LIST && (v)->type < TYPE_ENUM)
+
+// Column as a plain vector: enums and other maps are resolved
+static obj_p join_value(obj_p col) {
+    i64_t i, j, n;
+    obj_p v, ids;
+
+    if (JOIN_PLAIN(col))
+        return clone_obj(col);
+
+    if (col->type == TYPE_MAPCOMMON) {
+        ids = I64(ops_count(col));
+
+        for (i = 0, n = 0; i < AS_LIST(col)[0]->len; i++)
+            for (j = 0; j < AS_I64(AS_LIST(col)[1])[i]; j++)
+                AS_I64(ids)[n++] = i;
+
+        v = at_ids(AS_LIST(col)[0], AS_I64(ids), n);
+        drop_obj(ids);
+
+        return v;
+    }
+
+    v = ray_value(col);
+
+    if (!IS_ERR(v) && !JOIN_PLAIN(v)) {
+        i8_t type = v->type;
+        drop_obj(v);
+        return err_type(TYPE_LIST, type, 0, 0);
+    }
+
+    return v;
+}
+
 // Columns of the table by name, as plain vectors (enums are resolved), always a list of them
 static obj_p join_columns(obj_p tab, obj_p syms) {
     i64_t i, j, l, n;
@@ -58,7 +92,7 @@ static obj_p join_columns(obj_p tab, obj_p syms) {
         v = (j == n) ? err_value(AS_SYMBOL(syms)[i]) : AS_LIST(AS_LIST(tab)[1])[j];
 
         if (!IS_ERR(v))
-            v = (v->type >= TYPE_LIST && v->type < TYPE_ENUM) ? clone_obj(v) : ray_value(v);
+            v = join_value(v);
 
         if (IS_ERR(v)) {
             res->len = i;
@@ -103,8 +137,8 @@ obj_p select_column(obj_p left_col, obj_p right_col, i64_t ids[], i64_t len) {
     i8_t type;
 
     // enums (and other maps) are joined by value
-    if (!is_null(right_col) && !(right_col->type >= TYPE_LIST && right_col->type < TYPE_ENUM)) {
-        v = ray_value(right_col);
+    if (!is_null(right_col) && !JOIN_PLAIN(right_col)) {
+        v = join_value(right_col);
         if (IS_ERR(v))
             return v;
         res = select_column(left_col, v, ids, len);
@@ -112,8 +146,8 @@ obj_p select_column(obj_p left_col, obj_p right_col, i64_t ids[], i64_t len) {
         return res;
     }
 
-    if (!is_null(right_col) && !is_null(left_col) && !(left_col->type >= TYPE_LIST && left_col->type < TYPE_ENUM)) {
-        v = ray_value(left_col);
+    if (!is_null(right_col) && !is_null(left_col) && !JOIN_PLAIN(left_col)) {
+        v = join_value(left_col);
         if (IS_ERR(v))
             return v;
         res = select_column(v, right_col, ids, len);
@@ -147,6 +181,26 @@ obj_p select_column(obj_p left_col, obj_p right_col, i64_t ids[], i64_t len) {
 
 obj_p get_column(obj_p left_col, obj_p right_col, obj_p lids, obj_p rids) {
     i8_t type;
+    obj_p v, res;
+
+    // maps other than enums are joined by value
+    if (!is_null(right_col) && !JOIN_PLAIN(right_col) && right_col->type != TYPE_ENUM) {
+        v = join_value(right_col);
+        if (IS_ERR(v))
+            return v;
+        res = get_column(left_col, v, lids, rids);
+        drop_obj(v);
+        return res;
+    }
+
+    if (!is_null(left_col) && !JOIN_PLAIN(left_col) && left_col->type != TYPE_ENUM) {
+        v = join_value(left_col);
+        if (IS_ERR(v))
+            return v;
+        res = get_column(v, right_col, lids, rids);
+        drop_obj(v);
+        return res;
+    }
 
     // there is no such column in the right table
     if (is_null(right_col))
-- 
2.43.0

